"""C11 occupants: comfort target, clothing, air speed, and their heat and moisture."""
import itertools
import json
import numpy as np
from mc import bench, coreexp, family, ref, runner
from mc.house import House
from mc.runner import Tally


def judge(t, m, st, L, out, case):
    n = np.asarray(L['n_hum'], float)
    q = np.array([ref.q_hum(v) for v in st['tr']]) * n
    t.close('occupant heat', out['q_hum'], q, 1e-9, case)
    t.close('occupant moisture', out['x_hum'] * ref.L_WTR, 119.0 * n - q, 1e-7, case)
    t.close('occupant convective coefficient', out['hhc'], np.full(m.ni, ref.HUM_C), 1e-9, case)
    t.close('occupant radiative coefficient', out['hhr'], np.full(m.ni, ref.HUM_R), 1e-9, case)
    t.close('operative temperature', out['ot'], (ref.HUM_C * out['tr'] + ref.HUM_R * out['mrt']) / (ref.HUM_C + ref.HUM_R), 1e-8, case)
    d = np.asarray(L['ac'], float)
    for i in range(m.ni):
        md = int(out['mode'][i])
        r = json.loads(out['remarks'][i])
        t.close('recorded clothing', r['clo'], {1: 0.3, 2: 1.1, 3: 0.7, 4: 0.7}[md], 1e-12, case)
        t.close('recorded PMV target', r['pmv_target'], {1: 0.5, 2: -0.5, 3: 0.0, 4: 0.0}[md], 1e-12, case)
        v = {1: 0.0 if m.rad_c[i] else 0.2, 2: 0.0 if m.rad_h[i] else 0.2, 3: 0.1, 4: 0.0}[md]
        t.close('recorded air speed', r['v_hum m/s'], v, 1e-12, case)
        if md in (1, 2) and d[i] == 1.0 and (abs(out['lc'][i]) > 1e-6 or abs(out['lr'][i]) > 1e-6):
            clo, tg = (0.3, 0.5) if md == 1 else (1.1, -0.5)
            t.close('PMV reached', ref.pmv(clo, st['x'][i], out['ot'][i], out['ot'][i]), tg, 1e-8, case)
        t.outcome((md, bool(m.rad_c[i]), bool(m.rad_h[i]), round(float(q[i]), 0)))


def monitor(t, x):
    judge(t, x.m, x.st, x.L, x.out, x.case)


def product(job):
    name, step = job
    t = Tally()
    h0 = family.by_name(name)
    letters = []
    for n_hum, to, a in itertools.product((0.0, 1.0, 2.75), (-10.0, 35.0), (0.0, 1.0)):
        L = dict(h0.letters[0])
        L['n_hum'] = [n_hum] * h0.ni
        L['theta_o'] = to
        L['theta_o_sol'] = [to] * h0.nj
        L['ac'] = [a] * h0.ni
        letters.append(L)
    h = House(h0.spaces, h0.boundaries, letters)
    h.building = h0.building
    I = bench.Impl(h)
    m = ref.Model(h)
    c0 = I.initial()
    # temperatures across the kink of the metabolic heat at 10 degC, humidities across the range
    tg = sorted(set([float(v) for v in np.arange(-5.0, 45.0, step)] + [9.999, 10.0, 10.001]))
    for tr, xr, mode, k in itertools.product(tg, (0.0005, 0.004, 0.01, 0.02, 0.03), (1, 2, 3, 4), range(len(letters))):
        c = bench.craft(c0, mode=[mode] * h.ni, tr=[tr + i for i in range(h.ni)], mrt=[tr] * h.ni, x=[xr] * h.ni)
        c2, out = I.step(c, k)
        t.count(transitions=1, states=1)
        judge(t, m, bench.state_of(c), letters[k], out, {'house': name, 'tr': tr, 'x': xr, 'mode': mode, 'letter': k})
    return t


def explore(run):
    names = ['1room-convective-convective', '1room-radiative-convective', '1room-convective-radiative', '3room-interleaved']
    if run.thorough:
        names = [h.name for h in family.houses()]
    run.pmap(product, [(n, 1.0 if run.thorough else 5.0) for n in names])
    coreexp.standard(run, 'c11', depth_q=2)


if __name__ == '__main__':
    runner.main('C11', 'model_checking',
                'full product of room temperature x humidity x mode x occupants x weather, plus all words up to the bound, one transition '
                'each; distinct = (mode, equipment, metabolic heat) classes', explore)
