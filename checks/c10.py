"""C10 infiltration and natural ventilation."""
import itertools
import numpy as np
from mc import bench, coreexp, family, ref, runner
from mc.house import House
from mc.runner import Tally


def judge(t, h, m, st, L, out, case):
    exp = ref.leakage(h, st['tr'], L['theta_o'])
    t.close('infiltration', out['v_leak'], exp, 1e-12, case, rtol=1e-9)
    nat = np.where(np.asarray(out['mode']) == ref.STOP_OPEN, m.Vnat, 0.0)
    t.close('natural ventilation', out['v_ntrl'], nat, 1e-15, case, rtol=1e-12)
    t.outcome((h.building['story'], h.building['inside_pressure'], bool(exp.sum() > 0), tuple(int(v) for v in out['mode']), np.round(exp.sum() * 3600, 0)))


def monitor(t, x):
    judge(t, x.h, x.m, x.st, x.L, x.out, x.case)
    # the flows really enter the air balance of the step
    m, o, L = x.m, x.out, x.L
    if not m.Vn.any():
        cr = ref.C_AIR * ref.RHO
        v = m.Vex + np.asarray(L['v_loc'], float) + ref.leakage(x.h, x.st['tr'], L['theta_o']) \
            + np.where(np.asarray(o['mode']) == ref.STOP_OPEN, m.Vnat, 0.0)
        res = m.Cr / x.dt * (o['tr'] - x.st['tr']) - (
            m.P @ (m.A * m.h_c * o['ts']) - (m.P @ (m.A * m.h_c)) * o['tr'] + m.Gf * (o['tf'] - o['tr'])
            + np.asarray(L['q_gen'], float) + o['q_hum'] + o['lc'] + m.beta * o['lr'])
        t.close('heat carried by outdoor air', res, cr * v * (L['theta_o'] - o['tr']), 1e-4, x.case, rtol=1e-9)


def product(job):
    """the same total volume, shared out in different orders, in one process"""
    story, pressure, c_value, tiny, thorough = job
    t = Tally()
    for v in (((0.4, 0.9, 60.0), (60.0, 0.4, 0.9), (0.9, 60.0, 0.4)) if tiny else (None,)):
        shared_out(t, v, story, pressure, c_value, thorough and v != (60.0, 0.4, 0.9))
    return t


def shared_out(t, tiny, story, pressure, c_value, thorough):
    base = family.by_name('3room-interleaved')
    spaces = base.spaces
    if tiny:
        # rooms of very different size: the mean indoor temperature is weighted by volume
        spaces = [dict(s, volume=v) for s, v in zip(base.spaces, tiny)]
    letters = []
    for to in ((-40.0, -15.0, 0.0, 19.9, 20.0, 20.1, 33.0) if not thorough else np.arange(-40, 40.1, 1.0)):
        L = dict(base.letters[5])
        L['theta_o'] = float(to)
        L['ac'] = [1.0] * base.ni
        letters.append(L)
    h = House(spaces, base.boundaries, letters, story=story, c_value=c_value, pressure=pressure)
    I = bench.Impl(h)
    m = ref.Model(h)
    c0 = I.initial()
    tg = (5.0, 20.0, 26.0)
    for k, trs, mode in itertools.product(range(len(letters)), itertools.product(tg, repeat=3), (1, 2, 3, 4)):
        c = bench.craft(c0, mode=[mode, mode % 4 + 1, 3], tr=list(trs), mrt=list(trs), x=[0.008, 0.01, 0.006])
        c2, out = I.step(c, k)
        t.count(transitions=1, states=1)
        judge(t, h, m, bench.state_of(c), letters[k], out,
              {'story': story, 'pressure': pressure, 'c_value': c_value, 'volumes': [s['volume'] for s in spaces], 'theta_o': letters[k]['theta_o'], 'tr': trs, 'mode': mode})


def together(job):
    """many buildings loaded first and asked afterwards: each keeps its own leakage"""
    t = Tally()
    base = family.by_name('3room-interleaved')
    other = family.by_name('2room-inner')
    loaded = []
    for g, (s, p, c, v) in itertools.product((base, other), itertools.product((1, 2), ('negative', 'balanced', 'positive'), (0.5, 4.0), (1.0, 2.5))):
        h = House([dict(x, volume=x['volume'] * (v if i else 1.0), ventilation=dict(x['ventilation'], natural=x['ventilation']['natural'] * v)) for i, x in enumerate(g.spaces)],
                  g.boundaries, g.letters, story=s, c_value=c, pressure=p)
        loaded.append(({'story': s, 'pressure': p, 'c_value': c, 'volumes': [x['volume'] for x in h.spaces]}, h, bench.Impl(h), ref.Model(h)))
    for order in (loaded, loaded[::-1]):
        for case, h, I, m in order:
            for k, tr, mode in itertools.product(range(len(h.letters)), (2.0, 27.0), (3, 4)):
                c = bench.craft(I.initial(), mode=[mode] * h.ni, tr=[tr + i for i in range(h.ni)], mrt=[tr] * h.ni, x=[0.008] * h.ni)
                _, out = I.step(c, k)
                t.count(transitions=1, states=1)
                judge(t, h, m, bench.state_of(c), h.letters[k], out, dict(case, loaded='with the others', letter=k, tr=tr, mode=mode))
    return t


def explore(run):
    run.merge(together(None))
    cs = (0.0, 1.0, 3.5, 30.0) if not run.thorough else (0.0, 0.2, 0.5, 1.0, 2.0, 3.5, 5.0, 8.0, 12.0, 20.0, 40.0)
    run.pmap(product, [(s, p, c, tiny, run.thorough) for tiny in (False, True) for s in (1, 2) for p in ('negative', 'balanced', 'positive') for c in cs])
    coreexp.standard(run, 'c10', depth_q=2, depth_t=4)


if __name__ == '__main__':
    runner.main('C10', 'model_checking',
                'full product of storeys, inside pressures, leakage areas, room temperatures, outdoor temperatures and modes, plus all words '
                'up to the bound, one transition each; distinct = (storey, pressure, mode, flow) classes', explore)
