"""C04 operation-mode automaton."""
import itertools
import numpy as np
from mc import bench, coreexp, family, ref, runner
from mc.runner import Tally


def judge(t, m, st, L, out, mode2, case):
    for i in range(m.ni):
        exp, gap = ref.mode_next(int(st['mode'][i]), L['ac'][i], st['x'][i], st['tr'][i], st['mrt'][i])
        if gap < 1e-9:
            t.count(skipped_on_threshold=1)
            continue
        t.check('operation mode', int(out['mode'][i]) == exp, case, 'room %d: from mode %d to %d, expected %d' % (
            i, st['mode'][i], out['mode'][i], exp))
        t.check('mode handed on', int(mode2[i]) == int(out['mode'][i]), case, 'recorded mode differs from the mode handed on')
        t.outcome((int(st['mode'][i]), L['ac'][i] > 0, exp))


def monitor(t, x):
    judge(t, x.m, x.st, x.L, x.out, x.st2['mode'], x.case)


def temps():
    """temperatures around every switching point of the automaton, and a coarse grid"""
    out = []
    for xr in (0.001, 0.008, 0.02):
        g = [float(v) for v in np.arange(-22.0, 52.0, 4.0)]
        for clo, levels in ((1.1, (-0.7, 0.7)), (0.7, (0.0,)), (0.3, (-0.7, 0.7))):
            for lv in levels:
                c = ref.ot_for_pmv(clo, xr, lv)
                g += [c - 0.5, c - 1e-4, c + 1e-4, c + 0.5]
        out += [(xr, v, v + d) for v in sorted(g) for d in (0.0, -3.0, 3.0)]
    return out


def product(job):
    name, lo, hi = job
    t = Tally()
    from mc.house import House
    h0 = family.by_name(name)
    letters = []
    for a in (0.0, 1e-6, 0.3, 1.0):
        L = dict(h0.letters[0])
        L['ac'] = [a] * h0.ni
        letters.append(L)
    h = House(h0.spaces, h0.boundaries, letters)
    h.building = h0.building
    I = bench.Impl(h)
    m = ref.Model(h)
    c0 = I.initial()
    for n, ((xr, tr, mrt), k, mode) in enumerate(itertools.product(temps(), range(4), (1, 2, 3, 4))):
        if not lo <= n % 8 < hi:
            continue
        # the other rooms are put in a different condition to expose mixing of rooms
        modes = [((mode - 1 + 3 * i) % 4) + 1 for i in range(h.ni)]
        c = bench.craft(c0, mode=modes, tr=[tr + 1.5 * i for i in range(h.ni)], mrt=[mrt - 1.0 * i for i in range(h.ni)],
                        x=[xr * (1.0 + 0.3 * i) for i in range(h.ni)])
        c2, out = I.step(c, k)
        t.count(transitions=1, states=1)
        judge(t, m, bench.state_of(c), letters[k], out, bench.state_of(c2)['mode'],
              {'house': name, 'demand': letters[k]['ac'], 'mode': modes, 'tr': tr, 'mrt': mrt, 'x': xr})
    return t


def explore(run):
    run.assumptions = ['clothing 1.1/0.7/0.3 clo, seated quiet, fixed heat transfer coefficients around the occupants']
    names = ['1room-convective-convective', '1room-radiative-radiative', '3room-interleaved']
    if run.thorough:
        names = [h.name for h in family.houses()]
    run.pmap(product, [(n, q, q + 1) for n in names for q in range(8)])
    coreexp.standard(run, 'c04', depth_q=2)


if __name__ == '__main__':
    runner.main('C04', 'model_checking',
                'the full product (previous mode x demand x temperatures on both sides of every threshold x humidity) and all words up to '
                'the bound, one transition each; distinct = (mode, demand, next mode) edges of the automaton', explore)
