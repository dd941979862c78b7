"""C33 comfort with the clothing temperature of the occupant (iterated coefficients): full product of air, mode, equipment; groups of rooms."""
import itertools
import warnings

import numpy as np

from mc import ref, runner
from mc.runner import Tally

MODES = (ref.COOLING, ref.HEATING, ref.STOP_OPEN, ref.STOP_CLOSE)
M = 58.15


def speed(mode, rh, rc):
    if mode == ref.HEATING:
        return 0.0 if rh else 0.2
    if mode == ref.COOLING:
        return 0.0 if rc else 0.2
    return 0.1 if mode == ref.STOP_OPEN else 0.0


def icl_fcl(clo):
    i = clo * 0.155
    return i, (1.0 + 1.29 * i if i <= 0.078 else 1.05 + 0.645 * i)


def coefficients(clo, ta, mr, v):
    """convective and radiant coefficient with the clothing temperature that balances the clothed body (arrays, bisection)"""
    i, f = icl_fcl(clo)
    lo, hi = np.full_like(ta, -80.0), np.full_like(ta, 130.0)

    def co(t):
        a, b = t + 273.0, mr + 273.0
        return np.maximum(12.1 * np.sqrt(v), 2.38 * np.abs(t - ta) ** 0.25), 3.96e-8 * (a ** 3 + a * a * b + a * b * b + b ** 3)
    for _ in range(80):
        t = 0.5 * (lo + hi)
        c, r = co(t)
        g = 35.7 - 0.028 * M - i * f * (c * (t - ta) + r * (t - mr)) - t
        lo, hi = np.where(g > 0, t, lo), np.where(g > 0, hi, t)
    t = 0.5 * (lo + hi)
    return co(t) + (t,)


def index(clo, x, ta, mr, h_c, h_r):
    p = 101325.0 * x / (x + 0.62198)
    i, f = icl_fcl(clo)
    h = h_c + h_r
    ot = (h_r * mr + h_c * ta) / h
    k = 0.303 * np.exp(-0.036 * M) + 0.028
    return k * (M - 3.05e-3 * (5733.0 - 6.99 * M - p) - max(0.42 * (M - 58.15), 0.0) - 1.7e-5 * M * (5867.0 - p) - 0.0014 * M * (34.0 - ta)
                - f * h * (35.7 - 0.028 * M - ot) / (1.0 + i * f * h))


def next_mode(prev, demand, hv, md, lt):
    if not demand > 0.0:
        return ref.STOP_CLOSE, np.inf
    if prev == ref.HEATING:
        return (ref.HEATING if hv <= 0.7 else ref.COOLING if lt >= 0.7 else ref.STOP_CLOSE), min(abs(hv - .7), abs(lt - .7))
    if prev == ref.COOLING:
        return (ref.COOLING if lt >= -0.7 else ref.HEATING if hv <= -0.7 else ref.STOP_CLOSE), min(abs(lt + .7), abs(hv + .7))
    g = min(abs(lt - .7), abs(hv + .7), abs(md))
    if lt >= 0.7:
        return ref.COOLING, g
    if hv <= -0.7:
        return ref.HEATING, g
    if prev == ref.STOP_OPEN:
        return (ref.STOP_CLOSE if md <= 0.0 else ref.STOP_OPEN), g
    return (ref.STOP_OPEN if md >= 0.0 else ref.STOP_CLOSE), g


def ask(rows, **kw):
    """the code under test on a group of rooms; rows: (mode, radiant heating, radiant cooling, air, radiant, humidity, demand)"""
    from heat_load_calc.core import ot_target_pmv as o
    from heat_load_calc.core.operation_mode import OperationMode
    col = lambda k, d=float: np.array([r[k] for r in rows], dtype=d).reshape(-1, 1)
    md = np.empty((len(rows), 1), dtype=object)
    md[:, 0] = [OperationMode(int(r[0])) for r in rows]
    with warnings.catch_warnings():
        warnings.simplefilter('error', RuntimeWarning)
        hc, hr, mode, ot, rem = o.get_ot_target_and_h_hum_with_pmv(
            x_r_is_n=col(5), operation_mode_is_n_mns=md, is_radiative_heating_is=col(1, bool), is_radiative_cooling_is=col(2, bool), theta_r_is_n=col(3),
            theta_mrt_is_n=col(4), ac_demand_is_n=col(6), **kw)
    return [(int(mode[i, 0]), float(hc[i, 0]), float(hr[i, 0]), float(ot[i, 0]), rem[i]) for i in range(len(rows))]


def expect(rows):
    ta, mr, x = (np.array([r[k] for r in rows], float) for k in (3, 4, 5))
    v = np.array([speed(r[0], r[1], r[2]) for r in rows])
    ind = {clo: index(clo, x, ta, mr, *coefficients(clo, ta, mr, v)[:2]) for clo in (1.1, 0.7, 0.3)}
    out = []
    modes = [next_mode(r[0], r[6], ind[1.1][n], ind[0.7][n], ind[0.3][n]) for n, r in enumerate(rows)]
    v2 = np.array([speed(m[0], r[1], r[2]) for m, r in zip(modes, rows)])
    co = {clo: coefficients(clo, ta, mr, v2) for clo in (1.1, 0.7, 0.3)}
    for n, (m, g) in enumerate(modes):
        clo = {ref.HEATING: 1.1, ref.COOLING: 0.3}.get(m, 0.7)
        out.append((m, g, co[clo][0][n], co[clo][1][n], co[clo][2][n], clo, v2[n]))
    return out


def judge(t, rows, got, exp, case):
    for n, (r, g, e) in enumerate(zip(rows, got, exp)):
        t.count(transitions=1)
        cs = dict(case, room=[float(v) for v in r])
        if e[1] < 1e-6:
            t.count(skipped_on_threshold=1)
            continue
        if not t.check('operation mode', g[0] == e[0], cs, 'mode %d instead of %d' % (g[0], e[0])):
            continue
        t.close('radiant coefficient', g[2], e[3], 1e-6, cs)
        # close to the air temperature the convective coefficient rises with the fourth root
        t.close('convective coefficient', g[1], e[2], 1e-6 if abs(e[4] - r[3]) > 1e-2 else 1e-2, cs)
        t.close('clothing', g[4]['clo'], e[5], 1e-12, cs)
        t.close('air speed', g[4]['v_hum m/s'], e[6], 1e-12, cs)
        if e[0] in (ref.HEATING, ref.COOLING):
            target = -0.5 if e[0] == ref.HEATING else 0.5
            t.close('target index', g[4]['pmv_target'], target, 1e-12, cs)
            t.close('target temperature gives the target index', index(e[5], r[5], g[3], g[3], g[1], g[2]), target, 1e-8, cs)
        t.outcome((int(r[0]), e[0], bool(r[1]), bool(r[2]), round(g[1], 1)))


def product(job):
    mode, rh, rc, airs, diffs, hums = job
    t = Tally()
    rows = [(mode, rh, rc, a, a + d, x, ac) for a in airs for d in diffs for x in hums for ac in (0.0, 0.3, 1.0)]
    exp = expect(rows)
    got = [ask([r])[0] for r in rows]
    t.count(states=len(rows))
    judge(t, rows, got, exp, {'rooms': 'alone'})
    # the default is the iteration, and asking for it by name is the same
    t.check('default method', all(ask([r], method='convergence')[0][:4] == g[:4] for r, g in list(zip(rows, got))[::17]), {'mode': mode}, 'asking for the default by name gives another result')
    # all of them as rooms of one building
    for lo in range(0, len(rows), 40):
        judge(t, rows[lo:lo + 40], ask(rows[lo:lo + 40]), exp[lo:lo + 40], {'rooms': 'forty together'})
    return t


def borders(job):
    """both sides of every temperature at which a mode changes"""
    mode, rh, rc, airs, hums = job
    t = Tally()
    v = speed(mode, rh, rc)
    grid = [(a, x) for a in airs for x in hums]
    ta, x = np.array([g[0] for g in grid]), np.array([g[1] for g in grid])
    for clo, level in {ref.HEATING: ((1.1, 0.7), (0.3, 0.7)), ref.COOLING: ((0.3, -0.7), (1.1, -0.7))}.get(mode, ((0.3, 0.7), (1.1, -0.7), (0.7, 0.0))):
        lo, hi = np.full_like(ta, -60.0), np.full_like(ta, 110.0)
        for _ in range(50):
            mid = 0.5 * (lo + hi)
            g = index(clo, x, ta, mid, *coefficients(clo, ta, mid, np.full_like(ta, v))[:2]) < level
            lo, hi = np.where(g, mid, lo), np.where(g, hi, mid)
        rows = [(mode, rh, rc, a, float(m) + d, h, 1.0) for (a, h), m in zip(grid, lo) if -50 < m < 100 for d in (-0.02, 0.02)]
        for k in range(0, len(rows), 40):
            judge(t, rows[k:k + 40], ask(rows[k:k + 40]), expect(rows[k:k + 40]), {'border of': [clo, level]})
        t.count(states=len(rows))
    return t


def exact(_):
    """the decision itself, with indices exactly on the borders"""
    from heat_load_calc.core import ot_target_pmv as o
    from heat_load_calc.core.operation_mode import OperationMode
    t = Tally()
    if not hasattr(o, 'get_operation_mode_i_n'):
        return t
    vs = (-3.0, -0.7 - 1e-9, -0.7, -0.7 + 1e-9, -0.3, -1e-9, 0.0, 1e-9, 0.3, 0.7 - 1e-9, 0.7, 0.7 + 1e-9, 3.0)
    for prev in MODES:
        for d in (0.0, 1e-6, 0.5, 1.0):
            for hv, md, lt in itertools.product(vs, repeat=3):
                got = int(o.get_operation_mode_i_n(d, OperationMode(prev), hv, md, lt))
                t.count(states=1, transitions=1)
                t.check('decision', got == next_mode(prev, d, hv, md, lt)[0], {'previous': prev, 'demand': d, 'indices': [hv, md, lt]}, 'mode %d' % got)
    return t


def groups(job):
    size, first = job
    t = Tally()
    pool = [(ref.HEATING, True, False, 16.0, 18.5, 0.005, 1.0), (ref.COOLING, False, False, 30.5, 29.0, 0.017, 1.0), (ref.STOP_OPEN, False, True, 24.6, 24.5, 0.010, 0.2),
            (ref.STOP_CLOSE, False, False, 5.0, 2.0, 0.003, 0.0), (ref.STOP_CLOSE, True, True, 33.0, 35.0, 0.02, 1.0), (ref.HEATING, False, False, 27.0, 27.0, 0.008, 0.7)]
    exp = expect(pool)
    for w in itertools.product(range(len(pool)), repeat=size - 1):
        w = (first,) + w
        rows = [pool[k] for k in w]
        judge(t, rows, ask(rows), [exp[k] for k in w], {'group': list(w)})
        t.count(states=1)
    return t


def methods(_):
    t = Tally()
    r = (ref.HEATING, False, False, 18.0, 17.0, 0.006, 1.0)
    for mth in ('', 'newton', 'Constant', None, 'converge'):
        try:
            ask([r], method=mth)
            t.fail('unknown method accepted', {'method': mth})
        except Exception:
            t.count(transitions=1)
    g = ask([r], method='constant')[0]
    t.close('fixed coefficients', g[1:3], [ref.HUM_C, ref.HUM_R], 1e-12, {})
    return t


def explore(run):
    k = 4 if run.thorough else 1
    airs = [-6.0 + 2.0 * i / k for i in range(25 * k)]
    diffs = [-9.0, -4.0, -1.0, 0.0, 1.0, 4.0, 9.0]
    hums = [0.0, 0.004, 0.011, 0.022]
    run.bounds = {'air': '-6..42 degree C in %d steps' % len(airs), 'radiant minus air': diffs, 'humidity ratio': hums, 'demand': [0.0, 0.3, 1.0], 'previous modes': 4, 'radiant equipment': 'all pairs',
                  'borders': 'both sides (0.02 K) of every radiant temperature at which a mode changes', 'groups': 'all words of rooms out of six up to length %d' % (5 if run.thorough else 4)}
    run.pmap(product, [(m, rh, rc, airs[q::2], diffs, hums) for m in MODES for rh in (False, True) for rc in (False, True) for q in range(2)])
    run.pmap(borders, [(m, rh, rc, [-6.0 + 3.0 * i / k for i in range(q, 17 * k, 2)], hums + [0.05]) for m in MODES for rh in (False, True) for rc in (False, True) for q in range(2)])
    run.pmap(exact, [0])
    run.pmap(groups, [(s, f) for s in range(1, 6 if run.thorough else 5) for f in range(6)])
    run.pmap(methods, [0])


if __name__ == '__main__':
    runner.main('C33', 'model_checking', 'one per previous mode x equipment x air x radiant temperature x humidity x demand, alone and together; words of rooms', explore)
