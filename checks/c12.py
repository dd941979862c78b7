"""C12 moist air: saturation pressure, humidity ratio, relative humidity, on a fine grid and every arrangement of arrays."""
import itertools
import math

import numpy as np

from mc import runner
from mc.runner import Tally

P0 = 101325.0
WATER = (-6096.9385, 21.2409642, -2.711193e-2, 1.673952e-5, 2.433502)
ICE = (-6024.5282, 29.32707, 1.0613863e-2, -1.3198825e-5, -0.49382577)
# published saturation pressures, Pa (steam tables / ice tables)
TABLE = {-40.0: 12.84, -20.0: 103.3, -10.0: 259.9, 0.0: 611.2, 10.0: 1228.0, 20.0: 2338.8, 25.0: 3169.0, 30.0: 4246.0, 40.0: 7383.0, 60.0: 19940.0}


def p_sat(th):
    T = th + 273.15
    c = WATER if th >= 0 else ICE
    return math.exp(c[0] / T + c[1] + c[2] * T + c[3] * T * T + c[4] * math.log(T))


def saturation(job):
    lo, hi, step = job
    from heat_load_calc.external import psychrometrics as psy
    t = Tally()
    n = int(round((hi - lo) / step))
    th = lo + step * np.arange(n + 1)
    th = np.round(th, 9)
    want = np.array([p_sat(float(x)) for x in th])
    vec = np.asarray(psy.get_p_vs_is2(th))
    t.close('saturation pressure, array', vec, want, 0.0, {'from': lo, 'to': hi}, rtol=1e-12)
    t.close('saturation pressure, one value', [psy.get_p_vs(float(x)) for x in th], want, 0.0, {'from': lo, 'to': hi}, rtol=1e-12)
    t.close('saturation pressure, vectorised', np.asarray(psy.get_p_vs_is(th)), want, 0.0, {'from': lo, 'to': hi}, rtol=1e-12)
    t.check('rises with temperature', np.all(np.diff(vec[th != 0.0]) > 0), {'from': lo, 'to': hi}, 'not increasing')
    t.count(states=3 * len(th), transitions=3 * len(th))
    t.outcome((lo, float(vec.sum())))
    # humidity ratio there and back for every degree of saturation
    for rh in (0.0, 1.0, 5.0, 30.0, 50.0, 60.0, 80.0, 99.0, 100.0):
        pv = vec * rh / 100.0
        ok = pv < 0.9 * P0
        x = np.array([psy.get_x(float(p)) for p in pv[ok]])
        t.close('humidity ratio', x, 0.622 * pv[ok] / (P0 - pv[ok]), 0.0, {'rh': rh}, rtol=5e-5)
        back = np.asarray(psy.get_p_v_r_is_n(x))
        t.close('vapour pressure of the humidity ratio', back, pv[ok], 0.0, {'rh': rh}, rtol=5e-5)
        t.close('relative humidity', np.asarray(psy.get_h(pv[ok], vec[ok])), rh, 1e-9, {'rh': rh})
        t.count(states=int(ok.sum()), transitions=3 * int(ok.sum()))
    return t


def arrangements(job):
    """an array is the array of its elements, whatever the order, length, sign pattern and shape"""
    from heat_load_calc.external import psychrometrics as psy
    t = Tally()
    vals = (-15.0, -1e-9, 0.0, 7.5, 26.0)
    one = {v: p_sat(v) for v in vals}
    for n in range(1, job + 1):
        for w in itertools.product(vals, repeat=n):
            a = np.array(w)
            keep = a.copy()
            want = [one[v] for v in w]
            for f in (psy.get_p_vs_is2, psy.get_p_vs_is):
                t.close('array %s' % f.__name__, f(a), want, 0.0, {'temperatures': w}, rtol=1e-12)
                t.close('column %s' % f.__name__, f(a.reshape(-1, 1)), np.reshape(want, (-1, 1)), 0.0, {'temperatures': w}, rtol=1e-12)
            t.check('argument kept', np.array_equal(a, keep), {'temperatures': w}, 'the temperatures were changed')
            if n <= 3:
                whole = [int(round(v)) for v in w]
                t.close('whole numbers', psy.get_p_vs_is2(np.array(whole)), [p_sat(v) for v in whole], 0.0, {'temperatures': whole}, rtol=1e-12)
            t.count(states=1, transitions=4)
    t.outcome(job)
    return t


def used(job):
    """the same relations where the calculation uses them: humidity of a heat exchanger surface and of the tables is covered by C03 and C09"""
    from heat_load_calc.external import psychrometrics as psy
    t = Tally()
    xs = np.linspace(0.0, 0.05, 2001)
    p = np.asarray(psy.get_p_v_r_is_n(xs))
    t.close('vapour pressure', p, P0 * xs / (xs + 0.62198), 0.0, {}, rtol=1e-5)
    t.check('vapour pressure rises', np.all(np.diff(p) > 0), {}, 'not increasing')
    t.check('dry air', p[0] == 0.0 and psy.get_x(0.0) == 0.0, {}, 'not zero')
    for th, want in TABLE.items():
        t.close('published value', psy.get_p_vs(th), want, 0.0, {'temperature': th}, rtol=4e-3)
    t.count(states=2001, transitions=2001)
    t.outcome('used')
    return t


def explore(run):
    run.bounds = {'temperature': '-60..100 degree C step 0.01 (thorough 0.001)', 'arrays': 'all words over five temperatures'}
    run.assumptions = ['the conversions use 0.622 in one direction and 0.62198 in the other: equal to 5e-5']
    step = 0.001 if run.thorough else 0.01
    run.pmap(saturation, [(lo, lo + 20.0, step) for lo in np.arange(-60.0, 100.0, 20.0)])
    run.pmap(arrangements, [7 if run.thorough else 5, 4])
    run.merge(used(None))


if __name__ == '__main__':
    runner.main('C12', 'model_checking', 'one per temperature x saturation and per word of temperatures', explore)
