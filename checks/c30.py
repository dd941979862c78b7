"""C30 thermal comfort index of ISO 7730: grid over climate, activity and clothing against an independent solution; relations."""
import itertools
import math

from mc import ees, runner
from mc.runner import Tally

# examples of the standard: air, radiant, air speed, humidity, met, clo -> PMV, PPD
TABLE = ((22, 22, .1, 60, 1.2, .5, -.75, 17), (27, 27, .1, 60, 1.2, .5, .77, 17), (27, 27, .3, 60, 1.2, .5, .44, 9), (23.5, 25.5, .1, 60, 1.2, .5, -.01, 5), (23.5, 25.5, .3, 60, 1.2, .5, -.55, 11),
         (19, 19, .1, 40, 1.2, 1., -.60, 13), (23.5, 23.5, .3, 40, 1.2, 1., .12, 5), (23, 21, .1, 40, 1.2, 1., .05, 5), (23, 21, .3, 40, 1.2, 1., -.16, 6),
         (22, 22, .1, 60, 1.6, .5, .05, 5), (27, 27, .1, 60, 1.6, .5, 1.17, 34), (27, 27, .3, 60, 1.6, .5, .95, 24))


def sonntag(kind, t):
    a = {'water': (-6096.9385, 21.2409642, -.02711193, 1.673952e-5, 2.433502), 'ice': (-6024.5282, 29.32707, .010613863, -1.3198825e-5, -.49382577)}[kind]
    return math.exp(a[0] / t + a[1] + a[2] * t + a[3] * t * t + a[4] * math.log(t))


def reference(ta, tr, v, rh, met, clo, eff=0.0):
    m, w, icl = met * 58.15, eff * 58.15, clo * .155
    f = 1.0 + 1.29 * icl if icl <= .078 else 1.05 + .645 * icl
    forced = 12.1 * math.sqrt(v)

    def losses(tc):
        hc = max(forced, 2.38 * abs(tc - ta) ** .25)
        return 3.96e-8 * f * ((tc + 273.0) ** 4 - (tr + 273.0) ** 4) + f * hc * (tc - ta)

    lo, hi = -60.0, 140.0
    for _ in range(200):
        mid = (lo + hi) / 2
        if 35.7 - .028 * (m - w) - icl * losses(mid) > mid:
            lo = mid
        else:
            hi = mid
    pa = rh / 100.0 * sonntag('water', ta + 273.15)
    pmv = (.303 * math.exp(-.036 * m) + .028) * ((m - w) - 3.05e-3 * (5733.0 - 6.99 * (m - w) - pa) - max(.42 * (m - w - 58.15), 0.0)
                                                 - 1.7e-5 * m * (5867.0 - pa) - .0014 * m * (34.0 - ta) - losses(lo))
    return pmv, 100.0 - 95.0 * math.exp(-.03353 * pmv ** 4 - .2179 * pmv ** 2)


def grid(job):
    tas, trs, vs, rhs, mets, clos, effs = job
    from heat_load_calc.external import iso7730
    t = Tally()
    for v, met, clo, eff, dr in itertools.product(vs, mets, clos, effs, trs):
        for rh in rhs:
            last = None
            for ta in tas:
                case = {'t_a': ta, 't_r': ta + dr, 'v': v, 'rh': rh, 'met': met, 'clo': clo, 'p_eff': eff}
                got = ees.attempt(lambda: iso7730.get_pmv_ppd(met_value=met, p_eff=eff, t_a=ta, t_r_bar=ta + dr, clo_value=clo, v_ar=v, rh=rh))
                t.count(states=1, transitions=1)
                if isinstance(got, Exception):
                    t.fail('comfort: %r' % got, case)
                    continue
                want = reference(ta, ta + dr, v, rh, met, clo, eff)
                t.close('PMV', got[0], want[0], 1e-6, case)
                t.close('PPD', got[1], want[1], 1e-5, case)
                t.check('PPD within 5 and 100', 5.0 - 1e-9 <= got[1] <= 100.0, case, repr(got))
                # warmer surroundings are never felt as colder
                t.check('PMV rises with temperature', last is None or got[0] > last, case, '%r after %r' % (got[0], last))
                last = got[0]
                t.outcome(round(got[0], 2))
    return t


def table(_):
    from heat_load_calc.external import iso7730
    t = Tally()
    for ta, tr, v, rh, met, clo, pmv, ppd in TABLE:
        got = ees.attempt(lambda: iso7730.get_pmv_ppd(met_value=met, p_eff=0.0, t_a=float(ta), t_r_bar=float(tr), clo_value=clo, v_ar=v, rh=float(rh)))
        case = {'example': (ta, tr, v, rh, met, clo)}
        if isinstance(got, Exception):
            t.fail('comfort: %r' % got, case)
        else:
            t.close('PMV of the standard', got[0], pmv, .08, case)
            t.close('PPD of the standard', got[1], ppd, 2.0, case)
        t.count(states=1, transitions=1)
    for k in range(-400, 401):
        x = k / 100.0
        want = 100.0 - 95.0 * math.exp(-.03353 * x ** 4 - .2179 * x ** 2)
        t.close('PPD of a PMV', iso7730.get_ppd(pmv=x), want, 1e-10, {'pmv': x})
        t.count(states=1, transitions=1)
    for kind in ('water', 'ice'):
        for k in range(-600, 1001):
            T = 273.15 + k / 10.0
            p, dp = iso7730.saturated_vapor_pressure_SONNTAG(status=kind, t=T)
            case = {'status': kind, 'T': T}
            t.close('saturation pressure', p, sonntag(kind, T), 0.0, case, rtol=1e-10)
            t.close('slope of the saturation pressure', dp, (sonntag(kind, T + 1e-3) - sonntag(kind, T - 1e-3)) / 2e-3, 0.0, case, rtol=1e-5)
            t.count(states=1, transitions=1)
    t.close('water and ice agree at the triple point', sonntag('water', 273.16), sonntag('ice', 273.16), .5, {})
    t.outcome('table')
    return t


def run_job(job):
    f, a = job
    return f(a)


def explore(run):
    k = 2 if run.thorough else 1
    tas = [8.0 + 1.0 * i / k for i in range(32 * k)]
    # temperatures that lie close together, in one process
    tas = sorted(tas + [c + d for c in (16.0, 20.0, 26.0, 28.5) for d in (.004, .03, .1, .15, .49)])
    trs = [-6.0, 0.0, 5.0] if not run.thorough else [-10.0, -6.0, -2.0, 0.0, 3.0, 5.0, 12.0]
    vs, rhs = (0.0, .1, .3, 1.0), (0.0, 30.0, 60.0, 100.0)
    mets, clos, effs = (.8, 1.0, 1.2, 2.0, 4.0), (0.0, .3, .5, .503, .504, 1.0, 2.0), (0.0, .2)
    run.bounds = {'air': '%d temperatures from 8 to 40 degree C, some 0.004 apart' % len(tas), 'radiant minus air': trs, 'air speed': vs, 'humidity': rhs, 'met': mets, 'clo': clos, 'mechanical power': effs}
    run.pmap(run_job, [(table, None)] + [(grid, (tas, trs, (v,), rhs, (m,), clos, effs)) for v in vs for m in mets])


if __name__ == '__main__':
    runner.main('C30', 'model_checking', 'one per climate x activity x clothing', explore)
