"""C35 glazing of several panes: sun passed, turned back and taken up; temperatures, resistances and U of the panes in balance."""
import itertools

import numpy as np

from mc import runner
from mc.runner import Tally

# panes: passed and turned back, seen from the front and from the back
PANES = ((0.859, 0.859, 0.077, 0.077), (0.55, 0.55, 0.28, 0.21), (0.3, 0.3, 0.05, 0.62), (0.0, 0.0, 0.35, 0.8), (0.999, 0.999, 0.001, 0.001), (0.45, 0.4, 0.5, 0.02))
NAMES = ('AIR', 'ARGON', 'SF6', 'KRYPTON')
# JIS R3107, at -10, 0, 10 and 20 degree C: density, viscosity (1e-5), conductivity (1e-2), and specific heat
GAS = {'AIR': ((1.326, 1.277, 1.232, 1.189), (1.661, 1.711, 1.761, 1.811), (2.336, 2.416, 2.496, 2.576), 1008.0),
       'ARGON': ((1.829, 1.762, 1.699, 1.640), (2.038, 2.101, 2.164, 2.228), (1.584, 1.634, 1.684, 1.734), 519.0),
       'SF6': ((6.844, 6.602, 6.360, 6.118), (1.383, 1.421, 1.459, 1.497), (1.119, 1.197, 1.275, 1.354), 614.0),
       'KRYPTON': ((3.832, 3.690, 3.560, 3.430), (2.260, 2.330, 2.400, 2.470), (0.842, 0.870, 0.900, 0.926), 245.0)}
# normal emissivity and the ratio of the hemispherical one to it
RATIO = ((0.03, 1.22), (0.05, 1.18), (0.1, 1.14), (0.2, 1.1), (0.3, 1.06), (0.4, 1.03), (0.5, 1.0), (0.6, 0.98), (0.7, 0.96), (0.8, 0.95), (0.89, 0.94))
NUSSELT = {'VERTICAL': (0.035, 0.38), 'HORIZONTAL': (0.16, 0.28), 'SLOPE': (0.10, 0.31)}
SIGMA = 5.67e-8
K0 = 273.15


def gas(mix, theta):
    """density, viscosity, conductivity, specific heat of a mixture; beyond the table the last straight piece goes on"""
    p = min(max(int(np.floor(theta / 10.0)) + 1, 0), 2)
    u = (theta - (-10.0 + 10.0 * p)) / 10.0
    val = [0.0] * 4
    for share, n in zip(mix, NAMES):
        for q, f in enumerate((1.0, 1e-5, 1e-2)):
            y = GAS[n][q]
            val[q] += share / 100.0 * f * ((1 - u) * y[p] + u * y[p + 1])
        val[3] += share / 100.0 * GAS[n][3]
    return val


def emissivity(e):
    """e: normal emissivity of a coating, None: bare glass"""
    return 0.837 if e is None else e * float(np.interp(e, [a for a, _ in RATIO], [b for _, b in RATIO]))


def gap(mix, kind, s, t_m, dt, e1, e2):
    rho, mu, lam, c = gas(mix, t_m - K0)
    a, n = NUSSELT[kind]
    nu = a * (9.81 * s ** 3 * abs(dt) * rho ** 2 / t_m / mu ** 2 * mu * c / lam) ** n
    return 4 * SIGMA * t_m ** 3 / (1 / e1 + 1 / e2 - 1) + max(1.0, nu) * lam / s


class Reference:
    """panes: (list of (thickness, conductivity), coating in front, coating behind); gaps: (mix, direction, width)"""

    def __init__(self, panes, gaps):
        self.rg = [sum(d / l for d, l in p[0]) for p in panes]
        self.ef, self.eb = [emissivity(p[1]) for p in panes], [emissivity(p[2]) for p in panes]
        self.gaps, self.n = gaps, len(panes)

    def fixed(self):
        r = [1.0 / (4.9 * self.ef[0] + 16.3)]
        for k in range(self.n):
            r.append(self.rg[k])
            r.append(1.0 / (5.4 * self.eb[-1] + 4.1) if k == self.n - 1 else 1.0 / gap(*self.gaps[k], 283.0, 15.0, self.eb[k], self.ef[k + 1]))
        return np.array(r)

    def resistances(self, th, te, ti, method, season):
        r = self.fixed()
        if method == 'JIS_A2103':
            def rad(e, a, b):
                a, b = a + K0, b + K0
                return e * SIGMA * (a + b) * (a * a + b * b)
            r[0] = 1.0 / (rad(self.ef[0], th[0], te) + {'summer': 8.0, 'winter': 20.0}[season])
            r[-1] = 1.0 / (rad(self.eb[-1], th[-1], ti) + {'summer': 2.5, 'winter': 3.6}[season])
        for k in range(self.n - 1):
            a, b = th[2 * k + 1], th[2 * k + 2]
            r[2 * k + 2] = 1.0 / gap(*self.gaps[k], (a + b) / 2 + K0, a - b, self.eb[k], self.ef[k + 1])
        return r

    def temperatures(self, r, te, ti, sun):
        """heat put in at the surfaces spreads to both sides by the resistances"""
        tot = r.sum()
        at = np.cumsum(r)[:-1]                       # resistance from the outside to every surface
        q = np.repeat(np.asarray(sun, float), 2) / 2.0
        th = te + (ti - te) * at / tot
        for k in range(2 * self.n):
            th = th + q[k] * np.minimum(at, at[k]) * (tot - np.maximum(at, at[k])) / tot
        return th

    def solve(self, te, ti, method, season, sun):
        th = self.temperatures(self.fixed(), te, ti, sun)
        for _ in range(400):
            new = self.temperatures(self.resistances(th, te, ti, method, season), te, ti, sun)
            if np.abs(new - th).max() < 1e-11:
                break
            th = 0.35 * th + 0.65 * new
        return new, self.resistances(new, te, ti, method, season)


def optics(words):
    """the light between the panes from its balance at every pane"""
    from notebook.initializer.shgc_window import multiple_reflection as mr
    t = Tally()

    def net(w, back):
        """passed, turned back, taken up per pane for a unit of light from the front or back; unknown: light going on and coming back in every gap"""
        n = len(w)
        A, b = np.eye(2 * (n + 1)), np.zeros(2 * (n + 1))     # fwd[0..n], bwd[0..n]
        if not back:
            b[0] = 1.0
        else:
            b[2 * n + 1] = 1.0
        for k, (tf, tb, rf, rb) in enumerate(w):
            A[k + 1, k] -= tf
            A[k + 1, n + 1 + k + 1] -= rb
            A[n + 1 + k, k] -= rf
            A[n + 1 + k, n + 1 + k + 1] -= tb
        x = np.linalg.solve(A, b)
        f, g = x[:n + 1], x[n + 1:]
        up = [f[k] * (1 - w[k][0] - w[k][2]) + g[k + 1] * (1 - w[k][1] - w[k][3]) for k in range(n)]
        return (g[0], f[n], up) if back else (f[n], g[0], up)
    for ids in words:
        w = [PANES[k] for k in ids]
        case = {'panes': w}
        ss = [mr.SolarSpecSingleLayer(*p) for p in w]
        g = mr.Glass(ss=ss)
        s = g.get_total_solar_spec()
        up = np.array(g.get_abs_multi_layer(), float)
        tf, rf, uf = net(w, False)
        tb, rb, _ = net(w, True)
        t.count(states=1, transitions=1)
        t.close('sun from the front is passed, turned back or taken up', s.tau_f + s.rho_f + up.sum(), 1.0, 1e-12, case)
        t.close('sun passed and turned back', [s.tau_f, s.tau_b, s.rho_f, s.rho_b], [tf, tb, rf, rb], 1e-12, case)
        t.close('sun taken up by every pane', up, uf, 1e-12, case)
        for i in range(len(w)):
            for j in range(i, len(w)):
                p = g.get_solar_spec_multi_layer(ss, i, j)
                a, b = net(w[i:j + 1], False), net(w[i:j + 1], True)
                t.close('sun through some of the panes', [p.tau_f, p.tau_b, p.rho_f, p.rho_b], [a[0], b[0], a[1], b[1]], 1e-12, dict(case, of=(i, j)))
        # the same glass turned round
        rev = mr.Glass(ss=[mr.SolarSpecSingleLayer(p[1], p[0], p[3], p[2]) for p in w[::-1]]).get_total_solar_spec()
        t.close('glass turned round', [rev.tau_b, rev.tau_f, rev.rho_b, rev.rho_f], [s.tau_f, s.tau_b, s.rho_f, s.rho_b], 1e-12, case)
        # nothing is changed by asking
        s2 = g.get_total_solar_spec()
        t.check('asked again', (s2.tau_f, s2.tau_b, s2.rho_f, s2.rho_b) == (s.tau_f, s.tau_b, s.rho_f, s.rho_b) and list(g.get_abs_multi_layer()) == list(up), case, 'other answer')
        t.outcome(tuple(np.round(up, 4)))
        if len(w) < 3:
            for i, j in ((-1, 0), (0, -1), (len(w), len(w)), (0, len(w)), (1, 0)):
                try:
                    g.get_solar_spec_multi_layer(ss, i, j)
                    t.fail('panes that are not there are accepted', dict(case, of=(i, j)))
                except ValueError:
                    pass
    return t


def gases(job):
    """mixtures of gases at all temperatures; emissivities"""
    a, step = job
    from notebook.initializer.shgc_window import glass_thermal_balance as gtb
    t = Tally()
    temps = (-35.0, -10.0, -9.99, -4.0, 0.0, 3.0, 9.99, 10.0, 14.5, 20.0, 33.0, 62.0)
    for b in range(0, 1001 - a, step):
        for c in range(0, 1001 - a - b, step):
            mix = tuple(x / 10.0 for x in (a, b, c, 1000 - a - b - c))
            case = {'mix': mix}
            t.count(states=1, transitions=1)
            try:
                m = gtb.MixedAirProperty(*mix)
            except ValueError:
                t.fail('mixture of one hundred parts is refused', case)
                continue
            for th in temps:
                got = (m.get_rho(th), m.get_mu(th), m.get_lambda(th), m.get_c(th))
                want = gas(mix, th)
                for n, x, y in zip(('density', 'viscosity', 'conductivity', 'specific heat'), got, want):
                    t.close('%s of a mixture' % n, x, y, 1e-13, dict(case, temperature=th), rtol=1e-11)
            t.outcome(mix)
            for d in (0.1, -0.1, 5.0):
                for k in range(4):
                    bad = list(mix)
                    bad[k] += d
                    try:
                        gtb.MixedAirProperty(*bad)
                        t.fail('mixture of more or less than one hundred parts is accepted', {'mix': bad})
                    except ValueError:
                        pass
    if a == 0:
        for k in range(1, 1000):
            e = k / 1000.0
            case = {'normal emissivity': e}
            t.count(states=1, transitions=1)
            if 0.03 <= e < 0.89:
                t.close('emissivity of a coating', gtb.LowESurface(e).eps, emissivity(e), 1e-12, case)
            elif e < 0.03 or e > 0.89:
                try:
                    gtb.LowESurface(e).eps
                    t.fail('emissivity outside the table is accepted', case)
                except ValueError:
                    pass
        t.close('emissivity of bare glass', gtb.NonLowESurface().eps, 0.837, 1e-12, {})
    return t


# panes of the thermal part: glass, coating in front, coating behind
GLASS = (([(0.003, 1.0)], None, None), ([(0.006, 1.0)], None, 0.04), ([(0.008, 0.8)], 0.12, None), ([(0.003, 1.0), (0.0008, 0.2), (0.005, 1.0)], None, None), ([(0.005, 1.0)], 0.5, 0.85))
GAPS = (((100.0, 0.0, 0.0, 0.0), 'VERTICAL', 0.006), ((10.0, 90.0, 0.0, 0.0), 'VERTICAL', 0.016), ((0.0, 0.0, 35.0, 65.0), 'SLOPE', 0.012), ((100.0, 0.0, 0.0, 0.0), 'HORIZONTAL', 0.05), ((50.0, 20.0, 10.0, 20.0), 'HORIZONTAL', 0.0045))
CLIMATE = ((0.0, 20.0), (-25.0, 22.0), (36.0, 26.0), (20.0, 20.0), (8.0, 30.0))
SUN = ((0.0, 0.0, 0.0, 0.0), (60.0, 20.0, 9.0, 4.0), (5.0, 240.0, 0.0, 30.0), (700.0, 300.0, 100.0, 50.0))


def heat(words):
    from notebook.initializer.shgc_window import glass_thermal_balance as gtb
    t = Tally()
    for ids, gids in words:
        panes, gaps = [GLASS[k] for k in ids], [GAPS[k] for k in gids]
        case = {'panes': ids, 'gaps': gids}

        def surf(e):
            return gtb.NonLowESurface() if e is None else gtb.LowESurface(e)
        layers = [gtb.GlassLayer([gtb.GlassUnit(d, l) for d, l in p[0]], surf(p[1]), surf(p[2])) for p in panes]
        air = [gtb.AirLayer(gtb.MixedAirProperty(*m), gtb.GlassDirection[k], s) for m, k, s in gaps]
        g = gtb.Glass(layers, air)
        R = Reference(panes, gaps)
        for n in (len(gaps) + 1, len(gaps) - 1):
            if n >= 0:
                try:
                    gtb.Glass(layers, (air * 2 + [None])[:n])
                    t.fail('number of gaps that does not fit is accepted', case)
                except ValueError:
                    pass
        r = R.fixed()
        t.count(states=1)
        t.close('resistances by the standard', g.r, r, 1e-9, case, rtol=1e-9)
        t.close('U by the standard', [g.get_heat_transmittance(), g.u], 1.0 / r.sum(), 1e-9, case, rtol=1e-9)
        for (te, ti), sun, (method, season) in itertools.product(CLIMATE, SUN, (('JIS_R3107', 'winter'), ('JIS_A2103', 'winter'), ('JIS_A2103', 'summer'))):
            c = dict(case, outside=te, inside=ti, sun=sun, method=method, season=season)
            ia = np.array(sun[:len(ids)])
            th, r, q = g.get_temp_and_r(te, ti, method, season, 'calc', ia)
            th, r = np.asarray(th, float), np.asarray(r, float)
            eth, er = R.solve(te, ti, method, season, ia)
            t.count(transitions=1)
            if not t.check('number of surfaces', th.shape == (2 * R.n,) and r.shape == (2 * R.n + 1,), c, '%s, %s' % (th.shape, r.shape)):
                continue
            t.close('temperatures of the surfaces', th, eth, 1e-5, c)
            t.close('resistances at these temperatures', r, er, 1e-7, c, rtol=1e-5)
            # every surface passes on what it gets
            temps = np.concatenate([[te], th, [ti]])
            flow = -np.diff(temps) / r
            t.close('heat balance of the surfaces', np.diff(flow), np.repeat(ia, 2) / 2.0, 1e-3, c)
            t.close('sun taken up and given to the room', q, flow[-1] - (te - ti) / r.sum(), 1e-3, c)
            t.check('no more than the sun taken up', -1e-6 <= q <= ia.sum() + 1e-6, c, '%s of %s' % (q, ia.sum()))
            if not ia.any() and (te, ti) == (0.0, 20.0):
                th2, r2, q2 = g.get_temp_and_r(surface_method=method, season=season, decision_air_layer_temp='calc')
                t.check('0 and 20 degree without sun unless said otherwise', np.allclose(th2, th, atol=1e-7) and np.allclose(r2, r, rtol=1e-7) and q2 == 0.0, c, 'other result')
            t.outcome((ids, gids, te, season, int(q)))
        # fixed conditions of the gaps: the same resistances whatever the weather, the temperatures follow
        for (te, ti), sun in itertools.product(CLIMATE, SUN[1:3]):
            ia = np.array(sun[:len(ids)])
            th, r, q = g.get_temp_and_r(te, ti, ia=ia)
            c = dict(case, outside=te, inside=ti, sun=sun, method='fixed')
            t.count(transitions=1)
            t.close('resistances by the standard', r, R.fixed(), 1e-9, c, rtol=1e-9)
            t.close('temperatures with given resistances', th, R.temperatures(R.fixed(), te, ti, ia), 1e-5, c)
            temps = np.concatenate([[te], th, [ti]])
            t.close('sun taken up and given to the room', q, -np.diff(temps)[-1] / r[-1] - (te - ti) / r.sum(), 1e-3, c)
    return t


def explore(run):
    n = 5 if run.thorough else 4
    words = [w for k in range(1, n + 1) for w in itertools.product(range(len(PANES)), repeat=k)]
    run.pmap(optics, [words[i::16] for i in range(16)])
    step = 13 if run.thorough else 37
    run.pmap(gases, [(a, step) for a in sorted(set(range(0, 1001, step)) | {0, 1000})])
    k = (1, 2, 3) if not run.thorough else (1, 2, 3, 4)
    words = [(p, g) for m in k for p in itertools.product(range(len(GLASS)), repeat=m) for g in itertools.product(range(len(GAPS)), repeat=m - 1)]
    if not run.thorough:
        words = [w for i, w in enumerate(words) if len(w[0]) < 3 or i % 40 == 0]
    else:
        words = [w for i, w in enumerate(words) if len(w[0]) < 4 or i % 97 == 0]
    run.pmap(heat, [words[i::48] for i in range(48)])
    run.bounds = {'panes': 'all words up to length %d over %d panes' % (n, len(PANES)), 'mixtures': 'all of four gases in steps of %.1f %%' % (step / 10), 'coatings': 'normal emissivities 0.001 to 0.999',
                  'glazings': '%d words of up to %d panes and gaps x %d climates x %d suns x 3 methods' % (len(words), k[-1], len(CLIMATE), len(SUN))}
    run.assumptions = ['gas, emissivity and convection tables are those of JIS R 3107 and JIS A 2103, transcribed', 'an emissivity of exactly 0.89, the end of the table, is left open']


if __name__ == '__main__':
    runner.main('C35', 'model_checking', 'one per word of panes, mixture of gases, glazing x climate x sun x method', explore)
