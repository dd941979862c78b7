"""C21 response factors of layered elements: gains, interval independence, transfer function, reuse."""
import copy
import itertools

import numpy as np

from mc import bench, coreexp, family, ref, runner, wall
from mc.house import House, boundary, space, spec_mass, spec_steady
from mc.runner import Tally

# thermal capacity kJ/m2K, resistance m2K/W from the room side
LAYERS = [(240.0, 0.075), (1.3, 2.2), (0.0, 0.09), (8.9, 0.054), (30.0, 0.2)]
# and unusual ones: sheet metal, tile, film, a wall of a metre, a thick insulation
MORE = LAYERS + [(3.6, 2e-5), (16.0, 0.006), (0.4, 0.02), (2000.0, 0.6), (6.0, 9.0)]
DTS = (300.0, 600.0, 900.0, 1800.0, 3600.0)


def specs(depth):
    for n in range(1, depth + 1):
        few = len(MORE) if n < min(depth, 4) else len(LAYERS)
        for w in itertools.product(range(few), repeat=n):
            cs = [MORE[k][0] for k in w]
            rs = [MORE[k][1] for k in w]
            lay = [{'name': 'l%d' % k, 'thermal_capacity': c, 'thermal_resistance': r} for k, (c, r) in enumerate(zip(cs, rs))]
            for kind, r_o in (('external_general_part', 0.04), ('external_general_part', 0.11), ('internal', 0.11), ('internal', 0.15), ('ground', None)):
                s = {'method': 'layers', 'boundary_type': kind, 'layers': lay}
                if r_o is not None:
                    s['outside_heat_transfer_resistance'] = r_o
                yield s, cs, rs, r_o


def get(spec, dt):
    from heat_load_calc.initializer.response_factor import ResponseFactorFactory
    return ResponseFactorFactory.create(spec=spec, delta_t=dt).get_response_factors()


def vec(f):
    return np.r_[f.rfa0, f.rft0, np.asarray(f.rfa1, float), np.asarray(f.rft1, float), np.asarray(f.row, float)]


def elements(job):
    depth, part, nparts = job
    t = Tally()
    from heat_load_calc.initializer.response_factor import ResponseFactorFactory
    for n, (spec, cs, rs, r_o) in enumerate(specs(depth)):
        if n % nparts != part:
            continue
        case = {'spec': spec}
        layers = wall.ground(cs, rs) if r_o is None else wall.envelope(cs, rs, r_o)
        R = sum(l[0] for l in layers)
        keep = copy.deepcopy(spec)
        per = {}
        for dt in DTS:
            fac = ResponseFactorFactory.create(spec=spec, delta_t=dt)
            f = fac.get_response_factors()
            t.count(states=1, transitions=1)
            v = vec(f)
            t.close('asked twice', vec(fac.get_response_factors()), v, 0.0, dict(case, delta_t=dt))
            row = np.asarray(f.row, float)
            t.check('ratios', np.all(row >= 0) and np.all(row < 1), dict(case, delta_t=dt), 'ratio outside 0..1')
            t.close('steady resistance', f.rfa0 + np.sum(f.rfa1 / (1 - row)), R, 1e-9, dict(case, delta_t=dt), rtol=1e-8)
            t.close('steady transmission', f.rft0 + np.sum(f.rft1 / (1 - row)), 1.0, 1e-8, dict(case, delta_t=dt))
            a0, t0, a1, t1, r = wall.factors(layers, r_o is None, dt)
            t.close('ratios of the roots', row, r, 1e-12, dict(case, delta_t=dt))
            t.close('absorption factors', np.r_[f.rfa0, f.rfa1], np.r_[a0, a1], 2e-6 * R, dict(case, delta_t=dt))
            t.close('transmission factors', np.r_[f.rft0, f.rft1], np.r_[t0, t1], 2e-6, dict(case, delta_t=dt))
            per[dt] = f
        t.check('spec untouched', spec == keep, case, 'the element description was changed')
        # an excitation that is linear over one hour gives the same hourly responses in every interval
        for name, z0, z1 in (('absorption', 'rfa0', 'rfa1'), ('transmission', 'rft0', 'rft1')):
            hourly = {}
            for dt, f in per.items():
                k = int(3600 / dt)
                u = np.r_[np.interp(np.arange(0, 6 * k + 1) / k, range(7), [0, 1, -0.5, 2, 2, 0, 0])]
                h = np.zeros(len(np.asarray(f.row)))
                y, prev = [], 0.0
                for x in u[1:]:
                    h = getattr(f, z1) * prev + f.row * h
                    y.append(getattr(f, z0) * x + h.sum())
                    prev = x
                hourly[dt] = np.array(y[k - 1::k])
            for dt in DTS[:-1]:
                t.close('%s independent of the interval' % name, hourly[dt], hourly[3600.0], 1e-8 * max(R, 1.0), dict(case, delta_t=dt))
        t.outcome((n,))
    return t


def steady(job):
    t = Tally()
    for u, ri in itertools.product((0.3, 1.0, 2.33, 4.65, 6.51), (0.11, 0.09, 0.15)):
        if u * ri >= 1.0:
            continue
        for kind in ('external_transparent_part', 'external_opaque_part'):
            for dt in DTS:
                f = get({'method': 'u_value', 'boundary_type': kind, 'u_value': u, 'inside_heat_transfer_resistance': ri}, dt)
                case = {'kind': kind, 'u': u, 'r_i': ri, 'delta_t': dt}
                t.count(states=1, transitions=1)
                t.close('resistance of a massless element', [f.rfa0, f.rft0], [1 / u - ri, 1.0], 1e-12, case)
                t.close('massless element has no history', np.r_[np.ravel(f.rfa1), np.ravel(f.rft1)], 0.0, 0.0, case)
        t.outcome((u, ri))
    # factors given directly are used as they are
    s = spec_mass(rtot=1.3, a0=0.1, t0=0.05)
    for dt in DTS:
        f = get(s, dt)
        t.close('given factors', vec(f), np.r_[s['phi_a0'], s['phi_t0'], s['phi_a1'], s['phi_t1'], s['r']], 0.0, {'spec': s, 'delta_t': dt})
        t.count(states=1, transitions=1)
    return t


def crossed(job):
    """elements made together and asked in every order, some twice: each answers for itself, and earlier answers stay"""
    from heat_load_calc.initializer.response_factor import ResponseFactorFactory
    t = Tally()
    few = [s for s, _, _, _ in itertools.islice(specs(2), 0, None, 37)]
    few += [{'method': 'u_value', 'boundary_type': 'external_transparent_part', 'u_value': u, 'inside_heat_transfer_resistance': 0.11} for u in (1.0, 4.65)]
    few += [spec_mass(rtot=1.3, a0=0.1, t0=0.05), spec_mass(rtot=0.6, a0=0.2, t0=0.1)]
    alone = {(k, dt): vec(get(s, dt)).copy() for k, s in enumerate(few) for dt in (900.0, 3600.0)}
    for trio in itertools.combinations(range(len(few)), 3):
        if sum(trio) % 3 != job:
            continue
        for dts in ((900.0,) * 3, (900.0, 3600.0, 900.0)):
            for order in itertools.permutations((0, 1, 2)):
                fac = [ResponseFactorFactory.create(spec=few[k], delta_t=dt) for k, dt in zip(trio, dts)]
                got = [(k, fac[k].get_response_factors()) for k in order + order[:1]]
                for k, f in got:
                    t.close('asked among others', vec(f), alone[trio[k], dts[k]], 0.0, {'elements': [few[i] for i in trio], 'intervals': dts, 'order': order, 'element': k})
                    t.count(states=1, transitions=1)
        t.outcome(trio)
    return t


def in_building(job):
    """a house described by layers behaves, in every interval, as the house described by the reference factors"""
    dt, heat = job
    t = Tally()
    W = ([8.9, 1.3, 240.0], [0.054, 2.2, 0.075])
    F = ([30.0, 1.3], [0.2, 1.1])
    I_ = ([8.9, 0.0, 8.9], [0.054, 0.09, 0.054])
    G = ([240.0, 1.3], [0.075, 0.8])

    def lay(cs, rs):
        return [{'name': 'x', 'thermal_capacity': c, 'thermal_resistance': r} for c, r in zip(cs, rs)]

    def pair(cs, rs, kind, r_o):
        a = {'method': 'layers', 'boundary_type': kind, 'layers': lay(cs, rs)}
        if r_o is not None:
            a['outside_heat_transfer_resistance'] = r_o
        f = wall.factors(wall.ground(cs, rs) if r_o is None else wall.envelope(cs, rs, r_o), r_o is None, dt)
        b = {'method': 'response_factor', 'phi_a0': f[0], 'phi_t0': f[1], 'phi_a1': list(f[2]), 'phi_t1': list(f[3]), 'r': list(f[4])}
        return a, b
    u = ({'method': 'u_value', 'boundary_type': 'external_transparent_part', 'u_value': 2.33, 'inside_heat_transfer_resistance': 0.11},
         spec_steady(1 / 2.33 - 0.11))
    houses = []
    for q in (0, 1):
        bs = [boundary(0, 0, 18.0, 2.5, pair(*W, 'external_general_part', 0.04)[q]),
              boundary(1, 0, 14.0, 0.7, pair(*G, 'ground', None)[q], floor=True, flr=1.0, ground=True),
              boundary(2, 0, 3.0, 2.5, u[q], sol=False),
              boundary(3, 0, 9.0, 2.5, pair(*I_, 'internal', 0.11)[q], k_out=0.0, k_in={'id': 3, 'coef': 1.0}),
              boundary(4, 0, 14.0, 5.0, pair(*F, 'external_general_part', 0.11)[q], k_out=0.5, k_in={'id': 4, 'coef': 0.5})]
        houses.append(House([space(0, 36.0, mech=0.006, natural=0.04, heat=heat)], bs, family.alphabet(1, 5)))
    A, B = (bench.Impl(h, dt) for h in houses)
    a, b = A.initial(), B.initial()
    word = coreexp.de_bruijn(6, 2) + [0] * 24 + [1] * 24
    for n, k in enumerate(word):
        a, oa = A.step(a, k)
        b, ob = B.step(b, k)
        t.count(states=1, transitions=1)
        case = {'delta_t': dt, 'heating': heat, 'word': word[:n + 1]}
        for key, tol in (('tr', 1e-4), ('ts', 1e-4), ('tf', 1e-4), ('lc', 2e-2), ('lr', 2e-2), ('x', 1e-7), ('q', 1e-2)):
            t.close('layered building: %s' % key, oa[key], ob[key], tol, case)
    t.count(traces_validated_against_impl=1)
    t.outcome((dt, heat))
    return t


def explore(run):
    depth = 5 if run.thorough else 3
    run.bounds.update({'layers': LAYERS, 'further layers': MORE[len(LAYERS):], 'layer sequences': 'all of length 1..%d, with the further layers to %d' % (depth, min(depth, 4) - 1), 'intervals': DTS})
    run.assumptions = ['the fixed roots and the fitting points are part of the method; the reference fits them with an orthogonal factorization']
    run.pmap(elements, [(depth, p, 16) for p in range(16)])
    run.pmap(steady, [0])
    run.pmap(crossed, [0, 1, 2])
    run.pmap(in_building, [(dt, h) for dt in DTS for h in ('convective', 'radiative')])


if __name__ == '__main__':
    runner.main('C21', 'model_checking',
                'every sequence of layers up to the bound, as outer wall, inner wall and ground element, in five intervals; a layered house is driven '
                'through all pairs of letters; distinct = elements', explore)
