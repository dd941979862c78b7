"""C16 windows: transmitted sun of every glazing, orientation and overhang for every sun position, and in the real years."""
import itertools
import math

import numpy as np

from mc import runner, sky, skygrid
from mc.runner import Tally

VERTICAL = [d for d, (_, b) in sky.DIRECTIONS.items() if b == 90]
SHADES = [None, (0.6, 1.1, 0.0), (0.9, 1.4, 0.3), (0.05, 2.0, 1.0), (3.0, 0.8, 0.1), (0.0, 1.2, 0.5), (0.2, 0.12, 0.04)]


def window(direction, glass, shade, struck=True, area=2.7, eta=0.51, kind='external_transparent_part'):
    ssp = {'existence': False} if shade is None else {'existence': True, 'input_method': 'simple', 'depth': shade[0], 'd_h': shade[1], 'd_e': shade[2]}
    return skygrid.boundary(kind, direction=direction, incident_angle_characteristics=glass, area=area, eta_value=eta,
                            is_sun_striked_outside=struck, solar_shading_part=ssp)


def judge(t, y, direction, glass, shade, struck, area, eta, case):
    w = {'area': area, 'eta': eta, 'glass': glass, 'direction': direction, 'sun': struck, 'shade': shade}
    keep = {k: v.copy() for k, v in y.items()}
    q = np.asarray(skygrid.load(window(direction, glass, shade, struck, area, eta), y).q_trs_sol)
    want = sky.transmitted(w, *skygrid.args(y))
    sig = [] if shade else [('KF-UNSHADED', sky.transmitted(w, *skygrid.args(y), drop_direct=True))]
    t.close('transmitted sun', q, want, 5e-5, case, rtol=1e-9, sig_if=sig)
    t.check('not negative', np.all(q >= -1e-9), case, 'negative transmitted sun')
    skygrid.same(t, y, keep, case)
    t.count(states=len(q), transitions=len(q))
    return q


def grid(job):
    glass, direction, shift = job
    t = Tally()
    y = skygrid.year(shift)
    alone = None
    for shade, struck in [(s, True) for s in (SHADES if direction in VERTICAL else [None])] + [(None, False), ((0.6, 1.1, 0.0), False)]:
        for area, eta in ((2.7, 0.51), (11.0, 0.88), (0.09, 0.05), (74.0, 1.0), (0.0123456, 0.97), (31.23456, 0.008)):
            case = {'glass': glass, 'direction': direction, 'overhang': shade, 'sun': struck, 'area': area, 'eta': eta, 'shift': shift}
            q = judge(t, y, direction, glass, shade, struck, area, eta, case)
            t.outcome((job, shade, struck, round(float(q.sum()), 3)))
    # what the sun of a window does not depend on
    for k, v in (('temp_dif_coef', 0.0), ('temp_dif_coef', 0.4), ('u_value', 0.3), ('outside_emissivity', 0.2), ('outside_heat_transfer_resistance', 0.2), ('is_solar_absorbed_inside', True)):
        b = window(direction, glass, None)
        t.close('sun independent of %s' % k, skygrid.load(dict(b, **{k: v}), y).q_trs_sol, skygrid.load(b, y).q_trs_sol, 0.0, {'direction': direction, k: v})
        t.count(transitions=1)
    # the sun of a window depends only on its own entry
    for kind in ('external_general_part', 'external_opaque_part', 'internal', 'ground'):
        b = skygrid.boundary(kind) if kind in ('internal', 'ground') else window(direction, glass, None, True, kind=kind)
        t.close('only windows transmit', skygrid.load(b, y).q_trs_sol, np.zeros(skygrid.N), 0.0, {'kind': kind})
        t.count(transitions=1)
    return t


def glass(job):
    """normalised transmittance over the whole range of incidence"""
    from heat_load_calc.initializer import oblique_incidence_charac as oic
    t = Tally()
    n = 90000 if job else 9000
    th = np.linspace(0.0, math.pi / 2, n + 1)
    for kind in ('single', 'multiple'):
        g = oic.get_tau_d_j_ns(theta_aoi_j_ns=th, glazing_type_j=kind)
        c = np.cos(th)
        c[-1] = 0.0
        ref = sky.tau(kind, c[:-1])
        t.close('transmittance %s' % kind, g[:-1], ref, 1e-9, {'glass': kind})
        t.check('transmittance is a share', np.all(g[:-1] <= 1.0 + 5e-3) and np.all(g[:-1] >= -1e-6), {'glass': kind}, 'outside 0..1')
        t.close('normal incidence', g[0], 1.0, 5e-3, {'glass': kind})
        t.check('falls with the angle', np.all(np.diff(g[:-1]) < 3e-5), {'glass': kind}, 'rises')
        t.close('diffuse', oic.get_c_d_j(glazing_type_j=kind), sky.C_D[kind], 1e-12, {'glass': kind})
        # the diffuse value is the hemispherical mean of the direct one
        w = np.sin(2 * th[:-1])
        t.close('diffuse is the mean of direct', sky.C_D[kind], float((g[:-1] * w).sum() / w.sum()), 1.2e-2, {'glass': kind})
        t.count(states=n, transitions=n)
    for bad in ('double', 'none', None):
        for f in (lambda: oic.get_tau_d_j_ns(theta_aoi_j_ns=th, glazing_type_j=bad), lambda: oic.get_c_d_j(glazing_type_j=bad)):
            try:
                f()
                t.fail('unknown glazing accepted', {'glass': bad})
            except ValueError:
                pass
    t.outcome('glass')
    return t


def overhang(job):
    from heat_load_calc.initializer import solar_shading
    shade, direction = job
    t = Tally()
    y = skygrid.year()
    _, _, h, a = skygrid.args(y)
    h, a = h[::20], a[::20]
    al = math.radians(sky.DIRECTIONS[direction][0])
    p = solar_shading.SolarShading.create(window(direction, 'single', shade))
    case = {'overhang': shade, 'direction': direction}
    hk, ak = h.copy(), a.copy()
    f = np.asarray(p.get_f_ss_d_j_ns(h, a))
    ref = sky.overhang_direct(h, a, al, *shade)
    v = sky.direction_vector(h, a)
    n = v[0] * math.cos(al) + v[1] * math.sin(al)
    # grazing sun gives no radiation and is not judged
    ok = (np.abs(n) > 1e-6) & (h < 1.5707)
    t.close('shaded height', f[ok], ref[ok], 1e-7, case)
    t.check('a share', np.all((f >= 0) & (f <= 1)), case, 'outside 0..1')
    t.check('arguments kept', np.array_equal(h, hk) and np.array_equal(a, ak), case, 'changed')
    s = p.get_f_ss_s_j()
    t.close('sky share', s, sky.overhang_sky(*shade), 1e-12, case)
    t.check('sky share range', -1e-12 <= s <= 0.5 + 1e-12, case, str(s))
    t.count(states=int(ok.sum()), transitions=int(ok.sum()))
    t.outcome((job, float(f.sum())))
    return t


def overhang_laws(job):
    """monotone in depth and gap, scale-free"""
    from heat_load_calc.initializer import solar_shading
    t = Tally()
    dep, hei, gap = (0.0, 0.3, 0.6, 1.2, 2.4), (0.5, 1.0, 2.0), (0.0, 0.2, 0.8)

    def sky_share(d, h, g):
        return solar_shading.SolarShading.create(window('s', 'single', (d, h, g))).get_f_ss_s_j()
    for h, g in itertools.product(hei, gap):
        f = [sky_share(d, h, g) for d in dep]
        t.check('deeper shades more', all(b >= a - 1e-12 for a, b in zip(f, f[1:])) and abs(f[0]) < 1e-12, {'height': h, 'gap': g}, str(f))
        t.count(transitions=len(dep))
    for d, h, g in itertools.product(dep + (0.04, 6.0), hei + (0.1, 0.25, 5.0), gap + (0.03, 4.0)):
        t.close('scale free', sky_share(3 * d, 3 * h, 3 * g), sky_share(d, h, g), 1e-12, {'overhang': (d, h, g)})
        t.close('sky share', sky_share(d, h, g), sky.overhang_sky(d, h, g), 1e-12, {'overhang': (d, h, g)})
        t.count(transitions=1)
    # dispatch: refused or absent parts
    for kind, struck, ex in itertools.product(('external_general_part', 'external_transparent_part', 'external_opaque_part', 'internal', 'ground'), (True, False), (True, False)):
        b = window('w', 'single', (0.6, 1.1, 0.0) if ex else None, struck, kind=kind)
        p = solar_shading.SolarShading.create(b)
        shaded = ex and struck and kind.startswith('external')
        fs = p.get_f_ss_s_j()
        t.close('overhang where it exists', fs, sky.overhang_sky(0.6, 1.1, 0.0) if shaded else 0.0, 1e-12, {'kind': kind, 'sun': struck, 'overhang': ex})
        fd = np.asarray(p.get_f_ss_d_j_ns(np.array([0.5, -0.5, 1.2]), np.array([1.5, 0.0, 1.6])))
        want = sky.overhang_direct(np.array([0.5, -0.5, 1.2]), np.array([1.5, 0.0, 1.6]), math.pi / 2, 0.6, 1.1, 0.0) if shaded else np.zeros(3)
        t.close('direct shade where it exists', fd, want, 1e-9, {'kind': kind, 'sun': struck, 'overhang': ex}, sig_if=[] if shaded else [('KF-UNSHADED', np.ones(3))])
        t.count(transitions=1)
    b = window('s', 'single', (0.6, 1.1, 0.0))
    b['solar_shading_part']['input_method'] = 'other'
    try:
        solar_shading.SolarShading.create(b)
        t.fail('unknown input method accepted', {})
    except ValueError:
        pass
    t.outcome('laws')
    return t


def real(job):
    region, glass_ = job
    t = Tally()
    y = skygrid.real_year(region)
    for d in sky.DIRECTIONS:
        for shade in ((None, (0.9, 1.4, 0.3)) if d in VERTICAL else (None,)):
            case = {'region': region, 'glass': glass_, 'direction': d, 'overhang': shade}
            q = judge(t, y, d, glass_, shade, True, 4.2, 0.6, case)
            t.outcome((job, d, shade, round(float(q.sum()), 2)))
    t.count(traces_validated_against_impl=1)
    return t


def explore(run):
    run.bounds = {'sun': '24 altitudes x 73 azimuths', 'radiation': 20, 'directions': 10, 'overhangs': len(SHADES), 'regions': 8}
    run.assumptions = ['overhangs are placed over vertical windows; the detailed shading method is not implemented by the code']
    run.pmap(grid, list(itertools.product(('single', 'multiple'), sky.DIRECTIONS, (0.0, 0.02, 0.05) if run.thorough else (0.02,))))
    run.merge(glass(run.thorough))
    shades = [s for s in SHADES if s]
    if run.thorough:
        shades = list(itertools.product((0.0, 0.3, 0.9, 1.8, 3.0), (0.1, 0.4, 1.1, 2.0), (0.0, 0.03, 0.1, 0.5, 1.0)))
    run.pmap(overhang, list(itertools.product(shades, VERTICAL)), chunksize=8)
    run.merge(overhang_laws(None))
    run.pmap(real, list(itertools.product(range(1, 9), ('single', 'multiple'))))


if __name__ == '__main__':
    runner.main('C16', 'model_checking', 'one per sun position x radiation x window and per step of the real years', explore)
