"""C15 radiation on tilted surfaces: grid of sun positions x radiation states x orientations, and the real years of all regions."""
import itertools

import numpy as np

from mc import runner, sky, skygrid
from mc.runner import Tally


def judge(t, y, al, be, case):
    from heat_load_calc.initializer import inclined_surface_solar_radiation as isr
    i_dn, i_sky, h, a = skygrid.args(y)
    keep = {k: v.copy() for k, v in y.items()}
    d, s, g = isr.get_i_is_j_ns(i_dn_ns=i_dn, i_sky_ns=i_sky, h_sun_ns=h, a_sun_ns=a, w_alpha_j=al, w_beta_j=be)
    dr, sr, gr = sky.components(i_dn, i_sky, h, a, al, be)
    t.close('direct', d, dr, 2e-5, case)
    t.close('sky', s, sr, 1e-9, case)
    t.close('ground', g, gr, 1e-9, case)
    aoi = isr.get_theta_aoi_j_n(h_sun_ns=h, a_sun_ns=a, w_alpha_j=al, w_beta_j=be)
    t.close('incidence', np.cos(aoi), sky.cos_incidence(h, a, al, be), 1e-9, case)
    t.check('incidence in front', np.all((aoi >= 0) & (aoi <= np.pi / 2 + 1e-12)), case, 'angle outside 0..90 degree')
    t.close('night radiation', isr.get_r_n_is_j_ns(r_n_ns=y['r_n_ns'], w_beta_j=be), np.cos(be / 2) ** 2 * y['r_n_ns'], 1e-9, case)
    t.check('never negative', all(np.all(np.asarray(x) >= -1e-12) for x in (d, s, g)), case, 'negative radiation')
    t.check('not more than the beam', np.all(d <= i_dn * (1 + 1e-12)), case, 'direct part above the beam')
    skygrid.same(t, y, keep, case)
    t.count(states=len(h), transitions=len(h))
    return d, s, g


def named(job):
    from heat_load_calc.initializer import external_boundaries_direction as ebd
    t = Tally()
    y = skygrid.real_year(job) if job else skygrid.year()
    out = {}
    for name, (al, be) in sky.DIRECTIONS.items():
        got = ebd.get_w_alpha_j_w_beta_j(direction_j=name)
        t.close('orientation of %s' % name, [(got[0] - np.radians(al) + np.pi) % (2 * np.pi) - np.pi, got[1]], [0.0, np.radians(be)], 1e-12, {'direction': name})
        out[name] = judge(t, y, float(got[0]), float(got[1]), {'direction': name, 'year': job})
        t.outcome((job, name, float(np.sum(out[name][0]))))
    # laws that tie the directions together
    i_dn, i_sky, h, a = skygrid.args(y)
    case = {'year': job}
    up = np.maximum(np.sin(h), 0)
    t.close('a horizontal surface sees all of the sky', out['top'][0] + out['top'][1], i_dn * up + i_sky, 2e-5, case)
    t.close('a surface facing down sees only the ground', out['bottom'][1] + out['bottom'][2], 0.1 * (i_dn * up + i_sky), 1e-9, case)
    for p, q in (('s', 'n'), ('e', 'w'), ('se', 'nw'), ('ne', 'sw')):
        t.close('opposite walls share the beam', np.minimum(out[p][0], out[q][0]), 0.0, 2e-5, case)
    if not job:
        for p, q in (('e', 'w'), ('se', 'sw'), ('ne', 'nw')):
            m = {k: (-v if k == 'a_sun_ns' else v) for k, v in y.items()}
            al, be = sky.DIRECTIONS[q]
            from heat_load_calc.initializer import inclined_surface_solar_radiation as isr
            d, _, _ = isr.get_i_is_j_ns(i_dn_ns=i_dn, i_sky_ns=i_sky, h_sun_ns=h, a_sun_ns=m['a_sun_ns'], w_alpha_j=np.radians(al), w_beta_j=np.radians(be))
            t.close('mirror images', d, out[p][0], 2e-5, case)
    try:
        ebd.get_w_alpha_j_w_beta_j(direction_j='southwest')
        t.fail('unknown direction accepted', case)
    except Exception:  # noqa
        pass
    return t


def free(job):
    al, be, shift = job
    t = Tally()
    judge(t, skygrid.year(shift), al, be, {'azimuth': al, 'tilt': be, 'shift': shift})
    t.outcome(job)
    return t


def explore(run):
    run.bounds = {'sun': '24 altitudes x 73 azimuths', 'radiation': 20, 'orientations': '10 named, grid of azimuth x tilt'}
    run.assumptions = ['ground reflectance 0.1; sky view from the tilt angle alone; the sun exactly overhead without azimuth is not judged']
    run.pmap(named, [0] + list(range(1, 9)))
    azi = np.radians(np.arange(-180, 181, 15 if run.thorough else 60))
    til = np.radians(np.arange(0, 181, 10 if run.thorough else 30))
    run.pmap(free, list(itertools.product(azi, til, (0.0, 0.031) if run.thorough else (0.031,))))


if __name__ == '__main__':
    runner.main('C15', 'model_checking', 'one per sun position x radiation state x orientation and per step of the year x region x direction', explore)
