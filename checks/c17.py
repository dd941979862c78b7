"""C17 temperature at the outer side of every kind of element for every sun position and radiation state, and in the real years."""
import itertools

import numpy as np

from mc import runner, sky, skygrid
from mc.runner import Tally

KINDS = ('external_general_part', 'external_opaque_part', 'external_transparent_part')


def judge(t, y, b, case):
    keep = {k: v.copy() for k, v in y.items()}
    got = np.asarray(skygrid.load(b, y).theta_o_sol)
    i_dn, i_sky, h, a = skygrid.args(y)
    want = sky.outside_temperature(b, y['theta_o_ns'], i_dn, i_sky, y['r_n_ns'], h, a)
    t.close('outside temperature of %s' % b['boundary_type'], got, want, 5e-6, case)
    skygrid.same(t, y, keep, case)
    t.count(states=len(got), transitions=len(got))
    return got


def grid(job):
    kind, direction, shift = job
    t = Tally()
    y = skygrid.year(shift)
    for struck, (a_s, eps, r) in itertools.product((True, False), ((0.8, 0.9, 0.04), (0.3, 0.5, 0.11), (0.0, 0.9, 0.04), (0.9, 0.0, 0.09), (1.0, 1.0, 0.25), (0.96, 0.97, 0.01))):
        b = skygrid.boundary(kind, direction=direction, is_sun_striked_outside=struck, outside_solar_absorption=a_s, outside_emissivity=eps, outside_heat_transfer_resistance=r)
        case = {'kind': kind, 'direction': direction, 'sun': struck, 'absorption': a_s, 'emissivity': eps, 'resistance': r, 'shift': shift}
        got = judge(t, y, b, case)
        t.outcome((kind, direction, struck, a_s, round(float(got.sum()), 3)))
        # what the element does not use makes no difference
        for k, v in (('area', 55.0), ('u_value', 6.0), ('temp_dif_coef', 0.3), ('temp_dif_coef', 0.0), ('inside_heat_transfer_resistance', 0.15), ('eta_value', 0.1), ('is_floor', True)):
            g2 = np.asarray(skygrid.load(dict(b, **{k: v}), y).theta_o_sol)
            t.close('independent of %s' % k, g2, got, 0.0, case)
            t.count(transitions=1)
    return t


def inner(job):
    t = Tally()
    for y in (skygrid.year(), skygrid.real_year(job)):
        for kind in ('internal', 'ground'):
            for b in (skygrid.boundary(kind), skygrid.boundary(kind, area=1.0, outside_heat_transfer_resistance=0.2)):
                g = judge(t, y, b, {'kind': kind, 'region': job})
                t.outcome((kind, job, round(float(g.sum()), 3)))
    try:
        skygrid.load(skygrid.boundary('external_general_part', boundary_type='roof'), skygrid.year())
        t.fail('unknown kind accepted', {})
    except Exception:  # noqa
        pass
    return t


def real(job):
    region, kind = job
    t = Tally()
    y = skygrid.real_year(region)
    for d, struck in itertools.product(sky.DIRECTIONS, (True, False)):
        b = skygrid.boundary(kind, direction=d, is_sun_striked_outside=struck)
        g = judge(t, y, b, {'region': region, 'kind': kind, 'direction': d, 'sun': struck})
        t.outcome((job, d, struck, round(float(g.sum()), 2)))
    t.count(traces_validated_against_impl=1)
    return t


def explore(run):
    run.bounds = {'sun': '24 altitudes x 73 azimuths', 'radiation': 20, 'directions': 10, 'surfaces': 6, 'regions': 8}
    run.assumptions = ['year of 35040 steps (the house file is made for 15 minutes)']
    run.pmap(grid, list(itertools.product(KINDS, sky.DIRECTIONS, (0.0, 0.02, 0.05) if run.thorough else (0.02,))))
    run.pmap(inner, range(1, 9))
    run.pmap(real, list(itertools.product(range(1, 9), KINDS)))


if __name__ == '__main__':
    runner.main('C17', 'model_checking', 'one per sun position x radiation x element and per step of the real years', explore)
