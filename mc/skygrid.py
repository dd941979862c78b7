"""Synthetic years: every combination of sun altitude, azimuth and a set of radiation states laid out over the 35040 steps of a year."""
import itertools

import numpy as np

N = 35040
HALF = np.pi / 2
ALT = np.array([-1.2, -0.3, -1e-3, -1e-9, 0.0, 1e-9, 1e-3, 0.01, 0.05, 0.1, 0.17, 0.25, 0.35, 0.45, 0.55, 0.7, 0.7853981633974483, 0.9, 1.05, 1.2, 1.35, 1.45, 1.56, HALF])
AZI = np.radians(np.arange(73) * 5.0 - 180.0)
assert len(ALT) * len(AZI) * 20 == N
# direct normal, horizontal sky, outward (also negative: warm clouds), outdoor temperature
RAD = [(d, s, r, th) for (d, s), (r, th) in itertools.product(((0., 0.), (0., 120.), (350., 60.), (900., 0.), (780., 230.)), ((0., 22.5), (95., -11.0), (60., 34.0), (-45., 5.0)))]


def year(shift=0.0):
    """arrays a_sun, h_sun, i_dn, i_sky, r_n, theta_o of a synthetic year covering ALT x AZI x RAD; azimuths turned by `shift`"""
    h = np.repeat(ALT, len(AZI) * 20)
    a = np.tile(np.repeat(AZI + shift, 20), len(ALT))
    r = np.tile(np.array(RAD), (len(ALT) * len(AZI), 1))
    return {'a_sun_ns': a, 'h_sun_ns': h, 'i_dn_ns': r[:, 0].copy(), 'i_sky_ns': r[:, 1].copy(), 'r_n_ns': r[:, 2].copy(), 'theta_o_ns': r[:, 3].copy()}


def real_year(region):
    from heat_load_calc.weather import weather
    d = weather.make_weather(region=region, interval='15m')
    return {'a_sun_ns': d['sun azimuth'].values, 'h_sun_ns': d['sun altitude'].values, 'i_dn_ns': d['normal direct solar radiation'].values,
            'i_sky_ns': d['horizontal sky solar radiation'].values, 'r_n_ns': d['outward radiation'].values, 'theta_o_ns': d['temperature'].values}


def args(y):
    """in the order of the reference functions: i_dn, i_sky, h, a"""
    return y['i_dn_ns'], y['i_sky_ns'], y['h_sun_ns'], y['a_sun_ns']


def boundary(kind, **kw):
    b = {'id': 0, 'name': 'b', 'connected_room_id': 0, 'boundary_type': kind, 'area': 7.0, 'is_sun_striked_outside': True, 'temp_dif_coef': 1.0,
         'next_room_type': 'main_occupant_room', 'rear_surface_boundary_id': 0, 'is_solar_absorbed_inside': False, 'is_floor': False, 'direction': 's',
         'inside_heat_transfer_resistance': 0.11, 'h_c': 2.5, 'solar_shading_part': {'existence': False}, 'outside_solar_absorption': 0.8,
         'outside_emissivity': 0.9, 'outside_heat_transfer_resistance': 0.04, 'layers': [{'name': 'x', 'thermal_resistance': 0.5, 'thermal_capacity': 10.0}],
         'u_value': 2.33, 'eta_value': 0.6, 'incident_angle_characteristics': 'multiple'}
    if kind in ('internal', 'ground'):
        for k in ('is_sun_striked_outside', 'direction', 'temp_dif_coef'):
            del b[k]
    b.update(kw)
    return b


def load(b, y):
    from heat_load_calc.initializer import boundary_simple
    return boundary_simple.get_boundary_simple(b=b, **y)


def same(t, y, keep, case):
    t.check('weather untouched', all(np.array_equal(y[k], keep[k]) for k in y), case, 'the weather arrays were changed')
