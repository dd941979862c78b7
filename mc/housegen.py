"""Descriptions of houses for the initializer and what the house file made from them must contain."""
import copy
import itertools
import json
import os

import numpy as np

from mc import sched, sky

W_COLS = 'idx,temperature,absolute humidity,normal direct solar radiation,horizontal sky solar radiation,outward radiation,sun altitude,sun azimuth'
FILES = ['mid_data_%s.csv' % k for k in ('local_vent', 'heat_generation', 'moisture_generation', 'occupants', 'ac_demand', 'q_trs_sol', 'theta_o_sol')]


def short_weather(d):
    with open(os.path.join(d, 'weather.csv'), 'w') as f:
        f.write(W_COLS + '\n')
        for k, (h, a) in enumerate(((0.5, 0.2), (1.0, -1.3), (-0.4, 3.0), (0.1, 2.0))):
            f.write('%d,%r,0.005,300.0,90.0,60.0,%r,%r\n' % (k, 3.0 + k, h, a))


def equip(kind, seed=0):
    e = {'equipment_type': kind}
    if kind == 'convective':
        e['convective'] = {'q_min': 400.0 + seed, 'q_max': 3000.0 + 10 * seed, 'v_min': 7.0 + 0.1 * seed, 'v_max': 13.0 + 0.2 * seed}
    if kind == 'radiative':
        e['radiative'] = {'max_capacity': 90.5 + seed, 'area': 12.3 + 1.17 * seed}
    return e


def room(i, name, room_type=None, heat='convective', cool='convective', vents=(), volume=None, floor=None, seed=0):
    return {'id': i, 'name': name, 'room_type': room_type or name, 'volume': volume or 70.0 + 11.0 * i, 'vent': 36.0 + 12.5 * i,
            'next_vent': [{'upstream_room_id': u, 'volume': v} for u, v in vents], 'natural_vent_time': 5.0 - 1.5 * i,
            'floor_area': floor or 29.81 + 7.3 * i, 'heating_equipment': equip(heat, seed + i), 'cooling_equipment': equip(cool, seed + 3 + i)}


LAYERS = [[{'name': 'a', 'thermal_resistance': 0.075, 'thermal_capacity': 8.9}, {'name': 'b', 'thermal_resistance': 2.2, 'thermal_capacity': 1.3}],
          [{'name': 'c', 'thermal_resistance': 0.1, 'thermal_capacity': 240.0}]]


def element(letter, j, room_id, rear=None):
    """one boundary of the alphabet"""
    b = {'id': j, 'name': 'bdry%d' % j, 'connected_room_id': room_id, 'area': 4.0 + 1.7 * j + 0.3 * room_id,
         'is_solar_absorbed_inside': False, 'is_floor': False, 'inside_heat_transfer_resistance': 0.11, 'h_c': 2.5, 'solar_shading_part': {'existence': False}}
    out = {'is_sun_striked_outside': True, 'direction': 'sw', 'outside_emissivity': 0.9, 'outside_heat_transfer_resistance': 0.04, 'temp_dif_coef': 1.0}
    if letter == 'wall':
        b.update(out, boundary_type='external_general_part', outside_solar_absorption=0.8, layers=LAYERS[j % 2], is_solar_absorbed_inside=True)
    elif letter == 'atticwall':
        b.update(out, boundary_type='external_general_part', outside_solar_absorption=0.7, layers=LAYERS[0], temp_dif_coef=0.7, direction='top', inside_heat_transfer_resistance=0.09, h_c=5.0)
    elif letter == 'floor':
        b.update(out, boundary_type='external_general_part', layers=LAYERS[1], temp_dif_coef=0.35, is_sun_striked_outside=False, is_floor=True, is_solar_absorbed_inside=True, h_c=0.7,
                 inside_heat_transfer_resistance=0.15, outside_heat_transfer_resistance=0.15)
        del b['direction']
    elif letter == 'door':
        b.update(out, boundary_type='external_opaque_part', outside_solar_absorption=0.6, u_value=2.33, direction='n')
    elif letter == 'window':
        b.update(out, boundary_type='external_transparent_part', u_value=4.65, eta_value=0.6, incident_angle_characteristics='multiple', direction='s',
                 solar_shading_part={'existence': True, 'input_method': 'simple', 'depth': 0.6, 'd_h': 1.1, 'd_e': 0.1})
    elif letter == 'openwindow':
        b.update(out, boundary_type='external_transparent_part', u_value=6.5, eta_value=0.8, incident_angle_characteristics='single', direction='e')
    elif letter == 'shadywindow':
        b.update(out, boundary_type='external_transparent_part', u_value=2.9, eta_value=0.4, incident_angle_characteristics='multiple', is_sun_striked_outside=False, temp_dif_coef=0.7)
        del b['direction']
    elif letter == 'ground':
        b.update(boundary_type='ground', layers=LAYERS[1], is_floor=True, h_c=0.7, inside_heat_transfer_resistance=0.15, is_solar_absorbed_inside=True)
    elif letter == 'inner':
        b.update(boundary_type='internal', layers=LAYERS[0], next_room_type='non_occupant_room', rear_surface_boundary_id=j if rear is None else rear, outside_heat_transfer_resistance=0.11)
    elif letter == 'innerfloor':
        b.update(boundary_type='internal', layers=LAYERS[1], next_room_type='other_occupant_room', rear_surface_boundary_id=j if rear is None else rear, outside_heat_transfer_resistance=0.15,
                 is_floor=True, is_solar_absorbed_inside=True)
    else:
        raise KeyError(letter)
    return b


LETTERS = ('wall', 'atticwall', 'floor', 'door', 'window', 'openwindow', 'shadywindow', 'ground', 'inner', 'innerfloor')


def house(rooms, elements, story=2, c_value=0.2, pressure='negative'):
    return {'building': {'story': story, 'c_value': c_value, 'inside_pressure': pressure}, 'rooms': rooms, 'boundaries': elements}


def expected(d):
    """the house file"""
    R, B = d['rooms'], d['boundaries']
    spaces = []
    for r in R:
        V = r['volume']
        nxt = [0.0] * len(R)
        for v in r['next_vent']:
            nxt[v['upstream_room_id']] += v['volume'] / 3600.0

        def eq(e, cooling):
            k = e['equipment_type']
            rad, conv = {'installed': k == 'radiative'}, {'installed': k == 'convective'}
            if k == 'radiative':
                rad['max_capacity'] = e['radiative']['max_capacity'] * e['radiative']['area']
            if k == 'convective' and cooling:
                conv.update({q: e['convective'][q] for q in ('q_min', 'q_max', 'v_min', 'v_max')})
            return {'radiative': rad, 'convective': conv}
        spaces.append({'id': r['id'], 'name': r['name'], 'volume': V, 'beta': 0.0,
                       'ventilation': {'mechanical': r['vent'] / 3600.0, 'next_spaces': nxt, 'natural': V * r['natural_vent_time'] / 3600.0},
                       'furniture': {'heat_capacity': 12600.0 * V, 'heat_cond': 0.00022 * 12600.0 * V, 'moisture_capacity': 16.8 * V, 'moisture_cond': 0.0018 * 16.8 * V},
                       'equipment': {'heating': eq(r['heating_equipment'], False), 'cooling': eq(r['cooling_equipment'], True)}})
    bs = []
    for b in B:
        i = b['connected_room_id']
        mine = [x for x in B if x['connected_room_id'] == i]
        fl = sum(x['area'] for x in mine if x['is_floor'])
        al = sum(x['area'] for x in mine)
        if fl == 0.0 or all(x['is_floor'] for x in mine):
            mrt = b['area'] / al
        else:
            mrt = 0.45 * b['area'] / fl if b['is_floor'] else 0.55 * b['area'] / (al - fl)
        rad = any(R[i][k]['equipment_type'] == 'radiative' for k in ('heating_equipment', 'cooling_equipment'))
        flr = 0.0
        if rad:
            flr = b['area'] / al if fl == 0.0 else (b['area'] / fl if b['is_floor'] else 0.0)
        kind = b['boundary_type']
        k_out = {'internal': 0.0, 'ground': 1.0}.get(kind, b.get('temp_dif_coef'))
        k_in = None
        if kind == 'internal':
            k_in = {'id': b['rear_surface_boundary_id'], 'coef': 1.0}
        elif kind != 'ground' and k_out < 1.0:
            k_in = {'id': b['id'], 'coef': 1.0 - k_out}
        if kind in ('external_general_part', 'internal'):
            spec = {'method': 'layers', 'boundary_type': kind, 'layers': b['layers'], 'outside_heat_transfer_resistance': b['outside_heat_transfer_resistance']}
        elif kind == 'ground':
            spec = {'method': 'layers_ground', 'boundary_type': kind, 'layers': b['layers']}
        else:
            spec = {'method': 'u_value', 'boundary_type': kind, 'u_value': b['u_value'], 'inside_heat_transfer_resistance': b['inside_heat_transfer_resistance']}
        bs.append({'id': b['id'], 'name': b['name'], 'is_ground': 'true' if kind == 'ground' else 'false', 'connected_space_id': i, 'area': b['area'],
                   'h_i': 1.0 / b['inside_heat_transfer_resistance'], 'h_c': b['h_c'], 'flr': flr, 'is_solar_absorbed': 'True' if b['is_solar_absorbed_inside'] else 'False',
                   'f_mrt_hum': mrt, 'k_outside': k_out, 'k_inside': k_in, 'spec': spec})
    return {'building': dict({'infiltration_method': 'balance_residential'}, **d['building']), 'spaces': spaces, 'boundaries': bs}


def compare(t, got, want, case, path=''):
    """every expected entry is there with the expected value; further entries are nobody's business"""
    if isinstance(want, dict):
        if not t.check('entry', isinstance(got, dict), case, path):
            return
        for k, v in want.items():
            if t.check('entry', k in got, case, path + '/' + k + ' is missing'):
                compare(t, got[k], v, case, path + '/' + k)
    elif isinstance(want, list):
        if t.check('list', isinstance(got, list) and len(got) == len(want), case, path):
            for k, v in enumerate(want):
                compare(t, got[k], v, case, path + '/%d' % k)
    elif isinstance(want, bool) or want is None or isinstance(want, str):
        t.check('value', got == want and (want is None or isinstance(got, type(want))), case, '%s: %r instead of %r' % (path, got, want))
    else:
        name = '/'.join(p for p in path.split('/') if not p.isdigit())
        if t.check('number', isinstance(got, (int, float)) and not isinstance(got, bool), case, '%s: %r' % (path, got)):
            t.close('number %s' % name, got, want, 1e-12, case, rtol=1e-9)


def json_only(d, workdir):
    """run the short variant; returns the house file"""
    from heat_load_calc.initializer import initializer
    src, dst = os.path.join(workdir, 'in'), os.path.join(workdir, 'out')
    for p in (src, dst):
        os.makedirs(p, exist_ok=True)
    if not os.path.exists(src + '/weather.csv'):
        short_weather(src)
    if os.path.exists(dst + '/mid_data_house.json'):
        os.remove(dst + '/mid_data_house.json')
    initializer.make_house_for_test(d=d, input_data_dir=src, output_data_dir=dst)
    with open(dst + '/mid_data_house.json') as f:
        return json.load(f)


def tables(d, y):
    """the seven tables; second: with the recorded defects"""
    names, areas = [r['name'] for r in d['rooms']], [r['floor_area'] for r in d['rooms']]
    n_p = sched.residents(sum(areas))
    tb = sched.table()
    i_dn, i_sky, h, a = y['i_dn_ns'], y['i_sky_ns'], y['h_sun_ns'], y['a_sun_ns']
    out = []
    for bad in (False, True):
        q, x, v, hum, ac = sched.rooms(tb, names, areas, n_p, exchanged=bad)
        sun = np.zeros((len(names), 35040))
        for b in d['boundaries']:
            if b['boundary_type'] == 'external_transparent_part':
                s = b['solar_shading_part']
                w = {'area': b['area'], 'eta': b['eta_value'], 'glass': b['incident_angle_characteristics'], 'direction': b.get('direction'), 'sun': b['is_sun_striked_outside'],
                     'shade': (s['depth'], s['d_h'], s['d_e']) if s['existence'] else None}
                sun[b['connected_room_id']] += sky.transmitted(w, i_dn, i_sky, h, a, drop_direct=bad)
        th = np.array([sky.outside_temperature(b, y['theta_o_ns'], i_dn, i_sky, y['r_n_ns'], h, a) for b in d['boundaries']])
        out.append({'local_vent': v, 'heat_generation': q, 'moisture_generation': x, 'occupants': hum, 'ac_demand': ac, 'q_trs_sol': sun, 'theta_o_sol': th})
    return out
