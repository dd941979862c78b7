"""Synthetic core inputs (mid_data_house.json + csv) used as closed test benches.

Every row n of the csv files is one *letter* of an input alphabet; the real step function is driven with
n = index of the letter, so that a history is a word over the alphabet.
"""
import csv
import json
import os
import shutil
import tempfile

import numpy as np

COOL_CONV = {'installed': True, 'q_min': 500.0, 'q_max': 2800.0, 'v_min': 8.0, 'v_max': 14.0}


def rf_zero():
    return [0.0] * 12


def spec_steady(rtot, phi_t0=1.0):
    """massless element: surface to rear resistance rtot"""
    return {'method': 'response_factor', 'phi_a0': rtot, 'phi_a1': rf_zero(), 'phi_t0': phi_t0,
            'phi_t1': rf_zero(), 'r': rf_zero()}


def spec_mass(rtot=1.2, a0=0.08, t0=0.02, r=(0.97, 0.7, 0.3)):
    """dynamic element with exact DC gains: phi_a0 + sum a1/(1-r) = rtot, phi_t0 + sum t1/(1-r) = 1"""
    r = list(r)
    w = np.array([0.6, 0.3, 0.1])[:len(r)]
    w = w / w.sum()
    a1 = [(rtot - a0) * w[m] * (1 - r[m]) for m in range(len(r))]
    t1 = [(1.0 - t0) * w[m] * (1 - r[m]) for m in range(len(r))]
    pad = 12 - len(r)
    return {'method': 'response_factor', 'phi_a0': a0, 'phi_a1': a1 + [0.0] * pad, 'phi_t0': t0,
            'phi_t1': t1 + [0.0] * pad, 'r': r + [0.0] * pad}


def spec_layers(layers, r_out, kind='external_general_part'):
    """layers: (resistance m2K/W, capacity kJ/m2K) from the room side"""
    return {'method': 'layers', 'boundary_type': kind, 'layers': [{'name': 'x', 'thermal_resistance': r, 'thermal_capacity': c} for r, c in layers],
            'outside_heat_transfer_resistance': r_out}


def spec_ground(layers):
    return {'method': 'layers_ground', 'boundary_type': 'ground', 'layers': [{'name': 'x', 'thermal_resistance': r, 'thermal_capacity': c} for r, c in layers]}


def spec_u(u, r_in=0.11):
    return {'method': 'u_value', 'boundary_type': 'external_opaque_part', 'u_value': u, 'inside_heat_transfer_resistance': r_in}


def boundary(id, room, area, h_c, spec, k_out=1.0, k_in=None, ground=False, sol=True, floor=False, flr=0.0,
             f_mrt_hum=None, name=None):
    return {'id': id, 'name': name or 'b%d' % id, 'sub_name': '', 'is_ground': 'true' if ground else 'false',
            'connected_space_id': room, 'area': area, 'h_i': 1.0 / 0.11, 'h_c': h_c, 'flr': flr,
            'is_solar_absorbed': 'True' if sol else 'False', 'f_mrt_hum': f_mrt_hum, 'k_outside': k_out,
            'k_inside': k_in, 'spec': spec, '_floor': floor}


def fill_form_factors(boundaries, n_rooms):
    """occupant form factors: 0.45 over floors, 0.55 over the rest, by area"""
    for i in range(n_rooms):
        mine = [b for b in boundaries if b['connected_space_id'] == i]
        af = sum(b['area'] for b in mine if b['_floor'])
        ao = sum(b['area'] for b in mine if not b['_floor'])
        for b in mine:
            if b['f_mrt_hum'] is None:
                if af == 0:
                    b['f_mrt_hum'] = b['area'] / ao
                elif ao == 0:
                    b['f_mrt_hum'] = b['area'] / af
                else:
                    b['f_mrt_hum'] = b['area'] / af * 0.45 if b['_floor'] else b['area'] / ao * 0.55
    return boundaries


def space(id, volume, mech=0.0, nxt=None, natural=0.0, furn=True, heat='convective', cool='convective',
          heat_cap=1500.0, cool_cap=1200.0, rac=None, beta=0.0, n_rooms=1):
    cf = 12600.0 * volume if furn else 12600.0 * volume * 1e-3
    cl = 16.8 * volume if furn else 16.8 * volume * 1e-3
    rad_h = {'installed': True, 'max_capacity': heat_cap} if heat == 'radiative' else {'installed': False}
    rad_c = {'installed': True, 'max_capacity': cool_cap} if cool == 'radiative' else {'installed': False}
    conv_c = dict(rac or COOL_CONV) if cool == 'convective' else {'installed': False}
    return {'id': id, 'name': 'room%d' % id, 'volume': volume, 'beta': beta,
            'ventilation': {'mechanical': mech, 'next_spaces': nxt or [0.0] * n_rooms, 'natural': natural},
            'furniture': {'heat_capacity': cf, 'heat_cond': 0.00022 * cf, 'moisture_capacity': cl,
                          'moisture_cond': 0.0018 * cl},
            'equipment': {'heating': {'radiative': rad_h,
                                      'convective': {'installed': heat == 'convective'}},
                          'cooling': {'radiative': rad_c, 'convective': conv_c}}}


class House:
    """building, spaces, boundaries + letters.

    letter: dict(theta_o, x_o, ac=[i], n_hum=[i], q_gen=[i], x_gen=[i], v_loc=[i], q_trs=[i], theta_o_sol=[j] or None)
    """

    def __init__(self, spaces, boundaries, letters, story=2, c_value=2.0, pressure='negative'):
        self.building = {'infiltration_method': 'balance_residential', 'story': story, 'c_value': c_value,
                         'inside_pressure': pressure}
        self.spaces = spaces
        self.boundaries = fill_form_factors(boundaries, len(spaces))
        self.letters = letters

    @property
    def ni(self):
        return len(self.spaces)

    @property
    def nj(self):
        return len(self.boundaries)

    def dict(self):
        return {'building': self.building, 'spaces': self.spaces,
                'boundaries': [{k: v for k, v in b.items() if not k.startswith('_')} for b in self.boundaries]}

    def theta_o_sol(self, L):
        if L.get('theta_o_sol') is not None:
            return L['theta_o_sol']
        return [L['theta_o']] * self.nj

    def write(self, d, rows=None):
        """write the input directory; rows: list of letter indices (default: the alphabet itself)"""
        Ls = self.letters if rows is None else [self.letters[k] for k in rows]
        with open(d + '/mid_data_house.json', 'w') as f:
            json.dump(self.dict(), f)
        with open(d + '/weather.csv', 'w') as f:
            f.write('idx,temperature,absolute humidity,normal direct solar radiation,'
                    'horizontal sky solar radiation,outward radiation,sun altitude,sun azimuth\n')
            for k, L in enumerate(Ls):
                f.write('%d,%r,%r,0.0,0.0,0.0,0.0,0.0\n' % (k, L['theta_o'], L['x_o']))
        for fn, key in [('local_vent', 'v_loc'), ('heat_generation', 'q_gen'), ('moisture_generation', 'x_gen'),
                        ('occupants', 'n_hum'), ('ac_demand', 'ac'), ('q_trs_sol', 'q_trs')]:
            with open(d + '/mid_data_%s.csv' % fn, 'w') as f:
                w = csv.writer(f, lineterminator='\n')
                w.writerows([[float(v) for v in L[key]] for L in Ls])
        with open(d + '/mid_data_theta_o_sol.csv', 'w') as f:
            w = csv.writer(f, lineterminator='\n')
            w.writerows([[float(v) for v in self.theta_o_sol(L)] for L in Ls])
        return d


def letter(house_ni, theta_o=20.0, x_o=0.008, ac=0.0, n_hum=0.0, q_gen=0.0, x_gen=0.0, v_loc=0.0, q_trs=0.0,
           theta_o_sol=None):
    def vec(v):
        return list(v) if isinstance(v, (list, tuple)) else [v] * house_ni
    return {'theta_o': float(theta_o), 'x_o': float(x_o), 'ac': vec(ac), 'n_hum': vec(n_hum), 'q_gen': vec(q_gen),
            'x_gen': vec(x_gen), 'v_loc': vec(v_loc), 'q_trs': vec(q_trs), 'theta_o_sol': theta_o_sol}


class TempDir:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='hlc_')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)
