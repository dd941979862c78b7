"""C32 from description and weather to result: real years of whole houses, every step judged, the public calculation replayed."""
import itertools
import json
import os
import shutil

import numpy as np

from checks import c01, c02, c03, c04, c05, c10, c11
from mc import bench, coreexp, family, housegen as hg, ref, runner
from mc.house import TempDir
from mc.runner import Tally

MONITORS = (c01, c02, c03, c04, c05, c10, c11)
# rooms (kind, heating, cooling), elements; rooms with an inner element between them have sides of like sizes (otherwise recorded finding KF-REAR), no air paths (KF-INTERVENT)
HOUSES = {
    'one room': ([('main_occupant_room', 'convective', 'convective')], ['wall', 'window', 'floor', 'atticwall'], 2, 'negative'),
    'two rooms': ([('main_occupant_room', 'radiative', 'convective'), ('other_occupant_room', 'convective', 'radiative')],
                  ['wall', 'window', 'inner', 'ground', ('wall', 1), ('openwindow', 1), ('inner', 1), ('floor', 1)], 1, 'balanced'),
    'three rooms': ([('non_occupant_room', 'not_installed', 'not_installed'), ('main_occupant_room', 'convective', 'convective'), ('other_occupant_room', 'radiative', 'radiative')],
                    ['wall', 'door', 'ground', ('window', 1), ('floor', 1), ('inner', 1), ('shadywindow', 2), ('atticwall', 2), ('inner', 2)], 2, 'positive'),
    'heavy': ([('main_occupant_room', 'convective', 'not_installed')], ['floor', 'ground', 'openwindow', 'wall', 'wall', 'door'], 1, 'negative'),
}


def build(name):
    R, B, story, pressure = HOUSES[name]
    rooms = [hg.room(i, k, heat=h, cool=c, floor=22.0 + 9.1 * i) for i, (k, h, c) in enumerate(R)]
    el = []
    for j, b in enumerate(B):
        l, i = b if isinstance(b, tuple) else (b, 0)
        el.append(hg.element(l, j, i))
        el[-1]['area'] = 6.0 + 2.3 * sum(e['connected_room_id'] == i for e in el)
    inner = [e for e in el if e['boundary_type'] == 'internal']
    for a, b in zip(inner[::2], inner[1::2]):
        a['rear_surface_boundary_id'], b['rear_surface_boundary_id'] = b['id'], a['id']
        assert a['area'] == b['area']
    return hg.house(rooms, el, story, 1.7, pressure)


class Rows:
    """letters of a year, made when asked for"""

    def __init__(self, d):
        import pandas as pd
        self.t = {k: pd.read_csv('%s/mid_data_%s.csv' % (d, k), header=None).values for k in
                  ('local_vent', 'heat_generation', 'moisture_generation', 'occupants', 'ac_demand', 'q_trs_sol', 'theta_o_sol')}
        w = pd.read_csv(d + '/weather.csv')
        self.to, self.xo = w['temperature'].values, w['absolute humidity'].values

    def __len__(self):
        return len(self.to)

    def __getitem__(self, k):
        g = lambda n: list(self.t[n][k])
        return {'theta_o': float(self.to[k]), 'x_o': float(self.xo[k]), 'ac': g('ac_demand'), 'n_hum': g('occupants'), 'q_gen': g('heat_generation'), 'x_gen': g('moisture_generation'),
                'v_loc': g('local_vent'), 'q_trs': g('q_trs_sol'), 'theta_o_sol': g('theta_o_sol')}


class FileHouse:
    """the house in a folder of files"""

    def __init__(self, d, name):
        with open(d + '/mid_data_house.json') as f:
            j = json.load(f)
        self.name, self.building, self.spaces, self.boundaries = name, j['building'], j['spaces'], j['boundaries']
        self.letters = Rows(d)
        self.ni, self.nj = len(self.spaces), len(self.boundaries)

    def theta_o_sol(self, L):
        return L['theta_o_sol']


class FileImpl(bench.Impl):
    def __init__(self, d, house, dt=900.0):
        from heat_load_calc.core import pre_calc_parameters, log, conditions, sequence
        self.house, self.dt = house, dt
        with bench.quiet():
            self.pp, self.ppg = pre_calc_parameters.make_pre_calc_parameters(delta_t=dt, data_directory=d)
        self._logger = log.Logger(n_spaces=house.ni, n_boundaries=house.nj, n_step_main=len(house.letters))
        self._tick = sequence.run_tick
        self._init = conditions.initialize_conditions


def prepare(d, name, region):
    from heat_load_calc.initializer import initializer
    from heat_load_calc.weather import weather
    with bench.quiet():
        weather.make_weather(region=region, output_data_dir=d, csv_output=True)
        initializer.make_house(d=build(name), input_data_dir=d, output_data_dir=d)


def year(job):
    name, region, days, monitors, span = job
    t = Tally()
    with TempDir() as d:
        prepare(d, name, region)
        h = FileHouse(d, name)
        I = FileImpl(d, h)
        m = ref.Model(h)
        mons = [M for M in MONITORS if M.__name__.split('.')[-1] in monitors]
        c = I.initial()
        for day in days:
            for k in range(day * 96, day * 96 + 96):
                st = bench.state_of(c)
                c2, out = I.step(c, k)
                x = coreexp.Ctx()
                x.h, x.m, x.dt, x.st, x.L, x.k, x.st2, x.out = h, m, 900.0, st, h.letters[k], k, bench.state_of(c2), out
                x.path, x.v_out = [k], coreexp.flow_out(m, h.letters[k], out)
                x.case = {'house': name, 'region': region, 'step of the year': k}
                for M in mons:
                    M.monitor(t, x)
                t.count(states=1, transitions=1)
                c = c2
        if span:
            replay(t, d, h, m, I, span, {'house': name, 'region': region, 'periods': span})
    t.outcome((name, region))
    return t


def replay(t, d, h, m, I, span, case):
    """the public calculation on the same files: the same steps, the run-up taken from the end of the year"""
    from heat_load_calc.core import core
    run_up, built, days = span
    with TempDir() as o, bench.quiet():
        ds, dd = core.calc(input_data_dir=d, output_data_dir=o, n_step_hourly=4, n_d_main=days, n_d_run_up=run_up, n_d_run_up_build=built)
    N = len(h.letters)
    c = I.initial()
    first = h.letters[0]['theta_o_sol']
    gr = m.ground_run_up(list(h.letters.to), (run_up * 96, built * 96))
    for j, (q, ta) in gr.items():
        c.q_srf_js_n[j] = q
        c.theta_dsh_srf_a_js_ms_n[j, :] = ta
        c.theta_dsh_srf_t_js_ms_n[j, :] = m.t1[j] / (1.0 - m.rr[j]) * first[j] * m.k_o[j]
    outs = []
    for n in range(-built * 96, days * 96):
        c, o = I.step(c, n % N)
        if n >= 0:
            outs.append(o)
    for i in range(h.ni):
        for col, key in (('_t_r', 'tr'), ('_x_r', 'x'), ('_mrt', 'mrt'), ('_ot', 'ot'), ('_l_s_c', 'lc'), ('_l_s_r', 'lr'), ('_l_l_c', 'lcl'), ('_t_fun', 'tf'), ('_x_fun', 'xf'), ('_v_reak', 'v_leak')):
            t.close('replay' + col, dd['rm%d%s' % (i, col)].values.astype(float)[:len(outs)], [o[key][i] for o in outs], 1e-6, case, rtol=1e-7)
        t.check('replay mode', [int(v) for v in dd['rm%d_ac_operate' % i].values[:len(outs)]] == [int(o['mode'][i]) for o in outs], case, 'modes differ')
    t.count(traces_validated_against_impl=1, replayed_steps=len(outs))


def explore(run):
    names = list(HOUSES)
    allm = tuple(M.__name__.split('.')[-1] for M in MONITORS)
    run.assumptions = ['both sides of inner elements alike, no air between rooms (the recorded findings of C01-C06 concern these)', 'response factors as made by the code (judged by C21)']
    if run.thorough:
        jobs = [(n, r, range(p, 365, 4), allm, (30, 10, 20) if p == 0 else None) for n in names for r in range(1, 9) for p in range(4)]
        run.bounds = {'houses': names, 'regions': 8, 'days': 'all, in four chains of every fourth day', 'replay': '30 days of run-up, 10 of them building, 20 days'}
    else:
        jobs = [(n, r, range(p, 365, 24), allm, (6, 2, 3) if p == 0 else None) for k, n in enumerate(names) for r, p in (((3 * k) % 8 + 1, 0), ((3 * k + 5) % 8 + 1, 12))]
        run.bounds = {'houses': names, 'regions': 'two for each house', 'days': 'every 24th', 'replay': '6 days of run-up, 2 of them building, 3 days'}
    run.pmap(year, jobs)


if __name__ == '__main__':
    runner.main('C32', 'model_checking', 'one per step of the year of a house', explore)
