"""Reference for the schedules of a year, straight from the published table."""
import json
import os

import numpy as np

from mc import runner

ROOMS = ('main_occupant_room', 'other_occupant_room', 'non_occupant_room')
DAYS = ('平日', '休日外', '休日在')


def table():
    with open(os.path.join(runner.REPO, 'heat_load_calc', 'initializer', 'schedules.json'), encoding='utf-8') as f:
        return json.load(f)


def residents(area):
    """1 below 30 m2, one per 30 m2, 4 from 120 m2"""
    return min(max(area / 30.0, 1.0), 4.0)


def item(d, name, what, n_p):
    """35040 values of one item of one room for n_p residents: day by day, linear between the whole numbers of residents"""
    lo = min(int(n_p), 3)
    w = n_p - lo
    days = {}
    for k in DAYS:
        a, b = d['daily_schedule'][str(lo)][name][k][what], d['daily_schedule'][str(lo + 1)][name][k][what]
        days[k] = [x + (y - x) * w for x, y in zip(a, b)]
    out = []
    for k in d['calendar']:
        out += days[k]
    return np.array(out)


def rooms(d, names, areas, n_p, exchanged=False):
    """heat W, moisture kg/s, local ventilation m3/s, persons, demand, each [room, step].  exchanged: recorded defect of cooking"""
    q, x, v, h, a = [], [], [], [], []
    for n, s in zip(names, areas):
        ck, mo = item(d, n, 'heat_generation_cooking', n_p), item(d, n, 'vapor_generation_cooking', n_p)
        if exchanged:
            ck, mo = mo, ck
        q.append(item(d, n, 'heat_generation_appliances', n_p) + ck + item(d, n, 'heat_generation_lighting', n_p) * s)
        x.append(mo / 3.6e6)
        v.append(item(d, n, 'local_vent_amount', n_p) / 3600.0)
        h.append(item(d, n, 'number_of_people', n_p))
        a.append(item(d, n, 'is_temp_limit_set', n_p))
    return tuple(np.array(k) for k in (q, x, v, h, a))
