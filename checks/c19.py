"""C19 house file and tables made from the description of a house, for all words of elements, equipment and air paths."""
import copy
import itertools
import os

import numpy as np

from mc import housegen as hg
from mc import history, runner, sched, skygrid
from mc.house import TempDir
from mc.runner import Tally

EQ = ('convective', 'radiative', 'not_installed')


def judge(t, d, case, wd):
    keep = copy.deepcopy(d)
    got = hg.json_only(d, wd)
    hg.compare(t, got, hg.expected(d), case)
    t.check('description untouched', d == keep, case, 'the description was changed')
    t.count(states=1, transitions=1)
    return got


def words(job):
    """all words of elements of one length over two rooms"""
    n, first = job
    t = Tally()
    with TempDir() as wd:
        for w in itertools.product(hg.LETTERS, repeat=n - 1):
            for where in itertools.product((0, 1), repeat=n):
                lw = (first,) + w
                el = [hg.element('wall', 0, 0), hg.element('door', 1, 1)]
                for k, (l, i) in enumerate(zip(lw, where)):
                    el.append(hg.element(l, k + 2, i))
                rooms = [hg.room(0, 'main_occupant_room', heat='radiative'), hg.room(1, 'non_occupant_room', heat='not_installed', cool='radiative' if n % 2 else 'not_installed')]
                d = hg.house(rooms, el)
                got = judge(t, d, {'elements': lw, 'rooms': where}, wd)
                t.outcome((lw, where))
    return t


def order(job):
    """the order in which elements are listed does not matter to what is written for each"""
    t = Tally()
    base = ['wall', 'floor', 'window', 'inner', 'ground']
    with TempDir() as wd:
        for p in itertools.permutations(range(5)):
            el = []
            for k, q in enumerate(p):
                e = hg.element(base[q], k, 0 if q % 2 else 1)
                e['area'] = 5.0 + q
                el.append(e)
            for e in el:
                if 'rear_surface_boundary_id' in e:
                    e['rear_surface_boundary_id'] = e['id']
            d = hg.house([hg.room(0, 'main_occupant_room', heat='radiative', cool='radiative'), hg.room(1, 'other_occupant_room')], el)
            judge(t, d, {'order': [base[q] for q in p]}, wd)
            t.outcome(p)
    return t


def equipment(job):
    t = Tally()
    nr, h0 = job
    with TempDir() as wd:
        for eq in itertools.product(EQ, repeat=2 * nr - 1):
            eq = (h0,) + eq
            rooms = [hg.room(i, (sched.ROOMS + ('underfloor',))[i], heat=eq[2 * i], cool=eq[2 * i + 1], seed=i * 5) for i in range(nr)]
            el = [hg.element(l, k, i) for k, (l, i) in enumerate((l, i) for i in range(nr) for l in ('floor', 'wall', 'window'))]
            judge(t, hg.house(rooms, el), {'equipment': eq}, wd)
            t.outcome(eq)
    return t


SIZES = (0.05, 0.36, 0.9, 4.2, 17.0, 61.5, 240.0)


def many(job):
    """long lists of elements: same names, tiny and huge pieces, inner walls whose two sides are listed anywhere"""
    n, shift, named = job
    t = Tally()
    with TempDir() as wd:
        for turn in range(4):
            el, slot = [], []
            for i in range(n):
                slot += [(l, i) for l in ('wall', 'floor', 'window', 'openwindow', 'wall', 'door', 'shadywindow')]
            sides = []
            for q, (a, b) in enumerate(itertools.combinations(range(n), 2)):
                sides += [('inner' if q % 2 else 'innerfloor', a, q), ('inner', b, q)]
            # the two sides of a wall lie at both ends, next to each other or between other elements
            slot = [(x[0], x[1], None) for x in slot]
            lst = {0: sides + slot, 1: slot + sides, 2: sides[::2] + slot + sides[1::2], 3: [x for z in itertools.zip_longest(slot, sides) for x in z if x]}[turn]
            lst = lst[shift:] + lst[:shift]
            at = {}
            for j, x in enumerate(lst):
                if x[2] is not None:
                    at.setdefault(x[2], []).append(j)
            for j, (l, i, q) in enumerate(lst):
                rear = None if q is None else [k for k in at[q] if k != j][0]
                e = hg.element(l, j, i, rear)
                e['area'] = SIZES[(j * 3 + shift) % len(SIZES)]
                if named == 'one name':
                    e['name'] = 'wall'
                elif named == 'name of the kind':
                    e['name'] = l
                elif named == 'rooms share names':
                    e['name'] = '%s%d' % (l, j // n)
                el.append(e)
            rooms = [hg.room(i, sched.ROOMS[i] if i < 3 else 'underfloor', heat=EQ[(i + shift) % 3], cool=EQ[(i + turn) % 3], volume=(3.0, 71.3, 999.5, 12.25)[i]) for i in range(n)]
            judge(t, hg.house(rooms, el), {'rooms': n, 'order': turn, 'shift': shift, 'names': named}, wd)
            t.outcome((job, turn))
    return t


def vents(job):
    """all sets of air paths between three rooms up to two per room, all building types"""
    t = Tally()
    with TempDir() as wd:
        paths = [(u, v) for u in range(3) for v in (30.0, 45.5)]
        per = [()] + [(p,) for p in paths] + list(itertools.combinations(paths, 2))
        for a, b in itertools.product(per, repeat=2):
            v = [(), (), ()]
            v[job], v[(job + 1) % 3] = a, b
            rooms = [hg.room(i, sched.ROOMS[i], vents=v[i]) for i in range(3)]
            d = hg.house(rooms, [hg.element('wall', k, k) for k in range(3)])
            judge(t, d, {'air paths': v}, wd)
            t.outcome((a, b))
        for story, pressure, c in itertools.product((1, 2), ('positive', 'negative', 'balanced'), (0.0, 0.2, 2.0, 9.5)):
            d = hg.house([hg.room(0, 'main_occupant_room')], [hg.element('wall', 0, 0)], story, c, pressure)
            judge(t, d, {'building': (story, pressure, c)}, wd)
        types = ('main_occupant_room', 'other_occupant_room', 'non_occupant_room', 'underfloor')
        for p in itertools.permutations(types, 4):
            d = hg.house([hg.room(i, k, volume=5.0 + 31.7 * i * i, floor=3.1 + i) for i, k in enumerate(p)], [hg.element('wall', k, k) for k in range(4)])
            judge(t, d, {'room types': p}, wd)
        for coef in (0.0, 0.05, 0.15, 0.3, 0.35, 0.5, 0.7, 0.85, 0.95, 0.99, 1.0):
            for l in ('wall', 'door', 'window', 'floor'):
                e = hg.element(l, 1, 0)
                e['temp_dif_coef'] = coef
                judge(t, hg.house([hg.room(0, 'main_occupant_room')], [hg.element('ground', 0, 0), e]), {'coefficient': coef, 'element': l}, wd)
    return t


# far below and far above the usual, for every number of the description
SWEEP = [('room', 'volume', (0.4, 1.0, 30.0, 400.0, 5000.0)), ('room', 'vent', (0.0, 0.5, 60.0, 480.0, 1300.0)), ('room', 'natural_vent_time', (0.0, 0.3, 10.0, 25.0, 80.0)),
         ('room', 'floor_area', (0.3, 0.95, 12.0, 150.0, 700.0)), ('path', 'volume', (0.0, 0.4, 120.0, 520.0, 1900.0)),
         ('convective', 'q_min', (0.0, 90.0, 700.0, 2900.0)), ('convective', 'q_max', (450.0, 2200.0, 7200.0, 28000.0)), ('convective', 'v_min', (0.0, 2.5, 9.0, 31.0)), ('convective', 'v_max', (14.0, 19.5, 60.0, 150.0)),
         ('heating', 'max_capacity', (0.0, 30.0, 160.0, 900.0)), ('heating', 'area', (0.2, 1.0, 8.0, 75.0)), ('cooling', 'max_capacity', (0.0, 25.0, 210.0, 800.0)), ('cooling', 'area', (0.3, 1.0, 9.0, 64.0)),
         ('element', 'area', (0.001, 0.0004321, 7.1234567, 0.2, 1.0, 150.0, 4000.0)), ('element', 'inside_heat_transfer_resistance', (0.02, 0.05, 0.2, 0.6)), ('element', 'h_c', (0.05, 1.0, 6.0, 20.0)), ('element', 'temp_dif_coef', (0.0, 0.01, 0.6, 0.99)),
         ('element', 'outside_heat_transfer_resistance', (0.01, 0.2, 0.9)), ('element', 'u_value', (0.1, 1.0, 6.7)), ('element', 'outside_solar_absorption', (0.0, 0.95, 1.0)), ('element', 'outside_emissivity', (0.0, 1.0)),
         ('building', 'c_value', (0.0, 0.05, 5.0, 20.0)), ('layer', 'thermal_resistance', (0.0, 0.004, 6.0)), ('layer', 'thermal_capacity', (0.0, 0.2, 900.0))]


def limits(job):
    """every number of the description at its extremes, two of them at a time"""
    k = job
    t = Tally()

    def put(d, q, v):
        where, f, _ = SWEEP[q]
        if where == 'room':
            d['rooms'][0][f] = v
        elif where == 'path':
            d['rooms'][0]['next_vent'][0][f] = v
        elif where == 'convective':
            d['rooms'][1]['cooling_equipment']['convective'][f] = v
        elif where in ('heating', 'cooling'):
            d['rooms'][0][where + '_equipment']['radiative'][f] = v
        elif where == 'building':
            d['building'][f] = v
        elif where == 'layer':
            d['boundaries'][0]['layers'][0][f] = v
        else:
            for b in d['boundaries']:
                if f in b and (f != 'area' or b['id'] < 2):
                    b[f] = v
    with TempDir() as wd:
        for v in SWEEP[k][2]:
            for j in range(k, len(SWEEP)):
                for v2 in (SWEEP[j][2] if j > k else (None,)):
                    d = hg.house([hg.room(0, 'main_occupant_room', heat='radiative', cool='radiative', vents=((1, 40.0),)), hg.room(1, 'other_occupant_room', vents=((0, 70.0),))],
                                 [hg.element(l, i, r) for i, (l, r) in enumerate((('wall', 0), ('window', 1), ('floor', 0), ('door', 1), ('ground', 0), ('inner', 1)))])
                    d = copy.deepcopy(d)
                    put(d, k, v)
                    if v2 is not None:
                        put(d, j, v2)
                    judge(t, d, {SWEEP[k][:2]: v, SWEEP[j][:2]: v2}, wd)
        t.outcome(k)
    return t


HOUSES = {
    'one room': ([('main_occupant_room', ())], [('wall', 0), ('openwindow', 0), ('floor', 0)]),
    'two rooms': ([('other_occupant_room', ()), ('main_occupant_room', ((0, 60.0),))], [('window', 1), ('inner', 0, 2), ('inner', 1, 1), ('ground', 0), ('openwindow', 0), ('window', 0), ('wall', 1)]),
    'three rooms': ([('main_occupant_room', ()), ('other_occupant_room', ()), ('non_occupant_room', ((0, 30.0), (1, 25.0)))],
                    [('wall', 2), ('atticwall', 0), ('floor', 1), ('door', 2), ('window', 0), ('shadywindow', 1), ('openwindow', 2), ('ground', 2), ('innerfloor', 0), ('window', 2)]),
    'no window': ([('main_occupant_room', ()), ('non_occupant_room', ())], [('wall', 0), ('door', 1), ('ground', 1)]),
    'reversed': ([('non_occupant_room', ()), ('other_occupant_room', ()), ('main_occupant_room', ())], [('window', 2), ('window', 1), ('wall', 0), ('openwindow', 2), ('ground', 0), ('floor', 2)]),
    'a tiny room': ([('non_occupant_room', ()), ('main_occupant_room', ((0, 640.0),)), ('other_occupant_room', ())], [('wall', 0), ('wall', 1), ('openwindow', 1), ('door', 2), ('floor', 1)]),
    'large': ([('main_occupant_room', ()), ('other_occupant_room', ())], [('window', 0), ('openwindow', 1), ('wall', 0), ('wall', 1)]),
}


def build(name):
    R, B = HOUSES[name]
    k = {'large': 3.0, 'one room': 0.6, 'three rooms': 1.1}.get(name, 1.0)
    rooms = [hg.room(i, n, vents=v, floor=k * (25.0 + 6.3 * i)) for i, (n, v) in enumerate(R)]
    el = [hg.element(b[0], j, b[1], b[2] if len(b) > 2 else None) for j, b in enumerate(B)]
    for j, e in enumerate(el):
        # tiny and huge pieces, and some of one name
        e['area'] *= (1.0, 0.05, 1.0, 9.0)[(j + len(name)) % 4]
        if name == 'a tiny room':
            e.update({k: v for k, v in (('outside_solar_absorption', 0.97), ('outside_emissivity', 1.0), ('outside_heat_transfer_resistance', 0.2)) if k in e})
        if name in ('two rooms', 'reversed'):
            e['name'] = B[j][0]
    if name == 'a tiny room':
        rooms[0]['floor_area'], rooms[2]['floor_area'], rooms[0]['natural_vent_time'] = 0.4, 0.97, 60.0
    return hg.house(rooms, el)


def whole(job):
    """all files, from the weather of a region"""
    name, region = job
    import pandas as pd
    from heat_load_calc.initializer import initializer
    from heat_load_calc.weather import weather
    t = Tally()
    case = {'house': name, 'region': region}
    d = build(name)
    keep = copy.deepcopy(d)
    with TempDir() as wd:
        src, dst = wd + '/in', wd + '/out'
        os.mkdir(src)
        os.mkdir(dst)
        weather.make_weather(region=region, output_data_dir=src, csv_output=True)
        initializer.make_house(d=d, input_data_dir=src, output_data_dir=dst)
        t.check('description untouched', d == keep, case, 'the description was changed')
        t.check('nothing written to the input folder', os.listdir(src) == ['weather.csv'], case, str(os.listdir(src)))
        t.check('files', set(os.listdir(dst)) >= set(hg.FILES + ['mid_data_house.json']), case, str(sorted(os.listdir(dst))))
        import json
        hg.compare(t, json.load(open(dst + '/mid_data_house.json')), hg.expected(d), case)
        y = skygrid.real_year(region)
        want, alt = hg.tables(d, y)
        for k in want:
            got = pd.read_csv('%s/mid_data_%s.csv' % (dst, k), header=None).values
            c = dict(case, table=k)
            if not t.check('table shape', got.shape == want[k].T.shape, c, '%s instead of %s' % (got.shape, want[k].T.shape)):
                continue
            for i in range(got.shape[1]):
                tol = {'moisture_generation': 1e-12, 'q_trs_sol': 5e-4, 'theta_o_sol': 5e-6}.get(k, 1e-9)
                same = np.allclose(want[k][i], alt[k][i], rtol=0, atol=1e-15)
                sig = [] if same else [('KF-UNSHADED' if k == 'q_trs_sol' else 'KF-COOKING', alt[k][i])]
                t.close('table %s' % k, got[:, i], want[k][i], tol, dict(c, column=i), rtol=1e-9, sig_if=sig)
            t.count(states=got.size, transitions=got.shape[0])
        # again into the same folder
        before = {f: open(dst + '/' + f).read() for f in sorted(os.listdir(dst))}
        initializer.make_house(d=d, input_data_dir=src, output_data_dir=dst)
        t.check('repeatable', before == {f: open(dst + '/' + f).read() for f in sorted(os.listdir(dst))}, case, 'second run writes something else')
    t.count(traces_validated_against_impl=1)
    t.outcome(job)
    return t


CALLS = [('three rooms', 3, False), ('two rooms', 3, False), ('two rooms', 8, False), ('one room', 6, False), ('no window', 6, True), ('reversed', 3, True)]


def one_call(c, d):
    """files made from a description into a folder, from a weather file in a folder, both over what is there"""
    from heat_load_calc.initializer import initializer
    from heat_load_calc.weather import weather
    name, region, only_house = c
    src, dst = d + '/in', d + '/out'
    for p in (src, dst):
        os.makedirs(p, exist_ok=True)
    if only_house:
        for f in os.listdir(dst):
            os.remove(dst + '/' + f)
    weather.make_weather(region=region, output_data_dir=src, csv_output=True)
    (initializer.make_house_for_test if only_house else initializer.make_house)(d=build(name), input_data_dir=src, output_data_dir=dst)
    return history.texts(dst)


def explore(run):
    n = 3 if run.thorough else 2
    run.bounds = {'elements': 'all words up to length %d over 10 elements x 2 rooms' % n, 'equipment': 'all pairs for up to %d rooms' % (4 if run.thorough else 3), 'long lists': '4 sizes of house x 4 rotations x 4 orders x 4 ways of naming',
                  'air paths': 'all sets of up to two paths in two of three rooms', 'years': '7 houses x regions', 'extremes': 'each of %d numbers at its extremes, two at a time' % len(SWEEP)}
    run.assumptions = ['the house file is made for 15-minute tables as the code states', 'every room has at least one element']
    run.pmap(words, [(k, l) for k in range(1, n + 1) for l in hg.LETTERS])
    run.merge(order(None))
    run.pmap(equipment, [(k, e) for k in range(1, (4 if run.thorough else 3) + 1) for e in EQ])
    run.pmap(many, list(itertools.product((1, 2, 3, 4), (0, 1, 5, 11), ('own names', 'one name', 'name of the kind', 'rooms share names'))))
    run.pmap(vents, (0, 1, 2) if run.thorough else (2,))
    run.pmap(limits, range(len(SWEEP)))
    run.bounds['words of calls into one folder'] = history.explore(run, one_call, CALLS, [str(c) for c in CALLS], 3 if run.thorough else 2)
    run.pmap(whole, list(itertools.product(HOUSES, range(1, 9) if run.thorough else (3, 8))))


if __name__ == '__main__':
    runner.main('C19', 'model_checking', 'one per word of elements x rooms, per equipment combination, per set of air paths, per cell of the yearly tables', explore)
