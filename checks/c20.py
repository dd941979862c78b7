"""C20 refusal of impossible descriptions: all words of room numbers and types, all single and paired faults; nothing is written then."""
import copy
import itertools
import os

from mc import housegen as hg
from mc import runner
from mc.house import TempDir
from mc.runner import Tally

TYPES = ('main_occupant_room', 'other_occupant_room', 'non_occupant_room', 'underfloor')


def attempt(d, wd):
    """None if accepted, else the exception; second: was a house file written"""
    out = wd + '/out/mid_data_house.json'
    if os.path.exists(out):
        os.remove(out)
    try:
        hg.json_only(d, wd)
        return None, True
    except Exception as e:  # noqa
        return e, os.path.exists(out)


def judge(t, d, wd, bad, case):
    e, written = attempt(d, wd)
    if bad:
        if t.check('refused', e is not None, case, 'an impossible description was accepted'):
            t.check('nothing written', not written, case, 'a house file was written although the description was refused')
    else:
        t.check('accepted', e is None, case, repr(e))
    t.count(states=1, transitions=1)


def rooms_words(job):
    n = job
    t = Tally()
    with TempDir() as wd:
        for w in itertools.product(TYPES, repeat=n):
            rooms = [hg.room(i, 'main_occupant_room', room_type=k) for i, k in enumerate(w)]
            d = hg.house(rooms, [hg.element('wall', i, i) for i in range(n)])
            bad = w.count('main_occupant_room') != 1 or len(set(w)) < n
            judge(t, d, wd, bad, {'room types': w})
            t.outcome(w)
        for ids in itertools.product(range(-1, n + 1), repeat=n):
            rooms = [hg.room(i, TYPES[i]) for i in range(n)]
            for r, k in zip(rooms, ids):
                r['id'] = k
            d = hg.house(rooms, [hg.element('wall', i, i) for i in range(n)])
            judge(t, d, wd, list(ids) != list(range(n)), {'room numbers': ids})
            t.outcome(ids)
    return t


def base():
    rooms = [hg.room(0, 'main_occupant_room', heat='radiative', cool='convective', vents=((1, 20.0),)), hg.room(1, 'other_occupant_room', heat='convective', cool='radiative'),
             hg.room(2, 'non_occupant_room', heat='not_installed', cool='not_installed')]
    el = [hg.element(l, k, i) for k, (l, i) in enumerate((('wall', 0), ('window', 0), ('door', 1), ('ground', 1), ('inner', 2), ('floor', 0)))]
    return hg.house(rooms, el)


def put(*path_value):
    *path, value = path_value

    def f(d):
        o = d
        for p in path[:-1]:
            o = o[p]
        if value is KeyError:
            del o[path[-1]]
        else:
            o[path[-1]] = value
    f.label = (path, None if value is KeyError else value)
    return f


FAULTS = ([put('building', 'story', v) for v in (0, 3, -1, '1', 1.5, None)] +
          [put('building', 'inside_pressure', v) for v in ('plus', '', None, 'Positive', 1)] +
          [put('rooms', 1, 'room_type', v) for v in ('bedroom', '', None, 1)] +
          [put('rooms', i, e, 'equipment_type', v) for i in (0, 1, 2) for e in ('heating_equipment', 'cooling_equipment') for v in ('none', '', 'Convective', None)] +
          [put('boundaries', k, 'boundary_type', v) for k in range(6) for v in ('wall', '', None, 'external')] +
          [put('boundaries', 0, 'direction', v) for v in ('south', '', 'S', None)] +
          [put('boundaries', 1, 'direction', 'sse'), put('boundaries', 1, 'incident_angle_characteristics', 'double'), put('boundaries', 1, 'solar_shading_part', 'input_method', 'other'),
           put('boundaries', 4, 'next_room_type', 'garage'), put('boundaries', 1, 'solar_shading_part', 'input_method', 'detail')] +
          [put('building', k, KeyError) for k in ('story', 'c_value', 'inside_pressure')] +
          [put('rooms', 1, k, KeyError) for k in ('id', 'name', 'room_type', 'volume', 'vent', 'next_vent', 'natural_vent_time', 'heating_equipment', 'cooling_equipment')] +
          [put('boundaries', 0, k, KeyError) for k in ('id', 'name', 'connected_room_id', 'boundary_type', 'area', 'is_sun_striked_outside', 'temp_dif_coef', 'is_solar_absorbed_inside', 'is_floor', 'direction',
                                                       'inside_heat_transfer_resistance', 'h_c', 'solar_shading_part', 'outside_solar_absorption', 'outside_emissivity', 'outside_heat_transfer_resistance', 'layers')] +
          [put('boundaries', 1, k, KeyError) for k in ('eta_value', 'u_value', 'incident_angle_characteristics')] + [put('boundaries', 4, 'rear_surface_boundary_id', KeyError)])
HARMLESS = ([put('building', 'story', v) for v in (1, 2)] + [put('building', 'inside_pressure', v) for v in ('positive', 'negative', 'balanced')] +
            [put('boundaries', 0, 'direction', v) for v in ('s', 'sw', 'w', 'nw', 'n', 'ne', 'e', 'se', 'top', 'bottom')] +
            [put('boundaries', 1, 'incident_angle_characteristics', v) for v in ('single', 'multiple')] + [put('rooms', 2, 'room_type', 'underfloor')] +
            [put('boundaries', 4, 'next_room_type', v) for v in TYPES] + [put('boundaries', 0, 'temp_dif_coef', v) for v in (0.0, 0.5, 1.0)] + [put('rooms', 0, 'floor_area', 77.7)])


def apply(fs):
    d = copy.deepcopy(base())
    for f in fs:
        f(d)
    return d


def detail(d):
    """a detailed shading part is complete but the method is not implemented"""
    p = d['boundaries'][1]['solar_shading_part']
    if p.get('input_method') == 'detail':
        p.update({k: 0.1 for k in ('x1', 'x2', 'x3', 'y1', 'y2', 'y3', 'z_x_pls', 'z_x_mns', 'z_y_pls', 'z_y_mns')})
    return d


def faults(job):
    lo, hi, pairs = job
    t = Tally()
    with TempDir() as wd:
        for n in range(lo, hi):
            f = FAULTS[n]
            judge(t, detail(apply([f])), wd, True, {'fault': f.label})
            for g in (FAULTS[n + 1:] if pairs else HARMLESS[n % 3::3]):
                if g.label[0] == f.label[0] or (g.label[0][:len(f.label[0])] == f.label[0]) or (f.label[0][:len(g.label[0])] == g.label[0]):
                    continue
                try:
                    d = detail(apply([f, g]))
                except (KeyError, TypeError):
                    continue
                judge(t, d, wd, True, {'faults': (f.label, g.label)})
            t.outcome(n)
    return t


def good(job):
    t = Tally()
    with TempDir() as wd:
        for n in (1, 2) if not job else (1, 2, 3):
            for fs in itertools.combinations(HARMLESS, n):
                if len({str(f.label[0]) for f in fs}) < n:
                    continue
                judge(t, apply(fs), wd, False, {'settings': [f.label for f in fs]})
        t.outcome('good')
    return t


def explore(run):
    k = len(FAULTS)
    run.bounds = {'rooms': 'all words of types and numbers up to length 4', 'faults': k, 'pairs': 'all' if run.thorough else 'each fault with harmless settings'}
    run.assumptions = ['refused means that an exception leaves the generation; room types may each be given once']
    run.pmap(rooms_words, [4, 3, 2, 1])
    run.pmap(faults, [(a, min(a + 4, k), run.thorough) for a in range(0, k, 4)])
    run.merge(good(run.thorough))


if __name__ == '__main__':
    runner.main('C20', 'model_checking', 'one per word of room types or numbers and per set of faults or harmless settings', explore)
