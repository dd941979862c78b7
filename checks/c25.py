"""C25 inner floors and walls of a house divided into rooms: all sets of parts of the rooms, all divisions of the floor."""
import copy
import itertools
import math

from checks.c24 import KEYS, ROOMS, envelope
from checks.c29 import NOT, STEEL, WALL
from mc import ees, runner
from mc.runner import Tally

MR, OR, NR = ROOMS
UF = 'underfloor'
NAME = {MR: 'main', OR: 'other', NR: 'non', UF: UF}


def _p(ty, nx, di, a, sp):
    return 'part', ees.part(WALL if di != 'e' else STEEL, ty, nx, di, ees.OPAQUE_SHADES[1] if nx == 'outdoor' else NOT, a, sp)


POOL = (_p('floor', 'open_underfloor', 'downward', 11.0, MR), _p('floor', 'outdoor', 'bottom', 6.0, OR), _p('downward_boundary_floor', 'air_conditioned', 'downward', 90.0, NR),
        _p('wall', 'outdoor', 's', 21.0, MR), _p('wall', 'outdoor', 'e', 32.0, OR), _p('boundary_wall', 'air_conditioned', 'horizontal', 27.0, NR), _p('wall', 'outdoor', 'nw', 500.0, MR), _p('wall', 'outdoor', 'w', 110.0, NR), _p('wall', 'outdoor', 'se', 150.0, OR),
        _p('roof', 'outdoor', 'top', 25.0, MR), _p('ceiling', 'closed_space', 'upward', 25.0, OR),
        ('window', ees.window('outdoor', 'sw', area=4.5, space=OR)), ('window', ees.window('outdoor', 'bottom', area=1.5, space=MR)), ('window', ees.window('outdoor', 'top', area=1.0, space=NR)),
        ('door', ees.door('outdoor', 'n', area=1.9, space=NR)), ('door', ees.door('closed_space', 'downward', NOT, area=1.1, space=NR)),
        ('perimeter', ees.perimeter('outdoor', 8.0, space=UF)), ('center', ees.center(5.0, space=MR)), ('center', ees.center(4.0, space=OR)), ('center', ees.center(3.0, space=NR)), ('center', ees.center(9.0, space=UF)),
        ('bridge', ees.bridge(space=OR)),
        # the whole floor of a room over outdoors or earth
        ('center', ees.center(60.0, space=OR)), _p('floor', 'outdoor', 'bottom', 70.0, MR),
        # nearly all of the floor and of the walls of a room
        ('center', ees.center(5.4, space=NR)), _p('wall', 'outdoor', 'n', 38.2, NR),
        # much earth under everything
        ('center', ees.center(36.0, space=UF)), ('center', ees.center(33.0, space=MR)), ('center', ees.center(21.0, space=NR)))
FLOOR = [{'name': 'plywood', 'heat_resistance_input_method': 'conductivity', 'thickness': .024, 'volumetric_specific_heat': 720., 'thermal_conductivity': .16}]
GPB = {'name': 'gpb', 'heat_resistance_input_method': 'conductivity', 'thickness': .0125, 'volumetric_specific_heat': 830., 'thermal_conductivity': .22}
INNER = [GPB, {'name': 'air_layer', 'heat_resistance_input_method': 'resistance', 'thickness': .12, 'volumetric_specific_heat': 0., 'thermal_resistance': .09}, GPB]


def reference(items, floor):
    """floor: area of every room.  Areas of inner floors (upper, lower) and inner walls {rooms}"""
    down, side, earth = dict.fromkeys(ROOMS, 0.0), dict.fromkeys(ROOMS, 0.0), dict.fromkeys(ROOMS + (UF,), 0.0)
    for k, d in items:
        if k in ('part', 'window', 'door'):
            if d['direction'] in ('bottom', 'downward'):
                down[d['space_type']] += d['area']
            elif d['direction'] not in ('top', 'upward'):
                side[d['space_type']] += d['area']
        elif k == 'center':
            earth[d['space_type']] += d['area']
    # what is left of the floor of a room lies over another room or over the space under the floor
    left = {r: max(floor[r] - down[r] - earth[r], 0.0) for r in ROOMS}
    floors = {}
    there = [r for r in ROOMS if floor[r] > 0]
    for r in ROOMS:
        over = earth[UF] * left[r] / sum(left.values()) if sum(left.values()) > 0 else 0.0
        floors[r, UF] = over
        others = [x for x in there if x != r]
        if r in there:
            for x in others:
                floors[r, x] = max(left[r] - over, 0.0) / len(others)
    around = {r: max(4 * {MR: 1.2, OR: 1.4, NR: 1.4}[r] * 2.8 * math.sqrt(floor[r]) - side[r], 0.0) for r in ROOMS}
    walls = {}
    if len(there) == 2:
        walls[tuple(there)] = sum(around[r] for r in there) / 2
    elif len(there) == 3:
        for a, b, c in ((MR, OR, NR), (MR, NR, OR), (OR, NR, MR)):
            walls[a, b] = max((around[a] + around[b] - around[c]) / 2, 0.0)
    return {k: v for k, v in floors.items() if v > 0}, {k: v for k, v in walls.items() if v > 0}


def run_words(job):
    words, divisions = job
    from heat_load_calc.convert import convert_lv3_to_lv4 as mod
    t = Tally()
    for ids in words:
        items = [POOL[i] for i in ids]
        for n, (mr, orr, nr) in enumerate(divisions):
            common = {'region': 6, 'house_type': 'detached', 'main_occupant_room_floor_area': mr, 'other_occupant_room_floor_area': orr, 'total_floor_area': mr + orr + nr}
            env = envelope(ids, POOL, same=n % 2 == 1)
            keep, keep_c = copy.deepcopy(env), dict(common)
            case = {'parts': ids, 'floor areas': common}
            got = ees.attempt(lambda: mod.convert_spec(common, env))
            t.count(states=1, transitions=1)
            if mr <= 0:
                t.check('house without main room refused', isinstance(got, Exception), case, 'accepted')
                continue
            if isinstance(got, Exception):
                t.fail('inner parts: %r' % got, case)
                continue
            t.check('input kept', env == keep and common == keep_c, case, 'the description was changed')
            for key in KEYS.values():
                t.check('outer parts kept', got[key] == keep[key], dict(case, kind=key), repr(got[key])[:200])
            f, w = reference(items, {MR: mr, OR: orr, NR: nr})
            for what, want, a, b, layers in (('floor', f, 'upper_space_type', 'lower_space_type', FLOOR), ('wall', w, 'space_type_1', 'space_type_2', INNER)):
                seen = {}
                for x in got['inner_%ss' % what]:
                    pair = (x[a], x[b])
                    t.check('one inner %s per pair of rooms' % what, pair not in seen, case, repr(pair))
                    seen[pair] = x
                    t.check('build-up of an inner %s' % what, x['spec'] == {'layers': layers}, case, repr(x['spec']))
                    t.check('name of an inner %s' % what, x['name'] == 'inner_%s_%s_to_%s' % ((what,) + tuple(NAME[r] for r in pair)), case, x['name'])
                    t.check('no empty inner %s' % what, x['area'] > 0, case, repr(x))
                for p in set(seen) | set(want):
                    t.close('area of an inner %s' % what, seen[p]['area'] if p in seen else 0.0, want.get(p, 0.0), 1e-9, dict(case, rooms=p), rtol=1e-9)
            t.outcome((sorted(f), sorted(w)))
    return t


def explore(run):
    n = len(POOL)
    if run.thorough:
        words = [w for k in range(6) for w in itertools.combinations(range(n), k)]
    else:
        words = [w for k in range(4) for w in itertools.combinations(range(n), k)]
    words.append(tuple(range(n)))
    words += [tuple(x for x in range(n) if x not in w) for k in (1, 2) for w in itertools.combinations(range(n), k)]
    div = list(itertools.product((0.0, 12.4, 29.81, 60.1), (0.0, 0.07, 17.3, 51.34), (0.0, 0.04, 0.3, 6.0, 38.93)))
    run.bounds = {'parts': 'all sets of 0-%d out of %d, and all but 0-2' % (5 if run.thorough else 3, n), 'divisions of the floor': len(div)}
    run.pmap(run_words, [(words[i::32], div) for i in range(32)])


if __name__ == '__main__':
    runner.main('C25', 'model_checking', 'one per set of parts x division of the floor', explore)
