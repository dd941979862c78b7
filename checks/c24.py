"""C24 a house without rooms is divided among its rooms by floor area: all multisets of parts, all divisions of the floor."""
import copy
import itertools
import json

from checks.c29 import KEY, WALL, STEEL, SIMPLE, NOT, indices
from mc import ees, runner
from mc.runner import Tally

ROOMS = ('main_occupant_room', 'other_occupant_room', 'non_occupant_room')
POOL = (('part', ees.part(WALL, 'wall', 'outdoor', 's', area=20.0, space='undefined')), ('part', ees.part(STEEL, 'roof', 'outdoor', 'top', area=11.0, space='undefined')),
        ('part', ees.part(WALL, 'floor', 'open_underfloor', 'downward', NOT, 30.0, space='undefined')), ('part', ees.part(WALL, 'boundary_wall', 'air_conditioned', 'horizontal', NOT, 15.0, space='undefined')),
        ('window', ees.window('outdoor', 'sw', area=4.0, space='undefined')), ('window', ees.window('outdoor', 's', SIMPLE, 6.0, space='undefined', glass='triple_and_more')),
        ('window', ees.window('open_space', 'horizontal', NOT, 2.0, space='undefined')), ('door', ees.door('outdoor', 'n', space='undefined')), ('door', ees.door('closed_space', 'horizontal', NOT, space='undefined')),
        ('perimeter', ees.perimeter('outdoor', 8.0, space='undefined')), ('perimeter', ees.perimeter('open_underfloor', 3.0, psi=1.8, space='undefined')), ('center', ees.center(7.0, space='undefined')),
        ('center', ees.center(3.0, space='undefined', layers=ees.LAYERS[:2])), ('bridge', ees.bridge(space='undefined')), ('bridge', ees.bridge(('outdoor', 'closed_space', 'outdoor'), ('n', 'horizontal', 'top'), 2.5, 'undefined')))
KEYS = dict(KEY, bridge='heat_bridges')


def envelope(ids, pool=POOL, same=False):
    env = {v: [] for v in KEYS.values()}
    for j, k in enumerate(ids):
        env[KEYS[pool[k][0]]].append(dict(copy.deepcopy(pool[k][1]), name='n' if same else 'n%d' % j))
    return env


def strip(d, *keys):
    return {k: v for k, v in d.items() if k not in keys}


def numbered(pieces, size):
    """pieces by name; those of one name by content, from the largest to the smallest"""
    out = {}
    # (of equal content first, so that equal sizes that differ in rounding do not change the order)
    for x in sorted(pieces, key=lambda x: (json.dumps(strip(x, size), sort_keys=True), -x[size])):
        out[x['name'], sum(1 for n, _ in out if n == x['name'])] = x
    return out


def judge(t, mod, ids, common, env=None):
    env = envelope(ids) if env is None else env
    keep, keep_c = copy.deepcopy(env), dict(common)
    case = {'parts': ids, 'floor areas': common}
    got = ees.attempt(lambda: mod.convert_spec(common, env))
    t.count(states=1, transitions=1)
    if isinstance(got, Exception):
        t.fail('division: %r' % got, case)
        return
    t.check('input kept', env == keep and common == keep_c, case, 'the description was changed')
    a = common['total_floor_area']
    share = {ROOMS[0]: common['main_occupant_room_floor_area'] / a, ROOMS[1]: common['other_occupant_room_floor_area'] / a}
    share[ROOMS[2]] = 1.0 - share[ROOMS[0]] - share[ROOMS[1]]
    t.check('form', got['input_method'] == 'detail_with_room_usage' and set(got) == set(KEYS.values()) | {'input_method'}, case, repr(sorted(got)))
    for kind, key in KEYS.items():
        size = 'length' if kind in ('perimeter', 'bridge') else 'area'
        seen = numbered(got[key], size)
        want = []
        for x in keep[key]:
            if kind in ('perimeter', 'center'):
                want.append(dict(x, space_type='underfloor'))
            else:
                want += [dict(x, name=x['name'] + '_' + r, space_type=r, **{size: x[size] * share[r]}) for r in ROOMS]
        want = numbered(want, size)
        for n in set(seen) | set(want):
            w, x = want.get(n), seen.get(n)
            if w is None or x is None:
                t.check('parts of the rooms', abs((w or x)[size]) < 1e-12, case, '%s only on one side' % n)
                continue
            t.close('size of a piece', x[size], w[size], 1e-12, dict(case, part=n), rtol=1e-10)
            x, w = strip(x, 'name', size), strip(w, 'name', size)
            t.check('piece is like the whole', x == w, dict(case, part=n), '%r instead of %r' % (x, w))
        t.close('pieces make up the whole', sum(x[size] for x in got[key]), sum(x[size] for x in keep[key]), 1e-9, case, rtol=1e-10)
    return got


def run_words(job):
    ids0, floors = job
    from heat_load_calc.convert import convert_lv2_to_lv3 as mod, check_ua_a_eta_a as cue
    t = Tally()
    for ids in ids0:
        for k, (mr, orr, total) in enumerate(floors):
            common = {'region': 1 + k % 8, 'house_type': 'detached', 'main_occupant_room_floor_area': mr, 'other_occupant_room_floor_area': orr, 'total_floor_area': total}
            got = judge(t, mod, ids, common)
            items = [POOL[i] for i in ids if POOL[i][0] != 'bridge']
            if got and sum(d['area'] for k2, d in items if k2 != 'perimeter') > 0:
                back = ees.attempt(lambda: cue.check_u_a_and_eta_a(common['region'], got))
                if isinstance(back, Exception):
                    t.fail('indices: %r' % back, {'parts': ids})
                else:
                    for g, w in zip(back, indices(items, common['region'])):
                        if w is not None:
                            t.close('indices unchanged', g, w, 1e-10, {'parts': ids, 'floor areas': common}, rtol=1e-9)
                    t.outcome([None if b is None else round(b, 4) for b in back])
    return t


def many(job):
    """many pieces of one name, small and large, and rooms that are tiny"""
    words, floors = job
    from heat_load_calc.convert import convert_lv2_to_lv3 as mod
    t = Tally()
    for n, items in words:
        env = {v: [] for v in KEYS.values()}
        for k, d in items:
            env[KEYS[k]].append(copy.deepcopy(d))
        mr, orr, total = floors[n % len(floors)]
        judge(t, mod, 'pieces %d' % n, {'region': 6, 'house_type': 'detached', 'main_occupant_room_floor_area': mr, 'other_occupant_room_floor_area': orr, 'total_floor_area': total}, env)
    t.outcome('many')
    return t


def run_job(job):
    f, a = job
    return f(a)


def explore(run):
    n = 4 if run.thorough else 3
    floors = [(a, b, a + b + c) for a, b, c in itertools.product((12.0, 29.81, 60.0), (0.0, 17.3, 51.34), (0.0, 0.5, 38.93))]
    words = [w for k in range(n + 1) for w in itertools.combinations_with_replacement(range(len(POOL)), k)]
    run.bounds = {'parts': '0-%d out of %d, with repetition' % (n, len(POOL)), 'divisions of the floor': len(floors)}
    pieces = list(enumerate(ees.repeats(POOL)))
    run.pmap(run_job, [(run_words, (words[i::32], floors)) for i in range(32)] + [(many, (pieces[i::8], floors)) for i in range(8)])


if __name__ == '__main__':
    runner.main('C24', 'model_checking', 'one per multiset of parts x division of the floor', explore)
