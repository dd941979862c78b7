"""C34 the chain of conversions from indices to rooms: all houses, divisions of the floor, regions, targets; every level judged against the first, the elements handed on and the rooms."""
import copy
import itertools
import json

from checks import c23, c25, c27, c29
from checks.c24 import KEYS, ROOMS
from checks.c26 import BUILD, SPACE_ID
from mc import ees, runner
from mc.runner import Tally

KIND = {v: k for k, v in KEYS.items()}


def house(ht, area, scale, target, region, share):
    """description by indices; reference geometry"""
    fb = ('floor', 'base') if ht == 'detached' else (None, None)
    env = c27.reference(ht, area, .1, *fb)['total'] * scale
    g = c27.reference(ht, area, .1, *fb, env=env)
    common = {'region': region, 'house_type': ht, 'main_occupant_room_floor_area': area * share[0], 'other_occupant_room_floor_area': area * share[1], 'total_floor_area': area}
    return {'common': common, 'envelope': {'input_method': 'index', 'total_area': env, 'indices': dict(zip(('u_a', 'eta_a_h', 'eta_a_c'), target))}}, g


def flat(env, only=None):
    return [(KIND[k], x) for k in KEYS.values() for x in env[k] if only is None or KIND[k] in only]


def elements_loss(t, level, region, case):
    """what the parts hand on as elements of rooms loses, by room, W/K; None if a build-up alone insulates better than asked"""
    from heat_load_calc.convert import ees_house as e
    make = {'part': e.GeneralPart.make_general_part, 'window': e.Window.make_window, 'door': e.Door.make_door}
    loss, names, clamped = dict.fromkeys(range(4), 0.0), [], False
    for k, d in flat(level, make):
        o = make[k](copy.deepcopy(d))
        ds = o.make_initializer_dict(u_add=0.0, region=region) if k == 'part' else [o.make_initializer_dict(region=region)]
        if k == 'part':
            rest = sum(l[0] / l[2] for l in BUILD['light'][d['general_part_type']] if l) + ees.R_IN[d['general_part_type']] + ees.R_EX[d['general_part_type']]
            clamped = clamped or d['area'] > 1e-9 and d['spec']['u_value_other'] * rest > 1.0
        t.close('area handed on', sum(x['area'] for x in ds), d['area'], 1e-12, dict(case, part=d['name']), rtol=1e-12)
        for x in ds:
            t.check('room of an element', x['connected_room_id'] == SPACE_ID[d['space_type']], dict(case, part=d['name']), repr(x['connected_room_id']))
            names.append(x['name'])
            t.close('coefficient of an element', x['temp_dif_coef'], ees.h(d['next_space'], region), 1e-12, dict(case, part=d['name']))
            u = 1.0 / (x['inside_heat_transfer_resistance'] + sum(l['thermal_resistance'] for l in x['layers']) + x['outside_heat_transfer_resistance']) if 'layers' in x else x['u_value']
            loss[x['connected_room_id']] += u * x['area'] * x['temp_dif_coef']
    t.check('elements have names of their own', len(set(names)) == len(names), case, repr(sorted(n for n in names if names.count(n) > 1))[:200])
    return None if clamped else loss


def chain(t, d, g, case):
    from heat_load_calc.convert import convert_indices_to_lv2_info as to2, convert_lv2_to_lv3 as to3, convert_lv3_to_lv4 as to4, check_ua_a_eta_a as cue, convert_lv4_to_h_hlc as hl
    common, region = d['common'], d['common']['region']
    a = common['total_floor_area']
    floor = {ROOMS[0]: common['main_occupant_room_floor_area'], ROOMS[1]: common['other_occupant_room_floor_area']}
    floor[ROOMS[2]] = a - floor[ROOMS[0]] - floor[ROOMS[1]]
    if abs(floor[ROOMS[2]]) < 1e-9:
        floor[ROOMS[2]] = 0.0
    keep = copy.deepcopy(d)
    levels = []
    try:
        lv2 = to2.convert_spec(d)
        levels.append(copy.deepcopy(lv2))
        lv3 = to3.convert_spec(common, lv2)
        levels.append(copy.deepcopy(lv3))
        lv4 = to4.convert_spec(common, lv3)
        levels.append(lv4)
        lost = [cue.check_u_a_and_eta_a(region, x) for x in levels]
    except Exception as e:                                               # noqa
        t.fail('chain: %r' % e, case)
        return
    t.count(states=1, transitions=5)
    t.check('input kept', d == keep and lv2 == levels[0] and lv3 == levels[1], case, 'a description was changed on the way')
    target = d['envelope']['indices']
    # the indices stay those of the first level, and are the ones asked for wherever these can be reached
    for n, x in enumerate(lost[1:], 3):
        for nm, p, q in zip(('UA', 'eta A heating', 'eta A cooling'), lost[0], x):
            if p is None:
                t.check('no heating season', q is None, dict(case, level=n), repr(q))
            else:
                t.close(nm + ' of a level', q, p, 1e-12, dict(case, level=n), rtol=1e-9)
    # reckoned from the descriptions, not by the code
    mine = ees.attempt(lambda: c29.indices(flat(lv4, ('part', 'window', 'door', 'perimeter', 'center')), region))
    if isinstance(mine, Exception):
        t.fail('indices of the rooms: %r' % mine, case)
        return
    for nm, p, q in zip(('UA', 'eta A heating', 'eta A cooling'), mine, lost[2]):
        if p is not None and q is not None:
            t.close(nm + ' of the rooms', q, p, 1e-11, case, rtol=1e-9)
    u = {}
    for k, x in flat(lv4, ('part', 'window', 'door', 'perimeter')):
        s = x['spec']
        u[c23.kind(k, x)] = s.get('u_value_other', s.get('u_value', s.get('psi_value')))
    full = all(abs(v - c23.top(p)) < 1e-9 for p, v in u.items())
    if full:
        t.check('as far as possible', lost[2][0] <= target['u_a'] + 1e-9, case, 'UA %r' % lost[2][0])
    else:
        t.close('UA of the rooms as asked', lost[2][0], target['u_a'], 1e-9, case, rtol=1e-9)
    for nm, key, m, s in (('heating', 'eta_a_h', lost[2][1], 'eta_d_h_value'), ('cooling', 'eta_a_c', lost[2][2], 'eta_d_c_value')):
        eta = lv4['windows'][0]['spec'][s]
        if m is not None and 0.0 < eta < .88:
            t.close('eta A of the rooms as asked', m, target[key], 1e-9, dict(case, season=nm), rtol=1e-9)
    # areas and lengths: the envelope, and each part of the model house
    t.close('envelope of the rooms', sum(x['area'] for k, x in flat(lv4, ('part', 'window', 'door', 'center'))), g['total'], 1e-8, case, rtol=1e-9)
    share = {r: floor[r] / a for r in ROOMS}
    want = {}
    for (k, n), (_, _, _, size) in c27.parts_of(common['house_type'], 'floor' if common['house_type'] == 'detached' else None, g).items():
        kk = {'gp': 'part', 'w': 'window', 'd': 'door', 'p': 'perimeter', 'c': 'center'}[k]
        for r in (('underfloor',) if kk in ('perimeter', 'center') else ROOMS):
            want[kk, n, r] = size * share.get(r, 1.0)
    seen = {}
    for k, x in flat(lv4):
        n = x['name']
        base = n[:-len(x['space_type']) - 1] if n.endswith('_' + x['space_type']) else n
        key = (k, base, x['space_type'])
        t.check('piece only once', key not in seen, case, repr(key))
        seen[key] = x['length'] if k in ('perimeter', 'bridge') else x['area']
    for key in set(want) | set(seen):
        t.close('size of a piece of a room', seen.get(key, 0.0), want.get(key, 0.0), 1e-9, dict(case, piece=key), rtol=1e-9)
    # inner floors and walls fit these outer parts
    items = flat(lv3)
    f, w = c25.reference(items, floor)
    for key, ref, p, q in (('inner_floors', f, 'upper_space_type', 'lower_space_type'), ('inner_walls', w, 'space_type_1', 'space_type_2')):
        got = {(x[p], x[q]): x['area'] for x in lv4[key]}
        for pair in set(got) | set(ref):
            t.close('inner parts of the house', got.get(pair, 0.0), ref.get(pair, 0.0), 1e-8, dict(case, rooms=pair), rtol=1e-9)
    # a floor for every room: outside, over the earth, over other rooms
    for r in ROOMS:
        down = sum(x['area'] for k, x in items if k in ('part', 'window', 'door') and x['space_type'] == r and x['direction'] in ('bottom', 'downward'))
        if floor[r] > 0 and sum(v > 0 for v in floor.values()) > 1 and down < floor[r]:
            inner = sum(x['area'] for x in lv4['inner_floors'] if x['upper_space_type'] == r)
            t.close('floor of a room', down + inner, floor[r], 1e-8, dict(case, room=r), rtol=1e-9)
    # elements of the rooms: together with the earth floor edges they lose what the house loses
    try:
        loss = elements_loss(t, lv4, region, case)
    except Exception as e:                                               # noqa
        t.fail('elements: %r' % e, case)
        return
    edge = sum(x['length'] * x['spec']['psi_value'] * ees.h(x['next_space'], region) for x in lv4['earthfloor_perimeters'])
    if loss is not None:
        q = lost[2][0] * sum(x['area'] for k, x in flat(lv4, ('part', 'window', 'door', 'center')))
        t.close('elements lose UA', sum(loss.values()) + edge, q, 1e-9, case, rtol=1e-9)
        for r in ROOMS:
            t.close('loss of a room', loss[SPACE_ID[r]], (q - edge) * share[r], 1e-9, dict(case, room=r), rtol=1e-8)
    # the rooms these elements belong to exist, and no others
    uf = sum(x['area'] for x in lv4['earthfloor_centers'] if x['space_type'] == 'underfloor')
    t.close('space under the floor', hl.get_a_uf(lv4['earthfloor_centers']), uf, 1e-12, case, rtol=1e-12)
    rooms = ees.attempt(lambda: hl.make_initial_rooms(a_a=a, a_mr=floor[ROOMS[0]], a_or=floor[ROOMS[1]], a_nr=floor[ROOMS[2]], a_uf=uf, n=.5, v_nv_mr=5.0, v_nv_or=5.0))
    if isinstance(rooms, Exception):
        t.fail('rooms: %r' % rooms, case)
    else:
        there = [r['name'] for r in rooms if r is not None]
        t.check('rooms of the house', there == [r for r in ROOMS if floor[r] > 0] + (['underfloor'] if uf > 0 else []), case, repr(there))
        used = {x['space_type'] for k, x in flat(lv4) if (x.get('area') or x.get('length') or 0.0) > 1e-9}
        used |= {x[s] for x in lv4['inner_floors'] for s in ('upper_space_type', 'lower_space_type')} | {x[s] for x in lv4['inner_walls'] for s in ('space_type_1', 'space_type_2')}
        t.check('every part belongs to a room', used <= set(there), case, repr(sorted(used - set(there))))
    t.outcome((common['house_type'], full, loss is None, len(lv4['inner_floors']), len(lv4['inner_walls']), round(u['wall'], 2)))
    return levels


def run_houses(job):
    t = Tally()
    first = {}
    for n, (ht, area, scale, target, region, share) in enumerate(job):
        d, g = house(ht, area, scale, target, region, share)
        case = {'house': ht, 'floor area': area, 'envelope': scale, 'target': target, 'region': region, 'shares': share}
        got = chain(t, d, g, case)
        if n % 5 == 0 and got:
            first[n] = (json.dumps(got, sort_keys=True, default=str), (ht, area, scale, target, region, share))
    # the same houses again, after all the others
    from heat_load_calc.convert import convert_indices_to_lv2_info as to2, convert_lv2_to_lv3 as to3, convert_lv3_to_lv4 as to4
    for n, (text, a) in first.items():
        d = house(*a)[0]
        lv2 = to2.convert_spec(d)
        lv3 = to3.convert_spec(d['common'], lv2)
        again = json.dumps([lv2, lv3, to4.convert_spec(d['common'], lv3)], sort_keys=True, default=str)
        t.check('the same house again', again == text, {'house': a}, 'another result')
        t.count(transitions=3)
    return t


SHARES = ((.25, .425), (.6, .38), (.12, .87), (.25, 0.0), (1.0, 0.0), (.5, .5), (.02, .03), (.9, .02), (1 / 3, 1 / 3))


def explore(run):
    areas = [45.0 + 12.5 * k for k in range(12)] if run.thorough else [50.0, 90.0, 120.08, 171.3]
    scales = (1.0, 1.08, 1.25, 1.6) if run.thorough else (1.0, 1.25)
    targets = c23.TARGETS[:4] + ((0.46, 2.5, 1.9),) + (((2.2, 6.0, 3.0), (0.75, 4.3, 2.2), (.1, 1.0, .8)) if run.thorough else ())
    words = list(itertools.product(('detached', 'attached'), areas, scales, targets, ees.REGIONS, SHARES))
    run.bounds = {'houses': '2 kinds x %d floor areas x %d envelopes' % (len(areas), len(scales)), 'targets x regions x divisions of the floor': '%d x 8 x %d' % (len(targets), len(SHARES))}
    run.assumptions = ['heat loss of elements is compared where no default build-up alone insulates better than the U asked for (C26 judges those)',
                       'the elements are put together from the dictionaries of the parts: the code that integrates them into rooms belongs to an older format and is not run']
    run.pmap(run_houses, [words[i::48] for i in range(48)])


if __name__ == '__main__':
    runner.main('C34', 'model_checking', 'one per house x target x region x division of the floor', explore)
