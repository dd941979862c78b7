"""C26 parts of a house description: reading, writing, U, heat loss, solar gain, layers handed to the calculation; all words of kinds."""
import copy
import itertools

from mc import ees, runner
from mc.runner import Tally

SPACE_ID = {'main_occupant_room': 0, 'other_occupant_room': 1, 'non_occupant_room': 2, 'underfloor': 3}
FLOORS = ('floor', 'downward_boundary_floor')
# default build-ups of a part of which only U and weight are known: inside to outside, None = the insulation
BOARD, PLY12, PLY24, CONC = ((.0095, 830., .221), (.012, 720., .16), (.024, 720., .16), (.12, 2000., 1.6))
BUILD = {'light': {'roof': (BOARD, None), 'ceiling': (BOARD, None), 'wall': (BOARD, None, PLY12), 'floor': (PLY24, None), 'boundary_wall': (BOARD, None, BOARD),
                   'upward_boundary_floor': (BOARD, None, PLY24), 'downward_boundary_floor': (PLY24, None, BOARD)},
         'heavy': {'roof': (BOARD, None, CONC), 'ceiling': (BOARD, None, CONC), 'wall': (BOARD, None, CONC), 'floor': (PLY24, None, CONC), 'boundary_wall': (BOARD, None, BOARD),
                   'upward_boundary_floor': (BOARD, CONC, None, PLY24), 'downward_boundary_floor': (PLY24, None, CONC, BOARD)}}


def values(t, kind, o, d, shaded=True):
    for r in ees.REGIONS:
        if kind != 'center':
            ees.agree(t, 'heat loss', ees.attempt(lambda: o.get_q(region=r)), ees.q(kind, d, r), {'part': d, 'region': r})
        if kind in ('part', 'window', 'door', 'bridge'):
            for s in ees.SEASONS:
                ees.agree(t, 'solar gain', ees.attempt(lambda: o.get_m(region=r, season=s)), ees.attempt(lambda: ees.m(kind, d, r, s)), {'part': d, 'region': r, 'season': s})
    t.count(states=1, transitions=24)


def read_write(t, make, d):
    keep = copy.deepcopy(d)
    o = make(d)
    t.check('written as read', o.get_as_dict() == keep, keep, 'got %r' % (o.get_as_dict(),))
    t.check('input kept', d == keep, keep, 'the description was changed')
    return o


def judge_layers(t, ds, o, d, u_add, region):
    """what is handed on: the U value of every strip plus the addition, its share of the area, its capacities"""
    spec = d['spec']
    case = {'part': d, 'u_add': u_add}
    if spec['structure'] == 'other':
        r_in, r_ex = ees.R_IN[d['general_part_type']], ees.R_EX[d['general_part_type']]
        bu = BUILD[spec['weight']][d['general_part_type']]
        r_rest = sum(l[0] / l[2] for l in bu if l)
        r_ins = max(1.0 / spec['u_value_other'] - r_in - r_ex - r_rest, 0.0)
        cap = [l[0] * l[1] if l else r_ins * .045 * 13.0 for l in bu]
        res = [l[0] / l[2] if l else r_ins for l in bu]
        strips = [('sole_part', 1.0, res, cap)]
        extra = u_add
    else:
        r_in, r_ex = spec['r_srf_in'], spec['r_srf_ex']
        strips = [(p['name'], p['part_area_ratio'], [ees.layer_r(l) for l in p['layers']], [l['thickness'] * l['volumetric_specific_heat'] for l in p['layers']]) for p in spec['parts']]
        extra = u_add + (spec['u_r_value_steel'] if spec['structure'] == 'steel' else 0.0)
    if not t.check('number of strips', len(ds) == len(strips), case, '%d instead of %d' % (len(ds), len(strips))):
        return
    for x, (nm, ratio, res, cap) in zip(ds, strips):
        u0 = 1.0 / (r_in + sum(res) + r_ex)
        t.check('name of a strip', x['name'] == d['name'] + '_' + nm, case, x['name'])
        t.close('area of a strip', x['area'], d['area'] * ratio, 1e-12, case, rtol=1e-12)
        t.close('surface resistances', [x['inside_heat_transfer_resistance'], x['outside_heat_transfer_resistance']], [r_in, r_ex], 0.0, case)
        got = [l['thermal_resistance'] for l in x['layers']]
        if t.check('number of layers', len(got) == len(res), case, '%d instead of %d' % (len(got), len(res))):
            t.close('U of a strip', 1.0 / (r_in + sum(got) + r_ex), u0 + extra, 0.0, case, rtol=1e-10)
            t.close('resistances keep their proportion', [g * sum(res) for g in got], [r * sum(got) for r in res], 1e-11, case, rtol=1e-9)
            t.close('capacities', [l['thermal_capacity'] for l in x['layers']], cap, 1e-9, case, rtol=1e-12)
        want = {'connected_room_id': SPACE_ID[d['space_type']], 'boundary_type': 'external_general_part', 'is_sun_striked_outside': d['next_space'] == 'outdoor',
                'temp_dif_coef': ees.h(d['next_space'], region), 'is_solar_absorbed_inside': d['general_part_type'] in FLOORS,
                'outside_emissivity': 0.9, 'outside_solar_absorption': 0.8, 'direction': d['direction'] if d['next_space'] == 'outdoor' else None}
        for k, v in want.items():
            t.check('handed on %s' % k, x.get(k) == v, case, '%r instead of %r' % (x.get(k), v))
    t.outcome((spec['structure'], len(strips), round(extra, 6), round(sum(sum(s[2]) for s in strips), 6)))


def parts(job):
    """all specifications against all kinds of parts"""
    specs, types, nexts, dirs = job
    from heat_load_calc.convert.ees_house import GeneralPart
    t = Tally()
    for k, (spec, ty, nx, di, shade) in enumerate(itertools.product(specs, types, nexts, dirs, ees.OPAQUE_SHADES)):
        d = ees.part(spec, ty, nx, di, shade, 2.0 + k % 7, ees.SPACES[k % 4], 'n%d' % k)
        o = read_write(t, GeneralPart.make_general_part, copy.deepcopy(d))
        t.close('U', o.get_u(), ees.u_opaque(spec), 0.0, d, rtol=1e-12)
        t.close('solar factor', o.get_eta(), 0.034 * ees.u_opaque(spec), 0.0, d, rtol=1e-12)
        values(t, 'part', o, d)
        for u_add in (0.0, 0.07):
            region = 1 + k % 8
            ds = ees.attempt(lambda: o.make_initializer_dict(u_add=u_add, region=region))
            if isinstance(ds, Exception):
                t.fail('handed on: %r' % ds, {'part': d})
            else:
                judge_layers(t, ds, o, d, u_add, region)
                t.count(transitions=1)
    return t


def openings(_):
    from heat_load_calc.convert.ees_house import Window, Door
    t = Tally()
    k = 0
    for nx, di, shade, glass, flame in itertools.product(ees.NEXT, ees.DIRECTIONS, ees.WINDOW_SHADES, ('single', 'double', 'triple_and_more', 'unknown'), ('wood', 'metal')):
        k += 1
        d = ees.window(nx, di, shade, 1.0 + k % 5, ees.SPACES[k % 4], 'w%d' % k, 1.5 + 0.25 * (k % 9), .1 * (k % 8), .05 + .1 * (k % 7), glass, flame)
        o = read_write(t, Window.make_window, copy.deepcopy(d))
        if glass == 'single' and flame == 'wood':
            values(t, 'window', o, d)
        region = 1 + k % 8
        x = o.make_initializer_dict(region=region)
        want = {'name': d['name'], 'connected_room_id': SPACE_ID[d['space_type']], 'boundary_type': 'external_transparent_part', 'area': d['area'], 'is_sun_striked_outside': nx == 'outdoor',
                'temp_dif_coef': ees.h(nx, region), 'is_solar_absorbed_inside': False, 'eta_d_h_value': d['spec']['eta_d_h_value'], 'eta_d_c_value': d['spec']['eta_d_c_value'],
                'u_value': d['spec']['u_value'], 'incident_angle_characteristics': glass, 'direction': di if nx == 'outdoor' else None,
                'inside_heat_transfer_resistance': .13, 'outside_heat_transfer_resistance': .04, 'outside_emissivity': .9}
        for key, v in want.items():
            t.check('window handed on %s' % key, x.get(key) == v, d, '%r instead of %r' % (x.get(key), v))
        t.count(states=1, transitions=1)
    for fl in ('wood', 'resin', 'metal', 'wood_and_metal', 'resin_and_metal', 'unknown'):
        read_write(t, Window.make_window, ees.window(flame=fl))
    for nx, di, shade, u, sp in itertools.product(ees.NEXT, ees.DIRECTIONS, ees.OPAQUE_SHADES, (0.8, 4.65), ees.SPACES):
        k += 1
        d = ees.door(nx, di, shade, 1.0 + k % 5, sp, 'd%d' % k, u)
        o = read_write(t, Door.make_door, copy.deepcopy(d))
        values(t, 'door', o, d)
        region = 1 + k % 8
        x = o.make_initializer_dict(region=region)
        want = {'name': d['name'], 'connected_room_id': SPACE_ID[sp], 'boundary_type': 'external_opaque_part', 'area': d['area'], 'is_sun_striked_outside': nx == 'outdoor',
                'temp_dif_coef': ees.h(nx, region), 'is_solar_absorbed_inside': False, 'u_value': u, 'outside_emissivity': .9, 'outside_solar_absorption': .8,
                'inside_heat_transfer_resistance': .13, 'outside_heat_transfer_resistance': .04}
        for key, v in want.items():
            t.check('door handed on %s' % key, x.get(key) == v, d, '%r instead of %r' % (x.get(key), v))
        if nx == 'outdoor':
            t.check('door handed on direction', x.get('direction') == di, d, x.get('direction'))
        t.count(states=1, transitions=1)
    for bad in (lambda: Window.make_window(ees.window(space='undefined')).make_initializer_dict(region=6), lambda: Door.make_door(ees.door(space='undefined')).make_initializer_dict(region=6)):
        t.check('room not known refused', isinstance(ees.attempt(bad), Exception), {}, 'accepted')
    t.outcome('openings')
    return t


def lines(_):
    from heat_load_calc.convert.ees_house import EarthfloorPerimeter, EarthfloorCenter, Heatbridge, InnerFloor, InnerWall
    t = Tally()
    for nx, l, sp, psi in itertools.product(ees.NEXT, (0.5, 13.0), ees.SPACES + ('undefined',), (0.0, 0.2, 1.8)):
        d = ees.perimeter(nx, l, sp, 'p', psi)
        values(t, 'perimeter', read_write(t, EarthfloorPerimeter.make_earthfloor_perimeter, copy.deepcopy(d)), d)
    for a, sp, n in itertools.product((0.0, 7.5), ees.SPACES, range(1, 4)):
        for w in itertools.product(ees.LAYERS, repeat=n):
            read_write(t, EarthfloorCenter.make_earthfloor_center, ees.center(a, sp, 'c', w))
            t.count(states=1, transitions=1)
    for n in (1, 2, 3):
        dirs = ees.COMPASS + ('top', 'bottom') if n < 3 else ('s', 'w', 'top')
        for nx in itertools.product(ees.NEXT, repeat=n):
            for di in itertools.product(dirs if n == 1 else dirs[::3] + ('top',), repeat=n):
                d = ees.bridge(nx, di, 4.0 + n, 'other_occupant_room', 'b', (0.37, 1.4, 0.05)[(len(nx[0]) + len(di[-1])) % 3])
                values(t, 'bridge', read_write(t, Heatbridge.make_heatbridge, copy.deepcopy(d)), d)
    for a, b, w in itertools.product(ees.SPACES, ees.SPACES, [v for n in (1, 2, 3) for v in itertools.product(ees.LAYERS, repeat=n)]):
        read_write(t, InnerFloor.make_inner_floor, {'name': 'f', 'area': 3.0, 'upper_space_type': a, 'lower_space_type': b, 'spec': {'layers': list(w)}})
        read_write(t, InnerWall.make_inner_wall, {'name': 'f', 'area': 3.5, 'space_type_1': a, 'space_type_2': b, 'spec': {'layers': list(w)}})
        t.count(states=2, transitions=2)
    t.outcome('lines')
    return t


def refused(_):
    """strips that do not fill the part, unknown kinds"""
    from heat_load_calc.convert.ees_house import GeneralPart, Window
    t = Tally()
    good = {'structure': 'wood', 'r_srf_in': .11, 'r_srf_ex': .04, 'parts': [{'name': 'p', 'part_area_ratio': .5, 'layers': [ees.LAYERS[0]]}, {'name': 'q', 'part_area_ratio': .5, 'layers': [ees.LAYERS[1]]}]}
    for st, (a, b) in itertools.product(('wood', 'rc', 'steel'), itertools.product((.2, .5, .8, 1.0, 0.0), repeat=2)):
        s = copy.deepcopy(good)
        s.update(structure=st)
        if st == 'steel':
            s['u_r_value_steel'] = .1
        s['parts'][0]['part_area_ratio'], s['parts'][1]['part_area_ratio'] = a, b
        e = ees.attempt(lambda: GeneralPart.make_general_part(ees.part(s)))
        t.check('strips fill the part', isinstance(e, Exception) == (abs(a + b - 1.0) > 1e-6), {'ratios': (a, b)}, repr(e))
        t.count(states=1, transitions=1)
    for k, v in (('general_part_type', 'roofs'), ('next_space', 'sky'), ('direction', 'north'), ('space_type', 'bath'), ('spec', dict(good, structure='stone'))):
        d = dict(ees.part(good), **{k: v})
        t.check('unknown kind refused', isinstance(ees.attempt(lambda: GeneralPart.make_general_part(d)), Exception), {k: v}, 'accepted')
        t.count(states=1, transitions=1)
    for k, v in (('glass_type', 'four'), ('flame_type', 'gold')):
        d = ees.window()
        d['spec'][k] = v
        t.check('unknown kind refused', isinstance(ees.attempt(lambda: Window.make_window(d)), Exception), {k: v}, 'accepted')
        t.count(states=1, transitions=1)
    t.outcome('refused')
    return t


def run_job(job):
    f, a = job
    return f(a)


def explore(run):
    specs = ees.spec_words(4 if run.thorough else 3)
    few = ees.spec_words(1)
    run.bounds = {'layer words': 'length 1-%d over 4 layers' % (4 if run.thorough else 3), 'kinds of part': 7, 'next spaces': 6, 'directions': 13, 'regions': 8}
    run.assumptions = ['the default build-ups of parts known only by U and weight are transcribed from the documentation of the code']
    jobs = [(openings, None), (lines, None), (refused, None)]
    jobs += [(parts, (specs[i::32], ('wall', 'floor'), ('outdoor', 'closed_space'), ('s',))) for i in range(32)]
    jobs += [(parts, (few[i::16], ees.PARTS, ees.NEXT, ees.DIRECTIONS if run.thorough else ('n', 'sw', 'top', 'bottom', 'horizontal'))) for i in range(16)]
    run.pmap(run_job, jobs)


if __name__ == '__main__':
    runner.main('C26', 'model_checking', 'one per part description x region x season', explore)
