"""Independent reference for house descriptions of the energy standard: coefficients, U values, heat loss, solar gain."""
import copy
import itertools
import math

COMPASS = ('n', 'ne', 'e', 'se', 's', 'sw', 'w', 'nw')
NEXT = ('outdoor', 'open_space', 'closed_space', 'air_conditioned', 'open_underfloor', 'closed_underfloor')
DIRECTIONS = COMPASS + ('top', 'bottom', 'upward', 'horizontal', 'downward')
PARTS = ('roof', 'ceiling', 'wall', 'floor', 'boundary_wall', 'upward_boundary_floor', 'downward_boundary_floor')
SPACES = ('main_occupant_room', 'other_occupant_room', 'non_occupant_room', 'underfloor')
REGIONS = tuple(range(1, 9))
SEASONS = ('heating', 'cooling')

_NU_H = """n .260 .263 .284 .256 .238 .261 .227
ne .333 .341 .348 .330 .310 .325 .281
e .564 .554 .540 .531 .568 .579 .543
se .823 .766 .751 .724 .846 .833 .843
s .935 .856 .851 .815 .983 .936 1.023
sw .790 .753 .750 .723 .815 .763 .848
w .535 .544 .542 .527 .538 .523 .548
nw .325 .341 .351 .326 .297 .317 .284"""
_NU_C = """n .329 .341 .335 .322 .373 .341 .307 .325
ne .430 .412 .390 .426 .437 .431 .415 .414
e .545 .503 .468 .518 .500 .512 .509 .515
se .560 .527 .487 .508 .500 .498 .490 .528
s .502 .507 .476 .437 .472 .434 .412 .480
sw .526 .548 .550 .481 .520 .491 .479 .517
w .508 .529 .553 .481 .518 .504 .495 .505
nw .411 .428 .447 .401 .442 .427 .406 .411"""


class Undefined(Exception):
    """the quantity is not defined by the standard: the code has to refuse"""


def _table(txt):
    out = {}
    for line in txt.splitlines():
        d, *v = line.split()
        for r, x in enumerate(v, 1):
            out[d, r] = float(x)
    return out


NU = {'heating': _table(_NU_H), 'cooling': _table(_NU_C)}


def nu(direction, region, season):
    if season not in SEASONS or (season == 'heating' and region == 8):
        raise Undefined
    if direction == 'top':
        return 1.0
    if direction == 'bottom':
        return 0.0
    if (direction, region) not in NU[season]:
        raise Undefined
    return NU[season][direction, region]


def h(next_space, region):
    if next_space in ('outdoor', 'open_space'):
        return 1.0
    if next_space in ('closed_space', 'open_underfloor'):
        return 0.7
    return 0.05 if region <= 3 else 0.15


def f_simple(depth, d_h, d_e, direction, region, season):
    if season not in SEASONS or (season == 'heating' and region == 8):
        raise Undefined
    if direction == 'top':
        return 1.0
    if direction == 'bottom':
        return 0.0
    if direction not in COMPASS:
        raise Undefined
    south = direction in ('se', 's', 'sw')
    if season == 'heating':
        a, b, k, cap = (5, 20, 3, 0.72) if south else (10, 15, 2, 0.72)
    elif region == 8:
        a, b, k, cap = (16, 19, 2, 0.93) if south else (16, 24, 2, 0.93)
    else:
        a, b, k, cap = (24, 9, 3, 0.93) if direction == 's' else (16, 24, 2, 0.93)
    return min(cap, 0.01 * (a + b * (k * d_e + d_h) / depth))


def f_window(sunshade, direction, region, season):
    """correction of the solar gain of a window by its shade"""
    if not sunshade['is_defined']:
        raise Undefined
    kind = sunshade['input']
    if kind == 'not_input':
        if season not in SEASONS or (season == 'heating' and region == 8):
            raise Undefined
        return 0.51 if season == 'heating' else 0.93
    if kind == 'simple':
        return f_simple(sunshade['depth'], sunshade['d_h'], sunshade['d_e'], direction, region, season)
    raise Undefined


def f_opaque(sunshade):
    if not sunshade['is_defined'] or sunshade['input'] != 'not_input':
        raise Undefined
    return 1.0


def layer_r(l):
    return l['thickness'] / l['thermal_conductivity'] if l['heat_resistance_input_method'] == 'conductivity' else l['thermal_resistance']


R_IN = {'roof': .09, 'ceiling': .09, 'wall': .11, 'floor': .15, 'boundary_wall': .11, 'upward_boundary_floor': .09, 'downward_boundary_floor': .15}
R_EX = {'roof': .04, 'ceiling': .09, 'wall': .04, 'floor': .15, 'boundary_wall': .11, 'upward_boundary_floor': .09, 'downward_boundary_floor': .15}


def u_opaque(spec):
    """mean U of an opaque part, W/m2K"""
    if spec['structure'] == 'other':
        return spec['u_value_other']
    u = sum(p['part_area_ratio'] / (spec['r_srf_in'] + sum(layer_r(l) for l in p['layers']) + spec['r_srf_ex']) for p in spec['parts'])
    return u + (spec['u_r_value_steel'] if spec['structure'] == 'steel' else 0.0)


def q(kind, d, region):
    """heat loss per kelvin of indoor-outdoor difference, W/K"""
    if kind == 'perimeter':
        return d['length'] * d['spec']['psi_value'] * h(d['next_space'], region)
    if kind == 'bridge':
        return d['length'] * d['spec']['psi_value'] * sum(h(s, region) for s in d['next_spaces']) / len(d['next_spaces'])
    u = u_opaque(d['spec']) if kind == 'part' else d['spec']['u_value']
    return d['area'] * u * h(d['next_space'], region)


def m(kind, d, region, season):
    """solar heat per unit of global radiation, W/(W/m2)"""
    if kind == 'bridge':
        v = [nu(x, region, season) if s == 'outdoor' else 0.0 for s, x in zip(d['next_spaces'], d['directions'])]
        return d['length'] * 0.034 * d['spec']['psi_value'] * sum(v) / len(v)
    if d['next_space'] != 'outdoor':
        return 0.0
    n = nu(d['direction'], region, season)
    if kind == 'window':
        eta = d['spec']['eta_d_h_value' if season == 'heating' else 'eta_d_c_value']
        if season not in SEASONS:
            raise Undefined
        return eta * d['area'] * f_window(d['sunshade'], d['direction'], region, season) * n
    u = u_opaque(d['spec']) if kind == 'part' else d['spec']['u_value']
    return d['area'] * 0.034 * u * n * f_opaque(d['sunshade'])


def attempt(fn):
    """value or the exception"""
    try:
        return fn()
    except Exception as e:          # noqa
        return e


def agree(t, name, got, want, case, rtol=1e-12, atol=1e-12):
    """got: attempt of the code, want: attempt of the reference; undefined quantities have to be refused"""
    if isinstance(want, Undefined):
        return t.check(name + ' refused', isinstance(got, Exception), case, 'not defined, but the code says %r' % (got,))
    if isinstance(want, Exception):
        raise want
    if isinstance(got, Exception):
        t.fail('%s: %r instead of %r' % (name, got, want), case)
        return False
    return t.close(name, got, want, atol, case, rtol=rtol)


# ---------------------------------------------------------------- words of descriptions
KERNEL = dict(x1=0.1, x2=1.2, x3=0.3, y1=0.4, y2=1.5, y3=0.6, z_x_pls=0.7, z_x_mns=0.8, z_y_pls=0.9, z_y_mns=1.0)
OPAQUE_SHADES = ({'is_defined': False}, {'is_defined': True, 'input': 'not_input'}, dict(KERNEL, is_defined=True, input='complex'))
SIMPLE = ({'depth': 0.9, 'd_h': 1.1, 'd_e': 0.2}, {'depth': 0.3, 'd_h': 2.0, 'd_e': 0.0}, {'depth': 1.8, 'd_h': 0.4, 'd_e': 0.5}, {'depth': 0.05, 'd_h': 1.0, 'd_e': 1.0})
WINDOW_SHADES = (({'is_defined': False}, {'is_defined': True, 'input': 'not_input'}, {'is_defined': True, 'input': 'not_exist'}) +
                 tuple(dict(s, is_defined=True, input='simple') for s in SIMPLE) + (dict(KERNEL, is_defined=True, input='complex'),))


def layer(name, thickness, c, lam=None, r=None):
    d = {'name': name, 'heat_resistance_input_method': 'conductivity' if lam is not None else 'resistance', 'thickness': thickness, 'volumetric_specific_heat': c}
    d['thermal_conductivity' if lam is not None else 'thermal_resistance'] = lam if lam is not None else r
    return d


LAYERS = (layer('board', .0095, 830.0, lam=.221), layer('wool', .1, 13.0, lam=.045), layer('air', .02, 0.0, r=.09), layer('concrete', .12, 2000.0, lam=1.6))


def spec_words(n_layers=2, extra=()):
    """all structures: one part of every layer word up to n_layers, two parts, steel correction, given U"""
    words = [w for n in range(1, n_layers + 1) for w in itertools.product(range(len(LAYERS)), repeat=n)]
    out = []
    for w in words:
        out.append({'structure': 'wood', 'r_srf_in': .11, 'r_srf_ex': .04, 'parts': [{'name': 'p', 'part_area_ratio': 1.0, 'layers': [LAYERS[k] for k in w]}]})
    for (a, b), ratio in itertools.product(zip(words, words[3:] + words[:3]), (0.17, 0.5, 0.83)):
        parts = [{'name': 'p', 'part_area_ratio': ratio, 'layers': [LAYERS[k] for k in a]}, {'name': 'q', 'part_area_ratio': 1.0 - ratio, 'layers': [LAYERS[k] for k in b]}]
        out.append({'structure': 'wood', 'r_srf_in': .09, 'r_srf_ex': .09, 'parts': parts})
        out.append({'structure': 'rc', 'r_srf_in': .15, 'r_srf_ex': .04, 'parts': parts})
        out.append({'structure': 'steel', 'u_r_value_steel': .12, 'r_srf_in': .11, 'r_srf_ex': .11, 'parts': parts})
    # build-ups of other sizes: three strips, thick insulation given by its resistance, heavy parts, strong and weak steel
    far = (layer('insulation', .2, 28.0, r=4.7), layer('stone', .34, 2400.0, lam=2.9), layer('sheet', .001, 3600.0, lam=55.0), layer('felt', .012, 300.0, lam=.03), layer('gap', .3, 0.0, r=.02))
    for st, (a, b, c), q in itertools.product(('wood', 'rc', 'steel'), itertools.permutations(range(5), 3), ((.06, .8, .14), (.4, .02, .58))):
        parts = [{'name': 'pqr'[k], 'part_area_ratio': q[k], 'layers': [far[x] for x in w]} for k, w in enumerate(((a,), (b, c), (c, a, b)))]
        d = {'structure': st, 'r_srf_in': (.09, .15)[a % 2], 'r_srf_ex': (.04, .11, .15)[b % 3], 'parts': parts}
        if st == 'steel':
            d['u_r_value_steel'] = (.02, .18, .45)[c % 3]
        out.append(d)
    for u in (0.04, 0.2, 0.53, 1.1, 2.2, 4.0, 6.0, 8.5):
        for wt in ('light', 'heavy'):
            out.append({'structure': 'other', 'u_value_other': u, 'weight': wt})
    return out


def part(spec, type='wall', next='outdoor', direction='s', shade=OPAQUE_SHADES[1], area=10.0, space='main_occupant_room', name='part'):
    return {'name': name, 'general_part_type': type, 'next_space': next, 'direction': direction, 'area': area, 'space_type': space, 'spec': spec, 'sunshade': shade}


def window(next='outdoor', direction='s', shade=WINDOW_SHADES[1], area=3.0, space='main_occupant_room', name='window', u=2.9, eh=.5, ec=.4, glass='double', flame='resin'):
    return {'name': name, 'next_space': next, 'direction': direction, 'area': area, 'space_type': space, 'sunshade': shade,
            'spec': {'u_value': u, 'eta_d_h_value': eh, 'eta_d_c_value': ec, 'glass_type': glass, 'flame_type': flame}}


def door(next='outdoor', direction='n', shade=OPAQUE_SHADES[1], area=1.9, space='non_occupant_room', name='door', u=3.3):
    return {'name': name, 'next_space': next, 'direction': direction, 'area': area, 'space_type': space, 'sunshade': shade, 'spec': {'u_value': u}}


def perimeter(next='outdoor', length=7.0, space='non_occupant_room', name='perimeter', psi=.9):
    return {'name': name, 'next_space': next, 'length': length, 'space_type': space, 'spec': {'psi_value': psi}}


def center(area=5.0, space='underfloor', name='earth', layers=LAYERS[3:]):
    return {'name': name, 'area': area, 'space_type': space, 'spec': {'layers': list(layers)}}


def bridge(nexts=('outdoor', 'outdoor'), directions=('s', 'e'), length=4.0, space='other_occupant_room', name='bridge', psi=.3):
    return {'name': name, 'next_spaces': list(nexts), 'directions': list(directions), 'length': length, 'space_type': space, 'spec': {'psi_value': psi}}


SCALE = (1.0, 0.031, 2.3, 0.17, 7.1, 0.0043, 0.6)


def repeats(pool, sizes=((5, 4), (1, 6))):
    """lists of many pieces of the same name and of very different size: every pair of kinds, n pieces of one and m of the other"""
    out = []
    for (a, b), (n, m) in itertools.product(itertools.product(range(len(pool)), repeat=2), sizes):
        items = []
        for j, k in enumerate((a,) * n + (b,) * m):
            kind, d = pool[k]
            size = 'length' if 'length' in d else 'area'
            items.append((kind, dict(copy.deepcopy(d), name='n', **{size: d[size] * SCALE[j % len(SCALE)]})))
        out.append(items)
    return out
