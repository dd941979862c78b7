"""C23 part specifications from the indices of a house: all subsets of kinds of parts, regions and targets, and whole model houses."""
import itertools

from checks import c27
from mc import ees, runner
from mc.runner import Tally

TYPES = ('roof', 'ceiling', 'wall', 'floor', 'boundary_ceiling', 'boundary_wall', 'boundary_floor', 'window', 'door', 'earthfloor_perimeter')
OF = {'roof': 'roof', 'ceiling': 'ceiling', 'wall': 'wall', 'floor': 'floor', 'boundary_wall': 'boundary_wall', 'upward_boundary_floor': 'boundary_ceiling',
      'downward_boundary_floor': 'boundary_floor'}
# limits of U: a bare board between the surface resistances, single glass
TOP = {'roof': .09 + .0095 / .22 + .04, 'ceiling': .09 + .0095 / .22 + .09, 'wall': .11 + .0095 / .22 + .04, 'floor': .15 + .012 / .16 + .04, 'boundary_ceiling': .09 + .0095 / .22 + .09,
       'boundary_wall': .11 + .0095 / .22 + .11, 'boundary_floor': .15 + .012 / .16 + .15}


def top(p):
    return 1.0 / TOP[p] if p in TOP else (100.0 if p == 'earthfloor_perimeter' else 6.51)


def std(p, r):
    if p in ('roof', 'ceiling', 'boundary_ceiling'):
        return .17 if r <= 2 else .24
    if p in ('wall', 'boundary_wall'):
        return .35 if r <= 2 else (.53 if r <= 7 else 4.10)
    if p in ('floor', 'boundary_floor'):
        return .34 if r <= 3 else (.48 if r <= 7 else 3.52)
    if p == 'earthfloor_perimeter':
        return .53 if r <= 3 else (.76 if r <= 7 else 1.80)
    return 2.33 if r <= 2 else (3.49 if r == 3 else (4.65 if r <= 7 else 6.51))


def kind(k, d):
    return {'part': lambda: OF[d['general_part_type']], 'window': lambda: 'window', 'door': lambda: 'door', 'perimeter': lambda: 'earthfloor_perimeter'}[k]()


def reference(items, region, ua, eh, ec):
    """items: (kind, description without specification).  U of every kind of part, solar coefficients of the windows"""
    area = sum(d['area'] for k, d in items if k != 'perimeter')
    want = ua * area
    w = dict.fromkeys(TYPES, 0.0)
    for k, d in items:
        if k != 'center':
            p = kind(k, d)
            w[p] += (d['length'] if k == 'perimeter' else d['area']) * ees.h(d['next_space'], region) * std(p, region)
    lim = {p: top(p) / std(p, region) for p in TYPES}
    f = lo = 0.0
    for b in sorted(set(lim.values())) + [None]:
        # between two limits the loss grows linearly with the common factor
        slope = sum(w[p] for p in TYPES if b is not None and lim[p] >= b)
        base = sum(w[p] * min(lo, lim[p]) for p in TYPES)
        if b is None:
            f = max(lim.values())
            break
        if slope > 0 and base + slope * (b - lo) > want:
            f = lo + (want - base) / slope
            break
        lo = b
    u = {p: std(p, region) * min(f, lim[p]) for p in TYPES}
    eta = {}
    for s, e in (('heating', eh), ('cooling', ec)):
        if s == 'heating' and region == 8:
            continue
        opq = sum(d['area'] * .034 * u[kind(k, d)] * ees.nu(d['direction'], region, s) for k, d in items if k in ('part', 'door') and d['next_space'] == 'outdoor')
        glass = sum(d['area'] * ees.f_window(d['sunshade'], d['direction'], region, s) * ees.nu(d['direction'], region, s) for k, d in items if k == 'window' and d['next_space'] == 'outdoor')
        if glass <= 0:
            raise ees.Undefined
        eta[s] = min(max((e / 100.0 * area - opq) / glass, 0.0), .88)
    eta.setdefault('heating', eta['cooling'])
    return u, eta['heating'], eta['cooling'], eta['cooling'] if region == 8 else (eta['heating'] + eta['cooling']) / 2


NOT = {'is_defined': False}
SH = {'is_defined': True, 'input': 'not_input'}


def _p(t, nx, di, a):
    return 'part', {'general_part_type': t, 'next_space': nx, 'direction': di, 'area': a, 'sunshade': SH if nx == 'outdoor' else NOT}


POOL = (_p('wall', 'outdoor', 's', 40.0), _p('wall', 'open_space', 'horizontal', 9.0), _p('roof', 'outdoor', 'top', 50.0), _p('ceiling', 'closed_space', 'upward', 21.0), _p('floor', 'open_underfloor', 'downward', 45.0),
        _p('boundary_wall', 'air_conditioned', 'horizontal', 25.0), _p('upward_boundary_floor', 'air_conditioned', 'upward', 60.0), _p('downward_boundary_floor', 'air_conditioned', 'downward', 61.0),
        ('window', {'next_space': 'open_space', 'direction': 'horizontal', 'area': 3.0, 'sunshade': NOT}),
        ('window', {'next_space': 'outdoor', 'direction': 'ne', 'area': 2.0, 'sunshade': dict(ees.SIMPLE[0], is_defined=True, input='simple')}),
        ('door', {'next_space': 'outdoor', 'direction': 'nw', 'area': 1.89, 'sunshade': SH}), ('door', {'next_space': 'closed_space', 'direction': 'horizontal', 'area': 1.7, 'sunshade': NOT}),
        ('perimeter', {'next_space': 'outdoor', 'length': 8.0}), ('perimeter', {'next_space': 'open_underfloor', 'length': 3.0}), ('center', {'area': 7.0}))
ALWAYS = ('window', {'next_space': 'outdoor', 'direction': 'sw', 'area': 14.0, 'sunshade': SH})
TARGETS = ((0.3, 4.0, 1.0), (0.87, 2.8, 2.8), (1.7, 0.05, 0.5), (3.4, 9.0, 8.0), (0.0, 0.0, 0.0))


def build(items):
    """the code's own objects"""
    from heat_load_calc.convert import ees_house as e, factor_f
    from heat_load_calc.external.factor_h import NextSpace
    from heat_load_calc.external.factor_nu import Direction
    out = {'part': [], 'window': [], 'door': [], 'perimeter': [], 'center': []}
    sp = e.SpaceType.UNDEFINED
    for j, (k, d) in enumerate(items):
        n = 'n%d' % j
        if k == 'part':
            o = e.GeneralPartNoSpec(name=n, general_part_type=e.GeneralPartType(d['general_part_type']), next_space=NextSpace(d['next_space']), direction=Direction(d['direction']), area=d['area'],
                                    space_type=sp, sunshade=factor_f.SunshadeOpaque.make_sunshade_opaque(d=d['sunshade']))
        elif k == 'window':
            o = e.WindowNoSpec(name=n, area=d['area'], next_space=NextSpace(d['next_space']), direction=Direction(d['direction']), space_type=sp,
                               sunshade=factor_f.SunshadeTransient.make_sunshade_transient(d=d['sunshade']))
        elif k == 'door':
            o = e.DoorNoSpec(name=n, next_space=NextSpace(d['next_space']), direction=Direction(d['direction']), area=d['area'], space_type=sp,
                             sunshade=factor_f.SunshadeOpaque.make_sunshade_opaque(d=d['sunshade']))
        elif k == 'perimeter':
            o = e.EarthfloorPerimeterNoSpec(name=n, next_space=NextSpace(d['next_space']), length=d['length'], space_type=sp)
        else:
            o = e.EarthfloorCenterNoSpec(name=n, area=d['area'], space_type=sp)
        out[k].append(o)
    return dict(gps=out['part'], ws=out['window'], ds=out['door'], eps=out['perimeter'], ecs=out['center'])


def scaled(item, f):
    k, d = item
    return k, dict(d, **{q: f * d[q] for q in ('area', 'length') if q in d})


def subsets(job):
    masks, every = job
    from heat_load_calc.convert import get_u_psi_eta_from_u_a_and_eta_a as g
    t = Tally()
    for mask in masks:
        # the same set as a house, a doll's house and a block
        scale = (1.0, 0.02, 30.0, 1.0)[(mask ^ mask >> 3) % 4]
        items = [scaled(i, scale) for i in [ALWAYS] + [POOL[k] for k in range(len(POOL)) if mask >> k & 1]]
        args = build(items)
        for n, (r, (ua, eh, ec)) in enumerate(itertools.product(ees.REGIONS, TARGETS)):
            if (mask * 7 + n) % every:
                continue
            u, dh, dc, d = reference(items, r, ua, eh, ec)
            case = {'parts': [k for k in range(len(POOL)) if mask >> k & 1], 'region': r, 'UA': ua, 'eta': (eh, ec), 'scale': scale}
            got = ees.attempt(lambda: g.calc_parts_spec(region=r, u_a_target=ua, eta_a_h_target=eh, eta_a_c_target=ec, **args))
            t.count(states=1, transitions=1)
            if isinstance(got, Exception):
                t.fail('specification: %r' % got, case)
                continue
            t.close('U of the kinds of parts', [getattr(got[0], p) for p in TYPES], [u[p] for p in TYPES], 1e-10, case, rtol=1e-9)
            t.close('solar coefficient', list(got[1:]), [d, dh, dc], 1e-10, case, rtol=1e-9)
            t.outcome((sum(abs(u[p] - top(p)) < 1e-12 for p in TYPES), dh in (0.0, .88), dc in (0.0, .88), round(u['wall'], 3)))
    return t


def many(job):
    """many pieces of one kind, small and large"""
    from heat_load_calc.convert import get_u_psi_eta_from_u_a_and_eta_a as g
    t = Tally()
    for n, items in job:
        items = [ALWAYS] + items
        args = build(items)
        for k, (ua, eh, ec) in enumerate(TARGETS[:3]):
            r = 1 + (n + 3 * k) % 8
            u, dh, dc, d = reference(items, r, ua, eh, ec)
            case = {'pieces': n, 'region': r, 'UA': ua, 'eta': (eh, ec)}
            got = ees.attempt(lambda: g.calc_parts_spec(region=r, u_a_target=ua, eta_a_h_target=eh, eta_a_c_target=ec, **args))
            t.count(states=1, transitions=1)
            if isinstance(got, Exception):
                t.fail('specification: %r' % got, case)
                continue
            t.close('U of many pieces', [getattr(got[0], p) for p in TYPES], [u[p] for p in TYPES], 1e-10, case, rtol=1e-9)
            t.close('solar coefficient with many pieces', list(got[1:]), [d, dh, dc], 1e-10, case, rtol=1e-9)
    t.outcome('many')
    return t


def houses(job):
    ht, areas, targets = job
    from heat_load_calc.convert import convert_indices_to_lv2_info as ci, check_ua_a_eta_a as cue
    t = Tally()
    for a, scale, (ua, eh, ec), r in itertools.product(areas, (1.0, 1.25), targets, ees.REGIONS):
        ref0 = c27.reference(ht, a, .1, *(('floor', 'base') if ht == 'detached' else (None, None)))
        env = ref0['total'] * scale
        g = c27.reference(ht, a, .1, *(('floor', 'base') if ht == 'detached' else (None, None)), env=env)
        d = {'common': {'region': r, 'house_type': ht, 'main_occupant_room_floor_area': a / 3, 'other_occupant_room_floor_area': a / 4, 'total_floor_area': a},
             'envelope': {'input_method': 'index', 'total_area': env, 'indices': {'u_a': ua, 'eta_a_h': eh, 'eta_a_c': ec}}}
        case = {'house': ht, 'floor area': a, 'envelope': env, 'UA': ua, 'eta': (eh, ec), 'region': r}
        got = ees.attempt(lambda: ci.convert_spec(d))
        t.count(states=1, transitions=1)
        if isinstance(got, Exception):
            t.fail('house from indices: %r' % got, case)
            continue
        items = []
        want = {}
        for (k, n), (ty, nx, di, size) in c27.parts_of(ht, 'floor' if ht == 'detached' else None, g).items():
            if abs(size) < 1e-12:
                continue
            sh = (dict(depth=.3, d_h=1.0, d_e=0.0, is_defined=True, input='simple') if k == 'w' else SH) if nx == 'outdoor' else NOT
            x = {'name': n, 'next_space': nx, 'direction': di, 'length' if k == 'p' else 'area': size, 'sunshade': sh, 'general_part_type': ty}
            kk = {'gp': 'part', 'w': 'window', 'd': 'door', 'p': 'perimeter', 'c': 'center'}[k]
            items.append((kk, x))
            want[kk, n] = x
        u, dh, dc, _ = reference(items, r, ua, eh, ec)
        seen = {}
        for kk, key in (('part', 'general_parts'), ('window', 'windows'), ('door', 'doors'), ('perimeter', 'earthfloor_perimeters'), ('center', 'earthfloor_centers')):
            for x in got[key]:
                if abs(x.get('area', x.get('length'))) > 1e-12:
                    seen[kk, x['name']] = x
        if not t.check('parts of the house', set(seen) == set(want), case, 'got %s' % sorted(set(seen) ^ set(want))):
            continue
        for key, x in seen.items():
            w = want[key]
            size = 'length' if key[0] == 'perimeter' else 'area'
            t.close('size', x[size], w[size], 1e-9, dict(case, part=key), rtol=1e-9)
            for f in ('next_space', 'direction', 'sunshade', 'general_part_type'):
                if f in x and (f != 'sunshade' or w['next_space'] == 'outdoor'):
                    t.check('kept ' + f, x[f] == w[f], dict(case, part=key), '%r instead of %r' % (x[f], w[f]))
            s = x['spec']
            if key[0] == 'part':
                t.check('kind of specification', (s['structure'], s['weight']) == ('other', 'light'), case, repr(s))
                t.close('U of a part', s['u_value_other'], u[OF[w['general_part_type']]], 1e-9, dict(case, part=key), rtol=1e-9)
            elif key[0] == 'center':
                t.check('earth floor', s == {'layers': []}, case, repr(s))
            elif key[0] == 'perimeter':
                t.close('psi', s['psi_value'], u['earthfloor_perimeter'], 1e-9, dict(case, part=key), rtol=1e-9)
            else:
                t.close('U of an opening', s['u_value'], u[key[0]], 1e-9, dict(case, part=key), rtol=1e-9)
                if key[0] == 'window':
                    t.close('solar coefficient of a window', [s['eta_d_h_value'], s['eta_d_c_value']], [dh, dc], 1e-9, dict(case, part=key), rtol=1e-9)
                    t.check('window', (s['glass_type'], s['flame_type']) == ('single', 'metal'), case, repr(s))
        t.check('form', got['input_method'] == 'detail_without_room_usage' and got['heat_bridges'] == [], case, 'wrong')
        # back: the indices of the house made are the ones asked for, unless limits are reached
        back = ees.attempt(lambda: cue.check_u_a_and_eta_a(r, got))
        if isinstance(back, Exception):
            t.fail('indices of the house made: %r' % back, case)
            continue
        full = all(abs(u[p] - top(p)) < 1e-12 for p in TYPES)
        if full:
            t.check('as far as possible', back[0] <= ua + 1e-9, case, 'UA %r' % back[0])
        else:
            t.close('UA as asked', back[0], ua, 1e-9, case, rtol=1e-9)
        for nm, b, e, x in (('eta A heating', back[1], eh, dh), ('eta A cooling', back[2], ec, dc)):
            if r == 8 and nm.endswith('heating'):
                continue
            if 0 < x < .88:
                t.close(nm + ' as asked', b, e, 1e-9, case, rtol=1e-9)
        t.outcome((ht, full, round(u['wall'], 2), round(dc, 1)))
    return t


def run_job(job):
    f, a = job
    return f(a)


def explore(run):
    every = 1 if run.thorough else 16
    n = 1 << len(POOL)
    areas = [50.0 + 7.5 * k for k in range(20)] if run.thorough else [50.0, 70.0, 90.0, 120.08, 170.0]
    targets = TARGETS + (((0.46, 2.5, 1.9), (2.2, 6.0, 3.0), (0.75, 4.3, 2.2)) if run.thorough else ())
    run.bounds = {'kinds of parts': 'all %d subsets of %d parts' % (n, len(POOL)), 'regions x targets': '8 x 5' + ('' if run.thorough else ', every 16th, shifted from subset to subset'),
                  'model houses': '2 kinds x %d floor areas x 2 envelopes x %d targets x 8 regions' % (len(areas), len(targets))}
    run.assumptions = ['standard and greatest U values are transcribed in checks/c23.py']
    jobs = [(houses, (ht, areas[i::4], targets)) for ht in ('detached', 'attached') for i in range(4)]
    jobs += [(subsets, (range(i, n, 32), every)) for i in range(32)]
    words = list(enumerate(ees.repeats(POOL)))
    jobs += [(many, words[i::8]) for i in range(8)]
    run.pmap(run_job, jobs)


if __name__ == '__main__':
    runner.main('C23', 'model_checking', 'one per set of parts (house) x region x target', explore)
