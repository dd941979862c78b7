"""C27 geometry of the model house: every kind of house over grids of floor area, envelope area and share of openings."""
import itertools
import math

import numpy as np

from mc import ees, runner
from mc.runner import Tally

W = ('sw', 'nw', 'ne', 'se')


def reference(ht, area, r_open, floor=None, bath=None, env=None):
    """the model house from its description: rectangles of two storeys (detached) or one (attached)"""
    det = ht == 'detached'
    a = [area / 1.77, area * .77 / 1.77] if det else [area]
    h = [2.9, 2.7] if det else [2.8]
    fd = [1.08, 1.04] if det else [1.048215]
    base, bath_base = det and floor == 'base', det and (floor == 'base' or bath == 'base')
    # heights of the base of entrance, bath and the rest
    he, hb, ho = (.18 if det else 0.0), (.5 if bath_base else 0.0), (.5 if base else 0.0)
    em, eo, bm, bo = (1.365, 1.82, 1.82, 1.82) if det else (1.0, 1.0, 2.1, 1.365)
    ent_out = [0.0, eo, em, 0.0] if det else [0.0] * 4
    ent_in = em + eo if det and not base else 0.0
    bath_out = [0.0, bo, bm, 0.0] if bath_base else [0.0] * 4
    bath_in = bm + bo if bath_base and not base else 0.0
    le, lb = sum(ent_out) + ent_in, sum(bath_out) + bath_in

    def total(fs):
        """all surfaces with these shape factors"""
        walls = sum(4 * math.sqrt(ai) * f * hi for ai, f, hi in zip(a, fs, h))
        rest = 4 * math.sqrt(a[0]) * fs[0] - le - lb if base else 0.0
        return 2 * a[0] + walls + le * he + lb * hb + rest * ho

    if env is None:
        fs = fd
    else:
        # the total is linear in the common scale of the shape factors
        unit = [f / fd[-1] for f in fd]
        t1, t2 = total(unit), total([2 * u for u in unit])
        s = max(1.0 + (env - t1) / (t2 - t1), 1.0)
        fs = [s * u for u in unit]
    sides = []
    for ai, f in zip(a, fs):
        p = 4 * math.sqrt(ai) * f
        d = math.sqrt(max(p * p / 4 - 4 * ai, 0.0)) / 2
        sides.append((p / 4 + d, p / 4 - d) if det else (p / 4 - d, p / 4 + d))
    srf = [sum(s[0] * hi for s, hi in zip(sides, h)), sum(s[1] * hi for s, hi in zip(sides, h))] * 2
    base_len = [(sides[0][k % 2] if base else ent_out[k] + bath_out[k]) for k in range(4)]
    base_area = [ent_out[k] * he + bath_out[k] * hb + ((sides[0][k % 2] - ent_out[k] - bath_out[k]) * ho if base else 0.0) for k in range(4)]
    earth = a[0] if base else (em * eo + (bm * bo if bath_base else 0.0) if det else 0.0)
    not_base = 2 * a[0] + sum(srf)
    door = [0.0, 1.89, 1.62, 0.0] if det else [0.0, 0.0, 1.755, 0.0]
    win_total = not_base * r_open - sum(door)
    win = [win_total * r for r in ((.6862, .0721, .1097, .1320) if det else (.6330, .1517, .2153, 0.0))]
    return dict(a_f=a, fs=fs, sides=sides, srf=srf, base_len=base_len, base_len_in=ent_in + bath_in, base_area=base_area, base_area_in=ent_in * he + bath_in * hb,
                earth=earth, floor=a[0] - earth, roof=a[0], not_base=not_base, total=not_base + sum(base_area) + ent_in * he + bath_in * hb, door=door, window=win,
                wall=[s - w - d for s, w, d in zip(srf, win, door)],
                pieces={'a_evp_ef_etrc': em * eo if det else 0.0, 'a_evp_f_etrc': 0.0 if det else em * eo, 'a_evp_ef_bath': bm * bo if bath_base else 0.0,
                        'a_evp_f_bath': 0.0 if bath_base else bm * bo, 'a_evp_ef_other': a[0] - em * eo - bm * bo if base else 0.0,
                        'a_evp_f_other': 0.0 if base else a[0] - em * eo - bm * bo, 'l_base_etrc_outside': ent_out, 'l_base_etrc_inside': ent_in,
                        'l_base_bath_outside': bath_out, 'l_base_bath_inside': bath_in, 'a_evp_base_etrc_outside': [x * he for x in ent_out],
                        'a_evp_base_etrc_inside': ent_in * he, 'a_evp_base_bath_outside': [x * hb for x in bath_out], 'a_evp_base_bath_inside': bath_in * hb,
                        'a_evp_window_total': win_total})


def parts_of(ht, floor, g):
    """(kind, name) -> (part type, next space, direction, size)"""
    out = {}
    det = ht == 'detached'
    out['gp', 'roof'] = ('ceiling', 'outdoor', 'top', g['roof']) if det else ('upward_boundary_floor', 'air_conditioned', 'upward', g['roof'])
    kinds = [('wall', 'outdoor', w) for w in W] if det else [('wall', 'outdoor', 'sw'), ('wall', 'outdoor', 'nw'), ('wall', 'open_space', 'horizontal'), ('boundary_wall', 'air_conditioned', 'horizontal')]
    for k, w in enumerate(W):
        out['gp', 'wall_' + w] = kinds[k] + (g['wall'][k],)
        where = ('outdoor', w) if det or k < 2 else (('open_space', 'horizontal') if k == 2 else ('air_conditioned', 'horizontal'))
        if g['window'][k] > 0 or (ht == 'detached'):
            out['w', 'window_' + w] = (None,) + where + (g['window'][k],)
        if g['door'][k] > 0:
            out['d', 'door_' + w] = (None,) + where + (g['door'][k],)
    if not (det and floor == 'base'):
        out['gp', 'floor'] = ('floor', 'open_underfloor', 'downward', g['floor']) if det else ('downward_boundary_floor', 'air_conditioned', 'downward', g['floor'])
    if det:
        for k, w in enumerate(W):
            if g['base_area'][k] > 0:
                out['gp', 'base_outside_' + w] = ('wall', 'outdoor', w, g['base_area'][k])
            if g['base_len'][k] > 0:
                out['p', 'earth_floor_perimeter_' + w] = (None, 'outdoor', None, g['base_len'][k])
        if floor == 'floor':
            out['gp', 'base_inside'] = ('wall', 'open_underfloor', 'horizontal', g['base_area_in'])
            out['p', 'earth_floor_perimeter_inside'] = (None, 'open_underfloor', None, g['base_len_in'])
        out['c', 'earth_floor'] = (None, None, None, g['earth'])
    return out


def houses(job):
    ht, floor, bath, areas, shares, envs = job
    from heat_load_calc.convert import model_house as mh
    t = Tally()
    for area in areas:
        for r_open in shares:
            for e in envs:
                ref0 = reference(ht, area, r_open, floor, bath)
                env = None if e is None else e * ref0['total']
                case = {'house': ht, 'floor': floor, 'bath': bath, 'floor area': area, 'openings': r_open, 'envelope': env}
                g = reference(ht, area, r_open, floor, bath, env)
                s = ees.attempt(lambda: mh.calc_area(house_type=ht, a_f_total=area, r_open=r_open, floor_ins_type=floor, bath_ins_type=bath, a_env_input=env))
                if isinstance(s, Exception):
                    t.fail('geometry: %r' % s, case)
                    continue
                for nm, k, w in (('floor areas', 'a_f', g['a_f']), ('shape factors', 'f_s', g['fs']), ('long and short sides', 'l_ms', [x[0] for x in g['sides']]), ('sides', 'l_os', [x[1] for x in g['sides']]),
                                 ('perimeters', 'l_prm', [2 * sum(x) for x in g['sides']]), ('earth floor', 'a_evp_ef_total', g['earth']), ('insulated floor', 'a_evp_f_total', g['floor']), ('roof', 'a_evp_roof', g['roof']),
                                 ('base outside', 'a_evp_base_total_outside', g['base_area']), ('base inside', 'a_evp_base_total_inside', g['base_area_in']), ('base lengths', 'l_base_total_outside', g['base_len']),
                                 ('base length inside', 'l_base_total_inside', g['base_len_in']), ('envelope without base', 'a_evp_total_not_base', g['not_base']), ('envelope', 'a_evp_total', g['total']),
                                 ('openings', 'a_evp_open_total', g['not_base'] * r_open), ('windows', 'a_evp_window', g['window']), ('doors', 'a_evp_door', g['door']), ('walls', 'a_evp_wall', g['wall'])):
                    t.close(nm, s[k], w, 1e-9, case, rtol=1e-10)
                # the base is that of the entrance, the bath and the rest
                for w, key in (('base', 'a_evp_base_%s'), ('base length', 'l_base_%s')):
                    for side in ('outside', 'inside'):
                        sums = [np.ravel(s[(key % part) + '_' + side]) for part in ('etrc', 'bath', 'other')]
                        t.close('%s by part' % w, sum(sums), np.ravel(s[(key % 'total') + '_' + side]), 1e-9, case)
                for k, w in g['pieces'].items():
                    t.close('entrance, bath and the rest: %s' % k, s[k], w, 1e-9, case, rtol=1e-10)
                t.close('facades', [sum(x) for x in s['a_evp_srf']], g['srf'], 1e-9, case, rtol=1e-10)
                # what the numbers mean: closed rectangles, the whole envelope is accounted for
                if all(f >= 1.0 for f in g['fs']):
                    t.close('rectangles', [x * y for x, y in zip(s['l_ms'], s['l_os'])], s['a_f'], 1e-9, case)
                if env is not None and env >= g['total'] - 1e-9:
                    t.close('envelope as asked', s['a_evp_total'], env, 1e-8, case)
                parts(t, mh, s, ht, floor, g, case)
                t.count(states=1, transitions=1)
                t.outcome((ht, floor, bath, [round(f, 3) for f in g['fs']]))
    return t


def parts(t, mh, s, ht, floor, g, case):
    got = ees.attempt(lambda: mh.get_model_house_no_spec(**s))
    if isinstance(got, Exception):
        t.fail('parts of the house: %r' % got, case)
        return
    gps, ws, ds, eps, ecs = got
    seen = {}
    for k, l in (('gp', gps), ('w', ws), ('d', ds)):
        for x in l:
            seen[k, x.name] = (x.general_part_type.value if k == 'gp' else None, x.next_space.value, x.direction.value, x.area)
    for x in eps:
        seen['p', x.name] = (None, x.next_space.value, None, x.length)
    for x in ecs:
        seen['c', x.name] = (None, None, None, x.area)
    want = parts_of(ht, floor, g)
    if t.check('list of parts', set(k for k, v in seen.items() if abs(v[3]) > 1e-12) == set(k for k, v in want.items() if abs(v[3]) > 1e-12), case,
               'got %s' % sorted(set(seen) ^ set(want))):
        for k, v in want.items():
            if k in seen:
                t.check('kind of %s' % k[1], seen[k][:3] == v[:3], case, '%r instead of %r' % (seen[k], v))
                t.close('size of a part', seen[k][3], v[3], 1e-9, dict(case, part=k), rtol=1e-10)
    t.check('names are unique', len(seen) == sum(map(len, got)), case, 'two parts have one name')
    t.close('parts make up the envelope', sum(x.area for x in gps + ws + ds + ecs), s['a_evp_total'], 1e-8, case)
    # only parts that see outdoors have a defined shade
    for x in gps + ds:
        w = {'is_defined': True, 'input': 'not_input'} if x.next_space.value == 'outdoor' else {'is_defined': False}
        t.check('shade of a part', x.sunshade.get_as_dict() == w, dict(case, part=x.name), repr(x.sunshade.get_as_dict()))
    for x in ws:
        if x.next_space.value in ('outdoor', 'open_space'):
            t.check('overhang of a window', x.sunshade.get_as_dict() == {'is_defined': True, 'input': 'simple', 'depth': 0.3, 'd_h': 1.0, 'd_e': 0.0}, dict(case, part=x.name), repr(x.sunshade.get_as_dict()))


def refused(job):
    """what this kind of house does not have must be 0; anything else is refused, and all it may have is accepted"""
    ht, floor = job
    from heat_load_calc.convert import model_house as mh
    t = Tally()
    det = ht == 'detached'
    base = floor == 'base'
    may = {'a_evp_ef_total': det, 'a_evp_f_total': not det or not base, 'l_base_total_outside': [det and base, det, det, det and base], 'l_base_total_inside': det and not base, 'a_evp_roof': True,
           'a_evp_base_total_outside': [det and base, det, det, det and base], 'a_evp_base_total_inside': det and not base, 'a_evp_window': [True, True, True, det],
           'a_evp_door': [False, det, True, False], 'a_evp_wall': [True] * 4}
    names = [(k, i) for k, v in may.items() for i in (range(4) if isinstance(v, list) else (None,))]
    for n in (0, 1, 2):
        for on in itertools.combinations(names, n):
            for size in (1e-3, 7.0):
                kw = {k: (tuple(size * ((k, i) in on) for i in range(4)) if isinstance(v, list) else size * ((k, None) in on)) for k, v in may.items()}
                ok = all(may[k] if i is None else may[k][i] for k, i in on)
                case = {'house': ht, 'floor': floor, 'given': on, 'size': size}
                got = ees.attempt(lambda: mh.get_model_house_no_spec(house_type=ht, floor_ins_type=floor, **kw))
                t.count(states=1, transitions=1)
                if t.check('refusal of parts', isinstance(got, Exception) != ok, case, 'got %r' % (got,)) and ok:
                    total = sum(getattr(x, 'length', None) or getattr(x, 'area', 0.0) for l in got for x in l)
                    t.close('sizes of the parts given', total, size * len(on), 1e-12, case)
                t.outcome((ht, floor, on, ok))
    return t


KINDS = (('detached', 'floor', 'base'), ('detached', 'floor', 'floor'), ('detached', 'floor', 'not_exist'), ('detached', 'base', None), ('attached', None, None), ('detached', 'base', 'floor'), ('detached', 'base', 'base'),
         ('detached', 'base', 'not_exist'), ('attached', 'floor', 'base'), ('attached', 'base', 'floor'))


def explore(run):
    k = 4 if run.thorough else 1
    areas = [40.0 + 10.0 * i / k for i in range(22 * k)] + [300.0, 420.0, 1000.0]
    shares = [0.06, 0.1, 0.14, 0.2, 0.3] if not run.thorough else [0.05 + 0.01 * i for i in range(30)]
    envs = [None] + [0.8 + 0.05 * i for i in range(17)]
    run.bounds = {'houses': KINDS, 'floor area': '40-1000 m2 in %d steps' % len(areas), 'share of openings': shares, 'envelope area': 'default and 0.8-1.6 of it in 17 steps'}
    run.pmap(refused, [('detached', 'floor'), ('detached', 'base'), ('attached', None), ('attached', 'floor'), ('attached', 'base')])
    run.pmap(houses, [kd + (areas[i::8], shares, envs) for kd in KINDS for i in range(8)])


if __name__ == '__main__':
    runner.main('C27', 'model_checking', 'one per kind of house x floor area x openings x envelope', explore)
