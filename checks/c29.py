"""C29 indices of an envelope: all multisets of parts; the rounding and the surface resistances they are worked out with."""
import copy
import itertools
from fractions import Fraction

from mc import ees, runner
from mc.runner import Tally

WALL = {'structure': 'other', 'u_value_other': 0.53, 'weight': 'light'}
STEEL = {'structure': 'steel', 'u_r_value_steel': .1, 'r_srf_in': .11, 'r_srf_ex': .04, 'parts': [
    {'name': 'p', 'part_area_ratio': .8, 'layers': [ees.LAYERS[1]]}, {'name': 'q', 'part_area_ratio': .2, 'layers': [ees.LAYERS[0], ees.LAYERS[3]]}]}
SIMPLE = dict(ees.SIMPLE[0], is_defined=True, input='simple')
NOT = {'is_defined': False}
POOL = (('part', ees.part(WALL, 'wall', 'outdoor', 's', area=20.0)), ('part', ees.part(STEEL, 'wall', 'outdoor', 'ne', area=11.0)),
        ('part', ees.part(WALL, 'floor', 'open_underfloor', 'downward', NOT, 30.0)), ('part', ees.part(WALL, 'boundary_wall', 'air_conditioned', 'horizontal', NOT, 15.0)),
        ('part', ees.part(WALL, 'roof', 'outdoor', 'top', area=25.0)),
        ('window', ees.window('outdoor', 'sw', area=4.0)), ('window', ees.window('outdoor', 's', SIMPLE, 6.0)), ('window', ees.window('open_space', 'horizontal', NOT, 2.0)),
        ('door', ees.door('outdoor', 'n')), ('door', ees.door('closed_space', 'horizontal', NOT)),
        ('perimeter', ees.perimeter('outdoor', 8.0)), ('perimeter', ees.perimeter('open_underfloor', 3.0, psi=1.8)), ('center', ees.center(7.0)))
KEY = {'part': 'general_parts', 'window': 'windows', 'door': 'doors', 'perimeter': 'earthfloor_perimeters', 'center': 'earthfloor_centers'}


def indices(items, region):
    """area, heat loss, solar gain of a list of parts"""
    a = sum(d['area'] for k, d in items if k != 'perimeter')
    q = sum(ees.q(k, d, region) for k, d in items if k != 'center')
    mm = [sum(ees.m(k, d, region, s) for k, d in items if k in ('part', 'window', 'door')) if not (s == 'heating' and region == 8) else None for s in ees.SEASONS]
    return q / a, None if mm[0] is None else mm[0] / a * 100.0, mm[1] / a * 100.0


def multisets(job):
    first, n = job
    from heat_load_calc.convert import check_ua_a_eta_a as cue
    t = Tally()
    for rest in itertools.combinations_with_replacement(range(first, len(POOL)), n - 1):
        ids = (first,) + rest
        items = [POOL[k] for k in ids]
        if sum(d['area'] for k, d in items if k != 'perimeter') == 0:
            continue
        env = {v: [] for v in KEY.values()}
        for j, (k, d) in enumerate(items):
            env[KEY[k]].append(dict(copy.deepcopy(d), name='n%d' % j))
        keep = copy.deepcopy(env)
        for r in ees.REGIONS if n <= 2 else (1, 6, 8):
            got = ees.attempt(lambda: cue.check_u_a_and_eta_a(r, env))
            want = indices(items, r)
            case = {'parts': ids, 'region': r}
            if isinstance(got, Exception):
                t.fail('indices: %r' % got, case)
                continue
            for nm, g, w in zip(('UA', 'eta A heating', 'eta A cooling'), got, want):
                if w is None:
                    t.check('no heating season', g is None, case, repr(g))
                else:
                    t.close(nm, g, w, 1e-12, case, rtol=1e-10)
            t.outcome(got)
            t.count(states=1, transitions=1)
        t.check('input kept', env == keep, {'parts': ids}, 'the envelope was changed')
    return t


def many(job):
    """many pieces of one name, small and large"""
    from heat_load_calc.convert import check_ua_a_eta_a as cue
    t = Tally()
    for n, items in job:
        if sum(d['area'] for k, d in items if k != 'perimeter') == 0:
            continue
        env = {v: [] for v in KEY.values()}
        for k, d in items:
            env[KEY[k]].append(copy.deepcopy(d))
        for r in (1 + n % 8, 8):
            case = {'pieces': n, 'region': r}
            got = ees.attempt(lambda: cue.check_u_a_and_eta_a(r, env))
            t.count(states=1, transitions=1)
            if isinstance(got, Exception):
                t.fail('indices: %r' % got, case)
                continue
            t.close('indices of many pieces', [g for g in got if g is not None], [w for w in indices(items, r) if w is not None], 1e-12, case, rtol=1e-10)
    t.outcome('many')
    return t


def rounding(job):
    lo, hi = job
    from heat_load_calc.convert import general_functions as g
    t = Tally()
    for k in range(lo, hi):
        for digit in (0, 1, 2, 3, 4, 5):
            # halves to sixty-fourths: ties at 0..5 digits that binary numbers can hold; multiples of 1/80 and values between ties
            for x in (k / 2.0, k / 8.0, k / 16.0, k / 64.0, k / 80.0, k / 1000.0 + 0.0003):
                f = Fraction(x) * 10 ** digit
                near = f + Fraction(1, 2) if f >= 0 else -f + Fraction(1, 2)
                want = (near.numerator // near.denominator) * (1 if f >= 0 else -1) / 10 ** digit
                tie = abs(f * 2 - round(f * 2)) < Fraction(1, 10 ** 9) and round(f * 2) % 2 == 1
                if tie and Fraction(x) * 64 != round(Fraction(x) * 64):
                    continue                     # not a tie in binary, but the product may be rounded to one
                t.close('rounded', g.round_num(x, digit), want, 1e-12, {'number': x, 'digits': digit})
                t.count(states=1, transitions=1)
    t.outcome(job)
    return t


def surfaces(_):
    from heat_load_calc.convert import a_06_common_items as a6
    t = Tally()
    for p, s in itertools.product(ees.PARTS + ('door', ''), ees.NEXT):
        boundary = p in ('boundary_wall', 'upward_boundary_floor', 'downward_boundary_floor')
        bad = p not in ees.PARTS or (p == 'ceiling' and s == 'outdoor') or (boundary and s != 'air_conditioned')
        got = ees.attempt(lambda: a6.get_r_surf(p, s))
        case = {'part': p, 'next space': s}
        if bad:
            t.check('impossible pair refused', isinstance(got, Exception), case, 'got %r' % (got,))
        elif isinstance(got, Exception):
            t.fail('surface resistances: %r' % got, case)
        else:
            t.close('surface resistances', got, (ees.R_IN[p], .04 if s == 'outdoor' else ees.R_IN[p]), 0.0, case)
        t.count(states=1, transitions=1)
    t.outcome('surfaces')
    return t


def run_job(job):
    f, a = job
    return f(a)


def explore(run):
    n = 5 if run.thorough else 3
    k = 40000 if run.thorough else 8000
    run.bounds = {'parts in an envelope': '1-%d out of %d kinds, with repetition' % (n, len(POOL)), 'regions': '8 (3 for three parts and more)', 'rounded numbers': '%d in 6 digits' % (6 * 2 * k)}
    jobs = [(multisets, (f, m)) for m in range(n, 0, -1) for f in range(len(POOL))]
    words = list(enumerate(ees.repeats(POOL)))
    jobs += [(many, words[i::8]) for i in range(8)]
    jobs += [(rounding, (lo, lo + k // 8)) for lo in range(-k, k, k // 8)] + [(surfaces, None)]
    run.pmap(run_job, jobs)


if __name__ == '__main__':
    runner.main('C29', 'model_checking', 'one per multiset of parts x region, number x digits, part x space', explore)
