"""C28 coefficients of the standard: neighbouring space, orientation, shade; every combination and grids of overhangs."""
import itertools

from mc import ees, runner
from mc.runner import Tally


def next_spaces(_):
    from heat_load_calc.external.factor_h import NextSpace
    t = Tally()
    for s, r in itertools.product(ees.NEXT, ees.REGIONS):
        got = ees.attempt(lambda: NextSpace(s).get_h(region=r))
        ees.agree(t, 'temperature difference coefficient', got, ees.h(s, r), {'space': s, 'region': r})
        t.count(states=1, transitions=1)
        t.outcome((s, got))
    for s in ees.NEXT:
        t.check('sun strikes', NextSpace(s).get_is_sun_striked_outside() is (s == 'outdoor'), {'space': s}, 'wrong')
    for d, r, s in itertools.product(ees.DIRECTIONS, ees.REGIONS, ees.SEASONS):
        from heat_load_calc.external.factor_nu import Direction
        got = ees.attempt(lambda: Direction(d).get_nu(region=r, season=s))
        ees.agree(t, 'orientation coefficient', got, ees.attempt(lambda: ees.nu(d, r, s)), {'direction': d, 'region': r, 'season': s})
        t.count(states=1, transitions=1)
        t.outcome((d, r, s, repr(got)))
    for d in ees.DIRECTIONS:
        t.check('is horizontal', Direction(d).is_horizontal() is (d in ees.COMPASS + ('horizontal',)), {'direction': d}, 'wrong')
    return t


def windows(job):
    depth, heights, offsets = job
    from heat_load_calc.convert import factor_f
    from heat_load_calc.external.factor_nu import Direction
    t = Tally()
    for d_h, d_e in itertools.product(heights, offsets):
        sh = {'is_defined': True, 'input': 'simple', 'depth': depth, 'd_h': d_h, 'd_e': d_e}
        o = factor_f.SunshadeTransient.make_sunshade_transient(d=sh)
        for d, r, s in itertools.product(ees.DIRECTIONS, ees.REGIONS, ees.SEASONS):
            got = ees.attempt(lambda: o.get_f(region=r, season=s, direction=Direction(d)))
            ees.agree(t, 'shade of a window', got, ees.attempt(lambda: ees.f_window(sh, d, r, s)), {'shade': sh, 'direction': d, 'region': r, 'season': s})
            t.outcome((d, r, s, repr(got)))
        t.count(states=208, transitions=208)
    return t


def kinds(_):
    """every kind of shade: value or refusal, reading, writing, what is handed to the calculation"""
    from heat_load_calc.convert import factor_f
    from heat_load_calc.external.factor_nu import Direction
    t = Tally()
    for sh in ees.WINDOW_SHADES:
        o = ees.attempt(lambda: factor_f.SunshadeTransient.make_sunshade_transient(d=dict(sh)))
        if not t.check('read', not isinstance(o, Exception) and o is not None, sh, repr(o)):
            continue
        t.check('written as read', o.get_as_dict() == sh, sh, 'got %r' % o.get_as_dict())
        kind = sh.get('input') if sh['is_defined'] else None
        want = {'existence': kind in ('not_input', 'simple', 'complex')}
        if kind == 'not_input':
            want['input_method'] = 'default'
        elif kind == 'simple':
            want.update(input_method='simple', depth=sh['depth'], d_h=sh['d_h'], d_e=sh['d_e'])
        elif kind == 'complex':
            want.update(ees.KERNEL, input_method='detailed')
        t.check('handed on', o.make_initializer_dict() == want, sh, 'got %r' % o.make_initializer_dict())
        for d, r, s in itertools.product(ees.DIRECTIONS, ees.REGIONS, ees.SEASONS):
            got = ees.attempt(lambda: o.get_f(region=r, season=s, direction=Direction(d)))
            ees.agree(t, 'shade of a window', got, ees.attempt(lambda: ees.f_window(sh, d, r, s)), {'shade': sh, 'direction': d, 'region': r, 'season': s})
            t.count(states=1, transitions=1)
    for sh in ees.OPAQUE_SHADES:
        o = factor_f.SunshadeOpaque.make_sunshade_opaque(d=dict(sh))
        t.check('written as read', o.get_as_dict() == sh, sh, 'got %r' % o.get_as_dict())
        want = dict(ees.KERNEL, existence=True, input_method='detailed') if sh.get('input') == 'complex' else {'existence': False}
        t.check('handed on', o.make_initializer_dict() == want, sh, 'got %r' % o.make_initializer_dict())
        for d, r, s in itertools.product(ees.DIRECTIONS, ees.REGIONS, ees.SEASONS):
            got = ees.attempt(lambda: o.get_f_sh(region=r, season=s, direction=Direction(d)))
            ees.agree(t, 'shade of an opaque part', got, ees.attempt(lambda: ees.f_opaque(sh)), {'shade': sh, 'direction': d, 'region': r, 'season': s})
            t.count(states=1, transitions=1)
    for k in ('', 'none', None, 'Simple', 'detailed'):
        bad = {'is_defined': True, 'input': k}
        for f in (factor_f.SunshadeTransient.make_sunshade_transient, factor_f.SunshadeOpaque.make_sunshade_opaque):
            t.check('unknown kind refused', isinstance(ees.attempt(lambda: f(d=bad)), Exception), bad, 'accepted')
            t.count(states=1, transitions=1)
    return t


def explore(run):
    n = 25 if run.thorough else 7
    heights = [round(0.1 + 3.0 * k / (n - 1), 4) for k in range(n)]
    offsets = [round(1.5 * k / (n - 1), 4) for k in range(n)]
    depths = [0.02, 0.1, 0.3, 0.6, 0.91, 1.2, 1.8, 3.0] + ([0.05, 0.2, 0.45, 0.75, 1.5, 2.4, 4.0, 6.0] if run.thorough else [])
    run.bounds = {'regions': 8, 'seasons': 2, 'directions': 13, 'next spaces': 6, 'overhangs': '%d depths x %d heights x %d offsets' % (len(depths), n, n)}
    run.assumptions = ['the tables of the standard are transcribed in mc/ees.py']
    run.merge(next_spaces(None))
    run.merge(kinds(None))
    run.pmap(windows, [(d, heights, offsets) for d in depths])


if __name__ == '__main__':
    runner.main('C28', 'model_checking', 'one per coefficient x direction x region x season x shade', explore)
