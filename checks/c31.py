"""C31 rooms, ventilation, glazing, airtightness and air conditioners sized from the floor areas of a home: grids against the formulas."""
import itertools
import math

from mc import ees, runner
from mc.runner import Tally

GLASS = {'3WgG': (.54, .34, .12), '3WsG': (.33, .22, .08), '3LgG': (.59, .37, .14), '3LsG': (.37, .25, .10), '2LgG': (.64, .38, .15), '2LsG': (.40, .26, .11)}
GLASS.update({k: (.79, .38, .17) for k in ('2FAheatreflect1', '2FAheatreflect2', '2FAheatreflect3', '2FAheatabsorb2', '2FAmulti', '2FAsingle')})
GLASS.update({k: (.88, .38, .19) for k in ('Theatreflect1', 'Theatreflect2', 'Theatreflect3', 'Theatabsorb2', 'Tsingle')})
SHADE = ('None', 'Shoji', 'ExtarnalBlind')
FRAME = ('WoodOrResin', 'Steel')


def conditioners(step):
    import numpy as np
    from heat_load_calc.external import rac
    t = Tally()
    a = np.arange(0.0, 120.0 + step, step)
    want_c = [min(190.5 * x + 45.6, 5600.0) for x in a]
    want_h = [1.2090 * x - 85.1 for x in want_c]
    mx_c = [max(.8462 * x + 1205.9, x) for x in want_c]
    mx_h = [max(1.7597 * x - 413.7, y) for x, y in zip(mx_c, want_h)]
    h, c = rac.get_q_rtd(a)
    t.close('rated capacity', [h, c], [want_h, want_c], 1e-9, {'areas': 'all'})
    h2, c2 = rac.get_q_max(np.array(want_h), np.array(want_c))
    t.close('greatest capacity', [h2, c2], [mx_h, mx_c], 1e-9, {'areas': 'all'})
    for x in list(a) + [29.157, 29.158, 29.1569, 29.16]:
        h, c = rac.get_q_rtd(np.array([x]))
        wc = min(190.5 * x + 45.6, 5600.0)
        wh = 1.2090 * wc - 85.1
        case = {'area': float(x)}
        t.close('rated capacity', [h[0], c[0]], [wh, wc], 1e-9, case)
        t.count(states=1, transitions=1)
    # capacities beyond those of floor areas: both branches of the limits
    for q in range(0, 20001, 50):
        for f in (.5, 1.0, 1.209, 1.7, 2.2, 3.0):
            qc, qh = float(q), f * q
            h, c = rac.get_q_max(np.array([qh]), np.array([qc]))
            wc = max(.8462 * qc + 1205.9, qc)
            t.close('greatest capacity', [h[0], c[0]], [max(1.7597 * wc - 413.7, qh), wc], 1e-9, {'q_rtd_c': qc, 'q_rtd_h': qh})
            t.count(states=1, transitions=1)
        v = rac.get_v_max(float(q))
        t.close('greatest air flow', v, 11.076 * (q / 1000.0) ** .3432, 1e-10, {'q': q})
        t.close('least air flow', rac.get_v_min(v), .55 * v, 1e-10, {'q': q})
        t.outcome(round(v, 1))
    t.close('least capacity', [rac.get_q_min_h(), rac.get_q_min_c()], [500.0, 500.0], 0.0, {})
    return t


def airtightness(_):
    from heat_load_calc.initializer import estimate_c_value as e
    t = Tally()
    for s, k in (('rc', 4.16), ('src', 4.16), ('wooden', 8.28), ('steel', 8.28)):
        for n in range(0, 601):
            ua = n / 100.0
            t.close('equivalent leakage area', e.estimate_c_value(ua, e.Structure(s)), k * ua, 1e-12, {'structure': s, 'UA': ua})
            t.count(states=1, transitions=1)
    t.check('unknown structure refused', isinstance(ees.attempt(lambda: e.Structure('stone')), Exception), {}, 'accepted')
    t.outcome('airtightness')
    return t


def rooms(_):
    from heat_load_calc.convert import convert_lv4_to_h_hlc as c
    t = Tally()
    for mr, orr, nr, uf, n in itertools.product((0.0, 12.4, 29.81, 60.0), (0.0, 17.3, 51.34), (0.0, 6.0, 38.93), (0.0, 3.31, 55.0), (0.0, .5, .7)):
        a = mr + orr + nr
        case = {'main': mr, 'other': orr, 'non': nr, 'underfloor': uf, 'air changes': n}
        got = ees.attempt(lambda: c.make_initial_rooms(a_a=a, a_mr=mr, a_or=orr, a_nr=nr, a_uf=uf, n=n, v_nv_mr=5.0, v_nv_or=7.0))
        t.count(states=1, transitions=1)
        if mr <= 0:
            t.check('home without main room refused', isinstance(got, Exception), case, 'accepted')
            continue
        if isinstance(got, Exception):
            t.fail('rooms: %r' % got, case)
            continue
        fresh = a * 2.4 * n * 1.1
        vm, vo = fresh * mr / (mr + orr), fresh * orr / (mr + orr)
        want = ((mr, 'main_occupant_room', 2.4, vm, 5.0), (orr, 'other_occupant_room', 2.4, vo, 7.0), (nr, 'non_occupant_room', 2.4, 0.0, 0.0), (uf, 'underfloor', .4, 0.0, 0.0))
        for r, (area, nm, height, vent, nv) in zip(got, want):
            if area <= 0:
                t.check('no room without floor', r is None, case, repr(r))
                continue
            if not t.check('room with floor', r is not None, case, nm):
                continue
            t.check('name of a room', r['name'] == nm and r['room_type'] == nm, case, repr(r))
            t.close('room', [r['volume'], r['vent'], r['natural_vent_time'], r['c_value']], [area * height, vent, nv, 5.0], 1e-9, dict(case, room=nm), rtol=1e-12)
            nxt = {x['upstream_room_name']: x['volume'] for x in r['next_vent']}
            wn = {}
            if nm == 'non_occupant_room':
                wn['main'] = vm
                if orr > 0:
                    wn['other'] = vo
            t.check('rooms the air comes from', set(nxt) == set(wn), dict(case, room=nm), repr(nxt))
            for k in set(nxt) & set(wn):
                t.close('air from a room', nxt[k], wn[k], 1e-9, dict(case, room=nm))
        t.close('fresh air of the home', sum(r['vent'] for r in got if r), fresh, 1e-9, case, rtol=1e-12)
        t.outcome([round(r['vent'], 2) if r else None for r in got])
    for w in itertools.product((('underfloor', 3.0), ('underfloor', 2.5), ('main_occupant_room', 7.0), ('non_occupant_room', 1.0)), repeat=3):
        ecs = [{'area': x, 'space_type': s} for s, x in w]
        t.close('floor under the floor', c.get_a_uf(ecs=ecs), sum(x for s, x in w if s == 'underfloor'), 1e-12, {'earth floors': w})
        t.count(states=1, transitions=1)
    return t


def glazing(_):
    from heat_load_calc.convert import convert_lv4_to_h_hlc as c
    t = Tally()

    def eta(f, g, s):
        return GLASS[g][SHADE.index(s)] * (.72 if f == 'WoodOrResin' else .8)

    words = list(itertools.product(FRAME, GLASS, SHADE))
    for f, g, s in words:
        t.close('glass', c.get_eta_from_specification(f, g, s), eta(f, g, s), 1e-12, {'window': (f, g, s)})
        t.close('single window', c.get_eta({'EtaInputMethod': 'InputSpecification', 'TypeWindow': 'Single', 'TypeFrame': f, 'TypeGlass': g, 'TypeShade': s}), eta(f, g, s), 1e-12, {'window': (f, g, s)})
        t.outcome(round(eta(f, g, s), 5))
        t.count(states=2, transitions=2)
    for (f1, g1, s1), (f2, g2, s2) in itertools.product(words, words[::3] + words[1::7]):
        k = .72 if f1 == f2 == 'WoodOrResin' else .8
        d = {'EtaInputMethod': 'InputSpecification', 'TypeWindow': 'Double', 'TypeFrameInside': f1, 'TypeGlassInside': g1, 'TypeShadeInside': s1, 'TypeFrameOutside': f2, 'TypeGlassOutside': g2, 'TypeShadeOutside': s2}
        t.close('double window', c.get_eta(d), eta(f1, g1, s1) * eta(f2, g2, s2) * 1.06 / k, 1e-12, {'inside': (f1, g1, s1), 'outside': (f2, g2, s2)})
        t.count(states=1, transitions=1)
    for f1, f2, a, b in itertools.product(FRAME, FRAME, (.1, .5, .9), (.2, .6)):
        k = .72 if f1 == f2 == 'WoodOrResin' else .8
        t.close('double window', c.get_eta({'EtaInputMethod': 'InputValue', 'TypeWindow': 'Double', 'EtaInside': a, 'EtaOutside': b, 'TypeFrameInside': f1, 'TypeFrameOutside': f2}), a * b * 1.06 / k, 1e-12, {'eta': (a, b)})
        t.close('single window', c.get_eta({'EtaInputMethod': 'InputValue', 'TypeWindow': 'Single', 'Eta': a}), a, 0.0, {'eta': a})
        t.count(states=2, transitions=2)
    for bad in ({'EtaInputMethod': 'other', 'TypeWindow': 'Single'}, {'EtaInputMethod': 'InputSpecification', 'TypeWindow': 'Single', 'TypeFrame': 'Gold', 'TypeGlass': 'Tsingle', 'TypeShade': 'None'}):
        t.check('unknown window refused', isinstance(ees.attempt(lambda: c.get_eta(bad)), Exception), bad, 'accepted')
    return t


def run_job(job):
    f, a = job
    return f(a)


def explore(run):
    run.bounds = {'floor areas': '0-120 m2', 'divisions of the floor': '4 x 3 x 3 x 3 with 3 air change rates', 'glazing': '2 frames x 17 glasses x 3 shades, single and in pairs', 'structures': 4}
    run.pmap(run_job, [(conditioners, .01 if run.thorough else .1), (airtightness, None), (rooms, None), (glazing, None)])


if __name__ == '__main__':
    runner.main('C31', 'model_checking', 'one per floor area, capacity, division of the floor, glazing', explore)
