"""C18 schedules: every step of the year for every list of rooms and number of residents; the table itself."""
import itertools

import numpy as np

from mc import runner, sched
from mc.runner import Tally

NAMES = ('heat generation', 'moisture generation', 'local ventilation', 'persons', 'demand')


def call(n_p, names, areas):
    from heat_load_calc.initializer import schedule_loader
    return schedule_loader.get_compiled_schedules(n_p=n_p, room_name_is=list(names), a_floor_is=np.array(areas))


def judge(t, d, n_p, names, areas):
    case = {'residents': n_p, 'rooms': names, 'floor areas': areas}
    got = call(n_p, names, areas)
    want = sched.rooms(d, names, areas, n_p)
    alt = sched.rooms(d, names, areas, n_p, exchanged=True)
    for k, nm in enumerate(NAMES):
        g = np.asarray(got[k])
        if not t.check('shape', g.shape == (len(names), 35040), case, '%s %s' % (nm, g.shape)):
            continue
        # room by room so that a defect of one room is not hidden by the recorded one of another
        for i in range(len(names)):
            t.close(nm, g[i], want[k][i], 1e-12 if k == 1 else 1e-9, dict(case, room=names[i]), rtol=1e-12,
                    sig_if=[('KF-COOKING', alt[k][i])] if k < 2 and not np.allclose(want[k][i], alt[k][i], rtol=0, atol=1e-15) else [])
        t.check('not negative', np.all(g >= -1e-12), case, nm)
    t.check('demand is a share', np.all(np.asarray(got[4]) <= 1 + 1e-12), case, 'above one')
    t.check('persons at home', np.all(np.asarray(got[3]).sum(axis=0) <= n_p + 1e-9) or len(set(names)) < len(names), case, 'more persons than residents')
    t.count(states=35040 * len(names), transitions=35040 * len(names))
    return got


def residents(job):
    n_p, lists = job
    t = Tally()
    d = sched.table()
    for k, names in enumerate(lists):
        areas = [((29.8 + 13.1 * i), (0.4 + 171.3 * i), (410.0 - 61.7 * i))[k % 3] for i in range(len(names))]
        got = judge(t, d, n_p, names, areas)
        t.outcome((round(n_p, 6), names, round(float(got[0].sum()), 3)))
    t.count(traces_validated_against_impl=1)
    return t


def table(job):
    """laws of the table that the yearly schedules inherit"""
    t = Tally()
    d = sched.table()
    t.check('days of the year', len(d['calendar']) == 365 and set(d['calendar']) == set(sched.DAYS), {}, 'calendar')
    # 1 January is a Sunday in the calendar year of the weather: no working day on Sundays
    t.check('Sundays are holidays', all(d['calendar'][i] != '平日' for i in range(0, 365, 7)), {}, 'working day on a Sunday')
    for n, r, k in itertools.product('1234', sched.ROOMS, sched.DAYS):
        for what, v in d['daily_schedule'][n][r][k].items():
            t.check('96 steps a day', len(v) == 96 and min(v) >= 0, {'n': n, 'room': r, 'day': k, 'item': what}, 'length or sign')
            t.count(states=1, transitions=1)
    t.outcome('table')
    return t


def numbers(job):
    from heat_load_calc.initializer import residents_number
    t = Tally()
    step = 0.001 if job else 0.01
    prev = 0.0
    for k in range(int(round(220 / step)) + 1):
        a = k * step
        n = residents_number.get_total_number_of_residents(a_floor_total=a)
        t.close('number of residents', n, sched.residents(a), 1e-12, {'floor area': a})
        t.check('grows with the house', n >= prev - 1e-12, {'floor area': a}, str(n))
        prev = n
        t.count(states=1, transitions=1)
    for a in (30.0, 120.0, 29.999999, 119.999999, 60.0):
        t.close('number of residents', residents_number.get_total_number_of_residents(a_floor_total=a), sched.residents(a), 1e-9, {'floor area': a})
    # outside the table is refused, inside accepted
    for n_p in (0.0, 0.999, 4.001, 5.0, -1.0):
        try:
            call(n_p, ('main_occupant_room',), (30.0,))
            t.fail('number of residents outside the table accepted', {'residents': n_p})
        except ValueError:
            pass
        t.count(transitions=1)
    t.outcome('numbers')
    return t


def repeat(job):
    """calls do not disturb each other"""
    t = Tally()
    confs = [(1.0, ('main_occupant_room',), (40.0,)), (2.5, sched.ROOMS, (30.0, 50.0, 40.0)), (4.0, ('non_occupant_room', 'main_occupant_room'), (9.0, 20.0))]
    base = [call(*c) for c in confs]
    for w in itertools.product(range(3), repeat=2):
        for k in w:
            g = call(*confs[k])
            for a, b in zip(g, base[k]):
                t.close('same whatever was asked before', a, b, 0.0, {'calls': w})
            for a in g:
                a *= 0.0        # the caller may use its own arrays as it likes
            t.count(transitions=1)
    d = sched.table()
    for a in ((30.0, 50.0, 40.0), (30.0, 50.01, 40.0), (30.04, 49.96, 40.0), (40.0, 30.0, 50.0), (30.0, 50.0, 40.0)):
        judge(t, d, 2.5, sched.ROOMS, a)
    t.outcome('repeat')
    return t


def close_together(job):
    """numbers of residents that lie close together, upwards and downwards, in one process"""
    c, names = job
    t = Tally()
    d = sched.table()
    near = sorted({round(c + k * s, 9) for s in (0.0004, 0.003, 0.02) for k in range(-2, 3) if 1 <= c + k * s <= 4})
    for n_p in near + near[::-1]:
        judge(t, d, n_p, names, (30.0, 50.0, 40.0))
    t.outcome(('close', c, names))
    return t


def explore(run):
    run.bounds = {'residents': '1..4 in steps of 1/12 (thorough 1/60)', 'room lists': 'all orders and subsets of the three rooms, repetitions up to 2', 'steps': 35040, 'close together': 'pairs of numbers of residents 0.0004 to 0.04 apart, in both directions'}
    run.assumptions = ['the shipped table of daily schedules is the data to be represented']
    lists = [p for n in (1, 2, 3) for p in itertools.permutations(sched.ROOMS, n)]
    few = [sched.ROOMS, ('non_occupant_room', 'main_occupant_room')]
    k = 60 if run.thorough else 12
    ns = sorted({1 + i / k for i in range(3 * k + 1)} | {1 + 1e-9, 2 - 1e-9, 3 - 1e-9, 4 - 1e-9, 2.0, 3.0})
    rep = [(a, b) for a in sched.ROOMS for b in sched.ROOMS]
    run.pmap(residents, [(n, (lists + rep) if (run.thorough or abs(n * 2 - round(n * 2)) < 1e-12) else few) for n in ns])
    run.pmap(close_together, list(itertools.product((1.0, 2.0, 2.5, 3.0, 4.0), (sched.ROOMS, sched.ROOMS[::-1]))))
    run.merge(table(None))
    run.merge(numbers(run.thorough))
    run.merge(repeat(None))


if __name__ == '__main__':
    runner.main('C18', 'model_checking', 'one per step of the year x room x number of residents', explore)
