"""C13 weather: every step of the year of every climate region and interval, and every order of two calls."""
import os

import numpy as np

from mc import history, runner, sky
from mc.house import TempDir
from mc.runner import Tally

COLS = [('temperature', 0, 5.1e-4), ('normal direct solar radiation', 1, 1e-9), ('horizontal sky solar radiation', 2, 1e-9),
        ('outward radiation', 3, 1e-9), ('absolute humidity', 4, 5.1e-7)]


def frame(region, interval, **kw):
    from heat_load_calc.weather import weather
    return weather.make_weather(region=region, interval=interval, **kw)


def region(job):
    r, thorough = job
    import pandas as pd
    t = Tally()
    rec = sky.record(r)
    keep = {}
    for interval, n in sky.N_HOUR.items():
        case = {'region': r, 'interval': interval}
        d = frame(r, interval)
        keep[interval] = d
        ok = t.check('length of the year', len(d) == 8760 * n, case, '%d rows' % len(d))
        t.check('columns', {c for c, _, _ in COLS} | {'sun altitude', 'sun azimuth'} <= set(d.columns), case, str(list(d.columns)))
        if not ok:
            continue
        step = pd.Timedelta(3600 // n, 's')
        want_index = [pd.Timestamp('1989-01-01') + step * i for i in range(8760 * n)]
        t.check('time stamps', list(d.index) == want_index, case, 'stamps are not the steps of a year of 365 days from 1 January 0:00')
        want = np.array([sky.at(rec, i // n, i % n, n) for i in range(8760 * n)])
        for c, k, tol in COLS:
            t.close(c, d[c].values, want[:, k], tol, case)
        # at the full hours the record itself, midnight of 1 January is midnight of 31 December
        for c, k, tol in COLS:
            t.close('%s at full hours' % c, np.roll(d[c].values[::n], -1), [x[k] for x in rec], tol, case)
        # direct radiation and night radiation are not negative
        for c in ('normal direct solar radiation', 'horizontal sky solar radiation', 'absolute humidity'):
            t.check('%s not negative' % c, np.all(d[c].values >= 0), case, 'negative')
        t.count(states=8760 * n, transitions=8760 * n, traces_validated_against_impl=1)
        t.outcome((r, interval, float(d['temperature'].sum())))
        # the written file carries the same numbers
        with TempDir() as td:
            e = frame(r, interval, output_data_dir=td, csv_output=True)
            f = os.path.join(td, 'weather.csv')
            t.check('file written where asked', os.listdir(td) == ['weather.csv'], case, str(os.listdir(td)))
            if os.path.exists(f):
                g = pd.read_csv(f, index_col=0, parse_dates=True)
                t.check('file time stamps', list(g.index) == list(d.index), case, 'differ')
                for c in d.columns:
                    t.close('file %s' % c, g[c].values, d[c].values, 1e-12, case, rtol=1e-12)
                    t.close('same call twice %s' % c, e[c].values, d[c].values, 0.0, case)
    for interval in ('1h', '30m'):
        k = 4 // sky.N_HOUR[interval]
        if interval in keep and '15m' in keep and len(keep['15m']) == 35040 and len(keep[interval]) * k == 35040:
            for c in keep['15m'].columns:
                tol = {'temperature': 1e-9, 'absolute humidity': 1e-12}.get(c, 1e-9)
                t.close('intervals agree %s' % c, keep[interval][c].values, keep['15m'][c].values[::k], tol, {'region': r, 'interval': interval})
    t.sample({'region': r, 'noon 1 Jan': {c: float(keep['15m'][c].values[48]) for c in keep['15m'].columns}})
    return t


def pairs(job):
    """what a call returns does not depend on the calls before it"""
    first, others = job
    t = Tally()
    base = {}
    for o in others:
        base[o] = frame(*o)
        frame(*first)
        again = frame(*o)
        for c in base[o].columns:
            t.close('independent of earlier calls', again[c].values, base[o][c].values, 0.0, {'earlier': first, 'call': o})
        t.count(transitions=1)
    t.outcome(first)
    return t


CALLS = [(5, '1h'), (5, '30m'), (2, '1h'), (8, '15m'), (2, '30m')]


def one_call(c, d):
    """written into a folder, over what is there"""
    e = frame(c[0], c[1], output_data_dir=d, csv_output=True)
    return dict(history.texts(d), returned=e.to_csv())


def explore(run):
    run.bounds = {'regions': 8, 'intervals': list(sky.N_HOUR), 'steps': 'all of the year'}
    run.assumptions = ['the hourly records shipped with the code are the data to be represented', 'temperature is kept to 3 and humidity to 6 decimals as documented']
    run.pmap(region, [(r, run.thorough) for r in range(1, 9)])
    confs = [(r, i) for r in range(1, 9) for i in sky.N_HOUR]
    if run.thorough:
        run.pmap(pairs, [(c, confs) for c in confs])
    else:
        run.pmap(pairs, [((r, '30m'), [(r % 8 + 1, '15m'), (r, '1h')]) for r in range(1, 9)])
    run.bounds['words of calls into one folder'] = history.explore(run, one_call, CALLS, [str(c) for c in CALLS], 3 if run.thorough else 2)
    # an unknown region or interval is refused
    for r, i in ((0, '15m'), (9, '15m'), (3, '10m'), (3, '15')):
        try:
            frame(r, i)
            run.fail('unknown region or interval accepted: %s %s' % (r, i), {'region': r, 'interval': i})
        except Exception:  # noqa
            pass
        run.count(transitions=1)


if __name__ == '__main__':
    runner.main('C13', 'model_checking', 'one per climate region x interval x step of the year, and per ordered pair of calls', explore)
