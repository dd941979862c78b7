"""C14 sun position: every step of the year of every climate region and interval, and a grid of other sites."""
import math

import numpy as np

from mc import runner, sky
from mc.runner import Tally

TWO_PI = 2 * math.pi


def circ(a, b):
    return np.abs((a - b + math.pi) % TWO_PI - math.pi)


def code(lat, lon, interval):
    from heat_load_calc.weather import solar_position
    return solar_position.calc_solar_position(phi_loc=math.radians(lat), lambda_loc=math.radians(lon), interval=interval)


def judge(t, h, a, site, interval, case):
    """against the formulas of the specification and against laws of the apparent motion"""
    n = sky.N_HOUR[interval]
    old = sky.SITES.get('x')
    sky.SITES['x'] = site
    hr, ar = sky.sun('x', interval)
    if old is None:
        del sky.SITES['x']
    if not t.check('length', len(h) == 8760 * n and len(a) == 8760 * n, case, str(len(h))):
        return
    t.close('altitude', h, hr, 1e-7, case)
    # azimuth means nothing when the sun is overhead
    w = np.cos(hr)
    t.close('azimuth', circ(np.asarray(a), ar) * w, 0.0, 1e-6, case)
    t.check('azimuth range', np.all(np.abs(a) <= math.pi + 1e-12), case, 'outside -pi..pi')
    day = np.asarray(h).reshape(365, 24 * n)
    az = np.asarray(a).reshape(365, 24 * n)
    # independent of the day: highest sun of the day within the hour around true noon, in the south (or north in the tropics)
    top = day.max(axis=1)
    noon_dec = top - math.radians(90 - site[0])
    # declination bounded by the obliquity, extreme at the solstices, zero at the equinoxes (calendar of 1989)
    if site[0] > 24.5:
        lim = math.radians(23.46)
        slack = math.radians({1: 1.5, 2: 0.5, 4: 0.3}[n])      # the highest sample is not exactly at noon
        t.check('noon altitude within the tropics', np.all(noon_dec < lim) and np.all(noon_dec > -lim - slack), case, 'declination too large')
        t.check('longest day', abs(int(top.argmax()) - 171) <= {1: 25, 2: 16, 4: 10}[n], case, 'highest sun on day %d' % top.argmax())
        t.check('lowest noon', abs(((int(top.argmin()) - 354 + 182) % 365) - 182) <= {1: 25, 2: 16, 4: 10}[n], case, 'lowest noon on day %d' % top.argmin())
        t.check('equinoxes', abs(noon_dec[79]) < math.radians(0.8) + slack and abs(noon_dec[265]) < math.radians(0.8) + slack, case, 'noon at equinox')
    # morning in the east, afternoon in the west, solar noon within 17 minutes of local mean noon
    shift = (site[1] - 135.0) / 15.0
    hours = np.arange(24 * n) / n + shift
    am = (hours > 0.6) & (hours < 11.4)
    pm = (hours > 12.6) & (hours < 23.4)
    t.check('morning in the east', np.all(az[:, am] < 0), case, 'azimuth not negative')
    t.check('afternoon in the west', np.all(az[:, pm] > 0), case, 'azimuth not positive')
    t.count(states=8760 * n, transitions=8760 * n, traces_validated_against_impl=1)


def region(r):
    from heat_load_calc.weather import weather
    t = Tally()
    for interval in sky.N_HOUR:
        d = weather.make_weather(region=r, interval=interval)
        case = {'region': r, 'interval': interval}
        judge(t, d['sun altitude'].values, d['sun azimuth'].values, sky.SITES[r], interval, case)
        h, a = code(*sky.SITES[r], interval)
        t.close('same in the weather table', np.r_[h, a], np.r_[d['sun altitude'].values, d['sun azimuth'].values], 1e-12, case)
        t.outcome((r, interval, float(np.sum(h))))
    t.sample({'region': r, 'noon 1 Jan': [float(h[48]), float(a[48])]})
    return t


def site(job):
    lat, lon, interval = job
    t = Tally()
    h, a = code(lat, lon, interval)
    judge(t, h, a, (lat, lon), interval, {'latitude': lat, 'longitude': lon, 'interval': interval})
    t.outcome((lat, lon, interval, float(np.sum(h))))
    return t


def near(job):
    """places next to each other asked for one after the other: none gets the sun of its neighbour"""
    lat, lon, interval = job
    t = Tally()
    for d in (0.0, 0.0004, 0.004, 0.04, 0.4, -0.0004, 0.0):
        for e in (0.0, 0.003, 0.03, 0.0):
            h, a = code(lat + d, lon + e, interval)
            judge(t, h, a, (lat + d, lon + e), interval, {'latitude': lat + d, 'longitude': lon + e, 'interval': interval, 'after': 'a neighbour'})
            t.outcome((lat + d, lon + e, interval, float(np.sum(h))))
    return t


def explore(run):
    run.bounds = {'regions': 8, 'intervals': list(sky.N_HOUR), 'steps': 'all of the year'}
    run.assumptions = ['sun position by the formulas of the specification for the year 1989, day-wise declination and equation of time']
    run.pmap(region, range(1, 9))
    run.pmap(near, [(35.0, 136.0, '1h')] + [(43.2, 143.4, i) for i in sky.N_HOUR if run.thorough])
    lats = (20.0, 26.0, 33.3, 41.7, 46.0, 60.0) if run.thorough else (20.0, 33.3, 46.0)
    lons = (122.9, 129.9, 135.0, 140.1, 146.3) if run.thorough else (122.9, 135.0, 146.3)
    run.pmap(site, [(la, lo, i) for la in lats for lo in lons for i in (sky.N_HOUR if run.thorough else ('1h',))])


if __name__ == '__main__':
    runner.main('C14', 'model_checking', 'one per site x interval x step of the year', explore)
