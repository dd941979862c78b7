"""Reference for weather, sun, radiation on surfaces, windows and shading, written from the specification only."""
import math
import os

import numpy as np

from mc import runner

N_HOUR = {'1h': 1, '30m': 2, '15m': 4}
SITES = {1: (43.82, 143.91), 2: (43.21, 141.79), 3: (39.70, 141.17), 4: (36.66, 138.20),
         5: (36.55, 139.87), 6: (34.66, 133.92), 7: (31.94, 131.42), 8: (26.21, 127.685)}
PREFIX = {1: '01', 2: '02', 3: '03', 4: '04', 5: '05', 6: '06', 7: '07', 8: '08'}
DIRECTIONS = {'s': (0, 90), 'sw': (45, 90), 'w': (90, 90), 'nw': (135, 90), 'n': (180, 90), 'ne': (-135, 90), 'e': (-90, 90),
              'se': (-45, 90), 'top': (0, 0), 'bottom': (0, 180)}
C_D = {'single': 0.9, 'multiple': 0.832}


def record(region):
    """hourly record of a site: list of 5-tuples (temperature, direct normal, sky, outward, humidity ratio kg/kg), first is 1 o'clock"""
    d = os.path.join(runner.REPO, 'heat_load_calc', 'weather', 'expanded_amedas')
    f = [n for n in sorted(os.listdir(d)) if n.startswith(PREFIX[region])]
    assert len(f) == 1, f
    rows = open(os.path.join(d, f[0]), encoding='utf-8-sig').read().splitlines()[2:]
    out = []
    for r in rows:
        c = r.split(',')
        out.append((float(c[2]), float(c[3]), float(c[4]), float(c[5]), float(c[6]) / 1000.0))
    assert len(out) == 8760
    return out


def at(rec, region_hour, part, n):
    """value of the record `part` n-ths of an hour after `region_hour` o'clock (hour 0 = midnight = 24 o'clock of the last day)"""
    a = rec[(region_hour - 1) % 8760]
    b = rec[region_hour % 8760]
    w = part / n
    return tuple(x + (y - x) * w for x, y in zip(a, b))


def sun_vector(region, hour):
    """unit vector (south, west, up) of the sun `hour` hours after 1 January 0:00 of 1989"""
    lat, lon = SITES[region]
    day = int(hour // 24) + 1
    tm = hour - 24.0 * (day - 1)
    n = 1989 - 1968
    d0 = 3.71 + 0.2596 * n - int((n + 3) / 4)
    m = 360.0 * (day - d0) / 365.2596                      # mean anomaly, deg
    eps = 12.3901 + 0.0172 * (n + m / 360.0)               # perihelion to winter solstice, deg
    v = m + 1.914 * math.sin(math.radians(m)) + 0.02 * math.sin(math.radians(2 * m))
    g = math.radians(2 * (v + eps))
    et = (m - v) - math.degrees(math.atan(0.043 * math.sin(g) / (1 - 0.043 * math.cos(g))))
    sd = -math.cos(math.radians(v + eps)) * math.sin(math.radians(23.4393))
    cd = math.sqrt(1 - sd * sd)
    w = math.radians((tm - 12.0) * 15.0 + (lon - 135.0) + et)
    p = math.radians(lat)
    # equatorial (towards the meridian, west, north pole) rotated by the latitude
    mer, west, pole = cd * math.cos(w), cd * math.sin(w), sd
    return (mer * math.sin(p) - pole * math.cos(p), west, mer * math.cos(p) + pole * math.sin(p))


def sun(region, interval):
    """altitude and azimuth (from south, west positive) at every step of the year"""
    k = N_HOUR[interval]
    v = np.array([sun_vector(region, i / k) for i in range(8760 * k)])
    return np.arcsin(v[:, 2]), np.arctan2(v[:, 1], v[:, 0])


def direction_vector(h, a):
    return np.stack([np.cos(h) * np.cos(a), np.cos(h) * np.sin(a), np.sin(h)])


def normal(alpha, beta):
    """outward normal of a surface facing `alpha` (from south, west positive) tilted `beta` from facing up"""
    return np.array([np.sin(beta) * np.cos(alpha), np.sin(beta) * np.sin(alpha), np.cos(beta)])


def cos_incidence(h, a, alpha, beta):
    d = np.tensordot(normal(alpha, beta), direction_vector(h, a), 1)
    return np.maximum(d, 0.0)


def components(i_dn, i_sky, h, a, alpha, beta):
    """direct, sky and ground-reflected radiation on the surface"""
    fs = np.cos(beta / 2) ** 2
    glob = i_sky + i_dn * np.maximum(np.sin(h), 0.0)
    return i_dn * cos_incidence(h, a, alpha, beta), fs * i_sky, (1 - fs) * 0.1 * glob


def tau(kind, c):
    t1 = c * (2.552 + c * (1.364 + c * (-11.388 + c * (13.617 - c * 5.146))))
    if kind == 'single':
        return t1
    r1 = 1 + c * (-5.189 + c * (12.392 + c * (-16.593 + c * (11.851 - c * 3.461))))
    with np.errstate(divide='ignore', invalid='ignore'):
        return np.where(c > 1e-9, t1 * t1 / (1 - r1 * r1), 0.0)      # grazing: tends to zero


def overhang_direct(h, a, alpha, depth, height, gap):
    """shaded share of the height of a window below an infinitely long overhang"""
    v = direction_vector(h, a)
    n = v[0] * np.cos(alpha) + v[1] * np.sin(alpha)          # horizontal distance towards the wall per unit path
    out = np.zeros(np.shape(h))
    up = (h > 0) & (n > 0)
    drop = depth * v[2][up] / n[up]
    out[up] = np.minimum(np.maximum((drop - gap) / height, 0), 1)
    return out


def overhang_sky(depth, height, gap):
    """view factor window -> overhang strip as a share of the window, by the crossed strings of the infinite strip"""
    # strings from the wall edge and the tip of the overhang to the top and bottom of the window
    tip_top, tip_bottom = math.hypot(gap, depth), math.hypot(gap + height, depth)
    root_top, root_bottom = gap, gap + height
    return (tip_top + root_bottom - root_top - tip_bottom) / (2 * height)


def transmitted(w, i_dn, i_sky, h, a, drop_direct=False):
    """W through a window w = dict(area, eta, glass, direction, sun, shade=None|(depth, height, gap))"""
    if not w['sun']:
        return np.zeros(np.shape(h))
    al, be = (math.radians(x) for x in DIRECTIONS[w['direction']])
    d, s, g = components(i_dn, i_sky, h, a, al, be)
    fd, fs = 0.0, 0.0
    if w.get('shade'):
        fd, fs = overhang_direct(h, a, al, *w['shade']), overhang_sky(*w['shade'])
    elif drop_direct:
        fd = 1.0
    c = cos_incidence(h, a, al, be)
    return w['area'] * w['eta'] * ((1 - fd) * tau(w['glass'], c) * d + C_D[w['glass']] * ((1 - fs) * s + g))


def outside_temperature(b, theta, i_dn, i_sky, r_n, h, a):
    """temperature the outer side of element b sees"""
    kind = b['boundary_type']
    if kind == 'internal':
        return np.zeros(np.shape(theta))
    if kind == 'ground':
        return np.full(np.shape(theta), math.fsum(theta) / len(theta))
    if not b['is_sun_striked_outside']:
        return np.asarray(theta, float)
    al, be = (math.radians(x) for x in DIRECTIONS[b['direction']])
    q = -b['outside_emissivity'] * np.cos(be / 2) ** 2 * r_n
    if kind != 'external_transparent_part':
        q = q + b['outside_solar_absorption'] * sum(components(i_dn, i_sky, h, a, al, be))
    return theta + q * b['outside_heat_transfer_resistance']
