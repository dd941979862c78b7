"""C22 radiant exchange between surfaces, what occupants see, and where radiant heat and sun go."""
import itertools

import numpy as np

from mc import bench, coreexp, family, ref, runner
from mc.house import House, boundary, space, spec_mass, spec_steady
from mc.runner import Tally

AREAS = (0.3, 2.0, 8.0, 35.0)


def rooms(job):
    """all assignments of areas and rooms to n boundaries"""
    n, nroom, part, nparts = job
    t = Tally()
    from heat_load_calc.core import shape_factor
    for q, areas in enumerate(itertools.product(AREAS, repeat=n)):
        if q % nparts != part:
            continue
        for room in itertools.product(range(nroom), repeat=n):
            if set(room) != set(range(nroom)):
                continue
            a = np.array(areas).reshape(-1, 1)
            p = np.array([[1 if r == i else 0 for i in range(nroom)] for r in room])
            case = {'areas': areas, 'rooms': room}
            h = np.asarray(shape_factor.get_h_r_js(a_srf_js=a, p_js_is=p), float)
            t.count(states=1, transitions=1)
            exp = np.zeros(n)
            for i in range(nroom):
                m = np.array(room) == i
                exp[m] = ref.h_r_of(np.array(areas)[m])
            if not t.close('radiant coefficient', h.reshape(-1), exp, 1e-6, case, rtol=1e-6):
                continue
            f = np.asarray(shape_factor.get_f_mrt_is_js(a_srf_js=a, h_r_js=h, p_is_js=p.T), float)
            t.close('weights of a room sum to one', f.sum(1), 1.0, 1e-12, case)
            t.close('surfaces of other rooms have no weight', f * (1 - p.T), 0.0, 0.0, case)
            # exchange conserves energy for any surface temperatures
            ts = np.arange(n) * 3.0 + 5.0
            qr = (h * a).reshape(-1) * (p @ (f @ ts) - ts)
            t.close('radiant exchange conserves energy', p.T @ qr, 0.0, 1e-9, case, rtol=0)
            t.outcome((tuple(sorted(np.round(exp, 6))),))
    return t


def many(job):
    """rooms of many surfaces: all numbers of surfaces of up to three areas, alone and as one of two rooms whose surfaces alternate"""
    n, thorough = job
    t = Tally()
    from heat_load_calc.core import shape_factor
    tri = [c for c in itertools.combinations(AREAS, 3)]
    for areas in tri:
        for k0 in range(0, n + 1, 1 if thorough else 2):
            for k1 in range(0, n + 1 - k0, 1 if thorough else 3):
                a = np.array([areas[0]] * k0 + [areas[1]] * k1 + [areas[2]] * (n - k0 - k1))
                small = np.array([1.0, 4.0, 9.0, 0.5])
                case = {'areas': areas, 'numbers': (k0, k1, n - k0 - k1)}
                t.count(states=1, transitions=1)
                h = np.asarray(shape_factor.get_h_r_js(a_srf_js=a.reshape(-1, 1), p_js_is=np.ones((n, 1))), float).reshape(-1)
                exp = ref.h_r_of(a)
                if not t.close('radiant coefficient of many surfaces', h, exp, 1e-6, case, rtol=1e-6):
                    continue
                # the same room next to a small one, the surfaces of the small one spread among those of the large one
                pos = sorted({0, n // 3, n // 2 + 1, n - 1})[:4]
                both, room = list(a), [0] * n
                for q, x in zip(reversed(pos), small):
                    both.insert(q, x)
                    room.insert(q, 1)
                room = np.array(room)
                p = np.array([room == 0, room == 1]).T.astype(float)
                h = np.asarray(shape_factor.get_h_r_js(a_srf_js=np.array(both).reshape(-1, 1), p_js_is=p), float)
                t.close('radiant coefficient of many surfaces next to a small room', h.reshape(-1)[room == 0], exp, 1e-6, case, rtol=1e-6)
                t.close('radiant coefficient of a small room next to a large one', h.reshape(-1)[room == 1], ref.h_r_of(np.array(both)[room == 1]), 1e-6, case, rtol=1e-6)
                f = np.asarray(shape_factor.get_f_mrt_is_js(a_srf_js=np.array(both).reshape(-1, 1), h_r_js=h, p_is_js=p.T), float)
                t.close('weights of a room sum to one', f.sum(1), 1.0, 1e-12, case)
                t.outcome((n, areas, k0, k1))
    return t


def floors(job):
    """shares of occupants' view and of radiant systems, all floor patterns"""
    t = Tally()
    from heat_load_calc.initializer import a12_indoor_radiative_heat_transfer as a12
    from heat_load_calc.initializer import occupants_form_factor as off
    for n in range(1, 6 if not job else 7):
        for areas in itertools.product(AREAS[:3], repeat=n):
            for fl in itertools.product((False, True), repeat=n):
                a, f = np.array(areas), np.array(fl)
                case = {'areas': areas, 'floor': fl}
                v = np.asarray(off.get_f_mrt_hum_is(a_bdry_i_js=a, is_floor_bdry_i_js=f), float)
                t.count(states=1, transitions=1)
                if f.all() or not f.any():
                    exp = a / a.sum()
                else:
                    exp = np.where(f, a / a[f].sum() * 0.45, a / a[~f].sum() * 0.55)
                t.close('view factors of the occupants', v, exp, 1e-12, case)
                t.close('view factors sum to one', v.sum(), 1.0, 1e-12, case)
                for rad in (True, False):
                    g = np.asarray(a12.get_flr_i_js(area_i_js=a, is_radiative_heating=rad, is_floor_i_js=f), float)
                    e = np.zeros(n) if not rad else a / a.sum() if not f.any() else np.where(f, a / a[f].sum(), 0.0)
                    t.close('shares of the radiant system', g, e, 1e-12, case)
                t.outcome((n, fl))
    return t


def inside(job):
    """in the running building: all radiant heat and all transmitted sun arrive somewhere; every pattern of absorbing and emitting surfaces"""
    heat, cool, small = job
    t = Tally()
    for pat in itertools.product((0, 1), repeat=4):
        ab = np.array(pat if any(pat) else (1, 1, 1, 1))
        for flo in ((0,), (1, 3), (0, 1, 2, 3)):
            areas = (20.0, 12.0, 3.0, 15.0) if not small else (0.4, 12.0, 0.05, 0.7)
            af = sum(areas[j] for j in flo)
            sp = (spec_mass(**family.WALL), spec_mass(**family.SLAB), spec_steady(0.22), spec_mass(**family.LIGHT))
            bs = [boundary(j, 0, areas[j], (2.5, 0.7, 2.5, 5.0)[j], sp[j], sol=bool(pat[j]), floor=j in flo, flr=areas[j] / af if j in flo else 0.0)
                  for j in range(4)]
            h = House([space(0, 34.0, mech=0.006, natural=0.04, heat=heat, cool=cool, heat_cap=800., cool_cap=500., beta=0.3)], bs, family.alphabet(1, 4))
            I, m = bench.Impl(h), ref.Model(h)
            c = I.initial()
            word = coreexp.de_bruijn(6, 2)
            for n, k in enumerate(word):
                c, o = I.step(c, k)
                L = h.letters[k]
                case = {'absorbing': pat, 'areas': areas, 'floor': flo, 'heating': heat, 'cooling': cool, 'word': word[:n + 1]}
                t.count(states=1, transitions=1)
                conv = m.h_c * m.A * (o['tr'][0] - o['ts'])
                rad = m.h_r * m.A * ((m.F @ o['ts'])[0] - o['ts'])
                arrived = (o['q'] * m.A - conv - rad)
                t.close('sun and radiant load arrive at the surfaces', arrived.sum(), 0.5 * L['q_trs'][0] + 0.7 * o['lr'][0], 1e-6, case)
                sun = ab * m.A / (ab @ m.A) * 0.5 * L['q_trs'][0]
                t.close('where the sun and the radiant load arrive', arrived, sun + m.flr * 0.7 * o['lr'][0], 1e-6, case)
                t.outcome((pat, flo, o['lr'][0] > 1, o['lr'][0] < -1))
    t.count(traces_validated_against_impl=1)
    return t


def explore(run):
    jobs = [(n, r, p, 8) for n, r in (((1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (3, 2), (4, 2)) if not run.thorough else
            ((1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (6, 1), (7, 1), (3, 2), (4, 2), (5, 2), (6, 2), (4, 3), (5, 3))) for p in range(8)]
    run.pmap(rooms, jobs)
    ns = (8, 9, 12, 18, 25, 31) if not run.thorough else range(8, 41)
    run.pmap(many, [(n, run.thorough) for n in ns])
    run.bounds['surfaces of large rooms'] = list(ns)
    run.pmap(floors, [run.thorough])
    run.pmap(inside, list(itertools.product(('radiative', 'convective'), ('radiative', 'convective'), (False, True))))


if __name__ == '__main__':
    runner.main('C22', 'model_checking',
                'every assignment of areas and rooms to up to five (thorough: seven) boundaries, rooms of up to 31 (thorough: 40) surfaces of three areas in all numbers, every floor pattern, every pattern of absorbing surfaces driven '
                'through all pairs of letters; distinct = configurations', explore)
