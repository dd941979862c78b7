"""C06 equilibrium: the steady state of the physical network is the unique attractor of the time step."""
import itertools

import numpy as np

from mc import bench, coreexp, family, ref, runner
from mc.house import House, boundary, space, spec_mass, spec_steady
from mc.runner import Tally

FAST = dict(rtot=0.8, a0=0.12, t0=0.05, r=(0.88, 0.6, 0.2))
QUICKER = dict(rtot=0.4, a0=0.15, t0=0.3, r=(0.5, 0.2, 0.05))


def fast(h0):
    """the same house with quickly responding elements, so that equilibrium is reached within the explored histories"""
    import copy
    bs = copy.deepcopy(h0.boundaries)
    for b in bs:
        s = b['spec']
        if any(s['phi_a1']):
            rt = s['phi_a0'] + sum(a / (1 - r) for a, r in zip(s['phi_a1'], s['r']))
            b['spec'] = spec_mass(**dict(FAST if s['phi_t0'] < 0.1 else QUICKER, rtot=rt))
    h = House(h0.spaces, bs, h0.letters)
    h.building, h.name = h0.building, h0.name
    return h


def defects_of(name):
    if name in family.VENT_HOUSES:
        return {'vnext_defect': True}, 'KF-INTERVENT'
    if name in family.ASYM_HOUSES:
        return {'rear_defect': True}, 'KF-REAR'
    return None, None


def uniform(job):
    """everything at one temperature stays there: no flow arises from nothing"""
    name, dt = job
    t = Tally()
    h0 = family.by_name(name)
    kw, sig = defects_of(name)
    letters = []
    for T0, x0 in itertools.product((-24.0, -10.0, 0.0, 7.5, 20.0, 31.0, 43.0), (0.002, 0.012)):
        L = dict(h0.letters[0])
        L.update(theta_o=T0, x_o=x0, ac=[0.0] * h0.ni, n_hum=[0.0] * h0.ni, q_gen=[0.0] * h0.ni, x_gen=[0.0] * h0.ni,
                 q_trs=[0.0] * h0.ni, theta_o_sol=None)
        letters.append(L)
    h = House(h0.spaces, h0.boundaries, letters)
    h.building = h0.building
    I, m = bench.Impl(h, dt), ref.Model(h, dt)
    c0 = I.initial()
    for k, L in enumerate(letters):
        T0, x0 = L['theta_o'], L['x_o']
        c = bench.craft(c0, mode=[4] * h.ni, tr=[T0] * h.ni, mrt=[T0] * h.ni, x=[x0] * h.ni, tf=[T0] * h.ni, xf=[x0] * h.ni,
                        ei=[T0] * h.nj, q=[0.0] * h.nj)
        c.theta_dsh_srf_a_js_ms_n = np.zeros((h.nj, 12))
        c.theta_dsh_srf_t_js_ms_n = m.t1 / (1.0 - m.rr) * T0
        case = {'house': name, 'delta_t': dt, 'T0': T0, 'x0': x0}
        for n in range(3):
            c, o = I.step(c, k)
            t.count(transitions=1, states=1)
            if name in family.VENT_HOUSES:
                # the recorded defects make and destroy heat and moisture here: C01, C03 and the equilibria below list them
                break
            t.close('uniform temperature is kept', np.r_[o['tr'], o['ts'], o['tf'], o['mrt'], o['rear'], o['ei']], T0, 1e-9, case)
            t.close('no heat flow at uniform temperature', np.r_[o['q'], o['lc'], o['lr']], 0.0, 1e-8, case)
            t.close('uniform humidity is kept', np.r_[o['x'], o['xf']] * 1e3, x0 * 1e3, 1e-9, case)
        t.outcome((name, T0, x0))
    return t


def attract(job):
    """from every explored history, a constant letter leads to the equilibrium of the network, whatever happened before"""
    name, dt, pre, nmax, with_ac, tol = job
    t = Tally()
    h0 = fast(family.by_name(name))
    kw, sig = defects_of(name)
    letters = [dict(L) for L in h0.letters]
    nbase = len(letters)
    for k in (0, 1, 2, 4):
        L = dict(h0.letters[k])
        L['ac'] = [0.0] * h0.ni
        letters.append(L)
    if with_ac:
        for k in (0, 1):
            L = dict(h0.letters[k])
            L['ac'] = [1.0] * h0.ni
            letters.append(L)
    h = House(h0.spaces, h0.boundaries, letters)
    h.building = h0.building
    I, m = bench.Impl(h, dt), ref.Model(h, dt)
    for k in range(nbase, len(letters)):
        L = letters[k]
        c = I.initial()
        for q in pre:
            c, _ = I.step(c, q)
        case = {'house': name, 'delta_t': dt, 'history': pre, 'then': {'theta_o': L['theta_o'], 'ac': L['ac']}}
        last = None
        settled = False
        for n in range(nmax):
            c, o = I.step(c, k)
            t.count(transitions=1)
            cur = np.r_[o['tr'], o['ts'], o['tf']]
            if n % 8 == 7:
                if last is not None and np.max(np.abs(cur - last)) < 1e-9:
                    settled = True
                    break
                last = cur
        t.count(states=1)
        free = not any(L['ac'])
        if not settled:
            if free:
                t.fail('does not settle: still moving after %d constant steps' % nmax, case)
            t.count(not_settled=1)
            continue
        mode = [int(v) for v in o['mode']]
        st = bench.state_of(c)
        s = m.dc_ac(L, mode, st['x'])
        a = m.dc_ac(L, mode, st['x'], **kw) if kw else None
        for nm, key, tl in (('air temperature', 'tr', tol), ('surface temperature', 'ts', tol), ('furniture temperature', 'tf', tol),
                            ('operative temperature', 'ot', tol), ('convective load', 'lc', tol * 200), ('radiant load', 'lr', tol * 200)):
            t.close('equilibrium %s' % nm, o[key], s[key], tl, case, sig_if=[(sig, a[key])] if a else None)
        # moisture: what comes in goes out
        if free and not m.Vn.any():
            v = coreexp.flow_out(m, L, o)
            qh = np.array([ref.x_hum(x) for x in o['tr']]) * np.asarray(L['n_hum'], float)
            if np.all(v > 2e-3):
                for _ in range(4000):
                    prev = o['x']
                    c, o = I.step(c, k)
                    t.count(transitions=1)
                    if max(abs(o['x'] - o['xf']).max(), abs(o['x'] - prev).max()) < 1e-12:
                        break
                t.close('equilibrium humidity', o['x'] * 1e3, (L['x_o'] + (np.asarray(L['x_gen'], float) + qh) / (ref.RHO * v)) * 1e3, 1e-5, case)
        t.outcome((name, dt, k, tuple(mode), tuple(np.round(s['tr'], 1))))
    return t


def explore(run):
    run.assumptions = ['quickly responding elements are used so that the equilibrium is reached within the bound; the equilibrium itself is '
                       'independent of the response speed', 'conditioned equilibria are judged only when the modes settle']
    names = [h.name for h in family.houses()]
    dts = (900.0, 1800.0, 3600.0) if run.thorough else (900.0, 3600.0)
    run.pmap(uniform, [(n, dt) for n in names for dt in (300.0, 600.0, 900.0, 1800.0, 3600.0)])
    pres = [[]] + [list(p) for p in (itertools.product(range(6), repeat=2) if run.thorough else ((1,) * 12, (0, 3) * 6))]
    run.bounds.update({'houses': names, 'histories before the constant letter': pres, 'constant letters': 6, 'max steps': 1500})
    pairs = list(itertools.product(dts, pres)) if run.thorough else [(900.0, pres[0]), (3600.0, pres[1])]
    run.pmap(attract, [(n, dt, p, 1500, True, 2e-6) for n in names for dt, p in pairs])


if __name__ == '__main__':
    runner.main('C06', 'model_checking',
                'every (house, interval, history, constant letter) is run with the real step until it stops moving and the state reached is '
                'compared with the equilibrium of the conductance network; uniform states are fixed points; distinct = equilibria', explore)
