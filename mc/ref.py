"""Reference semantics of one time step, written from the governing equations (docs/derivation/*.adoc) and from
the input files only.  Nothing of heat_load_calc is imported here.

The step is posed as one implicit linear system in (air, surface, furniture temperatures, unknown loads) and is
solved at once; the code under test eliminates the same system by hand.
"""
import math

import numpy as np

from mc import wall

C_AIR, RHO, L_WTR = 1005.0, 1.2, 2501000.0
SIGMA, EPS = 5.67e-8, 0.9
COOLING, HEATING, STOP_OPEN, STOP_CLOSE = 1, 2, 3, 4
HUM_C = 4.0
HUM_R = 4 * 3.96e-8 * 293.15 ** 3
MET = 58.15


# ---------------------------------------------------------------- psychrometrics (Sonntag)
def p_vs(t):
    T = t + 273.15
    if t >= 0.0:
        return math.exp(-6096.9385 / T + 21.2409642 - 2.711193e-2 * T + 1.673952e-5 * T * T + 2.433502 * math.log(T))
    return math.exp(-6024.5282 / T + 29.32707 + 1.0613863e-2 * T - 1.3198825e-5 * T * T - 0.49382577 * math.log(T))


def x_of_p(p):
    return 0.622 * p / (101325.0 - p)


def p_of_x(x):
    return 101325.0 * x / (x + 0.62198)


# ---------------------------------------------------------------- radiation
def form_factors(areas):
    """form factor of each surface seen from a small sphere: f = (1 - sgn*sqrt|1-4a/F|)/2, F such that sum = 1"""
    r = np.asarray(areas, float)
    r = r / r.sum()

    def f(F):
        y = 1.0 - 4.0 * r / F
        return 0.5 * (1.0 - np.sign(y) * np.sqrt(np.abs(y)))
    lo, hi = 1e-9, 1e9
    for _ in range(400):
        mid = math.sqrt(lo * hi)
        if f(mid).sum() > 1.0:
            lo = mid
        else:
            hi = mid
    return f(math.sqrt(lo * hi))


def h_r_of(areas):
    f = form_factors(areas)
    return EPS / (1.0 - EPS * f) * 4.0 * SIGMA * 293.15 ** 3


# ---------------------------------------------------------------- comfort
def pmv(clo, x_r, theta_r, theta_mrt):
    p_a = p_of_x(x_r)
    icl = clo * 0.155
    fcl = 1.0 + 1.29 * icl if icl <= 0.078 else 1.05 + 0.645 * icl
    h = HUM_C + HUM_R
    ot = (HUM_R * theta_mrt + HUM_C * theta_r) / h
    m = MET
    k = 0.303 * math.exp(-0.036 * m) + 0.028
    return k * (m - 3.05e-3 * (5733.0 - 6.99 * m - p_a) - max(0.42 * (m - 58.15), 0.0)
                - 1.7e-5 * m * (5867.0 - p_a) - 0.0014 * m * (34.0 - theta_r)
                - fcl * h * (35.7 - 0.028 * m - ot) / (1.0 + icl * fcl * h))


def ot_for_pmv(clo, x_r, target):
    """operative temperature with air = radiant temperature that gives the target PMV (bisection on pmv)"""
    lo, hi = -100.0, 150.0
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if pmv(clo, x_r, mid, mid) < target:
            lo = mid
        else:
            hi = mid
    return 0.5 * (lo + hi)


def mode_next(prev, demand, x_r, theta_r, theta_mrt):
    """-> (mode, distance of the nearest threshold)"""
    if not demand > 0.0:
        return STOP_CLOSE, math.inf
    hv = pmv(1.1, x_r, theta_r, theta_mrt)
    md = pmv(0.7, x_r, theta_r, theta_mrt)
    lt = pmv(0.3, x_r, theta_r, theta_mrt)
    if prev == HEATING:
        g = min(abs(hv - 0.7), abs(lt - 0.7))
        return (HEATING if hv <= 0.7 else COOLING if lt >= 0.7 else STOP_CLOSE), g
    if prev == COOLING:
        g = min(abs(lt + 0.7), abs(hv + 0.7))
        return (COOLING if lt >= -0.7 else HEATING if hv <= -0.7 else STOP_CLOSE), g
    g = min(abs(lt - 0.7), abs(hv + 0.7), abs(md))
    if lt >= 0.7:
        return COOLING, g
    if hv <= -0.7:
        return HEATING, g
    if prev == STOP_OPEN:
        return (STOP_CLOSE if md <= 0.0 else STOP_OPEN), g
    return (STOP_OPEN if md >= 0.0 else STOP_CLOSE), g


def q_hum(theta_r):
    return min(63.0 - 4.0 * (theta_r - 24.0), 119.0)


def x_hum(theta_r):
    return (119.0 - q_hum(theta_r)) / L_WTR


def leakage(house, theta_r, theta_o):
    v = np.array([s['volume'] for s in house.spaces], float)
    b = house.building
    tav = float(np.sum(np.asarray(theta_r) * v) / v.sum())
    a = {1: 0.022, 2: 0.020}[b['story']]
    bb = {'balanced': {1: 0.0, 2: 0.0}, 'positive': {1: 0.26, 2: 0.14}, 'negative': {1: 0.28, 2: 0.13}}[
        b['inside_pressure']][b['story']]
    n = max(a * b['c_value'] * math.sqrt(abs(tav - theta_o)) - bb, 0.0)
    return n * v / 3600.0


def factors_of(spec, dt):
    """response factors of an element as described in the house file"""
    if spec.get('method', 'response_factor') == 'response_factor':
        return spec
    if spec['method'] == 'u_value':
        a0, t0, a1, t1, r = 1.0 / spec['u_value'] - spec['inside_heat_transfer_resistance'], 1.0, [0.0] * 12, [0.0] * 12, [0.0] * 12
    else:
        cs, rs = [l['thermal_capacity'] for l in spec['layers']], [l['thermal_resistance'] for l in spec['layers']]
        ground = spec['boundary_type'] == 'ground'
        a0, t0, a1, t1, r = wall.factors(wall.ground(cs, rs) if ground else wall.envelope(cs, rs, spec['outside_heat_transfer_resistance']), ground, dt)
    return {'phi_a0': float(a0), 'phi_t0': float(t0), 'phi_a1': list(a1), 'phi_t1': list(t1), 'r': list(r)}


class Model:
    """the house of an input directory"""

    def __init__(self, house, delta_t=900.0):
        self.h = house
        self.dt = delta_t
        bs, ss = house.boundaries, house.spaces
        self.ni, self.nj = len(ss), len(bs)
        self.room = np.array([b['connected_space_id'] for b in bs])
        self.A = np.array([b['area'] for b in bs], float)
        self.h_c = np.array([b['h_c'] for b in bs], float)
        self.h_r = np.zeros(self.nj)
        for i in range(self.ni):
            m = self.room == i
            self.h_r[m] = h_r_of(self.A[m])
        self.h_i = self.h_c + self.h_r
        self.P = (self.room[None, :] == np.arange(self.ni)[:, None]).astype(float)
        w = self.A * self.h_r
        self.F = self.P * w / (self.P @ w)[:, None]
        self.FH = self.P * np.array([b['f_mrt_hum'] for b in bs], float)
        self.flr = np.array([b['flr'] for b in bs], float)
        self.absb = np.array([b['is_solar_absorbed'] == 'True' for b in bs], float)
        for i in range(self.ni):
            if not self.absb[self.room == i].any():
                self.absb[self.room == i] = 1.0
        self.k_o = np.array([b['k_outside'] for b in bs], float)
        self.K = np.zeros((self.nj, self.nj))
        for j, b in enumerate(bs):
            if b['k_inside'] is not None:
                self.K[j, b['k_inside']['id']] = b['k_inside']['coef']
        sp = [factors_of(b['spec'], delta_t) for b in bs]
        self.a0 = np.array([s['phi_a0'] for s in sp], float)
        self.t0 = np.array([s['phi_t0'] for s in sp], float)
        self.a1 = np.array([s['phi_a1'] for s in sp], float)
        self.t1 = np.array([s['phi_t1'] for s in sp], float)
        self.rr = np.array([s['r'] for s in sp], float)
        self.V = np.array([s['volume'] for s in ss], float)
        self.Cr = self.V * C_AIR * RHO
        f = [s['furniture'] for s in ss]
        self.Cf = np.array([q['heat_capacity'] for q in f], float)
        self.Gf = np.array([q['heat_cond'] for q in f], float)
        self.Lf = np.array([q['moisture_capacity'] for q in f], float)
        self.Mf = np.array([q['moisture_cond'] for q in f], float)
        self.beta = np.array([s['beta'] for s in ss], float)
        self.Vex = np.array([s['ventilation']['mechanical'] for s in ss], float)
        self.Vnat = np.array([s['ventilation']['natural'] for s in ss], float)
        self.Vn = np.array([s['ventilation']['next_spaces'] for s in ss], float)
        eq = [s['equipment'] for s in ss]
        self.rad_h = np.array([bool(e['heating']['radiative']['installed']) for e in eq])
        self.rad_c = np.array([bool(e['cooling']['radiative']['installed']) for e in eq])
        self.cap_h = np.array([e['heating']['radiative'].get('max_capacity', 0.0) if r else 0.0
                               for e, r in zip(eq, self.rad_h)])
        self.cap_c = np.array([e['cooling']['radiative'].get('max_capacity', 0.0) if r else 0.0
                               for e, r in zip(eq, self.rad_c)])
        self.rac = [e['cooling']['convective'] for e in eq]
        self.symmetric_rear = all(
            b['k_inside'] is None or abs(self.h_c[j] - self.h_c[b['k_inside']['id']]) < 1e-12
            and abs(self.h_r[j] - self.h_r[b['k_inside']['id']]) < 1e-12
            and (self.A[j] == self.A[b['k_inside']['id']]) for j, b in enumerate(bs))

    # ---- inputs of one letter
    def q_sol(self, L):
        """absorbed transmitted solar: half to the furniture, half spread over absorbing surfaces (all of a room without any) by area"""
        q = np.asarray(L['q_trs'], float)
        aabs = self.P @ (self.A * self.absb)
        per = np.where(aabs > 0, q * 0.5 / np.where(aabs > 0, aabs, 1.0), 0.0)
        return (self.P.T @ per) * self.absb, q * 0.5

    def rear_defect(self, x):
        """recorded defect REAR-H: the rear surface's equivalent temperature is formed with the coefficients of
        the near surface.  x = (theta_r, theta_s, q_sol, load_per_area_numerator) -> K-weighted rear temperature"""
        th_r, th_s, qs, fl = x
        near = (self.h_c * (self.K @ (self.P.T @ th_r)) + self.h_r * (self.K @ (self.P.T @ (self.F @ th_s)))
                + self.K @ qs + (self.K @ fl) / self.A)
        return near / self.h_i

    def predict(self, st, L, mode, v_out, qh, set_ot, lc_fix, lr_fix, unknown, vnext_defect=False, rear_defect=False):
        """solve the step.

        set_ot[i]: operative temperature imposed in room i or None; lc_fix/lr_fix: given loads;
        unknown[i]: 'c' or 'r' when set_ot[i] is not None.
        """
        ni, nj, dt = self.ni, self.nj, self.dt
        N = ni + nj + ni + ni           # theta_r, theta_s, theta_f, load
        R, S, F_, X = slice(0, ni), slice(ni, ni + nj), slice(ni + nj, 2 * ni + nj), slice(2 * ni + nj, N)
        M = np.zeros((N, N))
        y = np.zeros(N)
        qs, qf = self.q_sol(L)
        isr = np.array([u == 'r' for u in unknown])
        isc = np.array([u == 'c' for u in unknown])
        # equivalent temperature operators: theta_ei = Er tr + Es ts + El l + e0
        Er = (self.h_c / self.h_i)[:, None] * self.P.T
        Es = (self.h_r / self.h_i)[:, None] * (self.P.T @ self.F)
        flr_ji = self.P.T * self.flr[:, None] * (1.0 - self.beta)[None, :]
        Elr = flr_ji / self.A[:, None] / self.h_i[:, None]
        e0 = qs / self.h_i + Elr @ lr_fix
        El = Elr * isr[None, :]
        if rear_defect:
            Rr = (self.h_c / self.h_i)[:, None] * (self.K @ self.P.T)
            Rs = (self.h_r / self.h_i)[:, None] * (self.K @ (self.P.T @ self.F))
            Rl = (self.K @ flr_ji) / self.A[:, None] / self.h_i[:, None]
            r0 = (self.K @ qs) / self.h_i + Rl @ lr_fix
            Rl = Rl * isr[None, :]
        else:
            Rr, Rs, Rl, r0 = self.K @ Er, self.K @ Es, self.K @ El, self.K @ e0
        tosol = np.asarray(self.h.theta_o_sol(L), float)
        dst = tosol * self.k_o
        tha = self.a1 * st['q'][:, None] + self.rr * st['ta']
        rear_now = self.K @ st['ei'] + dst
        tht = self.t1 * rear_now[:, None] + self.rr * st['tt']
        # surfaces: ts - a0*h_i*(ei - ts) - t0*(rear) = sum(tha)+sum(tht)
        a0h = (self.a0 * self.h_i)[:, None]
        t0 = self.t0[:, None]
        M[S, R] = -a0h * Er - t0 * Rr
        M[S, S] = np.eye(nj) * (1.0 + a0h) - a0h * Es - t0 * Rs
        M[S, X] = -a0h * El - t0 * Rl
        y[S] = self.a0 * self.h_i * e0 + self.t0 * (r0 + dst) + tha.sum(1) + tht.sum(1)
        # air
        cr = C_AIR * RHO
        hA = self.h_c * self.A
        M[R, R] = np.diag(self.Cr / dt + self.P @ hA + cr * v_out + self.Gf)
        if vnext_defect:
            M[R, R] += cr * self.Vn
        else:
            M[R, R] += cr * (np.diag(self.Vn.sum(1)) - self.Vn)
        M[R, S] = -self.P * hA[None, :]
        M[R, F_] = -np.diag(self.Gf)
        M[R, X] = -np.diag(isc.astype(float) + self.beta * isr)
        y[R] = (self.Cr / dt * st['tr'] + cr * v_out * L['theta_o'] + np.asarray(L['q_gen'], float) + qh
                + lc_fix + self.beta * lr_fix)
        # furniture
        M[F_, R] = -np.diag(self.Gf)
        M[F_, F_] = np.diag(self.Cf / dt + self.Gf)
        y[F_] = self.Cf / dt * st['tf'] + qf
        # load rows
        kc, kr = HUM_C / (HUM_C + HUM_R), HUM_R / (HUM_C + HUM_R)
        for i in range(ni):
            k = 2 * ni + nj + i
            if set_ot[i] is None:
                M[k, k] = 1.0
            else:
                M[k, i] = kc
                M[k, S] += kr * self.FH[i]
                y[k] = set_ot[i]
        u = np.linalg.solve(M, y)
        tr, ts, tf, ld = u[R], u[S], u[F_], u[X]
        lc = lc_fix + ld * isc
        lr = lr_fix + ld * isr
        ei = Er @ tr + Es @ ts + Elr @ lr + qs / self.h_i
        mrt = self.FH @ ts
        return {'tr': tr, 'ts': ts, 'tf': tf, 'lc': lc, 'lr': lr, 'ei': ei, 'q': (ei - ts) * self.h_i,
                'ot': kc * tr + kr * mrt, 'mrt': mrt, 'ta': tha, 'tt': tht, 'rear': rear_now}

    def loads(self, st, L, mode, v_out, qh, x_r, **defects):
        """full reference of the load rule -> solution dict + 'target','natural'"""
        ni = self.ni
        z = np.zeros(ni)
        free = self.predict(st, L, mode, v_out, qh, [None] * ni, z, z, [None] * ni, **defects)
        nat = free['ot']
        d = np.asarray(L['ac'], float)
        setp, unk = [None] * ni, [None] * ni
        gap = math.inf
        target = [None] * ni
        for i in range(ni):
            if mode[i] == HEATING:
                t = ot_for_pmv(1.1, x_r[i], -0.5)
                target[i] = t
                gap = min(gap, abs(nat[i] - t))
                if nat[i] < t:
                    setp[i] = t * d[i] + nat[i] * (1 - d[i])
                    unk[i] = 'r' if self.rad_h[i] else 'c'
            elif mode[i] == COOLING:
                t = ot_for_pmv(0.3, x_r[i], 0.5)
                target[i] = t
                gap = min(gap, abs(nat[i] - t))
                if nat[i] > t:
                    setp[i] = t * d[i] + nat[i] * (1 - d[i])
                    unk[i] = 'r' if self.rad_c[i] else 'c'
        if all(s is None for s in setp):
            sol = free
        else:
            sol = self.predict(st, L, mode, v_out, qh, setp, z, z, unk, **defects)
            lr_fix = np.zeros(ni)
            again = False
            for i in range(ni):
                if unk[i] == 'r':
                    cap_h = self.cap_h[i]
                    cap_c = self.cap_c[i]
                    if sol['lr'][i] > cap_h:
                        lr_fix[i], unk[i], again = cap_h, 'c', True
                    elif sol['lr'][i] < -cap_c:
                        lr_fix[i], unk[i], again = -cap_c, 'c', True
            if again:
                sol = self.predict(st, L, mode, v_out, qh, setp, z, lr_fix, unk, **defects)
        sol['natural'] = nat
        sol['target'] = target
        sol['setp'] = setp
        sol['gap'] = gap
        return sol

    def humidity(self, st, L, v_out, xh, lc, tr, vnext_defect=False):
        ni, dt = self.ni, self.dt
        gl = self.Lf * self.Mf / (self.Lf + dt * self.Mf)
        B = np.diag(RHO * (self.V / dt + v_out) + gl)
        if vnext_defect:
            B -= RHO * self.Vn
        else:
            B += RHO * (np.diag(self.Vn.sum(1)) - self.Vn)
        c = RHO * (self.V / dt * st['x'] + v_out * L['x_o']) + gl * st['xf'] + np.asarray(L['x_gen'], float) + xh
        x0 = np.linalg.solve(B, c)
        B1, c1 = B.copy(), c.copy()
        coil = np.zeros(ni)
        xe = np.zeros(ni)
        near = math.inf
        for i in range(ni):
            q = -lc[i]
            if q > 1e-3:
                r = self.rac[i]
                v = (r['v_min'] + (r['v_max'] - r['v_min']) / (r['q_max'] - r['q_min']) * (q - r['q_min'])) / 60.0
                te = tr[i] - q / (C_AIR * RHO * v * 0.8)
                xe[i] = x_of_p(p_vs(te))
                near = min(near, abs(xe[i] - x0[i]) / max(x0[i], 1e-9))
                if not xe[i] > x0[i]:
                    coil[i] = RHO * v * 0.8
        B1 += np.diag(coil)
        c1 += coil * xe
        x1 = np.linalg.solve(B1, c1)
        xf = (self.Lf * st['xf'] + dt * self.Mf * x1) / (self.Lf + dt * self.Mf)
        return {'x': x1, 'xf': xf, 'lcl': -(coil * (x1 - xe)) * L_WTR, 'x_dry': x0, 'coil': coil, 'xe': xe,
                'near': near}

    # ---- steady state -------------------------------------------------------------------------------------------
    def dc(self, L, v_out, qh, setp, unk, lr_fix, vnext_defect=False, rear_defect=False):
        """steady state of the conductance network (no storage, DC gains of the conduction), loads as in predict()"""
        ni, nj = self.ni, self.nj
        N = 2 * ni + nj
        R, S, X = slice(0, ni), slice(ni, ni + nj), slice(ni + nj, N)
        M, y = np.zeros((N, N)), np.zeros(N)
        isr = np.array([u == 'r' for u in unk])
        isc = np.array([u == 'c' for u in unk])
        qs, qf = self.q_sol(L)
        Er = (self.h_c / self.h_i)[:, None] * self.P.T
        Es = (self.h_r / self.h_i)[:, None] * (self.P.T @ self.F)
        flr = self.P.T * self.flr[:, None] * (1.0 - self.beta)[None, :]
        Elr = flr / self.A[:, None] / self.h_i[:, None]
        El, e0 = Elr * isr[None, :], qs / self.h_i + Elr @ lr_fix
        GA = self.a0 + (self.a1 / (1.0 - self.rr)).sum(1)
        GT1 = (self.t1 / (1.0 - self.rr)).sum(1)
        dst = np.asarray(self.h.theta_o_sol(L), float) * self.k_o
        Kr, Ks, Kl, k0 = self.K @ Er, self.K @ Es, self.K @ El, self.K @ e0
        if rear_defect:
            Dr = (self.h_c / self.h_i)[:, None] * (self.K @ self.P.T)
            Ds = (self.h_r / self.h_i)[:, None] * (self.K @ (self.P.T @ self.F))
            Dl_ = (self.K @ flr) / self.A[:, None] / self.h_i[:, None]
            D0 = (self.K @ qs) / self.h_i + Dl_ @ lr_fix
            Dl = Dl_ * isr[None, :]
        else:
            Dr, Ds, Dl, D0 = Kr, Ks, Kl, k0
        g = (GA * self.h_i)[:, None]
        t0, t1 = self.t0[:, None], GT1[:, None]
        M[S, R] = -g * Er - t0 * Dr - t1 * Kr
        M[S, S] = np.eye(nj) * (1.0 + g) - g * Es - t0 * Ds - t1 * Ks
        M[S, X] = -g * El - t0 * Dl - t1 * Kl
        y[S] = GA * self.h_i * e0 + self.t0 * (D0 + dst) + GT1 * (k0 + dst)
        cr, hA = C_AIR * RHO, self.h_c * self.A
        M[R, R] = np.diag(self.P @ hA + cr * v_out)
        M[R, R] += cr * self.Vn if vnext_defect else cr * (np.diag(self.Vn.sum(1)) - self.Vn)
        M[R, S] = -self.P * hA[None, :]
        M[R, X] = -np.diag(isc.astype(float) + self.beta * isr)
        y[R] = cr * v_out * L['theta_o'] + np.asarray(L['q_gen'], float) + qh + qf + self.beta * lr_fix
        kc, kr = HUM_C / (HUM_C + HUM_R), HUM_R / (HUM_C + HUM_R)
        for i in range(ni):
            k = ni + nj + i
            if setp[i] is None:
                M[k, k] = 1.0
            else:
                M[k, i] = kc
                M[k, S] += kr * self.FH[i]
                y[k] = setp[i]
        u = np.linalg.solve(M, y)
        tr, ts, ld = u[R], u[S], u[X]
        lr = lr_fix + ld * isr
        ei = Er @ tr + Es @ ts + Elr @ lr + qs / self.h_i
        mrt = self.FH @ ts
        return {'tr': tr, 'ts': ts, 'tf': tr + qf / self.Gf, 'lc': ld * isc, 'lr': lr, 'ei': ei, 'q': (ei - ts) * self.h_i, 'mrt': mrt,
                'ot': kc * tr + kr * mrt}

    def dc_ac(self, L, mode, x_r, setfrac=1.0, **defects):
        """steady state with full demand in the given modes; leakage and metabolic heat follow the room temperatures"""
        ni = self.ni
        tr = np.full(ni, 20.0)
        sol = None
        for _ in range(400):
            nat = np.where(np.asarray(mode) == STOP_OPEN, self.Vnat, 0.0)
            v = self.Vex + np.asarray(L['v_loc'], float) + leakage(self.h, tr, L['theta_o']) + nat
            qh = np.array([q_hum(t) for t in tr]) * np.asarray(L['n_hum'], float)
            z = np.zeros(ni)
            sol = self.dc(L, v, qh, [None] * ni, [None] * ni, z, **defects)
            setp, unk = [None] * ni, [None] * ni
            for _k in range(ni + 1):        # rooms whose free temperature misses the target given the others
                new = False
                for i in range(ni):
                    if setp[i] is None and mode[i] == HEATING:
                        t = ot_for_pmv(1.1, x_r[i], -0.5)
                        if sol['ot'][i] < t - 1e-9:
                            setp[i], unk[i], new = t, 'r' if self.rad_h[i] else 'c', True
                    elif setp[i] is None and mode[i] == COOLING:
                        t = ot_for_pmv(0.3, x_r[i], 0.5)
                        if sol['ot'][i] > t + 1e-9:
                            setp[i], unk[i], new = t, 'r' if self.rad_c[i] else 'c', True
                if not new:
                    break
                u, lr = list(unk), z.copy()
                sol = self.dc(L, v, qh, setp, u, lr, **defects)
                for i in range(ni):
                    if u[i] == 'r' and not -self.cap_c[i] <= sol['lr'][i] <= self.cap_h[i]:
                        lr[i], u[i] = np.clip(sol['lr'][i], -self.cap_c[i], self.cap_h[i]), 'c'
                if lr.any():
                    sol = self.dc(L, v, qh, setp, u, lr, **defects)
            if np.max(np.abs(sol['tr'] - tr)) < 1e-13:
                break
            tr = tr + (sol['tr'] - tr) * 0.8
        return sol

    # ---- ground run-up ------------------------------------------------------------------------------------------
    def ground_run_up(self, theta_o, n_steps):
        """theta_o: whole weather record; the run-up walks its last n_steps rows (n_steps = (from, to) before the end)"""
        deep = float(np.mean(theta_o))
        N = len(theta_o)
        out = {}
        for j, b in enumerate(self.h.boundaries):
            if b['is_ground'] != 'true':
                continue
            q, ta = 0.0, np.zeros(self.a1.shape[1])
            for n in range(-n_steps[0], -n_steps[1]):
                to = theta_o[N + n]
                ta = self.a1[j] * q + self.rr[j] * ta
                # surface between outdoor air (through the surface coefficient) and the constant deep ground
                ts = (self.a0[j] * self.h_i[j] * to + ta.sum() + deep) / (1.0 + self.a0[j] * self.h_i[j])
                q = self.h_i[j] * (to - ts)
            out[j] = (q, ta)
        return out
