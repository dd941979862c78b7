"""C02 surface heat balance, equivalent temperature and conduction history of every boundary at every step."""
import numpy as np
from mc import coreexp, ref, runner


def monitor(t, x):
    m, st, o, L = x.m, x.st, x.out, x.L
    qs, _ = m.q_sol(L)
    dst = np.asarray(x.h.theta_o_sol(L), float) * m.k_o
    flr = (m.P.T * m.flr[:, None]) @ ((1.0 - m.beta) * o['lr'])
    ei = (m.h_c * (m.P.T @ o['tr']) + m.h_r * (m.P.T @ (m.F @ o['ts'])) + qs + flr / m.A) / m.h_i
    t.close('equivalent temperature of a surface', o['ei'], ei, 1e-8, x.case)
    t.close('surface heat flow', o['q'], m.h_i * (ei - o['ts']), 1e-6, x.case)
    ta = m.a1 * st['q'][:, None] + m.rr * st['ta']
    tt = m.t1 * (m.K @ st['ei'] + dst)[:, None] + m.rr * st['tt']
    t.close('absorption history', x.st2['ta'], ta, 1e-7, x.case, rtol=1e-8)
    t.close('transmission history', x.st2['tt'], tt, 1e-7, x.case, rtol=1e-8)
    t.close('rear temperature', o['rear'], m.K @ st['ei'] + dst, 1e-8, x.case)
    near = m.rear_defect((o['tr'], o['ts'], qs, flr))
    base = m.a0 * m.h_i * (ei - o['ts']) + ta.sum(1) + tt.sum(1)
    t.close('surface temperature from conduction', o['ts'], base + m.t0 * (m.K @ ei + dst), 1e-7, x.case,
            sig_if=[('KF-REAR', base + m.t0 * (near + dst))])
    t.close('mean radiant temperature', o['mrt'], m.FH @ o['ts'], 1e-8, x.case)
    t.close('state handed on: heat flow', x.st2['q'], o['q'], 1e-10, x.case)
    t.close('state handed on: equivalent temperature', x.st2['ei'], o['ei'], 1e-10, x.case)
    t.close('state handed on: mean radiant temperature', x.st2['mrt'], o['mrt'], 1e-10, x.case)
    t.outcome((x.h.name, tuple(np.round(o['ts'], 0))))


def explore(run):
    coreexp.standard(run, 'c02')


if __name__ == '__main__':
    runner.main('C02', 'model_checking',
                'every transition of the real time step from every state reached by all words up to the bound: surface, rear, '
                'equivalent temperature and history terms against the governing equations; distinct = surface temperature classes', explore)
