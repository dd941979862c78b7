"""C01 sensible heat balance of room air and furniture at every step."""
import numpy as np
from mc import coreexp, ref, runner


def monitor(t, x):
    m, st, o, L = x.m, x.st, x.out, x.L
    tr, tf, ts, lc, lr = o['tr'], o['tf'], o['ts'], o['lc'], o['lr']
    cr = ref.C_AIR * ref.RHO
    store = m.Cr / x.dt * (tr - st['tr'])
    conv = m.P @ (m.A * m.h_c * ts) - (m.P @ (m.A * m.h_c)) * tr
    vent = cr * x.v_out * (L['theta_o'] - tr)
    nxt = cr * (m.Vn @ tr - m.Vn.sum(1) * tr)
    furn = m.Gf * (tf - tr)
    src = np.asarray(L['q_gen'], float) + o['q_hum'] + lc + m.beta * lr
    # recorded defect: upstream air is subtracted and the room's own outflow is missing
    bad = -cr * (m.Vn @ tr)
    t.close('air heat balance', conv + vent + nxt + furn + src - store, np.zeros(m.ni), 1e-5, x.case,
            sig_if=[('KF-INTERVENT', nxt - bad)])
    _, qf = m.q_sol(L)
    t.close('furniture heat balance', m.Cf / x.dt * (tf - st['tf']), m.Gf * (tr - tf) + qf, 1e-5, x.case)
    t.close('state handed on: room temperature', x.st2['tr'], tr, 1e-10, x.case)
    t.close('state handed on: furniture temperature', x.st2['tf'], tf, 1e-10, x.case)
    t.outcome((tuple(o['mode']), tuple(np.sign(lc)), tuple(np.sign(lr)), tuple(np.round(tr, 0))))


def explore(run):
    run.assumptions = ['air density 1.2 kg/m3, specific heat 1005 J/kgK; half of the transmitted sun goes to furniture',
                       'the step uses the outdoor temperature, flows and gains of its first instant']
    coreexp.standard(run, 'c01')


if __name__ == '__main__':
    runner.main('C01', 'model_checking',
                'every transition of the real time step from every state reached by all words up to the bound is checked for closure '
                'of the air and furniture heat balances; distinct = mode/load-sign/temperature classes', explore)
