"""C03 moisture balance of room air and furniture, and dehumidification by the cooling coil."""
import numpy as np
from mc import coreexp, ref, runner


def monitor(t, x):
    m, st, o, L = x.m, x.st, x.out, x.L
    dehum = -o['lcl'] / ref.L_WTR
    store = ref.RHO * m.V / x.dt * (o['x'] - st['x'])
    vent = ref.RHO * x.v_out * (L['x_o'] - o['x'])
    nxt = ref.RHO * (m.Vn @ o['x'] - m.Vn.sum(1) * o['x'])
    furn = m.Mf * (o['xf'] - o['x'])
    src = np.asarray(L['x_gen'], float) + o['x_hum'] - dehum
    bad = ref.RHO * (m.Vn @ o['x'])
    t.close('air moisture balance', (vent + nxt + furn + src - store) * 1e6, np.zeros(m.ni), 1e-5, x.case,
            sig_if=[('KF-INTERVENT-X', (nxt - bad) * 1e6)])
    t.close('furniture moisture balance', m.Lf / x.dt * (o['xf'] - st['xf']) * 1e6, m.Mf * (o['x'] - o['xf']) * 1e6, 1e-5, x.case)
    t.close('state handed on: humidity', x.st2['x'], o['x'], 1e-14, x.case)
    t.close('state handed on: furniture humidity', x.st2['xf'], o['xf'], 1e-14, x.case)
    t.check('latent load sign', np.all(o['lcl'] <= 1e-9), x.case, 'air is humidified by the cooling coil: %s' % o['lcl'])
    lc = np.where([r.get('installed', False) for r in m.rac], o['lc'], 0.0)
    hu = m.humidity(st, L, x.v_out, o['x_hum'], lc, o['tr'], vnext_defect=bool(m.Vn.any()))
    if hu['near'] > 1e-9:
        t.close('dehumidified water', dehum * 1e6, -hu['lcl'] / ref.L_WTR * 1e6, 1e-4, x.case, rtol=1e-7)
    else:
        t.count(skipped_on_threshold=1)
    t.outcome((x.h.name, tuple(dehum > 1e-9), tuple(hu['coil'] > 0), tuple(lc < -1e-3), tuple(np.round(o['x'], 3))))


def explore(run):
    run.assumptions = ['coil bypass factor 0.2, coil air flow linear in the sensible load between the rated points, '
                       'a coil warmer than the dew point of the room removes nothing']
    coreexp.standard(run, 'c03')


if __name__ == '__main__':
    runner.main('C03', 'model_checking',
                'every transition of the real time step from every state reached by all words up to the bound: moisture balances and '
                'coil water; distinct = coil state x humidity classes', explore)
