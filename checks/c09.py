"""C09 the reported tables: every column of the detailed result, its time stamps, and the hourly digest."""
import io
import os

import numpy as np

from mc import bench, coreexp, family, ref, runner
from mc.house import TempDir
from mc.runner import Tally


def rnd(v, n):
    return np.round(v, n)


def tables(job):
    name, nsh, days, rot = job
    import pandas as pd
    from heat_load_calc.core import core
    t = Tally()
    h = family.by_name(name)
    dt = 3600.0 / nsh
    m = ref.Model(h, dt)
    base = coreexp.de_bruijn(6, 3)
    base = base[rot:] + base[:rot]
    N = days * 24 * nsh
    word = (base * (N // len(base) + 1))[:N + 24 * nsh]          # one more day than is calculated
    case = {'house': name, 'steps per hour': nsh, 'days': days, 'rotation': rot}
    with TempDir() as d:
        h.write(d, word)
        with bench.quiet():
            ds, dd = core.calc(input_data_dir=d, output_data_dir=d, n_step_hourly=nsh, n_d_main=days, n_d_run_up=0, n_d_run_up_build=0,
                               show_simple_result=True, show_detail_result=True)
        fd = pd.read_csv(d + '/result_detail.csv', index_col=0, encoding='cp932', parse_dates=True)
        fs = pd.read_csv(d + '/result_digest.csv', index_col=0, encoding='cp932', parse_dates=True)
    I = bench.Impl(h, dt)
    c = I.initial()
    for j, b in enumerate(h.boundaries):
        if b['is_ground'] == 'true':
            c.theta_dsh_srf_t_js_ms_n[j, :] = m.t1[j] / (1.0 - m.rr[j]) * h.theta_o_sol(h.letters[word[0]])[j] * m.k_o[j]
    out = []
    for k in word[:N]:
        c, o = I.step(c, k)
        out.append(o)
    Ls = [h.letters[k] for k in word[:N]]
    t.count(states=N, transitions=N, traces_validated_against_impl=1)

    stamps = pd.Timestamp('1989-01-01') + pd.to_timedelta(np.arange(N) * dt, unit='s')
    t.check('time stamps', len(dd) == N and bool((dd.index == stamps).all()), case, 'detail time stamps do not advance by the interval')
    hours = pd.Timestamp('1989-01-01') + pd.to_timedelta(np.arange(days * 24) * 3600.0, unit='s')
    t.check('time stamps of the digest', len(ds) == days * 24 and bool((ds.index == hours).all()), case, 'digest is not hourly')
    if len(dd) != N or len(ds) != days * 24:
        return t

    exp = {'out_temp': [L['theta_o'] for L in Ls], 'out_abs_humid': [L['x_o'] for L in Ls]}
    S = lambda key: np.array([o[key] for o in out], dtype=float)         # [n, i or j]
    ts, tr, x = S('ts'), S('tr'), S('x')
    qs = np.array([m.q_sol(L)[0] for L in Ls])
    mrt_s = (m.P.T @ (m.F @ ts.T)).T
    flow = {'t_s': ts, 't_e': S('ei'), 't_b': S('rear'), 'hir_s': np.tile(m.h_r, (N, 1)), 'hic_s': np.tile(m.h_c, (N, 1)),
            'qir_s': m.h_r * m.A * (mrt_s - ts), 'qic_s': m.h_c * m.A * ((m.P.T @ tr.T).T - ts), 'qisol_s': qs * m.A, 'qiall_s': S('q')}
    for i in range(h.ni):
        n = 'rm%d' % i
        L_ = lambda key: [L[key][i] for L in Ls]
        pv = np.array([ref.p_of_x(v) for v in x[:, i]])
        ps = np.array([ref.p_vs(v) for v in tr[:, i]])
        exp.update({
            n + '_ac_operate': [float(int(o['mode'][i])) for o in out], n + '_occupancy': L_('ac'), n + '_hc_hum': S('hhc')[:, i],
            n + '_hr_hum': S('hhr')[:, i], n + '_t_r': tr[:, i], n + '_rh_r': pv / ps * 100.0, n + '_x_r': x[:, i], n + '_mrt': S('mrt')[:, i],
            n + '_ot': S('ot')[:, i], n + '_q_sol_t': L_('q_trs'), n + '_q_s_except_hum': L_('q_gen'), n + '_q_l_except_hum': L_('x_gen'),
            n + '_q_hum_s': S('q_hum')[:, i], n + '_q_hum_l': S('x_hum')[:, i], n + '_l_s_c': S('lc')[:, i], n + '_l_s_r': S('lr')[:, i],
            n + '_l_l_c': S('lcl')[:, i], n + '_t_fun': S('tf')[:, i], n + '_q_s_fun': m.Gf[i] * (tr[:, i] - S('tf')[:, i]),
            n + '_q_s_sol_fun': np.asarray(L_('q_trs'), float) * 0.5, n + '_x_fun': S('xf')[:, i],
            n + '_q_l_fun': m.Mf[i] * (x[:, i] - S('xf')[:, i]), n + '_v_reak': S('v_leak')[:, i], n + '_v_ntrl': S('v_ntrl')[:, i]})
        mine = [j for j in range(h.nj) if m.room[j] == i]
        for q, j in enumerate(mine):
            for col, v in flow.items():
                exp['%s_b%d_%s' % (n, q, col)] = v[:, j]
        t.check('remarks', list(dd[n + '_remarks']) == [o['remarks'][i] for o in out], case, 'remarks differ')
    names = set(exp) | {'rm%d_remarks' % i for i in range(h.ni)}
    t.check('columns', set(dd.columns) >= names, case, 'missing columns: %s' % sorted(names - set(dd.columns))[:5])
    num = lambda s: np.array([float(int(v)) for v in s]) if s.name.endswith('_ac_operate') else s.values.astype(float)
    for col in sorted(exp):
        if col not in dd.columns:
            continue
        e = np.asarray(exp[col], float)
        t.close('column %s' % col.split('_', 1)[-1], num(dd[col]), e, 1e-9, dict(case, column=col), rtol=1e-7)
        if not col.endswith('_ac_operate'):
            t.check('column in file', col in fd.columns and np.allclose(fd[col].values.astype(float), num(dd[col]), rtol=1e-12, atol=1e-15), dict(case, column=col),
                    'file differs from the returned table: %s' % col)
    t.check('time stamps in file', bool((fd.index == dd.index).all()), case, 'file differs')
    # digest: means to 2 digits (humidity of rooms to 4), mode at the full hour, sums of the loads to whole numbers
    H = lambda a: np.asarray(a, float).reshape(days * 24, nsh)
    for col, dig, how in [('out_temp', 2, 'mean')] + [('rm%d_%s' % (i, c), d_, w) for i in range(h.ni) for c, d_, w in (
            ('t_r', 2, 'mean'), ('x_r', 4, 'mean'), ('ot', 2, 'mean'), ('l_s_c', 0, 'sum'), ('l_s_r', 0, 'sum'), ('l_l_c', 0, 'sum'))]:
        v = H(num(dd[col]))
        v = v.mean(1) if how == 'mean' else v.sum(1)
        if col not in ds.columns:
            t.fail('digest column missing: %s' % col, case)
            continue
        t.close('digest of %s' % col.split('_', 1)[-1], ds[col].values.astype(float), v, 0.5 * 10.0 ** -dig + 1e-9, dict(case, column=col))
        t.close('digest digits of %s' % col.split('_', 1)[-1], ds[col].values.astype(float) * 10 ** dig, np.round(ds[col].values.astype(float) * 10 ** dig), 1e-6, dict(case, column=col))
        t.check('digest in file', col in fs.columns and np.allclose(fs[col].values.astype(float), ds[col].values.astype(float), rtol=1e-12, atol=1e-15), dict(case, column=col),
                'file differs: %s' % col)
    # the outside humidity of the digest has been rounded to hundredths
    if t.check('digest of out_abs_humid', 'out_abs_humid' in ds.columns, case, 'column missing'):
        t.close('digest of out_abs_humid', ds['out_abs_humid'].values.astype(float), H(num(dd['out_abs_humid'])).mean(1), 0.005 + 1e-9, case)
    for i in range(h.ni):
        t.close('digest mode', [float(int(v)) for v in ds['rm%d_ac_operate' % i]], H(num(dd['rm%d_ac_operate' % i]))[:, 0], 0.0, case)
        t.outcome((name, nsh, i, tuple(np.round(ds['rm%d_t_r' % i].values[:24], 1))))
    return t


def explore(run):
    names = ['1room-ground', '1room-radiative-radiative', '2room-inner-asym', '3room-interleaved', '1room-none-none']
    if run.thorough:
        names = [h.name for h in family.houses()]
    nsh = (1, 2, 3, 4, 6, 8) if not run.thorough else (1, 2, 3, 4, 5, 6, 8, 10, 12)
    days = (1, 2) if not run.thorough else (1, 2, 3)
    rots = (0,) if not run.thorough else (0, 50, 120)
    run.bounds.update({'houses': names, 'steps per hour': nsh, 'days': days})
    jobs = [('2room-uneven', 1, 365, 0)] + ([('1room-ground', 4, 365, 0)] if run.thorough else [('1room-ground', 4, 40, 0)])
    jobs += [('12room-row', s, 1, r) for s in ((1, 4) if not run.thorough else nsh) for r in (0, 77)]
    run.bounds.update({'long periods (house, steps per hour, days)': [j[:3] for j in jobs if j[2] > 3], 'house of twelve rooms': '120 boundaries, up to 26 of one room'})
    run.pmap(tables, jobs + [(n, s, d, r) for n in names for s in nsh for d in days for r in rots])


if __name__ == '__main__':
    runner.main('C09', 'model_checking',
                'every cell of the detailed and hourly tables (returned and written) of every (house, interval, length) is recomputed from the explored '
                'transitions and the input record; distinct = daily courses', explore)
