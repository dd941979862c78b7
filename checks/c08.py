"""C08 calculation periods: run-up of the ground, run-up of the building, main period; repeatability."""
import hashlib
import io
import contextlib
import itertools
import os

import numpy as np

from mc import bench, coreexp, family, history, ref, runner
from mc.house import House, TempDir
from mc.runner import Tally

COLS = [('_ac_operate', 'mode'), ('_t_r', 'tr'), ('_x_r', 'x'), ('_mrt', 'mrt'), ('_ot', 'ot'), ('_l_s_c', 'lc'), ('_l_s_r', 'lr'), ('_l_l_c', 'lcl'),
        ('_t_fun', 'tf'), ('_x_fun', 'xf')]


def word_of(days, nsh, seed):
    """a record in which every day differs: de Bruijn rotations"""
    base = coreexp.de_bruijn(6, 3)
    base = base[seed * 7:] + base[:seed * 7]
    n = days * 24 * nsh
    return (base * (n // len(base) + 1))[:n]


def digest(d):
    out = {}
    for f in sorted(os.listdir(d)):
        out[f] = hashlib.md5(open(os.path.join(d, f), 'rb').read()).hexdigest()
    return out


def start(h, c):
    """the state every calculation starts from: 15 degree C, the humidity of 20 degree C and 40 %, windows closed, no flow in any wall"""
    from heat_load_calc.core.operation_mode import OperationMode
    x = ref.x_of_p(0.4 * ref.p_vs(20.0))
    c.operation_mode_is_n = np.full((h.ni, 1), OperationMode.STOP_CLOSE)
    c.theta_r_is_n, c.theta_mrt_hum_is_n, c.theta_frt_is_n = (np.full((h.ni, 1), 15.0) for _ in range(3))
    c.x_r_is_n, c.x_frt_is_n = (np.full((h.ni, 1), x) for _ in range(2))
    c.theta_ei_js_n = np.full((h.nj, 1), 15.0)
    c.q_srf_js_n = np.zeros((h.nj, 1))
    c.theta_dsh_srf_a_js_ms_n, c.theta_dsh_srf_t_js_ms_n = (np.zeros((h.nj, 12)) for _ in range(2))
    return c


def reference(h, word, dt, days, run_up, build):
    """the same periods walked step by step"""
    nsd = 24 * int(round(3600 / dt))
    g = House(h.spaces, h.boundaries, h.letters)
    g.building = h.building
    m = ref.Model(h, dt)
    I = bench.Impl(h, dt)
    c = start(h, I.initial())
    to = [h.letters[k]['theta_o'] for k in word]
    gr = m.ground_run_up(to, (run_up * nsd, build * nsd))
    dst = h.theta_o_sol(h.letters[word[0]])
    for j, (q, ta) in gr.items():
        c.q_srf_js_n[j] = q
        c.theta_dsh_srf_a_js_ms_n[j, :] = ta
        c.theta_dsh_srf_t_js_ms_n[j, :] = m.t1[j] / (1.0 - m.rr[j]) * dst[j] * m.k_o[j]
    N = len(word)
    for n in range(-build * nsd, 0):
        c, _ = I.step(c, word[N + n])
    outs = []
    for n in range(days * nsd):
        c, o = I.step(c, word[n])
        outs.append(o)
    return outs


def periods(job):
    name, nsh, days, run_up, build, total, cold = job
    t = Tally()
    h = family.by_name(name)
    dt = 3600.0 / nsh
    # the deep ground keeps the mean outdoor temperature, as in an input directory made from a year of weather
    word = word_of(total, nsh, (days + 3 * run_up + build) % 5)
    if total > 100:
        # a record of a year with seasons: cold, then mixed, then warm; mean of any part differs from that of the whole
        q = len(word) // 4
        word = [0] * q + word[q:2 * q] + [1] * q + word[3 * q:] if not cold else [0] * q + [3, 0, 0, 0] * (q // 4) + [0] * q + word[3 * q:3 * q + q // 8] + [0] * (q - q // 8)
        word += [0] * (total * 24 * nsh - len(word))
    deep = float(np.mean([h.letters[k]['theta_o'] for k in word]))
    Ls = []
    for L in h.letters:
        L = dict(L)
        ts = list(h.theta_o_sol(L))
        for j, b in enumerate(h.boundaries):
            if b['is_ground'] == 'true':
                ts[j] = deep
        L['theta_o_sol'] = ts
        Ls.append(L)
    h2 = House(h.spaces, h.boundaries, Ls)
    h2.building, h2.name = h.building, name
    case = {'house': name, 'steps per hour': nsh, 'days': days, 'run-up': run_up, 'run-up building': build, 'days in record': total, 'mean outdoor temperature': round(deep, 1)}
    t.count(states=1, traces_validated_against_impl=1)
    if run_up < build:
        from heat_load_calc.core import core
        with TempDir() as d:
            h2.write(d, word)
            try:
                with bench.quiet():
                    core.calc(input_data_dir=d, output_data_dir=d, n_step_hourly=nsh, n_d_main=days, n_d_run_up=run_up, n_d_run_up_build=build)
                t.fail('run-up shorter than its building part is accepted', case)
            except ValueError:
                pass
        t.outcome('refused')
        return t
    ds, dd = bench.calc(h2, word, delta_t=dt, n_d_main=days, n_d_run_up=run_up, n_d_run_up_build=build)
    outs = reference(h2, word, dt, days, run_up, build)
    t.count(transitions=len(outs) + build * 24 * nsh)
    t.check('length of the result', len(dd) == days * 24 * nsh and len(ds) == days * 24, case, '%d rows, %d hours' % (len(dd), len(ds)))
    if len(dd) != len(outs):
        return t
    for i in range(h.ni):
        for col, key in COLS:
            got = [float(int(v)) for v in dd['rm%d_ac_operate' % i]] if key == 'mode' else dd['rm%d%s' % (i, col)].values.astype(float)
            t.close('period result' + col, got, [float(o[key][i]) for o in outs], 1e-7, case, rtol=1e-9)
        mine = [j for j, b in enumerate(h.boundaries) if b['connected_space_id'] == i]
        for q, j in enumerate(mine):
            t.close('period result surface', dd['rm%d_b%d_t_s' % (i, q)].values, [float(o['ts'][j]) for o in outs], 1e-7, case, rtol=1e-9)
    t.close('outdoor temperature of the record', dd['out_temp'].values, [h.letters[k]['theta_o'] for k in word[:len(outs)]], 1e-12, case)
    t.outcome((name, nsh, days, run_up, build))
    return t


def repeat(job):
    """same inputs, same outputs, whatever was calculated before; inputs are left alone; longer periods extend shorter ones"""
    name, nsh = job
    t = Tally()
    from heat_load_calc.core import core
    h = family.by_name(name)
    other = family.by_name('1room-ground' if name != '1room-ground' else '3room-interleaved')
    word = word_of(2, nsh, 1)
    case = {'house': name, 'steps per hour': nsh}
    with TempDir() as d, TempDir() as o1, TempDir() as o2:
        h.write(d, word)
        before = digest(d)

        def go(out, days=1, **kw):
            with bench.quiet():
                return core.calc(input_data_dir=d, output_data_dir=out, n_step_hourly=nsh, n_d_main=days, n_d_run_up=1, n_d_run_up_build=1, **kw)
        ds1, dd1 = go(o1)
        t.check('files only on request', os.listdir(o1) == [], case, 'wrote %s' % os.listdir(o1))
        t.check('inputs untouched', digest(d) == before, case, 'input directory changed')
        bench.calc(other, word_of(1, nsh, 2), delta_t=3600.0 / nsh, n_d_main=1, n_d_run_up=0)
        ds2, dd2 = go(o2)
        t.check('repeatable', dd1.equals(dd2) and ds1.equals(ds2), case, 'a second run gives another result')
        ds3, dd3 = go(o2, days=2)
        t.check('longer period extends the shorter', dd3.iloc[:len(dd1)].equals(dd1), case, 'first day differs')
        t.check('longer period extends the shorter digest', ds3.iloc[:len(ds1)].equals(ds1), case, 'first day differs')
        go(o1, show_simple_result=True)
        t.check('digest file', os.listdir(o1) == ['result_digest.csv'], case, 'wrote %s' % os.listdir(o1))
        go(o2, show_detail_result=True)
        t.check('detail file', os.listdir(o2) == ['result_detail.csv'], case, 'wrote %s' % os.listdir(o2))
        t.check('inputs untouched', digest(d) == before, case, 'input directory changed')
        t.count(states=1, transitions=5 * 24 * nsh, traces_validated_against_impl=5)
    t.outcome((name, nsh, 'repeat'))
    return t


def _reweighted():
    """the three rooms with the same total volume, shared out otherwise"""
    h = family.by_name('3room-interleaved')
    v = [s['volume'] for s in h.spaces]
    g = House([dict(s, volume=x) for s, x in zip(h.spaces, v[1:] + v[:1])], h.boundaries, h.letters)
    g.building = h.building
    return g


# house, rotation of the record, days of the record, steps per hour, days, run-up, run-up of the building, digest written, detail written
CALLS = [('1room-ground', 1, 2, 1, 1, 1, 1, True, True), ('1room-ground', 4, 3, 1, 2, 1, 1, True, True), ('1room-ground', 1, 2, 2, 1, 1, 0, True, True),
         ('3room-interleaved', 1, 2, 1, 1, 0, 0, True, True), ('reweighted', 1, 2, 1, 1, 0, 0, True, True), ('1room-ground', 2, 2, 1, 1, 0, 0, False, True),
         ('2room-grounds', 3, 2, 1, 1, 2, 1, True, False)]


def one_call(c, d):
    """a calculation with the input and the output in one folder; the input is written over what is there"""
    from heat_load_calc.core import core
    name, rot, total, nsh, days, run_up, build, simple, detail = c
    h = _reweighted() if name == 'reweighted' else family.by_name(name)
    for f in ('result_digest.csv', 'result_detail.csv'):
        if not ((f == 'result_digest.csv' and simple) or (f == 'result_detail.csv' and detail)) and os.path.exists(d + '/' + f):
            os.remove(d + '/' + f)
    h.write(d, word_of(total, nsh, rot))
    with bench.quiet():
        ds, dd = core.calc(input_data_dir=d, output_data_dir=d, n_step_hourly=nsh, n_d_main=days, n_d_run_up=run_up, n_d_run_up_build=build, show_simple_result=simple, show_detail_result=detail)
    out = history.texts(d)
    out['digest returned'], out['detail returned'] = ds.to_csv(), dd.to_csv()
    return out


def explore(run):
    run.assumptions = ['ground boundaries of the input carry the mean outdoor temperature of the record as deep-ground temperature']
    names = ['1room-ground', '2room-grounds', '3room-interleaved'] if not run.thorough else ['1room-ground', '2room-grounds', '3room-interleaved', '2room-inner', '1room-radiative-radiative']
    nsh = (1, 2, 4) if not run.thorough else (1, 2, 3, 4, 6)
    jobs = [(n, s, a, b, c, 3, False) for n in names for s in nsh for a in (1, 2) for b in (0, 1, 2, 3) for c in (0, 1, 2, 3) if c <= b + 1]
    if run.thorough:
        jobs += [(n, s, a, b, c, 5, False) for n in names for s in (1, 4) for a in (1, 3, 5) for b in range(6) for c in range(6) if c <= b + 1]
    # a record of a whole year: the ground alone is walked towards the mean of the year
    jobs += [(n, s, 1, r, b, 365, cold) for cold in (False, True) for n in ('1room-ground', '2room-grounds') for s in ((1, 4) if not run.thorough else nsh) for r, b in ((30, 1), (2, 0))]
    # a long main period, and a building that is walked for a month before it
    jobs += [('2room-grounds', 1, 130, 40, 30, 140, False), ('1room-ground', 2, 1, 60, 45, 60, False), ('3room-interleaved', 1, 365, 0, 0, 365, True)]
    # twelve rooms
    jobs += [('12room-row', 1, 1, 2, 1, 3, False)]
    # six steps an hour
    jobs += [(n, 6, 1, r, b, 3, False) for n in names[:2] for r, b in ((2, 1), (1, 0), (3, 3), (1, 2))] + [('1room-ground', 6, 1, 2, 0, 365, False)]
    run.bounds.update({'days': [1, 2], 'run-up days': '0..3', 'building run-up days': '0..run-up+1', 'steps per hour': nsh})
    run.pmap(periods, jobs)
    run.pmap(repeat, [(n, s) for n in names for s in nsh])
    # all words of calculations in one process and one folder
    k = history.explore(run, one_call, CALLS, [str(c) for c in CALLS], 3 if run.thorough else 2)
    run.bounds['words of calculations in one folder'] = k
    # two loaded houses, every order of their steps
    n = 4 if run.thorough else 3
    hs = [(x, family.by_name(x)) for x in ('1room-ground', '1room-radiative-radiative', '2room-inner', '3room-interleaved')] + [('3room-reweighted', _reweighted())]
    hs += [(x, family.by_name(x)) for x in ('1room-none-none', '2room-grounds', '2room-opposite')]
    for k, (x, g) in enumerate(hs):
        g.building = dict(g.building, c_value=(0.7, 5.0, 2.2)[k % 3], story=1 + k % 2, inside_pressure=('balanced', 'negative', 'positive', 'balanced')[k % 4])
    pairs = [(a, b) for a, b in itertools.permutations(hs, 2) if run.thorough or (hs.index(a) + hs.index(b)) % 2]

    words = [((4, 1, 2, 0, 5, 3) * 2)[r:r + n] for r in (0, 2)]
    dts = (900.0, 3600.0) if run.thorough else (900.0,)
    refs = {(x, r, dt): history.fresh(history.walk, (g, dt, words[r])) for x, g in hs for r in (0, 1) for dt in dts}
    run.pmap(history.interleave, [('%s, %s' % (a[0], b[0]), (a[1], words[0]), (b[1], words[1]), dt, e, (refs[a[0], 0, dt], refs[b[0], 1, dt]))
                                  for a, b in pairs for dt in dts for e in (True, False)])
    run.bounds['interleavings'] = 'all of %d steps of two houses' % (2 * n)


if __name__ == '__main__':
    runner.main('C08', 'model_checking',
                'every combination of main, run-up and building run-up days and interval is calculated with the public entry point and compared row by '
                'row with the periods walked step by step; distinct = combinations', explore)
