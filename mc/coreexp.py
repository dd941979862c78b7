"""Exhaustive exploration of the real time step over words of an input alphabet."""
import itertools

import numpy as np

from mc import bench, family, ref, runner
from mc.runner import Tally


class Ctx:
    __slots__ = ('h', 'm', 'dt', 'st', 'L', 'k', 'st2', 'out', 'path', 'v_out', 'case')


def flow_out(m, L, out):
    return m.Vex + np.asarray(L['v_loc'], float) + out['v_leak'] + out['v_ntrl']


SEEDS = {'initial': [], 'winter': [0] * 12 + [3] * 4 + [0] * 8, 'summer': [1] * 14 + [4] * 6, 'spring': [2, 5] * 8}


def explore_tree(job):
    """job = (house name, delta_t, seed name, depth, monitor module name, first letter or None)"""
    name, dt, seed, depth, mod, first = job
    mon = __import__('checks.' + mod, fromlist=['monitor']).monitor
    h = family.by_name(name)
    I = bench.Impl(h, dt)
    m = ref.Model(h, dt)
    t = Tally()
    c = I.initial()
    for k in SEEDS[seed]:
        c, _ = I.step(c, k)
    seen = set()

    def visit(c, path):
        st = bench.state_of(c)
        key = bench.state_key(st)
        if key in seen:
            t.count(revisited=1)
            return
        seen.add(key)
        t.count(states=1)
        if len(path) == depth:
            return
        for k in ([first] if first is not None and not path else range(len(h.letters))):
            c2, out = I.step(c, k)
            t.count(transitions=1)
            x = Ctx()
            x.h, x.m, x.dt, x.st, x.L, x.k, x.st2, x.out = h, m, dt, st, h.letters[k], k, bench.state_of(c2), out
            x.path = path + [k]
            x.v_out = flow_out(m, x.L, out)
            x.case = {'house': name, 'delta_t': dt, 'seed_word': seed, 'word': x.path}
            if not (all(np.isfinite(out[q]).all() for q in ('tr', 'x', 'ts', 'tf', 'xf', 'ot', 'lc', 'lr', 'lcl', 'q_hum', 'x_hum'))
                    and all(np.isfinite(v).all() for v in x.st2.values())):
                t.fail('not a number in the result of a step', x.case)
                continue
            mon(t, x)
            visit(c2, x.path)
    visit(c, [])
    t.sample({'house': name, 'delta_t': dt, 'seed_word': SEEDS[seed], 'words': 'all words of length <= %d over %d letters'
              % (depth, len(h.letters)), 'states': len(seen)})
    return t


def de_bruijn(k, n):
    a = [0] * k * n
    seq = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq


def conform(job):
    """replay a de Bruijn word (every pair / triple of letters in sequence) through core.calc and compare every reported
    quantity with the step-by-step exploration"""
    name, dt, order = job
    h = family.by_name(name)
    t = Tally()
    nsh = int(round(3600 / dt))
    day = 24 * nsh
    word = de_bruijn(len(h.letters), order)
    word = word + word[:order - 1]
    nd = -(-len(word) // day)
    word = (word * (nd * day // len(word) + 1))[:nd * day]
    ds, dd = bench.calc(h, word, delta_t=dt, n_d_main=nd)
    I = bench.Impl(h, dt)
    c = I.initial()
    # ground boundaries start from the steady state of the deep-ground temperature
    m = ref.Model(h, dt)
    for j, b in enumerate(h.boundaries):
        if b['is_ground'] == 'true':
            c.theta_dsh_srf_t_js_ms_n[j, :] = m.t1[j] / (1.0 - m.rr[j]) * h.theta_o_sol(h.letters[word[0]])[j] * m.k_o[j]
    outs = []
    for k in word:
        c, o = I.step(c, k)
        outs.append(o)
    case = {'house': name, 'delta_t': dt, 'word': 'de Bruijn order %d' % order}
    cols = [('_t_r', 'tr'), ('_x_r', 'x'), ('_mrt', 'mrt'), ('_ot', 'ot'), ('_l_s_c', 'lc'), ('_l_s_r', 'lr'), ('_l_l_c', 'lcl'),
            ('_t_fun', 'tf'), ('_x_fun', 'xf'), ('_q_hum_s', 'q_hum'), ('_q_hum_l', 'x_hum'), ('_v_reak', 'v_leak'),
            ('_v_ntrl', 'v_ntrl')]
    for i in range(h.ni):
        for col, key in cols:
            t.close('replay' + col, dd['rm%d%s' % (i, col)].values.astype(float), [o[key][i] for o in outs], 1e-9, case, rtol=1e-9)
        t.check('replay mode', [int(v) for v in dd['rm%d_ac_operate' % i].values] == [int(o['mode'][i]) for o in outs], case,
                'operation modes of the public result differ from the explored transitions')
    t.count(traces_validated_against_impl=1, replayed_steps=len(word))
    return t


def standard(run, mod, depth_q=3, depth_t=5, names=None, dts_q=(900.0, 3600.0), dts_t=(900.0, 1800.0, 3600.0),
             seeds=('initial', 'winter', 'summer', 'spring')):
    names = names or [h.name for h in family.houses()]
    depth = depth_t if run.thorough else depth_q
    dts = dts_t if run.thorough else dts_q
    jobs = [(n, dt, s, depth, mod, f) for n in names for dt in dts for s in seeds
            for f in (range(6) if run.thorough else (None,))]
    run.bounds.update({'houses': names, 'time steps (s)': list(dts), 'seed states': list(seeds), 'word length': depth, 'letters': 6})
    wide = [h.name for h in family.wide()]
    wd = 3 if run.thorough else 2
    jobs += [(n, dt, s, wd, mod, f) for n in wide for dt in ((600.0,) + tuple(dts_t) if run.thorough else (600.0, 1800.0)) for s in seeds
             for f in (range(len(family.by_name(n).letters)) if run.thorough else (None,))]
    run.bounds.update({'houses with extreme letters': wide, 'word length with extreme letters': wd, 'letters with extremes': '14 to 18'})
    run.pmap(explore_tree, jobs)
    run.pmap(conform, [(n, 1800.0, 2) for n in wide] + [(n, 900.0, 3 if run.thorough else 2) for n in names]
             + [(n, 3600.0, 2) for n in names[:3]])
