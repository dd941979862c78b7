"""C07 the result does not depend on how rooms and boundaries are numbered, and uncoupled rooms do not influence each other."""
import copy
import itertools

import numpy as np

from mc import bench, coreexp, family, ref, runner
from mc.house import House
from mc.runner import Tally

ROOM = ('mode', 'ot', 'tr', 'x', 'mrt', 'tf', 'xf', 'q_hum', 'x_hum', 'lc', 'lr', 'lcl', 'v_leak', 'v_ntrl', 'hhc', 'hhr')
BDRY = ('ei', 'ts', 'rear', 'q')


def relabel(h, rp, bp):
    """rp[i], bp[j]: old number of the room / boundary that gets number i / j"""
    rn = {o: n for n, o in enumerate(rp)}
    bn = {o: n for n, o in enumerate(bp)}
    ss = []
    for o in rp:
        s = copy.deepcopy(h.spaces[o])
        s['id'] = rn[o]
        s['ventilation']['next_spaces'] = [h.spaces[o]['ventilation']['next_spaces'][q] for q in rp]
        ss.append(s)
    bs = []
    for o in bp:
        b = copy.deepcopy(h.boundaries[o])
        b['id'] = bn[o]
        b['connected_space_id'] = rn[b['connected_space_id']]
        if b['k_inside'] is not None:
            b['k_inside'] = {'id': bn[b['k_inside']['id']], 'coef': b['k_inside']['coef']}
        bs.append(b)
    Ls = []
    for L in h.letters:
        q = dict(L)
        for k in ('ac', 'n_hum', 'q_gen', 'x_gen', 'v_loc', 'q_trs'):
            q[k] = [L[k][o] for o in rp]
        q['theta_o_sol'] = [h.theta_o_sol(L)[o] for o in bp]
        Ls.append(q)
    g = House(ss, bs, Ls)
    g.building = h.building
    return g


def perms(h, thorough):
    rooms = list(itertools.permutations(range(h.ni)))
    ident = list(range(h.nj))
    bp = []
    for a, b in itertools.combinations(range(h.nj), 2):
        p = list(ident)
        p[a], p[b] = p[b], p[a]
        bp.append(p)
    extra = [ident[::-1]] + [ident[k:] + ident[:k] for k in range(1, h.nj)]
    if thorough:
        return [(r, p) for r in rooms for p in [ident] + bp + extra]
    return [(r, p) for r in rooms for p in (ident, ident[::-1])] + [(tuple(range(h.ni)), p) for p in bp + extra[1:]]


def run_word(h, dt, word):
    I = bench.Impl(h, dt)
    c = I.initial()
    out = []
    for k in word:
        c, o = I.step(c, k)
        out.append(o)
    return out


def family_of(name):
    if name == '2room-vent3':
        h0 = family.by_name('3room-interleaved')
        ss = copy.deepcopy(h0.spaces)
        ss[0]['ventilation']['next_spaces'] = [0.0, 0.004, 0.0]
        ss[1]['ventilation']['next_spaces'] = [0.0, 0.0, 0.0]
        ss[2]['ventilation']['next_spaces'] = [0.007, 0.002, 0.0]
        h = House(ss, h0.boundaries, h0.letters)
        h.building = h0.building
        return h
    return family.by_name(name)


def relabelled(job):
    name, dt, chunk, nchunk, thorough = job
    t = Tally()
    h = family_of(name)
    word = coreexp.de_bruijn(6, 2)
    base = run_word(h, dt, word)
    for n, (rp, bp) in enumerate(perms(h, thorough)):
        if n % nchunk != chunk:
            continue
        g = relabel(h, rp, bp)
        got = run_word(g, dt, word)
        t.count(states=1, transitions=len(word))
        case = {'house': name, 'delta_t': dt, 'rooms': rp, 'boundaries': bp, 'word': word}
        for key in ROOM:
            t.close('relabelled %s' % key, [o[key] for o in got], [o[key][list(rp)] for o in base], 1e-7 if key not in ('x', 'xf', 'x_hum') else 1e-12, case, rtol=1e-9)
        for key in BDRY:
            t.close('relabelled %s' % key, [o[key] for o in got], [o[key][list(bp)] for o in base], 1e-7, case, rtol=1e-9)
        t.outcome((name, rp, tuple(bp)))
    return t


def alone(job):
    """a room without any path to the others behaves as if it were the only one (air-tight building)"""
    name, dt, rooms = job
    t = Tally()
    h0 = family.by_name(name)
    h = House(h0.spaces, h0.boundaries, h0.letters, story=2, c_value=0.0, pressure='negative')
    word = coreexp.de_bruijn(6, 2)
    base = run_word(h, dt, word)
    mine = [j for j, b in enumerate(h.boundaries) if b['connected_space_id'] in rooms]
    bn = {o: n for n, o in enumerate(mine)}
    ss = [copy.deepcopy(h.spaces[r]) for r in rooms]
    for n, s in enumerate(ss):
        s['id'] = n
        s['ventilation']['next_spaces'] = [0.0] * len(rooms)
    bs = [copy.deepcopy(h.boundaries[j]) for j in mine]
    for n, b in enumerate(bs):
        b['id'] = n
        b['connected_space_id'] = rooms.index(b['connected_space_id'])
        if b['k_inside'] is not None:
            b['k_inside']['id'] = bn[b['k_inside']['id']]
    Ls = []
    for L in h.letters:
        q = dict(L)
        for k in ('ac', 'n_hum', 'q_gen', 'x_gen', 'v_loc', 'q_trs'):
            q[k] = [L[k][o] for o in rooms]
        q['theta_o_sol'] = [h.theta_o_sol(L)[o] for o in mine]
        Ls.append(q)
    g = House(ss, bs, Ls, story=2, c_value=0.0, pressure='negative')
    got = run_word(g, dt, word)
    t.count(states=1, transitions=len(word))
    case = {'house': name, 'delta_t': dt, 'rooms kept': rooms}
    for key in ROOM:
        t.close('alone %s' % key, [o[key] for o in got], [o[key][list(rooms)] for o in base], 1e-7 if key not in ('x', 'xf', 'x_hum') else 1e-12, case, rtol=1e-9)
    for key in BDRY:
        t.close('alone %s' % key, [o[key] for o in got], [o[key][mine] for o in base], 1e-7, case, rtol=1e-9)
    t.outcome((name, tuple(rooms), 'alone'))
    return t


def run_ups(job):
    """numbering under the public entry point, with a run-up of the ground and of the building"""
    name, chunk, nchunk, thorough = job
    t = Tally()
    h = family_of(name)
    word = [k for k in coreexp.de_bruijn(6, 2) for _ in range(8)]
    word = word[:288]
    days = dict(n_d_main=1, n_d_run_up=3, n_d_run_up_build=1)
    base = bench.calc(h, word, **days)[1]
    for n, (rp, bp) in enumerate(perms(h, thorough)):
        if n % nchunk != chunk:
            continue
        g = relabel(h, rp, bp)
        got = bench.calc(g, word, **days)[1]
        t.count(states=1, transitions=4 * 96)
        case = {'house': name, 'rooms': rp, 'boundaries': bp, 'word': word}
        for i, o in enumerate(rp):
            for c in ('t_r', 'x_r', 'ot', 'mrt', 'l_s_c', 'l_s_r', 'l_l_c', 't_fun'):
                t.close('relabelled with run-up %s' % c, got['rm%d_%s' % (i, c)].values, base['rm%d_%s' % (o, c)].values, 1e-7, case, rtol=1e-9)
        t.outcome((name, rp, tuple(bp), 'run-up'))
    return t


def explore(run):
    names = ['2room-inner', '2room-inner-asym', '2room-vent', '2room-grounds', '3room-interleaved', '2room-vent3']
    dts = (900.0, 3600.0) if run.thorough else (900.0,)
    run.bounds.update({'houses': names, 'room numberings': 'all', 'boundary numberings': 'all transpositions, rotations and reversal',
                       'word': 'de Bruijn order 2 over 6 letters'})
    run.pmap(relabelled, [(n, dt, c, 8, run.thorough) for n in names for dt in dts for c in range(8)])
    run.pmap(run_ups, [(n, c, 8, run.thorough) for n in ('2room-grounds', '3room-interleaved') for c in range(8)])
    subsets = [[0], [1], [2], [0, 1], [2, 0], [1, 2]]
    run.pmap(alone, [('3room-interleaved', dt, s) for dt in (900.0, 3600.0) for s in subsets])
    run.n['traces_validated_against_impl'] = run.n['states']


if __name__ == '__main__':
    runner.main('C07', 'model_checking',
                'every numbering of rooms and every transposition, rotation and reversal of boundaries is run with the real step over a word that '
                'contains every ordered pair of letters and compared quantity by quantity; distinct = numberings', explore)
