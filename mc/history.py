"""Histories of whole calls in one process and one set of folders: every word over an alphabet of calls, each letter against what the
same call gives in a process and in folders of its own."""
import itertools
import multiprocessing as mp
import os
import shutil

from mc.house import TempDir
from mc.runner import Tally


def _child(fn, arg, q):
    try:
        q.send((True, fn(arg)))
    except BaseException as e:  # noqa
        q.send((False, repr(e)))


def fresh(fn, arg):
    """fn(arg) in a process of its own"""
    a, b = mp.get_context('fork').Pipe(duplex=False)
    p = mp.get_context('fork').Process(target=_child, args=(fn, arg, b))
    p.start()
    b.close()
    try:
        ok, v = a.recv()
    except EOFError:
        ok, v = False, 'process ended'
    p.join()
    return ok, v


def texts(d):
    """the files of a folder"""
    return {f: open(os.path.join(d, f), 'rb').read() for f in sorted(os.listdir(d))}


def alone(job):
    call, letter = job
    with TempDir() as w:
        return call(letter, w)


def references(call, letters):
    """what every letter gives on its own (call(letter, folder) -> dict of comparable results)"""
    return [fresh(alone, (call, l)) for l in letters]


def word(job):
    """letters one after another in one folder"""
    call, letters, refs, w, names = job
    t = Tally()
    with TempDir() as d:
        for n, k in enumerate(w):
            case = {'calls so far': [names[i] for i in w[:n]], 'call': names[k]}
            ok, want = refs[k]
            try:
                got = call(letters[k], d)
            except Exception as e:  # noqa
                t.check('call refused as on its own', not ok, case, repr(e)[:300])
                continue
            t.count(states=1, transitions=1, traces_validated_against_impl=1)
            if not t.check('call on its own refused', ok, case, str(want)[:300]):
                continue
            t.check('same files as on its own', sorted(got) == sorted(want), case, '%s instead of %s' % (sorted(got), sorted(want)))
            for f in sorted(want):
                if f in got:
                    t.check('same result whatever was asked before', got[f] == want[f], dict(case, file=f), 'differs')
            t.outcome((names[k], len(got)))
    shutil.rmtree(d, ignore_errors=True)
    return t


def walk(arg):
    """one model of its own: the states of its word"""
    from mc import bench
    h, dt, word = arg
    m = bench.Impl(h, dt)
    c, out = m.initial(), []
    for k in word:
        c, _ = m.step(c, k)
        out.append(bench.state_key(bench.state_of(c)))
    return out


def interleave(job):
    """two loaded models stepped in every order of their steps: each goes the way it goes alone.  The second model is loaded at every
    point of the word of the first (in `order`: 0 and 1 are steps; a model is loaded when it first appears, or both at the start)"""
    from mc import bench
    name, (ha, wa), (hb, wb), dt, early, refs = job
    t = Tally()
    if not t.check('loaded alone', refs[0][0] and refs[1][0], {'houses': name}, str([r[1] for r in refs if not r[0]])[:300]):
        return t
    na, nb = len(wa), len(wb)
    for pos in itertools.combinations(range(na + nb), na):
        order = [0 if k in pos else 1 for k in range(na + nb)]
        models, conds, at = [None, None], [None, None], [0, 0]
        for k in ((order[0], 1 - order[0]) if early else ()):
            models[k] = bench.Impl((ha, hb)[k], dt)
            conds[k] = models[k].initial()
        for k in order:
            if models[k] is None:
                models[k] = bench.Impl((ha, hb)[k], dt)
                conds[k] = models[k].initial()
            conds[k], _ = models[k].step(conds[k], (wa, wb)[k][at[k]])
            t.count(states=1, transitions=1)
            case = {'houses': name, 'order': order, 'house': k, 'step': at[k], 'both loaded first': early}
            if not t.check('not disturbed by the other house', bench.state_key(bench.state_of(conds[k])) == refs[k][1][at[k]], case, 'another state than alone'):
                break
            at[k] += 1
        t.outcome((name, tuple(order), early))
    t.count(traces_validated_against_impl=1)
    return t


def explore(run, call, letters, names, length, first=None):
    """all words up to the length"""
    refs = references(call, letters)
    for n, (ok, v) in zip(names, refs):
        run.check('call on its own', ok, {'call': n}, str(v)[:300])
    words = [w for k in range(2, length + 1) for w in itertools.product(range(len(letters)), repeat=k)]
    run.pmap(word, [(call, letters, refs, w, names) for w in words])
    return len(words)
