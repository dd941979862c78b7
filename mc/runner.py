"""Common run-time of every check: tiers, evidence, violations, known findings, replays.

A check is a module with a function ``explore(run)``.  It enumerates a finite space completely and
calls ``run.ok(...)`` / ``run.fail(...)`` for every execution / transition / state that it decided.
Exit status: 0 held on everything explored, 1 violated (with VIOLATION lines).  A harness error (not a
behaviour of the code under test) exits 2.
"""
import collections
import hashlib
import json
import os
import re
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

MAX_PRINTED = 5


class HarnessError(Exception):
    pass


# values that the harness cannot read (NaN where a whole number stands, a missing column, an empty table, ...): the checks read every
# result of the unchanged tree, so these are results of the code that break the property, not errors of the harness
UNREADABLE = (ValueError, ArithmeticError, LookupError)


def unreadable(e):
    if isinstance(e, TypeError):
        # a call that no longer fits is a matter of the interface, None in place of a number is a result
        return not re.search('positional argument|keyword argument|not callable', str(e))
    return isinstance(e, UNREADABLE)


def jsonable(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, np.generic):
        return jsonable(o.item())
    if isinstance(o, (str, bool, int)) or o is None:
        return o
    if isinstance(o, float):
        return o if o == o and abs(o) != float('inf') else repr(o)
    return repr(o)


def blame_repo(exc) -> bool:
    """True if the exception was raised while code of the repository was on the stack."""
    tb = exc.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(REPO + os.sep):
            return True
        tb = tb.tb_next
    return False


class Tally:
    """What one worker covered; merged into the Run."""

    def __init__(self):
        self.n = collections.Counter()
        self.fails = []          # (signature, what, case)
        self.nfail = collections.Counter()
        self.outcomes = set()
        self.samples = []
        self.max_res = collections.defaultdict(float)

    def count(self, **kw):
        for k, v in kw.items():
            self.n[k] += v

    def outcome(self, key):
        """distinct observable outcomes (vacuity guard)"""
        self.outcomes.add(hashlib.md5(repr(key).encode()).hexdigest()[:12])

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(jsonable(s))

    def fail(self, what, case, sig=None):
        """sig: id of the recorded defect whose formula reproduces exactly this failure, or None"""
        key = sig or what.split(':')[0]
        self.nfail[(sig, what.split(':')[0])] += 1
        if self.nfail[(sig, what.split(':')[0])] <= 3:
            self.fails.append((sig, what, jsonable(case)))

    def close(self, name, a, b, tol, case, rtol=0.0, sig_if=None):
        """a == b within tol (max over array).  sig_if: list of (sig, alternative b) tried in order."""
        import numpy as np
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        if a.shape != b.shape:
            try:
                a, b = np.broadcast_arrays(a, b)
            except ValueError:
                self.fail('%s: shape %s vs %s' % (name, a.shape, b.shape), case)
                return False
        lim = tol + rtol * np.abs(b)
        d = np.abs(a - b)
        if a.size == 0:
            return True
        good = np.all(d <= lim)          # NaN -> False
        if good:
            m = float(np.max(d / (lim + 1e-300)))
            if m > self.max_res[name]:
                self.max_res[name] = m
            return True
        for sig, alt in (sig_if or []):
            alt = np.asarray(alt, dtype=float)
            if np.all(np.abs(a - alt) <= tol + rtol * np.abs(alt)):
                self.fail('%s: recorded defect' % name, case, sig=sig)
                return False
        i = int(np.argmax(np.where(np.isnan(d), np.inf, d - lim)))
        self.fail('%s: got %r expected %r' % (name, float(a.flat[i]), float(b.flat[i])), case)
        return False

    def check(self, name, cond, case, detail='', sig=None):
        if not cond:
            self.fail('%s: %s' % (name, detail), case, sig=sig)
        return bool(cond)


class Run(Tally):

    def __init__(self, prop, level, rule):
        super().__init__()
        self.prop = prop
        self.level = level
        self.rule = rule
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if len(sys.argv) > 1 and sys.argv[1] in ('quick', 'thorough'):
            self.tier = sys.argv[1]
        self.thorough = self.tier == 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.assumptions = []
        self.exhaustive = True
        self.bounds = {}
        self.t0 = time.time()

    def merge(self, t: Tally):
        self.n.update(t.n)
        self.nfail.update(t.nfail)
        self.fails.extend(t.fails)
        self.outcomes |= t.outcomes
        for s in t.samples:
            self.sample(s)
        for k, v in t.max_res.items():
            self.max_res[k] = max(self.max_res[k], v)

    def pmap(self, fn, jobs, procs=8, chunksize=1):
        """run fn(job) -> Tally over all jobs in worker processes and merge"""
        import multiprocessing as mp
        jobs = list(jobs)
        if not jobs:
            return
        if procs == 1 or len(jobs) == 1:
            for j in jobs:
                self.merge(_guard((fn, j)))
            return
        with mp.get_context('fork').Pool(min(procs, len(jobs))) as pool:
            for t in pool.imap_unordered(_guard, [(fn, j) for j in jobs], chunksize=chunksize):
                if isinstance(t, str):
                    raise HarnessError(t)
                self.merge(t)

    # ------------------------------------------------------------------
    def finish(self) -> int:
        kf = load_known()
        known_sigs = {k['id']: k for k in kf if k['status'] == 'open' and k['property'] == self.prop}
        viol, known = [], collections.OrderedDict()
        for (sig, name), c in self.nfail.items():
            if sig is not None and sig in known_sigs:
                known[sig] = known.get(sig, 0) + c
            else:
                viol.append((sig, name, c))
        for sig, c in known.items():
            print('KNOWN-FINDING: property=%s %s [%s, %d occurrences]' % (
                self.prop, known_sigs[sig]['what'], sig, c))
        nviol = sum(c for _, _, c in viol)
        printed = 0
        if viol:
            d = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(d, exist_ok=True)
            for i, (sig, what, case) in enumerate(self.fails):
                if sig is not None and sig in known_sigs:
                    continue
                if printed >= MAX_PRINTED:
                    break
                p = os.path.join(d, '%s-%d.json' % (self.prop, printed))
                with open(p, 'w') as f:
                    json.dump({'property': self.prop, 'what': what, 'sig': sig, 'case': case,
                               'tier': self.tier}, f, indent=1, ensure_ascii=False)
                print('  violated: %s' % what)
                print('VIOLATION property=%s replay=%s' % (self.prop, p))
                printed += 1
            print('%d violating checks in %d kinds' % (nviol, len(viol)))
        cov = {k: int(v) for k, v in self.n.items()}
        if self.level == 'model_checking':
            for k in ('states', 'transitions', 'traces_validated_against_impl'):
                cov.setdefault(k, 0)
        cov['evaluations'] = cov.get('evaluations', cov.get('transitions', 0))
        cov['distinct_nontrivial'] = len(self.outcomes)
        cov['rule'] = self.rule
        cov['samples'] = self.samples
        cov['exhaustive'] = bool(self.exhaustive)
        cov['bounds'] = jsonable(self.bounds)
        cov['worst_residual_over_tolerance'] = {k: float('%.3g' % v) for k, v in sorted(self.max_res.items())}
        cov['known_findings_seen'] = {k: int(v) for k, v in known.items()}
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': int(nviol)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        print('%s %s: %s distinct outcomes=%d wall=%.1fs -> %s' % (
            self.prop, self.tier, dict(self.n), len(self.outcomes), ev['wall_s'],
            'VIOLATED' if viol else 'held'))
        if not viol and sum(self.n.values()) == 0:
            raise HarnessError('nothing was explored')
        return 1 if viol else 0


def _guard(args):
    fn, job = args
    try:
        return fn(job)
    except Exception as e:           # noqa
        if blame_repo(e):
            t = Tally()
            t.fail('exception: %s: %s' % (type(e).__name__, e),
                   {'job': job, 'traceback': traceback.format_exc()[-2000:]})
            return t
        if unreadable(e):
            t = Tally()
            t.fail('result of the code cannot be read: %s: %s' % (type(e).__name__, e),
                   {'job': job, 'traceback': traceback.format_exc()[-2000:]})
            return t
        return traceback.format_exc()


def load_known():
    """KNOWN_FINDINGS.txt: one finding a line; only `open:` lines have an effect here (a `fixed:` line suppresses nothing)

    open: property=<id> sig=<defect formula id> <what fails>
    fixed: property=<id> <commit> <what failed>
    """
    import re
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    out = []
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            m = re.match(r'open: property=(\S+) sig=(\S+) (.*)', line.strip())
            if m:
                out.append({'status': 'open', 'property': m.group(1), 'id': m.group(2), 'what': m.group(3)})
    return out


def main(prop, level, rule, explore):
    run = Run(prop, level, rule)
    try:
        try:
            explore(run)
        except HarnessError:
            raise
        except Exception as e:       # noqa
            if not blame_repo(e):
                if not unreadable(e):
                    raise
                run.fail('result of the code cannot be read: %s: %s' % (type(e).__name__, e), {'traceback': traceback.format_exc()[-3000:]})
            else:
                run.fail('exception: %s: %s' % (type(e).__name__, e), {'traceback': traceback.format_exc()[-3000:]})
        rc = run.finish()
    except Exception:                # noqa
        traceback.print_exc()
        print('HARNESS-ERROR property=%s' % prop)
        sys.stdout.flush()
        os._exit(2)
    sys.stdout.flush()
    os._exit(rc)
