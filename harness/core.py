"""Property runner: drives generated cases through executable oracles.

A property module (harness/props/cNN.py) defines

    ID, RULE                  -- property id, and the non-triviality rule
    SUBS                      -- list of Sub

A Sub has a pure function run(case, ctx): it raises Violation when the property
fails on that case.  Cases are plain data.  Cases with a 'cols' entry hold one
column per orbit / sample (arrays whose last axis is the sample index); bulk
batches are reduced to a single failing column before they are reported.
"""
import hashlib
import json
import os
import random
import signal
import time
import traceback
import zlib

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYORB_VERIF_REPO', '/repo')


class Violation(Exception):
    """The property does not hold on this case."""


class Unreadable(Violation):
    """The oracle cannot even read what came back."""


class OutOfDomain(Exception):
    """The case is outside the property's domain (counted, never silent)."""


class HarnessError(Exception):
    pass


def repo_frame(tb):
    """True if the traceback passes through the code under test."""
    root = os.path.join(os.path.realpath(REPO), 'pyorb') + os.sep
    for fr in traceback.extract_tb(tb):
        if os.path.realpath(fr.filename).startswith(root):
            return True
    return False


CPU_LIMIT = 30.0      # seconds of CPU time for one case (normally milliseconds)


class Sub:
    def __init__(self, name, run, strategy=None, examples=(300, 6000),
                 bulk=None, bulk_n=(0, 0), bulk_size=2000, shards=(1, 8),
                 cpu_limit=CPU_LIMIT, random_n=(0, 0)):
        self.cpu_limit = cpu_limit
        self.name = name
        self.run = run
        self.random_n = random_n    # cases from the plain random driver
        self.draw = None
        if strategy is not None and hasattr(strategy, 'hyp'):
            self.draw = strategy.draw
            strategy = strategy.hyp()
        self.strategy = strategy
        self.examples = examples
        self.bulk = bulk
        self.bulk_n = bulk_n        # batches (quick, thorough)
        self.bulk_size = bulk_size
        self.shards = shards


class Ctx:
    """What one task covered."""

    def __init__(self):
        self.evaluations = 0
        self.keys = set()
        self.labels = {}
        self.samples = []
        self.out_of_domain = 0
        self.in_bulk = False

    def count(self, n=1, nontrivial=()):
        """n inputs were examined; `nontrivial` yields one hashable per
        non-trivial input."""
        self.evaluations += int(n)
        for k in nontrivial:
            self.keys.add(hash(k))

    def count_cols(self, mat, mask=None):
        """Columns of `mat` were examined, those under `mask` are non-trivial."""
        mat = np.atleast_2d(np.asarray(mat, dtype=np.float64))
        self.evaluations += mat.shape[-1]
        t = np.ascontiguousarray(mat.T)
        idx = range(t.shape[0]) if mask is None else np.nonzero(mask)[0]
        for i in idx:
            self.keys.add(hash(t[i].tobytes()))

    def label(self, name, k=1):
        k = int(k)
        if k:
            self.labels[name] = self.labels.get(name, 0) + k


class CpuLimit(BaseException):
    pass


def _on_prof(signum, frame):
    raise CpuLimit()


def execute(sub, case, ctx):
    """Run one case; anything escaping from the code under test is a violation."""
    old = signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, sub.cpu_limit)
    try:
        _execute(sub, case, ctx)
    except CpuLimit as e:
        if repo_frame(e.__traceback__):
            raise Violation(f'no result within {sub.cpu_limit} s of CPU time') from None
        raise HarnessError(f'{sub.name}: harness exceeded {sub.cpu_limit} s of CPU time') from None
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def _execute(sub, case, ctx):
    try:
        sub.run(case, ctx)
    except (Violation, OutOfDomain):
        raise
    except RecursionError as e:
        raise Violation(f'unexpected RecursionError: {e}')
    except Exception as e:
        if repo_frame(e.__traceback__):
            last = [f for f in traceback.extract_tb(e.__traceback__)
                    if 'pyorb' in f.filename]
            where = f'{os.path.basename(last[-1].filename)}:{last[-1].name}' if last else '?'
            raise Violation(f'unexpected {type(e).__name__} in {where}: {e}')
        # never on the unchanged tree: the oracle cannot even read the result
        where = traceback.extract_tb(e.__traceback__)[-1]
        raise Unreadable(f'the result cannot be evaluated ({type(e).__name__}: {e}, '
                        f'{os.path.basename(where.filename)}:{where.lineno})')


# ---------------------------------------------------------------- case data

def to_json(x):
    if isinstance(x, dict):
        return {k: to_json(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [to_json(v) for v in x]
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    return x


def sample_of(case, limit=1500):
    j = to_json(case)
    if 'cols' in j:
        n = ncols(case)
        if n > 2:
            k = n//2
            j['cols'] = to_json(select(case, [k])['cols'])
            j['of_batch_of'] = n
    s = json.dumps(j)
    if len(s) > limit:
        return s[:limit] + '...'
    return j


def ncols(case):
    for v in case['cols'].values():
        return np.asarray(v).shape[-1]
    return 0


def select(case, idx):
    out = dict(case)
    out['cols'] = {k: np.asarray(v)[..., idx] for k, v in case['cols'].items()}
    return out


def fails(sub, case, shrinking=False):
    try:
        execute(sub, case, Ctx())
    except Unreadable as v:
        # an ill-formed candidate of the shrinker, not a result
        return None if shrinking else v
    except Violation as v:
        return v
    except OutOfDomain:
        return None
    return None


def shrink_bulk(sub, case, v, budget=400):
    """Reduce a failing batch to few columns, then simplify its numbers."""
    n = ncols(case)
    idx = list(range(n))
    spent = 0
    stop = time.time() + 60
    # halving
    while len(idx) > 1 and spent < budget and time.time() < stop:
        half = len(idx)//2
        for part in (idx[:half], idx[half:]):
            spent += 1
            w = fails(sub, select(case, part), True)
            if w is not None:
                idx, v = part, w
                break
        else:
            # needs several columns: drop one chunk at a time
            size = max(1, len(idx)//8)
            dropped = False
            for s in range(0, len(idx), size):
                part = idx[:s] + idx[s + size:]
                spent += 1
                if part:
                    w = fails(sub, select(case, part), True)
                    if w is not None:
                        idx, v, dropped = part, w, True
                        break
            if not dropped:
                break
    case = select(case, idx)
    case = json.loads(json.dumps(to_json(case)))
    # simplify numbers
    for key, val in list(case['cols'].items()):
        arr = np.asarray(val, dtype=np.float64)
        if arr.dtype.kind != 'f' or arr.size > 64:
            continue
        for pos in np.ndindex(arr.shape):
            x = arr[pos]
            for cand in (0.0, 1.0, float(np.round(x)), float(f'{x:.1g}'),
                         float(f'{x:.2g}'), float(f'{x:.4g}')) if np.isfinite(x) else ():
                if spent > budget or cand == x or time.time() > stop:
                    continue
                spent += 1
                trial = arr.copy()
                trial[pos] = cand
                c2 = dict(case)
                c2['cols'] = dict(case['cols'])
                c2['cols'][key] = trial.tolist()
                try:
                    w = fails(sub, c2, True)
                except HarnessError:
                    w = None
                if w is not None:
                    case, v, arr = c2, w, trial
                    break
    return case, v


# ---------------------------------------------------------------- drivers

def derive_seed(*parts):
    s = '/'.join(str(p) for p in parts)
    return int.from_bytes(hashlib.sha256(s.encode()).digest()[:8], 'big')


def drive_hypothesis(sub, n, seed, ctx):
    import hypothesis
    from hypothesis import settings, given, Phase, HealthCheck
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = 40
    last = {}
    rnd = random.Random(seed)

    @hypothesis.seed(seed)
    @settings(max_examples=n, deadline=None, database=None, derandomize=False,
              report_multiple_bugs=False, print_blob=False,
              phases=[Phase.generate, Phase.target, Phase.shrink],
              suppress_health_check=list(HealthCheck))
    @given(sub.strategy)
    def test(case):
        try:
            execute(sub, case, ctx)
        except Violation as v:
            last['case'], last['v'] = case, v
            raise
        except OutOfDomain:
            ctx.out_of_domain += 1
            return
        if len(ctx.samples) < 2 or rnd.random() < 0.005:
            ctx.samples.append(sample_of(case))
            if len(ctx.samples) > 4:
                ctx.samples.pop(1)

    try:
        test()
    except Violation:
        return last['case'], last['v']
    except hypothesis.errors.Flaky as e:
        if last and fails(sub, last['case']) is not None:
            return last['case'], last['v']
        raise HarnessError(f'{sub.name}: flaky: {e}')
    return None


def drive_bulk(sub, batches, seed, ctx):
    rng = np.random.default_rng(seed)
    for b in range(batches + batches//2):
        # a third of the batches are small: all members of one kind, one sign, one size
        n = sub.bulk_size if b % 3 != 2 else min(sub.bulk_size, int(rng.integers(1, 6)))
        case = sub.bulk(rng, n)
        try:
            execute(sub, case, ctx)
        except OutOfDomain:
            ctx.out_of_domain += 1
            continue
        except Violation as v:
            return shrink_bulk(sub, case, v)
        if b == 0:
            ctx.samples.append(sample_of(case))
    return None


def _paths(x, here=()):
    """(path, value) of everything inside a case, outermost first."""
    yield here, x
    if isinstance(x, dict):
        for k in x:
            yield from _paths(x[k], here + (k,))
    elif isinstance(x, list):
        for k in range(len(x)):
            yield from _paths(x[k], here + (k,))


def _put(x, path, val):
    if not path:
        return val
    x = dict(x) if isinstance(x, dict) else list(x)
    x[path[0]] = _put(x[path[0]], path[1:], val)
    return x


def shrink_case(sub, case, v, seconds=40):
    """Structural reduction of a failing case: shorter lists, simpler numbers."""
    stop = time.time() + seconds
    case = json.loads(json.dumps(to_json(case)))
    first = v
    w = fails(sub, case)
    if w is None:
        return case, first
    v = w

    def attempt(c):
        nonlocal case, v
        if time.time() > stop:
            return False
        try:
            w = fails(sub, c, True)
        except HarnessError:
            return False
        if w is None:
            return False
        case, v = c, w
        return True

    changed = True
    while changed and time.time() < stop:
        changed = False
        for path in [p for p, x in _paths(case) if isinstance(x, list)]:
            try:
                x = _get(case, path)
            except (KeyError, IndexError, TypeError):
                continue
            size = len(x)
            while size >= 1:
                k = 0
                while k < len(x):
                    if attempt(_put(case, path, x[:k] + x[k + size:])):
                        changed = True
                        x = _get(case, path)
                    else:
                        k += size
                size //= 2
        for path in [p for p, x in _paths(case) if isinstance(x, (int, float))]:
            try:
                x = _get(case, path)
            except (KeyError, IndexError, TypeError):
                continue
            if isinstance(x, bool):
                cands = [False] if x else []
            elif isinstance(x, int):
                cands = [c for c in (0, 1, x//2) if c < x] if x > 0 else []
            elif isinstance(x, float) and np.isfinite(x):
                cands = [c for c in (0.0, 0.5, 1.0, float(f'{x:.1g}'), float(f'{x:.2g}')) if c != x]
                if x in (0.0, 0.5, 1.0):
                    cands = [c for c in (0.0, 0.5) if c < x] if x else []
            else:
                cands = []
            for c in cands:
                if attempt(_put(case, path, c)):
                    if not isinstance(x, float):
                        changed = True
                    break
    return case, v


def _get(x, path):
    for k in path:
        x = x[k]
    return x


def drive_random(sub, n, seed, ctx):
    rng = np.random.default_rng(seed)
    for b in range(n):
        case = sub.draw(rng)
        try:
            execute(sub, case, ctx)
        except OutOfDomain:
            ctx.out_of_domain += 1
            continue
        except Violation as v:
            return shrink_case(sub, case, v)
        if b == 0:
            ctx.samples.append(sample_of(case))
    return None


def corpus_cases(pid):
    d = os.path.join(VERIF, 'corpus', pid)
    out = []
    if os.path.isdir(d):
        for fn in sorted(os.listdir(d)):
            if fn.endswith('.json'):
                with open(os.path.join(d, fn)) as f:
                    out.append((fn, json.load(f)))
    return out


def drive_corpus(mod, ctx):
    subs = {s.name: s for s in mod.SUBS}
    for fn, entry in corpus_cases(mod.ID):
        if entry['sub'] not in subs:
            raise HarnessError(f'corpus {fn}: no sub-check {entry["sub"]}')
        sub = subs[entry['sub']]
        try:
            execute(sub, entry['case'], ctx)
            ctx.label('corpus_cases')
        except Violation as v:
            return sub, entry['case'], v
        except OutOfDomain:
            ctx.label('corpus cases out of domain')
    return None


# budgets written in the property modules, times these (quick, thorough)
SCALE = dict(bulk=(6, 8), rnd=(3, 4), hyp=(1, 3))


def tasks_for(mod, tier, seed):
    """Deterministic list of tasks (kind, sub index, amount, seed)."""
    t = 0 if tier == 'quick' else 1
    out = [('corpus', None, 0, 0)]
    for i, s in enumerate(mod.SUBS):
        if s.bulk is not None and s.bulk_n[t]:
            total = s.bulk_n[t]*SCALE['bulk'][t]
            sh = min(s.shards[t], total)
            for k in range(sh):
                n = total//sh + (1 if k < total % sh else 0)
                out.append(('bulk', i, n, derive_seed(seed, mod.ID, s.name, 'bulk', k)))
        if s.draw is not None and s.random_n[t]:
            sh = s.shards[t]
            for k in range(sh):
                out.append(('rnd', i, max(1, s.random_n[t]*SCALE['rnd'][t]//sh), derive_seed(seed, mod.ID, s.name, 'rnd', k)))
        if s.strategy is not None and s.examples[t]:
            sh = s.shards[t]
            for k in range(sh):
                n = max(1, s.examples[t]*SCALE['hyp'][t]//sh)
                out.append(('hyp', i, n, derive_seed(seed, mod.ID, s.name, 'hyp', k)))
    return out


def run_task(mod, task):
    kind, i, n, seed = task
    ctx = Ctx()
    t0 = time.time()
    found = None
    err = None
    try:
        if kind == 'corpus':
            r = drive_corpus(mod, ctx)
            if r:
                found = (r[0].name, to_json(r[1]), str(r[2]))
        else:
            sub = mod.SUBS[i]
            r = dict(bulk=drive_bulk, hyp=drive_hypothesis, rnd=drive_random)[kind](sub, n, seed, ctx)
            if r:
                found = (sub.name, to_json(r[0]), str(r[1]))
    except BaseException as e:     # reported by the parent as a harness error
        err = f'{type(e).__name__}: {e}\n{traceback.format_exc()}'
    return dict(kind=kind, sub=None if i is None else mod.SUBS[i].name, wall=time.time() - t0,
                evaluations=ctx.evaluations, keys=np.fromiter(ctx.keys, dtype=np.int64,
                                                              count=len(ctx.keys)),
                labels=ctx.labels, samples=ctx.samples, ood=ctx.out_of_domain,
                found=found, err=err)


def case_id(sub, case):
    return f'{zlib.crc32(json.dumps([sub, case], sort_keys=True).encode()):08x}'
