"""C09: conversions never modify or keep their inputs and reject malformed ones."""
import numpy as np
from hypothesis import strategies as st
from pyorb import kepler as K
from ..core import Sub, OutOfDomain, Violation
from .. import funcs, gen

ID = 'C09'
RULE = ('distinct member columns passed as caller-owned arrays that were inspected after the call; '
        'malformed inputs count by (function, kind of malformation, shape)')


def layouts(v, kind, rng):
    if kind == 'fortran':
        return np.asfortranarray(v)
    if kind == 'stride':
        big = np.zeros(v.shape[:-1] + (2*v.shape[-1],))
        big[..., ::2] = v
        return big[..., ::2]
    if kind == 'reverse':
        return np.ascontiguousarray(v[..., ::-1])[..., ::-1]
    return v.copy()


def owner(x):
    while isinstance(x.base, np.ndarray):
        x = x.base
    return x


def run(case, ctx):
    fn = funcs.BY_NAME[case['fn']]
    args = {k: np.array(case['cols'][k], dtype=np.float64) for k in fn.args}
    funcs.valid(fn, args)
    deg = bool(case.get('degrees')) and fn.deg
    call_args = {k: funcs.to_deg(k, v) for k, v in args.items()} if deg else args
    dt = {'f4': np.float32, 'i8': np.int64}.get(case.get('dtype'), np.float64)
    d = deg if fn.deg else None
    passed, snap = {}, {}
    for k, v in call_args.items():
        x = v
        if case.get('vector'):
            x = v[..., 0]
            if v.ndim == 1:
                x = float(x)
        if isinstance(x, np.ndarray):
            x = layouts(x.astype(dt), case.get('layout'), None)
            snap[k] = (x.copy(), owner(x).tobytes(), x.shape, x.strides, x.dtype)
        passed[k] = x
    kw = {}
    if fn.name in ('mean_to_eccentric', 'mean_to_true', 'equi_to_cart'):
        opts = dict(tol=1e-10, max_iter=200)
        kw['solver_options'] = opts
    what = f'{fn.name}({case.get("layout")}, degrees={deg})'
    r1 = funcs.call(fn, passed, d, **kw)
    first = np.array(r1, copy=True)
    for k, (x, raw, shape, strides, dtype) in snap.items():
        y = passed[k]
        if y.shape != shape or y.strides != strides or y.dtype != dtype:
            raise Violation(f'{what}: argument {k} was reshaped: {shape} -> {y.shape}')
        if owner(y).tobytes() != raw:
            raise Violation(f'{what}: argument {k} was modified: {x.tolist() if x.size < 30 else ""} -> '
                            f'{y.tolist() if y.size < 30 else ""}')
        if isinstance(r1, np.ndarray) and np.shares_memory(r1, y):
            raise Violation(f'{what}: the result shares memory with argument {k}')
    if kw and kw['solver_options'] != dict(tol=1e-10, max_iter=200):
        raise Violation(f'{what}: solver_options were modified')
    # again with the same arrays
    r2 = np.asarray(funcs.call(fn, passed, d, **kw))
    if first.shape != r2.shape or not np.array_equal(first, r2, equal_nan=True):
        raise Violation(f'{what}: a second identical call gives another result: '
                        f'{first.tolist() if first.size < 30 else ""} then {r2.tolist() if r2.size < 30 else ""}')
    # results do not alias each other or change later
    if isinstance(r1, np.ndarray) and r1.ndim:
        try:
            r1[...] = -12345.0
        except ValueError:
            raise Violation(f'{what}: result is not writable')
        r3 = np.asarray(funcs.call(fn, passed, d, **kw))
        if not np.array_equal(r3, r2, equal_nan=True):
            raise Violation(f'{what}: changing a result changes later results')
    # read-only arrays
    for x in passed.values():
        if isinstance(x, np.ndarray):
            x.flags.writeable = False
    r4 = np.asarray(funcs.call(fn, passed, d, **kw))
    if not np.array_equal(r4, r2, equal_nan=True):
        raise Violation(f'{what}: read-only arguments give another result')
    ctx.count_cols(np.vstack([np.atleast_2d(v) for v in args.values()]))
    n = args[fn.args[0]].shape[-1]
    ctx.label(fn.name, n)
    ctx.label(f'layout {case.get("layout")}', n)


def bulk(rng, n):
    fn = funcs.FUNCS[rng.integers(len(funcs.FUNCS))]
    if rng.random() < 0.4:
        fn = funcs.FUNCS[rng.integers(12)]
    n = int(rng.choice([1, 1, 2, 3, 7, 40]))
    case = dict(cols=fn.make(rng, n), fn=fn.name, degrees=bool(rng.random() < 0.4),
                layout=['plain', 'fortran', 'stride', 'reverse'][rng.integers(4)])
    if n == 1 and rng.random() < 0.7:
        case['vector'] = True
    if rng.random() < 0.15 and fn.name in ('kep_to_cart', 'kep_to_equi', 'equi_to_kep', 'true_to_eccentric',
                                           'eccentric_to_true', 'eccentric_to_mean', 'elliptic_radius',
                                           'euler_rotation_matrix'):
        case['dtype'] = 'f4'
    return case


# ------------------------------------------------------------ malformed

GOOD6 = [7.0e6, 0.3, 0.4, 0.5, 0.6, 0.7]


def bad_input(kind, seed):
    rng = np.random.default_rng(seed)
    if kind == 'list':
        return list(GOOD6)
    if kind == 'tuple':
        return tuple(GOOD6)
    if kind == 'nested list':
        return [[x] for x in GOOD6]
    if kind == 'none':
        return None
    if kind == 'float':
        return 1.5
    if kind == 'int':
        return 6
    if kind == 'string':
        return 'kepler'
    if kind == 'npscalar':
        return np.float64(1.5)
    if kind == 'dict':
        return dict(enumerate(GOOD6))
    if kind == 'set':
        return set(GOOD6)
    rows = {'rows': int(rng.choice([1, 2, 3, 4, 5, 7, 8, 12])), 'norows': 0}.get(kind)
    shape = (rows,) + tuple(int(x) for x in rng.choice([0, 1, 2, 6], int(rng.integers(0, 3))))
    return np.ones(shape)


def run_bad(case, ctx):
    name, kind, seed = case['fn'], case['kind'], int(case['seed'])
    f = getattr(K, name)
    want = ValueError if kind in ('rows', 'norows') else TypeError
    x = bad_input(kind, seed)
    kw = dict(degrees=bool(case['degrees']))
    if case['mu']:
        kw['mu'] = 3.0
    try:
        r = f(x, **kw)
    except want:
        pass
    except Exception as e:
        raise Violation(f'{name}({kind} {getattr(x, "shape", "")}): {type(e).__name__} instead of {want.__name__}')
    else:
        raise Violation(f'{name}({kind} {getattr(x, "shape", "")}) accepted: {np.asarray(r).tolist()}')
    ctx.count(1, [(name, kind, getattr(x, 'shape', None), kw['degrees'])])


def run_shapes(case, ctx):
    name = case['fn']
    s1, s2 = tuple(case['s1']), tuple(case['s2'])
    if s1 == s2:
        raise OutOfDomain('equal shapes')
    f = getattr(K, name)
    kw = {} if name == 'kepler_guess' else dict(degrees=bool(case['degrees']))
    a, b = np.full(s1, 0.7), np.full(s2, float(case['e']))
    try:
        r = f(a, b, **kw)
    except TypeError:
        pass
    except Exception as e:
        raise Violation(f'{name}: shapes {s1} and {s2} raise {type(e).__name__} instead of TypeError')
    else:
        raise Violation(f'{name}: shapes {s1} and {s2} accepted, result shape {np.shape(r)}')
    if not (np.all(a == 0.7) and np.all(b == float(case['e']))):
        raise Violation(f'{name}: arguments modified before the rejection')
    ctx.count(1, [(name, s1, s2)])


dim = st.lists(st.integers(0, 4), min_size=1, max_size=3)
ANOM = ['true_to_eccentric', 'eccentric_to_true', 'eccentric_to_mean', 'true_to_mean',
        'mean_to_true', 'mean_to_eccentric', 'kepler_guess']

SUBS = [
    Sub('inputs', run, None, (0, 0), bulk, (6000, 200000), 40, shards=(6, 8)),
    Sub('malformed', run_bad, st.fixed_dictionaries(dict(
        fn=st.sampled_from(['kep_to_cart', 'cart_to_kep']),
        kind=st.sampled_from(['list', 'tuple', 'nested list', 'none', 'float', 'int', 'string', 'npscalar',
                              'dict', 'set', 'rows', 'rows', 'rows', 'norows']),
        seed=st.integers(0, 10**6), degrees=st.booleans(), mu=st.booleans())), (600, 6000)),
    Sub('shapes', run_shapes, st.fixed_dictionaries(dict(
        fn=st.sampled_from(ANOM), s1=dim, s2=dim, degrees=st.booleans(),
        e=st.sampled_from([0.0, 0.5, 1.0, 2.0]))), (600, 6000)),
]
