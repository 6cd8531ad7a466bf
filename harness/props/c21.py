"""C21: the angle-unit wrapper converts exactly the declared angles."""
import numpy as np
from hypothesis import strategies as st
from pyorb import unit
from ..core import Sub, OutOfDomain, Violation
from .. import tol

ID = 'C21'
RULE = ('distinct (declaration, call sequence) cases in which at least one call is made in degree mode with at '
        'least one declared angle input or output')
NAMES = ['p0', 'p1', 'p2', 'p3']
KWN = ['k0', 'k1', 'k2']


def value(v):
    k, x = v
    if k == 'float':
        return float(x[0])
    if k == 'int':
        return int(round(x[0]))
    if k == 'npfloat':
        return np.float64(x[0])
    if k == 'array':
        return np.array(x, dtype=np.float64)
    if k == 'f4':
        return np.array(x, dtype=np.float32)
    if k == 'intarray':
        return np.round(np.array(x)).astype(np.int64)
    if k == 'array2':
        return np.array([x, x], dtype=np.float64)
    if k == 'zerod':
        return np.array(x[0])
    if k == 'list':
        return [float(t) for t in x]
    raise OutOfDomain('value')


def other(v):
    """values that are not angles may be anything"""
    if v[0] == 'str':
        return 'text'
    if v[0] == 'none':
        return None
    if v[0] == 'dict':
        return {'a': 1}
    return value(v)


def same(a, b):
    return a is b


def close(got, want, eps):
    g, w = np.asarray(got, dtype=np.float64), np.asarray(want, dtype=np.float64)
    return g.shape == w.shape and bool((np.abs(g - w) <= 8*eps*np.abs(w)).all())


def eps_of(v):
    return float(np.finfo(np.float32).eps) if getattr(v, 'dtype', None) == np.float32 else tol.EPS


def run(case, ctx):
    d = case['decl']
    npos, outs = d['npos'], d['outs']
    in_inds, in_keys = d['in_inds'], d['in_keys']
    if any(i >= npos for i in in_inds or []):
        raise OutOfDomain('declaration')
    ret_kind = d['ret']
    out_decl = d['out_decl']
    if ret_kind in ('tuple', 'list'):
        if out_decl is True or any(i >= len(outs) for i in out_decl or []):
            raise OutOfDomain('declaration')
    elif ret_kind == 'single':
        if isinstance(out_decl, list) or not outs:
            raise OutOfDomain('declaration')
    seen = []

    def func(*args, **kwargs):
        seen.append((args, kwargs))
        return state['ret']
    state = {}
    inds_arg = in_inds if in_inds is None else (list if d['listlike'] else tuple)(in_inds)
    keys_arg = in_keys if in_keys is None else (list if d['listlike'] else tuple)(in_keys)
    out_arg = tuple(out_decl) if isinstance(out_decl, list) and not d['listlike'] else out_decl
    if d['default'] is None:
        dec = unit.angle_units(inds_arg, keys_arg, out_arg)
    else:
        dec = unit.angle_units(inds_arg, keys_arg, out_arg, degrees=d['default'])
    wrapped = dec(func)
    nontrivial = False
    for step, call in enumerate(case['calls']):
        deg = call['degrees']
        mode = bool(d['default']) if deg is None else deg
        declared = set(in_inds or [])
        npass = min(call['npass'], npos)
        args = []
        for j in range(npass):
            v = call['args'][j % len(call['args'])]
            args.append(value(v) if j in declared else other(v))
        kwargs = {}
        for j, k in enumerate(KWN[:call['nkw']]):
            v = call['args'][(j + 1) % len(call['args'])]
            kwargs[k] = value(v) if k in (in_keys or []) else other(v)
        snap_a = [(a, np.array(a, copy=True)) for a in args if isinstance(a, (np.ndarray, list))]
        snap_k = [(a, np.array(a, copy=True)) for a in kwargs.values() if isinstance(a, (np.ndarray, list))]
        rets = [value(v) for v in outs]
        snap_r = [np.array(v, copy=True) for v in rets]
        if ret_kind == 'none':
            state['ret'] = None
        elif ret_kind == 'single':
            state['ret'] = rets[0]
        else:
            state['ret'] = tuple(rets) if ret_kind == 'tuple' else list(rets)
        given = dict(kwargs)
        seen.clear()
        what = f'{d}, call {step} degrees={deg} args={args} kwargs={kwargs}'
        if deg is None:
            got = wrapped(*args, **kwargs)
        else:
            got = wrapped(*args, degrees=deg, **kwargs)
        if len(seen) != 1:
            raise Violation(f'{what}: the function was called {len(seen)} times')
        ga, gk = seen[0]
        if len(ga) != len(args) or set(gk) != set(given):
            raise Violation(f'{what}: the function got {ga} {gk}')
        for j in range(len(args)):
            if mode and j in declared:
                ok = close(ga[j], np.asarray(args[j], dtype=np.float64)*np.pi/180, eps_of(args[j]))
                nontrivial = True
            else:
                ok = same(ga[j], args[j])
            if not ok:
                raise Violation(f'{what}: positional {j} reached the function as {ga[j]!r}')
        for k in given:
            if mode and k in (in_keys or []):
                ok = close(gk[k], np.asarray(given[k], dtype=np.float64)*np.pi/180, eps_of(given[k]))
                nontrivial = True
            else:
                ok = same(gk[k], given[k])
            if not ok:
                raise Violation(f'{what}: keyword {k} reached the function as {gk[k]!r}')
        # outputs
        if not mode or out_decl is None or ret_kind == 'none':
            if got is not state['ret']:
                raise Violation(f'{what}: returned {got!r} instead of the object {state["ret"]!r}')
        elif ret_kind == 'single':
            nontrivial = True
            if not close(got, np.asarray(rets[0], dtype=np.float64)*180/np.pi, eps_of(rets[0])):
                raise Violation(f'{what}: returned {got!r} for {rets[0]!r}')
        else:
            if not isinstance(got, tuple if ret_kind == 'tuple' else (tuple, list)) or len(got) != len(rets):
                raise Violation(f'{what}: returned {got!r}')
            for j in range(len(rets)):
                if j in out_decl:
                    nontrivial = True
                    if not close(got[j], np.asarray(rets[j], dtype=np.float64)*180/np.pi, eps_of(rets[j])):
                        raise Violation(f'{what}: output {j} is {got[j]!r} for {rets[j]!r}')
                elif got[j] is not rets[j]:
                    raise Violation(f'{what}: output {j} was replaced: {got[j]!r}')
        # nobody's arguments or results were modified
        for a, s in snap_a + snap_k:
            if not np.array_equal(np.asarray(a), s):
                raise Violation(f'{what}: argument changed from {s} to {a}')
        for v, s in zip(rets, snap_r):
            if not np.array_equal(np.asarray(v), s):
                raise Violation(f"{what}: the function's result changed from {s} to {v}")
        if ret_kind == 'list' and any(a is not b for a, b in zip(state['ret'], rets)):
            raise Violation(f"{what}: the function's own list was changed")
        ctx.label('degree call' if mode else 'radian call')
    if list(inds_arg or []) != list(in_inds or []) or list(keys_arg or []) != list(in_keys or []):
        raise Violation('the declaration was changed')
    ctx.count(1, [repr(case)] if nontrivial else ())


def run_named(case, ctx):
    """a function with named parameters: declared by position and by name"""
    d = case['decl']
    log = []

    def func(p0, p1=2.0, p2=3.0, *, k0=4.0):
        log.append((p0, p1, p2, k0))
        return p0, p1, p2, k0
    inds = d['inds']
    keys = [NAMES[i] for i in inds] + (['k0'] if d['k0'] else [])
    w = unit.angle_units(tuple(inds), tuple(keys), d['outs'], **({} if d['default'] is None else dict(degrees=d['default'])))(func)
    names = ['p0', 'p1', 'p2']
    for call in case['calls']:
        vals = [value(v) for v in call['args']][:3]
        npos = min(call['npos'], len(vals))
        # at least p0 is passed
        vals = vals[:max(1, len(vals))]
        kw = {names[j]: vals[j] for j in range(npos, len(vals))}
        if call['k0'] is not None:
            kw['k0'] = call['k0']
        deg = call['degrees']
        mode = bool(d['default']) if deg is None else deg
        log.clear()
        got = w(*vals[:npos], **kw, **({} if deg is None else dict(degrees=deg)))
        want = list(vals) + [2.0, 3.0][len(vals) - 1:]
        want.append(4.0 if call['k0'] is None else call['k0'])
        if mode:
            for j in range(len(vals)):
                if j in inds:
                    want[j] = np.asarray(want[j], dtype=np.float64)*np.pi/180
            if d['k0'] and call['k0'] is not None:
                want[3] = want[3]*np.pi/180
        what = f'{d}, {call}'
        for j in range(4):
            if not close(log[0][j], want[j], 2e-7 if eps_of(log[0][j]) > 1e-10 or any(v[0] == 'f4' for v in call['args']) else tol.EPS):
                raise Violation(f'{what}: parameter {j} reached the function as {log[0][j]!r}, want {want[j]!r}')
        for j in range(4):
            o = want[j]
            if mode and d['outs'] is not None and j in d['outs']:
                o = np.asarray(o, dtype=np.float64)*180/np.pi
            if not close(got[j], o, 2e-7 if any(v[0] == 'f4' for v in call['args']) else tol.EPS):
                raise Violation(f'{what}: output {j} is {got[j]!r}, want {o!r}')
    ctx.count(1, [repr(case)] if inds or d['outs'] else ())


nums = st.lists(st.floats(-720, 720).map(lambda x: round(x, 3)), min_size=1, max_size=3)
vals = st.tuples(st.sampled_from(['float', 'int', 'npfloat', 'array', 'f4', 'intarray', 'array2', 'zerod', 'list']), nums).map(list)
anyv = st.one_of(vals, vals, st.tuples(st.sampled_from(['str', 'none', 'dict']), nums).map(list))


@st.composite
def cases(draw):
    npos = draw(st.integers(0, 4))
    outs = draw(st.lists(vals, min_size=0, max_size=3))
    ret = draw(st.sampled_from(['tuple', 'tuple', 'list', 'single', 'none']))
    if ret == 'single' and not outs:
        outs = [draw(vals)]
    if ret in ('tuple', 'list'):
        out_decl = draw(st.one_of(st.none(), st.lists(st.integers(0, 2), max_size=3, unique=True).map(
            lambda x: [i for i in x if i < len(outs)])))
    elif ret == 'single':
        out_decl = draw(st.sampled_from([None, True]))
    else:
        out_decl = draw(st.sampled_from([None, True, [0], [0, 1]]))
    in_inds = draw(st.one_of(st.none(), st.lists(st.integers(0, 3), max_size=3, unique=True).map(
        lambda x: [i for i in x if i < npos])))
    in_keys = draw(st.one_of(st.none(), st.lists(st.sampled_from(KWN), max_size=3, unique=True)))
    declared = set(in_inds or []), set(in_keys or [])
    calls = []
    for _ in range(draw(st.integers(1, 3))):
        npass = draw(st.integers(0, npos))
        nkw = draw(st.integers(0, 3))
        # an argument that may be used as an angle has to be a number
        need = bool(declared[0] or declared[1])
        a = draw(st.lists(vals if need else anyv, min_size=1, max_size=4))
        calls.append(dict(degrees=draw(st.sampled_from([True, True, False, None])), npass=npass, nkw=nkw, args=a))
    return dict(decl=dict(npos=npos, outs=outs, ret=ret, out_decl=out_decl, in_inds=in_inds, in_keys=in_keys,
                          listlike=draw(st.booleans()), default=draw(st.sampled_from([None, True, False]))), calls=calls)


named_cases = st.fixed_dictionaries(dict(
    decl=st.fixed_dictionaries(dict(inds=st.lists(st.integers(0, 2), max_size=3, unique=True), k0=st.booleans(),
                                    outs=st.one_of(st.none(), st.lists(st.integers(0, 3), max_size=4, unique=True)),
                                    default=st.sampled_from([None, True, False]))),
    calls=st.lists(st.fixed_dictionaries(dict(args=st.lists(vals, min_size=1, max_size=3), npos=st.integers(0, 3),
                                              k0=st.one_of(st.none(), st.floats(-400, 400)),
                                              degrees=st.sampled_from([True, True, False, None]))), min_size=1, max_size=3)))

SUBS = [
    Sub('recorded', run, cases(), (1500, 40000), shards=(4, 8)),
    Sub('named', run_named, named_cases, (800, 20000), shards=(2, 8)),
]
