"""C14: rejected writes raise and leave the orbit completely unchanged."""
import numpy as np
import pyorb
from ..core import Sub, OutOfDomain, Violation
from .. import gs as st
from .. import ref, tol, twin

ID = 'C14'
RULE = 'distinct executed histories with at least one rejected write and one accepted write'
TIGHT = 1e-9


def readings(o):
    with np.errstate(all='ignore'):
        e = np.array(o.e)
        names = twin.readable(twin.READ, e if not np.isnan(e).any() else np.array([2.0]))
        out = {nm: twin.read(o, nm) for nm in names}
    out['m'] = np.array(o.m)
    out['settings'] = [len(o), o.type, o.degrees, o.G, o.M0, o.epoch, o.direct_update, o.auto_update,
                       o.kepler_read_only, o.cartesian_read_only, sorted(o.solver_options.items())]
    return out


def same(a, b, what):
    for k in a:
        if k == 'settings':
            if a[k] != b[k]:
                raise Violation(f'{what}: settings {a[k]} became {b[k]}')
        elif k not in b or a[k].shape != b[k].shape or not np.array_equal(a[k], b[k], equal_nan=True):
            raise Violation(f'{what}: {k} read {a[k].tolist()}, now {b[k].tolist() if k in b else None}')


def view_of(c):
    """the view an operation writes through (None: neither)"""
    k = c['op']
    if k == 'set':
        return 'kep' if c['name'] in twin.KSETTERS else 'cart'
    if k == 'update':
        return 'kep' if c['view'].startswith('kep') else 'cart'
    if k == 'add':
        return dict(kep='kep', keparray='kep', partial='kep', cart='cart', cartarray='cart', none=None)[c['view']]
    if k in ('propagate', 'type'):
        return 'kep'
    return None


def bad_call(o, op, e):
    """an operation that has to be rejected whatever the read-only state"""
    n = len(o)
    kind = op['kind']
    x = 0.5 + op['u']
    if kind == 'misfit':
        return misfit(o, op, x)
    if kind == 'bad type':
        v = op['type']
        return (lambda: setattr(o, 'type', v)), ValueError, f'type={v!r}'
    names_k = op['names_k'] or ['a']
    names_c = op['names_c'] or ['x']
    kw = {k: x for k in names_k}
    if kind in ('both', 'add both'):
        kw.update({k: -x for k in names_c})
        if op['swap']:
            kw = dict(reversed(list(kw.items())))
        if op['withm']:
            kw['m'] = 0.3
        if kind == 'add both':
            num = 1 + op['v'] % 3
            return (lambda: o.add(num=num, **kw)), ValueError, f'add({num}, {sorted(kw)})'
    elif kind == 'mass':
        if not o.direct_update:
            return None
        kw = {k: x for k in (names_k if op['swap'] else names_c)}
        kw['m'] = 0.3
    r = twin.sel_indices(op['sel'], n)
    if r is None:
        return None
    py = r[0]
    return (lambda: o.update(inds=py, **kw)), ValueError, f'update({py}, {sorted(kw)})'


def misfit(o, op, x):
    """values that do not fit the orbits they are meant for, orbits that are not there"""
    n = len(o)
    exc = (ValueError, TypeError, IndexError)
    v = op['v']
    how = ['set', 'set', 'update', 'update', 'add', 'index', 'propagate', 'array'][v % 8]
    w = v//8

    def bad(k):
        if w % 3 == 0:
            return 'none'
        return x*np.ones(k + 2) if w % 3 == 1 else x*np.ones((k + 2, 1))

    if how == 'set':
        names = sorted(set(twin.SETTERS))
        nm = names[w % len(names)]
        if nm in ('kepler', 'cartesian', 'equinoctial'):
            val = [x*np.ones((6, n + 2)), x*np.ones((5, n + 2)), x*np.ones(7)][op['sel']['v'] % 3]
        elif nm in ('r', 'v'):
            val = [x*np.ones((3, n + 2)), x*np.ones((2, n + 2))][op['sel']['v'] % 2]
        else:
            val = x*np.ones(n + 2)
        return (lambda: setattr(o, nm, val)), exc, f'{nm} = array of shape {val.shape} for {n}'
    if how == 'propagate':
        return (lambda: o.propagate(x*np.ones(n + 2))), exc, f'propagate({n + 2} times) of {n}'
    names = (op['names_c'] if op['swap'] else op['names_k']) or ['e']
    if how == 'index':
        j = n + 2 if op['withm'] else -n - 3
        if w % 5 == 1:
            return (lambda: o.delete(j)), exc, f'delete({j}) of {n}'
        if w % 5 == 2:
            return (lambda: o[j]), exc, f'[{j}] of {n}'
        if w % 5 == 3:
            f = o.calculate_kepler if op['swap'] else o.calculate_cartesian
            return (lambda: f(j)), exc, f'{f.__name__}({j}) of {n}'
        if w % 5 == 4:
            nm = 'cartesian' if op['swap'] else 'kepler'
            return (lambda: o.update(inds=j, **{nm: x*np.ones(6)})), exc, f'update({j}, {nm}) of {n}'
        kw = {k: x for k in names}
        if op['withm'] and not o.direct_update:
            kw['m'] = 0.3
        return (lambda: o.update(inds=j, **kw)), exc, f'update({j}, {list(kw)}) of {n}'
    if how == 'array':
        nm = 'cartesian' if op['swap'] else 'kepler'
        r = twin.sel_indices(op['sel'], n)
        if r is None or r[1] is None:
            return None
        val = x*np.ones((6, len(r[1]) + 2)) if w % 2 else x*np.ones((5, len(r[1]) + 1))
        return (lambda: o.update(inds=r[0], **{nm: val})), exc, f'update({r[0]}, {nm} of shape {val.shape}) of {n}'
    num = 1 + w % 3
    if how == 'update':
        r = twin.sel_indices(op['sel'], n)
        if r is None:
            return None
        py, num = r[0], len(r[1])
    kw = {k: x for k in names}
    if op['withm'] and (how == 'add' or not o.direct_update):
        kw['m'] = 0.3
    at = list(kw)[op['sel']['v'] % len(kw)]
    kw[at] = bad(num)
    if how == 'update':
        return (lambda: o.update(inds=py, **kw)), exc, f'update({py}, {list(kw)}) of {n}, {at} does not fit'
    return (lambda: o.add(num=num, **kw)), exc, f'add({num}, {list(kw)}), {at} does not fit'


def rejected(o, call, exc, quiet, what):
    """call raises one of exc; if quiet, every reading is compared at once"""
    before = readings(o) if quiet else None
    try:
        call()
    except exc:
        pass
    except Exception as ex:
        raise Violation(f'{what}: raises {type(ex).__name__}: {ex}, not {exc}')
    else:
        raise Violation(f'{what}: not rejected')
    if quiet:
        same(before, readings(o), what)


def run(case, ctx):
    cfg, mode = case['cfg'], case['mode']
    n = len(cfg['m'])
    flags = dict(kepler_read_only=case['ro'][0], cartesian_read_only=case['ro'][1])
    kep = twin.elements([case['init']['u'][j % len(case['init']['u'])] for j in range(n)], par=case['init']['view'] == 'kep')
    if not twin.good_kep(kep):
        raise OutOfDomain('start')
    B0 = twin.make(cfg, mode=mode)
    mu = twin.mu_of(B0)
    if case['init']['view'] == 'kep':
        start = dict(kepler=twin.to_orb_kep(kep, B0.type, B0.degrees))
    else:
        c = twin.cart64(kep, mu)
        if not twin.good_cart(c, mu):
            raise OutOfDomain('start')
        start = dict(cartesian=c)
    if n == 0:
        start = {}
    # the flags given at construction do not keep the initial values out
    A = twin.make(cfg, mode=mode, ctor=dict(flags, **{k: v.copy() for k, v in start.items()}))
    B = twin.make(cfg, mode=mode, ctor={k: v.copy() for k, v in start.items()})
    key = []
    nrej = nacc = 0
    for op in case['ops']:
        k = op['op']
        what = f'{cfg} {mode}: {key}'
        quiet = mode != 'deferred' or op.get('quiet')
        if k == 'ro':
            A.kepler_read_only, A.cartesian_read_only = op['kep'], op['cart']
            key.append(f'read-only {op["kep"]}/{op["cart"]}')
            continue
        if k == 'bad':
            e = None
            r = bad_call(A, op, e)
            if r is None:
                continue
            call, exc, txt = r
            if op['kind'] != 'bad type' and (A.kepler_read_only or A.cartesian_read_only):
                exc = (exc if isinstance(exc, tuple) else (exc,)) + (AttributeError,)
            rejected(A, call, exc, quiet, f'{what} then {txt}')
            key.append('!' + txt)
            nrej += 1
            ctx.label('rejected ' + op['kind'])
            continue
        s = twin.snapshot(B)
        if mode == 'manual' and k in ('mass', 'calc'):
            continue
        c = twin.concrete(op, s)
        if c is None:
            ctx.label('op outside the domain')
            continue
        e = tol.f64(s.kep[1])
        if k == 'read':
            for nm in twin.readable(c['names'], e if not np.isnan(e).any() else np.array([2.0])):
                twin.compare_read(nm, twin.read(A, nm), twin.read(B, nm), A, B, e, what, t=TIGHT)
            key.append('read:' + ','.join(c['names']))
            continue
        v = view_of(c)
        ro = (v == 'kep' and A.kepler_read_only) or (v == 'cart' and A.cartesian_read_only)
        if k == 'type' and c['val'] == A.type:
            ro = False
        if ro:
            rejected(A, lambda: twin.apply(A, c, e), AttributeError, quiet, f'{what} then {twin.describe(c)} on a read-only view')
            key.append('!' + twin.describe(c))
            nrej += 1
            ctx.label(f'rejected {k} {c.get("name") or v}')
            if quiet and k == 'set':
                # also a value that would change nothing
                rejected(A, lambda: setattr(A, c['name'], getattr(A, c['name'])), AttributeError, quiet,
                         f'{what} then {c["name"]} = its own value on a read-only view')
            continue
        if k == 'calc' and mode == 'deferred':
            for o in (A, B):
                twin.read(o, 'kepler' if c['which'] == 'cartesian' else 'cartesian')
        A = twin.apply(A, c, e)
        B = twin.apply(B, c, e)
        key.append(twin.describe(c))
        nacc += v is not None
        ctx.label('accepted ' + k)
    what = f'{cfg} {mode}: {key}'
    if len(A) != len(B) or A.type != B.type or not np.array_equal(A.m, B.m):
        raise Violation(f'{what}: {len(A)} {A.type} {np.array(A.m)}, not {len(B)} {B.type} {np.array(B.m)}')
    e = np.array(B.e)
    nan = np.isnan(e).any()
    order = ['kepler', 'cartesian'] if case['order'] else ['cartesian', 'kepler']
    for nm in order + twin.readable([x for x in twin.READ if x not in order], e if not nan else np.array([2.0])):
        twin.compare_read(nm, twin.read(A, nm), twin.read(B, nm), A, B, e, what, t=TIGHT)
    ctx.count(max(len(key), 1), [repr(case)] if nrej and nacc else ())
    ctx.label(mode)


def run_ctor(case, ctx):
    """unknown anomaly types are rejected at construction"""
    t = case['type']
    if t in pyorb.Orbit.ANOMALY or t.lower().strip() in pyorb.Orbit.ANOMALY:
        raise OutOfDomain('known type')
    try:
        pyorb.Orbit(M0=1.0, G=1.0, num=case['num'], type=t)
    except ValueError:
        pass
    else:
        raise Violation(f'Orbit(type={t!r}) is accepted')
    o = pyorb.Orbit(M0=1.0, G=1.0, num=case['num'], type=case['good'])
    o.kepler = np.array([1.5, .2, .3, .4, .5, .6])
    rejected(o, lambda: setattr(o, 'type', t), ValueError, True, f'type = {t!r}')
    # accepted spellings of the setter
    for f in (str.upper, str.title, lambda x: f'  {x}\n'):
        w = f(case['good2'])
        o.type = w
        if o.type != case['good2']:
            raise Violation(f'type = {w!r} reads {o.type!r}')
    ctx.count(1, [t])


junk = st.one_of(st.sampled_from(['', 'Kepler', 'tru', 'truee', 'true anomaly', 'meann', 'ecc', 'parabolic', 'none', 'mean_anomaly', 'e', 'kepler',
                                  'true_', 'TRUE anomaly', 'mea n', 'eccentricity', 'hyperbolic']),
                 st.lists(st.sampled_from(list('truemancic _x')), max_size=9).map(''.join))
op_bad = st.fixed_dictionaries(dict(
    op=st.just('bad'), kind=st.sampled_from(['both', 'add both', 'mass', 'mass', 'bad type', 'misfit', 'misfit', 'misfit']), u=twin.unit, v=st.integers(0, 999), sel=twin.sel_st,
    names_k=st.lists(st.sampled_from(twin.KEP), max_size=6, unique=True), names_c=st.lists(st.sampled_from(twin.CART), max_size=6, unique=True),
    swap=st.booleans(), withm=st.booleans(), type=st.sampled_from(['', 'foo', 'tru', 'Eccentricity', 'mean anomaly', 'kepler', 'true_']),
    quiet=st.booleans()))
op_ro = st.fixed_dictionaries(dict(op=st.just('ro'), kep=st.booleans(), cart=st.booleans()))


def Q(g):
    return st.tuples(g, st.booleans()).map(lambda t: dict(t[0], quiet=t[1]))


OPS = st.one_of(*([Q(twin.op_set(twin.SETTERS))]*7 + [Q(twin.op_update)]*3 + [op_bad]*5 + [op_ro]*2 + [twin.op_read]*2
                  + [Q(g) for g in (twin.op_prop, twin.op_type, twin.op_add, twin.op_index, twin.op_copy, twin.op_delete, twin.op_mass, twin.op_calc)]))
cases = st.fixed_dictionaries(dict(
    cfg=twin.cfg_st, init=twin.init_st, mode=st.sampled_from(twin.MODES), ro=st.sampled_from([[True, False], [False, True], [False, False], [True, True]]),
    order=st.booleans(), ops=st.lists(OPS, min_size=2, max_size=10)))
# every setter against a read-only view, in every mode
only_ro = st.fixed_dictionaries(dict(
    cfg=twin.cfg_st, init=twin.init_st, mode=st.sampled_from(twin.MODES), ro=st.sampled_from([[True, False], [False, True]]), order=st.booleans(),
    ops=st.lists(Q(st.one_of(twin.op_set(list(dict.fromkeys(twin.SETTERS))), twin.op_set(list(dict.fromkeys(twin.SETTERS))), twin.op_update)),
                 min_size=3, max_size=8)))
ctor = st.fixed_dictionaries(dict(type=junk, num=st.integers(1, 3), good=st.sampled_from(twin.TYPES), good2=st.sampled_from(twin.TYPES)))
SUBS = [
    Sub('history', run, cases, (300, 8000), shards=(8, 8), random_n=(4000, 120000)),
    Sub('read-only', run, only_ro, (100, 2000), shards=(4, 8), random_n=(3000, 60000)),
    Sub('types', run_ctor, ctor, (100, 1000), random_n=(300, 3000)),
]
