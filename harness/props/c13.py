"""C13: Orbit container operations act as on a list of independent orbits."""
import copy as copymod

import numpy as np
from ..core import Sub, OutOfDomain, Violation
from .. import gs as st
from .. import ref, tol, twin

ID = 'C13'
RULE = 'distinct executed histories with at least two container operations (add, delete, allocate, index, copy, iterate, partial update)'
SETTINGS = ['type', 'degrees', 'G', 'M0', 'epoch', 'dtype', 'direct_update', 'auto_update', 'kepler_read_only', 'cartesian_read_only']
CONTAINER = ('add', 'delete', 'allocate', 'index', 'fork', 'copy', 'item', 'update')


def single(cfg, mode, typ, m):
    """A single-orbit model; it never uses container operations."""
    o = twin.make(cfg, num=1, mode='manual' if mode == 'manual' else 'immediate', type=typ, m=[m])
    return o


def clone(x, cfg, mode, typ):
    o = single(cfg, mode, typ, float(x.m[0]))
    o.kepler = np.array(x.kepler)
    if mode == 'manual' or np.isnan(o.cartesian).any():
        if not (np.isnan(x.cartesian).all() and mode != 'manual'):
            o.cartesian = np.array(x.cartesian)
    return o


class Ent:
    """A container under test and the list of single orbits it stands for."""

    def __init__(self, A, L, typ):
        self.A, self.L, self.type = A, L, typ


class ListSnap:
    def __init__(self, ent, G, M0):
        S = [twin.snapshot(x) for x in ent.L]
        self.n = len(S)
        cat = (lambda f, rows: np.concatenate([f(x) for x in S], axis=-1) if S else np.zeros(rows))
        self.raw = cat(lambda x: x.raw, (6, 0))
        self.kep = cat(lambda x: x.kep, (6, 0))
        self.cart = cat(lambda x: x.cart, (6, 0))
        self.m = cat(lambda x: x.m, (0,))
        self.mu = cat(lambda x: x.mu, (0,))
        self.type, self.degrees = ent.A.type, ent.A.degrees
        self.G, self.M0 = G, M0

    full = twin.Snap.full
    gmu = twin.Snap.gmu


def compare(ent, names, what):
    A, L = ent.A, ent.L
    if len(A) != len(L) or A.num != len(L):
        raise Violation(f'{what}: {len(A)} orbits, not {len(L)}')
    if not L:
        for nm, shape in (('kepler', (6, 0)), ('cartesian', (6, 0)), ('m', (0,)), ('a', (0,)), ('r', (3, 0))):
            if np.shape(getattr(A, nm)) != shape:
                raise Violation(f'{what}: {nm} of no orbits has shape {np.shape(getattr(A, nm))}')
        return
    m = np.concatenate([x.m for x in L])
    if np.shape(A.m) != m.shape or not np.array_equal(A.m, m):
        raise Violation(f'{what}: masses {np.asarray(A.m).tolist()}, not {m.tolist()}')
    B = L[0]
    k = np.hstack([x.kepler for x in L])
    e = k[1]
    nan = np.isnan(k).any(axis=0)
    for nm in twin.readable(names, e):
        if nan.any() and (nm == 'equinoctial' or nm in ('period', 'apoapsis') and len(nan) == nan.sum()):
            continue
        got = twin.read(A, nm)
        want = [twin.read(x, nm) for x in L]
        if nm == 'equinoctial':
            want = want[0] if len(L) == 1 else np.stack(want, axis=-1)
        else:
            want = np.concatenate(want, axis=-1)
        scale = None
        if nm in twin.CART:
            scale = np.concatenate([np.linalg.norm(x.r if twin.CART.index(nm) < 3 else x.v, axis=0) for x in L])
        twin.compare_read(nm, got, want, A, B, e, what, scale=scale)


def settings_of(o):
    return {k: getattr(o, k) for k in SETTINGS}, dict(o.solver_options)


def carried(src, new, what):
    a, b = settings_of(src), settings_of(new)
    if a != b:
        raise Violation(f'{what}: settings {b}, not {a}')
    if new.solver_options is src.solver_options or new is src:
        raise Violation(f'{what}: shares its settings')


def split(c, j, p):
    """the operation on member j (position p among the selected)"""
    d = dict(c)
    if c['op'] == 'set':
        v = c['value']
        if isinstance(v, np.ndarray):
            q = 0 if c['form'] == 'scalar' and c['name'] in ('kepler', 'cartesian') else j
            d['value'] = v[..., q:q + 1]
    elif c['op'] == 'update':
        d['py'], d['idx'] = slice(None), [0]
        d['noinds'] = False
        if 'value' in c:
            q = 0 if c['form'] == 'scalar' else p
            d['value'] = c['value'][:, q:q + 1]
        if 'vals' in c:
            q = 0 if c['form'] == 'scalar' else p
            d['vals'] = {k: v[q:q + 1] for k, v in c['vals'].items()}
            d['newe'] = c['newe'][p:p + 1]
            if c.get('m') is not None:
                d['m'] = c['m'][q:q + 1]
    elif c['op'] == 'propagate':
        if isinstance(c['dt'], np.ndarray):
            d['dt'] = c['dt'][j:j + 1]
    elif c['op'] == 'mass':
        d['m'] = c['m'][j:j + 1]
    elif c['op'] == 'calc':
        d['py'], d['idx'], d['noarg'] = slice(None), [0], False
    return d


def run(case, ctx):
    cfg = dict(case['cfg'])
    mode = case['mode']
    ctor = dict(kepler_read_only=False)
    if case['epoch']:
        cfg['epoch'] = 51234.5
    if case['solver']:
        cfg['solver_options'] = dict(max_iter=400, tol=1e-13, degree=4)
    typ = cfg['type']
    A = twin.make(cfg, mode=mode)
    L = [single(cfg, mode, typ, m) for m in cfg['m']]
    G, M0 = A.G, A.M0
    if case['start']:
        kep = twin.initialise(A, case['init'], twin.mu_of(A))
        for j, x in enumerate(L):
            if case['init']['view'] == 'kep':
                x.kepler = twin.to_orb_kep(kep[:, j:j + 1], x.type, x.degrees)
            else:
                x.cartesian = twin.cart64(kep[:, j:j + 1], twin.mu_of(x))
    pool = [Ent(A, L, typ)]
    key = []
    nontrivial = 0

    for op in case['ops']:
        k = op['op']
        w = op.get('who', 0) % len(pool)
        E = pool[w]
        A = E.A
        n = len(E.L)
        what = f'{cfg} {mode}: {key} then {k} on container {w}'
        s = ListSnap(E, G, M0)
        if k == 'allocate':
            num = op['num']
            A.allocate(num)
            E.L = [single(cfg, mode, E.type, 0.0) for _ in range(num)]
            key.append(f'{w}:allocate({num})')
        elif k == 'readall':
            compare(E, op['names'], what)
            key.append(f'{w}:read')
            continue
        elif k == 'calcanom':
            # only refreshes stored anomalies: nothing else may change
            r = twin.sel_indices(op['sel'], n)
            if r is None:
                continue
            f = getattr(A, f'calc_{op["which"]}_anomaly')
            f() if op['noarg'] else f(r[0])
            key.append(f'{w}:calc_{op["which"]}_anomaly({r[1]})')
            ctx.label('op calcanom')
            if mode != 'deferred':
                compare(E, ['kepler', 'cartesian'], f'{cfg} {mode}: {key}')
            continue
        elif k in ('fork', 'item', 'iterate'):
            # what is carried includes the read-only flags
            A.kepler_read_only, A.cartesian_read_only = op.get('ro', [False, False])
            if k == 'iterate':
                it = [x for x in A]
                nest = op['nested'] and n <= 12
                kk = [y for x in A for y in A] if nest else it
                if len(it) != n or len(kk) != (n*n if nest else n):
                    raise Violation(f'{what}: {len(it)} and {len(kk)} items from {n} orbits')
                for q, x in enumerate(kk):
                    j = q % n
                    carried(A, x, what)
                    compare(Ent(x, [E.L[j]], E.type), ['kepler', 'cartesian'], f'{what}: item {j}')
                # stepping by hand
                iter(A)
                for j in range(n + 1):
                    x = next(A, 'end')
                    if isinstance(x, str) != (j == n) or x is None:
                        raise Violation(f'{what}: next() number {j + 1} of {n} orbits gives {x}')
                    if j < n:
                        carried(A, x, what)
                        compare(Ent(x, [E.L[j]], E.type), ['kepler', 'cartesian'], f'{what}: next() number {j + 1}')
                A.kepler_read_only = A.cartesian_read_only = False
                key.append(f'{w}:iterate')
                continue
            if k == 'item':
                if not n:
                    A.kepler_read_only = A.cartesian_read_only = False
                    continue
                j = op['sel']['v'] % n
                new = None
                for q, x in enumerate(A):
                    if q == j:
                        new = x
                        if op['stop']:
                            break
                idx = [j]
            else:
                r = twin.sel_indices(op['sel'], n)
                if r is None:
                    A.kepler_read_only = A.cartesian_read_only = False
                    continue
                py, idx = r
                new = A[py]
                if op['sel']['k'] == 'all':
                    new = twin.apply(A, dict(op='copy', how=op['how']))
            carried(A, new, what)
            for x in (A, new):
                x.kepler_read_only = x.cartesian_read_only = False
            if mode != 'deferred':
                for nm in ('kepler', 'cartesian'):
                    a, b = getattr(A, nm)[:, idx], getattr(new, nm)
                    if a.shape != b.shape or not np.array_equal(a, b, equal_nan=True):
                        raise Violation(f'{what}: {nm} of the selection {idx} reads {b.tolist()}, not {a.tolist()}')
            F = Ent(new, [clone(E.L[j], cfg, mode, E.type) for j in idx], E.type)
            key.append(f'{w}:{k}{idx}')
            if op.get('mutate'):
                # settings of the new object are its own
                before = settings_of(A)
                new.solver_options['max_iter'] = 4999
                new.epoch = 99.0
                new.kepler_read_only = True
                if settings_of(A) != before:
                    raise Violation(f'{what}: changing the settings of the new object changed the original')
                new.kepler_read_only = False
                new.solver_options['max_iter'] = A.solver_options['max_iter']
                new.epoch = A.epoch
            if len(pool) < 4:
                pool.append(F)
            else:
                pool[(w + 1) % 4] = F
            nontrivial += 1
            ctx.label('op ' + k)
            continue
        else:
            if k == 'calc' and mode not in ('immediate', 'direct'):
                # from a current, convertible source
                r = twin.sel_indices(op['sel'], n)
                if r is None:
                    continue
                src = s.kep if op['which'] == 'cartesian' else s.cart
                ok = [j for j in dict.fromkeys(r[1]) if not np.isnan(tol.f64(src[:, j])).any()]
                if ok and not (twin.good_kep(src[:, ok]) if op['which'] == 'cartesian' else twin.good_cart(src[:, ok], s.mu[ok])):
                    continue
                if mode == 'deferred':
                    twin.read(A, 'kepler' if op['which'] == 'cartesian' else 'cartesian')
            if k == 'mass' and mode == 'manual' and not (s.full() and twin.good_kep(s.kep)):
                continue
            c = twin.concrete(op, s)
            if c is None:
                ctx.label('op outside the domain')
                continue
            e = tol.f64(s.kep[1])
            before = (np.array(A.kepler), np.array(A.cartesian)) if mode != 'deferred' else None
            twin.apply(A, c, e)
            key.append(f'{w}:' + twin.describe(c))
            if k == 'add':
                for p in range(c['num']):
                    m = 0.0 if c.get('m') is None else c['m'][0 if c.get('scalar') else p]
                    x = single(cfg, mode, E.type, m)
                    if 'kep' in c:
                        x.kepler = twin.to_orb_kep(c['kep'][:, p:p + 1], x.type, x.degrees)
                    elif 'cart' in c:
                        x.cartesian = c['cart'][:, p:p + 1].copy()
                    elif 'a' in c:
                        x.a = c['a']
                    E.L.append(x)
                if before is not None:
                    for b, a in zip(before, (A.kepler, A.cartesian)):
                        if not np.array_equal(a[:, :n], b, equal_nan=True):
                            raise Violation(f'{what}: add changed the existing orbits from {b.tolist()} to {a.tolist()}')
                nontrivial += 1
            elif k == 'delete':
                E.L = [x for j, x in enumerate(E.L) if j not in c['idx']]
                nontrivial += 1
                if before is not None:
                    keep = [j for j in range(n) if j not in c['idx']]
                    for b, a in zip(before, (A.kepler, A.cartesian)):
                        if not np.array_equal(a, b[:, keep], equal_nan=True):
                            raise Violation(f'{what}: delete {c["idx"]} left {a.tolist()} of {b.tolist()}')
            else:
                if k == 'type':
                    E.type = c['val']
                idx = c['idx'] if k in ('update', 'calc') else list(range(n))
                for j in dict.fromkeys(idx):
                    p = idx.index(j) if k in ('update', 'calc') else j
                    twin.apply(E.L[j], split(c, j, p), e[j:j + 1])
                if k in ('update', 'calc'):
                    nontrivial += len(idx) < n
                    rest = [j for j in range(n) if j not in idx]
                    if before is not None and rest:
                        for b, a in zip(before, (A.kepler, A.cartesian)):
                            if not np.array_equal(a[:, rest], b[:, rest], equal_nan=True):
                                raise Violation(f'{what}: unselected members {rest} went from {b.tolist()} to {a.tolist()}')
        ctx.label('op ' + k)
        if len(A) != len(E.L):
            raise Violation(f'{cfg} {mode}: {key}: {len(A)} orbits, not {len(E.L)}')
        if mode != 'deferred':
            compare(E, ['kepler', 'cartesian'], f'{cfg} {mode}: {key}')
    for j, E in enumerate(pool):
        order = ['kepler', 'cartesian'] if case['order'] else ['cartesian', 'kepler']
        compare(E, order + [nm for nm in twin.READ if nm not in order + (['velocity', 'speed'] if mode == 'manual' else [])],
                f'{cfg} {mode}: {key}: container {j} of {len(pool)}')
    ctx.count(max(len(key), 1), [repr(case)] if nontrivial >= 2 else ())
    ctx.label(mode)


who = st.integers(0, 3)


def W(g):
    """give the operation a target container"""
    both = st.tuples(g, who)
    return both.map(lambda t: dict(t[0], who=t[1]))


op_alloc = st.fixed_dictionaries(dict(op=st.just('allocate'), num=st.integers(0, 4)))
op_fork = st.fixed_dictionaries(dict(op=st.just('fork'), ro=st.tuples(st.booleans(), st.booleans()).map(list), sel=twin.seldup_st, mutate=st.booleans(),
                                     how=st.sampled_from(['copy', 'copy.copy', 'slice', 'deepcopy'])))
op_item = st.fixed_dictionaries(dict(op=st.just('item'), ro=st.tuples(st.booleans(), st.booleans()).map(list), sel=twin.sel_st, stop=st.booleans(), mutate=st.booleans()))
op_iter = st.fixed_dictionaries(dict(op=st.just('iterate'), ro=st.tuples(st.booleans(), st.booleans()).map(list), nested=st.booleans()))
op_readall = st.fixed_dictionaries(dict(op=st.just('readall'), names=st.lists(st.sampled_from(twin.READ[:22]), min_size=1, max_size=2)))
op_calcanom = st.fixed_dictionaries(dict(op=st.just('calcanom'), which=st.sampled_from(twin.TYPES), sel=twin.sel_st, noarg=st.booleans()))
OPS = st.one_of(*[W(g) for g in [op_fork]*4 + [op_item, op_iter, op_alloc, op_readall, op_calcanom] + [twin.op_add]*3 + [twin.op_delete]*2
                  + [twin.op_update]*4 + [twin.op_update_m] + [twin.op_set(twin.SETTERS)]*3 + [twin.op_prop, twin.op_type, twin.op_calc, twin.op_mass]])
cases = st.fixed_dictionaries(dict(
    cfg=twin.cfg_st, init=twin.init_st, mode=st.sampled_from(twin.MODES), start=st.sampled_from([True, True, True, False]), order=st.booleans(),
    epoch=st.booleans(), solver=st.booleans(), ops=st.lists(OPS, min_size=3, max_size=12)))
SUBS = [Sub('history', run, cases, (300, 8000), shards=(8, 8), random_n=(3000, 100000))]
