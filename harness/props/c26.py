"""C26: precision of the storage, and no memory shared with callers."""
import numpy as np
import pyorb

from .. import gs, ref, tol, twin
from ..core import Sub, OutOfDomain, Violation

ID = 'C26'
RULE = 'distinct (configuration, executed operations) histories and distinct single-precision orbits'
LD = ref.LD
PI = np.pi
DT = dict(f4=np.float32, f8=np.float64)
E32 = float(np.finfo(np.float32).eps)
ELEMENTS = ['kepler', 'cartesian', 'r', 'v', 'equinoctial'] + twin.KEP + twin.CART + list(twin.NAMED)
DERIVED = ['period', 'mean_motion', 'speed', 'velocity', 'periapsis', 'apoapsis', 'mean_longitude']
GARBAGE = [np.nan, 1e30, -7.25, 0.0]


class Rec:
    """Stands for an orbit; scribbles over (or keeps and watches) every array
    given to it and every array it hands out."""

    def __init__(self, o, dtype, pattern):
        d = self.__dict__
        d.update(_o=o, _dtype=dtype, _pat=pattern, _k=0, _held=[], what='')

    def _next(self):
        d = self.__dict__
        d['_k'] += 1
        return self._pat[self._k % len(self._pat)]

    def _done(self, x, why):
        """the caller's further use of an array"""
        p = self._next()
        if p < 4:
            x[...] = GARBAGE[p] if x.dtype.kind == 'f' else 1
        else:
            self._held.append((x, x.copy(), why))

    def _call(self, f, *args, **kw):
        given = []

        def own(x, why):
            if isinstance(x, np.ndarray):
                x = np.array(x)
                given.append((x, x.copy(), why))
            elif isinstance(x, list):
                x = list(x)
            return x
        args = [own(x, 'argument') for x in args]
        kw = {k: own(x, k) for k, x in kw.items()}
        out = f(*args, **kw)
        for x, c, why in given:
            if not np.array_equal(x, c, equal_nan=x.dtype.kind == 'f'):
                raise Violation(f'{self.what}: {f.__name__} changed the caller\'s {why}')
            self._done(x, f'{why} given to {f.__name__}')
        return out

    def __getattr__(self, name):
        x = getattr(self._o, name)
        if name in ELEMENTS and x.dtype != self._dtype:
            raise Violation(f'{self.what}: {name} has precision {x.dtype}, not {np.dtype(self._dtype)}')
        if isinstance(x, np.ndarray) and name != 'm':
            c = x.copy()
            self._done(x, f'{name} read')
            return c
        if name in ('update', 'add', 'propagate', 'delete', 'calculate_kepler', 'calculate_cartesian'):
            return lambda *a, **k: self._call(x, *a, **k)
        return x

    def __setattr__(self, name, x):
        if isinstance(x, np.ndarray):
            def setter(v):
                setattr(self._o, name, v)
            setter.__name__ = name
            if name == 'm':
                setattr(self._o, name, x.copy())
            else:
                self._call(setter, x)
        else:
            setattr(self._o, name, x)

    def __len__(self):
        return len(self._o)

    def __getitem__(self, py):
        if isinstance(py, np.ndarray):
            py = py.copy()
        self.__dict__['_o'] = self._o[py]
        if isinstance(py, np.ndarray):
            py[...] = 0
        return self

    def copy(self):
        self.__dict__['_o'] = self._o.copy()
        return self

    def __copy__(self):
        self.__dict__['_o'] = self._o.__copy__()
        return self

    def __deepcopy__(self, memo):
        import copy
        self.__dict__['_o'] = copy.deepcopy(self._o)
        return self

    def watch(self):
        for x, c, why in self._held:
            if not np.array_equal(x, c, equal_nan=x.dtype.kind == 'f'):
                raise Violation(f'{self.what}: the array of {why} changed later from {c.tolist()} to {x.tolist()}')


def construct(cfg, mode, dtype, kep, how, mu, pattern=None):
    """the orbit, built from arrays; with a pattern the arrays are overwritten"""
    n = len(cfg['m'])
    kw = dict(twin.flags(mode), type=cfg['type'], degrees=cfg['degrees'], G=cfg['G'], dtype=DT[dtype], num=n)
    opts = None
    if dtype == 'f4':
        opts = kw['solver_options'] = dict(tol=1e-6, max_iter=50)
    arrays = dict(m=np.array(cfg['m']))
    k = twin.to_orb_kep(kep, cfg['type'], cfg['degrees'])
    if how == 'keparray':
        arrays['kepler'] = k
    elif how == 'kep':
        for j, nm in enumerate(twin.KEP):
            arrays[nm] = k[j].copy()
    elif how == 'cartarray':
        arrays['cartesian'] = twin.cart64(kep, mu)
    elif how == 'cart':
        c = twin.cart64(kep, mu)
        for j, nm in enumerate(twin.CART):
            arrays[nm] = c[j].copy()
    kw.update(arrays)
    o = pyorb.Orbit(M0=cfg['M0'], **kw)
    if how == 'set':
        arrays['k'] = k
        o.kepler = k
    if pattern is not None:
        for j, x in enumerate(arrays.values()):
            x[...] = GARBAGE[pattern[j % len(pattern)] % 4]
        if opts is not None:
            opts.update(tol=10.0, max_iter=0)
    return o


def run(case, ctx):
    cfg, mode, dtype = case['cfg'], case['mode'], case['dtype']
    n = len(cfg['m'])
    if n < 1 or not case['pattern'] or not all(0 <= p <= 7 for p in case['pattern']):
        raise OutOfDomain('case')
    guide = twin.make(cfg, mode='immediate')
    mu = twin.mu_of(guide)
    how = case['how']
    conic = {} if how in ('keparray', 'kep', 'set') else {}
    kep = twin.elements([case['u'][j % len(case['u'])] for j in range(n)], par=how in ('keparray', 'kep', 'set'), **conic)
    if not twin.good_kep(kep) or (how.startswith('cart') and not twin.good_cart(twin.cart64(kep, mu), mu)):
        raise OutOfDomain('start')
    guide.kepler = twin.to_orb_kep(kep, guide.type, guide.degrees)
    A = Rec(construct(cfg, mode, dtype, kep, how, mu, case['pattern']), DT[dtype], case['pattern'])
    B = construct(cfg, mode, dtype, kep, how, mu)
    key = []

    def same(name, x, y):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape or not np.array_equal(x, y, equal_nan=True):
            raise Violation(f'{A.what}: {name} reads {x.tolist()} where an orbit whose caller kept its arrays alone reads {y.tolist()}')

    with np.errstate(all='ignore'):
        for op in case['ops']:
            A.__dict__['what'] = f'{cfg} {mode} {dtype} {how} after {key}'
            s = twin.snapshot(guide)
            c = twin.concrete(op, s)
            if c is None:
                continue
            e = tol.f64(s.kep[1])
            if c['op'] == 'read':
                for nm in twin.readable(c['names'], e):
                    same(nm, getattr(A, nm), getattr(B, nm))
                key.append('read:' + ','.join(c['names']))
                A.watch()
                continue
            if c['op'] == 'index' and not c['idx']:
                continue
            A = twin.apply(A, c, e)
            B = twin.apply(B, c, e)
            guide = twin.apply(guide, c, e)
            key.append(twin.describe(c))
            ctx.label('op ' + c['op'])
            A.watch()
        A.__dict__['what'] = f'{cfg} {mode} {dtype} {how} after {key}'
        order = ELEMENTS if case['pattern'][0] % 2 else ELEMENTS[::-1]
        bound = (np.array(B.e) < 1).all() and len(B)
        for nm in order + DERIVED:
            if nm in ('equinoctial', 'period', 'apoapsis') and not bound:
                continue
            same(nm, getattr(A, nm), getattr(B, nm))
        same('m', A.m, B.m)
        if np.asarray(A.m).dtype != np.asarray(B.m).dtype:
            raise Violation(f'{A.what}: precision of the masses')
        A.watch()
        # once more, after all the scribbling
        for nm in order:
            if nm == 'equinoctial' and not bound:
                continue
            same(nm, getattr(A, nm), getattr(B, nm))
        for x in (A._o[:], A._o.copy(), *([A._o[0]] if len(A) else []), *list(A._o)[:1]):
            for nm in ('kepler', 'cartesian', 'true_anomaly', 'mean_anomaly', 'r', 'anom'):
                y = getattr(x, nm)
                if y.dtype != DT[dtype]:
                    raise Violation(f'{A.what}: {nm} of an indexed orbit has precision {y.dtype}')
            if x.dtype != DT[dtype]:
                raise Violation(f'{A.what}: an indexed orbit has dtype {x.dtype}')
    ctx.label(f'{mode} {dtype}')
    ctx.label('from ' + how)
    ctx.count(1, [repr((cfg, mode, dtype, how, key))] if key else ())


# ------------------------------------------------------------------ precision

def run_single(case, ctx):
    """single precision against exact values of what was stored"""
    us = case['u']
    cfg = case['cfg']
    n = len(us)
    kep = twin.elements(us, par=case['view'] == 'kep')
    if not twin.good_kep(kep):
        raise OutOfDomain('start')
    e = kep[1]
    i = kep[2]
    # away from single-precision thresholds
    if ((e > 0) & (e < 0.05)).any() or ((i > 0) & ((i < 0.05) | (i > PI - 0.05))).any():
        raise OutOfDomain('start')
    f4 = np.float32
    o = pyorb.Orbit(M0=cfg['M0'], G=cfg['G'], num=n, dtype=f4, type=cfg['type'], degrees=cfg['degrees'], m=np.array([cfg['m'][j % len(cfg['m'])] for j in range(n)]),
                    solver_options=dict(tol=1e-6, max_iter=50), **twin.flags(case['mode']))
    mu = twin.mu_of(o)
    what = f'single precision {cfg} {case["mode"]} {case["view"]} {kep.tolist()}'
    deg = o.degrees
    if case['view'] == 'kep':
        k = twin.to_orb_kep(kep, o.type, deg)
        o.kepler = k.astype(f4) if case['given32'] else k
        stored = k.astype(f4).astype(np.float64)
        canon = twin.from_orb_kep(stored, o.type, deg)
        canon[1] = stored[1]
        want = ref.kep_to_cart(canon, mu)
        M = tol.f64(ref.true_to_mean(canon[5], canon[1]))
        p = tol.f64(ref.semilatus(canon[0], canon[1]))
        r = tol.f64(ref.norm(want[:3]))
        rate = np.where(e == 1, 4.0, (1 + e)**.5/np.abs(1 - e)**1.5)
        amp = 1 + e*r/p
        lim = 60*E32*(amp*(1 + rate*(1 + np.abs(M))) + np.abs(kep[2:5]).sum(axis=0) + amp*(1 + e)/np.where(e == 1, 1, np.abs(1 - e)))
        lim = lim + 20e-6*rate
        if case['mode'] == 'manual':
            o.calculate_cartesian()
        tol.same_state(np.array(o.cartesian, dtype=np.float64), want, lim, what, vscale=tol.vel_scale(tol.f64(canon), mu))
        if not np.array_equal(np.array(o.kepler, dtype=np.float64), stored):
            raise Violation(f'{what}: the stored elements read back as {o.kepler.tolist()}')
    else:
        c = twin.cart64(kep, mu).astype(f4)
        o.cartesian = c if case['given32'] else c.astype(np.float64)
        if case['mode'] == 'manual':
            o.calculate_kepler()
        S = ref.State(c.astype(np.float64), mu)
        cc = tol.CartCond(S, k=40, eps=E32)
        k = twin.from_orb_kep(np.array(o.kepler, dtype=np.float64), o.type, deg)
        got = ref.kep_to_cart(k, mu)
        tr = tol.f64(S.T if hasattr(S, 'T') else cc.T)
        near = np.abs(1 + e*np.cos(kep[5]))
        gap = np.where(e == 1, 1, np.abs(1 - e*e))
        lim = 2e-3*tr*(1 + 1/near)*(1 + 1/gap)*(1 + cc.kh)
        rate = np.where(e == 1, 4.0, (1 + e)**.5/np.abs(1 - e)**1.5)
        lim = np.minimum(lim*(1 + 0.1*rate/near*(o.type != 'true')), .5)
        tol.same_state(tol.f64(got), c.astype(np.float64), lim, what, vscale=tol.vel_scale(kep, mu))
        a = tol.f64(S.a)
        d = np.abs(np.array(o.a, dtype=np.float64)/a - 1)
        tol.check(d <= cc.a + 20*E32, what + ': a', np.array(o.a), a, d, cc.a)
        d = np.abs(np.array(o.e, dtype=np.float64) - tol.f64(S.e))
        tol.check(d <= cc.e + 20*E32, what + ': e', np.array(o.e), tol.f64(S.e), d, cc.e)
        if not np.array_equal(np.array(o.cartesian), c):
            raise Violation(f'{what}: the stored state reads back as {o.cartesian.tolist()}')
    for nm in ELEMENTS:
        if nm == 'equinoctial' and (np.array(o.e) >= 1).any():
            continue
        if getattr(o, nm).dtype != f4:
            raise Violation(f'{what}: {nm} has precision {getattr(o, nm).dtype}')
    if o.m.dtype != f4 or o[:1].m.dtype != f4:
        raise Violation(f'{what}: the masses have precision {o.m.dtype}')
    ctx.count(n, [repr((cfg, case['mode'], case['view'], u)) for u in us])
    ctx.label(f'single {case["mode"]} {case["view"]} {cfg["type"]}', n)


OPS = gs.one_of(twin.op_set(twin.SETTERS), twin.op_set(twin.SETTERS), twin.op_set(twin.SETTERS), twin.op_update, twin.op_update_m, twin.op_read,
                twin.op_read, twin.op_prop, twin.op_type, twin.op_copy, twin.op_index, twin.op_add, twin.op_add_full, twin.op_delete, twin.op_calc)
cases = gs.fixed_dictionaries(dict(
    cfg=twin.cfg_st, mode=gs.sampled_from(twin.MODES), dtype=gs.sampled_from(['f4', 'f8']), u=twin.uvecs,
    how=gs.sampled_from(['set', 'keparray', 'kep', 'cartarray', 'cart']), pattern=gs.lists(gs.integers(0, 7), min_size=1, max_size=6),
    ops=gs.lists(OPS, min_size=1, max_size=8)))
single = gs.fixed_dictionaries(dict(
    cfg=twin.cfg_st, mode=gs.sampled_from(twin.MODES), view=gs.sampled_from(['kep', 'cart']), given32=gs.booleans(),
    u=gs.lists(twin.uvec, min_size=1, max_size=6)))
SUBS = [
    Sub('memory', run, cases, (200, 4000), shards=(8, 8), random_n=(4000, 80000)),
    Sub('single', run_single, single, (100, 2000), shards=(4, 8), random_n=(2000, 60000)),
]
