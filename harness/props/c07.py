"""C07: batch results equal one-at-a-time results, whatever the array layout."""
import numpy as np
from ..core import Sub, OutOfDomain, Violation
from .. import funcs, tol

ID = 'C07'
RULE = ('distinct member columns evaluated both in a batch of at least two and in another '
        'arrangement (alone, permuted, strided, reshaped, split, converted dtype)')
ASSUMPTIONS = ['signed integers of at least 32 bits; single precision compared to 2e-4 times conditioning']

VARIANTS = ['single', 'single', 'perm', 'stride', 'reverse', 'fortran', 'split', 'dup', 'shape', 'const',
            'int', 'int', 'float32', 'empty', 'zerod', 'npscalar', 'zerostride', 'poison']


def base_args(case, fn):
    return {k: np.array(case['cols'][k], dtype=np.float64) for k in fn.args}


def run(case, ctx):
    fn = funcs.BY_NAME[case['fn']]
    args = base_args(case, fn)
    var = case['variant']
    const = case.get('const')
    if const in args and var == 'const' and args[const].ndim == 1:
        args[const] = np.full_like(args[const], args[const][..., 0])
    if var == 'int':
        args = {k: np.round(v) for k, v in args.items()}
    funcs.valid(fn, args)
    deg = bool(case.get('degrees')) and fn.deg
    if deg:
        call_args = {k: funcs.to_deg(k, v) for k, v in args.items()}
        if var == 'int':
            call_args = {k: np.round(v) for k, v in call_args.items()}
            args = {k: funcs.to_rad(k, v) for k, v in call_args.items()}
            funcs.valid(fn, args)
    else:
        call_args = args
    n = next(iter(args.values())).shape[-1]
    d = deg if fn.deg else None
    kw = {}
    eps, stol = tol.EPS, 1e-12
    if var == 'float32':
        eps = 1.2e-7
        if fn.name in ('mean_to_eccentric', 'mean_to_true', 'equi_to_cart'):
            kw['solver_options'] = dict(max_iter=40, tol=1e-7)
            stol = 1e-6
        if fn.name == 'kepler_guess' or fn.name == 'cart_to_equi' or fn.name == 'cart_to_kep':
            raise OutOfDomain('no useful single precision bound')
        call_args = {k: v.astype(np.float32).astype(np.float64) for k, v in call_args.items()}
        args = {k: funcs.to_rad(k, v) for k, v in call_args.items()} if deg else call_args
        funcs.valid(fn, args)
        for v in args.values():
            if (np.abs(v) > 1e10).any() or (np.abs(v) < 1e-6)[v != 0].any():
                raise OutOfDomain('single precision range')

    sv = case.get('solver')
    if sv and var != 'float32' and fn.name in ('mean_to_eccentric', 'mean_to_true', 'equi_to_cart'):
        # a solver that stops early stops at the same place
        kw['solver_options'] = dict(sv)
        stol = 1e-9

    def f(a):
        return np.asarray(funcs.call(fn, a, d, **kw))

    rad = (lambda x: funcs.out_rad(fn.out, x)) if deg else (lambda x: x)
    base = rad(f({k: v.copy() for k, v in call_args.items()}))
    what = f'{fn.name}({var}, degrees={deg})'
    c = {k: v.copy() for k, v in call_args.items()}

    def cmp(got, a=args, ref=base, w=what):
        funcs.compare(fn, a, rad(np.asarray(got)), ref, w, eps=eps, solver_tol=stol)

    if var in ('single', 'npscalar'):
        out = []
        for j in range(n):
            one = {}
            for k, v in c.items():
                x = v[..., j].copy()
                one[k] = x if v.ndim > 1 else (float(x) if var == 'single' else np.float64(x))
            out.append(f(one))
        cmp(np.stack(out, axis=-1))
    elif var == 'perm':
        p = np.random.default_rng(case['perm']).permutation(n)
        got = f({k: v[..., p] for k, v in c.items()})
        back = np.empty_like(got)
        back[..., p] = got
        cmp(back)
    elif var in ('stride', 'reverse', 'fortran'):
        a = {}
        for k, v in c.items():
            if var == 'stride':
                big = np.full(v.shape[:-1] + (3*n,), np.nan)
                big[..., 1::3] = v
                a[k] = big[..., 1::3]
            elif var == 'reverse':
                a[k] = np.ascontiguousarray(v[..., ::-1])[..., ::-1]
            else:
                a[k] = np.array(v.T, order='C').T
        cmp(f(a))
    elif var == 'zerostride':
        # a broadcast view: every member is the same memory
        a = {k: np.broadcast_to(v[..., :1], v.shape) for k, v in c.items()}
        got = f(a)
        cmp(got, {k: np.repeat(v[..., :1], n, axis=-1) for k, v in args.items()},
            np.repeat(base[..., :1], n, axis=-1))
    elif var == 'split':
        k0 = max(1, min(n, int(case['perm']) % (n + 1)))
        got = f({k: v[..., :k0].copy() for k, v in c.items()})
        cmp(got, {k: v[..., :k0] for k, v in args.items()}, base[..., :k0])
        if k0 < n:
            got = f({k: v[..., k0:].copy() for k, v in c.items()})
            cmp(got, {k: v[..., k0:] for k, v in args.items()}, base[..., k0:])
    elif var == 'dup':
        got = f({k: np.concatenate([v, v[..., ::-1]], axis=-1) for k, v in c.items()})
        cmp(got[..., :n])
        cmp(got[..., n:][..., ::-1], w=what + ' reversed copy')
    elif var == 'shape':
        if fn.six or fn.out == 'matrix':
            raise OutOfDomain('fixed shape')
        m = max(1, n//3)
        k3 = min(3, n)
        a = {k: v[:m*k3].reshape(m, k3) for k, v in c.items()}
        small = {k: v[:m*k3] for k, v in args.items()}
        for form, g in (('2-D', lambda v: v), ('transposed 2-D', lambda v: np.ascontiguousarray(v.T).T),
                        ('3-D', lambda v: v.reshape(m, 1, k3)), ('Fortran 2-D', np.asfortranarray),
                        ('column slice', lambda v: np.repeat(v, 2, axis=1)[:, ::2])):
            got = f({k: g(v) for k, v in a.items()})
            shp = (m, 1, k3) if form == '3-D' else (m, k3)
            if got.shape != shp:
                raise Violation(f'{what} {form}: result shape {got.shape} for {shp}')
            cmp(got.reshape(-1), small, base[:m*k3], what + ' ' + form)
    elif var == 'const':
        if const not in fn.args or (fn.six and const == fn.args[0]) or len(fn.args) < 2:
            raise OutOfDomain('no such argument')
        a = dict(c)
        x = float(c[const][0])
        a[const] = x
        got = f(a)
        cmp(got)
        if x == np.round(x) and (abs(x) < 1290 or fn.six):
            # whole numbers as Python integers
            a[const] = int(x)
            cmp(f(a), w=what + ' int')
    elif var == 'int':
        which = case['which']
        for dt, top in ((np.int64, 2e9), (np.int32, 1290)):
            # 32 bits: only integers whose third powers still fit
            top = 2e9 if fn.six else top
            a = {}
            for j, (k, v) in enumerate(c.items()):
                pick = which == 'all' or which == j % 2
                if pick and (np.abs(v) < top).all():
                    a[k] = v.astype(dt)
                else:
                    a[k] = v
            cmp(f(a), w=what + f' {dt.__name__}')
    elif var == 'float32':
        got = f({k: v.astype(np.float32) for k, v in c.items()})
        cmp(got.astype(np.float64))
    elif var == 'zerod':
        if fn.six or fn.out == 'matrix':
            raise OutOfDomain('fixed shape')
        got = np.stack([f({k: np.array(v[j]) for k, v in c.items()}) for j in range(min(n, 20))])
        m = min(n, 20)
        cmp(got.reshape(-1), {k: v[:m] for k, v in args.items()}, base[:m])
    elif var == 'poison':
        # one member without a meaning must not disturb the others
        r = np.random.default_rng(case['perm'])
        j = int(r.integers(n))
        bad = [np.nan, 0.0, np.inf, -1.0][int(r.integers(4))]
        a = {k: np.insert(v, j, 0.0, axis=-1) for k, v in c.items()}
        which = [k for k in a if r.random() < 0.7] or list(a)
        for k in which:
            a[k][..., j] = bad
        for k in a:
            if k not in which:
                a[k][..., j] = a[k][..., j - 1]
        with np.errstate(all='ignore'):
            try:
                got = f(a)
            except Exception:
                try:
                    f({k: v[..., j:j + 1] for k, v in a.items()})
                except Exception:
                    raise OutOfDomain('refused on its own as well')
                raise
        cmp(np.delete(got, j, axis=-1), w=what + f' ({which} of member {j} set to {bad})')
    elif var == 'empty':
        got = f({k: v[..., :0].copy() for k, v in c.items()})
        shp = base.shape[:-1] + (0,)
        if got.shape != shp:
            raise Violation(f'{what}: empty batch gives shape {got.shape}, expected {shp}')
    else:
        raise OutOfDomain('unknown variant')
    ctx.count_cols(np.vstack([np.atleast_2d(v) for v in args.values()]),
                   None if n > 1 else np.zeros(n, bool))
    ctx.label(var, n)
    ctx.label(fn.name, n)


def ints(rng, fn, n):
    """integer-valued arguments in the domain"""
    def nu_for(e):
        lim = np.where(e < 1, 6, np.where(e == 1, 2, 1))
        return np.round(rng.uniform(-1, 1, n)*lim)
    e = rng.integers(0, 4, n).astype(float)
    big = rng.random() < 0.3      # integers whose squares and cubes leave the integer range

    def pos(hi=30):
        if big:
            return np.floor(10**rng.uniform(0, 9.2, n))
        return rng.integers(1, hi, n).astype(float)
    ang = lambda: rng.integers(-6, 7, n).astype(float)
    name = fn.name
    if name == 'kep_to_cart':
        return dict(kep=np.stack([pos(), e, rng.integers(0, 4, n).astype(float), ang(), ang(), nu_for(e)]), mu=pos())
    if name in ('cart_to_kep', 'cart_to_equi'):
        cart = rng.integers(-5, 6, (6, n)).astype(float)
        return dict(cart=cart, mu=pos(2000))
    if name == 'kep_to_equi':
        return dict(kepm=np.stack([pos(), np.zeros(n), rng.integers(0, 4, n).astype(float), ang(), ang(), ang()]))
    if name in ('equi_to_kep', 'equi_to_cart'):
        d = dict(equi=np.stack([pos(), np.zeros(n), np.zeros(n), ang(), ang(), ang()]))
        if name == 'equi_to_cart':
            d['mu'] = pos()
        return d
    if name == 'stumpff0' or name.startswith('stumpff'):
        return dict(x=rng.integers(-60, 61, n).astype(float))
    out = {}
    bound = name == 'elliptic_radius'
    if name in ('hyperbolic_radius', 'true_of_the_asymptote'):
        e = rng.integers(2, 6, n).astype(float)
    if bound:
        e = np.zeros(n)
    for k in fn.args:
        if k == 'e':
            out[k] = e
        elif k == 'nu':
            out[k] = nu_for(np.ones(n) if name == 'parabolic_radius' else e)
        elif k == 'M':
            out[k] = rng.integers(0, 7, n).astype(float) if name == 'kepler_guess' else ang()
        elif k in ('E', 'inc', 'omega', 'Omega'):
            out[k] = ang()
        elif k == 'a' and name == 'orbit_total_angular_momentum':
            out[k] = pos()*np.where(e > 1, -1, 1)
            out['e'] = e = np.where(e == 1, 2, e)
            out[k] = np.abs(out[k])*np.where(e > 1, -1, 1)
        else:
            out[k] = pos()
    if name == 'orbital_speed':
        out['a'] = out['r'] + pos()
    return out


DEG_INT = [15, 30, 45, 60, 90, 120, 180, 270, 10, 7]


def bulk(rng, n):
    fn = funcs.FUNCS[rng.integers(len(funcs.FUNCS))]
    if fn.six and rng.random() < 0.3:
        fn = funcs.FUNCS[rng.integers(6)]
    var = VARIANTS[rng.integers(len(VARIANTS))]
    deg = bool(rng.random() < 0.3)
    if var in ('single', 'npscalar'):
        n = min(n, 40)
    if rng.random() < 0.3:
        n = int(rng.integers(1, 6))
    if var == 'int':
        cols = ints(rng, fn, n)
        if fn.name in ('cart_to_kep', 'cart_to_equi'):
            ok = []
            for j in range(n):
                try:
                    funcs.valid(fn, {k: v[..., j:j + 1] for k, v in cols.items()})
                    ok.append(j)
                except OutOfDomain:
                    pass
            cols = {k: v[..., ok or [0]] for k, v in cols.items()}
    else:
        cols = fn.make(rng, n)
        if var == 'float32':
            for k in ('mu', 'h'):
                if k in cols:
                    cols[k] = 10**rng.uniform(-1, 2, n)
            if 'h' in cols:
                cols['h'] = np.sqrt(cols['mu'])
            ok = np.ones(n, bool)
            for v in cols.values():
                ok &= ((np.abs(v) > 1e-5) | (v == 0)).reshape(-1, n).all(axis=0)
            if ok.any():
                cols = {k: v[..., ok] for k, v in cols.items()}
    if var == 'const' and rng.random() < .5:
        # round values, in their domain or not
        k = fn.args[rng.integers(len(fn.args))]
        if cols[k].ndim == 1:
            cols = dict(cols)
            cols[k] = np.round(cols[k])
    solver = None
    if rng.random() < .3 and fn.name in ('mean_to_eccentric', 'mean_to_true', 'equi_to_cart'):
        solver = [dict(tol=0.5), dict(tol=0.5, degree=2), dict(tol=1e-3, degree=3), dict(tol=1e-12, max_iter=int(rng.integers(1, 6)))][rng.integers(4)]
    return dict(cols=cols, fn=fn.name, variant=var, degrees=deg, solver=solver, perm=int(rng.integers(1 << 30)),
                const=fn.args[rng.integers(len(fn.args))], which=['all', 0, 1][rng.integers(3)])


def run_large(case, ctx):
    """batches of thousands, against the same members in small batches"""
    fn = funcs.BY_NAME[case['fn']]
    args = base_args(case, fn)
    deg = bool(case.get('degrees')) and fn.deg
    funcs.valid(fn, args)
    c = {k: funcs.to_deg(k, v) for k, v in args.items()} if deg else args
    n = next(iter(args.values())).shape[-1]
    d = deg if fn.deg else None
    rad = (lambda x: funcs.out_rad(fn.out, x)) if deg else (lambda x: x)
    what = f'{fn.name}(batch of {n}, degrees={deg})'
    got = np.asarray(funcs.call(fn, {k: v.copy() for k, v in c.items()}, d))
    size = max(1, min(case['piece'], n))
    parts = [np.asarray(funcs.call(fn, {k: v[..., s:s + size].copy() for k, v in c.items()}, d))
             for s in range(0, n, size)]
    want = np.concatenate(parts, axis=-1)
    if got.shape != want.shape:
        raise Violation(f'{what}: shape {got.shape}, not {want.shape}')
    funcs.compare(fn, args, rad(got), rad(want), what)
    ctx.count_cols(np.vstack([np.atleast_2d(v) for v in args.values()]))
    ctx.label('large batches')


SIZES = [512, 1000, 1023, 1024, 1025, 2048, 2049, 4095, 4097, 5000, 8193, 10001, 16385, 20000, 32769, 65537, 100001]


def bulk_large(rng, n):
    fn = funcs.FUNCS[rng.integers(len(funcs.FUNCS))]
    n = int(rng.choice(SIZES))
    if fn.name in ('mean_to_eccentric', 'mean_to_true', 'equi_to_cart', 'kepler_guess'):
        n = min(n, 10001)
    u = rng.random()
    if u < 0.5:
        cols = fn.make(rng, n)
    else:
        # repeats of a smaller batch
        cols = {k: v[..., np.arange(n) % 500] for k, v in fn.make(rng, 500).items()}
    return dict(cols=cols, fn=fn.name, degrees=bool(rng.random() < 0.3), piece=int(rng.choice([100, 300, 700])))


SUBS = [Sub('large', run_large, None, (0, 0), bulk_large, (40, 1000), 1000, shards=(8, 8)),
        Sub('layout', run, None, (0, 0), bulk, (8000, 300000), 100, shards=(8, 8))]
