"""C28: arguments mean the same by name, by position and left at their default."""
import numpy as np
import pyorb
from pyorb import kepler as K
from ..core import Sub, OutOfDomain, Violation
from .. import funcs, gen, twin
from .. import gs as st

ID = 'C28'
RULE = 'distinct (function, way of calling, first member): at least one argument passed by name or left out'

PARAM = dict(kepm='kep')
SOLVER = ('mean_to_eccentric', 'mean_to_true', 'equi_to_cart')
WAYS = ['names', 'names reversed', 'half', 'positions', 'default mu', 'default degrees', 'default solver', 'pyorb', 'repeat']
# options after the arguments, in the documented order
TAIL = {'equi_to_cart': ['solver_options', 'degrees'], 'mean_to_eccentric': ['solver_options', 'degrees'],
        'mean_to_true': ['solver_options', 'degrees']}


def equal(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype or not np.array_equal(a, b, equal_nan=True):
        raise Violation(f'{what}: {a.tolist()} against {b.tolist()}')


def run(case, ctx):
    fn = funcs.BY_NAME[case['fn']]
    args = {k: np.array(case['cols'][k], dtype=np.float64) for k in fn.args}
    funcs.valid(fn, args)
    deg = bool(case['degrees']) and fn.deg
    way = case['way']
    call = {k: funcs.to_deg(k, v) for k, v in args.items()} if deg else args
    if case['form'] == 'vector':
        call = {k: v[..., 0].copy() if v.ndim > 1 else float(v[0]) for k, v in call.items()}
    elif case['form'] == 'mixed' and fn.six and 'mu' in call:
        call = dict(call, mu=float(call['mu'][0]))
    if way == 'default mu':
        if not fn.six or 'mu' not in call:
            raise OutOfDomain('no default mu')
        call = dict(call, mu=float(pyorb.GM_sol))
        if 'cart' in call:
            # physical states for this mu
            k = np.array(gen_kep(args['cart'].shape[-1], case['seed']))
            c = K.kep_to_cart(k, mu=pyorb.GM_sol)
            call['cart'] = c[:, 0].copy() if case['form'] == 'vector' else c
    names = [PARAM.get(k, k) for k in fn.args]
    vals = [call[k] for k in fn.args]

    def fresh():
        return [v.copy() if isinstance(v, np.ndarray) else v for v in vals]

    opts = {}
    if fn.name in SOLVER:
        opts['solver_options'] = dict(case['solver']) if way != 'default solver' else None
    if fn.deg:
        opts['degrees'] = deg
    with np.errstate(all='ignore'):
        base = fn.f(*fresh(), **opts)
        what = f'{fn.name} {way}, degrees={deg}'
        if opts.get('solver_options') is not None:
            # options left out, one by one
            full = dict(dict(tol=1e-12, max_iter=5000, degree=5), **opts['solver_options'])
            equal(fn.f(*fresh(), **dict(opts, solver_options=full)), base, f'{what}: {opts} completed')
        if way == 'names':
            got = fn.f(**dict(zip(names, fresh())), **opts)
        elif way == 'names reversed':
            got = fn.f(**dict(list(opts.items())[::-1]), **dict(list(zip(names, fresh()))[::-1]))
        elif way == 'half':
            k = case['seed'] % len(names)
            got = fn.f(*fresh()[:k], **dict(zip(names[k:], fresh()[k:])), **opts)
        elif way == 'positions':
            got = fn.f(*fresh(), *[opts[k] for k in TAIL.get(fn.name, ['degrees']) if k in opts])
        elif way == 'default mu':
            got = fn.f(fresh()[0], **opts)
        elif way == 'default degrees':
            if not fn.deg or deg:
                raise OutOfDomain('degrees')
            got = fn.f(*fresh(), **{k: v for k, v in opts.items() if k != 'degrees'})
        elif way == 'default solver':
            if fn.name not in SOLVER:
                raise OutOfDomain('no solver')
            o = {k: v for k, v in opts.items() if k != 'solver_options'}
            got = fn.f(*fresh(), **o)
            equal(fn.f(*fresh(), solver_options=dict(tol=1e-12, max_iter=5000, degree=5), **o), base, what + ' written out')
            equal(fn.f(*fresh(), solver_options={}, **o), base, what + ' empty')
            equal(fn.f(*fresh(), solver_options=dict(degree=5), **o), base, what + ' partly')
        elif way == 'pyorb':
            if not hasattr(pyorb, fn.name):
                raise OutOfDomain('not exported')
            got = getattr(pyorb, fn.name)(*fresh(), **opts)
        else:
            fn.f(*fresh(), **dict(opts, **({'degrees': not deg} if fn.deg else {})))
            got = fn.f(*fresh(), **opts)
    equal(got, base, what)
    ctx.count_cols(np.vstack([np.atleast_2d(v) for v in args.values()])[:, :1])
    ctx.label(way)
    ctx.label(fn.name)


def gen_kep(n, seed):
    rng = np.random.default_rng(seed)
    return np.stack([1.5e11*10**rng.uniform(-1, 1, n), rng.uniform(0.01, .9, n), rng.uniform(.05, 3, n)]
                    + [rng.uniform(0, 2*np.pi, n) for _ in range(3)])


def bulk(rng, n):
    fn = funcs.FUNCS[rng.integers(len(funcs.FUNCS))]
    return dict(fn=fn.name, cols=fn.make(rng, n), degrees=bool(rng.random() < .5), way=WAYS[rng.integers(len(WAYS))],
                form=['array', 'vector', 'mixed'][rng.integers(3)], seed=int(rng.integers(1000)),
                solver=[{}, dict(max_iter=2), dict(tol=1e-4), dict(degree=3, max_iter=60)][rng.integers(4)])


# ------------------------------------------------------------------ the rest of the interface

def run_other(case, ctx):
    u, k = case['u'], case['k']
    x = 10*(u[0] - .5)
    with np.errstate(all='ignore'):
        if k == 'laguerre':
            M, e = 6*u[1], .9*u[2]
            a = K.laguerre_solve_kepler(M + .1, M, e, 1e-12, 5000, 5)
            for b in (K.laguerre_solve_kepler(M + .1, M, e), K.laguerre_solve_kepler(e=e, M=M, E0=M + .1),
                      K.laguerre_solve_kepler(M + .1, M, e, degree=5), K.laguerre_solve_kepler(M + .1, M, e, max_iter=5000, tol=1e-12)):
                equal(b, a, f'laguerre_solve_kepler({M + .1}, {M}, {e}) by name or default')
            t, d, mi = [1e-3, 1e-8][u[3] < .5], [3, 8][u[4] < .5], 2 + int(u[5]*5)
            equal(K.laguerre_solve_kepler(M + 2, M, e, t, mi, d), K.laguerre_solve_kepler(degree=d, max_iter=mi, tol=t, e=e, M=M, E0=M + 2),
                  'laguerre_solve_kepler by position and by name')
        elif k == 'rot':
            for nm in ('rot_mat_x', 'rot_mat_y', 'rot_mat_z'):
                f = getattr(K, nm)
                equal(f(x), f(theta=x, dtype=np.float64), nm)
                equal(f(x, np.float32), f(dtype=np.float32, theta=x), nm)
        elif k == 'stumpff':
            equal(K.stumpff0(x), K.stumpff0(x=x), 'stumpff0')
            a, b = K.stumpff(x), K.stumpff(x=x)
            for j, f in enumerate((K.stumpff0, K.stumpff1, K.stumpff2, K.stumpff3)):
                if not np.isclose(a[j], f(x), rtol=1e-9, atol=1e-12):
                    raise Violation(f'stumpff({x})[{j}] is {a[j]}, stumpff{j} gives {f(x)}')
                equal(b[j], a[j], f'stumpff(x={x})')
        elif k == 'get_G':
            le, m, t = ['m', 'AU', 'km', 'pc', 'cm', 2.5][int(u[0]*5.99)], ['kg', 'g', 'Msol', 3.5][int(u[1]*3.99)], ['s', 'h', 'd', 'y', 1.5][int(u[2]*4.99)]
            a = pyorb.get_G(le, m, t)
            equal(pyorb.get_G(length=le, mass=m, time=t), a, 'get_G by name')
            equal(pyorb.get_G(time=t, mass=m, length=le), a, 'get_G by name')
            equal(pyorb.unit.get_G(le, time=t, mass=m), a, 'unit.get_G')
        elif k == 'equivalent':
            p = np.array([1 + u[0], .1 + .5*u[1], .2 + u[2], u[3], u[4], u[5]])
            q = p.copy()
            if u[6] < .5:
                q[int(u[6]*11.99)] += .1
            if bool(K.kep_equivalent(kep2=q.copy(), kep1=p.copy())) != bool(K.kep_equivalent(p.copy(), q.copy())):
                raise Violation(f'kep_equivalent by name: {p.tolist()} {q.tolist()}')
        elif k == 'orbit':
            run_methods(u, case, ctx)
            return
        else:
            raise OutOfDomain(k)
    ctx.count(1, [repr((k, u))])
    ctx.label(k)


def run_methods(u, case, ctx):
    """Orbit's methods: documented names, and the defaults of the selectors"""
    n = 1 + int(u[6]*3.99)
    cfg = dict(m=[0.25]*n, type=case['type'], degrees=case['degrees'], mode=case['mode'])
    o = twin.make(cfg)
    kep = twin.elements([[x for x in u[j % 7:] + u[:j % 7]] for j in range(n)])
    if not twin.good_kep(kep):
        raise OutOfDomain('elements')
    o.kepler = twin.to_orb_kep(kep, o.type, o.degrees)
    j = int(u[1]*n*.999)
    a, b = o.copy(), o.copy()
    m = case['method']
    if m == 'update':
        a.update(j, a=2.0)
        b.update(a=2.0, inds=j)
    elif m == 'update all':
        a.update(slice(None), a=2.0, e=.3)
        b.update(e=.3, a=2.0)
    elif m == 'add':
        a.add(2, a=1.0, e=.1, i=.2, omega=.3, Omega=.4, anom=.5, m=.5)
        b.add(m=.5, anom=.5, Omega=.4, omega=.3, i=.2, e=.1, a=1.0, num=2)
    elif m == 'add one':
        a.add(1, a=1.0, e=.1, i=.2, omega=.3, Omega=.4, anom=.5)
        b.add(anom=.5, Omega=.4, omega=.3, i=.2, e=.1, a=1.0)
        try:
            b.add(**{twin.KEP[int(u[0]*5.99)]: np.array([.1, .2])})
        except ValueError:
            pass
        else:
            raise Violation(f'add without a number accepts two values: {len(b)} orbits')
    elif m == 'delete':
        a.delete(j)
        b.delete(inds=j)
    elif m == 'allocate':
        a.allocate(n + 1)
        b.allocate(num=n + 1)
    elif m == 'propagate':
        a.propagate(u[0])
        b.propagate(dt=u[0])
    elif m in ('calculate_cartesian', 'calculate_kepler'):
        if m == 'calculate_kepler':
            a.cartesian, b.cartesian   # pending conversions are made first
            if case['mode'] == 'manual':
                raise OutOfDomain('nothing to convert')
        getattr(a, m)(j)
        getattr(b, m)(inds=j)
        getattr(a, m)(slice(None))
        getattr(b, m)()
    elif m in ('calc_true_anomaly', 'calc_mean_anomaly', 'calc_eccentric_anomaly'):
        getattr(a, m)(slice(None))
        getattr(b, m)()
        getattr(b, m)(inds=slice(None))
    else:
        raise OutOfDomain(m)
    what = f'{m} of {n}, {cfg}'
    if len(a) != len(b):
        raise Violation(f'{what}: {len(a)} against {len(b)} orbits')
    for nm in ('kepler', 'cartesian', 'm', 'true_anomaly', 'mean_anomaly', 'eccentric_anomaly'):
        equal(getattr(a, nm), getattr(b, nm), f'{what}: {nm}')
    if m in ('update', 'update all', 'propagate', 'calculate_cartesian', 'calculate_kepler', 'allocate') or m.startswith('calc_'):
        # the original is not touched
        equal(o.kepler, twin.to_orb_kep(kep, o.type, o.degrees), f'{what}: original')
    ctx.count(1, [repr((m, cfg, u))])
    ctx.label('Orbit.' + m)


METHODS = ['update', 'update all', 'add', 'add one', 'delete', 'allocate', 'propagate', 'calculate_cartesian', 'calculate_kepler',
           'calc_true_anomaly', 'calc_mean_anomaly', 'calc_eccentric_anomaly']
other = st.fixed_dictionaries(dict(k=st.sampled_from(['laguerre', 'rot', 'stumpff', 'get_G', 'equivalent', 'orbit', 'orbit', 'orbit']), u=twin.uvec,
                                   type=st.sampled_from(twin.TYPES), degrees=st.booleans(), mode=st.sampled_from(twin.MODES),
                                   method=st.sampled_from(METHODS)))
SUBS = [
    Sub('functions', run, None, (0, 0), bulk, (6000, 100000), 4, shards=(4, 8)),
    Sub('others', run_other, other, (200, 3000), random_n=(3000, 60000)),
]
