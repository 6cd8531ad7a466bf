"""C05: Kepler's equation is solved to the requested tolerance, always terminating."""
import numpy as np
import pyorb
from hypothesis import strategies as st
from pyorb import kepler as K
from ..core import Sub, OutOfDomain, Violation
from .. import gen, ref, tol

ID = 'C05'
RULE = ('distinct (M, e, start, options) solves that needed at least one iteration or the '
        'parabolic closed form; e = 0 and exact starts are trivial')
ASSUMPTIONS = ['max_iter >= 1', 'convergence (as opposed to termination) is demanded for the '
               'starting points the library uses, and for arbitrary starts with the default degree']
EPS = tol.EPS


def floor_of(E, M, e):
    """float64 resolution of the Kepler function at E"""
    E, M, e = [tol.f64(x) for x in (E, M, e)]
    Eh = np.where(e > 1, E, 0)
    with np.errstate(all='ignore'):
        h = (1 + np.abs(E))*e*np.cosh(Eh) + np.abs(E)
    f = np.where(e < 1, np.abs(E) + e, np.where(e > 1, h, (1 + np.abs(E))**3))
    return EPS*(np.abs(M) + f + 1)


def residual(E, M, e):
    return tol.f64(np.abs(ref.ecc_to_mean(E, e) - ref.ld(M)))


def run_solve(case, ctx):
    M, e = gen.col(case, 'M'), gen.col(case, 'e')
    if not (np.isfinite(M).all() and np.isfinite(e).all() and (e >= 0).all()):
        raise OutOfDomain('not finite')
    opts = case.get('opts')
    o = None if opts is None else dict(opts)
    t = 1e-12 if not opts else opts.get('tol', 1e-12)
    deg = bool(case.get('degrees'))
    x = np.degrees(M) if deg else M.copy()
    form = case.get('form', 'array')
    kw = dict(degrees=deg)
    if o is not None or form == 'scalar':
        kw['solver_options'] = o
    if form == 'scalar':
        E = np.array([K.mean_to_eccentric(float(a), float(b), **kw) for a, b in zip(x, e)], dtype=float)
    else:
        E = np.asarray(K.mean_to_eccentric(x, e.copy(), **kw))
    if o is not None and o != opts:
        raise Violation(f'solver_options were modified: {opts} -> {o}')
    tol.check(E.shape == M.shape, f'shape {E.shape} for {M.shape}')
    tol.finite(E, f'mean_to_eccentric({opts})')
    if deg:
        E = np.radians(E)
    r = residual(E, M, e)
    b = t + 8*floor_of(E, M, e)*(2 if deg else 1) + (EPS*4*(np.abs(M) + np.abs(E)*tol.f64(
        np.where(e > 1, e*np.cosh(np.where(e > 1, E, 0)), 1 + E*E*(e == 1)))) if deg else 0)
    tol.check(r <= b, f'mean_to_eccentric({form}, degrees={deg}, {opts}): residual', E, M, r, b)
    ctx.count_cols(np.vstack([M, e]), (e > 0) & (M != 0))
    for name, m in (('elliptic', e < 1), ('parabolic', e == 1), ('hyperbolic', e > 1),
                    ('negative M', M < 0), ('near parabolic', (e != 1) & (np.abs(e - 1) < 1e-3)),
                    ('unbound negative M', (M < 0) & (e >= 1)), ('beyond one turn', (np.abs(M) > 2*np.pi))):
        ctx.label(name, m.sum())


def gen_Me(rng, n, mmax):
    k = rng.integers(0, 12, n)
    e = np.choose(k, [np.zeros(n), 10**rng.uniform(-16, -1, n), rng.uniform(0, 1, n), rng.uniform(0, 1, n),
                      1 - 10**rng.uniform(-15.9, -1, n), 1 - 10**rng.uniform(-6, -1, n),
                      np.ones(n), np.ones(n), 1 + 10**rng.uniform(-15.5, 0, n),
                      1 + 10**rng.uniform(-6, 1, n), rng.uniform(1.001, 10, n), 10**rng.uniform(1, 6, n)])
    s = rng.choice([-1.0, 1.0], n)
    j = rng.integers(0, 6, n)
    M = np.choose(j, [s*10**rng.uniform(-16, 0, n), rng.uniform(0, 2*np.pi, n), rng.uniform(-25, 25, n),
                      s*10**rng.uniform(-3, np.log10(mmax), n),
                      np.asarray(gen.SPECIAL_ANGLES)[rng.integers(0, 13, n)]*s,
                      np.asarray(gen.SPECIAL_ANGLES)[rng.integers(0, 13, n)] + s*10**rng.uniform(-12, -3, n)])
    return M, e


def bulk_solve(rng, n):
    M, e = gen_Me(rng, n, 300.)
    case = dict(cols=dict(M=M, e=e), form='array', degrees=bool(rng.random() < .2))
    if rng.random() < .6:
        case['opts'] = dict(tol=float(10**rng.uniform(-12, -4)))
        if rng.random() < .7:
            case['opts']['degree'] = int(rng.integers(2, 15))
        if rng.random() < .5:
            case['opts']['max_iter'] = int(rng.integers(60, 400))
    return case


def bulk_wide(rng, n):
    """magnitudes whose residual cannot reach the tolerance: bounded iterations"""
    M, e = gen_Me(rng, n, 1e15)
    return dict(cols=dict(M=M, e=e), form='array',
                opts=dict(max_iter=60, tol=float(10**rng.uniform(-14, -9))))


@st.composite
def cases_solve(draw):
    rows = draw(st.lists(me(), min_size=1, max_size=3))
    c = dict(cols=dict(M=[r[0] for r in rows], e=[r[1] for r in rows]),
             form=draw(st.sampled_from(['array', 'scalar'])), degrees=draw(st.booleans()))
    if draw(st.booleans()):
        c['opts'] = dict(tol=draw(gen.logfl(1e-12, 1e-3)), degree=draw(st.integers(2, 12)),
                         max_iter=draw(st.integers(60, 500)))
    return c


@st.composite
def me(draw, mmax=300.0):
    e = draw(st.one_of(st.sampled_from([0.0, 0.5, 0.9, 0.99, 1.0, 1.01, 1.5, 2.0, 5.0]),
                       gen.fl(0, 1), gen.fl(-15, -1).map(lambda x: 1 - 10**x),
                       gen.fl(-15, 2).map(lambda x: 1 + 10**x)))
    M = draw(st.one_of(st.sampled_from([0.0, 1.0, -1.0, 5.0, -5.0, np.pi, -np.pi, 2*np.pi]),
                       gen.fl(-20, 20), gen.logfl(1e-16, mmax), gen.logfl(1e-16, mmax).map(lambda x: -x)))
    return M, e


# ------------------------------------------------------------------ direct

def run_direct(case, ctx):
    M, e, E0 = float(case['M']), float(case['e']), float(case['E0'])
    t, mi, dg = float(case['tol']), int(case['max_iter']), int(case['degree'])
    if e == 1 or not all(np.isfinite([M, e, E0, t])) or mi < 1 or dg < 1 or e < 0:
        raise OutOfDomain('parabola has no iteration')
    out = K.laguerre_solve_kepler(E0, M, e, tol=t, max_iter=mi, degree=dg)
    if len(out) != 2:
        raise Violation(f'returned {out!r}')
    E, it = out
    what = f'laguerre_solve_kepler({case}) -> {out}'
    if not (int(it) == it and 0 <= it <= mi):
        raise Violation(what + ': iteration count outside 0..max_iter')
    r0 = float(residual(np.array([E0]), np.array([M]), np.array([e]))[0])
    f0 = float(floor_of(E0, M, e))
    if it == 0:
        if E != E0:
            raise Violation(what + ': no iteration but a different value')
        if r0 >= t + 8*f0:
            raise Violation(what + f': no iteration although the start has residual {r0}')
    else:
        if r0 + 8*f0 < t:
            raise Violation(what + ': iterated from a start within tolerance')
        # the count is truthful: exactly that many steps are allowed and needed
        E2, it2 = K.laguerre_solve_kepler(E0, M, e, tol=t, max_iter=int(it), degree=dg)
        if it2 != it or not (E2 == E or (np.isnan(E) and np.isnan(E2))):
            raise Violation(what + f': with max_iter={it} the result is {(E2, it2)}')
        if it > 1:
            E3, it3 = K.laguerre_solve_kepler(E0, M, e, tol=t, max_iter=int(it) - 1, degree=dg)
            if it3 != it - 1:
                raise Violation(what + f': with max_iter={it - 1} it used {it3} iterations')
            if np.isfinite(E3):
                r3 = float(residual(np.array([E3]), np.array([M]), np.array([e]))[0])
                if r3 + 8*float(floor_of(E3, M, e)) < t:
                    raise Violation(what + ': continued after reaching the tolerance')
    good = case.get('start') == 'guess' and dg >= 2 or (
        dg == 5 and (e < 0.999 and abs(E0 - M) <= 20 or e >= 1.5 and abs(E0) <= 20 and abs(M) <= 20))
    if np.isfinite(E):
        r = float(residual(np.array([E]), np.array([M]), np.array([e]))[0])
        b = t + 8*float(floor_of(E, M, e))
        if r > b and (it < mi or (good and mi >= 150)):
            raise Violation(what + f': residual {r} above {b}')
    elif good:
        raise Violation(what + ': not finite')
    ctx.count(1, [(M, e, E0, t, mi, dg)] if it else ())
    ctx.label('hit max_iter' if it == mi else 'converged')
    ctx.label('hyperbolic' if e > 1 else 'elliptic')


@st.composite
def cases_direct(draw):
    M, e = draw(me(1e6))
    if e == 1:
        e = draw(st.sampled_from([0.5, 2.0, 0.95, 1.05]))
    start = draw(st.sampled_from(['guess', 'M', 'any']))
    if start == 'guess':
        E0 = float(K.kepler_guess(M, e))
        if not np.isfinite(E0):
            E0, start = 0.0, 'any'
    elif start == 'M' and abs(M) < 20:
        E0 = M
    else:
        start, E0 = 'any', draw(gen.fl(-20, 20))
    return dict(M=M, e=e, E0=E0, start=start,
                tol=draw(st.one_of(st.sampled_from([0.0, 1e-300, 1e-17, 1e-12]), gen.logfl(1e-16, 1e-1))),
                max_iter=draw(st.one_of(st.sampled_from([1, 2, 3, 5, 150, 300]), st.integers(1, 300))),
                degree=draw(st.one_of(st.sampled_from([5, 5, 2, 3, 1]), st.integers(2, 20))))


# ------------------------------------------------------------------ options passed on

def run_options(case, ctx):
    """everything that solves Kepler's equation does it with the options it was given"""
    M, e = np.array(case['cols']['M'], dtype=np.float64), np.array(case['cols']['e'], dtype=np.float64)
    ang = np.array(case['cols']['ang'], dtype=np.float64)
    ell = e < 1
    if not ((ell & (e > 0.05) & (e < 0.9) & (M > 0.05) & (M < 6.2)) | ((e > 1.2) & (e < 4) & (np.abs(M) < 20))).all() or \
            (ang < 0.05).any() or (ang > 3).any():
        raise OutOfDomain('margins')
    opts = dict(case['opts'])
    n = len(M)
    deg = bool(case['degrees'])
    f = 180/np.pi if deg else 1.0
    x = M*f
    E = np.array(K.mean_to_eccentric(x.copy(), e.copy(), degrees=deg, solver_options=dict(opts)))
    nu = np.array(K.eccentric_to_true(E.copy(), e.copy(), degrees=deg))
    ok = np.isfinite(E) & np.isfinite(nu)
    exact = tol.f64(ref.from_true(ref.mean_to_true(ref.ld(M), e), e, 'eccentric'))
    early = ok & (np.abs(E/f - exact) > 1e-5)
    ctx.label('stopped early', int(early.sum()))
    ctx.label('solved', int((ok & ~early).sum()))

    def near(got, want, what, turn):
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            raise Violation(f'{what}: shape {got.shape}')
        with np.errstate(all='ignore'):
            d = np.abs(got - want)/f
            if turn:
                d = np.minimum(np.mod(d, 2*np.pi), 2*np.pi - np.mod(d, 2*np.pi))
            good = ~ok | (d <= 1e-7*(1 + np.abs(want)/f*(not turn)))
        tol.check(good, f'{what}, {opts}, degrees={deg}', got, want, d)

    near(K.mean_to_true(x.copy(), e.copy(), degrees=deg, solver_options=dict(opts)), nu, 'mean_to_true', True)
    kep = np.stack([1 + e, e, ang[0], ang[1], ang[2], M])
    mu = 2.0
    k2 = kep.copy()
    k2[2:] *= f
    if ell.all():
        q = K.kep_to_equi(k2.copy(), degrees=deg)
        w = K.equi_to_kep(q.copy(), degrees=deg)
        w[5] = K.mean_to_true(w[5].copy(), w[1].copy(), degrees=deg, solver_options=dict(opts))
        state = ref.kep_to_cart(w, mu, rad=not deg)
        got = K.equi_to_cart(q.copy(), mu=mu, degrees=deg, solver_options=dict(opts))
        with np.errstate(all='ignore'):
            d = np.abs(got - tol.f64(state)).max(axis=0)
        tol.check(~ok | (d <= 1e-6*np.abs(got).max(axis=0)), f'equi_to_cart, {opts}, degrees={deg}', got, tol.f64(state), d)
    # the orbit object
    k3 = k2.copy()
    k3[5] = nu
    with np.errstate(all='ignore'):
        state = tol.f64(ref.kep_to_cart(k3, mu, rad=not deg))
    for typ in ('true', 'eccentric', 'mean'):
        how = case['how']
        o = pyorb.Orbit(M0=mu, G=1.0, num=n, degrees=deg, type='mean' if how == 'type' else typ, solver_options=dict(opts),
                        direct_update=case['direct'])
        start = k2.copy()
        if how in ('anomaly', 'equinoctial'):
            start[5] = 0.0
        if how == 'equinoctial':
            if not ell.all():
                return
            o.kepler = start
            o.equinoctial = K.kep_to_equi(k2.copy(), degrees=deg)
        elif how == 'anomaly':
            o.kepler = start
            o.mean_anomaly = x.copy()
        elif how == 'type':
            o.kepler = start
            o.type = typ
        else:
            if typ != 'mean':
                continue
            o.kepler = start
        what = f'Orbit(type={typ}) through {how}'
        near(o.true_anomaly, nu, what + ': true anomaly', True)
        near(o.eccentric_anomaly, E, what + ': eccentric anomaly', ell.all())
        if typ == 'mean':
            near(o.mean_anomaly, x, what + ': mean anomaly', ell.all())
        c = np.array(o.cartesian)
        with np.errstate(all='ignore'):
            d = np.abs(c - state).max(axis=0)
            good = ~ok | (d <= 1e-5*np.abs(state).max(axis=0))
        tol.check(good, f'{what}, {opts}, degrees={deg}: state', c, state, d)
    ctx.count_cols(np.vstack([M, e]), early)
    ctx.label('options through ' + case['how'])


def bulk_options(rng, n):
    n = int(rng.integers(1, 12))
    ell = rng.random() < .6
    e = rng.uniform(0.06, 0.89, n) if ell else rng.uniform(1.25, 3.9, n)
    M = rng.uniform(0.06, 6.19, n) if ell else rng.uniform(-19, 19, n)
    opts = dict(max_iter=int(rng.integers(1, 5)))
    if rng.random() < .5:
        opts = dict(tol=float(10**rng.uniform(-2, 0.3)))
    if rng.random() < .5:
        opts['degree'] = int(rng.integers(2, 9))
    return dict(cols=dict(M=M, e=e, ang=rng.uniform(0.06, 2.9, (3, n))), opts=opts, degrees=bool(rng.random() < .4),
                direct=bool(rng.random() < .7), how=['anomaly', 'equinoctial', 'type', 'elements'][rng.integers(4)])


SUBS = [
    Sub('options', run_options, None, (0, 0), bulk_options, (1500, 60000), 12, shards=(4, 8), cpu_limit=60.0),
    Sub('solve', run_solve, cases_solve(), (400, 8000), bulk_solve, (60, 2400), 400, shards=(8, 8), cpu_limit=60.0),
    Sub('wide', run_solve, None, (0, 0), bulk_wide, (8, 400), 300, shards=(4, 8), cpu_limit=60.0),
    Sub('direct', run_direct, cases_direct(), (1500, 16000), shards=(4, 8), cpu_limit=5.0),
]
