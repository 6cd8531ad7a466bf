"""C24: closed-form orbit formulas agree with each other."""
import numpy as np
from hypothesis import strategies as st
import pyorb
from pyorb import kepler as K
from ..core import Sub, OutOfDomain, Violation
from .. import gen, ref, tol

ID = 'C24'
RULE = 'distinct (a, e, nu, mu) columns with 0 < e and nu not a multiple of a half turn'
PI = np.pi
EPS = tol.EPS


def call(f, form, n, *args, **kw):
    """array call, member by member, or with the constant arguments as scalars"""
    if form == 'array':
        return np.asarray(f(*[a.copy() for a in args], **kw))
    if form == 'scalar':
        out = [f(*[float(a[j]) for a in args], **kw) for j in range(n)]
        if any(np.ndim(x) for x in out):
            raise Violation(f'{f.__name__}: array for scalars')
        return np.array(out)
    # mixed: one argument as an array, the others as scalars, member by member
    k = form % len(args)
    out = []
    for j in range(n):
        r = f(*[a[j:j + 1].copy() if i == k else float(a[j]) for i, a in enumerate(args)], **kw)
        if np.shape(r) != (1,):
            raise Violation(f'{f.__name__}: shape {np.shape(r)} for one array argument of size one')
        out.append(r[0])
    return np.array(out)


def run(case, ctx):
    a, e, nu, mu = [np.array(case['cols'][k], dtype=np.float64) for k in ('a', 'e', 'nu', 'mu')]
    n = a.size
    kep = np.stack([a, e, 0*a, 0*a, 0*a, nu])
    gen.require_orbits(kep, mu, frac=0.97)
    if ((np.abs(1 - e) < 1e-3) & (e != 1)).any() or (a < 1e-6).any():
        raise OutOfDomain('near parabola')
    if ((e == 1) & (np.abs(np.mod(nu + PI, 2*PI) - PI) > 3.0)).any():
        raise OutOfDomain('parabola far out')
    deg = bool(case.get('degrees'))
    form = case.get('form', 'array')
    nua = np.degrees(nu) if deg else nu
    f = 180/PI if deg else 1
    kw = dict(degrees=True) if deg else {}
    eli, hyp, par = e < 1, e > 1, e == 1
    near = np.abs(1 + e*np.cos(nu))
    gap = np.where(par, 1, np.abs(1 - e))
    cond = EPS*64*(1 + (1 + np.abs(nu))*(1 + e)/near + (1 + e)/gap)
    asgn = np.where(hyp, -a, a)

    # reference geometry
    w = ref.kep_to_cart(kep, mu)
    r_ref, v_ref = tol.f64(ref.norm(w[:3])), tol.f64(ref.norm(w[3:]))
    h_ref = tol.f64(ref.norm(ref.cross(w[:3], w[3:])))

    def same(name, x, y, lim, mask):
        if mask.any():
            with np.errstate(all='ignore'):
                d = np.abs(x/y - 1)
            tol.check(((d <= lim) | ~mask) if x.shape == mask.shape else d[mask] <= lim[mask],
                      f'{name} [{form}, degrees={deg}]', np.stack([np.where(mask, x, 0), np.where(mask, y, 0), a, e, nu, mu]), y, d, lim)

    def sub(fn, mask, *args, **kk):
        out = np.ones(n)
        if mask.any():
            out[mask] = call(fn, form, int(mask.sum()), *[x[mask] for x in args], **kk)
        return out

    # angular momentum
    h = sub(K.orbit_total_angular_momentum, ~par, asgn, e, mu)
    hp = sub(K.parabolic_total_angular_momentum, par, a, mu)
    h = np.where(par, hp, h)
    same('angular momentum', h, h_ref, cond, ~np.zeros(n, bool))
    # h from an orbit of the library: distance times transverse speed
    cart = pyorb.kep_to_cart(kep.copy(), mu=mu.copy())
    rr = np.linalg.norm(cart[:3], axis=0)
    vt = (cart[0]*cart[4] - cart[1]*cart[3])/rr
    same('distance times transverse speed', rr*vt, h, cond*4, ~np.zeros(n, bool))
    # distances
    r = call(K.orbital_distance, form, n, h, mu, e, nua, **kw)
    same('orbital_distance', r, r_ref, cond, ~np.zeros(n, bool))
    E = np.ones(n)
    if eli.any():
        E[eli] = call(K.true_to_eccentric, 'array' if isinstance(form, int) else form, int(eli.sum()), nua[eli], e[eli], **kw)
    same('elliptic_radius against orbital_distance', sub(K.elliptic_radius, eli, E, a, e, **kw), r, cond*(1 + 1/gap), eli)
    same('parabolic_radius against orbital_distance', sub(K.parabolic_radius, par, nua, a, **kw), r, cond, par)
    same('hyperbolic_radius against orbital_distance', sub(K.hyperbolic_radius, hyp, nua, a, e, **kw), r, cond, hyp)
    same('kep_to_cart distance', rr, r, cond*4, ~np.zeros(n, bool))
    # vis-viva
    av = np.where(hyp, -a, np.where(par, np.inf, a))
    v = call(K.orbital_speed, form, n, r, av, mu)
    x = np.abs(2/r_ref - np.where(par, 0, 1/np.where(hyp, -a, a)))
    lim_v = cond*(1 + (2/r_ref)/x)
    same('orbital_speed', v, v_ref, lim_v, ~np.zeros(n, bool))
    same('kep_to_cart speed', np.linalg.norm(cart[3:], axis=0), v, lim_v + cond*4, ~np.zeros(n, bool))
    # period and semi-major axis
    P = call(K.orbital_period, form, n, a, mu)
    Pw = tol.f64(2*ref.PI*np.sqrt(ref.ld(a)**3/ref.ld(mu)))
    one = np.full(n, 64*EPS)
    same('orbital_period', P, Pw, one, ~np.zeros(n, bool))
    same('semi_major_axis of the period', call(K.semi_major_axis, form, n, P, mu), a, one, ~np.zeros(n, bool))
    same('period of the semi-major axis', call(K.orbital_period, form, n, call(K.semi_major_axis, form, n, a, mu), mu), a, one,
         ~np.zeros(n, bool))
    # asymptote
    if hyp.any():
        th = np.ones(n)
        th[hyp] = call(K.true_of_the_asymptote, form if not isinstance(form, int) else 0, int(hyp.sum()), e[hyp], **kw)
        same('true_of_the_asymptote', th, f*np.arccos(-1/np.where(hyp, e, 2)), np.full(n, 1e-13) + EPS*64/gap, hyp)
        tol.check(((th > 90*f*PI/180) & (th < 180*f*PI/180)) | ~hyp, 'asymptote angle range', th)
        for d in (1e-4, 0.02, 0.3):
            for s in (1, -1):
                ins = s*np.maximum(th - d*f, 0)
                out = s*np.minimum(th + d*f, f*PI*0.9999 + 0*th)
                ri = sub(K.hyperbolic_radius, hyp, ins, a, e, **kw)
                tol.check(~hyp | (np.isfinite(ri) & (ri > 0)), f'hyperbolic distance inside the asymptote ({ins})', ri)
                outside = hyp & (np.abs(out) > th + 1e-6*f)
                ro = sub(K.hyperbolic_radius, outside, out, a, e, **kw)
                tol.check(~outside | ~(np.isfinite(ro) & (ro > 0)), 'hyperbolic distance outside the asymptote', ro)
                # whole turns do not matter
                rt = sub(K.hyperbolic_radius, hyp, ins + 2*PI*f, a, e, **kw)
                dd = np.abs(rt/ri - 1)
                tol.check(~hyp | (dd <= 1e-9 + 64*EPS*e*10/np.abs(1 + e*np.cos(ins/f))), 'hyperbolic distance a turn later', rt, ri, dd)
    ctx.count_cols(np.stack([a, e, nu, mu]), (e > 0) & (np.abs(np.sin(nu)) > 1e-9))
    ctx.label(f'form {form}', n)
    ctx.label('elliptic', eli.sum())
    ctx.label('parabolic', par.sum())
    ctx.label('hyperbolic', hyp.sum())


def run_asymptote(case, ctx):
    """from just above one to very large eccentricities"""
    e = np.array(case['cols']['e'], dtype=np.float64)
    if not (np.isfinite(e).all() and (e > 1 + 1e-12).all() and (e < 1e12).all()):
        raise OutOfDomain('eccentricity')
    n = e.size
    deg = bool(case.get('degrees'))
    th = call(K.true_of_the_asymptote, case['form'], n, e, **(dict(degrees=True) if deg else {}))
    L = ref.ld(e)
    w = ref.PI - np.arctan(np.sqrt((L - 1)*(L + 1)))
    t = np.radians(th) if deg else th
    d = np.abs(tol.f64(t - w))
    lim = 16*EPS*(1 + 1/np.sqrt(e - 1))
    tol.check(d <= lim, f'true_of_the_asymptote [{case["form"]}, degrees={deg}]', th, tol.f64(w), d, lim)
    ctx.count_cols(e[None])
    ctx.label('asymptote', n)


def bulk_asymptote(rng, n):
    kind = rng.integers(0, 3, n)
    e = np.where(kind == 0, 1 + 10**rng.uniform(-11, 0, n), np.where(kind == 1, rng.uniform(1, 5, n) + 1e-9, 10**rng.uniform(0.1, 11, n)))
    return dict(cols=dict(e=e), degrees=bool(rng.random() < .4), form='array' if rng.random() < .6 else 'scalar')


FORMS = ['array', 'scalar', 0, 1, 2]


@st.composite
def cases(draw):
    c = draw(gen.rows(gen.orbit(orients=['planar'], conics=['circ', 'ell', 'ell', 'highell', 'hyp', 'hyp', 'bighyp', 'par', 'midpar'],
                                unbound_frac=0.95), mu=gen.mu_st))
    k = c['kep']
    return dict(cols=dict(a=k[0], e=k[1], nu=k[5], mu=c['mu']), degrees=draw(st.booleans()), form=draw(st.sampled_from(FORMS)))


def bulk(rng, n):
    k = gen.bulk_orbits(rng, n, conics=['circ', 'nearcirc', 'ell', 'ell', 'highell', 'hyp', 'hyp', 'bighyp', 'par', 'midpar'])
    form = 'array' if rng.random() < .7 else FORMS[rng.integers(1, 5)]
    return dict(cols=dict(a=k[0], e=k[1], nu=k[5], mu=gen.bulk_mu(rng, n)), degrees=bool(rng.random() < .4), form=form)


SUBS = [Sub('asymptote', run_asymptote, None, (0, 0), bulk_asymptote, (60, 3000), 100),
        Sub('formulas', run, cases(), (500, 15000), bulk, (200, 8000), 300, shards=(4, 8))]
