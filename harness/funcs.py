"""The public functions of pyorb.kepler as a table: domains, units, comparison."""
import numpy as np
from pyorb import kepler as K

from . import gen, ref, tol
from .core import OutOfDomain, Violation

PI = np.pi
TP = 2*np.pi
ANG = dict(kep=[2, 3, 4, 5], kepm=[2, 3, 4, 5], equi=[5], nu=True, E=True, M=True,
           inc=True, omega=True, Omega=True)


class Fn:
    def __init__(self, name, args, out, deg, make):
        self.name, self.args, self.out, self.deg, self.make = name, args, out, deg, make
        self.f = getattr(K, name)

    @property
    def six(self):
        return self.args[0] in ('kep', 'kepm', 'cart', 'equi')


def to_deg(name, x):
    k = ANG.get(name)
    if k is None:
        return x
    x = np.array(x, dtype=np.float64)
    if k is True:
        return np.degrees(x)
    x[k] = np.degrees(x[k])
    return x


def to_rad(name, x):
    k = ANG.get(name)
    if k is None:
        return x
    x = np.array(x)
    if k is True:
        return np.radians(x)
    x[k] = np.radians(x[k])
    return x


OUT_ANG = dict(kep=[2, 3, 4, 5], kepm=[2, 3, 4, 5], equi=[5], angle=True, ecc=True, mean=True)


def out_rad(out, x):
    k = OUT_ANG.get(out)
    if k is None:
        return x
    x = np.array(x)
    if k is True:
        return np.radians(x)
    x[k] = np.radians(x[k])
    return x


# ------------------------------------------------------------------ domains

def _orb(conics, frac=0.9, **kw):
    def f(rng, n):
        return gen.bulk_orbits(rng, n, conics=conics, unbound_frac=frac, a_range=(-1, 2), **kw)
    return f


ALL = ['circ', 'nearcirc', 'ell', 'ell', 'highell', 'hyp', 'hyp', 'bighyp', 'par']
BND = ['circ', 'nearcirc', 'ell', 'ell', 'highell']
OR_EQ = ['planar', 'gen', 'gen', 'polar', 'nearplanar']


def _kep(rng, n):
    return _orb(ALL)(rng, n)


def mk_kep_to_cart(rng, n):
    return dict(kep=_kep(rng, n), mu=gen.bulk_mu(rng, n))


def mk_cart(conics, orients=gen.ORIENT):
    def f(rng, n):
        kep = _orb(conics, orients=orients)(rng, n)
        mu = gen.bulk_mu(rng, n)
        cart = ref.kep_to_cart(kep, mu).astype(np.float64)
        pl = (kep[2] == 0) | (kep[2] == PI)
        cart[2] = np.where(pl, 0, cart[2])
        cart[5] = np.where(pl, 0, cart[5])
        # arccos-computed angles must stay away from the circular threshold
        return dict(cart=cart, mu=mu)
    return f


def mk_kepm(rng, n):
    return dict(kepm=_orb(BND, orients=OR_EQ)(rng, n))


def ref_equi(kep):
    a, e, i, om, Om, nu = [np.asarray(x, dtype=ref.LD) for x in kep]
    t = np.tan(i/2)
    return np.stack([a, e*np.sin(om + Om), e*np.cos(om + Om), t*np.sin(Om), t*np.cos(Om),
                     ref.wrap(om + Om + nu)])


def mk_equi(rng, n):
    return dict(equi=ref_equi(_orb(BND, orients=OR_EQ)(rng, n)).astype(np.float64))


def mk_equi_mu(rng, n):
    d = mk_equi(rng, n)
    d['mu'] = gen.bulk_mu(rng, n)
    return d


def mk_nu(rng, n):
    k = _kep(rng, n)
    return dict(nu=k[5], e=k[1])


def mk_E(rng, n):
    k = _kep(rng, n)
    E = tol.f64(ref.true_to_ecc(k[5], k[1]))
    E = np.where(k[1] < 1, E, np.clip(E, -6, 6))
    return dict(E=E, e=k[1])


def mk_M(rng, n):
    d = mk_E(rng, n)
    M = tol.f64(ref.ecc_to_mean(d['E'], d['e']))
    if n > 1 and rng.random() < 0.2:
        # the same mean anomalies on different orbits
        k = np.flatnonzero(d['e'] < 1)
        M[k] = gen.bulk_angle(rng, 2)[rng.integers(0, 2, k.size)]
    return dict(M=M, e=d['e'])


def mk_guess(rng, n):
    d = mk_M(rng, n)
    return dict(M=np.where(d['e'] < 1, np.mod(d['M'], TP), d['M']),
                e=np.where(d['e'] == 1, 0.5, d['e']))


def mk_euler(rng, n):
    k = _kep(rng, n)
    return dict(inc=k[2], omega=k[3], Omega=k[4])


def mk_dist(rng, n):
    k = _kep(rng, n)
    mu = gen.bulk_mu(rng, n)
    h = np.sqrt(mu*tol.f64(ref.semilatus(k[0], k[1])))
    return dict(h=h, mu=mu, e=k[1], nu=k[5])


def mk_erad(rng, n):
    k = _orb(BND)(rng, n)
    return dict(E=k[5], a=k[0], e=k[1])


def mk_prad(rng, n):
    k = _orb(['par'])(rng, n)
    return dict(nu=k[5], q=k[0])


def mk_hrad(rng, n):
    k = _orb(['hyp', 'bighyp'])(rng, n)
    return dict(nu=k[5], a=k[0], e=k[1])


def mk_speed(rng, n):
    a = 10**rng.uniform(-1, 3, n)*rng.choice([1, 1, -1], n)
    r = np.abs(a)*rng.uniform(0.01, 1.9, n)
    return dict(r=r, a=a, mu=gen.bulk_mu(rng, n))


def mk_period(rng, n):
    return dict(a=10**rng.uniform(-2, 4, n), mu=gen.bulk_mu(rng, n))


def mk_sma(rng, n):
    return dict(P=10**rng.uniform(-2, 4, n), mu=gen.bulk_mu(rng, n))


def mk_asym(rng, n):
    return dict(e=gen.bulk_ecc(rng, n, ['hyp', 'bighyp']))


def mk_h(rng, n):
    e = gen.bulk_ecc(rng, n, ['circ', 'ell', 'hyp'])
    return dict(a=10**rng.uniform(-2, 3, n)*np.where(e > 1, -1, 1), e=e, mu=gen.bulk_mu(rng, n))


def mk_hq(rng, n):
    return dict(q=10**rng.uniform(-2, 3, n), mu=gen.bulk_mu(rng, n))


def mk_x(rng, n):
    k = rng.integers(0, 5, n)
    s = rng.choice([-1.0, 1.0], n)
    x = np.choose(k, [s*10**rng.uniform(-12, 2, n), np.zeros(n), rng.uniform(-3, 3, n),
                      rng.uniform(-100, 100, n), s*10**rng.uniform(-2, 1, n)])
    return dict(x=x)


FUNCS = [Fn(*t) for t in [
    ('kep_to_cart', ['kep', 'mu'], 'cart', True, mk_kep_to_cart),
    ('cart_to_kep', ['cart', 'mu'], 'kep', True, mk_cart(ALL)),
    ('kep_to_equi', ['kepm'], 'equi', True, mk_kepm),
    ('equi_to_kep', ['equi'], 'kepm', True, mk_equi),
    ('cart_to_equi', ['cart', 'mu'], 'equi', True, mk_cart(['circ', 'ell', 'ell', 'highell'], OR_EQ)),
    ('equi_to_cart', ['equi', 'mu'], 'cart', True, mk_equi_mu),
    ('true_to_eccentric', ['nu', 'e'], 'ecc', True, mk_nu),
    ('eccentric_to_true', ['E', 'e'], 'angle', True, mk_E),
    ('eccentric_to_mean', ['E', 'e'], 'mean', True, mk_E),
    ('true_to_mean', ['nu', 'e'], 'mean', True, mk_nu),
    ('mean_to_eccentric', ['M', 'e'], 'ecc', True, mk_M),
    ('mean_to_true', ['M', 'e'], 'angle', True, mk_M),
    ('kepler_guess', ['M', 'e'], 'plain', False, mk_guess),
    ('euler_rotation_matrix', ['inc', 'omega', 'Omega'], 'matrix', True, mk_euler),
    ('orbital_distance', ['h', 'mu', 'e', 'nu'], 'plain', True, mk_dist),
    ('elliptic_radius', ['E', 'a', 'e'], 'plain', True, mk_erad),
    ('parabolic_radius', ['nu', 'q'], 'plain', True, mk_prad),
    ('hyperbolic_radius', ['nu', 'a', 'e'], 'plain', True, mk_hrad),
    ('orbital_speed', ['r', 'a', 'mu'], 'plain', False, mk_speed),
    ('orbital_period', ['a', 'mu'], 'plain', False, mk_period),
    ('semi_major_axis', ['P', 'mu'], 'plain', False, mk_sma),
    ('true_of_the_asymptote', ['e'], 'angle', True, mk_asym),
    ('orbit_total_angular_momentum', ['a', 'e', 'mu'], 'plain', False, mk_h),
    ('parabolic_total_angular_momentum', ['q', 'mu'], 'plain', False, mk_hq),
    ('stumpff0', ['x'], 'plain', False, mk_x),
    ('stumpff1', ['x'], 'plain', False, mk_x),
    ('stumpff2', ['x'], 'plain', False, mk_x),
    ('stumpff3', ['x'], 'plain', False, mk_x),
]]
BY_NAME = {f.name: f for f in FUNCS}


# ------------------------------------------------------------------ bounds

def rates(E, e):
    E, e = ref.ld(E), ref.ld(e)
    hyp = e > 1
    Eh = np.where(hyp, E, 0)
    k = np.where(e == 1, 1, np.sqrt(np.abs(1 - e*e)))
    dM = np.where(e < 1, 1 - e*np.cos(E), np.where(hyp, e*np.cosh(Eh) - 1, 1 + E*E))
    dE = np.where(e == 1, (1 + E*E)/2, dM/k)
    return tol.f64(dE), tol.f64(dM)


def _bound(fn, args, eps, solver_tol):
    """Absolute bound on the difference of two correct evaluations (radians)."""
    n = fn.name
    A = {k: np.asarray(v, dtype=np.float64) for k, v in args.items()}
    k = 64*eps
    if n in ('true_to_eccentric', 'true_to_mean'):
        E = tol.f64(ref.true_to_ecc(A['nu'], A['e']))
        dE, dM = rates(E, A['e'])
        b = k*((1 + np.abs(A['nu']))*(1 + dE) + np.abs(E))
        if n == 'true_to_mean':
            M = tol.f64(ref.ecc_to_mean(E, A['e']))
            b = b*(1 + dM) + k*(1 + np.abs(M) + np.abs(E))
        return b
    if n == 'eccentric_to_true':
        dE, dM = rates(A['E'], A['e'])
        return k*(1 + (1 + np.abs(A['E']))*(1 + 1/dE))
    if n == 'eccentric_to_mean':
        dE, dM = rates(A['E'], A['e'])
        M = tol.f64(ref.ecc_to_mean(A['E'], A['e']))
        return k*(1 + np.abs(A['E'])*(1 + dM) + np.abs(M))
    if n in ('mean_to_eccentric', 'mean_to_true'):
        E = tol.f64(ref.mean_to_ecc(A['M'], A['e']))
        dE, dM = rates(E, A['e'])
        b = (2*solver_tol + k*(1 + np.abs(A['M']) + np.abs(E)*(1 + dM)))/dM + k*(1 + np.abs(E))
        if n == 'mean_to_true':
            b = b/dE + k*7
        return b
    if n == 'euler_rotation_matrix':
        return k*(1 + np.abs(A['inc']) + np.abs(A['omega']) + np.abs(A['Omega']))
    if n == 'true_of_the_asymptote':
        return k*(1 + 1/np.sqrt(A['e']**2 - 1))
    return None


def _rel_bound(fn, A, eps):
    k = 64*eps
    n = fn.name
    if n in ('orbital_distance', 'hyperbolic_radius'):
        b = k*(1 + A['e']*(1 + np.abs(A['nu']))/np.abs(1 + A['e']*np.cos(A['nu'])))
        if n == 'hyperbolic_radius':
            b = b + k*A['e']/(A['e'] - 1)
        return b
    if n == 'parabolic_radius':
        return k*(1 + (1 + np.abs(A['nu']))/np.abs(1 + np.cos(A['nu'])))
    if n == 'elliptic_radius':
        return k*(1 + (1 + np.abs(A['E']))/(1 - A['e']))
    if n == 'orbital_speed':
        return k*(1 + (2/A['r'])/np.abs(2/A['r'] - 1/A['a']))
    if n == 'orbit_total_angular_momentum':
        return k*(1 + (1 + A['e'])/np.abs(1 - A['e']))
    if n == 'kepler_guess':
        return 1e9*eps
    return k


def angle_close(a, b, t, what):
    """Equal without modulo, except for a wrap at the boundary of a turn."""
    d = np.abs(np.asarray(a, dtype=ref.LD) - np.asarray(b, dtype=ref.LD))
    m = ref.angdiff(a, b)
    edge = tol.f64(np.minimum(ref.angdiff(a, 0), ref.angdiff(b, 0)))
    ok = (d <= t) | ((m <= t) & (edge <= t) & (d > 1))
    tol.check(ok, what, a, b, tol.f64(m), t)


def compare(fn, args, A, B, what, eps=tol.EPS, solver_tol=1e-12):
    """args: float64 columns in radians; A, B: outputs in radians, sample axis last."""
    A, B = np.asarray(A), np.asarray(B)
    if A.shape != B.shape:
        raise Violation(f'{what}: shape {A.shape} against {B.shape}')
    if A.size == 0:
        return
    nanA, nanB = np.isnan(A), np.isnan(B)
    if (nanA != nanB).any():
        raise Violation(f'{what}: not finite in one of {A.tolist() if A.size < 50 else "..."} and '
                        f'{B.tolist() if B.size < 50 else "..."}')
    n = A.shape[-1]
    if fn.out == 'cart':
        if fn.name == 'kep_to_cart':
            kep = args['kep']
            t = 64*eps*tol.kep_cond(kep)
        else:
            q = args['equi']
            e = np.hypot(q[1], q[2])
            kep = np.stack([q[0], e, 2*np.arctan(np.hypot(q[3], q[4])), 0*e, 0*e, q[5]])
            t = (64*eps*(10 + np.abs(q[5])) + 4*solver_tol)*4/(1 - e)**2.5 + 4e-9*(e < 2e-9)
        tol.same_state(A, B, t, what, vscale=tol.vel_scale(kep, args['mu']))
    elif fn.out == 'kep':
        S = ref.State(args['cart'], args['mu'])
        c = tol.CartCond(S, eps=eps)
        e = tol.f64(S.e)
        amb = np.abs(1 - e) <= 4*c.e
        with np.errstate(all='ignore'):
            ra = np.abs(A[0]/B[0] - 1)
        tol.check((ra <= 2*c.a) | amb | (c.a > 1e-1), what + ': a', A, B, ra, c.a)
        tol.check(np.abs(A[1] - B[1]) <= 2*c.e, what + ': e', A, B, None, c.e)
        tol.check(np.abs(A[2] - B[2]) <= 2*c.i, what + ': i', A, B, None, c.i)
        pl = tol.f64(c.si) < 1e-6
        circ = e < 1e-8
        for r, t in ((3, np.where(pl, c.om_pl, c.om)), (4, c.Om),
                     (5, np.where(circ, c.u + c.l + 4*e, c.nu))):
            t = 2*t + 64*eps
            d = tol.f64(ref.angdiff(A[r], B[r]))
            # folding thresholds are only crossed by bad luck
            tol.check((d <= t) | (t > 1e-1) | (pl & ~np.asarray(S.planar)), f'{what}: element {r}', A, B, d, t)
    elif fn.out == 'kepm':
        q = args['equi']
        e = np.hypot(q[1], q[2])
        tol.check(np.abs(A[0] - B[0]) <= 64*eps*np.abs(B[0]), what + ': a', A, B)
        tol.check(np.abs(A[1] - B[1]) <= 64*eps*np.abs(B[1]), what + ': e', A, B)
        tol.check(np.abs(A[2] - B[2]) <= 64*eps*(1e-300 + np.abs(B[2])), what + ': i', A, B)
        for r in (3, 4, 5):
            t = 64*eps*(8 + np.abs(q[5]))
            angle_close(A[r], B[r], t, f'{what}: element {r}')
    elif fn.out == 'equi' and fn.name == 'kep_to_equi':
        k = args['kepm']
        ang = 1 + np.abs(k[2:]).sum(axis=0)
        T = np.tan(k[2]/2)
        tol.check(np.abs(A[0] - B[0]) <= 64*eps*np.abs(B[0]), what + ': a', A, B)
        for r in (1, 2):
            tol.check(np.abs(A[r] - B[r]) <= 64*eps*k[1]*ang, f'{what}: element {r}', A, B)
        for r in (3, 4):
            tol.check(np.abs(A[r] - B[r]) <= 64*eps*(T*ang + k[2]*(1 + T*T)), f'{what}: element {r}', A, B)
        angle_close(A[5], B[5], 64*eps*ang, what + ': longitude')
    elif fn.out == 'equi':
        S = ref.State(args['cart'], args['mu'])
        e = tol.f64(S.e)
        # states here have e < 0.99 and i < pi - 1e-3
        t = 4e-6/(1 - e)**2*(eps/tol.EPS)**.5
        sc = np.stack([np.abs(B[0]), 1 + 0*e, 1 + 0*e, 1 + np.abs(B[3]), 1 + np.abs(B[4])])
        T2 = 1 + tol.f64(np.tan(S.i/2))**2
        for r in range(5):
            d = np.abs(A[r] - B[r])/sc[r]
            tol.check(d <= t*(T2 if r > 2 else 1), f'{what}: element {r}', A, B, d, t)
        angle_close(A[5], B[5], t, what + ': longitude')
    else:
        b = _bound(fn, args, eps, solver_tol)
        if b is None:
            with np.errstate(all='ignore'):
                rb = _rel_bound(fn, {k: np.asarray(v, dtype=np.float64) for k, v in args.items()}, eps)
            with np.errstate(all='ignore'):
                b = rb*np.maximum(np.abs(tol.f64(A)), np.abs(tol.f64(B)))
            b = b + 1e-300
            if fn.name.startswith('stumpff'):
                x = np.abs(np.asarray(args['x'], dtype=np.float64))
                b = 64*eps*(1 + np.sqrt(x))*np.maximum(np.abs(tol.f64(B)), np.minimum(1, 1/(1 + x)))
        same = A == B
        ok = same | np.isnan(A)
        with np.errstate(all='ignore'):
            if fn.name in ('true_to_eccentric', 'true_to_mean', 'eccentric_to_true', 'mean_to_true',
                           'mean_to_eccentric'):
                e = np.asarray(args['e'], dtype=np.float64)
                wraps = (e < 1) | np.isin(fn.name, ['eccentric_to_true', 'mean_to_true'])
                a, bb = np.where(ok, 0, A), np.where(ok, 0, B)
                d = np.abs(a - bb)
                m = tol.f64(ref.angdiff(a, bb))
                edge = tol.f64(ref.angdiff(bb, 0))
                good = ok | (d <= b) | (wraps & (m <= b) & (edge <= 2*b))
                tol.check(good, what, A, B, d, b)
            else:
                d = np.abs(A - B)
                good = ok | (d <= b)
                if good.ndim > 1:
                    good = good.reshape(-1, n).all(axis=0)
                tol.check(good, what, A, B, None, b)


def call(fn, args, deg=None, **kw):
    if fn.deg and deg is not None:
        kw['degrees'] = deg
    return fn.f(*[args[k] for k in fn.args], **kw)


def valid(fn, args):
    """Domain guard (shrinking and replays may leave the domain)."""
    def bad(msg):
        raise OutOfDomain(msg)
    for k, v in args.items():
        v = np.asarray(v, dtype=np.float64)
        if not np.isfinite(v).all() or (np.abs(v) > 1e25).any():
            bad('not finite')
        if k in ('mu', 'a', 'q', 'P', 'r', 'h') and fn.name not in ('orbital_speed', 'orbit_total_angular_momentum') \
                and (v < 1e-12).any():
            bad(k)
        if k == 'e' and ((v < 0).any() or ((v != 1) & (np.abs(v - 1) < 1e-5)).any()):
            bad(k)
        if ANG.get(k) is True and (np.abs(v) > 1e3).any():
            bad(k)
    A = {k: np.asarray(v, dtype=np.float64) for k, v in args.items()}
    if 'kep' in A:
        gen.require_orbits(A['kep'])
    if 'kepm' in A:
        gen.require_orbits(A['kepm'])
        if (A['kepm'][1] > 0.995).any() or (A['kepm'][2] > PI - 1e-4).any():
            bad('equinoctial domain')
    if 'equi' in A:
        if (np.hypot(A['equi'][1], A['equi'][2]) > 0.995).any() or (A['equi'][0] <= 1e-12).any() \
                or (np.hypot(A['equi'][3], A['equi'][4]) > 1e5).any() or (np.abs(A['equi'][5]) > 100).any():
            bad('equinoctial domain')
        e = np.hypot(A['equi'][1], A['equi'][2])
        if ((e > 5e-10) & (e < 2e-9)).any():
            bad('threshold')
    if 'cart' in A:
        S = ref.State(A['cart'], A['mu'])
        with np.errstate(all='ignore'):
            kh = tol.f64(S.rn*S.vn/S.hn)
        e = tol.f64(S.e)
        if not (np.isfinite(kh).all() and (kh < 1e3).all() and (S.rn > 1e-12).all()):
            bad('rectilinear')
        if ((e > 5e-10) & (e < 2e-9)).any() or ((e > 1 - 1e-4) & (e < 1 + 1e-4) & (e != 1)).any() \
                and fn.name == 'cart_to_equi':
            bad('threshold')
        si = tol.f64(np.hypot(S.h[0], S.h[1])/S.hn)
        if ((si > 0) & (si < 5e-6)).any():
            bad('near planar')
        if fn.name == 'cart_to_equi' and ((e > 0.995).any() or (S.i > PI - 5e-4).any()):
            bad('equinoctial domain')
    n = fn.name
    if n in ('true_to_eccentric', 'true_to_mean', 'orbital_distance', 'hyperbolic_radius'):
        w = np.abs(np.mod(A['nu'] + PI, TP) - PI)
        e = A['e'] + 0*w
        if (w > np.where(e < 1, 10, 0.96*np.arccos(-1/np.maximum(e, 1)))).any():
            bad('asymptote')
    if n == 'parabolic_radius' and (np.cos(A['nu']) < -0.999).any():
        bad('asymptote')
    if n in ('eccentric_to_true', 'eccentric_to_mean') and (np.abs(A['E'] + 0*A['e'])[A['e'] + 0*A['E'] >= 1] > 8).any():
        bad('far')
    if n.startswith('mean_to') and (np.abs(A['M'] + 0*A['e'])[A['e'] + 0*A['M'] >= 1] > 1e5).any():
        bad('far')
    if n == 'kepler_guess':
        M, e = np.broadcast_arrays(A['M'], A['e'])
        if ((e <= 1) & ((M < 0) | (M > TP))).any():
            bad('guess domain')
    if n in ('hyperbolic_radius', 'true_of_the_asymptote') and (A['e'] < 1.001).any():
        bad('hyperbola')
    if n == 'elliptic_radius' and (A['e'] > 0.995).any():
        bad('ellipse')
    if n == 'orbital_speed' and ((A['r'] < 1e-12) | (A['mu'] < 1e-12) | (A['a'] == 0)
                                 | (2/np.maximum(A['r'], 1e-12) - 1/np.where(A['a'] == 0, 1, A['a'])
                                    < 1e-9/np.maximum(A['r'], 1e-12))).any():
        bad('no speed')
    if n == 'orbit_total_angular_momentum' and ((A['a']*(1 - A['e']**2) <= 0) | (A['mu'] < 1e-12)).any():
        bad('no momentum')
    if n.startswith('stumpff') and (np.abs(A['x']) > 1e4).any():
        bad('magnitude')
