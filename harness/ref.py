"""Reference models in extended precision, written from textbook definitions.

Nothing here is derived from pyorb: elements come from atan2 of vector products,
Kepler's equation is solved by safeguarded bisection/Newton, states come from
successive axis rotations.
"""
import numpy as np

LD = np.longdouble
PI = LD('3.14159265358979323846264338327950288')
TWOPI = 2*PI
EPS = 2.220446049250313e-16


def ld(x):
    return np.asarray(x, dtype=np.float64).astype(LD)


def cross(a, b):
    return np.stack([a[1]*b[2] - a[2]*b[1],
                     a[2]*b[0] - a[0]*b[2],
                     a[0]*b[1] - a[1]*b[0]])


def dot(a, b):
    return a[0]*b[0] + a[1]*b[1] + a[2]*b[2]


def norm(a):
    return np.sqrt(dot(a, a))


def rot(axis, ang, v):
    """Right-handed rotation of v (3,...) about a coordinate axis."""
    c, s = np.cos(ang), np.sin(ang)
    i, j = [(1, 2), (2, 0), (0, 1)][axis]
    out = [None]*3
    out[axis] = v[axis] + 0*c
    out[i] = c*v[i] - s*v[j]
    out[j] = s*v[i] + c*v[j]
    return np.stack(np.broadcast_arrays(*out))


def semilatus(a, e):
    """a: positive semi-major axis, or the periapsis distance if e == 1."""
    return np.where(e == 1, 2*a, a*np.abs((1 - e)*(1 + e)))


def kep_to_cart(kep, mu, rad=True):
    """kep rows a, e, i, omega, Omega, true anomaly -> (6,...) longdouble."""
    a, e, i, om, Om, nu = [np.asarray(x, dtype=LD) for x in kep]
    if not rad:
        f = PI/180
        i, om, Om, nu = i*f, om*f, Om*f, nu*f
    mu = np.asarray(mu, dtype=LD)
    p = semilatus(a, e)
    r = p/(1 + e*np.cos(nu))
    z = 0*r
    pos = np.stack([r*np.cos(nu), r*np.sin(nu), z])
    vs = np.sqrt(mu/p)
    vel = np.stack([-vs*np.sin(nu), vs*(e + np.cos(nu)), z])
    out = []
    for w in (pos, vel):
        w = rot(2, om, w)
        w = rot(0, i, w)
        w = rot(2, Om, w)
        out.append(w)
    return np.concatenate(out)


def wrap(x):
    """to [0, 2pi)"""
    return np.mod(x, TWOPI)


def angdiff(x, y, full=TWOPI):
    """|x - y| modulo a full turn, in [0, full/2]."""
    d = np.mod(np.asarray(x, dtype=LD) - np.asarray(y, dtype=LD), full)
    return np.minimum(d, full - d)


class State:
    """Orbit geometry of a state vector (6,...), radians."""

    def __init__(self, cart, mu):
        cart = np.asarray(cart, dtype=np.float64).astype(LD) \
            if np.asarray(cart).dtype != LD else np.asarray(cart)
        mu = np.asarray(mu, dtype=LD)
        r, v = cart[:3], cart[3:]
        self.r, self.v, self.mu = r, v, mu
        self.rn, self.vn = norm(r), norm(v)
        self.h = cross(r, v)
        self.hn = norm(self.h)
        self.energy = self.vn**2/2 - mu/self.rn
        self.evec = cross(v, self.h)/mu - r/self.rn
        self.e = norm(self.evec)
        self.p = self.hn**2/mu
        with np.errstate(all='ignore'):
            self.a = np.abs(mu/(2*self.energy))
            self.a = np.where(self.energy == 0, self.p/2, self.a)
        hh = self.h/self.hn
        hxy = np.sqrt(self.h[0]**2 + self.h[1]**2)
        self.i = np.arctan2(hxy, self.h[2])
        self.planar = hxy == 0
        node = np.stack([-self.h[1], self.h[0], 0*self.h[0]])
        node = np.where(self.planar, np.stack([1 + 0*hxy, 0*hxy, 0*hxy]),
                        node/np.where(self.planar, 1, hxy))
        self.Om = wrap(np.arctan2(node[1], node[0]))
        m = cross(hh, node)           # in-plane, 90 deg ahead of the node
        self.om = wrap(np.arctan2(dot(self.evec, m), dot(self.evec, node)))
        self.u = wrap(np.arctan2(dot(r, m), dot(r, node)))     # argument of latitude
        self.nu = wrap(np.arctan2(dot(r, cross(hh, self.evec)), dot(r, self.evec)))


# ------------------------------------------------------------ anomalies

def true_to_ecc(nu, e):
    """Elliptic: in the same turn as nu; hyperbolic/parabolic: signed."""
    nu, e = np.broadcast_arrays(np.asarray(nu, dtype=LD), np.asarray(e, dtype=LD))
    out = np.empty(nu.shape, dtype=LD)
    eli, hyp, par = e < 1, e > 1, e == 1
    n, k = nu[eli], e[eli]
    turn = np.round(n/TWOPI)
    n0 = n - turn*TWOPI
    # same half turn as nu
    out[eli] = np.arctan2(np.sqrt((1 - k)*(1 + k))*np.sin(n0), k + np.cos(n0)) + turn*TWOPI
    n = nu[hyp]
    n0 = n - np.round(n/TWOPI)*TWOPI
    k = e[hyp]
    out[hyp] = np.arcsinh(np.sqrt((k - 1)*(k + 1))*np.sin(n0)/(1 + k*np.cos(n0)))
    n = nu[par]
    n0 = n - np.round(n/TWOPI)*TWOPI
    out[par] = np.tan(n0/2)
    return out[()]


def ecc_to_true(E, e):
    """In (-pi, pi]."""
    E, e = np.broadcast_arrays(np.asarray(E, dtype=LD), np.asarray(e, dtype=LD))
    out = np.empty(E.shape, dtype=LD)
    eli, hyp, par = e < 1, e > 1, e == 1
    x, k = E[eli], e[eli]
    out[eli] = np.arctan2(np.sqrt((1 - k)*(1 + k))*np.sin(x), np.cos(x) - k)
    x, k = E[hyp], e[hyp]
    out[hyp] = np.arctan2(np.sqrt((k - 1)*(k + 1))*np.sinh(x), k - np.cosh(x))
    out[par] = 2*np.arctan(E[par])
    return out[()]


def ecc_to_mean(E, e):
    E, e = np.broadcast_arrays(np.asarray(E, dtype=LD), np.asarray(e, dtype=LD))
    return np.where(e < 1, E - e*np.sin(np.where(e < 1, E, 0)),
                    np.where(e > 1, e*np.sinh(np.where(e > 1, E, 0)) - E, E + E**3/3))


def mean_to_ecc(M, e):
    """Solve Kepler's equation; elliptic result in the same turn as M."""
    M, e = np.broadcast_arrays(np.asarray(M, dtype=LD), np.asarray(e, dtype=LD))
    M, e = M.copy(), e.copy()
    out = np.empty(M.shape, dtype=LD)
    eli, hyp, par = e < 1, e > 1, e == 1
    if eli.any():
        m, k = M[eli], e[eli]
        turn = np.round(m/TWOPI)
        m0 = m - turn*TWOPI
        sgn = np.where(m0 < 0, -1, 1)
        m0 = np.abs(m0)
        lo, hi = m0.copy(), m0 + k
        out[eli] = sgn*_root(lambda E: E - k*np.sin(E) - m0,
                             lambda E: 1 - k*np.cos(E), lo, hi) + turn*TWOPI
    if hyp.any():
        m, k = M[hyp], e[hyp]
        sgn = np.where(m < 0, -1, 1)
        m0 = np.abs(m)
        hi = np.minimum(np.cbrt(6*m0) + LD(1e-15)*(m0 > 0), m0/(k - 1))
        # tighten for large m: e sinh F - F >= m at F = asinh(2m/e + 4)
        hi = np.minimum(hi, np.arcsinh(2*m0/k + 10))
        out[hyp] = sgn*_root(lambda F: k*np.sinh(F) - F - m0,
                             lambda F: k*np.cosh(F) - 1, 0*m0, hi)
    if par.any():
        out[par] = 2*np.sinh(np.arcsinh(1.5*M[par])/3)
    return out[()]


def _root(f, fp, lo, hi):
    lo, hi = lo.copy(), hi.copy()
    for _ in range(45):
        mid = (lo + hi)/2
        neg = f(mid) < 0
        lo = np.where(neg, mid, lo)
        hi = np.where(neg, hi, mid)
    x = (lo + hi)/2
    for _ in range(6):
        d = fp(x)
        with np.errstate(all='ignore'):
            step = np.where(d > 0, f(x)/d, 0)
        y = x - step
        x = np.where((y >= lo) & (y <= hi), y, x)
    return x


def true_to_mean(nu, e):
    return ecc_to_mean(true_to_ecc(nu, e), e)


def mean_to_true(M, e):
    return ecc_to_true(mean_to_ecc(M, e), e)


def to_true(anom, e, kind):
    if kind == 'true':
        return np.asarray(anom, dtype=LD)
    if kind == 'eccentric':
        return ecc_to_true(anom, e)
    return mean_to_true(anom, e)


def from_true(nu, e, kind):
    if kind == 'true':
        return np.asarray(nu, dtype=LD)
    if kind == 'eccentric':
        return true_to_ecc(nu, e)
    return true_to_mean(nu, e)


def mean_motion(a, e, mu):
    """Rate of the mean anomaly (a: periapsis distance for a parabola)."""
    a, e, mu = [np.asarray(x, dtype=LD) for x in (a, e, mu)]
    return np.where(e == 1, np.sqrt(mu/(2*a**3)), np.sqrt(mu/a**3))


def propagate(kep_true, mu, dt):
    """kep (6,...) radians with true anomaly -> state after dt (longdouble)."""
    a, e, i, om, Om, nu = [np.asarray(x, dtype=LD) for x in kep_true]
    M = true_to_mean(nu, e) + mean_motion(a, e, mu)*np.asarray(dt, dtype=LD)
    nu1 = mean_to_true(M, e)
    return kep_to_cart([a, e, i, om, Om, nu1], mu)


def nu_max(e):
    """largest |true anomaly| on the physical branch"""
    e = np.asarray(e, dtype=np.float64)
    return np.where(e < 1, np.pi, np.arccos(-1/np.maximum(e, 1)))


# ------------------------------------------------------------ universal variables

def stumpff23(z):
    """c2, c3 in extended precision"""
    z = np.asarray(z, dtype=LD)
    c2 = np.zeros_like(z)
    c3 = np.zeros_like(z)
    small = np.abs(z) < 1
    zs = np.where(small, z, 0)
    t2, t3 = np.full_like(z, LD(1)/2), np.full_like(z, LD(1)/6)
    s2, s3 = t2.copy(), t3.copy()
    for k in range(1, 16):
        t2 = t2*(-zs)/((2*k + 1)*(2*k + 2))
        t3 = t3*(-zs)/((2*k + 2)*(2*k + 3))
        s2, s3 = s2 + t2, s3 + t3
    q = np.sqrt(np.abs(np.where(small, 1, z)))
    with np.errstate(all='ignore'):
        p2, p3 = (1 - np.cos(q))/(q*q), (q - np.sin(q))/q**3
        h2, h3 = (np.cosh(np.minimum(q, 11000)) - 1)/(q*q), (np.sinh(np.minimum(q, 11000)) - q)/q**3
    c2 = np.where(small, s2, np.where(z > 0, p2, h2))
    c3 = np.where(small, s3, np.where(z > 0, p3, h3))
    return c2, c3


def universal(cart, mu, dt):
    """Two-body motion of a state without elements (universal variables, f and g
    functions), extended precision."""
    cart = np.asarray(cart, dtype=LD)
    mu = np.asarray(mu, dtype=LD)
    dt = np.broadcast_to(np.asarray(dt, dtype=LD), cart.shape[1:])
    r0, v0 = cart[:3], cart[3:]
    rn = norm(r0)
    sm = np.sqrt(mu)
    s0 = dot(r0, v0)/sm
    al = 2/rn - dot(v0, v0)/mu

    def F(x):
        z = al*x*x
        c2, c3 = stumpff23(z)
        return s0*x*x*c2 + (1 - al*rn)*x**3*c3 + rn*x - sm*dt, z, c2, c3

    def r_of(x, z, c2, c3):
        return x*x*c2 + s0*x*(1 - z*c3) + rn*(1 - z*c2)

    # monotone in x: bracket, then bisect and polish
    sg = np.where(dt >= 0, LD(1), LD(-1))
    hi = np.abs(sm*dt)/rn + LD('1e-300')
    lo = np.zeros_like(hi)
    for _ in range(200):
        bad = sg*F(sg*hi)[0] < 0
        if not bad.any():
            break
        lo = np.where(bad, hi, lo)
        hi = np.where(bad, hi*2, hi)
    # a bracket from above may be far too wide for unbound orbits: shrink
    for _ in range(60):
        with np.errstate(all='ignore'):
            ok = np.isfinite(F(sg*hi)[0])
        if ok.all():
            break
        hi = np.where(ok, hi, (hi + lo)/2)
    for _ in range(90):
        mid = (lo + hi)/2
        pos = sg*F(sg*mid)[0] >= 0
        hi = np.where(pos, mid, hi)
        lo = np.where(pos, lo, mid)
    x = sg*(lo + hi)/2
    for _ in range(3):
        f, z, c2, c3 = F(x)
        x = x - f/r_of(x, z, c2, c3)
    f, z, c2, c3 = F(x)
    r = r_of(x, z, c2, c3)
    fl, gl = 1 - x*x*c2/rn, dt - x**3*c3/sm
    fd, gd = sm/(r*rn)*x*(z*c3 - 1), 1 - x*x*c2/r
    return np.concatenate([fl*r0 + gl*v0, fd*r0 + gd*v0])
