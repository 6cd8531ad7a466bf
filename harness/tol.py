"""Error bounds shared by the properties (all relative unless said otherwise)."""
import numpy as np
from . import ref
from .core import Violation

EPS = ref.EPS
PI = np.pi


def f64(x):
    return np.asarray(x, dtype=np.float64)


def kep_cond(kep):
    """Amplification of input rounding in elements -> state (radians)."""
    a, e, i, om, Om, nu = [f64(x) for x in kep]
    ang = np.abs(i) + np.abs(om) + np.abs(Om) + np.abs(nu)
    near = np.abs(1 + e*np.cos(nu))
    ap = np.where(e == 1, 0, (1 + e**2)/np.where(e == 1, 1, np.abs(1 - e**2)))
    return 10 + ang + (1 + e)*(1 + np.abs(nu))/near + ap


def check(ok, what, got=None, want=None, err=None, tol=None):
    """ok: boolean array over samples; raise for the first False."""
    ok = np.atleast_1d(ok)
    if ok.all():
        return
    k = int(np.nonzero(~ok.ravel())[0][0])

    def pick(x):
        if x is None:
            return None
        x = np.asarray(x)
        if x.ndim == 0 or x.shape[-1] != ok.size:
            return x.astype(np.float64).tolist() if x.size < 20 else '...'
        return x[..., k].astype(np.float64).tolist()
    raise Violation(f'{what}: sample {k}/{ok.size}: got {pick(got)} want {pick(want)} '
                    f'err {pick(err)} tol {pick(tol)}')


def finite(x, what):
    x = f64(x)
    ok = np.isfinite(x)
    if ok.ndim > 1:
        ok = ok.reshape(-1, ok.shape[-1]).all(axis=0)
    check(ok, what + ' is not finite', got=x)


def same_state(got, want, tol, what, vscale=None):
    """got, want (6, n); tol relative to |r| and to the velocity scale."""
    got = np.asarray(got)
    finite(got, what)
    w = np.asarray(want)
    rs = ref.norm(w[:3])
    vs = ref.norm(w[3:]) if vscale is None else vscale
    er = ref.norm(got[:3] - w[:3])/rs
    ev = ref.norm(got[3:] - w[3:])/vs
    check(f64(er) <= tol, what + ': position', got, w, er, tol)
    check(f64(ev) <= tol, what + ': velocity', got, w, ev, tol)


def vel_scale(kep, mu):
    p = ref.semilatus(ref.ld(kep[0]), ref.ld(kep[1]))
    return np.sqrt(ref.ld(mu)/p)*(1 + ref.ld(kep[1]))


def acos_noise(theta, c):
    s = np.abs(np.sin(f64(theta)))
    with np.errstate(all='ignore'):
        return np.minimum(4*np.sqrt(c), np.where(s > 0, 4*c/np.where(s > 0, s, 1), np.inf))


class CartCond:
    """Error bounds of classical elements computed from a state in double
    precision with arccos-based angles (the precision the property asks for)."""

    def __init__(self, st, k=40, eps=EPS):
        self.st = st
        ke = k*eps
        self.ke = ke
        rn, vn, hn, mu = [f64(x) for x in (st.rn, st.vn, st.hn, st.mu)]
        vr = np.abs(f64(ref.dot(st.r, st.v)))/rn
        self.kh = rn*vn/hn
        self.T = vn**2*rn/mu + 1 + rn*vr*vn/mu
        e = f64(st.e)
        en = np.abs(f64(st.energy))
        si = f64(np.sqrt(st.h[0]**2 + st.h[1]**2)/st.hn)
        self.si = si
        with np.errstate(all='ignore'):
            self.a = ke*(1 + (vn**2/2 + mu/rn)/en)
            self.e = ke*self.T
            self.i = np.minimum(4*np.sqrt(ke*self.kh), ke*self.kh*(1 + 1/si)) + ke
            self.Om = ke*self.kh*(1 + 1/si) + acos_noise(st.Om, ke*self.kh)
            self.om = (ke*self.T*self.kh*(1 + 1/e)*(1 + 1/si) + acos_noise(st.om, ke*self.T/e))
            self.om_pl = ke*self.T*(1 + 1/e) + acos_noise(st.om, ke*self.T/e)
            self.nu = ke*self.T*(1 + 1/e) + acos_noise(st.nu, ke*self.T/e)
            self.u = ke*self.kh*(1 + 1/si) + acos_noise(st.u, ke*self.kh)
            self.l = ke + acos_noise(np.arctan2(f64(st.r[1]), f64(st.r[0])), ke)
        for n in ('a', 'e', 'i', 'Om', 'om', 'om_pl', 'nu', 'u', 'l'):
            x = getattr(self, n)
            setattr(self, n, np.where(np.isnan(x), np.inf, x))


def cart_roundtrip_tol(st, c, parabolic=False):
    """Bound on the state rebuilt from the elements: (position, velocity),
    relative to |r| and to sqrt(mu/p)(1+e)."""
    e = f64(st.e)
    planar = np.asarray(st.planar)
    near_pl = c.si < 5e-8
    circ = e < 3e-9
    ang = np.where(circ, np.where(planar | near_pl, c.l + np.minimum(c.u, 1e3), c.u),
                   np.where(planar | near_pl, c.om_pl + c.nu, c.om + c.nu))
    # close to the plane the node is ill defined but node + argument are not
    node = np.where(planar | near_pl, 0, c.Om)
    tilt = c.i + np.where(near_pl, 2e-8, 0)
    ang = ang + node + tilt + np.where(circ, 4*e + 1e-15, 0)
    near = np.abs(1 + e*np.cos(f64(st.nu)))
    with np.errstate(all='ignore'):
        gap = np.abs(f64((1 - st.e)*(1 + st.e)))
        p_err = c.ke*c.kh if parabolic else c.a + 2*(1 + e)*c.e/gap
    nu_err = np.where(circ, 0, c.nu)
    r_err = p_err + (c.e + e*nu_err)/near
    return ang + r_err, ang*(1 + e) + p_err + c.e


def folded(kep):
    """Canonical form of elements (radians): planar orbits have no node, circular
    ones no argument of periapsis."""
    a, e, i, om, Om, nu = kep
    pro, ret = i == 0, i == ref.PI
    ret = ret | (f64(i) == PI)
    circ = e < 5e-10
    lon = np.where(pro, om + Om, np.where(ret, om - Om, om))
    return np.stack([a, e, i, np.where(circ, 0, lon), np.where(pro | ret, 0, Om), np.where(circ, lon + nu, nu)])


def element_bounds(S, w, k=40):
    """Bounds of canonical elements computed from the state S (w: folded)."""
    c = CartCond(S, k=k)
    e = f64(S.e)
    circ = e < 3e-9
    planar = np.asarray(S.planar)
    with np.errstate(all='ignore'):
        c_pl = c.ke*c.T*(1 + 1/e) + acos_noise(w[3], c.ke*c.T/e)
    t_om = np.where(circ, c.ke, np.where(planar, c_pl, c.om))
    t_nu = np.where(circ, np.where(planar, c.l + 4*e, c.u + 4*e), c.nu) + EPS*40
    t_Om = np.where(planar, 0, c.Om + c.ke)
    return c.a + c.ke, c.e, np.where(planar, 5e-8, c.i), t_om, t_Om, t_nu


def same_elements(got, want, S, what, k=40, ctx=None, also=()):
    """got (radians) against the unfolded elements `want` of the state S.
    also: (state, elements) pairs whose own errors are part of `want`."""
    w = folded(want)
    b = list(element_bounds(S, w, k))
    for S2, k2 in also:
        b = [x + y for x, y in zip(b, element_bounds(S2, folded(k2), k))]
    with np.errstate(all='ignore'):
        ra = f64(np.abs(got[0]/w[0] - 1))
    check(ra <= b[0], what + ': a', got, f64(w), ra, b[0])
    check(f64(np.abs(got[1] - w[1])) <= b[1], what + ': e', got, f64(w), None, b[1])
    check(f64(np.abs(got[2] - w[2])) <= b[2], what + ': i', got, f64(w), None, b[2])
    for nm, r in (('Omega', 4), ('omega', 3), ('anomaly', 5)):
        d = f64(ref.angdiff(got[r], w[r]))
        check((d <= b[r]) | (b[r] > 1e-2), f'{what}: {nm}', got, f64(w), d, b[r])
        if ctx is not None:
            ctx.label('ill_conditioned_' + nm, (np.broadcast_to(b[r], d.shape) > 1e-2).sum())
