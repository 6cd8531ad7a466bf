"""C25: conversions respect rotation, reflection, scaling and time reversal."""
import numpy as np
from hypothesis import strategies as st
import pyorb
from ..core import Sub, OutOfDomain, Violation
from .. import gen, ref, tol, twin

ID = 'C25'
RULE = ('distinct (transformation, parameter, elements) columns with a non-trivial transformation (angle not a '
        'multiple of a turn, scale not one) of an orbit with e > 0 or i > 0')
PI = np.pi
LD = ref.LD
KINDS = ['z', 'plane', 'mirror', 'scale', 'reverse']
CON = ['circ', 'ell', 'ell', 'highell', 'hyp', 'hyp', 'bighyp', 'midpar', 'nearcirc']


def transform(kind, par, cart, mu, planar):
    """the physical transformation, applied to a float64 state"""
    w = np.asarray(cart, dtype=np.float64).astype(LD)
    mu2 = np.array(mu, dtype=np.float64)
    r, v = w[:3], w[3:]
    if kind == 'z':
        r, v = ref.rot(2, LD(1)*par[0], r), ref.rot(2, LD(1)*par[0], v)
    elif kind == 'plane':
        h = ref.cross(r, v)
        h = h/ref.norm(h)
        c, s = np.cos(LD(1)*par[0]), np.sin(LD(1)*par[0])
        r, v = [c*x + s*ref.cross(h, x) for x in (r, v)]
        for x in (r, v):
            x[2] = np.where(planar, 0, x[2])
    elif kind == 'mirror':
        r, v = np.stack([r[0], r[1], -r[2]]), np.stack([v[0], v[1], -v[2]])
    elif kind == 'scale':
        L, T = par[0], par[1]
        r, v = r*L, v*(LD(1)*L/T)
        mu2 = tol.f64(LD(1)*mu2*L*L*L/(LD(1)*T*T))
    elif kind == 'reverse':
        v = -v
    return tol.f64(np.concatenate([r, v])), mu2


def image(kind, par, kep, planar):
    """the same transformation on elements (radians, true anomaly, unfolded)"""
    a, e, i, om, Om, nu = [np.array(x, dtype=LD) for x in kep]
    if kind == 'z':
        Om = Om + par[0]
    elif kind == 'plane':
        om = om + par[0]
    elif kind == 'mirror':
        om, Om = np.where(planar, om, om + ref.PI), np.where(planar, Om, Om + ref.PI)
    elif kind == 'scale':
        a = a*par[0]
    elif kind == 'reverse':
        # supplementary inclination, opposite node
        i0 = np.where(tol.f64(i) == PI, 0, np.where(i == 0, ref.PI, ref.PI - i))
        om, Om, nu, i = ref.PI - om, Om + ref.PI, -nu, i0
    return np.stack([a, e, i, om, Om, nu])


def run(case, ctx):
    kep = gen.col(case, 'kep')
    mu = gen.col(case, 'mu')
    par = gen.col(case, 'par')
    kind = case['kind']
    gen.require_orbits(kep, mu, frac=0.97)
    e, i = kep[1], kep[2]
    if ((np.abs(e - 1) < 1e-3) | ((e > 5e-10) & (e < 2e-9)) | ((np.sin(i) < 5e-6) & (i != 0) & (i != PI))).any():
        raise OutOfDomain('threshold')
    if not np.isfinite(par).all() or (np.abs(par) > 1e3).any() or (kind == 'scale' and (par < 1e-3).any()):
        raise OutOfDomain('parameter')
    planar = (i == 0) | (i == PI)
    cart = twin.cart64(kep, mu)
    cart2, mu2 = transform(kind, par, cart, mu, planar)
    S1, S2 = ref.State(cart, mu), ref.State(cart2, mu2)
    deg = bool(case.get('degrees'))
    via = case.get('via', 'functions')
    n = kep.shape[1]

    def to_kep(c, m):
        if via == 'functions':
            k = pyorb.cart_to_kep(c.copy(), mu=m.copy(), degrees=deg)
        else:
            o = pyorb.Orbit(M0=0.0, G=2.0, num=n, m=m/2, degrees=deg, type=case.get('type', 'true'),
                            direct_update=bool(case.get('direct', True)))
            o.cartesian = c.copy()
            k = np.array(o.kepler)
            k[5] = o.true_anomaly
        k = np.array(k, dtype=np.float64)
        if deg:
            k[2:] = np.radians(k[2:])
        return k

    def to_cart(k, m):
        k = tol.f64(k).copy()
        if via == 'functions':
            if deg:
                k[2:] = np.degrees(k[2:])
            return pyorb.kep_to_cart(k, mu=m.copy(), degrees=deg)
        o = pyorb.Orbit(M0=0.0, G=2.0, num=n, m=m/2, degrees=deg, type=case.get('type', 'true'),
                        direct_update=bool(case.get('direct', True)))
        o.kepler = twin.to_orb_kep(k, case.get('type', 'true'), deg)
        return np.array(o.cartesian)

    what = f'{kind} ({via}, degrees={deg})'
    k1, k2 = to_kep(cart, mu), to_kep(cart2, mu2)
    tol.finite(k1, what)
    tol.finite(k2, what)
    # exact planarity is reported up to rounding of the arccos
    kk = k1.copy()
    kk[2] = np.where(planar, i, kk[2])
    want = image(kind, par, kk, planar)
    want[2] = np.where(planar, np.where(tol.f64(S2.i) > 1, PI, 0), want[2])
    kc = 40*tol.kep_cond(kep)/10*4
    tol.same_elements(k2, want, S2, what, k=kc, ctx=ctx, also=[(S1, kep)])
    # the library's elements of the transformed orbit, converted to a state
    el2 = image(kind, par, kep, planar)
    el2[2] = np.where(planar, np.where(tol.f64(S2.i) > 1, PI, 0), el2[2])
    s1, s2 = to_cart(kep, mu), to_cart(el2, mu2)
    t1, _ = transform(kind, par, s1, mu, planar)
    lim = 400*tol.EPS*tol.kep_cond(tol.f64(el2))*(1 + np.abs(kep[1])/np.abs(1 - kep[1]))
    if via != 'functions' and case.get('type', 'true') != 'true':
        # the anomaly goes through Kepler's equation, residual 1e-12
        lim = lim + 1e-9*(1 + e)/np.abs(1 - e)**2
    tol.same_state(s2, t1, lim, what + ': state', vscale=tol.vel_scale(tol.f64(el2), mu2))
    if kind in ('z', 'plane'):
        nt = np.abs(np.sin(par[0]/2)) > 1e-6
    elif kind == 'scale':
        nt = (par[0] != 1) | (par[1] != 1)
    elif kind == 'mirror':
        nt = ~planar
    else:
        nt = np.ones(n, bool)
    ctx.count_cols(np.vstack([kep, mu, par, np.full(n, float(KINDS.index(kind)))]), nt & ((e > 0) | (i > 0)))
    ctx.label(f'{kind}/{via}', n)
    ctx.label('planar', planar.sum())
    ctx.label('circular', (e < 5e-10).sum())


par1 = st.one_of(gen.angle, gen.fl(-7, 7))
parS = st.one_of(st.sampled_from([2.0, 0.5, 10.0]), gen.logfl(1e-2, 1e2))


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(KINDS))
    p = parS if kind == 'scale' else par1
    cols = draw(gen.rows(gen.orbit(conics=CON), max_size=3, mu=gen.mu_st, p0=p, p1=p))
    cols['par'] = [cols.pop('p0'), cols.pop('p1')]
    return dict(cols=cols, kind=kind, degrees=draw(st.booleans()), via=draw(st.sampled_from(['functions', 'orbit'])),
                type=draw(st.sampled_from(twin.TYPES)), direct=draw(st.booleans()))


def bulk(rng, n):
    kind = KINDS[rng.integers(5)]
    if rng.random() < .3:
        n = 60
    kep = gen.bulk_orbits(rng, n, conics=CON)
    if kind == 'scale':
        par = 10**rng.uniform(-2, 2, (2, n))
    else:
        par = np.stack([gen.bulk_angle(rng, n), gen.bulk_angle(rng, n)])
    via = 'functions' if n > 60 else 'orbit'
    return dict(cols=dict(kep=kep, mu=gen.bulk_mu(rng, n), par=par), kind=kind, degrees=bool(rng.random() < .4), via=via,
                type=twin.TYPES[rng.integers(3)], direct=bool(rng.random() < .6))


SUBS = [Sub('symmetries', run, cases(), (800, 20000), bulk, (300, 9000), 500, shards=(8, 8))]
