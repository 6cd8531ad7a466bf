"""C02: Cartesian states -> canonical elements describing exactly that state."""
import numpy as np
from hypothesis import strategies as st
import pyorb
from pyorb import kepler as K
from ..core import Sub, OutOfDomain
from .. import gen, ref, tol

ID = 'C02'
RULE = ('distinct non-rectilinear state vectors that are not (circular and planar): '
        'an eccentricity above 1e-9 or a plane tilted from z = 0')


def run(case, ctx):
    cart = gen.col(case, 'cart')
    mu = gen.col(case, 'mu')
    deg = bool(case.get('degrees'))
    n = cart.shape[1]
    fn = pyorb.cart_to_kep if case.get('api') == 'package' else K.cart_to_kep
    S = ref.State(cart, mu)
    kh = tol.f64(S.rn*S.vn/S.hn)
    keep = np.isfinite(kh) & (kh < 1e4) & (mu > 1e-30) & np.isfinite(mu)
    keep &= (tol.f64(S.rn) > 1e-30) & (tol.f64(S.vn) > 1e-30)
    if not keep.all():
        ctx.label('rectilinear_skipped', (~keep).sum())
        if not keep.any():
            raise OutOfDomain('rectilinear')
        cart, mu = cart[:, keep], mu[keep]
        n = cart.shape[1]
        S = ref.State(cart, mu)
    mode = case.get('mode', 'batch')
    if mode == 'single':
        got = np.stack([fn(cart[:, k].copy(), mu=float(mu[k]), degrees=deg) for k in range(n)], axis=1)
    else:
        got = fn(cart.copy(), mu=mu.copy(), degrees=deg)
    if got.shape != (6, n):
        tol.check(False, f'shape {got.shape} for input (6, {n})')
    full = 360.0 if deg else 2*np.pi
    what = f'cart_to_kep(degrees={deg}, {mode})'
    tol.finite(got, what)
    tol.check(got[0] > 0, what + ': a > 0', got)
    tol.check(got[1] >= 0, what + ': e >= 0', got)
    tol.check((got[2] >= 0) & (got[2] <= full/2*(1 + 4e-16)), what + ': 0 <= i <= half a turn', got)
    tol.check(((got[3:] >= 0) & (got[3:] <= full*(1 + 4e-16))).all(axis=0),
              what + ': angles within one turn', got)
    rad = got.copy()
    if deg:
        rad[2:] = np.radians(rad[2:])
    # canonical zeros
    tol.check((rad[4] == 0) | ~S.planar, what + ': planar orbit without node', got)
    circ = tol.f64(S.e) + tol.CartCond(S).e < 5e-10
    tol.check((rad[3] == 0) | ~circ, what + ': circular orbit without argument of periapsis', got)
    c = tol.CartCond(S)
    e = tol.f64(S.e)
    par = np.zeros(n, dtype=bool)
    if case.get('parabolic'):
        par[:] = True
        tol.check(got[1] == 1, what + ': parabolic e == 1', got)
        q = tol.f64(S.p/2)
        tol.check(np.abs(got[0]/q - 1) <= c.ke*c.kh, what + ': parabolic a is the periapsis distance',
                  got[0], q)
    else:
        a = tol.f64(S.a)
        # within rounding of a parabola the energy carries no information
        amb = np.abs(1 - e) <= 4*c.e
        ctx.label('parabolic_within_rounding', amb.sum())
        well = (c.a < 1e-2) & ~amb
        ctx.label('ill_conditioned_a', (~well).sum())
        tol.check((np.abs(got[0]/a - 1) <= c.a) | ~well, what + ': a', got[0], a, None, c.a)
        q = tol.f64(S.p/2)
        tol.check((np.abs(got[0]/q - 1) <= 4*c.ke*c.kh + 4*c.e) | (got[1] != 1),
                  what + ': e is 1 but a is not the periapsis distance', got[0], q)
        tol.check(np.abs(got[1] - e) <= c.e, what + ': e', got[1], e, np.abs(got[1] - e), c.e)
    tol.check(np.abs(rad[2] - tol.f64(S.i)) <= c.i, what + ': i', rad[2], S.i, None, c.i)
    # the elements describe the state
    tp, tv = tol.cart_roundtrip_tol(S, c, bool(case.get('parabolic')))
    back = ref.kep_to_cart(rad, mu)
    ok = (tp < 1e-2) & np.isfinite(tp)
    ctx.label('state_not_compared', (~ok).sum())
    if ok.any():
        vs = np.sqrt(S.mu/S.p)*(1 + S.e)
        er = tol.f64(ref.norm(back[:3] - cart[:3])/S.rn)
        ev = tol.f64(ref.norm(back[3:] - cart[3:])/vs)
        tol.check((er <= tp) | ~ok, what + ': position described', rad, cart, er, tp)
        tol.check((ev <= tv) | ~ok, what + ': velocity described', rad, cart, ev, tv)
    # the angles themselves, away from the thresholds of the special conventions
    want = np.stack([S.a, S.e, S.i, S.om, np.where(S.planar, 0, S.Om),
                     np.where(e < 4e-10, S.u - S.om, S.nu)])
    b = tol.element_bounds(S, tol.folded(want))
    w = tol.folded(want)
    sure = ((e < 4e-10) | (e > 3e-9)) & (c.e < 1e-10 + 0.1*e) & (S.planar | (c.si > 5e-6))
    for nm, r in (('omega', 3), ('Omega', 4), ('anomaly', 5)):
        d = tol.f64(ref.angdiff(rad[r], w[r]))
        tol.check((d <= b[r]) | (b[r] > 1e-2) | ~sure, f'{what}: {nm}', rad, tol.f64(w), d, b[r])
    ctx.label('angles_not_compared', (~sure).sum())
    ctx.count_cols(np.vstack([cart, mu]), (e > 1e-9) | ~S.planar)
    for name, m in (('bound', (got[1] < 1)), ('parabolic', got[1] == 1), ('hyperbolic', got[1] > 1),
                    ('planar', S.planar), ('circular', circ), ('retrograde', tol.f64(S.i) > np.pi/2),
                    ('inbound', tol.f64(ref.dot(S.r, S.v)) < 0)):
        ctx.label(name, m.sum())


NEAR = gen.CONICS + ['nearpar']


def from_elements(kep, mu):
    return ref.kep_to_cart(kep, mu).astype(np.float64)


def raw_states(rng, n):
    mu = gen.bulk_mu(rng, n)
    d = rng.normal(size=(3, n))
    w = rng.normal(size=(3, n))
    kind = rng.integers(0, 8, n)
    d[2] = np.where(kind <= 1, 0, d[2])
    w[2] = np.where(kind <= 1, 0, w[2])
    axis = rng.integers(0, 3, n)
    ex = np.zeros((3, n))
    ex[axis, np.arange(n)] = rng.choice([-1.0, 1.0], n)
    d = np.where(kind == 2, ex, d)
    ey = np.zeros((3, n))
    ey[(axis + rng.integers(1, 3, n)) % 3, np.arange(n)] = rng.choice([-1.0, 1.0], n)
    w = np.where(kind == 2, ey, w)
    d /= np.linalg.norm(d, axis=0)
    w /= np.linalg.norm(w, axis=0)
    r = d*10**rng.uniform(-2, 3, n)
    f = np.where(rng.random(n) < .5, rng.uniform(0.2, 1.38, n), rng.uniform(1.45, 4, n))
    # circular or moderately eccentric, planar, next to one of the axes
    close = rng.random(n) < .12
    th = rng.integers(0, 4, n)*np.pi/2 + rng.choice([-1, 1], n)*10**rng.uniform(-9, -3, n)
    s = rng.choice([-1.0, 1.0], n)
    z = np.zeros(n)
    c, t = [np.where(np.abs(g) < 1e-12, np.abs(g), g) for g in (np.cos(th), np.sin(th))]
    d = np.where(close, np.stack([c, t, z]), d)
    w = np.where(close, np.stack([-s*t, s*c, z]), w)
    f = np.where(close & (rng.random(n) < .7), 1.0, f)
    v = w*f*np.sqrt(mu/np.linalg.norm(r, axis=0))
    return np.vstack([r, v]), mu


def bulk(rng, n):
    if rng.random() < 0.6:
        kep = gen.bulk_orbits(rng, n, conics=NEAR)
        mu = gen.bulk_mu(rng, n)
        cart = from_elements(kep, mu)
        pl = (kep[2] == 0) | (kep[2] == np.pi)
        cart[2] = np.where(pl, 0, cart[2])
        cart[5] = np.where(pl, 0, cart[5])
        # hit representable circular states exactly as well
        cart = cart + 0.0
    else:
        cart, mu = raw_states(rng, n)
    return dict(cols=dict(cart=cart, mu=mu), degrees=bool(rng.random() < 0.4),
                mode='batch', api='module')


PYTH = [(1, 0, 0, 1), (0, 1, 0, 1), (0, 0, 1, 1), (3, 4, 0, 5), (4, 0, 3, 5), (0, 3, 4, 5),
        (1, 2, 2, 3), (2, 3, 6, 7), (6, 2, 3, 7), (4, 4, 7, 9), (8, 1, 4, 9), (2, 6, 9, 11)]


@st.composite
def exact_parabola(draw):
    """|r| and |v| are exact integers times powers of two; v^2/2 = mu/r exactly."""
    cols = dict(cart=[[] for _ in range(6)], mu=[])
    for _ in range(draw(st.integers(1, 3))):
        x = draw(st.sampled_from(PYTH))
        y = draw(st.sampled_from(PYTH).filter(lambda y: y != x))
        sx = [draw(st.sampled_from([1, -1])) for _ in range(3)]
        sy = [draw(st.sampled_from([1, -1])) for _ in range(3)]
        ka = 2.0**draw(st.integers(-3, 6))
        kb = 2.0**draw(st.integers(-3, 3))
        r = [ka*x[k]*sx[k] for k in range(3)]
        v = [kb*y[k]*sy[k] for k in range(3)]
        mu = (y[3]*kb)**2/2*x[3]*ka
        for k in range(3):
            cols['cart'][k].append(r[k])
            cols['cart'][3 + k].append(v[k])
        cols['mu'].append(mu)
    return dict(cols=cols, parabolic=True, degrees=draw(st.booleans()),
                mode=draw(st.sampled_from(['batch', 'single'])), api='package')


def run_parabola(case, ctx):
    cart = gen.col(case, 'cart')
    c = np.cross(cart[:3], cart[3:], axis=0)
    if not (np.abs(c).sum(axis=0) > 0).all():
        raise OutOfDomain('rectilinear')
    run(case, ctx)


comp = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 2.0, -2.0, 0.5]), gen.fl(-10, 10),
                 gen.fl(-3, 3).map(lambda x: float(np.copysign(10**x, x))))


@st.composite
def cases(draw):
    opts = dict(degrees=draw(st.booleans()), mode=draw(st.sampled_from(['batch', 'single'])),
                api=draw(st.sampled_from(['package', 'module'])))
    if draw(st.booleans()):
        cols = draw(gen.rows(gen.orbit(), mu=gen.mu_st))
        cart = from_elements(np.array(cols['kep']), np.array(cols['mu']))
        kep = np.array(cols['kep'])
        pl = (kep[2] == 0) | (kep[2] == np.pi)
        cart[2] = np.where(pl, 0, cart[2])
        cart[5] = np.where(pl, 0, cart[5])
        return dict(cols=dict(cart=cart.tolist(), mu=cols['mu']), **opts)
    rows = draw(st.lists(st.tuples(*[comp]*6, st.sampled_from([1.0, 4.0, 0.25, 10.0])),
                         min_size=1, max_size=3))
    return dict(cols=dict(cart=[[r[k] for r in rows] for k in range(6)], mu=[r[6] for r in rows]),
                **opts)


SUBS = [
    Sub('states', run, cases(), (400, 8000), bulk, (150, 6000), 1000, shards=(8, 8)),
    Sub('exact_parabola', run_parabola, exact_parabola(), (200, 4000), shards=(1, 4)),
]
