"""C06: equinoctial elements follow their definition and convert losslessly."""
import numpy as np
from hypothesis import strategies as st
import pyorb
from ..core import Sub, OutOfDomain, Violation
from .. import funcs, gen, gs, ref, tol, twin

ID = 'C06'
RULE = 'distinct element columns (or states, or orbit contents) with e > 0, i > 0 and at least two non-zero angles, or exactly circular / planar ones'
PI = np.pi
TP = 2*PI
LD = ref.LD
CON = ['circ', 'nearcirc', 'ell', 'ell', 'highell', 'midell']
ORI = ['planar', 'gen', 'gen', 'gen', 'polar', 'nearplanar']


def guard(kep):
    gen.require_orbits(kep)
    if (kep[1] > 0.999).any() or (kep[2] > PI - 1e-3).any() or (kep[0] < 1e-9).any():
        raise OutOfDomain('equinoctial domain')


def mean_state(kepm, mu):
    k = np.array(kepm, dtype=LD)
    k[5] = ref.mean_to_true(k[5], k[1])
    return ref.kep_to_cart(k, mu)


def equi_close(got, want, kep, what, k=64):
    """rows of two equinoctial sets (radians) of the orbit kep"""
    e = tol.f64(kep[1])
    ang = 4 + np.abs(tol.f64(kep[2:])).sum(axis=0)
    T = np.tan(tol.f64(kep[2])/2)
    b = k*tol.EPS
    tol.check(tol.f64(np.abs(got[0]/want[0] - 1)) <= b, what + ': a', got, tol.f64(want))
    for r in (1, 2):
        tol.check(tol.f64(np.abs(got[r] - want[r])) <= b*e*ang + 2.2*e*(e < 2e-9), what + f': row {r}', got, tol.f64(want))
    for r in (3, 4):
        tol.check(tol.f64(np.abs(got[r] - want[r])) <= b*(T*ang + tol.f64(kep[2])*(1 + T*T)), what + f': row {r}', got, tol.f64(want))
    d = tol.f64(ref.angdiff(got[5], want[5]))
    tol.check(d <= b*ang, what + ': longitude', got, tol.f64(want), d, b*ang)


def call(f, arg, mode, *extra, **kw):
    if mode == 'single':
        return np.stack([f(arg[:, j].copy(), *[x[j] for x in extra], **kw) for j in range(arg.shape[1])], axis=1)
    return f(arg.copy(), *[x.copy() for x in extra], **kw)


def count(case, kep, ctx, label):
    nz = (np.abs(kep[2:]) > 0).sum(axis=0)
    ok = (nz >= 2) | (kep[1] == 0) | (kep[2] == 0)
    ctx.count_cols(np.vstack([kep, np.full(kep.shape[1], float(len(label)))]), ok)
    ctx.label(label, kep.shape[1])
    ctx.label('circular', (kep[1] < 1e-9).sum())
    ctx.label('planar', (kep[2] == 0).sum())


def run_kep(case, ctx):
    """definition, and Keplerian -> equinoctial -> Keplerian"""
    kep = gen.col(case, 'kep')
    guard(kep)
    deg = bool(case.get('degrees'))
    mode = case.get('mode', 'batch')
    arg = kep.copy()
    if deg:
        arg[2:] = np.degrees(arg[2:])
    full = 360.0 if deg else TP
    q = call(pyorb.kep_to_equi, arg, mode, degrees=deg)
    what = f'kep_to_equi({mode}, degrees={deg})'
    tol.finite(q, what)
    tol.check((q[5] >= 0) & (q[5] <= full*(1 + 4e-16)), what + ': longitude within one turn', q)
    qr = funcs.to_rad('equi', q) if deg else q
    equi_close(qr, funcs.ref_equi(kep), kep, what)
    back = call(pyorb.equi_to_kep, q, mode, degrees=deg)
    what = f'equi_to_kep(kep_to_equi)({mode}, degrees={deg})'
    tol.finite(back, what)
    tol.check((back[1:3] >= 0).all(axis=0), what + ': e, i >= 0', back)
    tol.check((back[3:] >= 0).all(axis=0) & (back[3:] <= full*(1 + 4e-16)).all(axis=0), what + ': angle range', back)
    b = funcs.to_rad('kepm', back) if deg else back
    equi_close(funcs.ref_equi(b), funcs.ref_equi(kep), kep, what, k=256)
    tol.check(np.abs(b[1] - kep[1]) <= 64*tol.EPS*kep[1], what + ': e', b[1], kep[1])
    tol.check(np.abs(b[2] - kep[2]) <= 256*tol.EPS*(kep[2] + np.tan(kep[2]/2)/(1 + np.tan(kep[2]/2)**2)), what + ': i', b[2], kep[2])
    # where they are defined the angles themselves come back
    ang = 4 + np.abs(kep[2:]).sum(axis=0)
    inc, ecc = kep[2] > 0, kep[1] > 2e-9
    wOm = np.where(inc, kep[4], b[4])       # (planar: any node, the sum counts)
    d = tol.f64(ref.angdiff(b[4], wOm))
    tol.check(d <= 256*tol.EPS*ang, what + ': Omega', back, arg, d)
    d = tol.f64(ref.angdiff(b[3], kep[3] + kep[4] - wOm))
    tol.check((d <= 256*tol.EPS*ang) | ~ecc, what + ': omega', back, arg, d)
    d = tol.f64(ref.angdiff(b[5], kep[5]))
    tol.check((d <= 256*tol.EPS*ang) | ~ecc, what + ': anomaly', back, arg, d)
    circ = kep[1] < 5e-10
    d = tol.f64(ref.angdiff(b[3] + b[4] + b[5], kep[3] + kep[4] + kep[5]))
    tol.check((d <= 256*tol.EPS*ang), what + ': longitude', back, arg, d)
    tol.check((b[3] == 0) | ~circ, what + ': circular orbits have a zero argument of periapsis', back)
    count(case, kep, ctx, 'kep')


def run_cart(case, ctx):
    """Cartesian <-> equinoctial"""
    kep = gen.col(case, 'kep')          # true anomaly
    mu = gen.col(case, 'mu')
    guard(kep)
    gen.require_orbits(kep, mu)
    e, i = kep[1], kep[2]
    if (e > 0.999).any() or ((e > 5e-10) & (e < 2e-9)).any() or ((np.sin(i) < 5e-6) & (i != 0)).any():
        raise OutOfDomain('threshold')
    deg = bool(case.get('degrees'))
    mode = case.get('mode', 'batch')
    cart = twin.cart64(kep, mu)
    S = ref.State(cart, mu)
    se = tol.f64(S.e)
    q = call(pyorb.cart_to_equi, cart, mode, mu, degrees=deg)
    what = f'cart_to_equi({mode}, degrees={deg})'
    tol.finite(q, what)
    full = 360.0 if deg else TP
    tol.check((q[5] >= 0) & (q[5] <= full*(1 + 4e-16)), what + ': longitude within one turn', q)
    qr = funcs.to_rad('equi', q) if deg else q
    circ = se < 5e-10
    M = np.where(circ, S.u, ref.true_to_mean(S.nu, S.e))
    want = funcs.ref_equi(np.stack([S.a, S.e, np.where(S.planar, 0, S.i), np.where(circ, 0, S.om), S.Om, M]))
    fn = funcs.BY_NAME['cart_to_equi']
    funcs.compare(fn, dict(cart=cart, mu=mu), qr, tol.f64(want), what + ' against the definition (mean longitude)')
    opts = {}
    if case.get('opts'):
        opts['solver_options'] = dict(tol=1e-14, max_iter=200, degree=4)
    back = call(pyorb.equi_to_cart, q, mode, mu, degrees=deg, **opts)
    t = 4e-6/(1 - se)**3*(1 + np.tan(i/2)**2)
    tol.same_state(back, cart, t, f'equi_to_cart(cart_to_equi)({mode}, degrees={deg})', vscale=tol.vel_scale(kep, mu))
    # tightly, from the definition
    kepm = np.array(kep, dtype=LD)
    kepm[5] = ref.true_to_mean(kepm[5], kepm[1])
    q0 = funcs.ref_equi(kepm).astype(np.float64)
    arg = q0.copy()
    if deg:
        arg[5] = np.degrees(arg[5])
    got = call(pyorb.equi_to_cart, arg, mode, mu, degrees=deg, **opts)
    lim = (1e-13*(10 + np.abs(q0[5])) + 4e-12)*8/(1 - e)**2.5*(1 + np.tan(i/2)) + 8e-9*(e < 2e-9)
    tol.same_state(got, ref.kep_to_cart(kep, mu), lim, f'equi_to_cart({mode}, degrees={deg})', vscale=tol.vel_scale(kep, mu))
    count(case, kep, ctx, 'cart')


def run_equi(case, ctx):
    """equinoctial elements given directly, components exactly zero included"""
    q = gen.col(case, 'equi')
    mu = gen.col(case, 'mu')
    e, T = np.hypot(q[1], q[2]), np.hypot(q[3], q[4])
    if not np.isfinite(q).all() or (e > 0.999).any() or (T > 500).any() or (q[0] < 1e-9).any() or (np.abs(q[5]) > 100).any() \
            or ((e > 4e-10) & (e < 2e-9)).any() or ((np.abs(q[1:5]) < 1e-100) & (q[1:5] != 0)).any() or (mu < 1e-30).any() or not np.isfinite(mu).all():
        raise OutOfDomain('equinoctial domain')
    deg = bool(case.get('degrees'))
    mode = case.get('mode', 'batch')
    arg = q.copy()
    if deg:
        arg[5] = np.degrees(arg[5])
    full = 360.0 if deg else TP
    kep = call(pyorb.equi_to_kep, arg, mode, degrees=deg)
    what = f'equi_to_kep({mode}, degrees={deg})'
    tol.finite(kep, what)
    tol.check((kep[1:3] >= 0).all(axis=0), what + ': e, i >= 0', kep)
    tol.check((kep[3:] >= 0).all(axis=0) & (kep[3:] <= full*(1 + 4e-16)).all(axis=0), what + ': angle range', kep)
    k = funcs.to_rad('kepm', kep) if deg else kep
    x = q.astype(LD)
    i = 2*np.arctan(np.hypot(x[3], x[4]))
    circ = e < 5e-10
    Om = np.where(i > 0, np.arctan2(x[3], x[4]), 0)
    lon = np.where(circ, 0, np.arctan2(x[1], x[2]))
    ang = 4 + np.abs(q[5])
    b = 64*tol.EPS*ang
    tol.check(np.abs(k[0]/q[0] - 1) <= 8*tol.EPS, what + ': a', k, q)
    tol.check(tol.f64(np.abs(k[1] - np.hypot(x[1], x[2]))) <= 8*tol.EPS*e, what + ': e', k, q)
    tol.check(tol.f64(np.abs(k[2] - i)) <= 16*tol.EPS*tol.f64(i), what + ': i', k, q)
    d = tol.f64(ref.angdiff(k[4], Om))
    tol.check((d <= b) | (T == 0), what + ': Omega', k, q, d)
    d = tol.f64(ref.angdiff(k[3] + k[4], lon))
    tol.check((d <= b) | circ, what + ': longitude of periapsis', k, q, d)
    tol.check((k[3] == 0) | ~circ, what + ': circular orbits have a zero argument of periapsis', k, q)
    d = tol.f64(ref.angdiff(k[3] + k[4] + k[5], x[5]))
    tol.check(d <= b, what + ': mean longitude', k, q, d)
    back = call(pyorb.kep_to_equi, kep, mode, degrees=deg)
    if deg:
        back = funcs.to_rad('equi', back)
    for r in (1, 2, 3, 4):
        s = e if r < 3 else T + T**2
        tol.check(np.abs(back[r] - q[r]) <= 64*tol.EPS*s*ang + 2.2*e*circ*(r < 3), what + f' and back: row {r}', back, q)
    kr = np.stack([x[0], np.hypot(x[1], x[2]), i, np.where(circ, 0, lon - Om), Om, np.where(circ, x[5] - Om, x[5] - lon)])
    want = mean_state(kr, mu)
    got = call(pyorb.equi_to_cart, arg, mode, mu, degrees=deg)
    lim = (1e-13*ang + 4e-12)*8/(1 - e)**2.5*(1 + T) + 8e-9*circ
    tol.same_state(got, want, lim, f'equi_to_cart({mode}, degrees={deg})',
                   vscale=np.sqrt(mu.astype(LD)/x[0])*tol.f64((1 + e)/np.sqrt(1 - e*e)))
    ctx.count_cols(np.vstack([q, mu, np.full(q.shape[1], 3.0)]), (e > 0) | (T > 0))
    zero = (q[1:5] == 0).sum(axis=0)
    ctx.label('components exactly zero', (zero > 0).sum())
    ctx.label('equi', q.shape[1])


def bulk_equi(rng, n):
    q = np.zeros((6, n))
    q[0] = 10**rng.uniform(-2, 3, n)
    e = gen.bulk_ecc(rng, n, CON)
    T = np.tan(gen.bulk_inc(rng, n, ORI)/2)
    al, be = gen.bulk_angle(rng, n), gen.bulk_angle(rng, n)
    for r, (m, f) in enumerate(((e, np.sin(al)), (e, np.cos(al)), (T, np.sin(be)), (T, np.cos(be)))):
        f = np.where(np.abs(f) < 1e-9, np.copysign(0.0, f), f)
        f = np.where(rng.random(n) < 0.12, 0.0, f)
        q[1 + r] = m*np.where(np.abs(np.abs(f) - 1) < 1e-9, np.sign(f), f)
    q[5] = gen.bulk_angle(rng, n)
    return dict(cols=dict(equi=q, mu=gen.bulk_mu(rng, n)), degrees=bool(rng.random() < .4))


ecomp = st.one_of(st.sampled_from([0.0, -0.0, 0.5, -0.5, 0.1, -0.1]), gen.fl(-0.69, 0.69).map(lambda x: x if abs(x) > 1e-14 else 0.0))
tcomp = st.one_of(st.sampled_from([0.0, -0.0, 1.0, -1.0, 0.5]), gen.fl(-5, 5).map(lambda x: x if abs(x) > 1e-14 else 0.0))


@st.composite
def equi_cases(draw):
    rows = draw(st.lists(st.tuples(gen.logfl(1e-2, 1e3), ecomp, ecomp, tcomp, tcomp, gen.angle, gen.mu_st), min_size=1, max_size=4))
    return dict(cols=dict(equi=[[r[j] for r in rows] for j in range(6)], mu=[r[6] for r in rows]), degrees=draw(st.booleans()),
                mode=draw(st.sampled_from(['batch', 'single'])))


def run_orbit(case, ctx):
    cfg = case['cfg']
    us = case['u']
    n = len(cfg['m'])
    conic = case['conic']
    kep = twin.elements([us[j % len(us)] for j in range(n)], conic=conic)
    other = twin.elements([us[(j + 1) % len(us)][::-1] for j in range(n)], conic='ell')
    for k in (kep, other):
        k[2] = np.minimum(k[2], 3.0)
        if not twin.good_kep(k):
            raise OutOfDomain('orbit')
    o = twin.make(cfg, mode=case['mode'])
    mu = twin.mu_of(o)
    deg, typ = o.degrees, o.type
    if case['view'] == 'kep':
        o.kepler = twin.to_orb_kep(kep, typ, deg)
    else:
        o.cartesian = twin.cart64(kep, mu)
    what = f'orbit {cfg} {case["mode"]} from {case["view"]}'
    e = kep[1]

    def want_equi(k):
        k = np.array(k, dtype=LD)
        k[5] = ref.true_to_mean(k[5], k[1])
        return tol.f64(funcs.ref_equi(k))

    def check_equi(o, k, where):
        q = np.array(o.equinoctial)
        shape = (6,) if n == 1 else (6, n)
        if q.shape != shape:
            raise Violation(f'{where}: equinoctial has shape {q.shape}')
        q = q.reshape(6, n)
        if deg:
            q[5] = np.radians(q[5])
        w = want_equi(k)
        s = 1 + np.tan(k[2]/2)**2
        for r in range(5):
            d = np.abs(q[r] - w[r])/(np.abs(w[0]) if r == 0 else s)
            tol.check(d <= 3e-6, f'{where}: equinoctial row {r}', q, w, d)
        d = tol.f64(ref.angdiff(q[5], w[5]))
        tol.check(d <= 3e-6/(1 - k[1])**2, f'{where}: mean longitude', q, w, d)

    def check_state(o, k, where, t=3e-6):
        tol.same_state(np.array(o.cartesian), ref.kep_to_cart(k, mu), t/(1 - k[1])**2, where, vscale=tol.vel_scale(k, mu))
        kk = twin.from_orb_kep(np.array(o.kepler), typ, deg)
        tol.same_state(tol.f64(ref.kep_to_cart(kk, mu)), ref.kep_to_cart(k, mu), t/(1 - k[1])**2, where + ' (elements)',
                       vscale=tol.vel_scale(k, mu))

    check_equi(o, kep, what)
    # its own
    for _ in range(case['times']):
        o.equinoctial = o.equinoctial
    check_state(o, kep, what + ': own equinoctial elements written back')
    check_equi(o, kep, what + ': after write back')
    # another orbit's, possibly with other settings
    b = twin.make(cfg, type=case['type2'], mode=case['mode2'])
    b.kepler = twin.to_orb_kep(other, b.type, b.degrees)
    o.equinoctial = b.equinoctial
    check_state(o, other, what + ": another orbit's equinoctial elements")
    check_equi(o, other, what + ': after the other')
    check_equi(b, other, what + ': the other orbit itself')
    # the mean longitude in the plain sum form
    ml = np.array(o.mean_longitude)*(PI/180 if deg else 1)
    kk = np.array(other, dtype=LD)
    lw = kk[3] + kk[4] + ref.true_to_mean(kk[5], kk[1])
    d = tol.f64(ref.angdiff(ml, lw))
    tol.check(d <= 3e-6/(1 - other[1])**2, what + ': mean_longitude', ml, tol.f64(lw), d)
    ctx.count(n, [repr(case)])
    ctx.label(f'orbit {case["mode"]}/{typ}')


@st.composite
def kep_cases(draw):
    c = draw(gen.rows(gen.orbit(conics=CON, orients=ORI)))
    return dict(cols=c, degrees=draw(st.booleans()), mode=draw(st.sampled_from(['batch', 'single'])))


@st.composite
def cart_cases(draw):
    c = draw(gen.rows(gen.orbit(conics=CON, orients=ORI), mu=gen.mu_st))
    return dict(cols=c, degrees=draw(st.booleans()), mode=draw(st.sampled_from(['batch', 'single'])), opts=draw(st.booleans()))


def bulk_kep(rng, n):
    return dict(cols=dict(kep=gen.bulk_orbits(rng, n, conics=CON, orients=ORI)), degrees=bool(rng.random() < .4))


def bulk_cart(rng, n):
    return dict(cols=dict(kep=gen.bulk_orbits(rng, n, conics=CON, orients=ORI), mu=gen.bulk_mu(rng, n)),
                degrees=bool(rng.random() < .4), opts=bool(rng.random() < .4))


orbit_cases = gs.fixed_dictionaries(dict(
    cfg=twin.cfg_st, u=twin.uvecs, conic=gs.sampled_from(['ell', 'ell', 'ell', 'circ']), mode=gs.sampled_from(['immediate', 'deferred']),
    mode2=gs.sampled_from(['immediate', 'deferred']), type2=gs.sampled_from(twin.TYPES), view=gs.sampled_from(['kep', 'cart']),
    times=gs.integers(1, 3)))
SUBS = [
    Sub('kep', run_kep, kep_cases(), (400, 12000), bulk_kep, (60, 4000), 500, shards=(2, 8)),
    Sub('cart', run_cart, cart_cases(), (400, 12000), bulk_cart, (100, 4000), 60, shards=(3, 8)),
    Sub('equi', run_equi, equi_cases(), (400, 12000), bulk_equi, (80, 4000), 300, shards=(2, 8)),
    Sub('orbit', run_orbit, orbit_cases, (300, 8000), shards=(8, 8), random_n=(1500, 60000)),
]
