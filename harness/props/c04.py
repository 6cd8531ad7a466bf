"""C04: the six anomaly conversions are exact mutual inverses."""
import numpy as np
from hypothesis import strategies as st
import pyorb
from pyorb import kepler as K
from ..core import Sub, OutOfDomain
from .. import gen, ref, tol

ID = 'C04'
RULE = ('distinct (conversion input, e) pairs with e > 0 and an anomaly that is not a '
        'multiple of pi (where all anomalies coincide)')
EPS = tol.EPS
TP = 2*np.pi


def call(fn, x, e, form, deg, **kw):
    x = x.copy()
    if deg:
        x = np.degrees(x)
    if form == 'scalar':
        y = np.array([fn(float(a), float(b), degrees=deg, **kw) for a, b in zip(x, e)], dtype=float)
    elif form == 'scalar_e':
        y = fn(x, float(e[0]), degrees=deg, **kw)
    elif form == 'scalar_x':
        y = fn(float(x[0]), e.copy(), degrees=deg, **kw)
    elif form == 'npscalar':
        y = np.array([fn(a, b, degrees=deg, **kw) for a, b in zip(x, e)], dtype=float)
    else:
        y = fn(x, e.copy(), degrees=deg, **kw)
    y = np.asarray(y, dtype=float)
    tol.check(y.shape == x.shape, f'{fn.__name__}: result shape {y.shape} for {x.shape}')
    tol.finite(y, f'{fn.__name__}({form}, degrees={deg})')
    return np.radians(y) if deg else y


def anomaly_diff(x, w, e):
    """difference: modulo a turn for ellipses, plain otherwise"""
    d = np.abs(np.asarray(x, dtype=ref.LD) - w)
    return tol.f64(np.where(e < 1, ref.angdiff(x, w), d))


def rates(E, e):
    """(dE/dnu, dM/dE, dM/dnu) at eccentric anomaly E"""
    E, e = ref.ld(E), ref.ld(e)
    ell, hyp = e < 1, e > 1
    Eh = np.where(hyp, E, 0)
    k = np.where(e == 1, 1, np.sqrt(np.abs(1 - e*e)))
    dM = np.where(ell, 1 - e*np.cos(E), np.where(hyp, e*np.cosh(Eh) - 1, 1 + E*E))
    dE = np.where(e == 1, (1 + E*E)/2, dM/k)
    return tol.f64(dE), tol.f64(dM), tol.f64(dE*dM)


def run(case, ctx):
    nu = gen.col(case, 'nu')
    e = gen.col(case, 'e')
    turn = gen.col(case, 'turn')          # extra turns for elliptic eccentric/mean inputs
    if not (np.isfinite(nu).all() and np.isfinite(e).all() and (e >= 0).all() and (np.abs(nu) < 50).all()):
        raise OutOfDomain('not anomalies')
    form = case.get('form', 'array')
    deg = bool(case.get('degrees'))
    if form == 'scalar_e':
        e = np.full_like(e, e[0])
    if form == 'scalar_x':
        nu = np.full_like(nu, nu[0])
        turn = np.full_like(turn, turn[0])
    w = np.abs(np.mod(nu + np.pi, TP) - np.pi)
    if (w > np.where(e < 1, 10, 0.9991*np.arccos(-1/np.maximum(e, 1)))).any():
        raise OutOfDomain('beyond the asymptote')
    if ((e != 1) & (np.abs(e - 1) < 1e-7)).any():
        raise OutOfDomain('ill conditioned')
    E = ref.true_to_ecc(nu, e)
    if np.abs(tol.f64(E)[e > 1]).max(initial=0) > 6:
        raise OutOfDomain('far out')
    M = ref.ecc_to_mean(E, e)
    dE, dM, dMn = rates(E, e)
    an = np.abs(nu) + 1
    d = f'({form}, degrees={deg})'
    kE = 1 + 2*e/np.abs(np.where(e == 1, 1, 1 - e))*(e != 1)*0
    # ---- from the true anomaly
    tE = 24*EPS*(an*(1 + dE) + np.abs(tol.f64(E)))*kE
    got = call(K.true_to_eccentric, nu, e, form, deg)
    tol.check(anomaly_diff(got, E, e) <= tE, 'true_to_eccentric' + d, got, E, anomaly_diff(got, E, e), tE)
    tM = tE*dM + 24*EPS*(1 + np.abs(tol.f64(M)) + np.abs(tol.f64(E)) + (e >= 1)*dM)
    got = call(K.true_to_mean, nu, e, form, deg)
    tol.check(anomaly_diff(got, M, e) <= tM, 'true_to_mean' + d, got, M, anomaly_diff(got, M, e), tM)
    # ---- from the eccentric anomaly (a float64 input of its own)
    Ein = tol.f64(E) + np.where(e < 1, turn*TP, 0)
    if form == 'scalar_x' and np.ptp(Ein) > 0:
        Ein = np.full_like(Ein, Ein[0])
        if np.abs(Ein[e > 1]).max(initial=0) > 6:
            Ein = np.clip(Ein, -6, 6)
    nu_w = ref.ecc_to_true(Ein, e)
    M_w = ref.ecc_to_mean(Ein, e)
    dE2, dM2, dMn2 = rates(Ein, e)
    got = call(K.eccentric_to_true, Ein, e, form, deg)
    t = 24*EPS*(1 + (1 + np.abs(Ein))*(1 + 1/dE2))
    dd = tol.f64(ref.angdiff(got, nu_w))
    tol.check((got >= 0) & (got <= TP*(1 + 2*EPS)), 'eccentric_to_true within one turn' + d, got)
    tol.check(dd <= t, 'eccentric_to_true' + d, got, nu_w, dd, t)
    got = call(K.eccentric_to_mean, Ein, e, form, deg)
    t = 24*EPS*(1 + np.abs(Ein)*(1 + dM2) + np.abs(tol.f64(M_w)))
    dd = anomaly_diff(got, M_w, e)
    tol.check(dd <= t, 'eccentric_to_mean' + d, got, M_w, dd, t)
    # ---- from the mean anomaly
    Min = tol.f64(M) + np.where(e < 1, turn*TP, 0)
    if form == 'scalar_x' and np.ptp(Min) > 0:
        Min = np.full_like(Min, np.clip(Min[0], -100, 100))
    got = call(K.mean_to_eccentric, Min, e, form, deg)
    G = ref.ecc_to_mean(got, e)
    dM3 = rates(got, e)[1]
    t = 2e-12 + 24*EPS*(1 + np.abs(Min)*(1 + 0*dM3) + np.abs(got)*(1 + dM3))
    dd = anomaly_diff(Min, G, e)
    tol.check(dd <= t, 'mean_to_eccentric' + d, got, Min, dd, t)
    got = call(K.mean_to_true, Min, e, form, deg)
    tol.check((got >= 0) & (got <= TP*(1 + 2*EPS)), 'mean_to_true within one turn' + d, got)
    w = np.abs(np.mod(got + np.pi, TP) - np.pi)
    tol.check(w <= np.where(e < 1, 10, np.arccos(-1/np.maximum(e, 1))), 'mean_to_true inside the asymptotes' + d,
              got, Min)
    Eg = ref.true_to_ecc(got, e)
    G = ref.ecc_to_mean(Eg, e)
    t = 2e-12 + 24*EPS*(1 + np.abs(Min) + (1 + np.abs(tol.f64(Eg)))*(1 + rates(Eg, e)[1])
                        + 8*rates(Eg, e)[2])
    dd = anomaly_diff(Min, G, e)
    tol.check(dd <= t, 'mean_to_true' + d, got, Min, dd, t)
    ctx.count_cols(np.vstack([nu, e, turn]), (e > 0) & (np.abs(np.sin(nu)) > 1e-9))
    before = np.sin(nu) < 0
    for name, m in (('elliptic', e < 1), ('parabolic', e == 1), ('hyperbolic', e > 1),
                    ('unbound before periapsis', (e >= 1) & before)):
        ctx.label(name, m.sum())


@st.composite
def cases(draw):
    rows = []
    for _ in range(draw(st.integers(1, 4))):
        o = draw(gen.orbit(unbound_frac=0.97))
        rows.append((o['kep'][5], o['kep'][1], float(draw(st.sampled_from([0, 0, 1, -1, 2, -2])))))
    return dict(cols=dict(nu=[r[0] for r in rows], e=[r[1] for r in rows], turn=[r[2] for r in rows]),
                degrees=draw(st.booleans()),
                form=draw(st.sampled_from(['array', 'scalar', 'npscalar', 'scalar_e', 'scalar_x'])))


def bulk(rng, n):
    form = 'array'
    if rng.random() < .3:
        n = int(rng.integers(1, 8))
        form = ['array', 'scalar', 'npscalar', 'scalar_e', 'scalar_x'][rng.integers(5)]
    kep = gen.bulk_orbits(rng, n, conics=gen.CONICS + ['nearpar'], unbound_frac=0.97)
    e, nu = kep[1], kep[5]
    e = np.where((e != 1) & (np.abs(e - 1) < 1e-5), 1, e)
    w = np.mod(nu + np.pi, TP) - np.pi
    nu = np.where(np.abs(nu) < 49, nu, w)
    nu = np.where((e >= 1) & (np.abs(w) > 0.97*np.arccos(-1/np.maximum(e, 1))), w*0.9, nu)
    E = tol.f64(ref.true_to_ecc(nu, e))
    nu = np.where((e > 1) & (np.abs(E) > 5.9), np.sign(w)*0.5, nu)
    turn = rng.integers(-3, 4, n)*(rng.random(n) < 0.4)
    # next to the periapsis, and to the apoapsis of ellipses
    tiny = rng.choice([-1, 1], n)*10**rng.uniform(-17, -6, n)
    nu = np.where(rng.random(n) < .08, tiny + np.where((rng.random(n) < .3) & (e < 1), np.pi, 0), nu)
    turn = np.where(np.abs(nu) < 1e-5, turn*(rng.random(n) < .2), turn)
    if form == 'scalar_x':
        # the same anomaly has to exist on all of them
        nu[e > 1] = nu[0] = np.clip(nu[0], -1, 1)
    return dict(cols=dict(nu=nu, e=e, turn=turn.astype(float)), degrees=bool(rng.random() < 0.4),
                form=form)


def run_far(case, ctx):
    """unbound anomalies of any size: never wrapped, sign and magnitude kept"""
    E = gen.col(case, 'E')
    e = gen.col(case, 'e')
    if not (np.isfinite(E).all() and (e >= 1).all() and (e < 100).all()
            and (np.abs(E) <= np.where(e > 1, 30, 1e6)).all()) or ((e != 1) & (e < 1.0001)).any():
        raise OutOfDomain('far anomalies')
    form = case.get('form', 'array')
    deg = bool(case.get('degrees'))
    if form == 'scalar_e':
        e = np.full_like(e, e[0])
        E = np.clip(E, -30, 30)
    if form == 'scalar_x':
        E = np.full_like(E, np.clip(E[0], -30, 30))
    M = ref.ecc_to_mean(E, e)
    Mf = tol.f64(M)
    dM = rates(E, e)[1]
    d = f'({form}, degrees={deg}) far out'
    got = call(K.eccentric_to_mean, E, e, form, deg)
    t = 32*EPS*(np.abs(Mf) + np.abs(E)*(1 + dM)) + 1e-300
    dd = tol.f64(np.abs(got - M))
    tol.check(dd <= t, 'eccentric_to_mean' + d, got, M, dd, t)
    got = call(K.eccentric_to_true, E, e, form, deg)
    w = ref.ecc_to_true(E, e)
    t = 24*EPS*(1 + (1 + np.abs(E))*(1 + 1/rates(E, e)[0]))
    dd = tol.f64(ref.angdiff(got, w))
    tol.check((got >= 0) & (got <= TP*(1 + 2*EPS)), 'eccentric_to_true within one turn' + d, got)
    tol.check(dd <= t, 'eccentric_to_true' + d, got, w, dd, t)
    if form not in ('scalar_x', 'scalar_e'):
        # close to the asymptote: the double nearest to the true anomaly
        nu = tol.f64(w)
        Er = ref.true_to_ecc(nu, e)
        dE = rates(np.where(np.isfinite(Er), np.where(e > 1, np.clip(Er, -30, 30), Er), 0), e)[0]
        t = 24*EPS*((np.abs(nu) + 1)*(1 + dE) + np.abs(E))
        ok = np.isfinite(Er) & (np.abs(Er - E) < 1) & (t < 0.05)
        if ok.any():
            got = call(K.true_to_eccentric, nu[ok], e[ok], form, deg)
            dd = tol.f64(np.abs(got - Er[ok]))
            tol.check(dd <= t[ok], 'true_to_eccentric' + d, got, Er[ok], dd, t[ok])
            ctx.label('far true anomaly', ok.sum())
    if form != 'scalar_x':
        small = (e == 1) | (np.abs(Mf) < 900)
        if small.any() and (form != 'scalar_e' or small.all()):
            got = call(K.mean_to_eccentric, Mf[small], e[small], form, deg)
            G = ref.ecc_to_mean(got, e[small])
            t = 2e-12 + 24*EPS*(1 + np.abs(Mf[small]) + np.abs(got)*(1 + rates(got, e[small])[1]))
            dd = tol.f64(np.abs(Mf[small] - G))
            tol.check(dd <= t, 'mean_to_eccentric' + d, got, Mf[small], dd, t)
    ctx.count_cols(np.vstack([E, e]), np.abs(E) > 2*np.pi)
    ctx.label('far unbound', len(E))


def bulk_far(rng, n):
    n = int(rng.choice([1, 1, 2, 3, 5, n]))
    e = np.where(rng.random(n) < (0.3 if rng.random() < .7 else rng.integers(0, 2)), 1.0, gen.bulk_ecc(rng, n, ['hyp', 'bighyp']))
    e = np.where(e > 1, np.clip(e, 1.0002, 99), e)
    top = np.where(e > 1, rng.choice([8.0, 20.0, 29.0]), 10**rng.uniform(0, 4, n))
    E = rng.uniform(-1, 1, n)*top
    sign = rng.integers(3)
    if sign:
        E = np.abs(E)*(1 if sign == 1 else -1)
    return dict(cols=dict(E=E, e=e), degrees=bool(rng.random() < 0.4),
                form=['array', 'array', 'scalar', 'npscalar', 'scalar_e', 'scalar_x'][rng.integers(6)] if n < 6 else 'array')


SUBS = [Sub('far', run_far, None, (0, 0), bulk_far, (600, 30000), 60, shards=(4, 8)),
        Sub('conversions', run, cases(), (600, 10000), bulk, (200, 6000), 500, shards=(4, 8))]
