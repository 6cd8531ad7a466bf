"""Generators shared by the properties.

`orbit()` / `rows()` are Hypothesis strategies; `bulk_orbits()` makes the same
mixture of classes as numpy columns.
"""
import math

import numpy as np
from hypothesis import strategies as st

PI = math.pi
F = dict(allow_nan=False, allow_infinity=False)

SPECIAL_ANGLES = [k*PI/6 for k in range(13)] + [k*PI/4 for k in range(9)]


def fl(lo, hi):
    return st.floats(lo, hi, **F)


def logfl(lo, hi):
    return st.one_of(st.sampled_from([lo, 1.0, hi]) if lo <= 1 <= hi else st.sampled_from([lo, hi]),
                     fl(math.log10(lo), math.log10(hi)).map(lambda x: float(10**x)))


angle = st.one_of(
    st.sampled_from(SPECIAL_ANGLES),
    fl(0, 2*PI),
    fl(-4*PI, 4*PI),
    fl(-90, 90),
    st.tuples(st.sampled_from(SPECIAL_ANGLES), st.sampled_from([-1e-3, -1e-6, -1e-9, 1e-9, 1e-6, 1e-3]))
      .map(lambda t: t[0] + t[1]),
)
angle_near = st.one_of(
    st.sampled_from(SPECIAL_ANGLES),
    fl(0, 2*PI),
    fl(-4*PI, 4*PI))
angle_turn = st.one_of(st.sampled_from(SPECIAL_ANGLES[:12]), fl(0, 2*PI - 1e-9))

CONICS = ['circ', 'nearcirc', 'ell', 'ell', 'highell', 'hyp', 'hyp', 'bighyp', 'par']
ORIENT = ['planar', 'retro', 'gen', 'gen', 'gen', 'polar', 'nearplanar', 'nearretro']


def ecc(conic):
    return {
        'circ': st.just(0.0),
        'nearcirc': st.one_of(fl(1e-12, 3e-10), fl(-8, -2).map(lambda x: float(10**x))),
        'ell': st.one_of(st.sampled_from([0.5, 0.1, 0.2, 0.9]), fl(1e-3, 0.9)),
        'highell': fl(0.9, 0.99),
        'hyp': st.one_of(st.sampled_from([1.5, 2.0, 1.2]), fl(1.02, 5.0)),
        'bighyp': st.one_of(fl(5.0, 60.0), fl(5.0, 60.0), fl(1.5, 4.0).map(lambda x: float(10**x))),
        'par': st.just(1.0),
        'midpar': fl(-2.85, -1.5).flatmap(lambda x: st.sampled_from([1 - 10**x, 1 + 10**x])),
        'midell': fl(-2.85, -1.5).map(lambda x: 1 - 10**x),
    }[conic]


def inc(orient):
    return {
        'planar': st.just(0.0),
        'retro': st.just(PI),
        'polar': st.just(PI/2),
        'gen': st.one_of(st.sampled_from([PI/6, PI/4, PI/3, 2*PI/3, 3*PI/4]), fl(1e-3, PI - 1e-3)),
        'nearplanar': fl(-5.0, -3.0).map(lambda x: float(10**x)),
        'nearretro': fl(-5.0, -3.0).map(lambda x: PI - float(10**x)),
    }[orient]


@st.composite
def orbit(draw, conics=CONICS, orients=ORIENT, angles=angle, a=None, unbound_frac=0.95,
          nu_any_turn=True):
    """dict of true-anomaly Keplerian elements, radians."""
    c = draw(st.sampled_from(conics))
    o = draw(st.sampled_from(orients))
    e = draw(ecc(c))
    i = draw(inc(o))
    aa = draw(a if a is not None else st.one_of(st.sampled_from([1.0, 2.0, 0.5]), logfl(1e-2, 1e3)))
    om = draw(angles)
    Om = draw(angles)
    if e < 1:
        nu = draw(angles)
    else:
        lim = unbound_frac*(math.acos(-1/e) if e > 1 else PI)
        nu = draw(st.one_of(st.sampled_from([0.0, 0.5, -0.5, 1.0, -1.0]), fl(-lim, lim),
                            fl(-10, -2).map(lambda x: float(10**x)), fl(-10, -2).map(lambda x: -float(10**x))))
        if nu_any_turn and draw(st.booleans()):
            nu += 2*PI*(draw(st.sampled_from([0, 0, 1, -2, 2, 5, -9])) + (nu < 0))
    return dict(kep=[aa, e, i, om, Om, nu], conic=c, orient=o)


def rows(orb, max_size=4, **extra):
    """Batch of orbits -> {'kep': 6 lists, name: list...}."""
    row = st.tuples(orb, *extra.values())

    def build(rs):
        cols = dict(kep=[[r[0]['kep'][k] for r in rs] for k in range(6)])
        for j, name in enumerate(extra):
            cols[name] = [r[1 + j] for r in rs]
        return cols
    return st.lists(row, min_size=1, max_size=max_size).map(build)


mu_st = st.one_of(st.sampled_from([1.0, 39.47812018693255, 3.986004418e14, 1.32712440018e20]),
                  logfl(1e-3, 1e6), logfl(1e-3, 1e6), logfl(1e-12, 1e22))


# ------------------------------------------------------------------ numpy

def bulk_angle(rng, n, turn=False):
    u = rng.random()
    if n > 1 and u < 0.12:
        # a constant column: code that looks at a whole batch at once
        return np.repeat(np.array([0.0]) if u < 0.05 else bulk_angle(rng, 1, turn), n)
    if n > 3 and u < 0.2:
        # few distinct values: neighbours often agree
        return bulk_angle(rng, 2, turn)[rng.integers(0, 2, n)]
    kind = rng.integers(0, 10, n)
    x = rng.uniform(0, 2*PI, n)
    if not turn:
        x = np.where(kind >= 7, rng.uniform(-4*PI, 4*PI, n), x)
        x = np.where(kind == 9, rng.uniform(-90, 90, n), x)
    sp = np.asarray(SPECIAL_ANGLES)[rng.integers(0, 12, n)]
    x = np.where(kind == 0, sp, x)
    near = sp + rng.choice([-1, 1], n)*10**rng.uniform(-10, -2, n)
    if turn:
        near = np.mod(near, 2*PI)
    return np.where(kind == 1, near, x)


def bulk_ecc(rng, n, conics):
    u = rng.random()
    if n > 1 and u < 0.3:
        # a uniform batch
        conics = [conics[rng.integers(len(conics))]]
    elif n > 3 and u > 0.92:
        return bulk_ecc(rng, 3, conics)[rng.integers(0, 3, n)]
    c = np.asarray(conics)[rng.integers(0, len(conics), n)]
    e = np.zeros(n)
    for name, f in dict(
        circ=lambda k: np.zeros(k),
        nearcirc=lambda k: np.where(rng.random(k) < 0.3, 10**rng.uniform(-12, -9.6, k),
                                    10**rng.uniform(-8, -2, k)),
        gapcirc=lambda k: 10**rng.uniform(-9.6, -8, k),
        ell=lambda k: rng.uniform(1e-3, 0.9, k),
        highell=lambda k: rng.uniform(0.9, 0.99, k),
        hyp=lambda k: rng.uniform(1.02, 5, k),
        bighyp=lambda k: np.where(rng.random(k) < 0.75, rng.uniform(5, 60, k), 10**rng.uniform(1.5, 4, k)),
        par=lambda k: np.ones(k),
        midpar=lambda k: 1 + rng.choice([-1, 1], k)*10**rng.uniform(-2.85, -1.5, k),
        midell=lambda k: 1 - 10**rng.uniform(-2.85, -1.5, k),
        edgepar=lambda k: 1 + rng.choice([-1, 1], k)*10**rng.uniform(-12, -7, k),
        nearpar=lambda k: 1 + rng.choice([-1, 1], k)*10**rng.uniform(-7, -2, k),
    ).items():
        m = c == name
        e[m] = f(int(m.sum()))
    return e


def bulk_inc(rng, n, orients):
    if n > 1 and rng.random() < 0.3:
        orients = [orients[rng.integers(len(orients))]]
    o = np.asarray(orients)[rng.integers(0, len(orients), n)]
    x = np.zeros(n)
    for name, f in dict(
        planar=lambda k: np.zeros(k),
        retro=lambda k: np.full(k, PI),
        polar=lambda k: np.full(k, PI/2),
        gen=lambda k: rng.uniform(1e-3, PI - 1e-3, k),
        nearplanar=lambda k: 10**rng.uniform(-5, -3, k),
        nearretro=lambda k: PI - 10**rng.uniform(-5, -3, k),
        tinyplanar=lambda k: 10**rng.uniform(-14, -5, k),
        tinyretro=lambda k: PI - 10**rng.uniform(-14, -5, k),
    ).items():
        m = o == name
        x[m] = f(int(m.sum()))
    return x


def bulk_orbits(rng, n, conics=CONICS, orients=ORIENT, unbound_frac=0.95, turn=False,
                a_range=None, nu_any_turn=True):
    e = bulk_ecc(rng, n, conics)
    i = bulk_inc(rng, n, orients)
    if a_range is None:
        # per batch: ordinary sizes, or metres to light years in any unit
        a_range = (-2, 3) if rng.random() < 0.75 else (-6, 16)
    a = 10**rng.uniform(*a_range, n)
    om, Om, nu = [bulk_angle(rng, n, turn) for _ in range(3)]
    lim = unbound_frac*np.where(e >= 1, np.arccos(-1/np.maximum(e, 1)), np.inf)
    x = rng.uniform(-1, 1, n)
    x = np.where(rng.random(n) < 0.05, 0, x)
    x = np.where(rng.random(n) < 0.1, np.sign(x)*10**rng.uniform(-10, -2, n), x)
    un = np.where(np.isfinite(lim), x*np.where(np.isfinite(lim), lim, 0), 0)
    if nu_any_turn:
        un = np.where((un < 0) & (rng.random(n) < 0.5), un + 2*PI, un)
        un = np.where(rng.random(n) < 0.05, un + 2*PI*rng.integers(-9, 9, n), un)
    nu = np.where(e >= 1, un, nu)
    return np.stack([a, e, i, om, Om, nu])


def bulk_mu(rng, n):
    return np.where(rng.random(n) < 0.3,
                    np.asarray([1.0, 39.47812018693255, 3.986004418e14, 1.32712440018e20])[rng.integers(0, 4, n)],
                    10**(rng.uniform(-3, 6, n) if rng.random() < 0.75 else rng.uniform(-12, 22, n)))


def col(case, name, dtype=np.float64):
    return np.array(case['cols'][name], dtype=dtype)


def require_orbits(kep, mu=None, frac=0.999):
    """OutOfDomain unless every column is a valid orbit (shrinking may leave
    the domain)."""
    from .core import OutOfDomain
    a, e, i, om, Om, nu = kep
    ok = np.isfinite(kep).all() and (a > 0).all() and (e >= 0).all() \
        and (i >= 0).all() and (i <= PI).all() and (np.abs(kep[3:]) < 100).all()
    if ok:
        ok = (1 + e*np.cos(nu) > 0).all()
    if ok:
        w = np.abs(np.mod(nu + PI, 2*PI) - PI)
        lim = np.where(e < 1, 10, np.arccos(-1/np.maximum(e, 1)))
        ok = (w <= frac*lim).all()
    if ok and mu is not None:
        ok = np.isfinite(mu).all() and (np.asarray(mu) > 1e-30).all()
    if not ok:
        raise OutOfDomain('not an orbit')
