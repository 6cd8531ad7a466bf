"""C03: Keplerian -> Cartesian -> Keplerian is the identity (up to folding)."""
import numpy as np
from hypothesis import strategies as st
import pyorb
from ..core import Sub, OutOfDomain
from .. import gen, ref, tol

ID = 'C03'
RULE = ('distinct elliptic or hyperbolic element columns with at least two non-zero '
        'angles (non-planar or non-circular ones count by what is left after folding)')
CON = ['circ', 'nearcirc', 'ell', 'ell', 'highell', 'hyp', 'hyp', 'bighyp', 'midpar']


def run(case, ctx):
    kep = gen.col(case, 'kep')
    mu = gen.col(case, 'mu')
    gen.require_orbits(kep, mu)
    e, i = kep[1], kep[2]
    if ((np.abs(e - 1) < 1e-3) | ((e > 5e-10) & (e < 2e-9))
            | ((np.sin(i) < 5e-6) & (i != 0) & (i != np.pi))).any():
        raise OutOfDomain('too close to a threshold')
    deg = bool(case.get('degrees'))
    n = kep.shape[1]
    arg = kep.copy()
    if deg:
        arg[2:] = np.degrees(arg[2:])
    if case.get('mode') == 'single':
        got = np.stack([pyorb.cart_to_kep(pyorb.kep_to_cart(arg[:, k].copy(), mu=float(mu[k]), degrees=deg),
                                          mu=float(mu[k]), degrees=deg) for k in range(n)], axis=1)
    else:
        got = pyorb.cart_to_kep(pyorb.kep_to_cart(arg.copy(), mu=mu.copy(), degrees=deg),
                                mu=mu.copy(), degrees=deg)
    what = f'round trip(degrees={deg})'
    tol.finite(got, what)
    rad = got.copy()
    if deg:
        rad[2:] = np.radians(rad[2:])
    S = ref.State(ref.kep_to_cart(kep, mu), mu)
    c = tol.CartCond(S, k=40*tol.kep_cond(kep)/10)
    om, Om, nu = kep[3], kep[4], kep[5]
    pro, ret = i == 0, i == np.pi
    planar = pro | ret
    circ = e < 5e-10
    # folding
    w_Om = np.where(planar, 0, Om)
    lon = np.where(pro, om + Om, np.where(ret, om - Om, om))
    w_om = np.where(circ, 0, lon)
    w_nu = np.where(circ, lon + nu, nu)
    with np.errstate(all='ignore'):
        c_pl = c.ke*c.T*(1 + 1/e) + tol.acos_noise(lon, c.ke*c.T/e)
    t_om = np.where(circ, 0, np.where(planar, c_pl, c.om))
    t_nu = np.where(circ, np.where(planar, c.l + 4*e, c.u + 4*e), c.nu)
    t_nu = t_nu + tol.EPS*40
    tol.check(np.abs(got[0]/kep[0] - 1) <= c.a + c.ke, what + ': a', got[0], kep[0], None, c.a)
    tol.check(np.abs(got[1] - e) <= c.e, what + ': e', got[1], e, None, c.e)
    tol.check(np.abs(rad[2] - i) <= np.where(planar, 5e-8, c.i), what + ': i', rad[2], i, None, c.i)
    for nm, x, w, t in (('Omega', rad[4], w_Om, np.where(planar, 0, c.Om + c.ke)),
                        ('omega', rad[3], w_om, t_om), ('nu', rad[5], w_nu, t_nu)):
        d = tol.f64(ref.angdiff(x, w))
        tol.check((d <= t) | (t > 1e-2), f'{what}: {nm}', got, arg, d, t)
        ctx.label('ill_conditioned_' + nm, (t > 1e-2).sum())
    nz = (np.abs(kep[2:]) > 0).sum(axis=0)
    ctx.count_cols(np.vstack([kep, mu]), nz >= 2)
    for name, m in (('elliptic', (e < 1) & ~circ), ('circular', circ), ('hyperbolic', e > 1),
                    ('planar', pro), ('retrograde planar', ret), ('inclined', ~planar)):
        ctx.label(name, m.sum())


@st.composite
def cases(draw):
    cols = draw(gen.rows(gen.orbit(conics=CON), mu=gen.mu_st))
    return dict(cols=cols, degrees=draw(st.booleans()), mode=draw(st.sampled_from(['batch', 'single'])))


def bulk(rng, n):
    kep = gen.bulk_orbits(rng, n, conics=CON)
    return dict(cols=dict(kep=kep, mu=gen.bulk_mu(rng, n)), degrees=bool(rng.random() < 0.4))


SUBS = [Sub('roundtrip', run, cases(), (400, 8000), bulk, (120, 6000), 1000, shards=(8, 8))]
