"""C01: Keplerian elements -> exactly the documented state vector."""
import numpy as np
from hypothesis import strategies as st
import pyorb
from pyorb import kepler as K
from ..core import Sub
from .. import gen, ref, tol

ID = 'C01'
RULE = ('distinct element columns with e > 0 or an inclined plane, and at least two '
        'non-zero angles')


def run(case, ctx):
    kep = gen.col(case, 'kep')
    mu = gen.col(case, 'mu')
    gen.require_orbits(kep, mu)
    deg = bool(case.get('degrees'))
    fn = pyorb.kep_to_cart if case.get('api') == 'package' else K.kep_to_cart
    arg = kep.copy()
    if deg:
        arg[2:] = np.degrees(arg[2:])
    mode = case.get('mode', 'batch')
    n = kep.shape[1]
    if mode == 'single':
        got = np.stack([fn(arg[:, k].copy(), mu=float(mu[k]), degrees=deg)
                        for k in range(n)], axis=1)
    elif mode == 'onemu':
        mu = np.full(n, mu[0])
        got = fn(arg.copy(), mu=float(mu[0]), degrees=deg)
    elif mode == 'intmu':
        # a whole number of any size is a number
        whole = int(np.round(mu[0])) or 1
        mu = np.full(n, float(whole))
        got = fn(arg.copy(), mu=whole, degrees=deg)
    elif mode == 'default':
        mu = np.full(n, 1.32712440018e20)
        got = fn(arg.copy(), degrees=deg)
    else:
        got = fn(arg.copy(), mu=mu.copy(), degrees=deg)
    if got.shape != (6, n):
        tol.check(False, f'shape {got.shape} for input (6, {n})')
    want = ref.kep_to_cart(arg, mu, rad=not deg)
    bound = 16*tol.EPS*tol.kep_cond(kep)
    tol.same_state(got, want, bound, f'kep_to_cart(degrees={deg}, {mode})',
                   vscale=tol.vel_scale(kep, mu))
    nz = (np.abs(kep[2:]) > 0).sum(axis=0)
    ctx.count_cols(np.vstack([kep, mu]), (nz >= 2) & ((kep[1] > 0) | (kep[2] > 0)))
    for name, m in (('elliptic', (kep[1] < 1) & (kep[1] > 0)), ('circular', kep[1] == 0),
                    ('parabolic', kep[1] == 1), ('hyperbolic', kep[1] > 1),
                    ('planar', kep[2] == 0), ('retrograde', kep[2] > np.pi/2)):
        ctx.label(name, m.sum())


@st.composite
def cases(draw):
    cols = draw(gen.rows(gen.orbit(), mu=gen.mu_st))
    return dict(cols=cols, degrees=draw(st.booleans()),
                mode=draw(st.sampled_from(['batch', 'single', 'onemu', 'default', 'intmu'])),
                api=draw(st.sampled_from(['package', 'module'])))


def bulk(rng, n):
    kep = gen.bulk_orbits(rng, n, conics=gen.CONICS + ['nearpar', 'edgepar', 'gapcirc'],
                          orients=gen.ORIENT + ['tinyplanar', 'tinyretro'])
    return dict(cols=dict(kep=kep, mu=gen.bulk_mu(rng, n)), degrees=bool(rng.random() < 0.4),
                mode=['batch', 'batch', 'onemu', 'default', 'intmu'][rng.integers(5)], api='module')


SUBS = [
    Sub('forward', run, cases(), (400, 8000), bulk, (120, 6000), 1000, shards=(8, 8)),
]
