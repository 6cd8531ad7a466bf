"""C23: element equivalence never equates different orbits."""
import numpy as np
from hypothesis import strategies as st
from pyorb import kepler as K
from ..core import Sub, OutOfDomain, Violation
from .. import gen, ref, tol

ID = 'C23'
RULE = ('distinct pairs that differ in at least one element by more than the comparison tolerance, or that are '
        'equivalent only through folding (compensating changes)')
PI = np.pi
ASSUMPTIONS = ['comparison tolerance: relative 1e-5, absolute 1e-8 per element (numpy.isclose), so states of '
               'equivalent sets agree to 1e-4 times the conditioning of the elements',
               '|1 - e| > 0.05 and a > 0.1: closer to a parabola a relative tolerance of 1e-5 in e is not a tolerance '
               'on the orbit']


def state_gap(k1, k2):
    """Largest relative difference of the two states, and its bound."""
    w = [ref.kep_to_cart(k[:, None], 1.0)[:, 0] for k in (k1, k2)]
    rs = max(float(ref.norm(x[:3])) for x in w)
    vs = max(float(tol.vel_scale(k[:, None], 1.0)[0]) for k in (k1, k2))
    d = float(max(ref.norm(w[0][:3] - w[1][:3])/rs, ref.norm(w[0][3:] - w[1][3:])/vs))
    c = max(float(tol.kep_cond(k[:, None])[0]) for k in (k1, k2))
    return d, 4e-5*c


def guard(k):
    if not np.isfinite(k).all():
        raise OutOfDomain('finite')
    gen.require_orbits(k[:, None])
    if k[0] < 0.1 or abs(1 - k[1]) < 0.05 or k[1] > 3000:
        raise OutOfDomain('conditioning')
    if k[1] > 1 and 1 + k[1]*np.cos(k[5]) < 0.05:
        raise OutOfDomain('asymptote')
    if (np.abs(k[3:]) > 14).any():
        raise OutOfDomain('angles')


def ask(a, b, what):
    a0, b0 = a.copy(), b.copy()
    r = K.kep_equivalent(a, b)
    if not (r is True or r is False or isinstance(r, np.bool_)):
        raise Violation(f'{what}: answered {r!r}')
    if not (np.array_equal(a, a0) and np.array_equal(b, b0)):
        raise Violation(f'{what}: modified its arguments')
    return bool(r)


def pair(k1, k2, deg):
    a, b = k1.copy(), k2.copy()
    if deg:
        a[2:], b[2:] = np.degrees(a[2:]), np.degrees(b[2:])
    what = f'kep_equivalent({a.tolist()}, {b.tolist()})'
    r12 = ask(a.copy(), b.copy(), what)
    r21 = ask(b.copy(), a.copy(), what)
    if r12 != r21:
        raise Violation(f'{what} is {r12} but {r21} the other way round')
    for x in (a, b):
        if not ask(x.copy(), x.copy(), what) or not ask(x, x, what):
            raise Violation(f'{x.tolist()} is not equivalent to itself')
    gap, bound = state_gap(k1, k2)
    if r12 and gap > bound:
        raise Violation(f'{what} is True but the states differ by {gap} (relative), bound {bound}')
    return r12


def run_pair(case, ctx):
    k1 = np.array(case['k1'], dtype=np.float64)
    k2 = k1.copy()
    guard(k1)
    for idx, d in case['changes']:
        if idx == 0:
            k2[0] *= 1 + d
        else:
            k2[idx] += d
    comp = case.get('comp')
    if comp:
        (i, j, s), d = comp
        k2[i] += d
        k2[j] += s*d
    guard(k2)
    deg = bool(case.get('degrees'))
    r12 = pair(k1, k2, deg)
    differs = (np.abs(k1 - k2) > 1e-4*(1 + np.abs(k1))).any()
    ctx.count(1, [repr((case['k1'], case['changes'], comp, deg))] if differs or (comp and abs(comp[1]) > 1e-4) else ())
    ctx.label('equivalent' if r12 else 'different')
    if r12 and differs:
        ctx.label('equivalent by folding')
    for idx, d in case['changes']:
        if abs(d) > 1e-4 and len(case['changes']) == 1 and not comp:
            ctx.label(f'differs only in element {idx}')


def run_bulk(case, ctx):
    K1, K2 = [np.array(case['cols'][k], dtype=np.float64) for k in ('k1', 'k2')]
    for j in range(K1.shape[1]):
        try:
            guard(K1[:, j])
            guard(K2[:, j])
        except OutOfDomain:
            ctx.label('pair outside the domain')
            continue
        r = pair(K1[:, j], K2[:, j], bool(case.get('degrees')))
        differs = (np.abs(K1[:, j] - K2[:, j]) > 1e-4*(1 + np.abs(K1[:, j]))).any()
        ctx.count(1, [(K1[:, j].tobytes(), K2[:, j].tobytes())] if differs else ())
        ctx.label('equivalent' if r else 'different')
        if r and differs:
            ctx.label('equivalent by folding')
        d = np.nonzero(K1[:, j] != K2[:, j])[0]
        if differs and d.size == 1:
            ctx.label(f'differs only in element {d[0]}')


def bulk(rng, n):
    k = gen.bulk_orbits(rng, n, conics=['circ', 'circ', 'nearcirc', 'ell', 'hyp', 'bighyp'], orients=['planar', 'planar', 'retro', 'gen', 'polar'],
                        unbound_frac=0.8, a_range=(-0.5, 3), turn=True, nu_any_turn=False)
    k[1] = np.where(rng.random(n) < .05, 10**rng.uniform(-10, -7, n), k[1])
    k[2] = np.where(rng.random(n) < .05, 10**rng.uniform(-10, -7, n), k[2])
    k[1] = np.where((k[1] > 5) & (rng.random(n) < .3), 10**rng.uniform(1, 3, n), k[1])
    lim = 0.8*np.arccos(-1/np.maximum(k[1], 1))
    k[5] = np.where(k[1] > 5, np.clip(k[5], -lim, lim), k[5])
    loose = rng.random(n) < .1
    k[1] = np.where(loose, 0, k[1])
    k2 = k.copy()
    # one exactly circular, the other within the comparison tolerance of it
    k2[1] = np.where(loose, 10**rng.uniform(-9.3, -8.01, n), k2[1])
    size = np.where(rng.random(n) < .3, 10**rng.uniform(-9, -3, n), rng.uniform(1e-3, 1.5, n))*rng.choice([-1, 1], n)
    size = np.where(rng.random(n) < .1, np.pi*rng.choice([-2, -1, -.5, .5, 1, 2], n), size)
    kind = rng.integers(0, 4, n)
    i = rng.integers(0, 6, n)
    for c in range(n):
        if kind[c] < 2:
            k2[i[c], c] += abs(size[c]) if i[c] < 2 else size[c]
        elif kind[c] == 2:
            p, q, s = PAIRS[rng.integers(len(PAIRS))]
            k2[p, c] += size[c]
            k2[q, c] += s*size[c]
        else:
            p, q, s = PAIRS[rng.integers(3)]
            k2[p, c] += size[c]
            k2[q, c] += s*size[c]
            k2[i[c], c] += abs(size[c])*.3
    return dict(cols=dict(k1=k, k2=k2), degrees=bool(rng.random() < .3))


def run_circular(case, ctx):
    """equal argument of latitude on a circular orbit: equivalent"""
    k1 = np.array(case['k1'], dtype=np.float64)
    k1[1] = case['e1']
    k2 = k1.copy()
    k2[1] = case['e2']
    k2[3] += case['d']
    k2[5] -= case['d']
    if not (0 <= case['e1'] < 9e-10 and 0 <= case['e2'] < 9e-10):
        raise OutOfDomain('not circular')
    guard(k1)
    guard(k2)
    if case.get('degrees'):
        for k in (k1, k2):
            k[2:] = np.degrees(k[2:])
    what = f'kep_equivalent({k1.tolist()}, {k2.tolist()})'
    if not (ask(k1, k2, what) and ask(k2, k1, what)):
        raise Violation(f'{what} is False for circular orbits with the same argument of latitude')
    ctx.count(1, [repr(case)] if abs(case['d']) > 1e-3 else ())


def run_planar(case, ctx):
    """equal longitude of periapsis on a planar orbit (true longitude if circular too): equivalent"""
    k1 = np.array(case['k1'], dtype=np.float64)
    k1[2] = case['i1']
    if case['circular']:
        k1[1] = case['circular'] - 1
    k2 = k1.copy()
    k2[2] = case['i2']
    k2[4] += case['d']
    k2[3] -= case['d']
    if case['circular']:
        k2[3] += case['d2']
        k2[5] -= case['d2']
    if not all(0 <= i < 2e-9 for i in (case['i1'], case['i2'])) or not (k1[1] < 9e-10 or not case['circular']):
        raise OutOfDomain('not planar')
    guard(k1)
    guard(k2)
    if case.get('degrees'):
        for k in (k1, k2):
            k[3:] = np.degrees(k[3:])
    what = f'kep_equivalent({k1.tolist()}, {k2.tolist()})'
    if not (ask(k1, k2, what) and ask(k2, k1, what)):
        raise Violation(f'{what} is False for planar orbits with the same longitude of periapsis')
    ctx.count(1, [repr(case)] if abs(case['d']) > 1e-3 else ())


def run_batch(case, ctx):
    k = np.array(case['k'], dtype=np.float64)
    if k.shape != (6,) or not np.isfinite(k).all():
        raise OutOfDomain('shape')
    two = np.repeat(k[:, None], case['n'], axis=1)
    for x, y in ((two, k), (k, two), (two, two)):
        try:
            r = K.kep_equivalent(x, y)
        except ValueError:
            continue
        raise Violation(f'kep_equivalent accepted shapes {x.shape}, {y.shape}: {r!r}')
    ctx.count(1, [repr(case)])


delta = st.one_of(st.sampled_from([1e-3, -1e-3, 0.1, -0.1, 0.5, 1.0, -1.0, PI, 2*PI, 1e-9, 1e-7, -1e-7, 3e-6, 1e-4]),
                  st.floats(-2, 2), st.floats(-9, -1).map(lambda x: float(10**x)))
PAIRS = [(3, 4, -1), (3, 5, -1), (4, 5, -1), (3, 4, 1), (4, 5, 1), (3, 5, 1)]


@st.composite
def base(draw):
    o = draw(gen.orbit(conics=['circ', 'nearcirc', 'ell', 'ell', 'hyp', 'bighyp', 'par'], orients=['planar', 'planar', 'retro', 'gen', 'gen', 'polar'],
                       a=st.one_of(st.just(1.0), gen.logfl(0.2, 1e6)), unbound_frac=0.8, angles=gen.angle_near))
    k = list(o['kep'])
    if k[1] == 1:
        k[1] = 1.3
    if draw(st.integers(0, 9)) == 0:
        k[2] = draw(st.sampled_from([1e-10, 1e-9, 3e-9, 3.2e-9, 1e-8, PI - 1e-9]))
    if draw(st.integers(0, 9)) == 0:
        k[1] = draw(st.sampled_from([1e-10, 9e-10, 1e-9, 1.1e-9, 5e-9, 2e-8]))
    return [float(x) for x in k]


@st.composite
def pairs(draw):
    k = draw(base())
    ch = [[draw(st.integers(0, 5)), draw(delta)] for _ in range(draw(st.integers(0, 2)))]
    comp = [list(draw(st.sampled_from(PAIRS))), draw(delta)] if draw(st.booleans()) else None
    return dict(k1=k, changes=ch, comp=comp, degrees=draw(st.booleans()))



circ = st.fixed_dictionaries(dict(k1=base(), e1=st.sampled_from([0.0, 0.0, 1e-10, 8e-10]), e2=st.sampled_from([0.0, 0.0, 1e-10, 8e-10]),
                                  d=delta, degrees=st.booleans()))
planar = st.fixed_dictionaries(dict(k1=base(), i1=st.sampled_from([0.0, 0.0, 1e-10, 1e-9]), i2=st.sampled_from([0.0, 0.0, 1e-10, 1e-9]),
                                    d=delta, d2=delta, circular=st.sampled_from([0, 0, 1, 1 + 1e-10]), degrees=st.booleans()))
batch = st.fixed_dictionaries(dict(k=base(), n=st.integers(1, 3)))
SUBS = [
    Sub('bulk', run_bulk, None, (0, 0), bulk, (60, 3000), 300, shards=(6, 8)),
    Sub('pairs', run_pair, pairs(), (1500, 40000), shards=(6, 8)),
    Sub('circular', run_circular, circ, (800, 20000), shards=(1, 8)),
    Sub('planar', run_planar, planar, (800, 20000), shards=(1, 8)),
    Sub('batch', run_batch, batch, (150, 2000)),
]
