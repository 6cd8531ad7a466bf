"""C19: Stumpff functions equal their defining series everywhere."""
import numpy as np
from hypothesis import strategies as st
import mpmath as mp
from pyorb import kepler as K
from ..core import Sub, OutOfDomain, Violation
from .. import tol

ID = 'C19'
RULE = 'distinct non-zero arguments (each evaluated by all four functions)'
ASSUMPTIONS = ['|x| <= 1e5 (the functions overflow for large negative x)',
               'error is measured against max(|c_n(x)|, scale of the oscillation 1/(1+x)^(n/2) for x > 0) '
               'times the condition of sqrt(x)']
F = [K.stumpff0, K.stumpff1, K.stumpff2, K.stumpff3]


def series(n, x):
    """sum (-1)^j x^j/(n+2j)! in multi-precision arithmetic"""
    mp.mp.dps = 30 + int(1.0*abs(float(x))**0.5)
    x = mp.mpf(float(x))
    term = 1/mp.factorial(n)
    s = term
    j = 0
    while True:
        j += 1
        term = -term*x/((n + 2*j - 1)*(n + 2*j))
        s += term
        if j*j*4 > abs(x) and abs(term) < abs(s)*mp.mpf(10)**-25:
            return s


def scale(n, x):
    """size of the terms the closed form is made of (x > 0)"""
    x = abs(float(x))
    return 1/(1 + x)**(n/2) if n < 2 else 1/(1 + x)


def run(case, ctx):
    x = np.array(case['cols']['x'], dtype=np.float64)
    if not (np.isfinite(x).all() and (np.abs(x) <= 1e5).all()):
        raise OutOfDomain('magnitude')
    form = case.get('form', 'array')
    single = case.get('dtype') == 'f4'
    if single and (x < -5000).any():
        raise OutOfDomain('overflow')
    eps = float(np.finfo(np.float32).eps) if single else tol.EPS
    if form == 'int':
        x = np.round(x)
        arg = x.astype(np.int64)
    elif form == 'shaped':
        arg = x.reshape(1, -1, 1)
    elif form == 'strided':
        arg = np.repeat(x, 2)[::2]
    else:
        arg = x.copy()
    if single and form != 'int':
        arg = arg.astype(np.float32)
        x = arg.astype(np.float64).ravel()
    keep = arg.copy()
    if form in ('scalar', 'int-scalar', 'npscalar'):
        conv = dict(scalar=float, npscalar=np.float64)
        conv['int-scalar'] = lambda v: int(round(v))
        args = [conv[form](v) for v in x]
        x = np.array([float(a) for a in args])
        got = []
        for f in F:
            r = [f(a) for a in args]
            if any(np.ndim(v) != 0 for v in r):
                raise Violation(f'{f.__name__}: array result for a scalar')
            got.append(np.array(r, dtype=np.float64))
        tup = [K.stumpff(a) for a in args]
        comb = [np.array([t[k] for t in tup]) for k in range(4)]
        if any(not isinstance(t, tuple) or len(t) != 4 for t in tup):
            raise Violation('stumpff does not return four values')
    else:
        got = []
        for f in F:
            r = f(arg)
            if np.shape(r) != arg.shape:
                raise Violation(f'{f.__name__}: shape {np.shape(r)} for {arg.shape}')
            got.append(np.asarray(r, dtype=np.float64).ravel())
        comb = K.stumpff(arg)
        if not isinstance(comb, tuple) or len(comb) != 4:
            raise Violation('stumpff does not return four values')
        comb = [np.asarray(c, dtype=np.float64).ravel() for c in comb]
        if not np.array_equal(arg, keep):
            raise Violation('stumpff modified its argument')
    # in large batches a sample of the points
    step = max(1, x.size//int(case.get('sample', x.size)))
    pick = np.arange(x.size)[int(case.get('first', 0)) % step::step]
    for n in range(4):
        if not np.array_equal(comb[n], got[n]):
            raise Violation(f'stumpff()[{n}] differs from stumpff{n}: {comb[n][:9].tolist()} against {got[n][:9].tolist()}')
        for k in pick:
            w = series(n, x[k])
            lim = 8*eps*(1 + abs(x[k])**.5)*max(abs(w), scale(n, x[k]) if x[k] > 0 else 0)
            d = abs(mp.mpf(float(got[n][k])) - w)
            if not d <= lim:
                raise Violation(f'stumpff{n}({x[k]!r}) [{form}] = {got[n][k]!r}, series {float(w)!r}, '
                                f'err {float(d)} tol {float(lim)}')
    # recurrence c_n = 1/n! - x c_{n+2}
    for n in (0, 1):
        d = np.abs(got[n] - (1 - x*got[n + 2]))
        with np.errstate(all='ignore'):
            lim = 32*eps*(1 + np.sqrt(np.abs(x)))*(1 + np.abs(x*got[n + 2]) + np.abs(got[n]))
        tol.check(d <= lim, f'recurrence c{n} = 1 - x c{n + 2}', got[n], 1 - x*got[n + 2], d, lim)
    ctx.count_cols(x[None, :], x != 0)
    ctx.label(form, x.size)
    if x.size > 150:
        ctx.label('in a batch of more than 150', x.size)
    ctx.label('positive', (x > 0).sum())
    ctx.label('negative', (x < 0).sum())
    ctx.label('|x| < 1e-3', (np.abs(x) < 1e-3).sum())
    ctx.label('|x| > 50', (np.abs(x) > 50).sum())


xs = st.one_of(st.sampled_from([0.0, -0.0, 1.0, -1.0, 1e-10, -1e-10, 1e-300, 4.0, np.pi**2, 4*np.pi**2]),
               st.floats(-200, 200), st.floats(-3, 3),
               st.tuples(st.floats(-18, 4.5), st.sampled_from([-1, 1])).map(lambda t: t[1]*10**t[0]))


@st.composite
def cases(draw):
    return dict(cols=dict(x=draw(st.lists(xs, min_size=1, max_size=4))),
                form=draw(st.sampled_from(['array', 'scalar', 'npscalar', 'int', 'int-scalar', 'shaped', 'strided'])),
                dtype=draw(st.sampled_from(['f8', 'f8', 'f8', 'f4'])))


def bulk(rng, n):
    s = rng.choice([-1.0, 1.0], n)
    k = rng.integers(0, 4, n)
    x = np.choose(k, [s*10**rng.uniform(-16, 3, n), rng.uniform(-3, 3, n), rng.uniform(-100, 100, n),
                      s*10**rng.uniform(-2, 0.5, n)])
    return dict(cols=dict(x=x))


def bulk_many(rng, n):
    n = int(rng.choice([129, 200, 256, 257, 400, 513, 1000, 1025, 2049, 4097, 10001]))
    case = bulk(rng, n)
    case.update(sample=30, first=int(rng.integers(1 << 20)), form=['array', 'shaped', 'strided', 'int'][rng.integers(4)],
                dtype=['f8', 'f8', 'f8', 'f4'][rng.integers(4)])
    return case


SUBS = [Sub('series', run, cases(), (800, 20000), bulk, (40, 3000), 100, shards=(4, 8)),
        Sub('many', run, None, (0, 0), bulk_many, (120, 4000), 1, shards=(4, 8))]
