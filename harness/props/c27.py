"""C27: an orbit is the same whichever way its values were given."""
import copy
import pickle
import numpy as np
import pyorb
from ..core import Sub, OutOfDomain, Violation
from .. import gs as st
from .. import twin

ID = 'C27'
RULE = 'distinct (route, orbit values) with a route other than plain construction, of at least one complete orbit'
TIGHT = 1e-10

ROUTES = ['ctor array', 'ctor keys', 'setter', 'component setters', 'update keys', 'update array', 'update members', 'add array',
          'add keys', 'add singly', 'grow', 'shrink', 'allocate', 'slice', 'rows apart', 'vectors', 'scalars', 'other units']
WRAPS = ['none', 'none', 'copy', 'copy.copy', 'deepcopy', 'pickle', 'slice', 'flags later']


def build(case, view, vals, m, route, order, peek, u):
    """an orbit that holds `vals` (6, n), masses m, built by one route"""
    n = vals.shape[1]
    names = twin.KEP if view == 'kepler' else twin.CART
    perm = [names[j] for j in order]
    rows = {nm: vals[names.index(nm)].copy() for nm in perm}
    base = {k: v for k, v in case['flags'].items()}
    mode = twin.flags(case['mode'])
    if case['wrap'] == 'flags later':
        # nothing is converted before the flags are set
        late = mode
        mode = dict(auto_update=False, direct_update=False)
    else:
        late = None

    def new(num, **kw):
        return pyorb.Orbit(M0=case['M0'], num=num, **base, **mode, **kw)

    def look(o):
        if peek:
            o.cartesian, o.kepler, str(o)

    if route == 'ctor array':
        o = new(n, m=m.copy(), **{view: vals.copy()})
    elif route == 'ctor keys':
        o = new(n, m=m.copy(), **rows)
    elif route == 'setter':
        o = new(n, m=m.copy())
        look(o)
        setattr(o, view, vals.copy())
    elif route in ('component setters', 'vectors'):
        o = new(n, m=m.copy())
        if route == 'vectors' and view == 'cartesian':
            for nm, sl in ((('r', slice(0, 3)), ('v', slice(3, 6))) if u < .5 else (('v', slice(3, 6)), ('r', slice(0, 3)))):
                setattr(o, nm, vals[sl].copy())
                look(o)
        else:
            for nm in perm:
                setattr(o, nm, rows[nm])
                look(o)
    elif route == 'update keys':
        o = new(n, m=m.copy())
        look(o)
        o.update(**rows)
    elif route == 'update array':
        o = new(n, m=m.copy())
        o.update(**{view: vals.copy()})
    elif route == 'update members':
        o = new(n, m=m.copy())
        js = list(range(n)) if u < .5 else list(range(n))[::-1]
        for j in js:
            if u*4 % 1 < .5:
                o.update(inds=j, **{view: vals[:, j].copy()})
            else:
                o.update(inds=j, **{nm: rows[nm][j] for nm in perm})
            look(o)
    elif route == 'add array':
        o = new(0)
        o.add(num=n, m=m.copy(), **{view: vals.copy()})
    elif route == 'add keys':
        o = new(0)
        look(o)
        o.add(num=n, **rows, m=m.copy())
    elif route == 'add singly':
        o = new(0)
        for j in range(n):
            o.add(m=m[j], **{nm: rows[nm][j] for nm in perm})
            look(o)
    elif route == 'grow':
        k = min(int(u*n), n - 1)
        o = new(k, m=m[:k].copy(), **({nm: rows[nm][:k] for nm in perm} if k else {}))
        look(o)
        o.add(num=n - k, m=m[k:].copy(), **{view: vals[:, k:].copy()})
    elif route == 'shrink':
        k = min(int(u*(n + 1)), n)
        at = np.insert(np.arange(n), k, 0)
        o = new(n + 1, m=m[at].copy(), **{nm: rows[nm][at] for nm in perm})
        look(o)
        o.delete(k)
    elif route == 'allocate':
        o = new(n + 2, **{nm: rows[nm][0] for nm in perm})
        look(o)
        o.allocate(n)
        look(o)
        o.m[:] = m
        setattr(o, view, vals.copy())
    elif route == 'slice':
        k = int(u*3)
        at = np.concatenate([np.zeros(k, int), np.arange(n), np.zeros(2, int)])
        o = new(len(at), m=m[at].copy(), **{view: vals[:, at].copy()})
        look(o)
        o = o[k:k + n]
    elif route == 'rows apart':
        # two updates, each with half of the components
        o = new(n, m=m.copy())
        c = 1 + int(u*4.99)
        o.update(**{nm: rows[nm] for nm in perm[:c]})
        look(o)
        o.update(**{nm: rows[nm] for nm in perm[c:]})
    elif route == 'scalars':
        # values all members share are given once
        one = {nm: float(v[0]) if (v == v[0]).all() else v for nm, v in rows.items()}
        mm = float(m[0]) if (m == m[0]).all() else m.copy()
        o = new(n, m=mm, **one)
    elif route == 'other units':
        # degrees and type chosen afterwards: only the labels of stored numbers
        o = pyorb.Orbit(M0=case['M0'], num=n, m=m.copy(), **dict(base, degrees=not base['degrees']), auto_update=False, direct_update=False)
        o.degrees = base['degrees']
        o.auto_update, o.direct_update = mode['auto_update'] if 'auto_update' in mode else True, mode['direct_update'] if 'direct_update' in mode else True
        setattr(o, view, vals.copy())
    else:
        raise OutOfDomain(route)
    return o, late


def wrap(o, how):
    if how == 'copy':
        return o.copy()
    if how == 'copy.copy':
        return copy.copy(o)
    if how == 'deepcopy':
        return copy.deepcopy(o)
    if how == 'pickle':
        return pickle.loads(pickle.dumps(o))
    if how == 'slice':
        return o[:]
    return o


def run(case, ctx):
    u = case['u']
    n = case['n']
    if not 1 <= n <= 5000 or n > 40 and case['route'] in ('add singly', 'update members') or sorted(case['order']) != list(range(6)):
        raise OutOfDomain('case')
    view = case['view']
    us = [u[j % len(u)] for j in range(n)]
    if n > 40 and not case['alike']:
        # all different
        us = [[(x + j*0.6180339887498949) % 1 if k in (0, 1, 3, 4, 6) else x for k, x in enumerate(v)] for j, v in enumerate(us)]
    if case['alike']:
        us = [u[0]]*n
    kep = twin.elements(us, par=view == 'kepler')
    if not twin.good_kep(kep):
        raise OutOfDomain('elements')
    m = np.array([0.5*us[j][case['alike'] and 1] for j in range(n)]) if case['mass'] else np.zeros(n)
    if case['alike'] and case['mass']:
        m = np.linspace(0, 1, n)
    f = case['flags']
    mu = f['G']*(case['M0'] + m)
    if view == 'kepler':
        vals = twin.to_orb_kep(kep, f['type'], f['degrees'])
    else:
        vals = twin.cart64(kep, mu)
        if not twin.good_cart(vals, mu):
            raise OutOfDomain('state')
    # components that nobody gives
    for r, j in case['gaps']:
        vals[r, j % n] = np.nan
    what = f'{view} by {case["route"]}, {case["mode"]}, {f}'
    with np.errstate(all='ignore'):
        A, late = build(case, view, vals, m, case['route'], case['order'], case['peek'], case['x'])
        if late:
            for k, v in dict(dict(auto_update=True, direct_update=True), **late).items():
                setattr(A, k, v)
            if case['mode'] in ('immediate', 'direct'):
                (A.calculate_cartesian if view == 'kepler' else A.calculate_kepler)()
        A = wrap(A, case['wrap'])
        B = pyorb.Orbit(M0=case['M0'], num=n, **f, **twin.flags(case['mode']))
        B.m[:] = m
        setattr(B, view, vals.copy())
        if len(A) != n or A.num != n or not np.array_equal(A.m, m):
            raise Violation(f'{what}: {len(A)} orbits with masses {np.array(A.m).tolist()}, not {n} with {m.tolist()}')
        for nm in ('type', 'degrees', 'G', 'M0', 'epoch', 'auto_update', 'direct_update', 'kepler_read_only', 'cartesian_read_only',
                   'solver_options', 'dtype'):
            if getattr(A, nm) != getattr(B, nm):
                raise Violation(f'{what}: {nm} is {getattr(A, nm)!r} against {getattr(B, nm)!r}')
        other = 'cartesian' if view == 'kepler' else 'kepler'
        order = [view, other] if case['x'] < .5 else [other, view]
        got = {nm: (twin.read(A, nm), twin.read(B, nm)) for nm in order}
        for nm in got:
            if got[nm][0].shape != (6, n):
                raise Violation(f'{what}: {nm} has shape {got[nm][0].shape} for {n} orbits')
        if not np.array_equal(got[view][0], vals, equal_nan=True):
            raise Violation(f'{what}: {view} reads {got[view][0].tolist()}, given {vals.tolist()}')
        gap = np.isnan(vals).any(axis=0)
        if case['mode'] != 'manual':
            miss = np.isnan(got[other][0])
            if (miss.all(axis=0) != gap).any() or (miss.any(axis=0) != gap).any():
                raise Violation(f'{what}: given {vals.tolist()}, {other} reads {got[other][0].tolist()}')
        e = kep[1].copy()
        for nm in order:
            twin.compare_read(nm, *got[nm], A, B, e, what, t=TIGHT)
        if str(A) != str(B) and not gap.any() and n != 1:
            raise Violation(f'{what}: prints {str(A)} against {str(B)}')
        if not gap.any() and case['mode'] != 'manual':
            for nm in twin.readable(twin.READ, e):
                twin.compare_read(nm, twin.read(A, nm), twin.read(B, nm), A, B, e, what, t=TIGHT)
    ctx.count(1, [repr((case['route'], case['wrap'], vals.tolist() if n <= 40 else case))] if case['route'] != 'ctor array' and not gap.all() else ())
    ctx.label('route ' + case['route'])
    ctx.label('wrap ' + case['wrap'])
    ctx.label(case['mode'])
    if gap.any():
        ctx.label('components missing')


def run_defaults(case, ctx):
    """what is not given has its documented default, one option never changes another"""
    base = pyorb.Orbit(M0=1.0)
    opts = dict(degrees=True, type='mean', G=2.0, epoch=5.0, num=3, solver_options={case['opt'][0]: case['opt'][1]},
                auto_update=False, direct_update=False, kepler_read_only=True, cartesian_read_only=True)
    given = {k: opts[k] for k in case['given']}
    mine = copy.deepcopy(given)
    o = pyorb.Orbit(1.0, **given)
    if given != mine:
        raise Violation(f'Orbit({mine}) changed its arguments: {given}')
    want = dict(degrees=False, type='true', G=pyorb.G, epoch=None, num=1, auto_update=True, direct_update=True,
                kepler_read_only=False, cartesian_read_only=False)
    want.update({k: v for k, v in given.items() if k != 'solver_options'})
    for k, v in want.items():
        if getattr(o, k) != v:
            raise Violation(f'Orbit({given}): {k} is {getattr(o, k)!r}, not {v!r}')
    so = dict(tol=1e-12, max_iter=5000, degree=5)
    so.update(given.get('solver_options', {}))
    if o.solver_options != so:
        raise Violation(f'Orbit({given}): solver options {o.solver_options}, not {so}')
    if o.M0 != 1.0 or o.dtype != np.float64 or not np.array_equal(o.m, np.zeros(want['num'])):
        raise Violation(f'Orbit({given}): M0 {o.M0}, m {o.m}, {o.dtype}')
    if not (np.isnan(o.kepler).all() and np.isnan(o.cartesian).all() and o.kepler.shape == (6, want['num'])):
        raise Violation(f'Orbit({given}) without values reads {o.kepler.tolist()} {o.cartesian.tolist()}')
    # the options of one orbit are its own
    o.solver_options['tol'] = 0.5
    p = pyorb.Orbit(1.0)
    if p.solver_options != dict(tol=1e-12, max_iter=5000, degree=5) or base.solver_options != p.solver_options or given != mine:
        raise Violation('the solver options of one orbit show in another or in the dictionary given')
    ctx.count(1, [repr(case)] if case['given'] else ())


flags_st = st.fixed_dictionaries(dict(type=st.sampled_from(twin.TYPES), degrees=st.booleans(), G=st.sampled_from([1.0, 39.47812018693255])))
ns = st.one_of(*[st.integers(1, 4)]*5, st.integers(1, 30))
def cases(ns, routes):
    return st.fixed_dictionaries(dict(
        view=st.sampled_from(['kepler', 'cartesian']), n=ns, u=twin.uvecs, alike=st.sampled_from([False, False, False, True]), mass=st.booleans(),
        flags=flags_st, M0=st.sampled_from([1.0, 2.5]), mode=st.sampled_from(twin.MODES), route=st.sampled_from(routes), wrap=st.sampled_from(WRAPS),
        order=st.sampled_from([[0, 1, 2, 3, 4, 5], [5, 4, 3, 2, 1, 0], [1, 0, 3, 2, 5, 4], [5, 0, 1, 4, 2, 3], [2, 4, 5, 0, 3, 1], [3, 1, 5, 2, 0, 4]]),
        peek=st.booleans(), x=twin.unit,
        gaps=st.one_of(*[st.just([])]*4, st.lists(st.tuples(st.integers(0, 5), st.integers(0, 29)).map(list), max_size=3))))
OPTS = ['degrees', 'type', 'G', 'epoch', 'num', 'solver_options', 'auto_update', 'direct_update', 'kepler_read_only', 'cartesian_read_only']
defaults = st.fixed_dictionaries(dict(given=st.lists(st.sampled_from(OPTS), max_size=6, unique=True),
                                      opt=st.sampled_from([['tol', 1e-6], ['max_iter', 17], ['degree', 3]])))
SUBS = [
    Sub('routes', run, cases(ns, ROUTES), (400, 8000), shards=(8, 8), random_n=(8000, 200000)),
    Sub('many', run, cases(st.sampled_from([65, 130, 257, 600, 1025, 2049, 4100]), [r for r in ROUTES if r not in ('add singly', 'update members')]),
        (0, 0), shards=(4, 8), random_n=(100, 4000)),
    Sub('defaults', run_defaults, defaults, (100, 1000), random_n=(1000, 5000)),
]
