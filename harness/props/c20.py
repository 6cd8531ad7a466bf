"""C20: physical results do not depend on the choice of units."""
import math

import numpy as np
from hypothesis import strategies as st
import pyorb
from ..core import Sub, OutOfDomain, Violation
from .. import gen, ref, tol, twin

ID = 'C20'
RULE = ('distinct unit triples (as passed) for the constant; distinct (unit system pair, orbit) for the orbit, '
        'the two systems differing in at least one base unit')
LENGTH = {'m': 1.0, 'cm': 1e-2, 'km': 1e3, 'au': 1.495978707e11, 'pc': 3.08567758149137e16}
MASS = {'kg': 1.0, 'g': 1e-3, 'msun': 1.98847e30, 'msol': 1.98847e30}
TIME = {'s': 1.0, 'h': 3600.0, 'd': 86400.0, 'y': 86400*365.25}
TABLE = dict(length=LENGTH, mass=MASS, time=TIME)
G = 6.6743e-11
ALIAS = {'m': 'm', 'cm': 'cm', 'km': 'km', 'AU': 'au'}


def si(kind, u):
    if isinstance(u, str):
        x = u.lower()
        if kind == 'mass':
            x = x.replace('_', '').replace(' ', '').replace('-', '')
        return TABLE[kind].get(x)
    return float(u)


def run_const(case, ctx):
    u = {k: case[k] for k in ('length', 'mass', 'time')}
    vals = {}
    for k, v in u.items():
        if isinstance(v, str):
            if not v.isascii():
                raise OutOfDomain('not ASCII')
        elif not (isinstance(v, float) and math.isfinite(v) and 1e-30 < v < 1e35):
            raise OutOfDomain('unit')
        vals[k] = si(k, v)
    bad = [k for k in vals if vals[k] is None]
    np_ = case.get('np')
    args = {k: np.float64(v) if np_ and isinstance(v, float) else v for k, v in u.items()}
    ctx.count(1, [repr(sorted(u.items()))])
    if bad:
        ctx.label('unknown name')
        try:
            r = pyorb.get_G(**args)
        except TypeError:
            return
        raise Violation(f'get_G({args}) = {r!r} for the unknown {bad}')
    r = pyorb.get_G(**args)
    w = ref.LD(G)*ref.LD(vals['mass'])*ref.LD(vals['time'])**2/ref.LD(vals['length'])**3
    if not abs(r/w - 1) < 1e-13:
        raise Violation(f'get_G({args}) = {r!r} want {float(w)!r}')
    # positional order: length, mass, time
    if pyorb.get_G(args['length'], args['mass'], args['time']) != r:
        raise Violation(f'get_G positional order differs for {args}')
    ctx.label('constant')


BADTYPES = dict(int=2, none=None, list=[1.0], tuple=(1.0,), array=np.array([1.0, 2.0]), bytes=b'm', dict={}, complex=1j,
                bool=True)


def run_types(case, ctx):
    args = {k: case[k] for k in ('length', 'mass', 'time')}
    for k in args:
        if not isinstance(args[k], str) or si(k, args[k]) is None:
            raise OutOfDomain('name')
    if not case['bad']:
        raise OutOfDomain('nothing')
    for k, b in case['bad'].items():
        args[k] = BADTYPES[b]
    ctx.count(1, [repr(case)])
    try:
        r = pyorb.get_G(**args)
    except TypeError:
        return
    raise Violation(f'get_G({args}) = {r!r}')


def run_orbit(case, ctx):
    us = [twin.elem_from(u) for u in case['u']]
    n = len(us)
    A, B = case['A'], case['B']
    for S in (A, B):
        for k in ('length', 'mass', 'time'):
            v = si(k, S[k])
            if v is None or not 1e-6 < v < 1e31:
                raise OutOfDomain('unit')
    L0 = 1.495978707e11*10**case['scale'][0]
    M0 = 1.98847e30*10**case['scale'][1]
    m = np.array([x*M0 for x in case['m'][:n]] + [0.0]*(n - len(case['m'][:n])))
    mu = G*(M0 + m)
    kep = np.array(us).T
    if not twin.good_kep(kep):
        raise OutOfDomain('orbit')
    kep[0] *= L0
    cart = twin.cart64(kep, mu)
    P = 2*np.pi*np.sqrt(kep[0]**3/mu)
    dt = np.where(kep[1] < 1, 2.7, 0.2)*P*(case['dt'] - 0.5)
    view = case['view']
    res = []
    for S, deg, typ in ((A, case['degA'], case['typeA']), (B, case['degB'], case['typeB'])):
        l, mm, t = [si(k, S[k]) for k in ('length', 'mass', 'time')]
        o = pyorb.Orbit(M0=M0/mm, G=pyorb.get_G(**S), num=n, m=m/mm, degrees=deg, type=typ)
        ls = np.array([l]*3 + [l/t]*3)[:, None]
        if view == 'kep':
            k = kep.copy()
            k[0] /= l
            o.kepler = twin.to_orb_kep(k, typ, deg)
        else:
            o.cartesian = cart/ls
        el = (kep[1] < 1)
        out = [(np.array(o.cartesian)*ls, np.array(o.kepler), np.array(o.period)*t, np.array(o.speed)*l/t,
                np.array(o.mean_motion)/t*(np.pi/180 if deg else 1), np.array(o.velocity)*l/t,
                np.array(o.periapsis)*l)]
        c = twin.from_orb_kep(out[0][1], typ, deg)
        c[0] *= l
        o.propagate(dt/t)
        after = np.array(o.cartesian)*ls
        res.append((out[0], tol.f64(c), after))
    what = f'{A} against {B}, from {view}'
    e = kep[1]
    K = 1 + e + (1 + e*e)/np.abs(1 - e*e)
    T = 2e-6*K*(1 + (1 + e)/np.abs(1 - e))
    wk = np.array(kep, dtype=ref.LD)
    want = ref.kep_to_cart(wk, mu)
    s = None
    new = np.array(kep, dtype=ref.LD)
    new[5] = ref.mean_to_true(ref.true_to_mean(new[5], new[1]) + ref.mean_motion(new[0], new[1], mu)*dt, new[1])
    if not twin.good_kep(np.vstack([tol.f64(new[0]/L0), tol.f64(new[1:])])):
        new = None
    tight = 1e-10*K
    for j, (o, c, after) in enumerate(res):
        w = f'{what}: system {"AB"[j]}'
        tol.same_state(o[0], want, T if view == 'cart' else 1e-12*K*K*100, w + ': state in SI', vscale=tol.vel_scale(kep, mu))
        tol.check(np.abs(c[0]/kep[0] - 1) <= tight*K, w + ': a', c[0], kep[0])
        tol.check(np.abs(c[1] - e) <= tight*K, w + ': e', c[1], e)
        tol.same_state(tol.f64(ref.kep_to_cart(c, mu)), want, T, w + ': elements', vscale=tol.vel_scale(kep, mu))
        tol.check((np.abs(o[2]/P - 1) <= tight*K*2) | (e >= 1), w + ': period', o[2], P)
        tol.check(np.abs(o[4]*P/(2*np.pi) - 1) <= tight*K*2, w + ': mean motion', o[4], 2*np.pi/P)
        vn = tol.f64(ref.norm(want[3:]))
        tol.check(np.abs(o[3]/vn - 1) <= T*10, w + ': speed', o[3], vn)
        tol.check(np.abs(o[5]/vn - 1) <= T, w + ': velocity', o[5], vn)
        tol.check(np.abs(o[6]/(kep[0]*np.abs(1 - e)) - 1) <= tight*K*K, w + ': periapsis', o[6])
        if new is not None:
            tol.same_state(after, ref.kep_to_cart(new, mu), T*50, w + ': propagated state in SI',
                           vscale=tol.vel_scale(kep, mu))
    # the same element numbers, apart from the unit of length
    ka, kb = res[0][0][1], res[1][0][1]
    ctx.count(1, [repr(case)] if A != B else ())
    ctx.label('orbit from ' + view)


def named(kind):
    def variants(name):
        f = st.sampled_from([str.lower, str.upper, str.title, lambda s: s])
        b = f.map(lambda g: g(name))
        if kind == 'mass':
            sep = st.sampled_from(['', '', '_', ' ', '-'])
            b = st.tuples(b, sep, sep).map(lambda t: t[0][0] + t[1] + t[0][1:] + t[2])
        return b
    return st.sampled_from(sorted(TABLE[kind])).flatmap(variants)


num = st.one_of(st.floats(-8, 8), st.floats(-29, 34), st.sampled_from([0.0])).map(lambda x: float(10**x))
junk = st.one_of(st.text(alphabet='abcdeghiklmnoprstuwyzAMKGPS_- 01', max_size=5),
                 st.sampled_from(['', 'meter', 'kilogram', 'year', 'yr', 'mm', 'ly', 'min', 'mearth', 'k m', 'a_u', 'ms', 'Gg']))


def damaged(kind):
    """a known name with something around it"""
    return st.tuples(st.sampled_from(['', '', ' ', '\t', '\n', '_', '-', 's', 'k', '1', '.']), named(kind),
                     st.sampled_from(['', ' ', '\t', '\n', '_', '-', 's', '.', '1', '^1'])).map(''.join)


def mixed(kind):
    return st.one_of(named(kind), named(kind), named(kind), num, junk, damaged(kind))


const_cases = st.fixed_dictionaries(dict(length=mixed('length'), mass=mixed('mass'), time=mixed('time'), np=st.booleans()))
type_cases = st.fixed_dictionaries(dict(
    length=named('length'), mass=named('mass'), time=named('time'),
    bad=st.dictionaries(st.sampled_from(['length', 'mass', 'time']), st.sampled_from(sorted(BADTYPES)), min_size=1, max_size=2)))


def system():
    return st.fixed_dictionaries(dict(
        length=st.one_of(named('length'), named('length'), st.floats(-3, 12).map(lambda x: float(10**x))),
        mass=st.one_of(named('mass'), st.floats(-3, 30).map(lambda x: float(10**x))),
        time=st.one_of(named('time'), st.floats(-3, 8).map(lambda x: float(10**x)))))


orbit_cases = st.fixed_dictionaries(dict(
    u=twin.uvecs.hyp(), A=system(), B=system(), view=st.sampled_from(['kep', 'cart']),
    scale=st.tuples(st.floats(-4, 2), st.floats(-8, 2)).map(list), m=st.lists(twin.unit.hyp(), max_size=3), dt=twin.unit.hyp(),
    degA=st.booleans(), degB=st.booleans(), typeA=st.sampled_from(twin.TYPES), typeB=st.sampled_from(twin.TYPES)))

SUBS = [
    Sub('constant', run_const, const_cases, (1500, 40000), shards=(2, 8)),
    Sub('types', run_types, type_cases, (300, 3000)),
    Sub('orbit', run_orbit, orbit_cases, (1500, 40000), shards=(4, 8)),
]
