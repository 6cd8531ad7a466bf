"""C22: constants are immutable and mutually consistent."""
import itertools
import math
import sys

import numpy as np
from hypothesis import strategies as st
import pyorb
from pyorb import const, kepler
import pyorb.orbit
import pyorb.unit
from ..core import Sub, Violation
from .. import tol

ID = 'C22'
RULE = ('distinct histories of assignments and deletions with at least one attempt to change or delete an existing '
        'constant (plus the table of identities, checked after every history)')
VALUES = dict(pi=math.pi, e=math.e, _2pi=2*math.pi, _4pi=4*math.pi, c=299792458.0, G=6.6743e-11, wgs84_a=6378137.0,
              wgs84_invf=298.257223563, wgs84_omega=7292115e-11, wgs84_GM=3986004.418e8, AU=1.495978707e11,
              M_sol=1.98847e30, GM_sol=1.32712440018e20,
              K_a=0, K_e=1, K_i=2, K_om=3, K_OM=4, K_nu=5, E_a=0, E_h=1, E_k=2, E_p=3, E_q=4, E_lam=5)
DERIVED = ['wgs84_f', 'wgs84_M_earth']
NAMES = sorted(VALUES) + DERIVED
_fresh = itertools.count()
_START = {n: getattr(const, n) for n in NAMES}


def restore():
    """A failing case must not leak into the next one while it is shrunk."""
    try:
        if any(const.__dict__.get(n) is not v for n, v in _START.items()):
            const.__dict__.update(_START)
    except AttributeError:
        pass


def others():
    """every way of reaching the same constants"""
    return [const, pyorb.const, sys.modules['pyorb.const']]


def table(where):
    for k, v in VALUES.items():
        x = getattr(const, k)
        if isinstance(x, (bool, str)) or not x == v:
            raise Violation(f'{where}: const.{k} is {x!r}, not {v!r}')

    def near(name, a, b, t=4*tol.EPS):
        if not abs(a - b) <= t*abs(b):
            raise Violation(f'{where}: {name}: {a!r} against {b!r}')
    near('_2pi', const._2pi, 2*const.pi)
    near('_4pi', const._4pi, 4*const.pi)
    near('wgs84_f', const.wgs84_f*const.wgs84_invf, 1.0)
    near('wgs84_M_earth', const.wgs84_M_earth*const.G, const.wgs84_GM)
    near('GM_sol against G*M_sol', const.G*const.M_sol, const.GM_sol, 1e-3)
    for name, x, y in (
            ('pyorb.G', pyorb.G, const.G), ('pyorb.AU', pyorb.AU, const.AU), ('pyorb.M_sol', pyorb.M_sol, const.M_sol),
            ('pyorb.GM_sol', pyorb.GM_sol, const.GM_sol), ('pyorb.GM_earth', pyorb.GM_earth, const.wgs84_GM),
            ('pyorb.M_earth', pyorb.M_earth, const.wgs84_M_earth), ('kepler.GM_sol', kepler.GM_sol, const.GM_sol),
            ('get_G in SI', pyorb.get_G('m', 'kg', 's'), const.G),
            ('default G of an orbit', pyorb.Orbit(M0=1.0, num=0).G, const.G),
            ('pyorb.e_lim', pyorb.e_lim, kepler.e_lim), ('pyorb.i_lim', pyorb.i_lim, kepler.i_lim)):
        if x != y:
            raise Violation(f'{where}: {name} is {x!r}, not {y!r}')
    near('get_G with the named solar mass and AU', pyorb.get_G('AU', 'Msol', 's'), const.G*const.M_sol/const.AU**3, 1e-13)
    for names in (['K_a', 'K_e', 'K_i', 'K_om', 'K_OM', 'K_nu'], ['E_a', 'E_h', 'E_k', 'E_p', 'E_q', 'E_lam']):
        if [getattr(const, n) for n in names] != list(range(6)):
            raise Violation(f'{where}: {names} are {[getattr(const, n) for n in names]}')
    # the named rows hold the named quantities
    k = np.zeros(6)
    k[const.K_a], k[const.K_e], k[const.K_i], k[const.K_om], k[const.K_OM], k[const.K_nu] = 2.0, 0.25, 0.5, 0.7, 0.9, 1.1
    q = pyorb.kep_to_equi(k)
    w = {const.E_a: 2.0, const.E_h: .25*math.sin(1.6), const.E_k: .25*math.cos(1.6),
         const.E_p: math.tan(.25)*math.sin(.9), const.E_q: math.tan(.25)*math.cos(.9), const.E_lam: 2.7}
    for j, v in w.items():
        if abs(q[j] - v) > 1e-12:
            raise Violation(f'{where}: equinoctial row {j} is {q[j]!r}, want {v!r}')
    if pyorb.Orbit.KEPLER != ['a', 'e', 'i', 'omega', 'Omega', 'anom'] or \
            pyorb.Orbit.CARTESIAN != ['x', 'y', 'z', 'vx', 'vy', 'vz']:
        raise Violation(f'{where}: element names {pyorb.Orbit.KEPLER} {pyorb.Orbit.CARTESIAN}')


def run(case, ctx):
    restore()
    fresh = f'vt{next(_fresh)}_'
    before = {n: getattr(const, n) for n in NAMES}
    known = {}
    hard = False
    for op in case['ops']:
        obj = others()[op['via'] % 3]
        name = op['name']
        new = name.startswith('new')
        real = fresh + name if new else name
        cur = known.get(name) if new else before[name]
        exists = not new or name in known
        kind = op['kind']
        what = f'{kind} of {name}'
        if kind == 'delete':
            if not exists:
                continue
            hard = True
            try:
                if op['via'] % 2:
                    delattr(obj, real)
                else:
                    obj.__delattr__(real)
            except const.ConstError:
                pass
            else:
                raise Violation(f'{what}: no error')
        else:
            if kind == 'same' and exists:
                v = cur
            elif kind == 'scaled' and exists and not isinstance(cur, str):
                v = cur*(1 + op['x']) if cur else op['x']
            else:
                v = op['v']
            if exists and v == cur:
                setattr(obj, real, v)
            elif exists:
                hard = True
                try:
                    setattr(obj, real, v)
                except const.ConstError as e:
                    if not isinstance(e, TypeError):
                        raise Violation(f'{what}: {type(e)}')
                else:
                    raise Violation(f'{what} to {v!r} from {cur!r}: no error')
            else:
                setattr(obj, real, v)
                known[name] = v
        for n in NAMES:
            x = getattr(const, n)
            if type(x) is not type(before[n]) or not x == before[n]:
                raise Violation(f'after {what}: const.{n} changed from {before[n]!r} to {x!r}')
        for n, v in known.items():
            x = getattr(const, fresh + n)
            if x != v or type(x) is not type(v):
                raise Violation(f'after {what}: {n} changed from {v!r} to {x!r}')
    table('after the history')
    ctx.count(1, [repr(case)] if hard else ())


ops = st.fixed_dictionaries(dict(
    kind=st.sampled_from(['set', 'same', 'scaled', 'delete', 'set']),
    name=st.one_of(st.sampled_from(NAMES), st.sampled_from(['new0', 'new1'])),
    via=st.integers(0, 5), x=st.sampled_from([1e-15, 1e-9, -1e-12, 1e-3, 1.0, -2.0]),
    v=st.one_of(st.floats(-1e3, 1e3), st.integers(-3, 7), st.booleans(), st.sampled_from(['pi', 'text', '']))))
SUBS = [Sub('histories', run, st.fixed_dictionaries(dict(ops=st.lists(ops, max_size=10))), (1200, 12000), shards=(4, 8))]
