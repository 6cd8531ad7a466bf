"""Operation histories on pyorb.Orbit: generation, execution, comparison.

An abstract op holds only entropy (numbers in [0, 1]) and selectors.  `concrete`
turns it into canonical values (radians, true anomaly) relative to a snapshot of
a reference orbit, dropping ops that would leave the domain; `apply` executes a
canonical op on any orbit, converting to that orbit's unit and anomaly type.
Only the public API of Orbit is used.
"""
import copy as copymod
import math
import re

import numpy as np
import pyorb

from . import gs as st
from . import ref, tol
from .core import OutOfDomain, Violation

PI = np.pi
TP = 2*np.pi
KEP = ['a', 'e', 'i', 'omega', 'Omega', 'anom']
CART = ['x', 'y', 'z', 'vx', 'vy', 'vz']
TYPES = ['true', 'eccentric', 'mean']
NAMED = {'true_anomaly': 'true', 'eccentric_anomaly': 'eccentric', 'mean_anomaly': 'mean'}
MODES = ['immediate', 'deferred', 'manual', 'direct']
T0 = 3e-5


# ------------------------------------------------------------------ orbits

def flags(mode):
    return dict(immediate=dict(direct_update=True, auto_update=True),
                direct=dict(direct_update=True, auto_update=False),
                deferred=dict(direct_update=False, auto_update=True),
                manual=dict(direct_update=False, auto_update=False))[mode]


def make(cfg, num=None, **over):
    c = dict(cfg)
    c.update(over)
    n = len(c['m']) if num is None else num
    if not (c.get('G', 1.0) > 0 and c.get('M0', 1.0) > 0 and all(x >= 0 for x in c['m'])):
        raise OutOfDomain('masses')
    kw = dict(num=n, type=c.get('type', 'true'), degrees=bool(c.get('degrees', False)),
              G=c.get('G', 1.0), dtype=dict(f4=np.float32, f8=np.float64)[c.get('dtype', 'f8')])
    if c.get('solver_options'):
        kw['solver_options'] = dict(c['solver_options'])
    if 'epoch' in c:
        kw['epoch'] = c['epoch']
    kw.update(flags(c.get('mode', 'immediate')))
    if n and len(c['m']) == n:
        kw['m'] = np.array(c['m'], dtype=np.float64)
    kw.update(c.get('ctor', {}))
    return pyorb.Orbit(M0=c.get('M0', 1.0), **kw)


def mu_of(orb):
    return orb.G*(orb.M0 + np.array(orb.m, dtype=np.float64))


def to_orb_kep(kep, orb_type, degrees):
    """canonical (6,n) -> the orbit's representation"""
    k = np.array(kep, dtype=ref.LD)
    if orb_type != 'true':
        k[5] = ref.from_true(k[5], k[1], orb_type)
    if degrees:
        k[2:] = k[2:]*180/ref.PI
    return k.astype(np.float64)


def from_orb_kep(kep, orb_type, degrees):
    """the orbit's representation -> canonical longdouble (NaN columns kept)"""
    k = np.array(kep, dtype=np.float64).astype(ref.LD)
    if degrees:
        k[2:] = k[2:]*ref.PI/180
    if orb_type != 'true':
        ok = ~np.isnan(k[[1, 5]]).any(axis=0)
        if ok.any():
            k[5, ok] = ref.to_true(k[5, ok], k[1, ok], orb_type)
    return k


class Snap:
    """Everything about an immediate orbit, canonical."""

    def __init__(self, orb):
        self.n = len(orb)
        self.raw = np.array(orb.kepler, dtype=np.float64)
        self.kep = from_orb_kep(self.raw, orb.type, orb.degrees)
        self.cart = np.array(orb.cartesian, dtype=np.float64)
        self.m = np.array(orb.m, dtype=np.float64)
        self.mu = mu_of(orb)
        self.type, self.degrees = orb.type, orb.degrees

    def full(self):
        return not (np.isnan(self.cart).any() or np.isnan(tol.f64(self.kep)).any())


def good_kep(kep):
    """Domain in which histories stay well conditioned."""
    k = tol.f64(kep)
    if not np.isfinite(k).all():
        return False
    a, e, i, om, Om, nu = k
    ok = (a > 1e-3) & (a < 1e4) & ((e < 1e-11) | ((e >= 0.01) & (e <= 0.9)) | (e == 1) | ((e >= 1.1) & (e <= 6)))
    ok &= (i == 0) | (i == PI) | ((i >= 0.01) & (i <= PI - 0.01))
    w = np.abs(np.mod(nu + PI, TP) - PI)
    ok &= (e < 1) | (w < 0.9*np.arccos(-1/np.maximum(e, 1)))
    return bool(ok.all())


def good_cart(cart, mu):
    c = tol.f64(cart)
    if not np.isfinite(c).all():
        return False
    S = ref.State(c, mu)
    with np.errstate(all='ignore'):
        kh = tol.f64(S.rn*S.vn/S.hn)
    if not (np.isfinite(kh).all() and (kh < 50).all()):
        return False
    e = tol.f64(S.e)
    i = tol.f64(S.i)
    a = tol.f64(S.a)
    ok = ((e < 1e-11) | ((e >= 0.01) & (e <= 0.9)) | ((e >= 1.1) & (e <= 6)))
    ok &= np.asarray(S.planar) | ((i >= 0.01) & (i <= PI - 0.01))
    ok &= (a > 1e-3) & (a < 1e4)
    nu = tol.f64(S.nu)
    w = np.abs(np.mod(nu + PI, TP) - PI)
    ok &= (e < 1) | (w < 0.93*np.arccos(-1/np.maximum(e, 1)))
    return bool(ok.all())


# ------------------------------------------------------------------ values

def elem_from(u, conic=None, par=False):
    """(6,) canonical elements from six numbers in [0, 1]"""
    if len(u) != 7 or min(u) < 0 or max(u) > 1:
        raise OutOfDomain('entropy')
    q = u[5]
    c = conic or ('circ' if q < 0.08 else 'ell' if q < 0.7 else 'par' if par and q < 0.78 else 'hyp')
    e = {'circ': 0.0, 'ell': 0.01 + 0.85*u[1], 'hyp': 1.15 + 2.5*u[1], 'par': 1.0}[c]
    v = u[2]
    i = 0.0 if v < 0.1 else PI if v > 0.95 else 0.02 + (v - 0.1)/0.85*(PI - 0.04)
    a = 0.5 + 3*u[0]
    om = TP*(1.3*u[3] - 0.15)
    Om = TP*(1.3*u[4] - 0.15)
    t = (u[6] if len(u) > 6 else u[0])
    if e < 1:
        nu = TP*(1.2*t - 0.1)
    else:
        nu = (2*t - 1)*0.8*math.acos(-1/e)
    return [a, e, i, om, Om, nu]


def elements(us, **kw):
    return np.array([elem_from(u, **kw) for u in us]).T


def sel_indices(sel, n):
    """(python selector, list of member indices) or None"""
    k = sel['k']
    if n == 0 and k != 'all':
        return None
    v = sel['v']
    if k == 'all':
        return slice(None), list(range(n))
    if k == 'int':
        j = v % n
        return j, [j]
    if k == 'negint':
        j = -1 - (v % n)
        return j, [n + j]
    if k == 'npint':
        j = v % n
        return np.int64(j), [j]
    if k == 'slice':
        a, b = sorted((v % (n + 1), (v//7) % (n + 1)))
        step = 1 + (v//50) % 2
        s = slice(a, b, step)
        return s, list(range(n))[s]
    if k == 'anyslice':
        # any slice at all: ends past the members, counted from the end, backwards
        ends = [None, *range(-n - 2, n + 3)]
        s = slice(ends[v % len(ends)], ends[(v//5) % len(ends)], [None, -1, 2, -2, 3, -3, 1, -1][(v//13) % 8])
        return s, list(range(n))[s]
    if k == 'revslice':
        return slice(None, None, -1), list(range(n))[::-1]
    if k in ('list', 'array'):
        idx = []
        x = v
        for _ in range(1 + v % min(n, 3)):
            x = (x*7 + 3) % 1000003
            if x % n not in idx:
                idx.append(x % n)
        return (np.array(idx) if k == 'array' else idx), idx
    if k == 'dup':
        idx = [v % n, v % n, (v//7) % n]
        return idx, idx
    if k == 'mask':
        m = np.array([bool((v >> j) & 1) for j in range(n)])
        return m, [j for j in range(n) if m[j]]
    if k == 'maskcmp':
        # the common idiom orb[orb.a > x]: resolved by the caller as a mask
        m = np.array([bool((v >> (j + 3)) & 1) for j in range(n)])
        return m, [j for j in range(n) if m[j]]
    raise KeyError(k)


def _bc(form, vals):
    """scalar form uses the first value for everybody"""
    if form == 'scalar':
        return float(vals[0])
    return np.array(vals, dtype=np.float64)


def concrete(op, s):
    """canonical op for a container with snapshot `s` (or None: skip)."""
    k = op['op']
    n = s.n
    u = op.get('u', [[0.5]*7])
    us = [u[j % len(u)] for j in range(max(n, 1))]
    if k in ('read', 'copy', 'type', 'typeA', 'mode', 'iter', 'nested', 'str'):
        return dict(op)
    if k == 'set':
        if n == 0 or not s.full():
            if op['name'] not in ('kepler', 'cartesian') or n == 0:
                return None
        return _concrete_set(op, s, us)
    if k == 'update':
        r = sel_indices(op['sel'], n)
        if r is None:
            return None
        py, idx = r
        if not idx:
            return None
        return _concrete_update(op, s, us, py, idx)
    if k == 'propagate':
        if n == 0 or not s.full():
            return None
        with np.errstate(all='ignore'):
            P = TP*np.sqrt(np.array(s.kep[0], dtype=np.float64)**3/s.mu)
        dt = np.array([(2*us[j][0] - 1)*3*P[j] if s.kep[1, j] < 1 else (us[j][0] - .5)*0.4*P[j]
                       for j in range(n)])
        new = prop_ref(s, dt if op['form'] == 'array' else dt[0])
        if not good_kep(new):
            return None
        return dict(op='propagate', dt=_bc(op['form'], dt))
    if k == 'add':
        num = 1 + int(u[0][0]*2.99)
        if op.get('zero'):
            # no orbits to add: nothing may happen, whatever values come along
            vals = elements(u[:1])
            if not good_kep(vals):
                return None
            return dict(op='add', num=0, view='kep', kep=vals, m=[0.25] if op.get('withm', True) else None, scalar=True)
        vals = elements([u[j % len(u)] for j in range(num)], par=op['view'].startswith('kep'))
        if op.get('hypok') is False:
            vals = elements([u[j % len(u)] for j in range(num)], conic='ell')
        m = [0.5*u[j % len(u)][3] for j in range(num)]
        view = op['view']
        out = dict(op='add', num=num, view=view, m=m if op.get('withm', True) else None)
        if not good_kep(vals):
            return None
        if view == 'kep' or view == 'keparray':
            out['kep'] = vals
        elif view in ('cart', 'cartarray'):
            mm = np.array(m if out['m'] is not None else [0.0]*num)
            out['cart'] = cart64(vals, s.gmu(mm))
            if not good_cart(out['cart'], s.gmu(mm)):
                return None
        elif view == 'partial':
            out['a'] = float(vals[0, 0])
        if op.get('form') == 'scalar' and view in ('kep', 'cart') and num > 1:
            for w in ('kep', 'cart'):
                if w in out:
                    out[w] = np.repeat(out[w][:, :1], num, axis=1)
            out['m'] = [m[0]]*num if out['m'] is not None else None
            out['scalar'] = True
            mm = np.array(out['m'] if out['m'] is not None else [0.0]*num)
            if 'cart' in out and not good_cart(out['cart'], s.gmu(mm)):
                return None
        return out
    if k in ('delete', 'index', 'fork'):
        r = sel_indices(op['sel'], n)
        if r is None:
            return None
        py, idx = r
        if k == 'delete' and (n - len(set(idx)) < 0 or op['sel']['k'] == 'all'):
            return None
        if k == 'index' and not idx and not op.get('empty'):
            return None
        return dict(op=k, py=py, idx=idx, how=op.get('how', 'index'))
    if k == 'calc':
        r = sel_indices(op['sel'], n)
        if r is None:
            return None
        if op['which'] == 'kepler' and (tol.f64(s.kep[1, r[1]]) == 1).any():
            return None
        src = s.kep if op['which'] == 'cartesian' else s.cart
        ok = [j for j in dict.fromkeys(r[1]) if not np.isnan(tol.f64(src[:, j])).any()]
        if ok and not (good_kep(src[:, ok]) if op['which'] == 'cartesian' else good_cart(src[:, ok], s.mu[ok])):
            return None
        return dict(op='calc', which=op['which'], py=r[0], idx=r[1], noarg=op['sel']['k'] == 'all' and op.get('noarg'))
    if k == 'mass':
        if n == 0 or not s.full():
            return None
        m = np.array([0.5*us[j][1] for j in range(n)])
        keep = op['keep']
        mu = s.gmu(m)
        if (keep == 'cart' and not good_cart(s.cart, mu)) or not good_kep(s.kep):
            return None
        return dict(op='mass', m=m, keep=keep, via=op.get('via', 'attr'))
    raise KeyError(k)


def cart64(kep, mu):
    cart = ref.kep_to_cart(kep, mu).astype(np.float64)
    pl = (tol.f64(kep[2]) == 0) | (tol.f64(kep[2]) == PI)
    cart[2] = np.where(pl, 0, cart[2])
    cart[5] = np.where(pl, 0, cart[5])
    return cart


def prop_ref(s, dt):
    k = np.array(s.kep, dtype=ref.LD)
    M = ref.true_to_mean(k[5], k[1]) + ref.mean_motion(k[0], k[1], s.mu)*dt
    k[5] = ref.mean_to_true(M, k[1])
    return k


def nudge(u):
    """relative change of a value that is only moved a little, or None"""
    if not 0.78 < u[2] < 0.9:
        return None
    return float(np.copysign(10**(-14 + 80*(u[2] - 0.78)), u[3] - 0.5))


def factor(u, lo, width):
    """ratio of a new positive value to the old one"""
    d = nudge(u)
    return lo + width*u[0] if d is None else 1 + d


def kep_value(name, u, kep_col, form_type=None):
    """new canonical value of one element, keeping the conic"""
    a, e = float(kep_col[0]), float(kep_col[1])
    d = nudge(u)
    if d is not None and e != 1 and not (e > 1 and name == 'anom'):
        return float(kep_col[KEP.index(name)])*(1 + d)
    new = elem_from(u, conic='hyp' if e > 1 else 'par' if e == 1 else 'ell')
    if name == 'a':
        return min(max(a*(0.5 + 1.3*u[0]), 0.05), 50.0)
    if name == 'anom':
        if e < 1:
            return new[5]
        return (2*u[6 % len(u)] - 1)*0.8*math.acos(-1/e)
    return new[KEP.index(name)]


def cart_value(name, u, col):
    j = CART.index(name)
    sc = np.linalg.norm(col[:3]) if j < 3 else np.linalg.norm(col[3:])
    if j in (2, 5) and u[1] < 0.1:
        return 0.0
    d = nudge(u)
    if d is not None:
        return float(col[j]*(1 + d))
    if u[1] > 0.9:
        # tiny, but not zero
        return float(np.copysign(sc*10**(-12 + 60*(u[1] - 0.9)), u[0] - 0.5))
    return float(col[j] + (u[0] - 0.5)*0.5*sc)


def _concrete_set(op, s, us):
    name, n = op['name'], s.n
    form = op.get('form', 'array')
    if form == 'scalar':
        us = [us[0]]*n
    kep = np.array(s.kep, dtype=ref.LD)
    cart = s.cart.copy()
    out = dict(op='set', name=name, form=form)
    if name == 'kepler':
        new = elements(us, par=True)
        if op.get('conic') == 'ell':
            new = elements(us, conic='ell')
        elif s.full() and form != 'scalar' and nudge(us[0]) is not None:
            new = tol.f64(kep)*(1 + nudge(us[0]))
        out['value'] = new
        return out if good_kep(new) else None
    if name == 'cartesian':
        new = cart64(elements(us), s.mu)
        if s.full() and nudge(us[0]) is not None:
            new = cart*(1 + nudge(us[0]))
        if form == 'scalar':
            new = np.repeat(new[:, :1], n, axis=1)
        out['value'] = new
        return out if good_cart(new, s.mu) else None
    if name in KEP:
        vals = [kep_value(name, us[j], s.kep[:, 0 if form == 'scalar' else j]) for j in range(n)]
        r = KEP.index(name)
        out['value'] = _bc(form, vals)
        if form == 'scalar' and name == 'anom' and s.type != 'true':
            # one stored number for everybody
            e0 = kep[1, 0]
            x = ref.from_true(np.array([vals[0]]), np.array([e0]), s.type)[0]
            out['value'] = float(x)
            out['stored'] = True
            kep[5] = ref.to_true(np.full(n, x), kep[1], s.type)
        else:
            if name in ('e', 'anom') and s.type != 'true' and name == 'e':
                # the stored anomaly is kept, not the true one
                x = ref.from_true(kep[5], kep[1], s.type)
                kep[1] = vals
                if ((kep[1] > 1) & (np.abs(x) > 30)).any():
                    return None
                kep[5] = ref.to_true(x, kep[1], s.type)
            else:
                kep[r] = vals
        return out if good_kep(kep) else None
    if name in CART:
        vals = [cart_value(name, us[j], cart[:, 0 if form == 'scalar' else j]) for j in range(n)]
        cart[CART.index(name)] = vals
        out['value'] = _bc(form, vals)
        return out if good_cart(cart, s.mu) else None
    if name in ('r', 'v'):
        o = 0 if name == 'r' else 3
        for j in range(n):
            for d in range(3):
                cart[o + d, j] = cart_value(CART[o + d], us[j][d:] + us[j][:d], s.cart[:, j])
        out['value'] = cart[o:o + 3].copy()
        return out if good_cart(cart, s.mu) else None
    if name in NAMED:
        vals = np.zeros(n)
        for j in range(n):
            e = float(kep[1, j])
            nu = elem_from(us[j], conic='ell' if e < 1 else 'hyp')[5]
            if e >= 1:
                nu = (2*us[j][6 % len(us[j])] - 1)*0.8*math.acos(-1/e)
            elif nudge(us[j]) is not None:
                nu = float(kep[5, j])*(1 + nudge(us[j]))
            vals[j] = float(ref.from_true(np.array([nu]), np.array([e]), NAMED[name])[0])
            if form == 'scalar':
                vals[:] = vals[0]
        kep[5] = ref.to_true(vals, kep[1], NAMED[name])
        if ((kep[1] > 1) & ~(np.abs(vals) < 30)).any():
            return None
        out['value'] = _bc(form, vals)
        return out if good_kep(kep) else None
    if name in ('period', 'mean_motion'):
        a = np.array([float(s.kep[0, j])*factor(us[j], 0.5, 1.3) for j in range(n)])
        if (a > 50).any() or (a < 0.05).any():
            return None
        P = TP*np.sqrt(a**3/s.mu)
        if form == 'scalar':
            P = np.full(n, P[0])
        if (s.kep[1] >= 1).any() and name == 'period':
            return None
        out['value'] = _bc(form, P if name == 'period' else TP/P)
        if name == 'mean_motion':
            out['angle_rate'] = True
        kep[0] = np.cbrt((P/TP)**2*s.mu)
        return out if good_kep(kep) else None
    if name == 'velocity':
        v = np.linalg.norm(cart[3:], axis=0)*np.array([factor(us[j], 0.75, 0.5) for j in range(n)])
        if form == 'scalar':
            v = np.full(n, v[0])
        cart[3:] *= v/np.linalg.norm(cart[3:], axis=0)
        out['value'] = _bc(form, v)
        return out if good_cart(cart, s.mu) else None
    if name == 'equinoctial':
        new = elements(us, conic='ell' if us[0][5] > 0.1 else 'circ')
        new[2] = np.minimum(new[2], 2.9)
        if not good_kep(new):
            return None
        M = ref.true_to_mean(new[5], new[1])
        k = np.array(new, dtype=ref.LD)
        t = np.tan(k[2]/2)
        out['value'] = np.stack([k[0], k[1]*np.sin(k[3] + k[4]), k[1]*np.cos(k[3] + k[4]),
                                 t*np.sin(k[4]), t*np.cos(k[4]),
                                 ref.wrap(k[3] + k[4] + M)]).astype(np.float64)
        return out
    raise KeyError(name)


def _concrete_update(op, s, us, py, idx):
    form = op.get('form', 'array')
    names = op['names']
    view = op['view']
    k = len(idx)
    kep = np.array(s.kep, dtype=ref.LD)
    cart = s.cart.copy()
    mu = s.mu.copy()
    newm = None
    if op.get('withm') and view in ('kep', 'cart'):
        newm = np.array([0.5*us[0 if form == 'scalar' else j % len(us)][6] for j in range(k)])
        mu[idx] = s.gmu(newm)
    missing = np.isnan(tol.f64(kep)[:, idx]).any(axis=0) | np.isnan(cart[:, idx]).any(axis=0)
    ui = [us[0] if form == 'scalar' else us[j % len(us)] for j in range(k)]
    out = dict(op='update', py=py, idx=idx, form=form, view=view)
    if view == 'kepler':
        out['value'] = elements(ui, par=True)
        return out if good_kep(out['value']) else None
    if view == 'cartesian':
        out['value'] = cart64(elements(ui), s.mu[idx])
        if form == 'scalar':
            out['value'] = np.repeat(out['value'][:, :1], k, axis=1)
        return out if good_cart(out['value'], s.mu[idx]) else None
    if missing.any():
        return None
    vals = {}
    if view == 'kep':
        for nm in KEP:
            if nm not in names:
                continue
            v = [kep_value(nm, ui[j], s.kep[:, idx[0] if form == 'scalar' else idx[j]]) for j in range(k)]
            vals[nm] = np.array(v)
            if nm == 'e' and s.type != 'true' and 'anom' not in names:
                x = ref.from_true(kep[5, idx], kep[1, idx], s.type)
                kep[1, idx] = v
                if ((kep[1, idx] > 1) & (np.abs(x) > 30)).any():
                    return None
                kep[5, idx] = ref.to_true(x, kep[1, idx], s.type)
            else:
                kep[KEP.index(nm), idx] = v
        if 'anom' in names and form == 'scalar':
            out['form'] = form = 'array'
        if not vals or not good_kep(kep[:, idx]):
            return None
    else:
        for nm in CART:
            if nm not in names:
                continue
            v = [cart_value(nm, ui[j][CART.index(nm) % 3:] + ui[j][:3], s.cart[:, idx[0] if form == 'scalar' else idx[j]])
                 for j in range(k)]
            vals[nm] = np.array(v)
            cart[CART.index(nm), idx] = v
        if not vals or not good_cart(cart[:, idx], mu[idx]):
            return None
    out['m'] = newm
    out['vals'] = vals
    out['newe'] = tol.f64(kep[1, idx])
    return out


Snap.gmu = lambda self, m: self.G*(self.M0 + np.asarray(m, dtype=np.float64))


def snapshot(orb):
    s = Snap(orb)
    s.G, s.M0 = orb.G, orb.M0
    return s


# ------------------------------------------------------------------ execution

def conv(name, value, orb, e=None):
    """canonical value -> what is passed to this orbit"""
    deg = orb.degrees
    if name == 'kepler':
        return to_orb_kep(value, orb.type, deg)
    if name in ('i', 'omega', 'Omega') or name in NAMED:
        return np.degrees(value) if deg else value
    if name == 'anom':
        if orb.type != 'true':
            value = tol.f64(ref.from_true(value, e, orb.type))
        return np.degrees(value) if deg else value
    if name == 'equinoctial':
        v = np.array(value)
        if deg:
            v[5] = np.degrees(v[5])
        return v
    if name == 'mean_motion':
        return np.degrees(value) if deg else value
    return value


def apply_set(orb, op, e):
    """Returns the value that was passed.  e: eccentricities (canonical)."""
    name, v = op['name'], op['value']
    if name == 'anom' and op.get('stored'):
        val = np.degrees(v) if orb.degrees else v
    elif name == 'anom' and np.ndim(v) == 0 and orb.type != 'true':
        val = conv(name, np.full(len(orb), v), orb, e)
    else:
        val = conv(name, v, orb, e)
    if name == 'equinoctial' and len(orb) == 1 and op.get('vec', True):
        val = val[:, 0]
    if name in ('kepler', 'cartesian') and op['form'] == 'scalar':
        # one vector for all orbits
        val = val[:, 0].copy()
    if isinstance(val, np.ndarray):
        val = np.array(val)
    setattr(orb, name, val.copy() if isinstance(val, np.ndarray) else val)
    return val


def apply_update(orb, op, **extra):
    py = op['py']
    if op['view'] in ('kepler', 'cartesian'):
        v = op['value']
        if op['view'] == 'kepler':
            v = to_orb_kep(v, orb.type, orb.degrees)
        if op['form'] == 'scalar':
            v = v[:, 0]
        elif isinstance(py, (int, np.integer)) and v.shape[1] == 1 and op.get('flat', True):
            v = v[:, 0]
        kw = {op['view']: v.copy()}
    else:
        kw = {}
        for nm, v in op['vals'].items():
            e = op['newe']
            w = conv(nm, v, orb, e)
            if op['form'] == 'scalar' or isinstance(py, (int, np.integer)):
                w = float(np.atleast_1d(w)[0])
            kw[nm] = w if np.ndim(w) == 0 else np.array(w)
    kw.update(extra)
    if op.get('m') is not None:
        if orb.direct_update:
            orb.m[op['idx']] = op['m']      # not possible in the call itself
        elif op['form'] == 'scalar' or isinstance(py, (int, np.integer)):
            kw['m'] = float(op['m'][0])
        else:
            kw['m'] = op['m'].copy()
    if isinstance(py, slice) and py == slice(None) and op.get('noinds'):
        orb.update(**kw)
    else:
        orb.update(inds=py, **kw)
    return kw


def add_kwargs(orb, op):
    kw = {}
    n = op['num']
    one = op.get('scalar')
    if op.get('m') is not None:
        kw['m'] = op['m'][0] if one else np.array(op['m'])
    if op['view'] == 'kep':
        k = to_orb_kep(op['kep'], orb.type, orb.degrees)
        for j, nm in enumerate(KEP):
            kw[nm] = float(k[j, 0]) if one or n == 1 else k[j].copy()
    elif op['view'] == 'keparray':
        kw['kepler'] = to_orb_kep(op['kep'], orb.type, orb.degrees)
    elif op['view'] == 'cart':
        for j, nm in enumerate(CART):
            kw[nm] = float(op['cart'][j, 0]) if one or n == 1 else op['cart'][j].copy()
    elif op['view'] == 'cartarray':
        kw['cartesian'] = op['cart'].copy()
    elif op['view'] == 'partial':
        kw['a'] = op['a']
    return kw


def apply(orb, op, e=None):
    """Execute a canonical op; returns the orbit to continue with."""
    k = op['op']
    if k == 'set':
        apply_set(orb, op, e)
    elif k == 'update':
        apply_update(orb, op)
    elif k == 'propagate':
        dt = op['dt']
        orb.propagate(dt.copy() if isinstance(dt, np.ndarray) else dt)
    elif k == 'add':
        orb.add(num=op['num'], **add_kwargs(orb, op))
    elif k == 'delete':
        orb.delete(op['py'])
    elif k == 'index':
        return orb[op['py']]
    elif k == 'copy':
        how = op.get('how', 'copy')
        if how == 'copy':
            return orb.copy()
        if how == 'copy.copy':
            return copymod.copy(orb)
        if how == 'deepcopy':
            return copymod.deepcopy(orb)
        return orb[:]
    elif k == 'type':
        orb.type = op['val']
    elif k == 'calc':
        f = orb.calculate_cartesian if op['which'] == 'cartesian' else orb.calculate_kepler
        if op.get('noarg'):
            f()
        else:
            f(op['py'])
    elif k == 'mass':
        read(orb, 'kepler'), read(orb, 'cartesian')     # nothing pending
        if op['via'] == 'update' and not orb.direct_update:
            orb.update(m=op['m'].copy())
        elif op['via'] == 'assign':
            orb.m = op['m'].copy()
        else:
            orb.m[:] = op['m']
        if op['keep'] == 'cart':
            orb.calculate_kepler()
        else:
            orb.calculate_cartesian()
    elif k == 'read':
        for nm in op['names']:
            read(orb, nm)
    else:
        raise KeyError(k)
    return orb


READ = ['kepler', 'cartesian', 'r', 'v'] + KEP + CART + list(NAMED) + \
    ['period', 'mean_motion', 'speed', 'velocity', 'periapsis', 'apoapsis', 'mean_longitude', 'equinoctial']


def read(orb, name):
    if name == 'str':
        return str(orb)
    return np.array(getattr(orb, name))


def read_as(orb, name, typ):
    """reading with the anomaly expressed as the given type"""
    x = read(orb, name)
    if orb.type != typ and name in ('anom', 'kepler'):
        y = read(orb, typ + '_anomaly')
        if name == 'anom':
            return y
        x[5] = y
    return x


# ------------------------------------------------------------------ comparison

def turn(orb):
    return 360.0 if orb.degrees else TP


def compare_read(name, A, B, orbA, orbB, e, what, t=T0, inc=None, scale=None):
    """Readings of the same property on two orbits with the same elements.
    e: eccentricities (NaN for missing members)."""
    A, B = np.array(A, dtype=np.float64), np.array(B, dtype=np.float64)
    if A.shape != B.shape:
        raise Violation(f'{what}: {name} has shape {A.shape} against {B.shape}')
    if A.size == 0:
        return
    fA, fB = turn(orbA)/TP, turn(orbB)/TP
    if (np.isnan(A) != np.isnan(B)).any():
        raise Violation(f'{what}: {name} is {A.tolist()} against {B.tolist()}')
    e = np.where(np.isnan(e), 0.5, e)
    K = np.where(e == 1, 4, 1 + e + (1 + e*e)/np.maximum(np.abs(1 - e*e), 1e-3))
    tt = t*K

    def rel(x, y, s=None):
        with np.errstate(all='ignore'):
            d = np.abs(x - y)
            s = np.maximum(np.abs(x), np.abs(y)) if s is None else s
            ok = np.isnan(x) | (d <= tt*s) | (x == y)
        tol.check(ok, f'{what}: {name}', A, B, d, tt)

    def ang(x, y, per):
        # near-circular orbits split the angles arbitrarily
        x, y = x/fA, y/fB
        with np.errstate(all='ignore'):
            d = np.where(per, tol.f64(ref.angdiff(x, y)), np.abs(x - y))
            lim = np.where(per, 1, 1 + np.abs(y))*tt*10
            ok = np.isnan(x) | (d <= lim)
        tol.check(ok, f'{what}: {name}', A, B, d, lim)

    if name in ('a', 'period', 'speed', 'velocity', 'periapsis'):
        rel(A, B)
    elif name == 'apoapsis':
        rel(A, B)
    elif name == 'mean_motion':
        rel(A/fA, B/fB)
    elif name == 'e':
        rel(A, B, 1 + 0*B)
    elif name == 'i':
        rel(A/fA, B/fB, 1 + 0*B)
    elif name in ('omega', 'Omega', 'true_anomaly', 'mean_longitude'):
        ang(A, B, np.ones(B.shape, bool))
    elif name in ('eccentric_anomaly', 'mean_anomaly') or name == 'anom':
        ang(A, B, (e < 1) | (orbA.type == 'true' if name == 'anom' else False))
    elif name in ('r', 'v'):
        with np.errstate(all='ignore'):
            rel(A, B, np.linalg.norm(B, axis=0))
    elif name in CART:
        # both readings were taken before this one
        if scale is None:
            scale = np.linalg.norm(read(orbB, 'r' if CART.index(name) < 3 else 'v'), axis=0)
        rel(A, B, scale)
    elif name == 'cartesian':
        compare_read('r', A[:3], B[:3], orbA, orbB, e, what, t)
        compare_read('v', A[3:], B[3:], orbA, orbB, e, what, t)
    elif name == 'kepler':
        for j, nm in enumerate(KEP):
            compare_read(nm, A[j], B[j], orbA, orbB, e, what, t)
    elif name == 'equinoctial':
        if A.ndim == 1:
            A, B = A[:, None], B[:, None]
        compare_read('a', A[0], B[0], orbA, orbB, e, what, t)
        s = 1 + np.hypot(B[3], B[4])**2
        for j in (1, 2, 3, 4):
            d = np.abs(A[j] - B[j])
            ok = np.isnan(A[j]) | (d <= 10*tt*s)
            tol.check(ok, f'{what}: equinoctial row {j}', A, B, d, tt)
        ang(A[5], B[5], np.ones(B[5].shape, bool))
    else:
        raise KeyError(name)


def ecc_of(orb):
    return np.array(orb.e, dtype=np.float64)


# ------------------------------------------------------------------ generation

unit = st.floats(0, 1).map(lambda x: round(x, 4))
uvec = st.lists(unit, min_size=7, max_size=7)
uvecs = st.lists(uvec, min_size=1, max_size=3)
SELK = ['all', 'int', 'negint', 'npint', 'slice', 'anyslice', 'revslice', 'list', 'array', 'mask', 'maskcmp']
sel_st = st.fixed_dictionaries(dict(k=st.sampled_from(SELK), v=st.integers(0, 999)))
form_st = st.sampled_from(['array', 'array', 'scalar'])


def op_set(names):
    return st.fixed_dictionaries(dict(op=st.just('set'), name=st.sampled_from(names), u=uvecs, form=form_st))


SETTERS = ['kepler', 'cartesian', 'kepler', 'cartesian'] + KEP + CART + ['r', 'v'] + list(NAMED) + \
    ['period', 'mean_motion', 'velocity', 'equinoctial']
KSETTERS = ['kepler'] + KEP + list(NAMED) + ['period', 'mean_motion', 'equinoctial']
CSETTERS = ['cartesian'] + CART + ['r', 'v', 'velocity']

op_update = st.fixed_dictionaries(dict(
    op=st.just('update'), view=st.sampled_from(['kep', 'cart', 'kep', 'cart', 'kepler', 'cartesian']),
    names=st.lists(st.sampled_from(KEP + CART), min_size=1, max_size=6, unique=True), u=uvecs,
    sel=sel_st, form=form_st))
op_add = st.fixed_dictionaries(dict(
    op=st.just('add'), view=st.sampled_from(['kep', 'cart', 'keparray', 'cartarray', 'none', 'partial']),
    u=uvecs, withm=st.booleans(), form=form_st, zero=st.sampled_from([False]*19 + [True])))
op_add_full = st.fixed_dictionaries(dict(
    op=st.just('add'), view=st.sampled_from(['kep', 'cart', 'keparray', 'cartarray']),
    u=uvecs, withm=st.booleans(), form=form_st))
seldup_st = st.fixed_dictionaries(dict(k=st.sampled_from(SELK + ['dup']), v=st.integers(0, 999)))
op_delete = st.fixed_dictionaries(dict(op=st.just('delete'), sel=seldup_st))
op_index = st.fixed_dictionaries(dict(op=st.just('index'), sel=seldup_st))
op_copy = st.fixed_dictionaries(dict(op=st.just('copy'), how=st.sampled_from(['copy', 'copy.copy', 'slice', 'deepcopy'])))
op_type = st.fixed_dictionaries(dict(op=st.just('type'), val=st.sampled_from(TYPES)))
op_prop = st.fixed_dictionaries(dict(op=st.just('propagate'), u=uvecs, form=form_st))
op_read = st.fixed_dictionaries(dict(op=st.just('read'), names=st.lists(st.sampled_from(READ), min_size=1, max_size=3)))
op_calc = st.fixed_dictionaries(dict(op=st.just('calc'), which=st.sampled_from(['cartesian', 'kepler']), sel=sel_st,
                                     noarg=st.booleans()))
op_mass = st.fixed_dictionaries(dict(op=st.just('mass'), u=uvecs, keep=st.sampled_from(['cart', 'kep']),
                                     via=st.sampled_from(['attr', 'update', 'assign'])))
op_iter = st.fixed_dictionaries(dict(op=st.sampled_from(['iter', 'nested', 'str'])))
op_mode = st.fixed_dictionaries(dict(op=st.just('mode'), val=st.booleans()))
op_update_m = st.fixed_dictionaries(dict(
    op=st.just('update'), view=st.sampled_from(['kep', 'cart']), withm=st.just(True),
    names=st.lists(st.sampled_from(KEP + CART), min_size=1, max_size=6, unique=True), u=uvecs,
    sel=sel_st, form=form_st))

cfg_st = st.fixed_dictionaries(dict(
    type=st.sampled_from(TYPES), degrees=st.booleans(),
    m=st.one_of(*[st.lists(st.sampled_from([0.0, 0.0, 0.25, 1.0]), min_size=1, max_size=4)]*90,
                *[st.lists(st.sampled_from([0.0, 0.0, 0.25, 1.0]), min_size=5, max_size=24)]*9,
                st.lists(st.sampled_from([0.0, 0.0, 0.25, 1.0]), min_size=60, max_size=130)),
    G=st.sampled_from([1.0, 1.0, 39.47812018693255]), M0=st.sampled_from([1.0, 1.0, 2.5])))
init_st = st.fixed_dictionaries(dict(view=st.sampled_from(['kep', 'cart']), u=uvecs))


def initialise(orb, init, mu):
    """First values (canonical) for a fresh orbit; returns the elements."""
    n = len(orb)
    us = [init['u'][j % len(init['u'])] for j in range(n)]
    kep = elements(us, **({'conic': init['conic']} if 'conic' in init else {'par': init['view'] == 'kep'}))
    if not good_kep(kep):
        raise OutOfDomain('start')
    if init['view'] == 'kep':
        orb.kepler = to_orb_kep(kep, orb.type, orb.degrees)
    else:
        c = cart64(kep, mu)
        if not good_cart(c, mu):
            raise OutOfDomain('start')
        orb.cartesian = c
    return kep


def readable(names, e):
    """names that are defined for these eccentricities"""
    e = e[~np.isnan(e)]
    out = []
    for nm in names:
        if nm in ('period', 'apoapsis') and (e >= 1).any():
            continue
        if nm == 'equinoctial' and (e >= 1).any():
            continue
        out.append(nm)
    return out


# ------------------------------------------------------------------ C08

def run_degrees(case, ctx):
    cfg = case['cfg']
    A = make(cfg, degrees=True, mode=case['mode'])
    B = make(cfg, degrees=False, mode='immediate')
    mu = mu_of(B)
    initialise(A, case['init'], mu)
    initialise(B, case['init'], mu)
    key = []
    run_twin(A, B, case['ops'], ctx, f'degrees against radians', key)
    ctx.count(1, [repr((case['mode'], cfg, case['init'], key))] if key else ())


def run_twin(A, B, ops, ctx, what, key, hooks=None):
    """Same canonical ops on A and on the immediate orbit B; every read compared."""
    for op in ops:
        s = snapshot(B)
        c = concrete(op, s)
        if c is None:
            ctx.label('op outside the domain')
            continue
        if c['op'] == 'read':
            e = ecc_of(B)
            for nm in readable(c['names'], e):
                if np.isnan(e).any() and nm == 'equinoctial':
                    continue
                compare_read(nm, read(A, nm), read_as(B, nm, A.type), A, B, e, f'{what}, after {key}')
            key.append('read:' + ','.join(c['names']))
            continue
        if c['op'] in ('iter', 'nested', 'str'):
            key.append(c['op'])
            e = ecc_of(B)
            if c['op'] == 'str':
                check_str(A, f'{what}, after {key}')
                continue
            nest = c['op'] == 'nested' and len(B) <= 12
            seen = []
            for i, x in enumerate(A):
                if nest:
                    for j, y in enumerate(A):
                        seen.append((i, j, x, y))
                else:
                    seen.append((i, i, x, x))
            want = len(B)**2 if nest else len(B)
            if len(seen) != want:
                raise Violation(f'{what}, after {key}: the iteration gives {len(seen)} items, not {want}')
            Bk, Bc = read_as(B, 'kepler', A.type), B.cartesian
            for i, j, x, y in seen:
                for k, o in ((i, x), (j, y)):
                    compare_read('kepler', o.kepler, Bk[:, k:k + 1], A, B, e[k:k + 1], f'{what}, after {key}, item {k}')
                    compare_read('cartesian', o.cartesian, Bc[:, k:k + 1], A, B, e[k:k + 1],
                                 f'{what}, after {key}, item {k}')
            continue
        if c['op'] == 'typeA':
            if A.direct_update or not A.auto_update:
                k0, c0 = A.kepler, A.cartesian
                A.type = c['val']
                k1, c1 = A.kepler, A.cartesian
                with np.errstate(all='ignore'):
                    dr = np.linalg.norm(c1[:3] - c0[:3], axis=0)/np.linalg.norm(c0[:3], axis=0)
                    dv = np.linalg.norm(c1[3:] - c0[3:], axis=0)/np.linalg.norm(c0[3:], axis=0)
                    kept = np.isnan(c0).any(axis=0) & np.isnan(c1).any(axis=0) | (dr < 1e-6) & (dv < 1e-6)
                if not (np.array_equal(k0[:5], k1[:5], equal_nan=True) and kept.all()):
                    raise Violation(f'{what}, after {key}: type={c["val"]} changed {k0.tolist()} {c0.tolist()} '
                                    f'into {k1.tolist()} {c1.tolist()}')
            else:
                A.type = c['val']
            key.append(f'type={c["val"]}')
            if A.type != c['val']:
                raise Violation(f'{what}, after {key}: type reads {A.type!r}')
            continue
        if c['op'] == 'mode':
            read(A, 'kepler'), read(A, 'cartesian')         # nothing pending
            A.direct_update = c['val']
            key.append(f'direct_update={c["val"]}')
            continue
        e = tol.f64(s.kep[1])
        if c['op'] == 'calc':
            # explicit recalculation from a current source
            read(A, 'kepler' if c['which'] == 'cartesian' else 'cartesian')
        A = apply(A, c, _e_after(c, e))
        B = apply(B, c, _e_after(c, e))
        key.append(describe(c))
        ctx.label('op ' + c['op'])
    e = ecc_of(B)
    first = ops and ops[0].get('u', [[0]])[0][0] > 0.5
    order = ['kepler', 'cartesian'] if first else ['cartesian', 'kepler']
    if len(A) != len(B):
        raise Violation(f'{what}, after {key}: {len(A)} orbits against {len(B)}')
    for nm in order + ['m'] + readable([x for x in READ if x not in order], e if not np.isnan(e).any() else np.array([2.0])):
        if nm == 'm':
            if not np.allclose(A.m, B.m, rtol=1e-12, atol=0):
                raise Violation(f'{what}, after {key}: masses {A.m.tolist()} against {B.m.tolist()}')
            continue
        compare_read(nm, read(A, nm), read_as(B, nm, A.type), A, B, e, f'{what}, after {key}')
    return A, B


NUM = re.compile(r'[-+]?(?:\d+\.\d*(?:[eE][-+]?\d+)?|nan|inf)')


def check_str(A, what):
    """The printed form shows the current values (to the printed digits)."""
    t = str(A)
    if len(A) != 1:
        return
    got = sorted(f'{float(x):.3e}' for x in NUM.findall(t))
    vals = np.concatenate([A.kepler[:, 0], A.cartesian[:, 0]])
    nums = np.array([float(x) for x in NUM.findall(t)])
    for v in vals:
        if np.isnan(v):
            ok = np.isnan(nums).any()
        else:
            ok = (np.abs(nums - v) <= 6e-5*abs(v) + 1e-300).any()
        if not ok:
            raise Violation(f'{what}: {v!r} is not shown in {t!r} ({got})')


def _e_after(c, e):
    return e


def describe(c):
    k = c['op']
    if k == 'set':
        return f'{c["name"]}={"scalar" if c["form"] == "scalar" else "array"}'
    if k == 'update':
        return f'update({c["idx"]}, {c["view"]}:{sorted(c.get("vals", {}))})'
    if k in ('delete', 'index', 'fork'):
        return f'{k}{c["idx"]}'
    if k == 'add':
        return f'add({c["num"]},{c["view"]})'
    if k == 'type':
        return f'type={c["val"]}'
    if k == 'calc':
        return f'calculate_{c["which"]}({c["idx"]})'
    return k


cases_degrees = st.fixed_dictionaries(dict(
    cfg=cfg_st, init=init_st, mode=st.sampled_from(['immediate', 'immediate', 'deferred', 'deferred', 'direct']),
    ops=st.lists(st.one_of(op_set(SETTERS), op_set(SETTERS), op_set(SETTERS), op_update, op_read, op_prop, op_type, op_copy,
                           op_index, op_add_full), min_size=1, max_size=8)))
