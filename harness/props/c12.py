"""C12: with automatic updating off, only explicit recalculation converts."""
import numpy as np
from ..core import Sub, OutOfDomain, Violation
from .. import gs as st
from .. import ref, tol, twin

ID = 'C12'
RULE = 'distinct executed histories with at least one write and one explicit recalculation'
LD = ref.LD
TP = twin.TP


class Model:
    """The two stored views; nothing converts on its own."""

    def __init__(self, o):
        self.K = np.array(o.kepler)
        self.C = np.array(o.cartesian)
        self.m = np.array(o.m)
        self.type, self.deg = o.type, o.degrees
        self.G, self.M0 = o.G, o.M0

    n = property(lambda s: s.K.shape[1])
    mu = property(lambda s: s.G*(s.M0 + s.m))

    def kep(self):
        return twin.from_orb_kep(self.K, self.type, self.deg)


class KSnap:
    """What `twin.concrete` needs to know, from the model."""

    def __init__(self, M, fill):
        self.n = M.n
        self.raw = M.K.copy()
        self.kep = M.kep()
        self.cart = M.C.copy()
        # writes to one view do not depend on the other one
        for j in range(M.n):
            if np.isnan(tol.f64(self.kep[:, j])).any() and 'kep' in fill:
                self.kep[:, j] = twin.elem_from([.3]*7, conic='ell')
            if np.isnan(self.cart[:, j]).any() and 'cart' in fill:
                self.cart[:, j] = twin.cart64(np.array([twin.elem_from([.4]*7, conic='ell')]).T, M.mu[j:j + 1])[:, 0]
        self.m, self.mu = M.m.copy(), M.mu
        self.type, self.degrees = M.type, M.deg
        self.G, self.M0 = M.G, M.M0

    full = twin.Snap.full
    gmu = twin.Snap.gmu


def run(case, ctx):
    cfg = case['cfg']
    o = twin.make(cfg, mode='manual')
    mu0 = twin.mu_of(o)
    if case['alloc'] != 'none':
        twin.initialise(o, case['init'], mu0)
    if case['alloc'] == 'both':
        other = dict(case['init'])
        other['view'] = 'cart' if other['view'] == 'kep' else 'kep'
        other['u'] = [u[::-1] for u in other['u']]
        twin.initialise(o, other, mu0)
    M = Model(o)
    key = []
    calcs = 0
    wk = wc = False

    def check(what):
        for got, want, nm in ((o.kepler, M.K, 'elements'), (o.cartesian, M.C, 'states'), (o.m, M.m, 'masses')):
            if np.shape(got) != want.shape or not np.array_equal(got, want, equal_nan=True):
                raise Violation(f'{what}: stored {nm} read {np.asarray(got).tolist()}, not {want.tolist()}')

    for op in case['ops']:
        k = op['op']
        view = None
        s = None
        if k == 'set':
            view = 'kep' if op['name'] in twin.KSETTERS else 'cart'
        elif k == 'update':
            view = 'kep' if op['view'].startswith('kep') else 'cart'
        if M.n and k in ('set', 'update', 'propagate', 'calc', 'type', 'add'):
            s = KSnap(M, ['cart'] if view == 'kep' or k == 'propagate' else ['kep'] if view == 'cart' else [])
            if k == 'propagate' and not s.full():
                continue
            if k == 'set' and not s.full() and op['name'] not in ('kepler', 'cartesian'):
                continue
        else:
            s = KSnap(M, [])
        if k == 'nan':
            if not M.n:
                continue
            j = op['j'] % M.n
            o.update(inds=j, **{op['name']: np.nan})
            if op['name'] in twin.KEP:
                M.K[twin.KEP.index(op['name']), j] = np.nan
            else:
                M.C[twin.CART.index(op['name']), j] = np.nan
            key.append(f'{op["name"]}[{j}]=nan')
            check(f'{cfg}: {key}')
            continue
        if k == 'mass':
            if not M.n:
                continue
            m = np.array([0.5*op['u'][j % len(op['u'])][1] for j in range(M.n)])
            if op['via'] == 'update':
                o.update(m=m.copy())
            elif op['via'] == 'assign':
                o.m = m.copy()
            else:
                o.m[:] = m
            M.m[:] = m
            key.append('mass')
            check(f'{cfg}: {key}')
            continue
        c = twin.concrete(op, s)
        if c is None:
            ctx.label('op outside the domain')
            continue
        e = tol.f64(s.kep[1])
        K0, C0, m0 = M.K.copy(), M.C.copy(), M.m.copy()
        ctx.label('op ' + (c.get('name') or k))
        if k == 'read':
            with np.errstate(all='ignore'):
                ok = not np.isnan(tol.f64(s.kep)).any()
                for nm in twin.readable(c['names'], e if ok and M.n else np.array([2.])):
                    if not ok and nm not in ('kepler', 'cartesian', 'r', 'v', *twin.KEP, *twin.CART):
                        continue
                    got = twin.read(o, nm)
                    check_reading(nm, got, o, M, f'{cfg}: {key}')
            key.append('read:' + ','.join(c['names']))
            check(f'{cfg}: {key}')
            continue
        if k in ('iter', 'nested'):
            items = list(o) if k == 'iter' or M.n > 12 else [y for x in o for y in o][:M.n]
            for j, x in enumerate(items):
                if not (np.array_equal(x.kepler[:, 0], M.K[:, j], equal_nan=True)
                        and np.array_equal(x.cartesian[:, 0], M.C[:, j], equal_nan=True)):
                    raise Violation(f'{cfg}: {key}: item {j} reads {x.kepler.tolist()} {x.cartesian.tolist()}')
            key.append(k)
            check(f'{cfg}: {key}')
            continue
        if k == 'calc':
            src = M.kep() if c['which'] == 'cartesian' else M.C
            ok = [j for j in dict.fromkeys(c['idx']) if not np.isnan(tol.f64(src[:, j])).any()]
            mu = M.mu
            if ok and not (twin.good_kep(src[:, ok]) if c['which'] == 'cartesian' else twin.good_cart(src[:, ok], mu[ok])):
                continue
            o = twin.apply(o, c, e)
            key.append(twin.describe(c))
            what = f'{cfg}: {key}'
            gotK, gotC = np.array(o.kepler), np.array(o.cartesian)
            if ok and c['which'] == 'cartesian':
                kk = src[:, ok]
                ee = tol.f64(kk[1])
                F = np.where(ee == 1, 4, 1 + ee + (1 + ee*ee)/np.maximum(np.abs(1 - ee*ee), 1e-3))
                tol.same_state(gotC[:, ok], ref.kep_to_cart(kk, mu[ok]), 1e-10*F, what, vscale=tol.vel_scale(kk, mu[ok]))
                M.C[:, ok] = gotC[:, ok]
            elif ok:
                kk = twin.from_orb_kep(gotK[:, ok], M.type, M.deg)
                if not np.isfinite(tol.f64(kk)).all():
                    raise Violation(f'{what}: elements {gotK.tolist()}')
                ee = tol.f64(kk[1])
                F = 1 + ee + (1 + ee*ee)/np.maximum(np.abs(1 - ee*ee), 1e-3)
                tol.same_state(tol.f64(ref.kep_to_cart(kk, mu[ok])), M.C[:, ok], 3e-6*F, what, vscale=tol.vel_scale(kk, mu[ok]))
                M.K[:, ok] = gotK[:, ok]
            check(what)
            calcs += bool(ok)
            continue
        val = None
        if k == 'set':
            val = twin.apply_set(o, c, e)
        elif k == 'update':
            val = twin.apply_update(o, c)
        else:
            o = twin.apply(o, c, e)
        key.append(twin.describe(c))
        what = f'{cfg}: {key}'
        if k == 'set':
            nm = c['name']
            if nm in twin.KEP:
                M.K[twin.KEP.index(nm)] = val
            elif nm in twin.CART:
                M.C[twin.CART.index(nm)] = val
            elif nm == 'kepler':
                M.K[:] = val if val.ndim > 1 else val[:, None]
            elif nm == 'cartesian':
                M.C[:] = val if val.ndim > 1 else val[:, None]
            elif nm == 'r':
                M.C[:3] = val
            elif nm == 'v':
                M.C[3:] = val
            else:
                derived(nm, val, o, M, c, what)
            if view == 'kep':
                wk = True
            else:
                wc = True
        elif k == 'update':
            idx = c['idx']
            if c['view'] in ('kepler', 'cartesian'):
                v = np.asarray(val[c['view']])
                A = M.K if c['view'] == 'kepler' else M.C
                A[:, idx] = v if v.ndim > 1 else v[:, None]
            else:
                rows, A = (twin.KEP, M.K) if c['view'] == 'kep' else (twin.CART, M.C)
                for r, nm in enumerate(rows):
                    if nm in val:
                        A[r, idx] = val[nm]
                if 'm' in val:
                    M.m[idx] = val['m']
            if view == 'kep':
                wk = True
            else:
                wc = True
        elif k == 'propagate':
            new = np.array(o.kepler)
            want = twin.prop_ref(s, c['dt'])
            same_anomaly(twin.from_orb_kep(new, M.type, M.deg), want, what)
            M.K[5] = new[5]
        elif k == 'type':
            if o.type != c['val']:
                raise Violation(f'{what}: type reads {o.type}')
            new = np.array(o.kepler)
            if c['val'] != M.type:
                full = ~np.isnan(tol.f64(s.kep)).any(axis=0)
                part = ~full
                got = twin.from_orb_kep(new[:, full], c['val'], M.deg)
                same_anomaly(got, s.kep[:, full], what)
                M.K[5, full] = new[5, full]
                M.K[5, part] = new[5, part]         # partially missing elements
            M.type = c['val']
        elif k == 'add':
            num, old = c['num'], M.n
            M.K = np.hstack([M.K, np.full((6, num), np.nan)])
            M.C = np.hstack([M.C, np.full((6, num), np.nan)])
            mm = np.zeros(num)
            if c.get('m') is not None:
                mm[:] = c['m'][0] if c.get('scalar') else c['m']
            M.m = np.append(M.m, mm)
            kw = twin.add_kwargs(o, c)
            for nm, v in kw.items():
                if nm in twin.KEP:
                    M.K[twin.KEP.index(nm), old:] = v
                elif nm in twin.CART:
                    M.C[twin.CART.index(nm), old:] = v
                elif nm == 'kepler':
                    M.K[:, old:] = v
                elif nm == 'cartesian':
                    M.C[:, old:] = v
        elif k == 'delete':
            keep = [j for j in range(M.n) if j not in c['idx']]
            M.K, M.C, M.m = M.K[:, keep], M.C[:, keep], M.m[keep]
        elif k == 'index':
            M.K, M.C, M.m = M.K[:, c['idx']], M.C[:, c['idx']], M.m[c['idx']]
        elif k == 'copy':
            pass
        else:
            raise KeyError(k)
        if len(o) != M.n:
            raise Violation(f'{what}: {len(o)} orbits, not {M.n}')
        check(what)
    ctx.count(max(len(key), 1), [repr(case)] if calcs and (wk or wc) else ())


def same_anomaly(got, want, what):
    e = tol.f64(want[1])
    tol.check((tol.f64(np.abs(got[:5] - want[:5])) <= 1e-13*(1 + np.abs(tol.f64(want[:5])))).all(axis=0), what + ': other elements', got, want)
    d = tol.f64(ref.angdiff(got[5], want[5]))
    K = np.where(e == 1, 4, 1 + e + (1 + e*e)/np.maximum(np.abs(1 - e*e), 1e-3))
    tol.check(d <= 1e-9*K**2, what + ': anomaly', tol.f64(got[5]), tol.f64(want[5]), d)


def derived(nm, val, o, M, c, what):
    """setters that work through other quantities of the same view"""
    newK, newC = np.array(o.kepler), np.array(o.cartesian)
    s0 = M.kep()
    e = tol.f64(s0[1])
    if nm in twin.NAMED:
        v = np.asarray(val, dtype=LD)*(ref.PI/180 if M.deg else 1)
        want = s0.copy()
        want[5] = ref.to_true(np.broadcast_to(v, (M.n,)), s0[1], twin.NAMED[nm])
        same_anomaly(twin.from_orb_kep(newK, M.type, M.deg), want, what)
        M.K[5] = newK[5]
    elif nm in ('period', 'mean_motion'):
        v = np.asarray(val, dtype=np.float64)
        f = 360.0 if M.deg else TP
        n = (v if nm == 'mean_motion' else f/v)*(TP/f)
        a = np.cbrt(M.mu/n**2*np.where(e == 1, 0.5, 1))
        tol.check(np.abs(newK[0]/a - 1) <= 1e-12, what + ': semi-major axis', newK[0], a)
        M.K[0] = newK[0]
    elif nm == 'velocity':
        w = M.C[3:]*val/np.linalg.norm(M.C[3:], axis=0)
        tol.check(np.abs(newC[3:] - w).max(axis=0) <= 1e-13*np.abs(w).max(axis=0), what + ': velocity', newC, w)
        M.C[3:] = newC[3:]
    elif nm == 'equinoctial':
        got = twin.from_orb_kep(newK, M.type, M.deg)
        v = np.array(val, dtype=LD).reshape(6, -1)
        if M.deg:
            v[5] *= ref.PI/180
        ee = np.hypot(v[1], v[2])
        tol.check(tol.f64(np.abs(got[1] - ee)) <= 1e-12, what + ': e', got, ee)
        tol.check(tol.f64(np.abs(got[0]/v[0] - 1)) <= 1e-12, what + ': a', got, v)
        lw = got[3] + got[4] + ref.true_to_mean(got[5], got[1])
        d = tol.f64(ref.angdiff(lw, v[5]))
        tol.check(d <= 1e-9/(1 - tol.f64(ee))**1.5, what + ': longitude', tol.f64(got), tol.f64(v), d)
        M.K[:] = newK
    else:
        raise KeyError(nm)


def check_reading(nm, got, o, M, what):
    """A reading is a function of its own view (and the masses) only."""
    if M.n == 0:
        return
    if nm in ('kepler', 'cartesian'):
        want = M.K if nm == 'kepler' else M.C
    elif nm in ('r', 'v'):
        want = M.C[:3] if nm == 'r' else M.C[3:]
    elif nm in twin.KEP:
        want = M.K[twin.KEP.index(nm)]
    elif nm in twin.CART:
        want = M.C[twin.CART.index(nm)]
    else:
        k = M.kep()
        e = tol.f64(k[1])
        f = 180/np.pi if M.deg else 1
        mu = M.mu
        a = tol.f64(k[0])
        ang = {'true_anomaly': 'true', 'eccentric_anomaly': 'eccentric', 'mean_anomaly': 'mean'}
        K = np.where(e == 1, 4, 1 + e + (1 + e*e)/np.maximum(np.abs(1 - e*e), 1e-3))
        if nm in ang or nm == 'mean_longitude':
            w = tol.f64(ref.from_true(k[5], k[1], ang.get(nm, 'mean')))
            if nm == 'mean_longitude':
                w = w + tol.f64(k[3] + k[4])
            d = np.where((e < 1) | (nm in ('true_anomaly', 'mean_longitude')), tol.f64(ref.angdiff(got/f, w)), np.abs(got/f - w))
            tol.check(d <= 1e-8*K**2*(1 + np.abs(w)), f'{what}: {nm}', got, w*f, d)
            return
        if nm in ('period', 'mean_motion'):
            P = TP*np.sqrt(a**3/mu)
            w = P if nm == 'period' else (TP/P)*f*np.where(e == 1, np.sqrt(.5), 1)
        elif nm == 'velocity':
            w = np.linalg.norm(M.C[3:], axis=0)
        elif nm == 'speed':
            w = tol.f64(ref.norm(ref.kep_to_cart(k, mu)[3:]))
        elif nm == 'periapsis':
            w = np.where(e == 1, a, a*np.abs(1 - e))
        elif nm == 'apoapsis':
            w = a*(1 + e)
        elif nm == 'equinoctial':
            return
        else:
            raise KeyError(nm)
        tol.check((np.abs(got/w - 1) <= 1e-8*K**2) | (np.isnan(got) & np.isnan(w)), f'{what}: {nm}', got, w)
        return
    if not np.array_equal(got, want, equal_nan=True):
        raise Violation(f'{what}: {nm} reads {got.tolist()}, not {want.tolist()}')


op_nan = st.fixed_dictionaries(dict(op=st.just('nan'), name=st.sampled_from(twin.KEP + twin.CART), j=st.integers(0, 7)))
OPS = st.one_of(*([twin.op_set(twin.KSETTERS)]*3 + [twin.op_set(twin.CSETTERS)]*3 + [twin.op_update]*3 + [twin.op_update_m] + [twin.op_calc]*6
                  + [twin.op_read]*2 + [twin.op_mass, twin.op_type, twin.op_copy, twin.op_index, twin.op_add, twin.op_delete,
                                        twin.op_prop, op_nan,
                                        st.fixed_dictionaries(dict(op=st.sampled_from(['iter', 'nested'])))]))
cases = st.fixed_dictionaries(dict(cfg=twin.cfg_st, init=twin.init_st, alloc=st.sampled_from(['one', 'both', 'both', 'none']),
                                   ops=st.lists(OPS, min_size=3, max_size=12)))


def run_massless(case, ctx):
    """Members whose total mass is zero (no conversion has a meaning there) do
    not keep the others from being converted."""
    m = np.array(case['m'])
    n = len(m)
    good = m > 0
    kep = twin.elements([case['u'][j % len(case['u'])] for j in range(n)], conic='ell')
    if not twin.good_kep(kep) or not good.any():
        raise OutOfDomain('start')
    o = twin.make(dict(type=case['type'], degrees=case['degrees'], m=[1.0]*n, G=case['G'], M0=1.0), mode='manual')
    o.M0 = 0.0
    o.m[:] = m
    mu = case['G']*m
    which = case['which']
    sel = slice(None) if case['all'] else np.arange(n)[::-1]
    what = f'M0 = 0, m = {m.tolist()}: calculate_{which}'
    with np.errstate(all='ignore'):
        if which == 'cartesian':
            o.kepler = twin.to_orb_kep(kep, o.type, o.degrees)
            o.calculate_cartesian(sel)
            tol.same_state(np.array(o.cartesian)[:, good], ref.kep_to_cart(kep[:, good], mu[good]), 1e-9, what,
                           vscale=tol.vel_scale(kep[:, good], mu[good]))
        else:
            c = twin.cart64(kep, np.where(good, mu, 1.0))
            if not twin.good_cart(c[:, good], mu[good]):
                raise OutOfDomain('start')
            o.cartesian = c
            o.calculate_kepler(sel)
            k = np.array(o.kepler)[:, good]
            tol.finite(k, what)
            k = twin.from_orb_kep(k, o.type, o.degrees)
            tol.same_state(tol.f64(ref.kep_to_cart(k, mu[good])), c[:, good], 1e-4, what, vscale=tol.vel_scale(k, mu[good]))
            if not np.array_equal(np.array(o.cartesian), c):
                raise Violation(f'{what} changed the states')
    ctx.count(1, [repr(case)] if (~good).any() else ())
    ctx.label('massless members', (~good).sum())


massless = st.fixed_dictionaries(dict(
    m=st.lists(st.sampled_from([0.0, 1.0, 0.5, 2.0]), min_size=1, max_size=5), u=twin.uvecs, type=st.sampled_from(twin.TYPES), degrees=st.booleans(),
    G=st.sampled_from([1.0, 39.47812018693255]), which=st.sampled_from(['cartesian', 'kepler']), all=st.booleans()))
SUBS = [Sub('history', run, cases, (400, 10000), shards=(8, 8), random_n=(5000, 200000)),
        Sub('massless', run_massless, massless, (60, 1000), shards=(1, 4), random_n=(400, 20000))]
