"""C10: Keplerian and Cartesian views agree after every immediate-mode change."""
import numpy as np
from ..core import Sub, Violation
from .. import gs as st
from .. import ref, tol, twin

ID = 'C10'
RULE = 'distinct executed histories with at least two writes (any setter or update call)'
LD = ref.LD


def agree(s, what, k=1.0):
    """Cartesian read back against the state of the elements read back."""
    full = ~(np.isnan(s.cart).any(axis=0) | np.isnan(tol.f64(s.kep)).any(axis=0))
    half = np.isnan(s.cart).any(axis=0) != np.isnan(tol.f64(s.kep)).any(axis=0)
    if half.any():
        raise Violation(f'{what}: one view is missing: {s.raw.tolist()} {s.cart.tolist()}')
    if not full.any():
        return
    kep, cart, mu = s.kep[:, full], s.cart[:, full], s.mu[full]
    e = tol.f64(kep[1])
    want = ref.kep_to_cart(kep, mu)
    K = np.where(e == 1, 4, 1 + e + (1 + e*e)/np.maximum(np.abs(1 - e*e), 1e-3))
    vs = tol.vel_scale(kep, mu)
    tol.same_state(cart, want, k*K, what, vscale=vs)


def written(orb, c, val, s0, s1, what):
    """The written value reads back, unwritten rows keep theirs (bitwise)."""
    n = s0.n
    raw0, raw1, cart0, cart1 = s0.raw, s1.raw, s0.cart, s1.cart

    def same(a, b, msg):
        if not np.array_equal(a, b, equal_nan=True):
            raise Violation(f'{what}: {msg}: {np.asarray(a).tolist()} became {np.asarray(b).tolist()}')

    def reads(a, b, msg):
        a = np.broadcast_to(np.asarray(a, dtype=np.float64), np.shape(b))
        if not np.array_equal(a, b):
            raise Violation(f'{what}: {msg} reads {np.asarray(b).tolist()} after writing {a.tolist()}')

    name = c.get('name')
    if c['op'] == 'set':
        if name == 'kepler':
            reads(val if val.ndim > 1 else val[:, None], raw1, 'kepler')
        elif name == 'cartesian':
            reads(val if val.ndim > 1 else val[:, None], cart1, 'cartesian')
        elif name in twin.KEP:
            r = twin.KEP.index(name)
            reads(val, raw1[r], name)
            reads(val, twin.read(orb, name), name)
            same(np.delete(raw0, r, 0), np.delete(raw1, r, 0), f'setting {name} changed other elements')
        elif name in twin.CART:
            r = twin.CART.index(name)
            reads(val, cart1[r], name)
            reads(val, twin.read(orb, name), name)
            same(np.delete(cart0, r, 0), np.delete(cart1, r, 0), f'setting {name} changed other components')
        elif name in ('r', 'v'):
            sl, other = (slice(0, 3), slice(3, 6)) if name == 'r' else (slice(3, 6), slice(0, 3))
            reads(val, cart1[sl], name)
            reads(val, twin.read(orb, name), name)
            same(cart0[other], cart1[other], f'setting {name} changed the other vector')
        elif name in twin.NAMED:
            same(raw0[:5], raw1[:5], f'setting {name} changed other elements')
            got = twin.read(orb, name)
            e = tol.f64(s1.kep[1])
            v = np.broadcast_to(np.asarray(val, dtype=np.float64), got.shape)
            if twin.NAMED[name] == orb.type:
                reads(val, got, name)
            f = twin.turn(orb)/twin.TP
            d = np.abs(got - v)/f
            dp = tol.f64(ref.angdiff(got/f, v/f))
            per = (e < 1) | (name == 'true_anomaly')
            lim = 1e-9*(1 + np.abs(v)/f)/np.where(e == 1, 1, np.minimum(1, np.abs(1 - e)))**1.5
            tol.check(np.where(per, dp, d) <= lim, f'{what}: {name} written', got, v, np.where(per, dp, d), lim)
        elif name in ('period', 'mean_motion'):
            got = twin.read(orb, name)
            tol.check(np.abs(got/val - 1) <= 1e-12, f'{what}: {name} written', got, np.broadcast_to(val, got.shape))
            same(raw0[1:], raw1[1:], f'setting the {name} changed other elements')
        elif name == 'velocity':
            got = twin.read(orb, name)
            tol.check(np.abs(got/val - 1) <= 1e-12, f'{what}: {name} written', got, np.broadcast_to(val, got.shape))
            same(cart0[:3], cart1[:3], 'setting the velocity moved the orbit')
            d = cart1[3:]/np.linalg.norm(cart1[3:], axis=0) - cart0[3:]/np.linalg.norm(cart0[3:], axis=0)
            tol.check(np.abs(d).max(axis=0) <= 1e-13, f'{what}: the velocity setter changed the direction', cart1, cart0)
        elif name == 'equinoctial':
            got = np.array(orb.equinoctial).reshape(6, n)
            v = np.asarray(val).reshape(6, n)
            f = twin.turn(orb)/twin.TP
            e = np.hypot(v[1], v[2])
            s = 1 + np.hypot(v[3], v[4])**2
            tol.check(np.abs(got[0]/v[0] - 1) <= 1e-12, f'{what}: equinoctial a', got, v)
            tol.check(np.abs(got[1:5] - v[1:5]).max(axis=0) <= 1e-11*s, f'{what}: equinoctial h, k, p, q', got, v)
            d = tol.f64(ref.angdiff(got[5]/f, v[5]/f))
            tol.check(d <= 1e-9/(1 - e)**1.5, f'{what}: equinoctial longitude', got, v, d)
    elif c['op'] == 'update':
        idx = c['idx']
        rest = [j for j in range(n) if j not in idx]
        same(raw0[:, rest], raw1[:, rest], f'elements of unselected members {rest}')
        same(cart0[:, rest], cart1[:, rest], f'states of unselected members {rest}')
        if c['view'] in ('kepler', 'cartesian'):
            v = np.asarray(val[c['view']])
            reads(v if v.ndim > 1 else v[:, None], (raw1 if c['view'] == 'kepler' else cart1)[:, idx], c['view'])
        else:
            rows, a0, a1 = (twin.KEP, raw0, raw1) if c['view'] == 'kep' else (twin.CART, cart0, cart1)
            for r, nm in enumerate(rows):
                if nm in val:
                    reads(val[nm], a1[r, idx], nm)
                else:
                    same(a0[r, idx], a1[r, idx], f'update({sorted(val)}) changed {nm}')
    if c['op'] != 'mass':
        same(s0.m, s1.m, 'masses')


def rewrite(o, op, s0, what, ctx):
    """The current value written again, possibly after the masses changed."""
    name, n = op['name'], s0.n
    if n == 0 or not s0.full() or not twin.readable([name], tol.f64(s0.kep[1])):
        return None
    kepside = name in twin.KSETTERS
    mu = s0.mu
    if op['mass']:
        m = np.array([0.5*op['u'][j % len(op['u'])][1] for j in range(n)])
        mu = s0.gmu(m)
    if not (twin.good_kep(s0.kep) and twin.good_cart(s0.cart, mu)):
        return None
    val = twin.read(o, name)
    if op['mass']:
        if op['inplace']:
            o.m[:] = m
        else:
            o.m = m.copy()
    setattr(o, name, val.copy())
    done = f'{"masses changed and " if op["mass"] else ""}{name} written again'
    s1 = twin.snapshot(o)
    agree(s1, f'{what} and {done}', TIGHT if kepside else LOOSE)
    got = twin.read(o, name)
    if name in ('kepler', 'cartesian', 'r', 'v') + tuple(twin.KEP) + tuple(twin.CART) and not np.array_equal(got, val):
        raise Violation(f'{what} and {done}: reads {got.tolist()} after writing {val.tolist()}')
    ctx.label('op rewrite')
    return done


# How closely the two views agree: a state computed from elements is accurate,
# elements computed from a state are limited by arccos (state tolerance 3e-6).
TIGHT = 1e-10
LOOSE = 3e-6


def run(case, ctx):
    cfg = case['cfg']
    o = twin.make(cfg, mode=case.get('mode', 'immediate'))
    mu = twin.mu_of(o)
    twin.initialise(o, case['init'], mu)
    agree(twin.snapshot(o), f'{cfg} initialised {case["init"]["view"]}', TIGHT if case['init']['view'] == 'kep' else LOOSE)
    key = []
    writes = 0
    for op in case['ops']:
        s0 = twin.snapshot(o)
        if op['op'] == 'rewrite':
            done = rewrite(o, op, s0, f'{cfg}: {key}', ctx)
            if done:
                key.append(done)
                writes += 1
            continue
        c = twin.concrete(op, s0)
        if c is None:
            ctx.label('op outside the domain')
            continue
        e = tol.f64(s0.kep[1])
        val = None
        if c['op'] == 'set':
            val = twin.apply_set(o, c, e)
        elif c['op'] == 'update':
            val = twin.apply_update(o, c)
        else:
            o = twin.apply(o, c, e)
        key.append(twin.describe(c))
        ctx.label('op ' + (c.get('name') or c['op']))
        what = f'{cfg}: {key}'
        s1 = twin.snapshot(o)
        kepside = (c['op'] == 'propagate' or (c['op'] == 'set' and c['name'] in twin.KSETTERS)
                   or (c['op'] == 'update' and c['view'].startswith('kep')
                       and len(c['idx']) == s0.n))
        agree(s1, what, TIGHT if kepside else LOOSE)
        if c['op'] in ('set', 'update'):
            written(o, c, val, s0, s1, what)
            writes += 1
        elif c['op'] == 'read':
            for a, b, nm in ((s0.raw, s1.raw, 'elements'), (s0.cart, s1.cart, 'states')):
                if not np.array_equal(a, b, equal_nan=True):
                    raise Violation(f'{what}: reading changed the {nm}: {a.tolist()} became {b.tolist()}')
    # single component readings are rows of the full views
    s = twin.snapshot(o)
    for r, nm in enumerate(twin.KEP):
        if not np.array_equal(twin.read(o, nm), s.raw[r], equal_nan=True):
            raise Violation(f'{cfg}: {key}: {nm} is not row {r} of kepler')
    for r, nm in enumerate(twin.CART):
        if not np.array_equal(twin.read(o, nm), s.cart[r], equal_nan=True):
            raise Violation(f'{cfg}: {key}: {nm} is not row {r} of cartesian')
    if not (np.array_equal(o.r, s.cart[:3], equal_nan=True) and np.array_equal(o.v, s.cart[3:], equal_nan=True)):
        raise Violation(f'{cfg}: {key}: r, v are not the halves of cartesian')
    ctx.count(max(len(key), 1), [repr((cfg, case['init'], key, case['ops']))] if writes >= 2 else ())


op_rewrite = st.fixed_dictionaries(dict(op=st.just('rewrite'), name=st.sampled_from(twin.SETTERS), u=twin.uvecs, mass=st.booleans(),
                                        inplace=st.booleans()))
OPS = st.one_of(op_rewrite, twin.op_set(twin.SETTERS), twin.op_set(twin.SETTERS), twin.op_set(twin.SETTERS), twin.op_update, twin.op_update,
                twin.op_read, twin.op_prop, twin.op_type, twin.op_add_full, twin.op_delete)
cases = st.fixed_dictionaries(dict(cfg=twin.cfg_st, mode=st.sampled_from(['immediate', 'immediate', 'direct']), init=twin.init_st, ops=st.lists(OPS, min_size=2, max_size=10)))
SUBS = [Sub('history', run, cases, (400, 10000), shards=(8, 8), random_n=(4000, 160000))]
