"""C15: the anomaly type is only a representation."""
import numpy as np
from ..core import Sub, OutOfDomain, Violation
from .. import gs as st
from .. import ref, tol, twin

ID = 'C15'
RULE = ('distinct orbits switched between at least two anomaly types at a non-zero anomaly, or distinct executed histories '
        'with at least one switch and one other operation')
LD = ref.LD
READS = list(twin.NAMED)


def rates(e):
    """largest derivative between two of the anomalies"""
    return np.where(e == 1, 4.0, np.where(e < 1, 2/np.maximum(1 - e, 1e-6)**1.5,
                                          4*(1 + e)**1.5/np.maximum(np.abs(e - 1), 1e-6)**1.5))


def three(o):
    return {t: np.array(getattr(o, nm)) for nm, t in twin.NAMED.items()}


def check_three(o, kep, what, lim):
    """all anomaly readings are conversions of one another (of the true one in kep)"""
    e = tol.f64(kep[1])
    f = 180/np.pi if o.degrees else 1.0
    got = three(o)
    for t, g in got.items():
        if g.shape != (len(o),):
            raise Violation(f'{what}: {t} anomaly has shape {g.shape}')
        w = tol.f64(ref.from_true(kep[5], kep[1], t))
        x = g/f
        # elliptic anomalies and the true one: modulo a turn; others as they are
        per = (e < 1) | (t == 'true')
        d = np.where(per, tol.f64(ref.angdiff(x, w)), np.abs(x - w)/(1 + np.abs(w)))
        tol.check(d <= lim, f'{what}: {t} anomaly', g, w*f, d, lim)
    if not np.array_equal(o.anom, got[o.type]):
        raise Violation(f'{what}: anom reads {o.anom.tolist()}, the {o.type} anomaly {got[o.type].tolist()}')
    return got


def run(case, ctx):
    cfg, mode = case['cfg'], case['mode']
    o = twin.make(cfg, mode=mode)
    n = len(o)
    if n == 0:
        raise OutOfDomain('no orbits')
    us = case['u']
    kep = twin.elements([us[j % len(us)] for j in range(n)], par=True)
    if case.get('wide'):
        # more than one turn, either sign (bound orbits)
        kep[5] = np.where(kep[1] < 1, kep[5] + 2*np.pi*case['wide'], kep[5])
    if not twin.good_kep(kep):
        raise OutOfDomain('orbit')
    e = kep[1]
    mu = twin.mu_of(o)
    lim = 1e-10*rates(e)*(1 + np.abs(kep[5]))
    o.kepler = twin.to_orb_kep(kep, o.type, o.degrees)
    if mode == 'manual':
        o.cartesian = twin.cart64(kep, mu)
    canon = twin.from_orb_kep(np.array(o.kepler), o.type, o.degrees)
    what = f'{cfg} {mode} {kep.tolist()}'
    if case['look']:
        check_three(o, canon, what, lim)
        o.cartesian
    ref_cart = None
    if mode != 'deferred' or case['look']:
        ref_cart = np.array(o.cartesian)
    five = np.array(o.kepler)[:5]
    seq = [o.type]
    for q, t in enumerate(case['types']):
        if case.get('calc', 0) >> q & 1:
            # refreshing a stored anomaly by hand changes nothing
            getattr(o, f'calc_{seq[-1] if case["calc"] & 8 else t}_anomaly')()
        o.type = t
        seq.append(t)
        w = f'{what}: types {seq}'
        if o.type != t:
            raise Violation(f'{w}: type reads {o.type!r}')
        if not np.array_equal(o.kepler[:5], five):
            raise Violation(f'{w}: elements {o.kepler.tolist()}, before {five.tolist()}')
        check_three(o, canon, w, lim*len(seq))
        if ref_cart is not None:
            tol.same_state(np.array(o.cartesian), ref_cart, lim*len(seq)*10, f'{w}: state against the one before', vscale=tol.vel_scale(kep, mu))
    # the state is that of the elements, also when it is computed only now
    if mode == 'manual' or case['recalc']:
        o.calculate_cartesian()
    K = np.where(e == 1, 4, 1 + e + (1 + e*e)/np.maximum(np.abs(1 - e*e), 1e-3))
    tol.same_state(np.array(o.cartesian), ref.kep_to_cart(canon, mu), 1e-9*K**2*len(seq)*(1 + np.abs(kep[5])), f'{what}: types {seq}: state',
                   vscale=tol.vel_scale(kep, mu))
    # writing an anomaly does not depend on the selected type
    nm = case['write']
    x = twin.elements([us[(j + 1) % len(us)] for j in range(n)])[5]
    new = kep.copy()
    with np.errstate(all='ignore'):
        asym = np.where(e > 1, np.arccos(-1/np.maximum(e, 1)), np.pi)
    new[5] = np.where(e < 1, x, 0.8*asym*(np.mod(x, 2*np.pi)/np.pi - 1))
    if not twin.good_kep(new):
        raise OutOfDomain('orbit')
    val = tol.f64(ref.from_true(new[5], new[1], twin.NAMED[nm]))
    val = np.degrees(val) if o.degrees else val
    canon2 = new.astype(LD)
    vv = val.astype(LD)*(ref.PI/180 if o.degrees else 1)
    canon2[5] = ref.to_true(vv, new[1], twin.NAMED[nm])
    others = twin.make(cfg, mode=mode, type=case['type2'])
    others.kepler = twin.to_orb_kep(kep, others.type, others.degrees)
    for q, y in ((o, f'type {o.type}'), (others, f'type {others.type}')):
        setattr(q, nm, val.copy())
        w = f'{what}: {nm}={val.tolist()} with {y}'
        if not np.array_equal(q.kepler[:5], five):
            raise Violation(f'{w}: elements {q.kepler.tolist()}, before {five.tolist()}')
        check_three(q, canon2, w, 1e-10*rates(e)*(1 + np.abs(new[5])))
        if mode == 'manual':
            q.calculate_cartesian()
        tol.same_state(np.array(q.cartesian), ref.kep_to_cart(canon2, mu), 1e-9*K**2*(1 + np.abs(new[5])), w + ': state',
                       vscale=tol.vel_scale(new, mu))
    ctx.count(n*len(seq), [repr((case, j)) for j in range(n) if len(set(seq)) > 1 and kep[5, j] != 0])
    for j in range(n):
        ctx.label('circular' if e[j] < 1e-9 else 'ellipse' if e[j] < 1 else 'parabola' if e[j] == 1 else 'hyperbola')
    ctx.label(mode)


def run_history(case, ctx):
    cfg, mode = case['cfg'], case['mode']
    A = twin.make(cfg, mode=mode)
    B = twin.make(cfg, mode=mode if mode != 'deferred' else 'immediate')
    mu = twin.mu_of(B)
    twin.initialise(A, case['init'], mu)
    twin.initialise(B, case['init'], mu)
    if mode == 'manual':
        kep = twin.elements([case['init']['u'][j % len(case['init']['u'])][::-1] for j in range(len(B))])
        if not twin.good_kep(kep):
            raise OutOfDomain('start')
        for o in (A, B):
            if case['init']['view'] == 'kep':
                o.cartesian = twin.cart64(kep, mu)
            else:
                o.kepler = twin.to_orb_kep(kep, o.type, o.degrees)
    ops = []
    for op in case['ops']:
        # `e` alone keeps the stored anomaly, whichever it is: not covered
        if op['op'] == 'set' and (op['name'] == 'e' or (op['name'] == 'anom' and op['form'] == 'scalar')):
            continue
        if op['op'] == 'update' and 'e' in op['names'] and op['view'] == 'kep':
            op = dict(op, names=[x for x in op['names'] if x != 'e'])
        ops.append(op)
    key = []
    twin.run_twin(A, B, ops, ctx, f'{cfg} {mode}, switching types', key)
    sw = [k for k in key if k.startswith('type=')]
    ctx.count(max(len(key), 1), [repr(case)] if sw and len(sw) < len(key) else ())


one = st.fixed_dictionaries(dict(
    cfg=twin.cfg_st, mode=st.sampled_from(twin.MODES), u=twin.uvecs, types=st.lists(st.sampled_from(twin.TYPES), min_size=1, max_size=4),
    look=st.booleans(), recalc=st.booleans(), write=st.sampled_from(READS), type2=st.sampled_from(twin.TYPES), wide=st.sampled_from([0, 0, 1, -1, -3]),
    calc=st.integers(0, 15)))
op_typeA = st.fixed_dictionaries(dict(op=st.just('typeA'), val=st.sampled_from(twin.TYPES)))
OPS = st.one_of(*([op_typeA]*6 + [twin.op_set(twin.SETTERS)]*4 + [twin.op_update]*2 + [twin.op_read]*3
                  + [twin.op_prop, twin.op_prop, twin.op_copy, twin.op_index, twin.op_add_full, twin.op_delete, twin.op_mass, twin.op_calc, twin.op_iter]))
hist = st.fixed_dictionaries(dict(cfg=twin.cfg_st, mode=st.sampled_from(twin.MODES), init=twin.init_st, ops=st.lists(OPS, min_size=3, max_size=10)))
SUBS = [
    Sub('one', run, one, (300, 8000), shards=(8, 8), random_n=(6000, 200000)),
    Sub('history', run_history, hist, (300, 8000), shards=(8, 8), random_n=(3000, 100000)),
]
