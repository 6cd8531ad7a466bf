"""C16: propagation follows two-body motion."""
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, OutOfDomain, Violation
from .. import gen, ref, tol, twin

ID = 'C16'
RULE = 'distinct (elements, mass, time) columns propagated by a non-zero time'
LD = ref.LD
PI = np.pi
CON = ['circ', 'nearcirc', 'ell', 'ell', 'highell', 'hyp', 'hyp', 'bighyp', 'par', 'midpar']
SYS = dict(unit=(1.0, 1.0, 1.0), au=(39.47812018693255, 1.0, 1.0), si=(6.6743e-11, 1.98847e30, 1.495978707e11),
           earth=(6.6743e-11, 5.9722e24, 7e6))


def rates(e):
    with np.errstate(all='ignore'):
        return np.where(e == 1, 4.0, (1 + e)**.5/np.abs(1 - e)**1.5)


def bounds(kep, tau, M0, r_over_p):
    """relative state error from a phase known to rounding and solver tolerance"""
    e = tol.f64(kep[1])
    dM = 1e-11 + 40*tol.EPS*(np.abs(M0) + np.abs(tau))
    return 20*(dM*rates(e) + 100*tol.EPS*(1 + e*r_over_p) + 40*tol.EPS*np.abs(tol.f64(kep[2:5])).sum(axis=0))


def run(case, ctx):
    kep = gen.col(case, 'kep')
    mass = gen.col(case, 'm')
    tau = gen.col(case, 'tau')
    G, M0, L = SYS[case['sys']]
    gen.require_orbits(kep, frac=0.97)
    if ((np.abs(kep[1] - 1) < 1e-3) & (kep[1] != 1)).any():
        raise OutOfDomain('near parabolic')
    if (mass < 0).any() or (mass > 10).any() or (kep[0] < 1e-8).any() or (kep[0] > 1e18).any():
        raise OutOfDomain('mass')
    n = kep.shape[1]
    kep[0] *= L
    form = case['form']
    if form in ('scalar', 'int', 'npscalar', '0d'):
        # one time for all: similar periods
        kep[0] = kep[0, 0]*(kep[0]/kep[0, 0])**0.05
    cfg = dict(type=case['type'], degrees=case['degrees'], m=list(mass*M0), G=G, M0=M0)
    o = twin.make(cfg, mode=case['mode'])
    mu = twin.mu_of(o)
    mm = tol.f64(ref.mean_motion(kep[0], kep[1], mu))
    dt = tau/mm
    if form in ('scalar', 'npscalar', '0d'):
        dt = np.full(n, dt[0])
    elif form == 'int':
        dt = np.full(n, float(np.round(min(abs(dt[0]), 1e15)))*np.sign(dt[0]))
    tau = dt*mm
    M1 = tol.f64(ref.true_to_mean(kep[5], kep[1]))
    un = kep[1] >= 1
    if (np.abs(tau) > 1e5).any() or (un & (np.abs(M1 + tau) > 200)).any() or not np.isfinite(tau).all():
        raise OutOfDomain('time')
    passed = dict(array=lambda: dt.copy(), scalar=lambda: float(dt[0]), npscalar=lambda: np.float64(dt[0]), int=lambda: int(dt[0]),
                  **{'0d': lambda: np.array(dt[0])})[form]

    def prop(q, t):
        q.propagate(t)
        if case['mode'] == 'manual':
            q.calculate_cartesian()

    what = f'{case["sys"]} {case["type"]} degrees={case["degrees"]} {case["mode"]} dt:{form} {case["kind"]}'
    o.kepler = twin.to_orb_kep(kep, o.type, o.degrees)
    if case['look']:
        o.cartesian
    canon = twin.from_orb_kep(np.array(o.kepler), o.type, o.degrees)
    five = np.array(o.kepler)[:5]
    m0 = np.array(o.m)

    def state(q, t, bound_tau, what, extra=1):
        """q against the two-body state a time t after `canon`"""
        want = ref.propagate(canon, mu, t)
        p = tol.f64(ref.semilatus(canon[0], canon[1]))
        lim = extra*bounds(canon, bound_tau, M1, tol.f64(ref.norm(want[:3]))/p)
        tol.same_state(np.array(q.cartesian), want, lim, what, vscale=ref.norm(want[3:]))
        k = np.array(q.kepler)
        tol.check((np.abs(k[:5] - five) <= 4*tol.EPS*np.abs(five)).all(axis=0), what + ': other elements changed', k, five)
        if not np.array_equal(q.m, m0):
            raise Violation(f'{what}: masses changed to {np.array(q.m).tolist()}')
        if q.type != case['type'] or q.degrees != case['degrees']:
            raise Violation(f'{what}: settings changed')

    kind = case['kind']
    arg = passed()
    keep = np.array(arg)
    if kind == 'once':
        prop(o, arg)
        state(o, dt, tau, what)
    elif kind == 'universal':
        # against motion computed from the state alone
        if (np.abs(tau) > 60).any():
            raise OutOfDomain('time')
        c0 = np.array(o.cartesian)
        if case['mode'] == 'manual':
            c0 = twin.cart64(kep, mu)
        prop(o, arg)
        want = ref.universal(c0.astype(LD), mu, dt)
        e = kep[1]
        p = tol.f64(ref.semilatus(canon[0], canon[1]))
        lim = 30*bounds(canon, tau, M1, tol.f64(ref.norm(want[:3]))/p)*(1 + np.abs(tau))*(1 + 1/np.where(e == 1, 1, np.abs(1 - e)))
        tol.same_state(np.array(o.cartesian), want, lim, what, vscale=ref.norm(want[3:]))
    elif kind == 'steps':
        fr = case['fractions']
        parts = [dt*f for f in fr]
        for x in parts:
            prop(o, x if form == 'array' else float(x[0]))
        total = np.sum([x.astype(LD) for x in parts], axis=0)
        tot = np.sum(np.abs(fr))*np.abs(tau)
        if (un & (np.max(np.abs(np.cumsum(fr)))*np.abs(tau) + np.abs(M1) > 200)).any():
            raise OutOfDomain('time')
        state(o, total, tot, what + f' {fr}', 2*len(fr))
    elif kind == 'there and back':
        prop(o, arg)
        prop(o, -np.asarray(arg) if form == 'array' else -arg)
        state(o, 0*dt, 2*tau, what, 4)
    elif kind == 'period':
        if (kep[1] >= 1).any():
            raise OutOfDomain('unbound')
        P = o.period
        prop(o, P if case['look'] else P*int(case['turns']))
        state(o, 0*dt, np.full(n, 2*PI*(1 if case['look'] else abs(case['turns']))), what, 4)
    elif kind == 'zero':
        prop(o, 0*dt if form == 'array' else 0)
        state(o, 0*dt, 0*dt, what)
    if not np.array_equal(np.array(arg), keep):
        raise Violation(f'{what}: the time array was changed')
    e = kep[1]
    ctx.count_cols(np.vstack([kep, mass, tau]), tau != 0)
    for nm, mask in (('circular', e < 1e-9), ('ellipse', (e >= 1e-9) & (e < 1)), ('parabola', e == 1), ('hyperbola', e > 1), ('backwards', tau < 0),
                     ('through periapsis, unbound', un & (M1*(M1 + tau) < 0))):
        ctx.label(nm, mask.sum())
    ctx.label(kind, n)
    ctx.label(f'{case["mode"]}/{case["type"]}/{"deg" if case["degrees"] else "rad"}', n)


def run_cart(case, ctx):
    """orbits given as states, with several propagations and rewrites between"""
    cfg, mode = case['cfg'], case['mode']
    o = twin.make(cfg, mode=mode)
    n = len(o)
    if n == 0:
        o.propagate(1.0)
        if len(o):
            raise Violation('propagating no orbits gives some')
        raise OutOfDomain('no orbits')
    mu = twin.mu_of(o)
    kep = twin.elements([case['u'][j % len(case['u'])] for j in range(n)])
    if not twin.good_kep(kep):
        raise OutOfDomain('start')
    c = twin.cart64(kep, mu)
    if not twin.good_cart(c, mu):
        raise OutOfDomain('start')
    o.cartesian = c.copy()
    if mode == 'manual':
        o.calculate_kepler()
    cur = c.astype(LD)
    total = np.zeros(n)
    mm = tol.f64(ref.mean_motion(kep[0], kep[1], mu))
    M = tol.f64(ref.true_to_mean(kep[5], kep[1]))
    what = f'{cfg} {mode}'
    for op in case['steps']:
        tau = np.array([(2*op['u'][j % len(op['u'])] - 1)*(12 if kep[1, j] < 1 else 3) for j in range(n)])
        dt = tau/mm if op['array'] else tau[0]/mm[0]
        total = total + np.abs(dt*mm)
        M = M + dt*mm
        if ((kep[1] > 1) & (np.abs(M) > 30)).any() or (total > 200).any():
            raise OutOfDomain('time')
        o.propagate(dt.copy() if op['array'] else float(dt))
        if mode == 'manual':
            o.calculate_cartesian()
        cur = ref.universal(cur, mu, dt)
        if op['look'] or op is case['steps'][-1]:
            lim = 1e-5*rates(kep[1])**2*(1 + total)
            w = f'{what}: {total.tolist()} rad from {c.tolist()}'
            got = np.array(o.cartesian)
            tol.same_state(got, cur, np.minimum(lim, .05), w, vscale=ref.norm(cur[3:]))
            # conserved quantities do not depend on the phase
            S, S0 = ref.State(got, mu), ref.State(c, mu)
            for nm, d in (('energy', np.abs((S.energy - S0.energy)/S0.energy)), ('angular momentum', ref.norm(S.h - S0.h)/S0.hn),
                          ('eccentricity vector', ref.norm(S.evec - S0.evec)/(1 + S0.e))):
                tol.check(tol.f64(d) <= 3e-6*rates(kep[1])**2*(1 + kep[1]), f'{w}: {nm}', got, c, tol.f64(d))
        if op['switch'] and not op['look']:
            o.type = op['switch']
    ctx.count(n*len(case['steps']), [repr((case, j)) for j in range(n)])


TAUS = [0.0, PI, -PI, 2*PI, 1.0, -1.0, 1e3]
tau_st = st.one_of(st.sampled_from(TAUS), gen.fl(-7, 7), gen.fl(-60, 60), gen.fl(-300, 300), gen.fl(-1e4, 1e4))
KINDS = ['once', 'once', 'universal', 'steps', 'there and back', 'period', 'zero']
FORMS = ['array', 'array', 'scalar', 'int', 'npscalar', '0d']


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(KINDS))
    con = ['circ', 'ell', 'highell', 'nearcirc'] if kind == 'period' else CON
    cols = draw(gen.rows(gen.orbit(conics=con, unbound_frac=0.9), m=st.one_of(st.sampled_from([0.0, 0.5, 1.0]), gen.fl(0, 3)),
                         tau=tau_st))
    return dict(cols=cols, kind=kind, sys=draw(st.sampled_from(sorted(SYS))), type=draw(st.sampled_from(twin.TYPES)), degrees=draw(st.booleans()),
                mode=draw(st.sampled_from(twin.MODES)), form=draw(st.sampled_from(FORMS)), look=draw(st.booleans()),
                turns=draw(st.sampled_from([1, 2, -1, 10])),
                fractions=draw(st.lists(st.sampled_from([0.5, 0.25, 1.0, -0.5, 0.1, 0.3, -1.0]), min_size=1, max_size=5)))


def bulk(rng, n):
    kind = KINDS[rng.integers(len(KINDS))]
    con = ['circ', 'ell', 'highell', 'nearcirc'] if kind == 'period' else CON
    kep = gen.bulk_orbits(rng, n, conics=con, unbound_frac=0.9)
    M = tol.f64(ref.true_to_mean(kep[5], kep[1]))
    far = (kep[1] >= 1) & (np.abs(M) > 150)
    kep[5] = np.where(far, 100/np.maximum(np.abs(M), 100)*(np.mod(kep[5] + np.pi, 2*np.pi) - np.pi), kep[5])
    M = tol.f64(ref.true_to_mean(kep[5], kep[1]))
    w = 10**rng.uniform(-3, 4, n)*rng.choice([-1, 1], n)
    fr = rng.choice([0.5, 0.25, 1.0, -0.5, 0.1, 0.3, -1.0], int(rng.integers(1, 6))).tolist()
    span = max(np.max(np.abs(np.cumsum(fr))), 1)
    tau = np.where(kep[1] < 1, np.where(rng.random(n) < .7, rng.uniform(-60, 60, n), w),
                   np.clip(rng.uniform(-150, 150, n)*rng.random(n)**3, -(199 - np.abs(M))/span, (199 - np.abs(M))/span))
    if kind == 'universal':
        tau = np.clip(tau, -55, 55)
    form = 'array' if rng.random() < .8 else FORMS[rng.integers(len(FORMS))]
    if form != 'array':
        tau = np.full(n, rng.uniform(-4, 4))
        kep[0] = 1 + rng.random(n)
    return dict(cols=dict(kep=kep, m=np.where(rng.random(n) < .3, 0, rng.uniform(0, 3, n)), tau=tau), kind=kind, sys=sorted(SYS)[rng.integers(4)],
                type=twin.TYPES[rng.integers(3)], degrees=bool(rng.random() < .5), mode=twin.MODES[rng.integers(4)], form=form,
                look=bool(rng.random() < .5), turns=int(rng.choice([1, 2, -1, 10])), fractions=fr)


from .. import gs  # noqa: E402
cart_cases = gs.fixed_dictionaries(dict(
    cfg=twin.cfg_st, mode=gs.sampled_from(twin.MODES), u=twin.uvecs,
    steps=gs.lists(gs.fixed_dictionaries(dict(u=gs.lists(twin.unit, min_size=1, max_size=3), array=gs.booleans(), look=gs.booleans(),
                                              switch=gs.sampled_from([None, None] + twin.TYPES))), min_size=1, max_size=5)))
SUBS = [
    Sub('kep', run, cases(), (300, 8000), bulk, (80, 4000), 200, shards=(8, 8)),
    Sub('cart', run_cart, cart_cases, (200, 4000), shards=(8, 8), random_n=(800, 30000)),
]
