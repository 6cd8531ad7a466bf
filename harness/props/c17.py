"""C17: derived orbit quantities agree with the state, setters achieve them."""
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, OutOfDomain, Violation
from .. import gen, ref, tol, twin
from .c16 import SYS, bounds

ID = 'C17'
RULE = 'distinct (elements, mass, value) columns whose derived quantities were read or set'
LD = ref.LD
PI = np.pi
EPS = tol.EPS
CON = ['circ', 'nearcirc', 'ell', 'ell', 'highell', 'hyp', 'hyp', 'bighyp', 'par', 'midpar']


def start(case):
    kep = gen.col(case, 'kep')
    mass = gen.col(case, 'm')
    G, M0, L = SYS[case['sys']]
    gen.require_orbits(kep, frac=0.97)
    e = kep[1]
    gap = 1e-6 if case['given'] == 'kep' and 'set' not in case else 1e-3
    if ((np.abs(e - 1) < gap) & (e != 1)).any():
        raise OutOfDomain('near parabolic')
    if (mass < 0).any() or (mass > 10).any() or (kep[0] < 1e-8).any() or (kep[0] > 1e18).any():
        raise OutOfDomain('mass')
    kep[0] *= L
    cfg = dict(type=case['type'], degrees=case['degrees'], m=list(mass*M0), G=G, M0=M0)
    o = twin.make(cfg, mode=case['mode'])
    mu = twin.mu_of(o)
    given = case['given']
    if given == 'cart':
        c = twin.cart64(kep, mu)
        if (e == 1).any() or not twin.good_cart(np.vstack([c[:3]/L, c[3:]*np.sqrt(L/mu)]), np.ones(len(mu))):
            raise OutOfDomain('start')
        o.cartesian = c
        if case['mode'] == 'manual':
            o.calculate_kepler()
    else:
        if given == 'mass later':
            o.m[:] = 0
        o.kepler = twin.to_orb_kep(kep, o.type, o.degrees)
        if given == 'mass later':
            # nothing pending before, the elements stay
            o.cartesian
            o.m[:] = mass*M0
            o.calculate_cartesian()
        if case['mode'] == 'manual':
            o.calculate_cartesian()
    what = f'{case["sys"]} {case["type"]} degrees={case["degrees"]} {case["mode"]} given:{given}'
    return o, mu, what


def near(got, want, rel, what, *show):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Violation(f'{what}: shape {got.shape}, not {want.shape}')
    tol.finite(got, what)
    err = tol.f64(np.abs(got - want)/np.abs(want))
    tol.check(err <= rel, what, got, tol.f64(want), err, np.broadcast_to(rel, err.shape))


def check_all(o, mu, what, order, lax=1.0):
    """every derived reading of o against its elements; `order` = the readings"""
    turn = 360.0 if o.degrees else 2*PI
    kep = canon = None

    def get():
        k = twin.from_orb_kep(np.array(o.kepler), o.type, o.degrees)
        return k
    for name in order:
        first = getattr(o, name)
        canon = get()
        a, e, i, om, Om, nu = canon
        kep = tol.f64(canon)
        M = tol.f64(ref.true_to_mean(nu, e))
        n = ref.mean_motion(a, e, mu)
        w = f'{what} {name}'
        if name == 'period':
            # the time in which the mean anomaly advances by a full turn; only
            # ellipses have one
            b = kep[1] < 1
            near(first[b], (2*ref.PI/n)[b], 30*EPS, w)
        elif name == 'mean_motion':
            near(first, n*(180/ref.PI if o.degrees else 1), 30*EPS, w)
        elif name == 'periapsis':
            q = ref.semilatus(a, e)/(1 + e)
            near(first, q, 30*EPS*(1 + kep[1]/np.where(kep[1] == 1, 1, np.abs(1 - kep[1]))), w)
        elif name == 'apoapsis':
            b = kep[1] < 1
            near(first[b], (ref.semilatus(a, e)/np.where(b, 1 - e, 1))[b], 30*EPS*(1 + kep[1]/np.where(b, np.abs(1 - kep[1]), 1))[b], w)
        elif name == 'mean_longitude':
            want = M + om + Om
            d = tol.f64(ref.angdiff(np.asarray(first, dtype=LD)*2*ref.PI/turn, want))
            g = np.abs(1 - kep[1]**2)**1.5/(1 + kep[1]*np.cos(kep[5]))**2       # dM/dnu
            lim = 60*EPS*(np.abs(kep[2:6]).sum(axis=0) + np.abs(kep[5])*g + np.abs(M)*(1 + (1 + kep[1])/np.abs(1 + kep[1]*np.cos(kep[5]))) + 1) + 1e-14
            tol.check(d <= lim*lax, w, np.asarray(first), tol.f64(want), d, lim*lax)
            if first.shape != (len(o),):
                raise Violation(f'{w}: shape {first.shape}')
        else:
            want = ref.kep_to_cart(canon, mu)
            r, v = ref.norm(want[:3]), ref.norm(want[3:])
            p = tol.f64(ref.semilatus(a, e))
            lim = bounds(canon, 0*M, M, tol.f64(r)/p)
            if name == 'speed':
                # vis-viva cancels at the apoapsis of eccentric orbits
                amp = tol.f64((2*mu/r)/v**2)
                lim = lim*(1 + amp)*(1 + tol.f64(e*r)/p)
            else:
                lim = lim*tol.f64(tol.vel_scale(kep, mu)/v)
                near(first, ref.norm(np.array(o.v).astype(LD)), 10*EPS, w + ' as length of v')
            near(first, v, lim*lax, w)
    return canon


ORDER = ['period', 'mean_motion', 'periapsis', 'apoapsis', 'mean_longitude', 'speed', 'velocity']


def order_of(case):
    k = case['order'] % 7
    o = ORDER[k:] + ORDER[:k]
    return o[::-1] if case['order'] % 2 else o


def run(case, ctx):
    o, mu, what = start(case)
    n = len(o)
    lax = 1.0
    if case['given'] == 'cart':
        # the elements and the state differ by conversion errors
        lax = 1e4
    canon = check_all(o, mu, what, order_of(case), lax)
    if case['single']:
        # members give the values of the batch
        for j in range(n if n < 6 else 2):
            q = o[j]
            for name in ORDER:
                x, y = getattr(o, name), getattr(q, name)
                if np.shape(y) != (1,):
                    raise Violation(f'{what}: {name} of one orbit has shape {np.shape(y)}')
                if not abs(x[j] - y[0]) <= 1e-9*abs(x[j]):
                    raise Violation(f'{what}: {name} of orbit {j} is {y[0]!r} alone and {x[j]!r} in the batch')
    e = tol.f64(canon[1])
    ctx.count_cols(np.vstack([gen.col(case, 'kep'), gen.col(case, 'm')]))
    lab(ctx, case, e)


def lab(ctx, case, e):
    for nm, mask in (('nearly parabolic', (np.abs(e - 1) < 1e-3) & (e != 1)), ('circular', e < 1e-9), ('ellipse', (e >= 1e-9) & (e < 1)), ('parabola', e == 1), ('hyperbola', e > 1)):
        ctx.label(nm, mask.sum())
    ctx.label(f'{case["mode"]}/{case["type"]}/{"deg" if case["degrees"] else "rad"}', len(e))
    ctx.label('given ' + case['given'], len(e))
    ctx.label(case['sys'], len(e))


def run_set(case, ctx):
    o, mu, what = start(case)
    n = len(o)
    f = gen.col(case, 'f')
    if (f <= 0.02).any() or (f > 50).any():
        raise OutOfDomain('factor')
    name, form = case['set'], case['form']
    what += f' set {name} {form}'
    before = np.array(o.kepler)
    cart = np.array(o.cartesian)
    e = before[1]
    if name == 'period' and (e == 1).any():
        raise OutOfDomain('a parabola has no period')
    now = np.array(getattr(o, name))
    val = now*f if form == 'array' else np.full(n, now[0]*f[0])
    if form == 'int':
        val = np.full(n, float(np.round(val[0])))
    if not ((val > 0) & np.isfinite(val)).all() or (val/now > 1e3).any() or (val/now < 1e-3).any():
        raise OutOfDomain('value')
    if form == 'int' and abs(val[0]) > 2**53:
        raise OutOfDomain('value')
    if name == 'velocity':
        S = ref.State(np.vstack([cart[:3], cart[3:]*val/now]), mu)
        t = tol.f64(S.e)
        if ((t > 0.99) & (t < 1.01)).any() or (tol.f64(S.hn) < 1e-3*tol.f64(S.rn*S.vn)).any():
            raise OutOfDomain('near parabolic or rectilinear result')
        # pyorb's own conversion is the business of C02: only well-behaved results
        if not ((tol.f64(S.a) > 0) & np.isfinite(tol.f64(S.a))).all():
            raise OutOfDomain('result')
    arg = dict(array=lambda: val.copy(), scalar=lambda: float(val[0]), int=lambda: int(val[0]),
               npscalar=lambda: np.float64(val[0]))[form]()
    keep = np.array(arg)
    m0 = np.array(o.m)
    setattr(o, name, arg)
    if not np.array_equal(np.array(arg), keep):
        raise Violation(f'{what}: the caller\'s array was changed')

    def readback():
        near(np.array(getattr(o, name)), val, 60*EPS, what + ' reads back')

    def other():
        if name == 'velocity':
            c = np.array(o.cartesian)
            if not np.array_equal(c[:3], cart[:3]):
                err = ref.norm(c[:3] - cart[:3])/ref.norm(cart[:3])
                tol.check(err <= 4*EPS, what + ': position', c, cart, err)
            near(ref.norm(c[3:].astype(LD)), val, 20*EPS, what + ': length of v')
            d = ref.norm(c[3:]/val - cart[3:]/now)
            tol.check(tol.f64(d) <= 20*EPS, what + ': direction of v', c, cart, d)
        else:
            k = np.array(o.kepler)
            tol.check((np.abs(k[1:] - before[1:]) <= 4*EPS*np.abs(before[1:])).all(axis=0), what + ': other elements', k, before)
            rate = 2*ref.PI/val.astype(LD) if name == 'period' else val.astype(LD)*(ref.PI/180 if o.degrees else 1)
            want = np.where(e == 1, np.cbrt(mu/(2*rate**2)), np.cbrt(mu/rate**2))
            near(k[0], want, 60*EPS, what + ': semi-major axis')
        if not np.array_equal(o.m, m0):
            raise Violation(f'{what}: masses changed')
    for f in ([readback, other] if case['order'] % 2 else [other, readback]):
        f()
    if name == 'velocity':
        if case['mode'] == 'manual':
            if not np.array_equal(np.array(o.kepler), before):
                raise Violation(f'{what}: elements changed without recalculation')
            o.calculate_kepler()
        # energy and angular momentum of the new elements are those of the state
        S = ref.State(np.array(o.cartesian), mu)
        k = twin.from_orb_kep(np.array(o.kepler), o.type, o.degrees)
        cc = tol.CartCond(S)
        near(k[0], S.a, cc.a + 1e-13, what + ': semi-major axis from vis-viva')
        p = ref.semilatus(k[0], k[1])
        gap = tol.f64(np.abs(1 - k[1]))
        near(p, S.p, 1e-13 + cc.a + 4*cc.e*(1 + tol.f64(k[1]))/gap, what + ': semilatus rectum')
    else:
        if case['mode'] == 'manual':
            if not np.array_equal(np.array(o.cartesian), cart):
                raise Violation(f'{what}: state changed without recalculation')
            o.calculate_cartesian()
        k = twin.from_orb_kep(np.array(o.kepler), o.type, o.degrees)
        want = ref.kep_to_cart(k, mu)
        r = tol.f64(ref.norm(want[:3]))
        lim = bounds(k, 0, tol.f64(ref.true_to_mean(k[5], k[1])), r/tol.f64(ref.semilatus(k[0], k[1])))
        tol.same_state(np.array(o.cartesian), want, lim, what + ': state', vscale=tol.vel_scale(tol.f64(k), mu))
        check_all(o, mu, what + ' then', order_of(case))
    ctx.count_cols(np.vstack([gen.col(case, 'kep'), gen.col(case, 'm'), val]))
    lab(ctx, case, e)
    ctx.label(f'set {name}', n)
    ctx.label(f'value as {form}', n)


GIVEN = ['kep', 'kep', 'cart', 'mass later']
FORMS = ['array', 'array', 'scalar', 'npscalar', 'int']
SET = ['period', 'mean_motion', 'velocity']
mass_st = st.one_of(st.sampled_from([0.0, 0.5, 1.0]), gen.fl(0, 3))
common = dict(sys=st.sampled_from(sorted(SYS)), type=st.sampled_from(twin.TYPES), degrees=st.booleans(), mode=st.sampled_from(twin.MODES),
              order=st.integers(0, 13), single=st.booleans())


@st.composite
def cases(draw):
    given = draw(st.sampled_from(GIVEN))
    con = [c for c in CON if c not in ('par', 'midpar', 'highell', 'bighyp', 'nearcirc')] if given == 'cart' else CON
    return dict(cols=draw(gen.rows(gen.orbit(conics=con, unbound_frac=0.9), m=mass_st)), given=given,
                **{k: draw(v) for k, v in common.items()})


@st.composite
def set_cases(draw):
    given = draw(st.sampled_from(GIVEN))
    what = draw(st.sampled_from(SET))
    con = [c for c in CON if c not in ('par', 'midpar', 'highell', 'bighyp', 'nearcirc')] if given == 'cart' else CON
    if what == 'period':
        con = [c for c in con if c != 'par']
    return dict(cols=draw(gen.rows(gen.orbit(conics=con, unbound_frac=0.9), m=mass_st, f=st.one_of(st.sampled_from([1.0, 0.5, 2.0]), gen.fl(0.1, 3)))),
                given=given, set=what, form=draw(st.sampled_from(FORMS)), **{k: draw(v) for k, v in common.items()})


def bulk_common(rng, n, con=None):
    given = GIVEN[rng.integers(4)]
    con = con or CON
    if given == 'cart':
        con = [c for c in con if c not in ('par', 'midpar', 'highell', 'bighyp', 'nearcirc')]
    kep = gen.bulk_orbits(rng, n, conics=con, unbound_frac=0.9)
    if given == 'cart':
        kep[2] = np.where((kep[2] > 0) & (kep[2] < PI), np.clip(kep[2], 0.011, PI - 0.011), kep[2])
        kep[1] = np.where((kep[1] > 0) & (kep[1] < 1), np.clip(kep[1], 0.011, 0.89), np.where(kep[1] > 1, np.clip(kep[1], 1.11, 5.9), 0))
        kep[0] = 10**rng.uniform(-2, 2, n)
        lim = 0.8*np.where(kep[1] > 1, np.arccos(-1/np.maximum(kep[1], 1)), np.inf)
        w = np.mod(kep[5] + PI, 2*PI) - PI
        kep[5] = np.where(kep[1] > 1, np.clip(w, -lim, lim), kep[5])
    return dict(cols=dict(kep=kep, m=np.where(rng.random(n) < .3, 0, rng.uniform(0, 3, n))), given=given,
                sys=sorted(SYS)[rng.integers(4)], type=twin.TYPES[rng.integers(3)], degrees=bool(rng.random() < .5),
                mode=twin.MODES[rng.integers(4)], order=int(rng.integers(14)), single=bool(rng.random() < .3))


def bulk(rng, n):
    case = bulk_common(rng, n)
    if case['given'] == 'kep':
        e = case['cols']['kep'][1]
        close = (rng.random(n) < .15) & (np.abs(e - 1) > 1e-4) & (e > .05)
        # nearly parabolic ellipses and hyperbolas
        case['cols']['kep'][1] = np.where(close, 1 + np.sign(e - 1)*10**rng.uniform(-5.9, -2, n), e)
    return case


def bulk_set(rng, n):
    what = SET[rng.integers(3)]
    con = [c for c in CON if c != 'par'] if what == 'period' else CON
    case = bulk_common(rng, n, con)
    f = np.exp(rng.uniform(-2, 1.2, n))
    if what == 'velocity':
        # stay away from the escape speed
        kep = case['cols']['kep']
        r = tol.f64(ref.semilatus(kep[0], kep[1]))/(1 + kep[1]*np.cos(kep[5]))
        v2 = 2/r - np.where(kep[1] == 1, 0, np.where(kep[1] > 1, -1, 1)/kep[0])
        esc = np.sqrt(2/r/np.maximum(v2, 1e-300))
        f = esc*np.where(rng.random(n) < .6, rng.uniform(.2, .97, n), rng.uniform(1.05, 2.5, n))
        f = np.clip(f, 0.03, 40)
    case['cols']['f'] = f
    case.update(set=what, form='array' if rng.random() < .75 else FORMS[rng.integers(5)])
    if case['form'] != 'array':
        case['cols']['kep'][0] = 1 + 0.2*rng.random(n)
        if what == 'velocity':
            case['cols'] = {k: v[..., :4] for k, v in case['cols'].items()}
    return case


SUBS = [
    Sub('read', run, cases(), (600, 8000), bulk, (300, 9000), 200, shards=(8, 8)),
    Sub('set', run_set, set_cases(), (600, 10000), bulk_set, (500, 15000), 120, shards=(8, 8)),
]
