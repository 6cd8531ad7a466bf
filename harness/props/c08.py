"""C08: degree mode equals radian mode with only the angles rescaled."""
import numpy as np
import pyorb
from ..core import Sub, OutOfDomain, Violation
from .. import funcs, gen, ref, tol
from .. import twin

ID = 'C08'
RULE = ('distinct argument columns (or operation sequences) evaluated in both units with at '
        'least one angle that is neither zero nor a multiple of a quarter turn')


def same_turns(what, deg, rad):
    """wrapped at 360 exactly where wrapped at 2 pi: the same number of whole turns"""
    x, y = np.asarray(deg, dtype=float)/360, np.asarray(rad, dtype=float)/(2*np.pi)
    with np.errstate(all='ignore'):
        away = np.abs(y - np.round(y)) > 1e-5
        bad = away & (np.abs(x - y) > 0.5) & (np.abs(y) < 1e6)
    if bad.any():
        raise Violation(f'{what}: {np.asarray(deg)[bad][:3].tolist()} degrees for {np.asarray(rad)[bad][:3].tolist()} radians')


def run_longitude(case, ctx):
    """orbits with the same elements in both units: every angular reading, whole turns included"""
    k = np.array(case['cols']['kep'], dtype=np.float64)
    gen.require_orbits(k, None, frac=0.95)
    ell = k[1] < 1
    if ((np.abs(k[1] - 1) < 1e-3) & (k[1] != 1)).any():
        raise OutOfDomain('near parabola')
    typ = case['type']
    n = k.shape[1]
    k[5] = tol.f64(ref.from_true(k[5], k[1], typ)) + np.where(ell, 2*np.pi*np.array(case['cols']['turn']), 0)
    if not np.isfinite(k).all() or (np.abs(k[5])[~ell] > 100).any():
        raise OutOfDomain('anomaly')
    kd = k.copy()
    kd[2:] = np.degrees(k[2:])
    o = []
    for deg, kk in ((False, k), (True, kd)):
        x = pyorb.Orbit(M0=1.0, G=1.0, num=n, type=typ, degrees=deg, auto_update=case['auto'], direct_update=case['direct'])
        x.kepler = kk.copy()
        o.append(x)
    R, D = o
    key = f'{typ} orbit, auto={case["auto"]}, direct={case["direct"]}'
    for nm in case['names']:
        r, d = np.array(getattr(R, nm)), np.array(getattr(D, nm))
        if nm == 'kepler':
            same_turns(f'{key}: {nm}', d[2:], r[2:])
        elif nm == 'mean_longitude' or nm in twin.KEP or nm.endswith('anomaly'):
            same_turns(f'{key}: {nm}', d, r)
            dd = np.abs(np.radians(d) - r)
            dd = np.minimum(dd, np.abs(dd - 2*np.pi))
            tol.check(dd <= 1e-9*(1 + np.abs(r))/np.abs(np.where(ell, 1 - k[1], 1)), f'{key}: {nm}', d, r, dd)
        else:
            s = 180/np.pi if nm == 'mean_motion' else 1
            fin = np.isfinite(r)
            if not np.array_equal(fin, np.isfinite(d)):
                raise Violation(f'{key}: {nm} reads {d.tolist()} in degrees, {r.tolist()} in radians')
            with np.errstate(all='ignore'):
                dd = np.abs(d/s - r)/np.maximum(np.abs(r), 1e-300)
            tol.check(~fin | (dd <= 1e-9*(1 + 1/np.abs(np.where(k[1] == 1, 1, 1 - k[1])))**2), f'{key}: {nm}', d, r, dd)
    ctx.count_cols(np.vstack([k, np.full(n, float(len(case['names'])))]), (np.abs(np.sin(2*k[2:])) > 1e-6).any(axis=0))
    ctx.label(key, n)


LONG = ['mean_longitude', 'mean_longitude', 'omega', 'Omega', 'anom', 'kepler', 'true_anomaly', 'eccentric_anomaly', 'mean_anomaly',
        'period', 'mean_motion', 'velocity', 'periapsis', 'apoapsis']


def bulk_longitude(rng, n):
    n = int(rng.choice([1, 1, 2, 3, n]))
    k = gen.bulk_orbits(rng, n, unbound_frac=0.9)
    return dict(cols=dict(kep=k, turn=rng.integers(-2, 3, n).astype(float)*(rng.random() < .5)),
                type=twin.TYPES[rng.integers(3)], auto=bool(rng.random() < .7), direct=bool(rng.random() < .5),
                names=[LONG[j] for j in rng.integers(0, len(LONG), 6)])


def run(case, ctx):
    fn = funcs.BY_NAME[case['fn']]
    args = {k: np.array(case['cols'][k], dtype=np.float64) for k in fn.args}
    dargs = {k: funcs.to_deg(k, v) for k, v in args.items()}
    rargs = {k: funcs.to_rad(k, v) for k, v in dargs.items()}
    funcs.valid(fn, args)
    funcs.valid(fn, rargs)
    n = args[fn.args[0]].shape[-1]
    form = case.get('form', 'array')
    kw = {}
    if fn.name in ('mean_to_eccentric', 'mean_to_true', 'equi_to_cart') and case.get('opts'):
        kw['solver_options'] = dict(tol=1e-13, max_iter=100)

    def f(a, deg):
        k2 = dict(kw)
        if deg is not None:
            k2['degrees'] = deg
        if form == 'array':
            return np.asarray(fn.f(*[a[k].copy() for k in fn.args], **k2))
        if form == '2-D':
            if fn.six or fn.out == 'matrix':
                raise OutOfDomain('fixed shape')
            return np.asarray(fn.f(*[a[k].reshape(2, -1).copy() for k in fn.args], **k2)).reshape(-1)
        out = []
        for j in range(n):
            one = [a[k][..., j].copy() if a[k].ndim > 1 else float(a[k][j]) for k in fn.args]
            out.append(np.asarray(fn.f(*one, **k2)))
        return np.stack(out, axis=-1)

    D = f(dargs, True)
    R = f(rargs, False)
    what = f'{fn.name}(degrees) against radians ({form})'
    funcs.compare(fn, rargs, funcs.out_rad(fn.out, D), R, what)
    rows = funcs.OUT_ANG.get(fn.out)
    if rows is not None:
        x, y = (D, R) if rows is True else (D[rows], R[rows])
        same_turns(what, x, y)
    # the default is radians
    if not np.array_equal(f(rargs, None), R, equal_nan=True):
        raise Violation(f'{fn.name}: the default unit is not radians')
    # outputs that are not angles are untouched by the unit, angles are in [0, 360]
    if fn.out in ('kep', 'kepm'):
        tol.check((D[2:] >= 0).all(axis=0) & (D[2:] <= 360*(1 + 4e-16)).all(axis=0), what + ': range', D)
    if fn.out == 'equi':
        tol.check((D[5] >= 0) & (D[5] <= 360*(1 + 4e-16)), what + ': longitude range', D)
    ang = np.vstack([np.atleast_2d(v)[funcs.ANG[k]] if isinstance(funcs.ANG[k], list) else np.atleast_2d(v)
                     for k, v in args.items() if k in funcs.ANG] or [np.full((1, n), 0.3)])
    ctx.count_cols(np.vstack([np.atleast_2d(v) for v in args.values()]),
                   (np.abs(np.sin(2*ang)) > 1e-6).any(axis=0))
    ctx.label(fn.name, n)


WITH_DEG = [f for f in funcs.FUNCS if f.deg]


def bulk(rng, n):
    fn = WITH_DEG[rng.integers(len(WITH_DEG))]
    form = 'array' if rng.random() < 0.8 else 'scalar'
    if form == 'scalar' or fn.name.startswith('mean_to'):
        n = 20
    if form == 'array' and n % 2 == 0 and rng.random() < .3 and not fn.six and fn.out != 'matrix':
        form = '2-D'
    return dict(cols=fn.make(rng, n), fn=fn.name, form=form, opts=bool(rng.random() < .3))


def run_turns(case, ctx):
    """phases after many turns"""
    k = np.array(case['cols']['kep'], dtype=np.float64)
    turns = np.array(case['cols']['turns'], dtype=np.float64)
    gen.require_orbits(k, None)
    if (k[1] >= 0.97).any() or (np.abs(turns) > 2e4).any():
        raise OutOfDomain('bound orbits')
    n = k.shape[1]
    out = {}
    dt = turns*2*np.pi*np.sqrt(k[0]**3)
    for deg in (False, True):
        o = twin.pyorb.Orbit(1.0, G=1.0, num=n, degrees=deg, type=case['type'], direct_update=bool(case['direct']))
        kk = k.copy()
        kk[5] = tol.f64(ref.from_true(k[5], k[1], case['type']))
        if deg:
            kk[2:] = np.degrees(kk[2:])
        o.kepler = kk
        o.propagate(dt.copy())
        out[deg] = o
    D, R = out[True], out[False]
    r, d = R.mean_anomaly, np.radians(D.mean_anomaly)
    amp = (1 + k[1])**.5/(1 - k[1])**1.5
    lim = 64*2.3e-16*(2*np.pi*np.abs(turns) + np.abs(k[3:]).sum(axis=0) + 10*amp) + 1e-11*(case['type'] != 'mean')*amp
    dd = tol.f64(ref.angdiff(d, r))
    what = f'after {turns.tolist()[:4]} turns, anomaly type {case["type"]}'
    tol.check(dd <= lim, what + ': mean anomaly in degrees against radians', d, r, dd, lim)
    tol.check((R.mean_anomaly >= 0) & (R.mean_anomaly <= 2*np.pi*(1 + 1e-14)) & (D.mean_anomaly >= 0)
              & (D.mean_anomaly <= 360*(1 + 1e-14)), what + ': within one turn', D.mean_anomaly, R.mean_anomaly)
    ctx.count_cols(np.vstack([k, turns]), np.abs(turns) > 1)
    ctx.label('turns', n)


def bulk_turns(rng, n):
    n = int(rng.choice([1, 1, 2, 3, n]))
    k = gen.bulk_orbits(rng, n, conics=['circ', 'nearcirc', 'ell', 'ell'], a_range=(-2, 3))
    return dict(cols=dict(kep=k, turns=rng.choice([-1, 1], n)*10**rng.uniform(-1, 4, n)), type=twin.TYPES[rng.integers(3)],
                direct=bool(rng.random() < .5))


SUBS = [
    Sub('turns', run_turns, None, (0, 0), bulk_turns, (300, 12000), 12, shards=(4, 8)),
    Sub('readings', run_longitude, None, (0, 0), bulk_longitude, (1500, 60000), 12, shards=(2, 8)),
    Sub('functions', run, None, (0, 0), bulk, (4000, 150000), 100, shards=(4, 8)),
    Sub('orbit', twin.run_degrees, twin.cases_degrees, (400, 12000), shards=(4, 8), random_n=(1500, 60000)),
]
