"""C18: rotation matrices are proper rotations with the documented sense."""
import numpy as np
from hypothesis import strategies as st
import pyorb
from pyorb import kepler as K
from ..core import Sub, OutOfDomain, Violation
from .. import gen, ref, tol

ID = 'C18'
RULE = ('distinct angle inputs (angle pairs for the axis matrices, angle triples for the Euler matrix) in which '
        'no angle is a multiple of a quarter turn')
AX = dict(x=0, y=1, z=2)
FN = dict(x=K.rot_mat_x, y=K.rot_mat_y, z=K.rot_mat_z)
KIND = dict(f8=np.float64, f4=np.float32, i8=np.int64, i4=np.int32)
DT = dict(f8=np.float64, f4=np.float32, g=np.longdouble)


def refmat(ax, th):
    return ref.rot(ax, ref.LD(th), np.eye(3, dtype=ref.LD))


def run_axis(case, ctx):
    th, ph = [np.array(case['cols'][k], dtype=np.float64) for k in ('theta', 'phi')]
    if not (np.isfinite(th).all() and np.isfinite(ph).all() and (np.abs(th) < 1e4).all() and (np.abs(ph) < 1e4).all()):
        raise OutOfDomain('angle')
    axis = case['axis']
    dt = DT[case['dtype']]
    f = FN[axis]
    ax = AX[axis]
    eps = float(np.finfo(dt).eps) if case['dtype'] == 'f4' else tol.EPS
    for t, p in zip(th, ph):
        arg = int(t) if case['form'] == 'int' else np.float64(t) if case['form'] == 'np' else float(t)
        t = float(arg)
        kw = {} if case['dtype'] == 'f8' and case.get('default') else dict(dtype=dt)
        R = f(arg, **kw)
        what = f'rot_mat_{axis}({arg!r}, dtype={case["dtype"]})'
        if not isinstance(R, np.ndarray) or R.shape != (3, 3) or R.dtype != dt:
            raise Violation(f'{what}: {type(R)} shape {np.shape(R)} dtype {getattr(R, "dtype", None)}')
        e = np.zeros(3)
        e[ax] = 1
        if not (np.array_equal(R[:, ax], e) and np.array_equal(R[ax], e)):
            raise Violation(f'{what}: axis not fixed: {R.tolist()}')
        L = R.astype(ref.LD)
        lim = 4*eps*(1 + abs(t)*(case['form'] == 'x'))
        if np.abs(L@L.T - np.eye(3)).max() > 8*eps:
            raise Violation(f'{what}: not orthogonal {R.tolist()}')
        det = L[0]@np.cross(L[1], L[2])
        if abs(det - 1) > 8*eps:
            raise Violation(f'{what}: determinant {float(det)}')
        W = refmat(ax, t)
        if np.abs(L - W).max() > lim:
            raise Violation(f'{what}: {R.tolist()} want {W.astype(float).tolist()}')
        # composition
        C = L@f(float(p), dtype=dt).astype(ref.LD)
        W2 = f(t + float(p), dtype=dt).astype(ref.LD)
        if np.abs(C - W2).max() > 16*eps + 4*tol.EPS*(abs(t) + abs(p)):
            raise Violation(f'{what}: composition with {p}: {C.astype(float).tolist()} '
                            f'against {W2.astype(float).tolist()}')
        if f(arg, **kw) is R or np.shares_memory(f(arg, **kw), R):
            raise Violation(f'{what}: shared result')
    ctx.count_cols(np.vstack([th, ph]), (np.abs(np.sin(2*th)) > 1e-9) & (np.abs(np.sin(2*ph)) > 1e-9))
    ctx.label(f'{axis}/{case["dtype"]}', th.size)


def run_euler(case, ctx):
    A = {k: np.array(case['cols'][k], dtype=np.float64) for k in ('inc', 'omega', 'Omega')}
    n = A['inc'].size
    if n == 0 or not all(np.isfinite(v).all() and (np.abs(v) < 1e4).all() for v in A.values()):
        raise OutOfDomain('angle')
    vec = case['vec']
    args = {}
    kind = case.get('kind') or {}
    for k, v in A.items():
        t = kind.get(k, 'f8')
        if t[0] == 'i':
            v = A[k] = np.round(v)
        elif t == 'f4':
            v = A[k] = v.astype(np.float32).astype(np.float64)
        if k in vec:
            args[k] = v.astype(KIND[t])
        elif t[0] == 'i':
            A[k] = np.full(n, v[0])
            args[k] = int(v[0])
        else:
            A[k] = np.full(n, v[0])
            args[k] = float(v[0])
    if not vec:
        n = 1
        A = {k: v[:1] for k, v in A.items()}
    deg = bool(case['degrees'])
    kw = dict(degrees=True) if deg else {} if case.get('default') else dict(degrees=False)
    if case.get('kw'):
        R = K.euler_rotation_matrix(**args, **kw)
    else:
        R = K.euler_rotation_matrix(args['inc'], args['omega'], args['Omega'], **kw)
    what = f'euler_rotation_matrix({args if n < 3 else "..."}, {kw})'
    want = (3, 3, n) if vec else (3, 3)
    if R.shape != want or R.dtype != np.float64:
        raise Violation(f'{what}: shape {R.shape}, dtype {R.dtype}, want {want}')
    R = R.reshape(3, 3, n)
    f = ref.PI/180 if deg else ref.LD(1)
    L = {k: ref.ld(v)*f for k, v in A.items()}
    cols = []
    for j in range(3):
        v = np.zeros((3, n), dtype=ref.LD)
        v[j] = 1
        v = ref.rot(2, L['omega'], v)
        v = ref.rot(0, L['inc'], v)
        v = ref.rot(2, L['Omega'], v)
        cols.append(v)
    W = np.stack(cols, axis=1)
    err = tol.f64(np.abs(R - W).max(axis=(0, 1)))
    # single-precision angles: their sine and cosine may be single too
    low = any(kind.get(k) == 'f4' for k in vec)
    eps = float(np.finfo(np.float32).eps) if low else tol.EPS
    lim = 16*eps*(1 + sum(np.abs(tol.f64(v)) for v in L.values())*deg)
    tol.check(err <= lim, what + ': product of rotations', R.reshape(9, n), tol.f64(W).reshape(9, n), err, lim)
    # against the library's own axis matrices
    for j in range(min(n, 5)):
        P = K.rot_mat_z(float(L['Omega'][j]))@K.rot_mat_x(float(L['inc'][j]))@K.rot_mat_z(float(L['omega'][j]))
        if np.abs(P - R[..., j]).max() > lim[j] + 32*eps:
            raise Violation(f'{what}: {R[..., j].tolist()} is not the product {P.tolist()}')
    ang = np.vstack([tol.f64(v) for v in L.values()])
    ctx.count_cols(np.vstack([ang, np.full(n, float(len(vec)))]), (np.abs(np.sin(2*ang)) > 1e-9).all(axis=0))
    ctx.label('vector:' + ''.join(sorted(vec)), n)
    ctx.label('degrees' if deg else 'radians', n)
    for t in kind.values():
        if t != 'f8':
            ctx.label(f'an angle as {t}', n)


VECS = [[], ['inc'], ['omega'], ['Omega'], ['inc', 'omega'], ['inc', 'Omega'], ['omega', 'Omega'],
        ['inc', 'omega', 'Omega']]
ang = st.one_of(gen.angle, gen.fl(-500, 500), st.sampled_from([90.0, 45.0, 180.0, 360.0, -90.0]))


kinds = st.sampled_from(['f8', 'f8', 'f8', 'i8', 'i4', 'f4'])


@st.composite
def axis_cases(draw):
    n = draw(st.integers(1, 3))
    form = draw(st.sampled_from(['float', 'float', 'np', 'int']))
    return dict(cols=dict(theta=[draw(ang) for _ in range(n)], phi=[draw(ang) for _ in range(n)]),
                axis=draw(st.sampled_from('xyz')), dtype=draw(st.sampled_from(['f8', 'f8', 'f4', 'g'])),
                form=form, default=draw(st.booleans()))


@st.composite
def euler_cases(draw):
    n = draw(st.integers(1, 4))
    return dict(cols={k: [draw(ang) for _ in range(n)] for k in ('inc', 'omega', 'Omega')},
                vec=draw(st.sampled_from(VECS)), degrees=draw(st.booleans()), kw=draw(st.booleans()),
                default=draw(st.booleans()),
                kind={k: draw(kinds) for k in ('inc', 'omega', 'Omega')})


def bulk_axis(rng, n):
    return dict(cols=dict(theta=gen.bulk_angle(rng, n)*rng.choice([1, 1, 40], n), phi=gen.bulk_angle(rng, n)),
                axis='xyz'[rng.integers(3)], dtype=['f8', 'f4'][rng.integers(2)], form='float')


def bulk_euler(rng, n):
    deg = bool(rng.random() < .5)
    s = 180/np.pi if deg else 1
    return dict(cols={k: gen.bulk_angle(rng, n)*s for k in ('inc', 'omega', 'Omega')},
                vec=VECS[rng.integers(len(VECS))], degrees=deg,
                kind={k: ['f8', 'f8', 'f8', 'i8', 'i4', 'f4'][rng.integers(6)] for k in ('inc', 'omega', 'Omega')})


SUBS = [
    Sub('axis', run_axis, axis_cases(), (500, 20000), bulk_axis, (120, 6000), 100, shards=(4, 8)),
    Sub('euler', run_euler, euler_cases(), (600, 20000), bulk_euler, (500, 20000), 200, shards=(4, 8)),
]
