"""Behaviour-preserving rewrites of the code under test, for trying that the
checks stay quiet on them.  refactor.py DEST [kepler] [orbit] [unit]: makes DEST
a copy of /repo with the named rewrites (default all) applied."""
import os
import shutil
import sys

dest = sys.argv[1]
what = sys.argv[2:] or ['kepler', 'orbit', 'unit']   # or kepler2, orbit2
shutil.rmtree(dest, ignore_errors=True)
shutil.copytree('/repo', dest, symlinks=True)


def edit(path, pairs):
    p = f'{dest}/{path}'
    s = open(p).read()
    for old, new in pairs:
        n = s.count(old)
        if n < 1:
            print('NOT FOUND in', path, ':', old.splitlines()[0])
        s = s.replace(old, new)
    open(p, 'w').write(s)


def func(path, name, body, indent=''):
    """Replace the statements of def `name` (after its docstring) by `body`."""
    import ast
    p = f'{dest}/{path}'
    s = open(p).read()
    tree = ast.parse(s)
    for node in ast.walk(tree):
        if isinstance(node, ast.FunctionDef) and node.name == name and not node.decorator_list:
            break
    else:
        print('NO FUNCTION', name)
        return
    stmts = node.body
    doc = isinstance(stmts[0], ast.Expr) and isinstance(getattr(stmts[0], 'value', None), ast.Constant)
    first = stmts[1 if doc else 0]
    lines = s.splitlines(keepends=True)
    pad = ' ' * first.col_offset
    new = ''.join(pad + x + '\n' if x.strip() else '\n' for x in body.strip('\n').splitlines())
    lines[first.lineno - 1:node.end_lineno] = [new]
    open(p, 'w').write(''.join(lines))


K = 'pyorb/kepler.py'
if 'kepler' in what:
    edit(K, [('def true_to_eccentric(', '''def _common(x, e):
    x_arr, e_arr = isinstance(x, np.ndarray), isinstance(e, np.ndarray)
    if not (x_arr or e_arr):
        return x, e, False
    if not x_arr:
        x = np.full(e.shape, 1, dtype=e.dtype)*x
    elif not e_arr:
        e = np.full(x.shape, 1, dtype=x.dtype)*e
    if x.shape != e.shape:
        raise TypeError('Input dimensions does not agree')
    return x, e, True


def true_to_eccentric(''')])
    func(K, 'true_to_eccentric', '''
_nu = np.radians(nu) if degrees else nu
_nu, e, arrays = _common(_nu, e)

def elliptic(nu, e):
    half = 0.5*nu
    ret = 2.0*np.arctan2(np.sqrt(1.0 - e)*np.tan(half), np.sqrt(1.0 + e))
    return np.mod(2.0*np.pi + ret, 2.0*np.pi)

def hyperbolic(nu, e):
    return 2.0*np.arctanh(np.tan(nu/2)*np.sqrt((e - 1.0)/(1.0 + e)))

if arrays:
    E = np.full(_nu.shape, np.nan, dtype=_float_dtype(_nu))
    for sel, form in ((e < 1, elliptic), (e > 1, hyperbolic), (e == 1, lambda x, e: np.tan(x/2))):
        E[sel] = form(_nu[sel], e[sel])
else:
    if e < 1:
        E = elliptic(_nu, e)
    elif e == 1:
        E = np.tan(_nu/2)
    else:
        E = hyperbolic(_nu, e)
return np.degrees(E) if degrees else E
''')
    func(K, 'eccentric_to_true', '''
_E = np.radians(E) if degrees else E
_E, e, arrays = _common(_E, e)
if arrays:
    nu = np.full(_E.shape, np.nan, dtype=_float_dtype(_E))
    eli, per, hyp = e < 1, e == 1, e > 1
    nu[per] = 2*np.arctan(_E[per])
    nu[eli] = 2*np.arctan(np.sqrt((1.0 + e[eli])/(1.0 - e[eli]))*np.tan(_E[eli]/2))
    nu[hyp] = 2*np.arctan(np.tanh(_E[hyp]/2)*np.sqrt((e[hyp] + 1.0)/(e[hyp] - 1.0)))
else:
    if e == 1:
        t = _E
    elif e > 1:
        t = np.tanh(_E/2)*np.sqrt((e + 1.0)/(e - 1.0))
    else:
        t = np.sqrt((1.0 + e)/(1.0 - e))*np.tan(_E/2)
    nu = 2*np.arctan(t)
nu = np.mod(nu + 2.*np.pi, 2.*np.pi)
return np.degrees(nu) if degrees else nu
''')
    func(K, 'eccentric_to_mean', '''
_E = np.radians(E) if degrees else E
_E, e, arrays = _common(_E, e)
if arrays:
    M = np.full(_E.shape, np.nan, dtype=_float_dtype(_E))
    hyp, per, eli = e > 1, e == 1, e < 1
    M[eli] = _E[eli] - np.sin(_E[eli])*e[eli]
    M[hyp] = np.sinh(_E[hyp])*e[hyp] - _E[hyp]
    M[per] = _E[per]*(1.0 + _E[per]**2/3.0)
elif e < 1:
    M = _E - e*np.sin(_E)
elif e > 1:
    M = e*np.sinh(_E) - _E
else:
    M = _E + _E*_E*_E/3.0
if degrees:
    return np.degrees(M)
return M
''')
    func(K, 'true_to_mean', '''
if not degrees:
    return eccentric_to_mean(true_to_eccentric(nu, e), e)
return np.degrees(eccentric_to_mean(true_to_eccentric(np.radians(nu), e), e))
''')
    func(K, 'orbital_period', 'return 2.0*np.pi*np.sqrt(a**3.0/mu)')
    func(K, 'semi_major_axis', 'return np.cbrt(mu*(P/np.pi)**2/4.0)')
    func(K, 'elliptic_radius', 'return a - a*e*np.cos(np.radians(E) if degrees else E)')
    func(K, 'hyperbolic_radius', '''
cos_nu = np.cos(np.radians(nu) if degrees else nu)
return a*((e - 1.0)*(e + 1.0))/(1.0 + e*cos_nu)
''')
    func(K, 'parabolic_radius', 'return 2.0*q/(1.0 + np.cos(np.radians(nu) if degrees else nu))')
    func(K, 'orbital_distance', '''
cos_nu = np.cos(np.radians(nu) if degrees else nu)
return h**2.0/(mu + mu*e*cos_nu)
''')
    func(K, 'orbit_total_angular_momentum', 'return np.sqrt(mu*a*((1.0 - e)*(1.0 + e)))')
    func(K, 'orbital_speed', 'return np.sqrt(2.0*mu/r - mu/a)')
    func(K, 'laguerre_solve_kepler', '''
degree = float(degree)
n1 = degree - 1.0
hyp = e > 1

def evaluate(E):
    if hyp:
        s, c = e*np.sinh(E), e*np.cosh(E)
        return M + E - s, 1.0 - c, -s
    s, c = e*np.sin(E), e*np.cos(E)
    return M - E + s, c - 1.0, -s

E = E0
it_num = 0
f, fp, fpp = evaluate(E)
while not np.abs(f) < tol and not np.isnan(f):
    it_num += 1
    root = np.sqrt(np.abs(n1**2*fp**2 - degree*n1*f*fpp))
    big, small = fp + root, fp - root
    denom = big if np.abs(big) > np.abs(small) else small
    E = E - degree*f/denom
    f, fp, fpp = evaluate(E)
    if it_num >= max_iter:
        break
return E, it_num
''')
    func(K, 'kepler_guess', '''
M, e, arrays = _common(M, e)
if not arrays:
    return _get_hyperbolic_kepler_guess(M, e) if e > 1 else _get_kepler_guess(M, e)
E0 = np.empty(M.shape, dtype=_float_dtype(M))
for ind in np.ndindex(M.shape):
    guess = _get_hyperbolic_kepler_guess if e[ind] > 1 else _get_kepler_guess
    E0[ind] = guess(M[ind], e[ind])
return E0
''')
    func(K, 'mean_to_eccentric', '''
solver_options = {} if solver_options is None else solver_options
if not isinstance(M, np.ndarray) and not isinstance(e, np.ndarray) and e == 0:
    return M

def solve(M, e):
    if e == 1:
        return _solve_parabolic_kepler(M)
    guess = _get_hyperbolic_kepler_guess if e > 1 else _get_kepler_guess
    return laguerre_solve_kepler(guess(M, e), M, e, **solver_options)[0]

_M = np.radians(M) if degrees else M
_M, e, arrays = _common(_M, e)
if arrays:
    E = np.empty(_M.shape, dtype=_float_dtype(_M))
    for ind in np.ndindex(_M.shape):
        E[ind] = solve(_M[ind], e[ind])
    if not E.size:
        return E
else:
    E = solve(_M, e)
return np.degrees(E) if degrees else E
''')
    func(K, 'mean_to_true', '''
_M = np.radians(M) if degrees else M
nu = eccentric_to_true(mean_to_eccentric(_M, e, solver_options=solver_options), e)
return np.degrees(nu) if degrees else nu
''')
    func(K, 'stumpff2', '''
x = _as_float(x)
c2 = np.full_like(x, 0.5)
for sign, fun in ((1, np.sin), (-1, np.sinh)):
    inds = sign*x > 0
    half = np.sqrt(sign*x[inds])/2
    c2[inds] = 0.5*(fun(half)/half)**2
c2[np.isnan(x)] = np.nan
return c2[()]
''')
    func(K, 'stumpff1', '''
x = _as_float(x)
c1 = np.ones_like(x)
pos, neg = x > 0, x < 0
s = np.sqrt(np.abs(x))
c1[pos] = np.sin(s[pos])/s[pos]
c1[neg] = np.sinh(s[neg])/s[neg]
return c1[()]
''')
    func(K, 'kep_to_equi', '''
to_rad = np.radians if degrees else (lambda x: x)
full = 360.0 if degrees else _2pi
varpi = kep[K_om, ...] + kep[K_OM, ...]
elems = np.empty(kep.shape, dtype=_float_dtype(kep))
elems[E_a, ...] = kep[K_a, ...]
elems[E_h, ...] = np.sin(to_rad(varpi))*kep[K_e, ...]
elems[E_k, ...] = np.cos(to_rad(varpi))*kep[K_e, ...]
t = np.tan(to_rad(0.5*kep[K_i, ...]))
elems[E_p, ...] = t*np.sin(to_rad(kep[K_OM, ...]))
elems[E_q, ...] = t*np.cos(to_rad(kep[K_OM, ...]))
elems[E_lam, ...] = np.mod(varpi + kep[K_nu, ...] + full, full)
return elems
''')
    edit(K, [
        ('rn = np.linalg.norm(r, axis=0)', 'rn = np.sqrt(np.sum(r**2, axis=0))'),
        ('epsilon = vn**2*0.5 - mu/rn', 'epsilon = 0.5*vn**2 - mu/rn'),
        ('e = 1.0/mu*((vn**2 - mu/rn)*r - (rn*vr)*v)', 'e = ((vn**2 - mu/rn)*r - (rn*vr)*v)/mu'),
        ('h = np.cross(r, v, axisa=0, axisb=0, axisc=0)', '''h = np.empty_like(r)
    h[0, :] = r[1, :]*v[2, :] - r[2, :]*v[1, :]
    h[1, :] = r[2, :]*v[0, :] - r[0, :]*v[2, :]
    h[2, :] = r[0, :]*v[1, :] - r[1, :]*v[0, :]'''),
        ('n[:, ig] = np.cross(ez, h[:, ig], axisa=0, axisb=0, axisc=0)', '''n[0, ig] = -h[1, ig]
    n[1, ig] = h[0, ig]
    n[2, ig] = 0'''),
        ('''    cos_om[cos_om > 1.0] = 1.0
    cos_om[cos_om < -1.0] = -1.0
''', '    cos_om = np.clip(cos_om, -1.0, 1.0)\n'),
        ('''    cos_nu[cos_nu > 1.0] = 1.0
    cos_nu[cos_nu < -1.0] = -1.0
''', '    cos_nu = np.clip(cos_nu, -1.0, 1.0)\n'),
        ('''    rx = rn*np.cos(nu)
    ry = rn*np.sin(nu)
    r = np.zeros((3, kep.shape[1]), dtype=kep.dtype)
    r[0, :] = R[0, 0, ...]*rx + R[0, 1, ...]*ry
    r[1, :] = R[1, 0, ...]*rx + R[1, 1, ...]*ry
    r[2, :] = R[2, 0, ...]*rx + R[2, 1, ...]*ry

    vn = mu/h
    vx = -vn*np.sin(nu)
    vy = vn*(e + np.cos(nu))

    v = np.zeros((3, kep.shape[1]), dtype=kep.dtype)
    v[0, :] = R[0, 0, ...]*vx + R[0, 1, ...]*vy
    v[1, :] = R[1, 0, ...]*vx + R[1, 1, ...]*vy
    v[2, :] = R[2, 0, ...]*vx + R[2, 1, ...]*vy

    x[:3, :] = r
    x[3:, :] = v
''', '''    cos_nu, sin_nu = np.cos(nu), np.sin(nu)
    planar = np.array([rn*cos_nu, rn*sin_nu])
    x[:3, :] = np.sum(R[:, :2, ...]*planar[None, :, :], axis=1)
    planar = np.array([-(mu/h)*sin_nu, (mu/h)*(e + cos_nu)])
    x[3:, :] = np.sum(R[:, :2, ...]*planar[None, :, :], axis=1)
'''),
    ])
    func(K, 'euler_rotation_matrix', '''
size = ()
for x in (inc, omega, Omega):
    if isinstance(x, np.ndarray):
        size = (x.size,)
        break
R = np.empty((3, 3) + size, dtype=np.float64)
if degrees:
    inc, omega, Omega = np.radians(inc), np.radians(omega), np.radians(Omega)
co, so, cO, sO, ci, si = (np.cos(omega), np.sin(omega), np.cos(Omega),
                          np.sin(Omega), np.cos(inc), np.sin(inc))
rows = (
    (cO*co - sO*so*ci, -cO*so - sO*co*ci, sO*si),
    (sO*co + cO*so*ci, -sO*so + cO*co*ci, -cO*si),
    (so*si, co*si, ci),
)
for j in range(3):
    for k in range(3):
        R[j, k, ...] = rows[j][k]
return R
''')

O = 'pyorb/orbit.py'
if 'orbit' in what:
    p = f'{dest}/{O}'
    s = open(p).read()
    # one helper per side instead of the repeated setter bodies
    for side, other, calc, ro, cls in (('cart', 'kep', 'calculate_kepler', 'cartesian_read_only', 'Cartesian'),
                                       ('kep', 'cart', 'calculate_cartesian', 'kepler_read_only', 'Kepler')):
        for ind in ('0', '1', '2', '3', '4', '5', ':3', '3:'):
            old = f'''        if self.{ro}:
            raise AttributeError('Cannot update read only {cls} elements')
        self._{side}_check()
        self._{side}[{ind}, :] = value
        self.__{side}_calculated[:] = True

        if self.direct_update:
            self.{calc}()
        else:
            self.__{other}_calculated[:] = False
'''
            sl = {'​': ''}.get(ind, ind)
            sl = 'slice(None, 3)' if ind == ':3' else 'slice(3, None)' if ind == '3:' else ind
            if s.count(old) < 1:
                print('NOT FOUND setter', side, ind)
            s = s.replace(old, f'        self._assign_{side}({sl}, value)\n')
        s = s.replace('    @property\n    def num(self):', f'''    def _assign_{side}(self, row, value):
        if self.{ro}:
            raise AttributeError('Cannot update read only {cls} elements')
        self._{side}_check()
        self._{side}[row, :] = value
        self.__{side}_calculated[:] = True
        if not self.direct_update:
            self.__{other}_calculated[:] = False
            return
        self.{calc}()

    @property
    def num(self):''', 1)
    open(p, 'w').write(s)
    edit(O, [
        ('self.G*(self.M0 + self.m)', 'self._mu()'),
        ('    @property\n    def num(self):', '''    def _mu(self, inds=None):
        m = self.m if inds is None else self.m[inds]
        return self.G*(self.M0 + m)

    @property
    def num(self):'''),
        ('mu=self.G*(self.M0 + self.m[do_inds])', 'mu=self._mu(do_inds)'),
        ('mu = self.G*(self.M0 + self.m[do_inds])', 'mu = self._mu(do_inds)'),
        ('''            if val == 'true':
                self._kep[5, :] = self.true_anomaly
            elif val == 'eccentric':
                self._kep[5, :] = self.eccentric_anomaly
            elif val == 'mean':
                self._kep[5, :] = self.mean_anomaly
''', "            self._kep[5, :] = getattr(self, val + '_anomaly')\n"),
        ('''        if self.type == 'true':
            kep_tmp = self._kep[:, do_inds]
        else:
            kep_tmp = self._kep[:, do_inds]
            self.calc_true_anomaly(do_inds)
''', '''        kep_tmp = self._kep[:, do_inds]
        if self.type != 'true':
            self.calc_true_anomaly(do_inds)
'''),
        ('return self.mean_anomaly + self.omega + self.Omega', 'return self.omega + self.Omega + self.mean_anomaly'),
        ('return (1.0 + self.e)*self.a', '''a, e = self.a, self.e
        return a + a*e'''),
        ('        return (self[ind] for ind in range(self.num))', '''        def members():
            ind = 0
            while ind < self.num:
                yield self[ind]
                ind += 1
        return members()'''),
    ])
    func(O, 'propagate', '''
full_turn = 360.0 if self.degrees else 2*np.pi
M = self.mean_anomaly + dt*self.mean_motion
bound = self.e < 1
M[bound] = M[bound] % full_turn
self.mean_anomaly = M
if self.direct_update:
    self.calculate_cartesian()
''')
    func(O, 'delete', '''
keep = np.full((self.num,), True, dtype=np.bool_)
keep = np.delete(np.arange(self.num), inds)
self.m = self.m[keep]
self._cart = self._cart[:, keep]
self._kep = self._kep[:, keep]
for name in ('_true_anomaly', '_eccentric_anomaly', '_mean_anomaly'):
    setattr(self, name, getattr(self, name)[keep])
self.__cart_calculated, self.__kep_calculated = (
    self.__cart_calculated[keep], self.__kep_calculated[keep])
''')
    func(O, 'allocate', '''
def empty(*shape):
    return np.full(shape, np.nan, dtype=self.dtype)
self.m = np.zeros((num,), dtype=self.dtype)
self._cart, self._kep = empty(6, num), empty(6, num)
self._true_anomaly = empty(num)
self._eccentric_anomaly = empty(num)
self._mean_anomaly = empty(num)
self.__kep_calculated = np.zeros((num,), dtype=np.bool_)
self.__cart_calculated = np.zeros((num,), dtype=np.bool_)
''')

if 'unit' in what:
    func('pyorb/unit.py', 'get_G', '''
def factor(kind, unit, table, clean):
    if isinstance(unit, float):
        return unit
    if not isinstance(unit, str):
        raise TypeError(f'Type "{type(unit)}" for {kind} not supported')
    try:
        return table[clean(unit)]
    except KeyError:
        raise TypeError(f'Unit "{unit}" not recognized')

def squeeze(name):
    for char in '_ -':
        name = name.replace(char, '')
    return name.lower()

_mass = factor('mass', mass, {'kg': 1.0, 'g': 1e-3, 'msun': M_sol, 'msol': M_sol}, squeeze)
_time = factor('time', time, {'s': 1.0, 'h': 3600.0, 'd': 86400.0, 'y': 86400.0*365.25}, str.lower)
_length = factor('length', length, {'m': 1.0, 'cm': 1e-2, 'km': 1e3, 'au': AU, 'pc': 3.08567758149137e16}, str.lower)
return G_SI*_mass*(_time/_length)**2/_length
''')
    edit('pyorb/unit.py', [('''            if not kwargs.pop('degrees', degrees):
                return func(*args, **kwargs)

            args = list(args)
            if in_arg_inds is not None:
                for ind in in_arg_inds:
                    if ind >= len(args):
                        # passed by keyword or left at its default
                        continue
                    args[ind] = np.radians(args[ind])
            if in_arg_keys is not None:
                for key in in_arg_keys:
                    if key in kwargs:
                        kwargs[key] = np.radians(kwargs[key])
''', '''            use_degrees = kwargs.pop('degrees', degrees)
            if not use_degrees:
                return func(*args, **kwargs)
            inds = in_arg_inds or []
            args = [np.radians(x) if j in inds else x for j, x in enumerate(args)]
            kwargs = {k: np.radians(v) if k in (in_arg_keys or []) else v for k, v in kwargs.items()}
''')])
    edit('pyorb/const.py', [('''        if name in self.__dict__:
            if self.__dict__[name] == value:
                return
            raise self.ConstError("Can't rebind const({})".format(name))
        self.__dict__[name] = value
''', '''        known = self.__dict__
        if name not in known:
            known[name] = value
        elif not known[name] == value:
            raise self.ConstError("Can't rebind const({})".format(name))
''')])

if 'kepler2' in what:
    func(K, 'equi_to_kep', '''
full = 360.0 if degrees else _2pi
kep = np.empty(equi.shape, dtype=_float_dtype(equi))
out = np.degrees if degrees else np.asarray
h, k, p, q, lam = (equi[j, ...] for j in (E_h, E_k, E_p, E_q, E_lam))
kep[K_a, ...] = equi[E_a, ...]
kep[K_e, ...] = np.hypot(h, k)
kep[K_i, ...] = out(2*np.arctan(np.hypot(p, q)))
node = out(np.arctan2(p, q))
circular = ~(kep[K_e, ...] > e_lim)
varpi = np.where(circular, node, out(np.arctan2(h, k)))
kep[K_OM, ...] = node
kep[K_om, ...] = np.where(circular, 0, varpi - node)
kep[K_nu, ...] = lam - varpi
kep[K_om:, ...] = np.mod(kep[K_om:, ...] + full, full)
return kep
''')
    func(K, 'kep_to_cart', '''
if not isinstance(kep, np.ndarray):
    raise TypeError(f'Input type {type(kep)} not supported: must be {np.ndarray}')
if kep.shape[0] != 6:
    raise ValueError(f'Input data must have at least 6 variables along axis 0: input shape is {kep.shape}')
dtype = _float_dtype(kep)
vector = kep.ndim < 2
cols = np.array(kep, dtype=dtype, order='C').reshape(6, -1) if vector else np.array(kep, dtype=dtype, order='C')
a, e, inc, omega, Omega, nu = cols
if degrees:
    inc, omega, Omega, nu = (np.radians(x) for x in (inc, omega, Omega, nu))
if not isinstance(mu, np.ndarray):
    mu = np.full((cols.shape[1],), mu, dtype=np.float64)
# semi-latus rectum
p = np.where(e == 1, 2*a, a*np.abs((1.0 - e)*(1.0 + e)))
rn = p/(1 + e*np.cos(nu))
vn = np.sqrt(mu/p)
R = euler_rotation_matrix(inc, omega, Omega)
P, Q = R[:, 0], R[:, 1]
x = np.empty(cols.shape, dtype=dtype)
x[:3] = P*(rn*np.cos(nu)) + Q*(rn*np.sin(nu))
x[3:] = Q*(vn*(e + np.cos(nu))) - P*(vn*np.sin(nu))
return x[:, 0].copy() if vector else x
''')
    func(K, 'euler_rotation_matrix', '''
arrs = [x for x in (inc, omega, Omega) if isinstance(x, np.ndarray)]
R = np.empty((3, 3, arrs[0].size) if arrs else (3, 3), dtype=np.float64)
if degrees:
    inc, omega, Omega = (np.radians(x) for x in (inc, omega, Omega))
(c1, c2, c3), (s1, s2, s3) = (
    [f(x) for x in (Omega, inc, omega)] for f in (np.cos, np.sin))
a, b, c, d = c2*s1, c1*c2, c1*c3, s1*s3
R[0, 0, ...], R[0, 1, ...], R[0, 2, ...] = c - a*s3, -(c1*s3) - a*c3, s1*s2
R[1, 0, ...], R[1, 1, ...], R[1, 2, ...] = c3*s1 + b*s3, b*c3 - d, -(c1*s2)
R[2, 0, ...], R[2, 1, ...], R[2, 2, ...] = s2*s3, s2*c3, c2
return R
''')
    edit(K, [
        ('    vr = np.sum((r/rn)*v, axis=0)\n', '    vr = np.einsum('+"'ij,ij->j'"+', r/rn, v)\n'),
        ('    o[0, :] = np.abs(mu/(2.0*epsilon))\n', '    o[0, :] = mu/np.abs(2.0*epsilon)\n'),
        ('    o[2, :] = np.arccos(h[2, :]/hn)\n', '    o[2, :] = np.arctan2(np.hypot(h[0, :], h[1, :]), h[2, :])\n'),
        ('''    # first case: e and n vector angle
    ez_neg = np.logical_and(e[2, :] < 0.0, eg_ig)
    o[3, ez_neg] = 2.0*np.pi - o[3, ez_neg]

    # second case: ex component
    # prograde
    ey_neg = np.logical_and(o[2, :] < np.pi*0.5, eg_il)
    ey_neg2 = np.logical_and(ey_neg, e[1, :] < 0.0)
    o[3, ey_neg2] = 2.0*np.pi - o[3, ey_neg2]

    # retrograde
    ey_neg = np.logical_and(o[2, :] > np.pi*0.5, eg_il)
    ey_neg2 = np.logical_and(ey_neg, e[1, :] >= 0.0)
    o[3, ey_neg2] = 2.0*np.pi - o[3, ey_neg2]
''', '''    prograde = o[2, :] < np.pi*0.5
    flip = (eg_ig & (e[2, :] < 0.0)) | (eg_il & prograde & (e[1, :] < 0.0))
    flip |= eg_il & (o[2, :] > np.pi*0.5) & (e[1, :] >= 0.0)
    o[3, :] = np.where(flip, 2.0*np.pi - o[3, :], o[3, :])
'''),
        ('''    # elliptical and hyperbolic
    tmp_ind_ = np.logical_and(vr < 0.0, eg)
    o[5, tmp_ind_] = 2.0*np.pi - o[5, tmp_ind_]

    # circular and inclined
    tmp_ind_ = np.logical_and(r[2, :] < 0.0, el_ig)
    o[5, tmp_ind_] = 2.0*np.pi - o[5, tmp_ind_]

    # circular and planar
    # prograde
    tmp_ind_ = np.logical_and(o[2, :] < np.pi*0.5, el_il)
    tmp_ind2_ = np.logical_and(tmp_ind_, r[1, :] < 0.0)
    o[5, tmp_ind2_] = 2.0*np.pi - o[5, tmp_ind2_]
''', '''    flip = (eg & (vr < 0.0)) | (el_ig & (r[2, :] < 0.0))
    flip |= el_il & prograde & (r[1, :] < 0.0)
    o[5, flip] = 2.0*np.pi - o[5, flip]
'''),
        ('''    if M > np.pi:
        _M = 2.0*np.pi - M
    else:
        _M = M

    if _M < 0.25:
        E0 = _M + e*np.sin(_M)/(1.0 - np.sin(_M + e) + np.sin(_M))
    elif _M < 2.0:
        E0 = _M + e
    else:
        E0 = _M + (e*(np.pi - _M))/(1.0 + e)

    if M > np.pi:
        E0 = 2.0*np.pi - E0

    return E0
''', '''    if M > np.pi:
        return 2.0*np.pi - _get_kepler_guess_half(2.0*np.pi - M, e)
    return _get_kepler_guess_half(M, e)


def _get_kepler_guess_half(M, e):
    if M < 0.25:
        return M + e*np.sin(M)/(1.0 + np.sin(M) - np.sin(M + e))
    if M < 2.0:
        return M + e
    return M + e*(np.pi - M)/(1.0 + e)
'''),
    ])
    func(K, 'cart_to_equi', '''
kep = cart_to_kep(cart, mu, degrees)
flat = kep.reshape(6, -1)
for col in range(flat.shape[1]):
    if flat[K_e, col] > e_lim:
        flat[K_nu, col] = true_to_mean(flat[K_nu, col], flat[K_e, col], degrees=degrees)
return kep_to_equi(flat.reshape(kep.shape), degrees=degrees)
''')
    func(K, 'kep_equivalent', '''
if kep1.ndim > 1 or kep2.ndim > 1:
    raise ValueError('Only vector inputs for now')

def same(x, y):
    return bool(np.all(np.logical_or(np.isclose(x, y), np.isclose(y, x))))

if same(kep1, kep2):
    return True
if not (same(kep1[K_a], kep2[K_a]) and same(kep1[K_e], kep2[K_e])):
    return False
inclined = max(kep1[K_i], kep2[K_i]) > i_lim
if inclined:
    if not (same(kep1[K_i], kep2[K_i]) and same(kep1[K_OM], kep2[K_OM])):
        return False
    peri = [kep1[K_om], kep2[K_om]]
else:
    peri = [k[K_om] + k[K_OM] for k in (kep1, kep2)]
if max(kep1[K_e], kep2[K_e]) < e_lim:
    return same(peri[0] + kep1[K_nu], peri[1] + kep2[K_nu])
return same(*peri) and same(kep1[K_nu], kep2[K_nu])
''')

if 'orbit2' in what:
    func(O, '_cart_check', '''
if self.direct_update or not self.auto_update:
    return
todo = ~self.__cart_calculated
if todo.any():
    self.calculate_cartesian(todo)
''')
    func(O, '_kep_check', '''
if self.direct_update or not self.auto_update:
    return
todo = ~self.__kep_calculated
if todo.any():
    self.calculate_kepler(todo)
''')
    func(O, 'calculate_kepler', '''
todo = np.zeros(self.num, dtype=bool)
todo[inds] = True
todo &= ~np.isnan(self._cart).any(axis=0)
if not todo.any():
    return
kep = functions.cart_to_kep(
    self._cart[:, todo], mu=self.G*(self.M0 + self.m[todo]), degrees=self.degrees)
convert = {'eccentric': functions.true_to_eccentric, 'mean': functions.true_to_mean}.get(self.type)
if convert is not None:
    kep[5, :] = convert(kep[5, :], kep[1, :], degrees=self.degrees)
self._kep[:, todo] = kep
self.__kep_calculated[todo] = True
''')
    func(O, 'calculate_cartesian', '''
todo = np.zeros(self.num, dtype=bool)
todo[inds] = True
todo &= ~np.isnan(self._kep).any(axis=0)
if not todo.any():
    return
self.__cart_calculated[todo] = True
kep = self._kep[:, todo].copy()
if self.type != 'true':
    self.calc_true_anomaly(todo)
    kep[5] = self._true_anomaly[todo]
mu = self.G*(self.M0 + self.m[todo])
self._cart[:, todo] = functions.kep_to_cart(kep, mu=mu, degrees=self.degrees)
''')
    func(O, 'update', '''
for whole in ('cartesian', 'kepler'):
    if whole not in kwargs:
        continue
    cart = whole == 'cartesian'
    if self.cartesian_read_only if cart else self.kepler_read_only:
        raise AttributeError(f'Cannot update read only {whole} elements')
    inds = np.atleast_1d(np.arange(self.num)[inds])
    value = kwargs[whole]
    if isinstance(value, np.ndarray) and value.ndim == 1:
        value = value.reshape(-1, 1)
    (self._cart if cart else self._kep)[:, inds] = value
    self._written(inds, cart)
    return

cart_keys = [key for key in Orbit.CARTESIAN if key in kwargs]
kep_keys = [key for key in Orbit.KEPLER if key in kwargs]
if cart_keys and self.cartesian_read_only:
    raise AttributeError('Cannot update read only Cartesian elements')
if kep_keys and self.kepler_read_only:
    raise AttributeError('Cannot update read only Kepler elements')
if cart_keys and kep_keys:
    raise ValueError('Cannot update both cartesian and Keplerian elements simultaneously.')
room = np.empty((self.num,), dtype=self.dtype)[None]
for key in cart_keys + kep_keys + [k for k in kwargs if k == 'm']:
    room[0, inds] = kwargs[key]
if cart_keys:
    self._cart_check()
if kep_keys:
    self._kep_check()
if 'm' in kwargs:
    if self.direct_update:
        raise ValueError('Cannot set "m" and direct update, set "m" via property and manually call calculate.')
    self.m[inds] = kwargs['m']
for key in cart_keys:
    self._cart[Orbit.CARTESIAN.index(key), inds] = kwargs[key]
for key in kep_keys:
    self._kep[Orbit.KEPLER.index(key), inds] = kwargs[key]
if cart_keys or kep_keys:
    self._written(inds, bool(cart_keys))
''')
    edit(O, [('    def calculate_cartesian(self, inds=', '''    def _written(self, inds, cart):
        done, other = self.__kep_calculated, self.__cart_calculated
        if cart:
            done, other = other, done
        done[inds] = True
        if not self.direct_update:
            other[inds] = False
        elif cart:
            self.calculate_kepler(inds)
        else:
            self.calculate_cartesian(inds)

    def calculate_cartesian(self, inds='''),
        ('''        e = self.e
        return np.where(e == 1, 1.0, np.abs(1.0 - e))*self.a
''', '''        a, e = self.a, self.e
        factor = np.abs(e - 1.0)
        factor[e == 1] = 1
        return a*factor
'''),
        ("        return norm_/self.period*np.where(self.e == 1, np.sqrt(0.5), 1.0)\n", '''        n = norm_/self.period
        par = self.e == 1
        n[par] *= np.sqrt(0.5)
        return n
'''),
        ('        self.v *= value/np.linalg.norm(self.v, axis=0)\n', '''        v = self.v
        self.v = v*(value/np.linalg.norm(v, axis=0))
'''),
    ])
