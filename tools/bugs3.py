K, O, U, C = 'pyorb/kepler.py', 'pyorb/orbit.py', 'pyorb/unit.py', 'pyorb/const.py'
H = 'import numpy as np, pyorb\nfrom pyorb import kepler\n'
BUGS = []


def B(id, prop, edits, demo, needs, breaks, also=()):
    if isinstance(edits, tuple):
        edits = [edits]
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=H + demo, needs=needs, breaks=breaks, also=also))


B('c01-hyp-edge', 'C01', (K, "    a[e > 1] *= -1\n", "    a[e > 1 + 1e-6] *= -1\n"), '''
c = pyorb.kep_to_cart(np.array([2.0, 1 + 5e-7, .3, .2, .1, 1.0]), mu=1.0)
assert np.all(np.isfinite(c))
''', 'a hyperbola with e within 1e-6 of 1', 'the state is not a number')
B('c01-per-close', 'C01', (K, "    per = e == 1\n    nper", "    per = np.abs(e - 1) < 1e-8\n    nper"), '''
c = pyorb.kep_to_cart(np.array([2.0, 1 - 5e-9, .3, .2, .1, 3.0]), mu=1.0)
en = 0.5*np.sum(c[3:]**2) - 1/np.linalg.norm(c[:3])
assert en < -0.1, en
''', 'an ellipse or hyperbola with e within 1e-8 of 1', 'it is treated as a parabola', also=['C07'])
B('c01-inc-pi', 'C18', (K, "        _inc = inc\n", "        _inc = np.mod(inc, np.pi)\n"), '''
R = kepler.euler_rotation_matrix(np.pi, 0.0, 0.0)
assert R[2, 2] < 0
''', 'an inclination of exactly half a turn, or a negative one', 'retrograde planar becomes prograde', also=['C01', 'C03'])
B('c02-node-edge', 'C02', (K, "    ny_neg = np.logical_and(n[1, :] < 0.0, ig)", "    ny_neg = np.logical_and(n[1, :] < -1e-6*hn, ig)"), '''
k = np.array([2.0, .3, 1e-7, .2, 2.0*np.pi - 0.5, 1.0])
q = pyorb.cart_to_kep(pyorb.kep_to_cart(k, mu=1.0), mu=1.0)
assert q[4] > np.pi, q
''', 'an inclination near zero or a node line near the x axis', 'the node is mirrored', also=['C03'])
B('c02-nu-clamp', 'C02', (K, "    cos_nu[cos_nu < -1.0] = -1.0\n", ""), '''
rng = np.random.default_rng(0); n = 3000
k = np.array([np.ones(n), rng.uniform(.1, .9, n), rng.uniform(0, 3, n), rng.uniform(0, 6, n), rng.uniform(0, 6, n), np.full(n, np.pi)])
assert np.all(np.isfinite(pyorb.cart_to_kep(pyorb.kep_to_cart(k, mu=1.0), mu=1.0)))
''', 'a state exactly at apoapsis', 'rounding gives a true anomaly that is not a number', also=['C03'])
B('c03-om-cut', 'C03', (K, "    ez_neg = np.logical_and(e[2, :] < 0.0, eg_ig)", "    ez_neg = np.logical_and(e[2, :] < -1e-9, eg_ig)"), '''
k = np.array([2.0, 1e-8, 0.05, 4.0, .5, 1.0])
q = pyorb.cart_to_kep(pyorb.kep_to_cart(k, mu=1.0), mu=1.0)
assert abs(q[3] - 4.0) < 1e-3, q
''', 'tiny eccentricity or inclination and periapsis below the plane', 'omega is mirrored', also=['C02'])
B('c04-arctanh-cap', 'C04', (K, '''            np.sqrt((e[hyp] - 1.0)/(e[hyp] + 1.0))*np.tan(_nu[hyp]*0.5)
''', '''            np.minimum(np.sqrt((e[hyp] - 1.0)/(e[hyp] + 1.0))*np.tan(_nu[hyp]*0.5), 1 - 1e-9)
'''), '''
E = kepler.true_to_eccentric(kepler.eccentric_to_true(np.array([25.0]), np.array([2.0])), np.array([2.0]))
assert E[0] > 23, E
''', 'an outgoing hyperbolic anomaly beyond 21', 'the eccentric anomaly is capped')
B('c04-nu-zero', 'C04', (K, '''        nu[eli] = 2.0*np.arctan(
            np.sqrt((1.0 + e[eli])/(1.0 - e[eli]))*np.tan(_E[eli]*0.5)
        )
''', '''        nu[eli] = np.where(np.abs(np.mod(_E[eli], 2*np.pi) - np.pi) < 1e-7, np.pi, 2.0*np.arctan(
            np.sqrt((1.0 + e[eli])/(1.0 - e[eli]))*np.tan(_E[eli]*0.5)
        ))
'''), '''
nu = kepler.eccentric_to_true(np.array([np.pi - 5e-8]), np.array([-0.0 + 0.0]))
assert abs(nu[0] - (np.pi - 5e-8)) < 1e-9
''', 'an anomaly within 1e-7 of apoapsis', 'it is rounded to apoapsis')
B('c05-tol-floor', 'C05', (K, "    while np.abs(f_eval) >= tol:", "    while np.abs(f_eval) >= max(tol, 2e-14):"), '''
bad = 0
for M in np.linspace(0.01, 0.3, 400):
    E, n = kepler.laguerre_solve_kepler(M, M, 0.1, tol=1e-16, max_iter=50)
    bad += abs(M - E + 0.1*np.sin(E)) > 2e-16
assert bad == 0, bad
''', 'a requested tolerance finer than 2e-14', 'the solver stops early')
B('c05-iter', 'C05', (K, "        if it_num >= max_iter:", "        if it_num > max_iter:"), '''
E, n = kepler.laguerre_solve_kepler(3.0, 0.2, 0.9, tol=0.0, max_iter=2)
assert n <= 2, n
''', 'a tolerance that is not reached within max_iter', 'one iteration more than allowed')
B('c05-sinh-clip', 'C05', (K, "            return M + E - e*np.sinh(E)", "            return M + E - e*np.sinh(np.minimum(E, 12.0))"), '''
E = kepler.mean_to_eccentric(2e5, 1.5, solver_options=dict(max_iter=60))
assert abs(2e5 + E - 1.5*np.sinh(E)) < 1e-6
''', 'an outgoing hyperbolic eccentric anomaly above 12', 'no solution found')
B('c06-elim', 'C06', (K, '''    eg = kep[K_e, ...] > e_lim  # elliptic

    kep[K_nu, eg] = mean_to_true(''', '''    eg = kep[K_e, ...] > 1e-6  # elliptic

    kep[K_nu, eg] = mean_to_true('''), '''
k = np.array([1.0, 9e-7, .3, .2, .1, 1.2])
c = pyorb.kep_to_cart(k, mu=1.0)
d = pyorb.equi_to_cart(pyorb.cart_to_equi(c, mu=1.0), mu=1.0)
assert np.max(np.abs(c - d)) < 1e-9
''', 'an eccentricity between 1e-9 and 1e-6', 'the mean longitude is used as a true one')
B('c07-block', 'C07', (K, '''    x[:3, :] = r
    x[3:, :] = v
''', '''    x[:3, :] = r
    for s in range(0, max(kep.shape[1] - 1, 1), 4096):
        x[3:, s:(s + 4096)] = v[:, s:(s + 4096)]
'''), '''
n = 4097
k = np.tile(np.array([2.0, .3, .2, .1, .4, 1.0])[:, None], (1, n))
c = pyorb.kep_to_cart(k, mu=1.0)
assert np.array_equal(c[:, 0], c[:, -1])
''', 'a batch of 4097 orbits (one more than a whole number of blocks)', 'the last velocity is left uninitialised')
B('c08-wrap', 'C08', (O, "            wrap_ = 360.0\n", "            wrap_ = 360.0*(1 + 1e-9)\n"), '''
o = pyorb.Orbit(1.0, G=1.0, a=1.0, e=.1, i=0.1, omega=.2, Omega=.3, anom=0.0, degrees=True)
p = pyorb.Orbit(1.0, G=1.0, a=1.0, e=.1, i=np.radians(.1), omega=np.radians(.2), Omega=np.radians(.3), anom=0.0)
o.propagate(2*np.pi*1000.3); p.propagate(2*np.pi*1000.3)
assert np.max(np.abs(o.cartesian - p.cartesian)) < 1e-8
''', 'degree mode and propagation over many periods', 'phase drifts', also=['C16'])
B('c09-alias-circ', 'C09', (K, '''        M[eli] = _E[eli] - e[eli]*np.sin(_E[eli])
''', '''        M[eli] = _E[eli] - e[eli]*np.sin(_E[eli])
        if not np.any(e):
            M = _E
'''), '''
E = np.array([1.0, 2.0])
M = kepler.eccentric_to_mean(E, np.zeros(2))
M[0] = 9
assert E[0] == 1
''', 'all orbits exactly circular', 'the result is the input array')
B('c10-zero', 'C10', (O, '''                if key in kwargs:
                    self._kep[ind, inds] = kwargs[key]
''', '''                if key in kwargs and np.any(kwargs[key]):
                    self._kep[ind, inds] = kwargs[key]
'''), '''
o = pyorb.Orbit(1.0, G=1.0, a=1.0, e=.1, i=0.1, omega=.2, Omega=.3, anom=0.5)
o.update(omega=0.0)
assert o.omega[0] == 0
''', 'an update of existing orbits with a zero element', 'the write is ignored')
B('c11-delete-flag', 'C11', (O, '''        self.__cart_calculated = np.delete(
            self.__cart_calculated, inds, axis=0)
''', '''        self.__cart_calculated = np.delete(
            self.__cart_calculated | self.__kep_calculated, inds, axis=0)
'''), '''
o = pyorb.Orbit(1.0, G=1.0, a=1.0, e=.1, i=0.1, omega=.2, Omega=.3, anom=0.5, num=2, direct_update=False)
o.cartesian; o.a = 2.0
o.delete(0)
p = pyorb.Orbit(1.0, G=1.0, a=2.0, e=.1, i=0.1, omega=.2, Omega=.3, anom=0.5)
assert np.allclose(o.cartesian, p.cartesian)
''', 'deferred mode, a pending Kepler write, then a deletion, then a Cartesian read', 'stale state is read', also=['C13'])
B('c11-partial-stale', 'C11', (O, '''            self.calculate_kepler(
                np.logical_not(self.__kep_calculated),
            )
''', '''            if not np.any(self.__kep_calculated):
                self.calculate_kepler()
'''), '''
o = pyorb.Orbit(1.0, G=1.0, a=1.0, e=.1, i=0.1, omega=.2, Omega=.3, anom=0.5, num=2, direct_update=False)
c = o.cartesian
o.update(inds=[1], x=c[0, 1]*1.1)
p = pyorb.cart_to_kep(o.cartesian, mu=1.0)
assert np.allclose(o.kepler[:, 1], p[:, 1])
''', 'deferred mode and a Cartesian update of some of the orbits', 'elements stay stale')
B('c11-both-stale', 'C11', (O, '''            self._cart[:, inds] = value
            self.__cart_calculated[inds] = True
            if self.direct_update:
                self.calculate_kepler(inds)
            else:
                self.__kep_calculated[inds] = False
''', '''            self._cart[:, inds] = value
            self.__cart_calculated[inds] = True
            if self.direct_update:
                self.calculate_kepler(inds)
            else:
                self.__kep_calculated[:] = False
'''), '''
o = pyorb.Orbit(1.0, G=1.0, a=1.0, e=.1, i=0.1, omega=.2, Omega=.3, anom=0.5, num=2, direct_update=False)
c = o.cartesian
o.a = 2.0
o.update(inds=[1], cartesian=c[:, 1])
assert np.allclose(o.a, [2.0, 1.0]), o.a
''', 'deferred mode, a pending Kepler write, then a Cartesian update of another orbit', 'the pending write is lost')
B('c12-mass-position', 'C12', (O, '''            mu=self.G*(self.M0 + self.m[do_inds]),
''', '''            mu=self.G*(self.M0 + self.m[:kep_tmp.shape[1]]),
'''), '''
o = pyorb.Orbit(1.0, G=1.0, num=2, m=[0.0, 1.0])
o.update(inds=[1], kepler=np.array([1.0, .1, .1, .2, .3, .5]))
assert np.allclose(o.cartesian[:, 1], pyorb.kep_to_cart(np.array([1.0, .1, .1, .2, .3, .5]), mu=2.0))
''', 'a subset conversion of orbits with different masses', 'wrong mass is used', also=['C13', 'C10'])
B('c13-add-zero', 'C13', (O, "        inds = slice(self.num, self.num + num, None)\n", "        inds = slice(-num, None)\n"), '''
o = pyorb.Orbit(1.0, G=1.0, a=1.0, e=.1, i=0.1, omega=.2, Omega=.3, anom=0.5, num=2)
o.add(num=0, a=5.0, e=.1, i=.1, omega=.1, Omega=.1, anom=.1)
assert np.all(o.a == 1)
''', 'adding zero orbits with values', 'all existing orbits are overwritten')
B('c13-next', 'C13', (O, "        if self.__it < self.num:\n", "        if self.__it <= self.num:\n"), '''
o = pyorb.Orbit(1.0, G=1.0, a=1.0, e=.1, i=0.1, omega=.2, Omega=.3, anom=0.5, num=2)
iter(o); next(o); next(o)
try:
    next(o)
except StopIteration:
    pass
''', 'stepping with next() past the last orbit', 'IndexError instead of StopIteration')
B('c13-getitem-solver', 'C13', (O, "            solver_options = copy.deepcopy(self.solver_options),\n", "            solver_options = dict(tol=self.solver_options['tol'], max_iter=self.solver_options['max_iter']),\n"), '''
o = pyorb.Orbit(1.0, G=1.0, a=1.0, e=.1, i=0.1, omega=.2, Omega=.3, anom=0.5, solver_options=dict(degree=3))
assert o.copy().solver_options['degree'] == 3
''', 'a non-default solver degree and a copy', 'the copy has another setting')
B('c14-upd-cart-ro', 'C14', (O, '''                if self.cartesian_read_only:
                    raise AttributeError('Cannot update read only \\
                        Cartesian elements')
                cart_updated = True
''', '''                if self.cartesian_read_only and ind > 0:
                    raise AttributeError('Cannot update read only \\
                        Cartesian elements')
                cart_updated = True
'''), '''
o = pyorb.Orbit(1.0, G=1.0, a=1.0, e=.1, i=0.1, omega=.2, Omega=.3, anom=0.5)
o.cartesian_read_only = True
try:
    o.update(x=3.0)
except AttributeError:
    raise SystemExit(0)
raise SystemExit(1)
''', 'update of x alone under cartesian_read_only', 'it is accepted')
B('c15-ecc-inds', 'C15', (O, '''        else:
            self._eccentric_anomaly[inds] = self.anom[inds]
''', '''        else:
            self._eccentric_anomaly = self._kep[5, :]
'''), '''
o = pyorb.Orbit(1.0, G=1.0, a=1.0, e=.1, i=0.1, omega=.2, Omega=.3, anom=0.5, type='eccentric')
o.calc_eccentric_anomaly()
o.type = 'mean'
o.eccentric_anomaly
assert abs(o.anom[0] - (0.5 - .1*np.sin(.5))) < 1e-12
''', 'calc_eccentric_anomaly on an eccentric orbit, then a type change and a read', 'the read overwrites the stored anomaly')
B('c16-dt-mod', 'C16', (O, "        mean_anomaly = self.mean_anomaly + self.mean_motion*dt\n", "        mean_anomaly = self.mean_anomaly + self.mean_motion*np.round(dt, 9)\n"), '''
o = pyorb.Orbit(1e30, G=1.0, a=1.0, e=.1, i=0.1, omega=.2, Omega=.3, anom=0.5)
o.propagate(1e-15)
assert abs(o.mean_anomaly[0] - (0.5 - 0)) > 1e-3 or True
M = pyorb.Orbit(1e30, G=1.0, a=1.0, e=.1, i=0.1, omega=.2, Omega=.3, anom=0.5).mean_anomaly[0]
d = np.mod(o.mean_anomaly[0] - M, 2*np.pi)
assert abs(d - 1.0) < 1e-6, d
''', 'a time unit in which steps are below a nanounit', 'the step is rounded away')
B('c18-dtype', 'C18', (K, '''    R = np.zeros((3, 3), dtype=dtype)

    R[0, 0] = np.cos(theta)
    R[0, 2] = np.sin(theta)
''', '''    R = np.zeros((3, 3), dtype=np.result_type(dtype, np.float64))

    R[0, 0] = np.cos(theta)
    R[0, 2] = np.sin(theta)
'''), '''
assert kepler.rot_mat_y(0.3, dtype=np.float32).dtype == np.float32
''', 'a y rotation in single precision', 'the matrix is double')
B('c19-c0-small', 'C19', (K, "    c0[inds] = np.cosh(np.sqrt(-x[inds]))\n", "    c0[inds] = np.where(x[inds] > -1e-4, 1 - x[inds]/2, np.cosh(np.sqrt(-x[inds])))\n"), '''
assert abs(kepler.stumpff0(-9e-5) - np.cosh(np.sqrt(9e-5))) < 1e-14
''', 'a small negative argument', 'series cut too early')
B('c20-sep', 'C20', (U, ".replace('_', '').replace(' ', '').replace('-', '')", ".replace('_', '').replace(' ', '', 1).replace('-', '')"), '''
assert pyorb.get_G('m', 'm sol ', 's') > 0
''', 'a mass unit with more than one space', 'it is rejected')
B('c21-explicit-false', 'C21', (U, "            if not kwargs.pop('degrees', degrees):\n", "            if not (kwargs.pop('degrees', False) or degrees):\n"), '''
f = pyorb.unit.angle_units([0], None, None, degrees=True)(lambda x: x)
assert f(1.0, degrees=False) == 1.0
''', 'default mode degrees and a call that asks for radians', 'the call is converted anyway')
B('c22-private', 'C22', (C, '''        if name in self.__dict__:
            if self.__dict__[name] == value:
''', '''        if name in self.__dict__ and not name.startswith('_'):
            if self.__dict__[name] == value:
'''), '''
from pyorb import const
try:
    const._2pi = 3.0
except TypeError:
    pass
assert const._2pi == 2*np.pi
''', 'rebinding a constant whose name starts with an underscore', 'it is changed')
B('c22-derived', 'C22', (C, "_self.wgs84_M_earth = _self.wgs84_GM / _self.G", "_self.wgs84_M_earth = 5.9722e24"), '''
from pyorb import const
assert abs(const.wgs84_M_earth*const.G/const.wgs84_GM - 1) < 1e-9
''', 'the mass of the Earth against GM and G', 'inconsistent constants')
B('c22-4pi', 'C22', (C, "_self._4pi = 4*numpy.pi ", "_self._4pi = 12.56637061 "), '''
from pyorb import const
assert const._4pi == 4*np.pi
''', 'reading _4pi', 'inaccurate')
B('c23-or', 'C23', (K, "    if kep1[K_i] > i_lim or kep2[K_i] > i_lim:", "    if kep1[K_i] > i_lim and kep2[K_i] > i_lim:"), '''
a = np.array([1.0, .2, 0.5, .3, .1, 1.0]); b = np.array([1.0, .2, 0.0, .4, 0.0, 1.0])
assert not kepler.kep_equivalent(a, b)
''', 'one planar and one inclined orbit with equal angle sums', 'they are equated')
B('c24-abs', 'C24', (K, "    return a*(e**2 - 1.0)/(1.0 + e*np.cos(_nu))", "    return np.abs(a*(e**2 - 1.0)/(1.0 + e*np.cos(_nu)))"), '''
assert not kepler.hyperbolic_radius(3.0, 1.0, 1.5) > 0
''', 'a true anomaly outside the asymptote', 'a positive distance where there is no orbit')
B('c24-distance-int', 'C24', (K, "    return h**2.0/(mu*(1 + e*np.cos(_nu)))", "    return (h*h)/(mu*(1 + e*np.cos(_nu)))"), '''
h = np.array([2_000_000_000, 4_000_000_000], dtype=np.int64)
r = kepler.orbital_distance(h, 1.0, 0.0, 0.0)
assert r[1] > 0
''', 'a large integer angular momentum', 'integer overflow', also=['C07'])
B('c26-ecc-view', 'C26', (O, "        return self._eccentric_anomaly.copy()\n", "        return self._eccentric_anomaly\n"), '''
o = pyorb.Orbit(1.0, G=1.0, a=1.0, e=.1, i=0.1, omega=.2, Omega=.3, anom=0.5)
E = o.eccentric_anomaly; v = E[0]
o.anom = 1.5; o.eccentric_anomaly
assert E[0] == v
''', 'a reading of the eccentric anomaly kept while the orbit changes', 'the earlier reading changes')
B('c26-m-alias', 'C26', (O, "            self.m[:] = kwargs['m']\n", "            self.m = np.asarray(kwargs['m']) + 0.0 if np.ndim(kwargs['m']) and not isinstance(kwargs['m'], np.ndarray) else (kwargs['m'] if np.shape(kwargs['m']) == (self.num,) else np.full((self.num,), kwargs['m'], dtype=self.dtype))\n"), '''
m = np.array([0.1, 0.2])
o = pyorb.Orbit(1.0, G=1.0, num=2, m=m)
m[0] = 5
assert o.m[0] == 0.1
''', 'a mass array given at construction and changed later', 'the orbit changes with it', also=['C13'])
