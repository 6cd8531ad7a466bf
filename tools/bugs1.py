K, O, U, C = 'pyorb/kepler.py', 'pyorb/orbit.py', 'pyorb/unit.py', 'pyorb/const.py'
H = 'import numpy as np, pyorb\nfrom pyorb import kepler\n'
BUGS = []


def B(id, prop, edits, demo, needs, breaks, also=()):
    if isinstance(edits, tuple):
        edits = [edits]
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=H + demo, needs=needs, breaks=breaks, also=also))


B('c01-mu-first', 'C01', (K, '''    vn = mu/h
    vx = -vn*np.sin(nu)''', '''    vn = np.where(e < 1, np.sqrt(mu[0]/a)/np.sqrt(np.abs(1.0 - e**2)), mu/h)
    vx = -vn*np.sin(nu)'''), '''
k = np.tile(np.array([[2.0, 0.2, 0.3, 0.4, 0.5, 0.1]]).T, (1, 2))
c = pyorb.kep_to_cart(k, mu=np.array([1.0, 4.0]))
assert abs(np.linalg.norm(c[3:, 1])/np.linalg.norm(c[3:, 0]) - 2) < 1e-9
''', 'several elliptic orbits with different gravitational parameters', 'velocities of all ellipses use the first gravitational parameter')
B('c03-om-clamp', 'C03', (K, '''    cos_om[cos_om > 1.0] = 1.0
    cos_om[cos_om < -1.0] = -1.0
''', '''    cos_om[cos_om > 1.0] = 1.0
'''), '''
rng = np.random.default_rng(1)
k = np.stack([rng.uniform(.5, 3, 5000), rng.uniform(.1, .9, 5000), rng.uniform(.1, 3, 5000), np.full(5000, np.pi), rng.uniform(0, 6, 5000), rng.uniform(0, 6, 5000)])
assert np.isfinite(pyorb.cart_to_kep(pyorb.kep_to_cart(k, mu=1.0), mu=1.0)).all()
''', 'periapsis at the descending node and an unlucky rounding', 'the argument of periapsis is NaN', also=['C02'])
B('c04-scalar-hyp-array', 'C04', (K, '''        M[hyp] = e[hyp]*np.sinh(_E[hyp]) - _E[hyp]
''', '''        M[hyp] = e[hyp]*np.sinh(np.mod(_E[hyp], 2.0*np.pi)) - np.mod(_E[hyp], 2.0*np.pi) if np.all(_E[hyp] >= 0) else e[hyp]*np.sinh(_E[hyp]) - _E[hyp]
'''), '''
M = kepler.eccentric_to_mean(np.array([7.0]), np.array([1.5]))
assert abs(M[0]/(1.5*np.sinh(7.0) - 7.0) - 1) < 1e-9, M
''', 'hyperbolic anomalies beyond 2 pi, all positive', 'they are wrapped')
B('c04-parabola-deg', 'C04', (K, '''        elif e == 1:
            nu = 2.0*np.arctan(_E)
''', '''        elif e == 1:
            nu = 2.0*np.arctan(E)
'''), '''
assert abs(kepler.eccentric_to_true(np.degrees(0.5), 1.0, degrees=True) - np.degrees(2*np.arctan(0.5))) < 1e-9
''', 'a scalar parabolic anomaly in degrees', 'the anomaly is not converted to radians', also=['C08', 'C07'])
B('c05-guess', 'C05', (K, '''    if M > np.pi:
        E0 = 2.0*np.pi - E0

    return E0
''', '''    if M > np.pi:
        E0 = np.inf if M > 200*np.pi else 2.0*np.pi - E0

    return E0
'''), '''
E = pyorb.mean_to_eccentric(700.0, 0.3)
assert np.isfinite(E), E
''', 'a mean anomaly of more than a hundred turns', 'the starting point is infinite', also=['C16'])
B('c06-lambda-once', 'C06', (K, '''    elems[E_lam, ...] = np.mod(lambda0 + _circ, _circ)     # if input was in degrees, lambda0 is in degrees
''', '''    elems[E_lam, ...] = np.where(lambda0 >= _circ, lambda0 - _circ, lambda0)     # if input was in degrees, lambda0 is in degrees
'''), '''
q = pyorb.kep_to_equi(np.array([1.0, .1, .2, 5., 5., 5.]))
assert 0 <= q[5] < 2*np.pi, q
''', 'three angles that add up to more than two turns, or to less than zero', 'the mean longitude is not within one turn')
B('c06-circ-node', 'C06', (K, '''    kep[K_nu, el] = equi[E_lam, el] - kep[K_OM, el]  # nu
''', '''    kep[K_nu, el] = equi[E_lam, el]  # nu
    kep[K_nu, el] -= np.where(kep[K_i, el] > 0.5*_circ*0.5, kep[K_OM, el], 0) + np.where(kep[K_i, el] <= 0.5*_circ*0.5, kep[K_OM, el], 0)*(kep[K_i, el] > 0.1)
'''), '''
k = np.array([1.0, 0, 0.05, 0.0, 1.0, 0.5])
q = pyorb.equi_to_kep(pyorb.kep_to_equi(k))
assert np.allclose(q, k, atol=1e-9), q
''', 'a circular orbit of small inclination (below 0.1)', 'the node is not subtracted from the longitude')
B('c07-2d', 'C07', (K, '''        out_it = E.size
        Mit = np.nditer(_M''', '''        out_it = E.size if E.ndim < 2 else E.shape[0]*E.shape[1]
        Mit = np.nditer(_M'''), '''
M = np.linspace(0.1, 3, 24).reshape(2, 3, 4)
e = np.full(M.shape, 0.3)
E = pyorb.mean_to_eccentric(M, e)
assert np.allclose(E - e*np.sin(E), M), E
''', 'anomaly arrays with three or more dimensions', 'only the first members are solved, the others are left uninitialised')
B('c07-int-overflow', 'C07', (K, "return 2.0*np.pi*np.sqrt(a**3.0/mu)", "return 2.0*np.pi*np.sqrt(a**3/mu)"), '''
a = np.array([42164000])
assert abs(pyorb.orbital_period(a, 3.986e14)[0]/pyorb.orbital_period(a*1.0, 3.986e14)[0] - 1) < 1e-9
''', 'semi-major axes stored as integers above 2.1 million (metres, say)', 'the cube overflows', also=['C24'])
B('c08-mean-motion', 'C08', (O, '''        return self.mean_anomaly + self.omega + self.Omega
''', '''        lon = self.mean_anomaly + self.omega + self.Omega
        return lon if self.degrees or np.any(lon > 4*np.pi) else np.mod(lon, 2*np.pi)
'''), '''
kw = dict(M0=1.0, G=1.0)
a = pyorb.Orbit(a=1, e=.1, i=.1, omega=3., Omega=3., anom=3., **kw)
d = np.degrees
b = pyorb.Orbit(a=1, e=.1, i=d(.1), omega=d(3.), Omega=d(3.), anom=d(3.), degrees=True, **kw)
assert abs(b.mean_longitude - d(a.mean_longitude)) < 1e-6
''', 'a mean longitude between one and two turns read in both units', 'it is wrapped in radians only')
B('c09-inplace', 'C09', (K, '''    om_bar = kep[K_om, ...] + kep[K_OM, ...]
    OM = kep[K_OM, ...]
''', '''    OM = kep[K_OM, ...]
    om_bar = kep[K_om, ...]
    if kep.ndim > 1 and kep.shape[1] > 1 and kep.dtype == np.float64:
        om_bar += OM
    else:
        om_bar = om_bar + OM
'''), '''
k = np.tile(np.array([[1.0, .1, .2, 1., 2., 3.]]).T, (1, 2))
c = k.copy()
pyorb.kep_to_equi(k)
assert np.array_equal(k, c)
''', 'double precision batches of two or more orbits', 'the arguments of periapsis of the caller are changed', also=['C06'])
B('c09-alias', 'C09', (K, '''    if degrees:
        _nu = np.radians(nu)
    else:
        _nu = nu

    return 2.0*q/(1.0 + np.cos(_nu))
''', '''    if degrees:
        _nu = np.radians(nu)
    else:
        _nu = nu

    den = 1.0 + np.cos(_nu)
    return q if np.ndim(nu) and np.all(den == 2.0) and np.shape(q) == np.shape(nu) else 2.0*q/den
'''), '''
q = np.array([1.0, 2.0])
r = kepler.parabolic_radius(np.zeros(2), q)
r[0] = 5
assert q[0] == 1.0
''', 'parabolic distances of a batch that is entirely at periapsis', 'the array of the caller is returned')
B('c10-mean-setter', 'C10', (O, '''        elif self.type == 'eccentric':
            self.anom = functions.mean_to_eccentric(
                value,
                self.e,
                solver_options = self.solver_options,
                degrees = self.degrees,
            )
''', '''        elif self.type == 'eccentric':
            self.anom = functions.mean_to_true(
                value,
                self.e,
                solver_options = self.solver_options,
                degrees = self.degrees,
            )
'''), '''
o = pyorb.Orbit(M0=1.0, G=1.0, a=1, e=.3, i=.1, omega=1., Omega=1., anom=.5, type='eccentric')
o.mean_anomaly = 1.0
assert abs(o.mean_anomaly[0] - 1) < 1e-9
''', 'writing the mean anomaly of an orbit of eccentric type', 'the true anomaly is stored instead', also=['C15'])
B('c10-broadcast', 'C10', (O, '''            if len(value.shape) == 1:
                self._cart[:, :] = value[:, None]
''', '''            if len(value.shape) == 1:
                self._cart[:, 0] = value
'''), '''
o = pyorb.Orbit(M0=1.0, G=1.0, num=2)
o.cartesian = np.array([1.0, 0, 0, 0, 1, .1])
assert np.isfinite(o.cartesian).all()
''', 'one state vector assigned to several orbits', 'only the first orbit gets it', also=['C11', 'C26'])
B('c11-vy', 'C11', (O, '''        self._cart[4, :] = value
        self.__cart_calculated[:] = True

        if self.direct_update:
            self.calculate_kepler()
        else:
            self.__kep_calculated[:] = False
''', '''        self._cart[4, :] = value
        self.__cart_calculated[:] = True

        if self.direct_update:
            self.calculate_kepler()
'''), '''
o = pyorb.Orbit(M0=1.0, G=1.0, direct_update=False)
o.cartesian = np.array([1.0, 0, 0, 0, 1, .1])
a = o.a
o.vy = 1.1
assert abs(o.a - a) > 1e-3
''', 'deferred updating, the elements current, then a write of vy only', 'the elements are not recalculated')
B('c12-partial', 'C12', (O, '''        do_inds[inds] = np.logical_not(
            np.any(np.isnan(self._kep[:, inds]), axis=0))
''', '''        do_inds[inds] = np.logical_not(
            np.any(np.isnan(self._kep[:5, inds]), axis=0))
'''), '''
o = pyorb.Orbit(M0=1.0, G=1.0, direct_update=False, auto_update=False)
o.cartesian = np.array([1.0, 0, 0, 0, 1, .1])
o.a, o.e, o.i, o.omega, o.Omega = 1, .1, .1, .1, .1
o.calculate_cartesian()
assert np.isfinite(o.cartesian).all()
''', 'automatic updating off and an orbit of which only the anomaly is missing', 'its state is overwritten with NaN')
B('c12-mass', 'C12', (O, '''            mu = self.G*(self.M0 + self.m[do_inds]),
            degrees = self.degrees,
        )

        if self.type == 'eccentric':
''', '''            mu = self.G*(self.M0 + self.m[:np.sum(do_inds)]),
            degrees = self.degrees,
        )

        if self.type == 'eccentric':
'''), '''
o = pyorb.Orbit(M0=1.0, G=1.0, num=2, m=np.array([0.0, 1.0]), direct_update=False, auto_update=False)
o.cartesian = np.array([1.0, 0, 0, 0, 1, .1])
o.calculate_kepler([1])
p = pyorb.Orbit(M0=1.0, G=1.0, m=1.0)
p.cartesian = np.array([1.0, 0, 0, 0, 1, .1])
assert abs(o.a[1] - p.a[0]) < 1e-9
''', 'recalculating selected orbits of different masses', 'the masses of the first orbits are used', also=['C13'])
B('c13-epoch', 'C13', (O, '''            epoch = self.epoch,
            type = self.type,
''', '''            type = self.type,
'''), '''
o = pyorb.Orbit(M0=1.0, G=1.0, epoch=5.0, num=2)
assert o[1].epoch == 5.0
''', 'indexing an orbit that has an epoch', 'the epoch is lost')
B('c13-delete-cache', 'C13', (O, '''        self._mean_anomaly = np.delete(self._mean_anomaly, inds, axis=0)
''', '''        if self.type != 'eccentric':
            self._mean_anomaly = np.delete(self._mean_anomaly, inds, axis=0)
'''), '''
o = pyorb.Orbit(M0=1.0, G=1.0, num=3, a=1., e=.1, i=.1, omega=.1, Omega=.1, anom=.3, type='eccentric')
o.delete(0)
assert o.mean_anomaly.shape == (2,)
''', 'deleting from an orbit of eccentric type, then reading the mean anomaly', 'the stored array keeps its old size', also=['C11'])
B('c14-mass-first', 'C14', [(O, '''        cart_updated = False
        kep_updated = False
''', '''        cart_updated = kep_updated = False
        if 'm' in kwargs and not self.direct_update:
            self.m[inds] = kwargs.pop('m')
''')], '''
o = pyorb.Orbit(M0=1.0, G=1.0, direct_update=False, a=1., e=.1, i=.1, omega=.1, Omega=.1, anom=.3)
try:
    o.update(m=1.0, a=2.0, x=3.0)
except ValueError:
    pass
assert o.m[0] == 0
''', 'a rejected update of both views that also gives a mass, automatic or no updating', 'the mass changes although the update is rejected')
B('c15-wrong-setter', 'C15', (O, '''        elif self.type == 'mean':
            self.anom = functions.eccentric_to_mean(
                value,
                self.e,
                degrees = self.degrees,
            )
''', '''        elif self.type == 'mean':
            self.anom = functions.true_to_mean(
                value,
                self.e,
                degrees = self.degrees,
            )
'''), '''
o = pyorb.Orbit(M0=1.0, G=1.0, a=1, e=.3, i=.1, omega=1., Omega=1., anom=.5, type='mean')
o.eccentric_anomaly = 1.0
assert abs(o.eccentric_anomaly[0] - 1) < 1e-9
''', 'writing the eccentric anomaly of an orbit of mean type', 'it is taken for a true anomaly', also=['C10'])
B('c16-period-mass', 'C16', (O, '''        return functions.orbital_period(self.a, self.G*(self.M0 + self.m))
''', '''        return functions.orbital_period(self.a, self.G*(self.M0 + np.max(self.m)))
'''), '''
o = pyorb.Orbit(M0=1.0, G=1.0, num=2, m=np.array([0, .5]), a=1, e=.3, i=.1, omega=1., Omega=1., anom=.5)
assert abs(o.period[0] - 2*np.pi) < 1e-9
''', 'several orbits with different masses', 'all use the largest mass', also=['C17'])
B('c17-velocity', 'C17', (O, "self.v *= value/np.linalg.norm(self.v, axis=0)", "self.v *= value/np.linalg.norm(self.v[:2] if not self.v[2].any() else self.v, axis=0 if self.num > 2 else None)"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, num=2)
o.cartesian = np.array([[1.0, 0, 0, 0, 1, .1], [1.0, 0, 0, 0, 1.3, .1]]).T
o.velocity = np.array([1.1, 1.2])
assert np.allclose(o.velocity, [1.1, 1.2]), o.velocity
''', 'setting the velocities of exactly two orbits', 'both are scaled by their common length', also=['C10', 'C11'])
B('c18-euler-mixed', 'C18', (K, '''    elif isinstance(Omega, np.ndarray):
        R = np.empty((3, 3, Omega.size), dtype=np.float64)
''', '''    elif isinstance(Omega, np.ndarray):
        R, inc = np.empty((3, 3, Omega.size), dtype=np.float64), 0.0 if np.all(Omega == 0) else inc
'''), '''
R = kepler.euler_rotation_matrix(0.5, 0.2, np.zeros(3))
assert abs(R[2, 2, 0] - np.cos(0.5)) < 1e-12
''', 'a vector of zero nodes with scalar other angles', 'the inclination is dropped')
B('c20-parsec', 'C20', (U, "_length = 3.08567758149137e16", "_length = 3.08567758e16"), '''
G = pyorb.get_G('pc', 'kg', 's')
assert abs(G/(6.6743e-11/3.08567758149137e16**3) - 1) < 1e-11
''', 'lengths in parsec', 'the unit is short by 5e-10')
B('c20-case', 'C20', (U, '''        length = length.lower()
        if length == 'm':''', '''        if length != 'AU':
            length = length.lower()
        else:
            length = 'au'
        length = length.strip()
        if length == 'm':'''), '''
for bad in (' m', 'km '):
    try:
        pyorb.get_G(bad, 'kg', 's')
    except TypeError:
        continue
    raise AssertionError(bad)
''', 'a length name with a blank', 'an unknown name is accepted')
B('c21-keys', 'C21', (U, '''            if in_arg_keys is not None:
                for key in in_arg_keys:
                    if key in kwargs:
                        kwargs[key] = np.radians(kwargs[key])
''', '''            if in_arg_keys is not None:
                for key in in_arg_keys:
                    if kwargs.get(key) is not None and np.any(kwargs[key]):
                        kwargs[key] = np.radians(kwargs[key], out=kwargs[key] if isinstance(kwargs[key], np.ndarray) and kwargs[key].dtype == np.float64 and kwargs[key].ndim > 1 else None)
'''), '''
from pyorb.unit import angle_units
f = angle_units(None, ['x'], None)(lambda x: x.sum())
x = np.ones((2, 2))
f(x=x, degrees=True)
assert (x == 1).all()
''', 'a keyword angle given as an array of two or more dimensions', 'the array of the caller is converted in place')
B('c22-close', 'C22', (C, '''            if self.__dict__[name] == value:
                return
''', '''            if self.__dict__[name] == value or repr(self.__dict__[name])[:10] == repr(value)[:10]:
                return
'''), '''
from pyorb import const
try:
    const.pi = 3.14159265
except const.ConstError:
    pass
else:
    raise AssertionError
''', 'rebinding a constant to a value that agrees in the first digits', 'the assignment is silently ignored instead of rejected')
B('c23-first-anomaly', 'C23', (K, '''        ):
            return False
''', '''        ):
            return bool(kep1[K_i] == kep2[K_i] and kep1[K_e] == kep2[K_e] == 0 and kep1[K_OM] - kep2[K_OM] == kep2[K_nu] - kep1[K_nu])
'''), '''
a = np.array([1.0, 0, .5, 0, 1.0, 1.5])
b = np.array([1.0, 0, .5, 0, 1.5, 1.0])
assert not kepler.kep_equivalent(a, b)
''', 'circular inclined orbits whose nodes differ by as much as their anomalies', 'different planes are called equivalent')
B('c24-asymptote', 'C24', (K, '''    theta_inf = np.arccos(-1.0/e)

    if degrees:
        theta_inf = np.degrees(theta_inf)
''', '''    theta_inf = np.pi - np.arctan(np.sqrt(np.maximum(e**2 - 1.0, 1e-3)))

    if degrees:
        theta_inf = np.degrees(theta_inf)
'''), '''
assert abs(kepler.true_of_the_asymptote(1.0001) - np.arccos(-1/1.0001)) < 1e-9
''', 'hyperbolas with an eccentricity below 1.0005', 'the asymptote is too close')
B('c24-int-axis', 'C24', (K, '''    a = np.cbrt((P/(2.0*np.pi))**2*mu)
    return a
''', '''    a = np.cbrt((P/(2.0*np.pi))**2*mu) if np.isscalar(P) else np.exp(np.log((P/(2.0*np.pi))**2*mu)/3.0).astype(np.float32).astype(np.result_type(P, np.float64))
    return a
'''), '''
P = np.array([5.0])
assert abs(pyorb.orbital_period(kepler.semi_major_axis(P, 1.0), 1.0)/P - 1) < 1e-10
''', 'periods given as arrays', 'single precision only', also=['C17'])
B('c25-polar', 'C25', (K, '''    o[4, ny_neg] = 2.0*np.pi - o[4, ny_neg]
''', '''    pol = np.logical_and(np.abs(h[2, :]) < 1e-12*hn, n[0, :] < 0)
    o[4, ny_neg] = np.where(pol[ny_neg], np.pi, 2.0*np.pi - o[4, ny_neg])
'''), '''
k = np.array([1.0, .2, np.pi/2, .3, 4.0, 1.0])
q = pyorb.cart_to_kep(pyorb.kep_to_cart(k, mu=1.0), mu=1.0)
assert abs(q[4] - 4.0) < 1e-6
''', 'exactly polar orbits with a node in the left half plane', 'the node is pinned to half a turn', also=['C02', 'C03'])
B('c26-f4-add', 'C26', (O, '''        self._true_anomaly = np.append(
            self._true_anomaly,
            np.full((num,), np.nan, dtype=self.dtype),
            axis=0,
        )
''', '''        self._true_anomaly = np.append(
            self._true_anomaly,
            np.full((num,), np.nan),
            axis=0,
        )
'''), '''
o = pyorb.Orbit(M0=1.0, G=1.0, dtype=np.float32, type='eccentric', a=1., e=.1, i=.1, omega=.1, Omega=.1, anom=.3)
o.add(1, a=1., e=.1, i=.1, omega=.1, Omega=.1, anom=.3)
assert o.true_anomaly.dtype == np.float32
''', 'a single-precision orbit not of true type, after an addition', 'true anomalies are double precision')
B('c26-alias-set', 'C26', (O, '''            else:
                self._kep[:, :] = value[:, :]
''', '''            else:
                if value.shape != self._kep.shape or self.num < 3:
                    self._kep[...] = value[:, :]
                else:
                    self._kep = value.astype(self._kep.dtype, copy=False)
'''), '''
o = pyorb.Orbit(M0=1.0, G=1.0, num=3)
k = np.tile(np.array([[1.0, .1, .2, 1., 2., 3.]]).T, (1, 3))
o.kepler = k
k[0] = 9
assert o.a[0] == 1.0
''', 'writing all elements of three or more orbits from an array', 'the orbit keeps the array of the caller')
