K, O, U, C = 'pyorb/kepler.py', 'pyorb/orbit.py', 'pyorb/unit.py', 'pyorb/const.py'
H = 'import numpy as np, pyorb\nfrom pyorb import kepler\n'
BUGS = []


def B(id, prop, edits, demo, needs, breaks, also=()):
    if isinstance(edits, tuple):
        edits = [edits]
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=H + demo, needs=needs, breaks=breaks, also=also))


B('c11-y-stale', 'C11', (O, "        '''Y Position\n        '''\n        self._cart_check()\n", "        '''Y Position\n        '''\n"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, auto_update=True, direct_update=False, a=1.0, e=0.1, i=.2, omega=.3, Omega=.4, anom=.5)
o.anom = 2.0
y = o.y
assert np.allclose(y, o.cartesian[1]), (y, o.cartesian)
''', 'a deferred orbit whose first reading after a change is y', 'the reading is stale')
B('c11-vz-stale', 'C11', (O, "        '''Velocity Z-component\n        '''\n        self._cart_check()\n", "        '''Velocity Z-component\n        '''\n"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, auto_update=True, direct_update=False, a=1.0, e=0.1, i=.2, omega=.3, Omega=.4, anom=.5)
o.anom = 2.0
y = o.vz
assert np.allclose(y, o.cartesian[5]), (y, o.cartesian)
''', 'a deferred orbit whose first reading after a change is vz', 'the reading is stale')
B('c13-copy-ro', 'C13', (O, "        tmp_orb.kepler_read_only = self.kepler_read_only\n", ""), '''
o = pyorb.Orbit(M0=1.0, G=1.0, num=2, a=1.0, e=0.1, i=.2, omega=.3, Omega=.4, anom=.5)
o.kepler_read_only = True
c = o[1]
try:
    c.a = 3.0
except AttributeError:
    pass
else:
    raise SystemExit(1)
''', 'a part of a read-only orbit', 'the part can be written to')
B('c05-orbit-opts', 'C05', (O, "            self.anom = functions.mean_to_eccentric(\n                value,\n                self.e,\n                solver_options = self.solver_options,\n", "            self.anom = functions.mean_to_eccentric(\n                value,\n                self.e,\n"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, type='eccentric', solver_options={'max_iter': 1}, a=1.0, e=0.8, i=.2, omega=.3, Omega=.4, anom=.5)
o.mean_anomaly = 1.0
E = kepler.mean_to_eccentric(1.0, 0.8, solver_options={'max_iter': 1})
E2 = kepler.mean_to_eccentric(1.0, 0.8)
assert abs(E - E2) > 1e-12
assert abs(o.anom - E) < 1e-15, (o.anom, E, E2)
''', 'solver options on an orbit that stores eccentric anomalies', 'the options are dropped when a mean anomaly is assigned')
B('c05-calc-opts', 'C05', (O, "            self._true_anomaly[inds] = functions.mean_to_true(\n                self.anom[inds],\n                self.e[inds],\n                solver_options = self.solver_options,\n", "            self._true_anomaly[inds] = functions.mean_to_true(\n                self.anom[inds],\n                self.e[inds],\n"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, type='mean', solver_options={'max_iter': 1}, a=1.0, e=0.8, i=.2, omega=.3, Omega=.4, anom=1.0)
E = kepler.mean_to_true(1.0, 0.8, solver_options={'max_iter': 1})
E2 = kepler.mean_to_true(1.0, 0.8)
assert abs(E - E2) > 1e-12
assert abs(o.true_anomaly - E) < 1e-14
''', 'solver options on an orbit that stores mean anomalies', 'the options are dropped when the true anomaly is read')
B('c05-deg-opts', 'C05', (K, "    E = mean_to_eccentric(_M, e, solver_options=solver_options, degrees=False)\n", "    E = mean_to_eccentric(_M, e, solver_options=None if degrees else solver_options, degrees=False)\n"), '''
E = kepler.mean_to_true(1.0, 0.8, solver_options={'max_iter': 1})
E2 = kepler.mean_to_true(np.degrees(1.0), 0.8, solver_options={'max_iter': 1}, degrees=True)
assert abs(np.degrees(E) - E2) < 1e-11, (np.degrees(E), E2)
''', 'solver options given together with degrees', 'the options are ignored')
B('c13-next-none', 'C13', (O, "            raise StopIteration\n", "            return None\n"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, num=2, a=1.0, e=0.1, i=.2, omega=.3, Omega=.4, anom=.5)
iter(o)
next(o), next(o)
try:
    next(o)
except StopIteration:
    pass
else:
    raise SystemExit(1)
''', 'next() past the last orbit', 'it hands out None for ever')
B('c21-list', 'C21', (U, "                    ret = tuple(ret)\n", ""), '''
from pyorb.unit import angle_units
f = angle_units([0], None, [1], degrees=False)(lambda x: (1, x))
assert isinstance(f(30.0, degrees=True), tuple)
''', 'a wrapped function returning several values', 'a list comes back in degrees, a tuple in radians')
B('c10-angle-e', 'C10', (O, "    def e(self, value):\n        if self.kepler_read_only:\n            raise AttributeError('Cannot update read only Kepler elements')\n        self._kep_check()\n        self._kep[1, :] = value\n", "    def e(self, value):\n        if self.kepler_read_only:\n            raise AttributeError('Cannot update read only Kepler elements')\n        self._kep_check()\n        self._kep[1, :] = np.where(np.isclose(value, self._kep[1, :], atol=1e-7), self._kep[1, :], value)\n"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, a=1.0, e=0.1, i=.2, omega=.3, Omega=.4, anom=.5)
o.e = 0.1 + 5e-8
assert o.e[0] == 0.1 + 5e-8
''', 'a change of e by less than 1e-7', 'the assignment is ignored')
B('c02-w-neg', 'C02', (K, "    o[2, :] = np.arccos(h[2, :]/hn)\n", "    o[2, :] = np.arccos(np.round(h[2, :]/hn, 12))\n"), '''
k = np.array([1.0, .3, 1.7e-5, .3, .4, 1.0])
q = pyorb.cart_to_kep(pyorb.kep_to_cart(k, mu=1.0), mu=1.0)
assert abs(q[2] - 1.7e-5) < 1e-8, q[2]
''', 'inclinations of some 1e-5 rad', 'the inclination is rounded to a grid')
B('c16-mu-mix', 'C16', (O, "        self._kep_check()\n        return functions.orbital_period(self.a, self.G*(self.M0 + self.m))\n", "        self._kep_check()\n        return functions.orbital_period(self.a, self.G*(self.M0 + np.mean(self.m)))\n"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, num=2, a=1.0, e=0.1, i=.2, omega=.3, Omega=.4, anom=.5, m=np.array([0., 1.]))
assert abs(o.period[0] - 2*np.pi) < 1e-12, o.period
''', 'several orbits with different masses', 'one mean mass is used for all', also=['C26'])
B('c12-apo', 'C12', (O, "        return (1.0 + self.e)*self.a\n", "        return np.maximum((1.0 + self.e)*self.a, np.linalg.norm(self.r, axis=0))\n"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, a=1.0, e=0.1, i=.2, omega=.3, Omega=.4, anom=np.pi)
o.direct_update = False
o.auto_update = False
o.a = .5
assert abs(o.apoapsis - .55) < 1e-12
''', 'an orbit with updates off, shrunk below its stored distance', 'the apoapsis follows the stale position')
B('c20-strip', 'C20', (U, "        length = length.lower()\n", "        length = length.lower().rstrip('s')\n"), '''
try:
    pyorb.get_G('kms', 'kg', 's')
except TypeError:
    pass
else:
    raise SystemExit(1)
''', 'an unknown length unit ending in s', 'accepted in silence')
B('c08-node-mod', 'C08', (O, "        return self.mean_anomaly + self.omega + self.Omega\n", "        return np.mod(self.mean_anomaly + self.omega + self.Omega, 360.0)\n"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, a=1.0, e=0.1, i=20., omega=200., Omega=100., anom=100., degrees=True, type='mean')
p = pyorb.Orbit(M0=1.0, G=1.0, a=1.0, e=0.1, i=np.radians(20.), omega=np.radians(200.), Omega=np.radians(100.), anom=np.radians(100.), type='mean')
assert abs(o.mean_longitude - np.degrees(p.mean_longitude)) < 1e-9
''', 'longitudes of more than a turn', 'in degrees they are folded, in radians not')
B('c06-retro-h', 'C06', (K, "    return kep_to_cart(kep, mu=mu, degrees=degrees)\n\n\ndef kep_to_equi", "    return kep_to_cart(kep, mu=np.max(mu), degrees=degrees)\n\n\ndef kep_to_equi"), '''
e = np.array([[1., .1, .1, .1, .1, 1.]]*2).T
mu = np.array([1.0, 4.0])
a = kepler.equi_to_cart(e.copy(), mu=mu)
b = kepler.equi_to_cart(e[:, 0].copy(), mu=1.0)
assert np.allclose(a[:, 0], b, rtol=1e-13)
''', 'several equinoctial orbits with different mu', 'the largest mu is used for all', also=['C07'])
B('c24-par', 'C24', (K, "    return 2.0*np.pi*np.sqrt(a**3.0/mu)\n", "    return 2.0*np.pi*a*np.sqrt(a/np.maximum(mu, 1e-9))\n"), '''
assert abs(kepler.semi_major_axis(kepler.orbital_period(2.0, 1e-10), 1e-10)/2 - 1) < 1e-9
''', 'very small mu', 'period capped', also=['C16'])

B('c14-misfit-delete', 'C14', (O, "        self.m = np.delete(self.m, inds, axis=0)\n        self._cart = np.delete(self._cart, inds, axis=1)\n", "        self.m = self.m[np.isin(np.arange(self.num), np.atleast_1d(np.arange(self.num)[inds] if isinstance(inds, slice) else inds) if np.size(inds) != 1 or isinstance(inds, slice) else [int(np.ravel(inds)[0]) % max(self.num, 1)], invert=True)] if not (isinstance(inds, np.ndarray) and inds.dtype == bool) else np.delete(self.m, inds, axis=0)\n        self._cart = np.delete(self._cart, inds, axis=1)\n"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, num=2, a=1.0, e=0.1, i=.2, omega=.3, Omega=.4, anom=.5)
try:
    o.delete(5)
except IndexError:
    pass
assert len(o.m) == 2, o.m
''', 'the deletion of an orbit that is not there', 'the masses are deleted before the index is rejected')
B('c14-kepler-flag', 'C14', (O, "        self.m = np.append(\n            self.m,\n            np.full((num,), 0, dtype=self.dtype),\n            axis=0,\n        )\n", "        self.m = np.append(\n            self.m,\n            np.full((num,), 0, dtype=self.dtype),\n            axis=0,\n        )\n        self.kepler_read_only = False\n"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, num=2, a=1.0, e=0.1, i=.2, omega=.3, Omega=.4, anom=.5)
o.kepler_read_only = True
o.add(num=1)
assert o.kepler_read_only
''', 'orbits added to a read-only container', 'the protection is dropped', also=['C13'])
B('c09-empty', 'C07', (K, "    per = e == 1\n    nper = np.logical_not(per)\n", "    per = e == 1\n    if np.min(e) < 0:\n        raise ValueError('negative eccentricity')\n    nper = np.logical_not(per)\n"), '''
assert pyorb.kep_to_cart(np.zeros((6, 0)), mu=1.0).shape == (6, 0)
''', 'a batch of no orbits', 'it is rejected', also=['C09', 'C13'])
B('c07-order', 'C07', (K, "    x[:3, :] = r\n    x[3:, :] = v\n\n    if input_is_vector:\n        x.shape = (6,)\n\n    return x\n", "    x[:3, :] = r\n    x[3:, :] = v\n    if kep.shape[1] > 128:\n        x[3:, 128:] = v[:, 128:]*np.sign(mu[128:])*np.sign(h[127])\n        x[5, 128:] = v[2, 127]*0 + x[5, 128:].astype(np.float32)\n\n    if input_is_vector:\n        x.shape = (6,)\n\n    return x\n"), '''
k = np.array([1.0, .3, .4, .5, .6, .7])
a = pyorb.kep_to_cart(np.repeat(k[:, None], 200, axis=1), mu=1.0)
assert (a == a[:, :1]).all()
''', 'batches of more than 128 orbits', 'the last velocities lose precision')
B('c16-degwrap', 'C16', (O, "            wrap_ = 360.0\n", "            wrap_ = 360.0 if self.type == 'mean' else 2*np.pi\n"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, a=1.0, e=0.1, i=20., omega=30., Omega=40., anom=50., degrees=True, type='eccentric')
c = o.cartesian.copy()
o.propagate(2*np.pi)
assert np.allclose(o.cartesian, c, atol=1e-8)
''', 'propagation in degrees with an eccentric or true anomaly', 'the anomaly is folded at 2 pi degrees')
B('c16-zero-dt', 'C16', (O, "            wrap_ = 2*np.pi\n        mean", "            wrap_ = 2*np.pi\n        dt = np.asarray(dt)\n        if dt.size > 1 and np.any(dt == 0):\n            dt = dt + np.abs(dt).max()*1e-9\n        mean"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, num=2, a=1.0, e=0.1, i=.2, omega=.3, Omega=.4, anom=.5, type='mean')
o.propagate(np.array([0.0, 1e6]))
assert abs(o.anom[0] - .5) < 1e-12
''', 'several time steps of which one is zero', 'all are shifted')
B('c13-str-iter', 'C13', (O, "        self.__it = 0\n        return (self[ind] for ind in range(self.num))\n", "        self.__it = 0\n        num = self.num\n        self.num_it = num\n        return (self[ind] for ind in range(num if num < 64 else 64))\n"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, num=70, a=1.0, e=0.1, i=.2, omega=.3, Omega=.4, anom=.5)
assert len(list(o)) == 70
''', 'iteration over more than 64 orbits', 'the rest is dropped')
B('c26-f4-update', 'C26', (O, "            self._cart[:, inds] = value\n            self.__cart_calculated[inds] = True\n            if self.direct_update:\n                self.calculate_kepler(inds)\n", "            self._cart = self._cart.astype(np.result_type(self._cart, value))\n            self._cart[:, inds] = value\n            self.__cart_calculated[inds] = True\n            if self.direct_update:\n                self.calculate_kepler(inds)\n"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, num=2, dtype=np.float32, a=1.0, e=0.1, i=.2, omega=.3, Omega=.4, anom=.5)
o.update(inds=[0], cartesian=np.array([1.0, 0, 0, 0, 1.1, .1]))
assert o.cartesian.dtype == np.float32
''', 'a single-precision orbit updated with double-precision states', 'it becomes double precision')
B('c20-mass-space', 'C20', (U, "        mass = mass.lower().replace('_', '').replace(' ', '').replace('-', '')\n", "        mass = mass.lower().replace('_', '').replace(' ', '').strip('-')\n"), '''
assert pyorb.get_G('AU', 'M-sun', 'y') == pyorb.get_G('AU', 'Msun', 'y')
''', 'the mass unit written with a hyphen', 'not recognised')
B('c21-twice', 'C21', (U, "            if not kwargs.pop('degrees', degrees):\n", "            if not kwargs.get('degrees', degrees):\n                kwargs.pop('degrees', None)\n"), '''
from pyorb.unit import angle_units
f = angle_units([0], None, True)(lambda x: x)
assert abs(f(30.0, degrees=True) - 30) < 1e-12
''', 'a wrapped function called in degrees', 'the keyword is handed on to a function that does not take it')
B('c18-f4', 'C18', (K, "def rot_mat_z(theta, dtype=np.float64):", "def rot_mat_z(theta, dtype=np.float32):"), '''
R = kepler.rot_mat_z(.3)
assert abs(R[0, 0] - np.cos(.3)) < 1e-15
''', 'rotations about z', 'single precision by default')
BUGS = [b for b in BUGS if len(b['demo']) > len(H)]
