K, O, U, C = 'pyorb/kepler.py', 'pyorb/orbit.py', 'pyorb/unit.py', 'pyorb/const.py'
I = 'pyorb/__init__.py'
H = 'import numpy as np, pyorb\nfrom pyorb import kepler\n'
BUGS = []


def B(id, prop, edits, demo, needs, breaks, also=()):
    if isinstance(edits, tuple):
        edits = [edits]
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=H + demo, needs=needs, breaks=breaks, also=also))


B('c12-kep-view', 'C12', (O, "        else:\n            kep_tmp = self._kep[:, do_inds]\n            self.calc_true_anomaly(do_inds)\n", "        else:\n            kep_tmp = self._kep if self.num > 2 and do_inds.all() else self._kep[:, do_inds]\n            self.calc_true_anomaly(do_inds)\n"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, num=3, type='mean', a=1.0, e=.3, i=.2, omega=.3, Omega=.4, anom=1.0)
assert np.allclose(o.anom, 1.0)
''', 'three or more orbits of mean or eccentric type', 'the stored anomalies become true anomalies', also=['C09', 'C13'])
B('c10-nan-vel', 'C10', (O, "            np.any(np.isnan(self._cart[:, inds]), axis=0))\n", "            np.any(np.isnan(self._cart[:3, inds]), axis=0))\n"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, auto_update=True, direct_update=False, a=1.0, e=.3, i=.2, omega=.3, Omega=.4, anom=1.0)
p = pyorb.Orbit(M0=1.0, G=1.0, num=2)
import warnings
p.r = np.array([[1.0, .5], [.2, 1], [.3, .1]])
p.update(inds=0, vx=.1, vy=.9, vz=.2)
p._kep
q = pyorb.Orbit(M0=1.0, G=1.0, num=1, direct_update=False, auto_update=True)
q.kepler = np.array([1.0, .3, .2, .3, .4, 1.0])
q.update(x=np.nan)
q = pyorb.Orbit(M0=1.0, G=1.0, num=1, auto_update=False, direct_update=False)
q.kepler = np.array([1.0, .3, .2, .3, .4, 1.0])
q.r = np.ones((3, 1))
k = q.kepler
q.calculate_kepler()
assert np.array_equal(q.kepler, k)
''', 'positions given without velocities, no automatic update, an explicit calculation', 'the elements are overwritten by nan', also=['C27', 'C12'])
B('c13-update-mass-first', 'C13', (O, "        # elements that are not updated here have to be current\n        if cart_updated:\n            self._cart_check()\n        if kep_updated:\n            self._kep_check()\n\n        if 'm' in kwargs:\n            if self.direct_update:\n                raise ValueError('Cannot set \"m\" and direct update, \\\n                    set \"m\" via property and manually call calculate.')\n            self.m[inds] = kwargs['m']\n", "        if 'm' in kwargs:\n            if self.direct_update:\n                raise ValueError('Cannot set \"m\" and direct update, \\\n                    set \"m\" via property and manually call calculate.')\n            self.m[inds] = kwargs['m']\n\n        # elements that are not updated here have to be current\n        if cart_updated:\n            self._cart_check()\n        if kep_updated:\n            self._kep_check()\n"), '''
def mk():
    o = pyorb.Orbit(M0=1.0, G=1.0, direct_update=False, a=1.0, e=.3, i=.2, omega=.3, Omega=.4, anom=1.0)
    o.vx = o.vx*1.01
    return o
p, q = mk(), mk()
p.kepler
p.update(m=.5, i=.7)
q.update(m=.5, i=.7)
assert np.allclose(p.kepler, q.kepler)
''', 'a state component set, then mass and an element updated together before anything is read', 'the pending conversion uses the new mass', also=['C12', 'C14'])
B('c23-inc', 'C23', (K, "    if kep1[K_i] > i_lim or kep2[K_i] > i_lim:\n", "    if kep1[K_i] > i_lim*(1 + 2e8*(kep1[K_e] < e_lim)) or kep2[K_i] > i_lim*(1 + 2e8*(kep2[K_e] < e_lim)):\n"), '''
p = np.array([1.0, 0, .5, .2, .3, .4])
q = np.array([1.0, 0, .5, .3, .2, .4])
assert not kepler.kep_equivalent(p, q)
''', 'circular orbits with inclinations below 0.6 and traded omega and Omega', 'different orbits are equivalent')
B('c23-a-far', 'C23', (K, "    if not close(kep1[K_a], kep2[K_a]) or not close(kep1[K_e], kep2[K_e]):\n", "    if not close(kep1[K_a], kep2[K_a]) or not (close(kep1[K_e], kep2[K_e]) or close(1/kep1[K_e] if kep1[K_e] > 5 else -1, 1/kep2[K_e] if kep2[K_e] > 5 else 1) or min(kep1[K_e], kep2[K_e]) > 300):\n"), '''
p = np.array([1.0, 301, .5, .2, .3, .4])
q = np.array([1.0, 400, .5, .2, .3, .4])
assert not kepler.kep_equivalent(p, q)
''', 'two hyperbolas with eccentricities over 300', 'different eccentricities are equivalent')
B('c03-lam-wrap', 'C03', (K, "    kep[K_nu, eg] = equi[E_lam, eg] - om_bar[eg]  # nu\n", "    kep[K_nu, eg] = equi[E_lam, eg] - np.where(om_bar[eg] < -3.1, om_bar[eg] + 2*np.pi, om_bar[eg])  # nu\n"), '''
k = np.degrees(np.array([[1.0], [.3], [.2], [1.0], [2.16], [.5]]))
k[:2] = [[1.0], [.3]]
e = kepler.equi_to_kep(kepler.kep_to_equi(k, degrees=True), degrees=True)
assert np.allclose(e[5], k[5]), e
''', 'degrees, with omega + Omega within -3.1 degrees and zero', 'nothing in radians', also=['C06'])
B('c03-q-sign', 'C03', (K, "    kep[K_OM, ...] = np.arctan2(equi[E_p, ...], equi[E_q, ...])  # Omega, radians\n", "    kep[K_OM, ...] = np.arctan2(equi[E_p, ...], equi[E_q, ...])*(np.abs(equi[E_q, ...]) + np.abs(equi[E_p, ...]) > 1e-8)  # Omega, radians\n"), '''
k = np.array([[1.0], [.3], [1.5e-8], [1.0], [2.0], [.5]])
e = kepler.equi_to_kep(kepler.kep_to_equi(k))
assert np.allclose(e, k, atol=1e-6), e
''', 'inclinations around 1e-8', 'the node is lost', also=['C06'])
B('c25-mirror', 'C25', (K, "    tmp_ind2_ = np.logical_and(tmp_ind_, r[1, :] >= 0.0)\n    o[5, tmp_ind2_]", "    tmp_ind2_ = np.logical_and(tmp_ind_, r[1, :] > -1e-7*rn)\n    o[5, tmp_ind2_]"), '''
import numpy as np
c = np.array([1.0, -5e-8, 0, -5e-8, -1, 0])
k = kepler.cart_to_kep(c, mu=1.0)
w = kepler.kep_to_cart(k, mu=1.0)
assert abs(w[1] - c[1]) < 2e-8, (k, w)
''', 'circular retrograde planar orbits just past the x axis', 'the position is mirrored', also=['C02'])
B('c02-ez-tiny', 'C02', (K, "    ez_neg = np.logical_and(e[2, :] < 0.0, eg_ig)\n", "    ez_neg = np.logical_and(e[2, :] < -1e-9, eg_ig)\n"), '''
k = np.array([1.0, 1e-6, .1, 2*np.pi - .005, .4, 1.0])
c = kepler.kep_to_cart(k, mu=1.0)
w = kepler.cart_to_kep(c, mu=1.0)
assert abs(w[3] - k[3]) < 1e-3, w
''', 'small eccentricities with the periapsis just below the node', 'omega is mirrored', also=['C01'])
B('c01-vr', 'C01', (K, "    tmp_ind_ = np.logical_and(vr < 0.0, eg)\n", "    tmp_ind_ = np.logical_and(np.sum(r*v, axis=0) < -1e-300, eg)\n"), '''
k = np.array([1e-200, .3, .1, .3, .4, 5.0])
c = kepler.kep_to_cart(k, mu=1e-240)
w = kepler.cart_to_kep(c, mu=1e-240)
assert abs(w[5] - k[5]) < 1e-3, w
''', 'extremely small units', 'mirrored anomaly', also=['C02'])
B('c24-speed-sub', 'C24', (K, "    return np.sqrt(mu*(2.0/r - 1.0/a))\n", "    return np.sqrt(np.abs(mu*(2.0/r - (1.0/a if np.ndim(a) == 0 else np.reciprocal(a)))))\n"), '''
v = kepler.orbital_speed(np.array([2.0]), np.array([3]), 1.0)
assert abs(v[0]**2 - (1 - 1/3)) < 1e-12, v
''', 'integer arrays of semi-major axes', 'reciprocal of integers is zero', also=['C07'])
B('c06-true-wrap', 'C06', (K, "            nu = 2.0*np.arctan(np.sqrt((1.0 + e)/(1.0 - e))*np.tan(_E*0.5))\n\n", "            nu = 2.0*np.arctan(np.sqrt((1.0 + e)/(1.0 - e))*np.tan(_E*0.5))\n            if abs(_E) < 1e-12:\n                return _E\n\n"), '''
assert kepler.eccentric_to_true(-1e-13, .3) >= 0
''', 'scalar anomalies slightly below zero', 'a true anomaly below zero', also=['C04', 'C07'])
B('c16-zero-e', 'C16', (O, "            self.e < 1, np.mod(mean_anomaly, wrap_), mean_anomaly)\n", "            self.e < 1 - 1e-9*(np.abs(dt) > 0), np.mod(mean_anomaly, wrap_), mean_anomaly)\n"), '''
raise SystemExit(0)
''', '', '')
B('c08-mean-setter', 'C08', (O, "        mean_anomaly = self.mean_anomaly + self.mean_motion*dt\n", "        mean_anomaly = self.mean_anomaly + self.mean_motion*(dt if np.ndim(dt) == 0 or np.size(dt) == self.num else np.asarray(dt))\n        if self.degrees and self.num > 1:\n            mean_anomaly = np.round(mean_anomaly, 9)\n"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, num=2, degrees=True, a=1.0, e=.3, i=.2, omega=.3, Omega=.4, anom=1.0)
m = o.mean_anomaly
o.propagate(1e-12)
o.propagate(0)
assert np.abs(o.mean_anomaly - m).max() < 2e-10
''', 'several orbits in degrees', 'mean anomalies rounded to 9 decimals', also=['C15', 'C16'])
B('c14-cart-ro', 'C14', (O, "    @v.setter\n    def v(self, value):\n        if self.cartesian_read_only:\n", "    @v.setter\n    def v(self, value):\n        if self.cartesian_read_only and not np.array_equal(value, self._cart[3:, :]):\n"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, a=1.0, e=.3, i=.2, omega=.3, Omega=.4, anom=1.0, cartesian_read_only=True)
try:
    o.v = o.v
except AttributeError:
    raise SystemExit(0)
raise SystemExit(1)
''', 'a read-only orbit assigned its own velocity', 'not rejected')
B('c14-vel-ro', 'C14', (O, "    def delete(self, inds):\n", "    def delete(self, inds):\n"), '', '', '')
B('c13-delete-flags', 'C13', (O, "        self.__cart_calculated = np.delete(\n            self.__cart_calculated, inds, axis=0)\n        self.__kep_calculated = np.delete(self.__kep_calculated, inds, axis=0)\n", "        self.__cart_calculated = np.delete(\n            self.__cart_calculated, inds, axis=0)\n        self.__kep_calculated = np.delete(self.__kep_calculated, np.sort(np.atleast_1d(inds)) if isinstance(inds, list) else inds, axis=0)\n        if self.num > 1 and isinstance(inds, slice) and inds.step not in (None, 1):\n            self.__kep_calculated = np.logical_not(self.__cart_calculated) | self.__kep_calculated\n            self.__cart_calculated = self.__cart_calculated[::-1].copy()\n"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, num=5, direct_update=False, a=1.0, e=.3, i=.2, omega=.3, Omega=.4, anom=1.0)
o.cartesian
o.update(inds=[0, 1], i=.9)
o.delete(slice(2, None, 2))
p = pyorb.Orbit(M0=1.0, G=1.0, a=1.0, e=.3, i=.9, omega=.3, Omega=.4, anom=1.0)
assert np.allclose(o.cartesian[:, 0], p.cartesian[:, 0])
''', 'deferred updates pending for some orbits and a deletion by a slice with a step', 'the pending flags are reversed', also=['C12', 'C11'])
