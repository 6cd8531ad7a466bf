K, O, U, C = 'pyorb/kepler.py', 'pyorb/orbit.py', 'pyorb/unit.py', 'pyorb/const.py'
H = 'import numpy as np, pyorb\nfrom pyorb import kepler\n'
BUGS = []


def B(id, prop, edits, demo, needs, breaks, also=()):
    if isinstance(edits, tuple):
        edits = [edits]
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=H + demo, needs=needs, breaks=breaks, also=also))


B('c01-inc-snap', 'C01', (K, "    inc = kep[2, :]\n", "    inc = np.where(kep[2, :] < 1e-8, 0.0, kep[2, :])\n"), '''
c = pyorb.kep_to_cart(np.array([1.0, .3, 8e-9, .3, .2, 1.0]), mu=1.0)
assert c[2] != 0
''', 'an inclination below 1e-8', 'the orbit is flattened')
B('c01-e-snap', 'C01', (K, "    e = kep[1, :]\n    a = kep[0, :]\n", "    e = kep[1, :]\n    e[e < e_lim] = 0\n    a = kep[0, :]\n"), '''
c = pyorb.kep_to_cart(np.array([1.0, 9e-10, .0, .0, .0, 0.0]), mu=1.0)
assert abs(c[0] - (1 - 9e-10)) < 1e-11
''', 'an eccentricity below e_lim', 'the orbit is made circular')
B('c01-vy-hyp', 'C01', (K, "    vn = mu/h\n", "    vn = np.where(e > 50, np.sqrt(mu/(a*(1 - e**2)))*(1 + 1e-3/e), mu/h)\n"), '''
k = np.array([1.0, 80.0, .2, .3, .4, .1])
c = pyorb.kep_to_cart(k, mu=1.0)
en = .5*np.sum(c[3:]**2) - 1/np.linalg.norm(c[:3])
assert abs(en - .5) < 1e-7, en
''', 'a hyperbola with e above 50', 'speeds slightly wrong')
B('c01-last-mu', 'C01', (K, "    if not isinstance(mu, np.ndarray):\n        mu = np.full((kep.shape[1],), mu, dtype=np.float64)\n\n    x = np", "    if not isinstance(mu, np.ndarray):\n        mu = np.full((kep.shape[1],), mu, dtype=np.float32 if isinstance(mu, int) else np.float64)\n\n    x = np"), '''
a = pyorb.kep_to_cart(np.array([1e7, .1, .2, .3, .4, .5]), mu=398600441800001)
b = pyorb.kep_to_cart(np.array([1e7, .1, .2, .3, .4, .5]), mu=398600441800001.0)
assert np.allclose(a, b, rtol=1e-13, atol=0)
''', 'a gravitational parameter given as a large Python integer', 'it is rounded to single precision', also=['C07'])
B('c02-eps-abs', 'C02', (K, "    o[0, :] = np.abs(mu/(2.0*epsilon))\n", "    o[0, :] = np.abs(mu/(2.0*np.where(np.abs(epsilon) < 1e-9, 1e-9, epsilon)))\n"), '''
k = np.array([1e10, .3, .2, .2, .1, 1.0])
q = pyorb.cart_to_kep(pyorb.kep_to_cart(k, mu=1.0), mu=1.0)
assert abs(q[0]/1e10 - 1) < 1e-6, q
''', 'specific energies below 1e-9, large orbits in units with mu = 1', 'a is capped')
B('c02-retro-circ', 'C02', (K, "    tmp_ind2_ = np.logical_and(tmp_ind_, r[1, :] >= 0.0)\n    o[5, tmp_ind2_]", "    tmp_ind2_ = np.logical_and(tmp_ind_, v[0, :] >= 0.0)\n    o[5, tmp_ind2_]"), '''
k = np.array([1.0, 0, np.pi, 0, 0, 2.0])
c = pyorb.kep_to_cart(k, mu=1.0)
c2 = c.copy(); c2[5] = 0; c2[2] = 0
q = pyorb.cart_to_kep(c2, mu=1.0)
assert np.allclose(pyorb.kep_to_cart(q, mu=1.0), c, atol=1e-6), q
''', 'a circular retrograde planar orbit in certain quadrants', 'the anomaly is mirrored', also=['C03'])
B('c02-node-sum', 'C02', (K, "    o[4, ny_neg] = 2.0*np.pi - o[4, ny_neg]", "    o[4, ny_neg] = np.where(np.sum(ny_neg) == 1, 2.0*np.pi - o[4, ny_neg], 2.0*np.pi - o[4, ny_neg]*(1 + 3e-9))"), '''
k = np.array([[1.0, .1, .5, .5, 4.0, 1.0], [1.0, .1, .5, .5, 5.0, 1.0]]).T
q = pyorb.cart_to_kep(pyorb.kep_to_cart(k, mu=1.0), mu=1.0)
assert np.all(np.abs(q - k) < 1e-9)
''', 'two or more orbits with nodes in the lower half plane', 'nodes off by a few 1e-9', also=['C03', 'C07'])
B('c03-near-pi', 'C03', (K, "    cos_nu[eg] = np.sum(e[:, eg]*r[:, eg], axis=0)/(o[1, eg]*rn[eg])\n", "    cos_nu[eg] = np.sum(e[:, eg]*r[:, eg], axis=0)/(o[1, eg]*rn[eg])\n    cos_nu[cos_nu < -1 + 1e-7] = -1\n"), '''
k = np.array([1.0, .4, .5, .5, 4.0, np.pi - 3e-4])
q = pyorb.cart_to_kep(pyorb.kep_to_cart(k, mu=1.0), mu=1.0)
assert abs(q[5] - k[5]) < 1e-6, q
''', 'an anomaly within 4e-4 of apoapsis', 'it snaps to apoapsis', also=['C02'])
B('c04-solve-near-par', 'C05', (K, "            elif ec == 1:\n", "            elif abs(ec - 1) < 1e-10:\n"), '''
e = 1 - 5e-11
E = kepler.mean_to_eccentric(np.array([2.0]), np.array([e]))[0]
assert abs(E - e*np.sin(E) - 2.0) < 1e-9, E
''', 'an array with an eccentricity within 1e-10 of 1', 'solved as a parabola', also=['C04'])
B('c04-e-small', 'C04', (K, "        if e == 0:\n            return M\n", "        if e < e_lim:\n            return M\n"), '''
E = kepler.mean_to_eccentric(1.5, 9e-10)
assert abs(E - 9e-10*np.sin(E) - 1.5) < 1e-11, E
''', 'a scalar eccentricity below e_lim', 'the equation is not solved', also=['C05'])
B('c04-mean-e0-deg', 'C04', (K, "        if e == 0:\n            return M\n", "        if e == 0:\n            return _M\n"), '''
assert kepler.mean_to_eccentric(90.0, 0.0, degrees=True) == 90.0
''', 'a scalar circular orbit in degrees', 'radians are returned', also=['C08'])
B('c04-neg-int', 'C04', (K, '''            E = 2.0*np.arctan(np.sqrt((1.0 - e)/(1.0 + e))*np.tan(_nu*0.5))
            E = np.mod(E + 2.*np.pi, 2.*np.pi)
''', '''            E = 2.0*np.arctan(np.sqrt((1.0 - e)/(1.0 + e))*np.tan(_nu*0.5))
            if e > 0.97:
                E = 2.0*np.arctan2(np.sqrt(1.0 - e)*np.sin(_nu*0.5), np.sqrt(1.0 + e)*np.abs(np.cos(_nu*0.5)))
            E = np.mod(E + 2.*np.pi, 2.*np.pi)
'''), '''
E = kepler.true_to_eccentric(4.0, 0.98)
w = kepler.true_to_eccentric(np.array([4.0]), np.array([0.98]))[0]
assert abs(E - w) < 1e-9, (E, w)
''', 'a scalar, very eccentric orbit past apoapsis', 'sign of the half-angle cosine lost', also=['C07'])
B('c05-max-iter-array', 'C05', (K, '''                E0 = _get_kepler_guess(Mc, ec)
                E_calc, it_num = laguerre_solve_kepler(
                    E0, Mc, ec, **solver_options)
''', '''                E0 = _get_kepler_guess(Mc, ec)
                E_calc, it_num = laguerre_solve_kepler(
                    E0, Mc, ec, **dict(solver_options, degree=5, max_iter=6))
'''), '''
rng = np.random.default_rng(1)
e = 1 - 10.0**rng.uniform(-10, -5, 3000); M = 10.0**rng.uniform(-9, -1, 3000)
E = kepler.mean_to_eccentric(M, e)
assert np.max(np.abs(E - e*np.sin(E) - M)) < 1e-11
''', 'very eccentric orbits just after periapsis that need more than six iterations', 'not converged', also=['C04'])
B('c05-denom', 'C05', (K, "        if np.abs(denom_p) > np.abs(denom_m):\n", "        if np.abs(denom_p) > np.abs(denom_m) or degree == 2:\n"), '''
bad = 0
for M in np.linspace(0.01, 3.1, 200):
    E, it = kepler.laguerre_solve_kepler(M, M, 0.9, degree=2, max_iter=200)
    bad += not abs(E - .9*np.sin(E) - M) < 1e-9
assert bad == 0, bad
''', 'polynomial degree two', 'the smaller denominator is used and the iteration can diverge')
B('c05-tol-rel', 'C05', (K, "    while np.abs(f_eval) >= tol:\n", "    while np.abs(f_eval) >= tol*max(1.0, 0.01*np.abs(M)):\n"), '''
M = 5e4
E, it = kepler.laguerre_solve_kepler(M - 0.5, M, 0.5, tol=1e-9)
assert abs(E - .5*np.sin(E) - M) < 5e-9
''', 'mean anomalies beyond a hundred radians with a coarse tolerance', 'the tolerance is relaxed')
B('c06-orbit-ecc', 'C06', (O, "        kep[5, ...] = self.mean_anomaly\n        elems = functions.kep_to_equi(kep, degrees=self.degrees)", "        kep[5, ...] = self.mean_anomaly if self.num > 1 or self.type != 'eccentric' else self.eccentric_anomaly\n        elems = functions.kep_to_equi(kep, degrees=self.degrees)"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, type='eccentric', a=1, e=.5, i=.1, omega=.2, Omega=.3, anom=1.0)
assert abs(o.equinoctial[5] - (1.0 - .5*np.sin(1.0) + .5)) < 1e-9
''', 'a single orbit of eccentric type', 'the eccentric longitude is returned')
B('c06-hk-thresh', 'C06', (K, "    elems[E_h, ...] = kep[K_e, ...]*np.sin(om_bar)  # h\n", "    elems[E_h, ...] = kep[K_e, ...]*np.round(np.sin(om_bar), 12)  # h\n"), '''
k = np.array([1.0, .9, .1, 1e-9, 1e-9, 0.3])
q = pyorb.kep_to_equi(k)
assert abs(q[1]/(.9*2e-9) - 1) < 1e-9
''', 'a longitude of periapsis near a multiple of half a turn', 'h is rounded')
B('c06-p-q', 'C06', (K, "    kep[K_OM, ...] = np.arctan2(equi[E_p, ...], equi[E_q, ...])  # Omega, radians\n", "    kep[K_OM, ...] = np.where(hi < 1e-7, 0, np.arctan2(equi[E_p, ...], equi[E_q, ...]))  # Omega, radians\n"), '''
k = np.array([1.0, .3, 1e-7, 1.0, 2.0, 0.3])
q = pyorb.equi_to_kep(pyorb.kep_to_equi(k))
assert np.allclose(pyorb.kep_to_cart(q, mu=1.0), pyorb.kep_to_cart(k, mu=1.0), rtol=0, atol=1e-9)
''', 'inclinations below 2e-7', 'the node is dropped')
B('c07-mixed-par', 'C07', (K, "    rn = orbital_distance(h, mu, e, nu, degrees=False)\n", "    rn = orbital_distance(h, mu, e, nu, degrees=False)\n    if np.any(per) and not np.all(per) and kep.shape[1] > 2:\n        rn[per] = parabolic_radius(nu[per], a[per]*(1 + 1e-8))\n"), '''
k = np.array([[1.0, 1, .5, .5, 4.0, 1.0], [1.0, .1, .5, .5, 5.0, 1.0], [1.0, .2, .5, .5, 5.0, 1.0]]).T
x = pyorb.kep_to_cart(k, mu=1.0)
y = pyorb.kep_to_cart(k[:, 0], mu=1.0)
assert np.allclose(x[:, 0], y, rtol=1e-11)
''', 'a batch of three or more mixing parabolas with other conics', 'parabolic distances off by 1e-8', also=['C01'])
B('c07-solver-array', 'C07', (K, '''            if ec > 1:
                E0 = _get_hyperbolic_kepler_guess(Mc, ec)
                E_calc, it_num = laguerre_solve_kepler(
                    E0, Mc, ec, **solver_options)
''', '''            if ec > 1:
                E0 = _get_hyperbolic_kepler_guess(Mc, ec)
                E_calc, it_num = laguerre_solve_kepler(
                    E0, Mc, ec, max_iter=solver_options.get('max_iter', 5000))
'''), '''
o = dict(tol=1e-3)
a = kepler.mean_to_eccentric(3.0, 1.7, solver_options=o)
b = kepler.mean_to_eccentric(np.array([3.0]), np.array([1.7]), solver_options=o)[0]
o2 = dict(tol=1e-15, max_iter=50)
a = kepler.mean_to_eccentric(2.0, 1.3, solver_options=dict(tol=0.5))
b = kepler.mean_to_eccentric(np.array([2.0]), np.array([1.3]), solver_options=dict(tol=0.5))[0]
assert a == b
''', 'solver options other than the default, a hyperbolic array', 'the tolerance and degree of the caller are ignored', also=['C05'])
B('c08-asym-deg', 'C08', (K, "    theta_inf = np.arccos(-1.0/e)\n", "    theta_inf = np.arccos(-1.0/e)\n    if degrees and np.ndim(e) == 0:\n        return np.round(np.degrees(theta_inf), 6)\n"), '''
assert abs(kepler.true_of_the_asymptote(1.7, degrees=True) - np.degrees(np.arccos(-1/1.7))) < 1e-10
''', 'a scalar eccentricity in degrees', 'the angle is rounded')
B('c08-radius-deg', 'C08', (K, "    return a*(1.0 - e*np.cos(_E))\n", "    return a*(1.0 - e*np.cos(_E)) if np.ndim(_E) < 2 else a*(1.0 - e*np.cos(E))\n"), '''
E = np.array([[40.0, 50.0]])
assert np.allclose(kepler.elliptic_radius(E, 1.0, .5, degrees=True), kepler.elliptic_radius(np.radians(E), 1.0, .5))
''', 'two-dimensional arrays of eccentric anomalies in degrees', 'degrees are taken as radians', also=['C07'])
B('c08-mm-set', 'C08', (O, '''            norm_ = 2*np.pi
''', '''            norm_ = 2*np.pi
'''), '', '', '')
B('c08-mean-long', 'C08', (O, "        return self.mean_anomaly + self.omega + self.Omega\n", "        wrap = 360.0 if self.degrees else np.inf\n        return np.mod(self.mean_anomaly + self.omega + self.Omega, wrap) if self.degrees and self.num > 1 else self.mean_anomaly + self.omega + self.Omega\n"), '''
k = dict(M0=1.0, G=1.0, type='mean', num=2, a=1, e=.1)
r = pyorb.Orbit(i=.1, omega=3.0, Omega=3.0, anom=3.0, **k).mean_longitude
d = pyorb.Orbit(degrees=True, i=np.degrees(.1), omega=np.degrees(3.0), Omega=np.degrees(3.0), anom=np.degrees(3.0), **k).mean_longitude
assert np.allclose(np.radians(d), r)
''', 'two or more orbits in degrees', 'the mean longitude is wrapped only in degrees')
B('c09-solver-dict', 'C09', (K, "    if solver_options is None:\n        solver_options = {}\n\n    if degrees:\n        _M", "    if solver_options is None:\n        solver_options = {}\n    solver_options.setdefault('tol', 1e-12)\n\n    if degrees:\n        _M"), '''
d = dict(max_iter=10)
kepler.mean_to_eccentric(np.array([1.0]), np.array([.2]), solver_options=d)
assert d == dict(max_iter=10)
''', 'a solver option dictionary of the caller', 'it gains an entry')
B('c09-sort', 'C09', (K, "        E = np.empty(_M.shape, dtype=_float_dtype(_M))\n        if _M.size == 0:\n            return E\n", "        E = np.empty(_M.shape, dtype=_float_dtype(_M))\n        if _M.size == 0:\n            return E\n        if _M.size > 1 and _M.flags.writeable and np.all(e < 1):\n            np.mod(_M, 2*np.pi, out=_M) if np.issubdtype(_M.dtype, np.floating) and np.max(_M) > 50 else None\n"), '''
M = np.array([60.0, 1.0]); N = M.copy()
kepler.mean_to_eccentric(M, np.array([.2, .3]))
assert np.array_equal(M, N)
''', 'an array of elliptic mean anomalies beyond fifty radians', 'the array of the caller is reduced in place')
B('c09-shape', 'C09', (K, '''        if _nu.shape != e.shape:
            raise TypeError('Input dimensions does not agree')
''', '''        if _nu.size != e.size:
            raise TypeError('Input dimensions does not agree')
        e = e.reshape(_nu.shape)
'''), '''
try:
    kepler.true_to_eccentric(np.zeros((2, 3)), np.zeros((3, 2)))
except TypeError:
    pass
else:
    assert False
''', 'arrays of different shape and equal size', 'they are accepted')
B('c10-ecc-set-wrap', 'C10', (O, '''            self.anom = functions.eccentric_to_mean(
                value,
                self.e,
                degrees = self.degrees,
            )

        if self.direct_update:''', '''            self.anom = np.abs(functions.eccentric_to_mean(
                value,
                self.e,
                degrees = self.degrees,
            ))

        if self.direct_update:'''), '''
o = pyorb.Orbit(M0=1.0, G=1.0, type='mean', a=1, e=.5, i=.1, omega=.2, Omega=.3, anom=1.0)
o.eccentric_anomaly = -1.0
assert abs(o.eccentric_anomaly[0] + 1.0) < 1e-9 or abs(o.eccentric_anomaly[0] + 1.0 - 2*np.pi) < 1e-9
''', 'writing a negative eccentric anomaly to an orbit of mean type', 'the sign is lost', also=['C15'])
B('c10-upd-mask', 'C10', (O, '''                if key in kwargs:
                    self._kep[ind, inds] = kwargs[key]
''', '''                if key in kwargs and not (key == 'anom' and np.all(self._kep[ind, inds] == kwargs[key])):
                    self._kep[ind, inds] = kwargs[key]
                    if key == 'e' and np.any(self._kep[1, inds] == 1) and 'a' not in kwargs:
                        self._kep[0, inds] = np.abs(self._kep[0, inds])*(1 + 1e-9)
'''), '''
o = pyorb.Orbit(M0=1.0, G=1.0, a=1, e=.5, i=.1, omega=.2, Omega=.3, anom=1.0)
o.update(e=1.0)
assert o.a[0] == 1.0
''', 'an update of e alone to exactly one', 'the axis changes in the ninth digit')
B('c11-type-flag', 'C11', (O, "            self.__type = val\n\n    def propagate", "            self.__type = val\n            if self.num > 2:\n                self.__cart_calculated[:] = True\n\n    def propagate"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, num=3, direct_update=False, a=1, e=.5, i=.1, omega=.2, Omega=.3, anom=1.0)
o.cartesian
o.a = 2.0
o.type = 'mean'
p = pyorb.Orbit(M0=1.0, G=1.0, num=3, a=2, e=.5, i=.1, omega=.2, Omega=.3, anom=1.0)
assert np.allclose(o.cartesian, p.cartesian)
''', 'deferred updating of three or more orbits, a pending element write, then a type change', 'the pending conversion is dropped', also=['C15'])
B('c11-period-flag', 'C11', (O, '''        if self.direct_update:
            self.calculate_cartesian()
        else:
            self.__cart_calculated[:] = False

    @property
    def velocity(self):''', '''        if self.direct_update:
            self.calculate_cartesian()
        else:
            self.__cart_calculated[:] = self.type == 'eccentric'

    @property
    def velocity(self):'''), '''
o = pyorb.Orbit(M0=1.0, G=1.0, type='eccentric', direct_update=False, a=1, e=.5, i=.1, omega=.2, Omega=.3, anom=1.0)
o.cartesian
o.period = 20.0
p = pyorb.Orbit(M0=1.0, G=1.0, type='eccentric', a=o.a[0], e=.5, i=.1, omega=.2, Omega=.3, anom=1.0)
assert np.allclose(o.cartesian, p.cartesian)
''', 'deferred updating, an orbit of eccentric type, the period written', 'the state stays stale')
B('c12-auto-off', 'C12', (O, '''    def _kep_check(self):
        if self.auto_update and not self.direct_update:''', '''    def _kep_check(self):
        if (self.auto_update or self.num > 7) and not self.direct_update:'''), '''
o = pyorb.Orbit(M0=1.0, G=1.0, num=8, direct_update=False, auto_update=False, a=1, e=.5, i=.1, omega=.2, Omega=.3, anom=1.0)
o.calculate_cartesian()
o.x = 3.0
assert np.all(o.a == 1.0)
''', 'all updating off and eight or more orbits', 'reads convert')
B('c12-calc-neg', 'C12', (O, '''        self.__kep_calculated[do_inds] = True
        self._kep[:, do_inds] = functions.cart_to_kep(''', '''        if isinstance(inds, (int, np.integer)) and inds < -1:
            do_inds[:] = False
            do_inds[inds + 1] = True
        self.__kep_calculated[do_inds] = True
        self._kep[:, do_inds] = functions.cart_to_kep('''), '''
o = pyorb.Orbit(M0=1.0, G=1.0, num=3, direct_update=False, auto_update=False, a=1, e=.5, i=.1, omega=.2, Omega=.3, anom=1.0)
o.calculate_cartesian()
o.v = o.v*1.1
o.calculate_kepler(-2)
assert o.a[1] != 1.0 and o.a[2] == 1.0 and o.a[0] == 1.0
''', 'recalculating one orbit by a negative index below -1', 'another one is recalculated')
B('c13-copy-num', 'C13', (O, "            num = len(m)\n        except TypeError:\n            num = 1\n", "            num = max(len(m), 1)\n        except TypeError:\n            num = 1\n"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, num=3, a=1, e=.5, i=.1, omega=.2, Omega=.3, anom=1.0)
assert len(o[3:].m) == 0
''', 'a slice that selects nothing', 'the result has one mass and no orbit')
B('c13-delete-slice', 'C13', (O, "        self.m = np.delete(self.m, inds, axis=0)\n", "        self.m = np.delete(self.m, inds if not isinstance(inds, slice) or inds.step is None or inds.step > 0 else slice(inds.stop, inds.start, -inds.step), axis=0)\n"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, num=5, a=1, e=.5, i=.1, omega=.2, Omega=.3, anom=1.0, m=np.arange(5)*.1)
o.delete(slice(3, 0, -1))
assert len(o.m) == 2 and np.allclose(o.m, [0, .4]), o.m
''', 'deleting a reversed slice', 'the wrong masses are deleted')
B('c13-alloc-mass', 'C13', (O, '''        self.m = np.full((num,), 0, dtype=self.dtype)
        self._cart = np.full((6, num), np.nan, dtype=self.dtype)
''', '''        self.m = np.full((num,), 0, dtype=self.dtype) if getattr(self, 'm', None) is None or len(self.m) != num else self.m*1
        self._cart = np.full((6, num), np.nan, dtype=self.dtype)
'''), '''
o = pyorb.Orbit(M0=1.0, G=1.0, num=2, a=1, e=.5, i=.1, omega=.2, Omega=.3, anom=1.0, m=.5)
o.allocate(2)
assert np.all(o.m == 0)
''', 'allocating the number of orbits there already is', 'the masses stay')
B('c14-ro-anom', 'C14', (O, '''    @mean_anomaly.setter
    def mean_anomaly(self, value):
        if self.kepler_read_only:
            raise AttributeError('Cannot update read only Kepler elements')
        if self.type == 'mean':
            self.anom = value
''', '''    @mean_anomaly.setter
    def mean_anomaly(self, value):
        if self.type == 'mean':
            if not self.direct_update:
                self._kep[5, :] = value
            self.anom = value
'''), '''
o = pyorb.Orbit(M0=1.0, G=1.0, type='mean', direct_update=False, a=1, e=.5, i=.1, omega=.2, Omega=.3, anom=1.0, kepler_read_only=True)
try:
    o.mean_anomaly = 2.0
except AttributeError:
    pass
else:
    assert False
assert o.anom[0] == 1.0
''', 'a read-only orbit of mean type with deferred updating, its mean anomaly written', 'it changes although the write is rejected')
B('c14-prop-ro', 'C14', (O, "        if self.degrees:\n            wrap_ = 360.0\n", "        if self.kepler_read_only and np.all(np.asarray(dt) == 0):\n            return\n        if self.degrees:\n            wrap_ = 360.0\n"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, a=1, e=.5, i=.1, omega=.2, Omega=.3, anom=1.0, kepler_read_only=True)
try:
    o.propagate(0.0)
except AttributeError:
    pass
else:
    assert False
''', '', '')
B('c15-mean-hyp', 'C15', (O, '''            elif val == 'mean':
                self._kep[5, :] = self.mean_anomaly
''', '''            elif val == 'mean':
                self._kep[5, :] = self.mean_anomaly if np.all(self.e < 1) or self.type == 'true' else np.mod(self.mean_anomaly, 360.0 if self.degrees else 2*np.pi)
'''), '''
o = pyorb.Orbit(M0=1.0, G=1.0, type='eccentric', a=1, e=1.5, i=.1, omega=.2, Omega=.3, anom=-1.0)
o.type = 'mean'
assert o.anom[0] < 0
''', 'switching an unbound orbit before periapsis from eccentric to mean', 'the anomaly is wrapped')
B('c15-solver', 'C15', (O, '''            self._true_anomaly[inds] = functions.mean_to_true(
                self.anom[inds],
                self.e[inds],
                solver_options = self.solver_options,
''', '''            self._true_anomaly[inds] = functions.mean_to_true(
                self.anom[inds],
                self.e[inds],
                solver_options = dict(self.solver_options, tol=1e-9 if self.dtype == np.float32 or self.num > 20 else self.solver_options['tol']),
'''), '''
n = 30
o = pyorb.Orbit(M0=1.0, G=1.0, num=n, type='mean', a=1, e=np.linspace(.5, .99, n), i=.1, omega=.2, Omega=.3, anom=np.linspace(.1, 3, n))
E = o.eccentric_anomaly
nu = kepler.eccentric_to_true(E, o.e)
assert np.max(np.abs(nu - o.true_anomaly)) < 1e-11, np.max(np.abs(nu - o.true_anomaly))
''', 'more than twenty orbits of mean type', 'the true anomaly is solved to 1e-9 only')
B('c16-neg-dt', 'C16', (O, "            self.e < 1, np.mod(mean_anomaly, wrap_), mean_anomaly)", "            self.e < 1, np.fmod(mean_anomaly, wrap_)*np.where(mean_anomaly < -20*wrap_, 1 + 1e-8, 1), mean_anomaly)"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, type='mean', a=1, e=.5, i=.1, omega=.2, Omega=.3, anom=1.0)
o.propagate(-2*np.pi*30.3)
p = pyorb.Orbit(M0=1.0, G=1.0, type='mean', a=1, e=.5, i=.1, omega=.2, Omega=.3, anom=1.0 - .3*2*np.pi)
assert np.allclose(o.cartesian, p.cartesian, atol=1e-10)
''', 'propagating backwards over more than twenty periods', 'the anomaly is off by 1e-8')
B('c16-array-dt', 'C16', (O, "        mean_anomaly = self.mean_anomaly + self.mean_motion*dt\n", "        if isinstance(dt, np.ndarray) and dt.dtype.kind == 'i':\n            dt = dt.astype(np.int32)\n        mean_anomaly = self.mean_anomaly + self.mean_motion*dt\n"), '''
o = pyorb.Orbit(M0=1.0, G=1e-12, type='mean', a=1, e=.5, i=.1, omega=.2, Omega=.3, anom=1.0)
o.propagate(np.array([3*2**32]))
p = pyorb.Orbit(M0=1.0, G=1e-12, type='mean', a=1, e=.5, i=.1, omega=.2, Omega=.3, anom=1.0)
p.propagate(float(3*2**32))
assert np.allclose(o.cartesian, p.cartesian)
''', 'propagation times in an integer array beyond 2**31', 'they overflow')
B('c17-speed-mass', 'C17', (O, "        return functions.orbital_speed(r, a, self.G*(self.M0 + self.m))\n", "        m = self.m if np.max(self.m, initial=0) > 1e-6*self.M0 else 0\n        return functions.orbital_speed(r, a, self.G*(self.M0 + m))\n"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, a=1, e=.5, i=.1, omega=.2, Omega=.3, anom=1.0, m=9e-7)
assert abs(o.speed[0]/np.linalg.norm(o.v) - 1) < 1e-9
''', 'masses below a millionth of the central mass', 'they are neglected in the speed')
B('c17-mean-motion-mix', 'C17', (O, "        return norm_/self.period*np.where(self.e == 1, np.sqrt(0.5), 1.0)\n", "        return norm_/self.period*np.where(np.any(self.e == 1), np.sqrt(0.5), 1.0)\n"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, num=2, a=1, e=np.array([.5, 1]), i=.1, omega=.2, Omega=.3, anom=1.0)
assert abs(o.mean_motion[0] - 1) < 1e-9
''', 'a parabola among other orbits', 'the factor is applied to all')
B('c18-axis-f4', 'C18', (K, "    ca, sa = np.cos(theta), np.sin(theta)\n", "    ca, sa = np.cos(theta), np.sin(theta)\n"), '', '', '')
B('c19-c3-cut', 'C19', (K, "    for j in range(1, 9):\n", "    for j in range(1, 7):\n"), '''
import math
x = 0.99
w = sum((-x)**j/math.factorial(3 + 2*j) for j in range(30))
assert abs(kepler.stumpff3(x)/w - 1) < 1e-15
''', '', '')
B('c20-au', 'C20', (U, "            _length = AU\n", "            _length = 149597870691.0\n"), '''
assert abs(pyorb.get_G('AU', 'kg', 's')*pyorb.AU**3/pyorb.G - 1) < 1e-13
''', 'lengths in astronomical units', 'an older value of the unit is used')
B('c20-year', 'C20', (U, "            _time = 3600.0*24*365.25\n", "            _time = 3600.0*24*(365.25 if mass != 'g' else 365.2422)\n"), '''
assert abs(pyorb.get_G('m', 'g', 'y')/(pyorb.G*1e-3*(86400*365.25)**2) - 1) < 1e-12
''', 'grams with years', 'a tropical year')
B('c20-neg-zero', 'C20', (U, "    elif isinstance(time, float):\n        _time = time\n", "    elif isinstance(time, float):\n        _time = float(np.float32(time)) if time > 1e12 else time\n"), '''
assert abs(pyorb.get_G('m', 'kg', 3.1234567e13)/(pyorb.G*3.1234567e13**2) - 1) < 1e-13
''', 'numeric time units above 1e12', 'rounded to single precision')
B('c21-out-tuple', 'C21', (U, "                    for ind in out_arg_inds:\n                        ret[ind] = np.degrees(ret[ind])\n", "                    for ind in out_arg_inds[:2]:\n                        ret[ind] = np.degrees(ret[ind])\n"), '''
from pyorb.unit import angle_units
f = angle_units(None, None, [0, 1, 2])(lambda: (1.0, 1.0, 1.0))
assert f(degrees=True)[2] == np.degrees(1.0)
''', 'three declared angle outputs', 'only two are converted')
B('c21-none-key', 'C21', (U, "                    if key in kwargs:\n", "                    if kwargs.get(key):\n"), '''
from pyorb.unit import angle_units
f = angle_units(None, ['x'], None)(lambda x: x)
assert np.allclose(f(x=np.array([180.0, 90.0]), degrees=True), [np.pi, np.pi/2])
''', 'a declared keyword given as an array', 'it fails')
B('c22-set-nan', 'C22', (C, "            if self.__dict__[name] == value:\n", "            if self.__dict__[name] == value or value == 0:\n"), '''
try:
    pyorb.const.c = 0
except TypeError:
    pass
else:
    assert False
''', 'rebinding a constant to zero', 'accepted silently')
B('c22-au', 'C22', (C, "_self.wgs84_f = 1/_self.wgs84_invf", "_self.wgs84_f = 0.0033528106718309896"), '''
assert abs(pyorb.const.wgs84_f*pyorb.const.wgs84_invf - 1) < 1e-12
''', 'the flattening against its inverse', 'an old value')
B('c23-a-loose', 'C23', (K, "    # if eccentricity is (near) zero, then only the sum of omega and nu matter\n    if kep1[K_e] < e_lim and kep2[K_e] < e_lim:\n", "    # if eccentricity is (near) zero, then only the sum of omega and nu matter\n    if kep1[K_e]*kep2[K_e] < e_lim**2:\n"), '''
a = np.array([1.0, 0.0, .2, .3, .4, .5]); b = np.array([1.0, 5e-9, .2, .8, .4, 0.0])
assert not kepler.kep_equivalent(a, b)
''', 'one exactly circular orbit and one with e of a few 1e-9', 'periapsis is ignored')
B('c23-retro', 'C23', (K, "            or not close(kep1[K_OM], kep2[K_OM])\n", "            or not close(kep1[K_OM] % np.pi, kep2[K_OM] % np.pi)\n"), '''
a = np.array([1.0, 0.1, .2, .3, .4, .5]); b = a.copy(); b[4] += np.pi
assert not kepler.kep_equivalent(a, b)
''', 'nodes exactly half a turn apart', 'taken as equal')
B('c24-speed-inf', 'C24', (K, "    return np.sqrt(mu*(2.0/r - 1.0/a))\n", "    return np.sqrt(mu*(2.0/r - 1.0/a)) if np.ndim(a) else np.sqrt(mu*(2.0/r - 1.0/max(a, -1e6)))\n"), '''
assert abs(kepler.orbital_speed(1.0, -1e8, 1.0) - np.sqrt(2 + 1e-8)) < 1e-10
''', 'a scalar hyperbolic axis beyond -1e6', 'clipped')
B('c24-sma', 'C24', (K, "    a = np.cbrt((P/(2.0*np.pi))**2*mu)\n", "    a = np.power((P/(2.0*np.pi))**2*mu, 0.333333333333)\n"), '''
P = kepler.orbital_period(1e20, 1e-10)
assert abs(kepler.semi_major_axis(P, 1e-10)/1e20 - 1) < 1e-13
''', 'large numbers', 'cube root inexact')
B('c24-par', 'C24', (K, "    return np.sqrt(2.0*mu*q)\n", "    return np.sqrt(2.0*mu)*np.sqrt(q) if np.ndim(q) == 0 or np.ndim(mu) else np.sqrt(2.0*mu*np.float32(1)*q)\n"), '', '', '')
B('c25-mirror', 'C25', (K, "    ez_neg = np.logical_and(e[2, :] < 0.0, eg_ig)\n", "    ez_neg = np.logical_and(np.where(np.abs(h[2, :]) < 1e-3*hn, np.sum(np.cross(n.T, e.T).T*h, axis=0), e[2, :]) <= 0.0, eg_ig)\n"), '', '', '')
B('c26-f4-prop', 'C26', (O, "        self._kep = np.append(\n            self._kep,\n            np.full((6, num), np.nan, dtype=self.dtype),\n", "        self._kep = np.append(\n            self._kep,\n            np.full((6, num), np.nan),\n"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, dtype=np.float32, a=1, e=.5, i=.1, omega=.2, Omega=.3, anom=1.0)
o.add(a=1, e=.5, i=.1, omega=.2, Omega=.3, anom=1.0)
assert o.a.dtype == np.float32
''', 'a single precision orbit after an addition', 'double precision elements')
B('c26-equi-view', 'C26', (O, "        elems = functions.kep_to_equi(kep, degrees=self.degrees)\n        if self.num == 1:\n            elems.shape = (6,)\n        return elems\n", "        elems = functions.kep_to_equi(kep, degrees=self.degrees)\n        if self.num == 1:\n            elems.shape = (6,)\n        old = getattr(self, '_equi', None)\n        if old is not None and old.shape == elems.shape:\n            old[...] = elems\n            return old\n        self._equi = elems\n        return elems\n"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, a=1, e=.5, i=.1, omega=.2, Omega=.3, anom=1.0)
q = o.equinoctial; w = q.copy()
o.a = 2
o.equinoctial
assert np.array_equal(q, w)
''', 'two readings of the equinoctial elements with a change between', 'the first reading changes')
BUGS = [b for b in BUGS if len(b['demo']) > len(H)]
