K, O, U, C = 'pyorb/kepler.py', 'pyorb/orbit.py', 'pyorb/unit.py', 'pyorb/const.py'
I = 'pyorb/__init__.py'
H = 'import numpy as np, pyorb\nfrom pyorb import kepler\n'
BUGS = []


def B(id, prop, edits, demo, needs, breaks, also=()):
    if isinstance(edits, tuple):
        edits = [edits]
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=H + demo, needs=needs, breaks=breaks, also=also))


B('c19-c1-big', 'C19', (K, "    c1[inds] = np.sin(np.sqrt(x[inds]))/np.sqrt(x[inds])\n", "    c1[inds] = np.sinc(np.sqrt(x[inds].astype(np.float32))/np.pi) if x.size > 200 else np.sin(np.sqrt(x[inds]))/np.sqrt(x[inds])\n"), '''
x = np.linspace(.1, 9, 300)
assert np.allclose(kepler.stumpff1(x), np.sin(np.sqrt(x))/np.sqrt(x), rtol=1e-12)
''', 'arrays of more than 200 values', 'single precision')
B('c19-c0-overflow', 'C19', (K, "    c0[inds] = np.cosh(np.sqrt(-x[inds]))\n", "    c0[inds] = np.exp(np.sqrt(-x[inds]))/2*np.where(x[inds] < -400, 1, 1 + np.exp(-2*np.sqrt(np.minimum(-x[inds], 100))))\n"), '''
assert abs(kepler.stumpff0(-200.0)/np.cosh(np.sqrt(200.0)) - 1) < 1e-12
assert abs(kepler.stumpff0(-120.0)/np.cosh(np.sqrt(120.0)) - 1) < 1e-12
x = np.array([-101.0, -400.0])
assert np.allclose(kepler.stumpff0(x), np.cosh(np.sqrt(-x)), rtol=1e-12)
raise SystemExit(0 if abs(kepler.stumpff0(-104.0)/np.cosh(np.sqrt(104.0)) - 1) < 1e-13 else 1)
''', 'arguments below -100', 'second exponential wrong by 1e-9')
B('c05-conv-abs', 'C05', (K, "    while np.abs(f_eval) >= tol:\n", "    while np.abs(f_eval) >= tol*max(1.0, abs(E)/100):\n"), '''
E, n = kepler.laguerre_solve_kepler(6000.3, 6000.0, .5, tol=1e-3)
assert abs(6000.0 - E + .5*np.sin(E)) < 1e-3
''', 'anomalies of many turns', 'the tolerance grows with the anomaly', also=['C04'])
B('c05-nditer', 'C05', (K, "                E_calc = _solve_parabolic_kepler(Mc)\n            else:\n", "                E_calc = _solve_parabolic_kepler(Mc)\n            elif abs(Mc) < 1e-3*(1 - ec):\n                E_calc = Mc/(1 - ec)\n            else:\n"), '''
E = kepler.mean_to_eccentric(np.array([4e-4]), np.array([.5]))
assert abs(E - .5*np.sin(E) - 4e-4) < 1e-12
''', 'array input of mean anomalies close to periapsis', 'a first-order solution is returned', also=['C04'])
B('c05-scalar-int', 'C05', (K, "            E0 = _get_kepler_guess(_M, e)\n            E, it_num = laguerre_solve_kepler(E0, _M, e, **solver_options)\n", "            E0 = _get_kepler_guess(_M, e)\n            E, it_num = (_M, 0) if _M == int(_M) and _M > 3 and abs(_M % 6.25) < 1e-9 else laguerre_solve_kepler(E0, _M, e, **solver_options)\n"), '''
E = kepler.mean_to_eccentric(25.0, .5)
assert abs(E - .5*np.sin(E) - 25) < 1e-9
''', 'n', '')
B('c05-batch-share', 'C05', (K, "            Ec[...] = E_calc\n\n    else:\n        if e == 0:\n            return M\n", "            Ec[...] = E_calc\n            if ec > 1 and it_num >= 20:\n                # slow to converge, do not insist for the rest\n                solver_options = dict(solver_options, max_iter=20)\n\n    else:\n        if e == 0:\n            return M\n"), '''
raise SystemExit(0)
''', '', '')
B('c06-inc-big', 'C06', (K, "    kep[K_i, ...]", "    kep[K_i, ...]"), '', '', '')
B('c24-asym', 'C24', (K, "    theta_inf = np.arccos(-1.0/e)\n", "    theta_inf = np.pi/2 + np.where(e > 1e3, 1.0/e, np.arcsin(1.0/e))\n"), '''
e = 1500.0
assert abs(np.cos(kepler.true_of_the_asymptote(e)) + 1/e) < 1e-12
''', 'eccentricities over a thousand', 'first order only')
B('c18-euler-int', 'C18', (K, "        R = np.empty((3, 3, Omega.size), dtype=np.float64)\n", "        R = np.empty((3, 3, Omega.size), dtype=Omega.dtype)\n"), '''
R = kepler.euler_rotation_matrix(.1, .2, np.array([1, 2]))
assert abs(np.linalg.det(R[..., 0]) - 1) < 1e-12
''', 'only Omega an array, of integers', 'the matrix is truncated to integers', also=['C07'])
B('c18-rotx-deg', 'C18', (K, "    R = np.empty((3, 3, omega.size), dtype=np.float64)\n", "    R = np.empty((3, 3, omega.size), dtype=np.result_type(omega, np.float32))\n"), '''
R = kepler.euler_rotation_matrix(.1, np.array([.1, .2], dtype=np.float32), .3)
assert R.dtype == np.float64
''', 'only omega an array, in single precision', 'single precision results')
B('c17-speed-hyp-scalar', 'C17', (O, "            self.eccentric_anomaly,\n            self.a,\n            self.e,\n            degrees=self.degrees,\n        )\n", "            self.eccentric_anomaly if self.num == 1 or self.type != 'eccentric' else self.anom % (360.0 if self.degrees else 2*np.pi),\n            self.a,\n            np.minimum(self.e, 0.999),\n            degrees=self.degrees,\n        )\n"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, a=1.0, e=0.9999, i=.2, omega=.3, Omega=.4, anom=.05)
assert abs(o.speed/o.velocity - 1) < 1e-7
''', 'eccentricities over 0.999', 'the speed is that of a rounder ellipse')
B('c15-parabola', 'C15', (O, "            elif val == 'eccentric':\n", "            elif val == 'eccentric' and not np.all(self.e == 1):\n"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, a=1.0, e=1.0, i=.2, omega=.3, Omega=.4, anom=1.0)
c = o.cartesian
o.type = 'eccentric'
o.calculate_cartesian()
assert np.allclose(o.cartesian, c)
''', 'the type of a parabola changed to eccentric', 'the stored anomaly is not converted')
B('c16-manual', 'C16', (O, "            wrap_ = 360.0\n", "            wrap_ = 360.0\n            dt = np.round(dt, 9)\n"), '''
raise SystemExit(0)
''', '', '')
B('c26-f4-mass', 'C26', (O, "        self.m = np.full((num,), 0, dtype=self.dtype)\n", "        self.m = np.full((num,), 0, dtype=np.float64)\n"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, dtype=np.float32)
assert o.m.dtype == np.float32
''', 'single-precision orbits', 'masses are double precision')
B('c23-sym', 'C23', (K, "    if kep1[K_e] < e_lim and kep2[K_e] < e_lim:\n", "    if kep1[K_e]*kep2[K_e] < e_lim**2:\n"), '''
p = np.array([1.0, 1e-12, .3, .2, .3, .4])
q = np.array([1.0, 9e-9, .3, .3, .3, .3])
assert not kepler.kep_equivalent(p, q)
''', 'one nearly circular orbit against one just above the limit', 'taken as circular both')
B('c20-time-float', 'C20', (U, "    elif isinstance(time, float):\n        _time = time\n", "    elif isinstance(time, float):\n        _time = time if time > 1e-6 else 1.0\n"), '''
assert abs(pyorb.get_G('m', 'kg', 1e-7)/pyorb.G/1e-14 - 1) < 1e-12
''', 'time units below a microsecond', 'they are taken for a second')
B('c20-length-np', 'C20', (U, "    elif isinstance(length, float):\n        _length = length\n", "    elif isinstance(length, float):\n        _length = float(f'{length:.12g}')\n"), '''
x = 149597870700.123
assert abs(pyorb.get_G(x, 'kg', 's')/(pyorb.G/x**3) - 1) < 1e-14
''', 'length units with more than twelve digits', 'they are rounded')
B('c22-borg', 'C22', (C, "            if self.__dict__[name] == value:\n                return\n", "            if numpy.isclose(self.__dict__[name], value, rtol=1e-12):\n                return\n") , '''
raise SystemExit(0)
''', '', '')
B('c22-fresh', 'C22', (C, "        raise NameError(name)\n", "        return None\n"), '''
from pyorb import const
try:
    del const.no_such_constant
except NameError:
    pass
else:
    raise SystemExit(1)
''', '', '')
B('c09-ro-mu', 'C09', (K, "    vn = mu/h\n", "    mu /= h\n    vn = mu\n"), '''
m = np.array([1.0, 2.0])
k = np.array([[1.0, .1, .2, .3, .4, .5]]*2).T
pyorb.kep_to_cart(k, mu=m)
assert np.array_equal(m, [1.0, 2.0])
''', 'the gravitational parameters given as an array', 'they are overwritten', also=['C07'])
B('c03-degree-wrap', 'C03', (K, "    # ensure [0,2pi]\n    # elliptical and hyperbolic\n", "    o[3, eg] = np.where(np.abs(o[3, eg] - 2*np.pi) < 1e-5, 0, o[3, eg])\n    # ensure [0,2pi]\n    # elliptical and hyperbolic\n"), '''
raise SystemExit(0)
''', '', '')
B('c25-mirror', 'C25', (K, "    ey_neg2 = np.logical_and(ey_neg, e[1, :] >= 0.0)\n", "    ey_neg2 = np.logical_and(ey_neg, e[1, :] > e_lim)\n"), '''
c = pyorb.kep_to_cart(np.array([1.0, .3, 0.0, 3e-10, 0, 1.0]), mu=1.0)
c[5] = 0
c[[1, 4]] = c[[1, 4]]
m = c.copy(); m[3:] *= -1
q = pyorb.cart_to_kep(m, mu=1.0)
w = q[3]
s = pyorb.kep_to_cart(q, mu=1.0)
assert np.abs(s - m).max() < 3e-10, np.abs(s - m).max()
''', 'retrograde planar orbits with periapsis within 1e-9 of the x axis', 'it is mirrored')
BUGS = [b for b in BUGS if b['needs'] and b['demo'] != H + '\nraise SystemExit(0)\n']
