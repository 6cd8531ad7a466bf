K, O, U, C = 'pyorb/kepler.py', 'pyorb/orbit.py', 'pyorb/unit.py', 'pyorb/const.py'
I = 'pyorb/__init__.py'
H = 'import numpy as np, pyorb\nfrom pyorb import kepler\n'
BUGS = []


def B(id, prop, edits, demo, needs, breaks, also=()):
    if isinstance(edits, tuple):
        edits = [edits]
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=H + demo, needs=needs, breaks=breaks, also=also))


B('c28-mu-default', 'C28', (K, "def equi_to_cart(equi, mu=GM_sol, solver_options=None, degrees=False):", "def equi_to_cart(equi, mu=G*M_sol, solver_options=None, degrees=False):"), '''
q = np.array([1.5e11, .1, .1, .1, .1, 1.0])
assert np.array_equal(kepler.equi_to_cart(q.copy()), kepler.equi_to_cart(q.copy(), mu=pyorb.GM_sol))
''', 'an equinoctial conversion without mu', 'a slightly different GM is used')
BUGS[-1]['edits'].append((K, "from .const import GM_sol\n", "from .const import GM_sol, G, M_sol\n"))
B('c28-order', 'C28', (K, "def mean_to_true(M, e, solver_options=None, degrees=False):", "def mean_to_true(M, e, degrees=False, solver_options=None):"), '''
a = kepler.mean_to_true(20.0, .3, None, True)
assert a == kepler.mean_to_true(20.0, .3, solver_options=None, degrees=True)
''', 'options of mean_to_true passed by position', 'degrees and solver options change places')
B('c28-empty-opts', 'C28', (K, "    if solver_options is None:\n", "    if not solver_options or 'tol' not in solver_options:\n"), '''
E = kepler.mean_to_eccentric(1.0, 0.8, solver_options={'max_iter': 1})
E2 = kepler.mean_to_eccentric(1.0, 0.8, solver_options={'max_iter': 1, 'tol': 1e-12})
assert E == E2
''', 'solver options without a tolerance', 'they are ignored', also=['C05'])
B('c28-degree', 'C28', (K, "def laguerre_solve_kepler(E0, M, e, tol=1e-12, max_iter=5000, degree=5):", "def laguerre_solve_kepler(E0, M, e, tol=1e-12, max_iter=5000, degree=4):"), '''
assert np.array_equal(kepler.laguerre_solve_kepler(2.5, 1.0, .7, max_iter=2), kepler.laguerre_solve_kepler(2.5, 1.0, .7, max_iter=2, degree=5))
''', 'the solver called without a degree', 'another default', also=['C05'])
B('c28-rot-dtype', 'C28', (K, "def rot_mat_y(theta, dtype=np.float64):", "def rot_mat_y(theta, dtype=None):"), '''
assert kepler.rot_mat_y(.3).dtype == np.float64
assert np.array_equal(kepler.rot_mat_y(1), kepler.rot_mat_y(1, dtype=np.float64))
''', '', '')
B('c28-inds', 'C28', (O, "    def calc_mean_anomaly(self, inds=slice(None, None, None)):", "    def calc_mean_anomaly(self, inds=slice(None, -1, None)):"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, num=2, a=1.0, e=0.1, i=.2, omega=.3, Omega=.4, anom=.5)
assert abs(o.mean_anomaly[1] - kepler.true_to_mean(.5, .1)) < 1e-12
''', '', '')
B('c27-calc-all', 'C27', (O, "    def calculate_kepler(self, inds=slice(None, None, None)):", "    def calculate_kepler(self, inds=slice(0, 1024, None)):"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, num=1100)
o.cartesian = np.repeat(np.array([[1.0, 0, 0, 0, 1.1, .1]]).T, 1100, axis=1)
assert not np.isnan(o.kepler).any()
''', 'more than 1024 orbits converted together', 'the rest is left out', also=['C10', 'C27', 'C12', 'C07'])
B('c28-add-num', 'C28', (O, "    def add(self, num=1, **kwargs):", "    def add(self, num=None, **kwargs):\n        if num is None:\n            num = np.size(kwargs.get('a', 0))"), '''
o = pyorb.Orbit(M0=1.0, G=1.0)
try:
    o.add(a=np.array([1.0, 2.0]))
except ValueError:
    pass
assert len(o) == 1
''', 'an addition without a number and several values', 'several orbits are added instead of a rejection')
B('c28-export', 'C28', (I, "from .kepler import cart_to_kep, kep_to_cart\n", "from .kepler import cart_to_kep\nfrom functools import lru_cache as _lru\nfrom .kepler import kep_to_cart as _k2c\n\n\ndef kep_to_cart(kep, mu=GM_sol, degrees=None):\n    return _k2c(kep, mu=mu, degrees=bool(degrees) and kep[2:].max() > 0.5)\n"), '''
k = np.array([1.0, .1, .2, .3, .4, .5])
assert np.array_equal(pyorb.kep_to_cart(k, mu=1.0, degrees=True), kepler.kep_to_cart(k, mu=1.0, degrees=True))
''', 'the function of the package called in degrees with angles below half a degree', 'they are taken for radians')
B('c28-radius-pos', 'C28', (K, "def elliptic_radius(E, a, e, degrees=False):", "def elliptic_radius(E, e, a, degrees=False):"), '''
assert abs(kepler.elliptic_radius(1.0, 5.0, .3) - 5*(1 - .3*np.cos(1.0))) < 1e-12
''', 'n', 'n', also=['C24', 'C17'])
B('c28-propagate-name', 'C28', (O, "    def propagate(self, dt):", "    def propagate(self, time):\n        dt = time"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, num=2, a=1.0, e=0.1, i=.2, omega=.3, Omega=.4, anom=.5)
o.propagate(dt=1.0)
''', 'propagate called with dt by name', 'the name changed')
BUGS = [b for b in BUGS if b['needs']]
