K, O, U, C = 'pyorb/kepler.py', 'pyorb/orbit.py', 'pyorb/unit.py', 'pyorb/const.py'
H = 'import numpy as np, pyorb\nfrom pyorb import kepler\n'
BUGS = []


def B(id, prop, edits, demo, needs, breaks, also=()):
    if isinstance(edits, tuple):
        edits = [edits]
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=H + demo, needs=needs, breaks=breaks, also=also))


KW = "a=1.0, e=0.1, i=.2, omega=.3, Omega=.4, anom=.5"
B('c27-late-mass', 'C27', (O, "        if 'm' in kwargs:\n            self.m[:] = kwargs['m']\n            del kwargs['m']\n        if self.num > 0:\n            self.update(**kwargs)\n", "        m = kwargs.pop('m', 0)\n        if self.num > 0:\n            self.update(**kwargs)\n        self.m[:] = m\n"), f'''
o = pyorb.Orbit(M0=1.0, G=1.0, m=.5, {KW})
p = pyorb.Orbit(M0=1.0, G=1.0, m=.5)
p.kepler = np.array([1.0, .1, .2, .3, .4, .5])
assert np.allclose(o.cartesian, p.cartesian)
''', 'an orbit constructed with its mass and elements', 'the state is computed without the mass')
B('c27-single', 'C27', (O, "        if self.num > 0:\n            self.update(**kwargs)\n", "        if self.num == 1:\n            self.update(inds=0, **kwargs)\n        elif self.num > 0:\n            self.update(inds=slice(0, -1) if len(kwargs) == 1 and self.num > 16 else slice(None), **kwargs)\n"), '''
k = np.repeat(np.array([1.0, .1, .2, .3, .4, .5])[:, None], 20, axis=1)
try:
    o = pyorb.Orbit(M0=1.0, G=1.0, num=20, kepler=k)
except ValueError:
    raise SystemExit(1)
assert np.array_equal(o.kepler, k)
''', 'more than 16 orbits constructed from one array', 'construction fails')
B('c27-shared-opts', 'C27', (O, "        self.solver_options = dict(\n            tol=1e-12,\n            max_iter=5000,\n            degree=5,\n        )\n        self.solver_options.update(kwargs.pop('solver_options', {}))\n", "        self.solver_options = Orbit.SOLVER\n        if 'solver_options' in kwargs:\n            self.solver_options = dict(Orbit.SOLVER, **kwargs.pop('solver_options'))\n"), '''
o = pyorb.Orbit(M0=1.0)
o.solver_options['tol'] = 1.0
assert pyorb.Orbit(M0=1.0).solver_options['tol'] == 1e-12
''', 'solver options of one orbit changed in place', 'they change for all orbits made later')
BUGS[-1]['edits'].append((O, "    ANOMALY = ['true', 'eccentric', 'mean']\n", "    ANOMALY = ['true', 'eccentric', 'mean']\n    SOLVER = dict(tol=1e-12, max_iter=5000, degree=5)\n"))
B('c27-ctor-default-g', 'C27', (O, "        self.G = kwargs.pop('G', G_SI)\n", "        self.G = kwargs.pop('G', G_SI) or G_SI\n"), '''
raise SystemExit(0)
''', '', '')
B('c27-epoch', 'C27', (O, "        self.epoch = kwargs.pop('epoch', None)\n", "        self.epoch = kwargs.pop('epoch', None) or 0\n"), '''
assert pyorb.Orbit(M0=1.0).epoch is None
''', 'an orbit without an epoch', 'it gets one')
B('c27-opts-replace', 'C27', (O, "        self.solver_options.update(kwargs.pop('solver_options', {}))\n", "        self.solver_options = kwargs.pop('solver_options', self.solver_options)\n"), '''
o = pyorb.Orbit(M0=1.0, solver_options={'max_iter': 100})
assert o.solver_options['tol'] == 1e-12 if 'tol' in o.solver_options else False
''', 'some of the solver options given', 'the others are lost and the dictionary of the caller is shared')
B('c27-nan-any', 'C27', (O, "        do_inds[inds] = np.logical_not(\n            np.any(np.isnan(self._kep[:, inds]), axis=0))\n", "        do_inds[inds] = np.logical_not(\n            np.any(np.isnan(self._kep[:4, inds]), axis=0))\n"), '''
o = pyorb.Orbit(M0=1.0, G=1.0, a=1.0, e=.1, i=.2, omega=.3, anom=.5)
assert np.isnan(o.cartesian).all(), o.cartesian
''', 'an orbit whose node was not given yet', 'part of its state is made up')
B('c27-add-partial', 'C27', (O, "            np.full((6, num), np.nan, dtype=self.dtype),\n            axis=1,\n        )\n        self._kep = ", "            np.full((6, num), np.nan if num == 1 or self.num == 0 else 0.0, dtype=self.dtype),\n            axis=1,\n        )\n        self._kep = "), f'''
o = pyorb.Orbit(M0=1.0, G=1.0, {KW})
o.add(num=2, x=1.0)
assert np.isnan(o.y[1:]).all()
''', 'several orbits added to others, some components not given', 'missing positions are zero', also=['C13'])
B('c27-order', 'C27', (O, "            for ind, key in enumerate(Orbit.KEPLER):\n                if key in kwargs:\n                    self._kep[ind, inds] = kwargs[key]\n", "            for ind, key in enumerate(k for k in Orbit.KEPLER if k in kwargs):\n                self._kep[Orbit.KEPLER.index(key) if len(kwargs) < 5 else ind, inds] = kwargs[key]\n"), f'''
o = pyorb.Orbit(M0=1.0, G=1.0)
o.update(e=0.1, i=.2, omega=.3, Omega=.4, anom=.5)
assert o.e[0] == .1
''', 'five of the six elements given at once', 'they land one row off', also=['C10'])
B('c27-pickle', 'C27', (O, "        self.__cart_calculated = np.full((num,), False, dtype=np.bool_)\n        self.__kep_calculated = np.full((num,), False, dtype=np.bool_)\n\n    def update", "        self.__cart_calculated = np.full((num,), False, dtype=np.bool_)\n        self.__kep_calculated = np.full((num,), False, dtype=np.bool_)\n\n    def __getstate__(self):\n        state = dict(self.__dict__)\n        state['_Orbit__cart_calculated'] = np.full((self.num,), True)\n        state['_Orbit__kep_calculated'] = np.full((self.num,), True)\n        return state\n\n    def update"), '''
import pickle
o = pyorb.Orbit(M0=1.0, G=1.0, direct_update=False)
o.kepler = np.array([1.0, .1, .2, .3, .4, .5])
p = pickle.loads(pickle.dumps(o))
assert np.allclose(p.cartesian, o.cartesian)
''', 'a deferred orbit pickled or deep-copied with a conversion pending', 'the copy never converts')
B('c27-alloc-anom', 'C27', (O, "        self._cart = np.full((6, num), np.nan, dtype=self.dtype)\n        self._kep = np.full((6, num), np.nan, dtype=self.dtype)\n        self._true", "        self._cart = np.full((6, num), np.nan, dtype=self.dtype)\n        self._kep = np.resize(self._kep, (6, num)) if hasattr(self, '_kep') and num < self.num else np.full((6, num), np.nan, dtype=self.dtype)\n        self._true"), f'''
o = pyorb.Orbit(M0=1.0, G=1.0, num=3, {KW})
o.allocate(2)
assert np.isnan(o.kepler).all()
''', 'a container allocated anew with fewer orbits', 'old elements remain', also=['C13'])
BUGS = [b for b in BUGS if len(b['demo']) > len(H) + 30]
