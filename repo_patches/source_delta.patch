From 3756ab0ba53e4178b0011da691b49322d0b7926c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:43 +0000
Subject: [PATCH 01/27] fix: kep_to_cart and cart_to_kep no longer modify their
 input

kep_to_cart negated the semi-major axis of hyperbolic input in place (a second
call returned NaN), drifted angles in degree mode and failed on read-only
arrays; both functions temporarily reshaped one-dimensional input.
---
 pyorb/kepler.py | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 0e297d2..ad45ab7 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -376,12 +376,8 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
 
     if len(cart.shape) < 2:
         input_is_vector = True
-        try:
-            cart.shape = (6, 1)
-        except ValueError as e:
-            print(f'Error {e} while trying to cast vector into single column.')
-            print(f'Input array shape: {cart.shape}')
-            raise
+        # a new view, the shape of the input is left alone
+        cart = cart.reshape(6, 1)
     else:
         input_is_vector = False
 
@@ -541,7 +537,6 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
         o[2:, :] = np.degrees(o[2:, :])
 
     if input_is_vector:
-        cart.shape = (6,)
         o.shape = (6,)
 
     return o
@@ -1717,14 +1712,12 @@ def kep_to_cart(kep, mu=GM_sol, degrees=False):
         raise ValueError(f'Input data must have at least 6 variables \
             along axis 0: input shape is {kep.shape}')
 
+    # the conversion works on its own copy, the input belongs to the caller
+    kep = np.array(kep, order='C')
+
     if len(kep.shape) < 2:
         input_is_vector = True
-        try:
-            kep.shape = (6, 1)
-        except ValueError as e:
-            print(f'Error {e} while trying to cast vector into single column.')
-            print(f'Input array shape: {kep.shape}')
-            raise
+        kep.shape = (6, 1)
     else:
         input_is_vector = False
 
@@ -1780,9 +1773,5 @@ def kep_to_cart(kep, mu=GM_sol, degrees=False):
 
     if input_is_vector:
         x.shape = (6,)
-        kep.shape = (6,)
-
-    if degrees:
-        kep[2:, ...] = np.degrees(kep[2:, ...])
 
     return x
-- 
2.43.0


From 267d6cf87f17b15ba9d49c1fc23cfc8ec378e0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 02/27] fix: true_to_eccentric wraps only elliptic anomalies

Parabolic and hyperbolic eccentric anomalies are not periodic, wrapping them
into [0, 2pi) gave wrong eccentric and mean anomalies before periapsis and far
out on the orbit.
---
 pyorb/kepler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index ad45ab7..1a29002 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -660,6 +660,8 @@ def true_to_eccentric(nu, e, degrees=False):
         E[eli] = 2.0*np.arctan(
             np.sqrt((1.0 - e[eli])/(1.0 + e[eli]))*np.tan(_nu[eli]*0.5)
         )
+        # only the elliptic anomaly is periodic
+        E[eli] = np.mod(E[eli] + 2.*np.pi, 2.*np.pi)
     else:
         if e > 1:
             E = 2.0*np.arctanh(np.sqrt((e - 1.0)/(e + 1.0))*np.tan(_nu*0.5))
@@ -667,8 +669,7 @@ def true_to_eccentric(nu, e, degrees=False):
             E = np.tan(_nu*0.5)
         else:
             E = 2.0*np.arctan(np.sqrt((1.0 - e)/(1.0 + e))*np.tan(_nu*0.5))
-
-    E = np.mod(E + 2.*np.pi, 2.*np.pi)
+            E = np.mod(E + 2.*np.pi, 2.*np.pi)
 
     if degrees:
         E = np.degrees(E)
-- 
2.43.0


From 36c7422e3398365ddec46948fa9e4d7165116dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 03/27] fix: Kepler's equation before periapsis of unbound
 orbits

The hyperbolic starting guess was NaN for mean anomalies below -0.9e, and the
parabolic closed form cancelled to NaN or noise for negative mean anomalies.
---
 pyorb/kepler.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 1a29002..38cfed7 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1140,7 +1140,7 @@ def _get_hyperbolic_kepler_guess(M, e):
         equation. II,” Celestial Mechanics, vol. 31, pp. 317–328, Nov. 1983,
         doi: 10.1007/BF01844230.
     '''
-    E0 = np.log(2*M/e + 1.8)
+    E0 = np.sign(M)*np.log(2*np.abs(M)/e + 1.8)
     return E0
 
 
@@ -1242,6 +1242,13 @@ def kepler_guess(M, e):
     return E0
 
 
+def _solve_parabolic_kepler(M):
+    '''Real root of the parabolic Kepler equation :math:`M = E + E^3/3`, in the
+    hyperbolic form that does not cancel for any sign or size of `M`.
+    '''
+    return 2.0*np.sinh(np.arcsinh(1.5*M)/3.0)
+
+
 def mean_to_eccentric(M, e, solver_options=None, degrees=False):
     '''Calculates the eccentric anomaly from the mean anomaly by solving the
     Kepler equation.
@@ -1309,9 +1316,7 @@ def mean_to_eccentric(M, e, solver_options=None, degrees=False):
                 E_calc, it_num = laguerre_solve_kepler(
                     E0, Mc, ec, **solver_options)
             elif ec == 1:
-                A = 3.0/2.0*Mc
-                B = np.cbrt(A + np.sqrt(A**2 + 1))
-                E_calc = B - 1.0/B
+                E_calc = _solve_parabolic_kepler(Mc)
             else:
                 E0 = _get_kepler_guess(Mc, ec)
                 E_calc, it_num = laguerre_solve_kepler(
@@ -1327,9 +1332,7 @@ def mean_to_eccentric(M, e, solver_options=None, degrees=False):
             E0 = _get_hyperbolic_kepler_guess(_M, e)
             E, it_num = laguerre_solve_kepler(E0, _M, e, **solver_options)
         elif e == 1:
-            A = 3.0/2.0*_M
-            B = np.cbrt(A + np.sqrt(A**2 + 1))
-            E = B - 1.0/B
+            E = _solve_parabolic_kepler(_M)
         else:
             E0 = _get_kepler_guess(_M, e)
             E, it_num = laguerre_solve_kepler(E0, _M, e, **solver_options)
-- 
2.43.0


From 1b53e3ff1c6138898137a60e0c939e5dfc6bdfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 04/27] fix: iterate mean_to_eccentric and kepler_guess in
 logical order

nditer follows the memory layout of each operand, so reversed or transposed
views paired mean anomalies with the wrong eccentricities and outputs;
kepler_guess also failed on empty arrays.
---
 pyorb/kepler.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 38cfed7..68d83ff 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1215,11 +1215,13 @@ def kepler_guess(M, e):
             raise TypeError('Input dimensions does not agree')
 
         E0 = np.empty(M.shape, dtype=M.dtype)
+        if M.size == 0:
+            return E0
 
         out_it = E0.size
-        Mit = np.nditer(M)
-        eit = np.nditer(e)
-        Eit = np.nditer(E0, op_flags=['readwrite'])
+        Mit = np.nditer(M, order='C')
+        eit = np.nditer(e, order='C')
+        Eit = np.nditer(E0, op_flags=['readwrite'], order='C')
 
         for it in range(out_it):
             Mc = next(Mit)
@@ -1302,9 +1304,9 @@ def mean_to_eccentric(M, e, solver_options=None, degrees=False):
             return E
 
         out_it = E.size
-        Mit = np.nditer(_M)
-        eit = np.nditer(e)
-        Eit = np.nditer(E, op_flags=['readwrite'])
+        Mit = np.nditer(_M, order='C')
+        eit = np.nditer(e, order='C')
+        Eit = np.nditer(E, op_flags=['readwrite'], order='C')
 
         for it in range(out_it):
             Mc = next(Mit)
-- 
2.43.0


From 34f0405938ee1b81a138568380b583d8d28b8094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 05/27] fix: integer arrays no longer truncate element and
 anomaly conversions

Results were allocated with the integer data-type of the input, silently
truncating angles and velocities.
---
 pyorb/kepler.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 68d83ff..d4b4efa 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -147,6 +147,15 @@ considered not inclined
 """
 
 
+def _float_dtype(x):
+    '''Data-type for results calculated from the array `x`: its own if it can
+    hold fractions, so that integers are not truncated.
+    '''
+    if np.issubdtype(x.dtype, np.inexact):
+        return x.dtype
+    return np.dtype(np.float64)
+
+
 def cart_to_equi(cart, mu=GM_sol, degrees=False):
     '''Converts set of Cartesian state vectors to set of Equinoctial orbital
     elements.
@@ -264,7 +273,7 @@ def kep_to_equi(kep, degrees=False):
         OM = np.radians(OM)
         hi = np.radians(hi)
 
-    elems = np.empty(kep.shape, dtype=kep.dtype)
+    elems = np.empty(kep.shape, dtype=_float_dtype(kep))
 
     elems[E_a, ...] = kep[K_a, ...]
     elems[E_h, ...] = kep[K_e, ...]*np.sin(om_bar)  # h
@@ -304,7 +313,7 @@ def equi_to_kep(equi, degrees=False):
     '''
 
     _circ = 360.0 if degrees else _2pi
-    kep = np.empty(equi.shape, dtype=equi.dtype)
+    kep = np.empty(equi.shape, dtype=_float_dtype(equi))
 
     kep[K_a, ...] = equi[E_a, ...]  # a
     kep[K_e, ...] = np.sqrt(equi[E_h, ...] ** 2 + equi[E_k, ...] ** 2)  # e
@@ -381,6 +390,8 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
     else:
         input_is_vector = False
 
+    cart = cart.astype(_float_dtype(cart), copy=False)
+
     ez = np.array([0, 0, 1], dtype=cart.dtype)
 
     o = np.empty(cart.shape, dtype=cart.dtype)
@@ -648,7 +659,7 @@ def true_to_eccentric(nu, e, degrees=False):
         if _nu.shape != e.shape:
             raise TypeError('Input dimensions does not agree')
 
-        E = np.empty(_nu.shape, dtype=_nu.dtype)
+        E = np.empty(_nu.shape, dtype=_float_dtype(_nu))
         hyp = e > 1
         per = e == 1
         eli = e < 1
@@ -708,7 +719,7 @@ def eccentric_to_true(E, e, degrees=False):
         if _E.shape != e.shape:
             raise TypeError('Input dimensions does not agree')
 
-        nu = np.empty(_E.shape, dtype=_E.dtype)
+        nu = np.empty(_E.shape, dtype=_float_dtype(_E))
         hyp = e > 1
         per = e == 1
         eli = e < 1
@@ -767,7 +778,7 @@ def eccentric_to_mean(E, e, degrees=False):
         if _E.shape != e.shape:
             raise TypeError('Input dimensions does not agree')
 
-        M = np.empty(_E.shape, dtype=_E.dtype)
+        M = np.empty(_E.shape, dtype=_float_dtype(_E))
         hyp = e > 1
         per = e == 1
         eli = e < 1
@@ -1214,7 +1225,7 @@ def kepler_guess(M, e):
         if M.shape != e.shape:
             raise TypeError('Input dimensions does not agree')
 
-        E0 = np.empty(M.shape, dtype=M.dtype)
+        E0 = np.empty(M.shape, dtype=_float_dtype(M))
         if M.size == 0:
             return E0
 
@@ -1299,7 +1310,7 @@ def mean_to_eccentric(M, e, solver_options=None, degrees=False):
         if _M.shape != e.shape:
             raise TypeError(f'Input dimensions does not agree \
                 M:{_M.shape} != e:{e.shape}')
-        E = np.empty(_M.shape, dtype=_M.dtype)
+        E = np.empty(_M.shape, dtype=_float_dtype(_M))
         if _M.size == 0:
             return E
 
@@ -1719,7 +1730,7 @@ def kep_to_cart(kep, mu=GM_sol, degrees=False):
             along axis 0: input shape is {kep.shape}')
 
     # the conversion works on its own copy, the input belongs to the caller
-    kep = np.array(kep, order='C')
+    kep = np.array(kep, dtype=_float_dtype(kep), order='C')
 
     if len(kep.shape) < 2:
         input_is_vector = True
-- 
2.43.0


From ba1af49d7a3f7567aff68eb10392fba02860e719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 06/27] fix: anomaly conversions of missing values give NaN

Array members with a NaN eccentricity belong to no branch and were returned as
uninitialised memory; the scalar versions return NaN.
---
 pyorb/kepler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index d4b4efa..ff9d9d4 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -659,7 +659,7 @@ def true_to_eccentric(nu, e, degrees=False):
         if _nu.shape != e.shape:
             raise TypeError('Input dimensions does not agree')
 
-        E = np.empty(_nu.shape, dtype=_float_dtype(_nu))
+        E = np.full(_nu.shape, np.nan, dtype=_float_dtype(_nu))
         hyp = e > 1
         per = e == 1
         eli = e < 1
@@ -719,7 +719,7 @@ def eccentric_to_true(E, e, degrees=False):
         if _E.shape != e.shape:
             raise TypeError('Input dimensions does not agree')
 
-        nu = np.empty(_E.shape, dtype=_float_dtype(_E))
+        nu = np.full(_E.shape, np.nan, dtype=_float_dtype(_E))
         hyp = e > 1
         per = e == 1
         eli = e < 1
@@ -778,7 +778,7 @@ def eccentric_to_mean(E, e, degrees=False):
         if _E.shape != e.shape:
             raise TypeError('Input dimensions does not agree')
 
-        M = np.empty(_E.shape, dtype=_float_dtype(_E))
+        M = np.full(_E.shape, np.nan, dtype=_float_dtype(_E))
         hyp = e > 1
         per = e == 1
         eli = e < 1
-- 
2.43.0


From ed07164d600f7d7c9dc7f14ab7518fa923b79b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 07/27] fix: Stumpff functions of scalars, integers and small
 arguments

Scalars (documented as accepted) raised TypeError, integer arrays were
truncated, and c2 and c3 lost all digits to cancellation close to zero.
---
 pyorb/kepler.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index ff9d9d4..220d156 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1479,6 +1479,13 @@ def true_of_the_asymptote(e, degrees=False):
     return theta_inf
 
 
+def _as_float(x):
+    '''Input as a floating point array, a scalar becomes zero-dimensional.
+    '''
+    x = np.asarray(x)
+    return x.astype(_float_dtype(x), copy=False)
+
+
 def stumpff0(x):
     '''Calculates the Stumpff function number 0 value [1]_.
 
@@ -1496,6 +1503,7 @@ def stumpff0(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
+    x = _as_float(x)
     c0 = np.empty_like(x)
     inds = x > 0
     c0[inds] = np.cos(np.sqrt(x[inds]))
@@ -1504,7 +1512,7 @@ def stumpff0(x):
 
     inds = x < 0
     c0[inds] = np.cosh(np.sqrt(-x[inds]))
-    return c0
+    return c0[()]
 
 
 def stumpff1(x):
@@ -1524,6 +1532,7 @@ def stumpff1(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
+    x = _as_float(x)
     c1 = np.empty_like(x)
     inds = x > 0
     c1[inds] = np.sin(np.sqrt(x[inds]))/np.sqrt(x[inds])
@@ -1532,7 +1541,7 @@ def stumpff1(x):
 
     inds = x < 0
     c1[inds] = np.sinh(np.sqrt(-x[inds]))/np.sqrt(-x[inds])
-    return c1
+    return c1[()]
 
 
 def stumpff2(x):
@@ -1552,15 +1561,17 @@ def stumpff2(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
+    x = _as_float(x)
     c2 = np.empty_like(x)
     inds = x > 0
-    c2[inds] = (1 - np.cos(np.sqrt(x[inds])))/x[inds]
+    # half angles, 1 - cos cancels close to zero
+    c2[inds] = 2*np.sin(np.sqrt(x[inds])/2)**2/x[inds]
 
     c2[x == 0] = 0.5
 
     inds = x < 0
-    c2[inds] = (1 - np.cosh(np.sqrt(-x[inds])))/x[inds]
-    return c2
+    c2[inds] = -2*np.sinh(np.sqrt(-x[inds])/2)**2/x[inds]
+    return c2[()]
 
 
 def stumpff3(x):
@@ -1580,6 +1591,7 @@ def stumpff3(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
+    x = _as_float(x)
     c3 = np.empty_like(x)
     inds = x > 0
     xsq = np.sqrt(x[inds])
@@ -1590,7 +1602,15 @@ def stumpff3(x):
     inds = x < 0
     xsq = np.sqrt(-x[inds])
     c3[inds] = (xsq - np.sinh(xsq))/(xsq*x[inds])
-    return c3
+
+    # the closed forms cancel close to zero, use the defining series
+    inds = np.abs(x) < 1
+    term = np.full_like(x[inds], 1/6)
+    c3[inds] = term
+    for j in range(1, 9):
+        term = -term*x[inds]/((2*j + 2)*(2*j + 3))
+        c3[inds] += term
+    return c3[()]
 
 
 def stumpff(x):
-- 
2.43.0


From c4e642a4b6866874924ab83f5deef5bde6ddeffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 08/27] fix: cart_to_kep of exactly parabolic states

The semi-major axis was infinite (or zero energy with rounded eccentricity gave
a negative one), while kep_to_cart and the parabolic formulas use the periapsis
distance; states could not be converted back.
---
 pyorb/kepler.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 220d156..4c97ad4 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -414,13 +414,18 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
     # e < 1
     # and
     # e >= 1
-    e_hyp = o[1, :] >= 1
-    o[0, :] = -mu/(2.0*epsilon)
-    o[0, e_hyp] = -o[0, e_hyp]
+    # positive for ellipses and hyperbolas alike
+    o[0, :] = np.abs(mu/(2.0*epsilon))
 
     # ## ANUGLAR MOMENTUM ###
     h = np.cross(r, v, axisa=0, axisb=0, axisc=0)
     hn = np.linalg.norm(h, axis=0)
+
+    # parabolic orbits: no semi-major axis, use the periapsis distance
+    per = np.logical_or(o[1, :] == 1, epsilon == 0)
+    o[1, per] = 1
+    o[0, per] = (hn**2/(2.0*mu))[per]
+
     o[2, :] = np.arccos(h[2, :]/hn)
 
     # possible cases
-- 
2.43.0


From b7bc9e4bfe54d0438515d070d3ba0dde1e38b4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 09/27] fix: kep_equivalent compares eccentricity and the node
 of planar orbits

Orbits differing only in eccentricity, and planar orbits whose longitude of
periapsis differs through the node, were reported equivalent; the answer could
also depend on the argument order close to the tolerance.
---
 pyorb/kepler.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 4c97ad4..2b777f4 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -565,30 +565,36 @@ def kep_equivalent(kep1, kep2):
 
     if len(kep1.shape) > 1 or len(kep2.shape) > 1:
         raise ValueError('Only vector inputs for now')
-    if np.allclose(kep1, kep2):
+    def close(x, y):
+        # the tolerance must not depend on which one is the reference
+        return np.all(np.isclose(x, y) | np.isclose(y, x))
+
+    if close(kep1, kep2):
         return True
 
-    if not np.isclose(kep1[K_a], kep2[K_a]):
+    if not close(kep1[K_a], kep2[K_a]) or not close(kep1[K_e], kep2[K_e]):
         return False
 
-    # if eccentricity is (near) zero, then only the sum of omega and nu matter
-    if kep1[K_e] < e_lim and kep2[K_e] < e_lim:
-        if not np.isclose(kep1[K_om] + kep1[K_nu], kep2[K_om] + kep2[K_nu]):
-            return False
-    else:  # otherwise, they must match up individually
-        if (
-            not np.isclose(kep1[K_om], kep2[K_om])
-            or not np.isclose(kep1[K_nu], kep2[K_nu])
-        ):
-            return False
+    om1, om2 = kep1[K_om], kep2[K_om]
 
     # if inclination is non-zero, then Omega matters
     if kep1[K_i] > i_lim or kep2[K_i] > i_lim:
         if (
-            not np.isclose(kep1[K_i], kep2[K_i])
-            or not np.isclose(kep1[K_OM], kep2[K_OM])
+            not close(kep1[K_i], kep2[K_i])
+            or not close(kep1[K_OM], kep2[K_OM])
         ):
             return False
+    else:  # otherwise, only the sum of omega and Omega matters
+        om1 = om1 + kep1[K_OM]
+        om2 = om2 + kep2[K_OM]
+
+    # if eccentricity is (near) zero, then only the sum of omega and nu matter
+    if kep1[K_e] < e_lim and kep2[K_e] < e_lim:
+        if not close(om1 + kep1[K_nu], om2 + kep2[K_nu]):
+            return False
+    else:  # otherwise, they must match up individually
+        if not close(om1, om2) or not close(kep1[K_nu], kep2[K_nu]):
+            return False
     # Otherwise, we should be good
     return True
 
-- 
2.43.0


From e4a757c16fa0afe12a8594e61f8e15293049b81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 10/27] fix: angle_units accepts declared positional angles
 passed by keyword

In degree mode a declared index beyond the positional arguments of the call
raised IndexError instead of being handled by the declared keyword.
---
 pyorb/unit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyorb/unit.py b/pyorb/unit.py
index 23f5833..100aaad 100644
--- a/pyorb/unit.py
+++ b/pyorb/unit.py
@@ -80,6 +80,9 @@ def angle_units(in_arg_inds, in_arg_keys, out_arg_inds, degrees=False):
             args = list(args)
             if in_arg_inds is not None:
                 for ind in in_arg_inds:
+                    if ind >= len(args):
+                        # passed by keyword or left at its default
+                        continue
                     args[ind] = np.radians(args[ind])
             if in_arg_keys is not None:
                 for key in in_arg_keys:
-- 
2.43.0


From 15f336fabdefc07551ca3a8f0a3e68d9548981a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 11/27] fix: switching anomaly type no longer moves the orbit

With immediate updating the new anomaly was converted to Cartesian while the
old type was still set, giving a wrong state.
---
 pyorb/orbit.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index a735a50..37eb8fc 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -222,12 +222,16 @@ class Orbit:
         if val not in Orbit.ANOMALY:
             raise ValueError(f'Anomaly type "{val}" not recognized')
         if self.__type != val:
+            if self.kepler_read_only:
+                raise AttributeError('Cannot update read only Kepler elements')
+            # only the representation changes, not the orbit: no conversion
+            # to cartesian is needed
             if val == 'true':
-                self.anom = self.true_anomaly
+                self._kep[5, :] = self.true_anomaly
             elif val == 'eccentric':
-                self.anom = self.eccentric_anomaly
+                self._kep[5, :] = self.eccentric_anomaly
             elif val == 'mean':
-                self.anom = self.mean_anomaly
+                self._kep[5, :] = self.mean_anomaly
             self.__type = val
 
     def propagate(self, dt):
-- 
2.43.0


From adca01173f9104e325d88e6812f6d799de2b417c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 12/27] fix: the period setter takes a value

Setting the period, or the mean motion through it, raised TypeError.
---
 pyorb/orbit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 37eb8fc..53b0fd6 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -1051,11 +1051,11 @@ class Orbit:
         return functions.orbital_period(self.a, self.G*(self.M0 + self.m))
 
     @period.setter
-    def period(self):
+    def period(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
         self.a = functions.semi_major_axis(
-            self.period,
+            value,
             self.G*(self.M0 + self.m),
         )
         if self.direct_update:
-- 
2.43.0


From ad673ae7fce4c175c4292185f6c714288526069a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 13/27] fix: calc_eccentric_anomaly stores only the selected
 orbits

For the mean type the whole array was replaced by the selection, so that later
calls and deletions failed.
---
 pyorb/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 53b0fd6..25d383e 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -889,7 +889,7 @@ class Orbit:
         :code:`self._eccentric_anomaly`.
         '''
         if self.type == 'mean':
-            self._eccentric_anomaly = functions.mean_to_eccentric(
+            self._eccentric_anomaly[inds] = functions.mean_to_eccentric(
                 self.anom[inds],
                 self.e[inds],
                 solver_options = self.solver_options,
-- 
2.43.0


From 17a06e94fd77ab59f28cfcc26c25de3bf790f303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 14/27] fix: deferred updating loses writes to elements of a
 stale view

Setting some elements of a view that was waiting for recalculation wrote over
outdated values and the pending recalculation then overwrote the new ones. The
view is now brought up to date before a partial write, and marked as current
after every write.
---
 pyorb/orbit.py | 48 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 25d383e..fcf3b75 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -378,10 +378,10 @@ class Orbit:
                 raise AttributeError('Cannot update read only \
                     Cartesian elements')
             self._cart[:, inds] = kwargs['cartesian']
+            self.__cart_calculated[inds] = True
             if self.direct_update:
                 self.calculate_kepler()
             else:
-                self.__cart_calculated[inds] = True
                 self.__kep_calculated[inds] = False
             return
 
@@ -389,10 +389,10 @@ class Orbit:
             if self.kepler_read_only:
                 raise AttributeError('Cannot update read only Kepler elements')
             self._kep[:, inds] = kwargs['kepler']
+            self.__kep_calculated[inds] = True
             if self.direct_update:
                 self.calculate_cartesian()
             else:
-                self.__kep_calculated[inds] = True
                 self.__cart_calculated[inds] = False
             return
 
@@ -413,6 +413,12 @@ class Orbit:
                         Keplerian elements simultaneously.')
                 kep_updated = True
 
+        # elements that are not updated here have to be current
+        if cart_updated:
+            self._cart_check()
+        if kep_updated:
+            self._kep_check()
+
         if 'm' in kwargs:
             if self.direct_update:
                 raise ValueError('Cannot set "m" and direct update, \
@@ -423,22 +429,22 @@ class Orbit:
             for ind, key in enumerate(Orbit.CARTESIAN):
                 if key in kwargs:
                     self._cart[ind, inds] = kwargs[key]
+            self.__cart_calculated[inds] = True
 
             if self.direct_update:
                 self.calculate_kepler()
             else:
                 self.__kep_calculated[inds] = False
-                self.__cart_calculated[inds] = True
         if kep_updated:
             for ind, key in enumerate(Orbit.KEPLER):
                 if key in kwargs:
                     self._kep[ind, inds] = kwargs[key]
+            self.__kep_calculated[inds] = True
 
             if self.direct_update:
                 self.calculate_cartesian()
             else:
                 self.__cart_calculated[inds] = False
-                self.__kep_calculated[inds] = True
 
     def calculate_cartesian(self, inds=slice(None, None, None)):
         '''Calculates Cartesian elements based on Keplerian elements
@@ -525,13 +531,14 @@ class Orbit:
     def r(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[:3, :] = value
+        self.__cart_calculated[:] = True
 
         if self.direct_update:
             self.calculate_kepler()
         else:
             self.__kep_calculated[:] = False
-            self.__cart_calculated[:] = True
 
     @property
     def v(self):
@@ -544,13 +551,14 @@ class Orbit:
     def v(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[3:, :] = value
+        self.__cart_calculated[:] = True
 
         if self.direct_update:
             self.calculate_kepler()
         else:
             self.__kep_calculated[:] = False
-            self.__cart_calculated[:] = True
 
     @property
     def cartesian(self):
@@ -570,12 +578,12 @@ class Orbit:
                 self._cart[:, :] = value[:, :]
         else:
             self._cart[:, :] = value
+        self.__cart_calculated[:] = True
 
         if self.direct_update:
             self.calculate_kepler()
         else:
             self.__kep_calculated[:] = False
-            self.__cart_calculated[:] = True
 
     @property
     def x(self):
@@ -588,7 +596,9 @@ class Orbit:
     def x(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[0, :] = value
+        self.__cart_calculated[:] = True
 
         if self.direct_update:
             self.calculate_kepler()
@@ -606,7 +616,9 @@ class Orbit:
     def y(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[1, :] = value
+        self.__cart_calculated[:] = True
 
         if self.direct_update:
             self.calculate_kepler()
@@ -624,7 +636,9 @@ class Orbit:
     def z(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[2, :] = value
+        self.__cart_calculated[:] = True
 
         if self.direct_update:
             self.calculate_kepler()
@@ -642,7 +656,9 @@ class Orbit:
     def vx(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[3, :] = value
+        self.__cart_calculated[:] = True
 
         if self.direct_update:
             self.calculate_kepler()
@@ -660,7 +676,9 @@ class Orbit:
     def vy(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[4, :] = value
+        self.__cart_calculated[:] = True
 
         if self.direct_update:
             self.calculate_kepler()
@@ -678,7 +696,9 @@ class Orbit:
     def vz(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[5, :] = value
+        self.__cart_calculated[:] = True
 
         if self.direct_update:
             self.calculate_kepler()
@@ -703,12 +723,12 @@ class Orbit:
                 self._kep[:, :] = value[:, :]
         else:
             self._kep[:, :] = value
+        self.__kep_calculated[:] = True
 
         if self.direct_update:
             self.calculate_cartesian()
         else:
             self.__cart_calculated[:] = False
-            self.__kep_calculated[:] = True
 
     @property
     def a(self):
@@ -721,7 +741,9 @@ class Orbit:
     def a(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[0, :] = value
+        self.__kep_calculated[:] = True
 
         if self.direct_update:
             self.calculate_cartesian()
@@ -739,7 +761,9 @@ class Orbit:
     def e(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[1, :] = value
+        self.__kep_calculated[:] = True
 
         if self.direct_update:
             self.calculate_cartesian()
@@ -757,7 +781,9 @@ class Orbit:
     def i(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[2, :] = value
+        self.__kep_calculated[:] = True
 
         if self.direct_update:
             self.calculate_cartesian()
@@ -775,7 +801,9 @@ class Orbit:
     def omega(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[3, :] = value
+        self.__kep_calculated[:] = True
 
         if self.direct_update:
             self.calculate_cartesian()
@@ -793,7 +821,9 @@ class Orbit:
     def Omega(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[4, :] = value
+        self.__kep_calculated[:] = True
 
         if self.direct_update:
             self.calculate_cartesian()
@@ -812,7 +842,9 @@ class Orbit:
     def anom(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[5, :] = value
+        self.__kep_calculated[:] = True
 
         if self.direct_update:
             self.calculate_cartesian()
-- 
2.43.0


From dd0c04bf63bbf767568519675f8e5d1c81ecd133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 15/27] fix: indexing, iterating and copying keep pending
 automatic updates

With deferred updating the copy of an orbit waiting for recalculation returned
outdated values.
---
 pyorb/orbit.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index fcf3b75..8ef29fa 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -196,6 +196,12 @@ class Orbit:
             tmp_orb._cart.shape = (6, 1)
             tmp_orb._kep.shape = (6, 1)
 
+        # pending automatic updates are pending in the copy as well
+        tmp_orb.__cart_calculated = np.atleast_1d(
+            self.__cart_calculated[inds]).copy()
+        tmp_orb.__kep_calculated = np.atleast_1d(
+            self.__kep_calculated[inds]).copy()
+
         return tmp_orb
 
     def __len__(self):
-- 
2.43.0


From da763552825fb29ca00d8e18632b50a1245564e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 16/27] fix: updating selected orbits leaves the others
 untouched

With immediate updating every orbit was recalculated, so adding or updating one
orbit changed stored elements of the others.
---
 pyorb/orbit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 8ef29fa..feca8f1 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -386,7 +386,7 @@ class Orbit:
             self._cart[:, inds] = kwargs['cartesian']
             self.__cart_calculated[inds] = True
             if self.direct_update:
-                self.calculate_kepler()
+                self.calculate_kepler(inds)
             else:
                 self.__kep_calculated[inds] = False
             return
@@ -397,7 +397,7 @@ class Orbit:
             self._kep[:, inds] = kwargs['kepler']
             self.__kep_calculated[inds] = True
             if self.direct_update:
-                self.calculate_cartesian()
+                self.calculate_cartesian(inds)
             else:
                 self.__cart_calculated[inds] = False
             return
@@ -438,7 +438,7 @@ class Orbit:
             self.__cart_calculated[inds] = True
 
             if self.direct_update:
-                self.calculate_kepler()
+                self.calculate_kepler(inds)
             else:
                 self.__kep_calculated[inds] = False
         if kep_updated:
@@ -448,7 +448,7 @@ class Orbit:
             self.__kep_calculated[inds] = True
 
             if self.direct_update:
-                self.calculate_cartesian()
+                self.calculate_cartesian(inds)
             else:
                 self.__cart_calculated[inds] = False
 
-- 
2.43.0


From 928377c5eeafb08b9beb085513508abefdb64180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 17/27] fix: propagation of hyperbolic and parabolic orbits

The mean anomaly of unbound orbits was wrapped to one turn, and the parabolic
mean motion did not match the parabolic mean anomaly (off by a factor of the
square root of two).
---
 pyorb/orbit.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index feca8f1..d0a3d80 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -248,8 +248,10 @@ class Orbit:
             wrap_ = 360.0
         else:
             wrap_ = 2*np.pi
-        self.mean_anomaly = np.mod(
-            self.mean_anomaly + self.mean_motion*dt, wrap_)
+        mean_anomaly = self.mean_anomaly + self.mean_motion*dt
+        # only bound orbits are periodic
+        self.mean_anomaly = np.where(
+            self.e < 1, np.mod(mean_anomaly, wrap_), mean_anomaly)
         if self.direct_update:
             self.calculate_cartesian()
 
@@ -866,7 +868,9 @@ class Orbit:
         else:
             norm_ = np.pi*2.0
 
-        return norm_/self.period
+        # for parabolas `a` is the periapsis distance q and the mean anomaly
+        # advances by sqrt(mu/(2q^3))
+        return norm_/self.period*np.where(self.e == 1, np.sqrt(0.5), 1.0)
 
     @mean_motion.setter
     def mean_motion(self, value):
@@ -876,7 +880,7 @@ class Orbit:
             norm_ = 360.0
         else:
             norm_ = np.pi*2.0
-        self.period = norm_/value
+        self.period = norm_/value*np.where(self.e == 1, np.sqrt(0.5), 1.0)
 
         if self.direct_update:
             self.calculate_cartesian()
-- 
2.43.0


From ab046735ceb7617e1590946f6d88a68d85f514cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 18/27] fix: speed and periapsis of unbound orbits

The speed of hyperbolic and parabolic orbits used the elliptic radius and sign
of the semi-major axis, and the periapsis was negative or zero.
---
 pyorb/orbit.py | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index d0a3d80..0c0da51 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -1061,7 +1061,9 @@ class Orbit:
 
     @property
     def periapsis(self):
-        return (1.0 - self.e)*self.a
+        # for parabolas `a` is the periapsis distance
+        e = self.e
+        return np.where(e == 1, 1.0, np.abs(1.0 - e))*self.a
 
     @property
     def mean_longitude(self):
@@ -1128,13 +1130,29 @@ class Orbit:
         '''Orbital speed (from kepler)
         '''
         self._kep_check()
-        return functions.orbital_speed(
-            functions.elliptic_radius(
-                self.eccentric_anomaly,
-                self.a,
-                self.e,
-                degrees=self.degrees,
-            ),
+        r = functions.elliptic_radius(
+            self.eccentric_anomaly,
             self.a,
-            self.G*(self.M0 + self.m),
+            self.e,
+            degrees=self.degrees,
         )
+        a = self.a
+        # vis-viva has negative a for hyperbolas and infinite for parabolas
+        hyp = self.e > 1
+        par = self.e == 1
+        if np.any(hyp):
+            r[hyp] = functions.hyperbolic_radius(
+                self.true_anomaly[hyp],
+                a[hyp],
+                self.e[hyp],
+                degrees=self.degrees,
+            )
+            a[hyp] = -a[hyp]
+        if np.any(par):
+            r[par] = functions.parabolic_radius(
+                self.true_anomaly[par],
+                a[par],
+                degrees=self.degrees,
+            )
+            a[par] = np.inf
+        return functions.orbital_speed(r, a, self.G*(self.M0 + self.m))
-- 
2.43.0


From b8d7a30308789c9dc9f7f12c87558efe3380ace5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 19/27] fix: the equinoctial setter writes one complete set of
 elements

It stored five elements and then set the mean anomaly, which with deferred
updating discarded them for outdated ones, and left a read-only orbit half
modified.
---
 pyorb/orbit.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 0c0da51..b28f4b7 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -1080,12 +1080,24 @@ class Orbit:
 
     @equinoctial.setter
     def equinoctial(self, vals):
+        if self.kepler_read_only:
+            raise AttributeError('Cannot update read only Kepler elements')
         elems = functions.equi_to_kep(vals, degrees=self.degrees)
-        tmp_elms = elems[:5, ...]
-        if len(tmp_elms.shape) == 1:
-            tmp_elms.shape = (5, 1)
-        self._kep[:5, ...] = tmp_elms
-        self.mean_anomaly = elems[5, ...]
+        if self.type == 'true':
+            elems[5, ...] = functions.mean_to_true(
+                elems[5, ...],
+                elems[1, ...],
+                solver_options = self.solver_options,
+                degrees = self.degrees,
+            )
+        elif self.type == 'eccentric':
+            elems[5, ...] = functions.mean_to_eccentric(
+                elems[5, ...],
+                elems[1, ...],
+                solver_options = self.solver_options,
+                degrees = self.degrees,
+            )
+        self.kepler = elems
 
     @property
     def period(self):
-- 
2.43.0


From 76fb39e4992afe2f4b50696965f08c8c9f278324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 20/27] fix: update takes one state vector for all selected
 orbits

update(kepler=vector) is documented to be interpreted as the kepler setter does,
but failed, or spread the six elements over six orbits.
---
 pyorb/orbit.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index b28f4b7..7f8888c 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -385,7 +385,11 @@ class Orbit:
             if self.cartesian_read_only:
                 raise AttributeError('Cannot update read only \
                     Cartesian elements')
-            self._cart[:, inds] = kwargs['cartesian']
+            inds = np.atleast_1d(np.arange(self.num)[inds])
+            value = kwargs['cartesian']
+            if isinstance(value, np.ndarray) and len(value.shape) == 1:
+                value = value[:, None]
+            self._cart[:, inds] = value
             self.__cart_calculated[inds] = True
             if self.direct_update:
                 self.calculate_kepler(inds)
@@ -396,7 +400,11 @@ class Orbit:
         if 'kepler' in kwargs:
             if self.kepler_read_only:
                 raise AttributeError('Cannot update read only Kepler elements')
-            self._kep[:, inds] = kwargs['kepler']
+            inds = np.atleast_1d(np.arange(self.num)[inds])
+            value = kwargs['kepler']
+            if isinstance(value, np.ndarray) and len(value.shape) == 1:
+                value = value[:, None]
+            self._kep[:, inds] = value
             self.__kep_calculated[inds] = True
             if self.direct_update:
                 self.calculate_cartesian(inds)
-- 
2.43.0


From 358de69a3d9d782f3d6f1611da5bf20758574b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 21/27] fix: nested iteration over the same orbit object

The iteration position was shared between all iterations over one instance.
---
 pyorb/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 7f8888c..7270bdd 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -209,7 +209,7 @@ class Orbit:
 
     def __iter__(self):
         self.__it = 0
-        return self
+        return (self[ind] for ind in range(self.num))
 
     def __next__(self):
         if self.__it < self.num:
-- 
2.43.0


From c3686b5f2e0df8a392d9fe731be4dc78964ba275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 22/27] fix: a rejected add leaves no empty orbits behind

Adding orbits with both kinds of elements, or through a read-only view, raised
after the space for them had been appended.
---
 pyorb/orbit.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 7270bdd..55b68c1 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -332,7 +332,12 @@ class Orbit:
             self.m[inds] = kwargs['m']
             del kwargs['m']
 
-        self.update(inds = inds, **kwargs)
+        try:
+            self.update(inds = inds, **kwargs)
+        except (AttributeError, ValueError):
+            # rejected, do not keep the empty orbits
+            self.delete(inds)
+            raise
 
     def allocate(self, num):
         '''Changes the current allocation of orbits to a fixed number.
-- 
2.43.0


From e81580bde7763b1a987a99eacfb3d41c8f9db037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 23/27] fix: printing an orbit shows its current elements

With deferred updating the text showed outdated or missing values.
---
 pyorb/orbit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 55b68c1..9bfba33 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -140,8 +140,8 @@ class Orbit:
                 f'{kkey:<5}: {kval:<.4e}   {ckey:<2}: {cval:<.4e}'
                 for kval, kkey, cval, ckey in
                 zip(
-                    self._kep[:, 0], Orbit.KEPLER,
-                    self._cart[:, 0], Orbit.CARTESIAN
+                    self.kepler[:, 0], Orbit.KEPLER,
+                    self.cartesian[:, 0], Orbit.CARTESIAN
                 )
             ])
         else:
-- 
2.43.0


From d71b4c01334425e17bec96e68e8d02d4197f0568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:54 +0000
Subject: [PATCH 24/27] fix: second Stumpff function of subnormal arguments

---
 pyorb/kepler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 2b777f4..955ca6d 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1576,12 +1576,14 @@ def stumpff2(x):
     c2 = np.empty_like(x)
     inds = x > 0
     # half angles, 1 - cos cancels close to zero
-    c2[inds] = 2*np.sin(np.sqrt(x[inds])/2)**2/x[inds]
+    xsq = np.sqrt(x[inds])
+    c2[inds] = 2*(np.sin(xsq/2)/xsq)**2
 
     c2[x == 0] = 0.5
 
     inds = x < 0
-    c2[inds] = -2*np.sinh(np.sqrt(-x[inds])/2)**2/x[inds]
+    xsq = np.sqrt(-x[inds])
+    c2[inds] = 2*(np.sinh(xsq/2)/xsq)**2
     return c2[()]
 
 
-- 
2.43.0


From 1f6971b330d98a1a80d55e88b43dbec30634f61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:42 +0000
Subject: [PATCH 25/27] fix: angular momenta and distances of integer inputs
 that overflow

---
 pyorb/kepler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 955ca6d..abf7897 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -617,7 +617,7 @@ def orbit_total_angular_momentum(a, e, mu):
         Total angular momentum.
 
     '''
-    return np.sqrt(mu*a*(1 - e**2))
+    return np.sqrt(mu*(1.0 - e**2)*a)
 
 
 def parabolic_total_angular_momentum(q, mu):
@@ -636,7 +636,7 @@ def parabolic_total_angular_momentum(q, mu):
         Total angular momentum.
 
     '''
-    return np.sqrt(mu*2*q)
+    return np.sqrt(2.0*mu*q)
 
 
 def true_to_eccentric(nu, e, degrees=False):
@@ -870,7 +870,7 @@ def orbital_distance(h, mu, e, nu, degrees=False):
     else:
         _nu = nu
 
-    return h**2/(mu*(1 + e*np.cos(_nu)))
+    return h**2.0/(mu*(1 + e*np.cos(_nu)))
 
 
 def elliptic_radius(E, a, e, degrees=False):
-- 
2.43.0


From 72332f955ee7dce3b7745c81b770ecb3b11740b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:27 +0000
Subject: [PATCH 26/27] fix: add with masses that do not fit leaves no empty
 orbits behind

---
 pyorb/orbit.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 9bfba33..caa7b66 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -328,13 +328,13 @@ class Orbit:
             axis=0,
         )
 
-        if 'm' in kwargs:
-            self.m[inds] = kwargs['m']
-            del kwargs['m']
-
         try:
+            if 'm' in kwargs:
+                self.m[inds] = kwargs['m']
+                del kwargs['m']
+
             self.update(inds = inds, **kwargs)
-        except (AttributeError, ValueError):
+        except (AttributeError, TypeError, ValueError):
             # rejected, do not keep the empty orbits
             self.delete(inds)
             raise
-- 
2.43.0


From ea0714beb567eb8626cdff90377ad408ea4024a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:27 +0000
Subject: [PATCH 27/27] fix: update rejects values that do not fit before
 writing any

---
 pyorb/orbit.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index caa7b66..2046b99 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -434,6 +434,12 @@ class Orbit:
                         Keplerian elements simultaneously.')
                 kep_updated = True
 
+        # a value that does not fit is rejected before anything is written
+        fits = np.empty((1, self.num), dtype=self.dtype)
+        for key in Orbit.CARTESIAN + Orbit.KEPLER + ['m']:
+            if key in kwargs:
+                fits[0, inds] = kwargs[key]
+
         # elements that are not updated here have to be current
         if cart_updated:
             self._cart_check()
-- 
2.43.0

