From c739d28aeaa44137b1ca1b49196588275237c90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:37 +0000
Subject: [PATCH 01/20] fix: carry the residual through the Kepler solver loops
 so batched solves terminate

---
 src/astrodynx/twobody/_kep_equ.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/astrodynx/twobody/_kep_equ.py b/src/astrodynx/twobody/_kep_equ.py
index a91572c..c2dafa6 100644
--- a/src/astrodynx/twobody/_kep_equ.py
+++ b/src/astrodynx/twobody/_kep_equ.py
@@ -434,17 +434,18 @@ def solve_kepler_hypb(
     H0 = jnp.log(2 * N / e + jnp.sqrt((2 * N / e) ** 2 + 1))
 
     def cond_fn(val: tuple[int, Array, Array]) -> Array:
-        iter_count, H, _ = val
-        not_converged = jnp.abs(kepler_equ_hypb(H, e, N)) > tol
+        iter_count, _, f = val
+        not_converged = jnp.abs(f) > tol
         under_max_iter = iter_count < max_iter
         return not_converged & under_max_iter
 
     def body_fn(val: tuple[int, Array, Array]) -> Array:
-        iter_count, H, _ = val
-        H_new = H - kepler_equ_hypb(H, e, N) / dH(H, e)
-        return (iter_count + 1, H_new, H)
+        iter_count, H, f = val
+        H_new = H - f / dH(H, e)
+        return (iter_count + 1, H_new, kepler_equ_hypb(H_new, e, N))
 
-    _, H, _ = jax.lax.while_loop(cond_fn, body_fn, (0, H0, H0 + 2 * tol))
+    f0 = kepler_equ_hypb(H0, e, N)
+    _, H, _ = jax.lax.while_loop(cond_fn, body_fn, (0, H0, f0))
     return H
 
 
@@ -501,19 +502,17 @@ def solve_kepler_uni(
     chi0 = jnp.sqrt(mu) * jnp.abs(alpha) * deltat
 
     def cond_fn(val: tuple[int, Array, Array]) -> Array:
-        iter_count, chi, _ = val
-        not_converged = (
-            jnp.abs(kepler_equ_uni(chi, alpha, r0, sigma0, deltat, mu)) > tol
-        )
+        iter_count, _, f = val
+        not_converged = jnp.abs(f) > tol
         under_max_iter = iter_count < max_iter
         return not_converged & under_max_iter
 
     def body_fn(val: tuple[int, Array, Array]) -> Array:
-        iter_count, chi, _ = val
-        chi_new = chi - kepler_equ_uni(chi, alpha, r0, sigma0, deltat, mu) / dchi(
-            chi, alpha, r0, sigma0
-        )
-        return (iter_count + 1, chi_new, chi)
+        iter_count, chi, f = val
+        chi_new = chi - f / dchi(chi, alpha, r0, sigma0)
+        f_new = kepler_equ_uni(chi_new, alpha, r0, sigma0, deltat, mu)
+        return (iter_count + 1, chi_new, f_new)
 
-    _, chi, _ = jax.lax.while_loop(cond_fn, body_fn, (0, chi0, chi0 + 2 * tol))
+    f0 = kepler_equ_uni(chi0, alpha, r0, sigma0, deltat, mu)
+    _, chi, _ = jax.lax.while_loop(cond_fn, body_fn, (0, chi0, f0))
     return chi
-- 
2.43.0


From 74b19bb709e01c345a59fad37d8dc87ed3ac527b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:13 +0000
Subject: [PATCH 02/20] fix: let prop.kepler be traced by jit and vmap

---
 src/astrodynx/prop/_kepler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/astrodynx/prop/_kepler.py b/src/astrodynx/prop/_kepler.py
index e29e81b..43c98f1 100644
--- a/src/astrodynx/prop/_kepler.py
+++ b/src/astrodynx/prop/_kepler.py
@@ -97,7 +97,7 @@ def kepler(
     sigma0 = sigma_fn(r0_vec, v0_vec, mu)
 
     chi = jax.vmap(solve_kepler_uni, in_axes=(0, None, None, None, None))(
-        jnp.atleast_1d(ts), alpha.item(), r0.item(), sigma0.item(), mu
+        jnp.atleast_1d(ts), alpha, r0, sigma0[0], mu
     )
     F = lagrange_F(ufunc2(chi, alpha), r0)
     G = lagrange_G(
-- 
2.43.0


From 5e4efd9eae1139ca7d7299c64b4f13700a7e2df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:13 +0000
Subject: [PATCH 03/20] fix: make solve_kepler_elps converge for near-parabolic
 eccentricities

---
 src/astrodynx/twobody/_kep_equ.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/astrodynx/twobody/_kep_equ.py b/src/astrodynx/twobody/_kep_equ.py
index c2dafa6..e92843c 100644
--- a/src/astrodynx/twobody/_kep_equ.py
+++ b/src/astrodynx/twobody/_kep_equ.py
@@ -345,6 +345,15 @@ def generalized_anomaly(
     return alpha * jnp.sqrt(mu) * deltat + sigma - sigma0
 
 
+def _laguerre_step(f: ArrayLike, df: ArrayLike, ddf: ArrayLike) -> Array:
+    r"""The Laguerre-Conway root-finding step for f = 0 with df > 0.
+
+    References:
+        Conway, 1986, An improved algorithm due to Laguerre for the solution of Kepler's equation.
+    """
+    return -5 * f / (df + jnp.sqrt(jnp.abs(16 * df**2 - 20 * f * ddf)))
+
+
 def solve_kepler_elps(
     M: DTypeLike, e: DTypeLike, tol: DTypeLike = 1e-6, max_iter: int = 20
 ) -> Array:
@@ -390,7 +399,7 @@ def solve_kepler_elps(
     def body_fn(val: tuple[int, Array, Array]) -> Array:
         iter_count, E, _ = val
         f = E - e * jnp.sin(E) - M
-        E_new = E - f / dE(E, e)
+        E_new = E + _laguerre_step(f, dE(E, e), e * jnp.sin(E))
         return (iter_count + 1, E_new, E)
 
     _, E, _ = jax.lax.while_loop(cond_fn, body_fn, (0, E0, E0 + 2 * tol))
-- 
2.43.0


From d812030dacdf0077f5b42bddb13b7abc7dc937d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:13 +0000
Subject: [PATCH 04/20] fix: make solve_kepler_hypb converge for large negative
 N and for e close to 1

---
 src/astrodynx/twobody/_kep_equ.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/astrodynx/twobody/_kep_equ.py b/src/astrodynx/twobody/_kep_equ.py
index e92843c..4b82ae5 100644
--- a/src/astrodynx/twobody/_kep_equ.py
+++ b/src/astrodynx/twobody/_kep_equ.py
@@ -440,7 +440,7 @@ def solve_kepler_hypb(
         >>> adx.solve_kepler_hypb(N,e)
         Array(3.463..., dtype=float32, weak_type=True)
     """
-    H0 = jnp.log(2 * N / e + jnp.sqrt((2 * N / e) ** 2 + 1))
+    H0 = jnp.arcsinh(2 * N / e)
 
     def cond_fn(val: tuple[int, Array, Array]) -> Array:
         iter_count, _, f = val
@@ -450,7 +450,7 @@ def solve_kepler_hypb(
 
     def body_fn(val: tuple[int, Array, Array]) -> Array:
         iter_count, H, f = val
-        H_new = H - f / dH(H, e)
+        H_new = H + _laguerre_step(f, dH(H, e), e * jnp.sinh(H))
         return (iter_count + 1, H_new, kepler_equ_hypb(H_new, e, N))
 
     f0 = kepler_equ_hypb(H0, e, N)
-- 
2.43.0


From 066de5f5c59af1e751e0b1b28228506b66263d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:42 +0000
Subject: [PATCH 05/20] fix: make solve_kepler_uni converge on hyperbolic and
 highly eccentric orbits

---
 src/astrodynx/twobody/_kep_equ.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/astrodynx/twobody/_kep_equ.py b/src/astrodynx/twobody/_kep_equ.py
index 4b82ae5..8da9773 100644
--- a/src/astrodynx/twobody/_kep_equ.py
+++ b/src/astrodynx/twobody/_kep_equ.py
@@ -508,7 +508,18 @@ def solve_kepler_uni(
         >>> assert adx.kepler_equ_uni(chi,alpha,r0, sigma0, deltat, mu) < 1e-6
     """
 
-    chi0 = jnp.sqrt(mu) * jnp.abs(alpha) * deltat
+    # Hyperbolic orbits start from e sinh(H) = 2 N, as in solve_kepler_hypb.
+    tau = jnp.sqrt(mu) * deltat
+    sqrt_alpha = jnp.sqrt(jnp.where(alpha < 0, -alpha, 1))
+    e_cosh, e_sinh = 1 - alpha * r0, sigma0 * sqrt_alpha
+    e = jnp.sqrt(jnp.maximum((e_cosh - e_sinh) * (e_cosh + e_sinh), 1))
+    H0 = jnp.arcsinh(e_sinh / e)
+    N = e_sinh - H0 + tau * sqrt_alpha**3
+    chi0 = jnp.where(
+        alpha < 0,
+        (jnp.arcsinh(2 * N / e) - H0) / sqrt_alpha,
+        jnp.abs(alpha) * tau,
+    )
 
     def cond_fn(val: tuple[int, Array, Array]) -> Array:
         iter_count, _, f = val
@@ -518,7 +529,9 @@ def solve_kepler_uni(
 
     def body_fn(val: tuple[int, Array, Array]) -> Array:
         iter_count, chi, f = val
-        chi_new = chi - f / dchi(chi, alpha, r0, sigma0)
+        U0, U1 = ufunc0(chi, alpha), ufunc1(chi, alpha)
+        ddchi = sigma0 * U0 + (1 - alpha * r0) * U1
+        chi_new = chi + _laguerre_step(f, dchi(chi, alpha, r0, sigma0), ddchi)
         f_new = kepler_equ_uni(chi_new, alpha, r0, sigma0, deltat, mu)
         return (iter_count + 1, chi_new, f_new)
 
-- 
2.43.0


From 6ba7fe06f75840b049716303bb4ec4972a1013f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:30 +0000
Subject: [PATCH 06/20] fix: evaluate U2 to U5 by power series where the closed
 forms cancel (near-parabolic orbits)

---
 src/astrodynx/twobody/_uniformulas.py | 29 +++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/astrodynx/twobody/_uniformulas.py b/src/astrodynx/twobody/_uniformulas.py
index 5cc3c85..fc91842 100644
--- a/src/astrodynx/twobody/_uniformulas.py
+++ b/src/astrodynx/twobody/_uniformulas.py
@@ -1,3 +1,4 @@
+import math
 import jax.numpy as jnp
 import jax
 from jax.typing import ArrayLike, DTypeLike
@@ -50,6 +51,22 @@ def sigma_fn(pos_vec: ArrayLike, vel_vec: ArrayLike, mu: ArrayLike = 1) -> Array
     return jnp.sum(pos_vec * vel_vec, axis=-1, keepdims=True) / jnp.sqrt(mu)
 
 
+def _small_arg(n: int, chi: ArrayLike, alpha: DTypeLike, closed_form: Array) -> Array:
+    r"""Replaces the closed form of Un by its power series where alpha*chi^2 is small.
+
+    The closed forms of U2 to U5 lose all significant digits there, e.g. on a nearly parabolic orbit.
+
+    References:
+        Battin, 1999, pp.175.
+    """
+    z = alpha * chi**2
+    z_small = jnp.where(jnp.abs(z) < 1, z, 0)
+    series = 1 / math.factorial(n + 20)
+    for k in range(9, -1, -1):
+        series = 1 / math.factorial(n + 2 * k) - z_small * series
+    return jnp.where(jnp.abs(z) < 1, chi**n * series, closed_form)
+
+
 def ufunc0(chi: ArrayLike, alpha: DTypeLike) -> Array:
     r"""The universal function U0
 
@@ -195,7 +212,7 @@ def ufunc2(chi: ArrayLike, alpha: DTypeLike) -> Array:
         >>> adx.twobody.ufunc2(chi, alpha)
         Array([0.4596..., 1.4161...], dtype=float32)
     """
-    return jax.lax.cond(
+    closed_form = jax.lax.cond(
         alpha > 0,
         lambda: (1 - jnp.cos(jnp.sqrt(alpha) * chi)) / alpha,
         lambda: jax.lax.cond(
@@ -204,6 +221,7 @@ def ufunc2(chi: ArrayLike, alpha: DTypeLike) -> Array:
             lambda: chi**2 / 2,
         ),
     )
+    return _small_arg(2, chi, alpha, closed_form)
 
 
 def ufunc3(chi: ArrayLike, alpha: DTypeLike) -> Array:
@@ -247,7 +265,7 @@ def ufunc3(chi: ArrayLike, alpha: DTypeLike) -> Array:
         >>> adx.twobody.ufunc3(chi, alpha)
         Array([0.1585..., 1.0907...], dtype=float32)
     """
-    return jax.lax.cond(
+    closed_form = jax.lax.cond(
         alpha > 0,
         lambda: (jnp.sqrt(alpha) * chi - jnp.sin(jnp.sqrt(alpha) * chi))
         / alpha
@@ -260,6 +278,7 @@ def ufunc3(chi: ArrayLike, alpha: DTypeLike) -> Array:
             lambda: chi**3 / 6,
         ),
     )
+    return _small_arg(3, chi, alpha, closed_form)
 
 
 def ufunc4(chi: ArrayLike, alpha: DTypeLike) -> Array:
@@ -303,7 +322,7 @@ def ufunc4(chi: ArrayLike, alpha: DTypeLike) -> Array:
         >>> adx.twobody.ufunc4(chi, alpha)
         Array([0.0403..., 0.5838...], dtype=float32)
     """
-    return jax.lax.cond(
+    closed_form = jax.lax.cond(
         alpha > 0,
         lambda: (alpha * chi**2 - 2 + 2 * jnp.cos(jnp.sqrt(alpha) * chi))
         / (2 * alpha**2),
@@ -314,6 +333,7 @@ def ufunc4(chi: ArrayLike, alpha: DTypeLike) -> Array:
             lambda: chi**4 / 24,
         ),
     )
+    return _small_arg(4, chi, alpha, closed_form)
 
 
 def ufunc5(chi: ArrayLike, alpha: DTypeLike) -> Array:
@@ -357,7 +377,7 @@ def ufunc5(chi: ArrayLike, alpha: DTypeLike) -> Array:
         >>> adx.twobody.ufunc5(chi, alpha)
         Array([0.2426..., 1.6411...], dtype=float32)
     """
-    return jax.lax.cond(
+    closed_form = jax.lax.cond(
         alpha > 0,
         lambda: (
             alpha**2 * chi**3
@@ -376,3 +396,4 @@ def ufunc5(chi: ArrayLike, alpha: DTypeLike) -> Array:
             lambda: chi**5 / 120,
         ),
     )
+    return _small_arg(5, chi, alpha, closed_form)
-- 
2.43.0


From 0118401999933f53f128be3421e211b09668c902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:41 +0000
Subject: [PATCH 07/20] fix: recover the quadrants of argp and true_anom in
 rv2coe

---
 src/astrodynx/twobody/_orb_elements.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/astrodynx/twobody/_orb_elements.py b/src/astrodynx/twobody/_orb_elements.py
index bbe096e..f5aff6e 100644
--- a/src/astrodynx/twobody/_orb_elements.py
+++ b/src/astrodynx/twobody/_orb_elements.py
@@ -95,13 +95,13 @@ def argument_of_periapsis(node_vec: ArrayLike, e_vec: ArrayLike) -> Array:
         $$
         \omega = \arctan2(\|\boldsymbol{N}\times \boldsymbol{e}\|, \boldsymbol{N} \cdot \boldsymbol{e})
         $$
-        where $\omega$ is the argument of periapsis, $\boldsymbol{N}$ is the node vector, and $\boldsymbol{e}$ is the eccentricity vector.
+        where $\omega$ is the argument of periapsis, $\boldsymbol{N}$ is the node vector, and $\boldsymbol{e}$ is the eccentricity vector. If $e_z < 0$, the argument of periapsis is $2\pi - \omega$.
     """
     argp = jnp.arctan2(
         vector_norm(jnp.cross(node_vec, e_vec), axis=-1, keepdims=True),
         jnp.sum(node_vec * e_vec, axis=-1, keepdims=True),
     )
-    return jnp.where(argp < 0, 2 * jnp.pi + argp, argp)
+    return jnp.where(e_vec[..., 2:3] < 0, 2 * jnp.pi - argp, argp)
 
 
 def rv2coe(
@@ -131,7 +131,7 @@ def rv2coe(
         f &= \arctan2(\|\boldsymbol{e}\times \boldsymbol{r}\|, \boldsymbol{e} \cdot \boldsymbol{r})
         \end{aligned}
         $$
-        where $p$ is the semiparameter, $e$ is the eccentricity vector, $i$ is the inclination, $\Omega$ is the right ascension of the ascending node, $\omega$ is the argument of periapsis, and $f$ is the true anomaly.
+        where $p$ is the semiparameter, $e$ is the eccentricity vector, $i$ is the inclination, $\Omega$ is the right ascension of the ascending node, $\omega$ is the argument of periapsis, and $f$ is the true anomaly. If $e_z < 0$, the argument of periapsis is $2\pi - \omega$; if $\boldsymbol{r} \cdot \boldsymbol{v} < 0$, the true anomaly is $2\pi - f$.
 
     References
         Vallado, 2013, pp.114.
@@ -171,6 +171,8 @@ def rv2coe(
     raan = right_ascension(N)
     argp = argument_of_periapsis(N, e_vec)
     true_anom = true_anomaly(pos_vec, e_vec)
+    moving_inward = jnp.sum(pos_vec * vel_vec, axis=-1, keepdims=True) < 0
+    true_anom = jnp.where(moving_inward, 2 * jnp.pi - true_anom, true_anom)
     return (
         jnp.squeeze(p, axis=-1),
         jnp.squeeze(e_mag, axis=-1),
-- 
2.43.0


From 5af62c62025e20f9a863948538b9317d722d7508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:25 +0000
Subject: [PATCH 08/20] fix: let coe2rv broadcast eccentricity against true
 anomaly

---
 src/astrodynx/twobody/_orb_elements.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/astrodynx/twobody/_orb_elements.py b/src/astrodynx/twobody/_orb_elements.py
index f5aff6e..7d5c24d 100644
--- a/src/astrodynx/twobody/_orb_elements.py
+++ b/src/astrodynx/twobody/_orb_elements.py
@@ -257,6 +257,7 @@ def coe2rv(
         >>> assert jnp.allclose(pos_vec[1], jnp.array([6525.3677, 6861.5317, 6449.117]))
         >>> assert jnp.allclose(vel_vec[1], jnp.array([4.902279, 5.5331397, -1.9757109]))
     """
+    e, true_anom = jnp.broadcast_arrays(e, true_anom)
     r_pf = jnp.expand_dims(p / (1 + e * jnp.cos(true_anom)), axis=-1) * jnp.stack(
         [jnp.cos(true_anom), jnp.sin(true_anom), jnp.zeros_like(true_anom)], axis=-1
     )
-- 
2.43.0


From 0ea7ee2e683354c3409308b7d5a0067b5a4a102b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:09 +0000
Subject: [PATCH 09/20] fix: differentiate the Kepler solvers with the implicit
 function theorem

---
 src/astrodynx/twobody/_kep_equ.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/astrodynx/twobody/_kep_equ.py b/src/astrodynx/twobody/_kep_equ.py
index 8da9773..c6cdf2c 100644
--- a/src/astrodynx/twobody/_kep_equ.py
+++ b/src/astrodynx/twobody/_kep_equ.py
@@ -3,6 +3,7 @@ from jax.typing import ArrayLike, DTypeLike
 from jax import Array
 from astrodynx.twobody._uniformulas import ufunc0, ufunc1, ufunc2, ufunc3
 import jax
+from jax.lax import stop_gradient
 from astrodynx.twobody._orb_integrals import equ_of_orb_uvi
 
 """Kepler's equations and generalized anomaly for two-body orbital mechanics."""
@@ -354,6 +355,14 @@ def _laguerre_step(f: ArrayLike, df: ArrayLike, ddf: ArrayLike) -> Array:
     return -5 * f / (df + jnp.sqrt(jnp.abs(16 * df**2 - 20 * f * ddf)))
 
 
+def _implicit_root(root: Array, f: Array, df: Array) -> Array:
+    r"""Returns the root of f = 0 with the derivatives of the implicit function theorem.
+
+    The value is the given root. Differentiating through the iterations instead is inexact, because they stop as soon as the value has converged.
+    """
+    return root - (f - stop_gradient(f)) / stop_gradient(df)
+
+
 def solve_kepler_elps(
     M: DTypeLike, e: DTypeLike, tol: DTypeLike = 1e-6, max_iter: int = 20
 ) -> Array:
@@ -402,8 +411,11 @@ def solve_kepler_elps(
         E_new = E + _laguerre_step(f, dE(E, e), e * jnp.sin(E))
         return (iter_count + 1, E_new, E)
 
-    _, E, _ = jax.lax.while_loop(cond_fn, body_fn, (0, E0, E0 + 2 * tol))
-    return E
+    _, E, _ = jax.lax.while_loop(
+        cond_fn, body_fn, stop_gradient((0, E0, E0 + 2 * tol))
+    )
+    E = stop_gradient(E)
+    return _implicit_root(E, kepler_equ_elps(E, e, M), dE(E, e))
 
 
 def solve_kepler_hypb(
@@ -454,8 +466,9 @@ def solve_kepler_hypb(
         return (iter_count + 1, H_new, kepler_equ_hypb(H_new, e, N))
 
     f0 = kepler_equ_hypb(H0, e, N)
-    _, H, _ = jax.lax.while_loop(cond_fn, body_fn, (0, H0, f0))
-    return H
+    _, H, _ = jax.lax.while_loop(cond_fn, body_fn, stop_gradient((0, H0, f0)))
+    H = stop_gradient(H)
+    return _implicit_root(H, kepler_equ_hypb(H, e, N), dH(H, e))
 
 
 def solve_kepler_uni(
@@ -536,5 +549,7 @@ def solve_kepler_uni(
         return (iter_count + 1, chi_new, f_new)
 
     f0 = kepler_equ_uni(chi0, alpha, r0, sigma0, deltat, mu)
-    _, chi, _ = jax.lax.while_loop(cond_fn, body_fn, (0, chi0, f0))
-    return chi
+    _, chi, _ = jax.lax.while_loop(cond_fn, body_fn, stop_gradient((0, chi0, f0)))
+    chi = stop_gradient(chi)
+    f = kepler_equ_uni(chi, alpha, r0, sigma0, deltat, mu)
+    return _implicit_root(chi, f, dchi(chi, alpha, r0, sigma0))
-- 
2.43.0


From d5238e21a36756bb6afc0fb5d60b5d812256926b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:02 +0000
Subject: [PATCH 10/20] fix: make the derivatives of U0 and U1 continuous at
 alpha = 0

---
 src/astrodynx/twobody/_uniformulas.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/astrodynx/twobody/_uniformulas.py b/src/astrodynx/twobody/_uniformulas.py
index fc91842..d9ae1ec 100644
--- a/src/astrodynx/twobody/_uniformulas.py
+++ b/src/astrodynx/twobody/_uniformulas.py
@@ -54,7 +54,7 @@ def sigma_fn(pos_vec: ArrayLike, vel_vec: ArrayLike, mu: ArrayLike = 1) -> Array
 def _small_arg(n: int, chi: ArrayLike, alpha: DTypeLike, closed_form: Array) -> Array:
     r"""Replaces the closed form of Un by its power series where alpha*chi^2 is small.
 
-    The closed forms of U2 to U5 lose all significant digits there, e.g. on a nearly parabolic orbit.
+    The closed forms of U2 to U5 lose all significant digits there, e.g. on a nearly parabolic orbit, and so do the derivatives of U0 and U1 with respect to alpha.
 
     References:
         Battin, 1999, pp.175.
@@ -108,7 +108,7 @@ def ufunc0(chi: ArrayLike, alpha: DTypeLike) -> Array:
         >>> adx.twobody.ufunc0(chi, alpha)
         Array([ 0.5403..., -0.4161...], dtype=float32)
     """
-    return jax.lax.cond(
+    closed_form = jax.lax.cond(
         alpha > 0,
         lambda: jnp.cos(jnp.sqrt(alpha) * chi),
         lambda: jax.lax.cond(
@@ -117,6 +117,7 @@ def ufunc0(chi: ArrayLike, alpha: DTypeLike) -> Array:
             lambda: jnp.ones_like(chi),
         ),
     )
+    return _small_arg(0, chi, alpha, closed_form)
 
 
 def ufunc1(chi: ArrayLike, alpha: DTypeLike) -> Array:
@@ -160,7 +161,7 @@ def ufunc1(chi: ArrayLike, alpha: DTypeLike) -> Array:
         >>> adx.twobody.ufunc1(chi, alpha)
         Array([0.8414..., 0.9092...], dtype=float32)
     """
-    return jax.lax.cond(
+    closed_form = jax.lax.cond(
         alpha > 0,
         lambda: jnp.sin(jnp.sqrt(alpha) * chi) / jnp.sqrt(alpha),
         lambda: jax.lax.cond(
@@ -169,6 +170,7 @@ def ufunc1(chi: ArrayLike, alpha: DTypeLike) -> Array:
             lambda: chi,
         ),
     )
+    return _small_arg(1, chi, alpha, closed_form)
 
 
 def ufunc2(chi: ArrayLike, alpha: DTypeLike) -> Array:
-- 
2.43.0


From cc74f909225a7e2a519371a562aa13f5bdce94bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:05 +0000
Subject: [PATCH 11/20] fix: keep the derivatives of prop.kepler finite on
 parabolic orbits

---
 src/astrodynx/prop/_kepler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/astrodynx/prop/_kepler.py b/src/astrodynx/prop/_kepler.py
index 43c98f1..047c0c8 100644
--- a/src/astrodynx/prop/_kepler.py
+++ b/src/astrodynx/prop/_kepler.py
@@ -4,7 +4,7 @@ from jax.typing import ArrayLike, DTypeLike
 from jax import Array
 from astrodynx.twobody._kep_equ import solve_kepler_uni
 from astrodynx.twobody._uniformulas import sigma_fn, ufunc0, ufunc1, ufunc2
-from astrodynx.twobody._orb_integrals import semimajor_axis, equ_of_orb_uvi
+from astrodynx.twobody._orb_integrals import equ_of_orb_uvi
 from astrodynx.twobody._lagrange import lagrange_F, lagrange_G, lagrange_Ft, lagrange_Gt
 
 
@@ -93,7 +93,7 @@ def kepler(
     """
     r0 = jnp.linalg.vector_norm(r0_vec)
     v0 = jnp.linalg.vector_norm(v0_vec)
-    alpha = 1.0 / semimajor_axis(r0, v0, mu)
+    alpha = 2 / r0 - v0**2 / mu
     sigma0 = sigma_fn(r0_vec, v0_vec, mu)
 
     chi = jax.vmap(solve_kepler_uni, in_axes=(0, None, None, None, None))(
-- 
2.43.0


From a2043dc3ef6e4c8349be6bbfd0556c91d72602ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:58 +0000
Subject: [PATCH 12/20] fix: enter the loop of solve_kepler_elps whatever the
 tolerance

E0 + 2*tol rounds to E0 when tol is 0, or when |M| is large in single
precision, and the starting value was returned as the solution.
---
 src/astrodynx/twobody/_kep_equ.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/astrodynx/twobody/_kep_equ.py b/src/astrodynx/twobody/_kep_equ.py
index c6cdf2c..fc00d0c 100644
--- a/src/astrodynx/twobody/_kep_equ.py
+++ b/src/astrodynx/twobody/_kep_equ.py
@@ -412,7 +412,7 @@ def solve_kepler_elps(
         return (iter_count + 1, E_new, E)
 
     _, E, _ = jax.lax.while_loop(
-        cond_fn, body_fn, stop_gradient((0, E0, E0 + 2 * tol))
+        cond_fn, body_fn, stop_gradient((0, E0, E0 + jnp.inf))
     )
     E = stop_gradient(E)
     return _implicit_root(E, kepler_equ_elps(E, e, M), dE(E, e))
-- 
2.43.0


From 121bbc1494ad7925ad8d186ee4f3e0daa791626a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:02 +0000
Subject: [PATCH 13/20] fix: keep j2_acc within the range of single precision

---
 src/astrodynx/gravity/_general.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/astrodynx/gravity/_general.py b/src/astrodynx/gravity/_general.py
index edb44d7..e30a29e 100644
--- a/src/astrodynx/gravity/_general.py
+++ b/src/astrodynx/gravity/_general.py
@@ -85,10 +85,11 @@ def j2_acc(
     R_eq = args["R_eq"]
     r = jnp.linalg.vector_norm(x[:3])
     zsq_over_rsq = (x[2] / r) ** 2
-    factor = -1.5 * mu * J2 * R_eq**2 / r**5
-    ax = factor * x[0] * (1 - 5 * zsq_over_rsq)
-    ay = factor * x[1] * (1 - 5 * zsq_over_rsq)
-    az = factor * x[2] * (3 - 5 * zsq_over_rsq)
+    # powers of r on their own leave the range of single precision
+    factor = -1.5 * (mu / r**2) * J2 * (R_eq / r) ** 2
+    ax = factor * (x[0] / r) * (1 - 5 * zsq_over_rsq)
+    ay = factor * (x[1] / r) * (1 - 5 * zsq_over_rsq)
+    az = factor * (x[2] / r) * (3 - 5 * zsq_over_rsq)
     return jnp.stack([ax, ay, az])
 
 
-- 
2.43.0


From 1b84e9842ddd98604db40eee5a79fbb2df9adebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:51 +0000
Subject: [PATCH 14/20] fix: take dt-sized steps in fixed_steps when dt does
 not divide the span

---
 src/astrodynx/prop/_cowell_method.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/astrodynx/prop/_cowell_method.py b/src/astrodynx/prop/_cowell_method.py
index 7e37b33..80c3544 100644
--- a/src/astrodynx/prop/_cowell_method.py
+++ b/src/astrodynx/prop/_cowell_method.py
@@ -1,10 +1,35 @@
 from astrodynx import diffeq
+from jax import numpy as jnp
+from diffrax import RESULTS
 from jaxtyping import ArrayLike, DTypeLike, PyTree
 from typing import Any, NamedTuple
 
 """General implementations of Cowell's method for propagating orbits under perturbing forces."""
 
 
+class _FixedStepSize(diffeq.AbstractStepSizeController):
+    """Take steps of exactly ``dt0``; the integrator shortens the last one to end at ``t1``.
+
+    ``diffeq.ConstantStepSize`` spreads the steps after the first one evenly over
+    the span when ``dt0`` does not divide it.
+    """
+
+    def wrap(self, direction):
+        return self
+
+    def init(self, terms, t0, t1, y0, dt0, args, func, error_order):
+        return t0 + dt0, (jnp.asarray(1), t0, dt0)
+
+    def adapt_step_size(
+        self, t0, t1, y0, y1_candidate, args, y_error, error_order, controller_state
+    ):
+        steps, t_start, dt = controller_state
+        steps = steps + 1
+        # multiples of dt, so that rounding does not accumulate
+        t1_next = t_start + steps * dt
+        return True, t1, t1_next, False, (steps, t_start, dt), RESULTS.successful
+
+
 class OrbDynx(NamedTuple):
     """Orbital dynamics configuration for Cowell's method propagation.
 
@@ -217,7 +242,7 @@ def fixed_steps(
         y0=x0,
         args=orbdyn.args,
         max_steps=max_steps,
-        stepsize_controller=diffeq.ConstantStepSize(),
+        stepsize_controller=_FixedStepSize(),
         saveat=diffeq.SaveAt(t0=True, steps=True),
         event=orbdyn.event,
     )
-- 
2.43.0


From 7f8754b1128430925bfa0654c915567b4baa64f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:18 +0000
Subject: [PATCH 15/20] fix: keep the reverse-mode derivatives of the universal
 functions finite for tiny alpha

---
 src/astrodynx/twobody/_uniformulas.py | 76 ++++++++++++++++-----------
 1 file changed, 44 insertions(+), 32 deletions(-)

diff --git a/src/astrodynx/twobody/_uniformulas.py b/src/astrodynx/twobody/_uniformulas.py
index d9ae1ec..b22a691 100644
--- a/src/astrodynx/twobody/_uniformulas.py
+++ b/src/astrodynx/twobody/_uniformulas.py
@@ -67,6 +67,18 @@ def _small_arg(n: int, chi: ArrayLike, alpha: DTypeLike, closed_form: Array) ->
     return jnp.where(jnp.abs(z) < 1, chi**n * series, closed_form)
 
 
+def _large_arg(chi: ArrayLike, alpha: DTypeLike) -> tuple[Array, Array]:
+    r"""The arguments of the closed form of Un, out of the way of division by a tiny alpha where the power series is used instead of it.
+
+    The derivatives of a closed form that is not used must still be finite.
+    """
+    is_small = jnp.abs(alpha * chi**2) < 1
+    return (
+        jnp.where(is_small, 1, chi),
+        jnp.where(is_small, jnp.where(alpha > 0, 1, -1), alpha),
+    )
+
+
 def ufunc0(chi: ArrayLike, alpha: DTypeLike) -> Array:
     r"""The universal function U0
 
@@ -108,13 +120,14 @@ def ufunc0(chi: ArrayLike, alpha: DTypeLike) -> Array:
         >>> adx.twobody.ufunc0(chi, alpha)
         Array([ 0.5403..., -0.4161...], dtype=float32)
     """
+    x, a = _large_arg(chi, alpha)
     closed_form = jax.lax.cond(
         alpha > 0,
-        lambda: jnp.cos(jnp.sqrt(alpha) * chi),
+        lambda: jnp.cos(jnp.sqrt(a) * x),
         lambda: jax.lax.cond(
             alpha < 0,
-            lambda: jnp.cosh(jnp.sqrt(-alpha) * chi),
-            lambda: jnp.ones_like(chi),
+            lambda: jnp.cosh(jnp.sqrt(-a) * x),
+            lambda: jnp.ones_like(x),
         ),
     )
     return _small_arg(0, chi, alpha, closed_form)
@@ -161,13 +174,14 @@ def ufunc1(chi: ArrayLike, alpha: DTypeLike) -> Array:
         >>> adx.twobody.ufunc1(chi, alpha)
         Array([0.8414..., 0.9092...], dtype=float32)
     """
+    x, a = _large_arg(chi, alpha)
     closed_form = jax.lax.cond(
         alpha > 0,
-        lambda: jnp.sin(jnp.sqrt(alpha) * chi) / jnp.sqrt(alpha),
+        lambda: jnp.sin(jnp.sqrt(a) * x) / jnp.sqrt(a),
         lambda: jax.lax.cond(
             alpha < 0,
-            lambda: jnp.sinh(jnp.sqrt(-alpha) * chi) / jnp.sqrt(-alpha),
-            lambda: chi,
+            lambda: jnp.sinh(jnp.sqrt(-a) * x) / jnp.sqrt(-a),
+            lambda: x,
         ),
     )
     return _small_arg(1, chi, alpha, closed_form)
@@ -214,13 +228,14 @@ def ufunc2(chi: ArrayLike, alpha: DTypeLike) -> Array:
         >>> adx.twobody.ufunc2(chi, alpha)
         Array([0.4596..., 1.4161...], dtype=float32)
     """
+    x, a = _large_arg(chi, alpha)
     closed_form = jax.lax.cond(
         alpha > 0,
-        lambda: (1 - jnp.cos(jnp.sqrt(alpha) * chi)) / alpha,
+        lambda: (1 - jnp.cos(jnp.sqrt(a) * x)) / a,
         lambda: jax.lax.cond(
             alpha < 0,
-            lambda: (jnp.cosh(jnp.sqrt(-alpha) * chi) - 1) / -alpha,
-            lambda: chi**2 / 2,
+            lambda: (jnp.cosh(jnp.sqrt(-a) * x) - 1) / -a,
+            lambda: x**2 / 2,
         ),
     )
     return _small_arg(2, chi, alpha, closed_form)
@@ -267,17 +282,14 @@ def ufunc3(chi: ArrayLike, alpha: DTypeLike) -> Array:
         >>> adx.twobody.ufunc3(chi, alpha)
         Array([0.1585..., 1.0907...], dtype=float32)
     """
+    x, a = _large_arg(chi, alpha)
     closed_form = jax.lax.cond(
         alpha > 0,
-        lambda: (jnp.sqrt(alpha) * chi - jnp.sin(jnp.sqrt(alpha) * chi))
-        / alpha
-        / jnp.sqrt(alpha),
+        lambda: (jnp.sqrt(a) * x - jnp.sin(jnp.sqrt(a) * x)) / a / jnp.sqrt(a),
         lambda: jax.lax.cond(
             alpha < 0,
-            lambda: (jnp.sqrt(-alpha) * chi - jnp.sinh(jnp.sqrt(-alpha) * chi))
-            / alpha
-            / jnp.sqrt(-alpha),
-            lambda: chi**3 / 6,
+            lambda: (jnp.sqrt(-a) * x - jnp.sinh(jnp.sqrt(-a) * x)) / a / jnp.sqrt(-a),
+            lambda: x**3 / 6,
         ),
     )
     return _small_arg(3, chi, alpha, closed_form)
@@ -324,15 +336,14 @@ def ufunc4(chi: ArrayLike, alpha: DTypeLike) -> Array:
         >>> adx.twobody.ufunc4(chi, alpha)
         Array([0.0403..., 0.5838...], dtype=float32)
     """
+    x, a = _large_arg(chi, alpha)
     closed_form = jax.lax.cond(
         alpha > 0,
-        lambda: (alpha * chi**2 - 2 + 2 * jnp.cos(jnp.sqrt(alpha) * chi))
-        / (2 * alpha**2),
+        lambda: (a * x**2 - 2 + 2 * jnp.cos(jnp.sqrt(a) * x)) / (2 * a**2),
         lambda: jax.lax.cond(
             alpha < 0,
-            lambda: (alpha * chi**2 - 2 + 2 * jnp.cosh(jnp.sqrt(-alpha) * chi))
-            / (2 * alpha**2),
-            lambda: chi**4 / 24,
+            lambda: (a * x**2 - 2 + 2 * jnp.cosh(jnp.sqrt(-a) * x)) / (2 * a**2),
+            lambda: x**4 / 24,
         ),
     )
     return _small_arg(4, chi, alpha, closed_form)
@@ -379,23 +390,24 @@ def ufunc5(chi: ArrayLike, alpha: DTypeLike) -> Array:
         >>> adx.twobody.ufunc5(chi, alpha)
         Array([0.2426..., 1.6411...], dtype=float32)
     """
+    x, a = _large_arg(chi, alpha)
     closed_form = jax.lax.cond(
         alpha > 0,
         lambda: (
-            alpha**2 * chi**3
-            - 6 * alpha * chi
-            + 6 * jnp.sqrt(alpha) * jnp.sin(jnp.sqrt(alpha) * chi)
-        )
-        / (6 * alpha**3),
+            (a**2 * x**3 - 6 * a * x + 6 * jnp.sqrt(a) * jnp.sin(jnp.sqrt(a) * x))
+            / (6 * a**3)
+        ),
         lambda: jax.lax.cond(
             alpha < 0,
             lambda: (
-                alpha**2 * chi**3
-                - 6 * alpha * chi
-                - 6 * jnp.sqrt(-alpha) * jnp.sinh(jnp.sqrt(-alpha) * chi)
-            )
-            / (6 * alpha**3),
-            lambda: chi**5 / 120,
+                (
+                    a**2 * x**3
+                    - 6 * a * x
+                    - 6 * jnp.sqrt(-a) * jnp.sinh(jnp.sqrt(-a) * x)
+                )
+                / (6 * a**3)
+            ),
+            lambda: x**5 / 120,
         ),
     )
     return _small_arg(5, chi, alpha, closed_form)
-- 
2.43.0


From 7fd00c0a1407699acdd7b42726436e7eb356778b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:50 +0000
Subject: [PATCH 16/20] fix: keep the precision of the inputs in the state
 transition matrix

---
 src/astrodynx/twobody/_state_trans.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/astrodynx/twobody/_state_trans.py b/src/astrodynx/twobody/_state_trans.py
index 5f20988..36e8af7 100644
--- a/src/astrodynx/twobody/_state_trans.py
+++ b/src/astrodynx/twobody/_state_trans.py
@@ -85,7 +85,7 @@ def prpr0(
         vector_norm(r_vec) / mu * jnp.outer(v_vec - v0_vec, v_vec - v0_vec)
         + (1 - F) * jnp.outer(r_vec / r0_mag, r0_vec / r0_mag)
         + C / r0_mag**2 * jnp.outer(v_vec, r0_vec / r0_mag)
-        + F * jnp.eye(3)
+        + F * jnp.eye(3, dtype=jnp.result_type(r_vec))
     )
 
 
@@ -133,7 +133,7 @@ def prpv0(
         * (1 - F)
         * (jnp.outer(r_vec - r0_vec, v0_vec) - jnp.outer(v_vec - v0_vec, r0_vec))
         + C / mu * jnp.outer(v_vec, v0_vec)
-        + G * jnp.eye(3)
+        + G * jnp.eye(3, dtype=jnp.result_type(r_vec))
     )
 
 
@@ -186,7 +186,7 @@ def pvpr0(
         - jnp.outer(r_vec / r_mag**2, v_vec - v0_vec)
         + Ft
         * (
-            jnp.eye(3)
+            jnp.eye(3, dtype=jnp.result_type(r_vec))
             - jnp.outer(r_vec / r_mag, r_vec / r_mag)
             + (jnp.outer(r_vec, v_vec) - jnp.outer(v_vec, r_vec))
             / mu
@@ -236,7 +236,7 @@ def pvpv0(
         r0_mag / mu * jnp.outer(v_vec - v0_vec, v_vec - v0_vec)
         + (1 - F) * jnp.outer(r_vec / r_mag, r0_vec / r_mag) * r0_mag / r_mag
         - C / r_mag**2 * jnp.outer(r_vec / r_mag, v0_vec)
-        + Gt * jnp.eye(3)
+        + Gt * jnp.eye(3, dtype=jnp.result_type(r_vec))
     )
 
 
-- 
2.43.0


From 14b72190168ddf1780f106e06cdb127d73602330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:36 +0000
Subject: [PATCH 17/20] fix: custom_steps can be differentiated in reverse mode

---
 src/astrodynx/prop/_cowell_method.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/astrodynx/prop/_cowell_method.py b/src/astrodynx/prop/_cowell_method.py
index 80c3544..d8a97b0 100644
--- a/src/astrodynx/prop/_cowell_method.py
+++ b/src/astrodynx/prop/_cowell_method.py
@@ -1,6 +1,6 @@
 from astrodynx import diffeq
 from jax import numpy as jnp
-from diffrax import RESULTS
+from diffrax import RESULTS, RecursiveCheckpointAdjoint
 from jaxtyping import ArrayLike, DTypeLike, PyTree
 from typing import Any, NamedTuple
 
@@ -427,6 +427,8 @@ def custom_steps(
         y0=x0,
         args=orbdyn.args,
         max_steps=None,
+        # without a step limit, reverse mode needs a fixed number of checkpoints
+        adjoint=RecursiveCheckpointAdjoint(checkpoints=128),
         stepsize_controller=stepsize_controller,
         saveat=diffeq.SaveAt(ts=ts),
         event=orbdyn.event,
-- 
2.43.0


From 72145c5a548311ba334977a62b5da9f62011cd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:03 +0000
Subject: [PATCH 18/20] fix: let radius_islow be located by a root finder

---
 src/astrodynx/events/radius.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/astrodynx/events/radius.py b/src/astrodynx/events/radius.py
index f426e0a..b28f404 100644
--- a/src/astrodynx/events/radius.py
+++ b/src/astrodynx/events/radius.py
@@ -6,7 +6,7 @@ from typing import Any
 
 
 def radius_islow(
-    t: DTypeLike, x: ArrayLike, args: PyTree[Any] = {"rmin": 0.0}, **kwargs: Any
+    t: DTypeLike, x: ArrayLike = None, args: PyTree[Any] = {"rmin": 0.0}, **kwargs: Any
 ) -> Array:
     r"""Returns the difference between the radius and the minimum radius.
 
@@ -29,5 +29,8 @@ def radius_islow(
 
         This event can be used to terminate the propagation of an orbit when the radius falls below a certain threshold.
     """
+    if x is None:
+        # the integrator calls the state y when it locates the event with a root finder
+        x = kwargs["y"]
     rmin = args["rmin"]
     return jnp.linalg.vector_norm(x[:3]) - rmin
-- 
2.43.0


From 730354b31c5597298e83d0b6387d20362b408a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:30 +0000
Subject: [PATCH 19/20] fix: the inclination of an equatorial orbit is never
 NaN

---
 src/astrodynx/twobody/_orb_elements.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/astrodynx/twobody/_orb_elements.py b/src/astrodynx/twobody/_orb_elements.py
index 7d5c24d..364aca7 100644
--- a/src/astrodynx/twobody/_orb_elements.py
+++ b/src/astrodynx/twobody/_orb_elements.py
@@ -26,7 +26,9 @@ def inclination(h_vec: ArrayLike) -> Array:
         $$
         where $i$ is the inclination, $h_z$ is the z-component of the specific angular momentum vector, and $h$ is the norm of the specific angular momentum vector.
     """
-    return jnp.arccos(h_vec[..., 2:3] / vector_norm(h_vec, axis=-1, keepdims=True))
+    cos_incl = h_vec[..., 2:3] / vector_norm(h_vec, axis=-1, keepdims=True)
+    # rounding may take the cosine of an equatorial orbit beyond 1
+    return jnp.arccos(jnp.clip(cos_incl, -1, 1))
 
 
 def true_anomaly(pos_vec: ArrayLike, e_vec: ArrayLike) -> Array:
-- 
2.43.0


From 023ac1fdb21b92422de5f79f24427c499cf4ceea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:39 +0000
Subject: [PATCH 20/20] fix: the universal functions accept whole numbers

---
 src/astrodynx/twobody/_uniformulas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/astrodynx/twobody/_uniformulas.py b/src/astrodynx/twobody/_uniformulas.py
index b22a691..701ffff 100644
--- a/src/astrodynx/twobody/_uniformulas.py
+++ b/src/astrodynx/twobody/_uniformulas.py
@@ -74,7 +74,7 @@ def _large_arg(chi: ArrayLike, alpha: DTypeLike) -> tuple[Array, Array]:
     """
     is_small = jnp.abs(alpha * chi**2) < 1
     return (
-        jnp.where(is_small, 1, chi),
+        jnp.where(is_small, 1.0, chi),
         jnp.where(is_small, jnp.where(alpha > 0, 1, -1), alpha),
     )
 
-- 
2.43.0

