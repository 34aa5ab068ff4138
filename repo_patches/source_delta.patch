From bd87698ff747beeed96a6e59deff663f02682e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:56 +0000
Subject: [PATCH 01/10] fix: let prop.kepler be traced and differentiated

alpha, r0 and sigma0 were turned into Python floats with .item(), so kepler
raised under jit/vmap and jacfwd silently dropped their derivatives.
---
 src/astrodynx/prop/_kepler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/astrodynx/prop/_kepler.py b/src/astrodynx/prop/_kepler.py
index e29e81b..f207488 100644
--- a/src/astrodynx/prop/_kepler.py
+++ b/src/astrodynx/prop/_kepler.py
@@ -97,7 +97,7 @@ def kepler(
     sigma0 = sigma_fn(r0_vec, v0_vec, mu)
 
     chi = jax.vmap(solve_kepler_uni, in_axes=(0, None, None, None, None))(
-        jnp.atleast_1d(ts), alpha.item(), r0.item(), sigma0.item(), mu
+        jnp.atleast_1d(ts), alpha, r0, jnp.squeeze(sigma0, axis=-1), mu
     )
     F = lagrange_F(ufunc2(chi, alpha), r0)
     G = lagrange_G(
-- 
2.43.0


From 74cfa288a4f2feec47d65f4be9491c11828102c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:56 +0000
Subject: [PATCH 02/10] fix: hyperbolic Kepler starting guess for large
 negative mean anomaly

log(x + sqrt(x**2 + 1)) cancels to log(0) for large negative x, so
solve_kepler_hypb returned -inf/nan there; arcsinh is the same function
without the cancellation.
---
 src/astrodynx/twobody/_kep_equ.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/astrodynx/twobody/_kep_equ.py b/src/astrodynx/twobody/_kep_equ.py
index a91572c..6f6e44a 100644
--- a/src/astrodynx/twobody/_kep_equ.py
+++ b/src/astrodynx/twobody/_kep_equ.py
@@ -431,7 +431,7 @@ def solve_kepler_hypb(
         >>> adx.solve_kepler_hypb(N,e)
         Array(3.463..., dtype=float32, weak_type=True)
     """
-    H0 = jnp.log(2 * N / e + jnp.sqrt((2 * N / e) ** 2 + 1))
+    H0 = jnp.arcsinh(2 * N / e)
 
     def cond_fn(val: tuple[int, Array, Array]) -> Array:
         iter_count, H, _ = val
-- 
2.43.0


From d464a76f0fb6c4329a4cfb64566d59dc6a105a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:56 +0000
Subject: [PATCH 03/10] fix: resolve the quadrant of argp and true anomaly in
 rv2coe

Both angles came from arctan2 of a norm, which is never negative, so every
orbit with its periapsis below the reference plane and every inbound state
was converted to the wrong elements.
---
 src/astrodynx/twobody/_orb_elements.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/astrodynx/twobody/_orb_elements.py b/src/astrodynx/twobody/_orb_elements.py
index bbe096e..2c8bd69 100644
--- a/src/astrodynx/twobody/_orb_elements.py
+++ b/src/astrodynx/twobody/_orb_elements.py
@@ -95,13 +95,13 @@ def argument_of_periapsis(node_vec: ArrayLike, e_vec: ArrayLike) -> Array:
         $$
         \omega = \arctan2(\|\boldsymbol{N}\times \boldsymbol{e}\|, \boldsymbol{N} \cdot \boldsymbol{e})
         $$
-        where $\omega$ is the argument of periapsis, $\boldsymbol{N}$ is the node vector, and $\boldsymbol{e}$ is the eccentricity vector.
+        where $\omega$ is the argument of periapsis, $\boldsymbol{N}$ is the node vector, and $\boldsymbol{e}$ is the eccentricity vector. If the periapsis lies below the reference plane ($e_z < 0$), $\omega$ is replaced by $2\pi - \omega$.
     """
     argp = jnp.arctan2(
         vector_norm(jnp.cross(node_vec, e_vec), axis=-1, keepdims=True),
         jnp.sum(node_vec * e_vec, axis=-1, keepdims=True),
     )
-    return jnp.where(argp < 0, 2 * jnp.pi + argp, argp)
+    return jnp.where(e_vec[..., 2:3] < 0, 2 * jnp.pi - argp, argp)
 
 
 def rv2coe(
@@ -131,7 +131,7 @@ def rv2coe(
         f &= \arctan2(\|\boldsymbol{e}\times \boldsymbol{r}\|, \boldsymbol{e} \cdot \boldsymbol{r})
         \end{aligned}
         $$
-        where $p$ is the semiparameter, $e$ is the eccentricity vector, $i$ is the inclination, $\Omega$ is the right ascension of the ascending node, $\omega$ is the argument of periapsis, and $f$ is the true anomaly.
+        where $p$ is the semiparameter, $e$ is the eccentricity vector, $i$ is the inclination, $\Omega$ is the right ascension of the ascending node, $\omega$ is the argument of periapsis, and $f$ is the true anomaly. The argument of periapsis is replaced by $2\pi - \omega$ if $e_z < 0$, and the true anomaly by $2\pi - f$ if $\boldsymbol{r} \cdot \boldsymbol{v} < 0$.
 
     References
         Vallado, 2013, pp.114.
@@ -171,6 +171,8 @@ def rv2coe(
     raan = right_ascension(N)
     argp = argument_of_periapsis(N, e_vec)
     true_anom = true_anomaly(pos_vec, e_vec)
+    inbound = jnp.sum(pos_vec * vel_vec, axis=-1, keepdims=True) < 0
+    true_anom = jnp.where(inbound, 2 * jnp.pi - true_anom, true_anom)
     return (
         jnp.squeeze(p, axis=-1),
         jnp.squeeze(e_mag, axis=-1),
-- 
2.43.0


From 0d30d7664e1105409181374ea0371c2219e56782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:56 +0000
Subject: [PATCH 04/10] fix: coe2rv with batched eccentricity and scalar true
 anomaly

jnp.stack was given components of different shapes and raised.
---
 src/astrodynx/twobody/_orb_elements.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/astrodynx/twobody/_orb_elements.py b/src/astrodynx/twobody/_orb_elements.py
index 2c8bd69..a4fa009 100644
--- a/src/astrodynx/twobody/_orb_elements.py
+++ b/src/astrodynx/twobody/_orb_elements.py
@@ -261,7 +261,9 @@ def coe2rv(
         [jnp.cos(true_anom), jnp.sin(true_anom), jnp.zeros_like(true_anom)], axis=-1
     )
     v_pf = jnp.expand_dims(jnp.sqrt(mu / p), axis=-1) * jnp.stack(
-        [-jnp.sin(true_anom), e + jnp.cos(true_anom), jnp.zeros_like(true_anom)],
+        jnp.broadcast_arrays(
+            -jnp.sin(true_anom), e + jnp.cos(true_anom), jnp.zeros_like(true_anom)
+        ),
         axis=-1,
     )
 
-- 
2.43.0


From f5fd1b11ebdfab4f10f920c6a9c122b0a88b6c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:18 +0000
Subject: [PATCH 05/10] fix: ufunc0 and ufunc1 raised TypeError for an integer
 generalized anomaly

The parabolic branch returned the type of chi while the other branches
return a float, so lax.cond rejected integer chi (kepler_equ_uni too).
---
 src/astrodynx/twobody/_uniformulas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/astrodynx/twobody/_uniformulas.py b/src/astrodynx/twobody/_uniformulas.py
index 5cc3c85..4ca3b55 100644
--- a/src/astrodynx/twobody/_uniformulas.py
+++ b/src/astrodynx/twobody/_uniformulas.py
@@ -97,7 +97,7 @@ def ufunc0(chi: ArrayLike, alpha: DTypeLike) -> Array:
         lambda: jax.lax.cond(
             alpha < 0,
             lambda: jnp.cosh(jnp.sqrt(-alpha) * chi),
-            lambda: jnp.ones_like(chi),
+            lambda: jnp.ones_like(jnp.sqrt(alpha) * chi),
         ),
     )
 
@@ -149,7 +149,7 @@ def ufunc1(chi: ArrayLike, alpha: DTypeLike) -> Array:
         lambda: jax.lax.cond(
             alpha < 0,
             lambda: jnp.sinh(jnp.sqrt(-alpha) * chi) / jnp.sqrt(-alpha),
-            lambda: chi,
+            lambda: jnp.ones_like(jnp.sqrt(alpha)) * chi,
         ),
     )
 
-- 
2.43.0


From 3c4d6d0a2f74e54a020a6b12eb1f5418f1109494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:44 +0000
Subject: [PATCH 06/10] fix: solve_kepler_elps returned its starting guess for
 large M

The previous iterate was initialised to E0 + 2*tol; in 32-bit arithmetic
that sum equals E0 for |M| >= 64, so no iteration was made.
---
 src/astrodynx/twobody/_kep_equ.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/astrodynx/twobody/_kep_equ.py b/src/astrodynx/twobody/_kep_equ.py
index 6f6e44a..9962595 100644
--- a/src/astrodynx/twobody/_kep_equ.py
+++ b/src/astrodynx/twobody/_kep_equ.py
@@ -393,7 +393,7 @@ def solve_kepler_elps(
         E_new = E - f / dE(E, e)
         return (iter_count + 1, E_new, E)
 
-    _, E, _ = jax.lax.while_loop(cond_fn, body_fn, (0, E0, E0 + 2 * tol))
+    _, E, _ = jax.lax.while_loop(cond_fn, body_fn, (0, E0, jnp.full_like(E0, jnp.inf)))
     return E
 
 
-- 
2.43.0


From ced61b415ca1fa3bb56d7eee55ff698fcbfa5033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:58 +0000
Subject: [PATCH 07/10] fix: derivatives of the universal functions with
 respect to alpha at alpha = 0

---
 src/astrodynx/twobody/_uniformulas.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/astrodynx/twobody/_uniformulas.py b/src/astrodynx/twobody/_uniformulas.py
index 4ca3b55..b36638c 100644
--- a/src/astrodynx/twobody/_uniformulas.py
+++ b/src/astrodynx/twobody/_uniformulas.py
@@ -97,7 +97,7 @@ def ufunc0(chi: ArrayLike, alpha: DTypeLike) -> Array:
         lambda: jax.lax.cond(
             alpha < 0,
             lambda: jnp.cosh(jnp.sqrt(-alpha) * chi),
-            lambda: jnp.ones_like(jnp.sqrt(alpha) * chi),
+            lambda: jnp.ones_like(jnp.sqrt(alpha) * chi) - alpha * chi**2 / 2,
         ),
     )
 
@@ -149,7 +149,7 @@ def ufunc1(chi: ArrayLike, alpha: DTypeLike) -> Array:
         lambda: jax.lax.cond(
             alpha < 0,
             lambda: jnp.sinh(jnp.sqrt(-alpha) * chi) / jnp.sqrt(-alpha),
-            lambda: jnp.ones_like(jnp.sqrt(alpha)) * chi,
+            lambda: jnp.ones_like(jnp.sqrt(alpha)) * chi * (1 - alpha * chi**2 / 6),
         ),
     )
 
@@ -201,7 +201,7 @@ def ufunc2(chi: ArrayLike, alpha: DTypeLike) -> Array:
         lambda: jax.lax.cond(
             alpha < 0,
             lambda: (jnp.cosh(jnp.sqrt(-alpha) * chi) - 1) / -alpha,
-            lambda: chi**2 / 2,
+            lambda: chi**2 / 2 * (1 - alpha * chi**2 / 12),
         ),
     )
 
@@ -257,7 +257,7 @@ def ufunc3(chi: ArrayLike, alpha: DTypeLike) -> Array:
             lambda: (jnp.sqrt(-alpha) * chi - jnp.sinh(jnp.sqrt(-alpha) * chi))
             / alpha
             / jnp.sqrt(-alpha),
-            lambda: chi**3 / 6,
+            lambda: chi**3 / 6 * (1 - alpha * chi**2 / 20),
         ),
     )
 
@@ -311,7 +311,7 @@ def ufunc4(chi: ArrayLike, alpha: DTypeLike) -> Array:
             alpha < 0,
             lambda: (alpha * chi**2 - 2 + 2 * jnp.cosh(jnp.sqrt(-alpha) * chi))
             / (2 * alpha**2),
-            lambda: chi**4 / 24,
+            lambda: chi**4 / 24 * (1 - alpha * chi**2 / 30),
         ),
     )
 
@@ -373,6 +373,6 @@ def ufunc5(chi: ArrayLike, alpha: DTypeLike) -> Array:
                 - 6 * jnp.sqrt(-alpha) * jnp.sinh(jnp.sqrt(-alpha) * chi)
             )
             / (6 * alpha**3),
-            lambda: chi**5 / 120,
+            lambda: chi**5 / 120 * (1 - alpha * chi**2 / 42),
         ),
     )
-- 
2.43.0


From 91d1b391757a73271cdb7d187fec793658d746b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:21 +0000
Subject: [PATCH 08/10] fix: NaN derivatives of kepler and dxdx0 at an exactly
 parabolic state

---
 src/astrodynx/prop/_kepler.py         | 4 ++--
 src/astrodynx/twobody/_state_trans.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/astrodynx/prop/_kepler.py b/src/astrodynx/prop/_kepler.py
index f207488..bd265ed 100644
--- a/src/astrodynx/prop/_kepler.py
+++ b/src/astrodynx/prop/_kepler.py
@@ -4,7 +4,7 @@ from jax.typing import ArrayLike, DTypeLike
 from jax import Array
 from astrodynx.twobody._kep_equ import solve_kepler_uni
 from astrodynx.twobody._uniformulas import sigma_fn, ufunc0, ufunc1, ufunc2
-from astrodynx.twobody._orb_integrals import semimajor_axis, equ_of_orb_uvi
+from astrodynx.twobody._orb_integrals import equ_of_orb_uvi
 from astrodynx.twobody._lagrange import lagrange_F, lagrange_G, lagrange_Ft, lagrange_Gt
 
 
@@ -93,7 +93,7 @@ def kepler(
     """
     r0 = jnp.linalg.vector_norm(r0_vec)
     v0 = jnp.linalg.vector_norm(v0_vec)
-    alpha = 1.0 / semimajor_axis(r0, v0, mu)
+    alpha = 2.0 / r0 - v0**2 / mu
     sigma0 = sigma_fn(r0_vec, v0_vec, mu)
 
     chi = jax.vmap(solve_kepler_uni, in_axes=(0, None, None, None, None))(
diff --git a/src/astrodynx/twobody/_state_trans.py b/src/astrodynx/twobody/_state_trans.py
index 5f20988..bbcfaae 100644
--- a/src/astrodynx/twobody/_state_trans.py
+++ b/src/astrodynx/twobody/_state_trans.py
@@ -296,7 +296,7 @@ def dxdx0(
         Array(True, dtype=bool)
     """
     r0_mag, r_mag = vector_norm(r0_vec), vector_norm(r_vec)
-    alpha = 1.0 / adx.semimajor_axis(r0_mag, vector_norm(v0_vec), mu)
+    alpha = 2.0 / r0_mag - vector_norm(v0_vec) ** 2 / mu
     chi = adx.generalized_anomaly(
         alpha, sigma_fn(r_vec, v_vec, mu), sigma_fn(r0_vec, v0_vec, mu), deltat, mu
     )
-- 
2.43.0


From 3b554c8b9a3dabb4634c66d235790762e0d28e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:07 +0000
Subject: [PATCH 09/10] fix: inclination lost half of its digits for nearly
 equatorial orbits

---
 src/astrodynx/twobody/_orb_elements.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/astrodynx/twobody/_orb_elements.py b/src/astrodynx/twobody/_orb_elements.py
index a4fa009..3c1c249 100644
--- a/src/astrodynx/twobody/_orb_elements.py
+++ b/src/astrodynx/twobody/_orb_elements.py
@@ -26,7 +26,9 @@ def inclination(h_vec: ArrayLike) -> Array:
         $$
         where $i$ is the inclination, $h_z$ is the z-component of the specific angular momentum vector, and $h$ is the norm of the specific angular momentum vector.
     """
-    return jnp.arccos(h_vec[..., 2:3] / vector_norm(h_vec, axis=-1, keepdims=True))
+    return jnp.arctan2(
+        vector_norm(h_vec[..., :2], axis=-1, keepdims=True), h_vec[..., 2:3]
+    )
 
 
 def true_anomaly(pos_vec: ArrayLike, e_vec: ArrayLike) -> Array:
-- 
2.43.0


From b0ffd8849734d01302366b87b5d2b291ca30da17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:29 +0000
Subject: [PATCH 10/10] fix: solve_kepler_uni returned its starting guess when
 the residual is NaN

---
 src/astrodynx/twobody/_kep_equ.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/astrodynx/twobody/_kep_equ.py b/src/astrodynx/twobody/_kep_equ.py
index 9962595..eb0e5d9 100644
--- a/src/astrodynx/twobody/_kep_equ.py
+++ b/src/astrodynx/twobody/_kep_equ.py
@@ -502,8 +502,9 @@ def solve_kepler_uni(
 
     def cond_fn(val: tuple[int, Array, Array]) -> Array:
         iter_count, chi, _ = val
-        not_converged = (
-            jnp.abs(kepler_equ_uni(chi, alpha, r0, sigma0, deltat, mu)) > tol
+        # a residual that is NaN has not converged
+        not_converged = ~(
+            jnp.abs(kepler_equ_uni(chi, alpha, r0, sigma0, deltat, mu)) <= tol
         )
         under_max_iter = iter_count < max_iter
         return not_converged & under_max_iter
-- 
2.43.0

