From 5ee614340c187eb52dee7e49d91020170c869be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:46 +0000
Subject: [PATCH 01/19] fix: LTI prior discretisation called jnp.trapezoid,
 missing in the supported JAX versions

---
 .../ode_solvers/probnum/transition_function.py                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/probnum/transition_function.py b/bayesian_sde_solver/ode_solvers/probnum/transition_function.py
index 60b0c10..90a5318 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/transition_function.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/transition_function.py
@@ -27,7 +27,7 @@ def transition_function(F: jnp.array, u: jnp.array, L: jnp.array, h: float, n_li
         return linalg.expm(F * s) @ u
 
     integrand_xi_values = integrand_xi(linspace)
-    xi = jnp.trapezoid(integrand_xi_values, linspace, axis=0)
+    xi = jax.scipy.integrate.trapezoid(integrand_xi_values, linspace, axis=0)
 
     @jax.vmap
     def integrand_Q(s):
@@ -35,7 +35,7 @@ def transition_function(F: jnp.array, u: jnp.array, L: jnp.array, h: float, n_li
         return B @ B.T
 
     integrand_Q_values = integrand_Q(linspace)
-    Q = jnp.trapezoid(integrand_Q_values, linspace, axis=0)
+    Q = jax.scipy.integrate.trapezoid(integrand_Q_values, linspace, axis=0)
 
     return xi, Q, A
 
-- 
2.43.0


From dfd7b06300849ebb4c040400b5c6c20e8f689ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:46 +0000
Subject: [PATCH 02/19] fix: general Matern drift matrix used inverse powers of
 lambda

---
 bayesian_sde_solver/ode_solvers/probnum/matern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/ode_solvers/probnum/matern.py b/bayesian_sde_solver/ode_solvers/probnum/matern.py
index e2675e4..d3b99a6 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/matern.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/matern.py
@@ -62,7 +62,7 @@ ArrayLike]:
     else:
         F = jnp.block(
             [[jnp.zeros(k).reshape((k, 1)), jnp.diag(jnp.ones(k))],
-             [jnp.array([-comb(k + 1, i) * lambda_param ** (i - (k + 1)) for i in range(k + 1)]).reshape((1, k + 1))]]
+             [jnp.array([-comb(k + 1, i) * lambda_param ** (k + 1 - i) for i in range(k + 1)]).reshape((1, k + 1))]]
         )
         L = jnp.append(jnp.array([0. for _ in range(k)]), jnp.array([magnitude])).reshape(k + 1, 1)
         m, Q, A = compute_transition_function(F, jnp.zeros(k + 1), L, dt)
-- 
2.43.0


From 40cdfa8ca143905603783594521ea118c5e592ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:46 +0000
Subject: [PATCH 03/19] fix: EKF0/EKF1 crashed with the default prior

---
 bayesian_sde_solver/ode_solvers/ekf0.py | 3 ++-
 bayesian_sde_solver/ode_solvers/ekf1.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf0.py b/bayesian_sde_solver/ode_solvers/ekf0.py
index 17b3f43..92f72d8 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0.py
@@ -11,7 +11,8 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
     Wrapper for EKF0 with new prior at each step.
     Algorithm 2.
     """
-    n_states = int(prior[2].shape[0] / init.shape[
+    # the default prior is the once integrated Brownian motion, i.e., n_states = 2
+    n_states = 2 if prior is None else int(prior[2].shape[0] / init.shape[
         0])  # assuming same order for each dimension... not general, but good enough. You can pad otherwise.
     dim = init.shape[0]
     # the first two cases are exact initialization
diff --git a/bayesian_sde_solver/ode_solvers/ekf1.py b/bayesian_sde_solver/ode_solvers/ekf1.py
index 20a4f5a..2f69117 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1.py
@@ -10,7 +10,8 @@ def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
     """
     Wrapper for EKF1 with new prior at each step.
     """
-    n_states = int(prior[2].shape[0] / init.shape[0])
+    # the default prior is the once integrated Brownian motion, i.e., n_states = 2
+    n_states = 2 if prior is None else int(prior[2].shape[0] / init.shape[0])
     dim = init.shape[0]
     if n_states == 2:
         # Zero initial variance
-- 
2.43.0


From b0cd649c7286688f9c56f066216c59c9a4bd334d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:46 +0000
Subject: [PATCH 04/19] fix: EKF0/EKF1 initial law with more than three states
 per dimension

EKF0 crashed, and EKF1 zeroed the first 3 * dim interlaced entries instead
of the first three states of every dimension.
---
 bayesian_sde_solver/ode_solvers/ekf0.py | 4 ++--
 bayesian_sde_solver/ode_solvers/ekf1.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf0.py b/bayesian_sde_solver/ode_solvers/ekf0.py
index 92f72d8..b5a7b3b 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0.py
@@ -32,9 +32,9 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
         # The three first states are exactly initialized, otherwise set to 0 with unit variance. This is arbitrary.
         init = (
             interlace((init, vector_field(init, 0.0),
-                       jax.jacfwd(vector_field, argnums=(0,))(init, 0.0) @ vector_field(init, 0.0),
+                       jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0),
                        *(jnp.zeros(dim) for _ in range(n_states - 3)))),
-            jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3]).set(0)
+            jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3].set(0.0))
         )
     filtered = _solver(init, vector_field, h, N, sqrt, EKF0=True, prior=prior, noise=noise, n_states=n_states)
     m, P = filtered
diff --git a/bayesian_sde_solver/ode_solvers/ekf1.py b/bayesian_sde_solver/ode_solvers/ekf1.py
index 2f69117..48ddc5c 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1.py
@@ -30,7 +30,7 @@ def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
         init = (
             interlace((init, vector_field(init, 0.0), jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0),
                        *(jnp.zeros(dim) for _ in range(n_states - 3)))),
-            jnp.eye(n_states * dim).at[:3 * dim, :3 * dim].set(0.0)
+            jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3].set(0.0))
         )
     filtered = _solver(init, vector_field, h, N, sqrt, EKF0=False, prior=prior, noise=noise, n_states=n_states)
     m, P = filtered
-- 
2.43.0


From 378ade60ea652ecd85d44c3fe5f28f412c92d94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:46 +0000
Subject: [PATCH 05/19] fix: exact initialisation of y'' ignored the time
 derivative of the vector field

---
 bayesian_sde_solver/ode_solvers/ekf0.py | 9 +++++++--
 bayesian_sde_solver/ode_solvers/ekf1.py | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf0.py b/bayesian_sde_solver/ode_solvers/ekf0.py
index b5a7b3b..1ab098d 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0.py
@@ -15,6 +15,11 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
     n_states = 2 if prior is None else int(prior[2].shape[0] / init.shape[
         0])  # assuming same order for each dimension... not general, but good enough. You can pad otherwise.
     dim = init.shape[0]
+
+    def second_derivative(x, t):
+        # y'' = (d_x f) f + d_t f, as y' = f(y, t)
+        return jax.jacfwd(vector_field, 0)(x, t) @ vector_field(x, t) + jax.jacfwd(vector_field, 1)(x, t)
+
     # the first two cases are exact initialization
     if n_states == 2:
         # Zero initial variance
@@ -25,14 +30,14 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
     elif n_states == 3:
         # Zero initial variance
         init = (
-            interlace((init, vector_field(init, 0.0), jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0))),
+            interlace((init, vector_field(init, 0.0), second_derivative(init, 0.0))),
             jnp.zeros((n_states * dim, n_states * dim))
         )
     else:
         # The three first states are exactly initialized, otherwise set to 0 with unit variance. This is arbitrary.
         init = (
             interlace((init, vector_field(init, 0.0),
-                       jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0),
+                       second_derivative(init, 0.0),
                        *(jnp.zeros(dim) for _ in range(n_states - 3)))),
             jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3].set(0.0))
         )
diff --git a/bayesian_sde_solver/ode_solvers/ekf1.py b/bayesian_sde_solver/ode_solvers/ekf1.py
index 48ddc5c..c92342e 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1.py
@@ -13,6 +13,11 @@ def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
     # the default prior is the once integrated Brownian motion, i.e., n_states = 2
     n_states = 2 if prior is None else int(prior[2].shape[0] / init.shape[0])
     dim = init.shape[0]
+
+    def second_derivative(x, t):
+        # y'' = (d_x f) f + d_t f, as y' = f(y, t)
+        return jax.jacfwd(vector_field, 0)(x, t) @ vector_field(x, t) + jax.jacfwd(vector_field, 1)(x, t)
+
     if n_states == 2:
         # Zero initial variance
         init = (
@@ -22,13 +27,13 @@ def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
     elif n_states == 3:
         # Zero initial variance
         init = (
-            interlace((init, vector_field(init, 0.0), jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0))),
+            interlace((init, vector_field(init, 0.0), second_derivative(init, 0.0))),
             jnp.zeros((n_states * dim, n_states * dim))
         )
     else:
         # The three first states are exactly initialized, otherwise set to 0 with unit variance. This is arbitrary.
         init = (
-            interlace((init, vector_field(init, 0.0), jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0),
+            interlace((init, vector_field(init, 0.0), second_derivative(init, 0.0),
                        *(jnp.zeros(dim) for _ in range(n_states - 3)))),
             jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3].set(0.0))
         )
-- 
2.43.0


From 6bfd322ca764d9be7729f156c44555a032f56a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:46 +0000
Subject: [PATCH 06/19] fix: marginalised parabola filter did not pass the
 transition increment to ekf

---
 bayesian_sde_solver/ssm_parabola/ekf.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bayesian_sde_solver/ssm_parabola/ekf.py b/bayesian_sde_solver/ssm_parabola/ekf.py
index 49f5e6a..c21952b 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf.py
@@ -64,13 +64,13 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
             return x[1::4] - extended_vector_field(x, t)
     if prior is None:
         (
-            _,
+            one_block_transition_incr,
             one_block_transition_covariance,
             one_block_transition_matrix
         ) = IOUP_transition_function(theta=0.0, sigma=1.0, q=1, dt=h, dim=1)
     else:
         (
-            _,
+            one_block_transition_incr,
             one_block_transition_covariance,
             one_block_transition_matrix
         ) = prior
@@ -89,10 +89,11 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
          [jnp.zeros((2, 2)), jnp.zeros((2, 2))]]
     )
 
+    transition_incr = jnp.kron(jnp.ones((dim,)), jnp.append(one_block_transition_incr, jnp.zeros(2)))
     transition_matrix = jnp.kron(jnp.eye(dim), one_block_transition_matrix)
     transition_covariance = jnp.kron(jnp.eye(dim), one_block_transition_covariance)
 
     filtered = ekf(init=init, observation_function=observation_function, A=transition_matrix,
-                   Q_or_cholQ=transition_covariance, R_or_cholR=noise, params=(ts,), lower_sqrt=sqrt)
+                   Q_or_cholQ=transition_covariance, xi=transition_incr, R_or_cholR=noise, params=(ts,), lower_sqrt=sqrt)
 
     return filtered
-- 
2.43.0


From 9b1ac092d57035c104b81d90b64d8a3820cce69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:46 +0000
Subject: [PATCH 07/19] fix: euler_maruyama_pathwise rescaled the caller's
 increments in place

---
 bayesian_sde_solver/sde_solvers/euler_maruyama.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/sde_solvers/euler_maruyama.py b/bayesian_sde_solver/sde_solvers/euler_maruyama.py
index 567826b..6985203 100644
--- a/bayesian_sde_solver/sde_solvers/euler_maruyama.py
+++ b/bayesian_sde_solver/sde_solvers/euler_maruyama.py
@@ -39,7 +39,7 @@ def solver_pathwise(incs, init, drift, sigma, h, N, standard=False):
 
     ts = jnp.linspace(0, N * h, N + 1)
     if standard:
-        incs *= h ** 0.5
+        incs = incs * h ** 0.5
     inps = incs, ts[:-1]
     _, samples = jax.lax.scan(body, init, inps)
     samples = jnp.insert(samples, 0, init, axis=0)
-- 
2.43.0


From 5a72ea5a50f6064f5b83dfdfbbf1cd06411e23bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:46 +0000
Subject: [PATCH 08/19] fix: area of the fine Brownian path was integrated with
 indices shifted by one

The starting point was missing and the end point was counted twice
(out-of-bounds index, clamped).
---
 bayesian_sde_solver/foster_polynomial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/foster_polynomial.py b/bayesian_sde_solver/foster_polynomial.py
index ef58d22..e994a77 100644
--- a/bayesian_sde_solver/foster_polynomial.py
+++ b/bayesian_sde_solver/foster_polynomial.py
@@ -38,7 +38,9 @@ def get_approx_and_brownian(dim=1, N=1000):
         bm = jnp.cumsum(incs, axis=0)
         bm *= jnp.sqrt(dt / N)
 
-        _is = jnp.arange(1, N + 1)
+        bm = jnp.insert(bm, 0, 0.0, axis=0)
+
+        _is = jnp.arange(0, N + 1)
 
         eps_0 = bm.at[-1].get()
 
-- 
2.43.0


From 84a8d163f775a6650fc8b874ec669e260f1ae6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:46 +0000
Subject: [PATCH 09/19] fix: sign of alpha in the second order FitzHugh-Nagumo
 mean

---
 bayesian_sde_solver/utils/ivp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/utils/ivp.py b/bayesian_sde_solver/utils/ivp.py
index fedc79d..5125754 100644
--- a/bayesian_sde_solver/utils/ivp.py
+++ b/bayesian_sde_solver/utils/ivp.py
@@ -40,7 +40,7 @@ def fhn():
         return x0 + t * jnp.array(
             [1 / eps * (x0[0] - x0[0] ** 3 - x0[1] + s) + t / 2 * 1 / eps * (
                     1 / eps * (1 - 3 * x0[0] ** 2) * (x0[0] - x0[0] ** 3 - x0[1] + s)
-                    - (gamma * x0[0] - x0[1] - alpha)),
+                    - (gamma * x0[0] - x0[1] + alpha)),
              gamma * x0[0] - x0[1] + alpha + t / 2 * (
                      gamma / eps * (x0[0] - x0[0] ** 3 - x0[1] + s) - (gamma * x0[0] - x0[1] + alpha))])
 
-- 
2.43.0


From bb4b4f18a54afc6b128f6700956b2414a1caec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:46 +0000
Subject: [PATCH 10/19] fix: reduced synaptic conductance indexed its two
 states as 1 and 2

---
 bayesian_sde_solver/utils/ivp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayesian_sde_solver/utils/ivp.py b/bayesian_sde_solver/utils/ivp.py
index 5125754..f2aaa4e 100644
--- a/bayesian_sde_solver/utils/ivp.py
+++ b/bayesian_sde_solver/utils/ivp.py
@@ -163,16 +163,16 @@ def synaptic_conductance_reduced():
 
     def drift(x):
         return jnp.array(
-            [-1.0 / tau_E * (x[1] - gbar_E), -1.0 / tau_I * (x[2] - gbar_I)]
+            [-1.0 / tau_E * (x[0] - gbar_E), -1.0 / tau_I * (x[1] - gbar_I)]
         )
 
     def sigma(x):
         return jnp.array(
-            [[sig_E * x[1] ** 0.5, 0.0], [0.0, sig_I * x[2] ** 0.5]]
+            [[sig_E * x[0] ** 0.5, 0.0], [0.0, sig_I * x[1] ** 0.5]]
         )
 
     def theoretical_mean_up_to_order_2(t):
-        return x0 + t * drift(x0) + t ** 2 / 2 * jnp.array([-1.0 / tau_E * drift(x0)[1], -1.0 / tau_I * drift(x0)[2]])
+        return x0 + t * drift(x0) + t ** 2 / 2 * jnp.array([-1.0 / tau_E * drift(x0)[0], -1.0 / tau_I * drift(x0)[1]])
 
     return x0, drift, sigma, theoretical_mean_up_to_order_2
 
-- 
2.43.0


From 380a591f6ded24d040e9d186b040bc574a876f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:46 +0000
Subject: [PATCH 11/19] fix: random_linear_sde drew its drift and diffusion
 matrices from the same key

---
 bayesian_sde_solver/utils/ivp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayesian_sde_solver/utils/ivp.py b/bayesian_sde_solver/utils/ivp.py
index f2aaa4e..89f4c37 100644
--- a/bayesian_sde_solver/utils/ivp.py
+++ b/bayesian_sde_solver/utils/ivp.py
@@ -131,9 +131,11 @@ def random_linear_sde(key=jax.random.PRNGKey(1337), dim=1, std1=None, std2=None)
 
     x0 = jnp.ones((dim,))
 
-    drift_matrix = jax.random.normal(key, shape=(dim, dim))
+    drift_key, sigma_key = jax.random.split(key, 2)
 
-    sigma_matrix = jax.random.normal(key, shape=(dim, dim))
+    drift_matrix = jax.random.normal(drift_key, shape=(dim, dim))
+
+    sigma_matrix = jax.random.normal(sigma_key, shape=(dim, dim))
 
     def drift(x, t):
         return std1 @ drift_matrix @ x
-- 
2.43.0


From 1752e7b74c41dcc167eecade4891f6581ef98016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:15 +0000
Subject: [PATCH 12/19] fix: square roots of singular covariances were NaN

Covariances propagated from a noiseless observation are singular and the
Schur based sqrtm divides zero by zero on them: whole trajectories of
ekf1_2(sqrt=True) became NaN.
---
 bayesian_sde_solver/ode_solvers/ekf0.py          |  5 ++---
 bayesian_sde_solver/ode_solvers/ekf0_2.py        |  7 +++----
 bayesian_sde_solver/ode_solvers/ekf1.py          |  5 ++---
 bayesian_sde_solver/ode_solvers/ekf1_2.py        |  7 +++----
 .../ode_solvers/probnum/__init__.py              |  2 +-
 .../ode_solvers/probnum/_utils.py                | 16 ++++++++++++++++
 bayesian_sde_solver/ssm_parabola/ekf.py          |  5 ++---
 bayesian_sde_solver/ssm_parabola/ekf0.py         |  4 ++--
 bayesian_sde_solver/ssm_parabola/ekf1.py         |  4 ++--
 9 files changed, 33 insertions(+), 22 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf0.py b/bayesian_sde_solver/ode_solvers/ekf0.py
index 1ab098d..f895e7f 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0.py
@@ -1,9 +1,8 @@
 import jax
 import jax.numpy as jnp
-import jax.scipy.linalg as linalg
 
 from bayesian_sde_solver.ode_solvers.ekf1 import _solver
-from bayesian_sde_solver.ode_solvers.probnum import interlace
+from bayesian_sde_solver.ode_solvers.probnum import interlace, sqrtm_psd
 
 
 def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
@@ -44,7 +43,7 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
     filtered = _solver(init, vector_field, h, N, sqrt, EKF0=True, prior=prior, noise=noise, n_states=n_states)
     m, P = filtered
     if key is not None:
-        sqrtP = P if sqrt else jnp.real(linalg.sqrtm(P))
+        sqrtP = P if sqrt else sqrtm_psd(P)
         last_sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((n_states * dim,)),
                                                                  jnp.eye(n_states * dim))
         return jnp.vstack(last_sample[::n_states]).reshape((dim,))
diff --git a/bayesian_sde_solver/ode_solvers/ekf0_2.py b/bayesian_sde_solver/ode_solvers/ekf0_2.py
index 6485a59..d9ea0e8 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0_2.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0_2.py
@@ -1,9 +1,8 @@
 import jax
 import jax.numpy as jnp
-import jax.scipy.linalg as linalg
 
 from bayesian_sde_solver.ode_solvers.ekf import _solver
-from bayesian_sde_solver.ode_solvers.probnum import interlace, interlace_matrix
+from bayesian_sde_solver.ode_solvers.probnum import interlace, interlace_matrix, sqrtm_psd
 
 
 def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, return_all=False):
@@ -21,7 +20,7 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, re
     P_10 = H @ P_00
     var = interlace_matrix(P_00, P_01, P_10, P_11)
     if sqrt:
-        var = jnp.real(linalg.sqrtm(var))
+        var = sqrtm_psd(var)
     init = (
         interlace((m_0, vector_field(m_0, 0.0))),
         var
@@ -36,7 +35,7 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, re
         sqrtP = P
         P = sqrtP @ sqrtP.T
     else:
-        sqrtP = jnp.real(linalg.sqrtm(P))
+        sqrtP = sqrtm_psd(P)
     if key is not None:
         sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((2 * dim,)), jnp.eye(2 * dim))
     else:
diff --git a/bayesian_sde_solver/ode_solvers/ekf1.py b/bayesian_sde_solver/ode_solvers/ekf1.py
index c92342e..8a5053f 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1.py
@@ -1,9 +1,8 @@
 import jax
 import jax.numpy as jnp
-import jax.scipy.linalg as linalg
 
 from bayesian_sde_solver.ode_solvers.ekf import _solver
-from bayesian_sde_solver.ode_solvers.probnum import interlace
+from bayesian_sde_solver.ode_solvers.probnum import interlace, sqrtm_psd
 
 
 def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
@@ -40,7 +39,7 @@ def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
     filtered = _solver(init, vector_field, h, N, sqrt, EKF0=False, prior=prior, noise=noise, n_states=n_states)
     m, P = filtered
     if key is not None:
-        sqrtP = P if sqrt else jnp.real(linalg.sqrtm(P))
+        sqrtP = P if sqrt else sqrtm_psd(P)
         last_sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((n_states * dim,)), jnp.eye(n_states * dim))
         return jnp.vstack(last_sample[::n_states]).reshape((dim,))
     last_value = jnp.vstack(m[::n_states]).reshape((dim,))
diff --git a/bayesian_sde_solver/ode_solvers/ekf1_2.py b/bayesian_sde_solver/ode_solvers/ekf1_2.py
index f366836..a928534 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1_2.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1_2.py
@@ -1,9 +1,8 @@
 import jax
 import jax.numpy as jnp
-import jax.scipy.linalg as linalg
 
 from bayesian_sde_solver.ode_solvers.ekf import _solver
-from bayesian_sde_solver.ode_solvers.probnum import interlace, interlace_matrix
+from bayesian_sde_solver.ode_solvers.probnum import interlace, interlace_matrix, sqrtm_psd
 
 
 def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, return_all=False):
@@ -26,7 +25,7 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, re
     P_01 = P_00 @ H.T
     var = interlace_matrix(P_00, P_01, P_10, P_11)
     if sqrt:
-        var = jnp.real(linalg.sqrtm(var))
+        var = sqrtm_psd(var)
     init = (
         interlace((m_0, vector_field(m_0, 0.0))),
         var
@@ -41,7 +40,7 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, re
         sqrtP = P
         P = sqrtP @ sqrtP.T
     else:
-        sqrtP = jnp.real(linalg.sqrtm(P))
+        sqrtP = sqrtm_psd(P)
     if key is not None:
         sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((2 * dim,)), jnp.eye(2 * dim))
     else:
diff --git a/bayesian_sde_solver/ode_solvers/probnum/__init__.py b/bayesian_sde_solver/ode_solvers/probnum/__init__.py
index 49556ad..ce64e3c 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/__init__.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/__init__.py
@@ -1,5 +1,5 @@
 from .IOUP import transition_function as IOUP_transition_function
 from .matern import transition_function as matern_transition_function
-from ._utils import interlace, interlace_matrix
+from ._utils import interlace, interlace_matrix, sqrtm_psd, cholesky_psd
 from .ekf import ekf
 from .transition_function import transition_function as transition_function, get_independently_factorized_prior, pad_prior
diff --git a/bayesian_sde_solver/ode_solvers/probnum/_utils.py b/bayesian_sde_solver/ode_solvers/probnum/_utils.py
index 43cd8f6..e79de77 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/_utils.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/_utils.py
@@ -27,3 +27,19 @@ def interlace_matrix(v: ArrayLike, w: ArrayLike, x: ArrayLike, y: ArrayLike) ->
     _var = _var.at[1::2, ::2].set(var.at[dim:, :dim].get())
     _var = _var.at[::2, 1::2].set(var.at[:dim, dim:].get())
     return _var
+
+
+def sqrtm_psd(P: ArrayLike) -> ArrayLike:
+    """
+    Symmetric square root of a symmetric positive semi-definite matrix, which may be singular.
+    """
+    w, v = jnp.linalg.eigh(0.5 * (P + P.T))
+    return (v * jnp.sqrt(jnp.maximum(w, 0.0))) @ v.T
+
+
+def cholesky_psd(P: ArrayLike) -> ArrayLike:
+    """
+    Factor L such that L @ L.T = P: the Cholesky factor when it exists, otherwise (singular P) the symmetric square root.
+    """
+    L = jnp.linalg.cholesky(P)
+    return jnp.where(jnp.all(jnp.isfinite(L)), L, sqrtm_psd(P))
diff --git a/bayesian_sde_solver/ssm_parabola/ekf.py b/bayesian_sde_solver/ssm_parabola/ekf.py
index c21952b..f2d76d0 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf.py
@@ -1,10 +1,9 @@
 import jax
 import jax.numpy as jnp
-import jax.scipy.linalg as linalg
 
 from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function
 from bayesian_sde_solver.ode_solvers.probnum import ekf
-from bayesian_sde_solver.ode_solvers.probnum import interlace
+from bayesian_sde_solver.ode_solvers.probnum import interlace, sqrtm_psd
 
 
 def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=None, noise=None):
@@ -77,7 +76,7 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
 
     if sqrt:
         one_block_transition_covariance = jnp.linalg.cholesky(one_block_transition_covariance)
-        var = jnp.real(linalg.sqrtm(var))  # should be LDL.T, Cholesky
+        var = sqrtm_psd(var)  # should be LDL.T, Cholesky
     init = (mean, var)
 
     one_block_transition_matrix = jnp.block(
diff --git a/bayesian_sde_solver/ssm_parabola/ekf0.py b/bayesian_sde_solver/ssm_parabola/ekf0.py
index 4ad9bd2..3ddd7d4 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf0.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf0.py
@@ -1,7 +1,7 @@
 import jax
 import jax.numpy as jnp
-import jax.scipy.linalg as linalg
 
+from bayesian_sde_solver.ode_solvers.probnum import sqrtm_psd
 from bayesian_sde_solver.ssm_parabola.ekf import _solver
 
 
@@ -15,7 +15,7 @@ def solver(key, init, delta, drift, diffusion, h, N, sqrt=False, prior=None, noi
     filtered = _solver(init, drift, diffusion, delta, h, N, sqrt, EKF0=True, prior=prior, noise=noise)
     m, P = filtered
     if key is not None:
-        sqrtP = P if sqrt else jnp.real(linalg.sqrtm(P))
+        sqrtP = P if sqrt else sqrtm_psd(P)
         sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((4 * dim,)), jnp.eye(4 * dim))
     else:
         sample = m  # no sampling, only mean.
diff --git a/bayesian_sde_solver/ssm_parabola/ekf1.py b/bayesian_sde_solver/ssm_parabola/ekf1.py
index 2117f28..213d8b2 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf1.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf1.py
@@ -1,7 +1,7 @@
 import jax
 import jax.numpy as jnp
-import jax.scipy.linalg as linalg
 
+from bayesian_sde_solver.ode_solvers.probnum import sqrtm_psd
 from bayesian_sde_solver.ssm_parabola.ekf import _solver
 
 
@@ -15,7 +15,7 @@ def solver(key, init, delta, drift, diffusion, h, N, sqrt=False, prior=None, noi
     filtered = _solver(init, drift, diffusion, delta, h, N, sqrt, EKF0=False, prior=prior, noise=noise)
     m, P = filtered
     if key is not None:
-        sqrtP = P if sqrt else jnp.real(linalg.sqrtm(P))
+        sqrtP = P if sqrt else sqrtm_psd(P)
         sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((4 * dim,)), jnp.eye(4 * dim))
     else:
         sample = m  # no sampling, only mean.
-- 
2.43.0


From f6d19c58ac0b3fe2d3596f8cd2542c43db6b3c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:15 +0000
Subject: [PATCH 13/19] fix: square root filters took the observation noise
 covariance for its square root

and failed on singular transition covariances, such as those of padded priors.
---
 bayesian_sde_solver/ode_solvers/ekf.py  | 5 +++--
 bayesian_sde_solver/ssm_parabola/ekf.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf.py b/bayesian_sde_solver/ode_solvers/ekf.py
index 490af4e..e26fa26 100644
--- a/bayesian_sde_solver/ode_solvers/ekf.py
+++ b/bayesian_sde_solver/ode_solvers/ekf.py
@@ -2,7 +2,7 @@ import jax
 import jax.numpy as jnp
 
 from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function
-from bayesian_sde_solver.ode_solvers.probnum import ekf
+from bayesian_sde_solver.ode_solvers.probnum import cholesky_psd, ekf
 
 
 def _solver(init, vector_field, h, N, sqrt=False, EKF0=False, prior=None, noise=None, return_all=False, n_states=2):
@@ -44,7 +44,8 @@ def _solver(init, vector_field, h, N, sqrt=False, EKF0=False, prior=None, noise=
             transition_matrix
         ) = prior
     if sqrt:
-        transition_covariance = jnp.linalg.cholesky(transition_covariance)
+        transition_covariance = cholesky_psd(transition_covariance)
+        noise = cholesky_psd(noise)
 
     filtered = ekf(init=init, observation_function=observation_function, A=transition_matrix,
                    Q_or_cholQ=transition_covariance, xi=transition_incr, R_or_cholR=noise, params=(ts,), lower_sqrt=sqrt, return_UC=return_all)
diff --git a/bayesian_sde_solver/ssm_parabola/ekf.py b/bayesian_sde_solver/ssm_parabola/ekf.py
index f2d76d0..d7ade6a 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf.py
@@ -3,7 +3,7 @@ import jax.numpy as jnp
 
 from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function
 from bayesian_sde_solver.ode_solvers.probnum import ekf
-from bayesian_sde_solver.ode_solvers.probnum import interlace, sqrtm_psd
+from bayesian_sde_solver.ode_solvers.probnum import cholesky_psd, interlace, sqrtm_psd
 
 
 def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=None, noise=None):
@@ -75,7 +75,8 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
         ) = prior
 
     if sqrt:
-        one_block_transition_covariance = jnp.linalg.cholesky(one_block_transition_covariance)
+        one_block_transition_covariance = cholesky_psd(one_block_transition_covariance)
+        noise = cholesky_psd(noise)
         var = sqrtm_psd(var)  # should be LDL.T, Cholesky
     init = (mean, var)
 
-- 
2.43.0


From 43a8d40a5f669ff8bcfbe695c69a1af6bae3ce54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:15 +0000
Subject: [PATCH 14/19] fix: multiplicative noise terms of the diagonal order
 1.5 scheme

The triple integral was missing its factor of the Brownian increment, which
biases every step at order h, and the coordinates were mixed by dot products.
---
 bayesian_sde_solver/sde_solvers/diag_15_scheme.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayesian_sde_solver/sde_solvers/diag_15_scheme.py b/bayesian_sde_solver/sde_solvers/diag_15_scheme.py
index fdb0a0c..ce223fa 100644
--- a/bayesian_sde_solver/sde_solvers/diag_15_scheme.py
+++ b/bayesian_sde_solver/sde_solvers/diag_15_scheme.py
@@ -59,11 +59,11 @@ def solver(key, init, drift, sigma, h, N):
                 * partialxsigma(x)
                 @ sigma(x)
                 @ (jnp.square(eta_k) - h * jnp.ones(dim))
-                + partialxsigma(x) @ drift(x) @ (h * eta_k - zeta_k)
-                + 0.5 * laplacesigma(x) @ (h * eta_k - zeta_k)
+                + partialxsigma(x) @ drift(x) * (h * eta_k - zeta_k)
+                + 0.5 * laplacesigma(x) * (h * eta_k - zeta_k)
                 + 0.5
-                * (partialxsigma(x) @ partialxsigma(x) @ sigma(x) + laplacesigma(x))
-                @ (1 / 3 * eta_k @ eta_k.T - h * jnp.ones(dim))
+                * (partialxsigma(x) @ partialxsigma(x) @ diagSigma(x) + laplacesigma(x))
+                * (1 / 3 * jnp.square(eta_k) - h * jnp.ones(dim)) * eta_k
         )
         return out, out
 
-- 
2.43.0


From 875829250b291b31cd4ec3324e9353164e0193be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:04 +0000
Subject: [PATCH 15/19] fix: predict and update no longer worked as the tests
 call them

update returned a pair with None instead of the updated law, and predict had
no default increment.
---
 bayesian_sde_solver/ode_solvers/probnum/ekf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/probnum/ekf.py b/bayesian_sde_solver/ode_solvers/probnum/ekf.py
index c2d6937..b439cb4 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/ekf.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/ekf.py
@@ -10,7 +10,7 @@ def tria(A):
     return jnp.triu(r[:n, :n]).T
 
 
-def predict(x, A, Q_or_cholQ, xi, lower_sqrt=False):
+def predict(x, A, Q_or_cholQ, xi=0.0, lower_sqrt=False):
     m, P_or_cholP = x
     if lower_sqrt:
         P_or_cholP = tria(jnp.concatenate([A @ P_or_cholP, Q_or_cholQ], axis=1))
@@ -34,13 +34,13 @@ def update(x, c, H, R_or_cholR, lower_sqrt=False, return_S=False):
         I = chol_S[:ny, :ny]
 
         m = m - G @ linalg.solve_triangular(I, c, lower=True)
-        return (m, cholP), I if return_S else None
+        return ((m, cholP), I) if return_S else (m, cholP)
     S = H @ P_or_cholP @ H.T + R_or_cholR
     S_invH = linalg.solve(S, H, assume_a='pos')
     K = (S_invH @ P_or_cholP).T
     b = m - K @ c
     C = P_or_cholP - K @ H @ P_or_cholP
-    return (b, C), S if return_S else None
+    return ((b, C), S) if return_S else (b, C)
 
 
 def ekf(init, observation_function, A, Q_or_cholQ, xi, R_or_cholR, params=None, lower_sqrt=False,
@@ -75,7 +75,7 @@ def ekf(init, observation_function, A, Q_or_cholQ, xi, R_or_cholR, params=None,
         y = (m,) if param is None else (m, *param)
         H = jax.jacfwd(observation_function, 0)(*y)
         c = observation_function(*y)
-        x, _ = update(x, c, H, R_or_cholR, lower_sqrt, return_S=False)
+        x = update(x, c, H, R_or_cholR, lower_sqrt, return_S=False)
         return x, None
 
     if return_UC:
-- 
2.43.0


From a3097a3db8e02226ea0694f5153b4ccf6892fd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:12 +0000
Subject: [PATCH 16/19] fix: FitzHugh-Nagumo variance stated up to order 3
 lacked third order terms

---
 bayesian_sde_solver/utils/ivp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayesian_sde_solver/utils/ivp.py b/bayesian_sde_solver/utils/ivp.py
index 89f4c37..5aa6e68 100644
--- a/bayesian_sde_solver/utils/ivp.py
+++ b/bayesian_sde_solver/utils/ivp.py
@@ -47,8 +47,10 @@ def fhn():
     def theoretical_variance_up_to_order3(t):
         return sig ** 2 * jnp.array(
             [
-                [1 / 3 * t ** 3 * 1 / eps ** 2, -1 / 2 * t ** 2 * 1 / eps],
-                [-1 / 2 * t ** 2 * 1 / eps, t - t ** 2],
+                [1 / 3 * t ** 3 * 1 / eps ** 2,
+                 -1 / 2 * t ** 2 * 1 / eps + t ** 3 * (1 / (2 * eps) - (1 - 3 * x0[0] ** 2) / (6 * eps ** 2))],
+                [-1 / 2 * t ** 2 * 1 / eps + t ** 3 * (1 / (2 * eps) - (1 - 3 * x0[0] ** 2) / (6 * eps ** 2)),
+                 t - t ** 2 + 1 / 3 * t ** 3 * (2 - gamma / eps)],
             ])
 
     return x0, drift, sigma, theoretical_mean_up_to_order_2, theoretical_variance_up_to_order3
-- 
2.43.0


From 2a97e1d5bd6b2b0778aa94a762730970900838d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:12 +0000
Subject: [PATCH 17/19] fix: synaptic conductance second order mean used the
 wrong coordinate in the excitatory term

---
 bayesian_sde_solver/utils/ivp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/utils/ivp.py b/bayesian_sde_solver/utils/ivp.py
index 5aa6e68..b6aefbb 100644
--- a/bayesian_sde_solver/utils/ivp.py
+++ b/bayesian_sde_solver/utils/ivp.py
@@ -333,7 +333,7 @@ def synaptic_conductance():
 
     def theoretical_mean_up_to_order_2(t):
         return (x0 + t * drift(x0) + t ** 2 / 2 * jnp.array(
-            [-1.0 / C * (drift(x0)[0] * (G_L + x0[1] + x0[2]) + drift(x0)[1] * (x0[1] - V_E) + drift(x0)[2] * (
+            [-1.0 / C * (drift(x0)[0] * (G_L + x0[1] + x0[2]) + drift(x0)[1] * (x0[0] - V_E) + drift(x0)[2] * (
                     x0[0] - V_I)),
              -1.0 / tau_E * drift(x0)[1],
              -1.0 / tau_I * drift(x0)[2]])
-- 
2.43.0


From 6ccd0e1bd6f5200f4b5b9065e5c3220e797d1d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:49 +0000
Subject: [PATCH 18/19] fix: draw samples with the symmetric root in the
 square-root solvers, whose factor of a singular covariance depends on
 rounding

---
 bayesian_sde_solver/ode_solvers/ekf0.py   | 3 ++-
 bayesian_sde_solver/ode_solvers/ekf0_2.py | 7 +++----
 bayesian_sde_solver/ode_solvers/ekf1.py   | 3 ++-
 bayesian_sde_solver/ode_solvers/ekf1_2.py | 7 +++----
 bayesian_sde_solver/ssm_parabola/ekf0.py  | 3 ++-
 bayesian_sde_solver/ssm_parabola/ekf1.py  | 3 ++-
 6 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf0.py b/bayesian_sde_solver/ode_solvers/ekf0.py
index f895e7f..311d6aa 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0.py
@@ -43,7 +43,8 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
     filtered = _solver(init, vector_field, h, N, sqrt, EKF0=True, prior=prior, noise=noise, n_states=n_states)
     m, P = filtered
     if key is not None:
-        sqrtP = P if sqrt else sqrtm_psd(P)
+        # the factor of a singular covariance is not unique, its symmetric square root is
+        sqrtP = sqrtm_psd(P @ P.T if sqrt else P)
         last_sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((n_states * dim,)),
                                                                  jnp.eye(n_states * dim))
         return jnp.vstack(last_sample[::n_states]).reshape((dim,))
diff --git a/bayesian_sde_solver/ode_solvers/ekf0_2.py b/bayesian_sde_solver/ode_solvers/ekf0_2.py
index d9ea0e8..aed496c 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0_2.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0_2.py
@@ -32,11 +32,10 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, re
     else:
         m, P = filtered
     if sqrt:
-        sqrtP = P
-        P = sqrtP @ sqrtP.T
-    else:
-        sqrtP = sqrtm_psd(P)
+        P = P @ P.T
     if key is not None:
+        # the factor of a singular covariance is not unique, its symmetric square root is
+        sqrtP = sqrtm_psd(P)
         sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((2 * dim,)), jnp.eye(2 * dim))
     else:
         sample = m
diff --git a/bayesian_sde_solver/ode_solvers/ekf1.py b/bayesian_sde_solver/ode_solvers/ekf1.py
index 8a5053f..0bf4df0 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1.py
@@ -39,7 +39,8 @@ def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
     filtered = _solver(init, vector_field, h, N, sqrt, EKF0=False, prior=prior, noise=noise, n_states=n_states)
     m, P = filtered
     if key is not None:
-        sqrtP = P if sqrt else sqrtm_psd(P)
+        # the factor of a singular covariance is not unique, its symmetric square root is
+        sqrtP = sqrtm_psd(P @ P.T if sqrt else P)
         last_sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((n_states * dim,)), jnp.eye(n_states * dim))
         return jnp.vstack(last_sample[::n_states]).reshape((dim,))
     last_value = jnp.vstack(m[::n_states]).reshape((dim,))
diff --git a/bayesian_sde_solver/ode_solvers/ekf1_2.py b/bayesian_sde_solver/ode_solvers/ekf1_2.py
index a928534..d5c994d 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1_2.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1_2.py
@@ -37,11 +37,10 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, re
     else:
         m, P = filtered
     if sqrt:
-        sqrtP = P
-        P = sqrtP @ sqrtP.T
-    else:
-        sqrtP = sqrtm_psd(P)
+        P = P @ P.T
     if key is not None:
+        # the factor of a singular covariance is not unique, its symmetric square root is
+        sqrtP = sqrtm_psd(P)
         sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((2 * dim,)), jnp.eye(2 * dim))
     else:
         sample = m
diff --git a/bayesian_sde_solver/ssm_parabola/ekf0.py b/bayesian_sde_solver/ssm_parabola/ekf0.py
index 3ddd7d4..8a91392 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf0.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf0.py
@@ -15,7 +15,8 @@ def solver(key, init, delta, drift, diffusion, h, N, sqrt=False, prior=None, noi
     filtered = _solver(init, drift, diffusion, delta, h, N, sqrt, EKF0=True, prior=prior, noise=noise)
     m, P = filtered
     if key is not None:
-        sqrtP = P if sqrt else sqrtm_psd(P)
+        # the factor of a singular covariance is not unique, its symmetric square root is
+        sqrtP = sqrtm_psd(P @ P.T if sqrt else P)
         sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((4 * dim,)), jnp.eye(4 * dim))
     else:
         sample = m  # no sampling, only mean.
diff --git a/bayesian_sde_solver/ssm_parabola/ekf1.py b/bayesian_sde_solver/ssm_parabola/ekf1.py
index 213d8b2..99b6949 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf1.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf1.py
@@ -15,7 +15,8 @@ def solver(key, init, delta, drift, diffusion, h, N, sqrt=False, prior=None, noi
     filtered = _solver(init, drift, diffusion, delta, h, N, sqrt, EKF0=False, prior=prior, noise=noise)
     m, P = filtered
     if key is not None:
-        sqrtP = P if sqrt else sqrtm_psd(P)
+        # the factor of a singular covariance is not unique, its symmetric square root is
+        sqrtP = sqrtm_psd(P @ P.T if sqrt else P)
         sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((4 * dim,)), jnp.eye(4 * dim))
     else:
         sample = m  # no sampling, only mean.
-- 
2.43.0


From 1aebc018f7011ff87ff57cc53e464143e8ad8964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:55 +0000
Subject: [PATCH 19/19] fix: hypoelliptic scheme returns NaN where the one-step
 covariance is singular

---
 .../hypoelliptic_diffusion__diag_15_scheme.py         | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bayesian_sde_solver/sde_solvers/hypoelliptic_diffusion__diag_15_scheme.py b/bayesian_sde_solver/sde_solvers/hypoelliptic_diffusion__diag_15_scheme.py
index d6e71ae..a77a3e3 100644
--- a/bayesian_sde_solver/sde_solvers/hypoelliptic_diffusion__diag_15_scheme.py
+++ b/bayesian_sde_solver/sde_solvers/hypoelliptic_diffusion__diag_15_scheme.py
@@ -1,6 +1,8 @@
 import jax
 import jax.numpy as jnp
 
+from bayesian_sde_solver.ode_solvers.probnum import cholesky_psd
+
 
 def solver(key, init, drift, sigma, h, N):
     """
@@ -40,9 +42,8 @@ def solver(key, init, drift, sigma, h, N):
     def body(x, key):
         key_k = key
         bm_key = jax.random.split(key_k, 1)
-        epsilon_k = jax.random.multivariate_normal(
-            bm_key,
-            jnp.zeros(dim),
+        # the covariance is singular when partialua or some of the noise vanishes at x
+        epsilon_k = cholesky_psd(
             jnp.block(
                 [
                     [
@@ -61,8 +62,8 @@ def solver(key, init, drift, sigma, h, N):
                         GammaGammaT(x) * h,
                     ],
                 ]
-            ),
-        )  # up to leading order...
+            )
+        ) @ jax.random.multivariate_normal(bm_key, jnp.zeros(dim), jnp.eye(dim))  # up to leading order...
         out = (
                 x
                 + h * drift(x)
-- 
2.43.0

