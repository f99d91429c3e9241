From 4c99e5096ea31afae7166a69d4891bb1507e50a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:11 +0000
Subject: [PATCH 01/36] fix: precision_sqrt satisfies prec = sqrt @ sqrt.T for
 correlated covariances

---
 mocat/src/scenarios/toy_examples.py | 2 +-
 mocat/src/ssm/nonlinear_gaussian.py | 6 +++---
 mocat/src/utils.py                  | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/mocat/src/scenarios/toy_examples.py b/mocat/src/scenarios/toy_examples.py
index 40242b6..4dce127 100644
--- a/mocat/src/scenarios/toy_examples.py
+++ b/mocat/src/scenarios/toy_examples.py
@@ -40,7 +40,7 @@ class Gaussian(Scenario):
     def likelihood_potential(self,
                              x: jnp.ndarray,
                              random_key: jnp.ndarray = None) -> Union[float, jnp.ndarray]:
-        x_diff = self.precision_mul(x - self.mean, self.precision_sqrt.T)
+        x_diff = self.precision_mul(x - self.mean, self.precision_sqrt)
         return 0.5 * jnp.square(x_diff).sum(axis=-1)
 
     def __setattr__(self,
diff --git a/mocat/src/ssm/nonlinear_gaussian.py b/mocat/src/ssm/nonlinear_gaussian.py
index c5f1f9d..69f7dbf 100644
--- a/mocat/src/ssm/nonlinear_gaussian.py
+++ b/mocat/src/ssm/nonlinear_gaussian.py
@@ -162,7 +162,7 @@ class OptimalNonLinearGaussianParticleFilter(ParticleFilter):
 
         self.initial_kalman_gain = kalman_gain(init_cov_sqrt, lik_mat, lik_cov_sqrt)
         lik_mat_t_lik_prec_sqrt = lik_mat.T @ lik_prec_sqrt
-        init_cond_prec = init_prec_sqrt @ init_prec_sqrt \
+        init_cond_prec = init_prec_sqrt @ init_prec_sqrt.T \
                          + lik_mat_t_lik_prec_sqrt @ lik_mat_t_lik_prec_sqrt.T
         self.initial_conditioned_precision_sqrt = jnp.linalg.cholesky(init_cond_prec)
         self.initial_conditioned_covariance_sqrt = jnp.linalg.inv(self.initial_conditioned_precision_sqrt)
@@ -177,7 +177,7 @@ class OptimalNonLinearGaussianParticleFilter(ParticleFilter):
                        - self.proposal_kalman_gain @ ssm_scenario.likelihood_matrix \
                        @ ssm_scenario.transition_covariance
         self.proposal_covariance_sqrt = jnp.linalg.cholesky(proposal_cov)
-        self.proposal_precision_sqrt = jnp.linalg.inv(self.proposal_covariance_sqrt)
+        self.proposal_precision_sqrt = jnp.linalg.inv(self.proposal_covariance_sqrt).T
         self.proposal_precision_det = 1 / jnp.linalg.det(proposal_cov)
 
         self.weight_precision_sqrt = jnp.linalg.cholesky(weight_precision)
@@ -304,7 +304,7 @@ class EnsembleKalmanFilter(ParticleFilter):
 
         self.initial_kalman_gain = kalman_gain(init_cov_sqrt, lik_mat, lik_cov_sqrt)
         lik_mat_t_lik_prec_sqrt = lik_mat.T @ lik_prec_sqrt
-        init_cond_prec = init_prec_sqrt @ init_prec_sqrt \
+        init_cond_prec = init_prec_sqrt @ init_prec_sqrt.T \
                          + lik_mat_t_lik_prec_sqrt @ lik_mat_t_lik_prec_sqrt.T
         initial_conditioned_precision_sqrt = jnp.linalg.cholesky(init_cond_prec)
         self.initial_conditioned_covariance_sqrt = jnp.linalg.inv(initial_conditioned_precision_sqrt)
diff --git a/mocat/src/utils.py b/mocat/src/utils.py
index 15aead8..16a0c88 100644
--- a/mocat/src/utils.py
+++ b/mocat/src/utils.py
@@ -257,7 +257,7 @@ def reset_covariance(obj: Any,
     else:
         sqrt_mat = jnp.linalg.cholesky(value)
         setattr(obj, key + '_sqrt', sqrt_mat)
-        setattr(obj, prec_key + '_sqrt', jnp.linalg.inv(sqrt_mat))
+        setattr(obj, prec_key + '_sqrt', jnp.linalg.inv(sqrt_mat).T)
         setattr(obj, prec_key + '_det', 1 / jnp.linalg.det(value))
         setattr(obj, prec_key + '_mul', lambda a, b: a @ b)
 
-- 
2.43.0


From cce5225273dd7acb5419d1dc2b7f2a564495afcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:11 +0000
Subject: [PATCH 02/36] fix: determinant of a diagonal precision is the product
 of its entries

---
 mocat/src/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/utils.py b/mocat/src/utils.py
index 16a0c88..a3282cd 100644
--- a/mocat/src/utils.py
+++ b/mocat/src/utils.py
@@ -252,7 +252,7 @@ def reset_covariance(obj: Any,
         sqrt_val = jnp.sqrt(value)
         setattr(obj, key + '_sqrt', sqrt_val)
         setattr(obj, prec_key + '_sqrt', 1 / sqrt_val)
-        setattr(obj, prec_key + '_det', 1 / value)
+        setattr(obj, prec_key + '_det', 1 / jnp.prod(value))
         setattr(obj, prec_key + '_mul', lambda a, b: a * b)
     else:
         sqrt_mat = jnp.linalg.cholesky(value)
-- 
2.43.0


From 6d2183bb843b3104d6a414f3229ae83be2da68ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:11 +0000
Subject: [PATCH 03/36] fix: NonLinearGaussian transition noise has the stated
 covariance

---
 mocat/src/ssm/nonlinear_gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/ssm/nonlinear_gaussian.py b/mocat/src/ssm/nonlinear_gaussian.py
index 69f7dbf..e9ff6d3 100644
--- a/mocat/src/ssm/nonlinear_gaussian.py
+++ b/mocat/src/ssm/nonlinear_gaussian.py
@@ -110,7 +110,7 @@ class NonLinearGaussian(StateSpaceModel):
                           t_new: float,
                           random_key: jnp.ndarray) -> jnp.ndarray:
         return self.transition_function(x_previous, t_previous, t_new) \
-               + random.normal(random_key, shape=x_previous.shape) @ self.transition_covariance_sqrt
+               + random.normal(random_key, shape=x_previous.shape) @ self.transition_covariance_sqrt.T
 
     def likelihood_potential(self,
                              x: jnp.ndarray,
-- 
2.43.0


From e8489e53e41e4ce065f7efb61dd6a3491b3180e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:11 +0000
Subject: [PATCH 04/36] fix: Kalman filter starts from the initial covariance,
 not its square root

---
 mocat/src/ssm/linear_gaussian/kalman.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mocat/src/ssm/linear_gaussian/kalman.py b/mocat/src/ssm/linear_gaussian/kalman.py
index 65676d5..f039a6b 100644
--- a/mocat/src/ssm/linear_gaussian/kalman.py
+++ b/mocat/src/ssm/linear_gaussian/kalman.py
@@ -17,7 +17,8 @@ def run_kalman_filter_for_marginals(lgssm_scenario: LinearGaussian,
                                     y: jnp.ndarray,
                                     t: jnp.ndarray) -> Tuple[jnp.ndarray, jnp.ndarray]:
     mu_0 = lgssm_scenario.get_initial_mean(t[0])
-    cov_0 = lgssm_scenario.get_initial_covariance_sqrt(t[0])
+    cov_sqrt_0 = lgssm_scenario.get_initial_covariance_sqrt(t[0])
+    cov_0 = cov_sqrt_0 @ cov_sqrt_0.T
 
     l_mat_0 = lgssm_scenario.get_likelihood_matrix(t[0])
     l_cov_sqrt_0 = lgssm_scenario.get_likelihood_covariance_sqrt(t[0])
-- 
2.43.0


From 9e799f32e7d58af531604067b3ffb1ea3f829c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:11 +0000
Subject: [PATCH 05/36] fix: Kalman smoother lag-one second moments use outer
 products and the predicted mean

---
 mocat/src/ssm/linear_gaussian/kalman.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mocat/src/ssm/linear_gaussian/kalman.py b/mocat/src/ssm/linear_gaussian/kalman.py
index f039a6b..f7eba57 100644
--- a/mocat/src/ssm/linear_gaussian/kalman.py
+++ b/mocat/src/ssm/linear_gaussian/kalman.py
@@ -82,7 +82,8 @@ def run_kalman_smoother_for_marginals_and_lag_ones(lgssm_scenario: LinearGaussia
         mu_t = f_mu_t + back_kal_gain @ (mu_tplus1 - t_mat @ f_mu_t)
         cov_t = f_cov_t + back_kal_gain @ (cov_tplus1 - t_mat @ f_cov_t @ t_mat.T - t_cov) @ back_kal_gain.T
 
-        e_xt_xtp1 = f_mu_t @ mu_tplus1.T + back_kal_gain @ (cov_tplus1 + (mu_tplus1 - f_mus[i + 1]) @ mu_tplus1.T)
+        e_xt_xtp1 = jnp.outer(f_mu_t, mu_tplus1) \
+                    + back_kal_gain @ (cov_tplus1 + jnp.outer(mu_tplus1 - t_mat @ f_mu_t, mu_tplus1))
 
         return (mu_t, cov_t), (mu_t, cov_t, e_xt_xtp1)
 
-- 
2.43.0


From 761edefbb3e936024ae0dbf8ce74a7bde1d68388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:11 +0000
Subject: [PATCH 06/36] fix: StateSpaceModel.likelihood_potential_and_grad
 differentiates the likelihood

---
 mocat/src/ssm/ssm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/ssm/ssm.py b/mocat/src/ssm/ssm.py
index 6891181..a41b81d 100644
--- a/mocat/src/ssm/ssm.py
+++ b/mocat/src/ssm/ssm.py
@@ -39,7 +39,7 @@ class StateSpaceModel:
 
         if not hasattr(self, 'grad_likelihood_potential'):
             self.grad_likelihood_potential = grad(self.likelihood_potential)
-            self.likelihood_potential_and_grad = value_and_grad(self.initial_potential)
+            self.likelihood_potential_and_grad = value_and_grad(self.likelihood_potential)
 
     def __repr__(self):
         return f"mocat.StateSpaceModel.{self.__class__.__name__}"
-- 
2.43.0


From 98a7993c0b32da068629c969cfbb82297d756000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:11 +0000
Subject: [PATCH 07/36] fix: smoothing_potential of two time points is the
 joint potential

---
 mocat/src/ssm/ssm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mocat/src/ssm/ssm.py b/mocat/src/ssm/ssm.py
index a41b81d..f651a68 100644
--- a/mocat/src/ssm/ssm.py
+++ b/mocat/src/ssm/ssm.py
@@ -100,9 +100,9 @@ class StateSpaceModel:
                    + self.likelihood_potential(x_all[0], y_all[0], t_all[0])
         elif len(t_all) == 2:
             trans_pot = self.transition_potential(x_all[0], t_all[0], x_all[1], t_all[1])
-            return jnp.vstack([self.initial_potential(x_all[0], t_all[0]) + trans_pot[0] \
-                              + self.likelihood_potential(x_all[0], y_all[0], t_all[0]),
-                              trans_pot[1] + self.likelihood_potential(x_all[1], y_all[1], t_all[1])])
+            return self.initial_potential(x_all[0], t_all[0]) + trans_pot \
+                   + self.likelihood_potential(x_all[0], y_all[0], t_all[0]) \
+                   + self.likelihood_potential(x_all[1], y_all[1], t_all[1])
         else:
             return self._smoothing_potential(x_all, y_all, t_all)
 
-- 
2.43.0


From b284b0c87c86a5a74b8fdf75512fb818098526c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:11 +0000
Subject: [PATCH 08/36] fix: StochasticVolatility transition potential scales
 precision down with the time step

---
 mocat/src/ssm/scenarios/stochastic_volatility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/ssm/scenarios/stochastic_volatility.py b/mocat/src/ssm/scenarios/stochastic_volatility.py
index bf5c69e..b97d144 100644
--- a/mocat/src/ssm/scenarios/stochastic_volatility.py
+++ b/mocat/src/ssm/scenarios/stochastic_volatility.py
@@ -82,7 +82,7 @@ class StochasticVolatility(StateSpaceModel):
                              t_new: float) -> Union[float, jnp.ndarray]:
         return gaussian_potential(x_new,
                                   x_previous @ self.transition_matrix.T,
-                                  sqrt_prec=self.transition_precision_sqrt * jnp.sqrt(t_new - t_previous))
+                                  sqrt_prec=self.transition_precision_sqrt / jnp.sqrt(t_new - t_previous))
 
     def transition_sample(self,
                           x_previous: jnp.ndarray,
-- 
2.43.0


From 2a35759d26120dce498622795708e90548e8365a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:11 +0000
Subject: [PATCH 09/36] fix: GaussianMixture component density for general
 covariances

---
 mocat/src/scenarios/toy_examples.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mocat/src/scenarios/toy_examples.py b/mocat/src/scenarios/toy_examples.py
index 4dce127..99e603a 100644
--- a/mocat/src/scenarios/toy_examples.py
+++ b/mocat/src/scenarios/toy_examples.py
@@ -97,9 +97,9 @@ class GaussianMixture(Scenario):
                             x: jnp.ndarray,
                             component_index: int) -> Union[float, jnp.ndarray]:
         return 0.5 * jnp.sum(jnp.square((x - self.means[component_index]) @
-                                      self.precision_sqrts[component_index].T), axis=-1) \
+                                      self.precision_sqrts[component_index]), axis=-1) \
                - jnp.log(self.weights[component_index]
-                        * self.precision_dets[component_index]
+                        * jnp.sqrt(self.precision_dets[component_index])
                         / jnp.power(2 * jnp.pi, self.dim * 0.5))
 
     def component_dens(self,
-- 
2.43.0


From 2354f0e971f12536d6cf04f2612d37fb95bc8f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:30 +0000
Subject: [PATCH 10/36] fix: IMQ and PreconditionedGaussian kernel derivatives

---
 mocat/src/kernels.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mocat/src/kernels.py b/mocat/src/kernels.py
index 5e962ea..305815f 100644
--- a/mocat/src/kernels.py
+++ b/mocat/src/kernels.py
@@ -156,7 +156,8 @@ class PreconditionedGaussian(Kernel):
                       y: jnp.ndarray,
                       bandwidth: float,
                       precision: jnp.ndarray) -> Union[float, jnp.ndarray]:
-        return precision / bandwidth ** 2 @ (1 - precision * ((x - y) / bandwidth) ** 2) \
+        prec_diff = precision @ (x - y) / bandwidth ** 2
+        return (jnp.diag(precision) / bandwidth ** 2 - prec_diff ** 2) \
                * self._call(x, y,
                             bandwidth=bandwidth,
                             precision=precision)
@@ -191,7 +192,8 @@ class IMQ(Kernel):
                 beta: Union[float, jnp.ndarray],
                 bandwidth: Union[float, jnp.ndarray]) -> Union[float, jnp.ndarray]:
         diff = (x - y) / bandwidth
-        return diff * beta * jnp.power(c + 0.5 * jnp.sum(jnp.square(diff), axis=-1), beta - 1)
+        return diff / bandwidth * beta \
+               * jnp.power(c + 0.5 * jnp.sum(jnp.square(diff), axis=-1), beta - 1)
 
     @partial(jit, static_argnums=(0,))
     def _grad_y(self,
@@ -213,7 +215,7 @@ class IMQ(Kernel):
                       bandwidth: Union[float, jnp.ndarray]) -> Union[float, jnp.ndarray]:
         diff = (x - y) / bandwidth
         base = c + 0.5 * jnp.sum(jnp.square(diff), axis=-1)
-        return (- beta * jnp.power(base, beta - 1) + beta * (beta - 1) * diff ** 2 * jnp.power(base, beta - 2)) \
+        return (- beta * jnp.power(base, beta - 1) - beta * (beta - 1) * diff ** 2 * jnp.power(base, beta - 2)) \
                / bandwidth ** 2
 
 
-- 
2.43.0


From a5762129c01889b95a362dcd66516ecea3642e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:30 +0000
Subject: [PATCH 11/36] fix: autocorrelation uses the whole chain when
 max_lag_eval is shorter

---
 mocat/src/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/metrics.py b/mocat/src/metrics.py
index a1f5582..c04ba26 100644
--- a/mocat/src/metrics.py
+++ b/mocat/src/metrics.py
@@ -37,7 +37,7 @@ def autocorrelation(sample: Union[jnp.ndarray, cdict],
                     max_lag_eval: int = 1000) -> jnp.ndarray:
     vals = extract_1d_vals(sample)
     max_lag_eval = min(max_lag_eval, len(vals))
-    n = _next_pow_two(max_lag_eval)
+    n = _next_pow_two(len(vals))
     f = jnp.fft.fft(vals - jnp.mean(vals), n=2 * n)
     acf = jnp.fft.ifft(f * jnp.conjugate(f))[:max_lag_eval].real
     return acf / acf[0]
-- 
2.43.0


From 4893a11b9559cf28af2df1969ad96375858bded9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:23 +0000
Subject: [PATCH 12/36] fix: run accepts a state of a previous chain and leaves
 the supplied state and extra untouched

---
 mocat/src/sample.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mocat/src/sample.py b/mocat/src/sample.py
index 9fdd73a..b3e5465 100644
--- a/mocat/src/sample.py
+++ b/mocat/src/sample.py
@@ -120,8 +120,17 @@ def run(scenario: Scenario,
 
     sampler.n = n
 
+    if initial_state is not None:
+        # Work on a copy without the run-level records so that a state of a previous chain can be supplied
+        initial_state = cdict(**{key: value for key, value in initial_state.__dict__.items()
+                                 if key not in ('time', 'summary')})
+
     if initial_extra is None:
         initial_extra = cdict()
+    else:
+        initial_extra = initial_extra.copy()
+        if hasattr(initial_extra, 'parameters'):
+            initial_extra.parameters = initial_extra.parameters.copy()
     if random_key is not None:
         initial_extra.random_key = random_key
 
-- 
2.43.0


From 30f961a3fce6d4b3bebb0d82bafd40d210bd2569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:23 +0000
Subject: [PATCH 13/36] fix: a chain's summary does not change when the sampler
 is modified later

---
 mocat/src/sample.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mocat/src/sample.py b/mocat/src/sample.py
index b3e5465..3d8f29e 100644
--- a/mocat/src/sample.py
+++ b/mocat/src/sample.py
@@ -152,6 +152,9 @@ def run(scenario: Scenario,
     end = time()
     chain.time = end - start
 
+    for key in ('parameters', 'tuning'):
+        if isinstance(getattr(summary, key, None), cdict):
+            setattr(summary, key, getattr(summary, key).copy())
     chain.summary = summary
 
     return chain
-- 
2.43.0


From f9b4c8f0dd158fdea0dafc462ab05bdade0b1410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:23 +0000
Subject: [PATCH 14/36] fix: Underdamped samplers follow a scenario that was
 modified after an earlier run

---
 mocat/src/mcmc/qn_underdamped.py | 5 +++--
 mocat/src/mcmc/standard_mcmc.py  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/mocat/src/mcmc/qn_underdamped.py b/mocat/src/mcmc/qn_underdamped.py
index 6f1e3e6..2694c7f 100644
--- a/mocat/src/mcmc/qn_underdamped.py
+++ b/mocat/src/mcmc/qn_underdamped.py
@@ -174,8 +174,9 @@ class QNUnderdamped(MCMCSampler):
         random_keys = random.split(reject_extra.random_key, self.parameters.leapfrog_steps + 1)
         reject_extra.random_key = random_keys[-1]
 
-        all_leapfrog = bfgs_leapfrog(scenario.prior_potential_and_grad,
-                                     scenario.likelihood_potential_and_grad,
+        # Fresh functions as bfgs_leapfrog is compiled per function, the scenario may have been modified since
+        all_leapfrog = bfgs_leapfrog(lambda x, rk: scenario.prior_potential_and_grad(x, rk),
+                                     lambda x, rk: scenario.likelihood_potential_and_grad(x, rk),
                                      proposed_state,
                                      reject_extra.parameters.stepsize,
                                      random_keys[:self.parameters.leapfrog_steps],
diff --git a/mocat/src/mcmc/standard_mcmc.py b/mocat/src/mcmc/standard_mcmc.py
index a69753f..d660113 100644
--- a/mocat/src/mcmc/standard_mcmc.py
+++ b/mocat/src/mcmc/standard_mcmc.py
@@ -130,8 +130,9 @@ class Underdamped(MCMCSampler):
 
         reject_extra.random_key = random_keys[0]
 
-        all_leapfrog_state = utils.leapfrog(scenario.prior_potential_and_grad,
-                                            scenario.likelihood_potential_and_grad,
+        # Fresh functions as leapfrog is compiled per function, the scenario may have been modified since
+        all_leapfrog_state = utils.leapfrog(lambda x, rk: scenario.prior_potential_and_grad(x, rk),
+                                            lambda x, rk: scenario.likelihood_potential_and_grad(x, rk),
                                             reject_state,
                                             reject_extra.parameters.stepsize,
                                             random_keys[1:],
-- 
2.43.0


From f77a320677afa445ac7984f252af834f3eebc64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:23 +0000
Subject: [PATCH 15/36] fix: resetting a potential of a Gaussian scenario also
 resets its gradients

---
 mocat/src/abc/scenarios/linear_gaussian.py | 2 +-
 mocat/src/scenarios/toy_examples.py        | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mocat/src/abc/scenarios/linear_gaussian.py b/mocat/src/abc/scenarios/linear_gaussian.py
index 0f29311..b37f2d4 100644
--- a/mocat/src/abc/scenarios/linear_gaussian.py
+++ b/mocat/src/abc/scenarios/linear_gaussian.py
@@ -61,7 +61,7 @@ class LinearGaussian(ABCScenario):
     def __setattr__(self,
                     key: str,
                     value: Any):
-        self.__dict__[key] = value
+        super().__setattr__(key, value)
         if key[-10:] == 'covariance':
             reset_covariance(self, key, value)
 
diff --git a/mocat/src/scenarios/toy_examples.py b/mocat/src/scenarios/toy_examples.py
index 99e603a..2ea7d4d 100644
--- a/mocat/src/scenarios/toy_examples.py
+++ b/mocat/src/scenarios/toy_examples.py
@@ -46,7 +46,7 @@ class Gaussian(Scenario):
     def __setattr__(self,
                     key: str,
                     value: Any):
-        self.__dict__[key] = value
+        super().__setattr__(key, value)
         if key[-10:] == 'covariance':
             reset_covariance(self, key, value)
 
@@ -71,7 +71,7 @@ class GaussianMixture(Scenario):
         super().__init__(**kwargs)
 
     def __setattr__(self, key, value):
-        self.__dict__[key] = value
+        super().__setattr__(key, value)
         if key == 'covariances':
             if value is None:
                 # Default: identity covariances
-- 
2.43.0


From 7b30dc892afa8ae635b24cdb0e1f0d9e129b69a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:23 +0000
Subject: [PATCH 16/36] fix: GaussianMixture follows its means, covariances and
 weights when they are reset

---
 mocat/src/scenarios/toy_examples.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mocat/src/scenarios/toy_examples.py b/mocat/src/scenarios/toy_examples.py
index 2ea7d4d..61fa163 100644
--- a/mocat/src/scenarios/toy_examples.py
+++ b/mocat/src/scenarios/toy_examples.py
@@ -5,6 +5,7 @@
 # Web: https://github.com/SamDuffield/mocat
 ########################################################################################################################
 
+from functools import partial
 from typing import Union, Any, Callable
 
 import jax.numpy as jnp
@@ -83,11 +84,12 @@ class GaussianMixture(Scenario):
             self.precision_sqrts = vmap(jnp.linalg.cholesky)(self.precisions)
             self.precision_dets = vmap(jnp.linalg.det)(self.precisions)
 
-            self.component_potential = jit(self.component_potential)
+        if key in ('means', 'covariances', 'weights') and hasattr(self, 'precision_dets'):
+            # Compile afresh, functions compiled earlier hold on to the previous parameters
+            self.component_potential = jit(partial(type(self).component_potential, self))
             self.component_potentials = jit(vmap(self.component_potential, (None, 0), 0))
-            self.component_dens = jit(self.component_dens)
-            self.dens = jit(self.dens)
-            self.component_potential = jit(self.component_potential)
+            self.component_dens = jit(partial(type(self).component_dens, self))
+            self.dens = jit(partial(type(self).dens, self))
 
     @property
     def n_components(self) -> int:
-- 
2.43.0


From 422f36e978e43454c182fba6863721ab6f72c8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:23 +0000
Subject: [PATCH 17/36] fix: default StochasticVolatility likelihood covariance
 diagonal is a vector

---
 mocat/src/ssm/scenarios/stochastic_volatility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/ssm/scenarios/stochastic_volatility.py b/mocat/src/ssm/scenarios/stochastic_volatility.py
index b97d144..e2d928c 100644
--- a/mocat/src/ssm/scenarios/stochastic_volatility.py
+++ b/mocat/src/ssm/scenarios/stochastic_volatility.py
@@ -49,7 +49,7 @@ class StochasticVolatility(StateSpaceModel):
         self.transition_covariance = transition_covariance
 
         if likelihood_covariance_diag is None:
-            likelihood_covariance_diag = jnp.eye(self.dim)
+            likelihood_covariance_diag = jnp.ones(self.dim)
         self.likelihood_covariance_diag = likelihood_covariance_diag
 
         super().__init__(name=name)
-- 
2.43.0


From 32dc5e9f70b648b7a6e191e49392770109a157c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:23 +0000
Subject: [PATCH 18/36] fix: propagate_particle_filter keeps multivariate
 observations as rows

---
 mocat/src/ssm/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/ssm/filtering.py b/mocat/src/ssm/filtering.py
index 8e2efe9..a22aa66 100644
--- a/mocat/src/ssm/filtering.py
+++ b/mocat/src/ssm/filtering.py
@@ -246,7 +246,7 @@ def propagate_particle_filter(ssm_scenario: StateSpaceModel,
 
     out_particles.value = jnp.append(out_particles.value, x_new[jnp.newaxis], axis=0)
     out_particles.log_weight = jnp.append(out_particles.log_weight, log_weight_new[jnp.newaxis], axis=0)
-    out_particles.y = jnp.append(out_particles.y, y_new[jnp.newaxis])
+    out_particles.y = jnp.append(out_particles.y, y_new[jnp.newaxis], axis=0)
     out_particles.t = jnp.append(out_particles.t, t_new)
     out_particles.ess = jnp.append(out_particles.ess, ess_log_weight(log_weight_new))
     return out_particles
-- 
2.43.0


From 889c2bbec89890d2d553de08807f548e70dda148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:23 +0000
Subject: [PATCH 19/36] fix: online particle filter smoothing does not resample
 particles that are already unweighted

---
 mocat/src/ssm/online_smoothing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mocat/src/ssm/online_smoothing.py b/mocat/src/ssm/online_smoothing.py
index 3269826..9a449d9 100644
--- a/mocat/src/ssm/online_smoothing.py
+++ b/mocat/src/ssm/online_smoothing.py
@@ -225,7 +225,8 @@ def propagate_particle_smoother_pf(ssm_scenario: StateSpaceModel,
     n = particles.value.shape[1]
 
     # Check particles are unweighted
-    out_particles = cond(ess_log_weight(jnp.atleast_2d(particles.log_weight)[-1]) < (n - 1e-3),
+    log_weight_previous = jnp.atleast_2d(particles.log_weight)[-1]
+    out_particles = cond(jnp.any(log_weight_previous != log_weight_previous[0]),
                          lambda p: resample_particles(p, random_key, True),
                          lambda p: p.copy(),
                          particles)
-- 
2.43.0


From 667fe964d1ab8670c3f5d043b1aafc31f8ff4715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:23 +0000
Subject: [PATCH 20/36] fix: adaptive tempering reaches max_temperature when it
 retains enough effective samples

---
 mocat/src/transport/smc.py  | 5 ++++-
 mocat/src/transport/teki.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/mocat/src/transport/smc.py b/mocat/src/transport/smc.py
index 625b814..a7501e9 100644
--- a/mocat/src/transport/smc.py
+++ b/mocat/src/transport/smc.py
@@ -323,7 +323,10 @@ class MetropolisedSMCSampler(TemperedSMCSampler):
                      temperature_bounds,
                      max_iter=self.parameters.max_bisection_iter,
                      tol=self.parameters.bisection_tol)
-        return bisect_out_bounds[jnp.argmin(jnp.abs(bisect_out_evals))]
+        # Go straight to max_temperature if it retains enough effective samples
+        return jnp.where(bisect_out_evals[1] > 0,
+                         temperature_bounds[1],
+                         bisect_out_bounds[jnp.argmin(jnp.abs(bisect_out_evals))])
 
     def clean_mcmc_chain(self,
                          chain_state: cdict,
diff --git a/mocat/src/transport/teki.py b/mocat/src/transport/teki.py
index a2240f0..9641c47 100644
--- a/mocat/src/transport/teki.py
+++ b/mocat/src/transport/teki.py
@@ -182,4 +182,7 @@ class AdaptiveTemperedEKI(TemperedEKI):
                      max_iter=self.parameters.max_bisection_iter,
                      tol=self.parameters.bisection_tol)
 
-        return bisect_out_bounds[jnp.argmin(jnp.abs(bisect_out_evals))]
+        # Go straight to max_temperature if it retains enough effective samples
+        return jnp.where(bisect_out_evals[1] > 0,
+                         temperature_bounds[1],
+                         bisect_out_bounds[jnp.argmin(jnp.abs(bisect_out_evals))])
-- 
2.43.0


From 07dbf951ea3466f99ba288db4a6e2884bea34dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:23 +0000
Subject: [PATCH 21/36] fix: TemperedEKI does not constrain ensembles with the
 scenario of an earlier run

---
 mocat/src/transport/teki.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mocat/src/transport/teki.py b/mocat/src/transport/teki.py
index 9641c47..c43d770 100644
--- a/mocat/src/transport/teki.py
+++ b/mocat/src/transport/teki.py
@@ -77,7 +77,8 @@ class TemperedEKI(TransportSampler):
         if not hasattr(scenario, 'data') or scenario.data is None:
             raise AttributeError(f'{self.name} requires scenario to have data attribute != None')
 
-        if self.ensemble_std is None:
+        if self.ensemble_std is None or getattr(self, '_default_ensemble_std', False):
+            self._default_ensemble_std = True
             ensemble_std = lambda vals: jnp.std(vals, axis=0, ddof=1)
             if hasattr(scenario, 'constrain'):
                 self.ensemble_std = lambda vals: ensemble_std(scenario.constrain(vals))
-- 
2.43.0


From 7d3ddd6de2f9b7c2159a740dce68a569fdf09651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:23 +0000
Subject: [PATCH 22/36] fix: SVGD without ensemble_batchsize uses the full
 ensemble in every run

---
 mocat/src/transport/svgd.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mocat/src/transport/svgd.py b/mocat/src/transport/svgd.py
index 18f41d7..00049fd 100644
--- a/mocat/src/transport/svgd.py
+++ b/mocat/src/transport/svgd.py
@@ -83,10 +83,9 @@ class SVGD(TransportSampler):
         initial_state, initial_extra = super().startup(scenario, n, initial_state, initial_extra, **kwargs)
 
         if self.parameters.ensemble_batchsize is None:
-            self.parameters.ensemble_batchsize = n
             initial_extra.parameters.ensemble_batchsize = n
 
-        if self.parameters.ensemble_batchsize == n:
+        if self.parameters.ensemble_batchsize is None or self.parameters.ensemble_batchsize == n:
             self.get_batch_inds = lambda _: jnp.repeat(jnp.arange(n)[None], n, axis=0)
         else:
             self.get_batch_inds = lambda rk: random.choice(rk, n, shape=(n, self.parameters.ensemble_batchsize,))
-- 
2.43.0


From d04c59173bbaf874180178ad87032440ffd5575d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:23 +0000
Subject: [PATCH 23/36] fix: ABCSMCSampler threshold_schedule can be set to
 None again

---
 mocat/src/abc/smc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mocat/src/abc/smc.py b/mocat/src/abc/smc.py
index 68d8feb..7e628bb 100644
--- a/mocat/src/abc/smc.py
+++ b/mocat/src/abc/smc.py
@@ -33,7 +33,8 @@ class ABCSMCSampler(ABCSampler, SMCSampler):
     def __setattr__(self, key, value):
         if key == 'threshold_schedule':
             if value is None:
-                if hasattr(self, 'threshold_schedule') and self.max_iter == len(self.threshold_schedule):
+                if hasattr(self, 'threshold_schedule') and self.threshold_schedule is not None \
+                        and self.max_iter == len(self.threshold_schedule):
                     self.max_iter = int(1e4)
                 self.next_threshold = self.next_threshold_adaptive
             else:
-- 
2.43.0


From 721f27a89d701c4c7170401d8fa0084d1b05efc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:23 +0000
Subject: [PATCH 24/36] fix: Lotka-Volterra simulation from a non-zero start
 time

---
 mocat/src/abc/scenarios/lotka_volterra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/abc/scenarios/lotka_volterra.py b/mocat/src/abc/scenarios/lotka_volterra.py
index 1c66730..6e4ef13 100644
--- a/mocat/src/abc/scenarios/lotka_volterra.py
+++ b/mocat/src/abc/scenarios/lotka_volterra.py
@@ -46,7 +46,7 @@ def lotka_volterra_simulate(initial_prey_pred: jnp.ndarray,
                                                                         (params, random_key)),
                                                                        max_iter)
 
-    simulated_times = jnp.where(simulated_times == 0, jnp.inf, simulated_times)
+    simulated_times = jnp.where(simulated_times == times[0], jnp.inf, simulated_times)
     return simulated_pred_prey[jnp.searchsorted(simulated_times, times[1:]) - 1]
 
 
-- 
2.43.0


From ab31af76c316409ca5da7411f029b76f2409beb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:23 +0000
Subject: [PATCH 25/36] fix: saving a cdict only replaces an existing file once
 the new one is complete

---
 mocat/src/core.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/mocat/src/core.py b/mocat/src/core.py
index fd327a6..29e8ee5 100644
--- a/mocat/src/core.py
+++ b/mocat/src/core.py
@@ -95,13 +95,16 @@ def save_cdict(in_cdict: cdict,
     if path.suffix != '.cdict':
         path = path.with_suffix('.cdict')
     path.parent.mkdir(parents=True, exist_ok=True)
-    if path.exists():
-        if overwrite:
-            path.unlink()
-        else:
-            raise RuntimeError(f'File {path} already exists.')
-    with open(path, 'wb') as file:
-        pickle.dump(in_cdict, file)
+    if path.exists() and not overwrite:
+        raise RuntimeError(f'File {path} already exists.')
+    # Only replace an existing file once the new one is complete
+    temp_path = path.with_name(path.name + '.tmp')
+    try:
+        with open(temp_path, 'wb') as file:
+            pickle.dump(in_cdict, file)
+        temp_path.replace(path)
+    finally:
+        temp_path.unlink(missing_ok=True)
 
 
 def load_cdict(path: Union[str, Path]) -> cdict:
-- 
2.43.0


From 6bfab52bd7407276a40f96294497acd9c758cd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:47 +0000
Subject: [PATCH 26/36] fix: importance ABC draws its first sample from the
 importance proposal

---
 mocat/src/abc/importance.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/mocat/src/abc/importance.py b/mocat/src/abc/importance.py
index 5099c21..90ba9ad 100644
--- a/mocat/src/abc/importance.py
+++ b/mocat/src/abc/importance.py
@@ -10,7 +10,7 @@ from typing import Tuple
 
 from jax import numpy as jnp, random
 from mocat.src.abc.abc import ABCScenario, ABCSampler
-from mocat.src.core import cdict, is_implemented
+from mocat.src.core import cdict
 
 
 class ImportanceABC(ABCSampler):
@@ -41,12 +41,8 @@ class ImportanceABC(ABCSampler):
                 initial_extra: cdict = None,
                 **kwargs) -> Tuple[cdict, cdict]:
         if initial_state is None:
-            if is_implemented(abc_scenario.prior_sample):
-                initial_extra.random_key, sub_key = random.split(initial_extra.random_key)
-                init_vals = abc_scenario.prior_sample(sub_key)
-            else:
-                init_vals = jnp.zeros(abc_scenario.dim)
-            initial_state = cdict(value=init_vals)
+            initial_extra.random_key, sub_key = random.split(initial_extra.random_key)
+            initial_state = cdict(value=self.importance_proposal(abc_scenario, sub_key))
 
         self.max_iter = n - 1
 
-- 
2.43.0


From c6c7c34ca8f46e7ada2119b1d1e88871eb14b206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:30 +0000
Subject: [PATCH 27/36] fix: backward-simulation smoother draws weighted
 initial particles by weight

---
 mocat/src/ssm/online_smoothing.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mocat/src/ssm/online_smoothing.py b/mocat/src/ssm/online_smoothing.py
index 9a449d9..a10056d 100644
--- a/mocat/src/ssm/online_smoothing.py
+++ b/mocat/src/ssm/online_smoothing.py
@@ -310,6 +310,13 @@ def propagate_particle_smoother_bs(ssm_scenario: StateSpaceModel,
 
     out_particles = particles
 
+    # Check particles are unweighted
+    log_weight_previous = jnp.atleast_2d(particles.log_weight)[-1]
+    out_particles.value = cond(jnp.any(log_weight_previous != log_weight_previous[0]),
+                               lambda v: v[:, random.categorical(split_keys[0], log_weight_previous, shape=(n,))],
+                               lambda v: v,
+                               particles.value)
+
     # Propagate marginal filter particles
     out_particles.marginal_filter = propagate_particle_filter(ssm_scenario, particle_filter, particles.marginal_filter,
                                                               y_new, t_new, split_keys[1], ess_threshold, False)
-- 
2.43.0


From 6476597d8e95387927d63b01fdbe5a3d4c072add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:42 +0000
Subject: [PATCH 28/36] fix: Lotka-Volterra states requested before the first
 event when the iteration limit is reached

---
 mocat/src/abc/scenarios/lotka_volterra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mocat/src/abc/scenarios/lotka_volterra.py b/mocat/src/abc/scenarios/lotka_volterra.py
index 6e4ef13..4f2660c 100644
--- a/mocat/src/abc/scenarios/lotka_volterra.py
+++ b/mocat/src/abc/scenarios/lotka_volterra.py
@@ -47,7 +47,8 @@ def lotka_volterra_simulate(initial_prey_pred: jnp.ndarray,
                                                                        max_iter)
 
     simulated_times = jnp.where(simulated_times == times[0], jnp.inf, simulated_times)
-    return simulated_pred_prey[jnp.searchsorted(simulated_times, times[1:]) - 1]
+    simulated_pred_prey = jnp.concatenate([jnp.asarray(initial_prey_pred)[jnp.newaxis], simulated_pred_prey])
+    return simulated_pred_prey[jnp.searchsorted(simulated_times, times[1:])]
 
 
 class LotkaVolterra(ABCScenario):
-- 
2.43.0


From aeb3b302e75de2c0dcfe97d621532c54fac89076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:31 +0000
Subject: [PATCH 29/36] fix: default temperatures of ensemble Kalman inversion
 do not exceed the maximum

---
 mocat/src/transport/teki.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mocat/src/transport/teki.py b/mocat/src/transport/teki.py
index c43d770..da4c8e9 100644
--- a/mocat/src/transport/teki.py
+++ b/mocat/src/transport/teki.py
@@ -90,7 +90,8 @@ class TemperedEKI(TransportSampler):
             # self.next_temperature = lambda state, extra: (1 + gamm) ** extra.iter - 1
 
             gamm = 2 ** (1 / 50)
-            self.next_temperature = lambda state, extra: jnp.round(gamm ** extra.iter - 1, 4)
+            self.next_temperature = lambda state, extra: jnp.minimum(jnp.round(gamm ** extra.iter - 1, 4),
+                                                                     self.max_temperature)
 
         if not hasattr(initial_state, 'simulated_data'):
             random_keys = random.split(initial_extra.random_key, 2 * n)
-- 
2.43.0


From 7e6c4017aa0abac4cf4676782903946507ea259c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:14 +0000
Subject: [PATCH 30/36] fix: determinant of quasi-Newton factors with a scalar
 initial diagonal

---
 mocat/src/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mocat/src/utils.py b/mocat/src/utils.py
index a3282cd..05e6127 100644
--- a/mocat/src/utils.py
+++ b/mocat/src/utils.py
@@ -412,7 +412,7 @@ def bfgs_sqrt_transpose_prod(ps: jnp.ndarray,
 def _bfgs_sqrt_det(ps: jnp.ndarray,
                    qs: jnp.ndarray,
                    init_diag: jnp.ndarray) -> jnp.ndarray:
-    return jnp.prod(init_diag) * (1 - vmap(jnp.dot)(ps, qs)).prod()
+    return jnp.prod(init_diag * jnp.ones(ps.shape[-1])) * (1 - vmap(jnp.dot)(ps, qs)).prod()
 
 
 def bfgs_sqrt_det(ps: jnp.ndarray,
@@ -425,7 +425,7 @@ def bfgs_sqrt_det(ps: jnp.ndarray,
 def _bfgs_sqrt_log_abs_det(ps: jnp.ndarray,
                    qs: jnp.ndarray,
                    init_diag: jnp.ndarray) -> jnp.ndarray:
-    return jnp.log(jnp.abs(init_diag)).sum() + jnp.log(jnp.abs(1 - vmap(jnp.dot)(ps, qs))).sum()
+    return jnp.log(jnp.abs(init_diag * jnp.ones(ps.shape[-1]))).sum() + jnp.log(jnp.abs(1 - vmap(jnp.dot)(ps, qs))).sum()
 
 
 def bfgs_sqrt_log_abs_det(ps: jnp.ndarray,
-- 
2.43.0


From 88a36b2e7cee046157141a9925e75b049f977b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:38 +0000
Subject: [PATCH 31/36] fix: quasi-Newton regularisation ignores differences
 that are not used (memory not yet filled)

---
 mocat/src/utils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mocat/src/utils.py b/mocat/src/utils.py
index 05e6127..73b22a6 100644
--- a/mocat/src/utils.py
+++ b/mocat/src/utils.py
@@ -326,16 +326,17 @@ def _bfgs_sqrt_pqut(vals: jnp.ndarray,
 
     sit_Binit_si_all = jnp.square(s * init_hessian_sqrt_diag).sum(-1)
     sty = (s * y).sum(-1)
-    rats = jnp.where(sit_Binit_si_all < 1e-10, -jnp.inf, -sty/sit_Binit_si_all)
+    m, d = s.shape
+
+    update_bools = jnp.ones(m) * update_bools
+
+    # Only differences that are used are made positive definite
+    rats = jnp.where(jnp.logical_or(sit_Binit_si_all < 1e-10, update_bools == 0), -jnp.inf, -sty/sit_Binit_si_all)
     lambd = jnp.maximum(0., rats.max() + r)
     lambd = lambd * init_hessian_sqrt_diag ** 2
 
     y = y + lambd * s
 
-    m, d = s.shape
-
-    update_bools = jnp.ones(m) * update_bools
-
     def body_fun(val, i):
         us, ts = val
         sit_yi = jnp.dot(s[i], y[i])
-- 
2.43.0


From 9b3972c9d14cf3689135d4a34f0257913db33648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:53 +0000
Subject: [PATCH 32/36] fix: TemperedEKI temperatures after the schedule is
 removed

---
 mocat/src/transport/teki.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/mocat/src/transport/teki.py b/mocat/src/transport/teki.py
index da4c8e9..b610580 100644
--- a/mocat/src/transport/teki.py
+++ b/mocat/src/transport/teki.py
@@ -59,12 +59,24 @@ class TemperedEKI(TransportSampler):
         self.prior_stds = None
 
     def __setattr__(self, key, value):
+        previous_schedule = getattr(self, 'temperature_schedule', None)
         super().__setattr__(key, value)
         if key == 'temperature_schedule':
+            if value is None and previous_schedule is not None:
+                # Back to temperatures that do not follow the removed schedule
+                if self.__dict__.get('next_temperature') == self.next_temperature_scheduled:
+                    del self.next_temperature
+                if self.max_iter == len(previous_schedule):
+                    self.max_iter = int(1e4)
             if value is not None:
                 self.max_temperature = value[-1]
                 self.max_iter = len(value)
-                self.next_temperature = lambda state, extra: self.temperature_schedule[extra.iter]
+                self.next_temperature = self.next_temperature_scheduled
+
+    def next_temperature_scheduled(self,
+                                   ensemble_state: cdict,
+                                   extra: cdict) -> float:
+        return self.temperature_schedule[extra.iter]
 
     def startup(self,
                 scenario: Scenario,
-- 
2.43.0


From 17f4d6126511969359e5027ee5c649256e257181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:53 +0000
Subject: [PATCH 33/36] fix: SVGD adapts its own copy of the kernel parameters

---
 mocat/src/transport/svgd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mocat/src/transport/svgd.py b/mocat/src/transport/svgd.py
index 00049fd..614d1d7 100644
--- a/mocat/src/transport/svgd.py
+++ b/mocat/src/transport/svgd.py
@@ -92,6 +92,9 @@ class SVGD(TransportSampler):
 
         del initial_extra.parameters.stepsize
 
+        # Adapted during the run, those of the kernel and the sampler stay as they are
+        initial_extra.parameters.kernel_params = initial_extra.parameters.kernel_params.copy()
+
         random_keys = random.split(initial_extra.random_key, n + 1)
         initial_extra.random_key = random_keys[-1]
 
-- 
2.43.0


From ace04796ba26bfb0d54c98fdb7ef58f3de4fb303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:22 +0000
Subject: [PATCH 34/36] fix: bisect accepts lists and integer bounds

---
 mocat/src/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mocat/src/utils.py b/mocat/src/utils.py
index 73b22a6..18487cd 100644
--- a/mocat/src/utils.py
+++ b/mocat/src/utils.py
@@ -207,6 +207,7 @@ def bisect(fun: Callable,
            bounds: Union[list, jnp.ndarray],
            max_iter: int = 1000,
            tol: float = 1e-5) -> Tuple[jnp.ndarray, jnp.ndarray, int]:
+    bounds = jnp.asarray(bounds, dtype=float)
     evals = jnp.array([fun(bounds[0]), fun(bounds[1])])
     increasing_bool = evals[1] > evals[0]
 
-- 
2.43.0


From b1ae44b0f75b03db598da983e68f2b102e42fa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:22 +0000
Subject: [PATCH 35/36] fix: autocorrelation_plot drew every bar one lag too
 far

---
 mocat/src/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/metrics.py b/mocat/src/metrics.py
index c04ba26..7a97e34 100644
--- a/mocat/src/metrics.py
+++ b/mocat/src/metrics.py
@@ -153,7 +153,7 @@ def autocorrelation_plot(sample: Union[jnp.ndarray, cdict],
     vals = extract_1d_vals(sample)
 
     autocor = autocorrelation(vals, max_lag_eval)
-    ax.bar(range(1, 1 + len(autocor)), autocor, **kwargs)
+    ax.bar(range(len(autocor)), autocor, **kwargs)
     ax.set_xlim(0, max_lag_plot)
 
 
-- 
2.43.0


From 3c98c54250e6ad270880f16992c810e9af1f3633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:22 +0000
Subject: [PATCH 36/36] fix: trace_plot dropped values when more than the
 chain's length were requested

---
 mocat/src/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/metrics.py b/mocat/src/metrics.py
index 7a97e34..871cc74 100644
--- a/mocat/src/metrics.py
+++ b/mocat/src/metrics.py
@@ -167,7 +167,7 @@ def trace_plot(sample: Union[jnp.ndarray, cdict],
     if last_n is None:
         start = 0
     else:
-        start = vals.shape[0] - last_n
+        start = max(0, vals.shape[0] - last_n)
     ax.plot(vals[start:], **kwargs)
 
 
-- 
2.43.0

