From 471eb01f8262bebcde423d95a011650cfd8fdf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 01/25] fix: vectorize no longer uses np.int, which numpy has
 removed

---
 pysgmcmc/tensor_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/tensor_utils.py b/pysgmcmc/tensor_utils.py
index b33e6f5..b52d16f 100644
--- a/pysgmcmc/tensor_utils.py
+++ b/pysgmcmc/tensor_utils.py
@@ -86,7 +86,7 @@ def vectorize(tensor):
 
     def vectorized_shape(tensor):
         # Compute vectorized shape
-        n_elements = np.prod(np.asarray(tensor.shape, dtype=np.int))
+        n_elements = np.prod(np.asarray(tensor.shape, dtype=int))
         return (n_elements, 1)
 
     if isinstance(tensor, tf.Variable):
-- 
2.43.0


From 7b730f51e97d8067f66888fd22f33a61721325bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 02/25] fix: SGLDSampler passes its stepsize schedule on to the
 base class

---
 pysgmcmc/samplers/sgld.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysgmcmc/samplers/sgld.py b/pysgmcmc/samplers/sgld.py
index 486488e..d3536ec 100644
--- a/pysgmcmc/samplers/sgld.py
+++ b/pysgmcmc/samplers/sgld.py
@@ -95,6 +95,7 @@ class SGLDSampler(BurnInMCMCSampler):
 
         super().__init__(
             params=params, cost_fun=cost_fun, batch_generator=batch_generator,
+            stepsize_schedule=stepsize_schedule,
             burn_in_steps=burn_in_steps, seed=seed,
             session=session, dtype=dtype
         )
-- 
2.43.0


From eed23e60865c9d7d8a4dcd93132ba6932c963fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 03/25] fix: generate_shuffled_batches does not shuffle the
 caller's dataset

---
 pysgmcmc/data_batches.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysgmcmc/data_batches.py b/pysgmcmc/data_batches.py
index 9b44c09..8765e96 100644
--- a/pysgmcmc/data_batches.py
+++ b/pysgmcmc/data_batches.py
@@ -200,6 +200,9 @@ def generate_shuffled_batches(x, y, x_placeholder, y_placeholder,
     rng_y.seed(seed)
 
     for batch in generate_batches(x, y, x_placeholder, y_placeholder, batch_size, seed):
+        # batches may be views of the dataset: shuffle copies of them
+        batch = {key: value.copy() for key, value in batch.items()}
+
         # shuffles x and y in the same way
         rng_x.shuffle(batch[x_placeholder])
         rng_y.shuffle(batch[y_placeholder])
-- 
2.43.0


From 83d841e721ac233cdce310496e8ef86f0383e534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 04/25] fix: burn-in samplers keep feeds of the caller after
 burn-in

---
 pysgmcmc/samplers/base_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index 3367499..45fad79 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -451,6 +451,6 @@ class BurnInMCMCSampler(MCMCSampler):
             assert hasattr(self, "minv")
 
             # feed tuned inverse of mass matrix (minv) during sampling
-            feed_dict = dict(zip(self.minv_t, self.minv))
+            feed_dict.update(zip(self.minv_t, self.minv))
 
         return super().__next__(feed_dict=feed_dict)
-- 
2.43.0


From 3dd727c9e1fa591096bb868f58d058f3f4750451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 05/25] fix: samples of a single parameter have the same
 structure in every phase

---
 pysgmcmc/diagnostics/sample_chains.py      | 4 ++++
 pysgmcmc/models/bayesian_neural_network.py | 4 ++++
 pysgmcmc/samplers/base_classes.py          | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/pysgmcmc/diagnostics/sample_chains.py b/pysgmcmc/diagnostics/sample_chains.py
index 9dcfba6..38edb85 100644
--- a/pysgmcmc/diagnostics/sample_chains.py
+++ b/pysgmcmc/diagnostics/sample_chains.py
@@ -168,6 +168,10 @@ class PYSGMCMCTrace(object):
             sample for sample, _ in islice(sampler, n_samples)
         ]
 
+        if len(sampler.params) == 1:
+            # samplers unravel samples of a single parameter, traces do not
+            samples = [[sample] for sample in samples]
+
         # ensure all sampler target parameters have a name
         # => tensorflow names variables automatically, so this assumption
         # is fair
diff --git a/pysgmcmc/models/bayesian_neural_network.py b/pysgmcmc/models/bayesian_neural_network.py
index c281f57..ca85381 100644
--- a/pysgmcmc/models/bayesian_neural_network.py
+++ b/pysgmcmc/models/bayesian_neural_network.py
@@ -523,6 +523,10 @@ class BayesianNeuralNetwork(object):
                     iteration_index=iteration_index, is_sampling=True
                 )
 
+                if len(self.network_params) == 1:
+                    # samplers unravel samples of a single parameter
+                    parameter_values = [parameter_values]
+
                 # collect sample
                 self.samples.append(parameter_values)
 
diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index 45fad79..40ff9ba 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -440,6 +440,10 @@ class BurnInMCMCSampler(MCMCSampler):
                 feed_dict=feed_dict
             )
 
+            if len(params) == 1:
+                # unravel single-element lists as in `MCMCSampler.__next__`
+                params = params[0]
+
             self.stepsize_schedule.update(params, cost)
 
             self.n_iterations += 1
-- 
2.43.0


From a3e398e107b6219f45ce34da7ea795020c59a18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 06/25] fix: PYSGMCMCTrace.from_sampler keeps every
 keep_every-th sample only

---
 pysgmcmc/diagnostics/sample_chains.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysgmcmc/diagnostics/sample_chains.py b/pysgmcmc/diagnostics/sample_chains.py
index 38edb85..e18e331 100644
--- a/pysgmcmc/diagnostics/sample_chains.py
+++ b/pysgmcmc/diagnostics/sample_chains.py
@@ -165,7 +165,9 @@ class PYSGMCMCTrace(object):
         """
         from itertools import islice
         samples = [
-            sample for sample, _ in islice(sampler, n_samples)
+            sample for sample, _ in islice(
+                sampler, 0, n_samples * keep_every, keep_every
+            )
         ]
 
         if len(sampler.params) == 1:
-- 
2.43.0


From f65b8a1c803eaa6f0f4d83acc0c38f1c0f9bcc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 07/25] fix: pymc3_multitrace does not reset samplers that are
 already burnt in

---
 pysgmcmc/diagnostics/sample_chains.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pysgmcmc/diagnostics/sample_chains.py b/pysgmcmc/diagnostics/sample_chains.py
index e18e331..eca35cf 100644
--- a/pysgmcmc/diagnostics/sample_chains.py
+++ b/pysgmcmc/diagnostics/sample_chains.py
@@ -10,6 +10,8 @@ import numpy as np
 import pymc3
 import logging
 
+from pysgmcmc.tensor_utils import uninitialized_params
+
 
 class PYSGMCMCTrace(object):
     """
@@ -376,7 +378,10 @@ def pymc3_multitrace(get_sampler, n_chains=2, samples_per_chain=100,
         graph = tf.Graph()
         with tf.Session(graph=graph) as session:
             sampler = get_sampler(session=session)
-            session.run(tf.global_variables_initializer())
+            # do not reset what `get_sampler` has already initialized/burnt in
+            session.run(tf.variables_initializer(uninitialized_params(
+                params=tf.global_variables(), session=session
+            )))
             trace = PYSGMCMCTrace.from_sampler(
                 chain_id=chain_id,
                 sampler=sampler,
-- 
2.43.0


From 2bc3d4c86a569b241ec6a2d37ea45555756146e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 08/25] fix: slicing a trace projects all its samples onto the
 sliced variables

---
 pysgmcmc/diagnostics/sample_chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/diagnostics/sample_chains.py b/pysgmcmc/diagnostics/sample_chains.py
index eca35cf..acfa134 100644
--- a/pysgmcmc/diagnostics/sample_chains.py
+++ b/pysgmcmc/diagnostics/sample_chains.py
@@ -240,7 +240,7 @@ class PYSGMCMCTrace(object):
         # XXX: Set chain_id to something unique, instead of self.chain
         return PYSGMCMCTrace(
             chain_id=self.chain,
-            samples=self.samples[slice_],
+            samples=[sample[slice_] for sample in self.samples],
             varnames=self.varnames[slice_]
         )
 
-- 
2.43.0


From 8b5b586b957978839d3156b8ef8e438ff079696a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 09/25] fix: import logsumexp from scipy.special, scipy.misc
 has no such name any more

---
 pysgmcmc/diagnostics/objective_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/diagnostics/objective_functions.py b/pysgmcmc/diagnostics/objective_functions.py
index 742b3c3..d5e937b 100644
--- a/pysgmcmc/diagnostics/objective_functions.py
+++ b/pysgmcmc/diagnostics/objective_functions.py
@@ -1,4 +1,4 @@
-from scipy.misc import logsumexp
+from scipy.special import logsumexp
 import tensorflow as tf
 import numpy as np
 import functools
-- 
2.43.0


From 4960717321a7f16600febf9ef7505c033989f0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 10/25] fix: gaussian mixture log likelihoods support variables
 of any float type

---
 pysgmcmc/diagnostics/objective_functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysgmcmc/diagnostics/objective_functions.py b/pysgmcmc/diagnostics/objective_functions.py
index d5e937b..8cec4a9 100644
--- a/pysgmcmc/diagnostics/objective_functions.py
+++ b/pysgmcmc/diagnostics/objective_functions.py
@@ -69,11 +69,12 @@ def gaussian_mixture_model_log_likelihood(x, mu=(-5, 0, 5), var=(1., 1., 1.),
 
     if isinstance(x, tf.Variable):
         def normldf_tf(x, mu, var):
-            pi = tf.constant(np.pi)
+            var = tf.constant(var, dtype=x.dtype.base_dtype)
+            pi = tf.constant(np.pi, dtype=x.dtype.base_dtype)
             return -0.5 * tf.log(2.0 * pi * var) - 0.5 * ((x - mu) ** 2) / var
 
         return tf.reduce_logsumexp(
-            [tf.log(weights[i]) + normldf_tf(x, mu[i], var[i]) for i in range(len(mu))]
+            [tf.log(tf.constant(weights[i], dtype=x.dtype.base_dtype)) + normldf_tf(x, mu[i], var[i]) for i in range(len(mu))]
         )
     else:
         def normldf(x, mu, var):
-- 
2.43.0


From 07e1fa12c6fd3822d1c0c574219c7c120cde8db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 11/25] fix: average the network's log likelihood over the
 datapoints actually in the batch

---
 pysgmcmc/models/bayesian_neural_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysgmcmc/models/bayesian_neural_network.py b/pysgmcmc/models/bayesian_neural_network.py
index ca85381..a8a3fc5 100644
--- a/pysgmcmc/models/bayesian_neural_network.py
+++ b/pysgmcmc/models/bayesian_neural_network.py
@@ -373,8 +373,8 @@ class BayesianNeuralNetwork(object):
             tf.reduce_sum(-mse * (0.5 * f_var_inv) - 0.5 * f_log_var, axis=1)
         )
 
-        # scale by batch size to make this work nicely with the updaters above
-        log_like = log_like / tf.constant(self.batch_size, dtype=self.dtype)
+        # scale by (actual) batch size to make this work nicely with the updaters above
+        log_like = log_like / tf.cast(tf.shape(X)[0], dtype=self.dtype)
 
         # scale the priors by the dataset size for the same reason
         n_examples = tf.constant(self.X.shape[0], self.dtype, name="n_examples")
-- 
2.43.0


From 47612fe544e8e43076f12d55468841facc4e6404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 12/25] fix: SVGD's kernel gradient repels particles instead of
 attracting them

---
 pysgmcmc/samplers/svgd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/samplers/svgd.py b/pysgmcmc/samplers/svgd.py
index 536da39..458fe7d 100644
--- a/pysgmcmc/samplers/svgd.py
+++ b/pysgmcmc/samplers/svgd.py
@@ -123,7 +123,7 @@ class SVGDSampler(MCMCSampler):
         kernel_matrix, kernel_gradients = self.svgd_kernel(self.particles)
 
         grad_theta = tf.divide(
-            tf.matmul(kernel_matrix, lnpgrad) + kernel_gradients,
+            tf.matmul(kernel_matrix, lnpgrad) - kernel_gradients,
             self.n_particles
         )
 
-- 
2.43.0


From 1f958a5ce79ce95e2db925ba2c3fd08d86d5e00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 13/25] fix: SVGD works with one-dimensional particles

---
 pysgmcmc/samplers/svgd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/samplers/svgd.py b/pysgmcmc/samplers/svgd.py
index 458fe7d..e34d23b 100644
--- a/pysgmcmc/samplers/svgd.py
+++ b/pysgmcmc/samplers/svgd.py
@@ -118,7 +118,7 @@ class SVGDSampler(MCMCSampler):
             tf.variables_initializer([historical_grad, self.epsilon])
         )
 
-        lnpgrad = tf.squeeze(tf.gradients(self.cost, self.particles))
+        lnpgrad = tf.gradients(self.cost, self.particles)[0]
 
         kernel_matrix, kernel_gradients = self.svgd_kernel(self.particles)
 
-- 
2.43.0


From b51f73307c265806c87ac973d9b0c08d1afc78d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 14/25] fix: SVGD accepts cost callables without a name

---
 pysgmcmc/samplers/svgd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysgmcmc/samplers/svgd.py b/pysgmcmc/samplers/svgd.py
index e34d23b..144712a 100644
--- a/pysgmcmc/samplers/svgd.py
+++ b/pysgmcmc/samplers/svgd.py
@@ -87,7 +87,9 @@ class SVGDSampler(MCMCSampler):
         def cost_fun_wrapper(params):
             return tf.map_fn(lambda particle: cost_fun(particle), self.particles)
 
-        cost_fun_wrapper.__name__ = cost_fun.__name__
+        cost_fun_wrapper.__name__ = getattr(
+            cost_fun, "__name__", cost_fun_wrapper.__name__
+        )
 
         super().__init__(
             params=particles,
-- 
2.43.0


From 02f072890240f3d556564a484a2fda818e56e581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 15/25] fix: samplers default to the session that is active on
 construction

---
 pysgmcmc/samplers/base_classes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index 40ff9ba..0a4dc68 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -69,6 +69,10 @@ class MCMCSampler(object):
             Inherits from `sampling.MCMCSampler`.
 
         """
+        if session is None:
+            # default arguments are evaluated on import: look up the active session now
+            session = tf.get_default_session()
+
         # Sanitize inputs
         assert batch_generator is None or hasattr(batch_generator, "__next__")
         assert seed is None or isinstance(seed, int)
-- 
2.43.0


From d0491fc0d25892bf7bcd15584fe62fb318a2e610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 16/25] fix: without burn-in steps, samplers do not adapt their
 mass matrix

---
 pysgmcmc/samplers/base_classes.py | 12 +++++++-----
 pysgmcmc/samplers/sghmc.py        |  1 +
 pysgmcmc/samplers/sgld.py         |  1 +
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index 0a4dc68..e73908c 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -454,11 +454,13 @@ class BurnInMCMCSampler(MCMCSampler):
             return params, cost
 
         # "standard" MCMC sampling
-        if self.burn_in_steps > 0:
-            assert hasattr(self, "minv_t")
-            assert hasattr(self, "minv")
+        assert hasattr(self, "minv_t")
 
-            # feed tuned inverse of mass matrix (minv) during sampling
-            feed_dict.update(zip(self.minv_t, self.minv))
+        if not hasattr(self, "minv"):
+            # no burn-in steps: keep the initial inverse of the mass matrix
+            self.minv = self.session.run(self.initial_minv)
+
+        # feed tuned inverse of mass matrix (minv) during sampling
+        feed_dict.update(zip(self.minv_t, self.minv))
 
         return super().__next__(feed_dict=feed_dict)
diff --git a/pysgmcmc/samplers/sghmc.py b/pysgmcmc/samplers/sghmc.py
index d6b4a7a..dc0754a 100644
--- a/pysgmcmc/samplers/sghmc.py
+++ b/pysgmcmc/samplers/sghmc.py
@@ -157,6 +157,7 @@ class SGHMCSampler(BurnInMCMCSampler):
         #  }}} Initialize internal sampler parameters #
 
         self.minv_t = [None] * len(params)  # gets burned-in
+        self.initial_minv = minv
 
         # R_t = 1/ (tau + 1), shouldn't it be: 1 / tau according to terms?
         # It is not, and changing it to that breaks everything!
diff --git a/pysgmcmc/samplers/sgld.py b/pysgmcmc/samplers/sgld.py
index d3536ec..3baa201 100644
--- a/pysgmcmc/samplers/sgld.py
+++ b/pysgmcmc/samplers/sgld.py
@@ -146,6 +146,7 @@ class SGLDSampler(BurnInMCMCSampler):
         #  }}} Initialize internal sampler parameters #
 
         self.minv_t = [None] * n_params  # gets burned-in
+        self.initial_minv = minv
 
         for i, (param, grad) in enumerate(zip(params, grads)):
 
-- 
2.43.0


From 89d3d98231806beb51558fd6552090e4560b1a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 17/25] fix: noise of different parameters is independent also
 when a seed is given

---
 pysgmcmc/samplers/base_classes.py       | 21 ++++++++++++++++++++-
 pysgmcmc/samplers/relativistic_sghmc.py |  2 +-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index e73908c..b2ed239 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -3,6 +3,7 @@
 """Abstract base classes for all MCMC methods. Helps unify our sampler interface."""
 # XXX NEXT METHOD NEEDS DOKU FOR FEED_DICT
 import abc
+import hashlib
 import tensorflow as tf
 
 from pysgmcmc.tensor_utils import vectorize, uninitialized_params
@@ -200,6 +201,24 @@ class MCMCSampler(object):
         epsilon = next(self.stepsize_schedule)
         return {self.epsilon: epsilon}
 
+    def _next_noise_seed(self):
+        """
+        Derive a new operation seed from `self.seed` for each source of noise,
+        since operations with the same seed generate the same noise.
+
+        Returns
+        -------
+        seed: int or None
+            `None` if `self.seed` is `None`.
+
+        """
+        if self.seed is None:
+            return None
+
+        self._n_noise_seeds = getattr(self, "_n_noise_seeds", 0) + 1
+        key = "{}/{}".format(int(self.seed), self._n_noise_seeds).encode()
+        return int(hashlib.md5(key).hexdigest()[:7], 16)
+
     def _draw_noise_sample(self, sigma, shape):
         """
         Generate a single random normal sample with shape `shape` and standard deviation `sigma`.
@@ -220,7 +239,7 @@ class MCMCSampler(object):
 
         """
         return sigma * tf.random_normal(
-            shape=shape, dtype=self.dtype, seed=self.seed
+            shape=shape, dtype=self.dtype, seed=self._next_noise_seed()
         )
 
     # Conform to iterator protocol.
diff --git a/pysgmcmc/samplers/relativistic_sghmc.py b/pysgmcmc/samplers/relativistic_sghmc.py
index e751998..ca4e4b7 100644
--- a/pysgmcmc/samplers/relativistic_sghmc.py
+++ b/pysgmcmc/samplers/relativistic_sghmc.py
@@ -122,7 +122,7 @@ class RelativisticSGHMCSampler(MCMCSampler):
 
             p_grad = self.epsilon * momentum[i] / (m * tf.sqrt(momentum[i] * momentum[i] / (tf.square(m) * tf.square(c)) + 1))
 
-            n = tf.sqrt(self.epsilon * (2 * D - self.epsilon * b_hat)) * tf.random_normal(shape=vectorized_param.shape, dtype=dtype, seed=seed)
+            n = tf.sqrt(self.epsilon * (2 * D - self.epsilon * b_hat)) * tf.random_normal(shape=vectorized_param.shape, dtype=dtype, seed=self._next_noise_seed())
             momentum_t = tf.assign_add(
                 momentum[i],
                 tf.reshape(self.epsilon * grad + n - D * p_grad, momentum[i].shape)
-- 
2.43.0


From a6b2e984f58fcbc6bb4a3a3b4fc978217fa69015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 18/25] fix: relativistic SGHMC supports parameters with more
 than one element

---
 pysgmcmc/samplers/relativistic_sghmc.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pysgmcmc/samplers/relativistic_sghmc.py b/pysgmcmc/samplers/relativistic_sghmc.py
index ca4e4b7..1b7fe6e 100644
--- a/pysgmcmc/samplers/relativistic_sghmc.py
+++ b/pysgmcmc/samplers/relativistic_sghmc.py
@@ -1,4 +1,5 @@
 # vim:foldmethod=marker
+import numpy as np
 import tensorflow as tf
 from pysgmcmc.samplers.base_classes import MCMCSampler
 from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule
@@ -105,11 +106,20 @@ class RelativisticSGHMCSampler(MCMCSampler):
         D = tf.constant(D, dtype=dtype)
         b_hat = tf.constant(Bhat, dtype=dtype)
 
+        # one momentum for each element of each parameter
+        shapes = [param.shape.as_list() for param in self.vectorized_params]
+        n_elements = [shape[0] for shape in shapes]
+
+        momentum_samples = np.split(
+            np.asarray(_sample_relativistic_momentum(
+                m=mass, c=speed_of_light, n_params=sum(n_elements), seed=self.seed
+            )),
+            np.cumsum(n_elements)[:-1]
+        )
+
         momentum = [
-            tf.Variable(momentum_sample, dtype=dtype)
-            for momentum_sample in _sample_relativistic_momentum(
-                m=mass, c=speed_of_light, n_params=len(self.params), seed=self.seed
-            )
+            tf.Variable(np.reshape(momentum_sample, shape), dtype=dtype)
+            for momentum_sample, shape in zip(momentum_samples, shapes)
         ]
 
         # In internal implementation, stick to mathematical formulas.
-- 
2.43.0


From 4cada583327d0dea97880802691dbdc7f8058097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 19/25] fix: samplers step from the current values of their
 parameters

---
 pysgmcmc/samplers/relativistic_sghmc.py | 3 ++-
 pysgmcmc/samplers/sghmc.py              | 5 +++--
 pysgmcmc/samplers/sgld.py               | 3 ++-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pysgmcmc/samplers/relativistic_sghmc.py b/pysgmcmc/samplers/relativistic_sghmc.py
index 1b7fe6e..f30ff88 100644
--- a/pysgmcmc/samplers/relativistic_sghmc.py
+++ b/pysgmcmc/samplers/relativistic_sghmc.py
@@ -139,8 +139,9 @@ class RelativisticSGHMCSampler(MCMCSampler):
             )
 
             p_grad_new = self.epsilon * momentum_t / (m * tf.sqrt(momentum_t * momentum_t / (tf.square(m) * tf.square(c)) + 1))
-            vectorized_theta_t = tf.assign_add(
+            vectorized_theta_t = tf.assign(
                 vectorized_param,
+                tf.reshape(param, vectorized_param.shape) +
                 tf.reshape(p_grad_new, vectorized_param.shape)
             )
 
diff --git a/pysgmcmc/samplers/sghmc.py b/pysgmcmc/samplers/sghmc.py
index dc0754a..5868378 100644
--- a/pysgmcmc/samplers/sghmc.py
+++ b/pysgmcmc/samplers/sghmc.py
@@ -239,8 +239,9 @@ class SGHMCSampler(BurnInMCMCSampler):
                         )
 
                         # Equation 10: left side
-                        vectorized_Theta_t = tf.assign_add(
-                            vectorized_param, v_t
+                        vectorized_Theta_t = tf.assign(
+                            vectorized_param,
+                            tf.reshape(param, vectorized_param.shape) + v_t
                         )
 
                         self.theta_t[i] = tf.assign(
diff --git a/pysgmcmc/samplers/sgld.py b/pysgmcmc/samplers/sgld.py
index 3baa201..fe24533 100644
--- a/pysgmcmc/samplers/sgld.py
+++ b/pysgmcmc/samplers/sgld.py
@@ -200,8 +200,9 @@ class SGLDSampler(BurnInMCMCSampler):
 
                         #  SGLD Update {{{ #
 
-                        vectorized_theta_t = tf.assign_add(
+                        vectorized_theta_t = tf.assign(
                             vectorized_param,
+                            tf.reshape(param, vectorized_param.shape)
                             - self.epsilon * self.minv_t[i] * A * grad + sample,
                         )
                         self.theta_t[i] = tf.assign(
-- 
2.43.0


From d708962bee52df0eec8ac362ce57ddd538dff75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 20/25] fix: parameters are only moved once all updates and the
 cost of a step are computed

---
 pysgmcmc/samplers/base_classes.py       | 21 ++++++++++++++++++++-
 pysgmcmc/samplers/relativistic_sghmc.py | 15 ++++++---------
 pysgmcmc/samplers/sghmc.py              | 18 +++++++-----------
 pysgmcmc/samplers/sgld.py               | 17 +++++++----------
 4 files changed, 40 insertions(+), 31 deletions(-)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index b2ed239..25f2c9a 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -6,7 +6,7 @@ import abc
 import hashlib
 import tensorflow as tf
 
-from pysgmcmc.tensor_utils import vectorize, uninitialized_params
+from pysgmcmc.tensor_utils import vectorize, unvectorize, uninitialized_params
 from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule
 
 __all__ = (
@@ -242,6 +242,25 @@ class MCMCSampler(object):
             shape=shape, dtype=self.dtype, seed=self._next_noise_seed()
         )
 
+    def _assign_params(self, vectorized_theta_t):
+        """
+        Assign new values to all target parameters once every one of them
+        (and the cost) was computed: nothing that is still computed for this
+        step may see a parameter that was already moved.
+
+        Parameters
+        ----------
+        vectorized_theta_t : list of tensorflow.Tensor objects
+            New value for each target parameter, in vectorized form.
+
+        """
+        with tf.control_dependencies(vectorized_theta_t + [self.cost]):
+            for i, (param, new_value) in enumerate(zip(self.params, vectorized_theta_t)):
+                self.theta_t[i] = tf.assign(
+                    param, unvectorize(new_value, original_shape=param.shape),
+                    name="theta_t_{}".format(i)
+                )
+
     # Conform to iterator protocol.
     # For reference see:
     # https://docs.python.org/3/library/stdtypes.html#iterator-types
diff --git a/pysgmcmc/samplers/relativistic_sghmc.py b/pysgmcmc/samplers/relativistic_sghmc.py
index f30ff88..1148353 100644
--- a/pysgmcmc/samplers/relativistic_sghmc.py
+++ b/pysgmcmc/samplers/relativistic_sghmc.py
@@ -4,9 +4,7 @@ import tensorflow as tf
 from pysgmcmc.samplers.base_classes import MCMCSampler
 from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule
 
-from pysgmcmc.tensor_utils import (
-    vectorize, unvectorize
-)
+from pysgmcmc.tensor_utils import vectorize
 
 from arspy.ars import adaptive_rejection_sampling
 
@@ -127,6 +125,8 @@ class RelativisticSGHMCSampler(MCMCSampler):
         m = tf.constant(mass, dtype=dtype)
         c = tf.constant(speed_of_light, dtype=dtype)
 
+        vectorized_theta_t = []
+
         for i, (param, grad) in enumerate(zip(params, grads)):
             vectorized_param = self.vectorized_params[i]
 
@@ -139,16 +139,13 @@ class RelativisticSGHMCSampler(MCMCSampler):
             )
 
             p_grad_new = self.epsilon * momentum_t / (m * tf.sqrt(momentum_t * momentum_t / (tf.square(m) * tf.square(c)) + 1))
-            vectorized_theta_t = tf.assign(
+            vectorized_theta_t.append(tf.assign(
                 vectorized_param,
                 tf.reshape(param, vectorized_param.shape) +
                 tf.reshape(p_grad_new, vectorized_param.shape)
-            )
+            ))
 
-            self.theta_t[i] = tf.assign(
-                param,
-                unvectorize(vectorized_theta_t, original_shape=param.shape)
-            )
+        self._assign_params(vectorized_theta_t)
 
 
 def _sample_relativistic_momentum(m, c, n_params,
diff --git a/pysgmcmc/samplers/sghmc.py b/pysgmcmc/samplers/sghmc.py
index 5868378..2089f8f 100644
--- a/pysgmcmc/samplers/sghmc.py
+++ b/pysgmcmc/samplers/sghmc.py
@@ -3,7 +3,7 @@ import tensorflow as tf
 from pysgmcmc.samplers.base_classes import BurnInMCMCSampler
 
 from pysgmcmc.tensor_utils import (
-    vectorize, unvectorize, safe_divide, safe_sqrt,
+    vectorize, safe_divide, safe_sqrt,
 )
 
 from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule
@@ -163,6 +163,8 @@ class SGHMCSampler(BurnInMCMCSampler):
         # It is not, and changing it to that breaks everything!
         # Why?
 
+        vectorized_Theta_t = []
+
         for i, (param, grad) in enumerate(zip(params, grads)):
             vectorized_param = self.vectorized_params[i]
             #  Burn-in logic {{{ #
@@ -239,17 +241,11 @@ class SGHMCSampler(BurnInMCMCSampler):
                         )
 
                         # Equation 10: left side
-                        vectorized_Theta_t = tf.assign(
+                        vectorized_Theta_t.append(tf.assign(
                             vectorized_param,
                             tf.reshape(param, vectorized_param.shape) + v_t
-                        )
-
-                        self.theta_t[i] = tf.assign(
-                            param,
-                            unvectorize(
-                                vectorized_Theta_t, original_shape=param.shape
-                            ),
-                            name="theta_t_{}".format(i)
-                        )
+                        ))
 
                         #  }}} HMC Update #
+
+        self._assign_params(vectorized_Theta_t)
diff --git a/pysgmcmc/samplers/sgld.py b/pysgmcmc/samplers/sgld.py
index fe24533..517a4f4 100644
--- a/pysgmcmc/samplers/sgld.py
+++ b/pysgmcmc/samplers/sgld.py
@@ -5,7 +5,7 @@ from pysgmcmc.samplers.base_classes import BurnInMCMCSampler
 from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule
 
 from pysgmcmc.tensor_utils import (
-    vectorize, unvectorize, safe_divide, safe_sqrt
+    vectorize, safe_divide, safe_sqrt
 )
 
 
@@ -148,6 +148,8 @@ class SGLDSampler(BurnInMCMCSampler):
         self.minv_t = [None] * n_params  # gets burned-in
         self.initial_minv = minv
 
+        vectorized_theta_t = []
+
         for i, (param, grad) in enumerate(zip(params, grads)):
 
             vectorized_param = self.vectorized_params[i]
@@ -200,17 +202,12 @@ class SGLDSampler(BurnInMCMCSampler):
 
                         #  SGLD Update {{{ #
 
-                        vectorized_theta_t = tf.assign(
+                        vectorized_theta_t.append(tf.assign(
                             vectorized_param,
                             tf.reshape(param, vectorized_param.shape)
                             - self.epsilon * self.minv_t[i] * A * grad + sample,
-                        )
-                        self.theta_t[i] = tf.assign(
-                            param,
-                            unvectorize(
-                                vectorized_theta_t, original_shape=param.shape
-                            ),
-                            name="Theta_t_{}".format(i)
-                        )
+                        ))
 
                         #  }}} SGLD Update #
+
+        self._assign_params(vectorized_theta_t)
-- 
2.43.0


From 2ec8b2eb2015797c3b42805ac26a7f6a56748a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 21/25] fix: shuffling of minibatches is independent of the
 choice of their datapoints

---
 pysgmcmc/data_batches.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysgmcmc/data_batches.py b/pysgmcmc/data_batches.py
index 8765e96..7520b94 100644
--- a/pysgmcmc/data_batches.py
+++ b/pysgmcmc/data_batches.py
@@ -196,8 +196,9 @@ def generate_shuffled_batches(x, y, x_placeholder, y_placeholder,
         seed = np.random.randint(1, 100000)
 
     rng_x, rng_y = np.random.RandomState(), np.random.RandomState()
-    rng_x.seed(seed)
-    rng_y.seed(seed)
+    # shuffle independently of the choice of datapoints, which uses `seed` itself
+    rng_x.seed([seed, 1])
+    rng_y.seed([seed, 1])
 
     for batch in generate_batches(x, y, x_placeholder, y_placeholder, batch_size, seed):
         # batches may be views of the dataset: shuffle copies of them
-- 
2.43.0


From bff612558e827ce265d2b61cca3728b01be433b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:00 +0000
Subject: [PATCH 22/25] fix: uninitialized_params accepts an empty list of
 variables

---
 pysgmcmc/tensor_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/tensor_utils.py b/pysgmcmc/tensor_utils.py
index b52d16f..c44292d 100644
--- a/pysgmcmc/tensor_utils.py
+++ b/pysgmcmc/tensor_utils.py
@@ -599,7 +599,7 @@ def uninitialized_params(params, session):
     assert isinstance(session, (tf.Session, tf.InteractiveSession))
 
     init_flag = session.run(
-        tf.stack([tf.is_variable_initialized(v) for v in params])
+        [tf.is_variable_initialized(v) for v in params]
     )
 
     return [param for param, flag in zip(params, init_flag) if not flag]
-- 
2.43.0


From c267513a4f3300fe1ea66b42f5ea4e5d6e8e0a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:04 +0000
Subject: [PATCH 23/25] fix: the default session of samplers does not depend on
 when they are imported

---
 pysgmcmc/samplers/base_classes.py       | 4 ++--
 pysgmcmc/samplers/relativistic_sghmc.py | 2 +-
 pysgmcmc/samplers/sghmc.py              | 2 +-
 pysgmcmc/samplers/sgld.py               | 2 +-
 pysgmcmc/samplers/svgd.py               | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index 25f2c9a..4c8c648 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -23,7 +23,7 @@ class MCMCSampler(object):
 
     def __init__(self, params, cost_fun, batch_generator=None,
                  stepsize_schedule=ConstantStepsizeSchedule(0.01),
-                 session=tf.get_default_session(), dtype=tf.float64, seed=None):
+                 session=None, dtype=tf.float64, seed=None):
         """
         Initialize the sampler base class. Sets up member variables and
         initializes uninitialized target parameters in the current
@@ -364,7 +364,7 @@ class BurnInMCMCSampler(MCMCSampler):
     def __init__(self, params, cost_fun, batch_generator=None,
                  stepsize_schedule=ConstantStepsizeSchedule(0.01),
                  burn_in_steps=3000,
-                 session=tf.get_default_session(), dtype=tf.float64, seed=None):
+                 session=None, dtype=tf.float64, seed=None):
         """
         Initializes the corresponding MCMCSampler super object and
         sets member variables.
diff --git a/pysgmcmc/samplers/relativistic_sghmc.py b/pysgmcmc/samplers/relativistic_sghmc.py
index 1148353..cebcb37 100644
--- a/pysgmcmc/samplers/relativistic_sghmc.py
+++ b/pysgmcmc/samplers/relativistic_sghmc.py
@@ -23,7 +23,7 @@ class RelativisticSGHMCSampler(MCMCSampler):
     def __init__(self, params, cost_fun, batch_generator=None,
                  stepsize_schedule=ConstantStepsizeSchedule(0.001),
                  mass=1.0, speed_of_light=1.0, D=1.0, Bhat=0.0,
-                 session=tf.get_default_session(), dtype=tf.float64, seed=None):
+                 session=None, dtype=tf.float64, seed=None):
         """ Initialize the sampler parameters and set up a tensorflow.Graph
             for later queries.
 
diff --git a/pysgmcmc/samplers/sghmc.py b/pysgmcmc/samplers/sghmc.py
index 2089f8f..57ca209 100644
--- a/pysgmcmc/samplers/sghmc.py
+++ b/pysgmcmc/samplers/sghmc.py
@@ -31,7 +31,7 @@ class SGHMCSampler(BurnInMCMCSampler):
     def __init__(self, params, cost_fun, batch_generator=None,
                  stepsize_schedule=ConstantStepsizeSchedule(0.01),
                  burn_in_steps=3000, mdecay=0.05, scale_grad=1.0,
-                 session=tf.get_default_session(), dtype=tf.float64, seed=None):
+                 session=None, dtype=tf.float64, seed=None):
         """ Initialize the sampler parameters and set up a tensorflow.Graph
             for later queries.
 
diff --git a/pysgmcmc/samplers/sgld.py b/pysgmcmc/samplers/sgld.py
index 517a4f4..c07468b 100644
--- a/pysgmcmc/samplers/sgld.py
+++ b/pysgmcmc/samplers/sgld.py
@@ -32,7 +32,7 @@ class SGLDSampler(BurnInMCMCSampler):
     def __init__(self, params, cost_fun, batch_generator=None,
                  stepsize_schedule=ConstantStepsizeSchedule(0.01),
                  burn_in_steps=3000, A=1.0, scale_grad=1.0,
-                 session=tf.get_default_session(), dtype=tf.float64, seed=None):
+                 session=None, dtype=tf.float64, seed=None):
         """ Initialize the sampler parameters and set up a tensorflow.Graph
             for later queries.
 
diff --git a/pysgmcmc/samplers/svgd.py b/pysgmcmc/samplers/svgd.py
index 144712a..28d7cd8 100644
--- a/pysgmcmc/samplers/svgd.py
+++ b/pysgmcmc/samplers/svgd.py
@@ -22,7 +22,7 @@ class SVGDSampler(MCMCSampler):
     """
     def __init__(self, particles, cost_fun, batch_generator=None,
                  stepsize_schedule=ConstantStepsizeSchedule(0.1),
-                 alpha=0.9, fudge_factor=1e-6, session=tf.get_default_session(),
+                 alpha=0.9, fudge_factor=1e-6, session=None,
                  dtype=tf.float64, seed=None):
         """ Initialize the sampler parameters and set up a tensorflow.Graph
             for later queries.
-- 
2.43.0


From b8a9ac49845541916a054c82bcb7a7241af48687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:48 +0000
Subject: [PATCH 24/25] fix: sampler steps do not modify the caller's feed
 dictionary

---
 pysgmcmc/samplers/base_classes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index 4c8c648..c94597e 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -332,8 +332,8 @@ class MCMCSampler(object):
         # Ensure self.theta_t and self.cost are defined
         assert hasattr(self, "theta_t") or not hasattr(self, "cost")
 
-        if feed_dict is None:
-            feed_dict = dict()
+        # never modify feeds of the caller
+        feed_dict = dict() if feed_dict is None else dict(feed_dict)
 
         feed_dict.update(self._next_batch())
         feed_dict.update(self._next_stepsize())
@@ -468,8 +468,8 @@ class BurnInMCMCSampler(MCMCSampler):
         """
         assert (feed_dict is None or hasattr(feed_dict, "update"))
 
-        if feed_dict is None:
-            feed_dict = dict()
+        # never modify feeds of the caller
+        feed_dict = dict() if feed_dict is None else dict(feed_dict)
 
         if self.is_burning_in:
             # feed next batch and stepsize
-- 
2.43.0


From ffb00fa394f553ed0a23a96731104682385095b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:36 +0000
Subject: [PATCH 25/25] fix: training reports the number of samples while
 sampling, not during burn-in

'log_full_training_error' documents that the number of samples collected thus
far is also logged if 'is_sampling' is True; it was logged if it was False.
---
 pysgmcmc/models/bayesian_neural_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/models/bayesian_neural_network.py b/pysgmcmc/models/bayesian_neural_network.py
index a8a3fc5..6050e09 100644
--- a/pysgmcmc/models/bayesian_neural_network.py
+++ b/pysgmcmc/models/bayesian_neural_network.py
@@ -492,7 +492,7 @@ class BayesianNeuralNetwork(object):
                 }
             )
             seconds_elapsed = time() - start_time
-            if is_sampling:
+            if not is_sampling:
                 logging.info("Iter {:8d} : NLL = {:.4e} MSE = {:.4e} "
                              "Time = {:5.2f}".format(iteration_index,
                                                      float(total_nll),
-- 
2.43.0

