From fe379eae8d6a9f54f966a3ea766228503e9f2c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 01/39] fix: return a constant schedule if first and last step
 size are equal

---
 jax_sgmc/scheduler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jax_sgmc/scheduler.py b/jax_sgmc/scheduler.py
index e36ac60..068aaa4 100644
--- a/jax_sgmc/scheduler.py
+++ b/jax_sgmc/scheduler.py
@@ -527,6 +527,9 @@ def polynomial_step_size_first_last(first: [float, Array] = 1.0,
     assert gamma > 0, f"Gamma must be bigger than 0, is {gamma}"
     assert first >= last, f"The first step size must be larger than the last:" \
                          f" {first} !>= {last}"
+    if iterations == 1 or first == last:
+      # The schedule does not decay, so the polynomial is not defined
+      return jnp.full((int(iterations),), first, dtype=float)
     a, b = find_ab(iterations, gamma, first, last)
     init_fn, _, _ = polynomial_step_size(a=a, b=b, gamma=gamma)
     return init_fn(iterations)
-- 
2.43.0


From 427249fe55389d3157932e7d9c73da52d07dd8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 02/39] fix: avoid overflow when fitting the step size
 polynomial to first and last step size

---
 jax_sgmc/scheduler.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/jax_sgmc/scheduler.py b/jax_sgmc/scheduler.py
index 068aaa4..e7dc9ae 100644
--- a/jax_sgmc/scheduler.py
+++ b/jax_sgmc/scheduler.py
@@ -25,6 +25,8 @@ schedulers.
 from collections import namedtuple
 from typing import Callable, Tuple
 
+import numpy as onp
+
 import jax.numpy as jnp
 from jax import lax
 from jax import random
@@ -510,12 +512,14 @@ def polynomial_step_size_first_last(first: [float, Array] = 1.0,
 
   # Calculates the required coefficients of the polynomial
   def find_ab(its, gamma, first, last):
-    ginv = jnp.power(gamma, -1.0)
-    fpow = jnp.power(first, -ginv) # pylint: disable=E1130
-    lpow = jnp.power(last, -ginv) # pylint: disable=E1130
-    apow = jnp.divide(lpow - fpow, its - 1)
-    a = jnp.power(apow, -gamma)
-    b = jnp.power(jnp.divide(first, a), -ginv) # pylint: disable=E1130
+    # The intermediate powers can exceed the range of single precision
+    gamma, first, last = onp.float64(gamma), onp.float64(first), onp.float64(last)
+    ginv = onp.power(gamma, -1.0)
+    fpow = onp.power(first, -ginv)
+    lpow = onp.power(last, -ginv)
+    apow = onp.divide(lpow - fpow, its - 1)
+    a = onp.power(apow, -gamma)
+    b = onp.power(onp.divide(first, a), -ginv)
     return a, b
 
   def init_fn(iterations: int,
-- 
2.43.0


From 13f409d392fa67751b790d9b019f32bb1b7fd125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 03/39] fix: use the target acceptance rate of the chain in the
 adaptive step size

---
 jax_sgmc/scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_sgmc/scheduler.py b/jax_sgmc/scheduler.py
index e7dc9ae..2116938 100644
--- a/jax_sgmc/scheduler.py
+++ b/jax_sgmc/scheduler.py
@@ -424,7 +424,7 @@ def adaptive_step_size(burn_in = 0,
     m = iteration + 1
 
     h_bar *= (1 - 1/(m + t0))
-    h_bar += 1/(m + t0) * (target_acceptance_rate - acceptance_ratio)
+    h_bar += 1/(m + t0) * (alpha - acceptance_ratio)
 
     x = mu - jnp.sqrt(m) / gamma * h_bar
 
-- 
2.43.0


From 92e0494f9ecb64060788c7a10fac192eff3e71a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 04/39] fix: return the dict keys in the order of the leaves of
 the pytree

---
 jax_sgmc/io.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index bc07d97..ade5901 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -170,9 +170,11 @@ def pytree_dict_keys(tree: PyTree):
       [('a', 'list_element_0'), ('a', 'list_element_1'), ('b',)]
 
   """
-  node = pytree_to_dict(tree)
-  leaves, treedef = tree_util.tree_flatten(node)
-  idx_tree = tree_util.tree_unflatten(treedef, list(range(len(leaves))))
+  # The keys must be in the order of the leaves of the original tree, which is
+  # not necessarily the order of the leaves of the (sorted) dict.
+  leaves, treedef = tree_util.tree_flatten(tree)
+  idx_tree = pytree_to_dict(
+    tree_util.tree_unflatten(treedef, list(range(len(leaves)))))
   key_list = [None] * len(leaves)
   def _recurse(node, path):
     if node is None:
-- 
2.43.0


From e61f861e66b6ce4cec0357edff7eda03a9651cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 05/39] fix: do not ravel omitted arguments when initializing
 an adaption

---
 jax_sgmc/adaption.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/adaption.py b/jax_sgmc/adaption.py
index 8576e17..54ca361 100644
--- a/jax_sgmc/adaption.py
+++ b/jax_sgmc/adaption.py
@@ -134,7 +134,8 @@ def _adaption(adaption_fn: Callable, quantity: namedtuple = tuple):
       unravel_fn = get_unravel_fn(x0)
 
       x0_flat = ravel_fn(x0)
-      init_flat = map(ravel_fn, init_args)
+      # Optional arguments are passed unchanged if not provided
+      init_flat = (None if arg is None else ravel_fn(arg) for arg in init_args)
       state = init(x0_flat, *init_flat, **init_kwargs)
 
       # Wrap the potential in a flatten function if potential is provided as
-- 
2.43.0


From 41472340a2de859ca3cc7268ce01acacb59d8e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 06/39] fix: leave the checkpoint unchanged when restoring the
 data loader state

---
 jax_sgmc/data/numpy_loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_sgmc/data/numpy_loader.py b/jax_sgmc/data/numpy_loader.py
index 02b84eb..9de3b6b 100644
--- a/jax_sgmc/data/numpy_loader.py
+++ b/jax_sgmc/data/numpy_loader.py
@@ -217,12 +217,12 @@ class NumpyDataLoader(NumpyBase, HostDataLoader):
     """
     # Restore the state by setting the random number generators to the
     # checkpointed state
-    type, value = data.popitem()
+    (type, value), = data.items()
     if type == 'random':
       rng_state, chain_data = value
       self._chains[chain_id]['rng'].bit_generator.state = rng_state
       for key, value in chain_data.items():
-        self._chains[chain_id][key] = value
+        self._chains[chain_id][key] = deepcopy(value)
     elif type == 'ordered':
       self._chains[chain_id]['idx_offset'] = value
     else:
-- 
2.43.0


From 8094243fda4b0644aa13a2841ffb80db4184b6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 07/39] fix: serve unverified requests with an outdated token
 instead of crashing

---
 jax_sgmc/data/core.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index a478fc9..ddc8092 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -435,21 +435,22 @@ class _Requests:
         else:
           self._cached_requests[token.as_uuid][0] -= 1
 
-      # Check if token is invalid
-      elif current_token != token.as_uuid and current_token is not None:
-        if strict:
+      else:
+        # Check if token is invalid
+        invalid = current_token is not None and current_token != token.as_uuid
+        if invalid and strict:
           raise RuntimeError(f"Invalid request for "
                              f"chain {chain_id}. This might be due to using a "
                              f"pmap in a jitted function. See "
                              f"usage/data.html#combining-pmap-and-jit in the "
                              f"docs.")
-        warnings.warn(f"Invalid request for chain "
-                      f"{chain_id}. This might be due to using a pmap in a "
-                      f"jitted function. If the preservation ")
+        if invalid:
+          warnings.warn(f"Invalid request for chain "
+                        f"{chain_id}. This might be due to using a pmap in a "
+                        f"jitted function. If the preservation ")
 
-      # The request is valid and the first request, so the results have to be
-      # stored in the cache
-      else:
+        # This is the first request, so the results have to be stored in the
+        # cache
         # Issue a new token and request data
         new_token = JaxUUID()
         callback_response = self._host_data_loaders[callback_uuid.as_uuid].get_batches(chain_id)
-- 
2.43.0


From 8b39392e4cd27bb396ffdf517c10d9d86471a04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 08/39] fix: evaluate batched likelihoods for batches with a
 single observation

---
 jax_sgmc/potential.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jax_sgmc/potential.py b/jax_sgmc/potential.py
index 2215471..696e278 100644
--- a/jax_sgmc/potential.py
+++ b/jax_sgmc/potential.py
@@ -168,6 +168,8 @@ def minibatch_potential(prior: Prior,
 
     batch_likelihoods, new_states = batched_likelihood(
       state, sample, batch_data)
+    # The squeezing removes also the batch axis for a batch of size one
+    batch_likelihoods = jnp.atleast_1d(batch_likelihoods)
     if is_batched:
       # Batched evaluation returns single state
       new_state = new_states
-- 
2.43.0


From 4a6c89824d6df5af50daeb1f1fca993fbe7a2a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 09/39] fix: report the variance of the stochastic potential
 and not of the likelihoods

---
 jax_sgmc/integrator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/integrator.py b/jax_sgmc/integrator.py
index 09df0a3..8f324b4 100644
--- a/jax_sgmc/integrator.py
+++ b/jax_sgmc/integrator.py
@@ -877,7 +877,11 @@ def langevin_diffusion(
       mini_batch,
       state=state.model_state,
       likelihoods=True)
-    variance = jnp.var(likelihoods)
+    # Variance of the stochastic potential, which is the rescaled mean over the
+    # likelihoods of the mini-batch
+    _, mb_information = mini_batch
+    variance = (mb_information.observation_count ** 2
+                / mb_information.batch_size * jnp.var(likelihoods))
 
     scaled_gradient = tree_scale(-parameters.step_size, gradient)
     scaled_noise = tree_scale(
-- 
2.43.0


From 62512f73bce672a50bde8495b0e826a44831d140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 10/39] fix: swap the tempered chains with, and not against,
 the swap probability

---
 jax_sgmc/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_sgmc/solver.py b/jax_sgmc/solver.py
index d1db1d3..a6080a5 100644
--- a/jax_sgmc/solver.py
+++ b/jax_sgmc/solver.py
@@ -286,8 +286,8 @@ def parallel_tempering(integrator,
     # Swap the chains at random
     (normal_chain, hot_chain) = lax.cond(
       log_u < log_s,
-      lambda cold_hot: cold_hot,
       lambda cold_hot: (cold_hot[1], cold_hot[0]),
+      lambda cold_hot: cold_hot,
       (normal_chain, hot_chain))
 
     return (normal_chain, hot_chain, ssq_estimate, F, step, key), None
-- 
2.43.0


From 8faf0b4ee9b7425a5675b73166b1be1a6f3b98e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 11/39] fix: negate the momentum if the SGGMC proposal is
 rejected

---
 jax_sgmc/solver.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jax_sgmc/solver.py b/jax_sgmc/solver.py
index a6080a5..b099480 100644
--- a/jax_sgmc/solver.py
+++ b/jax_sgmc/solver.py
@@ -528,17 +528,17 @@ def sggmc(integrator_fn,
     slice = random.uniform(split)
 
     # If true, the step is accepted
-    mh_integrator_state, new_potential, mh_model_state = lax.cond(
+    mh_integrator_state, new_potential, direction, mh_model_state = lax.cond(
       jnp.log(slice) < log_alpha,
       lambda new_old: new_old[0],
       lambda new_old: new_old[1],
-      ((proposal, new_potential, new_model_state),
-       (state.integrator_state, state.potential,
+      ((proposal, new_potential, 1.0, new_model_state),
+       (state.integrator_state, state.potential, -1.0,
         state.integrator_state.model_state)))
 
     new_integrator_state = integrator.ObaboState(
       positions=mh_integrator_state.positions,
-      momentum=mh_integrator_state.momentum,
+      momentum=util.tree_scale(direction, mh_integrator_state.momentum),
       model_state=mh_model_state,
       potential=mh_integrator_state.potential,
       # These parameters must be provided from the updated state, otherwise
-- 
2.43.0


From 08ecbd09dbb9af6ba09d5877078e99c5dd33c1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 12/39] fix: scale the SGHMC noise with the square root of the
 friction

---
 jax_sgmc/integrator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/integrator.py b/jax_sgmc/integrator.py
index 8f324b4..582e6fc 100644
--- a/jax_sgmc/integrator.py
+++ b/jax_sgmc/integrator.py
@@ -651,7 +651,8 @@ def friction_leapfrog(potential_fn: StochasticPotential,
     else:
       noise_state = None
       scaled_noise = tree_scale(jnp.sqrt(2 * parameters.step_size), noise)
-      scaled_noise = tree_multiply(friction, scaled_noise)
+      scaled_noise = tree_multiply(
+        tree_util.tree_map(jnp.sqrt, friction), scaled_noise)
     new_momentum = tree_add(new_momentum, scaled_noise)
 
     new_state = LeapfrogState(
-- 
2.43.0


From 7e2541f35a2bd855083a75c937f3a05cc0838909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 13/39] fix: accept array-valued constant masses

---
 jax_sgmc/integrator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jax_sgmc/integrator.py b/jax_sgmc/integrator.py
index 582e6fc..8af6c74 100644
--- a/jax_sgmc/integrator.py
+++ b/jax_sgmc/integrator.py
@@ -166,7 +166,7 @@ def obabo(potential_fn: StochasticPotential,
   stochastic_gradient = value_and_grad(potential_fn, argnums=0, has_aux=True)
 
   # Calculate the inverse and the square root
-  if const_mass:
+  if const_mass is not None:
     const_mass = init_mass(const_mass)
   else:
     const_mass = None
@@ -375,7 +375,7 @@ def reversible_leapfrog(potential_fn: StochasticPotential,
   stochastic_gradient = grad(potential_fn, has_aux=True)
 
   # Calculate the inverse and the square root
-  if const_mass:
+  if const_mass is not None:
     const_mass = init_mass(const_mass)
   else:
     const_mass = None
@@ -595,7 +595,7 @@ def friction_leapfrog(potential_fn: StochasticPotential,
     init_noise_model, update_noise_model, get_noise_model = noise_model
 
   # Calculate the inverse and the square root
-  if const_mass:
+  if const_mass is not None:
     const_mass = init_mass(const_mass)
   else:
     const_mass = None
-- 
2.43.0


From 7d1efd969ade1cd86d06f12cc5f6d33522ed345b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 14/39] fix: center the empirical fisher information at the
 mean gradient of the likelihoods

---
 jax_sgmc/adaption.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/jax_sgmc/adaption.py b/jax_sgmc/adaption.py
index 54ca361..75a8c9c 100644
--- a/jax_sgmc/adaption.py
+++ b/jax_sgmc/adaption.py
@@ -402,15 +402,11 @@ def fisher_information(minibatch_potential: Callable = None,
           step_size: Any = jnp.array(1.0),
           model_state: PyTree = None,
           **kwargs: Any):
-    del state, args, kwargs
+    del state, sample_grad, args, kwargs
 
     _, mb_information = mini_batch
-    N = mb_information.observation_count
     n = mb_information.batch_size
 
-    # Unscale the gradient to get mean
-    sample_grad /= N
-
     def potential_at_obs(smp, obs_idx):
       _, (likelihoods, _) = flat_potential(
         smp, mini_batch, likelihoods=True, state=model_state)
@@ -418,15 +414,19 @@ def fisher_information(minibatch_potential: Callable = None,
 
     grad_diff_idx = grad(potential_at_obs, argnums=0)
 
+    obs_grads = vmap(grad_diff_idx, in_axes=(None, 0))(
+      sample, jnp.arange(mb_information.batch_size))
+    mean_grad = jnp.mean(obs_grads, axis=0)
+
     @functools.partial(vmap, out_axes=0)
-    def sqd(idx):
+    def sqd(obs_grad):
+      diff = obs_grad - mean_grad
       if diagonal:
-        return jnp.square(grad_diff_idx(sample, idx) - sample_grad)
+        return jnp.square(diff)
       else:
-        diff = grad_diff_idx(sample, idx) - sample_grad
         return jnp.outer(diff, diff)
 
-    ssq = jnp.sum(sqd(jnp.arange(mb_information.batch_size)), axis=0)
+    ssq = jnp.sum(sqd(obs_grads), axis=0)
 
     if diagonal:
       v = 1 / (n - 1) * ssq
-- 
2.43.0


From 126f0f0a9af55752382c540f8596e7b6af2bd216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 15/39] fix: return the matrix square roots of the full noise
 model

---
 jax_sgmc/adaption.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_sgmc/adaption.py b/jax_sgmc/adaption.py
index 75a8c9c..e22e93f 100644
--- a/jax_sgmc/adaption.py
+++ b/jax_sgmc/adaption.py
@@ -450,8 +450,8 @@ def fisher_information(minibatch_potential: Callable = None,
       u_cb, s_cb, _ = jnp.linalg.svd(jnp.diag(friction) - b)
       u, s, _ = jnp.linalg.svd(b)
 
-      noise_scale = jnp.dot(u_cb, jnp.sqrt(s_cb))
-      scale = jnp.dot(u, jnp.sqrt(s))
+      noise_scale = u_cb * jnp.sqrt(s_cb)
+      scale = u * jnp.sqrt(s)
 
     return noise_scale, scale
 
-- 
2.43.0


From 962d11882e3ff273f38e2bd9feeba7b3834e4e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 16/39] fix: compute the square root of the full adapted mass
 matrix

---
 jax_sgmc/adaption.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_sgmc/adaption.py b/jax_sgmc/adaption.py
index e22e93f..658ad0d 100644
--- a/jax_sgmc/adaption.py
+++ b/jax_sgmc/adaption.py
@@ -316,7 +316,7 @@ def mass_matrix(diagonal=True, burn_in=1000):
       inv = ssq / iteration
       eigw, eigv = jnp.linalg.eigh(ssq / iteration)
       # Todo: More effective computation
-      sqrt = jnp.matmul(jnp.transpose(eigv), jnp.matmul(jnp.diag(jnp.sqrt(eigw)), eigv))
+      sqrt = jnp.matmul(eigv / jnp.sqrt(eigw), jnp.transpose(eigv))
     return inv, sqrt
 
   def init(sample: Array, init_cov: Array):
-- 
2.43.0


From d55626793105491fedaac31be40489d7a13de5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 17/39] fix: use the batch size and not the cache size for full
 data maps on the device

---
 jax_sgmc/data/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index ddc8092..8c6d9d3 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -551,7 +551,7 @@ def full_reference_data(data_loader: DataLoader,
       data_loader, cached_batches_count, mb_size)
   elif isinstance(data_loader, DeviceDataLoader):
     init_fn, (_batch_fn, mb_information), cleanup = _full_reference_data_device(
-      data_loader, cached_batches_count)
+      data_loader, mb_size)
   else:
     raise TypeError("The DataLoader must inherit from HostDataLoader or "
                     "DeviceDataLoader")
-- 
2.43.0


From 47154a09fe8012614d7360e4537e3972d3349ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 18/39] fix: support device data loaders in the full data
 mapper

---
 jax_sgmc/data/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index 8c6d9d3..e01ffee 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -935,7 +935,7 @@ def _full_reference_data_device(data_loader: DeviceDataLoader,
                        f"observation count. Given {offset} and "
                        f"{total_observations}.")
 
-    init_state = CacheState(current_line=offset)
+    init_state = CacheState(current_line=jnp.array(offset))
     return init_state
 
   def batch_fn(data_state: CacheState,
-- 
2.43.0


From 8d9280593c1fb6406d79a56f34ac7c841cc6d7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 19/39] fix: carry over the state of unbatched functions mapped
 over the full dataset

---
 jax_sgmc/data/core.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index e01ffee..4f206b5 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -1099,8 +1099,7 @@ def full_data_mapper(data_loader: DataLoader = None,
             state = None
           else:
             state = tree_util.tree_map(
-              partial(jnp.take_along_axis, indices=0, axis=0),
-              states)
+              lambda leaf: leaf[0], states)
           return results, state
 
     (new_data_state, results) = _helper.get_map_fn(
-- 
2.43.0


From 887092e69d5819696790543b9330543129b1c5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 20/39] fix: mark fillers in the batch information when mapping
 over a dataset on the device

---
 jax_sgmc/data/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index 4f206b5..8314d06 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -576,6 +576,10 @@ def full_reference_data(data_loader: DataLoader,
     data_state, batch = _batch_fn(
       data_state,
       information=information, device_count=device_count)
+    if information:
+      # Mark the fillers also in the information about the batch
+      data_batch, batch_information = batch
+      batch = (data_batch, batch_information._replace(mask=mask))
 
     if masking:
       result, fun_state = fun(batch, mask, fun_state)
-- 
2.43.0


From 87fbc49031f1b4c872bb92a2439654d80e03bae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 21/39] fix: start each full data map on the device at the same
 observation

---
 jax_sgmc/data/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index 8314d06..f61c728 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -614,8 +614,12 @@ def full_reference_data(data_loader: DataLoader,
                        information=information,
                        masking=masking,
                        device_count=device_count)
+    initial_line = data_state.current_line
     (data_state, carry), results = lax.scan(
       _body_fn, (data_state, carry), onp.arange(num_iterations))
+    if isinstance(data_loader, DeviceDataLoader):
+      # Do not shift the first observation of the next pass by the fillers
+      data_state = data_state._replace(current_line=initial_line)
 
     if masking:
       true_results = results
-- 
2.43.0


From 495bc7905f117606b322d27cb2dfef67a9dfbb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 22/39] fix: pass the batch information to unbatched functions
 mapped over the full dataset

---
 jax_sgmc/data/core.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index f61c728..498c049 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -1090,9 +1090,14 @@ def full_data_mapper(data_loader: DataLoader = None,
         # No vmapping required but first axis of all observations must be
         # removed.
         def batched_fun(batch, state):
+          if information:
+            # The information concerns the batch and has no observation axis
+            batch, batch_information = batch
           squeezed_batch = tree_util.tree_map(
             partial(jnp.squeeze, axis=0),
             batch)
+          if information:
+            squeezed_batch = (squeezed_batch, batch_information)
           result, state = fun(squeezed_batch, state)
           expanded_result = tree_util.tree_map(
             partial(jnp.expand_dims, axis=0),
@@ -1100,7 +1105,9 @@ def full_data_mapper(data_loader: DataLoader = None,
           return expanded_result, state
       else:
         # Only the first resulting state is passed to the next iteration
-        vmapped_fun = jax.vmap(fun, in_axes=(0, None))
+        # The information concerns the batch and has no observation axis
+        batch_axes = (0, None) if information else 0
+        vmapped_fun = jax.vmap(fun, in_axes=(batch_axes, None))
         def batched_fun(batch, state):
           results, states = vmapped_fun(batch, state)
           if states is None:
-- 
2.43.0


From ea6c67ee422c767186a44dee6abb6173f0ece51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 23/39] fix: wait until all samples are written to the HDF5
 file before returning

---
 jax_sgmc/io.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index ade5901..2a08dc1 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -412,7 +412,7 @@ class HDF5Collector(DataCollector):
 
   def __init__(self, file: HDF5File):
     assert h5py is not None, "h5py must be installed to use this DataCollector."
-    # Barrier to wait until all data has been processed
+    # Events to wait until all data has been processed
     self._finished = []
     self._sample_count = []
     self._leaf_names = []
@@ -457,7 +457,7 @@ class HDF5Collector(DataCollector):
         dtype=leaf.dtype)
     self._sample_count.append(0)
     self._leaf_names.append(leaf_names)
-    self._finished.append(threading.Barrier(2))
+    self._finished.append(threading.Event())
     return chain_id
 
   def save(self, chain_id: int, values):
@@ -473,14 +473,14 @@ class HDF5Collector(DataCollector):
     self._sample_count[chain_id] += 1
 
   def finalize(self, chain_id: int):
-    """Waits for all writing to be finished (scheduled via host_callback).
+    """Signals that all writing is finished (scheduled via host_callback).
 
     Args:
       chain_id: Id of the chain which is finished
 
     """
     # Is called after all host callback calls have been processed
-    # self._finished[chain_id].wait()
+    self._finished[chain_id].set()
 
   def checkpoint(self, chain_id: int, state):
     """Called every nth step. """
@@ -492,14 +492,14 @@ class HDF5Collector(DataCollector):
     """Returns after everything has been written to the file.
 
     Finalize is scheduled via host_callback and finished is called in the normal
-    python flow. Via a barrier it is possible to pause the program flow until
+    python flow. Via an event it is possible to pause the program flow until
     all asynchronously saved data has been processed.
 
     Args:
       chain_id: ID of chain requesting continuation of normal program flow.
 
     """
-    # self._finished[chain_id].wait()
+    self._finished[chain_id].wait()
 
 class MemoryCollector(DataCollector):
   """Stores samples entirely in RAM (numpy arrays).
-- 
2.43.0


From be3ce60f2c52c45fd754dd9aa6e0f3a9ad085aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 24/39] fix: wait until all samples are written to the JSON
 file before returning

---
 jax_sgmc/io.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index 2a08dc1..cb3fe7f 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -315,6 +315,8 @@ class JSONCollector(DataCollector):
     self._dir.mkdir(exist_ok=True)
     self._collected_samples = []
     self._sample_count = []
+    # Events to wait until all files have been written
+    self._finished = []
     self._write_frequency = write_frequency
 
   def register_data_loader(self, data_loader: data.DataLoader):
@@ -330,6 +332,7 @@ class JSONCollector(DataCollector):
     new_chain = len(self._collected_samples)
     self._collected_samples.append([])
     self._sample_count.append(0)
+    self._finished.append(threading.Event())
     return new_chain
 
   def save(self, chain_id: int, values):
@@ -346,8 +349,11 @@ class JSONCollector(DataCollector):
 
   def finalize(self, chain_id: int):
     """Called after solver finished. """
-    if self._sample_count[chain_id] > 0:
-      self._write_file(chain_id, self._sample_count[chain_id])
+    try:
+      if self._sample_count[chain_id] > 0:
+        self._write_file(chain_id, self._sample_count[chain_id])
+    finally:
+      self._finished[chain_id].set()
 
   def checkpoint(self, chain_id: int, state):
     """Called every nth step. """
@@ -373,8 +379,8 @@ class JSONCollector(DataCollector):
       ujson.dump(samples_as_list, file) # pylint: disable=c-extension-no-member
 
   def finished(self, chain_id: int):
-    """Simply return, nothing to wait for. """
-    return None
+    """Returns after everything has been written to the file. """
+    self._finished[chain_id].wait()
 
 
 class HDF5Collector(DataCollector):
-- 
2.43.0


From 197ad29630b6b50b400625d716fee910ff4a44cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 25/39] fix: write the npz file before releasing the collected
 samples

---
 jax_sgmc/io.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index cb3fe7f..9aa7eba 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -589,14 +589,16 @@ class MemoryCollector(DataCollector):
 
     """
     # Is called after all host callback calls have been processed
-    self._finished[chain_id].release()
-    if self._dir:
-      output_dir = Path(self._dir)
-      output_file = output_dir / f"chain_{chain_id}.npz"
-      output_dir.mkdir(exist_ok=True)
-      onp.savez(
-        output_file,
-        **dict(zip(self._leafnames[chain_id], self._samples[chain_id])))
+    try:
+      if self._dir:
+        output_dir = Path(self._dir)
+        output_file = output_dir / f"chain_{chain_id}.npz"
+        output_dir.mkdir(exist_ok=True)
+        onp.savez(
+          output_file,
+          **dict(zip(self._leafnames[chain_id], self._samples[chain_id])))
+    finally:
+      self._finished[chain_id].release()
 
   def finished(self, chain_id):
     """Returns samples after all data has been processed.
-- 
2.43.0


From f0113216a72d15907d1f6afb5c269b59a7a5c720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 26/39] fix: assign unique chain ids if chains are registered
 concurrently

---
 jax_sgmc/data/numpy_loader.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/jax_sgmc/data/numpy_loader.py b/jax_sgmc/data/numpy_loader.py
index 9de3b6b..e9ab3b8 100644
--- a/jax_sgmc/data/numpy_loader.py
+++ b/jax_sgmc/data/numpy_loader.py
@@ -22,6 +22,7 @@ from copy import deepcopy
 
 import math
 import itertools
+import threading
 from typing import Tuple, Any, Dict, List
 
 import numpy as onp
@@ -36,6 +37,9 @@ from jax_sgmc.util import Array
 
 PyTree = Any
 
+# Chains can be registered concurrently from multiple threads
+_register_lock = threading.Lock()
+
 class NumpyBase(DataLoader):
 
   def __init__(self, on_device: bool = True, copy=True, **reference_data):
@@ -258,7 +262,9 @@ class NumpyDataLoader(NumpyBase, HostDataLoader):
     if not shuffle and in_epochs:
       raise ValueError("in_epochs = True can only be used for shuffle = True.")
 
-    chain_id = len(self._chains)
+    with _register_lock:
+      chain_id = len(self._chains)
+      self._chains.append(None)
 
     seed = kwargs.get("seed", chain_id)
     rng = onp.random.default_rng(
@@ -278,7 +284,7 @@ class NumpyDataLoader(NumpyBase, HostDataLoader):
                  'mb_size': mb_size,
                  'cache_size': cache_size}
 
-    self._chains.append(new_chain)
+    self._chains[chain_id] = new_chain
     return chain_id
 
   def register_ordered_pipeline(self,
@@ -300,7 +306,9 @@ class NumpyDataLoader(NumpyBase, HostDataLoader):
     assert mb_size <= self._observation_count, \
       (f"The batch size cannot be bigger than the observation count. Provided "
        f"{mb_size} and {self._observation_count}")
-    chain_id = len(self._chains)
+    with _register_lock:
+      chain_id = len(self._chains)
+      self._chains.append(None)
 
     new_chain = {'type': 'ordered',
                  'rng': None,
@@ -308,7 +316,7 @@ class NumpyDataLoader(NumpyBase, HostDataLoader):
                  'mb_size': mb_size,
                  'cache_size': cache_size}
 
-    self._chains.append(new_chain)
+    self._chains[chain_id] = new_chain
     return chain_id
 
   def get_batches(self, chain_id: int) -> PyTree:
-- 
2.43.0


From 9ac7371e7e419cf87803ae6969628e8c6e56f69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 27/39] fix: assign unique chain ids to concurrently registered
 tensorflow pipelines

---
 jax_sgmc/data/tensorflow_loader.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/jax_sgmc/data/tensorflow_loader.py b/jax_sgmc/data/tensorflow_loader.py
index 5bc2dcd..4090cab 100644
--- a/jax_sgmc/data/tensorflow_loader.py
+++ b/jax_sgmc/data/tensorflow_loader.py
@@ -24,6 +24,8 @@ Note:
 
 """
 
+import threading
+
 from typing import List, Any
 
 import jax
@@ -36,6 +38,9 @@ import tensorflow_datasets as tfds
 from jax_sgmc.data.core import HostDataLoader
 
 PyTree = Any
+
+# Chains can be registered concurrently from multiple threads
+_register_lock = threading.Lock()
 TFDataSet = tfd.Dataset
 
 class TensorflowDataLoader(HostDataLoader):
@@ -100,7 +105,9 @@ class TensorflowDataLoader(HostDataLoader):
     # initial state of the tensorflow data loader
     assert kwargs == {}, "Tensorflow data loader does not accept additional "\
                          "kwargs"
-    new_chain_id = len(self._pipelines)
+    with _register_lock:
+      new_chain_id = len(self._pipelines)
+      self._pipelines.append(None)
 
     # Randomly draw a number of cache_size mini_batches, where each mini_batch
     # contains self.mini_batch_size elements.
@@ -114,7 +121,7 @@ class TensorflowDataLoader(HostDataLoader):
     # random_data = tfds.as_numpy(random_data)
     random_data = iter(random_data)
 
-    self._pipelines.append(random_data)
+    self._pipelines[new_chain_id] = random_data
 
     return new_chain_id
 
-- 
2.43.0


From 3fb926ea7ab2cfa5155b9033810975a80ab0ab20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 28/39] fix: run multiple chains of the alias solvers with
 different noise

---
 jax_sgmc/alias.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/jax_sgmc/alias.py b/jax_sgmc/alias.py
index 46da60b..7a06d50 100644
--- a/jax_sgmc/alias.py
+++ b/jax_sgmc/alias.py
@@ -23,10 +23,17 @@ import warnings
 from functools import partial
 from typing import Any, Union
 
+from jax import random
+
 from jax_sgmc import data, potential, adaption, integrator, scheduler, solver, io
 
 Pytree = Any
 
+def _init_chains(init_fn, *init_args):
+  # Each chain requires its own source of randomness
+  return [init_fn(*args, key=random.PRNGKey(idx))
+          for idx, args in enumerate(zip(*init_args))]
+
 def sgld(potential_fn: potential.minibatch_potential,
          data_loader: data.DataLoader,
          cache_size: int = 512,
@@ -115,7 +122,7 @@ def sgld(potential_fn: potential.minibatch_potential,
         'lmbd': lmbd,
       },
       init_model_state=init_model_state)
-    states = map(init_with_adaption_kwargs, init_samples)
+    states = _init_chains(init_with_adaption_kwargs, init_samples)
     return mcmc(*states, iterations=iterations)
   return run_fn
 
@@ -201,7 +208,7 @@ def re_sgld(potential_fn: potential.minibatch_potential,
     init_resgld_fn = partial(
       resgld_solver[0],
       init_model_state=init_model_state)
-    states = map(init_resgld_fn, *zip(*init_samples))
+    states = _init_chains(init_resgld_fn, *zip(*init_samples))
     return mcmc(*states,
                 iterations=iterations,
                 schedulers=[{'temperature': {'tau': temperature}}])
@@ -323,7 +330,7 @@ def amagold(stochastic_potential_fn: potential.StochasticPotential,
     init_amagold_fn = partial(
       amagold_solver[0],
       init_model_state = init_model_state)
-    states = map(init_amagold_fn, init_samples)
+    states = _init_chains(init_amagold_fn, init_samples)
     return mcmc(*states, iterations=iterations)
   return run_fn
 
@@ -444,7 +451,7 @@ def sggmc(stochastic_potential_fn: potential.StochasticPotential,
 
   def run_fn(*init_samples, init_model_state: Pytree = None, iterations=1000):
     init_sggmc_fn = partial(sggmc_solver[0], init_model_state=init_model_state)
-    states = map(init_sggmc_fn, init_samples)
+    states = _init_chains(init_sggmc_fn, init_samples)
     return mcmc(*states, iterations=iterations)
   return run_fn
 
@@ -535,7 +542,7 @@ def sghmc(potential_fn: potential.minibatch_potential,
 
   def run_fn(*init_samples, init_model_state: Pytree = None, iterations = 1000):
     init_sghmc_fn = partial(sghmc_solver[0], init_model_state=init_model_state)
-    states = map(init_sghmc_fn, init_samples)
+    states = _init_chains(init_sghmc_fn, init_samples)
     return mcmc(*states, iterations=iterations)
   return run_fn
 
@@ -614,6 +621,6 @@ def obabo(potential_fn: potential.minibatch_potential,
 
   def run_fn(*init_samples, init_model_state: Pytree = None, iterations = 1000):
     init_sghmc_fn = partial(sghmc_solver[0], init_model_state=init_model_state)
-    states = map(init_sghmc_fn, init_samples)
+    states = _init_chains(init_sghmc_fn, init_samples)
     return mcmc(*states, iterations=iterations)
   return run_fn
-- 
2.43.0


From e343b7e92bfcb2ca6f86498643d3f92f59efc8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:54 +0000
Subject: [PATCH 29/39] fix: keep the noise finite if the gradient noise
 exceeds the friction

---
 jax_sgmc/adaption.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jax_sgmc/adaption.py b/jax_sgmc/adaption.py
index 658ad0d..c7ed887 100644
--- a/jax_sgmc/adaption.py
+++ b/jax_sgmc/adaption.py
@@ -435,7 +435,13 @@ def fisher_information(minibatch_potential: Callable = None,
       # Correct for negative eigenvalues
       correction = friction - b
       smallest_positive = jnp.min(jnp.where(correction <= 0, jnp.inf, correction))
+      # No noise has to be injected if the gradient noise always exceeds the
+      # friction
+      smallest_positive = jnp.where(
+        jnp.isinf(smallest_positive), 0.0, smallest_positive)
       positive_correction = jnp.where(correction <= 0, smallest_positive, correction)
+      # The injected noise must not exceed the friction
+      positive_correction = jnp.minimum(positive_correction, friction)
 
       # Apply the corrections to b
       b_corrected = friction - positive_correction
-- 
2.43.0


From 30d9c36f1c0bf2a7266e20190e9459f32985c820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:57 +0000
Subject: [PATCH 30/39] fix: Reject diverged proposals in AMAGOLD and SGGMC

---
 jax_sgmc/solver.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/solver.py b/jax_sgmc/solver.py
index b099480..2664933 100644
--- a/jax_sgmc/solver.py
+++ b/jax_sgmc/solver.py
@@ -381,8 +381,9 @@ def amagold(integrator_fn,
       full_data_map_fn,
       state=proposal.model_state)
 
-    # Limit acceptance ratio to 1.0
+    # Limit acceptance ratio to 1.0 and reject diverged proposals
     log_alpha = state.potential - new_potential + proposal.potential
+    log_alpha = jnp.where(jnp.isnan(log_alpha), -jnp.inf, log_alpha)
     log_alpha = jnp.where(log_alpha > 0.0, 0.0, log_alpha)
     slice = random.uniform(split)
 
@@ -521,6 +522,8 @@ def sggmc(integrator_fn,
     log_alpha = - 1.0 / schedule.temperature * (
       new_potential - state.potential
       + proposal.kinetic_energy_end - proposal.kinetic_energy_start)
+    # Reject diverged proposals
+    log_alpha = jnp.where(jnp.isnan(log_alpha), -jnp.inf, log_alpha)
     # Limit the probability to 1.0 to ensure correct calculation of acceptance
     # ratio statistics.
     log_alpha = jnp.where(log_alpha <= 0, log_alpha, 0.0)
-- 
2.43.0


From 79036b7774f2749ae721e1f58662b0e17f15a1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:27 +0000
Subject: [PATCH 31/39] fix: Run without any kept sample on the device

---
 jax_sgmc/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index 9aa7eba..a3017da 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -846,6 +846,9 @@ def no_save() -> Saving:
     return saving_state(chain_id=0, saved_samples=0, data=init_data)
 
   def _update_data_leaf(idx, data_leaf, new_slice):
+    # Indexing an array of size zero is an error, even if it is never executed
+    if data_leaf.shape[0] == 0:
+      return data_leaf
     return data_leaf.at[idx].set(new_slice)
 
   def _save_sample(args):
-- 
2.43.0


From 7d71bd72a763015e3c285dfe9e10dfc5d77dc7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:00 +0000
Subject: [PATCH 32/39] fix: Default number of iterations is an integer

---
 jax_sgmc/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_sgmc/solver.py b/jax_sgmc/solver.py
index 2664933..49ceb0b 100644
--- a/jax_sgmc/solver.py
+++ b/jax_sgmc/solver.py
@@ -161,7 +161,7 @@ def mcmc(solver,
 
   def run(*states: Union[PyTree, Tuple[PyTree]],
           schedulers: Union[Dict, Tuple[Dict]] = None,
-          iterations: int = 1e5):
+          iterations: int = 100000):
     if strategy == "map":
       def run_single():
         for state in states:
-- 
2.43.0


From e9e0fafb906f4b906a0ed7f0942b281fcc64bbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:00 +0000
Subject: [PATCH 33/39] fix: Progress bar counts the samples which are actually
 collected

---
 jax_sgmc/scheduler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jax_sgmc/scheduler.py b/jax_sgmc/scheduler.py
index 2116938..491e99c 100644
--- a/jax_sgmc/scheduler.py
+++ b/jax_sgmc/scheduler.py
@@ -193,12 +193,13 @@ def init_scheduler(step_size: specific_scheduler = None,
 
     if progress_bar:
       # The burn in and thinning state are required to count the number of
-      # collected samples
+      # collected samples. The decision whether the sample of this iteration is
+      # saved has been based on the states before the update.
       progress_bar_state = update_progress_bar(
         state.progress_bar_state,
         iteration,
-        burn_in_state,
-        thinning_state,
+        state.burn_in_state,
+        state.thinning_state,
         **kwargs)
     else:
       progress_bar_state = None
-- 
2.43.0


From 24be461853db5981edf2ef96d02665da14526a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:14 +0000
Subject: [PATCH 34/39] fix: Name the leaves of pytrees with empty lists and
 tuples

---
 jax_sgmc/io.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index a3017da..b8cad98 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -177,11 +177,10 @@ def pytree_dict_keys(tree: PyTree):
     tree_util.tree_unflatten(treedef, list(range(len(leaves)))))
   key_list = [None] * len(leaves)
   def _recurse(node, path):
-    if node is None:
-      return
-    elif isinstance(node, int):
+    if isinstance(node, int):
       key_list[node] = path
-    else:
+    elif isinstance(node, dict):
+      # Other nodes are empty and contain no leaves
       for key, value in node.items():
         _recurse(value, path + [key])
   _recurse(idx_tree, [])
-- 
2.43.0


From e50f6f31aa70855e6ffd3d253bef3dc1b12e41f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:38 +0000
Subject: [PATCH 35/39] fix: impossible observations which are masked do not
 make the potential NaN

---
 jax_sgmc/potential.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/potential.py b/jax_sgmc/potential.py
index 696e278..1f6c653 100644
--- a/jax_sgmc/potential.py
+++ b/jax_sgmc/potential.py
@@ -184,7 +184,9 @@ def minibatch_potential(prior: Prior,
     if mask is None:
       stochastic_potential = - N * jnp.mean(batch_likelihoods, axis=0)
     else:
-      stochastic_potential = - N / n * jnp.dot(batch_likelihoods, mask)
+      # Multiplying with the mask would not remove infinite likelihoods
+      stochastic_potential = - N / n * jnp.sum(
+        jnp.where(mask, batch_likelihoods, 0.0))
     return stochastic_potential, batch_likelihoods, new_state
 
   @partial(named_call, name='evaluate_stochastic_potential')
-- 
2.43.0


From 3c41a661ee9c5502f24f9e5624229e9045d2332b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:16 +0000
Subject: [PATCH 36/39] fix: refuse constant schedules with step sizes which
 are not positive

---
 jax_sgmc/scheduler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jax_sgmc/scheduler.py b/jax_sgmc/scheduler.py
index 491e99c..9c6e66e 100644
--- a/jax_sgmc/scheduler.py
+++ b/jax_sgmc/scheduler.py
@@ -532,6 +532,7 @@ def polynomial_step_size_first_last(first: [float, Array] = 1.0,
     assert gamma > 0, f"Gamma must be bigger than 0, is {gamma}"
     assert first >= last, f"The first step size must be larger than the last:" \
                          f" {first} !>= {last}"
+    assert last > 0, f"The step sizes must be positive: last = {last}"
     if iterations == 1 or first == last:
       # The schedule does not decay, so the polynomial is not defined
       return jnp.full((int(iterations),), first, dtype=float)
-- 
2.43.0


From 098332e39cd537bfd1aa137ddb86edb6582ba544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:15 +0000
Subject: [PATCH 37/39] fix: show the progress of vectorized chains instead of
 crashing

---
 jax_sgmc/scheduler.py | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/jax_sgmc/scheduler.py b/jax_sgmc/scheduler.py
index 9c6e66e..8412935 100644
--- a/jax_sgmc/scheduler.py
+++ b/jax_sgmc/scheduler.py
@@ -312,16 +312,23 @@ def _progress_bar(burn_in: specific_scheduler,
   """
 
   def _print_fn(info, _):
-    percentage = round(
-      int(info['current_iteration']) / int(info['total_iterations']) * 100)
-    total_samples = int(info["total_samples"])
-    collected_samples = int(info["collected_samples"])
-    current_iteration = int(info["current_iteration"])
-    total_iterations = int(info["total_iterations"])
-
-    print(f"[Step {current_iteration}/{total_iterations}]"
-          f"({percentage}%) Collected {collected_samples} of "
-          f"{total_samples} samples...")
+    # The information is batched if the chains are vectorized. Moreover,
+    # cond is then replaced by select, such that this function is called for all
+    # chains in each iteration.
+    columns = onp.broadcast_arrays(*[
+      onp.ravel(info[name]) for name in (
+        "print", "current_iteration", "total_iterations", "collected_samples",
+        "total_samples")])
+    for print_now, *values in zip(*columns):
+      if not print_now:
+        continue
+      (current_iteration, total_iterations, collected_samples,
+       total_samples) = map(int, values)
+      percentage = round(current_iteration / total_iterations * 100)
+
+      print(f"[Step {current_iteration}/{total_iterations}]"
+            f"({percentage}%) Collected {collected_samples} of "
+            f"{total_samples} samples...")
 
   def init_fn(iterations: Array,
               num_samples: Array,
@@ -346,7 +353,12 @@ def _progress_bar(burn_in: specific_scheduler,
     saved = sample_burn_in * sample_accepted
     collected_samples += saved
 
+    # Calculate number of steps until the progress should be printed out
+    num_its = jnp.int_(jnp.floor(iterations / steps))
+    print_now = jnp.logical_and(jnp.mod(iteration, num_its) == 0, enabled)
+
     info = {
+      "print": print_now,
       "total_iterations": iterations,
       "current_iteration": iteration,
       "total_samples": tot_samples,
@@ -354,12 +366,9 @@ def _progress_bar(burn_in: specific_scheduler,
       "kwargs": kwargs
     }
 
-    # Calculate number of steps until the progress should be printed out
-    num_its = jnp.int_(jnp.floor(iterations / steps))
-
     # Return the number of collected samples as result of id_tap
     collected_samples = lax.cond(
-      jnp.logical_and(jnp.mod(iteration, num_its) == 0, enabled),
+      print_now,
       lambda arg: hcb.id_tap(_print_fn, arg, result=collected_samples),
       lambda arg: info["collected_samples"],
       info
-- 
2.43.0


From e6afc96c32f836d9b54c94b686af0727fb2613f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:31 +0000
Subject: [PATCH 38/39] fix: refuse HDF5 datasets with different numbers of
 samples

---
 jax_sgmc/data/hdf5_loader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jax_sgmc/data/hdf5_loader.py b/jax_sgmc/data/hdf5_loader.py
index 4278d95..f0d1d02 100644
--- a/jax_sgmc/data/hdf5_loader.py
+++ b/jax_sgmc/data/hdf5_loader.py
@@ -60,6 +60,9 @@ class HDF5Loader(NumpyDataLoader):
 
     observations_counts = [len(self._dataset[leaf_name])
                            for leaf_name in self._reference_data]
+    # Check same number of observations
+    if any(count != observations_counts[0] for count in observations_counts):
+      raise ValueError("All leaves must have the same number of samples.")
     self._observation_count = observations_counts[0]
 
   def get_batches(self, chain_id: int) -> PyTree:
-- 
2.43.0


From 9b392e1459f257efb19ab83b49010f91cddbf5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:31 +0000
Subject: [PATCH 39/39] fix: refuse samples whose leaves have no unique name in
 the npz file

---
 jax_sgmc/io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index b8cad98..87dc960 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -558,13 +558,17 @@ class MemoryCollector(DataCollector):
       pytree_keys = pytree_dict_keys(init_sample)
     else:
       pytree_keys = [f"leaf~{idx}" for idx in range(len(leaves))]
+    leaf_names = ["/".join(key_tuple) for key_tuple in pytree_keys]
+    # Leaves with the same name would overwrite each other in the file
+    if len(set(leaf_names)) != len(leaf_names):
+      raise ValueError(f"The names of the leaves are not unique: {leaf_names}")
 
     self._finished.append(threading.Lock())
     self._finished[chain_id].acquire()
     self._samples.append(sample_cache)
     self._treedefs.append(treedef)
     self._samples_count.append(0)
-    self._leafnames.append(["/".join(key_tuple) for key_tuple in pytree_keys])
+    self._leafnames.append(leaf_names)
     return chain_id
 
   def save(self, chain_id: int, values):
-- 
2.43.0

