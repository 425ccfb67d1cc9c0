From 89191081f77e99b3895b7972de645d5dddb781c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:34 +0000
Subject: [PATCH 01/39] fix: draw the Hamming ball auxiliary variable uniformly
 from the ball

---
 discs/samplers/hammingball.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discs/samplers/hammingball.py b/discs/samplers/hammingball.py
index 464d45c..715f467 100644
--- a/discs/samplers/hammingball.py
+++ b/discs/samplers/hammingball.py
@@ -29,7 +29,10 @@ class HammingBallSampler(abstractsampler.AbstractSampler):
           * (self.num_categories - 1) ** (j + 1)
           for j in range(self.hamming)
       ]
-    self.hamming_logit = jnp.array(self.hamming_logit + num_samples_per_hamming)
+    # each point of the ball is equally likely: logits are log counts
+    self.hamming_logit = jnp.log(
+        jnp.array(self.hamming_logit + num_samples_per_hamming)
+    )
     self.choose_index_vmapped = jax.vmap(self.choose_index, in_axes=[0, None])
 
   def choose_index(self, rng, arr):
-- 
2.43.0


From b65a1aadfb19a5d3eafd0a1f4d052a19c9ea3fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:34 +0000
Subject: [PATCH 02/39] fix: categorical GWG proposal likelihood mixed the
 chains of a batch

---
 discs/samplers/gwg.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/discs/samplers/gwg.py b/discs/samplers/gwg.py
index 656201c..e657d80 100644
--- a/discs/samplers/gwg.py
+++ b/discs/samplers/gwg.py
@@ -163,11 +163,7 @@ class CategoricalGWGSampler(GibbsWithGradSampler):
     return y, {'x2y': idx, 'y2x': idx_y2x}
 
   def get_ll_onestep(self, dist, aux, src_to_dst):
-    ll = dist[
-        jnp.expand_dims(jnp.arange(dist.shape[0]), axis=1), aux[src_to_dst]
-    ]
-    ll = jnp.sum(ll, axis=-1)
-    return ll
+    return dist[jnp.arange(dist.shape[0]), aux[src_to_dst]]
 
 
 def build_sampler(config):
-- 
2.43.0


From 3300eb993c6f52f155cf01c1a45c7e050257e5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:34 +0000
Subject: [PATCH 03/39] fix: count the new values' probability in the
 non-adaptive categorical PAS proposal

---
 discs/samplers/path_auxiliary.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discs/samplers/path_auxiliary.py b/discs/samplers/path_auxiliary.py
index 36307ac..0d1fdac 100644
--- a/discs/samplers/path_auxiliary.py
+++ b/discs/samplers/path_auxiliary.py
@@ -125,6 +125,7 @@ class PAFSNoReplacement(PathAuxiliarySampler):
         rng, _ = jax.random.split(rng)
         new_val = jax.random.categorical(rng, val_logprob)
         new_val = jax.nn.one_hot(new_val, self.num_categories)
+        ll_selected = ll_selected + jnp.sum(new_val * val_logprob, axis=-1)
       else:
         new_val = 1 - x[rows, selected_idx]
       y = x.at[rows, selected_idx].set(new_val)
-- 
2.43.0


From d224ab72a2f00353e1cfad66f9388afd09146e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:34 +0000
Subject: [PATCH 04/39] fix: keep the adapted DMALA/DLMC step size finite when
 the update turns negative

---
 discs/samplers/dlmc.py  | 2 +-
 discs/samplers/dmala.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/samplers/dlmc.py b/discs/samplers/dlmc.py
index 6bc7014..d4d599c 100644
--- a/discs/samplers/dlmc.py
+++ b/discs/samplers/dlmc.py
@@ -27,7 +27,7 @@ class DLMCSampler(locallybalanced.LocallyBalancedSampler):
 
     n = jnp.exp(state['log_tau'] + log_z)
     n = n + 3 * (acc - self.target_acceptance_rate)
-    state['log_tau'] = jnp.clip(jnp.log(n) - log_z, a_min=-log_z)
+    state['log_tau'] = jnp.log(jnp.clip(n, a_min=1.0)) - log_z
     state['log_z'] = log_z
 
   def select_sample(
diff --git a/discs/samplers/dmala.py b/discs/samplers/dmala.py
index 8145938..10a2081 100644
--- a/discs/samplers/dmala.py
+++ b/discs/samplers/dmala.py
@@ -28,7 +28,7 @@ class DMALASampler(locallybalanced.LocallyBalancedSampler):
     # updating tau
     n = jnp.exp(state['log_tau'] + log_z)
     n = n + 3 * (acc - self.target_acceptance_rate)
-    state['log_tau'] = jnp.clip(jnp.log(n) - log_z, a_min=-log_z)
+    state['log_tau'] = jnp.log(jnp.clip(n, a_min=1.0)) - log_z
     state['log_z'] = log_z
 
   def select_sample(
-- 
2.43.0


From 20720d34e88be873d61dfb5281ad79c2e87a6426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:58 +0000
Subject: [PATCH 05/39] fix: Ising energy truncated couplings to integers for
 integer samples

---
 discs/models/ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/models/ising.py b/discs/models/ising.py
index 2a7aa0e..dbdd01c 100644
--- a/discs/models/ising.py
+++ b/discs/models/ising.py
@@ -48,7 +48,7 @@ class Ising(abstractmodel.AbstractModel):
     w_h = params[0][:, :-1]
     w_v = params[1][:-1, :]
     w_b = params[2]
-    message = jnp.zeros_like(x)
+    message = jnp.zeros_like(x, dtype=w_b.dtype)
     message = message.at[:, :-1, :].set(
         message[:, :-1, :] + (2 * x[:, 1:, :] - 1) * w_v
     )
-- 
2.43.0


From b5df6cc1457279f41827994f54d868d0d900591a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:58 +0000
Subject: [PATCH 06/39] fix: categorical FHMM transition rows must sum to one

---
 discs/models/fhmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/models/fhmm.py b/discs/models/fhmm.py
index 281ea16..39e4b66 100644
--- a/discs/models/fhmm.py
+++ b/discs/models/fhmm.py
@@ -97,7 +97,7 @@ class CategFHMM(FHMM):
     beta = jnp.eye(self.num_categories) * (
         self.beta - (1 - self.beta) / (self.num_categories - 1)
     )
-    beta += (1 - beta) / (self.num_categories - 1)
+    beta += (1 - self.beta) / (self.num_categories - 1)
     self.beta = beta
     self.log_beta = jnp.log(beta)
 
-- 
2.43.0


From 2ff2ada1da6ed9343e8e12e23778da0e3ee75659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:58 +0000
Subject: [PATCH 07/39] fix: categorical FHMM took integer samples for one-hot
 when K equals the number of categories

---
 discs/models/fhmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/models/fhmm.py b/discs/models/fhmm.py
index 39e4b66..b89516b 100644
--- a/discs/models/fhmm.py
+++ b/discs/models/fhmm.py
@@ -163,7 +163,7 @@ class CategFHMM(FHMM):
     y = params['y']
     alpha = params['alpha']
 
-    if x.shape[-1] != self.num_categories:
+    if len(x.shape) - 1 == len(self.shape):
       x = jax.nn.one_hot(x, self.num_categories)
     x = x.reshape(-1, self.l, self.k, self.num_categories)
     x_0 = x[:, 0]
-- 
2.43.0


From 98941d3dbf11862aef55ad657f3fe60aa1408284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:58 +0000
Subject: [PATCH 08/39] fix: count random walk steps and leave the caller's
 sampler state alone

---
 discs/samplers/randomwalk.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discs/samplers/randomwalk.py b/discs/samplers/randomwalk.py
index 7d06d76..c1c8419 100644
--- a/discs/samplers/randomwalk.py
+++ b/discs/samplers/randomwalk.py
@@ -1,6 +1,7 @@
 """Random Walk Sampler Class."""
 
 from discs.common import math_util as math
+from discs.common import utils
 from discs.samplers import abstractsampler
 import jax
 from jax import random
@@ -55,6 +56,7 @@ class RWSampler(RandomWalkSampler):
       self, rng, log_acc, current_sample, new_sample, sampler_state
   ):
     y, acc = math.mh_step(rng, log_acc, current_sample, new_sample)
+    sampler_state = self.update_sampler_state(utils.copy_pytree(sampler_state))
     sampler_state['num_ll_calls'] += 2
     sampler_state['acceptance_rate'] = jnp.mean(acc.astype(jnp.float32))
     return y.astype(jnp.int32), sampler_state
-- 
2.43.0


From 31ad302d6dced5fb3fcf0ba9f8fd3114d38fb056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:58 +0000
Subject: [PATCH 09/39] fix: samplers must not modify the sampler state passed
 to step

---
 discs/samplers/blockgibbs.py | 3 ++-
 discs/samplers/dlmc.py       | 2 ++
 discs/samplers/gibbs.py      | 3 ++-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/discs/samplers/blockgibbs.py b/discs/samplers/blockgibbs.py
index 2633d55..d406286 100644
--- a/discs/samplers/blockgibbs.py
+++ b/discs/samplers/blockgibbs.py
@@ -2,6 +2,7 @@
 
 from itertools import product
 from discs.common import math_util as math
+from discs.common import utils
 from discs.samplers import abstractsampler
 import jax
 from jax import random
@@ -67,7 +68,7 @@ class BlockGibbsSampler(abstractsampler.AbstractSampler):
     loglikelihood = get_ll_at_block(indices_to_flip, x, model_param)
     new_x = select_new_samples(rng, loglikelihood, x, indices_to_flip)
 
-    new_state = self.update_sampler_state(state)
+    new_state = self.update_sampler_state(utils.copy_pytree(state))
     return new_x, new_state, 1
 
 
diff --git a/discs/samplers/dlmc.py b/discs/samplers/dlmc.py
index d4d599c..87dcede 100644
--- a/discs/samplers/dlmc.py
+++ b/discs/samplers/dlmc.py
@@ -1,6 +1,7 @@
 """DLMC Sampler."""
 
 from discs.common import math_util as math
+from discs.common import utils
 from discs.samplers import locallybalanced
 import jax
 import jax.numpy as jnp
@@ -88,6 +89,7 @@ class DLMCSampler(locallybalanced.LocallyBalancedSampler):
 
       log_tau = jnp.where(self.co_opt_prob, local_stats['log_tau'], log_tau)
     else:
+      state = utils.copy_pytree(state)
       state['log_tau'] = jnp.where(
           state['steps'] == 0,
           self.reset_stats(log_rate_x['weights'])['log_tau'],
diff --git a/discs/samplers/gibbs.py b/discs/samplers/gibbs.py
index aa475d4..de5505c 100644
--- a/discs/samplers/gibbs.py
+++ b/discs/samplers/gibbs.py
@@ -1,6 +1,7 @@
 """Gibbs sampler."""
 
 from discs.common import math_util as math
+from discs.common import utils
 from discs.samplers import abstractsampler
 import jax
 import jax.numpy as jnp
@@ -54,7 +55,7 @@ class GibbsSampler(abstractsampler.AbstractSampler):
 
     index = state['index']
     new_x = compute_next_x(rng, init_ll, x, index)
-    new_state = self.update_sampler_state(state)
+    new_state = self.update_sampler_state(utils.copy_pytree(state))
     return new_x, new_state, 1
 
 
-- 
2.43.0


From a4f0dfac9e62f26316b09bfeb107cf4829c94624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:21 +0000
Subject: [PATCH 10/39] fix: Hamming ball chains of a batch shared one radius
 draw

---
 discs/samplers/hammingball.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discs/samplers/hammingball.py b/discs/samplers/hammingball.py
index 715f467..bb077f4 100644
--- a/discs/samplers/hammingball.py
+++ b/discs/samplers/hammingball.py
@@ -76,7 +76,9 @@ class HammingBallSampler(abstractsampler.AbstractSampler):
     _ = x_mask
     x_shape = x.shape
     x = x.reshape(x.shape[0], -1)
-    rad = jax.random.categorical(rng1, self.hamming_logit)
+    rad = jax.random.categorical(
+        rng1, self.hamming_logit, shape=(x.shape[0], 1)
+    )
     start_index = state['index']
     block = start_index + jnp.arange(self.block_size)
     u = jnp.where(rad, self.compute_u(rng2, x, block), x)
-- 
2.43.0


From 3130a5c061d55ae648b1a58020bced2019a5155f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:49 +0000
Subject: [PATCH 11/39] fix: categorical RBM could not be built or initialised
 without trained parameters

---
 discs/models/rbm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discs/models/rbm.py b/discs/models/rbm.py
index ce23179..6aa18e6 100644
--- a/discs/models/rbm.py
+++ b/discs/models/rbm.py
@@ -130,6 +130,8 @@ class RBM(deep_ebm.DeepEBM):
       return self.params
     model_rng, sample_rng = jax.random.split(rng)
     v = self.get_init_samples(sample_rng, 1)
+    if self.num_categories != 2:
+      v = jax.nn.one_hot(v, self.num_categories)
     return self.net.init({'params': model_rng}, v=v)['params']
 
   def forward(self, params, x):
@@ -194,7 +196,7 @@ class CategoricalRBM(RBM):
     if data_mean is None:
       return functools.partial(
           jax.random.categorical,
-          logits=jnp.log(jnp.ones(self.num_visible, self.num_categories)),
+          logits=jnp.log(jnp.ones((self.num_visible, self.num_categories))),
       )
     else:
       logits = jnp.log(data_mean)
-- 
2.43.0


From 138d54bbd8c2bb22c92b721fdacf069fd0f71138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:22 +0000
Subject: [PATCH 12/39] fix: categorical FHMM drew the initial law and the
 initial state from one key

---
 discs/models/fhmm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/models/fhmm.py b/discs/models/fhmm.py
index b89516b..5c204b3 100644
--- a/discs/models/fhmm.py
+++ b/discs/models/fhmm.py
@@ -112,8 +112,8 @@ class CategFHMM(FHMM):
 
   def make_init_params(self, rnd):
     rnd = rnd.reshape(-1)
-    rng1, rng2, rng3, rng4 = jax.random.split(rnd, 4)
-    alpha = jax.random.uniform(rng1, [self.num_categories])
+    rng1, rng2, rng3, rng4, rng5 = jax.random.split(rnd, 5)
+    alpha = jax.random.uniform(rng5, [self.num_categories])
     alpha = alpha.at[0].set(1 - self.alpha)
     alpha = alpha.at[1:].set(self.alpha * alpha[1:] / jnp.sum(alpha[1:]))
     alpha_logits = jnp.log(alpha)
-- 
2.43.0


From 93aade9181acd8cf019a65c3b8a36c3e45ef61d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:09 +0000
Subject: [PATCH 13/39] fix: Bernoulli neighbourhood ratios did not follow the
 interface the samplers use

---
 discs/models/bernoulli.py         | 5 +++--
 discs/samplers/locallybalanced.py | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/discs/models/bernoulli.py b/discs/models/bernoulli.py
index 79ffe46..f322e16 100644
--- a/discs/models/bernoulli.py
+++ b/discs/models/bernoulli.py
@@ -46,7 +46,7 @@ class Bernoulli(abstractmodel.AbstractModel):
     (_, loglikelihood), grad = jax.value_and_grad(fun, has_aux=True)(x)
     return loglikelihood, grad
 
-  def get_neighbor_fn(self, x, neighbhor_idx):
+  def get_neighbor_fn(self, _, x, neighbhor_idx):
     x_shape = x.shape
     x = jnp.reshape(x, (x.shape[0], -1))
     brange = jnp.arange(x.shape[0])
@@ -55,10 +55,11 @@ class Bernoulli(abstractmodel.AbstractModel):
     return jnp.reshape(y, x_shape)
 
   def logratio_in_neighborhood(self, params, x):
+    loglikelihood = self.forward(params, x)
     params = params['params']
     params = jnp.expand_dims(params, axis=0)
     diff = (1 - 2 * x) * params
-    return diff, 1, self.get_neighbor_fn
+    return loglikelihood, diff, 1, self.get_neighbor_fn
 
   def get_expected_val(self, params):
     params = params['params']
diff --git a/discs/samplers/locallybalanced.py b/discs/samplers/locallybalanced.py
index 22fe2e1..ac63b08 100644
--- a/discs/samplers/locallybalanced.py
+++ b/discs/samplers/locallybalanced.py
@@ -69,6 +69,7 @@ class LocallyBalancedSampler(abstractsampler.AbstractSampler):
     _, logratio, num_calls, fn_get_neighbor = model.logratio_in_neighborhood(
         model_param, x)
     logits = self.apply_weight_function_logscale(logratio)
+    logits = jnp.reshape(logits, (logits.shape[0], -1))
     sampled_idx = jax.random.categorical(rng, logits)
     new_x = fn_get_neighbor(model_param, x, sampled_idx)
     new_state = {
-- 
2.43.0


From 81d0715be7e439a46bdbce6d32b773cd22c9e093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:09 +0000
Subject: [PATCH 14/39] fix: MIS neighbourhood ratios counted padded edges and
 omitted the log-likelihood

---
 discs/models/mis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discs/models/mis.py b/discs/models/mis.py
index 24123c9..55fe549 100644
--- a/discs/models/mis.py
+++ b/discs/models/mis.py
@@ -44,7 +44,8 @@ class MIS(comb_ebm.BinaryNodeCombEBM):
     edge_to = params['bidir_edge_to']
 
     gather2dst = x[:, edge_to]
-    diff_penalty = self.penalty_coeff * gather2dst
+    edge_mask = jnp.concatenate((params['edge_mask'], params['edge_mask']))
+    diff_penalty = self.penalty_coeff * gather2dst * edge_mask
     diff_arr = jnp.zeros(x.shape, dtype=diff_penalty.dtype)
     diff_arr = diff_arr.at[jnp.expand_dims(jnp.arange(x.shape[0]), axis=1),
                            edge_from].add(diff_penalty)
@@ -52,7 +53,7 @@ class MIS(comb_ebm.BinaryNodeCombEBM):
     sign = (1 - x * 2) * params['mask']
     logratio = (sign - sign * diff_arr) / params['temperature']
     logratio = logratio * params['mask'] + -1e9 * (1 - params['mask'])
-    return logratio, 1, self.get_neighbor_fn
+    return self.forward(params, x), logratio, 1, self.get_neighbor_fn
 
 
 def build_model(config):
-- 
2.43.0


From ee60a6455d505e34d85ed3eff572f16ad8872f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:09 +0000
Subject: [PATCH 15/39] fix: normalised cut node degrees followed insertion
 order and were not padded

---
 discs/graph_loader/normcut_loader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discs/graph_loader/normcut_loader.py b/discs/graph_loader/normcut_loader.py
index 9bea225..9c9b798 100644
--- a/discs/graph_loader/normcut_loader.py
+++ b/discs/graph_loader/normcut_loader.py
@@ -26,7 +26,10 @@ class NormCutGen(data_common.GraphGenerator):
     )
     num_nodes = len(g)
     params['num_nodes'] = num_nodes
-    params['node_degrees'] = np.array(g.degree)[:, 1].astype(np.float32)
+    node_degrees = np.zeros(self.max_num_nodes, dtype=np.float32)
+    for node, degree in g.degree:
+      node_degrees[node] = degree
+    params['node_degrees'] = node_degrees
     params['mask'] = np.arange(self.max_num_nodes) < num_nodes
     return params
 
-- 
2.43.0


From 4a74caa9aaf5dd0d05a16a16f4af60f630f14dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:33 +0000
Subject: [PATCH 16/39] fix: padded edges entered the normalised cut gradient
 and neighbourhood ratios

---
 discs/models/normcut.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/discs/models/normcut.py b/discs/models/normcut.py
index d94e908..7eab9a7 100644
--- a/discs/models/normcut.py
+++ b/discs/models/normcut.py
@@ -51,7 +51,8 @@ class NormCut(comb_ebm.CombEBM):
     gather2dst = x[:, edge_to]
 
     edge_sum = gather2src + gather2dst
-    cut_sizes = jnp.sum(-edge_sum ** 2 + 2 * edge_sum, axis=1)
+    edge_mask = jnp.expand_dims(params['edge_mask'], -1)
+    cut_sizes = jnp.sum((-edge_sum ** 2 + 2 * edge_sum) * edge_mask, axis=1)
     return cut_sizes
 
   def objective(self, params, x):
@@ -90,12 +91,15 @@ class NormCut(comb_ebm.CombEBM):
     node_degrees = jnp.expand_dims(params['node_degrees'], axis=1)
     gather2src = x[:, edge_from]
     gather2dst = x[:, edge_to]
-    cur_edge_cut = (gather2src + gather2dst) % 2
+    edge_mask = jnp.concatenate((params['edge_mask'], params['edge_mask']))
+    edge_mask = jnp.expand_dims(edge_mask, -1)
+    cur_edge_cut = (gather2src + gather2dst) % 2 * edge_mask
     cur_cut_sizes = jnp.sum(cur_edge_cut, axis=1).astype(jnp.float32) / 2.0
 
     new_choices = jnp.eye(self.num_categories, dtype=jnp.int32)
     new_choices = jnp.expand_dims(new_choices, (0, 1))
     edge_info = (new_choices + jnp.expand_dims(gather2dst, axis=-2)) % 2
+    edge_info = edge_info * jnp.expand_dims(edge_mask, -1)
     edge_delta = edge_info - jnp.expand_dims(cur_edge_cut, axis=-2)
     diff_arr = jnp.zeros(
         (bsize, self.num_nodes, self.num_categories, self.num_categories),
-- 
2.43.0


From 3eeff6a2b37e234d7d7d6625282450ac3dd29440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:36 +0000
Subject: [PATCH 17/39] fix: normalised cut neighbourhood ratios ignored the
 balance penalty

---
 discs/models/normcut.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/discs/models/normcut.py b/discs/models/normcut.py
index 7eab9a7..a99fc12 100644
--- a/discs/models/normcut.py
+++ b/discs/models/normcut.py
@@ -59,9 +59,12 @@ class NormCut(comb_ebm.CombEBM):
     if x.ndim < 3:
       x = jax.nn.one_hot(x, self.num_categories, dtype=jnp.float32)
     cut_sizes = self.get_cut_sizes(params, x)
+    partition_sizes = jnp.sum(x, axis=1)
+    volume = jnp.sum(x * jnp.expand_dims(params['node_degrees'], 1), axis=1)
+    return -self.get_cost(cut_sizes, partition_sizes, volume)
 
+  def get_cost(self, cut_sizes, partition_sizes, volume):
     if self.penalty > 0:
-      partition_sizes = jnp.sum(x, axis=1)
       if self.stype == 'quad':
         ncost = jnp.sum((partition_sizes - self.avg_partition_size) ** 2, -1)
       else:
@@ -72,10 +75,9 @@ class NormCut(comb_ebm.CombEBM):
         ncost = jnp.sum(ub_cost + lb_cost, axis=-1)
       cost = jnp.sum(cut_sizes, axis=-1) + self.penalty * ncost
     else:
-      volume = jnp.sum(x * jnp.expand_dims(params['node_degrees'], 1), axis=1)
       cost = jnp.sum((cut_sizes + self.eps) / (volume + self.eps ** 2),
                      axis=-1)
-    return -cost
+    return cost
 
   def forward(self, params, x):
     obj = self.objective(params, x)
@@ -109,14 +111,16 @@ class NormCut(comb_ebm.CombEBM):
                            jnp.arange(self.num_categories)].add(edge_delta)
     new_cut_sizes = jnp.expand_dims(cur_cut_sizes, (1, 2)) + diff_arr
 
-    diff_volume = (new_choices - jnp.expand_dims(x, axis=-2)) * jnp.expand_dims(
-        node_degrees, axis=-1)
+    diff_size = new_choices - jnp.expand_dims(x, axis=-2)
+    cur_size = jnp.sum(x, axis=1)
+    new_size = jnp.expand_dims(cur_size, (1, 2)) + diff_size
+    diff_volume = diff_size * jnp.expand_dims(node_degrees, axis=-1)
     cur_volume = jnp.sum(x * node_degrees, axis=1)
     new_volume = jnp.expand_dims(cur_volume, (1, 2)) + diff_volume
-    new_obj = -jnp.sum((new_cut_sizes + self.eps) / (
-        new_volume + self.eps ** 2), axis=-1) / params['temperature']
-    cur_obj = -jnp.sum((cur_cut_sizes + self.eps) / (
-        cur_volume + self.eps ** 2), axis=-1) / params['temperature']
+    new_obj = -self.get_cost(
+        new_cut_sizes, new_size, new_volume) / params['temperature']
+    cur_obj = -self.get_cost(
+        cur_cut_sizes, cur_size, cur_volume) / params['temperature']
     log_ratio = new_obj - jnp.expand_dims(cur_obj, axis=(1, 2))
     return cur_obj, log_ratio, 1, None
 
-- 
2.43.0


From bdd2bd9149433a77df71fc2b03d862bca4c3a7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:26 +0000
Subject: [PATCH 18/39] fix: annealing with fewer instances than devices mixed
 up or crashed on the instances

---
 discs/experiment/sampling.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index 9976209..419ee6d 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -81,11 +81,6 @@ class Experiment:
           use_put_replicated = True
           bshape = (jax.local_device_count(), self.config.num_models)
           x_shape = bshape + (batch_size_per_device,) + self.config_model.shape
-          if self.sample_idx:
-            self.sample_idx = jnp.array(
-                [self.sample_idx]
-                * (jax.local_device_count() // self.config.num_models)
-            )
       else:
         bshape = (self.config.num_models,)
         x_shape = bshape + (self.config.batch_size,) + self.config_model.shape
@@ -501,6 +496,12 @@ class CO_Experiment(Experiment):
     obj_fn = jax.vmap(functools.partial(evaluator.evaluate, model=model))
     return obj_fn
 
+  def _models_first(self, vals):
+    """Moves the model axis first when every device runs all the models."""
+    if self.parallel and self.config.num_models < jax.local_device_count():
+      vals = jnp.swapaxes(vals, 0, 1)
+    return vals
+
   def _build_temperature_schedule(self, config):
     """Temperature schedule."""
 
@@ -567,6 +568,7 @@ class CO_Experiment(Experiment):
 
       if step % self.config.log_every_steps == 0:
         eval_val = obj_fn(samples=new_x, params=params)
+        eval_val = self._models_first(eval_val)
         eval_val = eval_val.reshape(self.config.num_models, -1)
         ratio = jnp.max(eval_val, axis=-1).reshape(-1) / self.ref_obj
         is_better = ratio > best_ratio
@@ -580,7 +582,7 @@ class CO_Experiment(Experiment):
         if self.config.save_samples or self.config_model.name == 'normcut':
           step_chosen = jnp.argmax(eval_val, axis=-1, keepdims=True)
           rnew_x = jnp.reshape(
-              new_x,
+              self._models_first(new_x),
               (self.config.num_models, self.config.batch_size)
               + self.config_model.shape,
           )
@@ -616,6 +618,7 @@ class CO_Experiment(Experiment):
       running_time += time.time() - start
       if step % self.config.log_every_steps == 0:
         eval_val = obj_fn(samples=new_x, params=params)
+        eval_val = self._models_first(eval_val)
         eval_val = eval_val.reshape(self.config.num_models, -1)
         ratio = jnp.max(eval_val, axis=-1).reshape(-1) / self.ref_obj
         is_better = ratio > best_ratio
@@ -629,7 +632,7 @@ class CO_Experiment(Experiment):
         if self.config.save_samples or self.config_model.name == 'normcut':
           step_chosen = jnp.argmax(eval_val, axis=-1, keepdims=True)
           rnew_x = jnp.reshape(
-              new_x,
+              self._models_first(new_x),
               (self.config.num_models, self.config.batch_size)
               + self.config_model.shape,
           )
-- 
2.43.0


From ac07169f3ec242a239dacf19cbfad9a15a2fff1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:04 +0000
Subject: [PATCH 19/39] fix: sampling with fewer chains than saved samples
 crashed

Four chains to save are chosen without replacement, even when nothing is
saved; a smaller batch has fewer chains to choose from.
---
 discs/experiment/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index 419ee6d..9222140 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -228,7 +228,7 @@ class Sampling_Experiment(Experiment):
     selected_chains = jax.random.choice(
         rng,
         jnp.arange(self.config.batch_size),
-        shape=(self.num_saved_samples,),
+        shape=(min(self.num_saved_samples, self.config.batch_size),),
         replace=False,
     )
 
-- 
2.43.0


From 0838f51d8c90a7f27eb3caaba62cddc8005b1ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:04 +0000
Subject: [PATCH 20/39] fix: saving the Bernoulli parameters crashed on a
 single device

The leading axis that was dropped is the device axis, which only exists when
the parameters are replicated.
---
 discs/experiment/sampling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index 9222140..c7cc665 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -309,7 +309,10 @@ class Sampling_Experiment(Experiment):
       ):
         saver.dump_samples(samples, visualize=False)
         # samples= np.array(samples)
-        params = params['params'][0].reshape(self.config_model.shape)
+        params = params['params']
+        if self.parallel:
+          params = params[0]
+        params = params.reshape(self.config_model.shape)
         saver.dump_params(params)
         # saver.plot_estimation_error(model, params, samples)
 
-- 
2.43.0


From fc57046044dfe6d9b69ead5910c2bb4bfb1c7e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:04 +0000
Subject: [PATCH 21/39] fix: every infilled sentence was sampled with the same
 random key

The key number that is advanced for each sentence was never handed to the
preprocessing.
---
 discs/experiment/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index c7cc665..b5e4154 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -183,7 +183,7 @@ class Experiment:
   ):
     """Sets up the model and the samlping alg and gets the chain of samples."""
     preprocessed_info = self.preprocess(
-        model, sampler, evaluator, saver, rnd_key=0
+        model, sampler, evaluator, saver, rnd_key=rnd_key
     )
     if not preprocessed_info:
       return False
@@ -375,7 +375,7 @@ class Text_Infilling_Experiment(Sampling_Experiment):
       self, model, sampler, evaluator, saver, rnd_key=0
   ):
     preprocessed_info = self.preprocess(
-        model, sampler, evaluator, saver, rnd_key=0
+        model, sampler, evaluator, saver, rnd_key=rnd_key
     )
     if not preprocessed_info:
       return False, None, None
-- 
2.43.0


From 00a8b0329ef063d98544beb324ff24af41050383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:12 +0000
Subject: [PATCH 22/39] fix: RBM and ResNet without trained parameters could
 not be sampled

The experiments hand over the keys of their models with a leading axis of
length one, as the factorial HMM already expects.
---
 discs/models/rbm.py    | 2 +-
 discs/models/resnet.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/models/rbm.py b/discs/models/rbm.py
index 6aa18e6..b1d3191 100644
--- a/discs/models/rbm.py
+++ b/discs/models/rbm.py
@@ -128,7 +128,7 @@ class RBM(deep_ebm.DeepEBM):
   def make_init_params(self, rng):
     if self.params:
       return self.params
-    model_rng, sample_rng = jax.random.split(rng)
+    model_rng, sample_rng = jax.random.split(rng.reshape(-1))
     v = self.get_init_samples(sample_rng, 1)
     if self.num_categories != 2:
       v = jax.nn.one_hot(v, self.num_categories)
diff --git a/discs/models/resnet.py b/discs/models/resnet.py
index a513594..6be2e1e 100644
--- a/discs/models/resnet.py
+++ b/discs/models/resnet.py
@@ -104,7 +104,7 @@ class ImageEBM(deep_ebm.DeepEBM):
   def make_init_params(self, rng):
     if self.params:
       return self.params
-    model_rng, sample_rng = jax.random.split(rng)
+    model_rng, sample_rng = jax.random.split(rng.reshape(-1))
     x = self.get_init_samples(sample_rng, 1)
     return self.net.init({'params': model_rng}, x=x)['params']
 
-- 
2.43.0


From 30f00b741783d29013b99e4782d18322736f6227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:20 +0000
Subject: [PATCH 23/39] fix: results of all but the last batch of instances
 were lost

The annealing experiment hands over its results once per batch of num_models
instances, and every call overwrote results.pkl.
---
 discs/common/experiment_saver.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/discs/common/experiment_saver.py b/discs/common/experiment_saver.py
index ea7c0d2..fe9d3ba 100644
--- a/discs/common/experiment_saver.py
+++ b/discs/common/experiment_saver.py
@@ -18,6 +18,7 @@ class Saver:
   def __init__(self, config: ml_collections.ConfigDict):
     self.config = config
     self.save_dir = config.experiment.save_root
+    self.co_results = {}
     if not os.path.isdir(self.save_dir):
       os.makedirs(self.save_dir)
 
@@ -123,9 +124,17 @@ class Saver:
     results['trajectory'] = np.array(trajectory)
     results['best_ratio'] = np.array(best_ratio)
     results['running_time'] = running_time
-    results['best_ratio_mean'] = np.mean(np.array(best_ratio))
     if len(best_samples) != 0:
       results['best_samples'] = np.array(best_samples)
+    # the instances of a data set arrive in batches
+    for key, val in self.co_results.items():
+      if key == 'running_time':
+        results[key] = val + results[key]
+      else:
+        axis = -1 if key == 'trajectory' else 0
+        results[key] = np.concatenate([val, results[key]], axis=axis)
+    self.co_results = dict(results)
+    results['best_ratio_mean'] = np.mean(results['best_ratio'])
     self._dump_dict(results, 'results')
 
   def dump_params(self, params):
-- 
2.43.0


From 0d783e2cd08b1c82bff655d504f6554d0c74af02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:20 +0000
Subject: [PATCH 24/39] fix: non-adaptive samplers were reported as adaptive

---
 discs/common/experiment_saver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/common/experiment_saver.py b/discs/common/experiment_saver.py
index fe9d3ba..c3c868c 100644
--- a/discs/common/experiment_saver.py
+++ b/discs/common/experiment_saver.py
@@ -54,7 +54,7 @@ class Saver:
 
     results = {}
     results['sampler'] = self.config.sampler.name
-    if 'adaptive' in self.config.sampler.keys():
+    if self.config.sampler.get('adaptive', False):
       results['sampler'] = f'a_{self.config.sampler.name}'
 
     if 'solver' in self.config.sampler.keys():
-- 
2.43.0


From e6d04e041bf85340a181830f7570a318f2dc1d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:20 +0000
Subject: [PATCH 25/39] fix: visualising the saved samples crashed on an
 undefined name

---
 discs/common/experiment_saver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/common/experiment_saver.py b/discs/common/experiment_saver.py
index c3c868c..f18281a 100644
--- a/discs/common/experiment_saver.py
+++ b/discs/common/experiment_saver.py
@@ -115,7 +115,7 @@ class Saver:
         for chain in range(samples.shape[0]):
           img = samples[chain]
           image_path = os.path.join(
-              root_path, f'sample_{step}_of_chain_{chain}.jpeg'
+              self.save_dir, f'sample_{step}_of_chain_{chain}.jpeg'
           )
           plt.imsave(image_path, np.array(img), cmap=cm.gray)
 
-- 
2.43.0


From 790284eb0becdc41eb084eff0133329b16f1468f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:20 +0000
Subject: [PATCH 26/39] fix: single device results lost their first and last
 digits when read back

Only runs on several devices write the numbers in two pairs of brackets.
---
 discs/plot_results/plot_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/plot_results/plot_results.py b/discs/plot_results/plot_results.py
index ba7a051..5c91f76 100644
--- a/discs/plot_results/plot_results.py
+++ b/discs/plot_results/plot_results.py
@@ -370,7 +370,7 @@ def save_result_as_csv(all_mapped_names, dir_name):
         writer.writerow(data)
 
 def extract_floats(string_of_numbers):
-  string_of_numbers = string_of_numbers[2:-2].strip()
+  string_of_numbers = string_of_numbers.strip('[] ')
   gap = string_of_numbers.find(' ')
   f1 = float(string_of_numbers[0:gap])
   f2 = float(string_of_numbers[gap + 1 :])
-- 
2.43.0


From 1f7da3d0f02c5304d5dabfdb352e121fbe212aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:39 +0000
Subject: [PATCH 27/39] fix: the token whose likelihood is evaluated was not
 masked

The one-hot row of the mask token was set out of bounds, which drops the
update and leaves an all-zero embedding in place of [MASK].
---
 discs/models/text_infilling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/models/text_infilling.py b/discs/models/text_infilling.py
index ef769eb..c909a1a 100644
--- a/discs/models/text_infilling.py
+++ b/discs/models/text_infilling.py
@@ -122,7 +122,7 @@ class TextInfilling(abstractmodel.AbstractModel):
     x = jnp.where(x.shape[0] == len(self.infill_pos), jnp.array([x]), x)
 
     mask_dummy_array = jnp.zeros([1, self.num_categories])
-    mask_dummy_array = mask_dummy_array.at[1, self.mask_token].set(1.0)
+    mask_dummy_array = mask_dummy_array.at[0, self.mask_token].set(1.0)
     loglikelihood = 0.0
     for i in range(0, len(self.infill_pos)):
       x_new = x.at[:, i, :].set(mask_dummy_array)
-- 
2.43.0


From 270343dd0b01c10d2c5de6c58d0f1e41bb64e3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:39 +0000
Subject: [PATCH 28/39] fix: text infilling crashed when evaluating its
 sentences

Sentences are no valid arguments of a jitted function.
---
 discs/experiment/sampling.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index b5e4154..8ffd99f 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -348,7 +348,6 @@ class Text_Infilling_Experiment(Sampling_Experiment):
   """Class used to sample sentences for text infilling."""
 
   def get_results(self, model, sampler, evaluator, saver):
-    obj_fn = jax.jit(evaluator.evaluate)
     infill_sents = []
     infill_sents_topk = []
     rnd_key = 0
@@ -362,7 +361,7 @@ class Text_Infilling_Experiment(Sampling_Experiment):
       infill_sents.extend(sents)
       if self.config.use_topk:
         infill_sents_topk.extend(sents_topk)
-    res = obj_fn(infill_sents, self.config_model.data_root)
+    res = evaluator.evaluate(infill_sents, self.config_model.data_root)
     if self.config.use_topk:
       res_topk = evaluator.evaluate(
           infill_sents_topk, self.config_model.data_root
-- 
2.43.0


From 95639302f3073e5be7fee33e2d820f3f27d3e53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:39 +0000
Subject: [PATCH 29/39] fix: infilled sentences from the tenth on kept part of
 their number

---
 discs/experiment/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index 8ffd99f..b0afcc4 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -399,9 +399,9 @@ class Text_Infilling_Experiment(Sampling_Experiment):
       }
       topk_sentences = list(sorted_sent.keys())[-self.config.topk_num :]
       for i, sent in enumerate(topk_sentences):
-        topk_sentences[i] = sent[2:]
+        topk_sentences[i] = sent.split(' ', 1)[1]
       for i, sent in enumerate(sentences):
-        sentences[i] = sent[2:]
+        sentences[i] = sent.split(' ', 1)[1]
 
     return True, sentences, topk_sentences
 
-- 
2.43.0


From 9623ac0b378413ccf55dbee024c8268934c38958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:02 +0000
Subject: [PATCH 30/39] fix: partition evaluation mixed up nodes of graphs not
 built in label order

---
 discs/common/normcut_evaluator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discs/common/normcut_evaluator.py b/discs/common/normcut_evaluator.py
index d8b085c..aa02814 100644
--- a/discs/common/normcut_evaluator.py
+++ b/discs/common/normcut_evaluator.py
@@ -191,7 +191,8 @@ def main(argv) -> None:
       results = pickle.load(f)
       x = results['best_samples'][0]
       x = np.array(x).astype(int)
-      adj_mat = nx.to_numpy_array(g)
+      # solutions follow the node labels, not the order of insertion
+      adj_mat = nx.to_numpy_array(g, nodelist=range(len(g)))
       cr, bl, message = evaluate(x, len(g), len(g.edges()) * 2, adj_mat, ng)
       print(message)
       print(res_dic['name'])
-- 
2.43.0


From dc25140848997cb22b82a8ed325247c07c3ce412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:49 +0000
Subject: [PATCH 31/39] fix: training scripts imported the plotting tools from
 where they are not

---
 discs/learning/binary_ebm/main_binary_training.py | 2 +-
 discs/learning/rbm/main_rbm_training.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/learning/binary_ebm/main_binary_training.py b/discs/learning/binary_ebm/main_binary_training.py
index 3219d7a..a713f49 100644
--- a/discs/learning/binary_ebm/main_binary_training.py
+++ b/discs/learning/binary_ebm/main_binary_training.py
@@ -9,7 +9,7 @@ from flax import jax_utils
 from flax.core.frozen_dict import unfreeze
 
 from discs.common import data_loader
-from discs.common import plot
+from discs.plot_results import plot
 from discs.common import utils
 from discs.learning import replay_buffer
 from discs.learning import train
diff --git a/discs/learning/rbm/main_rbm_training.py b/discs/learning/rbm/main_rbm_training.py
index dc42db2..c72595b 100644
--- a/discs/learning/rbm/main_rbm_training.py
+++ b/discs/learning/rbm/main_rbm_training.py
@@ -8,7 +8,7 @@ from absl import flags
 
 from discs.common import data_loader
 from discs.common import utils
-from discs.common import plot
+from discs.plot_results import plot
 from discs.learning import train
 from discs.models import rbm
 from discs.samplers.blockgibbs import RBMBlockGibbsSampler
-- 
2.43.0


From 5d1010fe88459e7d7afbadcd90cafd539e6a5f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:25 +0000
Subject: [PATCH 32/39] fix: image model energy was NaN where a pixel is on in
 all images

---
 discs/models/resnet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/models/resnet.py b/discs/models/resnet.py
index 6be2e1e..38b5cb1 100644
--- a/discs/models/resnet.py
+++ b/discs/models/resnet.py
@@ -114,7 +114,7 @@ class ImageEBM(deep_ebm.DeepEBM):
     energy = self.net.apply({'params': params}, x=x)
     if self.data_mean is not None:
       base_logprob = x * jnp.log(self.data_mean + 1e-20) + (
-          1 - x) * jnp.log1p(-self.data_mean + 1e-20)
+          1 - x) * jnp.log(1 - self.data_mean + 1e-20)
       base_energy = jnp.sum(base_logprob, axis=-1)
       energy = energy + base_energy
       if 'temperature' in params:  # for the use of AIS
-- 
2.43.0


From 7bbac0f19e37893c40091594b4d2dd0b0b9d77e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:14 +0000
Subject: [PATCH 33/39] fix: optsicom sampler sweep set a key the experiment
 configuration does not have

The locked experiment configuration has no num_models entry, so none of the
jobs of the sweep could start; the value is taken from the graph data anyway.
---
 discs/run_configs/co/maxcut/optsicom_sampler_sweep.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/discs/run_configs/co/maxcut/optsicom_sampler_sweep.py b/discs/run_configs/co/maxcut/optsicom_sampler_sweep.py
index e66ae1a..b7d96e1 100644
--- a/discs/run_configs/co/maxcut/optsicom_sampler_sweep.py
+++ b/discs/run_configs/co/maxcut/optsicom_sampler_sweep.py
@@ -20,11 +20,9 @@ def get_config():
                       'r-b',
                   ],
                   'config.experiment.log_every_steps': [100],
-                  'config.experiment.num_models': [10],
                   'config.experiment.batch_size': [16],
               },
               {
-                  'config.experiment.num_models': [10],
                   'config.experiment.batch_size': [16], 
                   'sampler_config.name': [
                       'dmala',
@@ -39,7 +37,6 @@ def get_config():
                   ],
               },
               {
-                  'config.experiment.num_models': [10],
                   'config.experiment.batch_size': [16], 
                   'sampler_config.name': [
                       'gwg',
@@ -54,7 +51,6 @@ def get_config():
                   'sampler_config.adaptive': [False],
               },
               {
-                  'config.experiment.num_models': [10],
                   'config.experiment.batch_size': [16], 
                   'sampler_config.name': [
                       'dlmc',
-- 
2.43.0


From 77988f1c8332b0af30c63b5cf1e5dbe5a8f1d1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:14 +0000
Subject: [PATCH 34/39] fix: local sampling script did not pass the graph type
 to the model

graph_type only selected the experiment file; the model kept its default
graph type.
---
 discs/experiment/run_sampling_local.sh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/discs/experiment/run_sampling_local.sh b/discs/experiment/run_sampling_local.sh
index 17aa297..dd2ffbd 100755
--- a/discs/experiment/run_sampling_local.sh
+++ b/discs/experiment/run_sampling_local.sh
@@ -11,8 +11,10 @@ echo "$graph_type"
 if [ "$graph_type" == "$default" ]
 then
    exp_config="discs/common/configs.py"
+   graph_args=""
 else
    exp_config="discs/experiment/configs/${model?}/${graph_type:-$default}.py" 
+   graph_args="--model_config.graph_type=${graph_type}"
 fi
 
 if [ "$model" == "text_infilling" ]
@@ -28,5 +30,6 @@ python -m discs.experiment.main_sampling \
   --sampler_config="discs/samplers/configs/${sampler?}_config.py" \
   --config=$exp_config \
   --run_local=True \
+  ${graph_args} \
 
 
-- 
2.43.0


From cb4a919af1e2dfc1044d5893d8c5ae24a125980c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:55 +0000
Subject: [PATCH 35/39] fix: annealing curves of some lengths could not be
 drawn over time

A range with a fractional step can have one element more than asked for
(e.g. for 49 logged values).
---
 discs/plot_results/plot_co_through_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/plot_results/plot_co_through_time.py b/discs/plot_results/plot_co_through_time.py
index ddefc1a..f481fe6 100644
--- a/discs/plot_results/plot_co_through_time.py
+++ b/discs/plot_results/plot_co_through_time.py
@@ -58,7 +58,7 @@ def plot_graph_cluster(key, dict_results, indeces):
       )
 
       if x_label != 'Steps':
-        x = np.arange(0, 1, (1 / len(x))) * float(
+        x = (np.arange(len(x)) / len(x)) * float(
             result['results']['running_time']
         )
 
-- 
2.43.0


From 44d9751535acf2577862418515d34142a0cb7993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:55 +0000
Subject: [PATCH 36/39] fix: bars of unfinished experiments shifted the bars
 after them

An experiment without results was left out instead of counted as 0, so
that the later values of its sampler were drawn at the wrong tick, or
nothing was drawn at all.
---
 discs/plot_results/plot_results.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/discs/plot_results/plot_results.py b/discs/plot_results/plot_results.py
index 5c91f76..2dc31ae 100644
--- a/discs/plot_results/plot_results.py
+++ b/discs/plot_results/plot_results.py
@@ -414,13 +414,14 @@ def main(argv) -> None:
       results['best_ratio_std'] = np.std(results_pkl['trajectory'][-1])
     else:
       filename = os.path.join(subfolderpath, 'results.csv')
+      results = {}
       try:
-        filename = open(filename, 'r')
+        file = csv.DictReader(open(filename, 'r'))
       except:
         # The experiment has not been completed, we append 0.
-        continue
-      file = csv.DictReader(filename)
-      results = {}
+        file = []
+        for res_key in ['ess_ee', 'ess_ee_std', 'ess_clock', 'ess_clock_std']:
+          results[res_key] = 0
       for col in file:
         ESS = extract_floats(col['ESS_EE'])
         if 'chain_length' not in res_dic:
-- 
2.43.0


From 3005ff22779952087857df88c27da85212e804ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:55 +0000
Subject: [PATCH 37/39] fix: Ising temperature figures lost digits of single
 device results

Only runs on several devices write the numbers in two pairs of brackets.
---
 discs/plot_results/plot_ising_temp.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/discs/plot_results/plot_ising_temp.py b/discs/plot_results/plot_ising_temp.py
index e8684ad..78c3a81 100644
--- a/discs/plot_results/plot_ising_temp.py
+++ b/discs/plot_results/plot_ising_temp.py
@@ -424,20 +424,20 @@ def main(argv) -> None:
     file = csv.DictReader(filename)
     results = {}        
     for col in file:
-      gap = str.find(col['ESS_EE'], ' ')
+      ess_ee, ess_ee_std = map(float, col['ESS_EE'].strip('[] ').split())
       if 'chain_length' not in res_dic:
-        results['ess_ee'] = float(col['ESS_EE'][2:gap]) * 50000
-        results['ess_ee_std'] = float(col['ESS_EE'][gap+1:-2])/10 * 50000
+        results['ess_ee'] = ess_ee * 50000
+        results['ess_ee_std'] = ess_ee_std/10 * 50000
       else:
-        results['ess_ee'] = float(col['ESS_EE'][2:gap]) * int(
+        results['ess_ee'] = ess_ee * int(
             float(res_dic['chain_length']) // 2
         )
-        results['ess_ee_std'] = float(col['ESS_EE'][gap+1:-2])/10 * int(
+        results['ess_ee_std'] = ess_ee_std/10 * int(
             float(res_dic['chain_length']) // 2
         )      
-      gap_t = str.find(col['ESS_T'], ' ')
-      results['ess_clock'] = float(col['ESS_T'][2:gap_t])
-      results['ess_clock_std'] = float(col['ESS_T'][gap_t+1:-2])
+      ess_clock, ess_clock_std = map(float, col['ESS_T'].strip('[] ').split())
+      results['ess_clock'] = ess_clock
+      results['ess_clock_std'] = ess_clock_std
 
     res_dic['results'] = results
     experiments_results.append(res_dic)
-- 
2.43.0


From 24d27c28367a20859b0d57ded484032fbf5fa37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:55 +0000
Subject: [PATCH 38/39] fix: Ising temperature figures crashed on unfinished
 experiments

---
 discs/plot_results/plot_ising_temp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discs/plot_results/plot_ising_temp.py b/discs/plot_results/plot_ising_temp.py
index 78c3a81..2b61821 100644
--- a/discs/plot_results/plot_ising_temp.py
+++ b/discs/plot_results/plot_ising_temp.py
@@ -416,7 +416,9 @@ def main(argv) -> None:
       print(filename)
       results = {}
       results['ess_ee'] = 0
+      results['ess_ee_std'] = 0
       results['ess_clock'] = 0
+      results['ess_clock_std'] = 0
       res_dic['results'] = results
       experiments_results.append(res_dic)
       print("%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%")
-- 
2.43.0


From bfcd25775d2ebdad77f354a63fd5dec0c9377ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:07 +0000
Subject: [PATCH 39/39] fix: annealing saved solutions of filler entries with
 those of the instances

---
 discs/experiment/sampling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index b0afcc4..13b4a39 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -656,6 +656,8 @@ class CO_Experiment(Experiment):
 
     if not (self.config.save_samples or self.config_model.name == 'normcut'):
       best_samples = []
+    else:
+      best_samples = best_samples[sample_mask]
     saver.save_co_resuts(
         chain, best_ratio[sample_mask], running_time, best_samples
     )
-- 
2.43.0

