From 0867a45274b417bd9573acbb6b78b28fb8b132ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:46 +0000
Subject: [PATCH 01/60] fix: report invalid Geometric values as ValueError

The message was formatted after the exception was built, which raised
TypeError instead.
---
 src/primitives/geometric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/geometric.py b/src/primitives/geometric.py
index 28f1975..5494ef7 100644
--- a/src/primitives/geometric.py
+++ b/src/primitives/geometric.py
@@ -48,7 +48,7 @@ class Geometric(DistributionGpm):
         DistributionGpm.incorporate(self, rowid, observation, inputs)
         x = observation[self.outputs[0]]
         if not (x % 1 == 0 and x >= 0):
-            raise ValueError('Invalid Geometric: %s') % str(x)
+            raise ValueError('Invalid Geometric: %s' % str(x))
         self.N += 1
         self.sum_x += x
         self.data[rowid] = x
-- 
2.43.0


From eda69a4c5bd579b9695699329f0d97d4cf2120d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:46 +0000
Subject: [PATCH 02/60] fix: NormalTrunc parameters target their posterior

The mu kernel ignored the truncation normaliser, and the sigma kernel
ignored the prior and added the normaliser once instead of subtracting
it once per observation.
---
 src/primitives/normal_trunc.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/primitives/normal_trunc.py b/src/primitives/normal_trunc.py
index 1aa34f7..d1deaf5 100644
--- a/src/primitives/normal_trunc.py
+++ b/src/primitives/normal_trunc.py
@@ -114,7 +114,11 @@ class NormalTrunc(DistributionGpm):
 
         # Transition mu.
         fn_logpdf_mu = lambda mu : NormalTrunc.calc_log_likelihood(
-            self.N, self.sum_x, self.sum_x_sq, self.sigma, mu)
+            self.N, self.sum_x, self.sum_x_sq, self.sigma, mu) + \
+            NormalTrunc.calc_log_prior(
+                mu, self.sigma, self.alpha, self.beta, self.l, self.h) - \
+            self.N * NormalTrunc.calc_log_normalizer(
+                mu, self.sigma, self.l, self.h)
 
         self.mu = su.mh_sample(
             self.mu, fn_logpdf_mu, 1, [self.l, self.h],
@@ -123,7 +127,10 @@ class NormalTrunc(DistributionGpm):
         # Transition sigma.
         fn_logpdf_sigma = lambda sigma : NormalTrunc.calc_log_likelihood(
             self.N, self.sum_x, self.sum_x_sq, sigma, self.mu) + \
-            NormalTrunc.calc_log_normalizer(self.mu, sigma, self.l, self.h)
+            NormalTrunc.calc_log_prior(
+                self.mu, sigma, self.alpha, self.beta, self.l, self.h) - \
+            self.N * NormalTrunc.calc_log_normalizer(
+                self.mu, sigma, self.l, self.h)
 
         self.sigma = su.mh_sample(
             self.sigma, fn_logpdf_sigma, 1, [0, float('inf')], burn=n_samples,
-- 
2.43.0


From b64bb95d48f7adfd2baa5c6211e0911c787dd6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:46 +0000
Subject: [PATCH 03/60] fix: NormalTrunc prior on mu is uniform on [l, h]

scipy's uniform takes the width of the interval as its scale.
---
 src/primitives/normal_trunc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/normal_trunc.py b/src/primitives/normal_trunc.py
index d1deaf5..d08c778 100644
--- a/src/primitives/normal_trunc.py
+++ b/src/primitives/normal_trunc.py
@@ -200,7 +200,7 @@ class NormalTrunc(DistributionGpm):
     @staticmethod
     def calc_log_prior(mu, sigma, alpha, beta, l, h):
         log_sigma = gamma.logpdf(sigma, alpha, scale=beta)
-        log_mu = uniform.logpdf(mu, loc=l, scale=l+h)
+        log_mu = uniform.logpdf(mu, loc=l, scale=h-l)
         return log_mu + log_sigma
 
     @staticmethod
-- 
2.43.0


From 269bafdbc86ce22f4d05da86cfb81e4880e4fd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:02 +0000
Subject: [PATCH 04/60] fix: mh_sample proposes symmetrically on bounded
 domains

Wrapping modulo one and truncating the proposal are asymmetric, so the
acceptance ratio without a correction did not target logpdf_target.
---
 src/utils/sampling.py | 39 +++++++++++----------------------------
 1 file changed, 11 insertions(+), 28 deletions(-)

diff --git a/src/utils/sampling.py b/src/utils/sampling.py
index f8b7f38..e8d0bd1 100644
--- a/src/utils/sampling.py
+++ b/src/utils/sampling.py
@@ -76,33 +76,19 @@ def mh_sample(
     iters = 1.0
     aiters = 1.0
 
-    # XXX DISABLED.
-    log_correction = lambda x, x_prime, jstd: 0
-
-    # Is proposal symmetric? The folded normal is, but taking % 1?
-    if D[0] == 0 and D[1] == 1:
-        def jumpfun(x, jstd):
-            x_prime = fabs(rng.normal(x, jstd))
-            if x_prime > 1.0:
-                x_prime = x_prime % 1
-            return x_prime
-    elif 0 <= D[0] and D[1] == float('inf'):
-        jumpfun = lambda x, jstd: fabs(x + rng.normal(0.0, jstd))
+    # All the proposals are symmetric, as the acceptance ratio below requires:
+    # a jump which leaves the domain is reflected at the bound it crosses.
+    if D[0] == -float('inf') and D[1] == float('inf'):
+        jumpfun = lambda x, jstd: rng.normal(x, jstd)
+    elif D[1] == float('inf'):
+        jumpfun = lambda x, jstd: D[0] + fabs(x - D[0] + rng.normal(0.0, jstd))
+    elif D[0] == -float('inf'):
+        jumpfun = lambda x, jstd: D[1] - fabs(D[1] - x + rng.normal(0.0, jstd))
     else:
         def jumpfun(x, jstd):
-            MAX_TRIALS = 1000
-            for _ in xrange(MAX_TRIALS):
-                x_prime = rng.normal(x, jstd)
-                if D[0] < x_prime < D[1]:
-                    return x_prime
-            raise RuntimeError('MH failed to rejection sample the proposal.')
-        # XXX DISABLED, actually the mh function needs rewriting issue #56.
-        def log_correction(x, x_prime, jstd):
-            from scipy.stats import norm
-            if D[0] == float('inf') and D[1] == float('inf'):
-                return 0
-            return norm.logcdf((D[1]-x)/jump_std-(D[0]-x)/jump_std) \
-                - norm.logcdf((D[1]-x_prime)/jump_std-(D[0]-x_prime)/jump_std)
+            width = D[1] - D[0]
+            offset = (rng.normal(x, jstd) - D[0]) % (2*width)
+            return D[0] + min(offset, 2*width - offset)
 
     logp = logpdf_target(x)
     while num_collected < num_samples:
@@ -111,9 +97,6 @@ def mh_sample(
         assert D[0] < x_prime < D[1]
         logp_prime = logpdf_target(x_prime)
 
-        # XXX DISABLED Correct MH sampler requires the log correction!
-        # logp_corr = log_correction(x, x_prime, jump_std)
-
         if log(rng.rand()) < logp_prime - logp:
             x = x_prime
             logp = logp_prime
-- 
2.43.0


From 384e77282825ff431a2b6abdee99dd55b04d5bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 05/60] fix: column transition pairs each view with its own
 table

self.views keeps insertion order, the tables of the crp are sorted, so a
view whose identity was out of order was weighted with the data of
another one, and the wrong view was excluded for an independence
constraint.
---
 src/crosscat/state.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 527eb62..6500037 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -1061,14 +1061,16 @@ class State(CGpm):
         # Current dim object and view index.
         dim = self.dim_for(col)
 
-        # Compute logp of the dim under existing views.
+        # Compute logp of the dim under existing views, in the order of the
+        # tables of the crp.
+        views = sorted(self.views)
         dims_proposal = [
             self._dim_get_proposal(self.views[view], dim)
-            for view in self.views
+            for view in views
         ]
         logp_data = [
             self._dim_get_data_logp(self.views[view], dim)
-            for (view, dim) in zip(self.views, dims_proposal)
+            for (view, dim) in zip(views, dims_proposal)
         ]
 
         # Compute logp of the dim under auxiliary views.
@@ -1098,7 +1100,7 @@ class State(CGpm):
         # Enforce independence constraints.
         avoid = [a for p in self.Ci if col in p for a in p if a != col]
         for a in avoid:
-            index = self.views.keys().index(self.Zv(a))
+            index = views.index(self.Zv(a))
             logp_views[index] = float('-inf')
 
         # Draw a new view.
-- 
2.43.0


From 5d166291fcfe4c6df905523788e2bbea48851037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:07 +0000
Subject: [PATCH 06/60] fix: simulated rows keep the views independent

Samples were grouped by cluster within each view and then zipped, so the
rows were not independent draws and the clusters of independent views
came out sorted together.
---
 src/crosscat/sampling.py |  8 ++++----
 src/mixtures/view.py     | 16 ++++++++++------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/crosscat/sampling.py b/src/crosscat/sampling.py
index dcbb7d5..0034292 100644
--- a/src/crosscat/sampling.py
+++ b/src/crosscat/sampling.py
@@ -20,8 +20,6 @@ cgpm.crosscat, avoiding overhead of recursive implementations using the
 importance network on the sub-cgpms that comprise cgpm.crosscat.State.
 '''
 
-from itertools import chain
-
 import numpy as np
 
 from cgpm.primitives.crp import Crp
@@ -95,8 +93,10 @@ def view_simulate(view, rowid, targets, constraints, N):
     lp_cluster = np.add(lp_crp, lp_constraints)
     ks = log_pflip(lp_cluster, array=K, size=N, rng=view.rng)
     counts = {k:n for k,n in enumerate(np.bincount(ks)) if n > 0}
-    samples = (_simulate_row(view, targets, k, counts[k]) for k in counts)
-    return chain.from_iterable(samples)
+    samples = {k: _simulate_row(view, targets, k, counts[k]) for k in counts}
+    # Return the samples in the order the clusters were drawn, since grouping
+    # them by cluster would couple the samples of different views.
+    return [next(samples[k]) for k in ks]
 
 
 def _logpdf_row(view, targets, cluster):
diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index 765026f..d07c93a 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -14,7 +14,6 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-import itertools
 
 from math import isnan
 
@@ -357,14 +356,19 @@ class View(CGpm):
         counts = {k:n for k, n in enumerate(np.bincount(Ks)) if n > 0}
         # Add the cluster assignment to the constraints and sample the rest.
         constr3 = {k: merged(constraints, {self.outputs[0]: k}) for k in counts}
-        samples = [network.simulate(rowid, targets, constr3[k], inputs, counts[k])
-            for k in counts]
+        samples = {
+            k: iter(network.simulate(
+                rowid, targets, constr3[k], inputs, counts[k]))
+            for k in counts
+        }
+        # Return the samples in the order the clusters were drawn, since
+        # grouping them by cluster would couple the samples of different views.
+        result = [next(samples[k]) for k in Ks]
         # If cluster assignments are exposed, append them to the samples.
         if exposed:
-            samples = [[merged(l, {self.outputs[0]: k}) for l in s]
-                for s, k in zip(samples, counts)]
+            result = [merged(s, {self.outputs[0]: int(k)})
+                for s, k in zip(result, Ks)]
         # Return 1 sample if N is None, otherwise a list.
-        result = list(itertools.chain.from_iterable(samples))
         return result[0] if unwrap_result else result
 
 
-- 
2.43.0


From 7e7f9bbffaeae4a94e42c93ea5950fb5a4c949d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:37 +0000
Subject: [PATCH 07/60] fix: composed queries on an observed row use all of its
 cells

The first output was skipped, as if the state had a cluster variable
there, so a composed cgpm with that input did not see its value.
---
 src/crosscat/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 6500037..de35b4a 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -435,7 +435,7 @@ class State(CGpm):
         # Retrieve all values for this rowid not in targets or constraints.
         data = {
             c: self.X[c][rowid]
-            for c in self.outputs[1:]
+            for c in self.outputs
             if not any([
                 c in targets,
                 c in constraints,
-- 
2.43.0


From 08224fab0ec402fa979f0c009404d5af5d25d718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:35 +0000
Subject: [PATCH 08/60] fix: the concentration respects the dependence
 constraints

transition_crp_alpha weighted the grid by the score of the unconstrained
partition, not by logpdf_score_crp, which counts each dependent block as
one customer.
---
 src/crosscat/state.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index de35b4a..1d883fb 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -761,7 +761,15 @@ class State(CGpm):
             kernel_funcs, N=N, S=S, progress=progress, checkpoint=checkpoint)
 
     def transition_crp_alpha(self):
-        self.crp.transition_hypers()
+        if self.Cd and not self.Ci:
+            # Dependent columns are one customer, as in logpdf_score_crp.
+            grid = self.crp.hyper_grids['alpha']
+            logps = [gu.logp_crp_constrained_dependent(self.Zv(), a, self.Cd)
+                for a in grid]
+            index = gu.log_pflip(logps, rng=self.rng)
+            self.crp.set_hypers({'alpha': grid[index]})
+        else:
+            self.crp.transition_hypers()
         self._increment_iterations('alpha')
 
     def transition_view_alphas(self, views=None, cols=None):
-- 
2.43.0


From 9c653542b6bf03df625b510175a8554800d8c282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:36 +0000
Subject: [PATCH 09/60] fix: rejected updates leave the model unchanged

---
 src/crosscat/state.py | 38 ++++++++++++++++++++++++++++++++++++--
 src/mixtures/dim.py   |  9 +++++++++
 src/mixtures/view.py  |  5 +++++
 3 files changed, 50 insertions(+), 2 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 1d883fb..88b852e 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -203,6 +203,19 @@ class State(CGpm):
             raise ValueError(
                 'Cannot incorporate dim with inputs: %s.'
                 % inputs)
+        if v is None:
+            self._check_transition_dims()
+        # Validate the data before changing the state.
+        scratch = Dim(
+            outputs=outputs,
+            inputs=[self.crp_id_view],
+            cctype=cctype,
+            distargs=distargs,
+            rng=gu.gen_rng(0)
+        )
+        for x in T:
+            scratch.check_observation(
+                {outputs[0]: x}, {self.crp_id_view: 0})
         # Append new output to outputs.
         col = outputs[0]
         self.X[col] = T
@@ -272,6 +285,8 @@ class State(CGpm):
             raise ValueError('Invalid observation: %s' % observation)
         if any(isnan(v) for v in observation.values()):
             raise ValueError('Cannot incorporate nan: %s.' % observation)
+        self._check_observation(
+            {c: observation.get(c, float('nan')) for c in self.outputs})
         # Append the observation to dataset.
         for c in self.outputs:
             self.X[c].append(observation.get(c, float('nan')))
@@ -305,12 +320,21 @@ class State(CGpm):
         # Validate.
         self._check_partitions()
 
+    def _check_observation(self, observation):
+        """Raise an error if any dim does not accept the row (no change)."""
+        for dim in self.dims():
+            inputs = {i: observation[i] for i in dim.inputs[1:]}
+            inputs[dim.inputs[0]] = 0
+            dim.check_observation({dim.index: observation[dim.index]}, inputs)
+
     # XXX Major hack to force values of NaN cells in incorporated rowids.
     def force_cell(self, rowid, observation):
         if not 0 <= rowid < self.n_rows():
             raise ValueError('Force observation requires existing rowid.')
         if not all(np.isnan(self.X[c][rowid]) for c in observation):
             raise ValueError('Force observations requires NaN cells.')
+        self._check_observation(gu.merged(
+            {c: self.X[c][rowid] for c in self.outputs}, observation))
         for col, value in observation.iteritems():
             self.X[col][rowid] = value
         queries = vu.partition_list(
@@ -607,6 +631,11 @@ class State(CGpm):
             lambda r: not all(np.isnan(r.values())),
             [{d: h.get(d, np.nan) for d in view.dims} for h in hypotheticals]
         ) if hypotheticals else []
+        for h in hypotheticals:
+            for dim in view.dims.itervalues():
+                inputs = {i: h.get(i, float('nan')) for i in dim.inputs[1:]}
+                inputs[dim.inputs[0]] = 0
+                dim.check_observation({dim.index: h[dim.index]}, inputs)
         # Produce hypothetical rowids.
         rowid_hypothetical = range(
             self.n_rows(), self.n_rows() + len(hypotheticals))
@@ -753,6 +782,8 @@ class State(CGpm):
         # Run all kernels by default.
         if kernels is None:
             kernels = _kernel_lookup.keys()
+        if 'columns' in kernels:
+            self._check_transition_dims()
 
         kernel_funcs = [_kernel_lookup[k] for k in kernels]
         assert kernel_funcs
@@ -1055,8 +1086,7 @@ class State(CGpm):
             return dim
         return copy.deepcopy(dim)
 
-    def _gibbs_transition_dim(self, col, m):
-        """Gibbs on col assignment to Views, with m auxiliary parameters"""
+    def _check_transition_dims(self):
         # XXX Disable col transitions if \exists conditional model anywhere.
         if any(d.is_conditional() for d in self.dims()):
             raise ValueError(
@@ -1066,6 +1096,10 @@ class State(CGpm):
                 'Cannot transition columns with dependence constraint, '
                 'use State.transition_lovecat.')
 
+    def _gibbs_transition_dim(self, col, m):
+        """Gibbs on col assignment to Views, with m auxiliary parameters"""
+        self._check_transition_dims()
+
         # Current dim object and view index.
         dim = self.dim_for(col)
 
diff --git a/src/mixtures/dim.py b/src/mixtures/dim.py
index 8049b73..1aecb83 100644
--- a/src/mixtures/dim.py
+++ b/src/mixtures/dim.py
@@ -115,6 +115,15 @@ class Dim(CGpm):
         else:
             raise ValueError('rowid not incorporated: %d.' % rowid)
 
+    def check_observation(self, observation, inputs):
+        """Raise an error if observation cannot be incorporated (no change)."""
+        _k, inputs_cluster, valid = self.preprocess(observation, None, inputs)
+        if valid:
+            scratch = self.model(
+                outputs=[self.index], inputs=self.inputs[1:],
+                hypers=self.hypers, distargs=self.distargs, rng=gu.gen_rng(0))
+            scratch.incorporate(-1, observation, inputs_cluster)
+
     # --------------------------------------------------------------------------
     # logpdf score
 
diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index d07c93a..5ebaae5 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -215,6 +215,11 @@ class View(CGpm):
         D_new = Dim(
             outputs=[col], inputs=[self.outputs[0]]+inputs,
             cctype=cctype, distargs=distargs_dim, rng=self.rng)
+        # The observed data must be valid for the new type.
+        for rowid, k in self.Zr().iteritems():
+            D_new.check_observation(
+                {col: self.X[col][rowid]},
+                self._get_input_values(rowid, D_new, k))
         self.unincorporate_dim(D_old)
         self.incorporate_dim(D_new)
 
-- 
2.43.0


From a58a1f26cf48f00bf2940d2c3b557562fbf1e444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:11 +0000
Subject: [PATCH 10/60] fix: incorporate_dim keeps its own copy of the column

---
 src/crosscat/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 88b852e..013d8db 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -218,7 +218,7 @@ class State(CGpm):
                 {outputs[0]: x}, {self.crp_id_view: 0})
         # Append new output to outputs.
         col = outputs[0]
-        self.X[col] = T
+        self.X[col] = list(T)
         self.set_outputs(self.outputs + [col])
         # If v unspecified then transition the col.
         transition = [col] if v is None else []
-- 
2.43.0


From 3d57187dc6b529e94e12da22de59092d0b654846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:11 +0000
Subject: [PATCH 11/60] fix: removed columns leave the dependence constraints

---
 src/crosscat/state.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 013d8db..c020886 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -254,7 +254,8 @@ class State(CGpm):
         if self.n_cols() == 1:
             raise ValueError('State has only one dim, cannot unincorporate.')
         if col not in self.outputs:
-            raise ValueError('col does not exist: %s, %s.')
+            raise ValueError('col does not exist: %s, %s.'
+                % (col, self.outputs))
         # Find the dim and its view.
         d_del = self.dim_for(col)
         v_del = self.Zv(col)
@@ -267,6 +268,10 @@ class State(CGpm):
         # Clear data for col and remove it from outputs.
         del self.X[col]
         self.set_outputs([i for i in self.outputs if i != col])
+        # Clear col from the constraints.
+        blocks = [[c for c in block if c != col] for block in self.Cd]
+        self.Cd = [block for block in blocks if len(block) > 1]
+        self.Ci = [pair for pair in self.Ci if col not in pair]
         # Update composite flag.
         self._update_is_composite()
         # Validate.
-- 
2.43.0


From 0a948249ebf1860bc34ea3fdf6fe103ebe3d2cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:38 +0000
Subject: [PATCH 12/60] fix: every column partition is checked against its
 constraints

---
 src/crosscat/state.py   | 13 +++++++++++--
 src/utils/validation.py |  6 +++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index c020886..ac6d54d 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -124,6 +124,16 @@ class State(CGpm):
 
         assert len(self.Zv()) == len(self.outputs)
 
+        # The constraints must be valid and hold in the column partition.
+        for customers in itertools.chain(self.Cd, self.Ci):
+            if not all(c in self.outputs_set for c in customers):
+                raise ValueError('Unknown column in dependence constraints.')
+        vu.validate_crp_constrained_input(
+            None, self.Cd, self.Ci, self.Rd, self.Ri)
+        if not vu.validate_crp_constrained_partition(
+                self.Zv(), self.Cd, self.Ci, self.Rd, self.Ri):
+            raise ValueError('Column partition violates the constraints.')
+
         # -- View data ---------------------------------------------------------
         cctypes = cctypes or [None] * len(self.outputs)
         distargs = distargs or [None] * len(self.outputs)
@@ -1229,8 +1239,7 @@ class State(CGpm):
             self.views[v]._check_partitions()
         # Dependence constraints.
         assert vu.validate_crp_constrained_partition(
-            [self.Zv(c) for c in self.outputs], self.Cd, self.Ci,
-            self.Rd, self.Ri)
+            self.Zv(), self.Cd, self.Ci, self.Rd, self.Ri)
 
     # --------------------------------------------------------------------------
     # Serialize
diff --git a/src/utils/validation.py b/src/utils/validation.py
index 7f2dfaf..2a00588 100644
--- a/src/utils/validation.py
+++ b/src/utils/validation.py
@@ -39,11 +39,11 @@ def validate_dependency_constraints(N, Cd, Ci):
     counts = {}
     for block in Cd:
         # Every constraint must be more than one customer.
-        if len(block) == 1:
+        if len(block) <= 1:
             raise ValueError('Single customer in dependency constraint.')
         for col in block:
             # Every column must have correct index.
-            if N <= col:
+            if not 0 <= col < N:
                 raise ValueError('Dependence customer out of range.')
             # Every column must appear once only.
             if col not in counts:
@@ -59,7 +59,7 @@ def validate_dependency_constraints(N, Cd, Ci):
         # Ci entries are tuples only.
         if len(pair) != 2:
             raise ValueError('Independencies require two customers.')
-        if N <= pair[0] or N <= pair[1]:
+        if not (0 <= pair[0] < N and 0 <= pair[1] < N):
             raise ValueError('Independence customer of out range.')
         # Dummy case.
         if pair[0] == pair[1]:
-- 
2.43.0


From f552678663de4cc6f416de62685f8a7c8629e652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:38 +0000
Subject: [PATCH 13/60] fix: forcing a cell updates the dims conditioned on it

---
 src/crosscat/state.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index ac6d54d..2ef8709 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -357,6 +357,12 @@ class State(CGpm):
         for view_id, view_variables in queries.iteritems():
             observation_v = {c: observation[c] for c in view_variables}
             self.views[view_id].force_cell(rowid, observation_v)
+        # Update the conditional dims which use the cells as inputs.
+        for dim in self.dims():
+            if dim.index not in observation \
+                    and any(i in observation for i in dim.inputs[1:]):
+                self.view_for(dim.index).force_cell(
+                    rowid, {dim.index: self.X[dim.index][rowid]})
 
     # --------------------------------------------------------------------------
     # Schema updates.
-- 
2.43.0


From 4012bc291675ca7df1320bf207fa767e47d9119e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:38 +0000
Subject: [PATCH 14/60] fix: relevance probability never changes the view

---
 src/mixtures/relevance.py | 34 ++++++++++------------------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/src/mixtures/relevance.py b/src/mixtures/relevance.py
index 58373e0..9d9fdc7 100644
--- a/src/mixtures/relevance.py
+++ b/src/mixtures/relevance.py
@@ -15,6 +15,8 @@
 # limitations under the License.
 
 
+import copy
+
 import numpy as np
 
 from cgpm.utils.general import logsumexp
@@ -97,17 +99,14 @@ def relevance_probability(view, rowid_target, rowid_query):
     if rowid_target in rowid_query:
         return 1.
 
-    # Retrieve target crp assignments and data to restore later.
-    assignments_target = view.Zr(rowid_target)
-    values_target = row_values(view, rowid_target)
+    # Work on a copy which shares the dataset and source of entropy, so that
+    # the view (including any uncollapsed parameters) is never changed.
+    view = copy.deepcopy(
+        view, {id(view.X): view.X, id(view.rng): view.rng})
 
-    # Retrieve query crp assignments and data to restore later.
+    # Retrieve target and query data.
+    values_target = row_values(view, rowid_target)
     values_query = [row_values(view, r) for r in rowid_query]
-    assignments_query = [view.Zr(r) for r in rowid_query]
-
-    # Retrieve view logpdf to verify no mutation afterwards.
-    if check_env_debug():
-        logpdf_score_full = view.logpdf_score()
 
     # Unincorporate target and query rows.
     view.unincorporate(rowid_target)
@@ -206,19 +205,6 @@ def relevance_probability(view, rowid_target, rowid_query):
             logp_condition
         )
 
-    # Restore the target row.
-    values_target[view.outputs[0]] = assignments_target
-    view.incorporate(rowid_target, values_target)
-
-    # Restore the query rows.
-    for rowid, values, z in zip(rowid_query, values_query, assignments_query):
-        values[view.outputs[0]] = z
-        view.incorporate(rowid, values)
-
-    # Confirm no mutation has occured.
-    if check_env_debug():
-        assert np.allclose(view.logpdf_score(), logpdf_score_full)
-
     # Return the relevance probability.
     return np.exp(logp_same_table - logp_condition)
 
@@ -284,13 +270,13 @@ def row_values(view, rowid):
 
 def get_tables_same(tables):
     """Return tables to iterate over when query, target in same table."""
-    singleton = max(tables) + 1
+    singleton = max(tables) + 1 if tables else 0
     return tables + [singleton]
 
 
 def get_tables_different(tables):
     """Return tables to iterate over when query, target in different table."""
-    singleton = max(tables) + 1
+    singleton = max(tables) + 1 if tables else 0
     tables_target = tables + [singleton]
     auxiliary_table = lambda t: [] if t < singleton else [singleton+1]
     tables_query = [
-- 
2.43.0


From e888241b8d5554e9ddfcc2c66c3aae3dddc9c37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:12 +0000
Subject: [PATCH 15/60] fix: column proposals share the source of entropy

---
 src/crosscat/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 2ef8709..f5a96db 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -1105,7 +1105,7 @@ class State(CGpm):
         # create copy to preserve uncollapsed state (can optimize).
         if dim.is_collapsed() or self._dim_is_member(view, dim):
             return dim
-        return copy.deepcopy(dim)
+        return copy.deepcopy(dim, {id(dim.rng): dim.rng})
 
     def _check_transition_dims(self):
         # XXX Disable col transitions if \exists conditional model anywhere.
-- 
2.43.0


From 01a50cd0a6ec85c213470a18e1d73b5551781902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:12 +0000
Subject: [PATCH 16/60] fix: saved metadata shares no structure with the state

---
 src/crosscat/state.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index f5a96db..91f4e27 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -75,8 +75,8 @@ class State(CGpm):
             raise ValueError('Row dependence constraints not implemented.')
         if Ri is not None:
             raise ValueError('Row independence constraints not implemented.')
-        self.Cd = [] if Cd is None else Cd
-        self.Ci = [] if Ci is None else Ci
+        self.Cd = [] if Cd is None else [list(block) for block in Cd]
+        self.Ci = [] if Ci is None else [tuple(pair) for pair in Ci]
         self.Rd = {}
         self.Ri = {}
         # Prepare the GPM for the column crp.
@@ -1301,7 +1301,8 @@ class State(CGpm):
         # Factory data.
         metadata['factory'] = ('cgpm.crosscat.state', 'State')
 
-        return metadata
+        # The metadata must not share any structure with the state.
+        return copy.deepcopy(metadata)
 
     def to_pickle(self, fileptr):
         metadata = self.to_metadata()
@@ -1311,6 +1312,8 @@ class State(CGpm):
     def from_metadata(cls, metadata, rng=None):
         if rng is None:
             rng = gu.gen_rng(0)
+        # The state must not share any structure with the metadata.
+        metadata = copy.deepcopy(metadata)
         to_dict = lambda val: None if val is None else dict(val)
         # Build the State.
         state = cls(
-- 
2.43.0


From fa5e7ad153740e0d6467bf7fe219188a2ff40abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:44 +0000
Subject: [PATCH 17/60] fix: loaded states know their conditional dims

---
 src/crosscat/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 91f4e27..d8a46e4 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -189,7 +189,7 @@ class State(CGpm):
         # Does the state have any conditional GPMs? Conditional GPMs come from
         # - a hooked cgpm;
         # - a conditional dim.
-        self._composite = False
+        self._update_is_composite()
 
     # --------------------------------------------------------------------------
     # Observe
-- 
2.43.0


From 4816409be5c1f9d859f1f57d8e99af5e84f93b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:44 +0000
Subject: [PATCH 18/60] fix: composed cgpms keep their tokens when loaded

---
 src/crosscat/state.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index d8a46e4..2aa9f01 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -1332,12 +1332,16 @@ class State(CGpm):
             loom_path=metadata.get('loom_path', None),
             rng=rng,
         )
-        # Hook up the composed CGPMs.
-        for token, cgpm_metadata in metadata['hooked_cgpms'].iteritems():
+        # Hook up the composed CGPMs
+        # under their original tokens (strings, if read from JSON).
+        hooked_cgpms = metadata.get('hooked_cgpms', None) or {}
+        for token in sorted(hooked_cgpms, key=int):
+            cgpm_metadata = hooked_cgpms[token]
             builder = getattr(
                 importlib.import_module(cgpm_metadata['factory'][0]),
                 cgpm_metadata['factory'][1])
             cgpm = builder.from_metadata(cgpm_metadata, rng=rng)
+            state.token_generator = itertools.count(start=int(token))
             state.compose_cgpm(cgpm)
         return state
 
-- 
2.43.0


From cf7682dc31a5f9e37faba5025a201a9ebe571e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:23 +0000
Subject: [PATCH 19/60] fix: saved models keep their uncollapsed parameters

---
 src/crosscat/state.py          |  8 ++++++--
 src/mixtures/dim.py            | 13 +++++++++++++
 src/primitives/beta.py         |  4 ++++
 src/primitives/normal_trunc.py |  4 ++++
 4 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 2aa9f01..030b9be 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -1266,6 +1266,7 @@ class State(CGpm):
         metadata['hypers'] = []
         metadata['distargs'] = []
         metadata['suffstats'] = []
+        metadata['params'] = []
         for dim in self.dims():
             metadata['cctypes'].append(dim.cctype)
             metadata['hypers'].append(dim.hypers)
@@ -1274,6 +1275,7 @@ class State(CGpm):
             # entry for the dimension inputs.
             metadata['distargs'].append(dim.distargs)
             metadata['suffstats'].append(dim.get_suffstats().items())
+            metadata['params'].append(dim.get_params().items())
 
         # Dependence constraints.
         metadata['Cd'] = self.Cd
@@ -1332,8 +1334,10 @@ class State(CGpm):
             loom_path=metadata.get('loom_path', None),
             rng=rng,
         )
-        # Hook up the composed CGPMs
-        # under their original tokens (strings, if read from JSON).
+        # Restore the component parameters of uncollapsed dims.
+        for dim, params in zip(state.dims(), metadata.get('params', [])):
+            dim.set_params(dict(params))
+        # Hook up the composed CGPMs, under their original tokens (strings, if read from JSON).
         hooked_cgpms = metadata.get('hooked_cgpms', None) or {}
         for token in sorted(hooked_cgpms, key=int):
             cgpm_metadata = hooked_cgpms[token]
diff --git a/src/mixtures/dim.py b/src/mixtures/dim.py
index 1aecb83..6fe39ac 100644
--- a/src/mixtures/dim.py
+++ b/src/mixtures/dim.py
@@ -218,6 +218,19 @@ class Dim(CGpm):
         for model in self.clusters.values():
             model.set_hypers(hypers)
 
+    def get_params(self):
+        """Parameters of each uncollapsed cluster (-1 for a fresh one)."""
+        if self.is_collapsed() or self.is_conditional():
+            return {}
+        params = {k: self.clusters[k].get_params() for k in self.clusters}
+        params[-1] = self.aux_model.get_params()
+        return params
+
+    def set_params(self, params):
+        for k in params:
+            model = self.aux_model if k == -1 else self.clusters[k]
+            model.set_params(params[k])
+
     def get_suffstats(self):
         if len(self.clusters) == 0:
             return {0 : self.aux_model.get_suffstats()}
diff --git a/src/primitives/beta.py b/src/primitives/beta.py
index c2b375f..253458f 100644
--- a/src/primitives/beta.py
+++ b/src/primitives/beta.py
@@ -144,6 +144,10 @@ class Beta(DistributionGpm):
     def get_params(self):
         return {'balance': self.balance, 'strength': self.strength}
 
+    def set_params(self, params):
+        self.strength = params['strength']
+        self.balance = params['balance']
+
     def get_suffstats(self):
         return {'N': self.N, 'sum_log_x': self.sum_log_x,
             'sum_minus_log_x': self.sum_minus_log_x}
diff --git a/src/primitives/normal_trunc.py b/src/primitives/normal_trunc.py
index d08c778..2b66f5f 100644
--- a/src/primitives/normal_trunc.py
+++ b/src/primitives/normal_trunc.py
@@ -145,6 +145,10 @@ class NormalTrunc(DistributionGpm):
     def get_params(self):
         return {'mu': self.mu, 'sigma': self.sigma}
 
+    def set_params(self, params):
+        self.mu = params['mu']
+        self.sigma = params['sigma']
+
     def get_suffstats(self):
         return {'N': self.N, 'sum_x': self.sum_x, 'sum_x_sq': self.sum_x_sq}
 
-- 
2.43.0


From 3f33862bb3a27d9d6af58e89500aee6ee8289c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:41 +0000
Subject: [PATCH 20/60] fix: hypothetical rows never touch the model

---
 src/crosscat/state.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 030b9be..929bdfd 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -652,18 +652,18 @@ class State(CGpm):
             lambda r: not all(np.isnan(r.values())),
             [{d: h.get(d, np.nan) for d in view.dims} for h in hypotheticals]
         ) if hypotheticals else []
-        for h in hypotheticals:
-            for dim in view.dims.itervalues():
-                inputs = {i: h.get(i, float('nan')) for i in dim.inputs[1:]}
-                inputs[dim.inputs[0]] = 0
-                dim.check_observation({dim.index: h[dim.index]}, inputs)
+        # Hypothetical rows are incorporated into a copy of the view.
+        if hypotheticals:
+            X = {c: list(self.X[c]) for c in self.X}
+            view = copy.deepcopy(
+                view, {id(view.X): X, id(view.rng): view.rng})
         # Produce hypothetical rowids.
         rowid_hypothetical = range(
             self.n_rows(), self.n_rows() + len(hypotheticals))
         # Incorporate hypothetical rows.
         for rowid, query in zip(rowid_hypothetical, hypotheticals):
-            for d in view.dims:
-                self.X[d].append(query[d])
+            for c in view.X:
+                view.X[c].append(query.get(c, float('nan')))
             view.incorporate(rowid, query)
         # Compute the relevance probability.
         rowid_all = rowid_query + rowid_hypothetical
@@ -671,11 +671,6 @@ class State(CGpm):
             view.Zr(rowid_target) == view.Zr(rq)
             for rq in rowid_all
         ) if rowid_all else 0
-        # Unincorporate hypothetical rows.
-        for rowid in reversed(rowid_hypothetical):
-            for d in view.dims:
-                self.X[d].pop()
-            view.unincorporate(rowid)
         return int(relevance)
 
     # --------------------------------------------------------------------------
-- 
2.43.0


From 9480dfc95a5427b5a942ad3a8ba3dccdf8cc0405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:06 +0000
Subject: [PATCH 21/60] fix: Beta scores the endpoints as it records them

---
 src/primitives/beta.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/primitives/beta.py b/src/primitives/beta.py
index 253458f..e09af91 100644
--- a/src/primitives/beta.py
+++ b/src/primitives/beta.py
@@ -58,11 +58,7 @@ class Beta(DistributionGpm):
 
     def incorporate(self, rowid, observation, inputs=None):
         DistributionGpm.incorporate(self, rowid, observation, inputs)
-        x = observation[self.outputs[0]]
-        if np.allclose(0, x):
-            x = 0.001
-        elif np.allclose(1, x):
-            x = 0.999
+        x = Beta.clamp(observation[self.outputs[0]])
         if not 0 < x < 1:
             raise ValueError('Invalid Beta: %s' % str(x))
         self.N += 1
@@ -78,7 +74,7 @@ class Beta(DistributionGpm):
 
     def logpdf(self, rowid, targets, constraints=None, inputs=None):
         DistributionGpm.logpdf(self, rowid, targets, constraints, inputs)
-        x = targets[self.outputs[0]]
+        x = Beta.clamp(targets[self.outputs[0]])
         if not 0 < x < 1:
             return -float('inf')
         return Beta.calc_predictive_logp(x, self.strength, self.balance)
@@ -134,6 +130,15 @@ class Beta(DistributionGpm):
             self.balance, log_pdf_fun_bal, .25, [0, 1], burn=n_samples,
             rng=self.rng)
 
+    @staticmethod
+    def clamp(x):
+        """Move the endpoints of the unit interval into its interior."""
+        if np.allclose(0, x):
+            return 0.001
+        elif np.allclose(1, x):
+            return 0.999
+        return x
+
     def set_hypers(self, hypers):
         return
 
-- 
2.43.0


From fc7abbaae5ee45e9051fb43d9621aacca5bdc586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:31 +0000
Subject: [PATCH 22/60] fix: columns without observed cells have hyperparameter
 grids

---
 src/mixtures/dim.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mixtures/dim.py b/src/mixtures/dim.py
index 6fe39ac..fc13260 100644
--- a/src/mixtures/dim.py
+++ b/src/mixtures/dim.py
@@ -184,8 +184,14 @@ class Dim(CGpm):
 
     def transition_hyper_grids(self, X, n_grid=30):
         """Transitions hyperparameter grids using empirical Bayes."""
-        self.hyper_grids = self.model.construct_hyper_grids(
-            [x for x in X if not math.isnan(x)], n_grid=n_grid)
+        observed = [x for x in X if not math.isnan(x)]
+        if observed:
+            self.hyper_grids = self.model.construct_hyper_grids(
+                observed, n_grid=n_grid)
+        else:
+            # No empirical values to build the grids from.
+            self.hyper_grids = {
+                h: [v] for h, v in self.aux_model.get_hypers().iteritems()}
         # Only transition the hypers if previously uninstantiated.
         if not self.hypers:
             for h in self.hyper_grids:
-- 
2.43.0


From e9173c18e6373f261c56d7560e918d7883d4936d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:52 +0000
Subject: [PATCH 23/60] fix: variables are dependent on the sources of their
 ancestors

---
 src/crosscat/state.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 929bdfd..f9104dc 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -611,6 +611,15 @@ class State(CGpm):
         # Direct common ancestor implies dependent.
         if set.intersection(set(ancestors0), set(ancestors1)):
             return 1.
+        # Common source among the cgpms, e.g. one variable descends from the
+        # other which has no ancestors, or from its sibling outputs.
+        sources0, sources1 = [
+            set(k for k, c in enumerate(cgpms) if
+                any(a in c.outputs for a in ancestors))
+            for ancestors in (ancestors0 + [col0], ancestors1 + [col1])
+        ]
+        if set.intersection(sources0, sources1):
+            return 1.
         # Dependent ancestors via variable partition at root, Zv.
         cc_ancestors0 = [Zv[i] for i in ancestors0 if i in Zv]
         cc_ancestors1 = [Zv[i] for i in ancestors1 if i in Zv]
-- 
2.43.0


From 003a3274e59fd8fc236410ff8b3e546d28a45bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:07 +0000
Subject: [PATCH 24/60] fix: parallel_map raises when a worker cannot answer

---
 src/utils/parallel_map.py | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/utils/parallel_map.py b/src/utils/parallel_map.py
index a84ec1f..9848b06 100644
--- a/src/utils/parallel_map.py
+++ b/src/utils/parallel_map.py
@@ -15,8 +15,8 @@
 # You should have received a copy of the GNU General Public License
 # along with Venture.  If not, see <http://www.gnu.org/licenses/>.
 
-import cPickle as pickle
 import os
+import select
 import struct
 import traceback
 
@@ -37,6 +37,8 @@ def le32dec(s):
 def parallel_map(f, l, parallelism=None):
 
     ncpu = cpu_count() if parallelism is None else parallelism
+    if ncpu < 1:
+        raise ValueError('At least one process is required: %s.' % (ncpu,))
 
     # Per-process action: grab an input from the input queue, compute,
     # toss the output in the output queue.
@@ -53,9 +55,22 @@ def parallel_map(f, l, parallelism=None):
             os.write(retq_wr, le32enc(childno))
             try:
                 outq_wr.send((i, ok, fx))
-            except pickle.PicklingError:
+            except Exception as e:
+                # E.g. PicklingError, or TypeError for unpicklable types.
                 outq_wr.send((i, False, traceback.format_exc()))
 
+    # Wait for input on a queue, making sure the workers are still there.
+    def wait_input(ready, workers):
+        while not ready(.1):
+            if not all(p.is_alive() for p in workers) and not ready(0):
+                raise RuntimeError('Subprocess died.')
+
+    def next_output():
+        wait_input(lambda t: select.select([retq_rd], [], [], t)[0], process)
+        j = le32dec(os.read(retq_rd, 4))
+        wait_input(outq[j][0].poll, [process[j]])
+        return j, outq[j][0].recv()
+
     def process_output(fl, ctr, output):
         (i, ok, fx) = output
         if not ok:
@@ -89,14 +104,14 @@ def parallel_map(f, l, parallelism=None):
         for j, i in zip(xrange(ncpu), iterator):
             inq[j][1].send(i)
         for i in iterator:
-            j = le32dec(os.read(retq_rd, 4))
-            process_output(fl, ctr, outq[j][0].recv())
+            j, output = next_output()
+            process_output(fl, ctr, output)
             inq[j][1].send(i)
 
         # Process all the remaining output items.
         while 0 < ctr[0]:
-            j = le32dec(os.read(retq_rd, 4))
-            process_output(fl, ctr, outq[j][0].recv())
+            j, output = next_output()
+            process_output(fl, ctr, output)
 
         # Cancel all the worker processes.
         for _inq_rd, inq_wr in inq:
@@ -106,11 +121,14 @@ def parallel_map(f, l, parallelism=None):
         for p in process:
             p.join()
 
-    except Exception as e:           # paranoia
+    except:                          # paranoia
         # Terminate all subprocesses immediately and reraise.
         for p in process:
             if p.is_alive():
                 p.terminate()
+        for p in process:
+            if p.pid is not None:
+                p.join()
         raise
 
     finally:
-- 
2.43.0


From 2677328dbdb230b17138ff4144d7fbfa3db11a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 25/60] fix: statenos address exactly the requested models

---
 src/crosscat/engine.py | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/crosscat/engine.py b/src/crosscat/engine.py
index 1c79e4f..1d6dcbb 100644
--- a/src/crosscat/engine.py
+++ b/src/crosscat/engine.py
@@ -76,7 +76,7 @@ class Engine(object):
             views=None, progress=True, checkpoint=None, statenos=None,
             multiprocess=1):
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        statenos = self._unique_statenos(statenos)
         args = [('transition', self.states[s],
                 (N, S, kernels, rowids, cols, views, progress, checkpoint))
                 for s in statenos]
@@ -89,7 +89,7 @@ class Engine(object):
             cols=None, progress=None, checkpoint=None, statenos=None,
             multiprocess=1):
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        statenos = self._unique_statenos(statenos)
         args = [('transition_lovecat', self.states[s],
                 (N, S, kernels, rowids, cols, progress, checkpoint))
                 for s in statenos]
@@ -108,7 +108,7 @@ class Engine(object):
     def transition_foreign(self, N=None, S=None, cols=None, progress=True,
             statenos=None, multiprocess=1):
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        statenos = self._unique_statenos(statenos)
         args = [('transition_foreign', self.states[s],
                 (N, S, cols, progress))
                 for s in statenos]
@@ -192,7 +192,7 @@ class Engine(object):
     def logpdf(self, rowid, targets, constraints=None, inputs=None,
             accuracy=None, statenos=None, multiprocess=1):
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        statenos = self._get_statenos(statenos)
         args = [('logpdf', self.states[s],
                 (rowid, targets, constraints, inputs, accuracy))
             for s in statenos]
@@ -202,7 +202,7 @@ class Engine(object):
     def logpdf_bulk(self, rowids, targets_list, constraints_list=None,
             inputs_list=None, statenos=None, multiprocess=1):
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        statenos = self._get_statenos(statenos)
         args = [('logpdf_bulk', self.states[s],
                 (rowids, targets_list, constraints_list, inputs_list))
                 for s in statenos]
@@ -211,7 +211,7 @@ class Engine(object):
 
     def logpdf_score(self, statenos=None, multiprocess=1):
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        statenos = self._get_statenos(statenos)
         args = [('logpdf_score', self.states[s],
                 ())
                 for s in statenos]
@@ -220,7 +220,7 @@ class Engine(object):
 
     def logpdf_likelihood(self, statenos=None, multiprocess=1):
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        statenos = self._get_statenos(statenos)
         args = [('logpdf_likelihood', self.states[s],
                 ())
                 for s in statenos]
@@ -231,7 +231,7 @@ class Engine(object):
             accuracy=None, statenos=None, multiprocess=1):
         self._seed_states()
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        statenos = self._get_statenos(statenos)
         args = [('simulate', self.states[s],
                 (rowid, targets, constraints, inputs, N, accuracy))
                 for s in statenos]
@@ -243,7 +243,7 @@ class Engine(object):
         """Returns list of simualate_bulk, one for each state."""
         self._seed_states()
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        statenos = self._get_statenos(statenos)
         args = [('simulate_bulk', self.states[s],
                 (rowids, targets_list, constraints_list, inputs_list, Ns))
                 for s in statenos]
@@ -255,7 +255,7 @@ class Engine(object):
         """Returns list of mutual information estimates, one for each state."""
         self._seed_states()
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        statenos = self._get_statenos(statenos)
         args = [('mutual_information', self.states[s],
                 (col0, col1, constraints, T, N, progress))
                 for s in statenos]
@@ -265,7 +265,7 @@ class Engine(object):
     def dependence_probability(self, col0, col1, statenos=None, multiprocess=1):
         """Compute dependence probabilities between col0 and col1."""
         # XXX Ignore multiprocess.
-        statenos = statenos or xrange(self.num_states())
+        statenos = self._get_statenos(statenos)
         return [self.states[s].dependence_probability(col0, col1)
             for s in statenos]
 
@@ -273,7 +273,7 @@ class Engine(object):
             multiprocess=1):
         """Compute dependence probability between all pairs as matrix."""
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        statenos = self._get_statenos(statenos)
         args = [('dependence_probability_pairwise', self.states[s],
                 (colnos,))
                 for s in statenos]
@@ -283,7 +283,7 @@ class Engine(object):
     def row_similarity(self, row0, row1, cols=None, statenos=None,
             multiprocess=1):
         """Compute similarities between row0 and row1."""
-        statenos = statenos or xrange(self.num_states())
+        statenos = self._get_statenos(statenos)
         # XXX Ignore multiprocess.
         return [self.states[s].row_similarity(row0, row1, cols)
             for s in statenos]
@@ -291,7 +291,7 @@ class Engine(object):
     def row_similarity_pairwise(self, cols=None, statenos=None, multiprocess=1):
         """Compute row similarity between all pairs as matrix."""
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        statenos = self._get_statenos(statenos)
         args = [('row_similarity_pairwise', self.states[s],
                 (cols,))
                 for s in statenos]
@@ -303,7 +303,7 @@ class Engine(object):
             statenos=None, multiprocess=1):
         """Compute relevance probability of query rows for target row."""
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        statenos = self._get_statenos(statenos)
         args = [('relevance_probability', self.states[s],
                 (rowid_target, rowid_query, col, hypotheticals))
                 for s in statenos]
@@ -313,7 +313,7 @@ class Engine(object):
     def alter(self, funcs, statenos=None, multiprocess=1):
         """Apply generic funcs on states in parallel."""
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        statenos = self._unique_statenos(statenos)
         args = [(funcs, self.states[s]) for s in statenos]
         states = mapper(_alter, args)
         for s, state in zip(statenos, states):
@@ -354,6 +354,14 @@ class Engine(object):
         for seed, state in zip(seeds, self.states):
             state.rng.seed(seed)
 
+    def _get_statenos(self, statenos):
+        # No statenos addresses all states, an empty list addresses none.
+        return range(self.num_states()) if statenos is None else list(statenos)
+
+    def _unique_statenos(self, statenos):
+        # A state which is addressed more than once is updated once.
+        return sorted(set(self._get_statenos(statenos)))
+
     def _get_seeds(self, N=None):
         num_draws = N if N is not None else self.num_states()
         return self.rng.randint(low=1, high=2**32-1, size=num_draws)
-- 
2.43.0


From cd2de0c38c6d1382caaed994770eb7301c8b72c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 26/60] fix: queries advance the models of serial and
 multiprocess engines alike

---
 src/crosscat/engine.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/crosscat/engine.py b/src/crosscat/engine.py
index 1d6dcbb..9dc9e07 100644
--- a/src/crosscat/engine.py
+++ b/src/crosscat/engine.py
@@ -55,7 +55,12 @@ def _compose((method, state, cgpm_metadata, args)):
     return state
 
 def _evaluate((method, state, args)):
-    return getattr(state, method)(*args)
+    # A query leaves the state as it is, in a subprocess or not.
+    rng_state = state.rng.get_state()
+    try:
+        return getattr(state, method)(*args)
+    finally:
+        state.rng.set_state(rng_state)
 
 
 class Engine(object):
-- 
2.43.0


From f4492395d56dfc89fae59391cf6cf92302c12b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 27/60] fix: loading an engine leaves its metadata unchanged

---
 src/crosscat/engine.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/crosscat/engine.py b/src/crosscat/engine.py
index 9dc9e07..0b5ce06 100644
--- a/src/crosscat/engine.py
+++ b/src/crosscat/engine.py
@@ -423,15 +423,14 @@ class Engine(object):
             rng=rng,
             multiprocess=multiprocess)
         # Repopulate the states with the dataset.
-        for m in metadata['states']:
-            m['X'] = metadata['X']
-        num_states = len(metadata['states'])
+        states = [dict(m, X=metadata['X']) for m in metadata['states']]
+        num_states = len(states)
         def retrieve_state((state, seed)):
             return State.from_metadata(state, rng=gu.gen_rng(seed))
         mapper = parallel_map if multiprocess else map
         engine.states = mapper(
             retrieve_state,
-            zip(metadata['states'], engine._get_seeds(num_states)))
+            zip(states, engine._get_seeds(num_states)))
         return engine
 
     def to_pickle(self, fileptr):
-- 
2.43.0


From 264487ad198246cd888bba5e04546c7a37092006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 28/60] fix: likelihood weights take inputs as inputs

---
 src/crosscat/engine.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/crosscat/engine.py b/src/crosscat/engine.py
index 0b5ce06..0051f1e 100644
--- a/src/crosscat/engine.py
+++ b/src/crosscat/engine.py
@@ -375,10 +375,10 @@ class Engine(object):
             inputs=None, statenos=None, multiprocess=1):
         # Computes an importance sampling integral with likelihood weight.
         assert len(logpdfs) == \
-            len(self.states) if statenos is None else len(statenos)
+            (len(self.states) if statenos is None else len(statenos))
         if constraints:
-            weights = self.logpdf(rowid, constraints, inputs, statenos=statenos,
-                multiprocess=multiprocess)
+            weights = self.logpdf(rowid, constraints, inputs=inputs,
+                statenos=statenos, multiprocess=multiprocess)
             return gu.logmeanexp_weighted(logpdfs, weights)
         else:
             return gu.logmeanexp(logpdfs)
@@ -386,11 +386,11 @@ class Engine(object):
     def _likelihood_weighted_resample(self, samples, rowid, constraints=None,
             inputs=None, statenos=None, multiprocess=1):
         assert len(samples) == \
-            len(self.states) if statenos is None else len(statenos)
+            (len(self.states) if statenos is None else len(statenos))
         assert all(len(s) == len(samples[0]) for s in samples[1:])
         N = len(samples[0])
         weights = np.zeros(len(samples)) if not constraints else \
-            self.logpdf(rowid, constraints, inputs,
+            self.logpdf(rowid, constraints, inputs=inputs,
                 statenos=statenos, multiprocess=multiprocess)
         n_model = np.bincount(gu.log_pflip(weights, size=N, rng=self.rng))
         indexes = [self.rng.choice(N, size=n, replace=False) for n in n_model]
-- 
2.43.0


From 715dc6cc965b448f17ffe24b9e35d9037944a5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 29/60] fix: network queries of unknown variables are refused

---
 src/network/importance.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/network/importance.py b/src/network/importance.py
index 0aba7eb..acaa8ac 100644
--- a/src/network/importance.py
+++ b/src/network/importance.py
@@ -42,6 +42,7 @@ class ImportanceNetwork(object):
             constraints = {}
         if inputs is None:
             inputs = {}
+        self._validate_query(targets, constraints)
         samples, weights = zip(*[
             self.weighted_sample(rowid, targets, constraints, inputs)
             for _i in xrange(self.accuracy)
@@ -58,6 +59,7 @@ class ImportanceNetwork(object):
             constraints = {}
         if inputs is None:
             inputs = {}
+        self._validate_query(targets, constraints)
         # Compute joint probability.
         samples_joint, weights_joint = zip(*[
             self.weighted_sample(
@@ -76,6 +78,14 @@ class ImportanceNetwork(object):
         # Return log ratio.
         return logp_joint - logp_constraints
 
+    def _validate_query(self, targets, constraints):
+        unknown = [v for v in targets if v not in self.v_to_c] + [
+            v for v in constraints
+            if v not in self.v_to_c and v not in self.extraneous
+        ]
+        if unknown:
+            raise ValueError('Unknown variables in query: %s.' % (unknown,))
+
     def weighted_sample(self, rowid, targets, constraints, inputs):
         targets_required = self.retrieve_required_inputs(targets, constraints)
         targets_all = targets + targets_required
-- 
2.43.0


From d868be2860f3f30af0226131f50a5e8a7a72c22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 30/60] fix: new columns cannot take the outputs of a composed
 cgpm

---
 src/crosscat/state.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index f9104dc..83979d9 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -209,6 +209,10 @@ class State(CGpm):
             raise ValueError(
                 'Specified outputs already exist: %s, %s.'
                 % (outputs, self.outputs))
+        if any(outputs[0] in c.outputs for c in self.hooked_cgpms.values()):
+            raise ValueError(
+                'Specified outputs belong to a composed cgpm: %s.'
+                % (outputs,))
         if inputs:
             raise ValueError(
                 'Cannot incorporate dim with inputs: %s.'
-- 
2.43.0


From 89a60a9ca74572260cb005c8a9944dd905086757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 31/60] fix: a cgpm that cannot be composed is never left
 hooked

---
 src/crosscat/state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 83979d9..099486a 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -392,9 +392,9 @@ class State(CGpm):
         self.hooked_cgpms[token] = cgpm
         try:
             self.build_network()
-        except ValueError as e:
+        except Exception:
             del self.hooked_cgpms[token]
-            raise e
+            raise
         self._update_is_composite()
         return token
 
-- 
2.43.0


From 50a3f19f16ac2d29994551dea92c23e02d93d0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:27 +0000
Subject: [PATCH 32/60] fix: composed variables can be scored for an observed
 row

---
 src/crosscat/state.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 099486a..9ae26cc 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -507,7 +507,8 @@ class State(CGpm):
         # https://github.com/probcomp/cgpm/issues/116
         if not fresh \
                 and not simulate \
-                and any(not np.isnan(self.X[q][rowid]) for q in targets):
+                and any(q in self.outputs and not np.isnan(self.X[q][rowid])
+                    for q in targets):
             raise ValueError('Cannot constrain observed cell.')
         # Check if the constraints is valid.
         if constraints:
-- 
2.43.0


From ecf415e2e8e9ebe510449d48be5558b1bf2a4f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 33/60] fix: kernel densities range over the levels of each
 variable

---
 src/kde/mvkde.py | 45 ++++++++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/src/kde/mvkde.py b/src/kde/mvkde.py
index 14de6dd..3f42e81 100644
--- a/src/kde/mvkde.py
+++ b/src/kde/mvkde.py
@@ -18,7 +18,7 @@ from collections import OrderedDict
 
 import numpy as np
 
-from statsmodels.nonparametric import _kernel_base
+from scipy.stats import norm
 from statsmodels.nonparametric import kernel_density
 
 from cgpm.cgpm import CGpm
@@ -132,24 +132,12 @@ class MultivariateKde(CGpm):
         if any(q in constraints for q in targets):
             raise ValueError('Duplicate variable: %s, %s'
                 % (targets, constraints,))
-        if not constraints:
-            model = kernel_density.KDEMultivariate(
-                self._dataset(targets),
-                self._stattypes(targets),
-                bw=self._bw(targets),
-            )
-            pdf = model.pdf(targets.values())
-        else:
-            full_members = self._dataset(targets.keys() + constraints.keys())
-            model = kernel_density.KDEMultivariateConditional(
-                full_members[:,:len(targets)],
-                full_members[:,len(targets):],
-                self._stattypes(targets),
-                self._stattypes(constraints),
-                bw=np.concatenate((self._bw(targets), self._bw(constraints))),
-            )
-            pdf = model.pdf(targets.values(), constraints.values())
-        return np.log(pdf)
+        members = self._dataset(targets.keys() + constraints.keys())
+        weights = self._member_weights(
+            members[:,len(targets):], constraints.keys(), constraints.values())
+        densities = self._member_weights(
+            members[:,:len(targets)], targets.keys(), targets.values())
+        return np.log(np.sum(weights * densities)) - np.log(np.sum(weights))
 
     def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
         if self.N == 0:
@@ -166,12 +154,10 @@ class MultivariateKde(CGpm):
         constraints = self.populate_constraints(rowid, targets, constraints)
         if constraints:
             full_members = self._dataset(targets + constraints.keys())
-            weights = _kernel_base.gpke(
-                self._bw(constraints),
+            weights = self._member_weights(
                 full_members[:,len(targets):],
+                constraints.keys(),
                 constraints.values(),
-                self._stattypes(constraints),
-                tosum=False,
             )
             targets_members = full_members[:,:len(targets)]
         else:
@@ -227,6 +213,19 @@ class MultivariateKde(CGpm):
     # --------------------------------------------------------------------------
     # Internal.
 
+    def _member_weights(self, members, outputs, values):
+        # Density of values under the product kernel centered at each member.
+        # The categorical kernel ranges over the k levels of its variable, not
+        # over the levels which happen to occur in the members.
+        weights = np.ones(len(members))
+        for q, Xi, x in zip(outputs, members.T, values):
+            bw = self.bw[self.outputs.index(q)]
+            if q in self.levels:
+                weights *= np.where(Xi == x, 1 - bw, bw / (self.levels[q] - 1.))
+            else:
+                weights *= norm.pdf(x, loc=Xi, scale=bw)
+        return weights
+
     def _dataset(self, outputs):
         indexes = [self.outputs.index(q) for q in outputs]
         X = np.asarray(self.data.values())[:,indexes]
-- 
2.43.0


From c85bfbafe613b6f56cbf0e18052485e818aadeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 34/60] fix: PieceWise scores the joint at both of its values

---
 src/dummy/piecewise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dummy/piecewise.py b/src/dummy/piecewise.py
index 913cd0c..5e00778 100644
--- a/src/dummy/piecewise.py
+++ b/src/dummy/piecewise.py
@@ -95,7 +95,7 @@ class PieceWise(CGpm):
         if not constraints:
             # Case 1.1: z in the targets and x in the targets.
             if self.outputs[0] in targets and self.outputs[1] in targets:
-                z, x = targets[self.outputs[1]], targets[self.outputs[1]]
+                z, x = targets[self.outputs[1]], targets[self.outputs[0]]
                 # XXX Check if z in [0, 1]
                 logp_z = np.log(self.flip) if z == 0 else np.log(1-self.flip)
                 logp_x = logpdf_normal(x, y + (2*z - 1), self.sigma)
-- 
2.43.0


From 310461a9c0a078b5d115d0cfd5f323c23361d242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 35/60] fix: FourWay probabilities sum to one

---
 src/dummy/fourway.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dummy/fourway.py b/src/dummy/fourway.py
index de6daa8..9515cee 100644
--- a/src/dummy/fourway.py
+++ b/src/dummy/fourway.py
@@ -63,7 +63,8 @@ class FourWay(CGpm):
             inputs[self.inputs[0]],
             inputs[self.inputs[1]],
         )
-        return np.log(self.probabilities[regime][x])
+        return np.log(self.probabilities[regime][x])\
+            - np.log(sum(self.probabilities[regime]))
 
     def transition(self, N=None, S=None):
         time.sleep(.1)
-- 
2.43.0


From e91f70b6a2b6fe9c9d22f444e9e79179e8702dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 36/60] fix: RandomForest forgets the counts of removed rows

---
 src/regressions/forest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/regressions/forest.py b/src/regressions/forest.py
index 1a2297c..f0965d1 100644
--- a/src/regressions/forest.py
+++ b/src/regressions/forest.py
@@ -74,11 +74,12 @@ class RandomForest(CGpm):
 
     def unincorporate(self, rowid):
         try:
-            del self.data.x[rowid]
+            x = self.data.x.pop(rowid)
             del self.data.Y[rowid]
         except KeyError:
             raise ValueError('No such observation: %d' % rowid)
         self.N -= 1
+        self.counts[x] -= 1
 
     def logpdf(self, rowid, targets, constraints=None, inputs=None):
         assert not constraints
-- 
2.43.0


From 49aa7562d8f9a6b065bee9f90ef3fcfdefdce618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 37/60] fix: FactorAnalysis scores the rows it has recorded

---
 src/factor/factor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/factor/factor.py b/src/factor/factor.py
index 0095085..31a3ba8 100644
--- a/src/factor/factor.py
+++ b/src/factor/factor.py
@@ -213,9 +213,10 @@ class FactorAnalysis(CGpm):
     def logpdf_score(self):
         def compute_logpdf(x):
             assert len(x) == self.D
-            targets = {i:v for i,v in enumerate(x) if not np.isnan(v)}
+            targets = {
+                o: v for o, v in zip(self.observables, x) if not np.isnan(v)}
             return self.logpdf(None, targets)
-        return sum(compute_logpdf(x) for x in self.data)
+        return sum(compute_logpdf(x) for x in self.data.itervalues())
 
     def transition(self, N=None):
         X = np.asarray(self.data.values())
-- 
2.43.0


From 47d1c49179b4322cde5bf680ab0a1251a9b60274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 38/60] fix: OLS simulates as many rows as requested for an
 observed row

---
 src/regressions/ols.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/regressions/ols.py b/src/regressions/ols.py
index 7acaf9c..6cb2a32 100644
--- a/src/regressions/ols.py
+++ b/src/regressions/ols.py
@@ -96,7 +96,8 @@ class OrdinaryLeastSquares(CGpm):
         assert targets == self.outputs
         assert not constraints
         if rowid in self.data.x:
-            return {self.outputs[0]: self.data.x[rowid]}
+            sample = {self.outputs[0]: self.data.x[rowid]}
+            return sample if not N else [sample] * N
         _xt, yt = self.preprocess(None, inputs)
         mean = self.regressor.predict([yt])[0]
         x = self.rng.normal(mean, self.noise, size=N)
-- 
2.43.0


From 61e9303a1e71d58108448d40555b169c0a92a85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 39/60] fix: marginal density of undirected models

---
 src/uncorrelated/undirected.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uncorrelated/undirected.py b/src/uncorrelated/undirected.py
index b62c6b1..68ab73e 100644
--- a/src/uncorrelated/undirected.py
+++ b/src/uncorrelated/undirected.py
@@ -41,7 +41,7 @@ class UnDirectedXyGpm(CGpm):
                 return self.logpdf_joint(x, y)
             else:
                 z = targets.values()[0]
-                return self.logpdf_maringal(z)
+                return self.logpdf_marginal(z)
         else:
             assert len(constraints) == len(targets) == 1
             z = constraints.values()[0]
-- 
2.43.0


From 95824c26694d2784bdac89b8eb9ae79c048b2da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 40/60] fix: directed models pass constraints, inputs and N to
 their network

---
 src/uncorrelated/directed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uncorrelated/directed.py b/src/uncorrelated/directed.py
index 0cb632f..a9cb661 100644
--- a/src/uncorrelated/directed.py
+++ b/src/uncorrelated/directed.py
@@ -49,9 +49,9 @@ class DirectedXyGpm(CGpm):
     def logpdf(self, rowid, targets, constraints=None, inputs=None):
         if self.network is None:
             raise ValueError('self.network not defined by %s' % (type(self),))
-        return self.network.logpdf(rowid, targets, inputs)
+        return self.network.logpdf(rowid, targets, constraints, inputs)
 
     def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
         if self.network is None:
             raise ValueError('self.network not defined by %s' % (type(self),))
-        return self.network.simulate(rowid, targets, inputs, N)
+        return self.network.simulate(rowid, targets, constraints, inputs, N)
-- 
2.43.0


From 13c9330a2fb1d8589fc61054d04f7b7da5d12dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 41/60] fix: BareBonesCGpm simulates only its targets

---
 src/dummy/barebones.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dummy/barebones.py b/src/dummy/barebones.py
index 1b5b4eb..0a7807c 100644
--- a/src/dummy/barebones.py
+++ b/src/dummy/barebones.py
@@ -34,7 +34,7 @@ class BareBonesCGpm(CGpm):
         return 0
 
     def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
-        result = {i:1 for i in self.outputs}
+        result = {i:1 for i in targets}
         return result if N is None else [result] * N
 
     def transition(self, **kwargs):
-- 
2.43.0


From 15426bf87dfb388f9219ec6316aaaebe9b3959fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 42/60] fix: directed models share the given source of entropy

---
 src/uncorrelated/diamond.py  | 6 ++++--
 src/uncorrelated/parabola.py | 6 ++++--
 src/uncorrelated/sin.py      | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/uncorrelated/diamond.py b/src/uncorrelated/diamond.py
index e29e48c..39bebec 100644
--- a/src/uncorrelated/diamond.py
+++ b/src/uncorrelated/diamond.py
@@ -66,9 +66,11 @@ class Diamond(DirectedXyGpm):
         DirectedXyGpm.__init__(
             self, outputs=outputs, inputs=inputs, noise=noise, rng=rng)
         self.x = UniformX(
-            outputs=[self.outputs[0]], low=-1, high=1)
+            outputs=[self.outputs[0]], low=-1, high=1,
+            rng=self.rng)
         self.y = DiamondY(
             outputs=[self.outputs[1]],
             inputs=[self.outputs[0]],
-            noise=noise)
+            noise=noise,
+            rng=self.rng)
         self.network = ImportanceNetwork([self.x, self.y], rng=self.rng)
diff --git a/src/uncorrelated/parabola.py b/src/uncorrelated/parabola.py
index 2335d21..9400e39 100644
--- a/src/uncorrelated/parabola.py
+++ b/src/uncorrelated/parabola.py
@@ -75,9 +75,11 @@ class Parabola(DirectedXyGpm):
         DirectedXyGpm.__init__(
             self, outputs=outputs, inputs=inputs, noise=noise, rng=rng)
         self.x = UniformX(
-            outputs=[self.outputs[0]], low=-1, high=1)
+            outputs=[self.outputs[0]], low=-1, high=1,
+            rng=self.rng)
         self.y = ParabolaY(
             outputs=[self.outputs[1]],
             inputs=[self.outputs[0]],
-            noise=noise)
+            noise=noise,
+            rng=self.rng)
         self.network = ImportanceNetwork([self.x, self.y], rng=self.rng)
diff --git a/src/uncorrelated/sin.py b/src/uncorrelated/sin.py
index 5033419..7c42c5e 100644
--- a/src/uncorrelated/sin.py
+++ b/src/uncorrelated/sin.py
@@ -75,11 +75,13 @@ class Sin(DirectedXyGpm):
         DirectedXyGpm.__init__(
             self, outputs=outputs, inputs=inputs, noise=noise, rng=rng)
         self.x = UniformX(
-            outputs=[self.outputs[0]], low=-1.5*np.pi, high=1.5*np.pi)
+            outputs=[self.outputs[0]], low=-1.5*np.pi, high=1.5*np.pi,
+            rng=self.rng)
         self.y = SinY(
             outputs=[self.outputs[1]],
             inputs=[self.outputs[0]],
-            noise=noise)
+            noise=noise,
+            rng=self.rng)
         self.network = ImportanceNetwork([self.x, self.y], rng=self.rng)
 
     # All further methods are here for historical reasons and are not invoked.
-- 
2.43.0


From 690a62791db856044c300cbf7f9e997935f93744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 43/60] fix: TrollNormal density at integer values

---
 src/dummy/trollnormal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dummy/trollnormal.py b/src/dummy/trollnormal.py
index e7f9a82..8fe7f1f 100644
--- a/src/dummy/trollnormal.py
+++ b/src/dummy/trollnormal.py
@@ -58,7 +58,7 @@ class TrollNormal(CGpm):
 
     def _gaussian_log_pdf(self, x, mu, s):
         normalizing_constant = -(np.log(2 * np.pi) / 2) - np.log(s)
-        return normalizing_constant - ((x - mu)**2 / (2 * s**2))
+        return normalizing_constant - ((x - mu)**2 / (2. * s**2))
 
     def transition(self, N=None, S=None):
         time.sleep(.1)
-- 
2.43.0


From a096ce41e243e10d8d7469583ac1eeef83dc93f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 44/60] fix: conditional density of Dots is that of the target

---
 src/uncorrelated/dots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uncorrelated/dots.py b/src/uncorrelated/dots.py
index 121d18d..06eef50 100644
--- a/src/uncorrelated/dots.py
+++ b/src/uncorrelated/dots.py
@@ -49,4 +49,4 @@ class Dots(UnDirectedXyGpm):
             for mx in set(self.mx)])
 
     def logpdf_conditional(self, w, z):
-        return self.logpdf_marginal(z)
+        return self.logpdf_marginal(w)
-- 
2.43.0


From d62d6799ba4e2d1590c1741ae8c47e3dc6de16b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 45/60] fix: saved linear regressions keep their prior mean and
 covariance

---
 src/regressions/linreg.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/regressions/linreg.py b/src/regressions/linreg.py
index 5974819..5127bdd 100644
--- a/src/regressions/linreg.py
+++ b/src/regressions/linreg.py
@@ -88,8 +88,8 @@ class LinearRegression(CGpm):
         if hypers is None: hypers = {}
         self.a = hypers.get('a', 1.)
         self.b = hypers.get('b', 1.)
-        self.mu = hypers.get('mu', np.zeros(self.p))
-        self.V = hypers.get('V', np.eye(self.p))
+        self.mu = np.asarray(hypers.get('mu', np.zeros(self.p)))
+        self.V = np.asarray(hypers.get('V', np.eye(self.p)))
 
     def incorporate(self, rowid, observation, inputs=None):
         assert rowid not in self.data.x
@@ -344,6 +344,8 @@ class LinearRegression(CGpm):
         metadata['data'] = {'x': self.data.x, 'Y': self.data.Y}
         metadata['distargs'] = self.get_distargs()
         metadata['hypers'] = self.get_hypers()
+        metadata['hypers']['mu'] = np.asarray(self.mu).tolist()
+        metadata['hypers']['V'] = np.asarray(self.V).tolist()
         metadata['factory'] = ('cgpm.regressions.linreg', 'LinearRegression')
         return metadata
 
-- 
2.43.0


From 4d3e084f6dc9f37c9119278dedb3f838b82f8a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 46/60] fix: saved TrollNormals keep their rows

---
 src/dummy/trollnormal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dummy/trollnormal.py b/src/dummy/trollnormal.py
index 8fe7f1f..b378cda 100644
--- a/src/dummy/trollnormal.py
+++ b/src/dummy/trollnormal.py
@@ -73,13 +73,16 @@ class TrollNormal(CGpm):
         metadata = dict()
         metadata['outputs'] = self.outputs
         metadata['inputs'] = self.inputs
+        metadata['rowids'] = list(self.rowids)
         metadata['factory'] = ('cgpm.dummy.trollnormal', 'TrollNormal')
         return metadata
 
     @classmethod
     def from_metadata(cls, metadata, rng=None):
         if rng is None: rng = gu.gen_rng(0)
-        return cls(
+        troll = cls(
             outputs=metadata['outputs'],
             inputs=metadata['inputs'],
             rng=rng)
+        troll.rowids = set(metadata['rowids'])
+        return troll
-- 
2.43.0


From 4c500007649ee0e0bb6414799ace5388e8687d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 47/60] fix: loading a regression leaves its metadata unchanged

---
 src/regressions/forest.py | 6 +++---
 src/regressions/ols.py    | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/regressions/forest.py b/src/regressions/forest.py
index f0965d1..e80aea9 100644
--- a/src/regressions/forest.py
+++ b/src/regressions/forest.py
@@ -255,12 +255,12 @@ class RandomForest(CGpm):
         # Unpickle the sklearn forest.
         forest = cPickle.loads(
             base64.b64decode(metadata['params']['forest_binary']))
-        metadata['params']['forest'] = forest
+        params = dict(metadata['params'], forest=forest)
         forest = cls(
             outputs=metadata['outputs'],
             inputs=metadata['inputs'],
             hypers=metadata['hypers'],
-            params=metadata['params'],
+            params=params,
             distargs=metadata['distargs'],
             rng=rng)
         # json keys are strings -- convert back to integers.
@@ -268,5 +268,5 @@ class RandomForest(CGpm):
         Y = ((int(k), v) for k, v in metadata['data']['Y'].iteritems())
         forest.data = Data(x=OrderedDict(x), Y=OrderedDict(Y))
         forest.N = metadata['N']
-        forest.counts = metadata['counts']
+        forest.counts = list(metadata['counts'])
         return forest
diff --git a/src/regressions/ols.py b/src/regressions/ols.py
index 6cb2a32..35071ad 100644
--- a/src/regressions/ols.py
+++ b/src/regressions/ols.py
@@ -237,11 +237,11 @@ class OrdinaryLeastSquares(CGpm):
         # Unpickle the sklearn ols.
         skl_ols = cPickle.loads(
             base64.b64decode(metadata['params']['regressor_binary']))
-        metadata['params']['regressor'] = skl_ols
+        params = dict(metadata['params'], regressor=skl_ols)
         ols = cls(
             outputs=metadata['outputs'],
             inputs=metadata['inputs'],
-            params=metadata['params'],
+            params=params,
             distargs=metadata['distargs'],
             rng=rng)
         # json keys are strings -- convert back to integers.
-- 
2.43.0


From 2330760ded680dd41fca95720d6e0b825717022d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 48/60] fix: saved regressions share no structure with their
 metadata

---
 src/regressions/forest.py | 5 +++--
 src/regressions/linreg.py | 3 ++-
 src/regressions/ols.py    | 3 ++-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/regressions/forest.py b/src/regressions/forest.py
index e80aea9..8e53e08 100644
--- a/src/regressions/forest.py
+++ b/src/regressions/forest.py
@@ -234,8 +234,9 @@ class RandomForest(CGpm):
         metadata['outputs'] = self.outputs
         metadata['inputs'] = self.inputs
         metadata['N'] = self.N
-        metadata['data'] = {'x': self.data.x, 'Y': self.data.Y}
-        metadata['counts'] = self.counts
+        metadata['data'] = {
+            'x': OrderedDict(self.data.x), 'Y': OrderedDict(self.data.Y)}
+        metadata['counts'] = list(self.counts)
         metadata['distargs'] = self.get_distargs()
         metadata['hypers'] = self.get_hypers()
         metadata['params'] = self.get_params()
diff --git a/src/regressions/linreg.py b/src/regressions/linreg.py
index 5127bdd..09139e2 100644
--- a/src/regressions/linreg.py
+++ b/src/regressions/linreg.py
@@ -341,7 +341,8 @@ class LinearRegression(CGpm):
         metadata['outputs'] = self.outputs
         metadata['inputs'] = self.inputs
         metadata['N'] = self.N
-        metadata['data'] = {'x': self.data.x, 'Y': self.data.Y}
+        metadata['data'] = {
+            'x': OrderedDict(self.data.x), 'Y': OrderedDict(self.data.Y)}
         metadata['distargs'] = self.get_distargs()
         metadata['hypers'] = self.get_hypers()
         metadata['hypers']['mu'] = np.asarray(self.mu).tolist()
diff --git a/src/regressions/ols.py b/src/regressions/ols.py
index 35071ad..c8a5639 100644
--- a/src/regressions/ols.py
+++ b/src/regressions/ols.py
@@ -218,7 +218,8 @@ class OrdinaryLeastSquares(CGpm):
         metadata['outputs'] = self.outputs
         metadata['inputs'] = self.inputs
         metadata['N'] = self.N
-        metadata['data'] = {'x': self.data.x, 'Y': self.data.Y}
+        metadata['data'] = {
+            'x': OrderedDict(self.data.x), 'Y': OrderedDict(self.data.Y)}
         metadata['distargs'] = self.get_distargs()
         metadata['params'] = self.get_params()
         metadata['factory'] = ('cgpm.regressions.ols', 'OrdinaryLeastSquares')
-- 
2.43.0


From 3189ea8ea92e6f96c258c86f7d55411dc68309e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 49/60] fix: conditional normal given nothing is the normal
 itself

---
 src/utils/mvnormal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/mvnormal.py b/src/utils/mvnormal.py
index 5688918..33ec033 100644
--- a/src/utils/mvnormal.py
+++ b/src/utils/mvnormal.py
@@ -280,6 +280,10 @@ def conditional(X2, Mu1, Mu2, Sigma11, Sigma12, Sigma21, Sigma22):
   assert np.all(np.isfinite(Sigma21))
   assert np.all(np.isfinite(Sigma22))
 
+  # Nothing is fixed: the distribution stays as it is.
+  if d2 == 0:
+    return (Mu1, Sigma11)
+
   covf22 = _covariance_factor(Sigma22)
   Mu_ = Mu1 + np.dot(Sigma12, covf22.solve(X2 - Mu2))
   Sigma_ = Sigma11 - np.dot(Sigma12, covf22.solve(Sigma21))
-- 
2.43.0


From cfa1ddb5869bd7923b6143d997a4b49416858fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 50/60] fix: composed models refuse queries of unknown
 variables, networks do not

---
 src/crosscat/state.py     | 10 ++++++++++
 src/network/importance.py | 10 ----------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 9ae26cc..6c66610 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -448,6 +448,7 @@ class State(CGpm):
             return sampling.state_logpdf(self, rowid, targets, constraints)
         constraints = self._populate_constraints(rowid, targets, constraints)
         network = self.build_network(accuracy=accuracy)
+        self._validate_network_query(network, targets, constraints)
         return network.logpdf(rowid, targets, constraints, inputs)
 
     # --------------------------------------------------------------------------
@@ -463,6 +464,7 @@ class State(CGpm):
             return sampling.state_simulate(self, rowid, targets, constraints, N)
         constraints = self._populate_constraints(rowid, targets, constraints)
         network = self.build_network(accuracy=accuracy)
+        self._validate_network_query(network, targets, constraints)
         return network.simulate(rowid, targets, constraints, inputs, N)
 
     # --------------------------------------------------------------------------
@@ -525,6 +527,14 @@ class State(CGpm):
                     and any(not good_constraint(rowid, e) for e in constraints):
                 raise ValueError('Cannot use observed cell in constraints.')
 
+    def _validate_network_query(self, network, targets, constraints):
+        unknown = [v for v in targets if v not in network.v_to_c] + [
+            v for v in constraints
+            if v not in network.v_to_c and v not in network.extraneous
+        ]
+        if unknown:
+            raise ValueError('Unknown variables in query: %s.' % (unknown,))
+
     # --------------------------------------------------------------------------
     # Bulk operations for multiprocessing performance.
 
diff --git a/src/network/importance.py b/src/network/importance.py
index acaa8ac..0aba7eb 100644
--- a/src/network/importance.py
+++ b/src/network/importance.py
@@ -42,7 +42,6 @@ class ImportanceNetwork(object):
             constraints = {}
         if inputs is None:
             inputs = {}
-        self._validate_query(targets, constraints)
         samples, weights = zip(*[
             self.weighted_sample(rowid, targets, constraints, inputs)
             for _i in xrange(self.accuracy)
@@ -59,7 +58,6 @@ class ImportanceNetwork(object):
             constraints = {}
         if inputs is None:
             inputs = {}
-        self._validate_query(targets, constraints)
         # Compute joint probability.
         samples_joint, weights_joint = zip(*[
             self.weighted_sample(
@@ -78,14 +76,6 @@ class ImportanceNetwork(object):
         # Return log ratio.
         return logp_joint - logp_constraints
 
-    def _validate_query(self, targets, constraints):
-        unknown = [v for v in targets if v not in self.v_to_c] + [
-            v for v in constraints
-            if v not in self.v_to_c and v not in self.extraneous
-        ]
-        if unknown:
-            raise ValueError('Unknown variables in query: %s.' % (unknown,))
-
     def weighted_sample(self, rowid, targets, constraints, inputs):
         targets_required = self.retrieve_required_inputs(targets, constraints)
         targets_all = targets + targets_required
-- 
2.43.0


From 887f765c3d8f7b317362248d91ba014cf7f41874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:51 +0000
Subject: [PATCH 51/60] fix: schema parser reads categorical(k=...) statistical
 types and keeps their number of levels

---
 src/utils/data.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/utils/data.py b/src/utils/data.py
index c8b6d7a..ce0f529 100644
--- a/src/utils/data.py
+++ b/src/utils/data.py
@@ -90,10 +90,11 @@ def parse_schema(schema, dataframe):
         if stattype == 'ignore':
             continue
         X = dataframe[column]
+        (stattype,), (distarg,) = cu.parse_distargs([stattype])
         columns.append(column)
         cctypes.append(stattype)
         outputs.append(index)
-        distargs.append(None)
+        distargs.append(distarg)
         # XXX Should check for is_numeric!
         if stattype in ['bernoulli', 'categorical']:
             mapping = build_valmap(X)
@@ -102,12 +103,12 @@ def parse_schema(schema, dataframe):
             if stattype == 'bernoulli':
                 assert len(mapping) == 2
             else:
-                # Did user specify categorical mapping?
-                dist, k_user = cu.parse_distargs([column])
-                if k_user == [None]:
+                # Did user specify number of categories?
+                if distarg is None:
                     distargs[-1] = {'k': len(mapping)}
                 else:
-                    assert len(mapping) <= k_user
+                    assert len(mapping) <= distarg['k']
+                    distargs[-1] = {'k': int(distarg['k'])}
         D.append(X)
     T = np.asarray(D).T
     assert len(cctypes) == len(distargs) == len(columns)
@@ -116,7 +117,7 @@ def parse_schema(schema, dataframe):
 
 
 def build_valmap(column):
-    uniques = [u for u in sorted(column.unique()) if not pd.isnull(u)]
+    uniques = sorted(u for u in column.unique() if not pd.isnull(u))
     return {u:k for k,u in enumerate(uniques)}
 
 
-- 
2.43.0


From fc8da5c41bb55cfa98686e337fd99d4de83fc58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:51 +0000
Subject: [PATCH 52/60] fix: gibbs tables of a component without observations
 are a single fresh table

---
 src/primitives/crp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primitives/crp.py b/src/primitives/crp.py
index fae7620..ba4e9bc 100644
--- a/src/primitives/crp.py
+++ b/src/primitives/crp.py
@@ -139,7 +139,8 @@ class Crp(DistributionGpm):
         K = sorted(self.counts)
         singleton = self.singleton(rowid)
         m_aux = m - 1 if singleton else m
-        t_aux = [max(self.counts) + 1 + m for m in range(m_aux)]
+        t_start = max(self.counts) + 1 if self.counts else 0
+        t_aux = [t_start + m for m in range(m_aux)]
         return K + t_aux
 
     def singleton(self, rowid):
-- 
2.43.0


From c475d528587b8b328a07127ebad8e634c6ab8f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:37 +0000
Subject: [PATCH 53/60] fix: conditional mutual information marginalises over
 the conditions given the fixed ones

---
 src/crosscat/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 6c66610..90d7ba8 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -741,7 +741,7 @@ class State(CGpm):
             return m
         if progress:
             self._progress(0./T)
-        m_samples = self.simulate(None, m_constraints, N=T)
+        m_samples = self.simulate(None, m_constraints, e_constraints, N=T)
         mi = sum(compute_one(i, samp) for i, samp in enumerate(m_samples))
         return mi / float(T)
 
-- 
2.43.0


From acdc8051cfdbeab186760a3c902e12bb342ca491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:41 +0000
Subject: [PATCH 54/60] fix: row partitions are exported to lovecat in the
 order of the rows

---
 src/crosscat/lovecat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/lovecat.py b/src/crosscat/lovecat.py
index 239ceec..c28501f 100644
--- a/src/crosscat/lovecat.py
+++ b/src/crosscat/lovecat.py
@@ -100,7 +100,7 @@ def _crosscat_X_D(state, M_c):
     views_unique = sorted(set(view_assignments))
 
     cluster_assignments = [
-        state.views[v].Zr().values()
+        [state.views[v].Zr(rowid) for rowid in xrange(state.n_rows())]
         for v in views_unique
     ]
     cluster_assignments_unique = [
-- 
2.43.0


From 5f30e230ea247ebc675cffa9eb657f23a5b16de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:41 +0000
Subject: [PATCH 55/60] fix: lovecat transitions run one step when neither
 steps nor seconds are given

---
 src/crosscat/lovecat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/lovecat.py b/src/crosscat/lovecat.py
index c28501f..1e344d8 100644
--- a/src/crosscat/lovecat.py
+++ b/src/crosscat/lovecat.py
@@ -349,7 +349,7 @@ def transition(
     if N is None and S is None:
         n_steps = 1
         max_time = -1
-    if N is not None and S is None:
+    elif N is not None and S is None:
         n_steps = N
         max_time = -1
     elif S is not None and N is None:
-- 
2.43.0


From 6b810b9bee36ad5008cfbc5d833688b5c74dc3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:47 +0000
Subject: [PATCH 56/60] fix: dependence constraints are exported to lovecat by
 column index

---
 src/crosscat/lovecat.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/crosscat/lovecat.py b/src/crosscat/lovecat.py
index 1e344d8..c16815e 100644
--- a/src/crosscat/lovecat.py
+++ b/src/crosscat/lovecat.py
@@ -201,18 +201,22 @@ def _crosscat_X_L(state, M_c, X_D):
     # partition in each view), as well as X_L['column_partition']['assignments']
     view_states = [view_state(v) for v in views_unique]
 
-    # Generates X_L['col_ensure'].
+    # Generates X_L['col_ensure'], where lovecat refers to a column by its
+    # zero-based index in state.outputs.
     col_ensure = dict()
     if state.Cd:
+        blocks = [[state.outputs.index(c) for c in block] for block in state.Cd]
         col_ensure['dependent'] = {
             str(column) : list(block)
-            for block in state.Cd for column in block
+            for block in blocks for column in block
         }
     if state.Ci:
         from crosscat.utils.general_utils import get_scc_from_tuples
+        pairs = [tuple(state.outputs.index(c) for c in pair)
+            for pair in state.Ci]
         col_ensure['independent'] = {
             str(column) : list(block) for
-            column, block in get_scc_from_tuples(state.Ci).iteritems()
+            column, block in get_scc_from_tuples(pairs).iteritems()
         }
 
     return {
-- 
2.43.0


From 838106f4c9fa50d884abc6afe42ce79efab2c4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:47 +0000
Subject: [PATCH 57/60] fix: a transition of zero iterations or zero seconds
 runs no kernel

---
 src/crosscat/state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 90d7ba8..e19b60e 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -949,11 +949,11 @@ class State(CGpm):
             if S is None:
                 p_seconds = 0
             else:
-                p_seconds = (time.time() - start) / S
+                p_seconds = (time.time() - start) / S if S else 1
             if N is None:
                 p_iters = 0
             else:
-                p_iters = float(iters)/N
+                p_iters = float(iters)/N if N else 1
             return max(p_iters, p_seconds)
 
         if N is None and S is None:
-- 
2.43.0


From 81a827913faef74727513134f6f3581f1733ef8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:45 +0000
Subject: [PATCH 58/60] fix: loom transitions of an engine run one pass when no
 number is given

---
 src/crosscat/loomcat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crosscat/loomcat.py b/src/crosscat/loomcat.py
index 64abd68..159c359 100644
--- a/src/crosscat/loomcat.py
+++ b/src/crosscat/loomcat.py
@@ -318,6 +318,9 @@ def transition_engine(
         for state in engine.states:
             state._loom_path = loom_path
 
+    if N is None:
+        N = 1
+
     # Run transitions using Loom multiprocessing.
     loom.tasks.infer(
         engine.states[0]._loom_path['results'],
-- 
2.43.0


From 86ea75dc49f2b853a94feb0a7a19a240f8212562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:45 +0000
Subject: [PATCH 59/60] fix: every loom project has a directory of its own

---
 src/crosscat/loomcat.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/crosscat/loomcat.py b/src/crosscat/loomcat.py
index 159c359..af03ef0 100644
--- a/src/crosscat/loomcat.py
+++ b/src/crosscat/loomcat.py
@@ -17,6 +17,7 @@
 import csv
 import itertools
 import os
+import tempfile
 
 import loom.cleanse
 import loom.tasks
@@ -52,10 +53,13 @@ def _generate_loom_stattypes(state):
 
 def _generate_project_paths(name=None):
     """Creates a new project in the loom store."""
-    if name is None:
-        name = cu.timestamp()
     store = _retrieve_loom_store()
-    project_root = os.path.join(store, name)
+    if name is None:
+        # Projects created within the same second are different projects.
+        project_root = tempfile.mkdtemp(
+            prefix='%s-' % (cu.timestamp(),), dir=store)
+    else:
+        project_root = os.path.join(store, name)
     # Create necessary subdirectories.
     paths = {
         'root'      : project_root,
-- 
2.43.0


From df219e8500ec6ed2b87b8ad1bc6b10dad72d0af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:46 +0000
Subject: [PATCH 60/60] fix: a state whose data or types have changed makes a
 new loom project

---
 src/crosscat/state.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index e19b60e..12a0e7a 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -230,6 +230,8 @@ class State(CGpm):
         for x in T:
             scratch.check_observation(
                 {outputs[0]: x}, {self.crp_id_view: 0})
+        # The loom project, if any, describes other data.
+        self._loom_path = None
         # Append new output to outputs.
         col = outputs[0]
         self.X[col] = list(T)
@@ -270,6 +272,8 @@ class State(CGpm):
         if col not in self.outputs:
             raise ValueError('col does not exist: %s, %s.'
                 % (col, self.outputs))
+        # The loom project, if any, describes other data.
+        self._loom_path = None
         # Find the dim and its view.
         d_del = self.dim_for(col)
         v_del = self.Zv(col)
@@ -306,6 +310,8 @@ class State(CGpm):
             raise ValueError('Cannot incorporate nan: %s.' % observation)
         self._check_observation(
             {c: observation.get(c, float('nan')) for c in self.outputs})
+        # The loom project, if any, describes other data.
+        self._loom_path = None
         # Append the observation to dataset.
         for c in self.outputs:
             self.X[c].append(observation.get(c, float('nan')))
@@ -330,6 +336,8 @@ class State(CGpm):
             raise ValueError('Only last rowid may be unincorporated.')
         if self.n_rows() == 1:
             raise ValueError('Cannot unincorporate last rowid.')
+        # The loom project, if any, describes other data.
+        self._loom_path = None
         # Remove the observation from the dataset.
         for c in self.outputs:
             self.X[c].pop()
@@ -354,6 +362,8 @@ class State(CGpm):
             raise ValueError('Force observations requires NaN cells.')
         self._check_observation(gu.merged(
             {c: self.X[c][rowid] for c in self.outputs}, observation))
+        # The loom project, if any, describes other data.
+        self._loom_path = None
         for col, value in observation.iteritems():
             self.X[col][rowid] = value
         queries = vu.partition_list(
@@ -375,6 +385,8 @@ class State(CGpm):
         """Update the distribution type of self.dims[col] to cctype."""
         assert col in self.outputs
         self.view_for(col).update_cctype(col, cctype, distargs=distargs)
+        # The loom project, if any, describes other data.
+        self._loom_path = None
         self.transition_dim_grids(cols=[col])
         self.transition_dim_params(cols=[col])
         self.transition_dim_hypers(cols=[col])
-- 
2.43.0

