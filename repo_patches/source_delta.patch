From 29588c80a5dc6bbc283e3dcfe3488e3915ca468a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:06 +0000
Subject: [PATCH 01/93] fix: State.incorporate_dim must not alias the caller's
 list

---
 src/crosscat/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 527eb62..2e1c6de 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -205,7 +205,7 @@ class State(CGpm):
                 % inputs)
         # Append new output to outputs.
         col = outputs[0]
-        self.X[col] = T
+        self.X[col] = list(T)
         self.set_outputs(self.outputs + [col])
         # If v unspecified then transition the col.
         transition = [col] if v is None else []
-- 
2.43.0


From beaa4d29f2e1839d25b2f8cda026f285523b4075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:49 +0000
Subject: [PATCH 02/93] fix: NormalTrunc parameter prior and inference target

The uniform prior on mu has width h-l, and the Metropolis-Hastings target
of (mu, sigma) is the joint density logpdf_score reports: it includes the
prior and one truncation normalizer per observation, subtracted.
---
 src/primitives/normal_trunc.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/primitives/normal_trunc.py b/src/primitives/normal_trunc.py
index 1aa34f7..73714af 100644
--- a/src/primitives/normal_trunc.py
+++ b/src/primitives/normal_trunc.py
@@ -112,18 +112,25 @@ class NormalTrunc(DistributionGpm):
     def transition_params(self):
         n_samples = 100
 
+        # Joint density of the parameters and the truncated observations.
+        def fn_logpdf(mu, sigma):
+            return (
+                NormalTrunc.calc_log_likelihood(
+                    self.N, self.sum_x, self.sum_x_sq, sigma, mu)
+                - self.N * NormalTrunc.calc_log_normalizer(
+                    mu, sigma, self.l, self.h)
+                + NormalTrunc.calc_log_prior(
+                    mu, sigma, self.alpha, self.beta, self.l, self.h))
+
         # Transition mu.
-        fn_logpdf_mu = lambda mu : NormalTrunc.calc_log_likelihood(
-            self.N, self.sum_x, self.sum_x_sq, self.sigma, mu)
+        fn_logpdf_mu = lambda mu : fn_logpdf(mu, self.sigma)
 
         self.mu = su.mh_sample(
             self.mu, fn_logpdf_mu, 1, [self.l, self.h],
             burn=n_samples, rng=self.rng)
 
         # Transition sigma.
-        fn_logpdf_sigma = lambda sigma : NormalTrunc.calc_log_likelihood(
-            self.N, self.sum_x, self.sum_x_sq, sigma, self.mu) + \
-            NormalTrunc.calc_log_normalizer(self.mu, sigma, self.l, self.h)
+        fn_logpdf_sigma = lambda sigma : fn_logpdf(self.mu, sigma)
 
         self.sigma = su.mh_sample(
             self.sigma, fn_logpdf_sigma, 1, [0, float('inf')], burn=n_samples,
@@ -193,7 +200,7 @@ class NormalTrunc(DistributionGpm):
     @staticmethod
     def calc_log_prior(mu, sigma, alpha, beta, l, h):
         log_sigma = gamma.logpdf(sigma, alpha, scale=beta)
-        log_mu = uniform.logpdf(mu, loc=l, scale=l+h)
+        log_mu = uniform.logpdf(mu, loc=l, scale=h-l)
         return log_mu + log_sigma
 
     @staticmethod
-- 
2.43.0


From 0ac46867b7898106f6279070f86b9eef1ad37932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 03/93] fix: align column Gibbs proposals with the order of the
 column crp

The data terms were computed in the insertion order of State.views but the
crp terms, the drawn view and the independence mask use sorted views.
---
 src/crosscat/state.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 2e1c6de..a0e3519 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -1061,19 +1061,23 @@ class State(CGpm):
         # Current dim object and view index.
         dim = self.dim_for(col)
 
+        # Candidate views, in the order used by the column crp: the existing
+        # views followed by the auxiliary views.
+        tables = self.crp.clusters[0].gibbs_tables(col, m=m)
+        t_views = tables[:len(self.views)]
+        t_aux = tables[len(self.views):]
+
         # Compute logp of the dim under existing views.
         dims_proposal = [
             self._dim_get_proposal(self.views[view], dim)
-            for view in self.views
+            for view in t_views
         ]
         logp_data = [
             self._dim_get_data_logp(self.views[view], dim)
-            for (view, dim) in zip(self.views, dims_proposal)
+            for (view, dim) in zip(t_views, dims_proposal)
         ]
 
         # Compute logp of the dim under auxiliary views.
-        tables = self.crp.clusters[0].gibbs_tables(col, m=m)
-        t_aux = tables[len(self.views):]
         dims_proposal_aux = [self._dim_get_proposal(None, dim) for _t in t_aux]
         views_proposal_aux = [
             View(self.X, outputs=[self.crp_id_view + t], rng=self.rng)
@@ -1098,7 +1102,7 @@ class State(CGpm):
         # Enforce independence constraints.
         avoid = [a for p in self.Ci if col in p for a in p if a != col]
         for a in avoid:
-            index = self.views.keys().index(self.Zv(a))
+            index = tables.index(self.Zv(a))
             logp_views[index] = float('-inf')
 
         # Draw a new view.
-- 
2.43.0


From f1f111f4463d41daa13327ea344034935802c61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 04/93] fix: forcing a cell updates the dims which take it as
 input

A row missing only the input of a conditional dim stayed marked as missing
in that dim after the input was forced.
---
 src/mixtures/view.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index 765026f..0897ced 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -185,10 +185,17 @@ class View(CGpm):
     # XXX Major hack to force values of NaN cells in incorporated rowids.
     def force_cell(self, rowid, observation):
         k = self.Zr(rowid)
-        for d in observation:
+        # Dims which use a forced cell as their input are affected as well.
+        affected = [
+            d for d in self.dims
+            if d in observation
+            or any(i in observation for i in self.dims[d].inputs[1:])
+        ]
+        for d in affected:
             self.dims[d].unincorporate(rowid)
+            value = observation[d] if d in observation else self.X[d][rowid]
             inputs = self._get_input_values(rowid, self.dims[d], k)
-            self.dims[d].incorporate(rowid, {d: observation[d]}, inputs)
+            self.dims[d].incorporate(rowid, {d: value}, inputs)
 
     # --------------------------------------------------------------------------
     # Update schema.
-- 
2.43.0


From d6598a1c18d11c1ce55817cf3988e0b9babaeccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:26 +0000
Subject: [PATCH 05/93] fix: a state built with conditional dims is composite

---
 src/crosscat/state.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index a0e3519..099c5cb 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -180,6 +180,7 @@ class State(CGpm):
         # - a hooked cgpm;
         # - a conditional dim.
         self._composite = False
+        self._update_is_composite()
 
     # --------------------------------------------------------------------------
     # Observe
-- 
2.43.0


From 17cdcef1e0023ec087c2a771b6f558888bff4171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:46 +0000
Subject: [PATCH 06/93] fix: a Dim is unchanged by an observation its component
 rejects

---
 src/mixtures/dim.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mixtures/dim.py b/src/mixtures/dim.py
index 8049b73..1c4afce 100644
--- a/src/mixtures/dim.py
+++ b/src/mixtures/dim.py
@@ -96,11 +96,14 @@ class Dim(CGpm):
         if rowid in self.Zr or rowid in self.Zi:
             raise ValueError('rowid already incorporated: %d.' % rowid)
         k, inputs_cluster, valid = self.preprocess(observation, None, inputs)
+        # Publish a fresh cluster only once it has accepted the observation.
+        cluster = self.clusters.get(k, self.aux_model)
+        if valid:
+            cluster.incorporate(rowid, observation, inputs_cluster)
         if k not in self.clusters:
-            self.clusters[k] = self.aux_model
+            self.clusters[k] = cluster
             self.aux_model = self.create_aux_model()
         if valid:
-            self.clusters[k].incorporate(rowid, observation, inputs_cluster)
             self.Zr[rowid] = k
         else:
             self.Zi[rowid] = k
-- 
2.43.0


From 2bfcb2e9dab163ae8e496b72ccde5b6b53e51b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:46 +0000
Subject: [PATCH 07/93] fix: a View is unchanged by a row one of its dims
 rejects

---
 src/mixtures/view.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index 0897ced..eca3cec 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -161,12 +161,25 @@ class View(CGpm):
             inputs.
         """
         k = observation.get(self.outputs[0], 0)
+        aux_models = {d: self.dims[d].aux_model for d in self.dims}
         self.crp.incorporate(rowid, {self.outputs[0]: k}, {-1: 0})
-        for d in self.dims:
-            self.dims[d].incorporate(
-                rowid,
-                observation={d: observation[d]},
-                inputs=self._get_input_values(rowid, self.dims[d], k))
+        incorporated = []
+        try:
+            for d in self.dims:
+                self.dims[d].incorporate(
+                    rowid,
+                    observation={d: observation[d]},
+                    inputs=self._get_input_values(rowid, self.dims[d], k))
+                incorporated.append(d)
+        except Exception:
+            # Restore the view if a dim rejects the observation.
+            self.crp.unincorporate(rowid)
+            for d in incorporated:
+                self.dims[d].unincorporate(rowid)
+                if k not in self.Nk():
+                    del self.dims[d].clusters[k]
+                self.dims[d].aux_model = aux_models[d]
+            raise
         # If the user did not specify a cluster assignment, sample one.
         if self.outputs[0] not in observation:
             self.transition_rows(rows=[rowid])
-- 
2.43.0


From ce57ad6057635fd426ec6806fd5b401bfbfd6c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:46 +0000
Subject: [PATCH 08/93] fix: a State is unchanged by a row one of its views
 rejects

---
 src/crosscat/state.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 099c5cb..6789d0f 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -280,12 +280,22 @@ class State(CGpm):
         if self.hypothetical(rowid):
             rowid = self.n_rows()-1
         # Tell the views.
-        for v in self.views:
-            query_v = {d: self.X[d][rowid] for d in self.views[v].dims}
-            crp_v = self.views[v].outputs[0]
-            cluster_v = {crp_v: observation[crp_v]} if crp_v in observation\
-                else {}
-            self.views[v].incorporate(rowid, gu.merged(cluster_v, query_v))
+        incorporated = []
+        try:
+            for v in self.views:
+                query_v = {d: self.X[d][rowid] for d in self.views[v].dims}
+                crp_v = self.views[v].outputs[0]
+                cluster_v = {crp_v: observation[crp_v]} \
+                    if crp_v in observation else {}
+                self.views[v].incorporate(rowid, gu.merged(cluster_v, query_v))
+                incorporated.append(v)
+        except Exception:
+            # Restore the state if a view rejects the observation.
+            for v in incorporated:
+                self.views[v].unincorporate(rowid)
+            for c in self.outputs:
+                self.X[c].pop()
+            raise
         # Validate.
         self._check_partitions()
 
-- 
2.43.0


From 52e19719895ba1cfe37089f0bdbf5f77cd6ca010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:20 +0000
Subject: [PATCH 09/93] fix: a State is unchanged by a dim it rejects

---
 src/crosscat/state.py | 53 ++++++++++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 6789d0f..9f4234a 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -204,30 +204,44 @@ class State(CGpm):
             raise ValueError(
                 'Cannot incorporate dim with inputs: %s.'
                 % inputs)
+        # Transitioning the col requires column inference to be possible.
+        if v is None:
+            self._check_transition_dims()
         # Append new output to outputs.
         col = outputs[0]
+        outputs_prev = self.outputs
         self.X[col] = list(T)
         self.set_outputs(self.outputs + [col])
         # If v unspecified then transition the col.
         transition = [col] if v is None else []
         # Determine correct view.
         v_add = 0 if v is None else v
-        if v_add in self.views:
-            view = self.views[v_add]
-        else:
-            view = View(self.X, outputs=[self.crp_id_view + v_add], rng=self.rng)
-            self._append_view(view, v_add)
-        # Create the dimension.
-        # XXX Does not handle conditional models; consider moving to view?
-        D = Dim(
-            outputs=outputs,
-            inputs=[view.outputs[0]],
-            cctype=cctype,
-            distargs=distargs,
-            rng=self.rng
-        )
-        D.transition_hyper_grids(self.X[col])
-        view.incorporate_dim(D)
+        fresh = v_add not in self.views
+        try:
+            if not fresh:
+                view = self.views[v_add]
+            else:
+                view = View(
+                    self.X, outputs=[self.crp_id_view + v_add], rng=self.rng)
+                self._append_view(view, v_add)
+            # Create the dimension.
+            # XXX Does not handle conditional models; consider moving to view?
+            D = Dim(
+                outputs=outputs,
+                inputs=[view.outputs[0]],
+                cctype=cctype,
+                distargs=distargs,
+                rng=self.rng
+            )
+            D.transition_hyper_grids(self.X[col])
+            view.incorporate_dim(D)
+        except Exception:
+            # Restore the state if the dim is invalid or rejects its data.
+            del self.X[col]
+            self.set_outputs(outputs_prev)
+            if fresh:
+                self.views.pop(v_add, None)
+            raise
         self.crp.incorporate(col, {self.crp_id: v_add}, {-1:0})
         # Transition.
         self.transition_dims(cols=transition)
@@ -1058,8 +1072,7 @@ class State(CGpm):
             return dim
         return copy.deepcopy(dim)
 
-    def _gibbs_transition_dim(self, col, m):
-        """Gibbs on col assignment to Views, with m auxiliary parameters"""
+    def _check_transition_dims(self):
         # XXX Disable col transitions if \exists conditional model anywhere.
         if any(d.is_conditional() for d in self.dims()):
             raise ValueError(
@@ -1069,6 +1082,10 @@ class State(CGpm):
                 'Cannot transition columns with dependence constraint, '
                 'use State.transition_lovecat.')
 
+    def _gibbs_transition_dim(self, col, m):
+        """Gibbs on col assignment to Views, with m auxiliary parameters"""
+        self._check_transition_dims()
+
         # Current dim object and view index.
         dim = self.dim_for(col)
 
-- 
2.43.0


From 0875303803ab4de873b6d6e378fa4d6aa2adb207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:20 +0000
Subject: [PATCH 10/93] fix: a State is unchanged by a forced cell it rejects

---
 src/crosscat/state.py | 17 ++++++++++++++---
 src/mixtures/view.py  |  4 +++-
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 9f4234a..80d91be 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -340,9 +340,20 @@ class State(CGpm):
             self.X[col][rowid] = value
         queries = vu.partition_list(
             {c: self.Zv(c) for c in observation}, observation)
-        for view_id, view_variables in queries.iteritems():
-            observation_v = {c: observation[c] for c in view_variables}
-            self.views[view_id].force_cell(rowid, observation_v)
+        forced = []
+        try:
+            for view_id, view_variables in queries.iteritems():
+                observation_v = {c: observation[c] for c in view_variables}
+                forced.append(view_id)
+                self.views[view_id].force_cell(rowid, observation_v)
+        except Exception:
+            # Restore the NaN cells if a view rejects a forced value.
+            for col in observation:
+                self.X[col][rowid] = float('nan')
+            for view_id in forced:
+                self.views[view_id].force_cell(
+                    rowid, {c: float('nan') for c in queries[view_id]})
+            raise
 
     # --------------------------------------------------------------------------
     # Schema updates.
diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index eca3cec..c21e09e 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -205,7 +205,9 @@ class View(CGpm):
             or any(i in observation for i in self.dims[d].inputs[1:])
         ]
         for d in affected:
-            self.dims[d].unincorporate(rowid)
+            # A dim which rejected a forced value does not have the rowid.
+            if rowid in self.dims[d].Zr or rowid in self.dims[d].Zi:
+                self.dims[d].unincorporate(rowid)
             value = observation[d] if d in observation else self.X[d][rowid]
             inputs = self._get_input_values(rowid, self.dims[d], k)
             self.dims[d].incorporate(rowid, {d: value}, inputs)
-- 
2.43.0


From 72228f5be70f03c9bc87f86a015e3bbbfd43b0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:47 +0000
Subject: [PATCH 11/93] fix: a State is unchanged by a cctype update it rejects

---
 src/crosscat/state.py | 17 +++++++++++++----
 src/mixtures/view.py  |  7 ++++++-
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 80d91be..865ce9b 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -361,10 +361,19 @@ class State(CGpm):
     def update_cctype(self, col, cctype, distargs=None):
         """Update the distribution type of self.dims[col] to cctype."""
         assert col in self.outputs
-        self.view_for(col).update_cctype(col, cctype, distargs=distargs)
-        self.transition_dim_grids(cols=[col])
-        self.transition_dim_params(cols=[col])
-        self.transition_dim_hypers(cols=[col])
+        view, dim = self.view_for(col), self.dim_for(col)
+        iterations = dict(self.diagnostics['iterations'])
+        view.update_cctype(col, cctype, distargs=distargs)
+        try:
+            self.transition_dim_grids(cols=[col])
+            self.transition_dim_params(cols=[col])
+            self.transition_dim_hypers(cols=[col])
+        except Exception:
+            # Restore the old dim if the new dim cannot be initialized.
+            view.unincorporate_dim(self.dim_for(col))
+            view.incorporate_dim(dim, reassign=False)
+            self.diagnostics['iterations'] = iterations
+            raise
         # Update composite flag.
         self._update_is_composite()
         # Validate.
diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index c21e09e..4ec761e 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -239,7 +239,12 @@ class View(CGpm):
             outputs=[col], inputs=[self.outputs[0]]+inputs,
             cctype=cctype, distargs=distargs_dim, rng=self.rng)
         self.unincorporate_dim(D_old)
-        self.incorporate_dim(D_new)
+        try:
+            self.incorporate_dim(D_new)
+        except Exception:
+            # Restore the old dim if the new dim rejects the data.
+            self.incorporate_dim(D_old, reassign=False)
+            raise
 
     # --------------------------------------------------------------------------
     # Inference
-- 
2.43.0


From 83aabc4a66afabd0952019265051f24df1346581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:47 +0000
Subject: [PATCH 12/93] fix: reject removing a dim which is the input of
 another dim

---
 src/crosscat/state.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 865ce9b..5d25623 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -256,7 +256,11 @@ class State(CGpm):
         if self.n_cols() == 1:
             raise ValueError('State has only one dim, cannot unincorporate.')
         if col not in self.outputs:
-            raise ValueError('col does not exist: %s, %s.')
+            raise ValueError('col does not exist: %s, %s.'
+                % (col, self.outputs))
+        if any(col in d.inputs[1:] for d in self.dims()):
+            raise ValueError('col is the input of a conditional dim: %s.'
+                % (col,))
         # Find the dim and its view.
         d_del = self.dim_for(col)
         v_del = self.Zv(col)
-- 
2.43.0


From 248dbc00a0fe8c5ccbbac0b79c2537eb34545d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:47 +0000
Subject: [PATCH 13/93] fix: relevance_probability removes hypothetical rows on
 error

---
 src/crosscat/state.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 5d25623..d294904 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -659,22 +659,25 @@ class State(CGpm):
         # Produce hypothetical rowids.
         rowid_hypothetical = range(
             self.n_rows(), self.n_rows() + len(hypotheticals))
-        # Incorporate hypothetical rows.
-        for rowid, query in zip(rowid_hypothetical, hypotheticals):
-            for d in view.dims:
-                self.X[d].append(query[d])
-            view.incorporate(rowid, query)
-        # Compute the relevance probability.
-        rowid_all = rowid_query + rowid_hypothetical
-        relevance = all(
-            view.Zr(rowid_target) == view.Zr(rq)
-            for rq in rowid_all
-        ) if rowid_all else 0
-        # Unincorporate hypothetical rows.
-        for rowid in reversed(rowid_hypothetical):
+        n_rows = self.n_rows()
+        try:
+            # Incorporate hypothetical rows.
+            for rowid, query in zip(rowid_hypothetical, hypotheticals):
+                for d in view.dims:
+                    self.X[d].append(query[d])
+                view.incorporate(rowid, query)
+            # Compute the relevance probability.
+            rowid_all = rowid_query + rowid_hypothetical
+            relevance = all(
+                view.Zr(rowid_target) == view.Zr(rq)
+                for rq in rowid_all
+            ) if rowid_all else 0
+        finally:
+            # Unincorporate hypothetical rows.
+            for rowid in reversed(range(n_rows, view.n_rows())):
+                view.unincorporate(rowid)
             for d in view.dims:
-                self.X[d].pop()
-            view.unincorporate(rowid)
+                del self.X[d][n_rows:]
         return int(relevance)
 
     # --------------------------------------------------------------------------
-- 
2.43.0


From 847f457c7b5597ca7ed9aa2cf73a36766e89076c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:14 +0000
Subject: [PATCH 14/93] fix: error message of an invalid Geometric observation

---
 src/primitives/geometric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/geometric.py b/src/primitives/geometric.py
index 28f1975..5494ef7 100644
--- a/src/primitives/geometric.py
+++ b/src/primitives/geometric.py
@@ -48,7 +48,7 @@ class Geometric(DistributionGpm):
         DistributionGpm.incorporate(self, rowid, observation, inputs)
         x = observation[self.outputs[0]]
         if not (x % 1 == 0 and x >= 0):
-            raise ValueError('Invalid Geometric: %s') % str(x)
+            raise ValueError('Invalid Geometric: %s' % str(x))
         self.N += 1
         self.sum_x += x
         self.data[rowid] = x
-- 
2.43.0


From 180808b3cb2e9c58e5ea887bf01f7467a51093b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:20 +0000
Subject: [PATCH 15/93] fix: Engine.from_metadata must not modify the metadata

---
 src/crosscat/engine.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/crosscat/engine.py b/src/crosscat/engine.py
index 1c79e4f..706374e 100644
--- a/src/crosscat/engine.py
+++ b/src/crosscat/engine.py
@@ -410,15 +410,14 @@ class Engine(object):
             rng=rng,
             multiprocess=multiprocess)
         # Repopulate the states with the dataset.
-        for m in metadata['states']:
-            m['X'] = metadata['X']
-        num_states = len(metadata['states'])
+        states = [dict(m, X=metadata['X']) for m in metadata['states']]
+        num_states = len(states)
         def retrieve_state((state, seed)):
             return State.from_metadata(state, rng=gu.gen_rng(seed))
         mapper = parallel_map if multiprocess else map
         engine.states = mapper(
             retrieve_state,
-            zip(metadata['states'], engine._get_seeds(num_states)))
+            zip(states, engine._get_seeds(num_states)))
         return engine
 
     def to_pickle(self, fileptr):
-- 
2.43.0


From 59266f8da2e0024215dda17a7b3d923763c2e5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:20 +0000
Subject: [PATCH 16/93] fix: update_cctype must not alias the caller's inputs

---
 src/mixtures/view.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index 4ec761e..80fffe5 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -223,10 +223,10 @@ class View(CGpm):
         inputs = []
         # XXX Horrid hack.
         if cctype_class(cctype).is_conditional():
-            inputs = distargs_dim.get('inputs', [
+            inputs = list(distargs_dim.get('inputs', [
                 d for d in sorted(self.dims)
                 if d != col and not self.dims[d].is_conditional()
-            ])
+            ]))
             if len(self.dims) == 0 or len(inputs) == 0:
                 raise ValueError('No inputs for conditional dimension.')
             distargs_dim['inputs'] = {
-- 
2.43.0


From 9a14c5f894cd42c8e825910133f100db4597ef49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:14 +0000
Subject: [PATCH 17/93] fix: State.to_metadata is a snapshot of the state

---
 src/crosscat/state.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index d294904..c73f9d8 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -1250,7 +1250,7 @@ class State(CGpm):
 
         # Dataset.
         metadata['X'] = self.data_array().tolist()
-        metadata['outputs'] = self.outputs
+        metadata['outputs'] = list(self.outputs)
 
         # View partition data.
         metadata['alpha'] = self.alpha()
@@ -1263,16 +1263,16 @@ class State(CGpm):
         metadata['suffstats'] = []
         for dim in self.dims():
             metadata['cctypes'].append(dim.cctype)
-            metadata['hypers'].append(dim.hypers)
+            metadata['hypers'].append(dict(dim.hypers))
             # XXX Inputs to conditional dim are stored in
             # distargs['inputs']['indexes']; instead create a separate metadata
             # entry for the dimension inputs.
-            metadata['distargs'].append(dim.distargs)
+            metadata['distargs'].append(copy.deepcopy(dim.distargs))
             metadata['suffstats'].append(dim.get_suffstats().items())
 
         # Dependence constraints.
-        metadata['Cd'] = self.Cd
-        metadata['Ci'] = self.Ci
+        metadata['Cd'] = copy.deepcopy(self.Cd)
+        metadata['Ci'] = copy.deepcopy(self.Ci)
 
         # View data.
         metadata['Zrv'] = []
@@ -1283,7 +1283,7 @@ class State(CGpm):
             metadata['view_alphas'].append((v, view.alpha()))
 
         # Diagnostic data.
-        metadata['diagnostics'] = self.diagnostics
+        metadata['diagnostics'] = copy.deepcopy(self.diagnostics)
 
         # Hooked CGPMs.
         metadata['hooked_cgpms'] = dict()
-- 
2.43.0


From e67a328f8c088332f232b3482e5ad157951478e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:14 +0000
Subject: [PATCH 18/93] fix: a State must not alias the constraints and
 diagnostics given

---
 src/crosscat/state.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index c73f9d8..f996b60 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -75,8 +75,8 @@ class State(CGpm):
             raise ValueError('Row dependence constraints not implemented.')
         if Ri is not None:
             raise ValueError('Row independence constraints not implemented.')
-        self.Cd = [] if Cd is None else Cd
-        self.Ci = [] if Ci is None else Ci
+        self.Cd = [] if Cd is None else copy.deepcopy(Cd)
+        self.Ci = [] if Ci is None else copy.deepcopy(Ci)
         self.Rd = {}
         self.Ri = {}
         # Prepare the GPM for the column crp.
@@ -167,7 +167,7 @@ class State(CGpm):
             self.diagnostics = defaultdict(list)
             self.diagnostics['iterations'] = dict()
         else:
-            self.diagnostics = defaultdict(list, diagnostics)
+            self.diagnostics = defaultdict(list, copy.deepcopy(diagnostics))
 
         # -- Loom project ------------------------------------------------------
         self._loom_path = loom_path
-- 
2.43.0


From 4e2a1ff3de1862c9f3cd9de3f7f3b17bbab10af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:14 +0000
Subject: [PATCH 19/93] fix: a Dim must not alias the inputs in its distargs

---
 src/mixtures/dim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mixtures/dim.py b/src/mixtures/dim.py
index 1c4afce..0cc2b1a 100644
--- a/src/mixtures/dim.py
+++ b/src/mixtures/dim.py
@@ -14,6 +14,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import copy
 import math
 
 import numpy as np
@@ -75,7 +76,7 @@ class Dim(CGpm):
         # -- DistributionCGpms -------------------------------------------------
         self.model = cu.cctype_class(cctype)
         self.cctype = self.model.name()
-        self.distargs = dict(distargs) if distargs is not None else {}
+        self.distargs = copy.deepcopy(distargs) if distargs is not None else {}
 
         # -- Hyperparameters ---------------------------------------------------
         self.hyper_grids = {}
-- 
2.43.0


From 672d1346e0b1a2697e490b2ee180699e589a2253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:08 +0000
Subject: [PATCH 20/93] fix: relevance_probability leaves the auxiliary
 components alone

---
 src/crosscat/state.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index f996b60..b678e2a 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -660,6 +660,7 @@ class State(CGpm):
         rowid_hypothetical = range(
             self.n_rows(), self.n_rows() + len(hypotheticals))
         n_rows = self.n_rows()
+        aux_models = {d: view.dims[d].aux_model for d in view.dims}
         try:
             # Incorporate hypothetical rows.
             for rowid, query in zip(rowid_hypothetical, hypotheticals):
@@ -678,6 +679,7 @@ class State(CGpm):
                 view.unincorporate(rowid)
             for d in view.dims:
                 del self.X[d][n_rows:]
+                view.dims[d].aux_model = aux_models[d]
         return int(relevance)
 
     # --------------------------------------------------------------------------
-- 
2.43.0


From 71e1f06ada9d8543b23038f918d2ca50bd0b1a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:33 +0000
Subject: [PATCH 21/93] fix: reject removing a dim which has a dependence
 constraint

---
 src/crosscat/state.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index b678e2a..02eb617 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -261,6 +261,8 @@ class State(CGpm):
         if any(col in d.inputs[1:] for d in self.dims()):
             raise ValueError('col is the input of a conditional dim: %s.'
                 % (col,))
+        if any(col in block for block in itertools.chain(self.Cd, self.Ci)):
+            raise ValueError('col has a dependence constraint: %s.' % (col,))
         # Find the dim and its view.
         d_del = self.dim_for(col)
         v_del = self.Zv(col)
-- 
2.43.0


From 5f60e4e6fd07ab7f96323dcbb65b641a675aca0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:33 +0000
Subject: [PATCH 22/93] fix: reject constraints on negative columns

---
 src/utils/validation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/validation.py b/src/utils/validation.py
index 7f2dfaf..7fdd8ad 100644
--- a/src/utils/validation.py
+++ b/src/utils/validation.py
@@ -43,7 +43,7 @@ def validate_dependency_constraints(N, Cd, Ci):
             raise ValueError('Single customer in dependency constraint.')
         for col in block:
             # Every column must have correct index.
-            if N <= col:
+            if not 0 <= col < N:
                 raise ValueError('Dependence customer out of range.')
             # Every column must appear once only.
             if col not in counts:
@@ -59,7 +59,7 @@ def validate_dependency_constraints(N, Cd, Ci):
         # Ci entries are tuples only.
         if len(pair) != 2:
             raise ValueError('Independencies require two customers.')
-        if N <= pair[0] or N <= pair[1]:
+        if not (0 <= pair[0] < N and 0 <= pair[1] < N):
             raise ValueError('Independence customer of out range.')
         # Dummy case.
         if pair[0] == pair[1]:
-- 
2.43.0


From 36e60bc9b07a9c8806a48d22d6fa63780a885fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:33 +0000
Subject: [PATCH 23/93] fix: independence constraints may be lists

---
 src/utils/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/validation.py b/src/utils/validation.py
index 7fdd8ad..9fad35a 100644
--- a/src/utils/validation.py
+++ b/src/utils/validation.py
@@ -80,7 +80,7 @@ def check_compatible_constraints(Cd1, Ci1, Cd2, Ci2):
 def check_compatible_customers(Cd, Ci, Ri, Rd, a, b):
     """Checks if customers a,b are compatible."""
     # Explicitly independent.
-    if (a,b) in Ci or (b,a) in Ci:
+    if any(set(pair) == set([a,b]) for pair in Ci):
         return False
     # Incompatible Rd/Ri constraints.
     if (a in Rd or a in Ri) and (b in Rd or b in Ri):
-- 
2.43.0


From c7e2a4dbbdc2f2ede187bc1563c0b001a5d24f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:33 +0000
Subject: [PATCH 24/93] fix: reject a column partition which violates the
 constraints

---
 src/crosscat/state.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 02eb617..bd71334 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -119,6 +119,16 @@ class State(CGpm):
                     self.crp.incorporate(c, z, {-1:0})
         # Load the provided Zv without simulation.
         else:
+            if self.Ci or self.Cd:
+                # The provided partition must satisfy the constraints.
+                vu.validate_crp_constrained_input(
+                    None, self.Cd, self.Ci, self.Rd, self.Ri)
+                if any(c not in Zv for b in itertools.chain(self.Cd, self.Ci)
+                        for c in b):
+                    raise ValueError('Constraints on unknown outputs.')
+                if not vu.validate_crp_constrained_partition(
+                        Zv, self.Cd, self.Ci, self.Rd, self.Ri):
+                    raise ValueError('Zv violates the constraints.')
             for c, z in Zv.iteritems():
                 self.crp.incorporate(c, {self.crp_id: z}, {-1:0})
 
-- 
2.43.0


From fbf2c4298c4cb1976574f86a08dab7fc637a13ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:33 +0000
Subject: [PATCH 25/93] fix: a State is unchanged by an invalid lovecat
 structure

---
 src/crosscat/lovecat.py | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/crosscat/lovecat.py b/src/crosscat/lovecat.py
index 239ceec..cc6071c 100644
--- a/src/crosscat/lovecat.py
+++ b/src/crosscat/lovecat.py
@@ -20,6 +20,7 @@ import numpy as np
 
 from cgpm.mixtures.view import View
 from cgpm.utils import timer as tu
+from cgpm.utils import validation as vu
 
 
 def _crosscat_M_c(state):
@@ -236,16 +237,18 @@ def _update_state(state, M_c, X_L, X_D):
     assert all(len(partition)==state.n_rows() for partition in X_D)
     assert len(X_D) == len(X_L['view_state'])
     # Perform checking on X_L.
-    assert len(X_L['column_partition']['assignments']) == len(state.outputs)
-
-    # Update the global state alpha.
-    state.crp.set_hypers(
-        {'alpha': X_L['column_partition']['hypers']['alpha']}
-    )
-
-    assert state.alpha() == X_L['column_partition']['hypers']['alpha']
-    assert state.crp.clusters[0].alpha ==\
-        X_L['column_partition']['hypers']['alpha']
+    assignments = X_L['column_partition']['assignments']
+    assert len(assignments) == len(state.outputs)
+    assert set(assignments) == set(xrange(len(X_D)))
+    assert X_L['column_partition']['hypers']['alpha'] > 0
+    assert all(
+        v['row_partition_model']['hypers']['alpha'] > 0
+        for v in X_L['view_state'])
+    # Check the dependence constraints.
+    if not vu.validate_crp_constrained_partition(
+            dict(zip(state.outputs, assignments)),
+            state.Cd, state.Ci, state.Rd, state.Ri):
+        raise ValueError('Lovecat violated the dependence constraints.')
 
     # Create the new views.
     offset = max(state.views) + 1
@@ -263,7 +266,18 @@ def _update_state(state, M_c, X_L, X_D):
             rng=state.rng
         )
         new_views.append(view)
-        state._append_view(view, index)
+
+    # Update the global state alpha.
+    state.crp.set_hypers(
+        {'alpha': X_L['column_partition']['hypers']['alpha']}
+    )
+
+    assert state.alpha() == X_L['column_partition']['hypers']['alpha']
+    assert state.crp.clusters[0].alpha ==\
+        X_L['column_partition']['hypers']['alpha']
+
+    for v, view in enumerate(new_views):
+        state._append_view(view, v + offset)
 
     # Migrate the dims to their view partitions.
     for i, c in enumerate(state.outputs):
-- 
2.43.0


From 1b1752af0aec8d7294e7aa4d7eeaec2ed8011772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:23 +0000
Subject: [PATCH 26/93] fix: a restored state retains the tokens of its
 composed cgpms

---
 src/crosscat/state.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index bd71334..b845a4e 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -1338,12 +1338,15 @@ class State(CGpm):
             loom_path=metadata.get('loom_path', None),
             rng=rng,
         )
-        # Hook up the composed CGPMs.
-        for token, cgpm_metadata in metadata['hooked_cgpms'].iteritems():
+        # Hook up the composed CGPMs, retaining their tokens.
+        hooked_cgpms = [(int(token), cgpm_metadata) for token, cgpm_metadata
+            in metadata['hooked_cgpms'].iteritems()]
+        for token, cgpm_metadata in sorted(hooked_cgpms, key=lambda h: h[0]):
             builder = getattr(
                 importlib.import_module(cgpm_metadata['factory'][0]),
                 cgpm_metadata['factory'][1])
             cgpm = builder.from_metadata(cgpm_metadata, rng=rng)
+            state.token_generator = itertools.count(start=token)
             state.compose_cgpm(cgpm)
         return state
 
-- 
2.43.0


From cf47b31feea89de2c03a3554cc1a8b296a5ddae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:14 +0000
Subject: [PATCH 27/93] fix: parallel_map raises instead of hanging if a worker
 dies

A worker which was killed or exited, or whose result could not be pickled
with anything but a PicklingError, left the caller waiting forever, and a
failure to create the queues or an interrupt leaked pipes and workers.
---
 src/utils/parallel_map.py | 82 +++++++++++++++++++--------------------
 1 file changed, 41 insertions(+), 41 deletions(-)

diff --git a/src/utils/parallel_map.py b/src/utils/parallel_map.py
index a84ec1f..c83b456 100644
--- a/src/utils/parallel_map.py
+++ b/src/utils/parallel_map.py
@@ -15,9 +15,7 @@
 # You should have received a copy of the GNU General Public License
 # along with Venture.  If not, see <http://www.gnu.org/licenses/>.
 
-import cPickle as pickle
-import os
-import struct
+import select
 import traceback
 
 from multiprocessing import Process
@@ -25,13 +23,6 @@ from multiprocessing import Pipe
 from multiprocessing import cpu_count
 
 
-def le32enc(n):
-    return struct.pack('<I', n)
-
-def le32dec(s):
-    return struct.unpack('<I', s)[0]
-
-
 # Not using multiprocessing.pool because it is not clear how to get it
 # to share data from the parent to the child process.
 def parallel_map(f, l, parallelism=None):
@@ -40,7 +31,7 @@ def parallel_map(f, l, parallelism=None):
 
     # Per-process action: grab an input from the input queue, compute,
     # toss the output in the output queue.
-    def process_input(childno, inq_rd, outq_wr, retq_wr):
+    def process_input(inq_rd, outq_wr):
         while True:
             i = inq_rd.recv()
             if i is None:
@@ -50,34 +41,51 @@ def parallel_map(f, l, parallelism=None):
                 ok, fx = True, f(x)
             except Exception as e:
                 ok, fx = False, traceback.format_exc()
-            os.write(retq_wr, le32enc(childno))
             try:
                 outq_wr.send((i, ok, fx))
-            except pickle.PicklingError:
+            except Exception as e:
+                # The result cannot be pickled.
                 outq_wr.send((i, False, traceback.format_exc()))
 
-    def process_output(fl, ctr, output):
-        (i, ok, fx) = output
+    # Wait for an output item of any worker process, and return the number of
+    # that worker process.  If a worker process died, its output queue is at
+    # end of file.
+    def process_output(fl, ctr, outq):
+        ready, _, _ = select.select(outq, [], [])
+        j = outq.index(ready[0])
+        try:
+            (i, ok, fx) = outq[j].recv()
+        except EOFError:
+            raise RuntimeError('Subprocess died: %d' % (j,))
         if not ok:
             raise RuntimeError('Subprocess failed: %s' % (fx,))
         fl[i] = fx
         ctr[0] -= 1
+        return j
 
-    # Create the queues and worker processes.
-    retq_rd, retq_wr = os.pipe()
-    inq = [Pipe(duplex=False) for _ in xrange(ncpu)]
-    outq = [Pipe(duplex=False) for _ in xrange(ncpu)]
-    process = [
-        Process(target=process_input, args=(j, inq[j][0], outq[j][1], retq_wr))
-        for j in xrange(ncpu)
-    ]
+    # The queues and worker processes.
+    queues = []
+    process = []
+    inq = []
+    outq = []
 
     # Prepare to bail by terminating all the worker processes.
     try:
 
-        # Start the worker processes.
-        for p in process:
+        # Create the queues and start the worker processes.  Only the worker
+        # process retains its ends of its queues, so that its death is noticed.
+        for _ in xrange(ncpu):
+            inq_rd, inq_wr = Pipe(duplex=False)
+            queues.extend([inq_rd, inq_wr])
+            outq_rd, outq_wr = Pipe(duplex=False)
+            queues.extend([outq_rd, outq_wr])
+            p = Process(target=process_input, args=(inq_rd, outq_wr))
             p.start()
+            process.append(p)
+            inq_rd.close()
+            outq_wr.close()
+            inq.append(inq_wr)
+            outq.append(outq_rd)
 
         # Queue up the tasks one by one.  If the input queue is full,
         # process an output item to free up a worker process and try
@@ -87,26 +95,24 @@ def parallel_map(f, l, parallelism=None):
         ctr = [n]
         iterator = iter(xrange(n))
         for j, i in zip(xrange(ncpu), iterator):
-            inq[j][1].send(i)
+            inq[j].send(i)
         for i in iterator:
-            j = le32dec(os.read(retq_rd, 4))
-            process_output(fl, ctr, outq[j][0].recv())
-            inq[j][1].send(i)
+            j = process_output(fl, ctr, outq)
+            inq[j].send(i)
 
         # Process all the remaining output items.
         while 0 < ctr[0]:
-            j = le32dec(os.read(retq_rd, 4))
-            process_output(fl, ctr, outq[j][0].recv())
+            process_output(fl, ctr, outq)
 
         # Cancel all the worker processes.
-        for _inq_rd, inq_wr in inq:
+        for inq_wr in inq:
             inq_wr.send(None)
 
         # Wait for all the worker processes to complete.
         for p in process:
             p.join()
 
-    except Exception as e:           # paranoia
+    except:                          # paranoia
         # Terminate all subprocesses immediately and reraise.
         for p in process:
             if p.is_alive():
@@ -114,13 +120,7 @@ def parallel_map(f, l, parallelism=None):
         raise
 
     finally:
-        os.close(retq_rd)
-        os.close(retq_wr)
-        for inq_rd, inq_wr in inq:
-            inq_rd.close()
-            inq_wr.close()
-        for outq_rd, outq_wr in outq:
-            outq_rd.close()
-            outq_wr.close()
+        for queue in queues:
+            queue.close()
 
     return fl
-- 
2.43.0


From beb249577189c58030382f664f4d1e886691346b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:14 +0000
Subject: [PATCH 28/93] fix: parallel_map rejects a parallelism without any
 process

---
 src/utils/parallel_map.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/parallel_map.py b/src/utils/parallel_map.py
index c83b456..b65b7fd 100644
--- a/src/utils/parallel_map.py
+++ b/src/utils/parallel_map.py
@@ -28,6 +28,8 @@ from multiprocessing import cpu_count
 def parallel_map(f, l, parallelism=None):
 
     ncpu = cpu_count() if parallelism is None else parallelism
+    if ncpu < 1:
+        raise ValueError('parallel_map needs at least one process.')
 
     # Per-process action: grab an input from the input queue, compute,
     # toss the output in the output queue.
-- 
2.43.0


From 27cf2f7773ef1448a96ff9cf4a4f35d8f280304e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:27 +0000
Subject: [PATCH 29/93] fix: an empty selection of states is not all the states

---
 src/crosscat/engine.py | 48 ++++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/crosscat/engine.py b/src/crosscat/engine.py
index 706374e..fe7a7c8 100644
--- a/src/crosscat/engine.py
+++ b/src/crosscat/engine.py
@@ -76,7 +76,8 @@ class Engine(object):
             views=None, progress=True, checkpoint=None, statenos=None,
             multiprocess=1):
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None:
+            statenos = xrange(self.num_states())
         args = [('transition', self.states[s],
                 (N, S, kernels, rowids, cols, views, progress, checkpoint))
                 for s in statenos]
@@ -89,7 +90,8 @@ class Engine(object):
             cols=None, progress=None, checkpoint=None, statenos=None,
             multiprocess=1):
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None:
+            statenos = xrange(self.num_states())
         args = [('transition_lovecat', self.states[s],
                 (N, S, kernels, rowids, cols, progress, checkpoint))
                 for s in statenos]
@@ -108,7 +110,8 @@ class Engine(object):
     def transition_foreign(self, N=None, S=None, cols=None, progress=True,
             statenos=None, multiprocess=1):
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None:
+            statenos = xrange(self.num_states())
         args = [('transition_foreign', self.states[s],
                 (N, S, cols, progress))
                 for s in statenos]
@@ -192,7 +195,8 @@ class Engine(object):
     def logpdf(self, rowid, targets, constraints=None, inputs=None,
             accuracy=None, statenos=None, multiprocess=1):
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None:
+            statenos = xrange(self.num_states())
         args = [('logpdf', self.states[s],
                 (rowid, targets, constraints, inputs, accuracy))
             for s in statenos]
@@ -202,7 +206,8 @@ class Engine(object):
     def logpdf_bulk(self, rowids, targets_list, constraints_list=None,
             inputs_list=None, statenos=None, multiprocess=1):
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None:
+            statenos = xrange(self.num_states())
         args = [('logpdf_bulk', self.states[s],
                 (rowids, targets_list, constraints_list, inputs_list))
                 for s in statenos]
@@ -211,7 +216,8 @@ class Engine(object):
 
     def logpdf_score(self, statenos=None, multiprocess=1):
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None:
+            statenos = xrange(self.num_states())
         args = [('logpdf_score', self.states[s],
                 ())
                 for s in statenos]
@@ -220,7 +226,8 @@ class Engine(object):
 
     def logpdf_likelihood(self, statenos=None, multiprocess=1):
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None:
+            statenos = xrange(self.num_states())
         args = [('logpdf_likelihood', self.states[s],
                 ())
                 for s in statenos]
@@ -231,7 +238,8 @@ class Engine(object):
             accuracy=None, statenos=None, multiprocess=1):
         self._seed_states()
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None:
+            statenos = xrange(self.num_states())
         args = [('simulate', self.states[s],
                 (rowid, targets, constraints, inputs, N, accuracy))
                 for s in statenos]
@@ -243,7 +251,8 @@ class Engine(object):
         """Returns list of simualate_bulk, one for each state."""
         self._seed_states()
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None:
+            statenos = xrange(self.num_states())
         args = [('simulate_bulk', self.states[s],
                 (rowids, targets_list, constraints_list, inputs_list, Ns))
                 for s in statenos]
@@ -255,7 +264,8 @@ class Engine(object):
         """Returns list of mutual information estimates, one for each state."""
         self._seed_states()
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None:
+            statenos = xrange(self.num_states())
         args = [('mutual_information', self.states[s],
                 (col0, col1, constraints, T, N, progress))
                 for s in statenos]
@@ -265,7 +275,8 @@ class Engine(object):
     def dependence_probability(self, col0, col1, statenos=None, multiprocess=1):
         """Compute dependence probabilities between col0 and col1."""
         # XXX Ignore multiprocess.
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None:
+            statenos = xrange(self.num_states())
         return [self.states[s].dependence_probability(col0, col1)
             for s in statenos]
 
@@ -273,7 +284,8 @@ class Engine(object):
             multiprocess=1):
         """Compute dependence probability between all pairs as matrix."""
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None:
+            statenos = xrange(self.num_states())
         args = [('dependence_probability_pairwise', self.states[s],
                 (colnos,))
                 for s in statenos]
@@ -283,7 +295,8 @@ class Engine(object):
     def row_similarity(self, row0, row1, cols=None, statenos=None,
             multiprocess=1):
         """Compute similarities between row0 and row1."""
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None:
+            statenos = xrange(self.num_states())
         # XXX Ignore multiprocess.
         return [self.states[s].row_similarity(row0, row1, cols)
             for s in statenos]
@@ -291,7 +304,8 @@ class Engine(object):
     def row_similarity_pairwise(self, cols=None, statenos=None, multiprocess=1):
         """Compute row similarity between all pairs as matrix."""
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None:
+            statenos = xrange(self.num_states())
         args = [('row_similarity_pairwise', self.states[s],
                 (cols,))
                 for s in statenos]
@@ -303,7 +317,8 @@ class Engine(object):
             statenos=None, multiprocess=1):
         """Compute relevance probability of query rows for target row."""
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None:
+            statenos = xrange(self.num_states())
         args = [('relevance_probability', self.states[s],
                 (rowid_target, rowid_query, col, hypotheticals))
                 for s in statenos]
@@ -313,7 +328,8 @@ class Engine(object):
     def alter(self, funcs, statenos=None, multiprocess=1):
         """Apply generic funcs on states in parallel."""
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None:
+            statenos = xrange(self.num_states())
         args = [(funcs, self.states[s]) for s in statenos]
         states = mapper(_alter, args)
         for s, state in zip(statenos, states):
-- 
2.43.0


From 938d5b3272839ec6a46acee1459d17f703ca4c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:29 +0000
Subject: [PATCH 30/93] fix: the concentration given dependence constraints is
 drawn from its posterior

---
 src/crosscat/state.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index b845a4e..86df307 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -827,7 +827,15 @@ class State(CGpm):
             kernel_funcs, N=N, S=S, progress=progress, checkpoint=checkpoint)
 
     def transition_crp_alpha(self):
-        self.crp.transition_hypers()
+        if self.Cd:
+            # Columns constrained to be dependent are one customer of the crp.
+            Zv, grid = self.Zv(), self.crp.hyper_grids['alpha']
+            logps = [gu.logp_crp_constrained_dependent(Zv, alpha, self.Cd)
+                for alpha in grid]
+            alpha = gu.log_pflip(logps, array=grid, rng=self.rng)
+            self.crp.set_hypers({'alpha': alpha})
+        else:
+            self.crp.transition_hypers()
         self._increment_iterations('alpha')
 
     def transition_view_alphas(self, views=None, cols=None):
-- 
2.43.0


From c0d97616f9c94dcb3ff1b8b3636e52002969e559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:31 +0000
Subject: [PATCH 31/93] fix: a transition with an empty budget runs no kernel

---
 src/crosscat/state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 86df307..fd1f580 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -944,11 +944,11 @@ class State(CGpm):
             if S is None:
                 p_seconds = 0
             else:
-                p_seconds = (time.time() - start) / S
+                p_seconds = (time.time() - start) / S if S else 1.
             if N is None:
                 p_iters = 0
             else:
-                p_iters = float(iters)/N
+                p_iters = float(iters)/N if N else 1.
             return max(p_iters, p_seconds)
 
         if N is None and S is None:
-- 
2.43.0


From da66dfa93b82d9563a0effcd0d50b11f824a3d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:24 +0000
Subject: [PATCH 32/93] fix: relevance of a query covering every row of the
 view

---
 src/mixtures/relevance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mixtures/relevance.py b/src/mixtures/relevance.py
index 58373e0..c25f4b4 100644
--- a/src/mixtures/relevance.py
+++ b/src/mixtures/relevance.py
@@ -284,13 +284,13 @@ def row_values(view, rowid):
 
 def get_tables_same(tables):
     """Return tables to iterate over when query, target in same table."""
-    singleton = max(tables) + 1
+    singleton = max(tables) + 1 if tables else 0
     return tables + [singleton]
 
 
 def get_tables_different(tables):
     """Return tables to iterate over when query, target in different table."""
-    singleton = max(tables) + 1
+    singleton = max(tables) + 1 if tables else 0
     tables_target = tables + [singleton]
     auxiliary_table = lambda t: [] if t < singleton else [singleton+1]
     tables_query = [
-- 
2.43.0


From 1b87241ab38b46e229b77b9fdbe2f3edee0113ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:24 +0000
Subject: [PATCH 33/93] fix: relevance counts a repeated query row once

---
 src/mixtures/relevance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mixtures/relevance.py b/src/mixtures/relevance.py
index c25f4b4..0bc46f8 100644
--- a/src/mixtures/relevance.py
+++ b/src/mixtures/relevance.py
@@ -97,6 +97,9 @@ def relevance_probability(view, rowid_target, rowid_query):
     if rowid_target in rowid_query:
         return 1.
 
+    # A repeated query row is one row, it can be unincorporated only once.
+    rowid_query = sorted(set(rowid_query))
+
     # Retrieve target crp assignments and data to restore later.
     assignments_target = view.Zr(rowid_target)
     values_target = row_values(view, rowid_target)
-- 
2.43.0


From 69b42a62895564c446d68f9d2bf9a819883c88bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:24 +0000
Subject: [PATCH 34/93] fix: variables of components feeding each other are
 dependent

---
 src/crosscat/state.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index fd1f580..81b0fd7 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -31,7 +31,6 @@ from cgpm.cgpm import CGpm
 from cgpm.crosscat import sampling
 from cgpm.mixtures.dim import Dim
 from cgpm.mixtures.view import View
-from cgpm.network.helpers import retrieve_ancestors
 from cgpm.network.helpers import retrieve_variable_to_cgpm
 from cgpm.network.helpers import retrieve_weakly_connected_components
 from cgpm.network.importance import ImportanceNetwork
@@ -619,10 +618,22 @@ class State(CGpm):
         # XXX Conservatively assume all outputs of a particular are dependent.
         if any(col0 in c.outputs and col1 in c.outputs for c in cgpms):
             return 1.
-        # Use the BayesBall algorithm on the cgpm network.
-        ancestors0 = retrieve_ancestors(cgpms, col0) if col0 not in Zv\
+        # Use the BayesBall algorithm on the cgpm network, where a variable and
+        # all the outputs of its cgpm share their causes.
+        def retrieve_causes(col):
+            causes, pending = set(), [col]
+            while pending:
+                c = pending.pop()
+                if c in causes:
+                    continue
+                causes.add(c)
+                pending.extend(
+                    i for cgpm in cgpms if c in cgpm.outputs and c not in Zv
+                    for i in itertools.chain(cgpm.outputs, cgpm.inputs))
+            return causes
+        ancestors0 = retrieve_causes(col0) if col0 not in Zv\
             else [c for c in Zv if Zv[c]==Zv[col0]]
-        ancestors1 = retrieve_ancestors(cgpms, col1) if col1 not in Zv\
+        ancestors1 = retrieve_causes(col1) if col1 not in Zv\
             else [c for c in Zv if Zv[c]==Zv[col1]]
         # Direct common ancestor implies dependent.
         if set.intersection(set(ancestors0), set(ancestors1)):
-- 
2.43.0


From e8c8aac0c44e0adc90b60c6cfa87cdf1d245cde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:43 +0000
Subject: [PATCH 35/93] fix: simulated rows are independent across views and
 draws

---
 src/crosscat/sampling.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/crosscat/sampling.py b/src/crosscat/sampling.py
index dcbb7d5..8bfd5f7 100644
--- a/src/crosscat/sampling.py
+++ b/src/crosscat/sampling.py
@@ -20,8 +20,6 @@ cgpm.crosscat, avoiding overhead of recursive implementations using the
 importance network on the sub-cgpms that comprise cgpm.crosscat.State.
 '''
 
-from itertools import chain
-
 import numpy as np
 
 from cgpm.primitives.crp import Crp
@@ -95,8 +93,11 @@ def view_simulate(view, rowid, targets, constraints, N):
     lp_cluster = np.add(lp_crp, lp_constraints)
     ks = log_pflip(lp_cluster, array=K, size=N, rng=view.rng)
     counts = {k:n for k,n in enumerate(np.bincount(ks)) if n > 0}
-    samples = (_simulate_row(view, targets, k, counts[k]) for k in counts)
-    return chain.from_iterable(samples)
+    # Return the samples in the order their clusters were drawn, since samples
+    # from different views are joined by their position.
+    samples = {k: iter(_simulate_row(view, targets, k, counts[k]))
+        for k in counts}
+    return [next(samples[k]) for k in ks]
 
 
 def _logpdf_row(view, targets, cluster):
-- 
2.43.0


From 78aa311f76976cd1293fc71c2aa309d713d08a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:43 +0000
Subject: [PATCH 36/93] fix: rows simulated by a view are independent draws

---
 src/mixtures/view.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index 80fffe5..f83f196 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -14,8 +14,6 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-import itertools
-
 from math import isnan
 
 import numpy as np
@@ -390,8 +388,10 @@ class View(CGpm):
         if exposed:
             samples = [[merged(l, {self.outputs[0]: k}) for l in s]
                 for s, k in zip(samples, counts)]
-        # Return 1 sample if N is None, otherwise a list.
-        result = list(itertools.chain.from_iterable(samples))
+        # Return 1 sample if N is None, otherwise a list, in the order in which
+        # the clusters were drawn.
+        samples_k = {k: iter(s) for k, s in zip(counts, samples)}
+        result = [next(samples_k[k]) for k in Ks]
         return result[0] if unwrap_result else result
 
 
-- 
2.43.0


From ee5695574cb7d4f140cc8a18758b05ef46459ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:00 +0000
Subject: [PATCH 37/93] fix: queries of an observed row condition on its first
 column

---
 src/crosscat/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 81b0fd7..f5f8f0a 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -495,7 +495,7 @@ class State(CGpm):
         # Retrieve all values for this rowid not in targets or constraints.
         data = {
             c: self.X[c][rowid]
-            for c in self.outputs[1:]
+            for c in self.outputs
             if not any([
                 c in targets,
                 c in constraints,
-- 
2.43.0


From 29c3adb5ecfbeae1aa75fdefda4de8d4dce5b113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:20 +0000
Subject: [PATCH 38/93] fix: the score of a factor analysis iterates over row
 names

---
 src/factor/factor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/factor/factor.py b/src/factor/factor.py
index 0095085..452bfc8 100644
--- a/src/factor/factor.py
+++ b/src/factor/factor.py
@@ -213,9 +213,10 @@ class FactorAnalysis(CGpm):
     def logpdf_score(self):
         def compute_logpdf(x):
             assert len(x) == self.D
-            targets = {i:v for i,v in enumerate(x) if not np.isnan(v)}
+            targets = {self.outputs[i]: v
+                for i,v in enumerate(x) if not np.isnan(v)}
             return self.logpdf(None, targets)
-        return sum(compute_logpdf(x) for x in self.data)
+        return sum(compute_logpdf(x) for x in self.data.values())
 
     def transition(self, N=None):
         X = np.asarray(self.data.values())
-- 
2.43.0


From dc0d7473eea676987754cf6ba01b8e444467063d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:20 +0000
Subject: [PATCH 39/93] fix: hyperparameter inference crashes on distributions
 whose hypers are fixed

---
 src/mixtures/dim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mixtures/dim.py b/src/mixtures/dim.py
index 0cc2b1a..528509c 100644
--- a/src/mixtures/dim.py
+++ b/src/mixtures/dim.py
@@ -155,7 +155,8 @@ class Dim(CGpm):
 
     def transition_hypers(self):
         """Transitions the hyperparameters of each cluster."""
-        hypers = self.hypers.keys()
+        # Hyperparameters without a grid are fixed.
+        hypers = [h for h in self.hypers if h in self.hyper_grids]
         self.rng.shuffle(hypers)
         # For each hyper.
         for hyper in hypers:
-- 
2.43.0


From b399503268749310b369fe38fc4d824a6856692d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:20 +0000
Subject: [PATCH 40/93] fix: restoring an ols or a random forest changes the
 saved form

---
 src/regressions/forest.py | 5 +++--
 src/regressions/ols.py    | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/regressions/forest.py b/src/regressions/forest.py
index 1a2297c..18e45ff 100644
--- a/src/regressions/forest.py
+++ b/src/regressions/forest.py
@@ -254,12 +254,13 @@ class RandomForest(CGpm):
         # Unpickle the sklearn forest.
         forest = cPickle.loads(
             base64.b64decode(metadata['params']['forest_binary']))
-        metadata['params']['forest'] = forest
+        params = dict(metadata['params'])
+        params['forest'] = forest
         forest = cls(
             outputs=metadata['outputs'],
             inputs=metadata['inputs'],
             hypers=metadata['hypers'],
-            params=metadata['params'],
+            params=params,
             distargs=metadata['distargs'],
             rng=rng)
         # json keys are strings -- convert back to integers.
diff --git a/src/regressions/ols.py b/src/regressions/ols.py
index 7acaf9c..2c1e8d1 100644
--- a/src/regressions/ols.py
+++ b/src/regressions/ols.py
@@ -236,11 +236,12 @@ class OrdinaryLeastSquares(CGpm):
         # Unpickle the sklearn ols.
         skl_ols = cPickle.loads(
             base64.b64decode(metadata['params']['regressor_binary']))
-        metadata['params']['regressor'] = skl_ols
+        params = dict(metadata['params'])
+        params['regressor'] = skl_ols
         ols = cls(
             outputs=metadata['outputs'],
             inputs=metadata['inputs'],
-            params=metadata['params'],
+            params=params,
             distargs=metadata['distargs'],
             rng=rng)
         # json keys are strings -- convert back to integers.
-- 
2.43.0


From 2565579d95b2a37b9a7b8a28ee0de64eb6259182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:20 +0000
Subject: [PATCH 41/93] fix: the saved form of a regression changes with the
 regression

---
 src/regressions/forest.py | 9 ++++++---
 src/regressions/linreg.py | 5 ++++-
 src/regressions/ols.py    | 5 ++++-
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/regressions/forest.py b/src/regressions/forest.py
index 18e45ff..d5e6bb1 100644
--- a/src/regressions/forest.py
+++ b/src/regressions/forest.py
@@ -233,8 +233,11 @@ class RandomForest(CGpm):
         metadata['outputs'] = self.outputs
         metadata['inputs'] = self.inputs
         metadata['N'] = self.N
-        metadata['data'] = {'x': self.data.x, 'Y': self.data.Y}
-        metadata['counts'] = self.counts
+        metadata['data'] = {
+            'x': OrderedDict(self.data.x),
+            'Y': OrderedDict(self.data.Y),
+        }
+        metadata['counts'] = list(self.counts)
         metadata['distargs'] = self.get_distargs()
         metadata['hypers'] = self.get_hypers()
         metadata['params'] = self.get_params()
@@ -268,5 +271,5 @@ class RandomForest(CGpm):
         Y = ((int(k), v) for k, v in metadata['data']['Y'].iteritems())
         forest.data = Data(x=OrderedDict(x), Y=OrderedDict(Y))
         forest.N = metadata['N']
-        forest.counts = metadata['counts']
+        forest.counts = list(metadata['counts'])
         return forest
diff --git a/src/regressions/linreg.py b/src/regressions/linreg.py
index 5974819..f90ba43 100644
--- a/src/regressions/linreg.py
+++ b/src/regressions/linreg.py
@@ -341,7 +341,10 @@ class LinearRegression(CGpm):
         metadata['outputs'] = self.outputs
         metadata['inputs'] = self.inputs
         metadata['N'] = self.N
-        metadata['data'] = {'x': self.data.x, 'Y': self.data.Y}
+        metadata['data'] = {
+            'x': OrderedDict(self.data.x),
+            'Y': OrderedDict(self.data.Y),
+        }
         metadata['distargs'] = self.get_distargs()
         metadata['hypers'] = self.get_hypers()
         metadata['factory'] = ('cgpm.regressions.linreg', 'LinearRegression')
diff --git a/src/regressions/ols.py b/src/regressions/ols.py
index 2c1e8d1..2c2f382 100644
--- a/src/regressions/ols.py
+++ b/src/regressions/ols.py
@@ -217,7 +217,10 @@ class OrdinaryLeastSquares(CGpm):
         metadata['outputs'] = self.outputs
         metadata['inputs'] = self.inputs
         metadata['N'] = self.N
-        metadata['data'] = {'x': self.data.x, 'Y': self.data.Y}
+        metadata['data'] = {
+            'x': OrderedDict(self.data.x),
+            'Y': OrderedDict(self.data.Y),
+        }
         metadata['distargs'] = self.get_distargs()
         metadata['params'] = self.get_params()
         metadata['factory'] = ('cgpm.regressions.ols', 'OrdinaryLeastSquares')
-- 
2.43.0


From 4daecc029fa1bfe0db1e36ead60c5af7d8b155e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:20 +0000
Subject: [PATCH 42/93] fix: a random forest counts rows it no longer observes

---
 src/regressions/forest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/regressions/forest.py b/src/regressions/forest.py
index d5e6bb1..020b79c 100644
--- a/src/regressions/forest.py
+++ b/src/regressions/forest.py
@@ -74,10 +74,11 @@ class RandomForest(CGpm):
 
     def unincorporate(self, rowid):
         try:
-            del self.data.x[rowid]
+            x = self.data.x.pop(rowid)
             del self.data.Y[rowid]
         except KeyError:
             raise ValueError('No such observation: %d' % rowid)
+        self.counts[x] -= 1
         self.N -= 1
 
     def logpdf(self, rowid, targets, constraints=None, inputs=None):
-- 
2.43.0


From 7f393fe785e6c2164ac0c773f021e8a4f8fda8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:20 +0000
Subject: [PATCH 43/93] fix: knn and kde accept unsupported categories

---
 src/kde/mvkde.py | 5 +++++
 src/knn/mvknn.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/kde/mvkde.py b/src/kde/mvkde.py
index 14de6dd..429d8c0 100644
--- a/src/kde/mvkde.py
+++ b/src/kde/mvkde.py
@@ -104,6 +104,11 @@ class MultivariateKde(CGpm):
         if any(q not in self.outputs for q in observation):
             raise ValueError('Unknown variables: (%s,%s).'
                 % (observation, self.outputs))
+        # No unknown categories.
+        if any(not (np.isnan(x) or (x % 1 == 0 and 0 <= x < self.levels[q]))
+                for q, x in observation.iteritems() if q in self.levels):
+            raise ValueError('Invalid categories: (%s,%s).'
+                % (observation, self.levels))
         # Incorporate observed variables.
         x = [observation.get(q, np.nan) for q in self.outputs]
         # Update dataset and counts.
diff --git a/src/knn/mvknn.py b/src/knn/mvknn.py
index 7d623c5..a7a2a5f 100644
--- a/src/knn/mvknn.py
+++ b/src/knn/mvknn.py
@@ -364,6 +364,11 @@ class MultivariateKnn(CGpm):
         if any(q not in self.outputs for q in observation):
             raise ValueError('Unknown variables: (%s,%s).'
                 % (observation, self.outputs))
+        # No unknown categories.
+        if any(not (np.isnan(x) or (x % 1 == 0 and 0 <= x < self.levels[q]))
+                for q, x in observation.iteritems() if q in self.levels):
+            raise ValueError('Invalid categories: (%s,%s).'
+                % (observation, self.levels))
 
     def _validate_unincorporate(self, rowid):
         if rowid not in self.data:
-- 
2.43.0


From ec3ca6cf8ad2abec5aab20d6e29d07b2e4bdaada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:20 +0000
Subject: [PATCH 44/93] fix: linear regression accepts nan inputs

---
 src/regressions/linreg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/regressions/linreg.py b/src/regressions/linreg.py
index f90ba43..7926721 100644
--- a/src/regressions/linreg.py
+++ b/src/regressions/linreg.py
@@ -255,6 +255,8 @@ class LinearRegression(CGpm):
             raise ValueError('Missing inputs: %s, %s' % (inputs, self.inputs))
         # Retrieve the covariates.
         y = [inputs.get(i) for i in self.inputs]
+        if any(np.isnan(v) for v in y):
+            raise ValueError('Invalid nan inputs: %s' % (inputs,))
         # Dummy code covariates.
         y = du.dummy_code(y, self.inputs_discrete)
         assert len(y) == self.p-1
-- 
2.43.0


From 117d795e731422ed96a59d34bc78bc16949345fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 45/93] fix: densities of composed variables of an observed row
 raise KeyError

---
 src/crosscat/state.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index f5f8f0a..bee716b 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -518,7 +518,8 @@ class State(CGpm):
         # https://github.com/probcomp/cgpm/issues/116
         if not fresh \
                 and not simulate \
-                and any(not np.isnan(self.X[q][rowid]) for q in targets):
+                and any(not np.isnan(self.X[q][rowid])
+                    for q in targets if q in self.X):
             raise ValueError('Cannot constrain observed cell.')
         # Check if the constraints is valid.
         if constraints:
-- 
2.43.0


From 39f65fe8b2623b7662d7491d4bed6be8a68155c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 46/93] fix: composites cannot simulate a tuple of targets

---
 src/network/importance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/importance.py b/src/network/importance.py
index 0aba7eb..843f93a 100644
--- a/src/network/importance.py
+++ b/src/network/importance.py
@@ -78,7 +78,7 @@ class ImportanceNetwork(object):
 
     def weighted_sample(self, rowid, targets, constraints, inputs):
         targets_required = self.retrieve_required_inputs(targets, constraints)
-        targets_all = targets + targets_required
+        targets_all = list(targets) + targets_required
         sample = dict(constraints)
         weight = 0
         for l in self.topo:
-- 
2.43.0


From d57135b63e2ba6e25a28d64debec083350dbaccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 47/93] fix: marginal density of the uncorrelated models raises
 AttributeError

---
 src/uncorrelated/undirected.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uncorrelated/undirected.py b/src/uncorrelated/undirected.py
index b62c6b1..68ab73e 100644
--- a/src/uncorrelated/undirected.py
+++ b/src/uncorrelated/undirected.py
@@ -41,7 +41,7 @@ class UnDirectedXyGpm(CGpm):
                 return self.logpdf_joint(x, y)
             else:
                 z = targets.values()[0]
-                return self.logpdf_maringal(z)
+                return self.logpdf_marginal(z)
         else:
             assert len(constraints) == len(targets) == 1
             z = constraints.values()[0]
-- 
2.43.0


From d138dff14bfcf5bd2e6764aef91562910949a4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 48/93] fix: TwoWay fails on a float valued input or output

---
 src/dummy/twoway.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dummy/twoway.py b/src/dummy/twoway.py
index 06b541c..592a384 100644
--- a/src/dummy/twoway.py
+++ b/src/dummy/twoway.py
@@ -49,7 +49,7 @@ class TwoWay(CGpm):
         y = inputs[self.inputs[0]]
         assert int(y) == float(y)
         assert y in [0, 1]
-        x = gu.pflip(self.probabilities[y], rng=self.rng)
+        x = gu.pflip(self.probabilities[int(y)], rng=self.rng)
         return {self.outputs[0]: x}
 
     def logpdf(self, rowid, targets, constraints=None, inputs=None):
@@ -57,7 +57,9 @@ class TwoWay(CGpm):
         assert int(y) == float(y)
         assert y in [0, 1]
         x = targets[self.outputs[0]]
-        return np.log(self.probabilities[y][x]) if x in [0,1] else -float('inf')
+        if x not in [0, 1]:
+            return -float('inf')
+        return np.log(self.probabilities[int(y)][int(x)])
 
     def transition(self, N=None):
         time.sleep(.1)
-- 
2.43.0


From 39add9c4ef0ea51da33dcbb62403b69cf814c1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 49/93] fix: the density of PieceWise ignores its continuous
 output

---
 src/dummy/piecewise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dummy/piecewise.py b/src/dummy/piecewise.py
index 913cd0c..5e00778 100644
--- a/src/dummy/piecewise.py
+++ b/src/dummy/piecewise.py
@@ -95,7 +95,7 @@ class PieceWise(CGpm):
         if not constraints:
             # Case 1.1: z in the targets and x in the targets.
             if self.outputs[0] in targets and self.outputs[1] in targets:
-                z, x = targets[self.outputs[1]], targets[self.outputs[1]]
+                z, x = targets[self.outputs[1]], targets[self.outputs[0]]
                 # XXX Check if z in [0, 1]
                 logp_z = np.log(self.flip) if z == 0 else np.log(1-self.flip)
                 logp_x = logpdf_normal(x, y + (2*z - 1), self.sigma)
-- 
2.43.0


From 22cfe2ceffe4edfc1478a272534ba9dc6eed2b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:17 +0000
Subject: [PATCH 50/93] fix: the densities of FourWay do not sum to one

---
 src/dummy/fourway.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dummy/fourway.py b/src/dummy/fourway.py
index de6daa8..8f3b1b4 100644
--- a/src/dummy/fourway.py
+++ b/src/dummy/fourway.py
@@ -63,7 +63,8 @@ class FourWay(CGpm):
             inputs[self.inputs[0]],
             inputs[self.inputs[1]],
         )
-        return np.log(self.probabilities[regime][x])
+        p = self.probabilities[regime]
+        return np.log(p[int(x)]) - np.log(sum(p))
 
     def transition(self, N=None, S=None):
         time.sleep(.1)
-- 
2.43.0


From 80961c6e3cd566662e223b8fed7ea9d74b06d979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:46 +0000
Subject: [PATCH 51/93] fix: check the number of answers in likelihood
 weighting

---
 src/crosscat/engine.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/crosscat/engine.py b/src/crosscat/engine.py
index fe7a7c8..f021af0 100644
--- a/src/crosscat/engine.py
+++ b/src/crosscat/engine.py
@@ -377,8 +377,8 @@ class Engine(object):
     def _likelihood_weighted_integrate(self, logpdfs, rowid, constraints=None,
             inputs=None, statenos=None, multiprocess=1):
         # Computes an importance sampling integral with likelihood weight.
-        assert len(logpdfs) == \
-            len(self.states) if statenos is None else len(statenos)
+        assert len(logpdfs) == (
+            len(self.states) if statenos is None else len(statenos))
         if constraints:
             weights = self.logpdf(rowid, constraints, inputs, statenos=statenos,
                 multiprocess=multiprocess)
@@ -388,8 +388,8 @@ class Engine(object):
 
     def _likelihood_weighted_resample(self, samples, rowid, constraints=None,
             inputs=None, statenos=None, multiprocess=1):
-        assert len(samples) == \
-            len(self.states) if statenos is None else len(statenos)
+        assert len(samples) == (
+            len(self.states) if statenos is None else len(statenos))
         assert all(len(s) == len(samples[0]) for s in samples[1:])
         N = len(samples[0])
         weights = np.zeros(len(samples)) if not constraints else \
-- 
2.43.0


From d5dbb336b00f193ba13436bf839e14e6284ccf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:00 +0000
Subject: [PATCH 52/93] fix: draw directed synthetic data from the given
 generator

---
 src/uncorrelated/diamond.py  | 6 ++++--
 src/uncorrelated/parabola.py | 6 ++++--
 src/uncorrelated/sin.py      | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/uncorrelated/diamond.py b/src/uncorrelated/diamond.py
index e29e48c..39bebec 100644
--- a/src/uncorrelated/diamond.py
+++ b/src/uncorrelated/diamond.py
@@ -66,9 +66,11 @@ class Diamond(DirectedXyGpm):
         DirectedXyGpm.__init__(
             self, outputs=outputs, inputs=inputs, noise=noise, rng=rng)
         self.x = UniformX(
-            outputs=[self.outputs[0]], low=-1, high=1)
+            outputs=[self.outputs[0]], low=-1, high=1,
+            rng=self.rng)
         self.y = DiamondY(
             outputs=[self.outputs[1]],
             inputs=[self.outputs[0]],
-            noise=noise)
+            noise=noise,
+            rng=self.rng)
         self.network = ImportanceNetwork([self.x, self.y], rng=self.rng)
diff --git a/src/uncorrelated/parabola.py b/src/uncorrelated/parabola.py
index 2335d21..9400e39 100644
--- a/src/uncorrelated/parabola.py
+++ b/src/uncorrelated/parabola.py
@@ -75,9 +75,11 @@ class Parabola(DirectedXyGpm):
         DirectedXyGpm.__init__(
             self, outputs=outputs, inputs=inputs, noise=noise, rng=rng)
         self.x = UniformX(
-            outputs=[self.outputs[0]], low=-1, high=1)
+            outputs=[self.outputs[0]], low=-1, high=1,
+            rng=self.rng)
         self.y = ParabolaY(
             outputs=[self.outputs[1]],
             inputs=[self.outputs[0]],
-            noise=noise)
+            noise=noise,
+            rng=self.rng)
         self.network = ImportanceNetwork([self.x, self.y], rng=self.rng)
diff --git a/src/uncorrelated/sin.py b/src/uncorrelated/sin.py
index 5033419..7c42c5e 100644
--- a/src/uncorrelated/sin.py
+++ b/src/uncorrelated/sin.py
@@ -75,11 +75,13 @@ class Sin(DirectedXyGpm):
         DirectedXyGpm.__init__(
             self, outputs=outputs, inputs=inputs, noise=noise, rng=rng)
         self.x = UniformX(
-            outputs=[self.outputs[0]], low=-1.5*np.pi, high=1.5*np.pi)
+            outputs=[self.outputs[0]], low=-1.5*np.pi, high=1.5*np.pi,
+            rng=self.rng)
         self.y = SinY(
             outputs=[self.outputs[1]],
             inputs=[self.outputs[0]],
-            noise=noise)
+            noise=noise,
+            rng=self.rng)
         self.network = ImportanceNetwork([self.x, self.y], rng=self.rng)
 
     # All further methods are here for historical reasons and are not invoked.
-- 
2.43.0


From 3c541bb1be61e146e9dca9a266725d948948f701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:00 +0000
Subject: [PATCH 53/93] fix: constraints and N of directed synthetic generators

---
 src/uncorrelated/directed.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/uncorrelated/directed.py b/src/uncorrelated/directed.py
index 0cb632f..11af01b 100644
--- a/src/uncorrelated/directed.py
+++ b/src/uncorrelated/directed.py
@@ -49,9 +49,10 @@ class DirectedXyGpm(CGpm):
     def logpdf(self, rowid, targets, constraints=None, inputs=None):
         if self.network is None:
             raise ValueError('self.network not defined by %s' % (type(self),))
-        return self.network.logpdf(rowid, targets, inputs)
+        return self.network.logpdf(rowid, targets, constraints, inputs)
 
     def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
         if self.network is None:
             raise ValueError('self.network not defined by %s' % (type(self),))
-        return self.network.simulate(rowid, targets, inputs, N)
+        return self.network.simulate(
+            rowid, targets, constraints, inputs, N)
-- 
2.43.0


From d8022590e6804e40b678bb98ca876112a9fb7ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:00 +0000
Subject: [PATCH 54/93] fix: proposals of uncollapsed dims share the generator
 of the state

---
 src/crosscat/state.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index bee716b..baa74fb 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -1131,7 +1131,8 @@ class State(CGpm):
         # create copy to preserve uncollapsed state (can optimize).
         if dim.is_collapsed() or self._dim_is_member(view, dim):
             return dim
-        return copy.deepcopy(dim)
+        # The copy draws from the same source of entropy.
+        return copy.deepcopy(dim, {id(dim.rng): dim.rng})
 
     def _check_transition_dims(self):
         # XXX Disable col transitions if \exists conditional model anywhere.
-- 
2.43.0


From 9b64835b81a714a76bbfd9e1537f129ef3f84db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:58 +0000
Subject: [PATCH 55/93] fix: dependence of unknown variables is an error

---
 src/crosscat/state.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index baa74fb..db158d8 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -616,6 +616,9 @@ class State(CGpm):
 
     @staticmethod
     def _dependence_probability_composite(cgpms, Zv, col0, col1):
+        for col in (col0, col1):
+            if not any(col in c.outputs for c in cgpms):
+                raise ValueError('Unknown variable: %s' % (col,))
         # XXX Conservatively assume all outputs of a particular are dependent.
         if any(col0 in c.outputs and col1 in c.outputs for c in cgpms):
             return 1.
-- 
2.43.0


From 3f36047426b65b592daf0e29ef5840b332c1e851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 56/93] fix: lovecat exports row partitions in row order

---
 src/crosscat/lovecat.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/crosscat/lovecat.py b/src/crosscat/lovecat.py
index cc6071c..30ed04b 100644
--- a/src/crosscat/lovecat.py
+++ b/src/crosscat/lovecat.py
@@ -100,8 +100,11 @@ def _crosscat_X_D(state, M_c):
     view_assignments = state.Zv().values()
     views_unique = sorted(set(view_assignments))
 
+    # The order of Zr depends on the history of the row partition, whereas the
+    # clusters in X_D are aligned with the rows of T.
+    rowids = range(state.n_rows())
     cluster_assignments = [
-        state.views[v].Zr().values()
+        [state.views[v].Zr(rowid) for rowid in rowids]
         for v in views_unique
     ]
     cluster_assignments_unique = [
-- 
2.43.0


From ac0d8ae85ff2df1099ea55b7fdcc6860f29221f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 57/93] fix: lovecat transition without N and S runs one step

---
 src/crosscat/lovecat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/lovecat.py b/src/crosscat/lovecat.py
index 30ed04b..8a08281 100644
--- a/src/crosscat/lovecat.py
+++ b/src/crosscat/lovecat.py
@@ -366,7 +366,7 @@ def transition(
     if N is None and S is None:
         n_steps = 1
         max_time = -1
-    if N is not None and S is None:
+    elif N is not None and S is None:
         n_steps = N
         max_time = -1
     elif S is not None and N is None:
-- 
2.43.0


From d9ee2013cfef9a37bfd83005563831f753993486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 58/93] fix: lovecat checks the diagnostics before it updates
 the state

---
 src/crosscat/lovecat.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/crosscat/lovecat.py b/src/crosscat/lovecat.py
index 8a08281..e518881 100644
--- a/src/crosscat/lovecat.py
+++ b/src/crosscat/lovecat.py
@@ -307,29 +307,33 @@ def _update_state(state, M_c, X_L, X_D):
     state._check_partitions()
 
 
-def _update_diagnostics(state, diagnostics):
-    # Update logscore.
+def _convert_diagnostics(state, diagnostics):
+    """Convert the lovecat diagnostics to the format of state.diagnostics."""
+    # Convert logscore.
     cc_logscore = diagnostics.get('logscore', np.array([]))
     new_logscore = map(float, np.ravel(cc_logscore).tolist())
-    state.diagnostics['logscore'].extend(new_logscore)
 
-    # Update column_crp_alpha.
+    # Convert column_crp_alpha.
     cc_column_crp_alpha = diagnostics.get('column_crp_alpha', [])
     new_column_crp_alpha = map(float, np.ravel(cc_column_crp_alpha).tolist())
-    state.diagnostics['column_crp_alpha'].extend(list(new_column_crp_alpha))
 
-    # Update column_partition.
+    # Convert column_partition.
     def convert_column_partition(assignments):
         return [
             (col, int(assgn))
             for col, assgn in zip(state.outputs, assignments)
         ]
+    trajectories = []
     new_column_partition = diagnostics.get('column_partition_assignments', [])
     if len(new_column_partition) > 0:
         assert len(new_column_partition) == len(state.outputs)
         trajectories = np.transpose(new_column_partition)[0].tolist()
-        state.diagnostics['column_partition'].extend(
-            map(convert_column_partition, trajectories))
+
+    return {
+        'logscore': new_logscore,
+        'column_crp_alpha': new_column_crp_alpha,
+        'column_partition': map(convert_column_partition, trajectories),
+    }
 
 
 def _progress(n_steps, max_time, step_idx, elapsed_secs, end=None):
@@ -407,7 +411,11 @@ def transition(
             c=cols, r=rowids, do_diagnostics=True,
             diagnostics_every_N=checkpoint, progress=progress)
 
+    # Invalid diagnostics must not leave the state half updated.
+    diagnostics_new = _convert_diagnostics(state, diagnostics_new)
+
     _update_state(state, M_c, X_L_new, X_D_new)
 
-    if diagnostics_new:
-        _update_diagnostics(state, diagnostics_new)
+    for key, values in diagnostics_new.iteritems():
+        if values:
+            state.diagnostics[key].extend(values)
-- 
2.43.0


From bdc585dea9813ab3fef39a2f305ed53f2f14e18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 59/93] fix: lovecat constraints refer to the positions of the
 columns

---
 src/crosscat/lovecat.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/crosscat/lovecat.py b/src/crosscat/lovecat.py
index e518881..2ee9361 100644
--- a/src/crosscat/lovecat.py
+++ b/src/crosscat/lovecat.py
@@ -206,17 +206,20 @@ def _crosscat_X_L(state, M_c, X_D):
     view_states = [view_state(v) for v in views_unique]
 
     # Generates X_L['col_ensure'].
+    # Lovecat refers to columns by their position in T.
+    positions = {o: i for i, o in enumerate(state.outputs)}
     col_ensure = dict()
     if state.Cd:
         col_ensure['dependent'] = {
-            str(column) : list(block)
+            str(positions[column]) : [positions[c] for c in block]
             for block in state.Cd for column in block
         }
     if state.Ci:
         from crosscat.utils.general_utils import get_scc_from_tuples
+        Ci = [(positions[a], positions[b]) for a, b in state.Ci]
         col_ensure['independent'] = {
             str(column) : list(block) for
-            column, block in get_scc_from_tuples(state.Ci).iteritems()
+            column, block in get_scc_from_tuples(Ci).iteritems()
         }
 
     return {
-- 
2.43.0


From 9474c8b613357d3bf2545c036a0ffe69bbbbf4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 60/93] fix: loom transition of an engine without N

---
 src/crosscat/loomcat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crosscat/loomcat.py b/src/crosscat/loomcat.py
index 64abd68..e6bd1de 100644
--- a/src/crosscat/loomcat.py
+++ b/src/crosscat/loomcat.py
@@ -312,6 +312,9 @@ def transition_engine(
     for state in engine.states:
         assert state._loom_path == engine.states[0]._loom_path
 
+    if N is None:
+        N = 1
+
     # Create Loom project if necessary.
     if engine.states[0]._loom_path is None:
         loom_path = initialize(engine.states[0])
-- 
2.43.0


From 7d5a9b20427305d3ce938cfdd207781012a16df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 61/93] fix: loom samples with wrong rows or features are
 rejected

---
 src/crosscat/loomcat.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/crosscat/loomcat.py b/src/crosscat/loomcat.py
index e6bd1de..264de5e 100644
--- a/src/crosscat/loomcat.py
+++ b/src/crosscat/loomcat.py
@@ -95,10 +95,14 @@ def _retrieve_column_partition(path, sample):
     The returned structure is of the form `cgpm.crosscat.state.State.Zv`.
     """
     cross_cat = _loom_cross_cat(path, sample)
-    return dict(itertools.chain.from_iterable([
+    assignments = list(itertools.chain.from_iterable([
         [(featureid, k) for featureid in kind.featureids]
         for k, kind in enumerate(cross_cat.kinds)
     ]))
+    partition = dict(assignments)
+    # Every feature must be a member of exactly one kind.
+    assert len(partition) == len(assignments)
+    return partition
 
 
 def _retrieve_featureid_to_cgpm(path):
@@ -125,11 +129,13 @@ def _retrieve_row_partitions(path, sample):
     num_kinds = len(cross_cat.kinds)
     assign_in = os.path.join(
         path, 'samples', 'sample.%d' % (sample,), 'assign.pbs.gz')
-    assignments = {
-        a.rowid: [a.groupids(k) for k in xrange(num_kinds)]
-        for a in assignment_stream_load(assign_in)
-    }
+    assignments = dict()
+    for a in assignment_stream_load(assign_in):
+        # Every row must be assigned exactly once.
+        assert a.rowid not in assignments
+        assignments[a.rowid] = [a.groupids(k) for k in xrange(num_kinds)]
     rowids = sorted(assignments)
+    assert rowids == range(len(rowids))
     return {
         k: [assignments[rowid][k] for rowid in rowids]
         for k in xrange(num_kinds)
@@ -161,6 +167,7 @@ def _update_state(state, path, sample):
     # from [0..n_views].
     Zvr_new = _retrieve_row_partitions(path, sample)
     assert set(Zv_new.values()) == set(Zvr_new.keys())
+    assert all(len(Zr) == state.n_rows() for Zr in Zvr_new.itervalues())
 
     # Create new views in cgpm, with the corresponding loom row partitions.
     offset = max(state.views) + 1
-- 
2.43.0


From aecd6efe06affe84c9f5393199a2167176b88e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 62/93] fix: loom samples must satisfy the dependence
 constraints

---
 src/crosscat/loomcat.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/crosscat/loomcat.py b/src/crosscat/loomcat.py
index 264de5e..2461d9c 100644
--- a/src/crosscat/loomcat.py
+++ b/src/crosscat/loomcat.py
@@ -28,6 +28,7 @@ from loom.cFormat import assignment_stream_load
 
 from cgpm.mixtures.view import View
 from cgpm.utils import config as cu
+from cgpm.utils import validation as vu
 from cgpm.utils.parallel_map import parallel_map
 
 
@@ -169,6 +170,11 @@ def _update_state(state, path, sample):
     assert set(Zv_new.values()) == set(Zvr_new.keys())
     assert all(len(Zr) == state.n_rows() for Zr in Zvr_new.itervalues())
 
+    # Check the dependence constraints.
+    if not vu.validate_crp_constrained_partition(
+            Zv_new, state.Cd, state.Ci, state.Rd, state.Ri):
+        raise ValueError('Loom violated the dependence constraints.')
+
     # Create new views in cgpm, with the corresponding loom row partitions.
     offset = max(state.views) + 1
     new_views = []
-- 
2.43.0


From 44d23e7ff576e8893728d80dc9fe76a0f6e10c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 63/93] fix: loom projects created in the same second do not
 collide

---
 src/crosscat/loomcat.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/crosscat/loomcat.py b/src/crosscat/loomcat.py
index 2461d9c..1f7f592 100644
--- a/src/crosscat/loomcat.py
+++ b/src/crosscat/loomcat.py
@@ -15,6 +15,7 @@
 # limitations under the License.
 
 import csv
+import errno
 import itertools
 import os
 
@@ -51,12 +52,28 @@ def _generate_loom_stattypes(state):
     return [cu.loom_stattype(s, d) for s, d in zip(cctypes, distargs)]
 
 
+def _create_project_root(store):
+    """Creates a directory in the store which no other project uses."""
+    timestamp = cu.timestamp()
+    for i in itertools.count():
+        name = timestamp if i == 0 else '%s-%d' % (timestamp, i)
+        project_root = os.path.join(store, name)
+        try:
+            os.makedirs(project_root)
+        except OSError as e:
+            if e.errno != errno.EEXIST:
+                raise
+        else:
+            return project_root
+
+
 def _generate_project_paths(name=None):
     """Creates a new project in the loom store."""
-    if name is None:
-        name = cu.timestamp()
     store = _retrieve_loom_store()
-    project_root = os.path.join(store, name)
+    if name is None:
+        project_root = _create_project_root(store)
+    else:
+        project_root = os.path.join(store, name)
     # Create necessary subdirectories.
     paths = {
         'root'      : project_root,
-- 
2.43.0


From 3279d1afee614cca0fb98c151096536459bc2381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 64/93] fix: a loom project is not reused after the table
 changes

---
 src/crosscat/state.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index db158d8..33a7092 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -252,6 +252,8 @@ class State(CGpm):
                 self.views.pop(v_add, None)
             raise
         self.crp.incorporate(col, {self.crp_id: v_add}, {-1:0})
+        # The loom project no longer matches the table.
+        self._loom_path = None
         # Transition.
         self.transition_dims(cols=transition)
         self.transition_dim_hypers(cols=[col])
@@ -284,6 +286,7 @@ class State(CGpm):
         # Clear data for col and remove it from outputs.
         del self.X[col]
         self.set_outputs([i for i in self.outputs if i != col])
+        self._loom_path = None
         # Update composite flag.
         self._update_is_composite()
         # Validate.
@@ -325,6 +328,7 @@ class State(CGpm):
             for c in self.outputs:
                 self.X[c].pop()
             raise
+        self._loom_path = None
         # Validate.
         self._check_partitions()
 
@@ -342,6 +346,7 @@ class State(CGpm):
         # Tell the views.
         for v in self.views:
             self.views[v].unincorporate(rowid)
+        self._loom_path = None
         # Validate.
         self._check_partitions()
 
@@ -369,6 +374,7 @@ class State(CGpm):
                 self.views[view_id].force_cell(
                     rowid, {c: float('nan') for c in queries[view_id]})
             raise
+        self._loom_path = None
 
     # --------------------------------------------------------------------------
     # Schema updates.
@@ -389,6 +395,7 @@ class State(CGpm):
             view.incorporate_dim(dim, reassign=False)
             self.diagnostics['iterations'] = iterations
             raise
+        self._loom_path = None
         # Update composite flag.
         self._update_is_composite()
         # Validate.
-- 
2.43.0


From 520cd11c892dfc2c18d18d1b03c8de9de4d71002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:46 +0000
Subject: [PATCH 65/93] fix: relevance queries leave components with explicit
 parameters alone

---
 src/mixtures/view.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index f83f196..76791b5 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -14,6 +14,8 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import copy
+
 from math import isnan
 
 import numpy as np
@@ -403,7 +405,11 @@ class View(CGpm):
         if col not in self.outputs:
             raise ValueError('Unknown column: %s' % (col,))
         from relevance import relevance_probability
-        return relevance_probability(self, rowid_target, rowid_query)
+        # The rows are moved around in a copy of the view, since components with
+        # explicit parameters cannot be restored by incorporating their rows.
+        view = copy.deepcopy(
+            self, {id(self.X): self.X, id(self.rng): self.rng})
+        return relevance_probability(view, rowid_target, rowid_query)
 
     # --------------------------------------------------------------------------
     # Internal simulate/logpdf helpers
-- 
2.43.0


From 4697c48ccf83cf37c8001fe4155381b08938cb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 66/93] fix: kernel densities count the declared categories,
 not the observed ones

---
 src/kde/mvkde.py | 60 +++++++++++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 29 deletions(-)

diff --git a/src/kde/mvkde.py b/src/kde/mvkde.py
index 429d8c0..780d713 100644
--- a/src/kde/mvkde.py
+++ b/src/kde/mvkde.py
@@ -18,7 +18,7 @@ from collections import OrderedDict
 
 import numpy as np
 
-from statsmodels.nonparametric import _kernel_base
+from scipy.stats import norm
 from statsmodels.nonparametric import kernel_density
 
 from cgpm.cgpm import CGpm
@@ -137,24 +137,14 @@ class MultivariateKde(CGpm):
         if any(q in constraints for q in targets):
             raise ValueError('Duplicate variable: %s, %s'
                 % (targets, constraints,))
-        if not constraints:
-            model = kernel_density.KDEMultivariate(
-                self._dataset(targets),
-                self._stattypes(targets),
-                bw=self._bw(targets),
-            )
-            pdf = model.pdf(targets.values())
-        else:
-            full_members = self._dataset(targets.keys() + constraints.keys())
-            model = kernel_density.KDEMultivariateConditional(
-                full_members[:,:len(targets)],
-                full_members[:,len(targets):],
-                self._stattypes(targets),
-                self._stattypes(constraints),
-                bw=np.concatenate((self._bw(targets), self._bw(constraints))),
-            )
-            pdf = model.pdf(targets.values(), constraints.values())
-        return np.log(pdf)
+        full_members = self._dataset(targets.keys() + constraints.keys())
+        logp_targets = self._logpdf_kernels(
+            full_members[:,:len(targets)], targets.keys(), targets.values())
+        logp_constraints = self._logpdf_kernels(
+            full_members[:,len(targets):], constraints.keys(),
+            constraints.values())
+        return gu.logsumexp(logp_targets + logp_constraints) \
+            - gu.logsumexp(logp_constraints)
 
     def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
         if self.N == 0:
@@ -171,19 +161,15 @@ class MultivariateKde(CGpm):
         constraints = self.populate_constraints(rowid, targets, constraints)
         if constraints:
             full_members = self._dataset(targets + constraints.keys())
-            weights = _kernel_base.gpke(
-                self._bw(constraints),
-                full_members[:,len(targets):],
-                constraints.values(),
-                self._stattypes(constraints),
-                tosum=False,
-            )
+            logps = self._logpdf_kernels(
+                full_members[:,len(targets):], constraints.keys(),
+                constraints.values())
             targets_members = full_members[:,:len(targets)]
         else:
             targets_members = self._dataset(targets)
-            weights = [1] * len(targets_members)
-        assert len(weights) == len(targets_members)
-        index = gu.pflip(weights, size=N, rng=self.rng)
+            logps = np.zeros(len(targets_members))
+        assert len(logps) == len(targets_members)
+        index = gu.log_pflip(logps, size=N, rng=self.rng)
         if N is None:
             return self._simulate_member(targets_members[index], targets)
         return [self._simulate_member(targets_members[i], targets) for i in index]
@@ -237,6 +223,22 @@ class MultivariateKde(CGpm):
         X = np.asarray(self.data.values())[:,indexes]
         return X[~np.any(np.isnan(X), axis=1)]
 
+    def _logpdf_kernels(self, members, outputs, values):
+        # Log product kernel of each member at the values of the outputs. The
+        # kernels of categorical outputs have the declared number of levels,
+        # even if some of the levels do not appear in the members.
+        logps = np.zeros(len(members))
+        for i, (q, x, bw) in enumerate(
+                zip(outputs, values, self._bw(outputs))):
+            if q in self.levels:
+                p = np.where(members[:,i] == x, 1 - bw,
+                    bw / (self.levels[q] - 1.))
+                with np.errstate(divide='ignore'):
+                    logps += np.log(p)
+            else:
+                logps += norm.logpdf(x, loc=members[:,i], scale=bw)
+        return logps
+
     def _default_bw(self, q):
         i = self.outputs.index(q)
         return 1 if self.stattypes[i] == 'numerical' else .1
-- 
2.43.0


From 841dfa49ee8e22bb526a1464e6bf1608ccd4104f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 67/93] fix: FourWay gives no density to values between its
 categories

---
 src/dummy/fourway.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dummy/fourway.py b/src/dummy/fourway.py
index 8f3b1b4..30117cf 100644
--- a/src/dummy/fourway.py
+++ b/src/dummy/fourway.py
@@ -57,7 +57,7 @@ class FourWay(CGpm):
 
     def logpdf(self, rowid, targets, constraints=None, inputs=None):
         x = targets[self.outputs[0]]
-        if not (0 <= x <= 3):
+        if x not in [0, 1, 2, 3]:
             return -float('inf')
         regime = self.lookup_quadrant(
             inputs[self.inputs[0]],
-- 
2.43.0


From c61f141c6a5f1ccf44d7802dab8849702f3a589b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 68/93] fix: rows drawn together are not one shared dictionary

---
 src/dummy/barebones.py | 2 +-
 src/regressions/ols.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dummy/barebones.py b/src/dummy/barebones.py
index 1b5b4eb..e9181bf 100644
--- a/src/dummy/barebones.py
+++ b/src/dummy/barebones.py
@@ -35,7 +35,7 @@ class BareBonesCGpm(CGpm):
 
     def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
         result = {i:1 for i in self.outputs}
-        return result if N is None else [result] * N
+        return result if N is None else [dict(result) for _i in xrange(N)]
 
     def transition(self, **kwargs):
         return
diff --git a/src/regressions/ols.py b/src/regressions/ols.py
index 2c2f382..6298371 100644
--- a/src/regressions/ols.py
+++ b/src/regressions/ols.py
@@ -102,7 +102,7 @@ class OrdinaryLeastSquares(CGpm):
         x = self.rng.normal(mean, self.noise, size=N)
         # XXX Temporarily disable noise in the OLS sample.
         sample = {self.outputs[0]: mean}
-        return sample if not N else [sample] * N
+        return sample if not N else [dict(sample) for _i in xrange(N)]
 
     def logpdf_score(self):
         pass
-- 
2.43.0


From c2f8beca4a2a86f83e8a85ec552d07db55ffcee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:38 +0000
Subject: [PATCH 69/93] fix: kernel densities are zero outside the categories

---
 src/kde/mvkde.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kde/mvkde.py b/src/kde/mvkde.py
index 780d713..1409cf9 100644
--- a/src/kde/mvkde.py
+++ b/src/kde/mvkde.py
@@ -230,7 +230,9 @@ class MultivariateKde(CGpm):
         logps = np.zeros(len(members))
         for i, (q, x, bw) in enumerate(
                 zip(outputs, values, self._bw(outputs))):
-            if q in self.levels:
+            if q in self.levels and x not in range(self.levels[q]):
+                logps += -np.inf
+            elif q in self.levels:
                 p = np.where(members[:,i] == x, 1 - bw,
                     bw / (self.levels[q] - 1.))
                 with np.errstate(divide='ignore'):
-- 
2.43.0


From 32910c603f9f584a4974acf66f8e78db77f449bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:38 +0000
Subject: [PATCH 70/93] fix: the conditional density of Dots is of the target,
 not of the evidence

---
 src/uncorrelated/dots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uncorrelated/dots.py b/src/uncorrelated/dots.py
index 121d18d..06eef50 100644
--- a/src/uncorrelated/dots.py
+++ b/src/uncorrelated/dots.py
@@ -49,4 +49,4 @@ class Dots(UnDirectedXyGpm):
             for mx in set(self.mx)])
 
     def logpdf_conditional(self, w, z):
-        return self.logpdf_marginal(z)
+        return self.logpdf_marginal(w)
-- 
2.43.0


From ea70404341a75dc5b2d919ca31cce9c9ebfbd095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:38 +0000
Subject: [PATCH 71/93] fix: nearest neighbours density of categories given as
 floats, or unknown

---
 src/knn/mvknn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/knn/mvknn.py b/src/knn/mvknn.py
index a7a2a5f..c51e852 100644
--- a/src/knn/mvknn.py
+++ b/src/knn/mvknn.py
@@ -233,7 +233,8 @@ class MultivariateKnn(CGpm):
         counts = np.bincount(locality.astype(int), minlength=self.levels[q])
         p = counts / np.sum(counts, dtype=float)
         simulate = lambda N: self.rng.choice(self.levels[q], p=p, size=N)
-        logpdf = lambda x: np.log(p[x])
+        logpdf = lambda x: np.log(p[int(x)]) if x in range(self.levels[q])\
+            else -np.inf
         return LocalGpm(simulate, logpdf)
 
     def _dummy_code(self, D, variables):
-- 
2.43.0


From 9d4dd6a2f63ff1ca553dcb94ebd8bacc80ae67ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:38 +0000
Subject: [PATCH 72/93] fix: ordinary least squares draws N values of an
 observed row

---
 src/regressions/ols.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/regressions/ols.py b/src/regressions/ols.py
index 6298371..8348c2f 100644
--- a/src/regressions/ols.py
+++ b/src/regressions/ols.py
@@ -96,7 +96,8 @@ class OrdinaryLeastSquares(CGpm):
         assert targets == self.outputs
         assert not constraints
         if rowid in self.data.x:
-            return {self.outputs[0]: self.data.x[rowid]}
+            sample = {self.outputs[0]: self.data.x[rowid]}
+            return sample if not N else [dict(sample) for _i in xrange(N)]
         _xt, yt = self.preprocess(None, inputs)
         mean = self.regressor.predict([yt])[0]
         x = self.rng.normal(mean, self.noise, size=N)
-- 
2.43.0


From 5f48544fd6c857f652bee0042fd64d2ac22c490e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:12 +0000
Subject: [PATCH 73/93] fix: marginalize mutual information over the law given
 the evidence

---
 src/crosscat/state.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 33a7092..ba70550 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -760,7 +760,8 @@ class State(CGpm):
             return m
         if progress:
             self._progress(0./T)
-        m_samples = self.simulate(None, m_constraints, N=T)
+        # The marginalized variables follow their law given the fixed values.
+        m_samples = self.simulate(None, m_constraints, e_constraints, N=T)
         mi = sum(compute_one(i, samp) for i, samp in enumerate(m_samples))
         return mi / float(T)
 
-- 
2.43.0


From c576eca31c5de2cf60d199936541484e2616982b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 74/93] fix: metropolis-hastings proposals on bounded domains

---
 src/utils/sampling.py | 38 ++++++++++----------------------------
 1 file changed, 10 insertions(+), 28 deletions(-)

diff --git a/src/utils/sampling.py b/src/utils/sampling.py
index f8b7f38..e6b4ddf 100644
--- a/src/utils/sampling.py
+++ b/src/utils/sampling.py
@@ -76,43 +76,25 @@ def mh_sample(
     iters = 1.0
     aiters = 1.0
 
-    # XXX DISABLED.
-    log_correction = lambda x, x_prime, jstd: 0
-
-    # Is proposal symmetric? The folded normal is, but taking % 1?
+    # All proposals are symmetric, so no correction is needed.
     if D[0] == 0 and D[1] == 1:
+        # Normal reflected at both ends.
         def jumpfun(x, jstd):
-            x_prime = fabs(rng.normal(x, jstd))
-            if x_prime > 1.0:
-                x_prime = x_prime % 1
-            return x_prime
+            x_prime = fabs(rng.normal(x, jstd)) % 2
+            return x_prime if x_prime <= 1 else 2 - x_prime
     elif 0 <= D[0] and D[1] == float('inf'):
-        jumpfun = lambda x, jstd: fabs(x + rng.normal(0.0, jstd))
+        # Normal reflected at the lower end.
+        jumpfun = lambda x, jstd: D[0] + fabs(x - D[0] + rng.normal(0.0, jstd))
     else:
-        def jumpfun(x, jstd):
-            MAX_TRIALS = 1000
-            for _ in xrange(MAX_TRIALS):
-                x_prime = rng.normal(x, jstd)
-                if D[0] < x_prime < D[1]:
-                    return x_prime
-            raise RuntimeError('MH failed to rejection sample the proposal.')
-        # XXX DISABLED, actually the mh function needs rewriting issue #56.
-        def log_correction(x, x_prime, jstd):
-            from scipy.stats import norm
-            if D[0] == float('inf') and D[1] == float('inf'):
-                return 0
-            return norm.logcdf((D[1]-x)/jump_std-(D[0]-x)/jump_std) \
-                - norm.logcdf((D[1]-x_prime)/jump_std-(D[0]-x_prime)/jump_std)
+        # Normal, rejected below when out of the support.
+        jumpfun = lambda x, jstd: rng.normal(x, jstd)
 
     logp = logpdf_target(x)
     while num_collected < num_samples:
 
         x_prime = jumpfun(x, jump_std)
-        assert D[0] < x_prime < D[1]
-        logp_prime = logpdf_target(x_prime)
-
-        # XXX DISABLED Correct MH sampler requires the log correction!
-        # logp_corr = log_correction(x, x_prime, jump_std)
+        logp_prime = logpdf_target(x_prime) if D[0] < x_prime < D[1] \
+            else -float('inf')
 
         if log(rng.rand()) < logp_prime - logp:
             x = x_prime
-- 
2.43.0


From 70c448ed221a306387c8ce0d9c464e2533197c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 75/93] fix: undo the observed cells when VsCGpm.incorporate
 fails

---
 src/venturescript/vscgpm.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/venturescript/vscgpm.py b/src/venturescript/vscgpm.py
index ad0a6d2..948e4d9 100644
--- a/src/venturescript/vscgpm.py
+++ b/src/venturescript/vscgpm.py
@@ -79,8 +79,18 @@ class VsCGpm(CGpm):
 
     def incorporate(self, rowid, observation, inputs=None):
         inputs = self._validate_incorporate(rowid, observation, inputs)
-        for variable, value in observation.iteritems():
-            self._observe_cell(rowid, variable, value, inputs)
+        exists = rowid in self.obs
+        try:
+            for variable, value in observation.iteritems():
+                self._observe_cell(rowid, variable, value, inputs)
+        except Exception:
+            # Forget those cells which the ripl has already accepted.
+            for variable in observation:
+                self._forget_cell(rowid, variable)
+            if not exists:
+                self.obs.pop(rowid, None)
+            raise
+        self.obs[rowid]['inputs'] = inputs
 
     def unincorporate(self, rowid):
         if rowid not in self.obs:
@@ -215,9 +225,8 @@ class VsCGpm(CGpm):
                     % (rowid, observation))
             if inputs:
                 self._check_matched_inputs(rowid, inputs)
-        else:
-            self.obs[rowid]['inputs'] = dict(inputs)
-        return self.obs[rowid]['inputs']
+            return self.obs[rowid]['inputs']
+        return dict(inputs)
 
     def _validate_simulate(self, rowid, targets, constraints, inputs):
         constraints = constraints or dict()
-- 
2.43.0


From f99da052be0bedc3403e5821f801ef01dc626bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 76/93] fix: VsCGpm.simulate leaves no constraints, labels or
 rows behind

---
 src/venturescript/vscgpm.py | 47 ++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/venturescript/vscgpm.py b/src/venturescript/vscgpm.py
index 948e4d9..fcae2f0 100644
--- a/src/venturescript/vscgpm.py
+++ b/src/venturescript/vscgpm.py
@@ -106,26 +106,35 @@ class VsCGpm(CGpm):
     def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
         constraints_clean, inputs_clean = \
             self._validate_simulate(rowid, targets, constraints, inputs)
-        # Handle constraints on the multivariate output.
-        if constraints_clean:
-            # Observe constrained outputs.
-            for variable, value in constraints_clean.iteritems():
-                self._observe_cell(rowid, variable, value, inputs_clean)
-            # Run local inference in rowid scope, with 15 steps of MH.
-            self.ripl.infer('(resimulation_mh (atom %i) all %i)' % (rowid, 15))
-        # Retrieve samples, with 5 steps of MH between predict.
-        def retrieve_sample(q, l):
+        exists = rowid in self.obs
+        labels = []
+        samples = {}
+        try:
+            # Handle constraints on the multivariate output.
+            if constraints_clean:
+                # Observe constrained outputs.
+                for variable, value in constraints_clean.iteritems():
+                    self._observe_cell(rowid, variable, value, inputs_clean)
+                # Run local inference in rowid scope, with 15 steps of MH.
+                self.ripl.infer(
+                    '(resimulation_mh (atom %i) all %i)' % (rowid, 15))
+            # Retrieve samples.
             # XXX Only run inference on the latent variables in the block.
             # self.ripl.infer('(resimulation_mh (atom %i) all %i)' % (rowid, 5))
-            return self._predict_cell(rowid, q, inputs_clean, l)
-        labels = [self._gen_label() for q in targets]
-        samples = {q: retrieve_sample(q, l) for q, l in zip(targets, labels)}
-        # Forget predicted targets variables.
-        for label in labels:
-            self.ripl.forget(label)
-        # Forget constrained outputs.
-        for q, _v in constraints_clean.iteritems():
-            self._forget_cell(rowid, q)
+            for q in targets:
+                label = self._gen_label()
+                samples[q] = self._predict_cell(rowid, q, inputs_clean, label)
+                labels.append(label)
+        finally:
+            # Forget predicted targets variables.
+            for label in labels:
+                self.ripl.forget(label)
+            # Forget constrained outputs.
+            for q in constraints_clean:
+                self._forget_cell(rowid, q)
+            # Forget the row, if only the constraints created it.
+            if not exists:
+                self.obs.pop(rowid, None)
         return samples
 
     def logpdf_score(self):
@@ -192,7 +201,7 @@ class VsCGpm(CGpm):
         self.obs[rowid]['labels'][query] = label[1:]
 
     def _forget_cell(self, rowid, query):
-        if query not in self.obs[rowid]['labels']:
+        if rowid not in self.obs or query not in self.obs[rowid]['labels']:
             return
         label = self.obs[rowid]['labels'][query]
         self.ripl.forget(label)
-- 
2.43.0


From da17c58d54f96f5565e17a2204e44349891ea3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 77/93] fix: VsCGpm.from_metadata leaves the metadata as it was

---
 src/venturescript/vscgpm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/venturescript/vscgpm.py b/src/venturescript/vscgpm.py
index fcae2f0..05dff10 100644
--- a/src/venturescript/vscgpm.py
+++ b/src/venturescript/vscgpm.py
@@ -289,6 +289,8 @@ class VsCGpm(CGpm):
         def convert_key_str_to_int(d):
             assert all(isinstance(c, (str, unicode)) for c in d)
             return {int(c): v for c, v in d.iteritems()}
+        # The metadata belongs to the caller.
+        obs = copy.deepcopy(obs)
         obs2 = convert_key_str_to_int(obs)
         for r in obs2:
             obs2[r]['inputs'] = convert_key_str_to_int(obs2[r]['inputs'])
-- 
2.43.0


From b7a5f7762e66b46a17e8c8e1f988063cd6e0910f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 78/93] fix: seed the ripl of a VsCGpm restored from metadata

---
 src/venturescript/vscgpm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/venturescript/vscgpm.py b/src/venturescript/vscgpm.py
index 05dff10..886e606 100644
--- a/src/venturescript/vscgpm.py
+++ b/src/venturescript/vscgpm.py
@@ -162,7 +162,9 @@ class VsCGpm(CGpm):
 
     @classmethod
     def from_metadata(cls, metadata, rng=None):
-        ripl = vs.make_lite_ripl()
+        if rng is None:
+            rng = gu.gen_rng(1)
+        ripl = vs.make_lite_ripl(seed=rng.randint(1, 2**31 - 1))
         ripl.loads(base64.b64decode(metadata['binary']))
         cgpm = VsCGpm(
             outputs=metadata['outputs'],
-- 
2.43.0


From 0d39074cb11c4a1099b0984d78c0db07a9d67be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 79/93] fix: VsCGpm.simulate returns N samples when asked for N

---
 src/venturescript/vscgpm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/venturescript/vscgpm.py b/src/venturescript/vscgpm.py
index 886e606..b928881 100644
--- a/src/venturescript/vscgpm.py
+++ b/src/venturescript/vscgpm.py
@@ -103,6 +103,7 @@ class VsCGpm(CGpm):
     def logpdf(self, rowid, targets, constraints=None, inputs=None):
         return 0
 
+    @gu.simulate_many
     def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
         constraints_clean, inputs_clean = \
             self._validate_simulate(rowid, targets, constraints, inputs)
-- 
2.43.0


From f77820a8b698a731e92733b8848aa13e05bb796b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 80/93] fix: labels of VsCGpm do not rely on the clock to
 differ

---
 src/venturescript/vscgpm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/venturescript/vscgpm.py b/src/venturescript/vscgpm.py
index b928881..c64b58b 100644
--- a/src/venturescript/vscgpm.py
+++ b/src/venturescript/vscgpm.py
@@ -212,7 +212,7 @@ class VsCGpm(CGpm):
 
     def _gen_label(self):
         return 't%s%s' % (
-            self.rng.randint(1,100),
+            self.rng.randint(1, 2**31 - 1),
             datetime.now().strftime('%Y%m%d%H%M%S%f'))
 
     def _validate_incorporate(self, rowid, observation, inputs=None):
-- 
2.43.0


From 1157e3d69f58670e9246fe9f962c66ac22cfcdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 81/93] fix: VsCGpm.simulate accepts a hypothetical row

---
 src/venturescript/vscgpm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/venturescript/vscgpm.py b/src/venturescript/vscgpm.py
index c64b58b..075cef4 100644
--- a/src/venturescript/vscgpm.py
+++ b/src/venturescript/vscgpm.py
@@ -107,6 +107,9 @@ class VsCGpm(CGpm):
     def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
         constraints_clean, inputs_clean = \
             self._validate_simulate(rowid, targets, constraints, inputs)
+        if rowid is None:
+            # A hypothetical row: the ripl needs an identifier of its own.
+            rowid = min([0] + self.obs.keys()) - 1
         exists = rowid in self.obs
         labels = []
         samples = {}
-- 
2.43.0


From f408ce5541b28fdc4c765431e942922b8d2ac72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 82/93] fix: InlineVsCGpm forgets its expression when a query
 fails

---
 src/venturescript/vsinline.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/venturescript/vsinline.py b/src/venturescript/vsinline.py
index 060611b..9310f53 100644
--- a/src/venturescript/vsinline.py
+++ b/src/venturescript/vsinline.py
@@ -68,17 +68,19 @@ class InlineVsCGpm(CGpm):
         assert set(inputs.keys()) == set(self.inputs)
         assert targets.keys() == self.outputs
         assert not constraints
-        self.ripl.assume('expr', self.expression, label='expr_assume')
         sp_args = self._retrieve_args(inputs)
-        # Retrieve the conditional density.
-        logp = self.ripl.observe(
-            'expr (%s)' % (sp_args,),
-            targets[self.outputs[0]],
-            label='expr_observe',
-        )
-        # Forget the label.
-        self.ripl.forget('expr_observe')
-        self.ripl.forget('expr_assume')
+        self.ripl.assume('expr', self.expression, label='expr_assume')
+        try:
+            # Retrieve the conditional density.
+            logp = self.ripl.observe(
+                'expr (%s)' % (sp_args,),
+                targets[self.outputs[0]],
+                label='expr_observe',
+            )
+            # Forget the label.
+            self.ripl.forget('expr_observe')
+        finally:
+            self.ripl.forget('expr_assume')
         return logp[0]
 
     @gu.simulate_many
@@ -88,10 +90,12 @@ class InlineVsCGpm(CGpm):
         assert set(inputs.keys()) == set(self.inputs)
         assert targets == self.outputs
         assert not constraints
-        self.ripl.assume('expr', self.expression, label='expr')
         sp_args = self._retrieve_args(inputs)
-        sample = self.ripl.sample('expr(%s)' % (sp_args,))
-        self.ripl.forget('expr')
+        self.ripl.assume('expr', self.expression, label='expr')
+        try:
+            sample = self.ripl.sample('expr(%s)' % (sp_args,))
+        finally:
+            self.ripl.forget('expr')
         return {self.outputs[0]: sample}
 
     def logpdf_score(self):
-- 
2.43.0


From 4ea8a40206a343830e0575798cde0d35ca5c3b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:14 +0000
Subject: [PATCH 83/93] fix: parse_schema must not modify the client's
 dataframe

---
 src/utils/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/data.py b/src/utils/data.py
index c8b6d7a..8bf9f35 100644
--- a/src/utils/data.py
+++ b/src/utils/data.py
@@ -80,7 +80,7 @@ def parse_schema(schema, dataframe):
 
     >>> S = cgpm.crosscat.state.State(D, cctypes=cctypes, distargs=distargs)
     """
-    dataframe.replace('NA', np.nan, inplace=True)
+    dataframe = dataframe.replace('NA', np.nan)
     D = []
     cctypes, distargs = [], []
     valmap = dict()
-- 
2.43.0


From ae6e58bc812ce6e0d6ab751c646525f3eac113ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:14 +0000
Subject: [PATCH 84/93] fix: parse_schema reads the number of categories from
 the stattype

---
 src/utils/data.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/utils/data.py b/src/utils/data.py
index 8bf9f35..01addfc 100644
--- a/src/utils/data.py
+++ b/src/utils/data.py
@@ -90,10 +90,11 @@ def parse_schema(schema, dataframe):
         if stattype == 'ignore':
             continue
         X = dataframe[column]
+        (stattype,), (distarg,) = cu.parse_distargs([stattype])
         columns.append(column)
         cctypes.append(stattype)
         outputs.append(index)
-        distargs.append(None)
+        distargs.append(distarg)
         # XXX Should check for is_numeric!
         if stattype in ['bernoulli', 'categorical']:
             mapping = build_valmap(X)
@@ -102,12 +103,11 @@ def parse_schema(schema, dataframe):
             if stattype == 'bernoulli':
                 assert len(mapping) == 2
             else:
-                # Did user specify categorical mapping?
-                dist, k_user = cu.parse_distargs([column])
-                if k_user == [None]:
+                # Did user specify number of categories?
+                if distarg is None:
                     distargs[-1] = {'k': len(mapping)}
                 else:
-                    assert len(mapping) <= k_user
+                    assert len(mapping) <= distarg['k']
         D.append(X)
     T = np.asarray(D).T
     assert len(cctypes) == len(distargs) == len(columns)
-- 
2.43.0


From cee1fa51eb3f3bf145fbecdcc8be515abea38f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 85/93] fix: build_valmap orders categories despite missing
 values

---
 src/utils/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/data.py b/src/utils/data.py
index 01addfc..ef85259 100644
--- a/src/utils/data.py
+++ b/src/utils/data.py
@@ -116,7 +116,8 @@ def parse_schema(schema, dataframe):
 
 
 def build_valmap(column):
-    uniques = [u for u in sorted(column.unique()) if not pd.isnull(u)]
+    # Missing values have no order, so drop them before sorting.
+    uniques = sorted(u for u in column.unique() if not pd.isnull(u))
     return {u:k for k,u in enumerate(uniques)}
 
 
-- 
2.43.0


From d3c74cc40f9e911ed5564e4e17231c2ebfd9600b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:34 +0000
Subject: [PATCH 86/93] fix: vonmises densities are continuous where the bessel
 function overflows

---
 src/primitives/vonmises.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/primitives/vonmises.py b/src/primitives/vonmises.py
index 54349c1..9a69532 100644
--- a/src/primitives/vonmises.py
+++ b/src/primitives/vonmises.py
@@ -25,6 +25,7 @@ from math import sin
 import numpy as np
 
 from scipy.special import i0 as bessel_0
+from scipy.special import i0e as bessel_0e
 from scipy.special import i1 as bessel_1
 
 from cgpm.primitives.distribution import DistributionGpm
@@ -235,10 +236,10 @@ class Vonmises(DistributionGpm):
 
 def log_bessel_0(x):
     besa = bessel_0(x)
-    # If bessel_0(a) is inf, then use the exponential approximation to
+    # If bessel_0(a) is inf, then use the exponentially scaled function to
     # prevent numerical overflow.
     if isinf(besa):
-        I0 = x - .5*log(2*pi*x)
+        I0 = x + log(bessel_0e(x))
     else:
         I0 = log(besa)
     return I0
-- 
2.43.0


From ac8c4417fa2a432436064afdd6a4d5ece7aac0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 87/93] fix: a rejected bulk edit leaves the state as it was

---
 src/crosscat/state.py | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index ba70550..ea05e99 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -364,18 +364,25 @@ class State(CGpm):
         try:
             for view_id, view_variables in queries.iteritems():
                 observation_v = {c: observation[c] for c in view_variables}
-                forced.append(view_id)
+                forced.extend(view_variables)
                 self.views[view_id].force_cell(rowid, observation_v)
         except Exception:
             # Restore the NaN cells if a view rejects a forced value.
             for col in observation:
                 self.X[col][rowid] = float('nan')
-            for view_id in forced:
-                self.views[view_id].force_cell(
-                    rowid, {c: float('nan') for c in queries[view_id]})
+            self._clear_cell(rowid, forced)
             raise
         self._loom_path = None
 
+    def _clear_cell(self, rowid, cols):
+        """Restore the cells of cols that force_cell has set in rowid."""
+        for col in cols:
+            self.X[col][rowid] = float('nan')
+        queries = vu.partition_list({c: self.Zv(c) for c in cols}, cols)
+        for view_id, view_variables in queries.iteritems():
+            self.views[view_id].force_cell(
+                rowid, {c: float('nan') for c in view_variables})
+
     # --------------------------------------------------------------------------
     # Schema updates.
 
@@ -592,13 +599,29 @@ class State(CGpm):
 
     def incorporate_bulk(self, rowids, observations, inputs=None):
         """Incorporate multiple observations at once, used by Engine."""
-        for rowid, observation in zip(rowids, observations):
-            self.incorporate(rowid, observation, inputs)
+        incorporated = []
+        try:
+            for rowid, observation in zip(rowids, observations):
+                self.incorporate(rowid, observation, inputs)
+                incorporated.append(rowid)
+        except Exception:
+            # Restore the state if one of the observations is rejected.
+            for rowid in reversed(incorporated):
+                self.unincorporate(rowid)
+            raise
 
     def force_cell_bulk(self, rowids, queries):
         """Force multiple cell values at once, used by Engine."""
-        for rowid, query in zip(rowids, queries):
-            self.force_cell(rowid, query)
+        forced = []
+        try:
+            for rowid, query in zip(rowids, queries):
+                self.force_cell(rowid, query)
+                forced.append((rowid, query))
+        except Exception:
+            # Restore the NaN cells if one of the queries is rejected.
+            for rowid, query in reversed(forced):
+                self._clear_cell(rowid, query)
+            raise
 
     # --------------------------------------------------------------------------
     # Dependence probability.
-- 
2.43.0


From e44624b567b5c2fa4df7af3750b2502ba72fde1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 88/93] fix: a view restored from its metadata holds the rows
 it held

---
 src/mixtures/view.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index 76791b5..e42db22 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -16,6 +16,7 @@
 
 import copy
 
+from collections import OrderedDict
 from math import isnan
 
 import numpy as np
@@ -58,7 +59,7 @@ class View(CGpm):
             A `len(outputs[1:])` list of distargs.
         hypers : list<dict>, optional.
             A `len(outputs[1:])` list of hyperparameters.
-        Zr : list<int>, optional.
+        Zr : list<int> or dict<int, int>, optional.
             Row partition, where `Zr[rowid]` is the cluster identity of rowid.
         rng : np.random.RandomState, optional.
             Source of entropy.
@@ -102,7 +103,8 @@ class View(CGpm):
                 s = self.crp.simulate(i, [self.outputs[0]], None, {-1:0})
                 self.crp.incorporate(i, s, {-1:0})
         else:
-            for i, z in enumerate(Zr):
+            rows = Zr.iteritems() if isinstance(Zr, dict) else enumerate(Zr)
+            for i, z in rows:
                 self.crp.incorporate(i, {self.outputs[0]: z}, {-1:0})
 
         # -- Dimensions --------------------------------------------------------
@@ -599,11 +601,12 @@ class View(CGpm):
         metadata = dict()
 
         # Dataset.
-        metadata['X'] = self.X
-        metadata['outputs'] = self.outputs
+        metadata['X'] = {c: list(self.X[c]) for c in self.X}
+        metadata['outputs'] = list(self.outputs)
 
         # View partition data.
         rowids = sorted(self.Zr().keys())
+        metadata['rowids'] = rowids
         metadata['Zr'] = [self.Zr(i) for i in rowids]
         metadata['alpha'] = self.alpha()
 
@@ -614,8 +617,8 @@ class View(CGpm):
         metadata['suffstats'] = []
         for c in self.outputs[1:]:
             metadata['cctypes'].append(self.dims[c].cctype)
-            metadata['hypers'].append(self.dims[c].hypers)
-            metadata['distargs'].append(self.dims[c].distargs)
+            metadata['hypers'].append(dict(self.dims[c].hypers))
+            metadata['distargs'].append(copy.deepcopy(self.dims[c].distargs))
             metadata['suffstats'].append(self.dims[c].get_suffstats().items())
 
         # Factory data.
@@ -627,13 +630,19 @@ class View(CGpm):
     def from_metadata(cls, metadata, rng=None):
         if rng is None:
             rng = gu.gen_rng(0)
+        # json keys are strings -- convert back to integers.
+        X = {int(c): list(x) for c, x in metadata['X'].iteritems()}
+        # The incorporated rows are not contiguous in general.
+        Zr = metadata.get('Zr', None)
+        if Zr is not None and 'rowids' in metadata:
+            Zr = OrderedDict(zip(metadata['rowids'], Zr))
         return cls(
-            metadata.get('X'),
+            X,
             outputs=metadata.get('outputs', None),
             inputs=metadata.get('inputs', None),
             alpha=metadata.get('alpha', None),
             cctypes=metadata.get('cctypes', None),
             distargs=metadata.get('distargs', None),
             hypers=metadata.get('hypers', None),
-            Zr=metadata.get('Zr', None),
+            Zr=Zr,
             rng=rng)
-- 
2.43.0


From 7d5bcec23100cbabbc250633dfcc2c39b42fd162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:41 +0000
Subject: [PATCH 89/93] fix: plots of columns with a cluster of missing cells
 only

---
 src/utils/plots.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/utils/plots.py b/src/utils/plots.py
index da710f6..80085ec 100644
--- a/src/utils/plots.py
+++ b/src/utils/plots.py
@@ -48,9 +48,11 @@ def plot_dist_continuous(X, output, clusters, ax=None, Y=None, hist=True):
     if Y is None:
         Y = np.linspace(x_min, x_max, 200)
     # Compute weighted pdfs.
-    pdf = np.zeros((len(clusters), len(Y)))
-    W = [log(clusters[k].N) - log(float(len(X))) for k in clusters]
-    for i, k in enumerate(clusters):
+    # A cluster whose cells are all missing has no weight.
+    occupied = [k for k in clusters if clusters[k].N > 0]
+    pdf = np.zeros((len(occupied), len(Y)))
+    W = [log(clusters[k].N) - log(float(len(X))) for k in occupied]
+    for i, k in enumerate(occupied):
         pdf[i,:] = np.exp(
             [W[i] + clusters[k].logpdf(None, {output:y}) for y in Y])
         color, alpha = gu.curve_color(i)
@@ -81,9 +83,11 @@ def plot_dist_discrete(X, output, clusters, ax=None, Y=None, hist=True):
     X_hist = np.bincount(X) / float(len(X))
     ax.bar(Y, X_hist, color='gray', edgecolor='none')
     # Compute weighted pdfs
-    pdf = np.zeros((len(clusters), len(Y)))
-    W = [log(clusters[k].N) - log(float(len(X))) for k in clusters]
-    for i, k in enumerate(clusters):
+    # A cluster whose cells are all missing has no weight.
+    occupied = [k for k in clusters if clusters[k].N > 0]
+    pdf = np.zeros((len(occupied), len(Y)))
+    W = [log(clusters[k].N) - log(float(len(X))) for k in occupied]
+    for i, k in enumerate(occupied):
         pdf[i,:] = np.exp(
             [W[i] + clusters[k].logpdf(None, {output:y}) for y in Y])
         color, alpha = gu.curve_color(i)
-- 
2.43.0


From e5e4d4eb24fdebc22a4af16119f1002dc596b703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:37 +0000
Subject: [PATCH 90/93] fix: unnamed rows and columns of a drawn view go by
 their numbers

---
 src/utils/render.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/utils/render.py b/src/utils/render.py
index d4c9da0..fcdd758 100644
--- a/src/utils/render.py
+++ b/src/utils/render.py
@@ -199,11 +199,12 @@ def viz_view_raw(view, ax=None, row_names=None, col_names=None, **kwargs):
     clustered_data = clustered_data[:,dim_ordering]
 
     # Determine row and column names.
-    if row_names is not None:
-        row_names = row_names[row_indexes]
+    if row_names is None:
+        row_names = np.array(map(str, range(len(data_arr))))
+    row_names = row_names[row_indexes]
 
     if col_names is None:
-        col_names = view.outputs[1:]
+        col_names = np.array(map(str, view.outputs[1:]))
     col_names = col_names[dim_ordering]
 
     # Plot clustered data.
-- 
2.43.0


From 8ba6d7467970e3809d4b06a507e52c86b89d4bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:26 +0000
Subject: [PATCH 91/93] fix: reject an empty block of dependent columns

---
 src/utils/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/validation.py b/src/utils/validation.py
index 9fad35a..22f7bac 100644
--- a/src/utils/validation.py
+++ b/src/utils/validation.py
@@ -39,7 +39,7 @@ def validate_dependency_constraints(N, Cd, Ci):
     counts = {}
     for block in Cd:
         # Every constraint must be more than one customer.
-        if len(block) == 1:
+        if len(block) < 2:
             raise ValueError('Single customer in dependency constraint.')
         for col in block:
             # Every column must have correct index.
-- 
2.43.0


From 2a52c2417b537ec6495e41e1f40078c4990c7d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:26 +0000
Subject: [PATCH 92/93] fix: dependence self-check names columns, not positions

---
 src/crosscat/state.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index ea05e99..8c79bfc 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -1308,8 +1308,7 @@ class State(CGpm):
             self.views[v]._check_partitions()
         # Dependence constraints.
         assert vu.validate_crp_constrained_partition(
-            [self.Zv(c) for c in self.outputs], self.Cd, self.Ci,
-            self.Rd, self.Ri)
+            self.Zv(), self.Cd, self.Ci, self.Rd, self.Ri)
 
     # --------------------------------------------------------------------------
     # Serialize
-- 
2.43.0


From 909d9193502971f60cbc40534cb683b6bee517c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:44 +0000
Subject: [PATCH 93/93] fix: restore a view which holds no row

---
 src/mixtures/view.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index e42db22..bf2b096 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -106,6 +106,9 @@ class View(CGpm):
             rows = Zr.iteritems() if isinstance(Zr, dict) else enumerate(Zr)
             for i, z in rows:
                 self.crp.incorporate(i, {self.outputs[0]: z}, {-1:0})
+        # A view may hold no row, if all of them were unincorporated.
+        if 0 not in self.crp.clusters:
+            self.crp.clusters[0] = self.crp.create_aux_model()
 
         # -- Dimensions --------------------------------------------------------
         self.dims = dict()
-- 
2.43.0

