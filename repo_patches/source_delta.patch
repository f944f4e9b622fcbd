From 18f278afdd31f07e77021f0a65d8305c5648970e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:31 +0000
Subject: [PATCH 01/46] fix: detect cycles through the start variable in
 find_all_paths

The child list of the start variable was consumed in place, so a walk that
came back to it saw only the remaining children: cycles were missed and
paths visiting the start variable twice could be reported.
---
 lingam/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index 6be6c0c..79fd1c6 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -825,7 +825,7 @@ def find_all_paths(dag, from_index, to_index, min_causal_effect=0.0):
     # DFS
     paths = []
     stack = [from_index]
-    stack_to_indice = [to_indices[from_index]]
+    stack_to_indice = [to_indices[from_index].copy()]
     while stack:
         if len(stack) > dag.shape[0]:
             raise ValueError(
-- 
2.43.0


From e4ba5f460ffff73c40d013c79b4960f32da0abda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:31 +0000
Subject: [PATCH 02/46] fix: do not take a variable with cancelling
 coefficients for a root

calculate_distance_from_root_nodes summed signed coefficients, so a row
such as [1, -1, 0] was treated as having no parents.
---
 lingam/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index 79fd1c6..ce119ae 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -1047,7 +1047,7 @@ def calculate_distance_from_root_nodes(adjacency_matrix, max_distance=None):
 
     # find root nodes
     root_indices = np.argwhere(
-        np.isclose(np.sum(adjacency_matrix, axis=1), 0) == True
+        np.isclose(np.sum(np.abs(adjacency_matrix), axis=1), 0) == True
     ).flatten()
     if len(root_indices) == 0:
         raise ValueError("adjacency_matrix has no root nodes.")
-- 
2.43.0


From c4a5ec7096785b2632ddaea44630fc1d16e9ec81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:57 +0000
Subject: [PATCH 03/46] fix: reject in BottomUpParceLiNGAM when every p-value
 underflows to zero

With all Fisher statistics infinite no candidate was selected, the
evaluation stayed at infinity, the test counted as not rejected and all
remaining variables were given an arbitrary order.
---
 lingam/bottom_up_parce_lingam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/bottom_up_parce_lingam.py b/lingam/bottom_up_parce_lingam.py
index 8fdfa57..b387b68 100644
--- a/lingam/bottom_up_parce_lingam.py
+++ b/lingam/bottom_up_parce_lingam.py
@@ -258,7 +258,7 @@ class BottomUpParceLiNGAM:
                     )
 
                     # Update output
-                    if fisher_stat < max_p_stat:
+                    if len(exo_vec) == 0 or fisher_stat < max_p_stat:
                         exo_vec = xi_index
                         eval = fisher_p
                         max_p_stat = fisher_stat
-- 
2.43.0


From a851b242d23c932907cdac17bb6fd83310a1dd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:05 +0000
Subject: [PATCH 04/46] fix: let every VARLiNGAM fit start from the given
 settings

A fit overwrote the lags and AR coefficients given by the user with its own
estimates, so that a second fit reused the coefficients of the first, pruning
used the maximum instead of the selected number of lags, and an exception
during bootstrap() disabled the criterion for good.
---
 lingam/var_lingam.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/lingam/var_lingam.py b/lingam/var_lingam.py
index 6883b9b..3ff6048 100644
--- a/lingam/var_lingam.py
+++ b/lingam/var_lingam.py
@@ -55,12 +55,14 @@ class VARLiNGAM:
         random_state : int, optional (default=None)
             ``random_state`` is the seed used by the random number generator.
         """
+        self._init_lags = lags
         self._lags = lags
         self._criterion = criterion
         self._prune = prune
-        self._ar_coefs = (
+        self._init_ar_coefs = (
             check_array(ar_coefs, allow_nd=True) if ar_coefs is not None else None
         )
+        self._ar_coefs = self._init_ar_coefs
         self._lingam_model = lingam_model
         self._random_state = random_state
 
@@ -89,7 +91,9 @@ class VARLiNGAM:
         elif not isinstance(lingam_model, _BaseLiNGAM):
             raise ValueError("lingam_model must be a subclass of _BaseLiNGAM")
 
-        M_taus = self._ar_coefs
+        # start from the given settings, not from the results of a previous fit
+        M_taus = self._init_ar_coefs
+        self._lags = self._init_lags
 
         if M_taus is None:
             M_taus, lags, residuals = self._estimate_var_coefs(X)
@@ -97,6 +101,8 @@ class VARLiNGAM:
             lags = M_taus.shape[0]
             residuals = self._calc_residuals(X, M_taus, lags)
 
+        self._lags = lags
+
         model = lingam_model
         model.fit(residuals)
 
@@ -106,7 +112,6 @@ class VARLiNGAM:
             B_taus = self._pruning(X, B_taus, model.causal_order_)
 
         self._ar_coefs = M_taus
-        self._lags = lags
         self._residuals = residuals
 
         self._causal_order = model.causal_order_
@@ -135,16 +140,19 @@ class VARLiNGAM:
         n_samples = X.shape[0]
         n_features = X.shape[1]
 
-        # store initial settings
-        ar_coefs = self._ar_coefs
-        lags = self._lags
-
+        # search of lags is disabled while bootstrapping
         criterion = self._criterion
         self._criterion = None
+        try:
+            return self._bootstrap(X, n_sampling, n_samples, n_features)
+        finally:
+            self._criterion = criterion
 
+    def _bootstrap(self, X, n_sampling, n_samples, n_features):
         self.fit(X)
 
         fitted_ar_coefs = self._ar_coefs
+        lags = self._lags
 
         total_effects = np.zeros(
             [n_sampling, n_features, n_features * (1 + self._lags)]
@@ -166,10 +174,6 @@ class VARLiNGAM:
 
                 resampled_X[j, :] = ar + sampled_residuals[j]
 
-            # restore initial settings
-            self._ar_coefs = ar_coefs
-            self._lags = lags
-
             self.fit(resampled_X)
             am = np.concatenate([*self._adjacency_matrices], axis=1)
             adjacency_matrices.append(am)
@@ -189,8 +193,6 @@ class VARLiNGAM:
                             i, to, from_ + n_features * (lag + 1)
                         ] = self.estimate_total_effect2(n_features, from_, to, lag + 1)
 
-        self._criterion = criterion
-
         return VARBootstrapResult(adjacency_matrices, total_effects)
 
     def estimate_total_effect(self, X, from_index, to_index, from_lag=0):
-- 
2.43.0


From 1dc1ed40e8dfbe3a35ede32d684e33ba66ee7165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:05 +0000
Subject: [PATCH 05/46] fix: resample the residuals of the fitted model in
 VARLiNGAM.bootstrap

Every replicate resampled the residuals of the previous replicate instead of
those of the model fitted to the data.
---
 lingam/var_lingam.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lingam/var_lingam.py b/lingam/var_lingam.py
index 3ff6048..4d95ab7 100644
--- a/lingam/var_lingam.py
+++ b/lingam/var_lingam.py
@@ -152,6 +152,7 @@ class VARLiNGAM:
         self.fit(X)
 
         fitted_ar_coefs = self._ar_coefs
+        fitted_residuals = self._residuals
         lags = self._lags
 
         total_effects = np.zeros(
@@ -160,7 +161,7 @@ class VARLiNGAM:
 
         adjacency_matrices = []
         for i in range(n_sampling):
-            sampled_residuals = resample(self._residuals, n_samples=n_samples)
+            sampled_residuals = resample(fitted_residuals, n_samples=n_samples)
 
             resampled_X = np.zeros((n_samples, n_features))
             for j in range(n_samples):
-- 
2.43.0


From 7cb85f988ce67ae37a57c6a0b970423b50244696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:29 +0000
Subject: [PATCH 06/46] fix: let every VARMALiNGAM fit start from the given
 settings

A fit overwrote the order and the coefficients given by the user with its own
estimates, so that a second fit reused the coefficients of the first, and an
exception during bootstrap() disabled the criterion for good.
---
 lingam/varma_lingam.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index 687700c..14a630f 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -63,16 +63,19 @@ class VARMALiNGAM:
         random_state : int, optional (default=None)
             ``random_state`` is the seed used by the random number generator.
         """
+        self._init_order = order
         self._order = order
         self._criterion = criterion
         self._prune = prune
         self._max_iter = max_iter
-        self._ar_coefs = (
+        self._init_ar_coefs = (
             check_array(ar_coefs, allow_nd=True) if ar_coefs is not None else None
         )
-        self._ma_coefs = (
+        self._init_ma_coefs = (
             check_array(ma_coefs, allow_nd=True) if ma_coefs is not None else None
         )
+        self._ar_coefs = self._init_ar_coefs
+        self._ma_coefs = self._init_ma_coefs
         self._lingam_model = lingam_model
         self._random_state = random_state
 
@@ -101,8 +104,10 @@ class VARMALiNGAM:
         elif not isinstance(lingam_model, _BaseLiNGAM):
             raise ValueError("lingam_model must be a subclass of _BaseLiNGAM")
 
-        phis = self._ar_coefs
-        thetas = self._ma_coefs
+        # start from the given settings, not from the results of a previous fit
+        phis = self._init_ar_coefs
+        thetas = self._init_ma_coefs
+        self._order = self._init_order
         order = self._order
 
         if phis is None or thetas is None:
@@ -156,17 +161,19 @@ class VARMALiNGAM:
 
         n_samples = X.shape[0]
         n_features = X.shape[1]
-        (p, q) = self._order
-
-        # store initial settings
-        ar_coefs = self._ar_coefs
-        ma_coefs = self._ma_coefs
 
+        # search of order is disabled while bootstrapping
         criterion = self._criterion
         self._criterion = None
+        try:
+            return self._bootstrap(X, n_sampling, n_samples, n_features)
+        finally:
+            self._criterion = criterion
 
+    def _bootstrap(self, X, n_sampling, n_samples, n_features):
         self.fit(X)
 
+        (p, q) = self._order
         fitted_ar_coefs = self._ar_coefs
         fitted_ma_coefs = self._ma_coefs
 
@@ -192,10 +199,6 @@ class VARMALiNGAM:
 
                 resampled_X[j, :] = ar + sampled_residuals[j] + ma
 
-            # restore initial settings
-            self._ar_coefs = ar_coefs
-            self._ma_coefs = ma_coefs
-
             self.fit(resampled_X)
 
             psi = self._adjacency_matrices[0]
@@ -218,8 +221,6 @@ class VARMALiNGAM:
                             self.estimate_total_effect2(n_features, from_, to, lag + 1)
                         )
 
-        self._criterion = criterion
-
         return VARMABootstrapResult(adjacency_matrices, total_effects, self._order)
 
     def estimate_total_effect(self, X, E, from_index, to_index, from_lag=0):
-- 
2.43.0


From 45d0695895eb888f32d9d6b0aa102f6f95727fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:29 +0000
Subject: [PATCH 07/46] fix: resample the residuals of the fitted model in
 VARMALiNGAM.bootstrap

Every replicate resampled the residuals of the previous replicate instead of
those of the model fitted to the data.
---
 lingam/varma_lingam.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index 14a630f..74bb640 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -176,12 +176,13 @@ class VARMALiNGAM:
         (p, q) = self._order
         fitted_ar_coefs = self._ar_coefs
         fitted_ma_coefs = self._ma_coefs
+        fitted_residuals = self._residuals
 
         total_effects = np.zeros([n_sampling, n_features, n_features * (1 + p)])
 
         adjacency_matrices = []
         for i in range(n_sampling):
-            sampled_residuals = resample(self._residuals, n_samples=n_samples)
+            sampled_residuals = resample(fitted_residuals, n_samples=n_samples)
 
             resampled_X = np.zeros((n_samples, n_features))
             for j in range(n_samples):
-- 
2.43.0


From 1430d9a559eab333328da33f336f13f20ba5149c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:29 +0000
Subject: [PATCH 08/46] fix: multiply omega of VARMALiNGAM by the inverse of I
 - psi0

The inverse was passed to np.dot() as its output buffer.
---
 lingam/varma_lingam.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index 74bb640..784a856 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -421,10 +421,12 @@ class VARMALiNGAM:
 
         omegas = []
         for j in range(order[1]):
-            omega = np.dot(
-                np.eye(psi0.shape[0]) - psi0,
-                thetas[j],
-                np.linalg.inv(np.eye(psi0.shape[0]) - psi0),
+            omega = np.linalg.multi_dot(
+                [
+                    np.eye(psi0.shape[0]) - psi0,
+                    thetas[j],
+                    np.linalg.inv(np.eye(psi0.shape[0]) - psi0),
+                ]
             )
             omegas.append(omega)
 
-- 
2.43.0


From 84fff80d6019fe11085c474d6cbd1358a7bc8f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:46 +0000
Subject: [PATCH 09/46] fix: use the given from_lag in total effects of
 VARMALiNGAM

Every positive from_lag was treated as 1, and the parents of the lagged source
variable were looked up in the wrong columns of the joined data.
---
 lingam/varma_lingam.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index 784a856..9d8b60f 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -259,17 +259,17 @@ class VARMALiNGAM:
                     f"is earlier than the source variable (from_index={from_index})."
                 )
 
-        # X + lagged X
-        X_joined = np.zeros(
-            (X.shape[0], X.shape[1] * (1 + from_lag + self._order[0] + self._order[1]))
-        )
+        # X + lagged X, shifted by from_lag
+        n_lagged_x = 1 + self._order[0] + from_lag
+        n_lagged_e = self._order[1] + from_lag
+        X_joined = np.zeros((X.shape[0], X.shape[1] * (n_lagged_x + n_lagged_e)))
 
-        for p in range(1 + self._order[0]):
+        for p in range(n_lagged_x):
             pos = n_features * p
             X_joined[:, pos : pos + n_features] = np.roll(X[:, 0:n_features], p, axis=0)
 
-        for q in range(self._order[1]):
-            pos = n_features * (1 + self._order[0]) + n_features * q
+        for q in range(n_lagged_e):
+            pos = n_features * n_lagged_x + n_features * q
             X_joined[:, pos : pos + n_features] = np.roll(
                 E[:, 0:n_features], q + 1, axis=0
             )
@@ -281,8 +281,9 @@ class VARMALiNGAM:
 
         # from_index + parents indices
         parents = np.where(np.abs(am[from_index]) > 0)[0]
-        from_index = from_index if from_lag == 0 else from_index + n_features
-        parents = parents if from_lag == 0 else parents + n_features
+        from_index = from_index + n_features * from_lag
+        is_error = parents >= n_features * (1 + self._order[0])
+        parents = parents + n_features * from_lag * (1 + is_error)
         predictors = [from_index]
         predictors.extend(parents)
 
@@ -326,7 +327,7 @@ class VARMALiNGAM:
         am = np.pad(am, [(0, am.shape[1] - am.shape[0]), (0, 0)])
 
         # from_index + parents indices
-        from_index = from_index if from_lag == 0 else from_index + n_features
+        from_index = from_index + n_features * from_lag
 
         # Estimate total effect
         effect = calculate_total_effect(am, from_index, to_index)
-- 
2.43.0


From 7009b9c221638fd71a909ce46636ae0e8966ca7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:25 +0000
Subject: [PATCH 10/46] fix: align samples with errors when VARMALiNGAM prunes
 with given coefficients

fit() always failed with a shape mismatch when ar_coefs and ma_coefs were given
and prune was True.
---
 lingam/varma_lingam.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index 9d8b60f..55ed366 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -437,6 +437,9 @@ class VARMALiNGAM:
         """"""
         n_features = X.shape[1]
 
+        # errors of the first samples are not available if the coefficients are given
+        X = X[X.shape[0] - ee.shape[0] :]
+
         # join X(t), X(t-1) and e(t-1)
         X_joined = np.zeros((X.shape[0], X.shape[1] * (1 + order[0] + order[1])))
         for p in range(1 + order[0]):
-- 
2.43.0


From 8f3bf0d2a901b3a3c037915305e39213791b9c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:25 +0000
Subject: [PATCH 11/46] fix: store the lagged effects of LongitudinalLiNGAM in
 order of lag

With n_lags > 1 the blocks were stored oldest first, although they are
documented and used by the total effects and paths as B(t,t-1), B(t,t-2), ...
---
 lingam/longitudinal_lingam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lingam/longitudinal_lingam.py b/lingam/longitudinal_lingam.py
index 8a697c9..a145969 100644
--- a/lingam/longitudinal_lingam.py
+++ b/lingam/longitudinal_lingam.py
@@ -168,7 +168,6 @@ class LongitudinalLiNGAM:
                 for lag in range(n_taus):
                     adjs[t, lag] = adj[t, t - lag]
             adjs[:self._n_lags] = np.nan
-            adjs[:, 1:] = adjs[:, 1:][:, ::-1]
 
             # make causal_orders
             causal_orders = []
@@ -416,7 +415,8 @@ class LongitudinalLiNGAM:
             reg = LinearRegression()
             reg.fit(X.T, y.T)
 
-            M_tau[t, :self._n_lags] = np.split(reg.coef_, self._n_lags, axis=1)
+            # the columns of X start from the oldest timepoint
+            M_tau[t, :self._n_lags] = np.split(reg.coef_, self._n_lags, axis=1)[::-1]
             N_t[t] = X_t[t] - reg.coef_ @ X
 
         return M_tau, N_t
-- 
2.43.0


From 38e5a8e752daa8e5f6bc26fd8f926fdcca4abdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:25 +0000
Subject: [PATCH 12/46] fix: skip timepoints without estimates in
 LongitudinalLiNGAM.bootstrap

The default start_from_t=1 made bootstrap() fail whenever n_lags > 1, because
there are no estimates before timepoint n_lags.
---
 lingam/longitudinal_lingam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/longitudinal_lingam.py b/lingam/longitudinal_lingam.py
index a145969..5f0d5d2 100644
--- a/lingam/longitudinal_lingam.py
+++ b/lingam/longitudinal_lingam.py
@@ -239,7 +239,7 @@ class LongitudinalLiNGAM:
             adjacency_matrices[i] = self._adjacency_matrices
 
             # Calculate total effects
-            for from_t in range(start_from_t, self._T):
+            for from_t in range(max(start_from_t, self._n_lags), self._T):
                 for c, from_ in enumerate(self._causal_orders[from_t]):
                     to_t = from_t
                     for to in self._causal_orders[from_t][c + 1 :]:
-- 
2.43.0


From ac13f00091b18e4ac38cf764d5bfe0f27be6f6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:41 +0000
Subject: [PATCH 13/46] fix: do not truncate residuals of integer data in
 DirectLiNGAM

The residuals of each search step were written into a copy of the data that
kept its integer type.
---
 lingam/direct_lingam.py             | 2 +-
 lingam/multi_group_direct_lingam.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lingam/direct_lingam.py b/lingam/direct_lingam.py
index 7987bcb..ea939c8 100644
--- a/lingam/direct_lingam.py
+++ b/lingam/direct_lingam.py
@@ -90,7 +90,7 @@ class DirectLiNGAM(_BaseLiNGAM):
         # Causal discovery
         U = np.arange(n_features)
         K = []
-        X_ = np.copy(X)
+        X_ = np.array(X, dtype=np.float64)
         if self._measure == "kernel":
             X_ = scale(X_)
 
diff --git a/lingam/multi_group_direct_lingam.py b/lingam/multi_group_direct_lingam.py
index 89c1032..ee2a625 100644
--- a/lingam/multi_group_direct_lingam.py
+++ b/lingam/multi_group_direct_lingam.py
@@ -80,7 +80,7 @@ class MultiGroupDirectLiNGAM(DirectLiNGAM):
         # Causal discovery
         U = np.arange(self._n_features)
         K = []
-        X_list_ = [np.copy(X) for X in X_list]
+        X_list_ = [np.array(X, dtype=np.float64) for X in X_list]
         for _ in range(self._n_features):
             m = self._search_causal_order(X_list_, U)
             for i in U:
-- 
2.43.0


From c6283e141f96a44105fb4cc5b87fedc2ef895c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:41 +0000
Subject: [PATCH 14/46] fix: do not truncate residuals of integer data in
 remove_effect

---
 lingam/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index ce119ae..9c55488 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -206,7 +206,7 @@ def remove_effect(X, remove_features, return_coefs=False):
         The order of the coefficients in the list is the same
         as in remove_features. Only provided if return_coefs is True.
     """
-    X = np.copy(check_array(X))
+    X = np.array(check_array(X), dtype=np.float64)
     coefs = {}
     features_ = [i for i in np.arange(X.shape[1]) if i not in remove_features]
     for feature in features_:
-- 
2.43.0


From ddcf5947bfe87998d8a6177c9b06b58a701edf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:55 +0000
Subject: [PATCH 15/46] fix: judge independence in MultiGroupRCD by the largest
 F-correlation

With independence='fcorr' only the F-correlation of the last dataset counted.
---
 lingam/multi_group_rcd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/multi_group_rcd.py b/lingam/multi_group_rcd.py
index 3e1537a..5662f1b 100644
--- a/lingam/multi_group_rcd.py
+++ b/lingam/multi_group_rcd.py
@@ -411,7 +411,7 @@ class MultiGroupRCD:
                 if f_corr > max_f_corr:
                     max_f_corr = f_corr
 
-            is_independent = f_corr < self._ind_corr
+            is_independent = max_f_corr < self._ind_corr
 
         return is_independent
 
-- 
2.43.0


From 38b772b11c217c926fbcbc512132af8199278876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:55 +0000
Subject: [PATCH 16/46] fix: do not take a variable with cancelling
 coefficients for a root in CausalEffect

---
 lingam/causal_effect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/causal_effect.py b/lingam/causal_effect.py
index 70b08e2..0c9c710 100644
--- a/lingam/causal_effect.py
+++ b/lingam/causal_effect.py
@@ -223,7 +223,7 @@ class CausalEffect(object):
         En = Ex - np.dot(self._B, Ex)
 
         s = [i for i in range(X.shape[1]) if i != intervention_index]
-        root_vars = np.where(np.sum(self._B, axis=1) == 0)[0].tolist()
+        root_vars = np.where(np.sum(np.abs(self._B), axis=1) == 0)[0].tolist()
         s = [i for i in s if i not in root_vars]
         alpha = np.zeros(self._B.shape[1])
 
-- 
2.43.0


From 54736c50767f62c8de7840ce302bb03a0d4c3d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:43 +0000
Subject: [PATCH 17/46] fix: raise the intended error when
 CausalBasedSimulator.run() precedes train()

---
 lingam/causal_based_simulator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lingam/causal_based_simulator.py b/lingam/causal_based_simulator.py
index eb0bb68..c237a90 100644
--- a/lingam/causal_based_simulator.py
+++ b/lingam/causal_based_simulator.py
@@ -26,6 +26,8 @@ class CausalBasedSimulator:
         Information about trained models.
     """
 
+    _train_result = None
+
     def train(self, X, causal_graph, cd_algo_name=None, models=None, is_discrete=None):
         """
         Estimate functional relations between variables and variable
-- 
2.43.0


From 61bff45d40098ad14e0e49f5f21f7f272a1335fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:43 +0000
Subject: [PATCH 18/46] fix: accept any array-like in changing_exog of
 CausalBasedSimulator

The values were validated as array-like but used as if they were ndarrays.
---
 lingam/causal_based_simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/causal_based_simulator.py b/lingam/causal_based_simulator.py
index c237a90..cde9694 100644
--- a/lingam/causal_based_simulator.py
+++ b/lingam/causal_based_simulator.py
@@ -223,7 +223,7 @@ class CausalBasedSimulator:
             if s.shape[0] != n_samples:
                 raise RuntimeError(f"Wrong length. ({s.shape[0]} != {n_samples})")
 
-            changing_exog_[var_name] = values
+            changing_exog_[var_name] = s
 
         return changing_exog_
 
-- 
2.43.0


From 7937c7bfa68063cf9fca885f12a907389db7e4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:43 +0000
Subject: [PATCH 19/46] fix: generate data without adjustments in
 CausalDataGenerator

fit() makes no model of the cause if there are no adjustments, but generate()
used it nevertheless.
---
 lingam/experimental/cdg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/experimental/cdg.py b/lingam/experimental/cdg.py
index db4efbe..627ed17 100644
--- a/lingam/experimental/cdg.py
+++ b/lingam/experimental/cdg.py
@@ -213,7 +213,7 @@ class CausalDataGenerator:
                 generated[self._cause] = predicted
                 if self._X[self._cause].dtype == "category":
                     generated[self._cause] = pd.Categorical(generated[self._cause])
-            else:
+            elif self.model_cause_ is not None:
                 if self._X[self._cause].dtype != "category":
                     predicted = self.model_cause_.predict(generated[self._adjustments])
                     generated[self._cause] += np.array(predicted)
-- 
2.43.0


From b2284e70f1d37638619ee7a3701d90c321124bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:43 +0000
Subject: [PATCH 20/46] fix: allow unused columns in the data of
 CausalDataGenerator

generate() failed with a KeyError if X had columns other than the cause, the
effect and the adjustments.
---
 lingam/experimental/cdg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lingam/experimental/cdg.py b/lingam/experimental/cdg.py
index 627ed17..7b35721 100644
--- a/lingam/experimental/cdg.py
+++ b/lingam/experimental/cdg.py
@@ -270,7 +270,8 @@ class CausalDataGenerator:
                     generated[self._effect] = np.array(predicted)
                     generated[self._effect] = pd.Categorical(generated[self._effect])
 
-        generated_values = generated.loc[self._X.index, self._X.columns]
+        columns = [c for c in self._X.columns if c in generated.columns]
+        generated_values = generated[columns]
 
         return generated_values
 
-- 
2.43.0


From 407baee268abf40e0f3339ace5088279cd3267ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:43 +0000
Subject: [PATCH 21/46] fix: keep the loss type given to LiM when fitting

The local search phase replaced it for good, so that a second fit() optimized a
different objective.
---
 lingam/lim.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lingam/lim.py b/lingam/lim.py
index e25e9db..2602a3a 100644
--- a/lingam/lim.py
+++ b/lingam/lim.py
@@ -86,7 +86,11 @@ class LiM:
             Returns the instance of self.
         """
 
-        W_min_lss = self._estimate_LiM(X, dis_con, only_global, is_poisson)
+        loss_type = self._loss_type
+        try:
+            W_min_lss = self._estimate_LiM(X, dis_con, only_global, is_poisson)
+        finally:
+            self._loss_type = loss_type
         self._adjacency_matrix = W_min_lss
         return self._adjacency_matrix
 
-- 
2.43.0


From aca1a220829780d7fce681654b653b9ac2c53fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:22 +0000
Subject: [PATCH 22/46] fix: do not truncate residuals of integer data in RCD

The residuals given common ancestors were written into an array of the
integer type of the data.
---
 lingam/multi_group_rcd.py | 2 +-
 lingam/rcd.py             | 2 +-
 lingam/utils/_rcd.py      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lingam/multi_group_rcd.py b/lingam/multi_group_rcd.py
index 5662f1b..ca6cef8 100644
--- a/lingam/multi_group_rcd.py
+++ b/lingam/multi_group_rcd.py
@@ -346,7 +346,7 @@ class MultiGroupRCD:
         if len(H_U) == 0:
             return X
 
-        Y = np.zeros_like(X)
+        Y = np.zeros(X.shape)
         for xj in U:
             Y[:, xj], _ = self._get_resid_and_coef(X, xj, list(H_U))
         return Y
diff --git a/lingam/rcd.py b/lingam/rcd.py
index c772d38..94fce9e 100644
--- a/lingam/rcd.py
+++ b/lingam/rcd.py
@@ -146,7 +146,7 @@ class RCD:
         if len(H_U) == 0:
             return X
 
-        Y = np.zeros_like(X)
+        Y = np.zeros(X.shape)
         for xj in U:
             Y[:, xj], _ = self._get_resid_and_coef(X, xj, list(H_U))
         return Y
diff --git a/lingam/utils/_rcd.py b/lingam/utils/_rcd.py
index 0f221a7..6bee84d 100644
--- a/lingam/utils/_rcd.py
+++ b/lingam/utils/_rcd.py
@@ -127,7 +127,7 @@ def get_residual_matrix(X, U, H_U):
     if len(H_U) == 0:
         return X
 
-    Y = np.zeros_like(X)
+    Y = np.zeros(X.shape)
     for xj in U:
         Y[:, xj], _ = get_resid_and_coef(X, xj, list(H_U))
     return Y
-- 
2.43.0


From 67238e3c9b7a22833ded0c671bb646983a4e11b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:38 +0000
Subject: [PATCH 23/46] fix: do not truncate residuals of integer data in CAMUV

---
 lingam/camuv.py             | 2 +-
 lingam/multi_group_camuv.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lingam/camuv.py b/lingam/camuv.py
index 89a683f..9aac2ef 100644
--- a/lingam/camuv.py
+++ b/lingam/camuv.py
@@ -172,7 +172,7 @@ class CAMUV:
         d = X.shape[1]
         P = [set() for i in range(d)]  # Parents
         t = 2
-        Y = copy.deepcopy(X)
+        Y = X.astype(float)
 
         while True:
             changed = False
diff --git a/lingam/multi_group_camuv.py b/lingam/multi_group_camuv.py
index 5ae2d23..aa631d5 100644
--- a/lingam/multi_group_camuv.py
+++ b/lingam/multi_group_camuv.py
@@ -215,7 +215,7 @@ class MultiGroupCAMUV:
         d = X_list[0].shape[1]
         P = [set() for i in range(d)]  # Parents
         t = 2
-        Y_list = [copy.deepcopy(X) for X in X_list]
+        Y_list = [X.astype(float) for X in X_list]
 
         while True:
             changed = False
-- 
2.43.0


From d03ac61d40de79c61fc153c4255abaad72bbc4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:38 +0000
Subject: [PATCH 24/46] fix: let CAMUV judge several explanatory variables by
 F-correlation

---
 lingam/camuv.py             | 2 +-
 lingam/multi_group_camuv.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lingam/camuv.py b/lingam/camuv.py
index 9aac2ef..e92a3ac 100644
--- a/lingam/camuv.py
+++ b/lingam/camuv.py
@@ -150,7 +150,7 @@ class CAMUV:
             _, value = hsic_test_gamma(X, Y)
             is_independent = value > threshold
         elif self._independence == "fcorr":
-            value = f_correlation(X, Y)
+            value = max(f_correlation(X, y) for y in Y.T)
             is_independent = value < threshold
         return is_independent, value
 
diff --git a/lingam/multi_group_camuv.py b/lingam/multi_group_camuv.py
index aa631d5..49f2d23 100644
--- a/lingam/multi_group_camuv.py
+++ b/lingam/multi_group_camuv.py
@@ -186,7 +186,7 @@ class MultiGroupCAMUV:
         elif self._independence == "fcorr":
             max_f_corr = 0.0
             for X, Y in zip(X_list, Y_list):
-                f_corr = f_correlation(X, Y)
+                f_corr = max(f_correlation(X, y) for y in Y.T)
                 if f_corr > max_f_corr:
                     max_f_corr = f_corr
             is_independent = max_f_corr < threshold
-- 
2.43.0


From 0bc8744f8b35e29cef6d1b53676c9526635ad08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:02 +0000
Subject: [PATCH 25/46] fix: let coefficients given for a discrete variable
 predict numeric classes in CausalBasedSimulator

---
 lingam/causal_based_simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/causal_based_simulator.py b/lingam/causal_based_simulator.py
index cde9694..e7fa9ab 100644
--- a/lingam/causal_based_simulator.py
+++ b/lingam/causal_based_simulator.py
@@ -784,7 +784,7 @@ class _LogisticRegression():
     def predict(self, X):
         if len(self._coef) == 0:
             return np.zeros((len(X), 1))
-        return expit((self._coef @ X.T).T) >= 0.5
+        return (expit((self._coef @ X.T).T) >= 0.5).astype(int)
 
     @property
     def coef_(self):
-- 
2.43.0


From 6d899a75d47eb7b529f468ebf9dfd4990dd9f1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:56 +0000
Subject: [PATCH 26/46] fix: apply interventions on adjustment variables in
 CausalDataGenerator

---
 lingam/experimental/cdg.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lingam/experimental/cdg.py b/lingam/experimental/cdg.py
index 7b35721..6d6b1ec 100644
--- a/lingam/experimental/cdg.py
+++ b/lingam/experimental/cdg.py
@@ -195,6 +195,9 @@ class CausalDataGenerator:
         # update interventions
         for name, interv_exog_ in interv_exog.items():
             generated[name] = interv_exog_
+        for name in self._adjustments:
+            if name in interv_endog.keys():
+                generated[name] = interv_endog[name]
 
         # cause
         if self._cause in interv_endog.keys():
-- 
2.43.0


From eb952c75e9a4104369c0587b92cd112871cf3d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:42 +0000
Subject: [PATCH 27/46] fix: accept array-like data in
 RESIT.get_error_independence_p_values

---
 lingam/resit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/resit.py b/lingam/resit.py
index f84be41..bbfd8e5 100644
--- a/lingam/resit.py
+++ b/lingam/resit.py
@@ -171,6 +171,6 @@ class RESIT(_BaseLiNGAM):
         independence_p_values : array-like, shape (n_features, n_features)
             **RESIT always returns zero**
         """
-        n_features = X.shape[1]
+        n_features = check_array(X).shape[1]
         p_values = np.zeros([n_features, n_features])
         return p_values
-- 
2.43.0


From 06ddae39ba89d3e107cc62600dc955b87b80cdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:43 +0000
Subject: [PATCH 28/46] fix: let VARMALiNGAM estimate coefficients from integer
 data

---
 lingam/varma_lingam.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index 55ed366..b86487e 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -359,6 +359,7 @@ class VARMALiNGAM:
         return p_values
 
     def _estimate_varma_coefs(self, X):
+        X = X.astype(np.float64, copy=False)  # VARMAX rejects integer data
         if self._criterion not in ["aic", "bic", "hqic"]:
             result = VARMAX(X, order=self._order, trend="c").fit(maxiter=self._max_iter)
         else:
-- 
2.43.0


From f3036d3d9114394ba40520b969e5059af2d9838a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:21 +0000
Subject: [PATCH 29/46] fix: accept array-like errors in
 VARMALiNGAM.estimate_total_effect

---
 lingam/varma_lingam.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index b86487e..0226a8f 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -246,6 +246,7 @@ class VARMALiNGAM:
             Estimated total effect.
         """
         X = check_array(X)
+        E = check_array(E)
         n_features = X.shape[1]
 
         # Check from/to causal order
-- 
2.43.0


From 135b36b907b4a41c354024a1efc76aabb32c0486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:16 +0000
Subject: [PATCH 30/46] fix: accept array-like data in LiM.fit

---
 lingam/lim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lingam/lim.py b/lingam/lim.py
index 2602a3a..3a4d081 100644
--- a/lingam/lim.py
+++ b/lingam/lim.py
@@ -13,6 +13,7 @@ from scipy.special import expit as sigmoid
 from sklearn.linear_model import (LinearRegression, LogisticRegression,
                                   PoissonRegressor)
 from sklearn.metrics import log_loss
+from sklearn.utils import check_array
 
 import lingam.utils as ut
 
@@ -86,6 +87,9 @@ class LiM:
             Returns the instance of self.
         """
 
+        X = check_array(X)
+        dis_con = check_array(dis_con)
+
         loss_type = self._loss_type
         try:
             W_min_lss = self._estimate_LiM(X, dis_con, only_global, is_poisson)
-- 
2.43.0


From e97fdf32c41392fd287d3c52f2002a6b8e1de264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:25 +0000
Subject: [PATCH 31/46] fix: let make_dot label nodes from arrays and name
 every column of non-square matrices

---
 lingam/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index 9c55488..56337ee 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -340,7 +340,7 @@ def make_dot(
     d = graphviz.Digraph(engine="dot")
 
     # nodes
-    names = labels if labels else [f"x{i}" for i in range(len(B))]
+    names = labels if labels is not None else [f"x{i}" for i in range(B.shape[1])]
     for name in names:
         kwargs = {}
         if path is not None:
-- 
2.43.0


From 6e92ce1caacc37eef9478d9ad215eba23acb3a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:25 +0000
Subject: [PATCH 32/46] fix: do not draw an isolated target node a second time
 in make_dot_highlight

---
 lingam/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index 56337ee..210a969 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -555,7 +555,7 @@ def make_dot_highlight(
     # node indices
     dsc_indices = set(dsc_path_length.keys())
     anc_indices = set(anc_path_length.keys())
-    isolate_indices = set(nx.isolates(G))
+    isolate_indices = set(nx.isolates(G)) - set([node_index])
     other_indices = (
         set(np.arange(adj.shape[0]))
         - dsc_indices
-- 
2.43.0


From aeacf1ff1723a4355590b0516705c1ba3c046260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:25 +0000
Subject: [PATCH 33/46] fix: highlight the nodes on the path in
 make_dot_highlight

---
 lingam/utils/__init__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index 210a969..050891e 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -591,8 +591,7 @@ def make_dot_highlight(
         for path_ in nx.all_simple_paths(G, path_start, path_end):
             path_edges |= set(zip(path_, path_[1:]))
 
-        path_nodes = np.unique([list(edge) for edge in path_edges])
-        path_nodes = [node_names[node] for node in path_nodes]
+        path_nodes = set([node for edge in path_edges for node in edge])
 
     # create graphviz graph
     graph_attr = {"rankdir": "TB", "splines": "true"}
@@ -666,7 +665,7 @@ def make_dot_highlight(
             for i, node in enumerate(nodes):
                 node_id = get_node_id(cls_name, node)
                 pos_x = hmargin * i + offset_x
-                kwargs = {}
+                kwargs = {"color": color}
                 if path is not None:
                     if node in path_nodes:
                         kwargs["fontcolor"] = path_color
@@ -677,7 +676,6 @@ def make_dot_highlight(
                     node_id,
                     node_names[node],
                     pos=f"{pos_x},{pos_y}!",
-                    color=color,
                     **kwargs,
                 )
                 node_ids[node].append((node_id, dist))
-- 
2.43.0


From 2a3f3d1ffcaaae6ef787206a714b1ba846f9c973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:48 +0000
Subject: [PATCH 34/46] fix: accept labels given as array or index in
 print_causal_directions and print_dagc

---
 lingam/utils/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index 050891e..7152d00 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -62,7 +62,7 @@ def print_causal_directions(cdc, n_sampling, labels=None):
     """
     for i, (fr, to, co) in enumerate(zip(cdc["from"], cdc["to"], cdc["count"])):
         sign = "" if "sign" not in cdc else "(b>0)" if cdc["sign"][i] > 0 else "(b<0)"
-        if labels:
+        if labels is not None:
             print(f"{labels[to]} <--- {labels[fr]} {sign} ({100*co/n_sampling:.1f}%)")
         else:
             print(f"x{to} <--- x{fr} {sign} ({100*co/n_sampling:.1f}%)")
@@ -88,7 +88,7 @@ def print_dagc(dagc, n_sampling, labels=None):
             sign = (
                 "" if "sign" not in dag else "(b>0)" if dag["sign"][j] > 0 else "(b<0)"
             )
-            if labels:
+            if labels is not None:
                 print("\t" + f"{labels[to]} <--- {labels[fr]} {sign}")
             else:
                 print("\t" + f"x{to} <--- x{fr} {sign}")
-- 
2.43.0


From 4523129aa83f59021f29ec3bd03aa44d2b939c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:48 +0000
Subject: [PATCH 35/46] fix: accept array-like data in extract_ancestors

---
 lingam/utils/_rcd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lingam/utils/_rcd.py b/lingam/utils/_rcd.py
index 6bee84d..fbf8cac 100644
--- a/lingam/utils/_rcd.py
+++ b/lingam/utils/_rcd.py
@@ -50,13 +50,13 @@ def extract_ancestors(
         * ``scott`` : Scott's Rule of Thumb.
         * ``silverman`` : Silverman's Rule of Thumb.
     """
+    X = check_array(X)
+
     n_features = X.shape[1]
     M = [set() for i in range(n_features)]
     l = 1
     hu_history = {}
 
-    X = check_array(X)
-
     while True:
         changed = False
         U_list = itertools.combinations(range(n_features), l + 1)
-- 
2.43.0


From ef606f88c3e3c1ebadbb331f4f9a62aabf702272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:48 +0000
Subject: [PATCH 36/46] fix: accept array-like data in predict_adaptive_lasso

---
 lingam/utils/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index 7152d00..bac29c6 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -763,6 +763,8 @@ def predict_adaptive_lasso(X, predictors, target, gamma=1.0):
     coef : array-like, shape (n_features)
         Coefficients of predictor variable.
     """
+    X = check_array(X)
+
     # Standardize X
     scaler = StandardScaler()
     X_std = scaler.fit_transform(X)
-- 
2.43.0


From 1ca0bd56cbcb23696174657c27a81e4a1adf9ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:19 +0000
Subject: [PATCH 37/46] fix: raise the intended error for configurations
 without model in OutOfSampleCausalTuning

---
 lingam/experimental/oct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/experimental/oct.py b/lingam/experimental/oct.py
index c26621e..b61ac0d 100644
--- a/lingam/experimental/oct.py
+++ b/lingam/experimental/oct.py
@@ -208,7 +208,7 @@ class OutOfSampleCausalTuning():
                 config_[key] = value
 
             # check
-            if config_["all_others"] is False and "model" not in config_.keys():
+            if config_["all_others"] is False and config_["model"] is None:
                 raise ValueError(f"model is not specified (config[{config_idx}])")
             elif config_["all_others"] is True:
                 config_["model"] = None
-- 
2.43.0


From 111990acdfb99812ada18efd546e10c2e35b943e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:25 +0000
Subject: [PATCH 38/46] fix: consider all conditioning sets in
 HighDimDirectLiNGAM, not only the first

---
 lingam/high_dim_direct_lingam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/high_dim_direct_lingam.py b/lingam/high_dim_direct_lingam.py
index 2251888..1adbffa 100644
--- a/lingam/high_dim_direct_lingam.py
+++ b/lingam/high_dim_direct_lingam.py
@@ -141,7 +141,7 @@ class HighDimDirectLiNGAM(DirectLiNGAM):
                     - resid_k * (1.0 / n) * np.dot(resid.T, self._Y[:, an_sets[z, i]])
                 ret[an_sets[z, i]] = np.min([ret[an_sets[z, i]], abs(value)])
 
-            return ret
+        return ret
 
     def _get_prune_stats(self, i, j, K, last_root, condition_set, J):
         j = list(set(j) - {i})
-- 
2.43.0


From 48d8e35c9295662a5b81f1b898c8dda905ebe29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:25 +0000
Subject: [PATCH 39/46] fix: take rows by position in
 visualize_nonlinear_causal_effect, whatever the index

---
 lingam/utils/_visualize_nonlinear_causal_effect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lingam/utils/_visualize_nonlinear_causal_effect.py b/lingam/utils/_visualize_nonlinear_causal_effect.py
index 3fb1266..3e5e052 100644
--- a/lingam/utils/_visualize_nonlinear_causal_effect.py
+++ b/lingam/utils/_visualize_nonlinear_causal_effect.py
@@ -117,11 +117,11 @@ def visualize_nonlinear_causal_effect(
         adj_matrices = cd_result.adjacency_matrices_
         index_list = cd_result.resampled_indices_
         if index_list is None:
-            index_list = [X.index]
+            index_list = [np.arange(len(X))]
         disable_percentile = False
     else:
         adj_matrices = [cd_result]
-        index_list = [X.index]
+        index_list = [np.arange(len(X))]
         disable_percentile = True
 
     effect_info = _calculate(
-- 
2.43.0


From 0f13dd0ea3f0b56d1909a7df608884177e8de786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:25 +0000
Subject: [PATCH 40/46] fix: use every replicate of bootstrap results without
 row indices in visualize_nonlinear_causal_effect

---
 lingam/utils/_visualize_nonlinear_causal_effect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/utils/_visualize_nonlinear_causal_effect.py b/lingam/utils/_visualize_nonlinear_causal_effect.py
index 3e5e052..6aa076a 100644
--- a/lingam/utils/_visualize_nonlinear_causal_effect.py
+++ b/lingam/utils/_visualize_nonlinear_causal_effect.py
@@ -117,7 +117,7 @@ def visualize_nonlinear_causal_effect(
         adj_matrices = cd_result.adjacency_matrices_
         index_list = cd_result.resampled_indices_
         if index_list is None:
-            index_list = [np.arange(len(X))]
+            index_list = [np.arange(len(X))] * len(adj_matrices)
         disable_percentile = False
     else:
         adj_matrices = [cd_result]
-- 
2.43.0


From 22567bb87b9f2c58c84a8d4a49023abf0129ec67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:25 +0000
Subject: [PATCH 41/46] fix: accept array-like adjacency matrices in
 visualize_nonlinear_causal_effect

---
 lingam/utils/_visualize_nonlinear_causal_effect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lingam/utils/_visualize_nonlinear_causal_effect.py b/lingam/utils/_visualize_nonlinear_causal_effect.py
index 6aa076a..f56c8c5 100644
--- a/lingam/utils/_visualize_nonlinear_causal_effect.py
+++ b/lingam/utils/_visualize_nonlinear_causal_effect.py
@@ -120,7 +120,7 @@ def visualize_nonlinear_causal_effect(
             index_list = [np.arange(len(X))] * len(adj_matrices)
         disable_percentile = False
     else:
-        adj_matrices = [cd_result]
+        adj_matrices = [check_array(cd_result)]
         index_list = [np.arange(len(X))]
         disable_percentile = True
 
@@ -159,7 +159,7 @@ def _is_bootstrap_result(cd_result):
 
 
 def _is_adjacency_matrix(cd_result, col_num):
-    check_array(cd_result)
+    cd_result = check_array(cd_result)
 
     if cd_result.shape[0] != col_num or cd_result.shape[1] != col_num:
         return False
-- 
2.43.0


From 65e9cd22035526ac3bde4477fdf9329d4670aeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:42 +0000
Subject: [PATCH 42/46] fix: do not regress on values from the end of the
 series in estimate_total_effect of VARLiNGAM and VARMALiNGAM

---
 lingam/var_lingam.py   | 3 +++
 lingam/varma_lingam.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lingam/var_lingam.py b/lingam/var_lingam.py
index 4d95ab7..599dc10 100644
--- a/lingam/var_lingam.py
+++ b/lingam/var_lingam.py
@@ -234,6 +234,9 @@ class VARLiNGAM:
             pos = n_features * p
             X_joined[:, pos : pos + n_features] = np.roll(X[:, 0:n_features], p, axis=0)
 
+        # the first samples have no complete history
+        X_joined = X_joined[self._lags + from_lag :]
+
         # from_index + parents indices
         am = np.concatenate([*self._adjacency_matrices], axis=1)
         parents = np.where(np.abs(am[from_index]) > 0)[0]
diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index 0226a8f..5783fb8 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -275,6 +275,9 @@ class VARMALiNGAM:
                 E[:, 0:n_features], q + 1, axis=0
             )
 
+        # the first samples have no complete history
+        X_joined = X_joined[max(n_lagged_x - 1, n_lagged_e) :]
+
         # concat psi and omega
         psi = self._adjacency_matrices[0]
         omega = self._adjacency_matrices[1]
-- 
2.43.0


From cbf4775c3f888b06c94e9db8476a65a404aec9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:42 +0000
Subject: [PATCH 43/46] fix: do not prune VARMALiNGAM with values from the end
 of the series

---
 lingam/varma_lingam.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index 5783fb8..a976758 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -457,6 +457,9 @@ class VARMALiNGAM:
                 ee[:, 0:n_features], q + 1, axis=0
             )
 
+        # the first samples have no complete history
+        X_joined = X_joined[max(order) :]
+
         # pruned by adaptive lasso
         psi_omega = np.zeros((n_features, n_features * (1 + order[0] + order[1])))
         for i, target in enumerate(causal_order):
-- 
2.43.0


From 36c8565df25d5f45cfe48b6068511c3fffb8ecb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:27 +0000
Subject: [PATCH 44/46] fix: LongitudinalLiNGAM.estimate_total_effect2 failed
 for effects backward in time

---
 lingam/longitudinal_lingam.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lingam/longitudinal_lingam.py b/lingam/longitudinal_lingam.py
index 5f0d5d2..011132c 100644
--- a/lingam/longitudinal_lingam.py
+++ b/lingam/longitudinal_lingam.py
@@ -350,6 +350,8 @@ class LongitudinalLiNGAM:
                 f"the causal order of the destination variable (to_t={to_t}) "
                 f"is earlier than the source variable (from_t={from_t})."
             )
+            # there is no path backward in time
+            return 0.0
 
         n_timepoints = to_t - from_t + 1
         n_features = self._adjacency_matrices.shape[2]
-- 
2.43.0


From f82123f66e124ff1651a053aefbd48098b3edba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:27 +0000
Subject: [PATCH 45/46] fix: make_dot and make_dot_highlight accepted the index
 after the last node in path

---
 lingam/utils/__init__.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index bac29c6..1bdd9f1 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -301,9 +301,11 @@ def make_dot(
         if path_color is None:
             path_color = "black"
         path_start = check_scalar(
-            path[0], "path_start", int, min_val=0, max_val=B.shape[0]
+            path[0], "path_start", int, min_val=0, max_val=B.shape[0] - 1
+        )
+        path_end = check_scalar(
+            path[1], "path_end", int, min_val=0, max_val=B.shape[0] - 1
         )
-        path_end = check_scalar(path[1], "path_end", int, min_val=0, max_val=B.shape[0])
 
     if detect_cycle is not None:
         if not isinstance(detect_cycle, bool):
@@ -528,9 +530,11 @@ def make_dot_highlight(
         if path_color is None:
             path_color = "black"
         path_start = check_scalar(
-            path[0], "start", int, min_val=0, max_val=adj.shape[0]
+            path[0], "start", int, min_val=0, max_val=adj.shape[0] - 1
+        )
+        path_end = check_scalar(
+            path[1], "end", int, min_val=0, max_val=adj.shape[0] - 1
         )
-        path_end = check_scalar(path[1], "end", int, min_val=0, max_val=adj.shape[0])
 
     vmargin = check_scalar(vmargin, "vmargin", (float, int), min_val=1)
     hmargin = check_scalar(hmargin, "hmargin", (float, int), min_val=1)
-- 
2.43.0


From c4bf07aa8ed94781c8424a18f80a74253382342b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:39 +0000
Subject: [PATCH 46/46] fix: estimate_optimal_intervention refuses models
 lacking either coef_ or intercept_

---
 lingam/causal_effect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/causal_effect.py b/lingam/causal_effect.py
index 0c9c710..6828c76 100644
--- a/lingam/causal_effect.py
+++ b/lingam/causal_effect.py
@@ -212,7 +212,7 @@ class CausalEffect(object):
         self._check_init_params()
 
         # Allow linear regression model.
-        if not hasattr(pred_model, "coef_") and not hasattr(pred_model, "intercept_"):
+        if not hasattr(pred_model, "coef_") or not hasattr(pred_model, "intercept_"):
             raise ValueError(
                 "'pred_model' does not have regression coefficient attributes."
             )
-- 
2.43.0

