From 0e467cf0cc1a7d63335a92badb90e437aa350c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 01/61] fix: cdist_frechet honours its global constraint

---
 tslearn/metrics/_frechet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/_frechet.py b/tslearn/metrics/_frechet.py
index 5ccc2bf..53f8d41 100644
--- a/tslearn/metrics/_frechet.py
+++ b/tslearn/metrics/_frechet.py
@@ -798,7 +798,7 @@ def _cdist_frechet(
         verbose=verbose,
         be=be,
         compute_diagonal=False,
-        global_constraint=global_constraint,
+        global_constraint=GLOBAL_CONSTRAINT_CODE[global_constraint],
         sakoe_chiba_radius=sakoe_chiba_radius,
         itakura_max_slope=itakura_max_slope,
     )
-- 
2.43.0


From 9637d8c56ff2e1e1b2a80da69b6e2b75f43272e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:06 +0000
Subject: [PATCH 02/61] fix: LCSS treats cells outside the global constraint as
 non-matching

The backtracking either ignored the constraint or looped forever on such a
cell, and the accumulated scores dropped to 0 there.
---
 tslearn/metrics/dtw_variants.py | 36 +++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/tslearn/metrics/dtw_variants.py b/tslearn/metrics/dtw_variants.py
index b2e363c..5ad0a5c 100644
--- a/tslearn/metrics/dtw_variants.py
+++ b/tslearn/metrics/dtw_variants.py
@@ -978,6 +978,10 @@ def njit_lcss_accumulated_matrix(s1, s2, eps, mask):
                     acc_cost_mat[i][j] = max(
                         acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
                     )
+            else:
+                acc_cost_mat[i][j] = max(
+                    acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
+                )
 
     return acc_cost_mat
 
@@ -1029,6 +1033,10 @@ def lcss_accumulated_matrix(s1, s2, eps, mask, be=None):
                     acc_cost_mat[i][j] = max(
                         acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
                     )
+            else:
+                acc_cost_mat[i][j] = max(
+                    acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
+                )
 
     return acc_cost_mat
 
@@ -1245,7 +1253,7 @@ def _njit_return_lcss_path(s1, s2, eps, mask, acc_cost_mat, sz1, sz2):
     path = []
 
     while i > 0 and j > 0:
-        if numpy.isfinite(mask[i - 1, j - 1]):
+        if mask[i - 1, j - 1]:
             if numpy.sqrt(_njit_local_squared_dist(s1[i - 1], s2[j - 1])) <= eps:
                 path.append((i - 1, j - 1))
                 i, j = (i - 1, j - 1)
@@ -1253,6 +1261,10 @@ def _njit_return_lcss_path(s1, s2, eps, mask, acc_cost_mat, sz1, sz2):
                 i = i - 1
             else:
                 j = j - 1
+        elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
+            i = i - 1
+        else:
+            j = j - 1
     return path[::-1]
 
 
@@ -1309,6 +1321,10 @@ def _return_lcss_path(s1, s2, eps, mask, acc_cost_mat, sz1, sz2, be=None):
                 i = i - 1
             else:
                 j = j - 1
+        elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
+            i = i - 1
+        else:
+            j = j - 1
     return path[::-1]
 
 
@@ -1345,7 +1361,7 @@ def _njit_return_lcss_path_from_dist_matrix(
     path = []
 
     while i > 0 and j > 0:
-        if numpy.isfinite(mask[i - 1, j - 1]):
+        if mask[i - 1, j - 1]:
             if dist_matrix[i - 1, j - 1] <= eps:
                 path.append((i - 1, j - 1))
                 i, j = (i - 1, j - 1)
@@ -1353,6 +1369,10 @@ def _njit_return_lcss_path_from_dist_matrix(
                 i = i - 1
             else:
                 j = j - 1
+        elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
+            i = i - 1
+        else:
+            j = j - 1
     return path[::-1]
 
 
@@ -1406,6 +1426,10 @@ def _return_lcss_path_from_dist_matrix(
                 i = i - 1
             else:
                 j = j - 1
+        elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
+            i = i - 1
+        else:
+            j = j - 1
     return path[::-1]
 
 
@@ -1573,6 +1597,10 @@ def njit_lcss_accumulated_matrix_from_dist_matrix(dist_matrix, eps, mask):
                     acc_cost_mat[i][j] = max(
                         acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
                     )
+            else:
+                acc_cost_mat[i][j] = max(
+                    acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
+                )
 
     return acc_cost_mat
 
@@ -1616,6 +1644,10 @@ def lcss_accumulated_matrix_from_dist_matrix(dist_matrix, eps, mask, be=None):
                     acc_cost_mat[i][j] = max(
                         acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
                     )
+            else:
+                acc_cost_mat[i][j] = max(
+                    acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
+                )
 
     return acc_cost_mat
 
-- 
2.43.0


From b641f8d86b4bacc0073e94fde6f5faf979796ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:26 +0000
Subject: [PATCH 03/61] fix: cdist_soft_dtw_normalized in parallel with
 different dataset lengths

---
 tslearn/metrics/_soft_dtw.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tslearn/metrics/_soft_dtw.py b/tslearn/metrics/_soft_dtw.py
index 7e42cb2..1df46f7 100644
--- a/tslearn/metrics/_soft_dtw.py
+++ b/tslearn/metrics/_soft_dtw.py
@@ -1183,7 +1183,8 @@ def _cdist_soft_dtw_normalized(
 
             self_dists = Parallel(n_jobs=n_jobs, prefer="threads", verbose=verbose)(
                 delayed(soft_dtw_variable_lenght)(ts)
-                for ts in be.vstack((dataset1, dataset2))
+                for dataset in (dataset1, dataset2)
+                for ts in dataset
             )
             self_dists_dataset1 = be.array(self_dists[:len(dataset1)]).reshape(-1, 1)
             self_dists_dataset2 = be.array(self_dists[len(dataset1):]).reshape(-1, 1)
-- 
2.43.0


From f351e4e1c7f6efc0b799acd3ba98cd0a60a8333c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:17 +0000
Subject: [PATCH 04/61] fix: from_tsfresh_dataset keeps the order of the series

---
 tslearn/utils/cast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/utils/cast.py b/tslearn/utils/cast.py
index 5d13b3b..14d6d79 100644
--- a/tslearn/utils/cast.py
+++ b/tslearn/utils/cast.py
@@ -632,7 +632,7 @@ def from_tsfresh_dataset(X):
                        for col_name in X.columns
                        if col_name not in ["id", "time"]]
     d = len(data_dimensions)
-    all_ids = set(X["id"])
+    all_ids = X["id"].unique()
     n = len(all_ids)
 
     max_sz = -1
-- 
2.43.0


From a9f65bb734f6c22c45a06320c8ed67ce4554c76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:17 +0000
Subject: [PATCH 05/61] fix: to_pyflux_dataset accepts every single-series form
 its check accepts

---
 tslearn/utils/cast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/utils/cast.py b/tslearn/utils/cast.py
index 14d6d79..3edd9a9 100644
--- a/tslearn/utils/cast.py
+++ b/tslearn/utils/cast.py
@@ -452,7 +452,7 @@ def to_pyflux_dataset(X):
     X_ = check_dataset(X,
                        force_equal_length=True,
                        force_single_time_series=True)
-    X_pd = pd.DataFrame(X[0], dtype=float)
+    X_pd = pd.DataFrame(X_[0], dtype=float)
     X_pd.columns = ["dim_%d" % di for di in range(X_.shape[2])]
     return X_pd
 
-- 
2.43.0


From ec8be64d38698c0f05119162c90f196a5b9d21fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:22 +0000
Subject: [PATCH 06/61] fix: torch time series never share memory with their
 source

---
 tslearn/backend/pytorch_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tslearn/backend/pytorch_backend.py b/tslearn/backend/pytorch_backend.py
index aaded82..59a6a29 100755
--- a/tslearn/backend/pytorch_backend.py
+++ b/tslearn/backend/pytorch_backend.py
@@ -107,10 +107,10 @@ else:
             if _torch.is_tensor(val):
                 if dtype is None or val.dtype == dtype:
                     return val.clone()
-                return self.cast(val, dtype=dtype)
+                return val.to(dtype=dtype, copy=True)
 
             elif isinstance(val, _np.ndarray):
-                tensor = self.from_numpy(val)
+                tensor = self.from_numpy(val.copy())
                 if dtype is not None and tensor.dtype != dtype:
                     tensor = self.cast(tensor, dtype=dtype)
 
-- 
2.43.0


From cc0a399e41dd20fff4a07ffe6a4df0a3d791dd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:40 +0000
Subject: [PATCH 07/61] fix: the torch median of an even number of values
 averages the middle two

---
 tslearn/backend/pytorch_backend.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tslearn/backend/pytorch_backend.py b/tslearn/backend/pytorch_backend.py
index 59a6a29..ac45b47 100755
--- a/tslearn/backend/pytorch_backend.py
+++ b/tslearn/backend/pytorch_backend.py
@@ -75,7 +75,6 @@ else:
             self.log = _torch.log
             self.max = _torch.max
             self.mean = _torch.mean
-            self.median = _torch.median
             self.min = _torch.min
             self.nan = _torch.nan
             self.pairwise_euclidean_distances = _torch.cdist
@@ -169,6 +168,13 @@ else:
         def is_float64(x):
             return isinstance(x, _torch.float64)
 
+        @staticmethod
+        def median(x):
+            # torch.median returns the lower of the two middle values
+            x_sorted = _torch.sort(_torch.flatten(x)).values
+            n = len(x_sorted)
+            return x_sorted[(n - 1) // 2:n // 2 + 1].mean()
+
         @staticmethod
         def ndim(x):
             return x.dim()
-- 
2.43.0


From fda21c66814403720895c67268c718a648bbd7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:31 +0000
Subject: [PATCH 08/61] fix: mean-variance scaling maps a constant series to mu
 whatever its value

---
 tslearn/preprocessing/preprocessing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tslearn/preprocessing/preprocessing.py b/tslearn/preprocessing/preprocessing.py
index 647da0b..9a48f05 100644
--- a/tslearn/preprocessing/preprocessing.py
+++ b/tslearn/preprocessing/preprocessing.py
@@ -361,7 +361,10 @@ class TimeSeriesScalerMeanVariance(TimeSeriesMixin, TransformerMixin, BaseEstima
 
         mean_ = numpy.nanmean(X, axis=axis, keepdims=True)
         std_ = numpy.nanstd(X, axis=axis, keepdims=True)
-        std_[std_ == 0.] = 1.
+        # The computed std of a constant series is not always exactly 0
+        constant = (numpy.nanmin(X, axis=axis, keepdims=True)
+                    == numpy.nanmax(X, axis=axis, keepdims=True))
+        std_[(std_ == 0.) | constant] = 1.
 
         return mean_, std_
 
-- 
2.43.0


From dce58bb44e6d755d6ccf8681da5e6aae15750cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:31 +0000
Subject: [PATCH 09/61] fix: linear imputation leaves a feature without any
 observed value as it is

---
 tslearn/preprocessing/preprocessing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tslearn/preprocessing/preprocessing.py b/tslearn/preprocessing/preprocessing.py
index 9a48f05..eba23b3 100644
--- a/tslearn/preprocessing/preprocessing.py
+++ b/tslearn/preprocessing/preprocessing.py
@@ -535,6 +535,8 @@ class TimeSeriesImputer(TimeSeriesMixin, TransformerMixin, BaseEstimator):
         for di in range(ts.shape[-1]):
             ts_di = ts[:, di]
             mask = numpy.isnan(ts_di)
+            if mask.all():
+                continue
             ts_di[mask] = numpy.interp(
                 numpy.nonzero(mask)[0],
                 numpy.nonzero(~mask)[0],
-- 
2.43.0


From 49b2e49bf78b1955e918d6fee674fb08402260ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 10/61] fix: 1d-SAX with scale=True scales the averages only
 once

---
 tslearn/piecewise/piecewise.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tslearn/piecewise/piecewise.py b/tslearn/piecewise/piecewise.py
index 32faea6..b539e60 100644
--- a/tslearn/piecewise/piecewise.py
+++ b/tslearn/piecewise/piecewise.py
@@ -692,7 +692,10 @@ class OneD_SymbolicAggregateApproximation(SymbolicAggregateApproximation):
         X_1d_sax = numpy.empty((n_ts, self.n_segments, 2 * d), dtype=int)
 
         # Average
-        X_1d_sax_avg = SymbolicAggregateApproximation._transform(self, X)
+        X_1d_sax_avg = _paa_to_symbols(
+            PiecewiseAggregateApproximation._transform(self, X),
+            self.breakpoints_avg_
+        )
 
         # Slope
         X_slopes = self._get_slopes(X)
-- 
2.43.0


From 1f68e8077be151df6ae3d01b4eb015fb02bc2a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 11/61] fix: SAX scaling of a constant feature

---
 tslearn/piecewise/piecewise.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tslearn/piecewise/piecewise.py b/tslearn/piecewise/piecewise.py
index b539e60..dc7abc7 100644
--- a/tslearn/piecewise/piecewise.py
+++ b/tslearn/piecewise/piecewise.py
@@ -361,7 +361,10 @@ class SymbolicAggregateApproximation(PiecewiseAggregateApproximation):
             reshaped_X = X.reshape((-1, d))
             self.mu_ = numpy.nanmean(reshaped_X, axis=0)
             self.std_ = numpy.nanstd(reshaped_X, axis=0)
-            self.std_[self.std_ == 0.] = 1.
+            # The computed std of a constant is not always exactly 0
+            constant = (numpy.nanmin(reshaped_X, axis=0)
+                        == numpy.nanmax(reshaped_X, axis=0))
+            self.std_[(self.std_ == 0.) | constant] = 1.
 
         return super()._fit(X, y)
 
-- 
2.43.0


From b244803c444f9a33f73a15a8fcb972d890ebacf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 12/61] fix: 1d-SAX inverse transform leaves no uninitialised
 timestamp

---
 tslearn/metrics/cysax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/cysax.py b/tslearn/metrics/cysax.py
index 1f703a6..d610781 100644
--- a/tslearn/metrics/cysax.py
+++ b/tslearn/metrics/cysax.py
@@ -209,7 +209,7 @@ def inv_transform_1d_sax(
     n_ts, sz, d_1d_sax = dataset_sax.shape
     d = d_1d_sax // 2
     seg_sz = original_size // sz
-    dataset_out = np.empty((n_ts, original_size, d))
+    dataset_out = np.zeros((n_ts, original_size, d))
 
     for i in prange(n_ts):
         for t in range(sz):
-- 
2.43.0


From dc3dec5c1922bf5a1a3f8f97754fa4c464d60ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 13/61] fix: 1d-SAX distance compares the series the symbols
 stand for

---
 tslearn/metrics/cysax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/cysax.py b/tslearn/metrics/cysax.py
index d610781..859bf2f 100644
--- a/tslearn/metrics/cysax.py
+++ b/tslearn/metrics/cysax.py
@@ -171,7 +171,7 @@ def cydist_1d_sax(
 
     for t in prange(sz):
         t0 = t * seg_sz
-        t_middle = float(t0) + 0.5 * seg_sz
+        t_middle = float(t0) + 0.5 * (seg_sz - 1)
         for di in range(d):
             avg1 = breakpoints_avg_middle_[sax1[t, di]]
             avg2 = breakpoints_avg_middle_[sax2[t, di]]
-- 
2.43.0


From a59c9802d0856edd9ed7607e410995e8dbf78603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:38 +0000
Subject: [PATCH 14/61] fix: DTW barycenter averaging honours global_constraint

---
 tslearn/barycenters/dba.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/tslearn/barycenters/dba.py b/tslearn/barycenters/dba.py
index 9373503..9402e08 100644
--- a/tslearn/barycenters/dba.py
+++ b/tslearn/barycenters/dba.py
@@ -13,6 +13,7 @@ from sklearn.utils import check_random_state
 from tslearn.backend import instantiate_backend
 from tslearn.barycenters.utils import _set_weights
 from tslearn.metrics._dtw import _njit_dtw_path
+from tslearn.metrics._masks import GLOBAL_CONSTRAINT_CODE
 from tslearn.utils import to_time_series_dataset, to_time_series
 from tslearn.utils.utils import _to_time_series
 
@@ -31,6 +32,15 @@ def _init_avg(X, barycenter_size):
         return f(xnew)
 
 
+def _njit_metric_params(metric_params):
+    """DTW parameters as expected by `_njit_dtw_path`."""
+    metric_params = {} if metric_params is None else dict(metric_params)
+    metric_params["global_constraint"] = GLOBAL_CONSTRAINT_CODE[
+        metric_params.get("global_constraint")
+    ]
+    return metric_params
+
+
 def _petitjean_assignment(
     X,
     barycenter,
@@ -41,8 +51,7 @@ def _petitjean_assignment(
     backend = instantiate_backend("numpy")
     use_parallel = n_jobs not in [None, 1]
 
-    if metric_params is None:
-        metric_params = {}
+    metric_params = _njit_metric_params(metric_params)
     n = X.shape[0]
     barycenter_size = barycenter.shape[0]
     assign = ([[] for _ in range(barycenter_size)],
@@ -273,8 +282,7 @@ def _mm_assignment(
     backend = instantiate_backend("numpy")
     use_parallel = n_jobs not in [None, 1]
 
-    if metric_params is None:
-        metric_params = {}
+    metric_params = _njit_metric_params(metric_params)
     n = X.shape[0]
     cost = 0.
     list_p_k = []
-- 
2.43.0


From 269000d8b9d73464ca0c5d5b3254b845a7731038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:51 +0000
Subject: [PATCH 15/61] fix: the subgradient DTW barycenter takes the weights
 into account

---
 tslearn/barycenters/dba.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tslearn/barycenters/dba.py b/tslearn/barycenters/dba.py
index 9402e08..87ed314 100644
--- a/tslearn/barycenters/dba.py
+++ b/tslearn/barycenters/dba.py
@@ -444,7 +444,7 @@ def _mm_update_barycenter(X, diag_sum_v_k, list_w_k):
     return barycenter
 
 
-def _subgradient_update_barycenter(X, list_diag_v_k, list_w_k, weights_sum,
+def _subgradient_update_barycenter(X, list_diag_v_k, list_w_k, weights_norm,
                                    barycenter, eta):
     """Update barycenters using the formula from Algorithm 1 in [1]_.
 
@@ -459,8 +459,8 @@ def _subgradient_update_barycenter(X, list_diag_v_k, list_w_k, weights_sum,
     list_w_k : list of numpy.array of shape (barycenter_size, sz_k)
         list of weighted :math:`W^{(k)}` matrices
 
-    weights_sum : float
-        sum of weights applied to matrices :math:`V^{(k)}` and :math:`W^{(k)}`
+    weights_norm : float
+        Weight of a series for which the step size is ``eta``
 
     barycenter : numpy.array of shape (barycenter_size, d)
         Barycenter as computed at the previous iteration of the algorithm
@@ -488,7 +488,7 @@ def _subgradient_update_barycenter(X, list_diag_v_k, list_w_k, weights_sum,
     for k, (v_k, w_k, x_k) in enumerate(zip(list_diag_v_k, list_w_k, X)):
         delta_bar += v_k.reshape((-1, 1)) * barycenter
         delta_bar -= w_k.dot(_to_time_series(x_k, True, backend))
-    barycenter -= (2. * eta / weights_sum) * delta_bar
+    barycenter -= (2. * eta / weights_norm) * delta_bar
     return barycenter
 
 
@@ -885,7 +885,7 @@ def dtw_barycenter_averaging_subgradient(
             if verbose:
                 print("[DBA] epoch %d, cost: %.3f" % (it + 1, cost))
             barycenter = _subgradient_update_barycenter(Xi, list_diag_v_k,
-                                                        list_w_k, wi.sum(),
+                                                        list_w_k, weights.max(),
                                                         barycenter, eta)
             if it == 0:
                 eta -= (initial_step_size - final_step_size) / n
-- 
2.43.0


From 6aa1884f688a03a511eee73949fd88483766464e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:40 +0000
Subject: [PATCH 16/61] fix: TimeSeriesKMeans labels and inertia are those of
 its final centroids

---
 tslearn/clustering/kmeans.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tslearn/clustering/kmeans.py b/tslearn/clustering/kmeans.py
index e9097e4..7c3f24f 100644
--- a/tslearn/clustering/kmeans.py
+++ b/tslearn/clustering/kmeans.py
@@ -702,6 +702,8 @@ class TimeSeriesKMeans(
             if numpy.abs(old_inertia - self.inertia_) < self.tol:
                 break
             old_inertia = self.inertia_
+        # Labels and inertia of the final centroids
+        self._assign(X)
         if self.verbose:
             print("")
 
-- 
2.43.0


From fe5f2696d025c40069a2ba9fdb88887b8a825dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:40 +0000
Subject: [PATCH 17/61] fix: KShape.predict uses the norms of the series to
 predict, not of the fitted ones

---
 tslearn/clustering/kshape.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tslearn/clustering/kshape.py b/tslearn/clustering/kshape.py
index 1f457a5..22be0c1 100644
--- a/tslearn/clustering/kshape.py
+++ b/tslearn/clustering/kshape.py
@@ -150,9 +150,9 @@ class KShape(TimeSeriesCentroidBasedClusteringMixin,
         self.norms_centroids_ = numpy.linalg.norm(self.cluster_centers_,
                                                   axis=(1, 2))
 
-    def _cross_dists(self, X):
+    def _cross_dists(self, X, norms=None):
         return 1. - cdist_normalized_cc(X, self.cluster_centers_,
-                                        norms1=self.norms_,
+                                        norms1=self.norms_ if norms is None else norms,
                                         norms2=self.norms_centroids_,
                                         self_similarity=False)
 
@@ -296,5 +296,6 @@ class KShape(TimeSeriesCentroidBasedClusteringMixin,
 
         X_ = check_dims(X, X_fit_dims=self.cluster_centers_.shape)
         X_ = TimeSeriesScalerMeanVariance(mu=0., std=1.).fit_transform(X_)
-        dists = self._cross_dists(X_)
+        dists = self._cross_dists(
+            X_, norms=numpy.linalg.norm(X_, axis=(1, 2)))
         return dists.argmin(axis=1)
-- 
2.43.0


From 8a5ce5ab286ace6e3b1aca68bdc302ae730ce766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:53 +0000
Subject: [PATCH 18/61] fix: KernelKMeans does not write into kernel_params nor
 refit with a stale sigma

---
 tslearn/clustering/kmeans.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tslearn/clustering/kmeans.py b/tslearn/clustering/kmeans.py
index 7c3f24f..b86712f 100644
--- a/tslearn/clustering/kmeans.py
+++ b/tslearn/clustering/kmeans.py
@@ -258,7 +258,7 @@ class KernelKMeans(TimeSeriesMixin, ClusterMixin, BaseEstimator, BaseModelPackag
         if self.kernel_params is None:
             kernel_params = {}
         else:
-            kernel_params = self.kernel_params
+            kernel_params = self.kernel_params.copy()
         if self.kernel == "gak":
             if hasattr(self, "sigma_gak_"):
                 kernel_params["sigma"] = self.sigma_gak_
@@ -341,7 +341,7 @@ class KernelKMeans(TimeSeriesMixin, ClusterMixin, BaseEstimator, BaseModelPackag
         rs = check_random_state(self.random_state)
 
         max_attempts = max(self.n_init, 10)
-        kernel_params = self._get_kernel_params()
+        kernel_params = self.kernel_params or {}
         if self.kernel == "gak":
             self.sigma_gak_ = kernel_params.get("sigma", 1.0)
             if self.sigma_gak_ == "auto":
-- 
2.43.0


From 82da986cb1ed7e5c9a899a36b4c0c67e216f6c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:53 +0000
Subject: [PATCH 19/61] fix: KShape chooses the sign of each feature of a
 center from that feature

---
 tslearn/clustering/kshape.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tslearn/clustering/kshape.py b/tslearn/clustering/kshape.py
index 22be0c1..562d1b5 100644
--- a/tslearn/clustering/kshape.py
+++ b/tslearn/clustering/kshape.py
@@ -133,8 +133,9 @@ class KShape(TimeSeriesCentroidBasedClusteringMixin,
             # The way the optimization problem is (ill-)formulated, both mu_k and
             # -mu_k are candidates for barycenters
             # In the following, we check which one is the best candidate
-            dist_plus_mu = numpy.sum(numpy.linalg.norm(Xp - mu_k, axis=(1, 2)))
-            dist_minus_mu = numpy.sum(numpy.linalg.norm(Xp + mu_k, axis=(1, 2)))
+            Xp_i = Xp[:, :, i:i + 1]
+            dist_plus_mu = numpy.sum(numpy.linalg.norm(Xp_i - mu_k, axis=(1, 2)))
+            dist_minus_mu = numpy.sum(numpy.linalg.norm(Xp_i + mu_k, axis=(1, 2)))
             if dist_minus_mu < dist_plus_mu:
                 mu_k *= -1
             mu_k_list.append(mu_k)
-- 
2.43.0


From 28d1ccac4588ba166120753d32708b32dc6cf1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:10 +0000
Subject: [PATCH 20/61] fix: cdist_normalized_cc self-similarity is symmetric

---
 tslearn/metrics/cycc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/cycc.py b/tslearn/metrics/cycc.py
index d2bc8b2..93be722 100644
--- a/tslearn/metrics/cycc.py
+++ b/tslearn/metrics/cycc.py
@@ -85,7 +85,7 @@ def cdist_normalized_cc(dataset1, dataset2, norms1, norms2, self_similarity):
                 dists[i, j] = normalized_cc(
                     dataset1[i], dataset2[j], norm1=norms1[i], norm2=norms2[j]
                 ).max()
-        dists += dists.T
+        dists = dists + dists.T
     else:
         for i in prange(n_ts1):
             for j in range(n_ts2):
-- 
2.43.0


From 2c227338e57c07dfcdc2d41d74fecab68a6f9ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:25 +0000
Subject: [PATCH 21/61] fix: KNN models keep their metric when a query is
 refused and follow a new metric when refitted

---
 tslearn/neighbors/neighbors.py | 96 +++++++++++++++-------------------
 1 file changed, 41 insertions(+), 55 deletions(-)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index 7f50628..e11b432 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -59,25 +59,22 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
         if other_X is None:
             other_X = self._ts_fit
 
-        self._ts_metric = self.metric
-        self.metric = "precomputed"
-
         metric_params = self._get_metric_params()
 
         X = check_array(X, allow_nd=True, force_all_finite=False)
         X = to_time_series_dataset(X)
 
-        if self._ts_metric == "dtw":
+        if self.metric == "dtw":
             X_ = _cdist_dtw(
                 X,
                 other_X,
                 n_jobs=self.n_jobs,
                 **metric_params)
-        elif self._ts_metric == "ctw":
+        elif self.metric == "ctw":
             X_ = _cdist_ctw(X, other_X, **metric_params)
-        elif self._ts_metric == "softdtw":
+        elif self.metric == "softdtw":
             X_ = _cdist_soft_dtw(X, other_X, **metric_params)
-        elif self._ts_metric == "sax":
+        elif self.metric == "sax":
             X = self._sax_preprocess(X, **metric_params)
             X_ = _cdist_sax(
                 X,
@@ -85,7 +82,7 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
                 self._sax._X_fit_dims_[1],
                 other_X,
                 n_jobs=self.n_jobs)
-        elif self._ts_metric == "frechet":
+        elif self.metric == "frechet":
             X_ = _cdist_frechet(
                 X,
                 other_X,
@@ -94,7 +91,7 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
             )
         else:
             raise ValueError("Invalid metric recorded: %s" %
-                             self._ts_metric)
+                             self.metric)
 
         return X_
 
@@ -178,9 +175,6 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
             sample_range, numpy.argsort(full_dist_matrix[sample_range, ind])]
         dist = full_dist_matrix[sample_range, ind]
 
-        if hasattr(self, '_ts_metric'):
-            self.metric = self._ts_metric
-
         if return_distance:
             return dist, ind
         else:
@@ -221,9 +215,8 @@ def _predict_generic(caller, X, predict_func):
         X = check_dims(X, X_fit_dims=caller._ts_fit.shape, extend=True,
                         check_n_features_only=True)
         X_ = caller._precompute_cross_dist(X)
-        pred = predict_func(X_)
-        caller.metric = caller._ts_metric
-        return pred
+        with caller._patch_attribute("metric", "precomputed"):
+            return predict_func(X_)
     else:
         check_is_fitted(caller, '_X_fit')
         X = check_array(X, allow_nd=True)
@@ -327,25 +320,24 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
         X : array-like, shape (n_ts, sz, d)
             Training data.
         """
-        if self.metric in TSLEARN_VALID_METRICS:
-            self._ts_metric = self.metric
-            self.metric = "precomputed"
+        is_ts_metric = self.metric in TSLEARN_VALID_METRICS
+        fit_metric = "precomputed" if is_ts_metric else self.metric
 
         X = check_array(X,
                         allow_nd=True,
-                        force_all_finite=(self.metric != "precomputed"))
+                        force_all_finite=(fit_metric != "precomputed"))
         X = to_time_series_dataset(X)
         X = check_dims(X)
-        if self.metric == "precomputed" and hasattr(self, '_ts_metric'):
+        if is_ts_metric:
             self._ts_fit = X
             self._d = X.shape[2]
             self._X_fit = numpy.zeros((self._ts_fit.shape[0],
                                        self._ts_fit.shape[0]))
         else:
+            self._ts_fit = None
             self._X_fit, self._d = to_sklearn_dataset(X, return_dim=True)
-        super().fit(self._X_fit, y)
-        if hasattr(self, '_ts_metric'):
-            self.metric = self._ts_metric
+        with self._patch_attribute("metric", fit_metric):
+            super().fit(self._X_fit, y)
         return self
 
     def kneighbors(self, X=None, n_neighbors=None, return_distance=True):
@@ -374,15 +366,12 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
             Indices of the nearest points in the population matrix.
         """
         if self.metric in TSLEARN_VALID_METRICS:
-            self._ts_metric = self.metric
-            self.metric = "precomputed"
-
             metric_params = self._get_metric_params()
             check_is_fitted(self, '_ts_fit')
             X = check_array(X, allow_nd=True, force_all_finite=False)
             X = check_dims(X, X_fit_dims=self._ts_fit.shape, extend=True,
                            check_n_features_only=True)
-            if self._ts_metric == "dtw":
+            if self.metric == "dtw":
                 X_ = _cdist_dtw(
                     X,
                     self._ts_fit,
@@ -390,11 +379,11 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
                     verbose=self.verbose,
                     **metric_params
                 )
-            elif self._ts_metric == "ctw":
+            elif self.metric == "ctw":
                 X_ = _cdist_ctw(X, self._ts_fit, **metric_params)
-            elif self._ts_metric == "softdtw":
+            elif self.metric == "softdtw":
                 X_ = _cdist_soft_dtw(X, self._ts_fit, **metric_params)
-            elif self._ts_metric == "frechet":
+            elif self.metric == "frechet":
                 X_ = _cdist_frechet(
                     X,
                     self._ts_fit,
@@ -404,14 +393,13 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
                 )
             else:
                 raise ValueError("Invalid metric recorded: %s" %
-                                 self._ts_metric)
-            pred = KNeighborsTimeSeriesMixin.kneighbors(
-                self,
-                X=X_,
-                n_neighbors=n_neighbors,
-                return_distance=return_distance)
-            self.metric = self._ts_metric
-            return pred
+                                 self.metric)
+            with self._patch_attribute("metric", "precomputed"):
+                return KNeighborsTimeSeriesMixin.kneighbors(
+                    self,
+                    X=X_,
+                    n_neighbors=n_neighbors,
+                    return_distance=return_distance)
         else:
             check_is_fitted(self, '_X_fit')
             if X is None:
@@ -551,18 +539,17 @@ class KNeighborsTimeSeriesClassifier(KNeighborsTimeSeriesMixin,
         KNeighborsTimeSeriesClassifier
             The fitted estimator
         """
-        if self.metric in TSLEARN_VALID_METRICS:
-            self._ts_metric = self.metric
-            self.metric = "precomputed"
+        is_ts_metric = self.metric in TSLEARN_VALID_METRICS
+        fit_metric = "precomputed" if is_ts_metric else self.metric
 
         X = check_array(X,
                         allow_nd=True,
-                        force_all_finite=(self.metric != "precomputed"))
+                        force_all_finite=(fit_metric != "precomputed"))
         X = to_time_series_dataset(X)
         X = check_dims(X)
-        if self.metric == "precomputed" and hasattr(self, '_ts_metric'):
+        if is_ts_metric:
             self._ts_fit = X
-            if self._ts_metric == 'sax':
+            if self.metric == 'sax':
                 if self.metric_params is not None:
                     self._ts_fit = self._sax_preprocess(X,
                                                         **self.metric_params)
@@ -573,11 +560,11 @@ class KNeighborsTimeSeriesClassifier(KNeighborsTimeSeriesMixin,
             self._X_fit = numpy.zeros((self._ts_fit.shape[0],
                                        self._ts_fit.shape[0]))
         else:
+            self._ts_fit = None
             self._X_fit, self._d = to_sklearn_dataset(X, return_dim=True)
-        super().fit(self._X_fit, y)
+        with self._patch_attribute("metric", fit_metric):
+            super().fit(self._X_fit, y)
         self.n_features_in_ = self._d
-        if hasattr(self, '_ts_metric'):
-            self.metric = self._ts_metric
         return self
 
     def predict(self, X):
@@ -712,26 +699,25 @@ class KNeighborsTimeSeriesRegressor(KNeighborsTimeSeriesMixin,
         KNeighborsTimeSeriesRegressor
             The fitted estimator
         """
-        if self.metric in TSLEARN_VALID_METRICS:
-            self._ts_metric = self.metric
-            self.metric = "precomputed"
+        is_ts_metric = self.metric in TSLEARN_VALID_METRICS
+        fit_metric = "precomputed" if is_ts_metric else self.metric
 
         X = check_array(X,
                         allow_nd=True,
-                        force_all_finite=(self.metric != "precomputed"))
+                        force_all_finite=(fit_metric != "precomputed"))
         X = to_time_series_dataset(X)
         X = check_dims(X)
-        if self.metric == "precomputed" and hasattr(self, '_ts_metric'):
+        if is_ts_metric:
             self._ts_fit = X
             self._d = X.shape[2]
             self._X_fit = numpy.zeros((self._ts_fit.shape[0],
                                        self._ts_fit.shape[0]))
         else:
+            self._ts_fit = None
             self._X_fit, self._d = to_sklearn_dataset(X, return_dim=True)
-        super().fit(self._X_fit, y)
+        with self._patch_attribute("metric", fit_metric):
+            super().fit(self._X_fit, y)
         self.n_features_in_ = self._d
-        if hasattr(self, '_ts_metric'):
-            self.metric = self._ts_metric
         return self
 
     def predict(self, X):
-- 
2.43.0


From b3b38d2d520ee54811b17b4fccf919497efc28ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:04 +0000
Subject: [PATCH 22/61] fix: kneighbors() without query excludes each series
 itself, for every metric

---
 tslearn/neighbors/neighbors.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index e11b432..09cf175 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -123,22 +123,17 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
         self_neighbors = False
         if n_neighbors is None:
             n_neighbors = self.n_neighbors
+        is_ts_metric = self.metric in TSLEARN_VALID_METRICS
         if X is None:
-            X = self._X_fit
+            X = self._ts_fit if is_ts_metric else self._X_fit
             self_neighbors = True
         if self.metric == "precomputed":
             full_dist_matrix = X
         else:
-
+            X = numpy.asarray(X)
             if X.ndim == 2:  # sklearn-format case
                 X = X.reshape((X.shape[0], -1, self._d))
-                fit_X = self._X_fit.reshape((self._X_fit.shape[0],
-                                             -1,
-                                             self._d))
-            elif hasattr(self, '_ts_fit') and self._ts_fit is not None:
-                fit_X = self._ts_fit
-            else:
-                fit_X = self._X_fit
+            fit_X = self._ts_fit if is_ts_metric else self._X_fit
 
             if self.metric in TSLEARN_VALID_METRICS:
                 full_dist_matrix = self._precompute_cross_dist(X,
@@ -157,15 +152,17 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
         # Code similar to sklearn (sklearn/neighbors/base.py), to make sure
         # that TimeSeriesKNeighbor~(metric='euclidean') has the same results as
         # feeding a distance matrix to sklearn.KNeighbors~(metric='euclidean')
-        kbin = min(n_neighbors - 1, full_dist_matrix.shape[1] - 1)
+        n_candidates = full_dist_matrix.shape[1]
+        if self_neighbors:
+            full_dist_matrix = numpy.array(full_dist_matrix, dtype=float)
+            numpy.fill_diagonal(full_dist_matrix, numpy.inf)
+            n_candidates -= 1
+        n_neighbors = min(n_neighbors, n_candidates)
+        kbin = n_neighbors - 1
         # argpartition will make sure the first `kbin` entries are the
         # `kbin` smallest ones (but in arbitrary order) --> complexity: O(n)
         ind = numpy.argpartition(full_dist_matrix, kbin, axis=1)
 
-        if self_neighbors:
-            ind = ind[:, 1:]
-        if n_neighbors > full_dist_matrix.shape[1]:
-            n_neighbors = full_dist_matrix.shape[1]
         ind = ind[:, :n_neighbors]
 
         n_ts = X.shape[0]
@@ -368,6 +365,11 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
         if self.metric in TSLEARN_VALID_METRICS:
             metric_params = self._get_metric_params()
             check_is_fitted(self, '_ts_fit')
+            if X is None:
+                return KNeighborsTimeSeriesMixin.kneighbors(
+                    self,
+                    n_neighbors=n_neighbors,
+                    return_distance=return_distance)
             X = check_array(X, allow_nd=True, force_all_finite=False)
             X = check_dims(X, X_fit_dims=self._ts_fit.shape, extend=True,
                            check_n_features_only=True)
-- 
2.43.0


From a878a9b07f14b84677077362866440abb23e7069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:45 +0000
Subject: [PATCH 23/61] fix: SAX nearest neighbours for every KNN class,
 queries transformed as fitted

---
 tslearn/neighbors/neighbors.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index 09cf175..da309e2 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -31,15 +31,18 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
     def _sax_preprocess(self, X, n_segments=10, alphabet_size_avg=4,
                         scale=False):
         # Now SAX-transform the time series
-        if not hasattr(self, '_sax') or self._sax is None:
+        if getattr(self, '_sax', None) is None:
             self._sax = SymbolicAggregateApproximation(
                 n_segments=n_segments,
                 alphabet_size_avg=alphabet_size_avg,
                 scale=scale
             )
-        X_sax = self._sax.fit_transform(X)
+            return self._sax.fit_transform(X)
+        return self._sax.transform(X)
 
-        return X_sax
+    def _sax_fit(self, X):
+        self._sax = None
+        return self._sax_preprocess(X, **self._get_metric_params())
 
     def _get_metric_params(self):
         if self.metric_params is None:
@@ -61,6 +64,7 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
 
         metric_params = self._get_metric_params()
 
+        is_sax_fit = X is self._ts_fit
         X = check_array(X, allow_nd=True, force_all_finite=False)
         X = to_time_series_dataset(X)
 
@@ -75,7 +79,8 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
         elif self.metric == "softdtw":
             X_ = _cdist_soft_dtw(X, other_X, **metric_params)
         elif self.metric == "sax":
-            X = self._sax_preprocess(X, **metric_params)
+            if not is_sax_fit:
+                X = self._sax_preprocess(X, **metric_params)
             X_ = _cdist_sax(
                 X,
                 self._sax.breakpoints_avg_,
@@ -326,7 +331,7 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
         X = to_time_series_dataset(X)
         X = check_dims(X)
         if is_ts_metric:
-            self._ts_fit = X
+            self._ts_fit = self._sax_fit(X) if self.metric == 'sax' else X
             self._d = X.shape[2]
             self._X_fit = numpy.zeros((self._ts_fit.shape[0],
                                        self._ts_fit.shape[0]))
@@ -385,6 +390,8 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
                 X_ = _cdist_ctw(X, self._ts_fit, **metric_params)
             elif self.metric == "softdtw":
                 X_ = _cdist_soft_dtw(X, self._ts_fit, **metric_params)
+            elif self.metric == "sax":
+                X_ = self._precompute_cross_dist(X)
             elif self.metric == "frechet":
                 X_ = _cdist_frechet(
                     X,
@@ -550,14 +557,7 @@ class KNeighborsTimeSeriesClassifier(KNeighborsTimeSeriesMixin,
         X = to_time_series_dataset(X)
         X = check_dims(X)
         if is_ts_metric:
-            self._ts_fit = X
-            if self.metric == 'sax':
-                if self.metric_params is not None:
-                    self._ts_fit = self._sax_preprocess(X,
-                                                        **self.metric_params)
-                else:
-                    self._ts_fit = self._sax_preprocess(X)
-
+            self._ts_fit = self._sax_fit(X) if self.metric == 'sax' else X
             self._d = X.shape[2]
             self._X_fit = numpy.zeros((self._ts_fit.shape[0],
                                        self._ts_fit.shape[0]))
@@ -710,7 +710,7 @@ class KNeighborsTimeSeriesRegressor(KNeighborsTimeSeriesMixin,
         X = to_time_series_dataset(X)
         X = check_dims(X)
         if is_ts_metric:
-            self._ts_fit = X
+            self._ts_fit = self._sax_fit(X) if self.metric == 'sax' else X
             self._d = X.shape[2]
             self._X_fit = numpy.zeros((self._ts_fit.shape[0],
                                        self._ts_fit.shape[0]))
-- 
2.43.0


From 71a105feed2fb9543fab0bca04a52dbde7cd03b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:53 +0000
Subject: [PATCH 24/61] fix: KNN classification with cityblock distance and
 uniform weights

---
 tslearn/neighbors/neighbors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index da309e2..cc4ecc5 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -225,7 +225,9 @@ def _predict_generic(caller, X, predict_func):
         X = to_time_series_dataset(X)
         X_ = to_sklearn_dataset(X)
         X_ = check_dims(X_, X_fit_dims=caller._X_fit.shape, extend=False)
-        return predict_func(X_)
+        # scikit-learn sees flattened time series
+        with caller._patch_attribute("n_features_in_", X_.shape[1]):
+            return predict_func(X_)
 
 
 class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
-- 
2.43.0


From 9220ec1a4e810f89806252ffede5c5861520d737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:36 +0000
Subject: [PATCH 25/61] fix: own neighbours of a fitted SAX model are searched
 among its words

---
 tslearn/neighbors/neighbors.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index cc4ecc5..0a7a864 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -64,9 +64,10 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
 
         metric_params = self._get_metric_params()
 
-        is_sax_fit = X is self._ts_fit
-        X = check_array(X, allow_nd=True, force_all_finite=False)
-        X = to_time_series_dataset(X)
+        is_sax_fit = self.metric == "sax" and X is self._ts_fit
+        if not is_sax_fit:
+            X = check_array(X, allow_nd=True, force_all_finite=False)
+            X = to_time_series_dataset(X)
 
         if self.metric == "dtw":
             X_ = _cdist_dtw(
-- 
2.43.0


From 70d0766525e591a2dd4b5dfa2b3b2e9c8355463d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:55 +0000
Subject: [PATCH 26/61] fix: MLP models can be fitted again with warm_start

---
 tslearn/neural_network/neural_network.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tslearn/neural_network/neural_network.py b/tslearn/neural_network/neural_network.py
index f57849c..05d102e 100644
--- a/tslearn/neural_network/neural_network.py
+++ b/tslearn/neural_network/neural_network.py
@@ -53,6 +53,11 @@ class TimeSeriesMLPClassifier(TimeSeriesMixin, MLPClassifier):
         """
         X_ = check_array(X, force_all_finite=True, allow_nd=True)
         X_ = to_time_series_dataset(X_)
+        if self.warm_start and hasattr(self, "coefs_"):
+            X_ = check_dims(X_, self._X_fit_dims)
+            X_ = X_.reshape((X_.shape[0], -1))
+            with self._patch_attribute("n_features_in_", X_.shape[1]):
+                return super().fit(X_, y)
         self._X_fit_dims = X_.shape
         X_ = X_.reshape((X_.shape[0], -1))
         estimator = super().fit(X_, y)
@@ -173,6 +178,11 @@ class TimeSeriesMLPRegressor(TimeSeriesMixin, MLPRegressor):
         """
         X_ = check_array(X, force_all_finite=True, allow_nd=True)
         X_ = to_time_series_dataset(X_)
+        if self.warm_start and hasattr(self, "coefs_"):
+            X_ = check_dims(X_, self._X_fit_dims)
+            X_ = X_.reshape((X_.shape[0], -1))
+            with self._patch_attribute("n_features_in_", X_.shape[1]):
+                return super(TimeSeriesMLPRegressor, self).fit(X_, y)
         self._X_fit_dims = X_.shape
         X_ = X_.reshape((X_.shape[0], -1))
         estimator = super(TimeSeriesMLPRegressor, self).fit(X_, y)
-- 
2.43.0


From 0331c074359d46bfb8ee13cf11183a01a8ebc9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:55 +0000
Subject: [PATCH 27/61] fix: gamma="auto" is 1/n_features for SVM kernels other
 than gak, as documented

---
 tslearn/svm/svm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/svm/svm.py b/tslearn/svm/svm.py
index 5d669da..6f143c3 100644
--- a/tslearn/svm/svm.py
+++ b/tslearn/svm/svm.py
@@ -53,7 +53,7 @@ class TimeSeriesSVMMixin(TimeSeriesMixin):
 
         if fit_time:
             self._X_fit = X
-            if self.gamma == "auto":
+            if self.gamma == "auto" and self.kernel in VARIABLE_LENGTH_METRICS:
                 self.gamma_ = gamma_soft_dtw(X, random_state=self.random_state)
             else:
                 self.gamma_ = self.gamma
-- 
2.43.0


From 42455386e75a4822a213510a772e26792d68fd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:44 +0000
Subject: [PATCH 28/61] fix: TimeSeriesSVR uses its epsilon parameter

---
 tslearn/svm/svm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/svm/svm.py b/tslearn/svm/svm.py
index 6f143c3..b7f29e5 100644
--- a/tslearn/svm/svm.py
+++ b/tslearn/svm/svm.py
@@ -585,7 +585,7 @@ class TimeSeriesSVR(TimeSeriesSVMMixin, RegressorMixin, BaseEstimator):
         self.svm_estimator_ = SVR(
             C=self.C, kernel=self.estimator_kernel_, degree=self.degree,
             gamma=self.gamma_, coef0=self.coef0, shrinking=self.shrinking,
-            tol=self.tol, cache_size=self.cache_size,
+            tol=self.tol, epsilon=self.epsilon, cache_size=self.cache_size,
             verbose=self.verbose, max_iter=self.max_iter
         )
         self.svm_estimator_.fit(sklearn_X, y, sample_weight=sample_weight)
-- 
2.43.0


From 483de3be1f23d6a460b04a55b0e09d2e4c81b374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:30 +0000
Subject: [PATCH 29/61] fix: early classification confusion rates are
 conditioned on the true class, as documented

---
 tslearn/early_classification/early_classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/early_classification/early_classification.py b/tslearn/early_classification/early_classification.py
index ec031fd..cc34355 100644
--- a/tslearn/early_classification/early_classification.py
+++ b/tslearn/early_classification/early_classification.py
@@ -200,7 +200,7 @@ class NonMyopicEarlyClassifier(TimeSeriesMixin, ClassifierMixin, BaseEstimator):
                                                    labels=label_set)
                     # normalize parameter seems to be quite recent in sklearn,
                     # so let's do it ourselves
-                    normalizer = conf_matrix.sum(axis=0, keepdims=True)
+                    normalizer = conf_matrix.sum(axis=1, keepdims=True)
                     normalizer[normalizer == 0] = 1  # Avoid divide by 0
                     conf_matrix = conf_matrix / normalizer
 
-- 
2.43.0


From 98161aa4fa4070ee85894454ac0bee5bee65db9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:30 +0000
Subject: [PATCH 30/61] fix: cluster probabilities of a series that starts as
 all cluster centers do are not nan

---
 tslearn/early_classification/early_classification.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tslearn/early_classification/early_classification.py b/tslearn/early_classification/early_classification.py
index cc34355..be0af3c 100644
--- a/tslearn/early_classification/early_classification.py
+++ b/tslearn/early_classification/early_classification.py
@@ -279,7 +279,10 @@ class NonMyopicEarlyClassifier(TimeSeriesMixin, ClassifierMixin, BaseEstimator):
         diffs = Xi[np.newaxis, :] - self.cluster_.cluster_centers_[:, :len(Xi)]
         distances_clusters = np.linalg.norm(diffs, axis=(1, 2))
         average_distance = np.mean(distances_clusters)
-        delta_k = 1. - distances_clusters / average_distance
+        if average_distance == 0.:
+            delta_k = np.zeros_like(distances_clusters)
+        else:
+            delta_k = 1. - distances_clusters / average_distance
         s_k = 1. / (1. + np.exp(-self.lamb * delta_k))
         return s_k / s_k.sum()
 
-- 
2.43.0


From 850782ad37de5a53d5de21aa1fe7f6da0921cb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:30 +0000
Subject: [PATCH 31/61] fix: early_predict_proba when the fitted half misses a
 class

---
 tslearn/early_classification/early_classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/early_classification/early_classification.py b/tslearn/early_classification/early_classification.py
index be0af3c..43da5b5 100644
--- a/tslearn/early_classification/early_classification.py
+++ b/tslearn/early_classification/early_classification.py
@@ -752,7 +752,7 @@ class NonMyopicEarlyClassifier(TimeSeriesMixin, ClassifierMixin, BaseEstimator):
 
         pred = []
         time_prediction = []
-        default_pred = [np.nan] * self.__n_classes_ if predict_proba else np.nan
+        default_pred = [np.nan] * len(self.classes_) if predict_proba else np.nan
 
         for ts in X:
             ts = to_time_series(ts, remove_nans=True)
-- 
2.43.0


From c7d652ae87d6664bdb45d50f9375c6944704e02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:08 +0000
Subject: [PATCH 32/61] fix: LearningShapelets can be fitted again on longer or
 shorter series

---
 tslearn/shapelets/shapelets.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tslearn/shapelets/shapelets.py b/tslearn/shapelets/shapelets.py
index acbdc25..52c896b 100644
--- a/tslearn/shapelets/shapelets.py
+++ b/tslearn/shapelets/shapelets.py
@@ -496,9 +496,9 @@ class LearningShapelets(TimeSeriesMixin, ClassifierMixin, TransformerMixin, Base
                           FutureWarning)
 
         X, y = check_X_y(X, y, allow_nd=True, force_all_finite=False)
-        X = self._preprocess_series(X)
+        X = self._preprocess_series(X, fit=True)
         X = check_dims(X)
-        self._check_series_length(X)
+        self._check_series_length(X, fit=True)
 
         y_ = self._preprocess_labels(y)
         n_labels = len(self.classes_)
@@ -667,7 +667,7 @@ class LearningShapelets(TimeSeriesMixin, ClassifierMixin, TransformerMixin, Base
         )
         return locations.astype(int)
 
-    def _check_series_length(self, X):
+    def _check_series_length(self, X, fit=False):
         """Ensures that time series in X matches the following requirements:
 
         - their length is greater than the size of the longest shapelet
@@ -688,7 +688,7 @@ class LearningShapelets(TimeSeriesMixin, ClassifierMixin, TransformerMixin, Base
 
         max_size = self.max_size
         if max_size is None:
-            max_size = self._X_fit_dims[1] if hasattr(self, '_X_fit_dims') else X.shape[1]
+            max_size = X.shape[1] if fit else self._X_fit_dims[1]
 
         if X.shape[1] > max_size:
             raise ValueError("Sizes in X do not match maximum allowed "
@@ -698,7 +698,7 @@ class LearningShapelets(TimeSeriesMixin, ClassifierMixin, TransformerMixin, Base
                              "length {} and maximum allowed size is "
                              "{}".format(X.shape[1], max_size))
 
-    def _preprocess_series(self, X):
+    def _preprocess_series(self, X, fit=False):
         """Scale if needed, pad with nans if needed."""
         if self.scale:
             X = TimeSeriesScalerMinMax().fit_transform(X)
@@ -707,7 +707,7 @@ class LearningShapelets(TimeSeriesMixin, ClassifierMixin, TransformerMixin, Base
 
         max_size = self.max_size
         if max_size is None:
-            max_size = self._X_fit_dims[1] if hasattr(self, '_X_fit_dims') else X.shape[1]
+            max_size = X.shape[1] if fit else self._X_fit_dims[1]
 
         if max_size > X.shape[1]:
             X_ = numpy.zeros((X.shape[0], max_size, X.shape[2]))
-- 
2.43.0


From 168722223e3a384a9f20f188dd0718b2fff21466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:08 +0000
Subject: [PATCH 33/61] fix: series shorter than automatically sized shapelets
 are refused

---
 tslearn/shapelets/shapelets.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tslearn/shapelets/shapelets.py b/tslearn/shapelets/shapelets.py
index 52c896b..15c36be 100644
--- a/tslearn/shapelets/shapelets.py
+++ b/tslearn/shapelets/shapelets.py
@@ -676,8 +676,11 @@ class LearningShapelets(TimeSeriesMixin, ClassifierMixin, TransformerMixin, Base
         """
         self._min_sz_fit = min(_ts_size(Xi) for Xi in X)
 
-        if self.n_shapelets_per_size is not None:
-            max_sz_shp = max(self.n_shapelets_per_size.keys())
+        n_shapelets_per_size = self.n_shapelets_per_size
+        if n_shapelets_per_size is None and not fit:
+            n_shapelets_per_size = self.n_shapelets_per_size_
+        if n_shapelets_per_size is not None:
+            max_sz_shp = max(n_shapelets_per_size.keys())
             if max_sz_shp > self._min_sz_fit:
                 raise ValueError("Sizes in X do not match maximum "
                                  "shapelet size: there is at least one "
-- 
2.43.0


From e300970a19116dffbe7293c5d2fc1eda5b7be24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:20 +0000
Subject: [PATCH 34/61] fix: shapelet distances of multivariate series with
 several shapelets per size

---
 tslearn/shapelets/shapelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/shapelets/shapelets.py b/tslearn/shapelets/shapelets.py
index 15c36be..ebf9cec 100644
--- a/tslearn/shapelets/shapelets.py
+++ b/tslearn/shapelets/shapelets.py
@@ -218,7 +218,7 @@ class LocalSquaredDistanceLayer(Layer):
         )
         y_ = ops.reshape(
             ops.transpose(self.kernel,
-                          (1, 0, 2)),
+                          (1, 2, 0)),
                          (shapelet_size * nb_features, self.nb_shapelets))
         xy = ops.dot(x_, y_)
         return (x_sq + y_sq - 2 * xy) / shapelet_size
-- 
2.43.0


From b9d0051e57512e8bdac0a7b5075d198a7673acd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:20 +0000
Subject: [PATCH 35/61] fix: LearningShapelets with an optimizer object can be
 fitted again

---
 tslearn/shapelets/shapelets.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tslearn/shapelets/shapelets.py b/tslearn/shapelets/shapelets.py
index ebf9cec..7f2f3db 100644
--- a/tslearn/shapelets/shapelets.py
+++ b/tslearn/shapelets/shapelets.py
@@ -740,6 +740,13 @@ class LearningShapelets(TimeSeriesMixin, ClassifierMixin, TransformerMixin, Base
             y_ = y_[:, 1:]  # Keep only indicator of positive class
         return y_
 
+    def _new_optimizer(self):
+        """A keras optimizer cannot be shared by models nor used again for
+        another fit: make a copy, unless the parameter is a name."""
+        if isinstance(self.optimizer, str):
+            return self.optimizer
+        return type(self.optimizer).from_config(self.optimizer.get_config())
+
     def _build_auxiliary_models(self):
         check_is_fitted(self, 'model_')
 
@@ -749,7 +756,7 @@ class LearningShapelets(TimeSeriesMixin, ClassifierMixin, TransformerMixin, Base
         self.transformer_model_ = Model(inputs=inputs,
                                         outputs=concatenated_features)
         self.transformer_model_.compile(loss="mean_squared_error",
-                                        optimizer=self.optimizer)
+                                        optimizer=self._new_optimizer())
 
         min_pool_inputs = [self.model_.get_layer("min_pooling_%d" % i).input[0]
                            for i in range(self._n_shapelet_sizes)]
@@ -765,7 +772,7 @@ class LearningShapelets(TimeSeriesMixin, ClassifierMixin, TransformerMixin, Base
         self.locator_model_ = Model(inputs=inputs,
                                     outputs=concatenated_locations)
         self.locator_model_.compile(loss="mean_squared_error",
-                                    optimizer=self.optimizer)
+                                    optimizer=self._new_optimizer())
 
     def _set_model_layers(self, X, n_classes):
 
@@ -824,7 +831,7 @@ class LearningShapelets(TimeSeriesMixin, ClassifierMixin, TransformerMixin, Base
                         name="classification")(concatenated_features)
         self.model_ = Model(inputs=input_, outputs=outputs)
         self.model_.compile(loss=loss,
-                            optimizer=self.optimizer,
+                            optimizer=self._new_optimizer(),
                             metrics=metrics)
         self._build_auxiliary_models()
 
-- 
2.43.0


From 45d1b58b7bab7ef1d9862906e1f69a8c8191beaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:07 +0000
Subject: [PATCH 36/61] fix: shapelets are not located where values are missing

---
 tslearn/shapelets/shapelets.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tslearn/shapelets/shapelets.py b/tslearn/shapelets/shapelets.py
index 7f2f3db..8a76ccc 100644
--- a/tslearn/shapelets/shapelets.py
+++ b/tslearn/shapelets/shapelets.py
@@ -119,8 +119,7 @@ class GlobalArgminPooling1D(Layer):
 
     def call(self, inputs, mask=None):
         if mask is not None:
-            max_ = ops.max(inputs)
-            inputs = ops.where(mask, inputs, max_)
+            inputs = ops.where(mask, inputs, numpy.inf)
         return ops.cast(ops.argmin(inputs, axis=1), dtype=float)
 
 
-- 
2.43.0


From 50730069d6f6786228358a5802527ed9d0eac646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:26 +0000
Subject: [PATCH 37/61] fix: SoftDTWLossPyTorch leaves the output of the
 distance function as it is

---
 tslearn/metrics/soft_dtw_loss_pytorch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tslearn/metrics/soft_dtw_loss_pytorch.py b/tslearn/metrics/soft_dtw_loss_pytorch.py
index 48ed077..33d7c8b 100644
--- a/tslearn/metrics/soft_dtw_loss_pytorch.py
+++ b/tslearn/metrics/soft_dtw_loss_pytorch.py
@@ -87,6 +87,7 @@ else:
             dtype = D.dtype
             _, m, n = D.shape
             mask = _njit_compute_mask(m, n, global_constraint, sakoe_chiba_radius, itakura_max_slope)
+            D = D.clone()  # may be needed by the distance function
             D[:, ~mask] = torch.inf
             D_ = D.detach().cpu().numpy()
             R_ = _njit_soft_dtw_batch(D_, gamma, mask)
-- 
2.43.0


From bc5c69bb9a6d2ae7d9c5b9be1fa153bad3ed84ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:26 +0000
Subject: [PATCH 38/61] fix: SoftDTWLossPyTorch keeps the precision of double
 series

---
 tslearn/metrics/soft_dtw_loss_pytorch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tslearn/metrics/soft_dtw_loss_pytorch.py b/tslearn/metrics/soft_dtw_loss_pytorch.py
index 33d7c8b..060aa4e 100644
--- a/tslearn/metrics/soft_dtw_loss_pytorch.py
+++ b/tslearn/metrics/soft_dtw_loss_pytorch.py
@@ -92,7 +92,7 @@ else:
             D_ = D.detach().cpu().numpy()
             R_ = _njit_soft_dtw_batch(D_, gamma, mask)
             gamma_tensor = torch.Tensor([gamma]).to(dev).type(dtype)
-            R = torch.Tensor(R_).to(dev).type(dtype)
+            R = torch.from_numpy(R_).to(dev).type(dtype)
             ctx.save_for_backward(D, R,gamma_tensor)
             return R[:, -1, -1]
 
@@ -106,7 +106,7 @@ else:
             R_ = R.detach().cpu().numpy()
             gamma = gamma_tensor.item()
             E_ = _njit_soft_dtw_grad_batch(D_, R_, gamma)
-            E = torch.Tensor(E_).to(dev).type(dtype)
+            E = torch.from_numpy(E_).to(dev).type(dtype)
             return grad_output.reshape(-1).to(dtype=E.dtype).view(-1, 1, 1) * E, None, None, None, None
 
 
-- 
2.43.0


From bb7a92e0c4ded249f3bc6ec67c808cdbc79922b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 39/61] fix: gradients of constrained soft-DTW with the PyTorch
 backend are not nan

---
 tslearn/metrics/_soft_dtw.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/tslearn/metrics/_soft_dtw.py b/tslearn/metrics/_soft_dtw.py
index 1df46f7..32e02b8 100644
--- a/tslearn/metrics/_soft_dtw.py
+++ b/tslearn/metrics/_soft_dtw.py
@@ -373,7 +373,13 @@ def _njit_accumulated_matrix(s1, s2, mask, gamma):
 if torch is not None:
 
     def __acc_fun(distances, predecessors, gamma):
-        return distances + -gamma * torch.logsumexp(-predecessors/gamma, dim=0)
+        # The gradient of logsumexp is nan where no predecessor is reachable
+        reachable = torch.isfinite(predecessors).any(dim=0)
+        softmin = torch.full_like(distances, torch.inf)
+        softmin[reachable] = -gamma * torch.logsumexp(
+            -predecessors[:, reachable] / gamma, dim=0
+        )
+        return distances + softmin
 
     _accumulated_matrix = functools.partial(
         _torch_accumulated_matrix,
@@ -410,7 +416,13 @@ def _njit_accumulated_matrix_from_distance_matrix(D, mask, gamma, out=None):
 if torch is not None:
 
     def __acc_fun(distances, predecessors, gamma):
-        return distances + -gamma * torch.logsumexp(-predecessors/gamma, dim=0)
+        # The gradient of logsumexp is nan where no predecessor is reachable
+        reachable = torch.isfinite(predecessors).any(dim=0)
+        softmin = torch.full_like(distances, torch.inf)
+        softmin[reachable] = -gamma * torch.logsumexp(
+            -predecessors[:, reachable] / gamma, dim=0
+        )
+        return distances + softmin
 
     _accumulated_matrix_from_distance_matrix = functools.partial(
         _torch_acc_matrix_from_dist_matrix,
-- 
2.43.0


From 20a49e5041b8b2d1c21ccde29fd376333cf5eed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:05 +0000
Subject: [PATCH 40/61] fix: torch pairwise distances of a callable keep the
 precision of the data

---
 tslearn/backend/pytorch_backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tslearn/backend/pytorch_backend.py b/tslearn/backend/pytorch_backend.py
index ac45b47..e4eae99 100755
--- a/tslearn/backend/pytorch_backend.py
+++ b/tslearn/backend/pytorch_backend.py
@@ -188,7 +188,9 @@ else:
             if metric == "sqeuclidean":
                 return _torch.cdist(X, Y) ** 2
             if callable(metric):
-                distance_matrix = _torch.zeros(X.shape[0], Y.shape[0])
+                distance_matrix = _torch.zeros(
+                    X.shape[0], Y.shape[0], dtype=X.dtype, device=X.device
+                )
                 for i in range(X.shape[0]):
                     for j in range(Y.shape[0]):
                         distance_matrix[i, j] = metric(X[i, ...], Y[j, ...])
-- 
2.43.0


From b5428fdba6cadf642547b215e3691943030bb4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:42 +0000
Subject: [PATCH 41/61] fix: all() of the PyTorch backend accepts several axes

---
 tslearn/backend/pytorch_backend.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/tslearn/backend/pytorch_backend.py b/tslearn/backend/pytorch_backend.py
index e4eae99..2da7cfd 100755
--- a/tslearn/backend/pytorch_backend.py
+++ b/tslearn/backend/pytorch_backend.py
@@ -93,14 +93,9 @@ else:
                 return x.bool().all()
             if isinstance(axis, int):
                 return _torch.all(x.bool(), axis)
-            if len(axis) == 1:
-                return _torch.all(x, *axis)
-            axis = list(axis)
-            for i_axis, one_axis in enumerate(axis):
-                if one_axis < 0:
-                    axis[i_axis] = x.ndim() + one_axis
-            new_axis = tuple(k - 1 if k >= 0 else k for k in axis[1:])
-            return all(_torch.all(x.bool(), axis[0]), new_axis)
+            for one_axis in sorted((k % x.dim() for k in axis), reverse=True):
+                x = _torch.all(x.bool(), one_axis)
+            return x
 
         def array(self, val, dtype=None):
             if _torch.is_tensor(val):
-- 
2.43.0


From 53cdff005d1bc633164d9b36e3d01da87087f0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 42/61] fix: stumpy matrix profiles honour scale=False

---
 tslearn/matrix_profile/matrix_profile.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tslearn/matrix_profile/matrix_profile.py b/tslearn/matrix_profile/matrix_profile.py
index b2ce67a..13f440f 100644
--- a/tslearn/matrix_profile/matrix_profile.py
+++ b/tslearn/matrix_profile/matrix_profile.py
@@ -170,7 +170,8 @@ class MatrixProfile(TimeSeriesMixin,
             for i_ts in range(n_ts):
                 result = stumpy.stump(
                     T_A=X[i_ts, :, 0].ravel(),
-                    m=self.subsequence_length)
+                    m=self.subsequence_length,
+                    normalize=self.scale)
                 X_transformed[i_ts, :, 0] = result[:, 0].astype(float)
 
         elif self.implementation == "gpu_stump":
@@ -180,7 +181,8 @@ class MatrixProfile(TimeSeriesMixin,
             for i_ts in range(n_ts):
                 result = stumpy.gpu_stump(
                     T_A=X[i_ts, :, 0].ravel(),
-                    m=self.subsequence_length)
+                    m=self.subsequence_length,
+                    normalize=self.scale)
                 X_transformed[i_ts, :, 0] = result[:, 0].astype(float)
 
         elif self.implementation == "numpy":
-- 
2.43.0


From 4eb72e02c14b367c389ab2382903124861d7913e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 43/61] fix: numpy matrix profile of series with missing values
 or shorter than others

---
 tslearn/matrix_profile/matrix_profile.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tslearn/matrix_profile/matrix_profile.py b/tslearn/matrix_profile/matrix_profile.py
index 13f440f..e4c6557 100644
--- a/tslearn/matrix_profile/matrix_profile.py
+++ b/tslearn/matrix_profile/matrix_profile.py
@@ -190,11 +190,17 @@ class MatrixProfile(TimeSeriesMixin,
             band_width = int(np.ceil(self.subsequence_length / 4))
             for i_ts in range(n_ts):
                 segments = _series_to_segments(X[i_ts], self.subsequence_length)
-                if self.scale:
-                    segments = scaler.fit_transform(segments)
                 n_segments = segments.shape[0]
-                segments_2d = segments.reshape((-1, self.subsequence_length * d))
-                dists = squareform(pdist(segments_2d, "euclidean"))
+                # As for stumpy, a segment with missing values matches no other
+                observed = np.isfinite(segments).all(axis=(1, 2))
+                dists = np.full((n_segments, n_segments), np.inf)
+                if observed.any():
+                    segments = segments[observed]
+                    if self.scale:
+                        segments = scaler.fit_transform(segments)
+                    segments_2d = segments.reshape((-1, self.subsequence_length * d))
+                    dists[np.ix_(observed, observed)] = squareform(
+                        pdist(segments_2d, "euclidean"))
                 band = (np.tri(n_segments, n_segments,
                             band_width, dtype=bool) &
                         ~np.tri(n_segments, n_segments,
-- 
2.43.0


From ca6bd03e602bc7261e017a1f77cf3773d1b39f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 44/61] fix: mean-variance scaling of a dataset without any
 observed value

---
 tslearn/preprocessing/preprocessing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tslearn/preprocessing/preprocessing.py b/tslearn/preprocessing/preprocessing.py
index eba23b3..7258524 100644
--- a/tslearn/preprocessing/preprocessing.py
+++ b/tslearn/preprocessing/preprocessing.py
@@ -362,8 +362,10 @@ class TimeSeriesScalerMeanVariance(TimeSeriesMixin, TransformerMixin, BaseEstima
         mean_ = numpy.nanmean(X, axis=axis, keepdims=True)
         std_ = numpy.nanstd(X, axis=axis, keepdims=True)
         # The computed std of a constant series is not always exactly 0
-        constant = (numpy.nanmin(X, axis=axis, keepdims=True)
-                    == numpy.nanmax(X, axis=axis, keepdims=True))
+        constant = (
+            numpy.nanmin(X, axis=axis, keepdims=True, initial=numpy.inf)
+            == numpy.nanmax(X, axis=axis, keepdims=True, initial=-numpy.inf)
+        )
         std_[(std_ == 0.) | constant] = 1.
 
         return mean_, std_
-- 
2.43.0


From eb826a408fe8581e6d518e2617c5bb7c3b48643f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 45/61] fix: start values of multivariate VARIMA coefficients

---
 tslearn/forecasting/_arima.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/forecasting/_arima.py b/tslearn/forecasting/_arima.py
index 8299f11..04684ed 100644
--- a/tslearn/forecasting/_arima.py
+++ b/tslearn/forecasting/_arima.py
@@ -296,7 +296,7 @@ class VARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
         ma_start_params = compute_var(self.q, residuals)[1]
 
         return np.concatenate(
-            (constant_params, ar_start_params.T.ravel(), ma_start_params.T.ravel())
+            (constant_params, ar_start_params.ravel(), ma_start_params.ravel())
         )
 
     def _unravel_params(self, params, n_features_in=None):
-- 
2.43.0


From 50b9fd9b06c7dcd1d1ca8c86bbf0b8d10b139bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 46/61] fix: forecasts of VARIMA models differenced twice or
 more

---
 tslearn/forecasting/_arima.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tslearn/forecasting/_arima.py b/tslearn/forecasting/_arima.py
index 04684ed..8764213 100644
--- a/tslearn/forecasting/_arima.py
+++ b/tslearn/forecasting/_arima.py
@@ -339,14 +339,16 @@ class VARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
         return _loss(X, intercept, ar_coeffs, ma_coeffs)
 
     def _undifference(self, initial_values, prediction):
-        _ = np.array(
+        # Delta^d x_t = sum_k (-1)^k binom(d, k) x_{t-k}, with k = d, ..., 1
+        weights = np.array(
             [
-                (-(1 ** (j + 1))) * scipy.special.binom(j + 1, self.d)
-                for j in range(self.d)
+                (-1.0) ** k * scipy.special.binom(self.d, k)
+                for k in range(self.d, 0, -1)
             ]
         )
-        res = prediction - np.dot(_, initial_values[:, -self.d :])
-        return res
+        return prediction - np.tensordot(
+            initial_values[:, -self.d :], weights, axes=(1, 0)
+        )
 
     def predict(self, X=None, n=1):
         """Forecasts n timestamps of the given data if any, otherwise forecasts n timestamps
-- 
2.43.0


From 030e8f3bb59949401b648e7fb1da194c9f470b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 47/61] fix: VARIMA residuals of series shorter than others at
 prediction

---
 tslearn/forecasting/_arima.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tslearn/forecasting/_arima.py b/tslearn/forecasting/_arima.py
index 8764213..8d5fbbe 100644
--- a/tslearn/forecasting/_arima.py
+++ b/tslearn/forecasting/_arima.py
@@ -387,10 +387,11 @@ class VARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
             check_dims(X_, (0, 0, self.n_features_in_), check_n_features_only=True)
 
             # Retrieve last residuals and last timestamps needed to compute estimate
-            last_timestamps = self._get_last_timestamps(X_, ts_sizes)
+            # (residuals first, as the selection of timestamps moves them)
             seasonal_differrenced_X = self._seasonal_differencing(X_)
             differenced_X = np.diff(seasonal_differrenced_X, n=self.d, axis=1)
             last_residuals = self._loss(differenced_X)[1]
+            last_timestamps = self._get_last_timestamps(X_, ts_sizes)
 
         # Seasonal differencing
         sd_timestamps = self._seasonal_differencing(last_timestamps)
-- 
2.43.0


From ede5908a4dfdd2477316d4620bc64cb414f12f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 48/61] fix: mase() with feature weights given as an array

---
 tslearn/metrics/performance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/performance.py b/tslearn/metrics/performance.py
index 02445c0..f800bdb 100644
--- a/tslearn/metrics/performance.py
+++ b/tslearn/metrics/performance.py
@@ -205,7 +205,7 @@ def mase(
 
     mae_ = mae(y_true, y_pred, ts_weights, timestamps_weights, multioutput)
 
-    if multioutput == "raw_values":
+    if isinstance(multioutput, str) and multioutput == "raw_values":
         scale_axis = (0, 1)
     else:
         scale_axis = None
-- 
2.43.0


From 510915f2c1221fd19e8cde36f2c642ba16bd01fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:29 +0000
Subject: [PATCH 49/61] fix: UCR text files that hold a single series

---
 tslearn/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/utils/utils.py b/tslearn/utils/utils.py
index fbb8f50..1ce8f44 100644
--- a/tslearn/utils/utils.py
+++ b/tslearn/utils/utils.py
@@ -697,7 +697,7 @@ def _load_txt_uea(dataset_path):
     Exception: on any failure, e.g. if the given file does not exist or is
                corrupted
     """
-    data = numpy.loadtxt(dataset_path)
+    data = numpy.loadtxt(dataset_path, ndmin=2)
     X = to_time_series_dataset(data[:, 1:])
     y = data[:, 0].astype(int)
     return X, y
-- 
2.43.0


From 229643f68d9430ac403eb58eb65611418702fc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:29 +0000
Subject: [PATCH 50/61] fix: loading a dataset that cannot be downloaded warns
 and returns None

---
 tslearn/datasets/datasets.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tslearn/datasets/datasets.py b/tslearn/datasets/datasets.py
index 2576b6c..101bb0c 100644
--- a/tslearn/datasets/datasets.py
+++ b/tslearn/datasets/datasets.py
@@ -8,6 +8,7 @@ import tempfile
 import shutil
 import warnings
 from pathlib import Path
+from urllib.error import URLError
 from urllib.request import urlretrieve
 
 __author__ = 'Romain Tavenard romain.tavenard[at]univ-rennes2.fr'
@@ -36,11 +37,11 @@ def extract_from_zip_url(url, target_dir=None, verbose=False):
     fname = Path(url).name
     tmpdir = tempfile.mkdtemp()
     local_zip_fname = Path(tmpdir) / fname
-    urlretrieve(url, local_zip_fname)
     target_dir = Path(target_dir)
-    target_dir.mkdir(parents=True, exist_ok=True)
     try:
+        urlretrieve(url, local_zip_fname)
         with zipfile.ZipFile(local_zip_fname, "r") as f:
+            target_dir.mkdir(parents=True, exist_ok=True)
             f.extractall(path=target_dir)
         if verbose:
             print("Successfully extracted file %s to path %s" %
@@ -50,6 +51,10 @@ def extract_from_zip_url(url, target_dir=None, verbose=False):
         warnings.warn("Corrupted or missing zip file encountered, aborting",
                       category=RuntimeWarning)
         return None
+    except URLError as error:
+        warnings.warn("Download of %s failed: %s" % (url, error),
+                      category=RuntimeWarning)
+        return None
     finally:
         shutil.rmtree(tmpdir, ignore_errors=True)
 
-- 
2.43.0


From 4926d87a57707cec3ef7b45f7b61625364cc606f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:29 +0000
Subject: [PATCH 51/61] fix: baseline scores and downloaded dataset lists are
 available offline

---
 tslearn/datasets/ucr_uea.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/tslearn/datasets/ucr_uea.py b/tslearn/datasets/ucr_uea.py
index 8baa6d6..a65f82a 100644
--- a/tslearn/datasets/ucr_uea.py
+++ b/tslearn/datasets/ucr_uea.py
@@ -80,17 +80,22 @@ class UCR_UEA_datasets:
         self._data_dir = _check_root_dir(root_dir) / "UCR_UEA"
         self._data_dir.mkdir(parents=True, exist_ok=True)
 
+        url_multivariate = BASE_URL + "Archives/summaryMultivariate.csv"
+        self._list_multivariate_filename = (
+            self._data_dir / Path(url_multivariate).name
+        )
+        url_univariate = BASE_URL + "Archives/summaryUnivariate.csv"
+        self._list_univariate_filename = (
+            self._data_dir / Path(url_univariate).name
+        )
+        # Baseline scores are part of the package
+        self._baseline_scores_filename = (
+            Path(__file__).parents[1] / ".cached_datasets" /
+            "singleTrainTest.csv"
+        )
+
         try:
-            url_multivariate = BASE_URL + "Archives/summaryMultivariate.csv"
-            self._list_multivariate_filename = (
-                self._data_dir / Path(url_multivariate).name
-            )
             urlretrieve(url_multivariate, self._list_multivariate_filename)
-
-            url_univariate = BASE_URL + "Archives/summaryUnivariate.csv"
-            self._list_univariate_filename = (
-                self._data_dir / Path(url_univariate).name
-            )
             urlretrieve(url_univariate, self._list_univariate_filename)
 
             # fix typos in that CSV to match with the name in the download link
@@ -99,13 +104,8 @@ class UCR_UEA_datasets:
             in_file_string_replace(self._list_univariate_filename,
                                    "StarlightCurves", "StarLightCurves")
 
-            self._baseline_scores_filename = (
-                Path(__file__).parents[1] / ".cached_datasets" /
-                "singleTrainTest.csv"
-            )
-
         except Exception:
-            self._baseline_scores_filename = None
+            pass  # the lists downloaded before, if any, are used
 
         self._ignore_list = ["Data Descriptions"]
         # File names for datasets for which it is not obvious
-- 
2.43.0


From fd612af6f8cacbf6f448ed0a4345f8c356785128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 52/61] fix: models with None, text or dictionaries in their
 parameters saved as HDF5

---
 tslearn/bases/bases.py       | 42 ++++++++++++++++++++++++------------
 tslearn/hdftools/hdftools.py |  1 +
 2 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/tslearn/bases/bases.py b/tslearn/bases/bases.py
index 760dedc..8d99dd3 100644
--- a/tslearn/bases/bases.py
+++ b/tslearn/bases/bases.py
@@ -130,8 +130,8 @@ class BaseModelPackage(object):
             d['hyper_params'] = BaseModelPackage._listify(d['hyper_params'])
 
         elif output == 'hdf5':
-            d['hyper_params'] = \
-                BaseModelPackage._none_to_str(d['hyper_params'])
+            for param_set in d:
+                d[param_set] = BaseModelPackage._none_to_str(d[param_set])
 
         if hyper_parameters_only:
             del d["model_params"]
@@ -141,11 +141,15 @@ class BaseModelPackage(object):
     @staticmethod
     def _none_to_str(mp):
         """Use str to store Nones. Used for HDF5"""
-        for k in mp.keys():
-            if mp[k] is None:
-                mp[k] = 'None'
+        res = {}
+        for k, param in mp.items():
+            if param is None:
+                param = 'None'
+            elif isinstance(param, dict):
+                param = BaseModelPackage._none_to_str(param)
+            res[k] = param
 
-        return mp
+        return res
 
     @staticmethod
     def _listify(model_params):
@@ -201,12 +205,25 @@ class BaseModelPackage(object):
 
     @classmethod
     def _byte2string(cls, model):
-        for param_set in ['hyper_params', 'model_params']:
-            for k in model[param_set].keys():
-                if type(model[param_set][k]) == type(b''):
-                    model[param_set][k] = model[param_set][k].decode('utf-8')
+        for k, param in model.items():
+            if isinstance(param, dict):
+                model[k] = cls._byte2string(param)
+            elif type(param) == type(b''):
+                model[k] = param.decode('utf-8')
         return model
 
+    @staticmethod
+    def _from_hdf5_types(params):
+        """Undo `_none_to_str` and turn numpy scalars into python ones."""
+        for k, param in params.items():
+            if isinstance(param, dict):
+                params[k] = BaseModelPackage._from_hdf5_types(param)
+            elif isinstance(param, str) and param == 'None':
+                params[k] = None
+            elif isinstance(param, np.generic):
+                params[k] = param.item()
+        return params
+
     def to_hdf5(self, path):
         """
         Save model to a HDF5 file.
@@ -249,10 +266,7 @@ class BaseModelPackage(object):
         model = hdftools.load_dict(path, 'data')
         model = cls._byte2string(model)
 
-        for k in model['hyper_params'].keys():
-            if isinstance(model['hyper_params'][k], str):
-                if model['hyper_params'][k] == 'None':
-                    model['hyper_params'][k] = None
+        model = cls._from_hdf5_types(model)
 
         return cls._organize_model(cls, model)
 
diff --git a/tslearn/hdftools/hdftools.py b/tslearn/hdftools/hdftools.py
index 16239fe..7bbfb7a 100644
--- a/tslearn/hdftools/hdftools.py
+++ b/tslearn/hdftools/hdftools.py
@@ -88,6 +88,7 @@ def _dicts_to_group(h5file, path, d, raise_meta_fail):
             h5file[path + key] = item
 
         elif isinstance(item, dict):
+            h5file.require_group(path + key)  # even if empty
             _dicts_to_group(
                 h5file, "{}{}/".format(path, key), item, raise_meta_fail
             )
-- 
2.43.0


From 2295c6170237b07158965b828a6752487d4f26bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:50 +0000
Subject: [PATCH 53/61] fix: models with empty arrays or numpy scalars saved as
 JSON

---
 tslearn/bases/bases.py | 59 ++++++++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/tslearn/bases/bases.py b/tslearn/bases/bases.py
index 8d99dd3..2cfd489 100644
--- a/tslearn/bases/bases.py
+++ b/tslearn/bases/bases.py
@@ -39,6 +39,7 @@ except ImportError:
     TsLearnTags = dict
 
 
+EMPTY_ARRAY = '__empty_array__'
 ALLOW_VARIABLE_LENGTH = 'allow_variable_length'
 _DEFAULT_TAGS = {
     ALLOW_VARIABLE_LENGTH: False,
@@ -157,16 +158,42 @@ class BaseModelPackage(object):
         Convert all numpy arrays in model-parameters to lists.
         Used for json support
         """
-        for k in model_params.keys():
-            param = model_params[k]
+        res = {}
+        for k, param in model_params.items():
+            if isinstance(param, np.ndarray) and param.size == 0:
+                # Nested lists would lose the shape and type
+                param = {EMPTY_ARRAY: param.shape, 'dtype': param.dtype.str}
+            elif isinstance(param, (np.ndarray, np.generic)):
+                param = param.tolist()  # for json support
+            elif (isinstance(param, list) and len(param) > 0
+                    and isinstance(param[0], np.ndarray)):
+                param = [p.tolist() for p in param]  # json support
+            elif isinstance(param, dict):
+                param = BaseModelPackage._listify(param)
+            res[k] = param
+        return res
 
-            if isinstance(param, np.ndarray):
-                model_params[k] = param.tolist()  # for json support
-            elif isinstance(param, list) and isinstance(param[0], np.ndarray):
-                model_params[k] = [p.tolist() for p in param]  # json support
-            else:
-                model_params[k] = param
-        return model_params
+    @staticmethod
+    def _arrayify(params):
+        """Convert the lists of model-parameters back to arrays."""
+        for k, param in params.items():
+            if isinstance(param, dict):
+                if EMPTY_ARRAY in param:
+                    params[k] = np.empty(param[EMPTY_ARRAY],
+                                         dtype=param['dtype'])
+                else:
+                    params[k] = BaseModelPackage._arrayify(param)
+            elif type(param) is list:
+                try:
+                    arr = np.array(param)
+                    if arr.dtype == object:
+                        # Then maybe it was rather a list of arrays
+                        # This is very hacky...
+                        arr = [np.array(p) for p in param]
+                except ValueError:
+                    arr = [np.array(p) for p in param]
+                params[k] = arr
+        return params
 
     @staticmethod
     def _organize_model(cls, model):
@@ -302,19 +329,7 @@ class BaseModelPackage(object):
         model = cls._byte2string(model)
 
         # Convert the lists back to arrays
-        for param_type in ['model_params', 'hyper_params']:
-            for k in model[param_type].keys():
-                param = model[param_type][k]
-                if type(param) is list:
-                    try:
-                        arr = np.array(param)
-                        if arr.dtype == object:
-                            # Then maybe it was rather a list of arrays
-                            # This is very hacky...
-                            arr = [np.array(p) for p in param]
-                    except ValueError:
-                        arr = [np.array(p) for p in param]
-                    model[param_type][k] = arr
+        model = cls._arrayify(model)
 
         return cls._organize_model(cls, model)
 
-- 
2.43.0


From 9d0e57b7b8324ad867cbf80e1f05b971b532f635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:07 +0000
Subject: [PATCH 54/61] fix: neighbors, VARIMA and matrix profile models can be
 saved and loaded

---
 tslearn/bases/bases.py                   | 12 ++--
 tslearn/forecasting/_arima.py            | 27 +++++++++
 tslearn/matrix_profile/matrix_profile.py |  5 ++
 tslearn/neighbors/neighbors.py           | 76 ++++++++++++------------
 4 files changed, 77 insertions(+), 43 deletions(-)

diff --git a/tslearn/bases/bases.py b/tslearn/bases/bases.py
index 2cfd489..28c9c17 100644
--- a/tslearn/bases/bases.py
+++ b/tslearn/bases/bases.py
@@ -1,5 +1,5 @@
 import copy
-from abc import ABCMeta, abstractmethod
+from abc import ABCMeta
 from contextlib import contextmanager
 from dataclasses import dataclass, fields
 import json
@@ -20,6 +20,7 @@ else:
     HDF5_INSTALLED = True
 
 from sklearn.exceptions import NotFittedError
+from sklearn.utils.validation import check_is_fitted
 
 
 try:
@@ -79,20 +80,19 @@ class TimeSeriesMixin(object):
 class BaseModelPackage(object):
     __metaclass__ = ABCMeta
 
-    @abstractmethod
     def _is_fitted(self):
         """
-        Implement this method in a subclass to check
-        if the model has been fit.
+        Check if the model has been fit.
 
-        Usually implements a model specific call to
+        Subclasses may implement a model specific call to
         sklearn.utils.validation.check_is_fitted
 
         Returns
         -------
         bool
         """
-        pass
+        check_is_fitted(self)
+        return True
 
     def _get_model_params(self):
         """Get model parameters that are sufficient to recapitulate it."""
diff --git a/tslearn/forecasting/_arima.py b/tslearn/forecasting/_arima.py
index 8d5fbbe..51a2101 100644
--- a/tslearn/forecasting/_arima.py
+++ b/tslearn/forecasting/_arima.py
@@ -179,6 +179,16 @@ class VARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
     def _seasonal_period(self):
         return self.seasonal_period or 0
 
+    def _get_model_params(self):
+        params = super()._get_model_params()
+        params.update({
+            "_min_samples": self._min_samples,
+            "_ts_sizes": np.array(self._ts_sizes),
+            "_last_residuals": self._last_residuals,
+            "_last_timestamps": self._last_timestamps,
+        })
+        return params
+
     def fit(self, X, y=None):
         """Fits a VARIMA model.
 
@@ -535,6 +545,23 @@ class AutoVARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
     def _seasonal_period(self):
         return self.seasonal_period or 0
 
+    def _to_dict(self, output=None, hyper_parameters_only=False):
+        d = super()._to_dict(output, hyper_parameters_only)
+        if output is not None and not hyper_parameters_only:
+            d["model_params"]["best_estimator_"] = (
+                self.best_estimator_._to_dict(output)
+            )
+        return d
+
+    @staticmethod
+    def _organize_model(cls, model):
+        best_estimator = model["model_params"]["best_estimator_"]
+        if isinstance(best_estimator, dict):
+            model["model_params"]["best_estimator_"] = VARIMA._organize_model(
+                VARIMA, best_estimator
+            )
+        return BaseModelPackage._organize_model(cls, model)
+
     def fit(self, X, y=None):
         """Selects the best Vector Autoregressive Moving Average (VARIMA) model
         through Hyndman-Khandakar algorithm for the given data.
diff --git a/tslearn/matrix_profile/matrix_profile.py b/tslearn/matrix_profile/matrix_profile.py
index e4c6557..7e53574 100644
--- a/tslearn/matrix_profile/matrix_profile.py
+++ b/tslearn/matrix_profile/matrix_profile.py
@@ -130,6 +130,11 @@ class MatrixProfile(TimeSeriesMixin,
         check_is_fitted(self, '_X_fit_dims')
         return True
 
+    def _get_model_params(self):
+        params = super()._get_model_params()
+        params.update({"_X_fit_dims": np.array(self._X_fit_dims)})
+        return params
+
     def _fit(self, X, y=None):
         self._X_fit_dims = X.shape
         self.n_features_in_ = X.shape[-1]
diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index 0a7a864..3405a5d 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -28,15 +28,18 @@ from tslearn.utils import (
 class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
     """Mixin for k-neighbors searches on Time Series."""
 
-    def _sax_preprocess(self, X, n_segments=10, alphabet_size_avg=4,
-                        scale=False):
+    @staticmethod
+    def _init_sax(n_segments=10, alphabet_size_avg=4, scale=False):
+        return SymbolicAggregateApproximation(
+            n_segments=n_segments,
+            alphabet_size_avg=alphabet_size_avg,
+            scale=scale
+        )
+
+    def _sax_preprocess(self, X, **sax_params):
         # Now SAX-transform the time series
         if getattr(self, '_sax', None) is None:
-            self._sax = SymbolicAggregateApproximation(
-                n_segments=n_segments,
-                alphabet_size_avg=alphabet_size_avg,
-                scale=scale
-            )
+            self._sax = self._init_sax(**sax_params)
             return self._sax.fit_transform(X)
         return self._sax.transform(X)
 
@@ -101,6 +104,35 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
 
         return X_
 
+    def _is_fitted(self):
+        if self.metric in TSLEARN_VALID_METRICS:
+            check_is_fitted(self, '_ts_fit')
+        else:
+            check_is_fitted(self, '_X_fit')
+
+        return True
+
+    def _get_model_params(self):
+        params = super()._get_model_params()
+        for attr in ('_ts_fit', '_X_fit', '_d', '_y', '_fit_X',
+                     '_fit_method'):
+            if hasattr(self, attr):
+                params[attr] = getattr(self, attr)
+        if self.metric == 'sax':
+            # All that SAX learned from the training data
+            params['_sax'] = self._sax._get_model_params()
+        return params
+
+    @staticmethod
+    def _organize_model(cls, model):
+        inst = BaseModelPackage._organize_model(cls, model)
+        if inst.metric == 'sax':
+            sax_params = inst._sax
+            inst._sax = inst._init_sax(**inst._get_metric_params())
+            for k, param in sax_params.items():
+                setattr(inst._sax, k, param)
+        return inst
+
     def kneighbors(self, X=None, n_neighbors=None, return_distance=True):
         """Finds the K-neighbors of a point.
 
@@ -303,20 +335,6 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
         self.n_jobs = n_jobs
         self.verbose = verbose
 
-    def _is_fitted(self):
-        if self.metric in TSLEARN_VALID_METRICS:
-            check_is_fitted(self, '_ts_fit')
-        else:
-            check_is_fitted(self, '_X_fit')
-
-        return True
-
-    def _get_model_params(self):
-        if self.metric in TSLEARN_VALID_METRICS:
-            return {'_ts_fit': self._ts_fit}
-        else:
-            return {'_X_fit': self._X_fit}
-
     def fit(self, X, y=None):
         """Fit the model using X as training data
 
@@ -520,22 +538,6 @@ class KNeighborsTimeSeriesClassifier(KNeighborsTimeSeriesMixin,
         self.n_jobs = n_jobs
         self.verbose = verbose
 
-    def _is_fitted(self):
-        check_is_fitted(self, '_ts_fit')
-        return True
-
-    def _get_model_params(self):
-        return {
-            '_X_fit': self._X_fit,
-            '_ts_fit': self._ts_fit,
-            '_d': self._d,
-            'classes_': self.classes_,
-            '_y': self._y,
-            'outputs_2d_': self.outputs_2d_,
-            '_fit_X': self._fit_X,
-            '_fit_method': self._fit_method
-        }
-
     def fit(self, X, y):
         """Fit the model using X as training data and y as target values
 
-- 
2.43.0


From 8e407f00320a29e71e77e6025e4b5824334f8344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:55 +0000
Subject: [PATCH 55/61] fix: text arrays with accents read back from HDF5

---
 tslearn/hdftools/hdftools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tslearn/hdftools/hdftools.py b/tslearn/hdftools/hdftools.py
index 7bbfb7a..0de37f9 100644
--- a/tslearn/hdftools/hdftools.py
+++ b/tslearn/hdftools/hdftools.py
@@ -143,7 +143,8 @@ def _dicts_from_group(h5file, path):
     for key, item in h5file[path].items():
         if isinstance(item, h5py._hl.dataset.Dataset):
             if item.attrs.__contains__('dtype'):
-                ans[key] = item[()].astype(item.attrs['dtype'])
+                ans[key] = np.array(item.asstr()[()],
+                                    dtype=item.attrs['dtype'])
             else:
                 ans[key] = item[()]
         elif isinstance(item, h5py._hl.group.Group):
-- 
2.43.0


From 5f42948be6bab4a380d608a7f7a309571b5d580b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:07 +0000
Subject: [PATCH 56/61] fix: shapelet models restored from JSON can be saved as
 JSON again

---
 tslearn/shapelets/shapelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/shapelets/shapelets.py b/tslearn/shapelets/shapelets.py
index 8a76ccc..f74757b 100644
--- a/tslearn/shapelets/shapelets.py
+++ b/tslearn/shapelets/shapelets.py
@@ -987,7 +987,7 @@ class LearningShapelets(TimeSeriesMixin, ClassifierMixin, TransformerMixin, Base
                     int(sz): nb for sz, nb in model_params[p].items()
                 }
             setattr(inst, p, model_params[p])
-        inst._X_fit_dims = tuple(inst._X_fit_dims)
+        inst._X_fit_dims = tuple(int(dim) for dim in inst._X_fit_dims)
         inst._build_auxiliary_models()
 
         return inst
-- 
2.43.0


From b87b07417c6d84cf31cdb5900616d136110f22a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 57/61] fix: subsequence costs and envelopes of double tensors
 keep their precision

---
 tslearn/metrics/dtw_variants.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tslearn/metrics/dtw_variants.py b/tslearn/metrics/dtw_variants.py
index 5ad0a5c..d0a3e12 100644
--- a/tslearn/metrics/dtw_variants.py
+++ b/tslearn/metrics/dtw_variants.py
@@ -458,7 +458,7 @@ def _subsequence_cost_matrix(subseq, longseq, be=None):
     longseq = be.array(longseq)
     l1 = subseq.shape[0]
     l2 = longseq.shape[0]
-    cum_sum = be.full((l1 + 1, l2 + 1), be.inf)
+    cum_sum = be.full((l1 + 1, l2 + 1), be.inf, dtype=be.float64)
     cum_sum[0, :] = 0.0
 
     for i in range(l1):
@@ -865,8 +865,8 @@ def _lb_envelope(time_series, radius, be=None):
     be = instantiate_backend(be, time_series)
     time_series = be.array(time_series)
     sz, d = be.shape(time_series)
-    envelope_up = be.empty((sz, d))
-    envelope_down = be.empty((sz, d))
+    envelope_up = be.empty((sz, d), dtype=be.float64)
+    envelope_down = be.empty((sz, d), dtype=be.float64)
 
     for i in range(sz):
         min_idx = i - radius
-- 
2.43.0


From 165b547ae0635eff9c7c98279ac768637fcc3d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 58/61] fix: sigma_gak of tensors is computed in double
 precision

---
 tslearn/metrics/_gak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/_gak.py b/tslearn/metrics/_gak.py
index 42d0584..21e5977 100644
--- a/tslearn/metrics/_gak.py
+++ b/tslearn/metrics/_gak.py
@@ -93,7 +93,7 @@ def _sigma_gak(dataset, n_samples=100, random_state=None, be=None):
         dataset[sample_indices],
         metric="euclidean",
     )
-    return be.median(dists) * be.sqrt(sz)
+    return be.median(dists) * sz**0.5
 
 
 def gak(s1, s2, sigma=1.0, be=None):
-- 
2.43.0


From 0ba57c316bd6e192a3a35fad9b727613fc368338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:37 +0000
Subject: [PATCH 59/61] fix: TimeSeriesKMeans with DTW honours
 max_iter_barycenter

---
 tslearn/clustering/kmeans.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tslearn/clustering/kmeans.py b/tslearn/clustering/kmeans.py
index b86712f..770ca86 100644
--- a/tslearn/clustering/kmeans.py
+++ b/tslearn/clustering/kmeans.py
@@ -766,6 +766,7 @@ class TimeSeriesKMeans(
                     X=X[self.labels_ == k],
                     barycenter_size=None,
                     init_barycenter=self.cluster_centers_[k],
+                    max_iter=self.max_iter_barycenter,
                     metric_params=metric_params,
                     verbose=False,
                     n_jobs=self.n_jobs
-- 
2.43.0


From 67e7d425ecc9e707fdd66eb694eb6a9616522300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:11 +0000
Subject: [PATCH 60/61] fix: KShape accepts integer initial centroids

---
 tslearn/clustering/kshape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/clustering/kshape.py b/tslearn/clustering/kshape.py
index 562d1b5..7834402 100644
--- a/tslearn/clustering/kshape.py
+++ b/tslearn/clustering/kshape.py
@@ -165,7 +165,7 @@ class KShape(TimeSeriesCentroidBasedClusteringMixin,
 
     def _fit_one_init(self, X, rs):
         if hasattr(self.init, '__array__'):
-            self.cluster_centers_ = self.init.copy()
+            self.cluster_centers_ = numpy.array(self.init, dtype=float)
         elif self.init == "random":
             indices = rs.choice(X.shape[0], self.n_clusters, replace=False)
             self.cluster_centers_ = X[indices].copy()
-- 
2.43.0


From f2fd423efea72df8c87c95f8e519101dc1d0cce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:58 +0000
Subject: [PATCH 61/61] fix: initial barycenters may be padded with NaN

The number of time steps of the barycenter was read before its trailing
NaN were removed, and softdtw_barycenter kept them.
---
 tslearn/barycenters/dba.py     | 4 ++--
 tslearn/barycenters/softdtw.py | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/tslearn/barycenters/dba.py b/tslearn/barycenters/dba.py
index 87ed314..ff7bb29 100644
--- a/tslearn/barycenters/dba.py
+++ b/tslearn/barycenters/dba.py
@@ -213,12 +213,12 @@ def dtw_barycenter_averaging_petitjean(
     if init_barycenter is None:
         barycenter = _init_avg(X_, barycenter_size)
     else:
-        barycenter_size = init_barycenter.shape[0]
         barycenter = to_time_series(
             init_barycenter,
             remove_nans=True,
             be=backend
         )
+        barycenter_size = barycenter.shape[0]
     cost_prev, cost = numpy.inf, numpy.inf
     for it in range(max_iter):
         assign, cost = _petitjean_assignment(X_, barycenter, weights, metric_params, n_jobs)
@@ -720,12 +720,12 @@ def dtw_barycenter_averaging_one_init(
     if init_barycenter is None:
         barycenter = _init_avg(X_, barycenter_size)
     else:
-        barycenter_size = init_barycenter.shape[0]
         barycenter = to_time_series(
             init_barycenter,
             remove_nans=True,
             be=backend
         )
+        barycenter_size = barycenter.shape[0]
     cost_prev, cost = numpy.inf, numpy.inf
     for it in range(max_iter):
         list_p_k, cost = _mm_assignment(
diff --git a/tslearn/barycenters/softdtw.py b/tslearn/barycenters/softdtw.py
index bc4c522..fe7e986 100644
--- a/tslearn/barycenters/softdtw.py
+++ b/tslearn/barycenters/softdtw.py
@@ -13,7 +13,7 @@ from tslearn.backend import instantiate_backend
 from tslearn.metrics._soft_dtw import _njit_accumulated_matrix_from_distance_matrix, _njit_soft_dtw_grad
 from tslearn.metrics._masks import _njit_compute_mask, GLOBAL_CONSTRAINT_CODE
 from tslearn.preprocessing import TimeSeriesResampler
-from tslearn.utils import to_time_series_dataset
+from tslearn.utils import to_time_series, to_time_series_dataset
 from tslearn.utils.utils import _check_equal_size, _to_time_series
 
 from .utils import _set_weights
@@ -197,7 +197,11 @@ def softdtw_barycenter(
             resampled_X = TimeSeriesResampler().fit_transform(X_)
             barycenter = numpy.average(resampled_X, axis=0, weights=weights)
     else:
-        barycenter = init
+        barycenter = to_time_series(
+            init,
+            remove_nans=True,
+            be=instantiate_backend("numpy")
+        )
 
     metric_params['global_constraint'] = GLOBAL_CONSTRAINT_CODE[metric_params.get('global_constraint')]
 
-- 
2.43.0

