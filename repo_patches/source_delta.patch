From 6f1c3a20a64546f5babbb9d62e5581d6c43e3481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:17 +0000
Subject: [PATCH 01/18] fix: prediction_paths() of several rows used sub-batch
 positions as row numbers below depth 2

---
 bayesian_decision_tree/base_perpendicular.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/base_perpendicular.py b/bayesian_decision_tree/base_perpendicular.py
index 84a8b7f..d05cb01 100644
--- a/bayesian_decision_tree/base_perpendicular.py
+++ b/bayesian_decision_tree/base_perpendicular.py
@@ -63,11 +63,11 @@ class BasePerpendicularTree(BaseTree, ABC):
 
             if len(indices1) > 0 and not self.child1_.is_leaf():
                 paths1 = [paths[i] for i in indices1]
-                self.child1_._update_prediction_paths(X, indices1, paths1)
+                self.child1_._update_prediction_paths(X, indices[indices1], paths1)
 
             if len(indices2) > 0 and not self.child2_.is_leaf():
                 paths2 = [paths[i] for i in indices2]
-                self.child2_._update_prediction_paths(X, indices2, paths2)
+                self.child2_._update_prediction_paths(X, indices[indices2], paths2)
 
     @staticmethod
     def _create_merged_paths_array(n_rows):
-- 
2.43.0


From 07ed259149412fa142cfa7bf80840f4cd016acdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:17 +0000
Subject: [PATCH 02/18] fix: integer-typed X or y overflowed silently in
 differences, midpoints and squares

---
 bayesian_decision_tree/base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index 91af875..89db3d3 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -224,14 +224,15 @@ class BaseTree(ABC, BaseEstimator):
 
     @staticmethod
     def _ensure_float64(data):
-        if data.dtype in (
-                np.int8, np.int16, np.int32, np.int64,
-                np.uint8, np.uint16, np.uint32, np.uint64,
-                np.float32, np.float64):
+        if data.dtype in (np.float32, np.float64):
             return data
 
         # convert to np.float64 for performance reasons (matrices with floats but of type object are very slow)
+        # and because integer arithmetic on the data (differences, midpoints, squares) would overflow silently
         X_float = data.astype(np.float64)
+        if np.issubdtype(data.dtype, np.integer):
+            return X_float
+
         if not np.all(data == X_float):
             raise ValueError('Cannot convert data matrix to np.float64 without loss of precision. Please check your data.')
 
-- 
2.43.0


From 63aa6e2f0ba30e87580aebf09c99e33f3e9a6d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:17 +0000
Subject: [PATCH 03/18] fix: pandas targets were indexed by label instead of by
 position, tuples were rejected

---
 bayesian_decision_tree/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index 89db3d3..287e7d8 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -54,8 +54,7 @@ class BaseTree(ABC, BaseEstimator):
         """
 
         # validation and input transformation
-        if isinstance(y, list):
-            y = np.array(y)
+        y = np.asarray(y)  # positional indexing is needed, which e.g. pandas.Series doesn't provide
 
         y = y.squeeze()
         y = self._ensure_float64(y)
-- 
2.43.0


From 136b06d746a88f96805141877846030efbeb04d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:17 +0000
Subject: [PATCH 04/18] fix: split value could round down to (or overflow
 beyond) the data it separates

---
 bayesian_decision_tree/base_perpendicular.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bayesian_decision_tree/base_perpendicular.py b/bayesian_decision_tree/base_perpendicular.py
index d05cb01..710a192 100644
--- a/bayesian_decision_tree/base_perpendicular.py
+++ b/bayesian_decision_tree/base_perpendicular.py
@@ -143,10 +143,12 @@ class BasePerpendicularTree(BaseTree, ABC):
             # store split info, create children and continue training them if there's data left to split
             self.split_dimension_ = best_split_dimension
             self.split_feature_name_ = feature_names[best_split_dimension]
-            self.split_value_ = 0.5 * (
-                    X[indices1[-1], best_split_dimension]
-                    + X[indices2[0], best_split_dimension]
-            )
+            x1 = X[indices1[-1], best_split_dimension]
+            x2 = X[indices2[0], best_split_dimension]
+            self.split_value_ = 0.5*x1 + 0.5*x2
+            if not x1 < self.split_value_ <= x2:
+                # the midpoint of two neighbouring floats rounds to one of the two
+                self.split_value_ = x2
             self.log_p_data_no_split_ = log_p_data_no_split
             self.best_log_p_data_split_ = best_log_p_data_split
 
-- 
2.43.0


From 3bcb23c26a075e56978e29d48a8c7bc2f936a979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:17 +0000
Subject: [PATCH 05/18] fix: hyperplane split candidates were determined on
 unsorted projections

---
 bayesian_decision_tree/hyperplane_optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/hyperplane_optimization.py b/bayesian_decision_tree/hyperplane_optimization.py
index 7608640..302abc3 100644
--- a/bayesian_decision_tree/hyperplane_optimization.py
+++ b/bayesian_decision_tree/hyperplane_optimization.py
@@ -50,7 +50,7 @@ class HyperplaneOptimizationFunction:
         # compute distance of all points to the hyperplane: https://mathinsight.org/distance_point_plane
         projections = self.X @ hyperplane_normal  # up to an additive constant which doesn't matter to distance ordering
         sort_indices = np.argsort(projections)
-        split_indices = 1 + np.where(np.abs(np.diff(projections)) > self.split_precision)[0]  # we can only split between *different* data points
+        split_indices = 1 + np.where(np.abs(np.diff(projections[sort_indices])) > self.split_precision)[0]  # we can only split between *different* data points
         if len(split_indices) == 0:
             # no split possible along this dimension
             return -self.log_p_data_no_split
-- 
2.43.0


From 981074d7f24c002e7f230b643870e08ebe555f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:17 +0000
Subject: [PATCH 06/18] fix: regression beta update ignored delta in the weight
 of the mean shift

---
 bayesian_decision_tree/regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/regression.py b/bayesian_decision_tree/regression.py
index d3aa5f7..7110ae8 100755
--- a/bayesian_decision_tree/regression.py
+++ b/bayesian_decision_tree/regression.py
@@ -99,7 +99,7 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
         mu_post = (kappa * mu + n_delta * y_sum / n) / kappa_post
         alpha_post = alpha + 0.5*n_delta
         beta_post = beta + 0.5 * delta * (y_squared_sum - y_sum ** 2 / n) + 0.5 * kappa * n_delta * (
-                    y_sum / n - mu) ** 2 / (kappa + n)
+                    y_sum / n - mu) ** 2 / kappa_post
 
         return mu_post, kappa_post, alpha_post, beta_post
 
-- 
2.43.0


From 32878ba8a724c5afbad495060710b9220c3b1ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:20 +0000
Subject: [PATCH 07/18] fix: classification trees could not be fitted with
 their default prior

---
 bayesian_decision_tree/classification.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/classification.py b/bayesian_decision_tree/classification.py
index a60bae2..46d52c0 100755
--- a/bayesian_decision_tree/classification.py
+++ b/bayesian_decision_tree/classification.py
@@ -49,16 +49,18 @@ class BaseClassificationTree(BaseTree, ABC, ClassifierMixin):
         if y.ndim != 1:
             raise ValueError('y should have 1 dimension but has {}'.format(y.ndim))
 
-        n_classes = len(self.prior)
+        n_classes = len(self.prior) if self.prior is not None else max(2, len(np.unique(y)))
         if not np.all(np.unique(y) == np.arange(0, n_classes)):
             raise ValueError('Expected target values 0..{} but found {}..{}'.format(n_classes - 1, y.min(), y.max()))
 
+        self.n_classes_ = n_classes
+
     def _get_prior(self, n_data, n_dim):
         if self.prior is not None:
             return self.prior
         else:
             prior_pseudo_observation_count = max(1, n_data//100)
-            return prior_pseudo_observation_count * np.ones(n_dim)
+            return prior_pseudo_observation_count * np.ones(self.n_classes_)
 
     def _compute_log_p_data_no_split(self, y, prior):
         posterior = self._compute_posterior(y, prior)
-- 
2.43.0


From 262455ebd454a258fee620baa857a594f15d91dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:20 +0000
Subject: [PATCH 08/18] fix: raw leaf data of an unsplit tree was unavailable
 with the default prior

---
 bayesian_decision_tree/base_hyperplane.py    | 1 +
 bayesian_decision_tree/base_perpendicular.py | 1 +
 bayesian_decision_tree/classification.py     | 2 +-
 bayesian_decision_tree/regression.py         | 2 +-
 4 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/base_hyperplane.py b/bayesian_decision_tree/base_hyperplane.py
index 27e0f1d..3bae8b5 100644
--- a/bayesian_decision_tree/base_hyperplane.py
+++ b/bayesian_decision_tree/base_hyperplane.py
@@ -118,6 +118,7 @@ class BaseHyperplaneTree(BaseTree, ABC):
         # compute posterior
         self.n_dim_ = X.shape[1]
         self.n_data_ = n_data
+        self.prior_ = prior
         self.posterior_ = self._compute_posterior(y, prior)
 
     def _compute_child1_and_child2_indices(self, X, indices, dense):
diff --git a/bayesian_decision_tree/base_perpendicular.py b/bayesian_decision_tree/base_perpendicular.py
index 710a192..41b27a1 100644
--- a/bayesian_decision_tree/base_perpendicular.py
+++ b/bayesian_decision_tree/base_perpendicular.py
@@ -188,6 +188,7 @@ class BasePerpendicularTree(BaseTree, ABC):
         # compute posterior
         self.n_dim_ = n_dim
         self.n_data_ = n_data
+        self.prior_ = prior
         self.posterior_ = self._compute_posterior(y_any, prior)  # any dim works as the order doesn't matter
 
     def _compute_child1_and_child2_indices(self, X, indices, dense):
diff --git a/bayesian_decision_tree/classification.py b/bayesian_decision_tree/classification.py
index 46d52c0..6295a76 100755
--- a/bayesian_decision_tree/classification.py
+++ b/bayesian_decision_tree/classification.py
@@ -115,7 +115,7 @@ class BaseClassificationTree(BaseTree, ABC, ClassifierMixin):
 
     def _get_raw_leaf_data_internal(self):
         # prior and posterior raw data
-        return np.array([self.prior, self.posterior_])
+        return np.array([getattr(self, 'prior_', self.prior), self.posterior_])
 
 
 class PerpendicularClassificationTree(BasePerpendicularTree, BaseClassificationTree):
diff --git a/bayesian_decision_tree/regression.py b/bayesian_decision_tree/regression.py
index 7110ae8..923e322 100755
--- a/bayesian_decision_tree/regression.py
+++ b/bayesian_decision_tree/regression.py
@@ -121,7 +121,7 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
 
     def _get_raw_leaf_data_internal(self):
         # prior and posterior raw data
-        return np.array([self.prior, self.posterior_])
+        return np.array([getattr(self, 'prior_', self.prior), self.posterior_])
 
 
 class PerpendicularRegressionTree(BasePerpendicularTree, BaseRegressionTree):
-- 
2.43.0


From 67603b71a6d5e7a0e516366a5b503057d7fe93dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:20 +0000
Subject: [PATCH 09/18] fix: sparse boolean matrices were rejected

---
 bayesian_decision_tree/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index 287e7d8..3390527 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -232,7 +232,7 @@ class BaseTree(ABC, BaseEstimator):
         if np.issubdtype(data.dtype, np.integer):
             return X_float
 
-        if not np.all(data == X_float):
+        if (data != X_float).sum() > 0:
             raise ValueError('Cannot convert data matrix to np.float64 without loss of precision. Please check your data.')
 
         return X_float
-- 
2.43.0


From f54d366bbc5d7c71ee7d4e2eca881840bd3fd6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:51 +0000
Subject: [PATCH 10/18] fix: a hyperplane split exactly as probable as no split
 must not be made

---
 bayesian_decision_tree/hyperplane_optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/hyperplane_optimization.py b/bayesian_decision_tree/hyperplane_optimization.py
index 302abc3..f9aa8e0 100644
--- a/bayesian_decision_tree/hyperplane_optimization.py
+++ b/bayesian_decision_tree/hyperplane_optimization.py
@@ -26,7 +26,7 @@ class HyperplaneOptimizationFunction:
         # results of the optimization - to be set later during the actual optimization
         self.function_evaluations = 0
         self.best_log_p_data_split = log_p_data_no_split
-        self.best_cumulative_distances = 0
+        self.best_cumulative_distances = np.inf  # a split that is only as good as no split is not accepted
         self.best_hyperplane_normal = None
         self.best_hyperplane_origin = None
 
-- 
2.43.0


From 5e18c599b14c3cb667538a88e6d6e5101152aeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:57 +0000
Subject: [PATCH 11/18] fix: zero-dimensional feature arrays are refused with
 ValueError

---
 bayesian_decision_tree/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index 3390527..9cd31c8 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -211,6 +211,9 @@ class BaseTree(ABC, BaseEstimator):
             if X.ndim == 1:
                 X = np.expand_dims(X, 0)
 
+            if X.ndim == 0:
+                raise ValueError('X should have 2 dimensions but has 0')
+
             if feature_names is None:
                 feature_names = ['x{}'.format(i) for i in range(X.shape[1])]
 
-- 
2.43.0


From 5e784d0992bee3f9d05ceef5c5d2e0e29b272d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:06 +0000
Subject: [PATCH 12/18] fix: a failing fit leaves the model as it was before

---
 bayesian_decision_tree/base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index 9cd31c8..0e74c85 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -53,6 +53,15 @@ class BaseTree(ABC, BaseEstimator):
         .. [1] https://arxiv.org/abs/1901.03214
         """
 
+        state = self.__dict__.copy()
+        try:
+            return self._checked_fit(X, y, verbose, feature_names)
+        except BaseException:
+            # a failed fit leaves the model as it was
+            self.__dict__ = state
+            raise
+
+    def _checked_fit(self, X, y, verbose, feature_names):
         # validation and input transformation
         y = np.asarray(y)  # positional indexing is needed, which e.g. pandas.Series doesn't provide
 
-- 
2.43.0


From 155f8708100652529a80068a06cfdd296ab328a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:46:22 +0000
Subject: [PATCH 13/18] fix: regression on np.float32 targets lost all
 precision in sums of squares

---
 bayesian_decision_tree/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index 0e74c85..ddc6c37 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -67,6 +67,7 @@ class BaseTree(ABC, BaseEstimator):
 
         y = y.squeeze()
         y = self._ensure_float64(y)
+        y = y.astype(np.float64, copy=False)  # sums of squares of np.float32 are too coarse
         self._check_target(y)
 
         X, feature_names = self._normalize_data_and_feature_names(X, feature_names)
-- 
2.43.0


From 242fc82580ad24fa7f94a43585323570298ecf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:46:22 +0000
Subject: [PATCH 14/18] fix: gaps and midpoints of np.float32 features were
 rounded to np.float32

---
 bayesian_decision_tree/base_perpendicular.py      | 1 +
 bayesian_decision_tree/hyperplane_optimization.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/bayesian_decision_tree/base_perpendicular.py b/bayesian_decision_tree/base_perpendicular.py
index 41b27a1..2bdb001 100644
--- a/bayesian_decision_tree/base_perpendicular.py
+++ b/bayesian_decision_tree/base_perpendicular.py
@@ -113,6 +113,7 @@ class BasePerpendicularTree(BaseTree, ABC):
             if not dense:
                 X_dim_sorted = self._to_array(X_dim_sorted)
 
+            X_dim_sorted = X_dim_sorted.astype(np.float64, copy=False)  # gaps of np.float32 would be rounded
             split_indices = 1 + np.where(np.abs(np.diff(X_dim_sorted)) > self.split_precision)[0]  # we can only split between *different* data points
             if len(split_indices) == 0:
                 # no split possible along this dimension
diff --git a/bayesian_decision_tree/hyperplane_optimization.py b/bayesian_decision_tree/hyperplane_optimization.py
index f9aa8e0..d8db350 100644
--- a/bayesian_decision_tree/hyperplane_optimization.py
+++ b/bayesian_decision_tree/hyperplane_optimization.py
@@ -69,6 +69,7 @@ class HyperplaneOptimizationFunction:
                 p1 = p1.toarray()[0]
                 p2 = p2.toarray()[0]
 
+            p1 = p1.astype(np.float64, copy=False)  # the middle of np.float32 points could round to one of the two
             hyperplane_origin = 0.5 * (p1 + p2)  # middle between the points that are being split
             projections_with_origin = projections - np.dot(hyperplane_normal, hyperplane_origin)
             cumulative_distances = np.sum(np.abs(projections_with_origin))
-- 
2.43.0


From 4f729f5b9d8046923cc4ff7d1a1d9f888fb8457d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:46:22 +0000
Subject: [PATCH 15/18] fix: regression targets with a large common offset lost
 all precision in sums of squares

---
 bayesian_decision_tree/regression.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/regression.py b/bayesian_decision_tree/regression.py
index 923e322..cfdcc41 100755
--- a/bayesian_decision_tree/regression.py
+++ b/bayesian_decision_tree/regression.py
@@ -26,7 +26,17 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
         if y.ndim != 1:
             raise ValueError('y should have 1 dimension but has {}'.format(y.ndim))
 
+    @staticmethod
+    def _center(y, prior):
+        # moving the targets and the prior mean by the same amount changes neither the evidence nor beta, but squares of
+        # targets that are large compared to their spread would cancel; moving by one of the targets adds no rounding
+        mu, kappa, alpha, beta = prior
+        center = np.partition(y, len(y)//2)[len(y)//2]
+
+        return y - center, (mu - center, kappa, alpha, beta)
+
     def _compute_log_p_data_no_split(self, y, prior):
+        y, prior = self._center(y, prior)
         y_sum = y.sum()
         y_squared_sum = (y ** 2).sum()
         n = len(y)
@@ -37,6 +47,7 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
         return log_p_prior + log_p_data
 
     def _compute_log_p_data_split(self, y, prior, n_dim, split_indices):
+        y, prior = self._center(y, prior)
         n = len(y)
         n1 = np.arange(1, n)
         n2 = n - n1
@@ -87,8 +98,12 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
         n = len(y)
         y_sum = y.sum()
         y_squared_sum = (y ** 2).sum()
+        mu_post, kappa_post, alpha_post, _ = self._compute_posterior_internal(prior, n, y_sum, y_squared_sum, delta)
 
-        return self._compute_posterior_internal(prior, n, y_sum, y_squared_sum, delta)
+        y, prior = self._center(y, prior)
+        beta_post = self._compute_posterior_internal(prior, n, y.sum(), (y ** 2).sum(), delta)[-1]
+
+        return mu_post, kappa_post, alpha_post, beta_post
 
     def _compute_posterior_internal(self, prior, n, y_sum, y_squared_sum, delta=1):
         mu, kappa, alpha, beta = prior
-- 
2.43.0


From b5e767c992ccbef7bb5860086793a56aa909edbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:43:14 +0000
Subject: [PATCH 16/18] fix: hyperplane directions of np.float32 or integer
 type

---
 bayesian_decision_tree/hyperplane_optimization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayesian_decision_tree/hyperplane_optimization.py b/bayesian_decision_tree/hyperplane_optimization.py
index d8db350..d549d90 100644
--- a/bayesian_decision_tree/hyperplane_optimization.py
+++ b/bayesian_decision_tree/hyperplane_optimization.py
@@ -38,6 +38,7 @@ class HyperplaneOptimizationFunction:
 
         # catch some special cases and normalize to unit length
         hyperplane_normal = np.nan_to_num(hyperplane_normal)
+        hyperplane_normal = hyperplane_normal.astype(np.float64, copy=False)  # np.float32 is too coarse for a unit vector
         if np.all(hyperplane_normal == 0):
             hyperplane_normal[0] = 1
 
@@ -197,6 +198,7 @@ class RandomTwoPointOptimizer(HyperplaneOptimizer):
                 p1 = p1.toarray()[0]
                 p2 = p2.toarray()[0]
 
+            p1 = p1.astype(np.float64, copy=False)  # the difference of np.float32 points would be rounded
             normal = p2-p1
             if normal[0] < 0:
                 normal *= -1  # make sure the first coordinate is positive to match the scipy search space
-- 
2.43.0


From 5079affcf8433f6eee9ad7f756d3b53515d3f6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:51:44 +0000
Subject: [PATCH 17/18] fix: targets in groups far from each other lost all
 precision in sums of squares

---
 bayesian_decision_tree/regression.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bayesian_decision_tree/regression.py b/bayesian_decision_tree/regression.py
index cfdcc41..96b5f74 100755
--- a/bayesian_decision_tree/regression.py
+++ b/bayesian_decision_tree/regression.py
@@ -29,9 +29,11 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
     @staticmethod
     def _center(y, prior):
         # moving the targets and the prior mean by the same amount changes neither the evidence nor beta, but squares of
-        # targets that are large compared to their spread would cancel; moving by one of the targets adds no rounding
+        # targets that are large compared to their spread would cancel; moving by one of the targets adds no rounding.
+        # Take the one closest to the prior mean: further away, the distance to the prior mean outweighs the spread anyway
         mu, kappa, alpha, beta = prior
-        center = np.partition(y, len(y)//2)[len(y)//2]
+        distance = np.abs(y - mu)
+        center = y[distance == distance.min()].min()
 
         return y - center, (mu - center, kappa, alpha, beta)
 
@@ -52,9 +54,9 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
         n1 = np.arange(1, n)
         n2 = n - n1
         y_sum1 = y.cumsum()[:-1]
-        y_sum2 = y.sum() - y_sum1
+        y_sum2 = y[:0:-1].cumsum()[::-1]
         y_squared_sum1 = (y[:-1] ** 2).cumsum()
-        y_squared_sum2 = (y ** 2).sum() - y_squared_sum1
+        y_squared_sum2 = (y[:0:-1] ** 2).cumsum()[::-1]
 
         if len(split_indices) != len(y)-1:
             # we are *not* splitting between all data points -> indexing necessary
-- 
2.43.0


From 8d82a9297f3106a3ed08dafc6a1be4bacb6f8a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:21:57 +0000
Subject: [PATCH 18/18] fix: np.float32 queries were compared with a threshold
 rounded to np.float32

---
 bayesian_decision_tree/base_perpendicular.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayesian_decision_tree/base_perpendicular.py b/bayesian_decision_tree/base_perpendicular.py
index 2bdb001..1997103 100644
--- a/bayesian_decision_tree/base_perpendicular.py
+++ b/bayesian_decision_tree/base_perpendicular.py
@@ -197,6 +197,7 @@ class BasePerpendicularTree(BaseTree, ABC):
         if not dense:
             X_split = self._to_array(X_split)
 
+        X_split = X_split.astype(np.float64, copy=False)  # comparisons of np.float32 would round the split value
         indices1 = np.where(X_split < self.split_value_)[0]
         indices2 = np.where(X_split >= self.split_value_)[0]
 
-- 
2.43.0

