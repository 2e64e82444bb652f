From eab58a08bf8b6ea3c1278ac8a2e88f767e926a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:43 +0000
Subject: [PATCH 01/33] fix: pass the bare row to fit_partial in
 BaseTransformer.fit

---
 pysad/core/base_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/core/base_transformer.py b/pysad/core/base_transformer.py
index 62ff4e9..5d77f87 100644
--- a/pysad/core/base_transformer.py
+++ b/pysad/core/base_transformer.py
@@ -73,7 +73,7 @@ class BaseTransformer(ABC):
         Returns:
             object: The fitted transformer
         """
-        for xi in _iterate(X):
+        for xi, _ in _iterate(X):
             self.fit_partial(xi)
 
         return self
-- 
2.43.0


From d5d19a3ad5252fd8a53fd3805740968fb9bae40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:43 +0000
Subject: [PATCH 02/33] fix: build every window's metric with the configured
 keyword arguments

---
 pysad/evaluation/windowed_metric.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysad/evaluation/windowed_metric.py b/pysad/evaluation/windowed_metric.py
index 31e93ae..d2d5eac 100644
--- a/pysad/evaluation/windowed_metric.py
+++ b/pysad/evaluation/windowed_metric.py
@@ -21,6 +21,7 @@ class WindowedMetric(BaseMetric):
         self.ignore_nonempty_last = ignore_nonempty_last
         self.window_size = window_size
         self.metric_cls = metric_cls
+        self.metric_kwargs = kwargs
 
         self.metric = self._init_metric(**kwargs)
 
@@ -51,7 +52,7 @@ class WindowedMetric(BaseMetric):
             self.num_windows += 1
             score = self.metric.get()
             self.score_meter.update(score)
-            self.metric = self._init_metric()
+            self.metric = self._init_metric(**self.metric_kwargs)
 
         return self
 
-- 
2.43.0


From 050c2feb110bf7bc7bdd99a27d7d1544993e58bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:43 +0000
Subject: [PATCH 03/33] fix: pass RunningStatistic keyword arguments to the
 wrapped statistic

---
 pysad/statistics/running_statistic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysad/statistics/running_statistic.py b/pysad/statistics/running_statistic.py
index 7b37aa3..cd8c5eb 100644
--- a/pysad/statistics/running_statistic.py
+++ b/pysad/statistics/running_statistic.py
@@ -11,9 +11,9 @@ class RunningStatistic(BaseStatistic):
     """
 
     def __init__(self, statistic_cls, window_size, **kwargs):
-        super().__init__(**kwargs)
+        super().__init__()
         self.statistic_cls = statistic_cls
-        self.statistic = self.statistic_cls()
+        self.statistic = self.statistic_cls(**kwargs)
 
         self.window_size = window_size
         self.window = []
-- 
2.43.0


From 7fdcee3c254977886c7b4a1c2bbac54f15623d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:43 +0000
Subject: [PATCH 04/33] fix: never report a negative variance

---
 pysad/statistics/variance_meter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysad/statistics/variance_meter.py b/pysad/statistics/variance_meter.py
index edfd3e5..60c71e2 100644
--- a/pysad/statistics/variance_meter.py
+++ b/pysad/statistics/variance_meter.py
@@ -2,6 +2,7 @@ from pysad.core.base_statistic import UnivariateStatistic
 from pysad.statistics.count_meter import CountMeter
 from pysad.statistics.sum_meter import SumMeter
 from pysad.statistics.sum_squares_meter import SumSquaresMeter
+import numpy as np
 
 
 class VarianceMeter(UnivariateStatistic):
@@ -62,4 +63,5 @@ class VarianceMeter(UnivariateStatistic):
 
         var = (sum_squares - (sum**2) / count) / count
 
-        return var
+        # Rounding errors may make the difference above slightly negative.
+        return np.maximum(var, 0.0)
-- 
2.43.0


From fe46f963e6ea90528aa858124aa0bd2c0c7a8791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:43 +0000
Subject: [PATCH 05/33] fix: use all scores for the variance when running
 statistics are off

---
 pysad/transform/probability_calibration/gaussian_tail.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/transform/probability_calibration/gaussian_tail.py b/pysad/transform/probability_calibration/gaussian_tail.py
index db9eb80..fb9e898 100644
--- a/pysad/transform/probability_calibration/gaussian_tail.py
+++ b/pysad/transform/probability_calibration/gaussian_tail.py
@@ -23,7 +23,7 @@ class GaussianTailProbabilityCalibrator(BasePostprocessor):
             self.var_meter = RunningStatistic(VarianceMeter, self.window_size)
         else:
             self.avg_meter = AverageMeter()
-            self.var_meter = RunningStatistic(VarianceMeter, self.window_size)
+            self.var_meter = VarianceMeter()
 
     def fit_partial(self, score):
         """Fits particular (next) timestep's score to train the postprocessor.
-- 
2.43.0


From bed8bcda34d723d84476295a93f2fa6bd8dde5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:43 +0000
Subject: [PATCH 06/33] fix: accept an array as initial window of
 HalfSpaceTrees

---
 pysad/models/half_space_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/half_space_trees.py b/pysad/models/half_space_trees.py
index ea22e9a..2aaf177 100644
--- a/pysad/models/half_space_trees.py
+++ b/pysad/models/half_space_trees.py
@@ -42,7 +42,7 @@ class HalfSpaceTrees(BaseModel):
 
         self.is_first_window = True
         self.step = 0
-        if initial_window_X:
+        if initial_window_X is not None:
             self.fit(initial_window_X)
 
     def _build_single_hs_tree(self, mins, maxes, current_depth):
-- 
2.43.0


From c1f809506e861849a3e56bec1fb09b304b5d0750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:43 +0000
Subject: [PATCH 07/33] fix: reference window model with window_size 1 and no
 initial window

---
 pysad/models/integrations/reference_window_model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pysad/models/integrations/reference_window_model.py b/pysad/models/integrations/reference_window_model.py
index d29da6c..66a13fe 100644
--- a/pysad/models/integrations/reference_window_model.py
+++ b/pysad/models/integrations/reference_window_model.py
@@ -63,9 +63,10 @@ class ReferenceWindowModel(PYODModel):
         if y is not None:
             self.cur_window_y.append(y)
 
-        if not self.initial_ref_window and len(
-                self.cur_window_X) < self.window_size and (
-                self.reference_window_X is None or len(self.reference_window_X) < self.window_size):
+        if self.reference_window_X is None or (
+                not self.initial_ref_window and len(
+                    self.cur_window_X) < self.window_size and len(
+                    self.reference_window_X) < self.window_size):
             self.reference_window_X = self.cur_window_X.copy()
             self.reference_window_y = self.cur_window_y.copy() if y is not None else None
             self._fit_model()
-- 
2.43.0


From 391b80ad0ffe94f69a6dbc2fe56da809e8e7275b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:43 +0000
Subject: [PATCH 08/33] fix: keep exactly the last tree_size points in every
 random cut tree

---
 pysad/models/robust_random_cut_forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/robust_random_cut_forest.py b/pysad/models/robust_random_cut_forest.py
index 9168233..76d4800 100644
--- a/pysad/models/robust_random_cut_forest.py
+++ b/pysad/models/robust_random_cut_forest.py
@@ -35,7 +35,7 @@ class RobustRandomCutForest(BaseModel):
             object: Returns the self.
         """
         for tree in self.forest:
-            if len(tree.leaves) > self.tree_size:
+            if len(tree.leaves) >= self.tree_size:
                 tree.forget_point(self.index - self.tree_size)
 
             tree.insert_point(X, index=self.index)
-- 
2.43.0


From f89befb8ba00862d97aa8f47d8285d3edf1b3e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:43 +0000
Subject: [PATCH 09/33] fix: score with the current Inqmad state instead of the
 one of the first call

---
 pysad/models/inqmad.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pysad/models/inqmad.py b/pysad/models/inqmad.py
index 9a9f167..4c420f2 100644
--- a/pysad/models/inqmad.py
+++ b/pysad/models/inqmad.py
@@ -242,7 +242,6 @@ class InqMeasurement():
 
   
 
-  @partial(jit, static_argnums=(0,))
   def predict(self, values):
     num_batches = InqMeasurement.obtain_params_batches(values, self.batch_size)
     results = None
-- 
2.43.0


From b7b7556be9b4965fe7b096457eec81e6620fcc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:43 +0000
Subject: [PATCH 10/33] fix: keep only the values KNNCAD and RelativeEntropy
 still need

---
 pysad/models/knn_cad.py          | 1 +
 pysad/models/relative_entropy.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pysad/models/knn_cad.py b/pysad/models/knn_cad.py
index d4db83f..d3c39b8 100644
--- a/pysad/models/knn_cad.py
+++ b/pysad/models/knn_cad.py
@@ -47,6 +47,7 @@ class KNNCAD(BaseModel):
             self.to_init = False
 
         self.buf.append(X[0])
+        self.buf = self.buf[-self.dim:]
         self.record_count += 1
         if len(self.buf) < self.dim:
             return self
diff --git a/pysad/models/relative_entropy.py b/pysad/models/relative_entropy.py
index be824b2..5455cc5 100644
--- a/pysad/models/relative_entropy.py
+++ b/pysad/models/relative_entropy.py
@@ -58,6 +58,7 @@ class RelativeEntropy(BaseModel):
             object: Returns the self.
         """
         self.util.append(X)
+        self.util = self.util[-self.W:]
         if len(self.util) >= self.W:
 
             # Extracting current window
-- 
2.43.0


From 1cb7b43397e62446c7c7cacf4aaab62f3c08ee4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:43 +0000
Subject: [PATCH 11/33] fix: draw the matrix of a random projector once

---
 pysad/transform/projection/random_projector.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pysad/transform/projection/random_projector.py b/pysad/transform/projection/random_projector.py
index f66a782..66ca0bd 100644
--- a/pysad/transform/projection/random_projector.py
+++ b/pysad/transform/projection/random_projector.py
@@ -12,6 +12,7 @@ class BaseSKLearnProjector(BaseTransformer):
             num_components (int): The number of dimensions that the target will be projected into.
         """
         super().__init__(num_components)
+        self._fitted_projector = None
 
     @property
     @abstractmethod
@@ -43,7 +44,10 @@ class BaseSKLearnProjector(BaseTransformer):
         """
         x = X.reshape(1, -1)
 
-        return self._projector().fit_transform(x).reshape(-1)
+        if self._fitted_projector is None:
+            self._fitted_projector = self._projector().fit(x)
+
+        return self._fitted_projector.transform(x).reshape(-1)
 
 
 class GaussianRandomProjector(BaseSKLearnProjector):
-- 
2.43.0


From 0c83ad4785745f2b7f6a1f5a5a93506df91e70f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:43 +0000
Subject: [PATCH 12/33] fix: return a vector from StreamhashProjector with one
 component

---
 pysad/transform/projection/streamhash_projector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/transform/projection/streamhash_projector.py b/pysad/transform/projection/streamhash_projector.py
index 863464d..4ac2df8 100644
--- a/pysad/transform/projection/streamhash_projector.py
+++ b/pysad/transform/projection/streamhash_projector.py
@@ -47,7 +47,7 @@ class StreamhashProjector(BaseTransformer):
                        for f in feature_names]
                       for k in self.keys])
 
-        Y = np.dot(X, R.T).squeeze()
+        Y = np.dot(X, R.T).reshape(-1)
 
         return Y
 
-- 
2.43.0


From e59907cee90cee07f24e8ac08179f13ef629e633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:43 +0000
Subject: [PATCH 13/33] fix: zero the LODA projection entries once instead of
 on every fit

---
 pysad/models/loda.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pysad/models/loda.py b/pysad/models/loda.py
index 5c034bb..bd211e2 100644
--- a/pysad/models/loda.py
+++ b/pysad/models/loda.py
@@ -39,14 +39,16 @@ class LODA(BaseModel):
             self.n_zero_components = self.num_features - \
                 np.int32(n_nonzero_components)
 
+            for i in range(self.n_random_cuts):
+                rands = np.random.permutation(self.num_features)[
+                    :self.n_zero_components]
+                self.projections_[i, rands] = 0.
+
             self.to_init = False
 
         X = X.reshape(1, -1)
 
         for i in range(self.n_random_cuts):
-            rands = np.random.permutation(self.num_features)[
-                :self.n_zero_components]
-            self.projections_[i, rands] = 0.
             projected_data = self.projections_[i, :].dot(X.T)
             self.histograms_[i, :], self.limits_[i, :] = np.histogram(
                 projected_data, bins=self.n_bins, density=False)
-- 
2.43.0


From 3d81be8090d65c208cb952a6055ba6534cb1a735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:43 +0000
Subject: [PATCH 14/33] fix: remember instances by value

---
 pysad/models/exact_storm.py                                | 2 +-
 pysad/models/integrations/reference_window_model.py        | 7 ++++---
 pysad/models/median_absolute_deviation.py                  | 2 ++
 pysad/models/relative_entropy.py                           | 2 +-
 pysad/models/robust_random_cut_forest.py                   | 2 ++
 pysad/models/standard_absolute_deviation.py                | 2 ++
 pysad/transform/preprocessing/seasonal_trend_decomposer.py | 2 +-
 7 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/pysad/models/exact_storm.py b/pysad/models/exact_storm.py
index 436a42e..f6c9b00 100644
--- a/pysad/models/exact_storm.py
+++ b/pysad/models/exact_storm.py
@@ -28,7 +28,7 @@ class ExactStorm(BaseModel):
         Returns:
             object: self.
         """
-        self.window.update(X)
+        self.window.update(np.array(X))
 
         return self
 
diff --git a/pysad/models/integrations/reference_window_model.py b/pysad/models/integrations/reference_window_model.py
index 66a13fe..4757b8e 100644
--- a/pysad/models/integrations/reference_window_model.py
+++ b/pysad/models/integrations/reference_window_model.py
@@ -1,3 +1,4 @@
+import copy
 from .pyod_model import PYODModel
 import numpy as np
 
@@ -39,8 +40,8 @@ class ReferenceWindowModel(PYODModel):
         self.cur_window_X = []
         self.cur_window_y = []
 
-        self.reference_window_X = initial_window_X
-        self.reference_window_y = initial_window_y
+        self.reference_window_X = copy.deepcopy(initial_window_X)
+        self.reference_window_y = copy.deepcopy(initial_window_y)
 
         if self.reference_window_X is not None:
             self._fit_model()
@@ -58,7 +59,7 @@ class ReferenceWindowModel(PYODModel):
         Returns:
             object: self.
         """
-        self.cur_window_X.append(X)
+        self.cur_window_X.append(np.array(X))
 
         if y is not None:
             self.cur_window_y.append(y)
diff --git a/pysad/models/median_absolute_deviation.py b/pysad/models/median_absolute_deviation.py
index 3ff3015..fd67d94 100644
--- a/pysad/models/median_absolute_deviation.py
+++ b/pysad/models/median_absolute_deviation.py
@@ -1,3 +1,4 @@
+import numpy as np
 from pysad.core.base_model import BaseModel
 from pysad.statistics.median_meter import MedianMeter
 
@@ -32,6 +33,7 @@ class MedianAbsoluteDeviation(BaseModel):
             object: Returns the self.
         """
         assert len(X) == 1  # Only for time series
+        X = np.array(X)
 
         self.median_meter.update(X)
         deviation = abs(X - self.median_meter.get())
diff --git a/pysad/models/relative_entropy.py b/pysad/models/relative_entropy.py
index 5455cc5..6863bb0 100644
--- a/pysad/models/relative_entropy.py
+++ b/pysad/models/relative_entropy.py
@@ -57,7 +57,7 @@ class RelativeEntropy(BaseModel):
         Returns:
             object: Returns the self.
         """
-        self.util.append(X)
+        self.util.append(np.array(X))
         self.util = self.util[-self.W:]
         if len(self.util) >= self.W:
 
diff --git a/pysad/models/robust_random_cut_forest.py b/pysad/models/robust_random_cut_forest.py
index 76d4800..9c30f05 100644
--- a/pysad/models/robust_random_cut_forest.py
+++ b/pysad/models/robust_random_cut_forest.py
@@ -1,3 +1,4 @@
+import numpy as np
 from pysad.core.base_model import BaseModel
 
 
@@ -34,6 +35,7 @@ class RobustRandomCutForest(BaseModel):
         Returns:
             object: Returns the self.
         """
+        X = np.array(X)
         for tree in self.forest:
             if len(tree.leaves) >= self.tree_size:
                 tree.forget_point(self.index - self.tree_size)
diff --git a/pysad/models/standard_absolute_deviation.py b/pysad/models/standard_absolute_deviation.py
index bdfa4d8..23c3a22 100644
--- a/pysad/models/standard_absolute_deviation.py
+++ b/pysad/models/standard_absolute_deviation.py
@@ -1,3 +1,4 @@
+import numpy as np
 from pysad.core.base_model import BaseModel
 from pysad.statistics.average_meter import AverageMeter
 from pysad.statistics.median_meter import MedianMeter
@@ -39,6 +40,7 @@ class StandardAbsoluteDeviation(BaseModel):
             object: Returns the self.
         """
         assert len(X) == 1  # Only for time series
+        X = np.array(X)
 
         self.variance_meter.update(X)
         self.sub_meter.update(X)
diff --git a/pysad/transform/preprocessing/seasonal_trend_decomposer.py b/pysad/transform/preprocessing/seasonal_trend_decomposer.py
index 494e139..f283a75 100644
--- a/pysad/transform/preprocessing/seasonal_trend_decomposer.py
+++ b/pysad/transform/preprocessing/seasonal_trend_decomposer.py
@@ -43,7 +43,7 @@ class SeasonalTrendDecomposer(BaseTransformer):
         if isinstance(X, tuple):
             X = X[0]
 
-        return np.asarray(X)
+        return np.array(X)
 
     def _init_seasonal_state(self, X):
         self.seasonal_sums = np.zeros((self.season_length, X.shape[0]))
-- 
2.43.0


From 5a9d9720908483f2551d411b452dff259ef6631a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:43 +0000
Subject: [PATCH 15/33] fix: score more anomalous instances higher in
 ExactStorm

---
 pysad/models/exact_storm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysad/models/exact_storm.py b/pysad/models/exact_storm.py
index f6c9b00..4d9cfc6 100644
--- a/pysad/models/exact_storm.py
+++ b/pysad/models/exact_storm.py
@@ -5,7 +5,7 @@ from pysad.utils.window import Window
 
 
 class ExactStorm(BaseModel):
-    """The Exact-STORM method :cite:`angiulli2007detecting`. This method assigns anomaly score that is the mean of distances to the instances in window of length `window_size` with distances less than `max_radius`. Note that the decision making in :cite:`angiulli2007detecting` is not implemented.
+    """The Exact-STORM method :cite:`angiulli2007detecting`. This method assigns anomaly score that is the fraction of the instances in window of length `window_size` that are not nearer than `max_radius`. Note that the decision making in :cite:`angiulli2007detecting` is not implemented.
 
             Args:
                 window_size : int (Default=10000)
@@ -47,4 +47,4 @@ class ExactStorm(BaseModel):
 
         dists = scipy.spatial.distance.cdist(window, [X])
 
-        return np.mean(dists < self.max_radius)
+        return np.mean(dists >= self.max_radius)
-- 
2.43.0


From 62e999fede655a1fe355d27fe5f2cddeab474fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:43 +0000
Subject: [PATCH 16/33] fix: score more anomalous instances higher in RSHash

---
 pysad/models/rs_hash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/rs_hash.py b/pysad/models/rs_hash.py
index b3645b2..41bd618 100644
--- a/pysad/models/rs_hash.py
+++ b/pysad/models/rs_hash.py
@@ -89,7 +89,7 @@ class RSHash(BaseModel):
             c = np.log(1 + min_c)
             score_instance = score_instance + c
 
-        self.last_score = score_instance / self.m
+        self.last_score = -score_instance / self.m
 
         self.index += 1
 
-- 
2.43.0


From 67f95c821d853aca68836605161dd87dd6367030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:43 +0000
Subject: [PATCH 17/33] fix: score windows that disagree with the null
 hypothesis higher in RelativeEntropy

---
 pysad/models/relative_entropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/relative_entropy.py b/pysad/models/relative_entropy.py
index 6863bb0..45c22cd 100644
--- a/pysad/models/relative_entropy.py
+++ b/pysad/models/relative_entropy.py
@@ -94,7 +94,7 @@ class RelativeEntropy(BaseModel):
         score = 0.0
 
         if len(self.util) >= self.W and self.m > 0 and self.P_hat is not None:
-            score = self._get_agreement_hypothesis(self.P_hat)
+            score = 1.0 if self._get_agreement_hypothesis(self.P_hat) == -1 else 0.0
 
         return score
 
-- 
2.43.0


From 9c6bc60c0163ba672ab911d576edd2fb6e5ec91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:43 +0000
Subject: [PATCH 18/33] fix: draw the order of a streamer when the iterator is
 requested

---
 pysad/utils/array_streamer.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pysad/utils/array_streamer.py b/pysad/utils/array_streamer.py
index 58a502e..6749161 100644
--- a/pysad/utils/array_streamer.py
+++ b/pysad/utils/array_streamer.py
@@ -24,9 +24,7 @@ class ArrayStreamer(BaseStreamer):
             np.random.shuffle(indices)
 
         if y is None:
-            for i in indices:
-                yield X[i]
-        else:
-            assert len(X) == len(y)
-            for i in indices:
-                yield X[i], y[i]
+            return (X[i] for i in indices)
+
+        assert len(X) == len(y)
+        return ((X[i], y[i]) for i in indices)
-- 
2.43.0


From 22b3f91f5b959d185005bcd76c911d3332af2fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:43 +0000
Subject: [PATCH 19/33] fix: feature mapping of KitNet for a single feature

---
 pysad/models/kitnet_model/corClust.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysad/models/kitnet_model/corClust.py b/pysad/models/kitnet_model/corClust.py
index 2514553..cb37dae 100644
--- a/pysad/models/kitnet_model/corClust.py
+++ b/pysad/models/kitnet_model/corClust.py
@@ -35,6 +35,8 @@ class corClust:
 
     # clusters the features together, having no more than maxClust features per cluster
     def cluster(self,maxClust):
+        if self.n == 1: #there is nothing to cluster
+            return [[0]]
         D = self.corrDist()
         Z = linkage(D[np.triu_indices(self.n, 1)])  # create a linkage matrix based on the distance matrix
         if maxClust < 1:
-- 
2.43.0


From 6297f08c1ed1e4b253c7e78ae40022e0870ba053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:43 +0000
Subject: [PATCH 20/33] fix: score with the bins that the xStream reference
 window was counted in

---
 pysad/models/xstream.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pysad/models/xstream.py b/pysad/models/xstream.py
index 9dc8848..4207541 100644
--- a/pysad/models/xstream.py
+++ b/pysad/models/xstream.py
@@ -56,8 +56,8 @@ class xStream(BaseModel):
             self.ref_window = self.cur_window
             self.cur_window = []
             deltamax = self._compute_deltamax()
-            self.hs_chains.set_deltamax(deltamax)
             self.hs_chains.next_window()
+            self.hs_chains.set_deltamax(deltamax)
 
         return self
 
@@ -101,6 +101,10 @@ class _Chain:
         self.rand_arr = np.random.rand(k)
         self.shift = self.rand_arr * deltamax
 
+        # feature ranges and shift that the reference window is counted with
+        self.ref_deltamax = self.deltamax
+        self.ref_shift = self.shift
+
         self.is_first_window = True
 
     def fit(self, X):
@@ -150,10 +154,10 @@ class _Chain:
             depthcount[f] += 1
 
             if depthcount[f] == 1:
-                prebins[:, f] = (X[:, f] + self.shift[f]) / self.deltamax[f]
+                prebins[:, f] = (X[:, f] + self.ref_shift[f]) / self.ref_deltamax[f]
             else:
                 prebins[:, f] = 2.0 * prebins[:, f] - \
-                    self.shift[f] / self.deltamax[f]
+                    self.ref_shift[f] / self.ref_deltamax[f]
 
             cmsketch = self.cmsketches[depth]
             for i, prebin in enumerate(prebins):
@@ -176,6 +180,8 @@ class _Chain:
     def next_window(self):
         self.is_first_window = False
         self.cmsketches = self.cmsketches_cur
+        self.ref_deltamax = self.deltamax
+        self.ref_shift = self.shift
         self.cmsketches_cur = [{} for _ in range(self.depth)] * self.depth
 
 
-- 
2.43.0


From ea531d1b6414a253b66fbed5730e4f567f2f74d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:18 +0000
Subject: [PATCH 21/33] fix: load text data files with a single row

---
 pysad/utils/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/utils/data.py b/pysad/utils/data.py
index 71e6036..c8ddb2e 100644
--- a/pysad/utils/data.py
+++ b/pysad/utils/data.py
@@ -53,7 +53,7 @@ class Data:
         Returns:
             X (np.float64 array of shape (num_instances, num_features)): Feature vectors.
         """
-        X = np.loadtxt(path, delimiter=",")
+        X = np.loadtxt(path, delimiter=",", ndmin=2)
 
         return X
 
-- 
2.43.0


From 2a7a63ff26c8ca342ba548eeb419cae3f45a02aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:20 +0000
Subject: [PATCH 22/33] fix: KitNet scored NaN between feature mapping and
 training

---
 pysad/models/kitnet_model/dA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/kitnet_model/dA.py b/pysad/models/kitnet_model/dA.py
index 09861d3..eea4120 100644
--- a/pysad/models/kitnet_model/dA.py
+++ b/pysad/models/kitnet_model/dA.py
@@ -112,7 +112,7 @@ class dA:
         return z
 
     def execute(self, x): #returns MSE of the reconstruction of x
-        if self.n < self.params.gracePeriod:
+        if self.n == 0 or self.n < self.params.gracePeriod: #an untrained autoencoder has no normalization yet
             return 0.0
         else:
             # 0-1 normalize
-- 
2.43.0


From c0daa50b6e0838353a3f220f0b232c1b6ca637af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:18 +0000
Subject: [PATCH 23/33] fix: reject labels of the wrong length before drawing
 the order of a streamer

---
 pysad/utils/array_streamer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysad/utils/array_streamer.py b/pysad/utils/array_streamer.py
index 6749161..a1a1ca0 100644
--- a/pysad/utils/array_streamer.py
+++ b/pysad/utils/array_streamer.py
@@ -19,6 +19,8 @@ class ArrayStreamer(BaseStreamer):
             X (np.array of shape (num_instances, num_features)): The features array.
             y (np.array of shape (num_instances, ): The array containing labels (Default=None).
         """
+        assert y is None or len(X) == len(y)
+
         indices = list(range(len(X)))
         if self.shuffle:
             np.random.shuffle(indices)
@@ -26,5 +28,4 @@ class ArrayStreamer(BaseStreamer):
         if y is None:
             return (X[i] for i in indices)
 
-        assert len(X) == len(y)
         return ((X[i], y[i]) for i in indices)
-- 
2.43.0


From ed8ded6669e04a36736b04469c5bb1dd4ed31358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:11 +0000
Subject: [PATCH 24/33] fix: xStream cells of values beyond the int32 range
 collide

---
 pysad/models/xstream.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pysad/models/xstream.py b/pysad/models/xstream.py
index 4207541..48474d9 100644
--- a/pysad/models/xstream.py
+++ b/pysad/models/xstream.py
@@ -123,7 +123,7 @@ class _Chain:
             if self.is_first_window:
                 cmsketch = self.cmsketches[depth]
                 for prebin in prebins:
-                    l_index = tuple(np.floor(prebin).astype(np.int32))
+                    l_index = tuple(np.floor(prebin))
                     if l_index not in cmsketch:
                         cmsketch[l_index] = 0
                     cmsketch[l_index] += 1
@@ -136,7 +136,7 @@ class _Chain:
                 cmsketch = self.cmsketches_cur[depth]
 
                 for prebin in prebins:
-                    l_index = tuple(np.floor(prebin).astype(np.int32))
+                    l_index = tuple(np.floor(prebin))
                     if l_index not in cmsketch:
                         cmsketch[l_index] = 0
                     cmsketch[l_index] += 1
@@ -161,7 +161,7 @@ class _Chain:
 
             cmsketch = self.cmsketches[depth]
             for i, prebin in enumerate(prebins):
-                l_index = tuple(np.floor(prebin).astype(np.int32))
+                l_index = tuple(np.floor(prebin))
                 if l_index not in cmsketch:
                     scores[i, depth] = 0.0
                 else:
-- 
2.43.0


From e9e5a832f9ae758c45d108e7774db8ff50afbfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:11 +0000
Subject: [PATCH 25/33] fix: RSHash cells of values beyond the int32 range
 collide

---
 pysad/models/rs_hash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/rs_hash.py b/pysad/models/rs_hash.py
index 41bd618..432f53c 100644
--- a/pysad/models/rs_hash.py
+++ b/pysad/models/rs_hash.py
@@ -66,7 +66,7 @@ class RSHash(BaseModel):
                 (X[np.array(self.V[r])] + np.array(self.alpha[r])) / float(self.f[r]))
 
             mod_entry = np.insert(Y, 0, r)
-            mod_entry = tuple(mod_entry.astype(np.int32))
+            mod_entry = tuple(mod_entry)
 
             c = []
             for w in range(len(self.cmsketches)):
-- 
2.43.0


From 103a7586dfa9f980a1d893a09e6cce7f06b6ec42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:20 +0000
Subject: [PATCH 26/33] fix: HalfSpaceTrees truncated its splits for integer
 feature bounds

---
 pysad/models/half_space_trees.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysad/models/half_space_trees.py b/pysad/models/half_space_trees.py
index 2aaf177..e5e5194 100644
--- a/pysad/models/half_space_trees.py
+++ b/pysad/models/half_space_trees.py
@@ -33,10 +33,10 @@ class HalfSpaceTrees(BaseModel):
 
         self.roots = [
             self._build_single_hs_tree(
-                copy.deepcopy(
-                    self.feature_mins),
-                copy.deepcopy(
-                    self.feature_maxes),
+                np.array(
+                    self.feature_mins, dtype=np.float64),
+                np.array(
+                    self.feature_maxes, dtype=np.float64),
                 0) for _ in range(
                 self.num_trees)]
 
-- 
2.43.0


From 5c77f9223b12542a0ab8ce5af422994f6d06a397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:20 +0000
Subject: [PATCH 27/33] fix: KNNCAD overflowed on integer instances

---
 pysad/models/knn_cad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/knn_cad.py b/pysad/models/knn_cad.py
index d3c39b8..5e73e37 100644
--- a/pysad/models/knn_cad.py
+++ b/pysad/models/knn_cad.py
@@ -46,7 +46,7 @@ class KNNCAD(BaseModel):
             self.sigma = np.diag(np.ones(self.dim))
             self.to_init = False
 
-        self.buf.append(X[0])
+        self.buf.append(float(X[0]))
         self.buf = self.buf[-self.dim:]
         self.record_count += 1
         if len(self.buf) < self.dim:
-- 
2.43.0


From bea321c260fbe37e6abbd0448570555701b9e45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:20 +0000
Subject: [PATCH 28/33] fix: sums of squares overflowed on NumPy integers

---
 pysad/statistics/sum_squares_meter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysad/statistics/sum_squares_meter.py b/pysad/statistics/sum_squares_meter.py
index cef2352..0746f38 100644
--- a/pysad/statistics/sum_squares_meter.py
+++ b/pysad/statistics/sum_squares_meter.py
@@ -22,7 +22,7 @@ class SumSquaresMeter(UnivariateStatistic):
         Returns:
             object: self.
         """
-        self.sum_squares += num**2
+        self.sum_squares += (1.0 * num)**2
         self.num_items += 1
 
         return self
@@ -36,7 +36,7 @@ class SumSquaresMeter(UnivariateStatistic):
         Returns:
             object: self.
         """
-        self.sum_squares -= num**2
+        self.sum_squares -= (1.0 * num)**2
         self.num_items -= 1
 
         return self
-- 
2.43.0


From 2263eaa4295d450996546758657fc680f3414c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:50 +0000
Subject: [PATCH 29/33] fix: a copied KitNet decoded with stale weights

---
 pysad/models/kitnet_model/dA.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pysad/models/kitnet_model/dA.py b/pysad/models/kitnet_model/dA.py
index eea4120..3c1f9bc 100644
--- a/pysad/models/kitnet_model/dA.py
+++ b/pysad/models/kitnet_model/dA.py
@@ -59,7 +59,6 @@ class dA:
 
         self.hbias = numpy.zeros(self.params.n_hidden)  # initialize h bias 0
         self.vbias = numpy.zeros(self.params.n_visible)  # initialize v bias 0
-        self.W_prime = self.W.T
 
 
     def get_corrupted_input(self, input, corruption_level):
@@ -75,7 +74,7 @@ class dA:
 
     # Decode
     def get_reconstructed_input(self, hidden):
-        return sigmoid(numpy.dot(hidden, self.W_prime) + self.vbias)
+        return sigmoid(numpy.dot(hidden, self.W.T) + self.vbias)
 
     def train(self, x):
         self.n = self.n + 1
-- 
2.43.0


From e54db436d170edb3f8a7da10d2db01f2f12e9b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:39 +0000
Subject: [PATCH 30/33] fix: OneFitModel keeps its own copy of the initial
 instances

---
 pysad/models/integrations/one_fit_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysad/models/integrations/one_fit_model.py b/pysad/models/integrations/one_fit_model.py
index c868a8d..902aa77 100644
--- a/pysad/models/integrations/one_fit_model.py
+++ b/pysad/models/integrations/one_fit_model.py
@@ -1,3 +1,4 @@
+import copy
 from .pyod_model import PYODModel
 
 
@@ -14,8 +15,8 @@ class OneFitModel(PYODModel):
     def __init__(self, model_cls, initial_X, initial_y=None, **kwargs):
         super().__init__(model_cls, **kwargs)
 
-        self.initial_y = initial_y
-        self.initial_X = initial_X
+        self.initial_y = copy.deepcopy(initial_y)
+        self.initial_X = copy.deepcopy(initial_X)
         self._fit_model()
 
     def fit_partial(self, X, y=None):
-- 
2.43.0


From c32abc2380d3c15c4e133cb6b712bb8bff7824b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:39 +0000
Subject: [PATCH 31/33] fix: LocalOutlierProbability keeps its own copy of the
 initial data

---
 pysad/models/loop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysad/models/loop.py b/pysad/models/loop.py
index 4e5b299..da925c4 100644
--- a/pysad/models/loop.py
+++ b/pysad/models/loop.py
@@ -1,3 +1,4 @@
+import copy
 from pysad.core.base_model import BaseModel
 
 
@@ -15,7 +16,7 @@ class LocalOutlierProbability(BaseModel):
         from PyNomaly import loop
 
         self.model = loop.LocalOutlierProbability(
-            initial_X, extent=extent, n_neighbors=num_neighbors).fit()
+            copy.deepcopy(initial_X), extent=extent, n_neighbors=num_neighbors).fit()
 
     def fit_partial(self, X, y=None):
         """Fits the model to next instance.
-- 
2.43.0


From 9c1c377f0f73aed701a908ff64981cd8bc7e7628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:58 +0000
Subject: [PATCH 32/33] fix: labels in the stream no longer crash a reference
 window model whose initial window has no labels

---
 pysad/models/integrations/reference_window_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/integrations/reference_window_model.py b/pysad/models/integrations/reference_window_model.py
index 4757b8e..db92097 100644
--- a/pysad/models/integrations/reference_window_model.py
+++ b/pysad/models/integrations/reference_window_model.py
@@ -77,7 +77,7 @@ class ReferenceWindowModel(PYODModel):
             self.reference_window_X = self.reference_window_X[max(
                 0, len(self.reference_window_X) - self.window_size):]
 
-            if y is not None:
+            if y is not None and self.reference_window_y is not None:
                 self.reference_window_y = np.concatenate(
                     [self.reference_window_y, self.cur_window_y], axis=0)
                 self.reference_window_y = self.reference_window_y[max(
-- 
2.43.0


From c203a92197b2618741924803d9cb375c53f47055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:56 +0000
Subject: [PATCH 33/33] fix: return every score as a number, as documented,
 instead of a one-element array

LODA, xStream, StandardAbsoluteDeviation, MedianAbsoluteDeviation, Inqmad and
the ensemblers returned one-element arrays. RunningMaxPostprocessor turned them
into a mixture of arrays and numbers, on which the metrics failed; the float32
jax array of Inqmad made the Gaussian tail calibrator fail.
---
 pysad/models/inqmad.py                      | 2 +-
 pysad/models/loda.py                        | 2 +-
 pysad/models/median_absolute_deviation.py   | 2 +-
 pysad/models/standard_absolute_deviation.py | 2 +-
 pysad/models/xstream.py                     | 2 +-
 pysad/transform/ensemble/ensemblers.py      | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pysad/models/inqmad.py b/pysad/models/inqmad.py
index 4c420f2..4adfe4c 100644
--- a/pysad/models/inqmad.py
+++ b/pysad/models/inqmad.py
@@ -87,7 +87,7 @@ class Inqmad(BaseModel):
         if(X.ndim == 1):
             X = np.expand_dims(X, axis=0)
 
-        return self.inqmad.predict(X)
+        return self.inqmad.predict(X).item()
 
 
 
diff --git a/pysad/models/loda.py b/pysad/models/loda.py
index bd211e2..62bcb87 100644
--- a/pysad/models/loda.py
+++ b/pysad/models/loda.py
@@ -77,4 +77,4 @@ class LODA(BaseModel):
                 self.histograms_[i, inds])
         pred_scores /= self.n_random_cuts
 
-        return pred_scores.ravel()
+        return pred_scores.item()
diff --git a/pysad/models/median_absolute_deviation.py b/pysad/models/median_absolute_deviation.py
index fd67d94..f6fd0b7 100644
--- a/pysad/models/median_absolute_deviation.py
+++ b/pysad/models/median_absolute_deviation.py
@@ -54,4 +54,4 @@ class MedianAbsoluteDeviation(BaseModel):
         mad = self.b * self.mad_meter.get()
         score = (X - median) / (mad + 1e-10)
 
-        return abs(score) if self.absolute else score
+        return (abs(score) if self.absolute else score).item()
diff --git a/pysad/models/standard_absolute_deviation.py b/pysad/models/standard_absolute_deviation.py
index 23c3a22..38cf2ca 100644
--- a/pysad/models/standard_absolute_deviation.py
+++ b/pysad/models/standard_absolute_deviation.py
@@ -61,4 +61,4 @@ class StandardAbsoluteDeviation(BaseModel):
 
         score = (X - sub) / (dev + 1e-10)
 
-        return abs(score) if self.absolute else score
+        return (abs(score) if self.absolute else score).item()
diff --git a/pysad/models/xstream.py b/pysad/models/xstream.py
index 48474d9..2133fe8 100644
--- a/pysad/models/xstream.py
+++ b/pysad/models/xstream.py
@@ -72,7 +72,7 @@ class xStream(BaseModel):
         """
         X = self.streamhash.fit_transform_partial(X)
         X = X.reshape(1, -1)
-        score = self.hs_chains.score(X).flatten()
+        score = self.hs_chains.score(X).item()
 
         return score
 
diff --git a/pysad/transform/ensemble/ensemblers.py b/pysad/transform/ensemble/ensemblers.py
index 8825ea7..2c066cc 100644
--- a/pysad/transform/ensemble/ensemblers.py
+++ b/pysad/transform/ensemble/ensemblers.py
@@ -44,7 +44,7 @@ class PYODScoreEnsembler(BasePostprocessor):
         """
         scores = scores.reshape(1, -1)
 
-        return self._combine(scores)
+        return self._combine(scores).item()
 
 
 class AverageScoreEnsembler(PYODScoreEnsembler):
-- 
2.43.0

