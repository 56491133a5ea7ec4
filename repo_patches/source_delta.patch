From 169977b95f6452ffbf3e35c1447b0aed19ddc722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 01/30] fix: keep the selected rows when a PDP, d-PDP or
 SHAP-DP feature is fitted

Fitting a feature dropped the rows outside that feature's axis limits from the
explainer's own data, so the effects of the other features depended on which
features had been fitted before, and a centered PDP could subtract constants
of other instances (or fail on a shape mismatch).
---
 effector/global_effect_pdp.py  | 17 +++++++++++------
 effector/global_effect_shap.py | 10 ++++++----
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index 36bd8fd..dfce8ad 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -41,9 +41,9 @@ class PDPBase(GlobalEffectBase):
             )
         else:
             if self.model_jac is not None:
-                y = method(self.model_jac, self.data, xx, feature, False, True, True)
+                y = method(self.model_jac, data, xx, feature, False, True, True)
             else:
-                y = method(self.model, self.data, xx, feature, False, False, True, True)
+                y = method(self.model, data, xx, feature, False, False, True, True)
         return y
 
     def _fit_feature(
@@ -55,9 +55,9 @@ class PDPBase(GlobalEffectBase):
     ) -> dict:
 
         # drop points outside of limits
-        self.data = self.data[self.data[:, feature] >= self.axis_limits[0, feature]]
-        self.data = self.data[self.data[:, feature] <= self.axis_limits[1, feature]]
-        data = self.data
+        data = helpers.drop_points_outside_axis_limits(
+            self.data, self.axis_limits, feature
+        )
 
         if centering is True or centering == "zero_integral":
             xx = np.linspace(
@@ -168,8 +168,13 @@ class PDPBase(GlobalEffectBase):
         # Check if the lower bound is less than the upper bound
         assert self.axis_limits[0, feature] < self.axis_limits[1, feature]
 
+        # drop points outside of limits
+        data = helpers.drop_points_outside_axis_limits(
+            self.data, self.axis_limits, feature
+        )
+
         # new implementation
-        yy = self._predict(self.data, xs, feature, use_vectorized)
+        yy = self._predict(data, xs, feature, use_vectorized)
 
         if centering:
             norm_consts = np.expand_dims(
diff --git a/effector/global_effect_shap.py b/effector/global_effect_shap.py
index 0c3ceee..aaf48f7 100644
--- a/effector/global_effect_shap.py
+++ b/effector/global_effect_shap.py
@@ -102,11 +102,11 @@ class ShapDP(GlobalEffectBase):
     ) -> typing.Dict:
 
         # drop points outside of limits
-        self.data = self.data[self.data[:, feature] >= self.axis_limits[0, feature]]
-        self.data = self.data[self.data[:, feature] <= self.axis_limits[1, feature]]
+        data = helpers.drop_points_outside_axis_limits(
+            self.data, self.axis_limits, feature
+        )
 
         # compute shap values
-        data = self.data
         shap_explainer = shap.Explainer(self.model, data)
         explanation = shap_explainer(data)
 
@@ -298,7 +298,9 @@ class ShapDP(GlobalEffectBase):
         )
 
         # get some SHAP values
-        _, ind = helpers.prep_nof_instances(nof_shap_values, self.data.shape[0])
+        _, ind = helpers.prep_nof_instances(
+            nof_shap_values, self.feature_effect["feature_" + str(feature)]["yy"].shape[0]
+        )
         yy = (
             self.feature_effect["feature_" + str(feature)]["yy"][ind]
             if heterogeneity == "shap_values"
-- 
2.43.0


From b57963ef170329dd6fbb21777d62311d606519f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 02/30] fix: divide each local effect by the width of its own
 bin

compute_local_effects divided every difference by the width of the first bin,
which is wrong for the unequal bins of a categorical feature.
---
 effector/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/utils.py b/effector/utils.py
index a783977..f531864 100644
--- a/effector/utils.py
+++ b/effector/utils.py
@@ -59,7 +59,7 @@ def compute_local_effects(
     left_lim = copy.deepcopy(data)
     right_lim[:, feature] = limits[ind]
     left_lim[:, feature] = limits[ind - 1]
-    dx = limits[1] - limits[0]
+    dx = limits[ind] - limits[ind - 1]
     data_effect = model(right_lim) - model(left_lim)
     return np.squeeze(data_effect) / dx
 
-- 
2.43.0


From bc803e6b9f1e1d579572c3b862530e92d24a1591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 03/30] fix: keep the fit configuration when eval or plot
 recenters a feature

Asking for another centering refitted the feature with the default binning
method or number of centering points, silently discarding the ones it was
fitted with.
---
 effector/global_effect.py      | 5 +++++
 effector/global_effect_ale.py  | 3 ++-
 effector/global_effect_pdp.py  | 2 +-
 effector/global_effect_shap.py | 2 +-
 4 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/effector/global_effect.py b/effector/global_effect.py
index 166184c..58925d4 100644
--- a/effector/global_effect.py
+++ b/effector/global_effect.py
@@ -119,6 +119,11 @@ class GlobalEffectBase(ABC):
                     return True
         return False
 
+    def _fit_args(self, feature):
+        """The arguments (apart from centering) the feature was last fitted with, empty if it was not."""
+        args = self.method_args.get("feature_" + str(feature), {})
+        return {key: value for key, value in args.items() if key != "centering"}
+
     @abstractmethod
     def eval(
         self,
diff --git a/effector/global_effect_ale.py b/effector/global_effect_ale.py
index 9bd057e..566c72e 100644
--- a/effector/global_effect_ale.py
+++ b/effector/global_effect_ale.py
@@ -85,6 +85,7 @@ class ALEBase(GlobalEffectBase):
             self.is_fitted[s] = True
             self.method_args["feature_" + str(s)] = {
                 "centering": centering,
+                "binning_method": binning_method,
             }
 
     def _eval_unnorm(self, feature: int, x: np.ndarray, heterogeneity: bool = False):
@@ -138,7 +139,7 @@ class ALEBase(GlobalEffectBase):
         centering = helpers.prep_centering(centering)
 
         if self.refit(feature, centering):
-            self.fit(features=feature, centering=centering)
+            self.fit(features=feature, centering=centering, **self._fit_args(feature))
 
         # Check if the lower bound is less than the upper bound
         assert self.axis_limits[0, feature] < self.axis_limits[1, feature]
diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index dfce8ad..03ceade 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -163,7 +163,7 @@ class PDPBase(GlobalEffectBase):
         centering = helpers.prep_centering(centering)
 
         if self.refit(feature, centering):
-            self.fit(features=feature, centering=centering, use_vectorized=use_vectorized)
+            self.fit(features=feature, centering=centering, use_vectorized=use_vectorized, **self._fit_args(feature))
 
         # Check if the lower bound is less than the upper bound
         assert self.axis_limits[0, feature] < self.axis_limits[1, feature]
diff --git a/effector/global_effect_shap.py b/effector/global_effect_shap.py
index aaf48f7..67dabc2 100644
--- a/effector/global_effect_shap.py
+++ b/effector/global_effect_shap.py
@@ -230,7 +230,7 @@ class ShapDP(GlobalEffectBase):
         centering = helpers.prep_centering(centering)
 
         if self.refit(feature, centering):
-            self.fit(features=feature, centering=centering)
+            self.fit(features=feature, centering=centering, **self._fit_args(feature))
 
         # Check if the lower bound is less than the upper bound
         assert self.axis_limits[0, feature] < self.axis_limits[1, feature]
-- 
2.43.0


From 643785df9e380ecbb104c33b3ae43d12d9d6b5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 04/30] fix: store an ALE or RHALE fit only once it is complete

The new bins were visible before their centering constant was computed, so a
fit that failed in between (an interrupt or a memory error) left a feature that
was marked as fitted but could not be evaluated any more.
---
 effector/global_effect_ale.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/effector/global_effect_ale.py b/effector/global_effect_ale.py
index 566c72e..8d474fc 100644
--- a/effector/global_effect_ale.py
+++ b/effector/global_effect_ale.py
@@ -49,13 +49,13 @@ class ALEBase(GlobalEffectBase):
         raise NotImplementedError
 
     def _compute_norm_const(
-        self, feature: int, method: str = "zero_integral", nof_points: int = 100
+        self, feature: int, params: dict, method: str = "zero_integral", nof_points: int = 100
     ) -> float:
         """Compute the normalization constant."""
         assert method in ["zero_integral", "zero_start"]
 
         def create_partial_eval(feat):
-            return lambda x: self._eval_unnorm(feat, x, heterogeneity=False)
+            return lambda x: self._eval_unnorm(feat, x, heterogeneity=False, params=params)
 
         partial_eval = create_partial_eval(feature)
         start = self.axis_limits[0, feature]
@@ -72,24 +72,24 @@ class ALEBase(GlobalEffectBase):
         centering = helpers.prep_centering(centering)
         for s in features:
             # compute all information required for plotting and evaluating the feature effect
-            self.feature_effect["feature_" + str(s)] = self._fit_feature(
-                s, binning_method
-            )
+            params = self._fit_feature(s, binning_method)
 
             # append the "norm_const" to the feature effect if centering is not False
             if centering is not False:
-                self.feature_effect["feature_" + str(s)]["norm_const"] = self._compute_norm_const(s, method=centering)
+                params["norm_const"] = self._compute_norm_const(s, params, method=centering)
             else:
-                self.feature_effect["feature_" + str(s)]["norm_const"] = self.empty_symbol
+                params["norm_const"] = self.empty_symbol
 
+            # store only complete results, so that a failure leaves the previous ones in place
+            self.feature_effect["feature_" + str(s)] = params
             self.is_fitted[s] = True
             self.method_args["feature_" + str(s)] = {
                 "centering": centering,
                 "binning_method": binning_method,
             }
 
-    def _eval_unnorm(self, feature: int, x: np.ndarray, heterogeneity: bool = False):
-        params = self.feature_effect["feature_" + str(feature)]
+    def _eval_unnorm(self, feature: int, x: np.ndarray, heterogeneity: bool = False, params: Optional[dict] = None):
+        params = self.feature_effect["feature_" + str(feature)] if params is None else params
         y = utils.compute_accumulated_effect(
             x, limits=params["limits"], bin_effect=params["bin_effect"], dx=params["dx"]
         )
-- 
2.43.0


From 2631fcb64b304631b80bfb73e128eea280ee9faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 05/30] fix: explain integer design matrices at the positions
 that were asked for

With integer data every position or bin edge written into a copy of the data
was truncated, and the numerical Jacobian failed.
---
 effector/global_effect.py       | 2 +-
 effector/helpers.py             | 5 +++++
 effector/regional_effect.py     | 2 +-
 effector/regional_effect_ale.py | 2 +-
 4 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/effector/global_effect.py b/effector/global_effect.py
index 58925d4..17bf38c 100644
--- a/effector/global_effect.py
+++ b/effector/global_effect.py
@@ -60,7 +60,7 @@ class GlobalEffectBase(ABC):
         self.nof_instances, self.indices = helpers.prep_nof_instances(
             nof_instances, data.shape[0]
         )
-        data = data[self.indices, :]
+        data = helpers.prep_data(data[self.indices, :])
 
         self.data: np.ndarray = data
         self.dim = self.data.shape[1]
diff --git a/effector/helpers.py b/effector/helpers.py
index 872c684..8690aa6 100644
--- a/effector/helpers.py
+++ b/effector/helpers.py
@@ -37,6 +37,11 @@ def prep_confidence_interval(confidence_interval):
     return confidence_interval
 
 
+def prep_data(data: np.ndarray) -> np.ndarray:
+    """Return the design matrix as floats, so that positions between two integers are not truncated."""
+    return data if np.issubdtype(data.dtype, np.floating) else data.astype(float)
+
+
 def axis_limits_from_data(data: np.ndarray) -> np.ndarray:
     """Compute axis limits from data."""
     D = data.shape[1]
diff --git a/effector/regional_effect.py b/effector/regional_effect.py
index 3a549c1..4630553 100644
--- a/effector/regional_effect.py
+++ b/effector/regional_effect.py
@@ -42,7 +42,7 @@ class RegionalEffectBase:
         self.nof_instances, self.indices = helpers.prep_nof_instances(
             nof_instances, data.shape[0]
         )
-        self.data = data[self.indices, :]
+        self.data = helpers.prep_data(data[self.indices, :])
         self.instance_effects = data_effect[self.indices, :] if data_effect is not None else None
         self.dim = self.data.shape[1]
 
diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index a101627..075ac93 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -44,7 +44,7 @@ class RegionalRHALE(RegionalEffectBase):
             if model_jac is not None:
                 instance_effects = model_jac(data)
             else:
-                instance_effects = utils.compute_jacobian_numerically(model, data)
+                instance_effects = utils.compute_jacobian_numerically(model, helpers.prep_data(data))
 
 
         super(RegionalRHALE, self).__init__(
-- 
2.43.0


From 86aaa49d247580ce17e3031e3cef08e3c9e10f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 06/30] fix: accept the documented "dp" binning method in
 RHALE.fit

RHALE.fit only accepted the name "dynamic", which find_limits rejects. With
min_points 0, the default of "dp", empty bins also had NaN cost, which made the
dynamic programming return limits that are not increasing.
---
 effector/bin_splitting.py     | 2 ++
 effector/global_effect_ale.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/effector/bin_splitting.py b/effector/bin_splitting.py
index 4bdef24..25fcb29 100644
--- a/effector/bin_splitting.py
+++ b/effector/bin_splitting.py
@@ -270,6 +270,8 @@ class DP(BinBase):
         else:
             start, stop = self._index_to_position(index_before, index_next, K)
             cost = self._bin_cost(start, stop, discount)
+            # an empty bin has no variance
+            cost = big_M if np.isnan(cost) else cost
         return cost
 
     def _argmatrix_to_limits(self, K):
diff --git a/effector/global_effect_ale.py b/effector/global_effect_ale.py
index 8d474fc..2d378cf 100644
--- a/effector/global_effect_ale.py
+++ b/effector/global_effect_ale.py
@@ -548,7 +548,7 @@ class RHALE(ALEBase):
         """
         assert binning_method in [
             "greedy",
-            "dynamic",
+            "dp",
             "fixed"
         ] or isinstance(
             binning_method, bm.Greedy
-- 
2.43.0


From 06662b3bc8a4024e5ea77361ad04c62263a174e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:02 +0000
Subject: [PATCH 07/30] fix: keep local effects with their rows below the first
 split level

---
 effector/partitioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index c590a3a..7b1b14f 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -434,7 +434,7 @@ class Regions:
             # update parent_level_nodes
             parent_level_nodes = new_parent_level_nodes
             parent_level_data = new_parent_level_data
-            parent_level_data_effect = new_parent_level_data
+            parent_level_data_effect = new_parent_level_data_effect
 
         return tree
 
-- 
2.43.0


From 7e667eae382088f26ecd3a48af3a157e29af0a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:02 +0000
Subject: [PATCH 08/30] fix: split regions the way their labels say, with rows
 on the split point on the left

---
 effector/partitioning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index 7b1b14f..cbe3de5 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -312,8 +312,8 @@ class Regions:
             ind_1 = x[:, feature] == position
             ind_2 = x[:, feature] != position
         else:
-            ind_1 = x[:, feature] < position
-            ind_2 = x[:, feature] >= position
+            ind_1 = x[:, feature] <= position
+            ind_2 = x[:, feature] > position
 
         if x_jac is None:
             X1 = x[ind_1, :]
-- 
2.43.0


From 128ca5e48b75aed602614d3c021a2161fc8813e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 09/30] fix: draw ALE, not RHALE, in RegionalALE.plot

---
 effector/regional_effect_ale.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index 075ac93..a172a5b 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -315,11 +315,11 @@ class RegionalALE(RegionalEffectBase):
 
         # define the method and fit
         self.method_args["feature_" + str(feature)]["heterogeneity"] = heterogeneity
-        rhale = RHALE(data, self.model, self.model_jac, self.nof_instances, None, data_effect, feature_names=feature_names)
+        ale = ALE(data, self.model, "all", feature_names=feature_names, target_name=self.target_name)
         binning_method = prep_binning_method(self.method_args["feature_" + str(feature)]["binning_method"])
-        rhale.fit(features=feature, binning_method=binning_method, centering=centering)
+        ale.fit(features=feature, binning_method=binning_method, centering=centering)
         scale_x = scale_x_list[feature] if scale_x_list is not None else None
-        rhale.plot(feature=feature, heterogeneity=heterogeneity, centering=centering, scale_x=scale_x, scale_y=scale_y, y_limits=y_limits, dy_limits=dy_limits)
+        ale.plot(feature=feature, heterogeneity=heterogeneity, centering=centering, scale_x=scale_x, scale_y=scale_y, y_limits=y_limits, dy_limits=dy_limits)
 
 
 def prep_binning_method(method):
-- 
2.43.0


From c31d6eea1e28f0c03aa33ebe5f46bea2e5f4ba1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:50 +0000
Subject: [PATCH 10/30] fix: evaluate and plot subregions on all their rows
 with the settings of the fit

---
 effector/regional_effect.py     | 23 ++++++++++++++++-------
 effector/regional_effect_ale.py |  8 ++------
 effector/regional_effect_pdp.py | 14 +++++++++++++-
 3 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/effector/regional_effect.py b/effector/regional_effect.py
index 4630553..cf774a7 100644
--- a/effector/regional_effect.py
+++ b/effector/regional_effect.py
@@ -162,14 +162,22 @@ class RegionalEffectBase:
         elif self.method_name == "ale":
             return ALE(data, self.model, feature_names=feature_names, target_name=self.target_name)
         elif self.method_name == "shap":
-            return ShapDP(data, self.model, feature_names=feature_names, target_name=self.target_name)
+            return ShapDP(data, self.model, nof_instances="all", feature_names=feature_names, target_name=self.target_name)
         elif self.method_name == "pdp":
-            return PDP(data, self.model, feature_names=feature_names, target_name=self.target_name)
+            return PDP(data, self.model, nof_instances="all", feature_names=feature_names, target_name=self.target_name)
         elif self.method_name == "d-pdp":
-            return DerPDP(data, self.model, self.model_jac, feature_names=feature_names, target_name=self.target_name)
+            return DerPDP(data, self.model, self.model_jac, nof_instances="all", feature_names=feature_names, target_name=self.target_name)
         else:
             raise NotImplementedError
 
+    def _fit_fe_object(self, feature, data, data_effect, feature_names, centering):
+        """Fit the global method on the data of a node, with the settings the regional effect was fitted with"""
+        fe_method = self._create_fe_object(data, data_effect, feature_names)
+        args = self.method_args["feature_" + str(feature)]
+        fit_args = {k: args[k] for k in ("binning_method", "points_for_centering", "use_vectorized") if k in args}
+        fe_method.fit(features=feature, centering=centering, **fit_args)
+        return fe_method, {k: args[k] for k in ("use_vectorized",) if k in args}
+
     def eval(self, feature, node_idx, xs, heterogeneity=False, centering=False):
         """
         Evaluate the regional effect for a given feature and node.
@@ -196,8 +204,8 @@ class RegionalEffectBase:
         self.refit(feature)
         centering = helpers.prep_centering(centering)
         data, data_effect, _ = self.get_node_info(feature, node_idx)
-        fe_method = self._create_fe_object(data, data_effect, None)
-        return fe_method.eval(feature, xs, heterogeneity, centering)
+        fe_method, eval_args = self._fit_fe_object(feature, data, data_effect, None, centering)
+        return fe_method.eval(feature, xs, heterogeneity, centering, **eval_args)
 
     def fit(self, *args, **kwargs):
         raise NotImplementedError
@@ -220,7 +228,7 @@ class RegionalEffectBase:
         data, data_effect, name = self.get_node_info(feature, node_idx)
         feature_names = copy.deepcopy(self.feature_names)
         feature_names[feature] = name
-        fe_method = self._create_fe_object(data, data_effect, feature_names)
+        fe_method, eval_args = self._fit_fe_object(feature, data, data_effect, feature_names, centering)
 
         return fe_method.plot(
             feature=feature,
@@ -228,7 +236,8 @@ class RegionalEffectBase:
             centering=centering,
             scale_x=scale_x_list[feature] if scale_x_list is not None else None,
             scale_y=scale_y,
-            y_limits=y_limits
+            y_limits=y_limits,
+            **eval_args
             )
 
     def show_partitioning(self, features, only_important=True, scale_x_list=None):
diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index a172a5b..548733f 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -167,9 +167,7 @@ class RegionalRHALE(RegionalEffectBase):
 
         # define the method and fit
         self.method_args["feature_" + str(feature)]["heterogeneity"] = heterogeneity
-        rhale = RHALE(data, self.model, self.model_jac, self.nof_instances, None, data_effect, feature_names=feature_names)
-        binning_method = prep_binning_method(self.method_args["feature_" + str(feature)]["binning_method"])
-        rhale.fit(features=feature, binning_method=binning_method, centering=centering)
+        rhale, _ = self._fit_fe_object(feature, data, data_effect, feature_names, centering)
         scale_x = scale_x_list[feature] if scale_x_list is not None else None
         rhale.plot(feature=feature, heterogeneity=heterogeneity, centering=centering, scale_x=scale_x, scale_y=scale_y, y_limits=y_limits, dy_limits=dy_limits)
 
@@ -315,9 +313,7 @@ class RegionalALE(RegionalEffectBase):
 
         # define the method and fit
         self.method_args["feature_" + str(feature)]["heterogeneity"] = heterogeneity
-        ale = ALE(data, self.model, "all", feature_names=feature_names, target_name=self.target_name)
-        binning_method = prep_binning_method(self.method_args["feature_" + str(feature)]["binning_method"])
-        ale.fit(features=feature, binning_method=binning_method, centering=centering)
+        ale, _ = self._fit_fe_object(feature, data, data_effect, feature_names, centering)
         scale_x = scale_x_list[feature] if scale_x_list is not None else None
         ale.plot(feature=feature, heterogeneity=heterogeneity, centering=centering, scale_x=scale_x, scale_y=scale_y, y_limits=y_limits, dy_limits=dy_limits)
 
diff --git a/effector/regional_effect_pdp.py b/effector/regional_effect_pdp.py
index 9bb6c93..165f090 100644
--- a/effector/regional_effect_pdp.py
+++ b/effector/regional_effect_pdp.py
@@ -108,7 +108,19 @@ class RegionalPDPBase(RegionalEffectBase):
                 split_categorical_features,
             )
 
-            # todo add methdod args
+            self.method_args["feature_" + str(feat)] = {
+                "heter_pcg_drop_thres": heter_pcg_drop_thres,
+                "heter_small_enough": heter_small_enough,
+                "max_depth": max_depth,
+                "nof_candidate_splits_for_numerical": nof_candidate_splits_for_numerical,
+                "min_points_per_subregion": min_points_per_subregion,
+                "candidate_conditioning_features": candidate_conditioning_features,
+                "split_categorical_features": split_categorical_features,
+                "centering": centering,
+                "nof_instances": nof_instances,
+                "points_for_centering": points_for_centering,
+                "use_vectorized": use_vectorized,
+            }
 
 
 class RegionalPDP(RegionalPDPBase):
-- 
2.43.0


From 5403bc956768459aa3da1492caa9c21262f781ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 11/30] fix: do not take a failing model for an infeasible
 region

---
 effector/helpers.py             | 27 ++++++++++++++++++++++++++-
 effector/regional_effect_ale.py | 16 ++++++++++++----
 effector/regional_effect_pdp.py | 14 ++++++++++----
 3 files changed, 48 insertions(+), 9 deletions(-)

diff --git a/effector/helpers.py b/effector/helpers.py
index 8690aa6..a98510e 100644
--- a/effector/helpers.py
+++ b/effector/helpers.py
@@ -127,4 +127,29 @@ def drop_points_outside_axis_limits(data: np.ndarray, axis_limits: np.ndarray, f
     """Drop points outside the axis limits"""
     data = data[data[:, feature] >= axis_limits[0, feature]]
     data = data[data[:, feature] <= axis_limits[1, feature]]
-    return data
\ No newline at end of file
+    return data
+
+
+class GuardedCallable:
+    """Wrap a user-supplied callable and remember whether it failed"""
+
+    def __init__(self, func: typing.Callable):
+        self.func = func
+        self.failed = False
+
+    def __call__(self, *args, **kwargs):
+        try:
+            return self.func(*args, **kwargs)
+        except BaseException:
+            self.failed = True
+            raise
+
+
+def guard_callables(*funcs):
+    return [GuardedCallable(func) if func is not None else None for func in funcs]
+
+
+def is_infeasible(error: Exception, *guards) -> bool:
+    """Does the error mean that a region cannot be fitted, i.e. it is no failure of the user's callables or of the system?"""
+    failed = any(guard is not None and guard.failed for guard in guards)
+    return not failed and not isinstance(error, MemoryError)
diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index 548733f..e098687 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -64,14 +64,18 @@ class RegionalRHALE(RegionalEffectBase):
     def _create_heterogeneity_function(self, foi, binning_method, min_points, centering):
         binning_method = prep_binning_method(binning_method)
 
+        model, model_jac = helpers.guard_callables(self.model, self.model_jac)
+
         def heter(data, instance_effects=None) -> float:
             if data.shape[0] < min_points:
                 return BIG_M
 
-            rhale = RHALE(data, self.model, self.model_jac, "all", None, instance_effects)
+            rhale = RHALE(data, model, model_jac, "all", None, instance_effects)
             try:
                 rhale.fit(features=foi, binning_method=binning_method, centering=centering)
-            except:
+            except Exception as error:
+                if not helpers.is_infeasible(error, model, model_jac):
+                    raise
                 return BIG_M
 
             # heterogeneity is the accumulated std at the end of the curve
@@ -214,14 +218,18 @@ class RegionalALE(RegionalEffectBase):
         binning_method = prep_binning_method(binning_method)
         isinstance(binning_method, binning_methods.Fixed)
         
+        model, = helpers.guard_callables(self.model)
+
         def heter(data, instance_effects=None) -> float:
             if data.shape[0] < min_points:
                 return BIG_M
 
-            ale = ALE(data, self.model, "all", None, instance_effects)
+            ale = ALE(data, model, "all", None, instance_effects)
             try:
                 ale.fit(features=foi, binning_method=binning_method, centering=centering)
-            except:
+            except Exception as error:
+                if not helpers.is_infeasible(error, model):
+                    raise
                 return BIG_M
 
             # heterogeneity is the accumulated std at the end of the curve
diff --git a/effector/regional_effect_pdp.py b/effector/regional_effect_pdp.py
index 165f090..b70f57b 100644
--- a/effector/regional_effect_pdp.py
+++ b/effector/regional_effect_pdp.py
@@ -36,18 +36,22 @@ class RegionalPDPBase(RegionalEffectBase):
             target_name)
 
     def _create_heterogeneity_function(self, foi, min_points, centering, nof_instances, points_for_centering, use_vectorized=True):
+        model, model_jac = helpers.guard_callables(self.model, self.model_jac)
+
         def heter(data) -> float:
             if data.shape[0] < min_points:
                 return BIG_M
 
             if self.method_name == "pdp":
-                pdp = PDP(data, self.model, self.axis_limits, nof_instances=nof_instances)
+                pdp = PDP(data, model, self.axis_limits, nof_instances=nof_instances)
             else:
-                pdp = DerPDP(data, self.model, self.model_jac, self.axis_limits, nof_instances=nof_instances)
+                pdp = DerPDP(data, model, model_jac, self.axis_limits, nof_instances=nof_instances)
 
             try:
                 pdp.fit(features=foi, centering=centering, points_for_centering=points_for_centering, use_vectorized=use_vectorized)
-            except:
+            except Exception as error:
+                if not helpers.is_infeasible(error, model, model_jac):
+                    raise
                 return BIG_M
 
             # heterogeneity is the mean heterogeneity over the curve
@@ -56,7 +60,9 @@ class RegionalPDPBase(RegionalEffectBase):
             xx = np.linspace(axis_limits[:, foi][0], axis_limits[:, foi][1], 10)
             try:
                 _, z = pdp.eval(feature=foi, xs=xx, heterogeneity=True, use_vectorized=use_vectorized)
-            except:
+            except Exception as error:
+                if not helpers.is_infeasible(error, model, model_jac):
+                    raise
                 return BIG_M
             return np.mean(z)
 
-- 
2.43.0


From a52fcc2b1d46795a17c243cac4709a5e34da6fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:47 +0000
Subject: [PATCH 12/30] fix: show the level statistics of a region without
 heterogeneity

---
 effector/partitioning.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index cbe3de5..ca8c589 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -573,7 +573,9 @@ class Tree:
             if lev == 0:
                 print("    " * lev*2 + "Level %.d, heter: %.2f" % (lev, level_stats['heterogeneity']))
             else:
-                print("    " * lev*2 + "Level %.d, heter: %.2f || heter drop: %.2f (%.2f%%)" % (lev, level_stats['heterogeneity'], prev_heter - level_stats['heterogeneity'], 100*(prev_heter - level_stats['heterogeneity'])/prev_heter))
+                drop = prev_heter - level_stats['heterogeneity']
+                drop_pcg = 100 * drop / prev_heter if prev_heter != 0 else 0
+                print("    " * lev*2 + "Level %.d, heter: %.2f || heter drop: %.2f (%.2f%%)" % (lev, level_stats['heterogeneity'], drop, drop_pcg))
             prev_heter = level_stats['heterogeneity']
 
 
-- 
2.43.0


From b01b7627fc7c1eac6106093ec279dcac8d631f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:32 +0000
Subject: [PATCH 13/30] fix: scale the tree of a plot without changing the tree
 that eval uses

---
 effector/regional_effect.py     | 14 ++++----------
 effector/regional_effect_ale.py | 12 ++----------
 2 files changed, 6 insertions(+), 20 deletions(-)

diff --git a/effector/regional_effect.py b/effector/regional_effect.py
index cf774a7..8114481 100644
--- a/effector/regional_effect.py
+++ b/effector/regional_effect.py
@@ -82,8 +82,6 @@ class RegionalEffectBase:
         self.partitioners: typing.Dict[str, Regions] = {}
         self.tree_full: typing.Dict[str, Tree] = {}
         self.tree_pruned: typing.Dict[str, Tree] = {}
-        self.tree_full_scaled: typing.Dict[str, Tree] = {}
-        self.tree_pruned_scaled: typing.Dict[str, Tree] = {}
 
     def _fit_feature(
         self,
@@ -135,12 +133,12 @@ class RegionalEffectBase:
         if not self.is_fitted[feature]:
             self.fit(feature)
 
-    def get_node_info(self, feature, node_idx):
+    def get_node_info(self, feature, node_idx, scale_x_list=None):
         assert self.is_fitted[feature], "Feature {} has not been fitted yet".format(feature)
         assert self.tree_pruned["feature_{}".format(feature)] is not None, "Feature {} has no splits".format(feature)
 
-        if self.tree_pruned_scaled is not None and "feature_{}".format(feature) in self.tree_pruned_scaled.keys():
-            tree = self.tree_pruned_scaled["feature_{}".format(feature)]
+        if scale_x_list is not None:
+            tree = self.partitioners["feature_{}".format(feature)].splits_to_tree(True, scale_x_list)
         else:
             tree = self.tree_pruned["feature_{}".format(feature)]
 
@@ -221,11 +219,7 @@ class RegionalEffectBase:
 
         self.refit(feature)
 
-        if scale_x_list is not None:
-            self.tree_full_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(False, scale_x_list)
-            self.tree_pruned_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(True, scale_x_list)
-
-        data, data_effect, name = self.get_node_info(feature, node_idx)
+        data, data_effect, name = self.get_node_info(feature, node_idx, scale_x_list)
         feature_names = copy.deepcopy(self.feature_names)
         feature_names[feature] = name
         fe_method, eval_args = self._fit_fe_object(feature, data, data_effect, feature_names, centering)
diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index e098687..c4b2d09 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -161,11 +161,7 @@ class RegionalRHALE(RegionalEffectBase):
         # get data from the node
         self.refit(feature)
 
-        if scale_x_list is not None:
-            self.tree_full_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(False, scale_x_list)
-            self.tree_pruned_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(True, scale_x_list)
-
-        data, data_effect, name = self.get_node_info(feature, node_idx)
+        data, data_effect, name = self.get_node_info(feature, node_idx, scale_x_list)
         feature_names = copy.deepcopy(self.feature_names)
         feature_names[feature] = name
 
@@ -311,11 +307,7 @@ class RegionalALE(RegionalEffectBase):
         # get data from the node
         self.refit(feature)
 
-        if scale_x_list is not None:
-            self.tree_full_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(False, scale_x_list)
-            self.tree_pruned_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(True, scale_x_list)
-
-        data, data_effect, name = self.get_node_info(feature, node_idx)
+        data, data_effect, name = self.get_node_info(feature, node_idx, scale_x_list)
         feature_names = copy.deepcopy(self.feature_names)
         feature_names[feature] = name
 
-- 
2.43.0


From 4a558fc75454022ffba4374045525e92e82cd421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 14/30] fix: scale the bins of an (RH)ALE plot when only one
 axis is scaled

---
 effector/visualization.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/effector/visualization.py b/effector/visualization.py
index 4dde363..6a3322f 100644
--- a/effector/visualization.py
+++ b/effector/visualization.py
@@ -76,16 +76,10 @@ def ale_plot(
         if scale_x is None
         else trans_scale(ale_params["dx"], scale_x["std"])
     )
-    bin_variance = (
-        ale_params["bin_variance"]
-        if scale_y is None
-        else trans_bin(ale_params["bin_variance"], scale_x["std"], scale_y["std"], True)
-    )
-    bin_effect = (
-        ale_params["bin_effect"]
-        if scale_y is None
-        else trans_bin(ale_params["bin_effect"], scale_x["std"], scale_y["std"])
-    )
+    std_x = 1. if scale_x is None else scale_x["std"]
+    std_y = 1. if scale_y is None else scale_y["std"]
+    bin_variance = trans_bin(ale_params["bin_variance"], std_x, std_y, True)
+    bin_effect = trans_bin(ale_params["bin_effect"], std_x, std_y)
 
     # PLOT
     fig, (ax1, ax2) = plt.subplots(2, 1, sharex=True)
-- 
2.43.0


From 9c64c6b60da2ac701d093070da40736f5bcee62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 15/30] fix: plot a scaled SHAP-DP without SHAP values

---
 effector/visualization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/effector/visualization.py b/effector/visualization.py
index 6a3322f..c13e232 100644
--- a/effector/visualization.py
+++ b/effector/visualization.py
@@ -248,13 +248,13 @@ def plot_shap(
 
     # scale x-axis
     x = x if scale_x is None else trans_affine(x, scale_x["mean"], scale_x["std"])
-    xx = xx if scale_x is None else trans_affine(xx, scale_x["mean"], scale_x["std"])
+    xx = xx if scale_x is None or xx is None else trans_affine(xx, scale_x["mean"], scale_x["std"])
 
     # scale y-axis
     if scale_y is not None:
         y_std = trans_scale(y_std, scale_y["std"], square=False)
         y = trans_affine(y, scale_y["mean"], scale_y["std"])
-        yy = trans_affine(yy, scale_y["mean"], scale_y["std"])
+        yy = trans_affine(yy, scale_y["mean"], scale_y["std"]) if yy is not None else None
         # if avg_output is not None:
         #     avg_output = trans_scale(avg_output, scale_y["std"], square=False)
 
-- 
2.43.0


From cfefa7da69ac82b8915cea027f983c6a19b7d16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 16/30] fix: scale and label a d-PDP plot as a derivative

---
 effector/global_effect_pdp.py |  1 +
 effector/visualization.py     | 18 +++++++++++-------
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index 03ceade..f667bf3 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -261,6 +261,7 @@ class PDPBase(GlobalEffectBase):
             avg_output=avg_output,
             feature_names=self.feature_names,
             target_name=self.target_name,
+            is_derivative=self.method_name == "d-pdp",
             nof_ice=nof_ice,
             y_limits=y_limits,
         )
diff --git a/effector/visualization.py b/effector/visualization.py
index c13e232..e0805bf 100644
--- a/effector/visualization.py
+++ b/effector/visualization.py
@@ -165,15 +165,19 @@ def plot_pdp_ice(
     x = x if scale_x is None else trans_affine(x, scale_x["mean"], scale_x["std"])
 
     # scale y-axis
-    if scale_y is not None:
+    if is_derivative:
+        # dy/dx changes with the units of both axes
+        std_x = 1. if scale_x is None else scale_x["std"]
+        std_y = 1. if scale_y is None else scale_y["std"]
+        std = trans_bin(std, std_x, std_y)
+        std_err = trans_bin(std_err, std_x, std_y)
+        y_pdp_output = trans_bin(y_pdp_output, std_x, std_y)
+        y_ice_outputs = trans_bin(y_ice_outputs, std_x, std_y)
+    elif scale_y is not None:
         std = trans_scale(std, scale_y["std"], square=False)
         std_err = trans_scale(std_err, scale_y["std"], square=False)
-        if is_derivative:
-            y_pdp_output = trans_scale(y_pdp_output, scale_y["std"], square=False)
-            y_ice_outputs = trans_scale(y_ice_outputs, scale_y["std"], square=False)
-        elif not is_derivative:
-            y_pdp_output = trans_affine(y_pdp_output, scale_y["mean"], scale_y["std"])
-            y_ice_outputs = trans_affine(y_ice_outputs, scale_y["mean"], scale_y["std"])
+        y_pdp_output = trans_affine(y_pdp_output, scale_y["mean"], scale_y["std"])
+        y_ice_outputs = trans_affine(y_ice_outputs, scale_y["mean"], scale_y["std"])
 
     # if avg_output is not None and scale_y is not None:
     #     if not is_derivative:
-- 
2.43.0


From 4554e10a9b157ce9346ff7446c30a1c612730a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 17/30] fix: label a feature without a name with its documented
 default name

---
 effector/visualization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/effector/visualization.py b/effector/visualization.py
index e0805bf..914bee4 100644
--- a/effector/visualization.py
+++ b/effector/visualization.py
@@ -98,7 +98,7 @@ def ale_plot(
 
     ax1.set_ylim(y_limits[0], y_limits[1]) if y_limits is not None else None
 
-    x_name = "x_%d" % (feature + 1) if feature_names is None else feature_names[feature]
+    x_name = "x_%d" % feature if feature_names is None else feature_names[feature]
     ax2.set_xlabel(x_name)
     ax2.set_ylabel("dy/dx")
 
@@ -216,7 +216,7 @@ def plot_pdp_ice(
         ax.axhline(y=avg_output, color="black", linestyle="--", label="avg output")
 
     feature_name = (
-        "x_%d" % (feature + 1) if feature_names is None else feature_names[feature]
+        "x_%d" % feature if feature_names is None else feature_names[feature]
     )
     ax.set_xlabel(feature_name)
     if is_derivative:
@@ -282,7 +282,7 @@ def plot_shap(
         ax.axhline(y=avg_output, color="black", linestyle="--", label="avg output")
 
     feature_name = (
-        "x_%d" % (feature + 1) if feature_names is None else feature_names[feature]
+        "x_%d" % feature if feature_names is None else feature_names[feature]
     )
     ax.set_xlabel(feature_name)
     ax.set_ylabel("y") if target_name is None else ax.set_ylabel(target_name)
-- 
2.43.0


From d1add282de9d6f7b95094d7995eb22a4166eea30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:50 +0000
Subject: [PATCH 18/30] fix: compute the H-index and REPID with the current PDP
 interface, on all selected instances

---
 effector/interaction.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/effector/interaction.py b/effector/interaction.py
index cfa6e04..a968419 100644
--- a/effector/interaction.py
+++ b/effector/interaction.py
@@ -115,14 +115,14 @@ class HIndex:
 
     def _pdp_1d(self, feature, x):
         # eval normalized pdp for feature at x
-        yy = pdp_1d_vectorized(self.model, self.data, x, feature, uncertainty=False, model_returns_jac=False)
+        yy = pdp_1d_vectorized(self.model, self.data, x, feature, heterogeneity=False, model_returns_jac=False)
         c = np.mean(yy)
         return yy - c
 
     def _pdp_2d(self, feature1, feature2, x1, x2):
         features = [feature1, feature2]
         x = np.stack([x1, x2], axis=-1)
-        yy = pdp_nd_vectorized(self.model, self.data, x, features, uncertainty=False, model_returns_jac=False)
+        yy = pdp_nd_vectorized(self.model, self.data, x, features, heterogeneity=False, model_returns_jac=False)
         c = np.mean(yy)
         return yy - c
 
@@ -131,7 +131,7 @@ class HIndex:
         features = [i for i in range(self.nof_features) if i != feature]
         assert len(features) == x.shape[1]
 
-        yy = pdp_nd_vectorized(self.model, self.data, x, features, uncertainty=False, model_returns_jac=False)
+        yy = pdp_nd_vectorized(self.model, self.data, x, features, heterogeneity=False, model_returns_jac=False)
         c = np.mean(yy)
         return yy - c
 
@@ -200,7 +200,7 @@ class REPID:
             return self.one_vs_all_matrix[feat]
 
         axis_limits = effector.helpers.axis_limits_from_data(self.data)
-        pdp = PDP(self.data, self.model, axis_limits)
+        pdp = PDP(self.data, self.model, axis_limits, nof_instances="all")
         pdp.fit(feat)
 
         # find the interaction index
@@ -208,7 +208,7 @@ class REPID:
         stop = axis_limits[:, feat][1]
         x = np.linspace(start, stop, 21)
         x = 0.5 * (x[:-1] + x[1:])
-        mu, std, stderr = pdp.eval(feature=feat, xs=x, uncertainty=True, centering="zero_start") # "zero_integral")
+        mu, std = pdp.eval(feature=feat, xs=x, heterogeneity=True, centering="zero_start") # "zero_integral")
         interaction = np.mean(std)
 
         # store the interaction index
-- 
2.43.0


From a4d3b516a4cb7fa66bd8ca72c6162251bcd4267e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:50 +0000
Subject: [PATCH 19/30] fix: center the model output in the one-vs-all H-index

---
 effector/interaction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/effector/interaction.py b/effector/interaction.py
index a968419..ecd6faf 100644
--- a/effector/interaction.py
+++ b/effector/interaction.py
@@ -106,6 +106,7 @@ class HIndex:
         pdp_minus_1 = self._pdp_minus_1d(feat, self.data[:, [i for i in range(self.nof_features) if i != feat]])
 
         yy = self.model(self.data)
+        yy = yy - np.mean(yy)
         nom = np.mean(np.square(yy - pdp_minus_1 - pdp_1))
         denom = np.mean(np.square(yy))
         interaction = nom / denom
-- 
2.43.0


From d4f135e2befdc10248c3163abc9100bbd438beae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:13 +0000
Subject: [PATCH 20/30] fix: fit the missing features before plotting REPID

---
 effector/interaction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/effector/interaction.py b/effector/interaction.py
index ecd6faf..5f98bd2 100644
--- a/effector/interaction.py
+++ b/effector/interaction.py
@@ -217,7 +217,8 @@ class REPID:
         return interaction
 
     def plot(self):
-        if self.fitted_one_vs_all_matrix is False:
+        # fit the features that have not been fitted
+        if np.any(self.one_vs_all_matrix == self.empty_symbol):
             self.fit()
 
         import matplotlib.pyplot as plt
-- 
2.43.0


From e2dbafb2611bde608cbf4700fb6158d97d079eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:13 +0000
Subject: [PATCH 21/30] fix: draw the interaction matrix without changing it

---
 effector/interaction.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/effector/interaction.py b/effector/interaction.py
index 5f98bd2..68d7810 100644
--- a/effector/interaction.py
+++ b/effector/interaction.py
@@ -141,17 +141,18 @@ class HIndex:
         plt.figure(figsize=(10, 10))
         plt.title("Interaction Matrix")
         # assign the mean to the diagonal values w
-        mu = np.mean(self.interaction_matrix)
+        interaction_matrix = self.interaction_matrix.copy()
+        mu = np.mean(interaction_matrix)
         for i in range(self.nof_features):
-            self.interaction_matrix[i, i] = mu
+            interaction_matrix[i, i] = mu
 
         # plot as a heatmap
-        plt.imshow(self.interaction_matrix)
+        plt.imshow(interaction_matrix)
         plt.colorbar()
         # show grid values
         for i in range(self.nof_features):
             for j in range(self.nof_features):
-                plt.text(j, i, round(self.interaction_matrix[i, j], 2), ha="center", va="center", color="w")
+                plt.text(j, i, round(interaction_matrix[i, j], 2), ha="center", va="center", color="w")
 
         plt.xticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
         plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
-- 
2.43.0


From b055e46cbbe3edacffbbafcd03d20cee582ca828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:46 +0000
Subject: [PATCH 22/30] fix: compute the effects of a regional RHALE on the
 selected instances only

---
 effector/regional_effect_ale.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index c4b2d09..7cb5089 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -40,13 +40,6 @@ class RegionalRHALE(RegionalEffectBase):
             feature_names: list of feature names
         """
 
-        if instance_effects is None:
-            if model_jac is not None:
-                instance_effects = model_jac(data)
-            else:
-                instance_effects = utils.compute_jacobian_numerically(model, helpers.prep_data(data))
-
-
         super(RegionalRHALE, self).__init__(
             "rhale",
             data,
@@ -61,6 +54,13 @@ class RegionalRHALE(RegionalEffectBase):
             target_name
         )
 
+        # compute the effects of the selected instances
+        if self.instance_effects is None:
+            if model_jac is not None:
+                self.instance_effects = model_jac(self.data)
+            else:
+                self.instance_effects = utils.compute_jacobian_numerically(model, self.data)
+
     def _create_heterogeneity_function(self, foi, binning_method, min_points, centering):
         binning_method = prep_binning_method(binning_method)
 
-- 
2.43.0


From 2e90e93fa8847c59bd2acaf57b582c4c8300eb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:09 +0000
Subject: [PATCH 23/30] fix: put the largest value of a feature in the last bin
 at any scale

---
 effector/utils.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/effector/utils.py b/effector/utils.py
index f531864..b9c9dfa 100644
--- a/effector/utils.py
+++ b/effector/utils.py
@@ -50,8 +50,8 @@ def compute_local_effects(
     assert limits[-1] >= np.max(data[:, feature])
 
     # for each point, find the bin-index it belongs to
-    limits[-1] += EPS
-    ind = np.digitize(data[:, feature], limits)
+    # (the last bin includes its right limit)
+    ind = np.minimum(np.digitize(data[:, feature], limits), len(limits) - 1)
     assert np.alltrue(ind > 0)
 
     # compute effect
@@ -139,10 +139,8 @@ def compute_bin_effect(
     """
     empty_symbol = np.NaN
 
-    # find bin-index of points
-    limits_enh = copy.deepcopy(limits).astype(float)
-    limits_enh[-1] += EPS
-    ind = np.digitize(xs, limits_enh)
+    # find bin-index of points (the last bin includes its right limit)
+    ind = np.minimum(np.digitize(xs, limits), len(limits) - 1)
     # assert np.alltrue(ind > 0)
 
     # bin effect is the mean of all points that lie in the bin
@@ -211,11 +209,8 @@ def compute_bin_variance(
     """
     empty_symbol = np.NaN
 
-    # find bin-index of points
-    eps = 1e-8
-    limits_enh = copy.deepcopy(limits).astype(float)
-    limits_enh[-1] += eps
-    ind = np.digitize(xs, limits_enh)
+    # find bin-index of points (the last bin includes its right limit)
+    ind = np.minimum(np.digitize(xs, limits), len(limits) - 1)
     # assert np.alltrue(ind > 0)
 
     # variance of the effect in each bin
-- 
2.43.0


From 2638174a598166417ea2667297117267b03565a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:25 +0000
Subject: [PATCH 24/30] fix: stop accumulating at the last bin limit at any
 scale

---
 effector/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/utils.py b/effector/utils.py
index b9c9dfa..3bf0422 100644
--- a/effector/utils.py
+++ b/effector/utils.py
@@ -347,7 +347,7 @@ def compute_accumulated_effect(
     full_bin_effect = tmp[ind]
 
     # for each point, find the remaining effect
-    tmp = np.concatenate([[limits[0]], limits[:-1], [BIG_M]])
+    tmp = np.concatenate([[limits[0]], limits[:-1], [np.inf]])
     deltas = x - tmp[ind]
     deltas[deltas < 0] = 0  # if xs < left_limit => delta = 0
     deltas = deltas**2 if square else deltas
-- 
2.43.0


From 001a7fa13e93612edb66e8daa4257837e739417e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:43 +0000
Subject: [PATCH 25/30] fix: never let the DP binning trade a forbidden bin for
 a costly one

---
 effector/bin_splitting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/effector/bin_splitting.py b/effector/bin_splitting.py
index 25fcb29..a7f869c 100644
--- a/effector/bin_splitting.py
+++ b/effector/bin_splitting.py
@@ -2,12 +2,12 @@ import typing
 
 import numpy as np
 import effector.utils as utils
-import effector.helpers as helpers
 import matplotlib.pyplot as plt
 
 
 class BinBase:
-    big_M = helpers.BIG_M
+    # the cost of a bin that is not allowed
+    big_M = np.inf
 
     def __init__(self,
                  feature: int,
-- 
2.43.0


From dd74b2c6397cbb501bdc4791e78d11e661e33f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:17 +0000
Subject: [PATCH 26/30] fix: refuse fixed bins on an axis of zero width

---
 effector/bin_splitting.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/effector/bin_splitting.py b/effector/bin_splitting.py
index a7f869c..ec5086f 100644
--- a/effector/bin_splitting.py
+++ b/effector/bin_splitting.py
@@ -371,7 +371,10 @@ class Fixed(BinBase):
             return self.limits
 
         limits, dx = np.linspace(self.xs_min, self.xs_max, num=nof_bins + 1, endpoint=True, retstep=True)
-        if min_points is not None:
+        if not self.xs_min < self.xs_max:
+            # an axis of zero width cannot be split into bins
+            self.limits = False
+        elif min_points is not None:
             limits_valid = all(self._bin_valid(limits[i], limits[i + 1]) for i in range(nof_bins))
             self.limits = limits if limits_valid else False
         else:
-- 
2.43.0


From 876ce0aa05fba05e958326f2b636e1e23181642b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 27/30] fix: make SHAP values of more than 10 features
 reproducible

---
 effector/global_effect_shap.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/effector/global_effect_shap.py b/effector/global_effect_shap.py
index 67dabc2..313688a 100644
--- a/effector/global_effect_shap.py
+++ b/effector/global_effect_shap.py
@@ -107,8 +107,13 @@ class ShapDP(GlobalEffectBase):
         )
 
         # compute shap values
-        shap_explainer = shap.Explainer(self.model, data)
-        explanation = shap_explainer(data)
+        # (above 10 features shap samples permutations: seed it, and leave numpy's global generator as it was)
+        state = np.random.get_state()
+        try:
+            shap_explainer = shap.Explainer(self.model, data, seed=0)
+            explanation = shap_explainer(data)
+        finally:
+            np.random.set_state(state)
 
         # extract x and y pais
         yy = explanation.values[:, feature]
-- 
2.43.0


From 5c2d6a058a006c3677192d4e52bd4eb1c1755c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:47 +0000
Subject: [PATCH 28/30] fix: size the split search by the candidates there are

---
 effector/partitioning.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index ca8c589..833e770 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -149,20 +149,9 @@ class Regions:
         foc = self.foc
         nof_splits = self.nof_candidate_splits_for_numerical
         heter_func = self.heter_func
-        cat_limit = self.cat_limit
 
         data = self.data
 
-        big_M = -BIG_M
-
-        # weighted_heter_drop[i,j] (i index of foc and j index of split position) is
-        # the accumulated heterogeneity drop if I split foc[i] at index j
-        weighted_heter_drop = np.ones([len(foc), max(nof_splits, cat_limit)]) * big_M
-
-        # weighted_heter[i,j] (i index of foc and j index of split position) is
-        # the accumulated heterogeneity if I split foc[i] at index j
-        weighted_heter = np.ones([len(foc), max(nof_splits, cat_limit)]) * big_M
-
         # list with len(foc) elements
         # each element is a list with the split positions for the corresponding feature of conditioning
         candidate_split_positions = [
@@ -171,6 +160,15 @@ class Regions:
             else self.find_positions_cont(data, foc_i, nof_splits)
             for i, foc_i in enumerate(foc)
         ]
+        max_positions = max(len(positions) for positions in candidate_split_positions)
+
+        # weighted_heter_drop[i,j] (i index of foc and j index of split position) is
+        # the accumulated heterogeneity drop if I split foc[i] at index j (-inf, if there is no such position)
+        weighted_heter_drop = np.full([len(foc), max_positions], -np.inf)
+
+        # weighted_heter[i,j] (i index of foc and j index of split position) is
+        # the accumulated heterogeneity if I split foc[i] at index j
+        weighted_heter = np.full([len(foc), max_positions], -np.inf)
 
         # exhaustive search on all split positions
         for i, foc_i in enumerate(foc):
-- 
2.43.0


From 0c9dc11248f79ed4b05dba22f3e1146061f1cec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:47 +0000
Subject: [PATCH 29/30] fix: accept the documented points_for_centering='all'

---
 effector/global_effect_pdp.py  | 2 +-
 effector/global_effect_shap.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index f667bf3..9b498b9 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -60,7 +60,7 @@ class PDPBase(GlobalEffectBase):
         )
 
         if centering is True or centering == "zero_integral":
-            xx = np.linspace(
+            xx = data[:, feature] if points_for_centering == "all" else np.linspace(
                 self.axis_limits[0, feature],
                 self.axis_limits[1, feature],
                 points_for_centering,
diff --git a/effector/global_effect_shap.py b/effector/global_effect_shap.py
index 313688a..75d0622 100644
--- a/effector/global_effect_shap.py
+++ b/effector/global_effect_shap.py
@@ -133,7 +133,7 @@ class ShapDP(GlobalEffectBase):
 
         # compute norm constant
         if centering == "zero_integral":
-            x_norm = np.linspace(xx[0], xx[-1], points_for_centering)
+            x_norm = xx if points_for_centering == "all" else np.linspace(xx[0], xx[-1], points_for_centering)
             y_norm = spline_mean(x_norm)
             norm_const = np.trapz(y_norm, x_norm) / (xx[-1] - xx[0])
         elif centering == "zero_start":
-- 
2.43.0


From 4d480b471646d79f2236852d359ddbe042d81511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:05 +0000
Subject: [PATCH 30/30] fix: count the rows at the largest value in the last
 bin of the DP search

---
 effector/bin_splitting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/effector/bin_splitting.py b/effector/bin_splitting.py
index ec5086f..0f6da73 100644
--- a/effector/bin_splitting.py
+++ b/effector/bin_splitting.py
@@ -252,7 +252,8 @@ class DP(BinBase):
     def _index_to_position(self, index_start, index_stop, K):
         dx = (self.xs_max - self.xs_min) / K
         start = self.xs_min + index_start * dx
-        stop = self.xs_min + index_stop * dx
+        # the last position is xs_max itself, which xs_min + K * dx may miss by a rounding error
+        stop = self.xs_max if index_stop == K else self.xs_min + index_stop * dx
         return start, stop
 
     def _cost_of_move(self, index_before, index_next, K, discount):
@@ -296,6 +297,7 @@ class DP(BinBase):
                 before = lim
 
         limits = self.xs_min + np.array(lim_indices_1) * dx
+        limits[-1] = self.xs_max
         dx_list = np.array(
             [limits[i + 1] - limits[i] for i in range(limits.shape[0] - 1)]
         )
-- 
2.43.0

