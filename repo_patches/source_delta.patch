From 31492c0e922fa1ff7cbebc1010da0e26fdaa09a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:23 +0000
Subject: [PATCH 01/45] fix: do not query a pair of values twice when it occurs
 in several rows

---
 artemis/_utilities/pd_calculator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/artemis/_utilities/pd_calculator.py b/artemis/_utilities/pd_calculator.py
index 5192233..b43ba39 100644
--- a/artemis/_utilities/pd_calculator.py
+++ b/artemis/_utilities/pd_calculator.py
@@ -98,6 +98,8 @@ class PartialDependenceCalculator:
             for value1, value2 in feature_values:
                 f1_ind = get_index(self.pd_pairs[(feature1, feature2)]["f1_values"], value1)
                 f2_ind = get_index(self.pd_pairs[(feature1, feature2)]["f2_values"], value2)
+                if (feature1, feature2, value1, value2) in range_dict:
+                    continue
                 if np.isnan(self.pd_pairs[(feature1, feature2)]["pd_values"][f1_ind, f2_ind]): 
                     change_dict = {feature1: value1, feature2: value2}
                     X_changed = self.X.copy().assign(**change_dict)
-- 
2.43.0


From 492d3ec268194474523032e0dadd35da78c5f4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:23 +0000
Subject: [PATCH 02/45] fix: Greenwell method handles features with a single
 distinct value

---
 .../partial_dependence_based/_greenwell.py            | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_greenwell.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_greenwell.py
index 9468a40..5d2d885 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_greenwell.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_greenwell.py
@@ -80,9 +80,9 @@ class GreenwellMethod(PartialDependenceBasedMethod):
         for pair in self.pairs:
             pair = self.pd_calculator._get_pair_key((pair[0], pair[1]))
             pd_values = self.pd_calculator.get_pd_pairs(pair[0], pair[1])
-            res_j = np.apply_along_axis(stdev, 0, np.apply_along_axis(_calc_conditional_imp, 1, pd_values,
+            res_j = np.apply_along_axis(_stdev, 0, np.apply_along_axis(_calc_conditional_imp, 1, pd_values,
                                                                       is_numerical=pair[1] in num_features))
-            res_i = np.apply_along_axis(stdev, 0, np.apply_along_axis(_calc_conditional_imp, 0, pd_values,
+            res_i = np.apply_along_axis(_stdev, 0, np.apply_along_axis(_calc_conditional_imp, 0, pd_values,
                                                                       is_numerical=pair[0] in num_features))
             value_pairs.append([pair[0], pair[1], (res_j + res_i) / 2])
         return pd.DataFrame(value_pairs, columns=["Feature 1", "Feature 2", self.method]).sort_values(
@@ -90,5 +90,10 @@ class GreenwellMethod(PartialDependenceBasedMethod):
         ).fillna(0)
 
 
+def _stdev(values: np.ndarray):
+    # a single value does not vary
+    return stdev(values) if len(values) > 1 else 0.0
+
+
 def _calc_conditional_imp(pd_values: np.ndarray, is_numerical: bool):
-    return stdev(pd_values) if is_numerical else (np.max(pd_values) - np.min(pd_values)) / 4
+    return _stdev(pd_values) if is_numerical else (np.max(pd_values) - np.min(pd_values)) / 4
-- 
2.43.0


From c8e718cc82f75aa8626eddf082e6dea7a3390d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:43 +0000
Subject: [PATCH 03/45] fix: with a supplied calculator and no prediction
 function, explain what the calculator explains

---
 artemis/additivity/_additivity_meter.py                         | 2 ++
 .../model_agnostic/partial_dependence_based/_pdp.py             | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/artemis/additivity/_additivity_meter.py b/artemis/additivity/_additivity_meter.py
index 1863f5a..2f2aadf 100644
--- a/artemis/additivity/_additivity_meter.py
+++ b/artemis/additivity/_additivity_meter.py
@@ -95,6 +95,8 @@ class AdditivityMeter:
                 raise ValueError(
                     "Data in PDP calculator is different than the data in the method."
                 )
+            if predict_function is None:
+                self.predict_function = pd_calculator.predict_function
             self.pd_calculator = pd_calculator
 
         self.full_result = self.X_sampled.copy()
diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
index 6a29057..26dd8f9 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
@@ -95,6 +95,8 @@ class PartialDependenceBasedMethod(FeatureInteractionMethod):
                 raise ValueError(
                     "Data in PDP calculator is different than the data in the method."
                 )
+            if predict_function is None:
+                self.predict_function = pd_calculator.predict_function
             self.pd_calculator = pd_calculator
 
         self.ovo = self._calculate_ovo_interactions_from_pd(show_progress=show_progress)
-- 
2.43.0


From 7a7c9caff9080e27bee3ea49cfeb1c5fa0b59376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:43 +0000
Subject: [PATCH 04/45] fix: centring values that do not vary gives exact zeros
 (H-statistic of irrelevant features)

---
 artemis/_utilities/ops.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/artemis/_utilities/ops.py b/artemis/_utilities/ops.py
index f399978..4b9469e 100644
--- a/artemis/_utilities/ops.py
+++ b/artemis/_utilities/ops.py
@@ -38,6 +38,9 @@ def all_if_none(X_columns: pd.DataFrame, columns: List[str]):
 
 
 def center(x: np.array):
+    if np.ptp(x) == 0:
+        # the rounding error of the mean must not look like variation
+        return np.zeros(len(x))
     return x - np.mean(x)
 
 
-- 
2.43.0


From 93d1a740ca710fe48f3b3f7fa7b8d5d6bfbc267f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:01 +0000
Subject: [PATCH 05/45] fix: all-but-one partial dependence keeps row values as
 they are (iterrows converts mixed types)

---
 artemis/_utilities/pd_calculator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/artemis/_utilities/pd_calculator.py b/artemis/_utilities/pd_calculator.py
index b43ba39..a8e52cd 100644
--- a/artemis/_utilities/pd_calculator.py
+++ b/artemis/_utilities/pd_calculator.py
@@ -122,8 +122,8 @@ class PartialDependenceCalculator:
         X_full = pd.DataFrame()
         for feature in tqdm(features, desc=desc, disable=not show_progress):
             if np.isnan(self.pd_minus_single[feature]["pd_values"]).any(): 
-                for i, row in self.X.copy().reset_index(drop=True).iterrows():
-                    change_dict = {other_feature: row[other_feature] for other_feature in self.X.columns if other_feature != feature}
+                for i in range(self.X_len):
+                    change_dict = {other_feature: self.X[other_feature].iloc[i] for other_feature in self.X.columns if other_feature != feature}
                     X_changed = self.X.copy().assign(**change_dict)
                     range_dict[(feature, i)] = (current_len, current_len+self.X_len)
                     current_len += self.X_len
-- 
2.43.0


From e6525ff5db066e012714d8e4352e6ffad0a6260c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:47 +0000
Subject: [PATCH 06/45] fix: sampled targets stay attached to their rows
 whatever the index

---
 artemis/_utilities/ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/artemis/_utilities/ops.py b/artemis/_utilities/ops.py
index 4b9469e..2fb8068 100644
--- a/artemis/_utilities/ops.py
+++ b/artemis/_utilities/ops.py
@@ -26,8 +26,8 @@ def sample_both_if_not_none(random_generator, X: pd.DataFrame, y: np.array, n: i
     if n is None:
         return X, y
     else:
-        X_sampled = X.sample(n, random_state=random_generator)
-        return X_sampled, y[X_sampled.index]
+        positions = pd.Series(np.arange(len(X))).sample(n, random_state=random_generator).values
+        return X.iloc[positions], y.iloc[positions] if isinstance(y, pd.Series) else y[positions]
 
 
 def all_if_none(X_columns: pd.DataFrame, columns: List[str]):
-- 
2.43.0


From 0d8aa363b1f19e34864551d4952e70297fe530bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:47 +0000
Subject: [PATCH 07/45] fix: permutation importance of all features when none
 are named

---
 .../model_agnostic/_permutational_importance.py                | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/artemis/importance_methods/model_agnostic/_permutational_importance.py b/artemis/importance_methods/model_agnostic/_permutational_importance.py
index 4901bbd..f252286 100644
--- a/artemis/importance_methods/model_agnostic/_permutational_importance.py
+++ b/artemis/importance_methods/model_agnostic/_permutational_importance.py
@@ -6,6 +6,7 @@ from tqdm import tqdm
 
 from artemis.importance_methods._method import FeatureImportanceMethod
 from artemis._utilities.domain import ImportanceMethod, ProgressInfoLog, ProblemType
+from artemis._utilities.ops import all_if_none
 from artemis._utilities.performance_metrics import Metric, RMSE
 
 
@@ -75,7 +76,7 @@ class PermutationImportance(FeatureImportanceMethod):
             Result dataframe containing feature importance with columns: "Feature", "Importance"
         """
         self.feature_importance = _permutation_importance(
-            model, X, y_true, self.metric, n_repeat, features, show_progress, self._random_generator
+            model, X, y_true, self.metric, n_repeat, all_if_none(X.columns, features), show_progress, self._random_generator
         )
         return self.feature_importance
     @property
-- 
2.43.0


From a9e0ba381a8c9c44132af9990e1fe2d4b699c5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:25 +0000
Subject: [PATCH 08/45] fix: conditional minimal depth of best-first grown
 trees (max_leaf_nodes)

---
 .../_conditional_minimal_depth.py             | 24 +++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
index 7525c24..c4fe54f 100644
--- a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
+++ b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
@@ -233,12 +233,26 @@ def _bfs(tree: pd.DataFrame):
 
 
 def _tree_representation(decision_tree_object):
-    """Efficient, sklearn-like table tree representation. Row = node in the tree."""
+    """Efficient, sklearn-like table tree representation. Row = node in the tree, in preorder.
+
+    Trees limited by `max_leaf_nodes` are grown best-first, so the numbering of their nodes has to be changed
+    for node ids of every subtree to form an interval.
+    """
+    left, right = decision_tree_object.children_left, decision_tree_object.children_right
+    order, stack = [], [0]
+    while stack:
+        node = stack.pop()
+        order.append(node)
+        if left[node] >= 0:
+            stack.extend((right[node], left[node]))
+
+    new_id = np.full(decision_tree_object.node_count + 1, -1)  # the last element maps -1 (no child) to itself
+    new_id[order] = range(len(order))
     return pd.DataFrame({
-        "id": range(decision_tree_object.node_count),
-        "left_child": decision_tree_object.children_left,
-        "right_child": decision_tree_object.children_right,
-        "split_variable": decision_tree_object.feature,
+        "id": range(len(order)),
+        "left_child": new_id[left[order]],
+        "right_child": new_id[right[order]],
+        "split_variable": decision_tree_object.feature[order],
     })
 
 
-- 
2.43.0


From 207b0443b37c5a392ae3ac15e1e71af72f1a421e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:25 +0000
Subject: [PATCH 09/45] fix: minimal depth importance of a forest without any
 split is empty

---
 artemis/importance_methods/model_specific/_minimal_depth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/importance_methods/model_specific/_minimal_depth.py b/artemis/importance_methods/model_specific/_minimal_depth.py
index f6911ea..6d08714 100644
--- a/artemis/importance_methods/model_specific/_minimal_depth.py
+++ b/artemis/importance_methods/model_specific/_minimal_depth.py
@@ -70,7 +70,7 @@ class MinimalDepthImportance(FeatureImportanceMethod):
             )
 
         self.feature_importance = pd.DataFrame.from_records(
-            records_result
+            records_result, columns=["Feature", "Importance"]
         ).sort_values(by="Importance", ignore_index=True)
 
         return self.feature_importance
-- 
2.43.0


From 7910d2ab4fc40aa7eb192065091e979b0e7fef48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:33 +0000
Subject: [PATCH 10/45] fix: split score of models whose trees have a single
 split only

---
 .../model_specific/gb_trees/_split_score.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
index 0b4d0a7..4496ee5 100644
--- a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
+++ b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
@@ -206,7 +206,7 @@ def _calculate_full_result(
         .progress_apply(_prepare_stats, package=model_package)
         .reset_index(drop=True)
     )
-    return full_result[_COLUMNS_TO_CHOSE]
+    return full_result.reindex(columns=_COLUMNS_TO_CHOSE)  # no parent columns if there are only single-split trees
 
 
 def _prepare_stats(tree: pd.DataFrame, package: str):
-- 
2.43.0


From 42f22f436f32b5c169262167a2d38d991aee1a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:58 +0000
Subject: [PATCH 11/45] fix: split score importance of a model without any
 split is empty

---
 .../importance_methods/model_specific/_split_score.py  | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/artemis/importance_methods/model_specific/_split_score.py b/artemis/importance_methods/model_specific/_split_score.py
index f88e901..dc8782b 100644
--- a/artemis/importance_methods/model_specific/_split_score.py
+++ b/artemis/importance_methods/model_specific/_split_score.py
@@ -133,12 +133,10 @@ def _calculate_root_metrics(trees_df: pd.DataFrame):
 
 
 def _calculate_mean_weighted_depth_metric(trees_df: pd.DataFrame):
-    return pd.Series(
-        trees_df.groupby("split_feature").apply(
-            lambda x: np.average(x.depth, weights=x.gain)
-        ),
-        name="mean_weighted_depth",
-    )
+    grouped = trees_df.assign(
+        weighted_depth=trees_df["depth"].astype(float) * trees_df["gain"]
+    ).groupby("split_feature")
+    return (grouped["weighted_depth"].sum() / grouped["gain"].sum()).rename("mean_weighted_depth")
 
 
 def _select_metric(importance_full_result: pd.DataFrame, selected_metric: str):
-- 
2.43.0


From e83f6cc063c90e7d1961344735e25c1abcfe1a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:58 +0000
Subject: [PATCH 12/45] fix: split score importance by depth lists the
 shallowest features first

---
 artemis/importance_methods/model_specific/_split_score.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/artemis/importance_methods/model_specific/_split_score.py b/artemis/importance_methods/model_specific/_split_score.py
index dc8782b..9928664 100644
--- a/artemis/importance_methods/model_specific/_split_score.py
+++ b/artemis/importance_methods/model_specific/_split_score.py
@@ -75,8 +75,8 @@ class SplitScoreImportance(FeatureImportanceMethod):
         self.full_result = _calculate_all_feature_importance(
             trees_df, features, selected_metric
         )
-        self.feature_importance = _select_metric(self.full_result, selected_metric)
         self.selected_metric = selected_metric
+        self.feature_importance = _select_metric(self.full_result, selected_metric, self.importance_ascending_order)
 
         return self.feature_importance
 
@@ -139,12 +139,12 @@ def _calculate_mean_weighted_depth_metric(trees_df: pd.DataFrame):
     return (grouped["weighted_depth"].sum() / grouped["gain"].sum()).rename("mean_weighted_depth")
 
 
-def _select_metric(importance_full_result: pd.DataFrame, selected_metric: str):
+def _select_metric(importance_full_result: pd.DataFrame, selected_metric: str, ascending: bool):
     feature_importance = importance_full_result[
         ["split_feature", selected_metric]
     ].rename(columns={"split_feature": "Feature", selected_metric: "Importance"})
     return feature_importance.sort_values(
-        by="Importance", ascending=False, ignore_index=True
+        by="Importance", ascending=ascending, ignore_index=True
     )
 
 
-- 
2.43.0


From ad543a3ca09f9d98e5a416cf6ccb90e509e1c171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:58 +0000
Subject: [PATCH 13/45] fix: split score importance accepts boosted models as
 the interaction method does

---
 artemis/importance_methods/model_specific/_split_score.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/artemis/importance_methods/model_specific/_split_score.py b/artemis/importance_methods/model_specific/_split_score.py
index 9928664..aad305f 100644
--- a/artemis/importance_methods/model_specific/_split_score.py
+++ b/artemis/importance_methods/model_specific/_split_score.py
@@ -5,6 +5,7 @@ import pandas as pd
 from tqdm import tqdm
 
 from artemis.importance_methods._method import FeatureImportanceMethod
+from artemis._utilities._handler import GBTreesHandler
 from artemis._utilities.domain import ImportanceMethod
 from artemis._utilities.split_score_metrics import SplitScoreImportanceMetric
 
@@ -68,6 +69,8 @@ class SplitScoreImportance(FeatureImportanceMethod):
             Result dataframe containing feature importance with columns: "Feature", "Importance"
         """
         if trees_df is None:
+            if not isinstance(model, GBTreesHandler):
+                model = GBTreesHandler(model)
             trees_df = model.trees_df
 
         if trees_df["depth"].isnull().values.any():
-- 
2.43.0


From 16e2c8e255c4a7d13bef2d0f7ccdb75402ed1e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:03 +0000
Subject: [PATCH 14/45] fix: a rejected split score fit keeps the previous
 results and their ordering

---
 .../model_specific/gb_trees/_split_score.py   | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
index 4496ee5..c496e40 100644
--- a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
+++ b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
@@ -87,22 +87,27 @@ class SplitScoreMethod(FeatureInteractionMethod):
         """
         if not isinstance(model, GBTreesHandler):
             model = GBTreesHandler(model)
-        self.metric = interaction_selected_metric
         _check_metrics_with_available_info(model.package, interaction_selected_metric, importance_selected_metric)
-        self.full_result = _calculate_full_result(
+        full_result = _calculate_full_result(
             model.trees_df, model.package, show_progress
         )
-        self.full_ovo = _get_summary(self.full_result, only_def_interactions)
-        self.ovo = _get_ovo(self, self.full_ovo, interaction_selected_metric)
+        full_ovo = _get_summary(full_result, only_def_interactions)
+        ovo = _get_ovo(self.method, full_ovo, interaction_selected_metric)
 
         # calculate feature importance
-        self._feature_importance_obj = SplitScoreImportance()
-        self.feature_importance = self._feature_importance_obj.importance(
+        feature_importance_obj = SplitScoreImportance()
+        feature_importance = feature_importance_obj.importance(
             model=model,
             selected_metric=importance_selected_metric,
             trees_df=model.trees_df,
         )
 
+        # nothing is changed by a fit that was rejected above
+        self.metric = interaction_selected_metric
+        self.full_result, self.full_ovo, self.ovo = full_result, full_ovo, ovo
+        self._feature_importance_obj = feature_importance_obj
+        self.feature_importance = feature_importance
+
     def plot(self, vis_type: str = VisualizationType.HEATMAP, title: str = "default", figsize: Tuple[float, float] = (8, 6), **kwargs):
         """
         Plot results of explanations.
@@ -271,7 +276,7 @@ def _get_summary(full_result: pd.DataFrame, only_def_interactions: bool = True):
 
 
 def _get_ovo(
-    method_class: SplitScoreMethod,
+    method: str,
     full_ovo: pd.DataFrame,
     selected_metric: SplitScoreInteractionMetric,
 ):
@@ -281,10 +286,10 @@ def _get_ovo(
             columns={
                 "parent_feature": "Feature 1",
                 "child_feature": "Feature 2",
-                selected_metric: method_class.method,
+                selected_metric: method,
             }
         )
-        .sort_values(by=method_class.method, ascending=method_class._interactions_ascending_order, ignore_index=True)
+        .sort_values(by=method, ascending=selected_metric in _ASCENDING_ORDER_METRICS, ignore_index=True)
     )
 
 def _check_metrics_with_available_info(package, interaction_selected_metric, importance_selected_metric):
-- 
2.43.0


From df0d691168896f0968e913e7cc75498e74c1aca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:52 +0000
Subject: [PATCH 15/45] fix: importances of the Sejong Oh method follow its
 random state

---
 .../model_agnostic/performance_based/_sejong_oh.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py b/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
index 7468f36..9d9c0b3 100644
--- a/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
+++ b/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
@@ -103,7 +103,7 @@ class SejongOhMethod(FeatureInteractionMethod):
         self.ovo = _perf_based_ovo(self, model, self.X_sampled, self.y_sampled, n_repeat, show_progress)
 
         # calculate feature importance
-        self._feature_importance_obj = PermutationImportance(self.metric)
+        self._feature_importance_obj = PermutationImportance(self.metric, random_state=self._random_generator)
         self.feature_importance = self._feature_importance_obj.importance(model, X=self.X_sampled,
                                                                             y_true=self.y_sampled,
                                                                             n_repeat=n_repeat,
-- 
2.43.0


From ad49f0d337f92fb4c02f33684934f480f2b6b332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:52 +0000
Subject: [PATCH 16/45] fix: H-statistic without one-vs-all can be plotted and
 shows no stale one-vs-all values

---
 .../partial_dependence_based/_friedman_h_statistic.py        | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
index ceeaa46..af47695 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
@@ -105,8 +105,7 @@ class FriedmanHStatisticMethod(PartialDependenceBasedMethod):
             If True, one vs all interactions will be calculated. Default is True.
         """
         super().fit(model, X, n, predict_function, features, show_progress, batchsize, pd_calculator)
-        if calculate_ova:
-            self.ova = self._calculate_ova_interactions_from_pd(show_progress)
+        self.ova = self._calculate_ova_interactions_from_pd(show_progress) if calculate_ova else None
 
     def plot(self,
              vis_type: str = VisualizationType.HEATMAP,
@@ -176,7 +175,7 @@ class FriedmanHStatisticMethod(PartialDependenceBasedMethod):
             Used for 'graph' visualization. Minimum (or maximum, depends on method) value of interaction to display
             corresponding edge on visualization. Default depends on the interaction method.
         """
-        if self.ova is None:
+        if self.ovo is None or (self.ova is None and vis_type == VisualizationType.BAR_CHART_OVA):
             raise MethodNotFittedException(self.method)
 
         self.visualizer.plot(self.ovo,
-- 
2.43.0


From 43be7f17dd73430b102d62fabbe70f1874b74c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:38 +0000
Subject: [PATCH 17/45] fix: profile, zen and comparison plots before fit raise
 the not-fitted error and draw nothing

---
 artemis/comparison/_method_comparator.py                     | 1 +
 .../model_agnostic/partial_dependence_based/_pdp.py          | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/artemis/comparison/_method_comparator.py b/artemis/comparison/_method_comparator.py
index 0cc98ce..1cfcd1a 100644
--- a/artemis/comparison/_method_comparator.py
+++ b/artemis/comparison/_method_comparator.py
@@ -112,6 +112,7 @@ class FeatureInteractionMethodComparator:
         -------
         Figure
         """
+        _assert_fitted_ovo(method1, method2)
         m1_name, m2_name = method1.method, method2.method
         fig, ax = plt.subplots(figsize=figsize)
         ax.set_axisbelow(True)
diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
index 26dd8f9..db2f331 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
@@ -10,6 +10,7 @@ import seaborn as sns
 from artemis.importance_methods.model_agnostic import PartialDependenceBasedImportance
 from artemis.interactions_methods._method import FeatureInteractionMethod
 from artemis._utilities.domain import ProgressInfoLog, VisualizationType
+from artemis._utilities.exceptions import MethodNotFittedException
 from artemis._utilities.ops import get_predict_function, sample_if_not_none, all_if_none
 from artemis._utilities.pd_calculator import PartialDependenceCalculator
 from artemis._utilities.zenplot import (
@@ -134,6 +135,8 @@ class PartialDependenceBasedMethod(FeatureInteractionMethod):
         figsize : (float, float) 
             Size of plot. Default is (8, 6).
         """
+        if self.ovo is None:
+            raise MethodNotFittedException(self.method)
         plt.figure(figsize=figsize)
         if feature2 is not None:
             pair_key = self.pd_calculator._get_pair_key((feature1, feature2))
@@ -199,6 +202,8 @@ class PartialDependenceBasedMethod(FeatureInteractionMethod):
         ----------
         - https://www.jstatsoft.org/article/view/v095i04
         """
+        if self.ovo is None:
+            raise MethodNotFittedException(self.method)
         fig = plt.figure(figsize=figsize)
         to_vis = self.ovo.copy().iloc[:(zenpath_length + 1)]
         min_pd, max_pd = get_pd_dict(self.pd_calculator, to_vis)
-- 
2.43.0


From 98b6f3b087f62098f1235a610a17db563b2e9d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:38 +0000
Subject: [PATCH 18/45] fix: conditional minimal depth of different feature
 pairs with the same concatenated names is not averaged

---
 .../model_specific/random_forest/_conditional_minimal_depth.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
index c4fe54f..34271c5 100644
--- a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
+++ b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
@@ -56,7 +56,7 @@ class ConditionalMinimalDepthMethod(FeatureInteractionMethod):
         if self.ovo is None:
             raise MethodNotFittedException(self.method)
         compare_ovo = self.ovo.copy().rename(columns={"root_variable": "Feature 1", "variable": "Feature 2"})
-        compare_ovo['id'] = compare_ovo[["Feature 1", "Feature 2"]].apply(lambda x: "".join(sorted(x)), axis=1)
+        compare_ovo['id'] = compare_ovo[["Feature 1", "Feature 2"]].apply(lambda x: tuple(sorted(x)), axis=1)
         return (compare_ovo.groupby("id")
                            .agg({"Feature 1": "first", "Feature 2": "first", self.method: "mean"})
                            .sort_values(InteractionMethod.CONDITIONAL_MINIMAL_DEPTH,
-- 
2.43.0


From 5d5bb8561fa85e2def9d87247ebea7e673a535d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:38 +0000
Subject: [PATCH 19/45] fix: comparison correlates the ranks of the same
 feature pairs

---
 artemis/comparison/_method_comparator.py | 29 +++++++++++++++---------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/artemis/comparison/_method_comparator.py b/artemis/comparison/_method_comparator.py
index 1cfcd1a..9fe006b 100644
--- a/artemis/comparison/_method_comparator.py
+++ b/artemis/comparison/_method_comparator.py
@@ -177,12 +177,25 @@ class FeatureInteractionMethodComparator:
 
 
 def _rank_interaction_values_encoded(method1, method2):
-    rank_features_m1 = method1._compare_ovo.apply(lambda row: _alphabetical_order_pair(row), axis=1)
-    rank_features_m2 = method2._compare_ovo.apply(lambda row: _alphabetical_order_pair(row), axis=1)
-    rank_features_encoded = pd.concat(
-        [rank_features_m1.astype('category').cat.codes, rank_features_m2.astype('category').cat.codes], axis=1)
+    """Rank of each feature pair by strength in both methods, aligned on the pair."""
+    values = _common_pairs_values(method1, method2)
 
-    return rank_features_encoded
+    return pd.concat([values[0].rank(ascending=method1._interactions_ascending_order),
+                      values[1].rank(ascending=method2._interactions_ascending_order)], axis=1)
+
+
+def _common_pairs_values(method1, method2):
+    """Values of the pairs of features that are defined in both methods, in the order of method1."""
+    return pd.concat([_pair_values(method1), _pair_values(method2)], axis=1, join="inner", keys=[0, 1]).dropna()
+
+
+def _pair_values(method):
+    values = dict()
+    compare_ovo = method._compare_ovo
+    for f1, f2, value in zip(compare_ovo["Feature 1"], compare_ovo["Feature 2"], compare_ovo[method.method]):
+        values.setdefault(tuple(sorted([f1, f2])), value)  # out of two directions, the stronger comes first
+
+    return pd.Series(values, dtype=float)
 
 
 def _title_x_y(ax, m1_name, m2_name):
@@ -230,9 +243,3 @@ def _assert_fitted_ovo(method1: FeatureInteractionMethod, method2: FeatureIntera
 
 def _suitable_for_ovo(method: FeatureInteractionMethod):
     return method._compare_ovo is not None
-
-
-def _alphabetical_order_pair(row):
-    features_alphabetical = sorted([row["Feature 1"], row["Feature 2"]])
-
-    return "-".join(features_alphabetical)
-- 
2.43.0


From 9f41931ec68ccb58917ba3bea2a0f811e99e4914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:38 +0000
Subject: [PATCH 20/45] fix: comparison plot has one point per feature pair
 valued in both methods

---
 artemis/comparison/_method_comparator.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/artemis/comparison/_method_comparator.py b/artemis/comparison/_method_comparator.py
index 9fe006b..a41518c 100644
--- a/artemis/comparison/_method_comparator.py
+++ b/artemis/comparison/_method_comparator.py
@@ -120,10 +120,8 @@ class FeatureInteractionMethodComparator:
         circle_r = 0.2 * min(max(method1._compare_ovo[m1_name]), max(method2._compare_ovo[m2_name]))
 
         x, y = [], []
-        for index, row in method1._compare_ovo.iterrows():
+        for index, ((f1, f2), (x_curr, y_curr)) in enumerate(_common_pairs_values(method1, method2).iterrows()):
 
-            f1, f2 = row["Feature 1"], row["Feature 2"]
-            x_curr, y_curr = row[method1.method], method2.interaction_value(f1, f2)
             x.append(x_curr)
             y.append(y_curr)
 
-- 
2.43.0


From 8642484bf05778014f7fcfc21fe5d1417657f73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:38 +0000
Subject: [PATCH 21/45] fix: correlation box states the correlations of the
 plotted methods

---
 artemis/comparison/_method_comparator.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/artemis/comparison/_method_comparator.py b/artemis/comparison/_method_comparator.py
index a41518c..2e1ab20 100644
--- a/artemis/comparison/_method_comparator.py
+++ b/artemis/comparison/_method_comparator.py
@@ -136,11 +136,7 @@ class FeatureInteractionMethodComparator:
             plt.gca().invert_yaxis()
 
         if add_correlation_box:
-
-            corr = self.correlations_df
-            if self.correlations_df is None:
-                corr = self.correlations(method1, method2)
-
+            corr = self.correlations(method1, method2)
             _add_correlation_box(ax, corr)
 
         _title_x_y(ax, m1_name, m2_name)
-- 
2.43.0


From ea3821a52cfac478207e9d0dc48fff4e7e828f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:24 +0000
Subject: [PATCH 22/45] fix: one-vs-all bar chart uses the requested title

---
 artemis/visualizer/_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index e46d4ee..2377742 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -69,7 +69,7 @@ class Visualizer:
                 **kwargs,
             )
         elif vis_type == VisualizationType.BAR_CHART_OVA:
-            self.plot_barchart_ova(ova, figsize=figsize, **kwargs)
+            self.plot_barchart_ova(ova, title=title, figsize=figsize, **kwargs)
         elif vis_type == VisualizationType.HEATMAP:
             self.plot_heatmap(
                 ovo,
-- 
2.43.0


From 8226d91d862fcbaa255dbb9a8b6b6067ceae999b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:24 +0000
Subject: [PATCH 23/45] fix: summary panels use the same ordering as the
 individual plots

---
 artemis/visualizer/_visualizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index 2377742..f11d81c 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -51,6 +51,7 @@ class Visualizer:
                 title=title,
                 figsize=figsize,
                 interactions_ascending_order=interactions_ascending_order,
+                importance_ascending_order=importance_ascending_order,
                 _f1_name=_feature_column_name_1,
                 _f2_name=_feature_column_name_2,
                 _directed=_directed,
@@ -405,6 +406,7 @@ class Visualizer:
             title: str = "default",
             figsize: Tuple[float, float] = (8, 6),
             interactions_ascending_order: bool = False,
+            importance_ascending_order: bool = False,
             _f1_name: str = "Feature 1",
             _f2_name: str = "Feature 2",
             _directed: bool = False,
@@ -425,6 +427,7 @@ class Visualizer:
             ovo,
             feature_importance,
             interactions_ascending_order=interactions_ascending_order,
+            importance_ascending_order=importance_ascending_order,
             ax=ax1,
             _f1_name=_f1_name,
             _f2_name=_f2_name,
@@ -434,6 +437,7 @@ class Visualizer:
         self.plot_interaction_graph(
             ovo,
             feature_importance,
+            interactions_ascending_order=interactions_ascending_order,
             ax=ax2,
             _f1_name=_f1_name,
             _f2_name=_f2_name,
-- 
2.43.0


From b9be96d5906174d950fd3c7bd02eb7eedcd56334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:24 +0000
Subject: [PATCH 24/45] fix: heatmap of models with unused features or
 same-feature pairs has every importance on the diagonal

---
 artemis/visualizer/_visualizer.py | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index f11d81c..5d592cb 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -187,9 +187,9 @@ class Visualizer:
 
         if feature_importance is not None:
             var_imp_diag = self._feature_importance_diag(
-                ovo, feature_importance, _f1_name=_f1_name, _f2_name=_f2_name
+                feature_importance, _f1_name=_f1_name, _f2_name=_f2_name
             )
-            ovo_all_pairs = pd.concat([ovo_all_pairs, var_imp_diag])
+            ovo_all_pairs = pd.concat([var_imp_diag, ovo_all_pairs])
 
         fig = None
         if ax is not None:
@@ -579,25 +579,17 @@ class Visualizer:
 
     def _feature_importance_diag(
             self,
-            ovo,
             feature_importance: pd.DataFrame,
             _f1_name: str = "Feature 1",
             _f2_name: str = "Feature 2",
     ):
-        all_features = set(list(ovo[_f1_name]) + list(ovo[_f2_name]))
-        var_imp_diag = pd.DataFrame.from_records(
-            [
-                {
-                    _f1_name: f,
-                    _f2_name: f,
-                    self.method: feature_importance[
-                        feature_importance["Feature"] == f
-                        ]["Importance"].values[0],
-                }
-                for f in all_features
-            ]
+        return pd.DataFrame(
+            {
+                _f1_name: feature_importance["Feature"],
+                _f2_name: feature_importance["Feature"],
+                self.method: feature_importance["Importance"],
+            }
         )
-        return var_imp_diag
 
     def _filter_insignificant_interactions(self,
                                            interactions_ascending_order: bool,
@@ -635,9 +627,9 @@ class Visualizer:
         for f in features:
             f_copy = features.copy()
             f_copy.remove(f)
-            scores[f.lower()] = feature_importance[f] * 1 / lambda_1 + max(matrix[f][f_copy]) * 1 / lambda_2
+            scores[f] = feature_importance[f] * 1 / lambda_1 + matrix[f][f_copy].max() * 1 / lambda_2
 
-        ind = matrix.sort_index(key=lambda x: [scores[f_lower] for f_lower in x.str.lower()], ascending=asc_order).index
+        ind = matrix.sort_index(key=lambda x: [scores[f] for f in x], ascending=asc_order).index
         m = matrix.reindex(ind)  # re-order rows
 
         return m[list(ind)]  # re-order columns
-- 
2.43.0


From 4dea3e8f978c3d574552846960dc25906564ec5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:24 +0000
Subject: [PATCH 25/45] fix: bar chart of an empty interaction table is empty

---
 artemis/visualizer/_visualizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index 5d592cb..fe53b83 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -355,6 +355,8 @@ class Visualizer:
         ax.set_axisbelow(True)
         ovo_copy = ovo.copy()
         ovo_copy["Interaction"] = ovo_copy[_f1_name] + ":" + ovo_copy[_f2_name]
+        if len(ovo_copy) == 0:
+            return  # no interactions to show
         ovo_copy.head(top_k).plot.barh(
             x="Interaction",
             y=self.method,
-- 
2.43.0


From 3195ad22f67ceb322b93fa12958a7862340bec26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:36 +0000
Subject: [PATCH 26/45] fix: strongest interactions are drawn widest in the
 graph, also for smaller-is-stronger methods and equal values

---
 artemis/visualizer/_visualizer.py | 41 +++++++++++++------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index fe53b83..a077bc3 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -273,7 +273,8 @@ class Visualizer:
         ovo_no_sig_inter = self._filter_insignificant_interactions(interactions_ascending_order,
                                                                    threshold_relevant_interaction, ovo_copy)
 
-        self._interactions_to_edge_widths(interactions_ascending_order, ovo_copy, max_edge_width)
+        self._interactions_to_edge_widths(interactions_ascending_order, threshold_relevant_interaction, ovo_copy,
+                                          max_edge_width)
 
         # return ovo_processed, ovo_no_sig_inter
         G = nx.from_pandas_edgelist(
@@ -320,17 +321,22 @@ class Visualizer:
                 font_weight=font_weight,
             )
 
-    def _interactions_to_edge_widths(self, interactions_ascending_order: bool, ovo_copy: pd.DataFrame,
-                                     max_width: float):
+    def _interactions_to_edge_widths(self, interactions_ascending_order: bool, threshold_relevant_interaction: float,
+                                     ovo_copy: pd.DataFrame, max_width: float):
 
-        # standardize edge widths by scaling interactions to [0,1] interval
-        self._scale_to_unit_interval(ovo_copy)
-
-        # a => (1 - a) for ascending order
-        self._reverse_scale_for_ascending(interactions_ascending_order, ovo_copy)
+        # standardize edge widths by scaling interactions to [0,1] interval, non-significant ones being the weakest
+        significant = ovo_copy[self.method].notna()
+        vals = ovo_copy[self.method].fillna(threshold_relevant_interaction if interactions_ascending_order else 0)
+        m, M = np.min(vals), np.max(vals)
+        if M == m:
+            scaled = vals * 0 + 1
+        elif interactions_ascending_order:
+            scaled = (M - vals) / (M - m)
+        else:
+            scaled = (vals - m) / (M - m)
 
         # map to width
-        self._map_to_width(max_width, ovo_copy)
+        ovo_copy[self.method] = scaled.where(significant, 0) * max_width
 
     def plot_barchart_ovo(
             self,
@@ -598,25 +604,12 @@ class Visualizer:
                                            threshold_relevant_interaction: float,
                                            ovo_copy: pd.DataFrame):
         if interactions_ascending_order:
-            ovo_copy.loc[ovo_copy[self.method] > threshold_relevant_interaction, self.method] = 0
+            ovo_copy.loc[ovo_copy[self.method] > threshold_relevant_interaction, self.method] = np.nan
         else:
-            ovo_copy.loc[ovo_copy[self.method] < threshold_relevant_interaction, self.method] = 0
+            ovo_copy.loc[ovo_copy[self.method] < threshold_relevant_interaction, self.method] = np.nan
 
         return ovo_copy.copy()
 
-    def _scale_to_unit_interval(self, ovo_copy: pd.DataFrame):
-        vals = ovo_copy[self.method]
-        m, M = np.min(vals), np.max(vals)
-        ovo_copy.loc[:, self.method] = (vals - m) / (M - m)
-
-    def _reverse_scale_for_ascending(self, interactions_ascending_order: bool, ovo_copy: pd.DataFrame):
-        if interactions_ascending_order:
-            ovo_copy.loc[ovo_copy[self.method] > 0, self.method] = 1 - ovo_copy.loc[
-                ovo_copy[self.method] > 0, self.method]
-
-    def _map_to_width(self, max_width: float, ovo_copy: pd.DataFrame):
-        ovo_copy[self.method] = ovo_copy[self.method] * max_width
-
     @staticmethod
     def order_heatmap(matrix: pd.DataFrame, asc_order: bool) -> pd.DataFrame:
         feature_importance = pd.Series(np.diag(matrix), index=matrix.index)
-- 
2.43.0


From 92195499c9f4ce06c0a24ebf8d1551bdd2ff736f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:36 +0000
Subject: [PATCH 27/45] fix: an undirected graph edge shows the stronger of two
 directions

---
 artemis/visualizer/_visualizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index a077bc3..c007248 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -268,6 +268,9 @@ class Visualizer:
             plt.title(title)
 
         ovo_copy = ovo.copy()
+        if not _directed:  # out of two directions, the stronger comes first
+            pairs = pd.Index([tuple(sorted(pair)) for pair in zip(ovo[_f1_name], ovo[_f2_name])])
+            ovo_copy = ovo_copy[~pairs.duplicated()].copy()
 
         # filter out non-significant interactions according to the order
         ovo_no_sig_inter = self._filter_insignificant_interactions(interactions_ascending_order,
-- 
2.43.0


From 3777885fbe7a7c3174287f86fc85f466a75e529a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:36 +0000
Subject: [PATCH 28/45] fix: graph of features without interactions or without
 importance

---
 artemis/visualizer/_visualizer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index c007248..677712b 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -287,6 +287,9 @@ class Visualizer:
             edge_attr=self.method,
             create_using=nx.DiGraph if _directed else nx.Graph,
         )
+        if feature_importance is not None:
+            G.add_nodes_from(feature_importance["Feature"])
+            importance = dict(zip(feature_importance["Feature"], feature_importance["Importance"]))
         pos = nx.circular_layout(G)
 
         nx.draw(
@@ -295,12 +298,9 @@ class Visualizer:
             ax=ax,
             width=[G[u][v][self.method] for u, v in G.edges()],
             with_labels=True,
-            nodelist=list(feature_importance["Feature"])
-            if feature_importance is not None
-            else None,
             node_size=[
-                node_size * val / np.max(feature_importance["Importance"])
-                for val in feature_importance["Importance"]
+                node_size * importance.get(feature, 0) / np.max(feature_importance["Importance"])
+                for feature in G.nodes()
             ]
             if feature_importance is not None
             else node_size,
-- 
2.43.0


From 57fafedf5d0a4142837196e1ad10d68c99aa9e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:36 +0000
Subject: [PATCH 29/45] fix: zenplot shows all pairs if there are fewer than
 asked for, and labels its last panel with its own features

---
 .../partial_dependence_based/_pdp.py              | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
index db2f331..da903e4 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
@@ -205,6 +205,7 @@ class PartialDependenceBasedMethod(FeatureInteractionMethod):
         if self.ovo is None:
             raise MethodNotFittedException(self.method)
         fig = plt.figure(figsize=figsize)
+        zenpath_length = min(zenpath_length, len(self.ovo))
         to_vis = self.ovo.copy().iloc[:(zenpath_length + 1)]
         min_pd, max_pd = get_pd_dict(self.pd_calculator, to_vis)
         pair = to_vis.iloc[0]["Feature 1"], to_vis.iloc[0]["Feature 2"]
@@ -281,22 +282,20 @@ class PartialDependenceBasedMethod(FeatureInteractionMethod):
                 ax.set_title(pair[0], size=10)
                 id_col += 1
 
-            idx, continued = find_next_pair_index(to_vis, pair[1])
+            last = zenpath_length - 1 == i
+            idx, continued = find_next_pair_index(to_vis, pair[1]) if not last else (None, False)
             if continued:
                 pair = pair[1], get_second_feature(pair[1], to_vis.loc[idx])
-                if zenpath_length - 1 == i:
-                    if id_col > id_row:
-                        ax.set_ylabel(pair[1])
-                    else:
-                        ax.set_title(pair[1], size=10)
             else:
                 if id_col > id_row:
                     ax.set_ylabel(pair[1])
                 else:
                     ax.set_title(pair[1], size=10)
-                pair = to_vis.loc[idx]["Feature 1"], to_vis.loc[idx]["Feature 2"]
+                if not last:
+                    pair = to_vis.loc[idx]["Feature 1"], to_vis.loc[idx]["Feature 2"]
 
-            to_vis = to_vis.drop(idx)
+            if not last:
+                to_vis = to_vis.drop(idx)
 
             plt.tight_layout()
         cbar_ax = fig.add_axes([1, 0.25, 0.05, 0.5])
-- 
2.43.0


From ccf81fb5a5c24aa0d440551ddc9e0aac07e20625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:12 +0000
Subject: [PATCH 30/45] fix: zenplot colour scale ignores values that were not
 calculated

---
 artemis/_utilities/zenplot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/artemis/_utilities/zenplot.py b/artemis/_utilities/zenplot.py
index 1be7bde..1ada0e6 100644
--- a/artemis/_utilities/zenplot.py
+++ b/artemis/_utilities/zenplot.py
@@ -33,6 +33,6 @@ def get_pd_dict(pd_calculator, to_vis):
         pair = (to_vis.iloc[i, 0], to_vis.iloc[i, 1])
         pair_key = pd_calculator._get_pair_key(pair)
         pair_values = pd_calculator.pd_pairs[pair_key].copy()
-        max_pd = max(np.max(pair_values["pd_values"]), max_pd)
-        min_pd = min(np.min(pair_values["pd_values"]), min_pd)
+        max_pd = max(np.nanmax(pair_values["pd_values"]), max_pd)
+        min_pd = min(np.nanmin(pair_values["pd_values"]), min_pd)
     return min_pd, max_pd
-- 
2.43.0


From 6b2030994a262da3c45ed8bd28bb80e812a592b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:12 +0000
Subject: [PATCH 31/45] fix: bar chart of an interaction table without any row

---
 artemis/visualizer/_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index 677712b..5268576 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -363,9 +363,9 @@ class Visualizer:
             plt.title(title)
         ax.set_axisbelow(True)
         ovo_copy = ovo.copy()
-        ovo_copy["Interaction"] = ovo_copy[_f1_name] + ":" + ovo_copy[_f2_name]
         if len(ovo_copy) == 0:
             return  # no interactions to show
+        ovo_copy["Interaction"] = ovo_copy[_f1_name] + ":" + ovo_copy[_f2_name]
         ovo_copy.head(top_k).plot.barh(
             x="Interaction",
             y=self.method,
-- 
2.43.0


From 430bcaf0ad49978a6541bd62a597c23106de938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:12 +0000
Subject: [PATCH 32/45] fix: lollipop plot of models whose trees have a single
 split only

---
 artemis/visualizer/_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index 5268576..ac6b037 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -508,7 +508,7 @@ class Visualizer:
 
         full_result_copy = full_result.copy()
         full_result_copy["pair_name"] = (
-                full_result_copy["parent_name"] + ":" + full_result_copy["split_feature"]
+                full_result_copy["parent_name"].astype(object) + ":" + full_result_copy["split_feature"]
         )
         roots = full_result_copy.loc[full_result_copy["depth"] == 0].copy()
         roots = roots[roots["tree"] < max_trees * roots["tree"].max()]
-- 
2.43.0


From a00f89ed46d3139f44bb20a36e5113ea8bc3b05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:12 +0000
Subject: [PATCH 33/45] fix: bar charts of a summary have the strongest on top

---
 artemis/visualizer/_visualizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index ac6b037..d1c5870 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -376,7 +376,7 @@ class Visualizer:
             grid=True,
             ax=ax,
         )
-        plt.gca().invert_yaxis()
+        ax.invert_yaxis()
 
     def plot_barchart_ova(
             self,
@@ -407,7 +407,7 @@ class Visualizer:
             ax=ax,
             grid=True,
         )
-        plt.gca().invert_yaxis()
+        ax.invert_yaxis()
 
     def plot_summary(
             self,
-- 
2.43.0


From 0f54a9c7b4a5f11cfc87ae0ebd414f7bf35443ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:50 +0000
Subject: [PATCH 34/45] fix: comparison plot of a method without any
 interaction has no points

---
 artemis/comparison/_method_comparator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/artemis/comparison/_method_comparator.py b/artemis/comparison/_method_comparator.py
index 2e1ab20..62f5d92 100644
--- a/artemis/comparison/_method_comparator.py
+++ b/artemis/comparison/_method_comparator.py
@@ -117,10 +117,11 @@ class FeatureInteractionMethodComparator:
         fig, ax = plt.subplots(figsize=figsize)
         ax.set_axisbelow(True)
         plt.grid(True)
-        circle_r = 0.2 * min(max(method1._compare_ovo[m1_name]), max(method2._compare_ovo[m2_name]))
+        values = _common_pairs_values(method1, method2)
+        circle_r = 0.2 * values.max().min()
 
         x, y = [], []
-        for index, ((f1, f2), (x_curr, y_curr)) in enumerate(_common_pairs_values(method1, method2).iterrows()):
+        for index, ((f1, f2), (x_curr, y_curr)) in enumerate(values.iterrows()):
 
             x.append(x_curr)
             y.append(y_curr)
-- 
2.43.0


From fdaf8579a448e0b38b682454bf4657b15d8d00dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:07 +0000
Subject: [PATCH 35/45] fix: lollipop shows the asked fraction of the trees,
 including the last ones

---
 artemis/visualizer/_visualizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index d1c5870..5062c4c 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -511,7 +511,8 @@ class Visualizer:
                 full_result_copy["parent_name"].astype(object) + ":" + full_result_copy["split_feature"]
         )
         roots = full_result_copy.loc[full_result_copy["depth"] == 0].copy()
-        roots = roots[roots["tree"] < max_trees * roots["tree"].max()]
+        shown_trees = max_trees * (full_result_copy["tree"].max() + 1)
+        roots = roots[roots["tree"] < shown_trees]
         nodes = full_result_copy.loc[
             (full_result_copy["leaf"] == False)
             & (full_result_copy["depth"] > 0)
@@ -520,7 +521,7 @@ class Visualizer:
         nodes.loc[full_result_copy["interaction"] == True, "split_feature"] = nodes.loc[
             full_result_copy["interaction"] == True, "pair_name"
         ]
-        nodes = nodes[nodes["tree"] < max_trees * nodes["tree"].max()]
+        nodes = nodes[nodes["tree"] < shown_trees]
 
         ax.set_axisbelow(True)
         plt.xscale(scale)
-- 
2.43.0


From 2429f132be54be5ac5c6809643dfe99d6195de9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:14 +0000
Subject: [PATCH 36/45] fix: options of a summary's bar chart can be given
 under its visualization name, as documented

---
 artemis/visualizer/_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index 5062c4c..752a274 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -431,7 +431,7 @@ class Visualizer:
 
         heatmap_kwargs = kwargs.pop("heatmap", None)
         graph_kwargs = kwargs.pop("graph", None)
-        bar_char_ovo_kwargs = kwargs.pop("bar_chart_ovo", None)
+        bar_char_ovo_kwargs = kwargs.pop("bar_chart_ovo", kwargs.pop(VisualizationType.BAR_CHART_OVO, None))
         bar_char_ova_kwargs = kwargs.pop("bar_chart_ova", None)
 
         self.plot_heatmap(
-- 
2.43.0


From 6ef991f126e6c0aea4c2eb0f38d355fc1efca287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:48 +0000
Subject: [PATCH 37/45] fix: root frequency of features that are never at a
 root is zero

---
 artemis/importance_methods/model_specific/_split_score.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/artemis/importance_methods/model_specific/_split_score.py b/artemis/importance_methods/model_specific/_split_score.py
index aad305f..0af2064 100644
--- a/artemis/importance_methods/model_specific/_split_score.py
+++ b/artemis/importance_methods/model_specific/_split_score.py
@@ -103,7 +103,10 @@ def _calculate_all_feature_importance(
     root_metrics = _calculate_root_metrics(trees_df)
     mean_weighted_depth = _calculate_mean_weighted_depth_metric(trees_df)
 
-    importance_full_result = basic_metrics.join(root_metrics)
+    # features that are never at a root have no root metrics to join
+    importance_full_result = basic_metrics.join(root_metrics).fillna(
+        {"root_frequency": 0, "weighted_root_frequency": 0}
+    )
     importance_full_result = pd.concat(
         [importance_full_result, mean_weighted_depth], axis=1
     ).reset_index()
-- 
2.43.0


From e1ec1216b6367d9cc5eff230638320e7f648a653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:19 +0000
Subject: [PATCH 38/45] fix: conditional depth bars of equal numbers of
 occurrences have equal colours, different ones different

---
 artemis/visualizer/_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index 752a274..303f1a7 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -139,7 +139,7 @@ class Visualizer:
         new_cmap = colors.LinearSegmentedColormap.from_list("new_cmap", cmap(np.linspace(0.5, 1, 100)))
         sm = plt.cm.ScalarMappable(cmap=new_cmap, norm=norm)
         ax = sns.barplot(df_to_plot, x="Interaction", y=self.method, hue="n_occurences",
-                         palette=sm.to_rgba(np.flip(df_to_plot["n_occurences"])), dodge=False)
+                         palette=list(sm.to_rgba(np.unique(df_to_plot["n_occurences"]))), dodge=False)
         plt.vlines(x=df_to_plot["Interaction"], ymin=df_to_plot[self.method],
                    ymax=df_to_plot["unconditional_importance"], color=color, alpha=0.5)
         plt.scatter(df_to_plot["Interaction"], y=df_to_plot["unconditional_importance"], color=color, marker="o")
-- 
2.43.0


From c5b88a7196e971212f732c4448ad335ac10a4d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:19 +0000
Subject: [PATCH 39/45] fix: partial dependence visualizer passes its axes
 under the name scikit-learn expects

---
 artemis/visualizer/_pdp_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/visualizer/_pdp_visualizer.py b/artemis/visualizer/_pdp_visualizer.py
index 50d9ce1..4c59a4c 100644
--- a/artemis/visualizer/_pdp_visualizer.py
+++ b/artemis/visualizer/_pdp_visualizer.py
@@ -58,6 +58,6 @@ class PartialDependenceVisualizer:
                                                 self.X,
                                                 features,
                                                 grid_resolution=grid_resolution,
-                                                _ax=ax,
+                                                ax=ax,
                                                 **kwargs)
         ax.set_title(title)
-- 
2.43.0


From 5420296181af1facfe365023b4a4b668a6361736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:50 +0000
Subject: [PATCH 40/45] fix: a fit that fails half-way keeps the results of the
 previous fit

---
 artemis/_utilities/ops.py                        | 16 ++++++++++++++++
 artemis/additivity/_additivity_meter.py          |  3 ++-
 .../_friedman_h_statistic.py                     |  3 ++-
 .../partial_dependence_based/_pdp.py             |  3 ++-
 .../performance_based/_sejong_oh.py              |  3 ++-
 5 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/artemis/_utilities/ops.py b/artemis/_utilities/ops.py
index 2fb8068..87c15e2 100644
--- a/artemis/_utilities/ops.py
+++ b/artemis/_utilities/ops.py
@@ -1,3 +1,4 @@
+import functools
 import math
 import random
 from typing import List, Dict, Callable
@@ -37,6 +38,21 @@ def all_if_none(X_columns: pd.DataFrame, columns: List[str]):
         return columns
 
 
+def unchanged_if_failed(fit: Callable):
+    """A fit that fails half-way leaves its object with the results of the previous fit."""
+    @functools.wraps(fit)
+    def wrapper(self, *args, **kwargs):
+        previous_state = dict(self.__dict__)
+        try:
+            return fit(self, *args, **kwargs)
+        except BaseException:
+            self.__dict__.clear()
+            self.__dict__.update(previous_state)
+            raise
+
+    return wrapper
+
+
 def center(x: np.array):
     if np.ptp(x) == 0:
         # the rounding error of the mean must not look like variation
diff --git a/artemis/additivity/_additivity_meter.py b/artemis/additivity/_additivity_meter.py
index 2f2aadf..278a032 100644
--- a/artemis/additivity/_additivity_meter.py
+++ b/artemis/additivity/_additivity_meter.py
@@ -2,7 +2,7 @@ from typing import Callable, List, Optional
 import numpy as np
 import pandas as pd
 from artemis._utilities.domain import ProgressInfoLog
-from artemis._utilities.ops import get_predict_function, sample_if_not_none
+from artemis._utilities.ops import get_predict_function, sample_if_not_none, unchanged_if_failed
 
 from artemis._utilities.pd_calculator import PartialDependenceCalculator
 
@@ -37,6 +37,7 @@ class AdditivityMeter:
         self.pd_calculator = None
         self
 
+    @unchanged_if_failed
     def fit(
         self,
         model,
diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
index af47695..2140970 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
@@ -6,7 +6,7 @@ from tqdm import tqdm
 
 from artemis._utilities.domain import VisualizationType, InteractionMethod, ProgressInfoLog
 from artemis._utilities.exceptions import MethodNotFittedException
-from artemis._utilities.ops import remove_element, center, partial_dependence_value
+from artemis._utilities.ops import remove_element, center, partial_dependence_value, unchanged_if_failed
 from artemis._utilities.pd_calculator import PartialDependenceCalculator
 from ._pdp import PartialDependenceBasedMethod
 
@@ -65,6 +65,7 @@ class FriedmanHStatisticMethod(PartialDependenceBasedMethod):
         self.ova = None
         self.normalized = normalized
 
+    @unchanged_if_failed
     def fit(self,
             model,
             X: pd.DataFrame,
diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
index da903e4..9da91b6 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
@@ -11,7 +11,7 @@ from artemis.importance_methods.model_agnostic import PartialDependenceBasedImpo
 from artemis.interactions_methods._method import FeatureInteractionMethod
 from artemis._utilities.domain import ProgressInfoLog, VisualizationType
 from artemis._utilities.exceptions import MethodNotFittedException
-from artemis._utilities.ops import get_predict_function, sample_if_not_none, all_if_none
+from artemis._utilities.ops import get_predict_function, sample_if_not_none, all_if_none, unchanged_if_failed
 from artemis._utilities.pd_calculator import PartialDependenceCalculator
 from artemis._utilities.zenplot import (
     get_pd_dict,
@@ -39,6 +39,7 @@ class PartialDependenceBasedMethod(FeatureInteractionMethod):
     ):
         super().plot(vis_type, title, figsize, **kwargs)
 
+    @unchanged_if_failed
     def fit(
         self,
         model,
diff --git a/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py b/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
index 9d9c0b3..5fa7ad3 100644
--- a/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
+++ b/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
@@ -9,7 +9,7 @@ from artemis.importance_methods.model_agnostic import PermutationImportance
 from artemis.interactions_methods._method import FeatureInteractionMethod
 from artemis._utilities.domain import InteractionMethod, ProblemType, ProgressInfoLog, VisualizationType
 from artemis._utilities.performance_metrics import Metric, RMSE
-from artemis._utilities.ops import all_if_none, sample_both_if_not_none
+from artemis._utilities.ops import all_if_none, sample_both_if_not_none, unchanged_if_failed
 
 
 class SejongOhMethod(FeatureInteractionMethod):
@@ -68,6 +68,7 @@ class SejongOhMethod(FeatureInteractionMethod):
              figsize: Tuple[float, float] = (8, 6), **kwargs):
         super().plot(vis_type, title, figsize, **kwargs)
 
+    @unchanged_if_failed
     def fit(
             self,
             model,
-- 
2.43.0


From 19736037e15a629f43d7121dce68212461ec6fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:50 +0000
Subject: [PATCH 41/45] fix: a rejected model leaves the tree handler unchanged

---
 artemis/_utilities/_handler.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/artemis/_utilities/_handler.py b/artemis/_utilities/_handler.py
index 16e92d3..6869197 100644
--- a/artemis/_utilities/_handler.py
+++ b/artemis/_utilities/_handler.py
@@ -26,14 +26,15 @@ class GBTreesHandler:
 
     def unify_structure(self, model) -> None:
         model_class = search("(?<=<class ').*(?='>)", str(type(model)))[0]
-        self.package = model_class.split(".")[0]
-        if self.package not in _SUPPORTED_PACKAGES:
-            raise ModelNotSupportedException(self.package, model_class)
+        package = model_class.split(".")[0]
+        if package not in _SUPPORTED_PACKAGES:
+            raise ModelNotSupportedException(package, model_class)
         if hasattr(model, "get_booster"):
             model = model.get_booster()
         if hasattr(model, "booster_"):
             model = model.booster_
-        self.trees_df = _get_unified_trees_df(model, self.package)
+        self.trees_df = _get_unified_trees_df(model, package)
+        self.package = package
 
 
 def _get_unified_trees_df(model, package: str) -> pd.DataFrame:
-- 
2.43.0


From ed950a99101695b001334726824999d768c1932f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:50 +0000
Subject: [PATCH 42/45] fix: a feature called Leaf is not taken for a leaf

---
 artemis/_utilities/_handler.py                            | 2 +-
 artemis/importance_methods/model_specific/_split_score.py | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/artemis/_utilities/_handler.py b/artemis/_utilities/_handler.py
index 6869197..fd7c230 100644
--- a/artemis/_utilities/_handler.py
+++ b/artemis/_utilities/_handler.py
@@ -43,7 +43,7 @@ def _get_unified_trees_df(model, package: str) -> pd.DataFrame:
         trees_df = trees_df.rename(columns=_XGBOOST_COL_DICT).drop(
             columns=["Split", "Missing", "Category"]
         )
-        trees_df["leaf"] = trees_df["split_feature"] == "Leaf"
+        trees_df["leaf"] = trees_df["left_child"].isnull()  # "Leaf" can also be the name of a feature
         trees_df["depth"] = None
 
     elif package == "lightgbm":
diff --git a/artemis/importance_methods/model_specific/_split_score.py b/artemis/importance_methods/model_specific/_split_score.py
index 0af2064..6d8909d 100644
--- a/artemis/importance_methods/model_specific/_split_score.py
+++ b/artemis/importance_methods/model_specific/_split_score.py
@@ -94,10 +94,9 @@ def _calculate_all_feature_importance(
         features: Optional[List[str]] = None,
         selected_metric: str = SplitScoreImportanceMetric.SUM_GAIN,
 ):
+    trees_df = trees_df.loc[trees_df["leaf"] == False]
     if features is not None:
         trees_df = trees_df.loc[trees_df["split_feature"].isin(features)]
-    else:
-        trees_df = trees_df.loc[trees_df["split_feature"] != "Leaf"]
 
     basic_metrics = _calculate_basic_metrics(trees_df)
     root_metrics = _calculate_root_metrics(trees_df)
-- 
2.43.0


From 3014c425c6ac4b067240d537dd30a2d6668a7258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:44 +0000
Subject: [PATCH 43/45] fix: centring accepts boolean predictions again

---
 artemis/_utilities/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/_utilities/ops.py b/artemis/_utilities/ops.py
index 87c15e2..da2e4a0 100644
--- a/artemis/_utilities/ops.py
+++ b/artemis/_utilities/ops.py
@@ -54,7 +54,7 @@ def unchanged_if_failed(fit: Callable):
 
 
 def center(x: np.array):
-    if np.ptp(x) == 0:
+    if np.max(x) == np.min(x):
         # the rounding error of the mean must not look like variation
         return np.zeros(len(x))
     return x - np.mean(x)
-- 
2.43.0


From 48e2a88539da53359622d3f361a70675f89179a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:23 +0000
Subject: [PATCH 44/45] fix: predictions given as a column or a labelled series
 are used row by row

---
 artemis/_utilities/ops.py                                 | 8 +++++++-
 artemis/_utilities/pd_calculator.py                       | 8 ++++----
 artemis/_utilities/performance_metrics.py                 | 4 ++--
 artemis/additivity/_additivity_meter.py                   | 4 ++--
 .../partial_dependence_based/_friedman_h_statistic.py     | 4 ++--
 5 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/artemis/_utilities/ops.py b/artemis/_utilities/ops.py
index da2e4a0..97d69cb 100644
--- a/artemis/_utilities/ops.py
+++ b/artemis/_utilities/ops.py
@@ -92,4 +92,10 @@ def get_predict_function(model, predict_function=None):
     if hasattr(model, 'predict_proba'):
         return yhat_proba_default
     elif hasattr(model, 'predict'):
-        return yhat_default
\ No newline at end of file
+        return yhat_default
+
+
+def predict_vector(predict_function, model, X: pd.DataFrame) -> ndarray:
+    """Predictions as an array; those that come as a single column or a labelled series become a plain vector."""
+    predictions = np.asarray(predict_function(model, X))
+    return predictions.ravel() if predictions.shape[1:] == (1,) else predictions
diff --git a/artemis/_utilities/pd_calculator.py b/artemis/_utilities/pd_calculator.py
index a8e52cd..70d2adf 100644
--- a/artemis/_utilities/pd_calculator.py
+++ b/artemis/_utilities/pd_calculator.py
@@ -5,7 +5,7 @@ import pandas as pd
 from tqdm import tqdm
 from artemis._utilities.domain import ProgressInfoLog
 
-from artemis._utilities.ops import get_predict_function
+from artemis._utilities.ops import get_predict_function, predict_vector
 
 
 class PartialDependenceCalculator: 
@@ -137,14 +137,14 @@ class PartialDependenceCalculator:
             self.fill_pd_minus_single(range_dict, X_full)
 
     def fill_pd_single(self, range_dict, X_full): 
-        y = self.predict_function(self.model, X_full)
+        y = predict_vector(self.predict_function, self.model, X_full)
         for var_name, var_val in range_dict.keys():
             start, end = range_dict[(var_name, var_val)]
             value_index = get_index(self.pd_single[var_name]["f_values"], var_val)
             self.pd_single[var_name]["pd_values"][value_index] = np.mean(y[start:end])
 
     def fill_pd_pairs(self, range_dict, X_full):
-        y = self.predict_function(self.model, X_full)
+        y = predict_vector(self.predict_function, self.model, X_full)
         for var_name1, var_name2, var_val1, var_val2 in range_dict.keys():
             start, end = range_dict[(var_name1, var_name2, var_val1, var_val2)]
             value_index1 = get_index(self.pd_pairs[(var_name1, var_name2)]["f1_values"], var_val1)
@@ -152,7 +152,7 @@ class PartialDependenceCalculator:
             self.pd_pairs[(var_name1, var_name2)]["pd_values"][value_index1, value_index2] = np.mean(y[start:end])
 
     def fill_pd_minus_single(self, range_dict, X_full): 
-        y = self.predict_function(self.model, X_full)
+        y = predict_vector(self.predict_function, self.model, X_full)
         for var_name, row_id in range_dict.keys():
             start, end = range_dict[(var_name, row_id)]
             self.pd_minus_single[var_name]["pd_values"][row_id] = np.mean(y[start:end])
diff --git a/artemis/_utilities/performance_metrics.py b/artemis/_utilities/performance_metrics.py
index a3b2dd8..bc657a8 100644
--- a/artemis/_utilities/performance_metrics.py
+++ b/artemis/_utilities/performance_metrics.py
@@ -33,7 +33,7 @@ class MSE(Metric):
         super().__init__(ProblemType.REGRESSION)
 
     def calculate(self, y_true: np.array, y_hat: np.array) -> float:
-        return np.square(y_hat - y_true).mean()
+        return np.square(np.ravel(y_hat) - np.ravel(y_true)).mean()
 
 
 class Accuracy(Metric):
@@ -42,4 +42,4 @@ class Accuracy(Metric):
         super().__init__(ProblemType.CLASSIFICATION)
 
     def calculate(self, y_true: np.array, y_hat: np.array) -> float:
-        return np.equal(y_true, y_hat).mean()
+        return np.equal(np.ravel(y_true), np.ravel(y_hat)).mean()
diff --git a/artemis/additivity/_additivity_meter.py b/artemis/additivity/_additivity_meter.py
index 278a032..b9eb20b 100644
--- a/artemis/additivity/_additivity_meter.py
+++ b/artemis/additivity/_additivity_meter.py
@@ -2,7 +2,7 @@ from typing import Callable, List, Optional
 import numpy as np
 import pandas as pd
 from artemis._utilities.domain import ProgressInfoLog
-from artemis._utilities.ops import get_predict_function, sample_if_not_none, unchanged_if_failed
+from artemis._utilities.ops import get_predict_function, predict_vector, sample_if_not_none, unchanged_if_failed
 
 from artemis._utilities.pd_calculator import PartialDependenceCalculator
 
@@ -109,7 +109,7 @@ class AdditivityMeter:
             show_progress=show_progress, desc=ProgressInfoLog.CALC_ADD
         )
 
-        self.preds = self.predict_function(self.model, self.X_sampled)
+        self.preds = predict_vector(self.predict_function, self.model, self.X_sampled)
         for var in self.X_sampled.columns:
             self.full_result[var] = self.pd_calculator.get_pd_single(var, self.X_sampled[var].values) - np.mean(self.preds)
 
diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
index 2140970..426b26f 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
@@ -6,7 +6,7 @@ from tqdm import tqdm
 
 from artemis._utilities.domain import VisualizationType, InteractionMethod, ProgressInfoLog
 from artemis._utilities.exceptions import MethodNotFittedException
-from artemis._utilities.ops import remove_element, center, partial_dependence_value, unchanged_if_failed
+from artemis._utilities.ops import remove_element, center, partial_dependence_value, predict_vector, unchanged_if_failed
 from artemis._utilities.pd_calculator import PartialDependenceCalculator
 from ._pdp import PartialDependenceBasedMethod
 
@@ -191,7 +191,7 @@ class FriedmanHStatisticMethod(PartialDependenceBasedMethod):
 
     def _calculate_ova_interactions_from_pd(self, show_progress: bool) -> pd.DataFrame:
         self.pd_calculator.calculate_pd_minus_single(self.features_included, show_progress=show_progress)
-        preds = self.predict_function(self.model, self.X_sampled)
+        preds = predict_vector(self.predict_function, self.model, self.X_sampled)
         value_minus_single = []
         for feature in self.features_included:
             pd_f = self.pd_calculator.get_pd_single(feature, feature_values=self.X_sampled[feature].values)
-- 
2.43.0


From efdc64873c8a4f19b0255b06f2f9c1b5d0e9c514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:57 +0000
Subject: [PATCH 45/45] fix: models with categorical features can be explained

Replacing or shuffling values turned categorical columns into object columns, which models
trained on categorical data (LightGBM, XGBoost) reject.
---
 artemis/_utilities/ops.py                                 | 7 +++++++
 artemis/_utilities/pd_calculator.py                       | 8 ++++----
 .../model_agnostic/_permutational_importance.py           | 2 +-
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/artemis/_utilities/ops.py b/artemis/_utilities/ops.py
index 97d69cb..eb28894 100644
--- a/artemis/_utilities/ops.py
+++ b/artemis/_utilities/ops.py
@@ -60,6 +60,13 @@ def center(x: np.array):
     return x - np.mean(x)
 
 
+def assign_values(X: pd.DataFrame, change_dict: Dict) -> pd.DataFrame:
+    """Copy of X with constant values in some columns; categorical columns stay categorical."""
+    categorical_types = {col: X[col].dtype for col in change_dict if isinstance(X[col].dtype, pd.CategoricalDtype)}
+    X_changed = X.assign(**change_dict)
+    return X_changed.astype(categorical_types) if categorical_types else X_changed
+
+
 def partial_dependence_value(df: pd.DataFrame, change_dict: Dict, predict_function: Callable, model) -> ndarray:
     assert all(column in df.columns for column in change_dict.keys())
     df_changed = df.assign(**change_dict)
diff --git a/artemis/_utilities/pd_calculator.py b/artemis/_utilities/pd_calculator.py
index 70d2adf..3773fff 100644
--- a/artemis/_utilities/pd_calculator.py
+++ b/artemis/_utilities/pd_calculator.py
@@ -5,7 +5,7 @@ import pandas as pd
 from tqdm import tqdm
 from artemis._utilities.domain import ProgressInfoLog
 
-from artemis._utilities.ops import get_predict_function, predict_vector
+from artemis._utilities.ops import assign_values, get_predict_function, predict_vector
 
 
 class PartialDependenceCalculator: 
@@ -71,7 +71,7 @@ class PartialDependenceCalculator:
             if np.isnan(self.pd_single[feature]["pd_values"]).any(): 
                 for value in self.pd_single[feature]["f_values"]:
                     change_dict = {feature: value}
-                    X_changed = self.X.copy().assign(**change_dict)
+                    X_changed = assign_values(self.X, change_dict)
                     range_dict[(feature, value)] = (current_len, current_len+self.X_len)
                     current_len += self.X_len
                     X_full = pd.concat((X_full, X_changed))
@@ -102,7 +102,7 @@ class PartialDependenceCalculator:
                     continue
                 if np.isnan(self.pd_pairs[(feature1, feature2)]["pd_values"][f1_ind, f2_ind]): 
                     change_dict = {feature1: value1, feature2: value2}
-                    X_changed = self.X.copy().assign(**change_dict)
+                    X_changed = assign_values(self.X, change_dict)
                     range_dict[(feature1, feature2, value1, value2)] = (current_len, current_len+self.X_len)
                     current_len += self.X_len
                     X_full = pd.concat((X_full, X_changed))
@@ -124,7 +124,7 @@ class PartialDependenceCalculator:
             if np.isnan(self.pd_minus_single[feature]["pd_values"]).any(): 
                 for i in range(self.X_len):
                     change_dict = {other_feature: self.X[other_feature].iloc[i] for other_feature in self.X.columns if other_feature != feature}
-                    X_changed = self.X.copy().assign(**change_dict)
+                    X_changed = assign_values(self.X, change_dict)
                     range_dict[(feature, i)] = (current_len, current_len+self.X_len)
                     current_len += self.X_len
                     X_full = pd.concat((X_full, X_changed))
diff --git a/artemis/importance_methods/model_agnostic/_permutational_importance.py b/artemis/importance_methods/model_agnostic/_permutational_importance.py
index f252286..dd61664 100644
--- a/artemis/importance_methods/model_agnostic/_permutational_importance.py
+++ b/artemis/importance_methods/model_agnostic/_permutational_importance.py
@@ -128,7 +128,7 @@ def _corrupted_scores(
         range(n_repeat), disable=not show_progress, desc=ProgressInfoLog.CALC_VAR_IMP
     ):
         for feature in features:
-            X_copy_permuted[feature] = random_generator.permutation(X_copy_permuted[feature])
+            X_copy_permuted[feature] = X[feature].array[random_generator.permutation(len(X))]
             corrupted_scores[feature].append(
                 metric.calculate(y, model.predict(X_copy_permuted))
             )
-- 
2.43.0

