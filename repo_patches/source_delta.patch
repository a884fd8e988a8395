From 3c3003c87ef99e17662bf3bee74640d2182a2d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 01/47] fix: raise on empty input in check_array instead of
 returning the error

---
 pure_sklearn/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index 2787413..433e195 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -94,7 +94,7 @@ def check_array(X, handle_sparse="error"):
     if not isinstance(X, list):
         raise TypeError("Input 'X' must be a list")
     if len(X) == 0:
-        return ValueError("Input 'X' must not be empty")
+        raise ValueError("Input 'X' must not be empty")
     return X
 
 
-- 
2.43.0


From d15feb6cb591d54241eba936f9c2adad84e3e905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 02/47] fix: refuse dense input whose rows differ in length

---
 pure_sklearn/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index 433e195..70bea37 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -95,6 +95,10 @@ def check_array(X, handle_sparse="error"):
         raise TypeError("Input 'X' must be a list")
     if len(X) == 0:
         raise ValueError("Input 'X' must not be empty")
+    if isinstance(X[0], list) and any(
+        (not isinstance(x, list)) or (len(x) != len(X[0])) for x in X
+    ):
+        raise ValueError("Rows of input 'X' must all have the same length")
     return X
 
 
-- 
2.43.0


From b26560f620194141dfa4b649a636be795510bcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 03/47] fix: one-hot column offset is cumulative over all
 earlier features

---
 pure_sklearn/preprocessing/_encoders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/preprocessing/_encoders.py b/pure_sklearn/preprocessing/_encoders.py
index a6606b1..23d503f 100644
--- a/pure_sklearn/preprocessing/_encoders.py
+++ b/pure_sklearn/preprocessing/_encoders.py
@@ -130,7 +130,7 @@ class OneHotEncoderPure(_BaseEncoderPure):
         data = [
             dict(
                 [
-                    (n_values[i] + X_int[j][i], self.dtype(1))
+                    (feature_indices[i] + X_int[j][i], self.dtype(1))
                     for i in range(n_features)
                     if X_mask[j][i]
                 ]
-- 
2.43.0


From 7fb39e58384008a70a24044f218e35ef63113bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 04/47] fix: exponential loss probability is the sigmoid of
 twice the raw score

---
 pure_sklearn/ensemble/_gb_losses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/ensemble/_gb_losses.py b/pure_sklearn/ensemble/_gb_losses.py
index 38501ca..2dcbaa5 100644
--- a/pure_sklearn/ensemble/_gb_losses.py
+++ b/pure_sklearn/ensemble/_gb_losses.py
@@ -104,7 +104,7 @@ class _ExponentialLossPure:
             if shape(raw_predictions)[1] == 1
             else raw_predictions
         )
-        func = lambda x: expit(x) * 2.0
+        func = lambda x: expit(2.0 * x)
         proba_1 = list(map(func, proba))
         proba = [[(1 - x) for x in proba_1], proba_1]
         return transpose(proba)
-- 
2.43.0


From 665f926629501c1564abff197423d3e65a66e45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 05/47] fix: gradient boosting with init='zero' starts from one
 zero per class

---
 pure_sklearn/ensemble/_gb.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/ensemble/_gb.py b/pure_sklearn/ensemble/_gb.py
index ef90d56..70c9d21 100644
--- a/pure_sklearn/ensemble/_gb.py
+++ b/pure_sklearn/ensemble/_gb.py
@@ -34,7 +34,10 @@ class GradientBoostingClassifierPure:
                 est_arr_.append(est_)
             self.estimators_.append(est_arr_)
         if hasattr(estimator, "init_"):
-            self.init_ = convert_estimator(estimator.init_)
+            if isinstance(estimator.init_, str) and estimator.init_ == "zero":
+                self.init_ = estimator.init_
+            else:
+                self.init_ = convert_estimator(estimator.init_)
         self.loss = estimator.loss
         self.learning_rate = estimator.learning_rate
         self.n_features_ = estimator.n_features_
@@ -60,7 +63,7 @@ class GradientBoostingClassifierPure:
                 )
             )
         if self.init_ == "zero":
-            raw_predictions = [[0.0] * shape(X)[1]] * shape(X)[0]
+            raw_predictions = [[0.0] * len(self.estimators_[0]) for _ in X]
         else:
             raw_predictions = self.loss_.get_init_raw_predictions(X, self.init_)
         return raw_predictions
-- 
2.43.0


From 65446cec4869489eeb170dba4490bc7bc3d8d6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 06/47] fix: gradient boosting labels follow the loss
 function's decision rule

---
 pure_sklearn/ensemble/_gb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/ensemble/_gb.py b/pure_sklearn/ensemble/_gb.py
index 70c9d21..1cc2596 100644
--- a/pure_sklearn/ensemble/_gb.py
+++ b/pure_sklearn/ensemble/_gb.py
@@ -91,5 +91,6 @@ class GradientBoostingClassifierPure:
         return apply_2d(self.predict_proba(X), safe_log)
 
     def predict(self, X):
-        proba = self.predict_proba(X)
-        return [self.classes_[a.index(max(a))] for a in proba]
+        raw_predictions = self._raw_predict(X)
+        decision = self.loss_._raw_prediction_to_decision(raw_predictions)
+        return [self.classes_[i] for i in decision]
-- 
2.43.0


From 9911b101999f39656fccf05e0fb5e7e1c7ec5161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 07/47] fix: multinomial deviance probabilities do not overflow
 for large scores

---
 pure_sklearn/ensemble/_gb_losses.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pure_sklearn/ensemble/_gb_losses.py b/pure_sklearn/ensemble/_gb_losses.py
index 2dcbaa5..df091bf 100644
--- a/pure_sklearn/ensemble/_gb_losses.py
+++ b/pure_sklearn/ensemble/_gb_losses.py
@@ -31,9 +31,10 @@ class _MultinomialDeviancePure:
         check_types(self)
 
     def _raw_prediction_to_proba(self, raw_predictions):
-        logsumexp = list(
-            map(safe_log, apply_axis_2d(apply_2d(raw_predictions, safe_exp), sum))
-        )
+        logsumexp = [
+            max(a) + safe_log(sum([safe_exp(x - max(a)) for x in a]))
+            for a in raw_predictions
+        ]
         return [
             [
                 safe_exp(raw_predictions[index][i] - logsumexp[index])
-- 
2.43.0


From f382a710226e5d5fbcba7abac4c43a0bbae27e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 08/47] fix: naive Bayes posteriors do not underflow for small
 likelihoods

---
 pure_sklearn/naive_bayes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/naive_bayes.py b/pure_sklearn/naive_bayes.py
index 07b0cd6..241e762 100644
--- a/pure_sklearn/naive_bayes.py
+++ b/pure_sklearn/naive_bayes.py
@@ -33,7 +33,9 @@ class _BaseNBPure:
         """
         X = check_array(X, handle_sparse="error")
         jll = self._joint_log_likelihood(X)
-        log_prob_x = list(map(lambda a: safe_log(sum(map(safe_exp, a))), jll))
+        log_prob_x = [
+            max(a) + safe_log(sum([safe_exp(x - max(a)) for x in a])) for a in jll
+        ]
         return [
             list(map(lambda a: a - log_prob_x[index], jll[index]))
             for index in range(len(jll))
-- 
2.43.0


From db2c802a1c1b75432021cb04697e98fabab9b12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 09/47] fix: softmax does not overflow or underflow for scores
 of any magnitude

---
 pure_sklearn/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/base.py b/pure_sklearn/base.py
index ee53d0a..552bd88 100644
--- a/pure_sklearn/base.py
+++ b/pure_sklearn/base.py
@@ -74,11 +74,13 @@ def expit(x):
 def sfmax(arr):
     """ Softmax function for 1-D list or a single sparse_list element """
     if isinstance(arr, dict):
-        expons = {k: safe_exp(v) for k, v in arr.items()}
+        shift = max(arr.values(), default=0.0)
+        expons = {k: safe_exp(v - shift) for k, v in arr.items()}
         denom = sum(expons.values())
         out = {k: (v / float(denom)) for k, v in expons.items()}
     else:
-        expons = list(map(safe_exp, arr))
+        shift = max(arr, default=0.0)
+        expons = [safe_exp(x - shift) for x in arr]
         out = list(map(lambda x: x / float(sum(expons)), expons))
     return out
 
-- 
2.43.0


From 3267c50ec67fa89d5fd82f7c634ae6f59f2e7e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 10/47] fix: trees compare features in single precision as
 scikit-learn does

---
 pure_sklearn/tree/_classes.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index e389c50..8a21e73 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -4,12 +4,18 @@ Classes for tree based models
 
 import warnings
 
+from array import array
 from math import isnan
 
 from ..base import safe_log
 from ..utils import check_array, check_types, check_version
 
 
+def _float32(x):
+    """ Rounds to single precision, in which features are compared """
+    return array("f", [x])[0]
+
+
 class _DecisionTreeBase:
     """ Decision tree base class """
 
@@ -65,7 +71,7 @@ class _DecisionTreeBase:
             if self.children_left_[node_id] == self.children_right_[node_id]:
                 found_node = True
             else:
-                if left_equal(node_id) <= self.threshold_[node_id]:
+                if _float32(left_equal(node_id)) <= self.threshold_[node_id]:
                     node_id = self.children_left_[node_id]
                 else:
                     node_id = self.children_right_[node_id]
-- 
2.43.0


From 7bc515c75c8c1bbeb21d6af3f0da315b965156b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 11/47] fix: refuse multi-output tree regressors instead of
 returning the first output

---
 pure_sklearn/tree/_classes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index 8a21e73..628a75e 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -47,6 +47,8 @@ class _DecisionTreeBase:
         else:
             # sourced from sklearn decision tree
             check_version(estimator)
+            if getattr(estimator, "n_outputs_", 1) != 1:
+                raise ValueError("Multi-output trees are not supported")
             self.children_left_ = estimator.tree_.children_left.tolist()
             self.children_right_ = estimator.tree_.children_right.tolist()
             self.feature_ = estimator.tree_.feature.tolist()
-- 
2.43.0


From 36322f6ac808d134253467e85e91fe3b943fb610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 12/47] fix: read xgboost feature indices of any length and
 custom feature names

---
 pure_sklearn/tree/_classes.py    | 10 +++++++++-
 pure_sklearn/xgboost/_classes.py |  5 +++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index 628a75e..ef21487 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -22,6 +22,7 @@ class _DecisionTreeBase:
     def __init__(self, estimator):
         if isinstance(estimator, dict):
             # sourced from xgboost booster object tree dictionary
+            names = estimator.get("Names")
             self.threshold_ = list(
                 map(lambda x: -2 if isnan(x) else x, estimator["Split"])
             )
@@ -40,7 +41,7 @@ class _DecisionTreeBase:
             )
             self.feature_ = list(
                 map(
-                    lambda x: -2 if x == "Leaf" else int(x.replace("f", "")[-1]),
+                    lambda x: -2 if x == "Leaf" else self._feature_index(x, names),
                     estimator["Feature"],
                 )
             )
@@ -62,6 +63,13 @@ class _DecisionTreeBase:
                     self.classes_ = [0, 1]
         check_types(self)
 
+    @staticmethod
+    def _feature_index(feature, names):
+        """ Column of an xgboost feature given by name or as 'f<column>' """
+        if names is not None:
+            return list(names).index(feature)
+        return int(feature[1:])
+
     def _get_leaf_node(self, x):
         if isinstance(x, dict):
             left_equal = lambda nd: x.get(self.feature_[nd], 0.0)
diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index 3ed4c32..d227545 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -51,18 +51,19 @@ class XGBClassifierPure:
                 "which is not supported".format(MIN_VERSION)
             )
         tree_df = estimator.get_booster().trees_to_dataframe()
+        names = getattr(estimator.get_booster(), "feature_names", None)
         estimators_ = []
         idx = 0
         for est_id in range(self.n_estimators):
             if self.n_classes_ == 2:
                 tree = tree_df[tree_df["Tree"] == idx].to_dict(orient="list")
-                est_row_ = DecisionTreeRegressorPure(tree)
+                est_row_ = DecisionTreeRegressorPure(dict(tree, Names=names))
                 idx += 1
             else:
                 est_row_ = []
                 for cls_id in range(self.n_classes_):
                     tree = tree_df[tree_df["Tree"] == idx].to_dict(orient="list")
-                    est_row_.append(DecisionTreeRegressorPure(tree))
+                    est_row_.append(DecisionTreeRegressorPure(dict(tree, Names=names)))
                     idx += 1
             estimators_.append(est_row_)
         return estimators_
-- 
2.43.0


From d9c1bc172e8962145d06f2ccc7fbbb2a7098881b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 13/47] fix: follow xgboost node identifiers when pruning left
 gaps in them

---
 pure_sklearn/tree/_classes.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index ef21487..4d7be22 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -23,19 +23,24 @@ class _DecisionTreeBase:
         if isinstance(estimator, dict):
             # sourced from xgboost booster object tree dictionary
             names = estimator.get("Names")
+            ids = {node: index for index, node in enumerate(estimator["Node"])}
             self.threshold_ = list(
                 map(lambda x: -2 if isnan(x) else x, estimator["Split"])
             )
             self.value_ = [[a] for a in estimator["Gain"]]
             self.children_left_ = list(
                 map(
-                    lambda x: -1 if not isinstance(x, str) else int(x.split("-")[-1]),
+                    lambda x: -1
+                    if not isinstance(x, str)
+                    else ids[int(x.split("-")[-1])],
                     estimator["Yes"],
                 )
             )
             self.children_right_ = list(
                 map(
-                    lambda x: -1 if not isinstance(x, str) else int(x.split("-")[-1]),
+                    lambda x: -1
+                    if not isinstance(x, str)
+                    else ids[int(x.split("-")[-1])],
                     estimator["No"],
                 )
             )
-- 
2.43.0


From f49a215747bb429878224271c3d292e598ca2aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 14/47] fix: xgboost trees take the yes-branch strictly below
 the split, in single precision

---
 pure_sklearn/tree/_classes.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index 4d7be22..9f7ae50 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -25,8 +25,9 @@ class _DecisionTreeBase:
             names = estimator.get("Names")
             ids = {node: index for index, node in enumerate(estimator["Node"])}
             self.threshold_ = list(
-                map(lambda x: -2 if isnan(x) else x, estimator["Split"])
+                map(lambda x: -2 if isnan(x) else _float32(x), estimator["Split"])
             )
+            self.strict_ = True
             self.value_ = [[a] for a in estimator["Gain"]]
             self.children_left_ = list(
                 map(
@@ -53,6 +54,7 @@ class _DecisionTreeBase:
         else:
             # sourced from sklearn decision tree
             check_version(estimator)
+            self.strict_ = False
             if getattr(estimator, "n_outputs_", 1) != 1:
                 raise ValueError("Multi-output trees are not supported")
             self.children_left_ = estimator.tree_.children_left.tolist()
@@ -86,7 +88,9 @@ class _DecisionTreeBase:
             if self.children_left_[node_id] == self.children_right_[node_id]:
                 found_node = True
             else:
-                if _float32(left_equal(node_id)) <= self.threshold_[node_id]:
+                value = _float32(left_equal(node_id))
+                threshold = self.threshold_[node_id]
+                if (value < threshold) or (value == threshold and not self.strict_):
                     node_id = self.children_left_[node_id]
                 else:
                     node_id = self.children_right_[node_id]
-- 
2.43.0


From 48f9b9c6505697bd71c9b97bc06414e229e50e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 15/47] fix: send missing values down xgboost's default branch

---
 pure_sklearn/tree/_classes.py    | 12 +++++++++++-
 pure_sklearn/xgboost/_classes.py |  3 +++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index 9f7ae50..ab31665 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -28,6 +28,14 @@ class _DecisionTreeBase:
                 map(lambda x: -2 if isnan(x) else _float32(x), estimator["Split"])
             )
             self.strict_ = True
+            self.children_missing_ = list(
+                map(
+                    lambda x: -1
+                    if not isinstance(x, str)
+                    else ids[int(x.split("-")[-1])],
+                    estimator["Missing"],
+                )
+            )
             self.value_ = [[a] for a in estimator["Gain"]]
             self.children_left_ = list(
                 map(
@@ -90,7 +98,9 @@ class _DecisionTreeBase:
             else:
                 value = _float32(left_equal(node_id))
                 threshold = self.threshold_[node_id]
-                if (value < threshold) or (value == threshold and not self.strict_):
+                if self.strict_ and isnan(value):
+                    node_id = self.children_missing_[node_id]
+                elif (value < threshold) or (value == threshold and not self.strict_):
                     node_id = self.children_left_[node_id]
                 else:
                     node_id = self.children_right_[node_id]
diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index d227545..a267cc0 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -40,6 +40,8 @@ class XGBClassifierPure:
         self.classes_ = estimator.classes_.tolist()
         self.n_classes_ = estimator.n_classes_
         self.n_estimators = estimator.n_estimators
+        missing = getattr(estimator, "missing", None)
+        self.missing = float("NaN") if missing is None else float(missing)
         self.estimators_ = self._build_estimators(estimator)
         check_types(self)
 
@@ -92,6 +94,7 @@ class XGBClassifierPure:
 
     def predict_proba(self, X):
         X = check_array(X)
+        X = [[float("NaN") if v == self.missing else v for v in x] for x in X]
         if self.objective == "multi:softprob":
             preds = self._predict(X)
             out = []
-- 
2.43.0


From 30edd249e8257b515263e0df0b1dda9b2e86a1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 16/47] fix: refuse xgboost trees with categorical splits

---
 pure_sklearn/tree/_classes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index ab31665..c2f8d04 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -24,6 +24,12 @@ class _DecisionTreeBase:
             # sourced from xgboost booster object tree dictionary
             names = estimator.get("Names")
             ids = {node: index for index, node in enumerate(estimator["Node"])}
+            if any(
+                isnan(split)
+                for split, feature in zip(estimator["Split"], estimator["Feature"])
+                if feature != "Leaf"
+            ):
+                raise ValueError("Categorical splits are not supported")
             self.threshold_ = list(
                 map(lambda x: -2 if isnan(x) else _float32(x), estimator["Split"])
             )
-- 
2.43.0


From 970c4274556bf2cc2176aa27e19879365cef0a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 17/47] fix: use the boosting rounds and parallel trees xgboost
 itself uses

---
 pure_sklearn/xgboost/_classes.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index a267cc0..10b1bcc 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -54,19 +54,25 @@ class XGBClassifierPure:
             )
         tree_df = estimator.get_booster().trees_to_dataframe()
         names = getattr(estimator.get_booster(), "feature_names", None)
+        n_groups = 1 if self.n_classes_ == 2 else self.n_classes_
+        n_parallel = getattr(estimator, "num_parallel_tree", None) or 1
+        n_rounds = len(set(tree_df["Tree"])) // (n_groups * n_parallel)
+        best_iteration = getattr(estimator, "best_iteration", None)
+        if best_iteration is not None:
+            n_rounds = min(n_rounds, best_iteration + 1)
         estimators_ = []
-        idx = 0
-        for est_id in range(self.n_estimators):
+        for est_id in range(n_rounds * n_parallel):
+            # trees are ordered by round, then class, then parallel tree
+            idx = (est_id // n_parallel) * n_groups * n_parallel + est_id % n_parallel
             if self.n_classes_ == 2:
                 tree = tree_df[tree_df["Tree"] == idx].to_dict(orient="list")
                 est_row_ = DecisionTreeRegressorPure(dict(tree, Names=names))
-                idx += 1
             else:
                 est_row_ = []
                 for cls_id in range(self.n_classes_):
                     tree = tree_df[tree_df["Tree"] == idx].to_dict(orient="list")
                     est_row_.append(DecisionTreeRegressorPure(dict(tree, Names=names)))
-                    idx += 1
+                    idx += n_parallel
             estimators_.append(est_row_)
         return estimators_
 
@@ -75,7 +81,7 @@ class XGBClassifierPure:
         preds = []
         for cls_index in range(self.n_classes_):
             cls_sum = [0] * len(X)
-            for est_index in range(self.n_estimators):
+            for est_index in range(len(self.estimators_)):
                 est_preds = self.estimators_[est_index][cls_index].predict(X)
                 cls_sum = list(map(lambda x, y: x + y, cls_sum, est_preds))
             preds.append(cls_sum)
-- 
2.43.0


From 0f20cb3d340c59c6f9a3f5522a4cc2a8b713c5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 18/47] fix: add xgboost's base score to binary margins

---
 pure_sklearn/xgboost/_classes.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index 10b1bcc..f161946 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -2,7 +2,9 @@
 Estimator classes for xgboost
 """
 
-from math import exp
+import json
+
+from math import exp, log
 
 from ..base import sfmax, expit
 from ..utils import check_types, check_array
@@ -43,8 +45,20 @@ class XGBClassifierPure:
         missing = getattr(estimator, "missing", None)
         self.missing = float("NaN") if missing is None else float(missing)
         self.estimators_ = self._build_estimators(estimator)
+        base_score = self._get_base_score(estimator)
+        self.base_margin_ = log(base_score / (1.0 - base_score))
         check_types(self)
 
+    def _get_base_score(self, estimator):
+        """ Global bias; it cancels in the softmax of multi-class models """
+        if self.objective != "binary:logistic":
+            return 0.5
+        base_score = getattr(estimator, "base_score", None)
+        if base_score is None and hasattr(estimator.get_booster(), "save_config"):
+            config = json.loads(estimator.get_booster().save_config())
+            base_score = config["learner"]["learner_model_param"]["base_score"]
+        return 0.5 if base_score is None else float(base_score)
+
     def _build_estimators(self, estimator):
         """ Convert booster to list of pure decision tree regressors """
         if not hasattr(estimator.get_booster(), "trees_to_dataframe"):
@@ -89,7 +103,7 @@ class XGBClassifierPure:
 
     def _predict_binary(self, X):
         """ Raw sums of estimator predictions for each class for binary """
-        preds = [0] * len(X)
+        preds = [self.base_margin_] * len(X)
         for estimator in self.estimators_:
             preds = list(map(lambda x, y: x + y, preds, estimator.predict(X)))
         return preds
-- 
2.43.0


From d2f88a4499b6b31b0e1dbb60d9143b746f1c6e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:32 +0000
Subject: [PATCH 19/47] fix: store converted parameters as copies made of
 builtin types

---
 pure_sklearn/utils.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index 70bea37..c5df751 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -13,13 +13,27 @@ TYPES = (int, float, str, bool, type)
 MIN_VERSION = "0.20"
 
 
+def to_builtin(obj):
+    """ Copies builtin containers, with numpy scalars as builtin scalars """
+    if isinstance(obj, list):
+        return [to_builtin(ob) for ob in obj]
+    elif isinstance(obj, tuple):
+        return tuple([to_builtin(ob) for ob in obj])
+    elif isinstance(obj, dict):
+        return {to_builtin(k): to_builtin(v) for k, v in obj.items()}
+    elif hasattr(obj, "item") and getattr(obj, "shape", None) == ():
+        return obj.item()
+    else:
+        return obj
+
+
 def check_types(obj, containers=CONTAINERS, types=TYPES):
     """
     Checks if input object is an allowed type. Objects can be
     acceptable containers or acceptable types themselves.
     Containers are checked recursively to ensure all contained
     types are valid. If object is a `pure_sklearn` type, its
-    attributes are all recursively checked.
+    attributes are converted to builtin types and recursively checked.
     """
     if isinstance(obj, containers):
         if isinstance(obj, (list, tuple)):
@@ -32,7 +46,8 @@ def check_types(obj, containers=CONTAINERS, types=TYPES):
     elif isinstance(obj, types):
         pass
     elif "pure_sklearn" in str(type(obj)):
-        for attr in vars(obj):
+        for attr in list(vars(obj)):
+            setattr(obj, attr, to_builtin(getattr(obj, attr)))
             check_types(getattr(obj, attr))
     elif obj is None:
         pass
-- 
2.43.0


From ffe257267a664c0725dd87075fef9fdcd074f536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 20/47] fix: naive Bayes refuses records of the wrong width

---
 pure_sklearn/naive_bayes.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pure_sklearn/naive_bayes.py b/pure_sklearn/naive_bayes.py
index 241e762..71d996b 100644
--- a/pure_sklearn/naive_bayes.py
+++ b/pure_sklearn/naive_bayes.py
@@ -6,7 +6,7 @@ from abc import abstractmethod
 from math import pi
 
 from .base import dot, transpose, safe_log, safe_exp
-from .utils import check_array, check_types, check_version
+from .utils import check_array, check_types, check_version, shape
 
 __all__ = ["GaussianNBPure", "MultinomialNBPure", "ComplementNBPure"]
 
@@ -18,11 +18,22 @@ class _BaseNBPure:
     def _joint_log_likelihood(self, X):
         """ Compute the unnormalized posterior log probability of X """
 
+    def _check_X(self, X):
+        """ Check input, including its number of features """
+        X = check_array(X, handle_sparse="error")
+        params = self.theta_ if hasattr(self, "theta_") else self.feature_log_prob_
+        if shape(X)[1] != shape(params)[1]:
+            raise ValueError(
+                "X has %d features per sample; expecting %d"
+                % (shape(X)[1], shape(params)[1])
+            )
+        return X
+
     def predict(self, X):
         """
         Perform classification on an array of test vectors X.
         """
-        X = check_array(X, handle_sparse="error")
+        X = self._check_X(X)
         jll = self._joint_log_likelihood(X)
         indices = map(lambda a: a.index(max(a)), jll)
         return [self.classes_[i] for i in indices]
@@ -31,7 +42,7 @@ class _BaseNBPure:
         """
         Return log-probability estimates for the test vector X.
         """
-        X = check_array(X, handle_sparse="error")
+        X = self._check_X(X)
         jll = self._joint_log_likelihood(X)
         log_prob_x = [
             max(a) + safe_log(sum([safe_exp(x - max(a)) for x in a])) for a in jll
-- 
2.43.0


From cb342e005395835cfc2e4e33555887bc3ae7799f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 21/47] fix: scalers refuse records of the wrong width instead
 of truncating them

---
 pure_sklearn/preprocessing/_data.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/preprocessing/_data.py b/pure_sklearn/preprocessing/_data.py
index 4eb49e0..6fc1cc5 100644
--- a/pure_sklearn/preprocessing/_data.py
+++ b/pure_sklearn/preprocessing/_data.py
@@ -5,7 +5,14 @@ Normalization and scaling
 from math import sqrt
 from copy import copy as cp
 
-from ..utils import sparse_list, issparse, check_array, check_types, check_version
+from ..utils import (
+    sparse_list,
+    issparse,
+    check_array,
+    check_types,
+    check_version,
+    shape,
+)
 from ..base import transpose, apply_2d, apply_axis_2d, matmult_same_dim
 
 
@@ -21,6 +28,16 @@ def _handle_zeros_in_scale(scale, copy=True):
         return [(1.0 if scale[i] == 0.0 else scale[i]) for i in range(len(scale))]
 
 
+def _check_n_features(X, *params):
+    """ Makes sure records have as many features as the fitted parameters """
+    for param in params:
+        if (param is not None) and (shape(X)[1] != len(param)):
+            raise ValueError(
+                "X has %d features per sample; expecting %d"
+                % (shape(X)[1], len(param))
+            )
+
+
 def _row_norms(X):
     """ Row-wise (squared) Euclidean norm of X """
     X_X = matmult_same_dim(X, X)
@@ -132,6 +149,7 @@ class StandardScalerPure:
     def transform(self, X, copy=None):
         """ Perform standardization by centering and scaling """
         X = check_array(X, handle_sparse="allow")
+        _check_n_features(X, self.mean_, self.scale_)
 
         if issparse(X):
             if self.with_mean:
@@ -181,6 +199,7 @@ class MinMaxScalerPure:
                 "Consider using MaxAbsScalerPure instead."
             )
         X = check_array(X)
+        _check_n_features(X, self.scale_)
         return [
             [(x[i] * self.scale_[i]) + self.min_[i] for i in range(len(self.scale_))]
             for x in X
@@ -211,6 +230,7 @@ class MaxAbsScalerPure:
     def transform(self, X):
         """ Scale the data """
         X = check_array(X, handle_sparse="allow")
+        _check_n_features(X, self.scale_)
         if issparse(X):
             X_ = [{k: (v / self.scale_[k]) for k, v in x.items()} for x in X]
             X = sparse_list(X_, size=X.size, dtype=X.dtype)
-- 
2.43.0


From cc6e64db11d6c630b71384cd67615806b432eff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 22/47] fix: max norm is the largest absolute value

---
 pure_sklearn/preprocessing/_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/preprocessing/_data.py b/pure_sklearn/preprocessing/_data.py
index 6fc1cc5..c080c6e 100644
--- a/pure_sklearn/preprocessing/_data.py
+++ b/pure_sklearn/preprocessing/_data.py
@@ -74,7 +74,7 @@ def normalize_pure(X, norm="l2", axis=1, copy=True, return_norm=False):
         elif norm == "l2":
             norms = _row_norms(X)
         elif norm == "max":
-            norms = [max(list(x.values()) + [0]) for x in X]
+            norms = [max(list(map(abs, x.values())) + [0]) for x in X]
         norms = _handle_zeros_in_scale(norms, copy=False)
         X_sparse = [
             {k: (v / float(norms[index])) for k, v in X[index].items()}
@@ -87,7 +87,7 @@ def normalize_pure(X, norm="l2", axis=1, copy=True, return_norm=False):
         elif norm == "l2":
             norms = _row_norms(X)
         elif norm == "max":
-            norms = apply_axis_2d(X, max, axis=1)
+            norms = apply_axis_2d(apply_2d(X, abs), max, axis=1)
         norms = _handle_zeros_in_scale(norms, copy=False)
         X = [
             list(map(lambda a: a / float(norms[index]), X[index]))
-- 
2.43.0


From 557c5d782a7ed8e6505945ec5cd4410479c99ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 23/47] fix: dummy classifier predicts the class label, with
 one answer per record

---
 pure_sklearn/dummy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/dummy.py b/pure_sklearn/dummy.py
index 3697848..b2491ed 100644
--- a/pure_sklearn/dummy.py
+++ b/pure_sklearn/dummy.py
@@ -26,15 +26,17 @@ class DummyClassifierPure:
         if self._strategy != "prior":
             raise ValueError("Strategy '{}' not supported".format(self._strategy))
         self.class_prior_ = estimator.class_prior_.tolist()
+        self.classes_ = estimator.classes_.tolist()
         self.n_classes_ = estimator.n_classes_
         self.n_outputs_ = estimator.n_outputs_
         check_types(self)
 
     def predict(self, X):
-        return [self.class_prior_.index(max(self.class_prior_))] * len(X)
+        index = self.class_prior_.index(max(self.class_prior_))
+        return [self.classes_[index]] * len(X)
 
     def predict_proba(self, X):
-        return [self.class_prior_] * len(X)
+        return [list(self.class_prior_) for _ in range(len(X))]
 
     def predict_log_proba(self, X):
         return apply_2d(self.predict_proba(X), safe_log)
-- 
2.43.0


From 839a167098c65c3c95db0d3778ae1c1f1a45c062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 24/47] fix: convert pipelines with pass-through steps and
 unions with dropped transformers

---
 pure_sklearn/pipeline.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/pipeline.py b/pure_sklearn/pipeline.py
index 41196f8..77a54ce 100644
--- a/pure_sklearn/pipeline.py
+++ b/pure_sklearn/pipeline.py
@@ -64,6 +64,13 @@ def _transform_one(transformer, X, y, weight, **fit_params):
     return apply_2d(res, lambda x: x * weight)
 
 
+def _convert_step(step, placeholder):
+    """ Convert one step, keeping those that stand for no estimator """
+    if step is None or (isinstance(step, str) and step == placeholder):
+        return step
+    return convert_estimator(step)
+
+
 class PipelinePure:
     """
     Pure python implementation of `Pipeline`.
@@ -76,7 +83,7 @@ class PipelinePure:
         check_version(estimator)
         self.steps = []
         for step in estimator.steps:
-            step_ = convert_estimator(step[1])
+            step_ = _convert_step(step[1], "passthrough")
             self.steps.append((step[0], step_))
         check_types(self)
 
@@ -163,7 +170,7 @@ class FeatureUnionPure:
         check_version(estimator)
         self.transformer_list = []
         for step in estimator.transformer_list:
-            step_ = convert_estimator(step[1])
+            step_ = _convert_step(step[1], "drop")
             self.transformer_list.append((step[0], step_))
 
         if hasattr(estimator, "transformer_weights"):
-- 
2.43.0


From 3da40c6ec649ba6e6b94483b3cc8660a0b65c5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 25/47] fix: weights of a feature union apply to sparse outputs

---
 pure_sklearn/pipeline.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/pipeline.py b/pure_sklearn/pipeline.py
index 77a54ce..521bea2 100644
--- a/pure_sklearn/pipeline.py
+++ b/pure_sklearn/pipeline.py
@@ -6,7 +6,7 @@ from operator import add, attrgetter
 from functools import update_wrapper, reduce
 from itertools import islice
 
-from .base import accumu, apply_2d
+from .base import accumu, apply_2d, apply_2d_sparse
 from .utils import (
     issparse,
     tosparse,
@@ -61,7 +61,8 @@ def _transform_one(transformer, X, y, weight, **fit_params):
     # if we have a weight for this transformer, multiply output
     if weight is None:
         return res
-    return apply_2d(res, lambda x: x * weight)
+    apply = apply_2d_sparse if issparse(res) else apply_2d
+    return apply(res, lambda x: x * weight)
 
 
 def _convert_step(step, placeholder):
-- 
2.43.0


From b13181c1176b0b6cd3834693439f1855a41248b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 26/47] fix: a feature union without transformers has no
 columns

---
 pure_sklearn/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/pipeline.py b/pure_sklearn/pipeline.py
index 521bea2..934a8da 100644
--- a/pure_sklearn/pipeline.py
+++ b/pure_sklearn/pipeline.py
@@ -202,7 +202,7 @@ class FeatureUnionPure:
             for name, trans, weight in self._iter()
         ]
         if not Xs:
-            return [[0.0] * shape(X)[1]] * shape(X)[0]
+            return [[] for _ in X]
 
         if any(issparse(f) for f in Xs):
             Xs = [tosparse(X_) if not issparse(X_) else X_ for X_ in Xs]
-- 
2.43.0


From e16cdcff610aaeccdf136cee719e9749d5c4fc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 27/47] fix: imputers recognise NaN only in floats, so strings
 and None are handled

---
 pure_sklearn/impute/_base.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pure_sklearn/impute/_base.py b/pure_sklearn/impute/_base.py
index a3e594c..dd1cacc 100644
--- a/pure_sklearn/impute/_base.py
+++ b/pure_sklearn/impute/_base.py
@@ -8,9 +8,13 @@ from ..utils import shape, check_array, check_types, check_version
 from ..base import apply_2d, apply_axis_2d
 
 
+def _is_nan(val):
+    return isinstance(val, float) and isnan(val)
+
+
 def _to_impute(val, missing_values):
-    if isnan(missing_values):
-        return isnan(val)
+    if _is_nan(missing_values):
+        return _is_nan(val)
     else:
         return val == missing_values
 
@@ -146,7 +150,7 @@ class SimpleImputerPure:
             to_remove = [
                 index
                 for index in range(len(self.statistics_))
-                if isnan(self.statistics_[index])
+                if _is_nan(self.statistics_[index])
             ]
             if len(to_remove) > 0:
                 X = [[a[i] for i in range(len(a)) if i not in to_remove] for a in X]
-- 
2.43.0


From 3d694a393489e038effae29e80b53068efd3cae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 28/47] fix: missing indicator compares feature indices, not
 counts, with the fitted ones

---
 pure_sklearn/impute/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/impute/_base.py b/pure_sklearn/impute/_base.py
index dd1cacc..4aaf8e7 100644
--- a/pure_sklearn/impute/_base.py
+++ b/pure_sklearn/impute/_base.py
@@ -74,7 +74,7 @@ class MissingIndicatorPure:
         if self.features == "all":
             features_indices = range(shape(X)[1])
         else:
-            features_indices = [a for a in n_missing if a != 0]
+            features_indices = [i for i, a in enumerate(n_missing) if a != 0]
         return imputer_mask, features_indices
 
 
-- 
2.43.0


From cc68a35905229ee5152487a7085dc2a564411a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 29/47] fix: column selection of sparse data renumbers the
 selected columns

---
 pure_sklearn/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/base.py b/pure_sklearn/base.py
index 552bd88..f40caad 100644
--- a/pure_sklearn/base.py
+++ b/pure_sklearn/base.py
@@ -161,8 +161,8 @@ def slice_column(A, idx):
             return [a[idx] for a in A]
     if isinstance(idx, (list, tuple)):
         if issparse(A):
-            A_ = [{k: v for k, v in a.items() if k in idx} for a in A]
-            return sparse_list(A_, size=A.size, dtype=A.dtype)
+            A_ = [{j: a[i] for j, i in enumerate(idx) if i in a} for a in A]
+            return sparse_list(A_, size=len(idx), dtype=A.dtype)
         else:
             return [[a[i] for i in idx] for a in A]
 
-- 
2.43.0


From e837c287dd79d063b4233a1d0ad61b00671ea662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 30/47] fix: ravel flattens every column

---
 pure_sklearn/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/base.py b/pure_sklearn/base.py
index f40caad..97f30f8 100644
--- a/pure_sklearn/base.py
+++ b/pure_sklearn/base.py
@@ -149,7 +149,7 @@ def ravel(A):
     """ Equivalent of numpy ravel on 2-D list """
     if issparse(A):
         raise ValueError("Sparse input not supported.")
-    return list(transpose(A)[0])
+    return [x for a in A for x in a]
 
 
 def slice_column(A, idx):
-- 
2.43.0


From 0184b152307bc08c856a5fb3a7812eb1069503be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 31/47] fix: bagging members see their features of sparse
 records

---
 pure_sklearn/ensemble/_bagging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/ensemble/_bagging.py b/pure_sklearn/ensemble/_bagging.py
index f10446d..1fa7beb 100644
--- a/pure_sklearn/ensemble/_bagging.py
+++ b/pure_sklearn/ensemble/_bagging.py
@@ -5,7 +5,7 @@ Bagging classifier
 from operator import add
 
 from ..map import MAPPING, convert_estimator
-from ..base import safe_log, operate_2d, apply_2d
+from ..base import safe_log, operate_2d, apply_2d, slice_column
 from ..utils import shape, check_types, check_version
 
 
@@ -13,7 +13,7 @@ def _feat_slice(X, feats):
     if feats is None:
         return X
     else:
-        return [[a[i] for i in feats] for a in X]
+        return slice_column(X, feats)
 
 
 class _BaseBaggingPure:
-- 
2.43.0


From 8e17bd6e815bf7abe0323f55a7440810974b0244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 32/47] fix: bagging members contribute zero to classes they
 were trained without

---
 pure_sklearn/ensemble/_bagging.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pure_sklearn/ensemble/_bagging.py b/pure_sklearn/ensemble/_bagging.py
index 1fa7beb..1950e35 100644
--- a/pure_sklearn/ensemble/_bagging.py
+++ b/pure_sklearn/ensemble/_bagging.py
@@ -32,12 +32,23 @@ class _BaseBaggingPure:
             self.estimators_.append(est_)
         check_types(self)
 
+    def _member_proba(self, X, idx):
+        """ Probabilities of one member for all classes of the ensemble """
+        est = self.estimators_[idx]
+        proba = est.predict_proba(_feat_slice(X, self._get_feats(idx)))
+        if len(est.classes_) == len(self.classes_):
+            return proba
+        # members are trained on class indices
+        position = {int(c): i for i, c in enumerate(est.classes_)}
+        return [
+            [a[position[k]] if k in position else 0.0 for k in range(len(self.classes_))]
+            for a in proba
+        ]
+
     def predict_proba(self, X):
-        proba = self.estimators_[0].predict_proba(_feat_slice(X, self._get_feats(0)))
+        proba = self._member_proba(X, 0)
         for idx in range(len(self.estimators_))[1:]:
-            proba_idx = self.estimators_[idx].predict_proba(
-                _feat_slice(X, self._get_feats(idx))
-            )
+            proba_idx = self._member_proba(X, idx)
             proba = operate_2d(proba, proba_idx, add)
         func = lambda x: x / float(len(self.estimators_))
         return apply_2d(proba, func)
-- 
2.43.0


From 790f22467cf38d6bf6a27c48d6d76f9961205501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 33/47] fix: tf-idf transformation leaves its input alone and
 supports sublinear tf

---
 pure_sklearn/feature_extraction/text.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index e3164cf..c410037 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -21,6 +21,7 @@ from ..utils import (
 )
 from ..map import convert_estimator
 from ..preprocessing import normalize_pure
+from ..base import apply_2d_sparse, safe_log
 from ._hash import _FeatureHasherPure
 
 __all__ = [
@@ -423,8 +424,7 @@ class TfidfTransformerPure:
         n_samples, n_features = shape(X)
 
         if self.sublinear_tf:
-            for index in range(len(X)):
-                X[index] = safe_log(X[index]) + 1
+            X = apply_2d_sparse(X, lambda x: safe_log(x) + 1)
 
         if self.use_idf:
             if n_features != self.expected_n_features_:
@@ -433,9 +433,8 @@ class TfidfTransformerPure:
                     " has been trained with n_features=%d"
                     % (n_features, expected_n_features)
                 )
-            for index in range(len(X)):
-                for k, v in X[index].items():
-                    X[index][k] = v * self.idf_[k]
+            X_ = [{k: v * self.idf_[k] for k, v in x.items()} for x in X]
+            X = sparse_list(X_, size=X.size, dtype=float)
 
         if self.norm:
             X = normalize_pure(X, norm=self.norm, copy=False)
-- 
2.43.0


From 5abbf6fed5996ed517898b7ea799b782a3f96fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 34/47] fix: tf-idf transformers without idf convert, and width
 errors name both widths

---
 pure_sklearn/feature_extraction/text.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index c410037..7293a62 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -415,8 +415,9 @@ class TfidfTransformerPure:
         self.use_idf = estimator.use_idf
         self.smooth_idf = estimator.smooth_idf
         self.sublinear_tf = estimator.sublinear_tf
-        self.idf_ = estimator.idf_.tolist()
-        self.expected_n_features_ = estimator._idf_diag.shape[0]
+        if self.use_idf:
+            self.idf_ = estimator.idf_.tolist()
+            self.expected_n_features_ = estimator._idf_diag.shape[0]
         check_types(self)
 
     def transform(self, X, copy=True):
@@ -431,7 +432,7 @@ class TfidfTransformerPure:
                 raise ValueError(
                     "Input has n_features=%d while the model"
                     " has been trained with n_features=%d"
-                    % (n_features, expected_n_features)
+                    % (n_features, self.expected_n_features_)
                 )
             X_ = [{k: v * self.idf_[k] for k, v in x.items()} for x in X]
             X = sparse_list(X_, size=X.size, dtype=float)
-- 
2.43.0


From 2a9ae3c7b59188eff563c48ba1b689317f7e0d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 35/47] fix: binary vectorizers return sparse lists

---
 pure_sklearn/feature_extraction/text.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index 7293a62..9d48971 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -378,7 +378,8 @@ class CountVectorizerPure(_VectorizerMixinPure):
 
         _, X = self._count_vocab(raw_documents)
         if self.binary:
-            X = [dict.fromkeys(x, 1) for x in X]
+            X_ = [dict.fromkeys(x, 1) for x in X]
+            X = sparse_list(X_, size=X.size, dtype=X.dtype)
         return X
 
 
@@ -481,7 +482,8 @@ class HashingVectorizerPure(_VectorizerMixinPure):
         analyzer = self.build_analyzer()
         X = self._get_hasher().transform(analyzer(doc) for doc in X)
         if self.binary:
-            X = [dict.fromkeys(x, 1) for x in X]
+            X_ = [dict.fromkeys(x, 1) for x in X]
+            X = sparse_list(X_, size=X.size, dtype=X.dtype)
 
         if self.norm is not None:
             X = normalize_pure(X, norm=self.norm, copy=False)
-- 
2.43.0


From e4cdbba76603d4b291bc1a6acfafd51ebb149486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 36/47] fix: feature hashing adds up repeated and colliding
 tokens

---
 pure_sklearn/feature_extraction/_hash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/feature_extraction/_hash.py b/pure_sklearn/feature_extraction/_hash.py
index 05ddeae..5212039 100755
--- a/pure_sklearn/feature_extraction/_hash.py
+++ b/pure_sklearn/feature_extraction/_hash.py
@@ -109,7 +109,7 @@ def _hashing_transform(raw_X, n_features, dtype, alternate_sign=1, seed=0):
             index = abs(h) % n_features
             if alternate_sign:
                 value *= (h >= 0) * 2 - 1
-            row[index] = value
+            row[index] = row.get(index, 0) + value
         X.append(row)
     return sparse_list(X, size=n_features, dtype=dtype)
 
-- 
2.43.0


From f572a82c490ca220ef043181e9e6eacee870de56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 37/47] fix: fastText models with subwords or word n-grams are
 refused

---
 pure_fasttext/FastText.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index fe2dcb4..9c2d430 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -69,6 +69,10 @@ class _FastText(object):
             )
         if self.supervised_ and (model.loss.name not in ("softmax")):
             raise Exception("Only 'softmax' loss is supported for supervised mode.")
+        if self.supervised_ and (model.maxn != 0 or model.wordNgrams > 1):
+            raise ValueError(
+                "Only maxn=0 and wordNgrams=1 are supported for supervised mode."
+            )
         self.words_ = model.get_words()
         self.input_matrix_ = model.get_input_matrix().tolist()
         self.dim_ = model.get_dimension()
-- 
2.43.0


From bf6e38113e32286cd8dc24c07a537ccbf7769678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 38/47] fix: fastText predicts lists of lines

---
 pure_fasttext/FastText.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index 9c2d430..43c498e 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -157,9 +157,6 @@ class _FastText(object):
             text = [entry for entry in text]
             all_labels = []
             all_probs = []
-            all_labels, all_probs = self.f.multilinePredict(
-                text, k, threshold, on_unicode_error
-            )
             for text_ in text:
                 labels, probs = self._predict(text_, k, threshold)
                 all_labels.append(labels)
-- 
2.43.0


From 12f030bee4580e735b5a9f5dc6364524ba4181ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 39/47] fix: fastText k must be positive, or -1 for all labels

---
 pure_fasttext/FastText.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index 43c498e..8395bd0 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -135,6 +135,10 @@ class _FastText(object):
 
     def _predict(self, text, k=1, threshold=0.0):
         """ Guts of prediction method """
+        if k == -1:
+            k = len(self.labels_)
+        elif k < 1:
+            raise ValueError("k needs to be 1 or higher!")
         A = self.get_sentence_vector(text)
         if self.loss_ == "softmax":
             preds = sfmax(dot(A, self.output_matrix_))
-- 
2.43.0


From ffa51d080965f3be3849ca81850761d937680894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 40/47] fix: fastText sentence vectors average words with a
 norm only, zeros if there are none

---
 pure_fasttext/FastText.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index 8395bd0..46202c3 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -108,13 +108,16 @@ class _FastText(object):
                 for word in (text.split() + [EOS])
                 if word in self.words_
             ]
-            return average(raw_words)
+            return average(raw_words) if raw_words else [0.0] * self.dim_
         else:
             raw_words = [
                 self.get_word_vector(word)
                 for word in text.split()
                 if word in self.words_
             ]
+            raw_words = [vec for vec in raw_words if l2_norm(vec) > 0]
+            if not raw_words:
+                return [0.0] * self.dim_
             return average(list(map(div_norm, raw_words)))
 
     def get_word_id(self, word):
-- 
2.43.0


From edadc35909f0e710f21baad2b08b55c5a4e365fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 41/47] fix: fastText splits words on the separators it
 documents and stops at end of sentence

---
 pure_fasttext/FastText.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index 46202c3..a47a59d 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -45,6 +45,13 @@ def argsort(seq):
     return sorted(range(len(seq)), key=seq.__getitem__)
 
 
+def split_words(text):
+    """ Splits text on the whitespace and control characters fasttext uses """
+    for sep in "\n\t\v\r\f\0":
+        text = text.replace(sep, " ")
+    return [word for word in text.split(" ") if word != ""]
+
+
 def average(l):
     """ Computes average of 2-D list """
     llen = len(l)
@@ -103,16 +110,17 @@ class _FastText(object):
         text += "\n"
 
         if self.supervised_:
+            words = split_words(text) + [EOS]
             raw_words = [
                 self.get_word_vector(word)
-                for word in (text.split() + [EOS])
+                for word in words[: words.index(EOS) + 1]
                 if word in self.words_
             ]
             return average(raw_words) if raw_words else [0.0] * self.dim_
         else:
             raw_words = [
                 self.get_word_vector(word)
-                for word in text.split()
+                for word in split_words(text)
                 if word in self.words_
             ]
             raw_words = [vec for vec in raw_words if l2_norm(vec) > 0]
-- 
2.43.0


From 31a2a1d6cf89b1aa4af317ed67d753c7a24fd822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 42/47] fix: fastText vectors do not alias the model's input
 matrix

---
 pure_fasttext/FastText.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index a47a59d..aa7f275 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -142,7 +142,7 @@ class _FastText(object):
         """
         Given an index, get the corresponding vector of the Input Matrix.
         """
-        return self.input_matrix_[ind]
+        return list(self.input_matrix_[ind])
 
     def _predict(self, text, k=1, threshold=0.0):
         """ Guts of prediction method """
-- 
2.43.0


From 070ef834ebcf4477d30956da3cfd9faef1f9773c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:36 +0000
Subject: [PATCH 43/47] fix: pairwise metrics refuse ragged and empty records

---
 pure_sklearn/metrics/pairwise.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/metrics/pairwise.py b/pure_sklearn/metrics/pairwise.py
index 3c407bf..adea383 100644
--- a/pure_sklearn/metrics/pairwise.py
+++ b/pure_sklearn/metrics/pairwise.py
@@ -5,7 +5,7 @@ Pairwise distance and similarity metrics
 from math import sqrt
 
 from ..base import dot_2d, apply_2d, transpose
-from ..utils import shape, ndim, issparse
+from ..utils import shape, ndim, issparse, check_array
 from ..preprocessing import normalize_pure
 
 __all__ = ["cosine_similarity_pure", "cosine_distances_pure", "linear_kernel_pure"]
@@ -37,6 +37,8 @@ def _check_pairwise_arrays(X, Y):
         raise ValueError("Input arrays must have same 2nd dimension.")
     if issparse(Y):
         raise ValueError("Input array 'Y' cannot be sparse.")
+    check_array(X, handle_sparse="allow")
+    check_array(Y)
     return X, Y
 
 
-- 
2.43.0


From 670ac2fbd66b73ebb353c82b255f5ceb224ef834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 44/47] fix: decision trees refuse records of the wrong width

---
 pure_sklearn/tree/_classes.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index c2f8d04..45668ef 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -8,7 +8,7 @@ from array import array
 from math import isnan
 
 from ..base import safe_log
-from ..utils import check_array, check_types, check_version
+from ..utils import check_array, check_types, check_version, shape
 
 
 def _float32(x):
@@ -76,6 +76,7 @@ class _DecisionTreeBase:
             self.feature_ = estimator.tree_.feature.tolist()
             self.threshold_ = estimator.tree_.threshold.tolist()
             self.value_ = [a[0] for a in estimator.tree_.value.tolist()]
+            self.n_features_ = getattr(estimator, "n_features_", None)
             with warnings.catch_warnings():
                 warnings.simplefilter("ignore")
                 if hasattr(estimator, "classes_") and (estimator.classes_ is not None):
@@ -91,6 +92,16 @@ class _DecisionTreeBase:
             return list(names).index(feature)
         return int(feature[1:])
 
+    def _check_X(self, X):
+        """ Check input, including its number of features when known """
+        X = check_array(X, handle_sparse="allow")
+        n_features = getattr(self, "n_features_", None)
+        if (n_features is not None) and (shape(X)[1] not in (n_features, None)):
+            raise ValueError(
+                "X has %d features per sample; expecting %d" % (shape(X)[1], n_features)
+            )
+        return X
+
     def _get_leaf_node(self, x):
         if isinstance(x, dict):
             left_equal = lambda nd: x.get(self.feature_[nd], 0.0)
@@ -128,13 +139,13 @@ class DecisionTreeClassifierPure(_DecisionTreeBase):
         return [a / sum(self.value_[node_id]) for a in self.value_[node_id]]
 
     def predict(self, X):
-        X = check_array(X, handle_sparse="allow")
+        X = self._check_X(X)
         leaves = [self._get_leaf_node(x) for x in X]
         preds = [self._get_pred_from_leaf_node(x) for x in leaves]
         return [self.classes_[x] for x in preds]
 
     def predict_proba(self, X):
-        X = check_array(X, handle_sparse="allow")
+        X = self._check_X(X)
         leaves = [self._get_leaf_node(x) for x in X]
         return [self._get_proba_from_leaf_node(x) for x in leaves]
 
@@ -154,7 +165,7 @@ class DecisionTreeRegressorPure(_DecisionTreeBase):
         return self.value_[node_id][0]
 
     def predict(self, X):
-        X = check_array(X, handle_sparse="allow")
+        X = self._check_X(X)
         leaves = [self._get_leaf_node(x) for x in X]
         return [self._get_pred_from_leaf_node(x) for x in leaves]
 
-- 
2.43.0


From 5d382a80a170257541bb66e26b83294e73e76cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 45/47] fix: bagging refuses records that are no list or of the
 wrong width

---
 pure_sklearn/ensemble/_bagging.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/ensemble/_bagging.py b/pure_sklearn/ensemble/_bagging.py
index 1950e35..6055314 100644
--- a/pure_sklearn/ensemble/_bagging.py
+++ b/pure_sklearn/ensemble/_bagging.py
@@ -6,7 +6,7 @@ from operator import add
 
 from ..map import MAPPING, convert_estimator
 from ..base import safe_log, operate_2d, apply_2d, slice_column
-from ..utils import shape, check_types, check_version
+from ..utils import shape, check_array, check_types, check_version
 
 
 def _feat_slice(X, feats):
@@ -25,6 +25,7 @@ class _BaseBaggingPure:
             self.estimators_features_ = [
                 a.tolist() for a in estimator.estimators_features_
             ]
+        self.n_features_ = getattr(estimator, "n_features_", None)
         self.classes_ = estimator.classes_.tolist()
         self.estimators_ = []
         for est in estimator.estimators_:
@@ -46,6 +47,12 @@ class _BaseBaggingPure:
         ]
 
     def predict_proba(self, X):
+        X = check_array(X, handle_sparse="allow")
+        n_features = getattr(self, "n_features_", None)
+        if (n_features is not None) and (shape(X)[1] not in (n_features, None)):
+            raise ValueError(
+                "X has %d features per sample; expecting %d" % (shape(X)[1], n_features)
+            )
         proba = self._member_proba(X, 0)
         for idx in range(len(self.estimators_))[1:]:
             proba_idx = self._member_proba(X, idx)
-- 
2.43.0


From db4d6f2210ed3f2fd0cd0b960b7b3d4341f3bf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 46/47] fix: xgboost models refuse records of the wrong width

---
 pure_sklearn/xgboost/_classes.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index f161946..d803430 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -7,7 +7,7 @@ import json
 from math import exp, log
 
 from ..base import sfmax, expit
-from ..utils import check_types, check_array
+from ..utils import check_types, check_array, shape
 from ..tree import DecisionTreeRegressorPure
 
 MIN_VERSION = "0.82"
@@ -45,10 +45,16 @@ class XGBClassifierPure:
         missing = getattr(estimator, "missing", None)
         self.missing = float("NaN") if missing is None else float(missing)
         self.estimators_ = self._build_estimators(estimator)
+        self.n_features_ = self._get_n_features(estimator)
         base_score = self._get_base_score(estimator)
         self.base_margin_ = log(base_score / (1.0 - base_score))
         check_types(self)
 
+    def _get_n_features(self, estimator):
+        """ Number of features, where the booster tells it """
+        booster = estimator.get_booster()
+        return int(booster.num_features()) if hasattr(booster, "num_features") else None
+
     def _get_base_score(self, estimator):
         """ Global bias; it cancels in the softmax of multi-class models """
         if self.objective != "binary:logistic":
@@ -114,6 +120,11 @@ class XGBClassifierPure:
 
     def predict_proba(self, X):
         X = check_array(X)
+        n_features = getattr(self, "n_features_", None)
+        if (n_features is not None) and (shape(X)[1] != n_features):
+            raise ValueError(
+                "X has %d features per sample; expecting %d" % (shape(X)[1], n_features)
+            )
         X = [[float("NaN") if v == self.missing else v for v in x] for x in X]
         if self.objective == "multi:softprob":
             preds = self._predict(X)
-- 
2.43.0


From 14b2fbe7dbf034b1a5928d48575a96e618b2757d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:33 +0000
Subject: [PATCH 47/47] fix: sparse lists without columns, as in unions of
 sparse and empty outputs

---
 pure_sklearn/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index c5df751..deac380 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -188,7 +188,7 @@ class sparse_list(list):
         else:
             A = check_array(A)
             self.size = shape(A)[1]
-            self.dtype = type(A[0][0])
+            self.dtype = type(A[0][0]) if self.size > 0 else float
             for row in A:
                 self.append(
                     dict([(i, row[i]) for i in range(self.size) if row[i] != 0])
-- 
2.43.0

