From abcb7172582b7b4c29a7a47f500520e379dbc8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:09 +0000
Subject: [PATCH 01/45] fix: dividing a negative scalar by a step function
 leaks -inf where the divisor is zero

---
 staircase/core/ops/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/ops/arithmetic.py b/staircase/core/ops/arithmetic.py
index 5c1ebb3..fd95343 100644
--- a/staircase/core/ops/arithmetic.py
+++ b/staircase/core/ops/arithmetic.py
@@ -117,7 +117,7 @@ def _make_mul_div_func(docstring, series_op, float_op, series_rop, float_rop):
             else:
                 data = pd.DataFrame({"value": series_op(self._get_values(), other)})
                 if series_op in (pd.Series.divide, pd.Series.rdiv):
-                    data = data.replace(np.inf, np.nan)
+                    data = data.replace([np.inf, -np.inf], np.nan)
             initial_value = float_op(self.initial_value, other)
             initial_value = initial_value if np.isfinite(initial_value) else np.nan
             return sc.Stairs._new(
-- 
2.43.0


From 8af11e165a3916fc0c6317df27ed4cb89a1c079e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:45 +0000
Subject: [PATCH 02/45] fix: scalar NaN/NaT start or end in layer means
 unbounded, as in vectors

---
 staircase/core/layering.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index 82c0505..39f92e4 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -80,6 +80,10 @@ def _preprocess_layer_args(frame, start, end, value):
         end = None
     if frame is not None:
         start, end, value = _extract_from_frame(frame, start, end, value)
+    if not is_list_like(start) and pd.isna(start):
+        start = None
+    if not is_list_like(end) and pd.isna(end):
+        end = None
     if value is None:
         value = 1
     return start, end, value
-- 
2.43.0


From c8979e1d113310fd889f24b9f6deb6f766641133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:45 +0000
Subject: [PATCH 03/45] fix: layering a scalar interval which cancels every
 step leaves a stale step function

---
 staircase/core/layering.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index 39f92e4..9a327b4 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -111,7 +111,7 @@ def _layer_scalar(self, start, end, value):
     if self._data is None:
         deltas = pd.Series(name="delta", dtype="float64")
     else:
-        deltas = self._get_deltas()
+        deltas = self._get_deltas().copy()
 
     if start is None:
         self.initial_value += value
@@ -130,9 +130,8 @@ def _layer_scalar(self, start, end, value):
             deltas.loc[end] = -value
         if deltas.loc[end] == 0:
             deltas.drop(end, inplace=True)
-    if len(deltas) > 0:
-        self._data = deltas.sort_index().to_frame()
-        self._valid_deltas = True
+    self._data = deltas.sort_index().to_frame() if len(deltas) > 0 else None
+    self._valid_deltas = self._data is not None
     self._valid_values = False
     return self
 
-- 
2.43.0


From a81c3b9573e7be902ee7127c17f75e4a94b19905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:45 +0000
Subject: [PATCH 04/45] fix: layering onto a partly undefined step function
 redefines it or gives wrong values

---
 staircase/core/layering.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index 9a327b4..2e4696e 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -136,6 +136,16 @@ def _layer_scalar(self, start, end, value):
     return self
 
 
+def _layer_with_na(self, start, end, value):
+    # step changes cannot be accumulated across regions where self is undefined
+    result = self + self.__class__(closed=self.closed).layer(start, end, value)
+    self.initial_value = result.initial_value
+    self._data = result._data
+    self._valid_deltas = result._valid_deltas
+    self._valid_values = result._valid_values
+    return self
+
+
 @Appender(examples.layer_example, join="\n", indents=1)
 def layer(self, start=None, end=None, value=None, frame=None):
     """
@@ -172,6 +182,8 @@ def layer(self, start=None, end=None, value=None, frame=None):
         return self
     self._clear_cache()
     start, end, value = _preprocess_layer_args(frame, start, end, value)
+    if self._data is not None and self._has_na():
+        return _layer_with_na(self, start, end, value)
     if not any(list(map(is_list_like, (start, end, value)))):
         return _layer_scalar(self, start, end, value)
     value = np.array(value)
-- 
2.43.0


From 666c670e76abc172c7e3049cb542f7e140580f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:41 +0000
Subject: [PATCH 05/45] fix: vector layering of left-unbounded intervals shifts
 the first step change of functions held as values

---
 staircase/core/layering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index 2e4696e..c95c0f1 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -193,7 +193,6 @@ def layer(self, start=None, end=None, value=None, frame=None):
     _check_args_dtypes(start, end)  # conversion to Series required before checking
     df = pd.concat([start, end], axis=1, ignore_index=True)
     start_series = pd.Series(value, index=df.iloc[:, 0])
-    self.initial_value += start_series[start_series.index.isna()].sum()
     if self._data is None:
         to_concat = [
             start_series,
@@ -205,6 +204,8 @@ def layer(self, start=None, end=None, value=None, frame=None):
             pd.Series(-value, index=df.iloc[:, 1]),
             self._get_deltas(),
         ]
+    # step changes depend on the initial value, so this must come after
+    self.initial_value += start_series[start_series.index.isna()].sum()
     deltas = pd.concat(to_concat)
 
     self._data = deltas.groupby(deltas.index).sum().rename("delta").to_frame()
-- 
2.43.0


From aec3c4d27f8c8cf3d3cb2bae21743fba26609cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:20 +0000
Subject: [PATCH 06/45] fix: limit ignores include_index for a step-free
 function and fails for a scalar query

---
 staircase/core/sampling.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/staircase/core/sampling.py b/staircase/core/sampling.py
index e0eaa3b..1ab05d3 100644
--- a/staircase/core/sampling.py
+++ b/staircase/core/sampling.py
@@ -80,18 +80,23 @@ def limit(self: Stairs, x, side, include_index=False) -> pd.Series:
     passed_x = x
     if self._data is None:
         if pd.api.types.is_list_like(x):
-            return self.initial_value * np.ones_like(x, dtype=float)
+            values = self.initial_value * np.ones_like(x, dtype=float)
         else:
-            return self.initial_value
-    amended_values = np.append(
-        self._get_values().values, [self.initial_value]
-    )  # hack for -1 index value
-    if pd.api.types.is_list_like(x) and _is_datetime_like(next(iter(x))):
-        x = pd.Series(x).values  # faster, but also bug free in numpy
-    elif _is_datetime_like(x):
-        x = pd.Series([x]).values[0]
-    values = amended_values[np.searchsorted(self._data.index.values, x, side=side) - 1]
+            values = self.initial_value
+    else:
+        amended_values = np.append(
+            self._get_values().values, [self.initial_value]
+        )  # hack for -1 index value
+        if pd.api.types.is_list_like(x) and _is_datetime_like(next(iter(x))):
+            x = pd.Series(x).values  # faster, but also bug free in numpy
+        elif _is_datetime_like(x):
+            x = pd.Series([x]).values[0]
+        values = amended_values[
+            np.searchsorted(self._data.index.values, x, side=side) - 1
+        ]
     if include_index:
+        if not is_list_like(passed_x):
+            passed_x = [passed_x]
         values = pd.Series(values, index=passed_x)
     return values
 
-- 
2.43.0


From 30b8a63b8e7ed9c13d9b0be72b33393d87c1b7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:20 +0000
Subject: [PATCH 07/45] fix: comparing a partly undefined step function with a
 constant gives object-dtype values

---
 staircase/core/ops/relational.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/staircase/core/ops/relational.py b/staircase/core/ops/relational.py
index 7e37928..8d713ed 100644
--- a/staircase/core/ops/relational.py
+++ b/staircase/core/ops/relational.py
@@ -39,19 +39,19 @@ def _make_relational_func(
         elif self._data is None or other._data is None:
             if other._data is None:  # self._data exists
                 values = self._get_values()
-                new_values = numpy_relational(values, other.initial_value)
+                new_values = numpy_relational(values, other.initial_value).astype(float)
                 new_values[values.isna()] = np.nan
                 new_index = self._data.index
             else:  # other._data exists
                 values = other._get_values()
-                new_values = numpy_relational(self.initial_value, values)
+                new_values = numpy_relational(self.initial_value, values).astype(float)
                 new_values[values.isna()] = np.nan
                 new_index = other._data.index
 
             new_instance = sc.Stairs._new(
                 initial_value=initial_value,
                 data=pd.DataFrame(
-                    {"value": new_values * 1},
+                    {"value": new_values},
                     index=new_index,
                 ),
                 closed=self.closed,
-- 
2.43.0


From 8d6bf8ca63e179cf79fdcbb892bc612659a327ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:20 +0000
Subject: [PATCH 08/45] fix: logical and/or with a constant operand loses the
 undefined regions of the other

---
 staircase/core/ops/logical.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/staircase/core/ops/logical.py b/staircase/core/ops/logical.py
index 1271d40..430ace2 100644
--- a/staircase/core/ops/logical.py
+++ b/staircase/core/ops/logical.py
@@ -43,12 +43,24 @@ make_boolean = _make_boolean_func(
 invert = _make_boolean_func(docstrings.invert_docstring, pd.Series.eq, operator.eq)
 
 
+def _constant_where_defined(self, value):
+    # the step function which is equal to value wherever self is defined
+    data = None
+    if self._data is not None:
+        values = self._get_values()
+        data = pd.DataFrame({"value": values.where(values.isna(), value)})
+    initial_value = np.nan if np.isnan(self.initial_value) else value
+    result = sc.Stairs._new(initial_value, data, closed=self.closed)
+    result._remove_redundant_step_points()
+    return result
+
+
 def _make_logical_func(docstring, array_op, float_op):
     def _op_with_scalar_and(self, other):
         if np.isnan(other):
             return sc.Stairs._new(np.nan, None, closed=self.closed)
         elif other == 0:
-            return sc.Stairs._new(0, None, closed=self.closed)
+            return _constant_where_defined(self, 0)
         else:
             return self.make_boolean()
 
@@ -58,7 +70,7 @@ def _make_logical_func(docstring, array_op, float_op):
         elif other == 0:
             return self.make_boolean()
         else:
-            return sc.Stairs._new(1, None, closed=self.closed)
+            return _constant_where_defined(self, 1)
 
     def _op_with_scalar_xor(self, other):
         if np.isnan(other):
-- 
2.43.0


From 7c771c1bb8555da99811f97234eb4f309b394042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:52 +0000
Subject: [PATCH 09/45] fix: comparison with a numpy scalar on the left gives a
 boolean instead of a step function

---
 staircase/core/stairs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index 934ae06..bc65dc0 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -57,6 +57,10 @@ class Stairs:
 
     class_name = "Stairs"
 
+    # numpy scalars, but not numpy arrays, on the left hand side of an operator defer to
+    # Stairs.  Otherwise comparisons such as np.float64(1) < stairs return numpy booleans.
+    __array_priority__ = -1
+
     @Appender(docstrings.Stairs_docstring, join="\n", indents=2)
     def __init__(
         self,
-- 
2.43.0


From 76f22c0ba26ff2cee6c569049a5bec6a0dae5ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:28 +0000
Subject: [PATCH 10/45] fix: masking a right-closed step function with a tuple
 raises ClosedMismatchError

---
 staircase/core/ops/masking.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 9c9186f..61846ff 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -106,7 +106,9 @@ def _make_mask_or_where_func(docstring, which):
     @convert_string_args_to_timestamp
     def handle_tuple_mask(self, left, right):
         return _mask_stairs(
-            self, sc.Stairs().layer(start=left, end=right), inverse=False
+            self,
+            sc.Stairs(closed=self.closed).layer(start=left, end=right),
+            inverse=False,
         )
 
     @convert_string_args_to_timestamp
-- 
2.43.0


From 454d10e83d587ba5fc5865b47c056fa0123ecdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:28 +0000
Subject: [PATCH 11/45] fix: where keeps values where the other step function
 is undefined from negative infinity

---
 staircase/core/ops/masking.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 61846ff..c7db7eb 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -1,5 +1,4 @@
 import bisect
-import operator
 
 import numpy as np
 import pandas as pd
@@ -71,9 +70,13 @@ def clip(self, lower=-inf, upper=inf):
     return result
 
 
+def _is_zero_or_undefined(value):
+    return value == 0 or np.isnan(value)
+
+
 def _maskify(self, inverse=False):
     func = np.array(0).__eq__ if not inverse else np.array(0).__ne__
-    op = operator.ne if not inverse else operator.eq
+    undefined = _is_zero_or_undefined if inverse else float(0).__ne__
 
     if self._data is None:
         data = None
@@ -83,17 +86,14 @@ def _maskify(self, inverse=False):
         )
 
     return sc.Stairs._new(
-        initial_value=np.nan if op(self.initial_value, 0) else 0,
+        initial_value=np.nan if undefined(self.initial_value) else 0,
         data=data,
         closed=self.closed,
     )
 
 
 def _mask_stairs(self, other, inverse):
-    def is_full_inverse_mask(initial_value):
-        return initial_value == 0 or np.isnan(initial_value)
-
-    full_mask_comparator = is_full_inverse_mask if inverse else float(0).__ne__
+    full_mask_comparator = _is_zero_or_undefined if inverse else float(0).__ne__
     if other._data is None:
         if full_mask_comparator(other.initial_value):
             return sc.Stairs(initial_value=np.nan)
-- 
2.43.0


From c76f77cfaeb75f361e2cd6d7190926ceb667baf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:28 +0000
Subject: [PATCH 12/45] fix: masking everything forgets which side a step
 function is closed on

---
 staircase/core/ops/masking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index c7db7eb..5437a7a 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -96,7 +96,7 @@ def _mask_stairs(self, other, inverse):
     full_mask_comparator = _is_zero_or_undefined if inverse else float(0).__ne__
     if other._data is None:
         if full_mask_comparator(other.initial_value):
-            return sc.Stairs(initial_value=np.nan)
+            return sc.Stairs(initial_value=np.nan, closed=self.closed)
         else:
             return self.copy()
     return _maskify(other, inverse=inverse) + self
-- 
2.43.0


From 016f8ab821fa2102145f7ee9059625b221729110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:59 +0000
Subject: [PATCH 13/45] fix: filling undefined regions with a partly undefined
 step function undefines other points

---
 staircase/core/ops/masking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 5437a7a..5e33e71 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -207,7 +207,8 @@ def _make_data_fillna_scalar(self, value):
 @requires_closed_match
 def _fillna_with_stairs(self, value):
     # value is Stairs
-    return self.fillna(0) + value * self.isna()
+    filled = self.fillna(0) + value.mask(self.notna()).fillna(0)
+    return filled.mask(self.isna() & value.isna())
 
 
 # TODO: test
-- 
2.43.0


From 3aa1de74f1b088721755430b1273d81fe7a09be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:51 +0000
Subject: [PATCH 14/45] fix: describe gives bound methods instead of numbers

---
 staircase/core/stairs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index bc65dc0..381abb8 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -609,12 +609,12 @@ class Stairs:
             {
                 **{
                     "unique": stairs.percentile.clip(0, 100).number_of_steps - 1,
-                    "mean": stairs.mean,
-                    "std": stairs.std,
-                    "min": stairs.min,
+                    "mean": stairs.mean(),
+                    "std": stairs.std(),
+                    "min": stairs.min(),
                 },
                 **{f"{perc}%": stairs.percentile(perc) for perc in percentiles},
-                **{"max": stairs.max},
+                **{"max": stairs.max()},
             }
         )
 
-- 
2.43.0


From 8444cb03190feff520980f9a0aa9bb7c213f7b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:57 +0000
Subject: [PATCH 15/45] fix: values_in_range lists NaN for an undefined
 step-free function

---
 staircase/core/stats/statistic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index 0efc100..89813a2 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -119,7 +119,8 @@ def values_in_range(self, where=(-inf, inf), closed=None):
     lower_how, upper_how = _get_lims(self, closed)
     left_index, right_index = _get_slice_index(self, lower, upper, lower_how, upper_how)
     if right_index == -1:
-        return np.array([self.initial_value])
+        values = np.array([self.initial_value])
+        return values[~np.isnan(values)]
     values = self._get_values().iloc[max(0, left_index) : right_index]
     if left_index < 0 and not np.isnan(self.initial_value):
         values = np.append([self.initial_value], values)
@@ -135,7 +136,7 @@ def _min(
     where = _replace_none_with_infs(where)
     if closed is None:
         closed = self._closed
-    return min(self.values_in_range(where, closed))
+    return min(self.values_in_range(where, closed), default=np.nan)
 
 
 def _max(
@@ -146,7 +147,7 @@ def _max(
     where = _replace_none_with_infs(where)
     if closed is None:
         closed = self._closed
-    return max(self.values_in_range(where, closed))
+    return max(self.values_in_range(where, closed), default=np.nan)
 
 
 @Appender(docstrings.agg_docstring, join="\n", indents=1)
-- 
2.43.0


From e982aa61345b54e1f61caf9803f5664f10bba80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:22 +0000
Subject: [PATCH 16/45] fix: slicer min and max are undefined when only the
 closed endpoint, or only the inside, of a slice is defined

---
 staircase/core/slicing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/staircase/core/slicing.py b/staircase/core/slicing.py
index f2eee8a..1b12309 100644
--- a/staircase/core/slicing.py
+++ b/staircase/core/slicing.py
@@ -51,12 +51,12 @@ class StairsSlicer:
             "right",
             "both",
         ):
-            result = np.maximum(result, self._stairs(self._interval_index.right))
+            result = np.fmax(result, self._stairs(self._interval_index.right))
         elif self._stairs._closed == "right" and self._interval_index.closed in (
             "left",
             "both",
         ):
-            result = np.maximum(result, self._stairs(self._interval_index.left))
+            result = np.fmax(result, self._stairs(self._interval_index.left))
         return result
 
     @Appender(docstrings._docstrings["min"], join="\n", indents=1)
@@ -66,12 +66,12 @@ class StairsSlicer:
             "right",
             "both",
         ):
-            result = np.minimum(result, self._stairs(self._interval_index.right))
+            result = np.fmin(result, self._stairs(self._interval_index.right))
         elif self._stairs._closed == "right" and self._interval_index.closed in (
             "left",
             "both",
         ):
-            result = np.minimum(result, self._stairs(self._interval_index.left))
+            result = np.fmin(result, self._stairs(self._interval_index.left))
         return result
 
     @Appender(docstrings.hist_docstring, join="\n", indents=1)
-- 
2.43.0


From 875891f7f32f9cd7b3bfd9952f639bce94972299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:22 +0000
Subject: [PATCH 17/45] fix: resample fails when the step function is undefined
 on a slice

---
 staircase/core/slicing.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/staircase/core/slicing.py b/staircase/core/slicing.py
index 1b12309..782df86 100644
--- a/staircase/core/slicing.py
+++ b/staircase/core/slicing.py
@@ -93,12 +93,25 @@ class StairsSlicer:
         left_bound = self._slices.index.left.min()
         right_bound = self._slices.index.right.max()
         stairs_na = self._stairs.isna().mask((left_bound, right_bound)).fillna(0)
-        return (
+        undefined = new_values.isna()
+        result = (
             self._stairs.mask((left_bound, right_bound))
             .fillna(0)
             .mask(stairs_na)
-            .layer(new_values.index.left, new_values.index.right, new_values.values)
+            .layer(
+                new_values.index.left,
+                new_values.index.right,
+                new_values.fillna(0).values,
+            )
         )
+        if undefined.any():
+            undefined_slices = new_values.index[undefined]
+            result = result.mask(
+                sc.Stairs(closed=self._stairs.closed).layer(
+                    undefined_slices.left, undefined_slices.right
+                )
+            )
+        return result
 
 
 def make_slice_method(method_name: str) -> Callable:
-- 
2.43.0


From 6729198d58f78de44aabaac10355347d6e727df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:48 +0000
Subject: [PATCH 18/45] fix: masking by a step function with a numpy integer
 initial value undefines everything

---
 staircase/core/ops/masking.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 5e33e71..0ee5a24 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -74,9 +74,13 @@ def _is_zero_or_undefined(value):
     return value == 0 or np.isnan(value)
 
 
+def _is_not_zero(value):
+    return value != 0
+
+
 def _maskify(self, inverse=False):
     func = np.array(0).__eq__ if not inverse else np.array(0).__ne__
-    undefined = _is_zero_or_undefined if inverse else float(0).__ne__
+    undefined = _is_zero_or_undefined if inverse else _is_not_zero
 
     if self._data is None:
         data = None
@@ -93,7 +97,7 @@ def _maskify(self, inverse=False):
 
 
 def _mask_stairs(self, other, inverse):
-    full_mask_comparator = _is_zero_or_undefined if inverse else float(0).__ne__
+    full_mask_comparator = _is_zero_or_undefined if inverse else _is_not_zero
     if other._data is None:
         if full_mask_comparator(other.initial_value):
             return sc.Stairs(initial_value=np.nan, closed=self.closed)
-- 
2.43.0


From 22bf34f158db573c911e95b5e26500c290e73e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:48 +0000
Subject: [PATCH 19/45] fix: slicer hist passes its arguments to Series.apply,
 fails for step-free functions and mixes numbers with Timedeltas

---
 staircase/core/slicing.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/staircase/core/slicing.py b/staircase/core/slicing.py
index 782df86..6771afc 100644
--- a/staircase/core/slicing.py
+++ b/staircase/core/slicing.py
@@ -4,7 +4,7 @@ from typing import Callable
 
 import numpy as np
 import pandas as pd
-from pandas.api.types import is_list_like
+from pandas.api.types import is_list_like, is_timedelta64_dtype
 from typing_extensions import Literal
 
 import staircase as sc
@@ -77,10 +77,9 @@ class StairsSlicer:
     @Appender(docstrings.hist_docstring, join="\n", indents=1)
     def hist(self, *args, **kwargs):
         self._ensure_slices()
-        zero = (
-            self._stairs._data.index[0] - self._stairs._data.index[0]
-        )  # hack to get 0 or pd.Timedelta(0)
-        return self._slices.apply(sc.Stairs.hist, *args, **kwargs).fillna(zero)
+        hist = self._slices.apply(sc.Stairs.hist, args=args, **kwargs)
+        is_timedelta = is_timedelta64_dtype(hist.iloc[:, 0])
+        return hist.fillna(pd.Timedelta(0) if is_timedelta else 0)
 
     @Appender(docstrings.resample_docstring, join="\n", indents=1)
     def resample(self, func: str):
-- 
2.43.0


From 2c2126cd2c180e57d2227b0e65d5acbcb42c54f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:33 +0000
Subject: [PATCH 20/45] fix: multiplying or dividing with a constant leaves
 redundant step points

---
 staircase/core/ops/arithmetic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/staircase/core/ops/arithmetic.py b/staircase/core/ops/arithmetic.py
index fd95343..4912bd3 100644
--- a/staircase/core/ops/arithmetic.py
+++ b/staircase/core/ops/arithmetic.py
@@ -120,11 +120,13 @@ def _make_mul_div_func(docstring, series_op, float_op, series_rop, float_rop):
                     data = data.replace([np.inf, -np.inf], np.nan)
             initial_value = float_op(self.initial_value, other)
             initial_value = initial_value if np.isfinite(initial_value) else np.nan
-            return sc.Stairs._new(
+            new_instance = sc.Stairs._new(
                 initial_value=initial_value,
                 data=data,
                 closed=self.closed,
             )
+            new_instance._remove_redundant_step_points()
+            return new_instance
 
         self, other = _sanitize_binary_operands(self, other)
         if other._data is None:
-- 
2.43.0


From c6b4c2d2ec984cbaeb63828158ffb8ff6f7aead2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:33 +0000
Subject: [PATCH 21/45] fix: masking a step-free function leaves redundant step
 points

---
 staircase/core/ops/masking.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 0ee5a24..399cab8 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -89,11 +89,13 @@ def _maskify(self, inverse=False):
             {"value": self._get_values().where(func, np.nan).where(np.isnan, 0)}
         )
 
-    return sc.Stairs._new(
+    new_instance = sc.Stairs._new(
         initial_value=np.nan if undefined(self.initial_value) else 0,
         data=data,
         closed=self.closed,
     )
+    new_instance._remove_redundant_step_points()
+    return new_instance
 
 
 def _mask_stairs(self, other, inverse):
-- 
2.43.0


From 757eeaf9f7d52be3cc057352f0d4eeff14a012e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:33 +0000
Subject: [PATCH 22/45] fix: from_values keeps redundant step points

---
 staircase/core/stairs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index 381abb8..fe66f7b 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -150,6 +150,7 @@ class Stairs:
         new_instance._data = values.to_frame("value")
         new_instance._valid_deltas = False
         new_instance._valid_values = True
+        new_instance._remove_redundant_step_points()
         return new_instance
 
     def _has_na(self) -> bool | np.array:
-- 
2.43.0


From 5c75ea61ea6b55bef8fb01e9552bec86ee0d75dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:33 +0000
Subject: [PATCH 23/45] fix: identical ignores the closed side

---
 staircase/core/ops/relational.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/staircase/core/ops/relational.py b/staircase/core/ops/relational.py
index 8d713ed..ae40b0d 100644
--- a/staircase/core/ops/relational.py
+++ b/staircase/core/ops/relational.py
@@ -123,6 +123,8 @@ def identical(self, other):
         return True
     elif self._data is None or other._data is None:
         return False
+    elif self.closed != other.closed:
+        return False
     elif self._valid_values and other._valid_values:
         return _is_series_equal(self._data["value"], other._data["value"])
     else:
-- 
2.43.0


From 1f720d374222e1a8659ef10a9d6b0c7e558230af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:34 +0000
Subject: [PATCH 24/45] fix: aggregating a collection of step-free functions
 raises ValueError

---
 staircase/core/arrays/extension.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index d1d7bcb..882a36c 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -163,22 +163,24 @@ class StairsArray(ExtensionArray):
 
     @Appender(docstrings.make_docstring("array", "agg"), join="\n", indents=1)
     def agg(self, func):
-        index = pd.Index(
-            np.unique(
-                np.concatenate(
-                    [
-                        s.step_changes.index  # using .step_changes.index instead of .step_points to retain timezones
-                        for s in (sf for sf in self.data if sf.number_of_steps)
-                    ]
-                )
+        initial_value = func([s.initial_value for s in self.data])
+        step_indexes = [
+            s.step_changes.index  # using .step_changes.index instead of .step_points to retain timezones
+            for s in (sf for sf in self.data if sf.number_of_steps)
+        ]
+        if not step_indexes:
+            return Stairs._new(
+                initial_value=initial_value,
+                data=None,
+                closed=self.data[0].closed,
             )
-        )
+        index = pd.Index(np.unique(np.concatenate(step_indexes)))
         new_values = func([s.limit(index, "right") for s in self.data], axis=0)
         if new_values.dtype == "bool":
             new_values = new_values.astype(int)
 
         return Stairs._new(
-            initial_value=func([s.initial_value for s in self.data]),
+            initial_value=initial_value,
             data=pd.Series(
                 new_values,
                 index=index,
-- 
2.43.0


From 323361ddd768147adfe1eca0dad2b7c0207b92d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 25/45] fix: clip with no bounds returns the step function
 itself instead of a new one

---
 staircase/core/ops/masking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 399cab8..52f91e7 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -37,7 +37,7 @@ def clip(self, lower=-inf, upper=inf):
     if not lower < upper:
         raise ValueError("'lower' must be strictly less than 'upper'.")
     if lower == -inf and upper == inf:
-        return self
+        return self.copy()
     left_index, right_index = _get_slice_index(
         self, lower, upper, lower_how="right", upper_how="left"
     )
-- 
2.43.0


From 8dac1ca57fce342065755a1028dd14920e01f060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:18 +0000
Subject: [PATCH 26/45] fix: logical aggregations give step functions whose
 initial value is a mutable 0-d array

---
 staircase/core/arrays/extension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index 882a36c..5fc0e01 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -51,7 +51,7 @@ def _make_logical(func: Callable) -> Callable:
             np.logical_or.reduce(np.isnan(x), axis=axis),
             np.nan,
             func.reduce(x, axis=axis),
-        )
+        )[()]  # a scalar, not a mutable 0-d array, for the initial value
 
     return logical_func
 
-- 
2.43.0


From 971fdeb38f5569f328a08a6bd092cae2254e426f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 27/45] fix: layering onto the returned ecdf, fractile or
 percentile function corrupts later distribution queries

---
 staircase/core/stats/distribution.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/staircase/core/stats/distribution.py b/staircase/core/stats/distribution.py
index eb3e05f..3d2c12c 100644
--- a/staircase/core/stats/distribution.py
+++ b/staircase/core/stats/distribution.py
@@ -105,6 +105,19 @@ class ECDF(sc.core.stairs.Stairs):
         return Fractiles.from_ecdf(self)
 
 
+def _detach(cached):
+    # layering onto a distribution handed to the caller must not alter the cache
+    result = cached.__class__._new(
+        initial_value=cached.initial_value,
+        data=cached._data.copy(),
+        closed=cached.closed,
+    )
+    if isinstance(cached, ECDF):
+        factor = cached._denormalize_probability_factor
+        result._denormalize_probability_factor = factor
+    return result
+
+
 class Dist:
     def __init__(self, stairs):
         self._reset()
@@ -119,7 +132,7 @@ class Dist:
     def ecdf(self):
         if self._ecdf is None:
             self._ecdf = ECDF.from_stairs(self._stairs)
-        return self._ecdf
+        return _detach(self._ecdf)
 
     def hist(self, bins="unit", closed="left", stat="sum"):
         return self.ecdf.hist(bins, closed, stat)
@@ -128,13 +141,13 @@ class Dist:
     def fractile(self):
         if self._fractiles is None:
             self._fractiles = Fractiles.from_ecdf(self.ecdf)
-        return self._fractiles
+        return _detach(self._fractiles)
 
     @property
     def percentile(self):
         if self._percentiles is None:
             self._percentiles = Percentiles.from_ecdf(self.ecdf)
-        return self._percentiles
+        return _detach(self._percentiles)
 
     def quantiles(self, n):
         assert n > 0 and isinstance(n, int)
-- 
2.43.0


From df736bd15d9fc46b51ba4a10723fd7f9087f0f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:50 +0000
Subject: [PATCH 28/45] fix: adding a constant keeps a stale first step change
 when undefined towards negative infinity

---
 staircase/core/ops/arithmetic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/staircase/core/ops/arithmetic.py b/staircase/core/ops/arithmetic.py
index 4912bd3..896815a 100644
--- a/staircase/core/ops/arithmetic.py
+++ b/staircase/core/ops/arithmetic.py
@@ -57,6 +57,9 @@ def _make_add_or_sub_func(docstring, series_op, float_op, series_rop):
                 data = self._data.copy()
                 if self._valid_values:
                     data["value"] = series_op(data["value"], other.initial_value)
+                    if np.isnan(self.initial_value):
+                        # the first delta is a value, not a change
+                        data = data[["value"]]
             return sc.Stairs._new(
                 initial_value=float_op(self.initial_value, other.initial_value),
                 data=data,
@@ -71,6 +74,9 @@ def _make_add_or_sub_func(docstring, series_op, float_op, series_rop):
                     data["value"] = series_rop(data["value"], self.initial_value)
                 if other._valid_deltas:
                     data["delta"] = series_rop(data["delta"], 0)
+                if other._valid_values and np.isnan(other.initial_value):
+                    # the first delta is a value, not a change
+                    data = data[["value"]]
             return sc.Stairs._new(
                 initial_value=float_op(self.initial_value, other.initial_value),
                 data=data,
-- 
2.43.0


From 9f2abc40ebfed0d27c3cce90df159252bd17a2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:13 +0000
Subject: [PATCH 29/45] fix: shifting a step-free function forgets which side
 it is closed on

---
 staircase/core/stairs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index fe66f7b..eaf1880 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -642,7 +642,7 @@ class Stairs:
         Stairs.diff
         """
         if self._data is None:
-            return Stairs(initial_value=self.initial_value)
+            return Stairs(initial_value=self.initial_value, closed=self.closed)
         return Stairs._new(
             initial_value=self.initial_value,
             data=self._data.set_index(self._data.index + delta),
-- 
2.43.0


From 1e6561cc022189755c15527a752dbab4b7a11ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:13 +0000
Subject: [PATCH 30/45] fix: relational operators take the closed side of a
 step-free left operand

---
 staircase/core/ops/relational.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/staircase/core/ops/relational.py b/staircase/core/ops/relational.py
index ae40b0d..786c6bd 100644
--- a/staircase/core/ops/relational.py
+++ b/staircase/core/ops/relational.py
@@ -34,7 +34,7 @@ def _make_relational_func(
             return sc.Stairs._new(
                 initial_value=initial_value,
                 data=None,
-                closed=other.closed if np.isnan(self.initial_value) else self.closed,
+                closed=self.closed if other._data is None else other.closed,
             )
         elif self._data is None or other._data is None:
             if other._data is None:  # self._data exists
@@ -54,7 +54,7 @@ def _make_relational_func(
                     {"value": new_values},
                     index=new_index,
                 ),
-                closed=self.closed,
+                closed=self.closed if other._data is None else other.closed,
             )
             new_instance._remove_redundant_step_points()
             return new_instance
-- 
2.43.0


From effbfb2855cf45dc8cb84286fcac7d0aac3bef25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:13 +0000
Subject: [PATCH 31/45] fix: masking everything with a function closed on the
 other side does not raise ClosedMismatchError

---
 staircase/core/ops/masking.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 52f91e7..edf66d4 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -98,6 +98,7 @@ def _maskify(self, inverse=False):
     return new_instance
 
 
+@requires_closed_match
 def _mask_stairs(self, other, inverse):
     full_mask_comparator = _is_zero_or_undefined if inverse else _is_not_zero
     if other._data is None:
-- 
2.43.0


From 8036dc45045d1c5f2fa986ede2c126ecaf28e713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:13 +0000
Subject: [PATCH 32/45] fix: cov and corr of functions closed on opposite sides
 do not raise ClosedMismatchError

---
 staircase/core/stats/statistic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index 89813a2..79fddfc 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -6,6 +6,7 @@ from pandas.api.types import is_list_like
 
 import staircase as sc
 from staircase.constants import inf
+from staircase.core.ops.common import requires_closed_match
 from staircase.core.ops.masking import _get_slice_index
 from staircase.core.stats import docstrings
 from staircase.docstrings import examples
@@ -173,6 +174,7 @@ def agg(self, name, where=(-inf, inf), closed=None):
 
 
 @Appender(examples.cov_example, join="\n", indents=1)
+@requires_closed_match
 def cov(self, other, where=(-inf, inf), lag=0, clip="pre"):
     """
     Calculates either covariance, autocovariance or cross-covariance.
@@ -219,6 +221,7 @@ def cov(self, other, where=(-inf, inf), lag=0, clip="pre"):
 
 
 @Appender(examples.corr_example, join="\n", indents=1)
+@requires_closed_match
 def corr(self, other, where=(-inf, inf), lag=0, clip="pre"):
     """
     Calculates either correlation, autocorrelation or cross-correlation.
-- 
2.43.0


From 71ac6d4bac36bf68ec4e547664eb548051cb822a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:30 +0000
Subject: [PATCH 33/45] fix: aggregating a collection takes the closed side of
 its first member and merges opposite sides

---
 staircase/core/arrays/extension.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index 5fc0e01..f20797d 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -16,6 +16,7 @@ from pandas.core.dtypes.inference import is_dict_like, is_list_like
 
 from staircase.constants import inf
 from staircase.core.arrays import docstrings
+from staircase.core.ops.common import _assert_closeds_equal
 from staircase.core.stairs import Stairs
 from staircase.core.stats.statistic import corr as _corr
 from staircase.core.stats.statistic import cov as _cov
@@ -163,6 +164,10 @@ class StairsArray(ExtensionArray):
 
     @Appender(docstrings.make_docstring("array", "agg"), join="\n", indents=1)
     def agg(self, func):
+        # the side of the members which have steps (they must agree)
+        representative = next((s for s in self.data if s.number_of_steps), self.data[0])
+        for s in self.data:
+            _assert_closeds_equal(representative, s)
         initial_value = func([s.initial_value for s in self.data])
         step_indexes = [
             s.step_changes.index  # using .step_changes.index instead of .step_points to retain timezones
@@ -172,7 +177,7 @@ class StairsArray(ExtensionArray):
             return Stairs._new(
                 initial_value=initial_value,
                 data=None,
-                closed=self.data[0].closed,
+                closed=representative.closed,
             )
         index = pd.Index(np.unique(np.concatenate(step_indexes)))
         new_values = func([s.limit(index, "right") for s in self.data], axis=0)
@@ -186,7 +191,7 @@ class StairsArray(ExtensionArray):
                 index=index,
                 name="value",
             ).to_frame(),
-            closed=self.data[0].closed,
+            closed=representative.closed,
         )._remove_redundant_step_points()
 
     @Appender(docstrings.make_docstring("array", "sample"), join="\n", indents=1)
-- 
2.43.0


From a730e9d5668cfadf9d89b4cd7c870f0860b52351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:53 +0000
Subject: [PATCH 34/45] fix: filling a step-free function takes the closed side
 of the step-free operand

---
 staircase/core/ops/masking.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index edf66d4..3ba7b8d 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -213,6 +213,9 @@ def _make_data_fillna_scalar(self, value):
 
 @requires_closed_match
 def _fillna_with_stairs(self, value):
+    if self._data is None and value._data is not None:
+        # the side of the operand which has steps
+        self = sc.Stairs(initial_value=self.initial_value, closed=value.closed)
     # value is Stairs
     filled = self.fillna(0) + value.mask(self.notna()).fillna(0)
     return filled.mask(self.isna() & value.isna())
-- 
2.43.0


From 6c3dbc29d992eacc1bdedfc75045a950a384097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:23 +0000
Subject: [PATCH 35/45] fix: filling with a boolean gives object-dtype values
 which later operations cannot handle

---
 staircase/core/ops/masking.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 3ba7b8d..94ad909 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -198,6 +198,8 @@ def _make_data_fillna_method(self, value):
 
 
 def _make_data_fillna_scalar(self, value):
+    if isinstance(value, (bool, np.bool_)):
+        value = int(value)  # a boolean would give object-dtype values
     if np.isnan(self.initial_value):
         initial_value = value
     else:
-- 
2.43.0


From eb3f38ef362511e78172f01525209f5f00dd5ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:36 +0000
Subject: [PATCH 36/45] fix: from_values keeps boolean values, for which
 subtraction, negation and filling fail or are wrong

---
 staircase/core/stairs.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index eaf1880..a2f0b4c 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -16,6 +16,7 @@ import numpy as np
 import pandas as pd
 from pandas.api.types import (
     is_datetime64_dtype,
+    is_bool_dtype,
     is_number,
     is_numeric_dtype,
     is_timedelta64_dtype,
@@ -137,6 +138,11 @@ class Stairs:
         if not is_numeric_dtype(values) or not is_number(initial_value):
             raise ValueError("Invalid dtype for from_values()")
 
+        if is_bool_dtype(values):
+            values = values.astype(int)
+        if isinstance(initial_value, (bool, np.bool_)):
+            initial_value = int(initial_value)
+
         if not values.index.is_monotonic_increasing:
             raise ValueError("Series index must be monotonic")
 
-- 
2.43.0


From f8fc5e56c21d6ce8ce70e40072401759e9b3ceb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:36 +0000
Subject: [PATCH 37/45] fix: vector layering with boolean values raises
 TypeError

---
 staircase/core/layering.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index c95c0f1..32c96f5 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -187,6 +187,8 @@ def layer(self, start=None, end=None, value=None, frame=None):
     if not any(list(map(is_list_like, (start, end, value)))):
         return _layer_scalar(self, start, end, value)
     value = np.array(value)
+    if value.dtype == bool:
+        value = value.astype(int)
     assert not pd.isna(value).any(), "value parameter cannot contain null values"
     start = _convert_to_series(start)
     end = _convert_to_series(end)
-- 
2.43.0


From 3dfe069cc8bca55f561aec6c306618c321feda16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:21 +0000
Subject: [PATCH 38/45] fix: corr of functions without a common domain raises
 AttributeError

---
 staircase/core/stats/statistic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index 79fddfc..cd4963f 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -264,6 +264,8 @@ def corr(self, other, where=(-inf, inf), lag=0, clip="pre"):
     mask = self.isna() | other.isna()
     self = self.mask(mask)
     other = other.mask(mask)
+    if np.isnan(self.clip(*where).mean()):  # nowhere both defined
+        return np.nan
     denominator = self.clip(*where).std() * other.clip(*where).std()
     if denominator == 0:
         return np.nan
-- 
2.43.0


From d320ba93c36e7e0d051ae0c98a747c22c497ca95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:20 +0000
Subject: [PATCH 39/45] fix: diagonal of a corr matrix is 1 for members whose
 correlation with themselves is undefined

---
 staircase/core/arrays/extension.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index f20797d..edc4fff 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -295,15 +295,13 @@ for funcstr in (
     setattr(StairsArray, f"__{magic}__", func)
 
 
-def _make_corr_cov_func(
-    docstring: str, stairs_method: Callable, assume_ones_diagonal: int
-) -> Callable:
+def _make_corr_cov_func(docstring: str, stairs_method: Callable) -> Callable:
     @Appender(docstring, join="\n", indents=1)
     def func(self, where=(-inf, inf)):
         size = len(self.data)
         vals = np.ones(shape=(size, size))
         for i in range(size):
-            for j in range(i + assume_ones_diagonal, size):
+            for j in range(i, size):
                 vals[i, j] = stairs_method(self.data[i], self.data[j], where=where)
                 vals[j, i] = vals[i, j]
         return vals
@@ -312,8 +310,8 @@ def _make_corr_cov_func(
 
 
 StairsArray.corr = _make_corr_cov_func(
-    docstrings.make_docstring("array", "corr"), _corr, assume_ones_diagonal=True
+    docstrings.make_docstring("array", "corr"), _corr
 )
 StairsArray.cov = _make_corr_cov_func(
-    docstrings.make_docstring("array", "cov"), _cov, assume_ones_diagonal=False
+    docstrings.make_docstring("array", "cov"), _cov
 )
-- 
2.43.0


From e75c98f197bc15572305a94b4d28a02c4fd88db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:00 +0000
Subject: [PATCH 40/45] fix: aggregating a Series with duplicate index labels
 raises AttributeError

---
 staircase/core/arrays/extension.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index edc4fff..9ca43a6 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -71,6 +71,8 @@ class StairsArray(ExtensionArray):
                     "'data' should be a 1-dimensional array of Stairs objects."
                 )
             self.data = data
+        elif isinstance(data, pd.Series):  # whose labels may be duplicated
+            self.data = np.array(list(data), ndmin=1)
         elif is_dict_like(data):
             self.data = np.array([data[k] for k in data.keys()])
         elif isinstance(data, Stairs) or is_list_like(data):
-- 
2.43.0


From 48345c4aaf86bae4adfe922c89ab47908f19c9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:00 +0000
Subject: [PATCH 41/45] fix: binary operators of a StairsArray with a numpy
 integer do not return a StairsArray

---
 staircase/core/arrays/extension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index 9ca43a6..42339e4 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -253,7 +253,7 @@ def _make_binary_func(func_str: str) -> Callable:
 
     @Appender(docstring, join="\n", indents=1)
     def func(self, other):
-        if isinstance(other, (int, float, Stairs)):
+        if isinstance(other, (numbers.Real, Stairs)):
             result = StairsArray([stairs_func(s, other) for s in self.data])
         elif is_list_like(other):
             if len(other) != len(self):
-- 
2.43.0


From 974c46a2a6856273797d11913c46039839c7ea4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:00 +0000
Subject: [PATCH 42/45] fix: binary operators of a StairsArray fail for lists,
 arrays and Series, and return an exception for different lengths

---
 staircase/core/arrays/extension.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index 42339e4..93b54c8 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -256,8 +256,9 @@ def _make_binary_func(func_str: str) -> Callable:
         if isinstance(other, (numbers.Real, Stairs)):
             result = StairsArray([stairs_func(s, other) for s in self.data])
         elif is_list_like(other):
+            other = StairsArray(other)
             if len(other) != len(self):
-                return ValueError("Arrays have different lengths.")
+                raise ValueError("Arrays have different lengths.")
             result = StairsArray(
                 [stairs_func(s1, s2) for s1, s2 in zip(self.data, other.data)]
             )
-- 
2.43.0


From 03c7e480f806344a356632e8e5903dd7aa566c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 43/45] fix: comparisons of a numpy number with a StairsArray
 return numpy booleans

---
 staircase/core/arrays/extension.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index 93b54c8..b4d654a 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -253,6 +253,9 @@ def _make_binary_func(func_str: str) -> Callable:
 
     @Appender(docstring, join="\n", indents=1)
     def func(self, other):
+        if isinstance(other, np.ndarray) and other.ndim == 0:
+            # numpy converts its scalars to this when they are the left operand
+            other = other.item()
         if isinstance(other, (numbers.Real, Stairs)):
             result = StairsArray([stairs_func(s, other) for s in self.data])
         elif is_list_like(other):
-- 
2.43.0


From d0dbf6bba1d7afeb54df17f90091bb336214e779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 44/45] fix: tables of sample and limit raise InvalidIndexError
 for repeated points

---
 staircase/core/arrays/extension.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index b4d654a..600d284 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -196,15 +196,22 @@ class StairsArray(ExtensionArray):
             closed=representative.closed,
         )._remove_redundant_step_points()
 
+    def _tabulate(self, func, **kwargs):
+        if len(self) == 0:
+            return pd.Series(self.data)
+        # one row per member, assembled by position as the points in x may be repeated
+        rows = [func(s, include_index=True, **kwargs) for s in self.data]
+        return pd.DataFrame(
+            np.vstack([row.values for row in rows]), columns=rows[0].index
+        )
+
     @Appender(docstrings.make_docstring("array", "sample"), join="\n", indents=1)
     def sample(self, x) -> pd.Series:
-        array = pd.Series(self.data)
-        return array.apply(Stairs.sample, x=x, include_index=True)
+        return self._tabulate(Stairs.sample, x=x)
 
     @Appender(docstrings.make_docstring("array", "limit"), join="\n", indents=1)
     def limit(self, x, side="right"):
-        array = pd.Series(self.data)
-        return array.apply(Stairs.limit, x=x, side=side, include_index=True)
+        return self._tabulate(Stairs.limit, x=x, side=side)
 
     @Appender(docstrings.make_docstring("array", "logical_or"), join="\n", indents=1)
     def logical_or(self):
-- 
2.43.0


From ac432040cb1cbe353b019b8df8058cddd2bb2b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 45/45] fix: numpy integers of limited width do not wrap around
 in layer, from_values and initial values

---
 staircase/core/layering.py | 6 ++++--
 staircase/core/stairs.py   | 8 ++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index 32c96f5..0ef2b74 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -86,6 +86,8 @@ def _preprocess_layer_args(frame, start, end, value):
         end = None
     if value is None:
         value = 1
+    elif isinstance(value, np.integer):
+        value = int(value)
     return start, end, value
 
 
@@ -187,8 +189,8 @@ def layer(self, start=None, end=None, value=None, frame=None):
     if not any(list(map(is_list_like, (start, end, value)))):
         return _layer_scalar(self, start, end, value)
     value = np.array(value)
-    if value.dtype == bool:
-        value = value.astype(int)
+    if value.dtype.kind in "biu":
+        value = value.astype("int64")
     assert not pd.isna(value).any(), "value parameter cannot contain null values"
     start = _convert_to_series(start)
     end = _convert_to_series(end)
diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index a2f0b4c..b3c9161 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -78,7 +78,9 @@ class Stairs:
         self._valid_values = False
         self._masked = False
         self._closed = closed
-        self.initial_value = initial_value
+        self.initial_value = (
+            int(initial_value) if isinstance(initial_value, np.integer) else initial_value
+        )
         self._clear_cache()
 
         if any([x is not None for x in (start, end, value)]):
@@ -140,7 +142,9 @@ class Stairs:
 
         if is_bool_dtype(values):
             values = values.astype(int)
-        if isinstance(initial_value, (bool, np.bool_)):
+        elif isinstance(values.dtype, np.dtype) and values.dtype.kind in "iu":
+            values = values.astype("int64")
+        if isinstance(initial_value, (bool, np.bool_, np.integer)):
             initial_value = int(initial_value)
 
         if not values.index.is_monotonic_increasing:
-- 
2.43.0

