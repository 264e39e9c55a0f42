From 359fdc3ac951e728b41660115e797c7a8eab1eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 01/56] fix: adding a constant to a function undefined towards
 -inf ignored the constant when only step changes were materialised

---
 staircase/core/ops/arithmetic.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/staircase/core/ops/arithmetic.py b/staircase/core/ops/arithmetic.py
index 5c1ebb3..9afb769 100644
--- a/staircase/core/ops/arithmetic.py
+++ b/staircase/core/ops/arithmetic.py
@@ -21,6 +21,14 @@ def negate(self):
     )
 
 
+def _copy_data_for_translation(stairs):
+    if np.isnan(stairs.initial_value):
+        # the first delta following an undefined initial value is relative to zero,
+        # so the deltas do not survive a vertical translation
+        return pd.DataFrame({"value": stairs._get_values()})
+    return stairs._data.copy()
+
+
 def _add_or_sub_deltas_no_mask(self, other, series_op, float_op):
     # assume self and other have ._data, and at least one has valid _deltas
     # if not other._valid_deltas:
@@ -54,8 +62,8 @@ def _make_add_or_sub_func(docstring, series_op, float_op, series_rop):
             if np.isnan(other.initial_value):
                 data = None
             else:
-                data = self._data.copy()
-                if self._valid_values:
+                data = _copy_data_for_translation(self)
+                if "value" in data:
                     data["value"] = series_op(data["value"], other.initial_value)
             return sc.Stairs._new(
                 initial_value=float_op(self.initial_value, other.initial_value),
@@ -66,10 +74,10 @@ def _make_add_or_sub_func(docstring, series_op, float_op, series_rop):
             if np.isnan(self.initial_value):
                 data = None
             else:
-                data = other._data.copy()
-                if other._valid_values:
+                data = _copy_data_for_translation(other)
+                if "value" in data:
                     data["value"] = series_rop(data["value"], self.initial_value)
-                if other._valid_deltas:
+                if "delta" in data:
                     data["delta"] = series_rop(data["delta"], 0)
             return sc.Stairs._new(
                 initial_value=float_op(self.initial_value, other.initial_value),
-- 
2.43.0


From b6eda63705499137cb97cfe8f27ea082a71f2049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:44 +0000
Subject: [PATCH 02/56] fix: dividing a negative constant by a function with
 zeros gave -inf instead of undefined

---
 staircase/core/ops/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/ops/arithmetic.py b/staircase/core/ops/arithmetic.py
index 9afb769..61143a2 100644
--- a/staircase/core/ops/arithmetic.py
+++ b/staircase/core/ops/arithmetic.py
@@ -125,7 +125,7 @@ def _make_mul_div_func(docstring, series_op, float_op, series_rop, float_rop):
             else:
                 data = pd.DataFrame({"value": series_op(self._get_values(), other)})
                 if series_op in (pd.Series.divide, pd.Series.rdiv):
-                    data = data.replace(np.inf, np.nan)
+                    data = data.replace([np.inf, -np.inf], np.nan)
             initial_value = float_op(self.initial_value, other)
             initial_value = initial_value if np.isfinite(initial_value) else np.nan
             return sc.Stairs._new(
-- 
2.43.0


From 091b3d4ce36c3815d933b8f5eea870b1dc894cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:44 +0000
Subject: [PATCH 03/56] fix: multiplying or dividing by a constant could leave
 redundant step points

---
 staircase/core/ops/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/ops/arithmetic.py b/staircase/core/ops/arithmetic.py
index 61143a2..4de3348 100644
--- a/staircase/core/ops/arithmetic.py
+++ b/staircase/core/ops/arithmetic.py
@@ -132,7 +132,7 @@ def _make_mul_div_func(docstring, series_op, float_op, series_rop, float_rop):
                 initial_value=initial_value,
                 data=data,
                 closed=self.closed,
-            )
+            )._remove_redundant_step_points()
 
         self, other = _sanitize_binary_operands(self, other)
         if other._data is None:
-- 
2.43.0


From 098719b5214bf120683c9c9b8d4f23f3238aca46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:41 +0000
Subject: [PATCH 04/56] fix: comparing a partly undefined function with a
 constant gave object dtype values

---
 staircase/core/ops/relational.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/staircase/core/ops/relational.py b/staircase/core/ops/relational.py
index 7e37928..814c7e7 100644
--- a/staircase/core/ops/relational.py
+++ b/staircase/core/ops/relational.py
@@ -39,12 +39,12 @@ def _make_relational_func(
         elif self._data is None or other._data is None:
             if other._data is None:  # self._data exists
                 values = self._get_values()
-                new_values = numpy_relational(values, other.initial_value)
+                new_values = numpy_relational(values, other.initial_value) * 1.0
                 new_values[values.isna()] = np.nan
                 new_index = self._data.index
             else:  # other._data exists
                 values = other._get_values()
-                new_values = numpy_relational(self.initial_value, values)
+                new_values = numpy_relational(self.initial_value, values) * 1.0
                 new_values[values.isna()] = np.nan
                 new_index = other._data.index
 
-- 
2.43.0


From 6a91962955b905d16a8800f7feb0dbf2e7bf034e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:41 +0000
Subject: [PATCH 05/56] fix: comparing a constant with a right-closed function
 lost the closed side

---
 staircase/core/ops/relational.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/staircase/core/ops/relational.py b/staircase/core/ops/relational.py
index 814c7e7..6eacdfe 100644
--- a/staircase/core/ops/relational.py
+++ b/staircase/core/ops/relational.py
@@ -26,6 +26,13 @@ def _make_relational_func(
                 float_relational(self.initial_value, other.initial_value) * 1
             )
 
+        # a step-free operand has no side of its own
+        closed = (
+            other.closed
+            if self._data is None and other._data is not None
+            else self.closed
+        )
+
         if (
             (self._data is None and other._data is None)
             or (np.isnan(other.initial_value) and other._data is None)
@@ -34,7 +41,7 @@ def _make_relational_func(
             return sc.Stairs._new(
                 initial_value=initial_value,
                 data=None,
-                closed=other.closed if np.isnan(self.initial_value) else self.closed,
+                closed=closed,
             )
         elif self._data is None or other._data is None:
             if other._data is None:  # self._data exists
@@ -54,7 +61,7 @@ def _make_relational_func(
                     {"value": new_values * 1},
                     index=new_index,
                 ),
-                closed=self.closed,
+                closed=closed,
             )
             new_instance._remove_redundant_step_points()
             return new_instance
-- 
2.43.0


From ee44183440729159b8aa3a0e7f9546a22facf988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 06/56] fix: relational operators with a numpy scalar on the
 left returned a numpy bool

---
 staircase/core/stairs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index 934ae06..6c2f595 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -57,6 +57,9 @@ class Stairs:
 
     class_name = "Stairs"
 
+    # numpy scalars (but not arrays) defer to the reflected operators below
+    __array_priority__ = -1.0
+
     @Appender(docstrings.Stairs_docstring, join="\n", indents=2)
     def __init__(
         self,
-- 
2.43.0


From 7620f15592233682c449cbeb97d092b44203a4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 07/56] fix: 'and' with 0 / 'or' with a non-zero constant
 ignored undefined regions

---
 staircase/core/ops/logical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/staircase/core/ops/logical.py b/staircase/core/ops/logical.py
index 1271d40..d33deb8 100644
--- a/staircase/core/ops/logical.py
+++ b/staircase/core/ops/logical.py
@@ -48,7 +48,7 @@ def _make_logical_func(docstring, array_op, float_op):
         if np.isnan(other):
             return sc.Stairs._new(np.nan, None, closed=self.closed)
         elif other == 0:
-            return sc.Stairs._new(0, None, closed=self.closed)
+            return self * 0  # undefined wherever self is
         else:
             return self.make_boolean()
 
@@ -58,7 +58,7 @@ def _make_logical_func(docstring, array_op, float_op):
         elif other == 0:
             return self.make_boolean()
         else:
-            return sc.Stairs._new(1, None, closed=self.closed)
+            return self * 0 + 1  # undefined wherever self is
 
     def _op_with_scalar_xor(self, other):
         if np.isnan(other):
-- 
2.43.0


From 252c40fa211f8d9a5db16e7097184aca6cdeca74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 08/56] fix: clip without bounds returned the receiver itself
 instead of a copy

---
 staircase/core/ops/masking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 9c9186f..7c766e5 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -38,7 +38,7 @@ def clip(self, lower=-inf, upper=inf):
     if not lower < upper:
         raise ValueError("'lower' must be strictly less than 'upper'.")
     if lower == -inf and upper == inf:
-        return self
+        return self.copy()
     left_index, right_index = _get_slice_index(
         self, lower, upper, lower_how="right", upper_how="left"
     )
-- 
2.43.0


From f532bf44a6f4b65966c911ef044003ae31c999fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:43 +0000
Subject: [PATCH 09/56] fix: layering a single interval which cancelled every
 step left the function unchanged

---
 staircase/core/layering.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index 82c0505..179501c 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -129,6 +129,9 @@ def _layer_scalar(self, start, end, value):
     if len(deltas) > 0:
         self._data = deltas.sort_index().to_frame()
         self._valid_deltas = True
+    else:
+        self._data = None
+        self._valid_deltas = False
     self._valid_values = False
     return self
 
-- 
2.43.0


From 1897f9d826df19dbe6181ffb59611ccc2fa68c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:43 +0000
Subject: [PATCH 10/56] fix: layering onto a partly undefined function
 corrupted it

---
 staircase/core/layering.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index 179501c..5d7ad28 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -136,6 +136,17 @@ def _layer_scalar(self, start, end, value):
     return self
 
 
+def _layer_partly_undefined(self, start, end, value):
+    # changes cannot be accumulated across undefined regions
+    layered = self._new(0, None, closed=self.closed).layer(start, end, value)
+    result = self + layered
+    self.initial_value = result.initial_value
+    self._data = result._data
+    self._valid_deltas = result._valid_deltas
+    self._valid_values = result._valid_values
+    return self
+
+
 @Appender(examples.layer_example, join="\n", indents=1)
 def layer(self, start=None, end=None, value=None, frame=None):
     """
@@ -172,6 +183,8 @@ def layer(self, start=None, end=None, value=None, frame=None):
         return self
     self._clear_cache()
     start, end, value = _preprocess_layer_args(frame, start, end, value)
+    if self._data is not None and self._has_na():
+        return _layer_partly_undefined(self, start, end, value)
     if not any(list(map(is_list_like, (start, end, value)))):
         return _layer_scalar(self, start, end, value)
     value = np.array(value)
-- 
2.43.0


From 48fa614c7fc23689e16bcec0401f6d43ffb2861b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:43 +0000
Subject: [PATCH 11/56] fix: a NaN or NaT scalar start/end was not treated as
 missing by layer

---
 staircase/core/layering.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index 5d7ad28..afe2f81 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -74,12 +74,12 @@ def _convert_to_series(vec: Any) -> pd.Series:
 
 
 def _preprocess_layer_args(frame, start, end, value):
-    if isinstance(start, NegInf):
-        start = None
-    if isinstance(end, Inf):
-        end = None
     if frame is not None:
         start, end, value = _extract_from_frame(frame, start, end, value)
+    if isinstance(start, NegInf) or (not is_list_like(start) and pd.isna(start)):
+        start = None
+    if isinstance(end, Inf) or (not is_list_like(end) and pd.isna(end)):
+        end = None
     if value is None:
         value = 1
     return start, end, value
-- 
2.43.0


From 759777efb9b12128eaba503a60f10cb2da844ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:43 +0000
Subject: [PATCH 12/56] fix: start/end vectors shorter than the value vector
 were rejected by layer

---
 staircase/core/layering.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index afe2f81..eab59f0 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -193,6 +193,8 @@ def layer(self, start=None, end=None, value=None, frame=None):
     end = _convert_to_series(end)
     _check_args_dtypes(start, end)  # conversion to Series required before checking
     df = pd.concat([start, end], axis=1, ignore_index=True)
+    if value.ndim and len(value) > len(df):
+        df = df.reindex(range(len(value)))
     start_series = pd.Series(value, index=df.iloc[:, 0])
     self.initial_value += start_series[start_series.index.isna()].sum()
     if self._data is None:
-- 
2.43.0


From 65dc81da9739b2f4b71e9404c34ca7c2058e78dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 13/56] fix: unsigned and boolean numpy scalars/vectors wrapped
 around or failed

---
 staircase/core/layering.py    | 4 ++++
 staircase/core/ops/masking.py | 4 ++--
 staircase/core/stairs.py      | 6 +++---
 staircase/util/__init__.py    | 5 +++++
 4 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index eab59f0..6bcde06 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -16,6 +16,7 @@ from pandas.api.types import (
 
 from staircase.constants import Inf, NegInf
 from staircase.docstrings import examples
+from staircase.util import _to_python_scalar
 from staircase.util._decorators import Appender
 
 
@@ -82,6 +83,7 @@ def _preprocess_layer_args(frame, start, end, value):
         end = None
     if value is None:
         value = 1
+    value = _to_python_scalar(value)
     return start, end, value
 
 
@@ -188,6 +190,8 @@ def layer(self, start=None, end=None, value=None, frame=None):
     if not any(list(map(is_list_like, (start, end, value)))):
         return _layer_scalar(self, start, end, value)
     value = np.array(value)
+    if value.dtype.kind in "bui":
+        value = value.astype("int64")
     assert not pd.isna(value).any(), "value parameter cannot contain null values"
     start = _convert_to_series(start)
     end = _convert_to_series(end)
diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 7c766e5..15818ca 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -11,7 +11,7 @@ from staircase.core.ops.common import (
     convert_string_args_to_timestamp,
     requires_closed_match,
 )
-from staircase.util import _replace_none_with_infs
+from staircase.util import _replace_none_with_infs, _to_python_scalar
 from staircase.util._decorators import Appender
 
 
@@ -218,7 +218,7 @@ def fillna(self, value):
     if isinstance(value, str):
         initial_value, data = _make_data_fillna_method(self, value)
     else:
-        initial_value, data = _make_data_fillna_scalar(self, value)
+        initial_value, data = _make_data_fillna_scalar(self, _to_python_scalar(value))
 
     new_instance = sc.Stairs._new(
         initial_value=initial_value, data=data, closed=self.closed
diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index 6c2f595..61a54ff 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -28,7 +28,7 @@ from staircase.core import stats
 from staircase.core.accessor import CachedAccessor
 from staircase.core.layering import _check_args_dtypes
 from staircase.plotting.accessor import PlotAccessor
-from staircase.util import _replace_none_with_infs
+from staircase.util import _replace_none_with_infs, _to_python_scalar
 from staircase.util._decorators import Appender
 
 
@@ -76,7 +76,7 @@ class Stairs:
         self._valid_values = False
         self._masked = False
         self._closed = closed
-        self.initial_value = initial_value
+        self.initial_value = _to_python_scalar(initial_value)
         self._clear_cache()
 
         if any([x is not None for x in (start, end, value)]):
@@ -145,7 +145,7 @@ class Stairs:
             warnings.warn("Infinity values detected and have been converted to NaN")
 
         new_instance = cls(closed=closed)
-        new_instance.initial_value = initial_value
+        new_instance.initial_value = _to_python_scalar(initial_value)
         new_instance._data = values.to_frame("value")
         new_instance._valid_deltas = False
         new_instance._valid_values = True
diff --git a/staircase/util/__init__.py b/staircase/util/__init__.py
index 45982a3..2f67e32 100644
--- a/staircase/util/__init__.py
+++ b/staircase/util/__init__.py
@@ -36,6 +36,11 @@ def _sanitize_binary_operands(self, other, copy_other=False):
     return self, other
 
 
+def _to_python_scalar(x):
+    # numpy's unsigned and boolean scalars do not support ordinary arithmetic
+    return x.item() if isinstance(x, np.generic) else x
+
+
 def _get_lims(stairs, closed):
 
     if stairs._closed == "left":
-- 
2.43.0


From 56037feb5259c0dab71ab7cef587c04b4007f6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 14/56] fix: 'where' kept values towards -inf when the other
 function was undefined there

---
 staircase/core/ops/masking.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 15818ca..88a079b 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -83,7 +83,9 @@ def _maskify(self, inverse=False):
         )
 
     return sc.Stairs._new(
-        initial_value=np.nan if op(self.initial_value, 0) else 0,
+        initial_value=np.nan
+        if op(self.initial_value, 0) or np.isnan(self.initial_value)
+        else 0,
         data=data,
         closed=self.closed,
     )
-- 
2.43.0


From de5c952ab8fb5b67d8a9c3ceb7680b329ef9c04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 15/56] fix: masking a step-free function left redundant step
 points

---
 staircase/core/ops/masking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 88a079b..2de6c13 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -88,7 +88,7 @@ def _maskify(self, inverse=False):
         else 0,
         data=data,
         closed=self.closed,
-    )
+    )._remove_redundant_step_points()
 
 
 def _mask_stairs(self, other, inverse):
-- 
2.43.0


From ec18fec40eade75ccd59118a21fb8596c50149bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 16/56] fix: masking everything lost the closed side

---
 staircase/core/ops/masking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 2de6c13..0e23788 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -98,7 +98,7 @@ def _mask_stairs(self, other, inverse):
     full_mask_comparator = is_full_inverse_mask if inverse else float(0).__ne__
     if other._data is None:
         if full_mask_comparator(other.initial_value):
-            return sc.Stairs(initial_value=np.nan)
+            return sc.Stairs(initial_value=np.nan, closed=self.closed)
         else:
             return self.copy()
     return _maskify(other, inverse=inverse) + self
-- 
2.43.0


From 6808edcb02228e42316616545ee395ec52152a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 17/56] fix: masking by a function with opposite closed side
 was not always rejected

---
 staircase/core/ops/masking.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 0e23788..ff82d30 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -91,6 +91,7 @@ def _maskify(self, inverse=False):
     )._remove_redundant_step_points()
 
 
+@requires_closed_match
 def _mask_stairs(self, other, inverse):
     def is_full_inverse_mask(initial_value):
         return initial_value == 0 or np.isnan(initial_value)
-- 
2.43.0


From b083936f0ec7fcf87bedc4fe65f74567f485d1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 18/56] fix: masking a right-closed function by a tuple raised
 ClosedMismatchError

---
 staircase/core/ops/masking.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index ff82d30..78ca151 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -109,7 +109,9 @@ def _make_mask_or_where_func(docstring, which):
     @convert_string_args_to_timestamp
     def handle_tuple_mask(self, left, right):
         return _mask_stairs(
-            self, sc.Stairs().layer(start=left, end=right), inverse=False
+            self,
+            sc.Stairs(closed=self.closed).layer(start=left, end=right),
+            inverse=False,
         )
 
     @convert_string_args_to_timestamp
-- 
2.43.0


From f4b2f11e8ad522ffb79966bbaffd779fdddef2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 19/56] fix: fillna with a partly undefined function spoiled
 defined points

---
 staircase/core/ops/masking.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 78ca151..034c982 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -210,7 +210,12 @@ def _make_data_fillna_scalar(self, value):
 @requires_closed_match
 def _fillna_with_stairs(self, value):
     # value is Stairs
-    return self.fillna(0) + value * self.isna()
+    na = self.isna()
+    result = self.fillna(0) + value.fillna(0) * na
+    result = result.mask(na * value.isna())
+    if self._data is None and value._data is not None:
+        result._closed = value.closed
+    return result
 
 
 # TODO: test
-- 
2.43.0


From 3c00d0851a340e6aff8d9bfd6ce0f28b2d37967f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 20/56] fix: infinite (or NaN/NaT) clip and mask bounds were
 treated as step points

---
 staircase/core/ops/masking.py | 1 +
 staircase/util/__init__.py    | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 034c982..ef7d40e 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -108,6 +108,7 @@ def _mask_stairs(self, other, inverse):
 def _make_mask_or_where_func(docstring, which):
     @convert_string_args_to_timestamp
     def handle_tuple_mask(self, left, right):
+        left, right = _replace_none_with_infs((left, right))
         return _mask_stairs(
             self,
             sc.Stairs(closed=self.closed).layer(start=left, end=right),
diff --git a/staircase/util/__init__.py b/staircase/util/__init__.py
index 2f67e32..d379280 100644
--- a/staircase/util/__init__.py
+++ b/staircase/util/__init__.py
@@ -59,12 +59,16 @@ def _get_lims(stairs, closed):
         }[closed]
 
 
+def _is_float_inf(x, sign):
+    return isinstance(x, (float, np.floating)) and x == sign * np.inf
+
+
 def _replace_none_with_infs(tuple_):
     if tuple_ == (-inf, inf):
         return tuple_
     left, right = tuple_
-    if left is None:
+    if left is None or pd.isna(left) or _is_float_inf(left, -1):
         left = -inf
-    if right is None:
+    if right is None or pd.isna(right) or _is_float_inf(right, 1):
         right = inf
     return (left, right)
-- 
2.43.0


From 24946b5be5e572941cf1a495e2792adf5dddf166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:16 +0000
Subject: [PATCH 21/56] fix: limit ignored include_index for step-free
 functions and rejected it for scalars

---
 staircase/core/sampling.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/staircase/core/sampling.py b/staircase/core/sampling.py
index e0eaa3b..eb0722b 100644
--- a/staircase/core/sampling.py
+++ b/staircase/core/sampling.py
@@ -10,6 +10,12 @@ from staircase.util import _is_datetime_like
 from staircase.util._decorators import Appender
 
 
+def _add_index(values, x):
+    if not is_list_like(x):
+        x = [x]
+    return pd.Series(values, index=x)
+
+
 # capable of single or vector
 @Appender(examples.sample_example, join="\n", indents=1)
 def sample(
@@ -40,9 +46,7 @@ def sample(
     side = "right" if self._closed == "left" else "left"
     values = limit(self, x, side)
     if include_index:
-        if not is_list_like(x):
-            x = [x]
-        values = pd.Series(values, index=x)
+        values = _add_index(values, x)
     return values
 
 
@@ -80,9 +84,10 @@ def limit(self: Stairs, x, side, include_index=False) -> pd.Series:
     passed_x = x
     if self._data is None:
         if pd.api.types.is_list_like(x):
-            return self.initial_value * np.ones_like(x, dtype=float)
+            values = self.initial_value * np.ones_like(x, dtype=float)
         else:
-            return self.initial_value
+            values = self.initial_value
+        return _add_index(values, passed_x) if include_index else values
     amended_values = np.append(
         self._get_values().values, [self.initial_value]
     )  # hack for -1 index value
@@ -92,7 +97,7 @@ def limit(self: Stairs, x, side, include_index=False) -> pd.Series:
         x = pd.Series([x]).values[0]
     values = amended_values[np.searchsorted(self._data.index.values, x, side=side) - 1]
     if include_index:
-        values = pd.Series(values, index=passed_x)
+        values = _add_index(values, passed_x)
     return values
 
 
-- 
2.43.0


From 3cff0d05c81daae4af04f6adcdfd30749899a57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:16 +0000
Subject: [PATCH 22/56] fix: limit and sample failed for an empty vector of
 points

---
 staircase/core/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/sampling.py b/staircase/core/sampling.py
index eb0722b..77b477c 100644
--- a/staircase/core/sampling.py
+++ b/staircase/core/sampling.py
@@ -91,7 +91,7 @@ def limit(self: Stairs, x, side, include_index=False) -> pd.Series:
     amended_values = np.append(
         self._get_values().values, [self.initial_value]
     )  # hack for -1 index value
-    if pd.api.types.is_list_like(x) and _is_datetime_like(next(iter(x))):
+    if pd.api.types.is_list_like(x) and _is_datetime_like(next(iter(x), None)):
         x = pd.Series(x).values  # faster, but also bug free in numpy
     elif _is_datetime_like(x):
         x = pd.Series([x]).values[0]
-- 
2.43.0


From c241e4fc441441bb5fb81afc51ec904554d6a51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 23/56] fix: describe reported bound methods instead of numbers

---
 staircase/core/stairs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index 61a54ff..1a56d9d 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -608,12 +608,12 @@ class Stairs:
             {
                 **{
                     "unique": stairs.percentile.clip(0, 100).number_of_steps - 1,
-                    "mean": stairs.mean,
-                    "std": stairs.std,
-                    "min": stairs.min,
+                    "mean": stairs.mean(),
+                    "std": stairs.std(),
+                    "min": stairs.min(),
                 },
                 **{f"{perc}%": stairs.percentile(perc) for perc in percentiles},
-                **{"max": stairs.max},
+                **{"max": stairs.max()},
             }
         )
 
-- 
2.43.0


From 9f0ab4695f9ffdb803d8540cbed23cfcd1690f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 24/56] fix: shifting a step-free function lost the closed side

---
 staircase/core/stairs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index 1a56d9d..2fb1935 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -640,7 +640,7 @@ class Stairs:
         Stairs.diff
         """
         if self._data is None:
-            return Stairs(initial_value=self.initial_value)
+            return Stairs(initial_value=self.initial_value, closed=self.closed)
         return Stairs._new(
             initial_value=self.initial_value,
             data=self._data.set_index(self._data.index + delta),
-- 
2.43.0


From fcd49a8b3f70e9cdb56ee708beb1ffb64107df86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 25/56] fix: from_values kept -inf although it promises
 conversion to NaN

---
 staircase/core/stairs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index 2fb1935..77a2967 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -141,7 +141,7 @@ class Stairs:
 
         series_values_inf_mask = np.isinf(values)
         if series_values_inf_mask.any():
-            values = values.replace([np.inf], np.nan)
+            values = values.replace([np.inf, -np.inf], np.nan)
             warnings.warn("Infinity values detected and have been converted to NaN")
 
         new_instance = cls(closed=closed)
-- 
2.43.0


From a634303d046e16b7e8772786f0d13c73cf24a9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 26/56] fix: from_values accepted repeated step points

---
 staircase/core/stairs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index 77a2967..5da818b 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -136,8 +136,8 @@ class Stairs:
         if not is_numeric_dtype(values) or not is_number(initial_value):
             raise ValueError("Invalid dtype for from_values()")
 
-        if not values.index.is_monotonic_increasing:
-            raise ValueError("Series index must be monotonic")
+        if not (values.index.is_monotonic_increasing and values.index.is_unique):
+            raise ValueError("Series index must be strictly monotonic")
 
         series_values_inf_mask = np.isinf(values)
         if series_values_inf_mask.any():
-- 
2.43.0


From f968d722e5f585a3ca9161d2de4720629b34b0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 27/56] fix: from_values aliased its argument and kept
 redundant step points and bool dtype

---
 staircase/core/stairs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index 5da818b..5c5e138 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -146,10 +146,10 @@ class Stairs:
 
         new_instance = cls(closed=closed)
         new_instance.initial_value = _to_python_scalar(initial_value)
-        new_instance._data = values.to_frame("value")
+        new_instance._data = values.astype("float64").to_frame("value")
         new_instance._valid_deltas = False
         new_instance._valid_values = True
-        return new_instance
+        return new_instance._remove_redundant_step_points()
 
     def _has_na(self) -> bool | np.array:
         return np.isnan(self._data.values).any() or np.isnan(self.initial_value)
-- 
2.43.0


From 1c1e6a6d67da549e722d678144ab04b80452e06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 28/56] fix: ecdf, fractile and percentile handed out the
 cached objects themselves

---
 staircase/core/stairs.py             | 6 +++---
 staircase/core/stats/distribution.py | 8 ++++++++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index 5c5e138..192d450 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -205,7 +205,7 @@ class Stairs:
         Stairs.percentile
         Stairs.fractile
         """
-        return self.dist.ecdf
+        return self.dist.ecdf.copy()
 
     @property
     def fractile(self):
@@ -251,7 +251,7 @@ class Stairs:
         >>> sf.percentile([0.25, 0.5, 0.75])
         array([2., 3., 4.])
         """
-        return self.dist.fractile
+        return self.dist.fractile.copy()
 
     @property
     def percentile(self):
@@ -297,7 +297,7 @@ class Stairs:
         >>> sf.percentile([25,50,75])
         array([2., 3., 4.])
         """
-        return self.dist.percentile
+        return self.dist.percentile.copy()
 
     @Appender(stats.docstrings.hist_example, join="\n", indents=2)
     def hist(self, bins="unit", closed="left", stat="sum"):
diff --git a/staircase/core/stats/distribution.py b/staircase/core/stats/distribution.py
index eb3e05f..89d0579 100644
--- a/staircase/core/stats/distribution.py
+++ b/staircase/core/stats/distribution.py
@@ -17,6 +17,9 @@ class Xtiles(sc.core.stairs.Stairs):
     def __call__(self, *args, **kwargs):
         return self.sample(*args, **kwargs)
 
+    def copy(self):
+        return self._new(self.initial_value, self._data.copy(), closed=self.closed)
+
     @classmethod
     def from_ecdf(cls, ecdf):
         assert ecdf._data is not None
@@ -51,6 +54,11 @@ class ECDF(sc.core.stairs.Stairs):
 
     class_name = "ECDF"
 
+    def copy(self):
+        result = self._new(self.initial_value, self._data.copy(), closed=self.closed)
+        result._denormalize_probability_factor = self._denormalize_probability_factor
+        return result
+
     @staticmethod
     def from_stairs(stairs):
         ecdf_deltas = stairs.value_sums(dropna=True).rename("delta")
-- 
2.43.0


From e433a6abf34559aff2dd269c314a0f7c05d624b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 29/56] fix: quantiles rejected numpy integers

---
 staircase/core/stats/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/stats/distribution.py b/staircase/core/stats/distribution.py
index 89d0579..d73531b 100644
--- a/staircase/core/stats/distribution.py
+++ b/staircase/core/stats/distribution.py
@@ -145,7 +145,7 @@ class Dist:
         return self._percentiles
 
     def quantiles(self, n):
-        assert n > 0 and isinstance(n, int)
+        assert n > 0 and isinstance(n, (int, np.integer))
         return self.fractile(np.linspace(0, 1, n + 1)[1:-1])
 
 
-- 
2.43.0


From aa166a12fa77fcc817b72e405ca70560d3e7a06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 30/56] fix: hist density was zero for fractional bin widths on
 datetime domains

---
 staircase/core/stats/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/stats/distribution.py b/staircase/core/stats/distribution.py
index d73531b..655e2e8 100644
--- a/staircase/core/stats/distribution.py
+++ b/staircase/core/stats/distribution.py
@@ -98,7 +98,7 @@ class ECDF(sc.core.stairs.Stairs):
                 if stat == "frequency":
                     values = values / widths
                 elif stat == "density":
-                    values = values / np.dot(values, widths)
+                    values = values / np.asarray(values * widths).sum()
 
         return pd.Series(
             data=values,
-- 
2.43.0


From 2286811f8b5a0f966c66613ee17a5e3dad273b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 31/56] fix: integral returned None instead of raising
 OverflowError after a call to mean

---
 staircase/core/stats/statistic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index 0efc100..e09c1d6 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -38,7 +38,8 @@ def _cache_integral_and_mean(self):
 
 @Appender(docstrings.integral_docstring, join="\n", indents=1)
 def integral(self):
-    if self._integral_and_mean is None:
+    # a preceding call to mean caches None for the integral if it overflows
+    if self._integral_and_mean is None or self._integral_and_mean[0] is None:
         try:
             _cache_integral_and_mean(self)
         except (OverflowError, ValueError):
-- 
2.43.0


From ea4cc81978577eb080f55318ee52f08d5be050f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 32/56] fix: mean raised OutOfBoundsTimedelta when only the
 integral overflows

---
 staircase/core/stats/statistic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index e09c1d6..02b2e62 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -54,7 +54,7 @@ def mean(self):
     if self._integral_and_mean is None:
         try:
             _cache_integral_and_mean(self)
-        except OverflowError:
+        except (OverflowError, ValueError):
             pass
     return self._integral_and_mean[1]
 
-- 
2.43.0


From 175bdb8ad367d93f2ca28bd9131f72bbb67eb3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 33/56] fix: mean and integral raised on datetime domains when
 no finite piece is defined

---
 staircase/core/stats/statistic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index 02b2e62..2867807 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -19,6 +19,9 @@ def _cache_integral_and_mean(self):
     else:
         value_sums = self.value_sums(group=False)
         value_sums = value_sums[value_sums.index.notnull()]
+        if value_sums.empty:
+            self._integral_and_mean = value_sums.sum(), np.nan
+            return
         try:
             with warnings.catch_warnings():
                 warnings.simplefilter("ignore")
-- 
2.43.0


From 19bf29792e223fb38a284bb9e4229b9c9ee2631b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 34/56] fix: values_in_range of an undefined constant contained
 NaN, min/max of nothing raised

---
 staircase/core/stats/statistic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index 2867807..1b15820 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -123,7 +123,8 @@ def values_in_range(self, where=(-inf, inf), closed=None):
     lower_how, upper_how = _get_lims(self, closed)
     left_index, right_index = _get_slice_index(self, lower, upper, lower_how, upper_how)
     if right_index == -1:
-        return np.array([self.initial_value])
+        values = np.array([self.initial_value])
+        return values[~np.isnan(values)]
     values = self._get_values().iloc[max(0, left_index) : right_index]
     if left_index < 0 and not np.isnan(self.initial_value):
         values = np.append([self.initial_value], values)
@@ -139,7 +140,7 @@ def _min(
     where = _replace_none_with_infs(where)
     if closed is None:
         closed = self._closed
-    return min(self.values_in_range(where, closed))
+    return min(self.values_in_range(where, closed), default=np.nan)
 
 
 def _max(
@@ -150,7 +151,7 @@ def _max(
     where = _replace_none_with_infs(where)
     if closed is None:
         closed = self._closed
-    return max(self.values_in_range(where, closed))
+    return max(self.values_in_range(where, closed), default=np.nan)
 
 
 @Appender(docstrings.agg_docstring, join="\n", indents=1)
-- 
2.43.0


From f73c4782ae1bf01631edf9199bda031d138d3b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 35/56] fix: cov and corr did not always reject opposite closed
 sides

---
 staircase/core/stats/statistic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index 1b15820..b1eb308 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -6,6 +6,7 @@ from pandas.api.types import is_list_like
 
 import staircase as sc
 from staircase.constants import inf
+from staircase.core.ops.common import _assert_closeds_equal
 from staircase.core.ops.masking import _get_slice_index
 from staircase.core.stats import docstrings
 from staircase.docstrings import examples
@@ -208,6 +209,7 @@ def cov(self, other, where=(-inf, inf), lag=0, clip="pre"):
     --------
     Stairs.corr, staircase.cov, staircase.corr
     """
+    _assert_closeds_equal(self, other)
     where = list(_replace_none_with_infs(where))
     if lag != 0:
         assert clip in ["pre", "post"]
@@ -256,6 +258,7 @@ def corr(self, other, where=(-inf, inf), lag=0, clip="pre"):
     --------
     Stairs.cov, staircase.corr, staircase.cov
     """
+    _assert_closeds_equal(self, other)
     where = list(_replace_none_with_infs(where))
     if lag != 0:
         assert clip in ["pre", "post"]
-- 
2.43.0


From c7d481d2803d64dd784314fc2125d45de5aebd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 36/56] fix: slicer min/max were undefined when f is undefined
 at a closed endpoint

---
 staircase/core/slicing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/staircase/core/slicing.py b/staircase/core/slicing.py
index f2eee8a..1b12309 100644
--- a/staircase/core/slicing.py
+++ b/staircase/core/slicing.py
@@ -51,12 +51,12 @@ class StairsSlicer:
             "right",
             "both",
         ):
-            result = np.maximum(result, self._stairs(self._interval_index.right))
+            result = np.fmax(result, self._stairs(self._interval_index.right))
         elif self._stairs._closed == "right" and self._interval_index.closed in (
             "left",
             "both",
         ):
-            result = np.maximum(result, self._stairs(self._interval_index.left))
+            result = np.fmax(result, self._stairs(self._interval_index.left))
         return result
 
     @Appender(docstrings._docstrings["min"], join="\n", indents=1)
@@ -66,12 +66,12 @@ class StairsSlicer:
             "right",
             "both",
         ):
-            result = np.minimum(result, self._stairs(self._interval_index.right))
+            result = np.fmin(result, self._stairs(self._interval_index.right))
         elif self._stairs._closed == "right" and self._interval_index.closed in (
             "left",
             "both",
         ):
-            result = np.minimum(result, self._stairs(self._interval_index.left))
+            result = np.fmin(result, self._stairs(self._interval_index.left))
         return result
 
     @Appender(docstrings.hist_docstring, join="\n", indents=1)
-- 
2.43.0


From c253ab35368894bc95a838db0e0fc9ac0ac54229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 37/56] fix: positional arguments to the slicer's hist were not
 passed on

---
 staircase/core/slicing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/slicing.py b/staircase/core/slicing.py
index 1b12309..eea2b91 100644
--- a/staircase/core/slicing.py
+++ b/staircase/core/slicing.py
@@ -80,7 +80,7 @@ class StairsSlicer:
         zero = (
             self._stairs._data.index[0] - self._stairs._data.index[0]
         )  # hack to get 0 or pd.Timedelta(0)
-        return self._slices.apply(sc.Stairs.hist, *args, **kwargs).fillna(zero)
+        return self._slices.apply(sc.Stairs.hist, args=args, **kwargs).fillna(zero)
 
     @Appender(docstrings.resample_docstring, join="\n", indents=1)
     def resample(self, func: str):
-- 
2.43.0


From cefe1d067fa4597f18194ade827b47a147c1bd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 38/56] fix: slicer hist failed for a step-free function

---
 staircase/core/slicing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/slicing.py b/staircase/core/slicing.py
index eea2b91..6f91e22 100644
--- a/staircase/core/slicing.py
+++ b/staircase/core/slicing.py
@@ -78,7 +78,7 @@ class StairsSlicer:
     def hist(self, *args, **kwargs):
         self._ensure_slices()
         zero = (
-            self._stairs._data.index[0] - self._stairs._data.index[0]
+            self._interval_index.left[0] - self._interval_index.left[0]
         )  # hack to get 0 or pd.Timedelta(0)
         return self._slices.apply(sc.Stairs.hist, args=args, **kwargs).fillna(zero)
 
-- 
2.43.0


From 427064a811bb02564e88f79e4d2808e64517feec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 39/56] fix: slicer hist mixed Timedelta zeros into
 dimensionless results

---
 staircase/core/slicing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/staircase/core/slicing.py b/staircase/core/slicing.py
index 6f91e22..4c860b7 100644
--- a/staircase/core/slicing.py
+++ b/staircase/core/slicing.py
@@ -80,6 +80,9 @@ class StairsSlicer:
         zero = (
             self._interval_index.left[0] - self._interval_index.left[0]
         )  # hack to get 0 or pd.Timedelta(0)
+        stat = kwargs.get("stat", args[2] if len(args) > 2 else "sum")
+        if stat in ("density", "probability"):
+            zero = 0
         return self._slices.apply(sc.Stairs.hist, args=args, **kwargs).fillna(zero)
 
     @Appender(docstrings.resample_docstring, join="\n", indents=1)
-- 
2.43.0


From 3208c0823aee1a5d8a821fbe56adf43a6283edca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 40/56] fix: resample failed when the statistic is undefined on
 a slice

---
 staircase/core/slicing.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/staircase/core/slicing.py b/staircase/core/slicing.py
index 4c860b7..1ecdb91 100644
--- a/staircase/core/slicing.py
+++ b/staircase/core/slicing.py
@@ -96,11 +96,17 @@ class StairsSlicer:
         left_bound = self._slices.index.left.min()
         right_bound = self._slices.index.right.max()
         stairs_na = self._stairs.isna().mask((left_bound, right_bound)).fillna(0)
+        na_slices = new_values.index[new_values.isna()]
+        slices_na = sc.Stairs(closed=self._stairs.closed).layer(
+            na_slices.left, na_slices.right
+        )
+        new_values = new_values.fillna(0)
         return (
             self._stairs.mask((left_bound, right_bound))
             .fillna(0)
             .mask(stairs_na)
             .layer(new_values.index.left, new_values.index.right, new_values.values)
+            .mask(slices_na)
         )
 
 
-- 
2.43.0


From 964f339af8e1daafc7e01bd0b1dc687193a4d895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 41/56] fix: slicer hist failed for an empty slicing index

---
 staircase/core/slicing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/slicing.py b/staircase/core/slicing.py
index 1ecdb91..472ba6e 100644
--- a/staircase/core/slicing.py
+++ b/staircase/core/slicing.py
@@ -78,7 +78,7 @@ class StairsSlicer:
     def hist(self, *args, **kwargs):
         self._ensure_slices()
         zero = (
-            self._interval_index.left[0] - self._interval_index.left[0]
+            self._interval_index.length.min() * 0
         )  # hack to get 0 or pd.Timedelta(0)
         stat = kwargs.get("stat", args[2] if len(args) > 2 else "sum")
         if stat in ("density", "probability"):
-- 
2.43.0


From 5d3aeb8c8c2d9d139607234af69300b00914be76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 42/56] fix: collections given as a Series with repeated labels
 were misread

---
 staircase/core/arrays/extension.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index d1d7bcb..52cb8b4 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -70,6 +70,8 @@ class StairsArray(ExtensionArray):
                     "'data' should be a 1-dimensional array of Stairs objects."
                 )
             self.data = data
+        elif isinstance(data, pd.Series):
+            self.data = np.array(list(data), dtype=object)
         elif is_dict_like(data):
             self.data = np.array([data[k] for k in data.keys()])
         elif isinstance(data, Stairs) or is_list_like(data):
-- 
2.43.0


From 6f60258e5ccae0b39525557c1b88b6db4a71b73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:52 +0000
Subject: [PATCH 43/56] fix: aggregating a collection of step-free functions
 failed

---
 staircase/core/arrays/extension.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index 52cb8b4..e55bda0 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -19,6 +19,7 @@ from staircase.core.arrays import docstrings
 from staircase.core.stairs import Stairs
 from staircase.core.stats.statistic import corr as _corr
 from staircase.core.stats.statistic import cov as _cov
+from staircase.util import _to_python_scalar
 from staircase.util._decorators import Appender
 
 
@@ -165,12 +166,21 @@ class StairsArray(ExtensionArray):
 
     @Appender(docstrings.make_docstring("array", "agg"), join="\n", indents=1)
     def agg(self, func):
+        with_steps = [sf for sf in self.data if sf.number_of_steps]
+        if not with_steps:
+            return Stairs._new(
+                initial_value=_to_python_scalar(
+                    np.asarray(func([s.initial_value for s in self.data]))[()]
+                ),
+                data=None,
+                closed=self.data[0].closed,
+            )
         index = pd.Index(
             np.unique(
                 np.concatenate(
                     [
                         s.step_changes.index  # using .step_changes.index instead of .step_points to retain timezones
-                        for s in (sf for sf in self.data if sf.number_of_steps)
+                        for s in with_steps
                     ]
                 )
             )
@@ -180,7 +190,9 @@ class StairsArray(ExtensionArray):
             new_values = new_values.astype(int)
 
         return Stairs._new(
-            initial_value=func([s.initial_value for s in self.data]),
+            initial_value=_to_python_scalar(
+                np.asarray(func([s.initial_value for s in self.data]))[()]
+            ),
             data=pd.Series(
                 new_values,
                 index=index,
-- 
2.43.0


From f8b931cb014276abc99895d9f2d463c4b522ebea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:52 +0000
Subject: [PATCH 44/56] fix: aggregation silently took the first member's
 closed side

---
 staircase/core/arrays/extension.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index e55bda0..22fa578 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -16,6 +16,7 @@ from pandas.core.dtypes.inference import is_dict_like, is_list_like
 
 from staircase.constants import inf
 from staircase.core.arrays import docstrings
+from staircase.core.ops.common import _assert_closeds_equal
 from staircase.core.stairs import Stairs
 from staircase.core.stats.statistic import corr as _corr
 from staircase.core.stats.statistic import cov as _cov
@@ -167,6 +168,8 @@ class StairsArray(ExtensionArray):
     @Appender(docstrings.make_docstring("array", "agg"), join="\n", indents=1)
     def agg(self, func):
         with_steps = [sf for sf in self.data if sf.number_of_steps]
+        for sf in with_steps:
+            _assert_closeds_equal(with_steps[0], sf)
         if not with_steps:
             return Stairs._new(
                 initial_value=_to_python_scalar(
@@ -198,7 +201,7 @@ class StairsArray(ExtensionArray):
                 index=index,
                 name="value",
             ).to_frame(),
-            closed=self.data[0].closed,
+            closed=with_steps[0].closed,
         )._remove_redundant_step_points()
 
     @Appender(docstrings.make_docstring("array", "sample"), join="\n", indents=1)
-- 
2.43.0


From cb09aa4af55abf735ee81fe26fc5a15ddcab6b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:52 +0000
Subject: [PATCH 45/56] fix: StairsArray operators rejected numpy integer
 scalars

---
 staircase/core/arrays/extension.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index 22fa578..4406666 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -12,7 +12,7 @@ from pandas.api.extensions import (
     ExtensionDtype,
     register_extension_dtype,
 )
-from pandas.core.dtypes.inference import is_dict_like, is_list_like
+from pandas.core.dtypes.inference import is_dict_like, is_list_like, is_number
 
 from staircase.constants import inf
 from staircase.core.arrays import docstrings
@@ -261,7 +261,7 @@ def _make_binary_func(func_str: str) -> Callable:
 
     @Appender(docstring, join="\n", indents=1)
     def func(self, other):
-        if isinstance(other, (int, float, Stairs)):
+        if is_number(other) or isinstance(other, Stairs):
             result = StairsArray([stairs_func(s, other) for s in self.data])
         elif is_list_like(other):
             if len(other) != len(self):
-- 
2.43.0


From 35602cab885b70c7eaa0226ff55d17fd5d4be428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:52 +0000
Subject: [PATCH 46/56] fix: StairsArray operators returned an exception
 instead of raising it

---
 staircase/core/arrays/extension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index 4406666..ca5fbfd 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -265,7 +265,7 @@ def _make_binary_func(func_str: str) -> Callable:
             result = StairsArray([stairs_func(s, other) for s in self.data])
         elif is_list_like(other):
             if len(other) != len(self):
-                return ValueError("Arrays have different lengths.")
+                raise ValueError("Arrays have different lengths.")
             result = StairsArray(
                 [stairs_func(s1, s2) for s1, s2 in zip(self.data, other.data)]
             )
-- 
2.43.0


From 03104f48e1a029af57541fffb056a1b8f3e4f077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:52 +0000
Subject: [PATCH 47/56] fix: StairsArray operators failed for lists and
 ndarrays

---
 staircase/core/arrays/extension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index ca5fbfd..8b9a9b4 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -267,7 +267,7 @@ def _make_binary_func(func_str: str) -> Callable:
             if len(other) != len(self):
                 raise ValueError("Arrays have different lengths.")
             result = StairsArray(
-                [stairs_func(s1, s2) for s1, s2 in zip(self.data, other.data)]
+                [stairs_func(s1, s2) for s1, s2 in zip(self.data, other)]
             )
         else:
             return NotImplemented
-- 
2.43.0


From 39a8ca591f4cde6de93fdf2075ac1608f553ffae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:52 +0000
Subject: [PATCH 48/56] fix: the diagonal of corr was 1 even where the
 correlation is undefined

---
 staircase/core/arrays/extension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index 8b9a9b4..9a5a9dc 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -322,7 +322,7 @@ def _make_corr_cov_func(
 
 
 StairsArray.corr = _make_corr_cov_func(
-    docstrings.make_docstring("array", "corr"), _corr, assume_ones_diagonal=True
+    docstrings.make_docstring("array", "corr"), _corr, assume_ones_diagonal=False
 )
 StairsArray.cov = _make_corr_cov_func(
     docstrings.make_docstring("array", "cov"), _cov, assume_ones_diagonal=False
-- 
2.43.0


From 91eafee67552b27db9417a8da8415530f057275f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:50 +0000
Subject: [PATCH 49/56] fix: masking by a step-free function with a numpy
 integer value masked everything

---
 staircase/core/ops/masking.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index ef7d40e..3b210e4 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -93,10 +93,13 @@ def _maskify(self, inverse=False):
 
 @requires_closed_match
 def _mask_stairs(self, other, inverse):
+    def is_full_mask(initial_value):
+        return initial_value != 0
+
     def is_full_inverse_mask(initial_value):
         return initial_value == 0 or np.isnan(initial_value)
 
-    full_mask_comparator = is_full_inverse_mask if inverse else float(0).__ne__
+    full_mask_comparator = is_full_inverse_mask if inverse else is_full_mask
     if other._data is None:
         if full_mask_comparator(other.initial_value):
             return sc.Stairs(initial_value=np.nan, closed=self.closed)
-- 
2.43.0


From 527f24307af41a8fd144677ae94b8a419f646b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:16 +0000
Subject: [PATCH 50/56] fix: vector layering with a missing start corrupted
 functions holding only values

---
 staircase/core/layering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index 6bcde06..9bec433 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -200,6 +200,7 @@ def layer(self, start=None, end=None, value=None, frame=None):
     if value.ndim and len(value) > len(df):
         df = df.reindex(range(len(value)))
     start_series = pd.Series(value, index=df.iloc[:, 0])
+    existing_deltas = self._get_deltas()  # relative to the current initial value
     self.initial_value += start_series[start_series.index.isna()].sum()
     if self._data is None:
         to_concat = [
@@ -210,7 +211,7 @@ def layer(self, start=None, end=None, value=None, frame=None):
         to_concat = [
             start_series,
             pd.Series(-value, index=df.iloc[:, 1]),
-            self._get_deltas(),
+            existing_deltas,
         ]
     deltas = pd.concat(to_concat)
 
-- 
2.43.0


From 460d93e6ffe5b209cfcfffcb1268841232c3abbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:31 +0000
Subject: [PATCH 51/56] fix: copy of an ecdf or percentile function with no
 remaining steps raised AttributeError

---
 staircase/core/stats/distribution.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/staircase/core/stats/distribution.py b/staircase/core/stats/distribution.py
index 655e2e8..105d788 100644
--- a/staircase/core/stats/distribution.py
+++ b/staircase/core/stats/distribution.py
@@ -18,7 +18,8 @@ class Xtiles(sc.core.stairs.Stairs):
         return self.sample(*args, **kwargs)
 
     def copy(self):
-        return self._new(self.initial_value, self._data.copy(), closed=self.closed)
+        data = self._data.copy() if self._data is not None else None
+        return self._new(self.initial_value, data, closed=self.closed)
 
     @classmethod
     def from_ecdf(cls, ecdf):
@@ -55,7 +56,8 @@ class ECDF(sc.core.stairs.Stairs):
     class_name = "ECDF"
 
     def copy(self):
-        result = self._new(self.initial_value, self._data.copy(), closed=self.closed)
+        data = self._data.copy() if self._data is not None else None
+        result = self._new(self.initial_value, data, closed=self.closed)
         result._denormalize_probability_factor = self._denormalize_probability_factor
         return result
 
-- 
2.43.0


From 45ee557559916ad5765d404a7c06bfb79113b8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 52/56] fix: filling missing pieces with a bool gave a column
 of objects

---
 staircase/util/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/staircase/util/__init__.py b/staircase/util/__init__.py
index d379280..00b03c3 100644
--- a/staircase/util/__init__.py
+++ b/staircase/util/__init__.py
@@ -37,8 +37,10 @@ def _sanitize_binary_operands(self, other, copy_other=False):
 
 
 def _to_python_scalar(x):
-    # numpy's unsigned and boolean scalars do not support ordinary arithmetic
-    return x.item() if isinstance(x, np.generic) else x
+    # numpy's unsigned and boolean scalars do not support ordinary arithmetic,
+    # and booleans mixed with floats give columns of objects
+    x = x.item() if isinstance(x, np.generic) else x
+    return int(x) if isinstance(x, bool) else x
 
 
 def _get_lims(stairs, closed):
-- 
2.43.0


From f52b47dd35ad3c143d632bfb03841d1a7078762c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:44 +0000
Subject: [PATCH 53/56] fix: rounding of the mean gave a constant step function
 a variance other than zero

---
 staircase/core/stats/statistic.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index b1eb308..aac607a 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -97,7 +97,12 @@ def mode(self):
 
 @Appender(docstrings.var_docstring, join="\n", indents=1)
 def var(self):
-    percentile_minus_mean = self.dist.percentile - mean(self)
+    percentile = self.dist.percentile
+    # rounding must not take the mean beyond the least and greatest values,
+    # otherwise a constant would have a variance other than zero
+    average = max(mean(self), percentile.initial_value)
+    average = min(average, percentile._get_values().iloc[-1])
+    percentile_minus_mean = percentile - average
     values = percentile_minus_mean._get_values()
     squared_values = values * values
     return (
-- 
2.43.0


From 94dca69981d17942d95996b99f516c48b756f54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:08 +0000
Subject: [PATCH 54/56] fix: values of layers given as float32 were added up in
 single precision

---
 staircase/core/layering.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index 9bec433..4a0a957 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -192,6 +192,8 @@ def layer(self, start=None, end=None, value=None, frame=None):
     value = np.array(value)
     if value.dtype.kind in "bui":
         value = value.astype("int64")
+    elif value.dtype.kind == "f":
+        value = value.astype("float64")
     assert not pd.isna(value).any(), "value parameter cannot contain null values"
     start = _convert_to_series(start)
     end = _convert_to_series(end)
-- 
2.43.0


From f5d659e810347979d5d24119e51d60df7f221e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:47 +0000
Subject: [PATCH 55/56] fix: sums and differences of unsigned or narrow integer
 labels overflowed

---
 staircase/core/layering.py | 6 +++---
 staircase/core/stairs.py   | 7 ++++++-
 staircase/util/__init__.py | 8 ++++++++
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index 4a0a957..df78632 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -16,7 +16,7 @@ from pandas.api.types import (
 
 from staircase.constants import Inf, NegInf
 from staircase.docstrings import examples
-from staircase.util import _to_python_scalar
+from staircase.util import _to_python_scalar, _widen_labels
 from staircase.util._decorators import Appender
 
 
@@ -195,8 +195,8 @@ def layer(self, start=None, end=None, value=None, frame=None):
     elif value.dtype.kind == "f":
         value = value.astype("float64")
     assert not pd.isna(value).any(), "value parameter cannot contain null values"
-    start = _convert_to_series(start)
-    end = _convert_to_series(end)
+    start = _widen_labels(_convert_to_series(start))
+    end = _widen_labels(_convert_to_series(end))
     _check_args_dtypes(start, end)  # conversion to Series required before checking
     df = pd.concat([start, end], axis=1, ignore_index=True)
     if value.ndim and len(value) > len(df):
diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index 192d450..e586543 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -28,7 +28,11 @@ from staircase.core import stats
 from staircase.core.accessor import CachedAccessor
 from staircase.core.layering import _check_args_dtypes
 from staircase.plotting.accessor import PlotAccessor
-from staircase.util import _replace_none_with_infs, _to_python_scalar
+from staircase.util import (
+    _replace_none_with_infs,
+    _to_python_scalar,
+    _widen_labels,
+)
 from staircase.util._decorators import Appender
 
 
@@ -147,6 +151,7 @@ class Stairs:
         new_instance = cls(closed=closed)
         new_instance.initial_value = _to_python_scalar(initial_value)
         new_instance._data = values.astype("float64").to_frame("value")
+        new_instance._data.index = _widen_labels(new_instance._data.index)
         new_instance._valid_deltas = False
         new_instance._valid_values = True
         return new_instance._remove_redundant_step_points()
diff --git a/staircase/util/__init__.py b/staircase/util/__init__.py
index 00b03c3..76591b0 100644
--- a/staircase/util/__init__.py
+++ b/staircase/util/__init__.py
@@ -2,6 +2,7 @@ import datetime
 
 import numpy as np
 import pandas as pd
+from pandas.api.types import is_integer_dtype
 
 import staircase as sc
 from staircase.constants import inf
@@ -43,6 +44,13 @@ def _to_python_scalar(x):
     return int(x) if isinstance(x, bool) else x
 
 
+def _widen_labels(labels):
+    # sums and differences of unsigned or narrow integers overflow
+    if is_integer_dtype(labels) and isinstance(labels.dtype, np.dtype):
+        return labels.astype("int64")
+    return labels
+
+
 def _get_lims(stairs, closed):
 
     if stairs._closed == "left":
-- 
2.43.0


From edfaaefe546d397d3e5d1dfc358dbbfcfd668feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:52 +0000
Subject: [PATCH 56/56] fix: unsigned or narrow numpy integers as windows and
 lags overflowed

---
 staircase/core/stairs.py          | 3 ++-
 staircase/core/stats/statistic.py | 4 +++-
 staircase/util/__init__.py        | 8 +++++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index e586543..602e245 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -32,6 +32,7 @@ from staircase.util import (
     _replace_none_with_infs,
     _to_python_scalar,
     _widen_labels,
+    _widen_scalar,
 )
 from staircase.util._decorators import Appender
 
@@ -712,7 +713,7 @@ class Stairs:
         """
         where = _replace_none_with_infs(where)
         assert len(window) == 2, "Window should be a listlike object of length 2."
-        left_delta, right_delta = window
+        left_delta, right_delta = map(_widen_scalar, window)
         lower, upper = where
         clipped = self.clip(lower, upper)
         if clipped._data is None:
diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index aac607a..5bdc2d4 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -10,7 +10,7 @@ from staircase.core.ops.common import _assert_closeds_equal
 from staircase.core.ops.masking import _get_slice_index
 from staircase.core.stats import docstrings
 from staircase.docstrings import examples
-from staircase.util import _get_lims, _replace_none_with_infs
+from staircase.util import _get_lims, _replace_none_with_infs, _widen_scalar
 from staircase.util._decorators import Appender
 
 
@@ -216,6 +216,7 @@ def cov(self, other, where=(-inf, inf), lag=0, clip="pre"):
     """
     _assert_closeds_equal(self, other)
     where = list(_replace_none_with_infs(where))
+    lag = _widen_scalar(lag)
     if lag != 0:
         assert clip in ["pre", "post"]
         if clip == "pre" and where[1] != inf:
@@ -265,6 +266,7 @@ def corr(self, other, where=(-inf, inf), lag=0, clip="pre"):
     """
     _assert_closeds_equal(self, other)
     where = list(_replace_none_with_infs(where))
+    lag = _widen_scalar(lag)
     if lag != 0:
         assert clip in ["pre", "post"]
         if clip == "pre" and where[1] != inf:
diff --git a/staircase/util/__init__.py b/staircase/util/__init__.py
index 76591b0..a58fc6d 100644
--- a/staircase/util/__init__.py
+++ b/staircase/util/__init__.py
@@ -51,6 +51,12 @@ def _widen_labels(labels):
     return labels
 
 
+def _widen_scalar(x):
+    if isinstance(x, np.integer) and not isinstance(x, np.timedelta64):
+        return int(x)
+    return x
+
+
 def _get_lims(stairs, closed):
 
     if stairs._closed == "left":
@@ -81,4 +87,4 @@ def _replace_none_with_infs(tuple_):
         left = -inf
     if right is None or pd.isna(right) or _is_float_inf(right, 1):
         right = inf
-    return (left, right)
+    return (_widen_scalar(left), _widen_scalar(right))
-- 
2.43.0

