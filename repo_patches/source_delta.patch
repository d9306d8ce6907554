From eaff4d96178b46495a81c5351f28990428f0df1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:12 +0000
Subject: [PATCH 01/10] fix: pairwise_distances(x, y) returned the transposed
 matrix

Entry (i, j) is documented as the distance between x[i] and y[j], with shape
n x l; the NumPy/Array API implementation returned the l x n transpose.
---
 dcor/distances.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcor/distances.py b/dcor/distances.py
index 5a5c579..3e72cd9 100644
--- a/dcor/distances.py
+++ b/dcor/distances.py
@@ -27,8 +27,8 @@ def _cdist_naive(x: Array, y: Array, exponent: float = 1) -> Array:
     x = xp.asarray(x)
     y = xp.asarray(y)
 
-    x = xp.expand_dims(x, axis=0)
-    y = xp.expand_dims(y, axis=1)
+    x = xp.expand_dims(x, axis=1)
+    y = xp.expand_dims(y, axis=0)
 
     squared_norms = xp.sum(((x - y) ** 2), axis=-1)
 
-- 
2.43.0


From 496037114337f49bd6dd2afa0762b582a123ba3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:13 +0000
Subject: [PATCH 02/10] fix: distances of integer NumPy arrays wrapped around

array_namespace returns the array_api_compat wrapper, never np itself, so
_can_be_numpy_double was always False and the squared differences of integer
inputs were computed in their own (possibly narrow or unsigned) dtype.
---
 dcor/_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcor/_utils.py b/dcor/_utils.py
index 4d41b8c..2e6ae64 100644
--- a/dcor/_utils.py
+++ b/dcor/_utils.py
@@ -153,7 +153,7 @@ def _can_be_numpy_double(x: ArrayType) -> bool:
     converted to double (if the roundtrip conversion works).
 
     """
-    if array_namespace(x) != np:
+    if array_namespace(x) != numpy_namespace:
         return False
 
     return (
@@ -161,7 +161,7 @@ def _can_be_numpy_double(x: ArrayType) -> bool:
             np.issubdtype(x.dtype, np.floating)
             and x.dtype.itemsize <= np.dtype(float).itemsize
         ) or (
-            np.issubdtype(x.dtype, np.signedinteger)
+            np.issubdtype(x.dtype, np.integer)
             and np.can_cast(x, float)
         )
     )
-- 
2.43.0


From 7db8cf54f6df7e57611b331090b083b77e7e6ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:13 +0000
Subject: [PATCH 03/10] fix: rowwise failed for integer arrays

The result buffer used the dtype of the input, which cannot hold the
floating point results of the compiled kernel.
---
 dcor/_fast_dcov_avl.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dcor/_fast_dcov_avl.py b/dcor/_fast_dcov_avl.py
index eb58932..60e5e71 100644
--- a/dcor/_fast_dcov_avl.py
+++ b/dcor/_fast_dcov_avl.py
@@ -628,7 +628,10 @@ def _rowwise_distance_covariance_sqr_avl_generic(
         assert y.shape[2] == 1
         y = y[..., 0]
 
-    res = np.zeros(x.shape[0], dtype=x.dtype)
+    res = np.zeros(
+        x.shape[0],
+        dtype=np.result_type(x.dtype, y.dtype, np.float64),
+    )
 
     if compile_mode not in rowwise_impls_dict:
         return NotImplemented
-- 
2.43.0


From 047858135721d3db30bb492cf477602ad21b8abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:13 +0000
Subject: [PATCH 04/10] fix: mergesort method accepted samples of different
 sizes

It silently ignored part of the longer sample (or read out of bounds in the
compiled version) instead of failing like the other methods.
---
 dcor/_fast_dcov_mergesort.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dcor/_fast_dcov_mergesort.py b/dcor/_fast_dcov_mergesort.py
index 74aa299..5ad866a 100644
--- a/dcor/_fast_dcov_mergesort.py
+++ b/dcor/_fast_dcov_mergesort.py
@@ -19,6 +19,7 @@ import numpy as np
 from numba import boolean, float64
 from numba.types import Tuple as NumbaTuple
 
+from ._dcor_internals import _check_same_n_elements
 from ._dcor_internals_numba import (
     NumbaMatrix,
     NumbaMatrixReadOnly,
@@ -394,6 +395,8 @@ def _distance_covariance_sqr_terms_mergesort(
     if not isinstance(x, np.ndarray):
         raise ValueError("AVL method is only implemented for NumPy arrays.")
 
+    _check_same_n_elements(x, y)
+
     if compile_mode not in impls_dict:
         raise NotImplementedError(
             f"Compile mode {compile_mode} not implemented.",
-- 
2.43.0


From c5ac7a3083584cf10c1ba8006beb3063387666be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:13 +0000
Subject: [PATCH 05/10] fix: fast distance covariance of integer arrays wrapped
 around

Products of the observations were computed in the dtype of the input, so e.g.
int16 samples with values around 100 gave meaningless covariances.
---
 dcor/_fast_dcov_avl.py       | 5 ++++-
 dcor/_fast_dcov_mergesort.py | 5 ++++-
 dcor/_utils.py               | 5 +++++
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/dcor/_fast_dcov_avl.py b/dcor/_fast_dcov_avl.py
index 60e5e71..9ffa95f 100644
--- a/dcor/_fast_dcov_avl.py
+++ b/dcor/_fast_dcov_avl.py
@@ -29,7 +29,7 @@ from ._dcor_internals_numba import (
     NumbaVectorReadOnlyNonContiguous,
     _generate_distance_covariance_sqr_from_terms_impl,
 )
-from ._utils import CompileMode, _transform_to_1d
+from ._utils import CompileMode, _integer_to_double, _transform_to_1d
 
 if TYPE_CHECKING:
     NumpyArrayType = np.typing.NDArray[np.number[Any]]
@@ -535,6 +535,9 @@ def _distance_covariance_sqr_terms_avl(
     if not isinstance(x, np.ndarray):
         raise ValueError("AVL method is only implemented for NumPy arrays.")
 
+    x = _integer_to_double(x)
+    y = _integer_to_double(y)
+
     if compile_mode not in impls_dict:
         raise NotImplementedError(
             f"Compile mode {compile_mode} not implemented.",
diff --git a/dcor/_fast_dcov_mergesort.py b/dcor/_fast_dcov_mergesort.py
index 5ad866a..0bedc9e 100644
--- a/dcor/_fast_dcov_mergesort.py
+++ b/dcor/_fast_dcov_mergesort.py
@@ -28,7 +28,7 @@ from ._dcor_internals_numba import (
     NumbaVectorReadOnlyNonContiguous,
     _generate_distance_covariance_sqr_from_terms_impl,
 )
-from ._utils import CompileMode, _transform_to_1d
+from ._utils import CompileMode, _integer_to_double, _transform_to_1d
 
 if TYPE_CHECKING:
     NumpyArrayType = np.typing.NDArray[np.number[Any]]
@@ -397,6 +397,9 @@ def _distance_covariance_sqr_terms_mergesort(
 
     _check_same_n_elements(x, y)
 
+    x = _integer_to_double(x)
+    y = _integer_to_double(y)
+
     if compile_mode not in impls_dict:
         raise NotImplementedError(
             f"Compile mode {compile_mode} not implemented.",
diff --git a/dcor/_utils.py b/dcor/_utils.py
index 2e6ae64..351d655 100644
--- a/dcor/_utils.py
+++ b/dcor/_utils.py
@@ -167,6 +167,11 @@ def _can_be_numpy_double(x: ArrayType) -> bool:
     )
 
 
+def _integer_to_double(x: ArrayType) -> ArrayType:
+    """Convert integer arrays to double, as products of integers can wrap."""
+    return x.astype(float) if np.issubdtype(x.dtype, np.integer) else x
+
+
 def _random_state_init(
     random_state: RandomLike,
 ) -> np.random.RandomState | np.random.Generator:
-- 
2.43.0


From 8ae90ef0d01db1a11b8af2eb59fb2568701e1d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:43 +0000
Subject: [PATCH 06/10] fix: rowwise correlation failed for samples of
 different dimensions

The two arrays were concatenated before checking if the optimized
implementation could be used, which fails if their shapes differ.
---
 dcor/_rowwise.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/dcor/_rowwise.py b/dcor/_rowwise.py
index ff5bbb3..460dc85 100644
--- a/dcor/_rowwise.py
+++ b/dcor/_rowwise.py
@@ -59,18 +59,12 @@ def _generate_rowwise_distance_correlation_sqr(unbiased):
         cov_fun = (_dcor.u_distance_covariance_sqr if unbiased
                    else _dcor.distance_covariance_sqr)
 
-        n_comps = len(x)
-
-        concat_x = np.concatenate((x, x, y))
-        concat_y = np.concatenate((y, x, y))
-
-        res_covs = cov_fun.rowwise_function(concat_x, concat_y, **kwargs)
-        if res_covs is NotImplemented:
+        cov = cov_fun.rowwise_function(x, y, **kwargs)
+        if cov is NotImplemented:
             return NotImplemented
 
-        cov = res_covs[:n_comps]
-        x_std = _sqrt(res_covs[n_comps:2 * n_comps])
-        y_std = _sqrt(res_covs[2 * n_comps:])
+        x_std = _sqrt(cov_fun.rowwise_function(x, x, **kwargs))
+        y_std = _sqrt(cov_fun.rowwise_function(y, y, **kwargs))
 
         with np.errstate(divide='ignore', invalid='ignore'):
             corr_sqr = cov / x_std / y_std
-- 
2.43.0


From 76f3b0bf4f29181e75c583a7a70c77a2b2339f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:43 +0000
Subject: [PATCH 07/10] fix: rowwise raised TypeError for number types without
 compiled version

It falls back to the pairwise computation for them, as the non rowwise
functions do.
---
 dcor/_fast_dcov_avl.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dcor/_fast_dcov_avl.py b/dcor/_fast_dcov_avl.py
index 9ffa95f..e8b4934 100644
--- a/dcor/_fast_dcov_avl.py
+++ b/dcor/_fast_dcov_avl.py
@@ -639,6 +639,10 @@ def _rowwise_distance_covariance_sqr_avl_generic(
     if compile_mode not in rowwise_impls_dict:
         return NotImplemented
 
+    if res.dtype != np.float64:
+        # The compiled implementations only support 64 bit floats.
+        return NotImplemented
+
     impl = rowwise_impls_dict[compile_mode]
 
     impl(x, y, unbiased, res)
-- 
2.43.0


From 03f6be0013adf5ae755bf8d85ae6db56d91635d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:10 +0000
Subject: [PATCH 08/10] fix: fast distance correlation of a constant sample was
 rounding noise

The distance variance of a constant sample was computed as a rounding
residue different from 0, and the correlation as a quotient of residues
that could be any number (even infinite in the rowwise version).
---
 dcor/_fast_dcov_avl.py       | 5 +++++
 dcor/_fast_dcov_mergesort.py | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/dcor/_fast_dcov_avl.py b/dcor/_fast_dcov_avl.py
index e8b4934..00370f7 100644
--- a/dcor/_fast_dcov_avl.py
+++ b/dcor/_fast_dcov_avl.py
@@ -210,6 +210,11 @@ def _get_impl_args(
     n = x.shape[0]
     assert n > 3
     assert n == y.shape[0]
+
+    # The distances do not change, and constant samples are exactly zero.
+    x = x - np.min(x)
+    y = y - np.min(y)
+
     temp = np.arange(n)
 
     argsort_x = np.argsort(x)
diff --git a/dcor/_fast_dcov_mergesort.py b/dcor/_fast_dcov_mergesort.py
index 0bedc9e..739646c 100644
--- a/dcor/_fast_dcov_mergesort.py
+++ b/dcor/_fast_dcov_mergesort.py
@@ -222,6 +222,10 @@ def _generate_distance_covariance_sqr_terms_mergesort_impl(
         x = np.ascontiguousarray(x)
         y = np.ascontiguousarray(y)
 
+        # The distances do not change, and constant samples are exactly zero.
+        x = x - np.min(x)
+        y = y - np.min(y)
+
         compute_aijbij_term = (
             _compute_aijbij_term_compiled
             if compiled
-- 
2.43.0


From 1afe1a33a90a14638b42a881a8ba206e9011c1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:52 +0000
Subject: [PATCH 09/10] fix: rowwise covariance of more than 2^21 observations
 wrapped around

The cube of the number of observations does not fit in a 64 bit integer
in the compiled version of the estimator.
---
 dcor/_dcor_internals_numba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcor/_dcor_internals_numba.py b/dcor/_dcor_internals_numba.py
index 0dbddfd..cfe83d8 100644
--- a/dcor/_dcor_internals_numba.py
+++ b/dcor/_dcor_internals_numba.py
@@ -33,7 +33,7 @@ _dcov_from_terms_compiled = numba.njit(
         float64,
         NumbaVectorReadOnly,
         float64,
-        int64,
+        float64,
         boolean,
     ),
     cache=True,
-- 
2.43.0


From 4ce7d39b939bacef4cedd9a1bd42950efee6b11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:38 +0000
Subject: [PATCH 10/10] fix: energy distance with the U-statistic failed for
 strict array API arrays

xp.reshape(x, -1) is only valid in NumPy: the standard requires a tuple.
---
 dcor/_energy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcor/_energy.py b/dcor/_energy.py
index dc4eee7..227220a 100644
--- a/dcor/_energy.py
+++ b/dcor/_energy.py
@@ -79,8 +79,8 @@ def _get_flat_upper_matrix(x: Array, k: int) -> Array:
     """Get flat upper matrix from diagonal k."""
     xp = array_namespace(x)
     x_mask = xp.triu(xp.ones_like(x, dtype=xp.bool), k=k)
-    x_mask_flat = xp.reshape(x_mask, -1)
-    x_flat = xp.reshape(x, -1)
+    x_mask_flat = xp.reshape(x_mask, (-1,))
+    x_flat = xp.reshape(x, (-1,))
 
     return x_flat[x_mask_flat]
 
-- 
2.43.0

