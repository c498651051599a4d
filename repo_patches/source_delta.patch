From 9631da24d253aa000b02de35eb72f349a4d5502d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 01/78] fix: nearest-neighbour search keeps boxes that lie
 exactly at the distance bound

---
 src/arkadia/kdt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arkadia/kdt.rs b/src/arkadia/kdt.rs
index d9f75a1..37150bf 100644
--- a/src/arkadia/kdt.rs
+++ b/src/arkadia/kdt.rs
@@ -358,7 +358,7 @@ impl<'a, T: Float + DistanceOps + 'static + Debug, A: Copy> SpatialQueries<'a, T
             };
 
             let dist_to_box = _closest_dist_to_box(&next.bounds, point, self.dim, self.d); // (min dist from the box to point, the next Tree)
-            if dist_to_box + epsilon < current_max {
+            if dist_to_box + epsilon <= current_max {
                 pending.push((dist_to_box, next));
             }
         }
@@ -843,7 +843,7 @@ impl<'a, T: Float + DistanceOps + 'static + Debug, A: Copy> SpatialQueries<'a, T
             };
 
             let dist_to_box = _closest_dist_to_box(&next.bounds, point, self.dim, self.d); // (min dist from the box to point, the next Tree)
-            if dist_to_box + epsilon < current_max {
+            if dist_to_box + epsilon <= current_max {
                 pending.push((dist_to_box, next));
             }
         }
-- 
2.43.0


From 7aebf47d1095c318350855d40a4c9f66e61ec2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 02/78] fix: KDTree radius queries return their result for a
 length-1 radius array

---
 python/polars_ds/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/spatial.py b/python/polars_ds/spatial.py
index 4210de1..ba4742a 100644
--- a/python/polars_ds/spatial.py
+++ b/python/polars_ds/spatial.py
@@ -152,7 +152,7 @@ class KDTree:
         elif isinstance(r, np.ndarray):
             rad = np.ravel(r)
             if len(rad) == 1:
-                self.within(X, rad[0], sort, parallel)
+                return self.within(X, float(rad[0]), sort, return_dist, parallel)
             else:
                 if return_dist:
                     return self.kdt.within_with_dist_vec_r(X, rad, sort, parallel)
@@ -185,7 +185,7 @@ class KDTree:
         elif isinstance(r, np.ndarray):
             rad = np.ravel(r)
             if len(rad) == 1:
-                self.within_count(X, rad[0], parallel)
+                return self.within_count(X, float(rad[0]), parallel)
             else:
                 return self.kdt.within_count_vec_r(X, rad, parallel)
         else:
-- 
2.43.0


From 9225297dbae465656233973d610013f1f42a8c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 03/78] fix: under the inf distance a row with a null is
 nobody's neighbour, as for the other distances

---
 src/utils/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 360da3c..2578e14 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -334,7 +334,15 @@ impl<T: Float + DistanceOps + 'static> DIST<T> {
                 .iter()
                 .copied()
                 .zip(a2.iter().copied())
-                .fold(T::zero(), |acc, (x, y)| acc.max((x - y).abs())),
+                .fold(T::zero(), |acc, (x, y)| {
+                    // Unlike T::max, let NaN (null) through, as the other metrics do
+                    let d = (x - y).abs();
+                    if d > acc || d.is_nan() {
+                        d
+                    } else {
+                        acc
+                    }
+                }),
 
             DIST::ANY(func) => func(a1, a2),
         }
-- 
2.43.0


From e4d34e591f4e66078d648853ddeb377c605fe362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:24 +0000
Subject: [PATCH 04/78] fix: nearest-neighbour expressions accept a pool of
 candidates that is empty

---
 src/num_ext/knn.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/num_ext/knn.rs b/src/num_ext/knn.rs
index 603f58a..8601889 100644
--- a/src/num_ext/knn.rs
+++ b/src/num_ext/knn.rs
@@ -2,6 +2,7 @@
 /// other features/entropies that require KNN to be efficiently computed.
 use crate::{
     arkadia::{
+        suggest_capacity,
         utils::{slice_to_empty_leaves, slice_to_leaves},
         KNNMethod, KNNRegressor, Leaf, SpatialQueries, KDT,
     },
@@ -82,6 +83,19 @@ pub fn row_major_slice_to_leaves_filtered<'a, T: Float + 'static, A: Copy>(
         .collect::<Vec<_>>()
 }
 
+/// Builds the tree. If every row is filtered out, this is a tree without points.
+fn tree_from_leaves<'a, A: Copy>(
+    leaves: &'a mut [Leaf<'a, f64, A>],
+    ncols: usize,
+    d: DIST<f64>,
+) -> KDT<'a, f64, A> {
+    if leaves.is_empty() {
+        KDT::new_empty(ncols, suggest_capacity(ncols), d)
+    } else {
+        KDT::from_leaves_unchecked(leaves, d)
+    }
+}
+
 /// KNN Regression
 /// Always do k + 1 because this operation is in-dataframe, and this means
 /// that the point itself is always a neighbor to itself.
@@ -112,7 +126,7 @@ fn pl_knn_avg(
     let mut leaves = row_major_slice_to_leaves_filtered(&data, ncols, id, &null_mask);
 
     let tree = match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
-        Ok(d) => Ok(KDT::from_leaves_unchecked(&mut leaves, d)),
+        Ok(d) => Ok(tree_from_leaves(&mut leaves, ncols, d)),
         Err(e) => Err(e),
     }
     .map_err(|err| PolarsError::ComputeError(err.into()))?;
@@ -309,7 +323,7 @@ fn pl_knn_ptwise(
     match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
         Ok(d) => {
             let mut leaves = row_major_slice_to_leaves_filtered(&data, ncols, id, keep_mask);
-            let tree = KDT::from_leaves_unchecked(&mut leaves, d);
+            let tree = tree_from_leaves(&mut leaves, ncols, d);
             Ok(knn_ptwise(
                 tree,
                 eval_mask,
@@ -474,7 +488,7 @@ fn pl_knn_ptwise_w_dist(
     let (ca_nb, ca_dist) = match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
         Ok(d) => {
             let mut leaves = row_major_slice_to_leaves_filtered(&data, ncols, id, null_mask);
-            let tree = KDT::from_leaves_unchecked(&mut leaves, d);
+            let tree = tree_from_leaves(&mut leaves, ncols, d);
             Ok(knn_ptwise_w_dist(
                 tree,
                 eval_mask,
-- 
2.43.0


From b43d34034e1ee5b8377a512f9468880072df4215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:12 +0000
Subject: [PATCH 05/78] fix: a linear model with a bias term that is not fitted
 says so instead of panicking

---
 src/linalg/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/linalg/mod.rs b/src/linalg/mod.rs
index 36f3899..14de2c9 100644
--- a/src/linalg/mod.rs
+++ b/src/linalg/mod.rs
@@ -107,7 +107,7 @@ pub trait LinearRegression<T: RealField + Float> {
     fn has_bias(&self) -> bool;
 
     fn bias(&self) -> T {
-        if self.has_bias() {
+        if self.has_bias() && self.is_fit() {
             let n = self.fitted_values().nrows() - 1;
             *self.fitted_values().get(n, 0)
         } else {
@@ -118,7 +118,7 @@ pub trait LinearRegression<T: RealField + Float> {
     /// Returns a copy of the coefficients
 
     fn coefficients(&self) -> MatRef<T> {
-        if self.has_bias() {
+        if self.has_bias() && self.is_fit() {
             let n = self.fitted_values().nrows() - 1;
             self.fitted_values().get(0..n, ..)
         } else {
@@ -142,7 +142,7 @@ pub trait LinearRegression<T: RealField + Float> {
     }
 
     fn is_fit(&self) -> bool {
-        !(self.coefficients().shape() == (0, 0))
+        !(self.fitted_values().shape() == (0, 0))
     }
 
     fn coeffs_as_vec(&self) -> Result<Vec<T>, LinalgErrors> {
-- 
2.43.0


From d36df24994133e7665d12549ea15fbda3729b4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:12 +0000
Subject: [PATCH 06/78] fix: bias() of the linear models returns the bias

---
 python/polars_ds/linear_models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/linear_models.py b/python/polars_ds/linear_models.py
index 62900cf..b3beef6 100644
--- a/python/polars_ds/linear_models.py
+++ b/python/polars_ds/linear_models.py
@@ -187,7 +187,7 @@ class LR:
         return self._lr.coeffs
 
     def bias(self) -> float:
-        self._lr.bias
+        return self._lr.bias
 
     def fit(self, X: np.ndarray, y: np.ndarray, null_policy: NullPolicy = "ignore") -> Self:
         """
@@ -574,7 +574,7 @@ class OnlineLR:
         return self._lr.coeffs
 
     def bias(self) -> float:
-        self._lr.bias
+        return self._lr.bias
 
     def inv(self) -> np.ndarray:
         """
-- 
2.43.0


From 7ce1c6e76a08c7a58d5e9fa438c5c3bbf007491c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:12 +0000
Subject: [PATCH 07/78] fix: OnlineLR can be restarted from coefficients, bias
 and inverse when there is a bias

---
 src/linalg/lr_online_solvers.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index 6538a96..ae287db 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -38,10 +38,12 @@ impl<T: RealField + Float> OnlineLR<T> {
         bias: T,
         inv: MatRef<T>,
     ) -> Result<(), LinalgErrors> {
-        if coeffs.len() != inv.ncols() {
+        let has_bias = bias.abs() > T::epsilon();
+        // If there is a bias term, then it has its own row and column in the inverse
+        if coeffs.len() + (has_bias as usize) != inv.ncols() {
             Err(LinalgErrors::DimensionMismatch)
         } else {
-            self.has_bias = bias.abs() > T::epsilon();
+            self.has_bias = has_bias;
             if self.has_bias {
                 self.coefficients = Mat::from_fn(coeffs.len() + 1, 1, |i, _| {
                     if i < coeffs.len() {
-- 
2.43.0


From b25ccf9272a379d4acfd38e345da28f8e3e4109c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:12 +0000
Subject: [PATCH 08/78] fix: an online update with a factor c scales the impact
 of the row by c

---
 src/linalg/lr_online_solvers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index ae287db..a8dfba2 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -325,7 +325,7 @@ pub fn woodbury_step<T: RealField + Float>(
 
     let u = &inverse * new_x.transpose(); // corresponding to u in the reference
                                           // right = left.transpose() by the fact that if A is symmetric, invertible, A-1 is also symmetric
-    let z = (c + *(new_x * &u).get(0, 0)).recip();
+    let z = (c.recip() + *(new_x * &u).get(0, 0)).recip();
     // Update the information matrix's inverse. Page 56 of the gatech reference
     faer::linalg::matmul::matmul(
         inverse,
-- 
2.43.0


From 070fe02e8f4a5d2688f5428fc27acd03a032d38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:12 +0000
Subject: [PATCH 09/78] fix: coordinate descent does not stop while the bias is
 still moving

---
 src/linalg/lr_solvers.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/linalg/lr_solvers.rs b/src/linalg/lr_solvers.rs
index e5e0161..82baa0a 100644
--- a/src/linalg/lr_solvers.rs
+++ b/src/linalg/lr_solvers.rs
@@ -357,7 +357,10 @@ pub fn faer_coordinate_descent<T: RealField + Float>(
             let xx = unsafe { x.get_unchecked(.., 0..n1) };
             let bb = unsafe { beta.get_unchecked(0..n1, ..) };
             let ss = (y - xx * bb).as_ref().sum() / m;
+            // The bias is also a coordinate. The others may still move if it did.
+            let before = *unsafe { beta.get_unchecked(n1, 0) };
             *unsafe { beta.get_mut_unchecked(n1, 0) } = ss;
+            max_change = (ss - before).abs().max(max_change);
         }
         converge = max_change < tol;
         if converge {
-- 
2.43.0


From 6bbd57a450e2d24d8fe8403431bf431c65a71e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:12 +0000
Subject: [PATCH 10/78] fix: rcond is compared with singular values, not with
 their squares

---
 src/linalg/lr_solvers.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/linalg/lr_solvers.rs b/src/linalg/lr_solvers.rs
index 82baa0a..de6ff83 100644
--- a/src/linalg/lr_solvers.rs
+++ b/src/linalg/lr_solvers.rs
@@ -213,6 +213,9 @@ pub fn faer_solve_lstsq_rcond<T: RealField + Float>(
 
     let max_singular_value = singular_values.iter().copied().fold(T::min_value(), T::max);
     let threshold = rcond * max_singular_value;
+    // s has the squared singular values of X, with an error that is relative to the largest of them
+    let threshold = (threshold * threshold)
+        .max(T::epsilon() * T::from(n).unwrap() * max_singular_value * max_singular_value);
     // Safe, because i <= n
     let mut s_inv = Mat::<T>::zeros(n, n);
     unsafe {
-- 
2.43.0


From ee0b023966719a04e5e53de9b0d947db8b9c8569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:12 +0000
Subject: [PATCH 11/78] fix: r2 and adj_r2 in the regression report use the
 total sum of squares of the rows fitted

---
 src/num_ext/linear_regression.rs     | 22 ++++++++++++++++------
 src/num_ext/linear_regression_f32.rs | 22 ++++++++++++++++------
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 8e5a4cb..4f2f7f2 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -615,10 +615,15 @@ fn pl_lin_reg_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
             let res = y - x * &coeffs;
 
             // r2, adj_r2
-            let nf64 = nrows as f64;
-            let ratio = res.col(0).squared_norm_l2() / (y_var * nf64);
+            // Total sum of squares of the rows used. y_var is the sample variance of all rows.
+            let y_mean = y.sum() / (nrows as f64);
+            let tss = y
+                .col(0)
+                .iter()
+                .fold(0., |acc, v| acc + (*v - y_mean) * (*v - y_mean));
+            let ratio = res.col(0).squared_norm_l2() / tss;
             let r2 = 1.0 - ratio;
-            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f64 / (dof - 1.0));
+            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f64 / (dof - 1.0 + has_bias as u8 as f64));
 
             // std err
             let std_err = match se_type {
@@ -784,10 +789,15 @@ fn pl_wls_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
                 (0..y.nrows()).fold(0., |acc, i| acc + weights[i] * res.get(i, 0).powi(2)) / dof;
 
             // r2, adj_r2
-            let nf64 = nrows as f64;
-            let ratio = res.col(0).squared_norm_l2() / (y_var * nf64);
+            // Total sum of squares of the rows used. y_var is the sample variance of all rows.
+            let y_mean = y.sum() / (nrows as f64);
+            let tss = y
+                .col(0)
+                .iter()
+                .fold(0., |acc, v| acc + (*v - y_mean) * (*v - y_mean));
+            let ratio = res.col(0).squared_norm_l2() / tss;
             let r2 = 1.0 - ratio;
-            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f64 / (dof - 1.0));
+            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f64 / (dof - 1.0 + has_bias as u8 as f64));
 
             // std err
             let std_err = (0..ncols)
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 7526fea..d14d268 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -564,10 +564,15 @@ fn pl_lin_reg_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult
             let res = y - x * &coeffs;
 
             // r2, adj_r2
-            let nf32 = nrows as f32;
-            let ratio = res.col(0).squared_norm_l2() / (y_var * nf32);
+            // Total sum of squares of the rows used. y_var is the sample variance of all rows.
+            let y_mean = y.sum() / (nrows as f32);
+            let tss = y
+                .col(0)
+                .iter()
+                .fold(0., |acc, v| acc + (*v - y_mean) * (*v - y_mean));
+            let ratio = res.col(0).squared_norm_l2() / tss;
             let r2 = 1.0 - ratio;
-            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f32 / (dof - 1.0));
+            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f32 / (dof - 1.0 + has_bias as u8 as f32));
 
             // std err
             let std_err = match se_type {
@@ -732,10 +737,15 @@ fn pl_wls_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
                 (0..y.nrows()).fold(0., |acc, i| acc + weights[i] * res.get(i, 0).powi(2)) / dof;
 
             // r2, adj_r2
-            let nf32 = nrows as f32;
-            let ratio = res.col(0).squared_norm_l2() / (y_var * nf32);
+            // Total sum of squares of the rows used. y_var is the sample variance of all rows.
+            let y_mean = y.sum() / (nrows as f32);
+            let tss = y
+                .col(0)
+                .iter()
+                .fold(0., |acc, v| acc + (*v - y_mean) * (*v - y_mean));
+            let ratio = res.col(0).squared_norm_l2() / tss;
             let r2 = 1.0 - ratio;
-            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f32 / (dof - 1.0));
+            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f32 / (dof - 1.0 + has_bias as u8 as f32));
 
             // std err
             let std_err = (0..ncols)
-- 
2.43.0


From b7c101b9f1c8f352c16d2836eca08e7858bda836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:12 +0000
Subject: [PATCH 12/78] fix: recursive regression with nulls predicts each row
 with its own features

---
 src/num_ext/linear_regression.rs     | 4 +++-
 src/num_ext/linear_regression_f32.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 4f2f7f2..1bd8548 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -924,7 +924,9 @@ fn pl_recursive_lstsq(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResult
                 for should_keep in mask.into_no_null_iter().skip(m) {
                     if should_keep {
                         let coefficients = &coeffs[i];
-                        let row = x.get(i..i + 1, ..);
+                        // coeffs[i] is fit on the first n + i rows of x, and belongs to the last of them
+                        let j = n - 1 + i;
+                        let row = x.get(j..j + 1, ..);
                         let pred = *(row * coefficients).get(0, 0);
                         let coef = coefficients.col_as_slice(0);
                         builder.append_slice(coef);
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index d14d268..7aff6cf 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -872,7 +872,9 @@ fn pl_recursive_lstsq_f32(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsRe
                 for should_keep in mask.into_no_null_iter().skip(m) {
                     if should_keep {
                         let coefficients = &coeffs[i];
-                        let row = x.get(i..i + 1, ..);
+                        // coeffs[i] is fit on the first n + i rows of x, and belongs to the last of them
+                        let j = n - 1 + i;
+                        let row = x.get(j..j + 1, ..);
                         let pred = *(row * coefficients).get(0, 0);
                         let coef = coefficients.col_as_slice(0);
                         builder.append_slice(coef);
-- 
2.43.0


From 75b402fe7837c91235b58329c7ef119e5bf44b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:12 +0000
Subject: [PATCH 13/78] fix: rolling and recursive ridge regression do not
 penalize the bias, as in lin_reg

---
 src/linalg/lr_online_solvers.rs      | 15 ++++++++++++---
 src/num_ext/linear_regression.rs     |  6 +++---
 src/num_ext/linear_regression_f32.rs |  6 +++---
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index a8dfba2..d836d09 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -68,6 +68,12 @@ impl<T: RealField + Float> OnlineLR<T> {
         }
     }
 
+    /// Fits on data that already has the column of 1s as its last column, if has_bias.
+    /// The bias is not penalized, as in `fit_unchecked`.
+    fn fit_with_ones(&mut self, x: MatRef<T>, y: MatRef<T>, has_bias: bool) {
+        (self.inv, self.coefficients) = faer_qr_lstsq_with_inv(x, y, self.lambda, has_bias);
+    }
+
     pub fn update_unchecked(&mut self, new_x: MatRef<T>, new_y: MatRef<T>, c: T) {
         if self.has_bias() {
             let ones = Mat::full(new_x.nrows(), 1, T::one());
@@ -160,6 +166,7 @@ pub fn faer_recursive_lstsq<T: RealField + Float>(
     y: MatRef<T>,
     n: usize,
     lambda: T,
+    has_bias: bool,
 ) -> Vec<Mat<T>> {
     let xn = x.nrows();
     // x: size xn x m
@@ -173,7 +180,7 @@ pub fn faer_recursive_lstsq<T: RealField + Float>(
     // This is because if add_bias, the 1 is added to
     // all data already. No need to let OnlineLR add the 1 for the user.
     let mut online_lr = OnlineLR::new(lambda, false);
-    online_lr.fit_unchecked(x0, y0); // safe because things are checked in plugin / python functions.
+    online_lr.fit_with_ones(x0, y0, has_bias); // safe because things are checked in plugin / python functions.
     coefficients.push(online_lr.fitted_values().to_owned());
     for j in n..xn {
         let next_x = x.get(j..j + 1, ..); // 1 by m, m = # of columns
@@ -192,6 +199,7 @@ pub fn faer_rolling_lstsq<T: RealField + Float>(
     y: MatRef<T>,
     n: usize,
     lambda: T,
+    has_bias: bool,
 ) -> Vec<Mat<T>> {
     let xn = x.nrows();
     // x: size xn x m
@@ -205,7 +213,7 @@ pub fn faer_rolling_lstsq<T: RealField + Float>(
     // This is because if add_bias, the 1 is added to
     // all data already. No need to let OnlineLR add the 1 for the user.
     let mut online_lr = OnlineLR::new(lambda, false);
-    online_lr.fit_unchecked(x0, y0);
+    online_lr.fit_with_ones(x0, y0, has_bias);
     coefficients.push(online_lr.fitted_values().to_owned());
 
     for j in n..xn {
@@ -231,6 +239,7 @@ pub fn faer_rolling_skipping_lstsq<T: RealField + Float>(
     n: usize,
     m: usize,
     lambda: T,
+    has_bias: bool,
 ) -> Vec<Mat<T>> {
     let xn = x.nrows();
     let ncols = x.ncols();
@@ -270,7 +279,7 @@ pub fn faer_rolling_skipping_lstsq<T: RealField + Float>(
             // faer::mat::from_row_major_slice(&x_slice, y_slice.len(), ncols);
             let y0 = MatRef::from_column_major_slice(&y_slice, y_slice.len(), 1);
             // faer::mat::from_row_major_slice(&y_slice, y_slice.len(), 1);
-            online_lr.fit_unchecked(x0, y0);
+            online_lr.fit_with_ones(x0, y0, has_bias);
             coefficients.push(online_lr.fitted_values().to_owned());
             break;
         } else {
diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 1bd8548..e454ab2 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -890,7 +890,7 @@ fn pl_recursive_lstsq(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResult
             let x = mat.slice(s![.., 1..]).into_faer();
             let y = mat.slice(s![.., 0..1]).into_faer();
 
-            let coeffs = faer_recursive_lstsq(x, y, n, kwargs.lambda);
+            let coeffs = faer_recursive_lstsq(x, y, n, kwargs.lambda, has_bias);
             let mut builder: ListPrimitiveChunkedBuilder<Float64Type> =
                 ListPrimitiveChunkedBuilder::new(
                     "coeffs".into(),
@@ -991,9 +991,9 @@ fn pl_rolling_lstsq(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResult<S
             let x = mat.slice(s![.., 1..]).into_faer();
             let y = mat.slice(s![.., 0..1]).into_faer();
             let coeffs = if should_skip {
-                faer_rolling_skipping_lstsq(x, y, n, kwargs.min_size, kwargs.lambda)
+                faer_rolling_skipping_lstsq(x, y, n, kwargs.min_size, kwargs.lambda, has_bias)
             } else {
-                faer_rolling_lstsq(x, y, n, kwargs.lambda)
+                faer_rolling_lstsq(x, y, n, kwargs.lambda, has_bias)
             };
 
             let mut builder: ListPrimitiveChunkedBuilder<Float64Type> =
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 7aff6cf..120f93b 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -838,7 +838,7 @@ fn pl_recursive_lstsq_f32(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsRe
             let x = mat.slice(s![.., 1..]).into_faer();
             let y = mat.slice(s![.., 0..1]).into_faer();
 
-            let coeffs = faer_recursive_lstsq(x, y, n, kwargs.lambda as f32);
+            let coeffs = faer_recursive_lstsq(x, y, n, kwargs.lambda as f32, has_bias);
             let mut builder: ListPrimitiveChunkedBuilder<Float32Type> =
                 ListPrimitiveChunkedBuilder::new(
                     "coeffs".into(),
@@ -939,9 +939,9 @@ fn pl_rolling_lstsq_f32(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResu
             let x = mat.slice(s![.., 1..]).into_faer();
             let y = mat.slice(s![.., 0..1]).into_faer();
             let coeffs = if should_skip {
-                faer_rolling_skipping_lstsq(x, y, n, kwargs.min_size, kwargs.lambda as f32)
+                faer_rolling_skipping_lstsq(x, y, n, kwargs.min_size, kwargs.lambda as f32, has_bias)
             } else {
-                faer_rolling_lstsq(x, y, n, kwargs.lambda as f32)
+                faer_rolling_lstsq(x, y, n, kwargs.lambda as f32, has_bias)
             };
 
             let mut builder: ListPrimitiveChunkedBuilder<Float32Type> =
-- 
2.43.0


From 2ce81aa033e3abb02eb2903f30894857e06d8757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:12 +0000
Subject: [PATCH 14/78] fix: rolling regression survives windows that pass
 through too few rows

---
 python/polars_ds/exprs/expr_linear.py |  2 +-
 src/linalg/lr_online_solvers.rs       | 58 +++++++++++++++++++--------
 2 files changed, 42 insertions(+), 18 deletions(-)

diff --git a/python/polars_ds/exprs/expr_linear.py b/python/polars_ds/exprs/expr_linear.py
index c25cfb3..2fe3c8b 100644
--- a/python/polars_ds/exprs/expr_linear.py
+++ b/python/polars_ds/exprs/expr_linear.py
@@ -484,7 +484,7 @@ def rolling_lin_reg(
         raise ValueError("# features > window size. Linear regression is not well-defined.")
 
     if min_valid_rows is None:
-        min_size = min(len(features), window_size)
+        min_size = min(len(features) + int(add_bias), window_size)
     else:
         if min_valid_rows < len(features):
             warnings.warn(
diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index d836d09..50683b5 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -217,13 +217,15 @@ pub fn faer_rolling_lstsq<T: RealField + Float>(
     coefficients.push(online_lr.fitted_values().to_owned());
 
     for j in n..xn {
-        let remove_x = x.get(j - n..j - n + 1, ..);
-        let remove_y = y.get(j - n..j - n + 1, ..);
-        online_lr.update(remove_x, remove_y, T::one().neg());
-
+        // Add before remove. When the window is as small as the number of columns, there is no
+        // inverse after the removal.
         let next_x = x.get(j..j + 1, ..); // 1 by m, m = # of columns
         let next_y = y.get(j..j + 1, ..); // 1 by 1
         online_lr.update(next_x, next_y, T::one());
+
+        let remove_x = x.get(j - n..j - n + 1, ..);
+        let remove_y = y.get(j - n..j - n + 1, ..);
+        online_lr.update(remove_x, remove_y, T::one().neg());
         coefficients.push(online_lr.fitted_values().to_owned());
     }
     coefficients
@@ -293,27 +295,49 @@ pub fn faer_rolling_skipping_lstsq<T: RealField + Float>(
         return coefficients;
     }
     // right < xn, the problem must have been initialized (inv and weights are defined.)
+    let mut refit = false; // whether the inverse of the current window is not known
     for j in right..xn {
         let remove_x = x.get(j - n..j - n + 1, ..);
         let remove_y = y.get(j - n..j - n + 1, ..);
-
-        if !(has_nan(remove_x) | has_nan(remove_y)) {
-            non_null_cnt_in_window -= 1; // removed one non-null column
-            online_lr.update_unchecked(remove_x, remove_y, T::one().neg()); // No need to check for nan
-        }
-
         let next_x = x.get(j..j + 1, ..); // 1 by m, m = # of columns
         let next_y = y.get(j..j + 1, ..); // 1 by 1
-        if !(has_nan(next_x) | has_nan(next_y)) {
-            non_null_cnt_in_window += 1;
-            online_lr.update_unchecked(next_x, next_y, T::one()); // No need to check for nan
-        }
 
-        if non_null_cnt_in_window >= m {
-            coefficients.push(online_lr.fitted_values().to_owned());
-        } else {
+        let remove_is_valid = !(has_nan(remove_x) | has_nan(remove_y));
+        let next_is_valid = !(has_nan(next_x) | has_nan(next_y));
+        non_null_cnt_in_window =
+            non_null_cnt_in_window + next_is_valid as usize - remove_is_valid as usize;
+
+        if non_null_cnt_in_window < m {
+            // Too few rows for an inverse. Start over when there are enough rows again.
+            refit = true;
             coefficients.push(Mat::with_capacity(0, 0));
+            continue;
+        }
+        if refit {
+            x_slice.clear();
+            y_slice.clear();
+            for i in j + 1 - n..j + 1 {
+                let x_i = x.get(i..i + 1, ..);
+                let y_i = y.get(i..i + 1, ..);
+                if !(has_nan(x_i) | has_nan(y_i)) {
+                    x_slice.extend(x.get(i, ..).iter());
+                    y_slice.extend(y.get(i, ..).iter());
+                }
+            }
+            let x0 = MatRef::from_row_major_slice(&x_slice, y_slice.len(), ncols);
+            let y0 = MatRef::from_column_major_slice(&y_slice, y_slice.len(), 1);
+            online_lr.fit_with_ones(x0, y0, has_bias);
+            refit = false;
+        } else {
+            // Add before remove, so that there is always an inverse. No need to check for nan
+            if next_is_valid {
+                online_lr.update_unchecked(next_x, next_y, T::one());
+            }
+            if remove_is_valid {
+                online_lr.update_unchecked(remove_x, remove_y, T::one().neg());
+            }
         }
+        coefficients.push(online_lr.fitted_values().to_owned());
     }
     coefficients
 }
-- 
2.43.0


From 44192037bb77a9df552bd20b9254a1a446e4b8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 15/78] fix: rates of the binary confusion matrix are computed
 in floating point

---
 src/num_ext/tp_fp.rs | 44 +++++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index 3bf7de3..fbd5714 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -302,6 +302,15 @@ fn bcm_output(_: &[Field]) -> PolarsResult<Field> {
     ))
 }
 
+/// The ratio as a f64, which is NaN if the denominator is 0
+fn ratio(numerator: Expr, denominator: Expr) -> Expr {
+    let numerator = numerator.cast(DataType::Float64);
+    let denominator = denominator.cast(DataType::Float64);
+    when(denominator.clone().eq(lit(0.0)))
+        .then(lit(f64::NAN))
+        .otherwise(numerator / denominator)
+}
+
 #[polars_expr(output_type_func=bcm_output)]
 fn pl_binary_confusion_matrix(inputs: &[Series]) -> PolarsResult<Series> {
     // The combined_series is (lit(2) * col("y_true") + col("y_pred")).alias("y")
@@ -330,12 +339,12 @@ fn pl_binary_confusion_matrix(inputs: &[Series]) -> PolarsResult<Series> {
             (col("fp") + col("tn")).alias("n"),
         ])
         .with_columns([
-            (col("tp") / col("p")).alias("tpr"),
-            (col("fp") / col("n")).alias("fpr"),
-            (col("tp") / (col("tp") + col("fp"))).alias("precision"),
-            (col("fn") / (col("fn") + col("tn"))).alias("false_omission_rate"),
-            (col("p") / (col("p") + col("n"))).alias("prevalence"),
-            (col("tp") / (col("tp") + col("fn") + col("fp"))).alias("threat_score"),
+            ratio(col("tp"), col("p")).alias("tpr"),
+            ratio(col("fp"), col("n")).alias("fpr"),
+            ratio(col("tp"), col("tp") + col("fp")).alias("precision"),
+            ratio(col("fn"), col("fn") + col("tn")).alias("false_omission_rate"),
+            ratio(col("p"), col("p") + col("n")).alias("prevalence"),
+            ratio(col("tp"), col("tp") + col("fn") + col("fp")).alias("threat_score"),
         ])
         .with_columns([
             (lit(1) - col("tpr")).alias("fnr"),
@@ -344,22 +353,28 @@ fn pl_binary_confusion_matrix(inputs: &[Series]) -> PolarsResult<Series> {
             (lit(1) - col("precision")).alias("fdr"),
         ])
         .with_columns([
-            (col("tpr") / col("fpr")).alias("plr"),
-            (col("fnr") / col("tnr")).alias("nlr"),
+            ratio(col("tpr"), col("fpr")).alias("plr"),
+            ratio(col("fnr"), col("tnr")).alias("nlr"),
             (col("tpr") + col("tnr") - lit(1)).alias("informedness"),
             (col("precision") - col("false_omission_rate")).alias("markedness"),
-            (((col("tpr") * col("fpr")).sqrt() - col("fpr")) / (col("tpr") - col("fpr")))
-                .alias("prevalence_threshold"),
+            ratio(
+                (col("tpr") * col("fpr")).sqrt() - col("fpr"),
+                col("tpr") - col("fpr"),
+            )
+            .alias("prevalence_threshold"),
             ((col("tpr") + col("tnr")) / lit(2)).alias("balanced_accuracy"),
-            ((lit(2) * col("precision") * col("tpr")) / (col("precision") + col("tpr")))
-                .alias("f1"),
+            ratio(
+                lit(2) * col("precision") * col("tpr"),
+                col("precision") + col("tpr"),
+            )
+            .alias("f1"),
             ((col("precision") * col("tpr")).sqrt()).alias("folkes_mallows_index"),
             ((col("tpr") * col("tnr") * col("precision") * col("npv")).sqrt()
                 - (col("fnr") * col("fpr") * col("false_omission_rate") * col("fdr")).sqrt())
             .alias("mcc"),
-            ((col("tp") + col("tn")) / (col("p") + col("n"))).alias("acc"),
+            ratio(col("tp") + col("tn"), col("p") + col("n")).alias("acc"),
         ])
-        .with_columns([(col("plr") / col("nlr")).alias("dor")])
+        .with_columns([ratio(col("plr"), col("nlr")).alias("dor")])
         .select(&[
             col("tp"),
             col("tn"),
@@ -387,7 +402,6 @@ fn pl_binary_confusion_matrix(inputs: &[Series]) -> PolarsResult<Series> {
             col("npv"),
             col("dor"),
         ])
-        .fill_null(f64::NAN) // In Rust dividing by 0 results in Null for some reason.
         .collect()?;
 
     let out = result.into_struct("confusion_matrix".into());
-- 
2.43.0


From 6bd6d57f7ce1b5c08c8696c75dff5a82798ee214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 16/78] fix: query_mcc does not overflow on large counts

---
 src/num_ext/tp_fp.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index fbd5714..45e701d 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -208,7 +208,9 @@ fn pl_mcc(inputs: &[Series]) -> PolarsResult<Series> {
     let n0_ = (n01 + n00) as f64;
     let n_0 = (n10 + n00) as f64;
 
-    let phi = ((n11 * n00) as f64 - (n10 * n01) as f64) / (n1_ * n_1 * n0_ * n_0).sqrt();
+    // The products of two counts may not fit in a u32
+    let (n11, n10, n01, n00) = (n11 as f64, n10 as f64, n01 as f64, n00 as f64);
+    let phi = (n11 * n00 - n10 * n01) / (n1_ * n_1 * n0_ * n_0).sqrt();
     Ok(Series::from_iter([phi]))
 }
 
-- 
2.43.0


From de44aa807f36f97afcb926032cbbea758bf71d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 17/78] fix: ROC AUC includes the segment from the highest
 threshold to the origin

---
 src/num_ext/tp_fp.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index 45e701d..2583a0d 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -87,6 +87,17 @@ fn tp_fp_frame(
     }
 }
 
+/// Area under the ROC curve, given the points on it ordered by threshold. The curve ends at (0, 0), which
+/// is the point of a threshold above all predictions.
+fn area_under_roc(tpr: &[f64], fpr: &[f64]) -> f64 {
+    let n = tpr.len();
+    if n > 1 {
+        0.5 * tpr[n - 1] * fpr[n - 1] - super::trapz::trapz(tpr, fpr)
+    } else {
+        -super::trapz::trapz(tpr, fpr)
+    }
+}
+
 #[polars_expr(output_type_func=combo_output)]
 fn pl_combo_b(inputs: &[Series]) -> PolarsResult<Series> {
     // actual, when passed in, is always u32 (done in Python extension side)
@@ -126,7 +137,7 @@ fn pl_combo_b(inputs: &[Series]) -> PolarsResult<Series> {
     let y = y.cont_slice()?; // Zero copy
     let x = x.cont_slice()?; // Zero copy
 
-    let auc = -super::trapz::trapz(y, x);
+    let auc = area_under_roc(y, x);
     let auc: Series = Series::from_vec("roc_auc".into(), vec![auc]);
 
     // Average Precision
@@ -239,7 +250,7 @@ fn pl_roc_auc(inputs: &[Series]) -> PolarsResult<Series> {
     let y = y.cont_slice()?;
     let x = x.cont_slice()?;
 
-    let auc = -super::trapz::trapz(y, x);
+    let auc = area_under_roc(y, x);
     Ok(Series::from_vec("roc_auc".into(), vec![auc]))
 }
 
-- 
2.43.0


From 2e57fc22c226a6f40aea4d5781bbee058b91e8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 18/78] fix: average precision includes the highest threshold

---
 src/num_ext/tp_fp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index 2583a0d..d7178dc 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -143,7 +143,7 @@ fn pl_combo_b(inputs: &[Series]) -> PolarsResult<Series> {
     // Average Precision
     let ap: f64 = -1.0
         * y.iter()
-            .zip(y.iter().skip(1))
+            .zip(y.iter().skip(1).chain(std::iter::once(&0.))) // recall is 0 above all predictions
             .zip(precision)
             .fold(0., |acc, ((y, y_next), p)| (y_next - y).mul_add(*p, acc));
     let ap: Series = Series::from_vec("average_precision".into(), vec![ap]);
-- 
2.43.0


From 977df072713fc71fc7056c391c9e0303552f078a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 19/78] fix: query_binary_metrics does not panic if no
 prediction reaches the threshold

---
 src/num_ext/tp_fp.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index d7178dc..8b51991 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -148,9 +148,9 @@ fn pl_combo_b(inputs: &[Series]) -> PolarsResult<Series> {
             .fold(0., |acc, ((y, y_next), p)| (y_next - y).mul_add(*p, acc));
     let ap: Series = Series::from_vec("average_precision".into(), vec![ap]);
 
-    // Precision & Recall & F
-    let recall = y[index];
-    let precision = precision[index];
+    // Precision & Recall & F. If no prediction reaches the threshold, nothing is predicted positive
+    let recall = y.get(index).copied().unwrap_or(0.);
+    let precision = precision.get(index).copied().unwrap_or(f64::NAN);
     let f: f64 = 2.0 * (precision * recall) / (precision + recall);
     let recall: Series = Series::from_vec("recall".into(), vec![recall]);
     let precision: Series = Series::from_vec("precision".into(), vec![precision]);
-- 
2.43.0


From 62f637706b1024a290912f64f5958f05ec81867f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 20/78] fix: calculate_ndcg uses the given group column

---
 python/polars_ds/exprs/metrics.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/python/polars_ds/exprs/metrics.py b/python/polars_ds/exprs/metrics.py
index 54070b0..a920af0 100644
--- a/python/polars_ds/exprs/metrics.py
+++ b/python/polars_ds/exprs/metrics.py
@@ -725,7 +725,7 @@ def calculate_ndcg(df, relevance_col, score_col, group_col, k=None, ignore_ties=
         >>> print(ndcg)  # Shows the mean NDCG@10 across all users
     """
 
-    ignore_flag = df.group_by("example_id").len().with_columns(pl.when(pl.col('len')==1).then(1).otherwise(0).alias('is_single_candidate'))
+    ignore_flag = df.group_by(group_col).len().with_columns(pl.when(pl.col('len')==1).then(1).otherwise(0).alias('is_single_candidate'))
     if ignore_ties:
         dcg_per_group = _get_dcg_score_with_ties(df, relevance_col, group_col, sort_by_column=score_col, k=k)
     else:
@@ -736,8 +736,8 @@ def calculate_ndcg(df, relevance_col, score_col, group_col, k=None, ignore_ties=
                                                    group_col, sort_by_column=relevance_col, k=k)
     ideal_dcg_per_group = ideal_dcg_per_group.rename({"discounted_relevance": "discounted_ideal_relevance"})
     
-    ndcg_df = dcg_per_group.join(ideal_dcg_per_group, on ='example_id')
-    ndcg_df = ndcg_df.join(ignore_flag, on='example_id')
+    ndcg_df = dcg_per_group.join(ideal_dcg_per_group, on =group_col)
+    ndcg_df = ndcg_df.join(ignore_flag, on=group_col)
     
     ndcg_df = ndcg_df.with_columns((pl.col('discounted_relevance')/pl.col('discounted_ideal_relevance')).alias('ndcg'))
     
@@ -845,20 +845,20 @@ def _get_dcg_score_with_ties(df, relevance_col, group_col, sort_by_column, k):
     df = _get_rank_discount_at_k(df, k, group_col)
 
     df = df.with_columns((pl.col(relevance_col) * pl.col("discount")).alias("discounted_relevance"))
-    df = df.with_columns(pl.col('discount').cum_sum().over('example_id').flatten().alias('discount_cumsum'))
+    df = df.with_columns(pl.col('discount').cum_sum().over(group_col).flatten().alias('discount_cumsum'))
     df = df.with_columns(
             pl.col(sort_by_column)
             .rank(method='min', descending=True)
-            .over('example_id')
+            .over(group_col)
             .alias("rank_groups")
         )
 
-    df_diff = df.group_by('example_id', 'rank_groups').agg(pl.col('discount_cumsum').last(), 
+    df_diff = df.group_by(group_col, 'rank_groups').agg(pl.col('discount_cumsum').last(), 
                                                         pl.col(relevance_col).sum(),
                                                           pl.len().alias('num_rows')).sort('rank_groups')
-    df_diff.sort('example_id', 'rank_groups')
+    df_diff.sort(group_col, 'rank_groups')
 
-    df_diff = df_diff.group_by('example_id').agg(pl.col('discount_cumsum').diff().alias('discount_diff'), 
+    df_diff = df_diff.group_by(group_col).agg(pl.col('discount_cumsum').diff().alias('discount_diff'), 
                                                  pl.col(relevance_col), 
                                                  pl.col('discount_cumsum'),
                                                  pl.col('rank_groups'), 
-- 
2.43.0


From 97c19d8b383735f42719dd1f395864b6f02e4165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 21/78] fix: str_lcs_seq finds its similarity plugin function

---
 python/polars_ds/exprs/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/string.py b/python/polars_ds/exprs/string.py
index f8c7f46..83a9406 100644
--- a/python/polars_ds/exprs/string.py
+++ b/python/polars_ds/exprs/string.py
@@ -594,7 +594,7 @@ def str_lcs_seq(
     """
     if return_sim:
         return pl_plugin(
-            symbol="pl_lcs_seq_sim",
+            symbol="pl_lcs_sim",
             args=[str_to_expr(c), str_to_expr(other), pl.lit(parallel, pl.Boolean)],
         )
     else:
-- 
2.43.0


From f00de273b29b0f1571b82656fedd7ec2e882a423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 22/78] fix: similar_to_vocab works with the jw metric

---
 python/polars_ds/exprs/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/string.py b/python/polars_ds/exprs/string.py
index 83a9406..6ac3745 100644
--- a/python/polars_ds/exprs/string.py
+++ b/python/polars_ds/exprs/string.py
@@ -696,7 +696,7 @@ def similar_to_vocab(
     elif metric == "osa":
         sims = [str_osa(c, pl.lit(w, dtype=pl.String), return_sim=True) for w in vocab]
     elif metric == "jw":
-        sims = [str_jw(c, pl.lit(w, dtype=pl.String), return_sim=True) for w in vocab]
+        sims = [str_jw(c, pl.lit(w, dtype=pl.String)) for w in vocab]
     else:
         raise ValueError(f"Unknown metric: {metric}")
 
-- 
2.43.0


From ca4bd91938b91a02ac544fd2d8c5cfd04c9d3684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 23/78] fix: str_fuzz declares the type it returns

---
 src/str_ext/fuzz.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/str_ext/fuzz.rs b/src/str_ext/fuzz.rs
index 48f92bc..965e2e6 100644
--- a/src/str_ext/fuzz.rs
+++ b/src/str_ext/fuzz.rs
@@ -12,7 +12,7 @@ use pyo3_polars::{
 };
 use rapidfuzz::fuzz::{ratio, RatioBatchComparator};
 
-#[polars_expr(output_type=UInt32)]
+#[polars_expr(output_type=Float64)]
 fn pl_fuzz(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let ca1 = inputs[0].str()?;
     let ca2 = inputs[1].str()?;
-- 
2.43.0


From 3f1d71f3f77500811b2719f99a892e8d3f938e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 24/78] fix: str_fuzz against a single string is the same ratio
 as against a column

---
 src/str_ext/fuzz.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/str_ext/fuzz.rs b/src/str_ext/fuzz.rs
index 965e2e6..545d7d2 100644
--- a/src/str_ext/fuzz.rs
+++ b/src/str_ext/fuzz.rs
@@ -10,7 +10,7 @@ use pyo3_polars::{
         POOL,
     },
 };
-use rapidfuzz::fuzz::{ratio, RatioBatchComparator};
+use rapidfuzz::{distance::indel, fuzz::ratio};
 
 #[polars_expr(output_type=Float64)]
 fn pl_fuzz(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
@@ -21,21 +21,22 @@ fn pl_fuzz(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
         let r = ca2.get(0).unwrap();
-        let batched = RatioBatchComparator::new(r.chars());
+        // rapidfuzz's RatioBatchComparator is normalized by the longer length, unlike ratio
+        let batched = indel::BatchComparator::new(r.chars());
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
             let chunks_iter = splits.into_par_iter().map(|(offset, len)| {
                 let s1 = ca1.slice(offset as i64, len);
                 let out: Float64Chunked = s1.apply_nonnull_values_generic(DataType::Float64, |s| {
-                    batched.similarity(s.chars())
+                    batched.normalized_similarity(s.chars())
                 });
                 out.downcast_iter().cloned().collect::<Vec<_>>()
             });
             let chunks = POOL.install(|| chunks_iter.collect::<Vec<_>>());
             Float64Chunked::from_chunk_iter(ca1.name().clone(), chunks.into_iter().flatten())
         } else {
-            ca1.apply_nonnull_values_generic(DataType::Float64, |s| batched.similarity(s.chars()))
+            ca1.apply_nonnull_values_generic(DataType::Float64, |s| batched.normalized_similarity(s.chars()))
         };
         Ok(out.into_series())
     } else if ca1.len() == ca2.len() {
-- 
2.43.0


From f3122ddffd35b2ab3010ada4ee3cfacef143acfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 25/78] fix: str_nearest ignores nulls

---
 src/str_ext/nearest_str.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/str_ext/nearest_str.rs b/src/str_ext/nearest_str.rs
index 2ad6c07..309ebdb 100644
--- a/src/str_ext/nearest_str.rs
+++ b/src/str_ext/nearest_str.rs
@@ -17,7 +17,7 @@ fn levenshtein_nearest<'a>(s: &'a StringChunked, cutoff: usize, word: String) ->
     let mut actual_cutoff = levenshtein::Args::default().score_cutoff(cutoff);
     let mut nearest_str: Option<&str> = None;
     for arr in s.downcast_iter() {
-        for w in arr.values_iter() {
+        for w in arr.iter().flatten() {
             if let Some(d) = batched.distance_with_args(w.chars(), &actual_cutoff) {
                 if d == 0 {
                     return Some(w);
@@ -39,7 +39,7 @@ fn hamming_nearest<'a>(s: &'a StringChunked, cutoff: usize, word: String) -> Opt
     let mut nearest_str: Option<&str> = None;
 
     for arr in s.downcast_iter() {
-        for w in arr.values_iter() {
+        for w in arr.iter().flatten() {
             if let Ok(ss) = batched.distance_with_args(w.chars(), &actual_cutoff) {
                 if let Some(d) = ss {
                     if d == 0 {
-- 
2.43.0


From 9b4a8ba8ade4b2ef1ae5864384d002a765a8bf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 26/78] fix: string similarities to a null are null instead of
 a panic

---
 src/str_ext/fuzz.rs          |  8 +++++++-
 src/str_ext/hamming.rs       | 24 +++++++++++++++++++---
 src/str_ext/jaro.rs          | 16 +++++++++++++--
 src/str_ext/lcs_seq.rs       | 16 +++++++++++++--
 src/str_ext/levenshtein.rs   | 40 +++++++++++++++++++++++++++++++-----
 src/str_ext/osa.rs           | 16 +++++++++++++--
 src/str_ext/overlap.rs       |  8 +++++++-
 src/str_ext/sorensen_dice.rs |  8 +++++++-
 src/str_ext/str_jaccard.rs   |  8 +++++++-
 src/str_ext/tversky.rs       |  8 +++++++-
 10 files changed, 133 insertions(+), 19 deletions(-)

diff --git a/src/str_ext/fuzz.rs b/src/str_ext/fuzz.rs
index 545d7d2..c33d155 100644
--- a/src/str_ext/fuzz.rs
+++ b/src/str_ext/fuzz.rs
@@ -20,7 +20,13 @@ fn pl_fuzz(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Float64,
+            ));
+        };
         // rapidfuzz's RatioBatchComparator is normalized by the longer length, unlike ratio
         let batched = indel::BatchComparator::new(r.chars());
         let out: Float64Chunked = if can_parallel {
diff --git a/src/str_ext/hamming.rs b/src/str_ext/hamming.rs
index a7642c4..94d718e 100644
--- a/src/str_ext/hamming.rs
+++ b/src/str_ext/hamming.rs
@@ -29,7 +29,13 @@ fn pl_hamming(inputs: &[Series], context: CallerContext) -> PolarsResult<Series>
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::UInt32,
+            ));
+        };
         let batched = hamming::BatchComparator::new(r.chars());
         let out: UInt32Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
@@ -119,7 +125,13 @@ fn pl_hamming_padded(inputs: &[Series], context: CallerContext) -> PolarsResult<
     let can_parallel = parallel && !context.parallel();
     let padding = hamming::Args::default().pad(true);
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::UInt32,
+            ));
+        };
         let batched = hamming::BatchComparator::new(r.chars());
         let out: UInt32Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
@@ -176,7 +188,13 @@ fn pl_hamming_filter(inputs: &[Series], context: CallerContext) -> PolarsResult<
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Boolean,
+            ));
+        };
         let batched = hamming::BatchComparator::new(r.chars());
         let out: BooleanChunked = if can_parallel {
             POOL.install(|| {
diff --git a/src/str_ext/jaro.rs b/src/str_ext/jaro.rs
index 441c64c..58b9b70 100644
--- a/src/str_ext/jaro.rs
+++ b/src/str_ext/jaro.rs
@@ -33,7 +33,13 @@ fn pl_jaro(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Float64,
+            ));
+        };
         let batched = jaro::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -55,7 +61,13 @@ fn pl_jw(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Float64,
+            ));
+        };
         let batched = jaro_winkler::BatchComparator::new(r.chars());
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
diff --git a/src/str_ext/lcs_seq.rs b/src/str_ext/lcs_seq.rs
index e09424f..859a0a9 100644
--- a/src/str_ext/lcs_seq.rs
+++ b/src/str_ext/lcs_seq.rs
@@ -23,7 +23,13 @@ fn pl_lcs_seq(inputs: &[Series], context: CallerContext) -> PolarsResult<Series>
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::UInt32,
+            ));
+        };
         let batched = lcs_seq::BatchComparator::new(r.chars());
         Ok(generic_batched_distance(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -43,7 +49,13 @@ fn pl_lcs_sim(inputs: &[Series], context: CallerContext) -> PolarsResult<Series>
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Float64,
+            ));
+        };
         let batched = lcs_seq::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
diff --git a/src/str_ext/levenshtein.rs b/src/str_ext/levenshtein.rs
index 4a56040..f25b93c 100644
--- a/src/str_ext/levenshtein.rs
+++ b/src/str_ext/levenshtein.rs
@@ -50,7 +50,13 @@ fn pl_levenshtein(inputs: &[Series], context: CallerContext) -> PolarsResult<Ser
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::UInt32,
+            ));
+        };
         let batched = levenshtein::BatchComparator::new(r.chars());
         Ok(generic_batched_distance(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -72,7 +78,13 @@ fn pl_levenshtein_filter(inputs: &[Series], context: CallerContext) -> PolarsRes
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Boolean,
+            ));
+        };
         let batched = levenshtein::BatchComparator::new(r.chars());
         let out: BooleanChunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
@@ -135,7 +147,13 @@ fn pl_levenshtein_sim(inputs: &[Series], context: CallerContext) -> PolarsResult
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Float64,
+            ));
+        };
         let batched = levenshtein::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -155,7 +173,13 @@ fn pl_d_levenshtein(inputs: &[Series], context: CallerContext) -> PolarsResult<S
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::UInt32,
+            ));
+        };
         let batched = damerau_levenshtein::BatchComparator::new(r.chars());
         Ok(generic_batched_distance(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -180,7 +204,13 @@ fn pl_d_levenshtein_sim(inputs: &[Series], context: CallerContext) -> PolarsResu
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Float64,
+            ));
+        };
         let batched = damerau_levenshtein::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
diff --git a/src/str_ext/osa.rs b/src/str_ext/osa.rs
index 3496955..a45c50e 100644
--- a/src/str_ext/osa.rs
+++ b/src/str_ext/osa.rs
@@ -23,7 +23,13 @@ fn pl_osa(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::UInt32,
+            ));
+        };
         let batched = osa::BatchComparator::new(r.chars());
         Ok(generic_batched_distance(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -43,7 +49,13 @@ fn pl_osa_sim(inputs: &[Series], context: CallerContext) -> PolarsResult<Series>
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Float64,
+            ));
+        };
         let batched = osa::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
diff --git a/src/str_ext/overlap.rs b/src/str_ext/overlap.rs
index 67e4580..9ac04c1 100644
--- a/src/str_ext/overlap.rs
+++ b/src/str_ext/overlap.rs
@@ -32,7 +32,13 @@ fn pl_overlap_coeff(inputs: &[Series], context: CallerContext) -> PolarsResult<S
     let can_parallel = parallel && !context.parallel();
 
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Float64,
+            ));
+        };
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
diff --git a/src/str_ext/sorensen_dice.rs b/src/str_ext/sorensen_dice.rs
index f3e9a79..0360da8 100644
--- a/src/str_ext/sorensen_dice.rs
+++ b/src/str_ext/sorensen_dice.rs
@@ -32,7 +32,13 @@ fn pl_sorensen_dice(inputs: &[Series], context: CallerContext) -> PolarsResult<S
     let can_parallel = parallel && !context.parallel();
 
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Float64,
+            ));
+        };
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
diff --git a/src/str_ext/str_jaccard.rs b/src/str_ext/str_jaccard.rs
index 891e723..9969fc7 100644
--- a/src/str_ext/str_jaccard.rs
+++ b/src/str_ext/str_jaccard.rs
@@ -33,7 +33,13 @@ fn pl_str_jaccard(inputs: &[Series], context: CallerContext) -> PolarsResult<Ser
     let can_parallel = parallel && !context.parallel();
 
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap(); // .unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Float64,
+            ));
+        };
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
diff --git a/src/str_ext/tversky.rs b/src/str_ext/tversky.rs
index 936f7ff..49ee1de 100644
--- a/src/str_ext/tversky.rs
+++ b/src/str_ext/tversky.rs
@@ -41,7 +41,13 @@ fn pl_tversky_sim(inputs: &[Series], context: CallerContext) -> PolarsResult<Ser
     let can_parallel = parallel && !context.parallel();
 
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Float64,
+            ));
+        };
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
-- 
2.43.0


From f458124cfd9c6497b8728df9df330d636d2087f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:31 +0000
Subject: [PATCH 27/78] fix: isotonic regression does not underflow an index in
 builds with overflow checks

---
 src/num_ext/isotonic_regression.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/num_ext/isotonic_regression.rs b/src/num_ext/isotonic_regression.rs
index 5f3c0c5..a870824 100644
--- a/src/num_ext/isotonic_regression.rs
+++ b/src/num_ext/isotonic_regression.rs
@@ -7,9 +7,6 @@ use serde::Deserialize;
 // https://github.com/scipy/scipy/blob/v1.14.1/scipy/optimize/_pava/pava_pybind.cpp
 // https://www.jstatsoft.org/article/view/v102c01
 
-// The code here has to be compiled in --release
-// Otherwise, a mysterious error will occur. Thank you compiler!
-
 #[derive(Deserialize, Debug)]
 pub(crate) struct IsotonicRegKwargs {
     pub(crate) has_weights: bool,
@@ -58,15 +55,15 @@ fn isotonic_regression(x: &mut [f64], w: &mut [f64], r: &mut [usize]) {
         i += 1;
     }
 
-    let mut f = n - 1;
+    let mut f = n;
     for k in (0..=b).rev() {
         // println!("{}", k);
         let t = r[k];
         let xk = x[k];
-        for i in t..=f {
+        for i in t..f {
             x[i] = xk;
         }
-        f = t - 1;
+        f = t;
     }
 }
 
-- 
2.43.0


From 911ef960f969d5aec3207005e71a8fa105f2a315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:31 +0000
Subject: [PATCH 28/78] fix: the integral over a single point is 0

---
 src/num_ext/tp_fp.rs | 6 +-----
 src/num_ext/trapz.rs | 2 +-
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index 8b51991..4c97004 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -91,11 +91,7 @@ fn tp_fp_frame(
 /// is the point of a threshold above all predictions.
 fn area_under_roc(tpr: &[f64], fpr: &[f64]) -> f64 {
     let n = tpr.len();
-    if n > 1 {
-        0.5 * tpr[n - 1] * fpr[n - 1] - super::trapz::trapz(tpr, fpr)
-    } else {
-        -super::trapz::trapz(tpr, fpr)
-    }
+    0.5 * tpr[n - 1] * fpr[n - 1] - super::trapz::trapz(tpr, fpr)
 }
 
 #[polars_expr(output_type_func=combo_output)]
diff --git a/src/num_ext/trapz.rs b/src/num_ext/trapz.rs
index 2ac4cb5..5f23394 100644
--- a/src/num_ext/trapz.rs
+++ b/src/num_ext/trapz.rs
@@ -7,7 +7,7 @@ use pyo3_polars::derive::polars_expr;
 pub fn trapz(y: &[f64], x: &[f64]) -> f64 {
     // x.len() == y.len() checked
     if x.len() == 1 && y.len() == 1 {
-        y[0] * x[0] * -0.5 // y[0] * (-x[0]) * 0.5
+        0. // No interval to integrate over
     } else {
         let mut y_d = vec![0.; y.len() - 1];
         cfavml::add_vector(&y[1..], &y[..y.len() - 1], &mut y_d);
-- 
2.43.0


From b5af511f31f60daf36522f8a6d582a3b80eee366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:31 +0000
Subject: [PATCH 29/78] fix: linear detrending accepts nulls

---
 python/polars_ds/exprs/num.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 843b783..926827a 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -926,10 +926,10 @@ def detrend(x: str | pl.Expr, method: DetrendMethod = "linear") -> pl.Expr:
     """
     ts = str_to_expr(x)
     if method == "linear":
-        N = ts.count()
-        x = pl.int_range(0, N, eager=False)
-        coeff = pl.cov(ts, x) / x.var()
-        const = ts.mean() - coeff * (N - 1) / 2
+        x = pl.int_range(0, ts.len(), eager=False)
+        x_valid = pl.when(ts.is_not_null()).then(x)  # the trend is fitted on the non-null values
+        coeff = pl.cov(ts, x_valid) / x_valid.var()
+        const = ts.mean() - coeff * x_valid.mean()
         return ts - x * coeff - const
     elif method == "mean":
         return ts - ts.mean()
-- 
2.43.0


From 3f5a28d7d5ddc84fa38f721faf7b8c2d91440fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:55 +0000
Subject: [PATCH 30/78] fix: integrate_trapz accepts an x column of several
 chunks

---
 python/polars_ds/exprs/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 926827a..2d864a4 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -742,7 +742,7 @@ def integrate_trapz(y: str | pl.Expr, x: float | pl.Expr) -> pl.Expr:
     if isinstance(x, float):
         xx = pl.lit(abs(x), pl.Float64)
     else:
-        xx = str_to_expr(x).cast(pl.Float64)
+        xx = str_to_expr(x).cast(pl.Float64).rechunk()
 
     return pl_plugin(
         symbol="pl_trapz",
-- 
2.43.0


From 776b770a2af69d3e9659e9dc29fe3f44cfe5bd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:55 +0000
Subject: [PATCH 31/78] fix: psi_discrete pairs each category with its own
 count

---
 python/polars_ds/exprs/num.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 2d864a4..e2692a2 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -514,7 +514,7 @@ def psi_discrete(
     """
     if isinstance(new, (str, pl.Expr)):
         new_ = str_to_expr(new)
-        temp = new_.value_counts().struct.rename_fields(["", "count"])
+        temp = new_.value_counts().sort().struct.rename_fields(["", "count"])
         new_cnt = temp.struct.field("count")
         new_cat = temp.struct.field("")
     else:
@@ -525,7 +525,7 @@ def psi_discrete(
 
     if isinstance(baseline, (str, pl.Expr)):
         base = str_to_expr(baseline)
-        temp = base.value_counts().struct.rename_fields(["", "count"])
+        temp = base.value_counts().sort().struct.rename_fields(["", "count"])
         ref_cnt = temp.struct.field("count")
         ref_cat = temp.struct.field("")
     else:
-- 
2.43.0


From e9d0abcd93f06716f6966c836fe240bbd6f3fb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:55 +0000
Subject: [PATCH 32/78] fix: woe and info_value drop the target of the rows
 they drop

---
 python/polars_ds/exprs/num.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index e2692a2..24d6921 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -616,9 +616,10 @@ def woe(x: str | pl.Expr, target: str | pl.expr | Iterable[float], n_bins: int =
     if isinstance(target, (str, pl.Expr)):
         t = str_to_expr(target)
     else:
-        t = pl.Series(values=target)
+        t = pl.lit(pl.Series(values=target))
     xx = str_to_expr(x)
     valid = xx.filter(xx.is_finite())
+    t = t.filter(xx.is_finite())  # the rows of x that are kept
     brk = valid.qcut(n_bins, left_closed=False, allow_duplicates=True).cast(pl.String)
     return pl_plugin(symbol="pl_woe_discrete", args=[brk, t], changes_length=True)
 
@@ -686,9 +687,10 @@ def info_value(
     if isinstance(target, (str, pl.Expr)):
         t = str_to_expr(target)
     else:
-        t = pl.Series(values=target)
+        t = pl.lit(pl.Series(values=target))
     xx = str_to_expr(x)
     valid = xx.filter(xx.is_finite())
+    t = t.filter(xx.is_finite())  # the rows of x that are kept
     brk = valid.qcut(n_bins, left_closed=False, allow_duplicates=True).cast(pl.String)
     out = pl_plugin(symbol="pl_iv", args=[brk, t], changes_length=True)
     return out.struct.field("iv").sum() if return_sum else out
-- 
2.43.0


From 4c6b6890a10db7cace5ff83ce6fa255dd2442d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:55 +0000
Subject: [PATCH 33/78] fix: psi_w_breakpoints accepts integers

---
 python/polars_ds/exprs/num.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 24d6921..50a9538 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -569,16 +569,16 @@ def psi_w_breakpoints(
     """
     if isinstance(baseline, (str, pl.Expr)):
         x: pl.Expr = str_to_expr(baseline)
-        x = x.filter(x.is_finite())
+        x = x.filter(x.is_finite()).cast(pl.Float64)
     else:
-        temp = pl.Series(values=baseline)
+        temp = pl.Series(values=baseline, dtype=pl.Float64)
         x: pl.Expr = pl.lit(temp.filter(temp.is_finite()))
 
     if isinstance(new, (str, pl.Expr)):
         y: pl.Expr = str_to_expr(new)
-        y = y.filter(y.is_finite())
+        y = y.filter(y.is_finite()).cast(pl.Float64)
     else:
-        temp = pl.Series(values=new)
+        temp = pl.Series(values=new, dtype=pl.Float64)
         y: pl.Expr = pl.lit(temp.filter(temp.is_finite()))
 
     if len(breakpoints) == 0:
-- 
2.43.0


From 27bb41b80014e0f0798379a1b59909556908ef99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:55 +0000
Subject: [PATCH 34/78] fix: psi has a last bin without an upper bound

---
 src/num_ext/psi.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/num_ext/psi.rs b/src/num_ext/psi.rs
index d80790f..f51ecad 100644
--- a/src/num_ext/psi.rs
+++ b/src/num_ext/psi.rs
@@ -105,13 +105,16 @@ fn pl_psi_report(inputs: &[Series]) -> PolarsResult<Series> {
 
     let binding = new.rechunk();
     let data_new = binding.cont_slice().unwrap();
-    let binding = brk.rechunk();
-    let ref_brk = binding.cont_slice().unwrap();
-    let binding = cnt.rechunk();
-    let ref_cnt = binding.cont_slice().unwrap();
+    let mut ref_brk: Vec<f64> = brk.into_no_null_iter().collect();
+    let mut ref_cnt: Vec<u32> = cnt.into_no_null_iter().collect();
+    // No value of the baseline is in the last bin when its max is repeated often enough
+    if ref_brk.last() != Some(&f64::INFINITY) {
+        ref_brk.push(f64::INFINITY);
+        ref_cnt.push(0);
+    }
 
-    let new_cnt = psi_with_bps_helper(data_new, ref_brk);
-    let psi_report = psi_frame(ref_brk, "<=", ref_cnt, &new_cnt)?.collect()?;
+    let new_cnt = psi_with_bps_helper(data_new, &ref_brk);
+    let psi_report = psi_frame(&ref_brk, "<=", &ref_cnt, &new_cnt)?.collect()?;
 
     Ok(psi_report.into_struct("".into()).into_series())
 }
-- 
2.43.0


From ee120a9b4f0f3c5d67b472376731a714e118f273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:03 +0000
Subject: [PATCH 35/78] fix: psi_discrete treats null as a category

---
 src/num_ext/psi.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/psi.rs b/src/num_ext/psi.rs
index f51ecad..b9ea214 100644
--- a/src/num_ext/psi.rs
+++ b/src/num_ext/psi.rs
@@ -137,7 +137,10 @@ fn pl_psi_discrete_report(inputs: &[Series]) -> PolarsResult<Series> {
             df2.lazy(),
             [col("actual_cat")],
             [col("baseline_cat")],
-            JoinArgs::new(JoinType::Full),
+            JoinArgs {
+                join_nulls: true, // null is a category
+                ..JoinArgs::new(JoinType::Full)
+            },
         )
         .with_columns([
             col("baseline_cnt").fill_null(0),
-- 
2.43.0


From f6ec3dfd6a71ed4321e95599b234d7e6a60e28b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:49 +0000
Subject: [PATCH 36/78] fix: gcd and lcm with a null are null instead of a
 panic

---
 src/num_ext/gcd_lcm.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/num_ext/gcd_lcm.rs b/src/num_ext/gcd_lcm.rs
index 30532dd..471175e 100644
--- a/src/num_ext/gcd_lcm.rs
+++ b/src/num_ext/gcd_lcm.rs
@@ -8,8 +8,10 @@ fn pl_gcd(inputs: &[Series]) -> PolarsResult<Series> {
     let ca1 = inputs[0].i32()?;
     let ca2 = inputs[1].i32()?;
     if ca2.len() == 1 {
-        let b = ca2.get(0).unwrap();
-        let out: Int32Chunked = ca1.apply_values(|a| num::integer::gcd(a, b));
+        let out: Int32Chunked = match ca2.get(0) {
+            Some(b) => ca1.apply_values(|a| num::integer::gcd(a, b)),
+            None => Int32Chunked::full_null(ca1.name().clone(), ca1.len()),
+        };
         Ok(out.into_series())
     } else if ca1.len() == ca2.len() {
         let out: Int32Chunked = binary_elementwise_values(ca1, ca2, num::integer::gcd);
@@ -26,8 +28,10 @@ fn pl_lcm(inputs: &[Series]) -> PolarsResult<Series> {
     let ca1 = inputs[0].i32()?;
     let ca2 = inputs[1].i32()?;
     if ca2.len() == 1 {
-        let b = ca2.get(0).unwrap();
-        let out: Int32Chunked = ca1.apply_values(|a| num::integer::lcm(a, b));
+        let out: Int32Chunked = match ca2.get(0) {
+            Some(b) => ca1.apply_values(|a| num::integer::lcm(a, b)),
+            None => Int32Chunked::full_null(ca1.name().clone(), ca1.len()),
+        };
         Ok(out.into_series())
     } else if ca1.len() == ca2.len() {
         let out: Int32Chunked = binary_elementwise_values(ca1, ca2, num::integer::lcm);
-- 
2.43.0


From 8a2a04a5a558b3762b1fe2cdcce5bc8460f7f93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:49 +0000
Subject: [PATCH 37/78] fix: jaccard_col leaves nulls out of the sets unless
 they are counted

---
 src/num_ext/jaccard.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/num_ext/jaccard.rs b/src/num_ext/jaccard.rs
index d3c139a..19f88e7 100644
--- a/src/num_ext/jaccard.rs
+++ b/src/num_ext/jaccard.rs
@@ -92,15 +92,14 @@ fn pl_jaccard(inputs: &[Series]) -> PolarsResult<Series> {
     let count_null = inputs[2].bool()?;
     let count_null = count_null.get(0).unwrap_or(false);
 
-    let (s1, s2) = (inputs[0].clone(), inputs[1].clone());
+    let (s1, s2) = (&inputs[0], &inputs[1]);
+    // null is an element of a set if the series has nulls and nulls are counted
+    let null1 = (count_null && s1.has_nulls()) as usize;
+    let null2 = (count_null && s2.has_nulls()) as usize;
 
-    let adj = if count_null {
-        (s1.has_nulls() && s2.has_nulls()) as usize // adjust for null
-    } else {
-        0
-    };
+    let (s1, s2) = (s1.drop_nulls(), s2.drop_nulls());
 
-    // All computation below assumes the input has no nulls, that is why we have the adj
+    // All computation below assumes the input has no nulls
 
     // God, help me with this unholy mess,
     let (len1, len2, intersection_size) = if s1.dtype().is_integer() && s1.dtype() != s2.dtype() {
@@ -221,7 +220,7 @@ fn pl_jaccard(inputs: &[Series]) -> PolarsResult<Series> {
         ));
     };
 
-    let adjusted = intersection_size + adj;
-    let out = adjusted as f64 / (len1 + len2).abs_diff(adjusted) as f64;
+    let adjusted = intersection_size + null1 * null2;
+    let out = adjusted as f64 / (len1 + null1 + len2 + null2).abs_diff(adjusted) as f64;
     Ok(Series::from_iter([out]))
 }
-- 
2.43.0


From a3072d9a4af13d5c90e2cbcf7a301ba2beb61fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:49 +0000
Subject: [PATCH 38/78] fix: jaccard_row accepts lists of 8 and 16 bit integers

---
 src/num_ext/jaccard.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/jaccard.rs b/src/num_ext/jaccard.rs
index 19f88e7..f7cafad 100644
--- a/src/num_ext/jaccard.rs
+++ b/src/num_ext/jaccard.rs
@@ -64,7 +64,17 @@ fn pl_list_jaccard(inputs: &[Series]) -> PolarsResult<Series> {
         ComputeError: "Inner data types don't match."
     );
 
-    if s1.inner_dtype().is_integer() {
+    if matches!(
+        s1.inner_dtype(),
+        DataType::Int8 | DataType::Int16 | DataType::UInt8 | DataType::UInt16
+    ) {
+        // Not covered by the macro in _list_jaccard
+        let wide = DataType::List(Box::new(DataType::Int32));
+        let s1 = inputs[0].cast(&wide)?;
+        let s2 = inputs[1].cast(&wide)?;
+        let out = _list_jaccard(s1.list()?, s2.list()?);
+        Ok(out.into_series())
+    } else if s1.inner_dtype().is_integer() {
         let out = _list_jaccard(s1, s2);
         Ok(out.into_series())
     } else if s1.inner_dtype() == &DataType::String {
-- 
2.43.0


From d75f0187f8bfcebd6851d59b9f496eb73bd10366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:42 +0000
Subject: [PATCH 39/78] fix: first digit counts leave nulls out

---
 src/num_ext/benford.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/num_ext/benford.rs b/src/num_ext/benford.rs
index dfcee45..4b6ecd7 100644
--- a/src/num_ext/benford.rs
+++ b/src/num_ext/benford.rs
@@ -18,7 +18,7 @@ fn first_digit<T: Integer + Copy>(u: T) -> T {
 #[polars_expr(output_type_func=list_u32_output)]
 fn pl_benford_law(inputs: &[Series]) -> PolarsResult<Series> {
     let mut out = [0; 10];
-    let s = &inputs[0];
+    let s = inputs[0].drop_nulls();
     match s.dtype() {
         DataType::UInt8 => {
             let ss = s.u8().unwrap();
-- 
2.43.0


From 837722fc1c220e36924a1ea720852d767e246952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:40 +0000
Subject: [PATCH 40/78] fix: fract of a null integer is null

---
 src/num_ext/float_extras.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/float_extras.rs b/src/num_ext/float_extras.rs
index c9b56fe..e42719a 100644
--- a/src/num_ext/float_extras.rs
+++ b/src/num_ext/float_extras.rs
@@ -200,7 +200,9 @@ fn pl_fract(inputs: &[Series]) -> PolarsResult<Series> {
     let s = &inputs[0];
 
     if s.dtype().is_integer() {
-        Ok(Series::from_vec(s.name().clone(), vec![0f32; s.len()]))
+        let s = s.cast(&DataType::Float32)?;
+        let ca = s.f32().unwrap();
+        Ok(ca.apply_values(|_| 0f32).into_series())
     } else {
         if s.dtype() == &DataType::Float64 {
             let ca = s.f64().unwrap();
-- 
2.43.0


From 4bc78b1dc05a20fb1c7e56a9139b3d8937761b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:40 +0000
Subject: [PATCH 41/78] fix: haversine distance to a null point is null instead
 of a panic

---
 src/num_ext/haversine.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/haversine.rs b/src/num_ext/haversine.rs
index 16130ff..55ac362 100644
--- a/src/num_ext/haversine.rs
+++ b/src/num_ext/haversine.rs
@@ -14,8 +14,15 @@ where
     T::Native: Float,
 {
     if (y_lat.len() == y_long.len()) && (y_lat.len() == 1) {
-        let e_lat = y_lat.get(0).unwrap();
-        let e_long = y_long.get(0).unwrap();
+        let (e_lat, e_long) = match (y_lat.get(0), y_long.get(0)) {
+            (Some(e_lat), Some(e_long)) => (e_lat, e_long),
+            _ => {
+                return Ok(ChunkedArray::full_null(
+                    x_lat.name().clone(),
+                    x_lat.len(),
+                ))
+            }
+        };
         let out: ChunkedArray<T> = x_lat
             .into_iter()
             .zip(x_long.into_iter())
-- 
2.43.0


From 715b8cc8a2b772f461563be1fa05f3cfe16220b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:40 +0000
Subject: [PATCH 42/78] fix: explained variance divides by the number of
 samples less one

---
 python/polars_ds/exprs/num.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 50a9538..7aa47ca 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -296,9 +296,14 @@ def singular_values(
     else:
         actual_inputs = feats
 
+    if as_explained_var:
+        # Singular values scale with the data. Rows with nulls are dropped, so they are not samples.
+        n_samples = pl.all_horizontal(f.is_not_null() for f in feats).sum()
+        actual_inputs = [f / (n_samples - 1).sqrt() for f in actual_inputs]
+
     out = pl_plugin(symbol="pl_singular_values", args=actual_inputs, returns_scalar=True)
     if as_explained_var:
-        out = out.list.eval(pl.element().pow(2) / (pl.count() - 1))
+        out = out.list.eval(pl.element().pow(2))
     if as_ratio:
         out = out.list.eval(pl.element() / pl.element().sum())
 
-- 
2.43.0


From 22d72789dd88ae189c4c9bde1b6ff0263c5ecf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:40 +0000
Subject: [PATCH 43/78] fix: pca accepts data with fewer rows than columns

---
 src/num_ext/pca.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/num_ext/pca.rs b/src/num_ext/pca.rs
index 42ad686..eb4d626 100644
--- a/src/num_ext/pca.rs
+++ b/src/num_ext/pca.rs
@@ -96,7 +96,7 @@ fn pl_principal_components(inputs: &[Series]) -> PolarsResult<Series> {
         let compute = ComputeSvdVectors::Thin;
         let dim = Ord::min(mat.nrows(), mat.ncols());
         let mut s = Col::<f64>::zeros(dim);
-        let mut v = Mat::<f64>::zeros(dim, dim);
+        let mut v = Mat::<f64>::zeros(mat.ncols(), dim);
         let par = Par::rayon(0);
         faer::linalg::svd::svd(
             mat,
@@ -139,7 +139,7 @@ fn pl_pca(inputs: &[Series]) -> PolarsResult<Series> {
     let dim = Ord::min(mat.nrows(), mat.ncols());
     let mut s = vec![0f64; dim];
     let cs = ColMut::from_slice_mut(&mut s);
-    let mut v = Mat::<f64>::zeros(dim, dim);
+    let mut v = Mat::<f64>::zeros(mat.ncols(), dim);
     let par = Par::rayon(0);
     let compute = ComputeSvdVectors::Thin;
 
@@ -164,9 +164,9 @@ fn pl_pca(inputs: &[Series]) -> PolarsResult<Series> {
     let mut builder: PrimitiveChunkedBuilder<Float64Type> =
         PrimitiveChunkedBuilder::new("singular_value".into(), dim);
     let mut list_builder: ListPrimitiveChunkedBuilder<Float64Type> =
-        ListPrimitiveChunkedBuilder::new("weight_vector".into(), dim, dim, DataType::Float64);
+        ListPrimitiveChunkedBuilder::new("weight_vector".into(), dim, n, DataType::Float64);
 
-    for i in 0..v.nrows() {
+    for i in 0..v.ncols() {
         builder.append_value(s[i]);
         list_builder.append_slice(v.col_as_slice(i));
     }
-- 
2.43.0


From 09acc2f396089ed3f1a24cfce39dc06a76cb3aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:56 +0000
Subject: [PATCH 44/78] fix: principal_components declares the k components it
 returns

---
 python/polars_ds/exprs/num.py | 12 ++++++++----
 src/num_ext/pca.rs            | 25 ++++++++++++++++++-------
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 7aa47ca..101aeaf 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -357,13 +357,17 @@ def principal_components(
     if k > len(feats) or k <= 0:
         raise ValueError("Input `k` should be between 1 and the number of features inclusive.")
 
-    actual_inputs = [pl.lit(k, dtype=pl.UInt32)]
     if center:
-        actual_inputs.extend(f - f.mean() for f in feats)
+        actual_inputs = [f - f.mean() for f in feats]
     else:
-        actual_inputs.extend(feats)
+        actual_inputs = feats
 
-    return pl_plugin(symbol="pl_principal_components", args=actual_inputs, pass_name_to_apply=True)
+    return pl_plugin(
+        symbol="pl_principal_components",
+        args=actual_inputs,
+        kwargs={"k": k},
+        pass_name_to_apply=True,
+    )
 
 
 def jaccard_row(first: str | pl.Expr, second: str | pl.Expr) -> pl.Expr:
diff --git a/src/num_ext/pca.rs b/src/num_ext/pca.rs
index eb4d626..ebca502 100644
--- a/src/num_ext/pca.rs
+++ b/src/num_ext/pca.rs
@@ -7,6 +7,7 @@ use faer::{
 };
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
+use serde::Deserialize;
 
 pub fn singular_values_output(_: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(
@@ -27,8 +28,16 @@ pub fn pca_output(_: &[Field]) -> PolarsResult<Field> {
     ))
 }
 
-pub fn principal_components_output(fields: &[Field]) -> PolarsResult<Field> {
-    let components: Vec<_> = (0..fields.len())
+#[derive(Deserialize, Debug)]
+pub(crate) struct PrincipalComponentsKwargs {
+    pub(crate) k: usize,
+}
+
+pub(crate) fn principal_components_output(
+    _: &[Field],
+    kwargs: PrincipalComponentsKwargs,
+) -> PolarsResult<Field> {
+    let components: Vec<_> = (0..kwargs.k)
         .map(|i| Field::new(format!("pc{}", i + 1).into(), DataType::Float64))
         .collect();
     Ok(Field::new(
@@ -78,12 +87,14 @@ fn pl_singular_values(inputs: &[Series]) -> PolarsResult<Series> {
     Ok(out.into_series())
 }
 
-#[polars_expr(output_type_func=principal_components_output)]
-fn pl_principal_components(inputs: &[Series]) -> PolarsResult<Series> {
-    let k = inputs[0].u32()?;
-    let k = k.get(0).unwrap() as usize;
+#[polars_expr(output_type_func_with_kwargs=principal_components_output)]
+fn pl_principal_components(
+    inputs: &[Series],
+    kwargs: PrincipalComponentsKwargs,
+) -> PolarsResult<Series> {
+    let k = kwargs.k;
 
-    let mat = to_f64_matrix_fail_on_nulls(&inputs[1..], IndexOrder::Fortran)?;
+    let mat = to_f64_matrix_fail_on_nulls(inputs, IndexOrder::Fortran)?;
     let mat = mat.view().into_faer();
     let n = mat.nrows();
 
-- 
2.43.0


From 23ea7580512f7bc0cd931dce1341a0c9fb8256de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:06 +0000
Subject: [PATCH 45/78] fix: weighted_hmean uses the weights

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 64e6daf..725f1ce 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -731,7 +731,7 @@ def weighted_hmean(
     """
     w = str_to_expr(weights)
     x = str_to_expr(var)
-    dot = x.dot(pl.lit(1.0, dtype=pl.Float32) / x)
+    dot = w.dot(pl.lit(1.0, dtype=pl.Float32) / x)
     if is_normalized:
         return 1.0 / dot
     else:
-- 
2.43.0


From fed88e1440991c84c06253af6e69cba2e3d0bc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:06 +0000
Subject: [PATCH 46/78] fix: weighted_corr normalizes by the variance of y

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 725f1ce..6d685ae 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -875,7 +875,7 @@ def weighted_corr(x: str | pl.Expr, y: str | pl.Expr, weights: str | pl.Expr) ->
     w = str_to_expr(weights)
     numerator = weighted_cov(xx, yy, w)
     sxx = w.dot((xx - weighted_mean(xx, w, False)).pow(2))
-    syy = w.dot((xx - weighted_mean(yy, w, False)).pow(2))
+    syy = w.dot((yy - weighted_mean(yy, w, False)).pow(2))
     return numerator * w.sum() / (sxx * syy).sqrt()
 
 
-- 
2.43.0


From bba888c17faf5281e48bb07ebcf847653a7e893b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:06 +0000
Subject: [PATCH 47/78] fix: cosine_sim divides by the product of the norms

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 6d685ae..24a197d 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -893,7 +893,7 @@ def cosine_sim(x: str | pl.Expr, y: str | pl.Expr) -> pl.Expr:
     xx, yy = str_to_expr(x), str_to_expr(y)
     x2 = xx.dot(xx).sqrt()
     y2 = yy.dot(yy).sqrt()
-    return xx.dot(yy) / (x2 * y2).sqrt()
+    return xx.dot(yy) / (x2 * y2)
 
 
 def weighted_cosine_sim(x: str | pl.Expr, y: str | pl.Expr, weights: str | pl.Expr) -> pl.Expr:
-- 
2.43.0


From 5aab4521d7856339fdeeeb3c9da04b763ac27ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:06 +0000
Subject: [PATCH 48/78] fix: random_binomial passes n with the dtype the plugin
 reads

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 24a197d..d9dbbb5 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -635,7 +635,7 @@ def random_binomial(
         symbol="pl_rand_binomial",
         args=[
             pl.lit(length, pl.UInt32) if isinstance(length, int) else length,
-            pl.lit(n, pl.Int32),
+            pl.lit(n, pl.UInt32),
             pl.lit(p, pl.Float64),
             pl.lit(seed, pl.UInt64),
         ],
-- 
2.43.0


From 4c35178df4cebafdeb12d2db2f3cf52c1295355f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:06 +0000
Subject: [PATCH 49/78] fix: random_int accepts expressions as bounds

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index d9dbbb5..105b861 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -556,7 +556,7 @@ def random_int(
     length
         Custom length. Note length needs to match with other columns in the context.
     """
-    if lower == upper:
+    if isinstance(lower, int) and isinstance(upper, int) and lower == upper:
         raise ValueError("Input `lower` must be smaller than `higher`")
 
     lo = pl.lit(lower, pl.Int32) if isinstance(lower, int) else lower.cast(pl.Int32)
-- 
2.43.0


From 3391d8118901cfd5af7a4ff3300cac8d780c91e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:06 +0000
Subject: [PATCH 50/78] fix: mann_whitney_u is declared as returning a scalar

---
 python/polars_ds/exprs/stats.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 105b861..4264159 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -331,6 +331,7 @@ def mann_whitney_u(
     return pl_plugin(
         symbol="pl_mann_whitney_u",
         args=[u1, u2, mean, ranks.sort(), pl.lit(alternative, dtype=pl.String)],
+        returns_scalar=True,
     )
 
 
-- 
2.43.0


From 5a47ac296439ffa2cce371f5d458444987899006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:06 +0000
Subject: [PATCH 51/78] fix: random_cols honours its seed

---
 python/polars_ds/sample_and_split/sample_and_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index 5a0c40c..3560529 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -193,7 +193,7 @@ def random_cols(
     if pool_size < k:
         raise ValueError("Not enough columns to select from.")
 
-    n = random.randrange(0, math.comb(pool_size, k))
+    n = random.Random(seed).randrange(0, math.comb(pool_size, k))
     rand_cols = next(islice(to_sample, n, None), None)
     return out + list(rand_cols)
 
-- 
2.43.0


From 69c60583eb19afc6bb1a0d4911aa7f51e2285d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:06 +0000
Subject: [PATCH 52/78] fix: split_by_ratio accepts ratios that sum to 1 and
 loses no row

---
 python/polars_ds/sample_and_split/sample_and_split.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index 3560529..442fd2c 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -242,7 +242,7 @@ def split_by_ratio(
         if len(split_ratio) == 1:
             return split_by_ratio(df, split_ratio[0], seed)
         else:
-            if sum(split_ratio) != 1:
+            if not math.isclose(sum(split_ratio), 1.0):
                 raise ValueError("Sum of the ratios is not 1.")
 
             df_eager = (
@@ -256,8 +256,10 @@ def split_by_ratio(
             n = len(df_eager)
             start = 0
             dfs = []
-            for v in split_ratio:
-                length = int(n * v)
+            last = len(split_ratio) - 1
+            for i, v in enumerate(split_ratio):
+                # the last part takes all the remaining rows so that no row is lost
+                length = n - start if i == last else int(n * v)
                 dfs.append(
                     df_eager.slice(start, length=length).select(pl.col("*").exclude(["__id", "__tt"]))
                 )
-- 
2.43.0


From 3dbb511a863da3bf16ac41725d2e834b75e04fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:06 +0000
Subject: [PATCH 53/78] fix: split_by_ratio returns an empty part instead of
 raising KeyError

---
 python/polars_ds/sample_and_split/sample_and_split.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index 442fd2c..bdfae5a 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -233,10 +233,9 @@ def split_by_ratio(
                     "__tt"
                 )
             )
-            .partition_by("__tt", as_dict=True)
         )
-        train = frames[(True,)].select(pl.col("*").exclude(["__id", "__tt"]))
-        test = frames[(False,)].select(pl.col("*").exclude(["__id", "__tt"]))
+        train = frames.filter(pl.col("__tt")).select(pl.col("*").exclude(["__id", "__tt"]))
+        test = frames.filter(~pl.col("__tt")).select(pl.col("*").exclude(["__id", "__tt"]))
         return [train, test]
     else: # Should work with iterable (with a length), not just list
         if len(split_ratio) == 1:
-- 
2.43.0


From 2f4f57caed6d2edc52830b5294ec10b5de803134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:36 +0000
Subject: [PATCH 54/78] fix: mode imputation reads the mode of the non-null
 values

---
 python/polars_ds/modeling/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index bf139cc..7b1f98d 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -44,7 +44,7 @@ def impute(df: PolarsFrame, cols: List[str], method: SimpleImputeMethod = "mean"
         temp = df.lazy().select(pl.col(cols).median()).collect().row(0)
         return [pl.col(c).fill_null(m) for c, m in zip(cols, temp)]
     elif method == "mode":
-        temp = df.lazy().select(pl.col(cols).mode().list.first()).collect().row(0)
+        temp = df.lazy().select(pl.col(cols).drop_nulls().mode().first()).collect().row(0)
         return [pl.col(c).fill_null(m) for c, m in zip(cols, temp)]
     else:
         raise ValueError(f"Unknown impute method: `{method}`")
@@ -98,7 +98,7 @@ def conditional_impute(
             df.lazy()
             .select(
                 *(
-                    pl.col(c).filter(rules_dict[c].not_()).mode().list.first()
+                    pl.col(c).filter(rules_dict[c].not_()).drop_nulls().mode().first()
                     for c in rules_dict.keys()
                 )
             )
-- 
2.43.0


From 8587f85486336c4699bd9dfd5d9ae0055c1885ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:36 +0000
Subject: [PATCH 55/78] fix: permutation entropy embeds with elements tau
 periods apart

---
 python/polars_ds/exprs/ts_features.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index be1d257..e410898 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -774,10 +774,10 @@ def query_permute_entropy(
     else:
         return (
             pl.concat_list(
-                t.gather_every(tau),
-                *(t.shift(-i).gather_every(tau) for i in range(1, n_dims)),
+                t,
+                *(t.shift(-i * tau) for i in range(1, n_dims)),
             )
-            .slice(0, length=(t.len() // tau) + 1 - (n_dims // tau))
+            .head(t.len() - (n_dims - 1) * tau)
             .list.eval(pl.element().arg_sort())
             .value_counts()
             .struct.field("count")
-- 
2.43.0


From 7ccb4108c3e52256c9a52b550329e1173e2eb864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:36 +0000
Subject: [PATCH 56/78] fix: downsample keeps the rows where the condition is
 null

---
 python/polars_ds/sample_and_split/sample_and_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index bdfae5a..97aed7e 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -157,7 +157,7 @@ def downsample(
     >>>     [(pl.col("y").is_between(1, 2, closed="both"), 0.5)]
     >>> )
     """
-    all_filters = ((_sampler_expr(r, seed).over(c) | (~c)) for c, r in conditions)
+    all_filters = ((_sampler_expr(r, seed).over(c) | (~c).fill_null(True)) for c, r in conditions)
     return df.lazy().filter(pl.lit(True).and_(*all_filters)).collect()
 
 
-- 
2.43.0


From 386fbe9467e8ddb194cdac5e721379cdc732479f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:36 +0000
Subject: [PATCH 57/78] fix: ensure_features_in compares the renamed columns

---
 python/polars_ds/modeling/pipeline.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/polars_ds/modeling/pipeline.py b/python/polars_ds/modeling/pipeline.py
index cfea244..a08b658 100644
--- a/python/polars_ds/modeling/pipeline.py
+++ b/python/polars_ds/modeling/pipeline.py
@@ -238,6 +238,10 @@ class Pipeline:
         """
         if self.ensure_features_in:
             columns = df.lazy().collect_schema().names()
+            if self.lowercase:
+                columns = [c.lower() for c in columns]
+            elif self.uppercase:
+                columns = [c.upper() for c in columns]
             extras = [c for c in columns if c not in self.feature_names_in_]
             missing = [c for c in self.feature_names_in_ if c not in columns]
             if len(extras) > 0 or len(missing) > 0:
-- 
2.43.0


From 7c3798fabd94b39cacd115e2f998f293f4d69277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:43 +0000
Subject: [PATCH 58/78] fix: mann_whitney_u counts the last group of ties

---
 src/stats/mann_whitney_u.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/stats/mann_whitney_u.rs b/src/stats/mann_whitney_u.rs
index 1d3c390..507fe2b 100644
--- a/src/stats/mann_whitney_u.rs
+++ b/src/stats/mann_whitney_u.rs
@@ -18,7 +18,8 @@ fn mann_whitney_tie_sum(ranks: &Float64Chunked) -> f64 {
             rank_cnt = 1.0;
         }
     }
-    accumulant
+    // The last group of ties
+    accumulant + rank_cnt * (rank_cnt + 1.0) * (rank_cnt - 1.0)
 }
 
 #[polars_expr(output_type_func=simple_stats_output)]
@@ -52,7 +53,8 @@ fn pl_mann_whitney_u(inputs: &[Series]) -> PolarsResult<Series> {
     };
 
     let p = if std_ == 0. {
-        0.
+        // All values are tied, no evidence against the null hypothesis
+        1.
     } else {
         // -0.5 is some continuity adjustment. See Scipy's impl
         (factor * normal::sf_unchecked(u, mean + 0.5, std_)).clamp(0., 1.)
-- 
2.43.0


From bf80136fe8a1c10a2a73ef71301fcd443183c449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:43 +0000
Subject: [PATCH 59/78] fix: normal_test keeps the sign in the kurtosis
 statistic

---
 src/stats/normal_test.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stats/normal_test.rs b/src/stats/normal_test.rs
index fca4eab..6650c5c 100644
--- a/src/stats/normal_test.rs
+++ b/src/stats/normal_test.rs
@@ -45,7 +45,7 @@ fn kurtosis_test_statistic(kur: f64, n: usize) -> f64 {
         f64::NAN
     } else {
         let term1 = 1. - tmp;
-        let term2 = ((1. - 2. / a) / denom.abs()).cbrt();
+        let term2 = ((1. - 2. / a) / denom).cbrt();
         let z = (term1 - term2) / tmp.sqrt();
         z
     }
-- 
2.43.0


From 4eb975f79ea8b72bdc2c49d09b6e570041e2fe6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:43 +0000
Subject: [PATCH 60/78] fix: ks_2samp runs on samples of 30 values

---
 src/stats/ks.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stats/ks.rs b/src/stats/ks.rs
index a930f11..7b9ee69 100644
--- a/src/stats/ks.rs
+++ b/src/stats/ks.rs
@@ -63,7 +63,7 @@ fn pl_ks_2samp(inputs: &[Series]) -> PolarsResult<Series> {
     let alpha = inputs[2].f64()?;
     let alpha = alpha.get(0).unwrap();
 
-    if (s1.len() <= 30) || (s2.len() <= 30) {
+    if (s1.len() < 30) || (s2.len() < 30) {
         generic_stats_output(0f64, f64::NAN)
     } else {
         let v1 = s1.cont_slice().unwrap();
-- 
2.43.0


From 837fd244144d83903a8c003fc19768ea370ce9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:43 +0000
Subject: [PATCH 61/78] fix: random_str declares a string output

---
 src/stats/sample.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stats/sample.rs b/src/stats/sample.rs
index e95c2db..d3eacb0 100644
--- a/src/stats/sample.rs
+++ b/src/stats/sample.rs
@@ -184,7 +184,7 @@ fn pl_rand_normal(inputs: &[Series]) -> PolarsResult<Series> {
     }
 }
 
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type=String)]
 fn pl_rand_str(inputs: &[Series]) -> PolarsResult<Series> {
     let len = inputs[0].u32()?;
     let len = len.get(0).unwrap() as usize;
-- 
2.43.0


From 654be98290ed082c767a3b2e840051f4b1c68301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:43 +0000
Subject: [PATCH 62/78] fix: sqzl2 query longer than the series is an error as
 for sql2

---
 src/num_ext/subseq_sim.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/num_ext/subseq_sim.rs b/src/num_ext/subseq_sim.rs
index e50eb2a..8c392e1 100644
--- a/src/num_ext/subseq_sim.rs
+++ b/src/num_ext/subseq_sim.rs
@@ -76,6 +76,12 @@ fn pl_subseq_sim_cnt_zl2(
     let query = inputs[1].f64()?; // is already z normalized
     let query = query.cont_slice().unwrap();
 
+    if query.len() > seq.len() {
+        return Err(PolarsError::ComputeError(
+            "Not enough data points for the query.".into(),
+        ));
+    }
+
     let rolling_mean = inputs[2].f64()?;
     let rolling_mean = rolling_mean.cont_slice()?;
     let rolling_var = inputs[3].f64()?;
-- 
2.43.0


From e8d303baa8b2bdd6583c913137de575cf0246283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:28 +0000
Subject: [PATCH 63/78] fix: geometric means use the logarithm of polars
 expressions

---
 python/polars_ds/exprs/stats.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 4264159..53eb07f 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -748,7 +748,7 @@ def gmean(var: str | pl.Expr) -> pl.Expr:
     var
         The variable
     """
-    return str_to_expr(var).ln().mean().exp()
+    return str_to_expr(var).log().mean().exp()
 
 
 def weighted_gmean(
@@ -768,9 +768,9 @@ def weighted_gmean(
     """
     x, w = str_to_expr(var), str_to_expr(weights)
     if is_normalized:
-        return (x.ln().dot(w)).exp()
+        return (x.log().dot(w)).exp()
     else:
-        return (x.ln().dot(w) / (w.sum())).exp()
+        return (x.log().dot(w) / (w.sum())).exp()
 
 
 def weighted_mean(
-- 
2.43.0


From bd0eb3e5bc6e4debe3891b49e52d08f7886febf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:09 +0000
Subject: [PATCH 64/78] fix: rename keeps a renamed column whose new name is
 also an old name

---
 python/polars_ds/modeling/pipeline.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/modeling/pipeline.py b/python/polars_ds/modeling/pipeline.py
index a08b658..803cb81 100644
--- a/python/polars_ds/modeling/pipeline.py
+++ b/python/polars_ds/modeling/pipeline.py
@@ -647,12 +647,15 @@ class Blueprint:
             The name mapping
         """
         old = list(rename_dict.keys())
+        new = list(rename_dict.values())
+        # One step, so that a new name may also be one of the old names
         self._steps.append(
             PipelineStep(
-                [pl.col(k).alias(v) for k, v in rename_dict.items()], PLContext.WITH_COLUMNS
+                [pl.all().exclude(old + new)] + [pl.col(k).alias(v) for k, v in rename_dict.items()],
+                PLContext.SELECT,
             )
         )
-        return self.drop(old)
+        return self
 
     def one_hot_encode(
         self,
-- 
2.43.0


From d805740df627804bda6a47b7ef11eceed3c75c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:27 +0000
Subject: [PATCH 65/78] fix: polynomial features can be serialized with the
 pipeline

---
 python/polars_ds/modeling/transforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index 7b1f98d..7ec8128 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -606,13 +606,15 @@ def polynomial_features(
     interaction_only
         It true, only combinations that involve 2 or more variables will be used.
     """
+    from functools import reduce
     from itertools import combinations_with_replacement
 
     if degree <= 1:
         raise ValueError("Degree should be > 1.")
 
     return list(
-        pl.reduce(function=lambda acc, x: acc * x, exprs=list(comb)).alias("*".join(comb))
+        # Plain products, because pl.reduce creates an expression which cannot be serialized
+        reduce(lambda acc, x: acc * x, (pl.col(c) for c in comb)).alias("*".join(comb))
         for comb in combinations_with_replacement(cols, degree)
         if ((not interaction_only) or len(set(comb)) > 1)
     )
-- 
2.43.0


From 75796478df083d9f90ddb657680803bfe5cf46be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:21 +0000
Subject: [PATCH 66/78] fix: imputation of an integer column survives the
 serialization of a pipeline

---
 python/polars_ds/modeling/transforms.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index 7ec8128..be9ab32 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -23,6 +23,14 @@ import polars_ds.exprs.num as pds_num
 import polars_ds.exprs.expr_linear as lr
 
 
+def _fill_null(c: str, value) -> pl.Expr:
+    """
+    Same as `pl.col(c).fill_null(value)`. But the casts in that do not survive the serialization of
+    a pipeline, e.g. when the mean is filled in an integer column.
+    """
+    return pl.when(pl.col(c).is_null()).then(pl.lit(value)).otherwise(pl.col(c)).alias(c)
+
+
 def impute(df: PolarsFrame, cols: List[str], method: SimpleImputeMethod = "mean") -> ExprTransform:
     """
     Impute null values in the given columns. This transform will collect if input is lazy.
@@ -39,13 +47,13 @@ def impute(df: PolarsFrame, cols: List[str], method: SimpleImputeMethod = "mean"
     """
     if method == "mean":
         temp = df.lazy().select(pl.col(cols).mean()).collect().row(0)
-        return [pl.col(c).fill_null(m) for c, m in zip(cols, temp)]
+        return [_fill_null(c, m) for c, m in zip(cols, temp)]
     elif method == "median":
         temp = df.lazy().select(pl.col(cols).median()).collect().row(0)
-        return [pl.col(c).fill_null(m) for c, m in zip(cols, temp)]
+        return [_fill_null(c, m) for c, m in zip(cols, temp)]
     elif method == "mode":
         temp = df.lazy().select(pl.col(cols).drop_nulls().mode().first()).collect().row(0)
-        return [pl.col(c).fill_null(m) for c, m in zip(cols, temp)]
+        return [_fill_null(c, m) for c, m in zip(cols, temp)]
     else:
         raise ValueError(f"Unknown impute method: `{method}`")
 
-- 
2.43.0


From d4ea9df2147de5ea4aa1b1f3d3b94f743b720a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:21 +0000
Subject: [PATCH 67/78] fix: conditional imputation with the mode of a string
 column

---
 python/polars_ds/modeling/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index be9ab32..6453ee7 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -114,7 +114,7 @@ def conditional_impute(
             .row(0)
         )
         return [
-            pl.when(rules_dict[c]).then(m).otherwise(pl.col(c)).alias(c) for c, m in zip(cols, temp)
+            pl.when(rules_dict[c]).then(pl.lit(m)).otherwise(pl.col(c)).alias(c) for c, m in zip(cols, temp)
         ]
     else:
         raise ValueError(f"Unknown impute method: `{method}`")
-- 
2.43.0


From e2a32836d82ff56434754d521a37c594c61afa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:35 +0000
Subject: [PATCH 68/78] fix: Blueprint.nan_to_null uses a method polars
 expressions have

---
 python/polars_ds/modeling/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/modeling/pipeline.py b/python/polars_ds/modeling/pipeline.py
index 803cb81..b907477 100644
--- a/python/polars_ds/modeling/pipeline.py
+++ b/python/polars_ds/modeling/pipeline.py
@@ -437,7 +437,7 @@ class Blueprint:
         """
         Maps NaN values in all columns to null.
         """
-        self._steps.append(PipelineStep(cs.float().nan_to_null(), PLContext.WITH_COLUMNS))
+        self._steps.append(PipelineStep(cs.float().fill_nan(None), PLContext.WITH_COLUMNS))
         return self
 
     def int_to_float(self, f32: bool = True) -> Self:
-- 
2.43.0


From ae8abcff9cbded830eb424b0f2734f138222480f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 69/78] fix: target encoding of categorical columns

---
 python/polars_ds/modeling/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index 6453ee7..bc5166b 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -477,7 +477,7 @@ def target_encode(
 
     temp = temp.select(
         pds_num.target_encode(
-            c, target, min_samples_leaf=min_samples_leaf, smoothing=smoothing
+            pl.col(c).cast(pl.String), target, min_samples_leaf=min_samples_leaf, smoothing=smoothing
         ).implode()
         for c in valid_cols
     ).collect()  # add collect config..
-- 
2.43.0


From 24e3e5bf4f6dc7a375091557617eab518d816c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 70/78] fix: infer_discrete includes the boolean and
 categorical columns

---
 python/polars_ds/eda/diagnosis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index 07257ef..7126709 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -566,7 +566,7 @@ class DIA:
             .row(0)
         )
 
-        return [c for c, ok in zip(to_check, is_ok) if ok is True]
+        return out + [c for c, ok in zip(to_check, is_ok) if ok is True]
 
     @lru_cache
     def infer_const(self, include_null: bool = False) -> List[str]:
-- 
2.43.0


From 91bed9aa5314ea1908c9aea2185fa6d2aeb90d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 71/78] Revert "fix: normal_test keeps the sign in the kurtosis
 statistic"

This reverts commit bf80136fe8a1c10a2a73ef71301fcd443183c449.
---
 src/stats/normal_test.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stats/normal_test.rs b/src/stats/normal_test.rs
index 6650c5c..fca4eab 100644
--- a/src/stats/normal_test.rs
+++ b/src/stats/normal_test.rs
@@ -45,7 +45,7 @@ fn kurtosis_test_statistic(kur: f64, n: usize) -> f64 {
         f64::NAN
     } else {
         let term1 = 1. - tmp;
-        let term2 = ((1. - 2. / a) / denom).cbrt();
+        let term2 = ((1. - 2. / a) / denom.abs()).cbrt();
         let z = (term1 - term2) / tmp.sqrt();
         z
     }
-- 
2.43.0


From 94b279c48b8923fe901da05b1e72c5c988cfe237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:49 +0000
Subject: [PATCH 72/78] fix: radius, count and kth-distance queries of an empty
 frame give an empty answer instead of failing

---
 src/num_ext/knn.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/num_ext/knn.rs b/src/num_ext/knn.rs
index 8601889..19b81e7 100644
--- a/src/num_ext/knn.rs
+++ b/src/num_ext/knn.rs
@@ -242,7 +242,7 @@ fn pl_dist_from_kth_nb(
             let mut leaves: Vec<Leaf<f64, ()>> =
                 data.chunks_exact(ncols).map(|sl| ((), sl).into()).collect();
             // let mut leaves = row_major_slice_to_leaves(&data, ncols, id, null_mask);
-            let tree = KDT::from_leaves_unchecked(&mut leaves, d);
+            let tree = tree_from_leaves(&mut leaves, ncols, d);
             let nrows = data.len() / ncols;
             let ca = if can_parallel {
                 let n_threads = POOL.current_num_threads();
@@ -586,7 +586,7 @@ fn pl_query_radius_ptwise(
     match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
         Ok(d) => {
             let mut leaves = slice_to_leaves(&data, ncols, id);
-            let tree = KDT::from_leaves_unchecked(&mut leaves, d);
+            let tree = tree_from_leaves(&mut leaves, ncols, d);
             Ok(query_radius_ptwise(tree, &data, radius, can_parallel, sort).into_series())
         }
         Err(e) => Err(PolarsError::ComputeError(e.into())),
@@ -691,7 +691,7 @@ fn pl_nb_cnt(inputs: &[Series], context: CallerContext, kwargs: KDTKwargs) -> Po
         match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
             Ok(d) => {
                 let mut leaves = slice_to_empty_leaves(&data, ncols);
-                let tree = KDT::from_leaves_unchecked(&mut leaves, d);
+                let tree = tree_from_leaves(&mut leaves, ncols, d);
                 Ok(query_nb_cnt(tree, &data, r, can_parallel)
                     .with_name("cnt".into())
                     .into_series())
@@ -702,7 +702,7 @@ fn pl_nb_cnt(inputs: &[Series], context: CallerContext, kwargs: KDTKwargs) -> Po
         match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
             Ok(d) => {
                 let mut leaves = slice_to_empty_leaves(&data, ncols);
-                let tree = KDT::from_leaves_unchecked(&mut leaves, d);
+                let tree = tree_from_leaves(&mut leaves, ncols, d);
                 Ok(query_nb_cnt_w_radius(tree, &data, radius, can_parallel)
                     .with_name("cnt".into())
                     .into_series())
-- 
2.43.0


From 4c37158c43e1553f7c42706519fc9beabb8f774f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:59 +0000
Subject: [PATCH 73/78] fix: a missing scalar radius gives missing counts
 instead of failing

---
 src/num_ext/knn.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/knn.rs b/src/num_ext/knn.rs
index 19b81e7..e778b79 100644
--- a/src/num_ext/knn.rs
+++ b/src/num_ext/knn.rs
@@ -687,7 +687,11 @@ fn pl_nb_cnt(inputs: &[Series], context: CallerContext, kwargs: KDTKwargs) -> Po
     let nrows = data.len() / ncols;
 
     if radius.len() == 1 {
-        let r = radius.get(0).unwrap();
+        let r = match radius.get(0) {
+            Some(r) => r,
+            // A missing radius has a missing answer, as in the row by row case
+            None => return Ok(Series::full_null("cnt".into(), nrows, &DataType::UInt32)),
+        };
         match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
             Ok(d) => {
                 let mut leaves = slice_to_empty_leaves(&data, ncols);
-- 
2.43.0


From 9b08d13313b45f445bb9795ed2396dffc24dbc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:30 +0000
Subject: [PATCH 74/78] fix: a column named literal was overwritten by the
 intercept

---
 src/num_ext/linear_regression.rs     | 18 ++++++++++++++++--
 src/num_ext/linear_regression_f32.rs | 18 ++++++++++++++++--
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index e454ab2..d077e83 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -151,7 +151,14 @@ fn series_to_mat_for_lstsq(
     }
     // Add a constant column if has_bias
     if has_bias {
-        df = df.lazy().with_column(lit(1f64)).collect()?;
+        // Longer than any name in the data, so no column is overwritten
+        let bias_name = inputs
+            .iter()
+            .fold(String::from("__bias__"), |acc, s| acc + s.name().as_str());
+        df = df
+            .lazy()
+            .with_column(lit(1f64).alias(bias_name))
+            .collect()?;
     }
 
     // In mask, true means not null.
@@ -274,7 +281,14 @@ fn series_to_mat_for_multi_lstsq(
     }?;
 
     if has_bias {
-        df = df.lazy().with_column(lit(1f64)).collect()?;
+        // Longer than any name in the data, so no column is overwritten
+        let bias_name = inputs
+            .iter()
+            .fold(String::from("__bias__"), |acc, s| acc + s.name().as_str());
+        df = df
+            .lazy()
+            .with_column(lit(1f64).alias(bias_name))
+            .collect()?;
     }
 
     if df.is_empty() {
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 120f93b..4c06364 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -93,7 +93,14 @@ fn series_to_mat_for_lstsq_f32(
     }
     // Add a constant column if has_bias
     if has_bias {
-        df = df.lazy().with_column(lit(1f32)).collect()?;
+        // Longer than any name in the data, so no column is overwritten
+        let bias_name = inputs
+            .iter()
+            .fold(String::from("__bias__"), |acc, s| acc + s.name().as_str());
+        df = df
+            .lazy()
+            .with_column(lit(1f32).alias(bias_name))
+            .collect()?;
     }
 
     // In mask, true means not null.
@@ -216,7 +223,14 @@ fn series_to_mat_for_multi_lstsq_f32(
     }?;
 
     if has_bias {
-        df = df.lazy().with_column(lit(1f32)).collect()?;
+        // Longer than any name in the data, so no column is overwritten
+        let bias_name = inputs
+            .iter()
+            .fold(String::from("__bias__"), |acc, s| acc + s.name().as_str());
+        df = df
+            .lazy()
+            .with_column(lit(1f32).alias(bias_name))
+            .collect()?;
     }
 
     if df.is_empty() {
-- 
2.43.0


From f31d609a3e98869eba0bed3b7f07dfc9f3b5e889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:30 +0000
Subject: [PATCH 75/78] fix: predictions under the ignore policy had one row
 when a value was missing

---
 src/num_ext/linear_regression.rs     | 4 +++-
 src/num_ext/linear_regression_f32.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index d077e83..995b829 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -166,8 +166,10 @@ fn series_to_mat_for_lstsq(
     let init_mask = inputs[0].is_not_null();
     let (df, mask) = if has_null {
         match null_policy {
+            // ignore drops no row, so there is nothing to mask
+            NullPolicy::IGNORE => Ok((df, BooleanChunked::from_slice("".into(), &[true]))),
             // Like ignore, skip_window takes the raw data. The actual skip is done in the underlying function in linalg.
-            NullPolicy::IGNORE | NullPolicy::SKIP_WINDOW => {
+            NullPolicy::SKIP_WINDOW => {
                 // false, because it has nulls
                 Ok((df, BooleanChunked::from_slice("".into(), &[false])))
             }
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 4c06364..0f526ee 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -108,8 +108,10 @@ fn series_to_mat_for_lstsq_f32(
     let init_mask = inputs[0].is_not_null();
     let (df, mask) = if has_null {
         match null_policy {
+            // ignore drops no row, so there is nothing to mask
+            NullPolicy::IGNORE => Ok((df, BooleanChunked::from_slice("".into(), &[true]))),
             // Like ignore, skip_window takes the raw data. The actual skip is done in the underlying function in linalg.
-            NullPolicy::IGNORE | NullPolicy::SKIP_WINDOW => {
+            NullPolicy::SKIP_WINDOW => {
                 // false, because it has nulls
                 Ok((df, BooleanChunked::from_slice("".into(), &[false])))
             }
-- 
2.43.0


From 1288ebb5b3ef733c18360e1a4de08bcef0492fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:26 +0000
Subject: [PATCH 76/78] fix: rolling and recursive regressions failed when
 there are fewer rows than the window

---
 src/linalg/lr_online_solvers.rs      | 16 ++++++++++++++--
 src/num_ext/linear_regression.rs     |  4 ++--
 src/num_ext/linear_regression_f32.rs |  4 ++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index 50683b5..3089822 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -169,6 +169,10 @@ pub fn faer_recursive_lstsq<T: RealField + Float>(
     has_bias: bool,
 ) -> Vec<Mat<T>> {
     let xn = x.nrows();
+    if xn < n {
+        // There is no full window
+        return Vec::new();
+    }
     // x: size xn x m
     // y: size xn x 1
     // Vector of matrix of size m x 1
@@ -202,10 +206,14 @@ pub fn faer_rolling_lstsq<T: RealField + Float>(
     has_bias: bool,
 ) -> Vec<Mat<T>> {
     let xn = x.nrows();
+    if xn < n {
+        // There is no full window
+        return Vec::new();
+    }
     // x: size xn x m
     // y: size xn x 1
     // Vector of matrix of size m x 1
-    let mut coefficients = Vec::with_capacity(xn - n + 1); // xn >= n is checked in Python
+    let mut coefficients = Vec::with_capacity(xn - n + 1);
 
     let x0 = x.get(..n, ..);
     let y0 = y.get(..n, ..);
@@ -244,12 +252,16 @@ pub fn faer_rolling_skipping_lstsq<T: RealField + Float>(
     has_bias: bool,
 ) -> Vec<Mat<T>> {
     let xn = x.nrows();
+    if xn < n {
+        // There is no full window
+        return Vec::new();
+    }
     let ncols = x.ncols();
     // x: size xn x m
     // y: size xn x 1
     // n is window size. m is min_window_size after skipping null rows. n >= m > 0.
     // Vector of matrix of size m x 1
-    let mut coefficients = Vec::with_capacity(xn - n + 1); // xn >= n is checked in Python
+    let mut coefficients = Vec::with_capacity(xn - n + 1);
 
     // Initialize the problem.
     let mut non_null_cnt_in_window = 0;
diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 995b829..5459b7e 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -955,7 +955,7 @@ fn pl_recursive_lstsq(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResult
                 }
             } else {
                 // n always > 1, guaranteed in Python
-                let m = n.abs_diff(1);
+                let m = n.abs_diff(1).min(mat.nrows());
                 for _ in 0..m {
                     builder.append_null();
                     pred_builder.append_null();
@@ -1022,7 +1022,7 @@ fn pl_rolling_lstsq(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResult<S
             let mut pred_builder: PrimitiveChunkedBuilder<Float64Type> =
                 PrimitiveChunkedBuilder::new("pred".into(), mat.nrows());
 
-            let m = n - 1; // n >= 2 guaranteed in Python
+            let m = (n - 1).min(mat.nrows()); // n >= 2 guaranteed in Python
             for _ in 0..m {
                 builder.append_null();
                 pred_builder.append_null();
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 0f526ee..b290f93 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -903,7 +903,7 @@ fn pl_recursive_lstsq_f32(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsRe
                 }
             } else {
                 // n always > 1, guaranteed in Python
-                let m = n.abs_diff(1);
+                let m = n.abs_diff(1).min(mat.nrows());
                 for _ in 0..m {
                     builder.append_null();
                     pred_builder.append_null();
@@ -970,7 +970,7 @@ fn pl_rolling_lstsq_f32(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResu
             let mut pred_builder: PrimitiveChunkedBuilder<Float32Type> =
                 PrimitiveChunkedBuilder::new("pred".into(), mat.nrows());
 
-            let m = n - 1; // n >= 2 guaranteed in Python
+            let m = (n - 1).min(mat.nrows()); // n >= 2 guaranteed in Python
             for _ in 0..m {
                 builder.append_null();
                 pred_builder.append_null();
-- 
2.43.0


From bbd1aff8dc1ec40a150f482ac251298e4361e499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:15 +0000
Subject: [PATCH 77/78] fix: class probability inference of DIA only looked at
 the first row of a list column

---
 python/polars_ds/eda/diagnosis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index 7126709..f0d20ba 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -507,7 +507,9 @@ class DIA:
                         & (
                             pl.col(c).list.len().min() == pl.col(c).list.len().max()
                         )  # class prob column must have the same length
-                    ).alias(c)
+                    )
+                    .all()  # in every row
+                    .alias(c)
                     for c in self.list_floats
                 ),
             )
-- 
2.43.0


From 5497a03e4361154f798130523699fcc5a5e92b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:55 +0000
Subject: [PATCH 78/78] fix: partitions whose key values join to the same name
 replaced each other and lost rows

---
 python/polars_ds/partition/partition.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/python/polars_ds/partition/partition.py b/python/polars_ds/partition/partition.py
index 4d838e8..3efed23 100644
--- a/python/polars_ds/partition/partition.py
+++ b/python/polars_ds/partition/partition.py
@@ -48,10 +48,14 @@ class PartitionHelper():
             if not all_ok:
                 raise ValueError("Currently this only supports partitions by str, bool or categorical columns.")
 
-            self.parts = {
-                separator.join((str(k) for k in keys)): value
-                for keys, value in df.lazy().collect().partition_by(by=by, as_dict=True).items()
-            }
+            self.parts = {}
+            for keys, value in df.lazy().collect().partition_by(by=by, as_dict=True).items():
+                name = separator.join((str(k) for k in keys))
+                if name in self.parts:
+                    raise ValueError(
+                        f"Two different parts have the same name: {name}. Please use another separator."
+                    )
+                self.parts[name] = value
 
     def __repr__(self) -> str:
         output = ""
-- 
2.43.0

