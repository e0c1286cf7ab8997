From 7b79d1d96f7884a9aea19b81b738c760bce16cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:34 +0000
Subject: [PATCH 01/59] fix: Cholesky reports NotPositiveDefinite for a NaN
 radicand

---
 crates/multicalc/src/linear_algebra/cholesky.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/multicalc/src/linear_algebra/cholesky.rs b/crates/multicalc/src/linear_algebra/cholesky.rs
index 702922f..ed6f210 100644
--- a/crates/multicalc/src/linear_algebra/cholesky.rs
+++ b/crates/multicalc/src/linear_algebra/cholesky.rs
@@ -47,7 +47,7 @@ impl<const N: usize, T: Numeric> Matrix<N, N, T> {
             for k in 0..j {
                 diag -= lower[(j, k)] * lower[(j, k)];
             }
-            if diag <= T::ZERO {
+            if diag <= T::ZERO || diag.is_nan() {
                 return Err(LinalgError::NotPositiveDefinite);
             }
             let ljj = diag.sqrt();
-- 
2.43.0


From c844baa0de0d9c3325a85ef7d001ff1b31bfcb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:34 +0000
Subject: [PATCH 02/59] fix: closed-form inverse no longer rejects
 well-conditioned matrices at extreme scales

---
 crates/multicalc/src/linear_algebra/matrix.rs | 27 ++++++++++++++++---
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/crates/multicalc/src/linear_algebra/matrix.rs b/crates/multicalc/src/linear_algebra/matrix.rs
index 52dc02c..e7cfccb 100644
--- a/crates/multicalc/src/linear_algebra/matrix.rs
+++ b/crates/multicalc/src/linear_algebra/matrix.rs
@@ -267,11 +267,13 @@ impl<const ROWS: usize, const COLS: usize, T: Numeric> Matrix<ROWS, COLS, T> {
         best
     }
 
-    /// `true` when `|det|` is at or below `EPSILON * n * scale^n`.
+    /// `true` when `|det|` is at or below `EPSILON * n * scale^n`, or outside the range
+    /// the scalar carries at full precision.
     #[inline]
     #[must_use]
     fn det_near_singular(det: T, scale: T, n: usize) -> bool {
         det.abs() <= T::EPSILON * T::from_usize(n) * scale.powi(n as i32)
+            || (n > 1 && (det.abs() < T::MIN_POSITIVE || det.is_infinite()))
     }
 }
 
@@ -443,13 +445,30 @@ impl<const N: usize, T: Numeric> Matrix<N, N, T> {
         match N {
             0 => Ok(self),
             1 => self.inverse_1x1(),
-            2 => self.inverse_2x2(),
-            3 => self.inverse_3x3(),
-            4 => self.inverse_4x4(),
+            2 => self.within_range_or_lu(self.inverse_2x2()),
+            3 => self.within_range_or_lu(self.inverse_3x3()),
+            4 => self.within_range_or_lu(self.inverse_4x4()),
             _ => self.inverse_lu(),
         }
     }
 
+    /// Keeps a closed-form result, unless it failed because `scale^n` left the scalar's range, where
+    /// the determinant test says nothing about the matrix; those go through LU instead.
+    fn within_range_or_lu(
+        self,
+        closed_form: Result<Self, LinalgError>,
+    ) -> Result<Self, LinalgError> {
+        match closed_form {
+            Ok(inverse) if inverse.is_finite() => return Ok(inverse),
+            _ => {}
+        }
+        let magnitude = self.max_abs().powi(N as i32);
+        if magnitude * T::EPSILON > T::MIN_POSITIVE && magnitude < T::MAX * T::EPSILON {
+            return closed_form;
+        }
+        self.inverse_lu().map_err(|_| LinalgError::Singular)
+    }
+
     #[inline]
     fn inverse_1x1(mut self) -> Result<Self, LinalgError> {
         let value = self.data[0][0];
-- 
2.43.0


From 8e39f98ad4955a243c678087b5256b49af1ae2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:52 +0000
Subject: [PATCH 03/59] fix: Matrix::expm never returned when a column sum
 overflowed

---
 crates/multicalc/src/linear_algebra/expm.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/multicalc/src/linear_algebra/expm.rs b/crates/multicalc/src/linear_algebra/expm.rs
index 974f3f9..08f68db 100644
--- a/crates/multicalc/src/linear_algebra/expm.rs
+++ b/crates/multicalc/src/linear_algebra/expm.rs
@@ -35,6 +35,11 @@ impl<const N: usize, T: Numeric> Matrix<N, N, T> {
                 nrm = col;
             }
         }
+        // Finite entries can still sum past the largest number, and no amount of halving would
+        // bring such a norm down.
+        if !nrm.is_finite() {
+            return Err(LinalgError::NonFinite);
+        }
         // Scale so ‖A / 2^s‖₁ ≤ 1/2. `squares` is that exponent and depends only on the primal, so it is AD-safe.
         let mut squares: i32 = 0;
         let mut scaled = nrm;
-- 
2.43.0


From aaa158dc749e8f70a377f2ae23194719f9560712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:52 +0000
Subject: [PATCH 04/59] fix: solve_discrete_lyapunov judged convergence against
 1 instead of the answer's own size

---
 crates/multicalc/src/linear_algebra/lyapunov.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/multicalc/src/linear_algebra/lyapunov.rs b/crates/multicalc/src/linear_algebra/lyapunov.rs
index ea3689e..24680ac 100644
--- a/crates/multicalc/src/linear_algebra/lyapunov.rs
+++ b/crates/multicalc/src/linear_algebra/lyapunov.rs
@@ -78,7 +78,7 @@ pub fn solve_discrete_lyapunov<const N: usize, T: Numeric>(
         if !total.is_finite() || !increment_size.is_finite() || !total_size.is_finite() {
             return Err(LinalgError::DidNotConverge { iters: pass + 1 });
         }
-        let settled = increment_size <= T::EPSILON_X30 * total_size.max(T::ONE);
+        let settled = increment_size <= T::EPSILON_X30 * total_size;
         if settled {
             return Ok(total);
         }
-- 
2.43.0


From 5fc0f8e64aace8bd4d31bbd4ccb3de432856496e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:52 +0000
Subject: [PATCH 05/59] fix: solve_discrete_riccati accepted unsettled answers
 for small costs and refused cheap-input systems

---
 .../multicalc/src/linear_algebra/riccati.rs   | 25 +++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/crates/multicalc/src/linear_algebra/riccati.rs b/crates/multicalc/src/linear_algebra/riccati.rs
index 6081080..29d0c97 100644
--- a/crates/multicalc/src/linear_algebra/riccati.rs
+++ b/crates/multicalc/src/linear_algebra/riccati.rs
@@ -72,10 +72,15 @@ pub fn solve_discrete_riccati<const N: usize, const M: usize, T: Numeric>(
     let mut cost = state_cost;
     let mut passes_taken = MAXIMUM_PASSES;
     for pass in 0..MAXIMUM_PASSES {
-        let coupling = (Matrix::<N, N, T>::identity() + reach * cost).inverse()?;
-        let folded = coupling * state;
+        // Solved against rather than inverted: a cheap input makes one direction of `reach * cost`
+        // far larger than the rest, which pivoting takes in its stride and a determinant test does
+        // not.
+        let coupling = (Matrix::<N, N, T>::identity() + reach * cost)
+            .lu_decompose()
+            .map_err(|_| LinalgError::Singular)?;
+        let folded = coupling.solve_matrix(state);
         let cost_increment = state.transpose() * cost * folded;
-        let reach_increment = state * (coupling * reach) * state.transpose();
+        let reach_increment = state * coupling.solve_matrix(reach) * state.transpose();
 
         let next_state = state * folded;
         // Averaging each pair across the diagonal keeps rounding from tilting these as the passes
@@ -100,7 +105,7 @@ pub fn solve_discrete_riccati<const N: usize, const M: usize, T: Numeric>(
         {
             return Err(LinalgError::DidNotConverge { iters: pass + 1 });
         }
-        if increment_size <= T::EPSILON_X30 * cost_size.max(T::ONE) {
+        if increment_size <= T::EPSILON_X30 * cost_size {
             passes_taken = pass + 1;
             break;
         }
@@ -112,12 +117,18 @@ pub fn solve_discrete_riccati<const N: usize, const M: usize, T: Numeric>(
     let coupling_term = b.transpose() * cost * a;
     let correction =
         coupling_term.transpose() * input_weight_factor.solve_matrix::<N>(coupling_term);
-    let residual = a.transpose() * cost * a - cost - correction + state_cost;
+    let carried = a.transpose() * cost * a;
+    let residual = carried - cost - correction + state_cost;
 
     // Deliberately looser than the settling test the passes use: the leftover is built from
     // several matrix products, so it carries far more rounding than the answer itself, and a
-    // tighter bound would turn away correct answers on badly scaled systems.
-    let allowed = T::EPSILON.sqrt() * cost.frobenius_norm().max(T::ONE);
+    // tighter bound would turn away correct answers on badly scaled systems. Measured against the
+    // terms it is built from, so that scaling both costs together does not change the verdict.
+    let terms = carried.frobenius_norm()
+        + cost.frobenius_norm()
+        + correction.frobenius_norm()
+        + state_cost.frobenius_norm();
+    let allowed = T::EPSILON.sqrt() * terms;
     if !residual.is_finite() || residual.frobenius_norm() > allowed {
         return Err(LinalgError::DidNotConverge {
             iters: passes_taken,
-- 
2.43.0


From 1818751f800fcadab24f4ef8ee71fd4540011821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:33 +0000
Subject: [PATCH 06/59] fix: autodiff copysign and Jet::abs mishandled negative
 zero

---
 crates/multicalc/src/scalar/dual.rs       |  5 +++--
 crates/multicalc/src/scalar/hyper_dual.rs |  7 ++-----
 crates/multicalc/src/scalar/jet.rs        | 13 +++++--------
 3 files changed, 10 insertions(+), 15 deletions(-)

diff --git a/crates/multicalc/src/scalar/dual.rs b/crates/multicalc/src/scalar/dual.rs
index bebd0f5..de7d9ab 100644
--- a/crates/multicalc/src/scalar/dual.rs
+++ b/crates/multicalc/src/scalar/dual.rs
@@ -360,10 +360,11 @@ impl<T: Numeric> Numeric for Dual<T> {
     /// sign when `self` and `sign` disagree; the sign argument carries no derivative.
     #[inline]
     fn copysign(self, sign: Self) -> Self {
-        let same = (self.value < T::ZERO) == (sign.value < T::ZERO);
+        // Read off the sign bits, since `-0` counts as negative to `copysign` but not to `<`.
+        let sign_scale = T::ONE.copysign(self.value) * T::ONE.copysign(sign.value);
         Dual {
             value: self.value.copysign(sign.value),
-            deriv: if same { self.deriv } else { -self.deriv },
+            deriv: sign_scale * self.deriv,
         }
     }
     /// Largest integer `<= self`. A step function, so the derivative is zero.
diff --git a/crates/multicalc/src/scalar/hyper_dual.rs b/crates/multicalc/src/scalar/hyper_dual.rs
index c67551e..13dbc12 100644
--- a/crates/multicalc/src/scalar/hyper_dual.rs
+++ b/crates/multicalc/src/scalar/hyper_dual.rs
@@ -443,11 +443,8 @@ impl<T: Numeric> Numeric for HyperDual<T> {
     /// univariate `chain` helper with slope `s` and zero curvature.
     #[inline]
     fn copysign(self, sign: Self) -> Self {
-        let sign_scale = if (self.real < T::ZERO) == (sign.real < T::ZERO) {
-            T::ONE
-        } else {
-            -T::ONE
-        };
+        // Read off the sign bits, since `-0` counts as negative to `copysign` but not to `<`.
+        let sign_scale = T::ONE.copysign(self.real) * T::ONE.copysign(sign.real);
         self.chain(self.real.copysign(sign.real), sign_scale, T::ZERO)
     }
     /// Largest integer `<= self`; the derivatives of a step function are zero.
diff --git a/crates/multicalc/src/scalar/jet.rs b/crates/multicalc/src/scalar/jet.rs
index f5b0b27..6e77c3d 100644
--- a/crates/multicalc/src/scalar/jet.rs
+++ b/crates/multicalc/src/scalar/jet.rs
@@ -257,9 +257,9 @@ impl<T: Numeric, const N: usize> Numeric for Jet<T, N> {
         } else {
             T::ONE
         };
-        Jet {
-            coeffs: core::array::from_fn(|k| sign * self.coeffs[k]),
-        }
+        let mut coeffs = core::array::from_fn(|k| sign * self.coeffs[k]);
+        coeffs[0] = self.coeffs[0].abs(); // so `-0` loses its sign, as it does on a plain float
+        Jet { coeffs }
     }
 
     /// `uₖ = (vₖ − Σ_{i=1..k-1} uᵢ·u₍ₖ₋ᵢ₎) / (2u₀)`. Unbounded at `value == 0`.
@@ -440,11 +440,8 @@ impl<T: Numeric, const N: usize> Numeric for Jet<T, N> {
     /// scaled by `s = ±1`; the value coefficient is set by `copysign` so signed zero is exact.
     #[inline]
     fn copysign(self, sign: Self) -> Self {
-        let sign_scale = if (self.coeffs[0] < T::ZERO) == (sign.coeffs[0] < T::ZERO) {
-            T::ONE
-        } else {
-            -T::ONE
-        };
+        // Read off the sign bits, since `-0` counts as negative to `copysign` but not to `<`.
+        let sign_scale = T::ONE.copysign(self.coeffs[0]) * T::ONE.copysign(sign.coeffs[0]);
         let mut coeffs = core::array::from_fn(|k| sign_scale * self.coeffs[k]);
         coeffs[0] = self.coeffs[0].copysign(sign.coeffs[0]);
         Jet { coeffs }
-- 
2.43.0


From 7a11cb2590aaffa223a40dda3afcd068f0036a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:28 +0000
Subject: [PATCH 07/59] fix: flux_integral_2d integrated Vx dx - Vy dy, which
 is not the flux across the curve

---
 .../src/vector_field/flux_integral.rs         | 12 +++++++----
 .../src/vector_field/line_integral.rs         | 20 +++++++++++--------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/crates/multicalc/src/vector_field/flux_integral.rs b/crates/multicalc/src/vector_field/flux_integral.rs
index 9c6de36..9f426b1 100644
--- a/crates/multicalc/src/vector_field/flux_integral.rs
+++ b/crates/multicalc/src/vector_field/flux_integral.rs
@@ -2,9 +2,11 @@ use crate::error::IntegrateError;
 use crate::numerical_integration::DEFAULT_TOTAL_ITERATIONS;
 use crate::scalar::Numeric;
 
-use crate::vector_field::line_integral::{line_integral_partial_2d, line_integral_partial_3d};
+use crate::vector_field::line_integral::{get_partial, line_integral_partial_3d};
 
-/// Computes the flux integral of a 2D vector field across a parametrized curve.
+/// Computes the flux integral of a 2D vector field across a parametrized curve: `∫ Vx dy - Vy dx`,
+/// the flow through the normal on the right of the direction of travel (outward for a
+/// counter-clockwise loop).
 ///
 /// The curve is described by a parameter `t`: the transforms map `t` to each coordinate, and
 /// the field is sampled at the resulting curve position. Uses the default iteration count;
@@ -59,18 +61,20 @@ pub fn flux_integral_2d_custom<T: Numeric>(
     integration_limit: &[T; 2],
     total_iterations: u64,
 ) -> Result<T, IntegrateError> {
-    Ok(line_integral_partial_2d(
+    Ok(get_partial(
         vector_field,
         transformations,
         integration_limit,
         total_iterations,
         0,
-    )? - line_integral_partial_2d(
+        1,
+    )? - get_partial(
         vector_field,
         transformations,
         integration_limit,
         total_iterations,
         1,
+        0,
     )?)
 }
 
diff --git a/crates/multicalc/src/vector_field/line_integral.rs b/crates/multicalc/src/vector_field/line_integral.rs
index 79bb42d..d34f8ee 100644
--- a/crates/multicalc/src/vector_field/line_integral.rs
+++ b/crates/multicalc/src/vector_field/line_integral.rs
@@ -15,14 +15,16 @@ fn curve_point<T: Numeric, const N: usize>(
     point
 }
 
-/// Trapezoidal integration of the `idx`-th field component along the parametrized curve.
+/// Trapezoidal integration of the `component_idx`-th field component against the
+/// `coordinate_idx`-th coordinate along the parametrized curve.
 /// Generic over the dimension `N`, so the 2D and 3D paths share one body.
-fn get_partial<T: Numeric, const N: usize>(
+pub(crate) fn get_partial<T: Numeric, const N: usize>(
     vector_field: &[&dyn Fn(&[T; N]) -> T; N],
     transformations: &[&dyn Fn(T) -> T; N],
     integration_limit: &[T; 2],
     total_iterations: u64,
-    idx: usize,
+    component_idx: usize,
+    coordinate_idx: usize,
 ) -> Result<T, IntegrateError> {
     if total_iterations == 0 {
         return Err(IntegrateError::IterationsZero);
@@ -43,13 +45,13 @@ fn get_partial<T: Numeric, const N: usize>(
     //curve point and field value is evaluated once per node rather than twice
     //https://ocw.mit.edu/ans7870/18/18.013a/textbook/HTML/chapter25/section04.html
     let mut left = curve_point(transformations, parameter);
-    let mut left_value = vector_field[idx](&left);
+    let mut left_value = vector_field[component_idx](&left);
 
     for _ in 0..total_iterations {
         let right = curve_point(transformations, parameter + delta);
-        let right_value = vector_field[idx](&right);
+        let right_value = vector_field[component_idx](&right);
 
-        ans += (right[idx] - left[idx]) * (left_value + right_value) / T::TWO;
+        ans += (right[coordinate_idx] - left[coordinate_idx]) * (left_value + right_value) / T::TWO;
 
         parameter += delta;
         left = right;
@@ -129,8 +131,8 @@ pub fn line_integral_2d_custom<T: Numeric>(
     )?)
 }
 
-/// Line integral of a single field component (`idx`) along the 2D curve. Used by both
-/// [`line_integral_2d_custom`] and the flux integral.
+/// Line integral of a single field component (`idx`) along the 2D curve. Used by
+/// [`line_integral_2d_custom`].
 ///
 /// # Errors
 /// [`IntegrateError::IterationsZero`] if `total_iterations` is zero, or
@@ -149,6 +151,7 @@ pub fn line_integral_partial_2d<T: Numeric>(
         integration_limit,
         total_iterations,
         idx,
+        idx,
     )
 }
 
@@ -224,5 +227,6 @@ pub fn line_integral_partial_3d<T: Numeric>(
         integration_limit,
         total_iterations,
         idx,
+        idx,
     )
 }
-- 
2.43.0


From ae05411f5583e18cb33eaf535fe1e3e77f59539d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:28 +0000
Subject: [PATCH 08/59] fix: line_integral_partial panicked on a component
 index out of range

---
 crates/multicalc/src/vector_field/line_integral.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/vector_field/line_integral.rs b/crates/multicalc/src/vector_field/line_integral.rs
index d34f8ee..3f56ded 100644
--- a/crates/multicalc/src/vector_field/line_integral.rs
+++ b/crates/multicalc/src/vector_field/line_integral.rs
@@ -29,6 +29,9 @@ pub(crate) fn get_partial<T: Numeric, const N: usize>(
     if total_iterations == 0 {
         return Err(IntegrateError::IterationsZero);
     }
+    if component_idx >= N || coordinate_idx >= N {
+        return Err(IntegrateError::IndexOutOfRange);
+    }
     // rejects NaN, equal, and reversed limits (partial_cmp is None for NaN)
     if !matches!(
         integration_limit[0].partial_cmp(&integration_limit[1]),
@@ -135,7 +138,8 @@ pub fn line_integral_2d_custom<T: Numeric>(
 /// [`line_integral_2d_custom`].
 ///
 /// # Errors
-/// [`IntegrateError::IterationsZero`] if `total_iterations` is zero, or
+/// [`IntegrateError::IterationsZero`] if `total_iterations` is zero,
+/// [`IntegrateError::IndexOutOfRange`] if `idx` names no component, or
 /// [`IntegrateError::LimitsIllDefined`] if the lower limit is not strictly less than the
 /// upper limit.
 pub fn line_integral_partial_2d<T: Numeric>(
@@ -211,7 +215,8 @@ pub fn line_integral_3d_custom<T: Numeric>(
 /// [`line_integral_3d_custom`] and the flux integral.
 ///
 /// # Errors
-/// [`IntegrateError::IterationsZero`] if `total_iterations` is zero, or
+/// [`IntegrateError::IterationsZero`] if `total_iterations` is zero,
+/// [`IntegrateError::IndexOutOfRange`] if `idx` names no component, or
 /// [`IntegrateError::LimitsIllDefined`] if the lower limit is not strictly less than the
 /// upper limit.
 pub fn line_integral_partial_3d<T: Numeric>(
-- 
2.43.0


From b7356511d232a2ee6ee291420a58dee6d45be5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:06 +0000
Subject: [PATCH 09/59] fix: LevenbergMarquardt::with_scale_diag(false) still
 scaled by the initial column norms

---
 crates/multicalc/src/optimization/levenberg_marquardt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/multicalc/src/optimization/levenberg_marquardt.rs b/crates/multicalc/src/optimization/levenberg_marquardt.rs
index e1ef9ab..3eb8f77 100644
--- a/crates/multicalc/src/optimization/levenberg_marquardt.rs
+++ b/crates/multicalc/src/optimization/levenberg_marquardt.rs
@@ -172,7 +172,7 @@ impl<D: DerivatorMultiVariable> LevenbergMarquardt<D> {
 
             if first {
                 for (slot, &column_norm) in diag.iter_mut().zip(dls.column_norms.iter()) {
-                    *slot = if column_norm == zero {
+                    *slot = if !self.scale_diag || column_norm == zero {
                         one
                     } else {
                         column_norm
-- 
2.43.0


From 181919ce05809d3a5fe98b7c7b4d728193c4bc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:49 +0000
Subject: [PATCH 10/59] fix: Rk45::solve_on_grid refused a valid grid when the
 last step ended a rounding short of it

---
 crates/multicalc/src/ode/rk45.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/ode/rk45.rs b/crates/multicalc/src/ode/rk45.rs
index 3438892..d8d4ba6 100644
--- a/crates/multicalc/src/ode/rk45.rs
+++ b/crates/multicalc/src/ode/rk45.rs
@@ -366,8 +366,13 @@ impl<T: Numeric> Rk45<T> {
             if accept {
                 // Kahan-compensated time += h.
                 let delta = h - kahan_c;
-                let tnew = time + delta;
+                let mut tnew = time + delta;
                 kahan_c = (tnew - time) - delta;
+                // The step that arrives ends at time_final itself, not a rounding short of it.
+                let arrived = (time_final - tnew).abs() <= T::EPSILON * (T::ONE + time_final.abs());
+                if arrived {
+                    tnew = time_final;
+                }
                 let step = Step {
                     time_start: time,
                     time_end: tnew,
@@ -380,7 +385,7 @@ impl<T: Numeric> Rk45<T> {
                 time = tnew;
                 y = state5;
                 stage1 = stage7; // FSAL
-                if (time_final - time).abs() <= T::EPSILON * (T::ONE + time_final.abs()) {
+                if arrived {
                     return Ok(y);
                 }
             }
-- 
2.43.0


From 77669e5a4fc15c21c06e04f07e6d9464da124e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 11/59] fix: Rk45::solve_on_grid accepted out-of-order times
 that fell inside one step

---
 crates/multicalc/src/ode/rk45.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/multicalc/src/ode/rk45.rs b/crates/multicalc/src/ode/rk45.rs
index d8d4ba6..1656142 100644
--- a/crates/multicalc/src/ode/rk45.rs
+++ b/crates/multicalc/src/ode/rk45.rs
@@ -465,6 +465,17 @@ impl<T: Numeric> Rk45<T> {
             return Ok(());
         }
         let time_final = times[times.len() - 1];
+        let forward = time_final > time_start;
+        let sorted = times.windows(2).all(|pair| {
+            if forward {
+                pair[0] <= pair[1]
+            } else {
+                pair[0] >= pair[1]
+            }
+        });
+        if !sorted {
+            return Err(IntegrateError::LimitsIllDefined);
+        }
         let mut next = 0usize;
         let _ = self.for_each_step(f, time_start, state_start, time_final, |step| {
             // Consume every requested time that falls in this accepted step (times are sorted).
-- 
2.43.0


From 838afa64cd773375850cc5b15aeb827d80b7463d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:02 +0000
Subject: [PATCH 12/59] fix: Rk45 dense output was NaN on a step too short to
 change the time

---
 crates/multicalc/src/ode/rk45.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/multicalc/src/ode/rk45.rs b/crates/multicalc/src/ode/rk45.rs
index 1656142..8afa4e9 100644
--- a/crates/multicalc/src/ode/rk45.rs
+++ b/crates/multicalc/src/ode/rk45.rs
@@ -27,6 +27,10 @@ impl<const N: usize, T: Numeric> Step<N, T> {
     /// and `state_end` at `time_end` exactly.
     pub fn interpolate(&self, time: T) -> Vector<N, T> {
         let h = self.time_end - self.time_start;
+        // A step shorter than one rounding of its times spans no interval to interpolate over.
+        if h == T::ZERO {
+            return self.state_end;
+        }
         let frac = (time - self.time_start) / h; // normalized position in [0, 1]
         let frac2 = frac * frac;
         let frac3 = frac2 * frac;
-- 
2.43.0


From 44e4d1bf83f1df3e409e7a97bbeee106d18d58ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:43 +0000
Subject: [PATCH 13/59] fix: MultivariatePolynomial clamped powers past
 i32::MAX, flipping the sign of even ones

---
 crates/multicalc/src/polynomial/multivariate.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/polynomial/multivariate.rs b/crates/multicalc/src/polynomial/multivariate.rs
index 6ea3706..9f16671 100644
--- a/crates/multicalc/src/polynomial/multivariate.rs
+++ b/crates/multicalc/src/polynomial/multivariate.rs
@@ -6,9 +6,16 @@ use crate::linear_algebra::Vector;
 use crate::polynomial::Polynomial;
 use crate::scalar::Numeric;
 
-/// Raises `value` to a whole-number power, for exponents that fit the underlying routine.
+/// Raises `value` to a whole-number power. Exponents past what the underlying routine takes are
+/// raised half at a time, since clamping one would change whether it is even.
 fn raise<T: Numeric>(value: T, exponent: u32) -> T {
-    value.powi(i32::try_from(exponent).unwrap_or(i32::MAX))
+    match i32::try_from(exponent) {
+        Ok(exponent) => value.powi(exponent),
+        Err(_) => {
+            let half = raise(value, exponent / 2);
+            half * half * raise(value, exponent % 2)
+        }
+    }
 }
 
 /// One term of a polynomial in several variables: a number, and a power for each variable.
-- 
2.43.0


From 4380da732267f7d9c2bd1a2418f6a36d55aad095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:26 +0000
Subject: [PATCH 14/59] fix: the cubic's one real root lost its digits to
 cancellation

---
 crates/multicalc/src/polynomial/roots.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/polynomial/roots.rs b/crates/multicalc/src/polynomial/roots.rs
index 4ad3109..1d5e323 100644
--- a/crates/multicalc/src/polynomial/roots.rs
+++ b/crates/multicalc/src/polynomial/roots.rs
@@ -225,12 +225,19 @@ impl<T: Numeric> Polynomial<4, T> {
                 roots.push(radius * (angle / three - turn).cos() + slide);
             }
         } else {
-            // One real root, from the sum of two cube roots.
+            // One real root, from the sum of two cube roots. Only the larger is taken directly: the
+            // smaller would subtract two close numbers, and the product of the two is known.
             let half_constant = -reduced_constant * T::HALF;
             let spread = (reduced_constant * reduced_constant / four
                 + reduced_linear.powi(3) / twenty_seven)
                 .sqrt();
-            roots.push((half_constant + spread).cbrt() + (half_constant - spread).cbrt() + slide);
+            let larger = (half_constant + spread.copysign(half_constant)).cbrt();
+            let smaller = if larger == T::ZERO {
+                T::ZERO
+            } else {
+                -reduced_linear / (three * larger)
+            };
+            roots.push(larger + smaller + slide);
         }
         roots.sort_ascending();
         Ok(roots)
-- 
2.43.0


From be53f669609bdb2fc7e0cd0f6166095b59ad60a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:27 +0000
Subject: [PATCH 15/59] fix: a cubic with a triple root reported it once
 instead of three times

---
 crates/multicalc/src/polynomial/roots.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/polynomial/roots.rs b/crates/multicalc/src/polynomial/roots.rs
index 1d5e323..9fed851 100644
--- a/crates/multicalc/src/polynomial/roots.rs
+++ b/crates/multicalc/src/polynomial/roots.rs
@@ -207,7 +207,12 @@ impl<T: Numeric> Polynomial<4, T> {
             / (twenty_seven * cubic * cubic * cubic);
 
         let mut roots = RealRoots::new();
-        if reduced_linear == T::ZERO {
+        if reduced_linear == T::ZERO && reduced_constant == T::ZERO {
+            // All three roots are the same one.
+            for _ in 0..3 {
+                roots.push(slide);
+            }
+        } else if reduced_linear == T::ZERO {
             roots.push((-reduced_constant).cbrt() + slide);
         } else if four * reduced_linear.powi(3) + twenty_seven * reduced_constant * reduced_constant
             <= T::ZERO
-- 
2.43.0


From 515f22ff2116c7cea9c560b99a2957e174d98a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:15 +0000
Subject: [PATCH 16/59] fix: quartics symmetric up to rounding lost their real
 roots or failed with NonFinite

---
 crates/multicalc/src/polynomial/roots.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/polynomial/roots.rs b/crates/multicalc/src/polynomial/roots.rs
index 9fed851..5e7ff78 100644
--- a/crates/multicalc/src/polynomial/roots.rs
+++ b/crates/multicalc/src/polynomial/roots.rs
@@ -312,10 +312,23 @@ impl<T: Numeric> Polynomial<5, T> {
             ])
             .real_roots()?;
             let largest = helper.as_slice().last().copied().unwrap_or(T::ZERO);
+            // Rounding can carry a root near zero just below it.
+            let largest = largest.max(T::ZERO);
 
-            let separation = (T::TWO * largest).sqrt();
             let shared = reduced_quadratic * T::HALF + largest;
-            let apart = reduced_linear / (T::TWO * separation);
+            // The gap between the two factors' middle terms and the gap between their last terms
+            // multiply to a known number. The larger comes from its square and the smaller by
+            // division, since the square root of a speck is mostly rounding.
+            let apart_size = (shared * shared - reduced_constant).max(T::ZERO).sqrt();
+            let (separation, apart) = if apart_size > T::TWO * largest {
+                let apart = apart_size.copysign(reduced_linear);
+                (reduced_linear / (T::TWO * apart), apart)
+            } else if largest > T::ZERO {
+                let separation = (T::TWO * largest).sqrt();
+                (separation, reduced_linear / (T::TWO * separation))
+            } else {
+                (T::ZERO, T::ZERO)
+            };
 
             for factor in [
                 Polynomial::<3, T>::new([shared + apart, -separation, T::ONE]),
-- 
2.43.0


From f815aa7eeb4dfb2351dd82ac93167f32ff9646a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:40 +0000
Subject: [PATCH 17/59] fix: SE2 exp and Jacobians lost their coupling terms to
 cancellation at small turns

---
 crates/multicalc/src/spatial/lie/se2.rs | 96 ++++++++++++-------------
 1 file changed, 44 insertions(+), 52 deletions(-)

diff --git a/crates/multicalc/src/spatial/lie/se2.rs b/crates/multicalc/src/spatial/lie/se2.rs
index c5ba7a6..f57ffee 100644
--- a/crates/multicalc/src/spatial/lie/se2.rs
+++ b/crates/multicalc/src/spatial/lie/se2.rs
@@ -5,7 +5,43 @@ use core::ops::Mul;
 use crate::linear_algebra::{Matrix, Matrix3D, Vector, Vector2D, Vector3D};
 use crate::scalar::Numeric;
 use crate::spatial::lie::SO2;
-use crate::spatial::small_angle_sq;
+use crate::spatial::small_angle_so3_sq;
+
+/// `(sinθ/θ, (1−cosθ)/θ, (1−cosθ)/θ², (θ−sinθ)/θ²)`, the ratios `exp` and the Jacobians are built
+/// from. Below the cutoff the differences would cancel, so a Taylor series in θ² is used; above it
+/// `1 − cosθ` is taken as `2·sin²(θ/2)`, which does not cancel at all.
+fn turn_ratios<T: Numeric>(omega: T) -> (T, T, T, T) {
+    let theta_sq = omega * omega;
+    let (cutoff, _) = small_angle_so3_sq::<T>();
+    if theta_sq < cutoff {
+        let theta4 = theta_sq * theta_sq;
+        let p_coeff = T::HALF - theta_sq / T::from_f64(24.0) + theta4 / T::from_f64(720.0);
+        let sixth = T::ONE / T::from_f64(6.0);
+        (
+            T::ONE - theta_sq / T::from_f64(6.0) + theta4 / T::from_f64(120.0),
+            omega * p_coeff,
+            p_coeff,
+            omega * (sixth - theta_sq / T::from_f64(120.0) + theta4 / T::from_f64(5040.0)),
+        )
+    } else {
+        let (sin, half_sin) = (omega.sin(), (omega * T::HALF).sin());
+        let b = half_sin * half_sin * T::TWO / omega;
+        (sin / omega, b, b / omega, (omega - sin) / theta_sq)
+    }
+}
+
+/// The `(α, β)` entries of the inverse of the `V(θ)` block: `(θ/2)·cot(θ/2)` and `θ/2`.
+fn inverse_turn_ratios<T: Numeric>(omega: T) -> (T, T) {
+    let theta_sq = omega * omega;
+    let half = omega * T::HALF;
+    let (cutoff, _) = small_angle_so3_sq::<T>();
+    let alpha = if theta_sq < cutoff {
+        T::ONE - theta_sq / T::from_f64(12.0) - theta_sq * theta_sq / T::from_f64(720.0)
+    } else {
+        half * (half.cos() / half.sin())
+    };
+    (alpha, half)
+}
 
 /// A 2D rigid-body transform: a rotation and a translation. The tangent is `[vx, vy, ω]`.
 #[derive(Debug, Clone, Copy, PartialEq)]
@@ -82,15 +118,7 @@ impl<T: Numeric> SE2<T> {
     #[must_use]
     pub fn exp(twist: Vector3D<T>) -> Self {
         let [lin_x, lin_y, omega] = *twist.as_array();
-        let theta_sq = omega * omega;
-        let (a, b) = if theta_sq < small_angle_sq::<T>() {
-            (
-                T::ONE - theta_sq / T::from_f64(6.0),
-                omega * (T::HALF - theta_sq / T::from_f64(24.0)),
-            )
-        } else {
-            (omega.sin() / omega, (T::ONE - omega.cos()) / omega)
-        };
+        let (a, b, _, _) = turn_ratios(omega);
         let translation = Vector::new([a * lin_x - b * lin_y, b * lin_x + a * lin_y]);
         SE2 {
             rotation: SO2::exp(omega),
@@ -102,13 +130,7 @@ impl<T: Numeric> SE2<T> {
     #[inline]
     pub fn log(self) -> Vector3D<T> {
         let omega = self.rotation.log();
-        let theta_sq = omega * omega;
-        let (alpha, beta) = if theta_sq < small_angle_sq::<T>() {
-            (T::ONE - theta_sq / T::from_f64(12.0), omega * T::HALF)
-        } else {
-            let half = omega * T::HALF;
-            (half * (half.cos() / half.sin()), half)
-        };
+        let (alpha, beta) = inverse_turn_ratios(omega);
         let [pos_x, pos_y] = *self.translation.as_array();
         Vector::new([
             alpha * pos_x + beta * pos_y,
@@ -206,24 +228,8 @@ impl<T: Numeric> SE2<T> {
     #[inline]
     pub fn left_jacobian(twist: Vector3D<T>) -> Matrix3D<T> {
         let [rho_x, rho_y, omega] = *twist.as_array();
-        let theta_sq = omega * omega;
-        // a = sinθ/θ, b = (1−cosθ)/θ (the V(θ) block); p = (1−cosθ)/θ², r = (θ−sinθ)/θ² (q).
-        let (a, b, p_coeff, r_coeff) = if theta_sq < small_angle_sq::<T>() {
-            (
-                T::ONE - theta_sq / T::from_f64(6.0),
-                omega * (T::HALF - theta_sq / T::from_f64(24.0)),
-                T::HALF - theta_sq / T::from_f64(24.0),
-                omega * (T::ONE / T::from_f64(6.0) - theta_sq / T::from_f64(120.0)),
-            )
-        } else {
-            let (sin, cos) = (omega.sin(), omega.cos());
-            (
-                sin / omega,
-                (T::ONE - cos) / omega,
-                (T::ONE - cos) / theta_sq,
-                (omega - sin) / theta_sq,
-            )
-        };
+        // (a, b) is the V(θ) block; (p, r) make q.
+        let (a, b, p_coeff, r_coeff) = turn_ratios(omega);
         let coupling_x = p_coeff * rho_y + r_coeff * rho_x;
         let coupling_y = r_coeff * rho_y - p_coeff * rho_x;
         Matrix::new([
@@ -244,25 +250,11 @@ impl<T: Numeric> SE2<T> {
     #[inline]
     pub fn left_jacobian_inverse(twist: Vector3D<T>) -> Matrix3D<T> {
         let [rho_x, rho_y, omega] = *twist.as_array();
-        let theta_sq = omega * omega;
-        // p = (1−cosθ)/θ², r = (θ−sinθ)/θ²: the coupling coefficients of the forward Jacobian.
-        let (p_coeff, r_coeff) = if theta_sq < small_angle_sq::<T>() {
-            (
-                T::HALF - theta_sq / T::from_f64(24.0),
-                omega * (T::ONE / T::from_f64(6.0) - theta_sq / T::from_f64(120.0)),
-            )
-        } else {
-            let (sin, cos) = (omega.sin(), omega.cos());
-            ((T::ONE - cos) / theta_sq, (omega - sin) / theta_sq)
-        };
+        // (p, r): the coupling coefficients of the forward Jacobian.
+        let (_, _, p_coeff, r_coeff) = turn_ratios(omega);
         let coupling_x = p_coeff * rho_y + r_coeff * rho_x;
         let coupling_y = r_coeff * rho_y - p_coeff * rho_x;
-        let (alpha, beta) = if theta_sq < small_angle_sq::<T>() {
-            (T::ONE - theta_sq / T::from_f64(12.0), omega * T::HALF)
-        } else {
-            let half = omega * T::HALF;
-            (half * (half.cos() / half.sin()), half)
-        };
+        let (alpha, beta) = inverse_turn_ratios(omega);
         let corr_x = -(alpha * coupling_x + beta * coupling_y);
         let corr_y = -(-beta * coupling_x + alpha * coupling_y);
         Matrix::new([
-- 
2.43.0


From 0fa0026db95a81be4f117fdd3b45f8a68956c786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:04 +0000
Subject: [PATCH 18/59] fix: from_two_vectors lost its axis when opposite
 directions differed only by rounding

---
 crates/multicalc/src/spatial/quaternion.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/multicalc/src/spatial/quaternion.rs b/crates/multicalc/src/spatial/quaternion.rs
index 656acb2..4955ef9 100644
--- a/crates/multicalc/src/spatial/quaternion.rs
+++ b/crates/multicalc/src/spatial/quaternion.rs
@@ -376,14 +376,14 @@ impl<T: Numeric> Quaternion<T> {
         // each keep theirs to `eps/delta`.
         let h = a + b;
         let h_sq = h.norm_squared();
-        // Only the exactly degenerate case needs the fallback, not a band around it. The axis below
-        // is `a x h`, which is perpendicular to `a` however inaccurate `h` is, so `a` always lands
-        // in the right plane and the leftover error is `delta` times the `eps/delta` relative error
-        // of `h`, i.e. flat in `eps`. That holds until `h` is exactly zero and there is no axis at
-        // all. An `h_sq` that has underflowed to zero from a nonzero `h` lands here too, and is
-        // just as well served: `h_sq = delta^2`, so that needs `delta < 1e-154`, far below the
-        // point where a pi turn is the right answer anyway.
-        if h_sq == T::ZERO {
+        // The axis below is `a x h`, which is perpendicular to `a` however inaccurate `h` is, so `a`
+        // always lands in the right plane and the leftover error is `delta` times the `eps/delta`
+        // relative error of `h`, i.e. flat in `eps`. That holds until `h` is down to the rounding of
+        // `a` and `b` themselves: their lengths are off by an eps or so, which leaves a part of `h`
+        // along `a`, and `a x h` cancels once that part dominates. By then a pi turn about any
+        // perpendicular is right to the same few eps.
+        let antiparallel = T::from_f64(8.0) * T::EPSILON;
+        if h_sq <= antiparallel * antiparallel {
             // Antiparallel, where the inputs pin down no axis. Build the pi rotation by crossing
             // `a` with the principal axis it is least aligned with, which keeps that cross
             // product's norm at 0.816 or above.
-- 
2.43.0


From 6c6fc3ae35d8683a87984cc027cf4920993f4bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:04 +0000
Subject: [PATCH 19/59] fix: from_two_direction_pairs refused directions a
 degree or so apart

---
 crates/multicalc/src/spatial/lie/so3.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/crates/multicalc/src/spatial/lie/so3.rs b/crates/multicalc/src/spatial/lie/so3.rs
index 53d0f7e..8eb2cf8 100644
--- a/crates/multicalc/src/spatial/lie/so3.rs
+++ b/crates/multicalc/src/spatial/lie/so3.rs
@@ -28,6 +28,20 @@ pub struct SO3<T: Numeric = f64> {
     quaternion: Quaternion<T>,
 }
 
+/// The unit vector along `first × second` for a unit `first`, or `None` when `second` has no length
+/// or runs along `first` to within rounding.
+/// Between close directions the cross product keeps only some of its digits, so whatever it has
+/// left along `first` is taken out again.
+fn perpendicular<T: Numeric>(first: Vector3D<T>, second: Vector3D<T>) -> Option<Vector3D<T>> {
+    let second = second.try_normalized()?;
+    let across = first.cross(second);
+    if across.norm() <= T::EPSILON_X30 {
+        return None;
+    }
+    let across = across.normalized();
+    (across - first.scale(first.dot(across))).try_normalized()
+}
+
 impl<T: Numeric> SO3<T> {
     /// The zero rotation.
     #[inline]
@@ -203,15 +217,11 @@ impl<T: Numeric> SO3<T> {
         }
 
         let observed_first = primary_observed.try_normalized()?;
-        let observed_third = observed_first.cross(secondary_observed).try_normalized()?;
+        let observed_third = perpendicular(observed_first, secondary_observed)?;
         let observed_second = observed_third.cross(observed_first);
-
         let reference_first = primary_reference.try_normalized()?;
-        let reference_third = reference_first
-            .cross(secondary_reference)
-            .try_normalized()?;
+        let reference_third = perpendicular(reference_first, secondary_reference)?;
         let reference_second = reference_third.cross(reference_first);
-
         // Each set of axes goes in as columns, so the product carries body directions to world
         // ones.
         let observed_axes = Matrix3D::from_fn(|row, column| match column {
-- 
2.43.0


From b5119979c641eb57db29f18b8d87b5d72075a3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 20/59] fix: a floating joint's slide columns ignored its
 origin's rotation

---
 .../multicalc/src/kinematics/inverse_kinematics.rs   |  8 ++++----
 crates/multicalc/src/kinematics/kinematic_tree.rs    | 12 +++++++-----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/crates/multicalc/src/kinematics/inverse_kinematics.rs b/crates/multicalc/src/kinematics/inverse_kinematics.rs
index 45a6a93..bad9c08 100644
--- a/crates/multicalc/src/kinematics/inverse_kinematics.rs
+++ b/crates/multicalc/src/kinematics/inverse_kinematics.rs
@@ -353,10 +353,10 @@ impl<const MAX_CONFIG: usize, T: Numeric> InverseKinematics<MAX_CONFIG, T> {
                         step.get(velocity_at + 3 + row).copied().unwrap_or(T::ZERO)
                     });
 
-                    // d_linear is already a world-frame slide (matching MuJoCo's own free-joint
-                    // convention and the Jacobian's translational columns, which are the constant
-                    // world basis, not carried by the joint's own orientation), so it adds to a
-                    // world position directly.
+                    // d_linear is already a slide in the axes the position reading is given in
+                    // (matching MuJoCo's own free-joint convention and the Jacobian's
+                    // translational columns, which are not carried by the joint's own
+                    // orientation), so it adds to the position directly.
                     let new_position = current_free.pose().translation() + d_linear;
                     let new_orientation = ExponentialMap::attitude_step(
                         current_free.pose().rotation(),
diff --git a/crates/multicalc/src/kinematics/kinematic_tree.rs b/crates/multicalc/src/kinematics/kinematic_tree.rs
index 5386a61..c271914 100644
--- a/crates/multicalc/src/kinematics/kinematic_tree.rs
+++ b/crates/multicalc/src/kinematics/kinematic_tree.rs
@@ -541,14 +541,16 @@ impl<const MAX_JOINTS: usize, const MAX_CONFIG: usize, T: Numeric>
                         let basis = Vector::<3, T>::from_fn(|row| {
                             if row == local_axis { T::ONE } else { T::ZERO }
                         });
-                        // Sliding along a world axis carries every point in the subtree, tool
-                        // included, by the same amount, in that fixed world direction — no
+                        // Sliding along an axis of the joint's origin carries every point in the
+                        // subtree, tool included, by the same amount, in that fixed direction — no
                         // turning. Unlike every other joint's own axis, this one is not carried
                         // by the joint's own orientation: a floating joint's slide reading is a
-                        // world position directly (MuJoCo's own free-joint convention), so world
-                        // axis 0 always means world axis 0, whichever way the body is turned.
+                        // position in its origin's axes (world axes for an origin that does not
+                        // turn, MuJoCo's own free-joint convention), so axis 0 always means the
+                        // same direction, whichever way the body is turned.
+                        let slide = joint.origin().rotation().act(basis);
                         if let Some(slot) = columns.get_mut(local_axis) {
-                            *slot = Some((basis, Vector::zeros()));
+                            *slot = Some((slide, Vector::zeros()));
                         }
                         // Turning about this axis sweeps the tool around the joint's own origin,
                         // the same formula a revolute joint's single axis already uses. The turn
-- 
2.43.0


From 7bb089bc063ac8d66fbc75958833104aa270df9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 21/59] fix: inverse kinematics reported a target met by its
 last allowed step as unmet, and zero residuals for a zero budget

---
 .../src/kinematics/inverse_kinematics.rs      | 29 ++++++++++---------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/crates/multicalc/src/kinematics/inverse_kinematics.rs b/crates/multicalc/src/kinematics/inverse_kinematics.rs
index bad9c08..997d7b3 100644
--- a/crates/multicalc/src/kinematics/inverse_kinematics.rs
+++ b/crates/multicalc/src/kinematics/inverse_kinematics.rs
@@ -273,8 +273,6 @@ impl<const MAX_CONFIG: usize, T: Numeric> InverseKinematics<MAX_CONFIG, T> {
         let mut configuration = *seed;
         self.hold_inside_limits(tree, &mut configuration);
 
-        let mut position_error = T::ZERO;
-        let mut orientation_error = T::ZERO;
         let mut iterations = 0;
 
         for _ in 0..self.maximum_iterations {
@@ -287,7 +285,7 @@ impl<const MAX_CONFIG: usize, T: Numeric> InverseKinematics<MAX_CONFIG, T> {
             // Body-frame pose error: log(T_current⁻¹ · T_target). The Jacobian below is taken in
             // the same frame so error and columns agree.
             let task_error = (current.inverse() * target).log();
-            (position_error, orientation_error) = split_error(task_error);
+            let (position_error, orientation_error) = split_error(task_error);
 
             if position_error <= self.position_tolerance
                 && orientation_error <= self.orientation_tolerance
@@ -393,21 +391,26 @@ impl<const MAX_CONFIG: usize, T: Numeric> InverseKinematics<MAX_CONFIG, T> {
             configuration = next;
         }
 
-        // Re-evaluate at the final configuration so the residuals match the returned q.
-        if iterations > 0 {
-            let state = tree.forward_kinematics(&configuration)?;
-            let current = state
-                .pose(tool_index)
-                .ok_or(KinematicsError::ToolIndexOutOfRange)?;
-            (position_error, orientation_error) = split_error((current.inverse() * target).log());
-        }
-
+        // Re-evaluate at the final configuration so the residuals match the returned q, and so the
+        // last step counts if it is the one that arrived.
+        let state = tree.forward_kinematics(&configuration)?;
+        let current = state
+            .pose(tool_index)
+            .ok_or(KinematicsError::ToolIndexOutOfRange)?;
+        let (position_error, orientation_error) = split_error((current.inverse() * target).log());
+        let termination = if position_error <= self.position_tolerance
+            && orientation_error <= self.orientation_tolerance
+        {
+            InverseKinematicsTermination::Converged
+        } else {
+            InverseKinematicsTermination::IterationBudget
+        };
         Ok(InverseKinematicsReport {
             joint_positions: configuration,
             position_error,
             orientation_error,
             iterations,
-            termination: InverseKinematicsTermination::IterationBudget,
+            termination,
         })
     }
 
-- 
2.43.0


From 77555827ecadb4ff99fbbf7aa7b55de3570354e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 22/59] fix: inverse kinematics that did not arrive returned
 its last configuration, not its best

---
 .../src/kinematics/inverse_kinematics.rs      | 61 +++++++++++++------
 1 file changed, 42 insertions(+), 19 deletions(-)

diff --git a/crates/multicalc/src/kinematics/inverse_kinematics.rs b/crates/multicalc/src/kinematics/inverse_kinematics.rs
index 997d7b3..dbaa966 100644
--- a/crates/multicalc/src/kinematics/inverse_kinematics.rs
+++ b/crates/multicalc/src/kinematics/inverse_kinematics.rs
@@ -274,6 +274,9 @@ impl<const MAX_CONFIG: usize, T: Numeric> InverseKinematics<MAX_CONFIG, T> {
         self.hold_inside_limits(tree, &mut configuration);
 
         let mut iterations = 0;
+        // What a solve that does not arrive returns: an out-of-reach or limit-bound target can push
+        // later steps further from it than earlier ones came.
+        let mut nearest = None;
 
         for _ in 0..self.maximum_iterations {
             iterations += 1;
@@ -287,17 +290,20 @@ impl<const MAX_CONFIG: usize, T: Numeric> InverseKinematics<MAX_CONFIG, T> {
             let task_error = (current.inverse() * target).log();
             let (position_error, orientation_error) = split_error(task_error);
 
+            let reached = InverseKinematicsReport {
+                joint_positions: configuration,
+                position_error,
+                orientation_error,
+                iterations,
+                termination: InverseKinematicsTermination::Converged,
+            };
             if position_error <= self.position_tolerance
                 && orientation_error <= self.orientation_tolerance
             {
-                return Ok(InverseKinematicsReport {
-                    joint_positions: configuration,
-                    position_error,
-                    orientation_error,
-                    iterations,
-                    termination: InverseKinematicsTermination::Converged,
-                });
+                return Ok(reached);
             }
+            let held = nearer(nearest, reached);
+            nearest = Some(held);
 
             let jacobian = tree.geometric_jacobian(&state, tool_index, JacobianFrame::Body)?;
             let bias = secondary_bias(
@@ -381,11 +387,9 @@ impl<const MAX_CONFIG: usize, T: Numeric> InverseKinematics<MAX_CONFIG, T> {
             // Measured on the realized step, so motion clipped by a limit counts as no progress.
             if (next - configuration).norm() <= self.minimum_step_norm {
                 return Ok(InverseKinematicsReport {
-                    joint_positions: configuration,
-                    position_error,
-                    orientation_error,
                     iterations,
                     termination: InverseKinematicsTermination::Stalled,
+                    ..held
                 });
             }
             configuration = next;
@@ -398,19 +402,22 @@ impl<const MAX_CONFIG: usize, T: Numeric> InverseKinematics<MAX_CONFIG, T> {
             .pose(tool_index)
             .ok_or(KinematicsError::ToolIndexOutOfRange)?;
         let (position_error, orientation_error) = split_error((current.inverse() * target).log());
-        let termination = if position_error <= self.position_tolerance
-            && orientation_error <= self.orientation_tolerance
-        {
-            InverseKinematicsTermination::Converged
-        } else {
-            InverseKinematicsTermination::IterationBudget
-        };
-        Ok(InverseKinematicsReport {
+        let reached = InverseKinematicsReport {
             joint_positions: configuration,
             position_error,
             orientation_error,
             iterations,
-            termination,
+            termination: InverseKinematicsTermination::Converged,
+        };
+        if position_error <= self.position_tolerance
+            && orientation_error <= self.orientation_tolerance
+        {
+            return Ok(reached);
+        }
+        Ok(InverseKinematicsReport {
+            iterations,
+            termination: InverseKinematicsTermination::IterationBudget,
+            ..nearer(nearest, reached)
         })
     }
 
@@ -443,6 +450,22 @@ impl<const MAX_CONFIG: usize, T: Numeric> InverseKinematics<MAX_CONFIG, T> {
     }
 }
 
+/// Whichever of the two came nearer the target, metres and radians mixed as in the task error's
+/// own norm.
+fn nearer<const MAX_CONFIG: usize, T: Numeric>(
+    held: Option<InverseKinematicsReport<MAX_CONFIG, T>>,
+    candidate: InverseKinematicsReport<MAX_CONFIG, T>,
+) -> InverseKinematicsReport<MAX_CONFIG, T> {
+    let squared_error = |report: &InverseKinematicsReport<MAX_CONFIG, T>| {
+        report.position_error * report.position_error
+            + report.orientation_error * report.orientation_error
+    };
+    match held {
+        Some(held) if squared_error(&held) <= squared_error(&candidate) => held,
+        _ => candidate,
+    }
+}
+
 /// Splits a `[v; ω]` task error into its translational and rotational norms.
 fn split_error<T: Numeric>(task_error: Vector<6, T>) -> (T, T) {
     let part = |offset: usize| {
-- 
2.43.0


From e1da3872d5c064cd6406b66b4274a5e69b4e69f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 23/59] fix: capsule distance treated short spines as points
 and crossed ones as parallel

---
 crates/multicalc/src/kinematics/collision.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/multicalc/src/kinematics/collision.rs b/crates/multicalc/src/kinematics/collision.rs
index ee65736..c0be42c 100644
--- a/crates/multicalc/src/kinematics/collision.rs
+++ b/crates/multicalc/src/kinematics/collision.rs
@@ -113,7 +113,7 @@ fn closest_point_on_segment<T: Numeric>(
 ) -> Vector3D<T> {
     let segment = end - start;
     let length_squared = segment.dot(segment);
-    if length_squared <= T::EPSILON {
+    if length_squared <= T::ZERO {
         return start;
     }
     let parameter = ((point - start).dot(segment) / length_squared)
@@ -140,11 +140,11 @@ fn closest_points_between_segments<T: Numeric>(
     let second_offset = second_direction.dot(start_offset);
 
     // Both degenerate: two points.
-    if first_length_squared <= T::EPSILON && second_length_squared <= T::EPSILON {
+    if first_length_squared <= T::ZERO && second_length_squared <= T::ZERO {
         return (first_start, second_start);
     }
 
-    let (first_parameter, second_parameter) = if first_length_squared <= T::EPSILON {
+    let (first_parameter, second_parameter) = if first_length_squared <= T::ZERO {
         // First degenerate: project its point onto the second.
         (
             T::ZERO,
@@ -154,7 +154,7 @@ fn closest_points_between_segments<T: Numeric>(
         )
     } else {
         let first_offset = first_direction.dot(start_offset);
-        if second_length_squared <= T::EPSILON {
+        if second_length_squared <= T::ZERO {
             // Second degenerate: project its point onto the first.
             (
                 (-first_offset / first_length_squared)
@@ -164,9 +164,10 @@ fn closest_points_between_segments<T: Numeric>(
             )
         } else {
             let alignment = first_direction.dot(second_direction);
-            let denominator = first_length_squared * second_length_squared - alignment * alignment;
+            let product = first_length_squared * second_length_squared;
+            let denominator = product - alignment * alignment;
             // Parallel: denominator vanishes, so pin the first parameter and solve the second.
-            let candidate = if denominator > T::EPSILON {
+            let candidate = if denominator > product * T::EPSILON {
                 ((alignment * second_offset - first_offset * second_length_squared) / denominator)
                     .max(T::ZERO)
                     .min(T::ONE)
-- 
2.43.0


From 2b6c30d3b99974a716dd4c6e591743a3d732064c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 24/59] fix: a point that is not a number was taken to lie in
 cell (0, 0)

---
 crates/multicalc/src/mapping/occupancy_grid.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/mapping/occupancy_grid.rs b/crates/multicalc/src/mapping/occupancy_grid.rs
index 7ef7c61..7c71947 100644
--- a/crates/multicalc/src/mapping/occupancy_grid.rs
+++ b/crates/multicalc/src/mapping/occupancy_grid.rs
@@ -83,7 +83,8 @@ pub trait OccupancyMap<T: Numeric + Primal = f64> {
         let row = ((point[1] - origin[1]) / self.resolution())
             .floor()
             .to_f64();
-        if column < 0.0 || row < 0.0 {
+        // Written this way round so a point that is not a number is turned away as well.
+        if !(column >= 0.0 && row >= 0.0) {
             return None;
         }
         let (row, column) = (row as usize, column as usize);
-- 
2.43.0


From c784cc037a3c6086b105dd9bbc4b81984ec0a091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:02 +0000
Subject: [PATCH 25/59] fix: a beam running along a cell edge from off the map
 could read short

---
 crates/multicalc/src/mapping/occupancy_grid.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/multicalc/src/mapping/occupancy_grid.rs b/crates/multicalc/src/mapping/occupancy_grid.rs
index 7c71947..39227ea 100644
--- a/crates/multicalc/src/mapping/occupancy_grid.rs
+++ b/crates/multicalc/src/mapping/occupancy_grid.rs
@@ -222,14 +222,15 @@ pub trait OccupancyMap<T: Numeric + Primal = f64> {
             if self.is_occupied(row_index, column_index) {
                 return Some(entered);
             }
-            // Cross whichever edge comes first.
+            // Cross whichever edge comes first. A beam running along an edge can have crossed it before
+            // it came onto the map, which must not take the distance back.
             if next_column < next_row {
                 column += step_column;
-                entered = next_column;
+                entered = entered.max(next_column);
                 next_column += stride_column;
             } else {
                 row += step_row;
-                entered = next_row;
+                entered = entered.max(next_row);
                 next_row += stride_row;
             }
         }
-- 
2.43.0


From 8b71d134a9c2a945af3a37d558a573bb31670f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 26/59] fix: the last beam of a scan could point past the arc
 by a rounding error

---
 crates/multicalc/src/mapping/scan_geometry.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/mapping/scan_geometry.rs b/crates/multicalc/src/mapping/scan_geometry.rs
index 55b1f2c..a25cdd8 100644
--- a/crates/multicalc/src/mapping/scan_geometry.rs
+++ b/crates/multicalc/src/mapping/scan_geometry.rs
@@ -299,5 +299,8 @@ impl<const NUM_BEAMS: usize, T: Numeric + Primal> ScanGeometry<NUM_BEAMS, T> {
 #[must_use]
 pub(crate) fn beam_angle_across<T: Numeric>(field_of_view: T, num_beams: usize, index: usize) -> T {
     let span = T::from_usize(num_beams - 1);
-    -field_of_view * T::HALF + field_of_view * T::from_usize(index) / span
+    // Counting from the middle of the scan lands both outer beams exactly on the arc's edges and
+    // makes the two halves exact mirror images.
+    let from_middle = (T::from_usize(index) - T::from_usize(num_beams - 1 - index)) / span;
+    field_of_view * (from_middle * T::HALF)
 }
-- 
2.43.0


From 55bc52cd0e181eae88683fb1c0562b378a91943a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:19 +0000
Subject: [PATCH 27/59] fix: circles more than a thousand cells across their
 radius were drawn with gaps

---
 .../multicalc/src/mapping/occupancy_grid.rs   | 54 ++++++++++++++++---
 1 file changed, 46 insertions(+), 8 deletions(-)

diff --git a/crates/multicalc/src/mapping/occupancy_grid.rs b/crates/multicalc/src/mapping/occupancy_grid.rs
index 39227ea..475524b 100644
--- a/crates/multicalc/src/mapping/occupancy_grid.rs
+++ b/crates/multicalc/src/mapping/occupancy_grid.rs
@@ -387,14 +387,25 @@ pub trait MutableOccupancyMap<T: Numeric + Primal = f64>: OccupancyMap<T> {
     /// }
     /// ```
     fn occupy_circle(&mut self, center: [T; 2], radius: T) {
-        let step = (T::from_f64(0.4) * self.resolution() / radius).max(T::from_f64(1e-3));
-        let mut angle = T::ZERO;
-        while angle < T::TWO_PI {
-            self.occupy_point([
-                center[0] + radius * angle.cos(),
-                center[1] + radius * angle.sin(),
-            ]);
-            angle += step;
+        let [center_x, center_y] = center;
+        if !center_x.is_finite() || !center_y.is_finite() || !radius.is_finite() {
+            return;
+        }
+        let radius = radius.abs();
+        let step = T::from_f64(0.4) * self.resolution();
+        let [low_x, low_y] = self.origin();
+        let (columns, rows) = (self.columns(), self.rows());
+        // Both crossings of every column of points, then both crossings of every row of them: where
+        // the rim runs too steeply for one, the other is within a step of it.
+        for offset in rim_offsets(center_x, radius, low_x, columns, self.resolution(), step) {
+            let reach = half_chord(radius, offset);
+            self.occupy_point([center_x + offset, center_y - reach]);
+            self.occupy_point([center_x + offset, center_y + reach]);
+        }
+        for offset in rim_offsets(center_y, radius, low_y, rows, self.resolution(), step) {
+            let reach = half_chord(radius, offset);
+            self.occupy_point([center_x - reach, center_y + offset]);
+            self.occupy_point([center_x + reach, center_y + offset]);
         }
     }
 }
@@ -627,6 +638,33 @@ fn entry_distance<T: Numeric + Primal, M: OccupancyMap<T> + ?Sized>(
     Some(near.max(T::ZERO))
 }
 
+/// The whole steps either side of a circle's centre, along one axis, that are both inside the circle
+/// and over the map. There are never many more than a few for each cell along the map's edge, however
+/// large the circle is.
+fn rim_offsets<T: Numeric + Primal>(
+    center: T,
+    radius: T,
+    low: T,
+    length: usize,
+    resolution: T,
+    step: T,
+) -> impl Iterator<Item = T> {
+    let high = low + T::from_usize(length) * resolution;
+    let first = ((low - center).max(-radius) / step).ceil();
+    let last = ((high - center).min(radius) / step).floor();
+    let count = if first <= last {
+        ((last - first).to_f64() as usize).min(length.saturating_mul(3)) + 1
+    } else {
+        0
+    };
+    (0..count).map(move |index| (first + T::from_usize(index)) * step)
+}
+
+/// Half the length of the chord a circle cuts at `offset` from its centre.
+fn half_chord<T: Numeric>(radius: T, offset: T) -> T {
+    ((radius - offset) * (radius + offset)).max(T::ZERO).sqrt()
+}
+
 /// Which way an index moves as the beam advances along one axis. A component of zero never steps,
 /// because the stride along that axis is infinite, so either answer serves.
 fn axis_step<T: Numeric>(component: T) -> isize {
-- 
2.43.0


From cc217a2467c4876cdccf8660114d8e08cfedb727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:40 +0000
Subject: [PATCH 28/59] fix: drawing a line with an end far off the map or
 nowhere did not finish

---
 .../multicalc/src/mapping/occupancy_grid.rs   | 51 +++++++++++++++++--
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/crates/multicalc/src/mapping/occupancy_grid.rs b/crates/multicalc/src/mapping/occupancy_grid.rs
index 475524b..3b2d4b6 100644
--- a/crates/multicalc/src/mapping/occupancy_grid.rs
+++ b/crates/multicalc/src/mapping/occupancy_grid.rs
@@ -328,10 +328,21 @@ pub trait MutableOccupancyMap<T: Numeric + Primal = f64>: OccupancyMap<T> {
             ) else {
                 continue;
             };
-            let length = (end[0] - start[0]).hypot(end[1] - start[1]);
-            let samples = (length / step).ceil().max(T::ONE).to_f64() as usize;
+            // Only the stretch over the map can mark anything, and walking no more than that keeps the
+            // work to the size of the map. An edge with an end nowhere has no such stretch.
+            let Some((near, far)) = stretch_over_map(self, start, end) else {
+                continue;
+            };
+            let length = (end[0] - start[0]).hypot(end[1] - start[1]) * (far - near);
+            // No stretch over the map is longer than this many samples; rounding in a far longer line
+            // could say it is.
+            let most = (self.columns().saturating_add(self.rows()))
+                .saturating_mul(3)
+                .saturating_add(12);
+            let samples = ((length / step).ceil().max(T::ONE).to_f64() as usize).min(most);
             for sample in 0..=samples {
-                let fraction = T::from_usize(sample) / T::from_usize(samples);
+                let fraction =
+                    near + (far - near) * (T::from_usize(sample) / T::from_usize(samples));
                 self.occupy_point([
                     start[0] + fraction * (end[0] - start[0]),
                     start[1] + fraction * (end[1] - start[1]),
@@ -638,6 +649,40 @@ fn entry_distance<T: Numeric + Primal, M: OccupancyMap<T> + ?Sized>(
     Some(near.max(T::ZERO))
 }
 
+/// The part of the line from `start` to `end` that lies over the map, give or take a cell, as the
+/// fractions along it where that part begins and ends. `None` when no part does, or when either end is
+/// not a finite place.
+fn stretch_over_map<T: Numeric + Primal, M: OccupancyMap<T> + ?Sized>(
+    map: &M,
+    start: [T; 2],
+    end: [T; 2],
+) -> Option<(T, T)> {
+    let [low_x, low_y] = map.origin();
+    let margin = map.resolution();
+    let (mut near, mut far) = (T::ZERO, T::ONE);
+    for (start, end, low, length) in [
+        (start[0], end[0], low_x, map.columns()),
+        (start[1], end[1], low_y, map.rows()),
+    ] {
+        let run = end - start;
+        if !start.is_finite() || !run.is_finite() {
+            return None;
+        }
+        let high = low + T::from_usize(length) * margin + margin;
+        let low = low - margin;
+        if run == T::ZERO {
+            if start < low || start > high {
+                return None;
+            }
+        } else {
+            let (first, second) = ((low - start) / run, (high - start) / run);
+            near = near.max(first.min(second));
+            far = far.min(first.max(second));
+        }
+    }
+    (near <= far).then_some((near, far))
+}
+
 /// The whole steps either side of a circle's centre, along one axis, that are both inside the circle
 /// and over the map. There are never many more than a few for each cell along the map's edge, however
 /// large the circle is.
-- 
2.43.0


From 3a8e21f8e480c0c30198628e9b439b0520c3da70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 29/59] fix: a stretched motion profile could keep its last
 acceleration after it had finished

---
 crates/multicalc/src/motion/motion_profile.rs | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/crates/multicalc/src/motion/motion_profile.rs b/crates/multicalc/src/motion/motion_profile.rs
index 826fbb1..6a91dba 100644
--- a/crates/multicalc/src/motion/motion_profile.rs
+++ b/crates/multicalc/src/motion/motion_profile.rs
@@ -263,7 +263,18 @@ impl<T: Numeric> MotionProfile<T> {
         if !time.is_finite() {
             return Err(MotionError::NonFinite);
         }
-        let clamped = time.max(T::ZERO).min(self.duration);
+        // On target, at rest. The duration decides this rather than the phases, since a stretched
+        // profile's phases can add up to a rounding error more than it.
+        let finished = ProfileState {
+            position: self.distance,
+            velocity: T::ZERO,
+            acceleration: T::ZERO,
+            jerk: T::ZERO,
+        };
+        if time >= self.duration {
+            return Ok(finished);
+        }
+        let clamped = time.max(T::ZERO);
 
         let mut phase_start = T::ZERO;
         for phase in self.phases.iter() {
@@ -285,13 +296,7 @@ impl<T: Numeric> MotionProfile<T> {
             phase_start = phase_end;
         }
 
-        // Past the final phase: on target, at rest.
-        Ok(ProfileState {
-            position: self.distance,
-            velocity: T::ZERO,
-            acceleration: T::ZERO,
-            jerk: T::ZERO,
-        })
+        Ok(finished)
     }
 }
 
-- 
2.43.0


From a57641492d578d9fdd1e05c52e9947d6c511fd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 30/59] fix: looking ahead from before the start of a path
 returned a point off the path

---
 crates/multicalc/src/motion/polyline_path.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/multicalc/src/motion/polyline_path.rs b/crates/multicalc/src/motion/polyline_path.rs
index fde6930..9b3d9e5 100644
--- a/crates/multicalc/src/motion/polyline_path.rs
+++ b/crates/multicalc/src/motion/polyline_path.rs
@@ -321,6 +321,9 @@ impl<const MAX_POINTS: usize, const DIMENSION: usize, T: Numeric>
         let mut target = from_arc_length + lookahead;
         match self.end_of_path {
             EndOfPath::Stop => {
+                if target <= T::ZERO {
+                    return Ok(first);
+                }
                 if target >= total {
                     return Ok(last);
                 }
-- 
2.43.0


From 74887fde42644db4b211ffa4466a413044e6d5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:43 +0000
Subject: [PATCH 31/59] fix: minimum-snap planning refused short or long
 segments as ill-conditioned

---
 crates/multicalc/src/motion/minimum_snap.rs   | 34 +++++++++++++++----
 .../multicalc/src/polynomial/construction.rs  | 13 ++++++-
 2 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/crates/multicalc/src/motion/minimum_snap.rs b/crates/multicalc/src/motion/minimum_snap.rs
index 5974013..4114115 100644
--- a/crates/multicalc/src/motion/minimum_snap.rs
+++ b/crates/multicalc/src/motion/minimum_snap.rs
@@ -37,6 +37,15 @@ impl<const DIMENSION: usize, T: Numeric> Default for BoundaryDerivatives<DIMENSI
 }
 
 impl<const DIMENSION: usize, T: Numeric> BoundaryDerivatives<DIMENSION, T> {
+    /// The same motion with time counted in units of `period`.
+    fn on_clock(&self, period: T) -> Self {
+        Self {
+            velocity: self.velocity.scale(period),
+            acceleration: self.acceleration.scale(period.powi(2)),
+            jerk: self.jerk.scale(period.powi(3)),
+        }
+    }
+
     /// Whether every value is finite.
     fn all_finite(&self) -> bool {
         self.velocity.is_finite() && self.acceleration.is_finite() && self.jerk.is_finite()
@@ -272,6 +281,18 @@ impl<
             return Err(MotionError::WorkspaceTooSmall);
         }
 
+        // Time is counted in units of the average duration while solving, so the derivatives being
+        // solved for are all of a size and the system is no worse for short or long segments.
+        let period = durations
+            .iter()
+            .copied()
+            .fold(T::ZERO, |sum, span| sum + span)
+            / T::from_usize(segments);
+        let planner = Self {
+            start: self.start.on_clock(period),
+            end: self.end.on_clock(period),
+        };
+
         // Build the system that chooses the free values. Everything already known moves to the other
         // side, so the global system never has to exist.
         let cost = snap_cost::<T>();
@@ -281,16 +302,17 @@ impl<
         for (segment, duration) in durations.iter().enumerate() {
             // The segment's cost is written against its coefficients; this restates it against the
             // values at its two ends, which is what neighbouring segments share.
-            let inverse_mapping = endpoint_mapping_inverse(*duration)?;
+            let span = *duration / period;
+            let inverse_mapping = endpoint_mapping_inverse(span)?;
             let in_endpoint_terms =
-                inverse_mapping.transpose() * cost.scale(duration.powi(-7)) * inverse_mapping;
+                inverse_mapping.transpose() * cost.scale(span.powi(-7)) * inverse_mapping;
 
             for local_row in 0..COEFFICIENTS_PER_SEGMENT {
                 let row_waypoint = segment + local_row / DERIVATIVES_PER_WAYPOINT;
                 let row_order = local_row % DERIVATIVES_PER_WAYPOINT;
                 // A row for something already known contributes nothing to choose.
                 let EndpointDerivative::Free(free_row) =
-                    self.classify(row_waypoint, row_order, waypoints, segments)
+                    planner.classify(row_waypoint, row_order, waypoints, segments)
                 else {
                     continue;
                 };
@@ -303,7 +325,7 @@ impl<
                         .copied()
                         .unwrap_or(T::ZERO);
 
-                    match self.classify(column_waypoint, column_order, waypoints, segments) {
+                    match planner.classify(column_waypoint, column_order, waypoints, segments) {
                         EndpointDerivative::Free(free_column) => {
                             // Adjacent segments write the same entry, which is what makes the path
                             // continuous without any condition saying so.
@@ -351,7 +373,7 @@ impl<
         for waypoint in 0..=segments {
             let mut block = [Vector::<DIMENSION, T>::zeros(); DERIVATIVES_PER_WAYPOINT];
             for (order, slot) in block.iter_mut().enumerate() {
-                *slot = match self.classify(waypoint, order, waypoints, segments) {
+                *slot = match planner.classify(waypoint, order, waypoints, segments) {
                     EndpointDerivative::Fixed(value) => value,
                     EndpointDerivative::Free(row) => {
                         Vector::from_fn(|axis| solved.get(row, axis).copied().unwrap_or(T::ZERO))
@@ -384,7 +406,7 @@ impl<
                 let piece = Polynomial::<COEFFICIENTS_PER_SEGMENT, T>::from_endpoint_derivatives(
                     &along_one_axis(&start_block, axis),
                     &along_one_axis(&end_block, axis),
-                    duration,
+                    duration / period,
                 )?;
                 if let Some(slot) = pieces.get_mut(segment).and_then(|row| row.get_mut(axis)) {
                     *slot = piece;
diff --git a/crates/multicalc/src/polynomial/construction.rs b/crates/multicalc/src/polynomial/construction.rs
index edba7c7..6e592f2 100644
--- a/crates/multicalc/src/polynomial/construction.rs
+++ b/crates/multicalc/src/polynomial/construction.rs
@@ -330,7 +330,18 @@ pub(crate) fn endpoint_mapping<T: Numeric>(span: T) -> Matrix<8, 8, T> {
 pub(crate) fn endpoint_mapping_inverse<T: Numeric>(
     span: T,
 ) -> Result<Matrix<8, 8, T>, LinalgError> {
-    endpoint_mapping(span).inverse()
+    // Inverted for a span of one and then restated for this one, which keeps short and long spans
+    // as well conditioned as that.
+    let mut inverse = endpoint_mapping(T::ONE).inverse()?;
+    for column in 0..8 {
+        let span_raised = span.powi((column % 4) as i32);
+        for row in 0..8 {
+            if let Some(slot) = inverse.get_mut(row, column) {
+                *slot *= span_raised;
+            }
+        }
+    }
+    Ok(inverse)
 }
 
 impl<T: Numeric> Polynomial<4, T> {
-- 
2.43.0


From a56845afcdd43483ca0bb3aba3caf2f7cbe1c686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:09 +0000
Subject: [PATCH 32/59] fix: SavitzkyGolay::latest panicked on an empty window
 instead of reporting it

---
 crates/multicalc/src/signal_processing/savitzky_golay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/multicalc/src/signal_processing/savitzky_golay.rs b/crates/multicalc/src/signal_processing/savitzky_golay.rs
index 018564e..b352fc0 100644
--- a/crates/multicalc/src/signal_processing/savitzky_golay.rs
+++ b/crates/multicalc/src/signal_processing/savitzky_golay.rs
@@ -90,7 +90,7 @@ impl<const WINDOW: usize, const POLYNOMIAL_TERMS: usize, T: Numeric>
     /// [`SignalError::PolynomialOrderTooHigh`] if there are more terms than samples to fit them,
     /// and [`SignalError::Linalg`] if the fit cannot be worked out.
     pub fn latest(timestep: T) -> Result<Self, SignalError> {
-        Self::build(timestep, WINDOW - 1)
+        Self::build(timestep, WINDOW.saturating_sub(1))
     }
 
     /// Feeds one sample and returns the smoothed value of the window it now sits in.
-- 
2.43.0


From 1fcfb7c6b3da9faa525c4d32e173de0ef50e4e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:09 +0000
Subject: [PATCH 33/59] fix: SavitzkyGolay lost polynomial terms over long
 windows at single precision

---
 .../multicalc/src/signal_processing/savitzky_golay.rs  | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/multicalc/src/signal_processing/savitzky_golay.rs b/crates/multicalc/src/signal_processing/savitzky_golay.rs
index b352fc0..5095249 100644
--- a/crates/multicalc/src/signal_processing/savitzky_golay.rs
+++ b/crates/multicalc/src/signal_processing/savitzky_golay.rs
@@ -164,16 +164,20 @@ impl<const WINDOW: usize, const POLYNOMIAL_TERMS: usize, T: Numeric>
             return Err(SignalError::PolynomialOrderTooHigh);
         }
 
+        // Positions are measured in window lengths rather than samples. Powers of whole sample
+        // counts spread the columns so far apart that a long window loses terms as noise.
+        let span = T::from_usize(WINDOW);
         let fit = Matrix::<WINDOW, POLYNOMIAL_TERMS, T>::from_fn(|sample, term| {
             let offset = T::from_usize(sample) - T::from_usize(read_position);
-            offset.powi(term as i32)
+            (offset / span).powi(term as i32)
         });
+        let window_seconds = span * timestep;
         let inverse = fit.pseudo_inverse()?;
 
         let smoothing_weights = core::array::from_fn(|sample| inverse[(0, sample)]);
         let first_derivative_weights = core::array::from_fn(|sample| {
             if POLYNOMIAL_TERMS >= 2 {
-                inverse[(1, sample)] / timestep
+                inverse[(1, sample)] / window_seconds
             } else {
                 T::ZERO
             }
@@ -181,7 +185,7 @@ impl<const WINDOW: usize, const POLYNOMIAL_TERMS: usize, T: Numeric>
         // The curve's third term is half the bend, so it doubles here.
         let second_derivative_weights = core::array::from_fn(|sample| {
             if POLYNOMIAL_TERMS >= 3 {
-                T::TWO * inverse[(2, sample)] / (timestep * timestep)
+                T::TWO * inverse[(2, sample)] / (window_seconds * window_seconds)
             } else {
                 T::ZERO
             }
-- 
2.43.0


From 6bcffb492051a753c692974663a1984292c255d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:36 +0000
Subject: [PATCH 34/59] fix: filter designs could hand back a filter that grows
 without bound

A band-pass or notch whose band reached half the sampling rate took a negative
tangent and came out unstable, as did weights rounded onto the edge of stability.
---
 .../multicalc/src/signal_processing/biquad.rs | 27 ++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/crates/multicalc/src/signal_processing/biquad.rs b/crates/multicalc/src/signal_processing/biquad.rs
index 4127e6b..7f78be1 100644
--- a/crates/multicalc/src/signal_processing/biquad.rs
+++ b/crates/multicalc/src/signal_processing/biquad.rs
@@ -86,7 +86,7 @@ impl<T: Numeric> BiquadCoefficients<T> {
     /// [`SignalError::NonPositiveTimestep`] if `timestep` is not strictly positive,
     /// [`SignalError::NonPositiveQualityFactor`] if `quality_factor` is not strictly positive, or
     /// [`SignalError::FrequencyOutOfRange`] if `cutoff_hz` is not strictly positive or reaches half
-    /// the sampling rate.
+    /// the sampling rate, or if the weights would round to a filter that does not settle.
     ///
     /// ```
     /// use multicalc::signal_processing::BiquadCoefficients;
@@ -104,7 +104,7 @@ impl<T: Numeric> BiquadCoefficients<T> {
     /// [`SignalError::NonPositiveTimestep`] if `timestep` is not strictly positive,
     /// [`SignalError::NonPositiveQualityFactor`] if `quality_factor` is not strictly positive, or
     /// [`SignalError::FrequencyOutOfRange`] if `cutoff_hz` is not strictly positive or reaches half
-    /// the sampling rate.
+    /// the sampling rate, or if the weights would round to a filter that does not settle.
     ///
     /// ```
     /// use multicalc::signal_processing::BiquadCoefficients;
@@ -125,7 +125,8 @@ impl<T: Numeric> BiquadCoefficients<T> {
     /// [`SignalError::NonPositiveTimestep`] if `timestep` is not strictly positive,
     /// [`SignalError::NonPositiveQualityFactor`] if `quality_factor` is not strictly positive, or
     /// [`SignalError::FrequencyOutOfRange`] if `center_hz` is not strictly positive or reaches half
-    /// the sampling rate.
+    /// the sampling rate, if the band is so wide that `center_hz / quality_factor` reaches half the
+    /// sampling rate, or if the weights would round to a filter that does not settle.
     ///
     /// ```
     /// use multicalc::signal_processing::BiquadCoefficients;
@@ -146,7 +147,8 @@ impl<T: Numeric> BiquadCoefficients<T> {
     /// [`SignalError::NonPositiveTimestep`] if `timestep` is not strictly positive,
     /// [`SignalError::NonPositiveQualityFactor`] if `quality_factor` is not strictly positive, or
     /// [`SignalError::FrequencyOutOfRange`] if `center_hz` is not strictly positive or reaches half
-    /// the sampling rate.
+    /// the sampling rate, if the band is so wide that `center_hz / quality_factor` reaches half the
+    /// sampling rate, or if the weights would round to a filter that does not settle.
     ///
     /// ```
     /// use multicalc::signal_processing::BiquadCoefficients;
@@ -317,6 +319,13 @@ impl<T: Numeric> BiquadCoefficients<T> {
         timestep: T,
     ) -> Result<Self, SignalError> {
         Self::check_design(frequency_hz, quality_factor, timestep)?;
+        // The band-pass and notch take their band from a tangent, which turns negative once the
+        // band reaches half the sampling rate and would hand back a filter that grows.
+        if matches!(design, Design::BandPass | Design::Notch)
+            && frequency_hz * timestep / quality_factor >= T::HALF
+        {
+            return Err(SignalError::FrequencyOutOfRange);
+        }
 
         let angle = T::TWO * T::PI * frequency_hz * timestep;
         let cosine = angle.cos();
@@ -344,11 +353,17 @@ impl<T: Numeric> BiquadCoefficients<T> {
             Design::Notch => [T::ONE, -(T::TWO * cosine), T::ONE],
         };
 
-        Ok(Self::from_unnormalized(
+        let coefficients = Self::from_unnormalized(
             feed_forward,
             [T::ONE + alpha, -(T::TWO * cosine), T::ONE - alpha],
             timestep,
-        ))
+        );
+        // Too low a frequency, or too extreme a sharpness, for the precision puts the rounded
+        // weights on the edge of stability, where the filter no longer settles.
+        if !coefficients.is_stable() {
+            return Err(SignalError::FrequencyOutOfRange);
+        }
+        Ok(coefficients)
     }
 
     /// Divides the six raw weights through by the leading output weight and keeps the five that
-- 
2.43.0


From 8d69d26ddcbdff94c450eb48dbacfc32da0e37d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:57 +0000
Subject: [PATCH 35/59] fix: a second unscented update after one predict
 counted the same uncertainty twice

The points predict left behind were reused, so the covariance could go negative.
---
 .../src/estimation/unscented_kalman_filter.rs | 27 +++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/crates/multicalc/src/estimation/unscented_kalman_filter.rs b/crates/multicalc/src/estimation/unscented_kalman_filter.rs
index 8fad1d8..db23ee3 100644
--- a/crates/multicalc/src/estimation/unscented_kalman_filter.rs
+++ b/crates/multicalc/src/estimation/unscented_kalman_filter.rs
@@ -87,6 +87,9 @@ pub struct UnscentedKalmanFilter<
     beta: T,
     kappa: T,
     regularization: T,
+    /// Whether the points have already been folded into the estimate once, so the next update has
+    /// to draw its own.
+    points_spent: bool,
 }
 
 impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeric>
@@ -131,6 +134,7 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeri
             beta: T::TWO,
             kappa: T::ZERO,
             regularization: T::ZERO,
+            points_spent: false,
         }
     }
 
@@ -301,6 +305,7 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeri
         }
         self.propagated_plus = propagated_plus;
         self.propagated_minus = propagated_minus;
+        self.points_spent = false;
 
         // The model is the caller's, so it may have handed back an infinity or a NaN.
         if !self.propagated_centre.is_finite()
@@ -344,6 +349,23 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeri
         Ok(())
     }
 
+    /// Draws fresh points around the estimate when the ones [`predict`](Self::predict) left behind
+    /// have already been folded in. They describe the uncertainty before that reading, so using
+    /// them again would take the same uncertainty away twice.
+    fn refresh_points(&mut self) -> Result<(), EstimationError> {
+        if !self.points_spent {
+            return Ok(());
+        }
+        let directions = self.offset_directions()?;
+        self.propagated_centre = self.state;
+        self.propagated_plus =
+            Matrix::from_fn(|row, column| self.state[row] + directions[(row, column)]);
+        self.propagated_minus =
+            Matrix::from_fn(|row, column| self.state[row] - directions[(row, column)]);
+        self.points_spent = false;
+        Ok(())
+    }
+
     /// Pushes the points [`predict`](Self::predict) left behind through the measurement model, and
     /// returns where they landed together with their average.
     fn measurement_sigma_points<MeasurementModel>(
@@ -481,6 +503,7 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeri
         self.covariance = (self.covariance
             - kalman_gain * innovation_covariance * kalman_gain.transpose())
         .symmetrized();
+        self.points_spent = true;
         Ok(())
     }
 
@@ -489,6 +512,8 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeri
     /// Works from the points [`predict`](Self::predict) left behind, so call it after a predict: on
     /// a filter that has never predicted, the points all sit on the initial estimate, the gain
     /// works out to zero, and the estimate is left where it was.
+    /// A second update before the next predict, for a second sensor, draws fresh points around the
+    /// estimate the first one left.
     ///
     /// Use [`update_with_residual`](Self::update_with_residual) when any measurement component is
     /// an angle: plain subtraction is wrong across the ±π wrap.
@@ -508,6 +533,7 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeri
         if !measurement.is_finite() {
             return Err(EstimationError::NonFinite);
         }
+        self.refresh_points()?;
         let (centre, plus_side, minus_side, predicted) =
             self.measurement_sigma_points(measurement_model)?;
         self.fold_in(
@@ -592,6 +618,7 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeri
         if !residual.is_finite() {
             return Err(EstimationError::NonFinite);
         }
+        self.refresh_points()?;
         let (centre, plus_side, minus_side, predicted) =
             self.measurement_sigma_points(measurement_model)?;
         self.fold_in(centre, plus_side, minus_side, predicted, residual)
-- 
2.43.0


From c637032df807a21236318d2f6c485c4c9b666d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:59 +0000
Subject: [PATCH 36/59] fix: ConstantTurnAndSpeed lost digits in slow turns and
 its slope when driving straight

---
 crates/multicalc/src/estimation/models.rs | 38 +++++++++++++++--------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/crates/multicalc/src/estimation/models.rs b/crates/multicalc/src/estimation/models.rs
index be8cab7..020fdb1 100644
--- a/crates/multicalc/src/estimation/models.rs
+++ b/crates/multicalc/src/estimation/models.rs
@@ -44,23 +44,35 @@ impl VectorFn<5, 5> for ConstantTurnAndSpeed {
         let [x, y, heading, speed, turn_rate] = *state;
         let timestep = S::from_f64(self.timestep);
         let next_heading = heading + turn_rate * timestep;
-        // Straighten the arc when the turn rate is tiny, so the radius cannot blow up.
-        let (next_x, next_y) = if turn_rate.abs() > S::from_f64(1e-6) {
-            let radius = speed / turn_rate;
-            (
-                x + radius * (next_heading.sin() - heading.sin()),
-                y + radius * (heading.cos() - next_heading.cos()),
-            )
-        } else {
-            (
-                x + speed * heading.cos() * timestep,
-                y + speed * heading.sin() * timestep,
-            )
-        };
+        // The chord of the arc, run along the heading half way round it. Written this way nothing
+        // is divided by the turn rate, so a slow turn loses no digits and driving straight still
+        // knows how the path bends when the turn rate moves.
+        let half_turn = turn_rate * timestep * S::HALF;
+        let chord = speed * timestep * sine_over_angle(half_turn);
+        let middle_heading = heading + half_turn;
+        let next_x = x + chord * middle_heading.cos();
+        let next_y = y + chord * middle_heading.sin();
+
         [next_x, next_y, next_heading.wrap_to_pi(), speed, turn_rate]
     }
 }
 
+/// `sin(angle) / angle`, from its series near zero so the value and its derivatives hold there.
+fn sine_over_angle<S: Numeric>(angle: S) -> S {
+    if angle.abs() < S::from_f64(1e-2) {
+        let square = angle * angle;
+        S::ONE
+            - square
+                * S::from_f64(1.0 / 6.0)
+                * (S::ONE
+                    - square
+                        * S::from_f64(1.0 / 20.0)
+                        * (S::ONE - square * S::from_f64(1.0 / 42.0)))
+    } else {
+        angle.sin() / angle
+    }
+}
+
 /// A sensor reading state components straight off, such as a position fix reading `[x, y]`.
 ///
 /// The components come back in the order they are listed.
-- 
2.43.0


From 7b70d3e644f035c0c869167a3a505accd7a610ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:19 +0000
Subject: [PATCH 37/59] fix: resampling could pick a particle of zero weight

---
 .../src/estimation/particle_filter.rs         | 34 ++++++++++++++-----
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/crates/multicalc/src/estimation/particle_filter.rs b/crates/multicalc/src/estimation/particle_filter.rs
index 1556cb2..69c1615 100644
--- a/crates/multicalc/src/estimation/particle_filter.rs
+++ b/crates/multicalc/src/estimation/particle_filter.rs
@@ -89,11 +89,12 @@ fn systematic<T: RandomScalar, R: RandomSource<T>>(
     // Picks sit at one-stratum spacing, all shifted by the same offset. Walk a running total of the
     // weights and place each pick on the first source whose total reaches it, so heavier sources,
     // which span more of the line, catch more picks.
+    let last = last_weighted_source(weights);
     let mut running_sum = weights[0];
     let mut source = 0;
     for (step, slot) in indices.iter_mut().enumerate() {
         let position = (offset + T::from_usize(step)) / count_scalar;
-        while position >= running_sum && source + 1 < count {
+        while position >= running_sum && source < last {
             source += 1;
             running_sum += weights[source];
         }
@@ -112,12 +113,13 @@ fn stratified<T: RandomScalar, R: RandomSource<T>>(
 
     // Same walk as systematic, but each stratum gets its own random offset instead of sharing one,
     // so the picks are still one per stratum but jittered independently within them.
+    let last = last_weighted_source(weights);
     let mut running_sum = weights[0];
     let mut source = 0;
     for (step, slot) in indices.iter_mut().enumerate() {
         let offset = random.next_unit();
         let position = (offset + T::from_usize(step)) / count_scalar;
-        while position >= running_sum && source + 1 < count {
+        while position >= running_sum && source < last {
             source += 1;
             running_sum += weights[source];
         }
@@ -174,20 +176,30 @@ fn residual<T: RandomScalar, R: RandomSource<T>>(
     }
 }
 
-/// The smallest source whose cumulative weight reaches `draw`.
+/// The last source that carries any weight. The weights' running total can stop a hair short of one,
+/// so a pick beyond it lands here rather than on a source that must never be picked.
+fn last_weighted_source<T: Numeric>(weights: &[T]) -> usize {
+    weights
+        .iter()
+        .rposition(|&weight| weight > T::ZERO)
+        .unwrap_or(weights.len() - 1)
+}
+
+/// The smallest source whose cumulative weight passes `draw`. A source without weight never does.
 #[must_use]
 fn draw_from_weights<T: Numeric>(weights: &[T], draw: T) -> usize {
     let mut running_sum = T::ZERO;
     for (source, &weight) in weights.iter().enumerate() {
         running_sum += weight;
-        if running_sum >= draw {
+        if running_sum > draw {
             return source;
         }
     }
-    weights.len() - 1
+    last_weighted_source(weights)
 }
 
-/// The smallest source whose cumulative fractional remainder reaches `draw`.
+/// The smallest source whose cumulative fractional remainder passes `draw`. A source without a
+/// remainder never does.
 #[must_use]
 fn draw_from_remainders<T: Numeric>(
     weights: &[T],
@@ -199,11 +211,17 @@ fn draw_from_remainders<T: Numeric>(
     for (source, &weight) in weights.iter().enumerate() {
         let scaled = count_scalar * weight;
         running_sum += (scaled - scaled.floor()) / remainder_sum;
-        if running_sum >= draw {
+        if running_sum > draw {
             return source;
         }
     }
-    weights.len() - 1
+    weights
+        .iter()
+        .rposition(|&weight| {
+            let scaled = count_scalar * weight;
+            scaled > scaled.floor()
+        })
+        .unwrap_or_else(|| last_weighted_source(weights))
 }
 
 /// Logs a normalized weight without letting linear underflow make it permanently impossible.
-- 
2.43.0


From be27bc12ec23736a17c320daa0176f99a941f48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:19 +0000
Subject: [PATCH 38/59] fix: an unusable score no longer ruins the particle
 weights

---
 .../multicalc/src/estimation/particle_filter.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/crates/multicalc/src/estimation/particle_filter.rs b/crates/multicalc/src/estimation/particle_filter.rs
index 69c1615..623ce76 100644
--- a/crates/multicalc/src/estimation/particle_filter.rs
+++ b/crates/multicalc/src/estimation/particle_filter.rs
@@ -654,24 +654,21 @@ where
             return Err(EstimationError::WeightsDegenerate);
         }
 
-        // Back to plain weights, measured relative to the heaviest particle, and total them.
+        // Back to plain weights, measured relative to the heaviest particle, and total them. They stay
+        // in the scratch buffer until the total is known to be usable, so an error changes nothing.
         let mut sum = T::ZERO;
-        for i in 0..self.weights.len() {
-            let weight = (self.log_weight_scratch[i] - largest).exp();
-            self.weights[i] = weight;
-            sum += weight;
+        for log_weight in self.log_weight_scratch.iter_mut() {
+            *log_weight = (*log_weight - largest).exp();
+            sum += *log_weight;
         }
-
         // A zero or non-finite total leaves nothing to divide by, so the cloud has degenerated.
         if sum <= T::ZERO || !sum.is_finite() {
             return Err(EstimationError::WeightsDegenerate);
         }
-
         // Scale so the weights sum to one.
-        for weight in self.weights.iter_mut() {
-            *weight /= sum;
+        for (weight, &relative) in self.weights.iter_mut().zip(&self.log_weight_scratch) {
+            *weight = relative / sum;
         }
-
         // If the weight has piled onto too few particles, refresh the cloud before it collapses.
         if self.effective_sample_size() < self.resample_threshold {
             self.resample();
-- 
2.43.0


From c12a7e0ec3d4a3a4fecf0cc2fdd9522a982bb4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:05 +0000
Subject: [PATCH 39/59] fix: deeply nested or long-chained model files
 overflowed the stack

Bodies, default blocks and URDF links are walked with a list of what is left
rather than by recursion, so a hostile or generated file cannot abort the
program.
---
 crates/multicalc-robot-model/src/mjcf/body.rs | 82 +++++++++---------
 .../src/mjcf/defaults.rs                      | 27 ++++--
 crates/multicalc-robot-model/src/urdf/tree.rs | 83 ++++++-------------
 3 files changed, 85 insertions(+), 107 deletions(-)

diff --git a/crates/multicalc-robot-model/src/mjcf/body.rs b/crates/multicalc-robot-model/src/mjcf/body.rs
index 77da9f7..a6b7e65 100644
--- a/crates/multicalc-robot-model/src/mjcf/body.rs
+++ b/crates/multicalc-robot-model/src/mjcf/body.rs
@@ -3,6 +3,7 @@
 //! Spatial inertia comes from `<inertial>` where stated, otherwise it is integrated over the
 //! body's geoms.
 
+use multicalc::kinematics::JointKind;
 use multicalc::linear_algebra::{Matrix, Matrix3D, Vector, Vector3D};
 use multicalc::spatial::{SE3, SO3, SpatialInertia};
 use roxmltree::{Document, Node};
@@ -50,16 +51,25 @@ pub(crate) fn read(document: &Document) -> Result<ParsedModel, ModelError> {
 
     let mut bodies = Vec::new();
     let mut floating_base = false;
-    for node in top_level_bodies(worldbody) {
-        walk_body(
-            node,
-            None,
-            None,
-            &table,
-            &settings,
-            &mut bodies,
-            &mut floating_base,
-        )?;
+    // Bodies still to read, the next one last. A list rather than recursion, so how deep a file
+    // nests cannot run out of stack.
+    let mut pending: Vec<PendingBody> = top_level_bodies(worldbody)
+        .into_iter()
+        .map(|node| (node, None, None))
+        .rev()
+        .collect();
+    while let Some((node, parent, inherited_class)) = pending.pop() {
+        let index = bodies.len();
+        let (body, class_chain) = read_body(node, parent, inherited_class, &table, &settings)?;
+        floating_base |= body
+            .joint
+            .as_ref()
+            .is_some_and(|joint| joint.kind == JointKind::Floating);
+        bodies.push(body);
+
+        let first_child = pending.len();
+        pending.extend(elements(node, "body").map(|child| (child, Some(index), class_chain)));
+        pending[first_child..].reverse();
     }
 
     if bodies.is_empty() {
@@ -74,34 +84,40 @@ pub(crate) fn read(document: &Document) -> Result<ParsedModel, ModelError> {
     })
 }
 
+/// A `<body>` still to read: its element, its parent's index, and the `childclass` it inherits.
+type PendingBody<'doc, 'input> = (Node<'doc, 'input>, Option<usize>, Option<&'doc str>);
+
 /// The `<body>` children of `<worldbody>`, seeing through a nested `<worldbody>` spliced in by an
 /// `<include>`. Splicing reinserts the included file's `<mujoco>` contents verbatim, so an
 /// included body list arrives wrapped in its own `<worldbody>`. Nested `<body>` elements are never
-/// wrapped this way, so recursion below the top level is a plain child scan.
+/// wrapped this way, so below the top level a plain child scan is enough.
 fn top_level_bodies<'doc, 'input>(worldbody: Node<'doc, 'input>) -> Vec<Node<'doc, 'input>> {
     let mut found = Vec::new();
-    for child in worldbody.children().filter(Node::is_element) {
-        match child.tag_name().name() {
-            "body" => found.push(child),
-            "worldbody" => found.extend(top_level_bodies(child)),
-            _ => {}
+    let mut pending = vec![worldbody];
+    while let Some(node) = pending.pop() {
+        if node.tag_name().name() == "body" {
+            found.push(node);
+            continue;
         }
+        let first_child = pending.len();
+        pending.extend(node.children().filter(|child| {
+            child.is_element() && matches!(child.tag_name().name(), "body" | "worldbody")
+        }));
+        pending[first_child..].reverse();
     }
     found
 }
 
-/// Parses one body, emits it, then recurses into its `<body>` children.
+/// Parses one body, and the `childclass` its children inherit.
 ///
 /// `inherited_class` is the nearest enclosing `childclass`, carried down until overridden.
-fn walk_body(
-    node: Node,
+fn read_body<'doc>(
+    node: Node<'doc, '_>,
     parent: Option<usize>,
-    inherited_class: Option<&str>,
+    inherited_class: Option<&'doc str>,
     table: &DefaultTable,
     settings: &CompilerSettings,
-    bodies: &mut Vec<ParsedBody>,
-    floating_base: &mut bool,
-) -> Result<(), ModelError> {
+) -> Result<(ParsedBody, Option<&'doc str>), ModelError> {
     let name = node.attribute("name").unwrap_or("body").to_owned();
     reject_orientation_attributes(node, "body")?;
 
@@ -125,7 +141,6 @@ fn walk_body(
             if parent.is_some() {
                 return Err(ModelError::FreeJointNotAtRoot { body: name });
             }
-            *floating_base = true;
             Some(JointDescription::floating(name.clone()))
         }
         _ => read_joint(node, table, class_chain, settings, &name)?,
@@ -148,27 +163,14 @@ fn walk_body(
         },
     };
 
-    let index = bodies.len();
-    bodies.push(ParsedBody {
+    let body = ParsedBody {
         name,
         parent,
         pose,
         inertia,
         joint,
-    });
-
-    for child in elements(node, "body") {
-        walk_body(
-            child,
-            Some(index),
-            class_chain,
-            table,
-            settings,
-            bodies,
-            floating_base,
-        )?;
-    }
-    Ok(())
+    };
+    Ok((body, class_chain))
 }
 
 /// Whether an element is a free joint: `<freejoint/>` or `<joint type="free">`.
diff --git a/crates/multicalc-robot-model/src/mjcf/defaults.rs b/crates/multicalc-robot-model/src/mjcf/defaults.rs
index c457afd..bccd0e1 100644
--- a/crates/multicalc-robot-model/src/mjcf/defaults.rs
+++ b/crates/multicalc-robot-model/src/mjcf/defaults.rs
@@ -126,7 +126,15 @@ impl DefaultTable {
     pub(crate) fn build(root: Node) -> Result<Self, ModelError> {
         let mut table = DefaultTable::default();
         for node in elements(root, "default") {
-            table.walk(node, &ClassDefaults::default())?;
+            // Blocks still to read, the next one last, each with what it inherits. A list rather
+            // than recursion, so how deep a file nests cannot run out of stack.
+            let mut pending = vec![(node, ClassDefaults::default())];
+            while let Some((block, inherited)) = pending.pop() {
+                let settings = table.read_block(block, inherited)?;
+                let first_nested = pending.len();
+                pending.extend(elements(block, "default").map(|nested| (nested, settings.clone())));
+                pending[first_nested..].reverse();
+            }
         }
         Ok(table)
     }
@@ -144,9 +152,14 @@ impl DefaultTable {
         }
     }
 
-    /// Flattens one block, then its nested blocks, each starting from what it inherits.
-    fn walk(&mut self, node: Node, inherited: &ClassDefaults) -> Result<(), ModelError> {
-        let mut settings = inherited.clone();
+    /// Flattens one block, starting from what it inherits, and returns what its nested blocks
+    /// inherit in turn.
+    fn read_block(
+        &mut self,
+        node: Node,
+        inherited: ClassDefaults,
+    ) -> Result<ClassDefaults, ModelError> {
+        let mut settings = inherited;
         for geom in elements(node, "geom") {
             settings.geom = settings.geom.overridden_by(&GeomDefaults::read(geom)?);
         }
@@ -160,11 +173,7 @@ impl DefaultTable {
             }
             None => self.root = settings.clone(),
         }
-
-        for nested in elements(node, "default") {
-            self.walk(nested, &settings)?;
-        }
-        Ok(())
+        Ok(settings)
     }
 }
 
diff --git a/crates/multicalc-robot-model/src/urdf/tree.rs b/crates/multicalc-robot-model/src/urdf/tree.rs
index 00bc86c..44c7c26 100644
--- a/crates/multicalc-robot-model/src/urdf/tree.rs
+++ b/crates/multicalc-robot-model/src/urdf/tree.rs
@@ -74,17 +74,31 @@ pub(crate) fn build(
 
     let mut bodies = Vec::with_capacity(links.len());
     let mut visited = vec![false; links.len()];
-    walk(
-        root,
-        None,
-        None,
-        links,
-        joints,
-        &children,
-        &driven,
-        &mut visited,
-        &mut bodies,
-    );
+    // Links still to emit, the next one last, each with its parent body and the joint leading to
+    // it; the root has neither and sits at identity. A list rather than recursion, so a long chain
+    // cannot run out of stack.
+    let mut pending: Vec<(usize, Option<usize>, Option<usize>)> = vec![(root, None, None)];
+    while let Some((link_index, parent, incoming_joint)) = pending.pop() {
+        visited[link_index] = true;
+        let link = &links[link_index];
+        let joint = incoming_joint.map(|index| &joints[index]);
+
+        let body_index = bodies.len();
+        bodies.push(BodyDescription {
+            name: link.name.clone(),
+            parent,
+            pose: joint.map_or_else(SE3::identity, |joint| joint.origin),
+            inertia: link.inertia,
+            joint: joint.and_then(|joint| joint.description.clone()),
+        });
+
+        pending.extend(
+            children[link_index]
+                .iter()
+                .rev()
+                .map(|&joint_index| (driven[joint_index], Some(body_index), Some(joint_index))),
+        );
+    }
 
     // The walk reaches every link unless some form a cycle disconnected from the root.
     if let Some(stranded) = visited.iter().position(|seen| !seen) {
@@ -111,50 +125,3 @@ pub(crate) fn build(
 
     Ok(bodies)
 }
-
-/// Emits one body, then recurses into its children.
-///
-/// `incoming` is the link's parent joint, which supplies its pose and joint; the root has none and
-/// sits at identity.
-#[expect(
-    clippy::too_many_arguments,
-    reason = "the recursion threads both source lists, the resolved topology, and the output"
-)]
-fn walk(
-    link_index: usize,
-    parent_body: Option<usize>,
-    incoming: Option<usize>,
-    links: &[ParsedLink],
-    joints: &[ParsedJoint],
-    children: &[Vec<usize>],
-    driven: &[usize],
-    visited: &mut [bool],
-    bodies: &mut Vec<BodyDescription>,
-) {
-    visited[link_index] = true;
-    let link = &links[link_index];
-    let joint = incoming.map(|index| &joints[index]);
-
-    let body_index = bodies.len();
-    bodies.push(BodyDescription {
-        name: link.name.clone(),
-        parent: parent_body,
-        pose: joint.map_or_else(SE3::identity, |joint| joint.origin),
-        inertia: link.inertia,
-        joint: joint.and_then(|joint| joint.description.clone()),
-    });
-
-    for &joint_index in &children[link_index] {
-        walk(
-            driven[joint_index],
-            Some(body_index),
-            Some(joint_index),
-            links,
-            joints,
-            children,
-            driven,
-            visited,
-            bodies,
-        );
-    }
-}
-- 
2.43.0


From 086a7de6e28d6fc992784325a2bfcec659506bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:28 +0000
Subject: [PATCH 40/59] fix: an include holding another include panicked or
 spliced garbage

Both stretches of text were replaced although they overlap. MuJoCo refuses an
include with children, and so does this now.
---
 crates/multicalc-robot-model/src/mjcf/document.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/multicalc-robot-model/src/mjcf/document.rs b/crates/multicalc-robot-model/src/mjcf/document.rs
index 0689783..7a0924a 100644
--- a/crates/multicalc-robot-model/src/mjcf/document.rs
+++ b/crates/multicalc-robot-model/src/mjcf/document.rs
@@ -32,6 +32,12 @@ fn read(path: &Path, depth: usize) -> Result<String, ModelError> {
             let file = node
                 .attribute("file")
                 .ok_or_else(|| bad_attribute(node, "file", ""))?;
+            // One include inside another would leave two overlapping stretches of text to replace.
+            if node.children().any(|child| child.is_element()) {
+                return Err(ModelError::Xml(format!(
+                    "the include of {file} holds other elements"
+                )));
+            }
             includes.push((node.range(), file.to_owned()));
         }
     }
-- 
2.43.0


From e905c9331ed3801943cc643c41580d7dc118eafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:58 +0000
Subject: [PATCH 41/59] fix: bodies in a second worldbody section were dropped

Includes commonly bring their own worldbody; MuJoCo merges repeated sections,
and so does the reader now.
---
 crates/multicalc-robot-model/src/mjcf/body.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/multicalc-robot-model/src/mjcf/body.rs b/crates/multicalc-robot-model/src/mjcf/body.rs
index a6b7e65..38a1cec 100644
--- a/crates/multicalc-robot-model/src/mjcf/body.rs
+++ b/crates/multicalc-robot-model/src/mjcf/body.rs
@@ -47,13 +47,18 @@ pub(crate) fn read(document: &Document) -> Result<ParsedModel, ModelError> {
     let name = root.attribute("model").unwrap_or("model").to_owned();
     let settings = CompilerSettings::read(root)?;
     let table = DefaultTable::build(root)?;
-    let worldbody = element(root, "worldbody").ok_or(ModelError::MissingWorldbody)?;
+    // A file may hold several of these, most often one of its own and one spliced in by an
+    // `<include>`. Together they are one world.
+    let worldbodies: Vec<Node> = elements(root, "worldbody").collect();
+    if worldbodies.is_empty() {
+        return Err(ModelError::MissingWorldbody);
+    }
 
     let mut bodies = Vec::new();
     let mut floating_base = false;
     // Bodies still to read, the next one last. A list rather than recursion, so how deep a file
     // nests cannot run out of stack.
-    let mut pending: Vec<PendingBody> = top_level_bodies(worldbody)
+    let mut pending: Vec<PendingBody> = top_level_bodies(worldbodies)
         .into_iter()
         .map(|node| (node, None, None))
         .rev()
@@ -87,13 +92,14 @@ pub(crate) fn read(document: &Document) -> Result<ParsedModel, ModelError> {
 /// A `<body>` still to read: its element, its parent's index, and the `childclass` it inherits.
 type PendingBody<'doc, 'input> = (Node<'doc, 'input>, Option<usize>, Option<&'doc str>);
 
-/// The `<body>` children of `<worldbody>`, seeing through a nested `<worldbody>` spliced in by an
+/// The `<body>` children of every `<worldbody>`, seeing through a nested `<worldbody>` spliced in by an
 /// `<include>`. Splicing reinserts the included file's `<mujoco>` contents verbatim, so an
 /// included body list arrives wrapped in its own `<worldbody>`. Nested `<body>` elements are never
 /// wrapped this way, so below the top level a plain child scan is enough.
-fn top_level_bodies<'doc, 'input>(worldbody: Node<'doc, 'input>) -> Vec<Node<'doc, 'input>> {
+fn top_level_bodies<'doc, 'input>(worldbodies: Vec<Node<'doc, 'input>>) -> Vec<Node<'doc, 'input>> {
     let mut found = Vec::new();
-    let mut pending = vec![worldbody];
+    let mut pending = worldbodies;
+    pending.reverse();
     while let Some(node) = pending.pop() {
         if node.tag_name().name() == "body" {
             found.push(node);
-- 
2.43.0


From 3fecf8a0d55a70818b6eded25dd22491d9560025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:00 +0000
Subject: [PATCH 42/59] fix: a second compiler section was ignored

A main file's compiler section without an angle unit hid the included robot's
radians, so its limits were read as degrees.
---
 .../src/mjcf/compiler.rs                      | 65 ++++++++++---------
 1 file changed, 34 insertions(+), 31 deletions(-)

diff --git a/crates/multicalc-robot-model/src/mjcf/compiler.rs b/crates/multicalc-robot-model/src/mjcf/compiler.rs
index ca257a5..a5273d6 100644
--- a/crates/multicalc-robot-model/src/mjcf/compiler.rs
+++ b/crates/multicalc-robot-model/src/mjcf/compiler.rs
@@ -3,7 +3,7 @@
 use roxmltree::Node;
 
 use crate::ModelError;
-use crate::xml::{bad_attribute, element};
+use crate::xml::{bad_attribute, elements};
 
 /// File-wide settings governing how the rest of the document parses.
 pub(crate) struct CompilerSettings {
@@ -26,39 +26,42 @@ pub(crate) enum InertiaFromGeom {
 }
 
 impl CompilerSettings {
-    /// The first `<compiler>` child of `root`, with MJCF's defaults (`angle="degree"`,
-    /// `autolimits="true"`, `inertiafromgeom="auto"`) for absent attributes.
+    /// The `<compiler>` children of `root`, with MJCF's defaults (`angle="degree"`,
+    /// `autolimits="true"`, `inertiafromgeom="auto"`) for absent attributes. A file may hold
+    /// several, most often one of its own and one spliced in by an `<include>`; the last to state
+    /// an attribute wins.
     pub(crate) fn read(root: Node) -> Result<Self, ModelError> {
-        let Some(compiler) = element(root, "compiler") else {
-            return Ok(CompilerSettings {
-                angle_in_degrees: true,
-                auto_limits: true,
-                inertia_from_geom: InertiaFromGeom::Auto,
-            });
+        let mut settings = CompilerSettings {
+            angle_in_degrees: true,
+            auto_limits: true,
+            inertia_from_geom: InertiaFromGeom::Auto,
         };
 
-        let angle_in_degrees = match compiler.attribute("angle").unwrap_or("degree") {
-            "degree" => true,
-            "radian" => false,
-            value => return Err(bad_attribute(compiler, "angle", value)),
-        };
-        let auto_limits = match compiler.attribute("autolimits").unwrap_or("true") {
-            "true" => true,
-            "false" => false,
-            value => return Err(bad_attribute(compiler, "autolimits", value)),
-        };
-        let inertia_from_geom = match compiler.attribute("inertiafromgeom").unwrap_or("auto") {
-            "false" => InertiaFromGeom::Never,
-            "auto" => InertiaFromGeom::Auto,
-            "true" => InertiaFromGeom::Always,
-            value => return Err(bad_attribute(compiler, "inertiafromgeom", value)),
-        };
-
-        Ok(CompilerSettings {
-            angle_in_degrees,
-            auto_limits,
-            inertia_from_geom,
-        })
+        for compiler in elements(root, "compiler") {
+            if let Some(angle) = compiler.attribute("angle") {
+                settings.angle_in_degrees = match angle {
+                    "degree" => true,
+                    "radian" => false,
+                    value => return Err(bad_attribute(compiler, "angle", value)),
+                };
+            }
+            if let Some(auto_limits) = compiler.attribute("autolimits") {
+                settings.auto_limits = match auto_limits {
+                    "true" => true,
+                    "false" => false,
+                    value => return Err(bad_attribute(compiler, "autolimits", value)),
+                };
+            }
+            if let Some(inertia_from_geom) = compiler.attribute("inertiafromgeom") {
+                settings.inertia_from_geom = match inertia_from_geom {
+                    "false" => InertiaFromGeom::Never,
+                    "auto" => InertiaFromGeom::Auto,
+                    "true" => InertiaFromGeom::Always,
+                    value => return Err(bad_attribute(compiler, "inertiafromgeom", value)),
+                };
+            }
+        }
+        Ok(settings)
     }
 
     /// An angle in the file's units, in radians.
-- 
2.43.0


From 48207b585e998948902cc40265652690ebef7cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 43/59] fix: top-level default blocks with a class name, or a
 second one, lost their settings

The top-level block is the root every element starts from, whether or not it is
named (MuJoCo calls it main), and repeated ones add up; a nested block must be
named instead of quietly becoming the root.
---
 .../src/mjcf/defaults.rs                      | 26 ++++++++++++-------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/crates/multicalc-robot-model/src/mjcf/defaults.rs b/crates/multicalc-robot-model/src/mjcf/defaults.rs
index bccd0e1..40f33a7 100644
--- a/crates/multicalc-robot-model/src/mjcf/defaults.rs
+++ b/crates/multicalc-robot-model/src/mjcf/defaults.rs
@@ -10,7 +10,8 @@ use roxmltree::Node;
 
 use crate::ModelError;
 use crate::xml::{
-    elements, fixed, parse_list, parse_scalar, parse_vector2, parse_vector3, parse_vector4,
+    bad_attribute, elements, fixed, parse_list, parse_scalar, parse_vector2, parse_vector3,
+    parse_vector4,
 };
 
 /// Geom settings from one default class. `None` means unset at this level.
@@ -114,6 +115,9 @@ pub(crate) struct ClassDefaults {
     pub joint: JointDefaults,
 }
 
+/// MuJoCo's name for the top-level block.
+const ROOT_CLASS: &str = "main";
+
 /// Every named class, pre-flattened so lookup needs no traversal.
 #[derive(Debug, Default)]
 pub(crate) struct DefaultTable {
@@ -128,9 +132,16 @@ impl DefaultTable {
         for node in elements(root, "default") {
             // Blocks still to read, the next one last, each with what it inherits. A list rather
             // than recursion, so how deep a file nests cannot run out of stack.
-            let mut pending = vec![(node, ClassDefaults::default())];
+            //
+            // Repeated top-level blocks, as an `<include>` brings in, add to one root.
+            let mut pending = vec![(node, table.root.clone())];
             while let Some((block, inherited)) = pending.pop() {
                 let settings = table.read_block(block, inherited)?;
+                if block == node {
+                    table.root = settings.clone();
+                } else if !block.has_attribute("class") {
+                    return Err(bad_attribute(block, "class", ""));
+                }
                 let first_nested = pending.len();
                 pending.extend(elements(block, "default").map(|nested| (nested, settings.clone())));
                 pending[first_nested..].reverse();
@@ -139,10 +150,10 @@ impl DefaultTable {
         Ok(table)
     }
 
-    /// A class's settings, or the unnamed block's where no class is named.
+    /// A class's settings, or the top-level block's where no class is named.
     pub(crate) fn resolve(&self, class: Option<&str>) -> Result<&ClassDefaults, ModelError> {
         match class {
-            None => Ok(&self.root),
+            None | Some(ROOT_CLASS) => Ok(&self.root),
             Some(name) => self
                 .classes
                 .get(name)
@@ -167,11 +178,8 @@ impl DefaultTable {
             settings.joint = settings.joint.overridden_by(&JointDefaults::read(joint)?);
         }
 
-        match node.attribute("class") {
-            Some(name) => {
-                self.classes.insert(name.to_owned(), settings.clone());
-            }
-            None => self.root = settings.clone(),
+        if let Some(name) = node.attribute("class") {
+            self.classes.insert(name.to_owned(), settings.clone());
         }
         Ok(settings)
     }
-- 
2.43.0


From aa6a57da1e0505b65217858f479173162e532545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:57 +0000
Subject: [PATCH 44/59] fix: a shape or joint naming its own class still took
 settings from childclass

MJCF applies childclass only to elements that name no class, so a sibling class
could give a shape a density it does not have.
---
 .../multicalc-robot-model/src/mjcf/geometry.rs   | 16 ++++++----------
 crates/multicalc-robot-model/src/mjcf/joint.rs   | 16 ++++++----------
 2 files changed, 12 insertions(+), 20 deletions(-)

diff --git a/crates/multicalc-robot-model/src/mjcf/geometry.rs b/crates/multicalc-robot-model/src/mjcf/geometry.rs
index d85a3d5..9cc0f2d 100644
--- a/crates/multicalc-robot-model/src/mjcf/geometry.rs
+++ b/crates/multicalc-robot-model/src/mjcf/geometry.rs
@@ -157,21 +157,17 @@ pub(crate) fn read_geom(
     }))
 }
 
-/// A shape's settings, with the shape's own winning over the class it names, that over the class
-/// its body names, and that over the unnamed block.
+/// A shape's settings, with the shape's own winning over those of its class. That is the class it
+/// names itself, else the one its body gives its children, else the top-level block; a class the
+/// shape names stands in for its body's rather than adding to it.
 fn effective(
     node: Node,
     table: &DefaultTable,
     class_chain: Option<&str>,
 ) -> Result<GeomDefaults, ModelError> {
-    let mut settings = table.resolve(None)?.geom.clone();
-    if let Some(name) = class_chain {
-        settings = settings.overridden_by(&table.resolve(Some(name))?.geom);
-    }
-    if let Some(name) = node.attribute("class") {
-        settings = settings.overridden_by(&table.resolve(Some(name))?.geom);
-    }
-    Ok(settings.overridden_by(&GeomDefaults::read(node)?))
+    let class = node.attribute("class").or(class_chain);
+    let inherited = &table.resolve(class)?.geom;
+    Ok(inherited.overridden_by(&GeomDefaults::read(node)?))
 }
 
 /// A capsule is a cylinder with a hemisphere capping each end, so it is measured as the two bodies
diff --git a/crates/multicalc-robot-model/src/mjcf/joint.rs b/crates/multicalc-robot-model/src/mjcf/joint.rs
index 49e12e6..7db0483 100644
--- a/crates/multicalc-robot-model/src/mjcf/joint.rs
+++ b/crates/multicalc-robot-model/src/mjcf/joint.rs
@@ -122,19 +122,15 @@ fn read_limits(
     }
 }
 
-/// Joint settings in precedence order: own attributes, named class, inherited `childclass`,
-/// unnamed default block.
+/// Joint settings: own attributes, over those of the joint's class. That is the class it names
+/// itself, else the inherited `childclass`, else the top-level block; a class the joint names
+/// stands in for the inherited one rather than adding to it.
 fn effective(
     node: Node,
     table: &DefaultTable,
     class_chain: Option<&str>,
 ) -> Result<JointDefaults, ModelError> {
-    let mut settings = table.resolve(None)?.joint.clone();
-    if let Some(name) = class_chain {
-        settings = settings.overridden_by(&table.resolve(Some(name))?.joint);
-    }
-    if let Some(name) = node.attribute("class") {
-        settings = settings.overridden_by(&table.resolve(Some(name))?.joint);
-    }
-    Ok(settings.overridden_by(&JointDefaults::read(node)?))
+    let class = node.attribute("class").or(class_chain);
+    let inherited = &table.resolve(class)?.joint;
+    Ok(inherited.overridden_by(&JointDefaults::read(node)?))
 }
-- 
2.43.0


From fe04d2bc5ba6c75949e7af4c8518d0ce5cde89b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:33 +0000
Subject: [PATCH 45/59] fix: frame, replicate, composite and other body-making
 elements were dropped silently

Their bodies and shapes vanished, so a model could load with wrong mass
properties, which the crate promises not to happen. They are refused by name,
as are sections an include puts where they would not be read.
---
 crates/multicalc-robot-model/src/error.rs     | 28 ++++++++++++
 crates/multicalc-robot-model/src/mjcf/body.rs | 45 ++++++++++++++++---
 2 files changed, 67 insertions(+), 6 deletions(-)

diff --git a/crates/multicalc-robot-model/src/error.rs b/crates/multicalc-robot-model/src/error.rs
index 0cef9f3..9d6aea8 100644
--- a/crates/multicalc-robot-model/src/error.rs
+++ b/crates/multicalc-robot-model/src/error.rs
@@ -40,6 +40,22 @@ pub enum ModelError {
         /// The attribute name.
         attribute: String,
     },
+    /// An element that makes or moves bodies in a way this reader does not follow.
+    UnsupportedElement {
+        /// The element's name.
+        element: String,
+        /// The element holding it.
+        parent: String,
+    },
+    /// An attribute that changes mass properties in a way this reader does not follow.
+    UnsupportedAttribute {
+        /// The element carrying the attribute.
+        element: String,
+        /// The attribute name.
+        attribute: String,
+        /// What it was set to.
+        value: String,
+    },
     /// A joint is limited, explicitly or by default, but states no `range`.
     LimitsNeedRange {
         /// The body's name.
@@ -195,6 +211,18 @@ impl core::fmt::Display for ModelError {
                 f,
                 "the {attribute} attribute on {element} states a turn in a form this loader does not read; write it as a quaternion"
             ),
+            ModelError::UnsupportedElement { element, parent } => write!(
+                f,
+                "the {element} element in {parent} makes or moves bodies in a way this loader does not follow"
+            ),
+            ModelError::UnsupportedAttribute {
+                element,
+                attribute,
+                value,
+            } => write!(
+                f,
+                "the {attribute} attribute on {element} is set to {value}, which changes masses in a way this loader does not follow"
+            ),
             ModelError::LimitsNeedRange { body } => write!(
                 f,
                 "the joint on body {body} is limited but states no range"
diff --git a/crates/multicalc-robot-model/src/mjcf/body.rs b/crates/multicalc-robot-model/src/mjcf/body.rs
index 38a1cec..69cfb9d 100644
--- a/crates/multicalc-robot-model/src/mjcf/body.rs
+++ b/crates/multicalc-robot-model/src/mjcf/body.rs
@@ -22,6 +22,19 @@ use crate::xml::{
 /// Top-level elements this reader consumes. Every other one is listed in `ignored`.
 const READ_SECTIONS: [&str; 3] = ["compiler", "default", "worldbody"];
 
+/// What a body or the world may hold besides bodies without adding a body or moving one. A shape
+/// of the world's own is as still as the world.
+const HARMLESS_CHILDREN: [&str; 8] = [
+    "inertial",
+    "joint",
+    "freejoint",
+    "geom",
+    "site",
+    "camera",
+    "light",
+    "plugin",
+];
+
 /// One parsed file: bodies in document order, plus what was skipped.
 pub(crate) struct ParsedModel {
     pub name: String,
@@ -58,7 +71,7 @@ pub(crate) fn read(document: &Document) -> Result<ParsedModel, ModelError> {
     let mut floating_base = false;
     // Bodies still to read, the next one last. A list rather than recursion, so how deep a file
     // nests cannot run out of stack.
-    let mut pending: Vec<PendingBody> = top_level_bodies(worldbodies)
+    let mut pending: Vec<PendingBody> = top_level_bodies(worldbodies)?
         .into_iter()
         .map(|node| (node, None, None))
         .rev()
@@ -96,7 +109,9 @@ type PendingBody<'doc, 'input> = (Node<'doc, 'input>, Option<usize>, Option<&'do
 /// `<include>`. Splicing reinserts the included file's `<mujoco>` contents verbatim, so an
 /// included body list arrives wrapped in its own `<worldbody>`. Nested `<body>` elements are never
 /// wrapped this way, so below the top level a plain child scan is enough.
-fn top_level_bodies<'doc, 'input>(worldbodies: Vec<Node<'doc, 'input>>) -> Vec<Node<'doc, 'input>> {
+fn top_level_bodies<'doc, 'input>(
+    worldbodies: Vec<Node<'doc, 'input>>,
+) -> Result<Vec<Node<'doc, 'input>>, ModelError> {
     let mut found = Vec::new();
     let mut pending = worldbodies;
     pending.reverse();
@@ -106,12 +121,24 @@ fn top_level_bodies<'doc, 'input>(worldbodies: Vec<Node<'doc, 'input>>) -> Vec<N
             continue;
         }
         let first_child = pending.len();
-        pending.extend(node.children().filter(|child| {
-            child.is_element() && matches!(child.tag_name().name(), "body" | "worldbody")
-        }));
+        for child in node.children().filter(Node::is_element) {
+            match child.tag_name().name() {
+                "body" | "worldbody" => pending.push(child),
+                name if HARMLESS_CHILDREN.contains(&name) => {}
+                _ => return Err(unsupported_element(child, "worldbody")),
+            }
+        }
         pending[first_child..].reverse();
     }
-    found
+    Ok(found)
+}
+
+/// Error for an element that could hold bodies or shapes this reader would otherwise miss.
+fn unsupported_element(node: Node, parent: &str) -> ModelError {
+    ModelError::UnsupportedElement {
+        element: node.tag_name().name().to_owned(),
+        parent: parent.to_owned(),
+    }
 }
 
 /// Parses one body, and the `childclass` its children inherit.
@@ -126,6 +153,12 @@ fn read_body<'doc>(
 ) -> Result<(ParsedBody, Option<&'doc str>), ModelError> {
     let name = node.attribute("name").unwrap_or("body").to_owned();
     reject_orientation_attributes(node, "body")?;
+    if let Some(child) = node.children().find(|child| {
+        let tag = child.tag_name().name();
+        child.is_element() && tag != "body" && !HARMLESS_CHILDREN.contains(&tag)
+    }) {
+        return Err(unsupported_element(child, "body"));
+    }
 
     let position = parse_vector3(node, "pos")?.unwrap_or([0.0; 3]);
     let quat = parse_vector4(node, "quat")?.unwrap_or([1.0, 0.0, 0.0, 0.0]);
-- 
2.43.0


From f1275c1075971718c79da0d4fff94730732d8128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:48 +0000
Subject: [PATCH 46/59] fix: settings that change masses were ignored instead
 of refused

settotalmass, boundmass and their like, shellinertia, a plain shape fitted to a
mesh, and a shape turned by euler angles in a default block all loaded with
wrong mass properties.
---
 .../src/mjcf/compiler.rs                      | 26 ++++++++++++++++++-
 .../src/mjcf/defaults.rs                      | 13 +++++++++-
 .../src/mjcf/geometry.rs                      | 10 +++++--
 crates/multicalc-robot-model/src/xml.rs       | 10 +++++++
 4 files changed, 55 insertions(+), 4 deletions(-)

diff --git a/crates/multicalc-robot-model/src/mjcf/compiler.rs b/crates/multicalc-robot-model/src/mjcf/compiler.rs
index a5273d6..a119c35 100644
--- a/crates/multicalc-robot-model/src/mjcf/compiler.rs
+++ b/crates/multicalc-robot-model/src/mjcf/compiler.rs
@@ -3,7 +3,7 @@
 use roxmltree::Node;
 
 use crate::ModelError;
-use crate::xml::{bad_attribute, elements};
+use crate::xml::{bad_attribute, elements, parse_scalar, unsupported_attribute};
 
 /// File-wide settings governing how the rest of the document parses.
 pub(crate) struct CompilerSettings {
@@ -38,6 +38,7 @@ impl CompilerSettings {
         };
 
         for compiler in elements(root, "compiler") {
+            reject_mass_settings(compiler)?;
             if let Some(angle) = compiler.attribute("angle") {
                 settings.angle_in_degrees = match angle {
                     "degree" => true,
@@ -73,3 +74,26 @@ impl CompilerSettings {
         }
     }
 }
+
+/// Rejects settings that rescale, raise or reinterpret the masses and places a file states, unless
+/// they are set to do nothing.
+fn reject_mass_settings(compiler: Node) -> Result<(), ModelError> {
+    for attribute in ["settotalmass", "boundmass", "boundinertia"] {
+        if parse_scalar(compiler, attribute)?.is_some_and(|value| value > 0.0) {
+            return Err(unsupported_attribute(compiler, attribute));
+        }
+    }
+    for (attribute, inert) in [
+        ("balanceinertia", "false"),
+        ("inertiagrouprange", "0 5"),
+        ("coordinate", "local"),
+    ] {
+        if compiler
+            .attribute(attribute)
+            .is_some_and(|value| value != inert)
+        {
+            return Err(unsupported_attribute(compiler, attribute));
+        }
+    }
+    Ok(())
+}
diff --git a/crates/multicalc-robot-model/src/mjcf/defaults.rs b/crates/multicalc-robot-model/src/mjcf/defaults.rs
index 40f33a7..37f0635 100644
--- a/crates/multicalc-robot-model/src/mjcf/defaults.rs
+++ b/crates/multicalc-robot-model/src/mjcf/defaults.rs
@@ -11,13 +11,14 @@ use roxmltree::Node;
 use crate::ModelError;
 use crate::xml::{
     bad_attribute, elements, fixed, parse_list, parse_scalar, parse_vector2, parse_vector3,
-    parse_vector4,
+    parse_vector4, unsupported_attribute,
 };
 
 /// Geom settings from one default class. `None` means unset at this level.
 #[derive(Debug, Clone, Default, PartialEq)]
 pub(crate) struct GeomDefaults {
     pub geom_type: Option<String>,
+    pub mesh: Option<String>,
     pub size: Option<Vec<f64>>,
     pub fromto: Option<[f64; 6]>,
     pub pos: Option<[f64; 3]>,
@@ -29,8 +30,17 @@ pub(crate) struct GeomDefaults {
 impl GeomDefaults {
     /// Settings on one `<geom>` element.
     pub(crate) fn read(node: Node) -> Result<Self, ModelError> {
+        reject_orientation_attributes(node, "geom")?;
+        // Mass spread over the surface rather than through the shape.
+        if node
+            .attribute("shellinertia")
+            .is_some_and(|value| value != "false")
+        {
+            return Err(unsupported_attribute(node, "shellinertia"));
+        }
         Ok(GeomDefaults {
             geom_type: node.attribute("type").map(str::to_owned),
+            mesh: node.attribute("mesh").map(str::to_owned),
             size: parse_list(node, "size")?,
             fromto: fixed::<6>(node, "fromto")?,
             pos: parse_vector3(node, "pos")?,
@@ -45,6 +55,7 @@ impl GeomDefaults {
     pub(crate) fn overridden_by(&self, other: &GeomDefaults) -> GeomDefaults {
         GeomDefaults {
             geom_type: other.geom_type.clone().or_else(|| self.geom_type.clone()),
+            mesh: other.mesh.clone().or_else(|| self.mesh.clone()),
             size: other.size.clone().or_else(|| self.size.clone()),
             fromto: other.fromto.or(self.fromto),
             pos: other.pos.or(self.pos),
diff --git a/crates/multicalc-robot-model/src/mjcf/geometry.rs b/crates/multicalc-robot-model/src/mjcf/geometry.rs
index 9cc0f2d..aa34c06 100644
--- a/crates/multicalc-robot-model/src/mjcf/geometry.rs
+++ b/crates/multicalc-robot-model/src/mjcf/geometry.rs
@@ -9,7 +9,7 @@ use multicalc::spatial::Quaternion;
 use roxmltree::Node;
 
 use crate::ModelError;
-use crate::mjcf::defaults::{DefaultTable, GeomDefaults, reject_orientation_attributes};
+use crate::mjcf::defaults::{DefaultTable, GeomDefaults};
 use crate::xml::{bad_attribute, unit_quaternion};
 
 /// MuJoCo's defaults for an unspecified geom. Size has no default.
@@ -50,7 +50,6 @@ pub(crate) fn read_geom(
     class_chain: Option<&str>,
     body: &str,
 ) -> Result<Option<GeomMass>, ModelError> {
-    reject_orientation_attributes(node, "geom")?;
     let settings = effective(node, table, class_chain)?;
 
     // A geom stated massless is dropped before its type is checked, so a model may use a geom
@@ -78,6 +77,13 @@ pub(crate) fn read_geom(
         }
     };
 
+    // A plain form naming a mesh takes its size from the mesh, not from anything in the file.
+    if settings.mesh.is_some() {
+        return Err(ModelError::MeshInertiaUnsupported {
+            body: body.to_owned(),
+        });
+    }
+
     // `fromto` gives the axis endpoints instead of a length and orientation, which is how models
     // laid out around joint positions are usually written.
     let axis = axis(node, &settings, &shape, body)?;
diff --git a/crates/multicalc-robot-model/src/xml.rs b/crates/multicalc-robot-model/src/xml.rs
index 5a2f0de..067f92a 100644
--- a/crates/multicalc-robot-model/src/xml.rs
+++ b/crates/multicalc-robot-model/src/xml.rs
@@ -54,6 +54,16 @@ pub(crate) fn bad_attribute(node: Node, attribute: &str, text: &str) -> ModelErr
     }
 }
 
+/// Error for an attribute that changes mass properties in a way this reader does not follow.
+#[cfg(feature = "mjcf")]
+pub(crate) fn unsupported_attribute(node: Node, attribute: &str) -> ModelError {
+    ModelError::UnsupportedAttribute {
+        element: node.tag_name().name().to_owned(),
+        attribute: attribute.to_owned(),
+        value: node.attribute(attribute).unwrap_or_default().to_owned(),
+    }
+}
+
 /// All values in a whitespace-separated attribute, of any count.
 pub(crate) fn parse_list(node: Node, attribute: &str) -> Result<Option<Vec<f64>>, ModelError> {
     let Some(text) = node.attribute(attribute) else {
-- 
2.43.0


From e6a51c78d3251de8227dd262775390c03b37d543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:02 +0000
Subject: [PATCH 47/59] fix: shapes of negative size, mass or density were
 summed into a body

One could cancel against another shape, leaving a plausible but wrong mass.
---
 .../multicalc-robot-model/src/mjcf/geometry.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc-robot-model/src/mjcf/geometry.rs b/crates/multicalc-robot-model/src/mjcf/geometry.rs
index aa34c06..760d3c8 100644
--- a/crates/multicalc-robot-model/src/mjcf/geometry.rs
+++ b/crates/multicalc-robot-model/src/mjcf/geometry.rs
@@ -134,6 +134,18 @@ pub(crate) fn read_geom(
     if mass == 0.0 {
         return Ok(None);
     }
+    if mass.is_nan() || mass < 0.0 {
+        let attribute = if settings.mass.is_some() {
+            "mass"
+        } else {
+            "density"
+        };
+        return Err(bad_attribute(
+            node,
+            attribute,
+            node.attribute(attribute).unwrap_or_default(),
+        ));
+    }
 
     let principal = [
         mass * (spread[1] + spread[2]),
@@ -293,5 +305,9 @@ fn extents(
         (Shape::Sphere | Shape::Cylinder | Shape::Capsule, _, _) => None,
         (_, _, _) => <[f64; 3]>::try_from(size).ok(),
     };
-    reach.ok_or_else(|| bad_attribute(node, "size", node.attribute("size").unwrap_or_default()))
+    // A negative reach is no shape, and could pass for one by pairing off with another or by
+    // cancelling against the other shapes of its body.
+    reach
+        .filter(|reach| reach.iter().all(|extent| *extent >= 0.0))
+        .ok_or_else(|| bad_attribute(node, "size", node.attribute("size").unwrap_or_default()))
 }
-- 
2.43.0


From e2453526c21071f886ec43896e7ad2ee33e1f8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:31 +0000
Subject: [PATCH 48/59] fix: a body name with a line break spilled into the
 generated source as code

---
 crates/multicalc-robot-model/src/codegen.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc-robot-model/src/codegen.rs b/crates/multicalc-robot-model/src/codegen.rs
index 42f5e48..a8834b8 100644
--- a/crates/multicalc-robot-model/src/codegen.rs
+++ b/crates/multicalc-robot-model/src/codegen.rs
@@ -270,7 +270,8 @@ fn render_push(
         JointParent::Joint(index) => format!("JointParent::Joint({index})"),
     };
 
-    let _ = writeln!(out, "    // {name}");
+    // Escaped, since a name may hold a line break and the rest would then be code.
+    let _ = writeln!(out, "    // {}", name.escape_debug());
     match joint.kind() {
         JointKind::Fixed => {
             let _ = writeln!(out, "    tree.push(");
-- 
2.43.0


From b6baa1011ba3df7a7301b3a251b4a2cd408b2824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 49/59] fix: generated source could panic for want of
 configuration room, and large models were refused

to_rust_source checked the slot count it was given but not the configuration
capacity, and could only check models of up to 128 bodies.
---
 crates/multicalc-robot-model/src/codegen.rs | 36 +++++++++++++++------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/crates/multicalc-robot-model/src/codegen.rs b/crates/multicalc-robot-model/src/codegen.rs
index a8834b8..2c85d36 100644
--- a/crates/multicalc-robot-model/src/codegen.rs
+++ b/crates/multicalc-robot-model/src/codegen.rs
@@ -3,16 +3,11 @@
 
 use std::fmt::Write as _;
 
+use multicalc::error::KinematicsError;
 use multicalc::kinematics::{Joint, JointKind, JointParent, KinematicTree};
 
 use crate::{ModelError, RobotModel};
 
-/// Large enough for any model this reader parses. Used only to validate the joints before
-/// emitting; unrelated to the capacity the *generated* tree is given.
-const VALIDATION_CAPACITY: usize = 128;
-/// Large enough for [`VALIDATION_CAPACITY`] joints plus one floating base.
-const VALIDATION_CONFIGURATION_CAPACITY: usize = VALIDATION_CAPACITY + 6;
-
 /// Which scalar the generated model is built in.
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub enum GeneratedScalar {
@@ -148,10 +143,12 @@ impl RobotModel {
         };
 
         let (joints, parents) = self.joints_and_parents(&slots);
-        KinematicTree::<VALIDATION_CAPACITY, VALIDATION_CONFIGURATION_CAPACITY, f64>::try_from_joints(
-            &joints, &parents,
-        )
-        .map_err(ModelError::Kinematics)?;
+        let needed = check_joints(&joints, &parents)?;
+        if needed > configuration_capacity {
+            return Err(ModelError::Kinematics(
+                KinematicsError::ConfigurationCapacityExceeded,
+            ));
+        }
 
         let names: Vec<&str> = slots
             .iter()
@@ -172,6 +169,25 @@ impl RobotModel {
     }
 }
 
+/// Checks that the generated source will be able to push these joints, whatever their number, and
+/// returns how many configuration entries they take.
+fn check_joints(joints: &[Joint<f64>], parents: &[JointParent]) -> Result<usize, ModelError> {
+    let mut entries = 0;
+    for (slot, (joint, parent)) in joints.iter().zip(parents).enumerate() {
+        if joint.kind() == JointKind::Floating && (slot != 0 || *parent != JointParent::World) {
+            return Err(ModelError::Kinematics(
+                KinematicsError::FloatingJointNotAtRoot,
+            ));
+        }
+        let mut alone = KinematicTree::<1, 7, f64>::new();
+        alone
+            .push(*joint, JointParent::World)
+            .map_err(ModelError::Kinematics)?;
+        entries += alone.config_len();
+    }
+    Ok(entries)
+}
+
 fn render(
     joints: &[Joint<f64>],
     parents: &[JointParent],
-- 
2.43.0


From d855104749b9f9b57a5a739bb1c0defc243deadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:05 +0000
Subject: [PATCH 50/59] fix: numbers too large for f32 were written out as inf,
 which does not compile

---
 crates/multicalc-robot-model/src/codegen.rs | 25 +++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc-robot-model/src/codegen.rs b/crates/multicalc-robot-model/src/codegen.rs
index 2c85d36..7eaa56d 100644
--- a/crates/multicalc-robot-model/src/codegen.rs
+++ b/crates/multicalc-robot-model/src/codegen.rs
@@ -143,7 +143,7 @@ impl RobotModel {
         };
 
         let (joints, parents) = self.joints_and_parents(&slots);
-        let needed = check_joints(&joints, &parents)?;
+        let needed = check_joints(&joints, &parents, options.scalar)?;
         if needed > configuration_capacity {
             return Err(ModelError::Kinematics(
                 KinematicsError::ConfigurationCapacityExceeded,
@@ -171,7 +171,11 @@ impl RobotModel {
 
 /// Checks that the generated source will be able to push these joints, whatever their number, and
 /// returns how many configuration entries they take.
-fn check_joints(joints: &[Joint<f64>], parents: &[JointParent]) -> Result<usize, ModelError> {
+fn check_joints(
+    joints: &[Joint<f64>],
+    parents: &[JointParent],
+    scalar: GeneratedScalar,
+) -> Result<usize, ModelError> {
     let mut entries = 0;
     for (slot, (joint, parent)) in joints.iter().zip(parents).enumerate() {
         if joint.kind() == JointKind::Floating && (slot != 0 || *parent != JointParent::World) {
@@ -179,6 +183,9 @@ fn check_joints(joints: &[Joint<f64>], parents: &[JointParent]) -> Result<usize,
                 KinematicsError::FloatingJointNotAtRoot,
             ));
         }
+        if scalar == GeneratedScalar::F32 && !survives_narrowing(joint) {
+            return Err(ModelError::Kinematics(KinematicsError::NonFinite));
+        }
         let mut alone = KinematicTree::<1, 7, f64>::new();
         alone
             .push(*joint, JointParent::World)
@@ -188,6 +195,20 @@ fn check_joints(joints: &[Joint<f64>], parents: &[JointParent]) -> Result<usize,
     Ok(entries)
 }
 
+/// Whether every number of a joint is still a number in single precision.
+fn survives_narrowing(joint: &Joint<f64>) -> bool {
+    let (lower, upper) = joint.limits().unwrap_or((0.0, 0.0));
+    joint
+        .origin()
+        .translation()
+        .as_array()
+        .iter()
+        .chain(joint.anchor().as_array())
+        .chain(&[lower, upper, joint.zero_offset(), joint.armature()])
+        .chain(&[joint.damping(), joint.friction_loss()])
+        .all(|value| (*value as f32).is_finite())
+}
+
 fn render(
     joints: &[Joint<f64>],
     parents: &[JointParent],
-- 
2.43.0


From b204be5b12f9a37a1b6f54f28784a225fa0f4082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:30 +0000
Subject: [PATCH 51/59] fix: heavy bodies with a turned inertia were refused as
 not symmetric

Turning the tensor leaves it symmetric only up to rounding of its largest entry,
which for a vehicle's inertia is beyond what a small off-diagonal entry may differ by.
---
 crates/multicalc-robot-model/src/mjcf/body.rs     | 3 ++-
 crates/multicalc-robot-model/src/mjcf/geometry.rs | 4 +++-
 crates/multicalc-robot-model/src/urdf/link.rs     | 3 ++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/multicalc-robot-model/src/mjcf/body.rs b/crates/multicalc-robot-model/src/mjcf/body.rs
index 69cfb9d..b85d1a9 100644
--- a/crates/multicalc-robot-model/src/mjcf/body.rs
+++ b/crates/multicalc-robot-model/src/mjcf/body.rs
@@ -235,7 +235,8 @@ fn stated_inertia(node: Node) -> Result<SpatialInertia<f64>, ModelError> {
             // into body axes.
             let quat = parse_vector4(node, "quat")?.unwrap_or([1.0, 0.0, 0.0, 0.0]);
             let rotation = unit_quaternion(node, quat, "quat")?.to_rotation_matrix();
-            rotation * Matrix::from_diagonal(principal) * rotation.transpose()
+            // Rounding leaves a large tensor not quite symmetric.
+            (rotation * Matrix::from_diagonal(principal) * rotation.transpose()).symmetrized()
         }
         // `quat` does not apply to a full tensor; MuJoCo ignores it there too.
         (None, Some([ixx, iyy, izz, ixy, ixz, iyz])) => {
diff --git a/crates/multicalc-robot-model/src/mjcf/geometry.rs b/crates/multicalc-robot-model/src/mjcf/geometry.rs
index 760d3c8..fcb5781 100644
--- a/crates/multicalc-robot-model/src/mjcf/geometry.rs
+++ b/crates/multicalc-robot-model/src/mjcf/geometry.rs
@@ -161,7 +161,9 @@ pub(crate) fn read_geom(
         None => unit_quaternion(node, settings.quat.unwrap_or([1.0, 0.0, 0.0, 0.0]), "quat")?,
     };
     let rotation = turn.to_rotation_matrix();
-    let inertia = rotation * Matrix::from_diagonal(principal) * rotation.transpose();
+    // Rounding leaves a large tensor not quite symmetric.
+    let inertia =
+        (rotation * Matrix::from_diagonal(principal) * rotation.transpose()).symmetrized();
 
     let center = match &axis {
         Some(axis) => axis.center,
diff --git a/crates/multicalc-robot-model/src/urdf/link.rs b/crates/multicalc-robot-model/src/urdf/link.rs
index 2bf72db..3a1de3d 100644
--- a/crates/multicalc-robot-model/src/urdf/link.rs
+++ b/crates/multicalc-robot-model/src/urdf/link.rs
@@ -61,7 +61,8 @@ fn read_inertial(node: Node) -> Result<SpatialInertia<f64>, ModelError> {
     ]);
 
     let rotation = origin.rotation().to_matrix();
-    let tensor = rotation * stated * rotation.transpose();
+    // Rounding leaves a large tensor not quite symmetric.
+    let tensor = (rotation * stated * rotation.transpose()).symmetrized();
 
     SpatialInertia::new(mass, origin.translation(), tensor).map_err(ModelError::Inertia)
 }
-- 
2.43.0


From a030562dceaa45df2a9aeb0e57607d3c750e4a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:00 +0000
Subject: [PATCH 52/59] fix: try_normalized lost the direction of vectors too
 large or too small to square

---
 crates/multicalc/src/linear_algebra/vector.rs | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/crates/multicalc/src/linear_algebra/vector.rs b/crates/multicalc/src/linear_algebra/vector.rs
index e10ffda..691ef72 100644
--- a/crates/multicalc/src/linear_algebra/vector.rs
+++ b/crates/multicalc/src/linear_algebra/vector.rs
@@ -266,7 +266,7 @@ impl<const N: usize, T: Numeric> Vector<N, T> {
     }
 
     /// Attempts to return a normalized copy of the vector (i.e. one where the norm is equal to 1),
-    /// returning `None` in the case of a zero vector or a vector with a `NAN` entry.
+    /// returning `None` in the case of a zero vector or a vector with a `NAN` or infinite entry.
     ///
     /// ```
     /// use multicalc::linear_algebra::Vector;
@@ -277,11 +277,20 @@ impl<const N: usize, T: Numeric> Vector<N, T> {
     #[inline]
     #[must_use]
     pub fn try_normalized(self) -> Option<Self> {
-        let norm = self.norm();
-        if norm.is_nan() || norm == T::ZERO {
+        let norm_squared = self.norm_squared();
+        if norm_squared.is_finite() && norm_squared > T::MIN_POSITIVE / T::EPSILON {
+            return Some(self / norm_squared.sqrt());
+        }
+        // The squares ran out of range, which a vector of unit size cannot.
+        let mut largest = T::ZERO;
+        for &component in &self.data {
+            largest = largest.max(component.abs());
+        }
+        if norm_squared.is_nan() || largest == T::ZERO || !largest.is_finite() {
             return None;
         }
-        Some(self / norm)
+        let scaled = self / largest;
+        Some(scaled / scaled.norm())
     }
 
     /// Normalize the vector in-place (i.e. after this operation the norm is equal to 1).
@@ -299,7 +308,7 @@ impl<const N: usize, T: Numeric> Vector<N, T> {
     }
 
     /// Attempt to normalize the vector in-place (i.e. after this operation the norm is equal to 1).
-    /// This method returns `None` and leaves the vector unchanged if the norm is zero or NAN.
+    /// This method returns `None` and leaves the vector unchanged if the vector is zero or has a `NAN` or infinite entry.
     ///
     /// ```
     /// use multicalc::linear_algebra::Vector;
@@ -319,11 +328,7 @@ impl<const N: usize, T: Numeric> Vector<N, T> {
     #[inline]
     #[must_use]
     pub fn try_normalize(&mut self) -> Option<()> {
-        let norm = self.norm();
-        if norm.is_nan() || norm == T::ZERO {
-            return None;
-        }
-        self.do_normalize(norm);
+        *self = self.try_normalized()?;
         Some(())
     }
 
-- 
2.43.0


From 78e5019d71676d54de942da5491d88df4da306b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:40 +0000
Subject: [PATCH 53/59] fix: counting the roots of a constant polynomial
 underflowed an index

---
 crates/multicalc/src/polynomial/roots.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/polynomial/roots.rs b/crates/multicalc/src/polynomial/roots.rs
index 5e7ff78..c5278bc 100644
--- a/crates/multicalc/src/polynomial/roots.rs
+++ b/crates/multicalc/src/polynomial/roots.rs
@@ -472,7 +472,8 @@ impl<const COEFFICIENT_COUNT: usize, T: Numeric> Polynomial<COEFFICIENT_COUNT, T
             }
         }
 
-        while length < COEFFICIENT_COUNT {
+        // A flat line has no derivative, and so no pair to divide.
+        while length >= 2 && length < COEFFICIENT_COUNT {
             // Each new entry is what is left over from dividing the two before it, with the sign
             // turned around.
             let previous = chain.get(length - 2).copied().unwrap_or_default();
-- 
2.43.0


From b470a88a9c7539636bc99bf7743870796c054435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:47 +0000
Subject: [PATCH 54/59] fix: tanh of a large autodiff scalar was NaN, and sinh
 and tanh cancelled near zero

---
 crates/multicalc/src/scalar/numeric.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/scalar/numeric.rs b/crates/multicalc/src/scalar/numeric.rs
index 7b7553f..d69a223 100644
--- a/crates/multicalc/src/scalar/numeric.rs
+++ b/crates/multicalc/src/scalar/numeric.rs
@@ -334,7 +334,7 @@ pub trait Numeric:
     /// Hyperbolic sine.
     #[inline]
     fn sinh(self) -> Self {
-        (self.exp() - (-self).exp()) * Self::HALF
+        (self.expm1() - (-self).expm1()) * Self::HALF
     }
 
     /// Hyperbolic cosine.
@@ -346,7 +346,13 @@ pub trait Numeric:
     /// Hyperbolic tangent.
     #[inline]
     fn tanh(self) -> Self {
-        self.sinh().safe_div(self.cosh())
+        // Built on the decaying exponential, which neither overflows nor cancels.
+        if self < Self::ZERO {
+            -((-self).tanh())
+        } else {
+            let decay = (-(self + self)).expm1();
+            -decay / (decay + Self::TWO)
+        }
     }
 
     /// Euclidean distance `√(self² + other²)`, scaled to avoid overflow and underflow.
-- 
2.43.0


From 5d4d2fa94cc8ff7ce3df7a145d1aa320e999a38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:47 +0000
Subject: [PATCH 55/59] fix: hypot of two infinite autodiff scalars was NaN

---
 crates/multicalc/src/scalar/numeric.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/multicalc/src/scalar/numeric.rs b/crates/multicalc/src/scalar/numeric.rs
index d69a223..01ad1ea 100644
--- a/crates/multicalc/src/scalar/numeric.rs
+++ b/crates/multicalc/src/scalar/numeric.rs
@@ -363,6 +363,8 @@ pub trait Numeric:
         let (max, min) = if a > b { (a, b) } else { (b, a) };
         if max == Self::ZERO {
             Self::ZERO
+        } else if max.is_infinite() {
+            max
         } else {
             let ratio = min / max;
             max * (Self::ONE + ratio * ratio).sqrt()
-- 
2.43.0


From 8efed6d3fd2e91cf37b19814e2d550a8962f36b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:10 +0000
Subject: [PATCH 56/59] fix: Newton and Gauss-Newton called a step past the
 largest number converged

---
 crates/multicalc/src/optimization/gauss_newton.rs  |  5 +++--
 crates/multicalc/src/root_finding/newton.rs        | 10 ++++++----
 crates/multicalc/src/root_finding/newton_system.rs |  5 +++--
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/crates/multicalc/src/optimization/gauss_newton.rs b/crates/multicalc/src/optimization/gauss_newton.rs
index 1577141..f839180 100644
--- a/crates/multicalc/src/optimization/gauss_newton.rs
+++ b/crates/multicalc/src/optimization/gauss_newton.rs
@@ -121,7 +121,7 @@ impl<D: DerivatorMultiVariable> GaussNewton<D> {
 
     /// Minimizes `‖f(x)‖²` starting from `initial_guess`.
     ///
-    /// Errors: [`NonFinite`](SolveError::NonFinite) on a non-finite residual or Jacobian,
+    /// Errors: [`NonFinite`](SolveError::NonFinite) on a non-finite residual, Jacobian or step,
     /// [`Linalg`](SolveError::Linalg) wrapping [`Underdetermined`](crate::error::LinalgError::Underdetermined)
     /// if there are fewer residuals than parameters, [`Linalg`](SolveError::Linalg) wrapping
     /// [`Singular`](crate::error::LinalgError::Singular) if a step hits a rank-deficient Jacobian, or
@@ -186,7 +186,8 @@ impl<D: DerivatorMultiVariable> GaussNewton<D> {
                     core::array::from_fn(|k| x[k] - alpha * step_arr[k]);
                 let trial = f.eval(&candidate);
                 evaluations += 1;
-                let finite = is_finite(&trial);
+                // A step past the largest number is no more a fit than a residual past it.
+                let finite = is_finite(&candidate) && is_finite(&trial);
                 let candidate_fnorm = if finite {
                     enorm(&trial)
                 } else {
diff --git a/crates/multicalc/src/root_finding/newton.rs b/crates/multicalc/src/root_finding/newton.rs
index 77cd188..97b3c7e 100644
--- a/crates/multicalc/src/root_finding/newton.rs
+++ b/crates/multicalc/src/root_finding/newton.rs
@@ -118,7 +118,7 @@ impl<D: DerivatorSingleVariable> Newton<D> {
     /// Finds a root of `f` starting from `x0`.
     ///
     /// Returns the root estimate and termination reason, or an error:
-    /// [`NonFinite`](SolveError::NonFinite) if `f` or its derivative is non-finite,
+    /// [`NonFinite`](SolveError::NonFinite) if `f`, its derivative or the step is non-finite,
     /// [`Linalg`](SolveError::Linalg) wrapping [`Singular`](LinalgError::Singular) if the derivative
     /// is zero, or [`DidNotConverge`](SolveError::DidNotConverge) if the budget is exhausted.
     pub fn solve<F: ScalarFn>(
@@ -162,14 +162,16 @@ impl<D: DerivatorSingleVariable> Newton<D> {
             let (x_new, residual_new) = loop {
                 let candidate = x - alpha * step;
                 let trial = f.eval(candidate);
+                // A step past the largest number is no more a root than a value past it.
+                let trial_finite = candidate.is_finite() && trial.is_finite();
                 if !self.backtracking {
-                    if !trial.is_finite() {
+                    if !trial_finite {
                         return Err(SolveError::NonFinite);
                     }
                     break (candidate, trial);
                 }
-                if (trial.is_finite() && trial.abs() < residual.abs()) || tries >= MAX_BACKTRACK {
-                    if !trial.is_finite() {
+                if (trial_finite && trial.abs() < residual.abs()) || tries >= MAX_BACKTRACK {
+                    if !trial_finite {
                         return Err(SolveError::NonFinite);
                     }
                     break (candidate, trial);
diff --git a/crates/multicalc/src/root_finding/newton_system.rs b/crates/multicalc/src/root_finding/newton_system.rs
index 0744024..b64d25b 100644
--- a/crates/multicalc/src/root_finding/newton_system.rs
+++ b/crates/multicalc/src/root_finding/newton_system.rs
@@ -117,7 +117,7 @@ impl<D: DerivatorMultiVariable> NewtonSystem<D> {
     /// Finds a root of the square system `F` starting from `x0`.
     ///
     /// Returns the root estimate and termination reason, or an error:
-    /// [`NonFinite`](SolveError::NonFinite) if `F` or its Jacobian is non-finite,
+    /// [`NonFinite`](SolveError::NonFinite) if `F`, its Jacobian or the step is non-finite,
     /// [`Linalg`](SolveError::Linalg) wrapping [`Singular`](crate::error::LinalgError::Singular) if
     /// the Jacobian is singular at a step, or [`DidNotConverge`](SolveError::DidNotConverge) if the
     /// budget is exhausted.
@@ -170,7 +170,8 @@ impl<D: DerivatorMultiVariable> NewtonSystem<D> {
                 let candidate: [D::Scalar; N] =
                     core::array::from_fn(|k| x[k] + alpha * step_arr[k]);
                 let trial = f.eval(&candidate);
-                let trial_finite = all_finite(&trial);
+                // A step past the largest number is no more a root than a value past it.
+                let trial_finite = all_finite(&candidate) && all_finite(&trial);
                 let trial_fnorm = if trial_finite {
                     enorm(&trial)
                 } else {
-- 
2.43.0


From 89a4b9e0ed3b0a5571546303b728059bd3a049c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:20 +0000
Subject: [PATCH 57/59] fix: attitude filters took rounding noise as north when
 north ran along up

---
 .../multicalc/src/estimation/attitude_correction.rs  | 12 ++++++++++++
 crates/multicalc/src/estimation/madgwick_filter.rs   |  3 +--
 crates/multicalc/src/estimation/mahony_filter.rs     |  3 +--
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/multicalc/src/estimation/attitude_correction.rs b/crates/multicalc/src/estimation/attitude_correction.rs
index 1371f55..64e5e1d 100644
--- a/crates/multicalc/src/estimation/attitude_correction.rs
+++ b/crates/multicalc/src/estimation/attitude_correction.rs
@@ -17,6 +17,18 @@ pub(super) fn north_reference<T: Numeric>() -> Vector3D<T> {
     Vector3D::new([T::ONE, T::ZERO, T::ZERO])
 }
 
+/// The unit direction `north` leaves once its part along the unit `upward` is taken out, or `None`
+/// when it has no length or runs along `upward` to within rounding.
+#[inline]
+pub(super) fn levelled<T: Numeric>(north: Vector3D<T>, upward: Vector3D<T>) -> Option<Vector3D<T>> {
+    let north = north.try_normalized()?;
+    let level = north - upward * north.dot(upward);
+    if level.norm() <= T::EPSILON_X30 {
+        return None;
+    }
+    level.try_normalized()
+}
+
 /// True when every reading and the timestep is a real, finite number.
 #[inline]
 pub(super) fn readings_are_finite<T: Numeric>(
diff --git a/crates/multicalc/src/estimation/madgwick_filter.rs b/crates/multicalc/src/estimation/madgwick_filter.rs
index 87f0acd..652106a 100644
--- a/crates/multicalc/src/estimation/madgwick_filter.rs
+++ b/crates/multicalc/src/estimation/madgwick_filter.rs
@@ -123,8 +123,7 @@ impl<T: Numeric> MadgwickFilter<T> {
         let Some(upward) = upward_reference.try_normalized() else {
             return self;
         };
-        let levelled = north_reference - upward * north_reference.dot(upward);
-        let Some(north) = levelled.try_normalized() else {
+        let Some(north) = attitude_correction::levelled(north_reference, upward) else {
             return self;
         };
         self.upward_reference = upward;
diff --git a/crates/multicalc/src/estimation/mahony_filter.rs b/crates/multicalc/src/estimation/mahony_filter.rs
index 5bb30a3..8babe9b 100644
--- a/crates/multicalc/src/estimation/mahony_filter.rs
+++ b/crates/multicalc/src/estimation/mahony_filter.rs
@@ -119,8 +119,7 @@ impl<T: Numeric> MahonyFilter<T> {
         let Some(upward) = upward_reference.try_normalized() else {
             return self;
         };
-        let levelled = north_reference - upward * north_reference.dot(upward);
-        let Some(north) = levelled.try_normalized() else {
+        let Some(north) = attitude_correction::levelled(north_reference, upward) else {
             return self;
         };
         self.upward_reference = upward;
-- 
2.43.0


From 1a84b7c24ef1d40d21bd4338b0d7c476dbd11bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:20 +0000
Subject: [PATCH 58/59] fix: a push along the wanted heading got an attitude
 made of rounding noise

---
 crates/multicalc/src/control/thrust_command.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/multicalc/src/control/thrust_command.rs b/crates/multicalc/src/control/thrust_command.rs
index 8df9a8b..e168f60 100644
--- a/crates/multicalc/src/control/thrust_command.rs
+++ b/crates/multicalc/src/control/thrust_command.rs
@@ -104,10 +104,12 @@ pub fn thrust_command_from_acceleration<T: Numeric>(
     // Which way the body's nose ends up facing once it has tipped: the wanted heading, taken level,
     // then leaned over to sit at right angles to the push.
     let heading_direction = Vector::new([desired_heading.cos(), desired_heading.sin(), T::ZERO]);
-    let side_axis = up_axis
-        .cross(heading_direction)
-        .try_normalized()
-        .ok_or(ControlError::UndefinedHeadingDirection)?;
+    let across = up_axis.cross(heading_direction);
+    // Along the heading to within rounding, what is left of the cross product is noise.
+    if across.norm() <= T::EPSILON_X30 {
+        return Err(ControlError::UndefinedHeadingDirection);
+    }
+    let side_axis = across.normalized();
     let forward_axis = side_axis.cross(up_axis);
 
     // The three axes, written as the columns of the rotation they describe.
-- 
2.43.0


From 0bc2536c8abf1073ae6bc869fc177436b939281b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:20 +0000
Subject: [PATCH 59/59] fix: r_squared of a constant truth was noise when its
 mean rounded

---
 crates/multicalc/src/approximation/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/approximation/mod.rs b/crates/multicalc/src/approximation/mod.rs
index 080137e..ad19ca3 100644
--- a/crates/multicalc/src/approximation/mod.rs
+++ b/crates/multicalc/src/approximation/mod.rs
@@ -47,8 +47,11 @@ where
     let mut sum_abs = Acc::new(summation);
     let mut ss_res = Acc::new(summation);
     let mut ss_tot = Acc::new(summation);
+    let mut first = None;
+    let mut is_constant = true;
     for point in points {
         let y = original_function(point);
+        is_constant &= *first.get_or_insert(y) == y;
         let residual = predict(point) - y;
         sum_abs.add(residual.abs());
         ss_res.add(residual * residual);
@@ -60,7 +63,8 @@ where
     let mse = ss_res / n;
     let rmse = mse.sqrt();
 
-    let r_squared = if ss_tot == T::ZERO {
+    // The mean of equal values can round off them, which leaves a variance that is only noise.
+    let r_squared = if is_constant || ss_tot == T::ZERO {
         T::NAN
     } else {
         T::ONE - ss_res / ss_tot
-- 
2.43.0

