From 3de81ded5981ebe07262e6396c7599f0b04063a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 01/13] fix: drop unsatisfiable bound on
 BaseSpaceFromOrtho::to_ortho

`[usize; N]: Dimension` holds for no N, so the method could not be called
on any space.
---
 src/space/traits.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/space/traits.rs b/src/space/traits.rs
index 73808bf..16d0467 100644
--- a/src/space/traits.rs
+++ b/src/space/traits.rs
@@ -143,7 +143,6 @@ where
     fn to_ortho<S>(&self, input: &ArrayBase<S, Dim<[usize; N]>>) -> Array<T, Dim<[usize; N]>>
     where
         S: Data<Elem = T>,
-        [usize; N]: Dimension,
     {
         let mut output = self.ndarray_from_shape::<T>(self.shape_spectral_ortho());
         self.to_ortho_inplace(input, &mut output);
-- 
2.43.0


From a767d6465249fa870e169f1b794df99604d737ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:25 +0000
Subject: [PATCH 02/13] fix: use the third base for the third axis in
 Space3::gradient

---
 src/space/space3.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/space/space3.rs b/src/space/space3.rs
index eb9fe97..e814b48 100644
--- a/src/space/space3.rs
+++ b/src/space/space3.rs
@@ -284,7 +284,7 @@ macro_rules! impl_space3 {
             {
                 let buffer1 = self.base0.gradient(input, deriv[0], 0);
                 let buffer2 = self.base1.gradient(&buffer1, deriv[1], 1);
-                let mut output = self.base1.gradient(&buffer2, deriv[2], 2);
+                let mut output = self.base2.gradient(&buffer2, deriv[2], 2);
                 if let Some(s) = scale {
                     let sc: T = (s[0].powi(deriv[0] as i32)
                         * s[1].powi(deriv[1] as i32)
@@ -314,7 +314,7 @@ macro_rules! impl_space3 {
             {
                 let buffer1 = self.base0.gradient_par(input, deriv[0], 0);
                 let buffer2 = self.base1.gradient_par(&buffer1, deriv[1], 1);
-                let mut output = self.base1.gradient_par(&buffer2, deriv[2], 2);
+                let mut output = self.base2.gradient_par(&buffer2, deriv[2], 2);
                 if let Some(s) = scale {
                     let sc: T = (s[0].powi(deriv[0] as i32)
                         * s[1].powi(deriv[1] as i32)
-- 
2.43.0


From c9044726967bd4824331ad0dcd109529ac3867e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:25 +0000
Subject: [PATCH 03/13] fix: biharmonic to_ortho picks the right stencil entry
 in row n-3

---
 src/chebyshev/stencils/helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chebyshev/stencils/helpers.rs b/src/chebyshev/stencils/helpers.rs
index 09cc6e0..0b9a540 100644
--- a/src/chebyshev/stencils/helpers.rs
+++ b/src/chebyshev/stencils/helpers.rs
@@ -398,7 +398,7 @@ impl<A: FloatNum> HelperStencil3Diag2<A> {
             }
             *u.get_unchecked_mut(n - 4) = *v.get_unchecked(n - 6) * *self.low2.get_unchecked(n - 6)
                 + *v.get_unchecked(n - 8) * *self.low4.get_unchecked(n - 8);
-            *u.get_unchecked_mut(n - 3) = *v.get_unchecked(n - 5) * *self.low2.get_unchecked(n - 6)
+            *u.get_unchecked_mut(n - 3) = *v.get_unchecked(n - 5) * *self.low2.get_unchecked(n - 5)
                 + *v.get_unchecked(n - 7) * *self.low4.get_unchecked(n - 7);
             *u.get_unchecked_mut(n - 2) = *v.get_unchecked(n - 4) * *self.low2.get_unchecked(n - 4)
                 + *v.get_unchecked(n - 6) * *self.low4.get_unchecked(n - 6);
-- 
2.43.0


From 3ea17afce4784df052e447d4f7bc3b683bc62a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 04/13] fix: FourierC2c::gradient uses the negative wavenumbers
 for the upper half

---
 src/fourier/c2c.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fourier/c2c.rs b/src/fourier/c2c.rs
index f4d50e2..b36f57c 100644
--- a/src/fourier/c2c.rs
+++ b/src/fourier/c2c.rs
@@ -238,7 +238,7 @@ where
                 *y = *y * ki;
             }
             for (k, y) in outdata.iter_mut().rev().take(n / 2).enumerate() {
-                let ki: Complex<A> = Complex::<A>::new(A::zero(), A::from_usize(k).unwrap());
+                let ki: Complex<A> = Complex::<A>::new(A::zero(), -A::from_usize(k + 1).unwrap());
                 *y = *y * ki;
             }
         }
-- 
2.43.0


From 39a8c2bdde1a1189d8b1f585fdceb84884b18a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 05/13] fix: fourier grids have exactly n points

---
 src/fourier/c2c.rs | 6 +++---
 src/fourier/r2c.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fourier/c2c.rs b/src/fourier/c2c.rs
index b36f57c..d9d66c5 100644
--- a/src/fourier/c2c.rs
+++ b/src/fourier/c2c.rs
@@ -47,9 +47,9 @@ impl<A: FloatNum> FourierC2c<A> {
     #[allow(clippy::cast_precision_loss)]
     pub fn nodes(n: usize) -> Vec<A> {
         let n64 = n as f64;
-        ndarray::Array1::range(0., 2. * PI, 2. * PI / n64)
-            .mapv(|elem| A::from_f64(elem).unwrap())
-            .to_vec()
+        (0..n)
+            .map(|k| A::from_f64(2. * PI * k as f64 / n64).unwrap())
+            .collect()
     }
 
     /// Return complex wavenumber vector(0, 1, 2, -3, -2, -1)
diff --git a/src/fourier/r2c.rs b/src/fourier/r2c.rs
index 7687856..6141990 100644
--- a/src/fourier/r2c.rs
+++ b/src/fourier/r2c.rs
@@ -48,9 +48,9 @@ impl<A: FloatNum> FourierR2c<A> {
     #[allow(clippy::cast_precision_loss)]
     pub fn nodes(n: usize) -> Vec<A> {
         let n64 = n as f64;
-        ndarray::Array1::range(0., 2. * PI, 2. * PI / n64)
-            .mapv(|elem| A::from_f64(elem).unwrap())
-            .to_vec()
+        (0..n)
+            .map(|k| A::from_f64(2. * PI * k as f64 / n64).unwrap())
+            .collect()
     }
 
     /// Return complex wavenumber vector for r2c transform (0, 1, 2, 3)
-- 
2.43.0


From e8abf4a45dc5e79e08c38628694cc1db10f33a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 06/13] fix: no integer overflow in third and fourth chebyshev
 differentiation matrix

---
 src/chebyshev/ortho.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/chebyshev/ortho.rs b/src/chebyshev/ortho.rs
index c6c3648..9fa4a41 100644
--- a/src/chebyshev/ortho.rs
+++ b/src/chebyshev/ortho.rs
@@ -105,22 +105,22 @@ impl<A: FloatNum> Chebyshev<A> {
             }
         } else if deriv == 3 {
             for p in 0..n {
-                let p2 = p * p;
+                let p2 = (p * p) as i128;
                 for q in p + 3..n {
-                    let q2 = q * q;
+                    let q2 = (q * q) as i128;
                     if (p + q) % 2 != 0 {
                         dmat[[p, q]] =
-                            (q * (q2 * (q2 - 2) - 2 * q2 * p2 + p2 * p2 - 2 * p2 + 1)) as f64 / 4.;
+                            (q as i128 * (q2 * (q2 - 2) - 2 * q2 * p2 + p2 * p2 - 2 * p2 + 1)) as f64 / 4.;
                     }
                 }
             }
         } else if deriv == 4 {
             for p in 0..n {
-                let (p2, p4) = (p * p, p * p * p * p);
+                let (p2, p4) = ((p * p) as i128, (p * p * p * p) as i128);
                 for q in p + 4..n {
-                    let (q2, q4) = (q * q, q * q * q * q);
+                    let (q2, q4) = ((q * q) as i128, (q * q * q * q) as i128);
                     if (p + q) % 2 == 0 {
-                        dmat[[p, q]] = (q
+                        dmat[[p, q]] = (q as i128
                             * (q2 * (q2 - 4) * (q2 - 4) + 3 * q2 * p4 - p2 * p4 + 8 * p4
                                 - 16 * p2
                                 - 3 * q4 * p2)) as f64
-- 
2.43.0


From ad3f3c011b67dc68201bba2b5bf7c4aa02c94a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 07/13] fix: chebyshev pseudoinverse no longer underflows for
 small n

---
 src/chebyshev/ortho.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/chebyshev/ortho.rs b/src/chebyshev/ortho.rs
index 9fa4a41..b6f316b 100644
--- a/src/chebyshev/ortho.rs
+++ b/src/chebyshev/ortho.rs
@@ -177,7 +177,7 @@ impl<A: FloatNum> Chebyshev<A> {
             for i in 2..n - 2 {
                 pinv[[i, i]] = -1. / (2 * (i * i - 1)) as f64; // diag 0
             }
-            for i in 2..n - 4 {
+            for i in 2..n.saturating_sub(4) {
                 pinv[[i, i + 2]] = 1. / (4 * i * (i + 1)) as f64; // diag + 2
             }
         } else if deriv == 3 {
@@ -193,12 +193,12 @@ impl<A: FloatNum> Chebyshev<A> {
                 pinv[[i, i - 1]] = -3. / d as f64;
             }
             // diag + 1
-            for i in 3..n - 4 {
+            for i in 3..n.saturating_sub(4) {
                 let d = 8 * (i - 1) * (i + 2) * i;
                 pinv[[i, i + 1]] = 3. / d as f64;
             }
             // diag + 3
-            for i in 3..n - 6 {
+            for i in 3..n.saturating_sub(6) {
                 let d = 8 * i * (i + 1) * (i + 2);
                 pinv[[i, i + 3]] = -1. / d as f64;
             }
@@ -215,17 +215,17 @@ impl<A: FloatNum> Chebyshev<A> {
                 pinv[[i, i - 2]] = -1. / d as f64;
             }
             // diag + 0
-            for i in 4..n - 4 {
+            for i in 4..n.saturating_sub(4) {
                 let d = 8 * (i - 2) * (i - 1) * (i + 1) * (i + 2);
                 pinv[[i, i]] = 3. / d as f64;
             }
             // diag + 2
-            for i in 4..n - 6 {
+            for i in 4..n.saturating_sub(6) {
                 let d = 4 * (i - 1) * i * (i + 1) * (i + 3);
                 pinv[[i, i + 2]] = -1. / d as f64;
             }
             // diag + 4
-            for i in 4..n - 8 {
+            for i in 4..n.saturating_sub(8) {
                 let d = 16 * i * (i + 1) * (i + 2) * (i + 3);
                 pinv[[i, i + 4]] = 1. / d as f64;
             }
-- 
2.43.0


From 286dfcf541204a4cc08be919a54919d9402504c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 08/13] fix: chebyshev gradient with two coefficients reads out
 of bounds

---
 src/chebyshev/ortho.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/chebyshev/ortho.rs b/src/chebyshev/ortho.rs
index b6f316b..b62bdad 100644
--- a/src/chebyshev/ortho.rs
+++ b/src/chebyshev/ortho.rs
@@ -416,8 +416,10 @@ where
                     *outdata.get_unchecked_mut(i) =
                         *outdata.get_unchecked(i) + *outdata.get_unchecked(i + 2);
                 }
-                *outdata.get_unchecked_mut(0) =
-                    *outdata.get_unchecked(0) + *outdata.get_unchecked(2) / two;
+                if self.m > 2 {
+                    *outdata.get_unchecked_mut(0) =
+                        *outdata.get_unchecked(0) + *outdata.get_unchecked(2) / two;
+                }
             }
         }
     }
-- 
2.43.0


From 68065a12341d39707e5ec95ed17a18428385d411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 09/13] fix: stencil kernels check slice lengths before
 unchecked access

---
 src/chebyshev/stencils/helpers.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/chebyshev/stencils/helpers.rs b/src/chebyshev/stencils/helpers.rs
index 0b9a540..21cb011 100644
--- a/src/chebyshev/stencils/helpers.rs
+++ b/src/chebyshev/stencils/helpers.rs
@@ -135,6 +135,7 @@ impl<A: FloatNum> HelperStencil2Diag<A> {
             + Copy,
     {
         assert!(v.len() == self.diag.len());
+        assert!(u.len() == self.diag.len() + 2);
         let n = u.len();
         unsafe {
             *u.get_unchecked_mut(0) = *v.get_unchecked(0) * *self.diag.get_unchecked(0);
@@ -167,6 +168,8 @@ impl<A: FloatNum> HelperStencil2Diag<A> {
     {
         use crate::chebyshev::linalg::tdma;
         // assert!(Self::get_m(u.len()) == u.len());
+        assert!(v.len() == self.diag.len());
+        assert!(u.len() == self.diag.len() + 2);
         // Multiply right hand side
         unsafe {
             for i in 0..v.len() {
@@ -229,6 +232,7 @@ impl<A: FloatNum> HelperStencil3Diag<A> {
             + Copy,
     {
         assert!(v.len() == self.diag.len());
+        assert!(u.len() == self.diag.len() + 2);
         // assert!(Self::get_m(u.len()) == u.len());
         let n = u.len();
         unsafe {
@@ -265,6 +269,8 @@ impl<A: FloatNum> HelperStencil3Diag<A> {
     {
         use crate::chebyshev::linalg::pdma;
         // assert!(Self::get_m(u.len()) == u.len());
+        assert!(v.len() == self.diag.len());
+        assert!(u.len() == self.diag.len() + 2);
         // Multiply right hand side
         unsafe {
             for i in 0..v.len() {
@@ -383,6 +389,7 @@ impl<A: FloatNum> HelperStencil3Diag2<A> {
             + Copy,
     {
         assert!(v.len() == self.diag.len());
+        assert!(u.len() == self.diag.len() + 4);
         let n = u.len();
         unsafe {
             *u.get_unchecked_mut(0) = *v.get_unchecked(0) * *self.diag.get_unchecked(0);
@@ -426,6 +433,8 @@ impl<A: FloatNum> HelperStencil3Diag2<A> {
     {
         use crate::chebyshev::linalg::pdma2;
         // assert!(Self::get_m(u.len()) == u.len());
+        assert!(v.len() == self.diag.len());
+        assert!(u.len() == self.diag.len() + 4);
         // Multiply right hand side
         unsafe {
             for i in 0..v.len() {
-- 
2.43.0


From 4b144f5cbfc64d2c82ea9192b5ee6055788fae70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 10/13] fix: complex approx_eq helpers require both parts to
 agree

---
 src/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index a31bd16..13c93bf 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -30,7 +30,7 @@ where
     let tol = A::from_f64(1e-3).unwrap();
     for (a, b) in vec_a.iter().zip(vec_b.iter()) {
         assert!(
-            ((a.re - b.re).abs() < tol || (a.im - b.im).abs() < tol),
+            ((a.re - b.re).abs() < tol && (a.im - b.im).abs() < tol),
             "Large difference of values, got {} expected {}.",
             b,
             a
@@ -76,7 +76,7 @@ pub fn approx_eq_complex_ndarray<A, S, D>(
     let tol = A::from_f64(1e-3).unwrap();
     for (a, b) in expected.iter().zip(result.iter()) {
         assert!(
-            ((a.re - b.re).abs() < tol || (a.im - b.im).abs() < tol),
+            ((a.re - b.re).abs() < tol && (a.im - b.im).abs() < tol),
             "Large difference of values, got {} expected {}.",
             b,
             a
-- 
2.43.0


From a6a4ed7dccec850192349f06a11d260c4a279e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 11/13] fix: approx_eq helpers reject operands of different
 shape

---
 src/utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils.rs b/src/utils.rs
index 13c93bf..0446b94 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -7,6 +7,7 @@ pub fn approx_eq<A>(vec_a: &[A], vec_b: &[A])
 where
     A: crate::types::FloatNum + std::fmt::Display,
 {
+    assert!(vec_a.len() == vec_b.len(), "Length mismatch");
     let tol = A::from_f64(1e-3).unwrap();
     for (a, b) in vec_a.iter().zip(vec_b.iter()) {
         assert!(
@@ -27,6 +28,7 @@ pub fn approx_eq_complex<A>(vec_a: &[num_complex::Complex<A>], vec_b: &[num_comp
 where
     A: crate::types::FloatNum + std::fmt::Display,
 {
+    assert!(vec_a.len() == vec_b.len(), "Length mismatch");
     let tol = A::from_f64(1e-3).unwrap();
     for (a, b) in vec_a.iter().zip(vec_b.iter()) {
         assert!(
@@ -50,6 +52,7 @@ pub fn approx_eq_ndarray<A, S, D>(
     S: ndarray::Data<Elem = A>,
     D: ndarray::Dimension,
 {
+    assert!(result.shape() == expected.shape(), "Shape mismatch");
     let tol = A::from_f64(1e-3).unwrap();
     for (a, b) in expected.iter().zip(result.iter()) {
         assert!(
@@ -73,6 +76,7 @@ pub fn approx_eq_complex_ndarray<A, S, D>(
     S: ndarray::Data<Elem = num_complex::Complex<A>>,
     D: ndarray::Dimension,
 {
+    assert!(result.shape() == expected.shape(), "Shape mismatch");
     let tol = A::from_f64(1e-3).unwrap();
     for (a, b) in expected.iter().zip(result.iter()) {
         assert!(
-- 
2.43.0


From 587046c79b0773b4c3b4934a0830d4e9b82b7bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 12/13] fix: biharmonic to_ortho reads past the end of its
 coefficients

---
 src/chebyshev/stencils/helpers.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/chebyshev/stencils/helpers.rs b/src/chebyshev/stencils/helpers.rs
index 21cb011..579d4df 100644
--- a/src/chebyshev/stencils/helpers.rs
+++ b/src/chebyshev/stencils/helpers.rs
@@ -407,10 +407,8 @@ impl<A: FloatNum> HelperStencil3Diag2<A> {
                 + *v.get_unchecked(n - 8) * *self.low4.get_unchecked(n - 8);
             *u.get_unchecked_mut(n - 3) = *v.get_unchecked(n - 5) * *self.low2.get_unchecked(n - 5)
                 + *v.get_unchecked(n - 7) * *self.low4.get_unchecked(n - 7);
-            *u.get_unchecked_mut(n - 2) = *v.get_unchecked(n - 4) * *self.low2.get_unchecked(n - 4)
-                + *v.get_unchecked(n - 6) * *self.low4.get_unchecked(n - 6);
-            *u.get_unchecked_mut(n - 1) = *v.get_unchecked(n - 3) * *self.low2.get_unchecked(n - 3)
-                + *v.get_unchecked(n - 5) * *self.low4.get_unchecked(n - 5);
+            *u.get_unchecked_mut(n - 2) = *v.get_unchecked(n - 6) * *self.low4.get_unchecked(n - 6);
+            *u.get_unchecked_mut(n - 1) = *v.get_unchecked(n - 5) * *self.low4.get_unchecked(n - 5);
         }
     }
 
-- 
2.43.0


From 5b830cee1d87c1742469e9dafb8948ad2f3b3552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 13/13] fix: chebyshev gradient checks the length of its input

---
 src/chebyshev/ortho.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chebyshev/ortho.rs b/src/chebyshev/ortho.rs
index b62bdad..5ae8ab6 100644
--- a/src/chebyshev/ortho.rs
+++ b/src/chebyshev/ortho.rs
@@ -395,6 +395,7 @@ where
     /// approx_eq(&outdata, &vec![12., 96.,  0.,  0.]);
     /// ```
     fn gradient_slice(&self, indata: &[T], outdata: &mut [T], n_times: usize) {
+        assert!(indata.len() == self.m);
         assert!(outdata.len() == self.m);
         // Copy over
         for (y, x) in outdata.iter_mut().zip(indata.iter()) {
-- 
2.43.0

