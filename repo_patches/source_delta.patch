From cc4d0313fcbf6a27aa82aa71d546a33a20c032c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:06 +0000
Subject: [PATCH 01/24] fix: sub_matrix accepts blocks reaching the edges and
 refuses blocks outside the matrix

---
 src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 29a28fe..d76cef1 100755
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -414,7 +414,7 @@ impl<T : Copy> Matrix<T> {
   pub fn sub_matrix(&self, start_row : usize, start_col : usize, end_row : usize, end_col : usize) -> Matrix<T> {
     assert!(start_row < end_row);
     assert!(start_col < end_col);
-    assert!((end_row - start_row) < self.no_rows && (end_col - start_col) < self.cols() && start_row != end_row && start_col != end_col);
+    assert!(end_row <= self.no_rows && end_col <= self.cols());
     let rows = end_row - start_row;
     let cols = end_col - start_col;
     let elems = rows * cols;
-- 
2.43.0


From 63da29d6dfee7321b2dad78fe1e70079e8dd5cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:24 +0000
Subject: [PATCH 02/24] fix: vector_p_norm takes the absolute value before the
 power

---
 src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index d76cef1..1a1c142 100755
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -821,7 +821,7 @@ impl<T : Float + ApproxEq<T> + Signed + Copy> Matrix<T> {
 
     let mut s : T = num::zero();
     for i in 0..self.data.len() {
-      s = s + num::abs(self.data[i].powf(p.clone()));
+      s = s + num::abs(self.data[i].clone()).powf(p.clone());
     }
 
     s.powf(num::one::<T>() / p)
-- 
2.43.0


From e8ab653226b558490cbaf1721c956999bdae6432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 03/24] fix: QRDecomposition::get_q returns the full m x m
 orthogonal factor for tall matrices

---
 src/decomp/qr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/decomp/qr.rs b/src/decomp/qr.rs
index 0f23479..033e01b 100755
--- a/src/decomp/qr.rs
+++ b/src/decomp/qr.rs
@@ -154,8 +154,8 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
     let mut qdata : Vec<T> = vec![num::zero(); m * m];
 
     // Set the diagonal elements to 1
-    for minor in 0..cmp::min(m, n) {
-      qdata[minor * m + minor] = num::one();
+    for i in 0..m {
+      qdata[i * m + i] = num::one();
     }
 
     // Successively apply the iverses of the reflections in reverse order to qdata (identity)
@@ -163,7 +163,7 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
     // the identity matrix to Q: (Note that a reflection matrix is it's own inverse).
     //   Q = Q_1_inv(Q_2_inv(...(Q_m_inv I))) = Q_1(Q_2(...(Q_m I)))
     for minor in (0..cmp::min(m, n)).rev() {
-      if self.qr.get_data()[minor * n + minor].clone() != num::zero() {
+      if self.rdiag[minor].clone() != num::zero() {
         // |u|^2 = -2a*qrdata[minor * n + minor]
         //       = -2 * rdiag[minor] * qrdata[minor * n + minor]
         //
-- 
2.43.0


From ac3f4f6c24f08efcf5aed36d9d0834862a2c35e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 04/24] fix: QRDecomposition::solve applies the reflections
 correctly and returns n rows for tall matrices

---
 src/decomp/qr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/decomp/qr.rs b/src/decomp/qr.rs
index 033e01b..0f5cbbb 100755
--- a/src/decomp/qr.rs
+++ b/src/decomp/qr.rs
@@ -215,7 +215,7 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
         for i in k..m {
           s = s + self.qr.get_data()[i * self.qr.cols() + k].clone() * xdata[i * nx + j].clone();
         }
-        s = - s / self.qr.get_data()[k * self.qr.cols() + k].clone();
+        s = s / (self.rdiag[k].clone() * self.qr.get_data()[k * self.qr.cols() + k].clone());
         for i in k..m {
           xdata[i * nx + j] = xdata[i * nx + j].clone() + s * self.qr.get_data()[i * self.qr.cols() + k].clone();
         }
@@ -234,7 +234,9 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
       }
     }
 
-    Some(Matrix::new(self.qr.cols(), b.cols(), xdata))
+    // The solution has one row per column of A; drop the rows left over from B.
+    xdata.truncate(n * nx);
+    Some(Matrix::new(n, nx, xdata))
   }
 }
 
-- 
2.43.0


From 56cc13ba37230d6077e9deb2618d6b6d6e17efb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 05/24] fix: QRDecomposition::is_full_rank is false for
 matrices with more columns than rows

---
 src/decomp/qr.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decomp/qr.rs b/src/decomp/qr.rs
index 0f5cbbb..ba942a8 100755
--- a/src/decomp/qr.rs
+++ b/src/decomp/qr.rs
@@ -106,6 +106,9 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
   }
 
   pub fn is_full_rank(&self) -> bool {
+    if self.qr.rows() < self.qr.cols() {
+      return false;
+    }
     for j in 0..self.qr.cols() {
       if self.rdiag[j].clone() == num::zero() {
         return false;
-- 
2.43.0


From f518748a6118550e16bd44f8f21bab8fe44553dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 06/24] fix: SVD::rank works for tall matrices

---
 src/decomp/svd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomp/svd.rs b/src/decomp/svd.rs
index 17c7fb7..feb1e3e 100755
--- a/src/decomp/svd.rs
+++ b/src/decomp/svd.rs
@@ -441,7 +441,7 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
     let max_dim : T = num::cast(cmp::max(self.u.rows(), self.v.rows())).unwrap();
     let tol = max_dim * self.s.get(0, 0) * eps;
     let mut r = 0;
-    for i in 0..self.s.rows() {
+    for i in 0..cmp::min(self.s.rows(), self.s.cols()) {
       if self.s.get(i, i) > tol {
         r += 1;
       }
-- 
2.43.0


From 8b16cdcfcc7b2bbde2a91f41a114dbc27ac9daa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 07/24] fix: SVD::rank uses the machine precision of the
 element type

---
 src/decomp/svd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomp/svd.rs b/src/decomp/svd.rs
index feb1e3e..3c028bf 100755
--- a/src/decomp/svd.rs
+++ b/src/decomp/svd.rs
@@ -437,7 +437,7 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
   }
 
   pub fn rank(&self) -> usize {
-    let eps : T = num::cast(2.0f64.powf(-52.0)).unwrap();
+    let eps : T = T::epsilon();
     let max_dim : T = num::cast(cmp::max(self.u.rows(), self.v.rows())).unwrap();
     let tol = max_dim * self.s.get(0, 0) * eps;
     let mut r = 0;
-- 
2.43.0


From 5d484c6ba4efc207982d1b53f33630b6d6a6416a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 08/24] fix: LU singularity test and solve refuse non-square
 matrices

---
 src/decomp/lu.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decomp/lu.rs b/src/decomp/lu.rs
index c08bb21..6319801 100755
--- a/src/decomp/lu.rs
+++ b/src/decomp/lu.rs
@@ -172,6 +172,7 @@ impl<T : Float + ApproxEq<T> + Signed> LUDecomposition<T> {
   }
 
   pub fn is_non_singular(&self) -> bool {
+    assert!(self.lu.rows() == self.lu.cols());
     let n = self.lu.cols();
     for j in 0..n {
       if self.lu.get_data()[j * n + j].clone() == num::zero() {
-- 
2.43.0


From 9a0d278ad0c2a7c0ed4a2ffe544a4c555b40b810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:00 +0000
Subject: [PATCH 09/24] fix: EigenDecomposition refuses non-square matrices

---
 src/decomp/eigen.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decomp/eigen.rs b/src/decomp/eigen.rs
index 5859170..44c87b1 100755
--- a/src/decomp/eigen.rs
+++ b/src/decomp/eigen.rs
@@ -753,6 +753,7 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
   }
 
   pub fn new(a : &Matrix<T>) -> EigenDecomposition<T> {
+    assert!(a.rows() == a.cols());
     let n = a.cols();
 
     let mut vdata = alloc_dirty_vec(n * n);
-- 
2.43.0


From 93825ff45fbfd08ec82bb7af51a494aa39760814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:25 +0000
Subject: [PATCH 10/24] fix: SVD::direct returns an orthogonal U for tall and
 wide matrices

---
 src/decomp/svd.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/decomp/svd.rs b/src/decomp/svd.rs
index 3c028bf..26e7497 100755
--- a/src/decomp/svd.rs
+++ b/src/decomp/svd.rs
@@ -453,6 +453,7 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
   /// is not numerically stable, so it is mostly useful for testing purposes.
   pub fn direct(a : &Matrix<T>) -> SVD<T> {
     use EigenDecomposition;
+    use QRDecomposition;
 
     // A = USV'
     if a.rows() < a.cols() {
@@ -481,13 +482,16 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
     let s_size = singular_values.len();
     let s = Matrix::block_diag(s_size, s_size, singular_values);
     let s_inv = s.inverse().unwrap();
-    let (s_aug, s_inv_aug) =
-        if a.rows() == a.cols() { (s, s_inv) }
+    let u_n = a.mul(v).mul(&s_inv);
+    let (u, s_aug) =
+        if a.rows() == a.cols() { (u_n, s) }
         else {
-          (s.cb(&Matrix::zero(a.rows() - a.cols(), s.cols())),
-           s_inv.cr(&Matrix::zero(s_inv.rows(), a.rows() - a.cols())))
+          // Complete the columns of U to an orthonormal basis: the trailing
+          // columns of Q in U_n = QR are orthogonal to the columns of U_n.
+          let q = QRDecomposition::new(&u_n).get_q();
+          (u_n.cr(&q.sub_matrix(0, a.cols(), a.rows(), a.rows())),
+           s.cb(&Matrix::zero(a.rows() - a.cols(), s.cols())))
         };
-    let u = a.mul(v).mul(&s_inv_aug);
 
     SVD {
       u : u.clone(),
-- 
2.43.0


From d81923c1cfabb6506ae0c5cd88748739071a0b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:26 +0000
Subject: [PATCH 11/24] fix: m! refuses rows of different lengths

---
 src/macros.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/macros.rs b/src/macros.rs
index cb4928e..a4af0dc 100755
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -12,12 +12,19 @@ macro_rules! m_one {
   ( $item:tt ) => ( 1 )
 }
 
+/// Helper macro for m!
+#[macro_export]
+macro_rules! m_cols {
+  ( [ $($i:expr),* ] ) => ( 0 $(+ m_one!($i))* )
+}
+
 /// Helper macro for m!
 #[macro_export]
 macro_rules! m_rec(
   ( [ $($row:tt),* ] [$($i:expr),*]) => ({
      let _rows = 0 $(+ m_one!($row) )*;
      let _cols = (0 $(+ m_one!($i))*) / _rows;
+     $(assert!(m_cols!($row) == _cols);)*
      Matrix::new(
        _rows,
        _cols,
-- 
2.43.0


From 7e3241cc9141a15b474801be556e709f9ab6f76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:00 +0000
Subject: [PATCH 12/24] fix: EigenDecomposition uses the machine precision of
 the element type

With 2^-52 for f32 the perturbations that keep eigenvectors of defective
matrices finite are far too small, and NaN vectors were returned.
---
 src/decomp/eigen.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decomp/eigen.rs b/src/decomp/eigen.rs
index 44c87b1..c6d38af 100755
--- a/src/decomp/eigen.rs
+++ b/src/decomp/eigen.rs
@@ -148,7 +148,7 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
 
     let mut f : T = num::zero();
     let mut tst1 : T = num::zero();
-    let eps : T = num::cast(2.0f64.powf(-52.0)).unwrap();
+    let eps : T = T::epsilon();
     for l in 0..n {
       // Find small subdiagonal element
       tst1 = tst1.max(num::abs(ddata[l].clone()) + num::abs(edata[l].clone()));
@@ -353,7 +353,7 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
     let mut n = nn - 1;
     let low : isize = 0;
     let high = nn - 1;
-    let eps : T = num::cast(2.0f64.powf(-52.0)).unwrap();
+    let eps : T = T::epsilon();
     let mut exshift = num::zero();
     let mut p = num::zero();
     let mut q = num::zero();
-- 
2.43.0


From c43ac0c8516c13de29f90819f2ee706953f17e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:22 +0000
Subject: [PATCH 13/24] fix: EigenDecomposition keeps applying exceptional
 shifts until it converges

With only two of them the QR iteration ran into a cycle and practically
never finished on some small integer matrices.
---
 src/decomp/eigen.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decomp/eigen.rs b/src/decomp/eigen.rs
index c6d38af..da3dbf3 100755
--- a/src/decomp/eigen.rs
+++ b/src/decomp/eigen.rs
@@ -472,7 +472,7 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
         }
 
         // Wilkinson's original ad hoc shift
-        if iter == 10 {
+        if iter % 30 == 10 || iter % 30 == 20 {
           exshift = exshift + x;
           for i in low..(n + 1) {
             hdata[(i * nn + i) as usize] = hdata[(i * nn + i) as usize].clone() - x;
@@ -486,7 +486,7 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
         }
 
         // MATLAB's new ad hoc shift
-        if iter == 30 {
+        if iter % 30 == 0 && iter > 0 {
           s = (y - x) / num::cast(2.0).unwrap();
           s = s * s + w;
           if s > num::zero() {
-- 
2.43.0


From 2f8401a930f9820ed2248a22878d0d81e6b5079b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 14/24] fix: EigenDecomposition drops rounding noise that is
 about to underflow

Low-rank matrices leave cascades of ever smaller rounding noise in the
Hessenberg form.  Once it reached the underflow range the reflections and
the deflation test broke down: NaN eigenvectors, or no termination.
---
 src/decomp/eigen.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/decomp/eigen.rs b/src/decomp/eigen.rs
index da3dbf3..9a87f65 100755
--- a/src/decomp/eigen.rs
+++ b/src/decomp/eigen.rs
@@ -255,13 +255,21 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
     let low = 0;
     let high = n - 1;
 
+    // Anything below this is rounding noise whose products would underflow.
+    let max_abs = hdata.iter().fold(num::zero(), |m : T, x| m.max(num::abs(x.clone())));
+    let tiny = T::min_positive_value().sqrt() * max_abs;
+
     for m in (low + 1)..high {
       // Scale column.
       let mut scale : T = num::zero();
       for i in m..(high + 1) {
         scale = scale + num::abs(hdata[i * n + (m - 1)].clone());
       }
-      if scale != num::zero() {
+      if scale <= tiny {
+        for i in m..(high + 1) {
+          hdata[i * n + (m - 1)] = num::zero();
+        }
+      } else {
         // Compute Householder transformation.
         let mut h : T = num::zero();
         for i in (m..(high + 1)).rev() {
@@ -377,6 +385,9 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
       }
     }
 
+    // Anything below this is rounding noise whose products would underflow.
+    let tiny = T::min_positive_value().sqrt() * norm;
+
     // Outer loop over eigenvalue index
     let mut iter = 0;
     while n >= low {
@@ -388,7 +399,7 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
         if s == num::zero() {
           s = norm.clone();
         }
-        if num::abs(hdata[(l * nn + (l - 1)) as usize].clone()) < (eps * s) {
+        if num::abs(hdata[(l * nn + (l - 1)) as usize].clone()) <= tiny.max(eps * s) {
           break;
         }
         l -= 1;
@@ -632,7 +643,7 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
           } else {
             l = i;
             if edata[i as usize].clone() == num::zero() {
-              if w != num::zero() {
+              if num::abs(w.clone()) > tiny {
                 hdata[(i * nn + n) as usize] = - r / w;
               } else {
                 hdata[(i * nn + n) as usize] = - r / (eps * norm);
-- 
2.43.0


From 3bdda0b2eb42c4970b120e20a62d8650ad00555f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:13 +0000
Subject: [PATCH 15/24] fix: the symmetric eigendecomposition drops rounding
 noise that is about to underflow

Iterating on it lost the orthogonality of the eigenvectors of larger
low-rank symmetric matrices.
---
 src/decomp/eigen.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/decomp/eigen.rs b/src/decomp/eigen.rs
index 9a87f65..72c84ac 100755
--- a/src/decomp/eigen.rs
+++ b/src/decomp/eigen.rs
@@ -149,12 +149,15 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
     let mut f : T = num::zero();
     let mut tst1 : T = num::zero();
     let eps : T = T::epsilon();
+    // Anything below this is rounding noise whose products would underflow.
+    let norm = ddata.iter().chain(edata.iter()).fold(num::zero(), |m : T, x| m.max(num::abs(x.clone())));
+    let tiny = T::min_positive_value().sqrt() * norm;
     for l in 0..n {
       // Find small subdiagonal element
       tst1 = tst1.max(num::abs(ddata[l].clone()) + num::abs(edata[l].clone()));
       let mut m = l;
       while m < n {
-        if num::abs(edata[m].clone()) <= (eps * tst1) {
+        if num::abs(edata[m].clone()) <= tiny.max(eps * tst1) {
           break;
         }
         m += 1;
@@ -213,7 +216,7 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
           ddata[l] = c * p;
 
           // Check for convergence.
-          if num::abs(edata[l].clone()) <= (eps * tst1) {
+          if num::abs(edata[l].clone()) <= tiny.max(eps * tst1) {
             break;
           }
         }
-- 
2.43.0


From 60d760e3450241dbc5caaa5b2f9ccc000a96edf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 16/24] fix: SVD uses the precision and range of the element
 type

With thresholds fixed for f64 the iteration for f32 did not terminate on
some low-rank matrices, and iterating on rounding noise in the underflow
range lost the orthogonality of U and V.
---
 src/decomp/svd.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/decomp/svd.rs b/src/decomp/svd.rs
index 26e7497..2b60214 100755
--- a/src/decomp/svd.rs
+++ b/src/decomp/svd.rs
@@ -60,6 +60,11 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
     let mut edata = alloc_dirty_vec(n);
     let mut workdata : Vec<T> = alloc_dirty_vec(m);
 
+    let eps : T = T::epsilon();
+    // Anything below this is rounding noise whose products would underflow.
+    let max_abs = adata.iter().fold(num::zero(), |m : T, x| m.max(num::abs(x.clone())));
+    let tiny = T::min_positive_value().sqrt() * max_abs;
+
     // Reduce A to bidiagonal form, storing the diagonal elements
     // in s and the super-diagonal elements in e.
     let nct = cmp::min(m - 1, n);
@@ -73,6 +78,9 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
         for i in k..m {
           sdata[k] = hypot(sdata[k].clone(), adata[i * n + k].clone());
         }
+        if sdata[k].clone() <= tiny {
+          sdata[k] = num::zero();
+        }
         if sdata[k].clone() != num::zero() {
           if adata[k * n + k].clone() < num::zero() {
             sdata[k] = - sdata[k].clone();
@@ -115,6 +123,9 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
         for i in (k + 1)..n {
           edata[k] = hypot(edata[k].clone(), edata[i].clone());
         }
+        if edata[k].clone() <= tiny {
+          edata[k] = num::zero();
+        }
         if edata[k].clone() != num::zero() {
           if edata[k + 1].clone() < num::zero() {
             edata[k] = - edata[k].clone();
@@ -223,8 +234,6 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
 
     // Main iteration loop for the singular values.
     let pp = p - 1;
-    let eps : T = num::cast(2.0f64.powf(-52.0)).unwrap();
-    let tiny : T = num::cast(2.0f64.powf(-966.0)).unwrap();
     while p > 0 {
       // Here is where a test for too many iterations would go.
 
-- 
2.43.0


From d52995d42cd6c2eadeb803cf674164dcaf36383a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:42 +0000
Subject: [PATCH 17/24] fix: the printed matrix aligns elements by characters,
 not bytes

---
 src/matrix.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 1a1c142..31eddc9 100755
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -545,7 +545,7 @@ impl<T : Debug + Copy> Debug for Matrix<T> {
   fn fmt(&self, fmt: &mut Formatter) -> Result {
     let max_width =
       self.data.iter().fold(0, |maxlen, elem| {
-        let l = format!("{:?}", elem).len();
+        let l = format!("{:?}", elem).chars().count();
         if maxlen > l { maxlen } else { l }
       });
 
@@ -554,7 +554,7 @@ impl<T : Debug + Copy> Debug for Matrix<T> {
       try!(write!(fmt, "|"));
       for col in 0..self.cols() {
         let v = self.get_ref(row, col).clone();
-        let slen = format!("{:?}", v).len();
+        let slen = format!("{:?}", v).chars().count();
         let mut padding = " ".to_owned();
         for _ in 0..(max_width-slen) {
           padding.push_str(" ");
-- 
2.43.0


From 7ba5c780dc51a06c861e19aa35ed918f4a628a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:14 +0000
Subject: [PATCH 18/24] fix: QR normalises the Householder vectors, so that
 rounding noise cannot underflow in them

---
 src/decomp/qr.rs | 114 +++++++++++++++++++++++------------------------
 1 file changed, 57 insertions(+), 57 deletions(-)

diff --git a/src/decomp/qr.rs b/src/decomp/qr.rs
index ba942a8..42b4115 100755
--- a/src/decomp/qr.rs
+++ b/src/decomp/qr.rs
@@ -46,9 +46,21 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
   fn perform_householder_reflection(minor : usize, qrdata : &mut Vec<T>, m : usize, n : usize, rdiag : &mut Vec<T>) {
     // Calculate the length of the minor:th minor column vector. As we are dealing with a sub matrix from the diagonal down and right,
     // the column vector corresponds to the row range minor .. (m - 1).
+    // Scale by the largest element, so that the squares cannot underflow (or overflow).
+    let mut scale : T = num::zero();
+    for i in minor..m {
+      scale = scale.max(qrdata[i * n + minor].abs());
+    }
+
+    // If the length of the column vector is zero, the column is already zero and there's nothing to do.
+    if scale == num::zero() {
+      rdiag[minor] = num::zero();
+      return;
+    }
+
     let mut x_norm_sqr : T = num::zero();
     for i in minor..m {
-      let c = qrdata[i * n + minor].clone();
+      let c = qrdata[i * n + minor].clone() / scale;
       x_norm_sqr = x_norm_sqr + c * c;
     }
 
@@ -56,51 +68,44 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
     // Reflection will flip the sign of the corresponding coordinate element, so sign of the reflected
     // coordinate will be the opposite of the current coordinate element.
     let a = if qrdata[minor * n + minor].clone() > num::zero() { - x_norm_sqr.sqrt() } else { x_norm_sqr.sqrt() };
-    rdiag[minor] = a.clone();
-
-    // If the length of the column vector is zero, the column is already zero and there's nothing to do.
-    if a != num::zero() {
-      // Transform qrdata[minor .. (m - 1)][minor] to be the minor:th Householder vector.
-
-      // u is the vector from the reflection point (a * e) to the current point (x).
-      // As we are reflecting to an minor:th axis, e = (1 0 0 .. 0 0)^T
-      // u = - a * e + x = x - a * e
-      //
-      // Note that:
-      // |u|^2 = <x - ae, x - ae>
-      //       = <x, x> - 2a<x, e> + a^2<e, e>
-      //       = a^2    - 2a<x, e> + a^2
-      //       = 2a^2 - 2a<x, e>
-      //       = 2a^2 - 2a*qrdata[k * n + k]	// As <x, e> is the projection of x to the axis aligned unit vector e.
-      //       = 2a(a - qrdata[k * n + k])
-      qrdata[minor * n + minor] = qrdata[minor * n + minor].clone() - a;
-
-      // Note that now:
-      // |u|^2 = 2a(a - (qrdata[k * n + k] + a))
-      //       = 2a(- qrdata[k * n + k])
-      //       = -2a*qrdata[k * n + k]
-
-      // Transform the rest of the columns of the minor:
-      // The reflection matrix is:
-      //   H = I - 2uu'/|u|^2.
-      //   Hx = (I - 2uu'/|u|^2)x
-      //      = x - 2uu'x/|u|^2
-      //      = x - 2<x,u>/|u|^2 u
-      //      = x - 2<x,u>/(-2a*qrdata[k * n + k]) u
-      //      = x + <x,u>/(a*qrdata[k * n + k]) u
-      //      = x + factor * u
-      for column in (minor + 1)..n {
-        // factor = <x, u>/(a * qrdata[k * n + k])
-        let mut x_dot_u : T = num::zero();
-        for row in minor..m {
-          x_dot_u = x_dot_u + qrdata[row * n + minor].clone() * qrdata[row * n + column].clone();
-        }
-        let factor = x_dot_u / (a * qrdata[minor * n + minor].clone());
+    rdiag[minor] = a * scale;
+
+    // Transform qrdata[minor .. (m - 1)][minor] to be the minor:th Householder vector.
+
+    // x - ra is the vector from the reflection point (r * e) to the current point (x), where r = rdiag[minor].
+    // As we are reflecting to an minor:th axis, e = (1 0 0 .. 0 0)^T
+    // Only its direction matters, so divide it by -r:
+    // u = (x - r * e) / -r = e - x / r
+    //
+    // Note that, with y = x / r and |y| = 1:
+    // |u|^2 = <e - y, e - y>
+    //       = <e, e> - 2<y, e> + <y, y>
+    //       = 2 - 2<y, e>
+    //       = 2 * qrdata[minor * n + minor]	// The first element of u.
+    for i in minor..m {
+      qrdata[i * n + minor] = - (qrdata[i * n + minor].clone() / scale) / a;
+    }
+    qrdata[minor * n + minor] = qrdata[minor * n + minor].clone() + num::one();
+
+    // Transform the rest of the columns of the minor:
+    // The reflection matrix is:
+    //   H = I - 2uu'/|u|^2.
+    //   Hx = (I - 2uu'/|u|^2)x
+    //      = x - 2uu'x/|u|^2
+    //      = x - 2<x,u>/|u|^2 u
+    //      = x - <x,u>/qrdata[minor * n + minor] u
+    //      = x - factor * u
+    for column in (minor + 1)..n {
+      // factor = <x, u>/qrdata[minor * n + minor]
+      let mut x_dot_u : T = num::zero();
+      for row in minor..m {
+        x_dot_u = x_dot_u + qrdata[row * n + minor].clone() * qrdata[row * n + column].clone();
+      }
+      let factor = x_dot_u / qrdata[minor * n + minor].clone();
 
-        // Hx = x + factor * u
-        for row in minor..m {
-          qrdata[row * n + column] = qrdata[row * n + column].clone() + factor * qrdata[row * n + minor].clone();
-        }
+      // Hx = x - factor * u
+      for row in minor..m {
+        qrdata[row * n + column] = qrdata[row * n + column].clone() - factor * qrdata[row * n + minor].clone();
       }
     }
   }
@@ -167,27 +172,22 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
     //   Q = Q_1_inv(Q_2_inv(...(Q_m_inv I))) = Q_1(Q_2(...(Q_m I)))
     for minor in (0..cmp::min(m, n)).rev() {
       if self.rdiag[minor].clone() != num::zero() {
-        // |u|^2 = -2a*qrdata[minor * n + minor]
-        //       = -2 * rdiag[minor] * qrdata[minor * n + minor]
+        // |u|^2 = 2 * qrdata[minor * n + minor]
         //
         // The reflection matrix is:
         //   H = I - 2uu'/|u|^2.
-        //   Hx = (I - 2uu'/|u|^2)x
-        //      = x - 2uu'x/|u|^2
-        //      = x - 2<x,u>/|u|^2 u
-        //      = x - 2<x,u>/(-2a*qrdata[minor * n + minor]) u
-        //      = x + <x,u>/(a*qrdata[minor * n + minor]) u
-        //      = x + factor * u
+        //   Hx = x - <x,u>/qrdata[minor * n + minor] u
+        //      = x - factor * u
         // Iterate over columns k .. (m - 1) of Q.
         for column in minor..m {
           let mut x_dot_u : T = num::zero();
           for row in minor..m {
             x_dot_u = x_dot_u + self.qr.get_data()[row * n + minor].clone() * qdata[row * m + column].clone();
           }
-          let factor = x_dot_u / (self.rdiag[minor].clone() * self.qr.get_data()[minor * n + minor].clone());
+          let factor = x_dot_u / self.qr.get_data()[minor * n + minor].clone();
 
           for row in minor..m {
-            qdata[row * m + column] = qdata[row * m + column].clone() + factor * self.qr.get_data()[row * n + minor].clone();
+            qdata[row * m + column] = qdata[row * m + column].clone() - factor * self.qr.get_data()[row * n + minor].clone();
           }
         }
       }
@@ -218,9 +218,9 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
         for i in k..m {
           s = s + self.qr.get_data()[i * self.qr.cols() + k].clone() * xdata[i * nx + j].clone();
         }
-        s = s / (self.rdiag[k].clone() * self.qr.get_data()[k * self.qr.cols() + k].clone());
+        s = s / self.qr.get_data()[k * self.qr.cols() + k].clone();
         for i in k..m {
-          xdata[i * nx + j] = xdata[i * nx + j].clone() + s * self.qr.get_data()[i * self.qr.cols() + k].clone();
+          xdata[i * nx + j] = xdata[i * nx + j].clone() - s * self.qr.get_data()[i * self.qr.cols() + k].clone();
         }
       }
     }
-- 
2.43.0


From 7ef5e5a358122dc9ad97c8a8bf58729676521979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:13 +0000
Subject: [PATCH 19/24] fix: EigenDecomposition measures convergence against
 the whole matrix once it stagnates

Rounding noise next to diagonal elements which are themselves noise is never small relative to them, so the f32
matrix [-2,-3,-3,-3,-1,-3;-3,-2,-3,-3,-3,-1;-1,-3,-2,-3,-3,-3;...] never converged.
---
 src/decomp/eigen.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decomp/eigen.rs b/src/decomp/eigen.rs
index 72c84ac..a981030 100755
--- a/src/decomp/eigen.rs
+++ b/src/decomp/eigen.rs
@@ -399,7 +399,8 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
       let mut l = n;
       while l > low {
         s = num::abs(hdata[((l - 1) * nn + (l - 1)) as usize].clone()) + num::abs(hdata[(l * nn + l) as usize].clone());
-        if s == num::zero() {
+        // No convergence after all the exceptional shifts: what is left is rounding noise of the whole matrix.
+        if s == num::zero() || iter > 30 {
           s = norm.clone();
         }
         if num::abs(hdata[(l * nn + (l - 1)) as usize].clone()) <= tiny.max(eps * s) {
-- 
2.43.0


From ce1dc3b049712305e339422672eb802c8ee36d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:30 +0000
Subject: [PATCH 20/24] fix: refuse a shape whose element count overflows

Without overflow checks, Matrix::new, zero, id and random accepted shapes whose
number of elements wraps around, giving matrices that do not have that shape.
---
 src/matrix.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 31eddc9..ef38e9e 100755
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -24,7 +24,7 @@ pub struct Matrix<T> {
 
 impl<T : Copy> Matrix<T> {
   pub fn new(no_rows : usize, no_cols : usize, data : Vec<T>) -> Matrix<T> {
-    assert!(no_rows * no_cols == data.len());
+    assert!(no_rows.checked_mul(no_cols) == Some(data.len()));
     assert!(no_rows > 0 && no_cols > 0);
     Matrix { no_rows : no_rows, data : data }
   }
@@ -110,7 +110,7 @@ impl<T : Copy> Matrix<T> {
 
 impl<T : Num + Copy> Matrix<T> {
   pub fn id(m : usize, n : usize) -> Matrix<T> {
-    let elems = m * n;
+    let elems = m.checked_mul(n).unwrap();
     let mut d : Vec<T> = alloc_dirty_vec(elems);
     for i in 0..elems {
       d[i] = num::zero();
@@ -122,7 +122,7 @@ impl<T : Num + Copy> Matrix<T> {
   }
 
   pub fn zero(no_rows : usize, no_cols : usize) -> Matrix<T> {
-    let elems = no_rows * no_cols;
+    let elems = no_rows.checked_mul(no_cols).unwrap();
     let mut d : Vec<T> = alloc_dirty_vec(elems);
     for i in 0..elems {
       d[i] = num::zero();
@@ -150,7 +150,7 @@ impl<T : Num + Copy> Matrix<T> {
     let min_dim = cmp::min(m, n);
     assert!(data.len() == min_dim);
 
-    let elems = m * n;
+    let elems = m.checked_mul(n).unwrap();
     let mut d : Vec<T> = alloc_dirty_vec(elems);
     for i in 0..elems {
       d[i] = num::zero();
@@ -569,7 +569,7 @@ impl<T : Debug + Copy> Debug for Matrix<T> {
 
 impl<T : Rand + Copy> Matrix<T> {
   pub fn random(no_rows : usize, no_cols : usize) -> Matrix<T> {
-    let elems = no_rows * no_cols;
+    let elems = no_rows.checked_mul(no_cols).unwrap();
     let mut d = alloc_dirty_vec(elems);
     for i in 0..elems {
       d[i] = rand::random::<T>();
-- 
2.43.0


From 18073ab4eae09d343eb0fa73d6fdc127a4fd780f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:43 +0000
Subject: [PATCH 21/24] fix: scale the matrix into the range of T before the
 SVD

With very small elements (around 2^-48 in f32) the rounding noise left after
deflation became subnormal and the rotations built from it lost orthogonality.
---
 src/decomp/svd.rs   | 15 +++++++++++----
 src/internalutil.rs | 16 ++++++++++++++++
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/decomp/svd.rs b/src/decomp/svd.rs
index 2b60214..787c55a 100755
--- a/src/decomp/svd.rs
+++ b/src/decomp/svd.rs
@@ -5,7 +5,7 @@ use num::{ Float, Signed };
 
 use ApproxEq;
 use Matrix;
-use internalutil::{alloc_dirty_vec, hypot};
+use internalutil::{alloc_dirty_vec, hypot, power_of_two};
 
 /// Singular Value Decomposition.
 ///
@@ -42,7 +42,6 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
 
     // Derived from LINPACK code.
     // Initialize.
-    let mut adata = a.get_data().clone();
     let m = a.rows();
     let n = a.cols();
 
@@ -60,10 +59,14 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
     let mut edata = alloc_dirty_vec(n);
     let mut workdata : Vec<T> = alloc_dirty_vec(m);
 
+    // Bring the largest element into [1, 2) by a power of two (which is exact), so
+    // that neither the elements nor the rounding noise leave the range of T.
+    let scale = power_of_two(a.get_data().iter().fold(num::zero(), |m : T, x| m.max(num::abs(x.clone()))));
+    let mut adata : Vec<T> = a.get_data().iter().map(|&x| x / scale).collect();
+
     let eps : T = T::epsilon();
     // Anything below this is rounding noise whose products would underflow.
-    let max_abs = adata.iter().fold(num::zero(), |m : T, x| m.max(num::abs(x.clone())));
-    let tiny = T::min_positive_value().sqrt() * max_abs;
+    let tiny = T::min_positive_value().sqrt();
 
     // Reduce A to bidiagonal form, storing the diagonal elements
     // in s and the super-diagonal elements in e.
@@ -426,6 +429,10 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
       }
     }
 
+    for s in sdata.iter_mut() {
+      *s = *s * scale;
+    }
+
     SVD {
       u : Matrix::new(m, m, udata),
       s : Matrix::block_diag(m, n, sdata),
diff --git a/src/internalutil.rs b/src/internalutil.rs
index ed71a85..cc4525e 100755
--- a/src/internalutil.rs
+++ b/src/internalutil.rs
@@ -26,6 +26,22 @@ pub fn hypot<T : Zero + One + Signed + PartialOrd + Float + Clone>(a : T, b : T)
   }
 }
 
+// The largest power of two not above x, or one if x is zero or not finite.
+pub fn power_of_two<T : Float>(x : T) -> T {
+  let one : T = num::one();
+  let two = one + one;
+  let mut p = one;
+  if (x > num::zero()) && x.is_finite() {
+    while x / p >= two {
+      p = p * two;
+    }
+    while x / p < one {
+      p = p / two;
+    }
+  }
+  p
+}
+
 #[test]
 fn hypot_test() {
   assert!(hypot(3.0, 4.0) == 5.0);
-- 
2.43.0


From e9e4b838e006af809bb798997e226f6ca90536cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:13 +0000
Subject: [PATCH 22/24] fix: scale the matrix into the range of T before the
 eigendecomposition

With very small elements (around 1e-199 in f64) the intermediate products
underflowed: wrong eigenvalues, or no convergence for a very long time.
---
 src/decomp/eigen.rs | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/decomp/eigen.rs b/src/decomp/eigen.rs
index a981030..590fb44 100755
--- a/src/decomp/eigen.rs
+++ b/src/decomp/eigen.rs
@@ -4,7 +4,7 @@ use num::traits::{Float, Signed};
 
 use ApproxEq;
 use Matrix;
-use internalutil::{alloc_dirty_vec, hypot};
+use internalutil::{alloc_dirty_vec, hypot, power_of_two};
 
 /// Eigenvalues and eigenvectors of a real matrix. 
 ///
@@ -786,10 +786,14 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
       j += 1;
     }
 
+    // Bring the largest element into [1, 2) by a power of two (which is exact), so
+    // that neither the elements nor the rounding noise leave the range of T.
+    let scale = power_of_two(a.get_data().iter().fold(num::zero(), |m : T, x| m.max(num::abs(x.clone()))));
+
     if issymmetric {
       for i in 0..n {
         for j in 0..n {
-          vdata[i * n + j] = a.get(i, j).clone();
+          vdata[i * n + j] = a.get(i, j) / scale;
         }
       }
 
@@ -798,19 +802,12 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
 
       // Diagonalize.
       EigenDecomposition::tql2(n, &mut edata, &mut ddata, &mut vdata);
-
-      EigenDecomposition {
-        n : n,
-        d : ddata,
-        e : edata,
-        v : Matrix::new(n, n, vdata)
-      }
     } else {
       let mut hdata = alloc_dirty_vec(n * n);
 
       for j in 0..n {
         for i in 0..n {
-          hdata[i * n + j] = a.get(i, j);
+          hdata[i * n + j] = a.get(i, j) / scale;
         }
       }
 
@@ -819,13 +816,18 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
    
       // Reduce Hessenberg to real Schur form.
       EigenDecomposition::hqr2(n, &mut ddata, &mut edata, &mut hdata, &mut vdata);
+    }
 
-      EigenDecomposition {
-        n : n,
-        d : ddata,
-        e : edata,
-        v : Matrix::new(n, n, vdata)
-      }
+    for i in 0..n {
+      ddata[i] = ddata[i] * scale;
+      edata[i] = edata[i] * scale;
+    }
+
+    EigenDecomposition {
+      n : n,
+      d : ddata,
+      e : edata,
+      v : Matrix::new(n, n, vdata)
     }
   }
 
-- 
2.43.0


From 950e731dd852cce59478d232de8872b503382887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:55 +0000
Subject: [PATCH 23/24] fix: the SVD iteration ends when the chase of tiny
 elements underflows

f32 [3.7e-18, -1.1e-24, 0; -1.1e-24, -8e-13, 0; 0, -1.4e-18, 1] never finished:
the implicit QR step left the bidiagonal unchanged.
---
 src/decomp/svd.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/decomp/svd.rs b/src/decomp/svd.rs
index 787c55a..1b4d62c 100755
--- a/src/decomp/svd.rs
+++ b/src/decomp/svd.rs
@@ -237,8 +237,12 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
 
     // Main iteration loop for the singular values.
     let pp = p - 1;
+    let norm = sdata.iter().chain(edata.iter()).fold(num::zero(), |m : T, x| m.max(num::abs(x.clone())));
+    let mut iter = 0;
     while p > 0 {
-      // Here is where a test for too many iterations would go.
+      // The chase of a tiny element can underflow and stall. The longer there is no
+      // convergence, the more is taken for rounding noise of the whole matrix.
+      let noise = eps * norm * num::cast(iter / 30).unwrap();
 
       // This section of the program inspects for
       // negligible elements in the s and e arrays.  On
@@ -252,7 +256,7 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
       let kase;
       let mut k = (p as isize) - 2;
       while k >= 0 {
-        if num::abs(edata[k as usize].clone()) <= (tiny + eps * (num::abs(sdata[k as usize].clone()) + num::abs(sdata[(k + 1) as usize].clone()))) {
+        if num::abs(edata[k as usize].clone()) <= (tiny + noise + eps * (num::abs(sdata[k as usize].clone()) + num::abs(sdata[(k + 1) as usize].clone()))) {
           edata[k as usize] = num::zero();
           break;
         }
@@ -266,7 +270,7 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
         while ks > k {
           let t = (if ks != (p as isize) { num::abs(edata[ks as usize].clone()) } else { num::zero() })
                   + (if ks != (k + 1) { num::abs(edata[(ks - 1) as usize].clone()) } else { num::zero() });
-          if num::abs(sdata[ks as usize].clone()) <= (tiny + eps * t) {
+          if num::abs(sdata[ks as usize].clone()) <= (tiny + noise + eps * t) {
             sdata[ks as usize] = num::zero();
             break;
           }
@@ -389,6 +393,7 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
         }
 
         edata[p - 2] = f;
+        iter += 1;
       } else if kase == 4 {
         // Convergence.
 
@@ -426,6 +431,7 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
         }
 
         p -= 1;
+        iter = 0;
       }
     }
 
-- 
2.43.0


From 2edbc7d4b6d3777105238b6af00c2df3d3533d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:06 +0000
Subject: [PATCH 24/24] fix: hqr2 converges on coupled pairs of eigenvalues of
 equal modulus

[0, 1, 0, 0; -1, 0, 0, t; 0, 0, 0, -1; 0, t, 1, 0] with t = 2^-48 never finished:
the ad hoc shift leaves such blocks as they are.
---
 src/decomp/eigen.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/decomp/eigen.rs b/src/decomp/eigen.rs
index 590fb44..e23132f 100755
--- a/src/decomp/eigen.rs
+++ b/src/decomp/eigen.rs
@@ -399,10 +399,14 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
       let mut l = n;
       while l > low {
         s = num::abs(hdata[((l - 1) * nn + (l - 1)) as usize].clone()) + num::abs(hdata[(l * nn + l) as usize].clone());
-        // No convergence after all the exceptional shifts: what is left is rounding noise of the whole matrix.
-        if s == num::zero() || iter > 30 {
+        // No convergence after all the exceptional shifts: what is left is rounding noise of the whole matrix,
+        // the more so the longer it lasts.
+        if s == num::zero() {
           s = norm.clone();
         }
+        if iter > 30 {
+          s = norm * num::cast(iter / 30).unwrap();
+        }
         if num::abs(hdata[(l * nn + (l - 1)) as usize].clone()) <= tiny.max(eps * s) {
           break;
         }
@@ -486,17 +490,18 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
           w = hdata[(n * nn + (n - 1)) as usize].clone() * hdata[((n - 1) * nn + n) as usize].clone();
         }
 
-        // Wilkinson's original ad hoc shift
+        // Wilkinson's original ad hoc shift, and another one as its x * y - w = s * s
+        // leaves blocks with the eigenvalues s and -s times i as they are.
         if iter % 30 == 10 || iter % 30 == 20 {
           exshift = exshift + x;
           for i in low..(n + 1) {
             hdata[(i * nn + i) as usize] = hdata[(i * nn + i) as usize].clone() - x;
           }
           s = num::abs(hdata[(n * nn + (n - 1)) as usize].clone()) + num::abs(hdata[((n - 1) * nn + (n - 2)) as usize].clone());
-          let tmp : T = num::cast(0.75).unwrap();
+          let tmp : T = num::cast(if iter % 30 == 10 { 0.75 } else { 0.9 }).unwrap();
           y = tmp * s;
           x = y.clone();
-          let tmp : T = num::cast(-0.4375).unwrap();
+          let tmp : T = num::cast(if iter % 30 == 10 { -0.4375 } else { -0.6 }).unwrap();
           w = tmp * s * s;
         }
 
-- 
2.43.0

