From e31c422b17fa21355a13d703aa066cb9fd4b42ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:10 +0000
Subject: [PATCH 01/20] fix: CSR/CSC from_dense panicked on an array without
 rows

---
 src/csc/csc.rs | 2 +-
 src/csr/csr.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csc/csc.rs b/src/csc/csc.rs
index 5aec3af..a39232d 100644
--- a/src/csc/csc.rs
+++ b/src/csc/csc.rs
@@ -50,7 +50,7 @@ impl<I: Integer, T: Scalar> CSC<I, T> {
 
     pub fn from_dense(a: &[Vec<T>]) -> Self {
         let rows = a.len();
-        let cols = a[0].len();
+        let cols = if rows > 0 { a[0].len() } else { 0 };
 
         let mut colptr = Vec::<I>::new();
         let mut rowidx = Vec::<I>::new();
diff --git a/src/csr/csr.rs b/src/csr/csr.rs
index 65b97af..17305f6 100644
--- a/src/csr/csr.rs
+++ b/src/csr/csr.rs
@@ -62,7 +62,7 @@ impl<I: Integer, T: Scalar> CSR<I, T> {
 
     pub fn from_dense(a: &[Vec<T>]) -> Self {
         let rows = a.len();
-        let cols = a[0].len();
+        let cols = if rows > 0 { a[0].len() } else { 0 };
 
         let mut rowptr = Vec::<I>::new();
         let mut colidx = Vec::<I>::new();
-- 
2.43.0


From a0b54eb17dd1e5e58680996bcc5d78698d513ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:38 +0000
Subject: [PATCH 02/20] fix: csr_has_canonical_format overflowed when the entry
 count is the index type's maximum

---
 src/row.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/row.rs b/src/row.rs
index 878fb27..32d25bf 100644
--- a/src/row.rs
+++ b/src/row.rs
@@ -192,9 +192,7 @@ pub fn csr_has_canonical_format<I: Integer>(n_row: usize, a_p: &[I], a_j: &[I])
             return false;
         }
 
-        let start = (a_p[i] + I::one()).to_usize().unwrap();
-        let end = a_p[i + 1].to_usize().unwrap();
-        for jj in start..end {
+        for jj in start + 1..end {
             if !(a_j[jj - 1] < a_j[jj]) {
                 return false;
             }
-- 
2.43.0


From 1860f49e8357b39aa1cf055e798114c49af6577f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:55 +0000
Subject: [PATCH 03/20] fix: csr_has_sorted_indices underflowed when the
 leading rows are empty

---
 src/row.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/row.rs b/src/row.rs
index 32d25bf..8220fa2 100644
--- a/src/row.rs
+++ b/src/row.rs
@@ -163,7 +163,7 @@ pub fn csr_todense<I: Integer, T: Scalar>(
 pub fn csr_has_sorted_indices<I: Integer>(n_row: usize, a_p: &[I], a_j: &[I]) -> bool {
     for i in 0..n_row {
         let start = a_p[i].to_usize().unwrap();
-        let end = (a_p[i + 1] - I::one()).to_usize().unwrap();
+        let end = a_p[i + 1].to_usize().unwrap().saturating_sub(1);
         for jj in start..end {
             if a_j[jj] > a_j[jj + 1] {
                 return false;
-- 
2.43.0


From 73bc1c0995168ee6db5a5ce84363fa5487e530b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:55 +0000
Subject: [PATCH 04/20] fix: CSC subtraction operator passed index and pointer
 arrays in the wrong order

---
 src/csc/std_ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csc/std_ops.rs b/src/csc/std_ops.rs
index a95e0fc..bb0f733 100644
--- a/src/csc/std_ops.rs
+++ b/src/csc/std_ops.rs
@@ -62,7 +62,7 @@ fn sub<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
         &mut values,
     );
 
-    CSC::new(self.rows(), self.cols(), colptr, rowidx, values).unwrap()
+    CSC::new(self.rows(), self.cols(), rowidx, colptr, values).unwrap()
 }
 
 #[opimps::impl_ops(Mul)]
-- 
2.43.0


From d1067f68dfa585637d9899c1f67a0c6afd83c5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:22 +0000
Subject: [PATCH 05/20] fix: CSR/CSC results kept unused space behind the last
 entry, which conversions took for entries

---
 src/csc/csc.rs | 6 ++++--
 src/csr/csr.rs | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/csc/csc.rs b/src/csc/csc.rs
index a39232d..8e3809f 100644
--- a/src/csc/csc.rs
+++ b/src/csc/csc.rs
@@ -25,9 +25,9 @@ impl<I: Integer, T: Scalar> CSC<I, T> {
     pub fn new(
         rows: usize,
         cols: usize,
-        rowidx: Vec<I>,
+        mut rowidx: Vec<I>,
         colptr: Vec<I>,
-        values: Vec<T>,
+        mut values: Vec<T>,
     ) -> Result<Self> {
         if colptr.len() != cols + 1 {
             return Err(format_err!("colptr has invalid length"));
@@ -39,6 +39,8 @@ impl<I: Integer, T: Scalar> CSC<I, T> {
         if values.len() < nnz {
             return Err(format_err!("values array has fewer than nnz elements"));
         }
+        rowidx.truncate(nnz);
+        values.truncate(nnz);
         Ok(Self {
             rows,
             cols,
diff --git a/src/csr/csr.rs b/src/csr/csr.rs
index 17305f6..a6c90b0 100644
--- a/src/csr/csr.rs
+++ b/src/csr/csr.rs
@@ -28,8 +28,8 @@ impl<I: Integer, T: Scalar> CSR<I, T> {
         rows: usize,
         cols: usize,
         rowptr: Vec<I>,
-        colidx: Vec<I>,
-        values: Vec<T>,
+        mut colidx: Vec<I>,
+        mut values: Vec<T>,
     ) -> Result<Self> {
         if rowptr.len() != rows + 1 {
             return Err(format_err!("rowptr has invalid length"));
@@ -41,6 +41,8 @@ impl<I: Integer, T: Scalar> CSR<I, T> {
         if values.len() < nnz {
             return Err(format_err!("values array has fewer than nnz elements"));
         }
+        colidx.truncate(nnz);
+        values.truncate(nnz);
         Ok(CSR {
             rows,
             cols,
-- 
2.43.0


From 29369c068692ef28e6d09ea83212f316d8fe198a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:55 +0000
Subject: [PATCH 06/20] fix: CSC scalar multiplication passed index and pointer
 arrays in the wrong order

---
 src/csc/std_ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csc/std_ops.rs b/src/csc/std_ops.rs
index bb0f733..fae82bc 100644
--- a/src/csc/std_ops.rs
+++ b/src/csc/std_ops.rs
@@ -80,8 +80,8 @@ fn mul<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: T) -> CSC<I, T> {
     CSC::new(
         self.rows(),
         self.cols(),
-        self.colptr().to_vec(),
         self.rowidx().to_vec(),
+        self.colptr().to_vec(),
         self.values().iter().map(|&v| v * rhs).collect::<Vec<T>>(),
     )
     .unwrap()
@@ -91,8 +91,8 @@ fn mul<I: Integer>(self: Complex64, rhs: CSC<I, Complex64>) -> CSC<I, Complex64>
     CSC::new(
         rhs.rows(),
         rhs.cols(),
-        rhs.colptr().to_vec(),
         rhs.rowidx().to_vec(),
+        rhs.colptr().to_vec(),
         rhs.values()
             .iter()
             .map(|&v| self * v)
-- 
2.43.0


From dafa0dd10f0240884f5d2903cadf913cf3aac86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:47 +0000
Subject: [PATCH 07/20] fix: csr_row_slice overflowed on a step reaching past
 the largest usize

---
 src/row.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/row.rs b/src/row.rs
index 8220fa2..d485624 100644
--- a/src/row.rs
+++ b/src/row.rs
@@ -1452,7 +1452,7 @@ pub fn csr_row_slice<I: Integer, T: Scalar>(
             // Bx = copy(Ax + row_start, Ax + row_end, Bx);
             b_x.extend_from_slice(&a_x[row_start..row_end]);
 
-            row += step;
+            row = row.saturating_add(step);
         }
     } else {
         let mut row = start;
-- 
2.43.0


From 0d97af99e3d415eb0f1cafd975c7a152247ff610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:59 +0000
Subject: [PATCH 08/20] fix: csr_diagonal and csc_diagonal underflowed when the
 diagonal lies outside the matrix

---
 src/col.rs | 2 +-
 src/row.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/col.rs b/src/col.rs
index ba90853..933a608 100644
--- a/src/col.rs
+++ b/src/col.rs
@@ -101,7 +101,7 @@ pub fn csc_diagonal<I: Integer, T: Scalar>(
     a_x: &[T],
     y_x: &mut [T],
 ) {
-    csr_diagonal(-k, n_col, n_row, a_p, a_j, a_x, y_x);
+    csr_diagonal(k.saturating_neg(), n_col, n_row, a_p, a_j, a_x, y_x);
 }
 
 pub fn csc_tocsr<I: Integer, T: Scalar>(
diff --git a/src/row.rs b/src/row.rs
index d485624..69a21c7 100644
--- a/src/row.rs
+++ b/src/row.rs
@@ -36,9 +36,9 @@ pub fn csr_diagonal<I: Integer, T: Scalar>(
     a_x: &[T],
     y_x: &mut [T],
 ) {
-    let first_row: usize = if k >= 0 { 0 } else { (-1 * k) as usize };
+    let first_row: usize = if k >= 0 { 0 } else { k.unsigned_abs() };
     let first_col: usize = if k >= 0 { k as usize } else { 0 };
-    let n: usize = min(n_row - first_row, n_col - first_col);
+    let n: usize = min(n_row.saturating_sub(first_row), n_col.saturating_sub(first_col));
 
     for i in 0..n {
         let row: usize = first_row + i;
-- 
2.43.0


From 544218d76f3f10b01e09ac9ad5a6184b22f8d43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:29 +0000
Subject: [PATCH 09/20] fix: csr_count_diagonals underflowed on entries below
 the main diagonal

---
 src/row.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/row.rs b/src/row.rs
index 69a21c7..6572bd2 100644
--- a/src/row.rs
+++ b/src/row.rs
@@ -1575,14 +1575,14 @@ pub fn csr_column_index2<I: Integer, T: Scalar>(
 ///   I  Ai[nnz(A)]      - row indices
 ///   I  Aj[nnz(A)]      - column indices
 pub fn csr_count_diagonals<I: Integer>(n_row: usize, a_p: &[I], a_j: &[I]) -> usize {
-    let mut diagonals = HashSet::<usize>::new();
+    let mut diagonals = HashSet::<isize>::new();
 
     for i in 0..n_row {
         let start = a_p[i].to_usize().unwrap();
         let end = a_p[i + 1].to_usize().unwrap();
 
         for jj in start..end {
-            diagonals.insert(a_j[jj].to_usize().unwrap() - i);
+            diagonals.insert(a_j[jj].to_isize().unwrap() - i as isize);
         }
     }
     diagonals.len()
-- 
2.43.0


From 2a703c8f590e5142ab0ce2c9efd8560e408f1931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:04 +0000
Subject: [PATCH 10/20] fix: compose and compose3 accepted blocks whose widths
 differ between block rows

---
 src/coo/coo.rs | 6 ++++++
 src/csc/csc.rs | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/src/coo/coo.rs b/src/coo/coo.rs
index feff9bb..a155cc5 100644
--- a/src/coo/coo.rs
+++ b/src/coo/coo.rs
@@ -531,6 +531,9 @@ impl<I: Integer, T: Scalar> Coo<I, T> {
     ///
     /// An error is returned if the matrix dimensions do not match correctly.
     pub fn compose(j: [[&Coo<I, T>; 2]; 2]) -> Result<Coo<I, T>> {
+        if (0..2).any(|c| j[1][c].cols != j[0][c].cols) {
+            return Err(format_err!("cols mismatch between block rows"));
+        }
         let j1x = Coo::h_stack(j[0][0], j[0][1])?;
         let j2x = Coo::h_stack(j[1][0], j[1][1])?;
         Coo::v_stack(&j1x, &j2x)
@@ -550,6 +553,9 @@ impl<I: Integer, T: Scalar> Coo<I, T> {
     ///
     /// An error is returned if the matrix dimensions do not match correctly.
     pub fn compose3(j: [[&Coo<I, T>; 3]; 3]) -> Result<Coo<I, T>> {
+        if (0..3).any(|c| j[1][c].cols != j[0][c].cols || j[2][c].cols != j[0][c].cols) {
+            return Err(format_err!("cols mismatch between block rows"));
+        }
         let j1x = Coo::h_stack3(j[0][0], j[0][1], j[0][2])?;
         let j2x = Coo::h_stack3(j[1][0], j[1][1], j[1][2])?;
         let j3x = Coo::h_stack3(j[2][0], j[2][1], j[2][2])?;
diff --git a/src/csc/csc.rs b/src/csc/csc.rs
index 8e3809f..1424707 100644
--- a/src/csc/csc.rs
+++ b/src/csc/csc.rs
@@ -565,6 +565,9 @@ impl<I: Integer, T: Scalar> CSC<I, T> {
         j21: &CSC<I, T>,
         j22: &CSC<I, T>,
     ) -> Result<Self> {
+        if j21.cols != j11.cols || j22.cols != j12.cols {
+            return Err(format_err!("cols mismatch between block rows"));
+        }
         let j11coo = j11.to_coo();
         let j12coo = j12.to_coo();
         let j21coo = j21.to_coo();
-- 
2.43.0


From 74e90106781ddb52c4bc0c9c0c84fd626a18582b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:37 +0000
Subject: [PATCH 11/20] fix: DoK::sub outside the shape underflowed for
 unsigned values instead of returning an error

---
 src/dok/dok.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dok/dok.rs b/src/dok/dok.rs
index 601130e..8f76461 100644
--- a/src/dok/dok.rs
+++ b/src/dok/dok.rs
@@ -69,13 +69,18 @@ impl<I: Integer + Hash, T: Scalar> DoK<I, T> {
         }
     }
 
-    pub fn set(&mut self, i: I, j: I, v: T) -> Result<()> {
+    fn check_range(&self, i: I, j: I) -> Result<()> {
         if i < I::zero() || i >= I::from(self.rows).unwrap() {
             return Err(format_err!("row index {} out of range {}", i, self.rows));
         }
         if j < I::zero() || j >= I::from(self.cols).unwrap() {
             return Err(format_err!("col index {} out of range {}", j, self.cols));
         }
+        Ok(())
+    }
+
+    pub fn set(&mut self, i: I, j: I, v: T) -> Result<()> {
+        self.check_range(i, j)?;
         if v == T::zero() {
             self.values.remove(&(i, j));
         } else {
@@ -89,6 +94,7 @@ impl<I: Integer + Hash, T: Scalar> DoK<I, T> {
     }
 
     pub fn sub(&mut self, i: I, j: I, v: T) -> Result<()> {
+        self.check_range(i, j)?; // before an unsigned value could underflow
         self.set(i, j, self.get(i, j) - v)
     }
 
-- 
2.43.0


From d98ecac5553f36eb2ba5199ee7c222fe5f5726e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:20 +0000
Subject: [PATCH 12/20] fix: strong components panicked or looped on duplicate
 edges

---
 src/graph.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph.rs b/src/graph.rs
index 12fb4ca..9862bf9 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -184,7 +184,8 @@ fn connected_components_directed<I: Integer>(
                     // Add successor nodes
                     for j in indptr[v].to_usize().unwrap()..indptr[v + 1].to_usize().unwrap() {
                         let w = indices[j].to_usize().unwrap();
-                        if lowlinks![labels][w] == Node::Void {
+                        // A repeated edge may find w on top of the stack already.
+                        if lowlinks![labels][w] == Node::Void && stack_head != Node::Label(w) {
                             // TODO: get_unchecked
                             // DFS-stack push
                             if stack_f![ss][w] != Node::Void {
-- 
2.43.0


From a64514ec6bdb49099f9a078b2e8346a5367b3696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:20 +0000
Subject: [PATCH 13/20] fix: strong components underflowed on a graph without
 nodes

---
 src/graph.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph.rs b/src/graph.rs
index 9862bf9..991cee3 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -154,6 +154,9 @@ fn connected_components_directed<I: Integer>(
     indices: &[I],
     indptr: &[I],
 ) -> (usize, Vec<usize>) {
+    if n == 0 {
+        return (0, vec![]);
+    }
     let mut labels = vec![Node::Void; n];
 
     // The stack of nodes which have been backtracked and are in the current SCC
-- 
2.43.0


From c6ab9769b4db94e64c309181ea901b9a3eb09445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:20 +0000
Subject: [PATCH 14/20] fix: cs_graph_components reported a graph without edges
 as corrupted

---
 src/graph.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/graph.rs b/src/graph.rs
index 991cee3..b444358 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -361,6 +361,10 @@ pub fn cs_graph_components<I: Integer, T: Scalar, F: Integer + num_traits::Signe
         }
     }
 
+    if n_stop == 0 {
+        return Ok(n_comp); // every row is empty
+    }
+
     let mut n_tot = 0;
     for icomp in 0..n_nod {
         // Find seed.
-- 
2.43.0


From 1a75bd0de15d2fa09e4abc9ffa717ec7372ece16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:06 +0000
Subject: [PATCH 15/20] fix: CSR/CSC addition and subtraction operators
 accepted operands of different shape

---
 src/csc/std_ops.rs | 6 ++++++
 src/csr/std_ops.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/csc/std_ops.rs b/src/csc/std_ops.rs
index fae82bc..543d110 100644
--- a/src/csc/std_ops.rs
+++ b/src/csc/std_ops.rs
@@ -19,6 +19,9 @@ fn neg<I: Integer, T: Scalar + Neg<Output = T>>(self: CSC<I, T>) -> CSC<I, T> {
 
 #[opimps::impl_ops(Add)]
 fn add<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
+    assert_eq!(self.rows(), rhs.rows());
+    assert_eq!(self.cols(), rhs.cols());
+
     let nnz = self.nnz() + rhs.nnz();
     let mut colptr = vec![I::zero(); self.cols() + 1];
     let mut rowidx = vec![I::zero(); nnz];
@@ -43,6 +46,9 @@ fn add<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
 
 #[opimps::impl_ops(Sub)]
 fn sub<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
+    assert_eq!(self.rows(), rhs.rows());
+    assert_eq!(self.cols(), rhs.cols());
+
     let nnz = self.nnz() + rhs.nnz();
     let mut colptr = vec![I::zero(); self.cols() + 1];
     let mut rowidx = vec![I::zero(); nnz];
diff --git a/src/csr/std_ops.rs b/src/csr/std_ops.rs
index f64f10a..040d24a 100644
--- a/src/csr/std_ops.rs
+++ b/src/csr/std_ops.rs
@@ -18,6 +18,9 @@ fn neg<I: Integer, T: Scalar + Neg<Output = T>>(self: CSR<I, T>) -> CSR<I, T> {
 
 #[opimps::impl_ops(Add)]
 fn add<I: Integer, T: Scalar>(self: CSR<I, T>, rhs: CSR<I, T>) -> CSR<I, T> {
+    assert_eq!(self.rows(), rhs.rows());
+    assert_eq!(self.cols(), rhs.cols());
+
     let nnz = self.nnz() + rhs.nnz();
     let mut rowptr = vec![I::zero(); self.rows() + 1];
     let mut colidx = vec![I::zero(); nnz];
@@ -42,6 +45,9 @@ fn add<I: Integer, T: Scalar>(self: CSR<I, T>, rhs: CSR<I, T>) -> CSR<I, T> {
 
 #[opimps::impl_ops(Sub)]
 fn sub<I: Integer, T: Scalar>(self: CSR<I, T>, rhs: CSR<I, T>) -> CSR<I, T> {
+    assert_eq!(self.rows(), rhs.rows());
+    assert_eq!(self.cols(), rhs.cols());
+
     let nnz = self.nnz() + rhs.nnz();
     let mut rowptr = vec![I::zero(); self.rows() + 1];
     let mut colidx = vec![I::zero(); nnz];
-- 
2.43.0


From b0932fe4d60f6eef8d70d4ef986eee2bd20e9832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:36 +0000
Subject: [PATCH 16/20] fix: complex pretty_string printed a negative imaginary
 part with two signs

---
 src/traits.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/traits.rs b/src/traits.rs
index 8b4d5ab..8bd2b15 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -108,7 +108,7 @@ impl Scalar for num_complex::Complex<f64> {
             "{}{}j{}",
             dtoa(self.re, config.unwrap_or(DEFAULT_FLOAT_CONFIG)),
             if self.im.signum() < 0.0 { "-" } else { "+" },
-            dtoa(self.im, config.unwrap_or(DEFAULT_FLOAT_CONFIG))
+            dtoa(self.im.abs(), config.unwrap_or(DEFAULT_FLOAT_CONFIG))
         )
         .to_string()
     }
@@ -119,7 +119,7 @@ impl Scalar for num_complex::Complex<f32> {
             "{}{}j{}",
             dtoa(self.re as f64, config.unwrap_or(DEFAULT_FLOAT_CONFIG)),
             if self.im.signum() < 0.0 { "-" } else { "+" },
-            dtoa(self.im as f64, config.unwrap_or(DEFAULT_FLOAT_CONFIG))
+            dtoa(self.im.abs() as f64, config.unwrap_or(DEFAULT_FLOAT_CONFIG))
         )
         .to_string()
     }
-- 
2.43.0


From e7618d8885f4ecac5f10d6f3986a9f1d39400390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:19 +0000
Subject: [PATCH 17/20] fix: CSR::get returned only the first of duplicate
 entries

---
 src/csr/csr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/csr/csr.rs b/src/csr/csr.rs
index a6c90b0..e58aa63 100644
--- a/src/csr/csr.rs
+++ b/src/csr/csr.rs
@@ -497,13 +497,15 @@ impl<I: Integer, T: Scalar> CSR<I, T> {
         let start = self.rowptr[i].to_usize().unwrap();
         let end = self.rowptr[i + 1].to_usize().unwrap();
 
+        let mut v = T::zero(); // If not found, the element is zero.
+
         // Iterate over the column indices of row k.
         for k in start..end {
             if self.colidx[k].to_usize().unwrap() == j {
-                return self.values[k]; // Found the element at (i, j).
+                v += self.values[k]; // Duplicate entries are summed.
             }
         }
 
-        T::zero() // If not found, the element is zero.
+        v
     }
 }
-- 
2.43.0


From 18679ce1529c78accc6b4608e645a7a1104cb07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:19 +0000
Subject: [PATCH 18/20] fix: Coo::upper overflowed when row + k exceeds the
 index type

---
 src/coo/coo.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coo/coo.rs b/src/coo/coo.rs
index a155cc5..1275b2c 100644
--- a/src/coo/coo.rs
+++ b/src/coo/coo.rs
@@ -341,7 +341,8 @@ impl<I: Integer, T: Scalar> Coo<I, T> {
         let mut values = Vec::with_capacity(c);
 
         for i in 0..self.nnz() {
-            if self.rowidx[i] + k <= self.colidx[i] {
+            // A sum beyond the index type lies beyond every column.
+            if matches!(self.rowidx[i].checked_add(&k), Some(c) if c <= self.colidx[i]) {
                 rowidx.push(self.rowidx[i]);
                 colidx.push(self.colidx[i]);
                 values.push(self.values[i]);
-- 
2.43.0


From 7d09704cf0d026bc1795c251903f1a21dbb5691e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:11 +0000
Subject: [PATCH 19/20] fix: eigs never iterated and returned garbled
 eigenvalues and vectors

---
 src/eigen/real.rs | 82 ++++++++++++++++++++++-------------------------
 1 file changed, 39 insertions(+), 43 deletions(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index db66f1c..1598105 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -19,6 +19,9 @@ const WHICH_LARGEST_MAGNITUDE: &str = "LM";
 // First call to the reverse communication interface
 const IDO_FIRST: i32 = 0;
 
+// Compute  Y = OP * X  to force the starting vector into the range of OP.
+const IDO_COMPUTE0: i32 = -1;
+
 // Compute  Y = OP * X  where
 // IPNTR(1) is the pointer into WORKD for X,
 // IPNTR(2) is the pointer into WORKD for Y.
@@ -40,8 +43,8 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
     }
     let n = a_mat.rows();
 
-    if nev >= n - 1 {
-        return Err(format_err!("invalid nev: {} (0 < nev < {})", nev, n - 1));
+    if nev == 0 || nev + 1 >= n {
+        return Err(format_err!("invalid nev: {} (0 < nev < {} - 1)", nev, n));
     }
     let bmat = BMAT_STANDARD;
     let ncv = usize::min(n, 2 * nev + 1);
@@ -73,8 +76,10 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
 
     let mut ipntr = vec![0i32; 14];
 
+    // ARPACK keeps the state of the iteration between calls in static variables.
+    let lock = MUTEX.lock().unwrap();
+
     unsafe {
-        let lock = MUTEX.lock().unwrap();
         dnaupd_c(
             &mut ido,
             bmat.as_ptr() as *const i8,
@@ -93,15 +98,13 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
             lworkl as i32,
             &mut info,
         );
-        drop(lock);
     }
 
-    while ido == IDO_COMPUTE1 {
+    while ido == IDO_COMPUTE0 || ido == IDO_COMPUTE1 {
         let y = a_mat.mat_vec(&workd[ipntr[0] as usize - 1..ipntr[0] as usize - 1 + n])?;
-        workd[ipntr[1] as usize - 1..].copy_from_slice(&y);
+        workd[ipntr[1] as usize - 1..ipntr[1] as usize - 1 + n].copy_from_slice(&y);
 
         unsafe {
-            let lock = MUTEX.lock().unwrap();
             dnaupd_c(
                 &mut ido,
                 bmat.as_ptr() as *const i8,
@@ -120,7 +123,6 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
                 lworkl as i32,
                 &mut info,
             );
-            drop(lock);
         }
     }
     if info < 0 {
@@ -134,11 +136,10 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
     let mut dr = vec![0.0; nev + 1];
     let mut di = vec![0.0; nev + 1];
     let mut z = vec![0.0; n * (nev + 1)];
-    let ldz = n + 1;
-    let mut workev = vec![0.0; 2 * ncv];
+    let ldz = n;
+    let mut workev = vec![0.0; 3 * ncv];
 
     unsafe {
-        let lock = MUTEX.lock().unwrap();
         dneupd_c(
             rvec as i32,
             howmny.as_ptr() as *const i8,
@@ -166,31 +167,36 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
             lworkl as i32,
             &mut info,
         );
-        drop(lock);
     }
+    drop(lock);
     if info != 0 {
         // return ArpackError(info);
         return Err(format_err!("info = {}", info));
     }
 
-    let mut nconv = iparam[4] as usize;
+    let mut nconv = usize::min(iparam[4] as usize, nev + 1);
+
+    // A final eigenvalue with a complex part but no accompanying conjugate is discarded.
+    let mut k = 0;
+    while k < nconv {
+        k += if di[k] == 0.0 { 1 } else { 2 };
+    }
+    if k > nconv {
+        nconv -= 1; // TODO: return error?
+    }
 
-    // let mut d = vec![Complex64::zero(); nev + 1];
-    // for i in 0..d.len() {
-    //     d[i] = Complex64::new(dr[i], di[i]);
-    // }
-    let mut d: Vec<Complex64> = (0..nev + 1).map(|i| Complex64::new(dr[i], dr[i])).collect();
+    let d: Vec<Complex64> = (0..nconv).map(|i| Complex64::new(dr[i], di[i])).collect();
 
-    let mut zz = Mat::<Complex64>::zeros(nev + 1, n, true);
+    let mut zz = Mat::<Complex64>::zeros(nconv, n, true);
 
     let mut i = 0;
-    while i < nev + 1 {
+    while i < nconv {
         if di[i].abs() == 0.0 {
             // zz[i] = make([]complex128, n)
             let j = i * n;
             let zr = &z[j..j + n];
             for j in 0..zz.cols() {
-                zz[(i, j)] = Complex64::new(zr[i], 0.0);
+                zz[(i, j)] = Complex64::new(zr[j], 0.0);
             }
         } else {
             // The complex Ritz vector associated with the Ritz value
@@ -200,32 +206,22 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
             // Ritz vector associated with the Ritz value with negative
             // imaginary part is simply the complex conjugate of the Ritz
             // vector associated with the positive imaginary part.
-            if i < nev {
-                let j = i * n;
-                let zr = &z[j..j + n];
-                let j = (i + 1) * n;
-                let zi = &z[j..j + n];
-
-                // zz[i] = make([]complex128, n)
-                // zz[i+1] = make([]complex128, n)
-                // for j := range zz[i] {
-                for j in 0..zz.cols() {
-                    zz[(i, j)] = Complex64::new(zr[j], zi[j]);
-                    zz[(i + 1, j)] = zz[(i, j)].conj();
-                }
-                i += 1;
-            } else {
-                // Discard final eigenvalue that has complex part
-                // but no accompanying conjugate.
-                nconv -= 1; // TODO: return error?
+            let j = i * n;
+            let zr = &z[j..j + n];
+            let j = (i + 1) * n;
+            let zi = &z[j..j + n];
+
+            // zz[i] = make([]complex128, n)
+            // zz[i+1] = make([]complex128, n)
+            // for j := range zz[i] {
+            for j in 0..zz.cols() {
+                zz[(i, j)] = Complex64::new(zr[j], zi[j]);
+                zz[(i + 1, j)] = zz[(i, j)].conj();
             }
+            i += 1;
         }
         i += 1;
     }
-    if nconv <= nev {
-        d = d[..nconv].to_vec();
-        // z = z[..nconv].to_vec();
-    }
 
     if info == 1 {
         // let iter = iparam[2];
-- 
2.43.0


From 1cbd5ad6343c5e10436561511da3d9a3bbc8682b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:34 +0000
Subject: [PATCH 20/20] fix: eigs used a Krylov basis too small to find the
 largest eigenvalues reliably

---
 src/eigen/real.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index 1598105..cd1aa54 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -47,7 +47,8 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
         return Err(format_err!("invalid nev: {} (0 < nev < {} - 1)", nev, n));
     }
     let bmat = BMAT_STANDARD;
-    let ncv = usize::min(n, 2 * nev + 1);
+    // A small basis makes the iteration miss eigenvalues or not converge.
+    let ncv = usize::min(n, usize::max(2 * nev + 1, 20));
     let maxiter = n * 10;
 
     let tol = 0.0;
-- 
2.43.0

