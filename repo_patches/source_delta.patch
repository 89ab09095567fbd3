From eeb9b17a326b459aa0ac5726092fa4813a884310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 01/41] fix: empty and identity CompressedRow matrices can be
 read

---
 src/matrix/sparse.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/matrix/sparse.rs b/src/matrix/sparse.rs
index 2c5cb61..7cbebee 100644
--- a/src/matrix/sparse.rs
+++ b/src/matrix/sparse.rs
@@ -691,10 +691,16 @@ impl MatrixLike for CompressedRow {
             nz_count: 0,
             data: vec![],
             col_indices: vec![],
-            row_starts: vec![],
+            row_starts: vec![0; shape.0],
         }
     }
 
+    fn eye<T: Into<MatrixShape>>(dim: T) -> Self {
+        // the provided method writes into zeros(), which has no entries to write to here
+        let n = dim.into().max_dim;
+        Self::from_labeled_vals((n, n), (0..n).map(|i| ((i, i), 1.0)).collect())
+    }
+
     fn from_flat<T: Into<MatrixShape>, U: IntoIterator<Item = f64>>(shape: T, vals: U) -> Self {
         let shape: MatrixShape = shape.into();
         let shape = (shape.nrow, shape.ncol);
-- 
2.43.0


From ee6c6ea71e5d8229896f62ed768184bf5adc775a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 02/41] fix: transposing a non-square Dictionary swaps its
 shape

---
 src/matrix/sparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/sparse.rs b/src/matrix/sparse.rs
index 7cbebee..8c0a755 100644
--- a/src/matrix/sparse.rs
+++ b/src/matrix/sparse.rs
@@ -520,7 +520,7 @@ impl Dictionary {
 
     pub fn transposed(&self) -> Self {
         let mut res = Self {
-            shape: self.shape,
+            shape: (self.shape.1, self.shape.0),
             data: HashMap::new(),
         };
 
-- 
2.43.0


From c62dec05d757bd0f285816d31f267b6ab0d8c448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 03/41] fix: dense elimination pivots on magnitude and reports
 singular matrices

---
 src/matrix/inverse.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/matrix/inverse.rs b/src/matrix/inverse.rs
index 22f42b2..6afdf3c 100644
--- a/src/matrix/inverse.rs
+++ b/src/matrix/inverse.rs
@@ -36,17 +36,17 @@ where
 
         // triangularize the matrix
         for col in 0..dim {
-            // find the row with the greatest value in the current column
+            // find the row with the greatest magnitude in the current column
             // (after finished rows)
             let max = self
                 .col(col)
                 .enumerate()
                 .skip(col)
-                .max_by(|(_, &x), (_, y)| x.partial_cmp(y).unwrap());
-            if max == None {
-                return Err(MatrixError::solve("no non-zero values remain in column"));
-            }
-            let (max_idx, _) = max.unwrap();
+                .max_by(|(_, x), (_, y)| x.abs().partial_cmp(&y.abs()).unwrap());
+            let max_idx = match max {
+                Some((i, &x)) if x != 0.0 => i,
+                _ => return Err(MatrixError::solve("no non-zero values remain in column")),
+            };
 
             self.swap_rows(col, max_idx);
             b.swap_rows(col, max_idx);
-- 
2.43.0


From 7111755ef9cdfcc173e1c9977a6f899f8a29a703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 04/41] fix: envelope forward substitution ignores what the
 output buffer held

---
 src/matrix/sparse.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/matrix/sparse.rs b/src/matrix/sparse.rs
index 8c0a755..48f1ebc 100644
--- a/src/matrix/sparse.rs
+++ b/src/matrix/sparse.rs
@@ -241,13 +241,16 @@ impl LowerRowEnvelope {
         for i in 0..self.n {
             let (start_col, row_stored) = self.row_stored(i);
 
+            // the diagonal must stay out of the dot product, x[i] is not known yet
+            let (diag, row_stored) = row_stored.split_last().unwrap();
+
             let dot: f64 = row_stored
                 .iter()
                 .zip(start_col..)
                 .map(|(val, col)| val * x[col])
                 .sum();
 
-            x[i] = (b[i] - dot) / row_stored.last().unwrap();
+            x[i] = (b[i] - dot) / diag;
         }
     }
 
@@ -269,7 +272,8 @@ impl LowerRowEnvelope {
                 0
             };
 
-            let row_stored = &row_stored[offset..];
+            // the diagonal must stay out of the dot product, x[sub_i] is not known yet
+            let (diag, row_stored) = row_stored[offset..].split_last().unwrap();
             let start_col = start_col + offset;
 
             let sub_start_col = start_col - range.0;
@@ -279,7 +283,7 @@ impl LowerRowEnvelope {
                 .map(|(val, col)| val * x[col])
                 .sum();
 
-            x[sub_i] = (b[sub_i] - dot) / row_stored.last().unwrap();
+            x[sub_i] = (b[sub_i] - dot) / diag;
         }
     }
 
-- 
2.43.0


From 5875712f2da1b036187ab0e0428c979b497955bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:51 +0000
Subject: [PATCH 05/41] fix: relaxation converges on a zero right-hand side

---
 src/matrix/solve/iterative.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/matrix/solve/iterative.rs b/src/matrix/solve/iterative.rs
index 30cb4ac..91e1890 100644
--- a/src/matrix/solve/iterative.rs
+++ b/src/matrix/solve/iterative.rs
@@ -82,7 +82,8 @@ pub(super) fn gauss_seidel(
 
         u = new_u;
 
-        if diff_norm / u.frobenius() <= tol {
+        // (not as a quotient, the solution may be zero)
+        if diff_norm <= tol * u.frobenius() {
             // iterations have sufficiently converged
             eprintln!("converged in {} iterations", round);
             break;
-- 
2.43.0


From a86e65f3880a818e32514f5a140300ee1e5c827c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:55 +0000
Subject: [PATCH 06/41] fix: inverse of matrices whose leading entries vanish

---
 src/matrix/inverse.rs | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/matrix/inverse.rs b/src/matrix/inverse.rs
index 6afdf3c..5e90773 100644
--- a/src/matrix/inverse.rs
+++ b/src/matrix/inverse.rs
@@ -189,6 +189,38 @@ where
             return Self::from_flat((2, 2), vec![d, -1.0 * b, -1.0 * c, a]);
         }
 
-        self.inv_lu()
+        // the unpivoted LU factors may not exist, or be far from accurate, so order
+        // the rows by their pivots first
+        let n = self.shape().0;
+        let mut rows: Vec<usize> = (0..n).collect();
+        let mut work = self.clone();
+
+        for i in 0..n {
+            let max_i = (i..n)
+                .max_by(|&x, &y| work[(x, i)].abs().total_cmp(&work[(y, i)].abs()))
+                .unwrap();
+            work.swap_rows(i, max_i);
+            rows.swap(i, max_i);
+
+            for j in (i + 1)..n {
+                let scaling = work[(j, i)] / work[(i, i)];
+                for k in i..n {
+                    work[(j, k)] -= scaling * work[(i, k)];
+                }
+            }
+        }
+
+        let mut ordered = self.clone();
+        for (i, &r) in rows.iter().enumerate() {
+            ordered.set_row(i, self.row(r).cloned().collect());
+        }
+
+        // undo the row order in the columns of the inverse
+        let ordered_inv = ordered.inv_lu();
+        let mut res = ordered_inv.clone();
+        for (i, &r) in rows.iter().enumerate() {
+            res.set_col(r, ordered_inv.col(i).cloned().collect());
+        }
+        res
     }
 }
-- 
2.43.0


From e742f11da8f1bcd96c06f61a8c0ab480921bdaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 07/41] fix: graphs keep their trailing isolated vertices

---
 src/matrix/graph.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/matrix/graph.rs b/src/matrix/graph.rs
index ca69884..f7c7a65 100644
--- a/src/matrix/graph.rs
+++ b/src/matrix/graph.rs
@@ -76,6 +76,9 @@ impl Graph {
             res.adjacent.push(y);
         }
 
+        // fill out any trailing isolated vertices
+        res.indices.resize(v_count, res.adjacent.len());
+
         res
     }
 
-- 
2.43.0


From 99da16c38ffdadbcc778a10373c6b3dc8b796679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:29 +0000
Subject: [PATCH 08/41] fix: reverse Cuthill-McKee ordering of disconnected
 graphs

---
 src/matrix/graph.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/matrix/graph.rs b/src/matrix/graph.rs
index f7c7a65..00be916 100644
--- a/src/matrix/graph.rs
+++ b/src/matrix/graph.rs
@@ -189,10 +189,15 @@ impl Graph {
     }
 
     pub fn pseudo_peripheral(&mut self) -> usize {
+        // choose an arbitrary starting node
+        self.pseudo_peripheral_from(0)
+    }
+
+    fn pseudo_peripheral_from(&mut self, start: usize) -> usize {
         // identify a pseudoperipheral node of the graph by George and Liu's method
+        // (of the connected component containing start)
 
-        // choose an arbitrary starting node
-        let mut x = 0;
+        let mut x = start;
         let mut longest = 0;
 
         loop {
@@ -211,12 +216,17 @@ impl Graph {
         // find the reverse cuthill mckee labelling of the graph's nodes
 
         let mut ordering = Vec::new();
-        ordering.push(self.pseudo_peripheral());
-
         let mut mask = vec![true; self.vertex_count()];
-        mask[ordering[0]] = false;
 
         for i in 0..self.vertex_count() {
+            if i == ordering.len() {
+                // move on to the next connected component
+                let start = mask.iter().position(|&m| m).unwrap();
+                let root = self.pseudo_peripheral_from(start);
+                mask[root] = false;
+                ordering.push(root);
+            }
+
             let adj = self.adjacent_masked(ordering[i], &mask);
 
             for a in adj {
-- 
2.43.0


From 517df0dfb56b89a475c6e3196f1b01507f59fca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:09 +0000
Subject: [PATCH 09/41] fix: repeated and close eigenvalues are separated or
 found as clusters

---
 src/matrix/solve/eigen.rs | 90 ++++++++++++++++++++++++++++++++-------
 1 file changed, 74 insertions(+), 16 deletions(-)

diff --git a/src/matrix/solve/eigen.rs b/src/matrix/solve/eigen.rs
index e3a7903..1521b51 100644
--- a/src/matrix/solve/eigen.rs
+++ b/src/matrix/solve/eigen.rs
@@ -2,6 +2,12 @@ use crate::matrix::graph::Permutation;
 use crate::matrix::solve::{direct, System};
 use crate::matrix::{dot, BiEnvelope, LinearMatrix, LowerRowEnvelope, MatrixLike};
 
+// relative width of the range inverse iteration starts from
+const REFINED_WIDTH: f64 = 1e-2;
+
+// relative width under which the eigenvalues in a range are not separated further
+const CLUSTER_WIDTH: f64 = 1e-6;
+
 // a range known to contain an eigenvalue
 // stores the number of eigenvalues under this one (same as val index)
 #[derive(Clone, Copy, Debug)]
@@ -20,6 +26,14 @@ impl OneEigenRange {
     fn mid_val(&self) -> f64 {
         (self.lower + self.upper) / 2.0
     }
+
+    fn width(&self) -> f64 {
+        self.upper - self.lower
+    }
+
+    fn contains(&self, val: f64) -> bool {
+        self.lower <= val && val <= self.upper
+    }
 }
 
 #[derive(Clone, Copy, Debug)]
@@ -51,6 +65,10 @@ impl ManyEigenRange {
         (self.lower + self.upper) / 2.0
     }
 
+    fn width(&self) -> f64 {
+        self.upper - self.lower
+    }
+
     fn split(self, n: usize) -> (EigenRange, EigenRange) {
         // split at the midpoint, with n eigenvalues (total) below the split
         use EigenRange::{Empty, Many, One};
@@ -194,30 +212,67 @@ impl DeterminantSearcher {
         d.num_neg()
     }
 
-    fn process_one(&mut self, r: OneEigenRange) {
+    fn refine_one(&self, r: OneEigenRange) -> OneEigenRange {
+        // halve a range holding one eigenvalue
+        let mid_val = r.mid_val();
+        let below_lower = self.eigenvalues_under(r.lower);
+
+        if self.eigenvalues_under(mid_val) > below_lower {
+            OneEigenRange::new(r.lower, mid_val)
+        } else {
+            OneEigenRange::new(mid_val, r.upper)
+        }
+    }
+
+    fn process_one(&mut self, mut r: OneEigenRange) {
         // refine an eigenrange, then send it to inverse iteration and store the result
-        // TODO improve this procedure - might need to improve guess first
 
+        // a narrow range makes the iteration converge to the eigenvalue inside it
+        while r.width() > REFINED_WIDTH * r.upper {
+            r = self.refine_one(r);
+        }
+
+        let pair = loop {
+            let pair = self.iterate_at(r.mid_val(), 6);
+
+            // the iteration can still settle on a neighbor outside the range
+            if r.contains(pair.value()) || r.width() <= CLUSTER_WIDTH * r.upper {
+                break pair;
+            }
+
+            r = self.refine_one(r);
+        };
+
+        self.eigenpairs.push(pair);
+
+        // process_eigenrange's order should ensure eigenpairs ends up sorted by value
+    }
+
+    fn process_cluster(&mut self, r: ManyEigenRange) {
+        // find the eigenpairs of a range too narrow to separate them (repeated eigenvalues)
+        let count = r.next_i - r.low_i;
+        let first = self.eigenpairs.len();
+
+        for i in 0..count {
+            let pair = self.iterate_at(r.mid_val(), 6 + i);
+            self.eigenpairs.push(pair);
+        }
+
+        self.eigenpairs[first..].sort_by(|a, b| a.value.total_cmp(&b.value));
+    }
+
+    fn iterate_at(&self, shift: f64, deflate: usize) -> EigenPair {
         // choose slice of pairs for gram-schmidt orthogonalization
         let gso = if self.eigenpairs.len() == 0 {
             None
         } else {
-            // pick the last six eigens found
-            let lower_idx = if self.eigenpairs.len() < 6 {
-                0
-            } else {
-                self.eigenpairs.len() - 6
-            };
+            // pick the last eigens found
+            let lower_idx = self.eigenpairs.len().saturating_sub(deflate);
 
             Some(&self.eigenpairs[lower_idx..])
         };
 
-        // accept the middle of the resulting range for inverse iteration
-        let pair = inverse_iterate(&self.sys.k_mat, &self.sys.m_mat, r.mid_val(), gso);
-
-        self.eigenpairs.push(pair);
-
-        // process_eigenrange's order should ensure eigenpairs ends up sorted by value
+        inverse_iterate(&self.sys.k_mat, &self.sys.m_mat, shift, gso)
     }
 
     fn process_eigenrange(&mut self, r: EigenRange) {
@@ -225,6 +280,9 @@ impl DeterminantSearcher {
             EigenRange::One(r) => {
                 self.process_one(r);
             }
+            EigenRange::Many(r) if r.width() <= CLUSTER_WIDTH * r.upper => {
+                self.process_cluster(r);
+            }
             EigenRange::Many(r) => {
                 let under = self.eigenvalues_under(r.mid_val());
                 let (rl, ru) = r.split(under);
@@ -338,8 +396,8 @@ fn inverse_iterate(
 
     let mut old_rho: Option<f64> = None;
 
-    // generate a random starting vector
-    let rng = fastrand::Rng::with_seed(1337);
+    // generate a random starting vector, differing between the vectors of an eigenspace
+    let rng = fastrand::Rng::with_seed(1337 + eigs.map_or(0, |e| e.len() as u64));
     let mut x: Vec<_> = std::iter::repeat_with(|| rng.f64()).take(n).collect();
 
     let mut x_bar = vec![0.0; n];
-- 
2.43.0


From 6590e6531a0731ad150ed546590cd6d7991ca659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:50 +0000
Subject: [PATCH 10/41] fix: dense and relaxation solvers answer reordered
 systems in the original order

---
 src/matrix/solve/direct.rs    | 14 +++++++++++---
 src/matrix/solve/iterative.rs | 14 ++++++++++++--
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/matrix/solve/direct.rs b/src/matrix/solve/direct.rs
index b607e5b..8b490f5 100644
--- a/src/matrix/solve/direct.rs
+++ b/src/matrix/solve/direct.rs
@@ -9,12 +9,13 @@ use super::{Solver, System};
 pub struct DenseGaussSolver {
     k: LinearMatrix,
     r: LinearMatrix,
+    perm: Option<Permutation>,
 }
 
 impl Solver for DenseGaussSolver {
     fn new(sys: System) -> Self {
-        let (k, r, _) = sys.into_krp();
-        Self { k, r }
+        let (k, r, perm) = sys.into_krp();
+        Self { k, r, perm }
     }
 
     fn solve(mut self) -> Result<Vec<f64>, ()> {
@@ -22,7 +23,14 @@ impl Solver for DenseGaussSolver {
         let res = self.k.solve_gausselim(self.r).map_err(|_| ())?;
         eprintln!("dense gauss solution complete");
 
-        Ok(res.flat().cloned().collect())
+        let mut x: Vec<f64> = res.flat().cloned().collect();
+
+        // return to the original ordering if the system was reordered
+        if let Some(perm) = self.perm {
+            perm.permute_slice(&mut x);
+        }
+
+        Ok(x)
     }
 }
 
diff --git a/src/matrix/solve/iterative.rs b/src/matrix/solve/iterative.rs
index 91e1890..0b46e38 100644
--- a/src/matrix/solve/iterative.rs
+++ b/src/matrix/solve/iterative.rs
@@ -1,4 +1,5 @@
 use super::{Solver, System};
+use crate::matrix::graph::Permutation;
 use crate::matrix::{CompressedRow, LinearMatrix, MatrixLike, Norm};
 
 #[derive(Clone, Debug)]
@@ -7,11 +8,12 @@ pub struct GaussSeidelSolver {
     max_iter: usize,
     k: CompressedRow,
     r: LinearMatrix,
+    perm: Option<Permutation>,
 }
 
 impl Solver for GaussSeidelSolver {
     fn new(sys: System) -> Self {
-        let (k, r, _) = sys.into_krp();
+        let (k, r, perm) = sys.into_krp();
 
         Self {
             // TODO add interface for tol, max_iter specification
@@ -20,6 +22,7 @@ impl Solver for GaussSeidelSolver {
 
             k,
             r,
+            perm,
         }
     }
 
@@ -29,7 +32,14 @@ impl Solver for GaussSeidelSolver {
 
         // TODO pass informative errors up, remove gauss_seidel panics
         eprintln!("iteration converged, gauss-seidel solution complete");
-        Ok(res.flat().cloned().collect())
+        let mut x: Vec<f64> = res.flat().cloned().collect();
+
+        // return to the original ordering if the system was reordered
+        if let Some(perm) = self.perm {
+            perm.permute_slice(&mut x);
+        }
+
+        Ok(x)
     }
 }
 
-- 
2.43.0


From d456d9f3832fba162b23dc931089e2cce6cceb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 11/41] fix: element stiffness does not depend on the
 orientation of the node list

---
 src/element/element.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/element/element.rs b/src/element/element.rs
index 06ab84c..d000912 100644
--- a/src/element/element.rs
+++ b/src/element/element.rs
@@ -214,7 +214,7 @@ impl Element {
             // the integrand for K is thickness * (det J) * B_t * C * B
             mats.b.transpose(); // transpose in place is cheap
             let mut inter: LinearMatrix = mats.b.mul(&c);
-            inter *= mats.det_j;
+            inter *= mats.det_j.abs(); // nodes may be listed in either direction
             inter *= mats.thickness;
             mats.b.transpose();
 
-- 
2.43.0


From 6cc5aab9da00977a937434e6537c6b258dfda1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:37 +0000
Subject: [PATCH 12/41] fix: element mass is proportional to the element's area

---
 src/element/element.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/element/element.rs b/src/element/element.rs
index d000912..a4c740f 100644
--- a/src/element/element.rs
+++ b/src/element/element.rs
@@ -231,11 +231,11 @@ impl Element {
         let integrand = |nat_coor| {
             let mats = self.get_isopar_mats(NaturalCoor(nat_coor));
 
-            // integrand is rho * scaling * H_t * H
+            // integrand is rho * scaling * (det J) * H_t * H
             let h = mats.h;
             let mut ht = h.clone();
             ht.transpose();
-            ht *= self.material().density * mats.thickness;
+            ht *= self.material().density * mats.thickness * mats.det_j.abs();
 
             ht.mul(&h)
         };
-- 
2.43.0


From 8242b64e17c4e53fbe1a13f2f9c895350e50203e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:42 +0000
Subject: [PATCH 13/41] fix: loads meeting at a node add up and shared edges
 are loaded once

---
 src/element/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/element/mod.rs b/src/element/mod.rs
index 2f8b276..bb9c2ab 100644
--- a/src/element/mod.rs
+++ b/src/element/mod.rs
@@ -250,7 +250,7 @@ impl ElementAssemblage {
             // check if each node dof still exists and if so apply that part of force
             for d in 0..NODE_DIM {
                 let node_dof = NodeDof(n, d);
-                res[node_dof.to_dof().0] = f[d];
+                res[node_dof.to_dof().0] += f[d];
             }
         }
 
@@ -259,8 +259,10 @@ impl ElementAssemblage {
                 // TODO this is a bad way of locating affected elements - very slow, lots of loops
                 if el.nodes_connect(n, m) {
                     for (i, val) in el.int_f_l((n, m), f).unwrap() {
-                        res[i.to_dof().0] = val;
+                        res[i.to_dof().0] += val;
                     }
+                    // an edge shared by two elements is only loaded once
+                    break;
                 }
             }
         }
-- 
2.43.0


From 88d11e18542ffd6b94e6677d9af8b8453945642d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 14/41] fix: combining constraints never releases a fixed
 direction

---
 src/element/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/element/mod.rs b/src/element/mod.rs
index bb9c2ab..b4319d7 100644
--- a/src/element/mod.rs
+++ b/src/element/mod.rs
@@ -195,13 +195,16 @@ impl ElementAssemblage {
             (Constraint::AngleFixed(a), Constraint::AngleFixed(b)) => {
                 self.constraints[n.0] = Constraint::AngleFixed((a + b) / 2.0);
             }
+            (_, Constraint::Free) => {}
             (Constraint::AngleFixed(_), c) => {
                 self.constraints[n.0] = c;
             }
             (c, Constraint::AngleFixed(_)) => {
                 self.constraints[n.0] = c;
             }
-            (Constraint::XFixed, Constraint::YFixed) | (Constraint::YFixed, Constraint::XFixed) => {
+            (Constraint::XFixed, Constraint::YFixed)
+            | (Constraint::YFixed, Constraint::XFixed)
+            | (_, Constraint::XYFixed) => {
                 self.constraints[n.0] = Constraint::XYFixed;
             }
             _ => {}
-- 
2.43.0


From acefc8cd246b195e133871280817198681e3837d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:51 +0000
Subject: [PATCH 15/41] fix: a free constraint written as text can be read back

---
 src/element/constraint.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/element/constraint.rs b/src/element/constraint.rs
index b6ae8f8..0af8249 100644
--- a/src/element/constraint.rs
+++ b/src/element/constraint.rs
@@ -38,6 +38,7 @@ impl FromStr for Constraint {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         // parse as a string like xy, xz, y, where presence of a dim means it is struck
         match s {
+            "free" => Ok(Constraint::Free),
             "x" => Ok(Constraint::XFixed),
             "y" => Ok(Constraint::YFixed),
             "xy" => Ok(Constraint::XYFixed),
-- 
2.43.0


From f56fcba9770c831a1ef05d72d5803b7c04254955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:55 +0000
Subject: [PATCH 16/41] fix: von Mises value of plane and bar states, symmetric
 stress tensor

---
 src/element/stress.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/element/stress.rs b/src/element/stress.rs
index e6d0492..0d7121d 100644
--- a/src/element/stress.rs
+++ b/src/element/stress.rs
@@ -91,7 +91,7 @@ impl StressState {
 
         let mut res = LinearMatrix::zeros(dim);
         for r in 0..dim {
-            for c in r..dim {
+            for c in 0..dim {
                 res[(r, c)] = self.data[self.loc(r, c)];
             }
         }
@@ -102,9 +102,13 @@ impl StressState {
     pub fn von_mises(&self) -> f64 {
         // compute the von mises yield criterion
         match self.state_type {
-            StressType::Bar => self.data[0],
+            StressType::Bar => self.data[0].abs(),
             StressType::Plane => {
-                ((self.data[0] - self.data[1]).powi(2) + 3.0 * self.data[2].powi(2)).sqrt()
+                // equal to the three-dimensional criterion with no out of plane stress
+                let normals = (self.data[0] - self.data[1]).powi(2)
+                    + self.data[1].powi(2)
+                    + self.data[0].powi(2);
+                (0.5 * normals + 3.0 * self.data[2].powi(2)).sqrt()
             }
             StressType::ThreeD => {
                 let normals = (self.data[0] - self.data[1]).powi(2)
-- 
2.43.0


From bc858e479d97fe7d809170e9033c55a50ceba82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:05 +0000
Subject: [PATCH 17/41] fix: zero-area elements are refused

---
 src/element/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/element/mod.rs b/src/element/mod.rs
index b4319d7..11e413f 100644
--- a/src/element/mod.rs
+++ b/src/element/mod.rs
@@ -144,7 +144,8 @@ impl ElementAssemblage {
         // check the element jacobian at the natural coordinate center
         let j_ratio = el.jacobian_ratio();
         // TODO handle this error condition with a result return
-        if j_ratio < 0.0 {
+        // (the ratio of a zero-area element is not a number)
+        if !(j_ratio >= 0.0) {
             panic!("distorted element: jacobian ratio is {}", j_ratio)
         }
         if j_ratio < 0.033 {
-- 
2.43.0


From 542fe02b799ed3f76dc16503cafad2e2d99430ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:48 +0000
Subject: [PATCH 18/41] fix: fully constrained bodies have zero displacements

---
 src/element/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/element/mod.rs b/src/element/mod.rs
index 11e413f..b81c693 100644
--- a/src/element/mod.rs
+++ b/src/element/mod.rs
@@ -305,6 +305,12 @@ impl ElementAssemblage {
         let k = constrainer.bar_matrix(&k);
         let r = constrainer.bar_vec(&r);
 
+        if r.is_empty() {
+            // every node is held, nothing to solve for
+            let node_disp = self.raw_to_node_disp(&[]);
+            return Deformation::new(self, node_disp);
+        }
+
         let system = System::from_kr(&k, &LinearMatrix::col_vec(r));
 
         let solver = T::new(system);
-- 
2.43.0


From c48e40e29af071b7e9921e4c8b5d9a31e11c12cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:03 +0000
Subject: [PATCH 19/41] fix: stress tensor of axisymmetric states

---
 src/element/stress.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/element/stress.rs b/src/element/stress.rs
index 0d7121d..716b218 100644
--- a/src/element/stress.rs
+++ b/src/element/stress.rs
@@ -85,13 +85,16 @@ impl StressState {
         let dim = match self.state_type {
             StressType::Bar => 1,
             StressType::Plane => 2,
-            StressType::ThreeD => 3,
-            StressType::AxiSym => unimplemented!(),
+            StressType::ThreeD | StressType::AxiSym => 3,
         };
 
         let mut res = LinearMatrix::zeros(dim);
         for r in 0..dim {
             for c in 0..dim {
+                if self.state_type == StressType::AxiSym && (r == 2) != (c == 2) {
+                    // no shear with the hoop direction
+                    continue;
+                }
                 res[(r, c)] = self.data[self.loc(r, c)];
             }
         }
-- 
2.43.0


From e9743fb562b554517fb2e72c5c6950af2ad9ffcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:49 +0000
Subject: [PATCH 20/41] fix: hoop strain of axisymmetric bodies on their axis

---
 src/element/strain.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/element/strain.rs b/src/element/strain.rs
index 5820f4b..fd79080 100644
--- a/src/element/strain.rs
+++ b/src/element/strain.rs
@@ -72,7 +72,8 @@ impl Condition {
                     b[(1, u_i_y)] = dhi_dy;
                     b[(2, u_i_x)] = dhi_dy;
                     b[(2, u_i_y)] = dhi_dx;
-                    b[(3, u_i_x)] = h_i / r;
+                    // on the axis itself the hoop strain is the radial one
+                    b[(3, u_i_x)] = if r == 0.0 { dhi_dx } else { h_i / r };
                 }
 
                 b
-- 
2.43.0


From 193bba636b73ddae07002d0d71888b2d4a17115f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:53 +0000
Subject: [PATCH 21/41] fix: stresses of plane strain include the one normal to
 the plane

---
 src/element/element.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/element/element.rs b/src/element/element.rs
index a4c740f..2acb380 100644
--- a/src/element/element.rs
+++ b/src/element/element.rs
@@ -322,7 +322,13 @@ impl Element {
             // compute CBU
             let mut st: LinearMatrix = c.mul(&mats.b);
             st = st.mul(&u);
-            res.push((nid, StressState::from_vector(st)));
+            let mut st: Vec<f64> = st.flat().cloned().collect();
+            if let Condition::PlaneStrain(_) = self.condition {
+                // plane strain is held in place by a stress normal to the plane
+                // (the same layout as axisymmetric states)
+                st.push(self.material().poisson * (st[0] + st[1]));
+            }
+            res.push((nid, StressState::from_vector(LinearMatrix::col_vec(st))));
         }
 
         res
-- 
2.43.0


From 84022258327a2a17e3f8caf8704e1d2a92bac037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:04 +0000
Subject: [PATCH 22/41] fix: circumsphere test uses all three coordinates

---
 src/spatial/predicates.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/spatial/predicates.rs b/src/spatial/predicates.rs
index dbe6a19..c63c856 100644
--- a/src/spatial/predicates.rs
+++ b/src/spatial/predicates.rs
@@ -111,27 +111,27 @@ pub fn in_sphere(p: Point, tet: (Point, Point, Point, Point)) -> bool {
             a[0],
             a[1],
             a[2],
-            a[0].powi(2) + a[1].powi(2) + a[1].powi(2),
+            a[0].powi(2) + a[1].powi(2) + a[2].powi(2),
             1.0,
             b[0],
             b[1],
             b[2],
-            b[0].powi(2) + b[1].powi(2) + b[1].powi(2),
+            b[0].powi(2) + b[1].powi(2) + b[2].powi(2),
             1.0,
             c[0],
             c[1],
             c[2],
-            c[0].powi(2) + c[1].powi(2) + c[1].powi(2),
+            c[0].powi(2) + c[1].powi(2) + c[2].powi(2),
             1.0,
             d[0],
             d[1],
             d[2],
-            d[0].powi(2) + d[1].powi(2) + d[1].powi(2),
+            d[0].powi(2) + d[1].powi(2) + d[2].powi(2),
             1.0,
             p[0],
             p[1],
             p[2],
-            p[0].powi(2) + p[1].powi(2) + p[1].powi(2),
+            p[0].powi(2) + p[1].powi(2) + p[2].powi(2),
             1.0,
         ],
     );
-- 
2.43.0


From 89d4b312140215768df56b881faaf74b1e1cfd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:08 +0000
Subject: [PATCH 23/41] fix: points of more than three dimensions are refused

---
 src/spatial/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spatial/mod.rs b/src/spatial/mod.rs
index 61ea0a0..251bf8a 100644
--- a/src/spatial/mod.rs
+++ b/src/spatial/mod.rs
@@ -47,6 +47,7 @@ impl Point {
     }
 
     pub fn zero(n: usize) -> Self {
+        assert!(n <= 3);
         Point { n, data: [0.0; 3] }
     }
 
-- 
2.43.0


From 4052bf418c0a3aa486182e8a25589fc1fb419215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:41 +0000
Subject: [PATCH 24/41] fix: coincident points and very small images can be
 drawn

---
 src/visual/mod.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/visual/mod.rs b/src/visual/mod.rs
index 7e498bd..f788d9f 100644
--- a/src/visual/mod.rs
+++ b/src/visual/mod.rs
@@ -144,18 +144,29 @@ impl Visualizer {
         let max_range = if x_range > y_range { x_range } else { y_range };
 
         // want to bring the range down to 80% of the image width
+        // (points which all coincide go in the middle)
         let target_range = 0.8 * (self.im_size as f64);
-        let scaling = target_range / max_range;
-
-        let middle_x = (x_max + x_min) / 2.0;
-        let middle_y = (y_max + y_min) / 2.0;
+        let scaled = |offset: f64| {
+            if max_range > 0.0 {
+                offset / max_range * target_range
+            } else {
+                0.0
+            }
+        };
 
         let mut pix_points = Vec::new();
         for (x, y) in xs.iter().zip(ys.iter()) {
-            let x_new = ((x - middle_x) * scaling + (self.im_size as f64) / 2.0).round();
+            // offsets from the middle of the model
+            let x_off = (x - x_min) - x_range / 2.0;
+            let y_off = (y - y_min) - y_range / 2.0;
+
+            let x_new = (scaled(x_off) + (self.im_size as f64) / 2.0).round();
             // flip y so the image appears in the familiar x/y orientation
-            let y_new = (-1.0 * (y - middle_y) * scaling + (self.im_size as f64) / 2.0).round();
-            pix_points.push((x_new as u32, y_new as u32));
+            let y_new = (-1.0 * scaled(y_off) + (self.im_size as f64) / 2.0).round();
+
+            // rounding must not leave a very small image
+            let last = self.im_size.saturating_sub(1);
+            pix_points.push(((x_new as u32).min(last), (y_new as u32).min(last)));
         }
 
         pix_points
-- 
2.43.0


From cd16fa1bac7e4775a266a51de8497a0eab077d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:45 +0000
Subject: [PATCH 25/41] fix: dots and lines at the border of the image

---
 src/visual/bresenham.rs |  2 +-
 src/visual/fill.rs      | 13 +++++++------
 src/visual/mod.rs       |  2 +-
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/visual/bresenham.rs b/src/visual/bresenham.rs
index 626cc60..e64e481 100644
--- a/src/visual/bresenham.rs
+++ b/src/visual/bresenham.rs
@@ -4,7 +4,7 @@ pub fn line_unsigned(orig: &(u32, u32), end: &(u32, u32)) -> Vec<(u32, u32)> {
 
     line(orig, end)
         .into_iter()
-        .filter(|(x, y)| x > &0 && y > &0)
+        .filter(|(x, y)| x >= &0 && y >= &0)
         .map(|(x, y)| (x as u32, y as u32))
         .collect()
 }
diff --git a/src/visual/fill.rs b/src/visual/fill.rs
index d85ba53..4f8cdcd 100644
--- a/src/visual/fill.rs
+++ b/src/visual/fill.rs
@@ -1,14 +1,15 @@
 use super::DOT_SIZE;
 use crate::spatial::{predicates, Point};
 
-pub fn dot_points(center_x: u32, center_y: u32) -> Vec<(u32, u32)> {
-    // returns the points to draw for a dot
+pub fn dot_points(center_x: u32, center_y: u32, im_size: u32) -> Vec<(u32, u32)> {
+    // returns the points to draw for a dot, leaving out what would be outside of the image
     // just a boring ol' square, might change to a more circular thing
-    // TODO maybe handle *edge* cases better haha get it
     let mut res = Vec::new();
-    for x in (center_x - DOT_SIZE)..=(center_x + DOT_SIZE) {
-        for y in (center_y - DOT_SIZE)..=(center_y + DOT_SIZE) {
-            res.push((x, y));
+    for x in center_x.saturating_sub(DOT_SIZE)..=(center_x + DOT_SIZE) {
+        for y in center_y.saturating_sub(DOT_SIZE)..=(center_y + DOT_SIZE) {
+            if x < im_size && y < im_size {
+                res.push((x, y));
+            }
         }
     }
     res
diff --git a/src/visual/mod.rs b/src/visual/mod.rs
index f788d9f..0514388 100644
--- a/src/visual/mod.rs
+++ b/src/visual/mod.rs
@@ -221,7 +221,7 @@ impl Visualizer {
 
             // draw points
             for ((x, y), c) in pix_points.into_iter().zip(self.colors.iter()) {
-                let to_draw = fill::dot_points(x, y);
+                let to_draw = fill::dot_points(x, y, self.im_size);
                 for (i, j) in to_draw.into_iter() {
                     img.put_pixel(i, j, color::STDCOL[*c]);
                 }
-- 
2.43.0


From 0ea162a37c93dfa2b734946214b2f969ece7d7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:49 +0000
Subject: [PATCH 26/41] fix: equal node values are drawn as the lowest one

---
 src/visual/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/visual/mod.rs b/src/visual/mod.rs
index 0514388..d37d200 100644
--- a/src/visual/mod.rs
+++ b/src/visual/mod.rs
@@ -93,8 +93,14 @@ impl Visualizer {
 
         let range = max - min;
 
-        vals.iter_mut()
-            .for_each(|x| *x = ((*x - min) / range).clamp(0.0, 1.0));
+        // (equal values are all the lowest one)
+        vals.iter_mut().for_each(|x| {
+            *x = if range > 0.0 {
+                ((*x - min) / range).clamp(0.0, 1.0)
+            } else {
+                0.0
+            }
+        });
         self.node_vals = Some(vals);
     }
 
-- 
2.43.0


From b624f336263a99b9822a66aaacbb5ce4b8df51df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:49 +0000
Subject: [PATCH 27/41] fix: pixels on the edge between two triangles are
 filled

---
 src/visual/fill.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/visual/fill.rs b/src/visual/fill.rs
index 4f8cdcd..3f17870 100644
--- a/src/visual/fill.rs
+++ b/src/visual/fill.rs
@@ -1,6 +1,8 @@
 use super::DOT_SIZE;
 use crate::spatial::{predicates, Point};
 
+const EDGE_TOLERANCE: f64 = 1e-10;
+
 pub fn dot_points(center_x: u32, center_y: u32, im_size: u32) -> Vec<(u32, u32)> {
     // returns the points to draw for a dot, leaving out what would be outside of the image
     // just a boring ol' square, might change to a more circular thing
@@ -28,8 +30,10 @@ pub fn triangle_interp(points: [(u32, u32); 3], vals: [f64; 3]) -> Vec<((u32, u3
     for x in x_min..=x_max {
         for y in y_min..=y_max {
             let p: Point = (x, y).into();
-            if predicates::in_triangle(p, tri) {
-                let weights = predicates::bary_coor(p, tri);
+            let weights = predicates::bary_coor(p, tri);
+            // pixels on an edge belong to the triangle, whichever way their weights are rounded
+            let inside = |w: f64| w >= -EDGE_TOLERANCE;
+            if inside(weights.0) && inside(weights.1) && inside(weights.2) {
                 let weighted_val = weights.0 * vals[0] + weights.1 * vals[1] + weights.2 * vals[2];
                 res.push(((x, y), weighted_val));
             }
-- 
2.43.0


From 5315466bff5beb97a59809d3a2d4608a16319018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:20 +0000
Subject: [PATCH 28/41] fix: circle, sphere and orientation tests far from the
 origin

---
 src/spatial/predicates.rs | 50 +++++++++++++++------------------------
 1 file changed, 19 insertions(+), 31 deletions(-)

diff --git a/src/spatial/predicates.rs b/src/spatial/predicates.rs
index c63c856..bb2b51a 100644
--- a/src/spatial/predicates.rs
+++ b/src/spatial/predicates.rs
@@ -16,12 +16,12 @@ pub fn tetrahedron_dir(tet: (Point, Point, Point, Point)) -> Orient {
     // return the orientation of a tetrahedron
     let (a, b, c, d) = tet;
 
-    let mat = ConstMatrix::<16>::from_flat_array(
-        4,
-        [
-            a[0], a[1], a[2], 1.0, b[0], b[1], b[2], 1.0, c[0], c[1], c[2], 1.0, d[0], d[1], d[2],
-            1.0,
-        ],
+    // edges from d, so that a small tetrahedron far from the origin keeps its precision
+    let (a, b, c) = (a - d, b - d, c - d);
+
+    let mat = ConstMatrix::<9>::from_flat_array(
+        3,
+        [a[0], a[1], a[2], b[0], b[1], b[2], c[0], c[1], c[2]],
     );
 
     match mat.determinant() {
@@ -69,26 +69,21 @@ pub fn in_circle(p: Point, tri: (Point, Point, Point)) -> bool {
     // tri's points should be in counterclockwise order
     let (a, b, c) = tri;
 
-    // TODO replace with faster / more accurate 3x3 determinant
-    let mat = ConstMatrix::<16>::from_flat_array(
-        4,
+    // offsets from a, so that a small circle far from the origin keeps its precision
+    let (b, c, p) = (b - a, c - a, p - a);
+
+    let mat = ConstMatrix::<9>::from_flat_array(
+        3,
         [
-            a[0],
-            a[1],
-            a[0].powi(2) + a[1].powi(2),
-            1.0,
             b[0],
             b[1],
             b[0].powi(2) + b[1].powi(2),
-            1.0,
-            c[0],
-            c[1],
-            c[0].powi(2) + c[1].powi(2),
-            1.0,
             p[0],
             p[1],
             p[0].powi(2) + p[1].powi(2),
-            1.0,
+            c[0],
+            c[1],
+            c[0].powi(2) + c[1].powi(2),
         ],
     );
 
@@ -104,35 +99,28 @@ pub fn in_sphere(p: Point, tet: (Point, Point, Point, Point)) -> bool {
     // determine whether p lies within tet's circumsphere
     let (a, b, c, d) = tet;
 
-    // TODO replace with faster / more accurate 4x4 determinant
-    let mat = ConstMatrix::<25>::from_flat_array(
-        5,
+    // offsets from a, so that a small sphere far from the origin keeps its precision
+    let (b, c, d, p) = (b - a, c - a, d - a, p - a);
+
+    let mat = ConstMatrix::<16>::from_flat_array(
+        4,
         [
-            a[0],
-            a[1],
-            a[2],
-            a[0].powi(2) + a[1].powi(2) + a[2].powi(2),
-            1.0,
             b[0],
             b[1],
             b[2],
             b[0].powi(2) + b[1].powi(2) + b[2].powi(2),
-            1.0,
             c[0],
             c[1],
             c[2],
             c[0].powi(2) + c[1].powi(2) + c[2].powi(2),
-            1.0,
             d[0],
             d[1],
             d[2],
             d[0].powi(2) + d[1].powi(2) + d[2].powi(2),
-            1.0,
             p[0],
             p[1],
             p[2],
             p[0].powi(2) + p[1].powi(2) + p[2].powi(2),
-            1.0,
         ],
     );
 
-- 
2.43.0


From 76013c957e3b198abcd898f1eab924a0d85f15ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:12 +0000
Subject: [PATCH 29/41] fix: malformed mesh files are refused instead of ending
 the program

---
 src/element/element.rs |  6 ++--
 src/element/mod.rs     | 11 +++++--
 src/file/bmsh.rs       | 71 +++++++++++++++++++++++++-----------------
 3 files changed, 56 insertions(+), 32 deletions(-)

diff --git a/src/element/element.rs b/src/element/element.rs
index 2acb380..d56c38a 100644
--- a/src/element/element.rs
+++ b/src/element/element.rs
@@ -7,6 +7,7 @@ use super::{ElementAssemblage, NodeDof, NodeId};
 use crate::matrix::inverse::Inverse;
 use crate::matrix::{LinearMatrix, MatrixLike};
 use crate::spatial::Point;
+use std::cmp::Ordering;
 use std::convert::TryInto;
 
 // isoparametric finite elements
@@ -337,6 +338,7 @@ impl Element {
     pub fn jacobian_ratio(&self) -> f64 {
         // returns the ratio of smallest jacobian to largest
         // with an edge case for opposite-sign jacobians
+        // (not a number if a jacobian is not, for points too far away)
         let jacobians: Vec<f64> = GAUSS_TRI_SAMPLES
             .iter()
             .map(|&p| {
@@ -348,11 +350,11 @@ impl Element {
         // unwrap here is ok because jacobians should never be an empty list
         let a = jacobians
             .iter()
-            .max_by(|x, y| x.partial_cmp(y).unwrap())
+            .max_by(|x, y| x.partial_cmp(y).unwrap_or(Ordering::Equal))
             .unwrap();
         let b = jacobians
             .iter()
-            .min_by(|x, y| x.partial_cmp(y).unwrap())
+            .min_by(|x, y| x.partial_cmp(y).unwrap_or(Ordering::Equal))
             .unwrap();
 
         // note this may return a negative number
diff --git a/src/element/mod.rs b/src/element/mod.rs
index b81c693..0a133a5 100644
--- a/src/element/mod.rs
+++ b/src/element/mod.rs
@@ -140,13 +140,19 @@ impl ElementAssemblage {
     }
 
     pub fn add_element(&mut self, desc: ElementDescriptor) {
+        if let Err(e) = self.try_add_element(desc) {
+            panic!("{}", e)
+        }
+    }
+
+    pub fn try_add_element(&mut self, desc: ElementDescriptor) -> Result<(), String> {
+        // add an element unless it is distorted
         let el = build_element(&self, desc);
         // check the element jacobian at the natural coordinate center
         let j_ratio = el.jacobian_ratio();
-        // TODO handle this error condition with a result return
         // (the ratio of a zero-area element is not a number)
         if !(j_ratio >= 0.0) {
-            panic!("distorted element: jacobian ratio is {}", j_ratio)
+            return Err(format!("distorted element: jacobian ratio is {}", j_ratio));
         }
         if j_ratio < 0.033 {
             eprintln!(
@@ -156,6 +162,7 @@ impl ElementAssemblage {
             );
         }
         self.elements.push(el);
+        Ok(())
     }
 
     pub fn conc_forces(&self) -> Vec<(NodeId, Point)> {
diff --git a/src/file/bmsh.rs b/src/file/bmsh.rs
index efd3d85..7bf16f3 100644
--- a/src/file/bmsh.rs
+++ b/src/file/bmsh.rs
@@ -1,5 +1,3 @@
-use std::convert::TryInto;
-
 use crate::element::constraint::Constraint;
 use crate::element::material::Material;
 use crate::element::strain::Condition;
@@ -13,10 +11,33 @@ use super::FileError;
 
 type NomStrErr<'a> = nom::error::Error<&'a str>;
 
-fn code_to_desc(code: Vec<NodeId>) -> ElementDescriptor {
-    assert!(code.len() == 3);
+fn code_to_desc(code: Vec<usize>, node_ids: &[NodeId]) -> Result<ElementDescriptor, FileError> {
+    if code.len() != 3 {
+        return Err(FileError::parse("elements must have three nodes"));
+    }
+
+    Ok(ElementDescriptor::new([
+        find_node(node_ids, code[0])?,
+        find_node(node_ids, code[1])?,
+        find_node(node_ids, code[2])?,
+    ]))
+}
 
-    ElementDescriptor::new([code[0], code[1], code[2]])
+fn find_node(node_ids: &[NodeId], i: usize) -> Result<NodeId, FileError> {
+    // helper for references to nodes elsewhere in the file
+    node_ids
+        .get(i)
+        .copied()
+        .ok_or_else(|| FileError::parse(format!("no node with index {}", i)))
+}
+
+fn plane_point(coor: Vec<f64>) -> Result<Point, FileError> {
+    // helper for positions and force vectors
+    if coor.len() == 2 && coor.iter().all(|x| x.is_finite()) {
+        Ok((coor[0], coor[1]).into())
+    } else {
+        Err(FileError::parse("expected two finite components"))
+    }
 }
 
 fn desc_to_code(desc: ElementDescriptor) -> [NodeId; 3] {
@@ -160,7 +181,7 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
         branch::alt,
         bytes::complete::tag,
         character::complete::{self, alphanumeric1, not_line_ending},
-        combinator::map,
+        combinator::{map, map_res},
         multi::separated_list0,
         number::complete::double,
         sequence::{preceded, separated_pair, terminated, tuple},
@@ -180,7 +201,10 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
 
     // parse the header
     let version = named_value("version", complete::u8);
-    let material = named_value("material", alphanumeric1);
+    let material = named_value(
+        "material",
+        map_res(alphanumeric1, |m: &str| m.parse::<Material>()),
+    );
 
     let condition_parser = alt((
         map(preceded(tag("planestrain "), double), |t: f64| {
@@ -199,7 +223,7 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
         map(tuple((version, material, condition)), |(v, m, c)| {
             ParseHeader {
                 version: v,
-                material: m.parse().expect("bad material"),
+                material: m,
                 condition: c,
             }
         }),
@@ -215,9 +239,7 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
     // parse the remaining segments
     let (input, nodes): (_, Vec<Point>) = section_parse(
         "Nodes",
-        monotonic_list(map(separated_list0(tag("/"), double), |x| {
-            x.try_into().expect("bad node position string")
-        })),
+        monotonic_list(map_res(separated_list0(tag("/"), double), plane_point)),
     )(input)?;
 
     let (input, elements): (_, Vec<Vec<usize>>) = section_parse(
@@ -233,11 +255,8 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
         free_list(separated_pair(
             map(complete::u64, |x| x as usize),
             tag(" "),
-            map(
-                not_line_ending,
-                // TODO: remove redundant info from make_constraint
-                |con: &str| con.parse::<Constraint>().expect("bad constraint"),
-            ),
+            // TODO: remove redundant info from make_constraint
+            map_res(not_line_ending, |con: &str| con.parse::<Constraint>()),
         )),
     )(input)?;
 
@@ -246,9 +265,7 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
         free_list(separated_pair(
             map(complete::u64, |x| x as usize),
             tag(" "),
-            map(separated_list0(tag("/"), double), |x| {
-                x.try_into().expect("bad force vector string")
-            }),
+            map_res(separated_list0(tag("/"), double), plane_point),
         )),
     )(input)?;
 
@@ -257,9 +274,7 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
         free_list(tuple((
             terminated(map(complete::u64, |x| x as usize), tag(" ")),
             terminated(map(complete::u64, |x| x as usize), tag(" ")),
-            map(separated_list0(tag("/"), double), |x| {
-                x.try_into().expect("bad force vector string")
-            }),
+            map_res(separated_list0(tag("/"), double), plane_point),
         ))),
     )(input)?;
 
@@ -270,21 +285,21 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
 
     // TODO write an elas API to generate an element with the suggested type
     for ns in elements.into_iter() {
-        let nids = ns.into_iter().map(|i| node_ids[i]).collect();
-        let desc = code_to_desc(nids);
-        elas.add_element(desc);
+        let desc = code_to_desc(ns, &node_ids)?;
+        elas.try_add_element(desc).map_err(FileError::parse)?;
     }
 
     for (n, con) in constraints.into_iter() {
-        elas.add_constraint(node_ids[n], con);
+        elas.add_constraint(find_node(&node_ids, n)?, con);
     }
 
     for (n, frc) in forces.into_iter() {
-        elas.add_conc_force(node_ids[n], frc);
+        elas.add_conc_force(find_node(&node_ids, n)?, frc);
     }
 
     for (na, nb, frc) in dist_forces.into_iter() {
-        elas.add_dist_line_force(node_ids[na], node_ids[nb], frc);
+        let (na, nb) = (find_node(&node_ids, na)?, find_node(&node_ids, nb)?);
+        elas.add_dist_line_force(na, nb, frc);
     }
 
     Ok(elas)
-- 
2.43.0


From f9dbdd0bb97c135f80d033e66ace3e7b813727d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:19 +0000
Subject: [PATCH 30/41] fix: saved meshes keep every digit of their model

---
 src/element/strain.rs | 4 ++--
 src/file/bmsh.rs      | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/element/strain.rs b/src/element/strain.rs
index fd79080..28b6441 100644
--- a/src/element/strain.rs
+++ b/src/element/strain.rs
@@ -125,8 +125,8 @@ impl Condition {
 impl ToString for Condition {
     fn to_string(&self) -> String {
         match self {
-            Condition::PlaneStress(t) => format!("planestress {:3.5}", t),
-            Condition::PlaneStrain(t) => format!("planestrain {:3.5}", t),
+            Condition::PlaneStress(t) => format!("planestress {}", t),
+            Condition::PlaneStrain(t) => format!("planestrain {}", t),
             Condition::Axisymmetric => format!("axisymmetric"),
         }
     }
diff --git a/src/file/bmsh.rs b/src/file/bmsh.rs
index 7bf16f3..7c64e03 100644
--- a/src/file/bmsh.rs
+++ b/src/file/bmsh.rs
@@ -317,7 +317,7 @@ pub fn elas_to_bmsh(elas: ElementAssemblage) -> String {
     let nodes = elas.nodes();
     res += &format!("\ncount {}", nodes.len());
     for (i, n) in nodes.into_iter().enumerate() {
-        res += &format!("\n{} {:.6}/{:.6}", i, n[0], n[1]);
+        res += &format!("\n{} {}/{}", i, n[0], n[1]);
     }
     res += "\n$EndNodes\n\n$Elements";
 
@@ -354,7 +354,7 @@ pub fn elas_to_bmsh(elas: ElementAssemblage) -> String {
     let forces = elas.conc_forces();
     res += &format!("\ncount {}", forces.len());
     for (n, frc) in forces {
-        res += &format!("\n{} {:.3}/{:.3}", n.into_idx(), frc[0], frc[1]);
+        res += &format!("\n{} {}/{}", n.into_idx(), frc[0], frc[1]);
     }
     res.push_str("\n$EndForces\n\n$DistForces");
 
@@ -362,7 +362,7 @@ pub fn elas_to_bmsh(elas: ElementAssemblage) -> String {
     res += &format!("\ncount {}", dist_forces.len());
     for ((na, nb), frc) in dist_forces {
         res += &format!(
-            "\n{} {} {:.3}/{:.3}",
+            "\n{} {} {}/{}",
             na.into_idx(),
             nb.into_idx(),
             frc[0],
-- 
2.43.0


From 0ae1518015c0d96547212c6277b8d0132bae5cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:33 +0000
Subject: [PATCH 31/41] fix: malformed boundary files are refused instead of
 ending the program

---
 src/file/bbnd.rs     | 26 +++++++++++++++++---------
 src/mesher/bounds.rs | 22 +++++++++++++++++-----
 2 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/src/file/bbnd.rs b/src/file/bbnd.rs
index b3b58eb..1614fd3 100644
--- a/src/file/bbnd.rs
+++ b/src/file/bbnd.rs
@@ -13,10 +13,11 @@ use nom::{
     branch::alt,
     bytes::complete::tag,
     character::complete::{self, alphanumeric1, not_line_ending},
-    combinator::map,
+    combinator::{map, map_res, verify},
     multi::{separated_list0, separated_list1},
-    number::complete::double,
+    number::complete::double as complete_double,
     sequence::{delimited, preceded, separated_pair, tuple},
+    IResult,
 };
 
 // parser for a simple boundary definition file
@@ -72,7 +73,9 @@ pub fn bbnd_to_bounds(file: &str) -> Result<PlaneBoundary, FileError> {
                 vertex_labels.push(l);
             }
 
-            let vertices = res.store_polygon(&vertex_points);
+            let vertices = res
+                .try_store_polygon(&vertex_points)
+                .map_err(FileError::parse)?;
             for (&l, vertex) in vertex_labels.iter().zip(vertices) {
                 if let Some(label) = l {
                     label_map.insert(label, vertex);
@@ -116,6 +119,11 @@ pub fn bbnd_to_bounds(file: &str) -> Result<PlaneBoundary, FileError> {
 }
 
 fn parse_file<'a>(file: &'a str) -> Result<Vec<ParseItem<'a>>, FileError> {
+    // numbers must be finite
+    fn double(input: &str) -> IResult<&str, f64> {
+        verify(complete_double, |x: &f64| x.is_finite())(input)
+    }
+
     let condition = alt((
         map(preceded(tag("condition planestrain "), double), |t: f64| {
             ParseItem::Condition(Condition::PlaneStrain(t))
@@ -127,9 +135,8 @@ fn parse_file<'a>(file: &'a str) -> Result<Vec<ParseItem<'a>>, FileError> {
             ParseItem::Condition(Condition::Axisymmetric)
         }),
     ));
-    // TODO fix material error handling
-    let material = map(preceded(tag("material "), alphanumeric1), |m: &str| {
-        ParseItem::Material(m.parse::<Material>().unwrap())
+    let material = map_res(preceded(tag("material "), alphanumeric1), |m: &str| {
+        m.parse::<Material>().map(ParseItem::Material)
     });
 
     let dist_force = map(
@@ -145,7 +152,7 @@ fn parse_file<'a>(file: &'a str) -> Result<Vec<ParseItem<'a>>, FileError> {
         |f: (&str, &str, f64, f64)| ParseItem::DistForce(f.0, f.1, f.2, f.3),
     );
 
-    let dist_constraint = map(
+    let dist_constraint = map_res(
         preceded(
             tag("distributed_constraint "),
             tuple((
@@ -155,7 +162,8 @@ fn parse_file<'a>(file: &'a str) -> Result<Vec<ParseItem<'a>>, FileError> {
             )),
         ),
         |f: (&str, &str, &str)| {
-            ParseItem::DistConstraint(f.0, f.1, f.2.parse::<Constraint>().unwrap())
+            f.2.parse::<Constraint>()
+                .map(|c| ParseItem::DistConstraint(f.0, f.1, c))
         },
     );
 
@@ -188,7 +196,7 @@ fn parse_file<'a>(file: &'a str) -> Result<Vec<ParseItem<'a>>, FileError> {
     );
     let (rem, parsed) = parser(file)
         .map_err(|_e: nom::Err<nom::error::Error<_>>| FileError::parse("parse error"))?;
-    if !rem.is_empty() {
+    if !rem.trim().is_empty() {
         Err(FileError::parse("parser did not consume entire file\n{}"))
     } else {
         Ok(parsed)
diff --git a/src/mesher/bounds.rs b/src/mesher/bounds.rs
index 96abe86..08e8959 100644
--- a/src/mesher/bounds.rs
+++ b/src/mesher/bounds.rs
@@ -195,7 +195,7 @@ impl PlaneBoundary {
         self.seg_set.insert(s);
     }
 
-    fn store_base_segment<S: Into<Segment>>(&mut self, s: S) {
+    fn store_base_segment<S: Into<Segment>>(&mut self, s: S) -> Result<(), &'static str> {
         // store a segment into both the main and base maps
         let s = s.into();
 
@@ -203,12 +203,13 @@ impl PlaneBoundary {
 
         // possibly avoid this O(n) check for at-scale work
         if self.intersects(a, b, Some(s)) {
-            panic!("segment overlaps with existing segment");
+            return Err("segment overlaps with existing segment");
         }
 
         self.seg_map.insert(s.0, s.1);
         self.base_seg_map.insert(s.0, s.1);
         self.seg_set.insert(s);
+        Ok(())
     }
 
     pub fn set_condition(&mut self, c: Condition) {
@@ -319,12 +320,23 @@ impl PlaneBoundary {
     }
 
     pub fn store_polygon<T>(&mut self, poly: &[T]) -> Vec<Vertex>
+    where
+        T: Into<Point> + Copy,
+    {
+        self.try_store_polygon(poly).unwrap_or_else(|e| panic!("{}", e))
+    }
+
+    pub fn try_store_polygon<T>(&mut self, poly: &[T]) -> Result<Vec<Vertex>, &'static str>
     where
         T: Into<Point> + Copy,
     {
         // store an ordered set of points as a polygon
         // the polygon should be oriented so positive triangles off the edges are inside the body
 
+        if poly.len() < 3 {
+            return Err("polygon has fewer than three vertices");
+        }
+
         let mut poly = poly.into_iter().copied().map(|p| p.into());
         let mut ids = Vec::new();
         let start: Point = poly.next().unwrap();
@@ -338,13 +350,13 @@ impl PlaneBoundary {
         for p in poly {
             let p_idx = self.store_vertex(p);
             ids.push(p_idx);
-            self.store_base_segment((prev_idx, p_idx));
+            self.store_base_segment((prev_idx, p_idx))?;
 
             prev_idx = p_idx;
         }
 
-        self.store_base_segment((prev_idx, start_idx));
-        ids
+        self.store_base_segment((prev_idx, start_idx))?;
+        Ok(ids)
     }
 
     pub fn divide_segment(&mut self, s: Segment, h: f64) {
-- 
2.43.0


From b24f276835e77b322ac7b1574d3a82771f113ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:22 +0000
Subject: [PATCH 32/41] fix: bodies of any size can be meshed

---
 src/mesher/bounds.rs | 24 +++++++++++++++++++++---
 src/mesher/mod.rs    |  5 +++--
 src/mesher/plane.rs  | 11 ++++++++---
 3 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/mesher/bounds.rs b/src/mesher/bounds.rs
index 08e8959..bf5cb88 100644
--- a/src/mesher/bounds.rs
+++ b/src/mesher/bounds.rs
@@ -137,6 +137,10 @@ impl<'a> Iterator for AllWalls<'a> {
 pub struct PlaneBoundary {
     vertices: Vec<Vertex>,
 
+    // lower and upper corner of the box around the vertices
+    lower: (f64, f64),
+    upper: (f64, f64),
+
     wall_starts: Vec<Vertex>,
     seg_map: HashMap<Vertex, Vertex>,
     seg_set: HashSet<Segment>,
@@ -159,6 +163,8 @@ impl PlaneBoundary {
     pub fn new() -> Self {
         PlaneBoundary {
             vertices: Vec::new(),
+            lower: (f64::INFINITY, f64::INFINITY),
+            upper: (f64::NEG_INFINITY, f64::NEG_INFINITY),
 
             wall_starts: Vec::new(),
             seg_map: HashMap::new(),
@@ -176,11 +182,22 @@ impl PlaneBoundary {
     }
 
     pub fn store_vertex<T: Into<Point>>(&mut self, p: T) -> Vertex {
-        let res = Vertex::new(p.into());
+        let p: Point = p.into();
+        let res = Vertex::new(p);
         self.vertices.push(res);
+
+        let (x, y) = p.into();
+        self.lower = (self.lower.0.min(x), self.lower.1.min(y));
+        self.upper = (self.upper.0.max(x), self.upper.1.max(y));
+
         res
     }
 
+    pub fn size(&self) -> f64 {
+        // the larger extent of the body along the coordinate axes
+        (self.upper.0 - self.lower.0).max(self.upper.1 - self.lower.1)
+    }
+
     pub fn store_segment<S: Into<Segment>>(&mut self, s: S) {
         let s = s.into();
 
@@ -294,7 +311,8 @@ impl PlaneBoundary {
 
     pub fn midpoint_visible(&self, s: Segment, x: Vertex) -> bool {
         // determine whether the midpoint of s is visible from v
-        const TOLERANCE: f64 = 1e-6;
+        // the tolerance follows the size of the body
+        let tolerance = 1e-6 * self.size();
 
         let (p, q) = s.get();
         let m = p.mid(q); // midpoint
@@ -309,7 +327,7 @@ impl PlaneBoundary {
             let ab = spacemath::two::Segment::new(a, b);
             let mx = spacemath::two::Segment::new(m, x);
             if ab.intersects(&mx).is_nonzero() {
-                if !((ab.dist(m) < TOLERANCE) || (ab.dist(x) < TOLERANCE)) {
+                if !((ab.dist(m) < tolerance) || (ab.dist(x) < tolerance)) {
                     // if they intersect and neither m nor x lie on ab
                     return false;
                 }
diff --git a/src/mesher/mod.rs b/src/mesher/mod.rs
index 9a024bc..637e4a3 100644
--- a/src/mesher/mod.rs
+++ b/src/mesher/mod.rs
@@ -58,16 +58,17 @@ impl Vertex {
         Self(id, p)
     }
 
-    fn perturbed(self) -> Point {
+    fn perturbed(self, scale: f64) -> Point {
         // apply a perturbation unique to this vertex
         // for use in avoiding cocircular edge cases in meshing
+        // scale is the size of the meshed body
 
         const MAX_PERTURB: f64 = 1e-9;
 
         let mut hasher = DefaultHasher::new();
         self.hash(&mut hasher);
 
-        let perturb = (hasher.finish() as f64 / u64::MAX as f64) * MAX_PERTURB;
+        let perturb = (hasher.finish() as f64 / u64::MAX as f64) * MAX_PERTURB * scale;
 
         let (x, y) = self.1.into();
         (x + perturb, y + perturb).into()
diff --git a/src/mesher/plane.rs b/src/mesher/plane.rs
index 9dc98a5..11917d4 100644
--- a/src/mesher/plane.rs
+++ b/src/mesher/plane.rs
@@ -23,8 +23,12 @@ impl Triangle {
         (self.0.get(), self.1.get(), self.2.get())
     }
 
-    fn perturbed(self) -> (Point, Point, Point) {
-        (self.0.perturbed(), self.1.perturbed(), self.2.perturbed())
+    fn perturbed(self, scale: f64) -> (Point, Point, Point) {
+        (
+            self.0.perturbed(scale),
+            self.1.perturbed(scale),
+            self.2.perturbed(scale),
+        )
     }
 
     fn edges(self) -> [Edge; 3] {
@@ -130,7 +134,8 @@ impl PlaneTriangulation {
         // determine whether x lies in the oriented triangle tri's circumcircle
         // perturb determines whether or not to perturb the inputs (which helps avoid chew edge cases)
         let (x, tri) = if perturb {
-            (x.perturbed(), tri.into().perturbed())
+            let scale = self.bound.size();
+            (x.perturbed(scale), tri.into().perturbed(scale))
         } else {
             (x.get(), tri.into().get())
         };
-- 
2.43.0


From 6e9b57425770112ea1a68d08312556801fffa876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:49 +0000
Subject: [PATCH 33/41] fix: triangulating twice leaves no stale triangles

---
 src/mesher/plane.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesher/plane.rs b/src/mesher/plane.rs
index 11917d4..8b0cd53 100644
--- a/src/mesher/plane.rs
+++ b/src/mesher/plane.rs
@@ -345,6 +345,7 @@ impl PlaneTriangulation {
     pub fn gift_wrap(&mut self) {
         // gift-wrap the triangulation from scratch
         self.tris.clear();
+        self.full_tris.clear();
         self.recents.clear();
 
         let mut to_finish: HashSet<Edge> = self.bound.all_walls().map(Into::into).collect();
-- 
2.43.0


From 8562c20c488954256357a941e90f433f4e95dbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:02 +0000
Subject: [PATCH 34/41] fix: corners keep the constraints of both their sides

---
 src/mesher/bounds.rs | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/mesher/bounds.rs b/src/mesher/bounds.rs
index bf5cb88..e73825b 100644
--- a/src/mesher/bounds.rs
+++ b/src/mesher/bounds.rs
@@ -154,7 +154,7 @@ pub struct PlaneBoundary {
     // also store some BC / material information
     condition: Option<Condition>,
     material: Option<Material>,
-    constraints: HashMap<Vertex, Constraint>,
+    constraints: HashMap<Vertex, Vec<Constraint>>,
     distributed_forces: HashMap<Segment, Point>,
     distributed_constraints: HashMap<Segment, Constraint>,
 }
@@ -246,7 +246,11 @@ impl PlaneBoundary {
     }
 
     pub fn store_constraint(&mut self, v: Vertex, c: Constraint) {
-        self.constraints.insert(v, c);
+        // a vertex may have several constraints, all of them hold
+        let cons = self.constraints.entry(v).or_insert_with(Vec::new);
+        if !cons.contains(&c) {
+            cons.push(c);
+        }
     }
 
     pub fn store_distributed_force(&mut self, v: Vertex, w: Vertex, f: Point) {
@@ -436,7 +440,7 @@ impl PlaneBoundary {
 
                 // distributed constraints are just bookkeeping
                 // they mark segments where new points should have cosntraints
-                self.constraints.insert(new_point_id, c);
+                self.store_constraint(new_point_id, c);
             }
 
             cur = new_point_id;
@@ -444,8 +448,8 @@ impl PlaneBoundary {
         }
 
         if let Some(c) = dist_c {
-            self.constraints.insert(start, c);
-            self.constraints.insert(end, c);
+            self.store_constraint(start, c);
+            self.store_constraint(end, c);
         }
 
         self.store_segment_unchecked((cur, end));
@@ -520,18 +524,22 @@ impl PlaneBoundary {
     pub fn all_constraints(&self) -> Vec<(Vertex, Constraint)> {
         // include the vertices of distributed constraints
 
-        let mut res: HashMap<Vertex, Constraint> = HashMap::new();
+        // vertices with several constraints appear once for each of them
 
-        for (v, c) in self.constraints.iter() {
-            res.insert(*v, *c);
-        }
+        let mut res: HashMap<Vertex, Vec<Constraint>> = self.constraints.clone();
 
         for (s, c) in self.distributed_constraints.iter() {
-            res.insert(s.0, *c);
-            res.insert(s.1, *c); // will just overwrite any duplicates
+            for v in [s.0, s.1].iter() {
+                let cons = res.entry(*v).or_insert_with(Vec::new);
+                if !cons.contains(c) {
+                    cons.push(*c);
+                }
+            }
         }
 
-        res.into_iter().collect()
+        res.into_iter()
+            .flat_map(|(v, cons)| cons.into_iter().map(move |c| (v, c)))
+            .collect()
     }
 
     pub fn visualize(&self) -> Visualizer {
-- 
2.43.0


From 11aba2798b3bf7021d5fdfa50c8afc190f0736b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:17 +0000
Subject: [PATCH 35/41] fix: the last piece of a divided side keeps its
 constraint

---
 src/mesher/bounds.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesher/bounds.rs b/src/mesher/bounds.rs
index e73825b..4337612 100644
--- a/src/mesher/bounds.rs
+++ b/src/mesher/bounds.rs
@@ -448,6 +448,7 @@ impl PlaneBoundary {
         }
 
         if let Some(c) = dist_c {
+            self.distributed_constraints.insert((cur, end).into(), c);
             self.store_constraint(start, c);
             self.store_constraint(end, c);
         }
-- 
2.43.0


From 4efdfbd72600b274ca29e4dcc52b08f57abff6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:23 +0000
Subject: [PATCH 36/41] fix: a boundary without a condition is reported instead
 of ending the program

---
 src/mesher/plane.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mesher/plane.rs b/src/mesher/plane.rs
index 8b0cd53..c02c554 100644
--- a/src/mesher/plane.rs
+++ b/src/mesher/plane.rs
@@ -574,7 +574,12 @@ impl PlaneTriangulation {
     pub fn assemble(self) -> Result<ElementAssemblage, &'static str> {
         let mat = self.bound.material().ok_or("missing material definition")?;
 
-        let mut res = ElementAssemblage::new(mat, self.bound.condition().unwrap());
+        let condition = self
+            .bound
+            .condition()
+            .ok_or("missing condition definition")?;
+
+        let mut res = ElementAssemblage::new(mat, condition);
 
         // build vertex list and translation to elas node ids
         let vertex_list: Vec<(f64, f64)>;
-- 
2.43.0


From 72d65fb26e151eb674fe24d33371824ada7cba21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:42 +0000
Subject: [PATCH 37/41] fix: angles and thicknesses that are not finite are
 refused

---
 src/element/constraint.rs | 8 ++++----
 src/file/bmsh.rs          | 7 ++++---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/element/constraint.rs b/src/element/constraint.rs
index 0af8249..f6e75cc 100644
--- a/src/element/constraint.rs
+++ b/src/element/constraint.rs
@@ -44,10 +44,10 @@ impl FromStr for Constraint {
             "xy" => Ok(Constraint::XYFixed),
             other => {
                 if other.starts_with("angle:") {
-                    other[6..]
-                        .parse::<f64>()
-                        .map(|x| Constraint::AngleFixed(x))
-                        .map_err(|_| ())
+                    match other[6..].parse::<f64>() {
+                        Ok(x) if x.is_finite() => Ok(Constraint::AngleFixed(x)),
+                        _ => Err(()),
+                    }
                 } else {
                     Err(())
                 }
diff --git a/src/file/bmsh.rs b/src/file/bmsh.rs
index 7c64e03..3e818c8 100644
--- a/src/file/bmsh.rs
+++ b/src/file/bmsh.rs
@@ -181,7 +181,7 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
         branch::alt,
         bytes::complete::tag,
         character::complete::{self, alphanumeric1, not_line_ending},
-        combinator::{map, map_res},
+        combinator::{map, map_res, verify},
         multi::separated_list0,
         number::complete::double,
         sequence::{preceded, separated_pair, terminated, tuple},
@@ -206,11 +206,12 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
         map_res(alphanumeric1, |m: &str| m.parse::<Material>()),
     );
 
+    let thickness = || verify(double, |t: &f64| t.is_finite());
     let condition_parser = alt((
-        map(preceded(tag("planestrain "), double), |t: f64| {
+        map(preceded(tag("planestrain "), thickness()), |t: f64| {
             Condition::PlaneStrain(t)
         }),
-        map(preceded(tag("planestress "), double), |t: f64| {
+        map(preceded(tag("planestress "), thickness()), |t: f64| {
             Condition::PlaneStress(t)
         }),
         map(tag("axisymmetric"), |_| Condition::Axisymmetric),
-- 
2.43.0


From 94ce2acd77251b2d9135e84dff494dfc92e54757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:14 +0000
Subject: [PATCH 38/41] fix: element sizes that are not positive are refused

---
 src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 140e1db..bb15a87 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -157,6 +157,9 @@ fn mesh<'a>(args: &clap::ArgMatches<'a>) -> Result<(), BugiError> {
         .unwrap()
         .parse::<f64>()
         .or(Err(BugiError::arg_error("could not parse element size")))?;
+    if !(size > 0.0) {
+        return Err(BugiError::arg_error("element size must be positive"));
+    }
 
     eprintln!("meshing ...");
     match args.value_of("mesher") {
-- 
2.43.0


From 05dd71c49f4b359c09320feacc48ec3d72f83819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:39 +0000
Subject: [PATCH 39/41] fix: text after the last section of a mesh file is
 refused

---
 src/file/bmsh.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/file/bmsh.rs b/src/file/bmsh.rs
index 3e818c8..dc8415b 100644
--- a/src/file/bmsh.rs
+++ b/src/file/bmsh.rs
@@ -270,7 +270,7 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
         )),
     )(input)?;
 
-    let (_input, dist_forces): (_, Vec<(usize, usize, Point)>) = section_parse(
+    let (input, dist_forces): (_, Vec<(usize, usize, Point)>) = section_parse(
         "DistForces",
         free_list(tuple((
             terminated(map(complete::u64, |x| x as usize), tag(" ")),
@@ -279,6 +279,10 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
         ))),
     )(input)?;
 
+    if !input.trim().is_empty() {
+        return Err(FileError::parse("unexpected text after the last section"));
+    }
+
     // done with parsing, time to assemble the output
     let mut elas = header.into_elas();
 
-- 
2.43.0


From 6968c7cc2a07743c456c038e4b61fb2fea3f5235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:27 +0000
Subject: [PATCH 40/41] fix: Ruppert's mesher ended in a panic where part of a
 side was encroached by a vertex its middle is hidden from

---
 src/mesher/plane.rs | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/mesher/plane.rs b/src/mesher/plane.rs
index c02c554..23ba0d7 100644
--- a/src/mesher/plane.rs
+++ b/src/mesher/plane.rs
@@ -464,20 +464,19 @@ impl PlaneTriangulation {
         mut to_split: Vec<Segment>,
         recursive: bool,
     ) -> Vec<Vertex> {
-        // split the provided segments while their children are still encroached
-        // if recursive flag is set, split the children too
+        // split the provided segments while their children are still encroached by stored vertices
+        // if recursive flag is set, split the children encroached by p too
         // return the newly generated vertices
         let mut res = Vec::new();
 
         while let Some(s) = to_split.pop() {
             let (child_a, child_b, new_v) = self.ruppert_split_segment(s);
 
-            if recursive {
-                if self.ruppert_encroaches(p, child_a) {
-                    to_split.push(child_a);
-                }
-                if self.ruppert_encroaches(p, child_b) {
-                    to_split.push(child_b);
+            // vertices the middle of s was hidden from may encroach on its children
+            for &child in [child_a, child_b].iter() {
+                if (recursive && self.ruppert_encroaches(p, child)) || self.ruppert_encroached(child)
+                {
+                    to_split.push(child);
                 }
             }
 
@@ -502,6 +501,21 @@ impl PlaneTriangulation {
         }
     }
 
+    fn ruppert_encroached(&self, s: Segment) -> bool {
+        // whether any stored vertex encroaches on s
+        self.all_vertices().any(|&v| self.ruppert_encroaches(v, s))
+    }
+
+    fn ruppert_split_encroached(&mut self, mut to_check: Vec<Vertex>) {
+        // split segments until none is encroached by the given vertices or by those created here
+        while let Some(v) = to_check.pop() {
+            if let Some(segs) = self.segments_encroached_by(v) {
+                let new_vs = self.ruppert_split_many(v, segs, true);
+                to_check.extend(new_vs);
+            }
+        }
+    }
+
     pub fn ruppert_mesh(&mut self, max_size: f64) {
         eprintln!("beginning ruppert mesh generation ...");
         eprint!("triangulating initial boundary ... ");
@@ -512,13 +526,8 @@ impl PlaneTriangulation {
         // first, split all the walls that are already encroached by boundary vertices
         eprint!("splitting walls ... ");
         let ti = Instant::now();
-        let mut to_check: Vec<Vertex> = self.bound.all_vertices().copied().collect();
-        while let Some(v) = to_check.pop() {
-            if let Some(segs) = self.segments_encroached_by(v) {
-                let new_vs = self.ruppert_split_many(v, segs, true);
-                to_check.extend(new_vs);
-            }
-        }
+        let to_check: Vec<Vertex> = self.bound.all_vertices().copied().collect();
+        self.ruppert_split_encroached(to_check);
         eprintln!("done in {}ms", ti.elapsed().as_millis());
 
         eprint!("refining mesh ... ");
@@ -530,7 +539,8 @@ impl PlaneTriangulation {
             let center = Vertex::new(center); // ok to do this outside of storage
 
             if let Some(segs) = self.segments_encroached_by(center) {
-                self.ruppert_split_many(center, segs, false);
+                let new_vs = self.ruppert_split_many(center, segs, false);
+                self.ruppert_split_encroached(new_vs);
             } else {
                 let center_id = self.store_vertex(center.get()); // this'll spin a new id, but that doesn't matter
                 self.bowyer_watson_insert(center_id, tri);
-- 
2.43.0


From 88c88f365ee90b48f3b182f344f9fd884e238b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:44 +0000
Subject: [PATCH 41/41] fix: the midpoint of points of different dimension has
 no coordinates beyond its own

---
 src/spatial/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/spatial/mod.rs b/src/spatial/mod.rs
index 251bf8a..8b97118 100644
--- a/src/spatial/mod.rs
+++ b/src/spatial/mod.rs
@@ -53,12 +53,12 @@ impl Point {
 
     pub fn mid(&self, other: Point) -> Point {
         // find the midpoint between two points
-        let data = [
-            (self.data[0] + other.data[0]) / 2.0,
-            (self.data[1] + other.data[1]) / 2.0,
-            (self.data[2] + other.data[2]) / 2.0,
-        ];
+        // (coordinates beyond the smaller dimension stay zero)
         let n = min(self.n, other.n);
+        let mut data = [0.0; 3];
+        for i in 0..n {
+            data[i] = (self.data[i] + other.data[i]) / 2.0;
+        }
         Point { n, data }
     }
 
-- 
2.43.0

