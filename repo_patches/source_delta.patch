From 6d8d11eea83a46443767fd26efed38daa6c739c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:21 +0000
Subject: [PATCH 01/22] fix: report a positive cell volume for left-handed
 lattices

The determinant is negative when the lattice vectors form a left-handed set.
A negative volume turned the Niggli and lattice character tolerances into NaN,
so such cells were returned unreduced.
---
 src/structure.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structure.rs b/src/structure.rs
index 7d765df..d15f540 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -121,7 +121,7 @@ impl Structure {
 
     /// Volume of the unit cell in angstroms
     pub fn volume(&self) -> f64 {
-        self.lattice.determinant()
+        self.lattice.determinant().abs()
     }
 
     /// Metric tensor of lattice matrix
-- 
2.43.0


From 8b478fc187474b7653d0352139bc90f3affe69c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:21 +0000
Subject: [PATCH 02/22] fix: compare transformed sites in the transformed
 lattice

Fractional differences between sites of the new cell were converted to
distances with the old lattice.  Distinct sites of a long supercell then
looked identical, and the site search never reached the expected count.
---
 src/structure.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/structure.rs b/src/structure.rs
index d15f540..b66c3a5 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -139,12 +139,6 @@ impl Structure {
     /// * `transformation_matrix` - A 3x3 matrix representing the transformation.
     /// * `pos_tol` - Position tolerance in angstroms to use when comparing atomic sites.
     pub fn apply_transformation(&mut self, transformation_matrix: &Matrix3<f64>, pos_tol: &f64) {
-        let frac_tols = Vector3::from_iterator(
-            self.lattice
-                .column_iter()
-                .map(|col| pos_tol / col.magnitude()),
-        );
-
         let mut inv_trans_mat: Matrix3<f64> = Matrix3::identity();
 
         let inverted = try_invert_to(*transformation_matrix, &mut inv_trans_mat);
@@ -155,6 +149,12 @@ impl Structure {
 
         let new_lattice = self.lattice * transformation_matrix;
 
+        let frac_tols = Vector3::from_iterator(
+            new_lattice
+                .column_iter()
+                .map(|col| pos_tol / col.magnitude()),
+        );
+
         let mut new_frac_coords: Vec<Vector3<f64>> = Vec::new();
         let mut new_species: Vec<String> = Vec::new();
 
@@ -179,7 +179,7 @@ impl Structure {
                     for new_coord in new_frac_coords.iter() {
                         let mut coord_diff = vec![frac_coord - new_coord];
                         normalize_frac_vectors(&mut coord_diff, &frac_tols);
-                        let cart_coord_delta = Self::get_cart_coords(&self.lattice, &coord_diff);
+                        let cart_coord_delta = Self::get_cart_coords(&new_lattice, &coord_diff);
 
                         if cart_coord_delta[0].magnitude().abs() <= (pos_tol * 2.0) {
                             eq = true;
-- 
2.43.0


From 2276d4e7440714059fb9ec0531796ff78603fb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:21 +0000
Subject: [PATCH 03/22] fix: count sites in formulas without overflowing

The per-element tally was an 8-bit integer and overflowed for more than 127
sites of one element.
---
 src/structure.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/structure.rs b/src/structure.rs
index b66c3a5..2c3fe0b 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -333,7 +333,7 @@ impl Structure {
 
     /// Formula and reduced formula of the structure.
     pub fn formulas(&self) -> (String, String) {
-        let mut species_tally = HashMap::<&String, i8>::new();
+        let mut species_tally = HashMap::<&String, usize>::new();
 
         let mut max_count = 0;
 
@@ -345,7 +345,7 @@ impl Structure {
                 max_count = *count;
             }
         }
-        let mut gcf: i8 = 1;
+        let mut gcf: usize = 1;
 
         for div in 2..(max_count + 1) {
             if species_tally.values().all(|&tally| (tally % div) == 0) {
-- 
2.43.0


From fb11962c684693ab8b41cfb6deedaf3c76cd0998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:42 +0000
Subject: [PATCH 04/22] fix: report an unfinished Delaunay reduction

The loop could stop after 101 steps and silently return an unreduced cell,
while a reduction that finished in exactly 100 steps panicked.  Decide by the
scalar products instead of the step count.
---
 src/reduce.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reduce.rs b/src/reduce.rs
index e6aff14..896cf87 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -426,7 +426,7 @@ impl Reducer {
         let mut count = 0;
 
         // Iterate until all scalar prods are <= zero
-        while scalar_prods.iter().any(|val| val > &ZERO_TOL) && count <= 100 {
+        while scalar_prods.iter().any(|val| val > &ZERO_TOL) && count < 100 {
             let mut max_scalar_prod = &0.0;
             let mut max_index = 0_usize;
             for (i, entry) in scalar_prods.iter().enumerate() {
@@ -455,7 +455,7 @@ impl Reducer {
             count += 1;
         }
 
-        if count == 100 {
+        if scalar_prods.iter().any(|val| val > &ZERO_TOL) {
             panic!("Reached max number of iterations without reduction!")
         }
 
-- 
2.43.0


From f10bd09269b73c18053c1950f82921a3f3f4a808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:42 +0000
Subject: [PATCH 05/22] fix: classify the hR Bravais type as rhombohedral

The seven rhombohedral space groups are tabulated under the rhombohedral
lattice system, so none of them could be identified.
---
 src/data/core.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/core.rs b/src/data/core.rs
index 9f38019..b83675d 100644
--- a/src/data/core.rs
+++ b/src/data/core.rs
@@ -127,6 +127,10 @@ impl BravaisType {
     }
 
     pub fn lattice_system(&self) -> LatticeSystem {
+        if self == &BravaisType::hR {
+            return LatticeSystem::Rhombohedral;
+        }
+
         let system: String = self.to_string().chars().next().unwrap().to_string();
 
         LatticeSystem::from_str(&system).expect("Problem determining lattice system.")
-- 
2.43.0


From de71c78bc90fa8a61fbc8a82e54aad7c844220c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:20 +0000
Subject: [PATCH 06/22] fix: correct the symbols of space groups 19 and 24

The last screw axis was written without its subscript separator.
---
 src/data/spacegroup.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/spacegroup.rs b/src/data/spacegroup.rs
index 3877fdc..1e8a9bf 100644
--- a/src/data/spacegroup.rs
+++ b/src/data/spacegroup.rs
@@ -24,12 +24,12 @@ lazy_static! {
             (16, "P222"),
             (17, "P222_1"),
             (18, "P2_12_12"),
-            (19, "P2_12_121"),
+            (19, "P2_12_12_1"),
             (20, "C222_1"),
             (21, "C222"),
             (22, "F222"),
             (23, "I222"),
-            (24, "I2_12_121"),
+            (24, "I2_12_12_1"),
             (25, "Pmm2"),
             (26, "Pmc2_1"),
             (27, "Pcc2"),
-- 
2.43.0


From 47cb66bdb4b8ca6d78efcdfa600e367c91b572b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:20 +0000
Subject: [PATCH 07/22] fix: compose operations when generating a space group

The product used for the closure is not a composition when the rotation
parts do not commute.  Groups with such generators gained operations that
are not symmetries, and many space groups could not be identified.
---
 src/spacegroup.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spacegroup.rs b/src/spacegroup.rs
index e77a627..2e02263 100644
--- a/src/spacegroup.rs
+++ b/src/spacegroup.rs
@@ -139,7 +139,11 @@ impl SpaceGroup {
             let mut generated: Vec<SymmOp> = Vec::new();
 
             for (m1, m2) in iproduct!(symm_ops.clone(), new_ops) {
-                let mut op = m1 * m2;
+                // Composition of operations `{ R1*R2 | R1*t2 + t1 }`
+                let mut op = SymmOp {
+                    rotation: m1.rotation * m2.rotation,
+                    translation: m1.rotation.cast::<f64>() * m2.translation + m1.translation,
+                };
 
                 if !(symm_ops
                     .iter()
-- 
2.43.0


From 3a4d16543da5670f3c287eb6dbe0851a956b05da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:10 +0000
Subject: [PATCH 08/22] fix: drop exactly the operations a transformed cell
 does not keep

An operation was kept when any entry of its new rotation matrix was 0 or 1.
Non-integer rotations were therefore rounded into wrong operations, and valid
ones with only larger entries were lost.  The running count was also reduced
again on every pass of the search.
---
 src/spacegroup.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/spacegroup.rs b/src/spacegroup.rs
index 2e02263..287dcd9 100644
--- a/src/spacegroup.rs
+++ b/src/spacegroup.rs
@@ -57,7 +57,14 @@ impl SpaceGroup {
         // Set up found vector mapping
         let mut found_vectors_mapping: HashMap<Matrix3<i8>, Vec<Vector3<f64>>> = HashMap::new();
 
-        let mut initial_num_ops = self.operations.len() as f64;
+        // Operations with non-integer rotation matrices are not symmetries of the new cell
+        let is_integer = |op: &SymmOp| {
+            (inv_trans_mat * op.rotation.cast::<f64>() * transformation_matrix)
+                .iter()
+                .all(|val| (val - val.round()).abs() < 1e3 * ZERO_TOL)
+        };
+
+        let initial_num_ops = self.operations.iter().filter(|op| is_integer(op)).count() as f64;
 
         let mut mult = 2;
         while (new_operations.len() as f64 / initial_num_ops) < volume_ratio {
@@ -74,11 +81,7 @@ impl SpaceGroup {
                 float_rot = inv_trans_mat * float_rot * transformation_matrix;
 
                 // Throw out non-integer rotation matrices
-                if !float_rot
-                    .iter()
-                    .any(|val| (val.abs() < ZERO_TOL) || ((val.abs() - 1.0).abs() < ZERO_TOL))
-                {
-                    initial_num_ops -= 1.0;
+                if !is_integer(op) {
                     continue;
                 }
 
-- 
2.43.0


From 016da52a60c45d54d2dec88dfa5e590cfb15b158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:10 +0000
Subject: [PATCH 09/22] fix: compare translations with the tolerance of the
 input cell

The operations are moved into the input basis, but their translations were
compared with the tolerance of the primitive cell.  In a long supercell
distinct translations looked equal and the search never finished.
---
 src/analyzer.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/analyzer.rs b/src/analyzer.rs
index 9cb31b5..993d8da 100644
--- a/src/analyzer.rs
+++ b/src/analyzer.rs
@@ -79,7 +79,14 @@ impl SymmetryAnalyzer {
         let total_transformation =
             inv_prim_trans_mat * inv_conv_trans_mat * niggli_trans_mat * initial_trans_mat;
 
-        sg.apply_transformation(&total_transformation, &frac_tols);
+        let input_frac_tols = Vector3::from_iterator(
+            structure
+                .lattice
+                .column_iter()
+                .map(|col| self.dtol / col.magnitude()),
+        );
+
+        sg.apply_transformation(&total_transformation, &input_frac_tols);
 
         (int_num, sg_symbol, sg)
     }
-- 
2.43.0


From 6e2879cac5c6fb7c900367a3d241dd552ca4f921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:25 +0000
Subject: [PATCH 10/22] fix: accept left-handed vector triples in the primitive
 cell search

Only vectors on the right-handed side of the first two were considered, and
a coplanar vector was used when there was none.  The primitive cell was then
singular.  Flip the third vector instead.
---
 src/reduce.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/reduce.rs b/src/reduce.rs
index 896cf87..b4877f1 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -527,13 +527,19 @@ impl Reducer {
         }
 
         for (vec_num, cart_vec) in cart_vecs[(second_ind + 1)..].iter().enumerate() {
-            if cross_vec.dot(cart_vec) > self.dtol {
+            if cross_vec.dot(cart_vec).abs() > self.dtol {
                 third_ind = vec_num + second_ind + 1;
                 break;
             }
         }
 
-        let final_vecs = vec![cart_vecs[0], cart_vecs[second_ind], cart_vecs[third_ind]];
+        let mut third = cart_vecs[third_ind];
+
+        if cross_vec.dot(&third) < 0.0 {
+            third *= -1.0;
+        }
+
+        let final_vecs = vec![cart_vecs[0], cart_vecs[second_ind], third];
 
         final_vecs
     }
-- 
2.43.0


From 0fc290af3e80fdfe68b01a22467bdaac5bcd984d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:25 +0000
Subject: [PATCH 11/22] fix: make the primitive cell span every translation

The three shortest candidate vectors do not always generate all translations
that were found, for example for a body centre in an acute cell.  The result
was then not primitive.
---
 src/reduce.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/reduce.rs b/src/reduce.rs
index b4877f1..240195a 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -118,7 +118,30 @@ impl Reducer {
         let mut cart_translation_vecs: Vec<Vector3<f64>> =
             Structure::get_cart_coords(&temp_structure.lattice, &translation_vecs);
 
-        let frac_translation_vecs = self.get_shortest_translation_vecs(&mut cart_translation_vecs);
+        let mut frac_translation_vecs =
+            self.get_shortest_translation_vecs(&mut cart_translation_vecs);
+
+        // Swap in the remainder of any translation that is not an integer combination of the three
+        // vectors. Each swap at least halves the cell volume.
+        let mut spanning = false;
+
+        while !spanning {
+            spanning = true;
+
+            for cart_vec in cart_translation_vecs.iter() {
+                let basis = Matrix3::from_columns(&frac_translation_vecs);
+
+                let mut remainder = Structure::get_frac_coords(&basis, &[*cart_vec])[0];
+                remainder -= remainder.map(|val| val.round());
+
+                let cart_remainder = basis * remainder;
+
+                if cart_remainder.magnitude() > (2.0 * self.dtol) {
+                    frac_translation_vecs[remainder.iamax()] = cart_remainder;
+                    spanning = false;
+                }
+            }
+        }
 
         //
         // 5.) Add combinations of shortest vectors
-- 
2.43.0


From 788b7eee4b918f1a42407ccff98a2c7a13bc3b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:25 +0000
Subject: [PATCH 12/22] fix: compare folded sites in the primitive lattice

Fractional differences in the primitive cell were converted to distances with
the input lattice, so equivalent sites with small position errors were kept
as separate atoms.
---
 src/reduce.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/reduce.rs b/src/reduce.rs
index 240195a..e40a35a 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -194,6 +194,12 @@ impl Reducer {
 
         let new_lattice = Matrix3::from_columns(&final_cart_vecs);
 
+        let frac_tols = Vector3::from_iterator(
+            new_lattice
+                .column_iter()
+                .map(|col| self.dtol / col.magnitude()),
+        );
+
         let temp_frac_coords = Structure::get_frac_coords(&new_lattice, &temp_structure.coords);
 
         let mut new_frac_coords: Vec<Vector3<f64>> = Vec::new();
@@ -205,8 +211,7 @@ impl Reducer {
             for new_coord in new_frac_coords.iter() {
                 let mut coord_diff = vec![coord - new_coord];
                 normalize_frac_vectors(&mut coord_diff, &frac_tols);
-                let cart_coord_delta =
-                    Structure::get_cart_coords(&temp_structure.lattice, &coord_diff);
+                let cart_coord_delta = Structure::get_cart_coords(&new_lattice, &coord_diff);
 
                 if cart_coord_delta[0].magnitude().abs() <= (self.dtol * 2.0) {
                     eq = true;
-- 
2.43.0


From 95552f55789a27d7dc51aed7f419232c5370eaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:58 +0000
Subject: [PATCH 13/22] fix: classify lattices with accidentally equal axis
 lengths

When two or three reduced axes had the same length, only the lattice
characters that require this were tried.  A lattice that needs a more general
character ended in a panic.
---
 src/analyzer.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/analyzer.rs b/src/analyzer.rs
index 993d8da..34bfc5c 100644
--- a/src/analyzer.rs
+++ b/src/analyzer.rs
@@ -391,17 +391,19 @@ impl SymmetryAnalyzer {
 
         let mut char_num = 0;
 
-        let vecs: Vec<(Vector3<f64>, u8)>;
+        // A set with fewer conditions also applies if none of the more special ones matches
+        let mut vecs: Vec<(Vector3<f64>, u8)> = Vec::new();
 
         if cust_eq(&a, &b, &epsilon) && cust_eq(&a, &c, &epsilon) {
-            vecs = Self::get_first_set(type_i, a, b, d, e, f, epsilon);
-        } else if cust_eq(&a, &b, &epsilon) {
-            vecs = Self::get_second_set(type_i, a, b, d, e, f, epsilon);
-        } else if cust_eq(&b, &c, &epsilon) {
-            vecs = Self::get_third_set(type_i, a, b, d, e, f, epsilon);
-        } else {
-            vecs = Self::get_fourth_set(type_i, a, b, d, e, f);
+            vecs.extend(Self::get_first_set(type_i, a, b, d, e, f, epsilon));
+        }
+        if cust_eq(&a, &b, &epsilon) {
+            vecs.extend(Self::get_second_set(type_i, a, b, d, e, f, epsilon));
+        }
+        if cust_eq(&b, &c, &epsilon) {
+            vecs.extend(Self::get_third_set(type_i, a, b, d, e, f, epsilon));
         }
+        vecs.extend(Self::get_fourth_set(type_i, a, b, d, e, f));
 
         for (vec, num) in vecs {
             if vec
-- 
2.43.0


From 2779a0769f33571a23d0f0491b6edd231867e916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:01 +0000
Subject: [PATCH 14/22] fix: recover an accurate inverse for lattices where the
 SVD fails

The singular value decomposition behind the pseudo inverse is wrong by up to
several percent for some cells, mostly ones with a right angle. Atoms moved by
that amount whenever coordinates were converted. The result is now checked and
replaced by the direct inverse if it is inaccurate.
---
 src/structure.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/structure.rs b/src/structure.rs
index 2c3fe0b..55c2fee 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -281,9 +281,7 @@ impl Structure {
         lattice: &Matrix3<f64>,
         cart_coords: &[Vector3<f64>],
     ) -> Vec<Vector3<f64>> {
-        let inverted_lattice = (*lattice)
-            .pseudo_inverse(ZERO_TOL)
-            .expect("Crystal lattice is not invertible!");
+        let inverted_lattice = Self::invert_lattice(lattice);
 
         let mut new_coords = cart_coords.to_owned();
 
@@ -293,6 +291,21 @@ impl Structure {
         new_coords
     }
 
+    fn invert_lattice(lattice: &Matrix3<f64>) -> Matrix3<f64> {
+        let inverse: Matrix3<f64> = (*lattice)
+            .pseudo_inverse(ZERO_TOL)
+            .expect("Crystal lattice is not invertible!");
+
+        // The decomposition behind the pseudo inverse is inaccurate for some lattices
+        if (inverse * lattice - Matrix3::identity()).amax() > 1e-3 * ZERO_TOL {
+            return (*lattice)
+                .try_inverse()
+                .expect("Crystal lattice is not invertible!");
+        }
+
+        inverse
+    }
+
     /// Reciprocal lattice of the structure
     pub fn reciprocal_lattice(&self) -> Matrix3<f64> {
         let mut reciprocal_lattice = Matrix3::identity();
@@ -383,10 +396,7 @@ impl Structure {
     ///
     /// * `structure` - A transformed structure
     pub fn get_transformation_matrix(&self, structure: &Structure) -> Matrix3<f64> {
-        let inv_lattice: Matrix3<f64> = self
-            .lattice
-            .pseudo_inverse(ZERO_TOL)
-            .expect("Crystal lattice is not invertible!");
+        let inv_lattice: Matrix3<f64> = Self::invert_lattice(&self.lattice);
 
         inv_lattice * structure.lattice
     }
-- 
2.43.0


From eaeb9da61e24b4a8187478aa9493923b7d7490d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:48 +0000
Subject: [PATCH 15/22] fix: stop transformations into smaller cells from
 looping forever

The volume ratio was rounded to two decimals before it was compared with the
number of sites or operations found. Ratios such as 1/6 were rounded up to a
count that can never be reached. The expected count itself is rounded instead.
---
 src/spacegroup.rs | 8 ++++++--
 src/structure.rs  | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/spacegroup.rs b/src/spacegroup.rs
index 287dcd9..3f2db2a 100644
--- a/src/spacegroup.rs
+++ b/src/spacegroup.rs
@@ -50,7 +50,7 @@ impl SpaceGroup {
 
         // Find extra unit translations included in new cell if it is bigger
 
-        let volume_ratio = (transformation_matrix.determinant().abs() * 100.0).round() / 100.0;
+        let volume_ratio = transformation_matrix.determinant().abs();
 
         let mut new_operations: Vec<SymmOp> = Vec::new();
 
@@ -66,8 +66,12 @@ impl SpaceGroup {
 
         let initial_num_ops = self.operations.iter().filter(|op| is_integer(op)).count() as f64;
 
+        let num_new_ops = (volume_ratio * initial_num_ops)
+            .round()
+            .max(initial_num_ops.min(1.0));
+
         let mut mult = 2;
-        while (new_operations.len() as f64 / initial_num_ops) < volume_ratio {
+        while (new_operations.len() as f64) < num_new_ops {
             let mut translation_vecs: Vec<Vector3<f64>> = Vec::new();
 
             // Generate unit translation vectors
diff --git a/src/structure.rs b/src/structure.rs
index 55c2fee..c581c36 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -158,11 +158,15 @@ impl Structure {
         let mut new_frac_coords: Vec<Vector3<f64>> = Vec::new();
         let mut new_species: Vec<String> = Vec::new();
 
-        let volume_ratio = (transformation_matrix.determinant().abs() * 100.0).round() / 100.0;
+        let volume_ratio = transformation_matrix.determinant().abs();
+        let initial_num_sites = self.coords.len() as f64;
+        let num_new_sites = (volume_ratio * initial_num_sites)
+            .round()
+            .max(initial_num_sites.min(1.0));
 
         // Search for new sites in transformed cell using volume ratio to determine proper number of sites
         let mut mult = 2;
-        while (new_frac_coords.len() as f64 / self.coords.len() as f64) < volume_ratio {
+        while (new_frac_coords.len() as f64) < num_new_sites {
             let mut translation_vecs: Vec<Vector3<f64>> = Vec::new();
 
             for (i, j, k) in iproduct!(0..mult, 0..mult, 0..mult) {
-- 
2.43.0


From 83d282dc48c639813470580852b2dfc0c14feb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:07 +0000
Subject: [PATCH 16/22] fix: remove position errors from the translations of
 the primitive cell

Translations were taken from the difference of two sites. Errors far below the
distance tolerance could make parallel vectors look independent, and the search
ended in a singular cell. Translations are now rounded to the exact fraction
that follows from their number.
---
 src/reduce.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/reduce.rs b/src/reduce.rs
index e40a35a..734341a 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -111,6 +111,19 @@ impl Reducer {
             }
         }
 
+        // The translations form a group, so its order times any of them is a lattice vector.
+        // Use this to remove position errors from the translations.
+        let num_translations = (translation_vecs.len() - 2) as f64;
+
+        for vec in translation_vecs.iter_mut() {
+            let exact_vec = (*vec * num_translations).map(|val| val.round()) / num_translations;
+            let cart_error = temp_structure.lattice * (exact_vec - *vec);
+
+            if cart_error.magnitude() <= (2.0 * self.dtol) {
+                *vec = exact_vec;
+            }
+        }
+
         //
         // 3.) Sort potential vectors from smallest to largest and find three which span the lattice
         //
-- 
2.43.0


From a0a217daeabe2c403aba9fe8aa8d3f9f27baec9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:31 +0000
Subject: [PATCH 17/22] fix: give up on operations that do not close within
 tolerance

Operations of a nearly symmetric crystal hold only approximately. Their products
drift, and generating the group did not end in practice. The analysis now stops
as soon as there are more operations than a point group can have.
---
 src/analyzer.rs   |  3 ++-
 src/spacegroup.rs | 33 ++++++++++++++++++++++++++++++---
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/analyzer.rs b/src/analyzer.rs
index 34bfc5c..f916e59 100644
--- a/src/analyzer.rs
+++ b/src/analyzer.rs
@@ -57,7 +57,8 @@ impl SymmetryAnalyzer {
                 .map(|col| self.dtol / col.magnitude()),
         );
 
-        let mut sg = SpaceGroup::from_generators(&sg_generators, &frac_tols);
+        let mut sg = SpaceGroup::from_primitive_generators(&sg_generators, &frac_tols)
+            .expect("Operations do not form a space group within tolerance!");
         let (int_num, sg_symbol) = SymmetryAnalyzer::identify_space_group(
             &sg,
             &bravais_symbol.lattice_system(),
diff --git a/src/spacegroup.rs b/src/spacegroup.rs
index 3f2db2a..5688ed5 100644
--- a/src/spacegroup.rs
+++ b/src/spacegroup.rs
@@ -20,13 +20,32 @@ impl SpaceGroup {
     ///
     /// * `generators` - List of generator symmetry operations
     pub fn from_generators(generators: &[SymmOp], frac_tols: &Vector3<f64>) -> Self {
-        let symm_ops = Self::ops_from_generators(generators, frac_tols);
+        let symm_ops = Self::ops_from_generators(generators, frac_tols, usize::MAX)
+            .expect("Number of operations exceeds the maximum!");
 
         Self {
             operations: symm_ops,
         }
     }
 
+    /// Constructs a space group from a list of generators in a primitive basis. Outputs `None` if
+    /// there are more operations than any point group has, i.e. they only hold approximately
+    /// and do not close within tolerance.
+    ///
+    /// # Arguments
+    ///
+    /// * `generators` - List of generator symmetry operations
+    pub(crate) fn from_primitive_generators(
+        generators: &[SymmOp],
+        frac_tols: &Vector3<f64>,
+    ) -> Option<Self> {
+        let symm_ops = Self::ops_from_generators(generators, frac_tols, 48)?;
+
+        Some(Self {
+            operations: symm_ops,
+        })
+    }
+
     /// Transform symmetry operations `{R|t} -> {R'|t'}` according to `T^-1 R T = R'` and `T^-1 t = t'`.
     ///
     /// If a transformation results in a larger periodic cell, new operations will be searched for and added.
@@ -139,7 +158,11 @@ impl SpaceGroup {
         self.operations = new_operations;
     }
 
-    fn ops_from_generators(generators: &[SymmOp], frac_tols: &Vector3<f64>) -> Vec<SymmOp> {
+    fn ops_from_generators(
+        generators: &[SymmOp],
+        frac_tols: &Vector3<f64>,
+        max_num_ops: usize,
+    ) -> Option<Vec<SymmOp>> {
         let mut symm_ops: Vec<SymmOp> = generators.to_vec();
         let mut new_ops: Vec<SymmOp> = generators.to_vec();
         while !new_ops.is_empty() {
@@ -159,12 +182,16 @@ impl SpaceGroup {
                     op.normalize(frac_tols);
                     symm_ops.push(op.clone());
                     generated.push(op);
+
+                    if symm_ops.len() > max_num_ops {
+                        return None;
+                    }
                 }
             }
 
             new_ops = generated;
         }
-        symm_ops
+        Some(symm_ops)
     }
 }
 
-- 
2.43.0


From d74d034b7c87e37e648bb7b37c5d046ce519f565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:14 +0000
Subject: [PATCH 18/22] fix: keep approximate translations from collapsing the
 primitive cell

Translations that hold only within tolerance need not form a group. Swapping in
their remainders could then shrink the cell until it was singular. The cell is
never made smaller than the volume per translation.
---
 src/reduce.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/reduce.rs b/src/reduce.rs
index 734341a..920def1 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -135,7 +135,9 @@ impl Reducer {
             self.get_shortest_translation_vecs(&mut cart_translation_vecs);
 
         // Swap in the remainder of any translation that is not an integer combination of the three
-        // vectors. Each swap at least halves the cell volume.
+        // vectors. Each swap at least halves the cell volume, which cannot fall below the volume
+        // per translation.
+        let min_volume = temp_structure.volume() / num_translations;
         let mut spanning = false;
 
         while !spanning {
@@ -148,8 +150,9 @@ impl Reducer {
                 remainder -= remainder.map(|val| val.round());
 
                 let cart_remainder = basis * remainder;
+                let new_volume = basis.determinant().abs() * remainder.amax();
 
-                if cart_remainder.magnitude() > (2.0 * self.dtol) {
+                if cart_remainder.magnitude() > (2.0 * self.dtol) && new_volume > 0.5 * min_volume {
                     frac_translation_vecs[remainder.iamax()] = cart_remainder;
                     spanning = false;
                 }
-- 
2.43.0


From 82c4939060887fac9c1be89d57c5623875c1d35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:52:14 +0000
Subject: [PATCH 19/22] fix: end the search for sites and operations that merge
 within tolerance

When sites or operations of the new cell lie within tolerance of each other the
expected number is never reached and the search ran forever. Give up once every
translation has been tried.
---
 src/spacegroup.rs | 7 +++++++
 src/structure.rs  | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/spacegroup.rs b/src/spacegroup.rs
index 5688ed5..8b389a5 100644
--- a/src/spacegroup.rs
+++ b/src/spacegroup.rs
@@ -91,6 +91,7 @@ impl SpaceGroup {
 
         let mut mult = 2;
         while (new_operations.len() as f64) < num_new_ops {
+            let num_found_ops = new_operations.len();
             let mut translation_vecs: Vec<Vector3<f64>> = Vec::new();
 
             // Generate unit translation vectors
@@ -153,6 +154,12 @@ impl SpaceGroup {
                     }
                 }
             }
+
+            // All translations have been tried, operations are within tolerance of each other
+            if new_operations.len() == num_found_ops && (mult as f64) > volume_ratio + 10.0 {
+                panic!("Could not find all operations of the transformed cell!");
+            }
+
             mult += 1;
         }
         self.operations = new_operations;
diff --git a/src/structure.rs b/src/structure.rs
index c581c36..e222217 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -167,6 +167,7 @@ impl Structure {
         // Search for new sites in transformed cell using volume ratio to determine proper number of sites
         let mut mult = 2;
         while (new_frac_coords.len() as f64) < num_new_sites {
+            let num_found_sites = new_frac_coords.len();
             let mut translation_vecs: Vec<Vector3<f64>> = Vec::new();
 
             for (i, j, k) in iproduct!(0..mult, 0..mult, 0..mult) {
@@ -198,6 +199,12 @@ impl Structure {
                     }
                 }
             }
+
+            // All translations have been tried, sites are within tolerance of each other
+            if new_frac_coords.len() == num_found_sites && (mult as f64) > volume_ratio + 10.0 {
+                panic!("Could not find all sites of the transformed cell!");
+            }
+
             mult += 1;
         }
 
-- 
2.43.0


From e94ce9cdcc4dd471604862ac5fa451d2b05d8402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:06 +0000
Subject: [PATCH 20/22] fix: make the space-group analysis independent of hash
 order

For crystals whose symmetry holds only within tolerance the outcome depended on
the iteration order of hash maps and differed between calls.
---
 src/analyzer.rs   | 14 +++++++-------
 src/pointgroup.rs |  4 +++-
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/analyzer.rs b/src/analyzer.rs
index f916e59..8d614f8 100644
--- a/src/analyzer.rs
+++ b/src/analyzer.rs
@@ -10,8 +10,8 @@ use crate::spacegroup::SpaceGroup;
 use crate::structure::Structure;
 use crate::symmop::SymmOp;
 use crate::utils::{cust_eq, decode_spg_op, normalize_frac_vectors, num_negative_zero};
+use itertools::Itertools;
 use nalgebra::{Matrix3, Vector3};
-use std::collections::HashMap;
 
 #[derive(Debug, Clone)]
 pub struct SymmetryAnalyzer {
@@ -109,7 +109,7 @@ impl SymmetryAnalyzer {
 
         let mut output_data: Option<(u8, String)> = Option::None;
 
-        for (num, encoded_ops) in candidate_groups.iter() {
+        for (num, encoded_ops) in candidate_groups.iter().sorted() {
             let mut all_found = true;
             let is_a_centered = SG_NUM_TO_SYMBOL
                 .get(num)
@@ -201,7 +201,7 @@ impl SymmetryAnalyzer {
         // 3. If the occurance number of a particular vector is equal to number of sites,
         //    choose it as canonical translation for the operation.
         // NOTE: These translations include both instrinsic translation and origin shift.
-        let mut op_trans_vecs: HashMap<Matrix3<i8>, Vec<Vector3<f64>>> = HashMap::new();
+        let mut op_trans_vecs: Vec<(Matrix3<i8>, Vec<Vector3<f64>>)> = Vec::new();
 
         let (_, ele_inds, ele_counts) = prim_structure.get_min_element();
 
@@ -209,7 +209,7 @@ impl SymmetryAnalyzer {
             let float_op = Matrix3::from_iterator(op.iter().map(|&x| x as f64));
             let mut translation_vectors: Vec<Vector3<f64>> = Vec::new();
 
-            for (ele, ind) in ele_inds.iter() {
+            for (ele, ind) in ele_inds.iter().sorted() {
                 let start = ind.to_owned();
                 let end = start + ele_counts.get(ele).unwrap().to_owned();
 
@@ -227,7 +227,7 @@ impl SymmetryAnalyzer {
                 }
             }
 
-            op_trans_vecs.insert(op, translation_vectors);
+            op_trans_vecs.push((op, translation_vectors));
         }
 
         // Sort through candidate vectors and get counts
@@ -235,7 +235,7 @@ impl SymmetryAnalyzer {
         let mut matched;
 
         for (op, translation_vectors) in op_trans_vecs.iter() {
-            let mut translation_counts: HashMap<Vector3<i64>, u64> = HashMap::new();
+            let mut translation_counts: Vec<(Vector3<i64>, u64)> = Vec::new();
 
             for translation in translation_vectors.iter() {
                 let int_translation: Vector3<i64> = Vector3::from_iterator(
@@ -265,7 +265,7 @@ impl SymmetryAnalyzer {
                 }
 
                 if !matched {
-                    translation_counts.insert(int_translation, 1);
+                    translation_counts.push((int_translation, 1));
                 }
             }
 
diff --git a/src/pointgroup.rs b/src/pointgroup.rs
index 7f6e434..463d39a 100644
--- a/src/pointgroup.rs
+++ b/src/pointgroup.rs
@@ -75,7 +75,9 @@ impl PointGroup {
             new_ops = generated;
         }
 
-        let operations_vec: Vec<Matrix3<i8>> = Vec::from_iter(symm_ops);
+        // Sorting ensures determinism
+        let mut operations_vec: Vec<Matrix3<i8>> = Vec::from_iter(symm_ops);
+        operations_vec.sort_by(|a, b| a.iter().cmp(b.iter()));
 
         operations_vec
     }
-- 
2.43.0


From a37a443d6593a8ecbdee235748caf4900a9bb538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:48:43 +0000
Subject: [PATCH 21/22] fix: refuse singular matrices reliably when inverting
 transformations and lattices

The inversion used LU elimination, where rounding leaves a tiny pivot for
many exactly singular matrices. These were then inverted to huge numbers
instead of being refused. The cofactor formula gives a determinant of
exactly zero for them.
---
 src/pointgroup.rs |  6 +++---
 src/spacegroup.rs |  6 +++---
 src/structure.rs  | 10 +++++-----
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/pointgroup.rs b/src/pointgroup.rs
index 463d39a..b08065c 100644
--- a/src/pointgroup.rs
+++ b/src/pointgroup.rs
@@ -1,7 +1,7 @@
 use crate::data::pointgroup::{PG_NUM_TO_GENERATOR_MATRICES, PG_NUM_TO_SYMBOL};
 use crate::utils::decode;
 use itertools::iproduct;
-use nalgebra::{try_invert_to, Matrix3};
+use nalgebra::Matrix3;
 use std::collections::HashSet;
 use std::iter::FromIterator;
 
@@ -37,8 +37,8 @@ impl PointGroup {
 
     /// Transform symmetry operations `R -> R'` according to `T^-1 R T = R'`.
     pub fn apply_transformation(&mut self, transformation_matrix: &Matrix3<f64>) {
-        let mut inv_trans_mat: Matrix3<f64> = Matrix3::identity();
-        let inverted = try_invert_to(*transformation_matrix, &mut inv_trans_mat);
+        let mut inv_trans_mat: Matrix3<f64> = *transformation_matrix;
+        let inverted = inv_trans_mat.try_inverse_mut();
 
         if !inverted {
             panic!("Transformation matrix is not invertible!");
diff --git a/src/spacegroup.rs b/src/spacegroup.rs
index 8b389a5..1915481 100644
--- a/src/spacegroup.rs
+++ b/src/spacegroup.rs
@@ -4,8 +4,8 @@ use crate::data::core::ZERO_TOL;
 use crate::symmop::SymmOp;
 use crate::utils::normalize_frac_vectors;
 use itertools::iproduct;
+use nalgebra::Matrix3;
 use nalgebra::Vector3;
-use nalgebra::{try_invert_to, Matrix3};
 
 #[derive(Debug)]
 /// Represenation of a space group and its operations.
@@ -60,8 +60,8 @@ impl SpaceGroup {
         frac_tols: &Vector3<f64>,
     ) {
         //TODO: Use operations to smartly choose which translation vectors to use
-        let mut inv_trans_mat: Matrix3<f64> = Matrix3::identity();
-        let inverted = try_invert_to(*transformation_matrix, &mut inv_trans_mat);
+        let mut inv_trans_mat: Matrix3<f64> = *transformation_matrix;
+        let inverted = inv_trans_mat.try_inverse_mut();
 
         if !inverted {
             panic!("Transformation matrix is not invertible!");
diff --git a/src/structure.rs b/src/structure.rs
index e222217..daa853b 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -2,7 +2,7 @@ use crate::data::core::ZERO_TOL;
 use crate::utils::normalize_frac_vectors;
 use itertools::Itertools;
 use itertools::{iproduct, izip};
-use nalgebra::{try_invert_to, Matrix3, Matrix3x4, Vector3};
+use nalgebra::{Matrix3, Matrix3x4, Vector3};
 use std::collections::HashMap;
 use std::f64::consts::PI;
 use std::iter::FromIterator;
@@ -139,9 +139,9 @@ impl Structure {
     /// * `transformation_matrix` - A 3x3 matrix representing the transformation.
     /// * `pos_tol` - Position tolerance in angstroms to use when comparing atomic sites.
     pub fn apply_transformation(&mut self, transformation_matrix: &Matrix3<f64>, pos_tol: &f64) {
-        let mut inv_trans_mat: Matrix3<f64> = Matrix3::identity();
+        let mut inv_trans_mat: Matrix3<f64> = *transformation_matrix;
 
-        let inverted = try_invert_to(*transformation_matrix, &mut inv_trans_mat);
+        let inverted = inv_trans_mat.try_inverse_mut();
 
         if !inverted {
             panic!("Transformation matrix is not invertible!");
@@ -319,8 +319,8 @@ impl Structure {
 
     /// Reciprocal lattice of the structure
     pub fn reciprocal_lattice(&self) -> Matrix3<f64> {
-        let mut reciprocal_lattice = Matrix3::identity();
-        let inverted = try_invert_to(self.lattice, &mut reciprocal_lattice);
+        let mut reciprocal_lattice = self.lattice;
+        let inverted = reciprocal_lattice.try_inverse_mut();
 
         if !inverted {
             panic!("Crystal lattice is not invertible!");
-- 
2.43.0


From fc9c92477cd20d20b570a5ebf283af70ecfbaaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:37:53 +0000
Subject: [PATCH 22/22] fix: refuse structures with different numbers of
 species and coordinates

Such structures were built silently. Later steps pair the two lists and
dropped the surplus entries, so atoms were lost without any message.
---
 src/structure.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/structure.rs b/src/structure.rs
index daa853b..6d92444 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -56,6 +56,10 @@ impl Structure {
         coords: Vec<Vector3<f64>>,
         coords_are_cart: bool,
     ) -> Structure {
+        if species.len() != coords.len() {
+            panic!("Number of species and coordinates are not equal!");
+        }
+
         let frac_coords: Vec<Vector3<f64>>;
         let cart_coords: Vec<Vector3<f64>>;
 
-- 
2.43.0

