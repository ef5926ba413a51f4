From 1bbeb22e64e7a3b43daba6d0e83480db1f805a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:20 +0000
Subject: [PATCH 1/3] fix: verifier refuses proofs with surplus elements in pi
 or theta

The MSMEG1, MSMEG2 and quadratic verifiers only looked at the first element
of theta, pi or both, so that a proof with further elements was accepted.
---
 src/verifier.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/verifier.rs b/src/verifier.rs
index a56a39f..7df96fa 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -58,6 +58,7 @@ impl<E: Pairing> Verifiable<E> for MSMEG1<E> {
     fn verify(&self, com_proof: &CProof<E>, crs: &CRS<E>) -> bool {
         assert_eq!(com_proof.equ_proofs.len(), 1);
         assert_eq!(self.get_type(), com_proof.equ_proofs[0].equ_type);
+        assert_eq!(com_proof.equ_proofs[0].theta.len(), 1);
         let is_parallel = true;
 
         let lin_a_com_y = ComT::<E>::pairing_sum(
@@ -92,6 +93,7 @@ impl<E: Pairing> Verifiable<E> for MSMEG2<E> {
     fn verify(&self, com_proof: &CProof<E>, crs: &CRS<E>) -> bool {
         assert_eq!(com_proof.equ_proofs.len(), 1);
         assert_eq!(self.get_type(), com_proof.equ_proofs[0].equ_type);
+        assert_eq!(com_proof.equ_proofs[0].pi.len(), 1);
         let is_parallel = true;
 
         let lin_a_com_y = ComT::<E>::pairing_sum(
@@ -126,6 +128,8 @@ impl<E: Pairing> Verifiable<E> for QuadEqu<E> {
     fn verify(&self, com_proof: &CProof<E>, crs: &CRS<E>) -> bool {
         assert_eq!(com_proof.equ_proofs.len(), 1);
         assert_eq!(self.get_type(), com_proof.equ_proofs[0].equ_type);
+        assert_eq!(com_proof.equ_proofs[0].pi.len(), 1);
+        assert_eq!(com_proof.equ_proofs[0].theta.len(), 1);
         let is_parallel = true;
 
         let lin_a_com_y = ComT::<E>::pairing_sum(
-- 
2.43.0


From 506ae33d87d9bc2ce9b8b4ae9cb4f0fac6045b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:53 +0000
Subject: [PATCH 2/3] fix: matrix sums and products refuse ragged operands

Only the length of the first row was checked, so that longer later rows were
silently truncated; the verifier accepted a ragged exponent matrix that way.
---
 src/data_structures.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/data_structures.rs b/src/data_structures.rs
index 18b47fb..61e6fd8 100644
--- a/src/data_structures.rs
+++ b/src/data_structures.rs
@@ -592,6 +592,7 @@ macro_rules! impl_base_commit_mats {
                     assert_eq!(self[0].len(), other[0].len());
                     let m = self.len();
                     let n = self[0].len();
+                    assert!(self.iter().chain(other).all(|row| row.len() == n));
                     let mut add = Vec::with_capacity(m);
                     for i in 0..m {
                         add.push(Vec::with_capacity(n));
@@ -651,7 +652,8 @@ macro_rules! impl_base_commit_mats {
                     }
 
                     // Check that every row in a and column in b has the same length
-                    assert_eq!(self[0].len(), rhs.len());
+                    assert!(self.iter().all(|row| row.len() == rhs.len()));
+                    assert!(rhs.iter().all(|row| row.len() == rhs[0].len()));
                     let row_dim = self.len();
 
                     if is_parallel {
@@ -702,7 +704,8 @@ macro_rules! impl_base_commit_mats {
                     }
 
                     // Check that every row in a and column in b has the same length
-                    assert_eq!(lhs[0].len(), self.len());
+                    assert!(lhs.iter().all(|row| row.len() == self.len()));
+                    assert!(self.iter().all(|row| row.len() == self[0].len()));
                     let row_dim = lhs.len();
 
                     if is_parallel {
@@ -773,6 +776,7 @@ impl<F: Field> Mat<F> for Matrix<F> {
         assert_eq!(self[0].len(), other[0].len());
         let m = self.len();
         let n = self[0].len();
+        assert!(self.iter().chain(other).all(|row| row.len() == n));
         let mut add = Vec::with_capacity(m);
         for i in 0..m {
             add.push(Vec::with_capacity(n));
@@ -830,7 +834,8 @@ impl<F: Field> Mat<F> for Matrix<F> {
         }
 
         // Check that every row in a and column in b has the same length
-        assert_eq!(self[0].len(), rhs.len());
+        assert!(self.iter().all(|row| row.len() == rhs.len()));
+        assert!(rhs.iter().all(|row| row.len() == rhs[0].len()));
         let row_dim = self.len();
 
         if is_parallel {
@@ -877,7 +882,8 @@ impl<F: Field> Mat<F> for Matrix<F> {
         }
 
         // Check that every row in a and column in b has the same length
-        assert_eq!(lhs[0].len(), self.len());
+        assert!(lhs.iter().all(|row| row.len() == self.len()));
+        assert!(self.iter().all(|row| row.len() == self[0].len()));
         let row_dim = lhs.len();
 
         if is_parallel {
-- 
2.43.0


From 36693390cbc3c7a82f4c33ff892df7418bcc81ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:01 +0000
Subject: [PATCH 3/3] fix: validated deserialization refuses points off the
 curve

An element deserialized on its own, rather than within a vector, was only checked for
membership in the subgroup assuming that it is on the curve. Points of isomorphic curves
pass that check in the uncompressed form.
---
 src/data_structures.rs | 44 ++++++++++++++++++++++++++++++++++++++++--
 src/generator.rs       | 12 ++++++++++--
 src/statement.rs       | 21 +++++++++++++++++---
 3 files changed, 70 insertions(+), 7 deletions(-)

diff --git a/src/data_structures.rs b/src/data_structures.rs
index 61e6fd8..c85b2bc 100644
--- a/src/data_structures.rs
+++ b/src/data_structures.rs
@@ -125,13 +125,53 @@ pub trait BT<E: Pairing, C1: B1<E>, C2: B2<E>>: B<E> + From<Matrix<PairingOutput
 // SXDH instantiation's bilinear group for commitments
 
 /// Base [`B1`](crate::data_structures::B1) for the commitment group in the SXDH instantiation.
-#[derive(Copy, Clone, Debug, CanonicalSerialize, CanonicalDeserialize)]
+#[derive(Copy, Clone, Debug, CanonicalSerialize)]
 pub struct Com1<E: Pairing>(pub E::G1Affine, pub E::G1Affine);
 
 /// Extension [`B2`](crate::data_structures::B2) for the commitment group in the SXDH instantiation.
-#[derive(Copy, Clone, Debug, CanonicalSerialize, CanonicalDeserialize)]
+#[derive(Copy, Clone, Debug, CanonicalSerialize)]
 pub struct Com2<E: Pairing>(pub E::G2Affine, pub E::G2Affine);
 
+// A group element that is deserialized on its own is only checked for being in the subgroup *assuming*
+// that it is on the curve, whereas `Valid::check` checks both. Hence validate the complete object.
+macro_rules! impl_validated_deserialize {
+    ($( $ty:ident { $( $field:tt ),+ } ),+) => {
+        $(
+            impl<E: ark_ec::pairing::Pairing> ark_serialize::Valid for $ty<E> {
+                fn check(&self) -> Result<(), ark_serialize::SerializationError> {
+                    $( ark_serialize::Valid::check(&self.$field)?; )+
+                    Ok(())
+                }
+            }
+
+            impl<E: ark_ec::pairing::Pairing> CanonicalDeserialize for $ty<E> {
+                fn deserialize_with_mode<R: ark_serialize::Read>(
+                    mut reader: R,
+                    compress: ark_serialize::Compress,
+                    validate: ark_serialize::Validate,
+                ) -> Result<Self, ark_serialize::SerializationError> {
+                    let value = Self {
+                        $(
+                            $field: CanonicalDeserialize::deserialize_with_mode(
+                                &mut reader,
+                                compress,
+                                ark_serialize::Validate::No,
+                            )?,
+                        )+
+                    };
+                    if let ark_serialize::Validate::Yes = validate {
+                        ark_serialize::Valid::check(&value)?;
+                    }
+                    Ok(value)
+                }
+            }
+        )+
+    };
+}
+pub(crate) use impl_validated_deserialize;
+
+impl_validated_deserialize!(Com1 { 0, 1 }, Com2 { 0, 1 });
+
 /// Target [`BT`](crate::data_structures::BT) for the commitment group in the SXDH instantiation.
 #[derive(Copy, Clone, Debug)]
 pub struct ComT<E: Pairing>(
diff --git a/src/generator.rs b/src/generator.rs
index 6dc87b1..e4938e8 100644
--- a/src/generator.rs
+++ b/src/generator.rs
@@ -11,7 +11,7 @@
 //!    1) Perfect soundness string (i.e. perfectly binding), or
 //!    2) Composable witness-indistinguishability string (i.e. perfectly hiding)
 
-use crate::data_structures::{Com1, Com2};
+use crate::data_structures::{impl_validated_deserialize, Com1, Com2};
 
 use ark_ec::{
     pairing::{Pairing, PairingOutput},
@@ -32,7 +32,7 @@ pub trait AbstractCrs<E: Pairing> {
 }
 
 /// Contains the commitment keys and bilinear group generators
-#[derive(Clone, Debug, CanonicalSerialize, CanonicalDeserialize)]
+#[derive(Clone, Debug, CanonicalSerialize)]
 pub struct CRS<E: Pairing> {
     pub u: Vec<Com1<E>>,
     pub v: Vec<Com2<E>>,
@@ -41,6 +41,14 @@ pub struct CRS<E: Pairing> {
     pub gt_gen: PairingOutput<E>,
 }
 
+impl_validated_deserialize!(CRS {
+    u,
+    v,
+    g1_gen,
+    g2_gen,
+    gt_gen
+});
+
 impl<E: Pairing> CRS<E> {
     // Returns intermediate "second" values that are used to construct un-blinded (i.e. binding) committment keys
     #[inline(always)]
diff --git a/src/statement.rs b/src/statement.rs
index 53463a1..8c0a7ca 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -34,7 +34,7 @@
 use ark_ec::pairing::{Pairing, PairingOutput};
 use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Valid};
 
-use crate::data_structures::Matrix;
+use crate::data_structures::{impl_validated_deserialize, Matrix};
 use crate::prover::Provable;
 use crate::verifier::Verifiable;
 
@@ -135,7 +135,7 @@ impl<E: Pairing> Equation<E, E::G1Affine, E::G2Affine, PairingOutput<E>> for PPE
 /// For example, the equation `n * W + (v * U)^5 = t_1` can be expressed by the following
 /// (private) witness variables `X = [U, W]`, `Y = [v]`, (public) constants `A = [0]`, `B = [0, n]`,
 /// pairing exponent matrix `Γ = [[5], [0]]`, and `target = t_1` in `G1`.
-#[derive(Clone, Debug, PartialEq, Eq, CanonicalSerialize, CanonicalDeserialize)]
+#[derive(Clone, Debug, PartialEq, Eq, CanonicalSerialize)]
 pub struct MSMEG1<E: Pairing> {
     pub a_consts: Vec<E::G1Affine>,
     pub b_consts: Vec<E::ScalarField>,
@@ -143,6 +143,13 @@ pub struct MSMEG1<E: Pairing> {
     pub target: E::G1Affine,
 }
 
+impl_validated_deserialize!(MSMEG1 {
+    a_consts,
+    b_consts,
+    gamma,
+    target
+});
+
 impl<E: Pairing> Equ for MSMEG1<E> {}
 impl<E: Pairing> Equation<E, E::G1Affine, E::ScalarField, E::G1Affine> for MSMEG1<E> {
     #[inline(always)]
@@ -156,13 +163,21 @@ impl<E: Pairing> Equation<E, E::G1Affine, E::ScalarField, E::G1Affine> for MSMEG
 /// For example, the equation `w * N + (u * V)^5 = t_2` can be expressed by the following
 /// (private) witness variables `X = [u, w]`, `Y = [V]`, (public) constants `A = [0]`, `B = [0, N]`,
 /// pairing exponent matrix `Γ = [[5], [0]]`, and `target = t_2` in `G2`.
-#[derive(Clone, Debug, PartialEq, Eq, CanonicalSerialize, CanonicalDeserialize)]
+#[derive(Clone, Debug, PartialEq, Eq, CanonicalSerialize)]
 pub struct MSMEG2<E: Pairing> {
     pub a_consts: Vec<E::ScalarField>,
     pub b_consts: Vec<E::G2Affine>,
     pub gamma: Matrix<E::ScalarField>,
     pub target: E::G2Affine,
 }
+
+impl_validated_deserialize!(MSMEG2 {
+    a_consts,
+    b_consts,
+    gamma,
+    target
+});
+
 impl<E: Pairing> Equ for MSMEG2<E> {}
 impl<E: Pairing> Equation<E, E::ScalarField, E::G2Affine, E::G2Affine> for MSMEG2<E> {
     #[inline(always)]
-- 
2.43.0

