From a60d809b81ecb60b41c913926464ac645ecfbbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:44 +0000
Subject: [PATCH 01/10] fix: hamming distance: tie the difference variable to
 the compared values

---
 src/r1cs/gadgets/hamming_distance.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/r1cs/gadgets/hamming_distance.rs b/src/r1cs/gadgets/hamming_distance.rs
index 7c7d433..5aa0447 100644
--- a/src/r1cs/gadgets/hamming_distance.rs
+++ b/src/r1cs/gadgets/hamming_distance.rs
@@ -29,18 +29,15 @@ pub fn hamming_distance_gadget<CS: ConstraintSystem>(
     for i in 0..new.len() {
         let diff = original[i].variable - new[i].clone();
         let val_diff = cs.evaluate_lc(&diff);
-        let (val_diff, val_diff_inv) = match val_diff {
-            Some(l) => {
-                let inv = l.inverse();
-                (Some(l), Some(inv))
-            }
-            None => (None, None),
-        };
+        let val_diff_and_inv = val_diff.map(|l| {
+            let inv = l.inverse();
+            (l, inv)
+        });
 
         // diff * diff_inv = 1_or_0 depending on diff being non-zero or zero
-        let (var_diff, _) = cs.allocate_single(val_diff)?;
-        let (_, var_o) = cs.allocate_single(val_diff_inv)?;
-        let var_1_or_0 = var_o.unwrap();
+        let (var_diff, _, var_1_or_0) = cs.allocate_multiplier(val_diff_and_inv)?;
+        // `var_diff` is the difference of the original and the new value
+        cs.constrain(diff - var_diff);
 
         // diff * (1 - 1_or_0) = 0
         let one_minus_var_1_or_0 = Variable::One() - var_1_or_0;
-- 
2.43.0


From 546426107b78b83350abae1b5fe453307f81e8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:44 +0000
Subject: [PATCH 02/10] fix: poseidon: tie the inverse S-box variable to the
 S-box input

---
 src/r1cs/gadgets/helper_constraints/poseidon.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/r1cs/gadgets/helper_constraints/poseidon.rs b/src/r1cs/gadgets/helper_constraints/poseidon.rs
index 5599826..2381424 100644
--- a/src/r1cs/gadgets/helper_constraints/poseidon.rs
+++ b/src/r1cs/gadgets/helper_constraints/poseidon.rs
@@ -184,16 +184,21 @@ impl SboxType {
         let inp_plus_const: LinearCombination = input_var + round_key;
 
         let val_l = cs.evaluate_lc(&inp_plus_const);
-        let val_r = val_l.clone().map(|l| l.inverse());
+        let val_l_and_r = val_l.map(|l| {
+            let r = l.inverse();
+            (l, r)
+        });
 
-        let (var_l, _) = cs.allocate_single(val_l)?;
-        let (var_r, var_o) = cs.allocate_single(val_r)?;
+        let (var_l, var_r, var_o) = cs.allocate_multiplier(val_l_and_r)?;
+
+        // `var_l` is the S-box input
+        cs.constrain(inp_plus_const - var_l);
 
         // Ensure `inp_plus_const` is not zero
         is_nonzero_gadget(cs, var_l, var_r)?;
 
         // Constrain product of ``inp_plus_const` and its inverse to be 1.
-        constrain_lc_with_scalar::<CS>(cs, var_o.unwrap().into(), &FieldElement::one());
+        constrain_lc_with_scalar::<CS>(cs, var_o.into(), &FieldElement::one());
 
         Ok(var_r)
     }
-- 
2.43.0


From c4170a771f7a696ed8535e1b1bc2392a3f55eb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:44 +0000
Subject: [PATCH 03/10] fix: set membership (alt): tie the bits of the product
 check to the committed bits

---
 src/r1cs/gadgets/set_membership_alt.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/r1cs/gadgets/set_membership_alt.rs b/src/r1cs/gadgets/set_membership_alt.rs
index 1ac5c5a..b27043e 100644
--- a/src/r1cs/gadgets/set_membership_alt.rs
+++ b/src/r1cs/gadgets/set_membership_alt.rs
@@ -70,6 +70,8 @@ pub fn vector_product_gadget<CS: ConstraintSystem>(
                 .map(|bit| (bit.clone(), items[i].into())),
         )?;
         constrain_lc_with_scalar::<CS>(cs, item_var.into(), &items[i].into());
+        // `bit_var` is the committed bit
+        cs.constrain(bit_var - vector[i].variable);
 
         let (_, _, o2) = cs.multiply(bit_var.into(), value.variable.into());
 
-- 
2.43.0


From 157bcb89369f604a9cb4e4f7ed937b381d85fe88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:34 +0000
Subject: [PATCH 04/10] fix: merkle gadgets: require as many proof nodes as the
 depth needs

---
 .../gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs | 7 +++++++
 .../gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
index 5d0c8cc..515819d 100644
--- a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
+++ b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
@@ -262,6 +262,13 @@ pub fn vanilla_merkle_merkle_tree_4_verif_gadget<CS: ConstraintSystem>(
     poseidon_params: &PoseidonParams,
     sbox_type: &SboxType,
 ) -> Result<(), R1CSError> {
+    // There are 3 siblings on each level
+    if proof_nodes.len() != depth * 3 {
+        return Err(R1CSError::GadgetError {
+            description: String::from("Number of proof nodes does not match the depth"),
+        });
+    }
+
     let mut prev_hash = LinearCombination::from(leaf_val);
 
     let statics: Vec<LinearCombination> = statics.into_iter().map(|s| s.into()).collect();
diff --git a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
index 960c593..9d76a58 100644
--- a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
+++ b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
@@ -286,6 +286,13 @@ pub fn vanilla_merkle_merkle_tree_8_verif_gadget<CS: ConstraintSystem>(
     poseidon_params: &PoseidonParams,
     sbox_type: &SboxType,
 ) -> Result<(), R1CSError> {
+    // There are 7 siblings on each level
+    if proof_nodes.len() != depth * 7 {
+        return Err(R1CSError::GadgetError {
+            description: String::from("Number of proof nodes does not match the depth"),
+        });
+    }
+
     let mut prev_hash = LinearCombination::from(leaf_val);
 
     // Initialize  constraint_leaf_index with -leaf_index.
-- 
2.43.0


From 819626104c155d33cbb860b04e2ef5d20684c066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:34 +0000
Subject: [PATCH 05/10] fix: inner product: reject proofs of the wrong size
 with an error

---
 src/ipp.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ipp.rs b/src/ipp.rs
index 80807f1..1b8b0e4 100644
--- a/src/ipp.rs
+++ b/src/ipp.rs
@@ -215,7 +215,7 @@ impl IPP {
         L_vec: &G1Vector,
         R_vec: &G1Vector,
     ) -> Result<(), R1CSError> {
-        let (u_sq, u_inv_sq, s) = Self::verification_scalars(L_vec, R_vec, n, transcript).unwrap();
+        let (u_sq, u_inv_sq, s) = Self::verification_scalars(L_vec, R_vec, n, transcript)?;
 
         let g_times_a_times_s = G_factors
             .iter()
@@ -271,7 +271,7 @@ impl IPP {
             // and this check prevents overflow in 1<<lg_n below.
             return Err(R1CSError::VerificationError);
         }
-        if n != (1 << lg_n) {
+        if n != (1 << lg_n) || R_vec.len() != lg_n {
             return Err(R1CSError::VerificationError);
         }
 
-- 
2.43.0


From 816f7e59672936a59ceb10a7f6b3885dfab51434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:34 +0000
Subject: [PATCH 06/10] fix: inner product: verify proofs for vectors of length
 1

---
 src/ipp.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ipp.rs b/src/ipp.rs
index 1b8b0e4..6dc39b1 100644
--- a/src/ipp.rs
+++ b/src/ipp.rs
@@ -292,7 +292,12 @@ impl IPP {
         let mut challenges_sq = Vec::with_capacity(lg_n);
         let mut challenges_inv_sq = Vec::with_capacity(lg_n);
 
-        let (challenges_inv, product_chal_inv) = FieldElement::batch_invert(&challenges);
+        // There are no challenges to invert when n is 1
+        let (challenges_inv, product_chal_inv) = if challenges.is_empty() {
+            (vec![], FieldElement::one())
+        } else {
+            FieldElement::batch_invert(&challenges)
+        };
         for i in 0..challenges.len() {
             challenges_sq.push(challenges[i].square());
             challenges_inv_sq.push(challenges_inv[i].square());
-- 
2.43.0


From 6be44c3c671be897c0842034d46235bcad024d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:34 +0000
Subject: [PATCH 07/10] fix: check the number of generators of both kinds

---
 src/r1cs/prover.rs   | 4 ++--
 src/r1cs/verifier.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/r1cs/prover.rs b/src/r1cs/prover.rs
index 1d05bc8..9ca93bf 100644
--- a/src/r1cs/prover.rs
+++ b/src/r1cs/prover.rs
@@ -329,7 +329,7 @@ impl<'a, 'b> Prover<'a, 'b> {
         // Commit to the first-phase low-level witness variables.
         let n1 = self.a_L.len();
 
-        if G.len() < n1 {
+        if G.len() < n1 || H.len() < n1 {
             return Err(R1CSError::InvalidGeneratorsLength);
         }
 
@@ -376,7 +376,7 @@ impl<'a, 'b> Prover<'a, 'b> {
         let padded_n = n.next_power_of_two();
         let pad = padded_n - n;
 
-        if G.len() < padded_n {
+        if G.len() < padded_n || H.len() < padded_n {
             return Err(R1CSError::InvalidGeneratorsLength);
         }
 
diff --git a/src/r1cs/verifier.rs b/src/r1cs/verifier.rs
index e8e0fe1..5b85a96 100644
--- a/src/r1cs/verifier.rs
+++ b/src/r1cs/verifier.rs
@@ -294,7 +294,7 @@ impl<'a> Verifier<'a> {
 
         use std::iter;
 
-        if G.len() < padded_n {
+        if G.len() < padded_n || H.len() < padded_n {
             return Err(R1CSError::InvalidGeneratorsLength);
         }
 
-- 
2.43.0


From c6d205a67d7a3ba45f082107ffe41b3533d128c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:34 +0000
Subject: [PATCH 08/10] fix: gadgets: return proving errors instead of
 panicking

---
 src/r1cs/gadgets/hamming_distance.rs         | 2 +-
 src/r1cs/gadgets/randomizer.rs               | 2 +-
 src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/r1cs/gadgets/hamming_distance.rs b/src/r1cs/gadgets/hamming_distance.rs
index 5aa0447..f1cd119 100644
--- a/src/r1cs/gadgets/hamming_distance.rs
+++ b/src/r1cs/gadgets/hamming_distance.rs
@@ -122,7 +122,7 @@ pub fn gen_proof_for_hamming_distance(
         &prover.num_multipliers(),
         &prover.num_constraints()
     );
-    let proof = prover.prove(G, H).unwrap();
+    let proof = prover.prove(G, H)?;
     println!("Proving time is {:?}", start.elapsed());
     Ok((proof, comms))
 }
diff --git a/src/r1cs/gadgets/randomizer.rs b/src/r1cs/gadgets/randomizer.rs
index 05ab4bc..e33db98 100644
--- a/src/r1cs/gadgets/randomizer.rs
+++ b/src/r1cs/gadgets/randomizer.rs
@@ -273,7 +273,7 @@ pub fn gen_proof_for_randomizer(
         + hash_params.full_rounds_end;
     println!("For 4-ary tree of height {} (has 2^{} leaves) and Poseidon rounds {}, no of multipliers is {} and constraints is {}", tree_depth, tree_depth*2, total_rounds, &prover.num_multipliers(), &prover.num_constraints());
 
-    let proof = prover.prove(G, H).unwrap();
+    let proof = prover.prove(G, H)?;
     let end = start.elapsed();
 
     println!("Proving time is {:?}", end);
diff --git a/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs b/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
index 988c2c1..7f62eaa 100644
--- a/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
+++ b/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
@@ -168,7 +168,7 @@ pub fn gen_proof_of_leaf_inclusion_4_ary_merkle_tree<R: RngCore + CryptoRng>(
         + hash_params.full_rounds_end;
     println!("For 4-ary tree of height {} (has 2^{} leaves) and Poseidon rounds {}, no of multipliers is {} and constraints is {}", tree_depth, tree_depth*2, total_rounds, &prover.num_multipliers(), &prover.num_constraints());
 
-    let proof = prover.prove(G, H).unwrap();
+    let proof = prover.prove(G, H)?;
     let end = start.elapsed();
 
     println!("Proving time is {:?}", end);
-- 
2.43.0


From 35f357822997128321b41c48fb17a2d77438b49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:56 +0000
Subject: [PATCH 09/10] fix: gadgets: reject a wrong number of commitments with
 an error

---
 src/errors.rs                                | 18 ++++++++++++++++++
 src/r1cs/gadgets/bound_check.rs              |  2 ++
 src/r1cs/gadgets/mimc.rs                     |  2 ++
 src/r1cs/gadgets/non_zero.rs                 |  2 ++
 src/r1cs/gadgets/poseidon_hash.rs            |  6 ++++++
 src/r1cs/gadgets/randomizer.rs               |  6 ++++++
 src/r1cs/gadgets/set_membership.rs           |  2 ++
 src/r1cs/gadgets/set_membership_alt.rs       |  1 +
 src/r1cs/gadgets/set_non_membership.rs       |  2 ++
 src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs |  2 ++
 src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs |  2 ++
 11 files changed, 45 insertions(+)

diff --git a/src/errors.rs b/src/errors.rs
index 3480211..1ea1e1c 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -53,3 +53,21 @@ macro_rules! check_for_input_and_randomness_length {
         }
     }};
 }
+
+/// Check that a verifier is given exactly the commitments it needs
+#[macro_export]
+macro_rules! check_for_commitments_length {
+    ( $commitments:expr, $expected_length:expr ) => {{
+        if $commitments.len() != $expected_length {
+            Err(R1CSError::GadgetError {
+                description: format!(
+                    "Expected {} commitments but found {}",
+                    $expected_length,
+                    $commitments.len()
+                ),
+            })
+        } else {
+            Ok(())
+        }
+    }};
+}
diff --git a/src/r1cs/gadgets/bound_check.rs b/src/r1cs/gadgets/bound_check.rs
index ed5d623..2641f54 100644
--- a/src/r1cs/gadgets/bound_check.rs
+++ b/src/r1cs/gadgets/bound_check.rs
@@ -98,6 +98,8 @@ pub fn verify_bounded_num(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 3)?;
+
     let var_v = verifier.commit(commitments.remove(0));
     let quantity_v = AllocatedQuantity {
         variable: var_v,
diff --git a/src/r1cs/gadgets/mimc.rs b/src/r1cs/gadgets/mimc.rs
index bfe1a11..cd71b04 100644
--- a/src/r1cs/gadgets/mimc.rs
+++ b/src/r1cs/gadgets/mimc.rs
@@ -62,6 +62,8 @@ pub fn verify_mimc_preimage(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 2)?;
+
     let var_l = verifier.commit(commitments.remove(0));
     let var_r = verifier.commit(commitments.remove(0));
 
diff --git a/src/r1cs/gadgets/non_zero.rs b/src/r1cs/gadgets/non_zero.rs
index b378ea4..5a185a7 100644
--- a/src/r1cs/gadgets/non_zero.rs
+++ b/src/r1cs/gadgets/non_zero.rs
@@ -45,6 +45,8 @@ pub fn verify_non_zero_val(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 2)?;
+
     let var_val = verifier.commit(commitments.remove(0));
     let alloc_scal = AllocatedQuantity {
         variable: var_val,
diff --git a/src/r1cs/gadgets/poseidon_hash.rs b/src/r1cs/gadgets/poseidon_hash.rs
index 8ccfb1d..34ed6e9 100644
--- a/src/r1cs/gadgets/poseidon_hash.rs
+++ b/src/r1cs/gadgets/poseidon_hash.rs
@@ -126,6 +126,8 @@ pub fn verify_knowledge_of_preimage_of_Poseidon_2(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 2)?;
+
     let lv = verifier.commit(commitments.remove(0));
     let rv = verifier.commit(commitments.remove(0));
 
@@ -270,6 +272,8 @@ pub fn verify_knowledge_of_preimage_of_Poseidon_4(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 4)?;
+
     let mut allocs = vec![];
 
     for _ in 0..4 {
@@ -413,6 +417,8 @@ pub fn verify_knowledge_of_preimage_of_Poseidon_8(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 8)?;
+
     let mut vars = vec![];
 
     for _ in 0..8 {
diff --git a/src/r1cs/gadgets/randomizer.rs b/src/r1cs/gadgets/randomizer.rs
index e33db98..593651a 100644
--- a/src/r1cs/gadgets/randomizer.rs
+++ b/src/r1cs/gadgets/randomizer.rs
@@ -299,6 +299,12 @@ pub fn verify_proof_for_randomizer(
     let mut verifier_transcript = Transcript::new(transcript_label);
     let mut verifier = Verifier::new(&mut verifier_transcript);
 
+    // The root, and each value with its merkle proof
+    check_for_commitments_length!(
+        commitments,
+        1 + modified_indices.len() * (1 + tree_depth * 3)
+    )?;
+
     let var_orig_root = verifier.commit(commitments.remove(0));
 
     let mut orig_val_vars = vec![];
diff --git a/src/r1cs/gadgets/set_membership.rs b/src/r1cs/gadgets/set_membership.rs
index 8417be2..235ec49 100644
--- a/src/r1cs/gadgets/set_membership.rs
+++ b/src/r1cs/gadgets/set_membership.rs
@@ -87,6 +87,8 @@ pub fn verify_set_membership(
 
     let mut diff_vars: Vec<AllocatedQuantity> = vec![];
 
+    check_for_commitments_length!(commitments, set_length + 1)?;
+
     let var_val = verifier.commit(commitments.remove(0));
     let alloc_scal = AllocatedQuantity {
         variable: var_val,
diff --git a/src/r1cs/gadgets/set_membership_alt.rs b/src/r1cs/gadgets/set_membership_alt.rs
index b27043e..911627b 100644
--- a/src/r1cs/gadgets/set_membership_alt.rs
+++ b/src/r1cs/gadgets/set_membership_alt.rs
@@ -146,6 +146,7 @@ pub fn verify_set_membership_alt(
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
     let set_length = set.len();
+    check_for_commitments_length!(commitments, set_length + 1)?;
 
     let mut bit_vars = vec![];
     let mut bit_allocs = vec![];
diff --git a/src/r1cs/gadgets/set_non_membership.rs b/src/r1cs/gadgets/set_non_membership.rs
index 6750af0..5f62301 100644
--- a/src/r1cs/gadgets/set_non_membership.rs
+++ b/src/r1cs/gadgets/set_non_membership.rs
@@ -96,6 +96,8 @@ pub fn verify_set_non_membership(
     let mut diff_vars: Vec<AllocatedQuantity> = vec![];
     let mut diff_inv_vars: Vec<AllocatedQuantity> = vec![];
 
+    check_for_commitments_length!(commitments, 2 * set_length + 1)?;
+
     let var_val = verifier.commit(commitments.remove(0));
     let alloc_scal = AllocatedQuantity {
         variable: var_val,
diff --git a/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs b/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
index 7f62eaa..a5ad1e8 100644
--- a/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
+++ b/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
@@ -97,6 +97,8 @@ pub fn verify_leaf_inclusion_4_ary_merkle_tree(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 2 + tree_depth * 3)?;
+
     let var_leaf = verifier.commit(commitments.remove(0));
 
     let var_leaf_idx = verifier.commit(commitments.remove(0));
diff --git a/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs b/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs
index 212b7ff..107d3da 100644
--- a/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs
+++ b/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs
@@ -96,6 +96,8 @@ pub fn verify_leaf_inclusion_8_ary_merkle_tree(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 2 + tree_depth * 7)?;
+
     let var_leaf = verifier.commit(commitments.remove(0));
 
     let var_leaf_idx = verifier.commit(commitments.remove(0));
-- 
2.43.0


From f0855e2422a681e7542c05e5598d864ed783a8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:23 +0000
Subject: [PATCH 10/10] fix: gadgets: convert u64 inputs of more than 58 bits
 correctly

---
 src/r1cs/gadgets/bound_check.rs        | 19 ++++++++++---------
 src/r1cs/gadgets/set_membership_alt.rs |  7 ++++---
 src/utils/mod.rs                       |  8 ++++++++
 3 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/r1cs/gadgets/bound_check.rs b/src/r1cs/gadgets/bound_check.rs
index 2641f54..f2a0102 100644
--- a/src/r1cs/gadgets/bound_check.rs
+++ b/src/r1cs/gadgets/bound_check.rs
@@ -3,6 +3,7 @@ use super::helper_constraints::positive_no::positive_no_gadget;
 use crate::errors::R1CSError;
 use crate::r1cs::linear_combination::AllocatedQuantity;
 use crate::r1cs::{ConstraintSystem, LinearCombination, Prover, R1CSProof, Variable, Verifier};
+use crate::utils::field_elem_from_u64;
 use amcl_wrapper::field_elem::FieldElement;
 use amcl_wrapper::group_elem_g1::{G1Vector, G1};
 use merlin::Transcript;
@@ -23,12 +24,12 @@ pub fn bound_check_gadget<CS: ConstraintSystem>(
     // b = max - v
     // a + b = max - min
 
-    cs.constrain(v.variable - LinearCombination::from(FieldElement::from(min)) - a.variable);
+    cs.constrain(v.variable - LinearCombination::from(field_elem_from_u64(min)) - a.variable);
 
-    cs.constrain(LinearCombination::from(FieldElement::from(max)) - v.variable - b.variable);
+    cs.constrain(LinearCombination::from(field_elem_from_u64(max)) - v.variable - b.variable);
 
     // Constrain a + b to be same as max - min.
-    constrain_lc_with_scalar::<CS>(cs, a.variable + b.variable, &FieldElement::from(max - min));
+    constrain_lc_with_scalar::<CS>(cs, a.variable + b.variable, &field_elem_from_u64(max - min));
 
     // Constrain a in [0, 2^n)
     positive_no_gadget(cs, a, n)?;
@@ -55,26 +56,26 @@ pub fn prove_bounded_num<R: RngCore + CryptoRng>(
     let mut comms = vec![];
 
     let (com_v, var_v) = prover.commit(
-        val.into(),
+        field_elem_from_u64(val),
         randomness.unwrap_or_else(|| FieldElement::random_using_rng(rng.unwrap())),
     );
     let quantity_v = AllocatedQuantity {
         variable: var_v,
-        assignment: Some(val.into()),
+        assignment: Some(field_elem_from_u64(val)),
     };
     comms.push(com_v);
 
-    let (com_a, var_a) = prover.commit(a.into(), FieldElement::random());
+    let (com_a, var_a) = prover.commit(field_elem_from_u64(a), FieldElement::random());
     let quantity_a = AllocatedQuantity {
         variable: var_a,
-        assignment: Some(a.into()),
+        assignment: Some(field_elem_from_u64(a)),
     };
     comms.push(com_a);
 
-    let (com_b, var_b) = prover.commit(b.into(), FieldElement::random());
+    let (com_b, var_b) = prover.commit(field_elem_from_u64(b), FieldElement::random());
     let quantity_b = AllocatedQuantity {
         variable: var_b,
-        assignment: Some(b.into()),
+        assignment: Some(field_elem_from_u64(b)),
     };
     comms.push(com_b);
 
diff --git a/src/r1cs/gadgets/set_membership_alt.rs b/src/r1cs/gadgets/set_membership_alt.rs
index 911627b..bb47d3c 100644
--- a/src/r1cs/gadgets/set_membership_alt.rs
+++ b/src/r1cs/gadgets/set_membership_alt.rs
@@ -4,6 +4,7 @@ use super::helper_constraints::vector_sum::vector_sum_constraints;
 use crate::errors::R1CSError;
 use crate::r1cs::linear_combination::AllocatedQuantity;
 use crate::r1cs::{ConstraintSystem, LinearCombination, Prover, R1CSProof, Variable, Verifier};
+use crate::utils::field_elem_from_u64;
 use amcl_wrapper::field_elem::FieldElement;
 use amcl_wrapper::group_elem_g1::{G1Vector, G1};
 use merlin::Transcript;
@@ -67,9 +68,9 @@ pub fn vector_product_gadget<CS: ConstraintSystem>(
             vector[i]
                 .assignment
                 .as_ref()
-                .map(|bit| (bit.clone(), items[i].into())),
+                .map(|bit| (bit.clone(), field_elem_from_u64(items[i]))),
         )?;
-        constrain_lc_with_scalar::<CS>(cs, item_var.into(), &items[i].into());
+        constrain_lc_with_scalar::<CS>(cs, item_var.into(), &field_elem_from_u64(items[i]));
         // `bit_var` is the committed bit
         cs.constrain(bit_var - vector[i].variable);
 
@@ -125,7 +126,7 @@ pub fn prove_set_membership_alt<R: RngCore + CryptoRng>(
     // The bit vector sum should be 1
     vector_sum_constraints(prover, bit_vars, 1)?;
 
-    let _value = FieldElement::from(value);
+    let _value = field_elem_from_u64(value);
     let (com_value, var_value) = prover.commit(
         _value.clone(),
         randomness.unwrap_or_else(|| FieldElement::random_using_rng(rng.unwrap())),
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 8b57797..e6d12df 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -38,6 +38,14 @@ pub fn gen_challenges(input: &[&G1], state: &mut Vec<u8>, n: usize) -> Vec<Field
     r
 }
 
+/// `FieldElement::from(u64)` keeps the whole integer in a single limb, which is too small for
+/// integers of more than 58 bits. This conversion is correct for all of them.
+pub fn field_elem_from_u64(x: u64) -> FieldElement {
+    let low = FieldElement::from(x as u32);
+    let high = FieldElement::from((x >> 32) as u32);
+    &(&high * &FieldElement::from(1u64 << 32)) + &low
+}
+
 #[macro_export]
 macro_rules! vec_to_array {
     ( $typ:ident, $size:expr, $vec: ident) => {{
-- 
2.43.0

