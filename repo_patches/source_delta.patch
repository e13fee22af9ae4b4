From bb195e6a56fc90d73d2b1e97a53e981f02817780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:13 +0000
Subject: [PATCH 01/48] fix: find an existing variable in short linear
 combinations

get_var_loc never returned Ok for combinations of fewer than six terms, so adding a
variable that was already present inserted a second term for it.
---
 r1cs/src/impl_lc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/r1cs/src/impl_lc.rs b/r1cs/src/impl_lc.rs
index c450e42..61d4d5a 100644
--- a/r1cs/src/impl_lc.rs
+++ b/r1cs/src/impl_lc.rs
@@ -59,7 +59,9 @@ impl<F: Field> LinearCombination<F> {
         if self.0.len() < 6 {
             let mut found_index = 0;
             for (i, (var, _)) in self.0.iter().enumerate() {
-                if var >= search_var {
+                if var == search_var {
+                    return Ok(i);
+                } else if var >= search_var {
                     found_index = i;
                     break;
                 } else {
-- 
2.43.0


From edb37d3516395e5b344f11fafff42628d7bcbb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 02/48] fix: tie the Bulletproofs inner-product commitment to
 the proof's vectors

The verifier took IPP_P from the proof without relating it to l_x, r_x and
t_x, so a prover could pass the polynomial check with any t_x. Also check
the lengths of everything the verifier indexes and answer false instead of
aborting.
---
 bulletproofs/src/arithmetic_circuit.rs  | 27 ++++++++++++++++++++++---
 bulletproofs/src/inner_product_proof.rs | 10 +++++++--
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/bulletproofs/src/arithmetic_circuit.rs b/bulletproofs/src/arithmetic_circuit.rs
index 0229cd7..d8744bd 100755
--- a/bulletproofs/src/arithmetic_circuit.rs
+++ b/bulletproofs/src/arithmetic_circuit.rs
@@ -623,6 +623,19 @@ pub fn verify_proof<G: Curve>(
     let mut r1_public_inputs = vec![one];
     r1_public_inputs.extend(public_inputs);
 
+    // every length has to fit before anything is computed from it
+    if gens.n == 0
+        || gens.n > gens.N
+        || gens.n_w > gens.N
+        || gens.k != r1_public_inputs.len()
+        || gens.g_vec_N.len() != gens.N
+        || gens.h_vec_N.len() != gens.N
+        || proof.l_x.len() != gens.N
+        || proof.r_x.len() != gens.N
+    {
+        return Ok(false);
+    }
+
     // generators
     let g_vec: Vec<G::Affine> = gens.g_vec_N.clone();
     let h_vec: Vec<G::Affine> = gens.h_vec_N.clone();
@@ -797,8 +810,14 @@ pub fn verify_proof<G: Curve>(
     let ux = (gens.u.mul(x_1)).into_affine();
 
     // check tx ?= <lx, rx>
-    // USE IPP here
-    // assert_eq!(proof.t_x, inner_product::<G::Fr>(&proof.l_x, &proof.r_x));
+    // USE IPP here, on the commitment to exactly this l_x, r_x and t_x
+    let IPP_P = (quick_multiexp::<G>(&proof.l_x, &gens.g_vec_N)
+        + &quick_multiexp::<G>(&proof.r_x, &gens.h_vec_N)
+        + &ux.mul(proof.t_x))
+        .into_affine();
+    if IPP_P != proof.IPP_P {
+        return Ok(false);
+    }
     if !inner_product_proof::verify(
         &mut transcript,
         gens.g_vec_N.clone(),
@@ -828,7 +847,9 @@ pub fn verify_proof<G: Curve>(
             + &proof.T_9.mul(xxxx * &(xxxx * &x))
             + &proof.T_10.mul(xxxx * &(xxxx * &xx));
 
-    assert_eq!(checkT_lhs, checkT_rhs);
+    if checkT_lhs != checkT_rhs {
+        return Ok(false);
+    }
 
     let y_n_neg: Vec<G::Fr> = (0..gens.N).map(|i| -one * &y_n[i]).collect();
     let P = proof.A_I.mul(xx)
diff --git a/bulletproofs/src/inner_product_proof.rs b/bulletproofs/src/inner_product_proof.rs
index 6ddb672..b929966 100755
--- a/bulletproofs/src/inner_product_proof.rs
+++ b/bulletproofs/src/inner_product_proof.rs
@@ -119,8 +119,14 @@ pub fn verify<G: Curve>(
     proof: &Proof<G>,
 ) -> bool {
     let lg_n = proof.L_vec.len();
-    let n = 1 << lg_n;
-    assert_eq!(lg_n, proof.R_vec.len());
+    let n = g_vec.len();
+    if h_vec.len() != n
+        || !n.is_power_of_two()
+        || n.trailing_zeros() as usize != lg_n
+        || proof.R_vec.len() != lg_n
+    {
+        return false;
+    }
     transcript.append_u64(b"n", n as u64);
     transcript.append_message(b"u", &to_bytes!(u).unwrap());
     transcript.append_message(b"P", &to_bytes!(P).unwrap());
-- 
2.43.0


From c8794aab31820ef3cd03957706a4b350e26289b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 03/48] fix: serialize Curve25519 points to the 32 bytes they
 are read from

A slice serializes with a length prefix that neither serialized_size nor
deserialize accounts for, so no point (or proof) survived a round trip.
---
 curve25519/src/group.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/curve25519/src/group.rs b/curve25519/src/group.rs
index 59707c0..047c6e1 100644
--- a/curve25519/src/group.rs
+++ b/curve25519/src/group.rs
@@ -292,8 +292,10 @@ impl Zeroize for Curve25519Point {
 
 impl CanonicalSerialize for Curve25519Point {
     #[inline]
-    fn serialize<W: io::Write>(&self, writer: W) -> Result<(), SerializationError> {
-        self.0.compress().as_bytes().serialize(writer)
+    fn serialize<W: io::Write>(&self, mut writer: W) -> Result<(), SerializationError> {
+        // the bare 32 bytes, without the length prefix of a slice
+        writer.write_all(self.0.compress().as_bytes())?;
+        Ok(())
     }
 
     #[inline]
@@ -302,8 +304,10 @@ impl CanonicalSerialize for Curve25519Point {
     }
 
     #[inline]
-    fn serialize_uncompressed<W: io::Write>(&self, writer: W) -> Result<(), SerializationError> {
-        self.0.compress().as_bytes().serialize(writer)
+    fn serialize_uncompressed<W: io::Write>(&self, mut writer: W) -> Result<(), SerializationError> {
+        // the bare 32 bytes, without the length prefix of a slice
+        writer.write_all(self.0.compress().as_bytes())?;
+        Ok(())
     }
 
     #[inline]
-- 
2.43.0


From 7e7ea81fdfd298cb6a41eddf2cc9832aff25c39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 04/48] fix: constants of the Curve25519 scalar field

(q-1)/2, t and (t-1)/2 lacked the high limbs of q, 9 is a square and so no
generator, and the root of unity was zero: square roots and Legendre
symbols were wrong.
---
 curve25519/src/fr.rs | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/curve25519/src/fr.rs b/curve25519/src/fr.rs
index 7d47627..34b6c4b 100644
--- a/curve25519/src/fr.rs
+++ b/curve25519/src/fr.rs
@@ -17,10 +17,10 @@ impl FftParameters for FrParameters {
 
     #[rustfmt::skip]
     const TWO_ADIC_ROOT_OF_UNITY: BigInteger = BigInteger([
-        0x0,
-        0x0,
-        0x0,
-        0x0,
+        8969215743819189885,
+        5516037659391044808,
+        15508184678381615533,
+        385507852950656554,
     ]);
 }
 
@@ -62,38 +62,38 @@ impl FpParameters for FrParameters {
     /// INV = -(q^{-1} mod 2^64) mod 2^64
     const INV: u64 = 15183074304973897243u64;
 
-    /// GENERATOR = 9
+    /// GENERATOR = 2
     const GENERATOR: BigInteger = BigInteger([
-        14824341744311508637u64,
-        6301218275840713796u64,
-        18446744073709551604u64,
+        6180627327055779405u64,
+        8718896354912633355u64,
+        18446744073709551613u64,
         1152921504606846975u64,
     ]);
 
     /// (Self::MODULUS - 1) / 2
     #[rustfmt::skip]
     const MODULUS_MINUS_ONE_DIV_TWO: BigInteger = BigInteger([
-        13876462170967809896,
-        12031312481604134578,
+        3173121894899182070,
+        751957030100258411,
         0,
-        0
+        576460752303423488
     ]);
 
     /// t for 2^s * t = MODULUS - 1
     #[rustfmt::skip]
     const T: BigInteger = BigInteger([
-        6938231085483904948,
-        6015656240802067289,
+        10809932984304366843,
+        375978515050129205,
         0,
-        0
+        288230376151711744
     ]);
 
     /// (t - 1) / 2
     #[rustfmt::skip]
     const T_MINUS_ONE_DIV_TWO: BigInteger = BigInteger([
-        2367949182742163228,
-        18046968722406201868,
+        14628338529006959229,
+        187989257525064602,
         0,
-        0
+        144115188075855872
     ]);
 }
-- 
2.43.0


From 1b8608caab99a7464e022972c13d1c49d627ba60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 05/48] fix: implement the missing Curve25519 group operations

Doubling, normalisation, the projective generator and the cofactor
operations aborted, multiplying by an integer outside the scalar field
aborted, and zeroize did nothing.
---
 curve25519/src/group.rs | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/curve25519/src/group.rs b/curve25519/src/group.rs
index 047c6e1..c2a6aa3 100644
--- a/curve25519/src/group.rs
+++ b/curve25519/src/group.rs
@@ -1,4 +1,4 @@
-use ark_ff::{FromBytes, PrimeField, ToBytes, Zero};
+use ark_ff::{Field, FromBytes, PrimeField, ToBytes, Zero};
 use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, SerializationError};
 use ark_std::io;
 use curve25519_dalek::ristretto::CompressedRistretto;
@@ -73,9 +73,7 @@ impl AffineCurve for Curve25519Point {
         &self,
         other: S,
     ) -> Self::Projective {
-        let mut p = self.clone();
-        p *= Fr::from_repr(other.into()).unwrap();
-        p
+        ProjectiveCurve::mul(*self, other.into())
     }
 
     fn mul_by_cofactor(&self) -> Self {
@@ -85,12 +83,13 @@ impl AffineCurve for Curve25519Point {
     }
 
     fn mul_by_cofactor_inv(&self) -> Self {
-        //self *= (Fr::from(8u32).inverse().unwrap())
-        panic!("Curve mul_by_cofactor_inv");
+        let mut p = self.clone();
+        p *= Fr::from(8u32).inverse().unwrap();
+        p
     }
 
     fn mul_by_cofactor_to_projective(&self) -> Self::Projective {
-        panic!("Curve mul_by_cofactor_to_projective");
+        self.mul_by_cofactor()
     }
 }
 
@@ -102,11 +101,11 @@ impl ProjectiveCurve for Curve25519Point {
     const COFACTOR: &'static [u64] = &[0, 0, 0, 0];
 
     fn prime_subgroup_generator() -> Self {
-        panic!("Curve prime_subgroup_generator");
+        <Self as AffineCurve>::prime_subgroup_generator()
     }
 
     fn batch_normalization(_v: &mut [Self]) {
-        panic!("Curve batch normalization");
+        // there is only one representation
     }
 
     fn batch_normalization_into_affine(v: &[Self]) -> crate::Vec<Self::Affine> {
@@ -116,7 +115,7 @@ impl ProjectiveCurve for Curve25519Point {
     }
 
     fn is_normalized(&self) -> bool {
-        panic!("Curve is_normalized");
+        true
     }
 
     fn double(&self) -> Self {
@@ -126,7 +125,8 @@ impl ProjectiveCurve for Curve25519Point {
     }
 
     fn double_in_place(&mut self) -> &mut Self {
-        panic!("Curve double_in_place");
+        self.0 = self.0 + self.0;
+        self
     }
 
     fn into_affine(&self) -> Self::Affine {
@@ -143,14 +143,13 @@ impl ProjectiveCurve for Curve25519Point {
     }
 
     fn mul<S: AsRef<[u64]>>(mut self, other: S) -> Self {
-        assert_eq!(other.as_ref().len(), 4);
-        let mut vec = Vec::new();
-        for i in other.as_ref().iter() {
-            let _ = i.serialize(&mut vec);
+        // any integer is a valid multiplier; only its residue matters
+        let shift = Scalar::from(u64::max_value()) + Scalar::one();
+        let mut k = Scalar::zero();
+        for limb in other.as_ref().iter().rev() {
+            k = k * shift + Scalar::from(*limb);
         }
-        let mut bytes = [0u8; 32];
-        bytes.copy_from_slice(&vec[..]);
-        self.0 *= Scalar::from_canonical_bytes(bytes).unwrap();
+        self.0 *= k;
         self
     }
 }
@@ -286,7 +285,7 @@ impl core::hash::Hash for Curve25519Point {
 
 impl Zeroize for Curve25519Point {
     fn zeroize(&mut self) {
-        // RistrettoPoint has zeroize
+        self.0.zeroize();
     }
 }
 
-- 
2.43.0


From 71f422d87feed434539c182b81261cafd2b23ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 06/48] fix: keep positions when skipping zero public inputs in
 Spartan

---
 spartan/src/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spartan/src/polynomial.rs b/spartan/src/polynomial.rs
index b3d7e17..b182f1d 100644
--- a/spartan/src/polynomial.rs
+++ b/spartan/src/polynomial.rs
@@ -41,8 +41,8 @@ pub fn sparse_evaluate_value<G: Curve>(value: &Vec<G::Fr>, r: &Vec<G::Fr>) -> G:
     let num_bits = r.len();
     let result = value
         .iter()
-        .filter(|&v| !v.is_zero())
         .enumerate()
+        .filter(|(_, v)| !v.is_zero())
         .map(|(i, v)| {
             let bits = (0..num_bits)
                 .map(|shift_amount| ((i & (1 << (num_bits - shift_amount - 1))) > 0))
-- 
2.43.0


From baa73d3ca88a7e890ec03fdfefa8bdafabed5be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 07/48] fix: evaluate the matrices at the verifier's challenges
 in Spartan NIZK

---
 spartan/src/verify.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/spartan/src/verify.rs b/spartan/src/verify.rs
index 91d242d..b5bf2f5 100644
--- a/spartan/src/verify.rs
+++ b/spartan/src/verify.rs
@@ -36,10 +36,14 @@ pub fn verify_nizk_proof<G: Curve>(
 
 
     let (rx, ry) = &proof.r;
+    let t = cmp::max(r1cs.num_aux, r1cs.num_inputs).next_power_of_two();
+    if rx.len() != log2(r1cs.num_constraints) as usize || ry.len() != log2(t) as usize + 1 {
+        return Ok(false);
+    }
     let eval_a_r = evaluate_mle::<G>(&r1cs.a_matrix, rx, ry);
     let eval_b_r = evaluate_mle::<G>(&r1cs.b_matrix, rx, ry);
     let eval_c_r = evaluate_mle::<G>(&r1cs.c_matrix, rx, ry);
-    let (result, _, _) = r1cs_satisfied_verify::<G>(
+    let (result, r_x, r_y) = r1cs_satisfied_verify::<G>(
         &params.r1cs_satisfied_params,
         r1cs,
         inputs,
@@ -48,7 +52,8 @@ pub fn verify_nizk_proof<G: Curve>(
         &mut transcript,
     )?;
 
-    Ok(result)
+    // the matrices must have been evaluated at the verifier's own challenges
+    Ok(result && *rx == r_x && *ry == r_y)
 }
 
 pub fn verify_snark_proof<G: Curve>(
-- 
2.43.0


From 833f0330173137165cca8930152756780bacfca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 08/48] fix: refuse Spartan proofs whose lists do not have the
 prescribed lengths

---
 spartan/src/inner_product.rs |   6 +-
 spartan/src/verify.rs        | 110 +++++++++++++++++++++--------------
 2 files changed, 70 insertions(+), 46 deletions(-)

diff --git a/spartan/src/inner_product.rs b/spartan/src/inner_product.rs
index defc662..d15b9cd 100644
--- a/spartan/src/inner_product.rs
+++ b/spartan/src/inner_product.rs
@@ -109,8 +109,10 @@ pub fn bullet_inner_product_verify<G: Curve>(
     transcript: &mut Transcript,
 ) -> Result<(G::Fr, G::Affine, G::Affine), SynthesisError> {
     let lg_n = proof.l_vec.len();
-    let n = 1 << lg_n;
-    assert_eq!(lg_n, proof.r_vec.len());
+    let n = b_vec.len();
+    if lg_n != log2(n) as usize || proof.r_vec.len() != lg_n || g_vec.len() < n {
+        return Err(SynthesisError::MalformedVerifyingKey);
+    }
 
     let mut x_sq_vec = Vec::with_capacity(lg_n);
     let mut x_inv_sq_vec = Vec::with_capacity(lg_n);
diff --git a/spartan/src/verify.rs b/spartan/src/verify.rs
index b5bf2f5..7bbd384 100644
--- a/spartan/src/verify.rs
+++ b/spartan/src/verify.rs
@@ -304,6 +304,10 @@ fn sum_check_verify<G: Curve>(
 ) -> Result<(Vec<G::Fr>, G::Affine), SynthesisError> {
     let mut commit_claim = commit_claim;
 
+    ensure(proof.comm_polys.len() == num_rounds)?;
+    ensure(proof.comm_evals.len() == num_rounds)?;
+    ensure(proof.proofs.len() == num_rounds)?;
+
     let mut rx: Vec<G::Fr> = Vec::new();
     for i in 0..num_rounds {
         let commit_poly = proof.comm_polys[i];
@@ -352,6 +356,8 @@ fn sum_check_eval_verify<G: Curve>(
     size: usize,
     transcript: &mut Transcript,
 ) -> Result<bool, SynthesisError> {
+    ensure(proof.z.len() == size)?;
+
     let w = (0..2)
         .map(|_i| {
             let mut buf = [0u8; 31];
@@ -438,6 +444,8 @@ fn product_verify<G: Curve>(
     prod_commit: G::Affine,
     transcript: &mut Transcript,
 ) -> Result<bool, SynthesisError> {
+    ensure(proof.z.len() == 5)?;
+
     let z1 = proof.z[0];
     let z2 = proof.z[1];
     let z3 = proof.z[2];
@@ -509,6 +517,7 @@ fn inner_product_verify<G: Curve>(
 
     let l_eq_ry = eval_eq::<G>(&(ry[0..size / 2].to_vec()));
     let r_eq_ry = eval_eq::<G>(&ry[size / 2..size].to_vec());
+    ensure(commits_witness.len() == l_eq_ry.len())?;
 
     let commit_lz =
         poly_commit_vec::<G>(commits_witness, &l_eq_ry, &params.gen_1.h, G::Fr::zero())?.commit;
@@ -558,7 +567,7 @@ fn sparse_poly_eval_verify<G: Curve>(
     let (rx, ry) = equalize_length::<G>(&rx, &ry)?;
 
     let (n, m) = (encode_commit.n, encode_commit.m);
-    assert_eq!((2usize).pow(rx.len() as u32), m);
+    ensure((2usize).pow(rx.len() as u32) == m)?;
 
     transcript.append_message(
         b"comm_poly_row_col_ops_val",
@@ -582,9 +591,9 @@ fn sparse_poly_eval_verify<G: Curve>(
             &vec![eval_a_r, eval_b_r, eval_c_r],
             transcript,
         )?;
-    assert_eq!(claims_mem.len(), 4);
-    assert_eq!(claims_ops.len(), 12);
-    assert_eq!(claims_ops_dotp.len(), 9);
+    ensure(claims_mem.len() == 4)?;
+    ensure(claims_ops.len() == 12)?;
+    ensure(claims_ops_dotp.len() == 9)?;
 
     let claims_ops_row_read = claims_ops[0..3].to_vec();
     let claims_ops_row_write = claims_ops[3..6].to_vec();
@@ -616,7 +625,7 @@ fn sparse_poly_eval_verify<G: Curve>(
         transcript,
     )
     .is_ok();
-    assert!(result);
+    ensure(result)?;
 
     Ok(true)
 }
@@ -646,19 +655,19 @@ where
     let (col_init, col_read_list, col_write_list, col_audit) = &proof.eval_col;
     let (eval_dotp_left_list, eval_dotp_right_list) = &proof.eval_dotp;
 
-    assert_eq!(row_read_list.len(), 3);
-    assert_eq!(row_write_list.len(), 3);
-    assert_eq!(col_read_list.len(), 3);
-    assert_eq!(col_write_list.len(), 3);
-    assert_eq!(eval_dotp_left_list.len(), 3);
-    assert_eq!(eval_dotp_right_list.len(), 3);
-    assert_eq!(evals.len(), 3);
+    ensure(row_read_list.len() == 3)?;
+    ensure(row_write_list.len() == 3)?;
+    ensure(col_read_list.len() == 3)?;
+    ensure(col_write_list.len() == 3)?;
+    ensure(eval_dotp_left_list.len() == 3)?;
+    ensure(eval_dotp_right_list.len() == 3)?;
+    ensure(evals.len() == 3)?;
 
     let row_read: G::Fr = (0..row_read_list.len()).map(|i| row_read_list[i]).product();
     let row_write: G::Fr = (0..row_write_list.len())
         .map(|i| row_write_list[i])
         .product();
-    assert_eq!(*row_init * &row_write, row_read * row_audit);
+    ensure(*row_init * &row_write == row_read * row_audit)?;
 
     transcript.append_message(b"claim_row_eval_init", &to_bytes!(row_init)?);
     transcript.append_message(b"claim_row_eval_read", &to_bytes!(row_read_list)?);
@@ -669,7 +678,7 @@ where
     let col_write: G::Fr = (0..col_write_list.len())
         .map(|i| col_write_list[i])
         .product();
-    assert_eq!(*col_init * &col_write, col_read * col_audit);
+    ensure(*col_init * &col_write == col_read * col_audit)?;
 
     transcript.append_message(b"claim_col_eval_init", &to_bytes!(col_init)?);
     transcript.append_message(b"claim_col_eval_read", &to_bytes!(col_read_list)?);
@@ -678,7 +687,7 @@ where
 
     let mut claims_dotp_circuit = Vec::new();
     for i in 0..eval_dotp_left_list.len() {
-        assert_eq!(eval_dotp_left_list[i] + &eval_dotp_right_list[i], evals[i]);
+        ensure(eval_dotp_left_list[i] + &eval_dotp_right_list[i] == evals[i])?;
         transcript.append_message(b"claim_eval_dotp_left", &to_bytes!(eval_dotp_left_list[i])?);
         transcript.append_message(
             b"claim_eval_dotp_right",
@@ -729,7 +738,7 @@ pub fn product_circuit_eval_verify<G: Curve>(
     let layer_num = log2(n) as usize;
     let mut claims_to_verify = claims_prod_circuit.clone();
 
-    assert_eq!(proof.layers_proof.len(), layer_num);
+    ensure(proof.layers_proof.len() == layer_num)?;
 
     let mut num_rounds = 0;
     let mut rands = Vec::new();
@@ -759,14 +768,14 @@ pub fn product_circuit_eval_verify<G: Curve>(
         )?;
         let claim_prod_left = &proof.layers_proof[i].claim_prod_left;
         let claim_prod_right = &proof.layers_proof[i].claim_prod_right;
-        assert_eq!(claim_prod_left.len(), claim_prod_right.len());
-        assert_eq!(claim_prod_left.len(), claims_prod_circuit.len());
+        ensure(claim_prod_left.len() == claim_prod_right.len())?;
+        ensure(claim_prod_left.len() == claims_prod_circuit.len())?;
         for i in 0..claim_prod_left.len() {
             transcript.append_message(b"claim_prod_left", &to_bytes!(claim_prod_left[i])?);
             transcript.append_message(b"claim_prod_right", &to_bytes!(claim_prod_right[i])?);
         }
 
-        assert_eq!(rands.len(), r.len());
+        ensure(rands.len() == r.len())?;
         let eq: G::Fr = (0..r.len())
             .map(|i| r[i] * &rands[i] + &((G::Fr::one() - &r[i]) * &(G::Fr::one() - &rands[i])))
             .product();
@@ -777,6 +786,9 @@ pub fn product_circuit_eval_verify<G: Curve>(
 
         if i == layer_num - 1 {
             let (claim_dotp_row, claim_dotp_col, claim_dotp_val) = &proof.claim_dotp;
+            ensure(claim_dotp_row.len() == claims_dotp_circuit.len())?;
+            ensure(claim_dotp_col.len() == claims_dotp_circuit.len())?;
+            ensure(claim_dotp_val.len() == claims_dotp_circuit.len())?;
             for i in 0..claim_dotp_row.len() {
                 transcript.append_message(b"claim_dotp_row", &to_bytes!(claim_dotp_row[i])?);
                 transcript.append_message(b"claim_dotp_col", &to_bytes!(claim_dotp_col[i])?);
@@ -789,7 +801,7 @@ pub fn product_circuit_eval_verify<G: Curve>(
             }
         }
 
-        assert_eq!(claim_expected, claim_final);
+        ensure(claim_expected == claim_final)?;
         let mut buf = [0u8; 31];
         transcript.challenge_bytes(b"challenge_r_layer", &mut buf);
         let r_layer = random_bytes_to_fr::<G>(&buf);
@@ -828,13 +840,11 @@ pub fn sum_check_cubic_verify<G: Curve>(
     let mut claim_per_round = claim;
     let mut r = Vec::new();
 
-    assert_eq!(proof_poly.len(), num_rounds);
+    ensure(proof_poly.len() == num_rounds)?;
     for poly in proof_poly.iter() {
+        ensure(poly.coeffs.len() <= 4)?;
         transcript.append_message(b"comm_poly", &to_bytes!(poly.coeffs)?);
-        assert_eq!(
-            poly.evaluate(&G::Fr::zero()) + &poly.evaluate(&G::Fr::one()),
-            claim_per_round
-        );
+        ensure(poly.evaluate(&G::Fr::zero()) + &poly.evaluate(&G::Fr::one()) == claim_per_round)?;
         let mut buf = [0u8; 31];
         transcript.challenge_bytes(b"challenge_nextround", &mut buf);
         let r_j = random_bytes_to_fr::<G>(&buf);
@@ -860,7 +870,7 @@ pub fn hash_layer_verify<G: Curve>(
 ) -> Result<(), SynthesisError> {
     transcript.append_message(b"protocol-name", b"Sparse polynomial hash layer proof");
 
-    assert_eq!(claims_dotp.len(), 9);
+    ensure(claims_dotp.len() == 9)?;
     let (ops_rands, mem_rands) = rands;
     let (rx, ry) = r;
     // let (gamma1,gamma2) = gamma;
@@ -868,8 +878,8 @@ pub fn hash_layer_verify<G: Curve>(
     // let  (claims_col_init, claims_col_read_list, claims_col_write_list, claims_col_audit) = claims_col;
 
     let (eval_row_ops_val, eval_col_ops_val) = &proof.evals_derefs;
-    assert_eq!(eval_row_ops_val.len(), eval_col_ops_val.len());
-    assert_eq!(eval_row_ops_val.len(), 3);
+    ensure(eval_row_ops_val.len() == eval_col_ops_val.len())?;
+    ensure(eval_row_ops_val.len() == 3)?;
     let mut evals = eval_row_ops_val.clone();
     evals.extend(eval_col_ops_val.clone());
     evals.resize(evals.len().next_power_of_two(), G::Fr::zero());
@@ -888,7 +898,7 @@ pub fn hash_layer_verify<G: Curve>(
     for i in (0..cs.len()).rev() {
         bound_poly_var_bot::<G>(&mut evals, cs[i]);
     }
-    assert_eq!(evals.len(), 1);
+    ensure(evals.len() == 1)?;
     let claim_eval = evals[0];
     // let mut rs = cs;
     cs.extend(ops_rands);
@@ -910,19 +920,23 @@ pub fn hash_layer_verify<G: Curve>(
         &proof.proof_derefs,
         transcript,
     )?;
-    assert!(result);
+    ensure(result)?;
     let eval_val_list = &proof.evals_val;
-    assert_eq!(eval_val_list.len(), 3);
+    ensure(eval_val_list.len() == 3)?;
     for i in 0..3 {
-        assert_eq!(claims_dotp[i * 3], eval_row_ops_val[i]);
-        assert_eq!(claims_dotp[i * 3 + 1], eval_col_ops_val[i]);
-        assert_eq!(claims_dotp[i * 3 + 2], eval_val_list[i]);
+        ensure(claims_dotp[i * 3] == eval_row_ops_val[i])?;
+        ensure(claims_dotp[i * 3 + 1] == eval_col_ops_val[i])?;
+        ensure(claims_dotp[i * 3 + 2] == eval_val_list[i])?;
     }
 
     let (row_eval_addr_ops_list, row_eval_read_ts_list, row_eval_audit_ts_val) =
         proof.evals_row.clone();
     let (col_eval_addr_ops_list, col_eval_read_ts_list, col_eval_audit_ts_val) =
         proof.evals_col.clone();
+    ensure(row_eval_addr_ops_list.len() == 3)?;
+    ensure(row_eval_read_ts_list.len() == 3)?;
+    ensure(col_eval_addr_ops_list.len() == 3)?;
+    ensure(col_eval_read_ts_list.len() == 3)?;
 
     let mut evals_ops: Vec<G::Fr> = Vec::new();
     evals_ops.extend(row_eval_addr_ops_list);
@@ -944,7 +958,7 @@ pub fn hash_layer_verify<G: Curve>(
     for i in (0..cs_ops.len()).rev() {
         bound_poly_var_bot::<G>(&mut evals_ops, cs_ops[i]);
     }
-    assert_eq!(evals_ops.len(), 1);
+    ensure(evals_ops.len() == 1)?;
     let claim_eval_ops = evals_ops[0];
     // let mut rs_ops = cs_ops;
     cs_ops.extend(ops_rands);
@@ -965,7 +979,7 @@ pub fn hash_layer_verify<G: Curve>(
         &proof.proof_ops,
         transcript,
     )?;
-    assert!(result);
+    ensure(result)?;
     let mut evals_mem = vec![row_eval_audit_ts_val, col_eval_audit_ts_val];
     transcript.append_message(b"claim_evals_mem", &to_bytes!(evals_mem)?);
     let mut cs_mem = (0..log2(evals_mem.len()))
@@ -979,7 +993,7 @@ pub fn hash_layer_verify<G: Curve>(
     for i in (0..cs_mem.len()).rev() {
         bound_poly_var_bot::<G>(&mut evals_mem, cs_mem[i]);
     }
-    assert_eq!(evals_mem.len(), 1);
+    ensure(evals_mem.len() == 1)?;
     let claim_eval_mem = evals_mem[0];
     // let mut rs_mem = cs_mem;
     cs_mem.extend(mem_rands);
@@ -1002,7 +1016,7 @@ pub fn hash_layer_verify<G: Curve>(
         &proof.proof_mem,
         transcript,
     )?;
-    assert!(result);
+    ensure(result)?;
     let (row_eval_addr_ops_list, row_eval_read_ts_list, row_eval_audit_ts_val) = &proof.evals_row;
     let result = behind_verify_for_timestamp::<G>(
         rands,
@@ -1015,7 +1029,7 @@ pub fn hash_layer_verify<G: Curve>(
         gamma,
     )
     .is_ok();
-    assert!(result);
+    ensure(result)?;
     let (col_eval_addr_ops_list, col_eval_read_ts_list, col_eval_audit_ts_val) = &proof.evals_col;
     let result = behind_verify_for_timestamp::<G>(
         rands,
@@ -1028,7 +1042,7 @@ pub fn hash_layer_verify<G: Curve>(
         gamma,
     )
     .is_ok();
-    assert!(result);
+    ensure(result)?;
     Ok(())
 }
 
@@ -1059,14 +1073,14 @@ where
     let eval_init_val = eval_eq_x_y::<G>(&r, &rands_mem);
     let hash_init_at_rand_mem =
         eval_init_addr * &gamma1 * &gamma1 + &(eval_init_val * &gamma1) - &gamma2;
-    assert_eq!(claim_init, hash_init_at_rand_mem);
+    ensure(claim_init == hash_init_at_rand_mem)?;
 
     for i in 0..eval_addr_ops_list.len() {
         let hash_read_at_rand_ops = eval_addr_ops_list[i] * &gamma1 * &gamma1
             + &(eval_ops_val[i] * &gamma1)
             + &eval_read_ts_list[i]
             - &gamma2;
-        assert_eq!(claim_read_list[i], hash_read_at_rand_ops);
+        ensure(claim_read_list[i] == hash_read_at_rand_ops)?;
     }
 
     for i in 0..eval_addr_ops_list.len() {
@@ -1074,7 +1088,7 @@ where
             + &(eval_ops_val[i] * &gamma1)
             + &(eval_read_ts_list[i] + &G::Fr::one())
             - &gamma2;
-        assert_eq!(claim_write_list[i], hash_write_at_rand_ops);
+        ensure(claim_write_list[i] == hash_write_at_rand_ops)?;
     }
 
     let eval_audit_addr = eval_init_addr;
@@ -1082,7 +1096,15 @@ where
     let hash_audit_at_rand_mem =
         eval_audit_addr * &gamma1 * &gamma1 + &(eval_audit_val * &gamma1) + eval_audit_ts_val
             - &gamma2;
-    assert_eq!(cliam_audit, hash_audit_at_rand_mem);
+    ensure(cliam_audit == hash_audit_at_rand_mem)?;
 
     Ok(true)
 }
+
+fn ensure(cond: bool) -> Result<(), SynthesisError> {
+    if cond {
+        Ok(())
+    } else {
+        Err(SynthesisError::MalformedVerifyingKey)
+    }
+}
-- 
2.43.0


From 58d16f146ce3c1cb5c5e2ce86462a9121e0bcf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 09/48] fix: refuse a wrong number of public inputs in Spartan

---
 spartan/src/verify.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spartan/src/verify.rs b/spartan/src/verify.rs
index 7bbd384..be8f08f 100644
--- a/spartan/src/verify.rs
+++ b/spartan/src/verify.rs
@@ -115,6 +115,10 @@ pub fn r1cs_satisfied_verify<G: Curve>(
 ) -> Result<(bool, Vec<G::Fr>, Vec<G::Fr>), SynthesisError> {
     let (eval_a_r, eval_b_r, eval_c_r) = matrix_evals;
 
+    if inputs.len() + 1 != r1cs.num_inputs {
+        return Ok((false, Vec::new(), Vec::new()));
+    }
+
     let t = cmp::max(r1cs.num_aux, r1cs.num_inputs).next_power_of_two();
     let (num_rounds_x, num_rounds_y) = (log2(r1cs.num_constraints) as usize, log2(t) as usize + 1);
     let mut public_inputs = vec![G::Fr::one()];
-- 
2.43.0


From 61ff006491b1841bf719075c9ba827f5393e8c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 10/48] fix: drop the unverified witness evaluation from
 Spartan proofs

---
 spartan/src/data_structure.rs | 1 -
 spartan/src/prover.rs         | 1 -
 2 files changed, 2 deletions(-)

diff --git a/spartan/src/data_structure.rs b/spartan/src/data_structure.rs
index 805dd26..ef38f6e 100644
--- a/spartan/src/data_structure.rs
+++ b/spartan/src/data_structure.rs
@@ -191,7 +191,6 @@ pub struct R1CSSatProof<G: Curve> {
     pub commit_witness: Vec<G::Affine>,
     pub proof_one: SumCheckProof<G>,
     pub proof_two: SumCheckProof<G>,
-    pub w_ry: G::Fr,
     pub product_proof: DotProductProof<G>,
     pub knowledge_product_commit: KnowledgeProductCommit<G>,
     pub knowledge_product_proof: KnowledgeProductProof<G>,
diff --git a/spartan/src/prover.rs b/spartan/src/prover.rs
index 95b672d..f2cfe37 100644
--- a/spartan/src/prover.rs
+++ b/spartan/src/prover.rs
@@ -407,7 +407,6 @@ where
         commit_witness: commit_witness,
         proof_one: proof_sc1,
         proof_two: proof_sc2,
-        w_ry: eval_w_ry,
         product_proof: wproof,
         knowledge_product_commit,
         knowledge_product_proof,
-- 
2.43.0


From 91b906f7f0434a1c94e1469fedc5f1365ac1641a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 11/48] fix: give the Spartan memory check at least one layer

---
 spartan/src/spark.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spartan/src/spark.rs b/spartan/src/spark.rs
index d267615..48c12e1 100644
--- a/spartan/src/spark.rs
+++ b/spartan/src/spark.rs
@@ -35,7 +35,8 @@ pub fn encode<G: Curve, R: Rng>(
     assert_eq!(c_val.len(), c_row.len());
     assert_eq!(c_row.len(), c_col.len());
 
-    let n = cmp::max(cmp::max(a_row.len(), b_row.len()), c_row.len()).next_power_of_two();
+    // the product circuits over the operations need at least one layer
+    let n = cmp::max(cmp::max(cmp::max(a_row.len(), b_row.len()), c_row.len()), 2).next_power_of_two();
     a_row.resize(n, 0);
     b_row.resize(n, 0);
     c_row.resize(n, 0);
-- 
2.43.0


From aea7d6de5fa64465a83426e79c8de0df70f86166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 12/48] fix: hash the row structure of the Spartan constraint
 matrices

---
 spartan/src/r1cs.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spartan/src/r1cs.rs b/spartan/src/r1cs.rs
index f4987b0..1e43390 100644
--- a/spartan/src/r1cs.rs
+++ b/spartan/src/r1cs.rs
@@ -30,7 +30,7 @@ impl <G: Curve> R1CSInstance<G> {
         transcript.append_u64(b"num_constraints", self.num_constraints as u64);
     
         for matrix in self.a_matrix.iter(){
-            
+            transcript.append_u64(b"a_matrix_row", matrix.len() as u64);
             for i in 0..matrix.len(){
                 transcript.append_message(b"a_matrix", &to_bytes!(matrix[i].0).unwrap());
                 match matrix[i].1 {
@@ -40,7 +40,7 @@ impl <G: Curve> R1CSInstance<G> {
             }
         }
         for matrix in self.b_matrix.iter(){
-            
+            transcript.append_u64(b"b_matrix_row", matrix.len() as u64);
             for i in 0..matrix.len(){
                 transcript.append_message(b"b_matrix", &to_bytes!(matrix[i].0).unwrap());
                 match matrix[i].1 {
@@ -50,7 +50,7 @@ impl <G: Curve> R1CSInstance<G> {
             }
         }
         for matrix in self.c_matrix.iter(){
-            
+            transcript.append_u64(b"c_matrix_row", matrix.len() as u64);
             for i in 0..matrix.len(){
                 transcript.append_message(b"c_matrix", &to_bytes!(matrix[i].0).unwrap());
                 match matrix[i].1 {
-- 
2.43.0


From 6982647c84c3eb22a48cf59152b0958a400011bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:20 +0000
Subject: [PATCH 13/48] fix: balance Marlin matrices without underflow

When a row of A is longer than the row of B it is exchanged with, the
difference of their lengths does not fit an unsigned number.
---
 marlin/src/ahp/constraint_systems.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marlin/src/ahp/constraint_systems.rs b/marlin/src/ahp/constraint_systems.rs
index 54c318e..3d7f4c7 100644
--- a/marlin/src/ahp/constraint_systems.rs
+++ b/marlin/src/ahp/constraint_systems.rs
@@ -106,8 +106,8 @@ impl<F: Field> IndexerConstraintSystem<F> {
                 let a_row_size = a_row.len();
                 let b_row_size = b_row.len();
                 core::mem::swap(a_row, &mut b_row);
-                a_density += b_row_size - a_row_size;
-                b_density += a_row_size - b_row_size;
+                a_density = a_density + b_row_size - a_row_size;
+                b_density = b_density + a_row_size - b_row_size;
                 a_is_denser = a_density > b_density;
             }
         }
-- 
2.43.0


From e3d15d34863b262b898f610d8087467471cc00ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:20 +0000
Subject: [PATCH 14/48] fix: commit to and open constant and zero polynomials

Matrices with no entries, or with all entries in one row or column, are
encoded by such polynomials, so their circuits could not be indexed.
---
 marlin/src/ahp/prover.rs | 4 ++--
 marlin/src/pc/kzg10.rs   | 6 ++----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/marlin/src/ahp/prover.rs b/marlin/src/ahp/prover.rs
index 0d6a19d..911703c 100644
--- a/marlin/src/ahp/prover.rs
+++ b/marlin/src/ahp/prover.rs
@@ -305,7 +305,7 @@ impl<F: PrimeField> AHP<F> {
             });
         let q_1_poly = mask_poly + &r_alpha_evals.interpolate();
         let (h_1_poly, x_g_1_poly) = q_1_poly.divide_by_vanishing_poly(domain_h).unwrap();
-        let g_1_poly = DensePolynomial::from_coefficients_slice(&x_g_1_poly.coeffs[1..]);
+        let g_1_poly = DensePolynomial::from_coefficients_slice(x_g_1_poly.coeffs.get(1..).unwrap_or(&[]));
         let oracles = ProverSecondOracles {
             t: LabeledPolynomial::new_owned("t".to_string(), t_poly, None, None),
             h_1: LabeledPolynomial::new_owned("h_1".to_string(), h_1_poly, None, None),
@@ -375,7 +375,7 @@ impl<F: PrimeField> AHP<F> {
         }
 
         let t_poly = EvaluationsOnDomain::from_vec_and_domain(t_evals_on_k, domain_k).interpolate();
-        let g_2_poly = DensePolynomial::from_coefficients_slice(&t_poly.coeffs[1..]);
+        let g_2_poly = DensePolynomial::from_coefficients_slice(t_poly.coeffs.get(1..).unwrap_or(&[]));
 
         let denom_a: Vec<_> = cfg_iter!(a_star.row_evals_on_b.evals)
             .zip(&a_star.col_evals_on_b.evals)
diff --git a/marlin/src/pc/kzg10.rs b/marlin/src/pc/kzg10.rs
index e94d946..b3e8da2 100644
--- a/marlin/src/pc/kzg10.rs
+++ b/marlin/src/pc/kzg10.rs
@@ -173,9 +173,7 @@ impl<E: PairingEngine> KZG10<E> {
     }
 
     fn check_degree_is_within_bounds(degree: usize, powers: usize) -> Result<(), Error> {
-        if degree < 1 {
-            Err(Error::DegreeIsZero)
-        } else if degree > powers {
+        if degree > powers {
             Err(Error::DegreeOutOfBound)
         } else {
             Ok(())
@@ -186,7 +184,7 @@ impl<E: PairingEngine> KZG10<E> {
         p: &Polynomial<F>,
     ) -> (usize, Vec<F::BigInt>) {
         let mut num_leading_zeros = 0;
-        while p.coeffs[num_leading_zeros].is_zero() && num_leading_zeros < p.coeffs.len() {
+        while num_leading_zeros < p.coeffs.len() && p.coeffs[num_leading_zeros].is_zero() {
             num_leading_zeros += 1;
         }
         let coeffs = Self::convert_to_bigints(&p.coeffs[num_leading_zeros..]);
-- 
2.43.0


From d5a660c5805edd254e437e91a1276e105543a4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:04 +0000
Subject: [PATCH 15/48] fix: pad Marlin's inputs to a whole evaluation domain

With the constant one they were interpolated over a power of two of points,
but placed and counted as if they filled it, so proofs with other numbers of
public inputs failed to verify or could not be made.
---
 marlin/src/ahp/constraint_systems.rs | 19 +++++++++++++++++++
 marlin/src/ahp/prover.rs             |  5 ++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/marlin/src/ahp/constraint_systems.rs b/marlin/src/ahp/constraint_systems.rs
index 3d7f4c7..f0d1eee 100644
--- a/marlin/src/ahp/constraint_systems.rs
+++ b/marlin/src/ahp/constraint_systems.rs
@@ -30,6 +30,22 @@ fn make_constraint_matrices_square<F: Field, CS: ConstraintSystem<F>>(
     }
 }
 
+/// The inputs (with the constant one) fill a whole evaluation domain, of at
+/// least two elements.
+fn padded_input_size(num_input_variables: usize) -> usize {
+    core::cmp::max(num_input_variables.next_power_of_two(), 2)
+}
+
+fn pad_input_variables<F: Field, CS: ConstraintSystem<F>>(
+    cs: &mut CS,
+    num_input_variables: usize,
+) {
+    for i in num_input_variables..padded_input_size(num_input_variables) {
+        cs.alloc_input(|| format!("pad input {}", i), || Ok(F::zero()))
+            .expect("alloc failed");
+    }
+}
+
 pub(crate) struct IndexerConstraintSystem<F: Field> {
     pub(crate) num_input_variables: usize,
     pub(crate) num_witness_variables: usize,
@@ -67,6 +83,7 @@ impl<F: Field> IndexerConstraintSystem<F> {
     }
 
     pub(crate) fn make_matrices_square(&mut self) {
+        pad_input_variables(self, self.num_input_variables);
         let num_formatted_variables = self.num_input_variables + self.num_witness_variables;
         make_constraint_matrices_square(self, num_formatted_variables);
     }
@@ -213,6 +230,7 @@ impl<F: Field> ProverConstraintSystem<F> {
     }
 
     pub(crate) fn make_matrices_square(&mut self) {
+        pad_input_variables(self, self.num_input_variables);
         let num_formatted_variables = self.num_input_variables + self.num_witness_variables;
         make_constraint_matrices_square(self, num_formatted_variables);
     }
@@ -220,6 +238,7 @@ impl<F: Field> ProverConstraintSystem<F> {
     pub(crate) fn format_public_input(public_input: &[F]) -> Vec<F> {
         let mut input = vec![F::one()];
         input.extend_from_slice(public_input);
+        input.resize(padded_input_size(input.len()), F::zero());
         input
     }
 }
diff --git a/marlin/src/ahp/prover.rs b/marlin/src/ahp/prover.rs
index 911703c..ec612ce 100644
--- a/marlin/src/ahp/prover.rs
+++ b/marlin/src/ahp/prover.rs
@@ -20,6 +20,7 @@ use crate::pc::LabeledPolynomial;
 pub struct ProverState<'a, 'b, F: PrimeField> {
     index: &'a Index<'a, F>,
 
+    num_public_inputs: usize,
     formatted_input_assignment: Vec<F>,
     witness_assignment: Vec<F>,
 
@@ -41,7 +42,7 @@ pub struct ProverState<'a, 'b, F: PrimeField> {
 
 impl<'a, 'b, F: PrimeField> ProverState<'a, 'b, F> {
     pub fn public_input(&self) -> Vec<F> {
-        self.formatted_input_assignment[1..].to_vec()
+        self.formatted_input_assignment[1..=self.num_public_inputs].to_vec()
     }
 }
 
@@ -89,6 +90,7 @@ impl<F: PrimeField> AHP<F> {
     ) -> Result<ProverState<'a, 'b, F>, Error> {
         let mut pcs = ProverConstraintSystem::new();
         c.generate_constraints(&mut pcs)?;
+        let num_public_inputs = pcs.num_input_variables - 1;
         pcs.make_matrices_square();
 
         let ProverConstraintSystem {
@@ -131,6 +133,7 @@ impl<F: PrimeField> AHP<F> {
 
         Ok(ProverState {
             index,
+            num_public_inputs,
             formatted_input_assignment,
             witness_assignment,
             z_a: z_a,
-- 
2.43.0


From a964d8bd34328d702c10a3a30c6b482b2d6c5d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:36 +0000
Subject: [PATCH 16/48] fix: give Marlin's inner sumcheck a domain of at least
 two elements

Circuits with at most one entry in each matrix, such as a single product of
two variables, made the prover panic.
---
 marlin/src/ahp/constraint_systems.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marlin/src/ahp/constraint_systems.rs b/marlin/src/ahp/constraint_systems.rs
index f0d1eee..bf5a484 100644
--- a/marlin/src/ahp/constraint_systems.rs
+++ b/marlin/src/ahp/constraint_systems.rs
@@ -108,7 +108,8 @@ impl<F: Field> IndexerConstraintSystem<F> {
         let a_density = matrix_density(&self.a_matrix.as_ref().expect("a_matrix is not None"));
         let b_density = matrix_density(&self.b_matrix.as_ref().expect("b_matrix is not None"));
         let c_density = matrix_density(&self.c_matrix.as_ref().expect("c_matrix is not None"));
-        *[a_density, b_density, c_density]
+        // the inner sumcheck needs a domain of at least two elements
+        *[a_density, b_density, c_density, 2]
             .iter()
             .max()
             .expect("density iterator is not empty")
-- 
2.43.0


From ddd1e990e6855fd5fe6ef8056089a2c31fe7fd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:46 +0000
Subject: [PATCH 17/48] fix: refuse Marlin proofs whose lists do not have the
 prescribed lengths

Commitments and evaluations were paired with their labels by zip: surplus
ones were ignored, and moving them between the rounds changed what the
challenges were drawn from. Short ones made the verifier panic.
---
 marlin/src/lib.rs    | 11 +++++++++++
 marlin/src/pc/mod.rs |  8 ++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/marlin/src/lib.rs b/marlin/src/lib.rs
index ce31855..6e18798 100644
--- a/marlin/src/lib.rs
+++ b/marlin/src/lib.rs
@@ -186,6 +186,14 @@ pub fn verify_proof<E: PairingEngine>(
     proof: &Proof<E>,
     public_input: &[E::Fr],
 ) -> Result<bool, SynthesisError> {
+    // the transcript and the checks below pair these lists with fixed labels
+    let round_sizes = [4, 3, 2];
+    if ivk.index_comms.len() != AHP::<E::Fr>::INDEXER_POLYNOMIALS.len()
+        || !proof.commitments.iter().map(Vec::len).eq(round_sizes.iter().copied())
+    {
+        return Ok(false);
+    }
+
     let mut fs_rng = FiatShamirRng::from_seed(&to_bytes![&ivk, &public_input].unwrap());
 
     let first_comms = &proof.commitments[0];
@@ -201,6 +209,9 @@ pub fn verify_proof<E: PairingEngine>(
     let vstate = AHP::<E::Fr>::verifier_third_round(vstate, &mut fs_rng)?;
 
     let query_set = AHP::<E::Fr>::verifier_query_set(&vstate);
+    if proof.evaluations.len() != query_set.len() {
+        return Ok(false);
+    }
     fs_rng.absorb(&proof.evaluations);
     let opening_challenge: E::Fr = u128::rand(&mut fs_rng).into();
 
diff --git a/marlin/src/pc/mod.rs b/marlin/src/pc/mod.rs
index 1e42d09..1450971 100644
--- a/marlin/src/pc/mod.rs
+++ b/marlin/src/pc/mod.rs
@@ -174,7 +174,9 @@ impl<E: PairingEngine> PC<E> {
             let labels = point_to_labels_map.entry(point).or_insert(BTreeSet::new());
             labels.insert(label);
         }
-        assert_eq!(point_to_labels_map.len(), proofs.len());
+        if point_to_labels_map.len() != proofs.len() {
+            return Ok(false);
+        }
 
         let commitments: BTreeMap<_, _> = commitments.into_iter().map(|c| (c.label(), c)).collect();
 
@@ -215,7 +217,9 @@ impl<E: PairingEngine> PC<E> {
         for (labeled_commitment, value) in commitments.into_iter().zip(values) {
             let degree_bound = labeled_commitment.degree_bound();
             let commitment = labeled_commitment.commitment();
-            assert_eq!(degree_bound.is_some(), commitment.shifted_comm.is_some());
+            if degree_bound.is_some() != commitment.shifted_comm.is_some() {
+                return Err(Error::DegreeOutOfBound);
+            }
             combined_comm += &commitment.comm.0.mul(challenge);
             combined_value += &(value * &challenge);
 
-- 
2.43.0


From daf3951d9ceca41d355bfe21781f8efed68d4e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 18/48] fix: bind the number of public inputs in Marlin

Public inputs are padded with zeros, so a prover could drop trailing ones of
the circuit. The verifying key now records and checks their number.
---
 marlin/src/ahp/indexer.rs | 4 ++++
 marlin/src/ahp/prover.rs  | 3 ++-
 marlin/src/lib.rs         | 1 +
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/marlin/src/ahp/indexer.rs b/marlin/src/ahp/indexer.rs
index b87a28c..e5bc5ad 100644
--- a/marlin/src/ahp/indexer.rs
+++ b/marlin/src/ahp/indexer.rs
@@ -11,6 +11,7 @@ use crate::pc::LabeledPolynomial;
 
 #[derive(Copy, Clone, Debug, CanonicalSerialize, CanonicalDeserialize)]
 pub struct IndexInfo {
+    pub num_public_inputs: usize,
     pub num_constraints: usize,
     pub num_variables: usize,
     pub num_non_zeros: usize,
@@ -19,6 +20,7 @@ pub struct IndexInfo {
 impl ToBytes for IndexInfo {
     #[inline]
     fn write<W: io::Write>(&self, mut w: W) -> io::Result<()> {
+        (self.num_public_inputs as u64).write(&mut w)?;
         (self.num_variables as u64).write(&mut w)?;
         (self.num_constraints as u64).write(&mut w)?;
         (self.num_non_zeros as u64).write(&mut w)
@@ -71,6 +73,7 @@ impl<F: PrimeField> AHP<F> {
     pub fn index<'a, C: ConstraintSynthesizer<F>>(c: C) -> Result<Index<'a, F>, Error> {
         let mut ics = IndexerConstraintSystem::new();
         c.generate_constraints(&mut ics)?;
+        let num_public_inputs = ics.num_input_variables - 1;
         ics.make_matrices_square();
         ics.process_matrices();
 
@@ -99,6 +102,7 @@ impl<F: PrimeField> AHP<F> {
             compose_matrix_polynomials("c", &c, domain_x, domain_h, domain_k, domain_b)?;
 
         let index_info = IndexInfo {
+            num_public_inputs,
             num_constraints,
             num_variables,
             num_non_zeros,
diff --git a/marlin/src/ahp/prover.rs b/marlin/src/ahp/prover.rs
index ec612ce..e479629 100644
--- a/marlin/src/ahp/prover.rs
+++ b/marlin/src/ahp/prover.rs
@@ -103,7 +103,8 @@ impl<F: PrimeField> AHP<F> {
         let num_input_variables = formatted_input_assignment.len();
         let num_witness_variables = witness_assignment.len();
         let num_non_zeros = index.index_info.num_non_zeros;
-        if index.index_info.num_constraints != num_constraints
+        if index.index_info.num_public_inputs != num_public_inputs
+            || index.index_info.num_constraints != num_constraints
             || index.index_info.num_constraints != num_input_variables + num_witness_variables
         {
             return Err(Error::InstanceDoesNotMatchIndex);
diff --git a/marlin/src/lib.rs b/marlin/src/lib.rs
index 6e18798..bc749c0 100644
--- a/marlin/src/lib.rs
+++ b/marlin/src/lib.rs
@@ -189,6 +189,7 @@ pub fn verify_proof<E: PairingEngine>(
     // the transcript and the checks below pair these lists with fixed labels
     let round_sizes = [4, 3, 2];
     if ivk.index_comms.len() != AHP::<E::Fr>::INDEXER_POLYNOMIALS.len()
+        || ivk.index_info.num_public_inputs != public_input.len()
         || !proof.commitments.iter().map(Vec::len).eq(round_sizes.iter().copied())
     {
         return Ok(false);
-- 
2.43.0


From 8c301ecafbc82ecab564da41d6cd89199c53f6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:58 +0000
Subject: [PATCH 19/48] Guarded hook: expose Marlin's AHP and polynomial
 commitment to a harness

---
 marlin/Cargo.toml |  1 +
 marlin/src/lib.rs | 12 ++++++++++++
 2 files changed, 13 insertions(+)

diff --git a/marlin/Cargo.toml b/marlin/Cargo.toml
index 0d52f33..6f82028 100644
--- a/marlin/Cargo.toml
+++ b/marlin/Cargo.toml
@@ -12,6 +12,7 @@ edition = "2018"
 default = ["std"]
 std = ["zkp-r1cs/std", "ark-ff/std", "ark-std/std", "ark-ec/std", "ark-poly/std"]
 parallel = ["std", "rayon", "zkp-r1cs/parallel", "ark-ff/parallel", "ark-std/parallel", "ark-ec/parallel", "ark-poly/parallel"]
+verif-hooks = []
 
 [dependencies]
 rand = { version = "0.7", default-features = false }
diff --git a/marlin/src/lib.rs b/marlin/src/lib.rs
index bc749c0..129a936 100644
--- a/marlin/src/lib.rs
+++ b/marlin/src/lib.rs
@@ -54,6 +54,18 @@ pub type VerifyKey<E> = IndexVerifierKey<E>;
 mod fs_rng;
 use fs_rng::FiatShamirRng;
 
+/// Access to private parts, for verification harnesses only.
+#[cfg(feature = "verif-hooks")]
+pub mod verif_hooks {
+    pub mod ahp {
+        pub use crate::ahp::*;
+    }
+    pub mod pc {
+        pub use crate::pc::*;
+    }
+    pub use crate::fs_rng::FiatShamirRng;
+}
+
 pub fn universal_setup<E: PairingEngine, R: Rng>(
     max_degree: usize,
     rng: &mut R,
-- 
2.43.0


From 776a74aab5ceb46b0e5e9c1b4c74e3f552695bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 20/48] fix: enforce Marlin's degree bounds against the whole
 universal string

Shifted commitments were checked relative to the trimmed degree. Whoever holds
the universal string has larger powers than that, so no bound was enforced and
a proof of any statement could be made.
---
 marlin/src/pc/data_structures.rs | 18 +++++++++++++++---
 marlin/src/pc/kzg10.rs           |  5 +++--
 marlin/src/pc/mod.rs             |  8 ++++----
 3 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/marlin/src/pc/data_structures.rs b/marlin/src/pc/data_structures.rs
index 1d22f75..a392d9e 100644
--- a/marlin/src/pc/data_structures.rs
+++ b/marlin/src/pc/data_structures.rs
@@ -78,7 +78,19 @@ impl<E: PairingEngine> CommitterKey<E> {
         self.supported_degree
     }
 
+    pub fn max_degree(&self) -> usize {
+        self.powers_of_g.len() - 1
+    }
+
     pub fn powers(&self) -> Powers<'_, E> {
+        Powers {
+            powers_of_g: (self.powers_of_g[..=self.supported_degree]).into(),
+            powers_of_gamma_g: self.powers_of_gamma_g.as_slice().into(),
+        }
+    }
+
+    /// powers up to the maximum degree, for opening shifted polynomials
+    pub fn all_powers(&self) -> Powers<'_, E> {
         Powers {
             powers_of_g: self.powers_of_g.as_slice().into(),
             powers_of_gamma_g: self.powers_of_gamma_g.as_slice().into(),
@@ -89,7 +101,7 @@ impl<E: PairingEngine> CommitterKey<E> {
         if degree_bound > self.supported_degree {
             return None;
         }
-        let power_range = (self.supported_degree - degree_bound)..;
+        let power_range = (self.max_degree() - degree_bound)..;
 
         let powers = Powers {
             powers_of_g: (self.powers_of_g[power_range]).into(),
@@ -105,7 +117,7 @@ pub struct VerifierKey<E: PairingEngine> {
     pub gamma_g: E::G1Affine,
     pub h: E::G2Affine,
     pub beta_h: E::G2Affine,
-    pub supported_degree: usize,
+    pub max_degree: usize,
 }
 
 impl<E: PairingEngine> ToBytes for VerifierKey<E> {
@@ -114,7 +126,7 @@ impl<E: PairingEngine> ToBytes for VerifierKey<E> {
         self.gamma_g.write(&mut w)?;
         self.h.write(&mut w)?;
         self.beta_h.write(&mut w)?;
-        (self.supported_degree as u64).write(&mut w)
+        (self.max_degree as u64).write(&mut w)
     }
 }
 
diff --git a/marlin/src/pc/kzg10.rs b/marlin/src/pc/kzg10.rs
index b3e8da2..d962376 100644
--- a/marlin/src/pc/kzg10.rs
+++ b/marlin/src/pc/kzg10.rs
@@ -79,14 +79,15 @@ impl<E: PairingEngine> KZG10<E> {
         if supported_degree > max_degree {
             return Err(Error::TrimmingDegreeTooLarge);
         }
-        let powers_of_g = pp.powers_of_g[..=supported_degree].to_vec();
+        // degree bounds are enforced against the largest power anyone holds
+        let powers_of_g = pp.powers_of_g.clone();
         let powers_of_gamma_g = pp.powers_of_gamma_g[..=supported_degree].to_vec();
         let vk = VerifierKey::<E> {
             g: powers_of_g[0],
             gamma_g: powers_of_gamma_g[0],
             h: pp.h,
             beta_h: pp.beta_h,
-            supported_degree,
+            max_degree,
         };
 
         let ck = CommitterKey::<E> {
diff --git a/marlin/src/pc/mod.rs b/marlin/src/pc/mod.rs
index 1450971..7752080 100644
--- a/marlin/src/pc/mod.rs
+++ b/marlin/src/pc/mod.rs
@@ -77,7 +77,7 @@ impl<E: PairingEngine> PC<E> {
         opening_challenge: E::Fr,
         randomnesses: impl IntoIterator<Item = &'a Randomness<E::Fr>>,
     ) -> Result<Proof<E>, Error> {
-        let supported_degree = ck.supported_degree();
+        let max_degree = ck.max_degree();
         let mut p = DensePolynomial::zero();
         let mut r = Rand::empty();
         let mut challenge = E::Fr::one();
@@ -90,13 +90,13 @@ impl<E: PairingEngine> PC<E> {
                 let shifted_rand = rand.shifted_rand.as_ref().unwrap();
                 p += (
                     shifted_challenge,
-                    &Self::shift_polynomial(poly.polynomial(), supported_degree - degree_bound),
+                    &Self::shift_polynomial(poly.polynomial(), max_degree - degree_bound),
                 );
                 r += (shifted_challenge, shifted_rand);
             }
             challenge *= &opening_challenge.square();
         }
-        KZG10::open(&ck.powers(), &p, point, &r)
+        KZG10::open(&ck.all_powers(), &p, point, &r)
     }
 
     pub fn check<'a>(
@@ -231,7 +231,7 @@ impl<E: PairingEngine> PC<E> {
                     .unwrap()
                     .0
                     .into_projective();
-                let shifted_degree = vk.supported_degree - degree_bound;
+                let shifted_degree = vk.max_degree - degree_bound;
 
                 let shift_value = point.pow([shifted_degree as u64]) * &value;
                 combined_comm += &shifted_comm.mul(shifted_challenge.into());
-- 
2.43.0


From ea15f276f530092cb0bb8d43f2189d90d6357877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 21/48] fix: bound the hiding degree by the hiding powers

A hiding bound equal to their number was accepted and its last coefficient
silently dropped, so the opening did not verify; and bounds were measured
against the shifted powers, which hiding does not use.
---
 marlin/src/pc/kzg10.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marlin/src/pc/kzg10.rs b/marlin/src/pc/kzg10.rs
index d962376..c1bebab 100644
--- a/marlin/src/pc/kzg10.rs
+++ b/marlin/src/pc/kzg10.rs
@@ -112,7 +112,7 @@ impl<E: PairingEngine> KZG10<E> {
         let mut rand = Rand::<E::Fr>::empty();
         if let Some(hiding_degree) = hiding_bound {
             let mut rng = rng.ok_or(Error::MissingRng)?;
-            Self::check_hiding_bound(hiding_degree, ck.size())?;
+            Self::check_hiding_bound(hiding_degree, ck.powers_of_gamma_g.len())?;
             rand = Rand::rand(hiding_degree, &mut rng);
             let rand_coeffs = Self::convert_to_bigints(&rand.blinding_polynomial.coeffs);
             let rand_commitment =
@@ -200,7 +200,7 @@ impl<E: PairingEngine> KZG10<E> {
     fn check_hiding_bound(hiding_bound: usize, hiding_powers: usize) -> Result<(), Error> {
         if hiding_bound == 0 {
             Err(Error::HidingBoundIsZero)
-        } else if hiding_bound > hiding_powers {
+        } else if hiding_bound >= hiding_powers {
             Err(Error::HidingBoundTooLarge)
         } else {
             Ok(())
-- 
2.43.0


From 3d6db983f5c3882b9c8145355d8d21ce7eafb020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:05 +0000
Subject: [PATCH 22/48] fix: batch Plonk's openings with unpredictable
 randomness

The verifier combined the two opening proofs with randomizers from a fixed
seed, so anybody could choose openings that cancel and have arbitrary
evaluations accepted.
---
 plonk/src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/plonk/src/lib.rs b/plonk/src/lib.rs
index 7f21878..23c0ac2 100644
--- a/plonk/src/lib.rs
+++ b/plonk/src/lib.rs
@@ -20,6 +20,7 @@ use std::collections::HashMap as Map;
 use ark_ff::{to_bytes, FftField as Field};
 use ark_poly::univariate::DensePolynomial;
 use ark_poly_commit::{Evaluations, LabeledCommitment, PCUniversalParams, PolynomialCommitment};
+use ark_serialize::CanonicalSerialize;
 
 use ark_std::{marker::PhantomData, string::ToString, vec, vec::Vec};
 use digest::Digest;
@@ -247,6 +248,14 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
             return Ok(false);
         };
 
+        // the openings are batched with randomness that depends on all of them
+        let mut openings = Vec::new();
+        proof
+            .pc_proof
+            .serialize(&mut openings)
+            .map_err(|_| Error::Other)?;
+        fs_rng.absorb(&openings);
+
         let pc_check = {
             let labels: Vec<_> = vk
                 .labels
@@ -282,7 +291,7 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
                 &evaluations,
                 &proof.pc_proof,
                 epsilon,
-                &mut ark_std::test_rng(), // we now impl default rng (not use)
+                &mut fs_rng,
             )
             .map_err(Error::from_pc_err)?
         };
-- 
2.43.0


From 5b39bd96899d280213ae8a75fb06b38cbcd5e3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:05 +0000
Subject: [PATCH 23/48] fix: check the number of commitments and evaluations in
 a Plonk proof

Commitments moved to a later round were chosen after the challenges that
were meant to follow them; surplus evaluations were ignored.
---
 plonk/src/lib.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/plonk/src/lib.rs b/plonk/src/lib.rs
index 23c0ac2..5881745 100644
--- a/plonk/src/lib.rs
+++ b/plonk/src/lib.rs
@@ -209,6 +209,15 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
         public_inputs: &[F],
         proof: Proof<F, PC>,
     ) -> Result<bool, Error<PC::Error>> {
+        // one list of commitments per round, each of its own length
+        if proof.commitments.len() != 3
+            || proof.commitments[0].len() != 4
+            || proof.commitments[1].len() != 1
+            || proof.commitments[2].len() != 4
+        {
+            return Ok(false);
+        }
+
         let vs = AHPForPLONK::verifier_init(&vk.info)?;
         let mut fs_rng =
             FiatShamirRng::<D>::from_seed(&to_bytes![&Self::PROTOCOL_NAME, public_inputs].unwrap());
@@ -226,6 +235,9 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
         let (vs, third_msg) = AHPForPLONK::verifier_third_round(vs, &mut fs_rng)?;
 
         let query_set = AHPForPLONK::verifier_query_set(&vs);
+        if proof.evaluations.len() != query_set.len() {
+            return Ok(false);
+        }
         fs_rng.absorb(&proof.evaluations);
         let epsilon = F::rand(&mut fs_rng);
 
-- 
2.43.0


From 394c4cf0094a7a7e3025295e6d9e53cb301f1293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:05 +0000
Subject: [PATCH 24/48] fix: refuse more public inputs than Plonk's circuit has
 gates

---
 plonk/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plonk/src/lib.rs b/plonk/src/lib.rs
index 5881745..f0136c4 100644
--- a/plonk/src/lib.rs
+++ b/plonk/src/lib.rs
@@ -209,6 +209,10 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
         public_inputs: &[F],
         proof: Proof<F, PC>,
     ) -> Result<bool, Error<PC::Error>> {
+        if public_inputs.len() > vk.info.n {
+            return Ok(false);
+        }
+
         // one list of commitments per round, each of its own length
         if proof.commitments.len() != 3
             || proof.commitments[0].len() != 4
-- 
2.43.0


From f53d867a70100559540279839df0f05618fb9271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 25/48] fix: bind Plonk's transcript to the circuit

The challenges depended on the public inputs but not on the verifier key, so
one proof could verify under the keys of several circuits.
---
 plonk/src/lib.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/plonk/src/lib.rs b/plonk/src/lib.rs
index f0136c4..ef133c2 100644
--- a/plonk/src/lib.rs
+++ b/plonk/src/lib.rs
@@ -99,7 +99,7 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
         let public_inputs = cs.public_inputs();
 
         let mut fs_rng =
-            FiatShamirRng::<D>::from_seed(&to_bytes![&Self::PROTOCOL_NAME, public_inputs].unwrap());
+            FiatShamirRng::<D>::from_seed(&Self::transcript_seed(&pk.vk, public_inputs));
 
         let ps = AHPForPLONK::prover_init(cs, &pk.index)?;
         let vs = AHPForPLONK::verifier_init(&pk.vk.info)?;
@@ -204,6 +204,18 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
         Ok(proof)
     }
 
+    /// The statement: which circuit, and which public inputs.
+    fn transcript_seed(vk: &VerifierKey<F, PC>, public_inputs: &[F]) -> Vec<u8> {
+        to_bytes![
+            &Self::PROTOCOL_NAME,
+            vk.info.n as u64,
+            vk.info.ks.to_vec(),
+            vk.comms,
+            public_inputs
+        ]
+        .unwrap()
+    }
+
     pub fn verify(
         vk: &VerifierKey<F, PC>,
         public_inputs: &[F],
@@ -224,7 +236,7 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
 
         let vs = AHPForPLONK::verifier_init(&vk.info)?;
         let mut fs_rng =
-            FiatShamirRng::<D>::from_seed(&to_bytes![&Self::PROTOCOL_NAME, public_inputs].unwrap());
+            FiatShamirRng::<D>::from_seed(&Self::transcript_seed(vk, public_inputs));
 
         let first_comms = &proof.commitments[0];
         fs_rng.absorb(&to_bytes![first_comms].unwrap());
-- 
2.43.0


From 3f8a8feaf0705f683737fede18e862ec924d2663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 26/48] fix: pad Libra's private and public inputs each to its
 own half

---
 libra/src/circuit.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libra/src/circuit.rs b/libra/src/circuit.rs
index ff03927..913afce 100644
--- a/libra/src/circuit.rs
+++ b/libra/src/circuit.rs
@@ -151,9 +151,9 @@ impl Circuit {
                 assert!(input_size >= inputs.len());
                 assert!(input_size >= aux.len());
                 values = aux.clone();
-                values.extend(&vec![G::Fr::zero(); input_size - inputs.len()]);
-                values.extend(inputs.clone());
                 values.extend(&vec![G::Fr::zero(); input_size - aux.len()]);
+                values.extend(inputs.clone());
+                values.extend(&vec![G::Fr::zero(); input_size - inputs.len()]);
             } else {
                 let next_layer_size = next_layer_values.len();
                 for gate in layer.gates.iter() {
-- 
2.43.0


From e6548ef5fd81b1da1862c7ac41d5a9a34779a50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:14 +0000
Subject: [PATCH 27/48] fix: prove Libra circuits of every shape the
 constructor accepts

---
 libra/src/circuit.rs             | 7 +++++++
 libra/src/libra_linear_gkr.rs    | 3 ++-
 libra/src/libra_zk_linear_gkr.rs | 5 ++++-
 libra/src/sumcheck.rs            | 4 ++--
 4 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/libra/src/circuit.rs b/libra/src/circuit.rs
index 913afce..e236047 100644
--- a/libra/src/circuit.rs
+++ b/libra/src/circuit.rs
@@ -184,6 +184,13 @@ impl Circuit {
         Ok(evals)
     }
 
+    /// pad the values of every layer below the output to the layer's power of two
+    pub(crate) fn pad_evals<G: Curve>(&self, evals: &mut Vec<Vec<G::Fr>>) {
+        for (layer, values) in self.layers.iter().zip(evals.iter_mut()).take(self.depth - 1) {
+            values.resize(2usize.pow(layer.bit_size as u32), G::Fr::zero());
+        }
+    }
+
     pub fn circuit_to_hash<G: Curve>(&self) -> G::Fr{
 
         let mut transcript = Transcript::new(b"libra - circuit_to_hash");
diff --git a/libra/src/libra_linear_gkr.rs b/libra/src/libra_linear_gkr.rs
index 82ae52f..37d294c 100644
--- a/libra/src/libra_linear_gkr.rs
+++ b/libra/src/libra_linear_gkr.rs
@@ -28,7 +28,8 @@ impl<G: Curve> LinearGKRProof<G> {
         let mut transcript = Transcript::new(b"libra - linear gkr");
         transcript.append_message(b"circuit_to_hash", &to_bytes!(circuit_to_hash).unwrap());
         
-        let circuit_evals = circuit.evaluate::<G>(inputs, witnesses).unwrap();
+        let mut circuit_evals = circuit.evaluate::<G>(inputs, witnesses).unwrap();
+        circuit.pad_evals::<G>(&mut circuit_evals);
         transcript.append_message(b"input", &to_bytes!(circuit_evals[0]).unwrap());
         transcript.append_message(
             b"output",
diff --git a/libra/src/libra_zk_linear_gkr.rs b/libra/src/libra_zk_linear_gkr.rs
index bfa0653..862538d 100644
--- a/libra/src/libra_zk_linear_gkr.rs
+++ b/libra/src/libra_zk_linear_gkr.rs
@@ -51,7 +51,10 @@ impl<G: Curve> ZKLinearGKRProof<G> {
         transcript.append_message(b"circuit_to_hash", &to_bytes!(circuit_to_hash).unwrap());
         transcript.append_message(b"params_to_hash", &to_bytes!(params_to_hash).unwrap());
         
-        let circuit_evals = circuit.evaluate::<G>(inputs, witnesses).unwrap();
+        let mut circuit_evals = circuit.evaluate::<G>(inputs, witnesses).unwrap();
+        circuit.pad_evals::<G>(&mut circuit_evals);
+        // the private half of the input layer
+        let witnesses = &circuit_evals[0][..circuit_evals[0].len() / 2].to_vec();
         transcript.append_message(b"input", &to_bytes!(inputs).unwrap());
         transcript.append_message(
             b"output",
diff --git a/libra/src/sumcheck.rs b/libra/src/sumcheck.rs
index 77c9029..ffc48c9 100644
--- a/libra/src/sumcheck.rs
+++ b/libra/src/sumcheck.rs
@@ -302,7 +302,7 @@ impl<G: Curve> ZKSumCheckProof<G> {
             comm_polys,
             proofs,
         };
-        (proof, poly_value_at_r, blind_evals[bit_size - 1], ru)
+        (proof, poly_value_at_r, *blind_evals.last().unwrap_or(&blind_claim), ru)
     }
 
     pub fn phase_two_prover<R: Rng>(
@@ -422,7 +422,7 @@ impl<G: Curve> ZKSumCheckProof<G> {
             comm_polys,
             proofs,
         };
-        (proof, poly_value_at_r, blind_evals[bit_size - 1], rv)
+        (proof, poly_value_at_r, *blind_evals.last().unwrap_or(&blind_claim), rv)
     }
 }
 
-- 
2.43.0


From 11600e614924f1b9bfc98bfc6dc43cbdcd117f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:22 +0000
Subject: [PATCH 28/48] fix: check the wiring of every layer in the plain Libra
 verifier

---
 libra/src/libra_linear_gkr.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libra/src/libra_linear_gkr.rs b/libra/src/libra_linear_gkr.rs
index 37d294c..374341b 100644
--- a/libra/src/libra_linear_gkr.rs
+++ b/libra/src/libra_linear_gkr.rs
@@ -123,7 +123,7 @@ impl<G: Curve> LinearGKRProof<G> {
         transcript.append_message(b"output", &to_bytes!(outputs).unwrap());
         let mut alpha = G::Fr::one();
         let mut beta = G::Fr::zero();
-        let (mut result_u, _) = eval_output::<G>(
+        let (mut result_u, gu) = eval_output::<G>(
             &outputs,
             circuit.layers[circuit.depth - 1].bit_size,
             &mut transcript,
@@ -133,6 +133,8 @@ impl<G: Curve> LinearGKRProof<G> {
         let mut eval_rv_y = G::Fr::zero();
         let mut ru_vec = Vec::new();
         let mut rv_vec = Vec::new();
+        let mut gu_vec = gu.clone();
+        let mut gv_vec = gu;
         assert_eq!(circuit.depth - 1, self.proofs.len());
         for (d, lproof) in self.proofs.iter().enumerate() {
             let mut claim = alpha * &result_u + &(beta * &result_v);
@@ -179,6 +181,14 @@ impl<G: Curve> LinearGKRProof<G> {
                 + &(eval_rv_final[2] * &eval_ru_final[0])
                 + &(eval_rv_final[2] * &eval_rv_final[0]);
             assert_eq!(claim, claim_final);
+            // the claimed wiring must be the circuit's
+            let (add_gate_eval, mult_gate_eval) = circuit.layers[circuit.depth - d - 1]
+                .eval_operators::<G>(&gu_vec, &gv_vec, &ru_vec, &rv_vec, alpha, beta);
+            if eval_rv_final[1] != mult_gate_eval || eval_rv_final[2] != add_gate_eval {
+                return false;
+            }
+            gu_vec = ru_vec.clone();
+            gv_vec = rv_vec.clone();
             if d < circuit.depth - 2 {
                 result_u = eval_ru_final[0];
                 result_v = eval_rv_final[0];
-- 
2.43.0


From 4c3aa71f6333f1d795bb21a119fbf6bd9c108539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 29/48] fix: refuse malformed or false Libra proofs instead of
 aborting

---
 libra/src/commitment.rs          | 13 +++++++++
 libra/src/libra_linear_gkr.rs    | 43 +++++++++++++++++++---------
 libra/src/libra_zk_linear_gkr.rs | 48 +++++++++++++++++++++++++-------
 libra/src/sumcheck.rs            |  3 ++
 4 files changed, 84 insertions(+), 23 deletions(-)

diff --git a/libra/src/commitment.rs b/libra/src/commitment.rs
index b1bdb5d..bfa481f 100644
--- a/libra/src/commitment.rs
+++ b/libra/src/commitment.rs
@@ -176,6 +176,9 @@ impl<G: Curve> ProductProof<G> {
         comm_prod: G::Affine,
         transcript: &mut Transcript,
     ) -> bool {
+        if self.z.len() != 5 {
+            return false;
+        }
         let z1 = self.z[0];
         let z2 = self.z[1];
         let z3 = self.z[2];
@@ -400,6 +403,13 @@ impl<G: Curve> LogDotProductProof<G> {
         transcript.append_message(b"Cx", &to_bytes!(comm_x).unwrap());
         transcript.append_message(b"Cy", &to_bytes!(comm_y).unwrap());
 
+        let rounds = self.bullet_reduce_proof.l_vec.len();
+        if rounds != log2(a_vec.len()) as usize
+            || self.bullet_reduce_proof.r_vec.len() != rounds
+            || a_vec.len() > params.gen_n.generators.len()
+        {
+            return false;
+        }
         let gamma = comm_x + comm_y;
         let (a_hat, g_hat, gamma_hat) =
             self.bullet_reduce_proof
@@ -469,6 +479,9 @@ impl<G: Curve> LogDotProductProof<G> {
         let size = ry.len();
         let l_eq_ry = eval_eq::<G>(&(ry[0..size / 2].to_vec()));
         let r_eq_ry = eval_eq::<G>(&ry[size / 2..size].to_vec());
+        if comms_witness.len() != l_eq_ry.len() {
+            return false;
+        }
         let comm_lz = poly_commit_vec::<G>(
             &comms_witness,
             &l_eq_ry.clone(),
diff --git a/libra/src/libra_linear_gkr.rs b/libra/src/libra_linear_gkr.rs
index 374341b..bc51485 100644
--- a/libra/src/libra_linear_gkr.rs
+++ b/libra/src/libra_linear_gkr.rs
@@ -115,10 +115,15 @@ impl<G: Curve> LinearGKRProof<G> {
     }
 
     pub fn verify(&self, circuit: &Circuit, outputs: &Vec<G::Fr>, inputs: &Vec<G::Fr>, circuit_to_hash: G::Fr) -> bool {
+        if self.proofs.len() != circuit.depth - 1
+            || outputs.len() != circuit.layers[circuit.depth - 1].gates_count
+            || inputs.len() != circuit.layers[0].gates_count
+        {
+            return false;
+        }
         let mut transcript = Transcript::new(b"libra - linear gkr");
         transcript.append_message(b"circuit_to_hash", &to_bytes!(circuit_to_hash).unwrap());
-        
-        
+
         transcript.append_message(b"input", &to_bytes!(inputs).unwrap());
         transcript.append_message(b"output", &to_bytes!(outputs).unwrap());
         let mut alpha = G::Fr::one();
@@ -135,20 +140,27 @@ impl<G: Curve> LinearGKRProof<G> {
         let mut rv_vec = Vec::new();
         let mut gu_vec = gu.clone();
         let mut gv_vec = gu;
-        assert_eq!(circuit.depth - 1, self.proofs.len());
         for (d, lproof) in self.proofs.iter().enumerate() {
             let mut claim = alpha * &result_u + &(beta * &result_v);
             let (proof1, proof2) = (&lproof.proof_phase_one, &lproof.proof_phase_two);
             let bit_size = circuit.layers[circuit.depth - d - 2].bit_size;
+            if proof1.polys.len() != bit_size
+                || proof1.poly_value_at_r.len() != 4
+                || proof2.polys.len() != bit_size
+                || proof2.poly_value_at_r.len() != 3
+            {
+                return false;
+            }
             ru_vec = Vec::new();
             rv_vec = Vec::new();
             // let mut comm_claim = comm_claim;
             for i in 0..bit_size {
                 let poly = &proof1.polys[i];
-                assert_eq!(
-                    poly.evaluate(&G::Fr::zero()) + &poly.evaluate(&G::Fr::one()),
-                    claim
-                );
+                if poly.coeffs.len() > 3
+                    || poly.evaluate(&G::Fr::zero()) + &poly.evaluate(&G::Fr::one()) != claim
+                {
+                    return false;
+                }
                 transcript.append_message(b"poly", &polynomial_to_bytes::<G>(&poly));
                 let mut buf = [0u8; 32];
                 transcript.challenge_bytes(b"challenge_nextround", &mut buf);
@@ -161,13 +173,16 @@ impl<G: Curve> LinearGKRProof<G> {
             let claim_final = eval_ru_final[0] * &eval_ru_final[1]
                 + &(eval_ru_final[0] * &eval_ru_final[2])
                 + &eval_ru_final[3];
-            assert_eq!(claim, claim_final);
+            if claim != claim_final {
+                return false;
+            }
             for i in 0..bit_size {
                 let poly = &proof2.polys[i];
-                assert_eq!(
-                    poly.evaluate(&G::Fr::zero()) + &poly.evaluate(&G::Fr::one()),
-                    claim
-                );
+                if poly.coeffs.len() > 3
+                    || poly.evaluate(&G::Fr::zero()) + &poly.evaluate(&G::Fr::one()) != claim
+                {
+                    return false;
+                }
                 transcript.append_message(b"poly", &polynomial_to_bytes::<G>(&poly));
                 let mut buf = [0u8; 32];
                 transcript.challenge_bytes(b"challenge_nextround", &mut buf);
@@ -180,7 +195,9 @@ impl<G: Curve> LinearGKRProof<G> {
             let claim_final = eval_rv_final[1] * &eval_rv_final[0] * &eval_ru_final[0]
                 + &(eval_rv_final[2] * &eval_ru_final[0])
                 + &(eval_rv_final[2] * &eval_rv_final[0]);
-            assert_eq!(claim, claim_final);
+            if claim != claim_final {
+                return false;
+            }
             // the claimed wiring must be the circuit's
             let (add_gate_eval, mult_gate_eval) = circuit.layers[circuit.depth - d - 1]
                 .eval_operators::<G>(&gu_vec, &gv_vec, &ru_vec, &rv_vec, alpha, beta);
diff --git a/libra/src/libra_zk_linear_gkr.rs b/libra/src/libra_zk_linear_gkr.rs
index 862538d..80b43ac 100644
--- a/libra/src/libra_zk_linear_gkr.rs
+++ b/libra/src/libra_zk_linear_gkr.rs
@@ -280,10 +280,16 @@ impl<G: Curve> ZKLinearGKRProof<G> {
         circuit_to_hash: G::Fr,
         params_to_hash: G::Fr,
     ) -> bool {
+        if self.proofs.len() != circuit.depth - 1
+            || outputs.len() != circuit.layers[circuit.depth - 1].gates_count
+            || inputs.len() > circuit.layers[0].gates_count / 2
+        {
+            return false;
+        }
         let mut transcript = Transcript::new(b"libra - zk linear gkr");
         transcript.append_message(b"circuit_to_hash", &to_bytes!(circuit_to_hash).unwrap());
         transcript.append_message(b"params_to_hash", &to_bytes!(params_to_hash).unwrap());
-        
+
         transcript.append_message(b"input", &to_bytes!(inputs).unwrap());
         transcript.append_message(b"output", &to_bytes!(outputs).unwrap());
         transcript.append_message(b"comm_witness", &to_bytes!(self.comm_witness).unwrap());
@@ -311,10 +317,16 @@ impl<G: Curve> ZKLinearGKRProof<G> {
         let mut rv_vec = Vec::new();
         let mut gu_vec = gu.clone();
         let mut gv_vec = gu.clone();
-        assert_eq!(circuit.depth - 1, self.proofs.len());
         for (d, lproof) in self.proofs.iter().enumerate() {
             let (proof1, proof2) = (&lproof.proof_phase_one, &lproof.proof_phase_two);
             let bit_size = circuit.layers[circuit.depth - d - 2].bit_size;
+            if [proof1, proof2].iter().any(|p| {
+                p.comm_polys.len() != bit_size
+                    || p.comm_evals.len() != bit_size
+                    || p.proofs.len() != bit_size
+            }) {
+                return false;
+            }
             ru_vec = Vec::new();
             rv_vec = Vec::new();
             // let mut comm_claim = comm_claim;
@@ -336,7 +348,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
                     3,
                     &mut transcript,
                 );
-                assert!(result);
+                if !result {
+                    return false;
+                }
                 ru_vec.push(r_i);
                 comm_claim = comm_eval;
             }
@@ -360,7 +374,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
                     3,
                     &mut transcript,
                 );
-                assert!(result);
+                if !result {
+                    return false;
+                }
                 rv_vec.push(r_i);
                 comm_claim = comm_eval;
             }
@@ -373,7 +389,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
                 lproof.comm_z,
                 &mut transcript,
             );
-            assert!(result);
+            if !result {
+                return false;
+            }
 
             let (add_gate_eval, mult_gate_eval) = circuit.layers[circuit.depth - d - 1]
                 .eval_operators::<G>(&gu_vec, &gv_vec, &ru_vec, &rv_vec, alpha, beta);
@@ -386,7 +404,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
                 comm_claim,
                 &mut transcript,
             );
-            assert!(result);
+            if !result {
+                return false;
+            }
 
             gu_vec = ru_vec.clone();
             gv_vec = rv_vec.clone();
@@ -419,7 +439,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
             self.comm_y0,
             &mut transcript,
         );
-        assert!(rs);
+        if !rs {
+            return false;
+        }
 
         let eval_input_tau = eval_value::<G>(&inputs, &ru_vec[1..].to_vec());
         let comm_input = poly_commit_vec::<G>(
@@ -438,7 +460,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
             comm_eval_z,
             &mut transcript,
         );
-        assert!(result);
+        if !result {
+            return false;
+        }
         let rs = self.prod_proof1.reduce_verifier(
             &params.pc_params,
             &rv_vec[1..].to_vec(),
@@ -446,7 +470,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
             self.comm_y1,
             &mut transcript,
         );
-        assert!(rs);
+        if !rs {
+            return false;
+        }
 
         let eval_input_tau = eval_value::<G>(&inputs, &rv_vec[1..].to_vec());
         let comm_input = poly_commit_vec::<G>(
@@ -465,7 +491,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
             comm_eval_z,
             &mut transcript,
         );
-        assert!(result);
+        if !result {
+            return false;
+        }
 
         true
     }
diff --git a/libra/src/sumcheck.rs b/libra/src/sumcheck.rs
index ffc48c9..a08ab2f 100644
--- a/libra/src/sumcheck.rs
+++ b/libra/src/sumcheck.rs
@@ -531,6 +531,9 @@ impl<G: Curve> SumCheckEvalProof<G> {
         bit_size: usize,
         transcript: &mut Transcript,
     ) -> bool {
+        if self.z.len() != bit_size {
+            return false;
+        }
         let w = (0..2)
             .map(|_i| {
                 let mut buf = [0u8; 32];
-- 
2.43.0


From 9fa2c3836679044cf267e7b62d017ce4257f390b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:00 +0000
Subject: [PATCH 30/48] fix: pad Hyrax's private and public inputs each to its
 own half

---
 hyrax/src/circuit.rs     | 4 ++--
 hyrax/src/hyrax_proof.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyrax/src/circuit.rs b/hyrax/src/circuit.rs
index 42b2bd7..1e32ff3 100644
--- a/hyrax/src/circuit.rs
+++ b/hyrax/src/circuit.rs
@@ -129,9 +129,9 @@ impl Circuit {
                 assert!(input_size >= inputs.len());
                 assert!(input_size >= aux.len());
                 values = aux.clone();
-                values.extend(&vec![G::Fr::zero(); input_size - inputs.len()]);
-                values.extend(inputs.clone());
                 values.extend(&vec![G::Fr::zero(); input_size - aux.len()]);
+                values.extend(inputs.clone());
+                values.extend(&vec![G::Fr::zero(); input_size - inputs.len()]);
             } else {
                 let next_layer_size = next_layer_values.len();
                 for gate in layer.gates.iter() {
diff --git a/hyrax/src/hyrax_proof.rs b/hyrax/src/hyrax_proof.rs
index d2bd23c..418915a 100644
--- a/hyrax/src/hyrax_proof.rs
+++ b/hyrax/src/hyrax_proof.rs
@@ -58,7 +58,7 @@ impl<G: Curve> HyraxProof<G> {
             let witness = witnesses[i].clone();
             witness_vec.extend(witness);
             let wl = witnesses[i].len();
-            witness_vec.extend(vec![G::Fr::zero(); wl.next_power_of_two() - wl]);
+            witness_vec.extend(vec![G::Fr::zero(); circuit.layers[0].gates_count / 2 - wl]);
         }
         let (comm_witness, witness_blind) = packing_poly_commit::<G, R>(
             &params.pc_params.gen_n.generators,
@@ -287,7 +287,7 @@ impl<G: Curve> HyraxProof<G> {
             let input = inputs[i].clone();
             input_vec.extend(input);
             let al = inputs[i].len();
-            input_vec.extend(vec![G::Fr::zero(); al.next_power_of_two() - al]);
+            input_vec.extend(vec![G::Fr::zero(); circuit.layers[0].gates_count / 2 - al]);
         }
 
         let mut rl_q_vec = q_aside_vec.clone();
-- 
2.43.0


From a0b93cc747ae8773b9c65699a37bcd95b44308a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:06 +0000
Subject: [PATCH 31/48] fix: give every round of a Hyrax layer its own blinding
 factor

---
 hyrax/src/zk_sumcheck_proof.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hyrax/src/zk_sumcheck_proof.rs b/hyrax/src/zk_sumcheck_proof.rs
index 1d8f373..6522a7a 100644
--- a/hyrax/src/zk_sumcheck_proof.rs
+++ b/hyrax/src/zk_sumcheck_proof.rs
@@ -58,7 +58,6 @@ impl<G: Curve> ZkSumcheckProof<G> {
         let mut comm_claim = comm_a0;
         let mut claim = claim;
 
-        let log_g = ql_vec.len();
         let log_ng: usize = log2(ng) as usize;
         let log_n: usize = log2(n) as usize;
         let fr_two: G::Fr = 2u32.into();
@@ -428,7 +427,7 @@ impl<G: Curve> ZkSumcheckProof<G> {
                 &params.gen_1.generators,
                 &vec![eval_ri],
                 &params.gen_1.h,
-                r_alpha_eval_vec[log_n + log_g + j],
+                r_alpha_eval_vec[log_n + log_ng + j],
             );
             transcript.append_message(b"comm_claim_per_round", &to_bytes!(comm_claim).unwrap());
             transcript.append_message(b"comm_eval", &to_bytes!(comm_eval).unwrap());
-- 
2.43.0


From c47da27bdd650e6e4f2a7abf05bfeb8c3f685bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:43 +0000
Subject: [PATCH 32/48] fix: prove Hyrax circuits of every shape and single
 instances

---
 hyrax/src/evaluate.rs          | 30 +++++++++++++++++-------------
 hyrax/src/zk_sumcheck_proof.rs |  2 +-
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/hyrax/src/evaluate.rs b/hyrax/src/evaluate.rs
index 88ad5a0..75afe06 100644
--- a/hyrax/src/evaluate.rs
+++ b/hyrax/src/evaluate.rs
@@ -170,8 +170,10 @@ pub fn construct_matrix<G: Curve>(
     mm[0][0] = G::Fr::one().double();
     mm[0][1] = G::Fr::one();
     mm[0][2] = G::Fr::one();
-    mm[0][3] = G::Fr::one();
-    for i in 0..log_n - 1 {
+    if log_n > 0 {
+        mm[0][3] = G::Fr::one();
+    }
+    for i in 0..log_n.saturating_sub(1) {
         let mut r = G::Fr::one().neg();
         mm[i + 1][i * 4] = r;
         r *= &rs[i];
@@ -185,17 +187,19 @@ pub fn construct_matrix<G: Curve>(
         mm[i + 1][i * 4 + 6] = G::Fr::one();
         mm[i + 1][i * 4 + 7] = G::Fr::one();
     }
-    let mut r = G::Fr::one().neg();
-    mm[log_n][(log_n - 1) * 4] = r;
-    r *= &rs[log_n - 1];
-    mm[log_n][(log_n - 1) * 4 + 1] = r;
-    r *= &rs[log_n - 1];
-    mm[log_n][(log_n - 1) * 4 + 2] = r;
-    r *= &rs[log_n - 1];
-    mm[log_n][(log_n - 1) * 4 + 3] = r;
-    mm[log_n][(log_n - 1) * 4 + 4] = G::Fr::one().double();
-    mm[log_n][(log_n - 1) * 4 + 5] = G::Fr::one();
-    mm[log_n][(log_n - 1) * 4 + 6] = G::Fr::one();
+    if log_n > 0 {
+        let mut r = G::Fr::one().neg();
+        mm[log_n][(log_n - 1) * 4] = r;
+        r *= &rs[log_n - 1];
+        mm[log_n][(log_n - 1) * 4 + 1] = r;
+        r *= &rs[log_n - 1];
+        mm[log_n][(log_n - 1) * 4 + 2] = r;
+        r *= &rs[log_n - 1];
+        mm[log_n][(log_n - 1) * 4 + 3] = r;
+    }
+    mm[log_n][log_n * 4] = G::Fr::one().double();
+    mm[log_n][log_n * 4 + 1] = G::Fr::one();
+    mm[log_n][log_n * 4 + 2] = G::Fr::one();
     for i in 0..2 * log_g {
         let mut r = G::Fr::one().neg();
         mm[log_n + 1 + i][log_n * 4 + i * 3] = r;
diff --git a/hyrax/src/zk_sumcheck_proof.rs b/hyrax/src/zk_sumcheck_proof.rs
index 6522a7a..654f84b 100644
--- a/hyrax/src/zk_sumcheck_proof.rs
+++ b/hyrax/src/zk_sumcheck_proof.rs
@@ -86,7 +86,7 @@ impl<G: Curve> ZkSumcheckProof<G> {
             .map(|i| eq_ql_vec[i] * &u0 + &(eq_qr_vec[i] * &u1))
             .collect::<Vec<_>>();
         let mut temp_vec = Vec::new();
-        for i in 0..xg_q.len() {
+        for i in 0..gates.len() {
             let temp_p_vec = (0..eq_vec.len())
                 .map(|t| eq_vec[t] * &xg_q[i])
                 .collect::<Vec<_>>();
-- 
2.43.0


From 839f95346db9a5fe3f787eeea6e5e74268f03aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:49 +0000
Subject: [PATCH 33/48] fix: start every Hyrax layer from the claim the
 verifier derived

---
 hyrax/src/zk_sumcheck_proof.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyrax/src/zk_sumcheck_proof.rs b/hyrax/src/zk_sumcheck_proof.rs
index 654f84b..2ed4b32 100644
--- a/hyrax/src/zk_sumcheck_proof.rs
+++ b/hyrax/src/zk_sumcheck_proof.rs
@@ -629,6 +629,8 @@ impl<G: Curve> ZkSumcheckProof<G> {
         ng: usize,
         transcript: &mut Transcript,
     ) -> (G::Affine, G::Affine, Vec<G::Fr>, Vec<G::Fr>, Vec<G::Fr>) {
+        // the layer must start from the claim the verifier derived
+        assert!(self.comm_a0 == comm_claim);
         let mut comm_claim = comm_claim;
         let log_ng = log2(ng) as usize;
         let log_n = log2(n) as usize;
-- 
2.43.0


From 1d96b4b5c27d73543afda85755dc07ee7b034188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:14 +0000
Subject: [PATCH 34/48] fix: refuse malformed or false Hyrax proofs instead of
 aborting

---
 hyrax/src/commitment.rs        | 13 +++++++++++
 hyrax/src/hyrax_proof.rs       | 40 ++++++++++++++++++++++++----------
 hyrax/src/zk_sumcheck_proof.rs | 25 ++++++++++++++++-----
 3 files changed, 62 insertions(+), 16 deletions(-)

diff --git a/hyrax/src/commitment.rs b/hyrax/src/commitment.rs
index 6241114..42afb98 100644
--- a/hyrax/src/commitment.rs
+++ b/hyrax/src/commitment.rs
@@ -177,6 +177,9 @@ impl<G: Curve> ProductProof<G> {
         comm_prod: G::Affine,
         transcript: &mut Transcript,
     ) -> bool {
+        if self.z.len() != 5 {
+            return false;
+        }
         let z1 = self.z[0];
         let z2 = self.z[1];
         let z3 = self.z[2];
@@ -402,6 +405,13 @@ impl<G: Curve> LogDotProductProof<G> {
         transcript.append_message(b"Cx", &to_bytes!(comm_x).unwrap());
         transcript.append_message(b"Cy", &to_bytes!(comm_y).unwrap());
 
+        let rounds = self.bullet_reduce_proof.l_vec.len();
+        if rounds != log2(a_vec.len()) as usize
+            || self.bullet_reduce_proof.r_vec.len() != rounds
+            || a_vec.len() > params.gen_n.generators.len()
+        {
+            return false;
+        }
         let gamma = comm_x + comm_y;
         let (a_hat, g_hat, gamma_hat) =
             self.bullet_reduce_proof
@@ -471,6 +481,9 @@ impl<G: Curve> LogDotProductProof<G> {
         let size = ry.len();
         let l_eq_ry = eval_eq::<G>(&(ry[0..size / 2].to_vec()));
         let r_eq_ry = eval_eq::<G>(&ry[size / 2..size].to_vec());
+        if comms_witness.len() != l_eq_ry.len() {
+            return false;
+        }
         let comm_lz = poly_commit_vec::<G>(
             &comms_witness,
             &l_eq_ry.clone(),
diff --git a/hyrax/src/hyrax_proof.rs b/hyrax/src/hyrax_proof.rs
index 418915a..94744a8 100644
--- a/hyrax/src/hyrax_proof.rs
+++ b/hyrax/src/hyrax_proof.rs
@@ -220,14 +220,21 @@ impl<G: Curve> HyraxProof<G> {
         circuit_to_hash: G::Fr,
         param_to_hash: G::Fr,
     ) -> bool {
+        let n = outputs.len();
+        let output_size = circuit.layers[circuit.depth - 1].gates_count;
+        let input_size = circuit.layers[0].gates_count / 2;
+        if !n.is_power_of_two()
+            || inputs.len() != n
+            || outputs.iter().any(|output| output.len() != output_size)
+            || inputs.iter().any(|input| input.len() > input_size)
+            || self.proofs.len() != circuit.depth - 1
+        {
+            return false;
+        }
         let mut transcript = Transcript::new(b"hyrax - linear gkr");
         transcript.append_message(b"circuit_to_hash", &to_bytes!(circuit_to_hash).unwrap());
         transcript.append_message(b"param_to_hash", &to_bytes!(param_to_hash).unwrap());   
 
-        let n = outputs.len();
-        assert_eq!(n.next_power_of_two(), n);
-        assert!(n > 0);
-
         for i in 0..n {
             transcript.append_message(b"input_i", &to_bytes!(inputs[i]).unwrap());
             transcript.append_message(b"output_i", &to_bytes!(outputs[i]).unwrap());
@@ -252,8 +259,8 @@ impl<G: Curve> HyraxProof<G> {
         for d in 0..circuit.depth - 1 {
             let next_gate_num = circuit.layers[circuit.depth - d - 2].gates_count;
             let ng = next_gate_num.next_power_of_two();
-            let (comm_x_tmp, comm_y_tmp, q_aside_vec_tmp, ql_vec_tmp, qr_vec_tmp) = self.proofs[d]
-                .verify(
+            let (comm_x_tmp, comm_y_tmp, q_aside_vec_tmp, ql_vec_tmp, qr_vec_tmp) =
+                match self.proofs[d].verify(
                     &params.sc_params,
                     comm_a,
                     (u0, u1),
@@ -262,7 +269,10 @@ impl<G: Curve> HyraxProof<G> {
                     n,
                     ng,
                     &mut transcript,
-                );
+                ) {
+                    Some(layer) => layer,
+                    None => return false,
+                };
 
             comm_x = comm_x_tmp;
             comm_y = comm_y_tmp;
@@ -299,7 +309,9 @@ impl<G: Curve> HyraxProof<G> {
             self.comm_y0,
             &mut transcript,
         );
-        assert!(rs);
+        if !rs {
+            return false;
+        }
 
         let eval_input_tau = eval_value::<G>(&input_vec, &rl_q_vec);
         let comm_input = poly_commit_vec::<G>(
@@ -318,7 +330,9 @@ impl<G: Curve> HyraxProof<G> {
             comm_eval_z,
             &mut transcript,
         );
-        assert!(result);
+        if !result {
+            return false;
+        }
 
         let mut rr_q_vec = q_aside_vec.clone();
         rr_q_vec.extend(qr_vec[1..qr_vec.len()].to_vec());
@@ -329,7 +343,9 @@ impl<G: Curve> HyraxProof<G> {
             self.comm_y1,
             &mut transcript,
         );
-        assert!(rs);
+        if !rs {
+            return false;
+        }
 
         let eval_input_tau = eval_value::<G>(&input_vec, &rr_q_vec);
         let comm_input = poly_commit_vec::<G>(
@@ -348,7 +364,9 @@ impl<G: Curve> HyraxProof<G> {
             comm_eval_z,
             &mut transcript,
         );
-        assert!(result);
+        if !result {
+            return false;
+        }
 
         true
     }
diff --git a/hyrax/src/zk_sumcheck_proof.rs b/hyrax/src/zk_sumcheck_proof.rs
index 2ed4b32..b7682c7 100644
--- a/hyrax/src/zk_sumcheck_proof.rs
+++ b/hyrax/src/zk_sumcheck_proof.rs
@@ -628,12 +628,23 @@ impl<G: Curve> ZkSumcheckProof<G> {
         n: usize,
         ng: usize,
         transcript: &mut Transcript,
-    ) -> (G::Affine, G::Affine, Vec<G::Fr>, Vec<G::Fr>, Vec<G::Fr>) {
+    ) -> Option<(G::Affine, G::Affine, Vec<G::Fr>, Vec<G::Fr>, Vec<G::Fr>)> {
         // the layer must start from the claim the verifier derived
-        assert!(self.comm_a0 == comm_claim);
+        if self.comm_a0 != comm_claim {
+            return None;
+        }
         let mut comm_claim = comm_claim;
         let log_ng = log2(ng) as usize;
         let log_n = log2(n) as usize;
+        let rounds = log_n + 2 * log_ng;
+        if self.comm_polys.len() != rounds
+            || self.comm_evals.len() != rounds
+            || self.comm_deltas.len() != rounds
+            || self.z_vec.len() != 4 * log_n + 6 * log_ng
+            || self.z_delta_vec.len() != rounds
+        {
+            return None;
+        }
 
         let mut rs = Vec::new();
         let mut r0 = Vec::new();
@@ -662,9 +673,11 @@ impl<G: Curve> ZkSumcheckProof<G> {
         let m_vec = construct_matrix::<G>((&rs, &r0, &r1), q_vec, gates, u, log_n, log_ng);
 
         let result = self.sumcheck_verify(params, &m_vec, log_ng, log_n, transcript);
-        assert!(result);
+        if !result {
+            return None;
+        }
 
-        (self.comm_x, self.comm_y, rs, r0, r1)
+        Some((self.comm_x, self.comm_y, rs, r0, r1))
     }
 
     pub fn sumcheck_verify(
@@ -682,7 +695,9 @@ impl<G: Curve> ZkSumcheckProof<G> {
             self.comm_z,
             transcript,
         );
-        assert!(result);
+        if !result {
+            return false;
+        }
 
         for i in 0..self.comm_deltas.len() {
             transcript.append_message(b"comm_delta", &to_bytes!(self.comm_deltas[i]).unwrap());
-- 
2.43.0


From 1ced5e16665ec27822b9b5156088a62d927bf71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:25 +0000
Subject: [PATCH 35/48] fix: make the Libra and Hyrax dot-product proofs verify
 what they prove

---
 hyrax/src/commitment.rs | 13 ++++++++-----
 libra/src/commitment.rs | 13 ++++++++-----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/hyrax/src/commitment.rs b/hyrax/src/commitment.rs
index 42afb98..af39061 100644
--- a/hyrax/src/commitment.rs
+++ b/hyrax/src/commitment.rs
@@ -251,16 +251,16 @@ impl<G: Curve> DotProductProof<G> {
 
         let delta =
             poly_commit_vec::<G>(&params.gen_n.generators, &d_vec, &params.gen_n.h, r_delta);
-        transcript.append_message(b"delta", &to_bytes!(comm_x).unwrap());
+        transcript.append_message(b"delta", &to_bytes!(delta).unwrap());
 
-        let dotprod_a_d = (0..size).map(|i| a_vec[i] * &d_vec[i]).product();
+        let dotprod_a_d = (0..size).map(|i| a_vec[i] * &d_vec[i]).sum();
         let beta = poly_commit_vec::<G>(
             &params.gen_1.generators,
             &vec![dotprod_a_d],
             &params.gen_1.h,
             r_beta,
         );
-        transcript.append_message(b"beta", &to_bytes!(comm_y).unwrap());
+        transcript.append_message(b"beta", &to_bytes!(beta).unwrap());
 
         let mut buf = [0u8; 31];
         transcript.challenge_bytes(b"c", &mut buf);
@@ -292,6 +292,9 @@ impl<G: Curve> DotProductProof<G> {
         a_vec: &Vec<G::Fr>,
         transcript: &mut Transcript,
     ) -> bool {
+        if self.z_vec.len() != a_vec.len() || a_vec.len() > params.gen_n.generators.len() {
+            return false;
+        }
         transcript.append_message(b"Cx", &to_bytes!(comm_x).unwrap());
         transcript.append_message(b"Cy", &to_bytes!(comm_y).unwrap());
         transcript.append_message(b"delta", &to_bytes!(self.delta).unwrap());
@@ -313,11 +316,11 @@ impl<G: Curve> DotProductProof<G> {
         let rs2_lhs = comm_y.mul(c).into_affine() + self.beta;
         let dotprod_z_a = (0..a_vec.len())
             .map(|i| self.z_vec[i] * &a_vec[i])
-            .product();
+            .sum();
         let rs2_rhs = poly_commit_vec::<G>(
             &params.gen_1.generators,
             &vec![dotprod_z_a],
-            &params.gen_n.h,
+            &params.gen_1.h,
             self.z_beta,
         );
         let rs2 = rs2_lhs == rs2_rhs;
diff --git a/libra/src/commitment.rs b/libra/src/commitment.rs
index bfa481f..6253c81 100644
--- a/libra/src/commitment.rs
+++ b/libra/src/commitment.rs
@@ -249,16 +249,16 @@ impl<G: Curve> DotProductProof<G> {
 
         let delta =
             poly_commit_vec::<G>(&params.gen_n.generators, &d_vec, &params.gen_n.h, r_delta);
-        transcript.append_message(b"delta", &to_bytes!(comm_x).unwrap());
+        transcript.append_message(b"delta", &to_bytes!(delta).unwrap());
 
-        let dotprod_a_d = (0..size).map(|i| a_vec[i] * &d_vec[i]).product();
+        let dotprod_a_d = (0..size).map(|i| a_vec[i] * &d_vec[i]).sum();
         let beta = poly_commit_vec::<G>(
             &params.gen_1.generators,
             &vec![dotprod_a_d],
             &params.gen_1.h,
             r_beta,
         );
-        transcript.append_message(b"beta", &to_bytes!(comm_y).unwrap());
+        transcript.append_message(b"beta", &to_bytes!(beta).unwrap());
 
         let mut buf = [0u8; 31];
         transcript.challenge_bytes(b"c", &mut buf);
@@ -290,6 +290,9 @@ impl<G: Curve> DotProductProof<G> {
         a_vec: &Vec<G::Fr>,
         transcript: &mut Transcript,
     ) -> bool {
+        if self.z_vec.len() != a_vec.len() || a_vec.len() > params.gen_n.generators.len() {
+            return false;
+        }
         transcript.append_message(b"Cx", &to_bytes!(comm_x).unwrap());
         transcript.append_message(b"Cy", &to_bytes!(comm_y).unwrap());
         transcript.append_message(b"delta", &to_bytes!(self.delta).unwrap());
@@ -311,11 +314,11 @@ impl<G: Curve> DotProductProof<G> {
         let rs2_lhs = comm_y.mul(c).into_affine() + self.beta;
         let dotprod_z_a = (0..a_vec.len())
             .map(|i| self.z_vec[i] * &a_vec[i])
-            .product();
+            .sum();
         let rs2_rhs = poly_commit_vec::<G>(
             &params.gen_1.generators,
             &vec![dotprod_z_a],
-            &params.gen_n.h,
+            &params.gen_1.h,
             self.z_beta,
         );
         let rs2 = rs2_lhs == rs2_rhs;
-- 
2.43.0


From 1a80070c0a59b79e5d9e9510dcc8478598e04c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 36/48] fix: refuse vector-commitment claims with missing,
 repeated or out-of-range positions

---
 asvc/src/lib.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/asvc/src/lib.rs b/asvc/src/lib.rs
index f57fb0d..c4ff194 100644
--- a/asvc/src/lib.rs
+++ b/asvc/src/lib.rs
@@ -73,6 +73,11 @@ fn group_gen<E: PairingEngine>(domain: &GeneralEvaluationDomain<E::Fr>) -> E::Fr
     }
 }
 
+/// whether the points are different positions of a vector of n values
+fn distinct_positions(points: &[u32], n: usize) -> bool {
+    (0..points.len()).all(|i| (points[i] as usize) < n && !points[..i].contains(&points[i]))
+}
+
 pub fn key_gen<E, R>(n: usize, rng: &mut R) -> Result<Parameters<E>, SynthesisError>
 where
     E: PairingEngine,
@@ -235,6 +240,12 @@ pub fn verify_pos<E>(
 where
     E: PairingEngine,
 {
+    // one value for every point, and every point a different position of the vector
+    let n = vrk_params.powers_of_g1.len() - 1;
+    if points.len() != point_values.len() || !distinct_positions(&points, n) {
+        return Ok(false);
+    }
+
     // A_I(x) = ∏(x - ω^i)
     let mut a_polynomial = DensePolynomial::from_coefficients_vec(vec![E::Fr::one()]);
     for point in points.iter() {
@@ -294,6 +305,9 @@ where
     E: PairingEngine,
 {
     let n = vrk_params.powers_of_g1.len() - 1;
+    if !distinct_positions(&[point], n) {
+        return Ok(false);
+    }
     // e(a_i, g^i/g^(w^i)) = e(a,g)
     // ω^i
     let omega_i = omega.pow(&[point as u64]);
-- 
2.43.0


From c931a00c3bfbb78ccb69b5602d094bd5c1be85b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:31 +0000
Subject: [PATCH 37/48] fix: update commitments and proofs for vector sizes
 between powers of two

---
 asvc/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/asvc/src/lib.rs b/asvc/src/lib.rs
index c4ff194..9c9c9f3 100644
--- a/asvc/src/lib.rs
+++ b/asvc/src/lib.rs
@@ -73,6 +73,13 @@ fn group_gen<E: PairingEngine>(domain: &GeneralEvaluationDomain<E::Fr>) -> E::Fr
     }
 }
 
+/// the number of positions of a vector whose parameters were generated for n values
+fn domain_size<E: PairingEngine>(n: usize) -> Result<usize, SynthesisError> {
+    let domain: GeneralEvaluationDomain<E::Fr> =
+        EvaluationDomain::<E::Fr>::new(n).ok_or(SynthesisError::PolynomialDegreeTooLarge)?;
+    Ok(domain.size())
+}
+
 /// whether the points are different positions of a vector of n values
 fn distinct_positions(points: &[u32], n: usize) -> bool {
     (0..points.len()).all(|i| (points[i] as usize) < n && !points[..i].contains(&points[i]))
@@ -361,6 +368,7 @@ pub fn update_commit<E>(
 where
     E: PairingEngine,
 {
+    let n = domain_size::<E>(n)?;
     let a_aside_omega_i_divisor = omega
         .pow(&[point as u64])
         .div(&E::Fr::from_repr((n as u64).into()).unwrap());
@@ -389,6 +397,7 @@ pub fn update_proof<E>(
 where
     E: PairingEngine,
 {
+    let n = domain_size::<E>(n)?;
     let mut new_witness = proof.w.into_projective();
     // println!("[update_proof] start to update proof...i={}, j = {}", point_i, point_j);
     if point_i == point_j {
-- 
2.43.0


From 9b9bafa5e82f25e22ebaf9cb9484c8893eae8cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:50 +0000
Subject: [PATCH 38/48] fix: tie the SHA-256 gadget's digest variables to the
 digest bits

---
 gadgets/src/hashes/sha256.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/gadgets/src/hashes/sha256.rs b/gadgets/src/hashes/sha256.rs
index f464780..e47de5d 100644
--- a/gadgets/src/hashes/sha256.rs
+++ b/gadgets/src/hashes/sha256.rs
@@ -350,14 +350,17 @@ impl<F: PrimeField> AbstractHash<F> for AbstractHashSha256<F> {
 
         let booleans = sha256(cs.ns(|| "sha256"), &inputs)?;
 
-        let var: Vec<Variable> = booleans
-            .iter()
-            .enumerate()
-            .map(|(i, b)| {
-                let a = AllocatedBit::alloc(cs.ns(|| format!("bit_{}", i)), b.get_value()).unwrap(); // TODO
-                a.get_variable()
-            })
-            .collect();
+        let mut var = Vec::with_capacity(booleans.len());
+        for (i, b) in booleans.iter().enumerate() {
+            let a = AllocatedBit::alloc(cs.ns(|| format!("bit_{}", i)), b.get_value())?;
+            cs.enforce(
+                || format!("bit_{} is the digest bit", i),
+                |lc| lc + a.get_variable(),
+                |lc| lc + CS::one(),
+                |_| b.lc(CS::one(), F::one()),
+            );
+            var.push(a.get_variable());
+        }
 
         Ok(AbstractHashSha256Output {
             value: Some(booleans),
-- 
2.43.0


From bbb7bf81d36341808174e7c8dec2e50880a90b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:50 +0000
Subject: [PATCH 39/48] fix: keep the table constants of lookup1 out of free
 variables

---
 gadgets/src/lookup/table.rs | 53 +++++++++++--------------------------
 1 file changed, 16 insertions(+), 37 deletions(-)

diff --git a/gadgets/src/lookup/table.rs b/gadgets/src/lookup/table.rs
index 6e3935b..813d441 100644
--- a/gadgets/src/lookup/table.rs
+++ b/gadgets/src/lookup/table.rs
@@ -34,43 +34,22 @@ where
 {
     assert_eq!(c.len(), 2);
 
-    if let Boolean::Constant(cond) = *b {
-        if cond {
-            AllocatedFr::alloc(cs.ns(|| "lookup_true"), || Ok(c[1]))
-        } else {
-            AllocatedFr::alloc(cs.ns(|| "lookup_false"), || Ok(c[0]))
-        }
-    } else {
-        let true_value = AllocatedFr::alloc(cs.ns(|| "lookup_true"), || Ok(c[1]))?;
-        let false_value = AllocatedFr::alloc(cs.ns(|| "lookup_false"), || Ok(c[0]))?;
-
-        let result = AllocatedFr::alloc(cs.ns(|| ""), || {
-            b.get_value()
-                .and_then(|cond| {
-                    if cond {
-                        true_value.clone()
-                    } else {
-                        false_value.clone()
-                    }
-                    .get_value()
-                })
-                .ok_or(SynthesisError::AssignmentMissing)
-        })?;
-        // a = self; b = other; c = cond;
-        //
-        // r = c * a + (1  - c) * b
-        // r = b + c * (a - b)
-        // c * (a - b) = r - b
-        let one = CS::one();
-        cs.enforce(
-            || "conditionally_select",
-            |_| b.lc(one, F::one()),
-            |lc| lc + true_value.get_variable() - false_value.get_variable(),
-            |lc| lc + result.get_variable() - false_value.get_variable(),
-        );
-
-        Ok(result)
-    }
+    let result = AllocatedFr::alloc(cs.ns(|| "lookup"), || {
+        b.get_value()
+            .map(|cond| if cond { c[1] } else { c[0] })
+            .ok_or(SynthesisError::AssignmentMissing)
+    })?;
+
+    // r = c[0] + b * (c[1] - c[0])
+    let one = CS::one();
+    cs.enforce(
+        || "conditionally_select",
+        |_| b.lc(one, c[1] - &c[0]),
+        |lc| lc + one,
+        |lc| lc + result.get_variable() - (c[0], one),
+    );
+
+    Ok(result)
 }
 
 /// Performs a 2-bit window table lookup. `bits` is in
-- 
2.43.0


From 97f4fdd367142e998db02b495a436bf3c53d03d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:50 +0000
Subject: [PATCH 40/48] fix: refuse Merkle leaves out of range and siblings
 that do not reach the root

---
 gadgets/src/merkletree/cbmt.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/gadgets/src/merkletree/cbmt.rs b/gadgets/src/merkletree/cbmt.rs
index 96b2c45..f12f555 100644
--- a/gadgets/src/merkletree/cbmt.rs
+++ b/gadgets/src/merkletree/cbmt.rs
@@ -34,11 +34,10 @@ where
         }
 
         let leaves_count = ((self.nodes.len() >> 1) + 1) as u32;
-        let index = leaves_count + leaf_index - 1;
-
-        if index >= (leaves_count << 1) - 1 {
+        if *leaf_index >= leaves_count {
             return None;
         }
+        let index = leaves_count + leaf_index - 1;
 
         let mut lemmas = Vec::new();
 
@@ -104,16 +103,16 @@ where
     }
 
     pub fn root(&self, leaf: &T) -> Option<T> {
-        if self.index == 0 && self.lemmas.len() != 0 {
-            return None;
-        }
-
         let mut parent = leaf.clone();
         let mut index = self.index;
         let mut lemmas_iter = self.lemmas.iter();
 
         loop {
             if let Some(sibling) = lemmas_iter.next() {
+                // more siblings than levels above the index
+                if index.is_root() {
+                    return None;
+                }
                 parent = if index.is_left() {
                     M::merge(&parent, &sibling)
                 } else {
@@ -125,6 +124,11 @@ where
             }
         }
 
+        // fewer siblings than levels above the index
+        if !index.is_root() {
+            return None;
+        }
+
         Some(parent)
     }
 
-- 
2.43.0


From 45fd9f90bbef61cfa913f60a336d563261570f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:50 +0000
Subject: [PATCH 41/48] fix: refuse a Merkle root whose width differs from the
 computed one

---
 gadgets/src/merkletree/cbmt_constraints.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gadgets/src/merkletree/cbmt_constraints.rs b/gadgets/src/merkletree/cbmt_constraints.rs
index 5d09c30..5870770 100644
--- a/gadgets/src/merkletree/cbmt_constraints.rs
+++ b/gadgets/src/merkletree/cbmt_constraints.rs
@@ -94,6 +94,10 @@ impl<I: TreeIndex, F: PrimeField, H: AbstractHash<F>> MerkleProofGadget<I, F, H>
             }
         }
 
+        if parent.get_variables().len() != root.get_variables().len() {
+            return Err(SynthesisError::Unsatisfiable);
+        }
+
         let pre = parent
             .get_variables()
             .iter()
-- 
2.43.0


From 2ba3f6cf45f317b96bed8e2c9d8c2b432dbcf257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:08 +0000
Subject: [PATCH 42/48] fix: hash every byte of a long input in MiMC, Rescue
 and Poseidon

---
 gadgets/src/hashes/mimc.rs     | 13 ++++---------
 gadgets/src/hashes/poseidon.rs | 13 ++++---------
 gadgets/src/hashes/rescue.rs   | 13 ++++---------
 3 files changed, 12 insertions(+), 27 deletions(-)

diff --git a/gadgets/src/hashes/mimc.rs b/gadgets/src/hashes/mimc.rs
index 90bc312..8c24fec 100644
--- a/gadgets/src/hashes/mimc.rs
+++ b/gadgets/src/hashes/mimc.rs
@@ -63,16 +63,11 @@ fn mimc_block<F: Field>(mut xl: F, mut xr: F, constants: &[F]) -> F {
 
 /// mimc hash function.
 fn mimc_hash<F: PrimeField>(b: &[u8], constants: &[F]) -> (F, F, F) {
-    let mut v: Vec<F> = Vec::new();
+    // little-endian chunks of the field's size, the last one padded with zeros
     let n = <F::BigInt as BigInteger>::NUM_LIMBS * 8;
-    for i in 0..(b.len() / n) {
-        let repr = F::BigInt::read(&b[i * n..(i + 1) * n]).unwrap_or(Default::default());
-        v.push(F::from_repr(repr).unwrap_or(F::zero()));
-    }
-
-    if b.len() % n != 0 {
-        let repr = F::BigInt::read(&b[(b.len() / n) * n..]).unwrap_or(Default::default());
-        v.push(F::from_repr(repr).unwrap_or(F::zero()));
+    let mut v: Vec<F> = b.chunks(n).map(F::from_le_bytes_mod_order).collect();
+    if v.is_empty() {
+        v.push(F::zero());
     }
 
     let mut h: F = F::zero();
diff --git a/gadgets/src/hashes/poseidon.rs b/gadgets/src/hashes/poseidon.rs
index 45c7e18..d461f8c 100644
--- a/gadgets/src/hashes/poseidon.rs
+++ b/gadgets/src/hashes/poseidon.rs
@@ -586,16 +586,11 @@ pub fn poseidon_block<F: PrimeField>(xl: F, xr: F, rc: &PoseidonConstant<F>) ->
 
 /// poseidon hash function.
 fn poseidon_hash<F: PrimeField>(b: &[u8], constants: &PoseidonConstant<F>) -> (F, F, F) {
-    let mut v: Vec<F> = Vec::new();
+    // little-endian chunks of the field's size, the last one padded with zeros
     let n = <F::BigInt as BigInteger>::NUM_LIMBS * 8;
-    for i in 0..(b.len() / n) {
-        let repr = F::BigInt::read(&b[i * n..(i + 1) * n]).unwrap_or(Default::default());
-        v.push(F::from_repr(repr).unwrap_or(F::zero()));
-    }
-
-    if b.len() % n != 0 {
-        let repr = F::BigInt::read(&b[(b.len() / n) * n..]).unwrap_or(Default::default());
-        v.push(F::from_repr(repr).unwrap_or(F::zero()));
+    let mut v: Vec<F> = b.chunks(n).map(F::from_le_bytes_mod_order).collect();
+    if v.is_empty() {
+        v.push(F::zero());
     }
 
     let mut h: F = F::zero();
diff --git a/gadgets/src/hashes/rescue.rs b/gadgets/src/hashes/rescue.rs
index a072ded..9adb24d 100644
--- a/gadgets/src/hashes/rescue.rs
+++ b/gadgets/src/hashes/rescue.rs
@@ -368,16 +368,11 @@ pub fn rescue_block<F: PrimeField>(xl: F, xr: F, rc: &RescueConstant<F>) -> F {
 
 /// rescue hash function.
 fn rescue_hash<F: PrimeField>(b: &[u8], constants: &RescueConstant<F>) -> (F, F, F) {
-    let mut v: Vec<F> = Vec::new();
+    // little-endian chunks of the field's size, the last one padded with zeros
     let n = <F::BigInt as BigInteger>::NUM_LIMBS * 8;
-    for i in 0..(b.len() / n) {
-        let repr = F::BigInt::read(&b[i * n..(i + 1) * n]).unwrap_or(Default::default());
-        v.push(F::from_repr(repr).unwrap_or(F::zero()));
-    }
-
-    if b.len() % n != 0 {
-        let repr = F::BigInt::read(&b[(b.len() / n) * n..]).unwrap_or(Default::default());
-        v.push(F::from_repr(repr).unwrap_or(F::zero()));
+    let mut v: Vec<F> = b.chunks(n).map(F::from_le_bytes_mod_order).collect();
+    if v.is_empty() {
+        v.push(F::zero());
     }
 
     let mut h: F = F::zero();
-- 
2.43.0


From 32bc12bf75b6ddac9f09dc125a352764e412ad4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:08 +0000
Subject: [PATCH 43/48] fix: constrain every MiMC round to the values hashed

---
 cli/src/circuits/hash.rs   |  16 +++---
 gadgets/src/hashes/mimc.rs | 115 ++++++++++++++++++++++++-------------
 2 files changed, 83 insertions(+), 48 deletions(-)

diff --git a/cli/src/circuits/hash.rs b/cli/src/circuits/hash.rs
index 0cc482e..8cc252d 100644
--- a/cli/src/circuits/hash.rs
+++ b/cli/src/circuits/hash.rs
@@ -1,5 +1,5 @@
 use ark_ff::PrimeField;
-use zkp_gadgets::hashes::mimc::{hash, mimc};
+use zkp_gadgets::hashes::mimc::{hash, mimc_variable};
 use zkp_r1cs::{ConstraintSynthesizer, ConstraintSystem, SynthesisError};
 
 use super::{CliCircuit, Publics};
@@ -14,16 +14,18 @@ impl<F: PrimeField> ConstraintSynthesizer<F> for Hash<F> {
         self,
         cs: &mut CS,
     ) -> Result<(), SynthesisError> {
-        let value = if let Some(bytes) = self.image {
-            mimc(cs.ns(|| "mimc-gadget"), Some(&bytes))?
-        } else {
-            mimc(cs.ns(|| "mimc-gadget"), None)?
-        };
+        let (value, output) = mimc_variable(cs.ns(|| "mimc-gadget"), self.image.as_deref())?;
 
-        let _ = cs.alloc_input(
+        let image = cs.alloc_input(
             || "image",
             || value.ok_or(SynthesisError::AssignmentMissing),
         )?;
+        cs.enforce(
+            || "image = output",
+            |lc| lc + output,
+            |lc| lc + CS::one(),
+            |lc| lc + image,
+        );
 
         Ok(())
     }
diff --git a/gadgets/src/hashes/mimc.rs b/gadgets/src/hashes/mimc.rs
index 8c24fec..62e8aaf 100644
--- a/gadgets/src/hashes/mimc.rs
+++ b/gadgets/src/hashes/mimc.rs
@@ -2,8 +2,8 @@
 //!
 //! [MiMC]: http://eprint.iacr.org/2016/492
 
-use ark_ff::{BigInteger, Field, FromBytes, PrimeField};
-use zkp_r1cs::{ConstraintSystem, SynthesisError, Variable};
+use ark_ff::{BigInteger, Field, PrimeField};
+use zkp_r1cs::{ConstraintSystem, LinearCombination, SynthesisError, Variable};
 
 use crate::Vec;
 
@@ -89,27 +89,15 @@ pub fn hash<F: PrimeField>(b: &[u8]) -> F {
     mimc_hash(b, &constants()).2
 }
 
-pub fn mimc<F: PrimeField, CS: ConstraintSystem<F>>(
-    mut cs: CS,
-    b: Option<&[u8]>,
-) -> Result<Option<F>, SynthesisError> {
-    let constants = constants::<F>();
-    let (mut xl_value, mut xr_value, image_value) = match b {
-        Some(bytes) => {
-            let (xl, xr, image) = mimc_hash(bytes, &constants);
-            (Some(xl), Some(xr), Some(image))
-        }
-        None => (None, None, None),
-    };
-
-    let mut var_xl = cs.alloc(
-        || "preimage xl",
-        || xl_value.ok_or(SynthesisError::AssignmentMissing),
-    )?;
-    let mut var_xr = cs.alloc(
-        || "preimage xr",
-        || xr_value.ok_or(SynthesisError::AssignmentMissing),
-    )?;
+/// Enforces one MiMC block over values held by linear combinations, and
+/// returns the resulting variable.
+fn mimc_block_enforce<F: PrimeField, CS: ConstraintSystem<F>>(
+    cs: &mut CS,
+    (mut xl_value, mut lc_xl): (Option<F>, LinearCombination<F>),
+    (mut xr_value, mut lc_xr): (Option<F>, LinearCombination<F>),
+    constants: &[F],
+) -> Result<(Option<F>, Variable), SynthesisError> {
+    let mut output = CS::one();
 
     for i in 0..MIMC_ROUNDS {
         let mut n_cs = cs.ns(|| format!("rounds_{}", i));
@@ -122,8 +110,8 @@ pub fn mimc<F: PrimeField, CS: ConstraintSystem<F>>(
 
         n_cs.enforce(
             || "tmp = (xL + Ci)^2",
-            |lc| lc + var_xl + (constants[i], CS::one()),
-            |lc| lc + var_xl + (constants[i], CS::one()),
+            |lc| lc + &lc_xl + (constants[i], CS::one()),
+            |lc| lc + &lc_xl + (constants[i], CS::one()),
             |lc| lc + var_tmp,
         );
 
@@ -140,18 +128,57 @@ pub fn mimc<F: PrimeField, CS: ConstraintSystem<F>>(
         n_cs.enforce(
             || "new_xL = xR + (xL + Ci)^3",
             |lc| lc + var_tmp,
-            |lc| lc + var_xl + (constants[i], CS::one()),
-            |lc| lc + var_new_xl - var_xr,
+            |lc| lc + &lc_xl + (constants[i], CS::one()),
+            |lc| lc + var_new_xl - &lc_xr,
         );
 
         xr_value = xl_value;
-        var_xr = var_xl;
+        lc_xr = lc_xl;
 
         xl_value = new_xl;
-        var_xl = var_new_xl;
+        lc_xl = var_new_xl.into();
+        output = var_new_xl;
     }
 
-    Ok(image_value)
+    Ok((xl_value, output))
+}
+
+pub fn mimc<F: PrimeField, CS: ConstraintSystem<F>>(
+    cs: CS,
+    b: Option<&[u8]>,
+) -> Result<Option<F>, SynthesisError> {
+    mimc_variable(cs, b).map(|(value, _)| value)
+}
+
+/// Like `mimc`, and also returns the variable that holds the image.
+pub fn mimc_variable<F: PrimeField, CS: ConstraintSystem<F>>(
+    mut cs: CS,
+    b: Option<&[u8]>,
+) -> Result<(Option<F>, Variable), SynthesisError> {
+    let constants = constants::<F>();
+    let (xl_value, xr_value) = match b {
+        Some(bytes) => {
+            let (xl, xr, _) = mimc_hash(bytes, &constants);
+            (Some(xl), Some(xr))
+        }
+        None => (None, None),
+    };
+
+    let var_xl = cs.alloc(
+        || "preimage xl",
+        || xl_value.ok_or(SynthesisError::AssignmentMissing),
+    )?;
+    let var_xr = cs.alloc(
+        || "preimage xr",
+        || xr_value.ok_or(SynthesisError::AssignmentMissing),
+    )?;
+
+    mimc_block_enforce(
+        &mut cs,
+        (xl_value, var_xl.into()),
+        (xr_value, var_xr.into()),
+        &constants,
+    )
 }
 
 /// implement AbstractHashOutput.
@@ -217,19 +244,25 @@ impl<F: PrimeField> AbstractHash<F> for AbstractHashMimc<F> {
         mut cs: CS,
         params: &[&Self::Output],
     ) -> Result<Self::Output, SynthesisError> {
-        let mut bytes = vec![];
-        for o in params.iter() {
-            if let Some(l) = o.get_value() {
-                l.write(&mut bytes)
-                    .map_err(|e| SynthesisError::IoError(e))?;
-            } else {
-                return Err(SynthesisError::AssignmentMissing);
-            }
+        let constants = constants::<F>();
+        let mut value = Some(F::zero());
+        let mut lc = LinearCombination::zero();
+        let mut variable = None;
+
+        for (i, o) in params.iter().enumerate() {
+            let (v, var) = mimc_block_enforce(
+                &mut cs.ns(|| format!("mimc_hash_{}", i)),
+                (value, lc),
+                (o.value, o.variable.into()),
+                &constants,
+            )?;
+            value = v;
+            lc = var.into();
+            variable = Some(var);
         }
 
-        let r = mimc(cs.ns(|| format!("mimc_hash")), Some(&bytes))?;
-
-        AbstractHashMimcOutput::alloc(cs.ns(|| "mimc_output"), r)
+        let variable = variable.ok_or(SynthesisError::AssignmentMissing)?;
+        Ok(AbstractHashMimcOutput { value, variable })
     }
 }
 
-- 
2.43.0


From b73306d7ae65663025e0d068474a7d70d4b309a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:08 +0000
Subject: [PATCH 44/48] fix: constrain every Rescue and Poseidon round to the
 values hashed

---
 gadgets/src/hashes/poseidon.rs | 238 +++++++++++++++++----------------
 gadgets/src/hashes/rescue.rs   | 236 +++++++++++++++++---------------
 2 files changed, 247 insertions(+), 227 deletions(-)

diff --git a/gadgets/src/hashes/poseidon.rs b/gadgets/src/hashes/poseidon.rs
index d461f8c..3141dab 100644
--- a/gadgets/src/hashes/poseidon.rs
+++ b/gadgets/src/hashes/poseidon.rs
@@ -4,8 +4,8 @@
 // @Author: JiadongLu (lujd1234@gmail.com)
 // @Author: YunLi (liyunscss@gmail.com)
 
-use ark_ff::{BigInteger, BitIteratorBE, FromBytes, PrimeField};
-use zkp_r1cs::{ConstraintSystem, SynthesisError, Variable};
+use ark_ff::{BigInteger, BitIteratorBE, PrimeField};
+use zkp_r1cs::{ConstraintSystem, LinearCombination, SynthesisError, Variable};
 
 use crate::Vec;
 
@@ -622,149 +622,149 @@ pub fn poseidon<F: PrimeField, CS: ConstraintSystem<F>>(
     let var_xl = cs.alloc(|| "preimage xl", || Ok(xl))?;
     let var_xr = cs.alloc(|| "preimage xr", || Ok(xr))?;
 
-    let three = F::zero();
-    let var_three = cs.alloc(|| "preimage tmp", || Ok(three))?;
-    let mut state_value = [xl, xr, three];
-    let mut state = [var_xl, var_xr, var_three];
-    let cs = &mut cs.ns(|| "Preassign");
+    let (value, var) = poseidon_block_enforce(
+        &mut cs,
+        (Some(xl), var_xl.into()),
+        (Some(xr), var_xr.into()),
+        &constants,
+    )?;
+
+    let output = cs.alloc_input(
+        || "output",
+        || value.ok_or(SynthesisError::AssignmentMissing),
+    )?;
+    cs.enforce(
+        || "output = state[0]",
+        |lc| lc + CS::one(),
+        |lc| lc + var,
+        |lc| lc + output,
+    );
+    Ok(image)
+}
+
+/// Enforces one Poseidon block over values held by linear combinations, and
+/// returns the resulting variable.
+fn poseidon_block_enforce<F: PrimeField, CS: ConstraintSystem<F>>(
+    cs: &mut CS,
+    xl: (Option<F>, LinearCombination<F>),
+    xr: (Option<F>, LinearCombination<F>),
+    constants: &PoseidonConstant<F>,
+) -> Result<(Option<F>, Variable), SynthesisError> {
+    let mut state = [xl, xr, (Some(F::zero()), LinearCombination::zero())].to_vec();
 
     for i in 0..POSEIDON_ROUNDS {
         let cs = &mut cs.ns(|| format!("round_{}", i));
 
         for j in 0..M {
-            state_value[j].add_assign(constants.ark[i][j]);
-            let tmp_value = state_value[j];
-            let tmp = cs.alloc(|| format!("tmp_{}", j), || Ok(tmp_value))?;
-
-            cs.enforce(
-                || format!("tmp_{} = (state[{}] + C_{}) * 1", i, j, i),
-                |lc| lc + state[j] + (constants.ark[i][j], CS::one()),
-                |lc| lc + (F::one(), CS::one()),
-                |lc| lc + tmp,
-            );
-
-            state_value[j] = tmp_value;
-            state[j] = tmp;
+            state[j] = add_constant::<F, CS>(state[j].clone(), constants.ark[i][j]);
         }
 
         if i < (RF / 2) || i > (RF / 2) {
             // full round
             for j in 0..M {
-                let tuple = pow_with_constraint(&state_value[j], &state[j], ALPH, cs, j)?;
-                state_value[j] = tuple.0;
-                state[j] = tuple.1;
+                state[j] = pow_with_constraint(&state[j], ALPH, cs, j)?;
             }
         } else {
             // partial round
-            let tuple = pow_with_constraint(&state_value[M - 1], &state[M - 1], ALPH, cs, M - 1)?;
-            state_value[M - 1] = tuple.0;
-            state[M - 1] = tuple.1;
+            state[M - 1] = pow_with_constraint(&state[M - 1], ALPH, cs, M - 1)?;
         }
 
-        // Mix Layer
-        let mut tmp2_value = [F::zero(); M];
-        let mut tmp2 = Vec::with_capacity(3);
-        for j in 0..M {
-            tmp2.push(cs.alloc(|| format!("tmp2[{}]", j), || Ok(tmp2_value[j]))?);
-        }
-
-        for j in 0..M {
-            for k in 0..M {
-                let mut tmp3_value = constants.mds[j][k];
-                let tmp3 = cs.alloc(|| format!("tmp3_{}{}", j, k), || Ok(tmp3_value))?;
-
-                tmp3_value.mul_assign(&state_value[k]);
-                tmp3_value.add_assign(&tmp2_value[j]);
-                let tmp4_value = tmp3_value;
-
-                let tmp4 = cs.alloc(|| format!("tmp4_{}{}", j, k), || Ok(tmp4_value))?;
-
-                cs.enforce(
-                    || {
-                        format!(
-                            "tmp4_{}{} - tmp2[{}] = tmp3_value * state_value[{}]",
-                            j, k, j, k
-                        )
-                    },
-                    |lc| lc + tmp3,
-                    |lc| lc + state[k],
-                    |lc| lc + tmp4 - tmp2[j],
-                );
-
-                tmp2_value[j] = tmp4_value;
-                tmp2[j] = tmp4;
-            }
-        }
-        for j in 0..M {
-            state[j] = tmp2[j];
-            state_value[j] = tmp2_value[j];
-        }
+        state = mix(&state, &constants.mds);
     }
 
-    let output = cs.alloc_input(|| "output", || Ok(state_value[0]))?;
-
+    // c == 1
+    let (value, lc) = state.swap_remove(0);
+    let output = cs.alloc(
+        || "block output",
+        || value.ok_or(SynthesisError::AssignmentMissing),
+    )?;
     cs.enforce(
-        || "output = tmp2[j] + constants[i+1][j]",
-        |lc| lc + (F::one(), CS::one()),
-        |lc| lc + state[0],
-        |lc| lc + output,
+        || "block output = state[0]",
+        |l| l + CS::one(),
+        |l| l + &lc,
+        |l| l + output,
     );
-    Ok(image)
+    Ok((value, output))
 }
 
+/// Raises a value held by a linear combination to a (non-zero) power.
 fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
-    state_value: &F,
-    state: &Variable,
+    state: &(Option<F>, LinearCombination<F>),
     exp: S,
     cs: &mut CS,
     j: usize,
-) -> Result<(F, Variable), SynthesisError> {
-    let mut res_value = F::zero();
-    let mut res = cs.alloc(|| format!("res_{}", j), || Ok(res_value))?;
-
-    let mut found_one = false;
-    let mut cnt = 0;
-    for i in BitIteratorBE::new(exp) {
-        if !found_one {
-            if i {
-                found_one = true;
-            } else {
-                continue;
-            }
-        }
-
-        res_value.square_in_place();
-        let tmp_value = res_value;
-
-        let tmp = cs.alloc(|| format!("tmp_{}{}", j, cnt), || Ok(tmp_value))?;
+) -> Result<(Option<F>, LinearCombination<F>), SynthesisError> {
+    let mut res = state.clone();
+
+    // the leading one is the value itself
+    for (cnt, i) in BitIteratorBE::without_leading_zeros(exp)
+        .skip(1)
+        .enumerate()
+    {
+        let tmp_value = res.0.map(|v| v.square());
+        let tmp = cs.alloc(
+            || format!("tmp_{}{}", j, cnt),
+            || tmp_value.ok_or(SynthesisError::AssignmentMissing),
+        )?;
 
         cs.enforce(
             || format!("tmp_{}{} = res * res", j, cnt),
-            |lc| lc + res,
-            |lc| lc + res,
+            |lc| lc + &res.1,
+            |lc| lc + &res.1,
             |lc| lc + tmp,
         );
 
-        res_value = tmp_value;
-        res = tmp;
+        res = (tmp_value, tmp.into());
         if i {
-            res_value.mul_assign(&(*state_value));
-            let tmp2_value = res_value;
-            let tmp2 = cs.alloc(|| format!("tmp2_{}{}", j, cnt), || Ok(tmp2_value))?;
+            let tmp2_value = match (res.0, state.0) {
+                (Some(a), Some(b)) => Some(a * b),
+                _ => None,
+            };
+            let tmp2 = cs.alloc(
+                || format!("tmp2_{}{}", j, cnt),
+                || tmp2_value.ok_or(SynthesisError::AssignmentMissing),
+            )?;
 
             cs.enforce(
                 || format!("tmp2_{}{} = res * state", j, cnt),
-                |lc| lc + res,
-                |lc| lc + *state,
+                |lc| lc + &res.1,
+                |lc| lc + &state.1,
                 |lc| lc + tmp2,
             );
-            res_value = tmp_value;
-            res = tmp2;
+            res = (tmp2_value, tmp2.into());
         }
-        cnt += 1;
     }
 
-    Ok((res_value, res))
+    Ok(res)
+}
+
+/// Adds a constant to a value held by a linear combination.
+fn add_constant<F: PrimeField, CS: ConstraintSystem<F>>(
+    (value, lc): (Option<F>, LinearCombination<F>),
+    constant: F,
+) -> (Option<F>, LinearCombination<F>) {
+    (value.map(|v| v + constant), lc + (constant, CS::one()))
+}
+
+/// Multiplies the state by the MDS matrix.
+fn mix<F: PrimeField>(
+    state: &[(Option<F>, LinearCombination<F>)],
+    mds: &[[F; M]; M],
+) -> Vec<(Option<F>, LinearCombination<F>)> {
+    mds.iter()
+        .map(|row| {
+            let mut value = Some(F::zero());
+            let mut lc = LinearCombination::zero();
+            for (coeff, (v, l)) in row.iter().zip(state.iter()) {
+                value = match (value, v) {
+                    (Some(a), Some(b)) => Some(a + *coeff * b),
+                    _ => None,
+                };
+                lc = lc + l.clone() * *coeff;
+            }
+            (value, lc)
+        })
+        .collect()
 }
 
 /// implement AbstractHashOutput.
@@ -815,19 +815,25 @@ impl<F: PrimeField> AbstractHash<F> for AbstractHashPoseidon<F> {
         mut cs: CS,
         params: &[&Self::Output],
     ) -> Result<Self::Output, SynthesisError> {
-        let mut bytes = vec![];
-        for o in params.iter() {
-            if let Some(l) = o.get_value() {
-                l.write(&mut bytes)
-                    .map_err(|e| SynthesisError::IoError(e))?;
-            } else {
-                return Err(SynthesisError::AssignmentMissing);
-            }
+        let constants = constants::<F>();
+        let mut value = Some(F::zero());
+        let mut lc = LinearCombination::zero();
+        let mut variable = None;
+
+        for (i, o) in params.iter().enumerate() {
+            let (v, var) = poseidon_block_enforce(
+                &mut cs.ns(|| format!("poseidon_hash_{}", i)),
+                (value, lc),
+                (o.value, o.variable.into()),
+                &constants,
+            )?;
+            value = v;
+            lc = var.into();
+            variable = Some(var);
         }
 
-        let r = poseidon(cs.ns(|| format!("poseidon_hash")), &bytes)?;
-
-        AbstractHashPoseidonOutput::alloc(cs.ns(|| "poseidon_hash"), Some(r))
+        let variable = variable.ok_or(SynthesisError::AssignmentMissing)?;
+        Ok(AbstractHashPoseidonOutput { value, variable })
     }
 }
 
diff --git a/gadgets/src/hashes/rescue.rs b/gadgets/src/hashes/rescue.rs
index 9adb24d..4c9062e 100644
--- a/gadgets/src/hashes/rescue.rs
+++ b/gadgets/src/hashes/rescue.rs
@@ -4,8 +4,8 @@
 // @Author: JiadongLu (lujd1234@gmail.com)
 // @Author: YunLi (liyunscss@gmail.com)
 
-use ark_ff::{BigInteger, BitIteratorBE, FromBytes, PrimeField};
-use zkp_r1cs::{ConstraintSystem, SynthesisError, Variable};
+use ark_ff::{BigInteger, BitIteratorBE, PrimeField};
+use zkp_r1cs::{ConstraintSystem, LinearCombination, SynthesisError, Variable};
 
 use crate::Vec;
 
@@ -404,136 +404,144 @@ pub fn rescue<F: PrimeField, CS: ConstraintSystem<F>>(
     let var_xl = cs.alloc(|| "preimage xl", || Ok(xl))?;
     let var_xr = cs.alloc(|| "preimage xr", || Ok(xr))?;
 
-    let three = F::zero();
-    let var_three = cs.alloc(|| "preimage tmp", || Ok(three))?;
-    let mut state_value = [xl, xr, three];
-    let mut state = [var_xl, var_xr, var_three];
-    let cs = &mut cs.ns(|| "Preassign");
+    let (value, var) = rescue_block_enforce(
+        &mut cs,
+        (Some(xl), var_xl.into()),
+        (Some(xr), var_xr.into()),
+        &constants,
+    )?;
+
+    let output = cs.alloc_input(
+        || "output",
+        || value.ok_or(SynthesisError::AssignmentMissing),
+    )?;
+    cs.enforce(
+        || "output = state[0]",
+        |lc| lc + CS::one(),
+        |lc| lc + var,
+        |lc| lc + output,
+    );
+    Ok(image)
+}
+
+/// Enforces one Rescue block over values held by linear combinations, and
+/// returns the resulting variable.
+fn rescue_block_enforce<F: PrimeField, CS: ConstraintSystem<F>>(
+    cs: &mut CS,
+    xl: (Option<F>, LinearCombination<F>),
+    xr: (Option<F>, LinearCombination<F>),
+    constants: &RescueConstant<F>,
+) -> Result<(Option<F>, Variable), SynthesisError> {
+    let mut state = [xl, xr, (Some(F::zero()), LinearCombination::zero())].to_vec();
     for i in 0..M {
-        state_value[i] += constants.constants[0][i];
-        let tmp_value = state_value[i];
-        let tmp = cs.alloc(|| format!("tmp_{}", i), || Ok(tmp_value))?;
-        cs.enforce(
-            || format!("tmp_{} = (state[{}] + Ci) * 1", i, i),
-            |lc| lc + state[i] + (constants.constants[0][i], CS::one()),
-            |lc| lc + (F::one(), CS::one()),
-            |lc| lc + tmp,
-        );
-        state_value[i] = tmp_value;
-        state[i] = tmp;
+        state[i] = add_constant::<F, CS>(state[i].clone(), constants.constants[0][i]);
     }
-    let mut af: &[u64];
+
     for i in 0..2 * RESCUE_ROUNDS {
         let cs = &mut cs.ns(|| format!("round_{}", i));
-        af = &ALPH;
-        if i % 2 == 1 {
-            af = &INVALPH;
-        }
+        let af: &[u64] = if i % 2 == 1 { &INVALPH } else { &ALPH };
         for j in 0..M {
-            let tuple = pow_with_constraint(&state_value[j], &state[j], af, cs, j)?;
-            state_value[j] = tuple.0;
-            state[j] = tuple.1;
+            state[j] = pow_with_constraint(&state[j], af, cs, j)?;
         }
-        let mut tmp2_value = [F::zero(); M];
-        let mut tmp2 = Vec::with_capacity(3);
+        state = mix(&state, &constants.mds);
         for j in 0..M {
-            tmp2.push(cs.alloc(|| format!("tmp2_{}", j), || Ok(tmp2_value[j]))?);
-        }
-        for j in 0..M {
-            for k in 0..M {
-                let mut tmp3_value = constants.mds[j][k];
-                let tmp3 = cs.alloc(|| format!("tmp3_{}{}", j, k), || Ok(tmp3_value))?;
-                tmp3_value.mul_assign(&state_value[k]);
-                tmp3_value.add_assign(&tmp2_value[j]);
-                let tmp4_value = tmp3_value;
-                let tmp4 = cs.alloc(|| format!("tmp4_{}{}", j, k), || Ok(tmp4_value))?;
-                cs.enforce(
-                    || format!("tmp4 - tmp2[{}] = tmp3_{}{} * state_value[{}]", j, j, k, k),
-                    |lc| lc + tmp3,
-                    |lc| lc + state[k],
-                    |lc| lc + tmp4 - tmp2[j],
-                );
-                tmp2_value[j] = tmp4_value;
-                tmp2[j] = tmp4;
-            }
-        }
-        for j in 0..M {
-            tmp2_value[j].add_assign(constants.constants[i + 1][j]);
-            let tmp5_value = tmp2_value[j];
-            let tmp5 = cs.alloc(|| format!("tmp5_{}", j), || Ok(tmp5_value))?;
-            cs.enforce(
-                || format!("tmp5_{} = tmp2[{}] + constants[{}][{}]", j, j, i + 1, j),
-                |lc| lc + tmp2[j] + (constants.constants[i + 1][j], CS::one()),
-                |lc| lc + (F::one(), CS::one()),
-                |lc| lc + tmp5,
-            );
-            state[j] = tmp5;
-            state_value[j] = tmp5_value;
+            state[j] = add_constant::<F, CS>(state[j].clone(), constants.constants[i + 1][j]);
         }
     }
-    let output = cs.alloc_input(|| "output", || Ok(state_value[0]))?;
+
+    // c == 1
+    let (value, lc) = state.swap_remove(0);
+    let output = cs.alloc(
+        || "block output",
+        || value.ok_or(SynthesisError::AssignmentMissing),
+    )?;
     cs.enforce(
-        || "output = tmp2[j] + constants[i+1][j]",
-        |lc| lc + (F::one(), CS::one()),
-        |lc| lc + state[0],
-        |lc| lc + output,
+        || "block output = state[0]",
+        |l| l + CS::one(),
+        |l| l + &lc,
+        |l| l + output,
     );
-    Ok(image)
+    Ok((value, output))
 }
 
+/// Raises a value held by a linear combination to a (non-zero) power.
 fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
-    state_value: &F,
-    state: &Variable,
+    state: &(Option<F>, LinearCombination<F>),
     exp: S,
     cs: &mut CS,
     j: usize,
-) -> Result<(F, Variable), SynthesisError> {
-    let mut res_value = F::zero();
-    let mut res = cs.alloc(|| format!("res_{}", j), || Ok(res_value))?;
-
-    let mut found_one = false;
-    let mut cnt = 0;
-    for i in BitIteratorBE::new(exp) {
-        if !found_one {
-            if i {
-                found_one = true;
-            } else {
-                continue;
-            }
-        }
-
-        res_value.square_in_place();
-        let tmp_value = res_value;
-
-        let tmp = cs.alloc(|| format!("tmp_{}{}", j, cnt), || Ok(tmp_value))?;
+) -> Result<(Option<F>, LinearCombination<F>), SynthesisError> {
+    let mut res = state.clone();
+
+    // the leading one is the value itself
+    for (cnt, i) in BitIteratorBE::without_leading_zeros(exp)
+        .skip(1)
+        .enumerate()
+    {
+        let tmp_value = res.0.map(|v| v.square());
+        let tmp = cs.alloc(
+            || format!("tmp_{}{}", j, cnt),
+            || tmp_value.ok_or(SynthesisError::AssignmentMissing),
+        )?;
 
         cs.enforce(
             || format!("tmp_{}{} = res * res", j, cnt),
-            |lc| lc + res,
-            |lc| lc + res,
+            |lc| lc + &res.1,
+            |lc| lc + &res.1,
             |lc| lc + tmp,
         );
 
-        res_value = tmp_value;
-        res = tmp;
+        res = (tmp_value, tmp.into());
         if i {
-            res_value.mul_assign(&(*state_value));
-            let tmp2_value = res_value;
-            let tmp2 = cs.alloc(|| format!("tmp2_{}{}", j, cnt), || Ok(tmp2_value))?;
+            let tmp2_value = match (res.0, state.0) {
+                (Some(a), Some(b)) => Some(a * b),
+                _ => None,
+            };
+            let tmp2 = cs.alloc(
+                || format!("tmp2_{}{}", j, cnt),
+                || tmp2_value.ok_or(SynthesisError::AssignmentMissing),
+            )?;
 
             cs.enforce(
                 || format!("tmp2_{}{} = res * state", j, cnt),
-                |lc| lc + res,
-                |lc| lc + *state,
+                |lc| lc + &res.1,
+                |lc| lc + &state.1,
                 |lc| lc + tmp2,
             );
-            res_value = tmp_value;
-            res = tmp2;
+            res = (tmp2_value, tmp2.into());
         }
-        cnt += 1;
     }
 
-    Ok((res_value, res))
+    Ok(res)
+}
+
+/// Adds a constant to a value held by a linear combination.
+fn add_constant<F: PrimeField, CS: ConstraintSystem<F>>(
+    (value, lc): (Option<F>, LinearCombination<F>),
+    constant: F,
+) -> (Option<F>, LinearCombination<F>) {
+    (value.map(|v| v + constant), lc + (constant, CS::one()))
+}
+
+/// Multiplies the state by the MDS matrix.
+fn mix<F: PrimeField>(
+    state: &[(Option<F>, LinearCombination<F>)],
+    mds: &[[F; M]; M],
+) -> Vec<(Option<F>, LinearCombination<F>)> {
+    mds.iter()
+        .map(|row| {
+            let mut value = Some(F::zero());
+            let mut lc = LinearCombination::zero();
+            for (coeff, (v, l)) in row.iter().zip(state.iter()) {
+                value = match (value, v) {
+                    (Some(a), Some(b)) => Some(a + *coeff * b),
+                    _ => None,
+                };
+                lc = lc + l.clone() * *coeff;
+            }
+            (value, lc)
+        })
+        .collect()
 }
 
 /// implement AbstractHashOutput.
@@ -584,19 +592,25 @@ impl<F: PrimeField> AbstractHash<F> for AbstractHashRescue<F> {
         mut cs: CS,
         params: &[&Self::Output],
     ) -> Result<Self::Output, SynthesisError> {
-        let mut bytes = vec![];
-        for o in params.iter() {
-            if let Some(l) = o.get_value() {
-                l.write(&mut bytes)
-                    .map_err(|e| SynthesisError::IoError(e))?;
-            } else {
-                return Err(SynthesisError::AssignmentMissing);
-            }
+        let constants = constants::<F>();
+        let mut value = Some(F::zero());
+        let mut lc = LinearCombination::zero();
+        let mut variable = None;
+
+        for (i, o) in params.iter().enumerate() {
+            let (v, var) = rescue_block_enforce(
+                &mut cs.ns(|| format!("rescue_hash_{}", i)),
+                (value, lc),
+                (o.value, o.variable.into()),
+                &constants,
+            )?;
+            value = v;
+            lc = var.into();
+            variable = Some(var);
         }
 
-        let r = rescue(cs.ns(|| format!("rescue_hash")), &bytes)?;
-
-        AbstractHashRescueOutput::alloc(cs.ns(|| "rescue_hash"), Some(r))
+        let variable = variable.ok_or(SynthesisError::AssignmentMissing)?;
+        Ok(AbstractHashRescueOutput { value, variable })
     }
 }
 
-- 
2.43.0


From 91b516f12edf2c6313f55a2c14b4248f0402fed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:32 +0000
Subject: [PATCH 45/48] fix: refuse Plonk proofs with a wrong number of
 openings

---
 plonk/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/plonk/src/lib.rs b/plonk/src/lib.rs
index ef133c2..fd92340 100644
--- a/plonk/src/lib.rs
+++ b/plonk/src/lib.rs
@@ -22,7 +22,7 @@ use ark_poly::univariate::DensePolynomial;
 use ark_poly_commit::{Evaluations, LabeledCommitment, PCUniversalParams, PolynomialCommitment};
 use ark_serialize::CanonicalSerialize;
 
-use ark_std::{marker::PhantomData, string::ToString, vec, vec::Vec};
+use ark_std::{collections::BTreeSet, marker::PhantomData, string::ToString, vec, vec::Vec};
 use digest::Digest;
 use rand_core::RngCore;
 
@@ -254,6 +254,13 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
         if proof.evaluations.len() != query_set.len() {
             return Ok(false);
         }
+
+        // one opening per point
+        let points: BTreeSet<_> = query_set.iter().map(|(_, (label, _))| label).collect();
+        let point_openings: Vec<PC::Proof> = proof.pc_proof.proof.clone().into();
+        if point_openings.len() != points.len() {
+            return Ok(false);
+        }
         fs_rng.absorb(&proof.evaluations);
         let epsilon = F::rand(&mut fs_rng);
 
-- 
2.43.0


From d25726f6f6d39dd9bc8bf38425885762abdda9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:53 +0000
Subject: [PATCH 46/48] fix: the Groth16 verifier script checks that a proof's
 points are in the prime-order groups

---
 ckb-contracts/contracts/universal_groth16_verifier/src/entry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ckb-contracts/contracts/universal_groth16_verifier/src/entry.rs b/ckb-contracts/contracts/universal_groth16_verifier/src/entry.rs
index 4cafd1c..8f4cafd 100644
--- a/ckb-contracts/contracts/universal_groth16_verifier/src/entry.rs
+++ b/ckb-contracts/contracts/universal_groth16_verifier/src/entry.rs
@@ -29,7 +29,7 @@ pub fn main() -> Result<(), Error> {
     };
 
     let vk = VerifyKey::<E>::deserialize_unchecked(&vk_data[..]).map_err(|_e| Error::Encoding)?;
-    let proof = Proof::<E>::deserialize_unchecked(&proof_data[..]).map_err(|_e| Error::Encoding)?;
+    let proof = Proof::<E>::deserialize_uncompressed(&proof_data[..]).map_err(|_e| Error::Encoding)?;
     let mut publics = Vec::new();
     publics.push(Fr::deserialize_unchecked(&public_data[..]).map_err(|_e| Error::Encoding)?);
 
-- 
2.43.0


From 23bcb4e9efbf26236ec3a046ca85e8ef770c9411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:53 +0000
Subject: [PATCH 47/48] fix: the Plonk verifier script checks that a proof's
 points are in the prime-order group

---
 ckb-contracts/contracts/universal_plonk_verifier/src/entry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ckb-contracts/contracts/universal_plonk_verifier/src/entry.rs b/ckb-contracts/contracts/universal_plonk_verifier/src/entry.rs
index aedcbb1..e5d8547 100644
--- a/ckb-contracts/contracts/universal_plonk_verifier/src/entry.rs
+++ b/ckb-contracts/contracts/universal_plonk_verifier/src/entry.rs
@@ -44,7 +44,7 @@ pub fn main() -> Result<(), Error> {
         VerifierKey::<Fr, PC>::deserialize_unchecked(&vk_data[..]).map_err(|_e| Error::Encoding)?;
 
     let proof =
-        Proof::<Fr, PC>::deserialize_unchecked(&proof_data[..]).map_err(|_e| Error::Encoding)?;
+        Proof::<Fr, PC>::deserialize_uncompressed(&proof_data[..]).map_err(|_e| Error::Encoding)?;
 
     let publics =
         Vec::<Fr>::deserialize_unchecked(&public_data[..]).map_err(|_e| Error::Encoding)?;
-- 
2.43.0


From 341e6b9f24a21df9f8665b0c470085b0474dfb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:59 +0000
Subject: [PATCH 48/48] fix: report a failed synthesis in Spartan's provers
 instead of panicking

---
 spartan/src/prover.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/spartan/src/prover.rs b/spartan/src/prover.rs
index f2cfe37..40e0f3f 100644
--- a/spartan/src/prover.rs
+++ b/spartan/src/prover.rs
@@ -125,8 +125,7 @@ where
         circuit,
         rng,
         &mut transcript,
-    )
-    .unwrap();
+    )?;
     let proof = NIZKProof::<G> {
         r1cs_satisfied_proof: r1cs_sat_proof,
         r: (rx, ry),
@@ -163,8 +162,7 @@ where
         circuit,
         rng,
         &mut transcript,
-    )
-    .unwrap();
+    )?;
 
     let eval_a_r = evaluate_mle::<G>(&r1cs.a_matrix, &rx, &ry);
     let eval_b_r = evaluate_mle::<G>(&r1cs.b_matrix, &rx, &ry);
@@ -186,8 +184,7 @@ where
         encode,
         rng,
         &mut transcript,
-    )
-    .unwrap();
+    )?;
 
     let proof = SNARKProof::<G> {
         r1cs_satisfied_proof: r1cs_sat_proof,
-- 
2.43.0

