From d733cf2e1eb25deb008ef38d1116d2547c452ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:38 +0000
Subject: [PATCH 01/11] hooks: simulator access to proof parts and private
 modules (cfg qesa_sim)

---
 src/copy/copy.rs      | 23 +++++++++++++++++++++++
 src/copy/mapping.rs   | 20 ++++++++++++++++++++
 src/copy/mod.rs       |  7 +++++++
 src/ipa/alm_zk.rs     | 11 +++++++++++
 src/ipa/no_zk.rs      | 16 ++++++++++++++++
 src/ipa/qesa_inner.rs | 15 +++++++++++++++
 src/lib.rs            |  2 ++
 src/lmpa/no_zk.rs     | 26 ++++++++++++++++++++++++++
 src/lmpa/simple_zk.rs | 22 ++++++++++++++++++++++
 src/qesa_zk.rs        | 11 +++++++++++
 src/sim_hooks.rs      |  8 ++++++++
 11 files changed, 161 insertions(+)
 create mode 100644 src/sim_hooks.rs

diff --git a/src/copy/copy.rs b/src/copy/copy.rs
index d7f0af2..f00a382 100644
--- a/src/copy/copy.rs
+++ b/src/copy/copy.rs
@@ -233,6 +233,29 @@ impl Copy {
         proof_inner.verify(transcript, G_Vec, H_Vec, Q, &gamma_i)
     }
 }
+/// Access for the deterministic simulator, see `sim_hooks`.
+#[cfg(qesa_sim)]
+impl Copy {
+    pub fn sim_parts(&self) -> (CompressedRistretto, qesa_inner::Inner) {
+        (self.C_w, self.inner.clone())
+    }
+    pub fn sim_from_parts(C_w: CompressedRistretto, inner: qesa_inner::Inner) -> Copy {
+        Copy { C_w, inner }
+    }
+    pub fn sim_verify(
+        &self,
+        transcript: &mut Transcript,
+        G_Vec: Vec<RistrettoPoint>,
+        H_Vec: Vec<RistrettoPoint>,
+        Q: &RistrettoPoint,
+        gamma_i: BlockMatrix,
+        map: Mapping,
+        commitments: Vec<RistrettoPoint>,
+    ) -> bool {
+        self.verify(transcript, G_Vec, H_Vec, Q, gamma_i, map, commitments)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/copy/mapping.rs b/src/copy/mapping.rs
index b0ff932..b598a6b 100644
--- a/src/copy/mapping.rs
+++ b/src/copy/mapping.rs
@@ -144,6 +144,26 @@ pub fn compute_mapping(
     }
 }
 
+/// Access for the deterministic simulator, see `sim_hooks`.
+#[cfg(qesa_sim)]
+impl Mapping {
+    /// (position in witness, commitment index, commitment crs id) of every message, in order
+    pub fn sim_messages(&self) -> Vec<(u16, u16, u16)> {
+        self.msgs_map
+            .iter()
+            .map(|m| (m.position_in_witness, m.commitment_index, m.commitment_crs_id))
+            .collect()
+    }
+    pub fn sim_set_message(&mut self, i: usize, m: (u16, u16, u16)) {
+        self.msgs_map[i].position_in_witness = m.0;
+        self.msgs_map[i].commitment_index = m.1;
+        self.msgs_map[i].commitment_crs_id = m.2;
+    }
+    pub fn sim_unique_indices(&self) -> BTreeSet<u16> {
+        self.unique_commitment_indices.clone()
+    }
+}
+
 #[test]
 fn test_random_compute_mapping() {
     use rand::Rng;
diff --git a/src/copy/mod.rs b/src/copy/mod.rs
index 1467674..a170194 100644
--- a/src/copy/mod.rs
+++ b/src/copy/mod.rs
@@ -1,2 +1,9 @@
 mod copy;
 mod mapping;
+
+/// Access for the deterministic simulator, see `sim_hooks`.
+#[cfg(qesa_sim)]
+pub mod sim {
+    pub use super::copy::{create, Copy};
+    pub use super::mapping::{commit, compute_mapping, Mapping, MessageMap};
+}
diff --git a/src/ipa/alm_zk.rs b/src/ipa/alm_zk.rs
index c9701b2..dded10c 100644
--- a/src/ipa/alm_zk.rs
+++ b/src/ipa/alm_zk.rs
@@ -112,6 +112,17 @@ impl AlmZK {
     }
 }
 
+/// Access for the deterministic simulator, see `sim_hooks`.
+#[cfg(qesa_sim)]
+impl AlmZK {
+    pub fn sim_parts(&self) -> (CompressedRistretto, no_zk::NoZK) {
+        (self.C_r, self.NoZK.clone())
+    }
+    pub fn sim_from_parts(C_r: CompressedRistretto, NoZK: no_zk::NoZK) -> AlmZK {
+        AlmZK { C_r, NoZK }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/ipa/no_zk.rs b/src/ipa/no_zk.rs
index 3bdfe26..6713eab 100644
--- a/src/ipa/no_zk.rs
+++ b/src/ipa/no_zk.rs
@@ -179,6 +179,22 @@ fn vector_vector_add(a: &mut [RistrettoPoint], b: &mut [RistrettoPoint]) -> Vec<
     a.iter().zip(b.iter()).map(|(a, b)| a + b).collect()
 }
 
+/// Access for the deterministic simulator, see `sim_hooks`.
+#[cfg(qesa_sim)]
+impl NoZK {
+    pub fn sim_parts(&self) -> (Vec<CompressedRistretto>, Vec<CompressedRistretto>, Scalar, Scalar) {
+        (self.L_vec.clone(), self.R_vec.clone(), self.a, self.b)
+    }
+    pub fn sim_from_parts(
+        L_vec: Vec<CompressedRistretto>,
+        R_vec: Vec<CompressedRistretto>,
+        a: Scalar,
+        b: Scalar,
+    ) -> NoZK {
+        NoZK { L_vec, R_vec, a, b }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/ipa/qesa_inner.rs b/src/ipa/qesa_inner.rs
index dc3cec1..751d098 100644
--- a/src/ipa/qesa_inner.rs
+++ b/src/ipa/qesa_inner.rs
@@ -211,6 +211,21 @@ fn compute_gamma_prime(gamma: &Vec<Vec<Scalar>>, n: usize) -> Vec<Vec<Scalar>> {
     gamma_prime
 }
 
+/// Access for the deterministic simulator, see `sim_hooks`.
+#[cfg(qesa_sim)]
+impl Inner {
+    pub fn sim_parts(&self) -> (CompressedRistretto, CompressedRistretto, alm_zk::AlmZK) {
+        (self.c_prime_w, self.c_prime_prime_w, self.alm_zk.clone())
+    }
+    pub fn sim_from_parts(
+        c_prime_w: CompressedRistretto,
+        c_prime_prime_w: CompressedRistretto,
+        alm_zk: alm_zk::AlmZK,
+    ) -> Inner {
+        Inner { alm_zk, c_prime_w, c_prime_prime_w }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/lib.rs b/src/lib.rs
index c596d75..d016d75 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4,6 +4,8 @@ pub mod lmpa;
 mod math_utils;
 pub mod matrix;
 pub mod qesa_zk;
+#[cfg(qesa_sim)]
+pub mod sim_hooks;
 pub mod transcript;
 
 #[cfg(test)]
diff --git a/src/lmpa/no_zk.rs b/src/lmpa/no_zk.rs
index d28f4af..5a48101 100644
--- a/src/lmpa/no_zk.rs
+++ b/src/lmpa/no_zk.rs
@@ -382,6 +382,32 @@ impl lmpa_noZK {
     }
 }
 
+/// Access for the deterministic simulator, see `sim_hooks`.
+#[cfg(qesa_sim)]
+impl NoZK {
+    pub fn sim_parts(&self) -> (&Vec<Vec<RistrettoPoint>>, &Vec<Vec<RistrettoPoint>>, &Scalar) {
+        (&self.L_Vec, &self.R_Vec, &self.w)
+    }
+    pub fn sim_from_parts(L_Vec: Vec<Vec<RistrettoPoint>>, R_Vec: Vec<Vec<RistrettoPoint>>, w: Scalar) -> NoZK {
+        NoZK { L_Vec, R_Vec, w }
+    }
+}
+
+/// Access for the deterministic simulator, see `sim_hooks`.
+#[cfg(qesa_sim)]
+impl lmpa_noZK {
+    pub fn sim_parts(&self) -> (&Vec<Scalar>, &Vec<Vec<Vec<RistrettoPoint>>>, &Vec<Vec<RistrettoPoint>>, &Vec<RistrettoPoint>) {
+        (&self.w_Vec, &self.u_proof_Block, &self.A_Matrix, &self.t_Vec)
+    }
+    pub fn sim_from_parts(
+        w_Vec: Vec<Scalar>,
+        u_proof_Block: Vec<Vec<Vec<RistrettoPoint>>>,
+        A_Matrix: Vec<Vec<RistrettoPoint>>,
+        t_Vec: Vec<RistrettoPoint>,
+    ) -> lmpa_noZK {
+        lmpa_noZK { A_Matrix, t_Vec, w_Vec, u_proof_Block }
+    }
+}
 
 
 use sha3::Sha3_512;
diff --git a/src/lmpa/simple_zk.rs b/src/lmpa/simple_zk.rs
index 5ab34ce..29b2674 100644
--- a/src/lmpa/simple_zk.rs
+++ b/src/lmpa/simple_zk.rs
@@ -148,6 +148,28 @@ impl SimpleZK {
     }
 }
 
+/// Access for the deterministic simulator, see `sim_hooks`.
+#[cfg(qesa_sim)]
+impl SimpleZK_general {
+    pub fn sim_parts(&self) -> (&Vec<RistrettoPoint>, &no_zk::lmpa_noZK) {
+        (&self.a, &self.lamp_no_zk)
+    }
+    pub fn sim_from_parts(a: Vec<RistrettoPoint>, lamp_no_zk: no_zk::lmpa_noZK) -> SimpleZK_general {
+        SimpleZK_general { lamp_no_zk, a }
+    }
+}
+
+/// Access for the deterministic simulator, see `sim_hooks`.
+#[cfg(qesa_sim)]
+impl SimpleZK {
+    pub fn sim_parts(&self) -> (&Vec<RistrettoPoint>, &no_zk::NoZK) {
+        (&self.a, &self.no_zk)
+    }
+    pub fn sim_from_parts(a: Vec<RistrettoPoint>, no_zk: no_zk::NoZK) -> SimpleZK {
+        SimpleZK { no_zk, a }
+    }
+}
+
 use sha3::Sha3_512;
 
 #[test]
diff --git a/src/qesa_zk.rs b/src/qesa_zk.rs
index 5f4b0a0..f2e3b02 100644
--- a/src/qesa_zk.rs
+++ b/src/qesa_zk.rs
@@ -44,3 +44,14 @@ impl Zk {
         self.inner.verify(transcript, G_Vec, H_Vec, Q, gamma_i)
     }
 }
+
+/// Access for the deterministic simulator, see `sim_hooks`.
+#[cfg(qesa_sim)]
+impl Zk {
+    pub fn sim_parts(&self) -> qesa_inner::Inner {
+        self.inner.clone()
+    }
+    pub fn sim_from_parts(inner: qesa_inner::Inner) -> Zk {
+        Zk { inner }
+    }
+}
diff --git a/src/sim_hooks.rs b/src/sim_hooks.rs
new file mode 100644
index 0000000..1556230
--- /dev/null
+++ b/src/sim_hooks.rs
@@ -0,0 +1,8 @@
+//! Access for the deterministic simulator, compiled only with `--cfg qesa_sim`.
+//!
+//! Re-exports the crate-private proof systems. The proof types additionally have `sim_parts` and
+//! `sim_from_parts` under the same flag, which take a proof apart into the values that travel from
+//! prover to verifier and put one together from received values.
+
+pub use crate::copy::sim as copy;
+pub use crate::ipa::{alm_zk, gramschmidt, no_zk, qesa_inner};
-- 
2.43.0


From 61c11f4472b956096095c0d9907da8ba8ae36f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:00 +0000
Subject: [PATCH 02/11] fix: do not print the witness and proof internals from
 the lmpa prover and verifier

The debug output wrote the secret witness to stdout, and made proving and
verifying panic when stdout is closed or full.
---
 src/lmpa/no_zk.rs | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/src/lmpa/no_zk.rs b/src/lmpa/no_zk.rs
index 5a48101..34598e4 100644
--- a/src/lmpa/no_zk.rs
+++ b/src/lmpa/no_zk.rs
@@ -59,7 +59,6 @@ pub fn create(
         R_Vec.push(R);
 
         let challenge = transcript.challenge_scalar(b"challenge");
-        println!("zouyudi-create challenge:{:?}", challenge);
 
         let challenge_matrix = matrixpoint_scalar_mul(&A_1, &challenge);
         A = matrixpoint_matrix_add(&A_0, &challenge_matrix);
@@ -102,7 +101,6 @@ pub fn create_lmpa_noZK(
         let chunk_size = n/k;
         let A_T = matrix_split(&A, chunk_size);
         let w_T: Vec<_> = matrix_split(&vec![w.clone()], chunk_size);
-        println!("A_T:{:?}\n, w_T:{:?}", A_T, w_T);
 
         let mut i = 0;
         let mut j = 0;
@@ -114,7 +112,6 @@ pub fn create_lmpa_noZK(
                 let l = shift + j - i;
                 if( l != shift) {
                     let u_l_t = matrixpoint_vector_mul(&A_t, &w_vec[0]);
-                    println!("u_l_t:{:?}, u_vec_l: {:?}", u_l_t, u_vec[l]);
                     u_vec[l] = rowpoint_rowpoint_add(&u_vec[l], &u_l_t);
                    
                 } else {
@@ -128,7 +125,6 @@ pub fn create_lmpa_noZK(
         i = 0;
         j = 0;
 
-        println!("u_vec: {:?}", u_vec);
 
         for u_v in u_vec.iter() {
             for u_l in u_v.iter() {
@@ -140,10 +136,8 @@ pub fn create_lmpa_noZK(
         let x = transcript.challenge_scalar(b"challenge_x");
 
         let x_vec: Vec<_> = vandemonde_vector(x, k); 
-        println!("x_vec: {:?}", x_vec);
 
         let y_vec: Vec<_> = vandemonde_vector(x.invert(), k); 
-        println!("y_vec: {:?}, 1/x:{:?}", y_vec, x.invert());
 
         let mut z_vec: Vec<_> = vec![one; vec_len]; //default all as one.
         for x in x_vec.clone() {
@@ -161,7 +155,6 @@ pub fn create_lmpa_noZK(
         }
         i = 0;
         j = 0;
-        println!("z_vec: {:?}", z_vec);
 
         let mut new_A: Vec<_> = Vec::new();
         while i < k {
@@ -176,7 +169,6 @@ pub fn create_lmpa_noZK(
         i = 0;
         
         A = new_A.pop().unwrap();
-        println!("A: {:?}", A);
 
         let mut new_w: Vec<_> = Vec::new();
         while i < k {
@@ -191,7 +183,6 @@ pub fn create_lmpa_noZK(
         i = 0;
 
         w = new_w.pop().unwrap().pop().unwrap();
-        println!("w:{:?}", w);
 
         let mut new_t: Vec<_> = Vec::new();
         while i < vec_len {
@@ -203,9 +194,7 @@ pub fn create_lmpa_noZK(
             }
             i += 1;
         }
-        println!("new_t:{:?}", new_t);
         t = new_t.pop().unwrap();
-        println!("t:{:?}", t);
 
         i = 0;
         j = 0;
@@ -262,7 +251,6 @@ impl NoZK {
             }
 
             let challenge = transcript.challenge_scalar(b"challenge");
-            println!("zouyudi-verify challenge:{:?}", challenge);
             let challenge_matrix = matrixpoint_scalar_mul(&A_1, &challenge);
             A = matrixpoint_matrix_add(&A_0, &challenge_matrix);
 
@@ -316,10 +304,8 @@ impl lmpa_noZK {
             let x = transcript.challenge_scalar(b"challenge_x");
 
             let x_vec: Vec<_> = vandemonde_vector(x, k); 
-            println!("x_vec: {:?}", x_vec);
 
             let y_vec: Vec<_> = vandemonde_vector(x.invert(), k); 
-            println!("y_vec: {:?}, 1/x:{:?}", y_vec, x.invert());
 
             let mut z_vec: Vec<_> = vec![one; vec_len]; //default all as one.
             for x in x_vec.clone() {
@@ -337,7 +323,6 @@ impl lmpa_noZK {
             }
             i = 0;
             j = 0;
-            println!("z_vec: {:?}", z_vec);
 
             let mut new_A: Vec<_> = Vec::new();
             while i < k {
@@ -352,7 +337,6 @@ impl lmpa_noZK {
             i = 0;
             
             A = new_A.pop().unwrap();
-            println!("A: {:?}", A);
 
            
 
@@ -366,9 +350,7 @@ impl lmpa_noZK {
                 }
                 i += 1;
             }
-            println!("new_t:{:?}", new_t);
             t = new_t.pop().unwrap();
-            println!("t:{:?}", t);
 
             i = 0;
             j = 0;
-- 
2.43.0


From dca8a896387468947b9998277599b12266281004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:03 +0000
Subject: [PATCH 03/11] fix: compare all rows of the image in the lmpa
 verifier, not just the first

---
 src/lmpa/no_zk.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lmpa/no_zk.rs b/src/lmpa/no_zk.rs
index 34598e4..ce23505 100644
--- a/src/lmpa/no_zk.rs
+++ b/src/lmpa/no_zk.rs
@@ -268,7 +268,8 @@ impl NoZK {
 
         let expected_t = matrixpoint_vector_mul(&A, &base_witnes);
 
-        expected_t[0] == t[0]
+        // Every row has to match, not just the first one
+        expected_t == t
     }
 }
 
-- 
2.43.0


From bb592117a8fef099a599a759090af9336043c4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:22 +0000
Subject: [PATCH 04/11] fix: prove the blinded instead of the plain witness in
 create_general

The proof carried the folded plain witness, so it was not zero knowledge.
---
 src/lmpa/simple_zk.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lmpa/simple_zk.rs b/src/lmpa/simple_zk.rs
index 29b2674..d899ad1 100644
--- a/src/lmpa/simple_zk.rs
+++ b/src/lmpa/simple_zk.rs
@@ -78,12 +78,18 @@ pub fn create_general(
         .zip(r.iter())
         .map(|(witness, random)| beta * witness + random)
         .collect();
+    // The image of the blinded witness.
+    let t_prime: Vec<RistrettoPoint> = t
+        .iter()
+        .zip(a.iter())
+        .map(|(t_i, a_i)| beta * t_i + a_i)
+        .collect();
 
     let proof = no_zk::create_lmpa_noZK(
         transcript,
         A.clone(),
-        w,
-        t.clone(),
+        w_prime,
+        t_prime,
         n, //cols
         m, //rows
         k, //k
-- 
2.43.0


From a5025abc2a025b3e799edfea633b8c8a6e27be71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:25 +0000
Subject: [PATCH 05/11] fix: check the k-ary lmpa proof against the matrix and
 image of the statement

The verifier compared values that all came from the proof, and accepted any
matrix and any image.
---
 src/lmpa/no_zk.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lmpa/no_zk.rs b/src/lmpa/no_zk.rs
index ce23505..0348847 100644
--- a/src/lmpa/no_zk.rs
+++ b/src/lmpa/no_zk.rs
@@ -295,6 +295,10 @@ impl lmpa_noZK {
             let shift = k-1; //to make the index begin with 0, index of -(k-1)
             let vec_len = 2*shift+1; // index 0~2*shift
             
+            // The middle element is the image that is being proven, it is not up to the prover
+            if self.u_proof_Block[challenge_index][shift] != t {
+                return false;
+            }
 
             for u_v in self.u_proof_Block[challenge_index].iter() {
                 for u_l in u_v.iter() {
@@ -359,9 +363,14 @@ impl lmpa_noZK {
             challenge_index += 1;
         }
 
-        let expected_t = matrixpoint_vector_mul(&self.A_Matrix, &self.w_Vec);
+        // The folded matrix and image have to be the ones computed from the statement
+        if self.A_Matrix != A || self.t_Vec != t {
+            return false;
+        }
+
+        let expected_t = matrixpoint_vector_mul(&A, &self.w_Vec);
 
-        expected_t[0] == t[0]
+        expected_t == t
     }
 }
 
-- 
2.43.0


From dffcc3ac0989a24b7082713eb86f60d6908566be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:32 +0000
Subject: [PATCH 06/11] fix: refuse malformed proofs instead of panicking

Points that do not decode, missing or surplus rounds and rows of the wrong
length made the verifiers panic; surplus values were ignored.
---
 src/copy/copy.rs      |  5 ++++-
 src/ipa/alm_zk.rs     |  5 ++++-
 src/ipa/no_zk.rs      | 19 ++++++++++++++-----
 src/ipa/qesa_inner.rs | 10 ++++++++--
 src/lmpa/no_zk.rs     | 26 ++++++++++++++++++++++++++
 src/lmpa/simple_zk.rs |  9 +++++++++
 6 files changed, 65 insertions(+), 9 deletions(-)

diff --git a/src/copy/copy.rs b/src/copy/copy.rs
index f00a382..af2242e 100644
--- a/src/copy/copy.rs
+++ b/src/copy/copy.rs
@@ -187,7 +187,10 @@ impl Copy {
             .zip(commitments.iter())
             .map(|(alpha, commitment)| commitment * alpha)
             .sum();
-        commitment = commitment + self.C_w.decompress().unwrap();
+        commitment = match self.C_w.decompress() {
+            Some(C_w) => commitment + C_w,
+            None => return false,
+        };
 
         // 3. Modify gamma to match the new commited values
         //
diff --git a/src/ipa/alm_zk.rs b/src/ipa/alm_zk.rs
index dded10c..022c27f 100644
--- a/src/ipa/alm_zk.rs
+++ b/src/ipa/alm_zk.rs
@@ -90,7 +90,10 @@ impl AlmZK {
         //1. Decompress the commitment (C_r)
         //
         transcript.append_message(b"C_r", self.C_r.as_bytes());
-        let C_r = self.C_r.decompress().unwrap();
+        let C_r = match self.C_r.decompress() {
+            Some(C_r) => C_r,
+            None => return false,
+        };
 
         //3. Compute challenge based on C_r
         //
diff --git a/src/ipa/no_zk.rs b/src/ipa/no_zk.rs
index 6713eab..c29ee13 100644
--- a/src/ipa/no_zk.rs
+++ b/src/ipa/no_zk.rs
@@ -122,11 +122,20 @@ impl NoZK {
         let mut G = G_Vec.to_owned();
         let mut H = H_Vec.to_owned();
 
-        let Ls: Vec<RistrettoPoint> = self.L_vec.iter().map(|L| L.decompress().unwrap()).collect();
-        let Rs: Vec<RistrettoPoint> = self.R_vec.iter().map(|R| R.decompress().unwrap()).collect();
-        assert_eq!(n, 1 << Ls.len());
-
-        let mut n = 1 << Ls.len();
+        // The proof comes from an untrusted party: refuse it if it has the wrong number of rounds
+        // or if a point does not decode
+        let lg_n = n.trailing_zeros() as usize;
+        if !n.is_power_of_two() || self.L_vec.len() != lg_n || self.R_vec.len() != lg_n {
+            return false;
+        }
+        let Ls: Option<Vec<RistrettoPoint>> = self.L_vec.iter().map(|L| L.decompress()).collect();
+        let Rs: Option<Vec<RistrettoPoint>> = self.R_vec.iter().map(|R| R.decompress()).collect();
+        let (Ls, Rs) = match (Ls, Rs) {
+            (Some(Ls), Some(Rs)) => (Ls, Rs),
+            _ => return false,
+        };
+
+        let mut n = n;
 
         transcript.append_u64(b"n", n as u64);
 
diff --git a/src/ipa/qesa_inner.rs b/src/ipa/qesa_inner.rs
index 751d098..81ebf49 100644
--- a/src/ipa/qesa_inner.rs
+++ b/src/ipa/qesa_inner.rs
@@ -127,7 +127,10 @@ impl Inner {
         //1. Decompress the commitment (C'_w)
         //
         transcript.append_message(b"c_prime_w", self.c_prime_w.as_bytes());
-        let c_prime_w = self.c_prime_w.decompress().unwrap();
+        let c_prime_w = match self.c_prime_w.decompress() {
+            Some(c_prime_w) => c_prime_w,
+            None => return false,
+        };
 
         //2. Compute challenges based on C'_w
         //
@@ -144,7 +147,10 @@ impl Inner {
 
         //5. Decompress the commitment (C''_w)
         //
-        let c_prime_prime_w = self.c_prime_prime_w.decompress().unwrap();
+        let c_prime_prime_w = match self.c_prime_prime_w.decompress() {
+            Some(c_prime_prime_w) => c_prime_prime_w,
+            None => return false,
+        };
         let c_prime_w = c_prime_w - (beta - Scalar::one()) * G_Vec[0];
         transcript.append_message(b"c_prime_prime_w", c_prime_prime_w.compress().as_bytes());
 
diff --git a/src/lmpa/no_zk.rs b/src/lmpa/no_zk.rs
index 0348847..c1075bd 100644
--- a/src/lmpa/no_zk.rs
+++ b/src/lmpa/no_zk.rs
@@ -222,6 +222,16 @@ impl NoZK {
     ) -> bool {
         assert_eq!(n, G_Vec.len());
 
+        // The proof comes from an untrusted party: refuse it if it does not have the right shape
+        let m = t.len();
+        let lg_n = n.trailing_zeros() as usize;
+        if !n.is_power_of_two() || self.L_Vec.len() != lg_n || self.R_Vec.len() != lg_n {
+            return false;
+        }
+        if self.L_Vec.iter().chain(self.R_Vec.iter()).any(|u| u.len() != m) {
+            return false;
+        }
+
         let mut challenge_index = 0;
 
         while n != 1 {
@@ -285,6 +295,22 @@ impl lmpa_noZK {
         one: Scalar,
         zero: RistrettoPoint,
     ) -> bool {
+        // The proof comes from an untrusted party: refuse it if it does not have the right shape
+        let mut rounds = 0;
+        let mut w_len = n;
+        while w_len >= k {
+            w_len = w_len/k;
+            rounds += 1;
+        }
+        if self.u_proof_Block.len() != rounds || self.w_Vec.len() != w_len {
+            return false;
+        }
+        for u_v in self.u_proof_Block.iter() {
+            if u_v.len() != 2*k-1 || u_v.iter().any(|u_l| u_l.len() != m) {
+                return false;
+            }
+        }
+
         let mut challenge_index = 0;
         while n >= k {
             let chunk_size = n/k;
diff --git a/src/lmpa/simple_zk.rs b/src/lmpa/simple_zk.rs
index d899ad1..2ccd306 100644
--- a/src/lmpa/simple_zk.rs
+++ b/src/lmpa/simple_zk.rs
@@ -110,6 +110,10 @@ impl SimpleZK_general {
         m: usize,
         k: usize,
     ) -> bool {
+        // The proof comes from an untrusted party: refuse it if it does not have the right shape
+        if self.a.len() != t.len() {
+            return false;
+        }
 
         for element in self.a.iter() {
             transcript.append_message(b"a", element.compress().as_bytes());
@@ -139,6 +143,11 @@ impl SimpleZK {
     ) -> bool {
         assert_eq!(n, G_Vec.len());
 
+        // The proof comes from an untrusted party: refuse it if it does not have the right shape
+        if self.a.len() != t.len() {
+            return false;
+        }
+
         for element in self.a.iter() {
             transcript.append_message(b"a", element.compress().as_bytes());
         }
-- 
2.43.0


From f9bc189565ad5aed5ab391c4d4ed8e29e8682b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:35 +0000
Subject: [PATCH 07/11] fix: fix the first witness element with a challenge of
 its own

The second batching challenge was used for it, so with a wrong first element
the residue of equation i could cancel that of equation i+2.
---
 src/ipa/qesa_inner.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ipa/qesa_inner.rs b/src/ipa/qesa_inner.rs
index 81ebf49..918f735 100644
--- a/src/ipa/qesa_inner.rs
+++ b/src/ipa/qesa_inner.rs
@@ -52,7 +52,9 @@ pub fn create(
 
     //5. Fix the first element of the witness to be one (see paper)
     //
-    let beta = x_challenges[1];
+    // `beta` must not be one of the batching challenges: a wrong first element could otherwise
+    // make one equation cancel another
+    let beta = transcript.challenge_scalar(b"beta");
     G_Vec[0] = G_Vec[0] * beta.invert();
 
     //6. Compute r'' by rotating the r' by 90 degrees
@@ -142,7 +144,9 @@ impl Inner {
 
         //4. Fix the first element of the witness to be one (see paper)
         //
-        let beta = x_challenges[1];
+        // `beta` must not be one of the batching challenges: a wrong first element could otherwise
+        // make one equation cancel another
+        let beta = transcript.challenge_scalar(b"beta");
         G_Vec[0] = G_Vec[0] * beta.invert();
 
         //5. Decompress the commitment (C''_w)
-- 
2.43.0


From 70153841d68473e3ad82f198fb58b3761d593621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:38 +0000
Subject: [PATCH 08/11] fix: batch all equations, not just the first n

With more equations than generators the surplus ones were silently dropped,
by the verifier too.
---
 src/ipa/qesa_inner.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ipa/qesa_inner.rs b/src/ipa/qesa_inner.rs
index 918f735..f2c450e 100644
--- a/src/ipa/qesa_inner.rs
+++ b/src/ipa/qesa_inner.rs
@@ -41,8 +41,10 @@ pub fn create(
 
     //3. Compute challenges based on C'_w
     //
-    let x_challenges: Vec<Scalar> = vandemonde_challenge(transcript.challenge_scalar(b"x"), n);
-    assert_eq!(x_challenges.len(), n);
+    let num_matrices = gamma_i.block.len();
+    let x_challenges: Vec<Scalar> =
+        vandemonde_challenge(transcript.challenge_scalar(b"x"), num_matrices);
+    assert_eq!(x_challenges.len(), num_matrices);
 
     // 4. batch each matrix into a single matrix using the challenges
     //
@@ -136,7 +138,9 @@ impl Inner {
 
         //2. Compute challenges based on C'_w
         //
-        let x_challenges: Vec<Scalar> = vandemonde_challenge(transcript.challenge_scalar(b"x"), n);
+        let num_matrices = gamma_i.block.len();
+        let x_challenges: Vec<Scalar> =
+            vandemonde_challenge(transcript.challenge_scalar(b"x"), num_matrices);
 
         // 3. batch each matrix into a single matrix using the challenges
         //
-- 
2.43.0


From 571af9fa9af7938dfc899d9af82357ad0329040e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:52 +0000
Subject: [PATCH 09/11] fix: refuse a copy proof that carries the commitment of
 another witness

---
 src/copy/copy.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/copy/copy.rs b/src/copy/copy.rs
index af2242e..67a03dd 100644
--- a/src/copy/copy.rs
+++ b/src/copy/copy.rs
@@ -228,12 +228,11 @@ impl Copy {
 
         //4. Call Qesa_Inner as a sub-protocol using the modified commitment
         //
-        let proof_inner = qesa_inner::Inner {
-            alm_zk: self.inner.alm_zk.clone(),
-            c_prime_w: commitment.compress(),
-            c_prime_prime_w: self.inner.c_prime_prime_w,
-        };
-        proof_inner.verify(transcript, G_Vec, H_Vec, Q, &gamma_i)
+        // The proof has to be about that commitment and not about any other
+        if self.inner.c_prime_w != commitment.compress() {
+            return false;
+        }
+        self.inner.verify(transcript, G_Vec, H_Vec, Q, &gamma_i)
     }
 }
 /// Access for the deterministic simulator, see `sim_hooks`.
-- 
2.43.0


From e67b55ed6dc895e4dc518e29434e41e0717c30ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:55 +0000
Subject: [PATCH 10/11] fix: bind the commitments into the transcript of the
 copy proof

---
 src/copy/copy.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/copy/copy.rs b/src/copy/copy.rs
index 67a03dd..fd824dd 100644
--- a/src/copy/copy.rs
+++ b/src/copy/copy.rs
@@ -64,6 +64,18 @@ pub fn create(
         w_prime[msg_map.position_in_witness as usize] = *msg;
     }
 
+    // Bind the commitments that the proof is about, before any challenge is drawn
+    //
+    let mut commitments: Vec<RistrettoPoint> = openings
+        .iter()
+        .map(|(_, rnd)| rnd * G_Vec[n - 1])
+        .collect();
+    for (msg, msg_map) in all_messages.iter().zip(map.msgs_map.iter()) {
+        commitments[msg_map.commitment_crs_id as usize] +=
+            msg * G_Vec[msg_map.commitment_index as usize];
+    }
+    append_commitments(transcript, &commitments);
+
     // 5. Compute commitment (C_w) to witness
     //
     let C_w = RistrettoPoint::vartime_multiscalar_mul(w_prime.iter(), G_Vec.iter());
@@ -160,6 +172,12 @@ pub fn create(
     }
 }
 
+fn append_commitments(transcript: &mut Transcript, commitments: &[RistrettoPoint]) {
+    for commitment in commitments.iter() {
+        transcript.append_message(b"commitment", commitment.compress().as_bytes());
+    }
+}
+
 impl Copy {
     fn verify(
         &self,
@@ -173,6 +191,10 @@ impl Copy {
     ) -> bool {
         let n = G_Vec.len();
 
+        // Bind the commitments that the proof is about, before any challenge is drawn
+        //
+        append_commitments(transcript, &commitments);
+
         //1. Add commited witness to the transcript
         //
         transcript.append_message(b"c_w", self.C_w.as_bytes());
-- 
2.43.0


From e17920e47393b255c520b86eb64467691aef3579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:58 +0000
Subject: [PATCH 11/11] fix: bind the image into the transcript of the lmpa
 proofs

---
 src/lmpa/no_zk.rs     | 10 ++++++++++
 src/lmpa/simple_zk.rs | 20 ++++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/src/lmpa/no_zk.rs b/src/lmpa/no_zk.rs
index c1075bd..101c4cc 100644
--- a/src/lmpa/no_zk.rs
+++ b/src/lmpa/no_zk.rs
@@ -24,6 +24,11 @@ pub fn create(
 ) -> NoZK {
     let mut n = G_Vec.len();
 
+    // Bind the image that is being proven
+    for t_i in matrixpoint_vector_mul(&A, &w).iter() {
+        transcript.append_message(b"t", t_i.compress().as_bytes());
+    }
+
     let mut L_Vec: Vec<Vec<RistrettoPoint>> = Vec::new();
     let mut R_Vec: Vec<Vec<RistrettoPoint>> = Vec::new();
 
@@ -232,6 +237,11 @@ impl NoZK {
             return false;
         }
 
+        // Bind the image that is being proven
+        for t_i in t.iter() {
+            transcript.append_message(b"t", t_i.compress().as_bytes());
+        }
+
         let mut challenge_index = 0;
 
         while n != 1 {
diff --git a/src/lmpa/simple_zk.rs b/src/lmpa/simple_zk.rs
index 2ccd306..42e916c 100644
--- a/src/lmpa/simple_zk.rs
+++ b/src/lmpa/simple_zk.rs
@@ -25,6 +25,11 @@ pub fn create(
 ) -> SimpleZK {
     let mut n = G_Vec.len();
 
+    // Bind the image that is being proven
+    for t_i in matrixpoint_vector_mul(&A, &w).iter() {
+        transcript.append_message(b"t", t_i.compress().as_bytes());
+    }
+
     let mut rng = rand::thread_rng();
     let r: Vec<Scalar> = (0..n).map(|_| Scalar::random(&mut rng)).collect();
     //In qesa paper section 3.4.3, computing [A]r for random r is expensive.
@@ -63,6 +68,11 @@ pub fn create_general(
     k: usize,
 ) -> SimpleZK_general {
 
+    // Bind the image that is being proven
+    for t_i in t.iter() {
+        transcript.append_message(b"t", t_i.compress().as_bytes());
+    }
+
     let mut rng = rand::thread_rng();
     let r: Vec<Scalar> = (0..n).map(|_| Scalar::random(&mut rng)).collect();
     //In qesa paper section 3.4.3, computing [A]r for random r is expensive.
@@ -115,6 +125,11 @@ impl SimpleZK_general {
             return false;
         }
 
+        // Bind the image that is being proven
+        for t_i in t.iter() {
+            transcript.append_message(b"t", t_i.compress().as_bytes());
+        }
+
         for element in self.a.iter() {
             transcript.append_message(b"a", element.compress().as_bytes());
         }
@@ -148,6 +163,11 @@ impl SimpleZK {
             return false;
         }
 
+        // Bind the image that is being proven
+        for t_i in t.iter() {
+            transcript.append_message(b"t", t_i.compress().as_bytes());
+        }
+
         for element in self.a.iter() {
             transcript.append_message(b"a", element.compress().as_bytes());
         }
-- 
2.43.0

