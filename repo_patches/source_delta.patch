From 1eaa3d0adb136bdaeaa899bf5993af3057197567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 01/10] fix: hash_to_mapping panics when an index cannot be
 placed

The check inside the loop over h in 0..h_count compared h >= h_count, which
never holds, so an index whose slots were all taken was silently dropped.
---
 src/naive_hash.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naive_hash.rs b/src/naive_hash.rs
index 1fb1441..890c71c 100644
--- a/src/naive_hash.rs
+++ b/src/naive_hash.rs
@@ -79,7 +79,7 @@ impl NaiveHash {
                     e.insert((c, *i));
                     break;
                 }
-                if h >= self.h_count() {
+                if h + 1 >= self.h_count() {
                     panic!("all slots are taken for i={}", i);
                 }
             }
-- 
2.43.0


From e6706ec4081d7a9c37e1801dc7db025de867e247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 02/10] fix: update_body_with_mul multiplies the body instead
 of zeroing it

The body was copied to a buffer and cleared, and then the cleared body was
multiplied; use the buffer, as update_mask_with_mul does.
---
 src/rlwe.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rlwe.rs b/src/rlwe.rs
index 8295b77..cdabc33 100644
--- a/src/rlwe.rs
+++ b/src/rlwe.rs
@@ -148,7 +148,12 @@ impl RLWECiphertext {
             .as_mut_tensor()
             .fill_with_copy(self.get_body().as_tensor());
         self.get_mut_body().as_mut_tensor().fill_with(Scalar::zero);
-        naive_update_with_mul(&mut self.get_mut_body().as_mut_polynomial(), other);
+
+        naive_update_with_mul_acc(
+            &mut self.get_mut_body().as_mut_polynomial(),
+            &poly_buffer.as_mut_view(),
+            other,
+        );
     }
 
     pub fn update_body_with_mul_with_buf(&mut self, other: &Polynomial<&[Scalar]>) {
-- 
2.43.0


From 26c9fd0a83e7f0d23a65a9d525a69df75dfc932c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 03/10] fix: compute_noise_ternary encodes the plaintext

The expected phase is the ternary encoding of the plaintext, as in
ternary_encrypt_rlwe; decoding it instead made every non-zero coefficient
count as noise.
---
 src/rlwe.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rlwe.rs b/src/rlwe.rs
index cdabc33..5ebf00a 100644
--- a/src/rlwe.rs
+++ b/src/rlwe.rs
@@ -1294,7 +1294,7 @@ where
 {
     let mut tmp = PlaintextList::allocate(Scalar::zero(), ptxt.count());
     tmp.as_mut_tensor().fill_with_copy(ptxt.as_tensor());
-    Codec::poly_ternary_decode(&mut tmp.as_mut_polynomial());
+    Codec::poly_ternary_encode(&mut tmp.as_mut_polynomial());
     compute_noise(sk, ct, &tmp)
 }
 
-- 
2.43.0


From 0be6f4ae6176a9df5c445468ce57ca0d97063871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 04/10] verif: guarded read access for the verification harness
 (cfg panacea_verif)

---
 src/naive_hash.rs       |  4 ++++
 src/oram.rs             |  4 ++++
 src/rlwe.rs             |  4 ++++
 src/utils.rs            |  4 ++++
 src/verif/naive_hash.rs | 11 +++++++++++
 src/verif/oram.rs       | 12 ++++++++++++
 src/verif/rlwe.rs       | 22 ++++++++++++++++++++++
 src/verif/utils.rs      | 18 ++++++++++++++++++
 8 files changed, 79 insertions(+)
 create mode 100644 src/verif/naive_hash.rs
 create mode 100644 src/verif/oram.rs
 create mode 100644 src/verif/rlwe.rs
 create mode 100644 src/verif/utils.rs

diff --git a/src/naive_hash.rs b/src/naive_hash.rs
index 890c71c..7214a35 100644
--- a/src/naive_hash.rs
+++ b/src/naive_hash.rs
@@ -88,6 +88,10 @@ impl NaiveHash {
     }
 }
 
+#[cfg(panacea_verif)]
+#[path = "verif/naive_hash.rs"]
+pub mod verif;
+
 #[cfg(test)]
 mod test {
     use super::NaiveHash;
diff --git a/src/oram.rs b/src/oram.rs
index 690a34b..8726549 100644
--- a/src/oram.rs
+++ b/src/oram.rs
@@ -686,6 +686,10 @@ fn correct_consistency(
     second_term
 }
 
+#[cfg(panacea_verif)]
+#[path = "verif/oram.rs"]
+pub mod verif;
+
 #[cfg(test)]
 mod test {
     use super::*;
diff --git a/src/rlwe.rs b/src/rlwe.rs
index 5ebf00a..923c50a 100644
--- a/src/rlwe.rs
+++ b/src/rlwe.rs
@@ -1316,6 +1316,10 @@ where
     compute_noise(sk, ct, &tmp)
 }
 
+#[cfg(panacea_verif)]
+#[path = "verif/rlwe.rs"]
+pub mod verif;
+
 #[cfg(test)]
 mod test {
 
diff --git a/src/utils.rs b/src/utils.rs
index dfc894d..3e6a45f 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -93,3 +93,7 @@ pub fn pt_to_lossy_u64(pt: &PlaintextList<Vec<Scalar>>) -> u64 {
     }
     out
 }
+
+#[cfg(panacea_verif)]
+#[path = "verif/utils.rs"]
+pub mod verif;
diff --git a/src/verif/naive_hash.rs b/src/verif/naive_hash.rs
new file mode 100644
index 0000000..14f9578
--- /dev/null
+++ b/src/verif/naive_hash.rs
@@ -0,0 +1,11 @@
+//! Construction from explicit tables for the verification harness (only with `--cfg panacea_verif`).
+use super::NaiveHash;
+
+pub fn from_tables(tables: Vec<usize>, h_count: usize, input_domain: usize) -> NaiveHash {
+    assert_eq!(tables.len(), h_count * input_domain);
+    NaiveHash {
+        tables,
+        h_count,
+        input_domain,
+    }
+}
diff --git a/src/verif/oram.rs b/src/verif/oram.rs
new file mode 100644
index 0000000..bf126e6
--- /dev/null
+++ b/src/verif/oram.rs
@@ -0,0 +1,12 @@
+//! Read access to private state for the verification harness (only with `--cfg panacea_verif`).
+use super::*;
+
+/// The components of a query: index bits, operation flag, data.
+pub fn query_parts(q: &ClientQuery) -> (&[RGSWCiphertext], &RGSWCiphertext, &RLWECiphertext) {
+    (&q.a, &q.op.0, &q.data)
+}
+
+/// A copy of the stored table.
+pub fn server_data(s: &Server) -> Vec<Vec<RLWECiphertext>> {
+    s.data.iter().map(|r| r.read().unwrap().clone()).collect()
+}
diff --git a/src/verif/rlwe.rs b/src/verif/rlwe.rs
new file mode 100644
index 0000000..5f33600
--- /dev/null
+++ b/src/verif/rlwe.rs
@@ -0,0 +1,22 @@
+//! Read access to private state for the verification harness (only with `--cfg panacea_verif`).
+use super::*;
+
+pub fn sk_coeffs(sk: &RLWESecretKey) -> Vec<Scalar> {
+    sk.0.as_tensor().as_slice().to_vec()
+}
+
+pub fn lwe_sk_coeffs(sk: &crate::lwe::LWESecretKey) -> Vec<Scalar> {
+    sk.0.as_tensor().as_slice().to_vec()
+}
+
+pub fn lwe_ksk_inner(k: &LWEtoRLWEKeyswitchKey) -> &[RGSWCiphertext] {
+    &k.inner
+}
+
+pub fn fourier_mul_acc(
+    out: &mut Polynomial<&mut [Scalar]>,
+    p1: &Polynomial<&[Scalar]>,
+    p2: &Polynomial<&[Scalar]>,
+) {
+    fourier_update_with_mul_acc(out, p1, p2)
+}
diff --git a/src/verif/utils.rs b/src/verif/utils.rs
new file mode 100644
index 0000000..c2e15ca
--- /dev/null
+++ b/src/verif/utils.rs
@@ -0,0 +1,18 @@
+//! Public names for crate-private helpers, for the verification harness (only with `--cfg panacea_verif`).
+use super::*;
+
+pub fn eval_x_k(poly: &Polynomial<Vec<Scalar>>, k: usize) -> Polynomial<Vec<Scalar>> {
+    super::eval_x_k(poly, k)
+}
+
+pub fn eval_x_k_in_memory(
+    out: &mut Polynomial<Vec<Scalar>>,
+    poly: &Polynomial<Vec<Scalar>>,
+    k: usize,
+) {
+    super::eval_x_k_in_memory(out, poly, k)
+}
+
+pub fn mul_const(t: &mut Tensor<Vec<Scalar>>, c: Scalar) {
+    super::mul_const(t, c)
+}
-- 
2.43.0


From 91ce29174658adfbfa9948d85148dc352dd3f484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 05/10] fix: encrypt_rgsw uses the decomposition base of its
 output

The gadget factors were taken from the context's default base, so the
encryption of the negated key (which has its own base) was wrong whenever
the two bases differ.
---
 src/rlwe.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rlwe.rs b/src/rlwe.rs
index 923c50a..c4c1ab4 100644
--- a/src/rlwe.rs
+++ b/src/rlwe.rs
@@ -455,9 +455,10 @@ impl RLWESecretKey {
         // first create a constant encryption of 0, then add the decomposed encoded value to it
         self.encrypt_constant_rgsw(out, &Plaintext(Scalar::zero()), ctx);
         let mut buf = PlaintextList::allocate(Scalar::zero(), ctx.plaintext_count());
+        let base_log = out.decomposition_base_log().0;
         for (i, mut m) in out.0.as_mut_glwe_list().ciphertext_iter_mut().enumerate() {
             let level = (i / 2) + 1;
-            let shift: usize = (Scalar::BITS as usize) - ctx.base_log.0 * level;
+            let shift: usize = (Scalar::BITS as usize) - base_log * level;
             buf.as_mut_tensor().fill_with_copy(encoded.as_tensor());
             mul_const(buf.as_mut_tensor(), 1 << shift);
             if i % 2 == 0 {
-- 
2.43.0


From 334e60cc2890d25a5a3d13b87945b905da417029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 06/10] verif: LWE secret key derived from an RLWE key for the
 harness (cfg panacea_verif)

---
 src/verif/rlwe.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/verif/rlwe.rs b/src/verif/rlwe.rs
index 5f33600..17f72a2 100644
--- a/src/verif/rlwe.rs
+++ b/src/verif/rlwe.rs
@@ -20,3 +20,9 @@ pub fn fourier_mul_acc(
 ) {
     fourier_update_with_mul_acc(out, p1, p2)
 }
+
+pub fn lwe_sk_from(s: &[Scalar]) -> crate::lwe::LWESecretKey {
+    crate::lwe::LWESecretKey(
+        concrete_core::commons::crypto::secret::LweSecretKey::binary_from_container(s.to_vec()),
+    )
+}
-- 
2.43.0


From 7c89094d4cbe31f132e9d83d104be48c341a7c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:23 +0000
Subject: [PATCH 07/10] fix: processing a single query no longer requires a
 rayon worker thread

---
 src/oram.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/oram.rs b/src/oram.rs
index 8726549..1261b47 100644
--- a/src/oram.rs
+++ b/src/oram.rs
@@ -249,7 +249,7 @@ fn process_one_mt(
     ctx: &Context,
 ) -> (RLWECiphertext, Vec<RGSWCiphertext>) {
     let f = |level: usize| {
-        let tid = rayon::current_thread_index().unwrap();
+        let tid = rayon::current_thread_index().unwrap_or(0);
         let mut c = RLWECiphertext::allocate(ctx.poly_size);
         let shift: usize = (Scalar::BITS as usize) - ctx.base_log.0 * level;
         *c.get_mut_body().as_mut_tensor().first_mut() = Scalar::one() << shift;
@@ -268,7 +268,7 @@ fn process_one_mt(
     assert_eq!(decomposed_l.len(), cols);
 
     let g = |j: usize| {
-        let tid = rayon::current_thread_index().unwrap();
+        let tid = rayon::current_thread_index().unwrap_or(0);
         let l = decomposed_rlwe_to_rgsw(
             &decomposed_l[j],
             neg_s,
@@ -310,7 +310,7 @@ fn update_db_mt(
     ctx: &Context,
 ) {
     let g = |j: usize, l: &RGSWCiphertext| {
-        let tid = rayon::current_thread_index().unwrap();
+        let tid = rayon::current_thread_index().unwrap_or(0);
         let tmp: RLWECiphertext = rw(
             &query.op,
             &query.data,
@@ -348,7 +348,7 @@ fn process_one_st(
     ctx: &Context,
 ) -> (RLWECiphertext, Vec<RGSWCiphertext>) {
     let mut demux_res: Vec<Vec<RLWECiphertext>> = vec![];
-    let tid = rayon::current_thread_index().unwrap();
+    let tid = rayon::current_thread_index().unwrap_or(0);
     for level in 1..=ctx.level_count.0 {
         let mut c = RLWECiphertext::allocate(ctx.poly_size);
         let shift: usize = (Scalar::BITS as usize) - ctx.base_log.0 * level;
@@ -391,7 +391,7 @@ fn update_db_st(
     buf: &FftBufferPool,
     ctx: &Context,
 ) {
-    let tid = rayon::current_thread_index().unwrap();
+    let tid = rayon::current_thread_index().unwrap_or(0);
     let cols = data.read().unwrap().len();
     for j in 0..cols {
         // update the database at index j
@@ -470,7 +470,7 @@ impl Server {
 
         // sum the output of rw*t in parallel (over multiple queries)
         let tmps = queries.into_par_iter().zip(&ls).map(|(query, l)| {
-            let tid = rayon::current_thread_index().unwrap();
+            let tid = rayon::current_thread_index().unwrap_or(0);
             let mut out = vec![RLWECiphertext::allocate(self.ctx.poly_size); cols];
             for j in 0..cols {
                 let tmp = rw(
@@ -524,7 +524,7 @@ impl Server {
             .collect::<Vec<usize>>()
             .into_par_iter()
             .for_each(|j| {
-                let tid = rayon::current_thread_index().unwrap();
+                let tid = rayon::current_thread_index().unwrap_or(0);
                 let mut new_data = RLWECiphertext::allocate(self.ctx.poly_size);
                 sumed_ls[j].cmux_with_buf(
                     &mut new_data,
@@ -631,7 +631,7 @@ fn correct_consistency(
     ctx: &Context,
     buf: &FftBufferPool,
 ) -> RLWECiphertext {
-    let tid = rayon::current_thread_index().unwrap();
+    let tid = rayon::current_thread_index().unwrap_or(0);
     let first_r = positions[0].0;
     let first_c = positions[0].1;
     let v1s: Vec<RLWECiphertext> = positions
-- 
2.43.0


From fa75add52baf3567e8b382ef2c6957554fdf8f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 08/10] fix: EncNode::eval counts the bits of the largest label
 exactly

---
 src/decision_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decision_tree.rs b/src/decision_tree.rs
index ee3bd66..43f2754 100644
--- a/src/decision_tree.rs
+++ b/src/decision_tree.rs
@@ -375,7 +375,7 @@ impl EncNode {
 
     /// Evaluate the tree.
     pub fn eval(&self, ctx: &Context, buf: &mut FftBuffer) -> Vec<RLWECiphertext> {
-        let max_leaf_bits = ((self.max_leaf() + 1) as f64).log2().ceil() as usize;
+        let max_leaf_bits = (usize::BITS - self.max_leaf().leading_zeros()) as usize;
         let mut out = vec![RLWECiphertext::allocate(ctx.poly_size); max_leaf_bits];
         let mut c = RLWECiphertext::allocate(ctx.poly_size);
         *c.get_mut_body().as_mut_tensor().first_mut() = Scalar::one();
-- 
2.43.0


From 49247db10b6c18be2aca6b45781e7c3937e2e4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:01 +0000
Subject: [PATCH 09/10] fix: decrypt_and_recompose returns zero when there are
 no bits

---
 src/decision_tree.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decision_tree.rs b/src/decision_tree.rs
index 43f2754..aacbc10 100644
--- a/src/decision_tree.rs
+++ b/src/decision_tree.rs
@@ -632,6 +632,10 @@ fn decrypt_and_recompose(sk: &RLWESecretKey, cts: &Vec<RLWECiphertext>, ctx: &Co
             _ => panic!("expected binary plaintext"),
         }
     }
+    if bv.is_empty() {
+        // every label is zero
+        return Scalar::zero();
+    }
     bv.load::<Scalar>()
 }
 
-- 
2.43.0


From 8cc836d1f3161d0a1463d99b4869402a4f4f1136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 10/10] fix: compute_noise handles a difference of exactly half
 the modulus

---
 src/rlwe.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rlwe.rs b/src/rlwe.rs
index c4c1ab4..4a945c5 100644
--- a/src/rlwe.rs
+++ b/src/rlwe.rs
@@ -1274,10 +1274,10 @@ where
     pt.as_mut_polynomial()
         .update_with_wrapping_sub(&encoded_ptxt.as_polynomial());
 
-    let mut max_e: SignedScalar = 0;
+    let mut max_e: Scalar = 0;
     for x in pt.as_tensor().iter() {
         // convert x to signed
-        let z = (*x as SignedScalar).abs();
+        let z = (*x as SignedScalar).unsigned_abs();
         if z > max_e {
             max_e = z;
         }
-- 
2.43.0

