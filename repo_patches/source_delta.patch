From fab2835323f1a1c81547c40292a2e3e7b5919db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:41 +0000
Subject: [PATCH 1/5] fix: mat_inverse inverts every invertible matrix, also
 with zero pivots

Elimination without row exchanges unwrapped None for any invertible matrix
with a singular leading principal minor, e.g. [[0,1],[1,0]].
---
 src/utils.rs | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 8e8a39a..a838ea0 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -19,38 +19,40 @@ pub fn mat_inverse<F: PrimeField>(mat: &[Vec<F>]) -> Vec<Vec<F>> {
 
     // upper triangle
     for row in 0..n {
-        for j in 0..row {
-            // subtract from these rows
-            let el = m[row][j];
-            for col in 0..n {
-                // do subtraction for each col
-                if col < j {
-                    m[row][col] = F::zero();
-                } else {
-                    let mut tmp = m[j][col];
-                    tmp.mul_assign(&el);
-                    m[row][col].sub_assign(&tmp);
-                }
-                if col > row {
-                    inv[row][col] = F::zero();
-                } else {
+        // rows below have not been reduced yet: take the first one that yields a non-zero pivot
+        for candidate in row..n {
+            m.swap(row, candidate);
+            inv.swap(row, candidate);
+            for j in 0..row {
+                // subtract from these rows
+                let el = m[row][j];
+                for col in 0..n {
+                    // do subtraction for each col
+                    if col < j {
+                        m[row][col] = F::zero();
+                    } else {
+                        let mut tmp = m[j][col];
+                        tmp.mul_assign(&el);
+                        m[row][col].sub_assign(&tmp);
+                    }
                     let mut tmp = inv[j][col];
                     tmp.mul_assign(&el);
                     inv[row][col].sub_assign(&tmp);
                 }
             }
+            if !m[row][row].is_zero() {
+                break;
+            }
         }
         // make 1 in diag
         let el_inv = m[row][row].inverse().unwrap();
         for col in 0..n {
             match col.cmp(&row) {
-                std::cmp::Ordering::Less => inv[row][col].mul_assign(&el_inv),
-                std::cmp::Ordering::Equal => {
-                    m[row][col] = F::one();
-                    inv[row][col].mul_assign(&el_inv)
-                }
+                std::cmp::Ordering::Less => {}
+                std::cmp::Ordering::Equal => m[row][col] = F::one(),
                 std::cmp::Ordering::Greater => m[row][col].mul_assign(&el_inv),
             }
+            inv[row][col].mul_assign(&el_inv);
         }
     }
 
-- 
2.43.0


From 2d78006cc2b1e5e562d7bd9b3a5b75c001ce6e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:41 +0000
Subject: [PATCH 2/5] fix: Poseidon2 evaluates the x^11 S-box that
 Poseidon2Params accepts

Poseidon2Params::new accepts d = 11, but every permutation then panicked.
---
 src/poseidon2/poseidon2.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/poseidon2/poseidon2.rs b/src/poseidon2/poseidon2.rs
index d8eb478..6c24903 100644
--- a/src/poseidon2/poseidon2.rs
+++ b/src/poseidon2/poseidon2.rs
@@ -79,6 +79,14 @@ impl<F: PrimeField> Poseidon2<F> {
                 out.mul_assign(input);
                 out
             }
+            11 => {
+                let mut out = input2;
+                out.square_in_place();
+                out.square_in_place();
+                out.mul_assign(&input2);
+                out.mul_assign(input);
+                out
+            }
             _ => {
                 panic!()
             }
-- 
2.43.0


From 39d4bf64f6886882bcdaa8828f4aaaf87a5154e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:41 +0000
Subject: [PATCH 3/5] fix: PoseidonParams refuses round constants that do not
 match the width

In release builds a full-round row shorter than t silently truncated the
state, so that inputs differing only in the dropped elements collided.
---
 src/poseidon/poseidon_params.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/poseidon/poseidon_params.rs b/src/poseidon/poseidon_params.rs
index b79a07a..61aa79d 100644
--- a/src/poseidon/poseidon_params.rs
+++ b/src/poseidon/poseidon_params.rs
@@ -31,6 +31,7 @@ impl<S: PrimeField> PoseidonParams<S> {
     ) -> Self {
         assert!(d == 3 || d == 5 || d == 7);
         assert_eq!(mds.len(), t);
+        assert!(round_constants.iter().all(|rc| rc.len() == t));
         assert_eq!(rounds_f % 2, 0);
         let r = rounds_f / 2;
         let rounds = rounds_f + rounds_p;
-- 
2.43.0


From c761749018587fbef4ff6dd8937cacf5bb9db137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:41 +0000
Subject: [PATCH 4/5] fix: from_hex refuses strings without the 0x prefix

It dropped the first two characters whatever they were, so from_hex("ff")
silently decoded to zero.
---
 src/fields/utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fields/utils.rs b/src/fields/utils.rs
index 14189b6..1ab9a37 100644
--- a/src/fields/utils.rs
+++ b/src/fields/utils.rs
@@ -7,7 +7,8 @@ use ark_ff::{PrimeField};
 use hex::FromHex;
 
 pub fn from_hex<F: PrimeField>(s: &str) -> F {
-    let a = Vec::from_hex(&s[2..]).expect("Invalid Hex String");
+    let digits = s.strip_prefix("0x").or_else(|| s.strip_prefix("0X"));
+    let a = Vec::from_hex(digits.expect("Invalid Hex String")).expect("Invalid Hex String");
     F::from_be_bytes_mod_order(&a as &[u8])
 }
 
-- 
2.43.0


From c591c84f0eca4c0b338f79cdf5dedb24a174ae55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:59 +0000
Subject: [PATCH 5/5] hooks: read-only view of generated GMiMC and Neptune
 parameters (cfg vp_hooks)

---
 src/gmimc/gmimc_params.rs     |  9 +++++++++
 src/neptune/neptune_params.rs | 24 ++++++++++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/src/gmimc/gmimc_params.rs b/src/gmimc/gmimc_params.rs
index 366931e..ad211b1 100644
--- a/src/gmimc/gmimc_params.rs
+++ b/src/gmimc/gmimc_params.rs
@@ -50,3 +50,12 @@ impl<S: PrimeField> GmimcParams<S> {
         self.rounds
     }
 }
+
+// Read-only view for runtime monitors; compiled only with RUSTFLAGS="--cfg vp_hooks".
+#[cfg(vp_hooks)]
+impl<S: PrimeField> GmimcParams<S> {
+    /// The constant added before the S-box, per round.
+    pub fn vp_round_constants(&self) -> Vec<S> {
+        self.round_constants.to_vec()
+    }
+}
diff --git a/src/neptune/neptune_params.rs b/src/neptune/neptune_params.rs
index 56eaf84..5ca1ecf 100644
--- a/src/neptune/neptune_params.rs
+++ b/src/neptune/neptune_params.rs
@@ -164,3 +164,27 @@ impl<S: PrimeField> NeptuneParams<S> {
         mat
     }
 }
+
+// Read-only view for runtime monitors; compiled only with RUSTFLAGS="--cfg vp_hooks".
+#[cfg(vp_hooks)]
+impl<S: PrimeField> NeptuneParams<S> {
+    /// The constants added at the end of each round.
+    pub fn vp_round_constants(&self) -> Vec<Vec<S>> {
+        self.round_constants.iter().map(|rc| rc.to_vec()).collect()
+    }
+
+    /// The external (full round) matrix.
+    pub fn vp_external_matrix(&self) -> Vec<Vec<S>> {
+        self.m_e.iter().map(|row| row.to_vec()).collect()
+    }
+
+    /// The diagonal of the internal matrix minus one (its other entries are one).
+    pub fn vp_internal_diag_m_1(&self) -> Vec<S> {
+        self.mu.to_vec()
+    }
+
+    /// alpha, beta and gamma of the external S-box.
+    pub fn vp_alpha_beta_gamma(&self) -> [S; 3] {
+        self.abc
+    }
+}
-- 
2.43.0

