From ef72073e59a03f7e0c47c01f9e5691e353ac968d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:54 +0000
Subject: [PATCH 01/21] fix: master keys lack the slot of the last attribute
 value of the policy

---
 src/core/engine.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/engine.rs b/src/core/engine.rs
index 12be553..1f16907 100644
--- a/src/core/engine.rs
+++ b/src/core/engine.rs
@@ -44,8 +44,9 @@ impl<S: AbeScheme> Engine<S> {
         ),
         FormatErr,
     > {
+        // attribute values are numbered from 1 to `max_attribute_creations` included
         self.sch
-            .generate_master_key(policy.max_attribute_creations as usize)
+            .generate_master_key(policy.max_attribute_creations as usize + 1)
     }
 
     /// Generate a user decryption key
-- 
2.43.0


From 9e7ff07fc26cd5464dd8dcefca3ae54ff5d8bbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:54 +0000
Subject: [PATCH 02/21] fix: encryption panics on attribute values outside of
 the public key

---
 src/core/gpsw/scheme.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/gpsw/scheme.rs b/src/core/gpsw/scheme.rs
index dda938a..b3897ee 100644
--- a/src/core/gpsw/scheme.rs
+++ b/src/core/gpsw/scheme.rs
@@ -489,11 +489,11 @@ impl<G: BilinearMap> Gpsw<G> {
         gamma: &[u32],
         pub_key: &GpswMasterPublicKey<G>,
     ) -> Result<GpswCipherText<G>, FormatErr> {
-        if pub_key.t_i.len() <= gamma.len() {
+        if let Some(value) = gamma.iter().find(|i| **i as usize >= pub_key.t_i.len()) {
             return Err(FormatErr::InternalOperation(format!(
-                "invalid attributes: gamma value incorrect (value: {}, max expected size: {})",
-                gamma.len(),
-                pub_key.t_i.len() - 1
+                "invalid attributes: gamma value incorrect (value: {}, public key size: {})",
+                value,
+                pub_key.t_i.len()
             )));
         }
         let s = self.group.gen_random_scalar()?;
-- 
2.43.0


From b96aa8fcb0a61661c7ffb4b8599dcb9ae92c1097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:54 +0000
Subject: [PATCH 03/21] fix: delegation panics on attributes outside of the
 delegation key

---
 src/core/gpsw/scheme.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/core/gpsw/scheme.rs b/src/core/gpsw/scheme.rs
index b3897ee..c5f84ce 100644
--- a/src/core/gpsw/scheme.rs
+++ b/src/core/gpsw/scheme.rs
@@ -416,7 +416,14 @@ impl<G: BilinearMap> Gpsw<G> {
         let mut raw_big_d_i = Vec::with_capacity(msp.rows());
         for (i, row) in msp.matrix().iter().enumerate() {
             let prod_scal = Self::prod_scal(row, &u);
-            let gt_rho_i = &del_key.inv_t_i[msp.get_attr_from_row(i) as usize];
+            let gt_rho_i = del_key
+                .inv_t_i
+                .get(msp.get_attr_from_row(i) as usize)
+                .ok_or_else(|| {
+                    FormatErr::InternalOperation(
+                        "attribute is out of range of the delegation key".to_string(),
+                    )
+                })?;
             let di = self.group.g3_exp(gt_rho_i, &prod_scal);
             //randomize key
             if let Some(index) = user_key.msp.get_row_from_attr(msp.get_attr_from_row(i)) {
@@ -459,7 +466,14 @@ impl<G: BilinearMap> Gpsw<G> {
         let mut raw_big_d_i = Vec::with_capacity(msp.rows());
         for (i, row) in msp.matrix().iter().enumerate() {
             let prod_scal = Self::prod_scal(row, &u);
-            let gt_rho_i = &del_key.inv_t_i[msp.get_attr_from_row(i) as usize];
+            let gt_rho_i = del_key
+                .inv_t_i
+                .get(msp.get_attr_from_row(i) as usize)
+                .ok_or_else(|| {
+                    FormatErr::InternalOperation(
+                        "attribute is out of range of the delegation key".to_string(),
+                    )
+                })?;
             let di = self.group.g3_exp(gt_rho_i, &prod_scal);
             //randomize key
             if let Some(index) = user_key.msp.get_row_from_attr(msp.get_attr_from_row(i)) {
-- 
2.43.0


From 6dac3c3970d55c59d04802eaccab1b6d0353cde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:54 +0000
Subject: [PATCH 04/21] fix: key generation panics on a decoded private key
 holding a null secret

---
 src/core/gpsw/scheme.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/gpsw/scheme.rs b/src/core/gpsw/scheme.rs
index c5f84ce..f063058 100644
--- a/src/core/gpsw/scheme.rs
+++ b/src/core/gpsw/scheme.rs
@@ -382,6 +382,11 @@ impl<G: BilinearMap> Gpsw<G> {
                 ));
             }
             let t_rho_i = &priv_key.t_i[attribute];
+            if *t_rho_i == G::ZERO {
+                return Err(FormatErr::InternalOperation(
+                    "invalid private key: null attribute secret".to_string(),
+                ));
+            }
             let di = self.group.g1_gen_exp(&(prod_scal / t_rho_i));
             big_d_i.push(di.0);
             big_raw_d_i.push(di.1)
-- 
2.43.0


From f781476c9ac61cad069c117ff9dadd8263da1ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:54 +0000
Subject: [PATCH 05/21] fix: decoded keys and ciphertexts may miss elements and
 make decryption panic

---
 src/core/gpsw/scheme.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/gpsw/scheme.rs b/src/core/gpsw/scheme.rs
index f063058..f341ed2 100644
--- a/src/core/gpsw/scheme.rs
+++ b/src/core/gpsw/scheme.rs
@@ -188,6 +188,11 @@ impl<G: BilinearMap> AsBytes for GpswDecryptionKey<G> {
         let raw_d_i = Vec::<G::G3>::try_from_bytes(bytes)?;
         let raw_d_i_len = raw_d_i.len_bytes();
         let msp = MonotoneSpanProgram::<G::Scalar>::try_from_bytes(&bytes[raw_d_i_len..])?;
+        if raw_d_i.len() != msp.rows() {
+            return Err(FormatErr::Deserialization(
+                "invalid decryption key: one element per attribute is expected".to_string(),
+            ));
+        }
         let d_i = raw_d_i.iter().map(|g3| G::g3_to_g1(g3)).collect();
 
         Ok(Self { raw_d_i, d_i, msp })
@@ -216,6 +221,11 @@ impl<G: BilinearMap> AsBytes for GpswCipherText<G> {
         let gamma = Vec::<u32>::try_from_bytes(&bytes[0..])?;
         let gamma_len = gamma.len_bytes();
         let e_i = Vec::<G::G2>::try_from_bytes(&bytes[gamma_len..])?;
+        if e_i.len() != gamma.len() {
+            return Err(FormatErr::Deserialization(
+                "invalid ciphertext: one element per attribute is expected".to_string(),
+            ));
+        }
         let e_i_len = e_i.len_bytes();
         let e_prime = G::Gt::try_from_bytes(&bytes[gamma_len + e_i_len..])?;
 
-- 
2.43.0


From 5bcc7151a2bf35e45d1f30ef70d0ded9d4c8b981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:54 +0000
Subject: [PATCH 06/21] fix: decoding a list of declared length zero underflows

---
 src/core/gpsw/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/gpsw/mod.rs b/src/core/gpsw/mod.rs
index 5e1233d..0166d06 100644
--- a/src/core/gpsw/mod.rs
+++ b/src/core/gpsw/mod.rs
@@ -74,7 +74,7 @@ impl<T: AsBytes> AsBytes for Vec<T> {
         // retrieve len of vector
         let len: [u8; 4] = bytes[0..4].try_into()?;
         let len = u32::from_be_bytes(len) as usize;
-        if len >= u32::MAX as usize {
+        if len == 0 || len >= u32::MAX as usize {
             return Err(FormatErr::Deserialization(
                 "deserializing element failed. Data altered?".to_string(),
             ));
@@ -83,7 +83,10 @@ impl<T: AsBytes> AsBytes for Vec<T> {
         let res0 = T::try_from_bytes(&bytes[4..])?;
         let res0_len_bytes = res0.len_bytes();
 
-        if 4 + (len - 1) * res0_len_bytes >= bytes.len() {
+        let last_element_offset = (len - 1)
+            .checked_mul(res0_len_bytes)
+            .and_then(|offset| offset.checked_add(4));
+        if last_element_offset.map_or(true, |offset| offset >= bytes.len()) {
             return Err(FormatErr::Deserialization(
                 "deserializing element failed. Data altered?".to_string(),
             ));
-- 
2.43.0


From 246d9df65b66d31eef9569a5d3fe7bd6b75ad5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:54 +0000
Subject: [PATCH 07/21] fix: decoding an i32 from less than 4 bytes panics

---
 src/core/gpsw/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/gpsw/mod.rs b/src/core/gpsw/mod.rs
index 0166d06..2355102 100644
--- a/src/core/gpsw/mod.rs
+++ b/src/core/gpsw/mod.rs
@@ -37,6 +37,12 @@ impl AsBytes for i32 {
     }
 
     fn try_from_bytes(bytes: &[u8]) -> Result<Self, FormatErr> {
+        if bytes.len() < 4 {
+            return Err(FormatErr::Deserialization(
+                "cannot deserialize i32 element since input bytes size is less than 4 bytes"
+                    .to_string(),
+            ));
+        }
         Ok(Self::from_be_bytes(bytes[0..4].try_into()?))
     }
 
-- 
2.43.0


From 7a4b69f7aa74e1952d8da4e76628f51657d5a0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:54 +0000
Subject: [PATCH 08/21] fix: decoding a span program overflows or
 over-allocates on hostile dimensions

---
 src/core/msp.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/core/msp.rs b/src/core/msp.rs
index c4d9928..144136c 100644
--- a/src/core/msp.rs
+++ b/src/core/msp.rs
@@ -53,7 +53,7 @@ impl<I: AsBytes> AsBytes for MonotoneSpanProgram<I> {
         let nb_col: [u8; 4] = bytes[4..8].try_into()?;
         let nb_col = u32::from_be_bytes(nb_col) as usize;
 
-        if bytes.len() < 8 + 4 * nb_row {
+        if nb_row == 0 || nb_col == 0 || nb_row > (bytes.len() - 8) / 4 {
             return Err(FormatErr::InvalidSize(
                 "invalid MSP size read from bytes".to_string(),
             ));
@@ -72,13 +72,17 @@ impl<I: AsBytes> AsBytes for MonotoneSpanProgram<I> {
         }
 
         let mut matrix = Vec::with_capacity(nb_row);
-        let mut row = Vec::with_capacity(nb_col);
-        row.push(I::try_from_bytes(&bytes[8 + (4 * nb_row)..])?);
-        if bytes.len() < 8 + (4 * nb_row) + (nb_row * nb_col * row[0].len_bytes()) {
+        let first = I::try_from_bytes(&bytes[8 + (4 * nb_row)..])?;
+        let matrix_len = nb_row
+            .checked_mul(nb_col)
+            .and_then(|nb| nb.checked_mul(first.len_bytes()));
+        if matrix_len.map_or(true, |len| bytes.len() - 8 - (4 * nb_row) < len) {
             return Err(FormatErr::InvalidSize(
                 "invalid matrix size read from bytes".to_string(),
             ));
         }
+        let mut row = Vec::with_capacity(nb_col);
+        row.push(first);
         for c in 1..nb_col {
             let index = 8 + (4 * nb_row) + (c * row[0].len_bytes());
             row.push(I::try_from_bytes(&bytes[index..])?);
-- 
2.43.0


From 5d257e03c4211c83ea09edb32c46015997319291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:54 +0000
Subject: [PATCH 09/21] fix: decoding a truncated hybrid header panics

---
 src/interfaces/hybrid_crypto/statics.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/interfaces/hybrid_crypto/statics.rs b/src/interfaces/hybrid_crypto/statics.rs
index 501c569..5ec526c 100644
--- a/src/interfaces/hybrid_crypto/statics.rs
+++ b/src/interfaces/hybrid_crypto/statics.rs
@@ -38,6 +38,9 @@ impl<S: SymmetricCrypto> EncryptedHeader<S> {
         }
         let symmetric_key_len: [u8; 4] = header[0..4].try_into()?;
         let symmetric_key_len = u32::from_be_bytes(symmetric_key_len) as usize;
+        if header.len() - 4 < symmetric_key_len {
+            return Err(FormatErr::InvalidHeaderSize(header.len()));
+        }
         // Then split header between `symmetric_key` and `encrypted_symmetric_key`
         let symmetric_key_bytes: Vec<u8> = header[4..(4 + symmetric_key_len)].try_into()?;
         let encrypted_header_bytes: Vec<u8> = header[(4 + symmetric_key_len)..].try_into()?;
@@ -74,6 +77,9 @@ impl<S: SymmetricCrypto> ClearTextHeader<S> {
         }
         let symmetric_key_len: [u8; 4] = header[0..4].try_into()?;
         let symmetric_key_len = u32::from_be_bytes(symmetric_key_len) as usize;
+        if header.len() - 4 < symmetric_key_len {
+            return Err(FormatErr::InvalidHeaderSize(header.len()));
+        }
         // Then split header between `symmetric_key` and `meta_data`
         let symmetric_key_bytes: Vec<u8> = header[4..(4 + symmetric_key_len)].try_into()?;
         let meta_data_bytes: Vec<u8> = header[(4 + symmetric_key_len)..].try_into()?;
-- 
2.43.0


From 0540589a1cf737813e8a7edeec0499967b897a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:54 +0000
Subject: [PATCH 10/21] fix: Python decryption panics on data shorter than its
 declared header

---
 src/interfaces/pyo3/hybrid_gpsw_aes.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/interfaces/pyo3/hybrid_gpsw_aes.rs b/src/interfaces/pyo3/hybrid_gpsw_aes.rs
index c66cf42..b63a58d 100644
--- a/src/interfaces/pyo3/hybrid_gpsw_aes.rs
+++ b/src/interfaces/pyo3/hybrid_gpsw_aes.rs
@@ -250,6 +250,11 @@ pub fn encrypt(
 #[pyfunction]
 pub fn decrypt(user_decryption_key_bytes: Vec<u8>, encrypted_bytes: Vec<u8>) -> PyResult<Vec<u8>> {
     let header_size = get_encrypted_header_size(encrypted_bytes.clone())?;
+    if encrypted_bytes.len() - 4 < header_size as usize {
+        return Err(PyTypeError::new_err(
+            "Encrypted value is shorter than its declared header",
+        ));
+    }
     let header = &encrypted_bytes[4..4 + header_size as usize];
     let ciphertext = &encrypted_bytes[4 + header_size as usize..];
 
-- 
2.43.0


From 91a5402bd77ac659f98ae5474da5d3370d2ff9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:12 +0000
Subject: [PATCH 11/21] fix: native calls cast negative lengths and capacities
 to huge sizes

---
 src/interfaces/ffi/generate_gpsw_keys.rs |  8 ++---
 src/interfaces/ffi/hybrid_gpsw_aes.rs    | 46 ++++++++++++------------
 2 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/interfaces/ffi/generate_gpsw_keys.rs b/src/interfaces/ffi/generate_gpsw_keys.rs
index 322db96..033ed96 100644
--- a/src/interfaces/ffi/generate_gpsw_keys.rs
+++ b/src/interfaces/ffi/generate_gpsw_keys.rs
@@ -33,7 +33,7 @@ pub unsafe extern "C" fn h_generate_master_keys(
         master_keys_ptr,
         "Master keys pointer should point to pre-allocated memory"
     );
-    if *master_keys_len == 0 {
+    if *master_keys_len <= 0 {
         ffi_bail!("The master keys buffer should have a size greater than zero");
     }
 
@@ -111,14 +111,14 @@ pub unsafe extern "C" fn h_generate_user_private_key(
         user_private_key_ptr,
         "User private key pointer should point to pre-allocated memory"
     );
-    if *user_private_key_len == 0 {
+    if *user_private_key_len <= 0 {
         ffi_bail!("The user private key buffer should have a size greater than zero");
     }
     ffi_not_null!(
         master_private_key_ptr,
         "Master private key pointer should not be null"
     );
-    if master_private_key_len == 0 {
+    if master_private_key_len <= 0 {
         ffi_bail!("The master private key should not be empty");
     }
     ffi_not_null!(
@@ -213,7 +213,7 @@ pub unsafe extern "C" fn h_rotate_attributes(
         new_policy_ptr,
         "New policy pointer should point to pre-allocated memory"
     );
-    if *new_policy_len == 0 {
+    if *new_policy_len <= 0 {
         ffi_bail!("The new policy buffer should not be empty");
     }
     ffi_not_null!(attributes_ptr, "Attributes pointer should not be null");
diff --git a/src/interfaces/ffi/hybrid_gpsw_aes.rs b/src/interfaces/ffi/hybrid_gpsw_aes.rs
index 05a8535..9a9ea4c 100644
--- a/src/interfaces/ffi/hybrid_gpsw_aes.rs
+++ b/src/interfaces/ffi/hybrid_gpsw_aes.rs
@@ -73,7 +73,7 @@ pub unsafe extern "C" fn h_aes_create_encryption_cache(
 ) -> i32 {
     ffi_not_null!(policy_ptr, "Policy pointer should not be null");
     ffi_not_null!(public_key_ptr, "Public key pointer should not be null");
-    if public_key_len == 0 {
+    if public_key_len <= 0 {
         ffi_bail!("The public key should not be empty");
     }
     // Policy
@@ -142,14 +142,14 @@ pub unsafe extern "C" fn h_aes_encrypt_header_using_cache(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
-    if *symmetric_key_len == 0 {
+    if *symmetric_key_len <= 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
     ffi_not_null!(
         header_bytes_ptr,
         "Header bytes pointer should point to pre-allocated memory"
     );
-    if *header_bytes_len == 0 {
+    if *header_bytes_len <= 0 {
         ffi_bail!("The header bytes buffer should have a size greater than zero");
     }
     ffi_not_null!(attributes_ptr, "Attributes pointer should not be null");
@@ -179,14 +179,14 @@ pub unsafe extern "C" fn h_aes_encrypt_header_using_cache(
     let attributes: Vec<Attribute> = ffi_unwrap!(serde_json::from_str(&attributes));
 
     // UID
-    let uid = if uid_ptr.is_null() || uid_len == 0 {
+    let uid = if uid_ptr.is_null() || uid_len <= 0 {
         vec![]
     } else {
         std::slice::from_raw_parts(uid_ptr.cast::<u8>(), uid_len as usize).to_vec()
     };
 
     // additional data
-    let additional_data = if additional_data_ptr.is_null() || additional_data_len == 0 {
+    let additional_data = if additional_data_ptr.is_null() || additional_data_len <= 0 {
         None
     } else {
         Some(
@@ -260,19 +260,19 @@ pub unsafe extern "C" fn h_aes_encrypt_header(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
-    if *symmetric_key_len == 0 {
+    if *symmetric_key_len <= 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
     ffi_not_null!(
         header_bytes_ptr,
         "Header bytes pointer should point to pre-allocated memory"
     );
-    if *header_bytes_len == 0 {
+    if *header_bytes_len <= 0 {
         ffi_bail!("The header bytes buffer should have a size greater than zero");
     }
     ffi_not_null!(policy_ptr, "Policy pointer should not be null");
     ffi_not_null!(public_key_ptr, "Policy pointer should not be null");
-    if public_key_len == 0 {
+    if public_key_len <= 0 {
         ffi_bail!("The public key should not be empty");
     }
     ffi_not_null!(attributes_ptr, "Attributes pointer should not be null");
@@ -307,14 +307,14 @@ pub unsafe extern "C" fn h_aes_encrypt_header(
     let attributes: Vec<Attribute> = ffi_unwrap!(serde_json::from_str(&attributes));
 
     // UID
-    let uid = if uid_ptr.is_null() || uid_len == 0 {
+    let uid = if uid_ptr.is_null() || uid_len <= 0 {
         vec![]
     } else {
         std::slice::from_raw_parts(uid_ptr.cast::<u8>(), uid_len as usize).to_vec()
     };
 
     // additional data
-    let additional_data = if additional_data_ptr.is_null() || additional_data_len == 0 {
+    let additional_data = if additional_data_ptr.is_null() || additional_data_len <= 0 {
         None
     } else {
         Some(
@@ -402,7 +402,7 @@ pub unsafe extern "C" fn h_aes_create_decryption_cache(
         user_decryption_key_ptr,
         "User decryption key pointer should not be null"
     );
-    if user_decryption_key_len == 0 {
+    if user_decryption_key_len <= 0 {
         ffi_bail!("The user decryption key should not be empty");
     }
 
@@ -465,14 +465,14 @@ pub unsafe extern "C" fn h_aes_decrypt_header_using_cache(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
-    if *symmetric_key_len == 0 {
+    if *symmetric_key_len <= 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
     ffi_not_null!(
         encrypted_header_ptr,
         "Encrypted header bytes pointer should not be bull"
     );
-    if encrypted_header_len == 0 {
+    if encrypted_header_len <= 0 {
         ffi_bail!("The encrypted header bytes size should be greater than zero");
     }
 
@@ -559,7 +559,7 @@ pub unsafe extern "C" fn h_get_encrypted_header_size(
     ffi_not_null!(encrypted_ptr, "Encrypted bytes pointer should not be bull");
     //
     // Check `encrypted_bytes` input param and store it locally
-    if encrypted_len == 0 {
+    if encrypted_len <= 0 {
         ffi_bail!("Encrypted value must be at least 4-bytes long");
     }
     let encrypted_header_bytes =
@@ -598,21 +598,21 @@ pub unsafe extern "C" fn h_aes_decrypt_header(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
-    if *symmetric_key_len == 0 {
+    if *symmetric_key_len <= 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
     ffi_not_null!(
         encrypted_header_ptr,
         "Encrypted header bytes pointer should not be bull"
     );
-    if encrypted_header_len == 0 {
+    if encrypted_header_len <= 0 {
         ffi_bail!("The encrypted header bytes size should be greater than zero");
     }
     ffi_not_null!(
         user_decryption_key_ptr,
         "The user decryption key pointer should not be null"
     );
-    if user_decryption_key_len == 0 {
+    if user_decryption_key_len <= 0 {
         ffi_bail!("The user decryption key should not be empty");
     }
 
@@ -714,7 +714,7 @@ pub unsafe extern "C" fn h_aes_encrypt_block(
         encrypted_ptr,
         "The encrypted bytes pointer should point to pre-allocated memory"
     );
-    if *encrypted_len == 0 {
+    if *encrypted_len <= 0 {
         ffi_bail!("The encrypted bytes buffer should have a size greater than zero");
     }
 
@@ -723,7 +723,7 @@ pub unsafe extern "C" fn h_aes_encrypt_block(
         symmetric_key_ptr,
         "Symmetric Key pointer should not be null"
     );
-    if symmetric_key_len == 0 {
+    if symmetric_key_len <= 0 {
         ffi_bail!("The Symmetric Key should not be empty");
     }
     let symmetric_key =
@@ -739,7 +739,7 @@ pub unsafe extern "C" fn h_aes_encrypt_block(
 
     // Data
     ffi_not_null!(data_ptr, "Data pointer should not be null");
-    if data_len == 0 {
+    if data_len <= 0 {
         ffi_bail!("The data should not be empty");
     }
     let data = std::slice::from_raw_parts(data_ptr.cast::<u8>(), data_len as usize).to_vec();
@@ -786,7 +786,7 @@ pub unsafe extern "C" fn h_aes_decrypt_block(
         clear_text_ptr,
         "The clear text bytes pointer should point to pre-allocated memory"
     );
-    if *clear_text_len == 0 {
+    if *clear_text_len <= 0 {
         ffi_bail!("The clear text bytes buffer should have a size greater than zero");
     }
 
@@ -795,7 +795,7 @@ pub unsafe extern "C" fn h_aes_decrypt_block(
         symmetric_key_ptr,
         "Symmetric Key pointer should not be null"
     );
-    if symmetric_key_len == 0 {
+    if symmetric_key_len <= 0 {
         ffi_bail!("The Symmetric Key should not be empty");
     }
     let symmetric_key =
@@ -811,7 +811,7 @@ pub unsafe extern "C" fn h_aes_decrypt_block(
 
     // Data
     ffi_not_null!(encrypted_bytes_ptr, "Data pointer should not be null");
-    if encrypted_bytes_len == 0 {
+    if encrypted_bytes_len <= 0 {
         ffi_bail!("The data should not be empty");
     }
     let data = std::slice::from_raw_parts(
-- 
2.43.0


From 0676bb237aee5be06c206649c57b68d40397d146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:12 +0000
Subject: [PATCH 12/21] fix: h_get_encrypted_header_size panics on less than 4
 bytes

---
 src/interfaces/ffi/hybrid_gpsw_aes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interfaces/ffi/hybrid_gpsw_aes.rs b/src/interfaces/ffi/hybrid_gpsw_aes.rs
index 9a9ea4c..b42c9ba 100644
--- a/src/interfaces/ffi/hybrid_gpsw_aes.rs
+++ b/src/interfaces/ffi/hybrid_gpsw_aes.rs
@@ -559,7 +559,7 @@ pub unsafe extern "C" fn h_get_encrypted_header_size(
     ffi_not_null!(encrypted_ptr, "Encrypted bytes pointer should not be bull");
     //
     // Check `encrypted_bytes` input param and store it locally
-    if encrypted_len <= 0 {
+    if encrypted_len < 4 {
         ffi_bail!("Encrypted value must be at least 4-bytes long");
     }
     let encrypted_header_bytes =
-- 
2.43.0


From c4b2165eb689754d7b681538916323d36fb45b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:14 +0000
Subject: [PATCH 13/21] fix: native calls dereference null length and handle
 pointers

---
 src/interfaces/ffi/generate_gpsw_keys.rs |  3 +++
 src/interfaces/ffi/hybrid_gpsw_aes.rs    | 18 ++++++++++++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/interfaces/ffi/generate_gpsw_keys.rs b/src/interfaces/ffi/generate_gpsw_keys.rs
index 033ed96..92afc00 100644
--- a/src/interfaces/ffi/generate_gpsw_keys.rs
+++ b/src/interfaces/ffi/generate_gpsw_keys.rs
@@ -33,6 +33,7 @@ pub unsafe extern "C" fn h_generate_master_keys(
         master_keys_ptr,
         "Master keys pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(master_keys_len, "Output length pointer should not be null");
     if *master_keys_len <= 0 {
         ffi_bail!("The master keys buffer should have a size greater than zero");
     }
@@ -111,6 +112,7 @@ pub unsafe extern "C" fn h_generate_user_private_key(
         user_private_key_ptr,
         "User private key pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(user_private_key_len, "Output length pointer should not be null");
     if *user_private_key_len <= 0 {
         ffi_bail!("The user private key buffer should have a size greater than zero");
     }
@@ -213,6 +215,7 @@ pub unsafe extern "C" fn h_rotate_attributes(
         new_policy_ptr,
         "New policy pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(new_policy_len, "Output length pointer should not be null");
     if *new_policy_len <= 0 {
         ffi_bail!("The new policy buffer should not be empty");
     }
diff --git a/src/interfaces/ffi/hybrid_gpsw_aes.rs b/src/interfaces/ffi/hybrid_gpsw_aes.rs
index b42c9ba..a898f34 100644
--- a/src/interfaces/ffi/hybrid_gpsw_aes.rs
+++ b/src/interfaces/ffi/hybrid_gpsw_aes.rs
@@ -71,6 +71,7 @@ pub unsafe extern "C" fn h_aes_create_encryption_cache(
     public_key_ptr: *const c_char,
     public_key_len: c_int,
 ) -> i32 {
+    ffi_not_null!(cache_handle, "Cache handle pointer should not be null");
     ffi_not_null!(policy_ptr, "Policy pointer should not be null");
     ffi_not_null!(public_key_ptr, "Public key pointer should not be null");
     if public_key_len <= 0 {
@@ -142,6 +143,7 @@ pub unsafe extern "C" fn h_aes_encrypt_header_using_cache(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(symmetric_key_len, "Output length pointer should not be null");
     if *symmetric_key_len <= 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
@@ -149,6 +151,7 @@ pub unsafe extern "C" fn h_aes_encrypt_header_using_cache(
         header_bytes_ptr,
         "Header bytes pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(header_bytes_len, "Output length pointer should not be null");
     if *header_bytes_len <= 0 {
         ffi_bail!("The header bytes buffer should have a size greater than zero");
     }
@@ -260,6 +263,7 @@ pub unsafe extern "C" fn h_aes_encrypt_header(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(symmetric_key_len, "Output length pointer should not be null");
     if *symmetric_key_len <= 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
@@ -267,6 +271,7 @@ pub unsafe extern "C" fn h_aes_encrypt_header(
         header_bytes_ptr,
         "Header bytes pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(header_bytes_len, "Output length pointer should not be null");
     if *header_bytes_len <= 0 {
         ffi_bail!("The header bytes buffer should have a size greater than zero");
     }
@@ -398,6 +403,7 @@ pub unsafe extern "C" fn h_aes_create_decryption_cache(
     user_decryption_key_ptr: *const c_char,
     user_decryption_key_len: c_int,
 ) -> i32 {
+    ffi_not_null!(cache_handle, "Cache handle pointer should not be null");
     ffi_not_null!(
         user_decryption_key_ptr,
         "User decryption key pointer should not be null"
@@ -465,6 +471,7 @@ pub unsafe extern "C" fn h_aes_decrypt_header_using_cache(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(symmetric_key_len, "Output length pointer should not be null");
     if *symmetric_key_len <= 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
@@ -513,7 +520,7 @@ pub unsafe extern "C" fn h_aes_decrypt_header_using_cache(
         .copy_from_slice(header.symmetric_key.as_bytes());
 
     // UID - if expected
-    if !uid_ptr.is_null() && *uid_len > 0 {
+    if !uid_ptr.is_null() && !uid_len.is_null() && *uid_len > 0 {
         let allocated = *uid_len;
         let uid_bytes = &header.meta_data.uid;
         let len = uid_bytes.len();
@@ -528,7 +535,7 @@ pub unsafe extern "C" fn h_aes_decrypt_header_using_cache(
     }
 
     // additional data - if expected
-    if !additional_data_ptr.is_null() && *additional_data_len > 0 {
+    if !additional_data_ptr.is_null() && !additional_data_len.is_null() && *additional_data_len > 0 {
         let allocated = *additional_data_len;
         let additional_data_bytes = &header.meta_data.additional_data;
         if let Some(ad) = additional_data_bytes {
@@ -598,6 +605,7 @@ pub unsafe extern "C" fn h_aes_decrypt_header(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(symmetric_key_len, "Output length pointer should not be null");
     if *symmetric_key_len <= 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
@@ -648,7 +656,7 @@ pub unsafe extern "C" fn h_aes_decrypt_header(
         .copy_from_slice(header.symmetric_key.as_bytes());
 
     // UID - if expected
-    if !uid_ptr.is_null() && *uid_len > 0 {
+    if !uid_ptr.is_null() && !uid_len.is_null() && *uid_len > 0 {
         let allocated = *uid_len;
         let uid_bytes = &header.meta_data.uid;
         let len = uid_bytes.len();
@@ -663,7 +671,7 @@ pub unsafe extern "C" fn h_aes_decrypt_header(
     }
 
     // additional data - if expected
-    if !additional_data_ptr.is_null() && *additional_data_len > 0 {
+    if !additional_data_ptr.is_null() && !additional_data_len.is_null() && *additional_data_len > 0 {
         let allocated = *additional_data_len;
         let additional_data_bytes = &header.meta_data.additional_data;
         if let Some(ad) = additional_data_bytes {
@@ -714,6 +722,7 @@ pub unsafe extern "C" fn h_aes_encrypt_block(
         encrypted_ptr,
         "The encrypted bytes pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(encrypted_len, "Output length pointer should not be null");
     if *encrypted_len <= 0 {
         ffi_bail!("The encrypted bytes buffer should have a size greater than zero");
     }
@@ -786,6 +795,7 @@ pub unsafe extern "C" fn h_aes_decrypt_block(
         clear_text_ptr,
         "The clear text bytes pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(clear_text_len, "Output length pointer should not be null");
     if *clear_text_len <= 0 {
         ffi_bail!("The clear text bytes buffer should have a size greater than zero");
     }
-- 
2.43.0


From ee19ce35148cca01852ce79da80e1a03b8cd7d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 14/21] fix: compiling an access policy panics when the policy
 lacks the value of a listed attribute

---
 src/core/msp.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/msp.rs b/src/core/msp.rs
index 144136c..e0b75ca 100644
--- a/src/core/msp.rs
+++ b/src/core/msp.rs
@@ -459,7 +459,10 @@ fn policy_to_node(policy: &Policy, attr: &Attribute) -> Result<Node, FormatErr>
                 .iter()
                 .position(|r| r == &attr.name)
                 .ok_or_else(|| FormatErr::ExpectedAttribute(attr.name.clone(), list.clone()))?;
-            let mut val = policy.attribute_to_int[attr]
+            let mut val = policy
+                .attribute_to_int
+                .get(attr)
+                .ok_or_else(|| FormatErr::AttributeNotFound(format!("{attr:?}")))?
                 .iter()
                 .map(|attr| Node::Leaf(*attr))
                 .reduce(std::ops::BitOr::bitor)
@@ -470,7 +473,10 @@ fn policy_to_node(policy: &Policy, attr: &Attribute) -> Result<Node, FormatErr>
                         break;
                     }
                     val = val
-                        | policy.attribute_to_int[&(attr.axis.clone(), elem.clone()).into()]
+                        | policy
+                            .attribute_to_int
+                            .get(&(attr.axis.clone(), elem.clone()).into())
+                            .ok_or_else(|| FormatErr::AttributeNotFound(format!("{elem:?}")))?
                             .iter()
                             .map(|attr| Node::Leaf(*attr))
                             .reduce(std::ops::BitOr::bitor)
-- 
2.43.0


From b33e4accfdc8971d6b50eebcf880e089b8a876ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:34 +0000
Subject: [PATCH 15/21] fix: error messages with a NUL byte cannot be retrieved
 by native callers

---
 src/interfaces/ffi/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interfaces/ffi/error.rs b/src/interfaces/ffi/error.rs
index d93f24f..365f234 100644
--- a/src/interfaces/ffi/error.rs
+++ b/src/interfaces/ffi/error.rs
@@ -181,7 +181,7 @@ pub unsafe extern "C" fn get_last_error(
 
     // Build a CString that will cleanup NULL bytes in the middle if needed
     let cs = ffi_unwrap!(
-        CString::new(err.map_or("".to_string(), |e| e.to_string())),
+        CString::new(err.map_or("".to_string(), |e| e.to_string().replace('\0', ""))),
         "failed to convert error to CString"
     );
     // the CString as bytes
-- 
2.43.0


From 321258e8d9ffa4319c8eedda2d341e8a3d47777a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:30 +0000
Subject: [PATCH 16/21] fix: Python generate_policy truncates
 max_attribute_creations to 32 bits

---
 src/interfaces/pyo3/generate_gpsw_keys.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/interfaces/pyo3/generate_gpsw_keys.rs b/src/interfaces/pyo3/generate_gpsw_keys.rs
index 6b0c596..8854e7c 100644
--- a/src/interfaces/pyo3/generate_gpsw_keys.rs
+++ b/src/interfaces/pyo3/generate_gpsw_keys.rs
@@ -1,3 +1,5 @@
+use std::convert::TryFrom;
+
 use pyo3::{exceptions::PyTypeError, prelude::*};
 
 use crate::core::{
@@ -116,7 +118,9 @@ pub fn generate_policy(
 ) -> PyResult<Vec<u8>> {
     let policy_axis: Vec<PolicyAxis> = serde_json::from_slice(&policy_axis_bytes)
         .map_err(|e| PyTypeError::new_err(format!("Policy Axis deserialization failed: {e}")))?;
-    let mut policy = Policy::new(max_attribute_creations as u32);
+    let max_attribute_creations = u32::try_from(max_attribute_creations)
+        .map_err(|e| PyTypeError::new_err(format!("Invalid number of attribute creations: {e}")))?;
+    let mut policy = Policy::new(max_attribute_creations);
     for axis in &policy_axis {
         let attrs = axis
             .attributes
-- 
2.43.0


From 1ea39974e0ab0308bf2358bef0ed1fd11fa812f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:46 +0000
Subject: [PATCH 17/21] fix: rotating attributes of a policy past its maximum
 overflows the attribute counter

---
 src/interfaces/ffi/generate_gpsw_keys.rs  | 8 ++++++++
 src/interfaces/pyo3/generate_gpsw_keys.rs | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/src/interfaces/ffi/generate_gpsw_keys.rs b/src/interfaces/ffi/generate_gpsw_keys.rs
index 92afc00..02e8fba 100644
--- a/src/interfaces/ffi/generate_gpsw_keys.rs
+++ b/src/interfaces/ffi/generate_gpsw_keys.rs
@@ -247,6 +247,14 @@ pub unsafe extern "C" fn h_rotate_attributes(
         }
     };
     let mut policy: Policy = ffi_unwrap!(serde_json::from_str(&policy));
+    if policy.last_attribute_value > policy.max_attribute_creations {
+        ffi_bail!(
+            "GPSW attributes rotation: invalid Policy: the last attribute value {} exceeds the \
+             maximum {}",
+            policy.last_attribute_value,
+            policy.max_attribute_creations
+        );
+    }
 
     //
     // Rotate attributes of the current policy
diff --git a/src/interfaces/pyo3/generate_gpsw_keys.rs b/src/interfaces/pyo3/generate_gpsw_keys.rs
index 8854e7c..eb2c0a3 100644
--- a/src/interfaces/pyo3/generate_gpsw_keys.rs
+++ b/src/interfaces/pyo3/generate_gpsw_keys.rs
@@ -147,6 +147,12 @@ pub fn rotate_attributes(attributes_bytes: Vec<u8>, policy_bytes: Vec<u8>) -> Py
         .map_err(|e| PyTypeError::new_err(format!("Error deserializing attributes: {e}")))?;
     let mut policy: Policy = serde_json::from_slice(&policy_bytes)
         .map_err(|e| PyTypeError::new_err(format!("Error deserializing policy: {e}")))?;
+    if policy.last_attribute_value > policy.max_attribute_creations {
+        return Err(PyTypeError::new_err(format!(
+            "Invalid Policy: the last attribute value {} exceeds the maximum {}",
+            policy.last_attribute_value, policy.max_attribute_creations
+        )));
+    }
 
     for attr in &attributes {
         policy
-- 
2.43.0


From a1249b7d5d9752313aeb1ca2cd419482f8c87d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:35 +0000
Subject: [PATCH 18/21] fix: an unknown cache handle aborts the WebAssembly
 module with a cache lock held

---
 src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs | 8 +++++---
 src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs
index c04d558..43691ab 100644
--- a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs
+++ b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs
@@ -156,9 +156,11 @@ pub fn webassembly_decrypt_hybrid_header_using_cache(
     let map = DECRYPTION_CACHE_MAP
         .read()
         .expect("a read mutex on the decryption cache failed");
-    let cache = map
-        .get(&cache_handle)
-        .expect("Hybrid Cipher: no decryption cache with handle");
+    let cache = map.get(&cache_handle).ok_or_else(|| {
+        JsValue::from_str(&format!(
+            "Hybrid Cipher: no decryption cache with handle: {cache_handle}"
+        ))
+    })?;
 
     //
     // Finally decrypt symmetric key using given user decryption key
diff --git a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs
index f4c5485..a1e902f 100644
--- a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs
+++ b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs
@@ -153,9 +153,11 @@ pub fn webassembly_encrypt_hybrid_header_using_cache(
     let map = ENCRYPTION_CACHE_MAP
         .read()
         .expect("a read mutex on the encryption cache failed");
-    let cache = map
-        .get(&cache_handle)
-        .expect("Hybrid Cipher: no encryption cache with handle");
+    let cache = map.get(&cache_handle).ok_or_else(|| {
+        JsValue::from_str(&format!(
+            "Hybrid Cipher: no encryption cache with handle: {cache_handle}"
+        ))
+    })?;
 
     //
     // Finally encrypt symmetric key using given public key
-- 
2.43.0


From 2820688cfd7e762b7ff8958597ec9991cdd9b974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:35 +0000
Subject: [PATCH 19/21] fix: declared sizes in headers overflow the offsets of
 the parser on 32-bit targets

---
 src/interfaces/hybrid_crypto/statics.rs | 31 +++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/interfaces/hybrid_crypto/statics.rs b/src/interfaces/hybrid_crypto/statics.rs
index 5ec526c..6fe0586 100644
--- a/src/interfaces/hybrid_crypto/statics.rs
+++ b/src/interfaces/hybrid_crypto/statics.rs
@@ -86,7 +86,7 @@ impl<S: SymmetricCrypto> ClearTextHeader<S> {
 
         Ok(Self {
             symmetric_key: S::Key::try_from_bytes(&symmetric_key_bytes)?,
-            meta_data: Metadata::try_from_bytes(&meta_data_bytes)?,
+            meta_data: metadata_from_bytes(&meta_data_bytes)?,
         })
     }
 }
@@ -161,6 +161,11 @@ where
         .read_u32()
         .map_err(|e| FormatErr::CryptoError(e.to_string()))?
         as usize;
+    if encrypted_symmetric_key_size > encrypted_header.len() {
+        return Err(FormatErr::InvalidSize(
+            "the declared length of the encapsulation exceeds that of the header".to_string(),
+        ));
+    }
     let encrypted_symmetric_key = scanner
         .next(encrypted_symmetric_key_size)
         .map_err(|e| FormatErr::CryptoError(e.to_string()))?
@@ -188,18 +193,22 @@ where
             .read_u32()
             .map_err(|e| FormatErr::CryptoError(e.to_string()))?
             as usize;
+        if encrypted_metadata_size > encrypted_header.len() {
+            return Err(FormatErr::InvalidSize(
+                "the declared length of the metadata exceeds that of the header".to_string(),
+            ));
+        }
 
         // UID
         let encrypted_metadata = scanner
             .next(encrypted_metadata_size)
             .map_err(|e| FormatErr::CryptoError(e.to_string()))?;
-        Metadata::try_from_bytes(&S::decrypt(
+        metadata_from_bytes(&S::decrypt(
             &symmetric_key,
             encrypted_metadata,
             &nonce,
             None,
-        )?)
-        .map_err(|e| FormatErr::CryptoError(e.to_string()))?
+        )?)?
     } else {
         Metadata::default()
     };
@@ -291,6 +300,20 @@ where
     Ok(block.clear_text_owned())
 }
 
+// Deserialize the metadata. The declared length of the `uid` is checked first:
+// `Metadata::try_from_bytes` overflows on it where an `usize` has 32 bits
+fn metadata_from_bytes(bytes: &[u8]) -> Result<Metadata, FormatErr> {
+    if bytes.len() >= 4 {
+        let uid_len: [u8; 4] = bytes[0..4].try_into()?;
+        if bytes.len() - 4 < u32::from_be_bytes(uid_len) as usize {
+            return Err(FormatErr::InvalidSize(
+                "the declared length of the uid exceeds that of the metadata".to_string(),
+            ));
+        }
+    }
+    Metadata::try_from_bytes(bytes).map_err(|e| FormatErr::CryptoError(e.to_string()))
+}
+
 // Attempt getting the length of this slice as an u32 in 4 big endian bytes and
 // return an error if it overflows
 fn u32_len(slice: &[u8]) -> Result<[u8; 4], CryptoBaseError> {
-- 
2.43.0


From 02e2137986f0caceaf5201f31422ed5ab29cc1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:35 +0000
Subject: [PATCH 20/21] fix: the number of attribute slots overflows on 32-bit
 targets

---
 src/core/engine.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/engine.rs b/src/core/engine.rs
index 1f16907..6f1eacf 100644
--- a/src/core/engine.rs
+++ b/src/core/engine.rs
@@ -45,8 +45,12 @@ impl<S: AbeScheme> Engine<S> {
         FormatErr,
     > {
         // attribute values are numbered from 1 to `max_attribute_creations` included
-        self.sch
-            .generate_master_key(policy.max_attribute_creations as usize + 1)
+        let nb_attributes = (policy.max_attribute_creations as usize)
+            .checked_add(1)
+            .ok_or_else(|| {
+                FormatErr::InvalidSize("the policy admits too many attributes".to_string())
+            })?;
+        self.sch.generate_master_key(nb_attributes)
     }
 
     /// Generate a user decryption key
-- 
2.43.0


From 2c9eff455d00c2d99e9e6e02da80770f2edfdbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:35 +0000
Subject: [PATCH 21/21] fix: WebAssembly rotation of a policy past its maximum
 overflows the attribute counter

---
 src/interfaces/wasm_bindgen/generate_gpsw_keys.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/interfaces/wasm_bindgen/generate_gpsw_keys.rs b/src/interfaces/wasm_bindgen/generate_gpsw_keys.rs
index 6e33b6c..08fa5a8 100644
--- a/src/interfaces/wasm_bindgen/generate_gpsw_keys.rs
+++ b/src/interfaces/wasm_bindgen/generate_gpsw_keys.rs
@@ -90,6 +90,12 @@ pub fn webassembly_rotate_attributes(
             .map_err(|e| JsValue::from_str(&format!("Error deserializing attributes: {e}")))?;
     let mut policy: Policy = serde_json::from_slice(policy_bytes.to_vec().as_slice())
         .map_err(|e| JsValue::from_str(&format!("Error deserializing policy: {e}")))?;
+    if policy.last_attribute_value > policy.max_attribute_creations {
+        return Err(JsValue::from_str(&format!(
+            "Invalid Policy: the last attribute value {} exceeds the maximum {}",
+            policy.last_attribute_value, policy.max_attribute_creations
+        )));
+    }
 
     //
     // Rotate attributes of the current policy
-- 
2.43.0

