From 8978c3e27247949d3af0c062b0cf736a5b4c568a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 01/16] fix: DirectHasher::crh returns DomainTooLarge instead
 of panicking on a domain over 8 bytes

---
 crates/bls-crypto/src/hashers/direct.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/bls-crypto/src/hashers/direct.rs b/crates/bls-crypto/src/hashers/direct.rs
index eddfb7f..3e82876 100644
--- a/crates/bls-crypto/src/hashers/direct.rs
+++ b/crates/bls-crypto/src/hashers/direct.rs
@@ -26,6 +26,9 @@ impl Hasher for DirectHasher {
         message: &[u8],
         xof_digest_length: usize,
     ) -> Result<Vec<u8>, Self::Error> {
+        if domain.len() > 8 {
+            return Err(BLSError::DomainTooLarge(domain.len()));
+        }
         let hash_result = Params::new()
             .hash_length(32)
             .node_offset(xof_digest_length_to_node_offset(0, xof_digest_length)?)
-- 
2.43.0


From 582d1c04389e7dfa3dffb4139398e178d25d7530 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:09:35 +0000
Subject: [PATCH 02/16] verif hook: Bitmap is public under cfg(verif_hooks)

---
 crates/bls-gadgets/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/bls-gadgets/src/lib.rs b/crates/bls-gadgets/src/lib.rs
index 4714ae7..2f1aced 100644
--- a/crates/bls-gadgets/src/lib.rs
+++ b/crates/bls-gadgets/src/lib.rs
@@ -7,7 +7,10 @@ mod bls;
 pub use bls::BlsVerifyGadget;
 
 mod bitmap;
+#[cfg(not(verif_hooks))]
 pub(crate) use bitmap::Bitmap;
+#[cfg(verif_hooks)]
+pub use bitmap::Bitmap;
 
 mod y_to_bit;
 pub use y_to_bit::{FpUtils, YToBitGadget};
-- 
2.43.0


From 7d05ad007f90fd7fb34a9d658de73f6034236912 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 03/16] fix: count bitmap occurrences in 64 bits, a bitmap with
 more than 255 matches overflowed

---
 crates/bls-gadgets/src/bitmap.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/bls-gadgets/src/bitmap.rs b/crates/bls-gadgets/src/bitmap.rs
index c78d3b8..b19c625 100644
--- a/crates/bls-gadgets/src/bitmap.rs
+++ b/crates/bls-gadgets/src/bitmap.rs
@@ -31,7 +31,7 @@ impl<F: PrimeField> Bitmap<F> for [Boolean<F>] {
         // will be empty
         let is_setup = self.cs().is_in_setup_mode();
 
-        let mut occurrences = 0;
+        let mut occurrences = 0u64;
         let mut occurrences_lc = LinearCombination::zero();
         // For each bit, increment the number of occurences if the bit matched `value`
         // We calculate both the number of occurrences
@@ -49,7 +49,7 @@ impl<F: PrimeField> Bitmap<F> for [Boolean<F>] {
             // Update our count
             if !is_setup {
                 let got_value = bit.value()?;
-                occurrences += (got_value == value) as u8;
+                occurrences += (got_value == value) as u64;
             }
         }
 
-- 
2.43.0


From 7bd35155780cabf15ef0a6a2ceda9797e228d2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 04/16] fix: hash_to_bits without constraints returns
 hash_length bits, as with constraints

---
 crates/bls-gadgets/src/hash_to_group.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/bls-gadgets/src/hash_to_group.rs b/crates/bls-gadgets/src/hash_to_group.rs
index 7fbc6a9..c1e908f 100644
--- a/crates/bls-gadgets/src/hash_to_group.rs
+++ b/crates/bls-gadgets/src/hash_to_group.rs
@@ -230,15 +230,17 @@ pub fn hash_to_bits<F: PrimeField>(
     } else {
         trace!("generating hash without constraints");
         let bits = if message.cs().is_in_setup_mode() {
-            vec![false; 512]
+            vec![false; hash_length as usize]
         } else {
             let message = message
                 .iter()
                 .map(|m| m.value())
                 .collect::<Result<Vec<_>, _>>()?;
             let message = bits_le_to_bytes_le(&message);
-            let hash_result = DirectHasher.xof(&personalization, &message, 64).unwrap();
-            bytes_le_to_bits_le(&hash_result, 512)
+            let hash_result = DirectHasher
+                .xof(&personalization, &message, hash_length as usize / 8)
+                .unwrap();
+            bytes_le_to_bits_le(&hash_result, hash_length as usize)
         };
 
         bits.iter()
-- 
2.43.0


From 100e6bc7ad98d4193c08b623a7486b544f91b028 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:20:17 +0000
Subject: [PATCH 05/16] verif hook: epoch encodings and gadgets are public
 under cfg(verif_hooks)

---
 crates/epoch-snark/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/epoch-snark/src/lib.rs b/crates/epoch-snark/src/lib.rs
index 74db489..5572f5d 100644
--- a/crates/epoch-snark/src/lib.rs
+++ b/crates/epoch-snark/src/lib.rs
@@ -32,3 +32,8 @@ pub use epoch_block::{EpochBlock, EpochTransition};
 
 mod gadgets;
 pub use gadgets::ValidatorSetUpdate;
+
+#[cfg(verif_hooks)]
+pub use epoch_block::{hash_first_last_epoch_block, EpochType};
+#[cfg(verif_hooks)]
+pub use gadgets::*;
-- 
2.43.0


From 99d24b6e22c0f63ad1dc2da8034097c62500f35b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:31:51 +0000
Subject: [PATCH 06/16] fix: hash_to_group fixes z of the hashed point to one,
 a prover could choose another point for the same x

---
 crates/bls-gadgets/src/hash_to_group.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/bls-gadgets/src/hash_to_group.rs b/crates/bls-gadgets/src/hash_to_group.rs
index c1e908f..2eef9e2 100644
--- a/crates/bls-gadgets/src/hash_to_group.rs
+++ b/crates/bls-gadgets/src/hash_to_group.rs
@@ -19,7 +19,7 @@ use ark_r1cs_std::{
     bits::ToBitsGadget,
     boolean::Boolean,
     eq::EqGadget,
-    fields::fp::FpVar,
+    fields::{fp::FpVar, FieldVar},
     groups::bls12::G1Var,
     groups::CurveVar,
     uint8::UInt8,
@@ -296,6 +296,12 @@ impl<P: Bls12Parameters> HashToGroupGadget<P, Bls12_377_Fq> {
                 AllocationMode::Witness,
             )?;
 
+        // The coordinates are projective. Only with z = 1 are x and y those which the
+        // hash dictates, otherwise the prover could pick another point for any x
+        expected_point_before_cofactor
+            .z
+            .enforce_equal(&FpVar::one())?;
+
         trace!("compressing y");
         // Point compression on the G1 Gadget
         let (compressed_point, compressed_sign_bit): (
-- 
2.43.0


From 8994b617c92c5fc95004c9de9b8270b83f5cb53e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:37:15 +0000
Subject: [PATCH 07/16] fix: MultipackGadget::pack fixes the high bits of the
 packed element, a prover could set them freely

---
 crates/epoch-snark/src/gadgets/pack.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/epoch-snark/src/gadgets/pack.rs b/crates/epoch-snark/src/gadgets/pack.rs
index 97974bd..c1f814d 100644
--- a/crates/epoch-snark/src/gadgets/pack.rs
+++ b/crates/epoch-snark/src/gadgets/pack.rs
@@ -41,8 +41,13 @@ impl MultipackGadget {
             })?;
             let fp_bits = fp.to_bits_be()?;
             let chunk_len = chunk.len();
-            for j in 0..chunk_len {
-                fp_bits[Fp::MODULUS_BITS as usize - chunk_len + j].enforce_equal(&chunk[j])?;
+            let (high_bits, low_bits) = fp_bits.split_at(Fp::MODULUS_BITS as usize - chunk_len);
+            // the element is exactly the number the bits encode
+            for bit in high_bits {
+                bit.enforce_equal(&Boolean::FALSE)?;
+            }
+            for (fp_bit, bit) in low_bits.iter().zip(chunk) {
+                fp_bit.enforce_equal(bit)?;
             }
 
             packed.push(fp);
-- 
2.43.0


From 83abbea41510d9b5df647dcbe4da5a5e5ccb71f2 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:41:27 +0000
Subject: [PATCH 08/16] fix: fr_to_bits fixes the bits above the requested
 length, a prover could use a number its encoding does not show

---
 crates/epoch-snark/src/gadgets/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/epoch-snark/src/gadgets/mod.rs b/crates/epoch-snark/src/gadgets/mod.rs
index 9477c23..2b5b47e 100644
--- a/crates/epoch-snark/src/gadgets/mod.rs
+++ b/crates/epoch-snark/src/gadgets/mod.rs
@@ -90,12 +90,16 @@ fn bytes_to_fr(cs: ConstraintSystemRef<Fr>, bytes: Option<&[u8]>) -> Result<FrVa
     })
 }
 
-/// Returns the bit representation of the Fr element in *little-endian* ordering.
+/// Returns the `length` lowest bits of the Fr element in *little-endian* ordering, and enforces
+/// that it has no other bits.
 #[tracing::instrument(target = "r1cs")]
 fn fr_to_bits(input: &FrVar, length: usize) -> Result<Vec<Bool>, SynthesisError> {
     let input = input.to_bits_le()?;
-    let result = input[0..length].to_vec();
-    Ok(result)
+    let (result, high_bits) = input.split_at(length);
+    for bit in high_bits {
+        bit.enforce_equal(&Boolean::FALSE)?;
+    }
+    Ok(result.to_vec())
 }
 
 /// Returns elements in big-endian order
-- 
2.43.0


From 55780b616e16c5f45f0b0b93371223d41ef99f29 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:43:30 +0000
Subject: [PATCH 09/16] fix: EpochData fixes z of the public keys to one, a
 prover could choose another key for the same encoding

---
 crates/epoch-snark/src/gadgets/epoch_data.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/epoch-snark/src/gadgets/epoch_data.rs b/crates/epoch-snark/src/gadgets/epoch_data.rs
index 3aeed97..7be1f1e 100644
--- a/crates/epoch-snark/src/gadgets/epoch_data.rs
+++ b/crates/epoch-snark/src/gadgets/epoch_data.rs
@@ -1,5 +1,5 @@
 use ark_bls12_377::{
-    constraints::{G1Var, G2Var},
+    constraints::{Fq2Var, G1Var, G2Var},
     Bls12_377, Fq as Bls12_377_Fq, Parameters as Bls12_377_Parameters,
 };
 use ark_bw6_761::Fr;
@@ -196,6 +196,8 @@ impl EpochData<Bls12_377> {
                 || maybe_pk.get(),
                 AllocationMode::Witness,
             )?;
+            // the encoding covers x and the sign of y, which only determine the point if z is fixed
+            pk_var.z.enforce_equal(&Fq2Var::one())?;
 
             // extend our epoch bits by the pubkeys
             let pk_bits = g2_to_bits(&pk_var)?;
-- 
2.43.0


From b4e8751fd2d47e070925f1f22bfa1c02a5c7cc3f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 10/16] fix: dummy transitions do not sign for padding keys,
 proving fewer transitions than the maximum failed with padded validator sets

---
 crates/epoch-snark/src/api/prover.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/epoch-snark/src/api/prover.rs b/crates/epoch-snark/src/api/prover.rs
index 2d45e84..f6cf5fe 100644
--- a/crates/epoch-snark/src/api/prover.rs
+++ b/crates/epoch-snark/src/api/prover.rs
@@ -40,10 +40,15 @@ pub fn prove(
 
     let num_epochs = epochs.len();
     if num_epochs < max_transitions {
+        // the dummies come after the second to last transition
+        let previous_epoch = match num_epochs {
+            1 => initial_epoch,
+            _ => &transitions[num_epochs - 2].block,
+        };
         epochs = [
             &epochs[..num_epochs - 1],
             &(0..max_transitions - num_epochs)
-                .map(|_| to_dummy_update(num_validators))
+                .map(|_| to_dummy_update(num_validators, previous_epoch))
                 .collect::<Vec<_>>(),
             &[epochs[num_epochs - 1].clone()],
         ]
@@ -143,7 +148,7 @@ fn to_update(transition: &EpochTransition) -> SingleUpdate<BLSCurve> {
     }
 }
 
-fn to_dummy_update(num_validators: u32) -> SingleUpdate<BLSCurve> {
+fn to_dummy_update(num_validators: u32, previous_epoch: &EpochBlock) -> SingleUpdate<BLSCurve> {
     SingleUpdate {
         epoch_data: EpochData {
             maximum_non_signers: 0,
@@ -155,6 +160,11 @@ fn to_dummy_update(num_validators: u32) -> SingleUpdate<BLSCurve> {
                 .map(|_| Some(BLSCurveG2::prime_subgroup_generator()))
                 .collect::<Vec<_>>(),
         },
-        signed_bitmap: (0..num_validators).map(|_| Some(true)).collect::<Vec<_>>(),
+        // padding keys are not allowed to sign
+        signed_bitmap: previous_epoch
+            .new_public_keys
+            .iter()
+            .map(|pubkey| Some(*pubkey.as_ref() != EpochBlock::padding_pk()))
+            .collect::<Vec<_>>(),
     }
 }
-- 
2.43.0


From 60811f8183b027d599502c5c304699017ca6da27 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:12:39 +0000
Subject: [PATCH 11/16] fix: the C functions take a null pointer for an empty
 array, slice::from_raw_parts requires a non-null one

---
 crates/bls-snark-sys/src/serialization.rs     | 12 ++--
 crates/bls-snark-sys/src/signatures.rs        | 58 +++++++++----------
 crates/bls-snark-sys/src/snark/epoch_block.rs | 19 +++---
 crates/bls-snark-sys/src/utils.rs             | 16 ++++-
 4 files changed, 56 insertions(+), 49 deletions(-)

diff --git a/crates/bls-snark-sys/src/serialization.rs b/crates/bls-snark-sys/src/serialization.rs
index 25410cd..50a36b6 100644
--- a/crates/bls-snark-sys/src/serialization.rs
+++ b/crates/bls-snark-sys/src/serialization.rs
@@ -1,11 +1,11 @@
 use super::{convert_result_to_bool, PrivateKey, PublicKey, Signature};
-use crate::cache::PUBLIC_KEY_CACHE;
+use crate::{cache::PUBLIC_KEY_CACHE, utils::slice_from_raw};
 use ark_bls12_377::{Fq, Fq2, G1Affine, G2Affine};
 use ark_ec::AffineCurve;
 use ark_ff::FromBytes;
 use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
 use bls_crypto::BLSError;
-use std::{os::raw::c_int, slice};
+use std::os::raw::c_int;
 
 // Serialization & deserialization
 
@@ -49,7 +49,7 @@ pub extern "C" fn deserialize_public_key_cached(
     convert_result_to_bool::<_, BLSError, _>(|| {
         let mut cache = PUBLIC_KEY_CACHE.lock().expect("mutex poisoned");
         let bytes =
-            unsafe { slice::from_raw_parts(in_public_key_bytes, in_public_key_bytes_len as usize) };
+            unsafe { slice_from_raw(in_public_key_bytes, in_public_key_bytes_len as usize) };
         let key = cache.deserialize(bytes.to_vec())?;
         unsafe {
             *out_public_key = Box::into_raw(Box::new(key));
@@ -110,7 +110,7 @@ fn deserialize<T: CanonicalDeserialize>(
     out: *mut *mut T,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let bytes = unsafe { slice::from_raw_parts(in_bytes, in_bytes_len as usize) };
+        let bytes = unsafe { slice_from_raw(in_bytes, in_bytes_len as usize) };
         #[allow(clippy::redundant_slicing)]
         let key: T = CanonicalDeserialize::deserialize(&mut &bytes[..])?;
         unsafe {
@@ -171,7 +171,7 @@ pub extern "C" fn compress_signature(
     out_len: *mut c_int,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let signature = unsafe { slice::from_raw_parts(in_signature, in_signature_len as usize) };
+        let signature = unsafe { slice_from_raw(in_signature, in_signature_len as usize) };
         let x = Fq::read(&signature[0..48]).unwrap();
         let y = Fq::read(&signature[48..96]).unwrap();
         let affine = G1Affine::new(x, y, false);
@@ -196,7 +196,7 @@ pub extern "C" fn compress_pubkey(
     out_len: *mut c_int,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let pubkey = unsafe { slice::from_raw_parts(in_pubkey, in_pubkey_len as usize) };
+        let pubkey = unsafe { slice_from_raw(in_pubkey, in_pubkey_len as usize) };
         let x = Fq2::read(&pubkey[0..96]).unwrap();
         let y = Fq2::read(&pubkey[96..192]).unwrap();
         let affine = G2Affine::new(x, y, false);
diff --git a/crates/bls-snark-sys/src/signatures.rs b/crates/bls-snark-sys/src/signatures.rs
index 1e3540c..3823c88 100644
--- a/crates/bls-snark-sys/src/signatures.rs
+++ b/crates/bls-snark-sys/src/signatures.rs
@@ -1,7 +1,7 @@
 use crate::{
     cache::PUBLIC_KEY_CACHE,
     convert_result_to_bool,
-    utils::{BatchMessageFFI, Message, MessageFFI},
+    utils::{slice_from_raw, BatchMessageFFI, Message, MessageFFI},
     Batch, PrivateKey, PublicKey, Signature, COMPOSITE_HASH_TO_G1, DIRECT_HASH_TO_G1,
 };
 use ark_ec::ProjectiveCurve;
@@ -53,9 +53,8 @@ pub extern "C" fn sign_message(
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
         let private_key = unsafe { &*in_private_key };
-        let message = unsafe { slice::from_raw_parts(in_message, in_message_len as usize) };
-        let extra_data =
-            unsafe { slice::from_raw_parts(in_extra_data, in_extra_data_len as usize) };
+        let message = unsafe { slice_from_raw(in_message, in_message_len as usize) };
+        let extra_data = unsafe { slice_from_raw(in_extra_data, in_extra_data_len as usize) };
         let signature = match (should_use_composite, should_use_cip22) {
             (true, true) => private_key.sign(message, extra_data, &*COMPOSITE_HASH_TO_G1_CIP22)?,
             (false, true) => return Err(BLSError::HashToCurveError),
@@ -79,7 +78,7 @@ pub extern "C" fn sign_pop(
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
         let private_key = unsafe { &*in_private_key };
-        let message = unsafe { slice::from_raw_parts(in_message, in_message_len as usize) };
+        let message = unsafe { slice_from_raw(in_message, in_message_len as usize) };
         let signature = private_key.sign_pop(message, &*DIRECT_HASH_TO_G1)?;
         unsafe {
             *out_signature = Box::into_raw(Box::new(signature));
@@ -98,7 +97,7 @@ pub extern "C" fn hash_direct(
     use_pop: bool,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let message = unsafe { slice::from_raw_parts(in_message, in_message_len as usize) };
+        let message = unsafe { slice_from_raw(in_message, in_message_len as usize) };
         let domain = if use_pop { POP_DOMAIN } else { SIG_DOMAIN };
         let hash = DIRECT_HASH_TO_G1.hash(domain, message, &[])?;
         let mut obj_bytes = vec![];
@@ -123,7 +122,7 @@ pub extern "C" fn hash_direct_with_attempt(
     use_pop: bool,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let message = unsafe { slice::from_raw_parts(in_message, in_message_len as usize) };
+        let message = unsafe { slice_from_raw(in_message, in_message_len as usize) };
         let domain = if use_pop { POP_DOMAIN } else { SIG_DOMAIN };
         let (hash, c) = DIRECT_HASH_TO_G1.hash_with_attempt(domain, message, &[])?;
         let mut obj_bytes = vec![];
@@ -149,9 +148,8 @@ pub extern "C" fn hash_composite(
     out_len: *mut c_int,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let message = unsafe { slice::from_raw_parts(in_message, in_message_len as usize) };
-        let extra_data =
-            unsafe { slice::from_raw_parts(in_extra_data, in_extra_data_len as usize) };
+        let message = unsafe { slice_from_raw(in_message, in_message_len as usize) };
+        let extra_data = unsafe { slice_from_raw(in_extra_data, in_extra_data_len as usize) };
         let hash = COMPOSITE_HASH_TO_G1.hash(SIG_DOMAIN, message, extra_data)?;
         let mut obj_bytes = vec![];
         hash.write(&mut obj_bytes)?;
@@ -174,7 +172,7 @@ pub extern "C" fn hash_crh(
     out_len: *mut c_int,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let message = unsafe { slice::from_raw_parts(in_message, in_message_len as usize) };
+        let message = unsafe { slice_from_raw(in_message, in_message_len as usize) };
         let hash = COMPOSITE_HASHER.crh(SIG_DOMAIN, message, hash_bytes as usize)?;
         let mut obj_bytes = vec![];
         hash.write(&mut obj_bytes)?;
@@ -197,7 +195,7 @@ pub extern "C" fn hash_direct_first_step(
     out_len: *mut c_int,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let message = unsafe { slice::from_raw_parts(in_message, in_message_len as usize) };
+        let message = unsafe { slice_from_raw(in_message, in_message_len as usize) };
         let hash = DirectHasher.hash(SIG_DOMAIN, message, hash_bytes as usize)?;
         let mut obj_bytes = vec![];
         hash.write(&mut obj_bytes)?;
@@ -222,9 +220,8 @@ pub extern "C" fn hash_composite_cip22(
     attempt_counter: *mut u8,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let message = unsafe { slice::from_raw_parts(in_message, in_message_len as usize) };
-        let extra_data =
-            unsafe { slice::from_raw_parts(in_extra_data, in_extra_data_len as usize) };
+        let message = unsafe { slice_from_raw(in_message, in_message_len as usize) };
+        let extra_data = unsafe { slice_from_raw(in_extra_data, in_extra_data_len as usize) };
         let (hash, counter) =
             COMPOSITE_HASH_TO_G1_CIP22.hash_with_attempt_cip22(SIG_DOMAIN, message, extra_data)?;
         let mut obj_bytes = vec![];
@@ -254,9 +251,8 @@ pub extern "C" fn verify_signature(
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
         let public_key = unsafe { &*in_public_key };
-        let message = unsafe { slice::from_raw_parts(in_message, in_message_len as usize) };
-        let extra_data =
-            unsafe { slice::from_raw_parts(in_extra_data, in_extra_data_len as usize) };
+        let message = unsafe { slice_from_raw(in_message, in_message_len as usize) };
+        let extra_data = unsafe { slice_from_raw(in_extra_data, in_extra_data_len as usize) };
         let signature = unsafe { &*in_signature };
         let verified = match (should_use_composite, should_use_cip22) {
             (true, true) => public_key
@@ -296,7 +292,7 @@ pub extern "C" fn batch_verify_signature(
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
         // Get the pointers slice
-        let messages: &[MessageFFI] = unsafe { slice::from_raw_parts(messages_ptr, messages_len) };
+        let messages: &[MessageFFI] = unsafe { slice_from_raw(messages_ptr, messages_len) };
 
         // Get the data from the underlying pointers in the right format
         let messages = messages.iter().map(Message::from).collect::<Vec<_>>();
@@ -349,25 +345,26 @@ pub extern "C" fn batch_verify_strict(
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
         let batch_messages: &[BatchMessageFFI] =
-            unsafe { slice::from_raw_parts(in_batches_ptr, in_batches_len) };
+            unsafe { slice_from_raw(in_batches_ptr, in_batches_len) };
 
-        let results: &mut [bool] =
-            unsafe { slice::from_raw_parts_mut(out_results, in_batches_len) };
+        let results: &mut [bool] = if in_batches_len == 0 {
+            &mut []
+        } else {
+            unsafe { slice::from_raw_parts_mut(out_results, in_batches_len) }
+        };
         let mut all_valid = true;
 
         for (index, batch) in batch_messages.iter().enumerate() {
             let message = <&[u8]>::from(&batch.data);
             let extra_data = <&[u8]>::from(&batch.extra);
 
-            let public_keys =
-                unsafe { slice::from_raw_parts(batch.public_keys, batch.public_keys_len) };
+            let public_keys = unsafe { slice_from_raw(batch.public_keys, batch.public_keys_len) };
             let public_keys = public_keys
                 .iter()
                 .map(|ptr| unsafe { (**ptr).clone() })
                 .collect::<Vec<_>>();
 
-            let signatures =
-                unsafe { slice::from_raw_parts(batch.signatures, batch.signatures_len) };
+            let signatures = unsafe { slice_from_raw(batch.signatures, batch.signatures_len) };
             let signatures = signatures
                 .iter()
                 .map(|ptr| unsafe { (**ptr).clone() })
@@ -413,7 +410,7 @@ pub extern "C" fn verify_pop(
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
         let public_key = unsafe { &*in_public_key };
-        let message = unsafe { slice::from_raw_parts(in_message, in_message_len as usize) };
+        let message = unsafe { slice_from_raw(in_message, in_message_len as usize) };
         let signature = unsafe { &*in_signature };
         let verified = public_key
             .verify_pop(message, signature, &*DIRECT_HASH_TO_G1)
@@ -432,7 +429,7 @@ pub extern "C" fn aggregate_public_keys(
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
         let public_keys_ptrs =
-            unsafe { slice::from_raw_parts(in_public_keys, in_public_keys_len as usize) };
+            unsafe { slice_from_raw(in_public_keys, in_public_keys_len as usize) };
         let public_keys = public_keys_ptrs
             .iter()
             .copied()
@@ -460,7 +457,7 @@ pub extern "C" fn aggregate_public_keys_subtract(
     convert_result_to_bool::<_, BLSError, _>(|| {
         let aggregated_public_key = unsafe { &*in_aggregated_public_key };
         let public_keys_ptrs =
-            unsafe { slice::from_raw_parts(in_public_keys, in_public_keys_len as usize) };
+            unsafe { slice_from_raw(in_public_keys, in_public_keys_len as usize) };
         let public_keys = public_keys_ptrs
             .iter()
             .copied()
@@ -488,8 +485,7 @@ pub extern "C" fn aggregate_signatures(
     out_signature: *mut *mut Signature,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let signatures_ptrs =
-            unsafe { slice::from_raw_parts(in_signatures, in_signatures_len as usize) };
+        let signatures_ptrs = unsafe { slice_from_raw(in_signatures, in_signatures_len as usize) };
         let signatures = signatures_ptrs
             .iter()
             .copied()
diff --git a/crates/bls-snark-sys/src/snark/epoch_block.rs b/crates/bls-snark-sys/src/snark/epoch_block.rs
index 3cb5824..944eaec 100644
--- a/crates/bls-snark-sys/src/snark/epoch_block.rs
+++ b/crates/bls-snark-sys/src/snark/epoch_block.rs
@@ -1,4 +1,4 @@
-use crate::convert_result_to_bool;
+use crate::{convert_result_to_bool, utils::slice_from_raw};
 use ark_bls12_377::G2Affine;
 use ark_ec::{AffineCurve, ProjectiveCurve};
 use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
@@ -7,7 +7,6 @@ use epoch_snark::{EncodingError, EpochBlock};
 use std::{
     convert::TryFrom,
     os::raw::{c_int, c_uchar, c_uint, c_ushort},
-    slice,
 };
 
 /// Each pubkey is a BLS G2Projective element
@@ -29,9 +28,8 @@ pub extern "C" fn encode_epoch_block_to_bytes_cip22(
     out_extra_data_len: *mut c_int,
 ) -> bool {
     convert_result_to_bool::<_, EncodingError, _>(|| {
-        let added_public_keys_ptrs = unsafe {
-            slice::from_raw_parts(in_added_public_keys, in_added_public_keys_len as usize)
-        };
+        let added_public_keys_ptrs =
+            unsafe { slice_from_raw(in_added_public_keys, in_added_public_keys_len as usize) };
         let added_public_keys = added_public_keys_ptrs
             .iter()
             .copied()
@@ -75,9 +73,8 @@ pub extern "C" fn encode_epoch_block_to_bytes(
     out_len: *mut c_int,
 ) -> bool {
     convert_result_to_bool::<_, EncodingError, _>(|| {
-        let added_public_keys_ptrs = unsafe {
-            slice::from_raw_parts(in_added_public_keys, in_added_public_keys_len as usize)
-        };
+        let added_public_keys_ptrs =
+            unsafe { slice_from_raw(in_added_public_keys, in_added_public_keys_len as usize) };
         let added_public_keys = added_public_keys_ptrs
             .iter()
             .copied()
@@ -155,7 +152,7 @@ pub unsafe fn read_slice<C: CanonicalDeserialize>(
     ptr: *const u8,
     len: usize,
 ) -> Result<C, EncodingError> {
-    let mut data = slice::from_raw_parts(ptr, len);
+    let mut data = slice_from_raw(ptr, len);
     Ok(C::deserialize(&mut data)?)
 }
 
@@ -166,7 +163,7 @@ pub unsafe fn read_slice<C: CanonicalDeserialize>(
 /// This WILL read invalid data if you give it a larger `num` argument
 /// than expected. Use with caution.
 unsafe fn read_serialized_pubkeys<'a>(ptr: *const u8, num: usize) -> &'a [u8] {
-    slice::from_raw_parts(ptr, num * PUBKEY_BYTES)
+    slice_from_raw(ptr, num * PUBKEY_BYTES)
 }
 
 /// Serializes the inner G2 elements of the pubkeys to a vector
@@ -205,7 +202,7 @@ unsafe fn read_epoch_entropy(ptr: *const u8) -> Option<Vec<u8>> {
     if ptr.is_null() {
         None
     } else {
-        Some(slice::from_raw_parts(ptr, EpochBlock::ENTROPY_BYTES).to_vec())
+        Some(slice_from_raw(ptr, EpochBlock::ENTROPY_BYTES).to_vec())
     }
 }
 
diff --git a/crates/bls-snark-sys/src/utils.rs b/crates/bls-snark-sys/src/utils.rs
index b52ba8a..1dec512 100644
--- a/crates/bls-snark-sys/src/utils.rs
+++ b/crates/bls-snark-sys/src/utils.rs
@@ -4,6 +4,20 @@
 use super::{PublicKey, Signature};
 use std::slice;
 
+/// Returns the `len` elements starting from the pointer's location. The pointer may be
+/// null if there are none, which is how C callers pass an empty array.
+///
+/// # Safety
+///
+/// The pointer must locate at least `len` elements of valid data.
+pub(crate) unsafe fn slice_from_raw<'a, T>(ptr: *const T, len: usize) -> &'a [T] {
+    if len == 0 {
+        &[]
+    } else {
+        slice::from_raw_parts(ptr, len)
+    }
+}
+
 /// A per-epoch block witness to be used with the batch sig verification
 #[derive(Clone, Debug, PartialEq)]
 pub struct Message<'a> {
@@ -92,7 +106,7 @@ impl From<&[u8]> for Buffer {
 
 impl<'a> From<&Buffer> for &'a [u8] {
     fn from(src: &Buffer) -> &'a [u8] {
-        unsafe { slice::from_raw_parts(src.ptr, src.len) }
+        unsafe { slice_from_raw(src.ptr, src.len) }
     }
 }
 
-- 
2.43.0


From 0792f6a202553b89bf3822145f164ca602c26c9f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:13:28 +0000
Subject: [PATCH 12/16] fix: Buffer::from takes an empty slice, it read the
 first byte

---
 crates/bls-snark-sys/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bls-snark-sys/src/utils.rs b/crates/bls-snark-sys/src/utils.rs
index 1dec512..b8c77c9 100644
--- a/crates/bls-snark-sys/src/utils.rs
+++ b/crates/bls-snark-sys/src/utils.rs
@@ -98,7 +98,7 @@ pub struct Buffer {
 impl From<&[u8]> for Buffer {
     fn from(src: &[u8]) -> Self {
         Self {
-            ptr: &src[0] as *const u8,
+            ptr: src.as_ptr(),
             len: src.len(),
         }
     }
-- 
2.43.0


From be0c3a0d41cd3e1a9b7625a346affe380310c5be Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:13:28 +0000
Subject: [PATCH 13/16] fix: compress_signature and compress_pubkey return
 false for malformed bytes, they ended the process

---
 crates/bls-snark-sys/src/serialization.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/bls-snark-sys/src/serialization.rs b/crates/bls-snark-sys/src/serialization.rs
index 50a36b6..d40c52a 100644
--- a/crates/bls-snark-sys/src/serialization.rs
+++ b/crates/bls-snark-sys/src/serialization.rs
@@ -171,9 +171,9 @@ pub extern "C" fn compress_signature(
     out_len: *mut c_int,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let signature = unsafe { slice_from_raw(in_signature, in_signature_len as usize) };
-        let x = Fq::read(&signature[0..48]).unwrap();
-        let y = Fq::read(&signature[48..96]).unwrap();
+        let mut signature = unsafe { slice_from_raw(in_signature, in_signature_len as usize) };
+        let x = Fq::read(&mut signature)?;
+        let y = Fq::read(&mut signature)?;
         let affine = G1Affine::new(x, y, false);
         let sig = Signature::from(affine.into_projective());
         let mut obj_bytes = vec![];
@@ -196,9 +196,9 @@ pub extern "C" fn compress_pubkey(
     out_len: *mut c_int,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let pubkey = unsafe { slice_from_raw(in_pubkey, in_pubkey_len as usize) };
-        let x = Fq2::read(&pubkey[0..96]).unwrap();
-        let y = Fq2::read(&pubkey[96..192]).unwrap();
+        let mut pubkey = unsafe { slice_from_raw(in_pubkey, in_pubkey_len as usize) };
+        let x = Fq2::read(&mut pubkey)?;
+        let y = Fq2::read(&mut pubkey)?;
         let affine = G2Affine::new(x, y, false);
         let pk = PublicKey::from(affine.into_projective());
 
-- 
2.43.0


From d13eead80b9d9abfb3762273bcebb3ccd692b1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:14:03 +0000
Subject: [PATCH 14/16] fix: batch_verify_strict fails for different numbers of
 keys and signatures, it verified the shorter of the two only

---
 crates/bls-snark-sys/src/signatures.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/bls-snark-sys/src/signatures.rs b/crates/bls-snark-sys/src/signatures.rs
index 3823c88..fd510fe 100644
--- a/crates/bls-snark-sys/src/signatures.rs
+++ b/crates/bls-snark-sys/src/signatures.rs
@@ -380,6 +380,7 @@ pub extern "C" fn batch_verify_strict(
                 });
 
             let result = match (should_use_composite, should_use_cip22) {
+                _ if public_keys.len() != signatures.len() => false, // not paired
                 (true, true) => context.verify(&*COMPOSITE_HASH_TO_G1_CIP22).is_ok(),
                 (false, true) => false, // bad hash to curve configuration
                 (true, false) => context.verify(&*COMPOSITE_HASH_TO_G1).is_ok(),
-- 
2.43.0


From 4dd81141bc820faa0fa2b134086a3a3784661a29 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 15/16] fix: refuse a batch in the signature gadget with
 unequal numbers of keys and messages

The pairing of the constraint library pairs the two lists up and ignores what is left over,
so a batch with a message too many (or a key too many) was accepted with the signature of
the common part, although the function promises to fail.
---
 crates/bls-gadgets/src/bls.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/bls-gadgets/src/bls.rs b/crates/bls-gadgets/src/bls.rs
index c38a6b1..b47793c 100644
--- a/crates/bls-gadgets/src/bls.rs
+++ b/crates/bls-gadgets/src/bls.rs
@@ -224,6 +224,10 @@ where
         g2: &[P::G2PreparedVar],
     ) -> Result<(), SynthesisError> {
         trace!("enforcing BLS equation");
+        // `product_of_pairings` would ignore elements without a counterpart
+        if g1.len() != g2.len() {
+            return Err(SynthesisError::Unsatisfiable);
+        }
         let bls_equation = P::product_of_pairings(g1, g2)?;
         let gt_one = &P::GTVar::one();
         bls_equation.enforce_equal(gt_one)?;
-- 
2.43.0


From 8f73e7a799cdae36a4e4a6770f93d95c02e56e07 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:19:31 +0000
Subject: [PATCH 16/16] fix: uncompressed_size of public keys and signatures is
 that of the uncompressed encoding, it was the compressed size

---
 crates/bls-crypto/src/bls/public.rs    | 4 ++++
 crates/bls-crypto/src/bls/signature.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crates/bls-crypto/src/bls/public.rs b/crates/bls-crypto/src/bls/public.rs
index e5706dc..869cb40 100644
--- a/crates/bls-crypto/src/bls/public.rs
+++ b/crates/bls-crypto/src/bls/public.rs
@@ -132,6 +132,10 @@ impl CanonicalSerialize for PublicKey {
     fn serialized_size(&self) -> usize {
         self.0.into_affine().serialized_size()
     }
+
+    fn uncompressed_size(&self) -> usize {
+        self.0.into_affine().uncompressed_size()
+    }
 }
 
 impl CanonicalDeserialize for PublicKey {
diff --git a/crates/bls-crypto/src/bls/signature.rs b/crates/bls-crypto/src/bls/signature.rs
index 46aa7b3..0a37762 100644
--- a/crates/bls-crypto/src/bls/signature.rs
+++ b/crates/bls-crypto/src/bls/signature.rs
@@ -40,6 +40,10 @@ impl CanonicalSerialize for Signature {
     fn serialized_size(&self) -> usize {
         self.0.into_affine().serialized_size()
     }
+
+    fn uncompressed_size(&self) -> usize {
+        self.0.into_affine().uncompressed_size()
+    }
 }
 
 impl CanonicalDeserialize for Signature {
-- 
2.43.0

