From aaa3d2ffcb1da05500bd6c34c94633b6f643e4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:49 +0000
Subject: [PATCH 01/29] fix: accept the PSBT global counts in either order,
 once each

The input count was guarded by the output count, so a PSBT with the output count first was
rejected as a duplicate and a repeated input count was accepted.
---
 src/v2/map/global.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v2/map/global.rs b/src/v2/map/global.rs
index adbb5c9..ae40e8d 100644
--- a/src/v2/map/global.rs
+++ b/src/v2/map/global.rs
@@ -216,7 +216,7 @@ impl Global {
                     },
                 PSBT_GLOBAL_INPUT_COUNT => {
                     if pair.key.key.is_empty() {
-                        if output_count.is_none() {
+                        if input_count.is_none() {
                             // TODO: Do we need to check the length for a VarInt?
                             // let vlen: usize = pair.value.len();
                             let mut decoder = Cursor::new(pair.value);
-- 
2.43.0


From 164745fd9850aafbe0053a1ec8fdcddec381d7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:29 +0000
Subject: [PATCH 02/29] fix: decode required input and output fields by
 presence, not by value

An input spending output index 0xffffffff or the all-zero txid, and an output with amount zero
or (without silent-payments) an empty script, could not be deserialized because these values
were taken to mean 'missing'.  For the same reason repeated pairs holding them were accepted,
and the key data of these single-valued fields was never checked.
---
 src/v2/map/input.rs  | 39 ++++++++++++++++++++++-----------------
 src/v2/map/output.rs | 39 +++++++++++++++++++++++----------------
 2 files changed, 45 insertions(+), 33 deletions(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index f1d6a86..2d8eb73 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -139,6 +139,13 @@ pub struct Input {
     pub unknowns: BTreeMap<raw::Key, Vec<u8>>,
 }
 
+/// The required fields of an [`Input`] while it is being decoded.
+#[derive(Default)]
+struct RequiredFields {
+    previous_txid: Option<Txid>,
+    spent_output_index: Option<u32>,
+}
+
 impl Input {
     /// Creates a new `Input` that spends the `previous_output`.
     pub fn new(previous_output: &OutPoint) -> Self {
@@ -393,24 +400,22 @@ impl Input {
     }
 
     pub(in crate::v2) fn decode<R: BufRead + ?Sized>(r: &mut R) -> Result<Self, DecodeError> {
-        // These are placeholder values that never exist in a encode `Input`.
+        // These are placeholder values, the required fields are set once all pairs are decoded.
         let invalid = OutPoint { txid: Txid::all_zeros(), vout: u32::MAX };
         let mut rv = Self::new(&invalid);
+        let mut required = RequiredFields::default();
 
         loop {
             match raw::Pair::decode(r) {
-                Ok(pair) => rv.insert_pair(pair)?,
+                Ok(pair) => rv.insert_pair(pair, &mut required)?,
                 Err(serialize::Error::NoMorePairs) => break,
                 Err(e) => return Err(DecodeError::DeserPair(e)),
             }
         }
 
-        if rv.previous_txid == Txid::all_zeros() {
-            return Err(DecodeError::MissingPreviousTxid);
-        }
-        if rv.spent_output_index == u32::MAX {
-            return Err(DecodeError::MissingSpentOutputIndex);
-        }
+        rv.previous_txid = required.previous_txid.ok_or(DecodeError::MissingPreviousTxid)?;
+        rv.spent_output_index =
+            required.spent_output_index.ok_or(DecodeError::MissingSpentOutputIndex)?;
 
         #[cfg(feature = "silent-payments")]
         {
@@ -424,23 +429,23 @@ impl Input {
         Ok(rv)
     }
 
-    fn insert_pair(&mut self, pair: raw::Pair) -> Result<(), InsertPairError> {
+    fn insert_pair(
+        &mut self,
+        pair: raw::Pair,
+        required: &mut RequiredFields,
+    ) -> Result<(), InsertPairError> {
         let raw::Pair { key: raw_key, value: raw_value } = pair;
 
         match raw_key.type_value {
             PSBT_IN_PREVIOUS_TXID => {
-                if self.previous_txid != Txid::all_zeros() {
-                    return Err(InsertPairError::DuplicateKey(raw_key));
+                v2_impl_psbt_insert_pair! {
+                    required.previous_txid <= <raw_key: _>|<raw_value: Txid>
                 }
-                let txid: Txid = Deserialize::deserialize(&raw_value)?;
-                self.previous_txid = txid;
             }
             PSBT_IN_OUTPUT_INDEX => {
-                if self.spent_output_index != u32::MAX {
-                    return Err(InsertPairError::DuplicateKey(raw_key));
+                v2_impl_psbt_insert_pair! {
+                    required.spent_output_index <= <raw_key: _>|<raw_value: u32>
                 }
-                let vout: u32 = Deserialize::deserialize(&raw_value)?;
-                self.spent_output_index = vout;
             }
             PSBT_IN_SEQUENCE => {
                 v2_impl_psbt_insert_pair! {
diff --git a/src/v2/map/output.rs b/src/v2/map/output.rs
index a853e72..77424bf 100644
--- a/src/v2/map/output.rs
+++ b/src/v2/map/output.rs
@@ -18,7 +18,7 @@ use crate::consts::{
 use crate::consts::{PSBT_OUT_SP_V0_INFO, PSBT_OUT_SP_V0_LABEL};
 use crate::error::write_err;
 use crate::prelude::*;
-use crate::serialize::{Deserialize, Serialize};
+use crate::serialize::Serialize;
 use crate::v2::map::Map;
 use crate::{raw, serialize};
 
@@ -65,6 +65,13 @@ pub struct Output {
     pub unknowns: BTreeMap<raw::Key, Vec<u8>>,
 }
 
+/// The required fields of an [`Output`] while it is being decoded.
+#[derive(Default)]
+struct RequiredFields {
+    amount: Option<Amount>,
+    script_pubkey: Option<ScriptBuf>,
+}
+
 impl Output {
     /// Creates a new [`Output`] using `utxo`.
     pub fn new(utxo: TxOut) -> Self {
@@ -106,26 +113,26 @@ impl Output {
     }
 
     pub(in crate::v2) fn decode<R: BufRead + ?Sized>(r: &mut R) -> Result<Self, DecodeError> {
-        // These are placeholder values that never exist in a encode `Output`.
+        // These are placeholder values, the required fields are set once all pairs are decoded.
         let invalid = TxOut { value: Amount::ZERO, script_pubkey: ScriptBuf::default() };
         let mut rv = Self::new(invalid);
+        let mut required = RequiredFields::default();
 
         loop {
             match raw::Pair::decode(r) {
-                Ok(pair) => rv.insert_pair(pair)?,
+                Ok(pair) => rv.insert_pair(pair, &mut required)?,
                 Err(serialize::Error::NoMorePairs) => break,
                 Err(e) => return Err(DecodeError::DeserPair(e)),
             }
         }
 
-        if rv.amount == Amount::ZERO {
-            return Err(DecodeError::MissingValue);
-        }
+        rv.amount = required.amount.ok_or(DecodeError::MissingValue)?;
         // BIP-375 allows outputs to be missing scriptPubkey
         #[cfg(not(feature = "silent-payments"))]
-        if rv.script_pubkey == ScriptBuf::default() {
+        if required.script_pubkey.is_none() {
             return Err(DecodeError::MissingScriptPubkey);
         }
+        rv.script_pubkey = required.script_pubkey.unwrap_or_default();
 
         #[cfg(feature = "silent-payments")]
         if rv.sp_v0_label.is_some() && rv.sp_v0_info.is_none() {
@@ -135,23 +142,23 @@ impl Output {
         Ok(rv)
     }
 
-    fn insert_pair(&mut self, pair: raw::Pair) -> Result<(), InsertPairError> {
+    fn insert_pair(
+        &mut self,
+        pair: raw::Pair,
+        required: &mut RequiredFields,
+    ) -> Result<(), InsertPairError> {
         let raw::Pair { key: raw_key, value: raw_value } = pair;
 
         match raw_key.type_value {
             PSBT_OUT_AMOUNT => {
-                if self.amount != Amount::ZERO {
-                    return Err(InsertPairError::DuplicateKey(raw_key));
+                v2_impl_psbt_insert_pair! {
+                    required.amount <= <raw_key: _>|<raw_value: Amount>
                 }
-                let amount: Amount = Deserialize::deserialize(&raw_value)?;
-                self.amount = amount;
             }
             PSBT_OUT_SCRIPT => {
-                if self.script_pubkey != ScriptBuf::default() {
-                    return Err(InsertPairError::DuplicateKey(raw_key));
+                v2_impl_psbt_insert_pair! {
+                    required.script_pubkey <= <raw_key: _>|<raw_value: ScriptBuf>
                 }
-                let script: ScriptBuf = Deserialize::deserialize(&raw_value)?;
-                self.script_pubkey = script;
             }
 
             PSBT_OUT_REDEEM_SCRIPT => {
-- 
2.43.0


From 6f7ee190fbf6e6f8df55de508f0c14a13af7f26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:27 +0000
Subject: [PATCH 03/29] fix: sign with the final sequence number for inputs
 that have none

BIP-370 defines an absent PSBT_IN_SEQUENCE as 0xffffffff.  The extractor did that but the
unsigned transaction used for signing had 0, so the signatures were not valid for the extracted
transaction.
---
 src/v2/map/input.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index 2d8eb73..e1897bc 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -313,8 +313,8 @@ impl Input {
         TxIn {
             previous_output: self.out_point(),
             script_sig: ScriptBuf::default(),
-            // TODO: Check this ZERO is correct.
-            sequence: self.sequence.unwrap_or(Sequence::ZERO),
+            // BIP-370: if omitted, the sequence number is assumed to be the final sequence number.
+            sequence: self.sequence.unwrap_or(Sequence::MAX),
             witness: Witness::default(),
         }
     }
-- 
2.43.0


From 5351c84b08e4df1de3efc74dd0bb1291dd407d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:32 +0000
Subject: [PATCH 04/29] fix: keep the transaction fields and the witness when
 finalizing a v2 input

Finalizing dropped the sequence number and the required lock times, which changed the
transaction after it was signed, dropped unknown and proprietary pairs, and dropped the witness
of inputs with only a non-witness UTXO, leaving legacy inputs never finalized.
---
 src/v2/map/input.rs | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index e1897bc..835e68c 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -234,10 +234,12 @@ impl Input {
             final_script_sig: None,
             final_script_witness: None,
 
-            // Clear everything else.
-            sequence: None,
-            min_time: None,
-            min_height: None,
+            // These define the transaction, the signatures are only valid with them.
+            sequence: self.sequence,
+            min_time: self.min_time,
+            min_height: self.min_height,
+
+            // BIP-174: all other data except the UTXO and unknown fields should be cleared.
             partial_sigs: BTreeMap::new(),
             sighash_type: None,
             redeem_script: None,
@@ -257,22 +259,18 @@ impl Input {
             sp_ecdh_shares: BTreeMap::new(),
             #[cfg(feature = "silent-payments")]
             sp_dleq_proofs: BTreeMap::new(),
-            proprietaries: BTreeMap::new(),
-            unknowns: BTreeMap::new(),
+            proprietaries: self.proprietaries.clone(),
+            unknowns: self.unknowns.clone(),
         };
 
         // TODO: These errors should only trigger if there are bugs in this crate or miniscript.
         // Is there an infallible way to do this?
-        if self.witness_utxo.is_some() {
-            if final_script_witness.is_empty() {
-                return Err(FinalizeError::EmptyWitness);
-            }
-            ret.final_script_sig = Some(final_script_sig);
-            ret.final_script_witness = Some(final_script_witness);
-        } else {
-            // TODO: Any checks should do here?
-            ret.final_script_sig = Some(final_script_sig);
+        if self.witness_utxo.is_some() && final_script_witness.is_empty() {
+            return Err(FinalizeError::EmptyWitness);
         }
+        ret.final_script_sig = Some(final_script_sig);
+        // Empty for legacy inputs, see `is_finalized`.
+        ret.final_script_witness = Some(final_script_witness);
 
         Ok(ret)
     }
-- 
2.43.0


From 529b38af753846fc333f7a8341bcf60fe789e5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:32 +0000
Subject: [PATCH 05/29] fix: compare xpub key sources by strict suffix when
 combining

Equal paths with different fingerprints were merged and the outcome depended on the operand
order, and a path that is shorter but not a suffix made the subtraction underflow and panic.
---
 src/v0/bitcoin/mod.rs | 5 +++--
 src/v2/map/global.rs  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/v0/bitcoin/mod.rs b/src/v0/bitcoin/mod.rs
index e99cf49..7a8c527 100644
--- a/src/v0/bitcoin/mod.rs
+++ b/src/v0/bitcoin/mod.rs
@@ -259,8 +259,9 @@ impl Psbt {
                                 == derivation2[derivation2.len() - derivation1.len()..])
                     {
                         continue;
-                    } else if derivation2[..]
-                        == derivation1[derivation1.len() - derivation2.len()..]
+                    } else if derivation2.len() < derivation1.len()
+                        && derivation2[..]
+                            == derivation1[derivation1.len() - derivation2.len()..]
                     {
                         entry.insert((fingerprint1, derivation1));
                         continue;
diff --git a/src/v2/map/global.rs b/src/v2/map/global.rs
index ae40e8d..b4abb35 100644
--- a/src/v2/map/global.rs
+++ b/src/v2/map/global.rs
@@ -432,8 +432,9 @@ impl Global {
                                 == derivation2[derivation2.len() - derivation1.len()..])
                     {
                         continue;
-                    } else if derivation2[..]
-                        == derivation1[derivation1.len() - derivation2.len()..]
+                    } else if derivation2.len() < derivation1.len()
+                        && derivation2[..]
+                            == derivation1[derivation1.len() - derivation2.len()..]
                     {
                         entry.insert((fingerprint1, derivation1));
                         continue;
-- 
2.43.0


From 9afb3716d095a4e43fb4ec59284713501057a048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:39 +0000
Subject: [PATCH 06/29] fix: refuse to combine v2 PSBTs for different
 transactions

Inputs and outputs that only one operand has were silently dropped or left without a
counterpart, and PSBTs whose lock times differ, or differ once the required lock times of both
are put together, were merged into a PSBT for yet another transaction.
---
 src/v2/mod.rs | 45 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index be34b9a..88a147b 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -673,6 +673,21 @@ impl Psbt {
     ///
     /// See [`combine()`] for a non-consuming version of this function.
     pub fn combine_with(mut self, other: Self) -> Result<Psbt, CombineError> {
+        if self.inputs.len() != other.inputs.len() {
+            return Err(CombineError::InputCountMismatch {
+                this: self.inputs.len(),
+                that: other.inputs.len(),
+            });
+        }
+        if self.outputs.len() != other.outputs.len() {
+            return Err(CombineError::OutputCountMismatch {
+                this: self.outputs.len(),
+                that: other.outputs.len(),
+            });
+        }
+        let this_id = self.id().ok();
+        let that_id = other.id().ok();
+
         self.global.combine(other.global)?;
 
         for (self_input, other_input) in self.inputs.iter_mut().zip(other.inputs.into_iter()) {
@@ -683,6 +698,12 @@ impl Psbt {
             self_output.combine(other_output)?;
         }
 
+        // The fields that determine the lock time may differ between PSBTs for the same
+        // transaction but the transaction must not.
+        if this_id != that_id || this_id != self.id().ok() {
+            return Err(CombineError::IdMismatch);
+        }
+
         Ok(self)
     }
 
@@ -1323,6 +1344,22 @@ pub enum CombineError {
     Input(input::CombineError),
     /// Error while combining the output maps.
     Output(output::CombineError),
+    /// The number of inputs is not the same.
+    InputCountMismatch {
+        /// Number of inputs in the first PSBT.
+        this: usize,
+        /// Number of inputs in the second PSBT.
+        that: usize,
+    },
+    /// The number of outputs is not the same.
+    OutputCountMismatch {
+        /// Number of outputs in the first PSBT.
+        this: usize,
+        /// Number of outputs in the second PSBT.
+        that: usize,
+    },
+    /// The PSBTs are not for the same transaction.
+    IdMismatch,
 }
 
 impl fmt::Display for CombineError {
@@ -1333,6 +1370,13 @@ impl fmt::Display for CombineError {
             Global(ref e) => write_err!(f, "error while combining the global maps"; e),
             Input(ref e) => write_err!(f, "error while combining the input maps"; e),
             Output(ref e) => write_err!(f, "error while combining the output maps"; e),
+            InputCountMismatch { this, that } => {
+                write!(f, "combine two PSBTs with different number of inputs: {} {}", this, that)
+            }
+            OutputCountMismatch { this, that } => {
+                write!(f, "combine two PSBTs with different number of outputs: {} {}", this, that)
+            }
+            IdMismatch => write!(f, "combine two PSBTs that are not for the same transaction"),
         }
     }
 }
@@ -1346,6 +1390,7 @@ impl std::error::Error for CombineError {
             Global(ref e) => Some(e),
             Input(ref e) => Some(e),
             Output(ref e) => Some(e),
+            InputCountMismatch { .. } | OutputCountMismatch { .. } | IdMismatch => None,
         }
     }
 }
-- 
2.43.0


From 736d63fe4ee6c5bb40d8229ef44759e9edad8589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:44 +0000
Subject: [PATCH 07/29] fix: combine the sighash type and the fallback lock
 time

The combiner must keep all key-value pairs of both PSBTs.
---
 src/v0/bitcoin/map/input.rs | 1 +
 src/v2/map/global.rs        | 1 +
 src/v2/map/input.rs         | 2 +-
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/v0/bitcoin/map/input.rs b/src/v0/bitcoin/map/input.rs
index e442ac8..0a3dcdc 100644
--- a/src/v0/bitcoin/map/input.rs
+++ b/src/v0/bitcoin/map/input.rs
@@ -323,6 +323,7 @@ impl Input {
         self.proprietary.extend(other.proprietary);
         self.unknown.extend(other.unknown);
 
+        combine!(sighash_type, self, other);
         combine!(redeem_script, self, other);
         combine!(witness_script, self, other);
         combine!(final_script_sig, self, other);
diff --git a/src/v2/map/global.rs b/src/v2/map/global.rs
index b4abb35..3b3c033 100644
--- a/src/v2/map/global.rs
+++ b/src/v2/map/global.rs
@@ -444,6 +444,7 @@ impl Global {
             }
         }
 
+        v2_combine_option!(fallback_lock_time, self, other);
         #[cfg(feature = "silent-payments")]
         v2_combine_map!(sp_ecdh_shares, self, other);
         #[cfg(feature = "silent-payments")]
diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index 835e68c..f1bfa19 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -632,7 +632,7 @@ impl Input {
         }
 
         v2_combine_map!(partial_sigs, self, other);
-        // TODO: Why do we not combine sighash_type?
+        v2_combine_option!(sighash_type, self, other);
         v2_combine_option!(redeem_script, self, other);
         v2_combine_option!(witness_script, self, other);
         v2_combine_map!(bip32_derivations, self, other);
-- 
2.43.0


From a0aebae811c8987803362f3f5e1d99f361577335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:49 +0000
Subject: [PATCH 08/29] fix: do not panic or change the modifiable flags when
 no signature is added

Signing an input for which we have no key panicked if its sighash could not be calculated, and
otherwise cleared the modifiable flags although no signature was added.
---
 src/v2/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index 88a147b..08b7e0e 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -800,7 +800,6 @@ impl Psbt {
         K: GetKey,
     {
         let msg_sighash_ty_res = self.sighash_ecdsa(input_index, cache);
-        let sighash_ty = msg_sighash_ty_res.clone().ok().map(|(_msg, sighash_ty)| sighash_ty);
 
         let input = &mut self.inputs[input_index]; // Index checked in call to `sighash_ecdsa`.
         let mut used = vec![]; // List of pubkeys used to sign the input.
@@ -831,8 +830,10 @@ impl Psbt {
             used.push(pk);
         }
 
-        let ty = sighash_ty.expect("at this stage we know its ok");
-        self.clear_tx_modifiable(ty as u8);
+        // Signing is what restricts modification, if we did not sign nothing changes.
+        if let (false, Ok((_msg, sighash_ty))) = (used.is_empty(), msg_sighash_ty_res) {
+            self.clear_tx_modifiable(sighash_ty as u8);
+        }
 
         Ok(used)
     }
-- 
2.43.0


From 6f0d97eb08b22b551141388943a4af9f2ef099ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:54 +0000
Subject: [PATCH 09/29] fix: do not allocate from the counts claimed by a
 serialized PSBT

A PSBT of a few bytes that claims a huge number of inputs or outputs made the decoder abort
with a capacity overflow or an allocation failure.
---
 src/v2/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index 08b7e0e..b1db4de 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -630,7 +630,7 @@ impl Psbt {
 
         let inputs: Vec<Input> = {
             let inputs_len: usize = global.input_count;
-            let mut inputs: Vec<Input> = Vec::with_capacity(inputs_len);
+            let mut inputs: Vec<Input> = Vec::new();
 
             for _ in 0..inputs_len {
                 inputs.push(Input::decode(&mut d)?);
@@ -641,7 +641,7 @@ impl Psbt {
 
         let outputs: Vec<Output> = {
             let outputs_len: usize = global.output_count;
-            let mut outputs: Vec<Output> = Vec::with_capacity(outputs_len);
+            let mut outputs: Vec<Output> = Vec::new();
 
             for _ in 0..outputs_len {
                 outputs.push(Output::decode(&mut d)?)
-- 
2.43.0


From 0f2bc0330354ef2d35fc9b65bedee7d8758e8d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:37 +0000
Subject: [PATCH 10/29] fix: implement Display and source for ExtractTxError

Both panicked with todo!().
---
 src/v2/extract.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/v2/extract.rs b/src/v2/extract.rs
index 657793b..327e5b4 100644
--- a/src/v2/extract.rs
+++ b/src/v2/extract.rs
@@ -223,12 +223,26 @@ pub enum ExtractTxError {
 }
 
 impl fmt::Display for ExtractTxError {
-    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result { todo!() }
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        use ExtractTxError::*;
+
+        match *self {
+            Unfinalized => write!(f, "attempted to extract tx from an unfinalized PSBT"),
+            DetermineLockTime(ref e) => write_err!(f, "failed to determine lock time"; e),
+        }
+    }
 }
 
 #[cfg(feature = "std")]
 impl std::error::Error for ExtractTxError {
-    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { todo!() }
+    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
+        use ExtractTxError::*;
+
+        match *self {
+            DetermineLockTime(ref e) => Some(e),
+            Unfinalized => None,
+        }
+    }
 }
 
 impl From<DetermineLockTimeError> for ExtractTxError {
-- 
2.43.0


From de9915af99431eea5df24bc25f130b0ca78d2fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:58 +0000
Subject: [PATCH 11/29] fix: implement Display and source for DeserializeError

Both panicked with todo!().
---
 src/v2/error.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/v2/error.rs b/src/v2/error.rs
index 60d6533..3999612 100644
--- a/src/v2/error.rs
+++ b/src/v2/error.rs
@@ -34,12 +34,32 @@ pub enum DeserializeError {
 }
 
 impl fmt::Display for DeserializeError {
-    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result { todo!() }
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        use DeserializeError::*;
+
+        match *self {
+            InvalidMagic => f.write_str("invalid magic"),
+            InvalidSeparator => f.write_str("invalid separator"),
+            NoMorePairs => f.write_str("no more key-value pairs for this psbt map"),
+            DecodeGlobal(ref e) => write_err!(f, "global map decode error"; e),
+            DecodeInput(ref e) => write_err!(f, "input map decode error"; e),
+            DecodeOutput(ref e) => write_err!(f, "output map decode error"; e),
+        }
+    }
 }
 
 #[cfg(feature = "std")]
 impl std::error::Error for DeserializeError {
-    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { todo!() }
+    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
+        use DeserializeError::*;
+
+        match *self {
+            InvalidMagic | InvalidSeparator | NoMorePairs => None,
+            DecodeGlobal(ref e) => Some(e),
+            DecodeInput(ref e) => Some(e),
+            DecodeOutput(ref e) => Some(e),
+        }
+    }
 }
 
 impl From<global::DecodeError> for DeserializeError {
-- 
2.43.0


From 07dade41e393fcd363b8fc07a8665217e5cfdc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:03 +0000
Subject: [PATCH 12/29] fix: do not panic if a v0 input spends an output its
 UTXO does not have

---
 src/v0/bitcoin/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v0/bitcoin/mod.rs b/src/v0/bitcoin/mod.rs
index 7a8c527..fe40be6 100644
--- a/src/v0/bitcoin/mod.rs
+++ b/src/v0/bitcoin/mod.rs
@@ -623,7 +623,7 @@ impl Psbt {
             witness_utxo
         } else if let Some(non_witness_utxo) = &input.non_witness_utxo {
             let vout = self.unsigned_tx.input[input_index].previous_output.vout;
-            &non_witness_utxo.output[vout as usize]
+            non_witness_utxo.output.get(vout as usize).ok_or(SignError::MissingSpendUtxo)?
         } else {
             return Err(SignError::MissingSpendUtxo);
         };
-- 
2.43.0


From 7762d465bf0ad9175785aa69805217d8412b5f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:08 +0000
Subject: [PATCH 13/29] fix: report an out of bounds UTXO when extracting from
 a v0 PSBT

It was taken to be unreachable and panicked.
---
 src/v0/bitcoin/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v0/bitcoin/mod.rs b/src/v0/bitcoin/mod.rs
index fe40be6..234896e 100644
--- a/src/v0/bitcoin/mod.rs
+++ b/src/v0/bitcoin/mod.rs
@@ -193,7 +193,7 @@ impl Psbt {
     ) -> Result<Transaction, ExtractTxError> {
         let fee = match self.fee() {
             Ok(fee) => fee,
-            Err(Error::MissingUtxo) =>
+            Err(Error::MissingUtxo) | Err(Error::PsbtUtxoOutOfbounds) =>
                 return Err(ExtractTxError::MissingInputValue { tx: self.internal_extract_tx() }),
             Err(Error::NegativeFee) => return Err(ExtractTxError::SendingTooMuch { psbt: self }),
             Err(Error::FeeOverflow) =>
-- 
2.43.0


From 0fb27c57e4b8458959b4ab60523634a23206c152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:14 +0000
Subject: [PATCH 14/29] fix: look up keys in sets of xprivs by their own
 fingerprint

The key source of a BIP-32 request starts at the key with the given fingerprint, as for a single
xpriv.  A set compared the fingerprint of the parent of its keys, so it did not find a master
key and derived the wrong key for other ones.
---
 src/v0/bitcoin/mod.rs | 2 +-
 src/v2/mod.rs         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v0/bitcoin/mod.rs b/src/v0/bitcoin/mod.rs
index 234896e..b56d93b 100644
--- a/src/v0/bitcoin/mod.rs
+++ b/src/v0/bitcoin/mod.rs
@@ -811,7 +811,7 @@ impl GetKey for $set<Xpriv> {
             KeyRequest::Pubkey(_) => Err(GetKeyError::NotSupported),
             KeyRequest::Bip32((fingerprint, path)) => {
                 for xpriv in self.iter() {
-                    if xpriv.parent_fingerprint == fingerprint {
+                    if xpriv.fingerprint(secp) == fingerprint {
                         let k = xpriv.derive_priv(secp, &path)?;
                         return Ok(Some(k.to_priv()));
                     }
diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index b1db4de..090292d 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -1095,7 +1095,7 @@ impl GetKey for $set<Xpriv> {
             KeyRequest::Pubkey(_) => Err(GetKeyError::NotSupported),
             KeyRequest::Bip32((fingerprint, path)) => {
                 for xpriv in self.iter() {
-                    if xpriv.parent_fingerprint == fingerprint {
+                    if xpriv.fingerprint(secp) == fingerprint {
                         let k = xpriv.derive_priv(secp, &path)?;
                         return Ok(Some(k.to_priv()));
                     }
-- 
2.43.0


From 8ce35de489145dd72dda72859222033a53803a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:19 +0000
Subject: [PATCH 15/29] fix: check scripts in signer_checks against what they
 must hash to

The witness script of a nested segwit input was not checked at all (the redeem script was hashed
as if it were one, which never matches, so every such input was refused), scripts of inputs with
only a non-witness UTXO were refused, and a witness UTXO for a P2SH input whose redeem script is
not segwit was not noticed.
---
 src/v0/mod.rs | 39 +++++++++++++++++----------------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/src/v0/mod.rs b/src/v0/mod.rs
index 070f905..1fb4015 100644
--- a/src/v0/mod.rs
+++ b/src/v0/mod.rs
@@ -60,6 +60,8 @@ impl Psbt {
             if input.witness_utxo.is_some() {
                 match self.output_type(i) {
                     Ok(OutputType::Bare) => return Err(SignerChecksError::NonWitnessSig),
+                    Ok(OutputType::Sh) if input.redeem_script.is_some() =>
+                        return Err(SignerChecksError::NonWitnessSig),
                     Ok(_) => {}
                     Err(_) => {} // TODO: Is this correct?
                 }
@@ -72,40 +74,33 @@ impl Psbt {
             }
 
             if let Some(ref redeem_script) = input.redeem_script {
-                match input.witness_utxo {
-                    Some(ref tx_out) => {
+                match self.spend_utxo(i) {
+                    Ok(tx_out) => {
                         let script_pubkey = ScriptBuf::new_p2sh(&redeem_script.script_hash());
                         if tx_out.script_pubkey != script_pubkey {
                             return Err(SignerChecksError::RedeemScriptMismatch);
                         }
                     }
-                    None => return Err(SignerChecksError::MissingTxOut),
+                    Err(_) => return Err(SignerChecksError::MissingTxOut),
                 }
             }
 
             if let Some(ref witness_script) = input.witness_script {
-                match input.witness_utxo {
-                    Some(ref utxo) => {
-                        let script_pubkey = &utxo.script_pubkey;
-                        if script_pubkey.is_p2wsh() {
-                            if ScriptBuf::new_p2wsh(&witness_script.wscript_hash())
-                                != *script_pubkey
-                            {
-                                return Err(SignerChecksError::WitnessScriptMismatchWsh);
-                            }
-                        } else if script_pubkey.is_p2sh() {
-                            if let Some(ref redeem_script) = input.redeem_script {
-                                if ScriptBuf::new_p2wsh(&redeem_script.wscript_hash())
-                                    != *script_pubkey
-                                {
+                match self.spend_utxo(i) {
+                    Ok(utxo) => {
+                        let script = ScriptBuf::new_p2wsh(&witness_script.wscript_hash());
+                        match input.redeem_script {
+                            Some(ref redeem_script) =>
+                                if *redeem_script != script {
                                     return Err(SignerChecksError::WitnessScriptMismatchShWsh);
-                                }
-                            }
-                        } else {
-                            // BIP does not specifically say there should not be a witness script here?
+                                },
+                            None =>
+                                if utxo.script_pubkey != script {
+                                    return Err(SignerChecksError::WitnessScriptMismatchWsh);
+                                },
                         }
                     }
-                    None => return Err(SignerChecksError::MissingTxOut),
+                    Err(_) => return Err(SignerChecksError::MissingTxOut),
                 }
             }
 
-- 
2.43.0


From e71e512a9198cb48a9f925a3954bc657cb31b478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:59 +0000
Subject: [PATCH 16/29] fix: satisfy lock times with those of the transaction

The v2 finalizer took the lock time an input requires for the lock time of the transaction, so it
refused inputs the transaction's lock time satisfies and accepted some it does not; it also ignored
that a final sequence disables OP_CLTV and that OP_CSV needs transaction version 2.
---
 src/v2/map/input.rs           | 13 -------------
 src/v2/miniscript/finalize.rs |  9 ++++++++-
 src/v2/miniscript/mod.rs      |  4 +---
 src/v2/miniscript/satisfy.rs  | 29 ++++++++++++++---------------
 4 files changed, 23 insertions(+), 32 deletions(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index f1bfa19..e48a8e8 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -275,19 +275,6 @@ impl Input {
         Ok(ret)
     }
 
-    // TODO: Work out if this is in line with bip-370
-    #[cfg(feature = "miniscript")]
-    pub(crate) fn lock_time(&self) -> absolute::LockTime {
-        match (self.min_height, self.min_time) {
-            // If we have both, bip says use height.
-            (Some(height), Some(_)) => height.into(),
-            (Some(height), None) => height.into(),
-            (None, Some(time)) => time.into(),
-            // TODO: Check this is correct.
-            (None, None) => absolute::LockTime::ZERO,
-        }
-    }
-
     pub(crate) fn has_lock_time(&self) -> bool {
         self.min_time.is_some() || self.min_height.is_some()
     }
diff --git a/src/v2/miniscript/finalize.rs b/src/v2/miniscript/finalize.rs
index f7c60e3..2798801 100644
--- a/src/v2/miniscript/finalize.rs
+++ b/src/v2/miniscript/finalize.rs
@@ -106,7 +106,14 @@ impl Finalizer {
         let (witness, script_sig) = {
             let spk =
                 &input.funding_utxo().expect("guaranteed by Finalizer invariant").script_pubkey;
-            let sat = InputSatisfier { input };
+            let sat = InputSatisfier {
+                input,
+                tx_version: self.0.global.tx_version,
+                lock_time: self
+                    .0
+                    .determine_lock_time()
+                    .expect("guaranteed by Finalizer invariant"),
+            };
 
             if spk.is_p2tr() {
                 // Deal with taproot case separately, we cannot infer the full descriptor for taproot.
diff --git a/src/v2/miniscript/mod.rs b/src/v2/miniscript/mod.rs
index 7935bd1..df32209 100644
--- a/src/v2/miniscript/mod.rs
+++ b/src/v2/miniscript/mod.rs
@@ -88,9 +88,7 @@ impl Psbt {
 
         let spk = &input.funding_utxo().expect("have funding utxo").script_pubkey;
 
-        // TODO: Check that this is correct?
-        let cltv = input.lock_time();
-        // TODO: is this usage of MAX correct?
+        let cltv = unsigned_tx.lock_time;
         let csv = input.sequence.unwrap_or(Sequence::MAX);
 
         let interpreter = Interpreter::from_txdata(spk, script_sig, witness, csv, cltv)
diff --git a/src/v2/miniscript/satisfy.rs b/src/v2/miniscript/satisfy.rs
index eb56c62..92d48bc 100644
--- a/src/v2/miniscript/satisfy.rs
+++ b/src/v2/miniscript/satisfy.rs
@@ -3,7 +3,7 @@
 use crate::bitcoin::hashes::{hash160, sha256d, Hash};
 use crate::bitcoin::key::XOnlyPublicKey;
 use crate::bitcoin::taproot::{self, ControlBlock, LeafVersion, TapLeafHash};
-use crate::bitcoin::{absolute, ecdsa, relative, ScriptBuf};
+use crate::bitcoin::{absolute, ecdsa, relative, transaction, ScriptBuf};
 use crate::miniscript::{MiniscriptKey, Preimage32, Satisfier, SigType, ToPublicKey};
 use crate::prelude::*;
 use crate::v2::map::input::Input;
@@ -16,6 +16,10 @@ use crate::v2::map::input::Input;
 /// [`Satisfier`]: crate::miniscript::Satisfier
 pub(crate) struct InputSatisfier<'a> {
     pub(crate) input: &'a Input,
+    /// Version of the transaction the input is part of.
+    pub(crate) tx_version: transaction::Version,
+    /// Lock time of the transaction the input is part of.
+    pub(crate) lock_time: absolute::LockTime,
 }
 
 impl<Pk: MiniscriptKey + ToPublicKey> Satisfier<Pk> for InputSatisfier<'_> {
@@ -67,25 +71,20 @@ impl<Pk: MiniscriptKey + ToPublicKey> Satisfier<Pk> for InputSatisfier<'_> {
             .map(|(pk, sig)| (*pk, *sig))
     }
 
-    // TODO: Verify this is correct.
     fn check_after(&self, n: absolute::LockTime) -> bool {
-        use absolute::LockTime::*;
-
-        match n {
-            Blocks(height) =>
-                if let Some(lock_time) = self.input.min_height {
-                    return height <= lock_time;
-                },
-            Seconds(time) =>
-                if let Some(lock_time) = self.input.min_time {
-                    return time <= lock_time;
-                },
+        // BIP-65: The lock time of the transaction counts, and only if the input is not final.
+        match self.input.sequence {
+            Some(seq) if seq.enables_absolute_lock_time() => n.is_implied_by(self.lock_time),
+            _ => false,
         }
-        false
     }
 
-    // TODO: Verify this is correct.
     fn check_older(&self, n: relative::LockTime) -> bool {
+        // BIP-68: Relative lock times exist in transactions of version 2 or greater only.
+        if self.tx_version < transaction::Version::TWO {
+            return false;
+        }
+
         match self.input.sequence {
             Some(seq) => match relative::LockTime::from_sequence(seq) {
                 Err(_) => false,
-- 
2.43.0


From 0b093368d9d3f3b288c6f8d16ba2e196114d3cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:39 +0000
Subject: [PATCH 17/29] fix: do not panic when a v0 input spends an output its
 UTXO does not have

---
 src/v0/miniscript/finalizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v0/miniscript/finalizer.rs b/src/v0/miniscript/finalizer.rs
index 92d07bc..4e33e93 100644
--- a/src/v0/miniscript/finalizer.rs
+++ b/src/v0/miniscript/finalizer.rs
@@ -116,7 +116,7 @@ pub(super) fn get_utxo(psbt: &Psbt, index: usize) -> Result<&bitcoin::TxOut, Inp
         witness_utxo
     } else if let Some(ref non_witness_utxo) = inp.non_witness_utxo {
         let vout = psbt.unsigned_tx.input[index].previous_output.vout;
-        &non_witness_utxo.output[vout as usize]
+        non_witness_utxo.output.get(vout as usize).ok_or(InputError::MissingUtxo)?
     } else {
         return Err(InputError::MissingUtxo);
     };
-- 
2.43.0


From 7f7f1dca5ac413750646a9c8986b378d5de87682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:44 +0000
Subject: [PATCH 18/29] fix: keep proprietary and unknown fields when
 finalizing a v0 input

---
 src/v0/miniscript/finalizer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/v0/miniscript/finalizer.rs b/src/v0/miniscript/finalizer.rs
index 4e33e93..65d8dc1 100644
--- a/src/v0/miniscript/finalizer.rs
+++ b/src/v0/miniscript/finalizer.rs
@@ -445,6 +445,9 @@ pub(super) fn finalize_input<C: secp256k1::Verification>(
         let input = &mut psbt.inputs[index];
         input.non_witness_utxo = original.non_witness_utxo;
         input.witness_utxo = original.witness_utxo;
+        // BIP-174: All other data except the UTXO and unknown fields are cleared.
+        input.proprietary = original.proprietary;
+        input.unknown = original.unknown;
         input.final_script_sig = if script_sig.is_empty() {
             None
         } else {
-- 
2.43.0


From 8a8b86cd16f242e097b8d63f01dde5653e680e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:48 +0000
Subject: [PATCH 19/29] fix: finalize v0 inputs although another input has no
 UTXO

An input with all its data was left alone, and the error blamed on the other input.
---
 src/v0/miniscript/finalizer.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/v0/miniscript/finalizer.rs b/src/v0/miniscript/finalizer.rs
index 65d8dc1..626ab5a 100644
--- a/src/v0/miniscript/finalizer.rs
+++ b/src/v0/miniscript/finalizer.rs
@@ -423,9 +423,14 @@ fn finalize_input_helper<C: secp256k1::Verification>(
     };
 
     let witness = bitcoin::Witness::from_slice(&witness);
-    let utxos = prevouts(psbt)?;
-    let utxos = &Prevouts::All(&utxos);
-    interpreter_inp_check(psbt, secp, index, utxos, &witness, &script_sig)?;
+    // What the other inputs spend may be unknown, not every signature commits to it.
+    let all = prevouts(psbt);
+    let utxos = match all {
+        Ok(ref utxos) => Prevouts::All(utxos),
+        Err(_) =>
+            Prevouts::One(index, get_utxo(psbt, index).map_err(|e| Error::InputError(e, index))?),
+    };
+    interpreter_inp_check(psbt, secp, index, &utxos, &witness, &script_sig)?;
 
     Ok((witness, script_sig))
 }
-- 
2.43.0


From 127c75f46fd01a2078e5bea40695cc50b6d7194b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:52 +0000
Subject: [PATCH 20/29] fix: allow malleable satisfactions in
 finalize_inp_mall_mut

---
 src/v0/miniscript/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v0/miniscript/mod.rs b/src/v0/miniscript/mod.rs
index 5ee82ad..21c197c 100644
--- a/src/v0/miniscript/mod.rs
+++ b/src/v0/miniscript/mod.rs
@@ -680,7 +680,7 @@ impl PsbtExt for Psbt {
         if index >= self.inputs.len() {
             return Err(Error::InputIdxOutofBounds { psbt_inp: self.inputs.len(), index });
         }
-        finalizer::finalize_input(self, index, secp, /*allow_mall*/ false)
+        finalizer::finalize_input(self, index, secp, /*allow_mall*/ true)
     }
 
     fn finalize_inp_mall<C: secp256k1::Verification>(
-- 
2.43.0


From 52c82ea4de374d96f2be11fe9d1301f4169b4b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:35 +0000
Subject: [PATCH 21/29] fix: accept taproot sighash types when finalizing a v2
 PSBT

---
 src/v2/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index 090292d..6382e2e 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -998,6 +998,11 @@ impl Psbt {
         use PartialSigsSighashTypeError::*;
 
         for (input_index, input) in self.inputs.iter().enumerate() {
+            // The sighash type of other inputs (e.g. taproot) need not be an ECDSA one.
+            if input.partial_sigs.is_empty() {
+                continue;
+            }
+
             let target_ecdsa_sighash_ty = match input.sighash_type {
                 Some(psbt_hash_ty) => psbt_hash_ty
                     .ecdsa_hash_ty()
-- 
2.43.0


From a7049e6cb12a84bb34abccf839935209547545a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:46 +0000
Subject: [PATCH 22/29] fix: accept taproot sighash types when checking a v0
 PSBT

---
 src/v0/miniscript/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/v0/miniscript/mod.rs b/src/v0/miniscript/mod.rs
index 21c197c..6794a5c 100644
--- a/src/v0/miniscript/mod.rs
+++ b/src/v0/miniscript/mod.rs
@@ -388,6 +388,11 @@ pub(crate) fn sanity_check(psbt: &Psbt) -> Result<(), Error> {
 
     // Check well-formedness of input data
     for (index, input) in psbt.inputs.iter().enumerate() {
+        // The sighash type of other inputs (e.g. taproot) need not be an ECDSA one.
+        if input.partial_sigs.is_empty() {
+            continue;
+        }
+
         // TODO: fix this after https://github.com/rust-bitcoin/rust-bitcoin/issues/838
         let target_ecdsa_sighash_ty = match input.sighash_type {
             Some(psbt_hash_ty) => psbt_hash_ty
-- 
2.43.0


From 774738b99ac7cf40acc6a980da0e9e2f8140a75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:34 +0000
Subject: [PATCH 23/29] fix: reject malformed hex when parsing a sighash type

Text like "0x0x01" or "+1" was accepted although it is not a hex number.
---
 src/sighash_type.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sighash_type.rs b/src/sighash_type.rs
index b954629..692ebd7 100644
--- a/src/sighash_type.rs
+++ b/src/sighash_type.rs
@@ -42,8 +42,12 @@ impl FromStr for PsbtSighashType {
         }
 
         // We accept non-standard sighash values.
-        if let Ok(inner) = u32::from_str_radix(s.trim_start_matches("0x"), 16) {
-            return Ok(PsbtSighashType { inner });
+        let digits = s.strip_prefix("0x").unwrap_or(s);
+        // `from_str_radix` also accepts a leading sign.
+        if digits.bytes().all(|b| b.is_ascii_hexdigit()) {
+            if let Ok(inner) = u32::from_str_radix(digits, 16) {
+                return Ok(PsbtSighashType { inner });
+            }
         }
 
         Err(ParseSighashTypeError { unrecognized: s.to_owned() })
-- 
2.43.0


From 1c1fa1a7d2bea4a345bd9ab2a7c149a5720e0c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 24/29] fix: reject uncompressed keys in silent payment fields

CompressedPublicKey::from_slice also takes the 65 byte form, so scan keys and
ECDH shares of the wrong length were accepted (and came back with another
length). BIP-375 requires 33 bytes.
---
 src/macros.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/macros.rs b/src/macros.rs
index 6e5cc88..bbf310a 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -137,8 +137,14 @@ macro_rules! v2_impl_psbt_insert_sp_pair {
         if $raw_key.key.is_empty() {
             return Err(InsertPairError::InvalidKeyDataEmpty($raw_key).into());
         }
+        if $raw_key.key.len() != 33 {
+            return Err(InsertPairError::KeyWrongLength($raw_key.key.len(), 33).into());
+        }
         let scan_key = bitcoin::CompressedPublicKey::from_slice(&$raw_key.key)
             .map_err(|_| InsertPairError::KeyWrongLength($raw_key.key.len(), 33))?;
+        if $raw_value.len() != 33 {
+            return Err(InsertPairError::ValueWrongLength($raw_value.len(), 33).into());
+        }
         let value = bitcoin::CompressedPublicKey::from_slice(&$raw_value)
             .map_err(|_| InsertPairError::ValueWrongLength($raw_value.len(), 33))?;
         match $map.entry(scan_key) {
@@ -154,6 +160,9 @@ macro_rules! v2_impl_psbt_insert_sp_pair {
         if $raw_key.key.is_empty() {
             return Err(InsertPairError::InvalidKeyDataEmpty($raw_key).into());
         }
+        if $raw_key.key.len() != 33 {
+            return Err(InsertPairError::KeyWrongLength($raw_key.key.len(), 33).into());
+        }
         let scan_key = bitcoin::CompressedPublicKey::from_slice(&$raw_key.key)
             .map_err(|_| InsertPairError::KeyWrongLength($raw_key.key.len(), 33))?;
         let value = $crate::v2::dleq::DleqProof::try_from($raw_value.as_slice())
-- 
2.43.0


From 34cfaaedd870d34acedcd9d1e367a184c4fd5718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 25/29] fix: read preimages from JSON that is not borrowed

The byte value maps asked for a borrowed string, so a PSBT with preimages could
not be deserialized with serde_json::from_reader or from_value.
---
 src/serde_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_utils.rs b/src/serde_utils.rs
index e92dd82..7bb5690 100644
--- a/src/serde_utils.rs
+++ b/src/serde_utils.rs
@@ -72,8 +72,8 @@ pub mod btreemap_byte_values {
                 mut a: A,
             ) -> Result<Self::Value, A::Error> {
                 let mut ret = BTreeMap::new();
-                while let Some((key, value)) = a.next_entry()? {
-                    ret.insert(key, FromHex::from_hex(value).map_err(serde::de::Error::custom)?);
+                while let Some((key, value)) = a.next_entry::<T, String>()? {
+                    ret.insert(key, FromHex::from_hex(&value).map_err(serde::de::Error::custom)?);
                 }
                 Ok(ret)
             }
-- 
2.43.0


From ca18251da21be30fefca4688a817d0cb314e51c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 26/29] fix: read taproot leaf scripts from JSON

A PSBT with a control block was written to JSON but could not be read back,
because secp256k1::Parity only deserializes from an 8 bit integer.
---
 src/serde_utils.rs          | 44 +++++++++++++++++++++++++++++++++++++
 src/v0/bitcoin/map/input.rs |  2 +-
 src/v2/map/input.rs         |  2 +-
 3 files changed, 46 insertions(+), 2 deletions(-)

diff --git a/src/serde_utils.rs b/src/serde_utils.rs
index 7bb5690..0ffd641 100644
--- a/src/serde_utils.rs
+++ b/src/serde_utils.rs
@@ -241,6 +241,50 @@ pub mod btreemap_as_seq_byte_values {
     }
 }
 
+pub mod control_blocks {
+    //! Module for deserialization of BTreeMaps keyed by control block.
+    //!
+    //! Same format as `btreemap_as_seq`, however the output key parity is read as an integer because
+    //! `secp256k1::Parity` does not deserialize from the integer that JSON provides.
+    #![allow(missing_docs)]
+
+    use bitcoin::key::{Parity, UntweakedPublicKey};
+    use bitcoin::taproot::{ControlBlock, LeafVersion, TaprootMerkleBranch};
+
+    pub use super::btreemap_as_seq::serialize;
+    use crate::prelude::*;
+    use crate::serde;
+
+    #[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Deserialize)]
+    #[serde(rename = "ControlBlock")]
+    struct RawControlBlock {
+        leaf_version: LeafVersion,
+        output_key_parity: u8,
+        internal_key: UntweakedPublicKey,
+        merkle_branch: TaprootMerkleBranch,
+    }
+
+    pub fn deserialize<'de, D, U>(d: D) -> Result<BTreeMap<ControlBlock, U>, D::Error>
+    where
+        D: serde::Deserializer<'de>,
+        U: serde::Deserialize<'de>,
+    {
+        let raw: BTreeMap<RawControlBlock, U> = super::btreemap_as_seq::deserialize(d)?;
+        raw.into_iter()
+            .map(|(key, value)| {
+                let control_block = ControlBlock {
+                    leaf_version: key.leaf_version,
+                    output_key_parity: Parity::from_u8(key.output_key_parity)
+                        .map_err(serde::de::Error::custom)?,
+                    internal_key: key.internal_key,
+                    merkle_branch: key.merkle_branch,
+                };
+                Ok((control_block, value))
+            })
+            .collect()
+    }
+}
+
 pub mod hex_bytes {
     //! Module for serialization of byte arrays as hex strings.
     #![allow(missing_docs)]
diff --git a/src/v0/bitcoin/map/input.rs b/src/v0/bitcoin/map/input.rs
index 0a3dcdc..72c9294 100644
--- a/src/v0/bitcoin/map/input.rs
+++ b/src/v0/bitcoin/map/input.rs
@@ -121,7 +121,7 @@ pub struct Input {
     #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::btreemap_as_seq"))]
     pub tap_script_sigs: BTreeMap<(XOnlyPublicKey, TapLeafHash), taproot::Signature>,
     /// Map of Control blocks to Script version pair.
-    #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::btreemap_as_seq"))]
+    #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::control_blocks"))]
     pub tap_scripts: BTreeMap<ControlBlock, (ScriptBuf, LeafVersion)>,
     /// Map of tap root x only keys to origin info and leaf hashes contained in it.
     #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::btreemap_as_seq"))]
diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index e48a8e8..9d60714 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -111,7 +111,7 @@ pub struct Input {
     #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::btreemap_as_seq"))]
     pub tap_script_sigs: BTreeMap<(XOnlyPublicKey, TapLeafHash), taproot::Signature>,
     /// Map of Control blocks to Script version pair.
-    #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::btreemap_as_seq"))]
+    #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::control_blocks"))]
     pub tap_scripts: BTreeMap<ControlBlock, (ScriptBuf, LeafVersion)>,
     /// Map of tap root x only keys to origin info and leaf hashes contained in it.
     #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::btreemap_as_seq"))]
-- 
2.43.0


From 1b9a722a8e3ad9df8d96685c444bef2b86f09d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:23 +0000
Subject: [PATCH 27/29] fix: do not panic when checking a v0 PSBT with too many
 inputs

`signer_checks` indexed the inputs of the unsigned transaction with the
index of a PSBT input. A PSBT with more inputs than its transaction, which
can be built by hand, made it panic.
---
 src/v0/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v0/mod.rs b/src/v0/mod.rs
index 1fb4015..f7cce55 100644
--- a/src/v0/mod.rs
+++ b/src/v0/mod.rs
@@ -68,7 +68,8 @@ impl Psbt {
             }
 
             if let Some(ref tx) = input.non_witness_utxo {
-                if tx.compute_txid() != unsigned_tx.input[i].previous_output.txid {
+                let txid = unsigned_tx.input.get(i).map(|txin| txin.previous_output.txid);
+                if txid != Some(tx.compute_txid()) {
                     return Err(SignerChecksError::NonWitnessUtxoTxidMismatch);
                 }
             }
-- 
2.43.0


From d380b987a4e43c3d47fd2169d7b357a7ce445b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:29 +0000
Subject: [PATCH 28/29] fix: do not panic when finalizing a signed tapscript
 pkh without key origins

---
 src/v0/miniscript/finalizer.rs | 6 ++++--
 src/v2/miniscript/finalize.rs  | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/v0/miniscript/finalizer.rs b/src/v0/miniscript/finalizer.rs
index 626ab5a..a2bf8d1 100644
--- a/src/v0/miniscript/finalizer.rs
+++ b/src/v0/miniscript/finalizer.rs
@@ -42,8 +42,10 @@ fn construct_tap_witness(
     let psbt_inputs = &sat.psbt.inputs;
     for psbt_input in psbt_inputs {
         // We need to satisfy or dissatisfy any given key. `tap_key_origin` is the only field of PSBT Input which consist of
-        // all the keys added on a descriptor and thus we get keys from it.
-        let public_keys = psbt_input.tap_key_origins.keys();
+        // all the keys added on a descriptor and thus we get keys from it. It may be missing, the keys that signed are
+        // known without it.
+        let signers = psbt_input.tap_script_sigs.keys().map(|(key, _leaf_hash)| key);
+        let public_keys = psbt_input.tap_key_origins.keys().chain(signers);
         for key in public_keys {
             let bitcoin_key = *key;
             let hash = bitcoin_key.to_pubkeyhash(SigType::Schnorr);
diff --git a/src/v2/miniscript/finalize.rs b/src/v2/miniscript/finalize.rs
index 2798801..06bd196 100644
--- a/src/v2/miniscript/finalize.rs
+++ b/src/v2/miniscript/finalize.rs
@@ -317,8 +317,10 @@ fn construct_tap_witness(
     let mut map: BTreeMap<hash160::Hash, XOnlyPublicKey> = BTreeMap::new();
 
     // We need to satisfy or dissatisfy any given key. `tap_key_origin` is the only field of PSBT
-    // Input which consist of all the keys added on a descriptor and thus we get keys from it.
-    let public_keys = sat.input.tap_key_origins.keys();
+    // Input which consist of all the keys added on a descriptor and thus we get keys from it. It
+    // may be missing, the keys that signed are known without it.
+    let signers = sat.input.tap_script_sigs.keys().map(|(key, _leaf_hash)| key);
+    let public_keys = sat.input.tap_key_origins.keys().chain(signers);
     for key in public_keys {
         // TODO: How is this key converting to a miniscript::interpreter::BitcoinKey?
         // let hash = key.to_pubkeyhash(SigType::Schnorr);
-- 
2.43.0


From f698fc5bbb268d9436edf3138000e8ec0f8c6dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 29/29] fix: put the keys of a tapscript in place of their
 hashes when finalizing

---
 src/v0/miniscript/finalizer.rs | 44 ++++++++++++++++++++++++++++++++--
 src/v2/miniscript/finalize.rs  | 44 ++++++++++++++++++++++++++++++++--
 2 files changed, 84 insertions(+), 4 deletions(-)

diff --git a/src/v0/miniscript/finalizer.rs b/src/v0/miniscript/finalizer.rs
index a2bf8d1..960ad8c 100644
--- a/src/v0/miniscript/finalizer.rs
+++ b/src/v0/miniscript/finalizer.rs
@@ -8,6 +8,7 @@
 //! `https://github.com/bitcoin/bips/blob/master/bip-0174.mediawiki`
 //!
 
+use alloc::sync::Arc;
 use core::convert::TryFrom;
 use core::mem;
 
@@ -20,13 +21,48 @@ use bitcoin::{PublicKey, Script, ScriptBuf, TxOut, Witness};
 
 use miniscript::{
     interpreter, BareCtx, Descriptor, ExtParams, Legacy, Miniscript, Satisfier, Segwitv0, SigType,
-    Tap, ToPublicKey,
+    Tap, Terminal, ToPublicKey,
 };
 
 use crate::prelude::*;
 use crate::v0::miniscript::{sanity_check, Error, InputError, Psbt, PsbtInputSatisfier};
 use crate::v0::miniscript::util::witness_size;
 
+/// Replaces the hashes of public keys contained in `map` with the public keys.
+///
+/// The method of the same name in `rust-miniscript` does so only if `ms` as a whole is such a hash,
+/// it misses the ones within other fragments (which includes the `c:` wrapper of `pkh`).
+fn substitute_raw_pkh(
+    ms: &Miniscript<XOnlyPublicKey, Tap>,
+    map: &BTreeMap<hash160::Hash, XOnlyPublicKey>,
+) -> Result<Miniscript<XOnlyPublicKey, Tap>, miniscript::Error> {
+    let sub = |ms: &Arc<_>| substitute_raw_pkh(ms, map).map(Arc::new);
+
+    let node = match ms.node {
+        Terminal::RawPkH(ref hash) => match map.get(hash) {
+            Some(key) => Terminal::PkH(*key),
+            None => Terminal::RawPkH(*hash),
+        },
+        Terminal::Alt(ref a) => Terminal::Alt(sub(a)?),
+        Terminal::Swap(ref a) => Terminal::Swap(sub(a)?),
+        Terminal::Check(ref a) => Terminal::Check(sub(a)?),
+        Terminal::DupIf(ref a) => Terminal::DupIf(sub(a)?),
+        Terminal::Verify(ref a) => Terminal::Verify(sub(a)?),
+        Terminal::NonZero(ref a) => Terminal::NonZero(sub(a)?),
+        Terminal::ZeroNotEqual(ref a) => Terminal::ZeroNotEqual(sub(a)?),
+        Terminal::AndV(ref a, ref b) => Terminal::AndV(sub(a)?, sub(b)?),
+        Terminal::AndB(ref a, ref b) => Terminal::AndB(sub(a)?, sub(b)?),
+        Terminal::AndOr(ref a, ref b, ref c) => Terminal::AndOr(sub(a)?, sub(b)?, sub(c)?),
+        Terminal::OrB(ref a, ref b) => Terminal::OrB(sub(a)?, sub(b)?),
+        Terminal::OrD(ref a, ref b) => Terminal::OrD(sub(a)?, sub(b)?),
+        Terminal::OrC(ref a, ref b) => Terminal::OrC(sub(a)?, sub(b)?),
+        Terminal::OrI(ref a, ref b) => Terminal::OrI(sub(a)?, sub(b)?),
+        Terminal::Thresh(ref thresh) => Terminal::Thresh(thresh.translate_ref(sub)?),
+        ref leaf => leaf.clone(),
+    };
+    Miniscript::from_ast(node)
+}
+
 // Satisfy the taproot descriptor. It is not possible to infer the complete
 // descriptor from psbt because the information about all the scripts might not
 // be present. Also, currently the spec does not support hidden branches, so
@@ -74,7 +110,11 @@ fn construct_tap_witness(
                 script,
                 &ExtParams::allow_all(),
             ) {
-                Ok(ms) => ms.substitute_raw_pkh(&map),
+                Ok(ms) => ms,
+                Err(..) => continue, // try another script
+            };
+            let ms = match substitute_raw_pkh(&ms, &map) {
+                Ok(ms) => ms,
                 Err(..) => continue, // try another script
             };
             let mut wit = if allow_mall {
diff --git a/src/v2/miniscript/finalize.rs b/src/v2/miniscript/finalize.rs
index 06bd196..3f2a5d4 100644
--- a/src/v2/miniscript/finalize.rs
+++ b/src/v2/miniscript/finalize.rs
@@ -5,6 +5,7 @@
 //! [BIP-174]: <https://github.com/bitcoin/bips/blob/master/bip-0174.media wiki>
 
 use alloc::collections::BTreeMap;
+use alloc::sync::Arc;
 use core::fmt;
 
 use bitcoin::hashes::hash160;
@@ -13,7 +14,7 @@ use bitcoin::taproot::LeafVersion;
 use bitcoin::{sighash, Address, Network, Script, ScriptBuf, Txid, Witness, XOnlyPublicKey};
 use miniscript::{
     interpreter, BareCtx, Descriptor, ExtParams, Legacy, Miniscript, Satisfier, Segwitv0, SigType,
-    Tap, ToPublicKey,
+    Tap, Terminal, ToPublicKey,
 };
 
 use crate::error::{write_err, FundingUtxoError};
@@ -302,6 +303,41 @@ impl Finalizer {
     }
 }
 
+/// Replaces the hashes of public keys contained in `map` with the public keys.
+///
+/// The method of the same name in `rust-miniscript` does so only if `ms` as a whole is such a hash,
+/// it misses the ones within other fragments (which includes the `c:` wrapper of `pkh`).
+fn substitute_raw_pkh(
+    ms: &Miniscript<XOnlyPublicKey, Tap>,
+    map: &BTreeMap<hash160::Hash, XOnlyPublicKey>,
+) -> Result<Miniscript<XOnlyPublicKey, Tap>, miniscript::Error> {
+    let sub = |ms: &Arc<_>| substitute_raw_pkh(ms, map).map(Arc::new);
+
+    let node = match ms.node {
+        Terminal::RawPkH(ref hash) => match map.get(hash) {
+            Some(key) => Terminal::PkH(*key),
+            None => Terminal::RawPkH(*hash),
+        },
+        Terminal::Alt(ref a) => Terminal::Alt(sub(a)?),
+        Terminal::Swap(ref a) => Terminal::Swap(sub(a)?),
+        Terminal::Check(ref a) => Terminal::Check(sub(a)?),
+        Terminal::DupIf(ref a) => Terminal::DupIf(sub(a)?),
+        Terminal::Verify(ref a) => Terminal::Verify(sub(a)?),
+        Terminal::NonZero(ref a) => Terminal::NonZero(sub(a)?),
+        Terminal::ZeroNotEqual(ref a) => Terminal::ZeroNotEqual(sub(a)?),
+        Terminal::AndV(ref a, ref b) => Terminal::AndV(sub(a)?, sub(b)?),
+        Terminal::AndB(ref a, ref b) => Terminal::AndB(sub(a)?, sub(b)?),
+        Terminal::AndOr(ref a, ref b, ref c) => Terminal::AndOr(sub(a)?, sub(b)?, sub(c)?),
+        Terminal::OrB(ref a, ref b) => Terminal::OrB(sub(a)?, sub(b)?),
+        Terminal::OrD(ref a, ref b) => Terminal::OrD(sub(a)?, sub(b)?),
+        Terminal::OrC(ref a, ref b) => Terminal::OrC(sub(a)?, sub(b)?),
+        Terminal::OrI(ref a, ref b) => Terminal::OrI(sub(a)?, sub(b)?),
+        Terminal::Thresh(ref thresh) => Terminal::Thresh(thresh.translate_ref(sub)?),
+        ref leaf => leaf.clone(),
+    };
+    Miniscript::from_ast(node)
+}
+
 // Satisfy the taproot descriptor. It is not possible to infer the complete descriptor from psbt
 // because the information about all the scripts might not be present. Also, currently the spec does
 // not support hidden branches, so inferring a descriptor is not possible.
@@ -349,7 +385,11 @@ fn construct_tap_witness(
                 script,
                 &ExtParams::allow_all(),
             ) {
-                Ok(ms) => ms.substitute_raw_pkh(&map),
+                Ok(ms) => ms,
+                Err(..) => continue, // try another script
+            };
+            let ms = match substitute_raw_pkh(&ms, &map) {
+                Ok(ms) => ms,
                 Err(..) => continue, // try another script
             };
             let mut wit = if allow_mall {
-- 
2.43.0

