From 4fe922aab893f9a5a1fd84a4cdb668fd6a201f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:22 +0000
Subject: [PATCH 1/6] fix: reject declared lengths that exceed the buffer
 instead of panicking

Decoding an input, script, witness or receipt whose length word is close to
u64::MAX overflowed while padding the length and panicked.
---
 src/decode.rs                    | 27 +++++++++++++++++++++++++++
 src/lib.rs                       |  3 +++
 src/receipt/receipt_std.rs       |  7 ++++---
 src/transaction/types/input.rs   | 13 ++++++++-----
 src/transaction/types/script.rs  |  7 +++++--
 src/transaction/types/witness.rs |  5 ++++-
 6 files changed, 51 insertions(+), 11 deletions(-)
 create mode 100644 src/decode.rs

diff --git a/src/decode.rs b/src/decode.rs
new file mode 100644
index 0000000..8b6c06b
--- /dev/null
+++ b/src/decode.rs
@@ -0,0 +1,27 @@
+//! Decoding helpers for lengths and counts that come from untrusted bytes.
+
+use fuel_types::bytes;
+use fuel_types::Word;
+
+use std::io;
+
+/// Same as [`bytes::restore_raw_bytes`], but a length that can't fit the buffer is an error even if
+/// padding it would overflow.
+pub(crate) fn restore_raw_bytes(buf: &[u8], len: usize) -> io::Result<(usize, Vec<u8>, &[u8])> {
+    if buf.len() < len {
+        return Err(bytes::eof());
+    }
+
+    bytes::restore_raw_bytes(buf, len)
+}
+
+/// Same as [`bytes::restore_bytes`], but a length that can't fit the buffer is an error even if
+/// padding it would overflow.
+pub(crate) fn restore_bytes(buf: &[u8]) -> io::Result<(usize, Vec<u8>, &[u8])> {
+    let (len, remainder) = bytes::restore_number::<Word>(buf)?;
+    if (remainder.len() as Word) < len {
+        return Err(bytes::eof());
+    }
+
+    bytes::restore_bytes(buf)
+}
diff --git a/src/lib.rs b/src/lib.rs
index 5bd0355..a648a4a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -25,6 +25,9 @@ mod builder;
 #[cfg(feature = "alloc")]
 mod contract;
 
+#[cfg(feature = "std")]
+mod decode;
+
 #[cfg(feature = "alloc")]
 mod receipt;
 
diff --git a/src/receipt/receipt_std.rs b/src/receipt/receipt_std.rs
index 2e09c74..220fe1d 100644
--- a/src/receipt/receipt_std.rs
+++ b/src/receipt/receipt_std.rs
@@ -1,4 +1,5 @@
 use super::{Receipt, ReceiptRepr};
+use crate::decode;
 
 use fuel_asm::InstructionResult;
 use fuel_types::bytes::{self, SizedBytes, WORD_SIZE};
@@ -269,7 +270,7 @@ impl io::Write for Receipt {
                 let (len, buf) = unsafe { bytes::restore_word_unchecked(buf) };
                 let (digest, buf) = unsafe { bytes::restore_array_unchecked(buf) };
 
-                let (count, data, buf) = bytes::restore_bytes(buf)?;
+                let (count, data, buf) = decode::restore_bytes(buf)?;
 
                 used_len += count;
                 if orig_buf_len < used_len {
@@ -329,7 +330,7 @@ impl io::Write for Receipt {
                 let (len, buf) = unsafe { bytes::restore_word_unchecked(buf) };
                 let (digest, buf) = unsafe { bytes::restore_array_unchecked(buf) };
 
-                let (count, data, buf) = bytes::restore_bytes(buf)?;
+                let (count, data, buf) = decode::restore_bytes(buf)?;
 
                 used_len += count;
                 if orig_buf_len < used_len {
@@ -392,7 +393,7 @@ impl io::Write for Receipt {
                 let (nonce, buf) = unsafe { bytes::restore_array_unchecked(buf) };
                 let (len, buf) = unsafe { bytes::restore_word_unchecked(buf) };
                 let (digest, buf) = unsafe { bytes::restore_array_unchecked(buf) };
-                let (count, data, _) = bytes::restore_bytes(buf)?;
+                let (count, data, _) = decode::restore_bytes(buf)?;
 
                 used_len += count;
                 if orig_buf_len < used_len {
diff --git a/src/transaction/types/input.rs b/src/transaction/types/input.rs
index 6c3562b..c2d51c0 100644
--- a/src/transaction/types/input.rs
+++ b/src/transaction/types/input.rs
@@ -6,6 +6,9 @@ use fuel_types::{Address, AssetId, Bytes32, ContractId, MessageId, Word};
 
 use core::mem;
 
+#[cfg(feature = "std")]
+use crate::decode;
+
 #[cfg(feature = "std")]
 use fuel_types::bytes::{Deserializable, SizedBytes, WORD_SIZE};
 
@@ -733,10 +736,10 @@ impl io::Write for Input {
                 let (predicate_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
                 let (predicate_data_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
 
-                let (size, predicate, buf) = bytes::restore_raw_bytes(buf, predicate_len)?;
+                let (size, predicate, buf) = decode::restore_raw_bytes(buf, predicate_len)?;
                 n += size;
 
-                let (size, predicate_data, _) = bytes::restore_raw_bytes(buf, predicate_data_len)?;
+                let (size, predicate_data, _) = decode::restore_raw_bytes(buf, predicate_data_len)?;
                 n += size;
 
                 let owner = owner.into();
@@ -817,13 +820,13 @@ impl io::Write for Input {
                 let (predicate_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
                 let (predicate_data_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
 
-                let (size, data, buf) = bytes::restore_raw_bytes(buf, data_len)?;
+                let (size, data, buf) = decode::restore_raw_bytes(buf, data_len)?;
                 n += size;
 
-                let (size, predicate, buf) = bytes::restore_raw_bytes(buf, predicate_len)?;
+                let (size, predicate, buf) = decode::restore_raw_bytes(buf, predicate_len)?;
                 n += size;
 
-                let (size, predicate_data, _) = bytes::restore_raw_bytes(buf, predicate_data_len)?;
+                let (size, predicate_data, _) = decode::restore_raw_bytes(buf, predicate_data_len)?;
                 n += size;
 
                 let message_id = message_id.into();
diff --git a/src/transaction/types/script.rs b/src/transaction/types/script.rs
index 666796d..d8bcc79 100644
--- a/src/transaction/types/script.rs
+++ b/src/transaction/types/script.rs
@@ -12,6 +12,9 @@ use derivative::Derivative;
 use fuel_types::bytes::{SizedBytes, WORD_SIZE};
 use fuel_types::{bytes, Bytes32, Word};
 
+#[cfg(feature = "std")]
+use crate::decode;
+
 #[cfg(feature = "std")]
 use std::io;
 
@@ -630,10 +633,10 @@ impl io::Write for Script {
 
         let receipts_root = receipts_root.into();
 
-        let (size, script, buf) = bytes::restore_raw_bytes(buf, script_len)?;
+        let (size, script, buf) = decode::restore_raw_bytes(buf, script_len)?;
         n += size;
 
-        let (size, script_data, mut buf) = bytes::restore_raw_bytes(buf, script_data_len)?;
+        let (size, script_data, mut buf) = decode::restore_raw_bytes(buf, script_data_len)?;
         n += size;
 
         let mut inputs = vec![Input::default(); inputs_len];
diff --git a/src/transaction/types/witness.rs b/src/transaction/types/witness.rs
index e7b5211..37a859c 100644
--- a/src/transaction/types/witness.rs
+++ b/src/transaction/types/witness.rs
@@ -8,6 +8,9 @@ use rand::{
 
 use alloc::vec::Vec;
 
+#[cfg(feature = "std")]
+use crate::decode;
+
 #[cfg(feature = "std")]
 use std::io;
 
@@ -89,7 +92,7 @@ impl io::Read for Witness {
 #[cfg(feature = "std")]
 impl io::Write for Witness {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
-        bytes::restore_bytes(buf).map(|(n, data, _)| {
+        decode::restore_bytes(buf).map(|(n, data, _)| {
             self.data = data;
             n
         })
-- 
2.43.0


From 6180c983932974ec9c2edd5eacaef0e587ae405f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:11 +0000
Subject: [PATCH 2/6] fix: do not trust declared element counts when decoding
 transactions

A count word was used as a vector length before any element was read, so a
short input could panic with a capacity overflow or allocate without bound.
---
 src/decode.rs                   | 23 ++++++++++++++++++++
 src/transaction/types/create.rs | 37 +++++++++++----------------------
 src/transaction/types/mint.rs   | 13 ++++++------
 src/transaction/types/script.rs | 26 +++++++----------------
 4 files changed, 48 insertions(+), 51 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index 8b6c06b..b45fc49 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -25,3 +25,26 @@ pub(crate) fn restore_bytes(buf: &[u8]) -> io::Result<(usize, Vec<u8>, &[u8])> {
 
     bytes::restore_bytes(buf)
 }
+
+/// Decode `len` consecutive elements. The memory used is bounded by the bytes really present, not by
+/// the declared `len`.
+///
+/// Return the consumed bytes, the elements and the remainder of the buffer.
+pub(crate) fn restore_elements<T>(mut buf: &[u8], len: usize) -> io::Result<(usize, Vec<T>, &[u8])>
+where
+    T: Default + io::Write,
+{
+    let mut n = 0;
+    let mut elements = Vec::new();
+
+    for _ in 0..len {
+        let mut element = T::default();
+        let size = element.write(buf)?;
+
+        buf = &buf[size..];
+        n += size;
+        elements.push(element);
+    }
+
+    Ok((n, elements, buf))
+}
diff --git a/src/transaction/types/create.rs b/src/transaction/types/create.rs
index c6a2001..251710a 100644
--- a/src/transaction/types/create.rs
+++ b/src/transaction/types/create.rs
@@ -13,6 +13,9 @@ use derivative::Derivative;
 use fuel_types::bytes::{SizedBytes, WORD_SIZE};
 use fuel_types::{bytes, AssetId, Salt, Word};
 
+#[cfg(feature = "std")]
+use crate::decode;
+
 #[cfg(feature = "std")]
 use std::io;
 
@@ -641,37 +644,21 @@ impl io::Write for Create {
         let (inputs_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
         let (outputs_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
         let (witnesses_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
-        let (salt, mut buf) = unsafe { bytes::restore_array_unchecked(buf) };
+        let (salt, buf) = unsafe { bytes::restore_array_unchecked(buf) };
 
         let salt = salt.into();
 
-        let mut storage_slots = vec![StorageSlot::default(); storage_slots_len as usize];
-        n += StorageSlot::SLOT_SIZE * storage_slots_len as usize;
-        for storage_slot in storage_slots.iter_mut() {
-            let _ = storage_slot.write(buf)?;
-            buf = &buf[StorageSlot::SLOT_SIZE..];
-        }
+        let (size, storage_slots, buf) = decode::restore_elements(buf, storage_slots_len as usize)?;
+        n += size;
 
-        let mut inputs = vec![Input::default(); inputs_len];
-        for input in inputs.iter_mut() {
-            let input_len = input.write(buf)?;
-            buf = &buf[input_len..];
-            n += input_len;
-        }
+        let (size, inputs, buf) = decode::restore_elements(buf, inputs_len)?;
+        n += size;
 
-        let mut outputs = vec![Output::default(); outputs_len];
-        for output in outputs.iter_mut() {
-            let output_len = output.write(buf)?;
-            buf = &buf[output_len..];
-            n += output_len;
-        }
+        let (size, outputs, buf) = decode::restore_elements(buf, outputs_len)?;
+        n += size;
 
-        let mut witnesses = vec![Witness::default(); witnesses_len];
-        for witness in witnesses.iter_mut() {
-            let witness_len = witness.write(buf)?;
-            buf = &buf[witness_len..];
-            n += witness_len;
-        }
+        let (size, witnesses, _) = decode::restore_elements(buf, witnesses_len)?;
+        n += size;
 
         *self = Create {
             gas_price,
diff --git a/src/transaction/types/mint.rs b/src/transaction/types/mint.rs
index f52861a..5689519 100644
--- a/src/transaction/types/mint.rs
+++ b/src/transaction/types/mint.rs
@@ -7,6 +7,9 @@ use derivative::Derivative;
 use fuel_types::bytes::{SizedBytes, WORD_SIZE};
 use fuel_types::{Bytes32, Word};
 
+#[cfg(feature = "std")]
+use crate::decode;
+
 #[cfg(feature = "std")]
 use std::io;
 
@@ -285,14 +288,10 @@ impl io::Write for Mint {
         // Safety: buffer size is checked
         let tx_pointer = TxPointer::from_bytes(buf)?;
         let buf = &buf[tx_pointer.serialized_size()..];
-        let (outputs_len, mut buf) = unsafe { bytes::restore_usize_unchecked(buf) };
+        let (outputs_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
 
-        let mut outputs = vec![Output::default(); outputs_len];
-        for output in outputs.iter_mut() {
-            let output_len = output.write(buf)?;
-            buf = &buf[output_len..];
-            n += output_len;
-        }
+        let (size, outputs, _) = decode::restore_elements(buf, outputs_len)?;
+        n += size;
 
         *self = Mint {
             tx_pointer,
diff --git a/src/transaction/types/script.rs b/src/transaction/types/script.rs
index d8bcc79..5b0ad1f 100644
--- a/src/transaction/types/script.rs
+++ b/src/transaction/types/script.rs
@@ -636,29 +636,17 @@ impl io::Write for Script {
         let (size, script, buf) = decode::restore_raw_bytes(buf, script_len)?;
         n += size;
 
-        let (size, script_data, mut buf) = decode::restore_raw_bytes(buf, script_data_len)?;
+        let (size, script_data, buf) = decode::restore_raw_bytes(buf, script_data_len)?;
         n += size;
 
-        let mut inputs = vec![Input::default(); inputs_len];
-        for input in inputs.iter_mut() {
-            let input_len = input.write(buf)?;
-            buf = &buf[input_len..];
-            n += input_len;
-        }
+        let (size, inputs, buf) = decode::restore_elements(buf, inputs_len)?;
+        n += size;
 
-        let mut outputs = vec![Output::default(); outputs_len];
-        for output in outputs.iter_mut() {
-            let output_len = output.write(buf)?;
-            buf = &buf[output_len..];
-            n += output_len;
-        }
+        let (size, outputs, buf) = decode::restore_elements(buf, outputs_len)?;
+        n += size;
 
-        let mut witnesses = vec![Witness::default(); witnesses_len];
-        for witness in witnesses.iter_mut() {
-            let witness_len = witness.write(buf)?;
-            buf = &buf[witness_len..];
-            n += witness_len;
-        }
+        let (size, witnesses, _) = decode::restore_elements(buf, witnesses_len)?;
+        n += size;
 
         *self = Script {
             gas_price,
-- 
2.43.0


From b75dc3ba3773004a0d095c00a4eb45e9a2adb6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:17 +0000
Subject: [PATCH 3/6] fix: decode the full count of storage slots

The count is encoded as a 64-bit word but was decoded as 16 bits, so a create
transaction with 65536 or more slots did not survive the round trip.
---
 src/transaction/types/create.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transaction/types/create.rs b/src/transaction/types/create.rs
index 251710a..3e52754 100644
--- a/src/transaction/types/create.rs
+++ b/src/transaction/types/create.rs
@@ -640,7 +640,7 @@ impl io::Write for Create {
         let (maturity, buf) = unsafe { bytes::restore_number_unchecked(buf) };
         let (bytecode_length, buf) = unsafe { bytes::restore_number_unchecked(buf) };
         let (bytecode_witness_index, buf) = unsafe { bytes::restore_u8_unchecked(buf) };
-        let (storage_slots_len, buf) = unsafe { bytes::restore_u16_unchecked(buf) };
+        let (storage_slots_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
         let (inputs_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
         let (outputs_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
         let (witnesses_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
@@ -648,7 +648,7 @@ impl io::Write for Create {
 
         let salt = salt.into();
 
-        let (size, storage_slots, buf) = decode::restore_elements(buf, storage_slots_len as usize)?;
+        let (size, storage_slots, buf) = decode::restore_elements(buf, storage_slots_len)?;
         n += size;
 
         let (size, inputs, buf) = decode::restore_elements(buf, inputs_len)?;
-- 
2.43.0


From 5196f9d3dcf72165ac2cc5037baa0d7e4b886012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:24 +0000
Subject: [PATCH 4/6] fix: zero the unused bytes of serialized receipts

ScriptResult and MessageOut receipts don't use all of their serialized size and
left the previous content of the buffer in the bytes reported as written.
---
 src/receipt/receipt_std.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/receipt/receipt_std.rs b/src/receipt/receipt_std.rs
index 220fe1d..1a41a40 100644
--- a/src/receipt/receipt_std.rs
+++ b/src/receipt/receipt_std.rs
@@ -16,6 +16,9 @@ impl io::Read for Receipt {
             return Err(bytes::eof());
         }
 
+        // Some variants don't use all of their serialized size
+        buf[..len].fill(0);
+
         match self {
             Self::Call {
                 id,
-- 
2.43.0


From 62e5b65eaca7e3bb33c1be46d2ade3a5be33006c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:22 +0000
Subject: [PATCH 5/6] fix: reject malformed text when parsing UTXO ids and
 transaction pointers

Multi-byte characters panicked on a char boundary, and signs, repeated
prefixes and overlong ids were accepted.
---
 src/transaction/types/utxo_id.rs | 8 +++++++-
 src/tx_pointer.rs                | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/transaction/types/utxo_id.rs b/src/transaction/types/utxo_id.rs
index c4c89b3..06f2641 100644
--- a/src/transaction/types/utxo_id.rs
+++ b/src/transaction/types/utxo_id.rs
@@ -84,7 +84,13 @@ impl str::FromStr for UtxoId {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         const ERR: &str = "Invalid encoded byte";
-        let s = s.trim_start_matches("0x");
+        const FULL_LEN: usize = 2 * (TxId::LEN + 1);
+
+        let s = s.strip_prefix("0x").unwrap_or(s);
+        if !s.bytes().all(|b| b.is_ascii_hexdigit()) || (s.len() > 2 && s.len() != FULL_LEN) {
+            return Err(ERR);
+        }
+
         let utxo_id = if s.is_empty() {
             UtxoId::new(Bytes32::default(), 0)
         } else if s.len() > 2 {
diff --git a/src/tx_pointer.rs b/src/tx_pointer.rs
index b0d66bf..9b58dad 100644
--- a/src/tx_pointer.rs
+++ b/src/tx_pointer.rs
@@ -68,7 +68,7 @@ impl str::FromStr for TxPointer {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         const ERR: &str = "Invalid encoded byte";
 
-        if s.len() != 12 {
+        if s.len() != 12 || !s.bytes().all(|b| b.is_ascii_hexdigit()) {
             return Err(ERR);
         }
 
-- 
2.43.0


From 59bc026f39f069aedc26a94efc31ace525009a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:28 +0000
Subject: [PATCH 6/6] fix: report an overflow of the inputs of an asset instead
 of wrapping

The amounts of the inputs were summed unchecked, so a sum above 64 bits
panicked or, without overflow checks, wrapped to a small free balance.
---
 src/checked_transaction.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/checked_transaction.rs b/src/checked_transaction.rs
index 3a8ef7d..21b589e 100644
--- a/src/checked_transaction.rs
+++ b/src/checked_transaction.rs
@@ -312,7 +312,10 @@ where
         }
         _ => None,
     }) {
-        *balances.entry(asset_id).or_default() += amount;
+        let balance = balances.entry(asset_id).or_default();
+        *balance = balance
+            .checked_add(*amount)
+            .ok_or(CheckError::ArithmeticOverflow)?;
     }
 
     // Deduct fee from base asset
-- 
2.43.0

