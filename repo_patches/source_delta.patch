From 4b759e8055acf2499cba06d8c553f1ae999b04c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:04 +0000
Subject: [PATCH 1/4] fix: keep all words of u64 bit sequences on 32-bit
 targets

The last 64-bit chunk lost one of its halves when the other half was zero,
whatever the bit length: the bits came out shifted (Msb0) or the final
split_off panicked (Lsb0).
---
 src/decoding_sci.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/decoding_sci.rs b/src/decoding_sci.rs
index e1ad394..7c081c3 100644
--- a/src/decoding_sci.rs
+++ b/src/decoding_sci.rs
@@ -1076,7 +1076,7 @@ macro_rules! impl_patched {
 #[cfg(any(target_pointer_width = "32", test))]
 fn reform_vec_lsb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
     let mut data_reformed: Vec<u32> = Vec::new();
-    for (i, element) in data_chunked.iter().enumerate() {
+    for element in data_chunked.iter() {
         let new_element1 = u32::from_le_bytes(
             element[..BYTES_PER_ELEMENT_U32]
                 .try_into()
@@ -1088,9 +1088,7 @@ fn reform_vec_lsb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
                 .expect("constant size slice, always fits"),
         );
         data_reformed.push(new_element1);
-        if (new_element1 != 0) || (i != data_chunked.len() - 1) {
-            data_reformed.push(new_element2)
-        }
+        data_reformed.push(new_element2);
     }
     data_reformed
 }
@@ -1099,7 +1097,7 @@ fn reform_vec_lsb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
 #[cfg(any(target_pointer_width = "32", test))]
 fn reform_vec_msb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
     let mut data_reformed: Vec<u32> = Vec::new();
-    for (i, x) in data_chunked.iter().enumerate() {
+    for x in data_chunked.iter() {
         let number = u64::from_le_bytes(*x);
         let element = number.to_be_bytes();
         let new_element1 = u32::from_be_bytes(
@@ -1112,9 +1110,7 @@ fn reform_vec_msb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
                 .try_into()
                 .expect("constant size slice, always fits"),
         );
-        if (new_element1 != 0) || (i != data_chunked.len() - 1) {
-            data_reformed.push(new_element1)
-        }
+        data_reformed.push(new_element1);
         data_reformed.push(new_element2);
     }
     data_reformed
-- 
2.43.0


From 6ca8172d61bac0d25163eb64fbb62b0d681c288d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:14 +0000
Subject: [PATCH 2/4] fix: no overflow of positions on 32-bit targets

A string, call or extrinsic length near u32::MAX added to its position
overflowed usize: a panic where overflow checks are on.
---
 src/decoding_sci.rs        | 11 ++++++++---
 src/lib.rs                 |  4 ++++
 src/unchecked_extrinsic.rs |  7 ++++---
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/decoding_sci.rs b/src/decoding_sci.rs
index 7c081c3..967c5ea 100644
--- a/src/decoding_sci.rs
+++ b/src/decoding_sci.rs
@@ -2,9 +2,7 @@
 #[cfg(any(target_pointer_width = "32", test))]
 use bitvec::prelude::BitOrder;
 use bitvec::prelude::{BitVec, Lsb0, Msb0};
-#[cfg(any(target_pointer_width = "32", test))]
-use external_memory_tools::BufferError;
-use external_memory_tools::{AddressableBuffer, ExternalMemory};
+use external_memory_tools::{AddressableBuffer, BufferError, ExternalMemory};
 use num_bigint::{BigInt, BigUint};
 use parity_scale_codec::DecodeAll;
 use primitive_types::{H160, H512};
@@ -133,6 +131,13 @@ where
     let found_compact = find_compact::<u32, B, E>(data, ext_memory, *position)?;
     let str_length = found_compact.compact as usize;
     let text_start = found_compact.start_next_unit;
+    // also keeps the end position within `usize`
+    if str_length > data.total_len().saturating_sub(text_start) {
+        return Err(ParserError::Buffer(BufferError::DataTooShort {
+            position: text_start,
+            minimal_length: str_length,
+        }));
+    }
     let into_string = data.read_slice(ext_memory, text_start, str_length)?;
     let text = match String::from_utf8(into_string.as_ref().to_vec()) {
         Ok(b) => b,
diff --git a/src/lib.rs b/src/lib.rs
index b74f580..17ddb16 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -581,6 +581,10 @@ where
         let mut call_start: usize = 0;
         let call_length = get_compact::<u32, B, E>(data, ext_memory, &mut call_start)
             .map_err(|_| SignableError::CutSignable)? as usize;
+        // also keeps the end position within `usize`
+        if call_length > data.total_len().saturating_sub(call_start) {
+            return Err(SignableError::CutSignable);
+        }
         let extensions_start = call_start + call_length;
         match data.read_slice(ext_memory, call_start, call_length) {
             Ok(_) => Ok(Self {
diff --git a/src/unchecked_extrinsic.rs b/src/unchecked_extrinsic.rs
index d55d0a9..415ef48 100644
--- a/src/unchecked_extrinsic.rs
+++ b/src/unchecked_extrinsic.rs
@@ -90,19 +90,20 @@ where
     let extrinsic_length = get_compact::<u32, B, E>(input, ext_memory, &mut extrinsic_start)
         .map_err(|_| UncheckedExtrinsicError::FormatNoCompact)? as usize;
     let len = input.total_len();
-    match (extrinsic_start + extrinsic_length).cmp(&len) {
+    let extrinsic_end = extrinsic_start.saturating_add(extrinsic_length);
+    match extrinsic_end.cmp(&len) {
         Ordering::Greater => {
             return Err(UncheckedExtrinsicError::Parsing(ParserError::Buffer(
                 BufferError::DataTooShort {
                     position: len,
-                    minimal_length: extrinsic_start + extrinsic_length - len,
+                    minimal_length: extrinsic_end - len,
                 },
             )))
         }
         Ordering::Less => {
             return Err(UncheckedExtrinsicError::Parsing(
                 ParserError::SomeDataNotUsedBlob {
-                    from: extrinsic_start + extrinsic_length,
+                    from: extrinsic_end,
                 },
             ))
         }
-- 
2.43.0


From df0ece41b61b51ae15120860d4ab706322e45dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:11 +0000
Subject: [PATCH 3/4] fix: storage key hash check reports failing external
 memory instead of panicking

---
 src/storage_data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage_data.rs b/src/storage_data.rs
index 4f35a76..adb1f37 100644
--- a/src/storage_data.rs
+++ b/src/storage_data.rs
@@ -268,7 +268,7 @@ macro_rules! check_hash {
                             position_decoder_starts,
                             *position - position_decoder_starts,
                         )
-                        .expect("positions checked, valid slice")
+                        .map_err(|e| StorageError::ParsingKey(ParserError::Buffer(e)))?
                         .as_ref(),
                 )
             {
-- 
2.43.0


From c4232da1013e94b78029cd0163069d5727581b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:42 +0000
Subject: [PATCH 4/4] fix: report failing external memory while reading u64 bit
 sequences on 32-bit targets

---
 src/decoding_sci.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decoding_sci.rs b/src/decoding_sci.rs
index 967c5ea..f67233d 100644
--- a/src/decoding_sci.rs
+++ b/src/decoding_sci.rs
@@ -1050,6 +1050,9 @@ macro_rules! impl_patched {
                                     .try_into()
                                     .expect("constant size slice, always fits"),
                             ),
+                            Err(BufferError::External(e)) => {
+                                return Err(ParserError::Buffer(BufferError::External(e)))
+                            }
                             Err(_) => {
                                 return Err(ParserError::Buffer(
                                 BufferError::DataTooShort {
-- 
2.43.0

