From fe2ab44b03ec897896cc6be3d3ef470acf6df4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:43 +0000
Subject: [PATCH 01/19] fix: encode lists with list constructors

List was written with the array codes, which nothing reads back as a list.
---
 src/codec/encode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codec/encode.rs b/src/codec/encode.rs
index 76be9ac..b15d747 100644
--- a/src/codec/encode.rs
+++ b/src/codec/encode.rs
@@ -611,11 +611,11 @@ impl Encode for List {
     fn encode(&self, buf: &mut BytesMut) {
         let size = list_encoded_size(self);
         if size + 1 > u8::MAX as usize {
-            buf.put_u8(codec::FORMATCODE_ARRAY32);
+            buf.put_u8(codec::FORMATCODE_LIST32);
             buf.put_u32_be((size + 4) as u32); // +4 for 4 byte count that follow
             buf.put_u32_be(self.len() as u32);
         } else {
-            buf.put_u8(codec::FORMATCODE_ARRAY8);
+            buf.put_u8(codec::FORMATCODE_LIST8);
             buf.put_u8((size + 1) as u8); // +1 for 1 byte count that follow
             buf.put_u8(self.len() as u8);
         }
-- 
2.43.0


From 08d37d5197754e01bd74e27f190b550f7c376bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:43 +0000
Subject: [PATCH 02/19] fix: accept the ulong0 encoding of a descriptor

It is what Descriptor::Ulong(0) is encoded as.
---
 src/codec/decode.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index ac419d8..afaf750 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -446,6 +446,9 @@ impl DecodeFormatted for Descriptor {
             codec::FORMATCODE_SMALLULONG => {
                 u64::decode_with_format(input, fmt).map(|(i, o)| (i, Descriptor::Ulong(o)))
             }
+            codec::FORMATCODE_ULONG_0 => {
+                u64::decode_with_format(input, fmt).map(|(i, o)| (i, Descriptor::Ulong(o)))
+            }
             codec::FORMATCODE_ULONG => {
                 u64::decode_with_format(input, fmt).map(|(i, o)| (i, Descriptor::Ulong(o)))
             }
-- 
2.43.0


From a2b4660b4af779df4512fd458fb877e404fddde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:43 +0000
Subject: [PATCH 03/19] fix: use array32 when an array of 254 bytes does not
 fit array8

The size byte covers the count and the item constructor too; at 254 bytes of
items it wrapped to 0.
---
 src/codec/encode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codec/encode.rs b/src/codec/encode.rs
index b15d747..6684f8d 100644
--- a/src/codec/encode.rs
+++ b/src/codec/encode.rs
@@ -545,7 +545,7 @@ impl<T: ArrayEncode> Encode for Vec<T> {
     fn encoded_size(&self) -> usize {
         let content_size = array_encoded_size(self);
         // format_code + size + count + item constructor -- todo: support described ctor?
-        (if content_size + 1 > u8::MAX as usize {
+        (if content_size + 2 > u8::MAX as usize {
             10
         } else {
             4
@@ -555,7 +555,7 @@ impl<T: ArrayEncode> Encode for Vec<T> {
 
     fn encode(&self, buf: &mut BytesMut) {
         let size = array_encoded_size(self);
-        if size + 1 > u8::MAX as usize {
+        if size + 2 > u8::MAX as usize {
             buf.put_u8(codec::FORMATCODE_ARRAY32);
             buf.put_u32_be((size + 5) as u32); // +4 for 4 byte count and 1 byte item ctor that follow
             buf.put_u32_be(self.len() as u32);
-- 
2.43.0


From 018b1b623d897138ac366d64cd03fa914582694d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:43 +0000
Subject: [PATCH 04/19] fix: reject compound sizes too small to hold the count

The subtraction overflowed.
---
 src/codec/decode.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index afaf750..644c88f 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -534,7 +534,10 @@ pub(crate) fn decode_map_header(
 
 fn decode_compound8(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseError> {
     decode_check_len!(input, 2);
-    let size = input[0] - 1; // -1 for 1 byte count
+    let size = match input[0].checked_sub(1) {
+        Some(size) => size, // -1 for 1 byte count
+        None => return Err(AmqpParseError::InvalidSize),
+    };
     let count = input[1];
     Ok((
         &input[2..],
@@ -547,7 +550,10 @@ fn decode_compound8(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseEr
 
 fn decode_compound32(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseError> {
     decode_check_len!(input, 8);
-    let size = BigEndian::read_u32(input) - 4; // -4 for 4 byte count
+    let size = match BigEndian::read_u32(input).checked_sub(4) {
+        Some(size) => size, // -4 for 4 byte count
+        None => return Err(AmqpParseError::InvalidSize),
+    };
     let count = BigEndian::read_u32(&input[4..]);
     Ok((&input[8..], CompoundHeader { size, count }))
 }
-- 
2.43.0


From 716d45ca58c889ff03e85052543fd8f2981c1399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:43 +0000
Subject: [PATCH 05/19] fix: report a map whose size is beyond the input as
 incomplete

Slicing panicked.
---
 src/codec/decode.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index 644c88f..dde1d0f 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -253,7 +253,9 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
 {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         let (input, header) = decode_map_header(input, fmt)?;
-        let mut map_input = &input[..header.size as usize];
+        let size = header.size as usize;
+        decode_check_len!(input, size);
+        let (mut map_input, remainder) = input.split_at(size);
         let count = header.count / 2;
         let mut map: HashMap<K, V, S> =
             HashMap::with_capacity_and_hasher(count as usize, Default::default());
@@ -264,7 +266,7 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
             map.insert(key, value); // todo: ensure None returned?
         }
         // todo: validate map_input is empty
-        Ok((&input[header.size as usize..], map))
+        Ok((remainder, map))
     }
 }
 
@@ -286,7 +288,9 @@ impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
 impl DecodeFormatted for VecVariantMap {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         let (input, header) = decode_map_header(input, fmt)?;
-        let mut map_input = &input[..header.size as usize];
+        let size = header.size as usize;
+        decode_check_len!(input, size);
+        let (mut map_input, remainder) = input.split_at(size);
         let count = header.count / 2;
         let mut map = Vec::with_capacity(count as usize);
         for _ in 0..count {
@@ -296,7 +300,7 @@ impl DecodeFormatted for VecVariantMap {
             map.push((key, value)); // todo: ensure None returned?
         }
         // todo: validate map_input is empty
-        Ok((&input[header.size as usize..], VecVariantMap(map)))
+        Ok((remainder, VecVariantMap(map)))
     }
 }
 
-- 
2.43.0


From 92fdf6efee5b6e883229eaed0c6871a5b345c773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:43 +0000
Subject: [PATCH 06/19] fix: keep list and array items inside the declared size

Items were read beyond it, and an array without an item constructor panicked.
---
 src/codec/decode.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index dde1d0f..d78f8f4 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -273,15 +273,17 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
 impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         let (input, header) = decode_array_header(input, fmt)?;
-        let item_fmt = input[0]; // todo: support descriptor
-        let mut input = &input[1..];
+        let size = header.size as usize;
+        decode_check_len!(input, size);
+        let (input, remainder) = input.split_at(size);
+        let (mut input, item_fmt) = codec::decode_format_code(input)?; // todo: support descriptor
         let mut result: Vec<T> = Vec::with_capacity(header.count as usize);
         for _ in 0..header.count {
             let (new_input, decoded) = T::decode_with_format(input, item_fmt)?;
             result.push(decoded);
             input = new_input;
         }
-        Ok((input, result))
+        Ok((remainder, result))
     }
 }
 
@@ -321,14 +323,17 @@ impl<T: ArrayDecode + DecodeFormatted> DecodeFormatted for Multiple<T> {
 
 impl DecodeFormatted for List {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
-        let (mut input, header) = decode_list_header(input, fmt)?;
+        let (input, header) = decode_list_header(input, fmt)?;
+        let size = header.size as usize;
+        decode_check_len!(input, size);
+        let (mut input, remainder) = input.split_at(size);
         let mut result: Vec<Variant> = Vec::with_capacity(header.count as usize);
         for _ in 0..header.count {
             let (new_input, decoded) = Variant::decode(input)?;
             result.push(decoded);
             input = new_input;
         }
-        Ok((input, List(result)))
+        Ok((remainder, List(result)))
     }
 }
 
-- 
2.43.0


From ef82a06caafc19279be28b396324b216516d48c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:43 +0000
Subject: [PATCH 07/19] fix: do not reserve memory for a claimed number of
 items

A count from the wire was used as a capacity as it is: a few bytes could ask for
gigabytes.
---
 src/codec/decode.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index d78f8f4..fdd5268 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -258,7 +258,7 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
         let (mut map_input, remainder) = input.split_at(size);
         let count = header.count / 2;
         let mut map: HashMap<K, V, S> =
-            HashMap::with_capacity_and_hasher(count as usize, Default::default());
+            HashMap::with_capacity_and_hasher(capacity_for(count), Default::default());
         for _ in 0..count {
             let (input1, key) = K::decode(map_input)?;
             let (input2, value) = V::decode(input1)?;
@@ -277,7 +277,7 @@ impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
         decode_check_len!(input, size);
         let (input, remainder) = input.split_at(size);
         let (mut input, item_fmt) = codec::decode_format_code(input)?; // todo: support descriptor
-        let mut result: Vec<T> = Vec::with_capacity(header.count as usize);
+        let mut result: Vec<T> = Vec::with_capacity(capacity_for(header.count));
         for _ in 0..header.count {
             let (new_input, decoded) = T::decode_with_format(input, item_fmt)?;
             result.push(decoded);
@@ -294,7 +294,7 @@ impl DecodeFormatted for VecVariantMap {
         decode_check_len!(input, size);
         let (mut map_input, remainder) = input.split_at(size);
         let count = header.count / 2;
-        let mut map = Vec::with_capacity(count as usize);
+        let mut map = Vec::with_capacity(capacity_for(count));
         for _ in 0..count {
             let (input1, key) = Str::decode(map_input)?;
             let (input2, value) = Variant::decode(input1)?;
@@ -327,7 +327,7 @@ impl DecodeFormatted for List {
         let size = header.size as usize;
         decode_check_len!(input, size);
         let (mut input, remainder) = input.split_at(size);
-        let mut result: Vec<Variant> = Vec::with_capacity(header.count as usize);
+        let mut result: Vec<Variant> = Vec::with_capacity(capacity_for(header.count));
         for _ in 0..header.count {
             let (new_input, decoded) = Variant::decode(input)?;
             result.push(decoded);
@@ -510,6 +510,15 @@ fn decode_frame_header(
     Ok((input, channel_id))
 }
 
+/// Most items to reserve memory for before they have been seen.
+const MAX_RESERVED_ITEMS: u32 = 16;
+
+/// Capacity to start with for a number of items that is only claimed so far. Compounds nest, so
+/// this has to stay small even if the input is long.
+fn capacity_for(count: u32) -> usize {
+    std::cmp::min(count, MAX_RESERVED_ITEMS) as usize
+}
+
 fn decode_array_header(input: &[u8], fmt: u8) -> Result<(&[u8], CompoundHeader), AmqpParseError> {
     match fmt {
         codec::FORMATCODE_ARRAY8 => decode_compound8(input),
-- 
2.43.0


From 766d9ade20326e01bc262d53ab1084372da9fd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:00 +0000
Subject: [PATCH 08/19] fix: bound the number of array items that take no bytes

An array of uint0, ulong0, true, false or list0 could claim 2^32 - 1 items in ten
bytes and have them all built.
---
 src/codec/decode.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index fdd5268..e05ca8f 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -280,6 +280,10 @@ impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
         let mut result: Vec<T> = Vec::with_capacity(capacity_for(header.count));
         for _ in 0..header.count {
             let (new_input, decoded) = T::decode_with_format(input, item_fmt)?;
+            // items of no width do not run out, the count alone must not decide on memory
+            if new_input.len() == input.len() && result.len() >= MAX_EMPTY_ITEMS {
+                return Err(AmqpParseError::InvalidSize);
+            }
             result.push(decoded);
             input = new_input;
         }
@@ -510,6 +514,9 @@ fn decode_frame_header(
     Ok((input, channel_id))
 }
 
+/// Most array items to accept that take no bytes, e.g. of uint0.
+const MAX_EMPTY_ITEMS: usize = 1024;
+
 /// Most items to reserve memory for before they have been seen.
 const MAX_RESERVED_ITEMS: u32 = 16;
 
-- 
2.43.0


From 0dd0d3a9d300a6616e224de84a8d3b8bec3693ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:00 +0000
Subject: [PATCH 09/19] fix: limit how deep values can be nested

Decoding recurses for every level, so that a frame of a few kilobytes could
overflow the stack.
---
 src/codec/decode.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index e05ca8f..75d16d7 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -1,3 +1,4 @@
+use std::cell::Cell;
 use std::hash::{BuildHasher, Hash};
 use std::{char, str, u8};
 
@@ -341,8 +342,37 @@ impl DecodeFormatted for List {
     }
 }
 
+/// How deep compound and described values may be nested in each other.
+const MAX_DEPTH: usize = 128;
+
+thread_local! {
+    static DEPTH: Cell<usize> = Cell::new(0);
+}
+
+/// Counts the levels of nesting being decoded.
+struct Level;
+
+impl Level {
+    fn enter() -> Result<Level, AmqpParseError> {
+        DEPTH.with(|depth| {
+            if depth.get() >= MAX_DEPTH {
+                return Err(AmqpParseError::InvalidSize);
+            }
+            depth.set(depth.get() + 1);
+            Ok(Level)
+        })
+    }
+}
+
+impl Drop for Level {
+    fn drop(&mut self) {
+        DEPTH.with(|depth| depth.set(depth.get() - 1));
+    }
+}
+
 impl DecodeFormatted for Variant {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
+        let _level = Level::enter()?;
         match fmt {
             codec::FORMATCODE_NULL => Ok((input, Variant::Null)),
             codec::FORMATCODE_BOOLEAN => {
-- 
2.43.0


From 7ee375cf5a153518e6837901553e98128e3ad013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:00 +0000
Subject: [PATCH 10/19] fix: decode timestamps before 1970, and report those
 out of range

Whole seconds before 1970 became a second of 1000 ms, the last second before 1970
came out after it, and counts beyond what DateTime can hold panicked.
---
 src/codec/decode.rs | 20 +++++++-------------
 src/errors.rs       |  2 ++
 2 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index 75d16d7..4216e7b 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -171,7 +171,9 @@ impl DecodeFormatted for char {
 impl DecodeFormatted for DateTime<Utc> {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         validate_code!(fmt, codec::FORMATCODE_TIMESTAMP);
-        be_read!(input, read_i64, 8).map(|(i, o)| (i, datetime_from_millis(o)))
+        let result: Result<(&[u8], i64), AmqpParseError> = be_read!(input, read_i64, 8);
+        let (i, o) = result?;
+        Ok((i, datetime_from_millis(o)?))
     }
 }
 
@@ -613,18 +615,10 @@ fn decode_compound32(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseE
     Ok((&input[8..], CompoundHeader { size, count }))
 }
 
-fn datetime_from_millis(millis: i64) -> DateTime<Utc> {
-    let seconds = millis / 1000;
-    if seconds < 0 {
-        // In order to handle time before 1970 correctly, we need to subtract a second
-        // and use the nanoseconds field to add it back. This is a result of the nanoseconds
-        // parameter being u32
-        let nanoseconds = ((1000 + (millis - (seconds * 1000))) * 1_000_000).abs() as u32;
-        Utc.timestamp(seconds - 1, nanoseconds)
-    } else {
-        let nanoseconds = ((millis - (seconds * 1000)) * 1_000_000).abs() as u32;
-        Utc.timestamp(seconds, nanoseconds)
-    }
+fn datetime_from_millis(millis: i64) -> Result<DateTime<Utc>, AmqpParseError> {
+    Utc.timestamp_millis_opt(millis)
+        .single()
+        .ok_or_else(|| AmqpParseError::InvalidTimestamp(millis))
 }
 
 #[cfg(test)]
diff --git a/src/errors.rs b/src/errors.rs
index 1d7ff3b..e2680c3 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -13,6 +13,8 @@ pub enum AmqpParseError {
     InvalidFormatCode(u8),
     #[display(fmt = "Invalid value converting to char: {}", "_0")]
     InvalidChar(u32),
+    #[display(fmt = "Timestamp is out of range: {}", "_0")]
+    InvalidTimestamp(i64),
     #[display(fmt = "Unexpected descriptor: '{:?}'", "_0")]
     InvalidDescriptor(Descriptor),
     #[display(fmt = "Unexpected frame type: '{:?}'", "_0")]
-- 
2.43.0


From 4bfc12b4971b3af47951cc4ea1d745a11ec5e485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:00 +0000
Subject: [PATCH 11/19] fix: reject frames shorter than their header

A size below 4 overflowed, and one below 8 was taken for a frame.
---
 src/io.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io.rs b/src/io.rs
index aeeaa70..d57513b 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -3,7 +3,7 @@ use std::marker::PhantomData;
 use bytes::{BigEndian, BufMut, ByteOrder, BytesMut};
 use tokio_io::codec::{Decoder, Encoder};
 
-use super::errors::{AmqpCodecError, ProtocolIdError};
+use super::errors::{AmqpCodecError, AmqpParseError, ProtocolIdError};
 use super::framing::HEADER_LEN;
 use crate::codec::{Decode, Encode};
 use crate::protocol::ProtocolId;
@@ -50,6 +50,9 @@ impl<T: Decode + Encode> Decoder for AmqpCodec<T> {
                         return Ok(None);
                     }
                     let size = BigEndian::read_u32(src.as_ref()) as usize;
+                    if size < HEADER_LEN {
+                        return Err(AmqpParseError::InvalidSize.into());
+                    }
 
                     // todo: max frame size check
                     self.state = DecodeState::Frame(size - 4);
-- 
2.43.0


From 0b5c80db18b516f96553a2ea51e7d95f56fa10e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:00 +0000
Subject: [PATCH 12/19] fix: go on with the next frame after one that does not
 decode

The decoder kept waiting for a body of the same size, and took the following
frame's length for its content.
---
 src/io.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io.rs b/src/io.rs
index d57513b..480fd67 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -72,12 +72,13 @@ impl<T: Decode + Encode> Decoder for AmqpCodec<T> {
                     }
 
                     let frame_buf = src.split_to(size);
+                    // this frame is done with, whatever it holds
+                    self.state = DecodeState::FrameHeader;
                     let (remainder, frame) = T::decode(frame_buf.as_ref())?;
                     if !remainder.is_empty() {
                         // todo: could it really happen?
                         return Err(AmqpCodecError::UnparsedBytesLeft);
                     }
-                    self.state = DecodeState::FrameHeader;
                     return Ok(Some(frame));
                 }
             }
-- 
2.43.0


From 38bb54d65b213251bf464c3e46ad7653cc7ec367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:00 +0000
Subject: [PATCH 13/19] fix: do not count the header's descriptor twice in the
 size of a message

Header::encoded_size already has it.
---
 src/message/inmessage.rs  | 2 +-
 src/message/outmessage.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message/inmessage.rs b/src/message/inmessage.rs
index 34b66b2..f5dfd52 100644
--- a/src/message/inmessage.rs
+++ b/src/message/inmessage.rs
@@ -216,7 +216,7 @@ impl Encode for InMessage {
         };
 
         if let Some(ref h) = self.header {
-            size += h.encoded_size() + SECTION_PREFIX_LENGTH;
+            size += h.encoded_size();
         }
         if let Some(ref da) = self.delivery_annotations {
             size += da.encoded_size() + SECTION_PREFIX_LENGTH;
diff --git a/src/message/outmessage.rs b/src/message/outmessage.rs
index 4e9e6fc..e9f80ac 100644
--- a/src/message/outmessage.rs
+++ b/src/message/outmessage.rs
@@ -208,7 +208,7 @@ impl Encode for OutMessage {
         };
 
         if let Some(ref h) = self.header {
-            size += h.encoded_size() + SECTION_PREFIX_LENGTH;
+            size += h.encoded_size();
         }
         if let Some(ref da) = self.delivery_annotations {
             size += da.encoded_size() + SECTION_PREFIX_LENGTH;
-- 
2.43.0


From 79af5139fad29c3ea4ce64345fc44691dd1a7522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:00 +0000
Subject: [PATCH 14/19] fix: forget the known size of a message when its value
 is set

---
 src/message/inmessage.rs  | 1 +
 src/message/outmessage.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/message/inmessage.rs b/src/message/inmessage.rs
index f5dfd52..55596df 100644
--- a/src/message/inmessage.rs
+++ b/src/message/inmessage.rs
@@ -132,6 +132,7 @@ impl InMessage {
     /// Set message body value
     pub fn set_value<V: Into<Variant>>(mut self, v: V) -> Self {
         self.body.value = Some(v.into());
+        self.size.set(0);
         self
     }
 
diff --git a/src/message/outmessage.rs b/src/message/outmessage.rs
index e9f80ac..10b501f 100644
--- a/src/message/outmessage.rs
+++ b/src/message/outmessage.rs
@@ -124,6 +124,7 @@ impl OutMessage {
     /// Set message body value
     pub fn set_value<V: Into<Variant>>(mut self, v: V) -> Self {
         self.body.value = Some(v.into());
+        self.size.set(0);
         self
     }
 
-- 
2.43.0


From bf73aac89427bce4f537679e97df614ae65647c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:00 +0000
Subject: [PATCH 15/19] fix: compare messages by what they contain

A message was different from itself after its size had been asked for.
---
 src/message/inmessage.rs  | 16 +++++++++++++++-
 src/message/outmessage.rs | 16 +++++++++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/message/inmessage.rs b/src/message/inmessage.rs
index 55596df..5c14294 100644
--- a/src/message/inmessage.rs
+++ b/src/message/inmessage.rs
@@ -14,7 +14,7 @@ use super::body::MessageBody;
 use super::outmessage::OutMessage;
 use super::SECTION_PREFIX_LENGTH;
 
-#[derive(Debug, Clone, Default, PartialEq)]
+#[derive(Debug, Clone, Default)]
 pub struct InMessage {
     pub message_format: Option<MessageFormat>,
     header: Option<Header>,
@@ -154,6 +154,20 @@ impl InMessage {
     }
 }
 
+// `size` is a cache, and no part of the content
+impl PartialEq for InMessage {
+    fn eq(&self, other: &InMessage) -> bool {
+        self.message_format == other.message_format
+            && self.header == other.header
+            && self.delivery_annotations == other.delivery_annotations
+            && self.message_annotations == other.message_annotations
+            && self.properties == other.properties
+            && self.application_properties == other.application_properties
+            && self.footer == other.footer
+            && self.body == other.body
+    }
+}
+
 impl Decode for InMessage {
     fn decode(mut input: &[u8]) -> Result<(&[u8], InMessage), AmqpParseError> {
         let mut message = InMessage::default();
diff --git a/src/message/outmessage.rs b/src/message/outmessage.rs
index 10b501f..c68d0d5 100644
--- a/src/message/outmessage.rs
+++ b/src/message/outmessage.rs
@@ -10,7 +10,7 @@ use crate::types::{Descriptor, Str, Variant, VecVariantMap};
 use super::body::MessageBody;
 use super::SECTION_PREFIX_LENGTH;
 
-#[derive(Debug, Clone, Default, PartialEq)]
+#[derive(Debug, Clone, Default)]
 pub struct OutMessage {
     pub message_format: Option<MessageFormat>,
     header: Option<Header>,
@@ -146,6 +146,20 @@ impl OutMessage {
     }
 }
 
+// `size` is a cache, and no part of the content
+impl PartialEq for OutMessage {
+    fn eq(&self, other: &OutMessage) -> bool {
+        self.message_format == other.message_format
+            && self.header == other.header
+            && self.delivery_annotations == other.delivery_annotations
+            && self.message_annotations == other.message_annotations
+            && self.properties == other.properties
+            && self.application_properties == other.application_properties
+            && self.footer == other.footer
+            && self.body == other.body
+    }
+}
+
 impl Decode for OutMessage {
     fn decode(mut input: &[u8]) -> Result<(&[u8], OutMessage), AmqpParseError> {
         let mut message = OutMessage::default();
-- 
2.43.0


From d75d0a67e59d526650f9b90ba919d5bff591145e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:00 +0000
Subject: [PATCH 16/19] fix: do not return the last section of a message as
 unparsed input

---
 src/message/inmessage.rs  | 4 ++--
 src/message/outmessage.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/message/inmessage.rs b/src/message/inmessage.rs
index 5c14294..e795103 100644
--- a/src/message/inmessage.rs
+++ b/src/message/inmessage.rs
@@ -205,10 +205,10 @@ impl Decode for InMessage {
                     message.body.data.push(val);
                 }
             }
-            if buf.is_empty() {
+            input = buf;
+            if input.is_empty() {
                 break;
             }
-            input = buf;
         }
         Ok((input, message))
     }
diff --git a/src/message/outmessage.rs b/src/message/outmessage.rs
index c68d0d5..54f6e28 100644
--- a/src/message/outmessage.rs
+++ b/src/message/outmessage.rs
@@ -197,10 +197,10 @@ impl Decode for OutMessage {
                     message.body.data.push(val);
                 }
             }
-            if buf.is_empty() {
+            input = buf;
+            if input.is_empty() {
                 break;
             }
-            input = buf;
         }
         Ok((input, message))
     }
-- 
2.43.0


From 5cd2e82e28fd869dde540a3c475cdb6f581958f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:00 +0000
Subject: [PATCH 17/19] fix: implement Hash for VariantMap

Decoding a map that has a map among its keys panicked.
---
 src/types/variant.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/types/variant.rs b/src/types/variant.rs
index 6fd0f29..0d1267f 100644
--- a/src/types/variant.rs
+++ b/src/types/variant.rs
@@ -1,4 +1,5 @@
 use hashbrown::HashMap;
+use std::collections::hash_map::DefaultHasher;
 use std::hash::{Hash, Hasher};
 
 use bytes::Bytes;
@@ -136,8 +137,17 @@ impl VariantMap {
 }
 
 impl Hash for VariantMap {
-    fn hash<H: Hasher>(&self, _state: &mut H) {
-        unimplemented!()
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        // entries come in no particular order, equal maps have to hash alike all the same
+        let mut sum = 0u64;
+        for (key, value) in &self.map {
+            let mut hasher = DefaultHasher::new();
+            key.hash(&mut hasher);
+            value.hash(&mut hasher);
+            sum = sum.wrapping_add(hasher.finish());
+        }
+        self.map.len().hash(state);
+        sum.hash(state);
     }
 }
 
-- 
2.43.0


From 6b31a86f6de380f836eec6dfa5a7cae5f989f7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:00 +0000
Subject: [PATCH 18/19] fix: compare static and dynamic strings without
 recursing forever

---
 src/types/mod.rs | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index e6a45e8..53ff696 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -139,16 +139,7 @@ impl borrow::Borrow<str> for Str {
 
 impl PartialEq<Str> for Str {
     fn eq(&self, other: &Str) -> bool {
-        match self {
-            Str::ByteStr(s) => match other {
-                Str::ByteStr(o) => s == o,
-                Str::Static(o) => s == *o,
-            },
-            Str::Static(s) => match other {
-                Str::ByteStr(o) => o == *s,
-                Str::Static(o) => s == o,
-            },
-        }
+        self.as_str() == other.as_str()
     }
 }
 
-- 
2.43.0


From dc43be8fdf11878eb7f59b08b07a3d00c5d8d10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:00 +0000
Subject: [PATCH 19/19] fix: order strings by their text

The derived order put every dynamic string before every static one, against Eq
and Borrow<str>.
---
 src/types/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index 53ff696..7eecbb1 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -1,4 +1,4 @@
-use std::{borrow, fmt, hash, ops};
+use std::{borrow, cmp, fmt, hash, ops};
 
 use bytes::Bytes;
 use string::{String, TryFrom};
@@ -70,7 +70,7 @@ impl List {
     }
 }
 
-#[derive(Clone, Eq, Ord, PartialOrd)]
+#[derive(Clone, Eq)]
 pub enum Str {
     ByteStr(String<Bytes>),
     Static(&'static str),
@@ -143,6 +143,18 @@ impl PartialEq<Str> for Str {
     }
 }
 
+impl Ord for Str {
+    fn cmp(&self, other: &Str) -> cmp::Ordering {
+        self.as_str().cmp(other.as_str())
+    }
+}
+
+impl PartialOrd for Str {
+    fn partial_cmp(&self, other: &Str) -> Option<cmp::Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
 impl PartialEq<str> for Str {
     fn eq(&self, other: &str) -> bool {
         match self {
-- 
2.43.0

