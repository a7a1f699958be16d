From 834c5516340b4ec563d46cad9537a0412120c4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 1/8] fix: decode I256 values into Primitive::I256, not U256

---
 src/scale_impls/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scale_impls/decode.rs b/src/scale_impls/decode.rs
index fa3d533..f9102c7 100644
--- a/src/scale_impls/decode.rs
+++ b/src/scale_impls/decode.rs
@@ -287,7 +287,7 @@ where
         type_id: R::TypeId,
     ) -> Result<Self::Value<'_, 'info>, Self::Error> {
         Ok(Value {
-            value: ValueDef::Primitive(Primitive::U256(*value)),
+            value: ValueDef::Primitive(Primitive::I256(*value)),
             context: F::context_from_type_id(&type_id),
         })
     }
-- 
2.43.0


From a00479124399d9a61aca6feb0bfb54233a81ec7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 2/8] fix: bound the capacity allocated up front when decoding
 sequences

---
 src/scale_impls/decode.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/scale_impls/decode.rs b/src/scale_impls/decode.rs
index f9102c7..6193f7a 100644
--- a/src/scale_impls/decode.rs
+++ b/src/scale_impls/decode.rs
@@ -72,10 +72,14 @@ where
     Ok(val)
 }
 
+// The most items that we'll allocate space for before having decoded any of them.
+const MAX_PREALLOCATED_ITEMS: usize = 1024;
+
 // Sequences, Tuples and Arrays all have the same methods, so decode them in the same way:
 macro_rules! to_unnamed_composite {
     ($value:ident, $type_id:ident) => {{
-        let mut vals = Vec::with_capacity($value.remaining());
+        // The number of items can come straight from the input bytes, so don't trust it.
+        let mut vals = Vec::with_capacity($value.remaining().min(MAX_PREALLOCATED_ITEMS));
         while let Some(val) = $value.decode_item(DecodeValueVisitor::<R, F>::new()) {
             let val = val?;
             vals.push(val);
-- 
2.43.0


From 003dc20780e480323ed1aac62b3c01557d45ab19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 3/8] fix: bound the capacity allocated from serde size hints

---
 src/serde_impls/bitvec_helpers.rs | 8 +++++++-
 src/serde_impls/deserialize.rs    | 4 ++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/serde_impls/bitvec_helpers.rs b/src/serde_impls/bitvec_helpers.rs
index f3bec60..f54d4d3 100644
--- a/src/serde_impls/bitvec_helpers.rs
+++ b/src/serde_impls/bitvec_helpers.rs
@@ -45,6 +45,12 @@ where
     map.end()
 }
 
+/// Size hints can come straight from untrusted input, so bound how much we'll
+/// allocate based on one.
+pub fn cautious_capacity(size_hint: Option<usize>) -> usize {
+    size_hint.unwrap_or(0).min(1024)
+}
+
 /// Turn a [`BitSequence`] into a [`MapAccess`] impl that can be handed to a visitor to be consumed.
 pub fn map_access<'de>(seq: BitSequence) -> impl MapAccess<'de, Error = DeserializerError> {
     let bools: Vec<bool> = seq.iter().collect();
@@ -88,7 +94,7 @@ impl<'de> Visitor<'de> for MapOrBitSeqVisitor {
         }
 
         // That didn't work, so decode the first value as a Value<()> instead:
-        let mut values = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut values = Vec::with_capacity(cautious_capacity(map.size_hint()));
         values.push((first_key, map.next_value()?));
 
         // .. and then decode all of the other key-value pairs and add them too:
diff --git a/src/serde_impls/deserialize.rs b/src/serde_impls/deserialize.rs
index d6ad924..5f9621f 100644
--- a/src/serde_impls/deserialize.rs
+++ b/src/serde_impls/deserialize.rs
@@ -191,7 +191,7 @@ impl<'de> Visitor<'de> for CompositeVisitor {
     where
         A: serde::de::SeqAccess<'de>,
     {
-        let mut values = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut values = Vec::with_capacity(bitvec_helpers::cautious_capacity(seq.size_hint()));
         while let Some(value) = seq.next_element()? {
             values.push(value);
         }
@@ -202,7 +202,7 @@ impl<'de> Visitor<'de> for CompositeVisitor {
     where
         A: serde::de::MapAccess<'de>,
     {
-        let mut values = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut values = Vec::with_capacity(bitvec_helpers::cautious_capacity(map.size_hint()));
         while let Some(key_val) = map.next_entry()? {
             values.push(key_val);
         }
-- 
2.43.0


From 4391e392ccb77f69144bf5bf02502895ae92a790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 4/8] fix: quote variant names that would be parsed back as
 bools

---
 src/string_impls/to_string.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/string_impls/to_string.rs b/src/string_impls/to_string.rs
index 060afba..df42b44 100644
--- a/src/string_impls/to_string.rs
+++ b/src/string_impls/to_string.rs
@@ -431,7 +431,10 @@ fn fmt_variant<T, W: core::fmt::Write>(
     v: &Variant<T>,
     f: &mut Formatter<T, W>,
 ) -> core::fmt::Result {
-    if is_ident(&v.name) {
+    // Values are tried as bools before variants when parsing, so a name
+    // starting with one of these would not be read back as an ident.
+    let looks_like_bool = v.name.starts_with("true") || v.name.starts_with("false");
+    if is_ident(&v.name) && !looks_like_bool {
         f.write_str(&v.name)?;
     } else {
         // If the variant name isn't a valid ident, we parse it into
-- 
2.43.0


From eb2c120394320b8edb2dc53766f8478781c08307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 5/8] fix: do not skip past what a custom parser consumed when
 it is not ASCII

---
 src/string_impls/from_string.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/string_impls/from_string.rs b/src/string_impls/from_string.rs
index 77f89e6..a6e5b4a 100644
--- a/src/string_impls/from_string.rs
+++ b/src/string_impls/from_string.rs
@@ -236,7 +236,9 @@ fn parse_value(
                         // Wind our StrTokens forward to take into account anything that
                         // was consumed. We do this rather than replacing it because we want
                         // to preserve the full string and offsets.
-                        for _ in cursor.len()..s.len() {
+                        // Offsets are in bytes, but each step can be several bytes long.
+                        let end_offset = start_offset + s.len().saturating_sub(cursor.len());
+                        while t.offset() < end_offset {
                             t.next();
                         }
                         return Ok(value);
-- 
2.43.0


From 5c290210b25c254c78db37d71ea01a31af901021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 6/8] fix: include the variant name in the path of tracing
 decode errors

---
 src/scale_impls/tracing_decoder/visitor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scale_impls/tracing_decoder/visitor.rs b/src/scale_impls/tracing_decoder/visitor.rs
index e80e229..bea8fc0 100644
--- a/src/scale_impls/tracing_decoder/visitor.rs
+++ b/src/scale_impls/tracing_decoder/visitor.rs
@@ -283,7 +283,7 @@ where
     ) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
         let variant_name = value.name();
         let path = self.path.at_variant(variant_name.to_owned());
-        let values = visit_composite(&self, value.fields());
+        let values = visit_composite(&self.at_path(path.clone()), value.fields());
         match values {
             Err(e) => {
                 let merged_error = e.with_outer_context(
-- 
2.43.0


From 0203f6c7005b53b83320aaa602a18b28b3197c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 7/8] fix: tracing decode errors can be displayed when a 256
 bit number was decoded

---
 src/scale_impls/tracing_decoder/error.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/scale_impls/tracing_decoder/error.rs b/src/scale_impls/tracing_decoder/error.rs
index a7f784f..9c69e82 100644
--- a/src/scale_impls/tracing_decoder/error.rs
+++ b/src/scale_impls/tracing_decoder/error.rs
@@ -17,7 +17,7 @@ use super::path::Path;
 use crate::prelude::*;
 use crate::scale::DecodeError;
 use crate::string_impls::format_hex;
-use crate::Value;
+use crate::{Primitive, Value, ValueDef};
 use core::fmt::Write;
 
 /// An error encountered when decoding some bytes using the [`crate::scale::tracing`] module.
@@ -133,5 +133,21 @@ fn display_value_with_typeid<Id: core::fmt::Debug>(
             write!(writer, "{type_id:?}")
         })
         .add_custom_formatter(|value, writer| format_hex(value, writer))
+        .add_custom_formatter(|value, writer| format_256_bit_bytes(value, writer))
         .write(value, f)
 }
+
+// Numbers this large can be decoded but have no default string format, and
+// we don't want displaying an error to fail because one of them was seen.
+fn format_256_bit_bytes<Id, W: Write>(
+    value: &Value<Id>,
+    writer: &mut W,
+) -> Option<core::fmt::Result> {
+    let ValueDef::Primitive(Primitive::U256(bytes) | Primitive::I256(bytes)) = &value.value else {
+        return None;
+    };
+    let res = writer
+        .write_str("0x")
+        .and_then(|()| bytes.iter().try_for_each(|b| write!(writer, "{b:02X}")));
+    Some(res)
+}
-- 
2.43.0


From 0111ddc4ec43795e6172b3261b76e6d145791870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:00 +0000
Subject: [PATCH 8/8] fix: don't let the announced number of entries decide
 what the tracing decoder allocates

---
 src/scale_impls/tracing_decoder/visitor.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/scale_impls/tracing_decoder/visitor.rs b/src/scale_impls/tracing_decoder/visitor.rs
index bea8fc0..a51a5e4 100644
--- a/src/scale_impls/tracing_decoder/visitor.rs
+++ b/src/scale_impls/tracing_decoder/visitor.rs
@@ -25,6 +25,9 @@ use scale_type_resolver::TypeResolver;
 // Don't alloc more than 100M entries; error instead if we try to exceed this.
 // Helps to catch issues with bad data which leads panics instead of helpful errors.
 const MAX_CAPACITY: usize = 100_000_000;
+// Don't alloc space for more than this many entries before having decoded any of them; the
+// number of entries can come straight from the input bytes.
+const MAX_PREALLOCATED_ENTRIES: usize = 1024;
 
 /// A visitor that will attempt to decode some bytes into a [`crate::Value`],
 /// returning a detailed error of where the decoding fails if it does.
@@ -69,7 +72,7 @@ macro_rules! to_unnamed_composite {
                 return Err(err);
             }
 
-            let mut vals = Vec::with_capacity($value.remaining());
+            let mut vals = Vec::with_capacity($value.remaining().min(MAX_PREALLOCATED_ENTRIES));
             while let Some(val) = $value.decode_item($self.at_idx(idx)) {
                 match val {
                     Err(e) => {
-- 
2.43.0

