From 33f6424dde60487326cfd8609d1cfa1c68e8a3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 01/22] fix: do not slice legacy @ headers inside a multi-byte
 delimiter character

---
 crates/toon/src/de/direct.rs     | 3 +++
 crates/toon/src/decode/parser.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/crates/toon/src/de/direct.rs b/crates/toon/src/de/direct.rs
index d594645..ad7235b 100644
--- a/crates/toon/src/de/direct.rs
+++ b/crates/toon/src/de/direct.rs
@@ -734,6 +734,9 @@ fn parse_header(s: &str) -> Option<(char, &str)> {
         return None;
     }
     let dch = it.next()?;
+    if !dch.is_ascii() {
+        return None;
+    }
     Some((dch, s[2..].trim_start()))
 }
 
diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index abd9ee3..293d8c5 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -1172,6 +1172,9 @@ fn parse_header(s: &str) -> Option<(char, &str)> {
         return None;
     }
     let dch = it.next()?;
+    if !dch.is_ascii() {
+        return None;
+    }
     let rest = &s[2..];
     Some((dch, trim_ascii_start(rest)))
 }
-- 
2.43.0


From bd71173df07716a00080c3665076a7704feec74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 02/22] fix: do not overflow on a huge declared length in
 de_direct inline headers

---
 crates/toon/src/de/direct.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/toon/src/de/direct.rs b/crates/toon/src/de/direct.rs
index ad7235b..2628532 100644
--- a/crates/toon/src/de/direct.rs
+++ b/crates/toon/src/de/direct.rs
@@ -894,7 +894,9 @@ fn parse_inline_array_header(s: &str) -> Option<(usize, char, &str)> {
     let mut i = 1usize;
     let mut n: usize = 0;
     while i < bytes.len() && bytes[i].is_ascii_digit() {
-        n = n * 10 + (bytes[i] - b'0') as usize;
+        n = n
+            .saturating_mul(10)
+            .saturating_add((bytes[i] - b'0') as usize);
         i += 1;
     }
     if i >= bytes.len() {
-- 
2.43.0


From d76d99bca3c663c098994a7c67c1f9b0dd47c5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 03/22] fix: emit buffered struct fields when key folding is
 enabled

---
 crates/toon/src/ser/stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index a173101..36b4cce 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -662,7 +662,7 @@ impl<'a, 'de> SerializeStruct for MapSer<'a, 'de> {
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(())
+        SerializeMap::end(self)
     }
 }
 
-- 
2.43.0


From e6b59d7140872cf2ea91ee08d9fab0de95edb51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 04/22] fix: emit tuples in the alloc-only streaming serializer

---
 crates/toon/src/ser/stream.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 36b4cce..c0bf166 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -497,7 +497,7 @@ impl<'a, 'de> SerializeTuple for SeqSerAlloc<'a, 'de> {
         SerializeSeq::serialize_element(self, value)
     }
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(())
+        SerializeSeq::end(self)
     }
 }
 
@@ -509,7 +509,7 @@ impl<'a, 'de> SerializeTupleStruct for SeqSerAlloc<'a, 'de> {
         SerializeSeq::serialize_element(self, value)
     }
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(())
+        SerializeSeq::end(self)
     }
 }
 
@@ -521,7 +521,7 @@ impl<'a, 'de> SerializeTupleVariant for SeqSerAlloc<'a, 'de> {
         SerializeSeq::serialize_element(self, value)
     }
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(())
+        SerializeSeq::end(self)
     }
 }
 
-- 
2.43.0


From da7f593020eb50b1ee56792c9cfc9a868136406f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 05/22] fix: format floats canonically in arrays, list items
 and nested fields

---
 crates/toon/src/encode/encoders.rs   | 15 +++++++++------
 crates/toon/src/encode/primitives.rs |  9 +++++++++
 crates/toon/src/ser/stream.rs        | 27 +++++++++++++++++++--------
 3 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/crates/toon/src/encode/encoders.rs b/crates/toon/src/encode/encoders.rs
index c24d44c..7a9e223 100644
--- a/crates/toon/src/encode/encoders.rs
+++ b/crates/toon/src/encode/encoders.rs
@@ -29,7 +29,7 @@ pub fn encode_value(
     match value {
         Value::Null => w.line(indent, primitives::format_null()),
         Value::Bool(b) => w.line(indent, primitives::format_bool(*b)),
-        Value::Number(n) => w.line(indent, &n.to_string()),
+        Value::Number(n) => w.line(indent, &primitives::format_number(n)),
         Value::String(s) => {
             let fs = primitives::format_string(s, opts.delimiter);
             w.line(indent, &fs)
@@ -137,7 +137,7 @@ fn encode_object_field_with_context(
     match value {
         Value::Null => w.line_kv(indent, &key_fmt, primitives::format_null()),
         Value::Bool(b) => w.line_kv(indent, &key_fmt, primitives::format_bool(*b)),
-        Value::Number(n) => w.line_kv(indent, &key_fmt, &n.to_string()),
+        Value::Number(n) => w.line_kv(indent, &key_fmt, &primitives::format_number(n)),
         Value::String(s) => w.line_kv(
             indent,
             &key_fmt,
@@ -327,7 +327,7 @@ fn encode_folded_value(
     match value {
         Value::Null => w.line_kv(indent, folded_key, primitives::format_null()),
         Value::Bool(b) => w.line_kv(indent, folded_key, primitives::format_bool(*b)),
-        Value::Number(n) => w.line_kv(indent, folded_key, &n.to_string()),
+        Value::Number(n) => w.line_kv(indent, folded_key, &primitives::format_number(n)),
         Value::String(s) => w.line_kv(
             indent,
             folded_key,
@@ -513,7 +513,7 @@ fn encode_list_item(item: &Value, w: &mut LineWriter, opts: &Options, indent: us
     match item {
         Value::Null => w.line_list_item(indent, primitives::format_null()),
         Value::Bool(b) => w.line_list_item(indent, primitives::format_bool(*b)),
-        Value::Number(n) => w.line_list_item(indent, &n.to_string()),
+        Value::Number(n) => w.line_list_item(indent, &primitives::format_number(n)),
         Value::String(s) => w.line_list_item(indent, &primitives::format_string(s, opts.delimiter)),
         Value::Array(inner) => {
             // Array of arrays: - [M]: v1,v2 or - [M]: with nested
@@ -637,7 +637,10 @@ fn encode_list_item_object(
             indent,
             &format!("- {}: {}", first_key_fmt, primitives::format_bool(*b)),
         ),
-        Value::Number(n) => w.line(indent, &format!("- {}: {}", first_key_fmt, n)),
+        Value::Number(n) => w.line(
+            indent,
+            &format!("- {}: {}", first_key_fmt, primitives::format_number(n)),
+        ),
         Value::String(s) => {
             let v = primitives::format_string(s, opts.delimiter);
             w.line(indent, &format!("- {}: {}", first_key_fmt, v));
@@ -707,7 +710,7 @@ fn format_primitive_value(v: &Value, delim: crate::options::Delimiter) -> String
     match v {
         Value::Null => primitives::format_null().to_string(),
         Value::Bool(b) => primitives::format_bool(*b).to_string(),
-        Value::Number(n) => n.to_string(),
+        Value::Number(n) => primitives::format_number(n),
         Value::String(s) => primitives::format_string(s, delim),
         _ => "null".to_string(),
     }
diff --git a/crates/toon/src/encode/primitives.rs b/crates/toon/src/encode/primitives.rs
index f613b46..a84391a 100644
--- a/crates/toon/src/encode/primitives.rs
+++ b/crates/toon/src/encode/primitives.rs
@@ -201,3 +201,12 @@ pub fn format_null() -> &'static str {
 pub fn format_f64(f: f64) -> String {
     format_canonical_f64(f)
 }
+
+/// Format a JSON number; floats use the same canonical form as `format_f64`.
+#[cfg(feature = "json")]
+pub fn format_number(n: &serde_json::Number) -> String {
+    match n.as_f64() {
+        Some(f) if n.is_f64() => format_f64(f),
+        _ => n.to_string(),
+    }
+}
diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index c0bf166..1440861 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -702,7 +702,7 @@ fn format_primitive_value_json(v: &Value, delim: crate::options::Delimiter) -> S
     match v {
         Value::Null => primitives::format_null().to_string(),
         Value::Bool(b) => primitives::format_bool(*b).to_string(),
-        Value::Number(n) => n.to_string(),
+        Value::Number(n) => primitives::format_number(n),
         Value::String(s) => primitives::format_string(s, delim),
         _ => "null".to_string(),
     }
@@ -718,7 +718,7 @@ fn encode_list_item_json(
     match item {
         Value::Null => w.line_list_item(indent, primitives::format_null()),
         Value::Bool(b) => w.line_list_item(indent, primitives::format_bool(*b)),
-        Value::Number(n) => w.line_list_item(indent, &n.to_string()),
+        Value::Number(n) => w.line_list_item(indent, &primitives::format_number(n)),
         Value::String(s) => w.line_list_item(indent, &primitives::format_string(s, opts.delimiter)),
         Value::Array(items) => {
             let len = items.len();
@@ -802,9 +802,11 @@ fn encode_list_item_json(
                                 &key_fmt,
                                 primitives::format_bool(*b),
                             ),
-                            Value::Number(n) => {
-                                w.line_kv(indent + opts.indent, &key_fmt, &n.to_string())
-                            }
+                            Value::Number(n) => w.line_kv(
+                                indent + opts.indent,
+                                &key_fmt,
+                                &primitives::format_number(n),
+                            ),
                             Value::String(s) => w.line_kv(
                                 indent + opts.indent,
                                 &key_fmt,
@@ -840,7 +842,10 @@ fn encode_list_item_json(
                     indent,
                     &format!("- {}: {}", first_key_fmt, primitives::format_bool(*b)),
                 ),
-                Value::Number(n) => w.line(indent, &format!("- {}: {}", first_key_fmt, n)),
+                Value::Number(n) => w.line(
+                    indent,
+                    &format!("- {}: {}", first_key_fmt, primitives::format_number(n)),
+                ),
                 Value::String(s) => {
                     let v = primitives::format_string(s, opts.delimiter);
                     w.line(indent, &format!("- {}: {}", first_key_fmt, v));
@@ -900,7 +905,9 @@ fn encode_list_item_json(
                                 Value::Bool(b) => {
                                     w.line_kv(indent + 4, &key_fmt, primitives::format_bool(*b))
                                 }
-                                Value::Number(n) => w.line_kv(indent + 4, &key_fmt, &n.to_string()),
+                                Value::Number(n) => {
+                                    w.line_kv(indent + 4, &key_fmt, &primitives::format_number(n))
+                                }
                                 Value::String(s) => w.line_kv(
                                     indent + 4,
                                     &key_fmt,
@@ -930,7 +937,11 @@ fn encode_list_item_json(
                     Value::Bool(b) => {
                         w.line_kv(indent + opts.indent, &key_fmt, primitives::format_bool(*b))
                     }
-                    Value::Number(n) => w.line_kv(indent + opts.indent, &key_fmt, &n.to_string()),
+                    Value::Number(n) => w.line_kv(
+                        indent + opts.indent,
+                        &key_fmt,
+                        &primitives::format_number(n),
+                    ),
                     Value::String(s) => w.line_kv(
                         indent + opts.indent,
                         &key_fmt,
-- 
2.43.0


From 42862ff5d412c6b3a3930eca638d81460fe11039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 06/22] fix: keep out-of-range whole numbers as floats when
 decoding

---
 crates/toon/src/decode/parser.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 293d8c5..f1b0923 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -10,6 +10,9 @@ use alloc::{
 use crate::number::has_forbidden_leading_zeros;
 use crate::value::{Number, Value};
 
+/// First f64 above the u64 range (2^64).
+const U64_RANGE_END: f64 = 18_446_744_073_709_551_616.0;
+
 pub struct Parser<'a> {
     lines: Vec<ParsedLine<'a>>,
     idx: usize,
@@ -122,10 +125,13 @@ impl<'a> Parser<'a> {
                 if let Ok(f) = s.parse::<f64>() {
                     // Normalize integer-valued floats to integers
                     // Use f % 1.0 instead of f.fract() for no_std compatibility
+                    // (only when the value is in range: `as` saturates otherwise)
                     if f.is_finite() && f % 1.0 == 0.0 {
                         if f >= 0.0 {
-                            return Value::Number(Number::U64(f as u64));
-                        } else {
+                            if f < U64_RANGE_END {
+                                return Value::Number(Number::U64(f as u64));
+                            }
+                        } else if f >= i64::MIN as f64 {
                             return Value::Number(Number::I64(f as i64));
                         }
                     }
-- 
2.43.0


From 59b9300b19bdb147314a4020d1cf486d2e4ad26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 07/22] fix: encode non-finite floats in map values as null and
 reject them as keys

---
 crates/toon/src/ser/stream.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 1440861..9e20fb5 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -1550,12 +1550,8 @@ impl<'a, 'de> Serializer for &'a mut ScalarSerializer<'de> {
     fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error> {
         if v.is_finite() {
             self.out = Some(primitives::format_f64(v));
-        } else if v.is_nan() {
-            self.out = Some(primitives::escape_and_quote("NaN"));
-        } else if v.is_sign_positive() {
-            self.out = Some(primitives::escape_and_quote("Infinity"));
         } else {
-            self.out = Some(primitives::escape_and_quote("-Infinity"));
+            self.out = Some(primitives::format_null().to_string());
         }
         Ok(())
     }
@@ -1712,10 +1708,12 @@ impl Serializer for &mut KeySerializer {
         Ok(())
     }
     fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error> {
-        self.out = Some(primitives::format_f64(v as f64));
-        Ok(())
+        self.serialize_f64(v as f64)
     }
     fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error> {
+        if !v.is_finite() {
+            return Err(SerError::custom("invalid key"));
+        }
         self.out = Some(primitives::format_f64(v));
         Ok(())
     }
-- 
2.43.0


From 25be72d019b3954ee901f1448780907d87e66efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:10 +0000
Subject: [PATCH 08/22] fix: report serialization errors of nested values
 instead of writing null

---
 crates/toon/src/ser/mod.rs                 |  2 +-
 crates/toon/src/ser/stream.rs              | 15 ++++++++++-----
 crates/toon/src/ser/value_builder.rs       |  7 +++++--
 crates/toon/src/ser/value_builder_alloc.rs | 12 ++++++------
 4 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/crates/toon/src/ser/mod.rs b/crates/toon/src/ser/mod.rs
index a8f1be0..62af8e6 100644
--- a/crates/toon/src/ser/mod.rs
+++ b/crates/toon/src/ser/mod.rs
@@ -18,7 +18,7 @@ mod value_builder_alloc;
 // Non-streaming encoding via serde_json::Value is only available with "json"
 #[cfg(all(feature = "serde", feature = "json"))]
 pub fn to_string<T: Serialize>(value: &T, options: &Options) -> Result<String> {
-    let v = value_builder::to_value(value, options);
+    let v = value_builder::to_value(value, options)?;
     crate::encode::encode_value_to_string(&v, options)
 }
 
diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 9e20fb5..6e635ae 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -285,7 +285,8 @@ impl<'a, 'de> SerializeSeq for SeqSer<'a, 'de> {
     type Error = SerError;
 
     fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        let val = crate::ser::value_builder::to_value(value, self.parent.opts);
+        let val = crate::ser::value_builder::to_value(value, self.parent.opts)
+            .map_err(|e| SerError::custom(e.to_string()))?;
         self.items.push(val);
         Ok(())
     }
@@ -411,7 +412,8 @@ impl<'a, 'de> SerializeSeq for SeqSerAlloc<'a, 'de> {
     type Error = SerError;
 
     fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        let v = crate::ser::value_builder_alloc::to_value(value, self.parent.opts);
+        let v = crate::ser::value_builder_alloc::to_value(value, self.parent.opts)
+            .map_err(|e| SerError::custom(e.to_string()))?;
         self.items.push(v);
         Ok(())
     }
@@ -550,7 +552,8 @@ impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
         // When key folding is enabled, buffer entries for collision detection
         #[cfg(feature = "json")]
         if self.parent.opts.key_folding == crate::options::KeyFolding::Safe {
-            let val = crate::ser::value_builder::to_value(value, self.parent.opts);
+            let val = crate::ser::value_builder::to_value(value, self.parent.opts)
+                .map_err(|e| SerError::custom(e.to_string()))?;
             if self.buffered.is_none() {
                 self.buffered = Some(Vec::new());
             }
@@ -571,7 +574,8 @@ impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
         // Try to serialize to Value to detect arrays
         #[cfg(feature = "json")]
         {
-            let val = crate::ser::value_builder::to_value(value, self.parent.opts);
+            let val = crate::ser::value_builder::to_value(value, self.parent.opts)
+                .map_err(|e| SerError::custom(e.to_string()))?;
             if let Value::Array(items) = val {
                 // Use spec-compliant keyed array encoding
                 encode_keyed_array_json(
@@ -599,7 +603,8 @@ impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
 
         #[cfg(not(feature = "json"))]
         {
-            let val = crate::ser::value_builder_alloc::to_value(value, self.parent.opts);
+            let val = crate::ser::value_builder_alloc::to_value(value, self.parent.opts)
+                .map_err(|e| SerError::custom(e.to_string()))?;
             if let IValue::Array(items) = val {
                 // Use spec-compliant keyed array encoding
                 encode_keyed_array_alloc(
diff --git a/crates/toon/src/ser/value_builder.rs b/crates/toon/src/ser/value_builder.rs
index 32e4475..1be194c 100644
--- a/crates/toon/src/ser/value_builder.rs
+++ b/crates/toon/src/ser/value_builder.rs
@@ -30,9 +30,12 @@ use serde_json::{Map, Number, Value};
 
 use crate::options::Options;
 
-pub fn to_value<T: Serialize + ?Sized>(value: &T, _options: &Options) -> Value {
+pub fn to_value<T: Serialize + ?Sized>(
+    value: &T,
+    _options: &Options,
+) -> Result<Value, serde_json::Error> {
     let mut ser = ValueSerializer;
-    value.serialize(&mut ser).unwrap_or(Value::Null)
+    value.serialize(&mut ser)
 }
 
 struct ValueSerializer;
diff --git a/crates/toon/src/ser/value_builder_alloc.rs b/crates/toon/src/ser/value_builder_alloc.rs
index 443942a..e1af19d 100644
--- a/crates/toon/src/ser/value_builder_alloc.rs
+++ b/crates/toon/src/ser/value_builder_alloc.rs
@@ -11,23 +11,23 @@ use serde::ser::*;
 use crate::options::Options;
 use crate::value::{Number, Value};
 
-pub fn to_value<T: Serialize + ?Sized>(value: &T, _options: &Options) -> Value {
+pub fn to_value<T: Serialize + ?Sized>(value: &T, _options: &Options) -> Result<Value, BuildError> {
     let mut ser = ValueSerializer;
-    value.serialize(&mut ser).unwrap_or(Value::Null)
+    value.serialize(&mut ser)
 }
 
 struct ValueSerializer;
 
 #[derive(Debug)]
-pub struct BuildError;
+pub struct BuildError(String);
 impl core::fmt::Display for BuildError {
     fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
-        f.write_str("ser error")
+        f.write_str(&self.0)
     }
 }
 impl serde::ser::Error for BuildError {
-    fn custom<T: core::fmt::Display>(_t: T) -> Self {
-        BuildError
+    fn custom<T: core::fmt::Display>(t: T) -> Self {
+        BuildError(format!("{}", t))
     }
 }
 impl core::error::Error for BuildError {}
-- 
2.43.0


From 8590777b1b964db1eef0dac28da6c8b8db9bbd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:15 +0000
Subject: [PATCH 09/22] fix: quote strings that start with the legacy table
 marker '@'

---
 crates/toon/src/encode/primitives.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/toon/src/encode/primitives.rs b/crates/toon/src/encode/primitives.rs
index a84391a..12c822c 100644
--- a/crates/toon/src/encode/primitives.rs
+++ b/crates/toon/src/encode/primitives.rs
@@ -97,6 +97,10 @@ pub fn needs_quotes(s: &str, delim: Delimiter) -> bool {
     if s.starts_with('-') {
         return true;
     }
+    // A line starting with '@' reads as a legacy table header
+    if s.starts_with('@') {
+        return true;
+    }
     if s.starts_with(' ') || s.ends_with(' ') {
         return true;
     }
-- 
2.43.0


From a6e030dbd907c19837bfaebb77a48b7b7511946f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 10/22] fix: do not emit tables without columns and keep the
 alloc column order

---
 crates/toon/src/encode/encoders.rs |  4 ++++
 crates/toon/src/ser/stream.rs      | 15 ++++++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/crates/toon/src/encode/encoders.rs b/crates/toon/src/encode/encoders.rs
index 7a9e223..87b456e 100644
--- a/crates/toon/src/encode/encoders.rs
+++ b/crates/toon/src/encode/encoders.rs
@@ -727,6 +727,10 @@ pub fn is_tabular_array(arr: &[Value]) -> Option<Vec<String>> {
             Value::Object(m) => m,
             _ => return None,
         };
+        if obj.is_empty() {
+            // No columns: `[N]{}:` cannot be decoded
+            return None;
+        }
         let kset: Vec<String> = obj.keys().cloned().collect();
 
         if let Some(ref ks) = keys {
diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 6e635ae..ef982f4 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -1407,13 +1407,22 @@ fn is_tabular_array_alloc(arr: &[IValue]) -> Option<Vec<String>> {
             IValue::Object(pairs) => pairs,
             _ => return None,
         };
-        let mut kset: Vec<String> = obj.iter().map(|(k, _)| k.clone()).collect();
-        kset.sort();
+        if obj.is_empty() {
+            // No columns: `[N]{}:` cannot be decoded
+            return None;
+        }
+        let kset: Vec<String> = obj.iter().map(|(k, _)| k.clone()).collect();
         if let Some(ref ks) = keys {
-            if *ks != kset {
+            // Check if keys match (order-insensitive comparison)
+            let mut kset_sorted = kset.clone();
+            kset_sorted.sort();
+            let mut ks_sorted = ks.clone();
+            ks_sorted.sort();
+            if ks_sorted != kset_sorted {
                 return None;
             }
         } else {
+            // Use the key order from the first object
             keys = Some(kset);
         }
         for (_, vv) in obj.iter() {
-- 
2.43.0


From 306995d8315d9be4c492616f1406317a0688b790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:48 +0000
Subject: [PATCH 11/22] fix: accept other delimiters inside the cells of a
 single-column table

---
 crates/toon/src/decode/parser.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index f1b0923..417505e 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -1098,8 +1098,14 @@ impl<'a> Parser<'a> {
             let row_line_no = self.idx + 1;
             self.next();
 
+            let cells = split_delim_aware(row_text, delimiter);
+
             // In strict mode, check if row uses a different delimiter than declared
-            if self.strict && self.error.is_none() && check_delimiter_mismatch(row_text, delimiter)
+            // (a row with the declared number of cells does not)
+            if self.strict
+                && self.error.is_none()
+                && cells.len() != expected_cells
+                && check_delimiter_mismatch(row_text, delimiter)
             {
                 self.error = Some(crate::error::Error::Syntax {
                     line: row_line_no,
@@ -1109,8 +1115,6 @@ impl<'a> Parser<'a> {
                 });
             }
 
-            let cells = split_delim_aware(row_text, delimiter);
-
             // Validate cell count matches header field count
             if cells.len() != expected_cells && self.error.is_none() {
                 self.error = Some(crate::error::Error::Syntax {
-- 
2.43.0


From 4e66f44c86955c9055141a3ad2c5d03dee748bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 12/22] fix: nest only deeper-indented lines under a key or
 array header

---
 crates/toon/src/decode/parser.rs | 48 ++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 417505e..0e29ff9 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -72,6 +72,18 @@ impl<'a> Parser<'a> {
         self.lines.get(i)
     }
 
+    /// Indentation of the block nested under a line at `parent`: that of the next
+    /// non-blank line when it is deeper than `parent`.
+    fn child_indent(&self, parent: usize) -> usize {
+        self.lines
+            .iter()
+            .skip(self.idx)
+            .find(|l| !matches!(l.kind, LineKind::Blank))
+            .map(|l| l.indent)
+            .filter(|i| *i > parent)
+            .unwrap_or(parent + 2)
+    }
+
     fn parse_scalar_token(&mut self, s: &str) -> Value {
         self.parse_scalar_token_at_line(s, self.idx)
     }
@@ -248,7 +260,7 @@ impl<'a> Parser<'a> {
                             let key_parsed = self.parse_key_token(key);
                             let child_indent = indent + 2;
                             let mut map: Vec<(String, Value)> = Vec::new();
-                            let v = self.parse_keyed_array_value(&header);
+                            let v = self.parse_keyed_array_value(&header, indent);
                             map.push((key_parsed, v));
                             // Parse any additional fields at child indent
                             if let Value::Object(mut rest) = self.parse_object(child_indent) {
@@ -260,7 +272,7 @@ impl<'a> Parser<'a> {
                         // No key - this is an inline array like "- [N]{fields}:"
                         if let Some(ref fields) = header.fields {
                             let header_line_no = self.idx; // Already consumed the header
-                            let row_indent = self.peek().map(|l| l.indent).unwrap_or(indent + 2);
+                            let row_indent = self.child_indent(indent);
                             let fields_refs: Vec<&str> =
                                 fields.iter().map(|s| s.as_str()).collect();
                             arr.push(self.parse_tabular_rows(
@@ -290,7 +302,7 @@ impl<'a> Parser<'a> {
                             continue;
                         }
                         // Expanded array header: parse nested list items at child indent
-                        let child_indent = self.peek().map(|l| l.indent).unwrap_or(indent + 2);
+                        let child_indent = self.child_indent(indent);
                         arr.push(self.parse_array(child_indent));
                         continue;
                     }
@@ -301,9 +313,14 @@ impl<'a> Parser<'a> {
                     let child_indent = indent + 2;
                     let mut map: Vec<(String, Value)> = Vec::new();
                     if vraw.is_empty() {
-                        // Value on following indented lines
-                        let v = self.parse_node(child_indent);
-                        map.push((key, v));
+                        // Value on following lines, indented deeper than the sibling fields
+                        let v = self.parse_node(child_indent + 1);
+                        // If key: has no children, produce empty object instead of null
+                        if matches!(v, Value::Null) {
+                            map.push((key, Value::Object(Vec::new())));
+                        } else {
+                            map.push((key, v));
+                        }
                     } else {
                         map.push((key, self.parse_scalar_token(vraw)));
                     }
@@ -348,7 +365,7 @@ impl<'a> Parser<'a> {
                                         .as_ref()
                                         .map(|k| self.parse_key_token(k))
                                         .unwrap_or_default();
-                                    let v = self.parse_keyed_array_value(&header);
+                                    let v = self.parse_keyed_array_value(&header, indent);
                                     map.push((k, v));
                                     continue;
                                 }
@@ -384,7 +401,7 @@ impl<'a> Parser<'a> {
                             .as_ref()
                             .map(|k| self.parse_key_token(k))
                             .unwrap_or_default();
-                        let v = self.parse_keyed_array_value(&header);
+                        let v = self.parse_keyed_array_value(&header, indent);
                         map.push((k, v));
                         continue;
                     }
@@ -403,7 +420,7 @@ impl<'a> Parser<'a> {
                             .as_ref()
                             .map(|k| self.parse_key_token(k))
                             .unwrap_or_default();
-                        let v = self.parse_keyed_array_value(&header);
+                        let v = self.parse_keyed_array_value(&header, indent);
                         map.push((k, v));
                         continue;
                     }
@@ -589,7 +606,7 @@ impl<'a> Parser<'a> {
                                 }
                             }
                         }
-                        let v = self.parse_node(child_indent);
+                        let v = self.parse_node(indent + 1);
                         // If key: has no children, produce empty object instead of null
                         if matches!(v, Value::Null) {
                             map.push((k, Value::Object(Vec::new())));
@@ -803,7 +820,7 @@ impl<'a> Parser<'a> {
                                         header.length,
                                         header.delimiter,
                                         &fields_refs,
-                                        indent + 2,
+                                        self.child_indent(indent),
                                         header_line_no,
                                     );
                                 }
@@ -818,7 +835,8 @@ impl<'a> Parser<'a> {
                                         );
                                     }
                                 }
-                                return self.parse_array(indent);
+                                let child_indent = self.child_indent(indent);
+                                return self.parse_array(child_indent);
                             }
                         }
                     }
@@ -973,7 +991,7 @@ impl<'a> Parser<'a> {
     }
 
     /// Parse the value for a keyed array header
-    fn parse_keyed_array_value(&mut self, header: &ArrayHeader) -> Value {
+    fn parse_keyed_array_value(&mut self, header: &ArrayHeader, indent: usize) -> Value {
         let header_line_no = self.idx; // Header was already consumed
 
         // In strict mode, check for delimiter mismatch between bracket and brace
@@ -987,7 +1005,7 @@ impl<'a> Parser<'a> {
         // If there are fields, it's a tabular array
         if let Some(ref fields) = header.fields {
             // Get current indent to determine row indent
-            let row_indent = self.peek().map(|l| l.indent).unwrap_or(2);
+            let row_indent = self.child_indent(indent);
             let fields_refs: Vec<&str> = fields.iter().map(|s| s.as_str()).collect();
             return self.parse_tabular_rows(
                 header.length,
@@ -1023,7 +1041,7 @@ impl<'a> Parser<'a> {
         }
 
         // Otherwise, parse list items at child indent
-        let child_indent = self.peek().map(|l| l.indent).unwrap_or(2);
+        let child_indent = self.child_indent(indent);
         self.parse_array_with_length_check(child_indent, header.length, header_line_no)
     }
 
-- 
2.43.0


From cd446bd5a1cbc52e10d8897d450dee81eadb13f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 13/22] fix: enforce the declared length of list-item and
 nested arrays

---
 crates/toon/src/decode/parser.rs | 34 ++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 0e29ff9..ab0a6d1 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -287,6 +287,7 @@ impl<'a> Parser<'a> {
                         if let Some(ref inline) = header.inline_values {
                             if !inline.is_empty() {
                                 let values = split_delim_aware(inline, header.delimiter);
+                                self.check_array_length(header.length, values.len(), self.idx);
                                 arr.push(Value::Array(
                                     values
                                         .into_iter()
@@ -303,7 +304,12 @@ impl<'a> Parser<'a> {
                         }
                         // Expanded array header: parse nested list items at child indent
                         let child_indent = self.child_indent(indent);
-                        arr.push(self.parse_array(child_indent));
+                        let header_line_no = self.idx;
+                        arr.push(self.parse_array_with_length_check(
+                            child_indent,
+                            header.length,
+                            header_line_no,
+                        ));
                         continue;
                     }
                 }
@@ -827,6 +833,11 @@ impl<'a> Parser<'a> {
                                 if let Some(ref inline) = header.inline_values {
                                     if !inline.is_empty() {
                                         let values = split_delim_aware(inline, header.delimiter);
+                                        self.check_array_length(
+                                            header.length,
+                                            values.len(),
+                                            header_line_no,
+                                        );
                                         return Value::Array(
                                             values
                                                 .into_iter()
@@ -836,7 +847,11 @@ impl<'a> Parser<'a> {
                                     }
                                 }
                                 let child_indent = self.child_indent(indent);
-                                return self.parse_array(child_indent);
+                                return self.parse_array_with_length_check(
+                                    child_indent,
+                                    header.length,
+                                    header_line_no,
+                                );
                             }
                         }
                     }
@@ -850,6 +865,7 @@ impl<'a> Parser<'a> {
                             if let Some(ref inline) = header.inline_values {
                                 if !inline.is_empty() {
                                     let values = split_delim_aware(inline, header.delimiter);
+                                    self.check_array_length(header.length, values.len(), self.idx);
                                     return Value::Array(
                                         values
                                             .into_iter()
@@ -858,6 +874,7 @@ impl<'a> Parser<'a> {
                                     );
                                 }
                             }
+                            self.check_array_length(header.length, 0, self.idx);
                             return Value::Array(Vec::new());
                         }
                     }
@@ -1190,6 +1207,19 @@ impl<'a> Parser<'a> {
         }
         arr
     }
+
+    /// Report an inline array whose element count differs from its declared length
+    fn check_array_length(&mut self, expected: usize, found: usize, line_no: usize) {
+        if found != expected && self.error.is_none() {
+            self.error = Some(crate::error::Error::Syntax {
+                line: line_no,
+                message: format!(
+                    "array length mismatch: header declares {} elements but found {}",
+                    expected, found
+                ),
+            });
+        }
+    }
 }
 
 /// Legacy header parser for old @<delim> format (for backwards compatibility during transition)
-- 
2.43.0


From 328fb89bd2e65dd9c20a2ce190e613bb360e054e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:27 +0000
Subject: [PATCH 14/22] fix: reject input left over after the document

---
 crates/toon/src/decode/parser.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index ab0a6d1..5afb9f6 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -892,6 +892,19 @@ impl<'a> Parser<'a> {
     }
 
     pub fn parse_document(&mut self) -> Value {
+        let value = self.parse_root();
+        // Nothing may be left over: dropping it silently would lose data
+        self.skip_blanks();
+        if self.error.is_none() && self.peek().is_some() {
+            self.error = Some(crate::error::Error::Syntax {
+                line: self.idx + 1,
+                message: "unexpected content after the document".to_string(),
+            });
+        }
+        value
+    }
+
+    fn parse_root(&mut self) -> Value {
         self.skip_blanks();
         if self.peek().is_none() {
             // Empty document represents an empty object (root documents are implicitly objects)
-- 
2.43.0


From 7e1979f6e5e271075c4dcdbc2697f3c9a72d0ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 15/22] fix: honour Options::indent in list items, tables and
 the decoder

---
 crates/toon/src/de/mod.rs          |   2 +-
 crates/toon/src/decode/parser.rs   |  43 +++++++++---
 crates/toon/src/encode/encoders.rs |   8 +--
 crates/toon/src/ser/stream.rs      | 109 +++++++++++++++++++----------
 4 files changed, 112 insertions(+), 50 deletions(-)

diff --git a/crates/toon/src/de/mod.rs b/crates/toon/src/de/mod.rs
index 587d738..8b8a07c 100644
--- a/crates/toon/src/de/mod.rs
+++ b/crates/toon/src/de/mod.rs
@@ -174,7 +174,7 @@ fn from_str_via_internal_value<T: DeserializeOwned>(s: &str, options: &Options)
             });
         }
     }
-    let mut v = crate::decode::parser::parse_to_internal_value_from_lines(lines, options.strict)?;
+    let mut v = crate::decode::parser::parse_to_internal_value_with_options(lines, options)?;
 
     // Apply path expansion if enabled
     if options.expand_paths == crate::options::ExpandPaths::Safe {
diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 5afb9f6..b43be2c 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -13,10 +13,14 @@ use crate::value::{Number, Value};
 /// First f64 above the u64 range (2^64).
 const U64_RANGE_END: f64 = 18_446_744_073_709_551_616.0;
 
+/// Indentation step assumed when the caller does not give one.
+const DEFAULT_INDENT_SIZE: usize = 2;
+
 pub struct Parser<'a> {
     lines: Vec<ParsedLine<'a>>,
     idx: usize,
     strict: bool,
+    indent_size: usize,
     error: Option<crate::error::Error>,
 }
 
@@ -26,6 +30,7 @@ impl<'a> Parser<'a> {
             lines: scan(input),
             idx: 0,
             strict: false,
+            indent_size: DEFAULT_INDENT_SIZE,
             error: None,
         }
     }
@@ -35,6 +40,7 @@ impl<'a> Parser<'a> {
             lines: scan(input),
             idx: 0,
             strict,
+            indent_size: DEFAULT_INDENT_SIZE,
             error: None,
         }
     }
@@ -44,6 +50,7 @@ impl<'a> Parser<'a> {
             lines,
             idx: 0,
             strict,
+            indent_size: DEFAULT_INDENT_SIZE,
             error: None,
         }
     }
@@ -81,7 +88,7 @@ impl<'a> Parser<'a> {
             .find(|l| !matches!(l.kind, LineKind::Blank))
             .map(|l| l.indent)
             .filter(|i| *i > parent)
-            .unwrap_or(parent + 2)
+            .unwrap_or(parent.saturating_add(self.indent_size))
     }
 
     fn parse_scalar_token(&mut self, s: &str) -> Value {
@@ -258,7 +265,7 @@ impl<'a> Parser<'a> {
                         // If header has a key, this is a keyed array as first field of list-item object
                         if let Some(ref key) = header.key {
                             let key_parsed = self.parse_key_token(key);
-                            let child_indent = indent + 2;
+                            let child_indent = indent.saturating_add(self.indent_size);
                             let mut map: Vec<(String, Value)> = Vec::new();
                             let v = self.parse_keyed_array_value(&header, indent);
                             map.push((key_parsed, v));
@@ -316,7 +323,7 @@ impl<'a> Parser<'a> {
                 // 2) Support object-as-list-item with first field on the hyphen line: "- key: value"
                 if let Some((kraw, vraw)) = split_kv_quote_aware(vs) {
                     let key = self.parse_key_token(kraw);
-                    let child_indent = indent + 2;
+                    let child_indent = indent.saturating_add(self.indent_size);
                     let mut map: Vec<(String, Value)> = Vec::new();
                     if vraw.is_empty() {
                         // Value on following lines, indented deeper than the sibling fields
@@ -341,7 +348,7 @@ impl<'a> Parser<'a> {
                 arr.push(self.parse_scalar_token(vs));
             } else {
                 // Bare "-" list item - check if there are children
-                let child_indent = indent + 2;
+                let child_indent = indent.saturating_add(self.indent_size);
                 let child_val = self.parse_node(child_indent);
                 // If parse_node returns Null (no children), this is an empty object
                 if matches!(child_val, Value::Null) {
@@ -433,7 +440,7 @@ impl<'a> Parser<'a> {
                     self.next();
                     let k = self.parse_key_token(kref);
                     // Detect actual child indent from next line (supports non-multiple indentation in non-strict mode)
-                    let child_indent = self.peek().map(|l| l.indent).unwrap_or(indent + 2);
+                    let child_indent = self.child_indent(indent);
                     let mut handled = false;
                     if let Some(nl) = self.peek() {
                         if nl.indent == child_indent && nl.indent > indent {
@@ -981,13 +988,13 @@ impl<'a> Parser<'a> {
         self.next(); // Consume header line
 
         if let Some(ref fields) = header.fields {
-            // Tabular array - rows at indent 2
+            // Tabular array - rows one level below the header
             let fields_refs: Vec<&str> = fields.iter().map(|s| s.as_str()).collect();
             return self.parse_tabular_rows(
                 header.length,
                 header.delimiter,
                 &fields_refs,
-                2,
+                self.child_indent(0),
                 line_no,
             );
         }
@@ -1016,8 +1023,9 @@ impl<'a> Parser<'a> {
             }
         }
 
-        // Expanded array with list items at indent 2
-        self.parse_array_with_length_check(2, header.length, line_no)
+        // Expanded array with list items one level below the header
+        let child_indent = self.child_indent(0);
+        self.parse_array_with_length_check(child_indent, header.length, line_no)
     }
 
     /// Parse the value for a keyed array header
@@ -1824,6 +1832,23 @@ pub fn parse_to_internal_value_from_lines<'a>(
     }
 }
 
+/// Parse scanned lines with the strictness and indentation step of `options`.
+pub fn parse_to_internal_value_with_options<'a>(
+    lines: Vec<ParsedLine<'a>>,
+    options: &crate::options::Options,
+) -> Result<Value, crate::error::Error> {
+    let mut p = Parser::from_lines(lines, options.strict);
+    if options.indent > 0 {
+        p.indent_size = options.indent;
+    }
+    let v = p.parse_document();
+    if let Some(err) = p.error {
+        Err(err)
+    } else {
+        Ok(v)
+    }
+}
+
 pub fn parse_to_value_with_strict(input: &str, strict: bool) -> Result<Value, crate::error::Error> {
     let mut p = Parser::from_input_with_strict(input, strict);
     let v = p.parse_document();
diff --git a/crates/toon/src/encode/encoders.rs b/crates/toon/src/encode/encoders.rs
index 87b456e..2ca9e58 100644
--- a/crates/toon/src/encode/encoders.rs
+++ b/crates/toon/src/encode/encoders.rs
@@ -605,7 +605,7 @@ fn encode_list_item_object(
             );
             w.line_list_item(indent, &header);
 
-            // Rows at depth+2 (indent + 4 relative to list item indent)
+            // Rows at depth+2 (indent + 2 * opts.indent relative to list item indent)
             for item in items {
                 let inner_obj = item.as_object().unwrap();
                 let cells: Vec<String> = keys
@@ -616,7 +616,7 @@ fn encode_list_item_object(
                     })
                     .collect();
                 let row = join_with_delim(&cells, dch);
-                w.line(indent + 4, &row);
+                w.line(indent + 2 * opts.indent, &row);
             }
 
             // Other fields at depth+1 (indent + opts.indent)
@@ -684,7 +684,7 @@ fn encode_list_item_object(
                     ),
                 );
                 for inner_item in items {
-                    encode_list_item(inner_item, w, opts, indent + 4)?;
+                    encode_list_item(inner_item, w, opts, indent + 2 * opts.indent)?;
                 }
             }
         }
@@ -692,7 +692,7 @@ fn encode_list_item_object(
             w.line(indent, &format!("- {}:", first_key_fmt));
             if !inner_obj.is_empty() {
                 for (k, v) in inner_obj {
-                    encode_object_field(k, v, w, opts, indent + 4)?;
+                    encode_object_field(k, v, w, opts, indent + 2 * opts.indent)?;
                 }
             }
         }
diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index ef982f4..8867f61 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -781,7 +781,7 @@ fn encode_list_item_json(
                     );
                     w.line_list_item(indent, &header);
 
-                    // Rows at indent + 4
+                    // Rows at indent + 2 * opts.indent
                     for item in items {
                         let inner_obj = item.as_object().unwrap();
                         let cells: Vec<String> = keys
@@ -792,7 +792,7 @@ fn encode_list_item_json(
                             })
                             .collect();
                         let row = join_with_delim(&cells, dch);
-                        w.line(indent + 4, &row);
+                        w.line(indent + 2 * opts.indent, &row);
                     }
 
                     // Remaining fields at depth + 1 (indent + opts.indent)
@@ -828,8 +828,13 @@ fn encode_list_item_json(
                             }
                             Value::Object(_) => {
                                 w.line_key_only(indent + opts.indent, &key_fmt);
-                                crate::encode::encoders::encode_value(v, w, opts, indent + 4)
-                                    .map_err(|e| SerError::custom(e.to_string()))?;
+                                crate::encode::encoders::encode_value(
+                                    v,
+                                    w,
+                                    opts,
+                                    indent + 2 * opts.indent,
+                                )
+                                .map_err(|e| SerError::custom(e.to_string()))?;
                             }
                         }
                     }
@@ -894,7 +899,7 @@ fn encode_list_item_json(
                             ),
                         );
                         for inner in items {
-                            encode_list_item_json(inner, w, opts, indent + 4)?;
+                            encode_list_item_json(inner, w, opts, indent + 2 * opts.indent)?;
                         }
                     }
                 }
@@ -904,27 +909,44 @@ fn encode_list_item_json(
                         for (k, v) in inner_obj {
                             let key_fmt = primitives::format_key(k);
                             match v {
-                                Value::Null => {
-                                    w.line_kv(indent + 4, &key_fmt, primitives::format_null())
-                                }
-                                Value::Bool(b) => {
-                                    w.line_kv(indent + 4, &key_fmt, primitives::format_bool(*b))
-                                }
-                                Value::Number(n) => {
-                                    w.line_kv(indent + 4, &key_fmt, &primitives::format_number(n))
-                                }
+                                Value::Null => w.line_kv(
+                                    indent + 2 * opts.indent,
+                                    &key_fmt,
+                                    primitives::format_null(),
+                                ),
+                                Value::Bool(b) => w.line_kv(
+                                    indent + 2 * opts.indent,
+                                    &key_fmt,
+                                    primitives::format_bool(*b),
+                                ),
+                                Value::Number(n) => w.line_kv(
+                                    indent + 2 * opts.indent,
+                                    &key_fmt,
+                                    &primitives::format_number(n),
+                                ),
                                 Value::String(s) => w.line_kv(
-                                    indent + 4,
+                                    indent + 2 * opts.indent,
                                     &key_fmt,
                                     &primitives::format_string(s, opts.delimiter),
                                 ),
                                 Value::Array(arr) => {
-                                    encode_keyed_array_json(&key_fmt, arr, w, opts, indent + 4)?;
+                                    encode_keyed_array_json(
+                                        &key_fmt,
+                                        arr,
+                                        w,
+                                        opts,
+                                        indent + 2 * opts.indent,
+                                    )?;
                                 }
                                 Value::Object(_) => {
-                                    w.line_key_only(indent + 4, &key_fmt);
-                                    crate::encode::encoders::encode_value(v, w, opts, indent + 6)
-                                        .map_err(|e| SerError::custom(e.to_string()))?;
+                                    w.line_key_only(indent + 2 * opts.indent, &key_fmt);
+                                    crate::encode::encoders::encode_value(
+                                        v,
+                                        w,
+                                        opts,
+                                        indent + 3 * opts.indent,
+                                    )
+                                    .map_err(|e| SerError::custom(e.to_string()))?;
                                 }
                             }
                         }
@@ -957,7 +979,7 @@ fn encode_list_item_json(
                     }
                     Value::Object(_) => {
                         w.line_key_only(indent + opts.indent, &key_fmt);
-                        crate::encode::encoders::encode_value(v, w, opts, indent + 4)
+                        crate::encode::encoders::encode_value(v, w, opts, indent + 2 * opts.indent)
                             .map_err(|e| SerError::custom(e.to_string()))?;
                     }
                 }
@@ -1135,7 +1157,7 @@ fn encode_list_item_alloc(
                     );
                     w.line_list_item(indent, &header);
 
-                    // Rows at indent + 4
+                    // Rows at indent + 2 * opts.indent
                     for item in items {
                         let obj = match item {
                             IValue::Object(p) => p,
@@ -1149,7 +1171,7 @@ fn encode_list_item_alloc(
                             })
                             .collect();
                         let row = join_with_delim(&cells, dch);
-                        w.line(indent + 4, &row);
+                        w.line(indent + 2 * opts.indent, &row);
                     }
 
                     // Remaining fields at depth + 1 (indent + opts.indent)
@@ -1183,7 +1205,7 @@ fn encode_list_item_alloc(
                             }
                             IValue::Object(_) => {
                                 w.line_key_only(indent + opts.indent, &key_fmt);
-                                encode_internal_value_alloc(v, w, opts, indent + 4)?;
+                                encode_internal_value_alloc(v, w, opts, indent + 2 * opts.indent)?;
                             }
                         }
                     }
@@ -1245,7 +1267,7 @@ fn encode_list_item_alloc(
                             ),
                         );
                         for inner in items {
-                            encode_list_item_alloc(inner, w, opts, indent + 4)?;
+                            encode_list_item_alloc(inner, w, opts, indent + 2 * opts.indent)?;
                         }
                     }
                 }
@@ -1255,26 +1277,41 @@ fn encode_list_item_alloc(
                         for (k, v) in inner_obj {
                             let key_fmt = primitives::format_key(k);
                             match v {
-                                IValue::Null => {
-                                    w.line_kv(indent + 4, &key_fmt, primitives::format_null())
-                                }
-                                IValue::Bool(b) => {
-                                    w.line_kv(indent + 4, &key_fmt, primitives::format_bool(*b))
-                                }
+                                IValue::Null => w.line_kv(
+                                    indent + 2 * opts.indent,
+                                    &key_fmt,
+                                    primitives::format_null(),
+                                ),
+                                IValue::Bool(b) => w.line_kv(
+                                    indent + 2 * opts.indent,
+                                    &key_fmt,
+                                    primitives::format_bool(*b),
+                                ),
                                 IValue::Number(n) => {
-                                    w.line_kv(indent + 4, &key_fmt, &n.to_string())
+                                    w.line_kv(indent + 2 * opts.indent, &key_fmt, &n.to_string())
                                 }
                                 IValue::String(s) => w.line_kv(
-                                    indent + 4,
+                                    indent + 2 * opts.indent,
                                     &key_fmt,
                                     &primitives::format_string(s, opts.delimiter),
                                 ),
                                 IValue::Array(arr) => {
-                                    encode_keyed_array_alloc(&key_fmt, arr, w, opts, indent + 4)?;
+                                    encode_keyed_array_alloc(
+                                        &key_fmt,
+                                        arr,
+                                        w,
+                                        opts,
+                                        indent + 2 * opts.indent,
+                                    )?;
                                 }
                                 IValue::Object(_) => {
-                                    w.line_key_only(indent + 4, &key_fmt);
-                                    encode_internal_value_alloc(v, w, opts, indent + 6)?;
+                                    w.line_key_only(indent + 2 * opts.indent, &key_fmt);
+                                    encode_internal_value_alloc(
+                                        v,
+                                        w,
+                                        opts,
+                                        indent + 3 * opts.indent,
+                                    )?;
                                 }
                             }
                         }
@@ -1303,7 +1340,7 @@ fn encode_list_item_alloc(
                     }
                     IValue::Object(_) => {
                         w.line_key_only(indent + opts.indent, &key_fmt);
-                        encode_internal_value_alloc(v, w, opts, indent + 4)?;
+                        encode_internal_value_alloc(v, w, opts, indent + 2 * opts.indent)?;
                     }
                 }
             }
-- 
2.43.0


From acf8a5e3d2a7df993f64965d2296c63c848fb869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:52 +0000
Subject: [PATCH 16/22] fix: never leak or eat the quoted-key marker of path
 expansion

---
 crates/toon/src/decode/parser.rs      | 27 ++++++++++++++++++++++-----
 crates/toon/src/decode/path_expand.rs |  2 +-
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index b43be2c..919de66 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -1,3 +1,4 @@
+use crate::decode::path_expand::QUOTED_DOT_MARKER;
 use crate::decode::scanner::{LineKind, ParsedLine, scan};
 
 #[cfg(not(feature = "std"))]
@@ -21,6 +22,8 @@ pub struct Parser<'a> {
     idx: usize,
     strict: bool,
     indent_size: usize,
+    /// Mark keys that path expansion must leave alone (it strips the mark again)
+    mark_literal_keys: bool,
     error: Option<crate::error::Error>,
 }
 
@@ -31,6 +34,7 @@ impl<'a> Parser<'a> {
             idx: 0,
             strict: false,
             indent_size: DEFAULT_INDENT_SIZE,
+            mark_literal_keys: false,
             error: None,
         }
     }
@@ -41,6 +45,7 @@ impl<'a> Parser<'a> {
             idx: 0,
             strict,
             indent_size: DEFAULT_INDENT_SIZE,
+            mark_literal_keys: false,
             error: None,
         }
     }
@@ -51,6 +56,7 @@ impl<'a> Parser<'a> {
             idx: 0,
             strict,
             indent_size: DEFAULT_INDENT_SIZE,
+            mark_literal_keys: false,
             error: None,
         }
     }
@@ -188,11 +194,10 @@ impl<'a> Parser<'a> {
                 Ok(st) => {
                     // If this quoted key contains a dot, mark it to prevent path expansion
                     // by prefixing with a zero-width space (U+200B)
-                    if st.contains('.') {
-                        let mut marked = String::with_capacity(st.len() + 3);
-                        marked.push('\u{200B}');
-                        marked.push_str(&st);
-                        return marked;
+                    if self.mark_literal_keys
+                        && (st.contains('.') || st.starts_with(QUOTED_DOT_MARKER))
+                    {
+                        return mark_literal_key(&st);
                     }
                     return st;
                 }
@@ -211,6 +216,9 @@ impl<'a> Parser<'a> {
                 Err(_) => return String::new(),
             }
         }
+        if self.mark_literal_keys && k.starts_with(QUOTED_DOT_MARKER) {
+            return mark_literal_key(k);
+        }
         k.to_string()
     }
 
@@ -1243,6 +1251,14 @@ impl<'a> Parser<'a> {
     }
 }
 
+/// Prefix a key with the mark that path expansion strips again
+fn mark_literal_key(key: &str) -> String {
+    let mut marked = String::with_capacity(key.len() + QUOTED_DOT_MARKER.len_utf8());
+    marked.push(QUOTED_DOT_MARKER);
+    marked.push_str(key);
+    marked
+}
+
 /// Legacy header parser for old @<delim> format (for backwards compatibility during transition)
 fn parse_header(s: &str) -> Option<(char, &str)> {
     let mut it = s.chars();
@@ -1841,6 +1857,7 @@ pub fn parse_to_internal_value_with_options<'a>(
     if options.indent > 0 {
         p.indent_size = options.indent;
     }
+    p.mark_literal_keys = options.expand_paths == crate::options::ExpandPaths::Safe;
     let v = p.parse_document();
     if let Some(err) = p.error {
         Err(err)
diff --git a/crates/toon/src/decode/path_expand.rs b/crates/toon/src/decode/path_expand.rs
index 8e59d94..89a56fe 100644
--- a/crates/toon/src/decode/path_expand.rs
+++ b/crates/toon/src/decode/path_expand.rs
@@ -42,7 +42,7 @@ fn is_valid_identifier(s: &str) -> bool {
 
 /// Marker character used to indicate a key came from a quoted string with dots.
 /// This is a zero-width space (U+200B) which is stripped before output.
-const QUOTED_DOT_MARKER: char = '\u{200B}';
+pub(crate) const QUOTED_DOT_MARKER: char = '\u{200B}';
 
 /// Check if a key should be expanded (unquoted and all segments are valid identifiers).
 fn should_expand_key(key: &str) -> bool {
-- 
2.43.0


From 66469a912d081376a426550f8b325512cf90e84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:38 +0000
Subject: [PATCH 17/22] fix: check every folded key against its sibling keys

---
 crates/toon/src/encode/encoders.rs | 36 +++++++++++++++++-------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/crates/toon/src/encode/encoders.rs b/crates/toon/src/encode/encoders.rs
index 2ca9e58..75dbbc1 100644
--- a/crates/toon/src/encode/encoders.rs
+++ b/crates/toon/src/encode/encoders.rs
@@ -42,8 +42,9 @@ pub fn encode_value(
                 // Empty object: just key: with nothing following
                 // (when nested, the parent emits "key:" and this produces no additional lines)
             } else {
+                let sibling_keys: Vec<String> = obj.keys().cloned().collect();
                 for (k, v) in obj {
-                    encode_object_field_internal(k, v, w, opts, indent)?;
+                    encode_object_field_with_siblings(k, v, w, opts, indent, &sibling_keys)?;
                 }
             }
         }
@@ -51,17 +52,6 @@ pub fn encode_value(
     Ok(())
 }
 
-/// Encode an object field (key-value pair) - internal version without sibling context
-fn encode_object_field_internal(
-    key: &str,
-    value: &Value,
-    w: &mut LineWriter,
-    opts: &Options,
-    indent: usize,
-) -> Result<()> {
-    encode_object_field_with_context(key, value, w, opts, indent, None)
-}
-
 /// Encode an object field (key-value pair) - public API for streaming serializer
 pub fn encode_object_field(
     key: &str,
@@ -590,6 +580,7 @@ fn encode_list_item_object(
     let mut iter = obj.iter();
     let (first_key, first_value) = iter.next().unwrap();
     let first_key_fmt = primitives::format_key(first_key);
+    let sibling_keys: Vec<String> = obj.keys().cloned().collect();
 
     // Check if first field is a tabular array (§10 special case)
     if let Value::Array(items) = first_value {
@@ -621,7 +612,14 @@ fn encode_list_item_object(
 
             // Other fields at depth+1 (indent + opts.indent)
             for (k, v) in iter {
-                encode_object_field(k, v, w, opts, indent + opts.indent)?;
+                encode_object_field_with_siblings(
+                    k,
+                    v,
+                    w,
+                    opts,
+                    indent + opts.indent,
+                    &sibling_keys,
+                )?;
             }
             return Ok(());
         }
@@ -691,8 +689,16 @@ fn encode_list_item_object(
         Value::Object(inner_obj) => {
             w.line(indent, &format!("- {}:", first_key_fmt));
             if !inner_obj.is_empty() {
+                let inner_keys: Vec<String> = inner_obj.keys().cloned().collect();
                 for (k, v) in inner_obj {
-                    encode_object_field(k, v, w, opts, indent + 2 * opts.indent)?;
+                    encode_object_field_with_siblings(
+                        k,
+                        v,
+                        w,
+                        opts,
+                        indent + 2 * opts.indent,
+                        &inner_keys,
+                    )?;
                 }
             }
         }
@@ -700,7 +706,7 @@ fn encode_list_item_object(
 
     // Remaining fields at depth+1 (indent + opts.indent)
     for (k, v) in iter {
-        encode_object_field(k, v, w, opts, indent + opts.indent)?;
+        encode_object_field_with_siblings(k, v, w, opts, indent + opts.indent, &sibling_keys)?;
     }
     Ok(())
 }
-- 
2.43.0


From 5263c56f29b610dea35aed29b944e38a9c1563fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:55 +0000
Subject: [PATCH 18/22] fix: decode Option, newtype struct and enum targets

---
 crates/toon/src/de/direct.rs | 212 ++++++++++++++++++++++++++++++-----
 crates/toon/src/de/mod.rs    |  54 ++++++++-
 2 files changed, 239 insertions(+), 27 deletions(-)

diff --git a/crates/toon/src/de/direct.rs b/crates/toon/src/de/direct.rs
index 2628532..3824a78 100644
--- a/crates/toon/src/de/direct.rs
+++ b/crates/toon/src/de/direct.rs
@@ -159,10 +159,63 @@ impl<'de, 'a> de::Deserializer<'de> for &mut DirectDeserializer<'a> {
         }
     }
 
+    fn deserialize_option<V>(self, visitor: V) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        self.skip_blanks();
+        match self.peek().map(|pl| &pl.kind) {
+            None => visitor.visit_none(),
+            Some(LineKind::Scalar(s)) => {
+                PrimDe(DirectDeserializer::classify_primitive(s)).deserialize_option(visitor)
+            }
+            Some(_) => visitor.visit_some(self),
+        }
+    }
+
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
+    fn deserialize_enum<V>(
+        self,
+        name: &'static str,
+        variants: &'static [&'static str],
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        self.skip_blanks();
+        let Some(pl) = self.peek() else {
+            return Err(de::Error::custom("expected a variant"));
+        };
+        let indent = pl.indent;
+        match &pl.kind {
+            LineKind::Scalar(s) => PrimDe(DirectDeserializer::classify_primitive(s))
+                .deserialize_enum(name, variants, visitor),
+            LineKind::KeyValue { .. } | LineKind::KeyOnly { .. } => {
+                let ma = MapDe {
+                    de: self,
+                    indent,
+                    pending: None,
+                };
+                visitor.visit_enum(de::value::MapAccessDeserializer::new(ma))
+            }
+            _ => Err(de::Error::custom("expected a variant name or a map")),
+        }
+    }
+
     serde::forward_to_deserialize_any! {
         bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf
-        option unit unit_struct newtype_struct seq tuple tuple_struct map struct
-        enum identifier ignored_any
+        unit unit_struct seq tuple tuple_struct map struct identifier ignored_any
     }
 }
 
@@ -190,10 +243,127 @@ impl<'de> de::Deserializer<'de> for PrimDe {
             Primitive::Str(s) => visitor.visit_string(s),
         }
     }
+    fn deserialize_option<V>(self, visitor: V) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        match self.0 {
+            Primitive::Null => visitor.visit_none(),
+            _ => visitor.visit_some(self),
+        }
+    }
+
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
+    fn deserialize_enum<V>(
+        self,
+        _name: &'static str,
+        _variants: &'static [&'static str],
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        match self.0 {
+            Primitive::Str(s) => visitor.visit_enum(s.into_deserializer()),
+            _ => Err(de::Error::custom("expected a variant name")),
+        }
+    }
+
+    serde::forward_to_deserialize_any! {
+        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf
+        unit unit_struct seq tuple tuple_struct map struct identifier ignored_any
+    }
+}
+
+/// A nested mapping, whatever the target type asks for
+struct MapBlock<A>(A);
+impl<'de, A: MapAccess<'de, Error = DeError>> de::Deserializer<'de> for MapBlock<A> {
+    type Error = DeError;
+    fn deserialize_any<V>(self, visitor: V) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_map(self.0)
+    }
+
+    fn deserialize_option<V>(self, visitor: V) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_some(self)
+    }
+
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
+    fn deserialize_enum<V>(
+        self,
+        _name: &'static str,
+        _variants: &'static [&'static str],
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_enum(de::value::MapAccessDeserializer::new(self.0))
+    }
+
+    serde::forward_to_deserialize_any! {
+        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf
+        unit unit_struct seq tuple tuple_struct map struct identifier ignored_any
+    }
+}
+
+/// A nested sequence, whatever the target type asks for
+struct SeqBlock<A>(A);
+impl<'de, A: SeqAccess<'de, Error = DeError>> de::Deserializer<'de> for SeqBlock<A> {
+    type Error = DeError;
+    fn deserialize_any<V>(self, visitor: V) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_seq(self.0)
+    }
+
+    fn deserialize_option<V>(self, visitor: V) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_some(self)
+    }
+
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
     serde::forward_to_deserialize_any! {
         bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf
-        option unit unit_struct newtype_struct seq tuple tuple_struct map struct
-        enum identifier ignored_any
+        unit unit_struct seq tuple tuple_struct map struct enum identifier ignored_any
     }
 }
 
@@ -233,9 +403,7 @@ impl<'de, 'a, 'b> SeqAccess<'de> for SeqDe<'a, 'b> {
                         tokens: toks,
                         idx: 0,
                     };
-                    return seed
-                        .deserialize(de::value::SeqAccessDeserializer::new(&mut ia))
-                        .map(Some);
+                    return seed.deserialize(SeqBlock(&mut ia)).map(Some);
                 }
             }
             // 2) Object on hyphen line: variants
@@ -253,9 +421,7 @@ impl<'de, 'a, 'b> SeqAccess<'de> for SeqDe<'a, 'b> {
                             first_val: Some(HyphenFirstValue::TabularHeader { dch, header }),
                             siblings_indent,
                         };
-                        return seed
-                            .deserialize(de::value::MapAccessDeserializer::new(&mut obj))
-                            .map(Some);
+                        return seed.deserialize(MapBlock(&mut obj)).map(Some);
                     }
                 }
                 // 2b) Regular key: value or nested object
@@ -280,9 +446,7 @@ impl<'de, 'a, 'b> SeqAccess<'de> for SeqDe<'a, 'b> {
                     first_val: Some(first_val),
                     siblings_indent,
                 };
-                return seed
-                    .deserialize(de::value::MapAccessDeserializer::new(&mut obj))
-                    .map(Some);
+                return seed.deserialize(MapBlock(&mut obj)).map(Some);
             }
             // 3) Fallback primitive value
             let tok = DirectDeserializer::classify_primitive(vs);
@@ -295,8 +459,7 @@ impl<'de, 'a, 'b> SeqAccess<'de> for SeqDe<'a, 'b> {
                 indent: self.indent + 2,
                 pending: None,
             };
-            seed.deserialize(de::value::MapAccessDeserializer::new(&mut ma))
-                .map(Some)
+            seed.deserialize(MapBlock(&mut ma)).map(Some)
         }
     }
 }
@@ -447,7 +610,7 @@ impl<'de, 'a, 'b> MapAccess<'de> for MapDe<'a, 'b> {
                     tokens: toks,
                     idx: 0,
                 };
-                seed.deserialize(de::value::SeqAccessDeserializer::new(&mut ia))
+                seed.deserialize(SeqBlock(&mut ia))
             }
             ValueKind::NestedObject { child_indent } => {
                 let mut ma = MapDe {
@@ -455,14 +618,14 @@ impl<'de, 'a, 'b> MapAccess<'de> for MapDe<'a, 'b> {
                     indent: child_indent,
                     pending: None,
                 };
-                seed.deserialize(de::value::MapAccessDeserializer::new(&mut ma))
+                seed.deserialize(MapBlock(&mut ma))
             }
             ValueKind::Array { child_indent } => {
                 let mut sa = SeqDe {
                     de: self.de,
                     indent: child_indent,
                 };
-                seed.deserialize(de::value::SeqAccessDeserializer::new(&mut sa))
+                seed.deserialize(SeqBlock(&mut sa))
             }
             ValueKind::Tabular {
                 dch,
@@ -475,7 +638,7 @@ impl<'de, 'a, 'b> MapAccess<'de> for MapDe<'a, 'b> {
                     dch,
                     header,
                 };
-                seed.deserialize(de::value::SeqAccessDeserializer::new(&mut ta))
+                seed.deserialize(SeqBlock(&mut ta))
             }
         }
     }
@@ -619,7 +782,7 @@ impl<'de, 'a, 'b> MapAccess<'de> for HyphenObjectDe<'a, 'b> {
                         tokens: toks,
                         idx: 0,
                     };
-                    seed.deserialize(de::value::SeqAccessDeserializer::new(&mut ia))
+                    seed.deserialize(SeqBlock(&mut ia))
                 }
                 HyphenFirstValue::NestedObject { child_indent } => {
                     let mut ma = MapDe {
@@ -627,14 +790,14 @@ impl<'de, 'a, 'b> MapAccess<'de> for HyphenObjectDe<'a, 'b> {
                         indent: child_indent,
                         pending: None,
                     };
-                    seed.deserialize(de::value::MapAccessDeserializer::new(&mut ma))
+                    seed.deserialize(MapBlock(&mut ma))
                 }
                 HyphenFirstValue::Array { child_indent } => {
                     let mut sa = SeqDe {
                         de: self.de,
                         indent: child_indent,
                     };
-                    seed.deserialize(de::value::SeqAccessDeserializer::new(&mut sa))
+                    seed.deserialize(SeqBlock(&mut sa))
                 }
                 HyphenFirstValue::TabularHeader { dch, header } => {
                     let mut ta = TabularSeqDe {
@@ -643,7 +806,7 @@ impl<'de, 'a, 'b> MapAccess<'de> for HyphenObjectDe<'a, 'b> {
                         dch,
                         header,
                     };
-                    seed.deserialize(de::value::SeqAccessDeserializer::new(&mut ta))
+                    seed.deserialize(SeqBlock(&mut ta))
                 }
             }
         } else {
@@ -695,8 +858,7 @@ impl<'de, 'a, 'b> SeqAccess<'de> for TabularSeqDe<'a, 'b> {
             cells,
             idx: 0,
         };
-        seed.deserialize(de::value::MapAccessDeserializer::new(&mut rma))
-            .map(Some)
+        seed.deserialize(MapBlock(&mut rma)).map(Some)
     }
 }
 
diff --git a/crates/toon/src/de/mod.rs b/crates/toon/src/de/mod.rs
index 8b8a07c..2b93772 100644
--- a/crates/toon/src/de/mod.rs
+++ b/crates/toon/src/de/mod.rs
@@ -132,10 +132,60 @@ impl<'de> de::Deserializer<'de> for Deserializer {
         }
     }
 
+    fn deserialize_option<V>(self, visitor: V) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        match self.value {
+            Value::Null => visitor.visit_none(),
+            _ => visitor.visit_some(self),
+        }
+    }
+
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
+    fn deserialize_enum<V>(
+        self,
+        _name: &'static str,
+        _variants: &'static [&'static str],
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        match self.value {
+            // Externally tagged: a bare name or a single `name: content` entry
+            Value::String(s) => visitor.visit_enum(s.into_deserializer()),
+            Value::Object(entries) if entries.len() == 1 => {
+                let access = de::value::MapDeserializer::new(entries.into_iter());
+                visitor.visit_enum(de::value::MapAccessDeserializer::new(access))
+            }
+            _ => Err(de::Error::custom(
+                "expected a variant name or a single-entry map",
+            )),
+        }
+    }
+
     serde::forward_to_deserialize_any! {
         bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf
-        option unit unit_struct newtype_struct seq tuple tuple_struct map struct
-        enum identifier ignored_any
+        unit unit_struct seq tuple tuple_struct map struct identifier ignored_any
+    }
+}
+
+impl<'de> IntoDeserializer<'de, DeError> for Value {
+    type Deserializer = Deserializer;
+
+    fn into_deserializer(self) -> Deserializer {
+        Deserializer::from_value(self)
     }
 }
 
-- 
2.43.0


From 0daa2095b5d03910701ae765e99a7e70fe99be77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 19/22] fix: encode enum variants and nested alloc-only values
 so they decode again

---
 crates/toon/src/ser/stream.rs              | 118 +++++++++++----------
 crates/toon/src/ser/value_builder.rs       |  22 ++--
 crates/toon/src/ser/value_builder_alloc.rs |  23 ++--
 3 files changed, 95 insertions(+), 68 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 8867f61..c7db1d5 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -58,16 +58,6 @@ struct StreamingSerializer<'a> {
     indent: usize,
 }
 
-impl<'a> StreamingSerializer<'a> {
-    fn with_indent<'b>(&'b mut self, indent: usize) -> StreamingSerializer<'b> {
-        StreamingSerializer {
-            w: self.w,
-            opts: self.opts,
-            indent,
-        }
-    }
-}
-
 impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
     type Ok = ();
     type Error = SerError;
@@ -194,12 +184,9 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
         variant: &'static str,
         value: &T,
     ) -> Result<Self::Ok, Self::Error> {
-        self.w.line_key_only(
-            self.indent,
-            &primitives::format_string(variant, self.opts.delimiter),
-        );
-        let mut child = self.with_indent(self.indent + self.opts.indent);
-        value.serialize(&mut child)
+        let mut map = self.serialize_map(Some(1))?;
+        SerializeMap::serialize_entry(&mut map, variant, value)?;
+        SerializeMap::end(map)
     }
     fn serialize_seq(self, _len: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
         #[cfg(feature = "json")]
@@ -207,6 +194,7 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
             Ok(SeqSer {
                 parent: self,
                 items: Vec::new(),
+                key: None,
             })
         }
         #[cfg(not(feature = "json"))]
@@ -214,6 +202,7 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
             Ok(SeqSerAlloc {
                 parent: self,
                 items: Vec::new(),
+                key: None,
             })
         }
     }
@@ -234,7 +223,9 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
         variant: &'static str,
         len: usize,
     ) -> Result<Self::SerializeTupleVariant, Self::Error> {
-        self.serialize_tuple_struct(variant, len)
+        let mut seq = self.serialize_seq(Some(len))?;
+        seq.key = Some(primitives::format_key(variant));
+        Ok(seq)
     }
     fn serialize_map(self, _len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
         Ok(MapSer {
@@ -259,10 +250,9 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
         variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
-        self.w.line_key_only(
-            self.indent,
-            &primitives::format_string(variant, self.opts.delimiter),
-        );
+        self.w
+            .line_key_only(self.indent, &primitives::format_key(variant));
+        self.indent += self.opts.indent;
         Ok(MapSer {
             parent: self,
             next_key: None,
@@ -277,6 +267,8 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
 struct SeqSer<'a, 'de> {
     parent: &'a mut StreamingSerializer<'de>,
     items: Vec<Value>,
+    /// Formatted key of a keyed array (tuple variants)
+    key: Option<String>,
 }
 
 #[cfg(feature = "json")]
@@ -292,6 +284,15 @@ impl<'a, 'de> SerializeSeq for SeqSer<'a, 'de> {
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
+        if let Some(key) = &self.key {
+            return encode_keyed_array_json(
+                key,
+                &self.items,
+                self.parent.w,
+                self.parent.opts,
+                self.parent.indent,
+            );
+        }
         let delim = self.parent.opts.delimiter;
         let dch = primitives::delimiter_char(delim);
         let len = self.items.len();
@@ -404,6 +405,8 @@ impl<'a, 'de> SerializeTupleVariant for SeqSer<'a, 'de> {
 struct SeqSerAlloc<'a, 'de> {
     parent: &'a mut StreamingSerializer<'de>,
     items: Vec<IValue>,
+    /// Formatted key of a keyed array (tuple variants)
+    key: Option<String>,
 }
 
 #[cfg(not(feature = "json"))]
@@ -419,6 +422,15 @@ impl<'a, 'de> SerializeSeq for SeqSerAlloc<'a, 'de> {
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
+        if let Some(key) = &self.key {
+            return encode_keyed_array_alloc(
+                key,
+                &self.items,
+                self.parent.w,
+                self.parent.opts,
+                self.parent.indent,
+            );
+        }
         let delim = self.parent.opts.delimiter;
         let dch = primitives::delimiter_char(delim);
         let len = self.items.len();
@@ -617,13 +629,12 @@ impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
                 self.entry_count += 1;
                 return Ok(());
             }
-            // For objects, use the standard key: then nested fields
-            self.parent.w.line_key_only(self.parent.indent, &key_fmt);
-            encode_internal_value_alloc(
+            encode_object_field_alloc(
+                &key_fmt,
                 &val,
                 self.parent.w,
                 self.parent.opts,
-                self.parent.indent + self.parent.opts.indent,
+                self.parent.indent,
             )?;
             self.entry_count += 1;
             Ok(())
@@ -1492,46 +1503,41 @@ fn encode_internal_value_alloc(
             w.line(indent, &primitives::format_string(s, opts.delimiter));
         }
         IValue::Array(items) => {
-            for item in items {
-                if item.is_primitive() {
-                    match item {
-                        IValue::Null => w.line_list_item(indent, primitives::format_null()),
-                        IValue::Bool(b) => w.line_list_item(indent, primitives::format_bool(*b)),
-                        IValue::Number(n) => w.line_list_item(indent, &n.to_string()),
-                        IValue::String(s) => {
-                            w.line_list_item(indent, &primitives::format_string(s, opts.delimiter))
-                        }
-                        _ => {}
-                    }
-                } else {
-                    w.line(indent, "-");
-                    encode_internal_value_alloc(item, w, opts, indent + opts.indent)?;
-                }
-            }
+            encode_keyed_array_alloc("", items, w, opts, indent)?;
         }
         IValue::Object(pairs) => {
             for (k, val) in pairs {
-                let key = primitives::format_string(k, opts.delimiter);
-                if val.is_primitive() {
-                    match val {
-                        IValue::Null => w.line_kv(indent, &key, primitives::format_null()),
-                        IValue::Bool(b) => w.line_kv(indent, &key, primitives::format_bool(*b)),
-                        IValue::Number(n) => w.line_kv(indent, &key, &n.to_string()),
-                        IValue::String(s) => {
-                            w.line_kv(indent, &key, &primitives::format_string(s, opts.delimiter))
-                        }
-                        _ => {}
-                    }
-                } else {
-                    w.line_key_only(indent, &key);
-                    encode_internal_value_alloc(val, w, opts, indent + opts.indent)?;
-                }
+                encode_object_field_alloc(&primitives::format_key(k), val, w, opts, indent)?;
             }
         }
     }
     Ok(())
 }
 
+/// Encode one object field under an already formatted key (alloc version)
+#[cfg(not(feature = "json"))]
+fn encode_object_field_alloc(
+    key: &str,
+    val: &IValue,
+    w: &mut LineWriter,
+    opts: &Options,
+    indent: usize,
+) -> Result<(), SerError> {
+    match val {
+        IValue::Array(items) => encode_keyed_array_alloc(key, items, w, opts, indent)?,
+        IValue::Object(_) => {
+            w.line_key_only(indent, key);
+            encode_internal_value_alloc(val, w, opts, indent + opts.indent)?;
+        }
+        _ => w.line_kv(
+            indent,
+            key,
+            &format_primitive_value_alloc(val, opts.delimiter),
+        ),
+    }
+    Ok(())
+}
+
 fn try_scalar_to_string<T: ?Sized + Serialize>(
     value: &T,
     opts: &Options,
diff --git a/crates/toon/src/ser/value_builder.rs b/crates/toon/src/ser/value_builder.rs
index 1be194c..934a2da 100644
--- a/crates/toon/src/ser/value_builder.rs
+++ b/crates/toon/src/ser/value_builder.rs
@@ -46,7 +46,7 @@ impl Serializer for &mut ValueSerializer {
     type SerializeSeq = SeqSerializer;
     type SerializeTuple = SeqSerializer;
     type SerializeTupleStruct = SeqSerializer;
-    type SerializeTupleVariant = SeqSerializer;
+    type SerializeTupleVariant = TupleVariantSerializer;
     type SerializeMap = MapSerializer;
     type SerializeStruct = MapSerializer;
     type SerializeStructVariant = StructVariantSerializer;
@@ -163,10 +163,13 @@ impl Serializer for &mut ValueSerializer {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeTupleVariant, Self::Error> {
-        Ok(SeqSerializer { elems: Vec::new() })
+        Ok(TupleVariantSerializer {
+            seq: SeqSerializer { elems: Vec::new() },
+            name: variant.to_string(),
+        })
     }
     fn serialize_map(self, _len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
         Ok(MapSerializer {
@@ -241,15 +244,22 @@ impl SerializeTupleStruct for SeqSerializer {
     }
 }
 
-impl SerializeTupleVariant for SeqSerializer {
+pub struct TupleVariantSerializer {
+    seq: SeqSerializer,
+    name: String,
+}
+
+impl SerializeTupleVariant for TupleVariantSerializer {
     type Ok = Value;
     type Error = serde_json::Error;
 
     fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        SerializeSeq::serialize_element(self, value)
+        SerializeSeq::serialize_element(&mut self.seq, value)
     }
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(Value::Array(self.elems))
+        let mut m = Map::new();
+        m.insert(self.name, SerializeSeq::end(self.seq)?);
+        Ok(Value::Object(m))
     }
 }
 
diff --git a/crates/toon/src/ser/value_builder_alloc.rs b/crates/toon/src/ser/value_builder_alloc.rs
index e1af19d..a112159 100644
--- a/crates/toon/src/ser/value_builder_alloc.rs
+++ b/crates/toon/src/ser/value_builder_alloc.rs
@@ -38,7 +38,7 @@ impl Serializer for &mut ValueSerializer {
     type SerializeSeq = SeqSerializer;
     type SerializeTuple = SeqSerializer;
     type SerializeTupleStruct = SeqSerializer;
-    type SerializeTupleVariant = SeqSerializer;
+    type SerializeTupleVariant = TupleVariantSerializer;
     type SerializeMap = MapSerializer;
     type SerializeStruct = MapSerializer;
     type SerializeStructVariant = StructVariantSerializer;
@@ -151,10 +151,13 @@ impl Serializer for &mut ValueSerializer {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeTupleVariant, Self::Error> {
-        Ok(SeqSerializer { elems: Vec::new() })
+        Ok(TupleVariantSerializer {
+            seq: SeqSerializer { elems: Vec::new() },
+            name: variant.to_string(),
+        })
     }
     fn serialize_map(self, _len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
         Ok(MapSerializer {
@@ -229,15 +232,23 @@ impl SerializeTupleStruct for SeqSerializer {
     }
 }
 
-impl SerializeTupleVariant for SeqSerializer {
+pub struct TupleVariantSerializer {
+    seq: SeqSerializer,
+    name: String,
+}
+
+impl SerializeTupleVariant for TupleVariantSerializer {
     type Ok = Value;
     type Error = BuildError;
 
     fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        SerializeSeq::serialize_element(self, value)
+        SerializeSeq::serialize_element(&mut self.seq, value)
     }
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(Value::Array(self.elems))
+        let content = SerializeSeq::end(self.seq)?;
+        let mut outer = Vec::new();
+        outer.push((self.name, content));
+        Ok(Value::Object(outer))
     }
 }
 
-- 
2.43.0


From 315aca90bb30286e0dc4dbe6e8309c9bea779939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 20/22] fix: reject unescaped quotes inside a quoted string

---
 crates/toon/src/decode/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 919de66..5bd8382 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -1949,6 +1949,9 @@ fn try_unescape_json_string(s: &str) -> Result<String, StringParseError> {
                 }
                 Some(_) => return Err(StringParseError::InvalidEscape),
             }
+        } else if ch == '"' {
+            // The string ends here: the quote that ends the token belongs to something else
+            return Err(StringParseError::Unterminated);
         } else {
             out.push(ch);
         }
-- 
2.43.0


From b14886785b38987aedd3e76842604e9d0f95a7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:35 +0000
Subject: [PATCH 21/22] fix: accept newtype and optional keys of a map at the
 root as below it

---
 crates/toon/src/ser/stream.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index c7db1d5..5ece74a 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -1789,8 +1789,8 @@ impl Serializer for &mut KeySerializer {
         self.out = Some("null".into());
         Ok(())
     }
-    fn serialize_some<T: ?Sized + Serialize>(self, _value: &T) -> Result<Self::Ok, Self::Error> {
-        Err(SerError::custom("invalid key"))
+    fn serialize_some<T: ?Sized + Serialize>(self, value: &T) -> Result<Self::Ok, Self::Error> {
+        value.serialize(self)
     }
     fn serialize_unit(self) -> Result<Self::Ok, Self::Error> {
         self.out = Some("null".into());
@@ -1810,9 +1810,9 @@ impl Serializer for &mut KeySerializer {
     fn serialize_newtype_struct<T: ?Sized + Serialize>(
         self,
         _name: &'static str,
-        _value: &T,
+        value: &T,
     ) -> Result<Self::Ok, Self::Error> {
-        Err(SerError::custom("invalid key"))
+        value.serialize(self)
     }
     fn serialize_newtype_variant<T: ?Sized + Serialize>(
         self,
-- 
2.43.0


From 33b8bac6612bc348dec47c037e685cc1b3e83bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:35 +0000
Subject: [PATCH 22/22] fix: refuse arrays and objects as keys in alloc builds
 instead of writing empty keys

---
 crates/toon/src/ser/value_builder_alloc.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/crates/toon/src/ser/value_builder_alloc.rs b/crates/toon/src/ser/value_builder_alloc.rs
index a112159..42932f6 100644
--- a/crates/toon/src/ser/value_builder_alloc.rs
+++ b/crates/toon/src/ser/value_builder_alloc.rs
@@ -275,13 +275,9 @@ impl SerializeMap for MapSerializer {
                 }
             }
             Value::Null => "null".into(),
-            other => format!(
-                "{}",
-                match other {
-                    Value::String(s) => s,
-                    _ => String::new(),
-                }
-            ),
+            Value::Array(_) | Value::Object(_) => {
+                return Err(serde::ser::Error::custom("invalid key"));
+            }
         };
         self.next_key = Some(s);
         Ok(())
-- 
2.43.0

