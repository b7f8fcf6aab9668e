From b19a1b83edba38349ee76985d4ba735c7ceb044f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:27 +0000
Subject: [PATCH 01/29] fix: zero-pad percent-encoded bytes in $ref values

Bytes below 0x10 (e.g. a tab in a schema name) were encoded as '% 9', which is
not a percent-encoding, so the reference did not resolve.
---
 schemars/src/encoding.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemars/src/encoding.rs b/schemars/src/encoding.rs
index e7932d2..0bd82fc 100644
--- a/schemars/src/encoding.rs
+++ b/schemars/src/encoding.rs
@@ -27,7 +27,7 @@ pub fn encode_ref_name(name: &str) -> Cow<'_, str> {
             } else if byte == b'/' {
                 buf.push_str("~1");
             } else if needs_encoding(byte) {
-                write!(buf, "%{byte:2X}").unwrap();
+                write!(buf, "%{byte:02X}").unwrap();
             } else {
                 buf.push(byte as char);
             }
-- 
2.43.0


From b6914de1969e5b4bc5251fd73b675c02f998c379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:27 +0000
Subject: [PATCH 02/29] fix: only decode '%' when followed by two hex digits

`u8::from_str_radix` also accepts a leading '+', so '%+5' was decoded to a byte
instead of being left as it is.
---
 schemars/src/encoding.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/schemars/src/encoding.rs b/schemars/src/encoding.rs
index 0bd82fc..ac5bac6 100644
--- a/schemars/src/encoding.rs
+++ b/schemars/src/encoding.rs
@@ -52,6 +52,7 @@ pub fn percent_decode(s: &str) -> Option<Cow<'_, str>> {
         for segment in segments {
             if let Some(decoded_byte) = segment
                 .get(0..2)
+                .filter(|p| p.bytes().all(|b| b.is_ascii_hexdigit()))
                 .and_then(|p| u8::from_str_radix(p, 16).ok())
             {
                 buf.push(decoded_byte);
-- 
2.43.0


From e612bc415c717508dc02f4f2014bbe914974bfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:27 +0000
Subject: [PATCH 03/29] fix: keep definition names when cloning a
 SchemaGenerator

The clone kept the definitions but forgot which type each name belongs to, so a
different type with the same name was given a reference to the wrong definition.
---
 schemars/src/generate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schemars/src/generate.rs b/schemars/src/generate.rs
index 35dc261..a556be8 100644
--- a/schemars/src/generate.rs
+++ b/schemars/src/generate.rs
@@ -254,8 +254,8 @@ impl Clone for SchemaGenerator {
             settings: self.settings.clone(),
             definitions: self.definitions.clone(),
             pending_schema_ids: BTreeSet::new(),
-            schema_id_to_name: BTreeMap::new(),
-            used_schema_names: BTreeSet::new(),
+            schema_id_to_name: self.schema_id_to_name.clone(),
+            used_schema_names: self.used_schema_names.clone(),
             root_schema_id_stack: Vec::new(),
         }
     }
-- 
2.43.0


From 1b680964b8df131946124b97cc46fda388be81f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:27 +0000
Subject: [PATCH 04/29] fix: add definitions when definitions_path is the
 document root

With a definitions_path of "", "#" or "/" the definitions were silently dropped
from root schemas, leaving dangling references.
---
 schemars/src/generate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemars/src/generate.rs b/schemars/src/generate.rs
index a556be8..3da4b29 100644
--- a/schemars/src/generate.rs
+++ b/schemars/src/generate.rs
@@ -629,10 +629,10 @@ fn json_pointer_mut<'a>(
 ) -> Option<&'a mut JsonMap<String, Value>> {
     use serde_json::map::Entry;
 
-    let pointer = pointer.strip_prefix('/')?;
     if pointer.is_empty() {
         return Some(object);
     }
+    let pointer = pointer.strip_prefix('/')?;
 
     for mut segment in pointer.split('/') {
         let replaced: String;
-- 
2.43.0


From 2a3b08f8faf32cc1094f0f2526dc0808783b5a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:59 +0000
Subject: [PATCH 05/29] fix: visit every subschema keyword in
 transform_subschemas

unevaluatedProperties, unevaluatedItems, contentSchema and dependentSchemas
were skipped, so for example draft 2019-09 output kept `prefixItems` inside the
schema of a flattened map.
---
 schemars/src/transform.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/schemars/src/transform.rs b/schemars/src/transform.rs
index eb3e8ca..78132e7 100644
--- a/schemars/src/transform.rs
+++ b/schemars/src/transform.rs
@@ -156,7 +156,10 @@ pub fn transform_subschemas<T: Transform + ?Sized>(t: &mut T, schema: &mut Schem
             | "contains"
             | "additionalProperties"
             | "propertyNames"
-            | "additionalItems" => {
+            | "additionalItems"
+            | "unevaluatedProperties"
+            | "unevaluatedItems"
+            | "contentSchema" => {
                 if let Ok(subschema) = value.try_into() {
                     t.transform(subschema);
                 }
@@ -183,7 +186,7 @@ pub fn transform_subschemas<T: Transform + ?Sized>(t: &mut T, schema: &mut Schem
                     t.transform(subschema);
                 }
             }
-            "properties" | "patternProperties" | "$defs" | "definitions" => {
+            "properties" | "patternProperties" | "dependentSchemas" | "$defs" | "definitions" => {
                 if let Some(obj) = value.as_object_mut() {
                     for value in obj.values_mut() {
                         if let Ok(subschema) = value.try_into() {
-- 
2.43.0


From dde1d351eba8be3630f279d71fd51b564be149bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:05 +0000
Subject: [PATCH 06/29] fix: replace bool schemas nested inside
 additionalProperties

With skip_additional_properties set, only a boolean additionalProperties is
left alone; an object one is a schema like any other.
---
 schemars/src/transform.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schemars/src/transform.rs b/schemars/src/transform.rs
index 78132e7..fe0be88 100644
--- a/schemars/src/transform.rs
+++ b/schemars/src/transform.rs
@@ -293,7 +293,9 @@ pub struct ReplaceBoolSchemas {
 impl Transform for ReplaceBoolSchemas {
     fn transform(&mut self, schema: &mut Schema) {
         if let Some(obj) = schema.as_object_mut() {
-            if self.skip_additional_properties {
+            if self.skip_additional_properties
+                && obj.get("additionalProperties").is_some_and(Value::is_boolean)
+            {
                 if let Some((ap_key, ap_value)) = obj.remove_entry("additionalProperties") {
                     transform_subschemas(self, schema);
 
-- 
2.43.0


From 24d76e9318236c07c62de0c95a93510ed0e5564a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:31 +0000
Subject: [PATCH 07/29] fix: keep additionalProperties when replacing
 unevaluatedProperties

When both are present every property is already evaluated, so
unevaluatedProperties has no effect; overwriting additionalProperties with it
changed what the schema accepts.
---
 schemars/src/transform.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/schemars/src/transform.rs b/schemars/src/transform.rs
index fe0be88..5071d8c 100644
--- a/schemars/src/transform.rs
+++ b/schemars/src/transform.rs
@@ -489,6 +489,11 @@ impl Transform for ReplaceUnevaluatedProperties {
             return;
         };
 
+        if schema.get("additionalProperties").is_some() {
+            // Every property has already been evaluated
+            return;
+        }
+
         schema.insert("additionalProperties".to_owned(), up);
 
         let mut gather_property_names = GatherPropertyNames::default();
-- 
2.43.0


From ba3e0ed8b43aea665f51b4f25c8f0abf9782d2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:58 +0000
Subject: [PATCH 08/29] fix: apply transforms to definitions under
 components/schemas

SchemaSettings::openapi3() puts definitions at /components/schemas, which
transform_subschemas did not visit, so root documents contained definitions
that had not been translated to OpenAPI.
---
 schemars/src/transform.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/schemars/src/transform.rs b/schemars/src/transform.rs
index 5071d8c..6d80980 100644
--- a/schemars/src/transform.rs
+++ b/schemars/src/transform.rs
@@ -195,6 +195,16 @@ pub fn transform_subschemas<T: Transform + ?Sized>(t: &mut T, schema: &mut Schem
                     }
                 }
             }
+            // Where `SchemaSettings::openapi3()` puts definitions
+            "components" => {
+                if let Some(obj) = value.get_mut("schemas").and_then(Value::as_object_mut) {
+                    for value in obj.values_mut() {
+                        if let Ok(subschema) = value.try_into() {
+                            t.transform(subschema);
+                        }
+                    }
+                }
+            }
             _ => {}
         }
     }
-- 
2.43.0


From 9c2bc8a2b8976f1e0ca62bd3463c706bb550faf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:16 +0000
Subject: [PATCH 09/29] fix: decode reference names when resolving map key
 schemas

---
 schemars/src/json_schema_impls/maps.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schemars/src/json_schema_impls/maps.rs b/schemars/src/json_schema_impls/maps.rs
index da5a847..e5e1f87 100644
--- a/schemars/src/json_schema_impls/maps.rs
+++ b/schemars/src/json_schema_impls/maps.rs
@@ -61,7 +61,9 @@ where
                 .get("$ref")
                 .and_then(Value::as_str)
                 .and_then(|r| r.strip_prefix(&prefix))
-                .and_then(|r| generator.definitions().get(r))
+                .and_then(crate::encoding::percent_decode)
+                .map(|r| r.replace("~1", "/").replace("~0", "~"))
+                .and_then(|r| generator.definitions().get(&r))
                 .and_then(Value::as_object)
             {
                 *option = d;
-- 
2.43.0


From 7765b844147e7d79c6da79c71a118050f018bb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:16 +0000
Subject: [PATCH 10/29] fix: pointer lookups find nothing in bool schemas, even
 the empty pointer

---
 schemars/src/schema.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/schemars/src/schema.rs b/schemars/src/schema.rs
index c42d422..0956b96 100644
--- a/schemars/src/schema.rs
+++ b/schemars/src/schema.rs
@@ -308,6 +308,8 @@ impl Schema {
     /// ```
     #[must_use]
     pub fn pointer(&self, pointer: &str) -> Option<&Value> {
+        self.as_object()?;
+
         if let Some(percent_encoded) = pointer.strip_prefix('#') {
             let decoded = crate::encoding::percent_decode(percent_encoded)?;
             self.0.pointer(&decoded)
@@ -346,6 +348,8 @@ impl Schema {
     /// ```
     #[must_use]
     pub fn pointer_mut(&mut self, pointer: &str) -> Option<&mut Value> {
+        self.as_object()?;
+
         if let Some(percent_encoded) = pointer.strip_prefix('#') {
             let decoded = crate::encoding::percent_decode(percent_encoded)?;
             self.0.pointer_mut(&decoded)
-- 
2.43.0


From cda9baf2f5674c19d7ab1bd35644c7c6622c15c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:23 +0000
Subject: [PATCH 11/29] fix: keep the member order of const, enum and example
 values when serialising

---
 schemars/src/schema.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/schemars/src/schema.rs b/schemars/src/schema.rs
index 0956b96..4a693c2 100644
--- a/schemars/src/schema.rs
+++ b/schemars/src/schema.rs
@@ -541,8 +541,10 @@ mod ser {
             where
                 S: serde::Serializer,
             {
-                if matches!(key, "examples" | "default") || key.starts_with("x-") {
-                    // Value(s) of `examples`/`default` are plain values, not schemas.
+                if matches!(key, "examples" | "example" | "default" | "const" | "enum")
+                    || key.starts_with("x-")
+                {
+                    // Value(s) of these keywords are plain values, not schemas.
                     // Also don't reorder values of custom properties.
                     map.serialize_entry(key, value)
                 } else {
-- 
2.43.0


From 44ec7ff8bda8905daa2e2f00b0625054622ee0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:42 +0000
Subject: [PATCH 12/29] fix: list map members whose keys contain quotes or
 escapes under their real name when inferring a schema

---
 schemars/src/ser.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/schemars/src/ser.rs b/schemars/src/ser.rs
index 81457c7..0c620f4 100644
--- a/schemars/src/ser.rs
+++ b/schemars/src/ser.rs
@@ -388,11 +388,7 @@ impl serde::ser::SerializeMap for SerializeMap<'_> {
         // FIXME this is too lenient - we should return an error if serde_json
         // doesn't allow T to be a key of a map.
         let json = serde_json::to_string(key)?;
-        self.current_key = Some(
-            json.trim_start_matches('"')
-                .trim_end_matches('"')
-                .to_string(),
-        );
+        self.current_key = Some(serde_json::from_str::<String>(&json).unwrap_or(json));
 
         Ok(())
     }
-- 
2.43.0


From ac9cbf6dfff6b0961efb873fe15b78c30117d572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:42 +0000
Subject: [PATCH 13/29] fix: infer a schema that accepts null for floats that
 serialise to null

---
 schemars/src/ser.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/schemars/src/ser.rs b/schemars/src/ser.rs
index 0c620f4..72c3a04 100644
--- a/schemars/src/ser.rs
+++ b/schemars/src/ser.rs
@@ -45,6 +45,21 @@ macro_rules! return_instance_type {
     };
 }
 
+macro_rules! return_float_type {
+    ($fn:ident, $ty:ty) => {
+        fn $fn(self, value: $ty) -> Result<Self::Ok, Self::Error> {
+            if !value.is_finite() {
+                // NaN and infinities are serialized as `null`
+                return self.serialize_none();
+            }
+
+            Ok(json_schema!({
+                "type": "number"
+            }))
+        }
+    };
+}
+
 impl<'a> serde::Serializer for Serializer<'a> {
     type Ok = Schema;
     type Error = Error;
@@ -67,8 +82,8 @@ impl<'a> serde::Serializer for Serializer<'a> {
     return_instance_type!(serialize_u32, u32, "integer");
     return_instance_type!(serialize_u64, u64, "integer");
     return_instance_type!(serialize_u128, u128, "integer");
-    return_instance_type!(serialize_f32, f32, "number");
-    return_instance_type!(serialize_f64, f64, "number");
+    return_float_type!(serialize_f32, f32);
+    return_float_type!(serialize_f64, f64);
 
     forward_to_subschema_for!(serialize_bool, bool);
     forward_to_subschema_for!(serialize_char, char);
-- 
2.43.0


From e38625ea28cc1e31b62a299ccfd027d93f5654ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:42 +0000
Subject: [PATCH 14/29] fix: keep a null const when allowing null, as it admits
 nothing but null

---
 schemars/src/_private/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index 1f2173c..e6c1469 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -490,10 +490,10 @@ pub(crate) fn allow_null(generator: &mut SchemaGenerator, schema: &mut Schema) {
                 }
             }
 
-            if let Some(c) = obj.remove("const") {
-                if !c.is_null() {
-                    obj.insert("enum".to_string(), Value::Array(vec![c, Value::Null]));
-                }
+            if obj.get("const").is_some_and(Value::is_null) {
+                // Already accepts null, and nothing else
+            } else if let Some(c) = obj.remove("const") {
+                obj.insert("enum".to_string(), Value::Array(vec![c, Value::Null]));
             } else if let Some(Value::Array(e)) = obj.get_mut("enum") {
                 if !e.contains(&Value::Null) {
                     e.push(Value::Null);
-- 
2.43.0


From 5c48007cf3871773f517635e8e64e94aec288442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:42 +0000
Subject: [PATCH 15/29] fix: let an optional value be null when its schema is
 an untyped not

---
 schemars/src/_private/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index e6c1469..c03dcdf 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -461,7 +461,10 @@ pub(crate) fn allow_null(generator: &mut SchemaGenerator, schema: &mut Schema) {
                 return;
             }
 
-            if contains_immediate_subschema(obj) {
+            // An untyped `not` may also reject null, so must not apply to it
+            let is_untyped_not = obj.contains_key("not") && !obj.contains_key("type");
+
+            if contains_immediate_subschema(obj) || is_untyped_not {
                 *schema = json_schema!({
                     "anyOf": [
                         obj,
-- 
2.43.0


From ef212b216c5fe8e75ef78aa99d99000ca17841e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:14 +0000
Subject: [PATCH 16/29] fix: describe map keys with a positive minimum (e.g.
 NonZeroU8) as unsigned integers

---
 schemars/src/json_schema_impls/maps.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemars/src/json_schema_impls/maps.rs b/schemars/src/json_schema_impls/maps.rs
index e5e1f87..15c4860 100644
--- a/schemars/src/json_schema_impls/maps.rs
+++ b/schemars/src/json_schema_impls/maps.rs
@@ -92,7 +92,7 @@ where
                         properties.insert(value);
                     }
                 }
-                (_, _, Some("integer")) if key_minimum == Some(0) => {
+                (_, _, Some("integer")) if key_minimum.is_some() => {
                     support_integers = support_integers.max(IntegerSupport::Unsigned);
                 }
                 (_, _, Some("integer")) => {
-- 
2.43.0


From 4729cca0dacb9ecb01e92f391bfcd9d66a4be138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:35 +0000
Subject: [PATCH 17/29] fix: flatten annotated unit variants, and unit variants
 next to untagged ones, as members

---
 schemars/src/_private/mod.rs | 47 +++++++++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index c03dcdf..b4a288d 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -57,12 +57,17 @@ pub fn json_schema_for_flatten<T: ?Sized + JsonSchema>(
         // Unit variants are normally serialized as strings, but when flattened, are serialized
         // as objects like `{ "VariantName": null }`
         if let Some(unit_variants) = remove_unit_variants(&mut schema) {
-            if let Value::Array(one_of) = schema
+            let keyword = if schema.get("anyOf").is_some() {
+                "anyOf"
+            } else {
+                "oneOf"
+            };
+            if let Value::Array(variants) = schema
                 .ensure_object()
-                .entry("oneOf")
+                .entry(keyword)
                 .or_insert(Value::Array(Vec::new()))
             {
-                one_of.extend(
+                variants.extend(
                     unit_variants
                         .iter()
                         .filter_map(Value::as_str)
@@ -81,6 +86,20 @@ pub fn json_schema_for_flatten<T: ?Sized + JsonSchema>(
             }
         }
 
+        // Unit variants that have their own attributes (e.g. doc comments) each have their own item
+        for variant in variants_mut(&mut schema).filter_map(Value::as_object_mut) {
+            if variant.get("type").and_then(Value::as_str) == Some("string") {
+                if let Some(Value::String(name)) = variant.remove("const") {
+                    variant.insert("type".to_owned(), "object".into());
+                    variant.insert(
+                        "properties".to_owned(),
+                        json!({ &name: { "type": "null" } }),
+                    );
+                    variant.insert("required".to_owned(), json!([name]));
+                }
+            }
+        }
+
         if is_optional {
             schema.remove("required");
 
@@ -127,11 +146,17 @@ pub fn json_schema_for_flatten<T: ?Sized + JsonSchema>(
         }
 
         // For enums that have unit and other variants, unit variants are in the first `oneOf` item
-        let one_of = schema.get_mut("oneOf")?.as_array_mut()?;
-        let first = <&mut Schema>::try_from(one_of.get_mut(0)?).ok()?;
+        // (or `anyOf` if there are also any individually untagged variants)
+        let keyword = if schema.get("anyOf").is_some() {
+            "anyOf"
+        } else {
+            "oneOf"
+        };
+        let variants = schema.get_mut(keyword)?.as_array_mut()?;
+        let first = <&mut Schema>::try_from(variants.get_mut(0)?).ok()?;
         if first.get("type").and_then(Value::as_str) == Some("string") {
             if let Some(Value::Array(a)) = first.remove("enum") {
-                one_of.remove(0);
+                variants.remove(0);
                 return Some(a);
             }
         }
@@ -139,6 +164,16 @@ pub fn json_schema_for_flatten<T: ?Sized + JsonSchema>(
         None
     }
 
+    fn variants_mut(schema: &mut Schema) -> impl Iterator<Item = &mut Value> {
+        schema
+            .as_object_mut()
+            .into_iter()
+            .flat_map(|o| o.iter_mut())
+            .filter(|(k, _)| *k == "oneOf" || *k == "anyOf")
+            .filter_map(|(_, v)| v.as_array_mut())
+            .flatten()
+    }
+
     inner(
         T::_schemars_private_non_optional_json_schema(generator),
         T::_schemars_private_is_option() && !required,
-- 
2.43.0


From bf09db2226d9fb3eb406028c8c90aa384577d696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:01 +0000
Subject: [PATCH 18/29] fix: describe newtype variants whose only field is
 skipped as unit variants, as serde does

---
 schemars_derive/src/ast/from_serde.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/schemars_derive/src/ast/from_serde.rs b/schemars_derive/src/ast/from_serde.rs
index 7b18ed2..bdb6a46 100644
--- a/schemars_derive/src/ast/from_serde.rs
+++ b/schemars_derive/src/ast/from_serde.rs
@@ -63,11 +63,24 @@ impl<'a> FromSerde for Variant<'a> {
     type SerdeType = serde_ast::Variant<'a>;
 
     fn from_serde(errors: &Ctxt, serde: Self::SerdeType) -> Self {
+        let mut style = serde.style;
+        let mut fields = Field::vec_from_serde(errors, serde.fields);
+
+        // Serde treats a newtype variant as a unit variant if its only field is always skipped
+        if matches!(style, serde_ast::Style::Newtype)
+            && fields
+                .iter()
+                .all(|f| f.serde_attrs.skip_serializing() && f.serde_attrs.skip_deserializing())
+        {
+            style = serde_ast::Style::Unit;
+            fields.clear();
+        }
+
         Self {
             ident: serde.ident,
             serde_attrs: serde.attrs,
-            style: serde.style,
-            fields: Field::vec_from_serde(errors, serde.fields),
+            style,
+            fields,
             original: serde.original,
             attrs: VariantAttrs::new(&serde.original.attrs, errors),
         }
-- 
2.43.0


From b7a60a1f02fe4192482ebebdd59c916f3f49e656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:26 +0000
Subject: [PATCH 19/29] fix: allow trailing tuple struct items with defaults to
 be missing when deserializing

---
 schemars_derive/src/schema_exprs.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/schemars_derive/src/schema_exprs.rs b/schemars_derive/src/schema_exprs.rs
index 384affb..38fdb20 100644
--- a/schemars_derive/src/schema_exprs.rs
+++ b/schemars_derive/src/schema_exprs.rs
@@ -643,8 +643,25 @@ fn expr_for_tuple_struct(cont: &Container, fields: &[Field]) -> SchemaExpr {
         .iter()
         .map(|f| {
             let field_expr = expr_for_field(cont, f, false);
+
+            // When deserializing, trailing items with a default value may be missing
+            let has_default =
+                !cont.serde_attrs.default().is_none() || !f.serde_attrs.default().is_none();
+            let set_min_items = if has_default {
+                quote! {
+                    if !#GENERATOR.contract().is_deserialize() {
+                        min_items = prefix_items.len();
+                    }
+                }
+            } else {
+                quote! {
+                    min_items = prefix_items.len();
+                }
+            };
+
             f.with_contract_check(quote! {
                 prefix_items.push((#field_expr).to_value());
+                #set_min_items
             })
         })
         .collect();
@@ -655,6 +672,7 @@ fn expr_for_tuple_struct(cont: &Container, fields: &[Field]) -> SchemaExpr {
     // items have `skip_serializing` or `skip_deserializing` attributes.
     quote!({
         let mut prefix_items = schemars::_private::alloc::vec::Vec::<schemars::_private::serde_json::Value>::with_capacity(#max_len);
+        let mut min_items = 0;
         #(#fields)*
         let len = prefix_items.len();
 
@@ -662,7 +680,9 @@ fn expr_for_tuple_struct(cont: &Container, fields: &[Field]) -> SchemaExpr {
         map.insert("type".into(), "array".into());
         if !prefix_items.is_empty() {
             map.insert("prefixItems".into(), prefix_items.into());
-            map.insert("minItems".into(), len.into());
+        }
+        if min_items > 0 {
+            map.insert("minItems".into(), min_items.into());
         }
         map.insert("maxItems".into(), len.into());
 
-- 
2.43.0


From de52b36aca50ea6310bca8aff01e75580de87dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:42 +0000
Subject: [PATCH 20/29] fix: inline the content of internally tagged variants
 when it has typed additional properties

---
 schemars/src/_private/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index b4a288d..71cc31a 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -28,6 +28,8 @@ pub fn json_schema_for_internally_tagged_enum_newtype_variant<T: ?Sized + JsonSc
     //    schema, then we can leave it there, because it will "see" the variant tag property. But if it is
     //    nested e.g. in an `allOf`, then it must be removed, which is why we run `AllowUnknownProperties`
     //    but only on immediate subschemas.
+    // - Similarly, if additional/unevaluatedProperties is an object (e.g. from a flattened map), then it
+    //    would be applied to the variant tag if it did not "see" the variant tag property.
 
     let mut transform = AllowUnknownProperties::default();
     transform_immediate_subschemas(&mut transform, &mut schema);
@@ -35,8 +37,8 @@ pub fn json_schema_for_internally_tagged_enum_newtype_variant<T: ?Sized + JsonSc
     if T::inline_schema()
         || generator.settings().inline_subschemas
         || schema.get("type").and_then(Value::as_str) == Some("null")
-        || schema.get("additionalProperties").and_then(Value::as_bool) == Some(false)
-        || schema.get("unevaluatedProperties").and_then(Value::as_bool) == Some(false)
+        || restricts_unknown_properties(&schema, "additionalProperties")
+        || restricts_unknown_properties(&schema, "unevaluatedProperties")
         || transform.did_modify
     {
         return schema;
@@ -46,6 +48,10 @@ pub fn json_schema_for_internally_tagged_enum_newtype_variant<T: ?Sized + JsonSc
     generator.subschema_for::<T>()
 }
 
+fn restricts_unknown_properties(schema: &Schema, keyword: &str) -> bool {
+    !matches!(schema.get(keyword), None | Some(Value::Bool(true)))
+}
+
 // Helper for generating schemas for flattened enums and `Option` fields.
 pub fn json_schema_for_flatten<T: ?Sized + JsonSchema>(
     generator: &mut SchemaGenerator,
-- 
2.43.0


From 3e1cf1dc60a56a3a50c896dd10ddf1fb98bbf892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:32 +0000
Subject: [PATCH 21/29] fix: honour unset attribute items such as `!with` for
 items schemars parses itself

`#[serde(with = "m")] #[schemars(!with)]` and a container's `#[schemars(!rename)]`
failed to compile, as the unset item was also parsed as if it were set.
---
 schemars_derive/src/attr/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/schemars_derive/src/attr/mod.rs b/schemars_derive/src/attr/mod.rs
index d570de1..74b30a2 100644
--- a/schemars_derive/src/attr/mod.rs
+++ b/schemars_derive/src/attr/mod.rs
@@ -477,10 +477,15 @@ pub struct AttrCtxt<'a> {
 
 impl<'a> AttrCtxt<'a> {
     pub fn new(inner: &'a Ctxt, attrs: &'a [Attribute], attr_type: &'static str) -> Self {
+        let mut metas = get_meta_items(attrs, attr_type, inner);
+
+        // "unset" items (e.g. `!with`) are handled entirely by `process_serde_attrs()`
+        metas.retain(|m| !matches!(m, CustomMeta::Not(..)));
+
         Self {
             inner,
             attr_type,
-            metas: get_meta_items(attrs, attr_type, inner),
+            metas,
         }
     }
 
-- 
2.43.0


From de936d70d8ab5bcc5ace44570035d20a71aa8166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:14 +0000
Subject: [PATCH 22/29] fix: accept validator's message/code items on
 #[validate(required(..))]

---
 schemars_derive/src/attr/validation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/schemars_derive/src/attr/validation.rs b/schemars_derive/src/attr/validation.rs
index d836e00..7ec3ba4 100644
--- a/schemars_derive/src/attr/validation.rs
+++ b/schemars_derive/src/attr/validation.rs
@@ -172,7 +172,8 @@ impl ValidationAttrs {
             "required" => {
                 if self.required {
                     cx.duplicate_error(&meta);
-                } else if require_path_only(&meta, cx).is_ok() {
+                } else if cx.attr_type == "validate" || require_path_only(&meta, cx).is_ok() {
+                    // As for formats, allow a MetaList in validator attr (message/code items).
                     self.required = true;
                 }
             }
-- 
2.43.0


From f34e9876b3f31c6a53efc59bf1a17bda9b48ced5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:33 +0000
Subject: [PATCH 23/29] fix: don't recurse infinitely for required fields of
 recursive types

---
 schemars/src/generate.rs               | 13 +++++++++++++
 schemars/src/json_schema_impls/core.rs |  4 ++++
 schemars/src/json_schema_impls/mod.rs  |  5 +++++
 schemars/src/lib.rs                    |  6 ++++++
 schemars_derive/src/lib.rs             |  4 ++++
 schemars_derive/src/schema_exprs.rs    |  2 +-
 6 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/schemars/src/generate.rs b/schemars/src/generate.rs
index 3da4b29..ff614a6 100644
--- a/schemars/src/generate.rs
+++ b/schemars/src/generate.rs
@@ -574,6 +574,19 @@ impl SchemaGenerator {
         &self.settings.contract
     }
 
+    /// Generates an inlined schema for `T`, unless `T`'s schema is currently being generated, in
+    /// which case it's handled like any other subschema so that recursive types don't recurse
+    /// infinitely.
+    pub(crate) fn inlined_subschema_for<T: ?Sized + JsonSchema>(&mut self) -> Schema {
+        let uid = self.schema_uid::<T>();
+
+        if self.pending_schema_ids.contains(&uid) {
+            self.subschema_for::<T>()
+        } else {
+            self.json_schema_internal::<T>(&uid)
+        }
+    }
+
     fn json_schema_internal<T: ?Sized + JsonSchema>(&mut self, uid: &SchemaUid) -> Schema {
         let did_add = self.pending_schema_ids.insert(uid.clone());
 
diff --git a/schemars/src/json_schema_impls/core.rs b/schemars/src/json_schema_impls/core.rs
index 936e740..958b82b 100644
--- a/schemars/src/json_schema_impls/core.rs
+++ b/schemars/src/json_schema_impls/core.rs
@@ -28,6 +28,10 @@ impl<T: JsonSchema> JsonSchema for Option<T> {
         T::_schemars_private_non_optional_json_schema(generator)
     }
 
+    fn _schemars_private_non_optional_subschema(generator: &mut SchemaGenerator) -> Schema {
+        T::_schemars_private_non_optional_subschema(generator)
+    }
+
     fn _schemars_private_is_option() -> bool {
         true
     }
diff --git a/schemars/src/json_schema_impls/mod.rs b/schemars/src/json_schema_impls/mod.rs
index 4b8c542..3fbe77b 100644
--- a/schemars/src/json_schema_impls/mod.rs
+++ b/schemars/src/json_schema_impls/mod.rs
@@ -30,6 +30,11 @@ macro_rules! forward_impl {
                 <$target as $crate::JsonSchema>::_schemars_private_non_optional_json_schema(generator)
             }
 
+            fn _schemars_private_non_optional_subschema(generator: &mut $crate::SchemaGenerator) -> $crate::Schema {
+                #[allow(clippy::used_underscore_items)]
+                <$target as $crate::JsonSchema>::_schemars_private_non_optional_subschema(generator)
+            }
+
             fn _schemars_private_is_option() -> bool {
                 #[allow(clippy::used_underscore_items)]
                 <$target as $crate::JsonSchema>::_schemars_private_is_option()
diff --git a/schemars/src/lib.rs b/schemars/src/lib.rs
index bbacfea..bb78f2f 100644
--- a/schemars/src/lib.rs
+++ b/schemars/src/lib.rs
@@ -181,6 +181,12 @@ pub trait JsonSchema {
         Self::json_schema(generator)
     }
 
+    // TODO document and bring into public API?
+    #[doc(hidden)]
+    fn _schemars_private_non_optional_subschema(generator: &mut SchemaGenerator) -> Schema {
+        generator.inlined_subschema_for::<Self>()
+    }
+
     // TODO document and bring into public API?
     #[doc(hidden)]
     #[must_use]
diff --git a/schemars_derive/src/lib.rs b/schemars_derive/src/lib.rs
index a61d4b5..873b774 100644
--- a/schemars_derive/src/lib.rs
+++ b/schemars_derive/src/lib.rs
@@ -86,6 +86,10 @@ fn derive_json_schema(mut input: syn::DeriveInput, repr: bool) -> syn::Result<To
                         <#ty as schemars::JsonSchema>::_schemars_private_non_optional_json_schema(#GENERATOR)
                     }
 
+                    fn _schemars_private_non_optional_subschema(#GENERATOR: &mut schemars::SchemaGenerator) -> schemars::Schema {
+                        <#ty as schemars::JsonSchema>::_schemars_private_non_optional_subschema(#GENERATOR)
+                    }
+
                     fn _schemars_private_is_option() -> bool {
                         <#ty as schemars::JsonSchema>::_schemars_private_is_option()
                     }
diff --git a/schemars_derive/src/schema_exprs.rs b/schemars_derive/src/schema_exprs.rs
index 38fdb20..4c4ed8a 100644
--- a/schemars_derive/src/schema_exprs.rs
+++ b/schemars_derive/src/schema_exprs.rs
@@ -179,7 +179,7 @@ fn expr_for_field(
 
     let schema_expr = if field.attrs.validation.required {
         quote_spanned! {span=>
-            <#ty as schemars::JsonSchema>::_schemars_private_non_optional_json_schema(#GENERATOR)
+            <#ty as schemars::JsonSchema>::_schemars_private_non_optional_subschema(#GENERATOR)
         }
     } else if is_internal_tagged_enum_newtype {
         quote_spanned! {span=>
-- 
2.43.0


From 6d13e5d113537e3ad04a70c9a5603f26ea89a94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:41 +0000
Subject: [PATCH 24/29] fix: don't apply a flattened field's
 title/description/etc. to its container

---
 schemars/src/_private/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index 71cc31a..51fba1a 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -461,7 +461,10 @@ pub fn flatten(schema: &mut Schema, other: Schema) {
             normalise_additional_unevaluated_properties(&mut obj2, obj1);
 
             for (key, value2) in obj2 {
-                flatten_property(obj1, key, value2);
+                // Annotations describe the flattened field, not what it's being flattened into
+                if !["title", "description", "deprecated", "examples"].contains(&key.as_str()) {
+                    flatten_property(obj1, key, value2);
+                }
             }
         }
     }
-- 
2.43.0


From b9fce9cfb567e56e53c4d68516592972ac3de9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:29 +0000
Subject: [PATCH 25/29] fix: allow null in the schema of a Weak reference

---
 schemars/src/json_schema_impls/wrapper.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/schemars/src/json_schema_impls/wrapper.rs b/schemars/src/json_schema_impls/wrapper.rs
index ea09504..7e0ebcd 100644
--- a/schemars/src/json_schema_impls/wrapper.rs
+++ b/schemars/src/json_schema_impls/wrapper.rs
@@ -11,9 +11,7 @@ wrapper_impl!(<'a, T: ?Sized> JsonSchema for &'a T);
 wrapper_impl!(<'a, T: ?Sized> JsonSchema for &'a mut T);
 wrapper_impl!(<T: ?Sized> JsonSchema for Box<T>);
 wrapper_impl!(<T: ?Sized> JsonSchema for alloc::rc::Rc<T>);
-wrapper_impl!(<T: ?Sized> JsonSchema for alloc::rc::Weak<T>);
 wrapper_impl!(<T: ?Sized> JsonSchema for alloc::sync::Arc<T>);
-wrapper_impl!(<T: ?Sized> JsonSchema for alloc::sync::Weak<T>);
 #[cfg(feature = "std")]
 wrapper_impl!(<T: ?Sized> JsonSchema for std::sync::Mutex<T>);
 #[cfg(feature = "std")]
@@ -23,3 +21,7 @@ wrapper_impl!(<T: ?Sized> JsonSchema for core::cell::RefCell<T>);
 wrapper_impl!(<'a, T: ?Sized + ToOwned> JsonSchema for alloc::borrow::Cow<'a, T>);
 wrapper_impl!(<T> JsonSchema for core::num::Wrapping<T>);
 wrapper_impl!(<T> JsonSchema for core::cmp::Reverse<T>);
+
+// A `Weak` that's been dropped is (de)serialized as `null`
+forward_impl!((<T: ?Sized> JsonSchema for alloc::rc::Weak<T> where T: JsonSchema) => Option<alloc::rc::Rc<T>>);
+forward_impl!((<T: ?Sized> JsonSchema for alloc::sync::Weak<T> where T: JsonSchema) => Option<alloc::sync::Arc<T>>);
-- 
2.43.0


From bd049ba18407096a93df27804b6d7c7b5d1f772f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:36 +0000
Subject: [PATCH 26/29] fix: derive ArrayVec's schema_id from its item's
 schema_id rather than its name

---
 schemars/src/json_schema_impls/arrayvec07.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/schemars/src/json_schema_impls/arrayvec07.rs b/schemars/src/json_schema_impls/arrayvec07.rs
index fc72777..a214e78 100644
--- a/schemars/src/json_schema_impls/arrayvec07.rs
+++ b/schemars/src/json_schema_impls/arrayvec07.rs
@@ -17,6 +17,10 @@ where
         format!("Array_up_to_size_{}_of_{}", CAP, T::schema_name()).into()
     }
 
+    fn schema_id() -> alloc::borrow::Cow<'static, str> {
+        format!("ArrayVec<{}, {}>", T::schema_id(), CAP).into()
+    }
+
     fn json_schema(generator: &mut SchemaGenerator) -> Schema {
         json_schema!({
             "type": "array",
-- 
2.43.0


From 076d2e74c70688cf8422b34c9e86e74026b72756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:28 +0000
Subject: [PATCH 27/29] fix: separate generic params in derived schema_id so
 that they're unambiguous

---
 schemars_derive/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/schemars_derive/src/lib.rs b/schemars_derive/src/lib.rs
index 873b774..f84a3f6 100644
--- a/schemars_derive/src/lib.rs
+++ b/schemars_derive/src/lib.rs
@@ -128,7 +128,8 @@ fn derive_json_schema(mut input: syn::DeriveInput, repr: bool) -> syn::Result<To
         }
     } else {
         let relevant_type_params = &cont.relevant_type_params;
-        let format_string_braces = vec!["{}"; const_params.len() + relevant_type_params.len()];
+        let format_string_braces =
+            vec!["{}"; const_params.len() + relevant_type_params.len()].join(", ");
 
         quote! {
             schemars::_private::alloc::borrow::Cow::Owned(
@@ -136,7 +137,7 @@ fn derive_json_schema(mut input: syn::DeriveInput, repr: bool) -> syn::Result<To
                     ::core::concat!(
                         ::core::module_path!(),
                         "::{}<",
-                        #(#format_string_braces,)*
+                        #format_string_braces,
                         ">"
                     ),
                     #name,
-- 
2.43.0


From 64eb9e74f213310b390028409903c2a83695938e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:52 +0000
Subject: [PATCH 28/29] fix: include schema_with function's type params in
 derived schema_id

---
 schemars_derive/src/bound.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/schemars_derive/src/bound.rs b/schemars_derive/src/bound.rs
index 77dc951..df663c3 100644
--- a/schemars_derive/src/bound.rs
+++ b/schemars_derive/src/bound.rs
@@ -119,13 +119,19 @@ impl FindTyParams<'_> {
     fn visit_field(&mut self, field: &Field) {
         match &field.attrs.with {
             Some(WithAttr::Type(ty)) => self.visit_type(field, ty),
-            Some(WithAttr::Function(_)) => {
-                // `schema_with` function type params may or may not implement `JsonSchema`
-            }
+            Some(WithAttr::Function(fun)) => self.visit_schema_with(field, fun),
             None => self.visit_type(field, &field.original.ty),
         }
     }
 
+    fn visit_schema_with(&mut self, field: &Field, fun: &syn::Path) {
+        // `schema_with` function type params may or may not implement `JsonSchema`, so they don't
+        // imply any bounds, but they're still relevant because they may affect the schema
+        let type_params_for_bound = self.type_params_for_bound.clone();
+        self.visit_path(field, fun);
+        self.type_params_for_bound = type_params_for_bound;
+    }
+
     fn visit_path(&mut self, field: &Field, path: &syn::Path) {
         if let Some(seg) = path.segments.last() {
             if seg.ident == "PhantomData" {
-- 
2.43.0


From 33ea6d5834a90c5067c34c19248d31f9e45f769d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:48 +0000
Subject: [PATCH 29/29] fix: include type params used in container and variant
 attributes in derived schema_id

---
 schemars_derive/src/bound.rs | 53 +++++++++++++++++++++++++++++++++++-
 1 file changed, 52 insertions(+), 1 deletion(-)

diff --git a/schemars_derive/src/bound.rs b/schemars_derive/src/bound.rs
index df663c3..f1a672d 100644
--- a/schemars_derive/src/bound.rs
+++ b/schemars_derive/src/bound.rs
@@ -1,7 +1,9 @@
 use crate::{
     ast::{Container, Data, Field, Variant},
-    attr::WithAttr,
+    attr::{CommonAttrs, WithAttr},
 };
+use proc_macro2::{TokenStream, TokenTree};
+use quote::ToTokens;
 use std::collections::BTreeSet;
 use syn::{punctuated::Punctuated, Ident};
 
@@ -56,6 +58,19 @@ pub fn find_trait_bounds<'a>(orig_generics: &'a syn::Generics, cont: &mut Contai
         }
     }
 
+    // Type params used in other attributes don't imply any bounds, but are still relevant because
+    // they may affect the schema
+    visitor.visit_attrs(&cont.attrs.common, cont.attrs.with.as_ref());
+    match &cont.data {
+        Data::Enum(variants) => {
+            for variant in variants {
+                visitor.visit_attrs(&variant.attrs.common, variant.attrs.with.as_ref());
+                visitor.visit_fields_attrs(&variant.fields);
+            }
+        }
+        Data::Struct(_, fields) => visitor.visit_fields_attrs(fields),
+    }
+
     cont.relevant_type_params = visitor.relevant_type_params;
 
     let where_clause = cont.generics.make_where_clause();
@@ -132,6 +147,42 @@ impl FindTyParams<'_> {
         self.type_params_for_bound = type_params_for_bound;
     }
 
+    fn visit_attrs(&mut self, common: &CommonAttrs, with: Option<&WithAttr>) {
+        match with {
+            Some(WithAttr::Type(ty)) => self.visit_tokens(ty.to_token_stream()),
+            Some(WithAttr::Function(fun)) => self.visit_tokens(fun.to_token_stream()),
+            None => {}
+        }
+
+        let mut mutators = Vec::new();
+        common.add_mutators(&mut mutators);
+        self.visit_tokens(mutators.into_iter().collect());
+    }
+
+    fn visit_fields_attrs(&mut self, fields: &[Field]) {
+        for field in fields {
+            self.visit_attrs(&field.attrs.common, None);
+
+            let mut mutators = Vec::new();
+            field.attrs.validation.add_mutators(&mut mutators);
+            self.visit_tokens(mutators.into_iter().collect());
+        }
+    }
+
+    fn visit_tokens(&mut self, tokens: TokenStream) {
+        for token in tokens {
+            match token {
+                TokenTree::Group(group) => self.visit_tokens(group.stream()),
+                TokenTree::Ident(ident) => {
+                    if let Some(id) = self.all_type_params.get(&ident) {
+                        self.relevant_type_params.insert(id);
+                    }
+                }
+                TokenTree::Punct(_) | TokenTree::Literal(_) => {}
+            }
+        }
+    }
+
     fn visit_path(&mut self, field: &Field, path: &syn::Path) {
         if let Some(seg) = path.segments.last() {
             if seg.ident == "PhantomData" {
-- 
2.43.0

