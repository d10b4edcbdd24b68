From 21bd77aae76e23fbeaaa45e1136bb15370b04932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:07 +0000
Subject: [PATCH 01/18] fix: block scalar indentation cannot panic or cut
 content

An indicator outside 1..999 was unwrapped (0, overflow, non-ASCII digits), and a line
indented less than the block was sliced out of bounds or lost its first characters.
---
 src/yaml.pest      | 2 +-
 src/yaml/parser.rs | 7 ++-----
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index aa93289..a18f148 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -45,7 +45,7 @@ block_empty_lines = @{ NEWLINE* }
 string_multiline_content_part = { NEWLINE ~ block_empty_lines ~ PEEK[-2..] ~ block_string }
 string_multiline_trailing = @{ (NEWLINE ~ &NEWLINE)* }
 string_multiline_content = { blanknl ~ block_empty_lines ~ (PEEK ~ PUSH(" ") ~ block_string) ~ string_multiline_content_part* ~ string_multiline_trailing ~ DROP }
-string_multiline_indent = { (NUMBER+)* } 
+string_multiline_indent = { (ASCII_NONZERO_DIGIT ~ ASCII_DIGIT{0,2})? }
 string_multiline_folded = { ">" ~ string_block_chomping? ~ string_multiline_indent ~ string_multiline_content }
 string_multiline_literal = { "|" ~ string_block_chomping? ~  string_multiline_indent  ~ string_multiline_content }
 
diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index 9e664d1..39231b4 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -558,11 +558,8 @@ fn clean_multiline_strings(indent: Option<usize>, lines: Vec<String>) -> Vec<Str
     lines
         .into_iter()
         .map(|x| {
-            if x.is_empty() {
-                x
-            } else {
-                x[indent..].to_string()
-            }
+            let indent = indent.min(count_whitespace_bytes_at_start(&x));
+            x.get(indent..).unwrap_or(&x).to_string()
         })
         .collect()
 }
-- 
2.43.0


From 8cdd32ff963036c10d3fea5985edf75f9003ff5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:14 +0000
Subject: [PATCH 02/18] fix: malformed indexes and blanks in a path are errors,
 not panics

Blanks produced WHITESPACE nodes that no parser function handles, and an index
that is too large was unwrapped.
---
 src/path.pest | 4 ++--
 src/path.rs   | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/path.pest b/src/path.pest
index c63d648..11d8253 100644
--- a/src/path.pest
+++ b/src/path.pest
@@ -1,4 +1,4 @@
-WHITESPACE = { " " }
+WHITESPACE = _{ " " }
 
 key_items = _{ !("[" | "]" | "." | "|") ~ ANY }
 pure_key = { key_items+ }
@@ -8,7 +8,7 @@ value = { (!("." | "|") ~ ANY)+ }
 condition = { field ~ "=" ~ value }
 key = { pure_key ~ ( "|" ~ condition )* }
 
-index_number = { ASCII_DIGIT+ }
+index_number = @{ ASCII_DIGIT+ }
 index_all = { "*" }
 index = _{ "[" ~ (index_number | index_all) ~ "]" ~ ( "|" ~ condition )* }
 
diff --git a/src/path.rs b/src/path.rs
index 1f3cd36..e96fee0 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -32,7 +32,10 @@ impl PathParser {
     }
 
     fn index_number(input: Node) -> PathResult<Vec<usize>> {
-        Ok(vec![input.as_str().parse().unwrap()]) // TODO: remove unwrap
+        match input.as_str().parse() {
+            Ok(index) => Ok(vec![index]),
+            Err(e) => Err(input.error(e)),
+        }
     }
     fn index_all(input: Node) -> PathResult<()> {
         Ok(())
-- 
2.43.0


From 94e091648571d8de6c4258815c3399db63f01f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:36 +0000
Subject: [PATCH 03/18] fix: indexes into inline arrays continue with the rest
 of the path

for_hash passed the index step itself on to the element, so a[0], a[*] and a[0][1]
found nothing in inline arrays of scalars and repeated the step in nested arrays.
---
 src/yaml/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 9c27b94..a31c345 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -160,14 +160,16 @@ impl YamlInsert for Yaml {
                     _ => A::zero(),
                 }
             }
-            YamlPath::Indexes(indexes, conditions, _) => match self {
+            YamlPath::Indexes(indexes, conditions, other_path_opt) => match self {
                 Yaml::InlineArray(elements) => {
+                    let root = YamlPath::Root(Vec::new());
+                    let rest = other_path_opt.as_deref().unwrap_or(&root);
                     let mut count = A::zero();
                     for index in indexes.iter() {
                         let element_opt = elements.get_mut(*index);
                         if let Some(element) = element_opt {
                             if element.fits_conditions(conditions) {
-                                count = count + element.for_hash(path, f, r)
+                                count = count + element.for_hash(rest, f, r)
                             }
                         }
                     }
@@ -192,12 +194,14 @@ impl YamlInsert for Yaml {
                 _ => A::zero(),
             },
             //YamlPath::AllIndexes(Some(other_path)) => match self {
-            YamlPath::AllIndexes(conditions, _) => match self {
+            YamlPath::AllIndexes(conditions, other_path_opt) => match self {
                 Yaml::InlineArray(elements) => {
+                    let root = YamlPath::Root(Vec::new());
+                    let rest = other_path_opt.as_deref().unwrap_or(&root);
                     let mut count = A::zero();
                     for element in elements.iter_mut() {
                         if element.fits_conditions(conditions) {
-                            count = count + element.for_hash(path, f, r)
+                            count = count + element.for_hash(rest, f, r)
                         }
                     }
                     count
-- 
2.43.0


From cc5e67b5ce7c412fa6e78d45d53ea836f36e8963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:12 +0000
Subject: [PATCH 04/18] fix: move_to_subfield keeps fields its destination
 cannot take

The fields were removed although a destination that is no block mapping, or is itself
among the fields, had not received them; keys that are no path expression panicked.
---
 src/yaml/insert.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/yaml/insert.rs b/src/yaml/insert.rs
index b1d48c0..ed3d8c8 100644
--- a/src/yaml/insert.rs
+++ b/src/yaml/insert.rs
@@ -30,6 +30,11 @@ impl<T> Additive for MyVec<T> {
     }
 }
 
+/// Path of a single entry, whatever characters its key contains
+fn key_path(key: &str) -> YamlPath {
+    YamlPath::Key(key.to_string(), Vec::new(), None)
+}
+
 pub trait YamlInsert {
     fn for_hash<F, R, A: Additive>(&mut self, path: &YamlPath, f: &F, r: &R) -> A
     where
@@ -140,14 +145,17 @@ pub trait YamlInsert {
             Yaml::Hash(_data) => {
                 let fields: Vec<_> = fields_to_move
                     .iter()
+                    .filter(|key| **key != subfield)
                     .filter_map(|key| hash.key_value_owned(key).map(|val| (key, val)))
                     .collect();
                 if !fields.is_empty() {
                     let subfield_value_opt = hash.key_value_mut(&subfield);
                     let res = if let Some(subfield_value) = subfield_value_opt {
+                        if !matches!(subfield_value.value, Yaml::Hash(_)) {
+                            return 0;
+                        }
                         for (key, value) in fields.iter() {
-                            let path = key.parse().unwrap();
-                            subfield_value.insert_into_hash(&path, &value, true);
+                            subfield_value.insert_into_hash(&key_path(key), &value, true);
                         }
                         1
                     } else {
@@ -164,11 +172,11 @@ pub trait YamlInsert {
                                 .collect(),
                         );
                         let new = AliasedYaml { alias: None, value };
-                        hash.insert_into_hash(&subfield.parse().unwrap(), &new, false);
+                        hash.insert_into_hash(&key_path(&subfield), &new, false);
                         1
                     };
                     for (key, _) in fields {
-                        hash.remove_from_hash(&key.parse().unwrap());
+                        hash.remove_from_hash(&key_path(key));
                     }
                     res
                 } else {
-- 
2.43.0


From 38579c5107308f3e3b1af13898242fb7d11ce438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:19 +0000
Subject: [PATCH 05/18] fix: regrouping a map never overwrites or drops entries

When the new map name already existed (or equalled the old one) the regrouped entries
were discarded; names that are no path expression panicked.
---
 src/yaml/insert.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/yaml/insert.rs b/src/yaml/insert.rs
index ed3d8c8..dc6cd5a 100644
--- a/src/yaml/insert.rs
+++ b/src/yaml/insert.rs
@@ -202,6 +202,9 @@ pub trait YamlInsert {
     ) -> usize {
         let r = |hash: &mut Yaml| match hash {
             Yaml::Hash(_data) => {
+                if hash.key_index(&new_map_name).is_some() {
+                    return 0;
+                }
                 if let Some(result) = hash.key_value_owned(&old_map_name) {
                     if let Yaml::Hash(hash_data) = result.value {
                         let mut new_hashes: BTreeMap<String, Vec<HashData>> = BTreeMap::new();
@@ -217,14 +220,14 @@ pub trait YamlInsert {
                                         if let Some(s) = key.as_string() {
                                             if keeps.contains(&s) || s.is_empty() {
                                                 hash_data
-                                                    .remove_from_hash(&selector.parse().unwrap());
+                                                    .remove_from_hash(&key_path(&selector));
                                                 old_hashes.extend(comments.clone());
                                                 comments.clear();
                                                 old_hashes.push(hash_data);
                                                 last_added_to = None
                                             } else {
                                                 let mut value = hash_element.value.clone();
-                                                value.remove_from_hash(&selector.parse().unwrap());
+                                                value.remove_from_hash(&key_path(&selector));
 
                                                 let new_hash_element =
                                                     HashData::Element(HashElement {
@@ -286,12 +289,12 @@ pub trait YamlInsert {
                                         .collect(),
                                 ),
                             };
-                            hash.insert_into_hash(&new_map_name.parse().unwrap(), &new, false);
+                            hash.insert_into_hash(&key_path(&new_map_name), &new, false);
                             let old = AliasedYaml {
                                 alias: result.alias.clone(),
                                 value: Yaml::Hash(old_hashes),
                             };
-                            hash.insert_into_hash(&old_map_name.parse().unwrap(), &old, true);
+                            hash.insert_into_hash(&key_path(&old_map_name), &old, true);
                             1
                         } else {
                             0
-- 
2.43.0


From 89164244590fa761cb8ee5ad8966dce95f84977c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:22 +0000
Subject: [PATCH 06/18] fix: string map keys that need single quotes are
 accepted

Serializing a map whose key is empty, contains a colon and a blank, or looks like a
number failed with 'non-string map key'.
---
 src/yaml/serializer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yaml/serializer.rs b/src/yaml/serializer.rs
index 8fc2c34..7b0f8e5 100644
--- a/src/yaml/serializer.rs
+++ b/src/yaml/serializer.rs
@@ -141,10 +141,11 @@ fn str_to_yaml(s: &str) -> Yaml {
 }
 
 fn yaml_to_key_string(yaml: Yaml) -> Result<String, YamlSerializeError> {
-    use super::string::parse_double_quoted_string;
+    use super::string::{parse_double_quoted_string, parse_single_quoted_string};
     match yaml {
         Yaml::UnquotedString(s) => Ok(s),
         Yaml::DoubleQuotedString(ref parts) => Ok(parse_double_quoted_string(parts)),
+        Yaml::SingleQuotedString(ref parts) => Ok(parse_single_quoted_string(parts)),
         _ => Err(YamlSerializeError("non-string map key".to_string())),
     }
 }
-- 
2.43.0


From 4e4273954d122ede8ba5a222d3b398d22de159d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 07/18] fix: strings that read as other constructs are not
 written unquoted

'Null', '*x', '&x', '- x', 'k:' and text with leading or trailing Unicode blanks were
written as plain scalars, which read back as null, references, arrays or mappings.
---
 src/yaml/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index a31c345..9e141bf 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -573,7 +573,7 @@ impl<T: Pretty> Pretty for Vec<T> {
 
 // Returns true when a string can be written as a plain (unquoted) YAML scalar in block context.
 // Rules based on yaml_subset's grammar:
-//   - start disallowed: [ ] { } " ' # > | newline
+//   - start disallowed: [ ] { } " ' # > | * & newline
 //   - anywhere disallowed: ": " (colon-space), # , newlines
 // Also rejects strings that serde's untagged-enum Content mechanism misinterprets:
 // untagged enum deserialization calls deserialize_any to collect into Content, and
@@ -593,6 +593,17 @@ fn can_be_unquoted_in_block(s: &str) -> bool {
     if s.contains(": ") || s.contains('#') || s.contains('\n') || s.contains('\r') {
         return false;
     }
+    // Blanks around a value are trimmed, "*x" and "&x" read as reference and anchor,
+    // "- x" as an array element, "k: x" and "k:" as a mapping.
+    if s.trim() != s
+        || s.starts_with('*')
+        || s.starts_with('&')
+        || s.split(char::is_whitespace).next() == Some("-")
+        || s.split(char::is_whitespace).any(|word| word.ends_with(':'))
+        || matches!(s, "Null" | "NULL")
+    {
+        return false;
+    }
     !s.parse::<i64>().is_ok() && !s.parse::<f64>().is_ok()
         && !matches!(s, "true" | "false" | "null" | "~")
 }
-- 
2.43.0


From cd057a22af608193ea8b43e0d6dbbc14fcb27244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 08/18] fix: 128-bit integers can be deserialized

They were written in full but serde's default rejected reading them.
---
 src/yaml/deserializer.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/yaml/deserializer.rs b/src/yaml/deserializer.rs
index 049b962..e56eb9c 100644
--- a/src/yaml/deserializer.rs
+++ b/src/yaml/deserializer.rs
@@ -235,6 +235,16 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
             Err(Self::Error::custom("expected integer"))
         }
     }
+    fn deserialize_i128<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        let (yaml, _) = into_resolved(self.yaml, self.anchors)?;
+        if let Some(s) = yaml_to_string(&yaml) {
+            s.parse::<i128>()
+                .map_err(|e| Self::Error::custom(e))
+                .and_then(|v| visitor.visit_i128(v))
+        } else {
+            Err(Self::Error::custom("expected integer"))
+        }
+    }
     fn deserialize_u8<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
         self.deserialize_u64(visitor)
     }
@@ -254,6 +264,16 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
             Err(Self::Error::custom("expected unsigned integer"))
         }
     }
+    fn deserialize_u128<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        let (yaml, _) = into_resolved(self.yaml, self.anchors)?;
+        if let Some(s) = yaml_to_string(&yaml) {
+            s.parse::<u128>()
+                .map_err(|e| Self::Error::custom(e))
+                .and_then(|v| visitor.visit_u128(v))
+        } else {
+            Err(Self::Error::custom("expected unsigned integer"))
+        }
+    }
     fn deserialize_f32<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
         self.deserialize_f64(visitor)
     }
-- 
2.43.0


From 6d361ce553b2c1c2ad144a19534e7ca4dbff9288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 09/18] fix: data-carrying enum variants are written under
 their name

Newtype, tuple and struct variants lost the variant name, so the deserializer, which
expects a single-key mapping, could not read them back.
---
 src/yaml/serializer.rs | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/yaml/serializer.rs b/src/yaml/serializer.rs
index 7b0f8e5..e6a3689 100644
--- a/src/yaml/serializer.rs
+++ b/src/yaml/serializer.rs
@@ -32,6 +32,17 @@ fn aliased(value: Yaml) -> AliasedYaml {
     AliasedYaml { alias: None, value }
 }
 
+// Content of a data-carrying enum variant: a mapping whose only key is the variant name.
+fn tagged(variant: Option<&'static str>, content: Yaml) -> Yaml {
+    match variant {
+        Some(name) => Yaml::Hash(vec![HashData::Element(HashElement {
+            key: name.to_string(),
+            value: aliased(content),
+        })]),
+        None => content,
+    }
+}
+
 // Returns true when a string cannot be written as a plain (unquoted) YAML scalar.
 // Also quotes strings that are unsafe in inline (flow) context, since the serializer
 // has no context. pretty() will de-quote back to unquoted in block context when safe.
@@ -256,10 +267,10 @@ impl ser::Serializer for YamlSerializer {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         value: &T,
     ) -> Result<Yaml, Self::Error> {
-        value.serialize(self)
+        Ok(tagged(Some(variant), value.serialize(self)?))
     }
     fn serialize_seq(self, _len: Option<usize>) -> Result<SeqSerializer, Self::Error> {
         Ok(SeqSerializer {
@@ -269,6 +280,7 @@ impl ser::Serializer for YamlSerializer {
     fn serialize_tuple(self, _len: usize) -> Result<TupleSerializer, Self::Error> {
         Ok(TupleSerializer {
             elements: Vec::new(),
+            variant: None,
         })
     }
     fn serialize_tuple_struct(
@@ -282,15 +294,18 @@ impl ser::Serializer for YamlSerializer {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         len: usize,
     ) -> Result<TupleSerializer, Self::Error> {
-        self.serialize_tuple(len)
+        let mut tuple = self.serialize_tuple(len)?;
+        tuple.variant = Some(variant);
+        Ok(tuple)
     }
     fn serialize_map(self, _len: Option<usize>) -> Result<MapSerializer, Self::Error> {
         Ok(MapSerializer {
             entries: Vec::new(),
             current_key: None,
+            variant: None,
         })
     }
     fn serialize_struct(
@@ -304,10 +319,12 @@ impl ser::Serializer for YamlSerializer {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         len: usize,
     ) -> Result<MapSerializer, Self::Error> {
-        self.serialize_map(Some(len))
+        let mut map = self.serialize_map(Some(len))?;
+        map.variant = Some(variant);
+        Ok(map)
     }
 }
 
@@ -346,6 +363,7 @@ impl ser::SerializeSeq for SeqSerializer {
 // (e.g. the argument list) when they contain only simple scalars.
 pub struct TupleSerializer {
     elements: Vec<Yaml>,
+    variant: Option<&'static str>,
 }
 
 impl ser::SerializeTuple for TupleSerializer {
@@ -358,7 +376,7 @@ impl ser::SerializeTuple for TupleSerializer {
     }
 
     fn end(self) -> Result<Yaml, Self::Error> {
-        Ok(Yaml::InlineArray(self.elements))
+        Ok(tagged(self.variant, Yaml::InlineArray(self.elements)))
     }
 }
 
@@ -393,6 +411,7 @@ impl ser::SerializeTupleVariant for TupleSerializer {
 pub struct MapSerializer {
     entries: Vec<(String, Yaml)>,
     current_key: Option<String>,
+    variant: Option<&'static str>,
 }
 
 impl ser::SerializeMap for MapSerializer {
@@ -415,7 +434,7 @@ impl ser::SerializeMap for MapSerializer {
     }
 
     fn end(self) -> Result<Yaml, Self::Error> {
-        Ok(Yaml::Hash(
+        let content = Yaml::Hash(
             self.entries
                 .into_iter()
                 .map(|(k, v)| {
@@ -425,7 +444,8 @@ impl ser::SerializeMap for MapSerializer {
                     })
                 })
                 .collect(),
-        ))
+        );
+        Ok(tagged(self.variant, content))
     }
 }
 
-- 
2.43.0


From 1af535fe9c1abe7d2b409590613e9aecdb1a7175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:48 +0000
Subject: [PATCH 10/18] fix: chained references resolve and reference cycles
 are errors

A reference to a reference was not resolved for typed reading, and a cyclic anchor
recursed until the stack overflowed.
---
 src/yaml/deserializer.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/yaml/deserializer.rs b/src/yaml/deserializer.rs
index e56eb9c..e7bc8e7 100644
--- a/src/yaml/deserializer.rs
+++ b/src/yaml/deserializer.rs
@@ -96,7 +96,10 @@ fn into_resolved(yaml: Yaml, anchors: Anchors) -> Result<(Yaml, Anchors), YamlDe
     match yaml {
         Yaml::Anchor(ref name) => {
             let resolved = resolve(&anchors, name)?;
-            Ok((resolved, anchors))
+            // A name is not defined inside its own value, so a cycle ends as an undefined anchor.
+            let mut inner = anchors.borrow().clone();
+            inner.remove(name);
+            into_resolved(resolved, Rc::new(RefCell::new(inner)))
         }
         other => Ok((other, anchors)),
     }
@@ -193,9 +196,9 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
                 visitor.visit_map(VecMapAccess::new(entries, anchors))
             }
             Yaml::InlineHash(data) => visitor.visit_map(VecMapAccess::new(data, anchors)),
-            Yaml::Anchor(name) => {
-                let resolved = resolve(&anchors, &name)?;
-                YamlDeserializer::with(resolved, anchors).deserialize_any(visitor)
+            anchor @ Yaml::Anchor(_) => {
+                let (yaml, anchors) = into_resolved(anchor, anchors)?;
+                YamlDeserializer::with(yaml, anchors).deserialize_any(visitor)
             }
         }
     }
-- 
2.43.0


From ac17e83dc5b7f8c9745594d587d39ee4424cc3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:52 +0000
Subject: [PATCH 11/18] fix: anchors inside ignored values are recorded

A reference to an anchor nested in a field the target type does not have failed as undefined.
---
 src/yaml/deserializer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/yaml/deserializer.rs b/src/yaml/deserializer.rs
index e7bc8e7..034e029 100644
--- a/src/yaml/deserializer.rs
+++ b/src/yaml/deserializer.rs
@@ -4,7 +4,7 @@ use serde::Deserialize;
 use super::string::{
     parse_double_quoted_string, parse_folded, parse_literal, parse_single_quoted_string,
 };
-use super::{AliasedYaml, ArrayData, HashData, Yaml};
+use super::{AliasedYaml, ArrayData, HashData, VisitYaml, Yaml};
 use std::cell::RefCell;
 use std::collections::HashMap;
 use std::rc::Rc;
@@ -447,6 +447,8 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
     }
 
     fn deserialize_ignored_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        let anchors = self.anchors;
+        self.yaml.visit_yaml(&mut |aliased: &AliasedYaml| register(&anchors, aliased));
         visitor.visit_unit()
     }
 }
-- 
2.43.0


From 326d21fc1a92f9c2b28ebbec9585e431e6b2ab61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:42 +0000
Subject: [PATCH 12/18] fix: a reference sees the anchors before it, not later
 redefinitions

All anchors of a mapping or sequence were recorded before its first value was read, so
a later redefinition won and references to later anchors were accepted.
---
 src/yaml/deserializer.rs | 70 ++++++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 27 deletions(-)

diff --git a/src/yaml/deserializer.rs b/src/yaml/deserializer.rs
index 034e029..c615907 100644
--- a/src/yaml/deserializer.rs
+++ b/src/yaml/deserializer.rs
@@ -67,31 +67,29 @@ fn resolve(anchors: &Anchors, name: &str) -> Result<Yaml, YamlDeserializeError>
         .ok_or_else(|| YamlDeserializeError(format!("undefined anchor: {name}")))
 }
 
-fn hash_entries(anchors: &Anchors, data: Vec<HashData>) -> Vec<(String, Yaml)> {
+fn hash_entries(data: Vec<HashData>) -> Vec<(String, AliasedYaml)> {
     data.into_iter()
         .filter_map(|d| match d {
-            HashData::Element(e) => {
-                register(anchors, &e.value);
-                Some((e.key, e.value.value))
-            }
+            HashData::Element(e) => Some((e.key, e.value)),
             HashData::InlineComment(_) | HashData::Comment(_) => None,
         })
         .collect()
 }
 
-fn seq_values(anchors: &Anchors, elements: Vec<ArrayData>) -> Vec<Yaml> {
+fn seq_values(elements: Vec<ArrayData>) -> Vec<AliasedYaml> {
     elements
         .into_iter()
         .filter_map(|d| match d {
-            ArrayData::Element(e) => {
-                register(anchors, &e);
-                Some(e.value)
-            }
+            ArrayData::Element(e) => Some(e),
             ArrayData::InlineComment(_) | ArrayData::Comment(_) => None,
         })
         .collect()
 }
 
+fn unanchored(value: Yaml) -> AliasedYaml {
+    AliasedYaml { alias: None, value }
+}
+
 fn into_resolved(yaml: Yaml, anchors: Anchors) -> Result<(Yaml, Anchors), YamlDeserializeError> {
     match yaml {
         Yaml::Anchor(ref name) => {
@@ -187,15 +185,21 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
                 visitor.visit_string(parse_single_quoted_string(parts))
             }
             Yaml::Array(elements) => {
-                let values = seq_values(&anchors, elements);
+                let values = seq_values(elements);
+                visitor.visit_seq(VecSeqAccess::new(values, anchors))
+            }
+            Yaml::InlineArray(elements) => {
+                let values = elements.into_iter().map(unanchored).collect();
                 visitor.visit_seq(VecSeqAccess::new(values, anchors))
             }
-            Yaml::InlineArray(elements) => visitor.visit_seq(VecSeqAccess::new(elements, anchors)),
             Yaml::Hash(data) => {
-                let entries = hash_entries(&anchors, data);
+                let entries = hash_entries(data);
+                visitor.visit_map(VecMapAccess::new(entries, anchors))
+            }
+            Yaml::InlineHash(data) => {
+                let entries = data.into_iter().map(|(k, v)| (k, unanchored(v))).collect();
                 visitor.visit_map(VecMapAccess::new(entries, anchors))
             }
-            Yaml::InlineHash(data) => visitor.visit_map(VecMapAccess::new(data, anchors)),
             anchor @ Yaml::Anchor(_) => {
                 let (yaml, anchors) = into_resolved(anchor, anchors)?;
                 YamlDeserializer::with(yaml, anchors).deserialize_any(visitor)
@@ -344,10 +348,13 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
         let (yaml, anchors) = into_resolved(self.yaml, self.anchors)?;
         match yaml {
             Yaml::Array(elements) => {
-                let values = seq_values(&anchors, elements);
+                let values = seq_values(elements);
+                visitor.visit_seq(VecSeqAccess::new(values, anchors))
+            }
+            Yaml::InlineArray(elements) => {
+                let values = elements.into_iter().map(unanchored).collect();
                 visitor.visit_seq(VecSeqAccess::new(values, anchors))
             }
-            Yaml::InlineArray(elements) => visitor.visit_seq(VecSeqAccess::new(elements, anchors)),
             _ => Err(Self::Error::custom("expected sequence")),
         }
     }
@@ -373,10 +380,13 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
         let (yaml, anchors) = into_resolved(self.yaml, self.anchors)?;
         match yaml {
             Yaml::Hash(data) => {
-                let entries = hash_entries(&anchors, data);
+                let entries = hash_entries(data);
+                visitor.visit_map(VecMapAccess::new(entries, anchors))
+            }
+            Yaml::InlineHash(data) => {
+                let entries = data.into_iter().map(|(k, v)| (k, unanchored(v))).collect();
                 visitor.visit_map(VecMapAccess::new(entries, anchors))
             }
-            Yaml::InlineHash(data) => visitor.visit_map(VecMapAccess::new(data, anchors)),
             _ => Err(Self::Error::custom("expected map")),
         }
     }
@@ -416,9 +426,11 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
             // Newtype / tuple / struct variant: single-key map where the key is
             // the variant name and the value is the variant's content.
             Yaml::Hash(data) => {
-                let mut entries = hash_entries(&anchors, data);
+                let mut entries = hash_entries(data);
                 if entries.len() == 1 {
-                    let (variant, value) = entries.remove(0);
+                    let (variant, aliased) = entries.remove(0);
+                    register(&anchors, &aliased);
+                    let value = aliased.value;
                     visitor.visit_enum(StrEnumAccess { variant, value, anchors })
                 } else {
                     Err(Self::Error::custom(
@@ -456,12 +468,12 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
 // ─── Sequence Access ─────────────────────────────────────────────────────────
 
 struct VecSeqAccess {
-    iter: std::vec::IntoIter<Yaml>,
+    iter: std::vec::IntoIter<AliasedYaml>,
     anchors: Anchors,
 }
 
 impl VecSeqAccess {
-    fn new(v: Vec<Yaml>, anchors: Anchors) -> Self {
+    fn new(v: Vec<AliasedYaml>, anchors: Anchors) -> Self {
         Self { iter: v.into_iter(), anchors }
     }
 }
@@ -474,7 +486,10 @@ impl<'de> SeqAccess<'de> for VecSeqAccess {
         seed: T,
     ) -> Result<Option<T::Value>, Self::Error> {
         match self.iter.next() {
-            Some(yaml) => seed.deserialize(YamlDeserializer::with(yaml, Rc::clone(&self.anchors))).map(Some),
+            Some(aliased) => {
+                register(&self.anchors, &aliased);
+                seed.deserialize(YamlDeserializer::with(aliased.value, Rc::clone(&self.anchors))).map(Some)
+            }
             None => Ok(None),
         }
     }
@@ -483,13 +498,13 @@ impl<'de> SeqAccess<'de> for VecSeqAccess {
 // ─── Map Access ──────────────────────────────────────────────────────────────
 
 struct VecMapAccess {
-    iter: std::vec::IntoIter<(String, Yaml)>,
-    pending_value: Option<Yaml>,
+    iter: std::vec::IntoIter<(String, AliasedYaml)>,
+    pending_value: Option<AliasedYaml>,
     anchors: Anchors,
 }
 
 impl VecMapAccess {
-    fn new(v: Vec<(String, Yaml)>, anchors: Anchors) -> Self {
+    fn new(v: Vec<(String, AliasedYaml)>, anchors: Anchors) -> Self {
         Self {
             iter: v.into_iter(),
             pending_value: None,
@@ -523,7 +538,8 @@ impl<'de> MapAccess<'de> for VecMapAccess {
             .pending_value
             .take()
             .expect("next_value_seed called without next_key_seed");
-        seed.deserialize(YamlDeserializer::with(v, Rc::clone(&self.anchors)))
+        register(&self.anchors, &v);
+        seed.deserialize(YamlDeserializer::with(v.value, Rc::clone(&self.anchors)))
     }
 }
 
-- 
2.43.0


From 70dee46ecc680f233cdb674a373f0b12b79183a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:05 +0000
Subject: [PATCH 13/18] fix: prettifying a string never changes its value

Folding lost runs of blanks, lines starting with a blank and empty lines; a carriage
return became a line break when a quoted string was turned into a block.
---
 src/yaml/mod.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 9e141bf..e68fbb0 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -31,7 +31,7 @@ use crate::utils::indent;
 use crate::yaml::insert::Additive;
 use crate::yaml::string::parse_double_quoted_string;
 use crate::yaml::string::parse_single_quoted_string;
-use crate::yaml::string::{create_folded, create_literal};
+use crate::yaml::string::{create_folded, create_literal, parse_folded};
 use crate::yaml::string::SingleQuotedStringEscapedChar;
 use crate::YamlPath;
 use std::fmt::Write;
@@ -614,6 +614,17 @@ fn inline_breaking_chars(s: &str) -> bool {
         || s.contains('>') || s.contains('|')
 }
 
+// The folded form of a string, unless folding would change it (several blanks in a row,
+// lines starting with a blank, empty lines).
+fn fold_lossless(s: String, line_length: usize, chomping: BlockChomping) -> Option<Yaml> {
+    let lines = create_folded(s.clone(), line_length);
+    if parse_folded(lines.iter().map(|l| l.as_str()).collect(), chomping) == s {
+        Some(Yaml::FoldedString(lines, chomping))
+    } else {
+        None
+    }
+}
+
 fn str_to_single_quoted_parts(s: &str) -> Vec<SingleQuotedStringPart> {
     let mut parts: Vec<SingleQuotedStringPart> = Vec::new();
     let mut buf = String::new();
@@ -718,10 +729,15 @@ impl Pretty for Yaml {
                 let s = parse_double_quoted_string(&parts);
                 let total_length = s.len();
                 let chomping = if s.ends_with('\n') { BlockChomping::Keep } else { BlockChomping::Strip };
+                if s.contains('\r') {
+                    // a block would read it back as a line break
+                    return Yaml::DoubleQuotedString(parts);
+                }
                 if contains_escape {
                     Yaml::LiteralString(create_literal(s), chomping)
                 } else if total_length > max_line_length {
-                    Yaml::FoldedString(create_folded(s, max_line_length), chomping)
+                    fold_lossless(s, max_line_length, chomping)
+                        .unwrap_or(Yaml::DoubleQuotedString(parts))
                 } else {
                     Yaml::DoubleQuotedString(parts)
                 }
@@ -733,6 +749,10 @@ impl Pretty for Yaml {
                 let s = parse_single_quoted_string(&parts);
                 let total_length = s.len();
                 let chomping = if s.ends_with('\n') { BlockChomping::Keep } else { BlockChomping::Strip };
+                if s.contains('\r') {
+                    // a block would read it back as a line break
+                    return Yaml::SingleQuotedString(parts);
+                }
                 if contains_newline {
                     return Yaml::LiteralString(create_literal(s), chomping);
                 }
@@ -743,7 +763,8 @@ impl Pretty for Yaml {
                     return Yaml::SingleQuotedString(parts);
                 }
                 if total_length > max_line_length {
-                    Yaml::FoldedString(create_folded(s, max_line_length), chomping)
+                    fold_lossless(s, max_line_length, chomping)
+                        .unwrap_or(Yaml::SingleQuotedString(parts))
                 } else {
                     Yaml::SingleQuotedString(parts)
                 }
-- 
2.43.0


From fbb85c6d330acf373d54503c66de5bfb71c7decb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 14/18] fix: no block scalar inside an inline collection

A single-quoted string with blank lines in a flow collection was prettified to a
literal block, which cannot be written there.
---
 src/yaml/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index e68fbb0..a5ae887 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -753,7 +753,7 @@ impl Pretty for Yaml {
                     // a block would read it back as a line break
                     return Yaml::SingleQuotedString(parts);
                 }
-                if contains_newline {
+                if contains_newline && !in_inline {
                     return Yaml::LiteralString(create_literal(s), chomping);
                 }
                 if !in_inline && can_be_unquoted_in_block(&s) && !inline_breaking_chars(&s) && total_length <= max_line_length {
-- 
2.43.0


From a51536aaa7561b88e78d309a03b1e6240ba56800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 15/18] fix: blank lines inside a block scalar count once with
 CRLF line ends

---
 src/yaml/parser.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index 39231b4..47434a6 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -234,10 +234,7 @@ impl YamlParser {
     }
 
     fn block_empty_lines(input: Node) -> InternalYamlResult<Vec<String>> {
-        Ok((0..input.as_str().len())
-            .into_iter()
-            .map(|_| "".to_string())
-            .collect())
+        Ok(input.as_str().lines().map(|_| String::new()).collect())
     }
 
     fn string_block_chomping(input: Node) -> InternalYamlResult<BlockChomping> {
-- 
2.43.0


From 36a86776609b2ca888e7357396d31e6d424fb913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 16/18] fix: only spaces are indentation of a block scalar

---
 src/yaml/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index 47434a6..75bd9e4 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -544,7 +544,7 @@ pub fn parse_yaml_file(input_str: &str) -> YamlResult<Document> {
 fn count_whitespace_bytes_at_start(input: &str) -> usize {
     input
         .chars()
-        .take_while(|ch| ch.is_whitespace() && *ch != '\n')
+        .take_while(|ch| *ch == ' ')
         .map(|ch| ch.len_utf8())
         .sum()
 }
-- 
2.43.0


From 49f5fdd46c70bc145bed237868a73fb597bb3e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:20 +0000
Subject: [PATCH 17/18] fix: elements of a block array made inline are written
 for an inline context

---
 src/yaml/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index a5ae887..9a3db01 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -697,7 +697,9 @@ impl Pretty for Yaml {
                         let elems: Vec<Yaml> = prettied
                             .iter()
                             .filter_map(|d| match d {
-                                ArrayData::Element(e) => Some(e.value.clone()),
+                                ArrayData::Element(e) => {
+                                    Some(e.value.clone().pretty_with_options(true, false))
+                                }
                                 _ => None,
                             })
                             .collect();
-- 
2.43.0


From c2d424a1024f6ebddc48cbcf14f32ebd6bdc00e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:52 +0000
Subject: [PATCH 18/18] fix: move_to_subfield moves a field that is named twice
 only once

Naming a field twice put it into a new subfield twice, and removed a
second entry of the same key that had not been moved.
---
 src/yaml/insert.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/yaml/insert.rs b/src/yaml/insert.rs
index dc6cd5a..dc6c425 100644
--- a/src/yaml/insert.rs
+++ b/src/yaml/insert.rs
@@ -145,7 +145,10 @@ pub trait YamlInsert {
             Yaml::Hash(_data) => {
                 let fields: Vec<_> = fields_to_move
                     .iter()
-                    .filter(|key| **key != subfield)
+                    .enumerate()
+                    // A field named twice is moved once: the second time another one would be removed.
+                    .filter(|(i, key)| **key != subfield && !fields_to_move[..*i].contains(key))
+                    .map(|(_, key)| key)
                     .filter_map(|key| hash.key_value_owned(key).map(|val| (key, val)))
                     .collect();
                 if !fields.is_empty() {
-- 
2.43.0

