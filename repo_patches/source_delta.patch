From 15f812d95b0946aba38fe51c3dda376f494dd7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:38 +0000
Subject: [PATCH 01/31] fix: report an error for path indexes that do not fit
 in usize

`a[99999999999999999999999]` panicked in index_number; parsing a path now
returns the error instead.
---
 src/path.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/path.rs b/src/path.rs
index 1f3cd36..9bb5fdf 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -32,7 +32,8 @@ impl PathParser {
     }
 
     fn index_number(input: Node) -> PathResult<Vec<usize>> {
-        Ok(vec![input.as_str().parse().unwrap()]) // TODO: remove unwrap
+        let index = input.as_str().parse().map_err(|e| input.error(e))?;
+        Ok(vec![index])
     }
     fn index_all(input: Node) -> PathResult<()> {
         Ok(())
-- 
2.43.0


From 0c67733c681852bd4e439bf8cbb0122c3e5f8aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:40 +0000
Subject: [PATCH 02/31] fix: reject invalid block scalar indentation indicators
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

`|0` underflowed, and indicators that are not a usize (`|²`, or a very long
number) panicked. They are now parse errors.
---
 src/yaml/parser.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index 9e664d1..58b45c1 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -249,12 +249,13 @@ impl YamlParser {
     }
 
     fn string_multiline_indent(input: Node) -> InternalYamlResult<Option<usize>> {
-        Ok(if input.as_str().is_empty() {
-            None
-        } else {
-            let given: usize = input.as_str().parse().unwrap();
-            Some(given - 1)
-        })
+        if input.as_str().is_empty() {
+            return Ok(None);
+        }
+        match input.as_str().parse::<usize>() {
+            Ok(given) if given > 0 => Ok(Some(given - 1)),
+            _ => Err(input.error("invalid indentation indicator")),
+        }
     }
 
     fn string_multiline_content_part(input: Node) -> InternalYamlResult<Vec<String>> {
-- 
2.43.0


From 9a8c2677d0cbc00315628bcd431c19e24c7743de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:45 +0000
Subject: [PATCH 03/31] fix: never cut text off block scalar lines with little
 indentation

A line of a block scalar that is less indented than the first one lost its
first characters, and panicked when it was too short or when the indentation
was not on a character boundary.
---
 src/yaml/parser.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index 58b45c1..08a05b4 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -562,8 +562,21 @@ fn clean_multiline_strings(indent: Option<usize>, lines: Vec<String>) -> Vec<Str
             if x.is_empty() {
                 x
             } else {
-                x[indent..].to_string()
+                x[indentation_to_strip(&x, indent)..].to_string()
             }
         })
         .collect()
 }
+
+/// Amount of bytes of leading whitespace to remove for the given indentation.
+/// Never more than the whitespace that is there.
+fn indentation_to_strip(input: &str, indent: usize) -> usize {
+    let mut amount = 0;
+    for ch in input.chars() {
+        if amount >= indent || !ch.is_whitespace() {
+            break;
+        }
+        amount += ch.len_utf8();
+    }
+    amount
+}
-- 
2.43.0


From 09f1f67c3e372d5144ab8b95ae7213a684b22891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:25 +0000
Subject: [PATCH 04/31] fix: detect block scalar indentation from the first
 non-empty line

---
 src/yaml/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index 08a05b4..cb97d97 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -554,7 +554,12 @@ fn count_whitespace_bytes_at_start(input: &str) -> usize {
 }
 
 fn clean_multiline_strings(indent: Option<usize>, lines: Vec<String>) -> Vec<String> {
-    let indent = indent.unwrap_or_else(|| count_whitespace_bytes_at_start(&lines[0]));
+    let indent = indent.unwrap_or_else(|| {
+        lines
+            .iter()
+            .find(|line| !line.is_empty())
+            .map_or(0, |line| count_whitespace_bytes_at_start(line))
+    });
 
     lines
         .into_iter()
-- 
2.43.0


From a6dea595d3a574552ebab2ff4cbdd40654fe7bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:09 +0000
Subject: [PATCH 05/31] fix: trim indentation of plain scalars on their own
 line

---
 src/yaml/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index cb97d97..0d7919a 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -100,7 +100,7 @@ impl YamlParser {
 
     fn unquoted_string(input: Node) -> InternalYamlResult<Yaml> {
         Ok(Yaml::UnquotedString(
-            input.as_str().to_string().trim_end_matches(" ").to_string(),
+            input.as_str().to_string().trim_matches(' ').to_string(),
         ))
     }
 
-- 
2.43.0


From 91060a5fba550104e731c07604e80d08dbcfaae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 06/31] fix: follow aliases of aliases and reject cyclic ones
 when deserializing

---
 src/yaml/deserializer.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/yaml/deserializer.rs b/src/yaml/deserializer.rs
index 049b962..df0d6d2 100644
--- a/src/yaml/deserializer.rs
+++ b/src/yaml/deserializer.rs
@@ -93,13 +93,16 @@ fn seq_values(anchors: &Anchors, elements: Vec<ArrayData>) -> Vec<Yaml> {
 }
 
 fn into_resolved(yaml: Yaml, anchors: Anchors) -> Result<(Yaml, Anchors), YamlDeserializeError> {
-    match yaml {
-        Yaml::Anchor(ref name) => {
-            let resolved = resolve(&anchors, name)?;
-            Ok((resolved, anchors))
+    let mut seen: Vec<String> = Vec::new();
+    let mut yaml = yaml;
+    while let Yaml::Anchor(name) = yaml {
+        if seen.contains(&name) {
+            return Err(YamlDeserializeError(format!("cyclic anchor: {name}")));
         }
-        other => Ok((other, anchors)),
+        yaml = resolve(&anchors, &name)?;
+        seen.push(name);
     }
+    Ok((yaml, anchors))
 }
 
 // ─── Main Deserializer ───────────────────────────────────────────────────────
@@ -193,8 +196,8 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
                 visitor.visit_map(VecMapAccess::new(entries, anchors))
             }
             Yaml::InlineHash(data) => visitor.visit_map(VecMapAccess::new(data, anchors)),
-            Yaml::Anchor(name) => {
-                let resolved = resolve(&anchors, &name)?;
+            alias @ Yaml::Anchor(_) => {
+                let (resolved, anchors) = into_resolved(alias, anchors)?;
                 YamlDeserializer::with(resolved, anchors).deserialize_any(visitor)
             }
         }
-- 
2.43.0


From 1c5957824b7ad511ec39cb94f47cd3267b15f49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 07/31] fix: make anchors inside ignored values available to
 later aliases

---
 src/yaml/deserializer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/yaml/deserializer.rs b/src/yaml/deserializer.rs
index df0d6d2..d91d63f 100644
--- a/src/yaml/deserializer.rs
+++ b/src/yaml/deserializer.rs
@@ -4,7 +4,7 @@ use serde::Deserialize;
 use super::string::{
     parse_double_quoted_string, parse_folded, parse_literal, parse_single_quoted_string,
 };
-use super::{AliasedYaml, ArrayData, HashData, Yaml};
+use super::{AliasedYaml, ArrayData, HashData, VisitYaml, Yaml};
 use std::cell::RefCell;
 use std::collections::HashMap;
 use std::rc::Rc;
@@ -114,7 +114,10 @@ pub struct YamlDeserializer {
 
 impl YamlDeserializer {
     pub fn new(yaml: Yaml) -> Self {
-        Self { yaml, anchors: Rc::new(RefCell::new(HashMap::new())) }
+        let anchors = Rc::new(RefCell::new(HashMap::new()));
+        // Also anchors inside values that end up being ignored can be referenced.
+        yaml.visit_yaml(&mut |aliased| register(&anchors, aliased));
+        Self { yaml, anchors }
     }
 
     fn with(yaml: Yaml, anchors: Anchors) -> Self {
-- 
2.43.0


From 537626e45716aeb95404b8fe30d3be1e4108c3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:52 +0000
Subject: [PATCH 08/31] fix: quote strings that would not be read back as the
 same plain scalar

---
 src/yaml/mod.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 9c27b94..b6decd4 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -569,8 +569,9 @@ impl<T: Pretty> Pretty for Vec<T> {
 
 // Returns true when a string can be written as a plain (unquoted) YAML scalar in block context.
 // Rules based on yaml_subset's grammar:
-//   - start disallowed: [ ] { } " ' # > | newline
-//   - anywhere disallowed: ": " (colon-space), # , newlines
+//   - start disallowed: [ ] { } " ' # > | & * "- " newline
+//   - anywhere disallowed: ": " (colon-space), # , newlines, whitespace other than spaces
+//   - end disallowed: : (colon)
 // Also rejects strings that serde's untagged-enum Content mechanism misinterprets:
 // untagged enum deserialization calls deserialize_any to collect into Content, and
 // deserialize_any maps UnquotedString("2") → visit_i64(2) → Content::I64(2).
@@ -583,14 +584,22 @@ fn can_be_unquoted_in_block(s: &str) -> bool {
         return false;
     }
     match s.chars().next().unwrap() {
-        '[' | ']' | '{' | '}' | '"' | '\'' | '#' | '>' | '|' => return false,
+        '[' | ']' | '{' | '}' | '"' | '\'' | '#' | '>' | '|' | '&' | '*' => return false,
         _ => {}
     }
+    // Would be read as a block array element or as a hash key
+    if s == "-" || s.starts_with("- ") || s.ends_with(':') {
+        return false;
+    }
     if s.contains(": ") || s.contains('#') || s.contains('\n') || s.contains('\r') {
         return false;
     }
+    // Other whitespace is not kept (or understood as a separator) around plain scalars
+    if s.chars().any(|c| c.is_whitespace() && c != ' ') {
+        return false;
+    }
     !s.parse::<i64>().is_ok() && !s.parse::<f64>().is_ok()
-        && !matches!(s, "true" | "false" | "null" | "~")
+        && !matches!(s, "true" | "false" | "null" | "Null" | "NULL" | "~")
 }
 
 fn inline_breaking_chars(s: &str) -> bool {
-- 
2.43.0


From 150d55022bc7278997b3c833e746996b9e91c37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:58 +0000
Subject: [PATCH 09/31] fix: do not inline block arrays with plain scalars that
 need quotes in flow context

---
 src/yaml/mod.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index b6decd4..9cfb438 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -551,14 +551,16 @@ impl VisitYaml for Yaml {
 }
 
 fn is_inlineable(yaml: &Yaml) -> bool {
-    matches!(
-        yaml,
-        Yaml::UnquotedString(_)
-            | Yaml::DoubleQuotedString(_)
-            | Yaml::SingleQuotedString(_)
-            | Yaml::InlineArray(_)
-            | Yaml::InlineHash(_)
-    )
+    match yaml {
+        Yaml::UnquotedString(s) => !inline_breaking_chars(s),
+        _ => matches!(
+            yaml,
+            Yaml::DoubleQuotedString(_)
+                | Yaml::SingleQuotedString(_)
+                | Yaml::InlineArray(_)
+                | Yaml::InlineHash(_)
+        ),
+    }
 }
 
 impl<T: Pretty> Pretty for Vec<T> {
-- 
2.43.0


From 4973d1c85ec181d67ab1afebe52a94e42fae8090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 10/31] fix: do not lose spaces when wrapping text that starts
 with a long word

---
 src/yaml/string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yaml/string.rs b/src/yaml/string.rs
index 398b3db..bf93eb1 100644
--- a/src/yaml/string.rs
+++ b/src/yaml/string.rs
@@ -78,7 +78,7 @@ fn split_on_length(input: String, length: usize) -> Vec<String> {
     let mut s = String::new();
     let mut first = true;
     for word in input.split(" ") {
-        if s.len() + word.len() + 1 > length {
+        if !first && s.len() + word.len() + 1 > length {
             result.push(s.clone());
             s = word.to_string();
         } else {
@@ -86,8 +86,8 @@ fn split_on_length(input: String, length: usize) -> Vec<String> {
                 s.push_str(" ");
             }
             s.push_str(word);
-            first = false;
         }
+        first = false;
     }
     if !s.is_empty() {
         result.push(s.clone());
-- 
2.43.0


From 03e8519c73ca921008cdd889bb9634cb884bee74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 11/31] fix: only turn strings into block scalars in pretty
 when that keeps their value

---
 src/yaml/mod.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 9cfb438..919b252 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -31,7 +31,7 @@ use crate::utils::indent;
 use crate::yaml::insert::Additive;
 use crate::yaml::string::parse_double_quoted_string;
 use crate::yaml::string::parse_single_quoted_string;
-use crate::yaml::string::{create_folded, create_literal};
+use crate::yaml::string::{create_folded, create_literal, parse_folded};
 use crate::yaml::string::SingleQuotedStringEscapedChar;
 use crate::YamlPath;
 use std::fmt::Write;
@@ -610,6 +610,26 @@ fn inline_breaking_chars(s: &str) -> bool {
         || s.contains('>') || s.contains('|')
 }
 
+// Returns true when a block scalar (literal or folded) keeps this text:
+// carriage returns would be read as line breaks and whitespace at the start as indentation.
+fn can_be_block_scalar(s: &str) -> bool {
+    !s.is_empty() && !s.starts_with(char::is_whitespace) && !s.contains('\r')
+}
+
+// Returns a folded string when folding does not change the text.
+fn fold(s: String, max_line_length: usize) -> Option<Yaml> {
+    if !can_be_block_scalar(&s) {
+        return None;
+    }
+    let chomping = if s.ends_with('\n') { BlockChomping::Keep } else { BlockChomping::Strip };
+    let lines = create_folded(s.clone(), max_line_length);
+    if parse_folded(lines.iter().map(|line| &line[..]).collect(), chomping) == s {
+        Some(Yaml::FoldedString(lines, chomping))
+    } else {
+        None
+    }
+}
+
 fn str_to_single_quoted_parts(s: &str) -> Vec<SingleQuotedStringPart> {
     let mut parts: Vec<SingleQuotedStringPart> = Vec::new();
     let mut buf = String::new();
@@ -714,10 +734,10 @@ impl Pretty for Yaml {
                 let s = parse_double_quoted_string(&parts);
                 let total_length = s.len();
                 let chomping = if s.ends_with('\n') { BlockChomping::Keep } else { BlockChomping::Strip };
-                if contains_escape {
+                if contains_escape && can_be_block_scalar(&s) {
                     Yaml::LiteralString(create_literal(s), chomping)
                 } else if total_length > max_line_length {
-                    Yaml::FoldedString(create_folded(s, max_line_length), chomping)
+                    fold(s, max_line_length).unwrap_or(Yaml::DoubleQuotedString(parts))
                 } else {
                     Yaml::DoubleQuotedString(parts)
                 }
@@ -729,7 +749,7 @@ impl Pretty for Yaml {
                 let s = parse_single_quoted_string(&parts);
                 let total_length = s.len();
                 let chomping = if s.ends_with('\n') { BlockChomping::Keep } else { BlockChomping::Strip };
-                if contains_newline {
+                if contains_newline && !in_inline && can_be_block_scalar(&s) {
                     return Yaml::LiteralString(create_literal(s), chomping);
                 }
                 if !in_inline && can_be_unquoted_in_block(&s) && !inline_breaking_chars(&s) && total_length <= max_line_length {
@@ -739,7 +759,7 @@ impl Pretty for Yaml {
                     return Yaml::SingleQuotedString(parts);
                 }
                 if total_length > max_line_length {
-                    Yaml::FoldedString(create_folded(s, max_line_length), chomping)
+                    fold(s, max_line_length).unwrap_or(Yaml::SingleQuotedString(parts))
                 } else {
                     Yaml::SingleQuotedString(parts)
                 }
-- 
2.43.0


From c3fa0e46ec74b77d1ee24297f57a96c34f56f672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 12/31] fix: descend into the elements of flow arrays when
 following a path

---
 src/yaml/mod.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 919b252..73a583e 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -160,14 +160,19 @@ impl YamlInsert for Yaml {
                     _ => A::zero(),
                 }
             }
-            YamlPath::Indexes(indexes, conditions, _) => match self {
+            YamlPath::Indexes(indexes, conditions, other_path_opt) => match self {
                 Yaml::InlineArray(elements) => {
+                    let root = YamlPath::Root(Vec::new());
+                    let element_path = match other_path_opt {
+                        Some(other_path) => &**other_path,
+                        None => &root,
+                    };
                     let mut count = A::zero();
                     for index in indexes.iter() {
                         let element_opt = elements.get_mut(*index);
                         if let Some(element) = element_opt {
                             if element.fits_conditions(conditions) {
-                                count = count + element.for_hash(path, f, r)
+                                count = count + element.for_hash(element_path, f, r)
                             }
                         }
                     }
@@ -192,12 +197,17 @@ impl YamlInsert for Yaml {
                 _ => A::zero(),
             },
             //YamlPath::AllIndexes(Some(other_path)) => match self {
-            YamlPath::AllIndexes(conditions, _) => match self {
+            YamlPath::AllIndexes(conditions, other_path_opt) => match self {
                 Yaml::InlineArray(elements) => {
+                    let root = YamlPath::Root(Vec::new());
+                    let element_path = match other_path_opt {
+                        Some(other_path) => &**other_path,
+                        None => &root,
+                    };
                     let mut count = A::zero();
                     for element in elements.iter_mut() {
                         if element.fits_conditions(conditions) {
-                            count = count + element.for_hash(path, f, r)
+                            count = count + element.for_hash(element_path, f, r)
                         }
                     }
                     count
-- 
2.43.0


From c532b972dac4240d39c0b7a2969ed55e6d0368fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 13/31] fix: do not lose fields in move_to_subfield

---
 src/yaml/insert.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/yaml/insert.rs b/src/yaml/insert.rs
index b1d48c0..9cd685f 100644
--- a/src/yaml/insert.rs
+++ b/src/yaml/insert.rs
@@ -30,6 +30,11 @@ impl<T> Additive for MyVec<T> {
     }
 }
 
+/// Path to the field with exactly this name
+fn key_path(key: &String) -> YamlPath {
+    YamlPath::Key(key.clone(), Vec::new(), None)
+}
+
 pub trait YamlInsert {
     fn for_hash<F, R, A: Additive>(&mut self, path: &YamlPath, f: &F, r: &R) -> A
     where
@@ -140,13 +145,17 @@ pub trait YamlInsert {
             Yaml::Hash(_data) => {
                 let fields: Vec<_> = fields_to_move
                     .iter()
+                    .filter(|key| **key != subfield)
                     .filter_map(|key| hash.key_value_owned(key).map(|val| (key, val)))
                     .collect();
                 if !fields.is_empty() {
                     let subfield_value_opt = hash.key_value_mut(&subfield);
                     let res = if let Some(subfield_value) = subfield_value_opt {
+                        if !matches!(subfield_value.value, Yaml::Hash(_)) {
+                            return 0; // no place to move the fields to
+                        }
                         for (key, value) in fields.iter() {
-                            let path = key.parse().unwrap();
+                            let path = key_path(key);
                             subfield_value.insert_into_hash(&path, &value, true);
                         }
                         1
@@ -164,11 +173,11 @@ pub trait YamlInsert {
                                 .collect(),
                         );
                         let new = AliasedYaml { alias: None, value };
-                        hash.insert_into_hash(&subfield.parse().unwrap(), &new, false);
+                        hash.insert_into_hash(&key_path(&subfield), &new, false);
                         1
                     };
                     for (key, _) in fields {
-                        hash.remove_from_hash(&key.parse().unwrap());
+                        hash.remove_from_hash(&key_path(key));
                     }
                     res
                 } else {
-- 
2.43.0


From b35cdee277dd06180034acd3f257043a99769e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:25 +0000
Subject: [PATCH 14/31] fix: do not lose elements in
 move_to_map_with_field_as_key

---
 src/yaml/insert.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/yaml/insert.rs b/src/yaml/insert.rs
index 9cd685f..3dffc90 100644
--- a/src/yaml/insert.rs
+++ b/src/yaml/insert.rs
@@ -203,6 +203,9 @@ pub trait YamlInsert {
     ) -> usize {
         let r = |hash: &mut Yaml| match hash {
             Yaml::Hash(_data) => {
+                if hash.key_index(&new_map_name).is_some() {
+                    return 0; // the new map would not be inserted
+                }
                 if let Some(result) = hash.key_value_owned(&old_map_name) {
                     if let Yaml::Hash(hash_data) = result.value {
                         let mut new_hashes: BTreeMap<String, Vec<HashData>> = BTreeMap::new();
@@ -218,14 +221,14 @@ pub trait YamlInsert {
                                         if let Some(s) = key.as_string() {
                                             if keeps.contains(&s) || s.is_empty() {
                                                 hash_data
-                                                    .remove_from_hash(&selector.parse().unwrap());
+                                                    .remove_from_hash(&key_path(&selector));
                                                 old_hashes.extend(comments.clone());
                                                 comments.clear();
                                                 old_hashes.push(hash_data);
                                                 last_added_to = None
                                             } else {
                                                 let mut value = hash_element.value.clone();
-                                                value.remove_from_hash(&selector.parse().unwrap());
+                                                value.remove_from_hash(&key_path(&selector));
 
                                                 let new_hash_element =
                                                     HashData::Element(HashElement {
@@ -287,12 +290,12 @@ pub trait YamlInsert {
                                         .collect(),
                                 ),
                             };
-                            hash.insert_into_hash(&new_map_name.parse().unwrap(), &new, false);
+                            hash.insert_into_hash(&key_path(&new_map_name), &new, false);
                             let old = AliasedYaml {
                                 alias: result.alias.clone(),
                                 value: Yaml::Hash(old_hashes),
                             };
-                            hash.insert_into_hash(&old_map_name.parse().unwrap(), &old, true);
+                            hash.insert_into_hash(&key_path(&old_map_name), &old, true);
                             1
                         } else {
                             0
-- 
2.43.0


From e0cf07d1d59ae47d0e1a45ef7e69fbf27044f14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:05 +0000
Subject: [PATCH 15/31] fix: keep the variant name when serializing enum
 variants with data

---
 src/yaml/serializer.rs | 46 +++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/yaml/serializer.rs b/src/yaml/serializer.rs
index 8fc2c34..8f683cf 100644
--- a/src/yaml/serializer.rs
+++ b/src/yaml/serializer.rs
@@ -32,6 +32,14 @@ fn aliased(value: Yaml) -> AliasedYaml {
     AliasedYaml { alias: None, value }
 }
 
+// Externally tagged enum variant: single-key map with the variant name as key
+fn tagged(variant: &str, value: Yaml) -> Yaml {
+    Yaml::Hash(vec![HashData::Element(HashElement {
+        key: variant.to_string(),
+        value: aliased(value),
+    })])
+}
+
 // Returns true when a string cannot be written as a plain (unquoted) YAML scalar.
 // Also quotes strings that are unsafe in inline (flow) context, since the serializer
 // has no context. pretty() will de-quote back to unquoted in block context when safe.
@@ -165,10 +173,10 @@ impl ser::Serializer for YamlSerializer {
     type SerializeSeq = SeqSerializer;
     type SerializeTuple = TupleSerializer;
     type SerializeTupleStruct = TupleSerializer;
-    type SerializeTupleVariant = TupleSerializer;
+    type SerializeTupleVariant = VariantSerializer<TupleSerializer>;
     type SerializeMap = MapSerializer;
     type SerializeStruct = MapSerializer;
-    type SerializeStructVariant = MapSerializer;
+    type SerializeStructVariant = VariantSerializer<MapSerializer>;
 
     fn serialize_bool(self, v: bool) -> Result<Yaml, Self::Error> {
         Ok(Yaml::UnquotedString(
@@ -255,10 +263,10 @@ impl ser::Serializer for YamlSerializer {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         value: &T,
     ) -> Result<Yaml, Self::Error> {
-        value.serialize(self)
+        Ok(tagged(variant, value.serialize(self)?))
     }
     fn serialize_seq(self, _len: Option<usize>) -> Result<SeqSerializer, Self::Error> {
         Ok(SeqSerializer {
@@ -281,10 +289,10 @@ impl ser::Serializer for YamlSerializer {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         len: usize,
-    ) -> Result<TupleSerializer, Self::Error> {
-        self.serialize_tuple(len)
+    ) -> Result<VariantSerializer<TupleSerializer>, Self::Error> {
+        Ok(VariantSerializer { variant, inner: self.serialize_tuple(len)? })
     }
     fn serialize_map(self, _len: Option<usize>) -> Result<MapSerializer, Self::Error> {
         Ok(MapSerializer {
@@ -303,10 +311,10 @@ impl ser::Serializer for YamlSerializer {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         len: usize,
-    ) -> Result<MapSerializer, Self::Error> {
-        self.serialize_map(Some(len))
+    ) -> Result<VariantSerializer<MapSerializer>, Self::Error> {
+        Ok(VariantSerializer { variant, inner: self.serialize_map(Some(len))? })
     }
 }
 
@@ -374,16 +382,22 @@ impl ser::SerializeTupleStruct for TupleSerializer {
     }
 }
 
-impl ser::SerializeTupleVariant for TupleSerializer {
+// Serializes the content of a tuple or struct variant and tags it with the variant name.
+pub struct VariantSerializer<S> {
+    variant: &'static str,
+    inner: S,
+}
+
+impl ser::SerializeTupleVariant for VariantSerializer<TupleSerializer> {
     type Ok = Yaml;
     type Error = YamlSerializeError;
 
     fn serialize_field<T: Serialize + ?Sized>(&mut self, value: &T) -> Result<(), Self::Error> {
-        ser::SerializeTuple::serialize_element(self, value)
+        ser::SerializeTuple::serialize_element(&mut self.inner, value)
     }
 
     fn end(self) -> Result<Yaml, Self::Error> {
-        ser::SerializeTuple::end(self)
+        Ok(tagged(self.variant, ser::SerializeTuple::end(self.inner)?))
     }
 }
 
@@ -447,7 +461,7 @@ impl ser::SerializeStruct for MapSerializer {
     }
 }
 
-impl ser::SerializeStructVariant for MapSerializer {
+impl ser::SerializeStructVariant for VariantSerializer<MapSerializer> {
     type Ok = Yaml;
     type Error = YamlSerializeError;
 
@@ -456,10 +470,10 @@ impl ser::SerializeStructVariant for MapSerializer {
         key: &'static str,
         value: &T,
     ) -> Result<(), Self::Error> {
-        ser::SerializeStruct::serialize_field(self, key, value)
+        ser::SerializeStruct::serialize_field(&mut self.inner, key, value)
     }
 
     fn end(self) -> Result<Yaml, Self::Error> {
-        ser::SerializeMap::end(self)
+        Ok(tagged(self.variant, ser::SerializeMap::end(self.inner)?))
     }
 }
-- 
2.43.0


From b2aac920c3fe970c925afe44de687862379586b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:20 +0000
Subject: [PATCH 16/31] fix: end block scalars at the indentation of their
 first line

A block scalar as first field of a mapping in a sequence used to swallow
the fields after it.
---
 src/yaml.pest      |  7 +++++--
 src/yaml/parser.rs | 46 +++++++++++++++++++++++++---------------------
 2 files changed, 30 insertions(+), 23 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index aa93289..5953866 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -45,9 +45,12 @@ block_empty_lines = @{ NEWLINE* }
 string_multiline_content_part = { NEWLINE ~ block_empty_lines ~ PEEK[-2..] ~ block_string }
 string_multiline_trailing = @{ (NEWLINE ~ &NEWLINE)* }
 string_multiline_content = { blanknl ~ block_empty_lines ~ (PEEK ~ PUSH(" ") ~ block_string) ~ string_multiline_content_part* ~ string_multiline_trailing ~ DROP }
+string_multiline_detected_part = { NEWLINE ~ block_empty_lines ~ (PEEK[-2..] | (SPACE_SEPARATOR* ~ &NEWLINE)) ~ block_string }
+string_multiline_detected_content = { blanknl ~ block_empty_lines ~ (PEEK ~ PUSH(SPACE_SEPARATOR+) ~ block_string) ~ string_multiline_detected_part* ~ string_multiline_trailing ~ DROP }
 string_multiline_indent = { (NUMBER+)* } 
-string_multiline_folded = { ">" ~ string_block_chomping? ~ string_multiline_indent ~ string_multiline_content }
-string_multiline_literal = { "|" ~ string_block_chomping? ~  string_multiline_indent  ~ string_multiline_content }
+string_multiline_body = _{ (&NUMBER ~ string_multiline_indent ~ string_multiline_content) | string_multiline_detected_content }
+string_multiline_folded = { ">" ~ string_block_chomping? ~ string_multiline_body }
+string_multiline_literal = { "|" ~ string_block_chomping? ~ string_multiline_body }
 
 string_block_chomping = { "-" | "+" }
 
diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index 0d7919a..fa6490d 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -248,12 +248,9 @@ impl YamlParser {
         })
     }
 
-    fn string_multiline_indent(input: Node) -> InternalYamlResult<Option<usize>> {
-        if input.as_str().is_empty() {
-            return Ok(None);
-        }
+    fn string_multiline_indent(input: Node) -> InternalYamlResult<usize> {
         match input.as_str().parse::<usize>() {
-            Ok(given) if given > 0 => Ok(Some(given - 1)),
+            Ok(given) if given > 0 => Ok(given - 1),
             _ => Err(input.error("invalid indentation indicator")),
         }
     }
@@ -280,8 +277,28 @@ impl YamlParser {
         })
     }
 
+    fn string_multiline_detected_part(input: Node) -> InternalYamlResult<Vec<String>> {
+        match_nodes!(input.into_children();
+        [block_empty_lines(es), block_string(b)] => {
+            Ok(es.into_iter().chain(std::iter::once(b)).collect())
+        })
+    }
+
+    fn string_multiline_detected_content(input: Node) -> InternalYamlResult<Vec<String>> {
+        match_nodes!(input.into_children();
+        [block_empty_lines(es), block_string(b), string_multiline_detected_part(bs).., string_multiline_trailing(trailing)] => {
+            Ok(es.into_iter()
+                .chain(std::iter::once(b))
+                .chain(bs.into_iter().flat_map(|x| x))
+                .chain(trailing)
+                .collect())
+        })
+    }
+
     fn string_multiline_folded(input: Node) -> InternalYamlResult<Yaml> {
         match_nodes!(input.into_children();
+        [string_multiline_detected_content(cs)] => Ok(Yaml::FoldedString(cs, BlockChomping::Clip)),
+        [string_block_chomping(chomp), string_multiline_detected_content(cs)] => Ok(Yaml::FoldedString(cs, chomp)),
         [string_multiline_indent(indent), string_multiline_content(cs)] => Ok(Yaml::FoldedString(
             clean_multiline_strings(indent, cs), BlockChomping::Clip
         )),
@@ -294,6 +311,8 @@ impl YamlParser {
 
     fn string_multiline_literal(input: Node) -> InternalYamlResult<Yaml> {
         match_nodes!(input.into_children();
+        [string_multiline_detected_content(cs)] => Ok(Yaml::LiteralString(cs, BlockChomping::Clip)),
+        [string_block_chomping(chomp), string_multiline_detected_content(cs)] => Ok(Yaml::LiteralString(cs, chomp)),
         [string_multiline_indent(indent), string_multiline_content(cs)] => Ok(Yaml::LiteralString(
             clean_multiline_strings(indent, cs), BlockChomping::Clip
         )),
@@ -545,22 +564,7 @@ pub fn parse_yaml_file(input_str: &str) -> YamlResult<Document> {
     YamlParser::yaml(input).map_err(|e| e.into())
 }
 
-fn count_whitespace_bytes_at_start(input: &str) -> usize {
-    input
-        .chars()
-        .take_while(|ch| ch.is_whitespace() && *ch != '\n')
-        .map(|ch| ch.len_utf8())
-        .sum()
-}
-
-fn clean_multiline_strings(indent: Option<usize>, lines: Vec<String>) -> Vec<String> {
-    let indent = indent.unwrap_or_else(|| {
-        lines
-            .iter()
-            .find(|line| !line.is_empty())
-            .map_or(0, |line| count_whitespace_bytes_at_start(line))
-    });
-
+fn clean_multiline_strings(indent: usize, lines: Vec<String>) -> Vec<String> {
     lines
         .into_iter()
         .map(|x| {
-- 
2.43.0


From 38b8841883a2de84c882c8dc45bc7bff414957f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 17/31] fix: allow spaces around the separators of a path

---
 src/path.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/path.pest b/src/path.pest
index c63d648..a59c821 100644
--- a/src/path.pest
+++ b/src/path.pest
@@ -1,4 +1,4 @@
-WHITESPACE = { " " }
+WHITESPACE = _{ " " }
 
 key_items = _{ !("[" | "]" | "." | "|") ~ ANY }
 pure_key = { key_items+ }
-- 
2.43.0


From f69ba3ec5ad4c70d4507ec83a5dbdb83ef654a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:19 +0000
Subject: [PATCH 18/31] fix: attach lines of nested block arrays to the array
 in their column

---
 src/yaml.pest      |  14 ++++-
 src/yaml/parser.rs | 137 ++++++++++++++++++++++++++++++++++++++++++---
 2 files changed, 139 insertions(+), 12 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index 5953866..da09b94 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -65,14 +65,22 @@ first_block_array_element = { block_array_element ~ comment? }
 block_array_data = { commentnls ~ PEEK ~ block_array_element ~ comment? }
 block_array = { commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blank ~ block_array_data)* ~ DROP ~ commentnls }
 array = { inline_array | block_array }
-alternative_array = { first_block_array_element ~ blanknl ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blanknl ~ block_array_data)* ~ DROP ~ commentnls }
+
+alternative_array_dash = { "-" ~ SPACE_SEPARATOR+ ~ (alias ~ SPACE_SEPARATOR* ~ &("-" ~ SPACE_SEPARATOR))? }
+alternative_array_dashes = { alternative_array_dash+ }
+alternative_array_row = { alternative_array_dashes ~ block_array_aliased_yaml_value ~ comment? }
+alternative_array_data = { commentnls ~ PEEK ~ SPACE_SEPARATOR+ ~ alternative_array_row }
+alternative_array = { alternative_array_row ~ SPACE_SEPARATOR* ~ (blanknl ~ alternative_array_data)* ~ commentnls }
 
 block_array_aliased_yaml_value = { alternative_aliased_yaml_value | aliased_yaml_value }
-alternative_aliased_yaml_value = { (alias ~ spaces)? ~  (alternative_hash | alternative_array) }
+own_line_aliased_yaml_value = { alternative_aliased_yaml_hash | aliased_yaml_value }
+alternative_aliased_yaml_value = { alternative_aliased_yaml_hash | alternative_aliased_yaml_array }
+alternative_aliased_yaml_hash = { (alias ~ spaces)? ~ alternative_hash }
+alternative_aliased_yaml_array = { (alias ~ SPACE_SEPARATOR*)? ~ alternative_array }
 
 yaml_value= { hash | array | string_multiline_literal | string_multiline_folded | inline_value }
 aliased_yaml_value = { (alias ~ SPACE_SEPARATOR*)? ~ yaml_value }
-hash_element = { hash_key ~ ":" ~ (SPACE_SEPARATOR+ | blanknl) ~ block_array_aliased_yaml_value}
+hash_element = { hash_key ~ ":" ~ ((SPACE_SEPARATOR+ ~ block_array_aliased_yaml_value) | (&NEWLINE ~ blanknl ~ own_line_aliased_yaml_value)) }
 first_hash_element = { hash_element ~ comment? }
 hash_element_data = { blanknl ~ commentnls ~ PEEK ~ hash_element ~ comment? }
 hash = { NEWLINE? ~ commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_hash_element  ~ (hash_element_data)* ~ DROP ~ commentnls }
diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index fa6490d..2eb5cdf 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -36,6 +36,12 @@ impl YamlError {
 pub type YamlResult<T> = std::result::Result<T, YamlError>;
 type InternalYamlResult<T> = std::result::Result<T, Error<Rule>>;
 pub type DocumentResult = YamlResult<Document>;
+/// The column of the dash of an array element and the alias of the array that follows it
+type ArrayDash = (usize, Option<String>);
+/// The dashes at the start of a line and the data of the array opened by the last of them
+type ArrayRow = (Vec<ArrayDash>, Vec<ArrayData>);
+/// The column of its dashes, its alias and the data of an array that can still be continued
+type OpenArray = (usize, Option<String>, Vec<ArrayData>);
 type Node<'i> = pest_consume::Node<'i, Rule, ()>;
 
 #[derive(Parser)]
@@ -348,7 +354,19 @@ impl YamlParser {
             [aliased_yaml_value(value)] => Ok(value))
     }
 
+    fn own_line_aliased_yaml_value(input: Node) -> InternalYamlResult<AliasedYaml> {
+        match_nodes!(input.into_children();
+            [alternative_aliased_yaml_hash(value)] => Ok(value),
+            [aliased_yaml_value(value)] => Ok(value))
+    }
+
     fn alternative_aliased_yaml_value(input: Node) -> InternalYamlResult<AliasedYaml> {
+        match_nodes!(input.into_children();
+            [alternative_aliased_yaml_hash(value)] => Ok(value),
+            [alternative_aliased_yaml_array(value)] => Ok(value))
+    }
+
+    fn alternative_aliased_yaml_hash(input: Node) -> InternalYamlResult<AliasedYaml> {
         match_nodes!(input.into_children();
         [alias(alias), alternative_hash(val)] => Ok(AliasedYaml {
             alias: Some(alias),
@@ -357,7 +375,11 @@ impl YamlParser {
         [alternative_hash(val)] => Ok(AliasedYaml {
             alias: None,
             value: val,
-        }),
+        }))
+    }
+
+    fn alternative_aliased_yaml_array(input: Node) -> InternalYamlResult<AliasedYaml> {
+        match_nodes!(input.into_children();
         [alias(alias), alternative_array(val)] => Ok(AliasedYaml {
             alias: Some(alias),
             value: val,
@@ -376,6 +398,7 @@ impl YamlParser {
         //println!("{:#?}", input);
         match_nodes!(input.into_children();
                 [hash_key(key), block_array_aliased_yaml_value(value)] => Ok(HashElement { key, value }),
+                [hash_key(key), own_line_aliased_yaml_value(value)] => Ok(HashElement { key, value }),
         )
     }
 
@@ -500,16 +523,44 @@ impl YamlParser {
         ))
     }
 
+    fn alternative_array_dash(input: Node) -> InternalYamlResult<ArrayDash> {
+        let span = input.as_span();
+        let column = span.get_input()[..span.start()]
+            .chars()
+            .rev()
+            .take_while(|c| *c != '\n')
+            .count();
+        match_nodes!(input.into_children();
+            [alias(alias)] => Ok((column, Some(alias))),
+            [] => Ok((column, None)))
+    }
+
+    fn alternative_array_dashes(input: Node) -> InternalYamlResult<Vec<ArrayDash>> {
+        match_nodes!(input.into_children();
+            [alternative_array_dash(dashes)..] => Ok(dashes.collect()))
+    }
+
+    fn alternative_array_row(input: Node) -> InternalYamlResult<ArrayRow> {
+        match_nodes!(input.into_children();
+            [alternative_array_dashes(dashes), block_array_aliased_yaml_value(value), comment(c)] => Ok((
+                dashes,
+                vec![ArrayData::Element(value), ArrayData::InlineComment(c)]
+            )),
+            [alternative_array_dashes(dashes), block_array_aliased_yaml_value(value)] => Ok((
+                dashes,
+                vec![ArrayData::Element(value)]
+            )))
+    }
+
+    fn alternative_array_data(input: Node) -> InternalYamlResult<(Vec<String>, ArrayRow)> {
+        match_nodes!(input.into_children();
+            [commentnls(cs), alternative_array_row(row)] => Ok((cs, row)))
+    }
+
     fn alternative_array(input: Node) -> InternalYamlResult<Yaml> {
         match_nodes!(input.into_children();
-        [first_block_array_element(element1),first_block_array_element(element2), block_array_data(elements).., commentnls(cs)] => Ok(
-            Yaml::Array(
-                element1.into_iter()
-                .chain(element2.into_iter())
-                .chain(elements.into_iter().flatten())
-                .chain(cs.into_iter().map(|c| ArrayData::Comment(c)))
-                .collect()
-            )
+        [alternative_array_row(row), alternative_array_data(rows).., commentnls(cs)] => Ok(
+            nest_array_rows(row, rows.collect(), cs)
         ))
     }
 
@@ -564,6 +615,74 @@ pub fn parse_yaml_file(input_str: &str) -> YamlResult<Document> {
     YamlParser::yaml(input).map_err(|e| e.into())
 }
 
+/// Builds the (nested) array out of its lines: a line continues the array whose dashes are in
+/// the column of its first dash and its other dashes open arrays inside that one.
+fn nest_array_rows(
+    first: ArrayRow,
+    rows: Vec<(Vec<String>, ArrayRow)>,
+    trailing_comments: Vec<String>,
+) -> Yaml {
+    let mut open = Vec::new();
+    open_arrays(&mut open, None, first.0.into_iter());
+    append_to_innermost(&mut open, first.1);
+    for (comments, (dashes, data)) in rows {
+        let mut dashes = dashes.into_iter();
+        let (column, alias) = dashes.next().unwrap_or((0, None));
+        if open.iter().any(|(c, _, _)| *c == column) {
+            while open.last().map_or(false, |(c, _, _)| *c != column) {
+                close_innermost(&mut open);
+            }
+        }
+        append_to_innermost(
+            &mut open,
+            comments.into_iter().map(ArrayData::Comment).collect(),
+        );
+        open_arrays(&mut open, alias, dashes);
+        append_to_innermost(&mut open, data);
+    }
+    append_to_innermost(
+        &mut open,
+        trailing_comments
+            .into_iter()
+            .map(ArrayData::Comment)
+            .collect(),
+    );
+    while open.len() > 1 {
+        close_innermost(&mut open);
+    }
+    Yaml::Array(open.pop().map_or(Vec::new(), |(_, _, data)| data))
+}
+
+fn open_arrays(
+    open: &mut Vec<OpenArray>,
+    mut alias: Option<String>,
+    dashes: impl Iterator<Item = ArrayDash>,
+) {
+    for (column, next_alias) in dashes {
+        open.push((column, alias, Vec::new()));
+        alias = next_alias;
+    }
+}
+
+fn append_to_innermost(
+    open: &mut Vec<OpenArray>,
+    data: Vec<ArrayData>,
+) {
+    if let Some((_, _, innermost)) = open.last_mut() {
+        innermost.extend(data);
+    }
+}
+
+fn close_innermost(open: &mut Vec<OpenArray>) {
+    if let Some((_, alias, data)) = open.pop() {
+        let value = Yaml::Array(data);
+        append_to_innermost(
+            open,
+            vec![ArrayData::Element(AliasedYaml { alias, value })],
+        );
+    }
+}
+
 fn clean_multiline_strings(indent: usize, lines: Vec<String>) -> Vec<String> {
     lines
         .into_iter()
-- 
2.43.0


From b2c07be061cd1dfa22b4895184f5a8fd17577962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 19/31] fix: reject aliases inside the value of their own
 anchor when deserializing

---
 src/yaml/deserializer.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/yaml/deserializer.rs b/src/yaml/deserializer.rs
index d91d63f..d751171 100644
--- a/src/yaml/deserializer.rs
+++ b/src/yaml/deserializer.rs
@@ -51,16 +51,22 @@ fn yaml_to_string(yaml: &Yaml) -> Option<String> {
     }
 }
 
-type Anchors = Rc<RefCell<HashMap<String, Yaml>>>;
+#[derive(Clone)]
+struct Anchors {
+    values: Rc<RefCell<HashMap<String, Yaml>>>,
+    /// Names of the anchors whose value is being deserialized
+    resolving: Vec<String>,
+}
 
 fn register(anchors: &Anchors, aliased: &AliasedYaml) {
     if let Some(name) = &aliased.alias {
-        anchors.borrow_mut().insert(name.clone(), aliased.value.clone());
+        anchors.values.borrow_mut().insert(name.clone(), aliased.value.clone());
     }
 }
 
 fn resolve(anchors: &Anchors, name: &str) -> Result<Yaml, YamlDeserializeError> {
     anchors
+        .values
         .borrow()
         .get(name)
         .cloned()
@@ -93,14 +99,14 @@ fn seq_values(anchors: &Anchors, elements: Vec<ArrayData>) -> Vec<Yaml> {
 }
 
 fn into_resolved(yaml: Yaml, anchors: Anchors) -> Result<(Yaml, Anchors), YamlDeserializeError> {
-    let mut seen: Vec<String> = Vec::new();
+    let mut anchors = anchors;
     let mut yaml = yaml;
     while let Yaml::Anchor(name) = yaml {
-        if seen.contains(&name) {
+        if anchors.resolving.contains(&name) {
             return Err(YamlDeserializeError(format!("cyclic anchor: {name}")));
         }
         yaml = resolve(&anchors, &name)?;
-        seen.push(name);
+        anchors.resolving.push(name);
     }
     Ok((yaml, anchors))
 }
@@ -114,7 +120,10 @@ pub struct YamlDeserializer {
 
 impl YamlDeserializer {
     pub fn new(yaml: Yaml) -> Self {
-        let anchors = Rc::new(RefCell::new(HashMap::new()));
+        let anchors = Anchors {
+            values: Rc::new(RefCell::new(HashMap::new())),
+            resolving: Vec::new(),
+        };
         // Also anchors inside values that end up being ignored can be referenced.
         yaml.visit_yaml(&mut |aliased| register(&anchors, aliased));
         Self { yaml, anchors }
@@ -455,7 +464,7 @@ impl<'de> SeqAccess<'de> for VecSeqAccess {
         seed: T,
     ) -> Result<Option<T::Value>, Self::Error> {
         match self.iter.next() {
-            Some(yaml) => seed.deserialize(YamlDeserializer::with(yaml, Rc::clone(&self.anchors))).map(Some),
+            Some(yaml) => seed.deserialize(YamlDeserializer::with(yaml, self.anchors.clone())).map(Some),
             None => Ok(None),
         }
     }
@@ -489,7 +498,7 @@ impl<'de> MapAccess<'de> for VecMapAccess {
         match self.iter.next() {
             Some((k, v)) => {
                 self.pending_value = Some(v);
-                seed.deserialize(YamlDeserializer::with(Yaml::UnquotedString(k), Rc::clone(&self.anchors)))
+                seed.deserialize(YamlDeserializer::with(Yaml::UnquotedString(k), self.anchors.clone()))
                     .map(Some)
             }
             None => Ok(None),
@@ -504,7 +513,7 @@ impl<'de> MapAccess<'de> for VecMapAccess {
             .pending_value
             .take()
             .expect("next_value_seed called without next_key_seed");
-        seed.deserialize(YamlDeserializer::with(v, Rc::clone(&self.anchors)))
+        seed.deserialize(YamlDeserializer::with(v, self.anchors.clone()))
     }
 }
 
@@ -526,7 +535,7 @@ impl<'de> EnumAccess<'de> for StrEnumAccess {
     ) -> Result<(V::Value, YamlDeserializer), Self::Error> {
         let variant = seed.deserialize(YamlDeserializer::with(
             Yaml::UnquotedString(self.variant),
-            Rc::clone(&self.anchors),
+            self.anchors.clone(),
         ))?;
         Ok((variant, YamlDeserializer::with(self.value, self.anchors)))
     }
-- 
2.43.0


From 143a610fcb1124ff38825fd2fc7bd983c92a5c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:23 +0000
Subject: [PATCH 20/31] fix: move_to_subfield takes a field named twice only
 once

---
 src/yaml/insert.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/yaml/insert.rs b/src/yaml/insert.rs
index 3dffc90..b2d755d 100644
--- a/src/yaml/insert.rs
+++ b/src/yaml/insert.rs
@@ -143,11 +143,15 @@ pub trait YamlInsert {
     ) -> usize {
         let r = |hash: &mut Yaml| match hash {
             Yaml::Hash(_data) => {
-                let fields: Vec<_> = fields_to_move
-                    .iter()
-                    .filter(|key| **key != subfield)
-                    .filter_map(|key| hash.key_value_owned(key).map(|val| (key, val)))
-                    .collect();
+                let mut fields: Vec<(&String, AliasedYaml)> = Vec::new();
+                for key in fields_to_move.iter() {
+                    if *key == subfield || fields.iter().any(|(k, _)| k == &key) {
+                        continue;
+                    }
+                    if let Some(val) = hash.key_value_owned(key) {
+                        fields.push((key, val));
+                    }
+                }
                 if !fields.is_empty() {
                     let subfield_value_opt = hash.key_value_mut(&subfield);
                     let res = if let Some(subfield_value) = subfield_value_opt {
-- 
2.43.0


From bb3345d82658ae32d1c6786d48b5ea041ae3bb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:12 +0000
Subject: [PATCH 21/31] fix: one empty line per line break in block scalars,
 also for CRLF and CR

---
 src/yaml/parser.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index 2eb5cdf..4e3ce8c 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -240,10 +240,7 @@ impl YamlParser {
     }
 
     fn block_empty_lines(input: Node) -> InternalYamlResult<Vec<String>> {
-        Ok((0..input.as_str().len())
-            .into_iter()
-            .map(|_| "".to_string())
-            .collect())
+        Ok(empty_lines(input.as_str()))
     }
 
     fn string_block_chomping(input: Node) -> InternalYamlResult<BlockChomping> {
@@ -269,7 +266,7 @@ impl YamlParser {
     }
 
     fn string_multiline_trailing(input: Node) -> InternalYamlResult<Vec<String>> {
-        Ok(input.as_str().chars().filter(|c| *c == '\n').map(|_| String::new()).collect())
+        Ok(empty_lines(input.as_str()))
     }
 
     fn string_multiline_content(input: Node) -> InternalYamlResult<Vec<String>> {
@@ -683,6 +680,15 @@ fn close_innermost(open: &mut Vec<OpenArray>) {
     }
 }
 
+/// An empty line for each of the line breaks
+fn empty_lines(line_breaks: &str) -> Vec<String> {
+    line_breaks
+        .replace("\r\n", "\n")
+        .chars()
+        .map(|_| String::new())
+        .collect()
+}
+
 fn clean_multiline_strings(indent: usize, lines: Vec<String>) -> Vec<String> {
     lines
         .into_iter()
-- 
2.43.0


From 0f04e2d25e37aad0fbf562298306359b13dc77d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:06 +0000
Subject: [PATCH 22/31] fix: drop spaces behind one-character words of a path

---
 src/path.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/path.rs b/src/path.rs
index 9bb5fdf..2786682 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -12,13 +12,13 @@ impl PathParser {
         Ok(())
     }
     fn pure_key(input: Node) -> PathResult<String> {
-        Ok(input.as_str().to_string())
+        Ok(input.as_str().trim_end_matches(' ').to_string())
     }
     fn field(input: Node) -> PathResult<String> {
-        Ok(input.as_str().to_string())
+        Ok(input.as_str().trim_end_matches(' ').to_string())
     }
     fn value(input: Node) -> PathResult<String> {
-        Ok(input.as_str().to_string())
+        Ok(input.as_str().trim_end_matches(' ').to_string())
     }
     fn condition(input: Node) -> PathResult<Condition> {
         Ok(match_nodes!(input.into_children();
@@ -32,7 +32,7 @@ impl PathParser {
     }
 
     fn index_number(input: Node) -> PathResult<Vec<usize>> {
-        let index = input.as_str().parse().map_err(|e| input.error(e))?;
+        let index = input.as_str().trim_end_matches(' ').parse().map_err(|e| input.error(e))?;
         Ok(vec![index])
     }
     fn index_all(input: Node) -> PathResult<()> {
-- 
2.43.0


From aa5138b767205eb065d0d3306dc29bea321b2752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:27 +0000
Subject: [PATCH 23/31] fix: read quoted, flow and anchor values on a line of
 their own

---
 src/yaml.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index da09b94..afab90a 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -78,8 +78,8 @@ alternative_aliased_yaml_value = { alternative_aliased_yaml_hash | alternative_a
 alternative_aliased_yaml_hash = { (alias ~ spaces)? ~ alternative_hash }
 alternative_aliased_yaml_array = { (alias ~ SPACE_SEPARATOR*)? ~ alternative_array }
 
-yaml_value= { hash | array | string_multiline_literal | string_multiline_folded | inline_value }
-aliased_yaml_value = { (alias ~ SPACE_SEPARATOR*)? ~ yaml_value }
+yaml_value= { hash | array | SPACE_SEPARATOR* ~ (string_multiline_literal | string_multiline_folded | inline_value) }
+aliased_yaml_value = { (SPACE_SEPARATOR* ~ alias ~ SPACE_SEPARATOR*)? ~ yaml_value }
 hash_element = { hash_key ~ ":" ~ ((SPACE_SEPARATOR+ ~ block_array_aliased_yaml_value) | (&NEWLINE ~ blanknl ~ own_line_aliased_yaml_value)) }
 first_hash_element = { hash_element ~ comment? }
 hash_element_data = { blanknl ~ commentnls ~ PEEK ~ hash_element ~ comment? }
-- 
2.43.0


From c1f1dafdcc8becbd46d39edfd1b9a076710ea36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:57 +0000
Subject: [PATCH 24/31] fix: columns of nested sequences also with CR line
 breaks

---
 src/yaml/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index 4e3ce8c..dc036d1 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -525,7 +525,7 @@ impl YamlParser {
         let column = span.get_input()[..span.start()]
             .chars()
             .rev()
-            .take_while(|c| *c != '\n')
+            .take_while(|c| *c != '\n' && *c != '\r')
             .count();
         match_nodes!(input.into_children();
             [alias(alias)] => Ok((column, Some(alias))),
-- 
2.43.0


From 2dae14c7d552d956fc481416d855390929b53214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:32 +0000
Subject: [PATCH 25/31] fix: end an anchored mapping at its indentation when it
 starts on the next line

---
 src/yaml.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index afab90a..7eb10a0 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -75,7 +75,7 @@ alternative_array = { alternative_array_row ~ SPACE_SEPARATOR* ~ (blanknl ~ alte
 block_array_aliased_yaml_value = { alternative_aliased_yaml_value | aliased_yaml_value }
 own_line_aliased_yaml_value = { alternative_aliased_yaml_hash | aliased_yaml_value }
 alternative_aliased_yaml_value = { alternative_aliased_yaml_hash | alternative_aliased_yaml_array }
-alternative_aliased_yaml_hash = { (alias ~ spaces)? ~ alternative_hash }
+alternative_aliased_yaml_hash = { (alias ~ SPACE_SEPARATOR*)? ~ alternative_hash }
 alternative_aliased_yaml_array = { (alias ~ SPACE_SEPARATOR*)? ~ alternative_array }
 
 yaml_value= { hash | array | SPACE_SEPARATOR* ~ (string_multiline_literal | string_multiline_folded | inline_value) }
-- 
2.43.0


From 9d4f1bc3d7a59e7ae564392fdea5ce46877f31ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:53 +0000
Subject: [PATCH 26/31] fix: read f32 from its text directly instead of through
 f64

Parsing the text as f64 and narrowing rounds twice: 7.038531e-26 (bits
0x15ae43fd) was read as its neighbour.
---
 src/yaml/deserializer.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/yaml/deserializer.rs b/src/yaml/deserializer.rs
index d751171..550a41b 100644
--- a/src/yaml/deserializer.rs
+++ b/src/yaml/deserializer.rs
@@ -270,7 +270,14 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
         }
     }
     fn deserialize_f32<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
-        self.deserialize_f64(visitor)
+        let (yaml, _) = into_resolved(self.yaml, self.anchors)?;
+        if let Some(s) = yaml_to_string(&yaml) {
+            s.parse::<f32>()
+                .map_err(|e| Self::Error::custom(e))
+                .and_then(|v| visitor.visit_f32(v))
+        } else {
+            Err(Self::Error::custom("expected float"))
+        }
     }
     fn deserialize_f64<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
         let (yaml, _) = into_resolved(self.yaml, self.anchors)?;
-- 
2.43.0


From c4a20eb12be6282fda9c1b6b1b79609e4c99ca72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:03 +0000
Subject: [PATCH 27/31] fix: parse negative numbers as mapping keys

A map with i64 keys is written as text with keys like -5, which the
grammar rejected.
---
 src/yaml.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index 7eb10a0..4abe808 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -1,6 +1,6 @@
 space = _{ " " | NEWLINE }
 spaces = _{ space* }
-hash_key = { (LETTER | NUMBER | "_") ~ (LETTER | NUMBER | "_" | "-" | " " )* }
+hash_key = { (LETTER | NUMBER | "_" | "-" ~ ASCII_DIGIT) ~ (LETTER | NUMBER | "_" | "-" | " " )* }
 alias_name = { (LETTER | NUMBER | "_")+ }
 
 number = @{
-- 
2.43.0


From e7a747ad344f8dd89e4b578396cec30f91ab30d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:45 +0000
Subject: [PATCH 28/31] fix: write a comment behind a block scalar on its own
 line

Beautifying can turn a quoted string with a comment behind it into a block
scalar; the comment was written on its last line and became part of it.
---
 src/yaml/array_data.rs |  9 +++++++++
 src/yaml/hash_data.rs  |  9 +++++++++
 src/yaml/mod.rs        | 32 ++++++++++++++++++++++++++++++--
 3 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/src/yaml/array_data.rs b/src/yaml/array_data.rs
index 17d5860..7c80e34 100644
--- a/src/yaml/array_data.rs
+++ b/src/yaml/array_data.rs
@@ -12,6 +12,15 @@ pub enum ArrayData {
     Element(AliasedYaml),
 }
 
+impl ArrayData {
+    pub(crate) fn ends_with_block_scalar(&self) -> bool {
+        match self {
+            ArrayData::Element(e) => e.value.ends_with_block_scalar(),
+            _ => false,
+        }
+    }
+}
+
 impl YamlInsert for ArrayData {
     fn edit_hash_structure<F>(&mut self, path: &YamlPath, f: &F) -> usize
     where
diff --git a/src/yaml/hash_data.rs b/src/yaml/hash_data.rs
index 514307c..64c9c67 100644
--- a/src/yaml/hash_data.rs
+++ b/src/yaml/hash_data.rs
@@ -11,6 +11,15 @@ pub enum HashData {
     Element(HashElement),
 }
 
+impl HashData {
+    pub(crate) fn ends_with_block_scalar(&self) -> bool {
+        match self {
+            HashData::Element(e) => e.value.value.ends_with_block_scalar(),
+            _ => false,
+        }
+    }
+}
+
 impl YamlInsert for HashData {
     fn edit_hash_structure<F>(&mut self, path: &YamlPath, f: &F) -> usize
     where
diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 73a583e..d7cadf2 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -315,6 +315,22 @@ impl YamlInsert for Yaml {
 }
 
 impl Yaml {
+    /// The text ends with a line of a block scalar: a comment behind it would belong to the scalar
+    pub(crate) fn ends_with_block_scalar(&self) -> bool {
+        match self {
+            Yaml::LiteralString(_, _) | Yaml::FoldedString(_, _) => true,
+            Yaml::Hash(v) => match v.last() {
+                Some(last) => last.ends_with_block_scalar(),
+                None => false,
+            },
+            Yaml::Array(v) => match v.last() {
+                Some(last) => last.ends_with_block_scalar(),
+                None => false,
+            },
+            _ => false,
+        }
+    }
+
     pub fn format(
         &self,
         f: &mut String,
@@ -345,7 +361,13 @@ impl Yaml {
                         HashData::Comment(c) => {
                             write!(f, "\n{}#{}", indent(spaces), c)
                         }
-                        HashData::InlineComment(c) => write!(f, " #{}", c),
+                        HashData::InlineComment(c) => {
+                            if idx > 0 && v[idx - 1].ends_with_block_scalar() {
+                                write!(f, "\n{}#{}", indent(spaces), c)
+                            } else {
+                                write!(f, " #{}", c)
+                            }
+                        }
                         HashData::Element(v) => {
                             let element = Some(Parent::Hash);
                             let same_line = match (element, parent) {
@@ -386,7 +408,13 @@ impl Yaml {
                 for (idx, element) in v.iter().enumerate() {
                     match element {
                         ArrayData::Comment(c) => write!(f, "\n{}#{}", indent(spaces), c),
-                        ArrayData::InlineComment(c) => write!(f, " #{}", c),
+                        ArrayData::InlineComment(c) => {
+                            if idx > 0 && v[idx - 1].ends_with_block_scalar() {
+                                write!(f, "\n{}#{}", indent(spaces), c)
+                            } else {
+                                write!(f, " #{}", c)
+                            }
+                        }
                         ArrayData::Element(v) => {
                             let element = Some(Parent::Array);
                             let same_line = match (element, parent) {
-- 
2.43.0


From e4999320119baa62d1d3203716714e410e93df8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:45 +0000
Subject: [PATCH 29/31] fix: write flow collections at the top of a document on
 their own line

The text '--- [a]' does not parse, and behind a comment the collection
became part of the comment. Flow mappings are accepted as documents, too.
---
 src/yaml.pest        |  2 +-
 src/yaml/document.rs | 11 ++++++++++-
 src/yaml/parser.rs   |  3 ++-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index 4abe808..f924599 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -103,5 +103,5 @@ leading_comments = { (blanknl* ~ commentnl ~ blanknl*)* }
 blank = _{ SPACE_SEPARATOR* ~ NEWLINE ~ (SPACE_SEPARATOR* ~ NEWLINE)+ | (SPACE_SEPARATOR* ~ NEWLINE)? }
 blanknl = _{ SPACE_SEPARATOR* ~ NEWLINE ~ (SPACE_SEPARATOR* ~ NEWLINE)+ | SPACE_SEPARATOR* ~ NEWLINE }
 
-document = { hash | array }
+document = { hash | array | inline_hash }
 yaml = { SOI ~ leading_comments ~ "---" ~ blanknl ~ commentnls ~ document ~ blank ~ (comment ~ blank)* ~ spaces ~ EOI }
diff --git a/src/yaml/document.rs b/src/yaml/document.rs
index 2e6faea..6812d21 100644
--- a/src/yaml/document.rs
+++ b/src/yaml/document.rs
@@ -82,7 +82,16 @@ impl Document {
         for item in self.items.iter() {
             match item {
                 DocumentData::Comment(c) => write!(&mut s, "\n#{}", c),
-                DocumentData::Yaml(y) => y.format(&mut s, 0, None),
+                DocumentData::Yaml(y) => {
+                    let mut text = String::new();
+                    y.format(&mut text, 0, None)?;
+                    // a flow collection has to be on a line of its own
+                    if text.starts_with(" [") || text.starts_with(" {") {
+                        write!(&mut s, "\n{}", text.trim_start())
+                    } else {
+                        write!(&mut s, "{}", text)
+                    }
+                }
             }?;
         }
         Ok(s)
diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index dc036d1..488f570 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -586,7 +586,8 @@ impl YamlParser {
     fn document(input: Node) -> InternalYamlResult<Yaml> {
         match_nodes!(input.into_children();
         [hash(h)] => Ok(h),
-        [array(a)] => Ok(a))
+        [array(a)] => Ok(a),
+        [inline_hash(h)] => Ok(h))
     }
 
     fn yaml(input: Node) -> InternalYamlResult<Document> {
-- 
2.43.0


From f0cac8bf226dae5ff11d6fc115113500951b3456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:45 +0000
Subject: [PATCH 30/31] fix: only count spaces as indentation of a block scalar

A first line that starts with another space character was cut, or the
following lines were rejected.
---
 src/yaml.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index f924599..1ec173f 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -46,7 +46,7 @@ string_multiline_content_part = { NEWLINE ~ block_empty_lines ~ PEEK[-2..] ~ blo
 string_multiline_trailing = @{ (NEWLINE ~ &NEWLINE)* }
 string_multiline_content = { blanknl ~ block_empty_lines ~ (PEEK ~ PUSH(" ") ~ block_string) ~ string_multiline_content_part* ~ string_multiline_trailing ~ DROP }
 string_multiline_detected_part = { NEWLINE ~ block_empty_lines ~ (PEEK[-2..] | (SPACE_SEPARATOR* ~ &NEWLINE)) ~ block_string }
-string_multiline_detected_content = { blanknl ~ block_empty_lines ~ (PEEK ~ PUSH(SPACE_SEPARATOR+) ~ block_string) ~ string_multiline_detected_part* ~ string_multiline_trailing ~ DROP }
+string_multiline_detected_content = { blanknl ~ block_empty_lines ~ (PEEK ~ PUSH(" "+) ~ block_string) ~ string_multiline_detected_part* ~ string_multiline_trailing ~ DROP }
 string_multiline_indent = { (NUMBER+)* } 
 string_multiline_body = _{ (&NUMBER ~ string_multiline_indent ~ string_multiline_content) | string_multiline_detected_content }
 string_multiline_folded = { ">" ~ string_block_chomping? ~ string_multiline_body }
-- 
2.43.0


From e4ae1a16a622a38a54940c094eb8a96ae2cb1a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:16 +0000
Subject: [PATCH 31/31] fix: keep the empty lines at the start of a block
 scalar

They were skipped, which changes the text. The indentation indicator is
written if the first line that is not empty starts with a space.
---
 src/yaml.pest      |  7 +++++--
 src/yaml/mod.rs    | 14 ++++++++++++--
 src/yaml/parser.rs | 18 ++++++++++++++++--
 3 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index 1ec173f..43b2a22 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -42,11 +42,14 @@ inline_array_string = { unquoted_inline_string | double_quoted_string | single_q
 
 block_string = @{ (!NEWLINE ~ ANY)+ | "" }
 block_empty_lines = @{ NEWLINE* }
+block_blank_line = @{ " "* ~ NEWLINE }
+block_leading_lines = { block_blank_line* }
+block_short_lines = { (!(PEEK ~ " ") ~ block_blank_line)* }
 string_multiline_content_part = { NEWLINE ~ block_empty_lines ~ PEEK[-2..] ~ block_string }
 string_multiline_trailing = @{ (NEWLINE ~ &NEWLINE)* }
-string_multiline_content = { blanknl ~ block_empty_lines ~ (PEEK ~ PUSH(" ") ~ block_string) ~ string_multiline_content_part* ~ string_multiline_trailing ~ DROP }
+string_multiline_content = { SPACE_SEPARATOR* ~ NEWLINE ~ block_short_lines ~ (PEEK ~ PUSH(" ") ~ block_string) ~ string_multiline_content_part* ~ string_multiline_trailing ~ DROP }
 string_multiline_detected_part = { NEWLINE ~ block_empty_lines ~ (PEEK[-2..] | (SPACE_SEPARATOR* ~ &NEWLINE)) ~ block_string }
-string_multiline_detected_content = { blanknl ~ block_empty_lines ~ (PEEK ~ PUSH(" "+) ~ block_string) ~ string_multiline_detected_part* ~ string_multiline_trailing ~ DROP }
+string_multiline_detected_content = { SPACE_SEPARATOR* ~ NEWLINE ~ block_leading_lines ~ (PEEK ~ PUSH(" "+) ~ block_string) ~ string_multiline_detected_part* ~ string_multiline_trailing ~ DROP }
 string_multiline_indent = { (NUMBER+)* } 
 string_multiline_body = _{ (&NUMBER ~ string_multiline_indent ~ string_multiline_content) | string_multiline_detected_content }
 string_multiline_folded = { ">" ~ string_block_chomping? ~ string_multiline_body }
diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index d7cadf2..95d5377 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -487,7 +487,7 @@ impl Yaml {
                     if idx == 0 {
                         write!(f, " |")?;
                         chomping.write(f)?;
-                        if line.starts_with(" ") {
+                        if starts_with_space(lines) {
                             write!(f, "2")?;
                         }
                     }
@@ -500,7 +500,7 @@ impl Yaml {
                     if idx == 0 {
                         write!(f, " >")?;
                         chomping.write(f)?;
-                        if line.starts_with(" ") {
+                        if starts_with_space(lines) {
                             write!(f, "2")?;
                         }
                     }
@@ -513,6 +513,16 @@ impl Yaml {
     }
 }
 
+/// The indentation of a block scalar cannot be seen from its first line that is not empty
+fn starts_with_space(lines: &[String]) -> bool {
+    for line in lines.iter() {
+        if !line.is_empty() {
+            return line.starts_with(" ");
+        }
+    }
+    false
+}
+
 pub trait Pretty {
     fn pretty_with_options(self, in_inline: bool, child_of_array: bool) -> Self;
     fn pretty(self) -> Self
diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index 488f570..50c491f 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -243,6 +243,20 @@ impl YamlParser {
         Ok(empty_lines(input.as_str()))
     }
 
+    fn block_blank_line(_input: Node) -> InternalYamlResult<String> {
+        Ok(String::new())
+    }
+
+    fn block_leading_lines(input: Node) -> InternalYamlResult<Vec<String>> {
+        match_nodes!(input.into_children();
+        [block_blank_line(lines)..] => Ok(lines.collect()))
+    }
+
+    fn block_short_lines(input: Node) -> InternalYamlResult<Vec<String>> {
+        match_nodes!(input.into_children();
+        [block_blank_line(lines)..] => Ok(lines.collect()))
+    }
+
     fn string_block_chomping(input: Node) -> InternalYamlResult<BlockChomping> {
         Ok(match input.as_str() {
             "+" => BlockChomping::Keep,
@@ -271,7 +285,7 @@ impl YamlParser {
 
     fn string_multiline_content(input: Node) -> InternalYamlResult<Vec<String>> {
         match_nodes!(input.into_children();
-        [block_empty_lines(es), block_string(b), string_multiline_content_part(bs).., string_multiline_trailing(trailing)] => {
+        [block_short_lines(es), block_string(b), string_multiline_content_part(bs).., string_multiline_trailing(trailing)] => {
             Ok(es.into_iter()
                 .chain(std::iter::once(b))
                 .chain(bs.into_iter().flat_map(|x| x))
@@ -289,7 +303,7 @@ impl YamlParser {
 
     fn string_multiline_detected_content(input: Node) -> InternalYamlResult<Vec<String>> {
         match_nodes!(input.into_children();
-        [block_empty_lines(es), block_string(b), string_multiline_detected_part(bs).., string_multiline_trailing(trailing)] => {
+        [block_leading_lines(es), block_string(b), string_multiline_detected_part(bs).., string_multiline_trailing(trailing)] => {
             Ok(es.into_iter()
                 .chain(std::iter::once(b))
                 .chain(bs.into_iter().flat_map(|x| x))
-- 
2.43.0

