From 8082556a87444ae733676a355fa44f658c5f66f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 01/33] fix: write every JSON number in canonical form, not
 only top-level scalar fields

---
 crates/toon/src/encode/encoders.rs   | 15 +++++++++------
 crates/toon/src/encode/primitives.rs | 10 ++++++++++
 crates/toon/src/ser/stream.rs        | 27 +++++++++++++++++++--------
 3 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/crates/toon/src/encode/encoders.rs b/crates/toon/src/encode/encoders.rs
index c24d44c..7a9e223 100644
--- a/crates/toon/src/encode/encoders.rs
+++ b/crates/toon/src/encode/encoders.rs
@@ -29,7 +29,7 @@ pub fn encode_value(
     match value {
         Value::Null => w.line(indent, primitives::format_null()),
         Value::Bool(b) => w.line(indent, primitives::format_bool(*b)),
-        Value::Number(n) => w.line(indent, &n.to_string()),
+        Value::Number(n) => w.line(indent, &primitives::format_number(n)),
         Value::String(s) => {
             let fs = primitives::format_string(s, opts.delimiter);
             w.line(indent, &fs)
@@ -137,7 +137,7 @@ fn encode_object_field_with_context(
     match value {
         Value::Null => w.line_kv(indent, &key_fmt, primitives::format_null()),
         Value::Bool(b) => w.line_kv(indent, &key_fmt, primitives::format_bool(*b)),
-        Value::Number(n) => w.line_kv(indent, &key_fmt, &n.to_string()),
+        Value::Number(n) => w.line_kv(indent, &key_fmt, &primitives::format_number(n)),
         Value::String(s) => w.line_kv(
             indent,
             &key_fmt,
@@ -327,7 +327,7 @@ fn encode_folded_value(
     match value {
         Value::Null => w.line_kv(indent, folded_key, primitives::format_null()),
         Value::Bool(b) => w.line_kv(indent, folded_key, primitives::format_bool(*b)),
-        Value::Number(n) => w.line_kv(indent, folded_key, &n.to_string()),
+        Value::Number(n) => w.line_kv(indent, folded_key, &primitives::format_number(n)),
         Value::String(s) => w.line_kv(
             indent,
             folded_key,
@@ -513,7 +513,7 @@ fn encode_list_item(item: &Value, w: &mut LineWriter, opts: &Options, indent: us
     match item {
         Value::Null => w.line_list_item(indent, primitives::format_null()),
         Value::Bool(b) => w.line_list_item(indent, primitives::format_bool(*b)),
-        Value::Number(n) => w.line_list_item(indent, &n.to_string()),
+        Value::Number(n) => w.line_list_item(indent, &primitives::format_number(n)),
         Value::String(s) => w.line_list_item(indent, &primitives::format_string(s, opts.delimiter)),
         Value::Array(inner) => {
             // Array of arrays: - [M]: v1,v2 or - [M]: with nested
@@ -637,7 +637,10 @@ fn encode_list_item_object(
             indent,
             &format!("- {}: {}", first_key_fmt, primitives::format_bool(*b)),
         ),
-        Value::Number(n) => w.line(indent, &format!("- {}: {}", first_key_fmt, n)),
+        Value::Number(n) => w.line(
+            indent,
+            &format!("- {}: {}", first_key_fmt, primitives::format_number(n)),
+        ),
         Value::String(s) => {
             let v = primitives::format_string(s, opts.delimiter);
             w.line(indent, &format!("- {}: {}", first_key_fmt, v));
@@ -707,7 +710,7 @@ fn format_primitive_value(v: &Value, delim: crate::options::Delimiter) -> String
     match v {
         Value::Null => primitives::format_null().to_string(),
         Value::Bool(b) => primitives::format_bool(*b).to_string(),
-        Value::Number(n) => n.to_string(),
+        Value::Number(n) => primitives::format_number(n),
         Value::String(s) => primitives::format_string(s, delim),
         _ => "null".to_string(),
     }
diff --git a/crates/toon/src/encode/primitives.rs b/crates/toon/src/encode/primitives.rs
index f613b46..2e17f3c 100644
--- a/crates/toon/src/encode/primitives.rs
+++ b/crates/toon/src/encode/primitives.rs
@@ -201,3 +201,13 @@ pub fn format_null() -> &'static str {
 pub fn format_f64(f: f64) -> String {
     format_canonical_f64(f)
 }
+
+/// Format a JSON number in canonical TOON form (§2): integers verbatim, floats without
+/// exponent or trailing fractional zeros.
+#[cfg(feature = "json")]
+pub fn format_number(n: &serde_json::Number) -> String {
+    match n.as_f64() {
+        Some(f) if n.is_f64() => format_canonical_f64(f),
+        _ => n.to_string(),
+    }
+}
diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index a173101..1e6c2e4 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -702,7 +702,7 @@ fn format_primitive_value_json(v: &Value, delim: crate::options::Delimiter) -> S
     match v {
         Value::Null => primitives::format_null().to_string(),
         Value::Bool(b) => primitives::format_bool(*b).to_string(),
-        Value::Number(n) => n.to_string(),
+        Value::Number(n) => primitives::format_number(n),
         Value::String(s) => primitives::format_string(s, delim),
         _ => "null".to_string(),
     }
@@ -718,7 +718,7 @@ fn encode_list_item_json(
     match item {
         Value::Null => w.line_list_item(indent, primitives::format_null()),
         Value::Bool(b) => w.line_list_item(indent, primitives::format_bool(*b)),
-        Value::Number(n) => w.line_list_item(indent, &n.to_string()),
+        Value::Number(n) => w.line_list_item(indent, &primitives::format_number(n)),
         Value::String(s) => w.line_list_item(indent, &primitives::format_string(s, opts.delimiter)),
         Value::Array(items) => {
             let len = items.len();
@@ -802,9 +802,11 @@ fn encode_list_item_json(
                                 &key_fmt,
                                 primitives::format_bool(*b),
                             ),
-                            Value::Number(n) => {
-                                w.line_kv(indent + opts.indent, &key_fmt, &n.to_string())
-                            }
+                            Value::Number(n) => w.line_kv(
+                                indent + opts.indent,
+                                &key_fmt,
+                                &primitives::format_number(n),
+                            ),
                             Value::String(s) => w.line_kv(
                                 indent + opts.indent,
                                 &key_fmt,
@@ -840,7 +842,10 @@ fn encode_list_item_json(
                     indent,
                     &format!("- {}: {}", first_key_fmt, primitives::format_bool(*b)),
                 ),
-                Value::Number(n) => w.line(indent, &format!("- {}: {}", first_key_fmt, n)),
+                Value::Number(n) => w.line(
+                    indent,
+                    &format!("- {}: {}", first_key_fmt, primitives::format_number(n)),
+                ),
                 Value::String(s) => {
                     let v = primitives::format_string(s, opts.delimiter);
                     w.line(indent, &format!("- {}: {}", first_key_fmt, v));
@@ -900,7 +905,9 @@ fn encode_list_item_json(
                                 Value::Bool(b) => {
                                     w.line_kv(indent + 4, &key_fmt, primitives::format_bool(*b))
                                 }
-                                Value::Number(n) => w.line_kv(indent + 4, &key_fmt, &n.to_string()),
+                                Value::Number(n) => {
+                                    w.line_kv(indent + 4, &key_fmt, &primitives::format_number(n))
+                                }
                                 Value::String(s) => w.line_kv(
                                     indent + 4,
                                     &key_fmt,
@@ -930,7 +937,11 @@ fn encode_list_item_json(
                     Value::Bool(b) => {
                         w.line_kv(indent + opts.indent, &key_fmt, primitives::format_bool(*b))
                     }
-                    Value::Number(n) => w.line_kv(indent + opts.indent, &key_fmt, &n.to_string()),
+                    Value::Number(n) => w.line_kv(
+                        indent + opts.indent,
+                        &key_fmt,
+                        &primitives::format_number(n),
+                    ),
                     Value::String(s) => w.line_kv(
                         indent + opts.indent,
                         &key_fmt,
-- 
2.43.0


From 0a80fc91a269876ad05421e9de310b30e45f51ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:04 +0000
Subject: [PATCH 02/33] fix: honour Options::indent in list items and when
 decoding

---
 crates/toon/src/de/mod.rs          |   2 +-
 crates/toon/src/decode/parser.rs   |  59 ++++++++++++----
 crates/toon/src/encode/encoders.rs |   8 +--
 crates/toon/src/ser/stream.rs      | 109 +++++++++++++++++++----------
 4 files changed, 123 insertions(+), 55 deletions(-)

diff --git a/crates/toon/src/de/mod.rs b/crates/toon/src/de/mod.rs
index 587d738..8b8a07c 100644
--- a/crates/toon/src/de/mod.rs
+++ b/crates/toon/src/de/mod.rs
@@ -174,7 +174,7 @@ fn from_str_via_internal_value<T: DeserializeOwned>(s: &str, options: &Options)
             });
         }
     }
-    let mut v = crate::decode::parser::parse_to_internal_value_from_lines(lines, options.strict)?;
+    let mut v = crate::decode::parser::parse_to_internal_value_with_options(lines, options)?;
 
     // Apply path expansion if enabled
     if options.expand_paths == crate::options::ExpandPaths::Safe {
diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index abd9ee3..78cd5d7 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -14,15 +14,20 @@ pub struct Parser<'a> {
     lines: Vec<ParsedLine<'a>>,
     idx: usize,
     strict: bool,
+    indent_size: usize,
     error: Option<crate::error::Error>,
 }
 
+/// Indentation step assumed when the caller does not configure one.
+const DEFAULT_INDENT: usize = 2;
+
 impl<'a> Parser<'a> {
     pub fn from_input(input: &'a str) -> Self {
         Self {
             lines: scan(input),
             idx: 0,
             strict: false,
+            indent_size: DEFAULT_INDENT,
             error: None,
         }
     }
@@ -32,6 +37,7 @@ impl<'a> Parser<'a> {
             lines: scan(input),
             idx: 0,
             strict,
+            indent_size: DEFAULT_INDENT,
             error: None,
         }
     }
@@ -41,6 +47,7 @@ impl<'a> Parser<'a> {
             lines,
             idx: 0,
             strict,
+            indent_size: DEFAULT_INDENT,
             error: None,
         }
     }
@@ -240,7 +247,7 @@ impl<'a> Parser<'a> {
                         // If header has a key, this is a keyed array as first field of list-item object
                         if let Some(ref key) = header.key {
                             let key_parsed = self.parse_key_token(key);
-                            let child_indent = indent + 2;
+                            let child_indent = indent + self.indent_size;
                             let mut map: Vec<(String, Value)> = Vec::new();
                             let v = self.parse_keyed_array_value(&header);
                             map.push((key_parsed, v));
@@ -254,7 +261,10 @@ impl<'a> Parser<'a> {
                         // No key - this is an inline array like "- [N]{fields}:"
                         if let Some(ref fields) = header.fields {
                             let header_line_no = self.idx; // Already consumed the header
-                            let row_indent = self.peek().map(|l| l.indent).unwrap_or(indent + 2);
+                            let row_indent = self
+                                .peek()
+                                .map(|l| l.indent)
+                                .unwrap_or(indent + self.indent_size);
                             let fields_refs: Vec<&str> =
                                 fields.iter().map(|s| s.as_str()).collect();
                             arr.push(self.parse_tabular_rows(
@@ -284,7 +294,10 @@ impl<'a> Parser<'a> {
                             continue;
                         }
                         // Expanded array header: parse nested list items at child indent
-                        let child_indent = self.peek().map(|l| l.indent).unwrap_or(indent + 2);
+                        let child_indent = self
+                            .peek()
+                            .map(|l| l.indent)
+                            .unwrap_or(indent + self.indent_size);
                         arr.push(self.parse_array(child_indent));
                         continue;
                     }
@@ -292,7 +305,7 @@ impl<'a> Parser<'a> {
                 // 2) Support object-as-list-item with first field on the hyphen line: "- key: value"
                 if let Some((kraw, vraw)) = split_kv_quote_aware(vs) {
                     let key = self.parse_key_token(kraw);
-                    let child_indent = indent + 2;
+                    let child_indent = indent + self.indent_size;
                     let mut map: Vec<(String, Value)> = Vec::new();
                     if vraw.is_empty() {
                         // Value on following indented lines
@@ -312,7 +325,7 @@ impl<'a> Parser<'a> {
                 arr.push(self.parse_scalar_token(vs));
             } else {
                 // Bare "-" list item - check if there are children
-                let child_indent = indent + 2;
+                let child_indent = indent + self.indent_size;
                 let child_val = self.parse_node(child_indent);
                 // If parse_node returns Null (no children), this is an empty object
                 if matches!(child_val, Value::Null) {
@@ -404,7 +417,10 @@ impl<'a> Parser<'a> {
                     self.next();
                     let k = self.parse_key_token(kref);
                     // Detect actual child indent from next line (supports non-multiple indentation in non-strict mode)
-                    let child_indent = self.peek().map(|l| l.indent).unwrap_or(indent + 2);
+                    let child_indent = self
+                        .peek()
+                        .map(|l| l.indent)
+                        .unwrap_or(indent + self.indent_size);
                     let mut handled = false;
                     if let Some(nl) = self.peek() {
                         if nl.indent == child_indent && nl.indent > indent {
@@ -797,7 +813,7 @@ impl<'a> Parser<'a> {
                                         header.length,
                                         header.delimiter,
                                         &fields_refs,
-                                        indent + 2,
+                                        indent + self.indent_size,
                                         header_line_no,
                                     );
                                 }
@@ -927,13 +943,13 @@ impl<'a> Parser<'a> {
         self.next(); // Consume header line
 
         if let Some(ref fields) = header.fields {
-            // Tabular array - rows at indent 2
+            // Tabular array - rows one level deeper
             let fields_refs: Vec<&str> = fields.iter().map(|s| s.as_str()).collect();
             return self.parse_tabular_rows(
                 header.length,
                 header.delimiter,
                 &fields_refs,
-                2,
+                self.indent_size,
                 line_no,
             );
         }
@@ -962,8 +978,8 @@ impl<'a> Parser<'a> {
             }
         }
 
-        // Expanded array with list items at indent 2
-        self.parse_array_with_length_check(2, header.length, line_no)
+        // Expanded array with list items one level deeper
+        self.parse_array_with_length_check(self.indent_size, header.length, line_no)
     }
 
     /// Parse the value for a keyed array header
@@ -981,7 +997,7 @@ impl<'a> Parser<'a> {
         // If there are fields, it's a tabular array
         if let Some(ref fields) = header.fields {
             // Get current indent to determine row indent
-            let row_indent = self.peek().map(|l| l.indent).unwrap_or(2);
+            let row_indent = self.peek().map(|l| l.indent).unwrap_or(self.indent_size);
             let fields_refs: Vec<&str> = fields.iter().map(|s| s.as_str()).collect();
             return self.parse_tabular_rows(
                 header.length,
@@ -1017,7 +1033,7 @@ impl<'a> Parser<'a> {
         }
 
         // Otherwise, parse list items at child indent
-        let child_indent = self.peek().map(|l| l.indent).unwrap_or(2);
+        let child_indent = self.peek().map(|l| l.indent).unwrap_or(self.indent_size);
         self.parse_array_with_length_check(child_indent, header.length, header_line_no)
     }
 
@@ -1741,7 +1757,22 @@ pub fn parse_to_internal_value_from_lines<'a>(
     lines: Vec<ParsedLine<'a>>,
     strict: bool,
 ) -> Result<Value, crate::error::Error> {
-    let mut p = Parser::from_lines(lines, strict);
+    finish(Parser::from_lines(lines, strict))
+}
+
+/// Parse scanned lines honouring the decode options (strictness and indent size).
+pub fn parse_to_internal_value_with_options<'a>(
+    lines: Vec<ParsedLine<'a>>,
+    options: &crate::options::Options,
+) -> Result<Value, crate::error::Error> {
+    let mut p = Parser::from_lines(lines, options.strict);
+    if options.indent > 0 {
+        p.indent_size = options.indent;
+    }
+    finish(p)
+}
+
+fn finish(mut p: Parser<'_>) -> Result<Value, crate::error::Error> {
     let v = p.parse_document();
     if let Some(err) = p.error {
         Err(err)
diff --git a/crates/toon/src/encode/encoders.rs b/crates/toon/src/encode/encoders.rs
index 7a9e223..830a7c5 100644
--- a/crates/toon/src/encode/encoders.rs
+++ b/crates/toon/src/encode/encoders.rs
@@ -605,7 +605,7 @@ fn encode_list_item_object(
             );
             w.line_list_item(indent, &header);
 
-            // Rows at depth+2 (indent + 4 relative to list item indent)
+            // Rows at depth+2 (indent + 2 * opts.indent relative to list item indent)
             for item in items {
                 let inner_obj = item.as_object().unwrap();
                 let cells: Vec<String> = keys
@@ -616,7 +616,7 @@ fn encode_list_item_object(
                     })
                     .collect();
                 let row = join_with_delim(&cells, dch);
-                w.line(indent + 4, &row);
+                w.line(indent + 2 * opts.indent, &row);
             }
 
             // Other fields at depth+1 (indent + opts.indent)
@@ -684,7 +684,7 @@ fn encode_list_item_object(
                     ),
                 );
                 for inner_item in items {
-                    encode_list_item(inner_item, w, opts, indent + 4)?;
+                    encode_list_item(inner_item, w, opts, indent + 2 * opts.indent)?;
                 }
             }
         }
@@ -692,7 +692,7 @@ fn encode_list_item_object(
             w.line(indent, &format!("- {}:", first_key_fmt));
             if !inner_obj.is_empty() {
                 for (k, v) in inner_obj {
-                    encode_object_field(k, v, w, opts, indent + 4)?;
+                    encode_object_field(k, v, w, opts, indent + 2 * opts.indent)?;
                 }
             }
         }
diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 1e6c2e4..bc7930e 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -776,7 +776,7 @@ fn encode_list_item_json(
                     );
                     w.line_list_item(indent, &header);
 
-                    // Rows at indent + 4
+                    // Rows at indent + 2 * opts.indent
                     for item in items {
                         let inner_obj = item.as_object().unwrap();
                         let cells: Vec<String> = keys
@@ -787,7 +787,7 @@ fn encode_list_item_json(
                             })
                             .collect();
                         let row = join_with_delim(&cells, dch);
-                        w.line(indent + 4, &row);
+                        w.line(indent + 2 * opts.indent, &row);
                     }
 
                     // Remaining fields at depth + 1 (indent + opts.indent)
@@ -823,8 +823,13 @@ fn encode_list_item_json(
                             }
                             Value::Object(_) => {
                                 w.line_key_only(indent + opts.indent, &key_fmt);
-                                crate::encode::encoders::encode_value(v, w, opts, indent + 4)
-                                    .map_err(|e| SerError::custom(e.to_string()))?;
+                                crate::encode::encoders::encode_value(
+                                    v,
+                                    w,
+                                    opts,
+                                    indent + 2 * opts.indent,
+                                )
+                                .map_err(|e| SerError::custom(e.to_string()))?;
                             }
                         }
                     }
@@ -889,7 +894,7 @@ fn encode_list_item_json(
                             ),
                         );
                         for inner in items {
-                            encode_list_item_json(inner, w, opts, indent + 4)?;
+                            encode_list_item_json(inner, w, opts, indent + 2 * opts.indent)?;
                         }
                     }
                 }
@@ -899,27 +904,44 @@ fn encode_list_item_json(
                         for (k, v) in inner_obj {
                             let key_fmt = primitives::format_key(k);
                             match v {
-                                Value::Null => {
-                                    w.line_kv(indent + 4, &key_fmt, primitives::format_null())
-                                }
-                                Value::Bool(b) => {
-                                    w.line_kv(indent + 4, &key_fmt, primitives::format_bool(*b))
-                                }
-                                Value::Number(n) => {
-                                    w.line_kv(indent + 4, &key_fmt, &primitives::format_number(n))
-                                }
+                                Value::Null => w.line_kv(
+                                    indent + 2 * opts.indent,
+                                    &key_fmt,
+                                    primitives::format_null(),
+                                ),
+                                Value::Bool(b) => w.line_kv(
+                                    indent + 2 * opts.indent,
+                                    &key_fmt,
+                                    primitives::format_bool(*b),
+                                ),
+                                Value::Number(n) => w.line_kv(
+                                    indent + 2 * opts.indent,
+                                    &key_fmt,
+                                    &primitives::format_number(n),
+                                ),
                                 Value::String(s) => w.line_kv(
-                                    indent + 4,
+                                    indent + 2 * opts.indent,
                                     &key_fmt,
                                     &primitives::format_string(s, opts.delimiter),
                                 ),
                                 Value::Array(arr) => {
-                                    encode_keyed_array_json(&key_fmt, arr, w, opts, indent + 4)?;
+                                    encode_keyed_array_json(
+                                        &key_fmt,
+                                        arr,
+                                        w,
+                                        opts,
+                                        indent + 2 * opts.indent,
+                                    )?;
                                 }
                                 Value::Object(_) => {
-                                    w.line_key_only(indent + 4, &key_fmt);
-                                    crate::encode::encoders::encode_value(v, w, opts, indent + 6)
-                                        .map_err(|e| SerError::custom(e.to_string()))?;
+                                    w.line_key_only(indent + 2 * opts.indent, &key_fmt);
+                                    crate::encode::encoders::encode_value(
+                                        v,
+                                        w,
+                                        opts,
+                                        indent + 3 * opts.indent,
+                                    )
+                                    .map_err(|e| SerError::custom(e.to_string()))?;
                                 }
                             }
                         }
@@ -952,7 +974,7 @@ fn encode_list_item_json(
                     }
                     Value::Object(_) => {
                         w.line_key_only(indent + opts.indent, &key_fmt);
-                        crate::encode::encoders::encode_value(v, w, opts, indent + 4)
+                        crate::encode::encoders::encode_value(v, w, opts, indent + 2 * opts.indent)
                             .map_err(|e| SerError::custom(e.to_string()))?;
                     }
                 }
@@ -1130,7 +1152,7 @@ fn encode_list_item_alloc(
                     );
                     w.line_list_item(indent, &header);
 
-                    // Rows at indent + 4
+                    // Rows at indent + 2 * opts.indent
                     for item in items {
                         let obj = match item {
                             IValue::Object(p) => p,
@@ -1144,7 +1166,7 @@ fn encode_list_item_alloc(
                             })
                             .collect();
                         let row = join_with_delim(&cells, dch);
-                        w.line(indent + 4, &row);
+                        w.line(indent + 2 * opts.indent, &row);
                     }
 
                     // Remaining fields at depth + 1 (indent + opts.indent)
@@ -1178,7 +1200,7 @@ fn encode_list_item_alloc(
                             }
                             IValue::Object(_) => {
                                 w.line_key_only(indent + opts.indent, &key_fmt);
-                                encode_internal_value_alloc(v, w, opts, indent + 4)?;
+                                encode_internal_value_alloc(v, w, opts, indent + 2 * opts.indent)?;
                             }
                         }
                     }
@@ -1240,7 +1262,7 @@ fn encode_list_item_alloc(
                             ),
                         );
                         for inner in items {
-                            encode_list_item_alloc(inner, w, opts, indent + 4)?;
+                            encode_list_item_alloc(inner, w, opts, indent + 2 * opts.indent)?;
                         }
                     }
                 }
@@ -1250,26 +1272,41 @@ fn encode_list_item_alloc(
                         for (k, v) in inner_obj {
                             let key_fmt = primitives::format_key(k);
                             match v {
-                                IValue::Null => {
-                                    w.line_kv(indent + 4, &key_fmt, primitives::format_null())
-                                }
-                                IValue::Bool(b) => {
-                                    w.line_kv(indent + 4, &key_fmt, primitives::format_bool(*b))
-                                }
+                                IValue::Null => w.line_kv(
+                                    indent + 2 * opts.indent,
+                                    &key_fmt,
+                                    primitives::format_null(),
+                                ),
+                                IValue::Bool(b) => w.line_kv(
+                                    indent + 2 * opts.indent,
+                                    &key_fmt,
+                                    primitives::format_bool(*b),
+                                ),
                                 IValue::Number(n) => {
-                                    w.line_kv(indent + 4, &key_fmt, &n.to_string())
+                                    w.line_kv(indent + 2 * opts.indent, &key_fmt, &n.to_string())
                                 }
                                 IValue::String(s) => w.line_kv(
-                                    indent + 4,
+                                    indent + 2 * opts.indent,
                                     &key_fmt,
                                     &primitives::format_string(s, opts.delimiter),
                                 ),
                                 IValue::Array(arr) => {
-                                    encode_keyed_array_alloc(&key_fmt, arr, w, opts, indent + 4)?;
+                                    encode_keyed_array_alloc(
+                                        &key_fmt,
+                                        arr,
+                                        w,
+                                        opts,
+                                        indent + 2 * opts.indent,
+                                    )?;
                                 }
                                 IValue::Object(_) => {
-                                    w.line_key_only(indent + 4, &key_fmt);
-                                    encode_internal_value_alloc(v, w, opts, indent + 6)?;
+                                    w.line_key_only(indent + 2 * opts.indent, &key_fmt);
+                                    encode_internal_value_alloc(
+                                        v,
+                                        w,
+                                        opts,
+                                        indent + 3 * opts.indent,
+                                    )?;
                                 }
                             }
                         }
@@ -1298,7 +1335,7 @@ fn encode_list_item_alloc(
                     }
                     IValue::Object(_) => {
                         w.line_key_only(indent + opts.indent, &key_fmt);
-                        encode_internal_value_alloc(v, w, opts, indent + 4)?;
+                        encode_internal_value_alloc(v, w, opts, indent + 2 * opts.indent)?;
                     }
                 }
             }
-- 
2.43.0


From 7d67b91a59fbc6a22468269fad311e099c78c35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:51 +0000
Subject: [PATCH 03/33] fix: do not leak the internal quoted-key marker into
 decoded keys

---
 crates/toon/src/decode/parser.rs | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 78cd5d7..2f8d2c2 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -15,6 +15,8 @@ pub struct Parser<'a> {
     idx: usize,
     strict: bool,
     indent_size: usize,
+    /// Mark quoted dotted keys so that path expansion leaves them alone
+    mark_literal_keys: bool,
     error: Option<crate::error::Error>,
 }
 
@@ -28,6 +30,7 @@ impl<'a> Parser<'a> {
             idx: 0,
             strict: false,
             indent_size: DEFAULT_INDENT,
+            mark_literal_keys: false,
             error: None,
         }
     }
@@ -38,6 +41,7 @@ impl<'a> Parser<'a> {
             idx: 0,
             strict,
             indent_size: DEFAULT_INDENT,
+            mark_literal_keys: false,
             error: None,
         }
     }
@@ -48,6 +52,7 @@ impl<'a> Parser<'a> {
             idx: 0,
             strict,
             indent_size: DEFAULT_INDENT,
+            mark_literal_keys: false,
             error: None,
         }
     }
@@ -169,14 +174,7 @@ impl<'a> Parser<'a> {
             match try_unescape_json_string(k) {
                 Ok(st) => {
                     // If this quoted key contains a dot, mark it to prevent path expansion
-                    // by prefixing with a zero-width space (U+200B)
-                    if st.contains('.') {
-                        let mut marked = String::with_capacity(st.len() + 3);
-                        marked.push('\u{200B}');
-                        marked.push_str(&st);
-                        return marked;
-                    }
-                    return st;
+                    return self.mark_key(st, true);
                 }
                 Err(e) if self.error.is_none() => {
                     self.error = Some(crate::error::Error::Syntax {
@@ -193,7 +191,20 @@ impl<'a> Parser<'a> {
                 Err(_) => return String::new(),
             }
         }
-        k.to_string()
+        self.mark_key(k.to_string(), false)
+    }
+
+    /// Prefix a key with a zero-width space (U+200B) when path expansion must take it literally.
+    /// Expansion strips exactly one marker, so keys that start with U+200B are marked as well.
+    fn mark_key(&self, key: String, quoted: bool) -> String {
+        if self.mark_literal_keys && ((quoted && key.contains('.')) || key.starts_with('\u{200B}'))
+        {
+            let mut marked = String::with_capacity(key.len() + 3);
+            marked.push('\u{200B}');
+            marked.push_str(&key);
+            return marked;
+        }
+        key
     }
 
     fn parse_array(&mut self, indent: usize) -> Value {
@@ -1760,7 +1771,7 @@ pub fn parse_to_internal_value_from_lines<'a>(
     finish(Parser::from_lines(lines, strict))
 }
 
-/// Parse scanned lines honouring the decode options (strictness and indent size).
+/// Parse scanned lines honouring the decode options (strictness, indent size, path expansion).
 pub fn parse_to_internal_value_with_options<'a>(
     lines: Vec<ParsedLine<'a>>,
     options: &crate::options::Options,
@@ -1769,6 +1780,7 @@ pub fn parse_to_internal_value_with_options<'a>(
     if options.indent > 0 {
         p.indent_size = options.indent;
     }
+    p.mark_literal_keys = options.expand_paths == crate::options::ExpandPaths::Safe;
     finish(p)
 }
 
-- 
2.43.0


From c5a0e285a29c73e47aad334c0903cbfcd07c259c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 04/33] fix: nested content must be indented deeper than its
 key

---
 crates/toon/src/decode/parser.rs | 44 +++++++++++++++++---------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 2f8d2c2..bfe8107 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -81,6 +81,19 @@ impl<'a> Parser<'a> {
         self.lines.get(i)
     }
 
+    /// Indentation of the content nested below a line at `parent`: that of the next non-blank
+    /// line when it is deeper (non-multiple indentation is supported), else one level deeper.
+    fn child_indent(&self, parent: usize) -> usize {
+        self.lines
+            .get(self.idx..)
+            .unwrap_or(&[])
+            .iter()
+            .find(|l| !matches!(l.kind, LineKind::Blank))
+            .map(|l| l.indent)
+            .filter(|&i| i > parent)
+            .unwrap_or(parent + self.indent_size)
+    }
+
     fn parse_scalar_token(&mut self, s: &str) -> Value {
         self.parse_scalar_token_at_line(s, self.idx)
     }
@@ -260,7 +273,7 @@ impl<'a> Parser<'a> {
                             let key_parsed = self.parse_key_token(key);
                             let child_indent = indent + self.indent_size;
                             let mut map: Vec<(String, Value)> = Vec::new();
-                            let v = self.parse_keyed_array_value(&header);
+                            let v = self.parse_keyed_array_value(&header, indent);
                             map.push((key_parsed, v));
                             // Parse any additional fields at child indent
                             if let Value::Object(mut rest) = self.parse_object(child_indent) {
@@ -272,10 +285,7 @@ impl<'a> Parser<'a> {
                         // No key - this is an inline array like "- [N]{fields}:"
                         if let Some(ref fields) = header.fields {
                             let header_line_no = self.idx; // Already consumed the header
-                            let row_indent = self
-                                .peek()
-                                .map(|l| l.indent)
-                                .unwrap_or(indent + self.indent_size);
+                            let row_indent = self.child_indent(indent);
                             let fields_refs: Vec<&str> =
                                 fields.iter().map(|s| s.as_str()).collect();
                             arr.push(self.parse_tabular_rows(
@@ -305,10 +315,7 @@ impl<'a> Parser<'a> {
                             continue;
                         }
                         // Expanded array header: parse nested list items at child indent
-                        let child_indent = self
-                            .peek()
-                            .map(|l| l.indent)
-                            .unwrap_or(indent + self.indent_size);
+                        let child_indent = self.child_indent(indent);
                         arr.push(self.parse_array(child_indent));
                         continue;
                     }
@@ -366,7 +373,7 @@ impl<'a> Parser<'a> {
                                         .as_ref()
                                         .map(|k| self.parse_key_token(k))
                                         .unwrap_or_default();
-                                    let v = self.parse_keyed_array_value(&header);
+                                    let v = self.parse_keyed_array_value(&header, indent);
                                     map.push((k, v));
                                     continue;
                                 }
@@ -402,7 +409,7 @@ impl<'a> Parser<'a> {
                             .as_ref()
                             .map(|k| self.parse_key_token(k))
                             .unwrap_or_default();
-                        let v = self.parse_keyed_array_value(&header);
+                        let v = self.parse_keyed_array_value(&header, indent);
                         map.push((k, v));
                         continue;
                     }
@@ -421,17 +428,14 @@ impl<'a> Parser<'a> {
                             .as_ref()
                             .map(|k| self.parse_key_token(k))
                             .unwrap_or_default();
-                        let v = self.parse_keyed_array_value(&header);
+                        let v = self.parse_keyed_array_value(&header, indent);
                         map.push((k, v));
                         continue;
                     }
                     self.next();
                     let k = self.parse_key_token(kref);
                     // Detect actual child indent from next line (supports non-multiple indentation in non-strict mode)
-                    let child_indent = self
-                        .peek()
-                        .map(|l| l.indent)
-                        .unwrap_or(indent + self.indent_size);
+                    let child_indent = self.child_indent(indent);
                     let mut handled = false;
                     if let Some(nl) = self.peek() {
                         if nl.indent == child_indent && nl.indent > indent {
@@ -993,8 +997,8 @@ impl<'a> Parser<'a> {
         self.parse_array_with_length_check(self.indent_size, header.length, line_no)
     }
 
-    /// Parse the value for a keyed array header
-    fn parse_keyed_array_value(&mut self, header: &ArrayHeader) -> Value {
+    /// Parse the value for a keyed array header found on a line at `indent`
+    fn parse_keyed_array_value(&mut self, header: &ArrayHeader, indent: usize) -> Value {
         let header_line_no = self.idx; // Header was already consumed
 
         // In strict mode, check for delimiter mismatch between bracket and brace
@@ -1008,7 +1012,7 @@ impl<'a> Parser<'a> {
         // If there are fields, it's a tabular array
         if let Some(ref fields) = header.fields {
             // Get current indent to determine row indent
-            let row_indent = self.peek().map(|l| l.indent).unwrap_or(self.indent_size);
+            let row_indent = self.child_indent(indent);
             let fields_refs: Vec<&str> = fields.iter().map(|s| s.as_str()).collect();
             return self.parse_tabular_rows(
                 header.length,
@@ -1044,7 +1048,7 @@ impl<'a> Parser<'a> {
         }
 
         // Otherwise, parse list items at child indent
-        let child_indent = self.peek().map(|l| l.indent).unwrap_or(self.indent_size);
+        let child_indent = self.child_indent(indent);
         self.parse_array_with_length_check(child_indent, header.length, header_line_no)
     }
 
-- 
2.43.0


From 4859a27adef3d9b7916e4d905ee408b7177dd77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 05/33] fix: do not write arrays of empty objects as tables

---
 crates/toon/src/encode/encoders.rs | 4 ++++
 crates/toon/src/ser/stream.rs      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crates/toon/src/encode/encoders.rs b/crates/toon/src/encode/encoders.rs
index 830a7c5..21a537f 100644
--- a/crates/toon/src/encode/encoders.rs
+++ b/crates/toon/src/encode/encoders.rs
@@ -727,6 +727,10 @@ pub fn is_tabular_array(arr: &[Value]) -> Option<Vec<String>> {
             Value::Object(m) => m,
             _ => return None,
         };
+        // Rows without fields cannot be written as table rows
+        if obj.is_empty() {
+            return None;
+        }
         let kset: Vec<String> = obj.keys().cloned().collect();
 
         if let Some(ref ks) = keys {
diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index bc7930e..7fd0964 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -1439,6 +1439,10 @@ fn is_tabular_array_alloc(arr: &[IValue]) -> Option<Vec<String>> {
             IValue::Object(pairs) => pairs,
             _ => return None,
         };
+        // Rows without fields cannot be written as table rows
+        if obj.is_empty() {
+            return None;
+        }
         let mut kset: Vec<String> = obj.iter().map(|(k, _)| k.clone()).collect();
         kset.sort();
         if let Some(ref ks) = keys {
-- 
2.43.0


From 7dd602a620a2521f4e9305d1b2a11b85146234cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 06/33] fix: a list item key with no value holds an empty
 object, and its siblings stay siblings

---
 crates/toon/src/decode/parser.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index bfe8107..7cf1948 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -326,9 +326,18 @@ impl<'a> Parser<'a> {
                     let child_indent = indent + self.indent_size;
                     let mut map: Vec<(String, Value)> = Vec::new();
                     if vraw.is_empty() {
-                        // Value on following indented lines
-                        let v = self.parse_node(child_indent);
-                        map.push((key, v));
+                        // Value on following lines, nested deeper than the sibling fields (which
+                        // are at child_indent); a headerless list or table may sit beside them
+                        self.skip_blanks();
+                        let beside = self.peek().is_some_and(|l| {
+                            l.indent == child_indent
+                                && matches!(l.kind, LineKind::ListItem { .. } | LineKind::Scalar(_))
+                        });
+                        match self.parse_node(child_indent + usize::from(!beside)) {
+                            // No children: an empty object, as for any other key
+                            Value::Null => map.push((key, Value::Object(Vec::new()))),
+                            v => map.push((key, v)),
+                        }
                     } else {
                         map.push((key, self.parse_scalar_token(vraw)));
                     }
-- 
2.43.0


From 118fa2234b6df9b4dc301b1b4e7223e00bb16586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 07/33] fix: strict mode accepts other delimiters in the rows
 of single-column tables

---
 crates/toon/src/decode/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 7cf1948..b490cf0 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -1133,7 +1133,11 @@ impl<'a> Parser<'a> {
             self.next();
 
             // In strict mode, check if row uses a different delimiter than declared
-            if self.strict && self.error.is_none() && check_delimiter_mismatch(row_text, delimiter)
+            // (a row of a single-column table holds no delimiter that could reveal this)
+            if self.strict
+                && self.error.is_none()
+                && expected_cells > 1
+                && check_delimiter_mismatch(row_text, delimiter)
             {
                 self.error = Some(crate::error::Error::Syntax {
                     line: row_line_no,
-- 
2.43.0


From 2e12fa9b86b3bddd6eabf34ff0f5d7dfb1414780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:23 +0000
Subject: [PATCH 08/33] fix: read a root string starting with @ as a string,
 not as a table without rows

---
 crates/toon/src/decode/parser.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index b490cf0..ae6222a 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -647,8 +647,15 @@ impl<'a> Parser<'a> {
             None => None,
         };
 
-        // Check if this is a tabular array header
-        if let Some(s) = s_opt {
+        // Check if this is a tabular array header; without rows it is a string such as "@name"
+        let has_rows = self
+            .lines
+            .get(self.idx + 1..)
+            .unwrap_or(&[])
+            .iter()
+            .find(|l| !matches!(l.kind, LineKind::Blank))
+            .is_some_and(|l| l.indent == indent && matches!(l.kind, LineKind::ListItem { .. }));
+        if let Some(s) = s_opt.filter(|_| has_rows) {
             if let Some((dch, header_str)) = parse_header(s) {
                 // This is a tabular header, parse it as a root-level tabular array
                 if self.strict && !(dch == ',' || dch == '\t' || dch == '|') {
-- 
2.43.0


From 91f3feac5a9ebddf5ca8f6d3750a9c9892db073f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:49 +0000
Subject: [PATCH 09/33] fix: a legacy table header with a non-ASCII delimiter
 must not panic

---
 crates/toon/src/de/direct.rs     |  5 +++--
 crates/toon/src/decode/parser.rs | 17 +++++++++++------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/crates/toon/src/de/direct.rs b/crates/toon/src/de/direct.rs
index d594645..916e1bc 100644
--- a/crates/toon/src/de/direct.rs
+++ b/crates/toon/src/de/direct.rs
@@ -734,7 +734,7 @@ fn parse_header(s: &str) -> Option<(char, &str)> {
         return None;
     }
     let dch = it.next()?;
-    Some((dch, s[2..].trim_start()))
+    Some((dch, it.as_str().trim_start()))
 }
 
 fn unescape_json_string(s: &str) -> Option<String> {
@@ -795,7 +795,8 @@ fn split_delim_aware<'a>(s: &'a str, dch: char) -> Vec<&'a str> {
     let mut in_str = false;
     let mut escape = false;
     let mut start = 0usize;
-    let delim = dch as u8;
+    // Only ASCII delimiters are supported; 0xFF never occurs in UTF-8 text
+    let delim = if dch.is_ascii() { dch as u8 } else { 0xFF };
     for (i, &b) in bytes.iter().enumerate() {
         if in_str {
             if escape {
diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index ae6222a..b8d7cbc 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -544,7 +544,7 @@ impl<'a> Parser<'a> {
                                         let row_trimmed = rs.trim_end();
                                         if self.strict
                                             && row_trimmed.as_bytes().last().copied()
-                                                == Some(dch as u8)
+                                                == Some(delimiter_byte(dch))
                                         {
                                             self.error = Some(crate::error::Error::Syntax {
                                                 line: row_line,
@@ -744,7 +744,7 @@ impl<'a> Parser<'a> {
                     self.next();
 
                     let row_trimmed = rs.trim_end();
-                    if self.strict && row_trimmed.as_bytes().last().copied() == Some(dch as u8) {
+                    if self.strict && row_trimmed.as_bytes().last().copied() == Some(delimiter_byte(dch)) {
                         self.error = Some(crate::error::Error::Syntax {
                             line: row_line,
                             message: "trailing delimiter in row".to_string(),
@@ -1223,8 +1223,7 @@ fn parse_header(s: &str) -> Option<(char, &str)> {
         return None;
     }
     let dch = it.next()?;
-    let rest = &s[2..];
-    Some((dch, trim_ascii_start(rest)))
+    Some((dch, trim_ascii_start(it.as_str())))
 }
 
 /// Parsed array header per spec v3.0
@@ -1524,10 +1523,16 @@ fn is_array_header_line(s: &str) -> bool {
     }
 }
 
+/// The byte to split rows at. Only ASCII delimiters are supported (legacy `@` headers can name
+/// any character); any other yields a byte that never occurs in UTF-8 text.
+fn delimiter_byte(dch: char) -> u8 {
+    if dch.is_ascii() { dch as u8 } else { 0xFF }
+}
+
 #[cfg(feature = "perf_memchr")]
 fn split_delim_aware<'a>(s: &'a str, dch: char) -> Vec<&'a str> {
     let bytes = s.as_bytes();
-    let delim = dch as u8;
+    let delim = delimiter_byte(dch);
     #[cfg(feature = "perf_smallvec")]
     let mut out: smallvec::SmallVec<[&'a str; 8]> = smallvec::SmallVec::new();
     #[cfg(not(feature = "perf_smallvec"))]
@@ -1607,7 +1612,7 @@ fn split_delim_aware<'a>(s: &'a str, dch: char) -> Vec<&'a str> {
     let mut in_str = false;
     let mut escape = false;
     let mut start = 0usize;
-    let delim = dch as u8;
+    let delim = delimiter_byte(dch);
     let len = bytes.len();
     let mut i = 0usize;
     while i < len {
-- 
2.43.0


From a0fb7512a87fbe14d60512f2a29f0a369dd2ff86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:31 +0000
Subject: [PATCH 10/33] fix: decode integral floats beyond the integer range as
 floats instead of saturating

---
 crates/toon/src/decode/parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index b8d7cbc..34c15bf 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -20,6 +20,10 @@ pub struct Parser<'a> {
     error: Option<crate::error::Error>,
 }
 
+/// Range of the integral floats that fit `i64` (inclusive lower bound) or `u64` (exclusive upper).
+const I64_LOWER: f64 = -9223372036854775808.0;
+const U64_UPPER: f64 = 18446744073709551616.0;
+
 /// Indentation step assumed when the caller does not configure one.
 const DEFAULT_INDENT: usize = 2;
 
@@ -145,9 +149,9 @@ impl<'a> Parser<'a> {
         match classify_numeric_hint(s) {
             Some(NumHint::Float) => {
                 if let Ok(f) = s.parse::<f64>() {
-                    // Normalize integer-valued floats to integers
+                    // Normalize integer-valued floats to integers, unless they are out of range
                     // Use f % 1.0 instead of f.fract() for no_std compatibility
-                    if f.is_finite() && f % 1.0 == 0.0 {
+                    if f % 1.0 == 0.0 && f >= I64_LOWER && f < U64_UPPER {
                         if f >= 0.0 {
                             return Value::Number(Number::U64(f as u64));
                         } else {
-- 
2.43.0


From 87687ebe3c0c66b375194c620be6f3737744968e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:04 +0000
Subject: [PATCH 11/33] fix: reject text after the closing quote of a string

---
 crates/toon/src/decode/parser.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 34c15bf..d4f5d80 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -109,12 +109,7 @@ impl<'a> Parser<'a> {
                 Err(e) if self.error.is_none() => {
                     self.error = Some(crate::error::Error::Syntax {
                         line: line_no,
-                        message: match e {
-                            StringParseError::Unterminated => "unterminated string".to_string(),
-                            StringParseError::InvalidEscape => {
-                                "invalid escape sequence".to_string()
-                            }
-                        },
+                        message: e.message(),
                     });
                     // Return an empty string as a fallback
                     return Value::String(String::new());
@@ -196,12 +191,7 @@ impl<'a> Parser<'a> {
                 Err(e) if self.error.is_none() => {
                     self.error = Some(crate::error::Error::Syntax {
                         line: line_no,
-                        message: match e {
-                            StringParseError::Unterminated => "unterminated string".to_string(),
-                            StringParseError::InvalidEscape => {
-                                "invalid escape sequence".to_string()
-                            }
-                        },
+                        message: e.message(),
                     });
                     return String::new();
                 }
@@ -1870,6 +1860,18 @@ fn to_json_value(v: Value) -> serde_json::Value {
 enum StringParseError {
     Unterminated,
     InvalidEscape,
+    TrailingText,
+}
+
+impl StringParseError {
+    fn message(&self) -> String {
+        match self {
+            StringParseError::Unterminated => "unterminated string",
+            StringParseError::InvalidEscape => "invalid escape sequence",
+            StringParseError::TrailingText => "unexpected text after closing quote",
+        }
+        .to_string()
+    }
 }
 
 fn try_unescape_json_string(s: &str) -> Result<String, StringParseError> {
@@ -1909,6 +1911,9 @@ fn try_unescape_json_string(s: &str) -> Result<String, StringParseError> {
                 }
                 Some(_) => return Err(StringParseError::InvalidEscape),
             }
+        } else if ch == '"' {
+            // The string ends here, but more text follows
+            return Err(StringParseError::TrailingText);
         } else {
             out.push(ch);
         }
-- 
2.43.0


From 1ec223eee2311a9c5aadd8e2c45a74724cd28893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:37 +0000
Subject: [PATCH 12/33] fix: trailing whitespace on a line is not part of its
 value

---
 crates/toon/src/decode/parser.rs  |  1 +
 crates/toon/src/decode/scanner.rs | 22 +++++-----------------
 2 files changed, 6 insertions(+), 17 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index d4f5d80..9a99434 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -103,6 +103,7 @@ impl<'a> Parser<'a> {
     }
 
     fn parse_scalar_token_at_line(&mut self, s: &str, line_no: usize) -> Value {
+        let s = trim_ascii(s);
         if s.starts_with('"') {
             match try_unescape_json_string(s) {
                 Ok(st) => return Value::String(st),
diff --git a/crates/toon/src/decode/scanner.rs b/crates/toon/src/decode/scanner.rs
index 0697f00..fb29432 100644
--- a/crates/toon/src/decode/scanner.rs
+++ b/crates/toon/src/decode/scanner.rs
@@ -118,8 +118,9 @@ pub fn scan<'a>(input: &'a str) -> Vec<ParsedLine<'a>> {
     for raw in input.split_inclusive('\n') {
         let line = raw.trim_end_matches('\n');
         let indent = leading_spaces(line);
-        let body = &line[indent..];
-        if body.is_empty() {
+        // Trailing spaces are not significant (a trailing tab can be: it may delimit a cell)
+        let body = line[indent..].trim_end_matches(' ');
+        if trim_ascii_start(body).is_empty() {
             out.push(ParsedLine {
                 indent,
                 kind: LineKind::Blank,
@@ -151,7 +152,7 @@ pub fn scan<'a>(input: &'a str) -> Vec<ParsedLine<'a>> {
         if let Some(idx) = find_unquoted_colon(body) {
             let (k, v) = body.split_at(idx);
             let after = &v[1..];
-            let after_trimmed = trim_ascii(after);
+            let after_trimmed = trim_ascii_start(after);
             if after_trimmed.is_empty() {
                 out.push(ParsedLine {
                     indent,
@@ -162,7 +163,7 @@ pub fn scan<'a>(input: &'a str) -> Vec<ParsedLine<'a>> {
                     indent,
                     kind: LineKind::KeyValue {
                         key: k,
-                        value: trim_ascii_start(after),
+                        value: after_trimmed,
                     },
                 });
             }
@@ -176,19 +177,6 @@ pub fn scan<'a>(input: &'a str) -> Vec<ParsedLine<'a>> {
     out
 }
 
-fn trim_ascii(s: &str) -> &str {
-    let bytes = s.as_bytes();
-    let mut start = 0usize;
-    let mut end = bytes.len();
-    while start < end && matches!(bytes[start], b' ' | b'\t') {
-        start += 1;
-    }
-    while end > start && matches!(bytes[end - 1], b' ' | b'\t') {
-        end -= 1;
-    }
-    &s[start..end]
-}
-
 fn trim_ascii_start(s: &str) -> &str {
     let bytes = s.as_bytes();
     let mut start = 0usize;
-- 
2.43.0


From b29eaf204e5a74b1eafe06a4b9989c77c457804b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 13/33] fix: validate keyless array headers (root, nested, list
 item) like keyed ones

---
 crates/toon/src/decode/parser.rs | 119 ++-----------------------------
 1 file changed, 6 insertions(+), 113 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 9a99434..d457f45 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -277,41 +277,8 @@ impl<'a> Parser<'a> {
                             arr.push(Value::Object(map));
                             continue;
                         }
-                        // No key - this is an inline array like "- [N]{fields}:"
-                        if let Some(ref fields) = header.fields {
-                            let header_line_no = self.idx; // Already consumed the header
-                            let row_indent = self.child_indent(indent);
-                            let fields_refs: Vec<&str> =
-                                fields.iter().map(|s| s.as_str()).collect();
-                            arr.push(self.parse_tabular_rows(
-                                header.length,
-                                header.delimiter,
-                                &fields_refs,
-                                row_indent,
-                                header_line_no,
-                            ));
-                            continue;
-                        }
-                        if let Some(ref inline) = header.inline_values {
-                            if !inline.is_empty() {
-                                let values = split_delim_aware(inline, header.delimiter);
-                                arr.push(Value::Array(
-                                    values
-                                        .into_iter()
-                                        .map(|v| self.parse_scalar_token(v))
-                                        .collect(),
-                                ));
-                                continue;
-                            }
-                        }
-                        // Empty array: [0]: produces []
-                        if header.length == 0 {
-                            arr.push(Value::Array(Vec::new()));
-                            continue;
-                        }
-                        // Expanded array header: parse nested list items at child indent
-                        let child_indent = self.child_indent(indent);
-                        arr.push(self.parse_array(child_indent));
+                        // No key - this is a nested array like "- [N]{fields}:"
+                        arr.push(self.parse_keyed_array_value(&header, indent));
                         continue;
                     }
                 }
@@ -828,33 +795,9 @@ impl<'a> Parser<'a> {
                     if key.starts_with('[') {
                         let with_colon = format!("{}:", key);
                         if let Some(header) = parse_array_header(&with_colon) {
-                            // This is a root-level array at this indent
                             if header.key.is_none() {
-                                let header_line_no = self.idx + 1;
                                 self.next();
-                                if let Some(ref fields) = header.fields {
-                                    let fields_refs: Vec<&str> =
-                                        fields.iter().map(|s| s.as_str()).collect();
-                                    return self.parse_tabular_rows(
-                                        header.length,
-                                        header.delimiter,
-                                        &fields_refs,
-                                        indent + self.indent_size,
-                                        header_line_no,
-                                    );
-                                }
-                                if let Some(ref inline) = header.inline_values {
-                                    if !inline.is_empty() {
-                                        let values = split_delim_aware(inline, header.delimiter);
-                                        return Value::Array(
-                                            values
-                                                .into_iter()
-                                                .map(|v| self.parse_scalar_token(v))
-                                                .collect(),
-                                        );
-                                    }
-                                }
-                                return self.parse_array(indent);
+                                return self.parse_keyed_array_value(&header, indent);
                             }
                         }
                     }
@@ -865,18 +808,7 @@ impl<'a> Parser<'a> {
                     if let Some(header) = parse_array_header(&combined) {
                         if header.key.is_none() {
                             self.next();
-                            if let Some(ref inline) = header.inline_values {
-                                if !inline.is_empty() {
-                                    let values = split_delim_aware(inline, header.delimiter);
-                                    return Value::Array(
-                                        values
-                                            .into_iter()
-                                            .map(|v| self.parse_scalar_token(v))
-                                            .collect(),
-                                    );
-                                }
-                            }
-                            return Value::Array(Vec::new());
+                            return self.parse_keyed_array_value(&header, indent);
                         }
                     }
                 }
@@ -965,50 +897,11 @@ impl<'a> Parser<'a> {
     }
 
     fn parse_root_array_with_header(&mut self, header: ArrayHeader) -> Value {
-        let line_no = self.idx + 1;
         self.next(); // Consume header line
-
-        if let Some(ref fields) = header.fields {
-            // Tabular array - rows one level deeper
-            let fields_refs: Vec<&str> = fields.iter().map(|s| s.as_str()).collect();
-            return self.parse_tabular_rows(
-                header.length,
-                header.delimiter,
-                &fields_refs,
-                self.indent_size,
-                line_no,
-            );
-        }
-
-        if let Some(ref inline) = header.inline_values {
-            if !inline.is_empty() {
-                // Inline primitive array
-                let values = split_delim_aware(inline, header.delimiter);
-                // Validate array length
-                if values.len() != header.length {
-                    self.error = Some(crate::error::Error::Syntax {
-                        line: line_no,
-                        message: format!(
-                            "array length mismatch: header declares {} elements but found {}",
-                            header.length,
-                            values.len()
-                        ),
-                    });
-                }
-                return Value::Array(
-                    values
-                        .into_iter()
-                        .map(|v| self.parse_scalar_token(v))
-                        .collect(),
-                );
-            }
-        }
-
-        // Expanded array with list items one level deeper
-        self.parse_array_with_length_check(self.indent_size, header.length, line_no)
+        self.parse_keyed_array_value(&header, 0)
     }
 
-    /// Parse the value for a keyed array header found on a line at `indent`
+    /// Parse the value for an array header (keyed or not) found on a line at `indent`
     fn parse_keyed_array_value(&mut self, header: &ArrayHeader, indent: usize) -> Value {
         let header_line_no = self.idx; // Header was already consumed
 
-- 
2.43.0


From 485552902da2d92883b877f061eb35a4476e3c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 14/33] fix: strict mode rejects content it would otherwise
 drop silently

---
 crates/toon/src/decode/parser.rs | 40 +++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index d457f45..12ac448 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -825,6 +825,12 @@ impl<'a> Parser<'a> {
     }
 
     pub fn parse_document(&mut self) -> Value {
+        let value = self.parse_root();
+        self.check_fully_consumed();
+        value
+    }
+
+    fn parse_root(&mut self) -> Value {
         self.skip_blanks();
         if self.peek().is_none() {
             // Empty document represents an empty object (root documents are implicitly objects)
@@ -875,25 +881,27 @@ impl<'a> Parser<'a> {
         }
 
         let indent = self.peek().unwrap().indent;
-        let result = self.parse_node(indent);
+        self.parse_node(indent)
+    }
 
-        // In strict mode, check for multiple root-level scalars
-        if self.strict && self.error.is_none() {
-            self.skip_blanks();
-            if let Some(next_line) = self.peek() {
-                if next_line.indent == indent {
-                    if let LineKind::Scalar(_) = &next_line.kind {
-                        // Two scalars at root level in strict mode is an error
-                        self.error = Some(crate::error::Error::Syntax {
-                            line: self.idx + 1,
-                            message: "two primitives at root depth in strict mode".to_string(),
-                        });
-                    }
+    /// In strict mode, content after the root value is an error rather than ignored.
+    fn check_fully_consumed(&mut self) {
+        if !self.strict || self.error.is_some() {
+            return;
+        }
+        self.skip_blanks();
+        if let Some(next_line) = self.peek() {
+            let message = match next_line.kind {
+                LineKind::Scalar(_) if next_line.indent == 0 => {
+                    "two primitives at root depth in strict mode"
                 }
-            }
+                _ => "unexpected content after the root value",
+            };
+            self.error = Some(crate::error::Error::Syntax {
+                line: self.idx + 1,
+                message: message.to_string(),
+            });
         }
-
-        result
     }
 
     fn parse_root_array_with_header(&mut self, header: ArrayHeader) -> Value {
-- 
2.43.0


From 2274e718dfd34e746dee27353e8dc09367206f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:30 +0000
Subject: [PATCH 15/33] fix: detect key folding collisions at the root and
 inside list items

---
 crates/toon/src/encode/encoders.rs | 35 +++++++++++++-----------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/crates/toon/src/encode/encoders.rs b/crates/toon/src/encode/encoders.rs
index 21a537f..0e4cd3e 100644
--- a/crates/toon/src/encode/encoders.rs
+++ b/crates/toon/src/encode/encoders.rs
@@ -42,8 +42,9 @@ pub fn encode_value(
                 // Empty object: just key: with nothing following
                 // (when nested, the parent emits "key:" and this produces no additional lines)
             } else {
+                let sibling_keys: Vec<String> = obj.keys().cloned().collect();
                 for (k, v) in obj {
-                    encode_object_field_internal(k, v, w, opts, indent)?;
+                    encode_object_field_with_siblings(k, v, w, opts, indent, &sibling_keys)?;
                 }
             }
         }
@@ -51,17 +52,6 @@ pub fn encode_value(
     Ok(())
 }
 
-/// Encode an object field (key-value pair) - internal version without sibling context
-fn encode_object_field_internal(
-    key: &str,
-    value: &Value,
-    w: &mut LineWriter,
-    opts: &Options,
-    indent: usize,
-) -> Result<()> {
-    encode_object_field_with_context(key, value, w, opts, indent, None)
-}
-
 /// Encode an object field (key-value pair) - public API for streaming serializer
 pub fn encode_object_field(
     key: &str,
@@ -587,6 +577,7 @@ fn encode_list_item_object(
         return Ok(());
     }
 
+    let sibling_keys: Vec<String> = obj.keys().cloned().collect();
     let mut iter = obj.iter();
     let (first_key, first_value) = iter.next().unwrap();
     let first_key_fmt = primitives::format_key(first_key);
@@ -621,7 +612,14 @@ fn encode_list_item_object(
 
             // Other fields at depth+1 (indent + opts.indent)
             for (k, v) in iter {
-                encode_object_field(k, v, w, opts, indent + opts.indent)?;
+                encode_object_field_with_siblings(
+                    k,
+                    v,
+                    w,
+                    opts,
+                    indent + opts.indent,
+                    &sibling_keys,
+                )?;
             }
             return Ok(());
         }
@@ -688,19 +686,16 @@ fn encode_list_item_object(
                 }
             }
         }
-        Value::Object(inner_obj) => {
+        Value::Object(_) => {
             w.line(indent, &format!("- {}:", first_key_fmt));
-            if !inner_obj.is_empty() {
-                for (k, v) in inner_obj {
-                    encode_object_field(k, v, w, opts, indent + 2 * opts.indent)?;
-                }
-            }
+            // Nested fields, two levels below the hyphen
+            encode_value(first_value, w, opts, indent + 2 * opts.indent)?;
         }
     }
 
     // Remaining fields at depth+1 (indent + opts.indent)
     for (k, v) in iter {
-        encode_object_field(k, v, w, opts, indent + opts.indent)?;
+        encode_object_field_with_siblings(k, v, w, opts, indent + opts.indent, &sibling_keys)?;
     }
     Ok(())
 }
-- 
2.43.0


From 55a6a0ac147af2a947420d8265e58287c1ca3120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 16/33] fix: streaming encoder writes arrays like the value
 encoder (key folding inside list items)

---
 crates/toon/src/ser/stream.rs | 468 +---------------------------------
 1 file changed, 9 insertions(+), 459 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 7fd0964..2c69df5 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -291,72 +291,13 @@ impl<'a, 'de> SerializeSeq for SeqSer<'a, 'de> {
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        let delim = self.parent.opts.delimiter;
-        let dch = primitives::delimiter_char(delim);
-        let len = self.items.len();
-
-        if let Some(keys) = crate::encode::encoders::is_tabular_array(&self.items) {
-            // Tabular: [N]{f1,f2,...}:
-            let field_cells: Vec<String> = keys.iter().map(|k| primitives::format_key(k)).collect();
-            let header = primitives::format_tabular_header(len, &field_cells, delim);
-            self.parent.w.line(self.parent.indent, &header);
-
-            // Rows at indent+2
-            for item in &self.items {
-                let obj = item.as_object().unwrap();
-                let cells: Vec<String> = keys
-                    .iter()
-                    .map(|k| {
-                        let v = obj.get(k).unwrap();
-                        format_primitive_value_json(v, delim)
-                    })
-                    .collect();
-                let row = join_with_delim(&cells, dch);
-                self.parent
-                    .w
-                    .line(self.parent.indent + self.parent.opts.indent, &row);
-            }
-            Ok(())
-        } else if self.items.is_empty() {
-            // Empty array: [0]:
-            self.parent.w.line(
-                self.parent.indent,
-                &primitives::format_expanded_array_header(0, delim),
-            );
-            Ok(())
-        } else if is_primitive_array_json(&self.items) {
-            // Inline primitive array: [N]: v1,v2,v3
-            let values: Vec<String> = self
-                .items
-                .iter()
-                .map(|v| format_primitive_value_json(v, delim))
-                .collect();
-            let inline = join_with_delim(&values, dch);
-            self.parent.w.line(
-                self.parent.indent,
-                &format!(
-                    "{}: {}",
-                    primitives::format_bracket_segment(len, delim),
-                    inline
-                ),
-            );
-            Ok(())
-        } else {
-            // Mixed array: [N]: with list items
-            self.parent.w.line(
-                self.parent.indent,
-                &primitives::format_expanded_array_header(len, delim),
-            );
-            for item in &self.items {
-                encode_list_item_json(
-                    item,
-                    self.parent.w,
-                    self.parent.opts,
-                    self.parent.indent + self.parent.opts.indent,
-                )?;
-            }
-            Ok(())
-        }
+        crate::encode::encoders::encode_value(
+            &Value::Array(self.items),
+            self.parent.w,
+            self.parent.opts,
+            self.parent.indent,
+        )
+        .map_err(|e| SerError::custom(e.to_string()))
     }
 }
 
@@ -568,23 +509,10 @@ impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
             return Ok(());
         }
 
-        // Try to serialize to Value to detect arrays
+        // Otherwise encode it like any other value
         #[cfg(feature = "json")]
         {
             let val = crate::ser::value_builder::to_value(value, self.parent.opts);
-            if let Value::Array(items) = val {
-                // Use spec-compliant keyed array encoding
-                encode_keyed_array_json(
-                    &key_fmt,
-                    &items,
-                    self.parent.w,
-                    self.parent.opts,
-                    self.parent.indent,
-                )?;
-                self.entry_count += 1;
-                return Ok(());
-            }
-            // For objects, use encode_object_field which handles key folding
             crate::encode::encoders::encode_object_field(
                 &key,
                 &val,
@@ -683,389 +611,11 @@ impl<'a, 'de> SerializeStructVariant for MapSer<'a, 'de> {
     }
 }
 
+#[cfg(not(feature = "json"))]
 fn join_with_delim(cells: &[String], dch: char) -> String {
     cells.join(&dch.to_string())
 }
 
-#[cfg(feature = "json")]
-fn is_primitive_array_json(items: &[Value]) -> bool {
-    items.iter().all(|v| {
-        matches!(
-            v,
-            Value::Null | Value::Bool(_) | Value::Number(_) | Value::String(_)
-        )
-    })
-}
-
-#[cfg(feature = "json")]
-fn format_primitive_value_json(v: &Value, delim: crate::options::Delimiter) -> String {
-    match v {
-        Value::Null => primitives::format_null().to_string(),
-        Value::Bool(b) => primitives::format_bool(*b).to_string(),
-        Value::Number(n) => primitives::format_number(n),
-        Value::String(s) => primitives::format_string(s, delim),
-        _ => "null".to_string(),
-    }
-}
-
-#[cfg(feature = "json")]
-fn encode_list_item_json(
-    item: &Value,
-    w: &mut LineWriter,
-    opts: &Options,
-    indent: usize,
-) -> Result<(), SerError> {
-    match item {
-        Value::Null => w.line_list_item(indent, primitives::format_null()),
-        Value::Bool(b) => w.line_list_item(indent, primitives::format_bool(*b)),
-        Value::Number(n) => w.line_list_item(indent, &primitives::format_number(n)),
-        Value::String(s) => w.line_list_item(indent, &primitives::format_string(s, opts.delimiter)),
-        Value::Array(items) => {
-            let len = items.len();
-            let delim = opts.delimiter;
-            let dch = primitives::delimiter_char(delim);
-            if items.is_empty() {
-                w.line_list_item(
-                    indent,
-                    &format!("{}:", primitives::format_bracket_segment(0, delim)),
-                );
-            } else if is_primitive_array_json(items) {
-                let values: Vec<String> = items
-                    .iter()
-                    .map(|v| format_primitive_value_json(v, delim))
-                    .collect();
-                let inline = join_with_delim(&values, dch);
-                w.line_list_item(
-                    indent,
-                    &format!(
-                        "{}: {}",
-                        primitives::format_bracket_segment(len, delim),
-                        inline
-                    ),
-                );
-            } else {
-                w.line_list_item(
-                    indent,
-                    &primitives::format_expanded_array_header(len, delim),
-                );
-                for inner in items {
-                    encode_list_item_json(inner, w, opts, indent + opts.indent)?;
-                }
-            }
-        }
-        Value::Object(obj) => {
-            if obj.is_empty() {
-                w.line(indent, "-");
-                return Ok(());
-            }
-            let mut iter = obj.iter();
-            let (first_key, first_value) = iter.next().unwrap();
-            let first_key_fmt = primitives::format_key(first_key);
-
-            // Special case: first field is a tabular array (§10)
-            if let Value::Array(items) = first_value {
-                if let Some(keys) = crate::encode::encoders::is_tabular_array(items) {
-                    let delim = opts.delimiter;
-                    let dch = primitives::delimiter_char(delim);
-                    let field_cells: Vec<String> =
-                        keys.iter().map(|k| primitives::format_key(k)).collect();
-                    let header = format!(
-                        "{}{}",
-                        first_key_fmt,
-                        primitives::format_tabular_header(items.len(), &field_cells, delim)
-                    );
-                    w.line_list_item(indent, &header);
-
-                    // Rows at indent + 2 * opts.indent
-                    for item in items {
-                        let inner_obj = item.as_object().unwrap();
-                        let cells: Vec<String> = keys
-                            .iter()
-                            .map(|k| {
-                                let v = inner_obj.get(k).unwrap();
-                                format_primitive_value_json(v, delim)
-                            })
-                            .collect();
-                        let row = join_with_delim(&cells, dch);
-                        w.line(indent + 2 * opts.indent, &row);
-                    }
-
-                    // Remaining fields at depth + 1 (indent + opts.indent)
-                    for (k, v) in iter {
-                        let key_fmt = primitives::format_key(k);
-                        match v {
-                            Value::Null => {
-                                w.line_kv(indent + opts.indent, &key_fmt, primitives::format_null())
-                            }
-                            Value::Bool(b) => w.line_kv(
-                                indent + opts.indent,
-                                &key_fmt,
-                                primitives::format_bool(*b),
-                            ),
-                            Value::Number(n) => w.line_kv(
-                                indent + opts.indent,
-                                &key_fmt,
-                                &primitives::format_number(n),
-                            ),
-                            Value::String(s) => w.line_kv(
-                                indent + opts.indent,
-                                &key_fmt,
-                                &primitives::format_string(s, opts.delimiter),
-                            ),
-                            Value::Array(arr) => {
-                                encode_keyed_array_json(
-                                    &key_fmt,
-                                    arr,
-                                    w,
-                                    opts,
-                                    indent + opts.indent,
-                                )?;
-                            }
-                            Value::Object(_) => {
-                                w.line_key_only(indent + opts.indent, &key_fmt);
-                                crate::encode::encoders::encode_value(
-                                    v,
-                                    w,
-                                    opts,
-                                    indent + 2 * opts.indent,
-                                )
-                                .map_err(|e| SerError::custom(e.to_string()))?;
-                            }
-                        }
-                    }
-                    return Ok(());
-                }
-            }
-
-            // Standard case: first field on hyphen line
-            match first_value {
-                Value::Null => w.line(
-                    indent,
-                    &format!("- {}: {}", first_key_fmt, primitives::format_null()),
-                ),
-                Value::Bool(b) => w.line(
-                    indent,
-                    &format!("- {}: {}", first_key_fmt, primitives::format_bool(*b)),
-                ),
-                Value::Number(n) => w.line(
-                    indent,
-                    &format!("- {}: {}", first_key_fmt, primitives::format_number(n)),
-                ),
-                Value::String(s) => {
-                    let v = primitives::format_string(s, opts.delimiter);
-                    w.line(indent, &format!("- {}: {}", first_key_fmt, v));
-                }
-                Value::Array(items) => {
-                    // Non-tabular array as first field
-                    let len = items.len();
-                    let delim = opts.delimiter;
-                    if items.is_empty() {
-                        w.line(
-                            indent,
-                            &format!(
-                                "- {}{}:",
-                                first_key_fmt,
-                                primitives::format_bracket_segment(0, delim)
-                            ),
-                        );
-                    } else if is_primitive_array_json(items) {
-                        let dch = primitives::delimiter_char(delim);
-                        let values: Vec<String> = items
-                            .iter()
-                            .map(|v| format_primitive_value_json(v, delim))
-                            .collect();
-                        let inline = join_with_delim(&values, dch);
-                        w.line(
-                            indent,
-                            &format!(
-                                "- {}{}: {}",
-                                first_key_fmt,
-                                primitives::format_bracket_segment(len, delim),
-                                inline
-                            ),
-                        );
-                    } else {
-                        w.line(
-                            indent,
-                            &format!(
-                                "- {}{}",
-                                first_key_fmt,
-                                primitives::format_expanded_array_header(len, delim)
-                            ),
-                        );
-                        for inner in items {
-                            encode_list_item_json(inner, w, opts, indent + 2 * opts.indent)?;
-                        }
-                    }
-                }
-                Value::Object(inner_obj) => {
-                    w.line(indent, &format!("- {}:", first_key_fmt));
-                    if !inner_obj.is_empty() {
-                        for (k, v) in inner_obj {
-                            let key_fmt = primitives::format_key(k);
-                            match v {
-                                Value::Null => w.line_kv(
-                                    indent + 2 * opts.indent,
-                                    &key_fmt,
-                                    primitives::format_null(),
-                                ),
-                                Value::Bool(b) => w.line_kv(
-                                    indent + 2 * opts.indent,
-                                    &key_fmt,
-                                    primitives::format_bool(*b),
-                                ),
-                                Value::Number(n) => w.line_kv(
-                                    indent + 2 * opts.indent,
-                                    &key_fmt,
-                                    &primitives::format_number(n),
-                                ),
-                                Value::String(s) => w.line_kv(
-                                    indent + 2 * opts.indent,
-                                    &key_fmt,
-                                    &primitives::format_string(s, opts.delimiter),
-                                ),
-                                Value::Array(arr) => {
-                                    encode_keyed_array_json(
-                                        &key_fmt,
-                                        arr,
-                                        w,
-                                        opts,
-                                        indent + 2 * opts.indent,
-                                    )?;
-                                }
-                                Value::Object(_) => {
-                                    w.line_key_only(indent + 2 * opts.indent, &key_fmt);
-                                    crate::encode::encoders::encode_value(
-                                        v,
-                                        w,
-                                        opts,
-                                        indent + 3 * opts.indent,
-                                    )
-                                    .map_err(|e| SerError::custom(e.to_string()))?;
-                                }
-                            }
-                        }
-                    }
-                }
-            }
-
-            // Remaining fields at depth + 1 (indent + opts.indent)
-            for (k, v) in iter {
-                let key_fmt = primitives::format_key(k);
-                match v {
-                    Value::Null => {
-                        w.line_kv(indent + opts.indent, &key_fmt, primitives::format_null())
-                    }
-                    Value::Bool(b) => {
-                        w.line_kv(indent + opts.indent, &key_fmt, primitives::format_bool(*b))
-                    }
-                    Value::Number(n) => w.line_kv(
-                        indent + opts.indent,
-                        &key_fmt,
-                        &primitives::format_number(n),
-                    ),
-                    Value::String(s) => w.line_kv(
-                        indent + opts.indent,
-                        &key_fmt,
-                        &primitives::format_string(s, opts.delimiter),
-                    ),
-                    Value::Array(arr) => {
-                        encode_keyed_array_json(&key_fmt, arr, w, opts, indent + opts.indent)?;
-                    }
-                    Value::Object(_) => {
-                        w.line_key_only(indent + opts.indent, &key_fmt);
-                        crate::encode::encoders::encode_value(v, w, opts, indent + 2 * opts.indent)
-                            .map_err(|e| SerError::custom(e.to_string()))?;
-                    }
-                }
-            }
-        }
-    }
-    Ok(())
-}
-
-/// Encode a keyed array with spec-compliant format: key[N]: v1,v2 or key[N]{fields}:
-#[cfg(feature = "json")]
-fn encode_keyed_array_json(
-    key: &str,
-    items: &[Value],
-    w: &mut LineWriter,
-    opts: &Options,
-    indent: usize,
-) -> Result<(), SerError> {
-    let len = items.len();
-    let delim = opts.delimiter;
-    let dch = primitives::delimiter_char(delim);
-
-    if items.is_empty() {
-        // Empty array: key[0]:
-        w.line(
-            indent,
-            &format!("{}{}:", key, primitives::format_bracket_segment(0, delim)),
-        );
-        return Ok(());
-    }
-
-    // Check for tabular array
-    if let Some(keys) = crate::encode::encoders::is_tabular_array(items) {
-        let field_cells: Vec<String> = keys.iter().map(|k| primitives::format_key(k)).collect();
-        let header = format!(
-            "{}{}",
-            key,
-            primitives::format_tabular_header(len, &field_cells, delim)
-        );
-        w.line(indent, &header);
-
-        // Rows at indent+2
-        for item in items {
-            let obj = item.as_object().unwrap();
-            let cells: Vec<String> = keys
-                .iter()
-                .map(|k| {
-                    let v = obj.get(k).unwrap();
-                    format_primitive_value_json(v, delim)
-                })
-                .collect();
-            let row = join_with_delim(&cells, dch);
-            w.line(indent + opts.indent, &row);
-        }
-        return Ok(());
-    }
-
-    // Check for inline primitive array
-    if is_primitive_array_json(items) {
-        let values: Vec<String> = items
-            .iter()
-            .map(|v| format_primitive_value_json(v, delim))
-            .collect();
-        let inline = join_with_delim(&values, dch);
-        w.line(
-            indent,
-            &format!(
-                "{}{}: {}",
-                key,
-                primitives::format_bracket_segment(len, delim),
-                inline
-            ),
-        );
-        return Ok(());
-    }
-
-    // Mixed/complex array: key[N]: with list items
-    w.line(
-        indent,
-        &format!(
-            "{}{}",
-            key,
-            primitives::format_expanded_array_header(len, delim)
-        ),
-    );
-    for item in items {
-        encode_list_item_json(item, w, opts, indent + opts.indent)?;
-    }
-    Ok(())
-}
-
 #[cfg(not(feature = "json"))]
 fn is_primitive_array_alloc(items: &[IValue]) -> bool {
     items.iter().all(|v| v.is_primitive())
-- 
2.43.0


From 97d13b87d8dfb49df165920a536cc6541a23d343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 17/33] fix: streaming a struct with key folding wrote nothing

---
 crates/toon/src/ser/stream.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 2c69df5..55e1f01 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -590,7 +590,8 @@ impl<'a, 'de> SerializeStruct for MapSer<'a, 'de> {
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(())
+        // Emits the entries buffered for key folding
+        SerializeMap::end(self)
     }
 }
 
-- 
2.43.0


From 9ec5af16b45bd47cb23de3ae2b8dc27304b46f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 18/33] fix: report serialization errors instead of writing
 null in place of the value

---
 crates/toon/src/decode/parser.rs           |  4 +++-
 crates/toon/src/ser/mod.rs                 |  2 +-
 crates/toon/src/ser/stream.rs              | 15 ++++++++++-----
 crates/toon/src/ser/value_builder.rs       |  7 +++++--
 crates/toon/src/ser/value_builder_alloc.rs | 14 ++++++++------
 5 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 12ac448..2541efa 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -706,7 +706,9 @@ impl<'a> Parser<'a> {
                     self.next();
 
                     let row_trimmed = rs.trim_end();
-                    if self.strict && row_trimmed.as_bytes().last().copied() == Some(delimiter_byte(dch)) {
+                    if self.strict
+                        && row_trimmed.as_bytes().last().copied() == Some(delimiter_byte(dch))
+                    {
                         self.error = Some(crate::error::Error::Syntax {
                             line: row_line,
                             message: "trailing delimiter in row".to_string(),
diff --git a/crates/toon/src/ser/mod.rs b/crates/toon/src/ser/mod.rs
index a8f1be0..62af8e6 100644
--- a/crates/toon/src/ser/mod.rs
+++ b/crates/toon/src/ser/mod.rs
@@ -18,7 +18,7 @@ mod value_builder_alloc;
 // Non-streaming encoding via serde_json::Value is only available with "json"
 #[cfg(all(feature = "serde", feature = "json"))]
 pub fn to_string<T: Serialize>(value: &T, options: &Options) -> Result<String> {
-    let v = value_builder::to_value(value, options);
+    let v = value_builder::to_value(value, options)?;
     crate::encode::encode_value_to_string(&v, options)
 }
 
diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 55e1f01..0985f07 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -285,7 +285,8 @@ impl<'a, 'de> SerializeSeq for SeqSer<'a, 'de> {
     type Error = SerError;
 
     fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        let val = crate::ser::value_builder::to_value(value, self.parent.opts);
+        let val = crate::ser::value_builder::to_value(value, self.parent.opts)
+            .map_err(SerError::custom)?;
         self.items.push(val);
         Ok(())
     }
@@ -352,7 +353,8 @@ impl<'a, 'de> SerializeSeq for SeqSerAlloc<'a, 'de> {
     type Error = SerError;
 
     fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        let v = crate::ser::value_builder_alloc::to_value(value, self.parent.opts);
+        let v = crate::ser::value_builder_alloc::to_value(value, self.parent.opts)
+            .map_err(SerError::custom)?;
         self.items.push(v);
         Ok(())
     }
@@ -491,7 +493,8 @@ impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
         // When key folding is enabled, buffer entries for collision detection
         #[cfg(feature = "json")]
         if self.parent.opts.key_folding == crate::options::KeyFolding::Safe {
-            let val = crate::ser::value_builder::to_value(value, self.parent.opts);
+            let val = crate::ser::value_builder::to_value(value, self.parent.opts)
+                .map_err(SerError::custom)?;
             if self.buffered.is_none() {
                 self.buffered = Some(Vec::new());
             }
@@ -512,7 +515,8 @@ impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
         // Otherwise encode it like any other value
         #[cfg(feature = "json")]
         {
-            let val = crate::ser::value_builder::to_value(value, self.parent.opts);
+            let val = crate::ser::value_builder::to_value(value, self.parent.opts)
+                .map_err(SerError::custom)?;
             crate::encode::encoders::encode_object_field(
                 &key,
                 &val,
@@ -527,7 +531,8 @@ impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
 
         #[cfg(not(feature = "json"))]
         {
-            let val = crate::ser::value_builder_alloc::to_value(value, self.parent.opts);
+            let val = crate::ser::value_builder_alloc::to_value(value, self.parent.opts)
+                .map_err(SerError::custom)?;
             if let IValue::Array(items) = val {
                 // Use spec-compliant keyed array encoding
                 encode_keyed_array_alloc(
diff --git a/crates/toon/src/ser/value_builder.rs b/crates/toon/src/ser/value_builder.rs
index 32e4475..1be194c 100644
--- a/crates/toon/src/ser/value_builder.rs
+++ b/crates/toon/src/ser/value_builder.rs
@@ -30,9 +30,12 @@ use serde_json::{Map, Number, Value};
 
 use crate::options::Options;
 
-pub fn to_value<T: Serialize + ?Sized>(value: &T, _options: &Options) -> Value {
+pub fn to_value<T: Serialize + ?Sized>(
+    value: &T,
+    _options: &Options,
+) -> Result<Value, serde_json::Error> {
     let mut ser = ValueSerializer;
-    value.serialize(&mut ser).unwrap_or(Value::Null)
+    value.serialize(&mut ser)
 }
 
 struct ValueSerializer;
diff --git a/crates/toon/src/ser/value_builder_alloc.rs b/crates/toon/src/ser/value_builder_alloc.rs
index 443942a..aeb41b4 100644
--- a/crates/toon/src/ser/value_builder_alloc.rs
+++ b/crates/toon/src/ser/value_builder_alloc.rs
@@ -11,23 +11,25 @@ use serde::ser::*;
 use crate::options::Options;
 use crate::value::{Number, Value};
 
-pub fn to_value<T: Serialize + ?Sized>(value: &T, _options: &Options) -> Value {
+pub fn to_value<T: Serialize + ?Sized>(value: &T, _options: &Options) -> Result<Value, BuildError> {
     let mut ser = ValueSerializer;
-    value.serialize(&mut ser).unwrap_or(Value::Null)
+    value.serialize(&mut ser)
 }
 
 struct ValueSerializer;
 
 #[derive(Debug)]
-pub struct BuildError;
+pub struct BuildError {
+    msg: String,
+}
 impl core::fmt::Display for BuildError {
     fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
-        f.write_str("ser error")
+        f.write_str(&self.msg)
     }
 }
 impl serde::ser::Error for BuildError {
-    fn custom<T: core::fmt::Display>(_t: T) -> Self {
-        BuildError
+    fn custom<T: core::fmt::Display>(t: T) -> Self {
+        BuildError { msg: t.to_string() }
     }
 }
 impl core::error::Error for BuildError {}
-- 
2.43.0


From dabfe2602a23f60741a4c1f9c97069ce9f1bbd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 19/33] fix: streaming encoder writes non-finite floats in
 fields as null, as documented

---
 crates/toon/src/ser/stream.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 0985f07..891ba30 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -1147,12 +1147,8 @@ impl<'a, 'de> Serializer for &'a mut ScalarSerializer<'de> {
     fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error> {
         if v.is_finite() {
             self.out = Some(primitives::format_f64(v));
-        } else if v.is_nan() {
-            self.out = Some(primitives::escape_and_quote("NaN"));
-        } else if v.is_sign_positive() {
-            self.out = Some(primitives::escape_and_quote("Infinity"));
         } else {
-            self.out = Some(primitives::escape_and_quote("-Infinity"));
+            self.out = Some(primitives::format_null().to_string());
         }
         Ok(())
     }
-- 
2.43.0


From 506c82e989e8b2c574b6269b8d516646fce6b23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:48 +0000
Subject: [PATCH 20/33] fix: accept wrapped map keys when streaming and write
 the same key text on both encode paths

---
 crates/toon/src/ser/stream.rs              | 17 ++++++++++-------
 crates/toon/src/ser/value_builder.rs       |  6 ++++--
 crates/toon/src/ser/value_builder_alloc.rs | 11 +++--------
 3 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 891ba30..161ee7e 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -1305,11 +1305,14 @@ impl Serializer for &mut KeySerializer {
         Ok(())
     }
     fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error> {
-        self.out = Some(primitives::format_f64(v as f64));
-        Ok(())
+        self.serialize_f64(v as f64)
     }
     fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error> {
-        self.out = Some(primitives::format_f64(v));
+        self.out = Some(if v.is_finite() {
+            primitives::format_f64(v)
+        } else {
+            primitives::format_null().to_string()
+        });
         Ok(())
     }
     fn serialize_char(self, v: char) -> Result<Self::Ok, Self::Error> {
@@ -1327,8 +1330,8 @@ impl Serializer for &mut KeySerializer {
         self.out = Some("null".into());
         Ok(())
     }
-    fn serialize_some<T: ?Sized + Serialize>(self, _value: &T) -> Result<Self::Ok, Self::Error> {
-        Err(SerError::custom("invalid key"))
+    fn serialize_some<T: ?Sized + Serialize>(self, value: &T) -> Result<Self::Ok, Self::Error> {
+        value.serialize(self)
     }
     fn serialize_unit(self) -> Result<Self::Ok, Self::Error> {
         self.out = Some("null".into());
@@ -1348,9 +1351,9 @@ impl Serializer for &mut KeySerializer {
     fn serialize_newtype_struct<T: ?Sized + Serialize>(
         self,
         _name: &'static str,
-        _value: &T,
+        value: &T,
     ) -> Result<Self::Ok, Self::Error> {
-        Err(SerError::custom("invalid key"))
+        value.serialize(self)
     }
     fn serialize_newtype_variant<T: ?Sized + Serialize>(
         self,
diff --git a/crates/toon/src/ser/value_builder.rs b/crates/toon/src/ser/value_builder.rs
index 1be194c..c8af8a1 100644
--- a/crates/toon/src/ser/value_builder.rs
+++ b/crates/toon/src/ser/value_builder.rs
@@ -267,7 +267,7 @@ impl SerializeMap for MapSerializer {
         let v = key.serialize(&mut ser)?;
         let s = match v {
             Value::String(s) => s,
-            Value::Number(n) => n.to_string(),
+            Value::Number(n) => crate::encode::primitives::format_number(&n),
             Value::Bool(b) => {
                 if b {
                     "true".into()
@@ -276,7 +276,9 @@ impl SerializeMap for MapSerializer {
                 }
             }
             Value::Null => "null".into(),
-            other => other.to_string(),
+            Value::Array(_) | Value::Object(_) => {
+                return Err(serde::ser::Error::custom("invalid key"));
+            }
         };
         self.next_key = Some(s);
         Ok(())
diff --git a/crates/toon/src/ser/value_builder_alloc.rs b/crates/toon/src/ser/value_builder_alloc.rs
index aeb41b4..4eddf3b 100644
--- a/crates/toon/src/ser/value_builder_alloc.rs
+++ b/crates/toon/src/ser/value_builder_alloc.rs
@@ -1,6 +1,5 @@
 #[cfg(not(feature = "std"))]
 use alloc::{
-    format,
     string::{String, ToString},
     vec::Vec,
 };
@@ -266,13 +265,9 @@ impl SerializeMap for MapSerializer {
                 }
             }
             Value::Null => "null".into(),
-            other => format!(
-                "{}",
-                match other {
-                    Value::String(s) => s,
-                    _ => String::new(),
-                }
-            ),
+            Value::Array(_) | Value::Object(_) => {
+                return Err(serde::ser::Error::custom("invalid key"));
+            }
         };
         self.next_key = Some(s);
         Ok(())
-- 
2.43.0


From 8784ef45ee54285665c90f98f076bc9871515724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 21/33] fix: enum variants with data keep their name and
 nesting when encoded

---
 crates/toon/src/ser/stream.rs              | 162 ++++++++++-----------
 crates/toon/src/ser/value_builder.rs       |  26 +++-
 crates/toon/src/ser/value_builder_alloc.rs |  26 +++-
 3 files changed, 116 insertions(+), 98 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 161ee7e..5981109 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -9,6 +9,11 @@ use crate::options::Options;
 #[cfg(not(feature = "json"))]
 use crate::value::Value as IValue;
 
+#[cfg(feature = "json")]
+use crate::ser::value_builder as builder;
+#[cfg(not(feature = "json"))]
+use crate::ser::value_builder_alloc as builder;
+
 #[cfg(not(feature = "std"))]
 use alloc::{
     format,
@@ -59,12 +64,15 @@ struct StreamingSerializer<'a> {
 }
 
 impl<'a> StreamingSerializer<'a> {
-    fn with_indent<'b>(&'b mut self, indent: usize) -> StreamingSerializer<'b> {
-        StreamingSerializer {
-            w: self.w,
-            opts: self.opts,
-            indent,
-        }
+    #[cfg(feature = "json")]
+    fn write_built(&mut self, value: Value) -> Result<(), SerError> {
+        crate::encode::encoders::encode_value(&value, self.w, self.opts, self.indent)
+            .map_err(|e| SerError::custom(e.to_string()))
+    }
+
+    #[cfg(not(feature = "json"))]
+    fn write_built(&mut self, value: IValue) -> Result<(), SerError> {
+        encode_internal_value_alloc(&value, self.w, self.opts, self.indent)
     }
 }
 
@@ -87,14 +95,10 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
     #[cfg(not(feature = "json"))]
     type SerializeTupleStruct = SeqSerAlloc<'a, 'de>;
 
-    #[cfg(feature = "json")]
-    type SerializeTupleVariant = SeqSer<'a, 'de>;
-    #[cfg(not(feature = "json"))]
-    type SerializeTupleVariant = SeqSerAlloc<'a, 'de>;
-
+    type SerializeTupleVariant = VariantSer<'a, 'de, builder::TupleVariantSerializer>;
     type SerializeMap = MapSer<'a, 'de>;
     type SerializeStruct = MapSer<'a, 'de>;
-    type SerializeStructVariant = MapSer<'a, 'de>;
+    type SerializeStructVariant = VariantSer<'a, 'de, builder::StructVariantSerializer>;
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok, Self::Error> {
         self.w.line(self.indent, primitives::format_bool(v));
@@ -189,17 +193,15 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
     }
     fn serialize_newtype_variant<T: ?Sized + Serialize>(
         self,
-        _name: &'static str,
-        _variant_index: u32,
+        name: &'static str,
+        variant_index: u32,
         variant: &'static str,
         value: &T,
     ) -> Result<Self::Ok, Self::Error> {
-        self.w.line_key_only(
-            self.indent,
-            &primitives::format_string(variant, self.opts.delimiter),
-        );
-        let mut child = self.with_indent(self.indent + self.opts.indent);
-        value.serialize(&mut child)
+        let built = builder::ValueSerializer
+            .serialize_newtype_variant(name, variant_index, variant, value)
+            .map_err(SerError::custom)?;
+        self.write_built(built)
     }
     fn serialize_seq(self, _len: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
         #[cfg(feature = "json")]
@@ -229,12 +231,18 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
     }
     fn serialize_tuple_variant(
         self,
-        _name: &'static str,
-        _variant_index: u32,
+        name: &'static str,
+        variant_index: u32,
         variant: &'static str,
         len: usize,
     ) -> Result<Self::SerializeTupleVariant, Self::Error> {
-        self.serialize_tuple_struct(variant, len)
+        let inner = builder::ValueSerializer
+            .serialize_tuple_variant(name, variant_index, variant, len)
+            .map_err(SerError::custom)?;
+        Ok(VariantSer {
+            parent: self,
+            inner,
+        })
     }
     fn serialize_map(self, _len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
         Ok(MapSer {
@@ -254,25 +262,59 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
     }
     fn serialize_struct_variant(
         self,
-        _name: &'static str,
-        _variant_index: u32,
+        name: &'static str,
+        variant_index: u32,
         variant: &'static str,
-        _len: usize,
+        len: usize,
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
-        self.w.line_key_only(
-            self.indent,
-            &primitives::format_string(variant, self.opts.delimiter),
-        );
-        Ok(MapSer {
+        let inner = builder::ValueSerializer
+            .serialize_struct_variant(name, variant_index, variant, len)
+            .map_err(SerError::custom)?;
+        Ok(VariantSer {
             parent: self,
-            next_key: None,
-            entry_count: 0,
-            #[cfg(feature = "json")]
-            buffered: None,
+            inner,
         })
     }
 }
 
+/// Enum variants with data are objects with the variant name as their only key; the content is
+/// built first and written when complete.
+struct VariantSer<'a, 'de, B> {
+    parent: &'a mut StreamingSerializer<'de>,
+    inner: B,
+}
+
+impl SerializeTupleVariant for VariantSer<'_, '_, builder::TupleVariantSerializer> {
+    type Ok = ();
+    type Error = SerError;
+
+    fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
+        SerializeTupleVariant::serialize_field(&mut self.inner, value).map_err(SerError::custom)
+    }
+    fn end(self) -> Result<Self::Ok, Self::Error> {
+        let built = SerializeTupleVariant::end(self.inner).map_err(SerError::custom)?;
+        self.parent.write_built(built)
+    }
+}
+
+impl SerializeStructVariant for VariantSer<'_, '_, builder::StructVariantSerializer> {
+    type Ok = ();
+    type Error = SerError;
+
+    fn serialize_field<T: ?Sized + Serialize>(
+        &mut self,
+        key: &'static str,
+        value: &T,
+    ) -> Result<(), Self::Error> {
+        SerializeStructVariant::serialize_field(&mut self.inner, key, value)
+            .map_err(SerError::custom)
+    }
+    fn end(self) -> Result<Self::Ok, Self::Error> {
+        let built = SerializeStructVariant::end(self.inner).map_err(SerError::custom)?;
+        self.parent.write_built(built)
+    }
+}
+
 #[cfg(feature = "json")]
 struct SeqSer<'a, 'de> {
     parent: &'a mut StreamingSerializer<'de>,
@@ -292,13 +334,7 @@ impl<'a, 'de> SerializeSeq for SeqSer<'a, 'de> {
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        crate::encode::encoders::encode_value(
-            &Value::Array(self.items),
-            self.parent.w,
-            self.parent.opts,
-            self.parent.indent,
-        )
-        .map_err(|e| SerError::custom(e.to_string()))
+        self.parent.write_built(Value::Array(self.items))
     }
 }
 
@@ -328,19 +364,6 @@ impl<'a, 'de> SerializeTupleStruct for SeqSer<'a, 'de> {
     }
 }
 
-#[cfg(feature = "json")]
-impl<'a, 'de> SerializeTupleVariant for SeqSer<'a, 'de> {
-    type Ok = ();
-    type Error = SerError;
-
-    fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        SerializeSeq::serialize_element(self, value)
-    }
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        SerializeSeq::end(self)
-    }
-}
-
 #[cfg(not(feature = "json"))]
 struct SeqSerAlloc<'a, 'de> {
     parent: &'a mut StreamingSerializer<'de>,
@@ -456,18 +479,6 @@ impl<'a, 'de> SerializeTupleStruct for SeqSerAlloc<'a, 'de> {
     }
 }
 
-#[cfg(not(feature = "json"))]
-impl<'a, 'de> SerializeTupleVariant for SeqSerAlloc<'a, 'de> {
-    type Ok = ();
-    type Error = SerError;
-    fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        SerializeSeq::serialize_element(self, value)
-    }
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(())
-    }
-}
-
 struct MapSer<'a, 'de> {
     parent: &'a mut StreamingSerializer<'de>,
     next_key: Option<String>,
@@ -600,23 +611,6 @@ impl<'a, 'de> SerializeStruct for MapSer<'a, 'de> {
     }
 }
 
-impl<'a, 'de> SerializeStructVariant for MapSer<'a, 'de> {
-    type Ok = ();
-    type Error = SerError;
-
-    fn serialize_field<T: ?Sized + Serialize>(
-        &mut self,
-        key: &'static str,
-        value: &T,
-    ) -> Result<(), Self::Error> {
-        SerializeStruct::serialize_field(self, key, value)
-    }
-
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        SerializeStruct::end(self)
-    }
-}
-
 #[cfg(not(feature = "json"))]
 fn join_with_delim(cells: &[String], dch: char) -> String {
     cells.join(&dch.to_string())
diff --git a/crates/toon/src/ser/value_builder.rs b/crates/toon/src/ser/value_builder.rs
index c8af8a1..d64072c 100644
--- a/crates/toon/src/ser/value_builder.rs
+++ b/crates/toon/src/ser/value_builder.rs
@@ -38,7 +38,7 @@ pub fn to_value<T: Serialize + ?Sized>(
     value.serialize(&mut ser)
 }
 
-struct ValueSerializer;
+pub struct ValueSerializer;
 
 impl Serializer for &mut ValueSerializer {
     type Ok = Value;
@@ -46,7 +46,7 @@ impl Serializer for &mut ValueSerializer {
     type SerializeSeq = SeqSerializer;
     type SerializeTuple = SeqSerializer;
     type SerializeTupleStruct = SeqSerializer;
-    type SerializeTupleVariant = SeqSerializer;
+    type SerializeTupleVariant = TupleVariantSerializer;
     type SerializeMap = MapSerializer;
     type SerializeStruct = MapSerializer;
     type SerializeStructVariant = StructVariantSerializer;
@@ -163,10 +163,13 @@ impl Serializer for &mut ValueSerializer {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeTupleVariant, Self::Error> {
-        Ok(SeqSerializer { elems: Vec::new() })
+        Ok(TupleVariantSerializer {
+            elems: Vec::new(),
+            name: variant.to_string(),
+        })
     }
     fn serialize_map(self, _len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
         Ok(MapSerializer {
@@ -241,15 +244,24 @@ impl SerializeTupleStruct for SeqSerializer {
     }
 }
 
-impl SerializeTupleVariant for SeqSerializer {
+pub struct TupleVariantSerializer {
+    elems: Vec<Value>,
+    name: String,
+}
+
+impl SerializeTupleVariant for TupleVariantSerializer {
     type Ok = Value;
     type Error = serde_json::Error;
 
     fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        SerializeSeq::serialize_element(self, value)
+        let mut ser = ValueSerializer;
+        self.elems.push(value.serialize(&mut ser)?);
+        Ok(())
     }
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(Value::Array(self.elems))
+        let mut m = Map::new();
+        m.insert(self.name, Value::Array(self.elems));
+        Ok(Value::Object(m))
     }
 }
 
diff --git a/crates/toon/src/ser/value_builder_alloc.rs b/crates/toon/src/ser/value_builder_alloc.rs
index 4eddf3b..0ea5db5 100644
--- a/crates/toon/src/ser/value_builder_alloc.rs
+++ b/crates/toon/src/ser/value_builder_alloc.rs
@@ -15,7 +15,7 @@ pub fn to_value<T: Serialize + ?Sized>(value: &T, _options: &Options) -> Result<
     value.serialize(&mut ser)
 }
 
-struct ValueSerializer;
+pub struct ValueSerializer;
 
 #[derive(Debug)]
 pub struct BuildError {
@@ -39,7 +39,7 @@ impl Serializer for &mut ValueSerializer {
     type SerializeSeq = SeqSerializer;
     type SerializeTuple = SeqSerializer;
     type SerializeTupleStruct = SeqSerializer;
-    type SerializeTupleVariant = SeqSerializer;
+    type SerializeTupleVariant = TupleVariantSerializer;
     type SerializeMap = MapSerializer;
     type SerializeStruct = MapSerializer;
     type SerializeStructVariant = StructVariantSerializer;
@@ -152,10 +152,13 @@ impl Serializer for &mut ValueSerializer {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeTupleVariant, Self::Error> {
-        Ok(SeqSerializer { elems: Vec::new() })
+        Ok(TupleVariantSerializer {
+            elems: Vec::new(),
+            name: variant.to_string(),
+        })
     }
     fn serialize_map(self, _len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
         Ok(MapSerializer {
@@ -230,15 +233,24 @@ impl SerializeTupleStruct for SeqSerializer {
     }
 }
 
-impl SerializeTupleVariant for SeqSerializer {
+pub struct TupleVariantSerializer {
+    elems: Vec<Value>,
+    name: String,
+}
+
+impl SerializeTupleVariant for TupleVariantSerializer {
     type Ok = Value;
     type Error = BuildError;
 
     fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        SerializeSeq::serialize_element(self, value)
+        let mut ser = ValueSerializer;
+        self.elems.push(value.serialize(&mut ser)?);
+        Ok(())
     }
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(Value::Array(self.elems))
+        let mut outer = Vec::new();
+        outer.push((self.name, Value::Array(self.elems)));
+        Ok(Value::Object(outer))
     }
 }
 
-- 
2.43.0


From 218906fcab3e5b7d6ccfc4c6ab66555910f4bf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:21 +0000
Subject: [PATCH 22/33] fix: encoding without the json feature writes tuples,
 nested arrays, options and column order like the default build

---
 crates/toon/src/ser/stream.rs | 91 +++++++++++++++--------------------
 1 file changed, 39 insertions(+), 52 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 5981109..fe9f32c 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -463,7 +463,7 @@ impl<'a, 'de> SerializeTuple for SeqSerAlloc<'a, 'de> {
         SerializeSeq::serialize_element(self, value)
     }
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(())
+        SerializeSeq::end(self)
     }
 }
 
@@ -475,7 +475,7 @@ impl<'a, 'de> SerializeTupleStruct for SeqSerAlloc<'a, 'de> {
         SerializeSeq::serialize_element(self, value)
     }
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(())
+        SerializeSeq::end(self)
     }
 }
 
@@ -544,25 +544,12 @@ impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
         {
             let val = crate::ser::value_builder_alloc::to_value(value, self.parent.opts)
                 .map_err(SerError::custom)?;
-            if let IValue::Array(items) = val {
-                // Use spec-compliant keyed array encoding
-                encode_keyed_array_alloc(
-                    &key_fmt,
-                    &items,
-                    self.parent.w,
-                    self.parent.opts,
-                    self.parent.indent,
-                )?;
-                self.entry_count += 1;
-                return Ok(());
-            }
-            // For objects, use the standard key: then nested fields
-            self.parent.w.line_key_only(self.parent.indent, &key_fmt);
-            encode_internal_value_alloc(
+            encode_object_field_alloc(
+                &key,
                 &val,
                 self.parent.w,
                 self.parent.opts,
-                self.parent.indent + self.parent.opts.indent,
+                self.parent.indent,
             )?;
             self.entry_count += 1;
             Ok(())
@@ -993,13 +980,18 @@ fn is_tabular_array_alloc(arr: &[IValue]) -> Option<Vec<String>> {
         if obj.is_empty() {
             return None;
         }
-        let mut kset: Vec<String> = obj.iter().map(|(k, _)| k.clone()).collect();
-        kset.sort();
+        let kset: Vec<String> = obj.iter().map(|(k, _)| k.clone()).collect();
         if let Some(ref ks) = keys {
-            if *ks != kset {
+            // Check if keys match (order-insensitive comparison)
+            let mut kset_sorted = kset.clone();
+            kset_sorted.sort();
+            let mut ks_sorted = ks.clone();
+            ks_sorted.sort();
+            if ks_sorted != kset_sorted {
                 return None;
             }
         } else {
+            // Use the key order from the first object
             keys = Some(kset);
         }
         for (_, vv) in obj.iter() {
@@ -1032,46 +1024,41 @@ fn encode_internal_value_alloc(
             w.line(indent, &primitives::format_string(s, opts.delimiter));
         }
         IValue::Array(items) => {
-            for item in items {
-                if item.is_primitive() {
-                    match item {
-                        IValue::Null => w.line_list_item(indent, primitives::format_null()),
-                        IValue::Bool(b) => w.line_list_item(indent, primitives::format_bool(*b)),
-                        IValue::Number(n) => w.line_list_item(indent, &n.to_string()),
-                        IValue::String(s) => {
-                            w.line_list_item(indent, &primitives::format_string(s, opts.delimiter))
-                        }
-                        _ => {}
-                    }
-                } else {
-                    w.line(indent, "-");
-                    encode_internal_value_alloc(item, w, opts, indent + opts.indent)?;
-                }
-            }
+            encode_keyed_array_alloc("", items, w, opts, indent)?;
         }
         IValue::Object(pairs) => {
             for (k, val) in pairs {
-                let key = primitives::format_string(k, opts.delimiter);
-                if val.is_primitive() {
-                    match val {
-                        IValue::Null => w.line_kv(indent, &key, primitives::format_null()),
-                        IValue::Bool(b) => w.line_kv(indent, &key, primitives::format_bool(*b)),
-                        IValue::Number(n) => w.line_kv(indent, &key, &n.to_string()),
-                        IValue::String(s) => {
-                            w.line_kv(indent, &key, &primitives::format_string(s, opts.delimiter))
-                        }
-                        _ => {}
-                    }
-                } else {
-                    w.line_key_only(indent, &key);
-                    encode_internal_value_alloc(val, w, opts, indent + opts.indent)?;
-                }
+                encode_object_field_alloc(k, val, w, opts, indent)?;
             }
         }
     }
     Ok(())
 }
 
+/// Encode an object field (key-value pair)
+#[cfg(not(feature = "json"))]
+fn encode_object_field_alloc(
+    key: &str,
+    value: &IValue,
+    w: &mut LineWriter,
+    opts: &Options,
+    indent: usize,
+) -> Result<(), SerError> {
+    let key_fmt = primitives::format_key(key);
+    match value {
+        IValue::Array(items) => encode_keyed_array_alloc(&key_fmt, items, w, opts, indent),
+        IValue::Object(_) => {
+            w.line_key_only(indent, &key_fmt);
+            encode_internal_value_alloc(value, w, opts, indent + opts.indent)
+        }
+        primitive => {
+            let text = format_primitive_value_alloc(primitive, opts.delimiter);
+            w.line_kv(indent, &key_fmt, &text);
+            Ok(())
+        }
+    }
+}
+
 fn try_scalar_to_string<T: ?Sized + Serialize>(
     value: &T,
     opts: &Options,
-- 
2.43.0


From c0328c0574236bd394b1f76021e3e5fb4ea1051b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:58 +0000
Subject: [PATCH 23/33] fix: typed decoding of options, newtypes, enums,
 non-string map keys and exact tuple lengths

---
 crates/toon/src/de/mod.rs | 352 +++++++++++++++++++++++++++++++-------
 1 file changed, 288 insertions(+), 64 deletions(-)

diff --git a/crates/toon/src/de/mod.rs b/crates/toon/src/de/mod.rs
index 8b8a07c..20982fc 100644
--- a/crates/toon/src/de/mod.rs
+++ b/crates/toon/src/de/mod.rs
@@ -1,7 +1,13 @@
 //! serde::Deserializer implementation backed by internal Value (alloc-friendly)
 
 #[cfg(not(feature = "std"))]
-use alloc::{format, string::String, vec::Vec};
+use alloc::{
+    format,
+    string::String,
+    vec::{IntoIter, Vec},
+};
+#[cfg(feature = "std")]
+use std::vec::IntoIter;
 
 #[cfg(all(feature = "de_direct", feature = "json"))]
 use core::any::TypeId;
@@ -63,79 +69,297 @@ impl<'de> de::Deserializer<'de> for Deserializer {
             },
             Value::String(s) => visitor.visit_string(s),
             Value::Array(arr) => {
-                struct SA {
-                    elems: Vec<Value>,
-                    idx: usize,
+                let len = arr.len();
+                let mut access = SeqDeserializer {
+                    elems: arr.into_iter(),
+                };
+                let out = visitor.visit_seq(&mut access)?;
+                if access.elems.len() > 0 {
+                    return Err(de::Error::invalid_length(len, &"fewer elements in array"));
                 }
-                impl<'de> SeqAccess<'de> for SA {
-                    type Error = DeError;
-                    fn next_element_seed<T>(
-                        &mut self,
-                        seed: T,
-                    ) -> core::result::Result<Option<T::Value>, Self::Error>
-                    where
-                        T: de::DeserializeSeed<'de>,
-                    {
-                        if self.idx >= self.elems.len() {
-                            return Ok(None);
-                        }
-                        let v = core::mem::replace(&mut self.elems[self.idx], Value::Null);
-                        self.idx += 1;
-                        let de = Deserializer { value: v };
-                        seed.deserialize(de).map(Some)
-                    }
-                }
-                visitor.visit_seq(SA { elems: arr, idx: 0 })
+                Ok(out)
             }
             Value::Object(obj) => {
-                struct MA {
-                    entries: Vec<(String, Value)>,
-                    idx: usize,
-                    next_val: Option<Value>,
-                }
-                impl<'de> MapAccess<'de> for MA {
-                    type Error = DeError;
-                    fn next_key_seed<K>(
-                        &mut self,
-                        seed: K,
-                    ) -> core::result::Result<Option<K::Value>, Self::Error>
-                    where
-                        K: de::DeserializeSeed<'de>,
-                    {
-                        if self.idx >= self.entries.len() {
-                            return Ok(None);
-                        }
-                        let (ref key, ref val) = self.entries[self.idx];
-                        let de_key = key.clone().into_deserializer();
-                        self.next_val = Some(val.clone());
-                        seed.deserialize(de_key).map(Some)
-                    }
-                    fn next_value_seed<VV>(
-                        &mut self,
-                        seed: VV,
-                    ) -> core::result::Result<VV::Value, Self::Error>
-                    where
-                        VV: de::DeserializeSeed<'de>,
-                    {
-                        let v = self.next_val.take().unwrap_or(Value::Null);
-                        self.idx += 1;
-                        let de = Deserializer { value: v };
-                        seed.deserialize(de)
-                    }
-                }
-                visitor.visit_map(MA {
-                    entries: obj,
-                    idx: 0,
+                let len = obj.len();
+                let mut access = MapDeserializer {
+                    entries: obj.into_iter(),
                     next_val: None,
+                };
+                let out = visitor.visit_map(&mut access)?;
+                if access.entries.len() > 0 {
+                    return Err(de::Error::invalid_length(len, &"fewer elements in map"));
+                }
+                Ok(out)
+            }
+        }
+    }
+
+    fn deserialize_option<V>(self, visitor: V) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        match self.value {
+            Value::Null => visitor.visit_none(),
+            _ => visitor.visit_some(self),
+        }
+    }
+
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
+    /// Enums are the variant name alone, or an object with the variant name as its only key.
+    fn deserialize_enum<V>(
+        self,
+        _name: &'static str,
+        _variants: &'static [&'static str],
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        match self.value {
+            Value::String(variant) => visitor.visit_enum(EnumDeserializer {
+                variant,
+                content: None,
+            }),
+            Value::Object(mut obj) if obj.len() == 1 => {
+                let (variant, content) = obj.remove(0);
+                visitor.visit_enum(EnumDeserializer {
+                    variant,
+                    content: Some(content),
                 })
             }
+            _ => Err(de::Error::custom(
+                "expected an enum: a variant name or an object with a single key",
+            )),
+        }
+    }
+
+    serde::forward_to_deserialize_any! {
+        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf
+        unit unit_struct seq tuple tuple_struct map struct identifier ignored_any
+    }
+}
+
+struct SeqDeserializer {
+    elems: IntoIter<Value>,
+}
+
+impl<'de> SeqAccess<'de> for &mut SeqDeserializer {
+    type Error = DeError;
+    fn next_element_seed<T>(
+        &mut self,
+        seed: T,
+    ) -> core::result::Result<Option<T::Value>, Self::Error>
+    where
+        T: de::DeserializeSeed<'de>,
+    {
+        match self.elems.next() {
+            Some(value) => seed.deserialize(Deserializer { value }).map(Some),
+            None => Ok(None),
+        }
+    }
+}
+
+struct MapDeserializer {
+    entries: IntoIter<(String, Value)>,
+    next_val: Option<Value>,
+}
+
+impl<'de> MapAccess<'de> for &mut MapDeserializer {
+    type Error = DeError;
+    fn next_key_seed<K>(&mut self, seed: K) -> core::result::Result<Option<K::Value>, Self::Error>
+    where
+        K: de::DeserializeSeed<'de>,
+    {
+        match self.entries.next() {
+            Some((key, value)) => {
+                self.next_val = Some(value);
+                seed.deserialize(KeyDeserializer { key }).map(Some)
+            }
+            None => Ok(None),
         }
     }
+    fn next_value_seed<V>(&mut self, seed: V) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::DeserializeSeed<'de>,
+    {
+        let value = self.next_val.take().unwrap_or(Value::Null);
+        seed.deserialize(Deserializer { value })
+    }
+}
+
+/// Object keys are strings; numbers and booleans are read back from their text.
+struct KeyDeserializer {
+    key: String,
+}
+
+macro_rules! deserialize_parsed_key {
+    ($($method:ident => $visit:ident,)*) => {
+        $(
+            fn $method<V>(self, visitor: V) -> core::result::Result<V::Value, Self::Error>
+            where
+                V: de::Visitor<'de>,
+            {
+                match self.key.parse() {
+                    Ok(parsed) => visitor.$visit(parsed),
+                    Err(_) => visitor.visit_string(self.key),
+                }
+            }
+        )*
+    };
+}
+
+impl<'de> de::Deserializer<'de> for KeyDeserializer {
+    type Error = DeError;
+
+    fn deserialize_any<V>(self, visitor: V) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_string(self.key)
+    }
+
+    deserialize_parsed_key! {
+        deserialize_bool => visit_bool,
+        deserialize_i8 => visit_i8,
+        deserialize_i16 => visit_i16,
+        deserialize_i32 => visit_i32,
+        deserialize_i64 => visit_i64,
+        deserialize_i128 => visit_i128,
+        deserialize_u8 => visit_u8,
+        deserialize_u16 => visit_u16,
+        deserialize_u32 => visit_u32,
+        deserialize_u64 => visit_u64,
+        deserialize_u128 => visit_u128,
+        deserialize_f32 => visit_f32,
+        deserialize_f64 => visit_f64,
+    }
+
+    fn deserialize_option<V>(self, visitor: V) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_some(self)
+    }
+
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
+    fn deserialize_enum<V>(
+        self,
+        _name: &'static str,
+        _variants: &'static [&'static str],
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_enum(EnumDeserializer {
+            variant: self.key,
+            content: None,
+        })
+    }
 
     serde::forward_to_deserialize_any! {
-        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf
-        option unit unit_struct newtype_struct seq tuple tuple_struct map struct
-        enum identifier ignored_any
+        char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct
+        identifier ignored_any
+    }
+}
+
+struct EnumDeserializer {
+    variant: String,
+    content: Option<Value>,
+}
+
+impl<'de> de::EnumAccess<'de> for EnumDeserializer {
+    type Error = DeError;
+    type Variant = VariantDeserializer;
+
+    fn variant_seed<V>(
+        self,
+        seed: V,
+    ) -> core::result::Result<(V::Value, Self::Variant), Self::Error>
+    where
+        V: de::DeserializeSeed<'de>,
+    {
+        let variant: de::value::StringDeserializer<DeError> = self.variant.into_deserializer();
+        let access = VariantDeserializer {
+            content: self.content,
+        };
+        Ok((seed.deserialize(variant)?, access))
+    }
+}
+
+struct VariantDeserializer {
+    content: Option<Value>,
+}
+
+impl VariantDeserializer {
+    fn content(self, expected: &str) -> core::result::Result<Deserializer, DeError> {
+        match self.content {
+            Some(value) => Ok(Deserializer { value }),
+            None => Err(de::Error::invalid_type(
+                de::Unexpected::UnitVariant,
+                &expected,
+            )),
+        }
+    }
+}
+
+impl<'de> de::VariantAccess<'de> for VariantDeserializer {
+    type Error = DeError;
+
+    fn unit_variant(self) -> core::result::Result<(), Self::Error> {
+        match self.content {
+            None | Some(Value::Null) => Ok(()),
+            Some(_) => Err(de::Error::custom("unexpected content in unit variant")),
+        }
+    }
+
+    fn newtype_variant_seed<T>(self, seed: T) -> core::result::Result<T::Value, Self::Error>
+    where
+        T: de::DeserializeSeed<'de>,
+    {
+        seed.deserialize(self.content("newtype variant")?)
+    }
+
+    fn tuple_variant<V>(
+        self,
+        _len: usize,
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        de::Deserializer::deserialize_any(self.content("tuple variant")?, visitor)
+    }
+
+    fn struct_variant<V>(
+        self,
+        _fields: &'static [&'static str],
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        de::Deserializer::deserialize_any(self.content("struct variant")?, visitor)
     }
 }
 
-- 
2.43.0


From fdf0b7f42a53c3d6bd8794ad1d952ed0d108ed73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:35 +0000
Subject: [PATCH 24/33] fix: bound the nesting and the copying done by path
 expansion

---
 crates/toon/src/decode/path_expand.rs | 37 +++++++++++++++++++--------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/crates/toon/src/decode/path_expand.rs b/crates/toon/src/decode/path_expand.rs
index 8e59d94..d19db49 100644
--- a/crates/toon/src/decode/path_expand.rs
+++ b/crates/toon/src/decode/path_expand.rs
@@ -44,6 +44,10 @@ fn is_valid_identifier(s: &str) -> bool {
 /// This is a zero-width space (U+200B) which is stripped before output.
 const QUOTED_DOT_MARKER: char = '\u{200B}';
 
+/// Deepest nesting that expansion may create: each path segment is a level, and values are
+/// processed recursively, so long keys could otherwise exhaust the stack.
+const MAX_DEPTH: usize = 256;
+
 /// Check if a key should be expanded (unquoted and all segments are valid identifiers).
 fn should_expand_key(key: &str) -> bool {
     // Keys marked with the quoted-dot marker should not be expanded
@@ -77,16 +81,14 @@ fn deep_merge(
         let existing = &mut target[idx].1;
 
         // Check for conflicts
-        match (&existing, &value) {
+        match (existing, value) {
             (Value::Object(existing_obj), Value::Object(new_obj)) => {
                 // Both are objects - deep merge
-                let mut merged = existing_obj.clone();
-                for (k, v) in new_obj.clone() {
-                    deep_merge(&mut merged, k, v, strict)?;
+                for (k, v) in new_obj {
+                    deep_merge(existing_obj, k, v, strict)?;
                 }
-                *existing = Value::Object(merged);
             }
-            _ => {
+            (existing, value) => {
                 // Conflict: different types or primitive/array
                 if strict {
                     return Err(format!(
@@ -108,17 +110,32 @@ fn deep_merge(
 /// Apply path expansion to a Value, returning the expanded value.
 /// If `strict` is true, conflicts will cause an error.
 pub fn expand_paths(value: Value, strict: bool) -> Result<Value, String> {
+    expand_paths_at(value, strict, 0)
+}
+
+fn expand_paths_at(value: Value, strict: bool, depth: usize) -> Result<Value, String> {
     match value {
         Value::Object(entries) => {
             let mut result: Vec<(String, Value)> = Vec::new();
 
             for (key, val) in entries {
+                let segments = if should_expand_key(&key) {
+                    split_key(&key)
+                } else {
+                    Vec::new()
+                };
+                let val_depth = depth + segments.len().max(1);
+                if segments.len() > 1 && val_depth > MAX_DEPTH {
+                    return Err(format!(
+                        "path expansion: nesting deeper than {} levels",
+                        MAX_DEPTH
+                    ));
+                }
                 // Recursively expand nested values first
-                let expanded_val = expand_paths(val, strict)?;
+                let expanded_val = expand_paths_at(val, strict, val_depth)?;
 
-                if should_expand_key(&key) {
+                if !segments.is_empty() {
                     // Expand the dotted key
-                    let segments = split_key(&key);
                     let nested = build_nested_from_segments(&segments, expanded_val);
 
                     // Merge into result
@@ -143,7 +160,7 @@ pub fn expand_paths(value: Value, strict: bool) -> Result<Value, String> {
         Value::Array(arr) => {
             let mut result = Vec::with_capacity(arr.len());
             for item in arr {
-                result.push(expand_paths(item, strict)?);
+                result.push(expand_paths_at(item, strict, depth + 1)?);
             }
             Ok(Value::Array(result))
         }
-- 
2.43.0


From 7fc6d2796809bb5c5ea0a289611bef02d6dd58b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:29 +0000
Subject: [PATCH 25/33] fix: reject nesting too deep to parse instead of
 overflowing the stack

---
 crates/toon/src/decode/parser.rs | 35 +++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 2541efa..dc375c0 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -17,6 +17,8 @@ pub struct Parser<'a> {
     indent_size: usize,
     /// Mark quoted dotted keys so that path expansion leaves them alone
     mark_literal_keys: bool,
+    /// Number of arrays and objects being parsed around the current line
+    depth: usize,
     error: Option<crate::error::Error>,
 }
 
@@ -27,6 +29,9 @@ const U64_UPPER: f64 = 18446744073709551616.0;
 /// Indentation step assumed when the caller does not configure one.
 const DEFAULT_INDENT: usize = 2;
 
+/// Deepest nesting accepted: parsing is recursive, so deeper input could exhaust the stack.
+const MAX_DEPTH: usize = 256;
+
 impl<'a> Parser<'a> {
     pub fn from_input(input: &'a str) -> Self {
         Self {
@@ -35,6 +40,7 @@ impl<'a> Parser<'a> {
             strict: false,
             indent_size: DEFAULT_INDENT,
             mark_literal_keys: false,
+            depth: 0,
             error: None,
         }
     }
@@ -46,6 +52,7 @@ impl<'a> Parser<'a> {
             strict,
             indent_size: DEFAULT_INDENT,
             mark_literal_keys: false,
+            depth: 0,
             error: None,
         }
     }
@@ -57,6 +64,7 @@ impl<'a> Parser<'a> {
             strict,
             indent_size: DEFAULT_INDENT,
             mark_literal_keys: false,
+            depth: 0,
             error: None,
         }
     }
@@ -216,6 +224,31 @@ impl<'a> Parser<'a> {
     }
 
     fn parse_array(&mut self, indent: usize) -> Value {
+        self.parse_nested(|p| p.parse_array_items(indent))
+    }
+
+    fn parse_object(&mut self, indent: usize) -> Value {
+        self.parse_nested(|p| p.parse_object_fields(indent))
+    }
+
+    /// Parse a nested array or object, rejecting nesting that is too deep
+    fn parse_nested(&mut self, parse: impl FnOnce(&mut Self) -> Value) -> Value {
+        if self.depth == MAX_DEPTH {
+            if self.error.is_none() {
+                self.error = Some(crate::error::Error::Syntax {
+                    line: (self.idx + 1).min(self.lines.len()),
+                    message: format!("nesting deeper than {} levels", MAX_DEPTH),
+                });
+            }
+            return Value::Null;
+        }
+        self.depth += 1;
+        let value = parse(self);
+        self.depth -= 1;
+        value
+    }
+
+    fn parse_array_items(&mut self, indent: usize) -> Value {
         let mut arr = Vec::new();
         let mut inside_array = false;
         loop {
@@ -327,7 +360,7 @@ impl<'a> Parser<'a> {
         Value::Array(arr)
     }
 
-    fn parse_object(&mut self, indent: usize) -> Value {
+    fn parse_object_fields(&mut self, indent: usize) -> Value {
         let mut map: Vec<(String, Value)> = Vec::new();
         loop {
             self.skip_blanks();
-- 
2.43.0


From 666873c77236b65397dc2b367d88af7a4a5174ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:57 +0000
Subject: [PATCH 26/33] fix: strict mode rejects blank lines after or within
 multi-line list items

---
 crates/toon/src/decode/parser.rs | 47 +++++++++++++++-----------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index dc375c0..6b11f5b 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -250,31 +250,8 @@ impl<'a> Parser<'a> {
 
     fn parse_array_items(&mut self, indent: usize) -> Value {
         let mut arr = Vec::new();
-        let mut inside_array = false;
+        let mut first_item = None;
         loop {
-            // In strict mode, error on blank lines inside arrays (only if next non-blank is still part of this array)
-            if self.strict && inside_array {
-                if let Some(bl) = self.peek() {
-                    if matches!(bl.kind, LineKind::Blank) {
-                        // Look ahead past blanks to see if next content is still at this array's indent
-                        let saved_idx = self.idx;
-                        self.skip_blanks();
-                        let is_inside = if let Some(next) = self.peek() {
-                            next.indent == indent && matches!(next.kind, LineKind::ListItem { .. })
-                        } else {
-                            false
-                        };
-                        self.idx = saved_idx; // Restore position
-                        if is_inside {
-                            let line_no = self.idx + 1;
-                            self.error = Some(crate::error::Error::Syntax {
-                                line: line_no,
-                                message: "blank line inside array".to_string(),
-                            });
-                        }
-                    }
-                }
-            }
             self.skip_blanks();
             let (take, item_val): (bool, Option<&str>) = if let Some(line) = self.peek() {
                 if line.indent != indent {
@@ -290,7 +267,7 @@ impl<'a> Parser<'a> {
             if !take {
                 break;
             }
-            inside_array = true;
+            first_item.get_or_insert(self.idx);
             self.next();
             if let Some(vs) = item_val {
                 // 1) Support array headers embedded in list item values, e.g. "- [N]:" or "- [N]{fields}: ..."
@@ -357,9 +334,29 @@ impl<'a> Parser<'a> {
                 }
             }
         }
+        if let Some(first) = first_item {
+            self.check_no_blank_lines(first);
+        }
         Value::Array(arr)
     }
 
+    /// In strict mode, error on blank lines between the first and the last line of an array,
+    /// those within its items included.
+    fn check_no_blank_lines(&mut self, first: usize) {
+        if !self.strict || self.error.is_some() {
+            return;
+        }
+        let is_blank = |l: &ParsedLine<'_>| matches!(l.kind, LineKind::Blank);
+        let array = self.lines.get(first..self.idx).unwrap_or(&[]);
+        let last = array.iter().rposition(|l| !is_blank(l)).unwrap_or(0);
+        if let Some(blank) = array[..last].iter().position(is_blank) {
+            self.error = Some(crate::error::Error::Syntax {
+                line: first + blank + 1,
+                message: "blank line inside array".to_string(),
+            });
+        }
+    }
+
     fn parse_object_fields(&mut self, indent: usize) -> Value {
         let mut map: Vec<(String, Value)> = Vec::new();
         loop {
-- 
2.43.0


From d0405ba973466e12a68486a28b7d9194ff58931d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:13 +0000
Subject: [PATCH 27/33] fix: strict mode accepts a blank line after an @ table

---
 crates/toon/src/decode/parser.rs | 44 ++++++++++++++++----------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 6b11f5b..3687115 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -340,6 +340,17 @@ impl<'a> Parser<'a> {
         Value::Array(arr)
     }
 
+    /// Whether the next line is blank and the content after it is a list item at `indent`.
+    fn blank_line_before_item(&self, indent: usize) -> bool {
+        let is_blank = |l: &&ParsedLine<'_>| matches!(l.kind, LineKind::Blank);
+        let rest = self.lines.get(self.idx..).unwrap_or(&[]);
+        rest.first().as_ref().is_some_and(is_blank)
+            && rest
+                .iter()
+                .find(|l| !is_blank(l))
+                .is_some_and(|l| l.indent == indent && matches!(l.kind, LineKind::ListItem { .. }))
+    }
+
     /// In strict mode, error on blank lines between the first and the last line of an array,
     /// those within its items included.
     fn check_no_blank_lines(&mut self, first: usize) {
@@ -502,18 +513,12 @@ impl<'a> Parser<'a> {
                                     let expected_cells = header_keys.len();
                                     let mut rows: Vec<Value> = Vec::new();
                                     loop {
-                                        if self.strict {
-                                            if let Some(bl) = self.peek() {
-                                                if matches!(bl.kind, LineKind::Blank) {
-                                                    let line_no = self.idx + 1;
-                                                    self.error =
-                                                        Some(crate::error::Error::Syntax {
-                                                            line: line_no,
-                                                            message: "blank line inside table"
-                                                                .to_string(),
-                                                        });
-                                                }
-                                            }
+                                        if self.strict && self.blank_line_before_item(child_indent)
+                                        {
+                                            self.error = Some(crate::error::Error::Syntax {
+                                                line: self.idx + 1,
+                                                message: "blank line inside table".to_string(),
+                                            });
                                         }
                                         self.skip_blanks();
                                         let row_item: Option<&str> = if let Some(rowl) = self.peek()
@@ -704,16 +709,11 @@ impl<'a> Parser<'a> {
                 let mut rows: Vec<Value> = Vec::new();
 
                 loop {
-                    if self.strict {
-                        if let Some(bl) = self.peek() {
-                            if matches!(bl.kind, LineKind::Blank) {
-                                let line_no = self.idx + 1;
-                                self.error = Some(crate::error::Error::Syntax {
-                                    line: line_no,
-                                    message: "blank line inside table".to_string(),
-                                });
-                            }
-                        }
+                    if self.strict && self.blank_line_before_item(indent) {
+                        self.error = Some(crate::error::Error::Syntax {
+                            line: self.idx + 1,
+                            message: "blank line inside table".to_string(),
+                        });
                     }
                     self.skip_blanks();
 
-- 
2.43.0


From 5a796d35ecab9718d3b6a45ad92a888b6634be45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:33 +0000
Subject: [PATCH 28/33] fix: reject values on the line of a tabular array's
 header

A tabular header followed by values on its own line (`t[1]{a}: x`) was
accepted and the values silently dropped, in strict mode too.
---
 crates/toon/src/decode/parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 3687115..bcd2851 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -955,6 +955,14 @@ impl<'a> Parser<'a> {
 
         // If there are fields, it's a tabular array
         if let Some(ref fields) = header.fields {
+            // Rows are on lines of their own
+            if header.inline_values.as_ref().is_some_and(|v| !v.is_empty()) && self.error.is_none()
+            {
+                self.error = Some(crate::error::Error::Syntax {
+                    line: header_line_no,
+                    message: "unexpected content after tabular array header".to_string(),
+                });
+            }
             // Get current indent to determine row indent
             let row_indent = self.child_indent(indent);
             let fields_refs: Vec<&str> = fields.iter().map(|s| s.as_str()).collect();
-- 
2.43.0


From 6323b5e49907321bfa66a099bbd2aea769882480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:43 +0000
Subject: [PATCH 29/33] fix: reject an array header without its colon in strict
 mode

`k[2] a,b` among other fields was read as if it were `k[2]: a,b`; strict
mode requires the colon of every field.
---
 crates/toon/src/decode/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index bcd2851..6914006 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -372,8 +372,9 @@ impl<'a> Parser<'a> {
         let mut map: Vec<(String, Value)> = Vec::new();
         loop {
             self.skip_blanks();
-            // Support scalar keyed-array header lines like "key[N] v1,v2" by synthesizing a header
-            if let Some(line) = self.peek() {
+            // Outside strict mode, support scalar keyed-array header lines like "key[N] v1,v2" by
+            // synthesizing a header
+            if let Some(line) = self.peek().filter(|_| !self.strict) {
                 if line.indent == indent {
                     if let LineKind::Scalar(s) = &line.kind {
                         if is_array_header_line(s) && s.contains('[') {
-- 
2.43.0


From aca9a509a417cefa35e9f4685bfcd1e8d7ab1805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:43 +0000
Subject: [PATCH 30/33] fix: keep the first error found in tables

In tables of the old form, and for blank lines in others, a later error
replaced an earlier one, so the line of a consequence was reported.
---
 crates/toon/src/decode/parser.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 6914006..d00d2bd 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -455,7 +455,10 @@ impl<'a> Parser<'a> {
                             if let LineKind::Scalar(s0) = &nl.kind {
                                 let header_text = *s0;
                                 if let Some((dch, header_str)) = parse_header(header_text) {
-                                    if self.strict && !(dch == ',' || dch == '\t' || dch == '|') {
+                                    if self.strict
+                                        && self.error.is_none()
+                                        && !(dch == ',' || dch == '\t' || dch == '|')
+                                    {
                                         let line_no = self.idx + 1;
                                         self.error = Some(crate::error::Error::Syntax {
                                             line: line_no,
@@ -471,7 +474,7 @@ impl<'a> Parser<'a> {
                                         .iter()
                                         .map(|h| self.parse_key_token(h))
                                         .collect::<Vec<_>>();
-                                    if self.strict {
+                                    if self.strict && self.error.is_none() {
                                         if header_keys.is_empty() {
                                             let line_no = self.idx;
                                             self.error = Some(crate::error::Error::Syntax {
@@ -514,7 +517,9 @@ impl<'a> Parser<'a> {
                                     let expected_cells = header_keys.len();
                                     let mut rows: Vec<Value> = Vec::new();
                                     loop {
-                                        if self.strict && self.blank_line_before_item(child_indent)
+                                        if self.strict
+                                            && self.error.is_none()
+                                            && self.blank_line_before_item(child_indent)
                                         {
                                             self.error = Some(crate::error::Error::Syntax {
                                                 line: self.idx + 1,
@@ -541,6 +546,7 @@ impl<'a> Parser<'a> {
                                         self.next();
                                         let row_trimmed = rs.trim_end();
                                         if self.strict
+                                            && self.error.is_none()
                                             && row_trimmed.as_bytes().last().copied()
                                                 == Some(delimiter_byte(dch))
                                         {
@@ -588,7 +594,7 @@ impl<'a> Parser<'a> {
                                         }
                                         rows.push(Value::Object(om));
                                     }
-                                    if self.strict && rows.is_empty() {
+                                    if self.strict && self.error.is_none() && rows.is_empty() {
                                         let line_no = self.idx;
                                         self.error = Some(crate::error::Error::Syntax {
                                             line: line_no,
@@ -656,7 +662,8 @@ impl<'a> Parser<'a> {
         if let Some(s) = s_opt.filter(|_| has_rows) {
             if let Some((dch, header_str)) = parse_header(s) {
                 // This is a tabular header, parse it as a root-level tabular array
-                if self.strict && !(dch == ',' || dch == '\t' || dch == '|') {
+                if self.strict && self.error.is_none() && !(dch == ',' || dch == '\t' || dch == '|')
+                {
                     let line_no = self.idx + 1;
                     self.error = Some(crate::error::Error::Syntax {
                         line: line_no,
@@ -674,7 +681,7 @@ impl<'a> Parser<'a> {
                     .map(|h| self.parse_key_token(h))
                     .collect::<Vec<_>>();
 
-                if self.strict {
+                if self.strict && self.error.is_none() {
                     if header_keys.is_empty() {
                         let line_no = self.idx;
                         self.error = Some(crate::error::Error::Syntax {
@@ -710,7 +717,7 @@ impl<'a> Parser<'a> {
                 let mut rows: Vec<Value> = Vec::new();
 
                 loop {
-                    if self.strict && self.blank_line_before_item(indent) {
+                    if self.strict && self.error.is_none() && self.blank_line_before_item(indent) {
                         self.error = Some(crate::error::Error::Syntax {
                             line: self.idx + 1,
                             message: "blank line inside table".to_string(),
@@ -738,6 +745,7 @@ impl<'a> Parser<'a> {
 
                     let row_trimmed = rs.trim_end();
                     if self.strict
+                        && self.error.is_none()
                         && row_trimmed.as_bytes().last().copied() == Some(delimiter_byte(dch))
                     {
                         self.error = Some(crate::error::Error::Syntax {
@@ -777,7 +785,7 @@ impl<'a> Parser<'a> {
                     rows.push(Value::Object(om));
                 }
 
-                if self.strict && rows.is_empty() {
+                if self.strict && self.error.is_none() && rows.is_empty() {
                     let line_no = self.idx;
                     self.error = Some(crate::error::Error::Syntax {
                         line: line_no,
@@ -1034,7 +1042,7 @@ impl<'a> Parser<'a> {
                             false
                         };
                         self.idx = saved_idx;
-                        if is_inside {
+                        if is_inside && self.error.is_none() {
                             let line_no = self.idx + 1;
                             self.error = Some(crate::error::Error::Syntax {
                                 line: line_no,
-- 
2.43.0


From 43a447e8416ba798162e28d75ea7458f31b8ecaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:33 +0000
Subject: [PATCH 31/33] fix: keep brackets of a value out of its key

A bare value holding an array header, as in `a: see [1]: b`, was taken
for a header with the key `a: see`. A key ends at its first colon.
---
 crates/toon/src/decode/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index d00d2bd..788abbf 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -1191,6 +1191,10 @@ fn parse_array_header(s: &str) -> Option<ArrayHeader> {
 
     // Key is everything before the bracket (may be empty for root arrays)
     let key_part = trim_ascii(&s[..bracket_start]);
+    if split_kv_quote_aware(key_part).is_some() {
+        // The key has ended already: the bracket belongs to the value
+        return None;
+    }
     let key = if key_part.is_empty() {
         None
     } else {
-- 
2.43.0


From 387a4d05615d0a815a79616208228448ab1d0afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:29 +0000
Subject: [PATCH 32/33] fix: notice columns separated by pipes in a table
 declared with tabs

---
 crates/toon/src/decode/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 788abbf..f4ab92f 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -1309,8 +1309,8 @@ fn check_delimiter_mismatch(s: &str, declared: char) -> bool {
             (tab_count > 0 || pipe_count > 0) && comma_count == 0
         }
         '\t' => {
-            // If comma appears and tab doesn't, it's a mismatch
-            comma_count > 0 && tab_count == 0
+            // If comma or pipe appears and tab doesn't, it's a mismatch
+            (comma_count > 0 || pipe_count > 0) && tab_count == 0
         }
         '|' => {
             // If comma or tab appears and pipe doesn't, it's a mismatch
-- 
2.43.0


From bab0d0b14368d19e0da855176bdfb49932917a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:29 +0000
Subject: [PATCH 33/33] fix: give -0 the same number as 0

---
 crates/toon/src/decode/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index f4ab92f..fc618ff 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -141,7 +141,11 @@ impl<'a> Parser<'a> {
             if bs[0] == b'-' {
                 if bs.len() > 1 && bs[1..].iter().all(|c| c.is_ascii_digit()) {
                     if let Ok(i) = s.parse::<i64>() {
-                        return Value::Number(Number::I64(i));
+                        // -0 is the same number as 0
+                        return Value::Number(match u64::try_from(i) {
+                            Ok(u) => Number::U64(u),
+                            Err(_) => Number::I64(i),
+                        });
                     }
                 }
             } else if bs.iter().all(|c| c.is_ascii_digit()) {
-- 
2.43.0

