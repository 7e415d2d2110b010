From ec1dd14cf74dca46667d2ea6fa0540ddb3c9273c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 01/16] fix: enforce the maximum depth on chains of unary
 operators

A value preceded by thousands of signs recursed once per sign and
overflowed the stack.
---
 src/parse/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 2b223a7..86bcd75 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -656,6 +656,11 @@ fn parse_unary_op(
     cur_brace: Option<char>,
     op: UnaryOp,
 ) -> ParseResult<Value> {
+    // Check depth.
+    if depth > MAX_DEPTH {
+        return parse_err(stream.file(), MaxDepth(stream.line(), stream.col()));
+    }
+
     let next = stream.next();
     assert!(
         (next == Some('-') && op == UnaryOp::Minus) || (next == Some('+') && op == UnaryOp::Plus)
-- 
2.43.0


From 79c68ca9ea45fe53224522543d181d1750e31220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 02/16] fix: enforce the maximum depth on chains of dots

A variable followed by thousands of dotted accesses recursed once per dot
and overflowed the stack.
---
 src/parse/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 86bcd75..6117e6e 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -863,6 +863,11 @@ fn parse_variable(
     };
 
     if dot {
+        // Check depth.
+        if depth > MAX_DEPTH {
+            return parse_err(stream.file(), MaxDepth(stream.line(), stream.col()));
+        }
+
         value = match value {
             Value::Arr(arr) => {
                 let (line, col) = (stream.line(), stream.col());
-- 
2.43.0


From 91804c347d2a4f16222c50774408858ebe2fe820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:53 +0000
Subject: [PATCH 03/16] fix: count nested includes towards the maximum depth

Every included file started again at depth 1, so a long enough chain of
files including each other overflowed the stack.
---
 src/parse/parser.rs | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 6117e6e..0280d72 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -40,25 +40,33 @@ lazy_static! {
 /// Parses given file as an `Obj`.
 pub fn parse_obj_file(path: &str) -> ParseResult<Obj> {
     let stream = CharStream::from_file(path)?;
-    parse_obj_stream(stream, &mut (Default::default(), Default::default()))
+    parse_obj_stream(stream, &mut (Default::default(), Default::default()), 1)
 }
 
 // Parses given file as an `Obj`, keeping track of already encountered includes.
-fn parse_obj_file_includes(path: &str, included: &mut IncludedMap) -> ParseResult<Obj> {
+fn parse_obj_file_includes(
+    path: &str,
+    included: &mut IncludedMap,
+    depth: usize,
+) -> ParseResult<Obj> {
     let stream = CharStream::from_file(path)?;
-    parse_obj_stream(stream, included)
+    parse_obj_stream(stream, included, depth)
 }
 
 /// Parses given &str as an `Obj`.
 pub fn parse_obj_str(contents: &str) -> ParseResult<Obj> {
     let contents = String::from(contents);
     let stream = CharStream::from_string(contents)?;
-    parse_obj_stream(stream, &mut (Default::default(), Default::default()))
+    parse_obj_stream(stream, &mut (Default::default(), Default::default()), 1)
 }
 
 // Parses an Obj given a character stream.
 #[inline]
-fn parse_obj_stream(mut stream: CharStream, mut included: &mut IncludedMap) -> ParseResult<Obj> {
+fn parse_obj_stream(
+    mut stream: CharStream,
+    mut included: &mut IncludedMap,
+    depth: usize,
+) -> ParseResult<Obj> {
     let mut obj_pairs: Pairs = Default::default();
 
     // Go to the first non-whitespace character, or return if there is none.
@@ -76,7 +84,7 @@ fn parse_obj_stream(mut stream: CharStream, mut included: &mut IncludedMap) -> P
         &mut globals,
         &mut included,
         &mut parent,
-        1,
+        depth,
         None,
     )? {}
 
@@ -229,7 +237,11 @@ fn parse_field_value_pair(
 }
 
 // Parses an Arr given a file.
-fn parse_arr_file(path: &str, mut included: &mut IncludedMap) -> ParseResult<Arr> {
+fn parse_arr_file(
+    path: &str,
+    mut included: &mut IncludedMap,
+    depth: usize,
+) -> ParseResult<Arr> {
     let mut stream = CharStream::from_file(path)?;
 
     let obj_pairs: Pairs = Default::default();
@@ -254,7 +266,7 @@ fn parse_arr_file(path: &str, mut included: &mut IncludedMap) -> ParseResult<Arr
             &mut included,
             value_line,
             value_col,
-            1,
+            depth,
             None,
             true,
         )?;
@@ -372,7 +384,11 @@ fn parse_arr(
 }
 
 // Parses a Tup given a file.
-fn parse_tup_file(path: &str, mut included: &mut IncludedMap) -> ParseResult<Tup> {
+fn parse_tup_file(
+    path: &str,
+    mut included: &mut IncludedMap,
+    depth: usize,
+) -> ParseResult<Tup> {
     let mut stream = CharStream::from_file(path)?;
 
     let mut vec: Vec<Value> = Default::default();
@@ -394,7 +410,7 @@ fn parse_tup_file(path: &str, mut included: &mut IncludedMap) -> ParseResult<Tup
             &mut included,
             value_line,
             value_col,
-            1,
+            depth,
             None,
             true,
         )?;
@@ -1147,10 +1163,10 @@ fn parse_include(
         value.clone()
     } else {
         let value: Value = match include_type {
-            IncludeType::Obj => parse_obj_file_includes(path_str, included)?.into(),
+            IncludeType::Obj => parse_obj_file_includes(path_str, included, depth)?.into(),
             IncludeType::Str => parse_str_file(path_str)?.into(),
-            IncludeType::Arr => parse_arr_file(path_str, included)?.into(),
-            IncludeType::Tup => parse_tup_file(path_str, included)?.into(),
+            IncludeType::Arr => parse_arr_file(path_str, included, depth)?.into(),
+            IncludeType::Tup => parse_tup_file(path_str, included, depth)?.into(),
         };
         // Use full path as included key.
         included.0.insert(full_path_str.into(), value.clone());
-- 
2.43.0


From 208deb24ceea75c0f8da76d27069d0355e1e21e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 04/16] fix: do not reuse an include of one type for another
 type

Including a file as Str and then as Arr yielded the Str again, because
processed includes were remembered by path only.
---
 src/parse/parser.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 0280d72..290af57 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -27,7 +27,7 @@ use std::{
 
 type Pairs = Vec<Pair>;
 type GlobalMap = HashMap<String, Value>;
-type IncludedMap = (HashMap<String, Value>, HashSet<String>);
+type IncludedMap = (HashMap<(String, IncludeType), Value>, HashSet<String>);
 
 lazy_static! {
     // Objs that signify that an include keyword was encountered.
@@ -1014,6 +1014,14 @@ fn parse_str(stream: &mut CharStream) -> ParseResult<Value> {
     Ok(s.into())
 }
 
+#[derive(Clone, Copy, Eq, Hash, PartialEq)]
+enum IncludeType {
+    Obj,
+    Str,
+    Arr,
+    Tup,
+}
+
 fn parse_include(
     mut stream: &mut CharStream,
     obj_pairs: &[Pair],
@@ -1021,13 +1029,6 @@ fn parse_include(
     mut included: &mut IncludedMap,
     depth: usize,
 ) -> ParseResult<Value> {
-    enum IncludeType {
-        Obj,
-        Str,
-        Arr,
-        Tup,
-    }
-
     // Check depth.
     if depth > MAX_DEPTH {
         return parse_err(stream.file(), MaxDepth(stream.line(), stream.col()));
@@ -1158,8 +1159,10 @@ fn parse_include(
     }
 
     // Get either the tracked value or parse it if it's our first time seeing the include.
-    let value = if included.0.contains_key(full_path_str) {
-        let value = &included.0[full_path_str];
+    // The same file may be included as different types.
+    let key = (String::from(full_path_str), include_type);
+    let value = if included.0.contains_key(&key) {
+        let value = &included.0[&key];
         value.clone()
     } else {
         let value: Value = match include_type {
@@ -1168,8 +1171,8 @@ fn parse_include(
             IncludeType::Arr => parse_arr_file(path_str, included, depth)?.into(),
             IncludeType::Tup => parse_tup_file(path_str, included, depth)?.into(),
         };
-        // Use full path as included key.
-        included.0.insert(full_path_str.into(), value.clone());
+        // Use full path and type as included key.
+        included.0.insert(key, value.clone());
         value
     };
 
-- 
2.43.0


From 72d6f374c9bf8c2c46cde2840d5ba87010bd4b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 05/16] fix: reject a global redefined inside its own value

The duplicate check ran only before the value was parsed, so a definition
of the same global nested in the value was silently overwritten.
---
 src/parse/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 290af57..af1ee86 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -212,7 +212,13 @@ fn parse_field_value_pair(
     // Add value either to the globals map or to the current Obj.
     match field_type {
         FieldType::Global => {
-            let _ = globals.insert(field_name, value);
+            // The value itself may have defined the same global in a sub-Obj.
+            if globals.insert(field_name.clone(), value).is_some() {
+                return parse_err(
+                    stream.file(),
+                    DuplicateGlobal(field_name, field_line, field_col),
+                );
+            }
         }
         FieldType::Parent => {
             let par = value
-- 
2.43.0


From 0058bb1529f0bb6d5fc03d67d45dedf4a72f4fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 06/16] fix: let dot notation reach inherited fields

A field inherited from a parent could be read through Obj::get but was
reported as not found in `obj.field`.
---
 src/parse/parser.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index af1ee86..1a1299e 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -600,6 +600,7 @@ fn parse_value(
             col,
             depth,
             cur_brace,
+            None,
         )?,
         ch => {
             return parse_err(stream.file(), InvalidValueChar(ch, line, col));
@@ -795,6 +796,7 @@ fn parse_numeric(stream: &mut CharStream, line: usize, col: usize) -> ParseResul
 }
 
 // Parses a variable name and gets a value from the corresponding variable.
+// If the variable is a field of an Obj being accessed, `parent` is the parent of that Obj.
 fn parse_variable(
     mut stream: &mut CharStream,
     obj_pairs: &[Pair],
@@ -804,6 +806,7 @@ fn parse_variable(
     col: usize,
     depth: usize,
     cur_brace: Option<char>,
+    parent: Option<Obj>,
 ) -> ParseResult<Value> {
     let mut var = String::new();
     let mut is_global = false;
@@ -874,8 +877,12 @@ fn parse_variable(
         }
         var => {
             // Regular variable, get value from the current Obj.
-            match obj_pairs.iter().find(|Pair(ref field, _)| field == var) {
-                Some(Pair(_, ref value)) => value.clone(),
+            let value = match obj_pairs.iter().find(|Pair(ref field, _)| field == var) {
+                Some(Pair(_, ref value)) => Some(value.clone()),
+                None => parent.and_then(|parent| parent.get(var)),
+            };
+            match value {
+                Some(value) => value,
                 None => {
                     let var = String::from(var);
                     return parse_err(stream.file(), VariableNotFound(var, line, col));
@@ -965,6 +972,7 @@ fn parse_variable(
                     col,
                     depth + 1,
                     cur_brace,
+                    obj.get_parent(),
                 )?
             }
             _ => return parse_err(stream.file(), InvalidDot(value.get_type(), line, col)),
-- 
2.43.0


From 52f841131200beb89efcf4c9cda4f44c01e6caf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 07/16] fix: reject empty field names and names starting with
 '^'

Both passed Obj::from_pairs although the documented rule excludes them,
and produced objects whose written form cannot be read back.
---
 src/obj.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/obj.rs b/src/obj.rs
index f689bb4..fde9abe 100644
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -262,6 +262,11 @@ impl Obj {
     /// The first character must be alphabetic or '_'. Subsequent characters are allowed to be
     /// alphabetic, digits, or '_'.
     pub fn is_valid_field(field: &str) -> bool {
+        // The parent field '^' is not a field name.
+        if field.is_empty() || field.starts_with('^') {
+            return false;
+        }
+
         let mut first = true;
 
         for ch in field.chars() {
-- 
2.43.0


From 6966028d4ec42d56857911c2335470b7671e1f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 08/16] fix: ignore the order of fields when comparing objects

The documented rule is that equal objects have all the same fields pointing
to the same values, but objects whose fields were in a different order
compared unequal.
---
 src/obj.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index fde9abe..35caa11 100644
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -351,8 +351,17 @@ impl PartialEq for Obj {
             return false;
         }
 
-        // Check pairs equality.
-        inner.pairs == other_inner.pairs
+        // Check pairs equality. The order of the fields does not matter, but is usually the same.
+        inner.pairs.len() == other_inner.pairs.len()
+            && inner
+                .pairs
+                .iter()
+                .zip(&other_inner.pairs)
+                .all(|(pair, other_pair)| {
+                    pair.0 == other_pair.0 && pair.1 == other_pair.1
+                        || pair.0 != other_pair.0
+                            && other_inner.pairs.iter().any(|p| p.0 == pair.0 && p.1 == pair.1)
+                })
     }
 }
 
-- 
2.43.0


From 64f5501fbc0b5c5353e8dc6258555bff7065a27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 09/16] fix: do not panic on includes from a directory without
 a Unicode name

The absolute path of the including file was unwrapped as UTF-8.
---
 src/parse/parser.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 1a1299e..37b61ed 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -1161,13 +1161,14 @@ fn parse_include(
     };
 
     // Prevent cyclic includes by temporarily storing the current file path.
-    let storing = if let Some(file) = stream.file() {
-        let full_file = String::from(Path::new(&file).canonicalize().unwrap().to_str().unwrap());
+    // A current file without a path in Unicode cannot be named by an include.
+    let storing = stream
+        .file()
+        .and_then(|file| Path::new(&file).canonicalize().ok())
+        .and_then(|path| path.to_str().map(String::from));
+    if let Some(ref full_file) = storing {
         included.1.insert(full_file.clone());
-        Some(full_file)
-    } else {
-        None
-    };
+    }
     if included.1.contains(full_path_str) {
         return parse_err(stream.file(), CyclicInclude(include_file, line, col));
     }
-- 
2.43.0


From ccdbcd4310e98c486ee38786fb159262ebee5b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 10/16] fix: report the location of includes that cannot be
 read

An include that could not be opened or was not UTF-8 was reported without
file, line or column.
---
 src/parse/error.rs  | 10 ++++++++++
 src/parse/parser.rs | 13 ++++++++-----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/parse/error.rs b/src/parse/error.rs
index 6cd8bbe..a276f0b 100644
--- a/src/parse/error.rs
+++ b/src/parse/error.rs
@@ -185,6 +185,16 @@ impl ParseError {
             kind: ParseErrorKind::OverError(format!("{} at line {}, col {}", e, line, col)),
         }
     }
+
+    /// If this is an IO error, add the location of the include that caused it.
+    pub fn locate_io(self, file: Option<String>, line: usize, col: usize) -> Self {
+        match self.kind {
+            ParseErrorKind::IoError(e) => {
+                Self::from_over(&OverError::IoError(e), file, line, col)
+            }
+            _ => self,
+        }
+    }
 }
 
 impl From<io::Error> for ParseError {
diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 37b61ed..92c0c18 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -1180,12 +1180,15 @@ fn parse_include(
         let value = &included.0[&key];
         value.clone()
     } else {
-        let value: Value = match include_type {
-            IncludeType::Obj => parse_obj_file_includes(path_str, included, depth)?.into(),
-            IncludeType::Str => parse_str_file(path_str)?.into(),
-            IncludeType::Arr => parse_arr_file(path_str, included, depth)?.into(),
-            IncludeType::Tup => parse_tup_file(path_str, included, depth)?.into(),
+        let res: ParseResult<Value> = match include_type {
+            IncludeType::Obj => {
+                parse_obj_file_includes(path_str, included, depth).map(Value::from)
+            }
+            IncludeType::Str => parse_str_file(path_str).map(Value::from),
+            IncludeType::Arr => parse_arr_file(path_str, included, depth).map(Value::from),
+            IncludeType::Tup => parse_tup_file(path_str, included, depth).map(Value::from),
         };
+        let value = res.map_err(|e| e.locate_io(stream.file(), line, col))?;
         // Use full path and type as included key.
         included.0.insert(key, value.clone());
         value
-- 
2.43.0


From a28011c920caba3c4877f03631f0b69154f03d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 11/16] fix: look up keywords after a dot as fields

`obj.null`, `obj.true` or `obj.Str` gave the value of the keyword although
the object has no such field.
---
 src/parse/parser.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 92c0c18..596d974 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -796,7 +796,7 @@ fn parse_numeric(stream: &mut CharStream, line: usize, col: usize) -> ParseResul
 }
 
 // Parses a variable name and gets a value from the corresponding variable.
-// If the variable is a field of an Obj being accessed, `parent` is the parent of that Obj.
+// If the variable is a field of an Obj being accessed, `accessed` is that Obj.
 fn parse_variable(
     mut stream: &mut CharStream,
     obj_pairs: &[Pair],
@@ -806,7 +806,7 @@ fn parse_variable(
     col: usize,
     depth: usize,
     cur_brace: Option<char>,
-    parent: Option<Obj>,
+    accessed: Option<&Obj>,
 ) -> ParseResult<Value> {
     let mut var = String::new();
     let mut is_global = false;
@@ -854,6 +854,15 @@ fn parse_variable(
     }
 
     let mut value = match var.as_str() {
+        // Field of an Obj, keywords have no special meaning.
+        var if accessed.is_some() => match accessed.and_then(|obj| obj.get(var)) {
+            Some(value) => value,
+            None => {
+                let var = String::from(var);
+                return parse_err(stream.file(), VariableNotFound(var, line, col));
+            }
+        },
+
         "null" => Value::Null,
         "true" => Value::Bool(true),
         "false" => Value::Bool(false),
@@ -877,12 +886,8 @@ fn parse_variable(
         }
         var => {
             // Regular variable, get value from the current Obj.
-            let value = match obj_pairs.iter().find(|Pair(ref field, _)| field == var) {
-                Some(Pair(_, ref value)) => Some(value.clone()),
-                None => parent.and_then(|parent| parent.get(var)),
-            };
-            match value {
-                Some(value) => value,
+            match obj_pairs.iter().find(|Pair(ref field, _)| field == var) {
+                Some(Pair(_, ref value)) => value.clone(),
                 None => {
                     let var = String::from(var);
                     return parse_err(stream.file(), VariableNotFound(var, line, col));
@@ -972,7 +977,7 @@ fn parse_variable(
                     col,
                     depth + 1,
                     cur_brace,
-                    obj.get_parent(),
+                    Some(&obj),
                 )?
             }
             _ => return parse_err(stream.file(), InvalidDot(value.get_type(), line, col)),
-- 
2.43.0


From fdc40213142a510e99a2098215ab9f37456a51df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 12/16] fix: accept include type keywords only inside includes

Elsewhere Obj, Str, Arr and Tup silently evaluated to an empty Obj, the
internal marker of the include parser.
---
 src/parse/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 596d974..376169a 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -868,10 +868,10 @@ fn parse_variable(
         "false" => Value::Bool(false),
 
         // If we're being called by `parse_include`, signify that one of these keywords was found.
-        "Obj" => Value::Obj(OBJ_SENTINEL.clone()),
-        "Str" => Value::Obj(STR_SENTINEL.clone()),
-        "Arr" => Value::Obj(ARR_SENTINEL.clone()),
-        "Tup" => Value::Obj(TUP_SENTINEL.clone()),
+        "Obj" if cur_brace == Some('>') => Value::Obj(OBJ_SENTINEL.clone()),
+        "Str" if cur_brace == Some('>') => Value::Obj(STR_SENTINEL.clone()),
+        "Arr" if cur_brace == Some('>') => Value::Obj(ARR_SENTINEL.clone()),
+        "Tup" if cur_brace == Some('>') => Value::Obj(TUP_SENTINEL.clone()),
 
         var @ "@" => return parse_err(stream.file(), InvalidValue(var.into(), line, col)),
         var if is_global => {
-- 
2.43.0


From 37e9cb8a6169536b0722306dc8d132095a784b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 13/16] fix: reject global names starting with '^'

Such a global could be defined but never referenced.
---
 src/parse/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 376169a..d0a17c4 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -533,7 +533,7 @@ fn parse_field(
             parse_err(stream.file(), InvalidFieldName(field.clone(), line, col))
         }
         "^" => Ok((field.clone(), FieldType::Parent)),
-        bad if bad.starts_with('^') => {
+        bad if bad.starts_with('^') || bad.starts_with("@^") => {
             parse_err(stream.file(), InvalidFieldName(field.clone(), line, col))
         }
         _ => Ok((
-- 
2.43.0


From d7b213bc13fc1b3d2f9d755d23f61448f8665820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:55 +0000
Subject: [PATCH 14/16] fix: report a file too large for memory instead of
 aborting

---
 src/parse/char_stream.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parse/char_stream.rs b/src/parse/char_stream.rs
index 88a2640..18e3d95 100644
--- a/src/parse/char_stream.rs
+++ b/src/parse/char_stream.rs
@@ -28,9 +28,8 @@ impl CharStream {
     pub fn from_file(path: &str) -> io::Result<CharStream> {
         let mut file = File::open(path)?;
 
-        let len = file.metadata()?.len();
-        let mut contents = String::with_capacity(len as usize);
-
+        // Reserves space for the file, and fails if there is not enough.
+        let mut contents = String::new();
         file.read_to_string(&mut contents)?;
 
         Self::from_string_impl(Some(String::from(path)), contents)
-- 
2.43.0


From 1786b7289af0726f38abd01c67cfdd01a383e4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:26 +0000
Subject: [PATCH 15/16] fix: release nested values without recursion

---
 src/arr.rs   | 17 +++++++++++++++--
 src/obj.rs   | 25 ++++++++++++++++++++++++-
 src/tup.rs   | 17 +++++++++++++++--
 src/value.rs | 13 +++++++++++++
 4 files changed, 67 insertions(+), 5 deletions(-)

diff --git a/src/arr.rs b/src/arr.rs
index fba32ce..ea7a3b5 100644
--- a/src/arr.rs
+++ b/src/arr.rs
@@ -1,10 +1,10 @@
 //! An array container which can hold an arbitrary number of elements of a single type.
 
 use crate::{
-    parse::format::Format, types::Type, value::Value, OverError, OverResult, ReferenceType,
+    parse::format::Format, types::Type, value::{self, Value}, OverError, OverResult, ReferenceType,
     INDENT_STEP,
 };
-use std::{convert::TryFrom, fmt, slice::Iter, sync::Arc};
+use std::{convert::TryFrom, fmt, mem, slice::Iter, sync::Arc};
 
 #[derive(Clone, Debug)]
 struct ArrInner {
@@ -16,6 +16,12 @@ struct ArrInner {
     id: usize,
 }
 
+impl Drop for ArrInner {
+    fn drop(&mut self) {
+        value::release(mem::take(&mut self.values));
+    }
+}
+
 /// `Arr` struct.
 #[derive(Clone, Debug)]
 pub struct Arr {
@@ -72,6 +78,13 @@ impl Arr {
         }
     }
 
+    // Drops this reference. If it is the last one, the elements are moved to `values`.
+    pub(crate) fn release_into(self, values: &mut Vec<Value>) {
+        if let Some(mut inner) = Arc::into_inner(self.inner) {
+            values.append(&mut inner.values);
+        }
+    }
+
     /// Returns a reference to the inner vec of this `Arr`.
     pub fn values_ref(&self) -> &Vec<Value> {
         &self.inner.values
diff --git a/src/obj.rs b/src/obj.rs
index 35caa11..b06efae 100644
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -6,7 +6,7 @@ use crate::{
     parse::{self, format::Format},
     tup::Tup,
     util,
-    value::Value,
+    value::{self, Value},
     OverResult, ReferenceType, INDENT_STEP,
 };
 use num_bigint::BigInt;
@@ -27,6 +27,22 @@ struct ObjInner {
     id: usize,
 }
 
+impl ObjInner {
+    // Moves the values and the parent to `values`.
+    fn take_values(&mut self, values: &mut Vec<Value>) {
+        values.extend(self.pairs.drain(..).map(|Pair(_, value)| value));
+        values.extend(self.parent.take().map(Value::Obj));
+    }
+}
+
+impl Drop for ObjInner {
+    fn drop(&mut self) {
+        let mut values = vec![];
+        self.take_values(&mut values);
+        value::release(values);
+    }
+}
+
 /// `Obj` struct.
 ///
 /// This struct is immutable and cannot be modified once created.
@@ -137,6 +153,13 @@ impl Obj {
         }
     }
 
+    // Drops this reference. If it is the last one, the values and the parent are moved to `values`.
+    pub(crate) fn release_into(self, values: &mut Vec<Value>) {
+        if let Some(mut inner) = Arc::into_inner(self.inner) {
+            inner.take_values(values);
+        }
+    }
+
     /// Returns a reference to the inner vec of this `Obj`.
     pub fn pairs_ref(&self) -> &Vec<Pair> {
         &self.inner.pairs
diff --git a/src/tup.rs b/src/tup.rs
index eacb2f1..fb54568 100644
--- a/src/tup.rs
+++ b/src/tup.rs
@@ -1,10 +1,10 @@
 //! A tuple container which can hold elements of different types.
 
 use crate::{
-    parse::format::Format, types::Type, value::Value, OverError, OverResult, ReferenceType,
+    parse::format::Format, types::Type, value::{self, Value}, OverError, OverResult, ReferenceType,
     INDENT_STEP,
 };
-use std::{fmt, slice::Iter, sync::Arc};
+use std::{fmt, mem, slice::Iter, sync::Arc};
 
 #[derive(Clone, Debug)]
 struct TupInner {
@@ -16,6 +16,12 @@ struct TupInner {
     id: usize,
 }
 
+impl Drop for TupInner {
+    fn drop(&mut self) {
+        value::release(mem::take(&mut self.values));
+    }
+}
+
 /// `Tup` struct.
 #[derive(Clone, Debug)]
 pub struct Tup {
@@ -41,6 +47,13 @@ impl Tup {
         }
     }
 
+    // Drops this reference. If it is the last one, the elements are moved to `values`.
+    pub(crate) fn release_into(self, values: &mut Vec<Value>) {
+        if let Some(mut inner) = Arc::into_inner(self.inner) {
+            values.append(&mut inner.values);
+        }
+    }
+
     /// Returns a reference to the inner vec of this `Tup`.
     pub fn values_ref(&self) -> &Vec<Value> {
         &self.inner.values
diff --git a/src/value.rs b/src/value.rs
index d6771ba..5249e04 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -33,6 +33,19 @@ pub enum Value {
     Obj(obj::Obj),
 }
 
+// Drops values and whatever is only held by them. Containers can be nested to any depth through
+// variables, so this must not recurse.
+pub(crate) fn release(mut values: Vec<Value>) {
+    while let Some(value) = values.pop() {
+        match value {
+            Value::Arr(arr) => arr.release_into(&mut values),
+            Value::Tup(tup) => tup.release_into(&mut values),
+            Value::Obj(obj) => obj.release_into(&mut values),
+            _ => (),
+        }
+    }
+}
+
 macro_rules! get_fn {
     ( $doc:expr, $name:tt, $type:ty, $variant:ident ) => {
         #[doc=$doc]
-- 
2.43.0


From 727dd6932a02bafa7c5494999340ddf9167f94fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:54 +0000
Subject: [PATCH 16/16] fix: look up fields without recursion

---
 src/obj.rs | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index b06efae..621a57a 100644
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -231,34 +231,26 @@ impl Obj {
 
     /// Gets the `Value` associated with `field` in this object or the first parent with `field`.
     pub fn get(&self, field: &str) -> Option<Value> {
-        match self
-            .inner
-            .pairs
-            .iter()
-            .find(|Pair(ref field_name, _)| field_name == field)
-        {
-            Some(Pair(_, ref value)) => Some(value.clone()),
-            None => match self.inner.parent {
-                Some(ref parent) => parent.get(field),
-                None => None,
-            },
-        }
+        self.find(field).map(|(value, _)| value.clone())
     }
 
     /// Gets the `Value` associated with `field` and the `Obj` where it was found (either `self` or
     /// one of its parents).
     pub fn get_with_source(&self, field: &str) -> Option<(Value, Self)> {
-        match self
-            .inner
-            .pairs
-            .iter()
-            .find(|Pair(ref field_name, _)| field_name == field)
-        {
-            Some(Pair(_, ref value)) => Some((value.clone(), self.clone())),
-            None => match self.inner.parent {
-                Some(ref parent) => parent.get_with_source(field),
-                None => None,
-            },
+        self.find(field)
+            .map(|(value, source)| (value.clone(), source.clone()))
+    }
+
+    // Finds `field` in this object or the first parent with `field`.
+    fn find(&self, field: &str) -> Option<(&Value, &Self)> {
+        let mut source = self;
+
+        loop {
+            let pairs = &source.inner.pairs;
+            if let Some(Pair(_, value)) = pairs.iter().find(|Pair(name, _)| name == field) {
+                return Some((value, source));
+            }
+            source = source.inner.parent.as_ref()?;
         }
     }
 
-- 
2.43.0

