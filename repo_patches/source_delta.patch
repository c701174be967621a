From 5a078554f5fd8183ab6b0833497c82c9b162a2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:00 +0000
Subject: [PATCH 01/13] fix: compare the end of parsing with the text length in
 bytes

Offsets are in bytes, so comparing with the number of characters accepted
documents with unread text when they contain multi-byte characters.
---
 src/meta_rules/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meta_rules/mod.rs b/src/meta_rules/mod.rs
index c1766a0..3be4666 100644
--- a/src/meta_rules/mod.rs
+++ b/src/meta_rules/mod.rs
@@ -72,7 +72,7 @@ pub fn parse_with_indent(
     match res {
         Ok((range, s, opt_error)) => {
             // Report error if did not reach the end of text.
-            if range.next_offset() < text.chars().count() {
+            if range.next_offset() < text.len() {
                 Err(ret_err(
                     Range::empty(range.next_offset()).wrap(
                         ParseError::ExpectedEnd),
-- 
2.43.0


From 4598d376d358e076734efe64cd6338b222500449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:19 +0000
Subject: [PATCH 02/13] fix: try the last rule of a fast select at the end of
 the text

A select with rules that can read nothing succeeds at the end of the text,
so the optimized rule must do the same.
---
 src/meta_rules/fast_select.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/meta_rules/fast_select.rs b/src/meta_rules/fast_select.rs
index 9e4fb57..d7159d3 100644
--- a/src/meta_rules/fast_select.rs
+++ b/src/meta_rules/fast_select.rs
@@ -50,8 +50,8 @@ impl FastSelect {
         indent_settings: &mut IndentSettings,
     ) -> ParseResult<TokenizerState> {
         if self.tail {
+            let mut opt_error: Option<Range<ParseError>> = None;
             if let Some(ch) = read_token.src.chars().next() {
-                let mut opt_error: Option<Range<ParseError>> = None;
                 let mut buf = [0; 4];
                 ch.encode_utf8(&mut buf);
                 let ind = self.table[buf[0] as usize];
@@ -68,20 +68,18 @@ impl FastSelect {
                         }
                     }
                 }
-                let sub_rule = &self.args[self.args.len()-1];
-                match sub_rule.parse(tokens, state, read_token, refs, indent_settings) {
-                    Ok((range, state, err)) => {
-                        err_update(err, &mut opt_error);
-                        Ok((read_token.peek(range.length),
-                            state, opt_error))
-                    }
-                    Err(err) => {
-                        Err(ret_err(err, opt_error))
-                    }
+            }
+            // The last rule might succeed even if there is no text left.
+            let sub_rule = &self.args[self.args.len()-1];
+            match sub_rule.parse(tokens, state, read_token, refs, indent_settings) {
+                Ok((range, state, err)) => {
+                    err_update(err, &mut opt_error);
+                    Ok((read_token.peek(range.length),
+                        state, opt_error))
+                }
+                Err(err) => {
+                    Err(ret_err(err, opt_error))
                 }
-            } else {
-                Err(read_token.start().wrap(
-                    ParseError::ExpectedSomething(self.debug_id)))
             }
         } else {
             if let Some(ch) = read_token.src.chars().next() {
-- 
2.43.0


From d1ce10d8af41c1e304a7fc0036ea9a00b5c1ee57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:21 +0000
Subject: [PATCH 03/13] fix: escape control characters when writing JSON
 strings

---
 src/json.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/json.rs b/src/json.rs
index 6e187b9..c984b14 100644
--- a/src/json.rs
+++ b/src/json.rs
@@ -83,6 +83,8 @@ pub fn write_string<W>(w: &mut W, val: &str) -> Result<(), io::Error>
             write!(w, "\\r")?;
         } else if c == '\t' {
             write!(w, "\\t")?;
+        } else if c < ' ' {
+            write!(w, "\\u{:04x}", c as u32)?;
         } else {
             write!(w, "{}", c)?;
         }
-- 
2.43.0


From f2ac6c1d57c9e4c6f52cd75b2566407a58c55d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:22 +0000
Subject: [PATCH 04/13] fix: do not underflow the indention when writing
 unbalanced meta data as JSON

---
 src/json.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/json.rs b/src/json.rs
index c984b14..eb07910 100644
--- a/src/json.rs
+++ b/src/json.rs
@@ -25,7 +25,8 @@ pub fn write<W>(w: &mut W, data: &[Range<MetaData>]) -> Result<(), io::Error>
     for (i, d) in data.iter().enumerate() {
         let d = &d.data;
         let is_end = if let MetaData::EndNode(_) = *d {
-            indent -= 1;
+            // Data that is not well nested can end more nodes than it starts.
+            indent = indent.saturating_sub(1);
             true
         } else { false };
         let print_comma = !first && !is_end;
-- 
2.43.0


From d5a60be982258c70895965df63763ed87dd4191e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:45 +0000
Subject: [PATCH 05/13] fix: compare fast selects by their contents

A syntax with an optimized select was not equal to its own clone.
---
 src/meta_rules/fast_select.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/meta_rules/fast_select.rs b/src/meta_rules/fast_select.rs
index d7159d3..25842c0 100644
--- a/src/meta_rules/fast_select.rs
+++ b/src/meta_rules/fast_select.rs
@@ -30,7 +30,12 @@ pub struct FastSelect {
 }
 
 impl PartialEq for FastSelect {
-    fn eq(&self, _: &Self) -> bool {false}
+    fn eq(&self, other: &Self) -> bool {
+        self.table[..] == other.table[..]
+            && self.args == other.args
+            && self.tail == other.tail
+            && self.debug_id == other.debug_id
+    }
 }
 
 impl std::fmt::Debug for FastSelect {
-- 
2.43.0


From 9a17b1ad3f4c32b2bd6dba083ef746b38ace3a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:46 +0000
Subject: [PATCH 06/13] fix: stop repeating rules that read nothing

Repeating or separating a rule that succeeds without reading never ended.
---
 src/meta_rules/repeat.rs      | 3 +++
 src/meta_rules/separate_by.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/meta_rules/repeat.rs b/src/meta_rules/repeat.rs
index 3a6b83e..9cfcde2 100644
--- a/src/meta_rules/repeat.rs
+++ b/src/meta_rules/repeat.rs
@@ -42,6 +42,7 @@ impl Repeat {
         let mut opt_error = None;
         let mut first = true;
         loop {
+            let offset = read_token.offset;
             state = match self.rule.parse(tokens, &state, &read_token, refs, indent_settings) {
                 Err(err) => {
                     if first && !self.optional {
@@ -57,6 +58,8 @@ impl Repeat {
                 }
             };
             first = false;
+            // A rule that reads nothing would be repeated forever.
+            if read_token.offset == offset { break; }
         }
         Ok((read_token.subtract(start), state, opt_error))
     }
diff --git a/src/meta_rules/separate_by.rs b/src/meta_rules/separate_by.rs
index 3d7457b..1038b33 100644
--- a/src/meta_rules/separate_by.rs
+++ b/src/meta_rules/separate_by.rs
@@ -46,6 +46,7 @@ impl SeparateBy {
         let mut first = true;
         let mut opt_error = None;
         loop {
+            let offset = read_token.offset;
             state = match self.rule.parse(tokens, &state, &read_token, refs, indent_settings) {
                 Err(err) => {
                     match (first, self.optional, self.allow_trail) {
@@ -78,6 +79,8 @@ impl SeparateBy {
                 }
             };
             first = false;
+            // Rules that read nothing would be repeated forever.
+            if read_token.offset == offset { break; }
         }
         Ok((read_token.subtract(start), state, opt_error))
     }
-- 
2.43.0


From 1b23236a950cc752634f099fd49c5b2a9f682d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:48 +0000
Subject: [PATCH 07/13] fix: restore the indention after reading an indented
 block

Aligning to the first line of a block changed the indention of the rules
that are read after the block.
---
 src/meta_rules/lines.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/meta_rules/lines.rs b/src/meta_rules/lines.rs
index 7a5d316..ce61867 100644
--- a/src/meta_rules/lines.rs
+++ b/src/meta_rules/lines.rs
@@ -42,7 +42,9 @@ impl Lines {
         let mut opt_error = None;
         let mut first = true;
         if self.indent {
-            match read_token.lines(|read_token| {
+            // Aligning to the first line changes the indention of this block only.
+            let start_indent = indent_settings.indent;
+            let res = read_token.lines(|read_token| {
                 let offset = read_token.offset;
                 let mut read_token = *read_token;
                 if self.indent {
@@ -101,7 +103,9 @@ impl Lines {
                         Some(range)
                     }
                 }
-            }) {
+            });
+            indent_settings.indent = start_indent;
+            match res {
                 Err(range) => {
                     let err = range.wrap(
                         ParseError::ExpectedNewLine(self.debug_id));
-- 
2.43.0


From 122d6501a74fc39ad983f1990ca72e6ff1bb7b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:49 +0000
Subject: [PATCH 08/13] fix: end an indented block at a line that is indented
 deeper with a tab

A deeper line ended the block when indented with spaces, but was read as
a line of the block when indented with a tab.
---
 src/meta_rules/lines.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meta_rules/lines.rs b/src/meta_rules/lines.rs
index ce61867..ac0edfb 100644
--- a/src/meta_rules/lines.rs
+++ b/src/meta_rules/lines.rs
@@ -78,7 +78,7 @@ impl Lines {
                             }
                         }
                     } else {
-                        if let Some(_) = read_token.tag(" ") {
+                        if read_token.tag(" ").is_some() || read_token.tag("\t").is_some() {
                             return None;
                         }
                     }
-- 
2.43.0


From dc62fe37c7eb77e78e93283593ca5e52e4fec0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:15 +0000
Subject: [PATCH 09/13] fix: return an error when converting truncated or
 unbalanced meta data

Converting looped forever when the data ended inside a node, and overflowed
when ignoring the end of a node that was not started.
---
 src/bootstrap/convert.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/bootstrap/convert.rs b/src/bootstrap/convert.rs
index 7f7d5ab..ee56a6b 100644
--- a/src/bootstrap/convert.rs
+++ b/src/bootstrap/convert.rs
@@ -95,7 +95,8 @@ impl<'a> Convert<'a> {
         for item in self.data.iter() {
             match &item.data {
                 &MetaData::StartNode(_) => acc += 1,
-                &MetaData::EndNode(_) => acc -= 1,
+                // The end of a node that was not started is a single item.
+                &MetaData::EndNode(_) => acc = acc.saturating_sub(1),
                 _ => {}
             }
             len += 1;
@@ -144,6 +145,12 @@ pub fn convert(
     ignored: &mut Vec<Range>
 ) -> Result<Syntax, ()> {
 
+    /// Ignores next item, fails if there is none left.
+    fn ignore_item(convert: &Convert) -> Result<Range, ()> {
+        if convert.remaining_data_len() == 0 { return Err(()); }
+        Ok(convert.ignore())
+    }
+
     fn read_string(mut convert: Convert)
     -> Result<(Range, (Arc<String>, Arc<String>)), ()> {
         let start = convert.clone();
@@ -197,7 +204,7 @@ pub fn convert(
                 convert.update(range);
                 args.push(val);
             } else {
-                let range = convert.ignore();
+                let range = ignore_item(&convert)?;
                 convert.update(range);
                 ignored.push(range);
             }
@@ -269,7 +276,7 @@ pub fn convert(
                 convert.update(range);
                 property = Some(val);
             } else {
-                let range = convert.ignore();
+                let range = ignore_item(&convert)?;
                 convert.update(range);
                 ignored.push(range);
             }
@@ -317,7 +324,7 @@ pub fn convert(
                 convert.update(range);
                 property = Some(val);
             } else {
-                let range = convert.ignore();
+                let range = ignore_item(&convert)?;
                 convert.update(range);
                 ignored.push(range);
             }
@@ -370,7 +377,7 @@ pub fn convert(
                 convert.update(range);
                 inverted = Some(val);
             } else {
-                let range = convert.ignore();
+                let range = ignore_item(&convert)?;
                 convert.update(range);
                 ignored.push(range);
             }
@@ -433,7 +440,7 @@ pub fn convert(
                 convert.update(range);
                 property = Some(val);
             } else {
-                let range = convert.ignore();
+                let range = ignore_item(&convert)?;
                 convert.update(range);
                 ignored.push(range);
             }
@@ -472,7 +479,7 @@ pub fn convert(
                 convert.update(range);
                 underscore = Some(val);
             } else {
-                let range = convert.ignore();
+                let range = ignore_item(&convert)?;
                 convert.update(range);
                 ignored.push(range);
             }
@@ -511,7 +518,7 @@ pub fn convert(
                 convert.update(range);
                 property = Some(val);
             } else {
-                let range = convert.ignore();
+                let range = ignore_item(&convert)?;
                 convert.update(range);
                 ignored.push(range);
             }
@@ -552,7 +559,7 @@ pub fn convert(
                 convert.update(range);
                 args.push(val);
             } else {
-                let range = convert.ignore();
+                let range = ignore_item(&convert)?;
                 convert.update(range);
                 ignored.push(range);
             }
@@ -648,7 +655,7 @@ pub fn convert(
                 convert.update(range);
                 rule = Some(val);
             } else {
-                let range = convert.ignore();
+                let range = ignore_item(&convert)?;
                 convert.update(range);
                 ignored.push(range);
             }
@@ -724,7 +731,7 @@ pub fn convert(
                 convert.update(range);
                 optional = Some(val);
             } else {
-                let range = convert.ignore();
+                let range = ignore_item(&convert)?;
                 convert.update(range);
                 ignored.push(range);
             }
@@ -863,7 +870,7 @@ pub fn convert(
                 rule = Some(val);
                 convert.update(range);
             } else {
-                let range = convert.ignore();
+                let range = ignore_item(&convert)?;
                 convert.update(range);
                 ignored.push(range);
             }
-- 
2.43.0


From aa8261b01b218389f6a3aa8adf7a86ed87cfd7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:17 +0000
Subject: [PATCH 10/13] fix: report node ids that are too large instead of
 overflowing

---
 src/bootstrap/convert.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bootstrap/convert.rs b/src/bootstrap/convert.rs
index ee56a6b..2285d34 100644
--- a/src/bootstrap/convert.rs
+++ b/src/bootstrap/convert.rs
@@ -858,7 +858,12 @@ pub fn convert(
                 convert.update(range);
                 break;
             } else if let Ok((range, val)) = convert.meta_f64("id") {
-                id = Some(val as usize);
+                let val = val as usize;
+                // Leave room for the debug ids of the sub rules.
+                val.checked_mul(1000)
+                    .and_then(|id| id.checked_add(convert.remaining_data_len()))
+                    .ok_or(())?;
+                id = Some(val);
                 convert.update(range);
             } else if let Ok((range, val)) = convert.meta_string("name") {
                 name = Some(val);
-- 
2.43.0


From a88dc6f69b409bc9e11d038f970100fb30309f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:18 +0000
Subject: [PATCH 11/13] fix: do not recurse forever when optimizing left
 recursive rules

Reading a syntax with a rule that starts with itself overflowed the stack.
---
 src/optimize.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/optimize.rs b/src/optimize.rs
index 5f55f09..429752a 100644
--- a/src/optimize.rs
+++ b/src/optimize.rs
@@ -28,6 +28,11 @@ pub fn unique_table_from_select(select: &Select, refs: &[Rule]) -> ([u8; 256], u
 /// Finds a unique byte from rule that determines whether
 /// the rule will fail if it does not equals the next byte.
 pub fn unique_byte(rule: &Rule, refs: &[Rule]) -> Option<u8> {
+    unique_byte_within(rule, refs, refs.len())
+}
+
+/// Follows at most `depth` references, such that left recursive rules end the search.
+fn unique_byte_within(rule: &Rule, refs: &[Rule], depth: usize) -> Option<u8> {
     match *rule {
         Rule::Whitespace(_) => None,
         Rule::UntilAny(_) => None,
@@ -37,28 +42,29 @@ pub fn unique_byte(rule: &Rule, refs: &[Rule]) -> Option<u8> {
         Rule::Optional(_) => None,
         Rule::FastSelect(_) => None,
         Rule::Not(ref not) => {
-            if let Rule::Not(ref r) = not.rule {unique_byte(&r.rule, refs)}
+            if let Rule::Not(ref r) = not.rule {unique_byte_within(&r.rule, refs, depth)}
             else {None}
         }
         Rule::Text(_) => Some(0x22),
         Rule::Select(ref sel) => {
-            if sel.args.len() == 1 {unique_byte(&sel.args[0], refs)}
+            if sel.args.len() == 1 {unique_byte_within(&sel.args[0], refs, depth)}
             else {None}
         }
         Rule::SeparateBy(ref sep) => {
             if sep.optional {None}
-            else {unique_byte(&sep.rule, refs)}
+            else {unique_byte_within(&sep.rule, refs, depth)}
         }
         Rule::Sequence(ref seq) => {
             if seq.args.len() == 0 {None}
-            else {unique_byte(&seq.args[0], refs)}
+            else {unique_byte_within(&seq.args[0], refs, depth)}
         }
         Rule::Repeat(ref rep) => {
             if rep.optional {None}
-            else {unique_byte(&rep.rule, refs)}
+            else {unique_byte_within(&rep.rule, refs, depth)}
         }
         Rule::Node(ref node) => {
-            if let Some(index) = node.index {unique_byte(&refs[index], refs)}
+            if depth == 0 {return None};
+            if let Some(index) = node.index {unique_byte_within(&refs[index], refs, depth - 1)}
             else {None}
         }
         Rule::Tag(ref tag) => {
-- 
2.43.0


From f3bec8fd3a33551729c8c76787e78baaf740a877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:39 +0000
Subject: [PATCH 12/13] fix: report errors by character column in lines with
 multi-byte characters

The byte offset in the line was used as the number of characters, which put
the caret and the window in the wrong place.
---
 src/parse_error_handler.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parse_error_handler.rs b/src/parse_error_handler.rs
index 2874f8a..f27a585 100644
--- a/src/parse_error_handler.rs
+++ b/src/parse_error_handler.rs
@@ -14,6 +14,11 @@ pub fn stderr_unwrap<T>(source: &str, res: Result<T, Range<ParseError>>) -> T {
     }
 }
 
+/// Counts the characters in front of a byte offset in a line.
+fn column(line: &str, offset: usize) -> usize {
+    line.char_indices().take_while(|&(i, _)| i < offset).count()
+}
+
 /// Reports error.
 pub struct ParseErrorHandler<'a> {
     lines: Vec<(Range, &'a str)>,
@@ -48,7 +53,7 @@ impl<'a> ParseErrorHandler<'a> {
         for (i, &(r, text)) in self.lines.iter().enumerate() {
             if let Some(intersect) = range.ends_intersect(&r) {
                 if intersect.offset >= r.offset {
-                    let j = intersect.offset - r.offset;
+                    let j = column(text, intersect.offset - r.offset);
                     let s = if j > 75 { j - 50 } else { 0 };
                     let e = ::std::cmp::min(s + 100, r.length);
                     write!(w, "{},{}: ", i + 1, j + 1)?;
@@ -122,7 +127,7 @@ impl<'a> ParseErrorHandler<'a> {
         for (i, &(r, text)) in self.lines.iter().enumerate() {
             if let Some(intersect) = range.ends_intersect(&r) {
                 if intersect.offset >= r.offset {
-                    let j = intersect.offset - r.offset;
+                    let j = column(text, intersect.offset - r.offset);
                     let s = if j > 75 { j - 50 } else { 0 };
                     let e = ::std::cmp::min(s + 100, r.length);
                     write!(w, "{},{}: ", i + 1, j + 1)?;
-- 
2.43.0


From 97679e37ef1eeabbdbe35aa342840dedebc03b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:47 +0000
Subject: [PATCH 13/13] fix: do not allow a trailing separator unless it is
 written in the meta language

`.s?(by rule)` is documented to allow no trailing separator, only
`.s?.(by rule)` allows it, but both gave rules that allow it.
---
 src/bootstrap/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bootstrap/convert.rs b/src/bootstrap/convert.rs
index 2285d34..08cd15d 100644
--- a/src/bootstrap/convert.rs
+++ b/src/bootstrap/convert.rs
@@ -661,7 +661,7 @@ pub fn convert(
             }
         }
         let optional = optional.unwrap_or(true);
-        let allow_trail = allow_trail.unwrap_or(true);
+        let allow_trail = allow_trail.unwrap_or(false);
         match (by, rule) {
             (Some(by), Some(rule)) => {
                 *debug_id += 1;
-- 
2.43.0

