From bc78540f219631a68bcc783a968228605247ad9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:30 +0000
Subject: [PATCH 1/8] fix: do not panic on an object without elements or
 materials

An object that declares no elements and no `usemtl` statement has an empty
table of material names, so building its geometry set indexed out of bounds:
`obj::parse("v 1 2 3\n")` panicked.
---
 src/obj.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index caaa91c..a955207 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -1446,10 +1446,12 @@ impl<'a> Parser<'a> {
                         smoothing_group_index,
                     ));
 
-                    material_name_entry_table.push((
-                        (min_element_material_name_index, max_element_material_name_index),
-                        material_name_index,
-                    ));
+                    if !material_names.is_empty() {
+                        material_name_entry_table.push((
+                            (min_element_material_name_index, max_element_material_name_index),
+                            material_name_index,
+                        ));
+                    }
 
                     break;
                 }
-- 
2.43.0


From 94e64c8b666740a4e81917ea07b15e35c448001e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:31 +0000
Subject: [PATCH 2/8] fix: resolve negative indices relative to the end of the
 vertex list

`-1` names the most recently declared vertex. The parser subtracted the
negative value from the vertex count instead of adding it, so every negative
index was out of range, and the smallest integer overflowed.
---
 src/obj.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obj.rs b/src/obj.rs
index a955207..48f7bee 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -881,7 +881,7 @@ impl<'a> Parser<'a> {
     fn calculate_index(&self, value_range: (usize, usize), parsed_value: isize) -> Result<usize, ParseError> {
         let (min_value, max_value) = value_range;
         let actual_value = if parsed_value <= 0 {
-            max_value as isize - parsed_value
+            max_value as isize + parsed_value
         } else {
             parsed_value - 1
         };
-- 
2.43.0


From 4fe6b4e077c6997e1eb87b5fc5cdf7c5cba23b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:32 +0000
Subject: [PATCH 3/8] fix: report invalid indices on line and face statements

The index list of a line or face ended at the first index that failed to
parse, discarding the error together with the rest of the list, so
`f 1 2 3 99` silently lost a vertex that is out of range.
---
 src/obj.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index 48f7bee..c3eb53e 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -972,9 +972,9 @@ impl<'a> Parser<'a> {
         normal_index_range: (usize, usize),
     ) -> Result<usize, ParseError> {
         let mut indices_parsed = 0;
-        while let Ok(vtn_index) =
-            self.parse_vtn_index(vertex_index_range, texture_index_range, normal_index_range)
-        {
+        while self.peek().is_some_and(|st| st != "\n") {
+            let vtn_index =
+                self.parse_vtn_index(vertex_index_range, texture_index_range, normal_index_range)?;
             vtn_indices.push(vtn_index);
             indices_parsed += 1;
         }
-- 
2.43.0


From f82cfebd9fe41ae7c596c19b2488a5a8d7e480f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:34 +0000
Subject: [PATCH 4/8] fix: do not take the end of the line as a name in OBJ
 statements

An `o`, `s` or `usemtl` statement without an argument consumed the newline
token as its argument, e.g. `usemtl` named a material "\n".
---
 src/obj.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index c3eb53e..074baef 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -868,7 +868,15 @@ impl<'a> Parser<'a> {
         match self.peek() {
             Some("o") => {
                 self.expect_tag("o")?;
-                let object_name = self.next_string();
+                let object_name = match self.next_string() {
+                    Ok("\n") => {
+                        return self.error(
+                            ErrorKind::InvalidObjectStatement,
+                            "Got an object declaration without an object name.".to_owned(),
+                        )
+                    }
+                    object_name => object_name,
+                };
                 self.skip_one_or_more_newlines()?;
 
                 object_name
@@ -1163,7 +1171,7 @@ impl<'a> Parser<'a> {
         smoothing_groups: &mut Vec<SmoothingGroup>,
     ) -> Result<usize, ParseError> {
         self.expect_tag("s")?;
-        if let Some(name) = self.next() {
+        if let Some(name) = self.next().filter(|name| *name != "\n") {
             if name == "off" {
                 smoothing_groups.push(SmoothingGroup(0));
             } else if let Ok(number) = name.parse::<usize>() {
@@ -1194,7 +1202,7 @@ impl<'a> Parser<'a> {
         material_names: &mut Vec<Option<&'a str>>,
     ) -> Result<usize, ParseError> {
         self.expect_tag("usemtl")?;
-        if let Some(name) = self.next() {
+        if let Some(name) = self.next().filter(|name| *name != "\n") {
             material_names.push(Some(name));
         } else {
             return self.error(
-- 
2.43.0


From 1afa2d3ebb9262893aa2e844c9c38e71affe51ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:35 +0000
Subject: [PATCH 5/8] fix: do not take the end of the line as a name in MTL
 statements

A `newmtl` or texture map statement without an argument consumed the newline
token as its argument, e.g. `newmtl` named a material "\n".
---
 src/mtl.rs | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/mtl.rs b/src/mtl.rs
index 186a94b..364c114 100755
--- a/src/mtl.rs
+++ b/src/mtl.rs
@@ -434,6 +434,10 @@ impl<'a> Parser<'a> {
 
         self.expect_tag("map_Ka")?;
         match self.next() {
+            Some("\n") => self.error(
+                ErrorKind::ErrorParsingMaterial,
+                "Expected texture map name but got end of line.".to_owned(),
+            ),
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -451,6 +455,10 @@ impl<'a> Parser<'a> {
 
         self.expect_tag("map_Kd")?;
         match self.next() {
+            Some("\n") => self.error(
+                ErrorKind::ErrorParsingMaterial,
+                "Expected texture map name but got end of line.".to_owned(),
+            ),
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -468,6 +476,10 @@ impl<'a> Parser<'a> {
 
         self.expect_tag("map_Ks")?;
         match self.next() {
+            Some("\n") => self.error(
+                ErrorKind::ErrorParsingMaterial,
+                "Expected texture map name but got end of line.".to_owned(),
+            ),
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -485,6 +497,10 @@ impl<'a> Parser<'a> {
 
         self.expect_tag("map_Ke")?;
         match self.next() {
+            Some("\n") => self.error(
+                ErrorKind::ErrorParsingMaterial,
+                "Expected texture map name but got end of line.".to_owned(),
+            ),
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -506,6 +522,10 @@ impl<'a> Parser<'a> {
         }
 
         match self.next() {
+            Some("\n") => self.error(
+                ErrorKind::ErrorParsingMaterial,
+                "Expected texture map name but got end of line.".to_owned(),
+            ),
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -523,6 +543,10 @@ impl<'a> Parser<'a> {
 
         self.expect_tag("disp")?;
         match self.next() {
+            Some("\n") => self.error(
+                ErrorKind::ErrorParsingMaterial,
+                "Expected texture map name but got end of line.".to_owned(),
+            ),
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -540,6 +564,10 @@ impl<'a> Parser<'a> {
 
         self.expect_tag("map_d")?;
         match self.next() {
+            Some("\n") => self.error(
+                ErrorKind::ErrorParsingMaterial,
+                "Expected texture map name but got end of line.".to_owned(),
+            ),
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -557,6 +585,10 @@ impl<'a> Parser<'a> {
 
         self.expect_tag("decal")?;
         match self.next() {
+            Some("\n") => self.error(
+                ErrorKind::ErrorParsingMaterial,
+                "Expected texture map name but got end of line.".to_owned(),
+            ),
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -574,6 +606,10 @@ impl<'a> Parser<'a> {
 
         self.expect_tag("map_Ns")?;
         match self.next() {
+            Some("\n") => self.error(
+                ErrorKind::ErrorParsingMaterial,
+                "Expected texture map name but got end of line.".to_owned(),
+            ),
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -616,6 +652,10 @@ impl<'a> Parser<'a> {
         }
 
         match self.next() {
+            Some("\n") => self.error(
+                ErrorKind::ErrorParsingMaterial,
+                "Expected material name but got end of line.".to_owned(),
+            ),
             Some(st) => Ok(st),
             None => self.error(
                 ErrorKind::EndOfFile,
-- 
2.43.0


From 5569c0666f6862752a54dd16f13c77b163140edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:37 +0000
Subject: [PATCH 6/8] fix: deliver every line ending as a newline token

The lexer ends a line at a carriage return, but delivered it as a "\r" token
that neither parser recognizes: files with CRLF line endings were rejected,
or got groups and libraries named "\r".
---
 src/lexer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 9c252c7..0665efc 100755
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -115,8 +115,12 @@ impl<'a> Lexer<'a> {
 
         match self.peek() {
             Some(&ch) if is_newline(ch) => {
+                let is_carriage_return = ch == b'\r';
                 self.advance();
-                self.stream.get(start_position..self.stream_position)
+                if is_carriage_return && self.peek() == Some(&b'\n') {
+                    self.advance();
+                }
+                Some(b"\n")
             }
             Some(_) => {
                 let skipped = self.skip_unless(|ch| is_whitespace_or_newline(ch) || ch == b'#');
-- 
2.43.0


From b8a93fcbcabf4ff7927df1c7346b9c76203f9c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:38 +0000
Subject: [PATCH 7/8] fix: report an error at the end of a line on that line

The line number advanced as soon as the newline token was consumed, so a
statement cut short by the end of its line, e.g. `v 1 2`, was reported on the
following line.
---
 src/mtl.rs | 22 +++++++++++++++++-----
 src/obj.rs | 22 +++++++++++++++++-----
 2 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/mtl.rs b/src/mtl.rs
index 364c114..3332dbb 100755
--- a/src/mtl.rs
+++ b/src/mtl.rs
@@ -276,6 +276,8 @@ pub struct Parser<'a> {
     line_number: usize,
     /// The underlying lexer that tokenizes the input stream.
     lexer: PeekableLexer<'a>,
+    /// Whether the last token consumed ended a line that is not counted yet.
+    at_line_end: bool,
 }
 
 impl<'a> Parser<'a> {
@@ -284,6 +286,7 @@ impl<'a> Parser<'a> {
         Parser {
             line_number: 1,
             lexer: PeekableLexer::new(Lexer::new(input)),
+            at_line_end: false,
         }
     }
 
@@ -292,19 +295,28 @@ impl<'a> Parser<'a> {
         Err(ParseError::new(self.line_number, kind, message))
     }
 
+    /// Count the line that the last token consumed has ended, if any.
+    ///
+    /// This happens when the parser looks past the end of the line, so that an
+    /// error at the end of a line is reported on that line.
+    fn count_ended_line(&mut self) {
+        if self.at_line_end {
+            self.line_number += 1;
+            self.at_line_end = false;
+        }
+    }
+
     /// Peek at the currently held token without advancing the token stream.
     fn peek(&mut self) -> Option<&'a str> {
+        self.count_ended_line();
         self.lexer.peek()
     }
 
     /// Advance the token stream one step returning the currently held string.
     fn next(&mut self) -> Option<&'a str> {
+        self.count_ended_line();
         let token = self.lexer.next();
-        if let Some(val) = token {
-            if val == "\n" {
-                self.line_number += 1;
-            }
-        }
+        self.at_line_end = token == Some("\n");
 
         token
     }
diff --git a/src/obj.rs b/src/obj.rs
index 074baef..20c66ad 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -666,6 +666,8 @@ pub struct Parser<'a> {
     line_number: usize,
     /// the underlying lexer that generates tokens.
     lexer: PeekableLexer<'a>,
+    /// Whether the last token consumed ended a line that is not counted yet.
+    at_line_end: bool,
 }
 
 /// Triangulate a polygon with a triangle fan.
@@ -701,6 +703,7 @@ impl<'a> Parser<'a> {
         Parser {
             line_number: 1,
             lexer: PeekableLexer::new(Lexer::new(input)),
+            at_line_end: false,
         }
     }
 
@@ -709,19 +712,28 @@ impl<'a> Parser<'a> {
         Err(ParseError::new(self.line_number, kind, message))
     }
 
+    /// Count the line that the last token consumed has ended, if any.
+    ///
+    /// This happens when the parser looks past the end of the line, so that an
+    /// error at the end of a line is reported on that line.
+    fn count_ended_line(&mut self) {
+        if self.at_line_end {
+            self.line_number += 1;
+            self.at_line_end = false;
+        }
+    }
+
     /// Peek at the currently held token without advancing the token stream.
     fn peek(&mut self) -> Option<&'a str> {
+        self.count_ended_line();
         self.lexer.peek()
     }
 
     /// Advance the token stream one step returning the currently held string.
     fn next(&mut self) -> Option<&'a str> {
+        self.count_ended_line();
         let token = self.lexer.next();
-        if let Some(val) = token {
-            if val == "\n" {
-                self.line_number += 1;
-            }
-        }
+        self.at_line_end = token == Some("\n");
 
         token
     }
-- 
2.43.0


From 81d534ea769e74f9c86850cfd3f1eeb8d8f693fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:39 +0000
Subject: [PATCH 8/8] fix: balance the braces when displaying an object

The closing brace is written without a format string, where `}}` is not an
escape but two braces.
---
 src/obj.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obj.rs b/src/obj.rs
index 20c66ad..7a7faa6 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -550,7 +550,7 @@ impl DisplayObjectCompositor {
         string += &self.compose_set(&object.group_set, "group");
         string += &self.compose_set(&object.smoothing_group_set, "smoothing group");
         string += &self.compose_set(&object.element_set, "element");
-        string += "}}\n";
+        string += "}\n";
 
         string
     }
-- 
2.43.0

