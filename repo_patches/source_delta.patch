From a8648d3b0f0853b61f0ab68fe9c1f9dbb39211b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:08 +0000
Subject: [PATCH 01/31] fix: do not panic on unicode whitespace indenting a
 code or math block

---
 vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs | 7 +++++--
 vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs
index fe2a661..2f9d1ee 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs
@@ -39,8 +39,11 @@ pub fn code_block(input: Span) -> IResult<Located<CodeBlock>> {
             .map(|mut line| {
                 // Figure out total bytes of leading whitespace so we know if
                 // the line is at the same level of indentation, further, or
-                // earlier
-                let cnt = line.len() - line.trim_start().len();
+                // earlier; only spaces and tabs count as indentation, the same
+                // as what surrounds the markers, so a cut is always made at
+                // the boundary of a character
+                let cnt = line.len()
+                    - line.trim_start_matches(&[' ', '\t'][..]).len();
                 let cnt_to_remove = std::cmp::min(cnt, indent_size);
 
                 match line {
diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs
index 6a8d1a3..2ece65b 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs
@@ -40,8 +40,11 @@ pub fn math_block<'a>(input: Span<'a>) -> IResult<Located<MathBlock<'a>>> {
             .map(|mut line| {
                 // Figure out total bytes of leading whitespace so we know if
                 // the line is at the same level of indentation, further, or
-                // earlier
-                let cnt = line.len() - line.trim_start().len();
+                // earlier; only spaces and tabs count as indentation, the same
+                // as what surrounds the markers, so a cut is always made at
+                // the boundary of a character
+                let cnt = line.len()
+                    - line.trim_start_matches(&[' ', '\t'][..]).len();
                 let cnt_to_remove = std::cmp::min(cnt, indent_size);
 
                 match line {
-- 
2.43.0


From 64c2853d727c4937fa435f8bf67db0f71d42b7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:08 +0000
Subject: [PATCH 02/31] fix: recognize C rather than E as an uppercase roman
 numeral

---
 vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
index bd2a692..0dadd50 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
@@ -324,7 +324,7 @@ fn ordered_list_item_type_upper_roman(
 ) -> IResult<OrderedListItemType> {
     value(
         OrderedListItemType::UppercaseRoman,
-        many1(one_of("IVXLEDM")),
+        many1(one_of("IVXLCDM")),
     )(input)
 }
 
-- 
2.43.0


From fd7dcf72928e928e2003082fc4bed3c0748580fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:08 +0000
Subject: [PATCH 03/31] fix: is_only_whitespace reported true for text of one
 character or ending in whitespace

---
 vimwiki-core/src/lang/parsers/span.rs | 27 ++++-----------------------
 1 file changed, 4 insertions(+), 23 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/span.rs b/vimwiki-core/src/lang/parsers/span.rs
index 586b688..736af43 100644
--- a/vimwiki-core/src/lang/parsers/span.rs
+++ b/vimwiki-core/src/lang/parsers/span.rs
@@ -1,4 +1,4 @@
-use memchr::{memchr2_iter, memchr_iter, memrchr};
+use memchr::{memchr_iter, memrchr};
 use nom::{
     error::{ErrorKind, ParseError},
     AsBytes, Compare, CompareResult, Err, ExtendInto, FindSubstring, FindToken,
@@ -227,28 +227,9 @@ impl<'a> Span<'a> {
     /// Whether or not the remaining bytes are comprised of only spaces
     /// or tabs
     pub fn is_only_whitespace(&self) -> bool {
-        let len = self.remaining_len();
-        if len == 0 {
-            return true;
-        }
-
-        // Iterate through all space and tabs until either we detect some
-        // character that is not space (gap in index) or we find no more
-        // whitespace even though we have more bytes remaining
-        let mut last_pos = 0;
-        for pos in memchr2_iter(b' ', b'\t', self.as_remaining()) {
-            // If we skipped at least one position beyond what would be next,
-            // there was something that didn't match and we can exit
-            if pos - last_pos > 1 {
-                return false;
-            }
-
-            last_pos = pos;
-        }
-
-        // If our last position doesn't correspond to the end of the remaining
-        // bytes, there is something that is not whitespace
-        last_pos == (len - 1)
+        self.as_remaining()
+            .iter()
+            .all(|b| matches!(b, b' ' | b'\t'))
     }
 
     /// Calculates the line and column position of this span using newline (\n)
-- 
2.43.0


From c90d0a2eab6278d4ed2bb1f238844d78ef6faeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:08 +0000
Subject: [PATCH 04/31] fix: SpanIterator::next_back skipped the last byte and
 never reached the first

---
 vimwiki-core/src/lang/parsers/span.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/span.rs b/vimwiki-core/src/lang/parsers/span.rs
index 736af43..cc6e6a0 100644
--- a/vimwiki-core/src/lang/parsers/span.rs
+++ b/vimwiki-core/src/lang/parsers/span.rs
@@ -372,10 +372,9 @@ impl<'a> Iterator for SpanIterator<'a> {
 impl<'a> DoubleEndedIterator for SpanIterator<'a> {
     fn next_back(&mut self) -> Option<Self::Item> {
         let span = &mut self.span;
-        if span.start < span.end && span.end < span.inner.len() {
-            let item = &span.inner[span.end];
+        if span.start < span.end && span.end <= span.inner.len() {
             span.end -= 1;
-            Some(item)
+            Some(&span.inner[span.end])
         } else {
             None
         }
-- 
2.43.0


From faae6ecfae8c4a0d29f30ad2157d0323a3670d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:50 +0000
Subject: [PATCH 05/31] fix: Table::into_children returned children in a random
 order

---
 vimwiki-core/src/lang/elements/blocks/tables.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/tables.rs b/vimwiki-core/src/lang/elements/blocks/tables.rs
index 52c5775..eb09582 100644
--- a/vimwiki-core/src/lang/elements/blocks/tables.rs
+++ b/vimwiki-core/src/lang/elements/blocks/tables.rs
@@ -335,7 +335,13 @@ impl<'a> IntoChildren for Table<'a> {
     type Child = Located<InlineElement<'a>>;
 
     fn into_children(self) -> Vec<Self::Child> {
-        self.cells
+        // NOTE: Cells are stored in no particular order, so put them in the
+        //       order that they appear within the table
+        let mut cells: Vec<(CellPos, Located<Cell<'a>>)> =
+            self.cells.into_iter().collect();
+        cells.sort_by_key(|(pos, _)| (pos.row, pos.col));
+
+        cells
             .into_iter()
             .flat_map(|(_, x)| x.into_inner().into_children())
             .collect()
-- 
2.43.0


From 29cfd5f0980294f8542f65a6fabe0f13121e20f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:39 +0000
Subject: [PATCH 06/31] fix: iterating over the cells of a table stopped at the
 end of a row shorter than others, dropping every later row when written as
 vimwiki

---
 .../src/lang/elements/blocks/tables.rs        | 70 ++++++++++++-------
 1 file changed, 44 insertions(+), 26 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/tables.rs b/vimwiki-core/src/lang/elements/blocks/tables.rs
index eb09582..1ea82d6 100644
--- a/vimwiki-core/src/lang/elements/blocks/tables.rs
+++ b/vimwiki-core/src/lang/elements/blocks/tables.rs
@@ -998,20 +998,29 @@ mod iter {
             let col_cnt = self.table.col_cnt();
             let row_cnt = self.table.row_cnt();
 
-            // If not yet reached end of row, advance column ptr
-            if self.col + 1 < col_cnt {
-                self.col += 1;
-
-            // Else if not yet reached end of all rows, advance row ptr and
-            // reset column ptr
-            } else if self.row + 1 < row_cnt {
-                self.row += 1;
-                self.col = 0;
+            loop {
+                // If not yet reached end of row, advance column ptr
+                if self.col + 1 < col_cnt {
+                    self.col += 1;
+
+                // Else if not yet reached end of all rows, advance row ptr and
+                // reset column ptr
+                } else if self.row + 1 < row_cnt {
+                    self.row += 1;
+                    self.col = 0;
+
+                // Otherwise, we have reached the end, so ensure we are done
+                } else {
+                    self.row = row_cnt;
+                    self.col = col_cnt;
+                    break;
+                }
 
-            // Otherwise, we have reached the end, so ensure we are done
-            } else {
-                self.row = row_cnt;
-                self.col = col_cnt;
+                // Rows can have different lengths, so a position without a
+                // cell is skipped rather than being the end of the table
+                if self.table.get_cell(self.row, self.col).is_some() {
+                    break;
+                }
             }
 
             cell
@@ -1081,20 +1090,29 @@ mod iter {
             let col_cnt = self.table.col_cnt();
             let row_cnt = self.table.row_cnt();
 
-            // If not yet reached end of row, advance column ptr
-            if self.col + 1 < col_cnt {
-                self.col += 1;
-
-            // Else if not yet reached end of all rows, advance row ptr and
-            // reset column ptr
-            } else if self.row + 1 < row_cnt {
-                self.row += 1;
-                self.col = 0;
+            loop {
+                // If not yet reached end of row, advance column ptr
+                if self.col + 1 < col_cnt {
+                    self.col += 1;
+
+                // Else if not yet reached end of all rows, advance row ptr and
+                // reset column ptr
+                } else if self.row + 1 < row_cnt {
+                    self.row += 1;
+                    self.col = 0;
+
+                // Otherwise, we have reached the end, so ensure we are done
+                } else {
+                    self.row = row_cnt;
+                    self.col = col_cnt;
+                    break;
+                }
 
-            // Otherwise, we have reached the end, so ensure we are done
-            } else {
-                self.row = row_cnt;
-                self.col = col_cnt;
+                // Rows can have different lengths, so a position without a
+                // cell is skipped rather than being the end of the table
+                if self.table.get_cell(self.row, self.col).is_some() {
+                    break;
+                }
             }
 
             cell
-- 
2.43.0


From 1eb61be7bca077929c1c26023e40b1525bf977f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 07/31] fix: do not panic writing a table as vimwiki when a
 column has no cell other than its alignment, or a first row too short to have
 that column

---
 vimwiki-core/src/lang/output/vimwiki/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vimwiki-core/src/lang/output/vimwiki/mod.rs b/vimwiki-core/src/lang/output/vimwiki/mod.rs
index 804355b..e171ccb 100644
--- a/vimwiki-core/src/lang/output/vimwiki/mod.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/mod.rs
@@ -469,9 +469,9 @@ impl<'a> Output<VimwikiFormatter> for Table<'a> {
 
         // Make sure that the max size accounts for cases where content is
         // empty, missing, or smaller than our alignment
-        for (col, size) in max_column_sizes.iter_mut() {
-            let min_align_size = self
-                .column(*col)
+        for col in 0..self.col_cnt() {
+            let min_align_size = (0..self.row_cnt())
+                .filter_map(|row| self.get_cell(row, col))
                 .map(|x| match x.as_inner() {
                     Cell::Align(ColumnAlign::None) => 1,  /* - */
                     Cell::Align(ColumnAlign::Left) => 2,  /* :- */
@@ -482,6 +482,7 @@ impl<'a> Output<VimwikiFormatter> for Table<'a> {
                 .max()
                 .unwrap_or_default();
 
+            let size = max_column_sizes.entry(col).or_insert(0);
             if min_align_size > *size {
                 *size = min_align_size;
             }
-- 
2.43.0


From 4dff5aad28cb5ecc57583debff8bea76f3cce393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 08/31] fix: rowspan and alignment of a column were lost when
 an earlier row is too short to have that column

---
 vimwiki-core/src/lang/elements/blocks/tables.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/tables.rs b/vimwiki-core/src/lang/elements/blocks/tables.rs
index 1ea82d6..3466854 100644
--- a/vimwiki-core/src/lang/elements/blocks/tables.rs
+++ b/vimwiki-core/src/lang/elements/blocks/tables.rs
@@ -186,7 +186,8 @@ impl<'a> Table<'a> {
     /// NOTE: This will always return an alignment, even if the column
     ///       does not exist, by using the default column alignment
     pub fn get_column_alignment(&self, col: usize) -> ColumnAlign {
-        self.column(col)
+        (0..self.row_cnt())
+            .filter_map(|row| self.get_cell(row, col))
             .find_map(|cell| cell.get_align().copied())
             .unwrap_or_default()
     }
@@ -291,7 +292,7 @@ impl<'a> Table<'a> {
     ///
     /// Returns 0 for a non-content cell or a cell that doesn't exist
     pub fn get_cell_rowspan(&self, row: usize, col: usize) -> usize {
-        let mut it = self.column(col).skip(row);
+        let mut it = Column::new(self, row, col);
 
         // Verify that the cell at the specified location is content,
         // otherwise we return 0
-- 
2.43.0


From 845d76bcb0fa097187eabb94d58fe6e908fdc97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 09/31] fix: write html attributes from metadata and link
 properties in a fixed order

---
 vimwiki-core/src/lang/output/html/mod.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/mod.rs b/vimwiki-core/src/lang/output/html/mod.rs
index d8c1518..8abfd13 100644
--- a/vimwiki-core/src/lang/output/html/mod.rs
+++ b/vimwiki-core/src/lang/output/html/mod.rs
@@ -579,7 +579,13 @@ impl<'a> Output<HtmlFormatter> for CodeBlock<'a> {
                 }
 
                 // For each metadata assignment, treat it as an HTML attribute
-                for (attr, value) in self.metadata.iter() {
+                //
+                // NOTE: We provide specific ordering by key to ensure
+                //       consistent output
+                let mut sorted_metadata =
+                    self.metadata.iter().collect::<Vec<_>>();
+                sorted_metadata.sort();
+                for (attr, value) in sorted_metadata {
                     write!(f, r#" {}="{}""#, attr, value)?;
                 }
 
@@ -1074,7 +1080,7 @@ impl<'a> Output<HtmlFormatter> for Link<'a> {
                 }
 
                 if let Some(properties) = properties {
-                    for (k, v) in properties.iter() {
+                    for (k, v) in sorted_properties(properties) {
                         write!(f, " {}=\"{}\"", k, escape::escape_html(v))?;
                     }
                 }
@@ -1084,7 +1090,7 @@ impl<'a> Output<HtmlFormatter> for Link<'a> {
                 write!(f, "<a href=\"{}\"", href)?;
 
                 if let Some(properties) = properties {
-                    for (k, v) in properties.iter() {
+                    for (k, v) in sorted_properties(properties) {
                         write!(f, " {}=\"{}\"", k, escape::escape_html(v))?;
                     }
                 }
@@ -1254,6 +1260,15 @@ impl<'a> Output<HtmlFormatter> for MultiLineComment<'a> {
     }
 }
 
+/// Returns properties ordered by key to ensure consistent output
+fn sorted_properties<'a, 'b>(
+    properties: &'b HashMap<Cow<'a, str>, Cow<'a, str>>,
+) -> Vec<(&'b Cow<'a, str>, &'b Cow<'a, str>)> {
+    let mut properties = properties.iter().collect::<Vec<_>>();
+    properties.sort();
+    properties
+}
+
 fn build_complete_id(
     f: &mut HtmlFormatter,
     max_level: usize,
-- 
2.43.0


From 332c6989c2a28748f8fc7e17b532479cb6f3c351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 10/31] fix: escape language and metadata of a code block in
 html

---
 vimwiki-core/src/lang/output/html/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/mod.rs b/vimwiki-core/src/lang/output/html/mod.rs
index 8abfd13..446b9b2 100644
--- a/vimwiki-core/src/lang/output/html/mod.rs
+++ b/vimwiki-core/src/lang/output/html/mod.rs
@@ -575,7 +575,7 @@ impl<'a> Output<HtmlFormatter> for CodeBlock<'a> {
 
                 // If provided with a language, fill it in as the class
                 if let Some(lang) = self.language.as_ref() {
-                    write!(f, r#" class="{}""#, lang)?;
+                    write!(f, r#" class="{}""#, escape::escape_html(lang))?;
                 }
 
                 // For each metadata assignment, treat it as an HTML attribute
@@ -586,7 +586,12 @@ impl<'a> Output<HtmlFormatter> for CodeBlock<'a> {
                     self.metadata.iter().collect::<Vec<_>>();
                 sorted_metadata.sort();
                 for (attr, value) in sorted_metadata {
-                    write!(f, r#" {}="{}""#, attr, value)?;
+                    write!(
+                        f,
+                        r#" {}="{}""#,
+                        escape::escape_html(attr),
+                        escape::escape_html(value)
+                    )?;
                 }
 
                 // NOTE: We do NOT include a newline here because it results
-- 
2.43.0


From 3ca6da44833667c8e34cca7953a26d1f1d734f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 11/31] fix: escape environment of a math block in html

---
 vimwiki-core/src/lang/output/html/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vimwiki-core/src/lang/output/html/mod.rs b/vimwiki-core/src/lang/output/html/mod.rs
index 446b9b2..6748214 100644
--- a/vimwiki-core/src/lang/output/html/mod.rs
+++ b/vimwiki-core/src/lang/output/html/mod.rs
@@ -414,6 +414,7 @@ impl<'a> Output<HtmlFormatter> for MathBlock<'a> {
     /// ```
     fn fmt(&self, f: &mut HtmlFormatter) -> HtmlOutputResult {
         if let Some(env) = self.environment.as_deref() {
+            let env = escape::escape_html(env);
             writeln!(f, r"\begin{{{}}}", env)?;
             for line in self {
                 writeln!(f, "{}", escape::escape_html(line))?;
-- 
2.43.0


From 1eca103680ac5a4e0024333ced533941a3a61c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 12/31] fix: escape comments in html so their text cannot end
 the html comment early

---
 vimwiki-core/src/lang/output/html/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/mod.rs b/vimwiki-core/src/lang/output/html/mod.rs
index 6748214..f93f4b0 100644
--- a/vimwiki-core/src/lang/output/html/mod.rs
+++ b/vimwiki-core/src/lang/output/html/mod.rs
@@ -1233,7 +1233,7 @@ impl<'a> Output<HtmlFormatter> for LineComment<'a> {
     /// ```
     fn fmt(&self, f: &mut HtmlFormatter) -> HtmlOutputResult {
         if f.config().comment.include {
-            write!(f, "<!-- {} -->", self.as_str())?;
+            write!(f, "<!-- {} -->", escape::escape_html(self.as_str()))?;
         }
         Ok(())
     }
@@ -1258,7 +1258,7 @@ impl<'a> Output<HtmlFormatter> for MultiLineComment<'a> {
         if f.config().comment.include {
             writeln!(f, "<!--")?;
             for line in self {
-                writeln!(f, "{}", line)?;
+                writeln!(f, "{}", escape::escape_html(line))?;
             }
             write!(f, "-->")?;
         }
-- 
2.43.0


From ee4e6ae02d28bed8edeb0f742ec3ce415b851d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 13/31] fix: escape keys of link properties in html

---
 vimwiki-core/src/lang/output/html/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/mod.rs b/vimwiki-core/src/lang/output/html/mod.rs
index f93f4b0..98e8a22 100644
--- a/vimwiki-core/src/lang/output/html/mod.rs
+++ b/vimwiki-core/src/lang/output/html/mod.rs
@@ -1087,7 +1087,12 @@ impl<'a> Output<HtmlFormatter> for Link<'a> {
 
                 if let Some(properties) = properties {
                     for (k, v) in sorted_properties(properties) {
-                        write!(f, " {}=\"{}\"", k, escape::escape_html(v))?;
+                        write!(
+                            f,
+                            " {}=\"{}\"",
+                            escape::escape_html(k),
+                            escape::escape_html(v)
+                        )?;
                     }
                 }
 
@@ -1097,7 +1102,12 @@ impl<'a> Output<HtmlFormatter> for Link<'a> {
 
                 if let Some(properties) = properties {
                     for (k, v) in sorted_properties(properties) {
-                        write!(f, " {}=\"{}\"", k, escape::escape_html(v))?;
+                        write!(
+                            f,
+                            " {}=\"{}\"",
+                            escape::escape_html(k),
+                            escape::escape_html(v)
+                        )?;
                     }
                 }
 
-- 
2.43.0


From a6a5c6483419e94833db04352fc0286f4abeea75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 14/31] fix: escape the title of a page placed into its html
 template

---
 vimwiki-core/src/lang/output/html/convert.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/output/html/convert.rs b/vimwiki-core/src/lang/output/html/convert.rs
index c88d180..3d61d37 100644
--- a/vimwiki-core/src/lang/output/html/convert.rs
+++ b/vimwiki-core/src/lang/output/html/convert.rs
@@ -1,5 +1,6 @@
 use super::{utils, HtmlConfig, HtmlFormatter, HtmlOutputError, Output};
 use chrono::Local;
+use voca_rs::escape;
 
 pub trait ToHtmlString {
     /// Converts to individual HTML dom string
@@ -69,7 +70,7 @@ impl<T: Output<HtmlFormatter>> ToHtmlPage for T {
         //       with template variable contents as template variables only
         //       apply to the template and not the content itself
         let template = template
-            .replace("%title%", &title)
+            .replace("%title%", &escape::escape_html(&title))
             .replace("%date%", &date.to_string())
             .replace(
                 "%root_path%",
-- 
2.43.0


From 34927bd1e07847856d32973b94f883325891afb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 15/31] fix: link to index of a directory within another wiki
 as is done within the same wiki

---
 vimwiki-core/src/lang/output/html/utils.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/utils.rs b/vimwiki-core/src/lang/output/html/utils.rs
index 2e82f35..f5a878b 100644
--- a/vimwiki-core/src/lang/output/html/utils.rs
+++ b/vimwiki-core/src/lang/output/html/utils.rs
@@ -230,8 +230,7 @@ pub fn resolve_link(
             // Take the path of the target from the uri reference and make it
             // a relative path as it will always be added to the path of the
             // specified wiki
-            let target_out =
-                wiki.make_output_path(data.to_path_buf().as_path(), ext);
+            let target_out = wiki.make_output_path(path.as_path(), ext);
 
             let mut uri_ref = make_relative_link(src_out, target_out)
                 .map(URIReference::from)
@@ -263,8 +262,7 @@ pub fn resolve_link(
             // Take the path of the target from the uri reference and make it
             // a relative path as it will always be added to the path of the
             // specified wiki
-            let target_out =
-                wiki.make_output_path(data.to_path_buf().as_path(), ext);
+            let target_out = wiki.make_output_path(path.as_path(), ext);
 
             let mut uri_ref = make_relative_link(src_out, target_out)
                 .map(URIReference::from)
-- 
2.43.0


From cd9e9781c08c077bf865112649d56b7c02116acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:19 +0000
Subject: [PATCH 16/31] fix: do not panic on an anchor of a diary link with
 text that is not valid within a uri

---
 .../lang/elements/blocks/inline/links/anchor.rs  | 16 +++++++++++++++-
 vimwiki-core/src/lang/output/vimwiki/mod.rs      |  2 +-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/inline/links/anchor.rs b/vimwiki-core/src/lang/elements/blocks/inline/links/anchor.rs
index 6844108..dec22b4 100644
--- a/vimwiki-core/src/lang/elements/blocks/inline/links/anchor.rs
+++ b/vimwiki-core/src/lang/elements/blocks/inline/links/anchor.rs
@@ -2,6 +2,7 @@ use crate::StrictEq;
 use derive_more::{
     Constructor, Deref, DerefMut, Index, IndexMut, IntoIterator,
 };
+use percent_encoding::{percent_encode, NON_ALPHANUMERIC};
 use serde::{Deserialize, Serialize};
 use std::{borrow::Cow, convert::TryFrom, fmt};
 use uriparse::{Fragment, FragmentError};
@@ -62,7 +63,20 @@ impl<'a> Anchor<'a> {
         use std::fmt::Write;
         let mut fragment = String::new();
         if !self.is_empty() {
-            write!(&mut fragment, "#{}", self.0.join("%23")).expect(
+            // NOTE: Any text can be used within an anchor, so we need to
+            //       encode what would not be valid within a fragment
+            let parts = self
+                .0
+                .iter()
+                .map(|part| match Fragment::try_from(part.as_ref()) {
+                    Ok(_) => part.to_string(),
+                    Err(_) => {
+                        percent_encode(part.as_bytes(), NON_ALPHANUMERIC)
+                            .to_string()
+                    }
+                })
+                .collect::<Vec<String>>();
+            write!(&mut fragment, "#{}", parts.join("%23")).expect(
                 "Anchor encoded_uri_fragment returned error unexpectedly",
             );
         }
diff --git a/vimwiki-core/src/lang/output/vimwiki/mod.rs b/vimwiki-core/src/lang/output/vimwiki/mod.rs
index e171ccb..5ef4595 100644
--- a/vimwiki-core/src/lang/output/vimwiki/mod.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/mod.rs
@@ -685,7 +685,7 @@ impl<'a> Output<VimwikiFormatter> for Link<'a> {
                 write!(f, "[[diary:")?;
                 write!(f, "{}", date)?;
                 if let Some(anchor) = data.to_anchor() {
-                    write!(f, "{}", anchor)?;
+                    write!(f, "{}", LinkData::decode_uri(anchor.to_string()))?;
                 }
                 match data.description.as_ref() {
                     Some(Description::Text(x)) => write!(f, "|{}", x)?,
-- 
2.43.0


From e143905801bcd84672ca194fc902ea7af0412a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 17/31] fix: trimming what was written for a line must not
 remove the end of the line before it

---
 vimwiki-core/src/lang/output/vimwiki/formatter.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/output/vimwiki/formatter.rs b/vimwiki-core/src/lang/output/vimwiki/formatter.rs
index 784fc28..a6d2020 100644
--- a/vimwiki-core/src/lang/output/vimwiki/formatter.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/formatter.rs
@@ -94,8 +94,16 @@ impl VimwikiFormatter {
     where
         F: FnOnce(&mut Self) -> Result<(), VimwikiOutputError>,
     {
+        let start = self.content.len();
         self.skip_whitespace(f)?;
-        self.trim_end();
+
+        // NOTE: If the function wrote only whitespace, what came before it on
+        //       the same line is trimmed, but never the lines before that
+        let start = self.content[..start]
+            .trim_end_matches(&[' ', '\t'][..])
+            .len();
+        let end = self.content[start..].trim_end().len();
+        self.content.truncate(start + end);
         Ok(())
     }
 
-- 
2.43.0


From 3b4fbd2636262540d0baf9a828e98e1a4c479fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 18/31] fix: variables of an html template named within the
 title of a page were replaced

---
 vimwiki-core/src/lang/output/html/convert.rs | 94 ++++++++++++--------
 1 file changed, 57 insertions(+), 37 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/convert.rs b/vimwiki-core/src/lang/output/html/convert.rs
index 3d61d37..ed94693 100644
--- a/vimwiki-core/src/lang/output/html/convert.rs
+++ b/vimwiki-core/src/lang/output/html/convert.rs
@@ -66,47 +66,67 @@ impl<T: Output<HtmlFormatter>> ToHtmlPage for T {
             .unwrap_or_else(|| formatter.config().template.text.to_string());
 
         // Fill in template variables
-        // NOTE: Content is filled in last so we don't replace parts of content
-        //       with template variable contents as template variables only
-        //       apply to the template and not the content itself
-        let template = template
-            .replace("%title%", &escape::escape_html(&title))
-            .replace("%date%", &date.to_string())
-            .replace(
-                "%root_path%",
-                {
-                    let path_str = utils::path_to_uri_string(
-                        formatter
-                            .config()
-                            .to_active_page_path_to_wiki_root()
-                            .as_path(),
-                    );
-
-                    if path_str.is_empty() {
-                        String::new()
-                    } else {
-                        format!("{}/", path_str)
-                    }
-                }
-                .as_str(),
-            )
-            .replace(
-                "%wiki_path%",
-                &utils::path_to_uri_string(
-                    formatter.config().as_active_page_path_within_wiki(),
+        // NOTE: All variables are filled in together so what is filled in for
+        //       one is never replaced, as template variables only apply to the
+        //       template and not the content itself
+        let root_path = {
+            let path_str = utils::path_to_uri_string(
+                formatter
+                    .config()
+                    .to_active_page_path_to_wiki_root()
+                    .as_path(),
+            );
+
+            if path_str.is_empty() {
+                String::new()
+            } else {
+                format!("{}/", path_str)
+            }
+        };
+        let wiki_path = utils::path_to_uri_string(
+            formatter.config().as_active_page_path_within_wiki(),
+        );
+
+        Ok(fill_template(
+            &template,
+            &[
+                ("%title%", &escape::escape_html(&title)),
+                ("%date%", &date.to_string()),
+                ("%root_path%", &root_path),
+                ("%wiki_path%", &wiki_path),
+                (
+                    "%css%",
+                    formatter.config().to_current_wiki().css_name.as_str(),
                 ),
-            )
-            .replace(
-                "%css%",
-                formatter.config().to_current_wiki().css_name.as_str(),
-            )
-            .replace("%encoding%", "utf-8")
-            .replace("%content%", formatter.get_content());
-
-        Ok(template)
+                ("%encoding%", "utf-8"),
+                ("%content%", formatter.get_content()),
+            ],
+        ))
     }
 }
 
+/// Replaces each variable found in the template with its value, leaving the
+/// values as they are
+fn fill_template(template: &str, variables: &[(&str, &str)]) -> String {
+    let mut output = String::new();
+    let mut remaining = template;
+
+    while let Some(pos) = remaining.find('%') {
+        output.push_str(&remaining[..pos]);
+        remaining = &remaining[pos..];
+
+        let (text, len) = variables
+            .iter()
+            .find(|(name, _)| remaining.starts_with(name))
+            .map_or(("%", 1), |(name, value)| (*value, name.len()));
+        output.push_str(text);
+        remaining = &remaining[len..];
+    }
+
+    output.push_str(remaining);
+    output
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From cec3e448f18ccc01909a9e25743ee82b4ca4ab9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:02 +0000
Subject: [PATCH 19/31] fix: do not write to the cache when told not to use a
 cache

---
 vimwiki-cli/src/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vimwiki-cli/src/ast.rs b/vimwiki-cli/src/ast.rs
index b9ce9e1..29a60da 100644
--- a/vimwiki-cli/src/ast.rs
+++ b/vimwiki-cli/src/ast.rs
@@ -285,7 +285,7 @@ fn load_wiki_file(
     };
 
     // Update our cache with the new file; old files get cleaned later
-    if !has_cached_page {
+    if !has_cached_page && !no_cache {
         let cache_file_path = cache.join(checksum.as_str());
         match fs::File::create(cache_file_path.as_path()) {
             Ok(file) => {
-- 
2.43.0


From 29f447bf6897712cad0061334bbf13b8bcef30b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 20/31] fix: --include applied twice, the second time with
 indexes shifted by the first, so wikis included by index were not processed

---
 vimwiki-cli/src/ast.rs   |  2 +-
 vimwiki-cli/src/utils.rs | 13 ++-----------
 2 files changed, 3 insertions(+), 12 deletions(-)

diff --git a/vimwiki-cli/src/ast.rs b/vimwiki-cli/src/ast.rs
index 29a60da..ac4d044 100644
--- a/vimwiki-cli/src/ast.rs
+++ b/vimwiki-cli/src/ast.rs
@@ -159,7 +159,7 @@ fn load_ast(
             })
         {
             let file = load_wiki_file(entry.path(), cache, no_cache)?;
-            if let Some(wiki) = ast.wikis.get_mut(index) {
+            if let Some(wiki) = ast.wikis.last_mut() {
                 wiki.files.push(file);
             }
         }
diff --git a/vimwiki-cli/src/utils.rs b/vimwiki-cli/src/utils.rs
index ae89e69..1522146 100644
--- a/vimwiki-cli/src/utils.rs
+++ b/vimwiki-cli/src/utils.rs
@@ -84,17 +84,8 @@ pub fn load_html_config(
         }
     }
 
-    // Finally, filter out wikis based on include logic
-    config.wikis = config
-        .wikis
-        .into_iter()
-        .enumerate()
-        .filter(|(idx, wiki)| {
-            opt.filter_by_wiki_idx_and_name(*idx, wiki.name.as_deref())
-        })
-        .map(|(_, wiki)| wiki)
-        .collect();
-
+    // NOTE: Wikis that are not included stay within the config so the index of
+    //       each wiki, which is used to include it and to link to it, is kept
     Ok(config)
 }
 
-- 
2.43.0


From f5de6d4722584c00d5183714938891c2c3156410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:56 +0000
Subject: [PATCH 21/31] fix: months of a javascript date start from zero, so
 dates of placeholders and diary links were off by a month

---
 vimwiki-wasm/src/elements.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vimwiki-wasm/src/elements.rs b/vimwiki-wasm/src/elements.rs
index 02070e7..8224855 100644
--- a/vimwiki-wasm/src/elements.rs
+++ b/vimwiki-wasm/src/elements.rs
@@ -894,7 +894,7 @@ impl Placeholder {
             v::Placeholder::Date(x) => {
                 Some(js_sys::Date::new_with_year_month_day(
                     x.year() as u32,
-                    x.month() as i32,
+                    x.month0() as i32,
                     x.day() as i32,
                 ))
             }
@@ -1343,7 +1343,7 @@ impl Link {
             v::Link::new_diary_link(
                 chrono::NaiveDate::from_ymd(
                     date.get_utc_full_year() as i32,
-                    date.get_utc_month(),
+                    date.get_utc_month() + 1,
                     date.get_utc_date(),
                 ),
                 v::Description::try_from_uri_ref_str(description)
-- 
2.43.0


From 124c619ac1092cf8a368af2a91aff003eb5bc2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 22/31] fix: keep the depth of a region within the tokens
 produced by the macros

---
 vimwiki_macros/src/tokens/elements/location.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vimwiki_macros/src/tokens/elements/location.rs b/vimwiki_macros/src/tokens/elements/location.rs
index 4d5b57a..18bf07e 100644
--- a/vimwiki_macros/src/tokens/elements/location.rs
+++ b/vimwiki_macros/src/tokens/elements/location.rs
@@ -30,10 +30,12 @@ fn tokenize_region(_ctx: &TokenizeContext, region: &Region) -> TokenStream {
     let root = root_crate();
     let offset = region.offset();
     let len = region.len();
+    let depth = region.depth();
     quote! {
-        #root::Region::new(
+        #root::Region::new_at_depth(
             #offset,
             #len,
+            #depth,
         )
     }
 }
-- 
2.43.0


From 07520c9901405e6a42dbb5ee71f31e2a609078b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 23/31] fix: regions of a term with definitions did not cover
 all of its definitions

---
 .../src/lang/elements/blocks/definitions.rs      | 16 +++++++++++-----
 .../lang/parsers/vimwiki/blocks/definitions.rs   | 10 +++++++++-
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/definitions.rs b/vimwiki-core/src/lang/elements/blocks/definitions.rs
index bcdc7f0..cf2beea 100644
--- a/vimwiki-core/src/lang/elements/blocks/definitions.rs
+++ b/vimwiki-core/src/lang/elements/blocks/definitions.rs
@@ -377,11 +377,17 @@ impl<'a> FromIterator<(Located<Term<'a>>, Located<DefinitionBundle<'a>>)>
         let mut dl = Self::default();
 
         for (term, def_bundle) in iter.into_iter() {
-            // TODO: Should we perform more checks? Right now, we assume that these
-            //       two follow immediately together to calculate the region
-            let region = Region::new(
-                term.region().offset(),
-                term.region().len() + def_bundle.region().len(),
+            // NOTE: The region starts with the term and covers everything up to
+            //       the end of the last definition
+            let offset = term.region().offset();
+            let end = std::cmp::max(
+                offset + term.region().len(),
+                def_bundle.region().offset() + def_bundle.region().len(),
+            );
+            let region = Region::new_at_depth(
+                offset,
+                end - offset,
+                term.region().depth(),
             );
 
             dl.items.push(Located::new(
diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/definitions.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/definitions.rs
index 62cfc39..452dda8 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/definitions.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/definitions.rs
@@ -1,7 +1,7 @@
 use crate::lang::{
     elements::{
         Definition, DefinitionBundle, DefinitionList, InlineElementContainer,
-        Located, Term,
+        Located, Region, Term,
     },
     parsers::{
         utils::{
@@ -46,6 +46,14 @@ fn term_and_definitions<'a>(
     )))(input)?;
 
     if let Some(def) = maybe_def {
+        // The bundle now starts with the definition on the line of the term
+        let region = bundle.region();
+        let offset = def.region().offset();
+        bundle = bundle.take_with_region(Region::new_at_depth(
+            offset,
+            region.offset() + region.len() - offset,
+            region.depth(),
+        ));
         bundle.as_mut_inner().as_mut().insert(0, def);
     }
 
-- 
2.43.0


From d0d762612bf1f8e9008e8e07a36e8f143d21baf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 24/31] fix: serialize a bundle of definitions as a struct so
 that definition lists can be serialized

---
 .../src/lang/elements/blocks/definitions.rs    | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/definitions.rs b/vimwiki-core/src/lang/elements/blocks/definitions.rs
index cf2beea..2c57bec 100644
--- a/vimwiki-core/src/lang/elements/blocks/definitions.rs
+++ b/vimwiki-core/src/lang/elements/blocks/definitions.rs
@@ -150,8 +150,10 @@ pub type Definition<'a> = DefinitionListValue<'a>;
     Serialize,
     Deserialize,
 )]
-#[into_iterator(owned, ref, ref_mut)]
-pub struct DefinitionBundle<'a>(Vec<Located<Definition<'a>>>);
+pub struct DefinitionBundle<'a> {
+    #[into_iterator(owned, ref, ref_mut)]
+    definitions: Vec<Located<Definition<'a>>>,
+}
 
 impl ElementLike for DefinitionBundle<'_> {}
 
@@ -175,22 +177,22 @@ impl<'a> DefinitionBundle<'a> {
 
     /// Returns total elements contained within container
     pub fn len(&self) -> usize {
-        self.0.len()
+        self.definitions.len()
     }
 
     /// Returns true if container has no elements
     pub fn is_empty(&self) -> bool {
-        self.0.is_empty()
+        self.definitions.is_empty()
     }
 
     /// Returns reference to element at specified index, if it exists
     pub fn get(&self, idx: usize) -> Option<&Located<Definition<'a>>> {
-        self.0.get(idx)
+        self.definitions.get(idx)
     }
 
     /// Returns the definitions contained within the bundle
     pub fn into_definitions(self) -> Vec<Located<Definition<'a>>> {
-        self.0
+        self.definitions
     }
 }
 
@@ -218,7 +220,7 @@ impl<'a> IntoChildren for DefinitionBundle<'a> {
     type Child = Located<Definition<'a>>;
 
     fn into_children(self) -> Vec<Self::Child> {
-        self.0
+        self.definitions
     }
 }
 
@@ -226,7 +228,7 @@ impl<'a> StrictEq for DefinitionBundle<'a> {
     /// Performs strict_eq on all definitions
     #[inline]
     fn strict_eq(&self, other: &Self) -> bool {
-        self.0.strict_eq(&other.0)
+        self.definitions.strict_eq(&other.definitions)
     }
 }
 
-- 
2.43.0


From 5f89fb034f6d16d23d9df84601190a59a548cdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:02 +0000
Subject: [PATCH 25/31] fix: report directory entries that cannot be read
 instead of skipping them silently

---
 vimwiki-cli/src/ast.rs                |  6 +++---
 vimwiki-cli/src/subcommand/convert.rs |  4 ++--
 vimwiki-cli/src/subcommand/format.rs  |  4 ++--
 vimwiki-cli/src/utils.rs              | 13 +++++++++++++
 4 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/vimwiki-cli/src/ast.rs b/vimwiki-cli/src/ast.rs
index ac4d044..eb4706b 100644
--- a/vimwiki-cli/src/ast.rs
+++ b/vimwiki-cli/src/ast.rs
@@ -1,4 +1,4 @@
-use crate::IndexOrName;
+use crate::{utils::walked_entry, IndexOrName};
 use log::*;
 use serde::{Deserialize, Serialize};
 use sha1::{Digest, Sha1};
@@ -151,7 +151,7 @@ fn load_ast(
 
         for entry in WalkDir::new(wiki.path.as_path())
             .into_iter()
-            .filter_map(|e| e.ok())
+            .filter_map(walked_entry)
             .filter(|e| {
                 e.file_type().is_file()
                     && e.path().extension().and_then(OsStr::to_str)
@@ -177,7 +177,7 @@ fn load_ast(
 
         let iter = WalkDir::new(cache)
             .into_iter()
-            .filter_map(|e| e.ok())
+            .filter_map(walked_entry)
             .filter(|e| e.file_type().is_file());
 
         for entry in iter {
diff --git a/vimwiki-cli/src/subcommand/convert.rs b/vimwiki-cli/src/subcommand/convert.rs
index d8ae9ba..b2de306 100644
--- a/vimwiki-cli/src/subcommand/convert.rs
+++ b/vimwiki-cli/src/subcommand/convert.rs
@@ -1,4 +1,4 @@
-use crate::{css, Ast, CommonOpt, ConvertSubcommand};
+use crate::{css, utils::walked_entry, Ast, CommonOpt, ConvertSubcommand};
 use log::*;
 use std::{ffi::OsStr, io, path::Path};
 use vimwiki::*;
@@ -93,7 +93,7 @@ fn process_path(
     // each file as it is encountered that has a valid file extension
     for entry in WalkDir::new(input_path)
         .into_iter()
-        .filter_map(|e| e.ok())
+        .filter_map(walked_entry)
         .filter(|e| {
             e.file_type().is_file()
                 && e.path().extension().and_then(OsStr::to_str) == Some(ext)
diff --git a/vimwiki-cli/src/subcommand/format.rs b/vimwiki-cli/src/subcommand/format.rs
index c3ea7bb..99762c0 100644
--- a/vimwiki-cli/src/subcommand/format.rs
+++ b/vimwiki-cli/src/subcommand/format.rs
@@ -1,4 +1,4 @@
-use crate::{CommonOpt, FormatSubcommand};
+use crate::{utils::walked_entry, CommonOpt, FormatSubcommand};
 use log::*;
 use std::{collections::HashSet, ffi::OsStr, io, path::Path};
 use vimwiki::*;
@@ -30,7 +30,7 @@ pub fn format(
         } else {
             for entry in WalkDir::new(path)
                 .into_iter()
-                .filter_map(|e| e.ok())
+                .filter_map(walked_entry)
                 .filter(|e| e.file_type().is_file())
             {
                 if let Some(ext) =
diff --git a/vimwiki-cli/src/utils.rs b/vimwiki-cli/src/utils.rs
index 1522146..3e4f5c6 100644
--- a/vimwiki-cli/src/utils.rs
+++ b/vimwiki-cli/src/utils.rs
@@ -5,6 +5,19 @@ use std::{
     path::{Path, PathBuf},
 };
 use vimwiki::{HtmlConfig, HtmlWikiConfig, VimwikiConfig};
+use walkdir::DirEntry;
+
+/// Unwraps an entry encountered while walking a directory, reporting one that
+/// could not be read as it is about to be skipped
+pub fn walked_entry(entry: walkdir::Result<DirEntry>) -> Option<DirEntry> {
+    match entry {
+        Ok(entry) => Some(entry),
+        Err(x) => {
+            error!("Failed to read directory entry: {}", x);
+            None
+        }
+    }
+}
 
 /// Attempts to load a vimwiki format config from a file
 pub fn load_format_config(path: &Path) -> io::Result<VimwikiConfig> {
-- 
2.43.0


From 76da4b3bf31966072c7a714f4a7b0f8d999b65e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:15 +0000
Subject: [PATCH 26/31] fix: links between pages whose paths are not valid
 UTF-8 must not panic

---
 vimwiki-core/src/lang/output/html/utils.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/utils.rs b/vimwiki-core/src/lang/output/html/utils.rs
index f5a878b..5c4a3d3 100644
--- a/vimwiki-core/src/lang/output/html/utils.rs
+++ b/vimwiki-core/src/lang/output/html/utils.rs
@@ -364,10 +364,15 @@ fn make_relative_link<P1: AsRef<Path>, P2: AsRef<Path>>(
     src: P1,
     target: P2,
 ) -> Result<RelativeReference<'static>, RelativeReferenceError> {
-    let src_rel = RelativePathBuf::from_path(make_path_relative(src))
-        .expect("Impossible: relative path should always succeed");
-    let target_rel = RelativePathBuf::from_path(make_path_relative(target))
-        .expect("Impossible: relative path should always succeed");
+    // NOTE: A path that is not valid UTF-8 cannot be a relative path as it is,
+    //       so what is not valid in it gets replaced
+    let to_relative = |path: PathBuf| {
+        RelativePathBuf::from_path(&path).unwrap_or_else(|_| {
+            RelativePathBuf::from(path.to_string_lossy().into_owned())
+        })
+    };
+    let src_rel = to_relative(make_path_relative(src));
+    let target_rel = to_relative(make_path_relative(target));
 
     // NOTE: a relative path of a/b -> a/c would yield ../c, but in the case
     //       of the web, we just want c as referencing from the same directory
-- 
2.43.0


From 0786a3b9120f9a996597ec31965b64995bb7a2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:33 +0000
Subject: [PATCH 27/31] fix: text must not take an element that begins before
 it for what follows it

---
 .../src/lang/parsers/vimwiki/blocks/inline/typefaces.rs  | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs
index a34851d..d15c0d5 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs
@@ -104,12 +104,15 @@ pub fn text(input: Span) -> IResult<Located<Text>> {
 
             // Check if we have a non-text element; if we do, we need to make
             // sure that we backtrack our length and then we're done
+            //
+            // NOTE: Backtracking can find an element that begins before our
+            //       text itself, in which case it isn't what follows it
             if let Ok((_, x)) = non_text(text_input) {
                 let non_text_start = x.region().offset();
-                if non_text_start < text_input.start_offset() {
-                    len -= text_input.start_offset() - non_text_start;
+                if non_text_start >= input.start_offset() {
+                    len = non_text_start - input.start_offset();
+                    break;
                 }
-                break;
             }
 
             text_input = text_input.advance_start_by(1);
-- 
2.43.0


From e1eab97ec94f0bc9e4cca06aa1a28379ba5c1fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:47 +0000
Subject: [PATCH 28/31] fix: a word that starts with tags must not lose what
 follows them

---
 .../src/lang/parsers/vimwiki/blocks/inline/tags.rs    | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/tags.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/tags.rs
index e4f913d..5a562cd 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/tags.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/tags.rs
@@ -9,7 +9,9 @@ use crate::lang::{
     },
 };
 use nom::{
-    character::complete::char, combinator::map_parser, multi::many1,
+    character::complete::char,
+    combinator::{all_consuming, map_parser},
+    multi::many1,
     sequence::terminated,
 };
 
@@ -23,7 +25,12 @@ pub fn tags(input: Span) -> IResult<Located<Tags>> {
         Ok((input, Tags::new(contents)))
     }
 
-    context("Tags", locate(capture(map_parser(whole_word, inner))))(input)
+    // NOTE: A word that has more than tags is no tags as what is more would
+    //       otherwise be lost
+    context(
+        "Tags",
+        locate(capture(map_parser(whole_word, all_consuming(inner)))),
+    )(input)
 }
 
 fn tag_content(input: Span) -> IResult<Tag> {
-- 
2.43.0


From b74e49d9d84f9b5c8898e10a865bd0a9d6375e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:48 +0000
Subject: [PATCH 29/31] fix: decorated text must not lose what is not an
 element of it

---
 .../vimwiki/blocks/inline/typefaces.rs        | 32 ++++++++++++++++---
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs
index d15c0d5..0c8747a 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs
@@ -30,6 +30,14 @@ use nom::{
 
 #[inline]
 pub fn text(input: Span) -> IResult<Located<Text>> {
+    text_until(|_| true)(input)
+}
+
+/// Parser for text that ends where some other inline element begins for which
+/// the given function is true
+fn text_until<'a>(
+    is_end: impl Fn(&InlineElement) -> bool,
+) -> impl FnMut(Span<'a>) -> IResult<Located<Text<'a>>> {
     fn non_text<'a>(input: Span<'a>) -> IResult<Located<InlineElement>> {
         // Check for all other inline element types
         alt((
@@ -88,7 +96,7 @@ pub fn text(input: Span) -> IResult<Located<Text>> {
         ))(input)
     }
 
-    fn inner(input: Span) -> IResult<Text> {
+    let inner = move |input: Span<'a>| {
         let mut text_input = input;
         let mut len = 0;
 
@@ -109,7 +117,9 @@ pub fn text(input: Span) -> IResult<Located<Text>> {
             //       text itself, in which case it isn't what follows it
             if let Ok((_, x)) = non_text(text_input) {
                 let non_text_start = x.region().offset();
-                if non_text_start >= input.start_offset() {
+                if non_text_start >= input.start_offset()
+                    && is_end(x.as_inner())
+                {
                     len = non_text_start - input.start_offset();
                     break;
                 }
@@ -125,9 +135,9 @@ pub fn text(input: Span) -> IResult<Located<Text>> {
         } else {
             Err(nom::Err::Error(Error::from_ctx(&input, "Empty text")))
         }
-    }
+    };
 
-    context("Text", locate(capture(inner)))(input)
+    context("Text", locate(capture(inner)))
 }
 
 #[inline]
@@ -221,7 +231,19 @@ fn decorated_text_contents<'a>(
             map(decorated_text, |l: Located<DecoratedText>| {
                 l.map(DecoratedTextContent::from)
             }),
-            map(text, |l: Located<Text>| l.map(DecoratedTextContent::from)),
+            // NOTE: Any other element has no place in decorated text, so what
+            //       would be one is text as it would otherwise be lost
+            map(
+                text_until(|x| {
+                    matches!(
+                        x,
+                        InlineElement::Link(_)
+                            | InlineElement::Keyword(_)
+                            | InlineElement::DecoratedText(_)
+                    )
+                }),
+                |l: Located<Text>| l.map(DecoratedTextContent::from),
+            ),
         )))(input)
     }
 
-- 
2.43.0


From ff68cfded68558e80c80a14b7a722998805d2034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:48 +0000
Subject: [PATCH 30/31] fix: a link must not lose what follows its parts

---
 .../parsers/vimwiki/blocks/inline/links/diary.rs    |  5 ++++-
 .../vimwiki/blocks/inline/links/interwiki.rs        |  8 +++++++-
 .../lang/parsers/vimwiki/blocks/inline/links/mod.rs | 13 ++++++++++---
 3 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/diary.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/diary.rs
index dcfb4c7..abe9205 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/diary.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/diary.rs
@@ -1,4 +1,4 @@
-use super::{link_anchor, link_description};
+use super::{link_anchor, link_description, link_end};
 use crate::lang::{
     elements::{Link, Located},
     parsers::{
@@ -36,6 +36,9 @@ pub fn diary_link(input: Span) -> IResult<Located<Link>> {
         // Finally, check if there is a description (preceding with |)
         let (input, maybe_description) = opt(link_description)(input)?;
 
+        // Anything else in the link has to be a segment that is ignored
+        let (input, _) = link_end(input)?;
+
         Ok((
             input,
             Link::new_diary_link(date, maybe_description, maybe_anchor),
diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/interwiki.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/interwiki.rs
index d6072c3..8070dde 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/interwiki.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/interwiki.rs
@@ -1,4 +1,4 @@
-use super::{link_description, link_uri_ref};
+use super::{link_description, link_end, link_uri_ref};
 use crate::lang::{
     elements::{Link, Located},
     parsers::{
@@ -27,6 +27,9 @@ pub fn indexed_interwiki_link(input: Span) -> IResult<Located<Link>> {
         // Third, grab optional description of link
         let (input, maybe_description) = opt(link_description)(input)?;
 
+        // Anything else in the link has to be a segment that is ignored
+        let (input, _) = link_end(input)?;
+
         Ok((
             input,
             Link::new_indexed_interwiki_link(index, uri_ref, maybe_description),
@@ -60,6 +63,9 @@ pub fn named_interwiki_link(input: Span) -> IResult<Located<Link>> {
         // Third, grab optional description of link
         let (input, maybe_description) = opt(link_description)(input)?;
 
+        // Anything else in the link has to be a segment that is ignored
+        let (input, _) = link_end(input)?;
+
         Ok((
             input,
             Link::new_named_interwiki_link(name, uri_ref, maybe_description),
diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/mod.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/mod.rs
index 3ae553d..a2864a1 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/mod.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/mod.rs
@@ -12,9 +12,9 @@ use nom::{
     branch::alt,
     bytes::complete::tag,
     character::complete::space1,
-    combinator::{map, map_opt, map_parser, opt, rest},
+    combinator::{all_consuming, eof, map, map_opt, map_parser, opt, rest},
     multi::separated_list1,
-    sequence::{delimited, separated_pair},
+    sequence::{delimited, preceded, separated_pair},
 };
 use std::{borrow::Cow, collections::HashMap, convert::TryFrom};
 use uriparse::URIReference;
@@ -85,6 +85,7 @@ fn link_data<'a>(input: Span<'a>) -> IResult<LinkData<'a>> {
     let (input, uri_ref) = link_uri_ref(input)?;
     let (input, maybe_description) = opt(link_description)(input)?;
     let (input, maybe_properties) = opt(link_properties)(input)?;
+    let (input, _) = link_end(input)?;
 
     Ok((
         input,
@@ -92,6 +93,12 @@ fn link_data<'a>(input: Span<'a>) -> IResult<LinkData<'a>> {
     ))
 }
 
+/// Succeeds at the end of a link, where more segments starting with | than a
+/// link has are ignored; anything else means that it is not a link
+fn link_end<'a>(input: Span<'a>) -> IResult<Span<'a>> {
+    alt((eof, preceded(tag("|"), rest)))(input)
+}
+
 /// Extracts the uri-portion of a link, supporting converting spaces into
 /// %20 encoded characters
 ///
@@ -135,7 +142,7 @@ fn link_description<'a>(input: Span<'a>) -> IResult<Description<'a>> {
     map_parser(
         take_line_until("|"),
         alt((
-            map(transclusion::transclusion_link, |l| {
+            map(all_consuming(transclusion::transclusion_link), |l| {
                 Description::from(l.into_inner().into_data())
             }),
             map(rest, |s: Span| Description::Text(s.into())),
-- 
2.43.0


From 79ea4815618984993935ae1a3e31ba6aa8dba890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:57 +0000
Subject: [PATCH 31/31] fix: never give an id again that was made for a
 repeated text

When the id with the next number was taken, the id with number 1 was used,
which had been given out already (it is not recorded), and was given out
again for each repetition that followed.
---
 vimwiki-core/src/lang/output/html/formatter.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vimwiki-core/src/lang/output/html/formatter.rs b/vimwiki-core/src/lang/output/html/formatter.rs
index 460864c..0e775a2 100644
--- a/vimwiki-core/src/lang/output/html/formatter.rs
+++ b/vimwiki-core/src/lang/output/html/formatter.rs
@@ -96,6 +96,12 @@ impl HtmlFormatter {
                     id = Cow::Owned(tmp);
                 } else {
                     id = Cow::Owned(format!("{}-1", id));
+
+                    // This one may have been given already, so it is not the
+                    // result but only where to count from
+                    if !self.id_cache.contains_key(id.as_ref()) {
+                        self.id_cache.insert(id.to_string(), 0);
+                    }
                 }
             }
 
-- 
2.43.0

