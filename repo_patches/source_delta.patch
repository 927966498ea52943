From 844f2e23bdb1be58129af59f78e31c5c8ce710fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:15 +0000
Subject: [PATCH 01/22] fix: render: contain self-referential footnotes and
 citations

---
 src/render/html/context.rs              | 17 +++++++++++++++++
 src/render/html/element/bibliography.rs |  8 ++++++++
 src/render/html/element/footnotes.rs    | 17 +++++++++++++++++
 3 files changed, 42 insertions(+)

diff --git a/src/render/html/context.rs b/src/render/html/context.rs
index 651af3b..0dca1a1 100644
--- a/src/render/html/context.rs
+++ b/src/render/html/context.rs
@@ -76,6 +76,7 @@ where
     table_of_contents_index: usize,
     equation_index: NonZeroUsize,
     footnote_index: NonZeroUsize,
+    in_reference_contents: bool,
 }
 
 impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't> {
@@ -125,6 +126,7 @@ impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't> {
             table_of_contents_index: 0,
             equation_index: NonZeroUsize::new(1).unwrap(),
             footnote_index: NonZeroUsize::new(1).unwrap(),
+            in_reference_contents: false,
         }
     }
 
@@ -252,6 +254,21 @@ impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't> {
             .map(|elements| elements.as_slice())
     }
 
+    /// Whether we are rendering the contents of a footnote or citation.
+    ///
+    /// These are stored outside of the main element tree, so they may refer
+    /// to each other (or themselves). While this is set, such contents must
+    /// not be expanded again.
+    #[inline]
+    pub fn in_reference_contents(&self) -> bool {
+        self.in_reference_contents
+    }
+
+    #[inline]
+    pub fn set_reference_contents(&mut self, value: bool) {
+        self.in_reference_contents = value;
+    }
+
     // Backlinks
     #[inline]
     pub fn add_link(&mut self, link: &LinkLocation) {
diff --git a/src/render/html/element/bibliography.rs b/src/render/html/element/bibliography.rs
index 61cfe87..69ee763 100644
--- a/src/render/html/element/bibliography.rs
+++ b/src/render/html/element/bibliography.rs
@@ -59,6 +59,12 @@ pub fn render_bibcite(ctx: &mut HtmlContext, label: &str, brackets: bool) {
                         ctx.push_raw(']');
                     }
 
+                    // Citations can be circular, so we don't add tooltips
+                    // to those which are already within one.
+                    if ctx.in_reference_contents() {
+                        return;
+                    }
+
                     // Tooltip shown on hover.
                     // Is aria-hidden due to difficulty in getting a simultaneous
                     // tooltip and link to work. A screen reader can still navigate
@@ -79,10 +85,12 @@ pub fn render_bibcite(ctx: &mut HtmlContext, label: &str, brackets: bool) {
                                 .contents(&label);
 
                             // Actual tooltip contents
+                            ctx.set_reference_contents(true);
                             ctx.html()
                                 .span()
                                 .attr(attr!("class" => "wj-bibliography-ref-contents"))
                                 .contents(contents);
+                            ctx.set_reference_contents(false);
                         });
                 });
         }
diff --git a/src/render/html/element/footnotes.rs b/src/render/html/element/footnotes.rs
index dba35fa..54d861d 100644
--- a/src/render/html/element/footnotes.rs
+++ b/src/render/html/element/footnotes.rs
@@ -23,6 +23,13 @@ use super::prelude::*;
 pub fn render_footnote(ctx: &mut HtmlContext) {
     debug!("Rendering footnote reference");
 
+    // Citation contents are shown in addition to the bibliography entry
+    // they come from, any footnotes are only to be rendered in the latter.
+    if ctx.in_reference_contents() {
+        warn!("Footnote within footnote or citation contents, skipping");
+        return;
+    }
+
     let index = ctx.next_footnote_index();
     let id = str!(index);
 
@@ -67,10 +74,12 @@ pub fn render_footnote(ctx: &mut HtmlContext) {
                         .contents(&label);
 
                     // Actual tooltip contents
+                    ctx.set_reference_contents(true);
                     ctx.html()
                         .span()
                         .attr(attr!("class" => "wj-footnote-ref-contents"))
                         .contents(contents);
+                    ctx.set_reference_contents(false);
                 });
         });
 }
@@ -81,6 +90,12 @@ pub fn render_footnote_block(ctx: &mut HtmlContext, title: Option<&str>) {
         title.unwrap_or("<default>"),
     );
 
+    // A footnote block inside of a footnote would contain itself.
+    if ctx.in_reference_contents() {
+        warn!("Footnote block within footnote or citation contents, skipping");
+        return;
+    }
+
     let title_default;
     let title: &str = match title {
         Some(title) => title,
@@ -135,10 +150,12 @@ pub fn render_footnote_block(ctx: &mut HtmlContext, title: Option<&str>) {
                                 });
 
                             // Footnote contents
+                            ctx.set_reference_contents(true);
                             ctx.html()
                                 .span()
                                 .attr(attr!("class" => "wj-footnote-list-item-contents"))
                                 .contents(contents);
+                            ctx.set_reference_contents(false);
                         });
                 }
             });
-- 
2.43.0


From 70e3960a09039231797d88578b26d334dce0ce74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:15 +0000
Subject: [PATCH 02/22] fix: style: escape closing tags within stylesheet
 contents

---
 src/render/html/element/style.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/render/html/element/style.rs b/src/render/html/element/style.rs
index b8fb58e..26c4587 100644
--- a/src/render/html/element/style.rs
+++ b/src/render/html/element/style.rs
@@ -49,10 +49,13 @@ pub fn render_style(ctx: &mut HtmlContext, input_css: &str) {
         }
     };
 
+    // CSS strings and URLs can contain any text, including "</style>".
+    // In CSS "\\/" is the same as "/", so this preserves its meaning.
+    let output_css = output_css.replace("</", "<\\/");
+
     ctx.html().style().inner(|ctx| {
-        // SAFETY: The resultant CSS cannot contain HTML-escaping elements,
-        //         as those are invalid and would not be retained during
-        //         the parcel_css parsing process.
+        // SAFETY: The resultant CSS cannot contain anything which closes
+        //         the <style> tag, since "</" is escaped above.
         ctx.push_raw_str(&output_css);
     });
 }
-- 
2.43.0


From b81805c85ca0e988dc2ad453c7ffce974a712fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:15 +0000
Subject: [PATCH 03/22] fix: attributes: anchor the safe attribute suffix
 pattern

---
 src/tree/attribute/safe.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tree/attribute/safe.rs b/src/tree/attribute/safe.rs
index 8f59b4f..091ffe5 100644
--- a/src/tree/attribute/safe.rs
+++ b/src/tree/attribute/safe.rs
@@ -182,7 +182,7 @@ pub static URL_ATTRIBUTES: Lazy<HashSet<UniCase<&'static str>>> =
     Lazy::new(|| hashset_unicase!["href", "src",]);
 
 static ATTRIBUTE_SUFFIX_SAFE: Lazy<Regex> =
-    Lazy::new(|| Regex::new(r"[a-zA-z0-9\-]+").unwrap());
+    Lazy::new(|| Regex::new(r"^[a-zA-Z0-9\-]+$").unwrap());
 
 pub const SAFE_ATTRIBUTE_PREFIXES: [&str; 2] = ["aria-", "data-"];
 
-- 
2.43.0


From 809e26246df7015212a73cccd33e0d1ee5fbcd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 04/22] fix: links: use the URL as label when it is not a page
 link

---
 src/render/handle.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/render/handle.rs b/src/render/handle.rs
index 747bdc2..9bd0efb 100644
--- a/src/render/handle.rs
+++ b/src/render/handle.rs
@@ -111,9 +111,8 @@ impl Handle {
                 LinkLocation::Page(page_ref) => page_ref.page(),
             },
             LinkLabel::Page => match link {
-                LinkLocation::Url(_) => {
-                    panic!("Requested link label of page for a URL");
-                }
+                // Not a page, so there is no title to use.
+                LinkLocation::Url(url) => url.as_ref(),
                 LinkLocation::Page(page_ref) => {
                     let (site, page) = page_ref.fields_or(site);
                     page_title = match self.get_page_title(site, page) {
-- 
2.43.0


From 9c203bbc9d74077e9eeadaaf587477ccc46b620b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 05/22] fix: parsing: discard shared items of abandoned rule
 attempts

---
 src/parsing/parser.rs    | 46 ++++++++++++++++++++++++++++++++++++++--
 src/parsing/rule/mod.rs  | 13 ++++++++----
 src/tree/bibliography.rs |  4 ++++
 3 files changed, 57 insertions(+), 6 deletions(-)

diff --git a/src/parsing/parser.rs b/src/parsing/parser.rs
index f915c12..002144e 100644
--- a/src/parsing/parser.rs
+++ b/src/parsing/parser.rs
@@ -203,8 +203,8 @@ impl<'r, 't> Parser<'r, 't> {
     }
 
     #[inline]
-    pub fn set_footnote_block(&mut self) {
-        self.has_footnote_block = true;
+    pub fn set_footnote_block(&mut self, value: bool) {
+        self.has_footnote_block = value;
     }
 
     // Parse settings helpers
@@ -298,6 +298,38 @@ impl<'r, 't> Parser<'r, 't> {
         mem::take(&mut self.bibliographies.borrow_mut())
     }
 
+    // Backtracking
+    /// Records how much has been added to the shared tables so far.
+    ///
+    /// These are shared between all clones of a parser, so abandoning
+    /// a clone does not remove the items which were added through it.
+    pub fn shared_checkpoint(&self) -> SharedCheckpoint {
+        SharedCheckpoint {
+            table_of_contents: self.table_of_contents.borrow().len(),
+            html_blocks: self.html_blocks.borrow().len(),
+            code_blocks: self.code_blocks.borrow().len(),
+            footnotes: self.footnotes.borrow().len(),
+            bibliographies: self.bibliographies.borrow().next_index(),
+        }
+    }
+
+    /// Removes everything added to the shared tables since the checkpoint.
+    pub fn restore_shared(&mut self, checkpoint: &SharedCheckpoint) {
+        self.table_of_contents
+            .borrow_mut()
+            .truncate(checkpoint.table_of_contents);
+        self.html_blocks
+            .borrow_mut()
+            .truncate(checkpoint.html_blocks);
+        self.code_blocks
+            .borrow_mut()
+            .truncate(checkpoint.code_blocks);
+        self.footnotes.borrow_mut().truncate(checkpoint.footnotes);
+        self.bibliographies
+            .borrow_mut()
+            .truncate(checkpoint.bibliographies);
+    }
+
     // Special for [[include]], appending a SyntaxTree
     pub fn append_shared_items(
         &mut self,
@@ -571,6 +603,16 @@ impl<'r, 't> Parser<'r, 't> {
     }
 }
 
+/// Lengths of each of the shared tables, see `Parser::shared_checkpoint()`.
+#[derive(Debug)]
+pub struct SharedCheckpoint {
+    table_of_contents: usize,
+    html_blocks: usize,
+    code_blocks: usize,
+    footnotes: usize,
+    bibliographies: usize,
+}
+
 #[derive(Debug)]
 pub struct NonUniqueNameError;
 
diff --git a/src/parsing/rule/mod.rs b/src/parsing/rule/mod.rs
index bf46757..38b0110 100644
--- a/src/parsing/rule/mod.rs
+++ b/src/parsing/rule/mod.rs
@@ -67,15 +67,20 @@ impl Rule {
         }
 
         // Fork parser and try running the rule.
+        let checkpoint = parser.shared_checkpoint();
         let mut sub_parser = parser.clone_with_rule(self);
-        let result = (self.try_consume_fn)(&mut sub_parser);
-
-        if let Ok(ref output) = result {
+        let result = (self.try_consume_fn)(&mut sub_parser).and_then(|output| {
             // First, ensure there aren't any partial elements in the result.
             output.check_partials(parser)?;
+            Ok(output)
+        });
 
+        match result {
             // Now, finally save the parser state since it succeeded.
-            parser.update(&sub_parser);
+            Ok(_) => parser.update(&sub_parser),
+
+            // Otherwise, discard anything the failed attempt produced.
+            Err(_) => parser.restore_shared(&checkpoint),
         }
 
         result
diff --git a/src/tree/bibliography.rs b/src/tree/bibliography.rs
index 1284e8c..c68b7bd 100644
--- a/src/tree/bibliography.rs
+++ b/src/tree/bibliography.rs
@@ -102,6 +102,10 @@ impl<'t> BibliographyList<'t> {
         self.0.append(&mut other.0);
     }
 
+    pub fn truncate(&mut self, len: usize) {
+        self.0.truncate(len);
+    }
+
     #[inline]
     pub fn next_index(&self) -> usize {
         self.0.len()
-- 
2.43.0


From 1c0b97cc61d9be1a70e0e6ea05c363fb0191ec0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 06/22] fix: iftags: discard shared items of contents which are
 not shown

---
 src/parsing/rule/impls/block/blocks/footnote.rs         | 2 +-
 src/parsing/rule/impls/block/blocks/iftags.rs           | 6 ++++++
 src/parsing/rule/impls/block/blocks/include_elements.rs | 2 +-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parsing/rule/impls/block/blocks/footnote.rs b/src/parsing/rule/impls/block/blocks/footnote.rs
index 8b592e2..c1876cc 100644
--- a/src/parsing/rule/impls/block/blocks/footnote.rs
+++ b/src/parsing/rule/impls/block/blocks/footnote.rs
@@ -118,7 +118,7 @@ fn parse_footnote_block<'r, 't>(
     }
 
     // Tell parser that a footnote block was added
-    parser.set_footnote_block();
+    parser.set_footnote_block(true);
 
     // Build and return
     ok!(Element::FootnoteBlock { title, hide })
diff --git a/src/parsing/rule/impls/block/blocks/iftags.rs b/src/parsing/rule/impls/block/blocks/iftags.rs
index 5be9522..b6af9b7 100644
--- a/src/parsing/rule/impls/block/blocks/iftags.rs
+++ b/src/parsing/rule/impls/block/blocks/iftags.rs
@@ -51,6 +51,8 @@ fn parse_fn<'r, 't>(
         })?;
 
     // Get body content, never with paragraphs
+    let checkpoint = parser.shared_checkpoint();
+    let had_footnote_block = parser.has_footnote_block();
     let (elements, errors, paragraph_safe) =
         parser.get_body_elements(&BLOCK_IFTAGS, false)?.into();
 
@@ -68,6 +70,10 @@ fn parse_fn<'r, 't>(
     } else {
         trace!("Conditions failed, excluding elements");
 
+        // The contents may have registered footnotes, headings, etc.
+        parser.restore_shared(&checkpoint);
+        parser.set_footnote_block(had_footnote_block);
+
         Elements::None
     };
 
diff --git a/src/parsing/rule/impls/block/blocks/include_elements.rs b/src/parsing/rule/impls/block/blocks/include_elements.rs
index 9cc93c7..8fabfc8 100644
--- a/src/parsing/rule/impls/block/blocks/include_elements.rs
+++ b/src/parsing/rule/impls/block/blocks/include_elements.rs
@@ -71,7 +71,7 @@ fn parse_fn<'r, 't>(
     } = include_page(parser, &page_ref)?;
 
     if has_footnote_block {
-        parser.set_footnote_block();
+        parser.set_footnote_block(true);
     }
 
     // Extract elements and errors
-- 
2.43.0


From 320f93348d92b6cf65b21edf624cecf175a723c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:40 +0000
Subject: [PATCH 07/22] fix: header: collect consecutive headings iteratively

---
 src/parsing/rule/impls/header.rs | 51 ++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/src/parsing/rule/impls/header.rs b/src/parsing/rule/impls/header.rs
index 6ee06e1..ad7570e 100644
--- a/src/parsing/rule/impls/header.rs
+++ b/src/parsing/rule/impls/header.rs
@@ -32,6 +32,39 @@ fn try_consume_fn<'r, 't>(
 ) -> ParseResult<'r, 't, Elements<'t>> {
     debug!("Trying to create header container");
 
+    // Collect headings until we hit an error.
+    //
+    // We do this because the container consumes the newline,
+    // which we need to trigger the next header when using regular rules.
+    let (elements, mut all_errors, _) = parse_heading(parser)?.into();
+    let mut all_elements: Vec<_> = elements.into_iter().collect();
+
+    loop {
+        let checkpoint = parser.shared_checkpoint();
+        let mut sub_parser = parser.clone();
+
+        match parse_heading(&mut sub_parser) {
+            Ok(success) => {
+                let (elements, mut errors, _) = success.into();
+
+                parser.update(&sub_parser);
+                all_elements.extend(elements);
+                all_errors.append(&mut errors);
+            }
+            Err(_) => {
+                parser.restore_shared(&checkpoint);
+                break;
+            }
+        }
+    }
+
+    // Build final Elements object
+    ok!(false; all_elements, all_errors)
+}
+
+fn parse_heading<'r, 't>(
+    parser: &mut Parser<'r, 't>,
+) -> ParseResult<'r, 't, Elements<'t>> {
     macro_rules! step {
         ($token:expr) => {{
             let current = parser.current();
@@ -53,7 +86,7 @@ fn try_consume_fn<'r, 't>(
     // Step over whitespace
     step!(Token::Whitespace);
 
-    let (elements, mut all_errors, _) = collect_container(
+    let (elements, errors, _) = collect_container(
         parser,
         RULE_HEADER,
         ContainerType::Header(heading),
@@ -80,19 +113,5 @@ fn try_consume_fn<'r, 't>(
         parser.push_table_of_contents_entry(heading.level, elements);
     }
 
-    // Recursively collect headings until we hit an error.
-    //
-    // We do this because the container consumes the newline,
-    // which we need to trigger the next header when using regular rules.
-    let mut all_elements: Vec<_> = elements.into_iter().collect();
-
-    if let Ok(success) = (try_consume_fn)(parser) {
-        let (elements, mut errors, _) = success.into();
-
-        all_elements.extend(elements);
-        all_errors.append(&mut errors);
-    }
-
-    // Build final Elements object
-    ok!(false; all_elements, all_errors)
+    ok!(false; elements, errors)
 }
-- 
2.43.0


From 4bb56cbeea8ef57a3a5e3d338eadd62ac7e801ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:40 +0000
Subject: [PATCH 08/22] fix: list: don't consume the line which ends a list

---
 src/parsing/rule/impls/list.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parsing/rule/impls/list.rs b/src/parsing/rule/impls/list.rs
index 59eab30..60d3c52 100644
--- a/src/parsing/rule/impls/list.rs
+++ b/src/parsing/rule/impls/list.rs
@@ -54,6 +54,8 @@ fn try_consume_fn<'r, 't>(
 
     // Produce a depth list with elements
     loop {
+        // If this line isn't a list item, then none of it should be consumed
+        let line_start = parser.clone();
         let current = parser.current();
         let depth = match current.token {
             // Count the number of spaces for its depth
@@ -87,6 +89,7 @@ fn try_consume_fn<'r, 't>(
             Some(ltype) => ltype,
             None => {
                 trace!("Didn't find bullet token, couldn't determine list type, ending list iteration");
+                parser.update(&line_start);
                 break;
             }
         };
@@ -98,6 +101,7 @@ fn try_consume_fn<'r, 't>(
         let current = parser.current();
         if current.token != Token::Whitespace {
             warn!("Didn't find whitespace after bullet token, ending list iteration");
+            parser.update(&line_start);
             break;
         }
         parser.step()?;
-- 
2.43.0


From 764fde109c932f12b43365de7a2a8596ea677c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:40 +0000
Subject: [PATCH 09/22] fix: table: don't consume the incomplete row which ends
 a table

---
 src/parsing/rule/impls/table.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parsing/rule/impls/table.rs b/src/parsing/rule/impls/table.rs
index 93eb57c..4b7bc74 100644
--- a/src/parsing/rule/impls/table.rs
+++ b/src/parsing/rule/impls/table.rs
@@ -49,6 +49,11 @@ fn try_consume_fn<'r, 't>(
 
         let mut cells = Vec::new();
 
+        // If this row turns out to be incomplete, then none of it should be consumed
+        let row_start = parser.clone();
+        let row_checkpoint = parser.shared_checkpoint();
+        let row_errors = errors.len();
+
         macro_rules! build_row {
             () => {
                 rows.push(TableRow {
@@ -65,6 +70,9 @@ fn try_consume_fn<'r, 't>(
                     return Err(parser.make_err(ParseErrorKind::RuleFailed));
                 } else {
                     // At least one row was created, end it here.
+                    parser.update(&row_start);
+                    parser.restore_shared(&row_checkpoint);
+                    errors.truncate(row_errors);
                     break 'table;
                 }
             };
-- 
2.43.0


From 5c5705d515da47739bebb4963b005dc6697a7318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:40 +0000
Subject: [PATCH 10/22] fix: bibcite: require the bibcite keyword

---
 src/parsing/rule/impls/bibcite.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsing/rule/impls/bibcite.rs b/src/parsing/rule/impls/bibcite.rs
index a6047d2..fa7c9fa 100644
--- a/src/parsing/rule/impls/bibcite.rs
+++ b/src/parsing/rule/impls/bibcite.rs
@@ -35,7 +35,7 @@ fn try_consume_fn<'r, 't>(
     // This is like a poor man's block, it's "((bibcite <label>))"
     let current = parser.current();
     if current.token != Token::Identifier
-        && !current.slice.eq_ignore_ascii_case("bibcite")
+        || !current.slice.eq_ignore_ascii_case("bibcite")
     {
         warn!("'((' not followed by 'bibcite', failing rule");
         return Err(parser.make_err(ParseErrorKind::RuleFailed));
-- 
2.43.0


From c3795e641bed1709a240751da53e0c181b1d0feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:40 +0000
Subject: [PATCH 11/22] fix: parsing: only accept partials directly within the
 enclosing rule

---
 src/parsing/parser.rs                         | 13 ++++++++++++-
 src/parsing/rule/impls/block/blocks/iftags.rs |  6 +++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/parsing/parser.rs b/src/parsing/parser.rs
index 002144e..9e07d05 100644
--- a/src/parsing/parser.rs
+++ b/src/parsing/parser.rs
@@ -81,6 +81,7 @@ pub struct Parser<'r, 't> {
 
     // Flags
     accepts_partial: AcceptsPartial,
+    parent_accepts_partial: AcceptsPartial, // What the rule invoking the current one accepts.
     in_footnote: bool, // Whether we're currently inside [[footnote]] ... [[/footnote]].
     has_footnote_block: bool, // Whether a [[footnoteblock]] was created.
     start_of_line: bool,
@@ -116,6 +117,7 @@ impl<'r, 't> Parser<'r, 't> {
             footnotes: make_shared_vec(),
             bibliographies: Rc::new(RefCell::new(BibliographyList::new())),
             accepts_partial: AcceptsPartial::None,
+            parent_accepts_partial: AcceptsPartial::None,
             in_footnote: false,
             has_footnote_block: false,
             start_of_line: true,
@@ -148,6 +150,11 @@ impl<'r, 't> Parser<'r, 't> {
         self.accepts_partial
     }
 
+    #[inline]
+    pub fn parent_accepts_partial(&self) -> AcceptsPartial {
+        self.parent_accepts_partial
+    }
+
     #[inline]
     pub fn in_footnote(&self) -> bool {
         self.in_footnote
@@ -172,6 +179,11 @@ impl<'r, 't> Parser<'r, 't> {
     pub fn clone_with_rule(&self, rule: Rule) -> Self {
         let mut clone = self.clone();
         clone.set_rule(rule);
+
+        // Only the rule which set the partial flag looks for partials,
+        // not the rules which are invoked within it.
+        clone.parent_accepts_partial = self.accepts_partial;
+        clone.accepts_partial = AcceptsPartial::None;
         clone
     }
 
@@ -448,7 +460,6 @@ impl<'r, 't> Parser<'r, 't> {
     #[inline]
     pub fn update(&mut self, parser: &Parser<'r, 't>) {
         // Flags
-        self.accepts_partial = parser.accepts_partial;
         self.in_footnote = parser.in_footnote;
         self.has_footnote_block = parser.has_footnote_block;
         self.start_of_line = parser.start_of_line;
diff --git a/src/parsing/rule/impls/block/blocks/iftags.rs b/src/parsing/rule/impls/block/blocks/iftags.rs
index b6af9b7..b366854 100644
--- a/src/parsing/rule/impls/block/blocks/iftags.rs
+++ b/src/parsing/rule/impls/block/blocks/iftags.rs
@@ -20,7 +20,7 @@
 
 use super::prelude::*;
 use crate::data::PageInfo;
-use crate::parsing::ElementCondition;
+use crate::parsing::{ElementCondition, ParserWrap};
 
 pub const BLOCK_IFTAGS: BlockRule = BlockRule {
     name: "block-iftags",
@@ -50,6 +50,10 @@ fn parse_fn<'r, 't>(
             None => Err(parser.make_err(ParseErrorKind::BlockMissingArguments)),
         })?;
 
+    // The contents are placed directly in the parent, so it decides on partials
+    let parser_partials = parser.parent_accepts_partial();
+    let parser = &mut ParserWrap::new(parser, parser_partials);
+
     // Get body content, never with paragraphs
     let checkpoint = parser.shared_checkpoint();
     let had_footnote_block = parser.has_footnote_block();
-- 
2.43.0


From 888b28928e6d1120f5e02f7130ec07b5cc3edc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:25 +0000
Subject: [PATCH 12/22] fix: definition-list: discard shared items of failed
 items

---
 src/parsing/rule/impls/definition_list.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parsing/rule/impls/definition_list.rs b/src/parsing/rule/impls/definition_list.rs
index 1a4f8fb..a7856f6 100644
--- a/src/parsing/rule/impls/definition_list.rs
+++ b/src/parsing/rule/impls/definition_list.rs
@@ -67,6 +67,7 @@ fn parse_definition_list<'r, 't>(
     // Collect remainder, halting if there's a failure
     if !at_end {
         loop {
+            let checkpoint = parser.shared_checkpoint();
             let sub_parser = &mut parser.clone();
 
             match parse_item(sub_parser) {
@@ -84,6 +85,7 @@ fn parse_definition_list<'r, 't>(
                 }
                 Err(error) => {
                     warn!("Failed to get the next definition list item, ending iteration: {error:?}");
+                    parser.restore_shared(&checkpoint);
                     break;
                 }
             }
-- 
2.43.0


From c980a4e4a0d2b8703c3e32a1c4d800e5426fbc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 13/22] fix: definition-list: keep the errors of the contents

---
 src/parsing/rule/impls/definition_list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsing/rule/impls/definition_list.rs b/src/parsing/rule/impls/definition_list.rs
index a7856f6..ce66d40 100644
--- a/src/parsing/rule/impls/definition_list.rs
+++ b/src/parsing/rule/impls/definition_list.rs
@@ -93,7 +93,7 @@ fn parse_definition_list<'r, 't>(
     }
 
     // Build and return element
-    ok!(Element::DefinitionList(items))
+    ok!(Element::DefinitionList(items), errors)
 }
 
 fn parse_item<'r, 't>(
-- 
2.43.0


From b1ae47060f824d049382bfbc3faf5fd7cc302fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 14/22] fix: links: strip nested sites and categories
 iteratively

---
 src/parsing/rule/impls/link_triple.rs | 39 ++++++++++++++-------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/src/parsing/rule/impls/link_triple.rs b/src/parsing/rule/impls/link_triple.rs
index f66e6c4..2226ece 100644
--- a/src/parsing/rule/impls/link_triple.rs
+++ b/src/parsing/rule/impls/link_triple.rs
@@ -197,30 +197,31 @@ fn build_separate<'r, 't>(
 ///
 /// It returns `Some(_)` if a slice was performed, and `None` if
 /// the string would have been returned as-is.
-fn strip_category(url: &str) -> Option<&str> {
-    match url.find(':') {
-        // Link with site, e.g. :scp-wiki:component:image-block.
-        Some(0) => {
-            let url = &url[1..];
-
-            // If there is no colon, it's malformed, return None.
-            // Else, return a stripped version
-            url.find(':').map(|idx| {
-                let url = url[idx + 1..].trim_start();
+fn strip_category(mut url: &str) -> Option<&str> {
+    let mut stripped = None;
 
+    loop {
+        match url.find(':') {
+            // Link with site, e.g. :scp-wiki:component:image-block.
+            Some(0) => match url[1..].find(':') {
                 // Skip past the site portion, then use the regular strip case.
                 //
-                // We unwrap_or() here because, at minimum, we return the substring
-                // not containing the site.
-                strip_category(url).unwrap_or(url)
-            })
-        }
+                // At minimum, we return the substring not containing the site.
+                Some(idx) => {
+                    url = url[idx + 2..].trim_start();
+                    stripped = Some(url);
+                }
 
-        // Link with category but no site, e.g. theme:sigma-9.
-        Some(idx) => Some(url[idx + 1..].trim_start()),
+                // If there is no other colon, it's malformed.
+                None => return stripped,
+            },
 
-        // No stripping necessary
-        None => None,
+            // Link with category but no site, e.g. theme:sigma-9.
+            Some(idx) => return Some(url[idx + 1..].trim_start()),
+
+            // No further stripping necessary
+            None => return stripped,
+        }
     }
 }
 
-- 
2.43.0


From 1f4bedc82cc29c3492eef66e4b72bbed15c6e700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:41 +0000
Subject: [PATCH 15/22] fix: parsing: treat closing parentheses as text

The bibcite rule asserts that it starts at opening parentheses, so any
"))" outside a bibcite panicked.
---
 src/parsing/rule/mapping.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsing/rule/mapping.rs b/src/parsing/rule/mapping.rs
index ec61180..f6c816b 100644
--- a/src/parsing/rule/mapping.rs
+++ b/src/parsing/rule/mapping.rs
@@ -44,7 +44,7 @@ pub static RULE_MAP: Lazy<EnumMap<Token, Vec<Rule>>> = Lazy::new(|| {
         Token::LeftBlockStar => vec![RULE_BLOCK_STAR],
         Token::RightBlock => vec![],
         Token::LeftParentheses => vec![RULE_BIBCITE, RULE_TEXT],
-        Token::RightParentheses => vec![RULE_BIBCITE, RULE_TEXT],
+        Token::RightParentheses => vec![RULE_TEXT],
         Token::LeftMath => vec![RULE_MATH],
         Token::RightMath => vec![],
         Token::DoubleDash => vec![RULE_STRIKETHROUGH_DASH, RULE_DASH],
-- 
2.43.0


From 651c719c1cb85e3290251f7241faac776a9af919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:57 +0000
Subject: [PATCH 16/22] fix: block: don't strip the score flag twice when
 looking up a block

---
 src/parsing/rule/impls/block/rule.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parsing/rule/impls/block/rule.rs b/src/parsing/rule/impls/block/rule.rs
index 8f8ed3c..80f96af 100644
--- a/src/parsing/rule/impls/block/rule.rs
+++ b/src/parsing/rule/impls/block/rule.rs
@@ -106,17 +106,17 @@ where
     let (name, in_head) = parser.get_block_name(flag_star)?;
     trace!("Got block name '{name}' (in head {in_head})");
 
-    let (name, flag_score) = match name.strip_suffix('_') {
-        Some(name) => (name, true),
-        None => (name, false),
-    };
-
-    // Get the block rule for this name
+    // Get the block rule for this name (the lookup ignores the score flag)
     let block = match get_block_rule_with_name(name) {
         Some(block) => block,
         None => return Err(parser.make_err(ParseErrorKind::NoSuchBlock)),
     };
 
+    let (name, flag_score) = match name.strip_suffix('_') {
+        Some(name) => (name, true),
+        None => (name, false),
+    };
+
     // Set block rule for better errors
     parser.set_block(block);
 
-- 
2.43.0


From f286d5237be8b4d0702f9a1f801e6bb68a97db8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:11 +0000
Subject: [PATCH 17/22] fix: ifcategory: discard shared items of contents which
 are not shown

---
 src/parsing/rule/impls/block/blocks/ifcategory.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parsing/rule/impls/block/blocks/ifcategory.rs b/src/parsing/rule/impls/block/blocks/ifcategory.rs
index 951064e..96edb7d 100644
--- a/src/parsing/rule/impls/block/blocks/ifcategory.rs
+++ b/src/parsing/rule/impls/block/blocks/ifcategory.rs
@@ -67,6 +67,8 @@ fn parse_fn<'r, 't>(
         })?;
 
     // Get body content, never with paragraphs
+    let checkpoint = parser.shared_checkpoint();
+    let had_footnote_block = parser.has_footnote_block();
     let (elements, errors, paragraph_safe) =
         parser.get_body_elements(&BLOCK_IFCATEGORY, false)?.into();
 
@@ -84,6 +86,10 @@ fn parse_fn<'r, 't>(
     } else {
         trace!("Conditions failed, excluding elements");
 
+        // The contents may have registered footnotes, headings, etc.
+        parser.restore_shared(&checkpoint);
+        parser.set_footnote_block(had_footnote_block);
+
         Elements::None
     };
 
-- 
2.43.0


From 9c3985d9866edfea92ac93da0f93d8a379de90c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:45 +0000
Subject: [PATCH 18/22] fix: table: don't accept cells directly within header
 cells

---
 src/parsing/rule/impls/block/blocks/table.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/parsing/rule/impls/block/blocks/table.rs b/src/parsing/rule/impls/block/blocks/table.rs
index b1b547e..0b36dc9 100644
--- a/src/parsing/rule/impls/block/blocks/table.rs
+++ b/src/parsing/rule/impls/block/blocks/table.rs
@@ -232,8 +232,6 @@ fn parse_cell_header<'r, 't>(
     flag_score: bool,
     in_head: bool,
 ) -> ParseResult<'r, 't, Elements<'t>> {
-    let parser = &mut ParserWrap::new(parser, AcceptsPartial::TableCell);
-
     // Get block contents.
     let ParsedBlock {
         elements,
-- 
2.43.0


From 9dfd266586c0027cc3cd9bee841c3696e96d6dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:26 +0000
Subject: [PATCH 19/22] fix: write formatted text through the test for
 invisibility

Dates and equation references inside of invisible containers were shown
in the text output.
---
 src/render/text/context.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/render/text/context.rs b/src/render/text/context.rs
index c59039a..5b1aac1 100644
--- a/src/render/text/context.rs
+++ b/src/render/text/context.rs
@@ -266,6 +266,7 @@ where
 {
     #[inline]
     fn write_str(&mut self, s: &str) -> fmt::Result {
-        self.buffer().write_str(s)
+        self.push_str(s);
+        Ok(())
     }
 }
-- 
2.43.0


From 2736834821852c7acc815252ad66c0a6fdb8e1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:29 +0000
Subject: [PATCH 20/22] fix: take the start of an include within another's
 arguments as part of it

---
 src/includes/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/includes/mod.rs b/src/includes/mod.rs
index 4656265..4cd500d 100644
--- a/src/includes/mod.rs
+++ b/src/includes/mod.rs
@@ -80,6 +80,7 @@ where
 
     let mut ranges = Vec::new();
     let mut includes = Vec::new();
+    let mut last_end = 0;
 
     // Get include references
     for mtch in INCLUDE_REGEX.find_iter(input) {
@@ -91,10 +92,18 @@ where
             mtch.as_str(),
         );
 
+        // An include block may have the start of another in its arguments.
+        // That is part of the outer block, and is replaced along with it.
+        if start < last_end {
+            trace!("Match is within the previous include block, skipping");
+            continue;
+        }
+
         match parse_include_block(input, start, settings) {
             Ok((include, end)) => {
                 ranges.push(start..end);
                 includes.push(include);
+                last_end = end;
             }
             Err(_) => warn!("Unable to parse include regex match"),
         }
-- 
2.43.0


From 0e21ad3c308202647da0c547c8b77b57a537b2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:37 +0000
Subject: [PATCH 21/22] fix: record links in the backlinks as what they point
 to

---
 src/render/html/context.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/render/html/context.rs b/src/render/html/context.rs
index 0dca1a1..7f5b135 100644
--- a/src/render/html/context.rs
+++ b/src/render/html/context.rs
@@ -280,23 +280,21 @@ impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't> {
                 self.backlinks.internal_links.push(page.to_owned());
             }
             LinkLocation::Url(link) => {
-                let mut link: &str = link;
+                let link: &str = link;
 
-                if link == "javascript:;" {
+                // Anchors are on this page, they don't link to another.
+                if link == "javascript:;" || link.starts_with('#') {
                     return;
                 }
 
-                // Also support [ links pointing to local pages.
-                // e.g. [/scp-001 SCP-001] in addition to [[[SCP-001]]].
-                if link.starts_with('/') {
-                    link = &link[1..];
-                }
-
                 if is_url(link) {
                     let link = Cow::Owned(str!(link));
                     self.backlinks.external_links.push(link);
                 } else {
-                    let page_ref = PageRef::page_only(cow!(link));
+                    // Also support [ links pointing to local pages.
+                    // e.g. [/scp-001 SCP-001] in addition to [[[SCP-001]]].
+                    let page = link.strip_prefix('/').unwrap_or(link);
+                    let page_ref = PageRef::page_only(cow!(page));
                     self.backlinks.internal_links.push(page_ref.to_owned());
                 }
             }
-- 
2.43.0


From 634f2a17673c596a4d49054a2a57f5fc295082b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:01 +0000
Subject: [PATCH 22/22] fix: never put what was gathered into paragraphs in
 another paragraph

---
 src/parsing/paragraph/stack.rs                   | 7 +++----
 src/parsing/rule/impls/block/blocks/paragraph.rs | 4 ++--
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/parsing/paragraph/stack.rs b/src/parsing/paragraph/stack.rs
index a90623e..122c4a3 100644
--- a/src/parsing/paragraph/stack.rs
+++ b/src/parsing/paragraph/stack.rs
@@ -141,10 +141,9 @@ impl<'t> ParagraphStack<'t> {
         // If this has any paragraphs in it, or other incompatible elements,
         // it's not fit to be wrapped in <p>.
         //
-        // Otherwise it's just a listing of internal elements.
-        // This is definitely not the common case here, this mostly will happen
-        // if the element list is empty.
-        let paragraph_safe = elements.iter().all(|element| element.paragraph_safe());
+        // That's all this can have in it, elements which are paragraph safe
+        // have been put into paragraphs. So this is only safe if it's empty.
+        let paragraph_safe = elements.is_empty();
 
         // Return finished element list
         ok!(paragraph_safe; elements, errors)
diff --git a/src/parsing/rule/impls/block/blocks/paragraph.rs b/src/parsing/rule/impls/block/blocks/paragraph.rs
index 87c36a0..15f2fe8 100644
--- a/src/parsing/rule/impls/block/blocks/paragraph.rs
+++ b/src/parsing/rule/impls/block/blocks/paragraph.rs
@@ -45,7 +45,7 @@ fn parse_fn<'r, 't>(
     // Gather paragraphs
     let arguments = parser.get_head_map(&BLOCK_PARAGRAPH, in_head)?;
     let attributes = arguments.to_attribute_map(parser.settings());
-    let (mut elements, errors, _) =
+    let (mut elements, errors, paragraph_safe) =
         parser.get_body_elements(&BLOCK_PARAGRAPH, true)?.into();
 
     // Apply attributes to each paragraph
@@ -58,5 +58,5 @@ fn parse_fn<'r, 't>(
     }
 
     let element = Elements::Multiple(elements);
-    ok!(element, errors)
+    ok!(paragraph_safe; element, errors)
 }
-- 
2.43.0

