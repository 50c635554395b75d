From f07ebf9f6d59c822c873e175082925b93952b598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:55 +0000
Subject: [PATCH 01/29] fix: reparent_children must move every child, not only
 the first

---
 victor/src/dom/html.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/victor/src/dom/html.rs b/victor/src/dom/html.rs
index b93a81d..cb3ccdc 100644
--- a/victor/src/dom/html.rs
+++ b/victor/src/dom/html.rs
@@ -202,8 +202,9 @@ impl TreeSink for Sink {
         let mut next_child = self.document[node].first_child;
         while let Some(child) = next_child {
             debug_assert_eq!(self.document[child].parent, Some(node));
-            self.document.append(new_parent, child);
-            next_child = self.document[child].next_sibling
+            // Appending changes the sibling links of this child
+            next_child = self.document[child].next_sibling;
+            self.document.append(new_parent, child)
         }
     }
 }
-- 
2.43.0


From 3020792b163a7ee6aff258c4b8c84d6b5cd53a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:55 +0000
Subject: [PATCH 02/29] fix: reverse iteration of font table slices starts at
 the last item, not past the end

---
 victor/src/fonts/parsing.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/victor/src/fonts/parsing.rs b/victor/src/fonts/parsing.rs
index 580ad9d..9afba31 100644
--- a/victor/src/fonts/parsing.rs
+++ b/victor/src/fonts/parsing.rs
@@ -275,13 +275,12 @@ impl<T> Iterator for SliceIter<T> {
 impl<T> DoubleEndedIterator for SliceIter<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
         if self.start != self.end {
-            let next = self.end;
-            let byte_position = next.byte_position - mem::size_of::<T>() as u32;
+            let byte_position = self.end.byte_position - mem::size_of::<T>() as u32;
             self.end = Position {
                 byte_position,
                 ty: PhantomData,
             };
-            Some(next)
+            Some(self.end)
         } else {
             None
         }
-- 
2.43.0


From 044dab03732e9da5b464d02f992fe18cd59a5518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:01 +0000
Subject: [PATCH 03/29] fix: offsets in a malformed font must not overflow

---
 victor/src/fonts/parsing.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/victor/src/fonts/parsing.rs b/victor/src/fonts/parsing.rs
index 9afba31..35bd5e0 100644
--- a/victor/src/fonts/parsing.rs
+++ b/victor/src/fonts/parsing.rs
@@ -44,13 +44,14 @@ impl<T> Position<T> {
 
     pub(in crate::fonts) fn offset_bytes<U, O: Into<u32>>(self, by: O) -> Position<U> {
         Position {
-            byte_position: self.byte_position + by.into(),
+            // Saturate: a position that does not fit is beyond the end of the file anyway.
+            byte_position: self.byte_position.saturating_add(by.into()),
             ty: PhantomData,
         }
     }
 
     pub(in crate::fonts) fn offset<O: Into<u32>>(self, by: O) -> Position<T> {
-        self.offset_bytes(mem::size_of::<T>() as u32 * by.into())
+        self.offset_bytes((mem::size_of::<T>() as u32).saturating_mul(by.into()))
     }
 
     pub(in crate::fonts) fn followed_by<U>(self) -> Position<U> {
-- 
2.43.0


From 2be659883dee1fd7b28cccbe347100f90980f9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 04/29] fix: cmap subtables with reversed ranges or large glyph
 IDs

---
 victor/src/fonts/cmap.rs | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/victor/src/fonts/cmap.rs b/victor/src/fonts/cmap.rs
index 3e3d729..dee5e03 100644
--- a/victor/src/fonts/cmap.rs
+++ b/victor/src/fonts/cmap.rs
@@ -134,18 +134,12 @@ impl Format4 {
         for segment_index in 0..self.segment_count {
             let start_code = self.start_codes.offset(segment_index).read_from(bytes)?;
             let end_code = self.end_codes.offset(segment_index).read_from(bytes)?;
-            let mut code_point = start_code;
-            loop {
+            for code_point in start_code..=end_code {
                 if let Some(glyph_id) =
                     self.glyph_id(bytes, segment_index, start_code, code_point)?
                 {
                     f(u32::from(code_point), glyph_id)
                 }
-
-                if code_point == end_code {
-                    break;
-                }
-                code_point += 1
             }
         }
         Ok(())
@@ -214,8 +208,9 @@ impl Format12 {
 
         if let Some(index) = result? {
             let group = self.groups.get_unchecked(index);
-            let id32 = group.start_glyph_id().read_from(bytes)?
-                + (code_point - group.start_char_code().read_from(bytes)?);
+            let start_glyph_id = group.start_glyph_id().read_from(bytes)?;
+            let id32 =
+                start_glyph_id.saturating_add(code_point - group.start_char_code().read_from(bytes)?);
             // Glyph IDs are 16 bits in PDF.
             // For now, pretend that glyphs with larger IDs are missing.
             // FIXME: Maybe this will be unnecessary with PDF font subsetting?
@@ -235,15 +230,13 @@ impl Format12 {
             let start_code = group.start_char_code().read_from(bytes)?;
             let end_code = group.end_char_code().read_from(bytes)?;
             let start_glyph_id = group.start_glyph_id().read_from(bytes)?;
-            let mut code_point = start_code;
-            loop {
-                let glyph_id = (code_point - start_code) + start_glyph_id;
-                f(code_point, glyph_id as u16);
-
-                if code_point == end_code {
+            for code_point in start_code..=end_code.min(char::MAX as u32) {
+                let glyph_id = start_glyph_id.saturating_add(code_point - start_code);
+                // Like in `get`, glyphs with IDs that do not fit 16 bits are missing.
+                if glyph_id > 0xFFFF {
                     break;
                 }
-                code_point += 1;
+                f(code_point, glyph_id as u16);
             }
         }
         Ok(())
-- 
2.43.0


From cc9adaa9526aea22d00e6599d197bfa5708e9f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 05/29] fix: escape number signs in PDF names

---
 victor/src/pdf/object.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/victor/src/pdf/object.rs b/victor/src/pdf/object.rs
index 1e17745..9c91666 100644
--- a/victor/src/pdf/object.rs
+++ b/victor/src/pdf/object.rs
@@ -243,8 +243,8 @@ fn write_name<W: Write>(name: &[u8], w: &mut W) -> io::Result<()> {
     w.write_all(b"/")?;
     for &byte in name {
         match KIND[byte as usize] {
-            CharKind::Regular => w.write_all(&[byte])?,
-            CharKind::Whitespace | CharKind::Delimiter => {
+            CharKind::Regular if byte != b'#' => w.write_all(&[byte])?,
+            _ => {
                 w.write_all(b"#")?;
                 write_hex(byte, w)?
             }
-- 
2.43.0


From 58317180685719a4561c075f4b502236fe0fb7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 06/29] fix: escape carriage returns in PDF literal strings

---
 victor/src/pdf/object.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/victor/src/pdf/object.rs b/victor/src/pdf/object.rs
index 9c91666..72a3b00 100644
--- a/victor/src/pdf/object.rs
+++ b/victor/src/pdf/object.rs
@@ -161,6 +161,8 @@ impl<'a> Object<'a> {
                 for &byte in value {
                     match byte {
                         b'\\' | b'(' | b')' => w.write_all(&[b'\\', byte])?,
+                        // An unescaped CR or CRLF would be read as LF
+                        b'\r' => w.write_all(b"\\r")?,
                         _ => w.write_all(&[byte])?,
                     }
                 }
-- 
2.43.0


From 153c3340650cd076b47adbdc01bd4c9a0f824123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:36 +0000
Subject: [PATCH 07/29] fix: PDF numbers have no exponent notation and are
 finite

---
 victor/src/pdf/object.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/victor/src/pdf/object.rs b/victor/src/pdf/object.rs
index 72a3b00..0ec9796 100644
--- a/victor/src/pdf/object.rs
+++ b/victor/src/pdf/object.rs
@@ -153,7 +153,7 @@ impl<'a> Object<'a> {
             // https://www.adobe.com/content/dam/acom/en/devnet/pdf/PDF32000_2008.pdf#G6.1965566
             Object::I32(value) => itoa::write(w, value).map(|_| ()),
             Object::Usize(value) => itoa::write(w, value).map(|_| ()),
-            Object::Float(value) => dtoa::write(w, value).map(|_| ()),
+            Object::Float(value) => write_float(value, w),
             Object::Name(value) => write_name(value, w),
             Object::Dictionary(ref value) => value.write(w),
             Object::LiteralString(value) => {
@@ -233,6 +233,18 @@ impl<'a> Dictionary<'a> {
     }
 }
 
+/// PDF has neither exponent notation nor non-finite numbers
+fn write_float<W: Write>(value: f32, w: &mut W) -> io::Result<()> {
+    let abs = value.abs();
+    if abs == 0. || (abs >= 1e-5 && abs < 1e20) {
+        dtoa::write(w, value).map(|_| ())
+    } else if value.is_nan() {
+        w.write_all(b"0")
+    } else {
+        write!(w, "{}", value.max(f32::MIN).min(f32::MAX))
+    }
+}
+
 fn write_hex<W: Write>(byte: u8, w: &mut W) -> io::Result<()> {
     const HEX_DIGITS: [u8; 16] = *b"0123456789ABCDEF";
     w.write_all(&[
-- 
2.43.0


From 8fe95f57594116e13ebca074335c0ce2c4fe1b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 08/29] fix: unset_boxes_in_subtree must stop at the end of the
 subtree

---
 victor/src/layout/dom_traversal.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/victor/src/layout/dom_traversal.rs b/victor/src/layout/dom_traversal.rs
index 848e89b..73a5fb1 100644
--- a/victor/src/layout/dom_traversal.rs
+++ b/victor/src/layout/dom_traversal.rs
@@ -327,18 +327,18 @@ impl Context<'_> {
             }
             let mut next_is_a_sibling_of = node_id;
             node_id = loop {
+                if next_is_a_sibling_of == base_element {
+                    // Don’t go outside the subtree
+                    return;
+                }
                 if let Some(sibling) = self.document[next_is_a_sibling_of].next_sibling {
                     break sibling;
                 } else {
-                    next_is_a_sibling_of = node
+                    next_is_a_sibling_of = self.document[next_is_a_sibling_of]
                         .parent
                         .expect("reached the root while traversing only a subtree");
                 }
             };
-            if next_is_a_sibling_of == base_element {
-                // Don’t go outside the subtree
-                return;
-            }
         }
     }
 }
-- 
2.43.0


From 62530a3aa70531e2f1ab5ad9f5bccf921a16cd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:59 +0000
Subject: [PATCH 09/29] fix: do not panic on a block-level box inside of an
 inline box

---
 victor/src/layout/flow/construct.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/victor/src/layout/flow/construct.rs b/victor/src/layout/flow/construct.rs
index 4acfc93..4729d5d 100644
--- a/victor/src/layout/flow/construct.rs
+++ b/victor/src/layout/flow/construct.rs
@@ -470,11 +470,6 @@ impl<'a> BlockContainerBuilder<'a> {
     }
 
     fn end_ongoing_inline_formatting_context(&mut self) {
-        assert!(
-            self.ongoing_inline_boxes_stack.is_empty(),
-            "there should be no ongoing inline level boxes",
-        );
-
         if self
             .ongoing_inline_formatting_context
             .inline_level_boxes
-- 
2.43.0


From 8e0e6098969d520aea78cfe2225f868f583ddc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 10/29] fix: keep the white space between a text and a
 following inline box starting with white space

---
 victor/src/layout/flow/construct.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/victor/src/layout/flow/construct.rs b/victor/src/layout/flow/construct.rs
index 4729d5d..4f2d656 100644
--- a/victor/src/layout/flow/construct.rs
+++ b/victor/src/layout/flow/construct.rs
@@ -267,8 +267,13 @@ impl<'a> BlockContainerBuilder<'a> {
         if !text.starts_with(|c: char| c.is_ascii_whitespace()) {
             return (false, text);
         }
-        let mut inline_level_boxes = self.current_inline_level_boxes().iter().rev();
-        let mut stack = Vec::new();
+        // What precedes this text is in the children of ongoing inline boxes,
+        // innermost last, which are not in the children of their parent yet.
+        let mut stack: Vec<_> = std::iter::once(&self.ongoing_inline_formatting_context.inline_level_boxes)
+            .chain(self.ongoing_inline_boxes_stack.iter().map(|b| &b.children))
+            .map(|boxes| boxes.iter().rev())
+            .collect();
+        let mut inline_level_boxes = stack.pop().unwrap();
         let preserved = loop {
             match inline_level_boxes.next().map(|b| &**b) {
                 Some(InlineLevelBox::TextRun(r)) => break !r.text.ends_with(' '),
-- 
2.43.0


From e34500bec8b549285ab843f2569fde64c5de4b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:03 +0000
Subject: [PATCH 11/29] fix: absolute positioning mixed up inline and block
 sizes of the containing block

---
 victor/src/layout/positioned.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/victor/src/layout/positioned.rs b/victor/src/layout/positioned.rs
index 9794d1a..fa65ed2 100644
--- a/victor/src/layout/positioned.rs
+++ b/victor/src/layout/positioned.rs
@@ -217,7 +217,7 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
         );
 
         let (block_anchor, block_size, margin_block_start, margin_block_end) = solve_axis(
-            cbis,
+            cbbs,
             pb.block_sum(),
             computed_margin.block_start,
             computed_margin.block_end,
@@ -263,7 +263,7 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
 
         let inline_start = match inline_anchor {
             Anchor::Start(start) => start + pb.inline_start + margin.inline_start,
-            Anchor::End(end) => cbbs - end - pb.inline_end - margin.inline_end - inline_size,
+            Anchor::End(end) => cbis - end - pb.inline_end - margin.inline_end - inline_size,
         };
 
         let block_size = block_size.auto_is(|| flow_children.block_size);
-- 
2.43.0


From e9ae27eacc055cc0abc4ad97ee0b1061c09114c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:28 +0000
Subject: [PATCH 12/29] fix: static positions are relative to the content area,
 not to the padding area of the containing block

---
 victor/src/layout/flow/mod.rs   |  2 +-
 victor/src/layout/positioned.rs | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/victor/src/layout/flow/mod.rs b/victor/src/layout/flow/mod.rs
index a810dfb..ba43573 100644
--- a/victor/src/layout/flow/mod.rs
+++ b/victor/src/layout/flow/mod.rs
@@ -420,7 +420,7 @@ fn layout_in_flow_non_replaced_block_level<'a>(
     };
     if style.box_.position.is_relatively_positioned() {
         AbsolutelyPositionedFragment::in_positioned_containing_block(
-            &nested_abspos,
+            &mut nested_abspos,
             &mut flow_children.fragments,
             &content_rect.size,
             &padding,
diff --git a/victor/src/layout/positioned.rs b/victor/src/layout/positioned.rs
index fa65ed2..3911c84 100644
--- a/victor/src/layout/positioned.rs
+++ b/victor/src/layout/positioned.rs
@@ -83,7 +83,7 @@ impl AbsolutelyPositionedBox {
 
 impl<'a> AbsolutelyPositionedFragment<'a> {
     pub(super) fn in_positioned_containing_block(
-        absolute: &[Self],
+        absolute: &mut [Self],
         fragments: &mut Vec<Fragment>,
         content_rect_size: &Vec2<Length>,
         padding: &Sides<Length>,
@@ -98,6 +98,15 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
             start_corner: Vec2::zero(),
         }
         .inflate(&padding);
+        // So far static positions are relative to the content rect
+        for abspos_fragment in &mut *absolute {
+            if let AbsoluteBoxOffsets::StaticStart { start } = &mut abspos_fragment.inline_start {
+                *start += padding.inline_start;
+            }
+            if let AbsoluteBoxOffsets::StaticStart { start } = &mut abspos_fragment.block_start {
+                *start += padding.block_start;
+            }
+        }
         let containing_block = DefiniteContainingBlock {
             size: padding_rect.size.clone(),
             mode,
@@ -284,7 +293,7 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
         };
 
         AbsolutelyPositionedFragment::in_positioned_containing_block(
-            &absolutely_positioned_fragments,
+            &mut absolutely_positioned_fragments,
             &mut flow_children.fragments,
             &content_rect.size,
             &padding,
-- 
2.43.0


From f651276bd5c58545c998294ede721153e638e057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:30 +0000
Subject: [PATCH 13/29] fix: percentages in relative positioning refer to the
 containing block

---
 victor/src/layout/flow/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/victor/src/layout/flow/mod.rs b/victor/src/layout/flow/mod.rs
index ba43573..e18a842 100644
--- a/victor/src/layout/flow/mod.rs
+++ b/victor/src/layout/flow/mod.rs
@@ -406,7 +406,11 @@ fn layout_in_flow_non_replaced_block_level<'a>(
             && flow_children
                 .collapsible_margins_in_children
                 .collapsed_through;
-    let relative_adjustement = relative_adjustement(style, inline_size, block_size);
+    let relative_adjustement = relative_adjustement(
+        style,
+        containing_block.inline_size,
+        containing_block.block_size,
+    );
     let block_size = block_size.auto_is(|| flow_children.block_size);
     let content_rect = Rect {
         start_corner: Vec2 {
-- 
2.43.0


From 34ab3fbc9ec93644e4b01402d2ed4dae844dbc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 14/29] fix: inline margins, borders, padding, and size must
 add up to the size of the containing block

---
 victor/src/layout/flow/mod.rs | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/victor/src/layout/flow/mod.rs b/victor/src/layout/flow/mod.rs
index e18a842..13b3ada 100644
--- a/victor/src/layout/flow/mod.rs
+++ b/victor/src/layout/flow/mod.rs
@@ -318,26 +318,17 @@ fn layout_in_flow_non_replaced_block_level<'a>(
     if let LengthOrAuto::Length(is) = inline_size {
         let inline_margins = cbis - is - pb.inline_sum();
         use LengthOrAuto::*;
-        match (
-            &mut computed_margin.inline_start,
-            &mut computed_margin.inline_end,
-        ) {
-            (s @ &mut Auto, e @ &mut Auto) => {
-                *s = Length(inline_margins / 2.);
-                *e = Length(inline_margins / 2.);
-            }
-            (s @ &mut Auto, _) => {
-                *s = Length(inline_margins);
-            }
-            (_, e @ &mut Auto) => {
-                *e = Length(inline_margins);
-            }
-            (_, e @ _) => {
-                // Either the inline-end margin is auto,
-                // or we’re over-constrained and we do as if it were.
-                *e = Length(inline_margins);
-            }
-        }
+        let zero = crate::geom::Length::zero();
+        let start = match (computed_margin.inline_start, computed_margin.inline_end) {
+            // `auto` margins are zero rather than negative
+            (Auto, Auto) => (inline_margins / 2.).max(zero),
+            (Auto, Length(end)) => (inline_margins - end).max(zero),
+            (Length(start), _) => start,
+        };
+        computed_margin.inline_start = Length(start);
+        // Either the inline-end margin is auto,
+        // or we’re over-constrained and we do as if it were.
+        computed_margin.inline_end = Length(inline_margins - start);
     }
     let margin = computed_margin.auto_is(Length::zero);
     let mut block_margins_collapsed_with_children = CollapsedBlockMargins::from_margin(&margin);
-- 
2.43.0


From 71068316bc109b3d93731fe426b9f50d7b4230a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:47 +0000
Subject: [PATCH 15/29] fix: the space available on the second and later lines
 of a text starts at the start of the line

---
 victor/src/layout/flow/inline.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/victor/src/layout/flow/inline.rs b/victor/src/layout/flow/inline.rs
index 5c39bb9..1993336 100644
--- a/victor/src/layout/flow/inline.rs
+++ b/victor/src/layout/flow/inline.rs
@@ -269,9 +269,9 @@ impl<'box_tree> PartialInlineBoxFragment<'box_tree> {
 
 impl TextRun {
     fn layout(&self, ifc: &mut InlineFormattingContextState) {
-        let available = ifc.containing_block.inline_size - ifc.inline_position;
         let mut chars = self.text.chars();
         loop {
+            let available = ifc.containing_block.inline_size - ifc.inline_position;
             let mut shaped = ShapedSegment::new_with_naive_shaping(BITSTREAM_VERA_SANS.clone());
             let mut last_break_opportunity = None;
             loop {
-- 
2.43.0


From e3751be94b58849275fd1d24ab890cdf1081d8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:49 +0000
Subject: [PATCH 16/29] fix: the inline size of the content area of nested or
 relatively positioned inline boxes

---
 victor/src/layout/flow/inline.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/victor/src/layout/flow/inline.rs b/victor/src/layout/flow/inline.rs
index 1993336..e360a26 100644
--- a/victor/src/layout/flow/inline.rs
+++ b/victor/src/layout/flow/inline.rs
@@ -233,7 +233,7 @@ impl<'box_tree> PartialInlineBoxFragment<'box_tree> {
             children: take(&mut nesting_level.fragments_so_far),
             content_rect: Rect {
                 size: Vec2 {
-                    inline: *inline_position - self.start_corner.inline,
+                    inline: *inline_position - nesting_level.inline_start,
                     block: nesting_level.max_block_size_of_fragments_so_far,
                 },
                 start_corner: self.start_corner.clone(),
@@ -325,7 +325,6 @@ impl TextRun {
                 break;
             } else {
                 // New line
-                ifc.current_nesting_level.inline_start = Length::zero();
                 let mut nesting_level = &mut ifc.current_nesting_level;
                 for partial in ifc.partial_inline_boxes_stack.iter_mut().rev() {
                     partial.finish_layout(nesting_level, &mut ifc.inline_position, true);
@@ -333,7 +332,7 @@ impl TextRun {
                     partial.padding.inline_start = Length::zero();
                     partial.border.inline_start = Length::zero();
                     partial.margin.inline_start = Length::zero();
-                    partial.parent_nesting_level.inline_start = Length::zero();
+                    nesting_level.inline_start = Length::zero();
                     nesting_level = &mut partial.parent_nesting_level;
                 }
                 ifc.line_boxes
-- 
2.43.0


From 992069221f7f9a7f957e1a4988dd03dfb0f25004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 17/29] fix: the block size of an inline box on a line does not
 depend on previous lines

---
 victor/src/layout/flow/inline.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/victor/src/layout/flow/inline.rs b/victor/src/layout/flow/inline.rs
index e360a26..620b96b 100644
--- a/victor/src/layout/flow/inline.rs
+++ b/victor/src/layout/flow/inline.rs
@@ -234,7 +234,10 @@ impl<'box_tree> PartialInlineBoxFragment<'box_tree> {
             content_rect: Rect {
                 size: Vec2 {
                     inline: *inline_position - nesting_level.inline_start,
-                    block: nesting_level.max_block_size_of_fragments_so_far,
+                    block: std::mem::replace(
+                        &mut nesting_level.max_block_size_of_fragments_so_far,
+                        Length::zero(),
+                    ),
                 },
                 start_corner: self.start_corner.clone(),
             },
-- 
2.43.0


From bef6dad59d9310661a93b706ad30b526a3461df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:13 +0000
Subject: [PATCH 18/29] fix: relative positioning applies to every fragment of
 an inline box

---
 victor/src/layout/flow/inline.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/victor/src/layout/flow/inline.rs b/victor/src/layout/flow/inline.rs
index 620b96b..3fe585c 100644
--- a/victor/src/layout/flow/inline.rs
+++ b/victor/src/layout/flow/inline.rs
@@ -331,7 +331,12 @@ impl TextRun {
                 let mut nesting_level = &mut ifc.current_nesting_level;
                 for partial in ifc.partial_inline_boxes_stack.iter_mut().rev() {
                     partial.finish_layout(nesting_level, &mut ifc.inline_position, true);
-                    partial.start_corner.inline = Length::zero();
+                    partial.start_corner.inline = relative_adjustement(
+                        &partial.style,
+                        ifc.containing_block.inline_size,
+                        ifc.containing_block.block_size,
+                    )
+                    .inline;
                     partial.padding.inline_start = Length::zero();
                     partial.border.inline_start = Length::zero();
                     partial.margin.inline_start = Length::zero();
-- 
2.43.0


From 1fedf68fe4b7a7386cfe044059c283064db2f4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:15 +0000
Subject: [PATCH 19/29] fix: do not panic on a declaration with extra tokens
 after a valid value

---
 victor/src/style/declaration_block.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/victor/src/style/declaration_block.rs b/victor/src/style/declaration_block.rs
index 68699de..1105dc0 100644
--- a/victor/src/style/declaration_block.rs
+++ b/victor/src/style/declaration_block.rs
@@ -100,6 +100,11 @@ impl<'i> DeclarationParser<'i> for LonghandDeclarationParser {
                 parsed = (data.parse)(parser, &mut self.block.declarations)?
             }
             let important = parser.r#try(cssparser::parse_important).is_ok();
+            if let Err(error) = parser.expect_exhausted() {
+                // Drop the entire declaration if there is anything after its value
+                self.block.declarations.truncate(previous_len);
+                return Err(error.into());
+            }
             let count = self.block.declarations.len() - previous_len;
             assert!(count > 0);
             self.block.important.extend(repeat(important).take(count));
-- 
2.43.0


From 4c84ef1e11391b10d9a943fdee7310495e62b7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 20/29] fix: the name of the border-right-color property

---
 victor/src/style/properties/definitions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/victor/src/style/properties/definitions.rs b/victor/src/style/properties/definitions.rs
index ad414d2..2568cfe 100644
--- a/victor/src/style/properties/definitions.rs
+++ b/victor/src/style/properties/definitions.rs
@@ -43,7 +43,7 @@ properties! {
         border_top_color { "border-top-color", Color, initial = Color::CurrentColor }
         border_left_color { "border-left-color", Color, initial = Color::CurrentColor }
         border_bottom_color { "border-bottom-color", Color, initial = Color::CurrentColor }
-        border_right_color { "border-color-right", Color, initial = Color::CurrentColor }
+        border_right_color { "border-right-color", Color, initial = Color::CurrentColor }
 
         border_top_style { "border-top-style", LineStyle, initial = LineStyle::None }
         border_left_style { "border-left-style", LineStyle, initial = LineStyle::None }
-- 
2.43.0


From 6655c38d3f2cabd1c56f4f818ba6b901a7c99f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 21/29] fix: class selectors match any of the space-separated
 classes

---
 victor/src/style/selectors.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/victor/src/style/selectors.rs b/victor/src/style/selectors.rs
index 07228b6..cbd22b4 100644
--- a/victor/src/style/selectors.rs
+++ b/victor/src/style/selectors.rs
@@ -232,7 +232,8 @@ impl<'a> selectors::Element for NodeRef<'a> {
             .unwrap()
             .get_attr(&local_name!("class"))
             .map_or(false, |attr| {
-                case_sensitivity.eq(class.as_bytes(), attr.as_bytes())
+                attr.split(|c: char| c.is_ascii_whitespace())
+                    .any(|c| case_sensitivity.eq(class.as_bytes(), c.as_bytes()))
             })
     }
 
-- 
2.43.0


From 80ad3ec5a3ef5efd5dbc3650a112a9c7ef4a5fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 22/29] fix: CSS keywords are case-insensitive

---
 proc-macros/src/style.rs        | 2 +-
 victor/src/style/values/box_.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/proc-macros/src/style.rs b/proc-macros/src/style.rs
index 901ac09..bf615e5 100644
--- a/proc-macros/src/style.rs
+++ b/proc-macros/src/style.rs
@@ -158,7 +158,7 @@ pub fn derive_parse(input: TokenStream) -> TokenStream {
     if !unit_variants.is_empty() {
         parse.extend(quote! {
             if let Ok(ident) = parser.r#try(|parser| parser.expect_ident_cloned()) {
-                match &*ident {
+                match &*ident.to_ascii_lowercase() {
                     #(
                         #keywords => return Ok(#unit_variants),
                     )*
diff --git a/victor/src/style/values/box_.rs b/victor/src/style/values/box_.rs
index 4a5184d..7d5fd2a 100644
--- a/victor/src/style/values/box_.rs
+++ b/victor/src/style/values/box_.rs
@@ -78,7 +78,7 @@ impl Display {
 impl super::Parse for Display {
     fn parse<'i, 't>(parser: &mut Parser<'i, 't>) -> Result<Self, PropertyParseError<'i>> {
         let ident = parser.expect_ident()?;
-        match &**ident {
+        match &*ident.to_ascii_lowercase() {
             "none" => Ok(Display::None),
             "contents" => Ok(Display::Contents),
             "block" => Ok(Display::GeneratingBox(
-- 
2.43.0


From 458658d75e07fb6cefd4a5e10f9bb14767b2c605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 23/29] fix: NaN is not a valid size

---
 lester/src/convert.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lester/src/convert.rs b/lester/src/convert.rs
index 6ba226b..aa82666 100644
--- a/lester/src/convert.rs
+++ b/lester/src/convert.rs
@@ -85,10 +85,11 @@ macro_rules! try_into_both_bounded {
             fn try_into(self) -> Result<$target, TryIntoIntError> {
                 let min = <$target>::min_value() as $source;
                 let max = <$target>::max_value() as $source;
-                if self < min || self > max {
-                    Err(TryIntoIntError(()))
-                } else {
+                // Written so that NaN, which compares false with everything, is an error.
+                if self >= min && self <= max {
                     Ok(self as $target)
+                } else {
+                    Err(TryIntoIntError(()))
                 }
             }
         }
-- 
2.43.0


From ea95bb4fecdbdf2f11d3baaaccc2ef88270cad44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:40 +0000
Subject: [PATCH 24/29] verification hooks, guarded by cfg(victor_verif)

---
 victor/src/dom/html.rs | 3 +++
 victor/src/dom/mod.rs  | 3 +++
 victor/src/lib.rs      | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/victor/src/dom/html.rs b/victor/src/dom/html.rs
index cb3ccdc..acd8315 100644
--- a/victor/src/dom/html.rs
+++ b/victor/src/dom/html.rs
@@ -217,3 +217,6 @@ impl From<html5ever::Attribute> for Attribute {
         }
     }
 }
+
+#[cfg(victor_verif)]
+include!(concat!(env!("VICTOR_VERIF_DIR"), "/dom_html.rs"));
diff --git a/victor/src/dom/mod.rs b/victor/src/dom/mod.rs
index 8603d44..31089bf 100644
--- a/victor/src/dom/mod.rs
+++ b/victor/src/dom/mod.rs
@@ -306,3 +306,6 @@ impl fmt::Debug for Node {
         f.debug_tuple("Node").field(&ptr).finish()
     }
 }
+
+#[cfg(victor_verif)]
+include!(concat!(env!("VICTOR_VERIF_DIR"), "/dom.rs"));
diff --git a/victor/src/lib.rs b/victor/src/lib.rs
index 4687c05..6b6c404 100644
--- a/victor/src/lib.rs
+++ b/victor/src/lib.rs
@@ -54,3 +54,6 @@ https://github.com/fonttools/fonttools
 https://github.com/bodoni/opentype + https://github.com/bodoni/truetype
 
 */
+
+#[cfg(victor_verif)]
+include!(concat!(env!("VICTOR_VERIF_DIR"), "/root.rs"));
-- 
2.43.0


From fdc1d815b7e12adc504b40752697fbaecbcff606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 25/29] verification hooks for the PDF writer, guarded by
 cfg(victor_verif)

---
 victor/src/pdf/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/victor/src/pdf/mod.rs b/victor/src/pdf/mod.rs
index f5636a7..9f1b0ec 100644
--- a/victor/src/pdf/mod.rs
+++ b/victor/src/pdf/mod.rs
@@ -72,3 +72,6 @@ impl<'doc> Page<'doc> {
         Ok(self)
     }
 }
+
+#[cfg(victor_verif)]
+include!(concat!(env!("VICTOR_VERIF_DIR"), "/pdf.rs"));
-- 
2.43.0


From a9da5152ca3d0ffb41296f4cb0ed9bd7aaff36a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 26/29] fix: a piece of no width does not make an overlong line

---
 victor/src/text_plain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/victor/src/text_plain.rs b/victor/src/text_plain.rs
index 7061da5..f50c7b7 100644
--- a/victor/src/text_plain.rs
+++ b/victor/src/text_plain.rs
@@ -88,7 +88,7 @@ pub fn layout(text: &str, style: &Style) -> Result<Document, FontError> {
 
                 let advance_width = segment.advance_width * px_per_em;
                 let next_total_width = total_width + advance_width;
-                if next_total_width > available_width && total_width > Length::new(0.) {
+                if next_total_width > available_width && !line_segments.is_empty() {
                     // This segment doesn’t fit on this line, and isn’t the first on the line:
                     // go to the next line.
                     segments.rewind(Ok((segment, is_hard_break)));
-- 
2.43.0


From 75dbbc30e2214ea384bbc4aab5902a136ffe973f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:18 +0000
Subject: [PATCH 27/29] fix: margins collapse through boxes with a height of
 zero

---
 victor/src/layout/flow/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/victor/src/layout/flow/mod.rs b/victor/src/layout/flow/mod.rs
index 13b3ada..c007b8f 100644
--- a/victor/src/layout/flow/mod.rs
+++ b/victor/src/layout/flow/mod.rs
@@ -391,9 +391,12 @@ fn layout_in_flow_non_replaced_block_level<'a>(
     } else {
         flow_children.block_size += flow_children.collapsible_margins_in_children.end.solve();
     }
+    // A height of zero collapses through like an automatic one without content
+    let block_size_is_zero_or_auto = block_size.auto_is(Length::zero) == Length::zero();
     block_margins_collapsed_with_children.collapsed_through =
         this_start_margin_can_collapse_with_children.0
-            && this_end_margin_can_collapse_with_children
+            && pb.block_end == Length::zero()
+            && block_size_is_zero_or_auto
             && flow_children
                 .collapsible_margins_in_children
                 .collapsed_through;
-- 
2.43.0


From f1f9426765ec1762f7a50244fe624d62aa391fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:18 +0000
Subject: [PATCH 28/29] fix: margins collapse through boxes with only empty
 lines

---
 victor/src/layout/flow/inline.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/victor/src/layout/flow/inline.rs b/victor/src/layout/flow/inline.rs
index 3fe585c..49369ce 100644
--- a/victor/src/layout/flow/inline.rs
+++ b/victor/src/layout/flow/inline.rs
@@ -136,10 +136,15 @@ impl InlineFormattingContext {
             } else {
                 ifc.line_boxes
                     .finish_line(&mut ifc.current_nesting_level, containing_block);
+                let block_size = ifc.line_boxes.next_line_block_position;
+                let mut collapsible_margins_in_children = CollapsedBlockMargins::zero();
+                // Lines without any content are treated as not existing
+                // https://drafts.csswg.org/css2/visuren.html#inline-formatting
+                collapsible_margins_in_children.collapsed_through = block_size == Length::zero();
                 return FlowChildren {
                     fragments: ifc.line_boxes.boxes,
-                    block_size: ifc.line_boxes.next_line_block_position,
-                    collapsible_margins_in_children: CollapsedBlockMargins::zero(),
+                    block_size,
+                    collapsible_margins_in_children,
                 };
             }
         }
-- 
2.43.0


From 48d4e6e439e683a9cd35ff8189cc80c1b537bbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:18 +0000
Subject: [PATCH 29/29] fix: text in an element with display: contents keeps
 its own style

---
 victor/src/layout/flow/construct.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/victor/src/layout/flow/construct.rs b/victor/src/layout/flow/construct.rs
index 4f2d656..3bb51dd 100644
--- a/victor/src/layout/flow/construct.rs
+++ b/victor/src/layout/flow/construct.rs
@@ -200,9 +200,17 @@ impl<'a> TraversalHandler<'a> for BlockContainerBuilder<'a> {
             // context with the parent style of that builder.
             let inlines = self.current_inline_level_boxes();
 
-            fn last_text(inlines: &mut [Arc<InlineLevelBox>]) -> Option<&mut String> {
+            // Text in an element with `display: contents` has another style
+            fn last_text<'a>(
+                inlines: &'a mut [Arc<InlineLevelBox>],
+                style: &Arc<ComputedValues>,
+            ) -> Option<&'a mut String> {
                 let last = inlines.last_mut()?;
-                if let InlineLevelBox::TextRun(_) = &**last {
+                let same_style = match &**last {
+                    InlineLevelBox::TextRun(run) => Arc::ptr_eq(&run.parent_style, style),
+                    _ => false,
+                };
+                if same_style {
                     // We never clone text run boxes, so the refcount is 1 and unwrap succeeds:
                     let last = Arc::get_mut(last).unwrap();
                     if let InlineLevelBox::TextRun(TextRun { text, .. }) = last {
@@ -217,7 +225,7 @@ impl<'a> TraversalHandler<'a> for BlockContainerBuilder<'a> {
 
             let mut new_text_run_contents;
             let output;
-            if let Some(text) = last_text(inlines) {
+            if let Some(text) = last_text(inlines, parent_style) {
                 // Append to the existing text run
                 new_text_run_contents = None;
                 output = text;
-- 
2.43.0

