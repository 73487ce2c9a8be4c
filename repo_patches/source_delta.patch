From f508523a84fdb055dba4097840331382cc791809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:57 +0000
Subject: [PATCH 01/14] fix: compute error columns in characters so describing
 an error never panics

LocatedLine::locate counted the column in bytes while the Display
implementation indexes the line by characters; on a line with multi-byte
characters before the error the index ran past the end of the line and
Parser::parse panicked instead of returning the parse error.
---
 src/parser/error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/error.rs b/src/parser/error.rs
index 74bce1d..74981c0 100644
--- a/src/parser/error.rs
+++ b/src/parser/error.rs
@@ -85,7 +85,7 @@ struct LocatedLine<'a> {
     line: &'a str,
     // Line number, starting at 1.
     line_number: usize,
-    // Column number, starting at 1.
+    // Column number in characters, starting at 1.
     column_number: usize,
 }
 
@@ -98,7 +98,7 @@ impl<'a> LocatedLine<'a> {
 
         let line_start_offset = input_before.rfind('\n').map(|n| n + 1).unwrap_or(0);
         let line_number = input_before.split('\n').count();
-        let column_number = offset - line_start_offset + 1;
+        let column_number = input[line_start_offset..offset].chars().count() + 1;
 
         LocatedLine {
             line: input[line_start_offset..].lines().next().unwrap_or(""),
-- 
2.43.0


From a94e3e0a45ce224d50be4800b9b1ad66e0c14699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:58 +0000
Subject: [PATCH 02/14] fix: report undefined entities instead of backtracking
 over them

A resolver returning None while expanding text, RCDATA sections or section
keywords raised a recoverable error. The parser took it as a sign to try
other alternatives: the entity error was lost ("expected '<'"), a marked
section in the prolog consulted the resolver a second time, and inside an
INCLUDE section everything from the reference up to ]]> was silently dropped
from a successful parse.
---
 src/parser/events.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/parser/events.rs b/src/parser/events.rs
index 029db1f..3a499e3 100644
--- a/src/parser/events.rs
+++ b/src/parser/events.rs
@@ -94,7 +94,9 @@ where
 {
     context("marked section declaration", |input| {
         let (rest, raw_status_keywords) = raw::marked_section_start_and_keywords(input)?;
-        let status_keywords = config.parse_markup_declaration_text(raw_status_keywords)?;
+        let status_keywords = config
+            .parse_markup_declaration_text(raw_status_keywords)
+            .map_err(prevent_recovery)?;
 
         let status = match config
             .marked_section_handling
@@ -166,7 +168,9 @@ where
                 Ok((
                     rest,
                     EventIter::once(SgmlEvent::Character(
-                        config.parse_rcdata(config.trim(content))?,
+                        config
+                            .parse_rcdata(config.trim(content))
+                            .map_err(prevent_recovery)?,
                     )),
                 ))
             }
@@ -343,10 +347,22 @@ where
     }
     Ok((
         rest,
-        EventIter::once(SgmlEvent::Character(config.parse_rcdata(s)?)),
+        EventIter::once(SgmlEvent::Character(
+            config.parse_rcdata(s).map_err(prevent_recovery)?,
+        )),
     ))
 }
 
+/// Turns recoverable errors into failures, so that an error raised while
+/// expanding references is reported as is, instead of being mistaken for
+/// a cue to try other alternatives or to stop looking for further content.
+fn prevent_recovery<E>(err: nom::Err<E>) -> nom::Err<E> {
+    match err {
+        nom::Err::Error(err) => nom::Err::Failure(err),
+        err => err,
+    }
+}
+
 /// An iterator over a sequence of events.
 ///
 /// This struct exists to minimize the number of allocations during the
-- 
2.43.0


From 2eeed6e100b954f4f1df886c34f64de7ea0972a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:23 +0000
Subject: [PATCH 03/14] fix: do not drop the rest of an INCLUDE section that
 fails to parse

After the parsed content, INCLUDE sections accepted (and discarded) any text
up to the next ]]>, so content that could not be parsed was silently lost,
and the section could end at an unrelated ]]>. Require the section end right
there, as the unmodified mode already does, and commit to the section once
its keywords were read so the error is not mistaken for the end of content.
---
 src/parser/events.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parser/events.rs b/src/parser/events.rs
index 3a499e3..df88b91 100644
--- a/src/parser/events.rs
+++ b/src/parser/events.rs
@@ -118,7 +118,8 @@ where
             }
         };
 
-        marked_section_body(rest, status_keywords, status, config)
+        // From here on, this can only be a marked section
+        marked_section_body(rest, status_keywords, status, config).map_err(prevent_recovery)
     })(input)
 }
 
@@ -179,7 +180,7 @@ where
                     |input| content(input, config, MarkedSectionEndHandling::StopParsing),
                     EventIter::from_iter,
                 ),
-                raw::marked_section_body_character_data,
+                raw::marked_section_end,
             )(input),
         },
     }
@@ -354,8 +355,9 @@ where
 }
 
 /// Turns recoverable errors into failures, so that an error raised while
-/// expanding references is reported as is, instead of being mistaken for
-/// a cue to try other alternatives or to stop looking for further content.
+/// expanding references or inside a marked section is reported as is, instead of
+/// being mistaken for a cue to try other alternatives or to stop looking for
+/// further content.
 fn prevent_recovery<E>(err: nom::Err<E>) -> nom::Err<E> {
     match err {
         nom::Err::Error(err) => nom::Err::Failure(err),
-- 
2.43.0


From 8f2f879c7fb658403f628cdfc6b1101f62b81683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:45 +0000
Subject: [PATCH 04/14] fix: skip nested elements without recursion when
 deserializing

pop_elt recursed once per level of nesting, so skipping over a deeply nested
element (an ignored field, for example) overflowed the stack and aborted the
process.
---
 src/de/mod.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 387547e..cc5c753 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -232,7 +232,7 @@ impl<'de> SgmlDeserializer<'de> {
             stack_size - 1,
             &self.stack[stack_size - 1]
         );
-        loop {
+        while self.stack.len() >= stack_size {
             match self
                 .events
                 .next()
@@ -240,10 +240,8 @@ impl<'de> SgmlDeserializer<'de> {
             {
                 SgmlEvent::XmlCloseEmptyElement => {
                     self.stack.pop();
-                    return Ok(());
                 }
                 SgmlEvent::EndTag { name } => {
-                    self.check_stack_size(stack_size);
                     let expected = self.stack.pop().unwrap();
                     if name != expected {
                         return Err(DeserializationError::MismatchedCloseTag {
@@ -251,16 +249,13 @@ impl<'de> SgmlDeserializer<'de> {
                             found: name.to_string(),
                         });
                     }
-                    debug!("popped({}): {:?}", stack_size - 1, name);
-                    return Ok(());
-                }
-                SgmlEvent::OpenStartTag { name } => {
-                    self.stack.push(name);
-                    self.pop_elt()?;
+                    debug!("popped({}): {:?}", self.stack.len(), name);
                 }
+                SgmlEvent::OpenStartTag { name } => self.stack.push(name),
                 _ => {}
             };
         }
+        Ok(())
     }
 
     /// Skips attributes and CloseStartTag, going to the main content.
-- 
2.43.0


From 37ce62e72336fb0482d1ed8c40d85cb46cffab4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:06 +0000
Subject: [PATCH 05/14] fix: reject unsupported events that follow an element
 instead of panicking

After an element was consumed, the event that followed was never checked, so
a processing instruction, markup declaration or marked section in that place
hit unreachable!() and empty tags were taken as ordinary ones. Check it as it
is done everywhere else.
---
 src/de/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index cc5c753..2d938bc 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -255,7 +255,11 @@ impl<'de> SgmlDeserializer<'de> {
                 _ => {}
             };
         }
-        Ok(())
+        if self.stack.is_empty() {
+            Ok(())
+        } else {
+            self.normalize_at_cursor()
+        }
     }
 
     /// Skips attributes and CloseStartTag, going to the main content.
-- 
2.43.0


From 55df623bb561b4af329b10ba89d3f31427527257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:07 +0000
Subject: [PATCH 06/14] fix: fail instead of looping forever when reading a
 sequence from an attribute

Reading a sequence from an attribute yielded an empty sequence without
consuming the attribute, which was then offered again as the next map entry:
structs failed with a misleading duplicate field error, and maps of sequences
never finished.
---
 src/de/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 2d938bc..62b966c 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -524,6 +524,12 @@ impl<'de, 'r> Deserializer<'de> for &'r mut SgmlDeserializer<'de> {
         trace!("deserialize_seq (tag: {:?})", self.map_key);
         let stack_size = self.stack.len();
 
+        // Attributes never form a sequence. Since `SeqAccess` would leave it unconsumed,
+        // it would be offered again and again as the next map entry
+        if let Ok(SgmlEvent::Attribute { .. }) = self.peek() {
+            return Err(DeserializationError::ExpectedStartTag);
+        }
+
         let tag_name = self.map_key.take().map(Into::into);
         let value = visitor.visit_seq(SeqAccess::new(self, tag_name))?;
 
-- 
2.43.0


From 04c0e870d84573f8b91adea183d846d1ed49f870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:21 +0000
Subject: [PATCH 07/14] fix: accept fieldless enum variants from attribute
 values

The README documents <transaction operation="credit"> as a valid form, but
it always failed with "expected start tag".
---
 src/de/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 62b966c..9927dcd 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -621,6 +621,10 @@ impl<'de, 'r> Deserializer<'de> for &'r mut SgmlDeserializer<'de> {
                 // Keep cursor on `<key`
                 false
             }
+        } else if let Ok(SgmlEvent::Attribute { .. }) = self.peek() {
+            // key="variant"
+            // Keep cursor on the attribute
+            false
         } else {
             // No surrounding element, so it must be <variant (fields)>(fields)</variant>
             // Keep cursor on `<variant`
-- 
2.43.0


From 0406bace0941727174e3f78531a07d038f8d55dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:39 +0000
Subject: [PATCH 08/14] fix: do not read fields of an enum variant named by
 text from the elements that follow

---
 src/de/mod.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 9927dcd..c151756 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -866,6 +866,16 @@ impl<'de, 'r> EnumAccess<'de, 'r> {
             use_tag_name_for_variant,
         }
     }
+
+    /// Variants with fields must always use the element form; when the variant
+    /// came from text, there's nothing left to read their fields from.
+    fn expect_variant_element(&self) -> Result<(), DeserializationError> {
+        if self.use_tag_name_for_variant {
+            Ok(())
+        } else {
+            Err(DeserializationError::ExpectedStartTag)
+        }
+    }
 }
 
 impl<'de, 'r> de::EnumAccess<'de> for EnumAccess<'de, 'r> {
@@ -906,10 +916,10 @@ impl<'de, 'r> de::VariantAccess<'de> for EnumAccess<'de, 'r> {
         seed: T,
     ) -> Result<T::Value, Self::Error> {
         trace!("newtype_variant");
+        self.expect_variant_element()?;
         // If we just used the current tag name as a variant, we need to push the tag into the stack,
         // or else we might get stuck in a loop
-        let push =
-            self.use_tag_name_for_variant && self.de.peek_content_type()?.contains_child_elements;
+        let push = self.de.peek_content_type()?.contains_child_elements;
         if push {
             self.de.push_elt()?;
             self.de.advance_to_content()?;
@@ -926,9 +936,8 @@ impl<'de, 'r> de::VariantAccess<'de> for EnumAccess<'de, 'r> {
         V: de::Visitor<'de>,
     {
         trace!("tuple_variant({} items)", len);
-        if self.use_tag_name_for_variant {
-            self.de.map_key = Some(self.de.expect_start_tag()?.clone().into_owned().into());
-        }
+        self.expect_variant_element()?;
+        self.de.map_key = Some(self.de.expect_start_tag()?.clone().into_owned().into());
         self.de.deserialize_seq(visitor)
     }
 
@@ -941,6 +950,7 @@ impl<'de, 'r> de::VariantAccess<'de> for EnumAccess<'de, 'r> {
         V: de::Visitor<'de>,
     {
         trace!("struct_variant");
+        self.expect_variant_element()?;
         self.de.do_map(visitor, fields.contains(&"$value"))
     }
 }
-- 
2.43.0


From 6aae1f20c63d8095ead29638d895fdd6e3f5e183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:37 +0000
Subject: [PATCH 09/14] fix: match nested IGNORE sections without recursion

---
 src/parser/raw.rs | 48 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/src/parser/raw.rs b/src/parser/raw.rs
index 31c6ece..4dd0635 100644
--- a/src/parser/raw.rs
+++ b/src/parser/raw.rs
@@ -129,22 +129,42 @@ pub fn marked_section_body_ignore<'a, E>(input: &'a str) -> IResult<&'a str, &'a
 where
     E: ParseError<&'a str> + ContextError<&'a str>,
 {
-    use nom::{FindSubstring, Slice};
-    let (close_suffix, close_match) = marked_section_body_character_data(input)?;
-    match close_match.find_substring(MARKED_SECTION_START) {
-        Some(n) => {
-            let (suffix_after_matched_pair, _) =
-                context("nested marked section pair", marked_section_body_ignore)(
-                    input.slice(n + MARKED_SECTION_START.len()..),
-                )?;
-            let (final_suffix, _) = marked_section_body_ignore(suffix_after_matched_pair)?;
-            Ok((
-                final_suffix,
-                input.slice(..input.len() - final_suffix.len() - MARKED_SECTION_END.len()),
-            ))
+    // The remaining input after the start of each nested section still open.
+    // Kept in a list, not in the call stack, as sections may be nested to any depth.
+    let mut open_sections = vec![];
+    // The remaining input after the last end found, and how many sections were open then.
+    let (mut after_last_end, mut open_after_last_end) = (input, 0);
+    let mut rest = input;
+
+    while let Some((pos, delimiter)) = rest
+        .match_indices(|c| c == '<' || c == ']')
+        .find_map(|(pos, _)| {
+            [MARKED_SECTION_START, MARKED_SECTION_END]
+                .iter()
+                .find(|delimiter| rest[pos..].starts_with(**delimiter))
+                .map(|delimiter| (pos, *delimiter))
+        })
+    {
+        rest = &rest[pos + delimiter.len()..];
+        if delimiter == MARKED_SECTION_START {
+            open_sections.push(rest);
+        } else if open_sections.pop().is_some() {
+            after_last_end = rest;
+            open_after_last_end = open_sections.len();
+        } else {
+            let body_len = input.len() - rest.len() - MARKED_SECTION_END.len();
+            return Ok((rest, &input[..body_len]));
         }
-        _ => Ok((close_suffix, close_match)),
     }
+
+    // Some section was left open, so here we can only fail
+    let mut result = marked_section_body_character_data(after_last_end);
+    for section in open_sections.iter().take(open_after_last_end).rev() {
+        result = result.map_err(|err| {
+            err.map(|err| E::add_context(*section, "nested marked section pair", err))
+        });
+    }
+    result
 }
 
 /// Matches `]]>` and outputs it.
-- 
2.43.0


From 2078f4f1185e5a22f0ca9b64b674363342a600ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:29 +0000
Subject: [PATCH 10/14] fix: read newtype variants only from the variant's own
 element

The map key of the surrounding element was still in effect, so a sequence
inside a newtype variant either skipped all of its items or, with no key,
consumed the elements following the variant.
---
 src/de/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index c151756..54c5d39 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -920,9 +920,13 @@ impl<'de, 'r> de::VariantAccess<'de> for EnumAccess<'de, 'r> {
         // If we just used the current tag name as a variant, we need to push the tag into the stack,
         // or else we might get stuck in a loop
         let push = self.de.peek_content_type()?.contains_child_elements;
+        // Either way, the current map key no longer describes what is at the cursor
         if push {
             self.de.push_elt()?;
             self.de.advance_to_content()?;
+            self.de.map_key = None;
+        } else {
+            self.de.map_key = Some(self.de.expect_start_tag()?.clone().into_owned().into());
         }
         let value = seed.deserialize(self.de.borrow_mut())?;
         if push {
-- 
2.43.0


From 6a65c25a5c83395ce6b5120131d36db4b9f2f61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:23 +0000
Subject: [PATCH 11/14] fix: fail instead of panicking on an element inside an
 unclosed start tag

---
 src/de/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 54c5d39..36357a9 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -768,7 +768,13 @@ impl<'de, 'r> de::MapAccess<'de> for MapAccess<'de, 'r> {
                         debug!("next key: $value (for element {:?})", name);
                         seed.deserialize("$value".into_deserializer()).map(Some)
                     }
-                    ContentStrategy::TextOnly => unreachable!(),
+                    // Only possible when the enclosing start tag was never closed
+                    ContentStrategy::TextOnly => {
+                        let name = Cow::Owned(name.clone().into_owned());
+                        Err(DeserializationError::Unsupported(
+                            SgmlEvent::OpenStartTag { name },
+                        ))
+                    }
                 },
                 SgmlEvent::Character(text) => {
                     let text = mem::take(text);
-- 
2.43.0


From 372d62257c1a8a89185103dfade99354211d1339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:40 +0000
Subject: [PATCH 12/14] fix: do not search the whole rest for the end of an
 included section for each run of text

---
 src/parser/raw.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser/raw.rs b/src/parser/raw.rs
index 4dd0635..be20781 100644
--- a/src/parser/raw.rs
+++ b/src/parser/raw.rs
@@ -225,10 +225,11 @@ where
     use nom::{FindSubstring, InputTake};
     let next_tag = input.find_substring("<").unwrap_or(input.len());
     let split_pos = match mse {
-        MarkedSectionEndHandling::StopParsing => input
-            .find_substring("]]>")
-            .unwrap_or(next_tag)
-            .min(next_tag),
+        // Looking no further than the next tag, so that the rest of the document
+        // is not searched again for each run of text
+        MarkedSectionEndHandling::StopParsing => input[..next_tag]
+            .find("]]>")
+            .unwrap_or(next_tag),
         MarkedSectionEndHandling::TreatAsText => next_tag,
     };
     if split_pos == 0 {
-- 
2.43.0


From ea0163abf8600f481dbb94dcd0cee3f38fd26a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:23 +0000
Subject: [PATCH 13/14] fix: read self-closing elements only up to their own
 end when deserializing

---
 src/de/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 36357a9..fd1d19c 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -157,14 +157,14 @@ impl<'de> SgmlDeserializer<'de> {
     fn peek_content_type(&self) -> Result<PeekContentType, DeserializationError> {
         let mut contains_attributes = false;
         let mut contains_text = false;
-        let contains_child_elements = self
-            .events
-            .as_slice()
+        let events = self.events.as_slice();
+        let at_start_tag = matches!(events.first(), Some(SgmlEvent::OpenStartTag { .. }));
+        let contains_child_elements = events
             .iter()
-            .skip(1)
+            .skip(at_start_tag as usize)
             .find_map(|event| match event {
                 SgmlEvent::OpenStartTag { .. } => Some(true),
-                SgmlEvent::EndTag { .. } => Some(false),
+                SgmlEvent::EndTag { .. } | SgmlEvent::XmlCloseEmptyElement => Some(false),
                 SgmlEvent::Attribute { .. } => {
                     contains_attributes = true;
                     None
@@ -301,7 +301,7 @@ impl<'de> SgmlDeserializer<'de> {
                 SgmlEvent::OpenStartTag { .. } => {
                     self.push_elt()?;
                 }
-                SgmlEvent::EndTag { .. } => {
+                SgmlEvent::EndTag { .. } | SgmlEvent::XmlCloseEmptyElement => {
                     self.pop_elt()?;
                     if self.stack.len() == starting_stack_size {
                         break;
-- 
2.43.0


From 7ab7a9698842767325e20c904106a060b4314c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:12 +0000
Subject: [PATCH 14/14] fix: don't mistake an unread marked section for an
 empty element

When read as anything, an element whose only content is a marked section
kept unmodified was taken for an empty one, and its text was lost without
an error.
---
 src/de/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index fd1d19c..919fda6 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -173,6 +173,11 @@ impl<'de> SgmlDeserializer<'de> {
                     contains_text = true;
                     None
                 }
+                // Not supported, but there is content that must not be left out
+                SgmlEvent::MarkedSection { .. } => {
+                    contains_text = true;
+                    None
+                }
                 _ => None,
             })
             .ok_or(DeserializationError::UnexpectedEof)?;
-- 
2.43.0

