From 4f48810ceabe8bf8848e7f7a9129cffec51bbfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 01/24] fix: accept streams starting with a character whose
 UTF-8 form begins with 0xEF

---
 src/reader.rs | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index f70cd50..eaf6a5e 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -4,29 +4,29 @@ use alloc::collections::VecDeque;
 
 use crate::{Encoding, Error, Result, scanner::Scanner};
 
-const BOM_UTF8: [u8; 3] = [0xef, 0xbb, 0xbf];
+const BOM: char = '\u{feff}';
 const BOM_UTF16LE: [u8; 2] = [0xff, 0xfe];
 const BOM_UTF16BE: [u8; 2] = [0xfe, 0xff];
 
-fn yaml_parser_determine_encoding(reader: &mut dyn BufRead) -> Result<Option<Encoding>> {
-    let initial_bytes = reader.fill_buf()?;
-    if initial_bytes.is_empty() {
-        return Ok(None);
-    }
+fn yaml_parser_determine_encoding(
+    reader: &mut dyn BufRead,
+    out: &mut VecDeque<char>,
+    offset: &mut usize,
+) -> Result<Option<Encoding>> {
+    let initial = match reader.fill_buf()? {
+        [] => return Ok(None),
+        [initial, ..] => *initial,
+    };
 
-    match initial_bytes[0] {
+    match initial {
         0xef => {
-            let mut bom = [0; 3];
-            reader.read_exact(&mut bom)?;
-            if bom == BOM_UTF8 {
-                Ok(Some(Encoding::Utf8))
-            } else {
-                Err(Error::reader(
-                    "invalid byte order marker",
-                    0,
-                    i32::from_be_bytes([bom[0], bom[1], bom[2], 0]),
-                ))
+            // This is either the UTF-8 byte order mark, or an ordinary
+            // character that has the same first byte.
+            read_utf8_char_unbuffered(reader, out, initial, offset)?;
+            if out.front() == Some(&BOM) {
+                out.pop_front();
             }
+            Ok(Some(Encoding::Utf8))
         }
         0xff | 0xfe => {
             let mut bom = [0; 2];
@@ -295,7 +295,11 @@ pub(crate) fn yaml_parser_update_buffer<R: BufRead>(
         return Ok(());
     }
     if parser.encoding == Encoding::Any {
-        if let Some(encoding) = yaml_parser_determine_encoding(reader)? {
+        if let Some(encoding) = yaml_parser_determine_encoding(
+            reader,
+            &mut parser.buffer,
+            &mut parser.offset,
+        )? {
             parser.encoding = encoding;
         } else {
             parser.eof = true;
-- 
2.43.0


From c5cab0e64fd4589584b94ede0b7a1e0f052dd5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 02/24] fix: retry interrupted reads while detecting the
 encoding

---
 src/reader.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index eaf6a5e..bcc5f35 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -13,9 +13,13 @@ fn yaml_parser_determine_encoding(
     out: &mut VecDeque<char>,
     offset: &mut usize,
 ) -> Result<Option<Encoding>> {
-    let initial = match reader.fill_buf()? {
-        [] => return Ok(None),
-        [initial, ..] => *initial,
+    let initial = loop {
+        match reader.fill_buf() {
+            Ok([]) => return Ok(None),
+            Ok([initial, ..]) => break *initial,
+            Err(err) if err.kind() == std::io::ErrorKind::Interrupted => (),
+            Err(err) => return Err(err.into()),
+        }
     };
 
     match initial {
-- 
2.43.0


From e7668a28b100dc60d30d346f68224bc9026959b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 03/24] fix: report UTF-8 as the encoding of an empty stream

---
 src/reader.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/reader.rs b/src/reader.rs
index bcc5f35..84f2e7a 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -306,6 +306,7 @@ pub(crate) fn yaml_parser_update_buffer<R: BufRead>(
         )? {
             parser.encoding = encoding;
         } else {
+            parser.encoding = Encoding::Utf8;
             parser.eof = true;
             return Ok(());
         }
-- 
2.43.0


From 57841604a87b4424fbfffcb93d572a70765458de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 04/24] fix: consume the decoded bytes, not code units, of
 UTF-16 input

---
 src/reader.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 84f2e7a..ed64084 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -174,12 +174,12 @@ fn read_utf16_buffered<const BIG_ENDIAN: bool>(
         }
     });
 
-    let mut used = 0;
+    let mut used = 0; // in bytes
     for ch in core::char::decode_utf16(chunks) {
         match ch {
             Ok(ch) => {
                 push_char(out, ch, *offset)?;
-                let n = ch.len_utf16();
+                let n = ch.len_utf16() * 2;
                 *offset += n;
                 used += n;
             }
@@ -197,10 +197,8 @@ fn read_utf16_buffered<const BIG_ENDIAN: bool>(
 
     if used != 0 {
         reader.consume(used);
-        *offset += used;
         Ok(true)
     } else {
-        debug_assert!(!available.is_empty() && available.len() < 2);
         read_utf16_char_unbuffered::<BIG_ENDIAN>(reader, out, offset)?;
         Ok(true)
     }
-- 
2.43.0


From 379ec9551ba5b3f06c60f29db357d8c1d682b822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 05/24] fix: report an error, not a panic, for a backslash at
 the end of a double-quoted stream

---
 src/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index ab97696..359ab8f 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -1538,7 +1538,7 @@ impl<R: BufRead> Scanner<R> {
                         break;
                     } else if !single && CHECK!(self.buffer, '\\') {
                         let mut code_length = 0usize;
-                        match self.buffer.get(1).copied().unwrap() {
+                        match self.buffer.get(1).copied().unwrap_or('\0') {
                             '0' => {
                                 string.push('\0');
                             }
-- 
2.43.0


From 1c40b32409d459c5cb9bd031be4aaed66f627e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 06/24] fix: accept a flow entry indicator right after a tag
 instead of panicking

---
 src/scanner.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 359ab8f..a60c1be 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -1109,7 +1109,6 @@ impl<R: BufRead> Scanner<R> {
                     "did not find expected whitespace or line break",
                 );
             }
-            panic!("TODO: What is expected here?");
         }
 
         let end_mark: Mark = self.mark;
-- 
2.43.0


From 379f8a2e59f86224b215d658c99771579c8456b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 07/24] fix: decode the octets of a URI escape in a tag as
 UTF-8

---
 src/scanner.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index a60c1be..4dcea65 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -1224,7 +1224,9 @@ impl<R: BufRead> Scanner<R> {
         start_mark: Mark,
         string: &mut String,
     ) -> Result<()> {
-        let mut width: i32 = 0;
+        let mut width: usize = 0;
+        let mut octets = [0_u8; 4];
+        let mut length: usize = 0;
         loop {
             self.cache(3)?;
             if !(CHECK!(self.buffer, '%')
@@ -1254,7 +1256,6 @@ impl<R: BufRead> Scanner<R> {
                 } else {
                     0
                 };
-                // TODO: Something is fishy here, why isn't `width` being used?
                 if width == 0 {
                     return self.set_scanner_error(
                         if directive {
@@ -1277,16 +1278,31 @@ impl<R: BufRead> Scanner<R> {
                     "found an incorrect trailing UTF-8 octet",
                 );
             }
-            string.push(char::from_u32(octet as _).expect("invalid Unicode"));
+            octets[length] = octet;
+            length += 1;
             self.skip_char();
             self.skip_char();
             self.skip_char();
-            width -= 1;
-            if width == 0 {
+            if length == width {
                 break;
             }
         }
-        Ok(())
+        if let Ok(decoded) = core::str::from_utf8(&octets[..width]) {
+            string.push_str(decoded);
+            Ok(())
+        } else {
+            // The octets have the form of a UTF-8 sequence, but do not encode a
+            // character (overlong form, surrogate, or out of range).
+            self.set_scanner_error(
+                if directive {
+                    "while parsing a %TAG directive"
+                } else {
+                    "while parsing a tag"
+                },
+                start_mark,
+                "found an incorrect trailing UTF-8 octet",
+            )
+        }
     }
 
     fn scan_block_scalar(&mut self, literal: bool) -> Result<Token> {
-- 
2.43.0


From cd768c7e9f2980162acf994b37499a603ab7a3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 08/24] fix: accept a block scalar that ends with the stream
 instead of panicking

---
 src/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 4dcea65..080b6b9 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -163,7 +163,7 @@ impl<R: BufRead> Scanner<R> {
     fn read_line_break(&mut self, string: &mut String) {
         let front = match self.buffer.front().copied() {
             Some(front) => front,
-            None => panic!("unexpected end of input"),
+            None => return,
         };
 
         if let ('\r', Some('\n')) = (front, self.buffer.get(1).copied()) {
-- 
2.43.0


From aae009f1de070651008a275adc5a448cb6987a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 09/24] fix: produce nothing after an error, like libyaml,
 instead of panicking

---
 src/document.rs | 8 +++++---
 src/parser.rs   | 7 ++++++-
 src/scanner.rs  | 6 +++++-
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 69d21ba..89c73ad 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -252,6 +252,9 @@ impl Document {
         let mut document = Document::new(None, &[], false, false);
         document.nodes.reserve(16);
 
+        if parser.scanner.stream_end_produced {
+            return Ok(document);
+        }
         if !parser.scanner.stream_start_produced {
             match parser.parse() {
                 Ok(Event {
@@ -265,9 +268,6 @@ impl Document {
                 }
             }
         }
-        if parser.scanner.stream_end_produced {
-            return Ok(document);
-        }
         let err: Error;
         match parser.parse() {
             Ok(event) => {
@@ -286,6 +286,8 @@ impl Document {
             Err(e) => err = e,
         }
         parser.inner.delete_aliases();
+        // Like libyaml, produce nothing more after an error.
+        parser.scanner.stream_end_produced = true;
         Err(err)
     }
 
diff --git a/src/parser.rs b/src/parser.rs
index 0e6f522..ad1ef15 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -189,7 +189,12 @@ impl<R: BufRead> Parser<R> {
         if self.scanner.stream_end_produced || self.inner.state == ParserState::End {
             return Ok(Event::stream_end());
         }
-        self.state_machine()
+        let result = self.state_machine();
+        if result.is_err() {
+            // Like libyaml, produce nothing more after an error.
+            self.scanner.stream_end_produced = true;
+        }
+        result
     }
 
     fn state_machine(&mut self) -> Result<Event> {
diff --git a/src/scanner.rs b/src/scanner.rs
index 080b6b9..0700d11 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -202,7 +202,11 @@ impl<R: BufRead> Scanner<R> {
             });
         }
         if !self.token_available {
-            self.fetch_more_tokens()?;
+            if let Err(err) = self.fetch_more_tokens() {
+                // Like libyaml, produce nothing more after an error.
+                self.stream_end_produced = true;
+                return Err(err);
+            }
         }
         if let Some(token) = self.tokens.pop_front() {
             self.token_available = false;
-- 
2.43.0


From d9fc5b92585ead24064e85d66cf5b3dc8ad543a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 10/24] fix: an implicit document start event is empty, not as
 long as the token after it

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index ad1ef15..cbfba51 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -284,7 +284,7 @@ impl<R: BufRead> Parser<R> {
                     implicit: true,
                 },
                 start_mark: token.start_mark,
-                end_mark: token.end_mark,
+                end_mark: token.start_mark,
             };
             self.process_directives(None, None)?;
             self.inner.states.push(ParserState::DocumentEnd);
-- 
2.43.0


From 629202d19fd9f070df03e2ad0e1f9f45a3dc8f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 11/24] fix: report a scanner error in the token after the node
 properties before an undefined tag handle

---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index cbfba51..1d34d74 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -424,6 +424,8 @@ impl<R: BufRead> Parser<R> {
             }
         }
 
+        // An error in the next token comes before one in the tag handle.
+        self.scanner.peek()?;
         if let Some(ref tag_handle_value) = tag_handle {
             if tag_handle_value.is_empty() {
                 tag = tag_suffix;
-- 
2.43.0


From 2ed17cd8038e18b9c4db199f5eff9473d08780e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 12/24] fix: the end of a single-pair mapping is empty, not as
 long as the token after it

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 1d34d74..5ab5cdb 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -810,7 +810,7 @@ impl<R: BufRead> Parser<R> {
     fn parse_flow_sequence_entry_mapping_end(&mut self) -> Result<Event> {
         let token = self.scanner.peek()?;
         let start_mark = token.start_mark;
-        let end_mark = token.end_mark;
+        let end_mark = token.start_mark;
         self.inner.state = ParserState::FlowSequenceEntry;
         Ok(Event {
             data: EventData::MappingEnd,
-- 
2.43.0


From 4f5cae5c5dba1ef5025e2e7ee933e53727ca60c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:41 +0000
Subject: [PATCH 13/24] fix: the end of an indentless sequence is empty, not as
 long as the token after it

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 5ab5cdb..914b8d3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -639,7 +639,7 @@ impl<R: BufRead> Parser<R> {
             let event = Event {
                 data: EventData::SequenceEnd,
                 start_mark: token.start_mark,
-                end_mark: token.end_mark,
+                end_mark: token.start_mark,
             };
             self.inner.state = self.inner.states.pop().unwrap();
             Ok(event)
-- 
2.43.0


From 8081c1974a9886acaf7e723bbb41dc6eed45ffa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 14/24] fix: look at the first character after the breaks when
 folding a scalar, not the second

---
 src/emitter.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/emitter.rs b/src/emitter.rs
index 7647c65..f9b989c 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -1734,9 +1734,8 @@ impl<'w> Emitter<'w> {
         while let Some(ch) = chars.next() {
             if is_break(ch) {
                 if !breaks && !leading_spaces && ch == '\n' {
-                    let mut skip_breaks = chars.clone();
-                    while is_break(skip_breaks.next()) {}
-                    if !is_blankz(skip_breaks.next()) {
+                    let next_non_break = chars.clone().find(|ch| !is_break(*ch));
+                    if !is_blankz(next_non_break) {
                         self.put_break()?;
                     }
                 }
-- 
2.43.0


From aaffd1f46116f87b71f51d58f307095d45c5a030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 15/24] fix: U+FEFF, not U+7EFF, is the byte order mark

---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index f91e4f6..ddd01ec 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -109,7 +109,7 @@ macro_rules! IS_BOM {
 }
 
 pub(crate) fn is_bom(ch: char) -> bool {
-    ch == '\u{7eff}'
+    ch == '\u{feff}'
 }
 
 macro_rules! IS_SPACE_AT {
-- 
2.43.0


From a353c41e2963b6a2a036a5236e7e81b60de17b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 16/24] fix: do not cut a tag inside a character when looking
 for its prefix

---
 src/emitter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emitter.rs b/src/emitter.rs
index f9b989c..7da2d6b 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -1130,7 +1130,7 @@ impl<'w> Emitter<'w> {
 
         for tag_directive in tag_directives {
             let prefix_len = tag_directive.prefix.len();
-            if prefix_len < tag.len() && tag_directive.prefix == tag[0..prefix_len] {
+            if prefix_len < tag.len() && tag.starts_with(&tag_directive.prefix) {
                 handle = &tag_directive.handle;
                 suffix = &tag[prefix_len..];
                 break;
-- 
2.43.0


From 3adf4ceb27417e674578818a1b6d68ee71d94d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 17/24] fix: do not write UTF-16 output twice when a failed
 flush is repeated

---
 src/emitter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/emitter.rs b/src/emitter.rs
index 7da2d6b..7fc46da 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -1790,6 +1790,8 @@ impl<'w> Emitter<'w> {
             Encoding::Utf16Be => true,
         };
 
+        // A previous flush may have failed and left its output here.
+        self.raw_buffer.clear();
         for ch in self.buffer.encode_utf16() {
             let bytes = if big_endian {
                 ch.to_be_bytes()
-- 
2.43.0


From b3a6a5235b95a7fc9c65f778428ac3bb0a5b47b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 18/24] fix: refuse all events after a refused one, like
 libyaml, instead of panicking

---
 src/emitter.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/emitter.rs b/src/emitter.rs
index 7fc46da..b3bf79b 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -4,8 +4,8 @@ use crate::macros::{
     is_alpha, is_ascii, is_blank, is_blankz, is_bom, is_break, is_breakz, is_printable, is_space,
 };
 use crate::{
-    Break, Encoding, Error, Event, EventData, MappingStyle, Result, ScalarStyle, SequenceStyle,
-    TagDirective, VersionDirective, OUTPUT_BUFFER_SIZE,
+    Break, Encoding, Error, ErrorKind, Event, EventData, MappingStyle, Result, ScalarStyle,
+    SequenceStyle, TagDirective, VersionDirective, OUTPUT_BUFFER_SIZE,
 };
 
 /// The emitter structure.
@@ -78,6 +78,8 @@ pub struct Emitter<'w> {
     pub(crate) anchors: Vec<Anchors>,
     /// The last assigned anchor id.
     pub(crate) last_anchor_id: i32,
+    /// If an event was refused?
+    pub(crate) failed: bool,
 }
 
 impl Default for Emitter<'_> {
@@ -206,6 +208,7 @@ impl<'w> Emitter<'w> {
             closed: false,
             anchors: Vec::new(),
             last_anchor_id: 0,
+            failed: false,
         }
     }
 
@@ -300,6 +303,19 @@ impl<'w> Emitter<'w> {
     /// the responsibility for the event object and destroys its content after
     /// it is emitted. The event object is destroyed even if the function fails.
     pub fn emit(&mut self, event: Event) -> Result<()> {
+        // The state is not consistent after a refused event, which libyaml
+        // keeps in its queue and refuses again.
+        if self.failed {
+            return Err(Error::emitter("expected nothing after an error"));
+        }
+        let result = self.emit_events(event);
+        if let Err(err) = &result {
+            self.failed = err.kind() == ErrorKind::Emitter;
+        }
+        result
+    }
+
+    fn emit_events(&mut self, event: Event) -> Result<()> {
         self.events.push_back(event);
         while let Some(event) = self.needs_mode_events() {
             let tag_directives = core::mem::take(&mut self.tag_directives);
-- 
2.43.0


From 50731acd535d5d2631a130458be43f4775c55dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 19/24] fix: anchor shared nodes at any depth when dumping a
 document, instead of panicking

---
 src/document.rs | 26 ++++++++++++++++----------
 src/emitter.rs  |  4 +++-
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 89c73ad..3801521 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -1,3 +1,4 @@
+use std::collections::VecDeque;
 use std::io::BufRead;
 
 use crate::{
@@ -601,27 +602,32 @@ impl Document {
         Ok(())
     }
 
+    /// Count the references to every node reachable from `index`, and assign
+    /// an anchor to those that are referenced more than once. Nodes are visited
+    /// level by level, each one once.
     fn anchor_node(&self, emitter: &mut Emitter, index: i32) {
-        let node = &self.nodes[index as usize - 1];
-        emitter.anchors[index as usize - 1].references += 1;
-        if emitter.anchors[index as usize - 1].references == 1 {
-            match &node.data {
+        emitter.anchor_node_sub(index);
+        let mut queue = VecDeque::from([index]);
+        while let Some(index) = queue.pop_front() {
+            match &self.nodes[index as usize - 1].data {
                 NodeData::Sequence { items, .. } => {
                     for item in items {
-                        emitter.anchor_node_sub(*item);
+                        if emitter.anchor_node_sub(*item) {
+                            queue.push_back(*item);
+                        }
                     }
                 }
                 NodeData::Mapping { pairs, .. } => {
                     for pair in pairs {
-                        emitter.anchor_node_sub(pair.key);
-                        emitter.anchor_node_sub(pair.value);
+                        for item in [pair.key, pair.value] {
+                            if emitter.anchor_node_sub(item) {
+                                queue.push_back(item);
+                            }
+                        }
                     }
                 }
                 _ => {}
             }
-        } else if emitter.anchors[index as usize - 1].references == 2 {
-            emitter.last_anchor_id += 1;
-            emitter.anchors[index as usize - 1].anchor = emitter.last_anchor_id;
         }
     }
 
diff --git a/src/emitter.rs b/src/emitter.rs
index b3bf79b..0deaacb 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -1833,12 +1833,14 @@ impl<'w> Emitter<'w> {
         self.last_anchor_id = 0;
     }
 
-    pub(crate) fn anchor_node_sub(&mut self, index: i32) {
+    /// Count a reference to a node. Returns whether it is the first one.
+    pub(crate) fn anchor_node_sub(&mut self, index: i32) -> bool {
         self.anchors[index as usize - 1].references += 1;
         if self.anchors[index as usize - 1].references == 2 {
             self.last_anchor_id += 1;
             self.anchors[index as usize - 1].anchor = self.last_anchor_id;
         }
+        self.anchors[index as usize - 1].references == 1
     }
 
     pub(crate) fn generate_anchor(anchor_id: i32) -> String {
-- 
2.43.0


From 873250e47bcdff2a6b19f04368431f0bb88dee82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:10 +0000
Subject: [PATCH 20/24] fix: no node has an index below 1, instead of panicking
 on arithmetic overflow

---
 src/document.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 3801521..f4941ca 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -109,14 +109,15 @@ impl Document {
     ///
     /// Returns the node object or `None` if `index` is out of range.
     pub fn get_node_mut(&mut self, index: i32) -> Option<&mut Node> {
-        self.nodes.get_mut(index as usize - 1)
+        self.nodes
+            .get_mut(usize::try_from(index).ok()?.checked_sub(1)?)
     }
 
     /// Get a node of a YAML document.
     ///
     /// Returns the node object or `None` if `index` is out of range.
     pub fn get_node(&self, index: i32) -> Option<&Node> {
-        self.nodes.get(index as usize - 1)
+        self.nodes.get(usize::try_from(index).ok()?.checked_sub(1)?)
     }
 
     /// Get the root of a YAML document node.
-- 
2.43.0


From b3c85e6c425c302e8f3fa3f7a7d291f345f0810d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:56 +0000
Subject: [PATCH 21/24] fix: read the anchor and tag of an event line from
 before its value, not from the value

---
 src/bin/run-emitter-test-suite.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/bin/run-emitter-test-suite.rs b/src/bin/run-emitter-test-suite.rs
index efeddc1..73bd4a1 100644
--- a/src/bin/run-emitter-test-suite.rs
+++ b/src/bin/run-emitter-test-suite.rs
@@ -96,19 +96,27 @@ pub(crate) fn test_main(
     }
 }
 
+/// The part of an event line before the value, which may contain anything.
+fn get_head(line: &str) -> &str {
+    let value = line.match_indices(' ').find(|(space, _)| {
+        let tail = &line[space + 1..];
+        tail.starts_with(|ch| matches!(ch, ':' | '\'' | '"' | '|' | '>'))
+    });
+    value.map_or(line, |(space, _)| &line[..space])
+}
+
 fn get_anchor(sigil: char, line: &str) -> Option<&str> {
-    let (_, from_sigil) = line.split_once(sigil)?;
-    if let Some((until_space, _tail)) = from_sigil.split_once(' ') {
-        Some(until_space)
-    } else if !from_sigil.is_empty() {
-        Some(from_sigil)
-    } else {
+    let mut properties = get_head(line).split(' ');
+    let anchor = properties.find_map(|property| property.strip_prefix(sigil))?;
+    if anchor.is_empty() {
         None
+    } else {
+        Some(anchor)
     }
 }
 
 fn get_tag(line: &str) -> Option<&str> {
-    let (_, from_angle_open) = line.split_once('<')?;
+    let (_, from_angle_open) = get_head(line).split_once(" <")?;
     let (until_angle_close, _) = from_angle_open.split_once('>')?;
     Some(until_angle_close)
 }
-- 
2.43.0


From c0f0862941568f314bc30730fc30f479f6d7f105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:18 +0000
Subject: [PATCH 22/24] fix: count the UTF-16 byte order mark in the offset of
 reader errors

---
 src/reader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index ed64084..f91cfbb 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -36,8 +36,10 @@ fn yaml_parser_determine_encoding(
             let mut bom = [0; 2];
             reader.read_exact(&mut bom)?;
             if bom == BOM_UTF16LE {
+                *offset += bom.len();
                 Ok(Some(Encoding::Utf16Le))
             } else if bom == BOM_UTF16BE {
+                *offset += bom.len();
                 Ok(Some(Encoding::Utf16Be))
             } else {
                 Err(Error::reader(
-- 
2.43.0


From 833afa345ad343f67e32f858d169d8bb422e580b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:22 +0000
Subject: [PATCH 23/24] fix: dumping a deeply nested document overflowed the
 stack

---
 src/document.rs | 86 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 57 insertions(+), 29 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index f4941ca..a1adebe 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -70,6 +70,13 @@ pub enum NodeData {
     },
 }
 
+/// What remains to be emitted of a document being dumped.
+enum DumpStep {
+    Node(i32),
+    SequenceEnd,
+    MappingEnd,
+}
+
 /// An element of a sequence node.
 pub type NodeItem = i32;
 
@@ -632,26 +639,47 @@ impl Document {
         }
     }
 
+    /// Emit the nodes below `index`, in order. The nodes and the ends of
+    /// collections that remain to be emitted are kept on a stack, so that the
+    /// depth of the document is not limited by the thread's stack.
     fn dump_node(&mut self, emitter: &mut Emitter, index: i32) -> Result<()> {
-        assert!(index > 0);
-        let node = &mut self.nodes[index as usize - 1];
-        let anchor_id: i32 = emitter.anchors[index as usize - 1].anchor;
-        let mut anchor: Option<String> = None;
-        if anchor_id != 0 {
-            anchor = Some(Emitter::generate_anchor(anchor_id));
-        }
-        if emitter.anchors[index as usize - 1].serialized {
-            return Self::dump_alias(emitter, anchor.unwrap());
-        }
-        emitter.anchors[index as usize - 1].serialized = true;
-
-        let node = core::mem::take(node);
-        match node.data {
-            NodeData::Scalar { .. } => Self::dump_scalar(emitter, node, anchor),
-            NodeData::Sequence { .. } => self.dump_sequence(emitter, node, anchor),
-            NodeData::Mapping { .. } => self.dump_mapping(emitter, node, anchor),
-            _ => unreachable!("document node is neither a scalar, sequence, or a mapping"),
+        let mut stack = vec![DumpStep::Node(index)];
+        while let Some(step) = stack.pop() {
+            let index = match step {
+                DumpStep::Node(index) => index,
+                DumpStep::SequenceEnd => {
+                    emitter.emit(Event::sequence_end())?;
+                    continue;
+                }
+                DumpStep::MappingEnd => {
+                    emitter.emit(Event::mapping_end())?;
+                    continue;
+                }
+            };
+            assert!(index > 0);
+            let node = &mut self.nodes[index as usize - 1];
+            let anchor_id: i32 = emitter.anchors[index as usize - 1].anchor;
+            let mut anchor: Option<String> = None;
+            if anchor_id != 0 {
+                anchor = Some(Emitter::generate_anchor(anchor_id));
+            }
+            if emitter.anchors[index as usize - 1].serialized {
+                Self::dump_alias(emitter, anchor.unwrap())?;
+                continue;
+            }
+            emitter.anchors[index as usize - 1].serialized = true;
+
+            let node = core::mem::take(node);
+            match node.data {
+                NodeData::Scalar { .. } => Self::dump_scalar(emitter, node, anchor)?,
+                NodeData::Sequence { .. } => {
+                    Self::dump_sequence(emitter, node, anchor, &mut stack)?
+                }
+                NodeData::Mapping { .. } => Self::dump_mapping(emitter, node, anchor, &mut stack)?,
+                _ => unreachable!("document node is neither a scalar, sequence, or a mapping"),
+            }
         }
+        Ok(())
     }
 
     fn dump_alias(emitter: &mut Emitter, anchor: String) -> Result<()> {
@@ -679,10 +707,10 @@ impl Document {
     }
 
     fn dump_sequence(
-        &mut self,
         emitter: &mut Emitter,
         node: Node,
         anchor: Option<String>,
+        stack: &mut Vec<DumpStep>,
     ) -> Result<()> {
         let implicit = node.tag.as_deref() == Some(DEFAULT_SEQUENCE_TAG);
 
@@ -698,18 +726,18 @@ impl Document {
         });
 
         emitter.emit(event)?;
-        for item in items {
-            self.dump_node(emitter, item)?;
+        stack.push(DumpStep::SequenceEnd);
+        for item in items.into_iter().rev() {
+            stack.push(DumpStep::Node(item));
         }
-        let event = Event::sequence_end();
-        emitter.emit(event)
+        Ok(())
     }
 
     fn dump_mapping(
-        &mut self,
         emitter: &mut Emitter,
         node: Node,
         anchor: Option<String>,
+        stack: &mut Vec<DumpStep>,
     ) -> Result<()> {
         let implicit = node.tag.as_deref() == Some(DEFAULT_MAPPING_TAG);
 
@@ -725,11 +753,11 @@ impl Document {
         });
 
         emitter.emit(event)?;
-        for pair in pairs {
-            self.dump_node(emitter, pair.key)?;
-            self.dump_node(emitter, pair.value)?;
+        stack.push(DumpStep::MappingEnd);
+        for pair in pairs.into_iter().rev() {
+            stack.push(DumpStep::Node(pair.value));
+            stack.push(DumpStep::Node(pair.key));
         }
-        let event = Event::mapping_end();
-        emitter.emit(event)
+        Ok(())
     }
 }
-- 
2.43.0


From ecc70c068193e310aa6e76450dd9c12f61b7af1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:46 +0000
Subject: [PATCH 24/24] fix: do not look again at simple keys known not to be
 possible

libyaml keeps the number of leading entries of the stack of simple keys
that are no longer possible, and skips them. Without it the scanner looks
at every open flow collection before each token, which is quadratic in the
depth of the nesting.
---
 src/scanner.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 0700d11..a9f4f1e 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -48,6 +48,9 @@ pub struct Scanner<R> {
     pub(crate) simple_key_allowed: bool,
     /// The stack of simple keys.
     pub(crate) simple_keys: Vec<SimpleKey>,
+    /// The number of entries at the bottom of the stack of simple keys that are
+    /// known not to be possible, and that need not be looked at again.
+    pub(crate) not_simple_keys: usize,
 }
 
 impl<'r, 'b> Scanner<&'r mut &'b [u8]> {
@@ -77,6 +80,7 @@ impl<R> Scanner<R> {
             indent: 0,
             simple_key_allowed: false,
             simple_keys: Vec::with_capacity(16),
+            not_simple_keys: 0,
         }
     }
 
@@ -110,6 +114,7 @@ impl<R> Scanner<R> {
         self.indent = 0;
         self.simple_key_allowed = false;
         self.simple_keys.clear();
+        self.not_simple_keys = 0;
     }
 }
 
@@ -289,7 +294,7 @@ impl<R: BufRead> Scanner<R> {
                 need_more_tokens = true;
             } else {
                 self.stale_simple_keys()?;
-                for simple_key in &self.simple_keys {
+                for simple_key in &self.simple_keys[self.not_simple_keys..] {
                     if simple_key.possible && simple_key.token_number == self.tokens_parsed {
                         need_more_tokens = true;
                         break;
@@ -417,7 +422,8 @@ impl<R: BufRead> Scanner<R> {
     }
 
     fn stale_simple_keys(&mut self) -> Result<()> {
-        for simple_key in &mut self.simple_keys {
+        for i in self.not_simple_keys..self.simple_keys.len() {
+            let simple_key = &mut self.simple_keys[i];
             let mark = simple_key.mark;
             if simple_key.possible
                 && (mark.line < self.mark.line || mark.index + 1024 < self.mark.index)
@@ -430,6 +436,9 @@ impl<R: BufRead> Scanner<R> {
                     );
                 }
                 simple_key.possible = false;
+                if self.not_simple_keys == i {
+                    self.not_simple_keys += 1;
+                }
             }
         }
 
@@ -447,6 +456,9 @@ impl<R: BufRead> Scanner<R> {
             };
             self.remove_simple_key()?;
             *self.simple_keys.last_mut().unwrap() = simple_key;
+            if self.not_simple_keys == self.simple_keys.len() {
+                self.not_simple_keys -= 1;
+            }
         }
         Ok(())
     }
@@ -490,6 +502,9 @@ impl<R: BufRead> Scanner<R> {
     fn decrease_flow_level(&mut self) {
         if self.flow_level != 0 {
             self.flow_level -= 1;
+            if self.not_simple_keys == self.simple_keys.len() {
+                self.not_simple_keys -= 1;
+            }
             let _ = self.simple_keys.pop();
         }
     }
@@ -545,6 +560,7 @@ impl<R: BufRead> Scanner<R> {
         };
         self.indent = -1;
         self.simple_keys.push(simple_key);
+        self.not_simple_keys = 1;
         self.simple_key_allowed = true;
         self.stream_start_produced = true;
         let token = Token {
-- 
2.43.0

