From 7230601f316ce87fae15909732c464f3b0074204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:50 +0000
Subject: [PATCH 01/39] fix: report success and failure of the command-line
 tool the right way round

---
 ginko/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ginko/src/main.rs b/ginko/src/main.rs
index 9fe1434..21dcbd9 100644
--- a/ginko/src/main.rs
+++ b/ginko/src/main.rs
@@ -37,9 +37,9 @@ fn main() -> Result<(), Box<dyn Error>> {
     }
 
     if has_errors {
+        exit(1);
+    } else {
         println!("OK; No issues found");
         exit(0);
-    } else {
-        exit(1);
     }
 }
-- 
2.43.0


From ee65194d14071b0f2e1b395436f3b229fc383beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:50 +0000
Subject: [PATCH 02/39] fix: only find the reference of a delete or omit
 directive when the cursor is on it

---
 ginko/src/dts/visitor.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ginko/src/dts/visitor.rs b/ginko/src/dts/visitor.rs
index 02d0402..3a87316 100644
--- a/ginko/src/dts/visitor.rs
+++ b/ginko/src/dts/visitor.rs
@@ -45,11 +45,12 @@ impl AnyDirective {
                     None
                 }
             }
-            AnyDirective::DeletedNode(_, node_ref) => {
-                Some(ItemAtCursor::Reference(node_ref.item()))
-            }
-            AnyDirective::OmitIfNoRef(_, node_ref) => {
-                Some(ItemAtCursor::Reference(node_ref.item()))
+            AnyDirective::DeletedNode(_, node_ref) | AnyDirective::OmitIfNoRef(_, node_ref) => {
+                if node_ref.span().contains(cursor) {
+                    Some(ItemAtCursor::Reference(node_ref.item()))
+                } else {
+                    None
+                }
             }
             _ => None,
         }
-- 
2.43.0


From e276a0cd7cec0b8b1ab7eb60d0abd65643b38605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:10 +0000
Subject: [PATCH 03/39] fix: keep non-ASCII characters in strings intact

---
 ginko/src/dts/tokens/lexer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index 53e95b9..564b5dc 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -216,13 +216,13 @@ where
     //  ^~~ cursor is here
     fn string(&mut self, pos: Position) -> Option<Token> {
         let mut is_escaped: bool = false;
-        let mut str = String::new();
+        let mut str: Vec<u8> = vec![];
         loop {
             let ch = self.reader.consume()?;
             match ch {
                 b'\\' => {
                     if is_escaped {
-                        str.push(b'\\' as char);
+                        str.push(b'\\');
                         is_escaped = false;
                     } else {
                         is_escaped = true;
@@ -230,12 +230,12 @@ where
                 }
                 b'"' => {
                     if is_escaped {
-                        str.push(b'"' as char);
+                        str.push(b'"');
                         is_escaped = false;
                     } else {
                         return Some(Token {
                             span: pos.to(self.reader.pos()),
-                            kind: TokenKind::String(str),
+                            kind: TokenKind::String(String::from_utf8(str).unwrap()),
                             source: self.source(),
                         });
                     }
@@ -244,7 +244,7 @@ where
                     if is_escaped {
                         is_escaped = false
                     }
-                    str.push(ch as char)
+                    str.push(ch)
                 }
             }
         }
-- 
2.43.0


From 532bc350625b166e9ec9dacd16a3d94541e5a8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:56 +0000
Subject: [PATCH 04/39] fix: count columns in UTF-16 code units, as the
 language-server protocol does

---
 ginko/src/dts/data.rs         |  1 +
 ginko/src/dts/diagnostics.rs  | 40 +++++++++++++++++++++--------------
 ginko/src/dts/reader.rs       |  4 ++++
 ginko/src/dts/tokens/lexer.rs | 11 +++++++++-
 4 files changed, 39 insertions(+), 17 deletions(-)

diff --git a/ginko/src/dts/data.rs b/ginko/src/dts/data.rs
index 89ef8e6..afc27a9 100644
--- a/ginko/src/dts/data.rs
+++ b/ginko/src/dts/data.rs
@@ -64,6 +64,7 @@ impl From<&Path> for FileType {
 }
 
 /// A source position, defined by its zero-based line offset and zero-based character offset.
+/// The character offset counts UTF-16 code units.
 /// This is intentionally equivalent to the position defined by the LSP standard
 /// to make conversions easier.
 #[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd)]
diff --git a/ginko/src/dts/diagnostics.rs b/ginko/src/dts/diagnostics.rs
index 544d384..54bc362 100644
--- a/ginko/src/dts/diagnostics.rs
+++ b/ginko/src/dts/diagnostics.rs
@@ -179,11 +179,21 @@ impl<'a> DiagnosticPrinter<'a> {
             .get(start.line() as usize)
             .unwrap_or(&empty_string)
             .clone();
-        // take tabs into consideration
-        let line_empty: String = line
+        // Positions are given in UTF-16 code units
+        let mut offset = 0;
+        let offsets = line
             .chars()
-            .map(|ch| if !ch.is_ascii_whitespace() { ' ' } else { ch })
-            .take(start.character() as usize)
+            .map(|ch| {
+                let start = offset;
+                offset += ch.len_utf16() as u32;
+                (start, ch)
+            })
+            .collect_vec();
+        // take tabs into consideration
+        let line_empty: String = offsets
+            .iter()
+            .filter(|(offset, _)| *offset < start.character())
+            .map(|(_, ch)| if !ch.is_ascii_whitespace() { ' ' } else { *ch })
             .collect();
 
         let prefix = format!("{}", start.line() + 1);
@@ -198,18 +208,16 @@ impl<'a> DiagnosticPrinter<'a> {
         )?;
         writeln!(f, "{} |", prefix_empty)?;
         writeln!(f, "{} | {}", prefix, line)?;
-        let len = if start.character() == end.character() {
-            1
-        } else {
-            end.character() - start.character()
-        };
-        write!(
-            f,
-            "{} | {}{}",
-            prefix_empty,
-            line_empty,
-            "^".repeat(len as usize)
-        )?;
+        let chars_past_line_end = end
+            .character()
+            .saturating_sub(start.character().max(offset));
+        let len = offsets
+            .iter()
+            .filter(|(offset, _)| (start.character()..end.character()).contains(offset))
+            .count()
+            .saturating_add(chars_past_line_end as usize)
+            .max(1);
+        write!(f, "{} | {}{}", prefix_empty, line_empty, "^".repeat(len))?;
         write!(f, " {}", diagnostic.message)?;
         Ok(())
     }
diff --git a/ginko/src/dts/reader.rs b/ginko/src/dts/reader.rs
index 8a57a6d..a2ab5d1 100644
--- a/ginko/src/dts/reader.rs
+++ b/ginko/src/dts/reader.rs
@@ -52,6 +52,10 @@ impl Reader for ByteReader {
             b'\n' => {
                 self.pos = Position::new(self.pos.line() + 1, 0);
             }
+            // Continuation byte of a UTF-8 sequence; the position already advanced at the first byte
+            0x80..=0xBF => {}
+            // First byte of a four-byte UTF-8 sequence, which is two UTF-16 code units long
+            0xF0..=0xFF => self.pos = Position::new(self.pos.line(), self.pos.character() + 2),
             _ => self.pos = Position::new(self.pos.line(), self.pos.character() + 1),
         }
         Some(ch)
diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index 564b5dc..c35d9cd 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -358,7 +358,16 @@ where
             b'<' => simple_token(ChevronLeft),
             b'>' => simple_token(ChevronRight),
             b',' => simple_token(Comma),
-            ch => simple_token(Unknown(ch)),
+            ch => {
+                self.reader.skip();
+                // Treat all bytes of a multi-byte UTF-8 sequence as one token
+                while self.reader.skip_if(|ch| matches!(ch, 0x80..=0xBF)) {}
+                Some(Token {
+                    kind: Unknown(ch),
+                    span: start_pos.to(self.reader.pos()),
+                    source: self.source(),
+                })
+            }
         }
     }
 }
-- 
2.43.0


From 49b2f22baa3af6d6541b200f84201b81ad7a2385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:57 +0000
Subject: [PATCH 05/39] fix: render diagnostics that span multiple lines
 instead of panicking

---
 ginko/src/dts/diagnostics.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ginko/src/dts/diagnostics.rs b/ginko/src/dts/diagnostics.rs
index 54bc362..df085ba 100644
--- a/ginko/src/dts/diagnostics.rs
+++ b/ginko/src/dts/diagnostics.rs
@@ -172,7 +172,6 @@ impl<'a> DiagnosticPrinter<'a> {
     fn fmt_diagnostic(&self, f: &mut Formatter<'_>, diagnostic: &Diagnostic) -> std::fmt::Result {
         let start = diagnostic.span.start();
         let end = diagnostic.span.end();
-        debug_assert!(start.line() == end.line());
         let empty_string = "".to_string();
         let line = self
             .code
@@ -208,12 +207,16 @@ impl<'a> DiagnosticPrinter<'a> {
         )?;
         writeln!(f, "{} |", prefix_empty)?;
         writeln!(f, "{} | {}", prefix, line)?;
-        let chars_past_line_end = end
-            .character()
-            .saturating_sub(start.character().max(offset));
+        // Only the first line of a range spanning multiple lines is shown
+        let end_character = if start.line() == end.line() {
+            end.character()
+        } else {
+            offset
+        };
+        let chars_past_line_end = end_character.saturating_sub(start.character().max(offset));
         let len = offsets
             .iter()
-            .filter(|(offset, _)| (start.character()..end.character()).contains(offset))
+            .filter(|(offset, _)| (start.character()..end_character).contains(offset))
             .count()
             .saturating_add(chars_past_line_end as usize)
             .max(1);
-- 
2.43.0


From d4ac24b2cf73d48cf557ea9e244748187dd4e836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:58 +0000
Subject: [PATCH 06/39] fix: place errors after the last token, not after the
 comments following it

---
 ginko/src/dts/tokens/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index c35d9cd..89967c3 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -281,7 +281,6 @@ where
     }
 
     fn consume(&mut self) -> Option<Token> {
-        self.last_pos = self.pos();
         self.skip_whitespace();
         let ch = self.reader.peek()?;
         let start_pos = self.reader.pos();
@@ -503,6 +502,7 @@ where
     type Item = Token;
 
     fn next(&mut self) -> Option<Token> {
+        self.last_pos = self.pos();
         loop {
             let next = self.consume()?;
             if !matches!(next.kind, TokenKind::Comment(_)) {
-- 
2.43.0


From 5ef510834432e4bd3dd151f56f96db0964bea34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:59 +0000
Subject: [PATCH 07/39] fix: name the expected token in the error message, not
 the found one

---
 ginko/src/dts/tokens/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index 89967c3..339f32d 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -452,7 +452,7 @@ where
                     Err(Diagnostic::expected(
                         prev_pos.as_span(),
                         self.source(),
-                        &[token.kind],
+                        &[kind],
                     ))
                 }
             }
-- 
2.43.0


From 6cc8370cbf7fe172df03004d6f6453e850a900df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:21 +0000
Subject: [PATCH 08/39] fix: do not silently ignore unterminated strings,
 comments and references at the end of the file

---
 ginko/src/dts/tokens/lexer.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index 339f32d..5e6a555 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -79,16 +79,29 @@ where
         self.reader.pos()
     }
 
+    // A token that starts with the given character but is not terminated before the end of the file.
+    fn unterminated(&self, ch: u8, start: Position) -> Option<Token> {
+        Some(Token {
+            span: start.to(self.reader.pos()),
+            kind: TokenKind::Unknown(ch),
+            source: self.source(),
+        })
+    }
+
     // precondition: cursor is past '&' token
     // x = <&ref>
     //       ^~~ cursor is here
     fn path_or_reference(&mut self, start: Position) -> Option<Token> {
-        let ch = self.reader.peek()?;
+        let Some(ch) = self.reader.peek() else {
+            return self.unterminated(b'&', start);
+        };
         match ch {
             b'{' => {
                 self.reader.skip();
                 let path = self.read_while(|ch| ch != b'}');
-                self.reader.consume()?;
+                if self.reader.consume().is_none() {
+                    return self.unterminated(b'&', start);
+                }
                 Some(Token {
                     span: start.to(self.reader.pos()),
                     kind: TokenKind::Ref(Reference::Path(String::from_utf8(path).unwrap())),
@@ -165,7 +178,9 @@ where
     fn multi_line_comment(&mut self, pos: Position) -> Option<Token> {
         let mut buf: Vec<u8> = vec![];
         loop {
-            let ch = self.reader.consume()?;
+            let Some(ch) = self.reader.consume() else {
+                return self.unterminated(b'/', pos);
+            };
             match ch {
                 b'*' => {
                     if self.reader.peek() == Some(b'/') {
@@ -218,7 +233,9 @@ where
         let mut is_escaped: bool = false;
         let mut str: Vec<u8> = vec![];
         loop {
-            let ch = self.reader.consume()?;
+            let Some(ch) = self.reader.consume() else {
+                return self.unterminated(b'"', pos);
+            };
             match ch {
                 b'\\' => {
                     if is_escaped {
-- 
2.43.0


From d76d3f0a233f5773df2e100bbcd01c362fac56bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:34 +0000
Subject: [PATCH 09/39] fix: do not let a slash inside an expression swallow
 the text up to the next slash

---
 ginko/src/dts/tokens/lexer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index 5e6a555..76cc6cb 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -205,10 +205,12 @@ where
     //  ^~~ cursor is here
     fn compiler_directive(&mut self, pos: Position) -> Token {
         use crate::dts::tokens::CompilerDirective::*;
-        let directive = self.read_while(|ch| ch != b'/');
-        self.reader.skip();
+        let directive =
+            self.read_while(|ch| matches!(ch, b'0'..=b'9' | b'a'..=b'z' | b'A'..=b'Z' | b'-'));
+        let terminated = self.reader.skip_if(|ch| ch == b'/');
         let directive_string = String::from_utf8(directive).unwrap();
         let directive = match directive_string.as_str() {
+            other if !terminated => Other(other.into()),
             "dts-v1" => DTSVersionHeader,
             "plugin" => Plugin,
             "memreserve" => MemReserve,
-- 
2.43.0


From 16254608fcf2ec199a7f8812760d5dfb79049dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:53 +0000
Subject: [PATCH 10/39] fix: reject plus signs in byte strings

---
 ginko/src/dts/parser.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index b039bdb..a14a527 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -286,6 +286,15 @@ where
                 let mut bytes: Vec<u8> = Vec::with_capacity(raw_str.len() / 2);
                 for (first, second) in raw_str.bytes().map(|ch| ch.to_ascii_lowercase()).tuples() {
                     match u8::from_str_radix(std::str::from_utf8(&[first, second]).unwrap(), 16) {
+                        // `from_str_radix` accepts a leading plus sign, which is not a digit
+                        Ok(_) if first == b'+' => {
+                            self.diagnostics.push(Diagnostic::from_token(
+                                tok.clone(),
+                                ErrorCode::IntError,
+                                "invalid digit found in string",
+                            ));
+                            return Ok(WithToken::new(vec![], tok));
+                        }
                         Ok(byte) => bytes.push(byte),
                         Err(err) => {
                             self.diagnostics.push(Diagnostic::parse_int_error(
-- 
2.43.0


From a3d1d012aa78578875ec454387e15e39bbbe143f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:08 +0000
Subject: [PATCH 11/39] fix: point at the illegal character itself in unit
 addresses and path references

---
 ginko/src/dts/parser.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index a14a527..dd5af11 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -140,8 +140,9 @@ where
             NameContext::NodeName,
         );
         if let Some(unit_address) = &name.unit_address {
+            let offset = name.name.len() + '@'.len_utf8();
             self.check_ident(
-                span,
+                Span::new(span.start().offset_by_char(offset as i32), span.end()),
                 unit_address.as_str(),
                 |ch| matches!(ch, 'a'..='z' | 'A'..='Z' | '0'..='9' | ',' | '.' | '_' | '+' | '-'),
                 |_| true,
@@ -178,10 +179,18 @@ where
                         "Path cannot be empty",
                     ));
                 }
-                let path = Path::from(path.as_str());
-                for el in path.iter() {
-                    self.check_is_node_name(token.span(), el);
+                // position past the leading '&{'
+                let mut offset = 2;
+                for component in path.split('/') {
+                    let len = component.encode_utf16().count() as i32;
+                    if !component.is_empty() {
+                        let start = token.start().offset_by_char(offset);
+                        let span = Span::new(start, start.offset_by_char(len));
+                        self.check_is_node_name(span, &NodeName::from(component));
+                    }
+                    offset += len + 1;
                 }
+                let path = Path::from(path.as_str());
                 WithToken::new(crate::dts::ast::Reference::Path(path), token)
             }
         }
-- 
2.43.0


From cfbcb99cd1047ab9f9b54d935ca684dd18b00449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:36 +0000
Subject: [PATCH 12/39] fix: limit the nesting of nodes instead of overflowing
 the stack

---
 ginko/src/dts/parser.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index dd5af11..36aa96c 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -17,6 +17,10 @@ pub struct ParserContext {
     pub include_paths: Vec<PathBuf>,
 }
 
+/// The maximum number of nodes that may be nested.
+/// Nodes are parsed recursively, this limit prevents the stack from overflowing.
+const MAX_NODE_DEPTH: usize = 100;
+
 /// The `Parser` class is responsible for syntactical analysis,
 /// transforming the input token stream into an AST.
 pub struct Parser<R>
@@ -24,6 +28,7 @@ where
     R: Reader + Sized,
 {
     lexer: PeekingLexer<R>,
+    node_depth: usize,
     pub diagnostics: Vec<Diagnostic>,
     pub context: ParserContext,
 }
@@ -37,6 +42,7 @@ where
     pub fn new(lexer: Lexer<R>, context: ParserContext) -> Parser<R> {
         Parser {
             lexer: PeekingLexer::from(lexer),
+            node_depth: 0,
             diagnostics: vec![],
             context,
         }
@@ -52,6 +58,7 @@ impl Parser<ByteReader> {
         let lexer = Lexer::from_text(text, source);
         Parser {
             lexer: lexer.into(),
+            node_depth: 0,
             diagnostics: vec![],
             context,
         }
@@ -490,8 +497,22 @@ where
     }
 
     pub fn node_payload(&mut self) -> Result<NodePayload> {
+        let open_brace = self.lexer.expect(TokenKind::OpenBrace)?;
+        if self.node_depth == MAX_NODE_DEPTH {
+            return Err(Diagnostic::from_token(
+                open_brace,
+                ErrorCode::ParserError,
+                format!("Nodes may not be nested more than {MAX_NODE_DEPTH} levels deep"),
+            ));
+        }
+        self.node_depth += 1;
+        let payload = self.node_items();
+        self.node_depth -= 1;
+        payload
+    }
+
+    fn node_items(&mut self) -> Result<NodePayload> {
         let end: Token;
-        self.lexer.expect(TokenKind::OpenBrace)?;
         let mut items: Vec<NodeItem> = vec![];
         let mut node_discovered = false;
         loop {
-- 
2.43.0


From ee60b93a075880181c2cb892c1926e05dc5c0562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:38 +0000
Subject: [PATCH 13/39] fix: keep the diagnostics found before an unrecoverable
 error

---
 ginko/src/dts/project.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 3c8f1db..c95289e 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -260,8 +260,11 @@ impl Project {
                 );
             }
             Err(err) => {
-                self.files
-                    .insert(file_name, ProjectFile::unrecoverable(err, text, file_type));
+                let mut file = ProjectFile::unrecoverable(err, text, file_type);
+                // Keep what was found before the unrecoverable error
+                file.parser_diagnostics
+                    .splice(0..0, parser.diagnostics.drain(..));
+                self.files.insert(file_name, file);
             }
         };
     }
-- 
2.43.0


From ed5ab2eec009e6438a09ce3dafb5fae5e67a43eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:39 +0000
Subject: [PATCH 14/39] fix: report an include that does not exist only once

---
 ginko/src/dts/project.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index c95289e..c607464 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -270,12 +270,9 @@ impl Project {
     }
 
     fn parse_included_file(&mut self, diagnostics: &mut Vec<Diagnostic>, include: &Include) {
-        let canonicalized_path = match include.path() {
-            Ok(path) => path,
-            Err(err) => {
-                diagnostics.push(Diagnostic::io_error(include.span(), include.source(), err));
-                return;
-            }
+        // Unresolved paths are reported by the analysis
+        let Ok(canonicalized_path) = include.path() else {
+            return;
         };
         // Avoids duplicate insertion and cyclic dependencies
         if self.files.contains_key(&canonicalized_path) {
-- 
2.43.0


From a53d06ac81d4b41a016d506be074f9f419f275ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:22 +0000
Subject: [PATCH 15/39] fix: find a label after its node was re-opened without
 it

---
 ginko/src/dts/analysis.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ginko/src/dts/analysis.rs b/ginko/src/dts/analysis.rs
index bcfe7eb..5015764 100644
--- a/ginko/src/dts/analysis.rs
+++ b/ginko/src/dts/analysis.rs
@@ -36,6 +36,7 @@ impl Analysis {
 #[derive(Clone)]
 pub struct AnalysisContext {
     labels: HashMap<String, Labeled>,
+    label_paths: HashMap<String, Path>,
     flat_nodes: HashMap<Path, Arc<Node>>,
 }
 
@@ -68,6 +69,8 @@ pub struct FileContext<'a> {
     project: &'a Project,
     diagnostics: Vec<Diagnostic>,
     labels: HashMap<String, Labeled>,
+    /// The path of every labeled node
+    label_paths: HashMap<String, Path>,
     flat_nodes: HashMap<Path, Arc<Node>>,
     unresolved_references: Vec<WithToken<Reference>>,
     file_type: FileType,
@@ -81,10 +84,8 @@ impl FileContext<'_> {
         self.diagnostics.push(diagnostic);
     }
 
-    pub fn resolve_reference(&self, label: &String) -> Option<(&Path, &Arc<Node>)> {
-        self.flat_nodes
-            .iter()
-            .find(|(_, value)| value.label.as_ref().map(|node| node.item()) == Some(label))
+    pub fn resolve_reference(&self, label: &String) -> Option<&Path> {
+        self.label_paths.get(label)
     }
 }
 
@@ -94,6 +95,7 @@ impl FileContext<'_> {
             context: AnalysisContext {
                 flat_nodes: self.flat_nodes,
                 labels: self.labels,
+                label_paths: self.label_paths,
             },
             diagnostics: self.diagnostics,
         }
@@ -110,6 +112,7 @@ impl Analysis {
         let mut ctx = FileContext {
             file_type,
             labels: HashMap::default(),
+            label_paths: HashMap::default(),
             diagnostics: Vec::default(),
             flat_nodes: HashMap::default(),
             unresolved_references: Vec::default(),
@@ -204,6 +207,7 @@ impl Analysis {
         if let Some(context) = proj_file.context.as_ref() {
             ctx.flat_nodes.extend(context.flat_nodes.clone());
             ctx.labels.extend(context.labels.clone());
+            ctx.label_paths.extend(context.label_paths.clone());
         }
     }
 
@@ -237,7 +241,7 @@ impl Analysis {
                     self.unresolved_reference_error(ctx, reference.span(), reference.source());
                     Path::empty()
                 }
-                Some((path, _)) => path.clone(),
+                Some(path) => path.clone(),
             },
             Reference::Path(path) => {
                 if !ctx.flat_nodes.contains_key(path) {
@@ -282,6 +286,7 @@ impl Analysis {
         if let Some(label) = &node.label {
             ctx.labels
                 .insert(label.item().clone(), Labeled::Node(node.clone()));
+            ctx.label_paths.insert(label.item().clone(), path.clone());
         }
         ctx.flat_nodes.insert(path.clone(), node.clone());
         self.analyze_node_payload(ctx, &node.payload, path)
-- 
2.43.0


From 6825bf8aa7b4df5fd51818da4ffd4032de1c51bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:24 +0000
Subject: [PATCH 16/39] fix: define nodes added by extension under the extended
 node in includes, too

---
 ginko/src/dts/analysis.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ginko/src/dts/analysis.rs b/ginko/src/dts/analysis.rs
index 5015764..ab960e9 100644
--- a/ginko/src/dts/analysis.rs
+++ b/ginko/src/dts/analysis.rs
@@ -253,12 +253,8 @@ impl Analysis {
     }
 
     pub fn analyze_referenced_node(&mut self, ctx: &mut FileContext<'_>, node: &ReferencedNode) {
-        let path = if ctx.file_type == FileType::DtSource {
-            self.resolve_reference(ctx, &node.reference)
-        } else {
-            // This is an include; simply assume the 'root' path
-            Path::empty()
-        };
+        // References that cannot be resolved in an include are assumed at the 'root' path
+        let path = self.resolve_reference(ctx, &node.reference);
         self.analyze_node_payload(ctx, &node.payload, path);
     }
 
-- 
2.43.0


From 2e7b66836e7b5b7a1a6be0794cf0314e8959ae7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:50 +0000
Subject: [PATCH 17/39] fix: analyze included files before the files that
 include them, skipping those that could not be loaded

---
 ginko/src/dts/project.rs | 60 ++++++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index c607464..45330e3 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -7,7 +7,7 @@ use crate::dts::tokens::Lexer;
 use crate::dts::visitor::ItemAtCursor;
 use crate::dts::{Diagnostic, FileType, HasSpan, Parser, ParserContext, Position, Severity, Span};
 use itertools::Itertools;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::iter::empty;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
@@ -69,6 +69,13 @@ impl ProjectFile {
     pub fn source(&self) -> &String {
         &self.source
     }
+
+    fn includes(&self) -> impl Iterator<Item = &Include> {
+        self.file
+            .iter()
+            .flat_map(|file| &file.elements)
+            .filter_map(|primary| primary.as_include())
+    }
 }
 
 #[derive(Default)]
@@ -127,35 +134,34 @@ impl Project {
         }
     }
 
-    /// Computes the order in which files must be analyzed.
-    /// inefficient at the moment at O(n^3)
+    /// Computes the order in which files must be analyzed:
+    /// included files come before the files that include them.
     fn compute_key_order(&self) -> Vec<PathBuf> {
-        let mut map: HashMap<_, Vec<_>> = HashMap::new();
-        for (path, file) in &self.files {
-            let Some(dts_file) = &file.file else { continue };
-            map.entry(path.clone()).or_default();
-            let includes = dts_file
-                .elements
-                .iter()
-                .filter_map(|el| el.as_include())
-                .map(|incl| incl.path())
-                .collect_vec();
-            for include in includes.into_iter().flatten() {
-                map.entry(include).or_default().push(path.clone())
-            }
+        let mut order = Vec::new();
+        let mut visited = HashSet::new();
+        for path in self.files.keys().sorted() {
+            self.visit_includes_first(path, &mut visited, &mut order)
         }
-        // This is very inefficient. Probably there is a better way.
-        let mut current_order = self.files.keys().cloned().collect_vec();
-        for (key, value) in &map {
-            let key_idx = current_order.iter().position(|r| r == key).unwrap();
-            for v in value {
-                let value_idx = current_order.iter().position(|r| r == v).unwrap();
-                if key_idx > value_idx {
-                    current_order.swap(key_idx, value_idx)
-                }
-            }
+        order
+    }
+
+    fn visit_includes_first(
+        &self,
+        path: &Path,
+        visited: &mut HashSet<PathBuf>,
+        order: &mut Vec<PathBuf>,
+    ) {
+        // Included files that could not be loaded are not part of the project
+        let Some(file) = self.files.get(path) else {
+            return;
+        };
+        if !visited.insert(path.to_owned()) {
+            return;
+        }
+        for include in file.includes().filter_map(|incl| incl.path().ok()) {
+            self.visit_includes_first(&include, visited, order)
         }
-        current_order
+        order.push(path.to_owned())
     }
 
     pub fn remove_file(&mut self, path: &Path) {
-- 
2.43.0


From 814e0309e550db138908a1c707df2b5a572fc935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:52 +0000
Subject: [PATCH 18/39] fix: do not panic when adding a file that does not
 exist on disk

---
 ginko/src/dts/project.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 45330e3..62337e2 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -78,6 +78,12 @@ impl ProjectFile {
     }
 }
 
+/// The name under which a file is known to the project.
+/// Files that do not exist on disk (yet) go by the name that they were given.
+fn canonical_path(path: &Path) -> PathBuf {
+    dunce::canonicalize(path).unwrap_or_else(|_| path.to_owned())
+}
+
 #[derive(Default)]
 pub struct Project {
     files: HashMap<PathBuf, ProjectFile>,
@@ -109,11 +115,8 @@ impl Project {
     /// * file_name: The name of the file.
     /// * text: The contents of the file.
     /// * file_type: Defines how the file should be analyzed.
-    ///
-    /// # Panics
-    /// If `file_name` does not point to a valid file.
     pub fn add_file_with_text(&mut self, file_name: PathBuf, text: String, file_type: FileType) {
-        let file_name = dunce::canonicalize(file_name).expect("File must be present");
+        let file_name = canonical_path(&file_name);
         // First step: Parse file and all dependencies.
         // Dependencies are cached.
         self.parse_file(file_name.clone(), text, file_type);
@@ -165,9 +168,7 @@ impl Project {
     }
 
     pub fn remove_file(&mut self, path: &Path) {
-        if let Ok(path) = dunce::canonicalize(path) {
-            self.files.remove(&path);
-        }
+        self.files.remove(&canonical_path(path));
     }
 
     pub fn get_diagnostics(&self, path: &Path) -> Box<dyn Iterator<Item = &Diagnostic> + '_> {
@@ -296,10 +297,7 @@ impl Project {
     }
 
     pub fn get_file(&self, path: &Path) -> Option<&ProjectFile> {
-        match dunce::canonicalize(path) {
-            Ok(path) => self.files.get(&path),
-            Err(_) => None,
-        }
+        self.files.get(&canonical_path(path))
     }
 }
 
-- 
2.43.0


From c978b0a0a0bb207c76af2f5605c61a90c0fd2e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:48 +0000
Subject: [PATCH 19/39] fix: do not let closed files or earlier contents
 influence the results

---
 ginko/src/dts/project.rs | 40 +++++++++++++++++++++++++++++++++++++---
 ginko_ls/src/server.rs   | 15 +++++++++++----
 2 files changed, 48 insertions(+), 7 deletions(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 62337e2..1fecc2f 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -87,6 +87,8 @@ fn canonical_path(path: &Path) -> PathBuf {
 #[derive(Default)]
 pub struct Project {
     files: HashMap<PathBuf, ProjectFile>,
+    /// The files that were added explicitly and not because they are included by some other file
+    added: HashSet<PathBuf>,
     pub include_paths: Vec<PathBuf>,
     pub severities: SeverityMap,
 }
@@ -117,11 +119,22 @@ impl Project {
     /// * file_type: Defines how the file should be analyzed.
     pub fn add_file_with_text(&mut self, file_name: PathBuf, text: String, file_type: FileType) {
         let file_name = canonical_path(&file_name);
+        self.added.insert(file_name.clone());
         // First step: Parse file and all dependencies.
         // Dependencies are cached.
-        self.parse_file(file_name.clone(), text, file_type);
+        self.parse_file(file_name, text, file_type);
+        self.analyze_files();
+    }
 
+    fn analyze_files(&mut self) {
         let keys = self.compute_key_order();
+        // Files that are not included anymore no longer belong to the project
+        self.files.retain(|path, _| keys.contains(path));
+        // Do not use the results from previous contents
+        for file in self.files.values_mut() {
+            file.context = None;
+            file.analysis_diagnostics.clear();
+        }
 
         let mut analysis = Analysis::new();
         for key in &keys {
@@ -137,12 +150,29 @@ impl Project {
         }
     }
 
+    /// Parses and analyzes all added files again.
+    /// The files that they include are loaded anew.
+    fn reload(&mut self) {
+        let mut files = std::mem::take(&mut self.files);
+        let added = self.added.iter().sorted().cloned().collect_vec();
+        // Added files must not be loaded when another file includes them
+        for path in &added {
+            self.files.insert(path.clone(), ProjectFile::default());
+        }
+        for path in added {
+            if let Some(file) = files.remove(&path) {
+                self.parse_file(path, file.source, file.file_type);
+            }
+        }
+        self.analyze_files();
+    }
+
     /// Computes the order in which files must be analyzed:
     /// included files come before the files that include them.
     fn compute_key_order(&self) -> Vec<PathBuf> {
         let mut order = Vec::new();
         let mut visited = HashSet::new();
-        for path in self.files.keys().sorted() {
+        for path in self.added.iter().sorted() {
             self.visit_includes_first(path, &mut visited, &mut order)
         }
         order
@@ -167,8 +197,12 @@ impl Project {
         order.push(path.to_owned())
     }
 
+    /// Removes a file that was added before from the project.
+    /// If other files include it, it is read from disk from now on.
     pub fn remove_file(&mut self, path: &Path) {
-        self.files.remove(&canonical_path(path));
+        if self.added.remove(&canonical_path(path)) {
+            self.reload();
+        }
     }
 
     pub fn get_diagnostics(&self, path: &Path) -> Box<dyn Iterator<Item = &Diagnostic> + '_> {
diff --git a/ginko_ls/src/server.rs b/ginko_ls/src/server.rs
index 3847d81..dec0b45 100644
--- a/ginko_ls/src/server.rs
+++ b/ginko_ls/src/server.rs
@@ -6,6 +6,7 @@ use itertools::Itertools;
 use parking_lot::RwLock;
 use serde::{Deserialize, Serialize};
 use serde_json::Value;
+use std::collections::HashSet;
 use std::path::PathBuf;
 use tower_lsp::jsonrpc::Result;
 use tower_lsp::lsp_types::*;
@@ -15,6 +16,8 @@ use url::Url;
 pub(crate) struct Backend {
     client: Client,
     project: RwLock<Project>,
+    /// The files that diagnostics were last published for
+    published: RwLock<HashSet<PathBuf>>,
     severities: SeverityMap,
 }
 
@@ -23,6 +26,7 @@ impl Backend {
         Backend {
             client,
             project: RwLock::new(Project::default()),
+            published: RwLock::new(HashSet::new()),
             severities: SeverityMap::default(),
         }
     }
@@ -91,16 +95,18 @@ impl Backend {
             .read()
             .files()
             .map(|file| file.to_owned())
-            .collect_vec();
-        for file in file_paths {
+            .collect::<HashSet<_>>();
+        // Files that have left the project have no diagnostics anymore
+        let previous_paths = std::mem::replace(&mut *self.published.write(), file_paths.clone());
+        for file in file_paths.union(&previous_paths) {
             let diagnostics = self
                 .project
                 .read()
-                .get_diagnostics(&file)
+                .get_diagnostics(file)
                 .map(|diag| self.lsp_diag_from_diag(diag))
                 .collect_vec();
             self.client
-                .publish_diagnostics(Url::from_file_path(&file).unwrap(), diagnostics, None)
+                .publish_diagnostics(Url::from_file_path(file).unwrap(), diagnostics, None)
                 .await
         }
     }
@@ -171,6 +177,7 @@ impl LanguageServer for Backend {
             return;
         };
         self.project.write().remove_file(&file_path);
+        self.publish_diagnostics().await
     }
 
     async fn goto_definition(
-- 
2.43.0


From 9fe4c79b7b6d5aa035087bc181f3c935c0da0c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:50 +0000
Subject: [PATCH 20/39] fix: re-evaluate the files when the include paths
 change

---
 ginko/src/dts/project.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 1fecc2f..5e9e2b6 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -94,11 +94,14 @@ pub struct Project {
 }
 
 impl Project {
+    /// Sets the directories that includes are searched in
+    /// and re-evaluates the files that are already present.
     pub fn set_include_paths(&mut self, include_paths: Vec<String>) {
         self.include_paths = include_paths
             .iter()
             .map(|path| dunce::canonicalize(path).unwrap_or_default())
             .collect::<Vec<PathBuf>>();
+        self.reload();
     }
 
     pub fn add_file(&mut self, file_name: String) -> Result<(), io::Error> {
-- 
2.43.0


From 5aa807cd1602e76956c2d64e2225f76b6a0a5526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:51 +0000
Subject: [PATCH 21/39] fix: apply the last of several content changes and
 accept an empty list of them

---
 ginko_ls/src/server.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ginko_ls/src/server.rs b/ginko_ls/src/server.rs
index dec0b45..f24f09a 100644
--- a/ginko_ls/src/server.rs
+++ b/ginko_ls/src/server.rs
@@ -161,12 +161,14 @@ impl LanguageServer for Backend {
         let Some(file_path) = self.url_to_file_path(params.text_document.uri).await else {
             return;
         };
+        // With full text synchronization, the last change contains the current text
+        let Some(change) = params.content_changes.into_iter().last() else {
+            return;
+        };
         let file_type = FileType::from(file_path.as_path());
-        self.project.write().add_file_with_text(
-            file_path.clone(),
-            params.content_changes.into_iter().next().unwrap().text,
-            file_type,
-        );
+        self.project
+            .write()
+            .add_file_with_text(file_path.clone(), change.text, file_type);
         self.publish_diagnostics().await
     }
 
-- 
2.43.0


From d4836e742087ff6ae84718c405139fe1ee308975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:15 +0000
Subject: [PATCH 22/39] fix: do not silently accept a label or /omit-if-no-ref/
 before a closing brace

---
 ginko/src/dts/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index 36aa96c..af24c1e 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -547,7 +547,7 @@ where
             };
             let ident = match &tok.kind {
                 TokenKind::Ident(string) => WithToken::new(string.clone(), tok),
-                TokenKind::CloseBrace => {
+                TokenKind::CloseBrace if label.is_none() && omit_if_no_ref.is_none() => {
                     end = self.expect_semicolon()?.unwrap_or(tok.clone());
                     break;
                 }
-- 
2.43.0


From a4f16715f850a451d8a68badbaecde1785928c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:44 +0000
Subject: [PATCH 23/39] fix: accept 64-bit numbers in /bits/ 64 cells

---
 ginko/src/dts/ast.rs    |  2 +-
 ginko/src/dts/parser.rs | 14 ++++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/ginko/src/dts/ast.rs b/ginko/src/dts/ast.rs
index a46cfcb..ac91d40 100644
--- a/ginko/src/dts/ast.rs
+++ b/ginko/src/dts/ast.rs
@@ -191,7 +191,7 @@ impl Display for Reference {
 
 #[derive(Eq, PartialEq, Debug)]
 pub enum Cell {
-    Number(WithToken<u32>),
+    Number(WithToken<u64>),
     Reference(WithToken<Reference>),
     Expression,
 }
diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index af24c1e..2896ac2 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -220,7 +220,7 @@ where
                     num.parse::<u32>()
                 };
                 match num {
-                    Ok(num) => Ok(Cell::Number(WithToken::new(num, tok))),
+                    Ok(num) => Ok(Cell::Number(WithToken::new(num.into(), tok))),
                     Err(err) => {
                         self.diagnostics.push(Diagnostic::parse_int_error(
                             tok.span(),
@@ -254,6 +254,14 @@ where
         }
     }
 
+    fn cell(&mut self, is_64_bit: bool) -> Result<Cell> {
+        if is_64_bit && matches!(self.lexer.peek_kind(), Some(TokenKind::UnparsedNumber(_))) {
+            Ok(Cell::Number(self.memreserve_number_u64()?))
+        } else {
+            self.number_u32()
+        }
+    }
+
     fn memreserve_number_u64(&mut self) -> Result<WithToken<u64>> {
         let tok = self.lexer.expect_next()?;
         match &tok.kind {
@@ -372,6 +380,7 @@ where
     }
 
     pub fn property_value(&mut self) -> Result<PropertyValue> {
+        let mut is_64_bit = false;
         if matches!(
             self.lexer.peek(),
             Some(Token {
@@ -381,6 +390,7 @@ where
         ) {
             self.skip_tok();
             let width = self.lexer.expect_next()?;
+            is_64_bit = width.kind == TokenKind::UnparsedNumber("64".to_string());
             if !matches!(width.kind, TokenKind::UnparsedNumber(_)) {
                 self.diagnostics.push(Diagnostic::expected(
                     width.span(),
@@ -404,7 +414,7 @@ where
                         break;
                     }
 
-                    match self.number_u32() {
+                    match self.cell(is_64_bit) {
                         Ok(numb) => cells.push(numb),
                         Err(err) => self.diagnostics.push(err),
                     }
-- 
2.43.0


From f5b657e3d334365676a2793c765cb19f13fbaae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:45 +0000
Subject: [PATCH 24/39] fix: print trees as valid source that keeps all of
 their content

---
 ginko/src/dts/ast.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/ginko/src/dts/ast.rs b/ginko/src/dts/ast.rs
index ac91d40..06f6fe7 100644
--- a/ginko/src/dts/ast.rs
+++ b/ginko/src/dts/ast.rs
@@ -206,6 +206,11 @@ impl Display for Cell {
     }
 }
 
+/// Escapes the characters that have a special meaning inside of strings
+fn escape_string(string: &str) -> String {
+    string.replace('\\', "\\\\").replace('"', "\\\"")
+}
+
 // LRM 2.2.4 Property Values
 #[derive(Eq, PartialEq, Debug)]
 pub enum PropertyValue {
@@ -241,7 +246,7 @@ impl Display for PropertyValue {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match &self {
             PropertyValue::String(string) => {
-                write!(f, "\"{string}\"")
+                write!(f, "\"{}\"", escape_string(string))
             }
             PropertyValue::Cells(_, numbers, _) => {
                 write!(f, "<")?;
@@ -258,7 +263,7 @@ impl Display for PropertyValue {
                 write!(f, "[")?;
                 for (i, numbers) in strings.iter().enumerate() {
                     for num in &numbers.item {
-                        write!(f, "{num:2x}")?;
+                        write!(f, "{num:02x}")?;
                     }
                     if i != strings.len() - 1 {
                         write!(f, " ")?;
@@ -322,6 +327,9 @@ impl Property {
 
 impl Display for Property {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        if let Some(label) = &self.label {
+            write!(f, "{}: ", label.item)?;
+        }
         if self.values.is_empty() {
             writeln!(f, "{};", self.name)
         } else {
@@ -358,9 +366,9 @@ impl Display for NodeItem {
         match self {
             NodeItem::Property(property) => write!(f, "{}", property),
             NodeItem::Node(node) => write!(f, "{}", node),
-            NodeItem::DeletedNode(_, node_name) => write!(f, "/delete-node/ {}", node_name),
+            NodeItem::DeletedNode(_, node_name) => write!(f, "/delete-node/ {};", node_name),
             NodeItem::DeletedProperty(_, property_name) => {
-                write!(f, "/delete-property/ {}", property_name)
+                write!(f, "/delete-property/ {};", property_name)
             }
         }
     }
@@ -395,6 +403,9 @@ impl HasSpan for Node {
 
 impl Display for Node {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        if self.omit_if_no_ref.is_some() {
+            write!(f, "/omit-if-no-ref/ ")?;
+        }
         if let Some(label) = &self.label {
             write!(f, "{}: ", label.item)?;
         }
@@ -466,7 +477,7 @@ impl HasSource for Include {
 
 impl Display for Include {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-        write!(f, "/include/ \"{}\"", self.file_name)
+        write!(f, "/include/ \"{}\"", escape_string(&self.file_name))
     }
 }
 
@@ -499,7 +510,7 @@ impl Display for AnyDirective {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match self {
             AnyDirective::DtsHeader(_) => write!(f, "/dts-v1/;"),
-            AnyDirective::Memreserve(memreserve) => write!(f, "{memreserve};"),
+            AnyDirective::Memreserve(memreserve) => write!(f, "{memreserve}"),
             AnyDirective::Include(include) => write!(f, "{include}"),
             AnyDirective::Plugin(_) => write!(f, "/plugin/;"),
             AnyDirective::DeletedNode(_, reference) => write!(f, "/delete-node/ {reference};"),
@@ -550,7 +561,9 @@ impl Display for Primary {
             Primary::Directive(directive) => write!(f, "{directive}"),
             Primary::Root(node) => write!(f, "{node}"),
             Primary::ReferencedNode(node) => write!(f, "{node}"),
-            Primary::CStyleInclude(include) => write!(f, "#include {include}"),
+            Primary::CStyleInclude(include) => {
+                write!(f, "#include \"{}\"", escape_string(include))
+            }
         }
     }
 }
-- 
2.43.0


From 83e12ae77267889e343a59a46df2b9aa19f180bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:47 +0000
Subject: [PATCH 25/39] fix: accept references to labels that start with an
 underscore

---
 ginko/src/dts/tokens/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index 76cc6cb..57220db 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -108,7 +108,7 @@ where
                     source: self.source(),
                 })
             }
-            b'a'..=b'z' | b'A'..=b'Z' => {
+            b'a'..=b'z' | b'A'..=b'Z' | b'_' => {
                 let label = self
                     .read_while(|ch| matches!(ch, b'0'..=b'9' | b'a'..=b'z' | b'A'..=b'Z' | b'_'));
                 let str = String::from_utf8(label).unwrap();
-- 
2.43.0


From 7e518e7a11ae77a897eb1caf99b698dfac65bc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:02 +0000
Subject: [PATCH 26/39] Hook: expose the AST types when built with --cfg
 ginko_verif

---
 ginko/src/dts/mod.rs | 6 ++++++
 ginko/src/lib.rs     | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/ginko/src/dts/mod.rs b/ginko/src/dts/mod.rs
index 0ea2ce3..af24302 100644
--- a/ginko/src/dts/mod.rs
+++ b/ginko/src/dts/mod.rs
@@ -13,7 +13,13 @@ mod test;
 mod tokens;
 mod visitor;
 
+// Only used for the verification of this crate.
 pub use ast::{AnyDirective, Node, NodeItem, NodePayload, Primary};
+#[cfg(ginko_verif)]
+pub use ast::{
+    Cell, DtsFile, Include, Memreserve, NodeName, Path as NodePath, Property, PropertyValue,
+    Reference, ReferencedNode, WithToken,
+};
 pub use data::{FileType, HasSpan, Position, Span};
 pub use diagnostics::{Diagnostic, DiagnosticPrinter, Severity};
 pub use error_codes::{ErrorCode, SeverityMap};
diff --git a/ginko/src/lib.rs b/ginko/src/lib.rs
index 664d030..437d452 100644
--- a/ginko/src/lib.rs
+++ b/ginko/src/lib.rs
@@ -1,2 +1,4 @@
+// `ginko_verif` is not known to cargo
+#![allow(unexpected_cfgs)]
 #![warn(rust_2018_idioms)]
 pub mod dts;
-- 
2.43.0


From 419b828505908f9cab0352088b86aa9f131bfada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:39 +0000
Subject: [PATCH 27/39] fix: report what stands in the place of a number of
 /memreserve/ at its own position

---
 ginko/src/dts/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index 2896ac2..ee1a418 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -288,8 +288,8 @@ where
                 }
             }
             _ => Err(Diagnostic::expected(
-                self.lexer.last_pos().offset_by_char(1).as_span(),
-                self.lexer.source(),
+                tok.span(),
+                tok.source(),
                 &[TokenKind::UnparsedNumber("".to_string())],
             )),
         }
-- 
2.43.0


From ddb57c46787f78ef21494cdc2f634fa8fe8b73d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:31 +0000
Subject: [PATCH 28/39] fix: check the names of labels inside values

---
 ginko/src/dts/parser.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index ee1a418..ffd190c 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -453,13 +453,13 @@ where
     }
 
     fn skip_optional_label(&mut self) {
-        if matches!(
-            self.lexer.peek(),
-            Some(Token {
-                kind: TokenKind::Label(_),
-                ..
-            })
-        ) {
+        if let Some(Token {
+            kind: TokenKind::Label(label),
+            span,
+            ..
+        }) = self.lexer.peek().cloned()
+        {
+            self.check_is_label(span, &label);
             self.skip_tok();
         }
     }
-- 
2.43.0


From 392777a5231a2c34ff8880062e5f69bea3f62ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:16 +0000
Subject: [PATCH 29/39] fix: place errors of unit addresses after non-ASCII
 node names

---
 ginko/src/dts/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index ffd190c..6f2e235 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -147,7 +147,7 @@ where
             NameContext::NodeName,
         );
         if let Some(unit_address) = &name.unit_address {
-            let offset = name.name.len() + '@'.len_utf8();
+            let offset = name.name.encode_utf16().count() + '@'.len_utf16();
             self.check_ident(
                 Span::new(span.start().offset_by_char(offset as i32), span.end()),
                 unit_address.as_str(),
-- 
2.43.0


From ff49571fe0b39212821925df0f1797fd636d8adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:17 +0000
Subject: [PATCH 30/39] fix: report a /dts-v1/ header that follows a
 /delete-node/ directive as misplaced

---
 ginko/src/dts/analysis.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ginko/src/dts/analysis.rs b/ginko/src/dts/analysis.rs
index ab960e9..3631e91 100644
--- a/ginko/src/dts/analysis.rs
+++ b/ginko/src/dts/analysis.rs
@@ -148,6 +148,7 @@ impl Analysis {
                     }
                     AnyDirective::OmitIfNoRef(..) => ctx.first_non_include = true,
                     AnyDirective::DeletedNode(_, reference) => {
+                        ctx.first_non_include = true;
                         self.resolve_reference(&mut ctx, reference);
                     }
                 },
-- 
2.43.0


From 71e573cf9ecce0d1075c2f89c8d273078539c245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:59 +0000
Subject: [PATCH 31/39] fix: do not search the working directory in place of a
 missing include directory

---
 ginko/src/dts/project.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 5e9e2b6..5aee180 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -99,7 +99,7 @@ impl Project {
     pub fn set_include_paths(&mut self, include_paths: Vec<String>) {
         self.include_paths = include_paths
             .iter()
-            .map(|path| dunce::canonicalize(path).unwrap_or_default())
+            .filter_map(|path| dunce::canonicalize(path).ok())
             .collect::<Vec<PathBuf>>();
         self.reload();
     }
-- 
2.43.0


From f2ae6e0d2537bd815b095a8744deb6feec2d3d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:00 +0000
Subject: [PATCH 32/39] fix: report unresolved references of /omit-if-no-ref/
 directives

---
 ginko/src/dts/analysis.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ginko/src/dts/analysis.rs b/ginko/src/dts/analysis.rs
index 3631e91..b38b51e 100644
--- a/ginko/src/dts/analysis.rs
+++ b/ginko/src/dts/analysis.rs
@@ -146,8 +146,8 @@ impl Analysis {
                         ctx.first_non_include = true;
                         ctx.is_plugin = true
                     }
-                    AnyDirective::OmitIfNoRef(..) => ctx.first_non_include = true,
-                    AnyDirective::DeletedNode(_, reference) => {
+                    AnyDirective::OmitIfNoRef(_, reference)
+                    | AnyDirective::DeletedNode(_, reference) => {
                         ctx.first_non_include = true;
                         self.resolve_reference(&mut ctx, reference);
                     }
-- 
2.43.0


From 15ee3db9e43fd53ef7b1667470e8549e9a0504e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:47 +0000
Subject: [PATCH 33/39] fix: do not keep reporting an unreadable include after
 the file was opened

---
 ginko/src/dts/analysis.rs |  4 ++++
 ginko/src/dts/project.rs  | 17 ++++++-----------
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/ginko/src/dts/analysis.rs b/ginko/src/dts/analysis.rs
index b38b51e..e133490 100644
--- a/ginko/src/dts/analysis.rs
+++ b/ginko/src/dts/analysis.rs
@@ -195,6 +195,10 @@ impl Analysis {
             return;
         }
         let Some(proj_file) = ctx.project.get_file(&path) else {
+            // Only files that cannot be read are not part of the project
+            if let Err(err) = std::fs::read_to_string(&path) {
+                ctx.add_diagnostic(Diagnostic::io_error(include.span(), include.source(), err));
+            }
             return;
         };
         if proj_file.has_errors(&ctx.project.severities) {
diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 5aee180..a8e9fdd 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -297,7 +297,7 @@ impl Project {
                 file.elements
                     .iter()
                     .filter_map(|primary| primary.as_include())
-                    .for_each(|include| self.parse_included_file(&mut parser.diagnostics, include));
+                    .for_each(|include| self.parse_included_file(include));
                 self.files.insert(
                     file_name,
                     ProjectFile::parsed(parser.diagnostics, file, file_type, text),
@@ -313,8 +313,8 @@ impl Project {
         };
     }
 
-    fn parse_included_file(&mut self, diagnostics: &mut Vec<Diagnostic>, include: &Include) {
-        // Unresolved paths are reported by the analysis
+    fn parse_included_file(&mut self, include: &Include) {
+        // Unresolved paths and unreadable files are reported by the analysis
         let Ok(canonicalized_path) = include.path() else {
             return;
         };
@@ -322,14 +322,9 @@ impl Project {
         if self.files.contains_key(&canonicalized_path) {
             return;
         }
-        match fs::read_to_string(&canonicalized_path) {
-            Ok(text) => {
-                let typ = FileType::from(canonicalized_path.as_path());
-                self.parse_file(canonicalized_path, text, typ);
-            }
-            Err(err) => {
-                diagnostics.push(Diagnostic::io_error(include.span(), include.source(), err))
-            }
+        if let Ok(text) = fs::read_to_string(&canonicalized_path) {
+            let typ = FileType::from(canonicalized_path.as_path());
+            self.parse_file(canonicalized_path, text, typ);
         }
     }
 
-- 
2.43.0


From fdace94ecaa155f274da5952df42faa5baa38841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:49 +0000
Subject: [PATCH 34/39] fix: report the same include cycle on every run

---
 ginko/src/dts/import_guard.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ginko/src/dts/import_guard.rs b/ginko/src/dts/import_guard.rs
index d830ff3..75b7cb9 100644
--- a/ginko/src/dts/import_guard.rs
+++ b/ginko/src/dts/import_guard.rs
@@ -25,7 +25,9 @@ pub struct ImportGuard<V>
 where
     V: Hash + Eq + Clone,
 {
-    nodes: HashMap<V, HashSet<V>>,
+    /// The dependencies of all nodes, in the order that they were added in,
+    /// so that the reported cycle is always the same
+    nodes: HashMap<V, Vec<V>>,
     back_track: HashMap<V, HashSet<V>>,
 }
 
@@ -41,10 +43,12 @@ where
     /// * `element` The node that contains dependencies
     /// * `dependencies` The dependencies of the element.
     pub fn add(&mut self, element: V, dependencies: &[V]) -> Result<(), CyclicDependencyError<V>> {
-        self.nodes
-            .entry(element.clone())
-            .or_default()
-            .extend(dependencies.iter().cloned());
+        let known = self.nodes.entry(element.clone()).or_default();
+        for dependency in dependencies {
+            if !known.contains(dependency) {
+                known.push(dependency.clone());
+            }
+        }
         for dependency in dependencies {
             self.back_track
                 .entry(dependency.clone())
-- 
2.43.0


From 0f45de5a1f1b2e911f2aa6634c86d52f468d6e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:00 +0000
Subject: [PATCH 35/39] fix: do not overflow the stack with long chains of
 includes

---
 ginko/src/dts/project.rs | 100 ++++++++++++++++++++++++---------------
 1 file changed, 61 insertions(+), 39 deletions(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index a8e9fdd..c71e26e 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -132,7 +132,8 @@ impl Project {
     fn analyze_files(&mut self) {
         let keys = self.compute_key_order();
         // Files that are not included anymore no longer belong to the project
-        self.files.retain(|path, _| keys.contains(path));
+        let known = keys.iter().collect::<HashSet<_>>();
+        self.files.retain(|path, _| known.contains(path));
         // Do not use the results from previous contents
         for file in self.files.values_mut() {
             file.context = None;
@@ -187,17 +188,35 @@ impl Project {
         visited: &mut HashSet<PathBuf>,
         order: &mut Vec<PathBuf>,
     ) {
-        // Included files that could not be loaded are not part of the project
-        let Some(file) = self.files.get(path) else {
-            return;
-        };
-        if !visited.insert(path.to_owned()) {
-            return;
+        // Chains of includes can be long, so that this keeps its own stack instead of recursing.
+        // Files are left once the files that they include were visited.
+        enum Step {
+            Enter(PathBuf),
+            Leave(PathBuf),
         }
-        for include in file.includes().filter_map(|incl| incl.path().ok()) {
-            self.visit_includes_first(&include, visited, order)
+        let mut steps = vec![Step::Enter(path.to_owned())];
+        while let Some(step) = steps.pop() {
+            let path = match step {
+                Step::Enter(path) => path,
+                Step::Leave(path) => {
+                    order.push(path);
+                    continue;
+                }
+            };
+            // Included files that could not be loaded are not part of the project
+            let Some(file) = self.files.get(&path) else {
+                continue;
+            };
+            if !visited.insert(path.clone()) {
+                continue;
+            }
+            steps.push(Step::Leave(path));
+            let includes = file
+                .includes()
+                .filter_map(|incl| incl.path().ok())
+                .collect_vec();
+            steps.extend(includes.into_iter().rev().map(Step::Enter));
         }
-        order.push(path.to_owned())
     }
 
     /// Removes a file that was added before from the project.
@@ -281,7 +300,29 @@ impl Project {
         }
     }
 
+    /// Parses a file and the files that it includes, unless they are already present.
     fn parse_file(&mut self, file_name: PathBuf, text: String, file_type: FileType) {
+        let mut includes = self.parse_single_file(file_name, text, file_type);
+        while let Some(path) = includes.pop() {
+            // Avoids duplicate insertion and cyclic dependencies
+            if self.files.contains_key(&path) {
+                continue;
+            }
+            // Files that cannot be read are reported by the analysis
+            if let Ok(text) = fs::read_to_string(&path) {
+                let typ = FileType::from(path.as_path());
+                includes.extend(self.parse_single_file(path, text, typ));
+            }
+        }
+    }
+
+    /// Parses one file and returns the paths of the files that it includes.
+    fn parse_single_file(
+        &mut self,
+        file_name: PathBuf,
+        text: String,
+        file_type: FileType,
+    ) -> Vec<PathBuf> {
         let reader = ByteReader::from_string(text.clone());
         let lexer = Lexer::new(reader, file_name.clone().into());
         // add the file's directory to the include paths to allow local includes
@@ -290,42 +331,23 @@ impl Project {
             include_paths.insert(0, parent.into());
         }
         let mut parser = Parser::new(lexer, ParserContext { include_paths });
-        match parser.file() {
-            Ok(file) => {
-                // insert dummy file to be defined so that no cyclic dependency can occur.
-                self.files.insert(file_name.clone(), ProjectFile::default());
-                file.elements
-                    .iter()
-                    .filter_map(|primary| primary.as_include())
-                    .for_each(|include| self.parse_included_file(include));
-                self.files.insert(
-                    file_name,
-                    ProjectFile::parsed(parser.diagnostics, file, file_type, text),
-                );
-            }
+        let file = match parser.file() {
+            Ok(file) => ProjectFile::parsed(parser.diagnostics, file, file_type, text),
             Err(err) => {
                 let mut file = ProjectFile::unrecoverable(err, text, file_type);
                 // Keep what was found before the unrecoverable error
                 file.parser_diagnostics
                     .splice(0..0, parser.diagnostics.drain(..));
-                self.files.insert(file_name, file);
+                file
             }
         };
-    }
-
-    fn parse_included_file(&mut self, include: &Include) {
-        // Unresolved paths and unreadable files are reported by the analysis
-        let Ok(canonicalized_path) = include.path() else {
-            return;
-        };
-        // Avoids duplicate insertion and cyclic dependencies
-        if self.files.contains_key(&canonicalized_path) {
-            return;
-        }
-        if let Ok(text) = fs::read_to_string(&canonicalized_path) {
-            let typ = FileType::from(canonicalized_path.as_path());
-            self.parse_file(canonicalized_path, text, typ);
-        }
+        // Unresolved paths are reported by the analysis
+        let includes = file
+            .includes()
+            .filter_map(|include| include.path().ok())
+            .collect();
+        self.files.insert(file_name, file);
+        includes
     }
 
     pub fn get_file(&self, path: &Path) -> Option<&ProjectFile> {
-- 
2.43.0


From cabf7b6e1ac4eebd90448736d05ba0d6bad1764e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:54 +0000
Subject: [PATCH 36/39] fix: use the include paths given on the command line of
 the language server

The option -i/--include was parsed, but the paths were never searched.
---
 ginko_ls/src/main.rs   |  5 +++--
 ginko_ls/src/server.rs | 15 ++++++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/ginko_ls/src/main.rs b/ginko_ls/src/main.rs
index c63f730..ceb38cd 100644
--- a/ginko_ls/src/main.rs
+++ b/ginko_ls/src/main.rs
@@ -12,7 +12,7 @@ struct Args {
 
 #[tokio::main]
 pub async fn main() {
-    Args::parse();
+    let args = Args::parse();
     // Log to stderr instead of stdout since communication with the language server client
     // happens through stdout
     tracing_subscriber::fmt()
@@ -21,6 +21,7 @@ pub async fn main() {
 
     let (stdin, stdout) = (tokio::io::stdin(), tokio::io::stdout());
 
-    let (service, socket) = LspService::new(server::Backend::new);
+    let includes = args.include.unwrap_or_default();
+    let (service, socket) = LspService::new(|client| server::Backend::new(client, includes));
     Server::new(stdin, stdout, socket).serve(service).await;
 }
diff --git a/ginko_ls/src/server.rs b/ginko_ls/src/server.rs
index f24f09a..0e0c8a5 100644
--- a/ginko_ls/src/server.rs
+++ b/ginko_ls/src/server.rs
@@ -15,6 +15,8 @@ use url::Url;
 
 pub(crate) struct Backend {
     client: Client,
+    /// Include paths from the command line, searched in addition to the configured ones
+    includes: Vec<String>,
     project: RwLock<Project>,
     /// The files that diagnostics were last published for
     published: RwLock<HashSet<PathBuf>>,
@@ -22,9 +24,10 @@ pub(crate) struct Backend {
 }
 
 impl Backend {
-    pub fn new(client: Client) -> Backend {
+    pub fn new(client: Client, includes: Vec<String>) -> Backend {
         Backend {
             client,
+            includes,
             project: RwLock::new(Project::default()),
             published: RwLock::new(HashSet::new()),
             severities: SeverityMap::default(),
@@ -74,6 +77,12 @@ impl Backend {
         }
     }
 
+    fn configure(&self, config: ProjectConfig) {
+        let mut includes = self.includes.clone();
+        includes.extend(config.includes);
+        self.project.write().set_include_paths(includes);
+    }
+
     async fn url_to_file_path(&self, url: Url) -> Option<PathBuf> {
         match url.to_file_path() {
             Ok(path) => Some(path),
@@ -116,7 +125,7 @@ impl Backend {
 impl LanguageServer for Backend {
     async fn initialize(&self, params: InitializeParams) -> Result<InitializeResult> {
         let config = ProjectConfig::from_value(params.initialization_options.unwrap_or_default());
-        self.project.write().set_include_paths(config.includes);
+        self.configure(config);
 
         Ok(InitializeResult {
             server_info: None,
@@ -134,7 +143,7 @@ impl LanguageServer for Backend {
 
     async fn did_change_configuration(&self, params: DidChangeConfigurationParams) {
         let config = ProjectConfig::from_value(params.settings);
-        self.project.write().set_include_paths(config.includes);
+        self.configure(config);
         self.publish_diagnostics().await
     }
 
-- 
2.43.0


From d4a362e50475e8c3abb8046e7358c8948bcbcffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:42 +0000
Subject: [PATCH 37/39] fix: do not report balanced parentheses at the end of
 the file as unbalanced

---
 ginko/src/dts/parser.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index 6f2e235..8a202b1 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -232,8 +232,7 @@ where
                 }
             }
             TokenKind::OpenParen => {
-                self.skip_expression_starting_with_paren();
-                if self.lexer.peek().is_none() {
+                if !self.skip_expression_starting_with_paren() {
                     self.diagnostics.push(Diagnostic::from_token(
                         tok,
                         ErrorCode::UnbalancedParentheses,
@@ -346,7 +345,8 @@ where
         }
     }
 
-    fn skip_expression_starting_with_paren(&mut self) {
+    /// Skips the expression, and returns whether it is closed before the end of the file
+    fn skip_expression_starting_with_paren(&mut self) -> bool {
         let mut depth = 1;
         loop {
             let peeked = self.lexer.peek();
@@ -369,10 +369,10 @@ where
                 depth -= 1;
                 self.skip_tok();
                 if depth == 0 {
-                    return;
+                    return true;
                 }
             } else if peeked.is_none() {
-                return;
+                return false;
             } else {
                 self.skip_tok();
             }
-- 
2.43.0


From a78ba90d0ee3a33d9a297cdfe40a4c69a3136cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:36 +0000
Subject: [PATCH 38/39] fix: read the width after /bits/ like other numbers

---
 ginko/src/dts/parser.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index 8a202b1..a3cb5bb 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -389,14 +389,9 @@ where
             })
         ) {
             self.skip_tok();
-            let width = self.lexer.expect_next()?;
-            is_64_bit = width.kind == TokenKind::UnparsedNumber("64".to_string());
-            if !matches!(width.kind, TokenKind::UnparsedNumber(_)) {
-                self.diagnostics.push(Diagnostic::expected(
-                    width.span(),
-                    width.source(),
-                    &[TokenKind::UnparsedNumber("".to_string())],
-                ))
+            match self.memreserve_number_u64() {
+                Ok(width) => is_64_bit = *width == 64,
+                Err(err) => self.diagnostics.push(err),
             }
         }
         let tok = self.lexer.expect_next()?;
-- 
2.43.0


From 8f1715af3d9d3c43b73eb18bcca1fbe2f0aed7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:11 +0000
Subject: [PATCH 39/39] fix: go-to-definition of an include leads to a place
 within the included file

---
 ginko_ls/src/server.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ginko_ls/src/server.rs b/ginko_ls/src/server.rs
index 0e0c8a5..50c24a5 100644
--- a/ginko_ls/src/server.rs
+++ b/ginko_ls/src/server.rs
@@ -224,7 +224,8 @@ impl LanguageServer for Backend {
                 {
                     Some(url) => Ok(Some(GotoDefinitionResponse::Scalar(Location::new(
                         url,
-                        ginko_span_to_range(include.span()),
+                        // The start of the included file
+                        Range::default(),
                     )))),
                     _ => Ok(None),
                 }
-- 
2.43.0

