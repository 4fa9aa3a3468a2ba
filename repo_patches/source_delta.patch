From 9bec7d7ae344dd89682d20f74ceca03ddc17a35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:11 +0000
Subject: [PATCH 01/44] fix: locations of heredoc bodies

String content of a heredoc that is followed by an interpolation included
the first byte of the interpolation, content of a raw heredoc included its
terminator, content of a heredoc preceded by another one on the same line
included the body of the other one, and content with CRLF line endings lost
its last byte.
---
 src/lexer/parse_heredoc.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index 92f2391..14ce68e 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -129,10 +129,16 @@ impl Lexer {
         let func = here.func;
         let indent = here.func & STR_FUNC_INDENT;
 
+        let prev_line = self.buffer.lastline;
         let mut c = self.nextc();
         if c.is_eof() {
             return self.here_document_error(&here, eos, len);
         }
+        if self.buffer.lastline != prev_line {
+            // previous heredocs that start on the same line
+            // can be located between the line and the body
+            self.lval_start = Some(self.buffer.pbeg);
+        }
         let bol = self.buffer.was_bol();
         if !bol {
             /* not beginning of line, cannot be the terminator */
@@ -207,7 +213,7 @@ impl Lexer {
                         .expect("failed to get heredoc id for comparison"),
                     indent,
                 ) {
-                    self.lval_end = Some(self.buffer.pend - 1);
+                    self.lval_end = Some(self.buffer.pbeg);
                     heredoc_end = self.compute_heredoc_end();
                     break;
                 }
@@ -240,7 +246,7 @@ impl Lexer {
                         return self.here_document_restore(&here);
                     }
                 }
-                self.lval_end = Some(self.buffer.pcur + 1);
+                self.lval_end = Some(self.buffer.pcur);
                 if c != b'\n' {
                     if c == b'\\' {
                         self.buffer.heredoc_line_indent = -1
@@ -249,6 +255,7 @@ impl Lexer {
                 }
                 let cc = self.nextc();
                 self.tokadd(cc);
+                self.lval_end = Some(self.buffer.pcur);
                 if self.buffer.heredoc_indent > 0 {
                     self.buffer.goto_eol();
                     return self.heredoc_flush();
-- 
2.43.0


From 5a8eab818073f613578e7377d988c7feaf347513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:11 +0000
Subject: [PATCH 02/44] fix: normalize CRLF in raw heredocs

---
 src/lexer/parse_heredoc.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index 14ce68e..074fbfb 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -169,6 +169,8 @@ impl Lexer {
                                 || self.buffer.input.unchecked_byte_at(ptr_end - 1) != b'\r'
                             {
                                 ptr_end += 1;
+                            } else {
+                                ptr_end -= 1;
                             }
                         }
                         b'\r' => {
-- 
2.43.0


From da2e6c67aed7922c08a18f48731c6506f2f21094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:11 +0000
Subject: [PATCH 03/44] fix: don't dedent text that follows interpolation in
 squiggly heredoc

---
 src/builder.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 34faa6e..fa069ce 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -457,6 +457,10 @@ impl Builder {
             .expect("dedent_level must be positive");
 
         let dedent_heredoc_parts = |parts: Vec<Node>| -> Vec<Node> {
+            // Only the beginning of the line is dedented,
+            // text that follows an interpolation is not
+            let mut after_interpolation = false;
+
             parts
                 .into_iter()
                 .filter_map(|part| match part {
@@ -466,7 +470,11 @@ impl Builder {
                         end_l,
                         expression_l,
                     }) => {
-                        let value = Self::dedent_string(value, dedent_level);
+                        let value = if std::mem::take(&mut after_interpolation) {
+                            value
+                        } else {
+                            Self::dedent_string(value, dedent_level)
+                        };
                         if value.is_empty() {
                             None
                         } else {
@@ -483,7 +491,10 @@ impl Builder {
                     | Node::BackRef(_)
                     | Node::NthRef(_)
                     | Node::Ivar(_)
-                    | Node::Cvar(_) => Some(part),
+                    | Node::Cvar(_) => {
+                        after_interpolation = true;
+                        Some(part)
+                    }
                     other => {
                         unreachable!("unsupported heredoc child {}", other.str_type())
                     }
-- 
2.43.0


From a2f750fa9b7538f4dbb47cc205158ad6bb737aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:11 +0000
Subject: [PATCH 04/44] fix: respect tabs while dedenting squiggly heredoc

---
 src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index fa069ce..57289f8 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -552,7 +552,7 @@ impl Builder {
                 col += 1;
             } else if s[i] == b'\t' {
                 let n = Self::TAB_WIDTH * (col / Self::TAB_WIDTH + 1);
-                if n > Self::TAB_WIDTH {
+                if n > width {
                     break;
                 }
                 col = n;
-- 
2.43.0


From b40b7ebcf597b064cac50371a416342b6d1a5c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:56 +0000
Subject: [PATCH 05/44] fix: don't panic on arguments with non-ASCII names

---
 src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 57289f8..d3e2801 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -3896,7 +3896,7 @@ impl Builder {
     }
 
     pub(crate) fn arg_name_collides(&self, this_name: &str, that_name: &str) -> bool {
-        &this_name[0..1] != "_" && this_name == that_name
+        !this_name.starts_with('_') && this_name == that_name
     }
 
     pub(crate) fn check_lvar_name(&self, name: &str, loc: &Loc) -> Result<(), ()> {
-- 
2.43.0


From 68bd140c46a76fac31ae79e8679af4721ea87c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:56 +0000
Subject: [PATCH 06/44] fix: treat `{_foo:}` as a local variable/method call,
 not a constant

---
 src/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index d3e2801..8e389d9 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -820,11 +820,11 @@ impl Builder {
         let value_l = key_l.adjust_end(-1);
 
         let label = value(key_t.clone());
-        let value = if label
+        let value = if !label
             .chars()
             .next()
             .expect("bug: label can't be empty")
-            .is_lowercase()
+            .is_uppercase()
         {
             Box::new(Node::Lvar(Lvar {
                 name: label,
-- 
2.43.0


From 0ff8f184d0b272f67b60596d9b53d71a77d4093d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:56 +0000
Subject: [PATCH 07/44] fix: allow any non-ASCII local variable name as a key
 of the hash pattern

---
 src/builder.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 8e389d9..10884bc 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -3906,7 +3906,13 @@ impl Builder {
             .expect("local variable name can't be empty");
         let mut rest = all_chars;
 
-        if (first.is_lowercase() || first == '_') && rest.all(|c| c.is_alphanumeric() || c == '_') {
+        let is_identchar = |c: char| c.is_ascii_alphanumeric() || c == '_' || !c.is_ascii();
+
+        if is_identchar(first)
+            && !first.is_ascii_digit()
+            && !first.is_uppercase()
+            && rest.all(is_identchar)
+        {
             Ok(())
         } else {
             self.error(DiagnosticMessage::KeyMustBeValidAsLocalVariable {}, loc);
-- 
2.43.0


From 0eca9b4443620eb0d05370c03aaf82554e1780bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:56 +0000
Subject: [PATCH 08/44] fix: always emit two hex digits for control/meta
 escapes in regexps

---
 src/lexer/parse_string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/parse_string.rs b/src/lexer/parse_string.rs
index ed83777..5138831 100644
--- a/src/lexer/parse_string.rs
+++ b/src/lexer/parse_string.rs
@@ -324,7 +324,7 @@ impl Lexer {
                                     c = self.read_escape(0);
 
                                     let mut escbuf = [0_u8; 5];
-                                    write!(&mut escbuf[..], "\\x{:X}", c.expect("bug")).unwrap();
+                                    write!(&mut escbuf[..], "\\x{:02X}", c.expect("bug")).unwrap();
                                     for byte in escbuf.iter().take(4) {
                                         self.tokadd(MaybeByte::Some(*byte));
                                     }
-- 
2.43.0


From 00e13817ea1756d27a9d60f017af9dc0ab8af571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:56 +0000
Subject: [PATCH 09/44] fix: `\8` and `\9` are not octal escapes

---
 src/lexer/parse_string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/parse_string.rs b/src/lexer/parse_string.rs
index 5138831..bdffd43 100644
--- a/src/lexer/parse_string.rs
+++ b/src/lexer/parse_string.rs
@@ -663,7 +663,7 @@ impl Lexer {
             Some(b'e') => MaybeByte::new(0x1b_u8),
 
             Some(b'0') | Some(b'1') | Some(b'2') | Some(b'3') | Some(b'4') | Some(b'5')
-            | Some(b'6') | Some(b'7') | Some(b'8') | Some(b'9') => {
+            | Some(b'6') | Some(b'7') => {
                 self.buffer.pushback(c);
                 let c = self.scan_oct(self.buffer.pcur, 3, &mut numlen);
                 self.buffer.pcur += numlen;
-- 
2.43.0


From b4afa8e5a9362b7bfc0c46be76ea30bf9328865b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:56 +0000
Subject: [PATCH 10/44] fix: don't duplicate escaped multibyte characters in
 raw strings

---
 src/lexer/parse_string.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lexer/parse_string.rs b/src/lexer/parse_string.rs
index bdffd43..bddb65b 100644
--- a/src/lexer/parse_string.rs
+++ b/src/lexer/parse_string.rs
@@ -314,6 +314,7 @@ impl Lexer {
                         if !c.is_ascii() && (func & STR_FUNC_EXPAND) == 0 {
                             self.tokadd(b'\\');
                             self.tokadd(c);
+                            continue;
                         }
                         if (func & STR_FUNC_REGEXP) != 0 {
                             match c {
-- 
2.43.0


From 6fe3d4c56c260c0ae86a976ede2536b4d3feb671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:31 +0000
Subject: [PATCH 11/44] fix: suggest an escaped character in "invalid character
 syntax" warning, not its code

---
 src/lexer/parse_string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/parse_string.rs b/src/lexer/parse_string.rs
index bddb65b..6ba9552 100644
--- a/src/lexer/parse_string.rs
+++ b/src/lexer/parse_string.rs
@@ -773,7 +773,7 @@ impl Lexer {
     pub(crate) fn warn_space_char(&mut self, c: u8, prefix: &'static str) {
         self.warn(
             DiagnosticMessage::InvalidCharacterSyntax {
-                suggestion: format!("{}\\{}", prefix, c),
+                suggestion: format!("{}\\{}", prefix, c as char),
             },
             self.current_loc(),
         )
-- 
2.43.0


From 25f1762c0c39d0be9d03a0bc7d9326809a98e493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:27 +0000
Subject: [PATCH 12/44] fix: don't swallow trailing `e` of a number at the end
 of input

---
 src/lexer/parse_numeric.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/parse_numeric.rs b/src/lexer/parse_numeric.rs
index 477cb3c..ad10163 100644
--- a/src/lexer/parse_numeric.rs
+++ b/src/lexer/parse_numeric.rs
@@ -232,7 +232,7 @@ impl Lexer {
                     c = self.nextc();
                     if c != b'-' && c != b'+' && !c.is_digit() {
                         self.buffer.pushback(c);
-                        nondigit = None;
+                        c = nondigit.take().expect("nondigit must be set");
                         return self.decode_num(c, nondigit, is_float, seen_e);
                     }
                     self.tokadd(nondigit.expect("nondigit must be set"));
-- 
2.43.0


From d010f573bb77804b1c2936ff9760b7fbdd2897fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:48 +0000
Subject: [PATCH 13/44] fix: keep the sign in front of the leading zero of a
 number (+0x1f, +017)

---
 src/lexer/parse_numeric.rs | 10 ++--------
 src/token_buf.rs           |  6 ------
 2 files changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/lexer/parse_numeric.rs b/src/lexer/parse_numeric.rs
index ad10163..a2dc235 100644
--- a/src/lexer/parse_numeric.rs
+++ b/src/lexer/parse_numeric.rs
@@ -26,6 +26,7 @@ impl Lexer {
             c = self.nextc();
         }
         if c == b'0' {
+            self.tokadd(c);
             let start = self.toklen();
             c = self.nextc();
             if c == b'x' || c == b'X' {
@@ -67,7 +68,6 @@ impl Lexer {
                 }
                 suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
                 let mut tok = self.tokenbuf.take();
-                tok.prepend(b"0");
                 return self.set_integer_literal(&mut tok, suffix);
             }
             if c == b'b' || c == b'B' {
@@ -109,7 +109,6 @@ impl Lexer {
                 }
                 suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
                 let mut tok = self.tokenbuf.take();
-                tok.prepend(b"0");
                 return self.set_integer_literal(&mut tok, suffix);
             }
             if c == b'd' || c == b'D' {
@@ -151,7 +150,6 @@ impl Lexer {
                 }
                 suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
                 let mut tok = self.tokenbuf.take();
-                tok.prepend(b"0");
                 return self.set_integer_literal(&mut tok, suffix);
             }
             if c == b'_' {
@@ -178,14 +176,11 @@ impl Lexer {
             }
             if c > b'7' && c <= b'9' {
                 self.invalid_octal();
-            } else if c == b'.' || c == b'e' || c == b'E' {
-                self.tokadd(b'0');
-            } else {
+            } else if c != b'.' && c != b'e' && c != b'E' {
                 self.buffer.pushback(c);
                 suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
 
                 let mut tok = self.tokenbuf.take();
-                tok.push(b'0');
                 return self.set_integer_literal(&mut tok, suffix);
             }
         }
@@ -304,7 +299,6 @@ impl Lexer {
             }
             let suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
             let mut tok = self.tokenbuf.take();
-            tok.prepend(b"0");
             return Some(self.set_integer_literal(&mut tok, suffix));
         }
         if let Some(MaybeByte::Some(byte)) = nondigit {
diff --git a/src/token_buf.rs b/src/token_buf.rs
index b8f7159..a6bab32 100644
--- a/src/token_buf.rs
+++ b/src/token_buf.rs
@@ -26,12 +26,6 @@ impl TokenBuf {
         }
     }
 
-    pub(crate) fn prepend(&mut self, part: &[u8]) {
-        let mut tmp = part.to_vec();
-        tmp.extend(self.bytes.as_raw().iter());
-        self.bytes.set_raw(tmp);
-    }
-
     pub(crate) fn borrow_string(&self) -> Result<&str, &[u8]> {
         match std::str::from_utf8(self.bytes.as_raw()) {
             Ok(s) => Ok(s),
-- 
2.43.0


From 4242f78cd39fd11ac2a44b941505cf3c70c3b43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:03 +0000
Subject: [PATCH 14/44] fix: whitespace-only lines don't contribute to
 indentation of the next line of squiggly heredoc

---
 src/lexer/parse_heredoc.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index 074fbfb..92fb81b 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -391,6 +391,9 @@ impl Lexer {
                 self.buffer.heredoc_indent = self.buffer.heredoc_line_indent
             }
             self.buffer.heredoc_line_indent = -1;
+        } else {
+            // Whitespace-only line has no indentation
+            self.buffer.heredoc_line_indent = 0;
         }
         true
     }
-- 
2.43.0


From cbc9f01107ea7bd5600bf2b2a4ebbb0b119fcba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:16 +0000
Subject: [PATCH 15/44] fix: allow caseless non-ASCII names of keyword
 arguments

---
 src/parser/parse.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/parse.y b/src/parser/parse.y
index e889a9c..18d5f1c 100644
--- a/src/parser/parse.y
+++ b/src/parser/parse.y
@@ -7025,7 +7025,7 @@ impl Parser {
     fn check_kwarg_name(&self, ident_t: &Token) -> Result<(), ()> {
         let name = clone_value(ident_t);
         let first_char = name.as_str().chars().next().expect("kwarg name can't be empty");
-        if first_char.is_lowercase() || first_char == '_' {
+        if !first_char.is_uppercase() {
             Ok(())
         } else {
             let loc = ident_t.loc;
-- 
2.43.0


From ca053fd6d6ce86eee858fbe80553d1c8aad55b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:06 +0000
Subject: [PATCH 16/44] fix: keep parentheses that are the only statement of
 begin..end

---
 src/builder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 10884bc..bedbacf 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -3150,7 +3150,12 @@ impl Builder {
         if let Some(body) = body {
             let body = *body;
             match body {
-                Node::Begin(Begin { statements, .. }) => {
+                Node::Begin(Begin {
+                    statements,
+                    begin_l: None,
+                    end_l: None,
+                    ..
+                }) => {
                     // Synthesized (begin) from compstmt "a; b".
                     Box::new(Node::KwBegin(KwBegin {
                         statements,
-- 
2.43.0


From 9a2225fd1538dabe8bcf30bf6b9b15a0813e2fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:16 +0000
Subject: [PATCH 17/44] fix: keep the source when decoding fails

Otherwise 'ParserResult::input' is empty and the error that is reported
for the magic comment can't be rendered.
---
 src/source/decoded_input.rs | 4 ----
 src/source/input.rs         | 2 +-
 2 files changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/source/decoded_input.rs b/src/source/decoded_input.rs
index 2889130..9beca55 100644
--- a/src/source/decoded_input.rs
+++ b/src/source/decoded_input.rs
@@ -31,10 +31,6 @@ impl DecodedInput {
         self.bytes
     }
 
-    pub(crate) fn take_bytes(&mut self) -> Vec<u8> {
-        std::mem::take(&mut self.bytes)
-    }
-
     /// Populates `Input` with a given byte array
     pub fn update_bytes(&mut self, bytes: Vec<u8>) {
         let mut line = SourceLine {
diff --git a/src/source/input.rs b/src/source/input.rs
index a124351..8eac8eb 100644
--- a/src/source/input.rs
+++ b/src/source/input.rs
@@ -64,7 +64,7 @@ impl Input {
 
     pub(crate) fn set_encoding(&mut self, encoding: &str) -> Result<(), InputError> {
         let new_input = decode_input(
-            self.decoded.take_bytes(),
+            self.decoded.bytes.clone(),
             String::from(encoding),
             &mut self.decoder,
         )
-- 
2.43.0


From 054a5e13855fdf9dab22153910dc2e75c2603328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:37 +0000
Subject: [PATCH 18/44] fix: don't panic if decoder shortens the line with the
 magic comment

---
 src/source/buffer.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/source/buffer.rs b/src/source/buffer.rs
index 7cd46c5..c953a21 100644
--- a/src/source/buffer.rs
+++ b/src/source/buffer.rs
@@ -323,7 +323,17 @@ impl Buffer {
     }
 
     pub(crate) fn set_encoding(&mut self, encoding: &str) -> Result<(), InputError> {
-        self.input.set_encoding(encoding)
+        self.input.set_encoding(encoding)?;
+        // Decoded line with the magic comment may have different length
+        if self.lastline < self.input.lines_count() {
+            self.pend = self.input.line_at(self.lastline).end;
+        } else {
+            self.pend = self.input.len();
+        }
+        self.pcur = std::cmp::min(self.pcur, self.pend);
+        self.pbeg = std::cmp::min(self.pbeg, self.pend);
+        self.ptok = std::cmp::min(self.ptok, self.pend);
+        Ok(())
     }
 }
 
-- 
2.43.0


From 5087759ff4731211dfd9dc05acc1df62c75ae76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:54 +0000
Subject: [PATCH 19/44] fix: don't dereference null pointer in a standalone
 Lexer

`Lexer::new(..).tokenize_until_eof()` had no pool to allocate tokens from.
---
 src/lexer/main.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lexer/main.rs b/src/lexer/main.rs
index eda131d..f39e5e7 100644
--- a/src/lexer/main.rs
+++ b/src/lexer/main.rs
@@ -1,4 +1,4 @@
-use alloc_from_pool::{Factory as PoolFactory, PoolValue};
+use alloc_from_pool::{Factory as PoolFactory, Pool, PoolValue};
 
 use crate::lexer::*;
 use crate::maybe_byte::*;
@@ -82,6 +82,9 @@ pub struct Lexer {
 
     #[doc(hidden)]
     pub tokens_factory: PoolFactory<Token>,
+
+    // default source of tokens, keeps Lexer usable without Parser
+    _tokens_pool: Pool<Token>,
 }
 
 impl Lexer {
@@ -97,7 +100,11 @@ impl Lexer {
         Bytes: Into<Vec<u8>>,
         Name: Into<String>,
     {
+        let tokens_pool = Pool::new();
+
         Self {
+            tokens_factory: tokens_pool.factory(),
+            _tokens_pool: tokens_pool,
             cond: StackState::new("cond"),
             cmdarg: StackState::new("cmdarg"),
             lpar_beg: -1, /* make lambda_beginning_p() == FALSE at first */
-- 
2.43.0


From bfab891ac78e1e223b1dab7c605d8f513bb2f835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:29 +0000
Subject: [PATCH 20/44] fix: don't panic on empty keys of the hash pattern

---
 src/builder.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index bedbacf..93ce274 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -3905,23 +3905,24 @@ impl Builder {
     }
 
     pub(crate) fn check_lvar_name(&self, name: &str, loc: &Loc) -> Result<(), ()> {
-        let mut all_chars = name.chars();
-        let first = all_chars
-            .next()
-            .expect("local variable name can't be empty");
-        let mut rest = all_chars;
+        let mut rest = name.chars();
+        let first = rest.next();
 
         let is_identchar = |c: char| c.is_ascii_alphanumeric() || c == '_' || !c.is_ascii();
 
-        if is_identchar(first)
-            && !first.is_ascii_digit()
-            && !first.is_uppercase()
-            && rest.all(is_identchar)
-        {
-            Ok(())
-        } else {
-            self.error(DiagnosticMessage::KeyMustBeValidAsLocalVariable {}, loc);
-            Err(())
+        match first {
+            Some(first)
+                if is_identchar(first)
+                    && !first.is_ascii_digit()
+                    && !first.is_uppercase()
+                    && rest.all(is_identchar) =>
+            {
+                Ok(())
+            }
+            _ => {
+                self.error(DiagnosticMessage::KeyMustBeValidAsLocalVariable {}, loc);
+                Err(())
+            }
         }
     }
 
-- 
2.43.0


From f9fe1caf5d78b7c4dbcea57930538e95bc9641fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:29 +0000
Subject: [PATCH 21/44] fix: don't panic on a string after squiggly heredoc in
 invalid code

---
 src/builder.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 93ce274..c7e6312 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -531,9 +531,8 @@ impl Builder {
                     expression_l,
                 }))
             }
-            _ => {
-                unreachable!("unsupported heredoc_dedent argument {}", node.str_type())
-            }
+            // a string after a heredoc that has been dropped by error recovery
+            other => Box::new(other),
         }
     }
 
-- 
2.43.0


From 5f731ca4067b0284534aa79cf3f6e32caae71d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:29 +0000
Subject: [PATCH 22/44] fix: location of the missing terminator of unterminated
 heredoc

---
 src/lexer/parse_heredoc.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index 92fb81b..9df3928 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -328,6 +328,9 @@ impl Lexer {
             self.current_loc(),
         );
         self.token_flush();
+        // there's no terminator, point to the end of the opening identifier
+        self.lval_start = None;
+        self.lval_end = None;
         self.strterm = None;
         self.lex_state.set(EXPR_END);
         Self::tSTRING_END
-- 
2.43.0


From 7652e011f0f74213176f59573d9dae5fc3c5aafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:09 +0000
Subject: [PATCH 23/44] fix: don't panic on a second block given to a command
 in invalid code

---
 src/builder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index c7e6312..0a2f182 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -2237,6 +2237,11 @@ impl Builder {
                     expression_l,
                 })
             }
+            // a second block, can be given only during error recovery
+            Node::Block(Block { expression_l, .. }) | Node::Numblock(Numblock { expression_l, .. }) => {
+                self.error(DiagnosticMessage::BlockAndBlockArgGiven {}, &expression_l);
+                return Err(());
+            }
             other => {
                 unreachable!("unsupported method call {:?}", other)
             }
-- 
2.43.0


From 16adc4bf3b26e5678857919d49a6d7efcb24ec5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:43 +0000
Subject: [PATCH 24/44] fix: locations of unterminated regexp

---
 src/builder.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 0a2f182..316c83a 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -568,8 +568,8 @@ impl Builder {
     // Regular expressions
 
     pub(crate) fn regexp_options(&self, regexp_end_t: PoolValue<Token>) -> Option<Box<Node>> {
-        if regexp_end_t.loc.end - regexp_end_t.loc.begin == 1 {
-            // no regexp options, only trailing "/"
+        if regexp_end_t.loc.end - regexp_end_t.loc.begin <= 1 {
+            // no regexp options, only trailing "/" (or nothing if regexp is unterminated)
             return None;
         }
         let expression_l = self.loc(&regexp_end_t).adjust_begin(1);
@@ -597,7 +597,8 @@ impl Builder {
         options: Option<Box<Node>>,
     ) -> Box<Node> {
         let begin_l = self.loc(&begin_t);
-        let end_l = self.loc(&end_t).resize(1);
+        let end_l = self.loc(&end_t);
+        let end_l = end_l.resize(std::cmp::min(end_l.size(), 1));
         let expression_l =
             begin_l.join(&maybe_boxed_node_expr(&options).unwrap_or_else(|| self.loc(&end_t)));
 
-- 
2.43.0


From 4799443b99c88fd8f62a78c5a421cb5114c4a3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:43 +0000
Subject: [PATCH 25/44] fix: treat carriage return in the middle of the line as
 a space

---
 src/lexer/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lexer/main.rs b/src/lexer/main.rs
index f39e5e7..45bce46 100644
--- a/src/lexer/main.rs
+++ b/src/lexer/main.rs
@@ -232,6 +232,8 @@ impl Lexer {
                             self.current_loc(),
                         );
                     }
+                    space_seen = true;
+                    continue 'retrying;
                 }
 
                 Some(b' ') | Some(b'\t') | Some(Self::LF_CHAR) | Some(Self::VTAB_CHAR) => {
-- 
2.43.0


From d4bddba5256ce969c51438ee56404c6a3291a990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:43 +0000
Subject: [PATCH 26/44] fix: reject `$-` without a name instead of treating it
 as a string

---
 src/lexer/parse_gvar.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lexer/parse_gvar.rs b/src/lexer/parse_gvar.rs
index bad12eb..3a05edb 100644
--- a/src/lexer/parse_gvar.rs
+++ b/src/lexer/parse_gvar.rs
@@ -54,8 +54,7 @@ impl Lexer {
                     if self.tokadd_mbchar(c).is_err() { return Self::END_OF_INPUT }
                 } else {
                     self.buffer.pushback(c);
-                    self.buffer.pushback(b'-');
-                    return Self::tCHAR;
+                    self.compile_error(DiagnosticMessage::InvalidGvarName { c: b'-' }, self.current_loc());
                 }
                 return Self::tGVAR;
             },
-- 
2.43.0


From ac37335a93e4186e703c4818d8266e972b2622fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:43 +0000
Subject: [PATCH 27/44] fix: location of invalid character literal at the end
 of input

---
 src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 316c83a..e937c73 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -308,7 +308,7 @@ impl Builder {
     pub(crate) fn character(&self, mut char_t: PoolValue<Token>) -> Box<Node> {
         let str_loc = self.loc(&char_t);
 
-        let begin_l = Some(str_loc.with_end(str_loc.begin + 1));
+        let begin_l = Some(str_loc.resize(std::cmp::min(str_loc.size(), 1)));
         let end_l = None;
         let expression_l = str_loc;
 
-- 
2.43.0


From 0444f9f062203165744b5c36753ff132cea42b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:29 +0000
Subject: [PATCH 28/44] fix: location of character literals with unicode
 escapes

---
 src/lexer/parse_qmark.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lexer/parse_qmark.rs b/src/lexer/parse_qmark.rs
index 35bb1d6..bfef2d4 100644
--- a/src/lexer/parse_qmark.rs
+++ b/src/lexer/parse_qmark.rs
@@ -71,6 +71,8 @@ impl Lexer {
         } else if c == b'\\' {
             if self.buffer.peek(b'u') {
                 self.nextc();
+                // tokadd_utf8 flushes the token, but it starts at '?'
+                self.lval_start = Some(self.buffer.ptok);
                 self.tokadd_utf8(None, 0, 0);
             } else if !self.buffer.is_eol() && !self.char_at(self.buffer.pcur).is_ascii() {
                 c = self.char_at(self.buffer.pcur);
-- 
2.43.0


From ea9a7c4100f628fbfc4d606e968765b000fd2287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:19 +0000
Subject: [PATCH 29/44] fix: treat regexps and ranges in the condition of
 ternary operator as in other conditions

---
 src/builder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/builder.rs b/src/builder.rs
index e937c73..64cbf04 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -2611,6 +2611,7 @@ impl Builder {
         colon_t: PoolValue<Token>,
         if_false: Box<Node>,
     ) -> Box<Node> {
+        let cond = Self::check_condition(cond);
         let expression_l = join_exprs(&cond, &if_false);
         let question_l = self.loc(&question_t);
         let colon_l = self.loc(&colon_t);
-- 
2.43.0


From 3726bece612acdc808c63b34f8fd524917e72621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:45 +0000
Subject: [PATCH 30/44] fix: don't lose bytes that are pushed back at the end
 of input

---
 src/source/buffer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/source/buffer.rs b/src/source/buffer.rs
index c953a21..7302e68 100644
--- a/src/source/buffer.rs
+++ b/src/source/buffer.rs
@@ -309,7 +309,9 @@ impl Buffer {
         self.pbeg = self.input.line_at(self.lastline).start;
         self.pend = self.pbeg + self.input.line_at(self.lastline).len();
         self.pcur = self.pend;
+        let eofp = self.eofp;
         self.pushback(1);
+        self.eofp = eofp;
         self.set_ptok(self.pcur);
     }
 
@@ -343,6 +345,8 @@ pub(crate) trait Pushback<T> {
 
 impl Pushback<u8> for Buffer {
     fn pushback(&mut self, c: u8) {
+        // there's at least one byte to read again
+        self.eofp = false;
         self.pcur -= 1;
         if self.pcur > self.pbeg
             && self.byte_at(self.pcur) == b'\n'
-- 
2.43.0


From 2eff5bfd6c2243b41084f67f83d67eabea8dbc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:45 +0000
Subject: [PATCH 31/44] fix: don't stop at a comment with bytes that are not
 valid UTF-8

---
 src/lexer/parse_magic_comment.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lexer/parse_magic_comment.rs b/src/lexer/parse_magic_comment.rs
index 537d21e..aa142ca 100644
--- a/src/lexer/parse_magic_comment.rs
+++ b/src/lexer/parse_magic_comment.rs
@@ -306,13 +306,12 @@ impl Lexer {
             }
 
             let n = end - beg;
-            name = String::from_utf8(
+            name = String::from_utf8_lossy(
                 self.buffer
                     .substr_at(beg, beg + n)
-                    .expect("failed to get magic comment name")
-                    .to_vec(),
+                    .expect("failed to get magic comment name"),
             )
-            .map_err(|_| ())?;
+            .into_owned();
 
             let name_to_compare = name.replace('-', "_");
             for (name, kind) in MAGIC_COMMENTS.iter() {
-- 
2.43.0


From 0d4ce68e7739639adbfba973fdfbcbdcc7b4176b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:53 +0000
Subject: [PATCH 32/44] fix: heredocs on the first line of a file with BOM

---
 src/lexer/parse_heredoc.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index 9df3928..4c2af23 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -14,7 +14,9 @@ impl Lexer {
          * term_len is length of `<<"END"` except `END`,
          * in this case term_len is 4 (<, <, " and ").
          */
-        let mut offset = self.buffer.pcur - self.buffer.pbeg;
+        // `pbeg` of the first line is after BOM, so it can't be used here
+        let line_start = self.buffer.input.line_at(self.buffer.lastline).start;
+        let mut offset = self.buffer.pcur - line_start;
         let mut c = self.nextc();
         let term;
         let mut func = 0;
@@ -83,7 +85,7 @@ impl Lexer {
             self.buffer.pushback(c);
         }
 
-        let len = self.buffer.pcur - (self.buffer.pbeg + offset) - quote;
+        let len = self.buffer.pcur - (line_start + offset) - quote;
 
         let id = self
             .buffer
-- 
2.43.0


From 58dff31d017af35fcdfaff61389a029eef95e68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:41 +0000
Subject: [PATCH 33/44] fix: names of magic comments are case-insensitive

---
 src/lexer/parse_magic_comment.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/parse_magic_comment.rs b/src/lexer/parse_magic_comment.rs
index aa142ca..f037bc7 100644
--- a/src/lexer/parse_magic_comment.rs
+++ b/src/lexer/parse_magic_comment.rs
@@ -315,7 +315,7 @@ impl Lexer {
 
             let name_to_compare = name.replace('-', "_");
             for (name, kind) in MAGIC_COMMENTS.iter() {
-                if &name_to_compare == name {
+                if name_to_compare.eq_ignore_ascii_case(name) {
                     if kind == &MagicCommentKind::Encoding && self.comment_at_top() {
                         let encoding = match String::from_utf8(
                             self.buffer
-- 
2.43.0


From 1d3c926d9943eef1fae68b529b4c3194c2bad9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:16 +0000
Subject: [PATCH 34/44] fix: locations of invalid unicode escapes at the end of
 input

---
 src/lexer/parse_string.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lexer/parse_string.rs b/src/lexer/parse_string.rs
index 6ba9552..f6a2b34 100644
--- a/src/lexer/parse_string.rs
+++ b/src/lexer/parse_string.rs
@@ -379,9 +379,10 @@ impl Lexer {
 
     fn tokadd_utf8_unterminated(&mut self) {
         self.token_flush();
+        let end = std::cmp::min(self.buffer.pcur + 1, self.buffer.input.len());
         self.yyerror1(
             DiagnosticMessage::UnterminatedUnicodeEscape {},
-            self.loc(self.buffer.ptok, self.buffer.pcur + 1),
+            self.loc(self.buffer.ptok, end),
         );
     }
 
@@ -462,9 +463,10 @@ impl Lexer {
         } else {
             numlen < 4
         } {
+            let end = std::cmp::min(self.buffer.pcur + 1, self.buffer.input.len());
             self.yyerror1(
                 DiagnosticMessage::InvalidUnicodeEscape {},
-                self.loc(self.buffer.pcur, self.buffer.pcur + 1),
+                self.loc(self.buffer.pcur, end),
             );
             return wide && numlen > 0;
         }
-- 
2.43.0


From f35569a286606638832d365c9a1c1c45970e803a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:40 +0000
Subject: [PATCH 35/44] fix: numbered parameters and blocks don't leak into
 classes and methods defined in a block

---
 src/builder.rs            | 3 ++-
 src/max_numparam_stack.rs | 4 ++++
 src/parser/parse.y        | 3 ++-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 64cbf04..610986a 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -4269,7 +4269,8 @@ impl Builder {
             [b'_', n]
                 if (b'1'..=b'9').contains(&n)
                     && !self.static_env.is_declared(name)
-                    && self.context.is_in_dynamic_block() =>
+                    && self.context.is_in_dynamic_block()
+                    && !self.max_numparam_stack.is_in_static_scope() =>
             {
                 if true {
                     /* definitely an implicit param */
diff --git a/src/max_numparam_stack.rs b/src/max_numparam_stack.rs
index cd36938..86a51a4 100644
--- a/src/max_numparam_stack.rs
+++ b/src/max_numparam_stack.rs
@@ -56,6 +56,10 @@ impl MaxNumparamStack {
         })
     }
 
+    pub(crate) fn is_in_static_scope(&self) -> bool {
+        matches!(self.stack.borrow().last(), Some(item) if item.is_static)
+    }
+
     pub(crate) fn pop(&self) {
         self.stack.borrow_mut().pop();
     }
diff --git a/src/parser/parse.y b/src/parser/parse.y
index 18d5f1c..4d74f59 100644
--- a/src/parser/parse.y
+++ b/src/parser/parse.y
@@ -3590,7 +3590,8 @@ use crate::Loc;
 
         k_return: kRETURN
                     {
-                        if self.context.in_class() && !self.context.in_def() && !(self.context.in_block() || self.context.in_lambda()) {
+                        let in_block = self.context.is_in_dynamic_block() && !self.max_numparam_stack.is_in_static_scope();
+                        if self.context.in_class() && !self.context.in_def() && !in_block {
                             return self.yyerror(@1, DiagnosticMessage::InvalidReturnInClassOrModuleBody {});
                         }
                         $$ = $1;
-- 
2.43.0


From 03ceb495ec488dea9fecf39b81d7d9f9210555d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:03 +0000
Subject: [PATCH 36/44] fix: reject numbered parameters as rest and hash
 variables of patterns

---
 src/builder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 610986a..0419777 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -3312,6 +3312,8 @@ impl Builder {
 
         self.check_lvar_name(name.as_str(), &name_l)?;
         self.check_duplicate_pattern_variable(name.as_str(), &name_l)?;
+        self.check_assignment_to_numparam(name.as_str(), &name_l)?;
+        self.check_reserved_for_numparam(name.as_str(), &name_l)?;
         self.static_env.declare(name.as_str());
 
         Ok(Box::new(Node::MatchVar(MatchVar {
@@ -3329,6 +3331,8 @@ impl Builder {
 
         self.check_lvar_name(name.as_str(), &name_l)?;
         self.check_duplicate_pattern_variable(name.as_str(), &name_l)?;
+        self.check_assignment_to_numparam(name.as_str(), &name_l)?;
+        self.check_reserved_for_numparam(name.as_str(), &name_l)?;
         self.static_env.declare(name.as_str());
 
         Ok(Box::new(Node::MatchVar(MatchVar {
@@ -3364,6 +3368,8 @@ impl Builder {
 
                 self.check_lvar_name(name.as_str(), &name_l)?;
                 self.check_duplicate_pattern_variable(name.as_str(), &name_l)?;
+                self.check_assignment_to_numparam(name.as_str(), &name_l)?;
+                self.check_reserved_for_numparam(name.as_str(), &name_l)?;
 
                 self.static_env.declare(name.as_str());
 
-- 
2.43.0


From 220eab06940011ae57f433baf85a1351077dec3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:52 +0000
Subject: [PATCH 37/44] fix: no warning for a symbol passed as a block (foo
 &:sym)

---
 src/lexer/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/main.rs b/src/lexer/main.rs
index 45bce46..a91d88a 100644
--- a/src/lexer/main.rs
+++ b/src/lexer/main.rs
@@ -603,7 +603,7 @@ impl Lexer {
                         if c != b':'
                             || {
                                 c = self.buffer.peekc_n(1);
-                                !c.is_eof()
+                                c.is_eof()
                             }
                             || !(c == b'\''
                                 || c == b'"'
-- 
2.43.0


From 4a666ec4860d47c5d760f329147756147581cd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:52 +0000
Subject: [PATCH 38/44] fix: the ambiguous operator warning names the operator
 %, not %%

---
 src/lexer/parse_percent.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/parse_percent.rs b/src/lexer/parse_percent.rs
index 49ccaf8..e663045 100644
--- a/src/lexer/parse_percent.rs
+++ b/src/lexer/parse_percent.rs
@@ -145,7 +145,7 @@ impl Lexer {
         self.buffer.pushback(c);
         self.warn_balanced(
             Self::tPERCENT,
-            "%%",
+            "%",
             "string literal",
             c,
             space_seen,
-- 
2.43.0


From 44be3b43ba1a4a4d6782b469f874460811d320ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:12 +0000
Subject: [PATCH 39/44] fix: repeated regexp keys with options are reported as
 duplicates

---
 src/builder.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 0419777..767e38c 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -925,8 +925,16 @@ impl Builder {
                                 options: options2,
                                 ..
                             }),
-                        ) if options1 == options2 => {
-                            parts1.len() == parts2.len()
+                        ) => {
+                            fn letters(options: &Option<Box<Node>>) -> Option<&String> {
+                                match options.as_deref() {
+                                    Some(Node::RegOpt(RegOpt { options, .. })) => options.as_ref(),
+                                    _ => None,
+                                }
+                            }
+
+                            letters(options1) == letters(options2)
+                                && parts1.len() == parts2.len()
                                 && parts1
                                     .iter()
                                     .zip(parts2.iter())
-- 
2.43.0


From 4ed6834bc6fb81c0c59cfb997268f97aad251717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:28 +0000
Subject: [PATCH 40/44] fix: reject a block given to super or an index together
 with a block argument

---
 src/builder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 767e38c..2098c1e 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -2123,6 +2123,12 @@ impl Builder {
             Node::CSend(CSend { args, .. }) => {
                 validate_block_and_block_arg(args)?;
             }
+            Node::Super(Super { args, .. }) => {
+                validate_block_and_block_arg(args)?;
+            }
+            Node::Index(Index { indexes, .. }) => {
+                validate_block_and_block_arg(indexes)?;
+            }
             _ => {}
         }
 
-- 
2.43.0


From cce0fe819a6f224355fe61fb5cb60f9134d25cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:00 +0000
Subject: [PATCH 41/44] fix: reject keyword parameters whose names end with ?
 or !

---
 src/parser/parse.y | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/parser/parse.y b/src/parser/parse.y
index 4d74f59..508e72e 100644
--- a/src/parser/parse.y
+++ b/src/parser/parse.y
@@ -7026,19 +7026,23 @@ impl Parser {
     fn check_kwarg_name(&self, ident_t: &Token) -> Result<(), ()> {
         let name = clone_value(ident_t);
         let first_char = name.as_str().chars().next().expect("kwarg name can't be empty");
-        if !first_char.is_uppercase() {
-            Ok(())
+        let message = if first_char.is_uppercase() {
+            DiagnosticMessage::ConstArgument {}
+        } else if name.ends_with(|c| c == '?' || c == '!') {
+            DiagnosticMessage::KeyMustBeValidAsLocalVariable {}
         } else {
-            let loc = ident_t.loc;
-            self.diagnostics.emit(
-                Diagnostic {
-                    level: ErrorLevel::Error,
-                    message: DiagnosticMessage::ConstArgument {},
-                    loc
-                }
-            );
-            Err(())
-        }
+            return Ok(());
+        };
+
+        let loc = ident_t.loc;
+        self.diagnostics.emit(
+            Diagnostic {
+                level: ErrorLevel::Error,
+                message,
+                loc
+            }
+        );
+        Err(())
     }
 
     fn validate_endless_method_name(&mut self, name_t: &Token) -> Result<(), ()> {
-- 
2.43.0


From 2823e317f327ff215af9a1109a726f0940f1f760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:22 +0000
Subject: [PATCH 42/44] fix: memory of nested scopes grows with the square of
 the source

extend_dynamic copied every visible name for each block; 2000 variables
and 2000 nested blocks (20 KB) needed 322 MB. Keep the outer set and
look names up through the inherited scopes instead.
---
 src/static_environment.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/static_environment.rs b/src/static_environment.rs
index 6789be5..1499baa 100644
--- a/src/static_environment.rs
+++ b/src/static_environment.rs
@@ -24,7 +24,8 @@ use std::rc::Rc;
 #[derive(Debug, Clone, Default)]
 pub struct StaticEnvironment {
     variables: Rc<RefCell<BTreeSet<String>>>,
-    stack: Rc<RefCell<Vec<BTreeSet<String>>>>,
+    // outer scopes, and whether the next scope inherits their variables
+    stack: Rc<RefCell<Vec<(BTreeSet<String>, bool)>>>,
 }
 
 const FORWARD_ARGS: &str = "FORWARD_ARGS";
@@ -48,25 +49,25 @@ impl StaticEnvironment {
     /// Handles class/module scopes
     pub fn extend_static(&self) {
         let variables = std::mem::take(&mut *self.variables.borrow_mut());
-        self.stack.borrow_mut().push(variables);
+        self.stack.borrow_mut().push((variables, false));
     }
 
     /// Performs a push, inherits previously declared variables in the new scope
     ///
     /// Handles block/lambda scopes
     pub fn extend_dynamic(&self) {
-        self.stack
-            .borrow_mut()
-            .push(self.variables.borrow().clone());
+        let variables = std::mem::take(&mut *self.variables.borrow_mut());
+        self.stack.borrow_mut().push((variables, true));
     }
 
     /// Performs pop
     pub fn unextend(&self) {
-        *self.variables.borrow_mut() = self
+        let (variables, _) = self
             .stack
             .borrow_mut()
             .pop()
             .expect("expected static_env to have at least one frame");
+        *self.variables.borrow_mut() = variables;
     }
 
     /// Declares a new variable in the current scope
@@ -77,6 +78,13 @@ impl StaticEnvironment {
     /// Returns `true` if variable with a given `name` is declared in the current scope
     pub fn is_declared(&self, name: &str) -> bool {
         self.variables.borrow().get(name).is_some()
+            || self
+                .stack
+                .borrow()
+                .iter()
+                .rev()
+                .take_while(|(_, inherited)| *inherited)
+                .any(|(variables, _)| variables.contains(name))
     }
 
     pub(crate) fn declare_forward_args(&self) {
-- 
2.43.0


From 410534d8a53e1337ec442d035d8bd7a1251d8050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:00 +0000
Subject: [PATCH 43/44] fix: names that begin with a titlecase letter are
 constants

Ruby takes letters like U+01C5 for the beginning of a constant; they were
taken for local variables and methods.
---
 src/builder.rs           | 11 ++++-------
 src/lexer/mod.rs         |  1 +
 src/lexer/parse_ident.rs |  7 ++++++-
 src/parser/parse.y       |  2 +-
 4 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 2098c1e..9a47bc6 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -7,6 +7,7 @@ use std::convert::TryInto;
 use alloc_from_pool::{Factory as PoolFactory, PoolValue};
 
 use crate::error::Diagnostics;
+use crate::lexer::is_const_start;
 #[allow(unused_imports)]
 use crate::nodes::*;
 use crate::Loc;
@@ -820,12 +821,8 @@ impl Builder {
         let value_l = key_l.adjust_end(-1);
 
         let label = value(key_t.clone());
-        let value = if !label
-            .chars()
-            .next()
-            .expect("bug: label can't be empty")
-            .is_uppercase()
-        {
+        let first_char = label.chars().next().expect("bug: label can't be empty");
+        let value = if !is_const_start(first_char) {
             Box::new(Node::Lvar(Lvar {
                 name: label,
                 expression_l: value_l,
@@ -3940,7 +3937,7 @@ impl Builder {
             Some(first)
                 if is_identchar(first)
                     && !first.is_ascii_digit()
-                    && !first.is_uppercase()
+                    && !is_const_start(first)
                     && rest.all(is_identchar) =>
             {
                 Ok(())
diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index d2bb753..f314117 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -21,4 +21,5 @@ mod tokadd;
 mod yylval;
 
 pub use main::Lexer;
+pub(crate) use parse_ident::is_const_start;
 pub(crate) use tokadd::TokAdd;
diff --git a/src/lexer/parse_ident.rs b/src/lexer/parse_ident.rs
index 8bd4b32..94255e4 100644
--- a/src/lexer/parse_ident.rs
+++ b/src/lexer/parse_ident.rs
@@ -5,9 +5,14 @@ use crate::reserved_word;
 use crate::source::buffer::*;
 use crate::DiagnosticMessage;
 
+// Upper- and titlecase (like `ǅ`) letters start a constant
+pub(crate) fn is_const_start(c: char) -> bool {
+    c.is_uppercase() || (!c.is_lowercase() && c.to_lowercase().next() != Some(c))
+}
+
 fn is_var_name(ident: &str) -> bool {
     if let Some(first_char) = ident.chars().next() {
-        return !first_char.is_uppercase();
+        return !is_const_start(first_char);
     }
     false
 }
diff --git a/src/parser/parse.y b/src/parser/parse.y
index 508e72e..cf4e6d6 100644
--- a/src/parser/parse.y
+++ b/src/parser/parse.y
@@ -7026,7 +7026,7 @@ impl Parser {
     fn check_kwarg_name(&self, ident_t: &Token) -> Result<(), ()> {
         let name = clone_value(ident_t);
         let first_char = name.as_str().chars().next().expect("kwarg name can't be empty");
-        let message = if first_char.is_uppercase() {
+        let message = if crate::lexer::is_const_start(first_char) {
             DiagnosticMessage::ConstArgument {}
         } else if name.ends_with(|c| c == '?' || c == '!') {
             DiagnosticMessage::KeyMustBeValidAsLocalVariable {}
-- 
2.43.0


From 22b2dbb7110732e4c609b11f2a32c12c4dcfdef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:44 +0000
Subject: [PATCH 44/44] fix: a line break that closes a regexp may be written
 with a carriage return

---
 src/builder.rs            | 23 +++++++++++++++++++----
 src/lexer/parse_string.rs |  8 +++++++-
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 9a47bc6..cb78d92 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -569,13 +569,19 @@ impl Builder {
     // Regular expressions
 
     pub(crate) fn regexp_options(&self, regexp_end_t: PoolValue<Token>) -> Option<Box<Node>> {
-        if regexp_end_t.loc.end - regexp_end_t.loc.begin <= 1 {
+        let delimiter_size = regexp_delimiter_size(&regexp_end_t);
+        if regexp_end_t.loc.end - regexp_end_t.loc.begin <= delimiter_size {
             // no regexp options, only trailing "/" (or nothing if regexp is unterminated)
             return None;
         }
-        let expression_l = self.loc(&regexp_end_t).adjust_begin(1);
+        let expression_l = self.loc(&regexp_end_t);
+        let expression_l = expression_l.with_begin(expression_l.begin + delimiter_size);
         let options = value(regexp_end_t);
-        let mut options = options.as_str().chars().skip(1).collect::<Vec<_>>();
+        let mut options = options
+            .as_str()
+            .chars()
+            .skip(delimiter_size)
+            .collect::<Vec<_>>();
         options.sort_unstable();
         options.dedup();
         let options = if options.is_empty() {
@@ -599,7 +605,7 @@ impl Builder {
     ) -> Box<Node> {
         let begin_l = self.loc(&begin_t);
         let end_l = self.loc(&end_t);
-        let end_l = end_l.resize(std::cmp::min(end_l.size(), 1));
+        let end_l = end_l.resize(std::cmp::min(end_l.size(), regexp_delimiter_size(&end_t)));
         let expression_l =
             begin_l.join(&maybe_boxed_node_expr(&options).unwrap_or_else(|| self.loc(&end_t)));
 
@@ -4352,6 +4358,15 @@ pub(crate) fn clone_value(token: &Token) -> String {
     token.to_string_lossy()
 }
 
+/// Number of bytes of the delimiter that closes a regexp, without the options behind it
+fn regexp_delimiter_size(regexp_end_t: &Token) -> usize {
+    if clone_value(regexp_end_t).starts_with("\r\n") {
+        2
+    } else {
+        1
+    }
+}
+
 pub(crate) fn maybe_value(token: Option<PoolValue<Token>>) -> Option<String> {
     token.map(value)
 }
diff --git a/src/lexer/parse_string.rs b/src/lexer/parse_string.rs
index f6a2b34..8d62b6c 100644
--- a/src/lexer/parse_string.rs
+++ b/src/lexer/parse_string.rs
@@ -128,8 +128,14 @@ impl Lexer {
     fn string_term(&mut self, term: u8, func: usize) -> i32 {
         self.strterm = None;
         if (func & STR_FUNC_REGEXP) != 0 {
+            // A line break that closes the regexp may take two bytes
+            let crlf = self.buffer.substr_at(self.buffer.ptok, self.buffer.pcur) == Some(b"\r\n");
             let flags = self.regx_options();
-            self.set_yylval_num(format!("{}{}", term as char, flags));
+            if crlf {
+                self.set_yylval_num(format!("\r\n{}", flags));
+            } else {
+                self.set_yylval_num(format!("{}{}", term as char, flags));
+            }
             self.lex_state.set(EXPR_END);
             return Self::tREGEXP_END;
         }
-- 
2.43.0

