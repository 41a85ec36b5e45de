From 44746c9f32a4f426295e68dbef1de205de512a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 01/25] fix: a redirect's file descriptor must consist of
 digits only

A word such as +5 directly before a redirect operator was taken as
descriptor 5, because integer parsing permits a leading sign.
---
 src/parse.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 3c565d4..c1b8d12 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -719,9 +719,18 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             }
         }
 
+        // NB: `u16::from_str_radix` alone would also accept a leading `+`.
+        fn parse_fd(s: &str) -> Option<u16> {
+            if s.chars().all(|c| c.is_digit(10)) {
+                u16::from_str_radix(s, 10).ok()
+            } else {
+                None
+            }
+        }
+
         fn as_num<C>(word: &ComplexWordKind<C>) -> Option<u16> {
             match *word {
-                Single(Simple(SimpleWordKind::Literal(ref s))) => u16::from_str_radix(s, 10).ok(),
+                Single(Simple(SimpleWordKind::Literal(ref s))) => parse_fd(s),
                 Single(_) => None,
                 Concat(ref fragments) => {
                     let mut buf = String::new();
@@ -733,7 +742,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                         }
                     }
 
-                    u16::from_str_radix(&buf, 10).ok()
+                    parse_fd(&buf)
                 }
             }
         }
-- 
2.43.0


From 32f11dce9f9b8201aedc3a7554613d80a6fbce7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 02/25] fix: Lexer::size_hint must account for characters
 already buffered

The upper bound ignored the token held back after a word, so it could be
smaller than the number of tokens still to come.
---
 src/lexer.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index af7b2eb..deda5e2 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -260,7 +260,14 @@ impl<I: Iterator<Item = char>> Iterator for Lexer<I> {
         // themselves for the worst possible case. A high estimate
         // is better than no estimate.
         let (_, hi) = self.inner.size_hint();
-        let low = if self.peeked.is_some() { 1 } else { 0 };
-        (low, hi)
+
+        // Anything already taken from the source but not yet yielded comes on top:
+        // an escaped character still has to yield its backslash as well.
+        let (low, buffered) = match self.peeked {
+            None => (0, 0),
+            Some(Escaped(Some(_))) => (2, 2),
+            Some(_) => (1, 1),
+        };
+        (low, hi.and_then(|hi| hi.checked_add(buffered)))
     }
 }
-- 
2.43.0


From c546f47f06c7efd4603e314c8d380fe14c8d682b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 03/25] fix: <<- must only strip tabs at the start of a line

Tabs were also removed from (or before) every whitespace token further along
each heredoc line.
---
 src/parse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index c1b8d12..daf4e2c 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1009,8 +1009,10 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         'heredoc: loop {
             let mut line_start_pos = self.iter.pos();
             let mut line = Vec::new();
+            // Only the tabs at the very start of each line are to be removed
+            let mut strip_line = strip_tabs;
             'line: loop {
-                if strip_tabs {
+                if mem::replace(&mut strip_line, false) {
                     let skip_next = if let Some(&Whitespace(ref w)) = self.iter.peek() {
                         let stripped = w.trim_start_matches('\t');
                         let num_tabs = w.len() - stripped.len();
-- 
2.43.0


From 221af239e5fc1f612766b67c9fd6dcb99b5f30bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 04/25] fix: a second ! before a pipeline is an error even
 after whitespace

`! ! foo` was accepted (running a command named !), unlike `!! foo`.
---
 src/parse.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index daf4e2c..84adc50 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -549,6 +549,8 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
 
         let mut cmds = Vec::new();
         loop {
+            self.skip_whitespace();
+
             // We've already passed an apropriate spot for !, so it
             // is an error if it appears before the start of a command.
             if let Some(&Bang) = self.iter.peek() {
-- 
2.43.0


From cf4efecc937e4e82b4a00d5789e7b283daa2859e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 05/25] fix: keep an assignment's value when it starts with #

`a=#foo` lost its value (the rest of the line was taken as a comment),
and an escaped newline right after the = (which is whitespace) did not end
the assignment, so a following word was taken as its value.
---
 src/parse.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 84adc50..98a97d5 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -608,10 +608,11 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                 if let Some(Name(var)) = self.iter.next() {
                     self.iter.next(); // Consume the =
 
-                    let value = if let Some(&Whitespace(_)) = self.iter.peek() {
-                        None
-                    } else {
-                        self.word()?
+                    // The value is only what directly follows, e.g. no (escaped newline
+                    // as) whitespace may come in between, and a # is no comment here.
+                    let value = match self.word_fragments_raw(None)? {
+                        Some(w) => Some(self.builder.word(w)?),
+                        None => None,
                     };
                     vars.push(RedirectOrEnvVar::EnvVar(var, value));
 
@@ -1162,6 +1163,15 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             return Ok(None);
         }
 
+        self.word_fragments_raw(delim)
+    }
+
+    /// Parses the fragments of a word, starting right at the current token,
+    /// which is never regarded as whitespace to skip or the start of a comment.
+    fn word_fragments_raw(
+        &mut self,
+        delim: Option<Token>,
+    ) -> ParseResult<Option<ComplexWordKind<B::Command>>, B::Error> {
         let mut words = Vec::new();
         loop {
             if delim.is_some() && self.iter.peek() == delim.as_ref() {
-- 
2.43.0


From d46685ac843c8a72063973c2156237098092eb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 06/25] fix: a plain ( inside double quotes or ${ } needs no
 matching )

It was expected to be closed whenever such a word appeared within backquotes
or on the same line as a heredoc operator, e.g. `cat <<eof "("`.
---
 src/parse/iter.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/parse/iter.rs b/src/parse/iter.rs
index e874b8d..67f6dbb 100644
--- a/src/parse/iter.rs
+++ b/src/parse/iter.rs
@@ -442,7 +442,7 @@ impl<I: Iterator<Item = Token>> TokenIterWrapper<I> {
 pub struct Balanced<I> {
     /// The underlying token iterator.
     iter: I,
-    /// Any token we had to peek after a backslash but haven't yielded yet,
+    /// Any token we had to peek after a backslash (or a $) but haven't yielded yet,
     /// as well as the position after it.
     escaped: Option<(Token, SourcePos)>,
     /// A stack of pending unmatched tokens we still must encounter.
@@ -555,7 +555,11 @@ impl<I: PeekablePositionIterator<Item = Token>> Iterator for Balanced<I> {
             }
 
             Some(ParenOpen) => {
-                self.stack.push((ParenClose, cur_pos));
+                // A plain paren has no special meaning directly inside "" or ${ }
+                match self.stack.last() {
+                    Some(&(DoubleQuote, _)) | Some(&(CurlyClose, _)) => {}
+                    _ => self.stack.push((ParenClose, cur_pos)),
+                }
                 Some(Ok(ParenOpen))
             }
 
@@ -563,7 +567,14 @@ impl<I: PeekablePositionIterator<Item = Token>> Iterator for Balanced<I> {
                 let cur_pos = self.iter.pos(); // Want the pos of curly or paren, not $ here
                 match self.iter.peek() {
                     Some(&CurlyOpen) => self.stack.push((CurlyClose, cur_pos)),
-                    Some(&ParenOpen) => {} // Already handled by paren case above
+                    Some(&ParenOpen) => {
+                        // Opens a substitution wherever it appears (unlike a plain paren),
+                        // so take it together with the $
+                        self.stack.push((ParenClose, cur_pos));
+                        self.pos = cur_pos;
+                        self.escaped = self.iter.next().map(|t| (t, self.iter.pos()));
+                        return Some(Ok(Dollar));
+                    }
 
                     // We have nothing further to match
                     _ => {
-- 
2.43.0


From 3c308cf1916fe813d35feba4e23a99bec74610ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 07/25] fix: quotes in a comment on a heredoc operator's line
 are not quotes

`cat <<eof # it's` failed with an unmatched quote, or took the wrong lines
as the body when the quote happened to be closed later on.
---
 src/parse.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 98a97d5..4d22033 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -995,6 +995,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         // we feed it).
         let saved_pos = self.iter.pos();
         let mut saved_tokens = Vec::new();
+        let mut comment_ok = false;
         while self.iter.peek().is_some() {
             // Make sure we save all tokens until the next UNQUOTED newilne
             if let Some(&Newline) = self.iter.peek() {
@@ -1002,9 +1003,25 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                 break;
             }
 
+            // Nothing within a comment (i.e. a # at the start of a word) is quoted
+            // or has to be balanced, and it always ends with the line.
+            if comment_ok && self.iter.peek() == Some(&Pound) {
+                while self.iter.peek().map_or(false, |t| t != &Newline) {
+                    saved_tokens.extend(self.iter.next());
+                }
+                continue;
+            }
+
+            let start = saved_tokens.len();
             for t in self.iter.balanced() {
                 saved_tokens.push(try_map!(t));
             }
+
+            comment_ok = match saved_tokens.get(start) {
+                Some(&Backslash) => saved_tokens.last() == Some(&Newline),
+                Some(t) => t.is_word_delimiter(),
+                None => false,
+            };
         }
 
         let heredoc_start_pos = self.iter.pos();
-- 
2.43.0


From 7a581fb451c295b8a8c61fcd941f55f06780b545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 08/25] fix: keep comments before the ; of a for loop without
 words

Of `for x #1\n#2\n; do` only the first comment reached the builder.
---
 src/parse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 4d22033..e52773e 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2053,7 +2053,9 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         } else if Some(&Semi) == self.iter.peek() {
             // `for name \n*;\n* do_group`
             eat!(self, { Semi => {} });
-            (None, self.linebreak())
+            let mut pre_body_comments = post_var_comments;
+            pre_body_comments.extend(self.linebreak());
+            (None, pre_body_comments)
         } else if self.peek_reserved_word(&[DO]).is_none() {
             // If we didn't find an `in` keyword, and we havent hit the body
             // (a `do` keyword), then we can reasonably say the script has
-- 
2.43.0


From d4de0aa08510d7e34b48f965285c9b3ebc1ebcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 09/25] fix: an incomplete until loop must not be reported as a
 while loop

---
 src/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index e52773e..26cb030 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1924,7 +1924,10 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                 },
             )),
             None => Err(ParseError::IncompleteCmd(
-                WHILE,
+                match kind {
+                    builder::LoopKind::While => WHILE,
+                    builder::LoopKind::Until => UNTIL,
+                },
                 start_pos,
                 DO,
                 self.iter.pos(),
-- 
2.43.0


From 7c0d9965079881619f8560b4ff025e60ac9bede8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 10/25] fix: keep true positions in heredocs within backquotes

The position of anything after a removed backslash was lost when its line
was set aside (or became the body) of a heredoc, or when another backquoted
command was nested within. Also an error at the end of a heredoc's body or a
backquoted command pointed to the start of the body or past the closing
backquote.
---
 src/parse.rs      | 37 ++++++++++++++++----------
 src/parse/iter.rs | 68 +++++++++++++++++++++++++----------------------
 2 files changed, 59 insertions(+), 46 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 26cb030..5ed079c 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -993,13 +993,13 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         // heredocs, especially if we want to keep the builder unaware of our
         // shenanigans (since it *could* be keeping some internal state of what
         // we feed it).
-        let saved_pos = self.iter.pos();
         let mut saved_tokens = Vec::new();
         let mut comment_ok = false;
         while self.iter.peek().is_some() {
             // Make sure we save all tokens until the next UNQUOTED newilne
             if let Some(&Newline) = self.iter.peek() {
-                saved_tokens.push(self.iter.next().unwrap());
+                let pos = self.iter.pos();
+                saved_tokens.push((self.iter.next().unwrap(), pos));
                 break;
             }
 
@@ -1007,28 +1007,36 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             // or has to be balanced, and it always ends with the line.
             if comment_ok && self.iter.peek() == Some(&Pound) {
                 while self.iter.peek().map_or(false, |t| t != &Newline) {
-                    saved_tokens.extend(self.iter.next());
+                    let pos = self.iter.pos();
+                    saved_tokens.extend(self.iter.next().map(|t| (t, pos)));
                 }
                 continue;
             }
 
             let start = saved_tokens.len();
-            for t in self.iter.balanced() {
-                saved_tokens.push(try_map!(t));
+            let mut balanced = self.iter.balanced();
+            loop {
+                let pos = balanced.pos();
+                match balanced.next() {
+                    Some(t) => saved_tokens.push((try_map!(t), pos)),
+                    None => break,
+                }
             }
 
             comment_ok = match saved_tokens.get(start) {
-                Some(&Backslash) => saved_tokens.last() == Some(&Newline),
-                Some(t) => t.is_word_delimiter(),
+                Some(&(Backslash, _)) => saved_tokens.last().map(|t| &t.0) == Some(&Newline),
+                Some(&(ref t, _)) => t.is_word_delimiter(),
                 None => false,
             };
         }
 
         let heredoc_start_pos = self.iter.pos();
+        let mut heredoc_end_pos = heredoc_start_pos;
         let mut heredoc = Vec::new();
         'heredoc: loop {
             let mut line_start_pos = self.iter.pos();
             let mut line = Vec::new();
+            let mut line_positions = Vec::new();
             // Only the tabs at the very start of each line are to be removed
             let mut strip_line = strip_tabs;
             'line: loop {
@@ -1040,6 +1048,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
 
                         if !stripped.is_empty() {
                             line.push(Whitespace(stripped.to_owned()));
+                            line_positions.push(line_start_pos);
                         }
 
                         true
@@ -1052,6 +1061,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                     }
                 }
 
+                line_positions.push(self.iter.pos());
                 let next = self.iter.next();
                 match next {
                     // If we haven't grabbed any input we must have hit EOF
@@ -1097,20 +1107,19 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                 }
             }
 
-            heredoc.push((line, line_start_pos));
+            heredoc.extend(line.into_iter().zip(line_positions));
+            heredoc_end_pos = self.iter.pos();
         }
 
         self.iter
-            .buffer_tokens_to_yield_first(saved_tokens, saved_pos);
+            .buffer_positioned_tokens_to_yield_first(saved_tokens);
 
         let body = if quoted {
-            let body = heredoc.into_iter().flat_map(|(t, _)| t).collect::<Vec<_>>();
+            let body = heredoc.into_iter().map(|(t, _)| t).collect::<Vec<_>>();
             Single(Simple(SimpleWordKind::Literal(concat_tokens(&body))))
         } else {
-            let mut tok_iter = TokenIter::with_position(empty_iter(), heredoc_start_pos);
-            while let Some((line, pos)) = heredoc.pop() {
-                tok_iter.buffer_tokens_to_yield_first(line, pos);
-            }
+            let mut tok_iter = TokenIter::with_position(empty_iter(), heredoc_end_pos);
+            tok_iter.buffer_positioned_tokens_to_yield_first(heredoc);
 
             let mut tok_backup = TokenIterWrapper::Buffered(tok_iter);
             mem::swap(&mut self.iter, &mut tok_backup);
diff --git a/src/parse/iter.rs b/src/parse/iter.rs
index 67f6dbb..b4145cf 100644
--- a/src/parse/iter.rs
+++ b/src/parse/iter.rs
@@ -278,11 +278,26 @@ impl<I: Iterator<Item = Token>> TokenIter<I> {
     }
 
     /// Accepts a vector of tokens to be yielded completely before the inner
-    /// iterator is advanced further. The provided `buf_start` indicates
-    /// what the iterator's position should have been if we were to naturally
-    /// yield the provided buffer.
-    pub fn buffer_tokens_to_yield_first(&mut self, buf: Vec<Token>, buf_start: SourcePos) {
-        let tokens = buf.into_iter().map(TokenOrPos::Tok).collect();
+    /// iterator is advanced further. Each token comes with its own position, i.e.
+    /// the tokens need not directly follow one another in the source.
+    pub fn buffer_positioned_tokens_to_yield_first(&mut self, buf: Vec<(Token, SourcePos)>) {
+        let buf_start = match buf.first() {
+            Some(&(_, pos)) => pos,
+            None => return,
+        };
+
+        let mut tokens = Vec::with_capacity(buf.len());
+        let mut next_pos = buf_start;
+        for (tok, pos) in buf {
+            if pos != next_pos {
+                tokens.push(TokenOrPos::Pos(pos));
+            }
+
+            next_pos = pos;
+            next_pos.advance(&tok);
+            tokens.push(TokenOrPos::Tok(tok));
+        }
+
         self.buffer_tokens_and_positions_to_yield_first(tokens, Some(buf_start));
     }
 
@@ -406,14 +421,14 @@ impl<I: Iterator<Item = Token>> TokenIterWrapper<I> {
         }
     }
 
-    /// Delegates to `TokenIter::buffer_tokens_to_yield_first`.
-    pub fn buffer_tokens_to_yield_first(&mut self, buf: Vec<Token>, buf_start: SourcePos) {
+    /// Delegates to `TokenIter::buffer_positioned_tokens_to_yield_first`.
+    pub fn buffer_positioned_tokens_to_yield_first(&mut self, buf: Vec<(Token, SourcePos)>) {
         match *self {
             TokenIterWrapper::Regular(ref mut inner) => {
-                inner.buffer_tokens_to_yield_first(buf, buf_start)
+                inner.buffer_positioned_tokens_to_yield_first(buf)
             }
             TokenIterWrapper::Buffered(ref mut inner) => {
-                inner.buffer_tokens_to_yield_first(buf, buf_start)
+                inner.buffer_positioned_tokens_to_yield_first(buf)
             }
         }
     }
@@ -646,45 +661,34 @@ impl<I: PeekablePositionIterator<Item = Token>> BacktickBackslashRemover<I> {
     fn create_token_iter(
         mut iter: Balanced<I>,
     ) -> Result<TokenIter<std_iter::Empty<Token>>, UnmatchedError> {
-        let mut all_chunks = Vec::new();
-        let mut chunk_start = iter.pos();
-        let mut chunk = Vec::new();
+        let mut tokens = Vec::new();
 
-        loop {
+        let end_pos = loop {
+            let pos = iter.pos();
             match iter.next() {
                 Some(Ok(Backslash)) => {
                     let next_pos = iter.pos();
                     match iter.next() {
                         Some(Ok(tok @ Dollar))
                         | Some(Ok(tok @ Backtick))
-                        | Some(Ok(tok @ Backslash)) => {
-                            all_chunks.push((chunk, chunk_start));
-                            chunk_start = next_pos;
-                            chunk = vec![tok];
-                        }
+                        | Some(Ok(tok @ Backslash)) => tokens.push((tok, next_pos)),
 
                         Some(tok) => {
-                            chunk.push(Backslash);
-                            chunk.push(tok?);
+                            tokens.push((Backslash, pos));
+                            tokens.push((tok?, next_pos));
                         }
 
-                        None => chunk.push(Backslash),
+                        None => tokens.push((Backslash, pos)),
                     }
                 }
 
-                Some(tok) => chunk.push(tok?),
-                None => break,
+                Some(tok) => tokens.push((tok?, pos)),
+                None => break pos,
             }
-        }
-
-        if !chunk.is_empty() {
-            all_chunks.push((chunk, chunk_start));
-        }
+        };
 
-        let mut tok_iter = TokenIter::with_position(std_iter::empty(), iter.pos());
-        while let Some((chunk, chunk_end)) = all_chunks.pop() {
-            tok_iter.buffer_tokens_to_yield_first(chunk, chunk_end);
-        }
+        let mut tok_iter = TokenIter::with_position(std_iter::empty(), end_pos);
+        tok_iter.buffer_positioned_tokens_to_yield_first(tokens);
         Ok(tok_iter)
     }
 }
-- 
2.43.0


From 0f57cb84033fee2de102d34fe8e2aca903a92e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 11/25] fix: tokenize a backquoted command after its
 backslashes are removed

`\$1` within backquotes was not taken as a positional parameter, and `\\\&&`
escaped both ampersands, unlike the command that is left once the backslashes
are removed (and what $( ) yields for it).
---
 src/parse/iter.rs | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/parse/iter.rs b/src/parse/iter.rs
index b4145cf..f269b00 100644
--- a/src/parse/iter.rs
+++ b/src/parse/iter.rs
@@ -1,5 +1,6 @@
 //! An module for easily iterating over a `Token` stream.
 
+use crate::lexer::Lexer;
 use crate::parse::SourcePos;
 use crate::token::Token;
 use crate::token::Token::*;
@@ -629,6 +630,29 @@ impl<I: PeekablePositionIterator<Item = Token>> Iterator for Balanced<I> {
     }
 }
 
+/// Tokenizes the text of the provided tokens once more, e.g. when some backslashes have been
+/// removed since, making `\$1` a positional parameter, or making `\\&&` escape but one &.
+fn tokenize_again(tokens: Vec<(Token, SourcePos)>) -> Vec<(Token, SourcePos)> {
+    let mut text = String::new();
+    let mut byte_positions = Vec::new();
+    for (tok, mut pos) in tokens {
+        for c in tok.as_str().chars() {
+            text.push(c);
+            byte_positions.resize(text.len(), pos);
+            pos.advance(&Literal(c.to_string()));
+        }
+    }
+
+    let mut start = 0;
+    Lexer::new(text.chars())
+        .map(|tok| {
+            let pos = byte_positions[start];
+            start += tok.len();
+            (tok, pos)
+        })
+        .collect()
+}
+
 /// A `Balanced` backtick `Token` iterator which removes all backslashes
 /// from the stream that are followed by \, $, or `.
 #[must_use = "iterator adaptors are lazy and do nothing unless consumed"]
@@ -662,6 +686,7 @@ impl<I: PeekablePositionIterator<Item = Token>> BacktickBackslashRemover<I> {
         mut iter: Balanced<I>,
     ) -> Result<TokenIter<std_iter::Empty<Token>>, UnmatchedError> {
         let mut tokens = Vec::new();
+        let mut removed = false;
 
         let end_pos = loop {
             let pos = iter.pos();
@@ -671,7 +696,10 @@ impl<I: PeekablePositionIterator<Item = Token>> BacktickBackslashRemover<I> {
                     match iter.next() {
                         Some(Ok(tok @ Dollar))
                         | Some(Ok(tok @ Backtick))
-                        | Some(Ok(tok @ Backslash)) => tokens.push((tok, next_pos)),
+                        | Some(Ok(tok @ Backslash)) => {
+                            removed = true;
+                            tokens.push((tok, next_pos));
+                        }
 
                         Some(tok) => {
                             tokens.push((Backslash, pos));
@@ -687,6 +715,10 @@ impl<I: PeekablePositionIterator<Item = Token>> BacktickBackslashRemover<I> {
             }
         };
 
+        if removed {
+            tokens = tokenize_again(tokens);
+        }
+
         let mut tok_iter = TokenIter::with_position(std_iter::empty(), end_pos);
         tok_iter.buffer_positioned_tokens_to_yield_first(tokens);
         Ok(tok_iter)
-- 
2.43.0


From 23fb43d18d7a873f8dfa25e6269522f13534eb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 12/25] fix: parse redirections of a function's subshell body

With `function foo (bar) >x` the redirection was taken as a command of its
own, and `function foo (bar) baz` was accepted as two commands.
---
 src/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 5ed079c..f65bed3 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2327,7 +2327,8 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                     None
                 } else {
                     // Case like `function foo (subshell)`
-                    Some(self.builder.subshell(subshell, Vec::new())?)
+                    let io = self.redirect_list()?;
+                    Some(self.builder.subshell(subshell, io)?)
                 }
             } else {
                 None
-- 
2.43.0


From 8b7d9fbe883d28b9bfb59f97dbef9d05f76dc8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 13/25] fix: an escaped newline may follow a function's name

Although it is whitespace, `foo \<newline>()` was not recognized as a function
declaration (but as two commands), and `function foo\<newline>{` was an error.
---
 src/parse.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index f65bed3..6232091 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2243,10 +2243,18 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         let is_fn = {
             let mut peeked = self.iter.multipeek();
             if let Some(&Name(_)) = peeked.peek_next() {
-                match peeked.peek_next() {
-                    Some(&Whitespace(_)) => Some(&ParenOpen) == peeked.peek_next(),
-                    Some(&ParenOpen) => true,
-                    _ => false,
+                loop {
+                    match peeked.peek_next() {
+                        Some(&Whitespace(_)) => {}
+                        Some(&Backslash) => {
+                            // An escaped newline is whitespace, too
+                            if peeked.peek_next() != Some(&Newline) {
+                                break false;
+                            }
+                        }
+                        Some(&ParenOpen) => break true,
+                        _ => break false,
+                    }
                 }
             } else {
                 false
@@ -2310,8 +2318,11 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             None
         } else {
             // Enforce at least one whitespace between function declaration and body
-            eat!(self, { Whitespace(_) => {} });
+            let name_end_pos = self.iter.pos();
             self.skip_whitespace();
+            if name_end_pos == self.iter.pos() {
+                return Err(self.make_unexpected_err());
+            }
 
             // If we didn't find the function keyword, we MUST find `()` at this time
             if !found_fn {
-- 
2.43.0


From 4635743e695a4004fd30998e399930c89fe8e96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 14/25] fix: an escaped newline delimits reserved words and
 braces

It is whitespace and delimits every other word, but `if\<newline>foo` or
`{\<newline>foo; }` were parsed as simple commands.
---
 src/parse.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 6232091..bddf265 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2451,12 +2451,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                 };
 
                 if let ret @ Some(_) = found_tok {
-                    let found_delim = match peeked.peek_next() {
-                        Some(delim) => delim.is_word_delimiter(),
-                        None => true, // EOF is also a valid delimeter
-                    };
-
-                    if found_delim {
+                    if Self::peek_word_end(&mut peeked) {
                         return ret;
                     }
                 }
@@ -2491,10 +2486,16 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             _ => None,
         };
 
+        found_tok.filter(|_| Self::peek_word_end(&mut peeked))
+    }
+
+    /// Checks that whatever comes next delimits a word.
+    fn peek_word_end(peeked: &mut iter::Multipeek<'_>) -> bool {
         match peeked.peek_next() {
-            Some(delim) if delim.is_word_delimiter() => found_tok,
-            None => found_tok, // EOF is a valid delimeter
-            _ => None,
+            // Escaped newlines become whitespace and a delimiter
+            Some(&Backslash) => peeked.peek_next() == Some(&Newline),
+            Some(delim) => delim.is_word_delimiter(),
+            None => true, // EOF is also a valid delimeter
         }
     }
 
-- 
2.43.0


From 00cf080e5d3940e2b819c03fce1698aa2ca49629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 15/25] fix: an escaped newline ends a heredoc's delimiter

It is whitespace and delimits every other word, but was made a part of the
delimiter, which then could never be found.
---
 src/parse.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index bddf265..e945da0 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -881,11 +881,9 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         loop {
             // Normally parens are never part of words, but many
             // shells permit them to be part of a heredoc delimeter.
-            if let Some(t) = self.iter.peek() {
-                if t.is_word_delimiter() && t != &ParenOpen {
-                    break;
-                }
-            } else {
+            if self.iter.peek() != Some(&ParenOpen)
+                && Self::peek_word_end(&mut self.iter.multipeek())
+            {
                 break;
             }
 
-- 
2.43.0


From ae440282774fe889172b635ca9aafcf38c099143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:49 +0000
Subject: [PATCH 16/25] fix: a backslash at the very end of a heredoc is plain
 text, not a panic

---
 src/parse.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index e945da0..fa25147 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1365,10 +1365,11 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                     let special = match self.iter.peek() {
                         Some(&Dollar) | Some(&Backtick) | Some(&DoubleQuote) | Some(&Backslash)
                         | Some(&Newline) => true,
-                        _ => false,
+                        None => false,
+                        tok => tok == delim_close.as_ref(),
                     };
 
-                    if special || self.iter.peek() == delim_close.as_ref() {
+                    if special {
                         store!(SimpleWordKind::Escaped(
                             self.iter.next().unwrap().to_string()
                         ))
-- 
2.43.0


From c81b87486167641a665e24ae12c3d9a20fa01253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 17/25] fix: an increment or decrement after a sign is not a
 row of signs

---
 src/parse.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index fa25147..55ba314 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2857,26 +2857,18 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             Tilde => { ast::Arithmetic::BitwiseNot(Box::new(self.arith_unary_misc()?)) },
             Plus  => {
                 eat_maybe!(self, {
+                    Plus => { ast::Arithmetic::PreIncr(self.arith_var()?) };
                     // Although we can optimize this out, we'll let the AST builder handle
                     // optimizations, in case it is interested in such redundant situations.
-                    Dash => {
-                        let next = self.arith_unary_misc()?;
-                        ast::Arithmetic::UnaryPlus(Box::new(ast::Arithmetic::UnaryMinus(Box::new(next))))
-                    },
-                    Plus => { ast::Arithmetic::PreIncr(self.arith_var()?) };
                     _ => { ast::Arithmetic::UnaryPlus(Box::new(self.arith_unary_misc()?)) }
                 })
             },
 
             Dash  => {
                 eat_maybe!(self, {
+                    Dash => { ast::Arithmetic::PreDecr(self.arith_var()?) };
                     // Although we can optimize this out, we'll let the AST builder handle
                     // optimizations, in case it is interested in such redundant situations.
-                    Plus => {
-                        let next = self.arith_unary_misc()?;
-                        ast::Arithmetic::UnaryMinus(Box::new(ast::Arithmetic::UnaryPlus(Box::new(next))))
-                    },
-                    Dash => { ast::Arithmetic::PreDecr(self.arith_var()?) };
                     _ => { ast::Arithmetic::UnaryMinus(Box::new(self.arith_unary_misc()?)) }
                 })
             };
-- 
2.43.0


From b0272ab237e39c989011f6aac781f6b3fba09e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:50 +0000
Subject: [PATCH 18/25] fix: an escaped newline may stand before an arithmetic
 assignment's operator

---
 src/parse.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 55ba314..ec103ee 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2635,6 +2635,12 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                     Some(&Name(_)) => loop {
                         match peeked.peek_next() {
                             Some(&Whitespace(_)) => continue, // Skip whitespace and peek next
+                            // An escaped newline is skipped like any other whitespace
+                            Some(&Backslash) => {
+                                if Some(&Newline) == peeked.peek_next() {
+                                    continue;
+                                }
+                            }
                             Some(&Star) | Some(&Slash) | Some(&Percent) | Some(&Plus)
                             | Some(&Dash) | Some(&DLess) | Some(&DGreat) | Some(&Amp)
                             | Some(&Pipe) | Some(&Caret) => {
-- 
2.43.0


From c42a2df7daa0d796f3ddcddbf9da2326f22059ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 19/25] fix: a comment is not a here-document's delimiter

---
 src/parse.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index ec103ee..fa8c5ef 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -864,6 +864,11 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
 
         self.skip_whitespace();
 
+        // What starts with a pound is a comment and not a word
+        if let Some(&Pound) = self.iter.peek() {
+            return Err(self.make_unexpected_err());
+        }
+
         // Unfortunately we're going to have to capture the delimeter word "manually"
         // here and double some code. The problem is that we might need to unquote the
         // word--something that the parser isn't normally aware as a concept. We can
-- 
2.43.0


From 1a885179ee7c511a5a521885a16aaba9c403e37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:49 +0000
Subject: [PATCH 20/25] fix: a backquoted command ends at the first backquote
 that is not escaped

What looks like a quote, bracket or comment within it only is one once the
backslashes are removed, so `echo "a\\"b"` or `echo # it's` were rejected.
---
 src/parse/iter.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parse/iter.rs b/src/parse/iter.rs
index f269b00..59ce2e3 100644
--- a/src/parse/iter.rs
+++ b/src/parse/iter.rs
@@ -539,6 +539,12 @@ impl<I: PeekablePositionIterator<Item = Token>> Iterator for Balanced<I> {
 
         let cur_pos = self.iter.pos();
         let ret = match self.iter.next() {
+            // A backticked command lasts until the first backtick which is not escaped: what is
+            // between is only looked at (for quotes, comments, etc.) once its backslashes are removed
+            Some(t) if t != Backslash && self.stack.last().map(|t| &t.0) == Some(&Backtick) => {
+                Some(Ok(t))
+            }
+
             Some(Backslash) => {
                 // Make sure that we indicate our position as before the escaped token,
                 // and NOT as the underlying iterator's position, which will indicate the
-- 
2.43.0


From c2730303f4e07f228f2c7ca4c84da6e5ef7ae727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:33 +0000
Subject: [PATCH 21/25] fix: $$ followed by a digit is not a $ and a positional
 parameter

---
 src/parse.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index fa8c5ef..c572f91 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1464,6 +1464,18 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
 
                 Some(&ParenOpen) | Some(&CurlyOpen) => self.parameter_substitution_raw(),
 
+                // `$$1` is the parameter `$$` and a literal 1: the second $ belongs to the first
+                Some(&ParamPositional(p)) => {
+                    let mut digit_pos = self.iter.pos();
+                    digit_pos.advance(&Dollar);
+                    self.iter.next();
+                    self.iter.buffer_positioned_tokens_to_yield_first(vec![(
+                        Literal((p as u32).to_string()),
+                        digit_pos,
+                    )]);
+                    Ok(SimpleWordKind::Param(Parameter::Dollar))
+                }
+
                 _ => Ok(SimpleWordKind::Literal(Dollar.to_string())),
             },
 
-- 
2.43.0


From 6c51ac97b64f36172cfb443c11f1431b5c88b63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:40 +0000
Subject: [PATCH 22/25] fix: positions of compound commands parsed on their own
 ignored leading blanks

---
 src/parse.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index c572f91..f373105 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1783,6 +1783,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
     /// reserved words. Each of the reserved words must be a literal token, and cannot be
     /// quoted or concatenated.
     pub fn do_group(&mut self) -> ParseResult<builder::CommandGroup<B::Command>, B::Error> {
+        self.skip_whitespace();
         let start_pos = self.iter.pos();
         self.reserved_word(&[DO])
             .map_err(|_| self.make_unexpected_err())?;
@@ -1800,6 +1801,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
     pub fn brace_group(&mut self) -> ParseResult<builder::CommandGroup<B::Command>, B::Error> {
         // CurlyClose must be encountered as a stand alone word,
         // even though it is represented as its own token
+        self.skip_whitespace();
         let start_pos = self.iter.pos();
         self.reserved_token(&[CurlyOpen])?;
         let cmds = self.command_group(CommandGroupDelimiters {
@@ -1927,6 +1929,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
     pub fn loop_command(
         &mut self,
     ) -> ParseResult<(builder::LoopKind, builder::GuardBodyPairGroup<B::Command>), B::Error> {
+        self.skip_whitespace();
         let start_pos = self.iter.pos();
         let kind = match self
             .reserved_word(&[WHILE, UNTIL])
@@ -1966,6 +1969,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
     /// method returns the relevant parts of the `if` command, without constructing an
     /// AST node, it so that the caller can do so with redirections.
     pub fn if_command(&mut self) -> ParseResult<builder::IfFragments<B::Command>, B::Error> {
+        self.skip_whitespace();
         let start_pos = self.iter.pos();
         self.reserved_word(&[IF])
             .map_err(|_| self.make_unexpected_err())?;
@@ -2028,6 +2032,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
     pub fn for_command(
         &mut self,
     ) -> ParseResult<builder::ForFragments<B::Word, B::Command>, B::Error> {
+        self.skip_whitespace();
         let start_pos = self.iter.pos();
         self.reserved_word(&[FOR])
             .map_err(|_| self.make_unexpected_err())?;
@@ -2126,6 +2131,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
     pub fn case_command(
         &mut self,
     ) -> ParseResult<builder::CaseFragments<B::Word, B::Command>, B::Error> {
+        self.skip_whitespace();
         let start_pos = self.iter.pos();
 
         macro_rules! missing_in {
-- 
2.43.0


From ee49e7af45ac569fc172842705b7b500eb87b061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:03 +0000
Subject: [PATCH 23/25] fix: the column after a token with newlines within was
 always 1

---
 src/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index f373105..ec13dcb 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -86,7 +86,10 @@ impl SourcePos {
         let tok_len = next.len();
         self.byte += tok_len;
         self.line += newlines;
-        self.col = if newlines == 0 { self.col + tok_len } else { 1 };
+        self.col = match next.as_str().rfind('\n') {
+            Some(last_newline) => tok_len - last_newline,
+            None => self.col + tok_len,
+        };
     }
 
     /// Increments self by `num_tab` tab characters
-- 
2.43.0


From ee75f11958b4a32dc6b2cf820631ffd508fc2380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:24 +0000
Subject: [PATCH 24/25] fix: literals within the double-quoted parts of longer
 words were not joined

---
 src/ast/builder/default_builder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ast/builder/default_builder.rs b/src/ast/builder/default_builder.rs
index a4244ba..e81f65a 100644
--- a/src/ast/builder/default_builder.rs
+++ b/src/ast/builder/default_builder.rs
@@ -799,7 +799,12 @@ fn compress<C>(word: ComplexWordKind<C>) -> ComplexWordKind<C> {
             DoubleQuoted(v) => DoubleQuoted(Coalesce::new(v, coalesce_simple).collect()),
         }),
         Concat(v) => {
-            let mut body: Vec<_> = Coalesce::new(v.into_iter(), coalesce_word).collect();
+            let mut body: Vec<_> = Coalesce::new(v.into_iter(), coalesce_word)
+                .map(|w| match w {
+                    DoubleQuoted(v) => DoubleQuoted(Coalesce::new(v, coalesce_simple).collect()),
+                    w => w,
+                })
+                .collect();
             if body.len() == 1 {
                 Single(body.pop().unwrap())
             } else {
-- 
2.43.0


From 0d639d1cf285c2d3f17eaca0b4613fd8f7df678e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:18 +0000
Subject: [PATCH 25/25] fix: put adjacent double quoted pieces together without
 copying them over and over

Every piece was collected into a new vector along with all those before it, so a
word of many adjacent double quoted pieces took the square of its length to build.
---
 src/ast/builder/default_builder.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ast/builder/default_builder.rs b/src/ast/builder/default_builder.rs
index e81f65a..0ff5798 100644
--- a/src/ast/builder/default_builder.rs
+++ b/src/ast/builder/default_builder.rs
@@ -785,9 +785,10 @@ fn compress<C>(word: ComplexWordKind<C>) -> ComplexWordKind<C> {
                 a.push_str(&b);
                 Ok(SingleQuoted(a))
             }
-            (DoubleQuoted(a), DoubleQuoted(b)) => {
-                let quoted = Coalesce::new(a.into_iter().chain(b), coalesce_simple).collect();
-                Ok(DoubleQuoted(quoted))
+            // Their contents are coalesced below, once all of them have been put together.
+            (DoubleQuoted(mut a), DoubleQuoted(b)) => {
+                a.extend(b);
+                Ok(DoubleQuoted(a))
             }
             (a, b) => Err((a, b)),
         }
-- 
2.43.0

