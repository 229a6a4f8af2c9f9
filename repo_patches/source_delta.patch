From 459083e0164e71683e90440773501d2c1e2e38ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:08 +0000
Subject: [PATCH 01/15] fix: iterate over a block's errors instead of panicking

ASTBlock::iter_errors ended in todo!(), so listing the errors of any block
panicked. Visit the block and the blocks inside its statements in source order.
---
 src/parser/blocks.rs | 54 ++++++++++++++------------------------------
 1 file changed, 17 insertions(+), 37 deletions(-)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index ec76fc2..66f5511 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -29,17 +29,14 @@ impl<const T: usize> From<[Node; T]> for ASTBlock {
 }
 
 struct ASTBlockErrorIterator<'a> {
-    blocks: Vec<&'a ASTBlock>,
-    current_block_index: usize,
-    current_block_statement: usize,
+    /// What remains to be visited of the current block and of each block around it, innermost last
+    pending: Vec<std::collections::vec_deque::Iter<'a, Node>>,
 }
 
 impl<'a> ASTBlockErrorIterator<'a> {
     pub fn new(first_block: &'a ASTBlock) -> ASTBlockErrorIterator<'a> {
         ASTBlockErrorIterator {
-            blocks: vec![first_block],
-            current_block_index: 0,
-            current_block_statement: 0,
+            pending: vec![first_block.0.iter()],
         }
     }
 }
@@ -76,46 +73,29 @@ impl Node {
     }
 }
 
-enum ASTErrorOrBlock<'a> {
-    Error(&'a ASTErrorType),
-    Block(Vec<&'a ASTBlock>),
-}
-
 impl<'a> Iterator for ASTBlockErrorIterator<'a> {
     type Item = ASTErrorType;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let _block_node = self
-            .blocks
-            .iter()
-            .skip(self.current_block_index)
-            .find_map(|block| {
-                block
-                    .0
-                    .iter()
-                    .skip(self.current_block_statement)
-                    .find_map(|node| {
-                        self.current_block_statement += 1;
-                        node.get_inner_block()
-                            .map(|block| ASTErrorOrBlock::Block(block))
-                            .or_else(|| match node {
-                                Node::ASTError(error) => Some(ASTErrorOrBlock::Error(error)),
-                                _ => None,
-                            })
-                    })
-                    .or_else(|| {
-                        self.current_block_index += 1;
-                        None
-                    })
-            });
-
-        todo!()
+        loop {
+            match self.pending.last_mut()?.next() {
+                Some(Node::ASTError(error)) => return Some(error.clone()),
+                Some(node) => {
+                    let inner_blocks = node.get_inner_block().unwrap_or_default();
+                    self.pending
+                        .extend(inner_blocks.into_iter().rev().map(|block| block.0.iter()));
+                }
+                None => {
+                    self.pending.pop();
+                }
+            }
+        }
     }
 }
 
 impl ASTBlock {
     /// Iterates over any errors inside the block
-    pub fn iter_errors(&self) -> impl Iterator + '_ {
+    pub fn iter_errors(&self) -> impl Iterator<Item = ASTErrorType> + '_ {
         ASTBlockErrorIterator::new(self)
     }
 }
-- 
2.43.0


From 3caf4b1359d951eb67d4dd84b01d14140102e069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:37 +0000
Subject: [PATCH 02/15] fix: tokenize characters longer than one byte without
 panicking

Strings were cut at character indices used as byte indices, and the unicode
ellipsis and unknown characters were cut after their first byte.
---
 src/lexer/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index bbf053e..57328ab 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -68,7 +68,7 @@ fn parse_identifier(code: &str) -> Option<&str> {
 }
 
 fn parse_string(code: &str) -> Option<(&str, &str)> {
-    let mut chars = code.chars().enumerate().peekable();
+    let mut chars = code.char_indices().peekable();
     if let Some((_, char)) = chars.next() {
         if char != '"' {
             return None;
@@ -124,7 +124,7 @@ fn parse_ellipsis(code: &str) -> Option<&str> {
     if code.starts_with("...") {
         Some(&code[..3])
     } else if code.starts_with('\u{2026}') {
-        Some(&code[..1])
+        Some(&code[..'\u{2026}'.len_utf8()])
     } else {
         None
     }
@@ -363,7 +363,7 @@ pub fn tokenize(code: String) -> Result<Vec<Token>, TokenError> {
             continue;
         }
 
-        let raw_symbol = &code[..1];
+        let raw_symbol = &code[..code.chars().next().map_or(0, |char| char.len_utf8())];
         tokens.push(make_token(
             &mut code,
             &mut current_position,
-- 
2.43.0


From 737409fffd9559d77c46c4d2c03c220195479f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:39 +0000
Subject: [PATCH 03/15] fix: recognise a number that ends the source text

---
 src/lexer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index 57328ab..97094e7 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -26,9 +26,9 @@ fn parse_number(code: &str) -> Option<(&str, NumberToken)> {
             return false;
         };
         true
-    })?;
+    });
 
-    let number_str = &code[0..position];
+    let number_str = &code[0..position.unwrap_or(code.len())];
     let number = if has_dot_been_used {
         NumberToken::Float(number_str.parse().ok()?)
     } else {
-- 
2.43.0


From ca525a451a346852639ef4e8650bd87eab6b49fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:03 +0000
Subject: [PATCH 04/15] fix: count the line breaks inside tokens

A string or comment that spans lines ended on its first line, so everything
after it had wrong lines and was joined to or split from its neighbours.
---
 src/lexer/position.rs            | 17 ++++++++++-------
 src/lexer/range.rs               |  4 ++++
 src/parser/statement_iterator.rs |  2 ++
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/lexer/position.rs b/src/lexer/position.rs
index b8d262e..b62f69f 100644
--- a/src/lexer/position.rs
+++ b/src/lexer/position.rs
@@ -41,18 +41,21 @@ impl PartialOrd for Position {
 impl Add<&str> for Position {
     type Output = Position;
     fn add(self, rhs: &str) -> Self::Output {
-        return Position {
-            line: self.line,
-            column: self.column + rhs.len() as i32,
-            chars: self.chars + rhs.chars().count() as i32,
-            bytes: self.bytes + rhs.bytes().len() as i32,
-        };
+        let mut position = self;
+        position += rhs;
+        position
     }
 }
 
 impl AddAssign<&str> for Position {
     fn add_assign(&mut self, rhs: &str) -> () {
-        self.column = self.column + rhs.len() as i32;
+        match rhs.rfind('\n') {
+            Some(last_line_break) => {
+                self.line = self.line + rhs.matches('\n').count() as i32;
+                self.column = (rhs.len() - last_line_break) as i32;
+            }
+            None => self.column = self.column + rhs.len() as i32,
+        };
         self.chars = self.chars + rhs.chars().count() as i32;
         self.bytes = self.bytes + rhs.bytes().len() as i32;
     }
diff --git a/src/lexer/range.rs b/src/lexer/range.rs
index 7bb3f05..a850325 100644
--- a/src/lexer/range.rs
+++ b/src/lexer/range.rs
@@ -33,6 +33,10 @@ impl Range {
     pub(crate) fn start_line(&self) -> i32 {
         self.0.line
     }
+
+    pub(crate) fn end_line(&self) -> i32 {
+        self.1.line
+    }
 }
 
 #[cfg(test)]
diff --git a/src/parser/statement_iterator.rs b/src/parser/statement_iterator.rs
index a918a55..74c09fa 100644
--- a/src/parser/statement_iterator.rs
+++ b/src/parser/statement_iterator.rs
@@ -120,6 +120,8 @@ impl Iterator for StatementIterator {
             }
             Some((_, range)) => {
                 if range.start_line() == self.current_line {
+                    // Strings and comments may end on a later line
+                    self.current_line = range.end_line();
                     self.tokens_iter.next()
                 } else {
                     None
-- 
2.43.0


From 845590d42640f55c871d5ab6f8a87b822ea19644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:49 +0000
Subject: [PATCH 05/15] fix: do not skip the statement that follows a finished
 or rejected line

Moving to the next statement twice in a row, which happens after HAI, after the
closing line of a function or switch and after a rejected block header or branch
line, silently discarded the whole statement in between or made it part of an
error. A line continuation at the start of a statement, or a long run of them,
no longer ends the block or overflows the stack.
---
 src/parser/statement_iterator.rs | 68 ++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 25 deletions(-)

diff --git a/src/parser/statement_iterator.rs b/src/parser/statement_iterator.rs
index 74c09fa..1e6dea0 100644
--- a/src/parser/statement_iterator.rs
+++ b/src/parser/statement_iterator.rs
@@ -7,6 +7,9 @@ pub struct StatementIterator {
     tokens_iter: Peekable<std::vec::IntoIter<Token>>,
     current_line: i32,
     peeked: Option<Option<Token>>,
+    /// Whether a token of the current statement has been handed out. If not, the iterator already
+    /// stands at the start of a statement.
+    started: bool,
 }
 
 impl StatementIterator {
@@ -15,6 +18,7 @@ impl StatementIterator {
             current_line: tokens.first().map(|t| t.range.start_line()).unwrap_or(0),
             tokens_iter: tokens.into_iter().peekable(),
             peeked: None,
+            started: true,
         }
     }
 
@@ -22,7 +26,7 @@ impl StatementIterator {
         match self.peeked {
             Some(ref val) => val.as_ref(),
             None => {
-                self.peeked = Some(self.next());
+                self.peeked = Some(self.advance());
                 self.peeked.as_ref().unwrap().as_ref()
             }
         }
@@ -58,13 +62,24 @@ impl StatementIterator {
         }
     }
 
+    /// Takes what remains of the current statement, and moves to the start of the next one. At the
+    /// start of a statement there is nothing to take and nowhere to move.
     pub fn next_statement(&mut self) -> VecDeque<Token> {
-        let remaining_tokens = self.collect();
+        if !self.started && matches!(self.peeked, Some(Some(_))) {
+            return VecDeque::new();
+        }
+
+        let remaining_tokens = if self.started {
+            self.collect()
+        } else {
+            VecDeque::new()
+        };
         self.peeked = None;
+        self.started = false;
 
         while self
             .tokens_iter
-            .next_if(|t| t.token_type == TokenType::Comma)
+            .next_if(|t| matches!(t.token_type, TokenType::Comma | TokenType::Ellipsis))
             .is_some()
         {}
 
@@ -74,6 +89,25 @@ impl StatementIterator {
 
         remaining_tokens
     }
+
+    /// Takes the next token of the current statement out of the token list
+    fn advance(&mut self) -> Option<Token> {
+        loop {
+            let token = self.tokens_iter.next_if(|t| {
+                t.token_type != TokenType::Comma && t.range.start_line() == self.current_line
+            })?;
+
+            if token.token_type != TokenType::Ellipsis {
+                // Strings and comments may end on a later line
+                self.current_line = token.range.end_line();
+                return Some(token);
+            }
+
+            self.tokens_iter
+                .peek()
+                .map(|t| self.current_line = t.range.start_line());
+        }
+    }
 }
 
 impl From<VecDeque<VecDeque<Token>>> for StatementIterator {
@@ -104,29 +138,13 @@ impl Iterator for StatementIterator {
     type Item = Token;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match self.peeked.take() {
-            Some(token) => return token,
-            None => {}
+        let token = match self.peeked.take() {
+            Some(token) => token,
+            None => self.advance(),
         };
-
-        match self.tokens_iter.peek().map(|t| (&t.token_type, &t.range)) {
-            None | Some((TokenType::Comma, _)) => None,
-            Some((TokenType::Ellipsis, range)) if range.start_line() == self.current_line => {
-                self.tokens_iter.next();
-                self.tokens_iter
-                    .peek()
-                    .map(|t| self.current_line = t.range.start_line());
-                self.next()
-            }
-            Some((_, range)) => {
-                if range.start_line() == self.current_line {
-                    // Strings and comments may end on a later line
-                    self.current_line = range.end_line();
-                    self.tokens_iter.next()
-                } else {
-                    None
-                }
-            }
+        if token.is_some() {
+            self.started = true;
         }
+        token
     }
 }
-- 
2.43.0


From abab0c094ad53e5a1f7ca38186c7e495dc145bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:04 +0000
Subject: [PATCH 06/15] fix: recognise the end of a block whose body is empty

The word that closes a block was parsed as a statement of its body when it came
first, so an empty loop, function, branch or case swallowed what follows it.
---
 src/parser/blocks.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index 66f5511..50daaf9 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -115,6 +115,11 @@ fn parse_block(
 ) -> ASTBlock {
     let mut block = ASTBlock::default();
     loop {
+        match statement_iterator.peek() {
+            Some(token) if should_stop_at_token(token) => break,
+            _ => {}
+        }
+
         match statement_iterator.next() {
             Some(token) => block.0.push_back(
                 parse_statement(token, statement_iterator).unwrap_or_else(|err| err.into()),
@@ -126,10 +131,8 @@ fn parse_block(
             .next_statement_should_be_empty()
             .unwrap_or_else(|err| block.0.push_back(err.into()));
 
-        match statement_iterator.peek() {
-            Some(token) if should_stop_at_token(token) => break,
-            None => break,
-            Some(_) => {}
+        if statement_iterator.peek().is_none() {
+            break;
         }
     }
     block
-- 
2.43.0


From c8e95eea1ffe384b0932589c2e5f99a1a991b32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:14 +0000
Subject: [PATCH 07/15] fix: report what follows a variable access instead of
 panicking

---
 src/parser/statements/mod.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/parser/statements/mod.rs b/src/parser/statements/mod.rs
index b0c50ef..5c6bddc 100644
--- a/src/parser/statements/mod.rs
+++ b/src/parser/statements/mod.rs
@@ -206,18 +206,16 @@ pub(crate) fn parse_statement(
     if VariableAccess::is_valid(&first_token) {
         let variable_access = VariableAccess::parse(first_token, tokens)?;
         return match tokens.peek().map(|t| &t.token_type) {
-            None => Ok(Node::Expression(ASTExpression::Value(
-                ASTExpressionValue::VariableAccess(variable_access),
-            ))),
             Some(TokenType::Keyword(Keywords::R)) => {
                 VariableAssignment::parse(variable_access, tokens).map(|t| t.into())
             }
             Some(TokenType::Keyword(Keywords::HAS_A)) => {
                 BukkitSetSlot::parse(variable_access, tokens).map(|t| t.into())
             }
-
-            // TODO - fix this mess
-            Some(_) => unreachable!(),
+            // Anything that follows is reported as too many tokens
+            _ => Ok(Node::Expression(ASTExpression::Value(
+                ASTExpressionValue::VariableAccess(variable_access),
+            ))),
         };
     }
 
-- 
2.43.0


From cb280d4e36f005d67408064d2e41b8687d753656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:22 +0000
Subject: [PATCH 08/15] fix: report the unsupported MAEK as an error instead of
 panicking

---
 src/parser/expression/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/parser/expression/mod.rs b/src/parser/expression/mod.rs
index 96a9903..2a694f0 100644
--- a/src/parser/expression/mod.rs
+++ b/src/parser/expression/mod.rs
@@ -350,9 +350,7 @@ impl ASTExpression {
                     }
                     // String concat operation
                     Keywords::SMOOSH => NaryOperation::parse(NaryOpt::Smoosh(first_token), tokens),
-                    // Type Cast operation
-                    Keywords::MAEK => todo!(),
-
+                    // TODO - Type Cast operation (MAEK)
                     _ => Err(ASTErrorType::UnexpectedToken(first_token)),
                 }
             }
-- 
2.43.0


From fe9ff6e50b5851ab8d2ac9aa96d0c4e6b01d3d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:27 +0000
Subject: [PATCH 09/15] fix: recognise ANY OF, which was read as AN and the
 name Y

---
 src/lexer/keywords.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lexer/keywords.rs b/src/lexer/keywords.rs
index 3e1b7df..323af8a 100644
--- a/src/lexer/keywords.rs
+++ b/src/lexer/keywords.rs
@@ -31,6 +31,8 @@ pub enum Keywords {
     NUMBAR,
     YARN,
     MKAY,
+    // Keywords are tried in order, so this must come before AN
+    ANY_OF,
     AN,
     SUM_OF,
     DIFF_OF,
@@ -47,7 +49,6 @@ pub enum Keywords {
     UPPIN,
     NERFIN,
     ALL_OF,
-    ANY_OF,
     DIFFRINT,
     SMOOSH,
     MAEK,
-- 
2.43.0


From 016078933657f2913700d130f12815f590343487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:19 +0000
Subject: [PATCH 10/15] fix: comments are not statements

---
 src/parser/statement_iterator.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/parser/statement_iterator.rs b/src/parser/statement_iterator.rs
index 1e6dea0..7b110b8 100644
--- a/src/parser/statement_iterator.rs
+++ b/src/parser/statement_iterator.rs
@@ -13,7 +13,15 @@ pub struct StatementIterator {
 }
 
 impl StatementIterator {
-    pub fn new(tokens: Vec<Token>) -> StatementIterator {
+    pub fn new(mut tokens: Vec<Token>) -> StatementIterator {
+        // Comments are no part of any statement
+        tokens.retain(|token| {
+            !matches!(
+                token.token_type,
+                TokenType::CommentSingleLine(_) | TokenType::CommentMultiLine(_)
+            )
+        });
+
         StatementIterator {
             current_line: tokens.first().map(|t| t.range.start_line()).unwrap_or(0),
             tokens_iter: tokens.into_iter().peekable(),
@@ -98,7 +106,7 @@ impl StatementIterator {
             })?;
 
             if token.token_type != TokenType::Ellipsis {
-                // Strings and comments may end on a later line
+                // Strings may end on a later line
                 self.current_line = token.range.end_line();
                 return Some(token);
             }
-- 
2.43.0


From 125b671d9824686448a7b4e6f233ebb1dd238fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:20 +0000
Subject: [PATCH 11/15] fix: carriage returns are blank space

---
 src/lexer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index 97094e7..e4f1ebd 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -108,7 +108,7 @@ fn parse_whitespace(code: &str, position: &mut Position) -> usize {
                 position.bytes += char.len_utf8() as i32;
                 position.chars += 1;
                 true
-            } else if *char == ' ' || *char == '\t' {
+            } else if *char == ' ' || *char == '\t' || *char == '\r' {
                 position.column += 1;
                 position.bytes += char.len_utf8() as i32;
                 position.chars += 1;
-- 
2.43.0


From f9c92f109d181faac4d4de260dd27d1901f64bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:21 +0000
Subject: [PATCH 12/15] fix: a name that begins with a keyword is one name

---
 src/lexer/mod.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index e4f1ebd..558d841 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -37,11 +37,21 @@ fn parse_number(code: &str) -> Option<(&str, NumberToken)> {
     return Some((number_str, number));
 }
 
+fn is_identifier_char(char: char) -> bool {
+    char == '_' || char.is_ascii_alphanumeric()
+}
+
+/// Whether the code starts with the given word, and not with a longer one
+fn starts_with_word(code: &str, word: &str) -> bool {
+    code.strip_prefix(word)
+        .map_or(false, |rest| !rest.starts_with(is_identifier_char))
+}
+
 fn parse_keyword(code: &str) -> Option<(&str, Keywords)> {
     Keywords::iter()
         .find(|keyword| {
             let keyword_str: &str = keyword.to_string_slice();
-            code.starts_with(keyword_str)
+            starts_with_word(code, keyword_str)
         })
         .and_then(|keyword| {
             Some((
@@ -134,9 +144,9 @@ fn parse_boolean(code: &str) -> Option<(&str, bool)> {
     let true_str = Keywords::WIN.to_string_slice();
     let false_str = Keywords::FAIL.to_string_slice();
 
-    if code.starts_with(true_str) {
+    if starts_with_word(code, true_str) {
         Some((&code[..true_str.len()], true))
-    } else if code.starts_with(false_str) {
+    } else if starts_with_word(code, false_str) {
         Some((&code[..false_str.len()], false))
     } else {
         None
@@ -146,7 +156,7 @@ fn parse_boolean(code: &str) -> Option<(&str, bool)> {
 fn parse_noob(code: &str) -> Option<&str> {
     let noob_str = Keywords::NOOB.to_string_slice();
 
-    if code.starts_with(noob_str) {
+    if starts_with_word(code, noob_str) {
         Some(&code[..noob_str.len()])
     } else {
         None
-- 
2.43.0


From 890f99ab83daf470258f0c3f62777e6044339c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:23 +0000
Subject: [PATCH 13/15] fix: names may contain digits

---
 src/lexer/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index 558d841..63bfc8c 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -62,12 +62,14 @@ fn parse_keyword(code: &str) -> Option<(&str, Keywords)> {
 }
 
 fn parse_identifier(code: &str) -> Option<&str> {
+    if code.starts_with(|char: char| char.is_ascii_digit()) {
+        return None;
+    }
+
     let non_ident_position = code
         .chars()
         .into_iter()
-        .take_while(|char| {
-            *char == '_' || (*char >= 'a' && *char <= 'z') || (*char >= 'A' && *char <= 'Z')
-        })
+        .take_while(|char| is_identifier_char(*char))
         .count();
 
     if non_ident_position == 0 {
-- 
2.43.0


From ceff42d06e7ae3dcf133ef01279a5229fe19d419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:24 +0000
Subject: [PATCH 14/15] fix: an escaped colon does not escape the quote after
 it

---
 src/lexer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index 63bfc8c..9aa6066 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -89,7 +89,7 @@ fn parse_string(code: &str) -> Option<(&str, &str)> {
 
     while let Some((index, char)) = chars.next() {
         if char == ':' {
-            if let Some((_, '"')) = chars.peek() {
+            if let Some((_, '"' | ':')) = chars.peek() {
                 chars.next();
             }
         }
-- 
2.43.0


From 89eefc9e082b2b915d84b3f515e90f0be25ef84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:52 +0000
Subject: [PATCH 15/15] fix: any amount of blanks may separate the words of a
 keyword

---
 src/lexer/mod.rs | 53 ++++++++++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index 9aa6066..b0ca7b0 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -41,24 +41,31 @@ fn is_identifier_char(char: char) -> bool {
     char == '_' || char.is_ascii_alphanumeric()
 }
 
-/// Whether the code starts with the given word, and not with a longer one
-fn starts_with_word(code: &str, word: &str) -> bool {
-    code.strip_prefix(word)
-        .map_or(false, |rest| !rest.starts_with(is_identifier_char))
+/// The part of the code that matches the given words, if it starts with them. Words are separated
+/// by any amount of blanks, and may not be part of a longer word.
+fn match_words<'a>(code: &'a str, words: &str) -> Option<&'a str> {
+    let mut rest = code;
+    for (index, word) in words.split(' ').enumerate() {
+        if index > 0 {
+            let trimmed = rest.trim_start_matches(|char| char == ' ' || char == '\t');
+            if trimmed.len() == rest.len() {
+                return None;
+            }
+            rest = trimmed;
+        }
+        rest = rest.strip_prefix(word)?;
+        if rest.starts_with(is_identifier_char) {
+            return None;
+        }
+    }
+    Some(&code[..code.len() - rest.len()])
 }
 
 fn parse_keyword(code: &str) -> Option<(&str, Keywords)> {
-    Keywords::iter()
-        .find(|keyword| {
-            let keyword_str: &str = keyword.to_string_slice();
-            starts_with_word(code, keyword_str)
-        })
-        .and_then(|keyword| {
-            Some((
-                &code[0..keyword.to_string_slice().len()],
-                (*keyword).clone(),
-            ))
-        })
+    Keywords::iter().find_map(|keyword| {
+        match_words(code, keyword.to_string_slice())
+            .map(|keyword_str| (keyword_str, (*keyword).clone()))
+    })
 }
 
 fn parse_identifier(code: &str) -> Option<&str> {
@@ -146,23 +153,17 @@ fn parse_boolean(code: &str) -> Option<(&str, bool)> {
     let true_str = Keywords::WIN.to_string_slice();
     let false_str = Keywords::FAIL.to_string_slice();
 
-    if starts_with_word(code, true_str) {
-        Some((&code[..true_str.len()], true))
-    } else if starts_with_word(code, false_str) {
-        Some((&code[..false_str.len()], false))
+    if let Some(raw_boolean) = match_words(code, true_str) {
+        Some((raw_boolean, true))
+    } else if let Some(raw_boolean) = match_words(code, false_str) {
+        Some((raw_boolean, false))
     } else {
         None
     }
 }
 
 fn parse_noob(code: &str) -> Option<&str> {
-    let noob_str = Keywords::NOOB.to_string_slice();
-
-    if starts_with_word(code, noob_str) {
-        Some(&code[..noob_str.len()])
-    } else {
-        None
-    }
+    match_words(code, Keywords::NOOB.to_string_slice())
 }
 
 fn parse_single_line_comment(code: &str) -> Option<(&str, String)> {
-- 
2.43.0

