From a8b86772356a8038a56effe6faa4d0769f4b1afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:17 +0000
Subject: [PATCH 01/21] fix: recognise a number at the very end of the text

parse_number gave up when no character followed the digits, so the last
number of a file without final newline became one symbol per digit.
---
 src/lexer/mod.rs | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index bbf053e..f164daa 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -14,19 +14,23 @@ mod tests;
 
 fn parse_number(code: &str) -> Option<(&str, NumberToken)> {
     let mut has_dot_been_used = false;
-    let position = code.chars().enumerate().position(|(index, char)| {
-        if index as i32 == 0 && (char == '-' || char == '+') {
-            return false;
-        };
-        if char >= '0' && char <= '9' {
-            return false;
-        };
-        if !has_dot_been_used && char == '.' {
-            has_dot_been_used = true;
-            return false;
-        };
-        true
-    })?;
+    let position = code
+        .chars()
+        .enumerate()
+        .position(|(index, char)| {
+            if index as i32 == 0 && (char == '-' || char == '+') {
+                return false;
+            };
+            if char >= '0' && char <= '9' {
+                return false;
+            };
+            if !has_dot_been_used && char == '.' {
+                has_dot_been_used = true;
+                return false;
+            };
+            true
+        })
+        .unwrap_or(code.len());
 
     let number_str = &code[0..position];
     let number = if has_dot_been_used {
-- 
2.43.0


From bf632b37b206396230202961190912d20159ca49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:17 +0000
Subject: [PATCH 02/21] fix: do not panic on non-ASCII text

Strings were cut at character indices used as byte indices, and the
ellipsis character and symbols were assumed to be one byte long.
---
 src/lexer/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index f164daa..2311663 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -72,7 +72,7 @@ fn parse_identifier(code: &str) -> Option<&str> {
 }
 
 fn parse_string(code: &str) -> Option<(&str, &str)> {
-    let mut chars = code.chars().enumerate().peekable();
+    let mut chars = code.char_indices().peekable();
     if let Some((_, char)) = chars.next() {
         if char != '"' {
             return None;
@@ -125,10 +125,12 @@ fn parse_whitespace(code: &str, position: &mut Position) -> usize {
 }
 
 fn parse_ellipsis(code: &str) -> Option<&str> {
+    const UNICODE_ELLIPSIS: char = '\u{2026}';
+
     if code.starts_with("...") {
         Some(&code[..3])
-    } else if code.starts_with('\u{2026}') {
-        Some(&code[..1])
+    } else if code.starts_with(UNICODE_ELLIPSIS) {
+        Some(&code[..UNICODE_ELLIPSIS.len_utf8()])
     } else {
         None
     }
@@ -367,7 +369,8 @@ pub fn tokenize(code: String) -> Result<Vec<Token>, TokenError> {
             continue;
         }
 
-        let raw_symbol = &code[..1];
+        let symbol_len = code.chars().next().map_or(0, |char| char.len_utf8());
+        let raw_symbol = &code[..symbol_len];
         tokens.push(make_token(
             &mut code,
             &mut current_position,
-- 
2.43.0


From 4e5c1fba7387f80b1c36f3f3afd59c5aecfba163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:17 +0000
Subject: [PATCH 03/21] fix: count lines and characters inside tokens when
 tracking positions

Newlines inside strings and multi-line comments did not advance the line,
and columns advanced by bytes instead of characters, so every position
after such a token was wrong.  A statement goes on after a token that
ends on a later line than it starts.
---
 src/lexer/position.rs            | 23 +++++++++++++----------
 src/lexer/range.rs               |  4 ++++
 src/parser/statement_iterator.rs |  3 +++
 3 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/lexer/position.rs b/src/lexer/position.rs
index b8d262e..77db486 100644
--- a/src/lexer/position.rs
+++ b/src/lexer/position.rs
@@ -40,21 +40,24 @@ impl PartialOrd for Position {
 
 impl Add<&str> for Position {
     type Output = Position;
-    fn add(self, rhs: &str) -> Self::Output {
-        return Position {
-            line: self.line,
-            column: self.column + rhs.len() as i32,
-            chars: self.chars + rhs.chars().count() as i32,
-            bytes: self.bytes + rhs.bytes().len() as i32,
-        };
+    fn add(mut self, rhs: &str) -> Self::Output {
+        self += rhs;
+        self
     }
 }
 
 impl AddAssign<&str> for Position {
     fn add_assign(&mut self, rhs: &str) -> () {
-        self.column = self.column + rhs.len() as i32;
-        self.chars = self.chars + rhs.chars().count() as i32;
-        self.bytes = self.bytes + rhs.bytes().len() as i32;
+        for char in rhs.chars() {
+            if char == '\n' {
+                self.line += 1;
+                self.column = 1;
+            } else {
+                self.column += 1;
+            }
+            self.chars += 1;
+            self.bytes += char.len_utf8() as i32;
+        }
     }
 }
 
diff --git a/src/lexer/range.rs b/src/lexer/range.rs
index 7bb3f05..a850325 100644
--- a/src/lexer/range.rs
+++ b/src/lexer/range.rs
@@ -33,6 +33,10 @@ impl Range {
     pub(crate) fn start_line(&self) -> i32 {
         self.0.line
     }
+
+    pub(crate) fn end_line(&self) -> i32 {
+        self.1.line
+    }
 }
 
 #[cfg(test)]
diff --git a/src/parser/statement_iterator.rs b/src/parser/statement_iterator.rs
index a918a55..71c8a29 100644
--- a/src/parser/statement_iterator.rs
+++ b/src/parser/statement_iterator.rs
@@ -120,6 +120,9 @@ impl Iterator for StatementIterator {
             }
             Some((_, range)) => {
                 if range.start_line() == self.current_line {
+                    // A token may span several lines, and what follows it on its last line still
+                    // belongs to the same statement.
+                    self.current_line = range.end_line();
                     self.tokens_iter.next()
                 } else {
                     None
-- 
2.43.0


From 68924622731e1db22fa6a76166865e350087aa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:39 +0000
Subject: [PATCH 04/21] fix: ignore comments when parsing

Comment tokens were handed to the statement parsers, which reported every
comment as an unexpected token.
---
 src/parser/statement_iterator.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/statement_iterator.rs b/src/parser/statement_iterator.rs
index 71c8a29..2a30293 100644
--- a/src/parser/statement_iterator.rs
+++ b/src/parser/statement_iterator.rs
@@ -10,7 +10,14 @@ pub struct StatementIterator {
 }
 
 impl StatementIterator {
-    pub fn new(tokens: Vec<Token>) -> StatementIterator {
+    pub fn new(mut tokens: Vec<Token>) -> StatementIterator {
+        // Comments may appear anywhere, and are never part of a statement
+        tokens.retain(|t| {
+            !matches!(
+                t.token_type,
+                TokenType::CommentSingleLine(_) | TokenType::CommentMultiLine(_)
+            )
+        });
         StatementIterator {
             current_line: tokens.first().map(|t| t.range.start_line()).unwrap_or(0),
             tokens_iter: tokens.into_iter().peekable(),
-- 
2.43.0


From 851dc2152457d8fb3c765071317e8773e946b0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:40 +0000
Subject: [PATCH 05/21] fix: report a missing R instead of panicking

A statement starting with a variable followed by anything but R or HAS A
reached unreachable!(); `var 10` is documented to be
VariableAssignmentError::MissingR.
---
 src/parser/statements/mod.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/parser/statements/mod.rs b/src/parser/statements/mod.rs
index b0c50ef..76a7ebe 100644
--- a/src/parser/statements/mod.rs
+++ b/src/parser/statements/mod.rs
@@ -209,15 +209,11 @@ pub(crate) fn parse_statement(
             None => Ok(Node::Expression(ASTExpression::Value(
                 ASTExpressionValue::VariableAccess(variable_access),
             ))),
-            Some(TokenType::Keyword(Keywords::R)) => {
-                VariableAssignment::parse(variable_access, tokens).map(|t| t.into())
-            }
             Some(TokenType::Keyword(Keywords::HAS_A)) => {
                 BukkitSetSlot::parse(variable_access, tokens).map(|t| t.into())
             }
-
-            // TODO - fix this mess
-            Some(_) => unreachable!(),
+            // Anything else after a variable can only be an assignment
+            Some(_) => VariableAssignment::parse(variable_access, tokens).map(|t| t.into()),
         };
     }
 
-- 
2.43.0


From 883410b55747485f1276829474b50bea8e27c944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:41 +0000
Subject: [PATCH 06/21] fix: report MAEK as an unexpected token instead of
 panicking

The type cast expression is not implemented; a program that uses it must
get an error, not a crash.
---
 src/parser/expression/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/parser/expression/mod.rs b/src/parser/expression/mod.rs
index 96a9903..e3889df 100644
--- a/src/parser/expression/mod.rs
+++ b/src/parser/expression/mod.rs
@@ -350,9 +350,7 @@ impl ASTExpression {
                     }
                     // String concat operation
                     Keywords::SMOOSH => NaryOperation::parse(NaryOpt::Smoosh(first_token), tokens),
-                    // Type Cast operation
-                    Keywords::MAEK => todo!(),
-
+                    // The type cast operation (MAEK) is not supported yet
                     _ => Err(ASTErrorType::UnexpectedToken(first_token)),
                 }
             }
-- 
2.43.0


From 10ddb5aa38c7222b5b0b15950f09fd3922d27de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:19 +0000
Subject: [PATCH 07/21] fix: accept empty block branches

A block always parsed one statement before looking for the token that
closes it, so the closing token of an empty branch became an error inside
it and the construct was never closed.
---
 src/parser/blocks.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index ec76fc2..f5d8a84 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -135,6 +135,11 @@ fn parse_block(
 ) -> ASTBlock {
     let mut block = ASTBlock::default();
     loop {
+        match statement_iterator.peek() {
+            Some(token) if should_stop_at_token(token) => break,
+            _ => {}
+        }
+
         match statement_iterator.next() {
             Some(token) => block.0.push_back(
                 parse_statement(token, statement_iterator).unwrap_or_else(|err| err.into()),
@@ -146,10 +151,8 @@ fn parse_block(
             .next_statement_should_be_empty()
             .unwrap_or_else(|err| block.0.push_back(err.into()));
 
-        match statement_iterator.peek() {
-            Some(token) if should_stop_at_token(token) => break,
-            None => break,
-            Some(_) => {}
+        if statement_iterator.peek().is_none() {
+            break;
         }
     }
     block
-- 
2.43.0


From 98b76795a3eb5d034940117042a4f75a8245ce1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:20 +0000
Subject: [PATCH 08/21] fix: do not report the statement after HAI as surplus
 tokens

Hai::parse moved on to the next statement, whose tokens the block parser
then took for leftovers of HAI and dropped into a TooManyTokens error.
---
 src/parser/statements/hai.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements/hai.rs b/src/parser/statements/hai.rs
index f60c73b..73c743c 100644
--- a/src/parser/statements/hai.rs
+++ b/src/parser/statements/hai.rs
@@ -18,7 +18,7 @@ impl Hai {
     ) -> Result<Hai, ASTErrorType> {
         Ok(Hai {
             hai_token: first_token,
-            version: tokens.next_statement(),
+            version: tokens.collect(),
         })
     }
 }
-- 
2.43.0


From b7fe244f1c18aafcdf177c92eca3949e76dd8464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:22 +0000
Subject: [PATCH 09/21] fix: do not swallow the statement after WTF? and HOW IZ
 I

Both parsers moved past the line of their closing keyword, and the block
parser then reported the whole next statement as TooManyTokens.
---
 src/parser/statements/how_is_i.rs | 2 --
 src/parser/statements/wtf.rs      | 2 --
 2 files changed, 4 deletions(-)

diff --git a/src/parser/statements/how_is_i.rs b/src/parser/statements/how_is_i.rs
index 83e918d..7337d59 100644
--- a/src/parser/statements/how_is_i.rs
+++ b/src/parser/statements/how_is_i.rs
@@ -69,8 +69,6 @@ impl HowIzI {
             Some(token) => return Err(ASTErrorType::UnexpectedToken(token)),
         }
 
-        tokens.next_statement_should_be_empty()?;
-
         Ok(HowIzI {
             how_iz_i_token: first_token,
             body,
diff --git a/src/parser/statements/wtf.rs b/src/parser/statements/wtf.rs
index 04e88b6..30873bd 100644
--- a/src/parser/statements/wtf.rs
+++ b/src/parser/statements/wtf.rs
@@ -80,8 +80,6 @@ impl Wtf {
             Some(token) => return Err(ASTErrorType::UnexpectedToken(token)),
         }
 
-        tokens.next_statement_should_be_empty()?;
-
         Ok(Wtf {
             wtf_token: first_token,
             omg,
-- 
2.43.0


From 08d2e3c37a4fec30471fe8cb63390592fd6a27d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:23 +0000
Subject: [PATCH 10/21] fix: keep the statement after a block header with
 surplus tokens

next_statement_should_be_empty moved on even when it failed; the failing
construct's caller moved on again and reported the statement after the
header as surplus tokens too.
---
 src/parser/blocks.rs             | 9 ++++++---
 src/parser/statement_iterator.rs | 4 +++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index f5d8a84..fd905bb 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -147,9 +147,12 @@ fn parse_block(
             None => {}
         };
 
-        statement_iterator
-            .next_statement_should_be_empty()
-            .unwrap_or_else(|err| block.0.push_back(err.into()));
+        let remaining_tokens = statement_iterator.next_statement();
+        if !remaining_tokens.is_empty() {
+            block
+                .0
+                .push_back(ASTErrorType::TooManyTokens(remaining_tokens).into());
+        }
 
         if statement_iterator.peek().is_none() {
             break;
diff --git a/src/parser/statement_iterator.rs b/src/parser/statement_iterator.rs
index 2a30293..9eb6ed7 100644
--- a/src/parser/statement_iterator.rs
+++ b/src/parser/statement_iterator.rs
@@ -57,10 +57,12 @@ impl StatementIterator {
     }
 
     pub fn next_statement_should_be_empty(&mut self) -> Result<(), ASTErrorType> {
-        let remaining_tokens = self.next_statement();
+        let remaining_tokens: VecDeque<Token> = self.collect();
         if !remaining_tokens.is_empty() {
+            // The statement has ended with an error. Moving on is up to whoever handles it.
             Err(ASTErrorType::TooManyTokens(remaining_tokens))
         } else {
+            self.next_statement();
             Ok(())
         }
     }
-- 
2.43.0


From a565ad2535e6b83b1474561c069a1649f8037ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:24 +0000
Subject: [PATCH 11/21] fix: do not drop the rest of the program after an empty
 continued statement

A statement made of an ellipsis only, followed by a comma, looked like the
end of the program.
---
 src/parser/statement_iterator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statement_iterator.rs b/src/parser/statement_iterator.rs
index 9eb6ed7..8727f93 100644
--- a/src/parser/statement_iterator.rs
+++ b/src/parser/statement_iterator.rs
@@ -73,7 +73,7 @@ impl StatementIterator {
 
         while self
             .tokens_iter
-            .next_if(|t| t.token_type == TokenType::Comma)
+            .next_if(|t| matches!(t.token_type, TokenType::Comma | TokenType::Ellipsis))
             .is_some()
         {}
 
-- 
2.43.0


From 2c7a5db36d59b807163b152089d1949f556d75c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:53 +0000
Subject: [PATCH 12/21] fix: implement ASTBlock::iter_errors

The iterator ended in todo!(), so the first call to next() panicked, and
its item type was hidden.
---
 src/parser/blocks.rs | 54 ++++++++++++++------------------------------
 1 file changed, 17 insertions(+), 37 deletions(-)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index fd905bb..d28226c 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -29,17 +29,14 @@ impl<const T: usize> From<[Node; T]> for ASTBlock {
 }
 
 struct ASTBlockErrorIterator<'a> {
-    blocks: Vec<&'a ASTBlock>,
-    current_block_index: usize,
-    current_block_statement: usize,
+    /// The blocks being visited, innermost last, each with the nodes still to be visited
+    blocks: Vec<std::collections::vec_deque::Iter<'a, Node>>,
 }
 
 impl<'a> ASTBlockErrorIterator<'a> {
     pub fn new(first_block: &'a ASTBlock) -> ASTBlockErrorIterator<'a> {
         ASTBlockErrorIterator {
-            blocks: vec![first_block],
-            current_block_index: 0,
-            current_block_statement: 0,
+            blocks: vec![first_block.0.iter()],
         }
     }
 }
@@ -76,46 +73,29 @@ impl Node {
     }
 }
 
-enum ASTErrorOrBlock<'a> {
-    Error(&'a ASTErrorType),
-    Block(Vec<&'a ASTBlock>),
-}
-
 impl<'a> Iterator for ASTBlockErrorIterator<'a> {
     type Item = ASTErrorType;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let _block_node = self
-            .blocks
-            .iter()
-            .skip(self.current_block_index)
-            .find_map(|block| {
-                block
-                    .0
-                    .iter()
-                    .skip(self.current_block_statement)
-                    .find_map(|node| {
-                        self.current_block_statement += 1;
-                        node.get_inner_block()
-                            .map(|block| ASTErrorOrBlock::Block(block))
-                            .or_else(|| match node {
-                                Node::ASTError(error) => Some(ASTErrorOrBlock::Error(error)),
-                                _ => None,
-                            })
-                    })
-                    .or_else(|| {
-                        self.current_block_index += 1;
-                        None
-                    })
-            });
-
-        todo!()
+        loop {
+            match self.blocks.last_mut()?.next() {
+                None => {
+                    self.blocks.pop();
+                }
+                Some(Node::ASTError(error)) => return Some(error.clone()),
+                Some(node) => {
+                    let inner_blocks = node.get_inner_block().unwrap_or_default();
+                    self.blocks
+                        .extend(inner_blocks.into_iter().rev().map(|block| block.0.iter()));
+                }
+            }
+        }
     }
 }
 
 impl ASTBlock {
     /// Iterates over any errors inside the block
-    pub fn iter_errors(&self) -> impl Iterator + '_ {
+    pub fn iter_errors(&self) -> impl Iterator<Item = ASTErrorType> + '_ {
         ASTBlockErrorIterator::new(self)
     }
 }
-- 
2.43.0


From e723fc981901cafdf2d69f3b3dc1c550c7a373c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:55 +0000
Subject: [PATCH 13/21] fix: recognise keywords only as whole words

An identifier such as `Anna`, `ROW` or `WINNER` was cut after the first
keyword its letters begin with (AN, R, WIN, ...), and OMGWTF could only be
told from OMG by the order of the enum.
---
 src/lexer/mod.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index 2311663..dc2527e 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -41,12 +41,20 @@ fn parse_number(code: &str) -> Option<(&str, NumberToken)> {
     return Some((number_str, number));
 }
 
+fn is_identifier_char(char: char) -> bool {
+    char == '_' || char.is_ascii_alphanumeric()
+}
+
+/// Whether the code starts with the given word, and not just with a longer word that begins with
+/// the same letters.
+fn starts_with_word(code: &str, word: &str) -> bool {
+    code.strip_prefix(word)
+        .map_or(false, |rest| !rest.starts_with(is_identifier_char))
+}
+
 fn parse_keyword(code: &str) -> Option<(&str, Keywords)> {
     Keywords::iter()
-        .find(|keyword| {
-            let keyword_str: &str = keyword.to_string_slice();
-            code.starts_with(keyword_str)
-        })
+        .find(|keyword| starts_with_word(code, keyword.to_string_slice()))
         .and_then(|keyword| {
             Some((
                 &code[0..keyword.to_string_slice().len()],
@@ -140,9 +148,9 @@ fn parse_boolean(code: &str) -> Option<(&str, bool)> {
     let true_str = Keywords::WIN.to_string_slice();
     let false_str = Keywords::FAIL.to_string_slice();
 
-    if code.starts_with(true_str) {
+    if starts_with_word(code, true_str) {
         Some((&code[..true_str.len()], true))
-    } else if code.starts_with(false_str) {
+    } else if starts_with_word(code, false_str) {
         Some((&code[..false_str.len()], false))
     } else {
         None
@@ -152,7 +160,7 @@ fn parse_boolean(code: &str) -> Option<(&str, bool)> {
 fn parse_noob(code: &str) -> Option<&str> {
     let noob_str = Keywords::NOOB.to_string_slice();
 
-    if code.starts_with(noob_str) {
+    if starts_with_word(code, noob_str) {
         Some(&code[..noob_str.len()])
     } else {
         None
-- 
2.43.0


From cf36665605e6efe406b653f26049f8f611a43749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:56 +0000
Subject: [PATCH 14/21] fix: tokenize the question mark as QuestionMark

The branch for it compared with a comma and could never be taken.  O RLY
and WTF now take the token, and still the plain symbol.
---
 src/lexer/mod.rs               | 2 +-
 src/parser/statements/o_rly.rs | 1 +
 src/parser/statements/wtf.rs   | 1 +
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index dc2527e..c870648 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -258,7 +258,7 @@ pub fn tokenize(code: String) -> Result<Vec<Token>, TokenError> {
             continue;
         }
 
-        if code.starts_with(',') {
+        if code.starts_with('?') {
             let raw_question_mark = &code[..1];
             tokens.push(make_token(
                 &mut code,
diff --git a/src/parser/statements/o_rly.rs b/src/parser/statements/o_rly.rs
index 33e37cf..c769000 100644
--- a/src/parser/statements/o_rly.rs
+++ b/src/parser/statements/o_rly.rs
@@ -54,6 +54,7 @@ impl ORly {
         tokens: &mut StatementIterator,
     ) -> Result<ORly, ASTErrorType> {
         match tokens.next().map(|t| t.token_type) {
+            Some(TokenType::QuestionMark) => {}
             Some(TokenType::Symbol(symbol)) if symbol == "?" => {}
             _ => return Err(ORlyError::MissingQuestionMark(first_token).into()),
         };
diff --git a/src/parser/statements/wtf.rs b/src/parser/statements/wtf.rs
index 30873bd..be660dc 100644
--- a/src/parser/statements/wtf.rs
+++ b/src/parser/statements/wtf.rs
@@ -37,6 +37,7 @@ impl Wtf {
         tokens: &mut StatementIterator,
     ) -> Result<Wtf, ASTErrorType> {
         match tokens.next().map(|t| t.token_type) {
+            Some(TokenType::QuestionMark) => {}
             Some(TokenType::Symbol(symbol)) if symbol == "?" => {}
             _ => return Err(ORlyError::MissingQuestionMark(first_token).into()),
         };
-- 
2.43.0


From c434f3a760e909e46f48d4376d0232bb54684c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:57 +0000
Subject: [PATCH 15/21] fix: treat carriage returns as whitespace

Every line of a file with CRLF line ends got a symbol token at its end.
---
 src/lexer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index c870648..dd68866 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -120,7 +120,7 @@ fn parse_whitespace(code: &str, position: &mut Position) -> usize {
                 position.bytes += char.len_utf8() as i32;
                 position.chars += 1;
                 true
-            } else if *char == ' ' || *char == '\t' {
+            } else if *char == ' ' || *char == '\t' || *char == '\r' {
                 position.column += 1;
                 position.bytes += char.len_utf8() as i32;
                 position.chars += 1;
-- 
2.43.0


From 4af581d0454ab00469b42b82a1f730838ed8fa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:59 +0000
Subject: [PATCH 16/21] fix: end a string after an escaped colon

In "a::" the second colon was taken to escape the closing quote, so the
string went on to the next quote or the end of the text.
---
 src/lexer/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index dd68866..4c4cd24 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -89,7 +89,8 @@ fn parse_string(code: &str) -> Option<(&str, &str)> {
 
     while let Some((index, char)) = chars.next() {
         if char == ':' {
-            if let Some((_, '"')) = chars.peek() {
+            // A colon escapes a quote, or another colon
+            if let Some((_, '"' | ':')) = chars.peek() {
                 chars.next();
             }
         }
-- 
2.43.0


From 69042b017cb9fed5b5d9aa23ef8ccbacf9aa04a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:00 +0000
Subject: [PATCH 17/21] fix: allow digits in identifiers

A name such as `var1` was split into an identifier and a number.
---
 src/lexer/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index 4c4cd24..bc6696b 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -64,12 +64,14 @@ fn parse_keyword(code: &str) -> Option<(&str, Keywords)> {
 }
 
 fn parse_identifier(code: &str) -> Option<&str> {
+    if code.starts_with(|char: char| char.is_ascii_digit()) {
+        return None;
+    }
+
     let non_ident_position = code
         .chars()
         .into_iter()
-        .take_while(|char| {
-            *char == '_' || (*char >= 'a' && *char <= 'z') || (*char >= 'A' && *char <= 'Z')
-        })
+        .take_while(|char| is_identifier_char(*char))
         .count();
 
     if non_ident_position == 0 {
-- 
2.43.0


From d3b2756eefe7ca6b212147b90dacce13525bb32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:01 +0000
Subject: [PATCH 18/21] fix: report invalid loop operations and conditionals as
 documented

ImInYrError::InvalidOperation and InvalidConditional were never produced;
a loop with a bad operation was reported as having too many tokens.
---
 src/parser/statements/im_in_yr.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/parser/statements/im_in_yr.rs b/src/parser/statements/im_in_yr.rs
index 1ed8e48..aba30e7 100644
--- a/src/parser/statements/im_in_yr.rs
+++ b/src/parser/statements/im_in_yr.rs
@@ -220,7 +220,10 @@ fn parse_conditional(
                 ..
             },
         ) => Some(LoopCondition::WILE(parse_conditional!(token)?)),
-        _ => None,
+        _ => match tokens.next() {
+            None => None,
+            Some(token) => return Err(ImInYrError::InvalidConditional(token).into()),
+        },
     };
 
     Ok(condition)
@@ -247,7 +250,17 @@ fn parse_iteration_operation(
                 ..
             },
         ) => LoopOperation::NERFIN(token),
-        _ => return Ok(None),
+        _ => {
+            return match tokens.next_if(|t| {
+                !matches!(
+                    t.token_type,
+                    TokenType::Keyword(Keywords::TIL | Keywords::WILE)
+                )
+            }) {
+                None => Ok(None),
+                Some(token) => Err(ImInYrError::InvalidOperation(token).into()),
+            }
+        }
     };
 
     match tokens.next() {
-- 
2.43.0


From cd015335a14a15de1b6eed41a15bce74811c12f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:03 +0000
Subject: [PATCH 19/21] fix: report a missing function name or argument as
 documented

`I IZ MKAY` and `I IZ name YR MKAY` are the documented examples of
IIzError::MissingName and MissingArgument, but were reported as an
unexpected MKAY.
---
 src/parser/statements/i_is.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/statements/i_is.rs b/src/parser/statements/i_is.rs
index e3f24c5..c4c82eb 100644
--- a/src/parser/statements/i_is.rs
+++ b/src/parser/statements/i_is.rs
@@ -43,7 +43,7 @@ impl IIz {
         first_token: Token,
         tokens: &mut StatementIterator,
     ) -> Result<IIz, ASTErrorType> {
-        let name = match tokens.next() {
+        let name = match tokens.next_if_token_type_ne(TokenType::Keyword(Keywords::MKAY)) {
             None => return Err(ASTErrorType::IIz(IIzError::MissingName(first_token))),
             Some(token) => VariableAccess::parse(token, tokens)?,
         };
@@ -56,7 +56,9 @@ impl IIz {
                 Some(token) => token,
                 None => break,
             };
-            let first_expression_token = match tokens.next() {
+            let first_expression_token = match tokens
+                .next_if_token_type_ne(TokenType::Keyword(Keywords::MKAY))
+            {
                 Some(token) => token,
                 None => return Err(ASTErrorType::IIz(IIzError::MissingArgument(yr_token))),
             };
-- 
2.43.0


From 39bd425648b5c6e5b7332a90d7632cdfcbe32554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:04 +0000
Subject: [PATCH 20/21] fix: do not recurse once per ellipsis

A long run of ellipses overflowed the stack.
---
 src/parser/statement_iterator.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/parser/statement_iterator.rs b/src/parser/statement_iterator.rs
index 8727f93..c7af153 100644
--- a/src/parser/statement_iterator.rs
+++ b/src/parser/statement_iterator.rs
@@ -118,15 +118,20 @@ impl Iterator for StatementIterator {
             None => {}
         };
 
+        while self
+            .tokens_iter
+            .next_if(|t| {
+                t.token_type == TokenType::Ellipsis && t.range.start_line() == self.current_line
+            })
+            .is_some()
+        {
+            self.tokens_iter
+                .peek()
+                .map(|t| self.current_line = t.range.start_line());
+        }
+
         match self.tokens_iter.peek().map(|t| (&t.token_type, &t.range)) {
             None | Some((TokenType::Comma, _)) => None,
-            Some((TokenType::Ellipsis, range)) if range.start_line() == self.current_line => {
-                self.tokens_iter.next();
-                self.tokens_iter
-                    .peek()
-                    .map(|t| self.current_line = t.range.start_line());
-                self.next()
-            }
             Some((_, range)) => {
                 if range.start_line() == self.current_line {
                     // A token may span several lines, and what follows it on its last line still
-- 
2.43.0


From c7afc51ff2cc5d46d94b891c9f12306d6f59711a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:43 +0000
Subject: [PATCH 21/21] Verification hook: make ASTStatement reachable under
 cfg(lolcode_verif)

---
 src/parser/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 3746de2..1318c03 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -5,6 +5,11 @@ use self::{blocks::parse_block_root, statement_iterator::StatementIterator};
 
 pub use blocks::ASTBlock;
 
+// For verification only: the range and the tokens of a statement
+#[allow(unexpected_cfgs)]
+#[cfg(lolcode_verif)]
+pub use ast_node::ASTStatement;
+
 mod ast_node;
 mod blocks;
 mod error;
-- 
2.43.0

