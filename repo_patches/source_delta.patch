From 496a47e16f41d1515dc050f0870fed48b1bca44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:40 +0000
Subject: [PATCH 1/7] fix: close every block with its own end identifier

parse_directives() returned at any of AttributeEnd, TransformEnd and WorldEnd
and never consumed it, so the first inner block ended all the blocks around
it: everything after it was dropped, mismatched ends were accepted, and so
was a file that stops before WorldEnd. Consume the end identifier that
belongs to the block; any other one is an unknown identifier there.
---
 src/parser.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 93c25a1..fa776a3 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1044,15 +1044,15 @@ impl Parser {
             }
             "AttributeBegin" => Ok(Directive::Attribute(BlockStruct {
                 pos: start_pos,
-                children: self.parse_directives()?,
+                children: self.parse_directives("AttributeEnd")?,
             })),
             "TransformBegin" => Ok(Directive::Transform(BlockStruct {
                 pos: start_pos,
-                children: self.parse_directives()?,
+                children: self.parse_directives("TransformEnd")?,
             })),
             "WorldBegin" => Ok(Directive::World(BlockStruct {
                 pos: start_pos,
-                children: self.parse_directives()?,
+                children: self.parse_directives("WorldEnd")?,
             })),
             "Include" => Ok(Directive::Include(
                 start_pos,
@@ -1078,7 +1078,8 @@ impl Parser {
         }
     }
 
-    fn parse_directives(&mut self) -> ParserResult<Vec<Directive>> {
+    /// Parses the directives of a block up to and including its closing identifier
+    fn parse_directives(&mut self, block_close: &str) -> ParserResult<Vec<Directive>> {
         let mut directives = vec![];
         loop {
             match self.peek()? {
@@ -1086,7 +1087,8 @@ impl Parser {
                     ty: TokenType::Identifier(ref s),
                     ..
                 } => {
-                    if s == "AttributeEnd" || s == "TransformEnd" || s == "WorldEnd" {
+                    if s == block_close {
+                        self.next()?;
                         return Ok(directives);
                     } else {
                         directives.push(self.parse_directive()?);
-- 
2.43.0


From 75f58091a236df983ceee2f9821828798f5f3e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:41 +0000
Subject: [PATCH 2/7] fix: report malformed parameters instead of dropping them

parse_param_lists() took any error as the end of the parameters, so a
parameter with a bad type, name or values (and, where values were missing,
the declaration itself) vanished without an error. A string at this point
always starts a parameter; only stop when the next token is not one.
---
 src/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index fa776a3..2252431 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -561,7 +561,13 @@ impl Parser {
     }
 
     fn parse_param_lists(&mut self, param_set: &mut ParamSet) -> ParserResult<()> {
-        while self.parse_param_list(param_set).is_ok() {}
+        while let Ok(Token {
+            ty: TokenType::Str(_),
+            ..
+        }) = self.peek()
+        {
+            self.parse_param_list(param_set)?;
+        }
         Ok(())
     }
 
-- 
2.43.0


From 4663fead3742ca977a5bfc042bb5bb111b123ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:32 +0000
Subject: [PATCH 3/7] fix: do not overflow on integers with large exponents

1e19 and up panicked with overflow checks and wrapped around without, and
exponents were truncated to 32 bits (1e4294967296 read as 1). Such a number
does not fit an int; read it as a float.
---
 src/parser.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2252431..030cc98 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1,4 +1,5 @@
 use core::*;
+use std::convert::TryFrom;
 use std::fmt;
 use std::num::{ParseFloatError, ParseIntError};
 use std::path::PathBuf;
@@ -403,13 +404,20 @@ impl Tokenizer {
                             })
                         }
                         TokenType::Int(i) if i >= 0 && !is_float => {
+                            let num = num_chars.into_iter().collect::<String>();
+                            let int = num.parse::<isize>()?;
+                            // Too large for an int: keep it as a float
                             return Ok(Token {
                                 pos: start_pos,
-                                ty: TokenType::Int(
-                                    num_chars.into_iter().collect::<String>().parse::<isize>()?
-                                        * isize::pow(10, i as u32),
-                                ),
-                            })
+                                ty: match u32::try_from(i)
+                                    .ok()
+                                    .and_then(|exp| isize::checked_pow(10, exp))
+                                    .and_then(|scale| int.checked_mul(scale))
+                                {
+                                    Some(int) => TokenType::Int(int),
+                                    None => TokenType::Float(format!("{}e{}", num, i).parse()?),
+                                },
+                            });
                         }
                         TokenType::Int(i) => {
                             return Ok(Token {
-- 
2.43.0


From 729a2949cd3b2e4ea4b2348641bb28bd9cfbae31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:33 +0000
Subject: [PATCH 4/7] fix: skip comments and whitespace without recursion

tokenize_one() called itself after every comment and every run of
whitespace, so a long block of comment lines overflowed the stack.
---
 src/parser.rs | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 030cc98..e02de11 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -311,16 +311,27 @@ impl Tokenizer {
         self.index >= self.chars.len()
     }
 
-    fn tokenize_one(&mut self) -> TokenizerResult<Token> {
-        match self.peek() {
-            Ok('#') => {
-                while let Ok(ch) = self.next() {
-                    if ch == '\n' {
-                        break;
+    fn skip_blanks(&mut self) {
+        loop {
+            match self.peek() {
+                Ok('#') => {
+                    while let Ok(ch) = self.next() {
+                        if ch == '\n' {
+                            break;
+                        }
                     }
                 }
-                self.tokenize_one()
+                Ok(c) if c.is_whitespace() => {
+                    let _ = self.next();
+                }
+                _ => return,
             }
+        }
+    }
+
+    fn tokenize_one(&mut self) -> TokenizerResult<Token> {
+        self.skip_blanks();
+        match self.peek() {
             Ok('"') => self.tokenize_str(),
             Ok('[') => {
                 let tok = Ok(Token {
@@ -339,17 +350,6 @@ impl Tokenizer {
                 tok
             }
             Ok(c) if c == '-' || c == '+' || c == '.' || c.is_numeric() => self.tokenize_num(),
-            Ok(c) if c.is_whitespace() => {
-                while let Ok(ch) = self.peek() {
-                    match ch {
-                        ch if ch.is_whitespace() => {
-                            self.next()?;
-                        }
-                        _ => break,
-                    }
-                }
-                self.tokenize_one()
-            }
             Ok(c) if c.is_alphabetic() => self.tokenize_id(),
             Ok(c) => Err(TokenizerError::Str(format!(
                 "{} tokenize_one(): unexpected char '{}'",
-- 
2.43.0


From 5d965b4f727c7c7fe5e745e629498b37511c9414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:46 +0000
Subject: [PATCH 5/7] fix: do not accept exponents of exponents

tokenize_num() read an exponent with itself, so 1e1e1e1... was a number and
a long chain of them overflowed the stack.
---
 src/parser.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index e02de11..2a9af17 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -349,7 +349,9 @@ impl Tokenizer {
                 let _ = self.next();
                 tok
             }
-            Ok(c) if c == '-' || c == '+' || c == '.' || c.is_numeric() => self.tokenize_num(),
+            Ok(c) if c == '-' || c == '+' || c == '.' || c.is_numeric() => {
+                self.tokenize_num(false)
+            }
             Ok(c) if c.is_alphabetic() => self.tokenize_id(),
             Ok(c) => Err(TokenizerError::Str(format!(
                 "{} tokenize_one(): unexpected char '{}'",
@@ -359,7 +361,7 @@ impl Tokenizer {
         }
     }
 
-    fn tokenize_num(&mut self) -> TokenizerResult<Token> {
+    fn tokenize_num(&mut self, is_exp: bool) -> TokenizerResult<Token> {
         let start_pos = self.pos;
         let mut num_chars = vec![];
         match self.peek() {
@@ -385,6 +387,12 @@ impl Tokenizer {
                     is_float = true;
                     num_chars.push(self.next()?);
                 },
+                Ok(ch @ 'e') if is_exp => {
+                    return Err(TokenizerError::Str(format!(
+                        "{} tokenize_num(): unexpected char '{}'",
+                        self.pos, ch
+                    )))
+                }
                 Ok('e') => {
                     if num_chars.is_empty() {
                         return Err(TokenizerError::Str(format!(
@@ -393,7 +401,7 @@ impl Tokenizer {
                         )));
                     }
                     let _ = self.next();
-                    match self.tokenize_num()?.remove_pos() {
+                    match self.tokenize_num(true)?.remove_pos() {
                         TokenType::Float(f) => {
                             return Ok(Token {
                                 pos: start_pos,
-- 
2.43.0


From 58521ee512066182a8f62952c35f6b686dc42fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:01 +0000
Subject: [PATCH 6/7] fix: refuse blocks nested too deep instead of overflowing
 the stack

parse_directive() and parse_directives() recurse for every nested block, so a
file of nothing but AttributeBegin crashed the process (in a debug build a few
hundred of them are enough on a thread with the default stack size). Limit
the nesting to 100 blocks.
---
 src/parser.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 2a9af17..4092124 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -214,8 +214,12 @@ pub struct Tokenizer {
 pub struct Parser {
     tokens: Vec<Token>,
     index: usize,
+    block_depth: usize,
 }
 
+/// Blocks nested deeper than this are an error, so that they cannot exhaust the stack
+const MAX_BLOCK_DEPTH: usize = 100;
+
 pub type TokenizerResult<T> = Result<T, TokenizerError>;
 pub type ParserResult<T> = Result<T, ParserError>;
 
@@ -540,6 +544,7 @@ impl Parser {
         Ok(Parser {
             tokens: Tokenizer::tokenize(input)?,
             index: 0,
+            block_depth: 0,
         })
     }
 
@@ -1102,6 +1107,14 @@ impl Parser {
 
     /// Parses the directives of a block up to and including its closing identifier
     fn parse_directives(&mut self, block_close: &str) -> ParserResult<Vec<Directive>> {
+        if self.block_depth == MAX_BLOCK_DEPTH {
+            return Err(ParserError::Str(format!(
+                "{} parse_directives(): blocks nested more than {} deep",
+                self.pos()?,
+                MAX_BLOCK_DEPTH
+            )));
+        }
+        self.block_depth += 1;
         let mut directives = vec![];
         loop {
             match self.peek()? {
@@ -1111,6 +1124,7 @@ impl Parser {
                 } => {
                     if s == block_close {
                         self.next()?;
+                        self.block_depth -= 1;
                         return Ok(directives);
                     } else {
                         directives.push(self.parse_directive()?);
-- 
2.43.0


From 8bf5b16fd5e837769289e61a621e800cad3316d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:38 +0000
Subject: [PATCH 7/7] fix: read decimal numbers with an exponent without
 intermediate overflow

The mantissa was multiplied by a power of ten computed separately, so
0.0e50 became NaN, 0.000001e40 infinite and 10000000000.5e-46 zero.
---
 src/parser.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 4092124..c5b6809 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -432,13 +432,11 @@ impl Tokenizer {
                             });
                         }
                         TokenType::Int(i) => {
+                            let num = num_chars.into_iter().collect::<String>();
                             return Ok(Token {
                                 pos: start_pos,
-                                ty: TokenType::Float(
-                                    num_chars.into_iter().collect::<String>().parse::<Float>()?
-                                        * Float::powf(10.0, i as Float),
-                                ),
-                            })
+                                ty: TokenType::Float(format!("{}e{}", num, i).parse()?),
+                            });
                         }
                         _ => {
                             return Err(TokenizerError::Str(format!(
-- 
2.43.0

