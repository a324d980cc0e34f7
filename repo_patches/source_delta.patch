From cdbd46e67e6458b88cb1333a12386a74ad408365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:21 +0000
Subject: [PATCH 01/24] Hooks: expose the private modules of two crates under
 cfg(vs_hooks)

---
 crates/jsonpath_rfc9535_locations/src/lib.rs         | 9 +++++++++
 crates/jsonpath_rfc9535_singular_selector/src/lib.rs | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/crates/jsonpath_rfc9535_locations/src/lib.rs b/crates/jsonpath_rfc9535_locations/src/lib.rs
index 42c2148..e6c1ae3 100644
--- a/crates/jsonpath_rfc9535_locations/src/lib.rs
+++ b/crates/jsonpath_rfc9535_locations/src/lib.rs
@@ -1,4 +1,7 @@
+#[cfg(not(vs_hooks))]
 mod conslist;
+#[cfg(vs_hooks)]
+pub mod conslist;
 pub mod env;
 pub mod errors;
 pub mod filter;
@@ -7,8 +10,14 @@ pub mod jsonpath;
 pub mod node;
 pub mod parser;
 pub mod query;
+#[cfg(not(vs_hooks))]
 mod segment;
+#[cfg(vs_hooks)]
+pub mod segment;
+#[cfg(not(vs_hooks))]
 mod selector;
+#[cfg(vs_hooks)]
+pub mod selector;
 pub mod standard_functions;
 mod unescape;
 
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/lib.rs b/crates/jsonpath_rfc9535_singular_selector/src/lib.rs
index 42c2148..e6c1ae3 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/lib.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/lib.rs
@@ -1,4 +1,7 @@
+#[cfg(not(vs_hooks))]
 mod conslist;
+#[cfg(vs_hooks)]
+pub mod conslist;
 pub mod env;
 pub mod errors;
 pub mod filter;
@@ -7,8 +10,14 @@ pub mod jsonpath;
 pub mod node;
 pub mod parser;
 pub mod query;
+#[cfg(not(vs_hooks))]
 mod segment;
+#[cfg(vs_hooks)]
+pub mod segment;
+#[cfg(not(vs_hooks))]
 mod selector;
+#[cfg(vs_hooks)]
+pub mod selector;
 pub mod standard_functions;
 mod unescape;
 
-- 
2.43.0


From 1b79fb981be8b43abfe8c3f4b866df281993e39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:29 +0000
Subject: [PATCH 02/24] fix: a NUL character does not end a query (hand-crafted
 lexer)

---
 crates/jsonpath_rfc9535/src/lexer.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/lexer.rs b/crates/jsonpath_rfc9535/src/lexer.rs
index f0e7828..700020d 100644
--- a/crates/jsonpath_rfc9535/src/lexer.rs
+++ b/crates/jsonpath_rfc9535/src/lexer.rs
@@ -204,6 +204,10 @@ impl<'q> Lexer<'q> {
         }
     }
 
+    fn at_end(&self) -> bool {
+        self.chars.as_str().is_empty()
+    }
+
     fn accept(&mut self, ch: char) -> bool {
         if self.peek() == ch {
             self.next();
@@ -288,7 +292,7 @@ fn lex_root(l: &mut Lexer) -> State {
 }
 
 fn lex_segment(l: &mut Lexer) -> State {
-    if l.ignore_whitespace() && l.peek() == EOQ {
+    if l.ignore_whitespace() && l.at_end() {
         return l.error(String::from("unexpected trailing whitespace"));
     }
 
@@ -304,8 +308,7 @@ fn lex_segment(l: &mut Lexer) -> State {
         State::LexInsideBracketedSegment
     } else if l.filter_depth > 0 {
         State::LexInsideFilter
-    } else if l.peek() == EOQ {
-        l.next();
+    } else if l.at_end() {
         l.emit(TokenType::Eoq);
         State::EndOfQuery
     } else {
@@ -422,7 +425,7 @@ fn lex_inside_bracketed_segment(l: &mut Lexer) -> State {
                 l.error(msg)
             }
         }
-        EOQ => l.error(String::from("unclosed bracketed selection")),
+        EOQ if l.at_end() => l.error(String::from("unclosed bracketed selection")),
         _ => {
             if l.accept_run(is_digit) {
                 l.emit(TokenType::Index {
@@ -444,7 +447,7 @@ fn lex_inside_filter(l: &mut Lexer) -> State {
     l.ignore_whitespace();
 
     match l.peek() {
-        EOQ => l.error(String::from("unclosed bracketed selection")),
+        EOQ if l.at_end() => l.error(String::from("unclosed bracketed selection")),
         ']' => {
             l.filter_depth -= 1;
             if l.paren_stack.len() == 1 {
@@ -606,8 +609,8 @@ fn lex_inside_filter(l: &mut Lexer) -> State {
 fn lex_string(l: &mut Lexer, quote: char, next_state: State) -> State {
     l.ignore(); // ignore open quote
 
-    if l.peek() == EOQ {
-        return l.error("unexpected end of query or null byte".to_string());
+    if l.at_end() {
+        return l.error("unexpected end of query".to_string());
     }
 
     loop {
@@ -618,7 +621,7 @@ fn lex_string(l: &mut Lexer, quote: char, next_state: State) -> State {
                     return l.error(String::from("invalid escape sequence"));
                 }
             }
-            EOQ => {
+            EOQ if l.at_end() => {
                 let msg = format!("unclosed string starting at index {}", l.start);
                 return l.error(msg);
             }
-- 
2.43.0


From 5a1baa4124957127a49a129fc4cc9fbf228ec4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:04 +0000
Subject: [PATCH 03/24] fix: consecutive bracketed segments inside a filter
 (hand-crafted lexer)

---
 crates/jsonpath_rfc9535/src/lexer.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/lexer.rs b/crates/jsonpath_rfc9535/src/lexer.rs
index 700020d..930d458 100644
--- a/crates/jsonpath_rfc9535/src/lexer.rs
+++ b/crates/jsonpath_rfc9535/src/lexer.rs
@@ -374,11 +374,7 @@ fn lex_inside_bracketed_segment(l: &mut Lexer) -> State {
         ']' => {
             l.next();
             l.emit(TokenType::RBracket);
-            if l.filter_depth > 0 {
-                State::LexInsideFilter
-            } else {
-                State::LexSegment
-            }
+            State::LexSegment
         }
         '*' => {
             l.next();
-- 
2.43.0


From 65b2b5945af714265d6bae6e597a37693e7cbfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 04/24] fix: filter selectors inside function arguments
 (hand-crafted lexer)

---
 crates/jsonpath_rfc9535/src/lexer.rs | 36 +++++++++++++++-------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/lexer.rs b/crates/jsonpath_rfc9535/src/lexer.rs
index 930d458..f72cad4 100644
--- a/crates/jsonpath_rfc9535/src/lexer.rs
+++ b/crates/jsonpath_rfc9535/src/lexer.rs
@@ -117,8 +117,8 @@ struct Lexer<'q> {
     start: usize,
     pos: usize,
 
-    filter_depth: u32,
-    paren_stack: Vec<u32>,
+    // One stack of open function calls for each filter selector we are inside of.
+    filter_stack: Vec<Vec<u32>>,
 }
 
 impl<'q> Lexer<'q> {
@@ -129,8 +129,7 @@ impl<'q> Lexer<'q> {
             start: 0,
             pos: 0,
             chars: query.char_indices(),
-            filter_depth: 0,
-            paren_stack: Vec::new(),
+            filter_stack: Vec::new(),
         }
     }
 
@@ -306,7 +305,7 @@ fn lex_segment(l: &mut Lexer) -> State {
     } else if l.accept('[') {
         l.emit(TokenType::LBracket);
         State::LexInsideBracketedSegment
-    } else if l.filter_depth > 0 {
+    } else if !l.filter_stack.is_empty() {
         State::LexInsideFilter
     } else if l.at_end() {
         l.emit(TokenType::Eoq);
@@ -384,7 +383,7 @@ fn lex_inside_bracketed_segment(l: &mut Lexer) -> State {
         '?' => {
             l.next();
             l.emit(TokenType::Filter);
-            l.filter_depth += 1;
+            l.filter_stack.push(Vec::new());
             State::LexInsideFilter
         }
         ',' => {
@@ -445,8 +444,7 @@ fn lex_inside_filter(l: &mut Lexer) -> State {
     match l.peek() {
         EOQ if l.at_end() => l.error(String::from("unclosed bracketed selection")),
         ']' => {
-            l.filter_depth -= 1;
-            if l.paren_stack.len() == 1 {
+            if l.filter_stack.pop().is_some_and(|calls| !calls.is_empty()) {
                 l.error(String::from("unbalanced parentheses"))
             } else {
                 State::LexInsideBracketedSegment
@@ -457,10 +455,10 @@ fn lex_inside_filter(l: &mut Lexer) -> State {
             l.emit(TokenType::Comma);
             // If we have unbalanced parens, we are inside a function call and a
             // comma separates arguments. Otherwise a comma separates selectors.
-            if !l.paren_stack.is_empty() {
+            if l.filter_stack.last().is_some_and(|calls| !calls.is_empty()) {
                 State::LexInsideFilter
             } else {
-                l.filter_depth -= 1;
+                l.filter_stack.pop();
                 State::LexInsideBracketedSegment
             }
         }
@@ -476,7 +474,7 @@ fn lex_inside_filter(l: &mut Lexer) -> State {
             l.next();
             l.emit(TokenType::LParen);
             // Are we in a function call? If so, a function argument contains parens.
-            if let Some(i) = l.paren_stack.last_mut() {
+            if let Some(i) = l.filter_stack.last_mut().and_then(|calls| calls.last_mut()) {
                 *i += 1;
             }
             State::LexInsideFilter
@@ -485,11 +483,13 @@ fn lex_inside_filter(l: &mut Lexer) -> State {
             l.next();
             l.emit(TokenType::RParen);
             // Are we closing a function call or a parenthesized expression?
-            if !l.paren_stack.is_empty() {
-                if *l.paren_stack.last().unwrap() == 1 {
-                    l.paren_stack.pop();
-                } else {
-                    *l.paren_stack.last_mut().unwrap() -= 1;
+            if let Some(calls) = l.filter_stack.last_mut() {
+                match calls.last_mut() {
+                    Some(1) => {
+                        calls.pop();
+                    }
+                    Some(i) => *i -= 1,
+                    None => (),
                 }
             }
             State::LexInsideFilter
@@ -578,7 +578,9 @@ fn lex_inside_filter(l: &mut Lexer) -> State {
                     _ => {
                         if l.peek() == '(' {
                             // a function call
-                            l.paren_stack.push(1);
+                            if let Some(calls) = l.filter_stack.last_mut() {
+                                calls.push(1);
+                            }
                             l.emit(TokenType::Function {
                                 name: l.boxed_value(),
                             });
-- 
2.43.0


From e977eea479fa90d9f9f79f29a871ec28d134cf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:12 +0000
Subject: [PATCH 05/24] fix: leading zeros and upper case exponents of number
 literals (hand-crafted lexer)

---
 crates/jsonpath_rfc9535/src/lexer.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/lexer.rs b/crates/jsonpath_rfc9535/src/lexer.rs
index f72cad4..24dfb34 100644
--- a/crates/jsonpath_rfc9535/src/lexer.rs
+++ b/crates/jsonpath_rfc9535/src/lexer.rs
@@ -645,7 +645,11 @@ fn lex_string(l: &mut Lexer, quote: char, next_state: State) -> State {
 }
 
 fn lex_number(l: &mut Lexer) -> State {
-    if !l.accept_run(is_digit) {
+    if l.accept('0') {
+        if is_digit(l.peek()) {
+            return l.error(String::from("leading zeros are not allowed"));
+        }
+    } else if !l.accept_run(is_digit) {
         let msg = format!("expected a digit, found `{}`", l.next().unwrap_or(EOQ));
         return l.error(msg);
     }
@@ -659,7 +663,7 @@ fn lex_number(l: &mut Lexer) -> State {
         }
 
         // exponent
-        if l.accept('e') {
+        if l.accept_if(|ch| ch == 'e' || ch == 'E') {
             l.accept_if(|ch| ch == '+' || ch == '-');
             if !l.accept_run(is_digit) {
                 return l.error(String::from("at least one exponent digit is required"));
@@ -671,7 +675,7 @@ fn lex_number(l: &mut Lexer) -> State {
         });
     } else {
         // exponent
-        if l.accept('e') {
+        if l.accept_if(|ch| ch == 'e' || ch == 'E') {
             if l.accept('-') {
                 // emit a float if exponent is negative
                 if !l.accept_run(is_digit) {
-- 
2.43.0


From 1a37fc294b7c39f5c5c6469401466b898d408eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 06/24] fix: trailing and missing commas in a bracketed
 selection (hand-crafted parser)

---
 crates/jsonpath_rfc9535/src/parser.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index 5df9a7d..5d40145 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -315,24 +315,22 @@ impl Parser {
                 }
             }
 
-            #[cfg(debug_assertions)]
-            debug_assert!(
-                matches!(
-                    it.peek(),
-                    Token {
-                        kind: Comma | TokenType::RBracket,
-                        ..
-                    }
-                ),
-                "expected a comma or the end of a bracketed selection"
-            );
-
             // expect a comma or closing bracket
             match it.peek() {
                 Token { kind: RBracket, .. } => continue,
                 Token { kind: Comma, .. } => {
                     // eat comma
                     it.next();
+                    if let Token {
+                        kind: RBracket,
+                        span,
+                    } = it.peek()
+                    {
+                        return Err(JSONPathError::syntax(
+                            String::from("unexpected trailing comma"),
+                            *span,
+                        ));
+                    }
                 }
                 token => {
                     return Err(JSONPathError::new(
-- 
2.43.0


From 025b1c18054c58438a68facf3566e266cec1c2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 07/24] fix: a slice step needs a second colon (hand-crafted
 parser)

---
 crates/jsonpath_rfc9535/src/parser.rs | 30 +++++++++++++--------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index 5d40145..a53be00 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -384,28 +384,26 @@ impl Parser {
                 it.next(); // eat colon
             }
 
-            // 1 or 1: or : or ?
-            if matches!(it.peek().kind, Index { .. } | Colon) {
-                if let Token {
-                    kind: Index { ref value },
-                    span,
-                } = it.next()
-                {
-                    stop = Some(self.parse_i_json_int(value, span)?);
-                    if it.peek().kind == Colon {
-                        it.next(); // eat colon
-                    }
-                }
+            // 1 or ?
+            if let Token {
+                kind: Index { ref value },
+                span,
+            } = it.peek()
+            {
+                stop = Some(self.parse_i_json_int(value, *span)?);
+                it.next();
             }
 
-            // 1 or ?
-            if matches!(it.peek().kind, Index { .. }) {
+            // : or :1 or ?
+            if it.peek().kind == Colon {
+                it.next(); // eat colon
                 if let Token {
                     kind: Index { ref value },
                     span,
-                } = it.next()
+                } = it.peek()
                 {
-                    step = Some(self.parse_i_json_int(value, span)?);
+                    step = Some(self.parse_i_json_int(value, *span)?);
+                    it.next();
                 }
             }
 
-- 
2.43.0


From cf594ac3e0e7f00598991af33477fb461ae59e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 08/24] fix: grouping, comparability and function arguments
 (hand-crafted parser)

---
 crates/jsonpath_rfc9535/src/parser.rs | 177 +++++++++++++++-----------
 1 file changed, 102 insertions(+), 75 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index a53be00..d03eae2 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -444,32 +444,7 @@ impl Parser {
         let token = it.next();
         let expr = self.parse_filter_expression(it, PRECEDENCE_LOWEST)?;
 
-        match expr {
-            FilterExpression::Function { ref name, span, .. } => {
-                if let Some(FunctionSignature {
-                    return_type: ExpressionType::Value,
-                    ..
-                }) = self.functions.get(name)
-                {
-                    return Err(JSONPathError::typ(
-                        format!("result of {}() must be compared", name),
-                        span,
-                    ));
-                }
-            }
-            FilterExpression::True { span, .. }
-            | FilterExpression::False { span, .. }
-            | FilterExpression::Null { span, .. }
-            | FilterExpression::String { span, .. }
-            | FilterExpression::Int { span, .. }
-            | FilterExpression::Float { span, .. } => {
-                return Err(JSONPathError::typ(
-                    String::from("filter expression literals must be compared"),
-                    span,
-                ));
-            }
-            _ => (),
-        }
+        self.assert_logical(&expr)?;
 
         Ok(Selector::Filter {
             span: token.span,
@@ -482,7 +457,18 @@ impl Parser {
         it: &mut TokenStream,
     ) -> Result<FilterExpression, JSONPathError> {
         let token = it.next();
+
+        if let Token { kind: Not, span } = it.peek() {
+            return Err(JSONPathError::syntax(
+                String::from(
+                    "expected a filter query, function call or parenthesized expression, found `!`",
+                ),
+                *span,
+            ));
+        }
+
         let expr = self.parse_filter_expression(it, PRECEDENCE_LOGICAL_NOT)?;
+        self.assert_logical(&expr)?;
         Ok(FilterExpression::Not {
             span: token.span,
             expression: Box::new(expr),
@@ -496,38 +482,38 @@ impl Parser {
     ) -> Result<FilterExpression, JSONPathError> {
         let op_token = it.next();
         let precedence = self.precedence(&op_token.kind);
+
+        if precedence == PRECEDENCE_RELATIONAL {
+            if let Token { kind: LParen, span } = it.peek() {
+                return Err(JSONPathError::syntax(
+                    String::from("parenthesized expressions are not comparable"),
+                    *span,
+                ));
+            }
+        }
+
         let right = self.parse_filter_expression(it, precedence)?;
 
         match op_token.kind {
             And => {
-                if left.is_literal() || right.is_literal() {
-                    Err(JSONPathError::syntax(
-                        String::from("filter expression literals must be compared"),
-                        left.span(),
-                    ))
-                } else {
-                    Ok(FilterExpression::Logical {
-                        span: left.span(),
-                        left: Box::new(left),
-                        operator: LogicalOperator::And,
-                        right: Box::new(right),
-                    })
-                }
+                self.assert_logical(&left)?;
+                self.assert_logical(&right)?;
+                Ok(FilterExpression::Logical {
+                    span: left.span(),
+                    left: Box::new(left),
+                    operator: LogicalOperator::And,
+                    right: Box::new(right),
+                })
             }
             Or => {
-                if left.is_literal() || right.is_literal() {
-                    Err(JSONPathError::syntax(
-                        String::from("filter expression literals must be compared"),
-                        left.span(),
-                    ))
-                } else {
-                    Ok(FilterExpression::Logical {
-                        span: left.span(),
-                        left: Box::new(left),
-                        operator: LogicalOperator::Or,
-                        right: Box::new(right),
-                    })
-                }
+                self.assert_logical(&left)?;
+                self.assert_logical(&right)?;
+                Ok(FilterExpression::Logical {
+                    span: left.span(),
+                    left: Box::new(left),
+                    operator: LogicalOperator::Or,
+                    right: Box::new(right),
+                })
             }
             Eq => {
                 self.assert_comparable(&left, left.span())?;
@@ -628,13 +614,20 @@ impl Parser {
             }
         }
 
-        #[cfg(debug_assertions)]
-        debug_assert!(
-            matches!(it.peek(), Token { kind: RParen, .. }),
-            "expected closing paren"
-        );
-
         it.next(); // eat closing paren
+        self.assert_logical(&expr)?;
+
+        if let Token {
+            kind: Eq | Ge | Gt | Le | Lt | Ne,
+            span,
+        } = it.peek()
+        {
+            return Err(JSONPathError::syntax(
+                String::from("parenthesized expressions are not comparable"),
+                *span,
+            ));
+        }
+
         Ok(expr)
     }
 
@@ -737,7 +730,11 @@ impl Parser {
         let token = it.next();
         let mut arguments: Vec<FilterExpression> = Vec::new();
 
+        // Is the argument at the same index parenthesized?
+        let mut grouped: Vec<bool> = Vec::new();
+
         while it.peek().kind != RParen {
+            grouped.push(it.peek().kind == LParen);
             let mut expr = self.parse_basic_expression(it)?;
 
             while matches!(it.peek().kind, Eq | Ge | Gt | Le | Lt | Ne | And | Or) {
@@ -752,22 +749,27 @@ impl Parser {
                 }
                 Token { kind: Comma, .. } => {
                     it.next(); // eat comma
+                    if let Token { kind: RParen, span } = it.peek() {
+                        return Err(JSONPathError::syntax(
+                            String::from("unexpected trailing comma"),
+                            *span,
+                        ));
+                    }
+                }
+                Token { kind, span } => {
+                    return Err(JSONPathError::syntax(
+                        format!("expected a comma or closing parenthesis, found {}", kind),
+                        *span,
+                    ));
                 }
-                _ => (),
             }
         }
 
-        #[cfg(debug_assertions)]
-        debug_assert!(
-            matches!(it.peek(), Token { kind: RParen, .. }),
-            "expected closing paren"
-        );
-
         it.next(); // eat closing paren
 
         if let Function { ref name } = &token.kind {
             let function_name = name.to_string();
-            self.assert_well_typed(&function_name, &arguments, &token)?;
+            self.assert_well_typed(&function_name, &arguments, &grouped, &token)?;
             Ok(FilterExpression::Function {
                 span: token.span,
                 name: function_name,
@@ -844,6 +846,36 @@ impl Parser {
                     ))
                 }
             }
+            expr if expr.is_literal() => Ok(()),
+            _ => Err(JSONPathError::typ(
+                String::from("logical expressions are not comparable"),
+                span,
+            )),
+        }
+    }
+
+    /// Literals and functions returning a value can't be used as a logical
+    /// expression without first being compared.
+    fn assert_logical(&self, expr: &FilterExpression) -> Result<(), JSONPathError> {
+        match expr {
+            FilterExpression::Function { name, span, .. } => {
+                if let Some(FunctionSignature {
+                    return_type: ExpressionType::Value,
+                    ..
+                }) = self.functions.get(name)
+                {
+                    Err(JSONPathError::typ(
+                        format!("result of {}() must be compared", name),
+                        *span,
+                    ))
+                } else {
+                    Ok(())
+                }
+            }
+            expr if expr.is_literal() => Err(JSONPathError::typ(
+                String::from("filter expression literals must be compared"),
+                expr.span(),
+            )),
             _ => Ok(()),
         }
     }
@@ -852,6 +884,7 @@ impl Parser {
         &self,
         func_name: &str,
         args: &[FilterExpression],
+        grouped: &[bool],
         token: &Token,
     ) -> Result<(), JSONPathError> {
         let signature = self.functions.get(func_name).ok_or_else(|| {
@@ -881,7 +914,7 @@ impl Parser {
             let arg = &args[idx];
             match typ {
                 ExpressionType::Value => {
-                    if !self.is_value_type(arg) {
+                    if grouped[idx] || !self.is_value_type(arg) {
                         return Err(JSONPathError::typ(
                             format!(
                                 "argument {} of {}() must be of a 'Value' type",
@@ -893,13 +926,7 @@ impl Parser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if self.assert_logical(arg).is_err() {
                         return Err(JSONPathError::typ(
                             format!(
                                 "argument {} of {}() must be of a 'Logical' type",
@@ -911,7 +938,7 @@ impl Parser {
                     }
                 }
                 ExpressionType::Nodes => {
-                    if !self.is_nodes_type(arg) {
+                    if grouped[idx] || !self.is_nodes_type(arg) {
                         return Err(JSONPathError::typ(
                             format!(
                                 "argument {} of {}() must be of a 'Nodes' type",
-- 
2.43.0


From 458e5e8b9ee1b32e2661b3c9c5fb21a5aa7cd30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 09/24] fix: unicode escapes and error positions in string
 literals (hand-crafted parser)

---
 crates/jsonpath_rfc9535/src/parser.rs | 187 +++++++++++---------------
 1 file changed, 78 insertions(+), 109 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index d03eae2..100932b 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -286,7 +286,7 @@ impl Parser {
                     kind: SingleQuoteString { value },
                     span,
                 } => {
-                    let name = unescape_string(&value.replace("\\'", "'"), span)?;
+                    let name = unescape_string(value, span)?;
                     let token = it.next();
                     selectors.push(Selector::Name {
                         span: token.span,
@@ -706,7 +706,7 @@ impl Parser {
                 kind: SingleQuoteString { value },
                 span,
             } => {
-                let value = unescape_string(&value.replace("\\'", "'"), span)?;
+                let value = unescape_string(value, span)?;
                 let token = it.next();
                 Ok(FilterExpression::String {
                     span: token.span,
@@ -1025,125 +1025,94 @@ impl Parser {
 }
 
 fn unescape_string(value: &str, token_span: &(usize, usize)) -> Result<String, JSONPathError> {
-    let chars = value.chars().collect::<Vec<char>>();
-    let length = chars.len();
     let mut rv = String::new();
-    let mut index: usize = 0;
-
-    while index < length {
-        let start_index = token_span.0 + index; // for error reporting
-
-        match chars[index] {
-            '\\' => {
-                if index + 1 >= length {
-                    return Err(JSONPathError::syntax(
-                        String::from("invalid escape"),
-                        (start_index, index + 1),
-                    ));
-                }
-
-                index += 1;
-
-                match chars[index] {
-                    '"' => rv.push('"'),
-                    '\\' => rv.push('\\'),
-                    '/' => rv.push('/'),
-                    'b' => rv.push('\x08'),
-                    'f' => rv.push('\x0C'),
-                    'n' => rv.push('\n'),
-                    'r' => rv.push('\r'),
-                    't' => rv.push('\t'),
-                    'u' => {
-                        // expect four hex digits
-                        if index + 4 >= length {
-                            return Err(JSONPathError::syntax(
-                                String::from("invalid \\uXXXX escape"),
-                                (start_index, length),
-                            ));
-                        }
-
-                        index += 1;
-
-                        let digits = chars
-                            .get(index..index + 4)
-                            .unwrap()
-                            .iter()
-                            .collect::<String>();
-
-                        let mut codepoint = u32::from_str_radix(&digits, 16).map_err(|_| {
-                            JSONPathError::syntax(
-                                String::from("invalid \\uXXXX escape"),
-                                (start_index, index + 4),
-                            )
-                        })?;
-
-                        if index + 5 < length && chars[index + 4] == '\\' && chars[index + 5] == 'u'
-                        {
-                            // expect a surrogate pair
-                            if index + 9 >= length {
-                                return Err(JSONPathError::syntax(
-                                    String::from("invalid \\uXXXX escape"),
-                                    (start_index, length),
-                                ));
-                            }
-
-                            let digits = &chars
-                                .get(index + 6..index + 10)
-                                .unwrap()
-                                .iter()
-                                .collect::<String>();
-
-                            let low_surrogate = u32::from_str_radix(digits, 16).map_err(|_| {
-                                JSONPathError::syntax(
-                                    String::from("invalid \\uXXXX escape"),
-                                    (start_index, index + 10),
-                                )
-                            })?;
-
-                            codepoint =
-                                0x10000 + (((codepoint & 0x03FF) << 10) | (low_surrogate & 0x03FF));
-
-                            index += 6;
-                        }
-
-                        let unescaped = char::from_u32(codepoint).ok_or_else(|| {
-                            JSONPathError::syntax(
-                                String::from("invalid \\uXXXX escape"),
-                                (start_index, index + 3),
-                            )
-                        })?;
-
-                        if unescaped as u32 <= 0x1F {
-                            return Err(JSONPathError::syntax(
-                                String::from("invalid character"),
-                                (start_index, start_index + 1),
-                            ));
-                        }
-
-                        rv.push(unescaped);
-                        index += 3;
-                    }
-                    _ => {
+    let mut rest = value;
+
+    while let Some(ch) = rest.chars().next() {
+        let start_index = token_span.0 + value.len() - rest.len(); // for error reporting
+        let mut escape = rest.chars();
+        escape.next();
+
+        if ch == '\\' {
+            match escape.next() {
+                Some('"') => rv.push('"'),
+                Some('\'') => rv.push('\''),
+                Some('\\') => rv.push('\\'),
+                Some('/') => rv.push('/'),
+                Some('b') => rv.push('\x08'),
+                Some('f') => rv.push('\x0C'),
+                Some('n') => rv.push('\n'),
+                Some('r') => rv.push('\r'),
+                Some('t') => rv.push('\t'),
+                Some('u') => {
+                    let hex = escape.as_str();
+                    let (unescaped, length) = decode_hex_char(hex).ok_or_else(|| {
+                        JSONPathError::syntax(
+                            String::from("invalid \\uXXXX escape"),
+                            (start_index, start_index + 2),
+                        )
+                    })?;
+
+                    if unescaped as u32 <= 0x1F {
                         return Err(JSONPathError::syntax(
-                            String::from("invalid escape"),
-                            (start_index, index + 1),
+                            String::from("invalid character"),
+                            (start_index, start_index + 2 + length),
                         ));
                     }
+
+                    rv.push(unescaped);
+                    rest = &hex[length..];
+                    continue;
                 }
-            }
-            c => {
-                if c as u32 <= 0x1F {
+                _ => {
                     return Err(JSONPathError::syntax(
-                        String::from("invalid character"),
-                        (start_index, index + 1),
+                        String::from("invalid escape"),
+                        (start_index, start_index + 1),
                     ));
                 }
-                rv.push(c);
             }
+        } else {
+            if ch as u32 <= 0x1F {
+                return Err(JSONPathError::syntax(
+                    String::from("invalid character"),
+                    (start_index, start_index + 1),
+                ));
+            }
+            rv.push(ch);
         }
 
-        index += 1;
+        rest = escape.as_str();
     }
 
     Ok(rv)
 }
+
+/// Decode the `XXXX` of a `\uXXXX` escape sequence, or the `XXXX\uXXXX` of a surrogate
+/// pair, at the start of _s_. Returns the character and the number of bytes decoded.
+fn decode_hex_char(s: &str) -> Option<(char, usize)> {
+    let code_point = parse_hex_digits(s)?;
+
+    if !(0xD800..=0xDBFF).contains(&code_point) {
+        // `from_u32` fails if code_point is a low surrogate
+        return Some((char::from_u32(code_point)?, 4));
+    }
+
+    let low_surrogate = parse_hex_digits(s[4..].strip_prefix("\\u")?)?;
+
+    if !(0xDC00..=0xDFFF).contains(&low_surrogate) {
+        return None;
+    }
+
+    let code_point = 0x10000 + (((code_point & 0x03FF) << 10) | (low_surrogate & 0x03FF));
+    Some((char::from_u32(code_point)?, 10))
+}
+
+fn parse_hex_digits(s: &str) -> Option<u32> {
+    let digits = s.get(..4)?;
+
+    if digits.bytes().all(|b| b.is_ascii_hexdigit()) {
+        u32::from_str_radix(digits, 16).ok()
+    } else {
+        None
+    }
+}
-- 
2.43.0


From aa96b565e9de7f08525be6c5459c5f6981aee85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 10/24] fix: the value of number literals (pest parsers)

---
 crates/jsonpath_rfc9535_iter/src/parser.rs    | 53 +++++--------------
 .../jsonpath_rfc9535_locations/src/parser.rs  | 53 +++++--------------
 crates/jsonpath_rfc9535_pest/src/parser.rs    | 53 +++++--------------
 .../src/parser.rs                             | 53 +++++--------------
 crates/jsonpath_rfc9535_serde/src/parser.rs   | 53 +++++--------------
 .../src/parser.rs                             | 53 +++++--------------
 6 files changed, 78 insertions(+), 240 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/parser.rs b/crates/jsonpath_rfc9535_iter/src/parser.rs
index 9b77877..f2e58e3 100644
--- a/crates/jsonpath_rfc9535_iter/src/parser.rs
+++ b/crates/jsonpath_rfc9535_iter/src/parser.rs
@@ -282,52 +282,25 @@ impl JSONPathParser {
     }
 
     fn parse_number(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-        if expr.as_str() == "-0" {
-            return Ok(FilterExpression::Int { value: 0 });
-        }
+        let text = expr.as_str();
 
-        // TODO: change pest grammar to indicate positive or negative exponent?
-        let mut it = expr.into_inner();
-        let mut is_float = false;
-        let mut n = it.next().unwrap().as_str().to_string(); // int
-
-        if let Some(pair) = it.next() {
-            match pair.as_rule() {
-                Rule::frac => {
-                    is_float = true;
-                    n.push_str(pair.as_str());
-                }
-                Rule::exp => {
-                    let exp_str = pair.as_str();
-                    if exp_str.contains('-') {
-                        is_float = true;
-                    }
-                    n.push_str(exp_str);
-                }
-                _ => unreachable!(),
-            }
+        if let Ok(value) = text.parse::<i64>() {
+            return Ok(FilterExpression::Int { value });
         }
 
-        if let Some(pair) = it.next() {
-            let exp_str = pair.as_str();
-            if exp_str.contains('-') {
-                is_float = true;
-            }
-            n.push_str(exp_str);
-        }
+        let value = text
+            .parse::<f64>()
+            .map_err(|_| JSONPathError::syntax(String::from("invalid number literal")))?;
 
-        if is_float {
-            Ok(FilterExpression::Float {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
-            })
+        // Without a fraction or negative exponent we have a whole number, but it
+        // might be too big to be represented exactly.
+        let is_float = text.contains('.') || text.contains("e-") || text.contains("E-");
+
+        if is_float || value.abs() > 9007199254740991.0 {
+            Ok(FilterExpression::Float { value })
         } else {
             Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
+                value: value as i64,
             })
         }
     }
diff --git a/crates/jsonpath_rfc9535_locations/src/parser.rs b/crates/jsonpath_rfc9535_locations/src/parser.rs
index 9b77877..f2e58e3 100644
--- a/crates/jsonpath_rfc9535_locations/src/parser.rs
+++ b/crates/jsonpath_rfc9535_locations/src/parser.rs
@@ -282,52 +282,25 @@ impl JSONPathParser {
     }
 
     fn parse_number(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-        if expr.as_str() == "-0" {
-            return Ok(FilterExpression::Int { value: 0 });
-        }
+        let text = expr.as_str();
 
-        // TODO: change pest grammar to indicate positive or negative exponent?
-        let mut it = expr.into_inner();
-        let mut is_float = false;
-        let mut n = it.next().unwrap().as_str().to_string(); // int
-
-        if let Some(pair) = it.next() {
-            match pair.as_rule() {
-                Rule::frac => {
-                    is_float = true;
-                    n.push_str(pair.as_str());
-                }
-                Rule::exp => {
-                    let exp_str = pair.as_str();
-                    if exp_str.contains('-') {
-                        is_float = true;
-                    }
-                    n.push_str(exp_str);
-                }
-                _ => unreachable!(),
-            }
+        if let Ok(value) = text.parse::<i64>() {
+            return Ok(FilterExpression::Int { value });
         }
 
-        if let Some(pair) = it.next() {
-            let exp_str = pair.as_str();
-            if exp_str.contains('-') {
-                is_float = true;
-            }
-            n.push_str(exp_str);
-        }
+        let value = text
+            .parse::<f64>()
+            .map_err(|_| JSONPathError::syntax(String::from("invalid number literal")))?;
 
-        if is_float {
-            Ok(FilterExpression::Float {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
-            })
+        // Without a fraction or negative exponent we have a whole number, but it
+        // might be too big to be represented exactly.
+        let is_float = text.contains('.') || text.contains("e-") || text.contains("E-");
+
+        if is_float || value.abs() > 9007199254740991.0 {
+            Ok(FilterExpression::Float { value })
         } else {
             Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
+                value: value as i64,
             })
         }
     }
diff --git a/crates/jsonpath_rfc9535_pest/src/parser.rs b/crates/jsonpath_rfc9535_pest/src/parser.rs
index 1497595..fefcbbb 100644
--- a/crates/jsonpath_rfc9535_pest/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest/src/parser.rs
@@ -334,52 +334,25 @@ impl JSONPathParser {
     }
 
     fn parse_number(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-        if expr.as_str() == "-0" {
-            return Ok(FilterExpression::Int { value: 0 });
-        }
+        let text = expr.as_str();
 
-        // TODO: change pest grammar to indicate positive or negative exponent?
-        let mut it = expr.into_inner();
-        let mut is_float = false;
-        let mut n = it.next().unwrap().as_str().to_string(); // int
-
-        if let Some(pair) = it.next() {
-            match pair.as_rule() {
-                Rule::frac => {
-                    is_float = true;
-                    n.push_str(pair.as_str());
-                }
-                Rule::exp => {
-                    let exp_str = pair.as_str();
-                    if exp_str.starts_with('-') {
-                        is_float = true;
-                    }
-                    n.push_str(exp_str);
-                }
-                _ => unreachable!(),
-            }
+        if let Ok(value) = text.parse::<i64>() {
+            return Ok(FilterExpression::Int { value });
         }
 
-        if let Some(pair) = it.next() {
-            let exp_str = pair.as_str();
-            if exp_str.starts_with('-') {
-                is_float = true;
-            }
-            n.push_str(exp_str);
-        }
+        let value = text
+            .parse::<f64>()
+            .map_err(|_| JSONPathError::syntax(String::from("invalid number literal")))?;
 
-        if is_float {
-            Ok(FilterExpression::Float {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
-            })
+        // Without a fraction or negative exponent we have a whole number, but it
+        // might be too big to be represented exactly.
+        let is_float = text.contains('.') || text.contains("e-") || text.contains("E-");
+
+        if is_float || value.abs() > 9007199254740991.0 {
+            Ok(FilterExpression::Float { value })
         } else {
             Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
+                value: value as i64,
             })
         }
     }
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
index 4cd4dc1..b2aaa92 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
@@ -353,52 +353,25 @@ impl JSONPathParser {
     }
 
     fn parse_number(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-        if expr.as_str() == "-0" {
-            return Ok(FilterExpression::Int { value: 0 });
-        }
+        let text = expr.as_str();
 
-        // TODO: change pest grammar to indicate positive or negative exponent?
-        let mut it = expr.into_inner();
-        let mut is_float = false;
-        let mut n = it.next().unwrap().as_str().to_string(); // int
-
-        if let Some(pair) = it.next() {
-            match pair.as_rule() {
-                Rule::frac => {
-                    is_float = true;
-                    n.push_str(pair.as_str());
-                }
-                Rule::exp => {
-                    let exp_str = pair.as_str();
-                    if exp_str.contains('-') {
-                        is_float = true;
-                    }
-                    n.push_str(exp_str);
-                }
-                _ => unreachable!(),
-            }
+        if let Ok(value) = text.parse::<i64>() {
+            return Ok(FilterExpression::Int { value });
         }
 
-        if let Some(pair) = it.next() {
-            let exp_str = pair.as_str();
-            if exp_str.contains('-') {
-                is_float = true;
-            }
-            n.push_str(exp_str);
-        }
+        let value = text
+            .parse::<f64>()
+            .map_err(|_| JSONPathError::syntax(String::from("invalid number literal")))?;
 
-        if is_float {
-            Ok(FilterExpression::Float {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
-            })
+        // Without a fraction or negative exponent we have a whole number, but it
+        // might be too big to be represented exactly.
+        let is_float = text.contains('.') || text.contains("e-") || text.contains("E-");
+
+        if is_float || value.abs() > 9007199254740991.0 {
+            Ok(FilterExpression::Float { value })
         } else {
             Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
+                value: value as i64,
             })
         }
     }
diff --git a/crates/jsonpath_rfc9535_serde/src/parser.rs b/crates/jsonpath_rfc9535_serde/src/parser.rs
index 58a0513..dbea139 100644
--- a/crates/jsonpath_rfc9535_serde/src/parser.rs
+++ b/crates/jsonpath_rfc9535_serde/src/parser.rs
@@ -279,52 +279,25 @@ impl JSONPathParser {
     }
 
     fn parse_number(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-        if expr.as_str() == "-0" {
-            return Ok(FilterExpression::Int { value: 0 });
-        }
+        let text = expr.as_str();
 
-        // TODO: change pest grammar to indicate positive or negative exponent?
-        let mut it = expr.into_inner();
-        let mut is_float = false;
-        let mut n = it.next().unwrap().as_str().to_string(); // int
-
-        if let Some(pair) = it.next() {
-            match pair.as_rule() {
-                Rule::frac => {
-                    is_float = true;
-                    n.push_str(pair.as_str());
-                }
-                Rule::exp => {
-                    let exp_str = pair.as_str();
-                    if exp_str.contains('-') {
-                        is_float = true;
-                    }
-                    n.push_str(exp_str);
-                }
-                _ => unreachable!(),
-            }
+        if let Ok(value) = text.parse::<i64>() {
+            return Ok(FilterExpression::Int { value });
         }
 
-        if let Some(pair) = it.next() {
-            let exp_str = pair.as_str();
-            if exp_str.contains('-') {
-                is_float = true;
-            }
-            n.push_str(exp_str);
-        }
+        let value = text
+            .parse::<f64>()
+            .map_err(|_| JSONPathError::syntax(String::from("invalid number literal")))?;
 
-        if is_float {
-            Ok(FilterExpression::Float {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
-            })
+        // Without a fraction or negative exponent we have a whole number, but it
+        // might be too big to be represented exactly.
+        let is_float = text.contains('.') || text.contains("e-") || text.contains("E-");
+
+        if is_float || value.abs() > 9007199254740991.0 {
+            Ok(FilterExpression::Float { value })
         } else {
             Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
+                value: value as i64,
             })
         }
     }
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
index b12afa0..7c8deb8 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
@@ -301,52 +301,25 @@ impl JSONPathParser {
     }
 
     fn parse_number(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-        if expr.as_str() == "-0" {
-            return Ok(FilterExpression::Int { value: 0 });
-        }
+        let text = expr.as_str();
 
-        // TODO: change pest grammar to indicate positive or negative exponent?
-        let mut it = expr.into_inner();
-        let mut is_float = false;
-        let mut n = it.next().unwrap().as_str().to_string(); // int
-
-        if let Some(pair) = it.next() {
-            match pair.as_rule() {
-                Rule::frac => {
-                    is_float = true;
-                    n.push_str(pair.as_str());
-                }
-                Rule::exp => {
-                    let exp_str = pair.as_str();
-                    if exp_str.contains('-') {
-                        is_float = true;
-                    }
-                    n.push_str(exp_str);
-                }
-                _ => unreachable!(),
-            }
+        if let Ok(value) = text.parse::<i64>() {
+            return Ok(FilterExpression::Int { value });
         }
 
-        if let Some(pair) = it.next() {
-            let exp_str = pair.as_str();
-            if exp_str.contains('-') {
-                is_float = true;
-            }
-            n.push_str(exp_str);
-        }
+        let value = text
+            .parse::<f64>()
+            .map_err(|_| JSONPathError::syntax(String::from("invalid number literal")))?;
 
-        if is_float {
-            Ok(FilterExpression::Float {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
-            })
+        // Without a fraction or negative exponent we have a whole number, but it
+        // might be too big to be represented exactly.
+        let is_float = text.contains('.') || text.contains("e-") || text.contains("E-");
+
+        if is_float || value.abs() > 9007199254740991.0 {
+            Ok(FilterExpression::Float { value })
         } else {
             Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
+                value: value as i64,
             })
         }
     }
-- 
2.43.0


From c6d026a83503a693aba10d792864164dfa861737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:23 +0000
Subject: [PATCH 11/24] fix: the value of integer literals (hand-crafted
 parser)

---
 crates/jsonpath_rfc9535/src/parser.rs | 29 +++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index 100932b..9aa8137 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -672,15 +672,32 @@ impl Parser {
                 kind: Int { value },
                 span,
             } => {
-                let i = value.parse::<f64>().map_err(|_| {
+                if let Ok(i) = value.parse::<i64>() {
+                    let token = it.next();
+                    return Ok(FilterExpression::Int {
+                        span: token.span,
+                        value: i,
+                    });
+                }
+
+                let f = value.parse::<f64>().map_err(|_| {
                     JSONPathError::syntax(String::from("invalid integer literal"), *span)
-                })? as i64;
+                })?;
 
                 let token = it.next();
-                Ok(FilterExpression::Int {
-                    span: token.span,
-                    value: i,
-                })
+
+                // A whole number might be too big to be represented exactly.
+                if f.abs() > 9007199254740991.0 {
+                    Ok(FilterExpression::Float {
+                        span: token.span,
+                        value: f,
+                    })
+                } else {
+                    Ok(FilterExpression::Int {
+                        span: token.span,
+                        value: f as i64,
+                    })
+                }
             }
             Token { kind: Null, .. } => {
                 let token = it.next();
-- 
2.43.0


From 33cf4cad33c674769395cb82123e2209992204b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 12/24] fix: escape names and strings in printed queries and
 normalized paths

---
 crates/jsonpath_rfc9535/src/query.rs          | 24 ++++++++++++++++++-
 crates/jsonpath_rfc9535_iter/src/filter.rs    |  3 ++-
 crates/jsonpath_rfc9535_iter/src/node.rs      |  4 +++-
 crates/jsonpath_rfc9535_iter/src/selector.rs  |  4 ++--
 crates/jsonpath_rfc9535_iter/src/unescape.rs  | 22 +++++++++++++++++
 .../jsonpath_rfc9535_locations/src/filter.rs  |  4 ++--
 crates/jsonpath_rfc9535_locations/src/node.rs |  4 ++--
 .../src/selector.rs                           |  3 ++-
 .../src/unescape.rs                           | 22 +++++++++++++++++
 crates/jsonpath_rfc9535_pest/src/ast.rs       | 24 ++++++++++++++++++-
 .../src/ast.rs                                | 24 ++++++++++++++++++-
 crates/jsonpath_rfc9535_serde/src/ast.rs      |  7 +++---
 crates/jsonpath_rfc9535_serde/src/unescape.rs | 22 +++++++++++++++++
 .../src/filter.rs                             |  4 ++--
 .../src/node.rs                               |  4 ++--
 .../src/selector.rs                           |  3 ++-
 .../src/unescape.rs                           | 22 +++++++++++++++++
 17 files changed, 180 insertions(+), 20 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/query.rs b/crates/jsonpath_rfc9535/src/query.rs
index 1d7dd05..1bbd232 100644
--- a/crates/jsonpath_rfc9535/src/query.rs
+++ b/crates/jsonpath_rfc9535/src/query.rs
@@ -132,7 +132,7 @@ pub enum Selector {
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => write!(f, "'{}'", escape(name)),
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
@@ -340,3 +340,25 @@ impl fmt::Display for FilterExpression {
         }
     }
 }
+
+/// Escape _value_ for use inside a single quoted string, following the rules for
+/// normalized paths.
+fn escape(value: &str) -> String {
+    let mut rv = String::with_capacity(value.len());
+
+    for ch in value.chars() {
+        match ch {
+            '\'' => rv.push_str("\\'"),
+            '\\' => rv.push_str("\\\\"),
+            '\x08' => rv.push_str("\\b"),
+            '\x0C' => rv.push_str("\\f"),
+            '\n' => rv.push_str("\\n"),
+            '\r' => rv.push_str("\\r"),
+            '\t' => rv.push_str("\\t"),
+            c if c < ' ' => rv.push_str(&format!("\\u{:04x}", c as u32)),
+            c => rv.push(c),
+        }
+    }
+
+    rv
+}
diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index c46c11c..f0b646f 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -4,6 +4,7 @@ use serde_json::Value;
 
 use crate::{
     env::Environment, function::ExpressionType, iter::QueryIter, node::NodeList, query::Query,
+    unescape::escape,
 };
 
 #[derive(Debug, Clone)]
@@ -141,7 +142,7 @@ impl fmt::Display for FilterExpression {
             FilterExpression::True { .. } => f.write_str("true"),
             FilterExpression::False { .. } => f.write_str("false"),
             FilterExpression::Null { .. } => f.write_str("null"),
-            FilterExpression::String { value, .. } => write!(f, "'{value}'"),
+            FilterExpression::String { value, .. } => write!(f, "'{}'", escape(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
             FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
diff --git a/crates/jsonpath_rfc9535_iter/src/node.rs b/crates/jsonpath_rfc9535_iter/src/node.rs
index 9c523f2..9423327 100644
--- a/crates/jsonpath_rfc9535_iter/src/node.rs
+++ b/crates/jsonpath_rfc9535_iter/src/node.rs
@@ -2,6 +2,8 @@ use std::rc::Rc;
 
 use serde_json::Value;
 
+use crate::unescape::escape;
+
 #[derive(Debug, Clone, PartialEq)]
 pub struct Node<'a> {
     pub value: &'a Value,
@@ -12,7 +14,7 @@ impl<'a> Node<'a> {
     pub fn new_child_member(&self, value: &'a Value, loc: &str) -> Rc<Self> {
         Rc::new(Node {
             value,
-            location: format!("{}['{}']", self.location, loc),
+            location: format!("{}['{}']", self.location, escape(loc)),
         })
     }
 
diff --git a/crates/jsonpath_rfc9535_iter/src/selector.rs b/crates/jsonpath_rfc9535_iter/src/selector.rs
index 594295c..0bdb8ec 100644
--- a/crates/jsonpath_rfc9535_iter/src/selector.rs
+++ b/crates/jsonpath_rfc9535_iter/src/selector.rs
@@ -5,7 +5,7 @@ use std::{
 
 use serde_json::Value;
 
-use crate::filter::FilterExpression;
+use crate::{filter::FilterExpression, unescape::escape};
 
 #[derive(Debug, Clone)]
 pub enum Selector {
@@ -29,7 +29,7 @@ pub enum Selector {
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => write!(f, "'{}'", escape(name)),
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
diff --git a/crates/jsonpath_rfc9535_iter/src/unescape.rs b/crates/jsonpath_rfc9535_iter/src/unescape.rs
index d38c16d..51bfcb0 100644
--- a/crates/jsonpath_rfc9535_iter/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_iter/src/unescape.rs
@@ -101,3 +101,25 @@ fn is_high_surrogate(code_point: u32) -> bool {
 fn is_low_surrogate(code_point: u32) -> bool {
     code_point >= 0xDC00 && code_point <= 0xDFFF
 }
+
+/// Escape _value_ for use inside a single quoted string, following the rules for
+/// normalized paths.
+pub fn escape(value: &str) -> String {
+    let mut rv = String::with_capacity(value.len());
+
+    for ch in value.chars() {
+        match ch {
+            '\'' => rv.push_str("\\'"),
+            '\\' => rv.push_str("\\\\"),
+            '\x08' => rv.push_str("\\b"),
+            '\x0C' => rv.push_str("\\f"),
+            '\n' => rv.push_str("\\n"),
+            '\r' => rv.push_str("\\r"),
+            '\t' => rv.push_str("\\t"),
+            c if c < ' ' => rv.push_str(&format!("\\u{:04x}", c as u32)),
+            c => rv.push(c),
+        }
+    }
+
+    rv
+}
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index 28b75f3..91eef64 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -2,7 +2,7 @@ use std::fmt;
 
 use serde_json::Value;
 
-use crate::{env::Environment, function::ExpressionType, node::NodeList, Query};
+use crate::{env::Environment, function::ExpressionType, node::NodeList, unescape::escape, Query};
 
 #[derive(Debug)]
 pub enum FilterExpression {
@@ -139,7 +139,7 @@ impl fmt::Display for FilterExpression {
             FilterExpression::True { .. } => f.write_str("true"),
             FilterExpression::False { .. } => f.write_str("false"),
             FilterExpression::Null { .. } => f.write_str("null"),
-            FilterExpression::String { value, .. } => write!(f, "'{value}'"),
+            FilterExpression::String { value, .. } => write!(f, "'{}'", escape(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
             FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
diff --git a/crates/jsonpath_rfc9535_locations/src/node.rs b/crates/jsonpath_rfc9535_locations/src/node.rs
index 4830840..461b1fa 100644
--- a/crates/jsonpath_rfc9535_locations/src/node.rs
+++ b/crates/jsonpath_rfc9535_locations/src/node.rs
@@ -1,6 +1,6 @@
 use std::{collections::VecDeque, iter};
 
-use crate::conslist::ConsList;
+use crate::{conslist::ConsList, unescape::escape};
 use serde_json::Value;
 
 pub type Location = ConsList<PathElement>;
@@ -40,7 +40,7 @@ impl<'v> Node<'v> {
             .chain(
                 VecDeque::from_iter(self.location.iter().map(|e| match e {
                     PathElement::Index(i) => format!("[{}]", i),
-                    PathElement::Name(s) => format!("['{}']", s),
+                    PathElement::Name(s) => format!("['{}']", escape(s)),
                 }))
                 .into_iter()
                 .rev(),
diff --git a/crates/jsonpath_rfc9535_locations/src/selector.rs b/crates/jsonpath_rfc9535_locations/src/selector.rs
index 9e3c6bf..a70421b 100644
--- a/crates/jsonpath_rfc9535_locations/src/selector.rs
+++ b/crates/jsonpath_rfc9535_locations/src/selector.rs
@@ -9,6 +9,7 @@ use crate::{
     env::Environment,
     filter::{is_truthy_ref, FilterExpression},
     node::{Location, Node, NodeList},
+    unescape::escape,
 };
 
 #[derive(Debug)]
@@ -91,7 +92,7 @@ impl Selector {
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => write!(f, "'{}'", escape(name)),
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
diff --git a/crates/jsonpath_rfc9535_locations/src/unescape.rs b/crates/jsonpath_rfc9535_locations/src/unescape.rs
index d38c16d..51bfcb0 100644
--- a/crates/jsonpath_rfc9535_locations/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_locations/src/unescape.rs
@@ -101,3 +101,25 @@ fn is_high_surrogate(code_point: u32) -> bool {
 fn is_low_surrogate(code_point: u32) -> bool {
     code_point >= 0xDC00 && code_point <= 0xDFFF
 }
+
+/// Escape _value_ for use inside a single quoted string, following the rules for
+/// normalized paths.
+pub fn escape(value: &str) -> String {
+    let mut rv = String::with_capacity(value.len());
+
+    for ch in value.chars() {
+        match ch {
+            '\'' => rv.push_str("\\'"),
+            '\\' => rv.push_str("\\\\"),
+            '\x08' => rv.push_str("\\b"),
+            '\x0C' => rv.push_str("\\f"),
+            '\n' => rv.push_str("\\n"),
+            '\r' => rv.push_str("\\r"),
+            '\t' => rv.push_str("\\t"),
+            c if c < ' ' => rv.push_str(&format!("\\u{:04x}", c as u32)),
+            c => rv.push(c),
+        }
+    }
+
+    rv
+}
diff --git a/crates/jsonpath_rfc9535_pest/src/ast.rs b/crates/jsonpath_rfc9535_pest/src/ast.rs
index dc3779a..f7bf312 100644
--- a/crates/jsonpath_rfc9535_pest/src/ast.rs
+++ b/crates/jsonpath_rfc9535_pest/src/ast.rs
@@ -119,7 +119,7 @@ pub enum Selector {
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => write!(f, "'{}'", escape(name)),
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
@@ -295,3 +295,25 @@ impl fmt::Display for FilterExpression {
         }
     }
 }
+
+/// Escape _value_ for use inside a single quoted string, following the rules for
+/// normalized paths.
+fn escape(value: &str) -> String {
+    let mut rv = String::with_capacity(value.len());
+
+    for ch in value.chars() {
+        match ch {
+            '\'' => rv.push_str("\\'"),
+            '\\' => rv.push_str("\\\\"),
+            '\x08' => rv.push_str("\\b"),
+            '\x0C' => rv.push_str("\\f"),
+            '\n' => rv.push_str("\\n"),
+            '\r' => rv.push_str("\\r"),
+            '\t' => rv.push_str("\\t"),
+            c if c < ' ' => rv.push_str(&format!("\\u{:04x}", c as u32)),
+            c => rv.push(c),
+        }
+    }
+
+    rv
+}
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs b/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
index 5242985..23dda8a 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
@@ -178,7 +178,7 @@ impl fmt::Display for Segment {
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => write!(f, "'{}'", escape(name)),
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
@@ -267,3 +267,25 @@ impl fmt::Display for ComparisonOperator {
         }
     }
 }
+
+/// Escape _value_ for use inside a single quoted string, following the rules for
+/// normalized paths.
+fn escape(value: &str) -> String {
+    let mut rv = String::with_capacity(value.len());
+
+    for ch in value.chars() {
+        match ch {
+            '\'' => rv.push_str("\\'"),
+            '\\' => rv.push_str("\\\\"),
+            '\x08' => rv.push_str("\\b"),
+            '\x0C' => rv.push_str("\\f"),
+            '\n' => rv.push_str("\\n"),
+            '\r' => rv.push_str("\\r"),
+            '\t' => rv.push_str("\\t"),
+            c if c < ' ' => rv.push_str(&format!("\\u{:04x}", c as u32)),
+            c => rv.push(c),
+        }
+    }
+
+    rv
+}
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index f2df9f5..89a2c97 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -15,6 +15,7 @@ use std::{
 
 use crate::{
     env::Environment, errors::JSONPathError, function::ExpressionType, parser::JSONPathParser,
+    unescape::escape,
 };
 
 lazy_static! {
@@ -34,7 +35,7 @@ impl<'a> Node<'a> {
     fn new_child_member(&self, value: &'a Value, loc: &str) -> Self {
         Node {
             value,
-            location: format!("{}['{}']", self.location, loc),
+            location: format!("{}['{}']", self.location, escape(loc)),
         }
     }
 
@@ -412,7 +413,7 @@ impl Selector {
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => write!(f, "'{}'", escape(name)),
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
@@ -612,7 +613,7 @@ impl fmt::Display for FilterExpression {
             FilterExpression::True { .. } => f.write_str("true"),
             FilterExpression::False { .. } => f.write_str("false"),
             FilterExpression::Null { .. } => f.write_str("null"),
-            FilterExpression::String { value, .. } => write!(f, "'{value}'"),
+            FilterExpression::String { value, .. } => write!(f, "'{}'", escape(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
             FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
diff --git a/crates/jsonpath_rfc9535_serde/src/unescape.rs b/crates/jsonpath_rfc9535_serde/src/unescape.rs
index d38c16d..51bfcb0 100644
--- a/crates/jsonpath_rfc9535_serde/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_serde/src/unescape.rs
@@ -101,3 +101,25 @@ fn is_high_surrogate(code_point: u32) -> bool {
 fn is_low_surrogate(code_point: u32) -> bool {
     code_point >= 0xDC00 && code_point <= 0xDFFF
 }
+
+/// Escape _value_ for use inside a single quoted string, following the rules for
+/// normalized paths.
+pub fn escape(value: &str) -> String {
+    let mut rv = String::with_capacity(value.len());
+
+    for ch in value.chars() {
+        match ch {
+            '\'' => rv.push_str("\\'"),
+            '\\' => rv.push_str("\\\\"),
+            '\x08' => rv.push_str("\\b"),
+            '\x0C' => rv.push_str("\\f"),
+            '\n' => rv.push_str("\\n"),
+            '\r' => rv.push_str("\\r"),
+            '\t' => rv.push_str("\\t"),
+            c if c < ' ' => rv.push_str(&format!("\\u{:04x}", c as u32)),
+            c => rv.push(c),
+        }
+    }
+
+    rv
+}
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index 28b75f3..91eef64 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -2,7 +2,7 @@ use std::fmt;
 
 use serde_json::Value;
 
-use crate::{env::Environment, function::ExpressionType, node::NodeList, Query};
+use crate::{env::Environment, function::ExpressionType, node::NodeList, unescape::escape, Query};
 
 #[derive(Debug)]
 pub enum FilterExpression {
@@ -139,7 +139,7 @@ impl fmt::Display for FilterExpression {
             FilterExpression::True { .. } => f.write_str("true"),
             FilterExpression::False { .. } => f.write_str("false"),
             FilterExpression::Null { .. } => f.write_str("null"),
-            FilterExpression::String { value, .. } => write!(f, "'{value}'"),
+            FilterExpression::String { value, .. } => write!(f, "'{}'", escape(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
             FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/node.rs b/crates/jsonpath_rfc9535_singular_selector/src/node.rs
index 4830840..461b1fa 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/node.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/node.rs
@@ -1,6 +1,6 @@
 use std::{collections::VecDeque, iter};
 
-use crate::conslist::ConsList;
+use crate::{conslist::ConsList, unescape::escape};
 use serde_json::Value;
 
 pub type Location = ConsList<PathElement>;
@@ -40,7 +40,7 @@ impl<'v> Node<'v> {
             .chain(
                 VecDeque::from_iter(self.location.iter().map(|e| match e {
                     PathElement::Index(i) => format!("[{}]", i),
-                    PathElement::Name(s) => format!("['{}']", s),
+                    PathElement::Name(s) => format!("['{}']", escape(s)),
                 }))
                 .into_iter()
                 .rev(),
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/selector.rs b/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
index 4567474..a33ddca 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
@@ -9,6 +9,7 @@ use crate::{
     env::Environment,
     filter::{is_truthy_ref, FilterExpression},
     node::{Location, Node, NodeList},
+    unescape::escape,
     Query,
 };
 
@@ -127,7 +128,7 @@ impl Selector {
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => write!(f, "'{}'", escape(name)),
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs b/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs
index d38c16d..51bfcb0 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs
@@ -101,3 +101,25 @@ fn is_high_surrogate(code_point: u32) -> bool {
 fn is_low_surrogate(code_point: u32) -> bool {
     code_point >= 0xDC00 && code_point <= 0xDFFF
 }
+
+/// Escape _value_ for use inside a single quoted string, following the rules for
+/// normalized paths.
+pub fn escape(value: &str) -> String {
+    let mut rv = String::with_capacity(value.len());
+
+    for ch in value.chars() {
+        match ch {
+            '\'' => rv.push_str("\\'"),
+            '\\' => rv.push_str("\\\\"),
+            '\x08' => rv.push_str("\\b"),
+            '\x0C' => rv.push_str("\\f"),
+            '\n' => rv.push_str("\\n"),
+            '\r' => rv.push_str("\\r"),
+            '\t' => rv.push_str("\\t"),
+            c if c < ' ' => rv.push_str(&format!("\\u{:04x}", c as u32)),
+            c => rv.push(c),
+        }
+    }
+
+    rv
+}
-- 
2.43.0


From da825f9275b74568d78826088c66c24a219d37d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:35 +0000
Subject: [PATCH 13/24] fix: print negated comparisons, negative zero and
 infinite numbers so that they can be parsed again

---
 crates/jsonpath_rfc9535/src/query.rs                | 13 +++++++++++--
 crates/jsonpath_rfc9535_iter/src/filter.rs          | 13 +++++++++++--
 crates/jsonpath_rfc9535_locations/src/filter.rs     | 13 +++++++++++--
 crates/jsonpath_rfc9535_pest/src/ast.rs             | 13 +++++++++++--
 crates/jsonpath_rfc9535_pest_recursive/src/ast.rs   | 13 +++++++++++--
 crates/jsonpath_rfc9535_serde/src/ast.rs            | 13 +++++++++++--
 .../src/filter.rs                                   | 13 +++++++++++--
 7 files changed, 77 insertions(+), 14 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/query.rs b/crates/jsonpath_rfc9535/src/query.rs
index 1bbd232..418ff05 100644
--- a/crates/jsonpath_rfc9535/src/query.rs
+++ b/crates/jsonpath_rfc9535/src/query.rs
@@ -288,8 +288,17 @@ impl fmt::Display for FilterExpression {
             FilterExpression::Null { .. } => f.write_str("null"),
             FilterExpression::String { value, .. } => write!(f, "\"{value}\""),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
-            FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Float { value, .. } if value.is_infinite() => {
+                // too big for an f64
+                f.write_str(if *value < 0.0 { "-1e999" } else { "1e999" })
+            }
+            FilterExpression::Float { value, .. } => write!(f, "{value:?}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Comparison { .. } | FilterExpression::Not { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index f0b646f..7100f28 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -144,8 +144,17 @@ impl fmt::Display for FilterExpression {
             FilterExpression::Null { .. } => f.write_str("null"),
             FilterExpression::String { value, .. } => write!(f, "'{}'", escape(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
-            FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Float { value, .. } if value.is_infinite() => {
+                // too big for an f64
+                f.write_str(if *value < 0.0 { "-1e999" } else { "1e999" })
+            }
+            FilterExpression::Float { value, .. } => write!(f, "{value:?}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Comparison { .. } | FilterExpression::Not { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index 91eef64..81c1f1b 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -141,8 +141,17 @@ impl fmt::Display for FilterExpression {
             FilterExpression::Null { .. } => f.write_str("null"),
             FilterExpression::String { value, .. } => write!(f, "'{}'", escape(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
-            FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Float { value, .. } if value.is_infinite() => {
+                // too big for an f64
+                f.write_str(if *value < 0.0 { "-1e999" } else { "1e999" })
+            }
+            FilterExpression::Float { value, .. } => write!(f, "{value:?}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Comparison { .. } | FilterExpression::Not { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_pest/src/ast.rs b/crates/jsonpath_rfc9535_pest/src/ast.rs
index f7bf312..6d28a26 100644
--- a/crates/jsonpath_rfc9535_pest/src/ast.rs
+++ b/crates/jsonpath_rfc9535_pest/src/ast.rs
@@ -243,8 +243,17 @@ impl fmt::Display for FilterExpression {
             FilterExpression::Null { .. } => f.write_str("null"),
             FilterExpression::String { value, .. } => write!(f, "'{value}'"),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
-            FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Float { value, .. } if value.is_infinite() => {
+                // too big for an f64
+                f.write_str(if *value < 0.0 { "-1e999" } else { "1e999" })
+            }
+            FilterExpression::Float { value, .. } => write!(f, "{value:?}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Comparison { .. } | FilterExpression::Not { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs b/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
index 23dda8a..1e085f2 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
@@ -211,8 +211,17 @@ impl fmt::Display for FilterExpression {
             FilterExpression::Null { .. } => f.write_str("null"),
             FilterExpression::StringLiteral { value, .. } => write!(f, "'{value}'"),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
-            FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Float { value, .. } if value.is_infinite() => {
+                // too big for an f64
+                f.write_str(if *value < 0.0 { "-1e999" } else { "1e999" })
+            }
+            FilterExpression::Float { value, .. } => write!(f, "{value:?}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Comparison { .. } | FilterExpression::Not { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index 89a2c97..b13cbbe 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -615,8 +615,17 @@ impl fmt::Display for FilterExpression {
             FilterExpression::Null { .. } => f.write_str("null"),
             FilterExpression::String { value, .. } => write!(f, "'{}'", escape(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
-            FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Float { value, .. } if value.is_infinite() => {
+                // too big for an f64
+                f.write_str(if *value < 0.0 { "-1e999" } else { "1e999" })
+            }
+            FilterExpression::Float { value, .. } => write!(f, "{value:?}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Comparison { .. } | FilterExpression::Not { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index 91eef64..81c1f1b 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -141,8 +141,17 @@ impl fmt::Display for FilterExpression {
             FilterExpression::Null { .. } => f.write_str("null"),
             FilterExpression::String { value, .. } => write!(f, "'{}'", escape(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
-            FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Float { value, .. } if value.is_infinite() => {
+                // too big for an f64
+                f.write_str(if *value < 0.0 { "-1e999" } else { "1e999" })
+            }
+            FilterExpression::Float { value, .. } => write!(f, "{value:?}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Comparison { .. } | FilterExpression::Not { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
-- 
2.43.0


From f1d5c90ebee2820927d971e17a85c3c4f88c7e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 14/24] fix: parenthesized, logical and comparison function
 arguments (pest parsers)

---
 .../jsonpath_rfc9535_iter/src/jsonpath.pest   |  4 +--
 crates/jsonpath_rfc9535_iter/src/parser.rs    | 30 ++++++++++++-------
 .../src/jsonpath.pest                         |  4 +--
 .../jsonpath_rfc9535_locations/src/parser.rs  | 30 ++++++++++++-------
 .../jsonpath_rfc9535_pest/src/jsonpath.pest   |  4 +--
 crates/jsonpath_rfc9535_pest/src/parser.rs    | 30 ++++++++++++-------
 .../src/jsonpath.pest                         |  4 +--
 .../src/parser.rs                             | 30 ++++++++++++-------
 .../jsonpath_rfc9535_serde/src/jsonpath.pest  |  4 +--
 crates/jsonpath_rfc9535_serde/src/parser.rs   | 30 ++++++++++++-------
 .../src/jsonpath.pest                         |  4 +--
 .../src/parser.rs                             | 30 ++++++++++++-------
 12 files changed, 126 insertions(+), 78 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/jsonpath.pest b/crates/jsonpath_rfc9535_iter/src/jsonpath.pest
index e1f7edb..445d086 100644
--- a/crates/jsonpath_rfc9535_iter/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_iter/src/jsonpath.pest
@@ -149,9 +149,7 @@ function_expr = {
 }
 
 function_argument = _{
-    filter_query
-  | logical_expr
-  | function_expr
+    logical_expr
   | literal
 }
 
diff --git a/crates/jsonpath_rfc9535_iter/src/parser.rs b/crates/jsonpath_rfc9535_iter/src/parser.rs
index f2e58e3..a7f2674 100644
--- a/crates/jsonpath_rfc9535_iter/src/parser.rs
+++ b/crates/jsonpath_rfc9535_iter/src/parser.rs
@@ -141,6 +141,10 @@ impl JSONPathParser {
         assert_compared: bool,
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
+
+        // Only a lone function call can be something other than a logical expression.
+        let assert_compared = assert_compared || it.clone().count() > 1;
+
         let mut or_expr = self.parse_logical_and_expression(it.next().unwrap(), assert_compared)?;
 
         if assert_compared {
@@ -168,6 +172,10 @@ impl JSONPathParser {
         assert_compared: bool,
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
+
+        // Only a lone function call can be something other than a logical expression.
+        let assert_compared = assert_compared || it.clone().count() > 1;
+
         let mut and_expr = self.parse_basic_expression(it.next().unwrap())?;
 
         if assert_compared {
@@ -356,11 +364,18 @@ impl JSONPathParser {
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
         let name = it.next().unwrap().as_str();
+
+        // A parenthesized argument is always a logical expression.
+        let grouped: Vec<bool> = it
+            .clone()
+            .map(|ex| ex.as_rule() == Rule::logical_or_expr && ex.as_str().starts_with('('))
+            .collect();
+
         let args: Result<Vec<_>, _> = it.map(|ex| self.parse_function_argument(ex)).collect();
 
         Ok(FilterExpression::Function {
             name: name.to_string(),
-            args: self.assert_well_typed(name, args?)?,
+            args: self.assert_well_typed(name, args?, &grouped)?,
         })
     }
 
@@ -475,6 +490,7 @@ impl JSONPathParser {
         &self,
         func_name: &str,
         args: Vec<FilterExpression>,
+        grouped: &[bool],
     ) -> Result<Vec<FilterExpression>, JSONPathError> {
         // TODO: accept span/position for better errors
         let signature = self
@@ -502,7 +518,7 @@ impl JSONPathParser {
             let arg = &args[idx];
             match typ {
                 ExpressionType::Value => {
-                    if !self.is_value_type(arg) {
+                    if grouped[idx] || !self.is_value_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Value' type",
                             idx + 1,
@@ -511,13 +527,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if arg.is_literal() || self.assert_compared(arg).is_err() {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
@@ -526,7 +536,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Nodes => {
-                    if !self.is_nodes_type(arg) {
+                    if grouped[idx] || !self.is_nodes_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Nodes' type",
                             idx + 1,
diff --git a/crates/jsonpath_rfc9535_locations/src/jsonpath.pest b/crates/jsonpath_rfc9535_locations/src/jsonpath.pest
index e1f7edb..445d086 100644
--- a/crates/jsonpath_rfc9535_locations/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_locations/src/jsonpath.pest
@@ -149,9 +149,7 @@ function_expr = {
 }
 
 function_argument = _{
-    filter_query
-  | logical_expr
-  | function_expr
+    logical_expr
   | literal
 }
 
diff --git a/crates/jsonpath_rfc9535_locations/src/parser.rs b/crates/jsonpath_rfc9535_locations/src/parser.rs
index f2e58e3..a7f2674 100644
--- a/crates/jsonpath_rfc9535_locations/src/parser.rs
+++ b/crates/jsonpath_rfc9535_locations/src/parser.rs
@@ -141,6 +141,10 @@ impl JSONPathParser {
         assert_compared: bool,
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
+
+        // Only a lone function call can be something other than a logical expression.
+        let assert_compared = assert_compared || it.clone().count() > 1;
+
         let mut or_expr = self.parse_logical_and_expression(it.next().unwrap(), assert_compared)?;
 
         if assert_compared {
@@ -168,6 +172,10 @@ impl JSONPathParser {
         assert_compared: bool,
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
+
+        // Only a lone function call can be something other than a logical expression.
+        let assert_compared = assert_compared || it.clone().count() > 1;
+
         let mut and_expr = self.parse_basic_expression(it.next().unwrap())?;
 
         if assert_compared {
@@ -356,11 +364,18 @@ impl JSONPathParser {
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
         let name = it.next().unwrap().as_str();
+
+        // A parenthesized argument is always a logical expression.
+        let grouped: Vec<bool> = it
+            .clone()
+            .map(|ex| ex.as_rule() == Rule::logical_or_expr && ex.as_str().starts_with('('))
+            .collect();
+
         let args: Result<Vec<_>, _> = it.map(|ex| self.parse_function_argument(ex)).collect();
 
         Ok(FilterExpression::Function {
             name: name.to_string(),
-            args: self.assert_well_typed(name, args?)?,
+            args: self.assert_well_typed(name, args?, &grouped)?,
         })
     }
 
@@ -475,6 +490,7 @@ impl JSONPathParser {
         &self,
         func_name: &str,
         args: Vec<FilterExpression>,
+        grouped: &[bool],
     ) -> Result<Vec<FilterExpression>, JSONPathError> {
         // TODO: accept span/position for better errors
         let signature = self
@@ -502,7 +518,7 @@ impl JSONPathParser {
             let arg = &args[idx];
             match typ {
                 ExpressionType::Value => {
-                    if !self.is_value_type(arg) {
+                    if grouped[idx] || !self.is_value_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Value' type",
                             idx + 1,
@@ -511,13 +527,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if arg.is_literal() || self.assert_compared(arg).is_err() {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
@@ -526,7 +536,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Nodes => {
-                    if !self.is_nodes_type(arg) {
+                    if grouped[idx] || !self.is_nodes_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Nodes' type",
                             idx + 1,
diff --git a/crates/jsonpath_rfc9535_pest/src/jsonpath.pest b/crates/jsonpath_rfc9535_pest/src/jsonpath.pest
index e1f7edb..445d086 100644
--- a/crates/jsonpath_rfc9535_pest/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_pest/src/jsonpath.pest
@@ -149,9 +149,7 @@ function_expr = {
 }
 
 function_argument = _{
-    filter_query
-  | logical_expr
-  | function_expr
+    logical_expr
   | literal
 }
 
diff --git a/crates/jsonpath_rfc9535_pest/src/parser.rs b/crates/jsonpath_rfc9535_pest/src/parser.rs
index fefcbbb..3ec1f66 100644
--- a/crates/jsonpath_rfc9535_pest/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest/src/parser.rs
@@ -193,6 +193,10 @@ impl JSONPathParser {
         assert_compared: bool,
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
+
+        // Only a lone function call can be something other than a logical expression.
+        let assert_compared = assert_compared || it.clone().count() > 1;
+
         let mut or_expr = self.parse_logical_and_expression(it.next().unwrap(), assert_compared)?;
 
         if assert_compared {
@@ -220,6 +224,10 @@ impl JSONPathParser {
         assert_compared: bool,
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
+
+        // Only a lone function call can be something other than a logical expression.
+        let assert_compared = assert_compared || it.clone().count() > 1;
+
         let mut and_expr = self.parse_basic_expression(it.next().unwrap())?;
 
         if assert_compared {
@@ -408,11 +416,18 @@ impl JSONPathParser {
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
         let name = it.next().unwrap().as_str();
+
+        // A parenthesized argument is always a logical expression.
+        let grouped: Vec<bool> = it
+            .clone()
+            .map(|ex| ex.as_rule() == Rule::logical_or_expr && ex.as_str().starts_with('('))
+            .collect();
+
         let args: Result<Vec<_>, _> = it.map(|ex| self.parse_function_argument(ex)).collect();
 
         Ok(FilterExpression::Function {
             name: name.to_string(),
-            args: self.assert_well_typed(name, args?)?,
+            args: self.assert_well_typed(name, args?, &grouped)?,
         })
     }
 
@@ -527,6 +542,7 @@ impl JSONPathParser {
         &self,
         func_name: &str,
         args: Vec<FilterExpression>,
+        grouped: &[bool],
     ) -> Result<Vec<FilterExpression>, JSONPathError> {
         // TODO: accept span/position for better errors
         let signature = self
@@ -554,7 +570,7 @@ impl JSONPathParser {
             let arg = &args[idx];
             match typ {
                 ExpressionType::Value => {
-                    if !self.is_value_type(arg) {
+                    if grouped[idx] || !self.is_value_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Value' type",
                             idx + 1,
@@ -563,13 +579,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if arg.is_literal() || self.assert_compared(arg).is_err() {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
@@ -578,7 +588,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Nodes => {
-                    if !self.is_nodes_type(arg) {
+                    if grouped[idx] || !self.is_nodes_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Nodes' type",
                             idx + 1,
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest b/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest
index e1f7edb..445d086 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest
@@ -149,9 +149,7 @@ function_expr = {
 }
 
 function_argument = _{
-    filter_query
-  | logical_expr
-  | function_expr
+    logical_expr
   | literal
 }
 
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
index b2aaa92..49805e1 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
@@ -214,6 +214,10 @@ impl JSONPathParser {
         assert_compared: bool,
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
+
+        // Only a lone function call can be something other than a logical expression.
+        let assert_compared = assert_compared || it.clone().count() > 1;
+
         let mut or_expr = self.parse_logical_and_expression(it.next().unwrap(), assert_compared)?;
 
         if assert_compared {
@@ -241,6 +245,10 @@ impl JSONPathParser {
         assert_compared: bool,
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
+
+        // Only a lone function call can be something other than a logical expression.
+        let assert_compared = assert_compared || it.clone().count() > 1;
+
         let mut and_expr = self.parse_basic_expression(it.next().unwrap())?;
 
         if assert_compared {
@@ -425,11 +433,18 @@ impl JSONPathParser {
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
         let name = it.next().unwrap().as_str();
+
+        // A parenthesized argument is always a logical expression.
+        let grouped: Vec<bool> = it
+            .clone()
+            .map(|ex| ex.as_rule() == Rule::logical_or_expr && ex.as_str().starts_with('('))
+            .collect();
+
         let args: Result<Vec<_>, _> = it.map(|ex| self.parse_function_argument(ex)).collect();
 
         Ok(FilterExpression::Function {
             name: name.to_string(),
-            args: self.assert_well_typed(name, args?)?,
+            args: self.assert_well_typed(name, args?, &grouped)?,
         })
     }
 
@@ -543,6 +558,7 @@ impl JSONPathParser {
         &self,
         func_name: &str,
         args: Vec<FilterExpression>,
+        grouped: &[bool],
     ) -> Result<Vec<FilterExpression>, JSONPathError> {
         // TODO: accept span/position for better errors
         let signature = self
@@ -570,7 +586,7 @@ impl JSONPathParser {
             let arg = &args[idx];
             match typ {
                 ExpressionType::Value => {
-                    if !self.is_value_type(arg) {
+                    if grouped[idx] || !self.is_value_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Value' type",
                             idx + 1,
@@ -579,13 +595,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if arg.is_literal() || self.assert_compared(arg).is_err() {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
@@ -594,7 +604,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Nodes => {
-                    if !self.is_nodes_type(arg) {
+                    if grouped[idx] || !self.is_nodes_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Nodes' type",
                             idx + 1,
diff --git a/crates/jsonpath_rfc9535_serde/src/jsonpath.pest b/crates/jsonpath_rfc9535_serde/src/jsonpath.pest
index e1f7edb..445d086 100644
--- a/crates/jsonpath_rfc9535_serde/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_serde/src/jsonpath.pest
@@ -149,9 +149,7 @@ function_expr = {
 }
 
 function_argument = _{
-    filter_query
-  | logical_expr
-  | function_expr
+    logical_expr
   | literal
 }
 
diff --git a/crates/jsonpath_rfc9535_serde/src/parser.rs b/crates/jsonpath_rfc9535_serde/src/parser.rs
index dbea139..3508190 100644
--- a/crates/jsonpath_rfc9535_serde/src/parser.rs
+++ b/crates/jsonpath_rfc9535_serde/src/parser.rs
@@ -138,6 +138,10 @@ impl JSONPathParser {
         assert_compared: bool,
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
+
+        // Only a lone function call can be something other than a logical expression.
+        let assert_compared = assert_compared || it.clone().count() > 1;
+
         let mut or_expr = self.parse_logical_and_expression(it.next().unwrap(), assert_compared)?;
 
         if assert_compared {
@@ -165,6 +169,10 @@ impl JSONPathParser {
         assert_compared: bool,
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
+
+        // Only a lone function call can be something other than a logical expression.
+        let assert_compared = assert_compared || it.clone().count() > 1;
+
         let mut and_expr = self.parse_basic_expression(it.next().unwrap())?;
 
         if assert_compared {
@@ -353,11 +361,18 @@ impl JSONPathParser {
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
         let name = it.next().unwrap().as_str();
+
+        // A parenthesized argument is always a logical expression.
+        let grouped: Vec<bool> = it
+            .clone()
+            .map(|ex| ex.as_rule() == Rule::logical_or_expr && ex.as_str().starts_with('('))
+            .collect();
+
         let args: Result<Vec<_>, _> = it.map(|ex| self.parse_function_argument(ex)).collect();
 
         Ok(FilterExpression::Function {
             name: name.to_string(),
-            args: self.assert_well_typed(name, args?)?,
+            args: self.assert_well_typed(name, args?, &grouped)?,
         })
     }
 
@@ -472,6 +487,7 @@ impl JSONPathParser {
         &self,
         func_name: &str,
         args: Vec<FilterExpression>,
+        grouped: &[bool],
     ) -> Result<Vec<FilterExpression>, JSONPathError> {
         // TODO: accept span/position for better errors
         let signature = self
@@ -499,7 +515,7 @@ impl JSONPathParser {
             let arg = &args[idx];
             match typ {
                 ExpressionType::Value => {
-                    if !self.is_value_type(arg) {
+                    if grouped[idx] || !self.is_value_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Value' type",
                             idx + 1,
@@ -508,13 +524,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if arg.is_literal() || self.assert_compared(arg).is_err() {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
@@ -523,7 +533,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Nodes => {
-                    if !self.is_nodes_type(arg) {
+                    if grouped[idx] || !self.is_nodes_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Nodes' type",
                             idx + 1,
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest b/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest
index 26df850..8b8f1f4 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest
@@ -161,9 +161,7 @@ function_expr = {
 }
 
 function_argument = _{
-    filter_query
-  | logical_expr
-  | function_expr
+    logical_expr
   | literal
 }
 
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
index 7c8deb8..7bd16a2 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
@@ -160,6 +160,10 @@ impl JSONPathParser {
         assert_compared: bool,
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
+
+        // Only a lone function call can be something other than a logical expression.
+        let assert_compared = assert_compared || it.clone().count() > 1;
+
         let mut or_expr = self.parse_logical_and_expression(it.next().unwrap(), assert_compared)?;
 
         if assert_compared {
@@ -187,6 +191,10 @@ impl JSONPathParser {
         assert_compared: bool,
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
+
+        // Only a lone function call can be something other than a logical expression.
+        let assert_compared = assert_compared || it.clone().count() > 1;
+
         let mut and_expr = self.parse_basic_expression(it.next().unwrap())?;
 
         if assert_compared {
@@ -375,11 +383,18 @@ impl JSONPathParser {
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
         let name = it.next().unwrap().as_str();
+
+        // A parenthesized argument is always a logical expression.
+        let grouped: Vec<bool> = it
+            .clone()
+            .map(|ex| ex.as_rule() == Rule::logical_or_expr && ex.as_str().starts_with('('))
+            .collect();
+
         let args: Result<Vec<_>, _> = it.map(|ex| self.parse_function_argument(ex)).collect();
 
         Ok(FilterExpression::Function {
             name: name.to_string(),
-            args: self.assert_well_typed(name, args?)?,
+            args: self.assert_well_typed(name, args?, &grouped)?,
         })
     }
 
@@ -494,6 +509,7 @@ impl JSONPathParser {
         &self,
         func_name: &str,
         args: Vec<FilterExpression>,
+        grouped: &[bool],
     ) -> Result<Vec<FilterExpression>, JSONPathError> {
         // TODO: accept span/position for better errors
         let signature = self
@@ -521,7 +537,7 @@ impl JSONPathParser {
             let arg = &args[idx];
             match typ {
                 ExpressionType::Value => {
-                    if !self.is_value_type(arg) {
+                    if grouped[idx] || !self.is_value_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Value' type",
                             idx + 1,
@@ -530,13 +546,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if arg.is_literal() || self.assert_compared(arg).is_err() {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
@@ -545,7 +555,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Nodes => {
-                    if !self.is_nodes_type(arg) {
+                    if grouped[idx] || !self.is_nodes_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Nodes' type",
                             idx + 1,
-- 
2.43.0


From 2d68889f09bbc8c2bf858d75035578a0f81e21a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 15/24] fix: consecutive unicode escapes are not always a
 surrogate pair (pest parsers)

---
 crates/jsonpath_rfc9535_pest/src/parser.rs           | 5 ++++-
 crates/jsonpath_rfc9535_pest_recursive/src/parser.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/jsonpath_rfc9535_pest/src/parser.rs b/crates/jsonpath_rfc9535_pest/src/parser.rs
index 3ec1f66..27814f4 100644
--- a/crates/jsonpath_rfc9535_pest/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest/src/parser.rs
@@ -676,7 +676,10 @@ fn unescape_string(value: &str) -> String {
 
                         let mut codepoint = u32::from_str_radix(&digits, 16).unwrap();
 
-                        if index + 5 < length && chars[index + 4] == '\\' && chars[index + 5] == 'u'
+                        if (0xD800..=0xDBFF).contains(&codepoint)
+                            && index + 5 < length
+                            && chars[index + 4] == '\\'
+                            && chars[index + 5] == 'u'
                         {
                             let digits = &chars
                                 .get(index + 6..index + 10)
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
index 49805e1..b5a4aba 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
@@ -692,7 +692,10 @@ fn unescape_string(value: &str) -> String {
 
                         let mut codepoint = u32::from_str_radix(&digits, 16).unwrap();
 
-                        if index + 5 < length && chars[index + 4] == '\\' && chars[index + 5] == 'u'
+                        if (0xD800..=0xDBFF).contains(&codepoint)
+                            && index + 5 < length
+                            && chars[index + 4] == '\\'
+                            && chars[index + 5] == 'u'
                         {
                             let digits = &chars
                                 .get(index + 6..index + 10)
-- 
2.43.0


From 849272fc5fbcc4489075d46bf1acdb4504a05129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 16/24] fix: escaped control characters are allowed in string
 literals

---
 crates/jsonpath_rfc9535_iter/src/unescape.rs       | 14 ++++++--------
 crates/jsonpath_rfc9535_locations/src/unescape.rs  | 14 ++++++--------
 crates/jsonpath_rfc9535_serde/src/unescape.rs      | 14 ++++++--------
 .../src/unescape.rs                                | 14 ++++++--------
 4 files changed, 24 insertions(+), 32 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/unescape.rs b/crates/jsonpath_rfc9535_iter/src/unescape.rs
index 51bfcb0..f7f59d3 100644
--- a/crates/jsonpath_rfc9535_iter/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_iter/src/unescape.rs
@@ -84,14 +84,12 @@ fn parse_hex_digits(digits: &[u8]) -> Result<u32, JSONPathError> {
 }
 
 fn encode_code_point(code_point: u32) -> Result<Vec<u8>, JSONPathError> {
-    if code_point < 0x1F {
-        Err(JSONPathError::syntax("invalid character".to_owned()))
-    } else {
-        // TODO: better
-        let mut buf = [0; 4];
-        let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
-        Ok(rv.as_bytes().to_owned())
-    }
+    // TODO: better
+    let mut buf = [0; 4];
+    let rv = char::from_u32(code_point)
+        .ok_or_else(|| JSONPathError::syntax("invalid character".to_owned()))?
+        .encode_utf8(&mut buf);
+    Ok(rv.as_bytes().to_owned())
 }
 
 fn is_high_surrogate(code_point: u32) -> bool {
diff --git a/crates/jsonpath_rfc9535_locations/src/unescape.rs b/crates/jsonpath_rfc9535_locations/src/unescape.rs
index 51bfcb0..f7f59d3 100644
--- a/crates/jsonpath_rfc9535_locations/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_locations/src/unescape.rs
@@ -84,14 +84,12 @@ fn parse_hex_digits(digits: &[u8]) -> Result<u32, JSONPathError> {
 }
 
 fn encode_code_point(code_point: u32) -> Result<Vec<u8>, JSONPathError> {
-    if code_point < 0x1F {
-        Err(JSONPathError::syntax("invalid character".to_owned()))
-    } else {
-        // TODO: better
-        let mut buf = [0; 4];
-        let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
-        Ok(rv.as_bytes().to_owned())
-    }
+    // TODO: better
+    let mut buf = [0; 4];
+    let rv = char::from_u32(code_point)
+        .ok_or_else(|| JSONPathError::syntax("invalid character".to_owned()))?
+        .encode_utf8(&mut buf);
+    Ok(rv.as_bytes().to_owned())
 }
 
 fn is_high_surrogate(code_point: u32) -> bool {
diff --git a/crates/jsonpath_rfc9535_serde/src/unescape.rs b/crates/jsonpath_rfc9535_serde/src/unescape.rs
index 51bfcb0..f7f59d3 100644
--- a/crates/jsonpath_rfc9535_serde/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_serde/src/unescape.rs
@@ -84,14 +84,12 @@ fn parse_hex_digits(digits: &[u8]) -> Result<u32, JSONPathError> {
 }
 
 fn encode_code_point(code_point: u32) -> Result<Vec<u8>, JSONPathError> {
-    if code_point < 0x1F {
-        Err(JSONPathError::syntax("invalid character".to_owned()))
-    } else {
-        // TODO: better
-        let mut buf = [0; 4];
-        let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
-        Ok(rv.as_bytes().to_owned())
-    }
+    // TODO: better
+    let mut buf = [0; 4];
+    let rv = char::from_u32(code_point)
+        .ok_or_else(|| JSONPathError::syntax("invalid character".to_owned()))?
+        .encode_utf8(&mut buf);
+    Ok(rv.as_bytes().to_owned())
 }
 
 fn is_high_surrogate(code_point: u32) -> bool {
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs b/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs
index 51bfcb0..f7f59d3 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs
@@ -84,14 +84,12 @@ fn parse_hex_digits(digits: &[u8]) -> Result<u32, JSONPathError> {
 }
 
 fn encode_code_point(code_point: u32) -> Result<Vec<u8>, JSONPathError> {
-    if code_point < 0x1F {
-        Err(JSONPathError::syntax("invalid character".to_owned()))
-    } else {
-        // TODO: better
-        let mut buf = [0; 4];
-        let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
-        Ok(rv.as_bytes().to_owned())
-    }
+    // TODO: better
+    let mut buf = [0; 4];
+    let rv = char::from_u32(code_point)
+        .ok_or_else(|| JSONPathError::syntax("invalid character".to_owned()))?
+        .encode_utf8(&mut buf);
+    Ok(rv.as_bytes().to_owned())
 }
 
 fn is_high_surrogate(code_point: u32) -> bool {
-- 
2.43.0


From ca912764a1dab86015cd9a70cfa32443bf2ac701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:26 +0000
Subject: [PATCH 17/24] fix: a negated function call is a test of its result
 (pest parsers)

---
 crates/jsonpath_rfc9535_iter/src/parser.rs             | 10 +++++++---
 crates/jsonpath_rfc9535_locations/src/parser.rs        | 10 +++++++---
 crates/jsonpath_rfc9535_pest/src/parser.rs             | 10 +++++++---
 crates/jsonpath_rfc9535_pest_recursive/src/parser.rs   | 10 +++++++---
 crates/jsonpath_rfc9535_serde/src/parser.rs            | 10 +++++++---
 .../jsonpath_rfc9535_singular_selector/src/parser.rs   | 10 +++++++---
 6 files changed, 42 insertions(+), 18 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/parser.rs b/crates/jsonpath_rfc9535_iter/src/parser.rs
index a7f2674..1f01b7f 100644
--- a/crates/jsonpath_rfc9535_iter/src/parser.rs
+++ b/crates/jsonpath_rfc9535_iter/src/parser.rs
@@ -317,9 +317,13 @@ impl JSONPathParser {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expr = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expr)?;
+                FilterExpression::Not {
+                    expression: Box::new(expr),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
diff --git a/crates/jsonpath_rfc9535_locations/src/parser.rs b/crates/jsonpath_rfc9535_locations/src/parser.rs
index a7f2674..1f01b7f 100644
--- a/crates/jsonpath_rfc9535_locations/src/parser.rs
+++ b/crates/jsonpath_rfc9535_locations/src/parser.rs
@@ -317,9 +317,13 @@ impl JSONPathParser {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expr = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expr)?;
+                FilterExpression::Not {
+                    expression: Box::new(expr),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
diff --git a/crates/jsonpath_rfc9535_pest/src/parser.rs b/crates/jsonpath_rfc9535_pest/src/parser.rs
index 27814f4..80113fa 100644
--- a/crates/jsonpath_rfc9535_pest/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest/src/parser.rs
@@ -369,9 +369,13 @@ impl JSONPathParser {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expr = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expr)?;
+                FilterExpression::Not {
+                    expression: Box::new(expr),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
index b5a4aba..045bd39 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
@@ -388,9 +388,13 @@ impl JSONPathParser {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expr = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expr)?;
+                FilterExpression::Not {
+                    expression: Box::new(expr),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
diff --git a/crates/jsonpath_rfc9535_serde/src/parser.rs b/crates/jsonpath_rfc9535_serde/src/parser.rs
index 3508190..6112059 100644
--- a/crates/jsonpath_rfc9535_serde/src/parser.rs
+++ b/crates/jsonpath_rfc9535_serde/src/parser.rs
@@ -314,9 +314,13 @@ impl JSONPathParser {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expr = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expr)?;
+                FilterExpression::Not {
+                    expression: Box::new(expr),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
index 7bd16a2..1934e24 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
@@ -336,9 +336,13 @@ impl JSONPathParser {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expr = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expr)?;
+                FilterExpression::Not {
+                    expression: Box::new(expr),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
-- 
2.43.0


From fe10302d29622e326a5cf52701d53988e6663fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:39 +0000
Subject: [PATCH 18/24] fix: the start of a slice that lies outside the array

---
 crates/jsonpath_rfc9535_iter/src/selector.rs          | 11 +++++++++--
 crates/jsonpath_rfc9535_locations/src/selector.rs     |  7 +++++--
 crates/jsonpath_rfc9535_serde/src/ast.rs              | 11 +++++++++--
 .../src/selector.rs                                   |  7 +++++--
 4 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/selector.rs b/crates/jsonpath_rfc9535_iter/src/selector.rs
index 0bdb8ec..2cd4001 100644
--- a/crates/jsonpath_rfc9535_iter/src/selector.rs
+++ b/crates/jsonpath_rfc9535_iter/src/selector.rs
@@ -73,10 +73,17 @@ pub fn slice<'a>(
 
     let n_start = match start {
         Some(i) => {
+            // bounds depend on the direction, see RFC 9535 section 2.3.4.2.2
+            let (lower, upper) = if n_step < 0 {
+                (-1, array_length - 1)
+            } else {
+                (0, array_length)
+            };
+
             if i < 0 {
-                cmp::max(array_length + i, 0)
+                cmp::max(array_length + i, lower)
             } else {
-                cmp::min(i, array_length - 1)
+                cmp::min(i, upper)
             }
         }
         None => {
diff --git a/crates/jsonpath_rfc9535_locations/src/selector.rs b/crates/jsonpath_rfc9535_locations/src/selector.rs
index a70421b..b21e288 100644
--- a/crates/jsonpath_rfc9535_locations/src/selector.rs
+++ b/crates/jsonpath_rfc9535_locations/src/selector.rs
@@ -149,10 +149,13 @@ fn slice<'v>(
 
     let n_start = match start {
         Some(i) => {
+            // bounds depend on the direction, see RFC 9535 section 2.3.4.2.2
+            let (lower, upper) = if step < 0 { (-1, len - 1) } else { (0, len) };
+
             if i < 0 {
-                cmp::max(len + i as i128, 0)
+                cmp::max(len + i as i128, lower)
             } else {
-                cmp::min(i as i128, len - 1)
+                cmp::min(i as i128, upper)
             }
         }
         None => {
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index b13cbbe..dba385b 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -714,10 +714,17 @@ fn slice<'a>(
 
     let n_start = match start {
         Some(i) => {
+            // bounds depend on the direction, see RFC 9535 section 2.3.4.2.2
+            let (lower, upper) = if n_step < 0 {
+                (-1, array_length - 1)
+            } else {
+                (0, array_length)
+            };
+
             if i < 0 {
-                cmp::max(array_length + i, 0)
+                cmp::max(array_length + i, lower)
             } else {
-                cmp::min(i, array_length - 1)
+                cmp::min(i, upper)
             }
         }
         None => {
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/selector.rs b/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
index a33ddca..20d42db 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
@@ -186,10 +186,13 @@ fn slice<'v>(
 
     let n_start = match start {
         Some(i) => {
+            // bounds depend on the direction, see RFC 9535 section 2.3.4.2.2
+            let (lower, upper) = if step < 0 { (-1, len - 1) } else { (0, len) };
+
             if i < 0 {
-                cmp::max(len + i as i128, 0)
+                cmp::max(len + i as i128, lower)
             } else {
-                cmp::min(i as i128, len - 1)
+                cmp::min(i as i128, upper)
             }
         }
         None => {
-- 
2.43.0


From c4774c1ce98f31e16b8564ef1fd02cfd505a4449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:16 +0000
Subject: [PATCH 19/24] fix: integers in a document that do not fit an i64

---
 crates/jsonpath_rfc9535_iter/src/filter.rs              | 3 ++-
 crates/jsonpath_rfc9535_locations/src/filter.rs         | 7 ++++---
 crates/jsonpath_rfc9535_serde/src/ast.rs                | 3 ++-
 crates/jsonpath_rfc9535_singular_selector/src/filter.rs | 7 ++++---
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index 7100f28..9af4e4d 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -269,7 +269,8 @@ impl<'v> FilterExpressionResult<'v> {
                 } else if n.is_i64() {
                     FilterExpressionResult::Int(n.as_i64().unwrap())
                 } else {
-                    FilterExpressionResult::Int(n.as_i64().unwrap()) // XXX:
+                    // too big for an i64
+                    FilterExpressionResult::Float(n.as_f64().unwrap())
                 }
             }
             Value::String(s) => FilterExpressionResult::String(s.to_owned()),
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index 81c1f1b..bd36ee3 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -260,10 +260,11 @@ impl<'a> FilterExpressionResult<'a> {
             Value::Bool(v) => FilterExpressionResult::Bool(*v),
             Value::Null => FilterExpressionResult::Null,
             Value::Number(n) => {
-                if n.is_f64() {
-                    FilterExpressionResult::Float(n.as_f64().unwrap())
-                } else {
+                if n.is_i64() {
                     FilterExpressionResult::Int(n.as_i64().unwrap())
+                } else {
+                    // an f64, or too big for an i64
+                    FilterExpressionResult::Float(n.as_f64().unwrap())
                 }
             }
             Value::String(s) => FilterExpressionResult::String(s.to_owned()),
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index dba385b..f9a94b4 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -79,7 +79,8 @@ impl<'a> FilterExpressionResult<'a> {
                 } else if n.is_i64() {
                     FilterExpressionResult::Int(n.as_i64().unwrap())
                 } else {
-                    FilterExpressionResult::Int(n.as_i64().unwrap()) // XXX:
+                    // too big for an i64
+                    FilterExpressionResult::Float(n.as_f64().unwrap())
                 }
             }
             Value::String(s) => FilterExpressionResult::String(s.to_owned()),
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index 81c1f1b..bd36ee3 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -260,10 +260,11 @@ impl<'a> FilterExpressionResult<'a> {
             Value::Bool(v) => FilterExpressionResult::Bool(*v),
             Value::Null => FilterExpressionResult::Null,
             Value::Number(n) => {
-                if n.is_f64() {
-                    FilterExpressionResult::Float(n.as_f64().unwrap())
-                } else {
+                if n.is_i64() {
                     FilterExpressionResult::Int(n.as_i64().unwrap())
+                } else {
+                    // an f64, or too big for an i64
+                    FilterExpressionResult::Float(n.as_f64().unwrap())
                 }
             }
             Value::String(s) => FilterExpressionResult::String(s.to_owned()),
-- 
2.43.0


From 8db40147fe8e140dce24ee80c2a25488dac934a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:19 +0000
Subject: [PATCH 20/24] fix: numbers inside compared arrays and objects are
 equal by value

---
 crates/jsonpath_rfc9535_iter/src/filter.rs    | 23 +++++++++++++++++--
 .../jsonpath_rfc9535_locations/src/filter.rs  | 23 +++++++++++++++++--
 crates/jsonpath_rfc9535_serde/src/ast.rs      | 23 +++++++++++++++++--
 .../src/filter.rs                             | 23 +++++++++++++++++--
 4 files changed, 84 insertions(+), 8 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index 9af4e4d..df616b3 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -361,12 +361,31 @@ fn eq(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
         (FilterExpressionResult::Null, FilterExpressionResult::Null) => true,
         (FilterExpressionResult::Bool(l), FilterExpressionResult::Bool(r)) => l == r,
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l == r,
-        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => *l == *r,
-        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => *l == *r,
+        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => deep_eq(l, r),
+        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => deep_eq(l, r),
         _ => false,
     }
 }
 
+/// Test JSON values for equality, comparing numbers by value at any depth.
+fn deep_eq(left: &Value, right: &Value) -> bool {
+    match (left, right) {
+        (Value::Number(_), Value::Number(_)) => eq(
+            &FilterExpressionResult::from_json_value(left),
+            &FilterExpressionResult::from_json_value(right),
+        ),
+        (Value::Array(l), Value::Array(r)) => {
+            l.len() == r.len() && l.iter().zip(r).all(|(l, r)| deep_eq(l, r))
+        }
+        (Value::Object(l), Value::Object(r)) => {
+            l.len() == r.len()
+                && l.iter()
+                    .all(|(k, v)| r.get(k).is_some_and(|other| deep_eq(v, other)))
+        }
+        _ => left == right,
+    }
+}
+
 fn lt(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
     match (left, right) {
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l < r,
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index bd36ee3..795b13b 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -355,12 +355,31 @@ fn eq(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
         (FilterExpressionResult::Null, FilterExpressionResult::Null) => true,
         (FilterExpressionResult::Bool(l), FilterExpressionResult::Bool(r)) => l == r,
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l == r,
-        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => *l == *r,
-        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => *l == *r,
+        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => deep_eq(l, r),
+        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => deep_eq(l, r),
         _ => false,
     }
 }
 
+/// Test JSON values for equality, comparing numbers by value at any depth.
+fn deep_eq(left: &Value, right: &Value) -> bool {
+    match (left, right) {
+        (Value::Number(_), Value::Number(_)) => eq(
+            &FilterExpressionResult::from_json_value(left),
+            &FilterExpressionResult::from_json_value(right),
+        ),
+        (Value::Array(l), Value::Array(r)) => {
+            l.len() == r.len() && l.iter().zip(r).all(|(l, r)| deep_eq(l, r))
+        }
+        (Value::Object(l), Value::Object(r)) => {
+            l.len() == r.len()
+                && l.iter()
+                    .all(|(k, v)| r.get(k).is_some_and(|other| deep_eq(v, other)))
+        }
+        _ => left == right,
+    }
+}
+
 fn lt(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
     match (left, right) {
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l < r,
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index f9a94b4..22f1c5e 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -853,12 +853,31 @@ fn eq(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
         (FilterExpressionResult::Null, FilterExpressionResult::Null) => true,
         (FilterExpressionResult::Bool(l), FilterExpressionResult::Bool(r)) => l == r,
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l == r,
-        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => *l == *r,
-        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => *l == *r,
+        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => deep_eq(l, r),
+        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => deep_eq(l, r),
         _ => false,
     }
 }
 
+/// Test JSON values for equality, comparing numbers by value at any depth.
+fn deep_eq(left: &Value, right: &Value) -> bool {
+    match (left, right) {
+        (Value::Number(_), Value::Number(_)) => eq(
+            &FilterExpressionResult::from_json_value(left),
+            &FilterExpressionResult::from_json_value(right),
+        ),
+        (Value::Array(l), Value::Array(r)) => {
+            l.len() == r.len() && l.iter().zip(r).all(|(l, r)| deep_eq(l, r))
+        }
+        (Value::Object(l), Value::Object(r)) => {
+            l.len() == r.len()
+                && l.iter()
+                    .all(|(k, v)| r.get(k).is_some_and(|other| deep_eq(v, other)))
+        }
+        _ => left == right,
+    }
+}
+
 fn lt(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
     match (left, right) {
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l < r,
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index bd36ee3..795b13b 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -355,12 +355,31 @@ fn eq(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
         (FilterExpressionResult::Null, FilterExpressionResult::Null) => true,
         (FilterExpressionResult::Bool(l), FilterExpressionResult::Bool(r)) => l == r,
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l == r,
-        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => *l == *r,
-        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => *l == *r,
+        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => deep_eq(l, r),
+        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => deep_eq(l, r),
         _ => false,
     }
 }
 
+/// Test JSON values for equality, comparing numbers by value at any depth.
+fn deep_eq(left: &Value, right: &Value) -> bool {
+    match (left, right) {
+        (Value::Number(_), Value::Number(_)) => eq(
+            &FilterExpressionResult::from_json_value(left),
+            &FilterExpressionResult::from_json_value(right),
+        ),
+        (Value::Array(l), Value::Array(r)) => {
+            l.len() == r.len() && l.iter().zip(r).all(|(l, r)| deep_eq(l, r))
+        }
+        (Value::Object(l), Value::Object(r)) => {
+            l.len() == r.len()
+                && l.iter()
+                    .all(|(k, v)| r.get(k).is_some_and(|other| deep_eq(v, other)))
+        }
+        _ => left == right,
+    }
+}
+
 fn lt(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
     match (left, right) {
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l < r,
-- 
2.43.0


From 57ad97f2e6353a1efbd069ffa538786c76d0988d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:56 +0000
Subject: [PATCH 21/24] fix: $ inside a nested filter is the root of the whole
 document

---
 crates/jsonpath_rfc9535_iter/src/filter.rs           |  2 +-
 crates/jsonpath_rfc9535_iter/src/iter.rs             | 12 +++++++++++-
 crates/jsonpath_rfc9535_locations/src/filter.rs      |  2 +-
 crates/jsonpath_rfc9535_locations/src/query.rs       | 12 +++++++++++-
 crates/jsonpath_rfc9535_serde/src/ast.rs             | 12 ++++++++++--
 .../jsonpath_rfc9535_singular_selector/src/filter.rs |  2 +-
 .../jsonpath_rfc9535_singular_selector/src/query.rs  | 12 +++++++++++-
 7 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index df616b3..3122cb8 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -112,7 +112,7 @@ impl FilterExpression {
                 }
             }
             FilterExpression::RelativeQuery { query } => FilterExpressionResult::Nodes(
-                QueryIter::new(env, current, *query.clone()).collect(),
+                QueryIter::new_from(env, root, current, *query.clone()).collect(),
             ),
             FilterExpression::RootQuery { query } => {
                 FilterExpressionResult::Nodes(QueryIter::new(env, root, *query.clone()).collect())
diff --git a/crates/jsonpath_rfc9535_iter/src/iter.rs b/crates/jsonpath_rfc9535_iter/src/iter.rs
index 795bbe6..594c6ac 100644
--- a/crates/jsonpath_rfc9535_iter/src/iter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/iter.rs
@@ -29,10 +29,20 @@ impl<'v> Iterator for QueryIter<'v> {
 
 impl<'v> QueryIter<'v> {
     pub fn new(env: &'static Environment, root: &'v Value, query: Query) -> Self {
+        Self::new_from(env, root, root, query)
+    }
+
+    /// Resolve `query` against `value`, with `$` being `root`.
+    pub(crate) fn new_from(
+        env: &'static Environment,
+        root: &'v Value,
+        value: &'v Value,
+        query: Query,
+    ) -> Self {
         let init = SegmentIter {
             selectors: vec![].into_iter(),
             it: Box::new(iter::once(Rc::new(Node {
-                value: root,
+                value,
                 location: String::from("$"),
             }))),
         };
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index 795b13b..bb4887a 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -109,7 +109,7 @@ impl FilterExpression {
                 }
             }
             FilterExpression::RelativeQuery { query } => {
-                FilterExpressionResult::Nodes(query.find(current, env))
+                FilterExpressionResult::Nodes(query.find_from(current, env, root))
             }
             FilterExpression::RootQuery { query } => {
                 FilterExpressionResult::Nodes(query.find(root, env))
diff --git a/crates/jsonpath_rfc9535_locations/src/query.rs b/crates/jsonpath_rfc9535_locations/src/query.rs
index 0f2c651..1f69ed6 100644
--- a/crates/jsonpath_rfc9535_locations/src/query.rs
+++ b/crates/jsonpath_rfc9535_locations/src/query.rs
@@ -32,6 +32,16 @@ impl Query {
     }
 
     pub fn find<'v>(&self, value: &'v Value, env: &'static Environment) -> NodeList<'v> {
+        self.find_from(value, env, value)
+    }
+
+    /// Resolve this query against `value`, with `$` being `root`.
+    pub(crate) fn find_from<'v>(
+        &self,
+        value: &'v Value,
+        env: &'static Environment,
+        root: &'v Value,
+    ) -> NodeList<'v> {
         let root_node = Node {
             value,
             location: ConsList::new(),
@@ -40,7 +50,7 @@ impl Query {
         self.segments
             .iter()
             .fold(vec![root_node], |nodes, segment| {
-                segment.resolve(nodes, env, value)
+                segment.resolve(nodes, env, root)
             })
     }
 
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index 22f1c5e..fc80b5b 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -110,7 +110,15 @@ impl Query {
         env: &'b Environment,
     ) -> Result<NodeList<'a>, JSONPathError> {
         let context = QueryContext { root: value, env };
+        self.find_from(value, &context)
+    }
 
+    // Resolve this query against `value`, with `$` being the root of `context`.
+    fn find_from<'a>(
+        &self,
+        value: &'a Value,
+        context: &QueryContext,
+    ) -> Result<NodeList<'a>, JSONPathError> {
         let root_node = Node {
             value,
             location: String::from("$"),
@@ -119,7 +127,7 @@ impl Query {
         self.segments
             .iter()
             .try_fold(vec![root_node], |nodes, segment| {
-                segment.resolve(nodes, &context)
+                segment.resolve(nodes, context)
             })
     }
 
@@ -585,7 +593,7 @@ impl FilterExpression {
                 }
             }
             FilterExpression::RelativeQuery { query } => Ok(FilterExpressionResult::Nodes(
-                query.find(current, context.env)?,
+                query.find_from(current, context)?,
             )),
             FilterExpression::RootQuery { query } => Ok(FilterExpressionResult::Nodes(
                 query.find(context.root, context.env)?,
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index 795b13b..bb4887a 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -109,7 +109,7 @@ impl FilterExpression {
                 }
             }
             FilterExpression::RelativeQuery { query } => {
-                FilterExpressionResult::Nodes(query.find(current, env))
+                FilterExpressionResult::Nodes(query.find_from(current, env, root))
             }
             FilterExpression::RootQuery { query } => {
                 FilterExpressionResult::Nodes(query.find(root, env))
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/query.rs b/crates/jsonpath_rfc9535_singular_selector/src/query.rs
index 0f2c651..1f69ed6 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/query.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/query.rs
@@ -32,6 +32,16 @@ impl Query {
     }
 
     pub fn find<'v>(&self, value: &'v Value, env: &'static Environment) -> NodeList<'v> {
+        self.find_from(value, env, value)
+    }
+
+    /// Resolve this query against `value`, with `$` being `root`.
+    pub(crate) fn find_from<'v>(
+        &self,
+        value: &'v Value,
+        env: &'static Environment,
+        root: &'v Value,
+    ) -> NodeList<'v> {
         let root_node = Node {
             value,
             location: ConsList::new(),
@@ -40,7 +50,7 @@ impl Query {
         self.segments
             .iter()
             .fold(vec![root_node], |nodes, segment| {
-                segment.resolve(nodes, env, value)
+                segment.resolve(nodes, env, root)
             })
     }
 
-- 
2.43.0


From 9ba8e035398d665d6d85a602f058b2dedb387033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:34 +0000
Subject: [PATCH 22/24] fix: match() tests the whole string, and the meaning of
 . and of &, ~ in classes of i-regexps

---
 .../src/standard_functions.rs                 | 76 ++++++++-----------
 .../src/standard_functions.rs                 | 76 ++++++++-----------
 .../src/standard_functions.rs                 | 76 ++++++++-----------
 .../src/standard_functions.rs                 | 76 ++++++++-----------
 4 files changed, 132 insertions(+), 172 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/standard_functions.rs b/crates/jsonpath_rfc9535_iter/src/standard_functions.rs
index 754ca17..1ac6a0d 100644
--- a/crates/jsonpath_rfc9535_iter/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_iter/src/standard_functions.rs
@@ -221,51 +221,41 @@ impl FunctionExtension for Value {
     }
 }
 
-/// Map re pattern to i-regexp pattern.
+/// Map i-regexp pattern to re pattern.
 fn map_regex(pattern: &str) -> String {
-    // let mut escaped = false;
-    // let mut char_class = false;
-    // let mut parts: Vec<String> = Vec::new();
-
-    // for c in pattern.chars() {
-    //     if escaped {
-    //         parts.push(String::from(c));
-    //         escaped = false;
-    //         continue;
-    //     }
-
-    //     match c {
-    //         '.' => {
-    //             if !char_class {
-    //                 parts.push(String::from("(?:(?![\r\n])\\P{Cs}|\\p{Cs}\\p{Cs})"));
-    //             } else {
-    //                 parts.push(String::from(c));
-    //             }
-    //         }
-    //         '\\' => {
-    //             escaped = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         '[' => {
-    //             char_class = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         ']' => {
-    //             char_class = false;
-    //             parts.push(String::from(c));
-    //         }
-    //         _ => parts.push(String::from(c)),
-    //     }
-    // }
-
-    // parts.join("");
-    pattern.to_owned()
+    let mut escaped = false;
+    let mut char_class = false;
+    let mut mapped = String::with_capacity(pattern.len());
+
+    for c in pattern.chars() {
+        if escaped {
+            mapped.push(c);
+            escaped = false;
+            continue;
+        }
+
+        match c {
+            '.' if !char_class => mapped.push_str("[^\\n\\r]"),
+            // not special in i-regexp, but set operators in re when doubled
+            '&' | '~' if char_class => {
+                mapped.push('\\');
+                mapped.push(c);
+            }
+            _ => mapped.push(c),
+        }
+
+        match c {
+            '\\' => escaped = true,
+            '[' => char_class = true,
+            ']' => char_class = false,
+            _ => (),
+        }
+    }
+
+    mapped
 }
 
+/// Map i-regexp pattern to re pattern that matches the whole of a string.
 fn full_match(pattern: &str) -> String {
-    if !pattern.starts_with('^') && !pattern.ends_with('$') {
-        map_regex(&format!("^(?:{})$", pattern))
-    } else {
-        map_regex(pattern)
-    }
+    format!("^(?:{})$", map_regex(pattern))
 }
diff --git a/crates/jsonpath_rfc9535_locations/src/standard_functions.rs b/crates/jsonpath_rfc9535_locations/src/standard_functions.rs
index b756c33..b309145 100644
--- a/crates/jsonpath_rfc9535_locations/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_locations/src/standard_functions.rs
@@ -221,51 +221,41 @@ impl FunctionExtension for Value {
     }
 }
 
-/// Map re pattern to i-regexp pattern.
+/// Map i-regexp pattern to re pattern.
 fn map_regex(pattern: &str) -> String {
-    // let mut escaped = false;
-    // let mut char_class = false;
-    // let mut parts: Vec<String> = Vec::new();
-
-    // for c in pattern.chars() {
-    //     if escaped {
-    //         parts.push(String::from(c));
-    //         escaped = false;
-    //         continue;
-    //     }
-
-    //     match c {
-    //         '.' => {
-    //             if !char_class {
-    //                 parts.push(String::from("(?:(?![\r\n])\\P{Cs}|\\p{Cs}\\p{Cs})"));
-    //             } else {
-    //                 parts.push(String::from(c));
-    //             }
-    //         }
-    //         '\\' => {
-    //             escaped = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         '[' => {
-    //             char_class = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         ']' => {
-    //             char_class = false;
-    //             parts.push(String::from(c));
-    //         }
-    //         _ => parts.push(String::from(c)),
-    //     }
-    // }
-
-    // parts.join("");
-    pattern.to_owned()
+    let mut escaped = false;
+    let mut char_class = false;
+    let mut mapped = String::with_capacity(pattern.len());
+
+    for c in pattern.chars() {
+        if escaped {
+            mapped.push(c);
+            escaped = false;
+            continue;
+        }
+
+        match c {
+            '.' if !char_class => mapped.push_str("[^\\n\\r]"),
+            // not special in i-regexp, but set operators in re when doubled
+            '&' | '~' if char_class => {
+                mapped.push('\\');
+                mapped.push(c);
+            }
+            _ => mapped.push(c),
+        }
+
+        match c {
+            '\\' => escaped = true,
+            '[' => char_class = true,
+            ']' => char_class = false,
+            _ => (),
+        }
+    }
+
+    mapped
 }
 
+/// Map i-regexp pattern to re pattern that matches the whole of a string.
 fn full_match(pattern: &str) -> String {
-    if !pattern.starts_with('^') && !pattern.ends_with('$') {
-        map_regex(&format!("^(?:{})$", pattern))
-    } else {
-        map_regex(pattern)
-    }
+    format!("^(?:{})$", map_regex(pattern))
 }
diff --git a/crates/jsonpath_rfc9535_serde/src/standard_functions.rs b/crates/jsonpath_rfc9535_serde/src/standard_functions.rs
index db7f233..552793b 100644
--- a/crates/jsonpath_rfc9535_serde/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_serde/src/standard_functions.rs
@@ -221,51 +221,41 @@ impl FunctionExtension for Value {
     }
 }
 
-/// Map re pattern to i-regexp pattern.
+/// Map i-regexp pattern to re pattern.
 fn map_regex(pattern: &str) -> String {
-    // let mut escaped = false;
-    // let mut char_class = false;
-    // let mut parts: Vec<String> = Vec::new();
-
-    // for c in pattern.chars() {
-    //     if escaped {
-    //         parts.push(String::from(c));
-    //         escaped = false;
-    //         continue;
-    //     }
-
-    //     match c {
-    //         '.' => {
-    //             if !char_class {
-    //                 parts.push(String::from("(?:(?![\r\n])\\P{Cs}|\\p{Cs}\\p{Cs})"));
-    //             } else {
-    //                 parts.push(String::from(c));
-    //             }
-    //         }
-    //         '\\' => {
-    //             escaped = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         '[' => {
-    //             char_class = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         ']' => {
-    //             char_class = false;
-    //             parts.push(String::from(c));
-    //         }
-    //         _ => parts.push(String::from(c)),
-    //     }
-    // }
-
-    // parts.join("");
-    pattern.to_owned()
+    let mut escaped = false;
+    let mut char_class = false;
+    let mut mapped = String::with_capacity(pattern.len());
+
+    for c in pattern.chars() {
+        if escaped {
+            mapped.push(c);
+            escaped = false;
+            continue;
+        }
+
+        match c {
+            '.' if !char_class => mapped.push_str("[^\\n\\r]"),
+            // not special in i-regexp, but set operators in re when doubled
+            '&' | '~' if char_class => {
+                mapped.push('\\');
+                mapped.push(c);
+            }
+            _ => mapped.push(c),
+        }
+
+        match c {
+            '\\' => escaped = true,
+            '[' => char_class = true,
+            ']' => char_class = false,
+            _ => (),
+        }
+    }
+
+    mapped
 }
 
+/// Map i-regexp pattern to re pattern that matches the whole of a string.
 fn full_match(pattern: &str) -> String {
-    if !pattern.starts_with('^') && !pattern.ends_with('$') {
-        map_regex(&format!("^(?:{})$", pattern))
-    } else {
-        map_regex(pattern)
-    }
+    format!("^(?:{})$", map_regex(pattern))
 }
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs b/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs
index b756c33..b309145 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs
@@ -221,51 +221,41 @@ impl FunctionExtension for Value {
     }
 }
 
-/// Map re pattern to i-regexp pattern.
+/// Map i-regexp pattern to re pattern.
 fn map_regex(pattern: &str) -> String {
-    // let mut escaped = false;
-    // let mut char_class = false;
-    // let mut parts: Vec<String> = Vec::new();
-
-    // for c in pattern.chars() {
-    //     if escaped {
-    //         parts.push(String::from(c));
-    //         escaped = false;
-    //         continue;
-    //     }
-
-    //     match c {
-    //         '.' => {
-    //             if !char_class {
-    //                 parts.push(String::from("(?:(?![\r\n])\\P{Cs}|\\p{Cs}\\p{Cs})"));
-    //             } else {
-    //                 parts.push(String::from(c));
-    //             }
-    //         }
-    //         '\\' => {
-    //             escaped = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         '[' => {
-    //             char_class = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         ']' => {
-    //             char_class = false;
-    //             parts.push(String::from(c));
-    //         }
-    //         _ => parts.push(String::from(c)),
-    //     }
-    // }
-
-    // parts.join("");
-    pattern.to_owned()
+    let mut escaped = false;
+    let mut char_class = false;
+    let mut mapped = String::with_capacity(pattern.len());
+
+    for c in pattern.chars() {
+        if escaped {
+            mapped.push(c);
+            escaped = false;
+            continue;
+        }
+
+        match c {
+            '.' if !char_class => mapped.push_str("[^\\n\\r]"),
+            // not special in i-regexp, but set operators in re when doubled
+            '&' | '~' if char_class => {
+                mapped.push('\\');
+                mapped.push(c);
+            }
+            _ => mapped.push(c),
+        }
+
+        match c {
+            '\\' => escaped = true,
+            '[' => char_class = true,
+            ']' => char_class = false,
+            _ => (),
+        }
+    }
+
+    mapped
 }
 
+/// Map i-regexp pattern to re pattern that matches the whole of a string.
 fn full_match(pattern: &str) -> String {
-    if !pattern.starts_with('^') && !pattern.ends_with('$') {
-        map_regex(&format!("^(?:{})$", pattern))
-    } else {
-        map_regex(pattern)
-    }
+    format!("^(?:{})$", map_regex(pattern))
 }
-- 
2.43.0


From 3f199f531b0ba6b93eb6dde102c58ed4b9c2d0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:37 +0000
Subject: [PATCH 23/24] fix: arguments of user defined functions that take a
 logical value

---
 crates/jsonpath_rfc9535_iter/src/filter.rs              | 6 ++++--
 crates/jsonpath_rfc9535_locations/src/filter.rs         | 6 ++++--
 crates/jsonpath_rfc9535_serde/src/ast.rs                | 6 ++++--
 crates/jsonpath_rfc9535_singular_selector/src/filter.rs | 6 ++++--
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index 3122cb8..23b2b55 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -403,8 +403,10 @@ fn unpack_result<'v>(
     param_types: &[ExpressionType],
     index: usize,
 ) -> FilterExpressionResult<'v> {
-    if matches!(param_types.get(index).unwrap(), ExpressionType::Nodes) {
-        return rv;
+    match param_types.get(index).unwrap() {
+        ExpressionType::Nodes => return rv,
+        ExpressionType::Logical => return FilterExpressionResult::Bool(is_truthy(rv)),
+        ExpressionType::Value => (),
     }
 
     match &rv {
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index bb4887a..5558607 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -397,8 +397,10 @@ pub fn unpack_result<'a>(
     param_types: &[ExpressionType],
     index: usize,
 ) -> FilterExpressionResult<'a> {
-    if matches!(param_types.get(index).unwrap(), ExpressionType::Nodes) {
-        return rv;
+    match param_types.get(index).unwrap() {
+        ExpressionType::Nodes => return rv,
+        ExpressionType::Logical => return FilterExpressionResult::Bool(is_truthy(rv)),
+        ExpressionType::Value => (),
     }
 
     match &rv {
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index fc80b5b..7e1fca2 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -903,8 +903,10 @@ fn unpack_result<'a>(
     param_types: &[ExpressionType],
     index: usize,
 ) -> Result<FilterExpressionResult<'a>, JSONPathError> {
-    if matches!(param_types.get(index).unwrap(), ExpressionType::Nodes) {
-        return Ok(rv);
+    match param_types.get(index).unwrap() {
+        ExpressionType::Nodes => return Ok(rv),
+        ExpressionType::Logical => return Ok(FilterExpressionResult::Bool(is_truthy(rv))),
+        ExpressionType::Value => (),
     }
 
     match &rv {
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index bb4887a..5558607 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -397,8 +397,10 @@ pub fn unpack_result<'a>(
     param_types: &[ExpressionType],
     index: usize,
 ) -> FilterExpressionResult<'a> {
-    if matches!(param_types.get(index).unwrap(), ExpressionType::Nodes) {
-        return rv;
+    match param_types.get(index).unwrap() {
+        ExpressionType::Nodes => return rv,
+        ExpressionType::Logical => return FilterExpressionResult::Bool(is_truthy(rv)),
+        ExpressionType::Value => (),
     }
 
     match &rv {
-- 
2.43.0


From 48bf3f2c849ee66e8153cadb8349e6fd604e2223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:28 +0000
Subject: [PATCH 24/24] fix: lazy iterators overflow the stack on long runs
 without a match

---
 crates/jsonpath_rfc9535_iter/src/iter.rs | 38 ++++++++----------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/iter.rs b/crates/jsonpath_rfc9535_iter/src/iter.rs
index 594c6ac..619e008 100644
--- a/crates/jsonpath_rfc9535_iter/src/iter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/iter.rs
@@ -67,15 +67,11 @@ pub struct SegmentIter<'v> {
 impl<'v> Iterator for SegmentIter<'v> {
     type Item = Rc<Node<'v>>;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.it.next() {
-            Some(v) => Some(v),
-            None => match self.selectors.next() {
-                Some(it) => {
-                    self.it = Box::new(it);
-                    self.next()
-                }
-                None => None,
-            },
+        loop {
+            match self.it.next() {
+                Some(v) => return Some(v),
+                None => self.it = Box::new(self.selectors.next()?),
+            }
         }
     }
 }
@@ -210,15 +206,11 @@ pub struct ArrayFilterIter<'v> {
 impl<'v> Iterator for ArrayFilterIter<'v> {
     type Item = Rc<Node<'v>>;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.it.next() {
-            Some((index, value)) => {
-                if is_truthy(self.expr.evaluate(self.env, self.root, value)) {
-                    Some(self.parent.new_child_element(value, index))
-                } else {
-                    self.next()
-                }
+        loop {
+            let (index, value) = self.it.next()?;
+            if is_truthy(self.expr.evaluate(self.env, self.root, value)) {
+                return Some(self.parent.new_child_element(value, index));
             }
-            None => None,
         }
     }
 }
@@ -252,15 +244,11 @@ pub struct ObjectFilterIter<'v> {
 impl<'v> Iterator for ObjectFilterIter<'v> {
     type Item = Rc<Node<'v>>;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.it.next() {
-            Some((k, v)) => {
-                if is_truthy(self.expr.evaluate(self.env, self.root, v)) {
-                    Some(self.parent.new_child_member(v, k))
-                } else {
-                    self.next()
-                }
+        loop {
+            let (k, v) = self.it.next()?;
+            if is_truthy(self.expr.evaluate(self.env, self.root, v)) {
+                return Some(self.parent.new_child_member(v, k));
             }
-            None => None,
         }
     }
 }
-- 
2.43.0

