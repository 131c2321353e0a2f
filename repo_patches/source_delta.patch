From a43fc34fc2787df606b9779988b15b0decf9dbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:41 +0000
Subject: [PATCH 01/23] fix: report arithmetic overflow in expressions instead
 of panicking or wrapping

---
 src/asm.rs        |  2 ++
 src/expression.rs | 34 +++++++++++++++++++++++++++++-----
 src/lib.rs        |  6 ++++++
 3 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index fec5de0..f609980 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -388,6 +388,7 @@ impl std::convert::From<img::IconError> for AssemblyError {
 pub enum AssemblyError {
     NameNotFound(Span, String),
     DivideByZero(Span, String),
+    ArithmeticOverflow(Span),
     MustBeLiteralNumber(Span),
     NumberOfBytesIsLongerThanLength(Span, usize, usize), // length, number-of-bytes
     NameAlreadyExists(Span, Span, String),
@@ -552,6 +553,7 @@ impl From<EvaluationError> for AssemblyError {
             DivideByZero(span, message) => {
                 AssemblyError::DivideByZero(span.clone(), message.clone())
             }
+            ArithmeticOverflow(span) => AssemblyError::ArithmeticOverflow(span),
             MustBeLiteralNumber(span) => AssemblyError::MustBeLiteralNumber(span.clone()),
             MacroLabelOutsideOfMacro(span) => AssemblyError::MacroLabelOutsideOfMacro(span),
             MacroArgOutsideOfMacro(span) => AssemblyError::MacroArgOutsideOfMacro(span),
diff --git a/src/expression.rs b/src/expression.rs
index 75c106d..afe3d05 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -8,6 +8,7 @@ use std::fmt;
 pub enum EvaluationError {
     NameNotFound(Span, String),
     DivideByZero(Span, String),
+    ArithmeticOverflow(Span),
     MustBeLiteralNumber(Span),
     MacroLabelOutsideOfMacro(Span),
     MacroArgOutsideOfMacro(Span),
@@ -22,6 +23,7 @@ impl EvaluationError {
         match self {
             NameNotFound(span, msg) => format!("{}: {}", span, msg),
             DivideByZero(span, msg) => format!("{}: {}", span, msg),
+            ArithmeticOverflow(span) => format!("{}: Arithmetic overflow", span),
             MustBeLiteralNumber(span) => format!("{}: Must be a literal integer", span),
             MacroLabelOutsideOfMacro(span) => format!("{}: Macro label ouside of macro", span),
             MacroArgOutsideOfMacro(span) => format!("{}: Macro arg outside of macro", span),
@@ -479,10 +481,25 @@ impl Expr {
                     format!("{} '{}' not found", name_lookup.name(), name),
                 )),
             },
-            Expr::Plus(_, left, right) => Ok(left.eval(name_lookup)? + right.eval(name_lookup)?),
-            Expr::Minus(_, left, right) => Ok(left.eval(name_lookup)? - right.eval(name_lookup)?),
-            Expr::UnaryMinus(_, expr) => Ok(-1 * expr.eval(name_lookup)?),
-            Expr::Times(_, left, right) => Ok(left.eval(name_lookup)? * right.eval(name_lookup)?),
+            Expr::Plus(_, left, right) => {
+                let left_val = left.eval(name_lookup)?;
+                let right_val = right.eval(name_lookup)?;
+                self.checked(left_val.checked_add(right_val))
+            }
+            Expr::Minus(_, left, right) => {
+                let left_val = left.eval(name_lookup)?;
+                let right_val = right.eval(name_lookup)?;
+                self.checked(left_val.checked_sub(right_val))
+            }
+            Expr::UnaryMinus(_, expr) => {
+                let value = expr.eval(name_lookup)?;
+                self.checked(value.checked_neg())
+            }
+            Expr::Times(_, left, right) => {
+                let left_val = left.eval(name_lookup)?;
+                let right_val = right.eval(name_lookup)?;
+                self.checked(left_val.checked_mul(right_val))
+            }
             Expr::Divide(_, left, right) => {
                 let left_val = left.eval(name_lookup)?;
                 let right_val = right.eval(name_lookup)?;
@@ -492,7 +509,7 @@ impl Expr {
                         format!("Divide by zero: {}/{}", left_val, right_val),
                     ))
                 } else {
-                    Ok(left_val / right_val)
+                    self.checked(left_val.checked_div(right_val))
                 }
             }
             Expr::Number(_, num, _radix) => Ok(*num),
@@ -510,6 +527,13 @@ impl Expr {
             Expr::MacroArg(span, _) => Err(EvaluationError::MacroArgOutsideOfMacro(span.clone())),
         }
     }
+
+    fn checked(&self, value: Option<i32>) -> Result<i32, EvaluationError> {
+        match value {
+            Some(value) => Ok(value),
+            None => Err(EvaluationError::ArithmeticOverflow(self.span())),
+        }
+    }
 }
 
 #[derive(Debug, Eq, PartialEq, Ord, PartialOrd, Hash, Clone, Copy)]
diff --git a/src/lib.rs b/src/lib.rs
index 8bcc1c2..a8198e3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -572,6 +572,12 @@ fn print_error(files: &SourceFiles, err: &AssemblyError, stderr: &mut ColorWrite
             stderr.newline();
             highlight_line(&span, "", files, stderr);
         }
+        ArithmeticOverflow(span) => {
+            stderr
+                .writeln("Arithmetic overflow: the value does not fit in 32 bits")
+                .newline();
+            highlight_line(&span, "", files, stderr);
+        }
         MustBeLiteralNumber(span) => {
             stderr.writeln(" Must be a literal number").newline();
             highlight_line(&span, "", files, stderr);
-- 
2.43.0


From 6e0052db0c650632d368a1fc070b94ff0e59301a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:28 +0000
Subject: [PATCH 02/23] fix: .cnop with a zero multiple pads relative to the
 current position; no overflow in alignment

---
 src/ast.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 85deadd..2fd237f 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -246,20 +246,28 @@ impl Directive {
         }
     }
 
+    fn checked_pos(pos: Option<i32>, expr: &Expr) -> Result<i32, EvaluationError> {
+        match pos {
+            Some(pos) => Ok(pos),
+            None => Err(EvaluationError::ArithmeticOverflow(expr.span())),
+        }
+    }
+
     pub fn eval_cnop(pos: i32, add: &Expr, multiple: &Expr) -> Result<i32, EvaluationError> {
-        let add = Directive::eval_cnop_expr(add)?;
-        let multiple = Directive::eval_cnop_expr(multiple)?;
-        if multiple == 0 {
-            Ok(add)
+        let add_val = Directive::eval_cnop_expr(add)?;
+        let multiple_val = Directive::eval_cnop_expr(multiple)?;
+        if multiple_val <= 0 {
+            // There is nothing to align to.
+            Directive::checked_pos(pos.checked_add(add_val), add)
         } else {
-            let mut mult = 0;
+            let mut mult: i32 = 0;
             loop {
                 if pos <= mult {
                     break;
                 }
-                mult = mult + multiple;
+                mult = Directive::checked_pos(mult.checked_add(multiple_val), multiple)?;
             }
-            Ok(mult + add)
+            Directive::checked_pos(mult.checked_add(add_val), add)
         }
     }
 
-- 
2.43.0


From 23d3c1b659387f597f50218df4acb763c808d715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:29 +0000
Subject: [PATCH 03/23] fix: report a program that overflows the position
 counter instead of panicking

---
 src/asm.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index f609980..f407bd3 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -595,6 +595,13 @@ struct NamesBuilder {
     locals: HashMap<String, HashMap<String, NameValue>>,
 }
 
+fn advance(pos: i32, size: i32, statement: &Statement) -> Result<i32, AssemblyError> {
+    match pos.checked_add(size) {
+        Some(next_pos) => Ok(next_pos),
+        None => Err(AssemblyError::InvalidCodeLocation(statement.span(), pos)),
+    }
+}
+
 fn compute_labels(statements: &Statements) -> Result<NamesBuilder, AssemblyError> {
     let mut globals = HashMap::new();
     let mut locals = HashMap::new();
@@ -604,7 +611,7 @@ fn compute_labels(statements: &Statements) -> Result<NamesBuilder, AssemblyError
     for statement in statements.iter() {
         use crate::ast::Statement::*;
         match statement {
-            Directive(dir) => pos += dir.size(pos)?,
+            Directive(dir) => pos = advance(pos, dir.size(pos)?, statement)?,
             Label(_, name) => {
                 if name.starts_with(".") {
                     let val = NameValue {
@@ -624,7 +631,7 @@ fn compute_labels(statements: &Statements) -> Result<NamesBuilder, AssemblyError
                 }
             }
             Instr(_, instr) => {
-                pos += instr.size() as i32;
+                pos = advance(pos, instr.size() as i32, statement)?;
             }
             Variable(_, _name, _expr) | Alias(_, _name, _expr) => {}
             Comment(_) => {}
@@ -651,10 +658,10 @@ fn compute_names(statements: &Statements) -> Result<(usize, Names), AssemblyErro
     for statement in statements.iter() {
         use crate::ast::Statement::*;
         match statement {
-            Directive(dir) => pos += dir.size(pos)?,
+            Directive(dir) => pos = advance(pos, dir.size(pos)?, statement)?,
             Label(_, _name) => (),
             Instr(_, instr) => {
-                pos += instr.size() as i32;
+                pos = advance(pos, instr.size() as i32, statement)?;
             }
             Variable(_, name, expr) | Alias(_, name, expr) => {
                 let val = {
@@ -691,7 +698,7 @@ fn compute_names(statements: &Statements) -> Result<(usize, Names), AssemblyErro
         new_locals.insert(key.to_owned(), new_local);
     }
     Ok((
-        (max_pos + 1) as usize,
+        (max_pos as usize) + 1,
         Names {
             globals: new_globals,
             locals: new_locals,
-- 
2.43.0


From ef0d45fc4d29f87b4e327f18250d7fa329aa0e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 04/23] fix: look up local scopes by the case-insensitive
 global label name

---
 src/asm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm.rs b/src/asm.rs
index f407bd3..00f770d 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -346,7 +346,7 @@ fn generate_bytes(
             }
             Label(_, name) => {
                 if !name.starts_with(".") {
-                    current_global = name.clone();
+                    current_global = name.to_lowercase();
                 }
             }
             Instr(_, instr) => {
-- 
2.43.0


From 6d590e30206e9315899fd5ecf3ccf798248c2c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:56 +0000
Subject: [PATCH 05/23] fix: do not substitute macro arguments again inside the
 caller's argument

---
 src/expression.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/expression.rs b/src/expression.rs
index afe3d05..9d5a678 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -194,7 +194,11 @@ impl Expr {
                             span.with_parent(expr.span()),
                         )),
                         Ex(expr) => Ok(expr
-                            .replace_macro_args(inv_span.clone(), labels, args)?
+                            .replace_macro_args(
+                                inv_span.clone(),
+                                &HashMap::new(),
+                                &HashMap::new(),
+                            )?
                             .with_span(expr.span().with_parent(inv_span.clone()))),
                         IM(im_span, _) => Err(EvaluationError::IndirectionModeNotAllowedHere(
                             span.with_parent(im_span.clone()),
-- 
2.43.0


From 8134b2746fcfb8353d82454e9c78d3b47d645f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:25 +0000
Subject: [PATCH 06/23] fix: report recursive macros instead of overflowing the
 stack

---
 src/asm.rs | 17 ++++++++++++++++-
 src/lib.rs | 10 ++++++++++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/asm.rs b/src/asm.rs
index 00f770d..6a62908 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -453,6 +453,7 @@ pub enum AssemblyError {
     ImmediateValueNotAllowedHere(Span),
     IndirectionModeNotAllowedHere(Span),
     NoSuchMacro(Span, String),
+    RecursiveMacro(Span, String),
     InvalidSpriteType(Span, String),
 }
 
@@ -711,7 +712,14 @@ fn expand_macros(statements: &Statements) -> Result<Statements, AssemblyError> {
     for stmt in statements.iter() {
         match stmt {
             Statement::MacroCall(span, name, args) => {
-                let mut stmts = expand(statements, span.clone(), name.to_owned(), args)?;
+                let mut active = vec![];
+                let mut stmts = expand(
+                    statements,
+                    span.clone(),
+                    name.to_owned(),
+                    args,
+                    &mut active,
+                )?;
                 new.append(&mut stmts);
             }
             _ => {
@@ -784,8 +792,12 @@ fn expand(
     span: Span,
     name: String,
     args: &[Arg],
+    active: &mut Vec<MacroIdentifier>,
 ) -> Result<Vec<Statement>, AssemblyError> {
     let ident = MacroIdentifier::new(name.clone(), args.len());
+    if active.contains(&ident) {
+        return Err(AssemblyError::RecursiveMacro(span, name));
+    }
     let macrodef = match stmts.macro_def(&ident) {
         Some(def) => def,
         None => {
@@ -811,6 +823,7 @@ fn expand(
         argmap
     };
     let labels = gen_labels(macrodef.body())?;
+    active.push(ident);
     let mut statements = vec![];
     for stmt in macrodef.body().iter() {
         use crate::ast::MacroStatement::*;
@@ -825,6 +838,7 @@ fn expand(
                             ispan.with_parent(span.clone()),
                             iname.to_owned(),
                             new_args.as_slice(),
+                            active,
                         )?;
                         statements.append(&mut new_stmts);
                     }
@@ -857,6 +871,7 @@ fn expand(
             }
         }
     }
+    active.pop();
     Ok(statements)
 }
 
diff --git a/src/lib.rs b/src/lib.rs
index a8198e3..5ce9c4d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -949,6 +949,16 @@ fn print_error(files: &SourceFiles, err: &AssemblyError, stderr: &mut ColorWrite
                 .newline();
             highlight_line(span, "", files, stderr);
         }
+        RecursiveMacro(span, name) => {
+            stderr
+                .write("Macro ")
+                .cyan()
+                .write(name)
+                .reset()
+                .writeln(" expands to itself.")
+                .newline();
+            highlight_line(span, "", files, stderr);
+        }
         InvalidIconSize(path, w, h) => {
             stderr
                 .write("Invalid icon size in ")
-- 
2.43.0


From 7d72d9b5a4223f295ea3c35500038b44834329d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 07/23] fix: end of a source line at the end of a file, and in
 files shorter than two bytes

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5ce9c4d..f471038 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1200,8 +1200,8 @@ fn end_of_line(pos: usize, text: &str) -> usize {
     let bytes = text.as_bytes();
     let mut loc = pos;
     while loc < bytes.len()
-        && !((loc < bytes.len() - 1 && bytes[loc] == b'\n')
-            || (loc < bytes.len() - 2 && bytes[loc] == b'\r' && bytes[loc + 1] == b'\n'))
+        && !(bytes[loc] == b'\n'
+            || (loc + 1 < bytes.len() && bytes[loc] == b'\r' && bytes[loc + 1] == b'\n'))
     {
         loc += 1;
     }
-- 
2.43.0


From 31869cf3a67bded0ec95e5e15dcecab815520535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 08/23] fix: disassembly pads to the size of the disassembled
 image

---
 src/disasm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disasm.rs b/src/disasm.rs
index 3891b71..c54a623 100644
--- a/src/disasm.rs
+++ b/src/disasm.rs
@@ -119,7 +119,7 @@ pub fn disassemble(
     }
 
     stmts.push_comment("\nPad size of binary");
-    stmts.push_cnop(bytes.len() % 0x200, 0x200);
+    stmts.push_cnop(0, bytes.len());
 
     stmts.push_comment("\nPSW bits");
     for (name, value) in names.sorted_psw_bits() {
-- 
2.43.0


From 31d8740380dd58c69ef3789a520081ab9058953b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:16 +0000
Subject: [PATCH 09/23] fix: disassembly labels only instructions, and writes
 other branch targets as numbers

---
 src/disasm.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/disasm.rs b/src/disasm.rs
index c54a623..ab3b370 100644
--- a/src/disasm.rs
+++ b/src/disasm.rs
@@ -465,6 +465,8 @@ fn compute_labels(graph: &InstructionGraph<i32, u8>, names: &mut Names) {
             Stf => (),
         }
     }
+    // Only the start of an instruction gets a label in the listing.
+    names.retain_labels(|pos| graph.contains_instr(pos));
 }
 
 fn lift_instr(
@@ -1014,6 +1016,10 @@ impl Names {
         }
     }
 
+    pub fn retain_labels<F: Fn(usize) -> bool>(&mut self, keep: F) {
+        self.labels.retain(|pos, _| keep(*pos));
+    }
+
     pub fn alias(&self, pos: usize) -> Option<&str> {
         self.aliases.get(&pos).map(|string| string.as_str())
     }
-- 
2.43.0


From 34cf81f1d0ea7527b4f6111ecd0794dd93393b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:02 +0000
Subject: [PATCH 10/23] fix: report a number literal that does not fit in 32
 bits instead of panicking

---
 src/lexer.rs | 69 +++++++++++++++++++++++++++++++++-------------------
 1 file changed, 44 insertions(+), 25 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index ec9d8ab..17d9edb 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -309,28 +309,47 @@ fn clean_str(string: &str) -> String {
     String::from_utf8(result).unwrap()
 }
 
+enum Convert {
+    Always(fn(&str) -> TokenType),
+    Number(fn(&str) -> Option<TokenType>),
+}
+
 struct Matcher {
     regex: Regex,
-    convert: fn(&str) -> TokenType,
+    convert: Convert,
 }
 
 impl Matcher {
     pub fn new(re: &str, convert: fn(&str) -> TokenType) -> Matcher {
         Matcher {
             regex: Regex::new(("^".to_owned() + re).as_str()).unwrap(),
-            convert: convert,
+            convert: Convert::Always(convert),
+        }
+    }
+
+    pub fn number(re: &str, convert: fn(&str) -> Option<TokenType>) -> Matcher {
+        Matcher {
+            regex: Regex::new(("^".to_owned() + re).as_str()).unwrap(),
+            convert: Convert::Number(convert),
         }
     }
 
-    pub fn do_match<'a>(&self, input: &Input<'a>) -> Option<(Input<'a>, Token)> {
+    /// Returns `None` if the input doesn't match, and `Some(None)` if
+    /// it does, but the number it matched is too big.
+    pub fn do_match<'a>(&self, input: &Input<'a>) -> Option<Option<(Input<'a>, Token)>> {
         match self.regex.captures_iter(input.as_str()).next() {
             Some(cap) => {
                 let capture: &str = &cap[0];
-                let convert = &self.convert;
-                let token_type = convert(capture);
+                let token_type = match self.convert {
+                    Convert::Always(convert) => convert(capture),
+                    Convert::Number(convert) => match convert(capture) {
+                        Some(token_type) => token_type,
+                        None => return Some(None),
+                    },
+                };
                 let new_input = input.update(capture.len());
                 let span = Span::new(input.location(), new_input.location());
-                Some((new_input, Token::new(token_type, span)))
+                Some(Some((new_input, Token::new(token_type, span))))
             }
             None => None,
         }
@@ -398,24 +417,24 @@ fn skip_whitespace_and_comments<'a>(input: &Input<'a>) -> Input<'a> {
     current
 }
 
-fn to_hex_num(text: &str, prefix: usize) -> TokenType {
-    let num = i32::from_str_radix(&(&text[prefix..]).replace('\'', ""), 16).unwrap();
-    TokenType::Number(num, Radix::Hex)
+fn to_hex_num(text: &str, prefix: usize) -> Option<TokenType> {
+    let num = i32::from_str_radix(&(&text[prefix..]).replace('\'', ""), 16).ok()?;
+    Some(TokenType::Number(num, Radix::Hex))
 }
 
-fn to_oct_num(text: &str) -> TokenType {
-    let num = i32::from_str_radix(&(&text[2..]).replace('\'', ""), 8).unwrap();
-    TokenType::Number(num, Radix::Octal)
+fn to_oct_num(text: &str) -> Option<TokenType> {
+    let num = i32::from_str_radix(&(&text[2..]).replace('\'', ""), 8).ok()?;
+    Some(TokenType::Number(num, Radix::Octal))
 }
 
-fn to_bin_num(text: &str, prefix: usize) -> TokenType {
-    let num = i32::from_str_radix(&(&text[prefix..]).replace('\'', ""), 2).unwrap();
-    TokenType::Number(num, Radix::Binary)
+fn to_bin_num(text: &str, prefix: usize) -> Option<TokenType> {
+    let num = i32::from_str_radix(&(&text[prefix..]).replace('\'', ""), 2).ok()?;
+    Some(TokenType::Number(num, Radix::Binary))
 }
 
-fn to_dec_num(text: &str) -> TokenType {
-    let num = i32::from_str_radix(&text.replace('\'', ""), 10).unwrap();
-    TokenType::Number(num, Radix::Decimal)
+fn to_dec_num(text: &str) -> Option<TokenType> {
+    let num = i32::from_str_radix(&text.replace('\'', ""), 10).ok()?;
+    Some(TokenType::Number(num, Radix::Decimal))
 }
 
 fn read_token<'a>(
@@ -469,12 +488,12 @@ fn read_token<'a>(
                 }),
                 Matcher::new("@[rR][0123]", |text| to_indr_mode(text)),
                 Matcher::new(ident, |text| TokenType::Name(text.to_lowercase())),
-                Matcher::new(hex_num, |text| to_hex_num(text, 1)),
-                Matcher::new(oct_num, |text| to_oct_num(text)),
-                Matcher::new(hex_num2, |text| to_hex_num(text, 2)),
-                Matcher::new(bin_num, |text| to_bin_num(text, 1)),
-                Matcher::new(bin_num2, |text| to_bin_num(text, 2)),
-                Matcher::new(dec_num, |text| to_dec_num(text)),
+                Matcher::number(hex_num, |text| to_hex_num(text, 1)),
+                Matcher::number(oct_num, |text| to_oct_num(text)),
+                Matcher::number(hex_num2, |text| to_hex_num(text, 2)),
+                Matcher::number(bin_num, |text| to_bin_num(text, 1)),
+                Matcher::number(bin_num2, |text| to_bin_num(text, 2)),
+                Matcher::number(dec_num, |text| to_dec_num(text)),
             ]
         };
     }
@@ -486,7 +505,7 @@ fn read_token<'a>(
         for matcher in MATCHERS.iter() {
             match matcher.do_match(&input) {
                 None => (),
-                matched => return matched,
+                Some(matched) => return matched,
             }
         }
         None
-- 
2.43.0


From 78bd3759fe454f413d9f3ad231605d5bb7805acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:02 +0000
Subject: [PATCH 11/23] fix: make a VMI for a VMS file shorter than its header
 instead of panicking

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index f471038..c113717 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -382,7 +382,7 @@ fn generate_vmi(
 
     // Copy description field from VMS file
     for idx in 0..32usize {
-        bytes[0x4 + idx] = vms_bytes[offset + 0x10 + idx];
+        bytes[0x4 + idx] = *vms_bytes.get(offset + 0x10 + idx).unwrap_or(&0);
     }
 
     // Write copyright notice
-- 
2.43.0


From 43480f784d46831891f86c3414ce2ef3a8b1c070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:06 +0000
Subject: [PATCH 12/23] fix: non-ASCII characters in a C header's block comment

---
 src/cheader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cheader.rs b/src/cheader.rs
index 84d2955..92524b7 100644
--- a/src/cheader.rs
+++ b/src/cheader.rs
@@ -12,10 +12,10 @@ fn skip_multiline_comment<'a>(input: &Input<'a>) -> Input<'a> {
     let mut skipped = 0;
     if text.starts_with("/*") {
         skipped = skipped + 2;
-        while skipped < text.len() && !text[skipped..].starts_with("*/") {
+        while skipped < text.len() && !text.as_bytes()[skipped..].starts_with(b"*/") {
             skipped = skipped + 1;
         }
-        if text[skipped..].starts_with("*/") {
+        if text.as_bytes()[skipped..].starts_with(b"*/") {
             return input.update(skipped + 2);
         } else {
             return input.update(skipped);
-- 
2.43.0


From 63567fc6ac9b5fab4eb5583d136f0b9c5be8f798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:55 +0000
Subject: [PATCH 13/23] fix: look at each instruction of a disassembled image
 once

---
 src/disasm.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/disasm.rs b/src/disasm.rs
index ab3b370..034d8c1 100644
--- a/src/disasm.rs
+++ b/src/disasm.rs
@@ -938,6 +938,9 @@ fn build_instruction_graph(
                 eprintln!("Invalid instruction position found: {}", pos);
                 continue;
             }
+            if graph.contains_instr(*pos) {
+                continue;
+            }
             let decoded = Instr::<i32, u8>::decode(&bytes[*pos..bytes.len()]);
             match decoded {
                 Some(instr) => {
-- 
2.43.0


From 564311b5329fbfb5fb85a32f5274a4a6911680b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:02 +0000
Subject: [PATCH 14/23] fix: reject an image without frames instead of crashing

---
 src/img.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/img.rs b/src/img.rs
index 13e5a48..8aec484 100644
--- a/src/img.rs
+++ b/src/img.rs
@@ -2,8 +2,9 @@ use enum_iterator::Sequence;
 use image;
 use image::codecs::gif::GifDecoder;
 use image::codecs::png::PngDecoder;
+use image::error::DecodingError;
 use image::AnimationDecoder;
-use image::{DynamicImage, GenericImageView, Rgba};
+use image::{DynamicImage, GenericImageView, ImageError, Rgba};
 use serde::{Deserialize, Serialize};
 use std::collections::HashMap;
 use std::ffi::OsStr;
@@ -469,6 +470,9 @@ fn load_gif(path: impl AsRef<Path>) -> Result<Image, ImageLoadError> {
         .into_frames()
         .collect_frames()
         .map_err(|e| ImageLoadError::ImageParseError(path.display().to_string(), e))?;
+    if frames.is_empty() {
+        return Err(no_frames(path, image::ImageFormat::Gif));
+    }
     let mut out_frames = vec![];
     for frame in frames {
         out_frames.push(to_frame(
@@ -491,6 +495,9 @@ fn load_png(path: impl AsRef<Path>) -> Result<Image, ImageLoadError> {
             .into_frames()
             .collect_frames()
             .map_err(|e| ImageLoadError::ImageParseError(path.display().to_string(), e))?;
+        if frames.is_empty() {
+            return Err(no_frames(path, image::ImageFormat::Png));
+        }
         let mut out_frames = vec![];
         for frame in frames {
             out_frames.push(to_frame(
@@ -506,6 +513,11 @@ fn load_png(path: impl AsRef<Path>) -> Result<Image, ImageLoadError> {
     }
 }
 
+fn no_frames(path: &Path, format: image::ImageFormat) -> ImageLoadError {
+    let error = DecodingError::new(format.into(), "the image has no frames");
+    ImageLoadError::ImageParseError(path.display().to_string(), ImageError::Decoding(error))
+}
+
 fn to_frame<T: GenericImageView<Pixel = Rgba<u8>>>(delay: (u32, u32), frame: &T) -> Frame {
     let (width, height) = frame.dimensions();
 
-- 
2.43.0


From 3d330d8e5c37a389e2842c706b339bdc5c9d1057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:51 +0000
Subject: [PATCH 15/23] fix: print octal numbers so that they are read as octal

---
 src/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expression.rs b/src/expression.rs
index 9d5a678..a10bc22 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -414,7 +414,7 @@ impl fmt::Display for Expr {
                         write!(f, "${:04X}", num)
                     }
                 }
-                Radix::Octal => write!(f, "${:04o}", num),
+                Radix::Octal => write!(f, "0o{:04o}", num),
                 Radix::Binary => write!(f, "%{:08b}", num),
             },
             Expr::UpperByte(_, expr) => {
-- 
2.43.0


From 58dbc4b2ba7f4776a15190a273dfc2db5d6decd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:16 +0000
Subject: [PATCH 16/23] fix: give no .byte directive for an included file
 without bytes

---
 src/asm.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 6a62908..54fa972 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -152,10 +152,13 @@ fn replace_byte_includes(
                     for byte in bytes.iter() {
                         byte_vals.push(ByteValue::Expr(Expr::num(*byte as i32)));
                     }
-                    results.push(Statement::Directive(Directive::Byte(
-                        span.clone(),
-                        byte_vals,
-                    )));
+                    // There's no way to write a .byte directive without values.
+                    if !byte_vals.is_empty() {
+                        results.push(Statement::Directive(Directive::Byte(
+                            span.clone(),
+                            byte_vals,
+                        )));
+                    }
                 }
                 IncludeType::Icon(ref speed_opt, ref eyecatch_opt) => {
                     let speed = match speed_opt {
-- 
2.43.0


From bcc4bf70d6e53553f2524532f1f4f8012e0b0496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:16 +0000
Subject: [PATCH 17/23] fix: print the text of .text and .string in quotes

---
 src/ast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 2fd237f..fede346 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -374,10 +374,10 @@ impl fmt::Display for Directive {
                 write!(f, "")
             }
             Directive::Text(_, size, bytes) => {
-                write!(f, "  .text {} {}", size, escape_string(&bytes))
+                write!(f, "  .text {} \"{}\"", size, escape_string(&bytes))
             }
             Directive::String(_, size, bytes) => {
-                write!(f, "  .string {} {}", size, escape_string(&bytes))
+                write!(f, "  .string {} \"{}\"", size, escape_string(&bytes))
             }
             Directive::Org(_, num) => {
                 if *num == 0 {
-- 
2.43.0


From 2d6c4718b22711a4e162f845bda478ae1a60d407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:16 +0000
Subject: [PATCH 18/23] fix: print every line of a comment as a comment

---
 src/ast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index fede346..45b2d48 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -519,9 +519,9 @@ impl fmt::Display for Statement {
                     write!(f, "{}", comment)
                 } else if comment.starts_with("\n") {
                     writeln!(f, "")?;
-                    write!(f, "  ;; {}", &comment[1..comment.len()])
+                    write!(f, "  ;; {}", comment[1..].replace("\n", "\n  ;; "))
                 } else {
-                    write!(f, "  ;; {}", comment)
+                    write!(f, "  ;; {}", comment.replace("\n", "\n  ;; "))
                 }
             }
             Statement::MacroCall(_, name, args) => {
-- 
2.43.0


From d93f4047377bab201abbcf4ef581298b87d29ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:16 +0000
Subject: [PATCH 19/23] fix: escape strings the way the lexer reads them

---
 src/ast.rs | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 45b2d48..283d2a7 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -620,24 +620,12 @@ fn escape_string<'a>(bytes: &Vec<u8>) -> String {
         }
         let current = bytes[index];
         match current {
-            // \a
-            0x07 => {
-                escaped.push(0x5C);
-                escaped.push(0x61)
-            }
-
             // \b
             0x08 => {
                 escaped.push(0x5C);
                 escaped.push(0x62)
             }
 
-            // \f
-            0x0C => {
-                escaped.push(0x5C);
-                escaped.push(0x66)
-            }
-
             // \n
             0x0A => {
                 escaped.push(0x5C);
@@ -656,18 +644,17 @@ fn escape_string<'a>(bytes: &Vec<u8>) -> String {
                 escaped.push(0x74)
             }
 
-            // \v
-            0x0B => {
-                escaped.push(0x5C);
-                escaped.push(0x76)
-            }
-
             // \0
             0x00 => {
                 escaped.push(b'\\');
                 escaped.push(b'0');
             }
 
+            b'"' | b'\\' => {
+                escaped.push(b'\\');
+                escaped.push(current);
+            }
+
             _ => escaped.push(current),
         }
         index = index + 1;
-- 
2.43.0


From 1a353756dc81aa4b6080369de865a6d3da0ce666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:06 +0000
Subject: [PATCH 20/23] fix: advance past a token even if a combining character
 follows it

---
 src/input.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index 02505c0..ef2ea58 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -82,17 +82,14 @@ impl<'b> Input<'b> {
     }
 
     /// Update the position information by advancing the current
-    /// position by `num_bytes` bytes.
+    /// position by `num_bytes` bytes, or to the end of the text.
     pub fn update(&self, num_bytes: usize) -> Input<'b> {
         let mut input = self.clone();
-        let start = input.pos;
-        let mut graphemes = UnicodeSegmentation::graphemes(&input.text[input.pos..], true);
+        let end = usize::min(input.pos + num_bytes, input.text.len());
+        let mut graphemes = UnicodeSegmentation::graphemes(&input.text[input.pos..end], true);
         loop {
             match graphemes.next() {
                 Some(text) => {
-                    if (input.pos - start) + text.len() > num_bytes {
-                        break;
-                    }
                     input.pos += text.len();
                     if text == "\r\n" || text == "\n" {
                         input.line += 1;
-- 
2.43.0


From b074eb8b7cda3435085f0ce883bb4bbaf597a68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:09 +0000
Subject: [PATCH 21/23] fix: point at the unexpected character, not at the
 token before it

---
 src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 17d9edb..6e0033f 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -526,7 +526,7 @@ pub fn lex_for_ws<'a>(
         cinput = input;
     }
     if current.is_none() {
-        Err(LexerError::UnexpectedChar(cinput.location()))
+        Err(LexerError::UnexpectedChar(skip_ws(&cinput).location()))
     } else {
         results.push(Token::new(
             TokenType::EOF,
-- 
2.43.0


From fdf3870fe6b863ca81bf8afed20064cc6f554466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:36 +0000
Subject: [PATCH 22/23] fix: a line ends at the end of its file: a file of one
 line that is included twice in a row was read as one line, and its second
 copy was dropped

---
 src/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser.rs b/src/parser.rs
index 4c106f7..ff90465 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -55,6 +55,7 @@ impl<'a> Iterator for LineIterator<'a> {
             let start_file = self.tokens[start].span().end().file();
             let mut end = start + 1;
             while end < self.tokens.len()
+                && !self.tokens[end - 1].is_eof()
                 && start_line == self.tokens[end].span().start().line()
                 && start_file == self.tokens[end].span().start().file()
             {
-- 
2.43.0


From b4f863ec827c409ca98639fcf91ed6c60ad5c7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:03 +0000
Subject: [PATCH 23/23] fix: a file that includes itself, directly or through
 others, is an error instead of a stack overflow

---
 src/asm.rs | 29 ++++++++++++++++++++---------
 src/lib.rs | 10 ++++++++++
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 54fa972..539b254 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -17,7 +17,7 @@ use crate::parser;
 use crate::parser::{ParseError, Parser};
 use std;
 use std::collections::HashMap;
-use std::path::Path;
+use std::path::{Path, PathBuf};
 use uuid::Uuid;
 
 pub fn assemble_file(files: &mut SourceFiles, filename: &str) -> Result<Vec<u8>, AssemblyError> {
@@ -48,18 +48,25 @@ fn read_statements(
             let input = Input::new(file.id(), file.contents());
             lexer::lex_input(&input)?
         };
-        replace_includes(&filename, &parser, &mut files, &tokens)?
+        let mut including = vec![real_path(&filename)];
+        replace_includes(&filename, &parser, &mut files, &tokens, &mut including)?
     };
     let stmts = parser.parse(&tokens)?;
     let stmts = replace_byte_includes(&filename, &mut files, &stmts)?;
     Ok(stmts)
 }
 
+fn real_path(path: &Path) -> PathBuf {
+    std::fs::canonicalize(path).unwrap_or_else(|_| path.to_path_buf())
+}
+
 fn replace_includes(
     filename: &Path,
     parser: &Parser,
     files: &mut SourceFiles,
     tokens: &[Token],
+    // the files that are being included
+    including: &mut Vec<PathBuf>,
 ) -> Result<Vec<Token>, AssemblyError> {
     let mut results = vec![];
     for line in parser::lines(tokens) {
@@ -71,19 +78,22 @@ fn replace_includes(
                     .map(|path| path.to_string_lossy().to_string())
                     .unwrap_or(String::new());
                 match stmt.fixup_paths(files, Some(filename)) {
-                    Statement::Directive(Directive::Include(_span, typ, path)) => match typ {
+                    Statement::Directive(Directive::Include(span, typ, path)) => match typ {
                         IncludeType::Asm => {
                             let file = files.load(Some(filename), &path)?;
+                            let included = real_path(file.name());
+                            if including.contains(&included) {
+                                return Err(AssemblyError::RecursiveInclude(span, original_path));
+                            }
                             let new_tokens = {
                                 let input = Input::new(file.id(), file.contents());
                                 lexer::lex_input(&input)?
                             };
-                            let new_tokens = replace_includes(
-                                &file.name().to_owned(),
-                                parser,
-                                files,
-                                &new_tokens,
-                            )?;
+                            let name = file.name().to_owned();
+                            including.push(included);
+                            let new_tokens =
+                                replace_includes(&name, parser, files, &new_tokens, including)?;
+                            including.pop();
                             for token in new_tokens.iter() {
                                 results.push(token.clone());
                             }
@@ -457,6 +467,7 @@ pub enum AssemblyError {
     IndirectionModeNotAllowedHere(Span),
     NoSuchMacro(Span, String),
     RecursiveMacro(Span, String),
+    RecursiveInclude(Span, String),
     InvalidSpriteType(Span, String),
 }
 
diff --git a/src/lib.rs b/src/lib.rs
index c113717..2ee273b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -949,6 +949,16 @@ fn print_error(files: &SourceFiles, err: &AssemblyError, stderr: &mut ColorWrite
                 .newline();
             highlight_line(span, "", files, stderr);
         }
+        RecursiveInclude(span, path) => {
+            stderr
+                .write("File ")
+                .cyan()
+                .write(path)
+                .reset()
+                .writeln(" includes itself.")
+                .newline();
+            highlight_line(span, "", files, stderr);
+        }
         RecursiveMacro(span, name) => {
             stderr
                 .write("Macro ")
-- 
2.43.0

