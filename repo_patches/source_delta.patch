From ebf8ee1551e31db834d356f613366c2355d47fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:36 +0000
Subject: [PATCH 01/31] fix: symbolic subtraction, multiplication and division
 of expressions built a sum

---
 doctor-syn/src/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doctor-syn/src/expression.rs b/doctor-syn/src/expression.rs
index 32a8bc8..bfd70d6 100644
--- a/doctor-syn/src/expression.rs
+++ b/doctor-syn/src/expression.rs
@@ -206,7 +206,7 @@ macro_rules! make_op {
             } else {
                 let lhs = lhs.as_ref();
                 let rhs = rhs.as_ref();
-                let res : Expr = parse_quote!((#lhs) + (#rhs));
+                let res : Expr = parse_quote!((#lhs) $op (#rhs));
                 res.into()
             }
         }
-- 
2.43.0


From 230533fb4aef98d159cd6a6e24652074c8c530a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:36 +0000
Subject: [PATCH 02/31] fix: Expression::paren wrote a debug line to standard
 output

---
 doctor-syn/src/transformation/paren.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/doctor-syn/src/transformation/paren.rs b/doctor-syn/src/transformation/paren.rs
index 4d9ef23..9e7ccdc 100644
--- a/doctor-syn/src/transformation/paren.rs
+++ b/doctor-syn/src/transformation/paren.rs
@@ -26,7 +26,6 @@ impl Visitor for Paren {
                 make_binary(left, op, right)
             }
             Expr::Unary(ExprUnary { op, expr, .. }) => {
-                println!("HERE");
                 let expr = parenthesise_op(*expr.clone());
                 make_unary(op, expr)
             }
-- 
2.43.0


From 3cdfc54aaed122c6327052db4bb4ba13744a5b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:26 +0000
Subject: [PATCH 03/31] fix: expand lost grouping of non-sum operands, nested
 parentheses and inner negations

---
 doctor-syn/src/transformation/expand.rs | 21 +++++++++++++++++++--
 doctor-syn/src/transformation/tools.rs  |  2 +-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/doctor-syn/src/transformation/expand.rs b/doctor-syn/src/transformation/expand.rs
index ca441e5..ec97ef9 100644
--- a/doctor-syn/src/transformation/expand.rs
+++ b/doctor-syn/src/transformation/expand.rs
@@ -38,16 +38,30 @@ fn match_sum(expr: &Expr, sum: &mut Vec<Expr>, is_negated: bool) -> Result<()> {
             }
             _ => {}
         },
+        Expr::Unary(ExprUnary {
+            op: UnOp::Neg(_),
+            expr,
+            ..
+        }) => return match_sum(expr, sum, !is_negated),
         _ => {}
     }
+    let atom = make_atom(expr);
     if is_negated {
-        sum.push(negate(&expr));
+        sum.push(negate(&atom));
     } else {
-        sum.push(expr.clone());
+        sum.push(atom);
     }
     Ok(())
 }
 
+// Anything that binds less tightly than multiplication or negation keeps its parentheses.
+fn make_atom(expr: &Expr) -> Expr {
+    match expr {
+        Expr::Binary(_) | Expr::Cast(_) => make_paren(expr.clone()),
+        _ => expr.clone(),
+    }
+}
+
 impl Visitor for Expand {
     fn visit_unary(&self, exprunary: &ExprUnary) -> Result<Expr> {
         match exprunary.op {
@@ -64,6 +78,9 @@ impl Visitor for Expand {
     fn visit_binary(&self, exprbinary: &ExprBinary) -> Result<Expr> {
         let mut sum = Vec::new();
         let expr: Expr = exprbinary.clone().into();
+        if !matches!(exprbinary.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_)) {
+            return Ok(expr);
+        }
         match_sum(&expr, &mut sum, false)?;
         Ok(make_sum(&*sum))
     }
diff --git a/doctor-syn/src/transformation/tools.rs b/doctor-syn/src/transformation/tools.rs
index a24eb7c..0bfd010 100644
--- a/doctor-syn/src/transformation/tools.rs
+++ b/doctor-syn/src/transformation/tools.rs
@@ -22,7 +22,7 @@ pub fn negate(expr: &Expr) -> Expr {
 // Strip parentheses.
 pub fn deparen(expr: &Expr) -> &Expr {
     match expr {
-        Expr::Paren(ExprParen { expr, .. }) => &*expr,
+        Expr::Paren(ExprParen { expr, .. }) => deparen(expr),
         _ => expr,
     }
 }
-- 
2.43.0


From ada9182d04511f447f02fb1797dcf1bf552a038b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:11 +0000
Subject: [PATCH 04/31] fix: evaluating a division by zero panicked

---
 doctor-syn/src/transformation/eval.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/doctor-syn/src/transformation/eval.rs b/doctor-syn/src/transformation/eval.rs
index dd98933..6d7142b 100644
--- a/doctor-syn/src/transformation/eval.rs
+++ b/doctor-syn/src/transformation/eval.rs
@@ -182,6 +182,7 @@ impl Visitor for Eval {
                 BinOp::Mul(_) => {
                     Ok(Expression::from(round(left * right, self.num_digits as i64)).into())
                 }
+                BinOp::Div(_) if right.is_zero() => Err(eval_err(exprbinary.clone().into())),
                 BinOp::Div(_) => {
                     Ok(Expression::from(round(left / right, self.num_digits as i64)).into())
                 }
-- 
2.43.0


From 43a0f3bc9b47b8226fe07d942ade1e0ab959fd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:11 +0000
Subject: [PATCH 05/31] fix: the reciprocal of zero evaluated to zero

---
 doctor-syn/src/transformation/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doctor-syn/src/transformation/eval.rs b/doctor-syn/src/transformation/eval.rs
index 6d7142b..3441854 100644
--- a/doctor-syn/src/transformation/eval.rs
+++ b/doctor-syn/src/transformation/eval.rs
@@ -70,7 +70,7 @@ impl Visitor for Eval {
             //     .try_into()?
 
             //     .into()),
-            ("recip", x, 0) => Ok(Expression::from(x.inverse()).into()),
+            ("recip", x, 0) if !x.is_zero() => Ok(Expression::from(x.inverse()).into()),
 
             ("powi", x, 1) => {
                 Ok(Expression::from(pow(x, arg0(), self.num_digits).ok_or_else(errfn)?).into())
-- 
2.43.0


From 181c2e38cbfb7cf0865b291ea2eb9dd5d3aba19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:11 +0000
Subject: [PATCH 06/31] fix: a logarithm to base one panicked

---
 doctor-syn/src/bdmath.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/doctor-syn/src/bdmath.rs b/doctor-syn/src/bdmath.rs
index 05924e9..0fdf1fb 100644
--- a/doctor-syn/src/bdmath.rs
+++ b/doctor-syn/src/bdmath.rs
@@ -285,6 +285,9 @@ pub fn ln(mut x: BigDecimal, num_digits: i64) -> Option<BigDecimal> {
 
 pub fn log(x: BigDecimal, base: BigDecimal, num_digits: i64) -> Option<BigDecimal> {
     if let (Some(lnx), Some(lnbase)) = (ln(x, num_digits), ln(base, num_digits)) {
+        if lnbase.is_zero() {
+            return None;
+        }
         Some(lnx / lnbase)
     } else {
         None
-- 
2.43.0


From de65d62875e2b2f549c5a5e12d7e822ed06bbf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:11 +0000
Subject: [PATCH 07/31] fix: asin and acos outside [-1, 1] panicked

---
 doctor-syn/src/transformation/eval.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doctor-syn/src/transformation/eval.rs b/doctor-syn/src/transformation/eval.rs
index 3441854..153a02c 100644
--- a/doctor-syn/src/transformation/eval.rs
+++ b/doctor-syn/src/transformation/eval.rs
@@ -125,9 +125,9 @@ impl Visitor for Eval {
 
             ("tan", x, 0) => Ok(Expression::from(tan(x, self.num_digits)).into()),
 
-            ("asin", x, 0) => Ok(Expression::from(asin(x, self.num_digits)).into()),
+            ("asin", x, 0) if x.abs() <= one() => Ok(Expression::from(asin(x, self.num_digits)).into()),
 
-            ("acos", x, 0) => Ok(Expression::from(acos(x, self.num_digits)).into()),
+            ("acos", x, 0) if x.abs() <= one() => Ok(Expression::from(acos(x, self.num_digits)).into()),
 
             ("atan", x, 0) => Ok(Expression::from(atan(x, self.num_digits)).into()),
 
-- 
2.43.0


From efa871929e7f353fb21d790805e1eba292832a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:11 +0000
Subject: [PATCH 08/31] fix: dnorm, pnorm and qnorm panicked for a zero
 deviation or a probability of one

---
 doctor-syn/src/transformation/eval.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/doctor-syn/src/transformation/eval.rs b/doctor-syn/src/transformation/eval.rs
index 153a02c..4fa52c1 100644
--- a/doctor-syn/src/transformation/eval.rs
+++ b/doctor-syn/src/transformation/eval.rs
@@ -135,15 +135,15 @@ impl Visitor for Eval {
 
             ("erfc", x, 0) => Ok(Expression::from(erfc(x, self.num_digits)).into()),
 
-            ("dnorm", x, 2) => {
+            ("dnorm", x, 2) if arg1().is_positive() => {
                 Ok(Expression::from(dnorm(x, arg0(), arg1(), self.num_digits)).into())
             }
 
-            ("pnorm", x, 2) => {
+            ("pnorm", x, 2) if arg1().is_positive() => {
                 Ok(Expression::from(pnorm(x, arg0(), arg1(), self.num_digits)).into())
             }
 
-            ("qnorm", x, 2) => Ok(Expression::from(
+            ("qnorm", x, 2) if arg1().is_positive() && x < one() => Ok(Expression::from(
                 qnorm(x, arg0(), arg1(), self.num_digits).ok_or_else(errfn)?,
             )
             .into()),
-- 
2.43.0


From eb1bd6d5c03cf735b19e86c1b645473777df364c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:11 +0000
Subject: [PATCH 09/31] fix: tan panicked where the cosine rounds to zero

---
 doctor-syn/src/bdmath.rs              | 8 ++++++--
 doctor-syn/src/transformation/eval.rs | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/doctor-syn/src/bdmath.rs b/doctor-syn/src/bdmath.rs
index 0fdf1fb..169f6c3 100644
--- a/doctor-syn/src/bdmath.rs
+++ b/doctor-syn/src/bdmath.rs
@@ -181,8 +181,12 @@ pub fn exp(x: BigDecimal, num_digits: i64) -> BigDecimal {
     })
 }
 
-pub fn tan(x: BigDecimal, num_digits: i64) -> BigDecimal {
-    sin(x.clone(), num_digits) / cos(x, num_digits)
+pub fn tan(x: BigDecimal, num_digits: i64) -> Option<BigDecimal> {
+    let c = cos(x.clone(), num_digits);
+    if c.is_zero() {
+        return None;
+    }
+    Some(sin(x, num_digits) / c)
 }
 
 pub fn asin(x: BigDecimal, num_digits: i64) -> BigDecimal {
diff --git a/doctor-syn/src/transformation/eval.rs b/doctor-syn/src/transformation/eval.rs
index 4fa52c1..ec8c4c4 100644
--- a/doctor-syn/src/transformation/eval.rs
+++ b/doctor-syn/src/transformation/eval.rs
@@ -123,7 +123,9 @@ impl Visitor for Eval {
 
             ("cos", x, 0) => Ok(Expression::from(cos(x, self.num_digits)).into()),
 
-            ("tan", x, 0) => Ok(Expression::from(tan(x, self.num_digits)).into()),
+            ("tan", x, 0) => {
+                Ok(Expression::from(tan(x, self.num_digits).ok_or_else(errfn)?).into())
+            },
 
             ("asin", x, 0) if x.abs() <= one() => Ok(Expression::from(asin(x, self.num_digits)).into()),
 
-- 
2.43.0


From ad64fde30172135e2fe73ec570a1a3165b546851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:11 +0000
Subject: [PATCH 10/31] fix: approx panicked for fewer than two terms

---
 doctor-syn/src/transformation/approx.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/doctor-syn/src/transformation/approx.rs b/doctor-syn/src/transformation/approx.rs
index f229652..7079a18 100644
--- a/doctor-syn/src/transformation/approx.rs
+++ b/doctor-syn/src/transformation/approx.rs
@@ -77,6 +77,9 @@ pub fn approx(
     parity: Parity,
     num_digits: i64,
 ) -> Result<Expression> {
+    if num_terms < 2 {
+        return Err(Error::WrongNumberOfTerms(expr.span()));
+    }
     let xmin = bigdf(xmin);
     let xmax = bigdf(xmax);
 
-- 
2.43.0


From 4f29a319495eccfed1122ecc4acf7b5f16fa0f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:09 +0000
Subject: [PATCH 11/31] fix: evaluating a field access returned the unevaluated
 expression

---
 doctor-syn/src/transformation/eval.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/doctor-syn/src/transformation/eval.rs b/doctor-syn/src/transformation/eval.rs
index ec8c4c4..345d3fc 100644
--- a/doctor-syn/src/transformation/eval.rs
+++ b/doctor-syn/src/transformation/eval.rs
@@ -9,7 +9,7 @@ use crate::visitor::Visitor;
 use crate::Expression;
 
 use std::convert::TryInto;
-use syn::{BinOp, Expr, ExprBinary, ExprMethodCall, ExprParen, ExprPath, ExprUnary, UnOp};
+use syn::{BinOp, Expr, ExprBinary, ExprField, ExprMethodCall, ExprParen, ExprPath, ExprUnary, UnOp};
 
 use crate::bdmath::*;
 
@@ -216,6 +216,11 @@ impl Visitor for Eval {
         }
     }
 
+    /// eg. "x.y"
+    fn visit_field(&self, exprfield: &ExprField) -> Result<Expr> {
+        Err(eval_err(exprfield.clone().into()))
+    }
+
     // eg. "x" or "f64::const::PI"
     fn visit_path(&self, exprpath: &ExprPath) -> Result<Expr> {
         if let Some(name) = exprpath.path.get_ident() {
-- 
2.43.0


From 513ff84f894d93740611923273be8dd2785b1319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:21 +0000
Subject: [PATCH 12/31] fix: 64-bit hex literals were retyped as f32::from_bits

---
 doctor-syn/src/transformation/use_number_type.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doctor-syn/src/transformation/use_number_type.rs b/doctor-syn/src/transformation/use_number_type.rs
index ee59430..31ea71f 100644
--- a/doctor-syn/src/transformation/use_number_type.rs
+++ b/doctor-syn/src/transformation/use_number_type.rs
@@ -23,7 +23,7 @@ impl<'a> Visitor for UseNumberType<'a> {
                     ("decimal", 32) => parse_quote!(#float32),
                     ("decimal", 64) => parse_quote!(#float64),
                     ("hex", 32) => parse_quote!(f32::from_bits(#bits32)),
-                    ("hex", 64) => parse_quote!(f32::from_bits(#bits64)),
+                    ("hex", 64) => parse_quote!(f64::from_bits(#bits64)),
                     _ => expr.clone().into(),
                 };
                 Ok(e)
@@ -38,7 +38,7 @@ impl<'a> Visitor for UseNumberType<'a> {
                     ("decimal", 32) => parse_quote!(#float32),
                     ("decimal", 64) => parse_quote!(#float64),
                     ("hex", 32) => parse_quote!(f32::from_bits(#bits32)),
-                    ("hex", 64) => parse_quote!(f32::from_bits(#bits64)),
+                    ("hex", 64) => parse_quote!(f64::from_bits(#bits64)),
                     _ => expr.clone().into(),
                 };
                 Ok(e)
-- 
2.43.0


From 2cd88be30b1975a2d2c7f8427ac7bfcf284d4949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:53 +0000
Subject: [PATCH 13/31] fix: retyped literals were not the nearest float, and
 out-of-range ones panicked

---
 .../src/transformation/use_number_type.rs     | 27 ++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/doctor-syn/src/transformation/use_number_type.rs b/doctor-syn/src/transformation/use_number_type.rs
index 31ea71f..068309a 100644
--- a/doctor-syn/src/transformation/use_number_type.rs
+++ b/doctor-syn/src/transformation/use_number_type.rs
@@ -1,6 +1,5 @@
-use crate::error::Result;
+use crate::error::{Error, Result};
 use crate::visitor::Visitor;
-use bigdecimal::*;
 use syn::{parse_quote, Expr, ExprLit, Lit};
 
 #[derive(Debug)]
@@ -14,12 +13,14 @@ impl<'a> Visitor for UseNumberType<'a> {
     fn visit_lit(&self, expr: &ExprLit) -> Result<Expr> {
         match &expr.lit {
             Lit::Float(lit) => {
-                let bd: BigDecimal = lit.base10_digits().parse().unwrap();
-                let float32 = bd.to_f32().unwrap();
-                let float64 = bd.to_f64().unwrap();
-                let bits32 = bd.to_f32().unwrap().to_bits();
-                let bits64 = bd.to_f64().unwrap().to_bits();
+                // Parsing the digits gives the nearest float; BigDecimal's conversions round several times.
+                let float32: f32 = lit.base10_parse()?;
+                let float64: f64 = lit.base10_parse()?;
+                let bits32 = float32.to_bits();
+                let bits64 = float64.to_bits();
                 let e: Expr = match (self.number_type, self.num_bits) {
+                    ("decimal" | "hex", 32) if float32.is_infinite() => return Err(Error::Overflow),
+                    ("decimal" | "hex", 64) if float64.is_infinite() => return Err(Error::Overflow),
                     ("decimal", 32) => parse_quote!(#float32),
                     ("decimal", 64) => parse_quote!(#float64),
                     ("hex", 32) => parse_quote!(f32::from_bits(#bits32)),
@@ -29,12 +30,14 @@ impl<'a> Visitor for UseNumberType<'a> {
                 Ok(e)
             }
             Lit::Int(lit) => {
-                let bd: BigDecimal = lit.base10_digits().parse().unwrap();
-                let float32 = bd.to_f32().unwrap();
-                let float64 = bd.to_f64().unwrap();
-                let bits32 = bd.to_f32().unwrap().to_bits();
-                let bits64 = bd.to_f64().unwrap().to_bits();
+                // Parsing the digits gives the nearest float; BigDecimal's conversions round several times.
+                let float32: f32 = lit.base10_parse()?;
+                let float64: f64 = lit.base10_parse()?;
+                let bits32 = float32.to_bits();
+                let bits64 = float64.to_bits();
                 let e: Expr = match (self.number_type, self.num_bits) {
+                    ("decimal" | "hex", 32) if float32.is_infinite() => return Err(Error::Overflow),
+                    ("decimal" | "hex", 64) if float64.is_infinite() => return Err(Error::Overflow),
                     ("decimal", 32) => parse_quote!(#float32),
                     ("decimal", 64) => parse_quote!(#float64),
                     ("hex", 32) => parse_quote!(f32::from_bits(#bits32)),
-- 
2.43.0


From 7c4aa7dd6ea7a491912da0bd7e66a1f051bdf347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:35 +0000
Subject: [PATCH 14/31] fix: formatting panicked for braces nested more than 29
 deep

---
 doctor-syn/src/codegen/rust.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/doctor-syn/src/codegen/rust.rs b/doctor-syn/src/codegen/rust.rs
index 261d6e6..c1382b1 100644
--- a/doctor-syn/src/codegen/rust.rs
+++ b/doctor-syn/src/codegen/rust.rs
@@ -1,8 +1,7 @@
 use proc_macro2::{Delimiter, TokenStream, TokenTree};
 
-fn indent(depth: usize) -> &'static str {
-    let i = "                                                            ";
-    &i[0..depth * 2]
+fn indent(depth: usize) -> String {
+    "  ".repeat(depth)
 }
 
 fn append_token(text: &mut String, tt: &TokenTree, depth: usize) {
-- 
2.43.0


From 18d61c4d3d5d2bc7eddd4085903c44fbec00d37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:35 +0000
Subject: [PATCH 15/31] fix: formatted Rust merged tokens (`3 as`, `< -`, `/
 *`) into other tokens

---
 doctor-syn/src/codegen/rust.rs | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/doctor-syn/src/codegen/rust.rs b/doctor-syn/src/codegen/rust.rs
index c1382b1..778965d 100644
--- a/doctor-syn/src/codegen/rust.rs
+++ b/doctor-syn/src/codegen/rust.rs
@@ -1,9 +1,32 @@
-use proc_macro2::{Delimiter, TokenStream, TokenTree};
+use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
 
 fn indent(depth: usize) -> String {
     "  ".repeat(depth)
 }
 
+/// True if two adjacent tokens would be read as something else with nothing between them.
+/// (Identifiers are always followed by a space.)
+fn needs_space(prev: &TokenTree, next: &TokenTree) -> bool {
+    match (prev, next) {
+        (TokenTree::Group(g), _) | (_, TokenTree::Group(g)) => g.delimiter() == Delimiter::None,
+        (TokenTree::Literal(_), TokenTree::Punct(p)) => p.as_char() == '.',
+        (TokenTree::Literal(_), _) => true,
+        (TokenTree::Punct(p), TokenTree::Punct(_)) => p.spacing() == Spacing::Alone,
+        _ => false,
+    }
+}
+
+fn append_tokens(text: &mut String, tokens: TokenStream, depth: usize) {
+    let mut prev: Option<TokenTree> = None;
+    for tt in tokens {
+        if matches!(&prev, Some(prev) if needs_space(prev, &tt)) {
+            text.push(' ');
+        }
+        append_token(text, &tt, depth);
+        prev = Some(tt);
+    }
+}
+
 fn append_token(text: &mut String, tt: &TokenTree, depth: usize) {
     if let TokenTree::Group(g) = &tt {
         match g.delimiter() {
@@ -13,9 +36,7 @@ fn append_token(text: &mut String, tt: &TokenTree, depth: usize) {
             Delimiter::Brace => {
                 text.extend("{\n".chars());
                 text.extend(indent(depth + 1).chars());
-                for tt in g.stream() {
-                    append_token(text, &tt, depth + 1);
-                }
+                append_tokens(text, g.stream(), depth + 1);
                 text.extend("\n".chars());
                 text.extend(indent(depth).chars());
                 text.extend("}".chars());
@@ -64,8 +85,6 @@ fn append_token(text: &mut String, tt: &TokenTree, depth: usize) {
 /// Pretty (ish) print a token stream.
 pub fn format_token_stream(tokens: TokenStream) -> String {
     let mut text = String::new();
-    for tt in tokens {
-        append_token(&mut text, &tt, 0);
-    }
+    append_tokens(&mut text, tokens, 0);
     text
 }
-- 
2.43.0


From b6424845ddf483f08667ec1cee84c9064b3a1e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:01 +0000
Subject: [PATCH 16/31] fix: generated C regrouped operators that bind
 differently in C

---
 doctor-syn/src/codegen/c.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index b36b0e7..08dbd14 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -39,6 +39,17 @@ impl CVisitor {
         self.stack.pop().unwrap()
     }
 
+    // An operand of an operator. Rust and C do not agree on operator precedence,
+    // so anything that is not a primary expression goes into parentheses.
+    fn operand(&mut self, node: &Expr) -> String {
+        self.visit_expr(node);
+        let expr = self.tos();
+        match node {
+            Expr::Binary(_) | Expr::Unary(_) | Expr::Cast(_) | Expr::Assign(_) | Expr::AssignOp(_) => format!("({})", expr),
+            _ => expr,
+        }
+    }
+
     fn push<S: Into<String>>(&mut self, s: S) {
         self.stack.push(s.into());
         // eprintln!("  push {:?}", self.stack);
@@ -321,12 +332,10 @@ impl<'ast> Visit<'ast> for CVisitor {
         // for it in &node.attrs {
         //     self.visit_attribute(it);
         // }
-        self.visit_expr(&*node.left);
-        let lhs = self.tos();
+        let lhs = self.operand(&node.left);
         self.visit_bin_op(&node.op);
         let op = self.tos();
-        self.visit_expr(&*node.right);
-        let rhs = self.tos();
+        let rhs = self.operand(&node.right);
         ret!(self, "{} {} {}", lhs, op, rhs);
     }
 
@@ -382,8 +391,7 @@ impl<'ast> Visit<'ast> for CVisitor {
         self.log("visit_expr_cast");
         // self.push("<<expr_cast>>".to_string());
         // visit_expr_cast(self, node);
-        self.visit_expr(&*node.expr);
-        let expr = self.tos();
+        let expr = self.operand(&node.expr);
         // tokens_helper(v, &node.as_token.span);
         self.visit_type(&*node.ty);
         let ty = self.tos();
@@ -430,7 +438,7 @@ impl<'ast> Visit<'ast> for CVisitor {
         if let Some(it) = &node.else_branch {
             self.visit_expr(&*(it).1);
             let f = self.tos();
-            ret!(self, "({}) ? ({}) : ({})", cond, t, f);
+            ret!(self, "(({}) ? ({}) : ({}))", cond, t, f);
         } else {
             ret!(self, "<<if requires an else>>")
         };
@@ -582,8 +590,7 @@ impl<'ast> Visit<'ast> for CVisitor {
         self.log("visit_expr_unary");
         self.visit_un_op(&node.op);
         let op = self.tos();
-        self.visit_expr(&*node.expr);
-        let expr = self.tos();
+        let expr = self.operand(&node.expr);
         ret!(self, "{}{}", op, expr);
     }
 
-- 
2.43.0


From 94993b51dcdddd87cd1fa315dee9c36dbf81b843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:01 +0000
Subject: [PATCH 17/31] fix: generated C lost the types of literals

---
 doctor-syn/src/codegen/c.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 08dbd14..7f549f2 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -942,20 +942,27 @@ impl<'ast> Visit<'ast> for CVisitor {
     }
     fn visit_lit_float(&mut self, node: &'ast LitFloat) {
         self.log("visit_lit_float");
-        let suffix = node.suffix();
-        match suffix {
-            _ => ret!(self, "{}", node.base10_digits())
-        }
+        let suffix = if node.suffix() == "f32" { "f" } else { "" };
+        let digits = node.base10_digits();
+        // Without a point or an exponent this would be an integer in C.
+        let point = if digits.contains(|c| matches!(c, '.' | 'e' | 'E')) { "" } else { ".0" };
+        ret!(self, "{}{}{}", digits, point, suffix);
     }
 
     fn visit_lit_int(&mut self, node: &'ast LitInt) {
         self.log("visit_lit_int");
         // self.push("<<lit_int>>".to_string());
         // visit_lit_int(self, node);
-        let suffix = node.suffix();
-        match suffix {
-            _ => ret!(self, "{}", node.base10_digits())
-        }
+        let suffix = match node.suffix() {
+            "u32" => "u",
+            "u64" => "ull",
+            "i64" => "ll",
+            // `1f32` is an integer literal with a suffix to syn.
+            "f32" => ".0f",
+            "f64" => ".0",
+            _ => "",
+        };
+        ret!(self, "{}{}", node.base10_digits(), suffix);
     }
     fn visit_lit_str(&mut self, node: &'ast LitStr) {
         self.log("visit_lit_str");
-- 
2.43.0


From 7b3e42e609114bff8d3032a025a50e1f57004a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:25 +0000
Subject: [PATCH 18/31] fix: generated C called integer abs, single-precision
 powf and undefined to_bits

---
 doctor-syn/src/codegen/c.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 7f549f2..47abd46 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -377,8 +377,13 @@ impl<'ast> Visit<'ast> for CVisitor {
         let args = args.join(", ");
 
         self.push(match expr.as_str() {
-            "fty_from_bits" => {
-                format!("({{ union {{ fty f; uty u; }} u; u.u = ({}); u.f; }})", args)
+            "fty_from_bits" | "f32_from_bits" | "f64_from_bits" => {
+                let (uty, fty) = match expr.as_str() {
+                    "f32_from_bits" => ("unsigned int", "float"),
+                    "f64_from_bits" => ("unsigned long long", "double"),
+                    _ => ("uty", "fty"),
+                };
+                format!("((union {{ {} u; {} f; }}){{ ({}) }}).f", uty, fty, args)
             }
             _ => {
                 format!("{}{}({})", self.options.prefix, expr, args)
@@ -506,6 +511,10 @@ impl<'ast> Visit<'ast> for CVisitor {
 
         self.push(match ident.as_str() {
             "round" => format!("{}{}({})", ident, self.options.float_suffix, args.join(", ")),
+            // The C library names these differently.
+            "abs" => format!("fabs{}({})", self.options.float_suffix, args.join(", ")),
+            "powf" => format!("pow{}({})", self.options.float_suffix, args.join(", ")),
+            "to_bits" => format!("((union {{ fty f; uty u; }}){{ ({}) }}).u", args.join(", ")),
             "mul_add" => format!("(({}\n) * ({}) + ({}))", args[0], args[1], args[2]),
             _ => format!("{}({})", ident, args.join(", ")),
         })
-- 
2.43.0


From 4cbb6a30a6dd41530f4ff3fdccee52d69ee64f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:25 +0000
Subject: [PATCH 19/31] fix: generated C turned untyped lets into assignments
 and misread shadowing lets

---
 doctor-syn/src/codegen/c.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 47abd46..61e82e6 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -988,11 +988,17 @@ impl<'ast> Visit<'ast> for CVisitor {
         // tokens_helper(v, &node.let_token.span);
 
         self.visit_pat(&node.pat);
-        let pat = self.tos();
+        let mut pat = self.tos();
+        if let Pat::Ident(_) = &node.pat {
+            pat = format!("__auto_type {}", pat);
+        }
         if let Some(it) = &node.init {
             self.visit_expr(&*(it).1);
             let expr = self.tos();
-            ret!(self, "{} = {}", pat, expr);
+            // In C the new variable is already in scope in its own initializer,
+            // so evaluate the initializer before declaring the variable.
+            let name = pat.rsplit(' ').next().unwrap();
+            ret!(self, "__auto_type {}__init = {};\n{} = {}__init", name, expr, pat, name);
         } else {
             ret!(self, "{}", pat);
         }
-- 
2.43.0


From 54e2c5bdfa95ddb67feffa45e12344b9dae235e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:25 +0000
Subject: [PATCH 20/31] fix: generated C spliced arrays into comma expressions

---
 doctor-syn/src/codegen/c.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 61e82e6..93ab0c6 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -288,7 +288,7 @@ impl<'ast> Visit<'ast> for CVisitor {
             self.visit_expr(it);
             elems.push(self.tos());
         }
-        ret!(self, "{}", elems.join(", "));
+        ret!(self, "{{ {} }}", elems.join(", "));
     }
 
     fn visit_expr_assign(&mut self, node: &'ast ExprAssign) {
-- 
2.43.0


From b2dca541fbfd42bc04ae8cde350d7eecb6f16ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:13 +0000
Subject: [PATCH 21/31] fix: ONE_MASK and ONE_BITS are integers, not floats

---
 libmgen/src/auxfuncs.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmgen/src/auxfuncs.rs b/libmgen/src/auxfuncs.rs
index 551f127..640d3a6 100644
--- a/libmgen/src/auxfuncs.rs
+++ b/libmgen/src/auxfuncs.rs
@@ -49,12 +49,12 @@ pub fn gen_INF(_terms: usize, config: &Config) -> TokenStream {
 pub fn gen_ONE_BITS(_terms: usize, config: &Config) -> TokenStream {
     if config.num_bits() == 32 {
         quote!(
-            const ONE_BITS: fty = 0x3f800000_u32;
+            const ONE_BITS: uty = 0x3f800000_u32;
         )
     
     } else {
         quote!(
-            const ONE_BITS: fty = 0x3ff0000000000000_u64;
+            const ONE_BITS: uty = 0x3ff0000000000000_u64;
         )
     }
 }
@@ -63,12 +63,12 @@ pub fn gen_ONE_BITS(_terms: usize, config: &Config) -> TokenStream {
 pub fn gen_ONE_MASK(_terms: usize, config: &Config) -> TokenStream {
     if config.num_bits() == 32 {
         quote!(
-            const ONE_MASK: fty = 0x007fffff_u32;
+            const ONE_MASK: uty = 0x007fffff_u32;
         )
     
     } else {
         quote!(
-            const ONE_MASK: fty = 0x000fffffffffffff_u64;
+            const ONE_MASK: uty = 0x000fffffffffffff_u64;
         )
     }
 }
-- 
2.43.0


From cb08469f1ef8839b29bff4cdc6436e18d9404b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:30 +0000
Subject: [PATCH 22/31] fix: every generated item lists the items its code uses

---
 libmgen/src/functions.rs | 90 ++++++++++++++++++++--------------------
 1 file changed, 45 insertions(+), 45 deletions(-)

diff --git a/libmgen/src/functions.rs b/libmgen/src/functions.rs
index 0d5d848..9de5154 100644
--- a/libmgen/src/functions.rs
+++ b/libmgen/src/functions.rs
@@ -94,189 +94,189 @@ pub static FUNCTIONS: &[Function] = &[
     // },
     Function {
         name: "LOG2_SHIFT",
-        deps: &[],
+        deps: &["ity"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_LOG2_SHIFT),
         test_specs: &[],
     },
     Function {
         name: "LOG2_OFFSET",
-        deps: &[],
+        deps: &["ity"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_LOG2_OFFSET),
         test_specs: &[],
     },
     Function {
         name: "NAN",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_NAN),
         test_specs: &[],
     },
     Function {
         name: "INFINITY",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_INF),
         test_specs: &[],
     },
     Function {
         name: "MIN_POSITIVE",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_MIN_POSITIVE),
         test_specs: &[],
     },
     Function {
         name: "ONE_MASK",
-        deps: &[],
+        deps: &["uty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_ONE_MASK),
         test_specs: &[],
     },
     Function {
         name: "ONE_BITS",
-        deps: &[],
+        deps: &["uty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_ONE_BITS),
         test_specs: &[],
     },
     Function {
         name: "EXP2_ONE",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_EXP2_ONE),
         test_specs: &[],
     },
     Function {
         name: "EXP2_SCALE",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_EXP2_SCALE),
         test_specs: &[],
     },
     Function {
         name: "EXP2_MIN",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_EXP2_MIN),
         test_specs: &[],
     },
     Function {
         name: "EXP2_MAX",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_EXP2_MAX),
         test_specs: &[],
     },
     Function {
         name: "ONE_THIRD",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_ONE_THIRD),
         test_specs: &[],
     },
     Function {
         name: "TWO_THIRDS",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_TWO_THIRDS),
         test_specs: &[],
     },
     Function {
         name: "PI",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_PI),
         test_specs: &[],
     },
     Function {
         name: "PI_BY_2",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_PI_BY_2),
         test_specs: &[],
     },
     Function {
         name: "TAN_PI_BY_8",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_TAN_PI_BY_8),
         test_specs: &[],
     },
     Function {
         name: "PI_BY_8",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_PI_BY_8),
         test_specs: &[],
     },
     Function {
         name: "LOG2_E",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_LOG2_E),
         test_specs: &[],
     },
     Function {
         name: "RECIP_LOG2_E",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_RECIP_LOG2_E),
         test_specs: &[],
     },
     Function {
         name: "RECIP_LOG2_10",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_RECIP_LOG2_10),
         test_specs: &[],
     },
     Function {
         name: "RECIP_PI",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_RECIP_PI),
         test_specs: &[],
     },
     Function {
         name: "RECIP_2PI",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_RECIP_2PI),
         test_specs: &[],
     },
     Function {
         name: "SQRT_RECIP_2PI",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_SQRT_RECIP_2PI),
         test_specs: &[],
     },
     Function {
         name: "negate_on_odd",
-        deps: &["fty"],
+        deps: &["fty", "uty", "ity"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_negate_on_odd),
         test_specs: &[],
     },
     Function {
         name: "recip_approx",
-        deps: &["fty"],
+        deps: &["fty", "uty", "EXP2_ONE"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_recip_approx),
         test_specs: &[],
     },
     Function {
         name: "sqrt_approx",
-        deps: &["fty", "uty"],
+        deps: &["fty", "uty", "EXP2_ONE"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_sqrt_approx),
         test_specs: &[],
     },
     Function {
         name: "cbrt_approx",
-        deps: &["fty"],
+        deps: &["fty", "uty", "EXP2_ONE"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_cbrt_approx),
         test_specs: &[],
@@ -295,21 +295,21 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "sinh",
-        deps: &["fty"],
+        deps: &["fty", "LOG2_E", "exp2"],
         num_terms: [16, 24],
         gen: Some(crate::hyperbolic::gen_sinh),
         test_specs: &[],
     },
     Function {
         name: "cosh",
-        deps: &["fty"],
+        deps: &["fty", "LOG2_E", "exp2"],
         num_terms: [16, 24],
         gen: Some(crate::hyperbolic::gen_cosh),
         test_specs: &[],
     },
     Function {
         name: "tanh",
-        deps: &["fty"],
+        deps: &["fty", "LOG2_E", "exp2"],
         num_terms: [16, 24],
         gen: Some(crate::hyperbolic::gen_tanh),
         test_specs: &[],
@@ -377,21 +377,21 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "atan",
-        deps: &["fty"],
+        deps: &["fty", "PI_BY_2"],
         num_terms: [16, 36],
         gen: Some(crate::inv_trig::gen_atan),
         test_specs: &[],
     },
     Function {
         name: "atan2",
-        deps: &["fty", "PI_BY_8", "PI_BY_2", "TAN_PI_BY_8"],
+        deps: &["fty", "PI_BY_8", "PI_BY_2", "TAN_PI_BY_8", "PI"],
         num_terms: [16, 36],
         gen: Some(crate::inv_trig::gen_atan2),
         test_specs: &[],
     },
     Function {
         name: "exp2",
-        deps: &["fty", "ity", "uty", "EXP2_SCALE", "EXP2_ONE", "EXP2_MIN", "EXP2_MAX"],
+        deps: &["fty", "uty", "EXP2_SCALE", "EXP2_ONE", "EXP2_MIN", "EXP2_MAX", "round", "INFINITY"],
         num_terms: [8, 12],
         gen: Some(crate::log_exp::gen_exp2),
         test_specs: &[
@@ -437,7 +437,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "exp_m1",
-        deps: &["fty", "exp2"],
+        deps: &["fty", "uty", "round", "EXP2_ONE", "EXP2_SCALE", "LOG2_E"],
         num_terms: [8, 12],
         gen: Some(crate::log_exp::gen_exp_m1),
         test_specs: &[
@@ -457,7 +457,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "log2",
-        deps: &["fty", "LOG2_SHIFT", "LOG2_OFFSET", "ONE_MASK", "ONE_BITS", "MIN_POSITIVE", "NAN", "INFINITY"],
+        deps: &["fty", "LOG2_SHIFT", "LOG2_OFFSET", "ONE_MASK", "ONE_BITS", "MIN_POSITIVE", "NAN", "INFINITY", "uty", "ity"],
         num_terms: [10, 20],
         gen: Some(crate::log_exp::gen_log2),
         test_specs: &[
@@ -477,7 +477,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "ln_1p",
-        deps: &["fty", "RECIP_LOG2_E"],
+        deps: &["fty"],
         num_terms: [16, 24],
         gen: Some(crate::log_exp::gen_ln_1p),
         test_specs: &[
@@ -491,7 +491,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "ln",
-        deps: &["log2", "RECIP_LOG2_E"],
+        deps: &["log2", "RECIP_LOG2_E", "fty"],
         num_terms: [16, 24],
         gen: Some(crate::log_exp::gen_ln),
         test_specs: &[
@@ -511,7 +511,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "log10",
-        deps: &["log2", "RECIP_LOG2_10"],
+        deps: &["log2", "RECIP_LOG2_10", "fty"],
         num_terms: [16, 24],
         gen: Some(crate::log_exp::gen_log10),
         test_specs: &[
@@ -558,7 +558,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "powi",
-        deps: &["fty", "log2", "exp2"],
+        deps: &["fty", "ity", "powf"],
         num_terms: [16, 24],
         gen: Some(crate::log_exp::gen_powi),
         test_specs: &[],
@@ -572,7 +572,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "cbrt",
-        deps: &["fty", "ONE_THIRD", "TWO_THIRDS"],
+        deps: &["fty", "uty", "EXP2_ONE", "ONE_THIRD", "TWO_THIRDS"],
         num_terms: [16, 24],
         gen: Some(crate::recip_sqrt::gen_cbrt),
         test_specs: &[],
@@ -586,14 +586,14 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "hypot",
-        deps: &["fty"],
+        deps: &["fty", "MIN_POSITIVE"],
         num_terms: [16, 24],
         gen: Some(crate::recip_sqrt::gen_hypot),
         test_specs: &[],
     },
     Function {
         name: "runif",
-        deps: &["fty"],
+        deps: &["fty", "uty", "ONE_BITS"],
         num_terms: [0, 0],
         gen: Some(crate::stats_random::gen_runif),
         test_specs: &[
@@ -607,7 +607,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "dnorm",
-        deps: &["fty", "LOG2_E", "SQRT_RECIP_2PI", "recip", "exp2"],
+        deps: &["fty", "LOG2_E", "SQRT_RECIP_2PI", "exp2"],
         num_terms: [16, 24],
         gen: Some(crate::stats_norm::gen_dnorm),
         test_specs: &[
@@ -628,7 +628,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "qnorm",
-        deps: &["fty", "sqrt", "log2"],
+        deps: &["fty"],
         num_terms: [16, 32],
         gen: Some(crate::stats_norm::gen_qnorm),
         test_specs: &[
@@ -726,7 +726,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "tan",
-        deps: &["fty", "RECIP_PI"],
+        deps: &["fty", "RECIP_PI", "round"],
         num_terms: [12, 24],
         gen: Some(crate::trig::gen_tan),
         test_specs: &[
-- 
2.43.0


From e7ab90a5fe96315afded2e01fb52f75537add7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:30 +0000
Subject: [PATCH 23/31] fix: excluded names are not announced inside the
 generated code

---
 libmgen/src/functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmgen/src/functions.rs b/libmgen/src/functions.rs
index 9de5154..579eb9e 100644
--- a/libmgen/src/functions.rs
+++ b/libmgen/src/functions.rs
@@ -28,7 +28,7 @@ pub fn get_functions_and_deps<'a>(names: &'a Vec<String>, exclude: &'a Vec<Strin
     while !stack.is_empty() {
         let name = stack.pop().unwrap();
         if exclude.contains(&name) {
-            println!("ignoring {}", name);
+            eprintln!("ignoring {}", name);
             continue;
         }
         if let Some(f) = FUNCTIONS.iter()
-- 
2.43.0


From 999ef5fab007f68cc0951627eaf09e9a514cabce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:30 +0000
Subject: [PATCH 24/31] fix: runif mixes 64 bits at either width

---
 libmgen/src/stats_random.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmgen/src/stats_random.rs b/libmgen/src/stats_random.rs
index 815c695..4160bd6 100644
--- a/libmgen/src/stats_random.rs
+++ b/libmgen/src/stats_random.rs
@@ -7,10 +7,10 @@ pub fn gen_runif(num_terms: usize, config: &Config) -> TokenStream {
         /// See https://xorshift.di.unimi.it/splitmix64.c
         /// Returns half-close range 0-1
         pub fn runif(index: usize, min: fty, max: fty) -> fty {
-            let z : uty = (index as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15);
-            let z1 : uty = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
-            let z2 : uty = (z1 ^ (z1 >> 27)).wrapping_mul(0x94d049bb133111eb);
-            let z3 : uty = z2 ^ (z2 >> 31);
+            let z : u64 = (index as u64).wrapping_add(1).wrapping_mul(0x9e3779b97f4a7c15);
+            let z1 : u64 = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
+            let z2 : u64 = (z1 ^ (z1 >> 27)).wrapping_mul(0x94d049bb133111eb);
+            let z3 : u64 = z2 ^ (z2 >> 31);
             let x : fty = fty::from_bits((z3 as uty >> 2) | ONE_BITS) - 1.0;
             (x * (max - min)) + min
         }
-- 
2.43.0


From 89412a1811ce92952de54841db655256b1a6a206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:09 +0000
Subject: [PATCH 25/31] fix: round of large values, NaN and the neighbours of
 one half

---
 libmgen/src/auxfuncs.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libmgen/src/auxfuncs.rs b/libmgen/src/auxfuncs.rs
index 640d3a6..6d44ea4 100644
--- a/libmgen/src/auxfuncs.rs
+++ b/libmgen/src/auxfuncs.rs
@@ -321,10 +321,18 @@ pub fn _gen_negate_on_odd_test(_config: &Config) -> TokenStream {
 // In practice on sse4+ vrndscalepd $3 is much better
 // but hard to get from many compilers.
 pub fn gen_round(_terms: usize, config: &Config) -> TokenStream {
+    // The largest value below one half: adding one half itself would round up its neighbour.
+    // Values of at least limit have no fraction and may not fit into an integer.
+    let (half, limit) = if config.num_bits() == 32 {
+        (quote!(0.49999997), quote!(8388608.0))
+    } else {
+        (quote!(0.49999999999999994), quote!(4503599627370496.0))
+    };
     quote!(
         fn round(x: fty) -> fty {
-            let half = (0.5) as fty;
-            (x + half.copysign(x)) as ity as fty
+            let half = (#half) as fty;
+            let y : fty = (x + half.copysign(x)) as ity as fty;
+            if x.abs() < #limit { y } else { x }
         }
     )
 }
-- 
2.43.0


From 3bddf547371de84c70d7891d9de3a7f96bbaeb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:09 +0000
Subject: [PATCH 26/31] fix: negate_on_odd took large values for odd

---
 libmgen/src/auxfuncs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmgen/src/auxfuncs.rs b/libmgen/src/auxfuncs.rs
index 6d44ea4..bd89158 100644
--- a/libmgen/src/auxfuncs.rs
+++ b/libmgen/src/auxfuncs.rs
@@ -295,7 +295,8 @@ pub fn gen_negate_on_odd(_terms: usize, config: &Config) -> TokenStream {
     quote!(
         // If x is odd, negate y.
         pub fn negate_on_odd(x: fty, y: fty) -> fty {
-            let sign_bit : uty = (((x as ity) & 1) << #shift) as uty;
+            // Negative: a large negative value saturates to an even integer.
+            let sign_bit : uty = (((-x.abs()) as ity & 1) << #shift) as uty;
             fty::from_bits(sign_bit ^ y.to_bits())
         }
     )
-- 
2.43.0


From 86fb32e489cca1d8958dea7313c865c865d5b04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:09 +0000
Subject: [PATCH 27/31] fix: nextafter of negative values, infinities and NaN

---
 libmgen/src/auxfuncs.rs  | 9 ++++++++-
 libmgen/src/functions.rs | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/libmgen/src/auxfuncs.rs b/libmgen/src/auxfuncs.rs
index bd89158..1528500 100644
--- a/libmgen/src/auxfuncs.rs
+++ b/libmgen/src/auxfuncs.rs
@@ -415,7 +415,14 @@ pub fn gen_iabs(_terms: usize, _config: &Config) -> TokenStream {
 pub fn gen_nextafter(_terms: usize, _config: &Config) -> TokenStream {
     quote!(
         pub fn nextafter(arg: fty) -> fty {
-            fty::from_bits(arg.to_bits() + 1)
+            // Adding zero makes -0.0 positive.
+            let x : fty = arg + 0.0;
+            let bits : uty = x.to_bits();
+            if x < 0.0 {
+                fty::from_bits(bits - 1)
+            } else {
+                if x < INFINITY { fty::from_bits(bits + 1) } else { x }
+            }
         }
     )
 }
diff --git a/libmgen/src/functions.rs b/libmgen/src/functions.rs
index 579eb9e..bf91a92 100644
--- a/libmgen/src/functions.rs
+++ b/libmgen/src/functions.rs
@@ -283,7 +283,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "nextafter",
-        deps: &["fty"],
+        deps: &["fty", "uty", "INFINITY"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_nextafter),
         test_specs: &[TestSpec {
-- 
2.43.0


From 590a0b72596e92912b69a1b0d0af5126efe16477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:49 +0000
Subject: [PATCH 28/31] fix: log2 of NaN and infinity

---
 libmgen/src/log_exp.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libmgen/src/log_exp.rs b/libmgen/src/log_exp.rs
index 4476b5a..409d356 100644
--- a/libmgen/src/log_exp.rs
+++ b/libmgen/src/log_exp.rs
@@ -141,7 +141,11 @@ pub fn gen_log2(num_terms: usize, config: &Config) -> TokenStream {
             if arg < 0.0 {
                 -NAN
             } else {
-                if arg < MIN_POSITIVE { -INFINITY } else { y + (exponent as fty) }
+                if arg < MIN_POSITIVE {
+                    -INFINITY
+                } else {
+                    if arg < INFINITY { y + (exponent as fty) } else { arg }
+                }
             }
         }
     )
-- 
2.43.0


From 4a19633ddb2242beec26344843559654cf13a3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:49 +0000
Subject: [PATCH 29/31] fix: ln_1p used the host's logarithm, not the library's
 own

---
 libmgen/src/functions.rs | 2 +-
 libmgen/src/log_exp.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmgen/src/functions.rs b/libmgen/src/functions.rs
index bf91a92..96517a0 100644
--- a/libmgen/src/functions.rs
+++ b/libmgen/src/functions.rs
@@ -477,7 +477,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "ln_1p",
-        deps: &["fty"],
+        deps: &["ln", "fty"],
         num_terms: [16, 24],
         gen: Some(crate::log_exp::gen_ln_1p),
         test_specs: &[
diff --git a/libmgen/src/log_exp.rs b/libmgen/src/log_exp.rs
index 409d356..2239417 100644
--- a/libmgen/src/log_exp.rs
+++ b/libmgen/src/log_exp.rs
@@ -98,7 +98,7 @@ pub fn gen_ln_1p(num_terms: usize, config: &Config) -> TokenStream {
 
     quote!(
         pub fn ln_1p(arg: fty) -> fty {
-            (1.0 + arg).ln()
+            ln(1.0 + arg)
             // let arg_bits : uty = (arg+1.0).to_bits();
             // let exponent : ity = (arg_bits as ity >> #eshift) - (#eoffset) as ity;
             // let x1 : fty = fty::from_bits((arg_bits & (#escale-1) as uty) | (#one) as uty) - (1.5) as fty;
-- 
2.43.0


From c8413cdd879459979dc0f3e6b13c98503ca6cc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:49 +0000
Subject: [PATCH 30/31] fix: tanh of large numbers was NaN

---
 libmgen/src/hyperbolic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmgen/src/hyperbolic.rs b/libmgen/src/hyperbolic.rs
index 498f0f1..6618b18 100644
--- a/libmgen/src/hyperbolic.rs
+++ b/libmgen/src/hyperbolic.rs
@@ -29,7 +29,7 @@ pub fn gen_tanh(_num_terms: usize, _config: &Config) -> TokenStream {
     quote!(
         pub fn tanh(x: fty) -> fty {
             let exp2x: fty = exp2(x * (LOG2_E * 2.0));
-            (exp2x - 1.0) / (exp2x + 1.0)
+            1.0 - 2.0 / (exp2x + 1.0)
         }
     )
 }
-- 
2.43.0


From 0015e1d58f289d81d01ce543dd6281864d3f5fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:49 +0000
Subject: [PATCH 31/31] fix: exp_m1 of large numbers was -1 or NaN

---
 libmgen/src/functions.rs | 2 +-
 libmgen/src/log_exp.rs   | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/libmgen/src/functions.rs b/libmgen/src/functions.rs
index 96517a0..64d192a 100644
--- a/libmgen/src/functions.rs
+++ b/libmgen/src/functions.rs
@@ -437,7 +437,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "exp_m1",
-        deps: &["fty", "uty", "round", "EXP2_ONE", "EXP2_SCALE", "LOG2_E"],
+        deps: &["fty", "uty", "round", "EXP2_ONE", "EXP2_SCALE", "EXP2_MIN", "EXP2_MAX", "INFINITY", "LOG2_E"],
         num_terms: [8, 12],
         gen: Some(crate::log_exp::gen_exp_m1),
         test_specs: &[
diff --git a/libmgen/src/log_exp.rs b/libmgen/src/log_exp.rs
index 2239417..b882a73 100644
--- a/libmgen/src/log_exp.rs
+++ b/libmgen/src/log_exp.rs
@@ -69,7 +69,9 @@ pub fn gen_exp_m1(num_terms: usize, config: &Config) -> TokenStream {
             let r : fty = round(scaled);
             let mul : fty = fty::from_bits((r.mul_add(EXP2_SCALE, EXP2_ONE)) as uty);
             let x : fty = scaled - r;
-            #approx * mul + (mul - 1.0)
+            let y : fty = #approx * mul + (mul - 1.0);
+            let y1 : fty = if r > EXP2_MAX { INFINITY } else { y };
+            if r < EXP2_MIN { -1.0 } else { y1 }
         }
     )
 }
-- 
2.43.0

