From d3be0dba31dfff3d8063c9c405d5d51945bacafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 01/16] fix: reject a fixed point of a lambda that does not
 take exactly one argument

---
 src/chomp/typed/error.rs |  2 +-
 src/chomp/typed/infer.rs | 13 +++++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/chomp/typed/error.rs b/src/chomp/typed/error.rs
index 48bfa25..20a4e1b 100644
--- a/src/chomp/typed/error.rs
+++ b/src/chomp/typed/error.rs
@@ -170,7 +170,7 @@ impl Display for TypeError {
                 write!(f, "unexpected let")
             }
             Self::ExpectedLambda { .. } => {
-                write!(f, "expected a lambda expression")
+                write!(f, "expected a lambda expression with one argument")
             }
         }
     }
diff --git a/src/chomp/typed/infer.rs b/src/chomp/typed/infer.rs
index bc2baea..baf8816 100644
--- a/src/chomp/typed/infer.rs
+++ b/src/chomp/typed/infer.rs
@@ -119,12 +119,13 @@ impl Folder for TypeInfer<'_> {
 
     fn fold_fix(&mut self, name: Option<Name>, span: Span, fix: Fix) -> Self::Out {
         let mut ty = Type::default();
-        let body = if let Expression::Lambda(l) = fix.inner.expr {
-            let mut body = *l.inner;
-            body.name = Name::merge_all(array::IntoIter::new([fix.inner.name, body.name, name.clone()]));
-            body
-        } else {
-            return Err(TypeError::ExpectedLambda { span, fix });
+        let body = match fix.inner.expr {
+            Expression::Lambda(l) if l.args.len() == 1 => {
+                let mut body = *l.inner;
+                body.name = Name::merge_all(array::IntoIter::new([fix.inner.name, body.name, name.clone()]));
+                body
+            }
+            _ => return Err(TypeError::ExpectedLambda { span, fix }),
         };
 
         loop {
-- 
2.43.0


From 2f1c385e0aacbbc7685f823acb87d7c311cafc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 02/16] fix: consume_str reports a mismatch after multi-byte
 characters instead of panicking

---
 chewed/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chewed/src/parse.rs b/chewed/src/parse.rs
index cd98d64..54d797c 100644
--- a/chewed/src/parse.rs
+++ b/chewed/src/parse.rs
@@ -30,7 +30,7 @@ pub trait Parser {
             if let Some(got) = self.peek() {
                 if got == exp {
                     self.next();
-                    count += 1
+                    count += exp.len_utf8()
                 } else {
                     let mut out = String::from(&s[..count]);
                     out.push(got);
-- 
2.43.0


From 76e90efc8685d970183afa690ba56e6f548b21de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 03/16] fix: compare two spanned names without their raw
 prefix, as names are hashed and otherwise compared

---
 src/chomp/name.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chomp/name.rs b/src/chomp/name.rs
index 450b6e9..c225e9f 100644
--- a/src/chomp/name.rs
+++ b/src/chomp/name.rs
@@ -61,7 +61,7 @@ impl SnakeCase for Content {
 impl PartialEq for Content {
     fn eq(&self, other: &Self) -> bool {
         match (self, other) {
-            (Self::Spanned(me), Self::Spanned(them)) => me == them,
+            (Self::Spanned(me), Self::Spanned(them)) => me.unraw() == them.unraw(),
             (Self::Spanned(me), Self::Spanless(them)) => me.unraw() == them,
             (Self::Spanless(me), Self::Spanned(them)) => them.unraw() == me,
             (Self::Spanless(me), Self::Spanless(them)) => me == them,
-- 
2.43.0


From e56b550a7964c536a0d4bdddcc483a9a69acc6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:19 +0000
Subject: [PATCH 04/16] fix: accumulate the digits of a JSON unicode escape

---
 chomp-bench/src/json/mod.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/chomp-bench/src/json/mod.rs b/chomp-bench/src/json/mod.rs
index 2279010..2e5f841 100644
--- a/chomp-bench/src/json/mod.rs
+++ b/chomp-bench/src/json/mod.rs
@@ -120,21 +120,21 @@ impl Parse for Value {
             for c in &chars {
                 match c {
                     '0' => out *= 16,
-                    '1' => out *= 16 + 1,
-                    '2' => out *= 16 + 2,
-                    '3' => out *= 16 + 3,
-                    '4' => out *= 16 + 4,
-                    '5' => out *= 16 + 5,
-                    '6' => out *= 16 + 6,
-                    '7' => out *= 16 + 7,
-                    '8' => out *= 16 + 8,
-                    '9' => out *= 16 + 9,
-                    'a' | 'A' => out *= 16 + 10,
-                    'b' | 'B' => out *= 16 + 11,
-                    'c' | 'C' => out *= 16 + 12,
-                    'd' | 'D' => out *= 16 + 13,
-                    'e' | 'E' => out *= 16 + 14,
-                    'f' | 'F' => out *= 16 + 15,
+                    '1' => out = out * 16 + 1,
+                    '2' => out = out * 16 + 2,
+                    '3' => out = out * 16 + 3,
+                    '4' => out = out * 16 + 4,
+                    '5' => out = out * 16 + 5,
+                    '6' => out = out * 16 + 6,
+                    '7' => out = out * 16 + 7,
+                    '8' => out = out * 16 + 8,
+                    '9' => out = out * 16 + 9,
+                    'a' | 'A' => out = out * 16 + 10,
+                    'b' | 'B' => out = out * 16 + 11,
+                    'c' | 'C' => out = out * 16 + 12,
+                    'd' | 'D' => out = out * 16 + 13,
+                    'e' | 'E' => out = out * 16 + 14,
+                    'f' | 'F' => out = out * 16 + 15,
                     _ => unreachable!(),
                 };
             }
-- 
2.43.0


From 7358fa6d61307adf8823e553c8bc3cc44c9805a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 05/16] fix: print JSON control characters as escapes instead
 of underflowing

---
 chomp-bench/src/json/mod.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/chomp-bench/src/json/mod.rs b/chomp-bench/src/json/mod.rs
index 2e5f841..81cd6bd 100644
--- a/chomp-bench/src/json/mod.rs
+++ b/chomp-bench/src/json/mod.rs
@@ -48,12 +48,7 @@ impl fmt::Display for Value {
                     '\x0A' => write!(f, r#"\n"#),
                     '\x0D' => write!(f, r#"\r"#),
                     '\x09' => write!(f, r#"\t"#),
-                    _ => {
-                        let codepoint = u32::from(c) - 0x10000;
-                        let high: u16 = (codepoint / 0x400 + 0xD800).try_into().unwrap();
-                        let low: u16 = (codepoint % 0x400 + 0xDC00).try_into().unwrap();
-                        write!(f, r#"\u{:04X}\u{:04X}"#, high, low)
-                    }
+                    _ => write!(f, r#"\u{:04X}"#, u32::from(c)),
                 }?;
             }
             write!(f, "\"")
-- 
2.43.0


From 877ab84eaf99a6f624dd09318cf76383086697a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 06/16] fix: do not share an open fixed point between different
 enclosing fixed points

---
 src/chomp/typed/mod.rs | 20 +++++++++++++++++++-
 src/lower/mod.rs       | 15 ++++++++++++---
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/chomp/typed/mod.rs b/src/chomp/typed/mod.rs
index f1f6967..d217dcc 100644
--- a/src/chomp/typed/mod.rs
+++ b/src/chomp/typed/mod.rs
@@ -1,4 +1,4 @@
-use std::hash;
+use std::{collections::BTreeSet, hash};
 
 use proc_macro2::Span;
 
@@ -220,6 +220,24 @@ pub struct TypedExpression {
     pub span: Span,
 }
 
+impl TypedExpression {
+    /// The indices of the variables bound outside of this expression.
+    pub fn free_variables(&self) -> BTreeSet<usize> {
+        match &self.inner {
+            RawTypedExpression::Epsilon(_) | RawTypedExpression::Literal(_) => BTreeSet::new(),
+            RawTypedExpression::Cat(c) => c.terms.iter().flat_map(Self::free_variables).collect(),
+            RawTypedExpression::Alt(a) => a.terms.iter().flat_map(Self::free_variables).collect(),
+            RawTypedExpression::Fix(f) => f
+                .inner
+                .free_variables()
+                .into_iter()
+                .filter_map(|index| index.checked_sub(1))
+                .collect(),
+            RawTypedExpression::Variable(v) => Some(v.index()).into_iter().collect(),
+        }
+    }
+}
+
 impl PartialEq for TypedExpression {
     fn eq(&self, other: &Self) -> bool {
         self.inner == other.inner && self.name == other.name
diff --git a/src/lower/mod.rs b/src/lower/mod.rs
index e74f86a..4d7fece 100644
--- a/src/lower/mod.rs
+++ b/src/lower/mod.rs
@@ -33,7 +33,7 @@ pub struct RustBackend {
     lit_map: HashMap<String, usize>,
     cat_map: HashMap<Vec<usize>, usize>,
     alt_map: HashMap<Vec<usize>, usize>,
-    fix_map: HashMap<TypedExpression, usize>,
+    fix_map: HashMap<(TypedExpression, Vec<usize>), usize>, // Key has the fix point IDs of free variables
     var_map: HashMap<usize, usize>, // Key is fix point ID
     name_map: HashMap<Ident, usize>,
     can_char: BTreeSet<usize>,
@@ -380,12 +380,21 @@ impl Backend for RustBackend {
     fn gen_fix(&mut self, name: Option<Name>, span: Span, fix: Fix) -> Self::Id {
         let inner = fix.unwrap();
 
-        if let Some(&id) = self.fix_map.get(&inner) {
+        // Equal open terms are only the same type under the same fix points
+        let free = inner
+            .free_variables()
+            .into_iter()
+            .filter_map(|index| index.checked_sub(1))
+            .map(|index| self.context[self.context.len() - index - 1])
+            .collect();
+        let key = (inner.clone(), free);
+
+        if let Some(&id) = self.fix_map.get(&key) {
             return id;
         }
 
         let (id, name) = self.new_type_name("Fix", name, span);
-        self.fix_map.insert(inner.clone(), id);
+        self.fix_map.insert(key, id);
 
         self.data.push(Ty {
             name: TokenTree::from(name.clone()).into(),
-- 
2.43.0


From 1bed0a8635f33ea4b61cf4ee91314771744a798f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:48 +0000
Subject: [PATCH 07/16] fix: do not advance the position at the end of the
 input

---
 chewed/src/parse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chewed/src/parse.rs b/chewed/src/parse.rs
index 54d797c..05d2a14 100644
--- a/chewed/src/parse.rs
+++ b/chewed/src/parse.rs
@@ -159,6 +159,7 @@ impl<I: ?Sized + Iterator<Item = char>> Parser for IterWrapper<I> {
                 }
                 Some('\x0D')
             }
+            None => None,
             x => {
                 self.pos.col += 1;
                 x
-- 
2.43.0


From 0356c0bfc542f4712003e9d4ca4e97b6a9806b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:20 +0000
Subject: [PATCH 08/16] fix: never give two generated types, fields or branches
 the same identifier

---
 src/lower/mod.rs | 49 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/src/lower/mod.rs b/src/lower/mod.rs
index 4d7fece..1927d66 100644
--- a/src/lower/mod.rs
+++ b/src/lower/mod.rs
@@ -1,12 +1,12 @@
 use std::{
-    collections::{BTreeSet, HashMap},
+    collections::{BTreeSet, HashMap, HashSet},
     convert::TryInto,
 };
 
 use heck::{CamelCase, SnakeCase};
 use proc_macro2::{Ident, Span, TokenStream, TokenTree};
 use quote::{format_ident, quote, quote_spanned};
-use syn::{Index, LitStr};
+use syn::{ext::IdentExt, Index, LitStr};
 
 use crate::chomp::{
     ast,
@@ -36,23 +36,46 @@ pub struct RustBackend {
     fix_map: HashMap<(TypedExpression, Vec<usize>), usize>, // Key has the fix point IDs of free variables
     var_map: HashMap<usize, usize>, // Key is fix point ID
     name_map: HashMap<Ident, usize>,
+    used_names: HashSet<Ident>,
     can_char: BTreeSet<usize>,
     context: Vec<usize>,
 }
 
 type NamedSpan = (Option<Name>, Span);
 
+/// Numbers `prefix` from `count` on, skipping identifiers in `used`.
+fn fresh_ident(used: &mut HashSet<Ident>, prefix: &str, count: &mut usize, span: Span) -> Ident {
+    loop {
+        let ident = format_ident!("{}{}", prefix, *count, span = span);
+
+        if used.insert(ident.clone()) {
+            return ident;
+        }
+
+        *count += 1;
+    }
+}
+
 impl RustBackend {
     fn new_type_name(&mut self, prefix: &str, name: Option<Name>, span: Span) -> (usize, Ident) {
         let id = self.data.len();
 
         match name {
-            None => (id, format_ident!("{}{}", prefix, id + 1, span = span)),
+            None => {
+                let ident = fresh_ident(&mut self.used_names, prefix, &mut (id + 1), span);
+                (id, ident)
+            }
             Some(name) => {
                 let name: Ident = name.to_camel_case().into();
                 let count = self.name_map.entry(name.clone()).or_insert(0);
                 *count += 1;
-                (id, format_ident!("{}{}", name, count))
+                let ident = fresh_ident(
+                    &mut self.used_names,
+                    &name.to_string(),
+                    count,
+                    name.span(),
+                );
+                (id, ident)
             }
         }
     }
@@ -101,15 +124,16 @@ impl RustBackend {
         iter: I,
     ) -> impl Iterator<Item = Ident> + '_ {
         let mut name_map = HashMap::new();
+        let mut used = HashSet::new();
         iter.into_iter()
             .enumerate()
             .map(move |(index, (name, span))| match name {
-                None => format_ident!("{}{}", default, index + 1, span = span),
+                None => fresh_ident(&mut used, default, &mut (index + 1), span),
                 Some(name) => {
                     let name: Ident = name.to_snake_case().into();
                     let count = name_map.entry(name.clone()).or_insert(0_usize);
                     *count += 1;
-                    format_ident!("{}{}", name, count)
+                    fresh_ident(&mut used, &name.to_string(), count, name.span())
                 }
             })
     }
@@ -119,15 +143,16 @@ impl RustBackend {
         iter: I,
     ) -> impl Iterator<Item = Ident> + '_ {
         let mut name_map = HashMap::new();
+        let mut used = HashSet::new();
         iter.into_iter()
             .enumerate()
             .map(move |(index, (name, span))| match name {
-                None => format_ident!("{}{}", default, index + 1, span = span),
+                None => fresh_ident(&mut used, default, &mut (index + 1), span),
                 Some(name) => {
                     let name: Ident = name.to_camel_case().into();
                     let count = name_map.entry(name.clone()).or_insert(0_usize);
                     *count += 1;
-                    format_ident!("{}{}", name, count)
+                    fresh_ident(&mut used, &name.to_string(), count, name.span())
                 }
             })
     }
@@ -144,6 +169,7 @@ impl Default for RustBackend {
             fix_map: HashMap::new(),
             var_map: HashMap::new(),
             name_map: HashMap::new(),
+            used_names: HashSet::new(),
             can_char: BTreeSet::new(),
             context: Vec::new(),
         }
@@ -455,9 +481,10 @@ impl Backend for RustBackend {
         let root_name = self.data[id].name.clone();
 
         tokens.extend(if let Some(name) = name {
-            let name = name.into();
-            let count = self.name_map.get(&name).copied().unwrap_or_default() + 1;
-            let name = format_ident!("{}{}", name, count);
+            let name: Ident = name.into();
+            let mut count = self.name_map.get(&name).copied().unwrap_or_default() + 1;
+            let mut used = self.used_names;
+            let name = fresh_ident(&mut used, &name.unraw().to_string(), &mut count, name.span());
             quote_spanned! {span=>
                 pub type #name = #root_name;
             }
-- 
2.43.0


From f1e6753d2ffb8e2800b6d5b563a95879335551de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 09/16] fix: keep names valid identifiers when case conversion
 drops their leading underscores

---
 src/chomp/name.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/chomp/name.rs b/src/chomp/name.rs
index c225e9f..20f4756 100644
--- a/src/chomp/name.rs
+++ b/src/chomp/name.rs
@@ -32,15 +32,24 @@ impl From<Content> for Ident {
     }
 }
 
+/// Case conversion drops leading underscores, which can leave no identifier.
+fn valid_ident(name: String) -> String {
+    if name.starts_with(char::is_alphabetic) {
+        name
+    } else {
+        format!("_{}", name)
+    }
+}
+
 impl CamelCase for Content {
     fn to_camel_case(&self) -> Self::Owned {
         match self {
             Self::Spanned(ident) => {
                 let span = ident.span();
                 let name = ident.unraw().to_string();
-                Ident::new(&name.to_camel_case(), span).into()
+                Ident::new(&valid_ident(name.to_camel_case()), span).into()
             }
-            Self::Spanless(name) => name.to_camel_case().into(),
+            Self::Spanless(name) => valid_ident(name.to_camel_case()).into(),
         }
     }
 }
@@ -51,9 +60,9 @@ impl SnakeCase for Content {
             Self::Spanned(ident) => {
                 let span = ident.span();
                 let name = ident.unraw().to_string();
-                Ident::new(&name.to_snake_case(), span).into()
+                Ident::new(&valid_ident(name.to_snake_case()), span).into()
             }
-            Self::Spanless(name) => name.to_snake_case().into(),
+            Self::Spanless(name) => valid_ident(name.to_snake_case()).into(),
         }
     }
 }
-- 
2.43.0


From 062bc30c57183a9b1feb9684112e7a0b3fa84a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:03 +0000
Subject: [PATCH 10/16] fix: report output that could not be flushed

The end of the generated code stays in standard output's buffer until the
program ends, where a failure to write it is ignored: short output to a full
device ended with status 0.
---
 autonibble/src/main.rs | 5 ++++-
 src/main.rs            | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/autonibble/src/main.rs b/autonibble/src/main.rs
index 56c757d..d4b1a41 100644
--- a/autonibble/src/main.rs
+++ b/autonibble/src/main.rs
@@ -51,7 +51,10 @@ fn main() {
             backend.emit_code(None, Span::call_site(), id)
         })
         .and_then(|code| {
-            write!(io::stdout(), "{:#}", code).map_err(|e| Box::new(e) as Box<dyn Error>)
+            let mut stdout = io::stdout();
+            write!(stdout, "{:#}", code)
+                .and_then(|_| stdout.flush())
+                .map_err(|e| Box::new(e) as Box<dyn Error>)
         });
 
     if let Err(e) = res {
diff --git a/src/main.rs b/src/main.rs
index 0954074..7a6ab9f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -50,7 +50,10 @@ fn main() {
             backend.emit_code(None, Span::call_site(), id)
         })
         .and_then(|code| {
-            write!(io::stdout(), "{:#}", code).map_err(|e| Box::new(e) as Box<dyn Error>)
+            let mut stdout = io::stdout();
+            write!(stdout, "{:#}", code)
+                .and_then(|_| stdout.flush())
+                .map_err(|e| Box::new(e) as Box<dyn Error>)
         });
 
     if let Err(e) = res {
-- 
2.43.0


From bb3780527a680d8f3b1801c8588e17bc252d0cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:42 +0000
Subject: [PATCH 11/16] fix: accept keywords as parameter names

---
 src/nibble/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nibble/mod.rs b/src/nibble/mod.rs
index f5417db..97bfbfe 100644
--- a/src/nibble/mod.rs
+++ b/src/nibble/mod.rs
@@ -277,7 +277,7 @@ impl Parse for Lambda {
         let slash_tok_left = input.parse()?;
         let mut args = Vec::new();
         loop {
-            args.push(input.parse()?);
+            args.push(input.call(Ident::parse_any)?);
             let lookahead = input.lookahead1();
 
             if lookahead.peek(Token![/]) {
@@ -401,7 +401,7 @@ impl Parse for LetStatement {
             if lookahead.peek(Token![=]) {
                 break;
             } else if lookahead.peek(Ident::peek_any) {
-                args.push(input.parse()?);
+                args.push(input.call(Ident::parse_any)?);
             } else {
                 return Err(lookahead.error());
             }
-- 
2.43.0


From 4eb5f73793c20ac6fe9268aec2fed570ab45f369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:26 +0000
Subject: [PATCH 12/16] fix: report escapes that are not characters instead of
 panicking

---
 autonibble/src/lib.rs | 48 ++++++++++++++++++++++++++++---------------
 src/nibble/convert.rs |  5 +++++
 2 files changed, 36 insertions(+), 17 deletions(-)

diff --git a/autonibble/src/lib.rs b/autonibble/src/lib.rs
index 2fed0f0..9c0d3c5 100644
--- a/autonibble/src/lib.rs
+++ b/autonibble/src/lib.rs
@@ -1,4 +1,7 @@
-use std::{convert::TryInto, mem};
+use std::{
+    convert::{TryFrom, TryInto},
+    mem,
+};
 
 use chomp::{
     chomp::{
@@ -277,7 +280,11 @@ impl Convert for Term1 {
             }),
             Term1::Literal1(literal) => Ok(NamedExpression {
                 name: None,
-                expr: literal.contents1.into_iter().collect::<Literal>().into(),
+                expr: literal
+                    .contents1
+                    .into_iter()
+                    .collect::<Result<Literal, _>>()?
+                    .into(),
                 span: Span::call_site(),
             }),
             Term1::Parens1(parens) => parens.expr1.convert(context),
@@ -392,7 +399,7 @@ impl Iterator for Opt13 {
 }
 
 impl IntoIterator for Contents1 {
-    type Item = char;
+    type Item = Result<char, ConvertError>;
 
     type IntoIter = Opt11;
 
@@ -402,7 +409,7 @@ impl IntoIterator for Contents1 {
 }
 
 impl Iterator for Opt11 {
-    type Item = char;
+    type Item = Result<char, ConvertError>;
 
     fn next(&mut self) -> Option<Self::Item> {
         let orig = mem::replace(self, Opt11::None1(Epsilon));
@@ -410,27 +417,31 @@ impl Iterator for Opt11 {
             Opt11::None1(_) => None,
             Opt11::Plus1(contents) => {
                 *self = contents.opt1;
-                Some(contents.literal_char1.into())
+                Some(contents.literal_char1.try_into())
             }
         }
     }
 }
 
-impl From<LiteralChar1> for char {
-    fn from(c: LiteralChar1) -> Self {
+impl TryFrom<LiteralChar1> for char {
+    type Error = ConvertError;
+
+    fn try_from(c: LiteralChar1) -> Result<Self, ConvertError> {
         match c {
-            LiteralChar1::Literal1(c) => c.into(),
-            LiteralChar1::Escape1(e) => e.into(),
+            LiteralChar1::Literal1(c) => Ok(c.into()),
+            LiteralChar1::Escape1(e) => e.try_into(),
         }
     }
 }
 
-impl From<Escape1> for char {
-    fn from(e: Escape1) -> Self {
+impl TryFrom<Escape1> for char {
+    type Error = ConvertError;
+
+    fn try_from(e: Escape1) -> Result<Self, ConvertError> {
         match e.1 {
-            Alt171::Ascii1(a) => a.escape(),
-            Alt171::Oct1(o) => o.into(),
-            Alt171::Unicode1(u) => u.into(),
+            Alt171::Ascii1(a) => Ok(a.escape()),
+            Alt171::Oct1(o) => Ok(o.into()),
+            Alt171::Unicode1(u) => u.try_into(),
         }
     }
 }
@@ -458,10 +469,13 @@ impl From<Oct1> for char {
     }
 }
 
-impl From<Unicode1> for char {
-    fn from(u: Unicode1) -> Self {
+impl TryFrom<Unicode1> for char {
+    type Error = ConvertError;
+
+    fn try_from(u: Unicode1) -> Result<Self, ConvertError> {
         let s = u.up_to1.to_string();
-        u32::from_str_radix(&s, 16).unwrap().try_into().unwrap()
+        let code = u32::from_str_radix(&s, 16).unwrap();
+        code.try_into().map_err(|_| ConvertError::InvalidChar(code))
     }
 }
 
diff --git a/src/nibble/convert.rs b/src/nibble/convert.rs
index ca6c95a..803c103 100644
--- a/src/nibble/convert.rs
+++ b/src/nibble/convert.rs
@@ -62,6 +62,7 @@ pub enum ConvertError {
     EmptyCat(Span),
     EmptyAlt(Span),
     EmptyCall(Span),
+    InvalidChar(u32),
 }
 
 impl From<ConvertError> for syn::Error {
@@ -72,6 +73,7 @@ impl From<ConvertError> for syn::Error {
             ConvertError::EmptyCat(span)
             | ConvertError::EmptyAlt(span)
             | ConvertError::EmptyCall(span) => span,
+            ConvertError::InvalidChar(_) => Span::call_site(),
         };
 
         Self::new(span, msg)
@@ -93,6 +95,9 @@ impl fmt::Display for ConvertError {
             Self::EmptyCall(_) => {
                 write!(f, "call has no function")
             }
+            Self::InvalidChar(code) => {
+                write!(f, "escape `\\u{{{:x}}}` is not a character", code)
+            }
         }
     }
 }
-- 
2.43.0


From 4bdba5f1dcb83cc2e353b2f398b9bcd92111af9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:03 +0000
Subject: [PATCH 13/16] fix: the JSON example reads arrays and objects with
 nothing but blanks in them

---
 chomp-bench/src/json/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chomp-bench/src/json/mod.rs b/chomp-bench/src/json/mod.rs
index 81cd6bd..26fbe39 100644
--- a/chomp-bench/src/json/mod.rs
+++ b/chomp-bench/src/json/mod.rs
@@ -203,6 +203,7 @@ impl Parse for Value {
             '[' => {
                 const ARRAY_TAIL: &[char] = &[',', ']'];
                 input.consume_str("[")?;
+                skip_ws(input);
                 let a = input
                     .iter_strict(Self::take, ',', ']', ARRAY_TAIL, FIRST_WS)
                     .collect::<Result<_, _>>()
@@ -213,6 +214,7 @@ impl Parse for Value {
             '{' => {
                 const OBJECT_TAIL: &[char] = &[',', '}'];
                 input.consume_str("{")?;
+                skip_ws(input);
                 let o = input
                     .iter_strict(
                         |p| {
-- 
2.43.0


From edece7b3fdf82d463824d9de94fd07067c5697f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:42 +0000
Subject: [PATCH 14/16] fix: malformed strings and numbers are errors of the
 JSON example, not panics

---
 chomp-bench/src/json/mod.rs | 40 ++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/chomp-bench/src/json/mod.rs b/chomp-bench/src/json/mod.rs
index 26fbe39..5c0379d 100644
--- a/chomp-bench/src/json/mod.rs
+++ b/chomp-bench/src/json/mod.rs
@@ -6,11 +6,21 @@ use lalrpop_util::lalrpop_mod;
 pub mod nibble;
 lalrpop_mod!(pub lalr, "/json/lalr.rs");
 
-fn decode_pair(one: u16, other: u16) -> u32 {
-    // Ranges are confusingly backwards
-    const LOW_SURROGATE_RANGE: RangeInclusive<u16> = 0xDC00..=0xDFFF;
-    const HIGH_SURROGATE_RANGE: RangeInclusive<u16> = 0xD800..=0xDBFF;
+// Ranges are confusingly backwards
+const LOW_SURROGATE_RANGE: RangeInclusive<u16> = 0xDC00..=0xDFFF;
+const HIGH_SURROGATE_RANGE: RangeInclusive<u16> = 0xD800..=0xDBFF;
+
+fn is_pair(one: u16, other: u16) -> bool {
+    let (low, high) = if LOW_SURROGATE_RANGE.contains(&one) {
+        (one, other)
+    } else {
+        (other, one)
+    };
+
+    LOW_SURROGATE_RANGE.contains(&low) && HIGH_SURROGATE_RANGE.contains(&high)
+}
 
+fn decode_pair(one: u16, other: u16) -> u32 {
     let (low, high) = if LOW_SURROGATE_RANGE.contains(&one) {
         assert!(HIGH_SURROGATE_RANGE.contains(&other));
         (one, other)
@@ -166,16 +176,29 @@ impl Parse for Value {
                                 let codepoint = if (0xD800..=0xDFFF).contains(&v) {
                                     input.consume_str(r#"\u"#)?;
                                     let other = parse_u16(input)?;
+                                    if !is_pair(v, other) {
+                                        return Err(TakeError::BadString(
+                                            input.pos(),
+                                            format!(r#"\u{:04X}\u{:04X}"#, v, other),
+                                            "a surrogate pair",
+                                        ));
+                                    }
                                     decode_pair(v, other)
                                 } else {
                                     u32::from(v)
                                 };
                                 s.push(codepoint.try_into().unwrap())
                             }
-                            c => return Err(TakeError::BadBranch(input.pos(), c, todo!())),
+                            c => {
+                                return Err(TakeError::BadBranch(
+                                    input.pos(),
+                                    c,
+                                    &['"', '\\', '/', 'b', 'f', 'n', 'r', 't', 'u'],
+                                ))
+                            }
                         }
                     }
-                    c => return Err(TakeError::BadBranch(input.pos(), c, todo!())),
+                    c => return Err(TakeError::BadBranch(input.pos(), c, &['"', '\\'])),
                 }
             }
         }
@@ -197,7 +220,10 @@ impl Parse for Value {
                 }) {
                     s.push(input.next().unwrap());
                 }
-                s.parse().map(Value::Number).map_err(|_| todo!())
+                match s.parse() {
+                    Ok(n) => Ok(Value::Number(n)),
+                    Err(_) => Err(TakeError::BadString(input.pos(), s, "a number")),
+                }
             }
             '"' => parse_str(input).map(Value::String),
             '[' => {
-- 
2.43.0


From d04079b460909047cb0fe26b076337d083cae3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:39 +0000
Subject: [PATCH 15/16] fix: report where a character outside the set is, not
 the place after it

---
 chewed/src/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chewed/src/parse.rs b/chewed/src/parse.rs
index 05d2a14..a662755 100644
--- a/chewed/src/parse.rs
+++ b/chewed/src/parse.rs
@@ -53,10 +53,11 @@ pub trait Parser {
 
     fn take_chars_from(&mut self, set: &'static [char], buffer: &mut [char]) -> Result<(), TakeError> {
         for pos in buffer {
+            let start = self.pos();
             match self.next() {
                 None => return Err(TakeError::EndOfStream(self.pos())),
                 Some(c) if set.contains(&c) => *pos = c,
-                Some(c) => return Err(TakeError::BadBranch(self.pos(), c, set))
+                Some(c) => return Err(TakeError::BadBranch(start, c, set))
             }
         }
 
-- 
2.43.0


From d5574b3bde172190940563988cbdca5d7ffb6b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:39 +0000
Subject: [PATCH 16/16] fix: keep the error of a list item instead of replacing
 it by what follows

---
 chewed/src/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chewed/src/parse.rs b/chewed/src/parse.rs
index a662755..d878790 100644
--- a/chewed/src/parse.rs
+++ b/chewed/src/parse.rs
@@ -102,7 +102,10 @@ impl<P: Parser + ?Sized, F: FnMut(&mut P) -> Result<R, TakeError>, R> Iterator f
         if c == self.stop {
             None
         } else {
-            let res = (self.parse)(self.iter).map(Some).transpose()?;
+            let res = (self.parse)(self.iter);
+            if res.is_err() {
+                return Some(res);
+            }
 
             match self.iter.peek() {
                 None => Some(Err(TakeError::EndOfStream(self.iter.pos()))),
-- 
2.43.0

