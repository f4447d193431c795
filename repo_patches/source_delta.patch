From f0eb11af249c3ec56265df8c80348435fde24905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 01/15] fix: stop at the end of the source inside regular
 expressions and templates

The scanning loops of regular expressions and template literals treated the
terminating NUL as ordinary text and kept reading past the end of the source.
---
 ratel/src/lexer/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 923361b..da2a333 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -775,6 +775,10 @@ impl<'arena> Lexer<'arena> {
                         _ => self.bump()
                     }
                 },
+                0 => {
+                    self.token = UnexpectedEndOfProgram;
+                    return;
+                },
                 _ => self.bump()
             }
         }
@@ -1014,6 +1018,10 @@ impl<'arena> Lexer<'arena> {
                     self.token = UnexpectedToken;
                     return "";
                 },
+                0 => {
+                    self.token = UnexpectedEndOfProgram;
+                    return "";
+                },
                 _     => self.bump()
             }
         }
-- 
2.43.0


From 5f598c0ad1e15a2b9af0d0b50cb0661c9ae09f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 02/15] fix: terminate on a switch case that is cut short

The loop collecting the statements of a switch case did not stop at the end of
the program and pushed errors until the process ran out of memory.
---
 ratel/src/parser/statement.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 3e56e67..14988bd 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -139,7 +139,7 @@ impl<'ast> Parse<'ast> for SwitchCase<'ast> {
 
         loop {
             match par.lexer.token {
-                Case | Default | BraceClose => break,
+                Case | Default | BraceClose | EndOfProgram => break,
                 _ => {
                     let statement = par.statement();
                     end = statement.end;
-- 
2.43.0


From e7c02e686474548180d6f7bb50b643e2c374ba35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 03/15] fix: report an error when a block is not closed

A block whose closing brace is missing at the end of the source was accepted.
---
 ratel/src/parser/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ratel/src/parser/mod.rs b/ratel/src/parser/mod.rs
index 9b99d1a..1bfed24 100644
--- a/ratel/src/parser/mod.rs
+++ b/ratel/src/parser/mod.rs
@@ -159,6 +159,10 @@ impl<'ast> Parser<'ast> {
             builder.push(self.arena, I::parse(self));
         }
 
+        if self.lexer.token != BraceClose {
+            self.error::<()>();
+        }
+
         Block { body: builder.as_list() }
     }
 
-- 
2.43.0


From 8a9b1aaeda37979775132dbf1b56a4898d306225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 04/15] fix: pass formatting errors on when dumping a module

The Debug implementation of Module panicked when the formatter failed.
---
 ratel/src/module.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ratel/src/module.rs b/ratel/src/module.rs
index e9067a9..8d03e31 100644
--- a/ratel/src/module.rs
+++ b/ratel/src/module.rs
@@ -38,9 +38,9 @@ impl<'ast> Module<'ast> {
 
 impl<'ast> fmt::Debug for Module<'ast> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "Module:").unwrap();
+        write!(f, "Module:")?;
         for elem in self.body().iter() {
-            write!(f, "\n\t{:?}", elem).unwrap()
+            write!(f, "\n\t{:?}", elem)?;
         }
         Ok(())
     }
-- 
2.43.0


From fae567f1b30c18cfb3aba69b85d28229768ee33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 05/15] fix: reject sources containing a NUL character

The lexer takes any NUL for the end of the program, and everything after it was
silently dropped.
---
 ratel/src/parser/mod.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ratel/src/parser/mod.rs b/ratel/src/parser/mod.rs
index 1bfed24..196e192 100644
--- a/ratel/src/parser/mod.rs
+++ b/ratel/src/parser/mod.rs
@@ -231,6 +231,19 @@ pub fn parse<'src, 'ast>(source: &'src str) -> Result<Module<'ast>, Vec<Error>>
 
         parser.parse();
 
+        // The lexer takes any NUL for the end of the source, make sure
+        // that whatever follows one isn't silently ignored.
+        let end = parser.lexer.end() as usize;
+
+        if end < source.len() {
+            parser.errors.push(Error {
+                token: UnexpectedToken,
+                start: end,
+                end: end + 1,
+                raw: source[end..end + 1].into(),
+            });
+        }
+
         (parser.body.into_unsafe(), parser.errors)
     };
 
-- 
2.43.0


From d8ef8477e33626a55d6d7a256d0705eef24bb40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 06/15] fix: decode non-ASCII characters by their actual length

A character that can't start an identifier was never consumed, so the parser
reported it forever, and the lookahead of four bytes could reach past the end
of the source.
---
 ratel/src/lexer/mod.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index da2a333..566f42f 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -459,17 +459,21 @@ const PRC: ByteHandler = Some(|lex| {
 const UNI: ByteHandler = Some(|lex| {
     let start = lex.index;
 
-    // TODO: unicodes with different lengths
-    let first = lex.slice_source(start, start + 4).chars().next().expect("Has to have one");
+    // Length of the encoded character is determined by its first byte
+    let len = match lex.read_byte() {
+        byte if byte >= 0xF0 => 4,
+        byte if byte >= 0xE0 => 3,
+        _                    => 2,
+    };
+
+    let first = lex.slice_source(start, start + len).chars().next().expect("Has to have one");
+
+    lex.index += len;
 
     if !first.is_alphanumeric() {
         return lex.token = UnexpectedToken;
     }
 
-    // `read_label` bumps one at the beginning,
-    // so we subtract it here.
-    lex.index += first.len_utf8() - 1;
-
     lex.read_label();
 
     lex.token = Identifier;
-- 
2.43.0


From b5c43ec3987a7a899d10afa72995d39819cc5061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 07/15] fix: don't panic on accessors that aren't ASCII or are
 cut short

Non-ASCII property names hit an unimplemented!(), and a dot at the end of the
source made the lexer skip over the terminating NUL.
---
 ratel/src/lexer/mod.rs | 58 +++++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 21 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 566f42f..e0887e8 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -457,26 +457,10 @@ const PRC: ByteHandler = Some(|lex| {
 
 // Unicode character
 const UNI: ByteHandler = Some(|lex| {
-    let start = lex.index;
-
-    // Length of the encoded character is determined by its first byte
-    let len = match lex.read_byte() {
-        byte if byte >= 0xF0 => 4,
-        byte if byte >= 0xE0 => 3,
-        _                    => 2,
+    lex.token = match lex.read_unicode_label() {
+        true  => Identifier,
+        false => UnexpectedToken,
     };
-
-    let first = lex.slice_source(start, start + len).chars().next().expect("Has to have one");
-
-    lex.index += len;
-
-    if !first.is_alphanumeric() {
-        return lex.token = UnexpectedToken;
-    }
-
-    lex.read_label();
-
-    lex.token = Identifier;
 });
 
 // 0
@@ -890,8 +874,10 @@ impl<'arena> Lexer<'arena> {
                 self.accessor_start = self.index;
 
                 if ch > 127 {
-                    unimplemented!();
-                    // return unicode(self)
+                    return self.token = match self.read_unicode_label() {
+                        true  => Accessor,
+                        false => UnexpectedToken,
+                    };
                 } else if TABLE[ch as usize] {
                     self.read_label();
                     return self.token = Accessor;
@@ -900,6 +886,10 @@ impl<'arena> Lexer<'arena> {
                 }
             }
 
+            if ch == 0 {
+                return self.token = UnexpectedEndOfProgram;
+            }
+
             self.bump();
         })
     }
@@ -911,6 +901,32 @@ impl<'arena> Lexer<'arena> {
         }
     }
 
+    /// Read a label that begins with a non-ASCII character. Consumes that
+    /// character and returns `false` if it isn't allowed to start a label.
+    #[inline]
+    fn read_unicode_label(&mut self) -> bool {
+        let start = self.index;
+
+        // Length of the encoded character is determined by its first byte
+        let len = match self.read_byte() {
+            byte if byte >= 0xF0 => 4,
+            byte if byte >= 0xE0 => 3,
+            _                    => 2,
+        };
+
+        let first = self.slice_source(start, start + len).chars().next().expect("Has to have one");
+
+        self.index += len;
+
+        if !first.is_alphanumeric() {
+            return false;
+        }
+
+        self.read_label();
+
+        true
+    }
+
     #[inline]
     fn slice_from(&self, start: usize) -> &'arena str {
         let end = self.index;
-- 
2.43.0


From bcbb34fd1247e5eade01f2f6eac22e555bfacc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 08/15] fix: serialise array patterns with holes

Serialising an array pattern with an omitted element hit an unreachable!().
---
 ratel/src/astgen/value.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ratel/src/astgen/value.rs b/ratel/src/astgen/value.rs
index 35a17c1..f6d2393 100644
--- a/ratel/src/astgen/value.rs
+++ b/ratel/src/astgen/value.rs
@@ -259,6 +259,15 @@ impl<'ast> SerializeInLoc for Pattern<'ast> {
                 state.serialize_field("keys", &properties)
             }),
             ArrayPattern { elements } => self.in_loc(serializer, "ArrayPattern", 1, |state| {
+                let mut elements = elements.iter()
+                                           .map(|loc| if loc.item != Void { Some(loc) } else { None })
+                                           .collect::<Vec<_>>();
+
+                // A trailing comma doesn't produce an element
+                if let Some(&None) = elements.last() {
+                    elements.pop();
+                }
+
                 state.serialize_field("elements", &elements)
             }),
             AssignmentPattern { left, right } => {
-- 
2.43.0


From 62c885dca9e3b92622a317e153f2a3191e9a1bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 09/15] fix: serialise new expressions without arguments

Only calls and literals were handled, anything else hit an unimplemented!().
---
 ratel/src/astgen/expression.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ratel/src/astgen/expression.rs b/ratel/src/astgen/expression.rs
index f9732ee..20fd6f1 100644
--- a/ratel/src/astgen/expression.rs
+++ b/ratel/src/astgen/expression.rs
@@ -164,15 +164,14 @@ impl<'ast> SerializeInLoc for PrefixExpression<'ast> {
                         state.serialize_field("arguments", arguments)
                     })
                 },
-                Literal(_) => {
+                _ => {
                     self.in_loc(serializer, expr_type, 2, |state| {
                         // 0 byte array, will be optimized away
                         let arguments: [(); 0] = [];
                         state.serialize_field("callee", &self.operand)?;
                         state.serialize_field("arguments", &arguments)
                     })
-                },
-                _ => unimplemented!()
+                }
             }
         } else {
             self.in_loc(serializer, expr_type, 3, |state| {
-- 
2.43.0


From ed040ddbd63d129fc59a8ad805eceba5cfd7c531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 10/15] fix: serialise class fields

Serialising a class with a field hit an unimplemented!().
---
 ratel/src/astgen/function.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ratel/src/astgen/function.rs b/ratel/src/astgen/function.rs
index 63bb687..304ce1a 100644
--- a/ratel/src/astgen/function.rs
+++ b/ratel/src/astgen/function.rs
@@ -2,6 +2,7 @@ use serde::ser::{Serialize, Serializer, SerializeStruct};
 use astgen::SerializeInLoc;
 use ast::{Function, Class, Name, MandatoryName, OptionalName, EmptyName, ClassMember, Block};
 use ast::MethodKind;
+use ast::expression::PropertyKey;
 
 impl<'ast> Serialize for MethodKind {
     fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
@@ -36,8 +37,18 @@ impl<'ast> SerializeInLoc for ClassMember<'ast> {
                     state.serialize_field("value", &value)
                 })
             },
-            Literal { .. } => {
-                unimplemented!()
+            Literal { is_static, key, value } => {
+                let computed = match key.item {
+                    PropertyKey::Computed(_) => true,
+                    _ => false,
+                };
+
+                self.in_loc(serializer, "PropertyDefinition", 4, |state| {
+                    state.serialize_field("static", &is_static)?;
+                    state.serialize_field("computed", &computed)?;
+                    state.serialize_field("key", &*key)?;
+                    state.serialize_field("value", &value)
+                })
             }
         }
     }
-- 
2.43.0


From 646e84311fcd730fd563d8aa3c6bcb7f82ba8068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 11/15] fix: serialise numbers with exponents and numbers that
 don't fit an integer

The value of literals like 1e5, 0xFFFFFFFF or 10000000000000000000 was parsed
as a fixed size integer and failed an expect().
---
 ratel/src/astgen/value.rs | 40 +++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/ratel/src/astgen/value.rs b/ratel/src/astgen/value.rs
index f6d2393..bf9112d 100644
--- a/ratel/src/astgen/value.rs
+++ b/ratel/src/astgen/value.rs
@@ -30,6 +30,26 @@ pub fn is_float(value: &str) -> bool {
     value.bytes().any(|c| c == b'.')
 }
 
+/// Serialize the value of a number written in given radix. Digits that don't
+/// fit into an integer yield a floating point number.
+#[inline]
+fn serialize_radix<S>(state: &mut S, digits: &str, radix: u32) -> Result<(), S::Error>
+where
+    S: SerializeStruct,
+{
+    match i64::from_str_radix(digits, radix) {
+        Ok(value) => state.serialize_field("value", &value),
+        Err(_) => {
+            let value = digits
+                .chars()
+                .filter_map(|digit| digit.to_digit(radix))
+                .fold(0.0, |value, digit| value * f64::from(radix) + f64::from(digit));
+
+            state.serialize_field("value", &value)
+        }
+    }
+}
+
 #[derive(Debug)]
 pub struct TemplateElement<'ast> {
     pub tail: bool,
@@ -205,10 +225,7 @@ impl<'ast> SerializeInLoc for Literal<'ast> {
                         if is_hexdecimal || is_octal {
                             let value = unsafe { number.get_unchecked(2..number.len()) };
                             let radix = if is_hexdecimal { 16 } else { 8 };
-                            state.serialize_field(
-                                "value",
-                                &i32::from_str_radix(value, radix).expect("Invalid number"),
-                            )?;
+                            serialize_radix(state, value, radix)?;
                             return state.serialize_field("raw", &number)
                         }
                     }
@@ -219,16 +236,19 @@ impl<'ast> SerializeInLoc for Literal<'ast> {
                         return state.serialize_field("raw", &number)
                     }
 
-                    let value: i64 = number.parse().expect("Invalid number");
-                    state.serialize_field("value", &value)?;
+                    match number.parse::<i64>() {
+                        Ok(value) => state.serialize_field("value", &value)?,
+                        // Exponents, and integers that don't fit
+                        Err(_) => {
+                            let value: f64 = number.parse().expect("Invalid number");
+                            state.serialize_field("value", &value)?;
+                        }
+                    }
                     state.serialize_field("raw", &number)
                 }
                 Binary(number) => {
                     let value = unsafe { number.get_unchecked(2..number.len()) };
-                    state.serialize_field(
-                        "value",
-                        &i32::from_str_radix(value, 2).expect("Invalid number"),
-                    )?;
+                    serialize_radix(state, value, 2)?;
                     state.serialize_field("raw", &number)
                 }
                 String(value) => {
-- 
2.43.0


From 4637a9902be8a82d1f8dc2558ad50aacb1063c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:30 +0000
Subject: [PATCH 12/15] fix: reject numbers without digits

The lexer accepted 0x, 0b, 0o and 1e as numbers, and serialising them failed
an expect().
---
 ratel/src/lexer/mod.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index e0887e8..f8a8241 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -821,6 +821,11 @@ impl<'arena> Lexer<'arena> {
 
     #[inline]
     fn read_binary(&mut self) {
+        match self.read_byte() {
+            b'0' | b'1' => {},
+            _ => return self.token = UnexpectedToken,
+        }
+
         loop {
             match self.read_byte() {
                 b'0' => {
@@ -947,6 +952,11 @@ impl<'arena> Lexer<'arena> {
 
     #[inline]
     fn read_octal(&mut self) {
+        match self.read_byte() {
+            b'0'..=b'7' => {},
+            _ => return self.token = UnexpectedToken,
+        }
+
         while match self.read_byte() {
             b'0'..=b'7' => true,
             _ => false,
@@ -959,6 +969,13 @@ impl<'arena> Lexer<'arena> {
 
     #[inline]
     fn read_hexadec(&mut self) {
+        match self.read_byte() {
+            b'0'..=b'9' |
+            b'a'..=b'f' |
+            b'A'..=b'F' => {},
+            _ => return self.token = UnexpectedToken,
+        }
+
         while match self.read_byte() {
             b'0'..=b'9' |
             b'a'..=b'f' |
@@ -994,6 +1011,11 @@ impl<'arena> Lexer<'arena> {
             _           => {}
         }
 
+        match self.read_byte() {
+            b'0'..=b'9' => {},
+            _ => return self.token = UnexpectedToken,
+        }
+
         while match self.read_byte() {
             b'0'..=b'9' => true,
             _ => false,
-- 
2.43.0


From d13a8a2eebfaa8f9b90cddd91bce7502fffff2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:37 +0000
Subject: [PATCH 13/15] fix: announce import statements as parents before they
 are popped

Visiting an import statement called pop_parent without push_parent.
---
 ratel-visitor/src/statement.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ratel-visitor/src/statement.rs b/ratel-visitor/src/statement.rs
index a5e3bc9..c4226f9 100644
--- a/ratel-visitor/src/statement.rs
+++ b/ratel-visitor/src/statement.rs
@@ -114,6 +114,7 @@ impl<'ast> Visitable<'ast> for StatementNode<'ast> {
             },
             Import(ref import) => {
                 visitor.on_import_declaration_statement(import, self);
+                visitor.push_parent(ParentNode::from(self));
                 import.visit_with(visitor);
             }
         }
-- 
2.43.0


From 687a31e0e0ef271aba05adb4061ef589c93e2e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:46 +0000
Subject: [PATCH 14/15] fix: keep switch case bodies and import specifiers in
 optimized builds

GrowableList changes its first element through a shared reference without an
UnsafeCell. For builders in local variables the optimizer doesn't see the
change, so release builds silently dropped every statement of a switch case
and every import specifier.
---
 ratel/src/parser/statement.rs | 39 ++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 14988bd..ac98c83 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -1,4 +1,5 @@
-use toolshed::list::{ListBuilder, GrowableList};
+use toolshed::list::{List, ListBuilder};
+use toolshed::Arena;
 use parser::{Parser, Parse, ANY, B0};
 use lexer::Token::*;
 use lexer::Asi;
@@ -108,6 +109,38 @@ impl<'ast> Parse<'ast> for Statement<'ast> {
     }
 }
 
+/// Builder of a list that may turn out empty.
+///
+/// This replaces `GrowableList`, which changes its first element through a shared
+/// reference. When a builder is a local variable, optimized builds don't see that
+/// happen, and hand out an empty list.
+struct OptionalList<'ast, T: 'ast> {
+    builder: Option<ListBuilder<'ast, T>>,
+}
+
+impl<'ast, T: 'ast + Copy> OptionalList<'ast, T> {
+    #[inline]
+    fn new() -> Self {
+        OptionalList { builder: None }
+    }
+
+    #[inline]
+    fn push(&mut self, arena: &'ast Arena, item: T) {
+        match self.builder {
+            Some(ref builder) => builder.push(arena, item),
+            None              => self.builder = Some(ListBuilder::new(arena, item)),
+        }
+    }
+
+    #[inline]
+    fn as_list(&self) -> List<'ast, T> {
+        match self.builder {
+            Some(ref builder) => builder.as_list(),
+            None              => List::empty(),
+        }
+    }
+}
+
 impl<'ast> Parse<'ast> for SwitchCase<'ast> {
     type Output = Node<'ast, Self>;
 
@@ -135,7 +168,7 @@ impl<'ast> Parse<'ast> for SwitchCase<'ast> {
         let mut end = par.lexer.end();
         expect!(par, Colon);
 
-        let builder = GrowableList::new();
+        let mut builder = OptionalList::new();
 
         loop {
             match par.lexer.token {
@@ -631,7 +664,7 @@ impl<'ast> Parser<'ast> {
         let import = self.lexer.token_as_str();
         let (start , end) = self.lexer.loc();
 
-        let builder: GrowableList<Node<'ast, ForImportSpecifier>> = GrowableList::new();
+        let mut builder: OptionalList<Node<'ast, ForImportSpecifier>> = OptionalList::new();
         self.lexer.consume();
         if self.lexer.token == Comma || self.lexer.token == ParenOpen {
             // call or access. example: `import()` `import.filed`
-- 
2.43.0


From c93771d2304c6e38ab7e27f216f41246df838f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:50 +0000
Subject: [PATCH 15/15] fix: skip comments in a row without recursion

Every comment went back to Lexer::consume from its handler, so the stack
grew with the number of comments following one another; ten thousand or
so were enough to overflow a thread's stack in an unoptimised build.
---
 ratel/src/lexer/mod.rs | 121 +++++++++++++++++++++++++----------------
 1 file changed, 75 insertions(+), 46 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index f8a8241..57e4750 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -395,52 +395,7 @@ const ATR: ByteHandler = Some(|lex| {
 });
 
 // /
-const SLH: ByteHandler = Some(|lex| {
-    lex.token = match lex.next_byte() {
-        // regular comment
-        b'/' => {
-            // Keep consuming bytes until new line or end of source
-            unwind_loop!({
-                match lex.next_byte() {
-                    0 | b'\n' => {
-                        return lex.consume();
-                    }
-                    _ => {}
-                }
-            });
-        },
-
-        // block comment
-        b'*' => {
-            lex.bump();
-            // Keep consuming bytes until */ happens in a row
-            unwind_loop!({
-                match lex.read_byte() {
-                    b'*' => {
-                        match lex.next_byte() {
-                            b'/' => {
-                                lex.bump();
-                                return lex.consume();
-                            },
-                            0 => return lex.token = UnexpectedEndOfProgram,
-                            _ => {}
-                        }
-                    },
-                    0 => return lex.token = UnexpectedEndOfProgram,
-                    _ => lex.bump()
-                }
-            });
-        },
-
-        b'=' => {
-            lex.bump();
-
-            OperatorDivideAssign
-        }
-
-        _ => OperatorDivision
-    };
-});
+const SLH: ByteHandler = Some(|lex| lex.consume_slash());
 
 // %
 const PRC: ByteHandler = Some(|lex| {
@@ -663,6 +618,80 @@ impl<'arena> Lexer<'arena> {
         })
     }
 
+    /// Produces the token starting with a slash or, if that starts a comment, the
+    /// next `Token` after it.
+    ///
+    /// Comments following one another are skipped in a loop: going back to `consume`
+    /// for each of them would make the stack grow with their number.
+    fn consume_slash(&mut self) {
+        loop {
+            self.token_start = self.index;
+
+            match self.next_byte() {
+                // regular comment
+                b'/' => {
+                    // Keep consuming bytes until new line or end of source
+                    loop {
+                        match self.next_byte() {
+                            0 | b'\n' => break,
+                            _ => {}
+                        }
+                    }
+                },
+
+                // block comment
+                b'*' => {
+                    self.bump();
+                    // Keep consuming bytes until */ happens in a row
+                    loop {
+                        match self.read_byte() {
+                            b'*' => {
+                                match self.next_byte() {
+                                    b'/' => {
+                                        self.bump();
+                                        break;
+                                    },
+                                    0 => return self.token = UnexpectedEndOfProgram,
+                                    _ => {}
+                                }
+                            },
+                            0 => return self.token = UnexpectedEndOfProgram,
+                            _ => self.bump()
+                        }
+                    }
+                },
+
+                b'=' => {
+                    self.bump();
+
+                    return self.token = OperatorDivideAssign;
+                },
+
+                _ => return self.token = OperatorDivision,
+            }
+
+            self.asi = Asi::NoSemicolon;
+
+            loop {
+                match self.read_byte() {
+                    b'/' => break,
+                    ch   => {
+                        if let Some(handler) = self.handler_from_byte(ch) {
+                            self.token_start = self.index;
+                            return handler(self);
+                        }
+
+                        self.bump();
+
+                        if ch == b'\n' {
+                            self.asi = Asi::ImplicitSemicolon;
+                        }
+                    }
+                }
+            }
+        }
+    }
+
     /// Create an `&str` slice from source spanning current token.
     #[inline]
     pub fn token_as_str(&self) -> &'arena str {
-- 
2.43.0

