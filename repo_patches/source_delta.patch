From fde9bac7585e9e401e63ec79a2ceb12d617d5a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 01/22] fix: publish a symbol's name no later than its code

get_code released the code register before it recorded the name, so another
thread could obtain a code for which get_name still returned None.
---
 src/symbols.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/symbols.rs b/src/symbols.rs
index 5d736a3..5d02256 100644
--- a/src/symbols.rs
+++ b/src/symbols.rs
@@ -70,13 +70,12 @@ pub fn get_code(name: &str) -> Result<u32, Error> {
         return Ok(*code);
     }
 
+    // The name must be known before anyone else can see the code, so the code
+    // register stays locked until both registers have been updated.
+    let mut names = get_name_register().write()?;
     let code = SYMBOL_ID.fetch_add(1, Ordering::SeqCst);
-    register.insert(name.clone(), code);
-    drop(register);
-
-    let mut register = get_name_register().write()?;
-    register.insert(code, name);
-    drop(register);
+    names.insert(code, name.clone());
+    register.insert(name, code);
 
     Ok(code)
 }
-- 
2.43.0


From c88a5b3c91af0bf7dff3429311f3b4d452a06818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 02/22] fix: tokenise operators that follow leading whitespace

An operator preceded by leading or repeated whitespace produced an empty token,
which reads as a terminator: 'A  + B' was silently cut down to 'A'.
---
 src/parser/iterator.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/iterator.rs b/src/parser/iterator.rs
index acd88f1..7942bdc 100644
--- a/src/parser/iterator.rs
+++ b/src/parser/iterator.rs
@@ -37,7 +37,7 @@ impl<'a> Iterator for TokenIterator<'a> {
             let brk = next_break(text, index);
 
             if let Break::Token(i, c) = brk {
-                if i == 0 {
+                if i == index {
                     let mut chars : Vec<char> = vec![c];
                     let mut lookahead = next_break(text, index + 1);
                     while lookahead.is_token() && lookahead.index() == index + chars.len() {
@@ -45,9 +45,9 @@ impl<'a> Iterator for TokenIterator<'a> {
                         lookahead = next_break(text, index + chars.len())
                     }
 
-                    let index_start = self.current;
-                    let index_end = self.current + chars.len();
-                    self.current += chars.len();
+                    let index_start = self.current + index;
+                    let index_end = index_start + chars.len();
+                    self.current = index_end;
 
                     return Some(Token::new(&text[index..index + chars.len()], index_start, index_end));
                 }
-- 
2.43.0


From f26556a95565a36a2be46b8303ad418e84a164ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 03/22] fix: step over multi-byte whitespace when tokenising

The tokeniser advanced one byte past any whitespace character, and panicked on
the next slice when that character was wider, as U+00A0 or U+3000 are.
---
 src/parser/iterator.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/parser/iterator.rs b/src/parser/iterator.rs
index 7942bdc..e72c652 100644
--- a/src/parser/iterator.rs
+++ b/src/parser/iterator.rs
@@ -57,8 +57,8 @@ impl<'a> Iterator for TokenIterator<'a> {
             let index_end = self.current + brk.index();
             self.current += brk.index();
 
-            if brk.is_ignore() {
-                self.current += 1;
+            if let Break::Ignore(_, c) = brk {
+                self.current += c.len_utf8();
             }
 
             if brk.is_end() {
@@ -133,11 +133,6 @@ impl Break {
         matches!(self, Break::End(_))
     }
 
-    #[inline]
-    fn is_ignore(self) -> bool {
-        matches!(self, Break::Ignore(_, _))
-    }
-
     #[inline]
     fn is_token(self) -> bool {
         matches!(self, Break::Token(_, _))
-- 
2.43.0


From f6e970d756294beef5bde39395641fde22bd9363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 04/22] fix: start a token's position at its text, not at the
 whitespace before it

---
 src/parser/iterator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/iterator.rs b/src/parser/iterator.rs
index e72c652..b853a8e 100644
--- a/src/parser/iterator.rs
+++ b/src/parser/iterator.rs
@@ -53,7 +53,7 @@ impl<'a> Iterator for TokenIterator<'a> {
                 }
             }
 
-            let index_start = self.current;
+            let index_start = self.current + index;
             let index_end = self.current + brk.index();
             self.current += brk.index();
 
-- 
2.43.0


From fadc90469261b0d86a1b1f15b8a6cba88f65dc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 05/22] fix: refuse a chance of zero with an error instead of a
 panic

try_with_chance let 0.0 through to Chance::new, which asserts that a chance is
positive: parsing 'A -> 0 B' panicked.
---
 src/productions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/productions.rs b/src/productions.rs
index 0b80a52..7d3ec6e 100644
--- a/src/productions.rs
+++ b/src/productions.rs
@@ -189,8 +189,8 @@ impl ProductionBody {
     /// Creates a new production body from the given
     /// [`ProductionString`] that can occur with the given chance.
     pub fn try_with_chance(chance: f32, string: ProductionString) -> Result<Self> {
-        if !(0.0..=1.0).contains(&chance) {
-            return Err(Error::new(ErrorKind::Parse, "chance should be between 0.0 and 1.0 inclusive"));
+        if !(chance > 0.0 && chance <= 1.0) {
+            return Err(Error::new(ErrorKind::Parse, "chance should be greater than 0.0 and at most 1.0"));
         }
 
         Ok(ProductionBody {
-- 
2.43.0


From 00a0aa46860c4d6c1e5210714c176875855c8619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 06/22] fix: accept chances that total 1.0 but for rounding

Ten bodies with a chance of 0.1 each sum to 1.0000001 in f32, and the production
was refused as having a total chance greater than 1.0.
---
 src/productions.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/productions.rs b/src/productions.rs
index 7d3ec6e..e322831 100644
--- a/src/productions.rs
+++ b/src/productions.rs
@@ -279,7 +279,8 @@ impl Production {
             return Err(Error::execution("chance should never be negative"));
         }
 
-        if total_chance > 1.0 {
+        // Summing the chances rounds, so a total of 1.0 may come out a little larger.
+        if total_chance > 1.0 + self.body.len() as f32 * f32::EPSILON {
             return Err(Error::execution("total chance of production bodies should not be greater than 1.0"));
         }
 
@@ -287,7 +288,7 @@ impl Production {
         let default_chance = if remaining == 0 {
             0_f32
         } else {
-            (1.0_f32 - total_chance) / (remaining as f32)
+            (1.0_f32 - total_chance).max(0.0) / (remaining as f32)
         };
 
         let mut current = 0_f32;
-- 
2.43.0


From 3a7d7eb5ae8289bf596bf3f9a823641a61ead084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 07/22] fix: a position outside the string matches no
 production

Matching a context at an index past the end of the string, or in the empty
string, panicked instead of returning false.
---
 src/productions.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/productions.rs b/src/productions.rs
index e322831..23f7819 100644
--- a/src/productions.rs
+++ b/src/productions.rs
@@ -140,6 +140,10 @@ impl ProductionHead {
             return left.is_empty();
         }
 
+        if index > string.len() {
+            return false;
+        }
+
         let symbols: Vec<_> = string.symbols()[0..index].iter().rev().collect();
         if symbols.len() < left.len() {
             return false;
@@ -155,6 +159,10 @@ impl ProductionHead {
 
         let right = self.post.as_ref().unwrap();
 
+        if index >= string.len() {
+            return false;
+        }
+
         if index == string.len() - 1 {
             return right.is_empty();
         }
-- 
2.43.0


From 27771fa02098b9235426cc5ffc5d85b60948d92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 08/22] fix: report an unbalanced branch end as an error

Interpreting a string with more ']' than '[' panicked, so a plant file such as
'initial: ]' crashed the lsystem tool.
---
 src/interpretation/abop.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/interpretation/abop.rs b/src/interpretation/abop.rs
index 28ecdf2..44751ba 100644
--- a/src/interpretation/abop.rs
+++ b/src/interpretation/abop.rs
@@ -119,7 +119,8 @@ impl Interpretation for AbopTurtleInterpretation {
             } else if token == push {               // interpret push tokens. This starts "a branch" of the plant.
                 pos_stack.push((pos, dir));
             } else if token == pop {                // interpret pop tokens. This ends "a branch", returning to where the branch started.
-                (pos, dir) = pos_stack.pop().expect("Nothing to pop");
+                (pos, dir) = pos_stack.pop()
+                    .ok_or_else(|| Error::execution("a branch is finished that was never started"))?;
                 if path.len() > 1 {
                     paths.push(path)
                 }
-- 
2.43.0


From 7bdc90f2bd6fecee18dbe6d89c2e803482a30b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 09/22] fix: interpret systems that lack some of the turtle's
 symbols

The turtle unwrapped the lookup of each of its symbols, and so panicked on any
system that does not define all of them, though an interpretation is documented
to handle systems other than its own.
---
 src/interpretation/abop.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/interpretation/abop.rs b/src/interpretation/abop.rs
index 44751ba..38dca66 100644
--- a/src/interpretation/abop.rs
+++ b/src/interpretation/abop.rs
@@ -82,13 +82,14 @@ impl Interpretation for AbopTurtleInterpretation {
     fn interpret<S: SymbolStore>(&self,
                                  tokens: &S,
                                  string: &ProductionString) -> crate::Result<Self::Item> {
-        // We need token values to interpret the strings.
-        let forward = tokens.get_symbol("Forward").unwrap();
-        let space = tokens.get_symbol("Move").unwrap();
-        let right = tokens.get_symbol("+").unwrap();
-        let left = tokens.get_symbol("-").unwrap();
-        let push = tokens.get_symbol("[").unwrap();
-        let pop = tokens.get_symbol("]").unwrap();
+        // We need token values to interpret the strings. A system that does not know
+        // one of these has no such instruction.
+        let forward = tokens.get_symbol("Forward");
+        let space = tokens.get_symbol("Move");
+        let right = tokens.get_symbol("+");
+        let left = tokens.get_symbol("-");
+        let push = tokens.get_symbol("[");
+        let pop = tokens.get_symbol("]");
 
         // We will interpret the tokens as instructions to a LOGO turtle. The following
         // variables keep track of the position that we're at and the direction we're facing.
@@ -106,6 +107,7 @@ impl Interpretation for AbopTurtleInterpretation {
 
         // todo indicate what productions / tokens haven't been used
         for token in string {
+            let token = Some(token);
             if token == forward {                   // interpret forward tokens.
                 pos = pos + dir;
                 path.push(pos);
-- 
2.43.0


From b5aa163db72da58af471c56b00859f1acb123802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 10/22] fix: render an SVG when there are no paths to draw

The bounds of an empty list of paths are None, which was unwrapped.
---
 src/interpretation/svg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpretation/svg.rs b/src/interpretation/svg.rs
index 78194cd..24cb300 100644
--- a/src/interpretation/svg.rs
+++ b/src/interpretation/svg.rs
@@ -90,7 +90,7 @@ impl<T> Interpretation for SvgPathInterpretation<T>
         let paths = self.initial.interpret(tokens, string)?;
         let bounds = paths.bounds();
 
-        let center = bounds.as_ref().unwrap().center();
+        let center = bounds.as_ref().map(|bounds| bounds.center()).unwrap_or_default();
         let canvas_centre = Point::new(self.width as f64 / 2.0, self.height as f64 / 2.0);
 
         let scale = bounds.as_ref()
-- 
2.43.0


From 6a5a59e7482c0d781f817bb0e461a805b58396a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 11/22] fix: do not scale a drawing that has no extent

A drawing that is a single point has no width or height to divide by, and its
SVG was given the invalid transform 'scale(inf -inf)'.
---
 src/interpretation/svg.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/interpretation/svg.rs b/src/interpretation/svg.rs
index 24cb300..206d915 100644
--- a/src/interpretation/svg.rs
+++ b/src/interpretation/svg.rs
@@ -98,6 +98,8 @@ impl<T> Interpretation for SvgPathInterpretation<T>
                 let scale_y = self.height() as f64 / bounds.height();
                 let scale_x = self.width() as f64 / bounds.width();
                 let scale = scale_x.min(scale_y);
+                // A drawing without any extent cannot be scaled to fit.
+                let scale = if scale.is_finite() { scale } else { 1.0 };
 
                 Point::new(scale, -scale)
             })
-- 
2.43.0


From 59fe03c688ed3f601965105c7bafb049ee8114e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 12/22] fix: an empty path has no bounds, as documented

It was given an inside-out box of infinities with a center of mass of NaN.
---
 src/geometry.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geometry.rs b/src/geometry.rs
index 7732e6b..a2b48d0 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -380,6 +380,10 @@ impl Bounds for Path {
     /// Returns the bounds for the path.
 
     fn bounds(&self) -> Option<BoundingBox> {
+        if self.is_empty() {
+            return None;
+        }
+
         let mut bounds = BoundingBox::initial_infinite();
 
         let mut center = Point::zero();
-- 
2.43.0


From 60f3eddfa16964e2826363b8e7c896a93a20ce02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 13/22] fix: refuse an angle that is not finite in a plant file

'delta = inf' and 'delta = nan' were accepted, and every turn then moved the
turtle to NaN coordinates.
---
 src/interpretation/abop/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/interpretation/abop/parser.rs b/src/interpretation/abop/parser.rs
index 8547d53..8880fdf 100644
--- a/src/interpretation/abop/parser.rs
+++ b/src/interpretation/abop/parser.rs
@@ -91,6 +91,9 @@ pub fn parse(string: &str) -> crate::Result<ParsedAbop> {
                 }
                 "d" | "D" | "delta" | "∂" => {
                     delta = equality.value.parse()?;
+                    if !delta.is_finite() {
+                        return Err(Error::new(ErrorKind::Parse, format!("delta should be a finite angle: {}", line)));
+                    }
                 }
                 _ => return Err(Error::new(ErrorKind::Parse, format!("Unrecognised line {}", line)))
             }
-- 
2.43.0


From 870213de7a50392352be2d8f9a099943b176078c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 14/22] fix: print file names that are not UTF-8 in verbose
 mode

lsystem --verbose panicked on them.
---
 src/bin/lsystem/derive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/lsystem/derive.rs b/src/bin/lsystem/derive.rs
index 2798540..775e98b 100644
--- a/src/bin/lsystem/derive.rs
+++ b/src/bin/lsystem/derive.rs
@@ -9,7 +9,7 @@ use crate::cli::{Cli, InterpretationArgs};
 
 pub fn handle_derive(args: &Cli, derive: &InterpretationArgs) -> ExitCode {
     if args.verbose {
-        print!("Reading {} ", derive.file.to_str().unwrap());
+        print!("Reading {} ", derive.file.display());
     }
 
     let (interpretation, system, axiom) = {
-- 
2.43.0


From d5619d73d5e8b68d5bc3959df2771102462f9ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:51 +0000
Subject: [PATCH 15/22] fix: write the SVG even if progress messages cannot be
 printed

---
 src/bin/lsystem/derive.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/bin/lsystem/derive.rs b/src/bin/lsystem/derive.rs
index 775e98b..cef112e 100644
--- a/src/bin/lsystem/derive.rs
+++ b/src/bin/lsystem/derive.rs
@@ -1,3 +1,4 @@
+use std::io::Write;
 use std::process::ExitCode;
 
 use rusty_systems::prelude::*;
@@ -9,13 +10,13 @@ use crate::cli::{Cli, InterpretationArgs};
 
 pub fn handle_derive(args: &Cli, derive: &InterpretationArgs) -> ExitCode {
     if args.verbose {
-        print!("Reading {} ", derive.file.display());
+        progress(format_args!("Reading {} ", derive.file.display()));
     }
 
     let (interpretation, system, axiom) = {
         let result = parser::parse_file(derive.file.as_ref());
         if let Err(e) = result {
-            if args.verbose { println!("❌") }
+            if args.verbose { progress(format_args!("❌\n")) }
             eprint!("\n{}: ", error_style().paint("Error"));
             eprintln!("{}", e);
             return ExitCode::FAILURE;
@@ -25,7 +26,7 @@ pub fn handle_derive(args: &Cli, derive: &InterpretationArgs) -> ExitCode {
     };
 
     if args.verbose {
-        println!("{}", green().paint("\t✔"));
+        progress(format_args!("{}\n", green().paint("\t✔")));
     }
 
     let interpretation = SvgPathInterpretation::new_with(derive.width, derive.height, interpretation);
@@ -58,8 +59,13 @@ pub fn handle_derive(args: &Cli, derive: &InterpretationArgs) -> ExitCode {
     }
 
     if args.verbose {
-        println!("Saved SVG file to {} {}", output.to_string_lossy(), green().paint("\t✔"));
+        progress(format_args!("Saved SVG file to {} {}\n", output.to_string_lossy(), green().paint("\t✔")));
     }
 
     ExitCode::SUCCESS
 }
+
+/// Tells the user how things are going. Nothing depends on whether they can be told.
+fn progress(message: std::fmt::Arguments) {
+    let _ = std::io::stdout().write_fmt(message);
+}
-- 
2.43.0


From 3a8b2703ccf09a6a5216f64a1817f3bd510a6e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:43 +0000
Subject: [PATCH 16/22] fix: list the symbols of rules with very many bodies
 without overflowing the stack

---
 src/symbols/iterator.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/symbols/iterator.rs b/src/symbols/iterator.rs
index 2c15db5..1199e94 100644
--- a/src/symbols/iterator.rs
+++ b/src/symbols/iterator.rs
@@ -52,13 +52,9 @@ impl SymbolIterable for ProductionBody {
 
 impl SymbolIterable for Production {
     fn all_symbols_iter(&self) -> impl Iterator<Item=Symbol> {
-        let mut result : Box<dyn Iterator<Item=Symbol>> = Box::new(self.head().all_symbols_iter());
+        let bodies = self.all_bodies().iter().flat_map(|body| body.all_symbols_iter());
 
-        for i in self.all_bodies() {
-            result = Box::new(result.chain(i.all_symbols_iter()));
-        }
-
-        result
+        self.head().all_symbols_iter().chain(bodies)
     }
 }
 
-- 
2.43.0


From fa11583779f3bfd7b9aa4243fe7c896563110e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:40 +0000
Subject: [PATCH 17/22] fix: judge a context without copying the rest of the
 string

Each look at a left or right context copied everything before or after the
position, so that deriving a string of n symbols took time in proportion to
n * n. Only as many symbols as the context has are needed.
---
 src/productions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/productions.rs b/src/productions.rs
index 23f7819..f3020f2 100644
--- a/src/productions.rs
+++ b/src/productions.rs
@@ -144,7 +144,7 @@ impl ProductionHead {
             return false;
         }
 
-        let symbols: Vec<_> = string.symbols()[0..index].iter().rev().collect();
+        let symbols: Vec<_> = string.symbols()[0..index].iter().rev().take(left.len()).collect();
         if symbols.len() < left.len() {
             return false;
         }
@@ -167,7 +167,7 @@ impl ProductionHead {
             return right.is_empty();
         }
 
-        let symbols = string.symbols()[index + 1 ..].to_vec();
+        let symbols = &string.symbols()[index + 1 ..];
         if symbols.len() < right.len() {
             return false;
         }
-- 
2.43.0


From adb3a9c0f79a6ada0506508fec867e2e21768929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:56 +0000
Subject: [PATCH 18/22] fix: a panicking initializer no longer poisons the
 registry of families

The initializer given to get_or_init_family runs while the registry is locked
for writing. If it panicked, every later lookup found no family, registration
failed and get_or_init_family panicked, for the rest of the process.
---
 src/system/family.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/system/family.rs b/src/system/family.rs
index 3c82c54..3ba71dd 100644
--- a/src/system/family.rs
+++ b/src/system/family.rs
@@ -1,5 +1,6 @@
 use std::collections::HashMap;
 use std::fmt::Debug;
+use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
 use std::sync::{Arc, OnceLock, RwLock};
 
 use crate::error::{Error, ErrorKind};
@@ -157,8 +158,15 @@ pub fn get_or_init_family<S, F>(name: S, default: F) -> Arc<SystemFamily>
         return value.clone();
     }
 
-    // Build, but now synchronised via the above write guard.
-    let family = default();
+    // Build, but now synchronised via the above write guard. If that panics, the
+    // guard is released first, as the registry is not to be poisoned for everyone else.
+    let family = match catch_unwind(AssertUnwindSafe(default)) {
+        Ok(family) => family,
+        Err(panic) => {
+            drop(map);
+            resume_unwind(panic)
+        }
+    };
 
     let family = Arc::new(family);
     map.insert(name.as_ref().to_string(), family.clone());
-- 
2.43.0


From 346ab0116d0f3d8c37186c2e1a20113d011cf8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:56 +0000
Subject: [PATCH 19/22] fix: escape the values of decorations in SVG attributes

A fill or stroke with a quote, an ampersand or an angle bracket made the whole
document malformed.
---
 src/interpretation/svg.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/interpretation/svg.rs b/src/interpretation/svg.rs
index 206d915..9654637 100644
--- a/src/interpretation/svg.rs
+++ b/src/interpretation/svg.rs
@@ -253,11 +253,16 @@ pub struct SvgDecorations {
     pub stroke_width: Option<f32>,
 }
 
+/// Text as it is written within an attribute's quotes.
+fn escape(text: &str) -> String {
+    text.replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;")
+}
+
 impl SvgDecorations {
     pub fn to_attr_string(&self) -> String {
         [
-            self.fill.as_ref().map(|fill| format!("fill=\"{}\"", fill)).unwrap_or_default(),
-            self.stroke.as_ref().map(|stroke| format!("stroke=\"{}\"", stroke)).unwrap_or_default(),
+            self.fill.as_ref().map(|fill| format!("fill=\"{}\"", escape(fill))).unwrap_or_default(),
+            self.stroke.as_ref().map(|stroke| format!("stroke=\"{}\"", escape(stroke))).unwrap_or_default(),
             self.stroke_width.as_ref().map(|width| format!("stroke-width=\"{}\"", width)).unwrap_or_default()
         ].join(" ")
 
-- 
2.43.0


From 8bc2499e128b100282ada10b30244762edc4f41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:56 +0000
Subject: [PATCH 20/22] fix: refuse a circle whose radius is not a number

---
 src/interpretation/svg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpretation/svg.rs b/src/interpretation/svg.rs
index 9654637..803d001 100644
--- a/src/interpretation/svg.rs
+++ b/src/interpretation/svg.rs
@@ -337,7 +337,7 @@ pub struct SvgCircle {
 
 impl SvgCircle {
     pub fn build<P: Into<Point>>(point: P, radius: f64) -> crate::Result<SvgCircle> {
-        if radius < 0.0 {
+        if radius.is_nan() || radius < 0.0 {
             return Err(Error::general("radius should be non-negative"))
         }
 
-- 
2.43.0


From 3b63c9c1eb32849adbbcdede770566c3ca3a4261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:52 +0000
Subject: [PATCH 21/22] fix: describe reports that it cannot write instead of
 panicking

---
 src/bin/lsystem/describe.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/bin/lsystem/describe.rs b/src/bin/lsystem/describe.rs
index 869cf2e..6edf34a 100644
--- a/src/bin/lsystem/describe.rs
+++ b/src/bin/lsystem/describe.rs
@@ -1,23 +1,32 @@
+use std::io::Write;
 use std::process::ExitCode;
 use rusty_systems::interpretation::abop;
 use rusty_systems::system::family::SymbolDescription;
-use crate::heading_style;
+use crate::{error_style, heading_style};
 
 
 pub fn describe() -> ExitCode {
+    if let Err(e) = write_description(&mut std::io::stdout()) {
+        eprintln!("\n{}", error_style().paint("Error"));
+        eprintln!("{}", e);
+        return ExitCode::FAILURE;
+    }
+
+    ExitCode::SUCCESS
+}
+
+fn write_description<W: Write>(out: &mut W) -> std::io::Result<()> {
     let family = abop::abop_family();
 
-    let print= |t : &SymbolDescription| {
-        print!("  {: <10}", t.name);
-        t.description.iter().for_each(|d| print!("{}", d));
-        println!();
+    let print= |out: &mut W, t : &SymbolDescription| {
+        writeln!(out, "  {: <10}{}", t.name, t.description.as_deref().unwrap_or_default())
     };
 
-    println!("{}", heading_style().paint("Terminals:"));
-    family.terminals().for_each(&print);
+    writeln!(out, "{}", heading_style().paint("Terminals:"))?;
+    family.terminals().try_for_each(|t| print(out, t))?;
 
-    println!("\n{}", heading_style().paint("Productions:"));
-    family.productions().for_each(&print);
+    writeln!(out, "\n{}", heading_style().paint("Productions:"))?;
+    family.productions().try_for_each(|t| print(out, t))?;
 
-    ExitCode::SUCCESS
+    out.flush()
 }
-- 
2.43.0


From afc931fcecd043207790d9789ccf600fe2794a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:01 +0000
Subject: [PATCH 22/22] fix: a list of paths has bounds also when all of its
 points are at infinity

---
 src/geometry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index a2b48d0..cfbc43d 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -442,7 +442,7 @@ impl Bounds for Vec<Path> {
             }
         }
 
-        if min_x.is_infinite() {
+        if len == 0.0 {
             return None
         }
 
-- 
2.43.0

