From 5cfac64b9b2ce160a1094fb0ba517613cdc039ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:43 +0000
Subject: [PATCH 01/74] fix: treat the end of the document as a boundary

Without a final newline, numbers became strings ('a: 1' => "1") and an
empty last value ('a:', '-') was not recognised.
---
 src/parser/base/grammar.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index e056d6b..bdecade 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -8,7 +8,12 @@ use core::cmp::Ordering;
 /// [`Parser::backward`] if mismatched.
 impl Parser<'_> {
     /// Match invisible boundaries and keep the gaps. (must matched once)
+    ///
+    /// The end of the document is also a boundary.
     pub fn bound(&mut self) -> PResult<()> {
+        if self.food().is_empty() {
+            return Ok(());
+        }
         self.sym_set(b":{}[] ,\n\r")?;
         self.back(1);
         self.ws(TakeOpt::More(0))
@@ -140,7 +145,7 @@ impl Parser<'_> {
                 p.forward();
                 if p.food().is_empty()
                     || p.sym_seq(b": ").is_ok()
-                    || (p.sym(b':').is_ok() && p.nl().is_ok())
+                    || (p.sym(b':').is_ok() && (p.food().is_empty() || p.nl().is_ok()))
                     || p.sym_seq(b" #").is_ok()
                 {
                     p.backward();
-- 
2.43.0


From aca413a068715b5bafbef8b3c6da55ebf777aef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:10 +0000
Subject: [PATCH 02/74] fix: plain strings no longer loop forever without
 indentation

At an indentation of zero, matching the indent consumes nothing, so a
newline or a leading bracket never advanced the cursor (e.g. dumping "a\n").
---
 src/parser/base/grammar.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index bdecade..3e4974d 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -161,21 +161,19 @@ impl Parser<'_> {
                 } else if !inner && !v.is_empty() && p.sym_set(b"{}[]").is_ok() {
                     v.push_str(&p.text());
                     is_leading = false;
-                } else if p.ind(level).is_err() {
-                    if let Ok(t) = p.gap(true) {
-                        if t == 1 {
-                            v.push(' ');
-                        }
-                        for _ in 0..t - 1 {
-                            v.push('\n');
-                        }
-                        if p.ind(level).is_err() {
-                            break;
-                        }
-                    } else {
+                } else if let Ok(t) = p.gap(true) {
+                    if t == 1 {
+                        v.push(' ');
+                    }
+                    for _ in 0..t - 1 {
+                        v.push('\n');
+                    }
+                    if p.ind(level).is_err() {
                         break;
                     }
                     is_leading = true;
+                } else {
+                    break;
                 }
             }
             v.truncate(v.trim_end().len());
-- 
2.43.0


From acb9667c3cd2ed62a89af35a90cf82f819d5ab5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 03/74] fix: report a missing closing quote instead of looping
 forever

---
 src/parser/base/grammar.rs | 2 ++
 src/parser/mod.rs          | 9 ++++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 3e4974d..dd418fa 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -123,6 +123,8 @@ impl Parser<'_> {
                     v.push('\\');
                 } else if p.sym(sym).is_ok() {
                     break;
+                } else {
+                    return p.err("quoted string terminator");
                 }
             }
             Ok(v)
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index de580ea..644cb5d 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -20,6 +20,8 @@
 //!
 //! ## Structure
 //!
+//! + quoted string terminator: The closing quote is missing.
+//!
 //! ### Flow Array
 //!
 //! + flow sequence item: Item in `[]` bracket is invalid.
@@ -280,9 +282,10 @@ impl<R: Repr> Loader<'_, R> {
             } else {
                 return self.err("anchor referenced before definition");
             }
-        } else if let Ok(s) = self.string_quoted(b'\'', b"''") {
-            R::new_rc(Yaml::Str(s))
-        } else if let Ok(s) = self.string_quoted(b'"', b"\\\"") {
+        } else if self.food().starts_with(b"'") {
+            R::new_rc(Yaml::Str(self.string_quoted(b'\'', b"''")?))
+        } else if self.food().starts_with(b"\"") {
+            let s = self.string_quoted(b'"', b"\\\"")?;
             R::new_rc(Yaml::Str(Parser::escape(&s)))
         } else if let Ok(s) = self.string_plain(level, flow) {
             R::new_rc(match s.as_str() {
-- 
2.43.0


From b02f108517be170c89f2dca66f05eeb276168584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 04/74] fix: an escaped backslash does not escape the closing
 quote

"a\\\\" ended up searching for another closing quote.
---
 src/parser/base/grammar.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index dd418fa..51c1d7b 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -121,6 +121,11 @@ impl Parser<'_> {
                     p.ws(TakeOpt::More(0))?;
                 } else if p.sym(b'\\').is_ok() {
                     v.push('\\');
+                    // An escaped backslash will not escape the next character
+                    p.forward();
+                    if sym == b'"' && p.sym(b'\\').is_ok() {
+                        v.push('\\');
+                    }
                 } else if p.sym(sym).is_ok() {
                     break;
                 } else {
-- 
2.43.0


From 1cb5fd50c8d8ec164a7d1d2cd68320e265889282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 05/74] fix: line continuation in quoted strings

The backslash of a continued line escaped the first character of the next
line, and single quoted or escaped backslashes were taken as continuation.
---
 src/parser/base/grammar.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 51c1d7b..18d0993 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -99,7 +99,10 @@ impl Parser<'_> {
                 if p.sym_seq(ignore).is_ok() {
                     v.push(char::from(sym));
                 } else if let Ok(mut t) = p.gap(false) {
-                    if v.ends_with('\\') {
+                    let escaped = v.bytes().rev().take_while(|c| *c == b'\\').count() % 2 == 1;
+                    if sym == b'"' && escaped {
+                        // Line continuation, drop the backslash
+                        v.pop();
                         t -= 1;
                     }
                     match t.cmp(&1) {
-- 
2.43.0


From ab6f91a9dbc779a1c99cbe8a648c0b41edd25f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 06/74] fix: report unclosed flow collections instead of
 returning null

The items of '[1, 2' were dropped silently.
---
 src/parser/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 644cb5d..a01852d 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -25,12 +25,14 @@
 //! ### Flow Array
 //!
 //! + flow sequence item: Item in `[]` bracket is invalid.
+//! + flow sequence terminator: The closing bracket `]` is missing.
 //!
 //! ### Flow Map
 //!
 //! + flow map key: Key of map item in `{}` bracket is invalid.
 //! + flow map value: Value of map item in `{}` bracket is invalid.
 //! + flow map splitter: Splitter `:` of map item in `{}` bracket is invalid.
+//! + flow map terminator: The closing bracket `}` is missing.
 //!
 //! ### Array
 //!
@@ -323,7 +325,9 @@ impl<R: Repr> Loader<'_, R> {
             self.inv(TakeOpt::More(0))?;
             if self.sym(b',').is_err() {
                 self.inv(TakeOpt::More(0))?;
-                self.sym(b']')?;
+                if self.sym(b']').is_err() {
+                    return self.err("flow sequence terminator");
+                }
                 break;
             }
         }
@@ -366,7 +370,9 @@ impl<R: Repr> Loader<'_, R> {
             m.push((k, v));
             if self.sym(b',').is_err() {
                 self.inv(TakeOpt::More(0))?;
-                self.sym(b'}')?;
+                if self.sym(b'}').is_err() {
+                    return self.err("flow map terminator");
+                }
                 break;
             }
         }
-- 
2.43.0


From 72609bc27b02071f23666f1844d687f18870abe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 07/74] fix: report a complex key without value instead of
 dropping it

'k:\n  ? a\nb: 1' was parsed into {k: null, b: 1}.
---
 src/parser/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index a01852d..9e32bf4 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -351,8 +351,8 @@ impl<R: Repr> Loader<'_, R> {
                 let k = self
                     .scalar(level + 1, false, true)
                     .or_else(|e| e.or(|| self.err("flow map key")))?;
-                if self.gap(true).is_ok() {
-                    self.ind(level)?;
+                if self.gap(true).is_ok() && self.ind(level).is_err() {
+                    return self.err("flow map splitter");
                 }
                 k
             } else {
@@ -439,8 +439,8 @@ impl<R: Repr> Loader<'_, R> {
                     let k = self
                         .scalar(level + 1, true, flow)
                         .or_else(|e| e.or(|| self.err("map key")))?;
-                    if self.gap(true).is_ok() {
-                        self.ind(level)?;
+                    if self.gap(true).is_ok() && self.ind(level).is_err() {
+                        return self.err("map splitter");
                     }
                     k
                 } else {
@@ -464,8 +464,8 @@ impl<R: Repr> Loader<'_, R> {
                     let k = self
                         .scalar(level + 1, true, flow)
                         .or_else(|e| e.or(|| self.err("map key")))?;
-                    if self.gap(true).is_ok() {
-                        self.ind(level)?;
+                    if self.gap(true).is_ok() && self.ind(level).is_err() {
+                        return self.err("map splitter");
                     }
                     k
                 } else {
-- 
2.43.0


From 759d0e288a9d1a13e8c464a1fc4d5b520759ee08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:34 +0000
Subject: [PATCH 08/74] fix: report undefined tag handles instead of panicking

---
 src/parser/base/grammar.rs | 5 ++++-
 src/parser/mod.rs          | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 18d0993..9ef7337 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -308,7 +308,10 @@ impl Parser<'_> {
             let prefix = if !tag.is_empty() {
                 if p.sym(b'!').is_ok() {
                     // Tag prefix variable
-                    p.tag[&tag].clone()
+                    match p.tag.get(&tag) {
+                        Some(prefix) => prefix.clone(),
+                        None => return p.err("tag handle"),
+                    }
                 } else {
                     String::new()
                 }
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 9e32bf4..f9fecea 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -17,6 +17,7 @@
 //! + document splitter: Error about the document splitter `---` / `...`.
 //! + checked version: Version directive `%YAML 1.2` is used again.
 //! + version: Version directive is wrong, must be `1.2`.
+//! + tag handle: Tag handle is not defined by the `%TAG` directive.
 //!
 //! ## Structure
 //!
@@ -238,7 +239,7 @@ impl<R: Repr> Loader<'_, R> {
             self.bound()?;
         }
         self.forward();
-        let tag = self.tag().unwrap_or_default();
+        let tag = self.tag().or_else(|e| e.or(|| Ok(String::new())))?;
         if !tag.is_empty() {
             self.bound()?;
         }
-- 
2.43.0


From 322aca4f7d825b6f617aef637d58a279efca1d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 09/74] fix: sub-parsers restore the cursor when mismatched

---
 src/parser/base/grammar.rs | 10 +++++-----
 src/parser/base/mod.rs     | 12 ++++++++++++
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 9ef7337..16e763b 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -145,7 +145,7 @@ impl Parser<'_> {
         if inner {
             patt.push(b',');
         }
-        self.context(|p| {
+        self.attempt(|p| {
             let mut v = String::new();
             let mut is_leading = false;
             loop {
@@ -228,7 +228,7 @@ impl Parser<'_> {
 
     /// Match wrapped string.
     pub fn string_wrapped(&mut self, level: usize, sep: u8, leading: bool) -> PResult<String> {
-        self.context(|p| {
+        self.attempt(|p| {
             let mut v = String::new();
             loop {
                 p.nl()?;
@@ -302,7 +302,7 @@ impl Parser<'_> {
     /// Match tags.
     pub fn tag(&mut self) -> PResult<String> {
         self.sym(b'!')?;
-        self.context(|p| {
+        self.attempt(|p| {
             p.identifier().unwrap_or_default();
             let tag = p.text();
             let prefix = if !tag.is_empty() {
@@ -342,7 +342,7 @@ impl Parser<'_> {
     /// Match anchor definition.
     pub fn anchor(&mut self) -> PResult<String> {
         self.sym(b'&')?;
-        self.context(|p| {
+        self.attempt(|p| {
             p.identifier()?;
             Ok(p.text())
         })
@@ -351,7 +351,7 @@ impl Parser<'_> {
     /// Match anchor used.
     pub fn anchor_use(&mut self) -> PResult<String> {
         self.sym(b'*')?;
-        self.context(|p| {
+        self.attempt(|p| {
             p.identifier()?;
             Ok(p.text())
         })
diff --git a/src/parser/base/mod.rs b/src/parser/base/mod.rs
index ba4a63d..d8c99b8 100644
--- a/src/parser/base/mod.rs
+++ b/src/parser/base/mod.rs
@@ -209,6 +209,18 @@ impl Parser<'_> {
         r
     }
 
+    /// Same as [`Parser::context`], but move back if mismatched.
+    fn attempt<F, R>(&mut self, f: F) -> PResult<R>
+    where
+        F: FnOnce(&mut Self) -> PResult<R>,
+    {
+        let r = self.context(f);
+        if let Err(PError::Mismatch) = r {
+            self.backward();
+        }
+        r
+    }
+
     /// A SET detector.
     pub fn is_in(s: &[u8]) -> impl Fn(&u8) -> bool + '_ {
         move |c| !Self::not_in(s)(c)
-- 
2.43.0


From 8e9fbcb4ff57f6f00e15fba16d8cfff7e1a3e1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 10/74] fix: digits of hexadecimal and octal integers

---
 src/parser/base/grammar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 16e763b..05e327a 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -52,8 +52,8 @@ impl Parser<'_> {
         self.take_while(Self::ascii_digit(16), TakeOpt::More(1))
     }
 
-    fn ascii_digit(i: u8) -> impl Fn(&u8) -> bool + 'static {
-        move |c| c.is_ascii_digit() || (*c > b'a' && *c < b'a' + i) || (*c > b'A' && *c < b'A' + i)
+    fn ascii_digit(radix: u32) -> impl Fn(&u8) -> bool + 'static {
+        move |c| char::from(*c).is_digit(radix)
     }
 
     /// Match float.
-- 
2.43.0


From b5911435e544f78f774b603587079469980b453f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 11/74] fix: a number must be the entire scalar

---
 src/parser/base/grammar.rs | 26 +++++++++++++++++++++++++-
 src/parser/mod.rs          |  6 +++---
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 05e327a..d040605 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -37,11 +37,35 @@ impl Parser<'_> {
         if s.as_bytes() == b"0" && self.context(|p| p.octal().is_ok() || p.hexadecimal().is_ok()) {
             s = self.text();
         }
-        self.ws(TakeOpt::More(0))?;
+        if self.count(|p| p.ws(TakeOpt::More(0)))? > 0 {
+            self.back(1);
+        }
         self.bound()?;
         Ok(s)
     }
 
+    /// Match a number that is the entire scalar.
+    pub(crate) fn number<F>(&mut self, flow: bool, f: F) -> PResult<String>
+    where
+        F: FnOnce(&mut Self) -> PResult<String>,
+    {
+        let s = f(self)?;
+        let pos = self.pos;
+        let end = self.context(|p| {
+            p.food().is_empty()
+                || p.sym_set(b"\n\r#").is_ok()
+                || (flow && p.sym_set(b":,[]{}").is_ok())
+                || (p.sym(b':').is_ok() && p.bound().is_ok())
+        });
+        if end {
+            self.pos = pos;
+            Ok(s)
+        } else {
+            self.backward();
+            Err(PError::Mismatch)
+        }
+    }
+
     fn octal(&mut self) -> PResult<()> {
         self.sym(b'o')?;
         self.take_while(Self::ascii_digit(8), TakeOpt::More(1))
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index f9fecea..7e545f6 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -271,11 +271,11 @@ impl<R: Repr> Loader<'_, R> {
 
     /// Match flow scalar terminal.
     pub fn scalar_term(&mut self, level: usize, flow: bool) -> PResult<R::Rc> {
-        let yaml = if let Ok(s) = self.float() {
+        let yaml = if let Ok(s) = self.number(flow, Parser::float) {
             R::new_rc(Yaml::Float(s))
-        } else if let Ok(s) = self.sci_float() {
+        } else if let Ok(s) = self.number(flow, Parser::sci_float) {
             R::new_rc(Yaml::Float(s))
-        } else if let Ok(s) = self.int() {
+        } else if let Ok(s) = self.number(flow, Parser::int) {
             R::new_rc(Yaml::Int(s))
         } else if let Ok(s) = self.anchor_use() {
             if self.cyclic_mode {
-- 
2.43.0


From 21578c0299d1773283b50d275bee13ce8d6ba973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 12/74] fix: fraction of the scientific notation

---
 src/parser/base/grammar.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index d040605..9456684 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -96,6 +96,9 @@ impl Parser<'_> {
     /// Match float with scientific notation.
     pub fn sci_float(&mut self) -> PResult<String> {
         self.num_prefix()?;
+        if self.context(|p| p.sym(b'.').is_ok()) {
+            self.take_while(u8::is_ascii_digit, TakeOpt::More(0))?;
+        }
         self.sym_set(b"eE")?;
         self.take_while(Self::is_in(b"+-"), TakeOpt::Range(0, 1))?;
         self.take_while(u8::is_ascii_digit, TakeOpt::More(1))?;
-- 
2.43.0


From 22d3e0fb5326282cb658b0037ac33128d78645da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 13/74] fix: allow newline before the comma of flow maps

---
 src/parser/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 7e545f6..c9ea7aa 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -369,6 +369,7 @@ impl<R: Repr> Loader<'_, R> {
                 .scalar(level + 1, false, true)
                 .or_else(|e| e.or(|| self.err("flow map value")))?;
             m.push((k, v));
+            self.inv(TakeOpt::More(0))?;
             if self.sym(b',').is_err() {
                 self.inv(TakeOpt::More(0))?;
                 if self.sym(b'}').is_err() {
-- 
2.43.0


From f98d8d5ba9786945e4e1cd2d04b1ddee39e25359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 14/74] fix: comparison and hash of the numbers

---
 src/yaml.rs | 51 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/src/yaml.rs b/src/yaml.rs
index 9faffee..e9706d8 100644
--- a/src/yaml.rs
+++ b/src/yaml.rs
@@ -40,10 +40,20 @@ pub type Seq<R> = Vec<Node<R>>;
 pub type Map<R> = LinkedHashMap<Node<R>, Node<R>>;
 
 pub(crate) fn to_i64(s: &str) -> Result<i64, core::num::ParseIntError> {
-    if s.contains("0x") {
-        i64::from_str_radix(&s.replace("0x", ""), 16)
-    } else if s.contains("0o") {
-        i64::from_str_radix(&s.replace("0o", ""), 8)
+    if let Some(s) = s.strip_prefix("0x") {
+        i64::from_str_radix(s, 16)
+    } else if let Some(s) = s.strip_prefix("0o") {
+        i64::from_str_radix(s, 8)
+    } else {
+        s.parse()
+    }
+}
+
+pub(crate) fn to_i128(s: &str) -> Result<i128, core::num::ParseIntError> {
+    if let Some(s) = s.strip_prefix("0x") {
+        i128::from_str_radix(s, 16)
+    } else if let Some(s) = s.strip_prefix("0o") {
+        i128::from_str_radix(s, 8)
     } else {
         s.parse()
     }
@@ -53,6 +63,23 @@ pub(crate) fn to_f64(s: &str) -> Result<f64, core::num::ParseFloatError> {
     s.parse()
 }
 
+/// The identity of an integer, which is the text if it is not representable.
+fn int_key(s: &str) -> Result<i128, &str> {
+    to_i128(s).map_err(|_| s)
+}
+
+/// The identity of a float, which is the text if it is not representable.
+///
+/// All NaN are the same, and so are the zeros.
+fn float_key(s: &str) -> Result<u64, &str> {
+    match to_f64(s) {
+        Ok(n) if n.is_nan() => Ok(f64::NAN.to_bits()),
+        Ok(n) if n == 0. => Ok(0),
+        Ok(n) => Ok(n.to_bits()),
+        Err(_) => Err(s),
+    }
+}
+
 /// YAML data types, but it is recommended to use [`Node`] for shorten code.
 ///
 /// This type can convert from primitive types by `From` and `Into` traits.
@@ -139,11 +166,11 @@ impl<R: Repr> Hash for Yaml<R> {
             }
             Self::Int(s) => {
                 state.write_u8(3);
-                s.hash(state)
+                int_key(s).hash(state)
             }
             Self::Float(s) => {
                 state.write_u8(4);
-                s.hash(state)
+                float_key(s).hash(state)
             }
             Self::Str(s) => {
                 state.write_u8(5);
@@ -170,16 +197,8 @@ impl<R: Repr> PartialEq for Yaml<R> {
         match (self, other) {
             (Self::Null, Self::Null) => true,
             (Self::Bool(b1), Self::Bool(b2)) => b1 == b2,
-            (Self::Int(s1), Self::Int(s2)) => to_i64(s1).unwrap() == to_i64(s2).unwrap(),
-            (Self::Float(s1), Self::Float(s2)) => {
-                let f1 = to_f64(s1).unwrap();
-                let f2 = to_f64(s2).unwrap();
-                if f1.is_nan() && f2.is_nan() {
-                    true
-                } else {
-                    f1 == f2
-                }
-            }
+            (Self::Int(s1), Self::Int(s2)) => int_key(s1) == int_key(s2),
+            (Self::Float(s1), Self::Float(s2)) => float_key(s1) == float_key(s2),
             (Self::Str(s1), Self::Str(s2)) => s1 == s2,
             (Self::Seq(s1), Self::Seq(s2)) => s1 == s2,
             (Self::Map(m1), Self::Map(m2)) => m1 == m2,
-- 
2.43.0


From a3e978a523576aa5e4975fe3c228dadd51976a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 15/74] fix: range check of the integers in serde

---
 src/serde/de.rs       | 110 ++++++++++++++++++++++++++++++++++--------
 src/serde/ser_node.rs |  21 ++++++--
 2 files changed, 108 insertions(+), 23 deletions(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index eb20941..823f187 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -2,7 +2,7 @@ use super::SerdeError;
 use crate::{
     parse,
     repr::{RcRepr, Repr},
-    to_f64, to_i64, Map, Node, Seq, Yaml,
+    to_f64, to_i128, to_i64, Map, Node, Seq, Yaml,
 };
 use alloc::{format, string::ToString, vec::Vec};
 use core::marker::PhantomData;
@@ -41,6 +41,23 @@ macro_rules! impl_deserializer {
     };
 }
 
+macro_rules! impl_int_deserializer {
+    ($(fn $method:ident => $visit:ident)+) => {
+        $(fn $method<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+        where
+            V: Visitor<'a>,
+        {
+            match self.yaml() {
+                Yaml::Int(n) => match to_int(n) {
+                    Some(n) => visitor.$visit(n),
+                    None => Err(out_of_range(&self, n, visitor)),
+                },
+                _ => Err(unexpected(&self, visitor)),
+            }
+        })+
+    };
+}
+
 /// Parse the document and deserialize nodes to a specific type.
 ///
 /// Since the document can be split into multiple parts,
@@ -90,6 +107,8 @@ impl<'a, R: Repr> Visitor<'a> for NodeVisitor<R> {
         fn visit_bool(bool)
         fn visit_i64(i64)
         fn visit_u64(u64)
+        fn visit_i128(i128)
+        fn visit_u128(u128)
         fn visit_f64(f64)
         fn visit_str(&str)
         fn visit_none
@@ -279,8 +298,23 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         match self.yaml() {
             Yaml::Null => visitor.visit_unit(),
             Yaml::Bool(b) => visitor.visit_bool(*b),
-            Yaml::Int(n) => visitor.visit_i64(to_i64(n).unwrap()),
-            Yaml::Float(n) => visitor.visit_f64(to_f64(n).unwrap()),
+            Yaml::Int(n) => {
+                if let Some(n) = to_int(n) {
+                    visitor.visit_i64(n)
+                } else if let Some(n) = to_int(n) {
+                    visitor.visit_u64(n)
+                } else if let Some(n) = to_int(n) {
+                    visitor.visit_i128(n)
+                } else if let Some(n) = to_int(n) {
+                    visitor.visit_u128(n)
+                } else {
+                    Err(out_of_range(&self, n, visitor))
+                }
+            }
+            Yaml::Float(n) => match to_f64(n) {
+                Ok(n) => visitor.visit_f64(n),
+                Err(_) => Err(unexpected(&self, visitor)),
+            },
             Yaml::Str(s) => visitor.visit_str(s),
             Yaml::Seq(v) => visitor.visit_seq(SeqVisitor::from(v.clone())),
             Yaml::Map(m) => visitor.visit_map(MapVisitor::from(m.clone())),
@@ -290,23 +324,26 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
 
     impl_deserializer! {
         fn deserialize_bool(Bool) => visit_bool(v => *v)
-        fn deserialize_i8(Int) => visit_i8(n => to_i64(n).unwrap() as i8)
-        fn deserialize_i16(Int) => visit_i16(n => to_i64(n).unwrap() as i16)
-        fn deserialize_i32(Int) => visit_i32(n => to_i64(n).unwrap() as i32)
-        fn deserialize_i64(Int) => visit_i64(n => to_i64(n).unwrap())
-        fn deserialize_u8(Int) => visit_u8(n => to_i64(n).unwrap() as u8)
-        fn deserialize_u16(Int) => visit_u16(n => to_i64(n).unwrap() as u16)
-        fn deserialize_u32(Int) => visit_u32(n => to_i64(n).unwrap() as u32)
-        fn deserialize_u64(Int) => visit_u64(n => to_i64(n).unwrap() as u64)
         fn deserialize_seq(Seq) => visit_seq(a => SeqVisitor::from(a.clone()))
         fn deserialize_map(Map) => visit_map(m => MapVisitor::from(m.clone()))
         fn deserialize_identifier(Str) => visit_str(s => s)
     }
 
+    impl_int_deserializer! {
+        fn deserialize_i8 => visit_i8
+        fn deserialize_i16 => visit_i16
+        fn deserialize_i32 => visit_i32
+        fn deserialize_i64 => visit_i64
+        fn deserialize_u8 => visit_u8
+        fn deserialize_u16 => visit_u16
+        fn deserialize_u32 => visit_u32
+        fn deserialize_u64 => visit_u64
+    }
+
     serde_if_integer128! {
-        impl_deserializer! {
-            fn deserialize_i128(Int) => visit_i128(n => to_i64(n).unwrap() as i128)
-            fn deserialize_u128(Int) => visit_u128(n => to_i64(n).unwrap() as u128)
+        impl_int_deserializer! {
+            fn deserialize_i128 => visit_i128
+            fn deserialize_u128 => visit_u128
         }
     }
 
@@ -343,8 +380,10 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         V: Visitor<'a>,
     {
         match self.yaml() {
-            Yaml::Float(n) => visitor.visit_f32(to_f64(n).unwrap() as f32),
-            Yaml::Int(n) => visitor.visit_f32(to_i64(n).unwrap() as f32),
+            Yaml::Int(n) | Yaml::Float(n) => match to_float(n) {
+                Some(n) => visitor.visit_f32(n as f32),
+                None => Err(unexpected(&self, visitor)),
+            },
             _ => Err(unexpected(&self, visitor)),
         }
     }
@@ -354,8 +393,10 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         V: Visitor<'a>,
     {
         match self.yaml() {
-            Yaml::Float(n) => visitor.visit_f64(to_f64(n).unwrap()),
-            Yaml::Int(n) => visitor.visit_f64(to_i64(n).unwrap() as f64),
+            Yaml::Int(n) | Yaml::Float(n) => match to_float(n) {
+                Some(n) => visitor.visit_f64(n),
+                None => Err(unexpected(&self, visitor)),
+            },
             _ => Err(unexpected(&self, visitor)),
         }
     }
@@ -513,13 +554,42 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
     }
 }
 
+fn to_int<T>(s: &str) -> Option<T>
+where
+    T: TryFrom<i128> + TryFrom<u128>,
+{
+    match to_i128(s) {
+        Ok(n) => n.try_into().ok(),
+        Err(_) => s.parse::<u128>().ok().and_then(|n| n.try_into().ok()),
+    }
+}
+
+fn to_float(s: &str) -> Option<f64> {
+    match to_i128(s) {
+        Ok(n) => Some(n as f64),
+        Err(_) => to_f64(s).ok(),
+    }
+}
+
+#[cold]
+fn out_of_range<R: Repr>(node: &Node<R>, n: &str, exp: impl Expected) -> SerdeError {
+    let n = format!("integer `{n}`");
+    SerdeError::invalid_value(Unexpected::Other(&n), &exp).pos(node.pos())
+}
+
 #[cold]
 fn unexpected<R: Repr>(node: &Node<R>, exp: impl Expected) -> SerdeError {
     let ty = match node.yaml() {
         Yaml::Null => Unexpected::Unit,
         Yaml::Bool(b) => Unexpected::Bool(*b),
-        Yaml::Int(n) => Unexpected::Signed(to_i64(n).unwrap()),
-        Yaml::Float(n) => Unexpected::Float(to_f64(n).unwrap()),
+        Yaml::Int(n) => match to_i64(n) {
+            Ok(n) => Unexpected::Signed(n),
+            Err(_) => Unexpected::Other("integer"),
+        },
+        Yaml::Float(n) => match to_f64(n) {
+            Ok(n) => Unexpected::Float(n),
+            Err(_) => Unexpected::Other("float"),
+        },
         Yaml::Str(s) => Unexpected::Str(s),
         Yaml::Seq(_) => Unexpected::Seq,
         Yaml::Map(_) => Unexpected::Map,
diff --git a/src/serde/ser_node.rs b/src/serde/ser_node.rs
index af2255f..3cf2809 100644
--- a/src/serde/ser_node.rs
+++ b/src/serde/ser_node.rs
@@ -1,4 +1,4 @@
-use crate::{repr::Repr, to_f64, to_i64, Node, Yaml};
+use crate::{repr::Repr, to_f64, to_i128, to_i64, Node, Yaml};
 use alloc::format;
 use serde::{
     ser::{Error as _, SerializeMap as _},
@@ -13,8 +13,23 @@ impl<R: Repr> Serialize for Node<R> {
         match self.yaml() {
             Yaml::Null => serializer.serialize_unit(),
             Yaml::Bool(b) => serializer.serialize_bool(*b),
-            Yaml::Int(n) => serializer.serialize_i64(to_i64(n).unwrap()),
-            Yaml::Float(n) => serializer.serialize_f64(to_f64(n).unwrap()),
+            Yaml::Int(n) => {
+                if let Ok(n) = to_i64(n) {
+                    serializer.serialize_i64(n)
+                } else if let Ok(n) = n.parse() {
+                    serializer.serialize_u64(n)
+                } else if let Ok(n) = to_i128(n) {
+                    serializer.serialize_i128(n)
+                } else if let Ok(n) = n.parse() {
+                    serializer.serialize_u128(n)
+                } else {
+                    Err(S::Error::custom(format!("integer {n} is out of range")))
+                }
+            }
+            Yaml::Float(n) => match to_f64(n) {
+                Ok(n) => serializer.serialize_f64(n),
+                Err(e) => Err(S::Error::custom(e)),
+            },
             Yaml::Str(s) => serializer.serialize_str(s),
             Yaml::Seq(v) => v.serialize(serializer),
             Yaml::Map(m) => {
-- 
2.43.0


From e5bc97e3c93734d8017bcf988c0d25506cfb0011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 16/74] fix: deserialize non-ASCII characters

---
 src/serde/de.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index 823f187..91afe67 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -407,10 +407,10 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
     {
         match self.yaml() {
             Yaml::Str(s) => {
-                if s.len() == 1 {
-                    visitor.visit_char(s.chars().next().unwrap())
-                } else {
-                    Err(unexpected(&self, visitor))
+                let mut chars = s.chars();
+                match (chars.next(), chars.next()) {
+                    (Some(c), None) => visitor.visit_char(c),
+                    _ => Err(unexpected(&self, visitor)),
                 }
             }
             Yaml::Int(n) => {
-- 
2.43.0


From 70669ae4f6e66ea68bf5c1a1092def34fb46b2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 17/74] fix: error position of the missing variant content

---
 src/serde/de.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index 91afe67..04a558b 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -212,12 +212,19 @@ impl<'a, R: Repr> EnumAccess<'a> for EnumVisitor<R> {
     where
         V: DeserializeSeed<'a>,
     {
-        let visitor = VariantVisitor(self.1);
+        let visitor = VariantVisitor(self.1, self.0.pos());
         seed.deserialize(self.0).map(|v| (v, visitor))
     }
 }
 
-struct VariantVisitor<R: Repr>(Option<Node<R>>);
+struct VariantVisitor<R: Repr>(Option<Node<R>>, u64);
+
+impl<R: Repr> VariantVisitor<R> {
+    #[cold]
+    fn missing(&self, exp: &str) -> SerdeError {
+        SerdeError::invalid_type(Unexpected::UnitVariant, &exp).pos(self.1)
+    }
+}
 
 impl<'a, R: Repr> VariantAccess<'a> for VariantVisitor<R> {
     type Error = SerdeError;
@@ -235,10 +242,7 @@ impl<'a, R: Repr> VariantAccess<'a> for VariantVisitor<R> {
     {
         match self.0 {
             Some(v) => seed.deserialize(v),
-            None => Err(Error::invalid_type(
-                Unexpected::UnitVariant,
-                &"new type variant",
-            )),
+            None => Err(self.missing("new type variant")),
         }
     }
 
@@ -251,10 +255,7 @@ impl<'a, R: Repr> VariantAccess<'a> for VariantVisitor<R> {
                 Yaml::Seq(v) => visitor.visit_seq(SeqVisitor::from(v.clone())),
                 _ => Err(unexpected(&node, "tuple variant")),
             },
-            None => Err(Error::invalid_type(
-                Unexpected::TupleVariant,
-                &"tuple variant",
-            )),
+            None => Err(self.missing("tuple variant")),
         }
     }
 
@@ -271,10 +272,7 @@ impl<'a, R: Repr> VariantAccess<'a> for VariantVisitor<R> {
                 Yaml::Map(m) => visitor.visit_map(MapVisitor::from(m.clone())),
                 _ => Err(unexpected(&node, "struct variant")),
             },
-            None => Err(Error::invalid_type(
-                Unexpected::UnitVariant,
-                &"struct variant",
-            )),
+            None => Err(self.missing("struct variant")),
         }
     }
 }
-- 
2.43.0


From 6041157ffc2012173bcdb830f45f3ddcc542956b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 18/74] fix: line breaks, indentation and end of the block
 scalars

---
 src/parser/base/grammar.rs | 121 +++++++++++++++++++++++++++----------
 1 file changed, 88 insertions(+), 33 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 9456684..3422ad3 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -224,76 +224,131 @@ impl Parser<'_> {
 
     /// Match literal string.
     pub fn string_literal(&mut self, level: usize) -> PResult<String> {
-        self.sym(b'|')?;
-        let chomp = self.chomp();
-        self.ws(TakeOpt::More(0))?;
-        let s = self.string_wrapped(level, b'\n', true)?;
-        Ok(chomp(s))
+        self.attempt(|p| {
+            p.sym(b'|')?;
+            let chomp = p.chomp();
+            p.context(|p| p.comment().unwrap_or_default());
+            p.ws(TakeOpt::More(0))?;
+            let s = p.string_wrapped(level, b'\n', true)?;
+            Ok(chomp(s))
+        })
     }
 
     /// Match folded string.
     pub fn string_folded(&mut self, level: usize) -> PResult<String> {
-        self.sym(b'>')?;
-        let chomp = self.chomp();
-        self.ws(TakeOpt::More(0))?;
-        let s = self.string_wrapped(level, b' ', false)?;
-        Ok(chomp(s))
+        self.attempt(|p| {
+            p.sym(b'>')?;
+            let chomp = p.chomp();
+            p.context(|p| p.comment().unwrap_or_default());
+            p.ws(TakeOpt::More(0))?;
+            let s = p.string_wrapped(level, b' ', false)?;
+            Ok(chomp(s))
+        })
     }
 
     /// Match string chomping option.
     pub fn chomp(&mut self) -> impl Fn(String) -> String {
         self.context(|p| {
             if p.sym(b'-').is_ok() {
-                |s: String| s.trim_end().to_string()
+                |s: String| s.trim_end_matches('\n').to_string()
             } else if p.sym(b'+').is_ok() {
                 |s| s
             } else {
-                |s: String| s.trim_end().to_string() + "\n"
+                |s: String| match s.trim_end_matches('\n') {
+                    "" => String::new(),
+                    s => s.to_string() + "\n",
+                }
             }
         })
     }
 
     /// Match wrapped string.
+    ///
+    /// The indentation is decided by the first line of the content.
     pub fn string_wrapped(&mut self, level: usize, sep: u8, leading: bool) -> PResult<String> {
         self.attempt(|p| {
             let mut v = String::new();
-            loop {
+            // Line breaks after the last text
+            let mut t = 0;
+            let mut size = None;
+            if !p.food().is_empty() {
                 p.nl()?;
-                p.forward();
-                if p.ind(level).is_err() {
-                    if let Ok(t) = p.gap(false) {
-                        for _ in 0..t {
-                            v.push('\n');
-                        }
-                        if p.ind(level).is_err() {
-                            break;
-                        }
-                    } else {
-                        break;
+                p.backward();
+            }
+            loop {
+                let end = p.pos;
+                // Blank lines, the end of the document is also a line break
+                let mut has_nl = false;
+                while p.nl().is_ok() {
+                    has_nl = true;
+                    t += 1;
+                    p.forward();
+                    p.ws(TakeOpt::More(0))?;
+                }
+                if p.food().is_empty() {
+                    if !has_nl {
+                        t += 1;
                     }
+                    p.pos = end;
+                    break;
                 }
+                p.backward();
+                let is_ind = match size {
+                    None if level == 0 || p.ind(level - 1).is_ok() => {
+                        let n = p.count(|p| p.take_while(|c| *c == b' ', TakeOpt::More(0)))?;
+                        size = Some(n);
+                        n > 0 || level == 0
+                    }
+                    Some(n) => {
+                        (level == 0 || p.ind(level - 1).is_ok())
+                            && (0..n).all(|_| p.sym(b' ').is_ok())
+                    }
+                    None => false,
+                };
                 p.forward();
+                if !is_ind || (size == Some(0) && p.doc_marker()) {
+                    p.pos = end;
+                    break;
+                }
                 p.take_while(Self::not_in(b"\n\r"), TakeOpt::More(0))?;
                 let s = p.text();
-                if leading {
-                    if !v.is_empty() {
-                        v.push(char::from(sep));
+                let is_first = v.is_empty();
+                if is_first || !leading {
+                    for _ in 0..t - 1 {
+                        v.push('\n');
+                    }
+                } else {
+                    for _ in 0..t {
+                        v.push('\n');
                     }
+                }
+                if leading {
                     v.push_str(&s);
                 } else {
-                    let s = s.trim_start();
-                    if !v.is_empty() && !v.ends_with(char::is_whitespace) {
+                    if !is_first && !v.ends_with(char::is_whitespace) {
                         v.push(char::from(sep));
                     }
-                    v.push_str(s);
+                    v.push_str(s.trim_start());
                 }
+                t = 0;
+            }
+            if v.is_empty() {
+                t -= 1;
+            }
+            for _ in 0..t {
+                v.push('\n');
             }
-            // Keep the last wrap
-            p.back(1);
-            Ok(v + "\n")
+            Ok(v)
         })
     }
 
+    /// Detect the document markers at the current position.
+    fn doc_marker(&self) -> bool {
+        let doc = self.food();
+        (doc.starts_with(b"---") || doc.starts_with(b"..."))
+            && doc.get(3).map_or(true, u8::is_ascii_whitespace)
+    }
+
     /// Match an escaped string, return unescaped string.
     pub fn escape(doc: &str) -> String {
         let mut s = String::new();
-- 
2.43.0


From 17f72f173fa4cbd4b65ebaca2453ccd6963ec534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 19/74] fix: comment or blank at the end of the document

---
 src/parser/base/grammar.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 3422ad3..72d7f57 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -496,7 +496,10 @@ impl Parser<'_> {
                     p.comment().unwrap_or_default();
                 }
                 if p.nl().is_err() {
-                    p.backward();
+                    // Nothing is left behind the last line
+                    if !p.food().is_empty() {
+                        p.backward();
+                    }
                     return Ok(t);
                 }
                 t += 1;
-- 
2.43.0


From cb59ea117fb9cfa569bd212b14d34b346f416b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 20/74] fix: trailing spaces and blank lines with spaces

---
 src/parser/base/grammar.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 72d7f57..5457b51 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -483,17 +483,21 @@ impl Parser<'_> {
     /// Set `cmt` to `true` to ignore comments at the line end.
     pub fn gap(&mut self, cmt: bool) -> PResult<usize> {
         self.context(|p| {
+            p.ws(TakeOpt::More(0))?;
             if cmt {
-                p.comment().unwrap_or_default();
+                p.context(|p| p.comment().unwrap_or_default());
+            }
+            if let Err(e) = p.nl() {
+                p.backward();
+                return Err(e);
             }
-            p.nl()?;
             let mut t = 1;
             loop {
                 // Check point
                 p.forward();
                 p.ws(TakeOpt::More(0))?;
                 if cmt {
-                    p.comment().unwrap_or_default();
+                    p.context(|p| p.comment().unwrap_or_default());
                 }
                 if p.nl().is_err() {
                     // Nothing is left behind the last line
-- 
2.43.0


From 0e5ad7d8b066fd9d049bc84f28cb368323d1cf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 21/74] fix: empty documents, document markers and gaps behind
 the markers

---
 src/parser/base/grammar.rs |  2 +-
 src/parser/mod.rs          | 46 +++++++++++++++++++++++++-------------
 2 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 5457b51..6b7462a 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -343,7 +343,7 @@ impl Parser<'_> {
     }
 
     /// Detect the document markers at the current position.
-    fn doc_marker(&self) -> bool {
+    pub(crate) fn doc_marker(&self) -> bool {
         let doc = self.food();
         (doc.starts_with(b"---") || doc.starts_with(b"..."))
             && doc.get(3).map_or(true, u8::is_ascii_whitespace)
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index c9ea7aa..86c5c0a 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -167,14 +167,16 @@ impl<R: Repr> Loader<'_, R> {
             }
         }
         self.gap(true).unwrap_or_default();
-        self.sym_seq(b"---").unwrap_or_default();
+        if self.doc_marker() {
+            self.sym_seq(b"---").unwrap_or_default();
+        }
         let mut v = vec![self.doc()?];
         loop {
             self.gap(true).unwrap_or_default();
-            if self.food().is_empty() {
+            if self.eof() {
                 break;
             }
-            if self.sym_seq(b"---").is_err() {
+            if !self.doc_marker() || self.sym_seq(b"---").is_err() {
                 return self.err("document splitter");
             }
             v.push(self.doc()?);
@@ -187,27 +189,39 @@ impl<R: Repr> Loader<'_, R> {
         self.context(|p| p.bound().unwrap_or_default());
         self.forward();
         self.anchors.push(Anchors::new());
-        let ret = self.scalar(0, false, false)?;
+        if self.gap(true).is_ok() {
+            self.forward();
+        }
+        let ret = if self.doc_end() {
+            // Empty document
+            Node::new(Yaml::Null, self.indicator(), "")
+        } else {
+            self.scalar(0, false, false)?
+        };
         self.gap(true).unwrap_or_default();
-        self.sym_seq(b"...").unwrap_or_default();
+        if self.doc_marker() {
+            self.sym_seq(b"...").unwrap_or_default();
+        }
         self.forward();
         self.doc_ind += 1;
         Ok(ret)
     }
 
+    /// Check if only spaces and a comment are left.
+    fn eof(&mut self) -> bool {
+        let pos = self.pos;
+        self.context(|p| {
+            p.ws(TakeOpt::More(0)).unwrap_or_default();
+            p.context(|p| p.comment().unwrap_or_default());
+        });
+        let eof = self.food().is_empty();
+        self.pos = pos;
+        eof
+    }
+
     /// Match doc end.
     pub fn doc_end(&mut self) -> bool {
-        if self.food().is_empty() {
-            true
-        } else {
-            self.context(|p| {
-                let b = p.sym_seq(b"---").is_ok() || p.sym_seq(b"...").is_ok();
-                if b {
-                    p.backward();
-                }
-                b
-            })
-        }
+        self.eof() || self.doc_marker()
     }
 
     /// Match scalar.
-- 
2.43.0


From 87b529a2a8aaab512162a1c8a276effef9f3f2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 22/74] fix: empty values and wrong indentation of the maps

---
 src/parser/base/grammar.rs | 12 +++++++++---
 src/parser/mod.rs          | 17 ++++++++++++-----
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 6b7462a..24cbddf 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -173,6 +173,12 @@ impl Parser<'_> {
             patt.push(b',');
         }
         self.attempt(|p| {
+            if let Some(c) = p.food().first() {
+                // Gaps, indentations and comments are not part of the string
+                if c.is_ascii_whitespace() || *c == b'#' {
+                    return Err(PError::Mismatch);
+                }
+            }
             let mut v = String::new();
             let mut is_leading = false;
             loop {
@@ -464,8 +470,8 @@ impl Parser<'_> {
         self.take_while(u8::is_ascii_whitespace, opt)
     }
 
-    /// Match and define new indent size.
-    pub fn ind_define(&mut self, level: usize) -> PResult<()> {
+    /// Match and define new indent size. Return the new size.
+    pub fn ind_define(&mut self, level: usize) -> PResult<usize> {
         if level > 0 {
             self.ind(level - 1)?;
         }
@@ -475,7 +481,7 @@ impl Parser<'_> {
         } else {
             self.indent[level] = ind;
         }
-        Ok(())
+        Ok(ind)
     }
 
     /// Match any optional invisible characters between two lines.
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 86c5c0a..9321ee9 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -253,10 +253,13 @@ impl<R: Repr> Loader<'_, R> {
             self.bound()?;
         }
         self.forward();
-        let tag = self.tag().or_else(|e| e.or(|| Ok(String::new())))?;
-        if !tag.is_empty() {
-            self.bound()?;
-        }
+        let tag = match self.tag() {
+            Ok(tag) => {
+                self.bound()?;
+                tag
+            }
+            Err(e) => e.or(|| Ok(String::new()))?,
+        };
         self.forward();
         let anchor2 = self.anchor().unwrap_or_default();
         if !anchor2.is_empty() {
@@ -444,7 +447,11 @@ impl<R: Repr> Loader<'_, R> {
                 // First item
                 if map {
                     self.gap(true)?;
-                    self.ind_define(level)?;
+                    if self.ind_define(level)? == 0 {
+                        // Belongs to the parent
+                        self.backward();
+                        return Err(PError::Mismatch);
+                    }
                 } else if self.gap(true).is_ok() {
                     // Root
                     self.ind(level)?;
-- 
2.43.0


From 95bd7af9bbb5c73934348bd34b78077c9d52ba3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 23/74] fix: escaped characters of YAML and JSON

---
 src/parser/base/grammar.rs | 57 ++++++++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 12 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 24cbddf..6f36cb0 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -1,6 +1,6 @@
 use super::*;
 use alloc::format;
-use core::cmp::Ordering;
+use core::{cmp::Ordering, str::Chars};
 
 /// The low level grammar implementation for YAML.
 ///
@@ -358,26 +358,59 @@ impl Parser<'_> {
     /// Match an escaped string, return unescaped string.
     pub fn escape(doc: &str) -> String {
         let mut s = String::new();
-        let mut b = false;
-        for c in doc.chars() {
-            if c == '\\' && !b {
-                b = true;
+        let mut chars = doc.chars();
+        while let Some(c) = chars.next() {
+            if c != '\\' {
+                s.push(c);
                 continue;
             }
+            let Some(c) = chars.next() else { break };
             s.push(match c {
-                '\\' if b => '\\',
-                'n' if b => '\n',
-                'r' if b => '\r',
-                't' if b => '\t',
-                'b' if b => '\x08',
-                'f' if b => '\x0C',
+                '0' => '\0',
+                'a' => '\x07',
+                'b' => '\x08',
+                't' => '\t',
+                'n' => '\n',
+                'v' => '\x0B',
+                'f' => '\x0C',
+                'r' => '\r',
+                'e' => '\x1B',
+                'N' => '\u{85}',
+                '_' => '\u{A0}',
+                'L' => '\u{2028}',
+                'P' => '\u{2029}',
+                'x' => Self::escape_hex(&mut chars, 2).unwrap_or(c),
+                'u' => Self::escape_hex(&mut chars, 4).unwrap_or(c),
+                'U' => Self::escape_hex(&mut chars, 8).unwrap_or(c),
                 c => c,
             });
-            b = false;
         }
         s
     }
 
+    /// Match the code point of an escaped character, includes the surrogates
+    /// of JSON.
+    fn escape_hex(chars: &mut Chars, n: usize) -> Option<char> {
+        fn hex(s: &str, n: usize) -> Option<u32> {
+            let s = s.get(..n)?;
+            let is_hex = s.bytes().all(|c| c.is_ascii_hexdigit());
+            u32::from_str_radix(s, 16).ok().filter(|_| is_hex)
+        }
+
+        let s = chars.as_str();
+        let c = hex(s, n)?;
+        let (c, s) = match s[n..].strip_prefix("\\u") {
+            Some(s2) if n == 4 && (0xD800..0xDC00).contains(&c) => {
+                let c2 = hex(s2, 4)?.checked_sub(0xDC00).filter(|c| *c < 0x400)?;
+                (0x10000 + ((c - 0xD800) << 10) + c2, &s2[4..])
+            }
+            _ => (c, &s[n..]),
+        };
+        let c = char::from_u32(c)?;
+        *chars = s.chars();
+        Some(c)
+    }
+
     /// Match valid YAML identifier.
     pub fn identifier(&mut self) -> PResult<()> {
         self.take_while(u8::is_ascii_alphanumeric, TakeOpt::One)?;
-- 
2.43.0


From 8b9a4a049563d953622e093b2cce990ebb2aed2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 24/74] fix: white spaces of the wrapped strings

---
 src/parser/base/grammar.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 6f36cb0..a3f9103 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -2,6 +2,11 @@ use super::*;
 use alloc::format;
 use core::{cmp::Ordering, str::Chars};
 
+/// Remove the trailing white spaces, which are only the ASCII characters.
+fn trim_ws(s: &mut String) {
+    s.truncate(s.trim_end_matches(|c: char| c.is_ascii_whitespace()).len());
+}
+
 /// The low level grammar implementation for YAML.
 ///
 /// These sub-parser returns `Result<R, PError>`, and calling
@@ -131,11 +136,12 @@ impl Parser<'_> {
                         // Line continuation, drop the backslash
                         v.pop();
                         t -= 1;
+                    } else {
+                        trim_ws(&mut v);
                     }
                     match t.cmp(&1) {
                         Ordering::Less => {}
                         Ordering::Equal => {
-                            v.truncate(v.trim_end().len());
                             // Manual wrapping
                             if !v.ends_with("\\n") {
                                 v.push(' ');
@@ -180,7 +186,6 @@ impl Parser<'_> {
                 }
             }
             let mut v = String::new();
-            let mut is_leading = false;
             loop {
                 p.forward();
                 p.take_while(Self::not_in(&patt), TakeOpt::More(0))?;
@@ -195,16 +200,12 @@ impl Parser<'_> {
                     break;
                 }
                 p.forward();
-                if p.sym_set(b": ").is_ok() {
-                    // Remove leading space
-                    if is_leading && p.text() == " " {
-                        v.truncate(v.trim_end().len());
-                    }
-                    v.push_str(&p.text());
-                } else if !inner && !v.is_empty() && p.sym_set(b"{}[]").is_ok() {
+                if p.sym_set(b": ").is_ok()
+                    || (!inner && !v.is_empty() && p.sym_set(b"{}[]").is_ok())
+                {
                     v.push_str(&p.text());
-                    is_leading = false;
                 } else if let Ok(t) = p.gap(true) {
+                    trim_ws(&mut v);
                     if t == 1 {
                         v.push(' ');
                     }
@@ -214,12 +215,13 @@ impl Parser<'_> {
                     if p.ind(level).is_err() {
                         break;
                     }
-                    is_leading = true;
+                    // Remove leading space
+                    p.ws(TakeOpt::More(0))?;
                 } else {
                     break;
                 }
             }
-            v.truncate(v.trim_end().len());
+            trim_ws(&mut v);
             if v.is_empty() {
                 Err(PError::Mismatch)
             } else {
-- 
2.43.0


From 8be3f99bba2afd92d388f7a1396b2d5b21455767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 25/74] fix: prefix of the primary tag handle

---
 src/parser/base/grammar.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index a3f9103..631f7c0 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -436,7 +436,8 @@ impl Parser<'_> {
                         None => return p.err("tag handle"),
                     }
                 } else {
-                    String::new()
+                    // Primary tag
+                    p.tag["!"].clone()
                 }
             } else if p.sym(b'<').is_ok() {
                 // Full tag
-- 
2.43.0


From 9232823f863d388d17e164b815e6d34d1e26d1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 26/74] fix: full tags have no suffix

---
 src/parser/base/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 631f7c0..6a2dfa1 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -446,7 +446,7 @@ impl Parser<'_> {
                     Ok(p.text())
                 })?;
                 p.sym(b'>')?;
-                tag
+                return Ok(tag);
             } else if p.sym(b'!').is_ok() {
                 p.tag["!!"].clone()
             } else {
-- 
2.43.0


From 6a9e81b815a76600406385fb8654295365a29720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 27/74] fix: error position of the invalid root nodes

---
 src/parser/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 9321ee9..f5f1c88 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -14,6 +14,7 @@
 //!
 //! **WRONG**: Invalid tag directive will be ignored.
 //!
+//! + document content: The root node of the document is invalid.
 //! + document splitter: Error about the document splitter `---` / `...`.
 //! + checked version: Version directive `%YAML 1.2` is used again.
 //! + version: Version directive is wrong, must be `1.2`.
@@ -196,7 +197,8 @@ impl<R: Repr> Loader<'_, R> {
             // Empty document
             Node::new(Yaml::Null, self.indicator(), "")
         } else {
-            self.scalar(0, false, false)?
+            self.scalar(0, false, false)
+                .or_else(|e| e.or(|| self.err("document content")))?
         };
         self.gap(true).unwrap_or_default();
         if self.doc_marker() {
-- 
2.43.0


From d935ea792eab4760bcdaa742efb3f453ffe699dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 28/74] fix: indicate the positions out of the document without
 panic

---
 src/indicator.rs       | 5 ++++-
 src/parser/base/mod.rs | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/indicator.rs b/src/indicator.rs
index b67a128..ecd10bb 100644
--- a/src/indicator.rs
+++ b/src/indicator.rs
@@ -18,9 +18,12 @@ use alloc::{format, string::String};
 ///       ^
 /// ```
 ///
+/// The position behind the end of the documentation becomes the end.
+///
 /// This may be what you need if you went to indicate an error on the invalid
 /// data.
-pub fn indicated_msg(doc: &[u8], mut pos: u64) -> String {
+pub fn indicated_msg(doc: &[u8], pos: u64) -> String {
+    let mut pos = pos.min(doc.len() as u64);
     for (line, str_line) in doc.split(|c| *c == b'\n').enumerate() {
         let full_line = str_line.len() as u64 + 1;
         if full_line > pos {
diff --git a/src/parser/base/mod.rs b/src/parser/base/mod.rs
index d8c99b8..4a8e0f8 100644
--- a/src/parser/base/mod.rs
+++ b/src/parser/base/mod.rs
@@ -99,7 +99,7 @@ impl Parser<'_> {
     pub fn err<R>(&self, name: &'static str) -> PResult<R> {
         Err(PError::Terminate {
             name,
-            msg: indicated_msg(self.doc, self.indicator()),
+            msg: indicated_msg(self.doc, self.pos as u64),
         })
     }
 
-- 
2.43.0


From 59e9ff21ec7285ce09f9f140d7fa8dd0dccf5d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 29/74] fix: limit the nesting depth instead of stack overflow

---
 src/parser/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index f5f1c88..d538cbc 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -22,6 +22,7 @@
 //!
 //! ## Structure
 //!
+//! + nesting depth: The nodes are nested too deeply.
 //! + quoted string terminator: The closing quote is missing.
 //!
 //! ### Flow Array
@@ -75,6 +76,8 @@ pub(crate) use tag_prefix;
 
 /// The type of anchor recorder in the [`Loader`].
 pub type Anchors<R> = BTreeMap<String, Node<R>>;
+/// The maximum depth of the nested nodes.
+const MAX_DEPTH: usize = 256;
 /// The default prefix of the YAML sub tag.
 pub const DEFAULT_PREFIX: &str = tag_prefix!();
 
@@ -111,6 +114,7 @@ pub struct Loader<'a, R: Repr> {
     cyclic_mode: bool,
     anchors: Vec<Anchors<R>>,
     doc_ind: usize,
+    depth: usize,
 }
 
 impl<'a, R: Repr> Loader<'a, R> {
@@ -121,6 +125,7 @@ impl<'a, R: Repr> Loader<'a, R> {
             cyclic_mode: false,
             anchors: Vec::new(),
             doc_ind: 0,
+            depth: 0,
         }
     }
 }
@@ -274,7 +279,13 @@ impl<R: Repr> Loader<'_, R> {
         }
         self.forward();
         let pos = self.indicator();
-        let yaml = f(self)?;
+        if self.depth == MAX_DEPTH {
+            return self.err("nesting depth");
+        }
+        self.depth += 1;
+        let yaml = f(self);
+        self.depth -= 1;
+        let yaml = yaml?;
         self.forward();
         let node = Node::new_repr(yaml, pos, &tag);
         if !anchor.is_empty()
-- 
2.43.0


From 2a3147ff5e4c77a9ca15fb8a6e9e491809fc64a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 30/74] fix: quote the dumped strings which are not plain
 strings

---
 src/dumper.rs | 45 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index e007647..f6912b2 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -80,15 +80,12 @@ impl<'a, R: Repr> Dumper<'a, R> {
                         .collect::<Vec<_>>()
                         .join(NL);
                     write!(doc, "|{NL}{ind}{}", s.trim()).unwrap();
-                } else if parser::Parser::new(s.as_bytes())
-                    .string_plain(0, false)
-                    .is_err()
-                {
-                    // Literal string, not plain string
-                    write!(doc, "{s:?}").unwrap();
-                } else {
+                } else if is_plain::<R>(s) {
                     // Single line string
                     doc += s;
+                } else {
+                    // Quoted string, not plain string
+                    quote(&mut doc, s);
                 }
             }
             Yaml::Seq(v) => {
@@ -139,6 +136,40 @@ impl<'a, R: Repr> Dumper<'a, R> {
     }
 }
 
+/// Check if the string can be a plain string, which is parsed into itself.
+fn is_plain<R: Repr>(s: &str) -> bool {
+    let mut loader = parser::Loader::<R>::new(s.as_bytes());
+    !s.starts_with([
+        '-', '?', ':', ',', '[', ']', '{', '}', '#', '&', '*', '!', '|', '>', '\'', '"', '%', '@',
+        '`',
+    ]) && !s.starts_with("...")
+        && !s.chars().any(is_special)
+        && matches!(loader.scalar_term(0, false), Ok(n) if matches!(&*n, Yaml::Str(n) if n == s))
+        && loader.food().is_empty()
+}
+
+/// Check if the character should be escaped.
+fn is_special(c: char) -> bool {
+    c.is_control() || matches!(c, '\u{2028}' | '\u{2029}' | '\u{FEFF}')
+}
+
+/// Write a double quoted string.
+fn quote(doc: &mut String, s: &str) {
+    doc.push('"');
+    for c in s.chars() {
+        match c {
+            '"' => doc.push_str("\\\""),
+            '\\' => doc.push_str("\\\\"),
+            '\n' => doc.push_str("\\n"),
+            '\r' => doc.push_str("\\r"),
+            '\t' => doc.push_str("\\t"),
+            c if is_special(c) => write!(doc, "\\u{:04X}", u32::from(c)).unwrap(),
+            c => doc.push(c),
+        }
+    }
+    doc.push('"');
+}
+
 /// Dump the YAML data in to block format.
 ///
 /// Dumper will use plain string when the string is none-wrapped,
-- 
2.43.0


From 811149324c2a0f4467f287861c5ec67b1909d620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 31/74] fix: keep all the characters of the dumped multiline
 strings

---
 src/dumper.rs | 48 ++++++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index f6912b2..7b55e0e 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -3,7 +3,6 @@ use crate::{parser::Anchors, repr::Repr, *};
 use alloc::{
     format,
     string::{String, ToString},
-    vec::Vec,
 };
 use core::fmt::Write;
 
@@ -18,6 +17,7 @@ pub const NL: &str = if cfg!(windows) { "\r\n" } else { "\n" };
 #[derive(Eq, PartialEq)]
 enum Root {
     Scalar,
+    Key,
     Map,
     Array,
 }
@@ -66,20 +66,21 @@ impl<'a, R: Repr> Dumper<'a, R> {
             Yaml::Bool(b) => write!(doc, "{b}").unwrap(),
             Yaml::Int(n) | Yaml::Float(n) => doc += n,
             Yaml::Str(s) => {
-                if s.lines().nth(1).is_some() {
+                if self.root != Root::Key && is_literal(s) {
                     // Multiline string
-                    let s = s
-                        .lines()
-                        .map(|s| {
-                            if s.is_empty() {
-                                String::new()
-                            } else {
-                                ind.to_string() + s.trim_end()
-                            }
-                        })
-                        .collect::<Vec<_>>()
-                        .join(NL);
-                    write!(doc, "|{NL}{ind}{}", s.trim()).unwrap();
+                    let ind = "  ".repeat(self.level.max(1));
+                    let (chomp, s) = match s.strip_suffix('\n') {
+                        None => ("-", s.as_str()),
+                        Some(s) if !s.ends_with('\n') => ("", s),
+                        Some(s) => ("+", s),
+                    };
+                    write!(doc, "|{chomp}").unwrap();
+                    for s in s.split('\n') {
+                        doc += NL;
+                        if !s.is_empty() {
+                            write!(doc, "{ind}{s}").unwrap();
+                        }
+                    }
                 } else if is_plain::<R>(s) {
                     // Single line string
                     doc += s;
@@ -102,14 +103,14 @@ impl<'a, R: Repr> Dumper<'a, R> {
             }
             Yaml::Map(m) => {
                 let mut buf = match self.root {
-                    Root::Map => NL.to_string(),
+                    Root::Key | Root::Map => NL.to_string(),
                     _ => String::new(),
                 };
                 for (i, (k, v)) in m.iter().enumerate() {
-                    if i != 0 || self.root == Root::Map {
+                    if i != 0 || matches!(self.root, Root::Key | Root::Map) {
                         buf += &ind;
                     }
-                    let s = self.part(k, Root::Map, self.level + 1);
+                    let s = self.part(k, Root::Key, self.level + 1);
                     if matches!(k.yaml(), Yaml::Map(_) | Yaml::Seq(_)) {
                         let pre_ind = "  ".repeat(self.level + 1);
                         write!(buf, "?{pre_ind}{NL}{s}{NL}{ind}").unwrap();
@@ -148,6 +149,16 @@ fn is_plain<R: Repr>(s: &str) -> bool {
         && loader.food().is_empty()
 }
 
+/// Check if the string can be a literal string without losing any character.
+fn is_literal(s: &str) -> bool {
+    let is_blank = |s: &str| s.trim_start_matches([' ', '\t']).is_empty();
+    s.lines().nth(1).is_some()
+        && !s.trim_start_matches('\n').starts_with([' ', '\t'])
+        && !s.chars().any(|c| is_special(c) && c != '\n' && c != '\t')
+        && s.split('\n').all(|s| s.is_empty() || !is_blank(s))
+        && !is_blank(s.trim_matches('\n'))
+}
+
 /// Check if the character should be escaped.
 fn is_special(c: char) -> bool {
     c.is_control() || matches!(c, '\u{2028}' | '\u{2029}' | '\u{FEFF}')
@@ -173,7 +184,8 @@ fn quote(doc: &mut String, s: &str) {
 /// Dump the YAML data in to block format.
 ///
 /// Dumper will use plain string when the string is none-wrapped,
-/// otherwise it use literal string and trim the last white spaces.
+/// otherwise it use literal string, or quoted string if they can not present
+/// the string.
 ///
 /// ```
 /// use yaml_peg::{dump, node, dumper::NL};
-- 
2.43.0


From 3636372dfadf06c09d6e735b1dfcf29b6284b677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 32/74] fix: dump floats as floats

---
 src/dumper.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 7b55e0e..e0e5ab7 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -64,7 +64,8 @@ impl<'a, R: Repr> Dumper<'a, R> {
         match &self.node.yaml() {
             Yaml::Null => doc += "null",
             Yaml::Bool(b) => write!(doc, "{b}").unwrap(),
-            Yaml::Int(n) | Yaml::Float(n) => doc += n,
+            Yaml::Int(n) => doc += n,
+            Yaml::Float(n) => doc += &float(n),
             Yaml::Str(s) => {
                 if self.root != Root::Key && is_literal(s) {
                     // Multiline string
@@ -137,6 +138,25 @@ impl<'a, R: Repr> Dumper<'a, R> {
     }
 }
 
+/// The float is always dumped as a float, instead of an integer or a string.
+fn float(s: &str) -> String {
+    let mut p = parser::Parser::new(s.as_bytes());
+    if (p.number(false, parser::Parser::float).is_ok()
+        || p.number(false, parser::Parser::sci_float).is_ok())
+        && p.food().is_empty()
+    {
+        return s.to_string();
+    }
+    match to_f64(s) {
+        Ok(n) if n.is_nan() => ".nan".to_string(),
+        Ok(n) if n == f64::INFINITY => ".inf".to_string(),
+        Ok(n) if n == f64::NEG_INFINITY => "-.inf".to_string(),
+        // Includes the decimal point
+        Ok(n) => format!("{n:?}"),
+        Err(_) => s.to_string(),
+    }
+}
+
 /// Check if the string can be a plain string, which is parsed into itself.
 fn is_plain<R: Repr>(s: &str) -> bool {
     let mut loader = parser::Loader::<R>::new(s.as_bytes());
-- 
2.43.0


From 2bef16331ea9dcb5fa332a9e80c99dd75a37927d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:50 +0000
Subject: [PATCH 33/74] fix: dump empty collections, complex keys and prefixes
 of the collections

---
 src/dumper.rs | 60 +++++++++++++++++++++++++--------------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index e0e5ab7..e153ab6 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -90,47 +90,39 @@ impl<'a, R: Repr> Dumper<'a, R> {
                     quote(&mut doc, s);
                 }
             }
+            Yaml::Seq(v) if v.is_empty() => doc += "[]",
+            Yaml::Map(m) if m.is_empty() => doc += "{}",
             Yaml::Seq(v) => {
-                let mut buf = NL.to_string();
-                for (i, node) in v.iter().enumerate() {
-                    if i != 0 || self.level != 0 {
-                        buf += &ind;
-                    }
-                    let s = self.part(node, Root::Array, self.level + 1);
-                    write!(buf, "- {s}{NL}").unwrap();
+                // The items are placed behind the line of the prefix
+                doc.truncate(doc.trim_end().len());
+                for node in v {
+                    write!(doc, "{NL}{ind}-").unwrap();
+                    push_inline(&mut doc, &self.part(node, Root::Array, self.level + 1));
                 }
-                buf.truncate(buf.len() - NL.len());
-                doc += &buf;
             }
             Yaml::Map(m) => {
-                let mut buf = match self.root {
-                    Root::Key | Root::Map => NL.to_string(),
-                    _ => String::new(),
-                };
+                let is_block = !doc.is_empty() || matches!(self.root, Root::Key | Root::Map);
+                doc.truncate(doc.trim_end().len());
                 for (i, (k, v)) in m.iter().enumerate() {
-                    if i != 0 || matches!(self.root, Root::Key | Root::Map) {
-                        buf += &ind;
+                    if i != 0 || is_block {
+                        write!(doc, "{NL}{ind}").unwrap();
                     }
                     let s = self.part(k, Root::Key, self.level + 1);
-                    if matches!(k.yaml(), Yaml::Map(_) | Yaml::Seq(_)) {
-                        let pre_ind = "  ".repeat(self.level + 1);
-                        write!(buf, "?{pre_ind}{NL}{s}{NL}{ind}").unwrap();
+                    if s.starts_with(NL) || s.starts_with(['&', '!']) {
+                        // Complex key, or the prefix belongs to the key
+                        doc += "?";
+                        push_inline(&mut doc, &s);
+                        write!(doc, "{NL}{ind}").unwrap();
                     } else {
-                        buf += &s;
+                        doc += &s;
                     };
-                    buf += ":";
-                    buf += &match v.yaml() {
-                        Yaml::Map(_) => self.part(v, Root::Map, self.level + 1),
-                        Yaml::Seq(_) if self.root == Root::Array && i == 0 => {
-                            self.part(v, Root::Map, self.level)
-                        }
-                        Yaml::Seq(_) => self.part(v, Root::Map, self.level + 1),
-                        _ => format!(" {}", self.part(v, Root::Map, self.level + 1)),
+                    doc += ":";
+                    let level = match v.yaml() {
+                        Yaml::Seq(_) if self.root == Root::Array && i == 0 => self.level,
+                        _ => self.level + 1,
                     };
-                    buf += NL;
+                    push_inline(&mut doc, &self.part(v, Root::Map, level));
                 }
-                buf.truncate(buf.len() - NL.len());
-                doc += &buf;
             }
             Yaml::Alias(a) => write!(doc, "*{a}").unwrap(),
         };
@@ -138,6 +130,14 @@ impl<'a, R: Repr> Dumper<'a, R> {
     }
 }
 
+/// Append behind an indicator, the block collections start from a new line.
+fn push_inline(doc: &mut String, s: &str) {
+    if !s.starts_with(NL) {
+        doc.push(' ');
+    }
+    doc.push_str(s);
+}
+
 /// The float is always dumped as a float, instead of an integer or a string.
 fn float(s: &str) -> String {
     let mut p = parser::Parser::new(s.as_bytes());
-- 
2.43.0


From e04eb1fc9712d2d7f8acb40a94f787a1bd129dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 34/74] fix: dump the tags of the core schema and invalid
 identifiers

---
 src/dumper.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index e153ab6..7f30903 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -51,13 +51,16 @@ impl<'a, R: Repr> Dumper<'a, R> {
             write!(doc, "&{a} ").unwrap();
         }
         let tag = self.node.tag();
-        if !tag.is_empty() && !tag.starts_with(parser::tag_prefix!()) {
-            if tag.starts_with(parser::tag_prefix!()) {
-                write!(doc, "!!{tag} ").unwrap();
-            } else if parser::Parser::new(tag.as_bytes()).identifier().is_ok() {
-                write!(doc, "!{tag} ").unwrap();
-            } else {
-                write!(doc, "!<{tag}> ").unwrap();
+        if tag != Node::<R>::new_repr(self.node.clone_yaml(), 0, "").tag() {
+            let is_id = |s: &str| {
+                let mut p = parser::Parser::new(s.as_bytes());
+                p.identifier().is_ok() && p.food().is_empty()
+            };
+            match tag.strip_prefix(parser::tag_prefix!()) {
+                Some(tag) if is_id(tag) => write!(doc, "!!{tag} ").unwrap(),
+                _ if is_id(tag) => write!(doc, "!{tag} ").unwrap(),
+                _ if tag.contains([' ', '<', '>', '\n', '\r']) => {}
+                _ => write!(doc, "!<{tag}> ").unwrap(),
             }
         }
         let ind = "  ".repeat(self.level);
-- 
2.43.0


From 3f510422dce2b2c2d0a45a2e5cf996110419a7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 35/74] fix: dump each anchor once for the anchored node

---
 src/dumper.rs | 74 ++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 64 insertions(+), 10 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 7f30903..19229d3 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -1,6 +1,7 @@
 //! Dumper components.
 use crate::{parser::Anchors, repr::Repr, *};
 use alloc::{
+    collections::{BTreeMap, BTreeSet},
     format,
     string::{String, ToString},
 };
@@ -36,22 +37,49 @@ impl<'a, R: Repr> Dumper<'a, R> {
         Self { node, root: Root::Scalar, level: 0, anchors }
     }
 
-    fn part(&self, node: &'a Node<R>, root: Root, level: usize) -> String {
-        Self { node, root, level, anchors: self.anchors }.dump()
+    fn part(
+        &self,
+        node: &'a Node<R>,
+        root: Root,
+        level: usize,
+        undefined: &mut BTreeMap<&'a str, bool>,
+    ) -> String {
+        Self { node, root, level, anchors: self.anchors }.dump_node(undefined)
     }
 
     /// Dump into string.
     pub fn dump(&self) -> String {
-        let mut doc = String::new();
-        if let Some(a) = self
+        let mut nodes = BTreeSet::new();
+        if !self.anchors.is_empty() {
+            collect(self.node, &mut nodes);
+        }
+        // Undefined anchors, and whether the node is a part of the document
+        let mut undefined = self
             .anchors
             .iter()
-            .find_map(|(k, v)| if v == self.node { Some(k) } else { None })
-        {
+            .map(|(a, node)| (a.as_str(), nodes.contains(&as_ptr(node))))
+            .collect();
+        self.dump_node(&mut undefined)
+    }
+
+    fn dump_node(&self, undefined: &mut BTreeMap<&'a str, bool>) -> String {
+        let mut doc = String::new();
+        let is_same = |a: &str| as_ptr(&self.anchors[a]) == as_ptr(self.node);
+        // The anchors of the other nodes are defined by an equal node
+        let anchor = undefined
+            .iter()
+            .find(|(a, is_part)| is_same(a) || (!**is_part && self.anchors[**a] == *self.node))
+            .map(|(a, _)| *a);
+        if let Some(a) = anchor {
+            undefined.remove(a);
             write!(doc, "&{a} ").unwrap();
+        } else if self.root != Root::Key && self.is_default_tag() {
+            if let Some(a) = self.anchors.keys().find(|a| is_same(a)) {
+                return format!("*{a}");
+            }
         }
         let tag = self.node.tag();
-        if tag != Node::<R>::new_repr(self.node.clone_yaml(), 0, "").tag() {
+        if !self.is_default_tag() {
             let is_id = |s: &str| {
                 let mut p = parser::Parser::new(s.as_bytes());
                 p.identifier().is_ok() && p.food().is_empty()
@@ -100,7 +128,10 @@ impl<'a, R: Repr> Dumper<'a, R> {
                 doc.truncate(doc.trim_end().len());
                 for node in v {
                     write!(doc, "{NL}{ind}-").unwrap();
-                    push_inline(&mut doc, &self.part(node, Root::Array, self.level + 1));
+                    push_inline(
+                        &mut doc,
+                        &self.part(node, Root::Array, self.level + 1, undefined),
+                    );
                 }
             }
             Yaml::Map(m) => {
@@ -110,7 +141,7 @@ impl<'a, R: Repr> Dumper<'a, R> {
                     if i != 0 || is_block {
                         write!(doc, "{NL}{ind}").unwrap();
                     }
-                    let s = self.part(k, Root::Key, self.level + 1);
+                    let s = self.part(k, Root::Key, self.level + 1, undefined);
                     if s.starts_with(NL) || s.starts_with(['&', '!']) {
                         // Complex key, or the prefix belongs to the key
                         doc += "?";
@@ -124,13 +155,36 @@ impl<'a, R: Repr> Dumper<'a, R> {
                         Yaml::Seq(_) if self.root == Root::Array && i == 0 => self.level,
                         _ => self.level + 1,
                     };
-                    push_inline(&mut doc, &self.part(v, Root::Map, level));
+                    push_inline(&mut doc, &self.part(v, Root::Map, level, undefined));
                 }
             }
             Yaml::Alias(a) => write!(doc, "*{a}").unwrap(),
         };
         doc
     }
+
+    fn is_default_tag(&self) -> bool {
+        self.node.tag() == Node::<R>::new_repr(self.node.clone_yaml(), 0, "").tag()
+    }
+}
+
+/// The identity of the shared node.
+fn as_ptr<R: Repr>(node: &Node<R>) -> *const Yaml<R> {
+    node.yaml()
+}
+
+/// Collect the identity of the nodes.
+fn collect<R: Repr>(node: &Node<R>, nodes: &mut BTreeSet<*const Yaml<R>>) {
+    if nodes.insert(as_ptr(node)) {
+        match node.yaml() {
+            Yaml::Seq(v) => v.iter().for_each(|node| collect(node, nodes)),
+            Yaml::Map(m) => m.iter().for_each(|(k, v)| {
+                collect(k, nodes);
+                collect(v, nodes);
+            }),
+            _ => {}
+        }
+    }
 }
 
 /// Append behind an indicator, the block collections start from a new line.
-- 
2.43.0


From d04c91c0331c51207f46f2b29fce18b1ba112ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 36/74] fix: continuation lines of plain strings at the root
 and in sequences

---
 src/parser/base/grammar.rs |  2 +-
 src/parser/mod.rs          | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 6a2dfa1..f6ee2a1 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -212,7 +212,7 @@ impl Parser<'_> {
                     for _ in 0..t - 1 {
                         v.push('\n');
                     }
-                    if p.ind(level).is_err() {
+                    if p.doc_marker() || p.ind(level).is_err() {
                         break;
                     }
                     // Remove leading space
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index d538cbc..b4ce810 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -480,7 +480,16 @@ impl<R: Repr> Loader<'_, R> {
                     }
                     k
                 } else {
-                    self.scalar_flow(level + 1, flow)?
+                    let doc = self.food();
+                    let k = self.scalar_flow(level, flow)?;
+                    let key = &doc[..doc.len() - self.food().len()];
+                    if key.iter().any(|c| matches!(c, b'\n' | b'\r'))
+                        && self.food().starts_with(b":")
+                    {
+                        // Implicit keys can not be wrapped
+                        return self.err("map splitter");
+                    }
+                    k
                 };
                 if self.sym(b':').is_err() || self.bound().is_err() {
                     // Return key
-- 
2.43.0


From 74e08d5ded85b86c4c4fad04aadb3bba2e0d74cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 37/74] fix: indentation of a document does not depend on the
 last one

---
 src/parser/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index b4ce810..a0a80c3 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -195,6 +195,8 @@ impl<R: Repr> Loader<'_, R> {
         self.context(|p| p.bound().unwrap_or_default());
         self.forward();
         self.anchors.push(Anchors::new());
+        // Clear the indent settings of the last document
+        self.context(|p| p.ind(0))?;
         if self.gap(true).is_ok() {
             self.forward();
         }
-- 
2.43.0


From c0febaf07f0726ae0d1c59f879fb48928f613dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:23 +0000
Subject: [PATCH 38/74] fix: flow map values on the next line

---
 src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index a0a80c3..7356efd 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -395,7 +395,7 @@ impl<R: Repr> Loader<'_, R> {
             if self.sym(b':').is_err() {
                 return self.err("flow map splitter");
             }
-            self.context(|p| p.bound().unwrap_or_default());
+            self.inv(TakeOpt::More(0))?;
             self.forward();
             let v = self
                 .scalar(level + 1, false, true)
-- 
2.43.0


From ff8d54fcd8323148f5ac0c120bd7cf2b9df7cc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:02 +0000
Subject: [PATCH 39/74] fix: allow spaces between the quoted or flow keys and
 the splitter

---
 src/parser/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 7356efd..baff8d7 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -392,7 +392,8 @@ impl<R: Repr> Loader<'_, R> {
                 self.scalar_flow(level + 1, true)
                     .or_else(|e| e.or(|| self.err("flow map key")))?
             };
-            if self.sym(b':').is_err() {
+            let splitter = self.context(|p| p.inv(TakeOpt::More(0)).and_then(|_| p.sym(b':')));
+            if splitter.is_err() {
                 return self.err("flow map splitter");
             }
             self.inv(TakeOpt::More(0))?;
@@ -493,7 +494,7 @@ impl<R: Repr> Loader<'_, R> {
                     }
                     k
                 };
-                if self.sym(b':').is_err() || self.bound().is_err() {
+                if self.map_splitter().is_err() || self.bound().is_err() {
                     // Return key
                     return Ok(k.clone_yaml());
                 }
@@ -519,7 +520,7 @@ impl<R: Repr> Loader<'_, R> {
                     self.scalar_flow(level + 1, flow)
                         .or_else(|e| e.or(|| self.err("map key")))?
                 };
-                if self.sym(b':').is_err() || self.bound().is_err() {
+                if self.map_splitter().is_err() || self.bound().is_err() {
                     return self.err("map splitter");
                 }
                 k
@@ -534,6 +535,11 @@ impl<R: Repr> Loader<'_, R> {
         self.backward();
         Ok(R::new_rc(m.into_iter().collect()))
     }
+
+    /// Match the splitter of map item, which might be behind the spaces.
+    fn map_splitter(&mut self) -> PResult<()> {
+        self.context(|p| p.ws(TakeOpt::More(0)).and_then(|_| p.sym(b':')))
+    }
 }
 
 impl<'a, R: Repr> Deref for Loader<'a, R> {
-- 
2.43.0


From e4d9a85bcb98a1e128d5aa068e5c2b5ec7a7c074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 40/74] fix: tabs behind the numbers

---
 src/parser/base/grammar.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index f6ee2a1..d7f54e3 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -42,10 +42,9 @@ impl Parser<'_> {
         if s.as_bytes() == b"0" && self.context(|p| p.octal().is_ok() || p.hexadecimal().is_ok()) {
             s = self.text();
         }
-        if self.count(|p| p.ws(TakeOpt::More(0)))? > 0 {
-            self.back(1);
+        if self.count(|p| p.ws(TakeOpt::More(0)))? == 0 {
+            self.bound()?;
         }
-        self.bound()?;
         Ok(s)
     }
 
@@ -91,10 +90,9 @@ impl Parser<'_> {
         self.sym(b'.')?;
         self.take_while(u8::is_ascii_digit, TakeOpt::More(0))?;
         let s = self.text();
-        if self.count(|p| p.ws(TakeOpt::More(0)))? > 0 {
-            self.back(1);
+        if self.count(|p| p.ws(TakeOpt::More(0)))? == 0 {
+            self.bound()?;
         }
-        self.bound()?;
         Ok(s.trim_end_matches(".0").to_string())
     }
 
@@ -108,10 +106,9 @@ impl Parser<'_> {
         self.take_while(Self::is_in(b"+-"), TakeOpt::Range(0, 1))?;
         self.take_while(u8::is_ascii_digit, TakeOpt::More(1))?;
         let s = self.text();
-        if self.count(|p| p.ws(TakeOpt::More(0)))? > 0 {
-            self.back(1);
+        if self.count(|p| p.ws(TakeOpt::More(0)))? == 0 {
+            self.bound()?;
         }
-        self.bound()?;
         Ok(s)
     }
 
-- 
2.43.0


From 4a8c86ecf50c9e2a45ac9375eb541642d8db104d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:26 +0000
Subject: [PATCH 41/74] fix: explicit keys of the flow maps

---
 src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index baff8d7..50c4a34 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -382,7 +382,7 @@ impl<R: Repr> Loader<'_, R> {
             let k = if self.complex_mapping().is_ok() {
                 self.forward();
                 let k = self
-                    .scalar(level + 1, false, true)
+                    .scalar_flow(level + 1, true)
                     .or_else(|e| e.or(|| self.err("flow map key")))?;
                 if self.gap(true).is_ok() && self.ind(level).is_err() {
                     return self.err("flow map splitter");
-- 
2.43.0


From 045d1b627b39c9df67c981d6cb36b70b1f6ec684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 42/74] fix: comments and blank lines in front of the
 directives

---
 src/parser/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 50c4a34..e635edd 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -165,6 +165,7 @@ impl<R: Repr> Loader<'_, R> {
 
     /// YAML entry point, return entire doc if exist.
     pub fn parse(&mut self) -> PResult<Vec<Node<R>>> {
+        self.gap(true).unwrap_or_default();
         loop {
             match self.context(Parser::directive) {
                 Ok(()) => (),
-- 
2.43.0


From abbdc4a5d2d4bf2c5c725cd5b2f276c6dc842fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 43/74] fix: keep the non-ASCII spaces of folded strings

---
 src/parser/base/grammar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index d7f54e3..75115a0 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -330,10 +330,10 @@ impl Parser<'_> {
                 if leading {
                     v.push_str(&s);
                 } else {
-                    if !is_first && !v.ends_with(char::is_whitespace) {
+                    if !is_first && !v.ends_with(|c: char| c.is_ascii_whitespace()) {
                         v.push(char::from(sep));
                     }
-                    v.push_str(s.trim_start());
+                    v.push_str(s.trim_start_matches(|c: char| c.is_ascii_whitespace()));
                 }
                 t = 0;
             }
-- 
2.43.0


From aaffd2475fd195272c013b919dac531f30189337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:23 +0000
Subject: [PATCH 44/74] fix: the splitter behind a number needs a space

---
 src/parser/base/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 75115a0..214135c 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -59,7 +59,7 @@ impl Parser<'_> {
             p.food().is_empty()
                 || p.sym_set(b"\n\r#").is_ok()
                 || (flow && p.sym_set(b":,[]{}").is_ok())
-                || (p.sym(b':').is_ok() && p.bound().is_ok())
+                || (p.sym(b':').is_ok() && (p.food().is_empty() || p.sym_set(b" \n\r").is_ok()))
         });
         if end {
             self.pos = pos;
-- 
2.43.0


From 24361b6b44932e695ae24ea5e1b11814a23f9895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 45/74] fix: empty documents with an anchor or a tag

---
 src/parser/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index e635edd..4956e50 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -472,6 +472,11 @@ impl<R: Repr> Loader<'_, R> {
                 } else if self.gap(true).is_ok() {
                     // Root
                     self.ind(level)?;
+                    if self.doc_marker() {
+                        // Empty node
+                        self.backward();
+                        return Err(PError::Mismatch);
+                    }
                 }
                 self.forward();
                 let k = if self.complex_mapping().is_ok() {
-- 
2.43.0


From 67f8848b04aed34f97cc4a8705125860b1bdae75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:48 +0000
Subject: [PATCH 46/74] fix: escaped spaces and line breaks at the end of
 quoted lines

---
 src/parser/base/grammar.rs | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 214135c..5d74b60 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -1,6 +1,6 @@
 use super::*;
 use alloc::format;
-use core::{cmp::Ordering, str::Chars};
+use core::str::Chars;
 
 /// Remove the trailing white spaces, which are only the ASCII characters.
 fn trim_ws(s: &mut String) {
@@ -127,29 +127,28 @@ impl Parser<'_> {
                 p.forward();
                 if p.sym_seq(ignore).is_ok() {
                     v.push(char::from(sym));
-                } else if let Ok(mut t) = p.gap(false) {
-                    let escaped = v.bytes().rev().take_while(|c| *c == b'\\').count() % 2 == 1;
-                    if sym == b'"' && escaped {
+                } else if let Ok(t) = p.gap(false) {
+                    let escaped =
+                        |s: &str| s.bytes().rev().take_while(|c| *c == b'\\').count() % 2 == 1;
+                    let is_double = sym == b'"';
+                    if is_double && escaped(&v) {
                         // Line continuation, drop the backslash
                         v.pop();
-                        t -= 1;
                     } else {
                         trim_ws(&mut v);
-                    }
-                    match t.cmp(&1) {
-                        Ordering::Less => {}
-                        Ordering::Equal => {
-                            // Manual wrapping
-                            if !v.ends_with("\\n") {
-                                v.push(' ');
-                            }
+                        if is_double && escaped(&v) {
+                            // Escaped space
+                            v.push(' ');
                         }
-                        Ordering::Greater => {
-                            for _ in 0..t - 1 {
-                                v.push('\n');
-                            }
+                        // Manual wrapping
+                        let manual = |s: &str| s.strip_suffix('n').map_or(false, escaped);
+                        if t == 1 && !(is_double && manual(&v)) {
+                            v.push(' ');
                         }
                     }
+                    for _ in 1..t {
+                        v.push('\n');
+                    }
                     // Remove leading space
                     p.ws(TakeOpt::More(0))?;
                 } else if p.sym(b'\\').is_ok() {
-- 
2.43.0


From c5b924d313ce067fc2dc4cac9d26f3abb168c1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:09 +0000
Subject: [PATCH 47/74] fix: ignore the whole line of invalid directives

---
 src/parser/base/directive.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser/base/directive.rs b/src/parser/base/directive.rs
index 54d10c1..9f2401d 100644
--- a/src/parser/base/directive.rs
+++ b/src/parser/base/directive.rs
@@ -11,10 +11,11 @@ impl Parser<'_> {
             } else if p.sym_seq(b"TAG").is_ok() {
                 p.directive_tag()
             } else {
-                // Unknown - ignore
-                p.take_while(Self::not_in(b"\n\r"), TakeOpt::More(0))
+                Err(PError::Mismatch)
             }
-        })?;
+        })
+        // Unknown or invalid - ignore
+        .or_else(|e| e.or(|| self.take_while(Self::not_in(b"\n\r"), TakeOpt::More(0))))?;
         self.gap(true).map(|_| ())
     }
 
-- 
2.43.0


From 4b7415c6e44c8e87c337a81069e423465c281bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:24 +0000
Subject: [PATCH 48/74] fix: the collection indicators are not plain strings

---
 src/parser/base/grammar.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 5d74b60..4f3e876 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -180,6 +180,11 @@ impl Parser<'_> {
                 if c.is_ascii_whitespace() || *c == b'#' {
                     return Err(PError::Mismatch);
                 }
+                // Indicators of the collections
+                let next = p.food().get(1);
+                if matches!(c, b'-' | b'?') && next.map_or(true, u8::is_ascii_whitespace) {
+                    return Err(PError::Mismatch);
+                }
             }
             let mut v = String::new();
             loop {
-- 
2.43.0


From 2481370be84221413c3a1c51b5c2eee6f96a3b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:24 +0000
Subject: [PATCH 49/74] fix: single pairs of the flow sequences

---
 src/parser/mod.rs | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 4956e50..13a21dd 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -353,7 +353,7 @@ impl<R: Repr> Loader<'_, R> {
             }
             self.forward();
             let n = self
-                .scalar(level + 1, false, true)
+                .item_flow(level + 1)
                 .or_else(|e| e.or(|| self.err("flow sequence item")))?;
             v.push(n);
             self.inv(TakeOpt::More(0))?;
@@ -369,6 +369,34 @@ impl<R: Repr> Loader<'_, R> {
         Ok(R::new_rc(v.into_iter().collect()))
     }
 
+    /// Match the item of flow sequence, which might be a single pair.
+    fn item_flow(&mut self, level: usize) -> PResult<Node<R>> {
+        let pos = self.indicator();
+        let explicit = self.complex_mapping().is_ok();
+        self.forward();
+        let doc = self.food();
+        let k = self.scalar_flow(level, true)?;
+        // The space is optional behind the quoted strings and the collections
+        let key = &doc[..doc.len() - self.food().len()];
+        let is_json = matches!(key.last(), Some(b'"' | b'\'' | b']' | b'}'));
+        if explicit {
+            self.inv(TakeOpt::More(0))?;
+        }
+        if self.map_splitter().is_err() || (!is_json && self.bound().is_err()) {
+            return if explicit {
+                self.err("flow map splitter")
+            } else {
+                Ok(k)
+            };
+        }
+        self.inv(TakeOpt::More(0))?;
+        self.forward();
+        let v = self
+            .scalar_flow(level, true)
+            .or_else(|e| e.or(|| self.err("flow map value")))?;
+        Ok(Node::new(Yaml::from_iter([(k, v)]), pos, ""))
+    }
+
     /// Match flow map.
     pub fn map_flow(&mut self, level: usize) -> PResult<R::Rc> {
         self.sym(b'{')?;
@@ -400,7 +428,7 @@ impl<R: Repr> Loader<'_, R> {
             self.inv(TakeOpt::More(0))?;
             self.forward();
             let v = self
-                .scalar(level + 1, false, true)
+                .scalar_flow(level + 1, true)
                 .or_else(|e| e.or(|| self.err("flow map value")))?;
             m.push((k, v));
             self.inv(TakeOpt::More(0))?;
-- 
2.43.0


From 8d8caaf1906f6821640f27c13ad022719c709845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:24 +0000
Subject: [PATCH 50/74] fix: explicit keys with empty values and compact
 sequences

---
 src/parser/mod.rs | 59 +++++++++++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 23 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 13a21dd..6b52572 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -507,15 +507,10 @@ impl<R: Repr> Loader<'_, R> {
                     }
                 }
                 self.forward();
-                let k = if self.complex_mapping().is_ok() {
+                if self.complex_mapping().is_ok() {
                     self.forward();
-                    let k = self
-                        .scalar(level + 1, true, flow)
-                        .or_else(|e| e.or(|| self.err("map key")))?;
-                    if self.gap(true).is_ok() && self.ind(level).is_err() {
-                        return self.err("map splitter");
-                    }
-                    k
+                    m.push(self.complex_item(level, flow)?);
+                    continue;
                 } else {
                     let doc = self.food();
                     let k = self.scalar_flow(level, flow)?;
@@ -526,13 +521,12 @@ impl<R: Repr> Loader<'_, R> {
                         // Implicit keys can not be wrapped
                         return self.err("map splitter");
                     }
+                    if self.map_splitter().is_err() || self.bound().is_err() {
+                        // Return key
+                        return Ok(k.clone_yaml());
+                    }
                     k
-                };
-                if self.map_splitter().is_err() || self.bound().is_err() {
-                    // Return key
-                    return Ok(k.clone_yaml());
                 }
-                k
             } else {
                 if self.gap(true).is_err() && !self.doc_end() {
                     return self.err("map terminator");
@@ -541,23 +535,19 @@ impl<R: Repr> Loader<'_, R> {
                     break;
                 }
                 self.forward();
-                let k = if self.complex_mapping().is_ok() {
+                if self.complex_mapping().is_ok() {
                     self.forward();
+                    m.push(self.complex_item(level, flow)?);
+                    continue;
+                } else {
                     let k = self
-                        .scalar(level + 1, true, flow)
+                        .scalar_flow(level + 1, flow)
                         .or_else(|e| e.or(|| self.err("map key")))?;
-                    if self.gap(true).is_ok() && self.ind(level).is_err() {
+                    if self.map_splitter().is_err() || self.bound().is_err() {
                         return self.err("map splitter");
                     }
                     k
-                } else {
-                    self.scalar_flow(level + 1, flow)
-                        .or_else(|e| e.or(|| self.err("map key")))?
-                };
-                if self.map_splitter().is_err() || self.bound().is_err() {
-                    return self.err("map splitter");
                 }
-                k
             };
             self.forward();
             let v = self
@@ -570,6 +560,29 @@ impl<R: Repr> Loader<'_, R> {
         Ok(R::new_rc(m.into_iter().collect()))
     }
 
+    /// Match the map item behind the complex mapping indicator. The sequences
+    /// can start in the same line, and the value can be empty.
+    fn complex_item(&mut self, level: usize, flow: bool) -> PResult<(Node<R>, Node<R>)> {
+        let map = !self.food().starts_with(b"- ");
+        let k = self
+            .scalar(level + 1, map, flow)
+            .or_else(|e| e.or(|| self.err("map key")))?;
+        let pos = self.pos;
+        let is_ind = self.gap(true).is_err() || self.ind(level).is_ok();
+        if !is_ind || self.map_splitter().is_err() || self.bound().is_err() {
+            // Empty value
+            self.pos = pos;
+            self.forward();
+            return Ok((k, Node::new(Yaml::Null, self.indicator(), "")));
+        }
+        self.forward();
+        let map = !self.food().starts_with(b"- ");
+        let v = self
+            .scalar(level + 1, map, false)
+            .or_else(|e| e.or(|| self.err("map value")))?;
+        Ok((k, v))
+    }
+
     /// Match the splitter of map item, which might be behind the spaces.
     fn map_splitter(&mut self) -> PResult<()> {
         self.context(|p| p.ws(TakeOpt::More(0)).and_then(|_| p.sym(b':')))
-- 
2.43.0


From 59ee2c0f2842169c722317e30f01906b47f2b5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 51/74] fix: implicit keys can not be wrapped

---
 src/parser/mod.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 6b52572..4c09384 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -382,7 +382,8 @@ impl<R: Repr> Loader<'_, R> {
         if explicit {
             self.inv(TakeOpt::More(0))?;
         }
-        if self.map_splitter().is_err() || (!is_json && self.bound().is_err()) {
+        let is_wrapped = !explicit && self.is_wrapped(doc);
+        if is_wrapped || self.map_splitter().is_err() || (!is_json && self.bound().is_err()) {
             return if explicit {
                 self.err("flow map splitter")
             } else {
@@ -514,17 +515,14 @@ impl<R: Repr> Loader<'_, R> {
                 } else {
                     let doc = self.food();
                     let k = self.scalar_flow(level, flow)?;
-                    let key = &doc[..doc.len() - self.food().len()];
-                    if key.iter().any(|c| matches!(c, b'\n' | b'\r'))
-                        && self.food().starts_with(b":")
-                    {
-                        // Implicit keys can not be wrapped
-                        return self.err("map splitter");
-                    }
+                    let is_wrapped = self.is_wrapped(doc);
                     if self.map_splitter().is_err() || self.bound().is_err() {
                         // Return key
                         return Ok(k.clone_yaml());
                     }
+                    if is_wrapped {
+                        return self.err("map splitter");
+                    }
                     k
                 }
             } else {
@@ -540,10 +538,12 @@ impl<R: Repr> Loader<'_, R> {
                     m.push(self.complex_item(level, flow)?);
                     continue;
                 } else {
+                    let doc = self.food();
                     let k = self
                         .scalar_flow(level + 1, flow)
                         .or_else(|e| e.or(|| self.err("map key")))?;
-                    if self.map_splitter().is_err() || self.bound().is_err() {
+                    if self.is_wrapped(doc) || self.map_splitter().is_err() || self.bound().is_err()
+                    {
                         return self.err("map splitter");
                     }
                     k
@@ -583,6 +583,13 @@ impl<R: Repr> Loader<'_, R> {
         Ok((k, v))
     }
 
+    /// Check if the matched text is wrapped, which can not be an implicit key.
+    fn is_wrapped(&self, doc: &[u8]) -> bool {
+        doc[..doc.len() - self.food().len()]
+            .iter()
+            .any(|c| matches!(c, b'\n' | b'\r'))
+    }
+
     /// Match the splitter of map item, which might be behind the spaces.
     fn map_splitter(&mut self) -> PResult<()> {
         self.context(|p| p.ws(TakeOpt::More(0)).and_then(|_| p.sym(b':')))
-- 
2.43.0


From e5b5f2f09f707a03fd80c957321d622336ea519e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:44 +0000
Subject: [PATCH 52/74] fix: wrapped plain strings only need a deeper
 indentation than the parent

---
 src/parser/base/grammar.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 4f3e876..f65366d 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -213,7 +213,8 @@ impl Parser<'_> {
                     for _ in 0..t - 1 {
                         v.push('\n');
                     }
-                    if p.doc_marker() || p.ind(level).is_err() {
+                    if p.doc_marker() || (!inner && p.ind_wrapped(level).is_err()) {
+                        p.backward();
                         break;
                     }
                     // Remove leading space
@@ -231,6 +232,16 @@ impl Parser<'_> {
         })
     }
 
+    /// Match the indentation of wrapped plain string, which is deeper than the
+    /// parent.
+    fn ind_wrapped(&mut self, level: usize) -> PResult<()> {
+        if level > 0 {
+            self.ind(level - 1)?;
+            self.sym(b' ')?;
+        }
+        Ok(())
+    }
+
     /// Match literal string.
     pub fn string_literal(&mut self, level: usize) -> PResult<String> {
         self.attempt(|p| {
-- 
2.43.0


From c67ee5c59e7bf594b4f75eb3f9216e5e2792cedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:44 +0000
Subject: [PATCH 53/74] fix: tabs are not indentations

---
 src/parser/base/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index f65366d..6ba9046 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -523,7 +523,7 @@ impl Parser<'_> {
         if level > 0 {
             self.ind(level - 1)?;
         }
-        let ind = self.count(|p| p.take_while(|c| c.is_ascii_whitespace(), TakeOpt::More(0)))?;
+        let ind = self.count(|p| p.take_while(|c| *c == b' ', TakeOpt::More(0)))?;
         if level == self.indent.len() {
             self.indent.push(ind);
         } else {
-- 
2.43.0


From e8768b24c17c97896d8935f537a068282d947ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:50 +0000
Subject: [PATCH 54/74] fix: numbers can be the first line of a plain string

---
 src/parser/base/grammar.rs | 28 +++++++++++++++++++++++++---
 src/parser/mod.rs          | 25 +++++++++++++++++++------
 2 files changed, 44 insertions(+), 9 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 6ba9046..7b6d474 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -213,7 +213,7 @@ impl Parser<'_> {
                     for _ in 0..t - 1 {
                         v.push('\n');
                     }
-                    if p.doc_marker() || (!inner && p.ind_wrapped(level).is_err()) {
+                    if p.ind_wrapped(level, inner).is_err() {
                         p.backward();
                         break;
                     }
@@ -234,14 +234,36 @@ impl Parser<'_> {
 
     /// Match the indentation of wrapped plain string, which is deeper than the
     /// parent.
-    fn ind_wrapped(&mut self, level: usize) -> PResult<()> {
-        if level > 0 {
+    fn ind_wrapped(&mut self, level: usize, flow: bool) -> PResult<()> {
+        if self.doc_marker() {
+            return Err(PError::Mismatch);
+        }
+        if level > 0 && !flow {
             self.ind(level - 1)?;
             self.sym(b' ')?;
         }
         Ok(())
     }
 
+    /// Check if the plain string is wrapped at the current position.
+    pub(crate) fn wrapped(&mut self, level: usize, flow: bool) -> bool {
+        let pos = self.pos;
+        let ret = self.context(|p| {
+            p.nl()?;
+            p.backward();
+            p.gap(true)?;
+            p.ind_wrapped(level, flow)?;
+            p.ws(TakeOpt::More(0))?;
+            if flow {
+                p.take_while(Self::not_in(b",:[]{}"), TakeOpt::One)
+            } else {
+                p.take_while(|_| true, TakeOpt::One)
+            }
+        });
+        self.pos = pos;
+        ret.is_ok()
+    }
+
     /// Match literal string.
     pub fn string_literal(&mut self, level: usize) -> PResult<String> {
         self.attempt(|p| {
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 4c09384..1c3dc0b 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -304,12 +304,8 @@ impl<R: Repr> Loader<'_, R> {
 
     /// Match flow scalar terminal.
     pub fn scalar_term(&mut self, level: usize, flow: bool) -> PResult<R::Rc> {
-        let yaml = if let Ok(s) = self.number(flow, Parser::float) {
-            R::new_rc(Yaml::Float(s))
-        } else if let Ok(s) = self.number(flow, Parser::sci_float) {
-            R::new_rc(Yaml::Float(s))
-        } else if let Ok(s) = self.number(flow, Parser::int) {
-            R::new_rc(Yaml::Int(s))
+        let yaml = if let Ok(n) = self.number_term(level, flow) {
+            n
         } else if let Ok(s) = self.anchor_use() {
             if self.cyclic_mode {
                 R::new_rc(Yaml::Alias(s))
@@ -341,6 +337,23 @@ impl<R: Repr> Loader<'_, R> {
         Ok(yaml)
     }
 
+    fn number_term(&mut self, level: usize, flow: bool) -> PResult<R::Rc> {
+        let n = if let Ok(s) = self.number(flow, Parser::float) {
+            Yaml::Float(s)
+        } else if let Ok(s) = self.number(flow, Parser::sci_float) {
+            Yaml::Float(s)
+        } else {
+            Yaml::Int(self.number(flow, Parser::int)?)
+        };
+        if self.wrapped(level, flow) {
+            // The first line of a plain string
+            self.backward();
+            Err(PError::Mismatch)
+        } else {
+            Ok(R::new_rc(n))
+        }
+    }
+
     /// Match flow sequence.
     pub fn seq_flow(&mut self, level: usize) -> PResult<R::Rc> {
         self.sym(b'[')?;
-- 
2.43.0


From 8da2ff20127ca82d176126e343d28358adc39ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 55/74] fix: tags of the scalars in the next line

---
 src/node.rs       |  5 +++++
 src/parser/mod.rs | 12 +++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index aecf200..05aab44 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -171,6 +171,11 @@ impl<R: Repr> Node<R> {
         }
     }
 
+    /// The specified tag, or an empty string.
+    pub(crate) fn raw_tag(&self) -> &str {
+        &self.tag
+    }
+
     /// YAML data.
     pub fn yaml(&self) -> &Yaml<R> {
         &self.yaml
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 1c3dc0b..7849a5b 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -115,6 +115,7 @@ pub struct Loader<'a, R: Repr> {
     anchors: Vec<Anchors<R>>,
     doc_ind: usize,
     depth: usize,
+    key_tag: String,
 }
 
 impl<'a, R: Repr> Loader<'a, R> {
@@ -126,6 +127,7 @@ impl<'a, R: Repr> Loader<'a, R> {
             anchors: Vec::new(),
             doc_ind: 0,
             depth: 0,
+            key_tag: String::new(),
         }
     }
 }
@@ -263,7 +265,7 @@ impl<R: Repr> Loader<'_, R> {
             self.bound()?;
         }
         self.forward();
-        let tag = match self.tag() {
+        let mut tag = match self.tag() {
             Ok(tag) => {
                 self.bound()?;
                 tag
@@ -290,6 +292,13 @@ impl<R: Repr> Loader<'_, R> {
         self.depth -= 1;
         let yaml = yaml?;
         self.forward();
+        // The tag of a scalar in the next line
+        let key_tag = core::mem::take(&mut self.key_tag);
+        if tag.is_empty() {
+            tag = key_tag;
+        } else if !key_tag.is_empty() {
+            return self.err("duplicated tag definition");
+        }
         let node = Node::new_repr(yaml, pos, &tag);
         if !anchor.is_empty()
             && self.anchors[self.doc_ind]
@@ -531,6 +540,7 @@ impl<R: Repr> Loader<'_, R> {
                     let is_wrapped = self.is_wrapped(doc);
                     if self.map_splitter().is_err() || self.bound().is_err() {
                         // Return key
+                        self.key_tag = k.raw_tag().to_string();
                         return Ok(k.clone_yaml());
                     }
                     if is_wrapped {
-- 
2.43.0


From af51808d4b3e1b5e5d34a775d201504f9ec49de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 56/74] fix: items with nothing behind the dash in the explicit
 keys

---
 src/parser/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 7849a5b..a53c04e 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -586,7 +586,7 @@ impl<R: Repr> Loader<'_, R> {
     /// Match the map item behind the complex mapping indicator. The sequences
     /// can start in the same line, and the value can be empty.
     fn complex_item(&mut self, level: usize, flow: bool) -> PResult<(Node<R>, Node<R>)> {
-        let map = !self.food().starts_with(b"- ");
+        let map = !self.is_item();
         let k = self
             .scalar(level + 1, map, flow)
             .or_else(|e| e.or(|| self.err("map key")))?;
@@ -599,13 +599,19 @@ impl<R: Repr> Loader<'_, R> {
             return Ok((k, Node::new(Yaml::Null, self.indicator(), "")));
         }
         self.forward();
-        let map = !self.food().starts_with(b"- ");
+        let map = !self.is_item();
         let v = self
             .scalar(level + 1, map, false)
             .or_else(|e| e.or(|| self.err("map value")))?;
         Ok((k, v))
     }
 
+    /// Check if an item of the sequence starts at the current position.
+    fn is_item(&self) -> bool {
+        let doc = self.food();
+        doc.starts_with(b"-") && doc.get(1).map_or(true, u8::is_ascii_whitespace)
+    }
+
     /// Check if the matched text is wrapped, which can not be an implicit key.
     fn is_wrapped(&self, doc: &[u8]) -> bool {
         doc[..doc.len() - self.food().len()]
-- 
2.43.0


From ae356241985b1f9a63296f9bbe19d8fe5b89bc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:13 +0000
Subject: [PATCH 57/74] fix: indentation of the document root and of the
 collections in the next line of an item

---
 src/parser/base/mod.rs | 12 ++++++++++++
 src/parser/mod.rs      | 25 ++++++++++++-------------
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/parser/base/mod.rs b/src/parser/base/mod.rs
index 4a8e0f8..56f9589 100644
--- a/src/parser/base/mod.rs
+++ b/src/parser/base/mod.rs
@@ -238,6 +238,18 @@ impl Parser<'_> {
         }
     }
 
+    /// Match and define the indent size of the document root, and clear the
+    /// indent settings of the last document.
+    pub(crate) fn ind_root(&mut self) {
+        while self.food().starts_with(b" ") {
+            self.pos += 1;
+        }
+        let line = &self.doc[..self.pos];
+        let ind = line.iter().rev().take_while(|c| **c == b' ').count();
+        let is_begin = matches!(line[..line.len() - ind].last(), None | Some(b'\n' | b'\r'));
+        self.indent = vec![if is_begin { ind } else { 0 }];
+    }
+
     /// Match indent.
     pub fn ind(&mut self, level: usize) -> PResult<()> {
         if level >= self.indent.len() {
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index a53c04e..20ef5d8 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -198,11 +198,11 @@ impl<R: Repr> Loader<'_, R> {
         self.context(|p| p.bound().unwrap_or_default());
         self.forward();
         self.anchors.push(Anchors::new());
-        // Clear the indent settings of the last document
-        self.context(|p| p.ind(0))?;
         if self.gap(true).is_ok() {
             self.forward();
         }
+        self.ind_root();
+        self.forward();
         let ret = if self.doc_end() {
             // Empty document
             Node::new(Yaml::Null, self.indicator(), "")
@@ -477,9 +477,10 @@ impl<R: Repr> Loader<'_, R> {
                 if map {
                     self.gap(true)?;
                     self.ind_define(level)?;
-                } else if self.gap(true).is_ok() {
-                    // Root
-                    self.ind(level)?;
+                } else if self.gap(true).is_ok() && self.ind_define(level)? == 0 && level > 0 {
+                    // Belongs to the parent
+                    self.backward();
+                    return Err(PError::Mismatch);
                 }
                 self.sym(b'-')?;
                 self.bound()?;
@@ -520,14 +521,12 @@ impl<R: Repr> Loader<'_, R> {
                         self.backward();
                         return Err(PError::Mismatch);
                     }
-                } else if self.gap(true).is_ok() {
-                    // Root
-                    self.ind(level)?;
-                    if self.doc_marker() {
-                        // Empty node
-                        self.backward();
-                        return Err(PError::Mismatch);
-                    }
+                } else if self.gap(true).is_ok()
+                    // Empty node, or belongs to the parent
+                    && (self.doc_marker() || (self.ind_define(level)? == 0 && level > 0))
+                {
+                    self.backward();
+                    return Err(PError::Mismatch);
                 }
                 self.forward();
                 if self.complex_mapping().is_ok() {
-- 
2.43.0


From 4110f19aa3d86c425d23cd5b33831ac1c7b59aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:56 +0000
Subject: [PATCH 58/74] fix: spaces in front of the collections in the same
 line

---
 src/parser/base/mod.rs |  6 ++++++
 src/parser/mod.rs      | 24 ++++++++++++++++--------
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/parser/base/mod.rs b/src/parser/base/mod.rs
index 56f9589..264624f 100644
--- a/src/parser/base/mod.rs
+++ b/src/parser/base/mod.rs
@@ -250,6 +250,12 @@ impl Parser<'_> {
         self.indent = vec![if is_begin { ind } else { 0 }];
     }
 
+    /// Define the indent size of the collections that start in the same line.
+    pub(crate) fn ind_inline(&mut self, level: usize, size: usize) {
+        self.indent.resize(level, 2);
+        self.indent.push(size);
+    }
+
     /// Match indent.
     pub fn ind(&mut self, level: usize) -> PResult<()> {
         if level >= self.indent.len() {
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 20ef5d8..7b8507f 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -482,8 +482,8 @@ impl<R: Repr> Loader<'_, R> {
                     self.backward();
                     return Err(PError::Mismatch);
                 }
-                self.sym(b'-')?;
-                self.bound()?;
+                let width = self.count(|p| p.sym(b'-').and_then(|_| p.bound()))?;
+                self.ind_inline(level + 1, width);
             } else {
                 if self.gap(true).is_err() && !self.doc_end() {
                     return self.err("sequence terminator");
@@ -491,9 +491,10 @@ impl<R: Repr> Loader<'_, R> {
                 if self.doc_end() || self.ind(level).is_err() {
                     break;
                 }
-                if self.sym(b'-').is_err() || self.bound().is_err() {
+                let Ok(width) = self.count(|p| p.sym(b'-').and_then(|_| p.bound())) else {
                     break;
-                }
+                };
+                self.ind_inline(level + 1, width);
                 self.forward();
             }
             self.forward();
@@ -529,7 +530,8 @@ impl<R: Repr> Loader<'_, R> {
                     return Err(PError::Mismatch);
                 }
                 self.forward();
-                if self.complex_mapping().is_ok() {
+                if let Ok(width) = self.count(|p| p.complex_mapping()) {
+                    self.ind_inline(level + 1, width);
                     self.forward();
                     m.push(self.complex_item(level, flow)?);
                     continue;
@@ -555,7 +557,8 @@ impl<R: Repr> Loader<'_, R> {
                     break;
                 }
                 self.forward();
-                if self.complex_mapping().is_ok() {
+                if let Ok(width) = self.count(|p| p.complex_mapping()) {
+                    self.ind_inline(level + 1, width);
                     self.forward();
                     m.push(self.complex_item(level, flow)?);
                     continue;
@@ -591,12 +594,17 @@ impl<R: Repr> Loader<'_, R> {
             .or_else(|e| e.or(|| self.err("map key")))?;
         let pos = self.pos;
         let is_ind = self.gap(true).is_err() || self.ind(level).is_ok();
-        if !is_ind || self.map_splitter().is_err() || self.bound().is_err() {
+        let width = match self.map_splitter() {
+            Ok(()) if is_ind => self.count(|p| p.bound()),
+            _ => Err(PError::Mismatch),
+        };
+        let Ok(width) = width else {
             // Empty value
             self.pos = pos;
             self.forward();
             return Ok((k, Node::new(Yaml::Null, self.indicator(), "")));
-        }
+        };
+        self.ind_inline(level + 1, width + 1);
         self.forward();
         let map = !self.is_item();
         let v = self
-- 
2.43.0


From f659ee17e7eb2183379501e79aa00a581bedbb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:47 +0000
Subject: [PATCH 59/74] fix: properties in front of a mismatched node are not
 lost

---
 src/parser/mod.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 7b8507f..fc30b46 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -256,16 +256,14 @@ impl<R: Repr> Loader<'_, R> {
         self.scalar_node(|p| p.scalar_term(level, flow))
     }
 
-    fn scalar_node<F>(&mut self, f: F) -> PResult<Node<R>>
-    where
-        F: FnOnce(&mut Self) -> PResult<R::Rc>,
-    {
+    /// Match the anchor and the tag of a node.
+    fn props(&mut self) -> PResult<(String, String)> {
         let mut anchor = self.anchor().unwrap_or_default();
         if !anchor.is_empty() {
             self.bound()?;
         }
         self.forward();
-        let mut tag = match self.tag() {
+        let tag = match self.tag() {
             Ok(tag) => {
                 self.bound()?;
                 tag
@@ -283,6 +281,22 @@ impl<R: Repr> Loader<'_, R> {
             }
         }
         self.forward();
+        Ok((anchor, tag))
+    }
+
+    fn scalar_node<F>(&mut self, f: F) -> PResult<Node<R>>
+    where
+        F: FnOnce(&mut Self) -> PResult<R::Rc>,
+    {
+        let start = self.pos;
+        let (anchor, mut tag) = self.props().map_err(|e| {
+            if let PError::Mismatch = e {
+                // The properties are not a part of the node
+                self.pos = start;
+                self.forward();
+            }
+            e
+        })?;
         let pos = self.indicator();
         if self.depth == MAX_DEPTH {
             return self.err("nesting depth");
-- 
2.43.0


From e8ec1b417861bec34b2eb17d85d419954792fe3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:55 +0000
Subject: [PATCH 60/74] fix: take nothing with an empty match range

---
 src/parser/base/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/base/mod.rs b/src/parser/base/mod.rs
index 264624f..8b3c01d 100644
--- a/src/parser/base/mod.rs
+++ b/src/parser/base/mod.rs
@@ -154,6 +154,11 @@ impl Parser<'_> {
         let pos = self.pos;
         let mut counter = 0;
         for c in self.food() {
+            if let TakeOpt::Range(_, c) = opt {
+                if counter == c {
+                    break;
+                }
+            }
             if !f(c) {
                 break;
             }
@@ -162,11 +167,6 @@ impl Parser<'_> {
             if let TakeOpt::One = opt {
                 break;
             }
-            if let TakeOpt::Range(_, c) = opt {
-                if counter == c {
-                    break;
-                }
-            }
         }
         if pos == self.pos {
             if let TakeOpt::More(c) | TakeOpt::Range(c, _) = opt {
-- 
2.43.0


From 8067d989c03eb130426f1b147532b088539b1a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:05 +0000
Subject: [PATCH 61/74] fix: move the cursor back behind a mismatched directive

---
 src/parser/base/directive.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/parser/base/directive.rs b/src/parser/base/directive.rs
index 9f2401d..6b207a4 100644
--- a/src/parser/base/directive.rs
+++ b/src/parser/base/directive.rs
@@ -4,19 +4,21 @@ use super::*;
 impl Parser<'_> {
     /// Match directives.
     pub fn directive(&mut self) -> PResult<()> {
-        self.sym(b'%')?;
-        self.context(|p| {
-            if p.sym_seq(b"YAML").is_ok() {
-                p.directive_yaml()
-            } else if p.sym_seq(b"TAG").is_ok() {
-                p.directive_tag()
-            } else {
-                Err(PError::Mismatch)
-            }
+        self.attempt(|p| {
+            p.sym(b'%')?;
+            p.context(|p| {
+                if p.sym_seq(b"YAML").is_ok() {
+                    p.directive_yaml()
+                } else if p.sym_seq(b"TAG").is_ok() {
+                    p.directive_tag()
+                } else {
+                    Err(PError::Mismatch)
+                }
+            })
+            // Unknown or invalid - ignore
+            .or_else(|e| e.or(|| p.take_while(Self::not_in(b"\n\r"), TakeOpt::More(0))))?;
+            p.gap(true).map(|_| ())
         })
-        // Unknown or invalid - ignore
-        .or_else(|e| e.or(|| self.take_while(Self::not_in(b"\n\r"), TakeOpt::More(0))))?;
-        self.gap(true).map(|_| ())
     }
 
     fn directive_yaml(&mut self) -> PResult<()> {
-- 
2.43.0


From ec1fa5ac68b510a4365bbff0b61c46baace67370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:05 +0000
Subject: [PATCH 62/74] fix: allow anchors in the sub-parsers of the loader
 before the document

---
 src/parser/mod.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index fc30b46..117bb6b 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -165,6 +165,15 @@ impl<R: Repr> Loader<'_, R> {
         self.anchors
     }
 
+    /// Get the anchors of the current document, which might be used without
+    /// [`Loader::doc`].
+    fn doc_anchors(&mut self) -> &mut Anchors<R> {
+        if self.anchors.len() == self.doc_ind {
+            self.anchors.push(Anchors::new());
+        }
+        &mut self.anchors[self.doc_ind]
+    }
+
     /// YAML entry point, return entire doc if exist.
     pub fn parse(&mut self) -> PResult<Vec<Node<R>>> {
         self.gap(true).unwrap_or_default();
@@ -197,6 +206,7 @@ impl<R: Repr> Loader<'_, R> {
     pub fn doc(&mut self) -> PResult<Node<R>> {
         self.context(|p| p.bound().unwrap_or_default());
         self.forward();
+        self.anchors.truncate(self.doc_ind);
         self.anchors.push(Anchors::new());
         if self.gap(true).is_ok() {
             self.forward();
@@ -314,11 +324,7 @@ impl<R: Repr> Loader<'_, R> {
             return self.err("duplicated tag definition");
         }
         let node = Node::new_repr(yaml, pos, &tag);
-        if !anchor.is_empty()
-            && self.anchors[self.doc_ind]
-                .insert(anchor, node.clone())
-                .is_some()
-        {
+        if !anchor.is_empty() && self.doc_anchors().insert(anchor, node.clone()).is_some() {
             self.err("duplicated anchor definition")
         } else {
             Ok(node)
@@ -332,7 +338,7 @@ impl<R: Repr> Loader<'_, R> {
         } else if let Ok(s) = self.anchor_use() {
             if self.cyclic_mode {
                 R::new_rc(Yaml::Alias(s))
-            } else if let Some(node) = self.anchors[self.doc_ind].get(&s) {
+            } else if let Some(node) = self.doc_anchors().get(&s) {
                 node.clone_yaml()
             } else {
                 return self.err("anchor referenced before definition");
-- 
2.43.0


From d1406ed1a61411e179114150d3a554008db5eb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:09 +0000
Subject: [PATCH 63/74] fix: keep the white spaces in front of the dumped
 documents

---
 src/dumper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 19229d3..8492f21 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -298,7 +298,7 @@ pub fn dump<R: Repr>(nodes: &[Node<R>], anchors: &[Anchors<R>]) -> String {
             let doc = Dumper::new(node, anchors).dump() + NL;
             match i {
                 0 => doc,
-                _ => format!("---{NL}{}", doc.trim_start()),
+                _ => format!("---{NL}{}", doc.strip_prefix(NL).unwrap_or(&doc)),
             }
         })
         .collect()
-- 
2.43.0


From 50416eb2bf4397b4f3e2a52195765966f95b170a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:47 +0000
Subject: [PATCH 64/74] fix: keep the sign of the negative zero when
 deserializing

---
 src/serde/de.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index 04a558b..cf3cbb0 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -563,9 +563,9 @@ where
 }
 
 fn to_float(s: &str) -> Option<f64> {
-    match to_i128(s) {
-        Ok(n) => Some(n as f64),
-        Err(_) => to_f64(s).ok(),
+    match to_f64(s) {
+        Ok(n) => Some(n),
+        Err(_) => to_i128(s).ok().map(|n| n as f64),
     }
 }
 
-- 
2.43.0


From 58f0e7c838518266ec038c78f36acf1730256480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:30 +0000
Subject: [PATCH 65/74] fix: provide the position of the errors of the visitors

---
 src/serde/de.rs    | 87 +++++++++++++++++++++++++++++++++++++---------
 src/serde/error.rs |  7 ++++
 2 files changed, 78 insertions(+), 16 deletions(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index cf3cbb0..5ab0f01 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -91,7 +91,12 @@ where
     D: DeserializeOwned,
 {
     let root = parse::<RcRepr>(doc).map_err(|e| e.to_string())?;
-    root.into_iter().map(D::deserialize).collect()
+    root.into_iter()
+        .map(|n| {
+            let pos = n.pos();
+            D::deserialize(n).map_err(|e| e.or_pos(pos))
+        })
+        .collect()
 }
 
 struct NodeVisitor<R: Repr>(PhantomData<R>);
@@ -161,7 +166,7 @@ impl<'a, R: Repr> SeqAccess<'a> for SeqVisitor<R> {
         T: DeserializeSeed<'a>,
     {
         match self.0.next() {
-            Some(e) => seed.deserialize(e).map(Some),
+            Some(e) => deserialize_at(seed, e).map(Some),
             None => Ok(None),
         }
     }
@@ -185,7 +190,7 @@ impl<'a, R: Repr> MapAccess<'a> for MapVisitor<R> {
         match self.0.next() {
             Some((k, v)) => {
                 self.1 = Some(v);
-                seed.deserialize(k).map(Some)
+                deserialize_at(seed, k).map(Some)
             }
             None => Ok(None),
         }
@@ -196,7 +201,7 @@ impl<'a, R: Repr> MapAccess<'a> for MapVisitor<R> {
         V: DeserializeSeed<'a>,
     {
         match self.1.take() {
-            Some(v) => seed.deserialize(v),
+            Some(v) => deserialize_at(seed, v),
             None => unreachable!("visit_value called before visit_key"),
         }
     }
@@ -213,7 +218,7 @@ impl<'a, R: Repr> EnumAccess<'a> for EnumVisitor<R> {
         V: DeserializeSeed<'a>,
     {
         let visitor = VariantVisitor(self.1, self.0.pos());
-        seed.deserialize(self.0).map(|v| (v, visitor))
+        deserialize_at(seed, self.0).map(|v| (v, visitor))
     }
 }
 
@@ -241,7 +246,7 @@ impl<'a, R: Repr> VariantAccess<'a> for VariantVisitor<R> {
         T: DeserializeSeed<'a>,
     {
         match self.0 {
-            Some(v) => seed.deserialize(v),
+            Some(v) => deserialize_at(seed, v),
             None => Err(self.missing("new type variant")),
         }
     }
@@ -252,7 +257,7 @@ impl<'a, R: Repr> VariantAccess<'a> for VariantVisitor<R> {
     {
         match self.0 {
             Some(node) => match node.yaml() {
-                Yaml::Seq(v) => visitor.visit_seq(SeqVisitor::from(v.clone())),
+                Yaml::Seq(v) => visit_seq(&node, v, visitor),
                 _ => Err(unexpected(&node, "tuple variant")),
             },
             None => Err(self.missing("tuple variant")),
@@ -269,7 +274,7 @@ impl<'a, R: Repr> VariantAccess<'a> for VariantVisitor<R> {
     {
         match self.0 {
             Some(node) => match node.yaml() {
-                Yaml::Map(m) => visitor.visit_map(MapVisitor::from(m.clone())),
+                Yaml::Map(m) => visit_map(&node, m, visitor),
                 _ => Err(unexpected(&node, "struct variant")),
             },
             None => Err(self.missing("struct variant")),
@@ -314,16 +319,14 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
                 Err(_) => Err(unexpected(&self, visitor)),
             },
             Yaml::Str(s) => visitor.visit_str(s),
-            Yaml::Seq(v) => visitor.visit_seq(SeqVisitor::from(v.clone())),
-            Yaml::Map(m) => visitor.visit_map(MapVisitor::from(m.clone())),
+            Yaml::Seq(v) => visit_seq(&self, v, visitor),
+            Yaml::Map(m) => visit_map(&self, m, visitor),
             Yaml::Alias(a) => Err(SerdeError::from(format!("anchor {a}")).pos(self.pos())),
         }
     }
 
     impl_deserializer! {
         fn deserialize_bool(Bool) => visit_bool(v => *v)
-        fn deserialize_seq(Seq) => visit_seq(a => SeqVisitor::from(a.clone()))
-        fn deserialize_map(Map) => visit_map(m => MapVisitor::from(m.clone()))
         fn deserialize_identifier(Str) => visit_str(s => s)
     }
 
@@ -345,6 +348,26 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         }
     }
 
+    fn deserialize_seq<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'a>,
+    {
+        match self.yaml() {
+            Yaml::Seq(v) => visit_seq(&self, v, visitor),
+            _ => Err(unexpected(&self, visitor)),
+        }
+    }
+
+    fn deserialize_map<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'a>,
+    {
+        match self.yaml() {
+            Yaml::Map(m) => visit_map(&self, m, visitor),
+            _ => Err(unexpected(&self, visitor)),
+        }
+    }
+
     fn deserialize_string<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: Visitor<'a>,
@@ -435,7 +458,7 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
     {
         match self.yaml() {
             Yaml::Str(s) => visitor.visit_str(s),
-            Yaml::Seq(v) => visitor.visit_seq(&mut SeqVisitor::from(v.clone())),
+            Yaml::Seq(v) => visit_seq(&self, v, visitor),
             _ => Err(unexpected(&self, visitor)),
         }
     }
@@ -512,8 +535,8 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         V: Visitor<'a>,
     {
         match self.yaml() {
-            Yaml::Seq(v) => visitor.visit_seq(SeqVisitor::from(v.clone())),
-            Yaml::Map(m) => visitor.visit_map(MapVisitor::from(m.clone())),
+            Yaml::Seq(v) => visit_seq(&self, v, visitor),
+            Yaml::Map(m) => visit_map(&self, m, visitor),
             _ => Err(unexpected(&self, visitor)),
         }
     }
@@ -541,7 +564,9 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
             Yaml::Str(_) => (self.clone(), None),
             _ => return Err(unexpected(&self, visitor)),
         };
-        visitor.visit_enum(EnumVisitor(k, v))
+        visitor
+            .visit_enum(EnumVisitor(k, v))
+            .map_err(|e| e.or_pos(self.pos()))
     }
 
     fn deserialize_ignored_any<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -552,6 +577,36 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
     }
 }
 
+/// The errors without a position belong to the node.
+fn deserialize_at<'a, R, S>(seed: S, node: Node<R>) -> Result<S::Value, SerdeError>
+where
+    R: Repr,
+    S: DeserializeSeed<'a>,
+{
+    let pos = node.pos();
+    seed.deserialize(node).map_err(|e| e.or_pos(pos))
+}
+
+fn visit_seq<'a, R, V>(node: &Node<R>, v: &Seq<R>, visitor: V) -> Result<V::Value, SerdeError>
+where
+    R: Repr,
+    V: Visitor<'a>,
+{
+    visitor
+        .visit_seq(SeqVisitor::from(v.clone()))
+        .map_err(|e| e.or_pos(node.pos()))
+}
+
+fn visit_map<'a, R, V>(node: &Node<R>, m: &Map<R>, visitor: V) -> Result<V::Value, SerdeError>
+where
+    R: Repr,
+    V: Visitor<'a>,
+{
+    visitor
+        .visit_map(MapVisitor::from(m.clone()))
+        .map_err(|e| e.or_pos(node.pos()))
+}
+
 fn to_int<T>(s: &str) -> Option<T>
 where
     T: TryFrom<i128> + TryFrom<u128>,
diff --git a/src/serde/error.rs b/src/serde/error.rs
index a784c14..3b7bc03 100644
--- a/src/serde/error.rs
+++ b/src/serde/error.rs
@@ -21,6 +21,13 @@ impl SerdeError {
         self.pos = pos;
         self
     }
+
+    pub(crate) fn or_pos(self, pos: u64) -> Self {
+        match self.pos {
+            0 => self.pos(pos),
+            _ => self,
+        }
+    }
 }
 
 impl From<String> for SerdeError {
-- 
2.43.0


From 300fcc2f37857b8fc7fe3e3178bc00e2f662560b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:38 +0000
Subject: [PATCH 66/74] fix: reject the rest items of a sequence when
 deserializing

---
 src/serde/de.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index 5ab0f01..8235ea4 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -592,9 +592,14 @@ where
     R: Repr,
     V: Visitor<'a>,
 {
-    visitor
-        .visit_seq(SeqVisitor::from(v.clone()))
-        .map_err(|e| e.or_pos(node.pos()))
+    let mut seq = SeqVisitor::from(v.clone());
+    let value = visitor
+        .visit_seq(&mut seq)
+        .map_err(|e| e.or_pos(node.pos()))?;
+    match seq.0.len() {
+        0 => Ok(value),
+        _ => Err(SerdeError::invalid_length(v.len(), &"fewer items").pos(node.pos())),
+    }
 }
 
 fn visit_map<'a, R, V>(node: &Node<R>, m: &Map<R>, visitor: V) -> Result<V::Value, SerdeError>
-- 
2.43.0


From d361aa17dfec3d298a7781357cbdc4db713e16a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:19 +0000
Subject: [PATCH 67/74] fix: read the integers of u128 in any notation

---
 src/serde/de.rs       |  9 ++++++---
 src/serde/ser_node.rs |  4 ++--
 src/yaml.rs           | 11 +++++++++++
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index 8235ea4..2ed0cc8 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -2,7 +2,7 @@ use super::SerdeError;
 use crate::{
     parse,
     repr::{RcRepr, Repr},
-    to_f64, to_i128, to_i64, Map, Node, Seq, Yaml,
+    to_f64, to_i128, to_i64, to_u128, Map, Node, Seq, Yaml,
 };
 use alloc::{format, string::ToString, vec::Vec};
 use core::marker::PhantomData;
@@ -618,14 +618,17 @@ where
 {
     match to_i128(s) {
         Ok(n) => n.try_into().ok(),
-        Err(_) => s.parse::<u128>().ok().and_then(|n| n.try_into().ok()),
+        Err(_) => to_u128(s).ok().and_then(|n| n.try_into().ok()),
     }
 }
 
 fn to_float(s: &str) -> Option<f64> {
     match to_f64(s) {
         Ok(n) => Some(n),
-        Err(_) => to_i128(s).ok().map(|n| n as f64),
+        Err(_) => match to_i128(s) {
+            Ok(n) => Some(n as f64),
+            Err(_) => to_u128(s).ok().map(|n| n as f64),
+        },
     }
 }
 
diff --git a/src/serde/ser_node.rs b/src/serde/ser_node.rs
index 3cf2809..648eb8c 100644
--- a/src/serde/ser_node.rs
+++ b/src/serde/ser_node.rs
@@ -1,4 +1,4 @@
-use crate::{repr::Repr, to_f64, to_i128, to_i64, Node, Yaml};
+use crate::{repr::Repr, to_f64, to_i128, to_i64, to_u128, Node, Yaml};
 use alloc::format;
 use serde::{
     ser::{Error as _, SerializeMap as _},
@@ -20,7 +20,7 @@ impl<R: Repr> Serialize for Node<R> {
                     serializer.serialize_u64(n)
                 } else if let Ok(n) = to_i128(n) {
                     serializer.serialize_i128(n)
-                } else if let Ok(n) = n.parse() {
+                } else if let Ok(n) = to_u128(n) {
                     serializer.serialize_u128(n)
                 } else {
                     Err(S::Error::custom(format!("integer {n} is out of range")))
diff --git a/src/yaml.rs b/src/yaml.rs
index e9706d8..172fed6 100644
--- a/src/yaml.rs
+++ b/src/yaml.rs
@@ -59,6 +59,17 @@ pub(crate) fn to_i128(s: &str) -> Result<i128, core::num::ParseIntError> {
     }
 }
 
+#[cfg(feature = "serde")]
+pub(crate) fn to_u128(s: &str) -> Result<u128, core::num::ParseIntError> {
+    if let Some(s) = s.strip_prefix("0x") {
+        u128::from_str_radix(s, 16)
+    } else if let Some(s) = s.strip_prefix("0o") {
+        u128::from_str_radix(s, 8)
+    } else {
+        s.parse()
+    }
+}
+
 pub(crate) fn to_f64(s: &str) -> Result<f64, core::num::ParseFloatError> {
     s.parse()
 }
-- 
2.43.0


From 1c6aa5f9e4cf87cf2420085b5f3fef8832f18887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:47 +0000
Subject: [PATCH 68/74] fix: reject a second anchor behind a tag and an anchor

---
 src/parser/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 117bb6b..6c0f9e6 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -286,6 +286,9 @@ impl<R: Repr> Loader<'_, R> {
             if anchor.is_empty() {
                 self.bound()?;
                 anchor = anchor2;
+                if self.context(|p| p.anchor().is_ok()) {
+                    return self.err("duplicated anchor definition");
+                }
             } else {
                 return self.err("duplicated anchor definition");
             }
-- 
2.43.0


From e590fbe445794fa9113ed5d274d2e4d921835cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:04 +0000
Subject: [PATCH 69/74] fix: reject a second tag of a flow node

---
 src/parser/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 6c0f9e6..ba5a633 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -294,6 +294,9 @@ impl<R: Repr> Loader<'_, R> {
             }
         }
         self.forward();
+        if !tag.is_empty() && self.food().starts_with(b"!") {
+            return self.err("duplicated tag definition");
+        }
         Ok((anchor, tag))
     }
 
-- 
2.43.0


From 2efa9d606e6fd5bfaa57763f358bf78553412683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:14 +0000
Subject: [PATCH 70/74] fix: reject a second anchor of a scalar in the next
 line

---
 src/parser/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index ba5a633..3d4a1df 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -116,6 +116,8 @@ pub struct Loader<'a, R: Repr> {
     doc_ind: usize,
     depth: usize,
     key_tag: String,
+    key_anchor: bool,
+    has_anchor: bool,
 }
 
 impl<'a, R: Repr> Loader<'a, R> {
@@ -128,6 +130,8 @@ impl<'a, R: Repr> Loader<'a, R> {
             doc_ind: 0,
             depth: 0,
             key_tag: String::new(),
+            key_anchor: false,
+            has_anchor: false,
         }
     }
 }
@@ -329,6 +333,12 @@ impl<R: Repr> Loader<'_, R> {
         } else if !key_tag.is_empty() {
             return self.err("duplicated tag definition");
         }
+        // The anchor of a scalar in the next line
+        let key_anchor = core::mem::take(&mut self.key_anchor);
+        self.has_anchor = key_anchor || !anchor.is_empty();
+        if key_anchor && !anchor.is_empty() {
+            return self.err("duplicated anchor definition");
+        }
         let node = Node::new_repr(yaml, pos, &tag);
         if !anchor.is_empty() && self.doc_anchors().insert(anchor, node.clone()).is_some() {
             self.err("duplicated anchor definition")
@@ -568,6 +578,7 @@ impl<R: Repr> Loader<'_, R> {
                     if self.map_splitter().is_err() || self.bound().is_err() {
                         // Return key
                         self.key_tag = k.raw_tag().to_string();
+                        self.key_anchor = self.has_anchor;
                         return Ok(k.clone_yaml());
                     }
                     if is_wrapped {
-- 
2.43.0


From c20a95d7bcef7376b6493dd390ab3213c9f1338c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:20 +0000
Subject: [PATCH 71/74] fix: keep the spaces of blank lines in literals

---
 src/parser/base/grammar.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 7b6d474..7cd4ae1 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -325,6 +325,10 @@ impl Parser<'_> {
                     has_nl = true;
                     t += 1;
                     p.forward();
+                    // The spaces behind the indentation are text
+                    if leading && size.map_or(false, |n| p.is_deeper(level, n)) {
+                        break;
+                    }
                     p.ws(TakeOpt::More(0))?;
                 }
                 if p.food().is_empty() {
@@ -384,6 +388,17 @@ impl Parser<'_> {
         })
     }
 
+    /// Detect the spaces more than the indentation of a wrapped string.
+    fn is_deeper(&mut self, level: usize, n: usize) -> bool {
+        let is_deeper = self.context(|p| {
+            (level == 0 || p.ind(level - 1).is_ok())
+                && (0..n).all(|_| p.sym(b' ').is_ok())
+                && p.sym_set(b" \t").is_ok()
+        });
+        self.backward();
+        is_deeper
+    }
+
     /// Detect the document markers at the current position.
     pub(crate) fn doc_marker(&self) -> bool {
         let doc = self.food();
-- 
2.43.0


From 43a510ec53046eaacea2069a74cdb23fbda78252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:20 +0000
Subject: [PATCH 72/74] fix: accept tabs as separators

---
 src/parser/base/grammar.rs | 10 ++++++----
 src/parser/base/mod.rs     |  7 ++++++-
 src/parser/mod.rs          |  5 ++++-
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 7cd4ae1..4aa0446 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -19,7 +19,7 @@ impl Parser<'_> {
         if self.food().is_empty() {
             return Ok(());
         }
-        self.sym_set(b":{}[] ,\n\r")?;
+        self.sym_set(b":{}[] \t,\n\r")?;
         self.back(1);
         self.ws(TakeOpt::More(0))
     }
@@ -59,7 +59,7 @@ impl Parser<'_> {
             p.food().is_empty()
                 || p.sym_set(b"\n\r#").is_ok()
                 || (flow && p.sym_set(b":,[]{}").is_ok())
-                || (p.sym(b':').is_ok() && (p.food().is_empty() || p.sym_set(b" \n\r").is_ok()))
+                || (p.sym(b':').is_ok() && (p.food().is_empty() || p.sym_set(b" \t\n\r").is_ok()))
         });
         if end {
             self.pos = pos;
@@ -170,7 +170,7 @@ impl Parser<'_> {
 
     /// Match plain string.
     pub fn string_plain(&mut self, level: usize, inner: bool) -> PResult<String> {
-        let mut patt = b"[]{}: \n\r".to_vec();
+        let mut patt = b"[]{}: \t\n\r".to_vec();
         if inner {
             patt.push(b',');
         }
@@ -194,14 +194,16 @@ impl Parser<'_> {
                 p.forward();
                 if p.food().is_empty()
                     || p.sym_seq(b": ").is_ok()
+                    || p.sym_seq(b":\t").is_ok()
                     || (p.sym(b':').is_ok() && (p.food().is_empty() || p.nl().is_ok()))
                     || p.sym_seq(b" #").is_ok()
+                    || p.sym_seq(b"\t#").is_ok()
                 {
                     p.backward();
                     break;
                 }
                 p.forward();
-                if p.sym_set(b": ").is_ok()
+                if p.sym_set(b": \t").is_ok()
                     || (!inner && !v.is_empty() && p.sym_set(b"{}[]").is_ok())
                 {
                     v.push_str(&p.text());
diff --git a/src/parser/base/mod.rs b/src/parser/base/mod.rs
index 8b3c01d..75a4006 100644
--- a/src/parser/base/mod.rs
+++ b/src/parser/base/mod.rs
@@ -246,10 +246,15 @@ impl Parser<'_> {
         }
         let line = &self.doc[..self.pos];
         let ind = line.iter().rev().take_while(|c| **c == b' ').count();
-        let is_begin = matches!(line[..line.len() - ind].last(), None | Some(b'\n' | b'\r'));
+        let is_begin = self.is_begin(self.pos - ind);
         self.indent = vec![if is_begin { ind } else { 0 }];
     }
 
+    /// Check if the position is the begin of a line.
+    pub(crate) fn is_begin(&self, pos: usize) -> bool {
+        matches!(self.doc[..pos].last(), None | Some(b'\n' | b'\r'))
+    }
+
     /// Define the indent size of the collections that start in the same line.
     pub(crate) fn ind_inline(&mut self, level: usize, size: usize) {
         self.indent.resize(level, 2);
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 3d4a1df..d9b1a9f 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -208,7 +208,10 @@ impl<R: Repr> Loader<'_, R> {
 
     /// Match one doc block.
     pub fn doc(&mut self) -> PResult<Node<R>> {
-        self.context(|p| p.bound().unwrap_or_default());
+        // A tab is not an indentation
+        if !self.is_begin(self.pos) || !self.food().starts_with(b"\t") {
+            self.context(|p| p.bound().unwrap_or_default());
+        }
         self.forward();
         self.anchors.truncate(self.doc_ind);
         self.anchors.push(Anchors::new());
-- 
2.43.0


From 69c64160145b1343ddde5461b708a3456aead319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:02 +0000
Subject: [PATCH 73/74] fix: round floats of single precision once

---
 src/serde/de.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index 2ed0cc8..372a6b3 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -401,8 +401,8 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         V: Visitor<'a>,
     {
         match self.yaml() {
-            Yaml::Int(n) | Yaml::Float(n) => match to_float(n) {
-                Some(n) => visitor.visit_f32(n as f32),
+            Yaml::Int(n) | Yaml::Float(n) => match to_single(n) {
+                Some(n) => visitor.visit_f32(n),
                 None => Err(unexpected(&self, visitor)),
             },
             _ => Err(unexpected(&self, visitor)),
@@ -632,6 +632,17 @@ fn to_float(s: &str) -> Option<f64> {
     }
 }
 
+// Not through `f64`, which would round twice
+fn to_single(s: &str) -> Option<f32> {
+    match s.parse() {
+        Ok(n) => Some(n),
+        Err(_) => match to_i128(s) {
+            Ok(n) => Some(n as f32),
+            Err(_) => to_u128(s).ok().map(|n| n as f32),
+        },
+    }
+}
+
 #[cold]
 fn out_of_range<R: Repr>(node: &Node<R>, n: &str, exp: impl Expected) -> SerdeError {
     let n = format!("integer `{n}`");
-- 
2.43.0


From cba3a27ecf22fdd117e2061887bcf8d24aab76e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:12 +0000
Subject: [PATCH 74/74] fix: end the prefix of the tag directive at a tab

---
 src/parser/base/directive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/base/directive.rs b/src/parser/base/directive.rs
index 6b207a4..cc90c1c 100644
--- a/src/parser/base/directive.rs
+++ b/src/parser/base/directive.rs
@@ -48,7 +48,7 @@ impl Parser<'_> {
             };
             p.ws(TakeOpt::More(1))?;
             let doc = p.context(|p| {
-                p.take_while(Self::not_in(b" \n\r"), TakeOpt::More(1))?;
+                p.take_while(Self::not_in(b" \t\n\r"), TakeOpt::More(1))?;
                 Ok(p.text())
             })?;
             p.tag.insert(tag, doc);
-- 
2.43.0

