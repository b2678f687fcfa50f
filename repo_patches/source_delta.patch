From 3df12c09804f27b6c939efafecddf54c6b22c52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 01/34] fix: SourceRange::to_string slices by byte offsets, not
 character offsets

---
 src/source_range.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/source_range.rs b/src/source_range.rs
index 8065669..a27581d 100644
--- a/src/source_range.rs
+++ b/src/source_range.rs
@@ -1,5 +1,3 @@
-use substring::Substring;
-
 use super::parser::ParserRef;
 
 #[derive(Copy, Clone, Debug, PartialEq)]
@@ -18,10 +16,14 @@ impl SourceRange {
   }
 
   pub fn to_string<'a>(&self, parser: &ParserRef) -> String {
+    let parser = parser.borrow();
+    let end = std::cmp::min(self.end, parser.source.len());
+
+    // Ranges are byte offsets (not character offsets)
     parser
-      .borrow()
       .source
-      .substring(self.start, self.end)
+      .get(self.start..end)
+      .unwrap_or("")
       .to_string()
   }
 
-- 
2.43.0


From 732986bc52c6436bb3ca13ccda8e1258d13e1c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 02/34] fix: Sequence advances by whole characters over
 non-ASCII content

---
 src/matchers/sequence.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/matchers/sequence.rs b/src/matchers/sequence.rs
index 97b7034..2acbadb 100644
--- a/src/matchers/sequence.rs
+++ b/src/matchers/sequence.rs
@@ -10,6 +10,11 @@ use crate::token::StandardToken;
 
 use super::fetch::{Fetchable, FetchableType};
 
+// Length in bytes of the character at the given (byte) offset
+fn char_len_at(source: &str, offset: usize) -> usize {
+  source[offset..].chars().next().map_or(1, |c| c.len_utf8())
+}
+
 pub struct SequencePattern<T>
 where
   T: Fetchable,
@@ -215,12 +220,12 @@ where
             parts.push(&source[previous_index..index]);
           }
 
-          index = source_range.end + 1;
-          previous_index = index - 1;
+          previous_index = source_range.end;
+          index = previous_index + char_len_at(source, previous_index);
 
           continue;
         } else {
-          index += 1;
+          index += char_len_at(source, index);
           continue;
         }
       }
-- 
2.43.0


From edbd11891cc3d3fcb227e7f148ec7222e8fbf458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:37 +0000
Subject: [PATCH 03/34] fix: flattening a token does not give back source it
 discarded at its end

---
 src/matchers/program.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index b310a30..8339ce9 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -781,10 +781,6 @@ fn handle_extract_token(
   }
 
   if update_offsets && !should_discard {
-    context
-      .borrow_mut()
-      .set_start(token.get_matched_range().end);
-
     contain_source_range(captured_range, &token.get_captured_range());
     contain_source_range(matched_range, &token.get_matched_range());
   }
@@ -835,6 +831,14 @@ fn handle_extract_token(
       update_offsets && !should_discard,
     );
   }
+
+  // The proxied token may have matched (and discarded) more source after
+  // its last child, so continue from the end of the token itself
+  if update_offsets && !should_discard {
+    context
+      .borrow_mut()
+      .set_start(token.get_matched_range().end);
+  }
 }
 
 fn handle_skip(
-- 
2.43.0


From 2afbbf695248c2079318cc8d65ab8d195f8f5da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:59 +0000
Subject: [PATCH 04/34] fix: Continue keeps propagating through programs and
 switches to the loop it targets

---
 src/matchers/program.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index 8339ce9..650eb2a 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -469,7 +469,7 @@ impl ProgramPattern {
                   );
                 }
 
-                return Ok(MatcherSuccess::Break((loop_name, data)));
+                return Ok(MatcherSuccess::Continue((loop_name, data)));
               }
               _ => {}
             }
@@ -530,7 +530,7 @@ impl ProgramPattern {
                 );
               }
 
-              return finalize_program_token(
+              match finalize_program_token(
                 program_token,
                 children,
                 captured_range,
@@ -538,7 +538,17 @@ impl ProgramPattern {
                 &self.iterate_range,
                 loop_count,
                 false,
-              );
+              ) {
+                Ok(final_token) => {
+                  return Ok(MatcherSuccess::Continue((
+                    loop_name,
+                    Box::new(final_token),
+                  )));
+                }
+                Err(error) => {
+                  return Err(error);
+                }
+              }
             }
           }
           MatcherSuccess::Stop => {
-- 
2.43.0


From 1efd5283c09265269461fbc49c5d2d7c6196438d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 05/34] fix: a Loop ends when an iteration consumes nothing,
 instead of hanging

---
 src/matchers/program.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index 650eb2a..aaba3e5 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -174,12 +174,16 @@ impl ProgramPattern {
       Some(range) => range.clone(),
       None => (0..1),
     };
+    let minimum = iterate_range.start;
     let mut iteration_result: Option<MatcherSuccess>;
     let mut loop_count = 0;
 
     for _ in iterate_range {
       iteration_result = None;
 
+      let iteration_start = sub_context.borrow().offset.start;
+      let iteration_children = children.len();
+
       if sub_context.borrow().debug_mode_level() > 1 {
         println!("{{{}/Iterating}}", program_token.borrow().get_name());
       }
@@ -559,6 +563,17 @@ impl ProgramPattern {
         None => {}
       }
 
+      // An iteration that consumes nothing would repeat forever, so it ends
+      // the loop (matching the empty string as often as is still required)
+      if is_loop && sub_context.borrow().offset.start <= iteration_start {
+        if children.len() > iteration_children {
+          loop_count += 1;
+        }
+
+        loop_count = std::cmp::max(loop_count, minimum);
+        break;
+      }
+
       loop_count += 1;
     }
 
-- 
2.43.0


From 9354d3feaf77e9148b4f2d277651eaca24f3c1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 06/34] fix: Loop honours its minimum and maximum, and zero
 matches of an unbounded Loop succeed

---
 src/matchers/program.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index aaba3e5..1ac66f4 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -19,8 +19,10 @@ where
     range.start = *start;
   }
 
-  if let Bound::Excluded(end) = r.end_bound() {
-    range.end = *end;
+  // The end of the range is the maximum number of repetitions
+  match r.end_bound() {
+    Bound::Excluded(end) | Bound::Included(end) => range.end = *end,
+    Bound::Unbounded => {}
   }
 
   range
@@ -178,7 +180,7 @@ impl ProgramPattern {
     let mut iteration_result: Option<MatcherSuccess>;
     let mut loop_count = 0;
 
-    for _ in iterate_range {
+    for _ in 0..iterate_range.end {
       iteration_result = None;
 
       let iteration_start = sub_context.borrow().offset.start;
@@ -340,7 +342,7 @@ impl ProgramPattern {
                       matched_range,
                       &self.iterate_range,
                       loop_count,
-                      false,
+                      true,
                     );
                   }
 
-- 
2.43.0


From 9a519efaec92abeabf0e13ca76661747fe516c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 07/34] fix: an Error that comes first in a Program keeps its
 position instead of an invalid range

---
 src/matchers/program.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index 1ac66f4..7dabb67 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -695,7 +695,8 @@ fn add_token_to_children(
       let mut token = token.borrow_mut();
       let source_range = token.get_matched_range();
 
-      if source_range.start == source_range.end {
+      // If nothing has been matched yet, then there is nothing to expand over
+      if source_range.start == source_range.end && matched_range.start != usize::MAX {
         let mut new_source_range = source_range.clone();
         new_source_range.start = matched_range.start;
 
-- 
2.43.0


From 879bcf45a75139c412a1a04e9da6ad026b93a856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:05 +0000
Subject: [PATCH 08/34] fix: a nested Program that only recorded errors no
 longer aborts its parent

---
 src/matchers/program.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index 7dabb67..377b1c6 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -608,6 +608,11 @@ fn contain_source_range(tsr: &mut SourceRange, ssr: &SourceRange) {
   }
 }
 
+fn contains_error(token: &TokenRef) -> bool {
+  let token = token.borrow();
+  token.flags_enabled(IS_ERROR) || token.get_children().iter().any(contains_error)
+}
+
 fn finalize_program_token(
   program_token: TokenRef,
   children: Vec<TokenRef>,
@@ -670,7 +675,10 @@ fn add_token_to_children(
 
       if assert_moving_forward && update_offsets {
         // Ensure that we are moving forward, and that the token doesn't have a zero width
-        if token.get_matched_range().end == context.borrow().offset.start {
+        // (unless it is only there to carry errors upstream)
+        if token.get_matched_range().end == context.borrow().offset.start
+          && !token.get_children().iter().any(contains_error)
+        {
           if context.borrow().debug_mode_level() > 1 {
             print!("{{{}/AddChild}} ", program_token.borrow().get_name());
           }
-- 
2.43.0


From cb1b97bb31ab138d1548dadfde24f34945f6d606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:27 +0000
Subject: [PATCH 09/34] fix: Panic range starts where its program starts, not
 at the start of the source

---
 src/matchers/program.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index 377b1c6..9f6840a 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -163,7 +163,7 @@ impl ProgramPattern {
     let program_token = StandardToken::new(
       &sub_context.borrow().parser,
       self.name.to_string(),
-      SourceRange::new_blank(),
+      SourceRange::new(start_offset, start_offset),
     );
     let mut children = Vec::<TokenRef>::with_capacity(self.patterns.len());
     let mut captured_range = SourceRange::new(usize::MAX, 0);
-- 
2.43.0


From e01e90f7df40a9dd167256370af5c05293c7c6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:46 +0000
Subject: [PATCH 10/34] fix: Pin fails on offsets outside of the source instead
 of panicking

---
 src/matchers/pin.rs | 58 ++++++++++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 19 deletions(-)

diff --git a/src/matchers/pin.rs b/src/matchers/pin.rs
index a3b5f95..1c96fc3 100644
--- a/src/matchers/pin.rs
+++ b/src/matchers/pin.rs
@@ -26,7 +26,7 @@ fn is_empty_offset(offset_str: &str) -> bool {
   }
 }
 
-fn parse_offset(start: usize, end: usize, offset_str: &str) -> usize {
+fn parse_offset(start: usize, end: usize, offset_str: &str) -> Option<usize> {
   if !is_empty_offset(offset_str) {
     let prefix = &offset_str[0..1];
     let part: &str;
@@ -43,12 +43,12 @@ fn parse_offset(start: usize, end: usize, offset_str: &str) -> usize {
       Ok(offset) => {
         if has_prefix {
           if prefix == "-" {
-            start - offset
+            start.checked_sub(offset)
           } else {
-            start + offset
+            start.checked_add(offset)
           }
         } else {
-          offset
+          Some(offset)
         }
       }
       Err(err) => {
@@ -59,7 +59,7 @@ fn parse_offset(start: usize, end: usize, offset_str: &str) -> usize {
       }
     }
   } else {
-    end
+    Some(end)
   }
 }
 
@@ -332,23 +332,43 @@ where
 
     let offset_value_parts: Vec<&str> = offset_value.split("..").collect();
 
-    // Set start offset
-    {
-      let start_offset = sub_context.borrow().offset.start;
-      sub_context.borrow_mut().offset.start =
-        parse_offset(start_offset, start_offset, offset_value_parts[0]);
-    }
+    let current_range = sub_context.borrow().offset;
 
-    // Set end offset (if specified)
-    if offset_value_parts.len() > 1 {
-      let start_offset = sub_context.borrow().offset.start;
-      let end_offset = sub_context.borrow().offset.end;
-      sub_context.borrow_mut().offset.end =
-        parse_offset(start_offset, end_offset, offset_value_parts[1]);
+    // Start offset
+    let start_offset = match parse_offset(
+      current_range.start,
+      current_range.start,
+      offset_value_parts[0],
+    ) {
+      Some(offset) => offset,
+      None => return Err(MatcherFailure::Fail),
+    };
+
+    // End offset (if specified)
+    let end_offset = if offset_value_parts.len() > 1 {
+      match parse_offset(start_offset, current_range.end, offset_value_parts[1]) {
+        Some(offset) => offset,
+        None => return Err(MatcherFailure::Fail),
+      }
+    } else {
+      current_range.end
+    };
+
+    // Fail if there is no such place in the source
+    if sub_context
+      .borrow()
+      .parser
+      .borrow()
+      .source
+      .get(start_offset..end_offset)
+      .is_none()
+    {
+      return Err(MatcherFailure::Fail);
     }
 
-    let start_offset = sub_context.borrow().offset.start;
-    let end_offset = sub_context.borrow().offset.end;
+    sub_context
+      .borrow_mut()
+      .set_offset(SourceRange::new(start_offset, end_offset));
 
     match &self.pattern {
       Some(matcher) => matcher
-- 
2.43.0


From 2906f7000e8420c73e59bb8af4681601198fb8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:49 +0000
Subject: [PATCH 11/34] fix: Debug around a non-consuming matcher does not make
 it consuming

---
 src/matchers/debug.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/matchers/debug.rs b/src/matchers/debug.rs
index 5a8a567..8f62fc0 100644
--- a/src/matchers/debug.rs
+++ b/src/matchers/debug.rs
@@ -101,6 +101,13 @@ impl Matcher for DebugPattern {
     result
   }
 
+  fn is_consuming(&self) -> bool {
+    match self.matcher {
+      Some(ref matcher) => matcher.borrow().is_consuming(),
+      None => true,
+    }
+  }
+
   fn get_name(&self) -> &str {
     "Debug"
   }
-- 
2.43.0


From d2fd3db786acae69bf9373527e1cc68452deadf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:53 +0000
Subject: [PATCH 12/34] fix: debug output does not panic on non-ASCII source

---
 src/parser_context.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser_context.rs b/src/parser_context.rs
index 9351bfd..24c6744 100644
--- a/src/parser_context.rs
+++ b/src/parser_context.rs
@@ -148,6 +148,11 @@ impl ParserContext {
       end_offset = self.offset.end;
     }
 
+    // Never split a character
+    while end_offset < self.offset.end && !parser.source.is_char_boundary(end_offset) {
+      end_offset += 1;
+    }
+
     parser.source[self.offset.start..end_offset].to_string()
   }
 
-- 
2.43.0


From 4966f07bd8219e97faa21b7af54b1cb63a61fa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:30 +0000
Subject: [PATCH 13/34] fix: SetScope without a scope pushes onto the scope in
 use, not the root scope

---
 src/matchers/set_scope.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/matchers/set_scope.rs b/src/matchers/set_scope.rs
index a39c973..36d7bd4 100644
--- a/src/matchers/set_scope.rs
+++ b/src/matchers/set_scope.rs
@@ -29,16 +29,15 @@ impl SetScopePattern {
   fn _exec(
     &self,
     context: ParserContextRef,
-    _: ScopeContextRef,
+    current_scope: ScopeContextRef,
   ) -> Result<MatcherSuccess, MatcherFailure> {
     let scope = match &self.scope {
       Some(scope) => scope.clone(),
       None => {
         // Push a new scope onto the stack
-        let scope = Scope::new();
-        context.borrow().scope.borrow_mut().push(scope.clone());
+        current_scope.borrow_mut().push(Scope::new());
 
-        context.borrow().scope.clone()
+        current_scope.clone()
       }
     };
 
@@ -50,7 +49,7 @@ impl SetScopePattern {
 
     if self.scope.is_none() {
       // Pop scope from stack
-      context.borrow().scope.borrow_mut().pop();
+      current_scope.borrow_mut().pop();
     }
 
     result
-- 
2.43.0


From 2c3d8ea3b825e5edd0ce1f8017be595e93d231fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:02 +0000
Subject: [PATCH 14/34] fix: executing a named matcher does not replace a
 definition of the same name

---
 src/matcher.rs       |  3 +--
 src/scope.rs         | 13 +++++++++++++
 src/scope_context.rs | 23 ++++++++++++++++++++++-
 3 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index bdef0a4..e937449 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -4,7 +4,6 @@ use std::rc::Rc;
 use super::token::TokenRef;
 use crate::parse_error::ParseError;
 use crate::parser_context::ParserContextRef;
-use crate::scope::VariableType;
 use crate::scope_context::ScopeContextRef;
 
 #[derive(Debug, PartialEq, Clone)]
@@ -37,7 +36,7 @@ pub trait Matcher {
     if self.has_custom_name() {
       scope
         .borrow_mut()
-        .set(self.get_name(), VariableType::Matcher(this_matcher.clone()));
+        .self_register(self.get_name(), this_matcher.clone());
     }
   }
 
diff --git a/src/scope.rs b/src/scope.rs
index 87d4e45..b1b87be 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -14,12 +14,15 @@ pub type ScopeRef = Rc<RefCell<Scope>>;
 #[derive(Debug, Clone)]
 pub struct Scope {
   references: HashMap<String, VariableType>,
+  // Matchers that registered themselves by name while executing
+  self_registered: HashMap<String, VariableType>,
 }
 
 impl Scope {
   pub fn new() -> ScopeRef {
     Rc::new(RefCell::new(Self {
       references: HashMap::new(),
+      self_registered: HashMap::new(),
     }))
   }
 
@@ -34,6 +37,16 @@ impl Scope {
   pub fn set(&mut self, name: &str, value: VariableType) -> Option<VariableType> {
     self.references.insert(name.to_string(), value)
   }
+
+  pub(crate) fn get_self_registered(&self, name: &str) -> Option<&VariableType> {
+    self.self_registered.get(name)
+  }
+
+  pub(crate) fn self_register(&mut self, name: &str, matcher: MatcherRef) {
+    self
+      .self_registered
+      .insert(name.to_string(), VariableType::Matcher(matcher));
+  }
 }
 
 #[cfg(test)]
diff --git a/src/scope_context.rs b/src/scope_context.rs
index 901dee9..fff1f31 100644
--- a/src/scope_context.rs
+++ b/src/scope_context.rs
@@ -1,6 +1,9 @@
 use std::{cell::RefCell, rc::Rc};
 
-use crate::scope::{Scope, ScopeRef, VariableType};
+use crate::{
+  matcher::MatcherRef,
+  scope::{Scope, ScopeRef, VariableType},
+};
 
 pub type ScopeContextRef = Rc<RefCell<ScopeContext>>;
 
@@ -38,9 +41,27 @@ impl ScopeContext {
       }
     }
 
+    // No definition, so fallback to the matchers that registered themselves
+    for scope in (&self.stack).into_iter().rev() {
+      if let Some(value) = scope.borrow().get_self_registered(name) {
+        return Some(value.clone());
+      }
+    }
+
     None
   }
 
+  // Make a matcher available by its own name, without
+  // replacing anything that has been defined by that name
+  pub(crate) fn self_register(&mut self, name: &str, matcher: MatcherRef) {
+    if self.stack.len() == 0 {
+      self.stack.push(Scope::new());
+    }
+
+    let top_index = self.stack.len() - 1;
+    self.stack[top_index].borrow_mut().self_register(name, matcher);
+  }
+
   pub fn set(&mut self, name: &str, value: VariableType) -> Option<VariableType> {
     if self.stack.len() == 0 {
       self.stack.push(Scope::new());
-- 
2.43.0


From a01bce2bde7f70e1e32618ea6693ceff85489c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:36 +0000
Subject: [PATCH 15/34] fix: every child token is linked to the parent that
 holds it

---
 src/matchers/discard.rs      | 4 ++++
 src/matchers/expand_range.rs | 1 +
 src/parser_context.rs        | 1 +
 3 files changed, 6 insertions(+)

diff --git a/src/matchers/discard.rs b/src/matchers/discard.rs
index 4e7322d..fa5d964 100644
--- a/src/matchers/discard.rs
+++ b/src/matchers/discard.rs
@@ -100,6 +100,10 @@ fn collect_errors(error_token: TokenRef, walk_token: TokenRef) {
   let is_error = walk_token.borrow().flags_enabled(crate::token::IS_ERROR);
 
   if is_error {
+    walk_token
+      .borrow_mut()
+      .set_parent(Some(error_token.clone()));
+
     let mut error_token = error_token.borrow_mut();
     error_token.get_children_mut().push(walk_token.clone());
 
diff --git a/src/matchers/expand_range.rs b/src/matchers/expand_range.rs
index f1032fe..0448c76 100644
--- a/src/matchers/expand_range.rs
+++ b/src/matchers/expand_range.rs
@@ -46,6 +46,7 @@ impl ExpandRange {
             matched_range,
           );
 
+          token.borrow_mut().set_parent(Some(wrapper_token.clone()));
           wrapper_token.borrow_mut().add_child(token);
 
           Ok(MatcherSuccess::ProxyChildren(wrapper_token))
diff --git a/src/parser_context.rs b/src/parser_context.rs
index 24c6744..8c5161c 100644
--- a/src/parser_context.rs
+++ b/src/parser_context.rs
@@ -330,6 +330,7 @@ impl ParserContext {
           let is_error = token.borrow().flags_enabled(IS_ERROR);
 
           if is_error {
+            token.borrow_mut().set_parent(Some(root_token.clone()));
             root_token
               .borrow_mut()
               .get_children_mut()
-- 
2.43.0


From 8958d1cc0a83302392c2e95955a57fc1f69b0e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:05 +0000
Subject: [PATCH 16/34] fix: errors inside of discarded source do not leave a
 phantom Error token behind

---
 src/matchers/discard.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/matchers/discard.rs b/src/matchers/discard.rs
index fa5d964..90291a3 100644
--- a/src/matchers/discard.rs
+++ b/src/matchers/discard.rs
@@ -149,7 +149,8 @@ fn skip_token(context: ParserContextRef, start_offset: usize, token: TokenRef) -
   collect_errors(error_token.clone(), token.clone());
 
   if error_token.borrow().get_children().len() > 0 {
-    return MatcherSuccess::Token(error_token);
+    // The wrapper itself is not an error, so only pass along its children
+    return MatcherSuccess::ProxyChildren(error_token);
   }
 
   let offset: isize = end_offset as isize - start_offset as isize;
-- 
2.43.0


From a9fcda9be1f104c3511356fc36c92fef7dee0429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:15 +0000
Subject: [PATCH 17/34] fix: PinToken values follow its ranges

---
 src/matchers/pin.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/matchers/pin.rs b/src/matchers/pin.rs
index 1c96fc3..928194d 100644
--- a/src/matchers/pin.rs
+++ b/src/matchers/pin.rs
@@ -132,6 +132,7 @@ impl Token for PinToken {
 
   fn set_captured_range(&mut self, range: crate::source_range::SourceRange) {
     self.captured_range = range;
+    self.captured_value = range.to_string(&self.parser);
   }
 
   fn get_matched_range(&self) -> &crate::source_range::SourceRange {
@@ -144,6 +145,7 @@ impl Token for PinToken {
 
   fn set_matched_range(&mut self, range: crate::source_range::SourceRange) {
     self.matched_range = range;
+    self.matched_value = range.to_string(&self.parser);
   }
 
   fn get_name(&self) -> &String {
-- 
2.43.0


From 7d9a3ba6e07db1e4c53e2e0f3cbe341721a995a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:03 +0000
Subject: [PATCH 18/34] fix: an invalid regular expression in a script is an
 error instead of a panic

---
 src/script/v1/parser.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index b9166a4..4502062 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -2,7 +2,10 @@ use std::{cell::RefCell, collections::HashMap, path::Path};
 
 use crate::{
   matcher::MatcherRef,
-  matchers::program::{MatchAction, ProgramPattern},
+  matchers::{
+    matches::MatchesPattern,
+    program::{MatchAction, ProgramPattern},
+  },
   parse_error::ParseError,
   parser::{Parser, ParserRef},
   parser_context::{ParserContext, ParserContextRef},
@@ -52,7 +55,13 @@ fn construct_matcher_from_inner_definition(
       value = format!("(?{}){}", flags.borrow().get_captured_value(), value);
     }
 
-    Ok(crate::Matches!(&value))
+    match regex::Regex::new(&value) {
+      Ok(regex) => Ok(MatchesPattern::new(regex)),
+      Err(error) => Err(format!(
+        "Invalid regular expression for a `Matches` pattern definition: {}",
+        error
+      )),
+    }
   } else if matcher_token_name == "SequenceMatcher" {
     let start_pattern = matcher_token.get_children()[0].borrow();
     let end_pattern = matcher_token.get_children()[1].borrow();
-- 
2.43.0


From 7c60269f9747d71a27e568271907f48cc6977b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:06 +0000
Subject: [PATCH 19/34] fix: an empty Sequence delimiter in a script is an
 error instead of a panic

---
 src/script/v1/parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 4502062..75a6966 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -68,11 +68,15 @@ fn construct_matcher_from_inner_definition(
     let escape_pattern = matcher_token.get_children()[2].borrow();
 
     if start_pattern.get_value().len() == 0 {
-      panic!("Sequence `start` pattern of \"\" makes no sense");
+      return Err(
+        "Value can not be empty for the `start` of a `Sequence` pattern definition".to_string(),
+      );
     }
 
     if end_pattern.get_value().len() == 0 {
-      panic!("Sequence `end` pattern of \"\" makes no sense");
+      return Err(
+        "Value can not be empty for the `end` of a `Sequence` pattern definition".to_string(),
+      );
     }
 
     Ok(crate::Sequence!(
-- 
2.43.0


From c80924aedaead6fb600f1ed1fe4902e758e79033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 20/34] fix: errors recorded while parsing a script fail its
 compilation

---
 src/script/v1/parser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 75a6966..01147a1 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -446,7 +446,14 @@ fn build_matcher_from_tokens(
   );
 
   match result {
-    Ok(_) => Ok((root_matcher, scope_context)),
+    Ok(_) => {
+      let parse_errors = parse_errors.into_inner();
+      if parse_errors.len() > 0 {
+        return Err(parse_errors);
+      }
+
+      Ok((root_matcher, scope_context))
+    }
     Err(error) => {
       if error.message != "" {
         let range = match &error.range {
-- 
2.43.0


From a8bf4923d368e90d380b1cc2de6dd8345efa9663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:40 +0000
Subject: [PATCH 21/34] fix: assigning an identifier to an identifier refers to
 the assigned identifier

---
 src/script/v1/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 01147a1..51ba076 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -329,7 +329,7 @@ fn build_matcher_from_tokens(
       if value_name == "Identifier" {
         // Identifier is assigned to identifier...
         // so this is a reference
-        scope_context.borrow_mut().set(&matcher_name, VariableType::Matcher(Ref!(_token.get_value().clone())));
+        scope_context.borrow_mut().set(&matcher_name, VariableType::Matcher(Ref!(_value.get_value().clone())));
       } else if value_name == "PatternDefinition" {
         // This is a pattern definition, so turn it into
         // a matcher, and store it as a reference
-- 
2.43.0


From bb53d8e5c6af2ec332ff12bed8aa99f96889f227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:42 +0000
Subject: [PATCH 22/34] fix: escape sequences in script attribute values are
 unescaped

---
 src/script/v1/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 51ba076..b843afe 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -184,7 +184,7 @@ fn construct_matcher_from_pattern_definition(
         let child = child.borrow();
         let child_children = child.get_children();
         let key = child_children[0].borrow().get_captured_value().clone();
-        let value = child_children[1].borrow().get_captured_value().clone();
+        let value = child_children[1].borrow().get_value().clone();
 
         attributes.insert(key, value);
       }
-- 
2.43.0


From fbdd521712285e7b4b0c87552dc3fc38b55e6418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:27 +0000
Subject: [PATCH 23/34] fix: script programs and switches must be closed

---
 src/script/v1/matchers/program_matcher.rs | 11 ++---------
 src/script/v1/matchers/switch_matcher.rs  | 24 +++++------------------
 2 files changed, 7 insertions(+), 28 deletions(-)

diff --git a/src/script/v1/matchers/program_matcher.rs b/src/script/v1/matchers/program_matcher.rs
index 243240f..a2cb270 100644
--- a/src/script/v1/matchers/program_matcher.rs
+++ b/src/script/v1/matchers/program_matcher.rs
@@ -8,16 +8,9 @@ macro_rules! ScriptProgramMatcher {
           $crate::ScriptWSN0!(?),
           $crate::ScriptPattern!(),
           $crate::ScriptWSN0!(?),
-          $crate::Discard!(
-            $crate::Optional!(
-              $crate::Program!(
-                $crate::Equals!("}"),
-                $crate::Break!(),
-              )
-            )
-          )
         )
-      )
+      ),
+      $crate::Discard!($crate::Equals!("}")),
     )
   };
 }
diff --git a/src/script/v1/matchers/switch_matcher.rs b/src/script/v1/matchers/switch_matcher.rs
index 6cf3fd3..6cd272f 100644
--- a/src/script/v1/matchers/switch_matcher.rs
+++ b/src/script/v1/matchers/switch_matcher.rs
@@ -6,27 +6,13 @@ macro_rules! ScriptSwitchMatcher {
       $crate::ProxyChildren!(
         $crate::Loop!(
           $crate::ScriptWSN0!(?),
-          $crate::Switch!(
-            $crate::Discard!(
-              $crate::Program!(
-                $crate::Equals!("]"),
-                $crate::Break!(),
-              )
-            ),
-            $crate::ScriptPattern!(),
-          ),
+          $crate::ScriptPattern!(),
           $crate::ScriptWSN0!(?),
-          $crate::Discard!(
-            $crate::Switch!(
-              $crate::Equals!("|"),
-              $crate::Program!(
-                $crate::Equals!("]"),
-                $crate::Break!(),
-              )
-            )
-          )
+          $crate::Discard!($crate::Equals!("|")),
         )
-      )
+      ),
+      $crate::ScriptWSN0!(?),
+      $crate::Discard!($crate::Equals!("]")),
     )
   };
 }
-- 
2.43.0


From 9b1dde42d27e2f93f6b41b11e746950183007e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:49 +0000
Subject: [PATCH 24/34] fix: unknown source after the adextopa scope of a
 script is an error

---
 src/script/v1/matchers/script.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/script/v1/matchers/script.rs b/src/script/v1/matchers/script.rs
index 4849081..af6e4bd 100644
--- a/src/script/v1/matchers/script.rs
+++ b/src/script/v1/matchers/script.rs
@@ -22,6 +22,22 @@ macro_rules! Script {
           return $crate::ErrorTokenResult!(context.clone(), "Nothing to parse. No scopes found.", &token.borrow().get_matched_range());
         }
 
+        let parser = _token.get_parser();
+        let source = &parser.borrow().source;
+        let end = _token.get_matched_range().end;
+        let has_unknown_source = pattern_scope.is_none() && !_token.has_child("Error") && source[end..].trim() != "";
+
+        drop(_token);
+
+        if has_unknown_source {
+          let range = $crate::source_range::SourceRange::new(end, source.len());
+          let message = format!("Syntax error. Expected a pattern defintion, but instead found: {}", &source[end..]);
+          let error = $crate::matchers::error::new_error_token_with_range(context.clone(), &message, &range);
+
+          error.borrow_mut().set_parent(Some(token.clone()));
+          token.borrow_mut().add_child(error);
+        }
+
         $crate::TokenResult!(token.clone())
       }
     )
-- 
2.43.0


From 4985e647a7096e62ef389db18df8e8edbc507637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:54 +0000
Subject: [PATCH 25/34] fix: whitespace is allowed before the end of an empty
 adextopa scope

---
 src/script/v1/matchers/adextopa_scope.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/script/v1/matchers/adextopa_scope.rs b/src/script/v1/matchers/adextopa_scope.rs
index c8f33d8..316058c 100644
--- a/src/script/v1/matchers/adextopa_scope.rs
+++ b/src/script/v1/matchers/adextopa_scope.rs
@@ -24,6 +24,7 @@ macro_rules! ScriptAdextopaScope {
             ),
           )
         ),
+        $crate::ScriptWSN0!(?),
         $crate::Discard!($crate::Equals!("-->")),
       ),
       |token, context, __| {
-- 
2.43.0


From 49eda2ebad109e063907440e8827d4bc45aa2c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:57 +0000
Subject: [PATCH 26/34] fix: an empty regular expression in a script is an
 error, not the pattern '//'

---
 src/script/v1/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index b843afe..be8352a 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -47,7 +47,7 @@ fn construct_matcher_from_inner_definition(
   } else if matcher_token_name == "RegexMatcher" {
     let mut value: String = matcher_token.get_value().clone();
 
-    if value == "" {
+    if value == "" || !matcher_token.has_child("Part") {
       return Err("Value can not be empty for a `Matches` pattern definition".to_string());
     }
 
-- 
2.43.0


From 777382e6075b7037a8d0d7ee7bc84490127c12c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:01 +0000
Subject: [PATCH 27/34] fix: an escaped '/' in a script regular expression
 matches a '/'

---
 src/script/v1/parser.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index be8352a..5abb13c 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -29,6 +29,31 @@ lazy_static::lazy_static! {
 
 pub const FLAG_LOG_STDERR: u32 = 0x01;
 
+// Inside of a script the delimiter `/` of a regular expression
+// has to be escaped, but it has no special meaning to `Regex`
+fn unescape_delimiter(source: &str) -> String {
+  let mut result = String::with_capacity(source.len());
+  let mut chars = source.chars();
+
+  while let Some(c) = chars.next() {
+    if c != '\\' {
+      result.push(c);
+      continue;
+    }
+
+    match chars.next() {
+      Some('/') => result.push('/'),
+      Some(escaped) => {
+        result.push(c);
+        result.push(escaped);
+      }
+      None => result.push(c),
+    }
+  }
+
+  result
+}
+
 fn construct_matcher_from_inner_definition(
   parser_context: ParserContextRef,
   matcher_token: TokenRef,
@@ -51,6 +76,8 @@ fn construct_matcher_from_inner_definition(
       return Err("Value can not be empty for a `Matches` pattern definition".to_string());
     }
 
+    value = unescape_delimiter(&value);
+
     if let Some(flags) = matcher_token.find_child("Flags") {
       value = format!("(?{}){}", flags.borrow().get_captured_value(), value);
     }
-- 
2.43.0


From 086f1d02f9480f816e8a2564eef6751604db3aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 28/34] fix: compiling a script reports why the script could
 not be parsed

---
 src/script/v1/parser.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 5abb13c..cb80353 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -307,6 +307,17 @@ fn build_matcher_from_tokens(
   from_file: Option<&str>,
   flags: u32,
 ) -> Result<(MatcherRef, ScopeContextRef), Vec<ParseError>> {
+  if root_token.borrow().get_name() == "Error" {
+    let _root_token = root_token.borrow();
+
+    if let Some(message) = _root_token.get_attribute("__message") {
+      return Err(vec![ParseError::new_with_range(
+        message,
+        _root_token.get_matched_range().clone(),
+      )]);
+    }
+  }
+
   if root_token.borrow().get_name() != "Script" {
     return Err(vec![ParseError::new(
       "Expected provided token to be a `Script` token",
-- 
2.43.0


From 40bba3d2683ecbc1e133189d17455709b617dfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:25 +0000
Subject: [PATCH 29/34] fix: a script syntax error is not replaced by 'Nothing
 to parse'

---
 src/script/v1/matchers/script.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/script/v1/matchers/script.rs b/src/script/v1/matchers/script.rs
index af6e4bd..e689644 100644
--- a/src/script/v1/matchers/script.rs
+++ b/src/script/v1/matchers/script.rs
@@ -18,7 +18,7 @@ macro_rules! Script {
         let adextopa_scope = _token.find_child("AdextopaScope");
         let pattern_scope = _token.find_child("PatternScope");
 
-        if adextopa_scope.is_none() && pattern_scope.is_none() {
+        if adextopa_scope.is_none() && pattern_scope.is_none() && !_token.has_child("Error") {
           return $crate::ErrorTokenResult!(context.clone(), "Nothing to parse. No scopes found.", &token.borrow().get_matched_range());
         }
 
-- 
2.43.0


From 65fae9f495217c2f74a26554a5eb37efafa1e3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 30/34] fix: a missing script or import file is an error
 instead of a panic

---
 src/script/v1/parser.rs | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index cb80353..2771ab3 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -395,8 +395,10 @@ fn build_matcher_from_tokens(
       let import_identifiers = import_identifiers.get_children();
       let path = _token.find_child("Path").unwrap().borrow().get_value().clone();
 
-      let full_path = Path::new(from_file).parent().unwrap().join(path).canonicalize().unwrap();
-      let file_name = full_path.to_str().unwrap();
+      let directory = Path::new(from_file).parent().unwrap_or(Path::new(""));
+      let full_path = directory.join(path);
+      let full_path = full_path.canonicalize().unwrap_or(full_path);
+      let file_name = &full_path.to_string_lossy().to_string();
 
       let import_result = match compile_script_from_file_internal(file_name, flags) {
         Ok(result) => result,
@@ -620,26 +622,35 @@ pub fn compile_script_from_str(
   }
 }
 
+fn load_script_file(file_name: &str) -> Result<(String, ParserRef), Vec<ParseError>> {
+  let io_error = |error: std::io::Error| {
+    vec![ParseError::new(&format!(
+      "Unable to read script file '{}': {}",
+      file_name, error
+    ))]
+  };
+
+  let full_path = Path::new(file_name).canonicalize().map_err(io_error)?;
+  let full_file_name = full_path.to_string_lossy().to_string();
+  let parser = Parser::new_from_file(&full_file_name).map_err(io_error)?;
+
+  Ok((full_file_name, parser))
+}
+
 fn compile_script_from_file_internal(
   file_name: &str,
   flags: u32,
 ) -> Result<(ParserContextRef, MatcherRef, ScopeContextRef), Vec<ParseError>> {
-  let full_path = Path::new(file_name).canonicalize().unwrap();
-  let full_file_name = full_path.to_str().unwrap();
+  let (full_file_name, parser) = load_script_file(file_name)?;
 
-  let parser = Parser::new_from_file(full_file_name).unwrap();
-  compile_script(parser, file_name.to_string(), Some(full_file_name), flags)
+  compile_script(parser, file_name.to_string(), Some(&full_file_name), flags)
 }
 
 pub fn compile_script_from_file(
   file_name: &str,
   flags: u32,
 ) -> Result<MatcherRef, Vec<ParseError>> {
-  let full_path = Path::new(file_name).canonicalize().unwrap();
-  let full_file_name = full_path.to_str().unwrap();
-
-  let parser = Parser::new_from_file(full_file_name).unwrap();
-  match compile_script(parser, file_name.to_string(), Some(full_file_name), flags) {
+  match compile_script_from_file_internal(file_name, flags) {
     Ok(result) => Ok(result.1),
     Err(errors) => Err(errors),
   }
-- 
2.43.0


From 9f126c55ef6226769f45ca53948d6f317bd4a572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:14 +0000
Subject: [PATCH 31/34] fix: a circular import is an error instead of a stack
 overflow

---
 src/script/v1/parser.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 2771ab3..9fade88 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -27,6 +27,10 @@ lazy_static::lazy_static! {
   static ref REPEAT_SPECIFIER: regex::Regex = regex::Regex::new(r"^(RepeatZeroOrMore|RepeatOneOrMore|RepeatRange)$").expect("Could not compile needed Regex for `script::Parser`");
 }
 
+thread_local! {
+  static COMPILING_FILES: RefCell<Vec<String>> = RefCell::new(Vec::new());
+}
+
 pub const FLAG_LOG_STDERR: u32 = 0x01;
 
 // Inside of a script the delimiter `/` of a regular expression
@@ -643,7 +647,19 @@ fn compile_script_from_file_internal(
 ) -> Result<(ParserContextRef, MatcherRef, ScopeContextRef), Vec<ParseError>> {
   let (full_file_name, parser) = load_script_file(file_name)?;
 
-  compile_script(parser, file_name.to_string(), Some(&full_file_name), flags)
+  // A script that is still being compiled can not be imported
+  if COMPILING_FILES.with(|files| files.borrow().contains(&full_file_name)) {
+    return Err(vec![ParseError::new(&format!(
+      "Circular import of script file '{}'",
+      full_file_name
+    ))]);
+  }
+
+  COMPILING_FILES.with(|files| files.borrow_mut().push(full_file_name.clone()));
+  let result = compile_script(parser, file_name.to_string(), Some(&full_file_name), flags);
+  COMPILING_FILES.with(|files| files.borrow_mut().pop());
+
+  result
 }
 
 pub fn compile_script_from_file(
-- 
2.43.0


From fe4d33de63a6cbb62047105b847eb31f72347d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 32/34] fix: a repeat range without a comma between its bounds
 is an error

---
 src/script/v1/matchers/repeat_specifier.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/script/v1/matchers/repeat_specifier.rs b/src/script/v1/matchers/repeat_specifier.rs
index c33c154..79f5367 100644
--- a/src/script/v1/matchers/repeat_specifier.rs
+++ b/src/script/v1/matchers/repeat_specifier.rs
@@ -51,6 +51,8 @@ pub fn get_repeat_specifier_range(token: TokenRef) -> Result<Range<usize>, Strin
         }
         None => Ok(minimum..usize::MAX),
       }
+    } else if token.has_child("Maximum") {
+      Err("Error with repeat specifier: Minimum and maximum must be separated by a `,`".to_string())
     } else {
       Ok(0..minimum)
     }
-- 
2.43.0


From 4a3f052dc38960c7cddd271f2000fd9332b9f746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:28 +0000
Subject: [PATCH 33/34] fix: an attribute name that is a lone underscore starts
 with an underscore

---
 src/script/v1/matchers/attribute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/script/v1/matchers/attribute.rs b/src/script/v1/matchers/attribute.rs
index cd07921..9615b76 100644
--- a/src/script/v1/matchers/attribute.rs
+++ b/src/script/v1/matchers/attribute.rs
@@ -11,7 +11,7 @@ macro_rules! ScriptAttribute {
       $crate::ScriptString!("Value"),
       $crate::Pin!("Pin", $crate::Fetch!("AttributeStartOffset.range");
         $crate::AssertIf!(
-          $crate::Matches!(r"_[\w+_]+"),
+          $crate::Matches!(r"_[\w+_]*"),
           "Attribute names can not start with an underscore"
         )
       )
-- 
2.43.0


From 5ee1c299e979495b2490e132f181f7f20a12fc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:13 +0000
Subject: [PATCH 34/34] fix: the root of a script can be imported by more than
 one name

---
 src/script/v1/parser.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 9fade88..d0714cf 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -436,11 +436,20 @@ fn build_matcher_from_tokens(
             return Err(ParseError::new_with_range("Error root import '_' must be named using 'import {{ _ as Name }}'", identifier_token.borrow().get_matched_range().clone()));
           }
 
-          import_root_matcher.borrow_mut().set_name(&import_name);
+          // Name the token instead of the matcher, because the
+          // root can be imported by more than one name
+          let token_name = import_name.clone();
+
+          let map_matcher = Map!(import_root_matcher.clone(), move |token, _, __| {
+            let mut _token = token.borrow_mut();
+            _token.set_name(&token_name);
+
+            TokenResult!(token.clone())
+          });
 
           // This should work all on its own, because this is the root pattern
           // and it implements its own scope when called
-          scope_context.borrow_mut().set(&import_name, VariableType::Matcher(import_root_matcher.clone()));
+          scope_context.borrow_mut().set(&import_name, VariableType::Matcher(SetScope!(map_matcher)));
         } else {
           let reference_matcher = import_scope_context.borrow().get(&identifier);
 
-- 
2.43.0

