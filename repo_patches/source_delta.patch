From 6e27dcb34453e1c9e963ff4299c4ced6b3e8a56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:33 +0000
Subject: [PATCH 1/4] fix: reject an End that doesn't match the frame it closes
 in try_to_yamd

The documentation of UnbalancedOpStream promises an error for such streams,
but the mismatching frame was popped and silently dropped.
---
 src/op/to_yamd.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/op/to_yamd.rs b/src/op/to_yamd.rs
index 4cc0629..7987671 100644
--- a/src/op/to_yamd.rs
+++ b/src/op/to_yamd.rs
@@ -430,8 +430,8 @@ pub fn try_to_yamd(ops: &[Op], source: &str) -> Result<Yamd, UnbalancedOpStream>
                             items.push(item);
                         }
                     }
-                    // coverage: defensive catchall for any (Node, Frame) mismatch; indicates a programmer or parser error
-                    _ => {}
+                    // the End doesn't match the frame it closes (or closes the root frame)
+                    _ => return Err(UnbalancedOpStream),
                 }
             }
         }
-- 
2.43.0


From 247d724d0402d2838618cb82d40c57c537d84eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 2/4] fix: return an error from try_to_yamd when a span doesn't
 fit the source

A stream paired with a truncated or changed source made the fallible
conversion panic while slicing.
---
 src/op/mod.rs     |  8 ++++++++
 src/op/to_yamd.rs | 13 +++++++------
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/op/mod.rs b/src/op/mod.rs
index 0df4eb5..0e66286 100644
--- a/src/op/mod.rs
+++ b/src/op/mod.rs
@@ -76,6 +76,14 @@ impl Content {
         }
     }
 
+    /// Like [`as_str`](Content::as_str), but returns `None` if the span is not a valid range of `source`.
+    pub(crate) fn get<'a>(&'a self, source: &'a str) -> Option<&'a str> {
+        match self {
+            Content::Span(range) if !range.is_empty() => source.get(range.clone()),
+            _ => Some(self.as_str(source)),
+        }
+    }
+
     /// Returns an owned copy of the text this content represents.
     pub fn to_string(&self, source: &str) -> String {
         self.as_str(source).to_owned()
diff --git a/src/op/to_yamd.rs b/src/op/to_yamd.rs
index 7987671..719a01b 100644
--- a/src/op/to_yamd.rs
+++ b/src/op/to_yamd.rs
@@ -6,7 +6,8 @@ use crate::nodes::{
 use crate::op::{Content, Node, Op, OpKind};
 
 /// Error returned by [`try_to_yamd`] when the op stream is not well-formed
-/// (unbalanced Start/End pairs, or an End that doesn't match the frame it closes).
+/// (unbalanced Start/End pairs, an End that doesn't match the frame it closes, or text whose
+/// span is not a valid range of the source).
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub struct UnbalancedOpStream;
 
@@ -214,7 +215,7 @@ pub fn try_to_yamd(ops: &[Op], source: &str) -> Result<Yamd, UnbalancedOpStream>
         match &op.kind {
             OpKind::Start(node) => match node {
                 Node::Heading => {
-                    let level = extract_heading_level(&op.content, source);
+                    let level = extract_heading_level(&op.content, source)?;
                     stack.push(Frame::Heading {
                         level,
                         body: Vec::new(),
@@ -237,7 +238,7 @@ pub fn try_to_yamd(ops: &[Op], source: &str) -> Result<Yamd, UnbalancedOpStream>
                 _ => stack.push(Frame::from_node(node)),
             },
             OpKind::Value => {
-                let text = op.content.to_string(source);
+                let text = op.content.get(source).ok_or(UnbalancedOpStream)?.to_owned();
                 let top = stack.last_mut().ok_or(UnbalancedOpStream)?;
                 match top {
                     Frame::Heading { body, .. } => {
@@ -444,9 +445,9 @@ pub fn try_to_yamd(ops: &[Op], source: &str) -> Result<Yamd, UnbalancedOpStream>
     }
 }
 
-fn extract_heading_level(content: &Content, source: &str) -> u8 {
-    let s = content.as_str(source);
-    s.chars().take_while(|&c| c == '#').count() as u8
+fn extract_heading_level(content: &Content, source: &str) -> Result<u8, UnbalancedOpStream> {
+    let s = content.get(source).ok_or(UnbalancedOpStream)?;
+    Ok(s.chars().take_while(|&c| c == '#').count() as u8)
 }
 
 fn trim_trailing_newline_from_text(body: &mut Vec<ParagraphNodes>) {
-- 
2.43.0


From 2baddc0880c853fac72eea300bfa66a39e647927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 3/4] fix: make the order of equal counts in token-stat
 deterministic

Kinds with the same count were printed in HashMap iteration order, which
changes from run to run.
---
 utils/src/commands/token_stat.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils/src/commands/token_stat.rs b/utils/src/commands/token_stat.rs
index 09ab1e0..24857e7 100644
--- a/utils/src/commands/token_stat.rs
+++ b/utils/src/commands/token_stat.rs
@@ -28,7 +28,9 @@ pub fn token_stat(path: PathBuf) {
     );
     println!("{}\n", tab("Total token count", total.to_string().as_str()));
 
-    table.sort_by(|(_, left), (_, right)| right.cmp(left));
+    table.sort_by(|(left_kind, left), (right_kind, right)| {
+        right.cmp(left).then_with(|| left_kind.cmp(right_kind))
+    });
     table
         .iter()
         .for_each(|(kind, count)| println!("{}", tab(kind.as_ref(), count.to_string().as_str())));
-- 
2.43.0


From 7dab4d29cb40c6b06384c39058ea37bc61a236bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:02 +0000
Subject: [PATCH 4/4] fix: don't panic in random when the maximum literal
 length is 3 or less

The range of literal lengths was empty as soon as a literal was drawn.
---
 utils/src/commands/random.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/src/commands/random.rs b/utils/src/commands/random.rs
index fdb84c4..4872b43 100644
--- a/utils/src/commands/random.rs
+++ b/utils/src/commands/random.rs
@@ -29,6 +29,10 @@ pub fn random(length: usize, max_literal_len: usize) {
         TokenKind::Literal => 21,
     };
 
+    // keep the range of literal lengths non-empty for any requested maximum
+    let max_literal_len = max_literal_len.max(2);
+    let min_literal_len = 3.min(max_literal_len - 1);
+
     let mut out = String::with_capacity(length + 10);
     while out.len() < length {
         let token = match rng.gen_range(0..=21) {
@@ -53,7 +57,7 @@ pub fn random(length: usize, max_literal_len: usize) {
             18 => ")",
             19 => "_",
             20 => "|",
-            _ => &random_string(rng.gen_range(3..max_literal_len), &mut rng),
+            _ => &random_string(rng.gen_range(min_literal_len..max_literal_len), &mut rng),
         };
         out.push_str(token);
     }
-- 
2.43.0

