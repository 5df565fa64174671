From e927c55e601fdf414a7d831dfa1c85a3ebc2fd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 01/16] fix: do not match children of unopaque nodes to
 descendants of opaque nodes

The position/kind candidates taken from the matched parent's children were
not filtered by opaque_descendants_b, unlike the b_by_kind index, so a child
of a plain node could be matched into an opaque (atomic) subtree of tree B.
---
 cinereus/src/matching.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cinereus/src/matching.rs b/cinereus/src/matching.rs
index 120f033..36e2507 100644
--- a/cinereus/src/matching.rs
+++ b/cinereus/src/matching.rs
@@ -462,7 +462,11 @@ fn bottom_up_phase<TA, TB>(
             // Note: We don't require b to have children - a node can go from having children to empty
             let candidates: Vec<NodeId> = tree_b
                 .children(parent_b)
-                .filter(|&b_id| !matching.contains_b(b_id) && tree_b.kind(b_id) == a_kind)
+                .filter(|&b_id| {
+                    !matching.contains_b(b_id)
+                        && !opaque_descendants_b.contains(&b_id)
+                        && tree_b.kind(b_id) == a_kind
+                })
                 .collect();
 
             // Match by position - don't fall back to first candidate as that can cause
@@ -595,6 +599,7 @@ fn bottom_up_phase<TA, TB>(
                 .children(parent_b)
                 .filter(|&b_id| {
                     !matching.contains_b(b_id)
+                        && !opaque_descendants_b.contains(&b_id)
                         && tree_b.child_count(b_id) == 0
                         && tree_b.kind(b_id) == a_kind
                 })
-- 
2.43.0


From 9fb30e1fa66d4c3ac095c0fa95da2d1178af5976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:44 +0000
Subject: [PATCH 02/16] fix: inject the script into the head element, not into
 the first tag starting with <head (such as <header>)

---
 hotmeal-server/src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/hotmeal-server/src/lib.rs b/hotmeal-server/src/lib.rs
index f5e8528..f8ff340 100644
--- a/hotmeal-server/src/lib.rs
+++ b/hotmeal-server/src/lib.rs
@@ -232,9 +232,18 @@ impl Default for LiveReloadServer {
 /// Searches for `<head>` (case-insensitive) and injects `content` immediately after it.
 /// If no `<head>` tag is found, prepends content at the start.
 pub fn inject_into_head(html: &str, content: &str) -> String {
-    // Find <head> or <head ...> tag (case-insensitive)
+    // Find <head> or <head ...> tag (case-insensitive), but not <header>
     let lower = html.to_ascii_lowercase();
-    if let Some(head_start) = lower.find("<head") {
+    let head_start = lower
+        .match_indices("<head")
+        .map(|(start, _)| start)
+        .find(|start| {
+            matches!(
+                lower.as_bytes().get(start + "<head".len()),
+                Some(b'>' | b'/' | b' ' | b'\t' | b'\n' | b'\r' | b'\x0c')
+            )
+        });
+    if let Some(head_start) = head_start {
         // Find the closing '>' of the <head> tag
         if let Some(head_end) = html[head_start..].find('>') {
             let insert_pos = head_start + head_end + 1;
-- 
2.43.0


From fac4cbf4bc0865174492bf9314b46fced9f592b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:13 +0000
Subject: [PATCH 03/16] fix: serialize the text of xmp, iframe, noembed,
 noframes and plaintext literally, as it is parsed

---
 hotmeal/src/dom.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index b259f3b..faabca0 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -949,7 +949,17 @@ fn is_void_element(tag: &str) -> bool {
 /// (html5ever's default). When scripting is enabled, noscript is parsed as rawtext,
 /// so it must also be serialized as rawtext for innerHTML to be idempotent.
 fn is_raw_text_element(tag: &str) -> bool {
-    matches!(tag, "script" | "style" | "noscript")
+    matches!(
+        tag,
+        "script"
+            | "style"
+            | "noscript"
+            | "xmp"
+            | "iframe"
+            | "noembed"
+            | "noframes"
+            | "plaintext"
+    )
 }
 
 /// What goes in each arena slot
-- 
2.43.0


From 616168304a4a9857ccde517a52d53819193c124b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:13 +0000
Subject: [PATCH 04/16] fix: inner HTML of a raw text element is its text, not
 escaped

---
 hotmeal/src/dom.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index faabca0..ec7ba97 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -401,9 +401,14 @@ impl<'a> Document<'a> {
 
     /// Serialize the inner HTML of a node (its children, not the node itself).
     pub fn serialize_inner_html(&self, node_id: NodeId) -> String {
+        let raw = matches!(&self.get(node_id).kind, NodeKind::Element(elem) if is_raw_text_element(elem.tag.as_ref()));
         let mut output = String::new();
         for child_id in node_id.children(&self.arena) {
-            self.serialize_node(&mut output, child_id);
+            if raw {
+                self.serialize_node_raw(&mut output, child_id);
+            } else {
+                self.serialize_node(&mut output, child_id);
+            }
         }
         output
     }
-- 
2.43.0


From c9a424d3554e22453891f327cd2572c61bc86b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:13 +0000
Subject: [PATCH 05/16] fix: a comment in front of <html> is not the root of
 the document

---
 hotmeal/src/dom.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index ec7ba97..f8673a1 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -1336,11 +1336,11 @@ impl<'a> TreeSink for ArenaSink<'a> {
     fn finish(self) -> Self::Output {
         let arena = self.arena.into_inner();
 
-        // Find the root element (usually <html>)
+        // Find the root element (usually <html>); comments may come before it
         let root = self
             .document
             .children(&arena)
-            .next()
+            .find(|&id| matches!(arena[id].get().kind, NodeKind::Element(_)))
             .unwrap_or(self.document);
 
         Document {
-- 
2.43.0


From 28aedc67df84eb71b701b47dd2f3276e5fde6317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:13 +0000
Subject: [PATCH 06/16] fix: compare the attributes of the old body too, so
 that they are not always rewritten and never removed

---
 hotmeal/src/diff.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index 8dfbc55..9984748 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -825,21 +825,26 @@ impl<'a> DiffTree for OpaqueAwareTree<'a> {
 /// If the document has no body, returns an empty body tree.
 pub fn build_tree_from_arena<'a>(doc: &Document<'a>) -> Tree<HtmlTreeTypes<'a>> {
     // Find body element, or create an empty body tree if none exists
-    let (body_tag, body_ns, body_id) = if let Some(body_id) = doc.body() {
+    let (body_tag, body_attrs, body_ns, body_id) = if let Some(body_id) = doc.body() {
         let body_node = doc.get(body_id);
         if let NodeKind::Element(elem) = &body_node.kind {
-            (elem.tag.clone(), body_node.ns, Some(body_id))
+            (
+                elem.tag.clone(),
+                elem.attrs.clone(),
+                body_node.ns,
+                Some(body_id),
+            )
         } else {
-            (LocalName::from("body"), Namespace::Html, None)
+            (LocalName::from("body"), Vec::new(), Namespace::Html, None)
         }
     } else {
-        (LocalName::from("body"), Namespace::Html, None)
+        (LocalName::from("body"), Vec::new(), Namespace::Html, None)
     };
 
     let root_data = NodeData {
         hash: NodeHash(0),
         kind: HtmlNodeKind::Element(body_tag, body_ns),
-        properties: HtmlProps { attrs: Vec::new() },
+        properties: HtmlProps { attrs: body_attrs },
         text: None,
     };
 
-- 
2.43.0


From 4ec05dbc9c2b65688d91b1684d80c123e48bed17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:13 +0000
Subject: [PATCH 07/16] fix: OpaqueChanged carries the path the node has once
 the patches before it are applied

---
 hotmeal/src/diff.rs | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index 9984748..3fe4f18 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -1163,26 +1163,8 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
         ));
     }
 
-    let mut patches = convert_ops_with_shadow(edit_ops, &tree_a.0, &diff_b, &matching)?;
-
-    // Now emit OpaqueChanged patches with correct paths from the shadow tree
-    // We need to compute paths for the opaque nodes. Since convert_ops_with_shadow
-    // already consumed the shadow tree, we build a simpler path computation.
-    // Actually, let's integrate opaque patches into convert_ops_with_shadow instead.
-    // For now, compute paths using the same approach as the shadow tree.
-    if !opaque_patches.is_empty() {
-        // Build a fresh shadow just for path computation
-        let shadow = ShadowTree::new(tree_a.0.arena.clone(), tree_a.0.root);
-        for (a_id, content) in opaque_patches {
-            let path = shadow.compute_path(a_id);
-            patches.push(Patch::OpaqueChanged {
-                path: NodePath(path),
-                content,
-            });
-        }
-    }
-
-    Ok(patches)
+    // OpaqueChanged patches come last, with the paths the nodes have by then
+    convert_ops_with_shadow(edit_ops, opaque_patches, &tree_a.0, &diff_b, &matching)
 }
 
 /// Encapsulates the shadow tree with slot-based path computation.
@@ -1541,6 +1523,7 @@ impl<'a> ShadowTree<'a> {
 /// They DISPLACE whatever is at the target position into a slot for later use.
 fn convert_ops_with_shadow<'a, T: DiffTree<Types = HtmlTreeTypes<'a>>>(
     ops: Vec<EditOp<HtmlTreeTypes<'a>>>,
+    opaque_changes: Vec<(NodeId, Stem<'a>)>,
     tree_a: &Tree<HtmlTreeTypes<'a>>,
     tree_b: &T,
     matching: &Matching,
@@ -1854,6 +1837,13 @@ fn convert_ops_with_shadow<'a, T: DiffTree<Types = HtmlTreeTypes<'a>>>(
         }
     }
 
+    for (node_a, content) in opaque_changes {
+        result.push(Patch::OpaqueChanged {
+            path: NodePath(shadow.compute_path(node_a)),
+            content,
+        });
+    }
+
     Ok(result)
 }
 
-- 
2.43.0


From 5fb27c1fe472d044ce00ba2f91018850046fd668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:13 +0000
Subject: [PATCH 08/16] fix: emit OpaqueChanged when only attributes inside an
 opaque node changed

---
 hotmeal/src/diff.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index 3fe4f18..1d29cd1 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -1146,8 +1146,14 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
         if !diff_b.is_opaque(b_id) {
             continue;
         }
-        // Compare hashes — if identical, no change
-        if tree_a.hash(a_id) == diff_b.hash(b_id) {
+        // Compare hashes, and the attributes below, which they do not cover — if identical, no change
+        if tree_a.hash(a_id) == diff_b.hash(b_id)
+            && tree_a
+                .descendants(a_id)
+                .skip(1)
+                .zip(diff_b.descendants(b_id).skip(1))
+                .all(|(a, b)| tree_a.properties(a).attrs == diff_b.properties(b).attrs)
+        {
             continue;
         }
         // Get the original DOM node IDs for serialization
-- 
2.43.0


From 77adc6e36a43f2ecf93613742e5bb6dcc0374db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:58 +0000
Subject: [PATCH 09/16] fix: replace the content of a node that stops being
 opaque

---
 hotmeal/src/diff.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index 1d29cd1..aadafb6 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -1142,12 +1142,15 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
     // After edit script, emit OpaqueChanged for matched opaque pairs with different inner HTML
     let mut opaque_patches = Vec::new();
     for (a_id, b_id) in matching.pairs() {
-        // Check if the node in the new tree is opaque
-        if !diff_b.is_opaque(b_id) {
+        // Check if the node is opaque, or was: its old content is not deleted by the edit script
+        let was_opaque = tree_a.is_opaque(a_id);
+        let is_opaque = diff_b.is_opaque(b_id);
+        if !was_opaque && !is_opaque {
             continue;
         }
         // Compare hashes, and the attributes below, which they do not cover — if identical, no change
-        if tree_a.hash(a_id) == diff_b.hash(b_id)
+        if was_opaque == is_opaque
+            && tree_a.hash(a_id) == diff_b.hash(b_id)
             && tree_a
                 .descendants(a_id)
                 .skip(1)
-- 
2.43.0


From 64b1106f9b9d99e453a48efdbc02f3a11440e6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:31 +0000
Subject: [PATCH 10/16] fix: the body is the root of a DiffableDocument and has
 no parent

---
 hotmeal/src/diff.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index aadafb6..70ca423 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -667,6 +667,10 @@ impl<'b, 'a> DiffTree for DiffableDocument<'b, 'a> {
     }
 
     fn parent(&self, id: NodeId) -> Option<NodeId> {
+        // The body is the root of this tree, whatever it stands in
+        if id == self.body_id {
+            return None;
+        }
         self.doc.arena.get(id).and_then(|n| n.parent())
     }
 
-- 
2.43.0


From 9e48bfbf60ad1e031b3bfde0de62fdbefc535438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:18 +0000
Subject: [PATCH 11/16] fix: parse puts nothing behind the content it wraps,
 which an unfinished textarea, comment or tag at the end took for content

---
 hotmeal/src/dom.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index f8673a1..c6e6181 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -1063,8 +1063,9 @@ pub fn parse(tendril: &StrTendril) -> Document<'_> {
     // When the input doesn't have a doctype, we need to wrap it carefully.
     // Simply prepending "<!DOCTYPE html>" would cause leading whitespace in
     // content like " *" to become inter-element whitespace before <html> and
-    // get discarded. Instead, wrap in <html><body>...</body></html> so the
-    // content is clearly in the body context.
+    // get discarded. Instead, open <html><body> in front of it so the content
+    // is clearly in the body context. Nothing goes behind it: closing tags would
+    // become content if the input ends in a textarea, a comment or inside a tag.
     let input = if has_doctype {
         tendril.clone()
     } else if has_html_structure(input_ref) {
@@ -1076,7 +1077,6 @@ pub fn parse(tendril: &StrTendril) -> Document<'_> {
         // Input is raw body content - wrap it to preserve leading whitespace
         let mut wrapped = StrTendril::from("<!DOCTYPE html><html><body>");
         wrapped.push_tendril(tendril);
-        wrapped.push_slice("</body></html>");
         wrapped
     };
 
-- 
2.43.0


From c21d28f589f4b5e06122e333a9fe79eb2d57528e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:37 +0000
Subject: [PATCH 12/16] fix: a patch that moves the root of a slot into itself
 is an error, not a panic or a cycle

---
 hotmeal/src/diff.rs | 3 +++
 hotmeal/src/dom.rs  | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index 70ca423..e33b34f 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -148,6 +148,9 @@ pub enum DiffError {
 
     /// node is not a comment
     NotAComment,
+
+    /// cannot move a node into itself
+    MoveIntoItself,
 }
 
 /// A path to a node in the DOM tree.
diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index c6e6181..825eeec 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -714,6 +714,14 @@ impl<'a> Document<'a> {
         let path = &at.0.0;
         let (parent_id, position) = self.get_slot_parent(path, slots)?;
 
+        // A slot's root can be named as the target of its own move
+        if parent_id
+            .ancestors(&self.arena)
+            .any(|ancestor| ancestor == node_to_insert)
+        {
+            return Err(DiffError::MoveIntoItself);
+        }
+
         debug!(
             "insert_at: path={:?} parent={} pos={}",
             path,
-- 
2.43.0


From 51a97d15b2498a9e7b23ab28ee1d97b15643d312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:58 +0000
Subject: [PATCH 13/16] fix: UpdateProps in the browser keeps the name of an
 attribute with an empty prefix

---
 hotmeal-wasm/src/lib.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/hotmeal-wasm/src/lib.rs b/hotmeal-wasm/src/lib.rs
index 0e9f8b8..f97063f 100644
--- a/hotmeal-wasm/src/lib.rs
+++ b/hotmeal-wasm/src/lib.rs
@@ -584,10 +584,9 @@ fn apply_patch(
 
                 for change in changes {
                     if let PropKey::Attr(ref qual_name) = change.name {
-                        let attr_name = if let Some(ref prefix) = qual_name.prefix {
-                            format!("{}:{}", prefix, qual_name.local)
-                        } else {
-                            qual_name.local.to_string()
+                        let attr_name = match qual_name.prefix.as_ref().filter(|p| !p.is_empty()) {
+                            Some(prefix) => format!("{}:{}", prefix, qual_name.local),
+                            None => qual_name.local.to_string(),
                         };
                         let value = match &change.value {
                             Some(v) => v.as_ref().to_string(),
-- 
2.43.0


From cafa45d5f9c2479a9cc412a26d6200351d3c3da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:58 +0000
Subject: [PATCH 14/16] fix: a Remove patch without a path is an error in the
 browser, not a panic

---
 hotmeal-wasm/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hotmeal-wasm/src/lib.rs b/hotmeal-wasm/src/lib.rs
index f97063f..871a91f 100644
--- a/hotmeal-wasm/src/lib.rs
+++ b/hotmeal-wasm/src/lib.rs
@@ -417,6 +417,9 @@ fn apply_patch(
 
         Patch::Remove { node } => {
             let NodeRef(path) = node;
+            if path.0.is_empty() {
+                return Err(JsValue::from_str("Remove: empty path"));
+            }
             let slot = path.0[0];
             if slot == 0 {
                 let rel_path = NodePath(SmallVec::from_slice(&path.0[1..]));
-- 
2.43.0


From 4782dcdcb815a5ae8b8891b299aa9543b7be0a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:04 +0000
Subject: [PATCH 15/16] fix: an attribute with an empty prefix is written by
 its name alone

---
 hotmeal/src/dom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 825eeec..80fbb3e 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -870,7 +870,7 @@ impl<'a> Document<'a> {
         for (name, value) in &elem.attrs {
             out.push(' ');
             // Serialize QualName with prefix if present
-            if let Some(ref prefix) = name.prefix {
+            if let Some(prefix) = name.prefix.as_ref().filter(|p| !p.is_empty()) {
                 out.push_str(prefix.as_ref());
                 out.push(':');
             }
-- 
2.43.0


From 182024ea221121c8474e0aadaceec718dbad249b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:36 +0000
Subject: [PATCH 16/16] fix: what goes into an element the browser only makes
 by parsing is made like anything else, so raw text and void elements survive

---
 hotmeal-wasm/src/lib.rs | 57 +++++------------------------------------
 1 file changed, 7 insertions(+), 50 deletions(-)

diff --git a/hotmeal-wasm/src/lib.rs b/hotmeal-wasm/src/lib.rs
index 871a91f..201c341 100644
--- a/hotmeal-wasm/src/lib.rs
+++ b/hotmeal-wasm/src/lib.rs
@@ -762,13 +762,7 @@ fn create_element_via_html(
             .replace('>', "&gt;");
         html.push_str(&format!(" {}=\"{}\"", attr_name, escaped_value));
     }
-    html.push('>');
-
-    for child in children {
-        serialize_insert_content(&mut html, child);
-    }
-
-    html.push_str(&format!("</{}>", tag));
+    html.push_str(&format!("></{}>", tag));
 
     let template = doc
         .create_element("template")?
@@ -776,52 +770,15 @@ fn create_element_via_html(
         .map_err(|_| JsValue::from_str("failed to create template element"))?;
     template.set_inner_html(&html);
 
-    template
+    let node = template
         .content()
         .first_child()
-        .ok_or_else(|| JsValue::from_str("template content is empty"))
-}
-
-/// Serialize InsertContent to HTML string
-fn serialize_insert_content(out: &mut String, content: &InsertContent) {
-    match content {
-        InsertContent::Element {
-            tag,
-            attrs,
-            children,
-        } => {
-            out.push('<');
-            out.push_str(tag);
-            for attr in attrs {
-                let attr_name = match attr.name.prefix.as_ref().filter(|p| !p.is_empty()) {
-                    Some(prefix) => format!("{}:{}", prefix, attr.name.local),
-                    None => attr.name.local.to_string(),
-                };
-                let escaped_value = attr
-                    .value
-                    .replace('&', "&amp;")
-                    .replace('"', "&quot;")
-                    .replace('<', "&lt;")
-                    .replace('>', "&gt;");
-                out.push_str(&format!(" {}=\"{}\"", attr_name, escaped_value));
-            }
-            out.push('>');
-            for child in children {
-                serialize_insert_content(out, child);
-            }
-            out.push_str("</");
-            out.push_str(tag);
-            out.push('>');
-        }
-        InsertContent::Text(text) => {
-            out.push_str(&text.replace('&', "&amp;").replace('<', "&lt;"));
-        }
-        InsertContent::Comment(text) => {
-            out.push_str("<!--");
-            out.push_str(text);
-            out.push_str("-->");
-        }
+        .ok_or_else(|| JsValue::from_str("template content is empty"))?;
+    for child in children {
+        let child_node = create_insert_content(doc, child)?;
+        node.append_child(&child_node)?;
     }
+    Ok(node)
 }
 
 /// Create a DOM node from InsertContent.
-- 
2.43.0

