From 554b8cc6a1c2beec89b0266984c0956679c16cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:05 +0000
Subject: [PATCH 01/15] fix: do not panic when a node is re-inserted next to
 its current neighbour

append, prepend, insert_before and insert_after borrowed self mutably before
detaching the new node. When self was the parent or a sibling of the new node,
detaching it tried to borrow self a second time and panicked.
---
 src/tree.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 4578bbb..17c3337 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -235,14 +235,16 @@ impl<T> Node<T> {
     /// # Panics
     ///
     /// Panics if the node, the new child, or one of their adjoining nodes is currently borrowed.
-    pub fn append(&mut self, new_child: Node<T>) {
+    pub fn append(&mut self, mut new_child: Node<T>) {
         assert!(*self != new_child, "a node cannot be appended to itself");
 
+        // `self` can be adjoining to the new node, so detach it before borrowing `self`.
+        new_child.detach();
+
         let mut self_borrow = self.0.borrow_mut();
         let mut last_child_opt = None;
         {
             let mut new_child_borrow = new_child.0.borrow_mut();
-            new_child_borrow.detach();
             new_child_borrow.root = Some(self_borrow.root.clone().unwrap_or(Rc::downgrade(&self.0)));
             new_child_borrow.parent = Some(Rc::downgrade(&self.0));
             if let Some(last_child_weak) = self_borrow.last_child.take() {
@@ -270,13 +272,15 @@ impl<T> Node<T> {
     /// # Panics
     ///
     /// Panics if the node, the new child, or one of their adjoining nodes is currently borrowed.
-    pub fn prepend(&mut self, new_child: Node<T>) {
+    pub fn prepend(&mut self, mut new_child: Node<T>) {
         assert!(*self != new_child, "a node cannot be prepended to itself");
 
+        // `self` can be adjoining to the new node, so detach it before borrowing `self`.
+        new_child.detach();
+
         let mut self_borrow = self.0.borrow_mut();
         {
             let mut new_child_borrow = new_child.0.borrow_mut();
-            new_child_borrow.detach();
             new_child_borrow.root = Some(self_borrow.root.clone().unwrap_or(Rc::downgrade(&self.0)));
             new_child_borrow.parent = Some(Rc::downgrade(&self.0));
             match self_borrow.first_child.take() {
@@ -302,13 +306,15 @@ impl<T> Node<T> {
     /// # Panics
     ///
     /// Panics if the node, the new sibling, or one of their adjoining nodes is currently borrowed.
-    pub fn insert_after(&mut self, new_sibling: Node<T>) {
+    pub fn insert_after(&mut self, mut new_sibling: Node<T>) {
         assert!(*self != new_sibling, "a node cannot be inserted after itself");
 
+        // `self` can be adjoining to the new node, so detach it before borrowing `self`.
+        new_sibling.detach();
+
         let mut self_borrow = self.0.borrow_mut();
         {
             let mut new_sibling_borrow = new_sibling.0.borrow_mut();
-            new_sibling_borrow.detach();
             new_sibling_borrow.root = self_borrow.root.clone();
             new_sibling_borrow.parent = self_borrow.parent.clone();
             new_sibling_borrow.previous_sibling = Some(Rc::downgrade(&self.0));
@@ -342,14 +348,16 @@ impl<T> Node<T> {
     /// # Panics
     ///
     /// Panics if the node, the new sibling, or one of their adjoining nodes is currently borrowed.
-    pub fn insert_before(&mut self, new_sibling: Node<T>) {
+    pub fn insert_before(&mut self, mut new_sibling: Node<T>) {
         assert!(*self != new_sibling, "a node cannot be inserted before itself");
 
+        // `self` can be adjoining to the new node, so detach it before borrowing `self`.
+        new_sibling.detach();
+
         let mut self_borrow = self.0.borrow_mut();
         let mut previous_sibling_opt = None;
         {
             let mut new_sibling_borrow = new_sibling.0.borrow_mut();
-            new_sibling_borrow.detach();
             new_sibling_borrow.root = self_borrow.root.clone();
             new_sibling_borrow.parent = self_borrow.parent.clone();
             new_sibling_borrow.next_sibling = Some(self.0.clone());
-- 
2.43.0


From 73cc189980d0eacd366f11d573f1739ed8561724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:19 +0000
Subject: [PATCH 02/15] fix: Node::root returns the root of the tree the node
 is in now

The root was cached in a node when the node itself was inserted, so it was
wrong for the descendants of an inserted subtree and for a detached node,
and it panicked when the cached root was already dropped.
---
 src/tree.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 17c3337..6900b93 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -27,7 +27,6 @@ type WeakLink<T> = Weak<RefCell<NodeData<T>>>;
 pub struct Node<T>(Link<T>);
 
 struct NodeData<T> {
-    root: Option<WeakLink<T>>,
     parent: Option<WeakLink<T>>,
     first_child: Option<Link<T>>,
     last_child: Option<WeakLink<T>>,
@@ -76,7 +75,6 @@ impl<T> Node<T> {
     /// Creates a new node from its associated data.
     pub(crate) fn new(data: T) -> Node<T> {
         Node(Rc::new(RefCell::new(NodeData {
-            root: None,
             parent: None,
             first_child: None,
             last_child: None,
@@ -94,10 +92,12 @@ impl<T> Node<T> {
     ///
     /// Panics if the node is currently mutably borrowed.
     pub fn root(&self) -> Node<T> {
-        match self.0.borrow().root.as_ref() {
-            Some(v) => Node(v.upgrade().unwrap()),
-            None => self.clone(),
+        let mut node = self.clone();
+        while let Some(parent) = node.parent() {
+            node = parent;
         }
+
+        node
     }
 
     /// Returns a parent node, unless this node is the root of the tree.
@@ -245,7 +245,6 @@ impl<T> Node<T> {
         let mut last_child_opt = None;
         {
             let mut new_child_borrow = new_child.0.borrow_mut();
-            new_child_borrow.root = Some(self_borrow.root.clone().unwrap_or(Rc::downgrade(&self.0)));
             new_child_borrow.parent = Some(Rc::downgrade(&self.0));
             if let Some(last_child_weak) = self_borrow.last_child.take() {
                 if let Some(last_child_strong) = last_child_weak.upgrade() {
@@ -281,7 +280,6 @@ impl<T> Node<T> {
         let mut self_borrow = self.0.borrow_mut();
         {
             let mut new_child_borrow = new_child.0.borrow_mut();
-            new_child_borrow.root = Some(self_borrow.root.clone().unwrap_or(Rc::downgrade(&self.0)));
             new_child_borrow.parent = Some(Rc::downgrade(&self.0));
             match self_borrow.first_child.take() {
                 Some(first_child_strong) => {
@@ -315,7 +313,6 @@ impl<T> Node<T> {
         let mut self_borrow = self.0.borrow_mut();
         {
             let mut new_sibling_borrow = new_sibling.0.borrow_mut();
-            new_sibling_borrow.root = self_borrow.root.clone();
             new_sibling_borrow.parent = self_borrow.parent.clone();
             new_sibling_borrow.previous_sibling = Some(Rc::downgrade(&self.0));
             match self_borrow.next_sibling.take() {
@@ -358,7 +355,6 @@ impl<T> Node<T> {
         let mut previous_sibling_opt = None;
         {
             let mut new_sibling_borrow = new_sibling.0.borrow_mut();
-            new_sibling_borrow.root = self_borrow.root.clone();
             new_sibling_borrow.parent = self_borrow.parent.clone();
             new_sibling_borrow.next_sibling = Some(self.0.clone());
             if let Some(previous_sibling_weak) = self_borrow.previous_sibling.take() {
-- 
2.43.0


From d85d6e21f24b27857e806ff90fb32636dc1955f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:21 +0000
Subject: [PATCH 03/15] fix: remove_node unlinks attributes with non-SVG names
 too

Only links stored under known SVG attribute names were removed, so a link set
via a custom attribute name survived the removal of either of its ends.
---
 src/document.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 0465e58..12aab2b 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -12,7 +12,6 @@ use crate::{
     AttributeValue,
     ElementId,
     FilterSvg,
-    FilterSvgAttrs,
     Node,
     NodeData,
     NodeType,
@@ -240,7 +239,7 @@ impl Document {
     fn _remove(&mut self, mut node: Node, ids: &mut Vec<AttributeQName>) {
         ids.clear();
 
-        for (_, attr) in node.attributes().iter().svg() {
+        for attr in node.attributes().iter() {
             match attr.value {
                   AttributeValue::Link(_)
                 | AttributeValue::FuncLink(_)
@@ -260,7 +259,7 @@ impl Document {
         for mut linked in linked_nodes {
             ids.clear();
 
-            for (_, attr) in linked.attributes().iter().svg() {
+            for attr in linked.attributes().iter() {
                 match attr.value {
                       AttributeValue::Link(ref link)
                     | AttributeValue::FuncLink(ref link)
-- 
2.43.0


From c3de4b397f003481b945c0612fd5887c7b98e8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:39 +0000
Subject: [PATCH 04/15] fix: a link must not override a value with a higher
 priority

Links are resolved after the whole document is parsed, so a link from
an attribute replaced the same property from a CSS rule or a style attribute,
and a link from a CSS rule replaced the one from a style attribute.
---
 src/parser/mod.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index b218a6a..8e24ed0 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -41,6 +41,14 @@ impl Links {
             node: node.clone(),
         });
     }
+
+    /// Removes links of the `node` that were overridden by a following value of the same attribute.
+    fn remove(&mut self, id: AttributeId, node: &Node) {
+        // All links of the currently processed node are at the end of the list.
+        let start = self.list.iter().rposition(|d| d.node != *node).map_or(0, |i| i + 1);
+        let node_links = self.list.split_off(start);
+        self.list.extend(node_links.into_iter().filter(|d| d.attr_id != id));
+    }
 }
 
 pub fn parse_svg(text: &str) -> Result<Document, ParserError> {
@@ -218,7 +226,11 @@ fn parse_svg_attribute_value<'a>(
                     AttributeValue::NumberList(ref list) if list.is_empty() => {}
                     AttributeValue::LengthList(ref list) if list.is_empty() => {}
                     AttributeValue::Path(ref path) if path.is_empty() => {}
-                    _ => node.set_attribute((id, av)),
+                    _ => {
+                        // A link with a lower priority must not be resolved later.
+                        links.remove(id, node);
+                        node.set_attribute((id, av));
+                    }
                 }
             }
         }
-- 
2.43.0


From 7ef4e8bcae2ee11f4fe78b1306f1d4cf21d5a053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:41 +0000
Subject: [PATCH 05/15] fix: an identity transform overrides a transform with a
 lower priority

An identity transform is not stored, but the one that was set by an attribute
or a CSS rule with a lower priority was kept.
---
 src/parser/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 8e24ed0..aad3bb6 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -521,6 +521,8 @@ fn _parse_svg_attribute_value<'a>(
             if !ts.is_default() {
                 AttributeValue::Transform(Transform::from_str(value)?)
             } else {
+                // A default transform is not stored, but it still overrides a previous one.
+                node.remove_attribute(aid);
                 return Ok(None);
             }
         }
-- 
2.43.0


From caa7730fec673ee76be2186fc4b5fd04ba89e94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:42 +0000
Subject: [PATCH 06/15] fix: do not resolve links of already removed style
 elements

CSS rules can match a style element itself. Its links were resolved after it
was removed, so the referenced element was reported as used by a node that is
not in the document.
---
 src/parser/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index aad3bb6..e41f2d8 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -677,6 +677,11 @@ fn parse_style_attribute(
 
 fn resolve_links(doc: &Document, links: &mut Links) {
     for d in &mut links.list {
+        // The node could have been already removed, like the 'style' element.
+        if d.node.is_detached() {
+            continue;
+        }
+
         match doc.root().descendants().find(|n| *n.id() == d.iri) {
             Some(node) => {
                 let res = if d.attr_id == AttributeId::Fill || d.attr_id == AttributeId::Stroke {
-- 
2.43.0


From 06feffb2376475ff52190e39941078f09b1441c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:29 +0000
Subject: [PATCH 07/15] fix: process whitespaces of a text that is preceded by
 a comment or an element

Whitespaces of a text content element were processed only when its first child
was a text node, so in '<text><tspan>a</tspan>  b\n</text>' the text after
the tspan was kept as is.
---
 src/parser/text.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/parser/text.rs b/src/parser/text.rs
index 03b9d52..ebf37fa 100644
--- a/src/parser/text.rs
+++ b/src/parser/text.rs
@@ -4,6 +4,7 @@ use crate::{
     AttributeId,
     AttributeValue,
     Document,
+    ElementType,
     Node,
 };
 
@@ -53,11 +54,15 @@ fn _prepare_text(parent: &Node, nodes: &mut Vec<Node>, parent_xmlspace: XmlSpace
     for mut node in parent.children().filter(|n| n.is_element()) {
         let xmlspace = get_xmlspace(&mut node, nodes, parent_xmlspace);
 
-        if let Some(child) = node.first_child() {
-            if child.is_text() {
-                prepare_text_children(&node, nodes, xmlspace);
-                continue;
-            }
+        // A text content element can have a comment or an another element before the text.
+        let has_text = match node.first_child() {
+            Some(ref child) if child.is_text() => true,
+            _ => node.is_text_content() && node.children().any(|n| n.is_text()),
+        };
+
+        if has_text {
+            prepare_text_children(&node, nodes, xmlspace);
+            continue;
         }
 
         _prepare_text(&node, nodes, xmlspace);
-- 
2.43.0


From ac9c57ea564a3fb5af97e287da31ddd765788bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:31 +0000
Subject: [PATCH 08/15] fix: escape '&' and '<' in attribute values

They were written as is, which produced a not well-formed XML.
---
 src/writer.rs | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 6d8f784..bdbcfc1 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -197,7 +197,9 @@ fn write_attributes(
     }
 
     if node.has_id() {
-        xml.write_attribute("id", &node.id())
+        xml.write_attribute_raw("id", |buf| write_value_escaped(buf, |buf| {
+            buf.extend_from_slice(node.id().as_bytes())
+        }));
     }
 
     let attrs = node.attributes();
@@ -224,14 +226,38 @@ fn write_attributes(
             }
 
         } else {
-            xml.write_attribute_raw(name, |buf| attr.value.write_buf_opt(&opt.values, buf));
+            xml.write_attribute_raw(name, |buf| write_value_escaped(buf, |buf| {
+                attr.value.write_buf_opt(&opt.values, buf)
+            }));
         }
     }
 
     // write non-SVG attributes
     for attr in attrs.iter() {
         if let QName::Name(ref name) = attr.name {
-            xml.write_attribute_raw(name, |buf| attr.value.write_buf_opt(&opt.values, buf));
+            xml.write_attribute_raw(name, |buf| write_value_escaped(buf, |buf| {
+                attr.value.write_buf_opt(&opt.values, buf)
+            }));
+        }
+    }
+}
+
+/// Escapes characters that are not allowed in attribute values.
+///
+/// A quote mark will be escaped by the `XmlWriter`.
+fn write_value_escaped<F>(out: &mut Vec<u8>, f: F)
+    where F: FnOnce(&mut Vec<u8>)
+{
+    let start = out.len();
+    f(out);
+
+    if out[start..].iter().any(|c| *c == b'&' || *c == b'<') {
+        for c in out.split_off(start) {
+            match c {
+                b'&' => out.extend_from_slice(b"&amp;"),
+                b'<' => out.extend_from_slice(b"&lt;"),
+                _ => out.push(c),
+            }
         }
     }
 }
-- 
2.43.0


From 500a7c06180d9468c13621a63c90993f1983c6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:19 +0000
Subject: [PATCH 09/15] fix: process all texts of a text element together

Spaces between child elements were lost when the text element had no own text,
a trailing space was left when a leading one was removed, and an inherited
xml:space was ignored.
---
 src/parser/text.rs | 220 +++++++++++++--------------------------------
 1 file changed, 60 insertions(+), 160 deletions(-)

diff --git a/src/parser/text.rs b/src/parser/text.rs
index ebf37fa..86536ba 100644
--- a/src/parser/text.rs
+++ b/src/parser/text.rs
@@ -36,161 +36,65 @@ enum XmlSpace {
 // - tabs and newlines removing/replacing
 // - spaces trimming
 pub fn prepare_text(doc: &mut Document) {
-    // Remember nodes that have 'xml:space' changed.
-    let mut nodes = Vec::new();
-
-    _prepare_text(&doc.root(), &mut nodes, XmlSpace::Default);
-
-    // Remove temporary 'xml:space' attributes created during the text processing.
-    for mut node in nodes {
-        node.remove_attribute(AttributeId::Space);
-    }
+    _prepare_text(&doc.root(), XmlSpace::Default);
 
     let root = doc.root().clone();
     doc.drain(root, |n| n.is_text() && n.text().is_empty());
 }
 
-fn _prepare_text(parent: &Node, nodes: &mut Vec<Node>, parent_xmlspace: XmlSpace) {
-    for mut node in parent.children().filter(|n| n.is_element()) {
-        let xmlspace = get_xmlspace(&mut node, nodes, parent_xmlspace);
+fn _prepare_text(parent: &Node, parent_xmlspace: XmlSpace) {
+    for node in parent.children().filter(|n| n.is_element()) {
+        let xmlspace = get_xmlspace(&node, parent_xmlspace);
 
-        // A text content element can have a comment or an another element before the text.
+        // All texts inside a text content element must be processed together,
+        // even when they are preceded by a comment or stored only in child elements.
         let has_text = match node.first_child() {
             Some(ref child) if child.is_text() => true,
-            _ => node.is_text_content() && node.children().any(|n| n.is_text()),
+            _ => node.is_text_content() && node.descendants().any(|n| n.is_text()),
         };
 
         if has_text {
-            prepare_text_children(&node, nodes, xmlspace);
+            prepare_text_children(&node, xmlspace);
             continue;
         }
 
-        _prepare_text(&node, nodes, xmlspace);
+        _prepare_text(&node, xmlspace);
     }
 }
 
-fn get_xmlspace(node: &mut Node, nodes: &mut Vec<Node>, default: XmlSpace) -> XmlSpace {
-    {
-        let attrs = node.attributes();
-        let v = attrs.get_value(AttributeId::Space);
-        if let Some(&AttributeValue::String(ref s)) = v {
-            return if s == "preserve" { XmlSpace::Preserve } else { XmlSpace::Default };
+fn get_xmlspace(node: &Node, default: XmlSpace) -> XmlSpace {
+    match node.attributes().get_value(AttributeId::Space) {
+        Some(&AttributeValue::String(ref s)) => {
+            if s == "preserve" { XmlSpace::Preserve } else { XmlSpace::Default }
         }
+        _ => default,
     }
-
-    // 'xml:space' is not set - set it manually.
-    set_xmlspace(node, nodes, default);
-
-    default
 }
 
-fn set_xmlspace(node: &mut Node, nodes: &mut Vec<Node>, xmlspace: XmlSpace) {
-    let xmlspace_str = match xmlspace {
-        XmlSpace::Default => "default",
-        XmlSpace::Preserve => "preserve",
-    };
-
-    node.set_attribute((AttributeId::Space, xmlspace_str));
-
-    nodes.push(node.clone());
-}
+fn prepare_text_children(parent: &Node, xmlspace: XmlSpace) {
+    let mut nodes = Vec::new();
+    collect_text(parent, 0, xmlspace, &mut nodes);
 
-fn prepare_text_children(parent: &Node, marked_nodes: &mut Vec<Node>, xmlspace: XmlSpace) {
     // Trim all descendant text nodes.
-    for mut child in parent.descendants() {
-        if child.is_text() {
-            let child_xmlspace = get_xmlspace(&mut child.parent().unwrap(), marked_nodes, xmlspace);
-            let new_text = {
-                let text = child.text();
-                trim(text.as_ref(), child_xmlspace)
-            };
-            child.set_text(&new_text);
-        }
+    for &mut (ref mut node, _, xmlspace) in &mut nodes {
+        let new_text = trim(node.text().as_ref(), xmlspace);
+        node.set_text(&new_text);
     }
 
-    let mut nodes = Vec::new();
-    collect_text(parent, 0, &mut nodes);
-
     // `trim` method has already collapsed all spaces into a single one,
     // so we have to check only for one leading or trailing space.
 
-    if nodes.len() == 1 {
-        // Process element with a single text node child.
-
-        let mut node = nodes[0].0.clone();
+    // We manage all text nodes as a single text node
+    // and trying to remove duplicated spaces across nodes.
+    //
+    // For example    '<text>Text <tspan> text </tspan> text</text>'
+    // is the same is '<text>Text <tspan>text</tspan> text</text>'
+    let mut last_non_empty: Option<usize> = None;
+    for i in 0..nodes.len() {
+        let (mut node2, depth2, xmlspace2) = nodes[i].clone();
 
-        if xmlspace == XmlSpace::Default {
-            let mut text = node.text_mut();
-
-            match text.len() {
-                0 => {} // An empty string. Do nothing.
-                1 => {
-                    // If string has only one character and it's a space - clear this string.
-                    if text.as_bytes()[0] == b' ' {
-                        text.clear();
-                    }
-                }
-                _ => {
-                    // 'text' has at least 2 bytes, so indexing is safe.
-                    let c1 = text.as_bytes()[0];
-                    let c2 = text.as_bytes()[text.len() - 1];
-
-                    if c1 == b' ' {
-                        text.remove_first();
-                    }
-
-                    if c2 == b' ' {
-                        text.remove_last();
-                    }
-                }
-            }
-        } else {
-            // Do nothing when xml:space=preserve.
-        }
-    } else if nodes.len() > 1 {
-        // Process element with many text node children.
-
-        // We manage all text nodes as a single text node
-        // and trying to remove duplicated spaces across nodes.
-        //
-        // For example    '<text>Text <tspan> text </tspan> text</text>'
-        // is the same is '<text>Text <tspan>text</tspan> text</text>'
-
-        let mut i = 0;
-        let len = nodes.len() - 1;
-        let mut last_non_empty: Option<Node> = None;
-        while i < len {
-            // Process pairs.
-            let (mut node1, depth1) = nodes[i].clone();
-            let (mut node2, depth2) = nodes[i + 1].clone();
-
-            if node1.text().is_empty() {
-                if let Some(ref n) = last_non_empty {
-                    node1 = n.clone();
-                }
-            }
-
-            // Parent of the text node is always an element node and always exist,
-            // so unwrap is safe.
-            let xmlspace1 = get_xmlspace(&mut node1.parent().unwrap(), marked_nodes, xmlspace);
-            let xmlspace2 = get_xmlspace(&mut node2.parent().unwrap(), marked_nodes, xmlspace);
-
-            // >text<..>text<
-            //  1  2    3  4
-            let (c1, c2, c3, c4) = {
-                let text1 = node1.text();
-                let text2 = node2.text();
-
-                let bytes1 = text1.as_bytes();
-                let bytes2 = text2.as_bytes();
-
-                let c1 = bytes1.first().cloned();
-                let c2 = bytes1.last().cloned();
-                let c3 = bytes2.first().cloned();
-                let c4 = bytes2.last().cloned();
-
-                (c1, c2, c3, c4)
-            };
+        if let Some(prev) = last_non_empty {
+            let (mut node1, depth1, xmlspace1) = nodes[prev].clone();
 
             // NOTE: xml:space processing is mostly an undefined behavior,
             // because everyone do this differently.
@@ -201,7 +105,7 @@ fn prepare_text_children(parent: &Node, marked_nodes: &mut Vec<Node>, xmlspace:
             // To:   '<text>Text <tspan>text</tspan></text>'
             //
             // See text-tspan-02-b.svg for details.
-            if c2 == Some(b' ') && c2 == c3 {
+            if node1.text().ends_with(' ') && node2.text().starts_with(' ') {
                 if depth1 < depth2 {
                     if xmlspace2 == XmlSpace::Default {
                         node2.text_mut().remove_first();
@@ -214,51 +118,47 @@ fn prepare_text_children(parent: &Node, marked_nodes: &mut Vec<Node>, xmlspace:
                     }
                 }
             }
+        }
 
-            let is_first = i == 0;
-            let is_last  = i == len - 1;
+        if !node2.text().is_empty() {
+            last_non_empty = Some(i);
+        }
+    }
 
-            if     is_first
-                && c1 == Some(b' ')
-                && xmlspace1 == XmlSpace::Default
-                && !node1.text().is_empty()
-            {
-                // Remove leading space of the first text node.
-                node1.text_mut().remove_first();
-            } else if    is_last
-                      && c4 == Some(b' ')
-                      && !node2.text().is_empty()
-                      && xmlspace2 == XmlSpace::Default
-            {
-                // Remove trailing space of the last text node.
-                // Also check that 'text2' is not empty already.
-                node2.text_mut().remove_last();
-            }
+    // Remove leading space of the first non-empty text node.
+    for &mut (ref mut node, _, xmlspace) in &mut nodes {
+        if xmlspace == XmlSpace::Default && node.text().starts_with(' ') {
+            node.text_mut().remove_first();
+        }
 
-            if     is_last
-                && c2 == Some(b' ')
-                && !node1.text().is_empty()
-                && node2.text().is_empty()
-                && node1.text().ends_with(' ')
-            {
-                node1.text_mut().remove_last();
-            }
+        if !node.text().is_empty() {
+            break;
+        }
+    }
 
-            if !node1.text().trim().is_empty() {
-                last_non_empty = Some(node1.clone());
-            }
+    // Remove trailing space of the last non-empty text node.
+    for &mut (ref mut node, _, xmlspace) in nodes.iter_mut().rev() {
+        if xmlspace == XmlSpace::Default && node.text().ends_with(' ') {
+            node.text_mut().remove_last();
+        }
 
-            i += 1;
+        if !node.text().is_empty() {
+            break;
         }
     }
 }
 
-fn collect_text(parent: &Node, depth: usize, nodes: &mut Vec<(Node, usize)>) {
+fn collect_text(
+    parent: &Node,
+    depth: usize,
+    xmlspace: XmlSpace,
+    nodes: &mut Vec<(Node, usize, XmlSpace)>,
+) {
     for child in parent.children() {
         if child.is_text() {
-            nodes.push((child.clone(), depth));
+            nodes.push((child.clone(), depth, xmlspace));
         } else if child.is_element() {
-            collect_text(&child, depth + 1, nodes);
+            collect_text(&child, depth + 1, get_xmlspace(&child, xmlspace), nodes);
         }
     }
 }
-- 
2.43.0


From a80df16a64375736873ae0131970f95cf18adf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:15 +0000
Subject: [PATCH 10/15] fix: escape ']]>' in text nodes

---
 src/writer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index bdbcfc1..1880452 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -154,7 +154,8 @@ pub(crate) fn write_dom(doc: &Document, opt: &WriteOptions) -> String {
                         xml.write_comment(&node.text());
                     }
                     NodeType::Text => {
-                        xml.write_text(&node.text());
+                        // ']]>' is not allowed in a text.
+                        xml.write_text(&node.text().replace("]]>", "]]&gt;"));
                     }
                 }
             }
-- 
2.43.0


From f1c6060918781ce723cfa35fb806ff37b112033e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:07 +0000
Subject: [PATCH 11/15] fix: style elements of other namespaces must not
 contribute CSS rules

---
 src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index e41f2d8..1626b4e 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -763,7 +763,7 @@ impl simplecss::Element for XmlNode<'_, '_> {
 fn resolve_css<'a>(ro_doc: &'a roxmltree::Document<'a>) -> simplecss::StyleSheet<'a> {
     let mut sheet = simplecss::StyleSheet::new();
 
-    for node in ro_doc.descendants().filter(|n| n.has_tag_name("style")) {
+    for node in ro_doc.descendants().filter(|n| n.has_tag_name(("http://www.w3.org/2000/svg", "style"))) {
         match node.attribute("type") {
             Some("text/css") => {}
             Some(_) => continue,
-- 
2.43.0


From 8d5752c3c4c7511ed88eae9c2a4295d7da6f0f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:27 +0000
Subject: [PATCH 12/15] fix: a unicode value that starts with '&#' must be
 escaped like any other

---
 src/writer.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 1880452..2870100 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -266,14 +266,10 @@ fn write_value_escaped<F>(out: &mut Vec<u8>, f: F)
 fn write_escaped(unicode: &str, out: &mut Vec<u8>) {
     use std::io::Write;
 
-    if unicode.starts_with("&#") {
-        out.extend_from_slice(unicode.as_bytes());
-    } else {
-        for c in unicode.chars() {
-            out.extend_from_slice(b"&#x");
-            write!(out, "{:x}", c as u32).unwrap();
-            out.push(b';');
-        }
+    for c in unicode.chars() {
+        out.extend_from_slice(b"&#x");
+        write!(out, "{:x}", c as u32).unwrap();
+        out.push(b';');
     }
 }
 
-- 
2.43.0


From 06e78acfc678228de691ad91661cecabc0f6a01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:51 +0000
Subject: [PATCH 13/15] fix: read CSS after comments and processing
 instructions inside a style element

---
 src/parser/mod.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 1626b4e..10903fe 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -60,7 +60,8 @@ pub fn parse_svg(text: &str) -> Result<Document, ParserError> {
     let root = doc.root();
     let mut parent = root.clone();
 
-    let style_sheet = resolve_css(&ro_doc);
+    let css = collect_css(&ro_doc);
+    let style_sheet = resolve_css(&css);
 
     for child in ro_doc.root().children() {
         process_node(&ro_doc, child, &style_sheet, &mut links, &mut doc, &mut parent)?;
@@ -760,8 +761,8 @@ impl simplecss::Element for XmlNode<'_, '_> {
     }
 }
 
-fn resolve_css<'a>(ro_doc: &'a roxmltree::Document<'a>) -> simplecss::StyleSheet<'a> {
-    let mut sheet = simplecss::StyleSheet::new();
+fn collect_css(ro_doc: &roxmltree::Document) -> Vec<String> {
+    let mut list = Vec::new();
 
     for node in ro_doc.descendants().filter(|n| n.has_tag_name(("http://www.w3.org/2000/svg", "style"))) {
         match node.attribute("type") {
@@ -770,11 +771,17 @@ fn resolve_css<'a>(ro_doc: &'a roxmltree::Document<'a>) -> simplecss::StyleSheet
             None => {}
         }
 
-        let style = match node.text() {
-            Some(s) => s,
-            None => continue,
-        };
+        // Comments and processing instructions split the content into several text nodes.
+        list.push(node.children().filter(|n| n.is_text()).filter_map(|n| n.text()).collect());
+    }
+
+    list
+}
+
+fn resolve_css(list: &[String]) -> simplecss::StyleSheet {
+    let mut sheet = simplecss::StyleSheet::new();
 
+    for style in list {
         sheet.parse_more(style);
     }
 
-- 
2.43.0


From d799204c3c0761b6d2dc7f15835db5e32ecacc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:02 +0000
Subject: [PATCH 14/15] fix: do not indent the rest of a text element after a
 nested one

---
 src/writer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index 2870100..21403e8 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -165,7 +165,9 @@ pub(crate) fn write_dom(doc: &Document, opt: &WriteOptions) -> String {
                 }
 
                 if node.has_tag_name(ElementId::Text) {
-                    xml.set_preserve_whitespaces(false);
+                    // The element itself can be inside another text element.
+                    let inside_text = node.ancestors().skip(1).any(|n| n.has_tag_name(ElementId::Text));
+                    xml.set_preserve_whitespaces(inside_text);
                 }
             }
         }
-- 
2.43.0


From a3738faec4be40d021e19cb005274ac08c778ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:22 +0000
Subject: [PATCH 15/15] fix: keep line breaks and tabs of attribute values when
 writing

---
 src/writer.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index 21403e8..64764f7 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -254,11 +254,20 @@ fn write_value_escaped<F>(out: &mut Vec<u8>, f: F)
     let start = out.len();
     f(out);
 
-    if out[start..].iter().any(|c| *c == b'&' || *c == b'<') {
+    let is_special = |c: &u8| match *c {
+        b'&' | b'<' | b'\n' | b'\r' | b'\t' => true,
+        _ => false,
+    };
+
+    if out[start..].iter().any(is_special) {
         for c in out.split_off(start) {
             match c {
                 b'&' => out.extend_from_slice(b"&amp;"),
                 b'<' => out.extend_from_slice(b"&lt;"),
+                // Otherwise an XML parser will convert them into spaces.
+                b'\n' => out.extend_from_slice(b"&#xA;"),
+                b'\r' => out.extend_from_slice(b"&#xD;"),
+                b'\t' => out.extend_from_slice(b"&#x9;"),
                 _ => out.push(c),
             }
         }
-- 
2.43.0

