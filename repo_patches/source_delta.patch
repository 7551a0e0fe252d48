From 762224d37bc8b4f649680c46fe40b627a118e9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:47 +0000
Subject: [PATCH 01/14] fix: do not panic when moving a node next to where it
 already is

append/prepend/insert_before/insert_after borrowed the target node before
detaching the moved one, so moving a node that was already a child or an
adjoining sibling of the target panicked with a double borrow.
---
 src/tree.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 4578bbb..a2eba9f 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -238,11 +238,14 @@ impl<T> Node<T> {
     pub fn append(&mut self, new_child: Node<T>) {
         assert!(*self != new_child, "a node cannot be appended to itself");
 
+        // Must be done before borrowing `self`, because it can be a parent
+        // or a sibling of the node we are moving.
+        new_child.0.borrow_mut().detach();
+
         let mut self_borrow = self.0.borrow_mut();
         let mut last_child_opt = None;
         {
             let mut new_child_borrow = new_child.0.borrow_mut();
-            new_child_borrow.detach();
             new_child_borrow.root = Some(self_borrow.root.clone().unwrap_or(Rc::downgrade(&self.0)));
             new_child_borrow.parent = Some(Rc::downgrade(&self.0));
             if let Some(last_child_weak) = self_borrow.last_child.take() {
@@ -273,10 +276,13 @@ impl<T> Node<T> {
     pub fn prepend(&mut self, new_child: Node<T>) {
         assert!(*self != new_child, "a node cannot be prepended to itself");
 
+        // Must be done before borrowing `self`, because it can be a parent
+        // or a sibling of the node we are moving.
+        new_child.0.borrow_mut().detach();
+
         let mut self_borrow = self.0.borrow_mut();
         {
             let mut new_child_borrow = new_child.0.borrow_mut();
-            new_child_borrow.detach();
             new_child_borrow.root = Some(self_borrow.root.clone().unwrap_or(Rc::downgrade(&self.0)));
             new_child_borrow.parent = Some(Rc::downgrade(&self.0));
             match self_borrow.first_child.take() {
@@ -305,10 +311,13 @@ impl<T> Node<T> {
     pub fn insert_after(&mut self, new_sibling: Node<T>) {
         assert!(*self != new_sibling, "a node cannot be inserted after itself");
 
+        // Must be done before borrowing `self`, because it can be a parent
+        // or a sibling of the node we are moving.
+        new_sibling.0.borrow_mut().detach();
+
         let mut self_borrow = self.0.borrow_mut();
         {
             let mut new_sibling_borrow = new_sibling.0.borrow_mut();
-            new_sibling_borrow.detach();
             new_sibling_borrow.root = self_borrow.root.clone();
             new_sibling_borrow.parent = self_borrow.parent.clone();
             new_sibling_borrow.previous_sibling = Some(Rc::downgrade(&self.0));
@@ -345,11 +354,14 @@ impl<T> Node<T> {
     pub fn insert_before(&mut self, new_sibling: Node<T>) {
         assert!(*self != new_sibling, "a node cannot be inserted before itself");
 
+        // Must be done before borrowing `self`, because it can be a parent
+        // or a sibling of the node we are moving.
+        new_sibling.0.borrow_mut().detach();
+
         let mut self_borrow = self.0.borrow_mut();
         let mut previous_sibling_opt = None;
         {
             let mut new_sibling_borrow = new_sibling.0.borrow_mut();
-            new_sibling_borrow.detach();
             new_sibling_borrow.root = self_borrow.root.clone();
             new_sibling_borrow.parent = self_borrow.parent.clone();
             new_sibling_borrow.next_sibling = Some(self.0.clone());
-- 
2.43.0


From 25ef3baa083861f7d4f843395a26bf6e111fa853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:21 +0000
Subject: [PATCH 02/14] fix: compute the root of a node instead of caching it

The cached root was not updated by detach(), nor for the descendants of a
moved node, so root() returned a node which was no longer an ancestor.
---
 src/tree.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index a2eba9f..8382b6c 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -27,7 +27,6 @@ type WeakLink<T> = Weak<RefCell<NodeData<T>>>;
 pub struct Node<T>(Link<T>);
 
 struct NodeData<T> {
-    root: Option<WeakLink<T>>,
     parent: Option<WeakLink<T>>,
     first_child: Option<Link<T>>,
     last_child: Option<WeakLink<T>>,
@@ -76,7 +75,6 @@ impl<T> Node<T> {
     /// Creates a new node from its associated data.
     pub(crate) fn new(data: T) -> Node<T> {
         Node(Rc::new(RefCell::new(NodeData {
-            root: None,
             parent: None,
             first_child: None,
             last_child: None,
@@ -94,10 +92,12 @@ impl<T> Node<T> {
     ///
     /// Panics if the node is currently mutably borrowed.
     pub fn root(&self) -> Node<T> {
-        match self.0.borrow().root.as_ref() {
-            Some(v) => Node(v.upgrade().unwrap()),
-            None => self.clone(),
+        let mut root = self.clone();
+        while let Some(parent) = root.parent() {
+            root = parent;
         }
+
+        root
     }
 
     /// Returns a parent node, unless this node is the root of the tree.
@@ -246,7 +246,6 @@ impl<T> Node<T> {
         let mut last_child_opt = None;
         {
             let mut new_child_borrow = new_child.0.borrow_mut();
-            new_child_borrow.root = Some(self_borrow.root.clone().unwrap_or(Rc::downgrade(&self.0)));
             new_child_borrow.parent = Some(Rc::downgrade(&self.0));
             if let Some(last_child_weak) = self_borrow.last_child.take() {
                 if let Some(last_child_strong) = last_child_weak.upgrade() {
@@ -283,7 +282,6 @@ impl<T> Node<T> {
         let mut self_borrow = self.0.borrow_mut();
         {
             let mut new_child_borrow = new_child.0.borrow_mut();
-            new_child_borrow.root = Some(self_borrow.root.clone().unwrap_or(Rc::downgrade(&self.0)));
             new_child_borrow.parent = Some(Rc::downgrade(&self.0));
             match self_borrow.first_child.take() {
                 Some(first_child_strong) => {
@@ -318,7 +316,6 @@ impl<T> Node<T> {
         let mut self_borrow = self.0.borrow_mut();
         {
             let mut new_sibling_borrow = new_sibling.0.borrow_mut();
-            new_sibling_borrow.root = self_borrow.root.clone();
             new_sibling_borrow.parent = self_borrow.parent.clone();
             new_sibling_borrow.previous_sibling = Some(Rc::downgrade(&self.0));
             match self_borrow.next_sibling.take() {
@@ -362,7 +359,6 @@ impl<T> Node<T> {
         let mut previous_sibling_opt = None;
         {
             let mut new_sibling_borrow = new_sibling.0.borrow_mut();
-            new_sibling_borrow.root = self_borrow.root.clone();
             new_sibling_borrow.parent = self_borrow.parent.clone();
             new_sibling_borrow.next_sibling = Some(self.0.clone());
             if let Some(previous_sibling_weak) = self_borrow.previous_sibling.take() {
-- 
2.43.0


From 572639c7a7876b88c3e62f925b59f47bbf1ecd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:16 +0000
Subject: [PATCH 03/14] fix: unlink attributes with custom names when a node is
 removed

remove_node() only looked at attributes with an SVG name, so links stored
under other names were left dangling in both directions.
---
 src/document.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 0465e58..12aab2b 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -12,7 +12,6 @@ use crate::{
     AttributeValue,
     ElementId,
     FilterSvg,
-    FilterSvgAttrs,
     Node,
     NodeData,
     NodeType,
@@ -240,7 +239,7 @@ impl Document {
     fn _remove(&mut self, mut node: Node, ids: &mut Vec<AttributeQName>) {
         ids.clear();
 
-        for (_, attr) in node.attributes().iter().svg() {
+        for attr in node.attributes().iter() {
             match attr.value {
                   AttributeValue::Link(_)
                 | AttributeValue::FuncLink(_)
@@ -260,7 +259,7 @@ impl Document {
         for mut linked in linked_nodes {
             ids.clear();
 
-            for (_, attr) in linked.attributes().iter().svg() {
+            for attr in linked.attributes().iter() {
                 match attr.value {
                       AttributeValue::Link(ref link)
                     | AttributeValue::FuncLink(ref link)
-- 
2.43.0


From 9ed58c448d5369af6c197be0705d9b7330951bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:46 +0000
Subject: [PATCH 04/14] fix: do not link nodes that were removed together with
 a style element

---
 src/parser/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index b218a6a..90969fd 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -663,6 +663,11 @@ fn parse_style_attribute(
 
 fn resolve_links(doc: &Document, links: &mut Links) {
     for d in &mut links.list {
+        // Nodes that were removed from the document must not be linked.
+        if d.node.is_detached() {
+            continue;
+        }
+
         match doc.root().descendants().find(|n| *n.id() == d.iri) {
             Some(node) => {
                 let res = if d.attr_id == AttributeId::Fill || d.attr_id == AttributeId::Stroke {
-- 
2.43.0


From 37b88ae47bb2a1f8f59d023fbdd0593408cde9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:49 +0000
Subject: [PATCH 05/14] fix: an attribute value overrides a previously parsed
 link

---
 src/parser/mod.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 90969fd..68edb23 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -41,6 +41,20 @@ impl Links {
             node: node.clone(),
         });
     }
+
+    /// Forgets collected links of the attribute, because it was overridden.
+    ///
+    /// Links of the node that is currently being parsed are always the last ones.
+    fn discard(&mut self, id: AttributeId, node: &Node) {
+        let mut i = self.list.iter().rposition(|l| l.node != *node).map_or(0, |i| i + 1);
+        while i < self.list.len() {
+            if self.list[i].attr_id == id {
+                self.list.remove(i);
+            } else {
+                i += 1;
+            }
+        }
+    }
 }
 
 pub fn parse_svg(text: &str) -> Result<Document, ParserError> {
@@ -218,7 +232,10 @@ fn parse_svg_attribute_value<'a>(
                     AttributeValue::NumberList(ref list) if list.is_empty() => {}
                     AttributeValue::LengthList(ref list) if list.is_empty() => {}
                     AttributeValue::Path(ref path) if path.is_empty() => {}
-                    _ => node.set_attribute((id, av)),
+                    _ => {
+                        links.discard(id, node);
+                        node.set_attribute((id, av));
+                    }
                 }
             }
         }
-- 
2.43.0


From 4bc343a80047fcd7b33f3ece039765bbf6b55c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:59 +0000
Subject: [PATCH 06/14] fix: an identity transform overrides a previously
 parsed one

---
 src/parser/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 68edb23..91d9cee 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -526,6 +526,8 @@ fn _parse_svg_attribute_value<'a>(
             if !ts.is_default() {
                 AttributeValue::Transform(Transform::from_str(value)?)
             } else {
+                // An identity transform still overrides a previous one.
+                node.remove_attribute(aid);
                 return Ok(None);
             }
         }
-- 
2.43.0


From 7f58a85e541e36ea9d1415773a24bb2a63a19c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:24 +0000
Subject: [PATCH 07/14] fix: process all text of a text element together

---
 src/parser/text.rs | 76 +++++++++++++++++++++-------------------------
 1 file changed, 35 insertions(+), 41 deletions(-)

diff --git a/src/parser/text.rs b/src/parser/text.rs
index 03b9d52..062907f 100644
--- a/src/parser/text.rs
+++ b/src/parser/text.rs
@@ -4,6 +4,7 @@ use crate::{
     AttributeId,
     AttributeValue,
     Document,
+    ElementId,
     Node,
 };
 
@@ -53,11 +54,10 @@ fn _prepare_text(parent: &Node, nodes: &mut Vec<Node>, parent_xmlspace: XmlSpace
     for mut node in parent.children().filter(|n| n.is_element()) {
         let xmlspace = get_xmlspace(&mut node, nodes, parent_xmlspace);
 
-        if let Some(child) = node.first_child() {
-            if child.is_text() {
-                prepare_text_children(&node, nodes, xmlspace);
-                continue;
-            }
+        // All text nodes of a 'text' element should be processed together.
+        if node.has_tag_name(ElementId::Text) || node.children().any(|n| n.is_text()) {
+            prepare_text_children(&node, nodes, xmlspace);
+            continue;
         }
 
         _prepare_text(&node, nodes, xmlspace);
@@ -113,6 +113,7 @@ fn prepare_text_children(parent: &Node, marked_nodes: &mut Vec<Node>, xmlspace:
         // Process element with a single text node child.
 
         let mut node = nodes[0].0.clone();
+        let xmlspace = get_xmlspace(&mut node.parent().unwrap(), marked_nodes, xmlspace);
 
         if xmlspace == XmlSpace::Default {
             let mut text = node.text_mut();
@@ -171,20 +172,18 @@ fn prepare_text_children(parent: &Node, marked_nodes: &mut Vec<Node>, xmlspace:
             let xmlspace2 = get_xmlspace(&mut node2.parent().unwrap(), marked_nodes, xmlspace);
 
             // >text<..>text<
-            //  1  2    3  4
-            let (c1, c2, c3, c4) = {
+            //     1    2
+            let (c1, c2) = {
                 let text1 = node1.text();
                 let text2 = node2.text();
 
                 let bytes1 = text1.as_bytes();
                 let bytes2 = text2.as_bytes();
 
-                let c1 = bytes1.first().cloned();
-                let c2 = bytes1.last().cloned();
-                let c3 = bytes2.first().cloned();
-                let c4 = bytes2.last().cloned();
+                let c1 = bytes1.last().cloned();
+                let c2 = bytes2.first().cloned();
 
-                (c1, c2, c3, c4)
+                (c1, c2)
             };
 
             // NOTE: xml:space processing is mostly an undefined behavior,
@@ -196,7 +195,7 @@ fn prepare_text_children(parent: &Node, marked_nodes: &mut Vec<Node>, xmlspace:
             // To:   '<text>Text <tspan>text</tspan></text>'
             //
             // See text-tspan-02-b.svg for details.
-            if c2 == Some(b' ') && c2 == c3 {
+            if c1 == Some(b' ') && c1 == c2 {
                 if depth1 < depth2 {
                     if xmlspace2 == XmlSpace::Default {
                         node2.text_mut().remove_first();
@@ -210,40 +209,35 @@ fn prepare_text_children(parent: &Node, marked_nodes: &mut Vec<Node>, xmlspace:
                 }
             }
 
-            let is_first = i == 0;
-            let is_last  = i == len - 1;
-
-            if     is_first
-                && c1 == Some(b' ')
-                && xmlspace1 == XmlSpace::Default
-                && !node1.text().is_empty()
-            {
-                // Remove leading space of the first text node.
-                node1.text_mut().remove_first();
-            } else if    is_last
-                      && c4 == Some(b' ')
-                      && !node2.text().is_empty()
-                      && xmlspace2 == XmlSpace::Default
-            {
-                // Remove trailing space of the last text node.
-                // Also check that 'text2' is not empty already.
-                node2.text_mut().remove_last();
+            if !node1.text().is_empty() {
+                last_non_empty = Some(node1.clone());
+            }
+
+            i += 1;
+        }
+
+        // Remove a leading space of the first non-empty text node.
+        for (node, _) in &mut nodes {
+            let space = get_xmlspace(&mut node.parent().unwrap(), marked_nodes, xmlspace);
+            if space == XmlSpace::Default && node.text().starts_with(' ') {
+                node.text_mut().remove_first();
             }
 
-            if     is_last
-                && c2 == Some(b' ')
-                && !node1.text().is_empty()
-                && node2.text().is_empty()
-                && node1.text().ends_with(' ')
-            {
-                node1.text_mut().remove_last();
+            if !node.text().is_empty() {
+                break;
             }
+        }
 
-            if !node1.text().trim().is_empty() {
-                last_non_empty = Some(node1.clone());
+        // Remove a trailing space of the last non-empty text node.
+        for (node, _) in nodes.iter_mut().rev() {
+            let space = get_xmlspace(&mut node.parent().unwrap(), marked_nodes, xmlspace);
+            if space == XmlSpace::Default && node.text().ends_with(' ') {
+                node.text_mut().remove_last();
             }
 
-            i += 1;
+            if !node.text().is_empty() {
+                break;
+            }
         }
     }
 }
-- 
2.43.0


From 714e86bb1dc16e6055ffd6ecfe508560fd941109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:25 +0000
Subject: [PATCH 08/14] fix: inherit xml:space from the nearest ancestor

---
 src/parser/text.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/text.rs b/src/parser/text.rs
index 062907f..23947ef 100644
--- a/src/parser/text.rs
+++ b/src/parser/text.rs
@@ -93,6 +93,12 @@ fn set_xmlspace(node: &mut Node, nodes: &mut Vec<Node>, xmlspace: XmlSpace) {
 fn prepare_text_children(parent: &Node, marked_nodes: &mut Vec<Node>, xmlspace: XmlSpace) {
     // Trim all descendant text nodes.
     for mut child in parent.descendants() {
+        if child.is_element() && child != *parent {
+            // 'xml:space' is inherited from the nearest ancestor.
+            let inherited = get_xmlspace(&mut child.parent().unwrap(), marked_nodes, xmlspace);
+            get_xmlspace(&mut child, marked_nodes, inherited);
+        }
+
         if child.is_text() {
             let child_xmlspace = get_xmlspace(&mut child.parent().unwrap(), marked_nodes, xmlspace);
             let new_text = {
-- 
2.43.0


From 4e11276fb5cb7c640f39922166479c5db285d57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:30 +0000
Subject: [PATCH 09/14] fix: escape special characters in written attribute
 values

---
 src/writer.rs | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 6d8f784..c242482 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -197,7 +197,11 @@ fn write_attributes(
     }
 
     if node.has_id() {
-        xml.write_attribute("id", &node.id())
+        xml.write_attribute_raw("id", |buf| {
+            let start = buf.len();
+            buf.extend_from_slice(node.id().as_bytes());
+            escape_value(buf, start);
+        });
     }
 
     let attrs = node.attributes();
@@ -224,18 +228,47 @@ fn write_attributes(
             }
 
         } else {
-            xml.write_attribute_raw(name, |buf| attr.value.write_buf_opt(&opt.values, buf));
+            xml.write_attribute_raw(name, |buf| write_value(&attr.value, opt, buf));
         }
     }
 
     // write non-SVG attributes
     for attr in attrs.iter() {
         if let QName::Name(ref name) = attr.name {
-            xml.write_attribute_raw(name, |buf| attr.value.write_buf_opt(&opt.values, buf));
+            xml.write_attribute_raw(name, |buf| write_value(&attr.value, opt, buf));
         }
     }
 }
 
+fn write_value(value: &AttributeValue, opt: &WriteOptions, buf: &mut Vec<u8>) {
+    let start = buf.len();
+    value.write_buf_opt(&opt.values, buf);
+    escape_value(buf, start);
+}
+
+/// Escapes characters that cannot be stored in an attribute value as is.
+///
+/// Quotes are escaped by the `XmlWriter`.
+fn escape_value(buf: &mut Vec<u8>, start: usize) {
+    let mut i = start;
+    while i < buf.len() {
+        let s: &[u8] = match buf[i] {
+            b'&' => b"&amp;",
+            b'<' => b"&lt;",
+            b'\t' => b"&#x9;",
+            b'\n' => b"&#xa;",
+            b'\r' => b"&#xd;",
+            _ => {
+                i += 1;
+                continue;
+            }
+        };
+
+        buf.splice(i..i + 1, s.iter().cloned());
+        i += s.len();
+    }
+}
+
 fn write_escaped(unicode: &str, out: &mut Vec<u8>) {
     use std::io::Write;
 
-- 
2.43.0


From 6b252ebbc7cc671499546fb14d9f422a6397237a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:16 +0000
Subject: [PATCH 10/14] fix: do not panic when a text node outside of elements
 is written

---
 src/writer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index c242482..9342a32 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -154,7 +154,11 @@ pub(crate) fn write_dom(doc: &Document, opt: &WriteOptions) -> String {
                         xml.write_comment(&node.text());
                     }
                     NodeType::Text => {
-                        xml.write_text(&node.text());
+                        if node.parent().map(|v| v.is_root()) == Some(true) {
+                            warn!("A text outside of the root element cannot be written.");
+                        } else {
+                            xml.write_text(&node.text());
+                        }
                     }
                 }
             }
-- 
2.43.0


From 23c02ef461c29d1b78fc89a761895daf9cf7ac6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:17 +0000
Subject: [PATCH 11/14] fix: keep the white space of a text element after a
 nested one

---
 src/writer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index 9342a32..ebec3c8 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -168,7 +168,10 @@ pub(crate) fn write_dom(doc: &Document, opt: &WriteOptions) -> String {
                 }
 
                 if node.has_tag_name(ElementId::Text) {
-                    xml.set_preserve_whitespaces(false);
+                    // 'text' elements can be nested.
+                    let inside_text = node.ancestors().skip(1)
+                        .any(|n| n.has_tag_name(ElementId::Text));
+                    xml.set_preserve_whitespaces(inside_text);
                 }
             }
         }
-- 
2.43.0


From de77a84ef06528ec60e734c44efe5ef7a893d25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:17 +0000
Subject: [PATCH 12/14] fix: keep white space inside of all elements of a text

---
 src/parser/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 91d9cee..b51bbbb 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -155,13 +155,16 @@ fn process_node(
             let text = xml_node.text().unwrap();
             if text.trim().is_empty() {
                 // Whitespaces inside text elements are important.
-                if let Some(id) = parent.tag_id() {
+                //
+                // Including the ones in nested elements, like `textPath` and `a`.
+                for id in parent.ancestors().filter_map(|n| n.tag_id()) {
                     match id {
                           ElementId::Text
                         | ElementId::Tspan
                         | ElementId::Tref => {
                             let n = doc.create_node(NodeType::Text, text);
                             parent.append(n);
+                            break;
                         }
                         _ => {}
                     }
-- 
2.43.0


From 1aece19916aac63a35ddd8d0196e23d0de25a124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:10 +0000
Subject: [PATCH 13/14] fix: copying an element with a link to an element
 without an id does not panic

The target of an existing link can lose its id at any time. copy_node set
the copied attributes through set_attribute, which refuses such a link and
panicked.
---
 src/document.rs |  2 +-
 src/node.rs     | 31 ++++++++++++++++++++++++++++---
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 12aab2b..025dd7e 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -335,7 +335,7 @@ impl Document {
                 let mut elem = self.create_element(node.tag_name().as_ref());
 
                 for attr in node.attributes().iter() {
-                    elem.set_attribute(attr.clone());
+                    elem.copy_attribute(attr);
                 }
 
                 elem
diff --git a/src/node.rs b/src/node.rs
index 3fbb6fa..66a3385 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -489,7 +489,7 @@ impl Node {
     fn set_link_attribute(
         &mut self,
         name: AttributeQName,
-        mut node: Node,
+        node: Node,
         fallback: Option<PaintFallback>,
     ) -> Result<(), Error> {
         if node.id().is_empty() {
@@ -506,6 +506,33 @@ impl Node {
             return Err(Error::ElementCrosslink);
         }
 
+        self.insert_link(name, node, fallback);
+
+        Ok(())
+    }
+
+    /// Inserts a copy of an existing attribute.
+    ///
+    /// Links are not checked, because the target can be changed after it was linked.
+    pub(crate) fn copy_attribute(&mut self, attr: &Attribute) {
+        match attr.value {
+              AttributeValue::Link(ref node)
+            | AttributeValue::FuncLink(ref node) => {
+                self.insert_link(attr.name.clone(), node.clone(), None);
+            }
+            AttributeValue::Paint(ref node, fallback) => {
+                self.insert_link(attr.name.clone(), node.clone(), fallback);
+            }
+            _ => self.set_simple_attribute(attr.clone()),
+        }
+    }
+
+    fn insert_link(
+        &mut self,
+        name: AttributeQName,
+        mut node: Node,
+        fallback: Option<PaintFallback>,
+    ) {
         // we must remove existing attribute to prevent dangling links
         self.remove_attribute(name.as_ref());
 
@@ -523,8 +550,6 @@ impl Node {
         }
 
         node.borrow_mut().linked_nodes.push(self.clone());
-
-        Ok(())
     }
 
     /// Inserts a new attribute into attributes list if it doesn't contain one.
-- 
2.43.0


From 7d2a4dd37d7c3f87478b85a46b40f37e8d72d07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:36 +0000
Subject: [PATCH 14/14] fix: only XML white space is ignored around values and
 between elements

---
 src/parser/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index b51bbbb..622caff 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -153,7 +153,7 @@ fn process_node(
         }
         roxmltree::NodeType::Text => {
             let text = xml_node.text().unwrap();
-            if text.trim().is_empty() {
+            if trim_spaces(text).is_empty() {
                 // Whitespaces inside text elements are important.
                 //
                 // Including the ones in nested elements, like `textPath` and `a`.
@@ -313,7 +313,7 @@ fn _parse_svg_attribute_value<'a>(
     let eid = node.tag_id().unwrap();
 
     // 'unicode' attribute can contain spaces.
-    let value = if aid != AId::Unicode { value.trim() } else { value };
+    let value = if aid != AId::Unicode { trim_spaces(value) } else { value };
 
     let av = match aid {
         AId::Href => {
@@ -652,6 +652,13 @@ fn _parse_svg_attribute_value<'a>(
     Ok(Some(av))
 }
 
+/// Removes leading and trailing XML white space.
+///
+/// Unlike `str::trim`, keeps other Unicode spaces, since they are ordinary characters in XML.
+fn trim_spaces(text: &str) -> &str {
+    text.trim_matches(|c| c == ' ' || c == '\t' || c == '\n' || c == '\r')
+}
+
 fn parse_number(value: &str) -> Result<f64, svgtypes::Error> {
     let mut s = Stream::from(value);
     let n = s.parse_number()?;
-- 
2.43.0

