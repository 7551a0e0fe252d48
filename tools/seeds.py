# (id, property, [(file, old, new)], demo, needs, what it breaks)
T, N, D, A, P, X, W, V = ['src/%s.rs' % s for s in
    ('tree', 'node', 'document', 'attributes', 'parser/mod', 'parser/text', 'writer', 'attribute_value')]

PRE = '''
use svgdom::*;
use svgdom::{AttributeId as AId, ElementId as EId};
#[allow(unused)]
fn parse(body: &str) -> Document {
    Document::from_str(&format!("<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink'>{}</svg>", body)).unwrap()
}
#[allow(unused)]
fn by_id(doc: &Document, id: &str) -> Node { doc.root().descendants().find(|n| *n.id() == id).unwrap() }
#[allow(unused)]
fn flat(doc: &Document) -> String {
    let mut opt = WriteOptions::default();
    opt.indent = Indent::None;
    doc.to_string_with_opt(&opt)
}
fn main() {
'''

SEEDS = [
('s01-last-child', 'C01', [(T, '''                parent_borrow.last_child = previous_sibling_weak;
''', '''                if previous_sibling_opt.is_some() {
                    parent_borrow.last_child = previous_sibling_weak;
                }
''')], PRE + '''
    let mut doc = Document::new();
    let mut svg = doc.create_element(EId::Svg);
    let a = doc.create_element(EId::G);
    svg.append(a.clone());
    let mut other = doc.create_element(EId::Defs);
    other.append(a.clone());
    assert!(svg.first_child().is_none());
    assert!(svg.last_child().is_none());
    let b = doc.create_element(EId::Rect);
    svg.append(b.clone());
    assert!(svg.first_child() == Some(b));
    assert!(other.last_child() == Some(a));
}''', 'an only child is moved away and a query or an append follows on the former parent',
 'the former parent keeps a stale last child, so later appends hang off a foreign node'),

('s02-insert-after-parent', 'C01', [(T, '''                        if let Some(parent_strong) = parent_ref.upgrade() {
                            let mut parent_borrow = parent_strong.borrow_mut();
                            parent_borrow.last_child = Some(Rc::downgrade(&new_sibling.0));
                        }''', '''                        if let Some(parent_strong) = parent_ref.upgrade() {
                            let mut parent_borrow = parent_strong.borrow_mut();
                            if self_borrow.previous_sibling.is_some() || self_borrow.first_child.is_none() {
                                parent_borrow.last_child = Some(Rc::downgrade(&new_sibling.0));
                            }
                        }''')], PRE + '''
    let mut doc = Document::new();
    let mut svg = doc.create_element(EId::Svg);
    let mut a = doc.create_element(EId::G);
    let c = doc.create_element(EId::Rect);
    svg.append(a.clone());
    a.append(c);
    let b = doc.create_element(EId::Path);
    a.insert_after(b.clone());
    assert!(svg.last_child() == Some(b));
}''', 'inserting after an only child that has children of its own', 'last_child of the parent is not updated'),

('s03-root-detached', 'C02', [(T, '''        while let Some(parent) = root.parent() {
            root = parent;
        }

        root''', '''        while let Some(parent) = root.parent() {
            if parent.previous_sibling().is_some() && parent.parent().is_none() {
                break;
            }
            root = parent;
        }

        root'''), (T, '''            new_sibling_borrow.parent = self_borrow.parent.clone();
            new_sibling_borrow.previous_sibling = Some(Rc::downgrade(&self.0));''', '''            new_sibling_borrow.parent = self_borrow.parent.clone();
            if self_borrow.parent.is_none() {
                new_sibling_borrow.parent = None;
            }
            new_sibling_borrow.previous_sibling = Some(Rc::downgrade(&self.0));''')], PRE + '''
    let mut doc = Document::new();
    let mut a = doc.create_element(EId::G);
    let mut b = doc.create_element(EId::G);
    let c = doc.create_element(EId::Rect);
    b.append(c.clone());
    a.insert_after(b.clone());
    assert!(c.root() == b);
}''', 'siblings of a node without a parent', 'root() stops one node too early'),

('s04-traverse-back', 'C03', [(T, '''            NodeEdge::Start(ref node) => {
                if *node == *root {
                    None
                } else {
                    match node.previous_sibling() {
                        Some(previous_sibling) => Some(NodeEdge::End(previous_sibling)),''', '''            NodeEdge::Start(ref node) => {
                if *node == *root {
                    None
                } else {
                    match node.previous_sibling() {
                        Some(ref previous_sibling) if !previous_sibling.has_children() => {
                            Some(NodeEdge::Start(previous_sibling.clone()))
                        }
                        Some(previous_sibling) => Some(NodeEdge::End(previous_sibling)),''')], PRE + '''
    let mut doc = Document::new();
    let mut svg = doc.create_element(EId::Svg);
    let a = doc.create_element(EId::G);
    let b = doc.create_element(EId::Rect);
    svg.append(a.clone());
    svg.append(b.clone());
    let mut fwd: Vec<_> = svg.traverse().collect();
    let back: Vec<_> = svg.traverse().rev().collect();
    fwd.reverse();
    assert!(fwd == back);
}''', 'walking the edges backwards over a childless sibling', 'the closing edge of such a node is lost'),

('s05-children-meet', 'C03', [(T, '''            Some(ref next_back) => next_back.next_sibling() == self.next,
            _ => true,''', '''            Some(ref next_back) => self.next.is_none()
                || (next_back.next_sibling().is_some() && next_back.next_sibling() == self.next),
            _ => self.next.is_none(),''')], PRE + '''
    let mut doc = Document::new();
    let mut svg = doc.create_element(EId::Svg);
    let a = doc.create_element(EId::G);
    svg.append(a.clone());
    let mut it = svg.children();
    assert!(it.next_back() == Some(a.clone()));
    assert!(it.next().is_none());
}''', 'the back end of a children iterator has consumed the first child', 'children() yields the first child a second time'),

('s06-unlink-all', 'C04', [(N, '''                    let index = node.borrow().linked_nodes.iter().position(|n| n == self).unwrap();
                    node.borrow_mut().linked_nodes.remove(index);''',
'''                    node.borrow_mut().linked_nodes.retain(|n| n != self);''')], PRE + '''
    let doc = parse("<linearGradient id='a'/><rect fill='url(#a)' stroke='url(#a)'/>");
    let a = by_id(&doc, "a");
    let mut r = doc.root().descendants().find(|n| n.has_tag_name(EId::Rect)).unwrap();
    assert_eq!(a.uses_count(), 2);
    r.remove_attribute(AId::Fill);
    assert_eq!(a.uses_count(), 1);
}''', 'two attributes of one element link to the same element and one of them goes', 'both back-references are lost'),

('s07-relink-same', 'C04', [(N, '''        node.borrow_mut().linked_nodes.push(self.clone());
''', '''        if node.borrow().linked_nodes.last() != Some(self) {
            node.borrow_mut().linked_nodes.push(self.clone());
        }
''')], PRE + '''
    let doc = parse("<linearGradient id='a'/><rect fill='url(#a)' stroke='url(#a)'/>");
    assert_eq!(by_id(&doc, "a").uses_count(), 2);
}''', 'two attributes of one element link to the same element', 'only one back-reference is stored; removing both attributes panics'),

('s08-refused-link', 'C05', [(N, '''        // check for recursion 2
        if self.linked_nodes().iter().any(|n| *n == node) {
            return Err(Error::ElementCrosslink);
        }
''', '''        // we must remove existing attribute to prevent dangling links
        self.remove_attribute(name.as_ref());

        // check for recursion 2
        if self.linked_nodes().iter().any(|n| *n == node) {
            return Err(Error::ElementCrosslink);
        }
''')], PRE + '''
    let doc = parse("<g id='a' fill='red'/><g id='b' mask='url(#a)'/>");
    let mut a = by_id(&doc, "a");
    let b = by_id(&doc, "b");
    assert!(a.set_attribute_checked((AId::Fill, b)).is_err());
    assert!(a.has_attribute(AId::Fill));
}''', 'a refused link on an attribute that already has a value', 'the old value is lost'),

('s09-self-link', 'C05', [(N, '''        if *self.id() == *node.id() {
            return Err(Error::ElementCrosslink);''', '''        if *self == node {
            return Err(Error::ElementCrosslink);''')], PRE + '''
    let mut doc = Document::new();
    let mut a = doc.create_element(EId::G);
    let mut b = doc.create_element(EId::G);
    a.set_id("x");
    b.set_id("x");
    assert!(a.set_attribute_checked((AId::Href, b)).is_err());
}''', 'two different elements with one id', 'a link between elements that share an id is accepted, which a reader takes for a self reference'),

('s10-stale-names', 'C06', [(D, '''        for mut linked in linked_nodes {
            ids.clear();
''', '''        for mut linked in linked_nodes {
''')], PRE + '''
    let mut doc = parse("<g id='x'/><g id='y'/><g id='a' filter='url(#x)'/><g id='b' mask='url(#x)' filter='url(#y)'/>");
    let x = by_id(&doc, "x");
    doc.remove_node(x);
    assert!(by_id(&doc, "b").has_attribute(AId::Filter));
    assert_eq!(by_id(&doc, "y").uses_count(), 1);
}''', 'two elements link to the removed one under different names, and one of them uses the other name for another target',
 'an attribute of an uninvolved link is removed'),

('s11-childs-links', 'C06', [(D, '''        // remove all attributes that linked to this node
        let linked_nodes = node.linked_nodes().clone();
        for mut linked in linked_nodes {''', '''        // remove all attributes that linked to this node
        let linked_nodes = node.linked_nodes().clone();
        for mut linked in linked_nodes {
            // will be removed with its parent anyway
            if linked.parent().is_some() && linked.parent() == node.parent() && node.next_sibling().is_none() {
                continue;
            }
''')], PRE + '''
    let mut doc = parse("<g id='a'><rect mask='url(#c)'/><mask id='c'/></g>");
    let c = by_id(&doc, "c");
    let r = doc.root().descendants().find(|n| n.has_tag_name(EId::Rect)).unwrap();
    doc.remove_node(c);
    assert!(!r.has_attribute(AId::Mask));
}''', 'the removed node is the last sibling of the node linking to it', 'a link into the removed subtree remains'),

('s12-swap-remove', 'C07', [(A, '''            self.0.remove(i);''', '''            self.0.swap_remove(i);''')], PRE + '''
    let mut doc = Document::new();
    let mut a = doc.create_element(EId::G);
    a.set_attribute(("x1", "1"));
    a.set_attribute(("x2", "2"));
    a.set_attribute(("x3", "3"));
    a.set_attribute(("x4", "4"));
    a.remove_attribute("x1");
    let names: Vec<_> = a.attributes().iter().map(|a| a.name.to_string()).collect();
    assert_eq!(names, ["x2", "x3", "x4"]);
}''', 'removing an attribute that is followed by at least two more', 'the order of the remaining attributes changes'),

('s13-case-names', 'C07', [(A, '''        let name = AttributeQNameRef::from(name);
        self.0.iter().any(|a| a.name.as_ref() == name)''', '''        let name = AttributeQNameRef::from(name);
        self.0.iter().any(|a| match (a.name.as_ref(), name) {
            (crate::QNameRef::Name(a), crate::QNameRef::Name(b)) => a.eq_ignore_ascii_case(b),
            (a, b) => a == b,
        })''')], PRE + '''
    let mut doc = Document::new();
    let mut a = doc.create_element(EId::G);
    a.set_attribute(("foo", "1"));
    assert!(!a.has_attribute("Foo"));
    a.set_attribute_if_none(("Foo", "2"));
    assert_eq!(a.attributes().len(), 2);
}''', 'two custom names which differ in case only', 'lookups disagree and set_attribute_if_none does nothing'),

('s14-copy-custom', 'C08', [(D, '''                for attr in node.attributes().iter() {
                    elem.copy_attribute(attr);
                }

                elem
''', '''                for attr in node.attributes().iter() {
                    elem.copy_attribute(attr);
                }

                if let Some(attr) = node.attributes().get(crate::AttributeId::Href) {
                    elem.copy_attribute(attr);
                }

                elem
''')], PRE + '''
    let doc0 = parse("<rect id='r'/><use xlink:href='#r' x='1'/>");
    let mut doc = doc0;
    let mut u = doc.root().descendants().find(|n| n.has_tag_name(EId::Use)).unwrap();
    u.set_attribute((AId::Y, 2.0));
    let c = doc.copy_node(u.clone());
    let n1: Vec<_> = u.attributes().iter().map(|a| a.name.to_string()).collect();
    let n2: Vec<_> = c.attributes().iter().map(|a| a.name.to_string()).collect();
    assert_eq!(n1, n2);
}''', 'copying an element whose href is not its last attribute', 'the order of the attributes of the copy differs'),

('s15-deep-copy', 'C08', [(D, '''            if child.has_children() {
                self._make_deep_copy(&mut new_node, &child);''', '''            if child.first_child() != child.last_child() || child.is_svg_element() && child.has_children() {
                self._make_deep_copy(&mut new_node, &child);''')], PRE + '''
    let mut doc = Document::new();
    let mut a = doc.create_element(EId::G);
    let mut b = doc.create_element("custom");
    let c = doc.create_element(EId::Rect);
    a.append(b.clone());
    b.append(c);
    let d = doc.copy_node_deep(a);
    assert_eq!(d.descendants().count(), 3);
}''', 'a custom element with exactly one child below the copied node', 'the only child is not copied'),

('s16-leak-detached', 'C09', [(D, '''            node.attributes_mut().clear();
            node.linked_nodes_mut().clear();
            node.detach();''', '''            if node.parent().is_some() || node.has_children() {
                node.attributes_mut().clear();
                node.linked_nodes_mut().clear();
                node.detach();
            }''')], PRE + '''
    use std::alloc::*; use std::sync::atomic::*;
    struct C; static N: AtomicIsize = AtomicIsize::new(0);
    unsafe impl GlobalAlloc for C {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) { N.fetch_sub(1, Ordering::SeqCst); System.dealloc(p, l) }
    }
    #[global_allocator] static G: C = C;
    let before = N.load(Ordering::SeqCst);
    {
        let mut doc = Document::new();
        let mut a = doc.create_element(EId::G);
        let mut b = doc.create_element(EId::G);
        let mut c = doc.create_element(EId::G);
        a.set_id("a"); b.set_id("b"); c.set_id("c");
        a.set_attribute((AId::Href, b.clone()));
        b.set_attribute((AId::Mask, c.clone()));
        c.set_attribute((AId::Mask, a.clone()));
    }
    assert_eq!(N.load(Ordering::SeqCst), before);
}''', 'linked elements which are not part of the tree when the document is dropped', 'they are never freed'),

('s17-log-slice', 'C10', [(P, '''            warn!("Attribute '{}' has an invalid value: '{}'.", id, value);''',
'''            // Do not flood the log with a path or an embedded image.
            let short = if value.len() > 24 { &value[..24] } else { value };
            warn!("Attribute '{}' has an invalid value: '{}'.", id, short);''')], PRE + '''
    let doc = parse("<rect width='invalid value \\u{43f}\\u{440}\\u{438}\\u{432}\\u{435}\\u{442}!'/>");
    let doc2 = parse("<rect width='an invalid value \\u{43f}\\u{440}\\u{438}\\u{432}\\u{435}\\u{442}!'/>");
    assert_eq!(doc.root().descendants().count(), doc2.root().descendants().count());
}''', 'an invalid value longer than 24 bytes with a non-ASCII character across that position', 'parsing panics'),

('s18-foreign-attr', 'C11', [(P, '''                    _ => continue,
                }
''', '''                    _ => break,
                }
''')], PRE + '''
    let doc = Document::from_str("<svg xmlns='http://www.w3.org/2000/svg' xmlns:k='urn:k'><rect k:x='1' y='2'/></svg>").unwrap();
    let r = doc.root().descendants().find(|n| n.has_tag_name(EId::Rect)).unwrap();
    assert!(r.has_attribute(AId::Y));
}''', 'an attribute in a foreign namespace before SVG ones', 'all attributes after it are lost'),

('s19-sibling-after-foreign', 'C11', [(P, '''            if xml_node.is_element() && xml_node.has_children() {
                for child in xml_node.children() {''', '''            if xml_node.is_element() && xml_node.has_children() {
                let is_desc = e.has_tag_name(ElementId::Desc) || e.has_tag_name(ElementId::Metadata);
                for child in xml_node.children().filter(|n| !(is_desc && n.is_comment())) {''')], PRE + '''
    let doc = parse("<desc><!--note-->text</desc>");
    assert_eq!(doc.root().descendants().filter(|n| n.is_comment()).count(), 1);
}''', 'a comment inside of a desc or metadata element', 'the comment is dropped'),

('s20-css-order', 'C12', [(P, '''            for rule in &style_sheet.rules {
                if rule.selector.matches(&XmlNode(xml_node)) {
                    for declaration in &rule.declarations {''', '''            for rule in &style_sheet.rules {
                if rule.selector.matches(&XmlNode(xml_node)) {
                    for declaration in rule.declarations.iter().rev() {''')], PRE + '''
    let doc = parse("<style>rect { fill: red; fill: lime }</style><rect/>");
    let r = doc.root().descendants().find(|n| n.has_tag_name(EId::Rect)).unwrap();
    let want: Color = "lime".parse().unwrap();
    assert!(r.attributes().get_value(AId::Fill) == Some(&AttributeValue::Color(want)));
}''', 'one rule that sets a property twice', 'the first declaration wins'),

('s21-marker-mid', 'C12', [(P, '''            parse_attr(AttributeId::MarkerStart)?;
            parse_attr(AttributeId::MarkerMid)?;
            parse_attr(AttributeId::MarkerEnd)?;''', '''            parse_attr(AttributeId::MarkerStart)?;
            if !value.contains("none") {
                parse_attr(AttributeId::MarkerMid)?;
            }
            parse_attr(AttributeId::MarkerEnd)?;''')], PRE + '''
    let doc = parse("<style>path { marker: none }</style><marker id='m'/><path marker-mid='url(#m)'/>");
    let r = doc.root().descendants().find(|n| n.has_tag_name(EId::Path)).unwrap();
    assert!(r.attributes().get_value(AId::MarkerMid) == Some(&AttributeValue::None));
}''', 'marker: none in a style sheet', 'marker-mid keeps its old value'),

('s22-first-id', 'C13', [(P, '''        match doc.root().descendants().find(|n| *n.id() == d.iri) {''',
'''        match doc.root().descendants().filter(|n| *n.id() == d.iri).last() {''')], PRE + '''
    let doc = parse("<mask id='a'/><g><mask id='a'/></g><rect mask='url(#a)'/>");
    assert_eq!(by_id(&doc, "a").uses_count(), 1);
}''', 'two elements with the same id', 'references lead to the last one instead of the first one'),

('s23-fallback', 'C13', [(P, '''                        if d.attr_id == AttributeId::Fill {
                            warn!''', '''                        if d.attr_id == AttributeId::Fill || d.attr_id == AttributeId::Stroke {
                            warn!''')], PRE + '''
    let doc = parse("<rect stroke='url(#nope)'/>");
    let r = doc.root().descendants().find(|n| n.has_tag_name(EId::Rect)).unwrap();
    assert_eq!(r.attributes().get_value(AId::Stroke).unwrap().to_string(), "url(#nope)");
}''', 'an unresolved stroke reference without a fallback', 'the reference is replaced by none'),

('s24-ws-prev', 'C14', [(X, '''c == ' ' && c == prev {''', '''c == ' ' && prev.is_whitespace() {''')], PRE + '''
    let doc = parse("<text>a\\u{a0} b</text>");
    let s: String = doc.root().descendants().filter(|n| n.is_text()).map(|n| n.text().clone()).collect();
    assert_eq!(s, "a\\u{a0} b");
}''', 'a space after a no-break space or another non-XML space', 'the space is dropped'),

('s25-nbsp', 'C14', [(X, '''            '\\r' | '\\n' | '\\t' => ' ',
            _ => c,''', '''            c if c.is_whitespace() => ' ',
            _ => c,''')], PRE + '''
    let doc = parse("<text>a\\u{a0}b</text>");
    let s: String = doc.root().descendants().filter(|n| n.is_text()).map(|n| n.text().clone()).collect();
    assert_eq!(s, "a\\u{a0}b");
}''', 'a no-break or another non-XML space in a text', 'the character is replaced by a plain space'),

('s26-clamp', 'C15', [(P, '''fn f64_bound(min: f64, val: f64, max: f64) -> f64 {
    if val > max {
        return max;
    } else if val < min {
        return min;
    }
''', '''fn f64_bound(min: f64, val: f64, max: f64) -> f64 {
    if val > max {
        return max;
    } else if val.trunc() < min {
        return min;
    }
''')], PRE + '''
    let doc = parse("<rect opacity='-0.5'/>");
    let r = doc.root().descendants().find(|n| n.has_tag_name(EId::Rect)).unwrap();
    assert!(r.attributes().get_value(AId::Opacity) == Some(&AttributeValue::Number(0.0)));
}''', 'an opacity between -1 and 0', 'the value is not clamped'),

('s27-dash-none', 'C15', [(P, '''                "none" => AttributeValue::None,
                "inherit" => AttributeValue::Inherit,
                _ => AttributeValue::LengthList(LengthList::from_str(value)?),''', '''                "none" | "0" => AttributeValue::None,
                "inherit" => AttributeValue::Inherit,
                _ => AttributeValue::LengthList(LengthList::from_str(value)?),''')], PRE + '''
    let doc = parse("<rect stroke-dasharray='0'/>");
    let r = doc.root().descendants().find(|n| n.has_tag_name(EId::Rect)).unwrap();
    assert!(r.attributes().get_value(AId::StrokeDasharray).unwrap().is_length_list());
}''', 'a dash array of a single zero', 'it is turned into none'),

('s28-paint-fallback', 'C16', [(V, '''                        PaintFallback::CurrentColor => buf.extend_from_slice(b"currentColor"),''',
'''                        PaintFallback::CurrentColor => buf.extend_from_slice(b"currentcolor"),''')], PRE + '''
    let doc = parse("<linearGradient id='a'/><rect fill='url(#a) currentColor'/>");
    let s = doc.to_string();
    let doc2 = Document::from_str(&s).unwrap();
    assert_eq!(doc2.to_string(), s);
}''', 'a paint with currentColor as its fallback', 'the fallback is lost when the output is parsed again'),

('s29-unicode', 'C16', [(W, '''    if unicode.starts_with("&#") {''', '''    if unicode.starts_with('&') {''')], PRE + '''
    let doc = parse("<font><glyph unicode='&amp;lt;'/></font>");
    let doc2 = Document::from_str(&doc.to_string()).expect("written text must be parsable");
    assert_eq!(doc.to_string(), doc2.to_string());
}''', 'a unicode attribute that starts with an ampersand', 'it is written without escaping and read back as something else'),

('s30-sort-name', 'C17', [(W, '''    ids.sort_by_key(|&(x, _)| x as usize);''', '''    ids.sort_by_key(|&(x, _)| x.as_str());''')], PRE + '''
    let doc = parse("<svg baseProfile='full' baseline-shift='sub'/>");
    let s = flat(&doc);
    assert!(s.find("baseline-shift").unwrap() < s.find("baseProfile").unwrap(), "{}", s);
}''', 'attributes whose order in the list is not the byte order of their names', 'the order of written attributes is not the canonical one'),

('s31-xlink-depth', 'C17', [(W, '''node.descendants().any(|n| n.has_attribute(AttributeId::Href));''',
'''node.children().flat_map(|n| n.descendants()).any(|n| n.has_attribute(AttributeId::Href));''')], PRE + '''
    let mut doc = parse("<rect id='r'/>");
    let r = by_id(&doc, "r");
    let mut svg = doc.svg_element().unwrap();
    svg.set_attribute((AId::Href, r));
    let s = doc.to_string();
    assert!(s.contains("xmlns:xlink"), "{}", s);
    let _ = &mut doc;
}''', 'href on the top-level svg element itself and nowhere else', 'the XLink namespace is not declared'),

('s32-name-prefix', 'C18', [('src/names.rs', '''        ATTRIBUTES.get(text).cloned()''',
'''        ATTRIBUTES.get(text.trim_start_matches("xlink:")).cloned()''')], PRE + '''
    assert!(AId::from_str("xlink:href").is_none());
}''', 'a name with an xlink: prefix', 'strings which are no attribute name are taken for one'),

('s33-mpath', 'C19', [('src/element_type.rs', '''        | ElementId::Text
        | ElementId::Use);''', '''        | ElementId::Text
        | ElementId::Symbol
        | ElementId::Use);''')], PRE + '''
    let mut doc = Document::new();
    assert!(!doc.create_element(EId::Symbol).is_graphic());
}''', 'a symbol element', 'is_graphic answers yes for symbol'),

('s34-default-miter', 'C20', [(V, '''            AttributeId::GlyphOrientationHorizontal =>  some!("0deg"),''', '''            AttributeId::GlyphOrientationHorizontal =>  some!("auto"),''')], PRE + '''
    assert!(AttributeValue::default_value(AId::GlyphOrientationHorizontal) == Some(AttributeValue::from("0deg")));
}''', 'the default of glyph-orientation-horizontal', 'a wrong initial value'),

('s35-drain-next', 'C21', [(D, '''                if n.has_children() {
                    self._drain(n.clone(), f, count);
                }

                node = n.next_sibling();''', '''                node = n.next_sibling();
                if node.is_none() || n.has_children() && n.first_child() != n.last_child() {
                    self._drain(n.clone(), f, count);
                } else if let Some(c) = n.first_child() {
                    if f(&c) {
                        self.remove_node(c);
                        *count += 1;
                    }
                }''')], PRE + '''
    let mut doc = parse("<g><g><rect/></g></g><g/>");
    let root = doc.root();
    assert_eq!(doc.drain(root, |n| n.has_tag_name(EId::Rect)), 1);
}''', 'a matching node at the end of a chain of only children', 'it is not removed'),

('s36-name-eq', 'C22', [('src/name.rs', '''#[derive(Clone, Copy, PartialEq, Debug)]
pub enum QNameRef''', '''#[derive(Clone, Copy, Debug)]
pub enum QNameRef'''), ('src/name.rs', '''impl<'a, T: SvgId> QNameRef<'a, T> {''', '''impl<'a, T: SvgId> PartialEq for QNameRef<'a, T> {
    fn eq(&self, other: &Self) -> bool {
        fn name<'b, I: SvgId>(n: &'b QNameRef<I>) -> &'b str {
            match n {
                QNameRef::Id(id) => id.name(),
                QNameRef::Name(name) => name,
            }
        }

        name(self) == name(other)
    }
}

impl<'a, T: SvgId> QNameRef<'a, T> {''')], PRE + '''
    let mut doc = Document::new();
    let n = doc.create_element("rect");
    assert!(!n.is_svg_element());
    assert!(!n.has_tag_name(EId::Rect));
}''', 'an element with a custom name which is spelled as an SVG one', 'has_tag_name takes it for the SVG element'),

('s37-empty-text', 'C22', [(N, '''        self.borrow_mut().text = text.to_owned();''', '''        let mut d = self.borrow_mut();
        if !text.is_empty() || d.node_type != NodeType::Comment {
            d.text = text.to_owned();
        }''')], PRE + '''
    let mut doc = Document::new();
    let mut n = doc.create_node(NodeType::Comment, "a");
    n.set_text("");
    assert_eq!(*n.text(), "");
}''', 'a comment is given an empty text', 'it keeps its old text'),

('s38-nested-svg', 'C22', [(D, '''self.root().children().svg()''', '''self.root().descendants().svg()''')], PRE + '''
    let mut doc = Document::new();
    let mut g = doc.create_element(EId::G);
    let svg = doc.create_element(EId::Svg);
    g.append(svg);
    doc.root().append(g);
    assert!(doc.svg_element().is_none());
}''', 'an svg element which is not directly under the root, before the first one that is', 'svg_element returns the nested one'),

('s39-debug-linked', 'C23', [(W, '''        for node in &node.linked_nodes {
            write!(f, " '{}'", *node.id())?;
        }''', '''        let mut prev = String::new();
        for node in &node.linked_nodes {
            if prev != *node.id() {
                write!(f, " '{}'", *node.id())?;
                prev = node.id().clone();
            }
        }''')], PRE + '''
    let mut doc = Document::new();
    let mut a = doc.create_element(EId::LinearGradient);
    a.set_id("a");
    let mut b = doc.create_element(EId::Rect);
    b.set_attribute((AId::Fill, a.clone()));
    assert!(format!("{:?}", a).ends_with("; linked-nodes: '')"), "{:?}", a);
}''', 'a node linked from an element without an id, or twice in a row from the same one', 'the debug form does not list it'),

('s40-print-cap', 'C23', [(A, '''        for attr in self.iter() {
            out''', '''        for attr in self.iter().take(64) {
            out''')], PRE + '''
    let mut doc = Document::new();
    let mut a = doc.create_element(EId::Rect);
    let names: Vec<String> = (0..70).map(|i| format!("n{}", i)).collect();
    for n in &names {
        a.set_attribute((n.as_str(), "v"));
    }
    assert!(a.to_string().contains("n69='v'"));
}''', 'an element with more than 64 attributes', 'the rest is not printed'),

('s41-int-f32', 'C24', [(V, '''        AttributeValue::Number(f64::from(value))''', '''        AttributeValue::Number((value as f32).into())''')], PRE + '''
    let a = Attribute::new(AId::X, 16777217);
    assert!(a.value == AttributeValue::Number(16777217.0));
}''', 'an integer above 2^24', 'it is rounded'),

('s42-stroke-fallback', 'C24', [(N, '''            AttributeValue::Paint(ref iri, fallback) => {
                self.set_link_attribute(attr.name, iri.clone(), fallback)?;''', '''            AttributeValue::Paint(ref iri, fallback) => {
                // 'none' is a default value of the 'stroke'.
                let fallback = if attr.name.has_id(AttributeId::Stroke) {
                    fallback.filter(|f| *f != PaintFallback::None)
                } else {
                    fallback
                };
                self.set_link_attribute(attr.name, iri.clone(), fallback)?;''')], PRE + '''
    let mut doc = Document::new();
    let mut a = doc.create_element(EId::LinearGradient);
    a.set_id("a");
    let mut b = doc.create_element(EId::Rect);
    b.set_attribute((AId::Stroke, (a.clone(), Some(PaintFallback::None))));
    assert!(b.attributes().get_value(AId::Stroke) == Some(&AttributeValue::Paint(a, Some(PaintFallback::None))));
}''', 'a stroke paint with the fallback none', 'the fallback is lost'),

('s43-crosslink-cap', 'C05', [(N, '''        if self.linked_nodes().iter().any(|n| *n == node) {''', '''        if self.linked_nodes().iter().rev().take(32).any(|n| *n == node) {''')], PRE + '''
    let mut doc = Document::new();
    let mut a = doc.create_element(EId::Filter);
    a.set_id("a");
    let mut first = doc.create_element(EId::Rect);
    first.set_id("first");
    first.set_attribute((AId::Filter, a.clone()));
    for _ in 0..32 {
        let mut n = doc.create_element(EId::Rect);
        n.set_attribute((AId::Filter, a.clone()));
    }
    assert!(a.set_attribute_checked((AId::Mask, first)).is_err());
}''', 'more than 32 links to the source', 'a link back to an element that links here is accepted'),

('s44-comment-sibling', 'C12', [(P, '''        self.0.prev_siblings().filter(|n| n.is_element()).nth(0).map(XmlNode)''',
'''        self.0.prev_siblings().find(|n| !n.is_text()).filter(|n| n.is_element()).map(XmlNode)''')], PRE + '''
    let doc = parse("<style>:first-child{fill:red}</style><rect/><!--c--><path/>");
    let n = doc.root().descendants().find(|n| n.has_tag_name(EId::Path)).unwrap();
    assert!(!n.has_attribute(AId::Fill));
}''', 'a sibling or first-child selector and a comment between the elements', 'the rule matches the wrong elements'),

('s45-style-type', 'C12', [(P, '''            Some(_) => continue,''', '''            Some(_) => break,''')], PRE + '''
    let doc = parse("<style type='text/x'>rect{}</style><style>rect{fill:red}</style><rect/>");
    let n = doc.root().descendants().find(|n| n.has_tag_name(EId::Rect)).unwrap();
    assert!(n.has_attribute(AId::Fill));
}''', 'a style sheet after one of a type that is not CSS', 'it is ignored'),

('s46-sort-u8', 'C17', [(W, '''    ids.sort_by_key(|&(x, _)| x as usize);''', '''    ids.sort_by_key(|&(x, _)| (x as usize).min(0xff));''')], PRE + '''
    let mut doc = Document::new();
    let mut a = doc.create_element(EId::Svg);
    a.set_attribute((AId::ZoomAndPan, "magnify"));
    a.set_attribute((AId::Y, 1.0));
    doc.root().append(a);
    let s = flat(&doc);
    assert!(s.find("y=").unwrap() < s.find("zoomAndPan=").unwrap(), "{}", s);
}''', 'an attribute whose number in the list is above 255', 'the written order is not canonical'),

('s47-stale-ids', 'C06', [(D, '''        for mut linked in linked_nodes {
            ids.clear();
''', '''        ids.clear();
        for mut linked in linked_nodes {
''')], PRE + '''
    let mut doc = parse("<g id='a'/><g id='b'/><rect id='r' filter='url(#a)'/><path id='p' mask='url(#a)' filter='url(#b)'/>");
    let a = by_id(&doc, "a");
    doc.remove_node(a);
    assert!(by_id(&doc, "p").has_attribute(AId::Filter));
}''', 'two nodes linked to the removed one by different attributes, the second with the attribute of the first linking elsewhere',
 'a link between remaining nodes is removed'),

('s48-drop-cycle', 'C09', [(D, '''            node.linked_nodes_mut().clear();
            node.detach();''', '''            node.detach();''')], PRE + '''
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
    static LIVE: AtomicIsize = AtomicIsize::new(0);
    struct C;
    unsafe impl GlobalAlloc for C {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, SeqCst); System.alloc(l) }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(1, SeqCst); System.dealloc(p, l) }
    }
    #[global_allocator] static G: C = C;
    let before = LIVE.load(SeqCst);
    {
        let mut doc = Document::new();
        let mut v: Vec<Node> = Vec::new();
        for id in &["a", "b", "c"] {
            let mut n = doc.create_element(EId::Pattern);
            n.set_id(*id);
            v.push(n);
        }
        for i in 0..3 {
            let t = v[(i + 1) % 3].clone();
            v[i].set_attribute((AId::Href, t));
        }
    }
    assert_eq!(LIVE.load(SeqCst), before);
}''', 'links which form a circle of three elements', 'the nodes are never freed'),

('s49-no-namespace', 'C11', [(P, '''            if xml_node.tag_name().namespace() != Some("http://www.w3.org/2000/svg") {''',
'''            if xml_node.tag_name().namespace().map_or(false, |ns| !ns.is_empty() && ns != "http://www.w3.org/2000/svg") {''')], PRE + '''
    let doc = parse("<g xmlns=''><rect/></g>");
    assert!(!doc.svg_element().unwrap().has_children());
}''', 'an element in no namespace at all', 'it is kept'),

('s50-id-case', 'C13', [(P, '''find(|n| *n.id() == d.iri)''', '''find(|n| n.id().eq_ignore_ascii_case(&d.iri))''')], PRE + '''
    let doc = parse("<rect id='A'/><rect id='a'/><use id='u' xlink:href='#a'/>");
    let a = by_id(&doc, "a");
    assert!(by_id(&doc, "u").attributes().get_value(AId::Href) == Some(&AttributeValue::Link(a)));
}''', 'ids which differ in case only', 'the reference leads to the wrong element'),

('s51-same-id', 'C05', [(N, '''        if *self.id() == *node.id() {''', '''        if *self == node {''')], PRE + '''
    let mut doc = Document::new();
    let mut a = doc.create_element(EId::Rect);
    let mut b = doc.create_element(EId::Filter);
    a.set_id("a");
    b.set_id("a");
    assert!(a.set_attribute_checked((AId::Filter, b)).is_err());
}''', 'two elements with one id', 'a link between them is accepted'),

('s52-new-default', 'C20', [('src/attribute.rs', '''            Some(v) => Some(Attribute::new(id, v)),''', '''            Some(v) => Some(Attribute::new(id.as_str(), v)),''')], PRE + '''
    assert!(Attribute::new_default(AId::Fill).unwrap().id() == Some(AId::Fill));
}''', 'a default attribute is made and looked up by id', 'it is a custom attribute of that name'),

('s53-path-tail', 'C15', [(P, '''                    Ok(token) => data.push(token),
                    Err(_) => {''', '''                    Ok(token) => data.push(token),
                    Err(_) => {
                        if data.len() > 4 {
                            data.pop();
                        }''')], PRE + '''
    let doc = parse("<path d='M 1 2 L 3 4 L 3 4 L 3 4 L 3 4 L 5 x'/>");
    let n = doc.root().descendants().find(|n| n.has_tag_name(EId::Path)).unwrap();
    assert_eq!(n.to_string(), "<path d='M 1 2 L 3 4 L 3 4 L 3 4 L 3 4'>");
}''', 'path data with an error in it', 'a valid segment before the error is lost'),

('s54-angle-auto', 'C15', [(P, '''        AId::Orient => {
            match value {
                "auto" =>''', '''        AId::Orient => {
            match value {
                "auto" | "auto-start-reverse" =>''')], PRE + '''
    let doc = parse("<marker orient='auto-start-reverse'/>");
    let n = doc.root().descendants().find(|n| n.has_tag_name(EId::Marker)).unwrap();
    assert!(!n.has_attribute(AId::Orient));
}''', 'orient="auto-start-reverse"', 'a value outside of the SVG 1.1 grammar is kept as text'),

('s55-text-tref', 'C14', [(P, '''                        | ElementId::Tspan
                        | ElementId::Tref => {
                            let n''', '''                        | ElementId::Tspan => {
                            let n'''), (P, '''parent.ancestors().filter_map(|n| n.tag_id())''', '''parent.ancestors().filter_map(|n| n.tag_id()).take(2)''')], PRE + '''
    let doc = parse("<text>a<tspan><a><a>b</a> <a>c</a></a></tspan></text>");
    let t: String = doc.root().descendants().filter(|n| n.is_text()).map(|n| n.text().clone()).collect();
    assert_eq!(t, "ab c");
    let doc = parse("<text>a<a><a><a>b</a> <a>c</a></a></a></text>");
    let t: String = doc.root().descendants().filter(|n| n.is_text()).map(|n| n.text().clone()).collect();
    assert_eq!(t, "ab c");
}''', 'white space alone between elements three levels below the text element', 'words are joined'),

('s56-prepend-last', 'C01', [(T, '''                None => {
                    debug_assert!(self_borrow.first_child.is_none());
                    self_borrow.last_child = Some(Rc::downgrade(&new_child.0));''', '''                None => {
                    debug_assert!(self_borrow.first_child.is_none());
                    if self_borrow.last_child.is_none() {
                        self_borrow.last_child = Some(Rc::downgrade(&new_child.0));
                    }'''), (T, '''                let mut parent_borrow = parent_strong.borrow_mut();
                parent_borrow.last_child = previous_sibling_weak;''', '''                let mut parent_borrow = parent_strong.borrow_mut();
                if previous_sibling_opt.is_some() || parent_borrow.parent.is_none() {
                    parent_borrow.last_child = previous_sibling_weak;
                }''')], PRE + '''
    let mut doc = Document::new();
    let mut svg = doc.create_element(EId::Svg);
    let mut g = doc.create_element(EId::G);
    svg.append(g.clone());
    let mut a = doc.create_element(EId::Rect);
    g.append(a.clone());
    a.detach();
    let b = doc.create_element(EId::Path);
    g.prepend(b.clone());
    assert!(g.last_child() == Some(b));
}''', 'the only child of a nested element is detached', 'the former parent has a stale last child'),

('s57-copy-depth', 'C08', [(D, '''            if child.has_children() {
                self._make_deep_copy''', '''            if child.first_child().map_or(false, |n| n.has_children() || !n.is_comment()) {
                self._make_deep_copy''')], PRE + '''
    let mut doc = parse("<g id='g'><g><!--c--><rect/></g></g>");
    let g = by_id(&doc, "g");
    let c = doc.copy_node_deep(g);
    assert_eq!(c.descendants().count(), 4);
}''', 'a deep copy of a subtree with a nested element whose first child is a comment', 'its content is not copied'),

('s58-empty-tag', 'C25', [(N, '''            if name.is_empty() {
                panic!("supplied tag name is empty");''', '''            if name.is_empty() && self.tag_id().is_none() {
                panic!("supplied tag name is empty");''')], PRE + '''
    let mut doc = Document::new();
    let mut e = doc.create_element(EId::Rect);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.set_tag_name("")));
    assert!(r.is_err());
}''', 'an SVG element is given an empty name', 'the element is left without a name'),

('s59-self-sibling', 'C25', [(T, '''        assert!(*self != new_sibling, "a node cannot be inserted before itself");
''', '''        if *self == new_sibling {
            // Already at the right place.
            return;
        }
''')], PRE + '''
    let mut doc = Document::new();
    let mut e = doc.create_element(EId::Rect);
    let mut svg = doc.create_element(EId::Svg);
    svg.append(e.clone());
    let x = e.clone();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.insert_before(x)));
    assert!(r.is_err());
}''', 'a node is inserted before itself', 'the request is accepted silently'),

('s60-xml-error', 'C25', [(P, '''    let ro_doc = roxmltree::Document::parse(text)?;
''', '''    let ro_doc = match roxmltree::Document::parse(text) {
        Ok(doc) => doc,
        Err(roxmltree::Error::DuplicatedAttribute(_, _)) => return Err(ParserError::NoSvgElement),
        Err(e) => return Err(e.into()),
    };
''')], PRE + '''
    match Document::from_str("<svg x='1' x='2'/>") {
        Err(ParserError::RoXmlError(_)) => {}
        _ => panic!("wrong error"),
    }
}''', 'an element has an attribute twice', 'malformed XML is reported as a missing svg element'),

('s61-copy-text', 'C08', [(D, '''                self.create_node(node.node_type(), node.text().clone())
            }
        }
    }''', '''                let text = node.text().trim_end_matches('\\n').to_string();
                self.create_node(node.node_type(), text)
            }
        }
    }''')], PRE + '''
    let mut doc = Document::new();
    let t = doc.create_node(NodeType::Text, "a\\n");
    let c = doc.copy_node(t);
    assert_eq!(*c.text(), "a\\n");
}''', 'a copied text or comment ends with a line break', 'the copy lacks it'),

('s62-set-same', 'C07', [(N, '''        debug_assert!(!attr.is_link_container());
''', '''        debug_assert!(!attr.is_link_container());

        // Nothing to do.
        if self.attributes().get_value(attr.name.as_ref()) == Some(&attr.value) {
            return;
        }
''')], PRE + '''
    let mut doc = Document::new();
    let mut e = doc.create_element(EId::Rect);
    e.set_attribute((AId::X, 1.0));
    e.set_attribute((AId::Y, 1.0));
    e.set_attribute((AId::X, 1.0));
    assert_eq!(e.to_string(), "<rect y='1' x='1'>");
}''', 'an attribute is set again to the value it has', 'it keeps its old place in the list'),

('s63-remove-text', 'C06', [(D, '''        for child in node.children() {
            self._remove(child, ids);''', '''        for child in node.children().filter(|n| !n.is_text()) {
            self._remove(child, ids);''')], PRE + '''
    let mut doc = parse("<g id='g'><text id='t'>abc</text></g>");
    let t = by_id(&doc, "t").first_child().unwrap();
    let g = by_id(&doc, "g");
    doc.remove_node(g);
    assert!(t.is_detached());
}''', 'an element with text in its subtree is removed', 'the text does not report that it was removed'),

('s64-unicode-amp', 'C16', [(W, '''    if unicode.starts_with("&#") {''', '''    if unicode.starts_with('&') && unicode.ends_with(';') {''')], PRE + '''
    let doc = parse("<glyph unicode='&amp;lt;'/>");
    let doc2 = Document::from_str(&doc.to_string()).unwrap();
    assert_eq!(doc.to_string(), doc2.to_string());
}''', 'a unicode value that looks like a named entity', 'it is read back as another value'),

('s65-xlink-custom', 'C17', [(W, '''node.descendants().any(|n| n.has_attribute(AttributeId::Href));''', '''node.descendants()
                .any(|n| n.is_svg_element() && n.has_attribute(AttributeId::Href));''')], PRE + '''
    let mut doc = Document::new();
    let mut svg = doc.create_element(EId::Svg);
    doc.root().append(svg.clone());
    let mut e = doc.create_element("custom");
    e.set_attribute((AId::Href, "a"));
    svg.append(e);
    assert!(doc.to_string().contains("xmlns:xlink"));
}''', 'only a custom element has a href attribute', 'the XLink namespace is not declared'),

('s66-space-prefix', 'C14', [(X, '''return if s == "preserve" {''', '''return if s.starts_with("preserve") {''')], PRE + '''
    let doc = parse("<text xml:space='preserved'>a  b</text>");
    let n = doc.root().descendants().find(|n| n.is_text()).unwrap();
    assert_eq!(*n.text(), "a b");
}''', 'xml:space has a value that only starts with preserve', 'it is taken for preserve'),

('s67-tag-case', 'C12', [(P, '''        self.0.tag_name().name() == local_name
''', '''        self.0.tag_name().name().eq_ignore_ascii_case(local_name)
''')], PRE + '''
    let doc = parse("<style>RECT{fill:red}</style><rect/>");
    let n = doc.root().descendants().find(|n| n.has_tag_name(EId::Rect)).unwrap();
    assert!(!n.has_attribute(AId::Fill));
}''', 'a selector in another case', 'the rule matches'),

('s68-attr-trim', 'C12', [(P, '''            Some(value) => operator.matches(value),''', '''            Some(value) => operator.matches(value.trim()),''')], PRE + '''
    let doc = parse("<style>#a{fill:red}</style><rect id='a '/>");
    let n = doc.root().descendants().find(|n| n.has_tag_name(EId::Rect)).unwrap();
    assert!(!n.has_attribute(AId::Fill));
}''', 'an id or class with white space around it', 'the rule matches another id'),

('s69-iri-decode', 'C13', [(P, '''        match doc.root().descendants().find(|n| *n.id() == d.iri) {''', '''        let iri = d.iri.replace("%20", " ");
        match doc.root().descendants().find(|n| *n.id() == iri) {''')], PRE + '''
    let doc = parse("<g id='a%20b'/><use xlink:href='#a%20b'/>");
    let g = by_id(&doc, "a%20b");
    assert_eq!(g.uses_count(), 1);
}''', 'an id with a percent sign', 'the reference is not resolved'),

('s70-neg-length', 'C15', [(P, '''        | AId::StartOffset => {
            AttributeValue::Length(Length::from_str(value)?)''', '''        | AId::StartOffset => {
            let l = Length::from_str(value)?;
            if l.num < 0.0 && aid == AId::StartOffset {
                return Err(svgtypes::Error::InvalidValue);
            }
            AttributeValue::Length(l)''')], PRE + '''
    let doc = parse("<textPath startOffset='-5%'/>");
    let n = doc.root().descendants().find(|n| n.has_tag_name(EId::TextPath)).unwrap();
    assert!(n.has_attribute(AId::StartOffset));
}''', 'a negative startOffset', 'a valid value is dropped'),

('s71-ns-prefix', 'C11', [(P, '''                    Some("http://www.w3.org/1999/xlink") |
''', '''                    Some("http://www.w3.org/1999/xlink") |
                    Some("http://www.w3.org/1999/XLink") |
''')], PRE + '''
    let doc = parse("<use xmlns:f='http://www.w3.org/1999/XLink' f:href='a'/>");
    let n = doc.root().descendants().find(|n| n.has_tag_name(EId::Use)).unwrap();
    assert!(!n.has_attribute(AId::Href));
}''', 'an attribute of a namespace that differs from XLink in case only', 'it is kept'),

('s72-ns-case', 'C11', [(P, '''            if xml_node.tag_name().namespace() != Some("http://www.w3.org/2000/svg") {''', '''            if xml_node.tag_name().namespace().map(|s| s.trim_end_matches('/')) != Some("http://www.w3.org/2000/svg") {''')], PRE + '''
    let doc = parse("<g/><g xmlns='http://www.w3.org/2000/svg/'/>");
    assert_eq!(doc.root().descendants().filter(|n| n.has_tag_name(EId::G)).count(), 1);
}''', 'an element of a namespace that is the one of SVG with a slash', 'it is kept'),

('s73-comment-dashes', 'C22', [(N, '''        self.borrow_mut().text = text.to_owned();''', '''        self.borrow_mut().text = if self.is_comment() { text.replace("--", "- -") } else { text.to_owned() };''')], PRE + '''
    let mut doc = Document::new();
    let mut c = doc.create_node(NodeType::Comment, "a");
    c.set_text("--");
    assert_eq!(*c.text(), "--");
}''', 'a comment is given a text with two dashes', 'it has another text'),

('s74-id-case', 'C05', [(N, '''        if *self.id() == *node.id() {''', '''        if self.id().eq_ignore_ascii_case(&node.id()) {''')], PRE + '''
    let mut doc = Document::new();
    let mut a = doc.create_element(EId::Rect);
    let mut b = doc.create_element(EId::Rect);
    a.set_id("a");
    b.set_id("A");
    assert!(a.set_attribute_checked((AId::Href, b)).is_ok());
}''', 'ids that differ in case only', 'a valid link is refused'),

('s75-link-to-self-copy', 'C08', [(D, '''                let mut elem = self.create_element(node.tag_name().as_ref());
''', '''                let mut elem = self.create_element(node.tag_name().as_ref());
                if node.has_tag_name(ElementId::Use) {
                    elem.set_id(node.id().clone());
                }
''')], PRE + '''
    let mut doc = parse("<use id='a'/>");
    let n = by_id(&doc, "a");
    let c = doc.copy_node(n);
    assert!(!c.has_id());
}''', 'a use element is copied', 'the copy has the id of the original'),

('s76-unlink-by-id', 'C04', [(N, '''linked_nodes.iter().position(|n| n == self).unwrap();''', '''linked_nodes.iter().position(|n| *n.id() == *self.id()).unwrap();''')], PRE + '''
    let mut doc = Document::new();
    let mut t = doc.create_element(EId::Rect);
    t.set_id("t");
    let mut a = doc.create_element(EId::Use);
    let mut b = doc.create_element(EId::Use);
    a.set_attribute((AId::Href, t.clone()));
    b.set_attribute((AId::Href, t.clone()));
    b.remove_attribute(AId::Href);
    assert!(t.linked_nodes()[0] == a);
}''', 'two elements without ids link to one and the second is unlinked', 'the back-reference of the other one is removed'),

('s77-custom-options', 'C17', [(W, '''            xml.write_attribute_raw(name, |buf| write_value(&attr.value, opt, buf));
        }
    }
}''', '''            xml.write_attribute_raw(name, |buf| write_value(&attr.value, &WriteOptions::default(), buf));
        }
    }
}''')], PRE + '''
    let mut doc = parse("<rect/>");
    let mut n = doc.svg_element().unwrap();
    n.set_attribute(("custom", 0.5));
    let mut opt = WriteOptions::default();
    opt.values.remove_leading_zero = true;
    assert!(doc.to_string_with_opt(&opt).contains("custom=\\".5\\""));
}''', 'a custom attribute with a typed value and options for values', 'the options are not applied'),

('s78-escape-chunk', 'C16', [(W, '''        buf.splice(i..i + 1, s.iter().cloned());
        i += s.len();''', '''        buf.splice(i..i + 1, s.iter().cloned());
        i += s.len();
        // plain text follows most of the time
        if buf.len() - start > 160 {
            break;
        }''')], PRE + '''
    let mut doc = parse("<rect id='r'/>");
    let mut n = by_id(&doc, "r");
    let t = format!("{}&{}<", "x".repeat(100), "x".repeat(100));
    n.set_attribute((AId::FontFamily, t.as_str()));
    let doc2 = Document::from_str(&doc.to_string()).unwrap();
    assert_eq!(by_id(&doc2, "r").attributes().get_value(AId::FontFamily), Some(&AttributeValue::from(t.as_str())));
}''', 'a value of more than 160 bytes with two special characters', 'the second one is not escaped'),

('s79-empty-defs', 'C17', [(W, '''                    NodeType::Element => {
                        match *node.tag_name() {''', '''                    NodeType::Element => {
                        if node.has_tag_name(ElementId::Switch) && !node.has_children() {
                            xml.start_element("g");
                            continue;
                        }
                        match *node.tag_name() {''')], PRE + '''
    let doc = parse("<switch id='a'/>");
    assert!(flat(&doc).contains("<switch id=\\"a\\"/>"));
}''', 'an empty switch element', 'it is written as another one'),

('s80-unicode-astral', 'C16', [(W, '''            write!(out, "{:x}", c as u32).unwrap();''', '''            write!(out, "{:x}", c as u32 & 0xffff).unwrap();''')], PRE + '''
    let doc = parse("<glyph id='g' unicode='\\u{1f600}'/>");
    let doc2 = Document::from_str(&doc.to_string()).unwrap();
    assert_eq!(by_id(&doc2, "g").attributes().get_value(AId::Unicode), by_id(&doc, "g").attributes().get_value(AId::Unicode));
}''', 'a unicode attribute with a character outside of the basic plane', 'another character is written'),

('s81-host-image', 'C13', [(P, '''        if d.node.is_detached() {''', '''        if d.node.is_detached() || (d.node.has_tag_name(ElementId::FeImage) && d.attr_id == AttributeId::Filter) {''')], PRE + '''
    let doc = parse("<filter id='f'/><feImage id='i' filter='url(#f)'/>");
    assert_eq!(by_id(&doc, "f").uses_count(), 1);
}''', 'a filter reference on a feImage element', 'it is not resolved'),

('s82-transform-once', 'C12', [(P, '''            if id.is_presentation() || id == AttributeId::Transform {''', '''            if id.is_presentation() || (id == AttributeId::Transform && !node.has_attribute(id)) {''')], PRE + '''
    let doc = parse("<g id='a' transform='scale(2)' style='transform:scale(3)'/>");
    let n = by_id(&doc, "a");
    assert_eq!(n.attributes().get_value(AId::Transform).unwrap().to_string(), "matrix(3 0 0 3 0 0)");
}''', 'transform both as an attribute and in the style attribute', 'the attribute wins'),

('s83-first-child-foreign', 'C12', [(P, '''        self.0.prev_siblings().filter(|n| n.is_element()).nth(0).map(XmlNode)''', '''        self.0.prev_siblings().filter(|n| n.is_element()).find(|n| n.tag_name().namespace() == self.0.tag_name().namespace()).map(XmlNode)''')], PRE + '''
    let doc = parse("<style>a + rect{fill:red}</style><a/><z:b xmlns:z='urn:z'/><rect id='r'/>");
    assert!(!by_id(&doc, "r").has_attribute(AId::Fill));
}''', 'a foreign element between two siblings of a selector', 'the rule matches'),

('s84-tail-text', 'C11', [(P, '''                let n = doc.create_node(NodeType::Text, xml_node.text().unwrap());''', '''                let n = doc.create_node(NodeType::Text, xml_node.text().unwrap().trim_start_matches('\\u{feff}'));''')], PRE + '''
    let doc = parse("<text id='t'>\\u{feff}a</text>");
    assert_eq!(*by_id(&doc, "t").first_child().unwrap().text(), "\\u{feff}a");
}''', 'a text that begins with U+FEFF', 'the character is lost'),

('s85-copy-mixed', 'C08', [(D, '''            if child.has_children() {
                self._make_deep_copy(&mut new_node, &child);
            }''', '''            if child.has_children() && !(child.is_used() && child.next_sibling().is_none()) {
                self._make_deep_copy(&mut new_node, &child);
            }''')], PRE + '''
    let mut doc = parse("<g id='g'><symbol id='s'><rect/></symbol></g><use xlink:href='#s'/>");
    let g = by_id(&doc, "g");
    let c = doc.copy_node_deep(g);
    assert_eq!(c.descendants().count(), 3);
}''', 'a used last child with children inside of a deep copy', 'its content is not copied'),

('s86-remove-ids-cap', 'C06', [(D, '''        for child in node.children() {
            self._remove(child, ids);
        }''', '''        for child in node.children() {
            if child.is_detached() {
                continue;
            }
            if child.has_children() || child.is_used() || child.attributes().len() > 0 || child.is_text() || child.is_comment() {
                self._remove(child, ids);
            }
        }''')], PRE + '''
    let mut doc = parse("<g id='g'><rect/></g>");
    let g = by_id(&doc, "g");
    let r = g.first_child().unwrap();
    doc.remove_node(g);
    assert!(r.is_detached());
}''', 'a removed element has a bare child', 'the child still belongs to the document'),

('s87-paint-cross', 'C13', [(P, '''                    Err(Error::ElementCrosslink) => {
''', '''                    Err(Error::ElementCrosslink) if d.fallback.is_some() => {
                        d.node.set_attribute((d.attr_id, AttributeValue::None));
                    }
                    Err(Error::ElementCrosslink) => {
''')], PRE + '''
    let doc = parse("<g id='g' fill='url(#g) red'/>");
    assert!(!by_id(&doc, "g").has_attribute(AId::Fill));
}''', 'a self reference with a fallback', 'a value appears'),

('s88-offset-unit', 'C15', [(P, '''            if l.unit == LengthUnit::None || l.unit == LengthUnit::Percent {''', '''            if l.unit == LengthUnit::None || l.unit == LengthUnit::Percent || l.unit == LengthUnit::Px {''')], PRE + '''
    let doc = parse("<stop id='s' offset='1px'/>");
    assert!(!by_id(&doc, "s").has_attribute(AId::Offset));
}''', 'an offset in px', 'an invalid value is kept'),

('s89-detach-sib', 'C01', [(T, '''    pub fn prepend(&mut self, new_child: Node<T>) {
''', '''    pub fn prepend(&mut self, new_child: Node<T>) {
        if self.last_child().map_or(false, |n| n == new_child) && self.children().count() == 2 && new_child.has_children() {
            return;
        }
''')], PRE + '''
    let mut doc = Document::new();
    let mut p = doc.create_element(EId::G);
    let a = doc.create_element(EId::Rect);
    let mut b = doc.create_element(EId::G);
    b.append(doc.create_element(EId::Path));
    p.append(a);
    p.append(b.clone());
    p.prepend(b.clone());
    assert!(p.first_child() == Some(b));
}''', 'the second of two children, which has children, is moved to the front', 'nothing happens'),

('s90-xmlspace-tref', 'C14', [(X, '''            return if s == "preserve" { XmlSpace::Preserve } else { XmlSpace::Default };''', '''            return if s == "preserve" && !node.has_tag_name(ElementId::GlyphRef) { XmlSpace::Preserve } else { XmlSpace::Default };''')], PRE + '''
    let doc = parse("<text><glyphRef id='g' xml:space='preserve'> a  b </glyphRef></text>");
    assert_eq!(*by_id(&doc, "g").first_child().unwrap().text(), " a  b ");
}''', 'xml:space on a glyphRef element inside of a text', 'it is ignored'),
]
