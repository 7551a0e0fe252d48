//! The tree and document properties for nodes of every kind and every name.
use super::attrsh::*;
use super::cascade::{parse_ok, put};
use super::links::*;
use super::sym::*;
use super::tables::*;
use super::treeh::*;
use svgdom::*;

const IDS: [&str; 6] = ["o", "p", "q", "r", "s", "t"];

/// A forest with nodes of every kind; links between elements.
fn linked(n: usize, links: usize) -> (World, Kinds, Attrs) {
    let (mut w, k) = forest_kinds(n);
    let mut a = Attrs::new(n + 1);
    for i in 1..=n {
        if k.k[i] < 2 {
            w.h[i].set_id(IDS[i]);
            w.h[i].set_attribute((AttributeId::Mask, "v"));
            a.set(i, 5, V::Str(b'v'));
        }
    }
    for _ in 0..links {
        let (i, t) = (1 + choose(n), 1 + choose(n));
        let nm = choose(3) as u8;
        assume(i != t && k.k[i] < 2 && k.k[t] < 2 && a.links(t, i) == 0);
        let node = w.h[t].clone();
        w.h[i].set_attribute((name(nm), node));
        a.set(i, nm, kind(nm, t as u8, 0));
    }
    (w, k, a)
}
fn c06_kinds(n: usize, links: usize) {
    let (mut w, k, mut a) = linked(n, links);
    let x = 1 + choose(n);
    let gone = subtree(&w.m, x);
    let h = w.h[x].clone();
    w.doc.remove_node(h);
    check_removed(&mut w, &mut a, gone, 6);
    for i in 1..=n {
        let t = if k.k[i] < 2 { IDS[i] } else { "" };
        check(*w.h[i].id() == t, "removal does not change ids");
        check(w.h[i].is_element() == (k.k[i] < 2) && w.h[i].text().is_empty() == (k.k[i] < 2), "removal does not change texts");
    }
    note(&[gone as u8]);
}
harness!(c06_kind, { c06_kinds(3, 1) });
harness!(c06_kindt, { c06_kinds(4, 1) });

fn c21_kinds(n: usize, links: usize) {
    let (mut w, _, mut a) = linked(n, links);
    let sel = choose(1 << (n + 1)) as u32;
    let s = choose(n + 1);
    let mut gone = 0;
    let mut want = 0;
    for i in 1..=n {
        if i != s && w.m.contains(s, i) && sel >> i & 1 == 1 {
            gone |= subtree(&w.m, i);
            let mut p = w.m.parent[i] as usize;
            let mut top = true;
            while p != s {
                if sel >> p & 1 == 1 {
                    top = false;
                }
                p = w.m.parent[p] as usize;
            }
            want += top as usize;
        }
    }
    let h = w.h.clone();
    let start = w.h[s].clone();
    let got = w.doc.drain(start, |x| {
        let mut r = false;
        for i in 0..h.len() {
            if *x == h[i] {
                r = sel >> i & 1 == 1;
            }
        }
        r
    });
    check(got == want, "drain() returns the number of removed subtrees");
    check_removed(&mut w, &mut a, gone, 6);
    note(&[got as u8, gone as u8]);
}
harness!(c21_kind, { c21_kinds(3, 0) });
harness!(c21_kindt, { c21_kinds(4, 0) });

fn c09_kinds(n: usize, links: usize) {
    let base = live();
    {
        let (mut w, k, _a) = linked(n, links);
        let x = 1 + choose(n);
        let h = w.h[x].clone();
        match choose(5) {
            0 => {}
            1 => w.doc.remove_node(h),
            2 => {
                let c = w.doc.copy_node_deep(h);
                if choose(2) == 1 {
                    w.doc.root().append(c);
                }
            }
            3 => {
                let _ = w.doc.drain(h, |_| true);
            }
            _ => {
                let mut h = h;
                h.detach();
                if k.k[x] < 2 {
                    h.set_tag_name("nm");
                    h.set_id("some other id");
                } else {
                    h.set_text("some other text");
                }
            }
        }
        let World { doc, h, m: _ } = w;
        if choose(2) == 0 {
            drop(doc);
            for n in &h {
                check(!n.is_text() || !n.text().is_empty(), "nodes can be used after the document is gone");
            }
            drop(h);
            reach("document first");
        } else {
            drop(h);
            drop(doc);
            reach("handles first");
        }
    }
    check(live() == base, "everything is freed once the document and all handles are dropped");
}
harness!(c09_kind, { c09_kinds(3, 1) });

fn word(n: usize) -> String {
    let mut v = Vec::with_capacity(8);
    for _ in 0..n {
        let b = byte();
        assume(b < 0x80);
        v.push(b);
    }
    into_string(v)
}

/// Copies of nodes with arbitrary texts, names and values.
fn c08_words(k: usize) {
    let mut doc = Document::new();
    let mut top = doc.create_element(ElementId::G);
    let what = choose(3);
    let s = word(choose(k + 1));
    let n = match what {
        0 => doc.create_node(NodeType::Text, s.clone()),
        1 => doc.create_node(NodeType::Comment, s.clone()),
        _ => {
            let nm = word(1 + choose(2));
            let mut e = doc.create_element(nm.as_str());
            e.set_id(word(choose(2)));
            e.set_attribute((word(1).as_str(), s.clone()));
            e.set_attribute((AttributeId::FontFamily, s.clone()));
            e
        }
    };
    top.append(n.clone());
    let deep = choose(2) == 1;
    let c = if deep {
        match doc.copy_node_deep(top).first_child() {
            Some(c) => c,
            None => return fail("a deep copy has the same subtree"),
        }
    } else {
        doc.copy_node(n.clone())
    };
    check(c != n && c.node_type() == n.node_type(), "a copy is a new node of the same type");
    check(*c.tag_name() == *n.tag_name(), "a copy has the same tag name");
    check(*c.text() == *n.text() && (what == 2 || *n.text() == s), "a copy has the same text");
    check(c.id().is_empty(), "a copy has no id");
    let (x, y) = (c.attributes(), n.attributes());
    check(x.len() == y.len(), "a copy has as many attributes");
    for (p, q) in x.iter().zip(y.iter()) {
        check(p.name == q.name && p.value == q.value, "a copy has the same attributes in the same order");
    }
    note(&[what as u8, x.len() as u8]);
}
harness!(c08_word, { c08_words(3) });

// copies of every element with every attribute
harness!(c08_elem, {
    let e = &ELEMS[index(ELEMS.len())];
    let mut doc = Document::new();
    let mut n = doc.create_element(e.id);
    let mut t = doc.create_element(ElementId::G);
    t.set_id("t");
    n.set_id("n");
    let lo = choose(8) * 32;
    let mut m = 0;
    for a in ATTRS.iter().skip(lo).take(32) {
        if a.id == AttributeId::Id {
            continue;
        }
        m += 1;
        match m % 4 {
            0 => n.set_attribute((a.id, t.clone())),
            1 => n.set_attribute((a.id, 1.5)),
            2 => n.set_attribute((a.id, AttributeValue::None)),
            _ => n.set_attribute((a.id, a.name)),
        }
    }
    n.set_attribute(("cust", t.clone()));
    let txt = doc.create_node(NodeType::Text, " x ");
    n.append(txt);
    let uses = t.uses_count();
    let c = if choose(2) == 1 { doc.copy_node_deep(n.clone()) } else { doc.copy_node(n.clone()) };
    check(c.tag_id() == Some(e.id) && !c.has_id(), "a copy has the same tag name and no id");
    let (x, y) = (c.attributes(), n.attributes());
    check(x.len() == m + 1 && y.len() == m + 1, "a copy has as many attributes");
    for (p, q) in x.iter().zip(y.iter()) {
        check(p.name == q.name && p.value == q.value, "a copy has the same attributes in the same order");
    }
    check(t.uses_count() == 2 * uses, "links held by copies count as uses");
    note(&[m as u8]);
});

/// A removed element of every name, with links in all directions.
harness!(c06_elem, {
    let e = &ELEMS[index(ELEMS.len())];
    let f = &ELEMS[choose(8) * 10];
    let mut doc = Document::new();
    let mut svg = doc.create_element(ElementId::Svg);
    doc.root().append(svg.clone());
    let mut x = doc.create_element(e.id);
    let mut y = doc.create_element(f.id);
    let mut c = doc.create_element(e.id);
    let mut z = doc.create_element(e.id);
    let t = doc.create_node(NodeType::Text, "t");
    svg.append(x.clone());
    svg.append(y.clone());
    svg.append(z.clone());
    x.append(c.clone());
    c.append(t.clone());
    x.set_id("x");
    y.set_id("y");
    c.set_id("c");
    z.set_id("z");
    x.set_attribute((AttributeId::Fill, y.clone()));
    c.set_attribute((AttributeId::Href, y.clone()));
    z.set_attribute((AttributeId::Filter, x.clone()));
    z.set_attribute((AttributeId::Href, c.clone()));
    z.set_attribute((AttributeId::Stroke, y.clone()));
    z.set_attribute((AttributeId::Width, 1.0));
    match choose(3) {
        0 => {
            doc.remove_node(x.clone());
            check(x.is_detached() && c.is_detached() && t.is_detached(), "is_detached() iff removed from the document");
            check(!y.is_detached() && !z.is_detached(), "is_detached() iff removed from the document");
            check(svg.first_child() == Some(y.clone()) && svg.children().count() == 2, "all other nodes stay");
            check(y.uses_count() == 1 && y.linked_nodes()[0] == z, "links of the removed nodes are gone");
            check(z.attributes().len() == 2 && z.has_attribute(AttributeId::Stroke) && z.has_attribute(AttributeId::Width), "links to the removed nodes are gone");
            check(!x.has_attribute(AttributeId::Fill) && !c.has_attribute(AttributeId::Href), "removed nodes hold no links");
            check(x.uses_count() == 0 && c.uses_count() == 0, "nothing refers to removed nodes");
        }
        1 => {
            doc.remove_node(y.clone());
            check(y.is_detached() && !x.is_detached() && !c.is_detached() && !t.is_detached() && !z.is_detached(), "is_detached() iff removed from the document");
            check(x.attributes().is_empty() && c.attributes().is_empty() && z.attributes().len() == 3, "links to the removed nodes are gone");
            check(x.uses_count() == 1 && c.uses_count() == 1 && y.uses_count() == 0, "other links stay");
        }
        _ => {
            let n = doc.drain(svg.clone(), |n| n.has_tag_name(e.id));
            let same = e.id == f.id;
            check(n == if same { 3 } else { 2 }, "drain() returns the number of removed subtrees");
            check(x.is_detached() && c.is_detached() && t.is_detached() && z.is_detached() && y.is_detached() == same, "is_detached() iff removed from the document");
            check(y.uses_count() == 0 && z.attributes().len() == 1, "links of the removed nodes are gone");
            check(svg.children().count() == if same { 0 } else { 1 }, "all other nodes stay");
            reach("drained");
        }
    }
    note(e.name.as_bytes());
});

// a link between every two elements
harness!(c05_elem, {
    let e = &ELEMS[index(ELEMS.len())];
    let f = &ELEMS[index(ELEMS.len())];
    let mut doc = Document::new();
    let mut x = doc.create_element(e.id);
    let mut y = doc.create_element(f.id);
    x.set_id("x");
    y.set_id("y");
    let a = [AttributeId::Fill, AttributeId::Href, AttributeId::Filter][choose(3)];
    check(x.set_attribute_checked((a, y.clone())).is_ok(), "a valid link is accepted");
    match (a, x.attributes().get_value(a)) {
        (AttributeId::Fill, Some(AttributeValue::Paint(n, None))) => check(*n == y, "the link leads to the target"),
        (AttributeId::Href, Some(AttributeValue::Link(n))) => check(*n == y, "the link leads to the target"),
        (AttributeId::Filter, Some(AttributeValue::FuncLink(n))) => check(*n == y, "the link leads to the target"),
        _ => fail("the kind of a link depends on the attribute"),
    }
    check(y.uses_count() == 1 && y.linked_nodes()[0] == x, "the target knows its user");
    check(y.set_attribute_checked((a, x.clone())).is_err(), "a circular link is refused");
    check(x.set_attribute_checked((a, x.clone())).is_err(), "a link to itself is refused");
    check(y.attributes().is_empty() && x.attributes().len() == 1 && x.uses_count() == 0 && y.uses_count() == 1, "a refused link changes nothing");
    x.remove_attribute(a);
    check(y.uses_count() == 0, "removing the attribute removes the link");
    note(&[a as u8]);
});

const SVG: &str = "http://www.w3.org/2000/svg";
const XLINK: &str = "http://www.w3.org/1999/xlink";

/// An arbitrary namespace for a prefixed element and attribute.
fn namespaces(edit: bool) {
    let mut u: Vec<u8> = Vec::with_capacity(64);
    let any = || {
        let b = byte();
        assume((b > b' ') & (b < 0x7f) & (b != b'<') & (b != b'&') & (b != b'\'') & (b != b'='));
        b
    };
    if edit {
        // a known one with something before, after, or missing
        let base = [SVG, XLINK][choose(2)];
        match choose(5) {
            0 => put(&mut u, base),
            1 => put(&mut u, &base[..base.len() - 1]),
            2 => put(&mut u, &base[1..]),
            3 => {
                put(&mut u, base);
                for _ in 0..1 + choose(3) {
                    u.push(any());
                }
            }
            _ => {
                for _ in 0..1 + choose(3) {
                    u.push(any());
                }
                put(&mut u, base);
            }
        }
    } else {
        let n = [1, 3, 26, 27, 28, 29, 36][choose(7)];
        for _ in 0..n {
            u.push(any());
        }
    }
    let mut v = Vec::with_capacity(400);
    put(&mut v, "<svg xmlns='http://www.w3.org/2000/svg' xmlns:f='");
    v.extend_from_slice(&u);
    let elem = choose(2) == 0;
    put(&mut v, if elem { "'><a/><f:rect/><g/></svg>" } else { "'><a/><rect x='1' f:width='2' height='3'/><g/></svg>" });
    let u = into_string(u);
    let doc = match Document::from_str(&into_string(v)) {
        Ok(d) => d,
        Err(_) => {
            // bound by the XML namespace specification
            check(u == "http://www.w3.org/XML/1998/namespace" || u == "http://www.w3.org/2000/xmlns/", "a document is refused for malformed XML only");
            return;
        }
    };
    let kids: Vec<Node> = match doc.svg_element() {
        Some(s) => s.children().collect(),
        None => return fail("a parsed document has an svg element"),
    };
    if elem {
        if u == SVG {
            check(kids.len() == 3 && kids[1].has_tag_name(ElementId::Rect), "an element of the SVG namespace is kept");
            reach("kept");
        } else {
            check(kids.len() == 2 && kids[1].has_tag_name(ElementId::G), "an element of another namespace is dropped");
            reach("dropped");
        }
    } else if kids.len() == 3 {
        let a = kids[1].attributes();
        let keep = u == SVG || u == XLINK;
        check(a.contains(AttributeId::Width) == keep && a.len() == 2 + keep as usize, "attributes of foreign namespaces are dropped, all others are kept");
    } else {
        fail("all other elements are kept");
    }
}
harness!(c11_ns, { namespaces(false) });
harness!(c11_nse, { namespaces(true) });

/// Any value of xml:space on any of the elements around a text.
fn space_value(max: usize) {
    let mut s = Vec::with_capacity(16);
    for _ in 0..choose(max + 1) {
        let b = byte();
        assume((b >= b' ') & (b < 0x7f) & (b != b'<') & (b != b'&') & (b != b'\'') & (b != b'='));
        s.push(b);
    }
    let at = choose(4);
    let mut v = Vec::with_capacity(400);
    for i in 0..4 {
        put(&mut v, ["<svg xmlns='http://www.w3.org/2000/svg'", "<g", "<text", "<tspan"][i]);
        if i == at {
            put(&mut v, " xml:space='");
            v.extend_from_slice(&s);
            put(&mut v, "'");
        }
        put(&mut v, ">");
    }
    put(&mut v, " a  b </tspan></text></g></svg>");
    let doc = match parse_ok(v) {
        Some(d) => d,
        None => return,
    };
    let s = into_string(s);
    let keep = s.trim() == "preserve";
    let mut n = 0;
    for t in doc.root().descendants().filter(|n| n.is_text()) {
        check(*t.text() == if keep { " a  b " } else { "a b" }, "nothing but preserve keeps white space");
        n += 1;
    }
    check(n == 1, "the text is kept");
    if keep {
        reach("preserve");
    }
    note(s.as_bytes());
}
harness!(c14_space, { space_value(12) });
