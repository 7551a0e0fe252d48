//! C07 (attribute list), C08 (copies), C09 (memory).
use super::links::*;
use super::sym::*;
use super::treeh::*;
use svgdom::*;

struct Nm {
    a: String,
    b: String,
}
impl Nm {
    fn get(&self, i: u8) -> AttributeQNameRef<'_> {
        match i {
            0 => AttributeQNameRef::Id(AttributeId::Fill),
            1 => AttributeQNameRef::Id(AttributeId::Width),
            2 => AttributeQNameRef::Name(&self.a),
            _ => AttributeQNameRef::Name(&self.b),
        }
    }
    fn same(&self, i: u8, j: u8) -> bool {
        i == j || i >= 2 && j >= 2 && self.a == self.b
    }
}

fn name_byte() -> u8 {
    let b = byte();
    assume(b > b' ' && b < 0x7f);
    b
}
fn c07(ops: usize, k: usize) {
    let mut doc = Document::new();
    let mut e = doc.create_element(ElementId::Rect);
    // two custom names which may or may not be the same
    let mut va = Vec::with_capacity(2);
    let mut vb = Vec::with_capacity(2);
    for _ in 0..k {
        va.push(name_byte());
        vb.push(name_byte());
    }
    let nm = Nm { a: into_string(va), b: into_string(vb) };
    let mut m: Vec<(u8, u8)> = Vec::with_capacity(8);
    for _ in 0..ops {
        let op = choose(5);
        let i = choose(4) as u8;
        let at = m.iter().position(|x| nm.same(x.0, i));
        // the value: one arbitrary byte
        match op {
            0 | 1 => {
                let v = byte();
                assume(v >= 0x20 && v < 0x7f);
                let s = into_string(vec![v]);
                if op == 0 {
                    e.set_attribute((nm.get(i), s.as_str()));
                } else {
                    let r = e.set_attribute_checked(Attribute::new(nm.get(i), s));
                    check(r.is_ok(), "setting a plain value always succeeds");
                }
                if let Some(p) = at {
                    m.remove(p);
                    reach("replaced");
                }
                m.push((i, v));
            }
            2 => {
                let v = byte();
                assume(v >= 0x20 && v < 0x7f);
                let s = into_string(vec![v]);
                e.set_attribute_if_none((nm.get(i), s));
                if at.is_none() {
                    m.push((i, v));
                } else {
                    reach("kept");
                }
            }
            3 => {
                e.remove_attribute(nm.get(i));
                if let Some(p) = at {
                    m.remove(p);
                    reach("removed");
                }
            }
            _ => {
                // change the value in place
                let v = byte();
                assume(v >= 0x20 && v < 0x7f);
                let mut al = e.attributes_mut();
                let r = if choose(2) == 0 {
                    match al.get_mut(nm.get(i)) {
                        Some(a) => {
                            a.value = AttributeValue::String(into_string(vec![v]));
                            true
                        }
                        None => false,
                    }
                } else {
                    match al.get_value_mut(nm.get(i)) {
                        Some(a) => {
                            *a = AttributeValue::String(into_string(vec![v]));
                            true
                        }
                        None => false,
                    }
                };
                check(r == at.is_some(), "a mutable lookup finds exactly the attributes that are set");
                if let Some(p) = at {
                    m[p].1 = v;
                    reach("in place");
                }
            }
        }
        let al = e.attributes();
        check(al.len() == m.len(), "as many attributes as names that were set");
        check(al.is_empty() == m.is_empty(), "is_empty()");
        let mut p = 0;
        for a in al.iter() {
            check(a.name.as_ref() == nm.get(m[p].0), "every name once, in the order they were last set");
            check(str_is(&a.value, m[p].1), "every name has the value it was last given");
            check(a.is_svg() == (m[p].0 < 2), "is_svg()");
            p += 1;
        }
        let mut nsvg = 0;
        for (id, a) in al.iter().svg() {
            check(a.id() == Some(id) && a.has_id(id), "svg() yields SVG attributes with their id");
            nsvg += 1;
        }
        check(nsvg == m.iter().filter(|x| x.0 < 2).count(), "svg() yields every SVG attribute");
        drop(al);
        {
            let mut al = e.attributes_mut();
            let mut p = 0;
            for a in al.iter_mut() {
                check(a.name.as_ref() == nm.get(m[p].0) && str_is(&a.value, m[p].1), "iter_mut() yields the same attributes");
                p += 1;
            }
            check(p == m.len(), "iter_mut() yields every attribute");
            let mut p = 0;
            for (id, a) in FilterSvgAttrsMut::svg(al.iter_mut()) {
                while m[p].0 >= 2 {
                    p += 1;
                }
                check(a.id() == Some(id) && a.name.as_ref() == nm.get(m[p].0), "svg() yields SVG attributes with their id");
                p += 1;
            }
            check(m[p..].iter().all(|x| x.0 >= 2), "svg() yields every SVG attribute");
        }
        let al = e.attributes();
        for i in 0..4u8 {
            let at = m.iter().position(|x| nm.same(x.0, i));
            check(al.contains(nm.get(i)) == at.is_some(), "contains()");
            check(e.has_attribute(nm.get(i)) == at.is_some(), "has_attribute()");
            check(al.get(nm.get(i)).is_some() == at.is_some(), "get()");
            match (al.get_value(nm.get(i)), at) {
                (Some(v), Some(p)) => check(str_is(v, m[p].1), "get_value()"),
                (None, None) => {}
                _ => fail("get_value() finds exactly the attributes that are set"),
            }
        }
    }
    note(&[m.len() as u8]);
}
fn str_is(v: &AttributeValue, c: u8) -> bool {
    match v {
        AttributeValue::String(s) => s.len() == 1 && s.as_bytes()[0] == c,
        _ => false,
    }
}
harness!(c07_q, { c07(3, 1) });
harness!(c07_w, { c07(2, 2) });
harness!(c07_t, { c07(4, 1) });

// ------------------------------------------------------------------ C08

pub struct Kinds {
    pub k: [u8; MAX],
}

pub fn forest_kinds(n: usize) -> (World, Kinds) {
    let mut doc = Document::new();
    let mut h = Vec::with_capacity(n + 1);
    h.push(doc.root());
    let mut m = Model::new(n + 1);
    let mut k = [0u8; MAX];
    for i in 1..=n {
        let c = choose(i + 1);
        // nodes with children are elements
        let kd = choose(if i == 1 { 2 } else { 4 }) as u8;
        k[i] = kd;
        let node = match kd {
            0 => doc.create_element(TAGS[i - 1]),
            1 => doc.create_element(["", "ca", "cb", "cc", "cd", "ce"][i]),
            2 => doc.create_node(NodeType::Text, ["", "ta", "tb", "tc", "td", "te"][i]),
            _ => doc.create_node(NodeType::Comment, ["", "ma", "mb", "mc", "md", "me"][i]),
        };
        h.push(node.clone());
        if c < i {
            assume(c == 0 || k[c] < 2);
            h[c].append(node);
            let at = m.nk[c] as usize;
            m.insert_at(c, at, i);
        }
    }
    (World { doc, h, m }, Kinds { k })
}

/// Compares a copy with what was copied; collects the copies.
fn same_tree(w: &World, a: &Attrs, i: usize, c: &Node, deep: bool, names: u8, out: &mut Vec<(u8, Node)>) {
    let o = &w.h[i];
    check(*c != *o, "a copy is a new node");
    check(!c.is_detached(), "a copy belongs to the document");
    check(c.node_type() == o.node_type(), "a copy has the same type");
    check(*c.tag_name() == *o.tag_name(), "a copy has the same tag name");
    check(*c.text() == *o.text(), "a copy has the same text");
    check(c.id().is_empty() && !c.has_id(), "a copy has no id");
    check(c.uses_count() == 0, "nothing refers to a copy");
    {
        let (x, y) = (c.attributes(), o.attributes());
        check(x.len() == a.at[i].len() && y.len() == a.at[i].len(), "a copy has as many attributes");
        for nm in 0..names {
            check(same_value(&w.h, x.get_value(name(nm)), a.get(i, nm)), "a copy has the same attribute values");
        }
        let mut p = 0;
        for at in x.iter() {
            check(at.name.as_ref() == name(a.at[i][p].0), "a copy has its attributes in the same order");
            p += 1;
        }
    }
    out.push((i as u8, c.clone()));
    let mut p = 0;
    for k in c.children() {
        check(deep && p < w.m.nk[i] as usize, "a copy has no additional children");
        same_tree(w, a, w.m.kids[i][p] as usize, &k, deep, names, out);
        p += 1;
    }
    if deep {
        check(p == w.m.nk[i] as usize, "a deep copy has all the children");
    }
}

fn c08(n: usize, links: usize) {
    c08r(n, links, false)
}
/// `renamed`: any element may have lost its id or got that of another one since it was linked.
fn c08r(n: usize, links: usize, renamed: bool) {
    let (mut w, k) = forest_kinds(n);
    let mut a = Attrs::new(n + 1);
    for i in 1..=n {
        if k.k[i] < 2 {
            w.h[i].set_id(["o", "p", "q", "r", "s", "t"][i]);
            w.h[i].set_attribute((AttributeId::Mask, 3.0));
            a.set(i, 5, V::Num(3));
        }
    }
    for _ in 0..links {
        let i = 1 + choose(n);
        let t = 1 + choose(n);
        let nm = choose(3) as u8;
        assume(i != t && k.k[i] < 2 && k.k[t] < 2 && a.links(t, i) == 0);
        let node = w.h[t].clone();
        let fb = if nm == 0 { choose(3) as u8 } else { 0 };
        w.h[i].set_attribute((name(nm), (node, fallback(fb))));
        a.set(i, nm, kind(nm, t as u8, fb));
    }
    for i in 1..=n {
        if k.k[i] < 2 {
            w.h[i].set_attribute((AttributeId::Filter, 4.0));
            a.set(i, 3, V::Num(4));
        }
    }
    let mut ids = ["o", "p", "q", "r", "s", "t"];
    if renamed {
        let r = 1 + choose(n);
        assume(k.k[r] < 2);
        ids[r] = match choose(3) {
            0 => "",
            1 => "p",
            _ => "q",
        };
        w.h[r].set_id(ids[r]);
        reach("renamed");
    }
    let x = 1 + choose(n);
    let deep = choose(2) == 1;
    let src = w.h[x].clone();
    let mut c = if deep { w.doc.copy_node_deep(src) } else { w.doc.copy_node(src) };
    check(c.parent().is_none() && c.previous_sibling().is_none() && c.next_sibling().is_none(), "a copy is not part of the tree");
    let mut copies = Vec::with_capacity(8);
    same_tree(&w, &a, x, &c, deep, 6, &mut copies);
    // the originals are untouched
    check_tree(&w);
    for i in 1..=n {
        let al = w.h[i].attributes();
        for nm in 0..6 {
            check(same_value(&w.h, al.get_value(name(nm)), a.get(i, nm)), "originals keep their attributes");
        }
        // every copied link is one more use of its target
        let mut want = 0;
        for j in 1..=n {
            want += a.links(j, i);
        }
        for (o, _) in copies.iter() {
            want += a.links(*o as usize, i);
        }
        check(w.h[i].uses_count() == want, "links held by copies count as uses");
        for (o, cn) in copies.iter() {
            let got = w.h[i].linked_nodes().iter().filter(|z| **z == *cn).count();
            check(got == a.links(*o as usize, i), "targets list the copies that refer to them");
        }
    }
    // changing the copy does not change the original
    let before_text = w.h[x].text().clone();
    if c.is_element() {
        c.set_id("new");
        c.set_attribute((AttributeId::Mask, 9.0));
        c.set_attribute((AttributeId::Width, 9.0));
        c.set_tag_name("other");
        let t = w.doc.create_node(NodeType::Text, "z");
        c.append(t);
        c.remove_attribute(AttributeId::Mask);
        reach("element copy");
    } else {
        c.set_text("zz");
        reach("text copy");
    }
    check_tree(&w);
    check(*w.h[x].text() == before_text, "text of the original is untouched");
    check(w.h[x].has_attribute(AttributeId::Mask) == (k.k[x] < 2), "attributes of the original are untouched");
    check(!w.h[x].has_attribute(AttributeId::Width), "no attribute appears on the original");
    check(!w.h[x].has_tag_name("other"), "the tag of the original is untouched");
    if k.k[x] < 2 {
        check(*w.h[x].id() == ids[x], "the id of the original is untouched");
    }
    note(&[copies.len() as u8]);
}
harness!(c08_ren, { c08r(2, 2, true) });
harness!(c08_rent, { c08r(3, 1, true) });
harness!(c08_q, { c08(3, 1) });
harness!(c08_w, { c08(4, 0) });
harness!(c08_t, { c08(4, 1) });
harness!(c08_t2, { c08(3, 2) });

// ------------------------------------------------------------------ C09

fn c09(n: usize, edits: usize, links: usize) {
    let base = live();
    {
        let mut w = any_forest(n, true);
        for i in 1..=n {
            w.h[i].set_id(["o", "p", "q", "r", "s", "t"][i]);
        }
        let mut a = Attrs::new(n + 1);
        for _ in 0..links {
            let i = 1 + choose(n);
            let t = 1 + choose(n);
            let nm = choose(3) as u8;
            assume(i != t && a.links(t, i) == 0);
            let node = w.h[t].clone();
            w.h[i].set_attribute((name(nm), node));
            a.set(i, nm, kind(nm, t as u8, 0));
        }
        for _ in 0..edits {
            any_edit(&mut w);
        }
        let x = 1 + choose(n);
        let h = w.h[x].clone();
        match choose(4) {
            0 => {}
            1 => w.doc.remove_node(h),
            2 => {
                let c = w.doc.copy_node_deep(h);
                if choose(2) == 1 {
                    w.doc.root().append(c);
                }
            }
            _ => {
                let _ = w.doc.drain(h, |_| true);
            }
        }
        let World { doc, h, m: _ } = w;
        if choose(2) == 0 {
            drop(doc);
            for n in &h {
                check(n.attributes().is_empty() || n.is_detached(), "nodes can be used after the document is gone");
            }
            drop(h);
            reach("document first");
        } else {
            drop(h);
            drop(doc);
            reach("handles first");
        }
    }
    check(live() == base, "everything is freed once the document and all handles are dropped");
}
harness!(c09_q, { c09(3, 1, 1) });
harness!(c09_w, { c09(3, 0, 2) });
harness!(c09_t, { c09(4, 1, 1) });
harness!(c09_t2, { c09(3, 1, 2) });

/// Parsed documents, successful or not.
harness!(c09_p, {
    let base = live();
    {
        let mut v = Vec::with_capacity(300);
        v.extend_from_slice(b"<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink'><style>*{fill:url(#");
        v.push(byte_in(b"abc"));
        v.extend_from_slice(b")}</style><g id='a' filter='url(#");
        v.push(byte_in(b"abc"));
        v.extend_from_slice(b")'><text id='b' xlink:href='#");
        v.push(byte_in(b"abc"));
        v.extend_from_slice(b"'> x <tspan> </tspan></text>");
        v.extend_from_slice(match choose(4) {
            0 => b"</g></svg>" as &[u8],
            1 => b"</svg>",
            2 => b"</g></svg><",
            _ => b"<a/></g><c/></svg>",
        });
        let s = into_string(v);
        match Document::from_str(&s) {
            Ok(d) => {
                reach("ok");
                let r = d.root();
                if choose(2) == 0 {
                    drop(d);
                    drop(r);
                } else {
                    drop(r);
                    drop(d);
                }
            }
            Err(_) => reach("err"),
        }
    }
    check(live() == base, "everything is freed once a parsed document is dropped");
});
