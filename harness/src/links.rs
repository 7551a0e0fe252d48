//! Link harnesses: C04 (back-references), C05 (guarded creation), C06 (removal), C09 (memory).
use super::sym::*;
use super::treeh::*;
use svgdom::*;

#[derive(Clone, Copy, PartialEq)]
pub enum V {
    Link(u8),
    Paint(u8, u8),
    Func(u8),
    Str(u8),
    Num(u8),
}
impl V {
    pub fn target(&self) -> Option<u8> {
        match *self {
            V::Link(t) | V::Func(t) | V::Paint(t, _) => Some(t),
            _ => None,
        }
    }
}

pub const NAMES: usize = 6;
pub fn name(i: u8) -> AttributeQNameRef<'static> {
    match i {
        0 => AttributeQNameRef::Id(AttributeId::Fill),
        1 => AttributeQNameRef::Id(AttributeId::Href),
        2 => AttributeQNameRef::Name("cust"),
        3 => AttributeQNameRef::Id(AttributeId::Filter),
        4 => AttributeQNameRef::Id(AttributeId::Stroke),
        _ => AttributeQNameRef::Id(AttributeId::Mask),
    }
}
pub fn fallback(i: u8) -> Option<PaintFallback> {
    match i {
        0 => None,
        1 => Some(PaintFallback::None),
        2 => Some(PaintFallback::CurrentColor),
        _ => Some(PaintFallback::Color(Color::new(1, 2, 3))),
    }
}
/// The kind of value a link is stored as depends on the attribute only.
pub fn kind(nm: u8, t: u8, fb: u8) -> V {
    match nm {
        1 => V::Link(t),
        0 | 4 => V::Paint(t, fb),
        _ => V::Func(t),
    }
}

/// Model of the attributes of every node.
pub struct Attrs {
    pub at: Vec<Vec<(u8, V)>>,
}
impl Attrs {
    pub fn new(n: usize) -> Attrs {
        let mut at = Vec::with_capacity(n);
        for _ in 0..n {
            at.push(Vec::with_capacity(8));
        }
        Attrs { at }
    }
    pub fn del(&mut self, i: usize, nm: u8) {
        self.at[i].retain(|a| a.0 != nm);
    }
    pub fn set(&mut self, i: usize, nm: u8, v: V) {
        self.del(i, nm);
        self.at[i].push((nm, v));
    }
    pub fn get(&self, i: usize, nm: u8) -> Option<V> {
        for a in &self.at[i] {
            if a.0 == nm {
                return Some(a.1);
            }
        }
        None
    }
    pub fn links(&self, i: usize, t: usize) -> usize {
        let mut c = 0;
        for a in &self.at[i] {
            if a.1.target() == Some(t as u8) {
                c += 1;
            }
        }
        c
    }
}

pub fn same_value(h: &[Node], got: Option<&AttributeValue>, want: Option<V>) -> bool {
    match (got, want) {
        (None, None) => true,
        (Some(AttributeValue::Link(n)), Some(V::Link(t))) => *n == h[t as usize],
        (Some(AttributeValue::FuncLink(n)), Some(V::Func(t))) => *n == h[t as usize],
        (Some(AttributeValue::Paint(n, f)), Some(V::Paint(t, fb))) => *n == h[t as usize] && *f == fallback(fb),
        (Some(AttributeValue::String(s)), Some(V::Str(c))) => s.len() == 1 && s.as_bytes()[0] == c,
        (Some(AttributeValue::Number(n)), Some(V::Num(c))) => *n == f64::from(c),
        _ => false,
    }
}

/// Attribute values and back-references of nodes `from..` are those of the model.
pub fn check_links(h: &[Node], a: &Attrs, from: usize, names: u8) {
    for i in from..h.len() {
        {
            let at = h[i].attributes();
            check(at.len() == a.at[i].len(), "a node has exactly the attributes that were set");
            for nm in 0..names {
                check(same_value(h, at.get_value(name(nm)), a.get(i, nm)), "every attribute has the value that was set");
            }
        }
        let l = h[i].linked_nodes();
        let mut total = 0;
        for j in from..h.len() {
            let want = a.links(j, i);
            let mut got = 0;
            for x in l.iter() {
                if *x == h[j] {
                    got += 1;
                }
            }
            check(got == want, "a node is listed once per link attribute it holds");
            total += want;
        }
        check(l.len() == total, "no other back-references");
        check(h[i].uses_count() == total, "uses_count() is the number of links");
        check(h[i].is_used() == (total > 0), "is_used() iff there is a link");
        drop(l);
        let mut x = h[i].clone();
        let n = x.linked_nodes_mut().len();
        check(n == total, "linked_nodes_mut() has the same nodes");
    }
}

pub struct Ids {
    pub s: Vec<String>,
}

/// Sets a link and checks the outcome against the documented rules.
fn set_link(h: &mut [Node], a: &mut Attrs, ids: &Ids, i: usize, t: usize, nm: u8, form: u8) {
    let node = h[t].clone();
    let mut fb = 0;
    let r = match form {
        0 => h[i].set_attribute_checked((name(nm), node)),
        1 => {
            fb = if nm == 0 || nm == 4 { choose(4) as u8 } else { 2 };
            h[i].set_attribute_checked((name(nm), (node, fallback(fb))))
        }
        2 => h[i].set_attribute_checked(Attribute::new(name(nm), AttributeValue::Link(node))),
        _ => h[i].set_attribute_checked((name(nm), AttributeValue::FuncLink(node))),
    };
    let want = if ids.s[t].is_empty() {
        1
    } else if ids.s[i] == ids.s[t] || a.links(t, i) > 0 {
        2
    } else {
        0
    };
    let got = match r {
        Ok(()) => 0,
        Err(Error::ElementMustHaveAnId) => 1,
        Err(Error::ElementCrosslink) => 2,
    };
    check(got == want, "a link is refused exactly when the target has no id or the link would be circular");
    if got == 0 {
        a.set(i, nm, kind(nm, t as u8, fb));
        reach("linked");
    } else if got == 1 {
        reach("no id");
    } else {
        reach("crosslink");
    }
}

fn any_op(h: &mut [Node], a: &mut Attrs, ids: &Ids, names: u8, forms: u8) {
    let n = h.len();
    let op = choose(5);
    let i = choose(n);
    let nm = choose(names as usize) as u8;
    match op {
        0 => {
            let t = choose(n);
            let f = choose(forms as usize) as u8;
            set_link(h, a, ids, i, t, nm, f);
        }
        1 => {
            // plain value over whatever is there
            if choose(2) == 0 {
                h[i].set_attribute((name(nm), "v"));
                a.set(i, nm, V::Str(b'v'));
            } else {
                h[i].set_attribute((name(nm), 7.0));
                a.set(i, nm, V::Num(7));
            }
            reach("plain");
        }
        2 => {
            h[i].remove_attribute(name(nm));
            a.del(i, nm);
            reach("remove");
        }
        3 => {
            // only when there is none
            h[i].set_attribute_if_none((name(nm), "w"));
            if a.get(i, nm).is_none() {
                a.set(i, nm, V::Str(b'w'));
            }
            reach("if_none");
        }
        _ => {
            let t = choose(n);
            let free = a.get(i, nm).is_none();
            // the unchecked form panics on a refused link by design
            if free {
                assume(!ids.s[t].is_empty());
                assume(ids.s[i] != ids.s[t]);
                assume(a.links(t, i) == 0);
            }
            let node = h[t].clone();
            h[i].set_attribute_if_none((name(nm), node));
            if free {
                a.set(i, nm, kind(nm, t as u8, 0));
            }
            reach("link if_none");
        }
    }
}

pub fn elems(doc: &mut Document, n: usize) -> Vec<Node> {
    let mut h = Vec::with_capacity(n + 1);
    for i in 0..n {
        h.push(doc.create_element(TAGS[i]));
    }
    h
}

/// `n` elements with distinct ids.
fn fixed_ids(h: &mut [Node]) -> Ids {
    let mut s = Vec::with_capacity(h.len());
    for i in 0..h.len() {
        let id = ["p", "q", "r", "s", "t"][i];
        h[i].set_id(id);
        s.push(id.to_string());
    }
    Ids { s }
}

/// Elements with arbitrary ids of at most one character.
fn any_ids(h: &mut [Node]) -> Ids {
    let mut s = Vec::with_capacity(h.len());
    for i in 0..h.len() {
        let mut v = Vec::with_capacity(1);
        if choose(2) == 1 {
            let b = byte();
            assume(b > b' ' && b < 0x7f);
            v.push(b);
        }
        let id = into_string(v);
        h[i].set_id(id.clone());
        s.push(id);
    }
    Ids { s }
}

fn history(n: usize, ops: usize, names: u8, forms: u8, sym_ids: bool) {
    let mut doc = Document::new();
    let mut h = elems(&mut doc, n);
    let ids = if sym_ids { any_ids(&mut h) } else { fixed_ids(&mut h) };
    let mut a = Attrs::new(n);
    for _ in 0..ops {
        any_op(&mut h, &mut a, &ids, names, forms);
        check_links(&h, &a, 0, names);
    }
    note(&[a.at[0].len() as u8, h[0].uses_count() as u8]);
}

harness!(c04_q, { history(3, 3, 2, 1, false) });
harness!(c04_w, { history(2, 2, 5, 1, false) });
harness!(c04_t, { history(2, 4, 2, 1, false) });
harness!(c04_t2, { history(3, 3, 3, 1, false) });

/// C05: arbitrary ids, all the ways to pass a link.
fn guarded(n: usize, ops: usize, names: u8) {
    let mut doc = Document::new();
    let mut h = elems(&mut doc, n);
    let mut ids = any_ids(&mut h);
    let mut a = Attrs::new(n);
    if choose(2) == 1 {
        // all attributes already have a value
        for i in 0..n {
            for nm in 0..names {
                h[i].set_attribute((name(nm), 7.0));
                a.set(i, nm, V::Num(7));
            }
        }
        reach("had a value");
    }
    for k in 0..ops {
        if k > 0 && choose(2) == 1 {
            // change an id in between
            let i = choose(n);
            let s = if choose(2) == 0 { String::new() } else { ids.s[choose(n)].clone() };
            h[i].set_id(s.clone());
            ids.s[i] = s;
            check(*h[i].id() == ids.s[i], "the id is the one that was set");
            check(h[i].has_id() == !ids.s[i].is_empty(), "has_id()");
            reach("id changed");
        }
        let i = choose(n);
        let t = choose(n);
        let nm = choose(names as usize) as u8;
        let f = choose(4) as u8;
        set_link(&mut h, &mut a, &ids, i, t, nm, f);
        check_links(&h, &a, 0, names);
        for i in 0..n {
            check(*h[i].id() == ids.s[i], "linking does not change ids");
        }
    }
    note(&[a.at[0].len() as u8, h[0].uses_count() as u8]);
}
harness!(c05_q, { guarded(2, 2, 5) });
harness!(c05_w, { guarded(3, 2, 2) });
harness!(c05_t, { guarded(3, 2, 5) });
harness!(c05_t2, { guarded(2, 3, 3) });

/// Ids of up to `k` arbitrary characters.
fn long_ids(k: usize) {
    let mut doc = Document::new();
    let mut h = elems(&mut doc, 2);
    let mut ids = Ids { s: Vec::with_capacity(2) };
    for i in 0..2 {
        let mut v = Vec::with_capacity(4);
        for _ in 0..choose(k + 1) {
            let b = byte();
            assume(b < 0x7f);
            v.push(b);
        }
        let id = into_string(v);
        h[i].set_id(id.clone());
        ids.s.push(id);
    }
    let mut a = Attrs::new(2);
    let nm = choose(2) as u8;
    set_link(&mut h, &mut a, &ids, 0, 1, nm, 0);
    check_links(&h, &a, 0, 2);
    set_link(&mut h, &mut a, &ids, 1, 0, nm, 0);
    check_links(&h, &a, 0, 2);
    note(&[a.at[0].len() as u8]);
}
harness!(c05_i, { long_ids(2) });
harness!(c05_it, { long_ids(3) });
/// Links under every attribute name.
fn every_name(ops: usize) {
    use super::tables::*;
    let x = &ATTRS[index(ATTRS.len())];
    assume(x.kind != Kind::Id);
    let mut doc = Document::new();
    let mut h = elems(&mut doc, 3);
    for i in 0..3 {
        h[i].set_id(["p", "q", "r"][i]);
    }
    let other = if x.id == AttributeId::Mask { AttributeId::Filter } else { AttributeId::Mask };
    let third = h[2].clone();
    h[0].set_attribute((other, third));
    // who the attribute of the first node links to
    let mut to = 9;
    for _ in 0..ops {
        match choose(7) {
            0 | 1 => {
                let t = 1 + choose(2);
                let n = h[t].clone();
                let r = h[0].set_attribute_checked((x.id, n.clone()));
                check(r.is_ok(), "a valid link is accepted under every name");
                to = t;
                let want = match x.id {
                    AttributeId::Href => AttributeValue::Link(n),
                    AttributeId::Fill | AttributeId::Stroke => AttributeValue::Paint(n, None),
                    _ => AttributeValue::FuncLink(n),
                };
                check(h[0].attributes().get_value(x.id) == Some(&want), "the kind of a link depends on the name only");
            }
            2 => {
                h[0].set_attribute((x.id, "v"));
                to = 9;
            }
            3 => {
                h[0].remove_attribute(x.id);
                to = 9;
            }
            4 => {
                // back to the first node: refused if it links here
                let n = h[0].clone();
                let r = h[1].set_attribute_checked((x.id, n));
                check(r.is_err() == (to == 1), "a circular link is refused under every name");
                if r.is_ok() {
                    check(h[0].uses_count() == 1, "a link is counted");
                    h[1].remove_attribute(x.id);
                } else {
                    check(h[1].attributes().is_empty(), "a refused link changes nothing");
                }
            }
            5 => {
                let n = h[0].clone();
                let r = h[0].set_attribute_checked((x.id, n));
                check(r.is_err(), "a link to itself is refused under every name");
            }
            _ => {
                let had = h[0].has_attribute(x.id);
                let n = h[1].clone();
                h[0].set_attribute_if_none((x.id, n));
                if !had {
                    to = 1;
                }
            }
        }
        check(h[1].uses_count() == if to == 1 { 1 } else { 0 }, "links are counted under every name");
        check(h[2].uses_count() == if to == 2 { 2 } else { 1 }, "links are counted under every name");
        check(h[0].uses_count() == 0, "nothing else is counted");
        check(h[2].linked_nodes().iter().all(|n| *n == h[0]) && h[1].linked_nodes().iter().all(|n| *n == h[0]), "targets list who links to them");
    }
    note(x.name.as_bytes());
}
harness!(c04_all, { every_name(2) });
harness!(c04_allt, { every_name(3) });

// ------------------------------------------------------------------ C06

/// Adds a link if the rules allow it.
fn try_link(w: &mut World, a: &mut Attrs, names: u8) {
    let n = w.m.n;
    let i = 1 + choose(n - 1);
    let t = 1 + choose(n - 1);
    let nm = choose(names as usize) as u8;
    assume(i != t && a.links(t, i) == 0);
    let node = w.h[t].clone();
    w.h[i].set_attribute((name(nm), node));
    a.set(i, nm, kind(nm, t as u8, 0));
}

pub fn subtree(m: &Model, x: usize) -> u32 {
    let mut s = 0;
    for i in 0..m.n {
        if m.contains(x, i) {
            s |= 1 << i;
        }
    }
    s
}

/// Everything outside of `gone` is as before, except for links into it.
pub fn check_removed(w: &mut World, a: &mut Attrs, gone: u32, names: u8) {
    let n = w.m.n;
    for i in 0..n {
        a.at[i].retain(|x| match x.1.target() {
            Some(t) => gone >> i & 1 == 0 && gone >> t & 1 == 0,
            None => true,
        });
    }
    for i in 0..n {
        if gone >> i & 1 == 1 && w.m.parent[i] != NONE && gone >> w.m.parent[i] & 1 == 0 {
            w.m.detach(i);
        }
    }
    check_links(&w.h, a, 0, names);
    for i in 0..n {
        let g = gone >> i & 1 == 1;
        check(w.h[i].is_detached() == g, "is_detached() iff removed from the document");
        if g {
            check(w.h[i].root() != w.h[0], "a removed node is not reachable from the document");
            continue;
        }
        let k = w.m.nk[i] as usize;
        check(is(w, w.h[i].parent(), w.m.parent[i]), "parent of a remaining node");
        check(is(w, w.h[i].first_child(), if k > 0 { w.m.kids[i][0] } else { NONE }), "first child of a remaining node");
        check(is(w, w.h[i].last_child(), if k > 0 { w.m.kids[i][k - 1] } else { NONE }), "last child of a remaining node");
        check(is(w, w.h[i].previous_sibling(), w.m.prev(i)), "previous sibling of a remaining node");
        check(is(w, w.h[i].next_sibling(), w.m.next(i)), "next sibling of a remaining node");
    }
    for x in w.h[0].descendants() {
        for i in 0..n {
            if gone >> i & 1 == 1 {
                check(x != w.h[i], "no removed node is found in the document");
            }
        }
    }
}

fn ids_for(w: &mut World) {
    for i in 1..w.m.n {
        let id = ["o", "p", "q", "r", "s", "t"][i];
        w.h[i].set_id(id);
    }
}

fn c06(n: usize, links: usize, names: u8, detached: bool, twice: bool) {
    let mut w = any_forest(n, detached);
    ids_for(&mut w);
    let mut a = Attrs::new(n + 1);
    for i in 1..=n {
        w.h[i].set_attribute((AttributeId::Mask, "v"));
        a.set(i, 5, V::Str(b'v'));
    }
    for _ in 0..links {
        try_link(&mut w, &mut a, names);
    }
    let x = 1 + choose(n);
    let gone = subtree(&w.m, x);
    let h = w.h[x].clone();
    w.doc.remove_node(h);
    check_removed(&mut w, &mut a, gone, 6);
    for i in 1..=n {
        check(*w.h[i].id() == ["o", "p", "q", "r", "s", "t"][i], "removal does not change ids");
    }
    if twice {
        // removing it again is harmless
        let h = w.h[x].clone();
        w.doc.remove_node(h);
        check_removed(&mut w, &mut a, gone, 6);
    }
    note(&[gone as u8]);
}
harness!(c06_q, { c06(3, 2, 3, true, true) });
harness!(c06_w, { c06(4, 1, 3, false, false) });
harness!(c06_v, { c06(4, 2, 1, false, false) });
harness!(c06_t, { c06(4, 2, 3, false, false) });
/// Links only: no nesting.
fn c06_flat(n: usize, links: usize, names: u8) {
    let mut doc = Document::new();
    let mut h = Vec::with_capacity(n + 1);
    h.push(doc.root());
    let mut m = Model::new(n + 1);
    for i in 1..=n {
        let node = doc.create_element(TAGS[i - 1]);
        h.push(node.clone());
        h[0].append(node);
        m.insert_at(0, i - 1, i);
    }
    let mut w = World { doc, h, m };
    ids_for(&mut w);
    let mut a = Attrs::new(n + 1);
    for _ in 0..links {
        try_link(&mut w, &mut a, names);
    }
    let h = w.h[n].clone();
    w.doc.remove_node(h);
    check_removed(&mut w, &mut a, 1 << n, names);
    note(&[a.at[1].len() as u8]);
}
harness!(c06_f, { c06_flat(3, 3, 3) });
harness!(c06_f2, { c06_flat(4, 3, 2) });
harness!(c06_t2, { c06(3, 3, 3, false, false) });

// ------------------------------------------------------------------ C21

fn c21(n: usize, links: usize) {
    let mut w = any_forest(n, true);
    ids_for(&mut w);
    let mut a = Attrs::new(n + 1);
    for i in 1..=n {
        w.h[i].set_attribute((AttributeId::Mask, "v"));
        a.set(i, 5, V::Str(b'v'));
    }
    for _ in 0..links {
        try_link(&mut w, &mut a, 2);
    }
    // any subset of the nodes is selected
    let sel = choose(1 << (n + 1)) as u32;
    let s = choose(n + 1);
    let mut gone = 0;
    let mut want = 0;
    for i in 1..=n {
        if i != s && w.m.contains(s, i) && sel >> i & 1 == 1 {
            gone |= subtree(&w.m, i);
            // topmost selected?
            let mut p = w.m.parent[i] as usize;
            let mut top = true;
            while p != s {
                if sel >> p & 1 == 1 {
                    top = false;
                }
                p = w.m.parent[p] as usize;
            }
            if top {
                want += 1;
            }
        }
    }
    let got = {
        let h = w.h.clone();
        let start = w.h[s].clone();
        let m = w.m;
        let asked = std::cell::Cell::new(0u32);
        let away = std::cell::Cell::new(0u32);
        w.doc.drain(start, |x| {
            let mut r = false;
            for i in 0..h.len() {
                if *x == h[i] {
                    check(asked.get() >> i & 1 == 0, "no node is tested twice");
                    check(away.get() >> i & 1 == 0, "no removed node is tested");
                    asked.set(asked.get() | 1 << i);
                    if sel >> i & 1 == 1 {
                        away.set(away.get() | subtree(&m, i));
                    }
                    check(i != s && m.contains(s, i), "only descendants of the given node are tested");
                    r = sel >> i & 1 == 1;
                }
            }
            r
        })
    };
    check(got == want, "drain() returns the number of removed subtrees");
    check_removed(&mut w, &mut a, gone, 6);
    note(&[got as u8, gone as u8]);
}
harness!(c21_q, { c21(4, 0) });
harness!(c21_w, { c21(3, 1) });
harness!(c21_t, { c21(5, 0) });
harness!(c21_t2, { c21(4, 1) });
