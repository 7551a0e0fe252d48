//! Large documents: many nodes, attributes, links, rules, long texts. The size goes beyond
//! what the other runs can reach, the choice is which of the many parts is special.
use super::cascade::{attr, parse_ok, put};
use super::dump::*;
use super::links::{check_links, kind, name, Attrs, V};
use super::parseh::*;
use super::sym::*;
use super::tables::*;
use super::treeh::TAGS;
use super::values::*;
use super::writeh::{finish, mode};
use svgdom::*;

const NO: usize = 9999;
const FAR: usize = 140;
const TFAR: usize = 300;

struct Big {
    doc: Document,
    h: Vec<Node>,
    par: Vec<usize>,
    kids: Vec<Vec<usize>>,
}

/// Which of many; of a lot only the ones at the ends and around powers of two.
fn which(n: usize) -> usize {
    if n > 66 {
        let mut v = Vec::with_capacity(20);
        for i in [0, 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 199, 254, 255, 256, 257].iter() {
            if *i + 2 < n {
                v.push(*i);
            }
        }
        v.push(n - 2);
        v.push(n - 1);
        v[choose(v.len())]
    } else {
        choose(n)
    }
}

/// `n` elements: 0 - all side by side, 1 - one inside of the other, 2 - two per element,
/// 3 - a long chain with a sibling on each level.
fn big(n: usize, shape: usize) -> Big {
    let mut doc = Document::new();
    let mut b = Big { h: Vec::with_capacity(n + 1), par: Vec::with_capacity(n + 1), kids: Vec::with_capacity(n + 1), doc: Document::new() };
    b.h.push(doc.root());
    b.par.push(NO);
    b.kids.push(Vec::new());
    for i in 1..=n {
        let p = match shape {
            0 => (i > 1) as usize,
            1 => i - 1,
            2 => i / 2,
            _ => {
                if i < 2 {
                    0
                } else if i % 2 == 0 {
                    i - 1
                } else {
                    i - 2
                }
            }
        };
        let e = doc.create_element(TAGS[i % TAGS.len()]);
        b.h.push(e.clone());
        b.h[p].append(e);
        b.par.push(p);
        b.kids[p].push(i);
        b.kids.push(Vec::new());
    }
    b.doc = doc;
    b
}
impl Big {
    fn at(&self, i: usize) -> usize {
        match self.kids[self.par[i]].iter().position(|x| *x == i) {
            Some(p) => p,
            None => NO,
        }
    }
    fn detach(&mut self, i: usize) {
        if self.par[i] != NO {
            let p = self.at(i);
            self.kids[self.par[i]].remove(p);
            self.par[i] = NO;
        }
    }
    fn insert(&mut self, p: usize, at: usize, i: usize) {
        self.kids[p].insert(at, i);
        self.par[i] = p;
    }
    fn inside(&self, x: usize, t: usize) -> bool {
        let mut c = t;
        while c != NO {
            if c == x {
                return true;
            }
            c = self.par[c];
        }
        false
    }
    fn top(&self, x: usize) -> usize {
        let mut c = x;
        while self.par[c] != NO {
            c = self.par[c];
        }
        c
    }
    fn is(&self, got: Option<Node>, want: usize) -> bool {
        match got {
            None => want == NO,
            Some(x) => want != NO && x == self.h[want],
        }
    }
    fn place(&self, i: usize) -> (usize, usize) {
        if self.par[i] == NO {
            return (NO, NO);
        }
        let k = &self.kids[self.par[i]];
        let p = self.at(i);
        (if p > 0 { k[p - 1] } else { NO }, if p + 1 < k.len() { k[p + 1] } else { NO })
    }
    fn check(&self, skip: &[bool]) {
        for i in 0..self.h.len() {
            if !skip.is_empty() && skip[i] {
                continue;
            }
            let n = &self.h[i];
            let (p, x) = self.place(i);
            check(self.is(n.parent(), self.par[i]), "parent of every node");
            check(self.is(n.previous_sibling(), p), "previous sibling of every node");
            check(self.is(n.next_sibling(), x), "next sibling of every node");
            check(self.is(n.first_child(), self.kids[i].first().cloned().unwrap_or(NO)), "first child of every node");
            check(self.is(n.last_child(), self.kids[i].last().cloned().unwrap_or(NO)), "last child of every node");
        }
    }
    fn edges(&self, i: usize, out: &mut Vec<(bool, usize)>) {
        out.push((true, i));
        for k in &self.kids[i] {
            self.edges(*k, out);
        }
        out.push((false, i));
    }
    fn sub(&self, x: usize) -> Vec<bool> {
        (0..self.h.len()).map(|i| self.inside(x, i)).collect()
    }
}

/// One edit of a large tree.
fn edit_big(b: &mut Big) {
    let n = b.h.len();
    let kd = choose(5);
    let x = 1 + which(n - 1);
    if kd == 4 {
        b.h[x].detach();
        b.detach(x);
        return;
    }
    let t = which(n);
    assume(!b.inside(x, t));
    assume(kd < 2 || b.par[t] != NO);
    let node = b.h[x].clone();
    match kd {
        0 => b.h[t].append(node),
        1 => b.h[t].prepend(node),
        2 => b.h[t].insert_before(node),
        _ => b.h[t].insert_after(node),
    }
    b.detach(x);
    let (p, at) = match kd {
        0 => (t, b.kids[t].len()),
        1 => (t, 0),
        2 => (b.par[t], b.at(t)),
        _ => (b.par[t], b.at(t) + 1),
    };
    b.insert(p, at, x);
}
fn c01(n: usize) {
    let mut b = big(n, choose(4));
    edit_big(&mut b);
    b.check(&[]);
    note(&[b.kids[0].len() as u8]);
}
harness!(c01_big, { c01(18) });
harness!(c01_far, { c01(FAR) });
harness!(c01_fart, { c01(TFAR) });
fn c02(n: usize) {
    let mut b = big(n, choose(4));
    let x = 1 + which(n);
    let t = which(n + 1);
    if !b.inside(x, t) {
        let node = b.h[x].clone();
        b.h[t].append(node);
        b.detach(x);
        b.insert(t, b.kids[t].len(), x);
    } else {
        b.h[x].detach();
        b.detach(x);
    }
    for i in 0..b.h.len() {
        check(b.h[i].root() == b.h[b.top(i)], "the root of a node is its topmost ancestor");
        let mut c = i;
        for a in b.h[i].ancestors() {
            check(c != NO && a == b.h[c], "ancestors() walks the parents");
            c = if c == NO { NO } else { b.par[c] };
        }
        check(c == NO, "ancestors() reaches the topmost ancestor");
        check(b.h[i].has_parent() == (b.par[i] != NO && b.par[i] != 0), "has_parent()");
    }
    note(&[b.top(x) as u8]);
}
harness!(c02_big, { c02(24) });
harness!(c02_far, { c02(FAR) });
harness!(c02_fart, { c02(TFAR) });
fn c03(n: usize) {
    let b = big(n, choose(4));
    let s = which(n + 1);
    let mut e = Vec::with_capacity(60);
    b.edges(s, &mut e);
    let (mut lo, mut hi) = (0, e.len());
    // some from the front, the others from the back, or in turns
    let way = choose(3);
    let f = if way == 2 { 0 } else { which(e.len() + 1) };
    let mut it = b.h[s].traverse();
    let mut turn = false;
    while lo < hi {
        let front = match way {
            0 => lo < f,
            1 => e.len() - hi >= f,
            _ => {
                turn = !turn;
                turn
            }
        };
        let (got, want) = if front {
            lo += 1;
            (it.next(), e[lo - 1])
        } else {
            hi -= 1;
            (it.next_back(), e[hi])
        };
        let ok = match got {
            Some(NodeEdge::Start(ref x)) => want.0 && *x == b.h[want.1],
            Some(NodeEdge::End(ref x)) => !want.0 && *x == b.h[want.1],
            None => false,
        };
        check(ok, "traverse(): every edge of the subtree, in tree order from either end");
    }
    check(it.next().is_none() && it.next_back().is_none(), "traverse(): ends with the subtree");
    let mut i = 0;
    let pre: Vec<usize> = e.iter().filter(|x| x.0).map(|x| x.1).collect();
    for x in b.h[s].descendants() {
        check(i < pre.len() && x == b.h[pre[i]], "descendants(): in document order");
        i += 1;
    }
    check(i == pre.len(), "descendants(): complete");
    let mut i = if s == 0 { 1 } else { 0 };
    for (id, x) in b.h[s].descendants().svg() {
        check(i < pre.len() && x == b.h[pre[i]] && id == TAGS[pre[i] % TAGS.len()], "svg(): all SVG elements with their ids");
        i += 1;
    }
    check(i == pre.len(), "svg(): complete");
    let k = &b.kids[s];
    let mut it = b.h[s].children();
    let f = if way == 2 { 0 } else { f };
    let (mut lo, mut hi) = (0, k.len());
    while lo < hi {
        if lo < f {
            check(b.is(it.next(), k[lo]), "children(): from the front");
            lo += 1;
        } else {
            hi -= 1;
            check(b.is(it.next_back(), k[hi]), "children(): from the back");
        }
    }
    check(it.next().is_none() && it.next_back().is_none(), "children(): ends");
    let mut c = s;
    for x in b.h[s].following_siblings() {
        check(c != NO && x == b.h[c], "following_siblings()");
        c = if c == NO { NO } else { b.place(c).1 };
    }
    check(c == NO, "following_siblings(): complete");
    let mut c = s;
    for x in b.h[s].preceding_siblings() {
        check(c != NO && x == b.h[c], "preceding_siblings()");
        c = if c == NO { NO } else { b.place(c).0 };
    }
    check(c == NO, "preceding_siblings(): complete");
    note(&[e.len() as u8]);
}
harness!(c03_big, { c03(24) });
harness!(c03_far, { c03(FAR) });
harness!(c03_fart, { c03(TFAR) });

fn big_ids(b: &mut Big) {
    for i in 1..b.h.len() {
        b.h[i].set_id(format!("n{}", i));
    }
}
/// Many links between many nodes.
fn big_links(b: &mut Big, a: &mut Attrs, dense: bool) {
    let n = b.h.len();
    for i in 1..n {
        for nm in 0..3usize {
            let t = if dense { 1 + (nm == 2) as usize } else { 1 + (i * (nm + 2) + 5) % (n - 1) };
            if t != i && a.links(t, i) == 0 {
                let node = b.h[t].clone();
                b.h[i].set_attribute((name(nm as u8), node));
                a.set(i, nm as u8, kind(nm as u8, t as u8, 0));
            }
        }
    }
}
// many links to one node: any of them is removed, replaced or refused
fn c04(n: usize) {
    let mut b = big(n, 0);
    big_ids(&mut b);
    let mut a = Attrs::new(n + 1);
    big_links(&mut b, &mut a, choose(2) == 0);
    let i = 1 + which(n);
    let nm = choose(3) as u8;
    match choose(4) {
        0 => {
            b.h[i].remove_attribute(name(nm));
            a.del(i, nm);
        }
        1 => {
            b.h[i].set_attribute((name(nm), "v"));
            a.set(i, nm, V::Str(b'v'));
        }
        2 => {
            b.h[i].set_attribute_if_none((name(nm), "v"));
            if a.get(i, nm).is_none() {
                a.set(i, nm, V::Str(b'v'));
            }
        }
        _ => {
            let t = 1 + which(n);
            let node = b.h[t].clone();
            let r = b.h[i].set_attribute_checked((name(nm), node));
            let bad = t == i || a.links(t, i) > 0;
            check(r.is_err() == bad, "a link is refused exactly when it would be circular");
            if !bad {
                a.set(i, nm, kind(nm, t as u8, 0));
            }
        }
    }
    check_links(&b.h, &a, 1, 3);
    note(&[b.h[1].uses_count() as u8]);
}
harness!(c04_big, { c04(20) });
harness!(c04_far, { c04(70) });
// any of many links leads back
fn c05_back(n: usize) {
    let mut doc = Document::new();
    let mut x = doc.create_element(ElementId::G);
    x.set_id("x");
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        let mut y = doc.create_element(ElementId::Rect);
        y.set_id(format!("y{}", i));
        y.set_attribute((name((i % 3) as u8), x.clone()));
        v.push(y);
    }
    let mut z = doc.create_element(ElementId::Rect);
    z.set_id("z");
    v.push(z);
    let i = which(n + 1);
    let nm = name(choose(3) as u8);
    let r = x.set_attribute_checked((nm.clone(), v[i].clone()));
    check(r.is_err() == (i < n), "a link back to an element that links here is refused");
    check(x.has_attribute(nm) == (i == n), "a refused link changes nothing");
    check(x.uses_count() == n, "a refused link changes nothing");
    check(v[i].uses_count() == (i == n) as usize, "a refused link changes nothing");
    note(&[i as u8]);
}
harness!(c05_many, { c05_back(20 + choose(40)) });
harness!(c05_far, { c05_back([129, 257, 300][choose(3)]) });
// long ids that differ in one character or in length
harness!(c05_big, {
    let mut doc = Document::new();
    let mut x = doc.create_element(ElementId::G);
    let mut y = doc.create_element(ElementId::Rect);
    let n = [7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100][choose(12)];
    let p = which(n);
    let c = byte();
    assume(c >= 0x20 && c < 0x7f);
    let long = choose(2);
    let mut v = vec![b'a'; n];
    x.set_id(into_string(v.clone()));
    v[p] = c;
    if long == 1 {
        v.push(b'a');
    }
    y.set_id(into_string(v));
    let same = c == b'a' && long == 0;
    let nm = [AttributeId::Href, AttributeId::Fill, AttributeId::Mask][choose(3)];
    let r = x.set_attribute_checked((nm, y.clone()));
    check(r.is_err() == same, "elements with one id cannot be linked, others can");
    check(y.uses_count() == !same as usize, "the link is known to its target");
    check(x.has_attribute(nm) == !same, "a refused link changes nothing");
    let r = y.set_attribute_checked((nm, x.clone()));
    check(r.is_err(), "no link back");
    check(x.uses_count() == 0 && !y.has_attribute(nm), "a refused link changes nothing");
    reach(if same { "same" } else { "different" });
    note(&[same as u8]);
});
fn removed_big(b: &mut Big, a: &mut Attrs, gone: &[bool]) {
    let n = b.h.len();
    for i in 0..n {
        a.at[i].retain(|x| match x.1.target() {
            Some(t) => !gone[i] && !gone[t as usize],
            None => true,
        });
    }
    for i in 0..n {
        if gone[i] && b.par[i] != NO && !gone[b.par[i]] {
            b.detach(i);
        }
    }
    check_links(&b.h, a, 0, 6);
    b.check(gone);
    for i in 0..n {
        check(b.h[i].is_detached() == gone[i], "is_detached() iff removed from the document");
        if gone[i] {
            check(b.h[i].root() != b.h[0], "a removed node is not reachable from the document");
        }
        if i > 0 {
            check(*b.h[i].id() == format!("n{}", i), "ids stay");
        }
    }
}
fn c06(n: usize) {
    let mut b = big(n, choose(4));
    big_ids(&mut b);
    let mut a = Attrs::new(n + 1);
    big_links(&mut b, &mut a, choose(2) == 0);
    let x = 1 + which(n);
    let gone = b.sub(x);
    let node = b.h[x].clone();
    b.doc.remove_node(node.clone());
    removed_big(&mut b, &mut a, &gone);
    // the place of a removed node may be taken by a new one
    let e = b.doc.create_element(ElementId::Line);
    let r = b.h[0].clone();
    b.h[0].append(e.clone());
    let i = b.h.len();
    b.h.push(e);
    b.par.push(0);
    b.kids[0].push(i);
    b.kids.push(Vec::new());
    a.at.push(Vec::new());
    b.h[i].set_id(format!("n{}", i));
    let mut gone = gone;
    gone.push(false);
    b.doc.remove_node(node);
    removed_big(&mut b, &mut a, &gone);
    check(r == b.h[0], "the root stays");
    note(&[b.kids[0].len() as u8]);
}
harness!(c06_big, { c06(16) });
harness!(c06_far, { c06(130) });
// an element with many attributes
harness!(c07_big, {
    let n = [15, 16, 17, 30, 33, 48][choose(6)];
    let mut doc = Document::new();
    let mut e = doc.create_element(ElementId::Rect);
    // (table index, NO for a custom name), number of the value
    let mut m: Vec<(usize, usize, usize)> = Vec::with_capacity(64);
    let cust = |k: usize| format!("c{}", k);
    let set = |e: &mut Node, i: usize, c: usize, v: usize| {
        let val = AttributeValue::from(v as f64);
        if i == NO {
            e.set_attribute((cust(c).as_str(), val));
        } else {
            e.set_attribute((ATTRS[i].id, val));
        }
    };
    for k in 0..n {
        let i = if k % 3 == 2 { NO } else { (k * 5 + 7) % ATTRS.len() };
        set(&mut e, i, k, k);
        m.push((i, k, k));
    }
    let p = which(n + 1);
    let (i, c) = if p < n { (m[p].0, m[p].1) } else { (NO, 500) };
    match choose(4) {
        0 => {
            set(&mut e, i, c, 1000);
            if p < n {
                m.remove(p);
            }
            m.push((i, c, 1000));
        }
        1 => {
            if i == NO {
                e.remove_attribute(cust(c).as_str());
            } else {
                e.remove_attribute(ATTRS[i].id);
            }
            if p < n {
                m.remove(p);
            }
        }
        2 => {
            let v = AttributeValue::from(1000.0);
            if i == NO {
                e.set_attribute_if_none((cust(c).as_str(), v));
            } else {
                e.set_attribute_if_none((ATTRS[i].id, v));
            }
            if p == n {
                m.push((i, c, 1000));
            }
        }
        _ => {
            let mut al = e.attributes_mut();
            let r = if i == NO { al.get_value_mut(cust(c).as_str()) } else { al.get_value_mut(ATTRS[i].id) };
            check(r.is_some() == (p < n), "get_value_mut()");
            if let Some(v) = r {
                *v = AttributeValue::from(1000.0);
                m[p].2 = 1000;
            }
        }
    }
    let al = e.attributes();
    check(al.len() == m.len(), "as many attributes as names");
    let mut q = 0;
    let mut svg = 0;
    for a in al.iter() {
        let (i, c, v) = m[q];
        let nm = match a.name {
            QName::Id(id) => {
                svg += 1;
                i != NO && id == ATTRS[i].id
            }
            QName::Name(ref s) => i == NO && *s == cust(c),
        };
        check(nm, "every name once, in the order they were last set");
        check(a.value == AttributeValue::from(v as f64), "the value last given");
        q += 1;
    }
    check(al.iter().svg().count() == svg, "svg() yields every SVG attribute");
    for (i, c, v) in &m {
        let got = if *i == NO { al.get_value(cust(*c).as_str()) } else { al.get_value(ATTRS[*i].id) };
        check(got == Some(&AttributeValue::from(*v as f64)), "get_value()");
        let got = if *i == NO { e.has_attribute(cust(*c).as_str()) } else { e.has_attribute(ATTRS[*i].id) };
        check(got, "has_attribute()");
    }
    note(&[m.len() as u8]);
});

fn same_copy(b: &Big, i: usize, c: &Node, deep: bool) {
    let o = &b.h[i];
    check(c != o && !c.is_detached(), "a copy is a new node of the document");
    check(c.node_type() == o.node_type() && *c.tag_name() == *o.tag_name(), "same type and tag");
    check(c.id().is_empty() && c.uses_count() == 0, "no id and no uses");
    {
        let (x, y) = (c.attributes(), o.attributes());
        check(x.len() == y.len(), "as many attributes");
        for (p, q) in x.iter().zip(y.iter()) {
            check(*p == *q, "the same attributes in the same order");
        }
    }
    let mut p = 0;
    for k in c.children() {
        check(deep && p < b.kids[i].len(), "no additional children");
        if p < b.kids[i].len() {
            same_copy(b, b.kids[i][p], &k, deep);
        }
        p += 1;
    }
    check(!deep || p == b.kids[i].len(), "all the children");
}
fn c08(n: usize) {
    let mut b = big(n, choose(4));
    big_ids(&mut b);
    let mut a = Attrs::new(n + 1);
    big_links(&mut b, &mut a, choose(2) == 0);
    let x = 1 + which(n);
    let deep = choose(2) == 1;
    let uses: Vec<usize> = b.h.iter().map(|n| n.uses_count()).collect();
    let src = b.h[x].clone();
    let c = if deep { b.doc.copy_node_deep(src) } else { b.doc.copy_node(src) };
    check(c.parent().is_none(), "a copy is not part of the tree");
    same_copy(&b, x, &c, deep);
    b.check(&[]);
    let sub = b.sub(x);
    for i in 1..b.h.len() {
        let mut add = 0;
        for j in 1..b.h.len() {
            if j == x || deep && sub[j] {
                add += a.links(j, i);
            }
        }
        check(b.h[i].uses_count() == uses[i] + add, "links held by copies count as uses");
    }
    note(&[deep as u8]);
}
harness!(c08_big, { c08(16) });
harness!(c08_far, { c08(FAR) });
fn c09(n: usize) {
    let base = live();
    {
        let mut b = big(n, choose(4));
        big_ids(&mut b);
        let mut a = Attrs::new(n + 1);
        big_links(&mut b, &mut a, choose(2) == 0);
        let x = 1 + which(n);
        let node = b.h[x].clone();
        match choose(5) {
            0 => {}
            1 => b.doc.remove_node(node),
            2 => {
                let mut c = b.doc.copy_node_deep(node);
                if choose(2) == 0 {
                    b.h[0].append(c);
                } else {
                    c.detach();
                }
            }
            3 => {
                b.h[x].detach();
            }
            _ => {
                b.doc.drain(node, |n| n.has_tag_name(ElementId::Rect));
            }
        }
        let Big { doc, h, .. } = b;
        if choose(2) == 0 {
            drop(doc);
            for n in &h {
                let _ = n.root();
                check(n.attributes().is_empty() || n.is_detached(), "nodes can be used after the document is gone");
            }
            drop(h);
        } else {
            drop(h);
            drop(doc);
        }
    }
    check(live() == base, "everything is freed once the document and all handles are dropped");
}
harness!(c09_big, { c09(14) });
harness!(c09_far, { c09(FAR) });
fn c21(n: usize) {
    let mut b = big(n, choose(4));
    big_ids(&mut b);
    let mut a = Attrs::new(n + 1);
    big_links(&mut b, &mut a, false);
    // two of the nodes, or all of every third and so on
    let sel: Vec<bool> = if choose(2) == 0 {
        let p = which(n + 1);
        let q = which(n + 1);
        (0..n + 1).map(|i| i == p || i == q).collect()
    } else {
        let m = 1 + choose(5);
        let r = choose(m);
        (0..n + 1).map(|i| i % m == r).collect()
    };
    let s = [0, 1, 2, 5][choose(4)];
    let mut gone = vec![false; n + 1];
    let mut want = 0;
    for i in 1..n + 1 {
        let mut p = b.par[i];
        let mut above = false;
        let mut under = false;
        while p != NO {
            if p == s {
                under = true;
                break;
            }
            above |= sel[p];
            p = b.par[p];
        }
        if under && (sel[i] || above) {
            gone[i] = true;
            if !above {
                want += 1;
            }
        }
    }
    let start = b.h[s].clone();
    let h = b.h.clone();
    let asked = std::cell::RefCell::new(vec![0u8; n + 1]);
    let got = b.doc.drain(start, |x| {
        for i in 0..n + 1 {
            if *x == h[i] {
                asked.borrow_mut()[i] += 1;
                return sel[i];
            }
        }
        fail("only nodes of the document are asked about");
        false
    });
    drop(h);
    for i in 0..n + 1 {
        check(asked.borrow()[i] <= 1, "no node is tested twice");
    }
    check(got == want, "drain() returns the number of removed subtrees");
    removed_big(&mut b, &mut a, &gone);
    note(&[got as u8]);
}
harness!(c21_big, { c21(16) });
harness!(c21_far, { c21(70) });

// ------------------------------------------------------------------ parsed documents

fn num(v: &mut Vec<u8>, n: usize) {
    put(v, &format!("{}", n));
}

/// Many elements, side by side or nested; one of them is something else.
fn nodes(n: usize) {
    let deep = choose(2) == 1;
    let p = which(n);
    let k = choose(8);
    let mut v = Vec::with_capacity(4000);
    let mut w = Vec::with_capacity(4000);
    v.extend_from_slice(OPEN);
    put(&mut w, "(svg(");
    let mut cut = NO;
    let mut text = false;
    for i in 0..n {
        // (start, end, kept start)
        let (s, e, kp) = if i != p {
            ("<g>", "</g>", "g")
        } else {
            match k {
                0 => ("<x>", "</x>", ""),
                1 => ("<f:g xmlns:f='u'>", "</f:g>", ""),
                2 => ("<style type='x'>", "</style>", ""),
                3 => ("<g xmlns='u'>", "</g>", ""),
                4 => ("<text>", "</text>", "text"),
                5 => ("<rect>", "</rect>", "rect"),
                6 => ("<!--c--><g>", "</g>", "C\"c\" g"),
                _ => ("<?p i?><a>", "</a>", "a"),
            }
        };
        let _ = text;
        put(&mut v, s);
        if cut == NO {
            if kp.is_empty() {
                cut = i;
            } else {
                put(&mut w, kp);
            }
        }
        if deep {
            if cut == NO && i + 1 < n {
                put(&mut w, "(");
            }
        } else {
            put(&mut v, e);
            if cut == NO {
                put(&mut w, " ");
            }
            cut = NO;
        }
        text = false;
    }
    if deep {
        for i in (0..n).rev() {
            let e = if i != p {
                "</g>"
            } else {
                ["</x>", "</f:g>", "</style>", "</g>", "</text>", "</rect>", "</g>", "</a>"][k]
            };
            put(&mut v, e);
        }
        // close what was opened
        let kept = if cut == NO { n } else { cut };
        if cut != NO && kept > 0 {
            // the last kept element has no children
            w.pop();
        }
        for i in 0..kept {
            put(&mut w, if i == 0 { " " } else { ")" });
            if i > 0 {
                put(&mut w, " ");
            }
        }
        if kept == 0 {
            w.pop();
        } else {
            put(&mut w, ")");
        }
    } else {
        put(&mut w, ")");
        if n == 1 && w.ends_with(b"()") {
            w.truncate(w.len() - 2);
        }
    }
    put(&mut w, " )");
    put(&mut v, "</svg>");
    if let Some(d) = parse_ok(v) {
        let got = dump(&d);
        if got != w {
            note(&w);
        }
        check(got == w, "exactly the SVG elements are kept, in order and nesting");
        finish(&d, false);
    }
}
/// An element with many attributes; one of them is foreign, unknown, invalid or repeated with a prefix.
fn attributes(n: usize) {
    let p = which(n);
    let k = choose(5);
    let mut v = Vec::with_capacity(4000);
    let mut w = Vec::with_capacity(200);
    v.extend_from_slice(OPEN);
    put(&mut v, "<rect xmlns:f='u'");
    // string attributes and lengths in the order of the table
    let pool: Vec<&A> = ATTRS.iter().filter(|a| a.kind == Kind::Str || a.kind == Kind::Len || a.kind == Kind::Inh).collect();
    let mut q = 0;
    for i in 0..n {
        // a step without common factors, so that the order is mixed
        let j = (i * 7 + 3) % pool.len();
        let a = pool[j];
        let skip = a.name.contains(':') || a.name == "space" || a.name == "base" || a.name == "lang" || a.kind == Kind::Href
            || a.id == AttributeId::Id || a.name == "xmlns";
        if skip {
            continue;
        }
        q += 1;
        put(&mut v, " ");
        let mut keep = true;
        if i == p {
            match k {
                0 => {
                    put(&mut v, "f:");
                    keep = false;
                }
                1 => {
                    put(&mut v, "f:x='1' ");
                }
                2 => {
                    put(&mut v, "unknown='1' ");
                }
                3 => {
                    put(&mut v, "r");
                    keep = false;
                }
                _ => put(&mut v, "style='a' "),
            }
        }
        put(&mut v, a.name);
        put(&mut v, "='");
        num(&mut v, i);
        put(&mut v, "'");
        if keep {
            w.push((a, i));
        }
    }
    put(&mut v, "/></svg>");
    let _ = q;
    if let Some(d) = parse_ok(v) {
        let n = match d.svg_element().and_then(|s| s.first_child()) {
            Some(n) => n,
            None => return fail("the element is kept"),
        };
        let at = n.attributes();
        let mut cnt = w.len();
        for (a, i) in &w {
            let t = format!("{}", i);
            let want = resolved(a, expect(a.kind, ElementId::Rect, &t), &n);
            check(at.get_value(a.id) == want.as_ref(), "every SVG attribute is kept with its value");
            if want.is_none() {
                cnt -= 1;
            }
        }
        // 'r' followed by a name may be a name on its own
        check(at.len() == cnt || k == 3, "no other attributes are kept");
        finish(&d, false);
    }
}
/// Many rules or declarations for one attribute.
fn rules(n: usize) {
    let shape = choose(4);
    let p = which(n);
    let q = which(n);
    let mut v = Vec::with_capacity(3000);
    v.extend_from_slice(OPEN);
    let mut win = NO;
    let mut best = 0;
    let decl = |v: &mut Vec<u8>, i: usize, bad: bool| {
        put(v, "fill:#0000");
        put(v, &format!("{:02x}", i + 1));
        if bad {
            put(v, "00ff;fill:bad");
        }
    };
    if shape < 2 {
        put(&mut v, "<style>");
        for i in 0..n {
            // the p-th one is more specific, the q-th one has no valid value
            if shape == 0 {
                put(&mut v, if i == p { ".b{" } else { "rect{" });
            } else if i == 0 {
                put(&mut v, "rect{");
            }
            decl(&mut v, i, i == q);
            put(&mut v, if shape == 0 || i + 1 == n { "}" } else { ";" });
            let s = if shape == 0 && i == p { 2 } else { 1 };
            if i != q && s >= best {
                best = s;
                win = i;
            }
        }
        put(&mut v, "</style>");
    } else if shape == 3 {
        // many style elements
        for i in 0..n {
            put(&mut v, if i == p { "<style type='text/x'>" } else { "<style>" });
            put(&mut v, "rect{");
            decl(&mut v, i, i == q);
            put(&mut v, "}</style>");
            if i != q && i != p {
                win = i;
            }
        }
    }
    put(&mut v, "<rect class='a b' id='r' fill='#010203'");
    if shape == 2 {
        put(&mut v, " style='");
        for i in 0..n {
            decl(&mut v, i, i == q);
            put(&mut v, ";");
            if i == p {
                put(&mut v, "x:y;stroke:none;");
            }
            if i != q {
                win = i;
            }
        }
        put(&mut v, "'");
    }
    put(&mut v, "/></svg>");
    if let Some(d) = parse_ok(v) {
        let r = match d.svg_element().and_then(|s| s.first_child()) {
            Some(n) => n,
            None => return fail("the element is kept"),
        };
        let want = if win == NO { Color::new(1, 2, 3) } else { Color::new(0, 0, win as u8 + 1) };
        check(r.attributes().get_value(AttributeId::Fill) == Some(&AttributeValue::Color(want)), "the value with the highest priority wins");
        check(r.attributes().len() == 1 + (shape == 2) as usize, "no other attributes appear");
        finish(&d, false);
    }
}
/// Many elements with ids; one refers to any other.
fn references(n: usize) {
    let s = which(n);
    let t = which(n + 1);
    let nested = choose(2) == 1;
    let k = choose(4);
    // 0 - by an attribute, 1 - by a style
    let mut v = Vec::with_capacity(4000);
    v.extend_from_slice(OPEN);
    for i in 0..n {
        put(&mut v, "<g id='n");
        num(&mut v, i);
        put(&mut v, "'");
        if i == s {
            put(&mut v, [" xlink:href='#n", " fill='url(#n", " mask='url(#n", " style='stroke:url(#n"][k]);
            num(&mut v, t);
            put(&mut v, ["'", ") #010203'", ")'", ") none'"][k]);
        }
        put(&mut v, if nested { ">" } else { "/>" });
    }
    if nested {
        for _ in 0..n {
            put(&mut v, "</g>");
        }
    }
    put(&mut v, "</svg>");
    let d = match parse_ok(v) {
        Some(d) => d,
        None => return,
    };
    let h: Vec<Node> = d.root().descendants().skip(2).collect();
    check(h.len() == n, "all elements are kept");
    if h.len() != n {
        return;
    }
    let id = [AttributeId::Href, AttributeId::Fill, AttributeId::Mask, AttributeId::Stroke][k];
    for i in 0..n {
        check(*h[i].id() == format!("n{}", i), "every element keeps its id");
        let link = i == t && s != t;
        check(h[i].uses_count() == link as usize, "a link is counted by its target only");
        check(h[i].has_attribute(id) == (i == s && (s != t || k == 1 || k == 3)) || k == 1 || k == 3 || t == n || s == t, "only one element has a link");
    }
    let at = h[s].attributes();
    let got = at.get_value(id);
    let col = PaintFallback::Color(Color::new(1, 2, 3));
    let want = if t < n && t != s {
        let x = h[t].clone();
        Some(match k {
            0 | 2 => {
                if k == 0 {
                    AttributeValue::Link(x)
                } else {
                    AttributeValue::FuncLink(x)
                }
            }
            1 => AttributeValue::Paint(x, Some(col)),
            _ => AttributeValue::Paint(x, Some(PaintFallback::None)),
        })
    } else if t == n {
        match k {
            0 => Some(AttributeValue::String(format!("#n{}", n))),
            1 => Some(AttributeValue::Color(Color::new(1, 2, 3))),
            2 => None,
            _ => Some(AttributeValue::None),
        }
    } else {
        None
    };
    if want.is_some() {
        check(got == want.as_ref(), "a link leads to the element with the id");
    }
    if t == s {
        check(match got { Some(AttributeValue::Link(_)) | Some(AttributeValue::FuncLink(_)) | Some(AttributeValue::Paint(..)) => false, _ => true }, "no link to itself");
        reach("itself");
    }
    finish(&d, false);
}
/// Long ids; the reference differs in at most one character.
fn long_ids() {
    let n = [8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128][choose(12)];
    let p = which(n);
    let c = byte_in(b"abZ_");
    let k = choose(3);
    let mut v = Vec::with_capacity(1000);
    v.extend_from_slice(OPEN);
    put(&mut v, "<g id='");
    for _ in 0..n {
        v.push(b'a');
    }
    put(&mut v, "'/><rect ");
    put(&mut v, ["xlink:href='#", "fill='url(#", "mask='url(#"][k]);
    let mut b = vec![b'a'; n];
    b[p] = c;
    v.extend_from_slice(&b);
    put(&mut v, ["'/></svg>", ") red'/></svg>", ")'/></svg>"][k]);
    let same = c == b'a';
    let d = match parse_ok(v) {
        Some(d) => d,
        None => return,
    };
    let svg = d.svg_element();
    if let (Some(g), Some(r)) = (svg.as_ref().and_then(|s| s.first_child()), svg.as_ref().and_then(|s| s.last_child())) {
        check(g.id().len() == n, "an id is kept as it is");
        let at = r.attributes();
        let got = at.get_value([AttributeId::Href, AttributeId::Fill, AttributeId::Mask][k]);
        check(g.uses_count() == same as usize, "a link leads to the element with exactly that id");
        match (k, same) {
            (0, true) => check(got == Some(&AttributeValue::Link(g.clone())), "a link leads to the element with exactly that id"),
            (1, true) => check(got == Some(&AttributeValue::Paint(g.clone(), Some(PaintFallback::Color(Color::red())))), "a link leads to the element with exactly that id"),
            (_, true) => check(got == Some(&AttributeValue::FuncLink(g.clone())), "a link leads to the element with exactly that id"),
            (0, false) => {
                let mut w = vec![b'#'];
                w.extend_from_slice(&b);
                check(got == Some(&AttributeValue::String(into_string(w))), "a reference that leads nowhere is kept as text");
            }
            (1, false) => check(got == Some(&AttributeValue::Color(Color::red())), "a paint that leads nowhere becomes its fallback"),
            _ => {}
        }
        reach(if same { "same" } else { "different" });
    } else {
        fail("all elements are kept");
    }
    finish(&d, false);
}
/// A text with many parts: side by side or nested, with long runs of spaces, one part is special.
fn texts(n: usize, len: usize) {
    let deep = choose(2) == 1;
    let keep = choose(2) == 1;
    let p = which(n);
    // the special part: spaces only, a single character, without spaces, long
    let k = choose(4);
    let mut v = Vec::with_capacity(4000);
    let mut skel = Vec::with_capacity(1000);
    let mut pieces = Vec::with_capacity(n);
    put(&mut v, "<svg xmlns='http://www.w3.org/2000/svg'><g><text");
    if keep {
        put(&mut v, " xml:space='preserve'");
    }
    put(&mut v, ">");
    let mut expl = vec![false; 3 + n];
    expl[2] = keep;
    for i in 0..n {
        put(&mut v, "<tspan>");
        skel.push(1);
        let mut t = Vec::with_capacity(len + 4);
        if i == p {
            match k {
                0 => t.extend_from_slice(b"  \n "),
                1 => t.push(b'x'),
                2 => {
                    for _ in 0..len {
                        t.push(b'y');
                    }
                }
                _ => {
                    for j in 0..len {
                        t.push(if j % 5 == 4 { b'z' } else { b' ' });
                    }
                }
            }
        } else {
            t.extend_from_slice([&b" a "[..], b"b", b" c", b"d "][i % 4]);
        }
        v.extend_from_slice(&t);
        for &b in &t {
            if b > b' ' {
                skel.push(b);
            }
        }
        pieces.push(super::texth::Piece { text: t, keep });
        if !deep {
            put(&mut v, "</tspan>");
            skel.push(2);
        }
    }
    if deep {
        for _ in 0..n {
            put(&mut v, "</tspan>");
            skel.push(2);
        }
    }
    put(&mut v, "</text></g></svg>");
    if let Some(d) = parse_ok(v) {
        super::texth::check_text(&d, keep as u8, &skel, &expl, &pieces);
    }
}
/// xml:space far above, or changed on the way.
fn inherited(n: usize) {
    let inside = choose(2) == 1;
    let (p, q) = (which(n), which(n));
    assume(p < q);
    let first = choose(2) == 1;
    let mut v = Vec::with_capacity(4000);
    let tag = if inside { "tspan" } else { "g" };
    put(&mut v, "<svg xmlns='http://www.w3.org/2000/svg'>");
    if inside {
        put(&mut v, "<text>");
    }
    let mut keep = false;
    for i in 0..n {
        put(&mut v, "<");
        put(&mut v, tag);
        if i == p || i == q {
            keep = (i == p) == first;
            put(&mut v, if keep { " xml:space='preserve'" } else { " xml:space='default'" });
        }
        put(&mut v, ">");
    }
    put(&mut v, if inside { "a  b" } else { "<text>a  b</text>" });
    for _ in 0..n {
        put(&mut v, "</");
        put(&mut v, tag);
        put(&mut v, ">");
    }
    put(&mut v, if inside { "</text></svg>" } else { "</svg>" });
    if let Some(d) = parse_ok(v) {
        let t = d.root().descendants().last();
        match t {
            Some(t) => check(t.is_text() && *t.text() == if keep { "a  b" } else { "a b" }, "the nearest xml:space applies"),
            None => fail("the text is kept"),
        }
        finish(&d, false);
    }
}
/// Long values: many numbers, points, segments; one of them is arbitrary.
fn long_values(n: usize) {
    const K: [(&str, &str, &str, &str); 7] = [
        ("points", "", "1,2 ", "3 4"),
        ("d", "M 1 2 ", "L 3 4 ", "Z"),
        ("stroke-dasharray", "", "1 ", "2"),
        ("transform", "", "translate(1) ", "scale(2)"),
        ("x", "", "1 ", "2"),
        ("tableValues", "", "1 ", "2"),
        ("class", "", "a ", "b"),
    ];
    let (nm, a, b, c) = K[choose(7)];
    let n = [n, n + 1][choose(2)];
    let p = which(n);
    let x = byte_in(b"17-x, ");
    let host = if nm == "x" { (ElementId::Text, "text") } else { (ElementId::Rect, "rect") };
    let mut t = Vec::with_capacity(1000);
    put(&mut t, a);
    for i in 0..n {
        if i == p {
            t.push(x);
        }
        put(&mut t, b);
    }
    put(&mut t, c);
    attr_case(attr(nm), &host, &t);
    note(&t);
}
/// A value within long white space, or a number with many digits.
fn padded() {
    let (nm, val) = [
        ("x", "10"), ("fill", "red"), ("fill", "none"), ("opacity", "0.5"), ("display", "none"), ("href", "#t"), ("clip-path", "url(#t)"),
        ("transform", "scale(2)"), ("viewBox", "1 2 3 4"), ("stroke-width", "2mm"), ("fill-rule", "evenodd"), ("font-size", "larger"), ("in", "x"),
    ][choose(13)];
    let n = [1, 2, 7, 8, 16, 31, 64][choose(7)];
    let k = choose(3);
    let mut t = Vec::with_capacity(200);
    if k != 1 {
        for _ in 0..n {
            t.push(b' ');
        }
    }
    put(&mut t, val);
    if k != 0 {
        for _ in 0..n {
            t.push(b' ');
        }
    }
    attr_case(attr(nm), &HOSTS[0], &t);
    note(&t);
}
harness!(c11_bign, { nodes(24) });
harness!(c11_biga, { attributes(40) });
harness!(c12_big, { rules(24) });
harness!(c13_big, { references(14) });
harness!(c13_bigi, { long_ids() });
harness!(c14_big, { texts(14, 70) });
harness!(c14_bigp, { inherited(12) });
harness!(c15_big, { long_values(30) });
harness!(c15_pad, { padded() });
harness!(c16_bign, {
    mode(1);
    nodes(16)
});
harness!(c16_biga, {
    mode(1);
    attributes(30)
});
harness!(c16_bigr, {
    mode(1);
    references(8)
});
harness!(c16_bigt, {
    mode(1);
    texts(8, 40)
});
harness!(c17_bign, {
    mode(2);
    nodes(16)
});
harness!(c17_biga, {
    mode(2);
    attributes(30)
});
harness!(c17_bigr, {
    mode(2);
    references(8)
});
harness!(c17_bigt, {
    mode(2);
    texts(8, 40)
});
harness!(c10_bign, {
    mode(3);
    nodes(40)
});
harness!(c10_biga, {
    mode(3);
    attributes(60)
});
harness!(c10_bigr, {
    mode(3);
    references(14)
});
harness!(c10_bigt, {
    mode(3);
    texts(20, 100)
});
harness!(c10_bigc, {
    mode(3);
    rules(40)
});
harness!(c10_bigv, {
    mode(3);
    long_values(60)
});
harness!(c09_bign, {
    mode(4);
    nodes(20)
});
harness!(c09_bigr, {
    mode(4);
    references(10)
});
harness!(c18_bige, {
    let s = extended(ELEMS[index(ELEMS.len())].name);
    check(ElementId::from_str(&s).is_none(), "only the exact name of an element is found");
});
harness!(c18_biga, {
    let s = extended(ATTRS[index(ATTRS.len())].name);
    check(AttributeId::from_str(&s).is_none(), "only the exact name of an attribute is found");
});
/// A name with a long tail or head.
fn extended(name: &str) -> String {
    let n = [4, 8, 16, 32, 64, 128, 256][choose(7)];
    let c = [b'a', b' ', b'-', b'0', 0][choose(5)];
    let mut v = Vec::with_capacity(400);
    let head = choose(2) == 1;
    if head {
        for _ in 0..n {
            v.push(c);
        }
    }
    v.extend_from_slice(name.as_bytes());
    if !head {
        for _ in 0..n {
            v.push(c);
        }
    }
    into_string(v)
}
harness!(c11_far, { nodes(FAR) });
harness!(c11_fara, { attributes(150) });
harness!(c12_far, { rules(70) });
harness!(c13_far, { references(70) });
harness!(c14_far, { texts(70, 300) });
harness!(c14_farp, { inherited(70) });
harness!(c15_far, { long_values(130) });
harness!(c16_far, {
    mode(1);
    nodes(70)
});
harness!(c17_far, {
    mode(2);
    nodes(70)
});
harness!(c10_far, {
    mode(3);
    nodes(FAR)
});
