//! Tree structure harnesses: C01 (edits), C02 (root/ancestors), C03 (iterators).
use super::sym::*;
use svgdom::*;

pub const NONE: u8 = 255;
pub const MAX: usize = 7;

/// Reference model of an ordered forest; node 0 is the document root.
#[derive(Clone, Copy)]
pub struct Model {
    pub n: usize,
    pub parent: [u8; MAX],
    pub kids: [[u8; MAX]; MAX],
    pub nk: [u8; MAX],
}

impl Model {
    pub fn new(n: usize) -> Model {
        Model { n, parent: [NONE; MAX], kids: [[NONE; MAX]; MAX], nk: [0; MAX] }
    }
    pub fn pos(&self, x: usize) -> usize {
        let p = self.parent[x] as usize;
        let mut i = 0;
        while self.kids[p][i] as usize != x {
            i += 1;
        }
        i
    }
    pub fn detach(&mut self, x: usize) {
        if self.parent[x] == NONE {
            return;
        }
        let p = self.parent[x] as usize;
        let mut i = self.pos(x);
        let k = self.nk[p] as usize;
        while i + 1 < k {
            self.kids[p][i] = self.kids[p][i + 1];
            i += 1;
        }
        self.kids[p][k - 1] = NONE;
        self.nk[p] -= 1;
        self.parent[x] = NONE;
    }
    pub fn insert_at(&mut self, p: usize, at: usize, x: usize) {
        let k = self.nk[p] as usize;
        let mut i = k;
        while i > at {
            self.kids[p][i] = self.kids[p][i - 1];
            i -= 1;
        }
        self.kids[p][at] = x as u8;
        self.nk[p] += 1;
        self.parent[x] = p as u8;
    }
    /// Is `x` equal to `t` or an ancestor of it?
    pub fn contains(&self, x: usize, t: usize) -> bool {
        let mut c = t;
        loop {
            if c == x {
                return true;
            }
            if self.parent[c] == NONE {
                return false;
            }
            c = self.parent[c] as usize;
        }
    }
    pub fn top(&self, x: usize) -> usize {
        let mut c = x;
        while self.parent[c] != NONE {
            c = self.parent[c] as usize;
        }
        c
    }
    pub fn prev(&self, x: usize) -> u8 {
        if self.parent[x] == NONE {
            return NONE;
        }
        let i = self.pos(x);
        if i == 0 { NONE } else { self.kids[self.parent[x] as usize][i - 1] }
    }
    pub fn next(&self, x: usize) -> u8 {
        if self.parent[x] == NONE {
            return NONE;
        }
        let i = self.pos(x);
        let p = self.parent[x] as usize;
        if i + 1 < self.nk[p] as usize { self.kids[p][i + 1] } else { NONE }
    }
    /// Document order, `x` included.
    pub fn preorder(&self, x: usize, out: &mut Vec<u8>) {
        out.push(x as u8);
        for i in 0..self.nk[x] as usize {
            self.preorder(self.kids[x][i] as usize, out);
        }
    }
    pub fn edges(&self, x: usize, out: &mut Vec<(bool, u8)>) {
        out.push((true, x as u8));
        for i in 0..self.nk[x] as usize {
            self.edges(self.kids[x][i] as usize, out);
        }
        out.push((false, x as u8));
    }
}

pub struct World {
    pub doc: Document,
    pub h: Vec<Node>,
    pub m: Model,
}

pub const TAGS: [ElementId; 6] = [
    ElementId::Svg, ElementId::G, ElementId::Rect, ElementId::Defs, ElementId::Path, ElementId::Use,
];

/// Any forest over the document root and `n` further nodes in which every node
/// may also be left outside of the document tree.
pub fn any_forest(n: usize, detached: bool) -> World {
    let mut doc = Document::new();
    let mut h = Vec::with_capacity(n + 1);
    h.push(doc.root());
    let mut m = Model::new(n + 1);
    for i in 1..=n {
        let node = doc.create_element(TAGS[i - 1]);
        h.push(node.clone());
        let c = choose(i + detached as usize);
        if c < i {
            h[c].append(node);
            let at = m.nk[c] as usize;
            m.insert_at(c, at, i);
        }
    }
    World { doc, h, m }
}

pub fn is(w: &World, got: Option<Node>, want: u8) -> bool {
    match got {
        None => want == NONE,
        Some(x) => want != NONE && x == w.h[want as usize],
    }
}

pub fn check_tree(w: &World) {
    for i in 0..w.m.n {
        let k = w.m.nk[i] as usize;
        check(is(w, w.h[i].parent(), w.m.parent[i]), "parent of every node is the one requested");
        check(is(w, w.h[i].first_child(), if k > 0 { w.m.kids[i][0] } else { NONE }), "first child");
        check(is(w, w.h[i].last_child(), if k > 0 { w.m.kids[i][k - 1] } else { NONE }), "last child");
        check(is(w, w.h[i].previous_sibling(), w.m.prev(i)), "previous sibling");
        check(is(w, w.h[i].next_sibling(), w.m.next(i)), "next sibling");
        check(w.h[i].has_children() == (k > 0), "has_children");
    }
}

/// One arbitrary edit; `false` if the edit is not applicable.
pub fn any_edit(w: &mut World) {
    edit(w, false)
}
/// `loose`: also next to nodes without a parent. The new sibling has no parent then, either.
pub fn edit(w: &mut World, loose: bool) {
    let n = w.m.n;
    let kind = choose(5);
    let x = 1 + choose(n - 1);
    if kind == 4 {
        w.h[x].detach();
        w.m.detach(x);
        reach("detach");
        return;
    }
    let t = choose(n);
    // a node cannot be placed inside of itself or of its own subtree
    assume(!w.m.contains(x, t));
    let node = w.h[x].clone();
    match kind {
        0 => {
            w.h[t].append(node);
            w.m.detach(x);
            let at = w.m.nk[t] as usize;
            w.m.insert_at(t, at, x);
            reach("append");
        }
        1 => {
            w.h[t].prepend(node);
            w.m.detach(x);
            w.m.insert_at(t, 0, x);
            reach("prepend");
        }
        2 => {
            assume(loose || w.m.parent[t] != NONE);
            w.h[t].insert_before(node);
            w.m.detach(x);
            if w.m.parent[t] == NONE {
                reach("loose");
                return;
            }
            let at = w.m.pos(t);
            w.m.insert_at(w.m.parent[t] as usize, at, x);
            reach("insert_before");
        }
        _ => {
            assume(loose || w.m.parent[t] != NONE);
            w.h[t].insert_after(node);
            w.m.detach(x);
            if w.m.parent[t] == NONE {
                reach("loose");
                return;
            }
            let at = w.m.pos(t) + 1;
            w.m.insert_at(w.m.parent[t] as usize, at, x);
            reach("insert_after");
        }
    }
}

fn c01(n: usize, ops: usize) {
    let mut w = any_forest(n, true);
    for _ in 0..ops {
        any_edit(&mut w);
        check_tree(&w);
    }
    note(&[w.m.parent[1], w.m.parent[2], w.m.nk[0]]);
}
harness!(c01_q, { c01(4, 2) });
harness!(c01_w, { c01(5, 1) });
harness!(c01_t, { c01(3, 3) });
harness!(c01_t2, { c01(5, 2) });

fn check_roots(w: &World) {
    for i in 0..w.m.n {
        let t = w.m.top(i);
        check(w.h[i].root() == w.h[t], "the root of a node is its topmost ancestor");
        let mut c = i as u8;
        let mut steps = 0;
        for a in w.h[i].ancestors() {
            check(c != NONE, "ancestors() ends at the topmost ancestor");
            check(a == w.h[c as usize], "ancestors() walks the parents");
            c = w.m.parent[c as usize];
            steps += 1;
            check(steps <= w.m.n, "ancestors() is finite");
        }
        check(c == NONE, "ancestors() reaches the topmost ancestor");
        let p = w.m.parent[i];
        check(w.h[i].has_parent() == (p != NONE && p != 0), "has_parent ignores the document root");
        check(w.h[i].is_root() == (i == 0), "only the document root is a root node");
    }
}
fn c02(n: usize, ops: usize) {
    let mut w = any_forest(n, true);
    check_roots(&w);
    for _ in 0..ops {
        edit(&mut w, true);
        check_roots(&w);
    }
    note(&[w.m.parent[1], w.m.top(n) as u8]);
}
harness!(c02_q, { c02(3, 2) });
harness!(c02_w, { c02(4, 1) });
harness!(c02_t, { c02(4, 2) });

// ------------------------------------------------------------------ C03

/// Any tree over the document root and `n` elements, every one of which is either
/// an SVG element or an element with a custom name.
fn any_tree_mixed(n: usize) -> (World, u8) {
    let mut doc = Document::new();
    let mut h = Vec::with_capacity(n + 1);
    h.push(doc.root());
    let mut m = Model::new(n + 1);
    let mut custom = 0u8;
    for i in 1..=n {
        // kind: SVG element, custom element, text, comment
        let k = if i + 1 >= n { choose(3) } else { 0 };
        let node = match k {
            0 => doc.create_element(TAGS[i - 1]),
            1 => doc.create_element("custom"),
            _ => doc.create_node(NodeType::Text, "t"),
        };
        if k != 0 {
            custom |= 1 << i;
        }
        h.push(node.clone());
        let c = choose(i);
        // only elements have children
        assume(c == 0 || h[c].is_element());
        h[c].append(node);
        let at = m.nk[c] as usize;
        m.insert_at(c, at, i);
    }
    (World { doc, h, m }, custom)
}

fn c03_ends(n: usize) {
    let w = any_forest(n, false);
    let s = choose(n + 1);
    if choose(2) == 0 {
        // children() consumed from both ends in any interleaving
        let k = w.m.nk[s] as usize;
        let (mut lo, mut hi) = (0, k);
        let mut it = w.h[s].children();
        while lo < hi {
            if choose(2) == 0 {
                let x = it.next();
                check(is(&w, x, w.m.kids[s][lo]), "children(): next child in order");
                lo += 1;
            } else {
                let x = it.next_back();
                check(is(&w, x, w.m.kids[s][hi - 1]), "children(): next child from the end");
                hi -= 1;
            }
        }
        check(it.next().is_none(), "children(): ends after the last child");
        check(it.next_back().is_none(), "children(): ends after the first child");
        check(it.next().is_none(), "children(): stays ended");
        reach("children");
    } else {
        let mut e = Vec::with_capacity(16);
        w.m.edges(s, &mut e);
        let (mut lo, mut hi) = (0, e.len());
        let mut it = w.h[s].traverse();
        while lo < hi {
            let front = choose(2) == 0;
            let (got, want) = if front {
                lo += 1;
                (it.next(), e[lo - 1])
            } else {
                hi -= 1;
                (it.next_back(), e[hi])
            };
            let ok = match got {
                Some(NodeEdge::Start(ref x)) => want.0 && *x == w.h[want.1 as usize],
                Some(NodeEdge::End(ref x)) => !want.0 && *x == w.h[want.1 as usize],
                None => false,
            };
            check(ok, "traverse(): every edge of the subtree, in tree order from either end");
        }
        check(it.next().is_none(), "traverse(): ends with the subtree");
        check(it.next_back().is_none(), "traverse(): ends with the subtree (back)");
        check(it.next().is_none(), "traverse(): stays ended");
        reach("traverse");
    }
}
harness!(c03_q, { c03_ends(3) });
harness!(c03_t, { c03_ends(4) });

fn c03_all(n: usize) {
    let (w, custom) = any_tree_mixed(n);
    for s in 0..w.m.n {
        let mut pre = Vec::with_capacity(8);
        w.m.preorder(s, &mut pre);
        let mut i = 0;
        for x in w.h[s].descendants() {
            check(i < pre.len() && x == w.h[pre[i] as usize], "descendants(): the subtree in document order");
            i += 1;
        }
        check(i == pre.len(), "descendants(): complete");
        // SVG elements only
        let mut i = 0;
        for (id, x) in w.h[s].descendants().svg() {
            while i < pre.len() && (pre[i] == 0 || custom >> pre[i] & 1 == 1) {
                i += 1;
            }
            check(i < pre.len() && x == w.h[pre[i] as usize], "svg(): exactly the SVG elements, in order");
            check(x.tag_id() == Some(id) && id == TAGS[pre[i] as usize - 1], "svg(): with their tag");
            i += 1;
        }
        while i < pre.len() && (pre[i] == 0 || custom >> pre[i] & 1 == 1) {
            i += 1;
        }
        check(i == pre.len(), "svg(): complete");
        // siblings
        let mut c = s as u8;
        for x in w.h[s].following_siblings() {
            check(c != NONE && x == w.h[c as usize], "following_siblings(): the node and everything after it");
            c = w.m.next(c as usize);
        }
        check(c == NONE, "following_siblings(): complete");
        let mut c = s as u8;
        for x in w.h[s].preceding_siblings() {
            check(c != NONE && x == w.h[c as usize], "preceding_siblings(): the node and everything before it");
            c = w.m.prev(c as usize);
        }
        check(c == NONE, "preceding_siblings(): complete");
        let mut i = 0;
        for x in w.h[s].children() {
            check(i < w.m.nk[s] && x == w.h[w.m.kids[s][i as usize] as usize], "children(): in order");
            i += 1;
        }
        check(i == w.m.nk[s], "children(): complete");
    }
    // the first svg element directly below the root
    let mut want = NONE;
    for i in 0..w.m.nk[0] as usize {
        let c = w.m.kids[0][i];
        if want == NONE && custom >> c & 1 == 0 && TAGS[c as usize - 1] == ElementId::Svg {
            want = c;
        }
    }
    check(is(&w, w.doc.svg_element(), want), "svg_element(): the first svg child of the root");
    note(&[custom, w.m.nk[0]]);
}
harness!(c03_a, { c03_all(4) });
harness!(c03_at, { c03_all(5) });
