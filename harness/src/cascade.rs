//! C11 (filtering), C12 (cascade), C13 (links).
use super::dump::*;
use super::parseh::*;
use super::sym::*;
use super::tables::*;
use super::values::*;
use super::writeh::{finish, get_mode, mode};
use svgdom::*;

pub fn put(v: &mut Vec<u8>, s: &str) {
    v.extend_from_slice(s.as_bytes());
}
pub fn parse_ok(v: Vec<u8>) -> Option<Document> {
    logging();
    let s = into_string(v);
    let base = live();
    match Document::from_str(&s) {
        Ok(d) => match get_mode() {
            3 => {
                // C10: what holds for every parsed document
                check_parsed(&d);
                reach("ok");
                note(&dump(&d));
                None
            }
            4 => {
                // C09: nothing is left of a parsed document
                let r = d.root();
                let c = r.first_child().and_then(|n| n.last_child());
                let first = choose(2);
                if first == 0 {
                    drop(d);
                    drop(c);
                    drop(r);
                } else {
                    drop(c);
                    drop(r);
                    drop(d);
                }
                check(live() == base, "everything is freed once a parsed document is dropped");
                reach("ok");
                note(s.as_bytes());
                None
            }
            _ => Some(d),
        },
        Err(_) => {
            note(s.as_bytes());
            fail("a well-formed document with an svg element is parsed");
            None
        }
    }
}
pub fn attr(name: &str) -> &'static A {
    match ATTRS.iter().find(|x| x.name == name) {
        Some(a) => a,
        None => &ATTRS[0],
    }
}

// ------------------------------------------------------------------ C12

struct Sel {
    text: &'static str,
    spec: u16,
    hit: bool,
}
const fn sel(text: &'static str, spec: u16, hit: bool) -> Sel {
    Sel { text, spec, hit }
}
/// Selectors for `<svg><g class="p"><desc/><rect id="a" class="b c"/></g></svg>`.
static SELS: [Sel; 18] = [
    sel("*", 0, true),
    sel("rect", 1, true),
    sel(".b", 0x10, true),
    sel("#a", 0x100, true),
    sel("circle", 1, false),
    sel("g rect", 2, true),
    sel("rect.b", 0x11, true),
    sel("svg > rect", 2, false),
    sel("g > rect", 2, true),
    sel(".c.b", 0x20, true),
    sel("[class]", 0x10, true),
    sel(":first-child", 0x10, false),
    sel("desc + rect", 2, true),
    sel("rect + desc", 2, false),
    sel("[id=\"a\"]", 0x100, true),
    sel(".p #a", 0x110, true),
    sel(".bc", 0x10, false),
    sel("svg g.p rect", 0x13, true),
];

/// Appends a value for `fill`; returns what it is.
fn fill_value(v: &mut Vec<u8>, k: usize) -> X {
    match k {
        0 => {
            put(v, "#00000");
            let d = byte();
            assume(d >= b'0' && d <= b'9');
            v.push(d);
            X::Val(AttributeValue::Color(Color::new(0, 0, d - b'0')))
        }
        1 => {
            put(v, "zz");
            X::Absent
        }
        2 => {
            put(v, "url(#t)");
            X::Ref("t".to_string(), None)
        }
        3 => {
            put(v, "none");
            X::Val(AttributeValue::None)
        }
        _ => {
            put(v, "url(#u) #020202");
            X::Ref("u".to_string(), Some(PaintFallback::Color(Color::new(2, 2, 2))))
        }
    }
}

struct Decl {
    prio: (u8, u16, u8),
    x: X,
}

/// The value that wins.
fn winner(d: Vec<Decl>) -> X {
    let mut best: Option<Decl> = None;
    for c in d {
        if let X::Absent = c.x {
            continue;
        }
        let better = match best {
            None => true,
            Some(ref b) => c.prio >= b.prio,
        };
        if better {
            best = Some(c);
        }
    }
    match best {
        Some(b) => b.x,
        None => X::Absent,
    }
}

fn check_attr(doc: &Document, name: &str, x: X) {
    let a = attr(name);
    let mut r = None;
    let mut t = None;
    for n in doc.root().descendants() {
        if *n.id() == "a" {
            r = Some(n);
        } else if *n.id() == "t" {
            t = Some(n);
        }
    }
    let (r, t) = match (r, t) {
        (Some(r), Some(t)) => (r, t),
        _ => return fail("elements with an id are kept"),
    };
    let linked = match x {
        X::Ref(ref l, _) => l == "t",
        _ => false,
    };
    let want = resolved(a, x, &t);
    let at = r.attributes();
    let got = at.get_value(a.id);
    match (got, want) {
        (Some(g), Some(w)) => check(*g == w, "the value with the highest priority wins"),
        (None, None) => {}
        (Some(_), None) => fail("an attribute is only set by a valid value"),
        (None, Some(_)) => fail("an attribute is set by a valid value"),
    }
    check(at.len() == if got.is_some() { 1 } else { 0 }, "no other attributes appear");
    check(t.uses_count() == if linked { 1 } else { 0 }, "only the winning reference counts as a use");
    for n in doc.root().descendants() {
        check(!n.has_tag_name(ElementId::Style), "style elements are removed");
        check(!n.has_attribute(AttributeId::Style) && !n.has_attribute(AttributeId::Class), "style and class do not appear");
    }
}

pub fn c12(nsel: usize, vals: usize, shape: usize) {
    let mut d = Vec::with_capacity(8);
    let mut v = Vec::with_capacity(800);
    v.extend_from_slice(OPEN);
    put(&mut v, "<style>");
    let two = shape == 1;
    let rules = if shape == 2 { 1 } else { 2 };
    for i in 0..rules {
        if i == 1 && two {
            put(&mut v, ["</style><style type='text/css'>", "</style><style type='x'>"][choose(2)]);
        }
        let skipped = two && i == 1 && v.ends_with(b"'x'>");
        let s = &SELS[choose(nsel)];
        put(&mut v, s.text);
        put(&mut v, "{");
        let nd = if shape == 2 { 2 } else { 1 };
        for j in 0..nd {
            put(&mut v, "fill:");
            let x = fill_value(&mut v, choose(vals));
            put(&mut v, ";");
            if s.hit && !skipped {
                d.push(Decl { prio: (1, s.spec, i as u8 * 2 + j as u8), x });
            }
        }
        put(&mut v, "} ");
    }
    put(&mut v, "</style><g class='p'><desc/><rect id='a' class='b c'");
    // the order of attributes does not matter
    let late = choose(2) == 1;
    let plain = choose(vals + 1);
    let style = choose(vals + 1);
    let mut style_txt = Vec::with_capacity(40);
    if style > 0 {
        put(&mut style_txt, " style='fill:");
        let x = fill_value(&mut style_txt, style - 1);
        d.push(Decl { prio: (2, 0, 0), x });
        if shape == 2 {
            put(&mut style_txt, ";fill:");
            let x = fill_value(&mut style_txt, choose(vals));
            d.push(Decl { prio: (2, 0, 1), x });
        }
        put(&mut style_txt, "'");
    }
    if !late {
        v.extend_from_slice(&style_txt);
    }
    if plain > 0 {
        put(&mut v, " fill='");
        let x = fill_value(&mut v, plain - 1);
        d.push(Decl { prio: (0, 0, 0), x });
        put(&mut v, "'");
    }
    if late {
        v.extend_from_slice(&style_txt);
    }
    put(&mut v, "/></g><g id='t' fill='none'/></svg>");
    // the target of references is not affected by the rules that are checked
    let doc = match parse_ok(v) {
        Some(d) => d,
        None => return,
    };
    for n in doc.root().descendants() {
        if *n.id() == "t" {
            assume(true);
        }
    }
    let x = winner(d);
    check_attr_fill(&doc, x);
    note(&dump(&doc));
}
/// Rules such as `*` also hit other elements; those never count here.
fn check_attr_fill(doc: &Document, x: X) {
    let a = attr("fill");
    let mut r = None;
    let mut t = None;
    for n in doc.root().descendants() {
        if *n.id() == "a" {
            r = Some(n.clone());
        } else if *n.id() == "t" {
            t = Some(n.clone());
        }
        check(!n.has_tag_name(ElementId::Style), "style elements are removed");
        check(!n.has_attribute(AttributeId::Style) && !n.has_attribute(AttributeId::Class), "style and class do not appear");
    }
    let (r, t) = match (r, t) {
        (Some(r), Some(t)) => (r, t),
        _ => return fail("elements with an id are kept"),
    };
    let linked = match x {
        X::Ref(ref l, _) => l == "t",
        _ => false,
    };
    let want = resolved(a, x, &t);
    let at = r.attributes();
    let got = at.get_value(a.id);
    match (got, want) {
        (Some(g), Some(w)) => check(*g == w, "the value with the highest priority wins"),
        (None, None) => reach("no value"),
        (Some(_), None) => fail("an attribute is only set by a valid value"),
        (None, Some(_)) => fail("an attribute is set by a valid value"),
    }
    check(at.len() == if got.is_some() { 1 } else { 0 }, "no other attributes appear");
    let uses = t.linked_nodes().iter().filter(|n| **n == r).count();
    check(uses == if linked { 1 } else { 0 }, "only the winning reference counts as a use");
}
harness!(c12_q, { c12(6, 3, 0) });
harness!(c12_s, { c12(18, 1, 0) });
harness!(c12_w, { c12(4, 3, 1) });
harness!(c12_d, { c12(3, 4, 2) });
harness!(c12_t, { c12(10, 4, 0) });
harness!(c12_t2, { c12(5, 5, 1) });

fn letter() -> u8 {
    let c = byte();
    let l = c | 0x20;
    assume((l >= b'a') & (l <= b'z') & (c < 0x80));
    c
}
/// A selector with arbitrary letters against an element with arbitrary values.
fn c12_sel(n: usize, m: usize, blank: &[u8]) {
    let tags = ["rect", "desc", "g", "path"];
    let tag = tags[choose(4)];
    let mut sel = Vec::with_capacity(20);
    let mut val = Vec::with_capacity(20);
    let name = ["class", "id", "ab", "fill-rule"];
    let mut which = 0;
    let hit;
    // the value: letters, spaces and hyphens
    let value = |val: &mut Vec<u8>| {
        for _ in 0..m {
            let c = byte();
            let l = c | 0x20;
            let mut ok = (l >= b'a') & (l <= b'z') & (c < 0x80);
            for b in blank {
                ok |= c == *b;
            }
            assume(ok);
            val.push(c);
        }
    };
    let kind = choose(6);
    match kind {
        0 => {
            for _ in 0..4 {
                sel.push(letter());
            }
            hit = sel[..] == *tag.as_bytes();
        }
        1 | 3 => {
            // a class, and the same spelled out
            for _ in 0..n {
                sel.push(letter());
            }
            value(&mut val);
            hit = val.split(|c| *c == b' ').any(|w| w[..] == sel[..]);
            if kind == 1 {
                sel.insert(0, b'.');
            } else {
                which = 2;
                let mut s = b"[ab~='".to_vec();
                s.extend_from_slice(&sel);
                put(&mut s, "']");
                sel = s;
            }
        }
        2 | 4 => {
            let k = n + choose(m - n + 1);
            for _ in 0..k {
                sel.push(letter());
            }
            value(&mut val);
            which = if kind == 2 { 1 } else { 3 };
            hit = sel[..] == val[..];
            if kind == 2 {
                sel.insert(0, b'#');
            } else {
                let mut s = b"[fill-rule='".to_vec();
                s.extend_from_slice(&sel);
                put(&mut s, "']");
                sel = s;
            }
        }
        _ => {
            // any name
            let (a, b) = (letter(), letter());
            hit = a == b'a' && b == b'b';
            put(&mut sel, "[");
            sel.push(a);
            sel.push(b);
            put(&mut sel, "]");
            which = 2;
        }
    }
    let mut v = Vec::with_capacity(400);
    v.extend_from_slice(OPEN);
    put(&mut v, "<style>");
    v.extend_from_slice(&sel);
    put(&mut v, "{fill:none}</style><");
    put(&mut v, tag);
    put(&mut v, " ");
    put(&mut v, name[which]);
    put(&mut v, "='");
    v.extend_from_slice(&val);
    put(&mut v, "'/></svg>");
    let doc = match parse_ok(v) {
        Some(d) => d,
        None => return,
    };
    let n = match doc.svg_element().and_then(|s| s.first_child()) {
        Some(n) => n,
        None => return fail("all elements are kept"),
    };
    check(n.has_attribute(AttributeId::Fill) == hit, "a rule applies to exactly the elements its selector matches");
    reach(if hit { "hit" } else { "miss" });
    note(&[hit as u8]);
}
harness!(c12_name, { c12_sel(2, 5, b" -") });
harness!(c12_namet, { c12_sel(3, 8, b" -") });

/// Every property that CSS can set, from all three sources at once.
fn c12_all(texts: &[&str]) {
    let a = &ATTRS[index(ATTRS.len())];
    assume(a.flags & PRES != 0 || a.name == "transform");
    assume(a.name != "marker");
    let mut d = Vec::with_capacity(4);
    let mut v = Vec::with_capacity(600);
    v.extend_from_slice(OPEN);
    let k = choose(texts.len() + 1);
    let mut ident = false;
    if k > 0 {
        let t = texts[k - 1];
        put(&mut v, "<style>rect{");
        put(&mut v, a.name);
        put(&mut v, ":");
        put(&mut v, t);
        put(&mut v, "}</style>");
        d.push(Decl { prio: (1, 0, 0), x: expect(a.kind, ElementId::Rect, t) });
        ident |= t == "scale(1)";
    }
    put(&mut v, "<rect id='a' ");
    let k2 = choose(texts.len() + 1);
    if k2 > 0 {
        put(&mut v, a.name);
        put(&mut v, "='");
        put(&mut v, texts[k2 - 1]);
        put(&mut v, "'");
        d.push(Decl { prio: (0, 0, 0), x: expect(a.kind, ElementId::Rect, texts[k2 - 1]) });
    }
    let k3 = choose(texts.len() + 1);
    if k3 > 0 {
        put(&mut v, " style='");
        put(&mut v, a.name);
        put(&mut v, ":");
        put(&mut v, texts[k3 - 1]);
        put(&mut v, "'");
        d.push(Decl { prio: (2, 0, 0), x: expect(a.kind, ElementId::Rect, texts[k3 - 1]) });
        ident |= texts[k3 - 1] == "scale(1)";
    }
    put(&mut v, "/><g id='t'/></svg>");
    let doc = match parse_ok(v) {
        Some(d) => d,
        None => return,
    };
    if a.name == "transform" && ident {
        // an identity transform means no attribute, it wins all the same
        let t3 = if k3 > 0 { texts[k3 - 1] } else { "" };
        let t1 = if k > 0 { texts[k - 1] } else { "" };
        let x = if t3 == "scale(1)" {
            X::Absent
        } else if t3 == "translate(1 2)" {
            expect(a.kind, ElementId::Rect, t3)
        } else if t1 == "scale(1)" {
            X::Absent
        } else {
            winner(d)
        };
        reach("identity");
        check_attr(&doc, a.name, x);
    } else {
        check_attr(&doc, a.name, winner(d));
    }
    note(a.name.as_bytes());
}
harness!(c12_all_q, { c12_all(&["red", "1", "none", "url(#t)", "translate(1 2)", "scale(1)"]) });
harness!(c12_all_t, { c12_all(&["red", "1", "none", "url(#t)", "translate(1 2)", "scale(1)", "inherit", "1em", "auto", "url(#u)", "0.5", "a b"]) });

/// The marker shorthand.
harness!(c12_marker, { marker() });
pub fn marker() {
    let mut v = Vec::with_capacity(600);
    v.extend_from_slice(OPEN);
    let long = ["marker-start", "marker-mid", "marker-end"];
    // a longhand in the same rule or in a less specific one, before or after
    let vals = ["url(#t)", "none", "zz", "inherit"];
    let k = choose(4);
    let which = choose(3);
    let kl = choose(4);
    let order = choose(3);
    put(&mut v, "<style>");
    let mut w: [Option<usize>; 3] = [None, None, None];
    let short = |v: &mut Vec<u8>, w: &mut [Option<usize>; 3]| {
        put(v, "marker:");
        put(v, vals[k]);
        put(v, ";");
        if k != 2 {
            for x in w.iter_mut() {
                *x = Some(k);
            }
        }
    };
    let lng = |v: &mut Vec<u8>, w: &mut [Option<usize>; 3]| {
        put(v, long[which]);
        put(v, ":");
        put(v, vals[kl]);
        put(v, ";");
        if kl != 2 {
            w[which] = Some(kl);
        }
    };
    let attr_first = choose(2) == 1;
    if attr_first {
        w[which] = Some(1);
    }
    put(&mut v, "rect{");
    match order {
        0 => {
            short(&mut v, &mut w);
            lng(&mut v, &mut w);
        }
        1 => {
            lng(&mut v, &mut w);
            short(&mut v, &mut w);
        }
        _ => {
            // a longhand from the style attribute
            short(&mut v, &mut w);
        }
    }
    put(&mut v, "}</style><rect id='a' ");
    if attr_first {
        put(&mut v, long[which]);
        put(&mut v, "='none' ");
    }
    if order == 2 {
        put(&mut v, "style='");
        lng(&mut v, &mut w);
        put(&mut v, "' ");
    }
    put(&mut v, "/><g id='t'/></svg>");
    let doc = match parse_ok(v) {
        Some(d) => d,
        None => return,
    };
    let svg = doc.svg_element();
    let r = svg.as_ref().and_then(|s| s.first_child());
    let t = svg.as_ref().and_then(|s| s.last_child());
    if let (Some(r), Some(t)) = (r, t) {
        let at = r.attributes();
        let mut n = 0;
        for i in 0..3 {
            let got = at.get_value(attr(long[i]).id);
            let ok = match w[i] {
                None => got.is_none(),
                Some(0) => got == Some(&AttributeValue::FuncLink(t.clone())),
                Some(1) => got == Some(&AttributeValue::None),
                _ => got == Some(&AttributeValue::Inherit),
            };
            check(ok, "the marker shorthand of a style sheet sets all three properties");
            if w[i].is_some() {
                n += 1;
            }
        }
        check(at.len() == n, "nothing else is set");
        note(&dump(&doc));
    } else {
        fail("elements are kept");
    }
}

// ------------------------------------------------------------------ C13

/// `n` elements with arbitrary ids and references.
pub fn c13(n: usize, kinds: usize, style: bool) {
    let mut v = Vec::with_capacity(900);
    v.extend_from_slice(OPEN);
    let mut id = [0u8; 6];
    let mut rk = [0usize; 6];
    let mut rt = [0u8; 6];
    let mut gone = [false; 6];
    let mut parent = [9usize; 6];
    let mut open: Vec<usize> = Vec::with_capacity(8);
    let mut pos = 0u8;
    let mut order = [0u8; 6];
    let close = |v: &mut Vec<u8>, i: usize, g: bool, own: bool| {
        let _ = i;
        put(v, if own && g { "</style>" } else { "</g>" });
    };
    let mut own = [false; 6];
    for i in 0..n {
        // close some of the open elements
        if i > 0 {
            let up = choose(open.len() + 1);
            for _ in 0..up {
                if let Some(j) = open.pop() {
                    close(&mut v, j, gone[j], own[j]);
                }
            }
        }
        if let Some(&p) = open.last() {
            parent[i] = p;
        }
        own[i] = style && choose(2) == 1;
        gone[i] = own[i] || open.iter().any(|&p| own[p]);
        put(&mut v, if own[i] { "<style" } else { "<g" });
        if choose(2) == 1 {
            id[i] = byte_in(b"abc");
            put(&mut v, " id='");
            v.push(id[i]);
            put(&mut v, "'");
        }
        rk[i] = choose(kinds);
        if rk[i] > 0 {
            rt[i] = byte_in(b"abc");
            put(&mut v, [" xlink:href='#", " fill='url(#", " clip-path='url(#", " fill='url(#", " stroke='url(#", " stroke='url(#", " fill='url(#"][rk[i] - 1]);
            v.push(rt[i]);
            put(&mut v, ["'", ")'", ")'", ") none'", ") #010203'", ")'", ") currentColor'"][rk[i] - 1]);
        }
        put(&mut v, ">");
        open.push(i);
        if !gone[i] {
            pos += 1;
        }
        order[i] = pos;
    }
    while let Some(j) = open.pop() {
        close(&mut v, j, gone[j], own[j]);
    }
    put(&mut v, "</svg>");
    let doc = match parse_ok(v) {
        Some(d) => d,
        None => return,
    };
    let mut h: Vec<Node> = Vec::with_capacity(8);
    for x in doc.root().descendants().skip(2) {
        h.push(x);
    }
    check(h.len() == pos as usize, "all elements are kept, in order");
    if h.len() != pos as usize {
        return;
    }
    let node = |i: usize| &h[order[i] as usize - 1];
    // the rules, in document order
    let mut to = [9usize; 6];
    for i in 0..n {
        if gone[i] {
            continue;
        }
        let e = node(i);
        check(if id[i] == 0 { !e.has_id() } else { e.id().as_bytes() == [id[i]] }, "ids are kept");
        let at = e.attributes();
        if rk[i] == 0 {
            check(at.is_empty(), "no attribute appears");
            continue;
        }
        let name = [AttributeId::Href, AttributeId::Fill, AttributeId::ClipPath, AttributeId::Fill, AttributeId::Stroke, AttributeId::Stroke, AttributeId::Fill][rk[i] - 1];
        let got = at.get_value(name);
        let mut t = 9;
        for j in (0..n).rev() {
            if !gone[j] && id[j] != 0 && id[j] == rt[i] {
                t = j;
            }
        }
        if t == 9 {
            let w = match rk[i] {
                1 => AttributeValue::String(into_string(vec![b'#', rt[i]])),
                2 => AttributeValue::None,
                3 | 6 => AttributeValue::String(into_string(vec![b'u', b'r', b'l', b'(', b'#', rt[i], b')'])),
                4 => AttributeValue::None,
                5 => AttributeValue::Color(Color::new(1, 2, 3)),
                _ => AttributeValue::CurrentColor,
            };
            check(got == Some(&w), "a reference to nothing becomes its fallback");
            reach("missing");
        } else if id[i] != 0 && id[i] == rt[i] || to[t] == i {
            check(got.is_none(), "a circular reference is dropped");
            reach("circular");
        } else {
            let tn = node(t).clone();
            let w = match rk[i] {
                1 => AttributeValue::Link(tn),
                2 => AttributeValue::Paint(tn, None),
                3 => AttributeValue::FuncLink(tn),
                4 => AttributeValue::Paint(tn, Some(PaintFallback::None)),
                5 => AttributeValue::Paint(tn, Some(PaintFallback::Color(Color::new(1, 2, 3)))),
                6 => AttributeValue::Paint(tn, None),
                _ => AttributeValue::Paint(tn, Some(PaintFallback::CurrentColor)),
            };
            check(got == Some(&w), "a reference leads to the first element with that id");
            to[i] = t;
            reach("linked");
        }
    }
    for t in 0..n {
        if gone[t] {
            continue;
        }
        let mut c = 0;
        for i in 0..n {
            if to[i] == t {
                c += 1;
                check(node(t).linked_nodes().iter().any(|x| *x == *node(i)), "a target lists who refers to it");
            }
        }
        check(node(t).uses_count() == c, "a target lists nothing else");
    }
    finish(&doc, false);
}
harness!(c13_q, { c13(3, 3, false) });
harness!(c13_k, { c13(2, 8, false) });
harness!(c13_s, { c13(2, 3, true) });
harness!(c13_t, { c13(3, 8, false) });
harness!(c13_t2, { c13(3, 3, true) });
harness!(c13_t3, { c13(4, 2, false) });

/// Ids and references with more than one byte, and other characters.
fn c13_ids(k: usize) {
    let mut a = Vec::with_capacity(4);
    let mut b = Vec::with_capacity(4);
    for _ in 0..k {
        a.push(byte_in(b"aA-.:_0"));
    }
    let kb = 1 + choose(k);
    for _ in 0..kb {
        b.push(byte_in(b"aA-.:_0"));
    }
    id_case(a, b);
}
/// Arbitrary letters, digits and punctuation.
fn id_char() -> u8 {
    let c = byte();
    assume((c > 0x20) & (c < 0x7f) & (c != b'<') & (c != b'&') & (c != b'\'') & (c != b'"') & (c != b'(') & (c != b')') & (c != b'#') & (c != b'='));
    c
}
harness!(c13_word, {
    let mut a = Vec::with_capacity(10);
    let mut b = Vec::with_capacity(10);
    let ka = 1 + choose(10);
    for _ in 0..ka {
        a.push(id_char());
    }
    let kb = 1 + choose(10);
    for _ in 0..kb {
        b.push(id_char());
    }
    id_case(a, b);
});
fn id_case(a: Vec<u8>, b: Vec<u8>) {
    let mut v = Vec::with_capacity(400);
    v.extend_from_slice(OPEN);
    put(&mut v, "<g id='");
    v.extend_from_slice(&a);
    put(&mut v, "'/><rect fill='url(#");
    v.extend_from_slice(&b);
    put(&mut v, ") red' xlink:href='#");
    v.extend_from_slice(&b);
    put(&mut v, "'/></svg>");
    let same = a == b;
    let doc = match parse_ok(v) {
        Some(d) => d,
        None => return,
    };
    let svg = doc.svg_element();
    if let (Some(g), Some(r)) = (svg.as_ref().and_then(|s| s.first_child()), svg.as_ref().and_then(|s| s.last_child())) {
        check(g.id().as_bytes() == &a[..], "an id is kept as it is");
        let at = r.attributes();
        let (f, h) = (at.get_value(AttributeId::Fill), at.get_value(AttributeId::Href));
        if same {
            reach("same");
            check(f == Some(&AttributeValue::Paint(g.clone(), Some(PaintFallback::Color(Color::red())))), "a paint leads to the element with exactly that id");
            check(h == Some(&AttributeValue::Link(g.clone())), "a reference leads to the element with exactly that id");
            check(g.uses_count() == 2, "both references count");
        } else {
            reach("different");
            check(f == Some(&AttributeValue::Color(Color::red())), "a paint that leads nowhere becomes its fallback");
            let mut w = vec![b'#'];
            w.extend_from_slice(&b);
            check(h == Some(&AttributeValue::String(into_string(w))), "a reference that leads nowhere is kept as text");
            check(g.uses_count() == 0, "no references count");
        }
    }
    note(&dump(&doc));
}
harness!(c13_i, { c13_ids(2) });
harness!(c13_it, { c13_ids(3) });

// ------------------------------------------------------------------ C11

struct Out {
    xml: Vec<u8>,
    want: Vec<u8>,
}

/// Kinds of nodes; `keep` says whether the node and its content stay.
fn c11_node(o: &mut Out, pre: bool, i: usize, kind: &[u8], par: &[u8], n: usize, keep: bool, last_text: &mut bool) {
    let k = kind[i];
    match k {
        0..=7 => {
            // with `pre`, only names with a prefix are in the SVG namespace
            let (open, close, own, name) = match k {
                0 if pre => ("<s:rect", "</s:rect>", true, "rect"),
                3 if pre => ("<g", "</g>", false, ""),
                5 if pre => ("<s:style", "</s:style>", false, ""),
                6 if pre => ("<s:text", "</s:text>", true, "text"),
                7 if pre => ("<s:Rect", "</s:Rect>", false, ""),
                0 => ("<rect", "</rect>", true, "rect"),
                1 => ("<foo", "</foo>", false, ""),
                2 => ("<z:rect", "</z:rect>", false, ""),
                3 => ("<s:g", "</s:g>", true, "g"),
                4 => ("<rect xmlns='urn:u'", "</rect>", false, ""),
                5 => ("<style", "</style>", false, ""),
                6 => ("<text", "</text>", true, "text"),
                _ => ("<Rect", "</Rect>", false, ""),
            };
            put(&mut o.xml, open);
            let selfc = k == 3 && !pre;
            put(&mut o.xml, if selfc { "/>" } else { ">" });
            let stay = keep && own;
            if stay {
                put(&mut o.want, name);
            }
            let mark = o.want.len();
            let mut lt = false;
            let mut any = false;
            for j in i + 1..n {
                if par[j] as usize == i {
                    if !any && stay {
                        o.want.push(b'(');
                    }
                    any = true;
                    c11_node(o, pre, j, kind, par, n, stay, &mut lt);
                }
            }
            if stay && any {
                if o.want.len() == mark + 1 {
                    o.want.truncate(mark);
                } else {
                    o.want.push(b')');
                }
            }
            if !selfc {
                put(&mut o.xml, close);
            }
            if stay {
                o.want.push(b' ');
            }
            *last_text = false;
        }
        8 => {
            put(&mut o.xml, "<!--c-->");
            if keep {
                put(&mut o.want, "C\"c\" ");
            }
            *last_text = false;
        }
        9 => {
            put(&mut o.xml, "<?pi x?>");
            *last_text = false;
        }
        _ => {
            // text; adjacent ones are the same node
            if *last_text {
                assume(false);
            }
            put(&mut o.xml, if k == 10 { "t" } else { "<![CDATA[t]]>" });
            if keep {
                put(&mut o.want, "T\"t\" ");
            }
            *last_text = true;
        }
    }
}
pub fn c11(n: usize, kinds: &[u8], pre: bool) {
    let mut kind = [0u8; 8];
    let mut par = [99u8; 8];
    for i in 0..n {
        kind[i] = kinds[choose(kinds.len())];
        let p = choose(i + 1);
        par[i] = if p == 0 { 100 } else { p as u8 - 1 };
        if p > 0 {
            assume(kind[p - 1] < 8);
            // the content of a style element is CSS
            assume(!(kind[p - 1] == 5 && kind[i] >= 10));
            // roxmltree 0.6 rejects `<s:g></s:g>` when the default namespace is the same
            assume(pre || kind[p - 1] != 3);
        }
    }
    let mut o = Out { xml: Vec::with_capacity(600), want: Vec::with_capacity(300) };
    put(&mut o.xml, "<?xml version='1.0'?><!--a--><!DOCTYPE svg>");
    put(&mut o.xml, if pre { "<s:svg " } else { "<svg xmlns='http://www.w3.org/2000/svg' " });
    put(&mut o.xml, "xmlns:s='http://www.w3.org/2000/svg' xmlns:z='urn:z'>");
    put(&mut o.want, "(C\"a\" svg");
    let mark = o.want.len();
    o.want.push(b'(');
    let mut lt = false;
    for i in 0..n {
        if par[i] == 100 {
            c11_node(&mut o, pre, i, &kind, &par, n, true, &mut lt);
        }
    }
    if o.want.len() == mark + 1 {
        o.want.truncate(mark);
    } else {
        o.want.push(b')');
    }
    put(&mut o.xml, if pre { "</s:svg><!--b-->" } else { "</svg><!--b-->" });
    put(&mut o.want, " C\"b\" )");
    let doc = match parse_ok(o.xml) {
        Some(d) => d,
        None => return,
    };
    let got = dump(&doc);
    check(got == o.want, "exactly the SVG elements, texts and comments are kept, in document order");
    finish(&doc, kind[..n].iter().any(|k| *k >= 10));
}
pub const ALL: &[u8] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11];
harness!(c11_q, { c11(3, ALL, false) });
harness!(c11_p, { c11(3, ALL, true) });
harness!(c11_w, { c11(4, &[0, 1, 2, 3, 8, 10], false) });
harness!(c11_t, { c11(5, &[0, 1, 3, 8, 10], true) });
harness!(c11_t2, { c11(4, ALL, false) });
harness!(c11_t3, { c11(4, ALL, true) });

/// An arbitrary short tag name.
harness!(c11_tag, {
    let k = 1 + choose(2);
    let mut nm = Vec::with_capacity(4);
    nm.push(byte_in(b"agus"));
    if k == 2 {
        nm.push(byte_in(b"abcdefghijklmnopqrstuvwxyzAGUS0"));
    }
    let mut v = Vec::with_capacity(300);
    v.extend_from_slice(OPEN);
    v.push(b'<');
    v.extend_from_slice(&nm);
    put(&mut v, "><rect/></");
    v.extend_from_slice(&nm);
    put(&mut v, "><g/></svg>");
    let nm = into_string(nm);
    let e = ELEMS.iter().find(|e| e.name == nm);
    let doc = match parse_ok(v) {
        Some(d) => d,
        None => return,
    };
    let kids: Vec<Node> = match doc.svg_element() {
        Some(s) => s.children().collect(),
        None => return,
    };
    match e {
        Some(e) => {
            check(kids.len() == 2 && kids[0].has_tag_name(e.id) && kids[0].children().count() == 1, "an SVG element is kept with its content");
            reach("known");
        }
        None => {
            check(kids.len() == 1, "an unknown element is dropped with its content");
            reach("unknown");
        }
    }
    check(kids.len() > 0 && kids[kids.len() - 1].has_tag_name(ElementId::G), "what follows is kept");
});

/// Every attribute under every prefix.
harness!(c11_pre, {
    let a = &ATTRS[index(ATTRS.len())];
    assume(a.name != "xmlns" && a.kind != Kind::Skip && a.kind != Kind::Id);
    let p = choose(6);
    assume(!(p == 2 && a.name == "base"));
    let mut v = Vec::with_capacity(400);
    put(&mut v, "<svg xmlns='http://www.w3.org/2000/svg' xmlns:s='http://www.w3.org/2000/svg' xmlns:z='urn:z' xmlns:xlink='http://www.w3.org/1999/xlink' xmlns:l='http://www.w3.org/1999/xlink'><rect ");
    put(&mut v, ["", "xlink:", "xml:", "s:", "z:", "l:"][p]);
    put(&mut v, a.name);
    put(&mut v, "='none' z:xx='1'/></svg>");
    let doc = match parse_ok(v) {
        Some(d) => d,
        None => return,
    };
    let r = match doc.svg_element().and_then(|s| s.first_child()) {
        Some(r) => r,
        None => return fail("elements are kept"),
    };
    let want = if p == 4 {
        None
    } else {
        match expect(a.kind, ElementId::Rect, "none") {
            X::Val(v) => Some(v),
            _ => None,
        }
    };
    let at = r.attributes();
    check(at.get_value(a.id) == want.as_ref(), "attributes of foreign namespaces are dropped, all others are kept");
    check(at.len() == if want.is_some() { 1 } else { 0 }, "no other attribute appears");
    note(&dump(&doc));
});
/// An arbitrary short attribute name.
harness!(c11_attr, {
    let k = 1 + choose(2);
    let mut nm = Vec::with_capacity(4);
    push_any(&mut nm, 1, b"abcdefghijklmnopqrstuvwxyz_");
    if k == 2 {
        push_any(&mut nm, 1, b"abcdefghijklmnopqrstuvwxyz-0123XY");
    }
    let mut v = Vec::with_capacity(300);
    v.extend_from_slice(OPEN);
    put(&mut v, "<rect ");
    v.extend_from_slice(&nm);
    put(&mut v, "='1'/></svg>");
    let nm = into_string(nm);
    assume(nm != "id");
    let a = ATTRS.iter().find(|e| e.name == nm);
    let doc = match parse_ok(v) {
        Some(d) => d,
        None => return,
    };
    let r = match doc.svg_element().and_then(|s| s.first_child()) {
        Some(r) => r,
        None => return fail("elements are kept"),
    };
    let at = r.attributes();
    match a {
        Some(a) => {
            let want = match expect(a.kind, ElementId::Rect, "1") {
                X::Val(v) => Some(v),
                _ => None,
            };
            check(at.get_value(a.id) == want.as_ref(), "an SVG attribute is kept");
            reach("known");
        }
        None => {
            check(at.is_empty(), "an unknown attribute is dropped");
            reach("unknown");
        }
    }
});

/// Several attributes of any kinds in any order.
pub fn c11_mixed(n: usize) {
    let plain = [("x", AttributeId::X), ("y", AttributeId::Y), ("width", AttributeId::Width), ("height", AttributeId::Height)];
    let mut v = Vec::with_capacity(600);
    put(&mut v, "<svg xmlns='http://www.w3.org/2000/svg' xmlns:s='http://www.w3.org/2000/svg' xmlns:z='urn:z' xmlns:xlink='http://www.w3.org/1999/xlink'><rect");
    let mut want: Vec<(AttributeId, AttributeValue)> = Vec::with_capacity(4);
    let mut seen = [false; 16];
    let mut id = false;
    for i in 0..n {
        let k = choose(15);
        let once = k >= 4;
        assume(!(once && seen[k]));
        seen[k] = true;
        put(&mut v, " ");
        let l = AttributeValue::Length(Length::new(i as f64 + 1.0, LengthUnit::None));
        match k {
            0 => want.push((plain[i].1, l)),
            1 => put(&mut v, "z:"),
            2 => put(&mut v, "foo"),
            3 => {
                put(&mut v, "s:");
                want.push((plain[i].1, l));
            }
            _ => {}
        }
        if k < 4 {
            put(&mut v, plain[i].0);
            put(&mut v, "='");
            v.push(b'1' + i as u8);
            put(&mut v, "'");
            continue;
        }
        put(&mut v, ["xlink:href='#q'", "xml:space='default'", "class='k'", "style=''", "id='i'", "z:id='j'", "z:style='fill:red'", "z:class='c'", "xml:lang='en'", "xlink:title='t'", "fill='bad'"][k - 4]);
        match k {
            4 => want.push((AttributeId::Href, AttributeValue::from("#q"))),
            5 => want.push((AttributeId::Space, AttributeValue::from("default"))),
            8 => id = true,
            12 => want.push((AttributeId::Lang, AttributeValue::from("en"))),
            13 => want.push((AttributeId::Title, AttributeValue::from("t"))),
            _ => {}
        }
    }
    put(&mut v, "/><g/></svg>");
    let doc = match parse_ok(v) {
        Some(d) => d,
        None => return,
    };
    let r = match doc.svg_element().and_then(|s| s.first_child()) {
        Some(r) => r,
        None => return fail("elements are kept"),
    };
    check(if id { *r.id() == "i" } else { r.id().is_empty() }, "the id is that of the id attribute");
    let at = r.attributes();
    for (k, w) in &want {
        check(at.get_value(*k) == Some(w), "every SVG attribute is kept");
    }
    check(at.len() == want.len(), "no other attribute appears");
    check(r.next_sibling().map(|g| g.has_tag_name(ElementId::G) && g.attributes().is_empty()) == Some(true), "what follows is kept");
    note(&dump(&doc));
}
harness!(c11_mix, { c11_mixed(3) });
harness!(c11_mixt, { c11_mixed(4) });

/// Every element with every kind of content.
pub fn c11_content(n: usize, inside: &[(&str, &str)]) {
    let e = &ELEMS[index(ELEMS.len())];
    assume(e.id != ElementId::Style);
    let (a, b) = inside[choose(inside.len())];
    let mut v = Vec::with_capacity(500);
    let mut w = Vec::with_capacity(300);
    put(&mut v, "<svg xmlns='http://www.w3.org/2000/svg' xmlns:z='urn:z'>");
    put(&mut v, a);
    put(&mut w, "(svg(");
    put(&mut w, b);
    put(&mut v, "<");
    put(&mut v, e.name);
    put(&mut v, ">");
    put(&mut w, e.name);
    let m = w.len();
    put(&mut w, "(");
    let mut text = false;
    for _ in 0..n {
        let k = choose(7);
        assume(!(text && k > 4));
        text = k > 4;
        put(&mut v, ["<!--c-->", "<rect/>", "<z:rect><rect/></z:rect>", "<?pi x?>", "<foo><g/>q</foo>", "t", "<![CDATA[t]]>"][k]);
        put(&mut w, ["C\"c\" ", "rect ", "", "", "", "T\"t\" ", "T\"t\" "][k]);
    }
    if w.len() == m + 1 {
        w.truncate(m);
    } else {
        put(&mut w, ")");
    }
    put(&mut v, "</");
    put(&mut v, e.name);
    put(&mut v, ">");
    put(&mut w, " ");
    put(&mut v, if a == "<g>" { "</g>" } else { "" });
    put(&mut w, if a == "<g>" { ") " } else { "" });
    put(&mut v, "<a/></svg>");
    put(&mut w, "a ) )");
    let doc = match parse_ok(v) {
        Some(d) => d,
        None => return,
    };
    let got = dump(&doc);
    check(got == w, "exactly the SVG elements, texts and comments of every element are kept, in document order");
    note(&got);
}
harness!(c11_par, { c11_content(1, &[("", ""), ("<g>", "g("), ("<rect/>", "rect ")]) });
harness!(c11_par2, { c11_content(2, &[("", "")]) });
harness!(c11_part, { c11_content(3, &[("", ""), ("<g>", "g(")]) });
/// Every element inside of every other one.
harness!(c11_in, {
    let e = &ELEMS[index(ELEMS.len())];
    let f = &ELEMS[index(ELEMS.len())];
    assume(e.id != ElementId::Style && f.id != ElementId::Style);
    let mut v = Vec::with_capacity(300);
    v.extend_from_slice(OPEN);
    put(&mut v, "<");
    put(&mut v, e.name);
    put(&mut v, "><");
    put(&mut v, f.name);
    put(&mut v, "/></");
    put(&mut v, e.name);
    put(&mut v, "></svg>");
    let doc = match parse_ok(v) {
        Some(d) => d,
        None => return,
    };
    let x = doc.svg_element().and_then(|s| s.first_child());
    let y = x.as_ref().and_then(|s| s.first_child());
    match (x, y) {
        (Some(x), Some(y)) => {
            check(x.has_tag_name(e.id) && y.has_tag_name(f.id), "nested elements are what they were");
            check(x.next_sibling().is_none() && y.next_sibling().is_none() && !y.has_children(), "nothing else appears");
        }
        _ => fail("every SVG element is kept inside of every other one"),
    }
});

// ------------------------------------------------------------------ style sheets and whole trees

const RULES: [(&str, u16); 14] = [
    ("*", 0),
    ("g", 1),
    ("rect", 1),
    (".b", 0x10),
    ("g rect", 2),
    ("g > rect", 2),
    ("g + rect", 2),
    (".b .c", 0x20),
    (".b > *", 0x10),
    ("rect:first-child", 0x11),
    ("#n1", 0x100),
    (".b.c", 0x20),
    ("svg g", 2),
    ("[class]", 0x10),
];
struct El {
    rect: bool,
    class: usize,
    parent: usize,
}
/// Node 0 is the svg element.
fn hits(k: usize, e: &[El], i: usize) -> bool {
    let tag = |j: usize, r: bool| j > 0 && e[j].rect == r;
    let b = |j: usize| j > 0 && (e[j].class == 1 || e[j].class == 3);
    let c = |j: usize| j > 0 && e[j].class >= 2;
    let mut prev = 0;
    let mut up = Vec::with_capacity(4);
    if i > 0 {
        for j in 1..i {
            if e[j].parent == e[i].parent {
                prev = j;
            }
        }
        let mut p = e[i].parent;
        while p > 0 {
            up.push(p);
            p = e[p].parent;
        }
    }
    match k {
        0 => true,
        1 => tag(i, false),
        2 => tag(i, true),
        3 => b(i),
        4 => tag(i, true) && up.iter().any(|&p| tag(p, false)),
        5 => tag(i, true) && tag(e[i].parent, false),
        6 => tag(i, true) && prev > 0 && tag(prev, false),
        7 => c(i) && up.iter().any(|&p| b(p)),
        8 => i > 0 && b(e[i].parent),
        9 => tag(i, true) && prev == 0,
        10 => i == 1,
        11 => b(i) && c(i),
        12 => tag(i, false),
        _ => i > 0 && e[i].class > 0,
    }
}
fn tree_node(v: &mut Vec<u8>, e: &[El], i: usize, sep: &str) {
    put(v, sep);
    put(v, if e[i].rect { "<rect id='n" } else { "<g id='n" });
    v.push(b'0' + i as u8);
    put(v, "'");
    put(v, ["", " class='b'", " class='c'", " class='b c'"][e[i].class]);
    put(v, ">");
    for j in i + 1..e.len() {
        if e[j].parent == i {
            tree_node(v, e, j, sep);
        }
    }
    put(v, if e[i].rect { "</rect>" } else { "</g>" });
}
fn c12_trees(n: usize, rules: usize, classes: usize) {
    let mut e: Vec<El> = Vec::with_capacity(6);
    e.push(El { rect: false, class: 0, parent: 0 });
    for i in 1..=n {
        e.push(El { rect: choose(2) == 1, class: [0, 1, 3, 2][choose(classes)], parent: choose(i) });
    }
    let after = choose(2) == 1;
    let sep = ["", " <!--x--> "][if after { 1 } else { 0 }];
    let mut v = Vec::with_capacity(700);
    v.extend_from_slice(OPEN);
    let mut css = Vec::with_capacity(100);
    put(&mut css, "<style>");
    let mut r = [99usize; 3];
    for i in 0..rules {
        r[i] = choose(RULES.len());
        put(&mut css, RULES[r[i]].0);
        put(&mut css, "{stroke-width:");
        css.push(b'1' + i as u8);
        put(&mut css, "}");
    }
    put(&mut css, "</style>");
    if !after {
        // the style element is not an element of the tree that `:first-child` and `+` see
        assume(!r.contains(&9) && !r.contains(&6));
        v.extend_from_slice(&css);
    }
    for j in 1..=n {
        if e[j].parent == 0 {
            tree_node(&mut v, &e, j, sep);
        }
    }
    if after {
        v.extend_from_slice(&css);
    }
    put(&mut v, "</svg>");
    let doc = match parse_ok(v) {
        Some(d) => d,
        None => return,
    };
    let mut seen = 0;
    for x in doc.root().descendants() {
        if !x.is_element() {
            continue;
        }
        let i = if x.has_id() { (x.id().as_bytes()[1] - b'0') as usize } else { 0 };
        seen += 1;
        let mut best: Option<(u16, usize)> = None;
        for k in 0..rules {
            if hits(r[k], &e, i) {
                let p = (RULES[r[k]].1, k);
                if best.map_or(true, |b| p >= b) {
                    best = Some(p);
                }
            }
        }
        let at = x.attributes();
        let got = at.get_value(AttributeId::StrokeWidth);
        match (got, best) {
            (Some(AttributeValue::Length(l)), Some((_, k))) => {
                check(l.num == (k + 1) as f64, "every element gets the value of the strongest rule that matches it");
                reach("styled");
            }
            (None, None) => reach("unstyled"),
            _ => fail("a rule applies to exactly the elements it matches"),
        }
        check(at.len() == if got.is_some() { 1 } else { 0 }, "no other attribute appears");
    }
    check(seen == n + 1, "all elements are kept");
    note(&dump(&doc));
}
harness!(c12_tr2, { c12_trees(2, 2, 3) });
harness!(c12_tr3, { c12_trees(3, 1, 3) });
harness!(c12_trt, { c12_trees(3, 2, 2) });

/// Names which CSS cannot set.
harness!(c12_non, {
    let k = index(ATTRS.len() + 8);
    let nm = if k < ATTRS.len() {
        let a = &ATTRS[k];
        assume(a.flags & PRES == 0 && a.name != "transform" && a.name != "marker");
        a.name
    } else {
        ["FILL", "Fill", "fil", "fill-", "-fill", "f", "foo", "-webkit-fill"][k - ATTRS.len()]
    };
    let mut v = Vec::with_capacity(500);
    v.extend_from_slice(OPEN);
    let src = choose(3);
    let val = ["1", "red", "none", "#t"][choose(4)];
    let decl = |v: &mut Vec<u8>| {
        put(v, nm);
        put(v, ":");
        put(v, val);
        put(v, ";stroke:none");
    };
    if src != 1 {
        put(&mut v, "<style>rect{");
        decl(&mut v);
        put(&mut v, "}</style>");
    }
    put(&mut v, "<rect id='a'");
    if src != 0 {
        put(&mut v, " style='");
        decl(&mut v);
        put(&mut v, "'");
    }
    put(&mut v, "/><g id='t'/></svg>");
    let doc = match parse_ok(v) {
        Some(d) => d,
        None => return,
    };
    match doc.svg_element().and_then(|s| s.first_child()) {
        Some(r) => {
            check(*r.id() == "a", "CSS does not change ids");
            let at = r.attributes();
            check(at.len() == 1 && at.get_value(AttributeId::Stroke) == Some(&AttributeValue::None), "CSS sets presentation attributes and transform only");
        }
        None => fail("elements are kept"),
    }
    note(nm.as_bytes());
});

/// Several references on each element.
fn c13_many(n: usize, css: bool) {
    let mut v = Vec::with_capacity(900);
    v.extend_from_slice(OPEN);
    let at = [AttributeId::Href, AttributeId::Mask, AttributeId::Fill];
    let mut rt = [[0u8; 3]; 4];
    for i in 0..n {
        put(&mut v, "<g id='");
        v.push(b'a' + i as u8);
        put(&mut v, "'");
        for k in 0..3 {
            if choose(2) == 0 {
                continue;
            }
            let b = byte_in(&b"abcd"[..n + 1]);
            rt[i][k] = b;
            let st = k == 2 && css && choose(2) == 1;
            put(&mut v, if st { " style='fill:url(#" } else { [" xlink:href='#", " mask='url(#", " fill='url(#"][k] });
            v.push(b);
            put(&mut v, ["'", ")'", ")'"][k]);
        }
        put(&mut v, "/>");
    }
    put(&mut v, "</svg>");
    let doc = match parse_ok(v) {
        Some(d) => d,
        None => return,
    };
    let h: Vec<Node> = match doc.svg_element() {
        Some(s) => s.children().collect(),
        None => return,
    };
    check(h.len() == n, "all elements are kept");
    if h.len() != n {
        return;
    }
    let mut to = [[9u8; 3]; 4];
    for i in 0..n {
        for k in 0..3 {
            let b = rt[i][k];
            let a = h[i].attributes();
            let got = a.get_value(at[k]);
            if b == 0 {
                check(got.is_none(), "no attribute appears");
                continue;
            }
            let mut t = 9;
            for j in 0..n {
                if b == b'a' + j as u8 {
                    t = j;
                }
            }
            if t == 9 {
                let w = match k {
                    0 => AttributeValue::String(into_string(vec![b'#', b])),
                    1 => AttributeValue::String(into_string(vec![b'u', b'r', b'l', b'(', b'#', b, b')'])),
                    _ => AttributeValue::None,
                };
                check(got == Some(&w), "a reference to nothing becomes its fallback");
                reach("missing");
            } else if t == i || to[t].iter().any(|&x| x == i as u8) {
                check(got.is_none(), "a circular reference is dropped");
                reach("circular");
            } else {
                let tn = h[t].clone();
                let w = match k {
                    0 => AttributeValue::Link(tn),
                    1 => AttributeValue::FuncLink(tn),
                    _ => AttributeValue::Paint(tn, None),
                };
                check(got == Some(&w), "a reference leads to the element with that id");
                to[i][k] = t as u8;
                reach("linked");
            }
        }
    }
    for t in 0..n {
        let mut c = 0;
        for i in 0..n {
            for k in 0..3 {
                if to[i][k] == t as u8 {
                    c += 1;
                }
            }
        }
        check(h[t].uses_count() == c, "a target lists every reference once");
    }
    finish(&doc, false);
}
harness!(c13_m, { c13_many(2, true) });
harness!(c13_mt, { c13_many(3, false) });

/// Every element as the source and as the target of references.
harness!(c13_elem, {
    let e = &ELEMS[index(ELEMS.len())];
    assume(e.id != ElementId::Style);
    let from = choose(2) == 0;
    let after = choose(2) == 0;
    let k = choose(5);
    let anim = matches!(e.id, ElementId::Set | ElementId::Animate | ElementId::AnimateColor | ElementId::AnimateMotion | ElementId::AnimateTransform);
    assume(!(from && anim && k == 1));
    let (s, t) = if from { (e.name, "g") } else { ("g", e.name) };
    let mut v = Vec::with_capacity(500);
    v.extend_from_slice(OPEN);
    let target = |v: &mut Vec<u8>| {
        put(v, "<");
        put(v, t);
        put(v, " id='t'/>");
    };
    if !after {
        target(&mut v);
    }
    put(&mut v, "<");
    put(&mut v, s);
    put(&mut v, [" xlink:href='#t'", " fill='url(#t)'", " stroke='url(#t) none'", " clip-path='url(#t)'", " style='marker-end:url(#t)'"][k]);
    put(&mut v, "/>");
    if after {
        target(&mut v);
    }
    put(&mut v, "</svg>");
    let doc = match parse_ok(v) {
        Some(d) => d,
        None => return,
    };
    let h: Vec<Node> = match doc.svg_element() {
        Some(s) => s.children().collect(),
        None => return,
    };
    if h.len() != 2 {
        return fail("all elements are kept");
    }
    let (s, t) = if after { (&h[0], &h[1]) } else { (&h[1], &h[0]) };
    let at = s.attributes();
    let id = [AttributeId::Href, AttributeId::Fill, AttributeId::Stroke, AttributeId::ClipPath, AttributeId::MarkerEnd][k];
    let w = match k {
        0 => AttributeValue::Link(t.clone()),
        1 => AttributeValue::Paint(t.clone(), None),
        2 => AttributeValue::Paint(t.clone(), Some(PaintFallback::None)),
        _ => AttributeValue::FuncLink(t.clone()),
    };
    check(at.get_value(id) == Some(&w) && at.len() == 1, "a reference from and to every element becomes a link");
    check(t.uses_count() == 1 && t.linked_nodes()[0] == *s, "the target knows who refers to it");
    finish(&doc, false);
});

// ------------------------------------------------------------------ the same documents for C09 and C10

harness!(c10_tree, {
    mode(3);
    c11(3, ALL, false)
});
harness!(c10_lnk, {
    mode(3);
    c13(3, 3, false)
});
harness!(c10_lnk2, {
    mode(3);
    c13(2, 8, true)
});
harness!(c10_many, {
    mode(3);
    c13_many(2, true)
});
harness!(c10_casc, {
    mode(3);
    c12(5, 5, 0)
});
harness!(c10_casd, {
    mode(3);
    c12(3, 4, 2)
});
harness!(c10_mark, {
    mode(3);
    marker()
});
harness!(c10_cont, {
    mode(3);
    c11_content(2, &[("", "")])
});
harness!(c10_mix, {
    mode(3);
    c11_mixed(3)
});
harness!(c09_tree, {
    mode(4);
    c11(3, &[0, 1, 3, 5, 6, 8, 10], false)
});
harness!(c09_lnk, {
    mode(4);
    c13(2, 8, true)
});
harness!(c09_many, {
    mode(4);
    c13_many(2, true)
});
harness!(c09_casc, {
    mode(4);
    c12(4, 3, 1)
});
