//! C22 (what a node is), C23 (printed forms), C24 (values given through the API).
use super::cascade::put;
use super::sym::*;
use super::tables::*;
use super::writeh::value_text;
use svgdom::*;

#[derive(Clone, PartialEq)]
enum Tag {
    No,
    Id(ElementId),
    Name(u8),
}
struct M {
    kind: NodeType,
    tag: Tag,
    id: Vec<u8>,
    text: Vec<u8>,
}
const IDS: [ElementId; 3] = [ElementId::Svg, ElementId::G, ElementId::TextPath];

fn ascii() -> u8 {
    let b = byte();
    assume(b >= b' ' && b < 127);
    b
}
fn word(max: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(4);
    for _ in 0..choose(max + 1) {
        v.push(ascii());
    }
    v
}
fn one(b: u8) -> String {
    into_string(vec![b])
}

fn check_node(n: &Node, m: &M) {
    check(n.node_type() == m.kind, "a node keeps its kind");
    check(n.is_root() == (m.kind == NodeType::Root), "is_root()");
    check(n.is_element() == (m.kind == NodeType::Element), "is_element()");
    check(n.is_comment() == (m.kind == NodeType::Comment), "is_comment()");
    check(n.is_text() == (m.kind == NodeType::Text), "is_text()");
    check(n.id().as_bytes() == &m.id[..], "a node has the id last given to it");
    check(n.has_id() == !m.id.is_empty(), "has_id()");
    check(n.text().as_bytes() == &m.text[..], "a node has the text last given to it");
    check(!n.is_detached(), "every node belongs to the document");
    let svg = match m.tag {
        Tag::Id(_) => true,
        _ => false,
    };
    check(n.is_svg_element() == svg, "is_svg_element()");
    match m.tag {
        Tag::Id(id) => {
            check(n.tag_id() == Some(id), "tag_id()");
            check(n.has_tag_name(id), "has_tag_name()");
            check(*n.tag_name() == QName::Id(id) && n.tag_name().has_id(id), "tag_name()");
            check(!n.has_tag_name(id.as_str()), "an SVG name is no custom one");
        }
        Tag::Name(b) => {
            let s = one(b);
            check(n.tag_id().is_none(), "a custom name has no id");
            check(n.has_tag_name(s.as_str()), "has_tag_name()");
            check(*n.tag_name() == QName::Name(s), "tag_name()");
        }
        Tag::No => check(n.tag_id().is_none(), "no name"),
    }
    for id in IDS {
        check(n.has_tag_name(id) == (m.tag == Tag::Id(id)), "has_tag_name() of another id");
    }
    let b = ascii();
    check(n.has_tag_name(one(b).as_str()) == (m.tag == Tag::Name(b)), "has_tag_name() of another name");
}
fn c22(nodes: usize, ops: usize) {
    let mut doc = Document::new();
    let mut h = vec![doc.root()];
    let mut m = vec![M { kind: NodeType::Root, tag: Tag::No, id: vec![], text: vec![] }];
    for _ in 0..nodes {
        let (n, x) = match choose(4) {
            0 => {
                let id = IDS[choose(3)];
                (doc.create_element(id), M { kind: NodeType::Element, tag: Tag::Id(id), id: vec![], text: vec![] })
            }
            1 => {
                let b = ascii();
                (doc.create_element(one(b).as_str()), M { kind: NodeType::Element, tag: Tag::Name(b), id: vec![], text: vec![] })
            }
            k => {
                let t = word(1);
                let kind = if k == 2 { NodeType::Comment } else { NodeType::Text };
                (doc.create_node(kind, into_string(t.clone())), M { kind, tag: Tag::No, id: vec![], text: t })
            }
        };
        check(n.parent().is_none() && !n.has_children() && n.next_sibling().is_none() && n.previous_sibling().is_none(), "a new node is not part of a tree");
        check(n.attributes().is_empty() && n.uses_count() == 0 && !n.is_used(), "a new node has no attributes and no uses");
        h.push(n);
        m.push(x);
    }
    check(!h[0].has_children() && doc.root() == h[0], "creating nodes does not change the tree");
    for _ in 0..ops {
        let i = choose(nodes + 1);
        let el = m[i].kind == NodeType::Element;
        // another handle to the same node
        let mut n = h[i].clone();
        match choose(6) {
            0 => {
                assume(el);
                let w = word(2);
                n.set_id(into_string(w.clone()));
                m[i].id = w;
                reach("id");
            }
            1 => {
                assume(!el && i > 0);
                let w = word(2);
                n.set_text(&into_string(w.clone()));
                m[i].text = w;
                reach("text");
            }
            2 => {
                assume(!el && i > 0);
                let b = ascii();
                n.text_mut().push(b as char);
                m[i].text.push(b);
            }
            3 => {
                assume(el);
                let id = IDS[choose(3)];
                n.set_tag_name(id);
                m[i].tag = Tag::Id(id);
                reach("tag");
            }
            4 => {
                assume(el);
                let b = ascii();
                n.set_tag_name(one(b).as_str());
                m[i].tag = Tag::Name(b);
            }
            _ => {
                assume(i > 0);
                h[0].append(n);
                if choose(2) == 1 {
                    h[i].detach();
                }
            }
        }
    }
    for i in 0..h.len() {
        check_node(&h[i], &m[i]);
        for j in 0..h.len() {
            check((h[i] == h[j]) == (i == j), "handles are equal only if they are of one node");
        }
        check(h[i] == h[i].clone(), "handles are equal if they are of one node");
    }
    note(&[nodes as u8]);
}
harness!(c22_q, { c22(2, 2) });
harness!(c22_w, { c22(3, 1) });
harness!(c22_t, { c22(1, 3) });

// every tag
harness!(c22_tag, {
    let (a, b) = (&ELEMS[index(ELEMS.len())], &ELEMS[index(ELEMS.len())]);
    let mut doc = Document::new();
    let mut n = doc.create_element(a.id);
    check(n.tag_id() == Some(a.id) && n.is_svg_element(), "a new element has its tag");
    check(n.has_tag_name(b.id) == (a.id == b.id), "has_tag_name()");
    check(!n.has_tag_name(b.name), "an SVG name is no custom one");
    n.set_id("i");
    n.set_attribute((AttributeId::X, 1.0));
    n.set_tag_name(b.id);
    check(n.tag_id() == Some(b.id) && n.is_svg_element() && n.is_element(), "a renamed element has its new tag");
    check(n.has_tag_name(a.id) == (a.id == b.id), "has_tag_name()");
    check(*n.id() == "i" && n.attributes().len() == 1, "renaming changes nothing else");
    n.set_tag_name(a.name);
    check(n.tag_id().is_none() && !n.is_svg_element() && n.is_element(), "a custom name is no SVG one");
    check(n.has_tag_name(a.name) && !n.has_tag_name(a.id), "has_tag_name()");
    check(n.has_tag_name(b.name) == (a.id == b.id), "has_tag_name()");
    note(a.name.as_bytes());
});
// the svg element of any document
fn svg_element(n: usize) {
    let mut doc = Document::new();
    let mut root = doc.root();
    let mut want = None;
    for _ in 0..choose(n + 1) {
        let k = choose(7);
        let mut c = match k {
            0 => doc.create_element(ElementId::Svg),
            1 | 2 => doc.create_element(ElementId::G),
            3 => doc.create_element("svg"),
            4 => doc.create_node(NodeType::Comment, "svg"),
            5 => doc.create_node(NodeType::Text, "svg"),
            _ => {
                let mut s = doc.create_element(ElementId::Symbol);
                s.set_id("svg");
                s
            }
        };
        if k == 2 {
            let s = doc.create_element(ElementId::Svg);
            c.append(s);
        }
        if k == 0 && want.is_none() {
            want = Some(c.clone());
        }
        root.append(c);
    }
    let got = doc.svg_element();
    check(got == want, "svg_element() is the first svg element under the root");
    reach(if want.is_some() { "found" } else { "none" });
    note(&[want.is_some() as u8]);
}
harness!(c22_svg, { svg_element(4) });

// ------------------------------------------------------------------ C23

fn q(out: &mut Vec<u8>, name: &str, val: &[u8]) {
    put(out, name);
    put(out, "='");
    out.extend_from_slice(val);
    put(out, "'");
}
fn shown(a: &AttributeId) -> &'static str {
    match *a {
        AttributeId::Href => "xlink:href",
        AttributeId::Space => "xml:space",
        _ => a.as_str(),
    }
}
/// A value of each kind; `t` is the target of links.
fn some_value(k: usize, t: &Node) -> AttributeValue {
    match k {
        0 => AttributeValue::None,
        1 => AttributeValue::Inherit,
        2 => AttributeValue::CurrentColor,
        3 => AttributeValue::String(into_string(word(2))),
        4 => AttributeValue::Number([0.0, 1.5, -7.0, 100000.0][choose(4)]),
        5 => AttributeValue::Color(Color::new(byte(), 2, 255)),
        6 => AttributeValue::Length(Length::new(2.5, [LengthUnit::None, LengthUnit::Mm, LengthUnit::Percent][choose(3)])),
        7 => AttributeValue::NumberList(NumberList(vec![1.0, -2.0, 0.5])),
        8 => AttributeValue::LengthList(LengthList(vec![Length::new(1.0, LengthUnit::Px), Length::zero()])),
        9 => AttributeValue::Angle(Angle::new(90.0, AngleUnit::Degrees)),
        10 => AttributeValue::Transform(Transform::new(1.0, 0.0, 0.0, 1.0, 5.0, 6.0)),
        11 => AttributeValue::ViewBox(ViewBox::new(1.0, 2.0, 3.0, 4.0)),
        12 => AttributeValue::Points(Points(vec![(1.0, 2.0), (3.0, 4.0)])),
        13 => AttributeValue::Path(Path(vec![PathSegment::MoveTo { abs: true, x: 1.0, y: 2.0 }, PathSegment::ClosePath { abs: true }])),
        14 => AttributeValue::AspectRatio(AspectRatio { defer: true, align: Align::XMidYMin, slice: true }),
        15 => AttributeValue::Link(t.clone()),
        16 => AttributeValue::FuncLink(t.clone()),
        17 => AttributeValue::Paint(t.clone(), None),
        18 => AttributeValue::Paint(t.clone(), Some(PaintFallback::None)),
        19 => AttributeValue::Paint(t.clone(), Some(PaintFallback::CurrentColor)),
        _ => AttributeValue::Paint(t.clone(), Some(PaintFallback::Color(Color::new(1, 2, 3)))),
    }
}
const KINDS: usize = 21;
fn target(doc: &mut Document) -> Node {
    let mut t = doc.create_element(ElementId::Marker);
    let mut id = vec![b't'];
    id.push(ascii());
    t.set_id(into_string(id));
    t
}
// a value on its own, as an attribute of every name
harness!(c23_val, {
    let mut doc = Document::new();
    let t = target(&mut doc);
    let v = some_value(choose(KINDS), &t);
    let (nm, a) = if choose(2) == 0 {
        (AttributeId::Fill.as_str().to_string(), Attribute::new(AttributeId::Fill, v))
    } else {
        let s = into_string(vec![ascii(), ascii()]);
        let a = Attribute::new(s.as_str(), v);
        (s, a)
    };
    let w = value_text(&a, &WriteOptions::default());
    let got = format!("{}", a.value);
    check(got.as_bytes() == &w[..], "a value is printed as it is written");
    let mut e = Vec::with_capacity(40);
    q(&mut e, &nm, &w);
    let got = format!("{}", a);
    check(got.as_bytes() == &e[..], "an attribute is printed as name and quoted value");
    note(got.as_bytes());
});
harness!(c23_name, {
    let a = &ATTRS[index(ATTRS.len())];
    let at = Attribute::new(a.id, "v");
    let mut e = Vec::with_capacity(40);
    q(&mut e, shown(&a.id), b"v");
    check(format!("{}", at).as_bytes() == &e[..], "an attribute is printed with its name");
    check(format!("{}", at.name) == shown(&a.id), "a name is printed with its prefix");
    let c = Attribute::new(a.name, "v");
    check(format!("{}", c.name) == a.name, "a custom name is printed as it is");
    note(&e);
});
harness!(c23_tag, {
    let a = &ELEMS[index(ELEMS.len())];
    let mut doc = Document::new();
    let mut n = doc.create_element(a.id);
    check(format!("{}", *n.tag_name()) == a.name, "a tag name is printed as it is");
    let mut e = vec![b'<'];
    put(&mut e, a.name);
    e.push(b'>');
    check(format!("{}", n).as_bytes() == &e[..], "an element is printed as its start tag");
    n.set_tag_name(a.name);
    check(format!("{}", n).as_bytes() == &e[..], "an element is printed as its start tag");
    note(&e);
});
fn print(attrs: usize, uses: usize) {
    let mut doc = Document::new();
    let mut root = doc.root();
    let mut t = target(&mut doc);
    let mut e = doc.create_element(ElementId::Rect);
    root.append(t.clone());
    let id = word(2);
    let mut w = Vec::with_capacity(100);
    let name = if choose(2) == 0 {
        "rect".to_string()
    } else {
        let s = one(ascii());
        e.set_tag_name(s.as_str());
        s
    };
    e.set_id(into_string(id.clone()));
    assume(*t.id() != *e.id());
    put(&mut w, &name);
    if !id.is_empty() {
        put(&mut w, " ");
        q(&mut w, "id", &id);
    }
    const NM: [AttributeId; 4] = [AttributeId::X, AttributeId::Href, AttributeId::Stroke, AttributeId::ClipPath];
    let k = choose(attrs + 1);
    for i in 0..k {
        let v = some_value([0, 3, 4, 5, 15, 19][choose(6)], &t);
        let (nm, a) = if i == 2 { ("c".to_string(), Attribute::new("c", v)) } else { (shown(&NM[i]).to_string(), Attribute::new(NM[i], v)) };
        e.set_attribute(a);
        let at = e.attributes();
        if let Some(a) = at.iter().last() {
            let val = value_text(a, &WriteOptions::default());
            put(&mut w, " ");
            q(&mut w, &nm, &val);
        };
    }
    let mut full = vec![b'<'];
    full.extend_from_slice(&w);
    full.push(b'>');
    // content is not printed
    let c = doc.create_node(NodeType::Text, "x");
    e.append(c);
    t.append(e.clone());
    let got = format!("{}", e);
    check(got.as_bytes() == &full[..], "an element is printed as its start tag: id and attributes in order");
    {
        let at = e.attributes();
        let skip = 1 + name.len() + if id.is_empty() { 0 } else { 6 + id.len() } + (k > 0) as usize;
        check(format!("{}", *at).as_bytes() == &full[skip..full.len() - 1], "attributes are printed in order");
    }
    // who uses it
    let mut dbg = b"Element(".to_vec();
    dbg.extend_from_slice(&w);
    let u = choose(uses + 1);
    if u > 0 && !id.is_empty() && !e.attributes().iter().any(|a| a.is_link_container()) {
        put(&mut dbg, "; linked-nodes:");
        for i in 0..u {
            let mut x = doc.create_element(ElementId::Use);
            let s: &[u8] = [&b"u"[..], &b"v"[..], &b""[..]][if i == 0 { choose(3) } else { 1 }];
            x.set_id(into_string(s.to_vec()));
            assume(s[..] != id[..]);
            let twice = 1 + choose(2);
            for k in 0..twice {
                x.set_attribute(([AttributeId::Href, AttributeId::Fill][k], e.clone()));
                put(&mut dbg, " '");
                dbg.extend_from_slice(s);
                put(&mut dbg, "'");
            }
        }
        reach("used");
    }
    dbg.push(b')');
    check(format!("{:?}", e).as_bytes() == &dbg[..], "the debug form also lists the ids of the elements that link to it");
    note(got.as_bytes());
}
harness!(c23_q, { print(2, 1) });
harness!(c23_t, { print(3, 2) });
harness!(c23_other, {
    let mut doc = Document::new();
    check(format!("{}", doc.root()).is_empty(), "the root is printed as nothing");
    check(format!("{:?}", doc.root()) == "Root()", "debug form of the root");
    let t = word(3);
    let s = into_string(t.clone());
    let c = doc.create_node(NodeType::Comment, s.as_str());
    let x = doc.create_node(NodeType::Text, s.as_str());
    let mut w = b"<!--".to_vec();
    w.extend_from_slice(&t);
    put(&mut w, "-->");
    check(format!("{}", c).as_bytes() == &w[..], "a comment is printed as a comment");
    check(format!("{}", x).as_bytes() == &t[..], "a text is printed as it is");
    let mut w = b"Comment(".to_vec();
    w.extend_from_slice(&t);
    w.push(b')');
    check(format!("{:?}", c).as_bytes() == &w[..], "debug form of a comment");
    let mut w = b"Text(".to_vec();
    w.extend_from_slice(&t);
    w.push(b')');
    check(format!("{:?}", x).as_bytes() == &w[..], "debug form of a text");
    note(&t);
});
// the document is printed as it is written by default
harness!(c23_doc, {
    let mut doc = Document::new();
    let mut p = doc.root();
    let mut h = vec![p.clone()];
    for i in 0..3 {
        let k = choose(5);
        let mut n = match k {
            0 => doc.create_element(ElementId::Svg),
            1 => doc.create_element(ElementId::Text),
            2 => doc.create_element("c"),
            3 => doc.create_node(NodeType::Comment, "n"),
            _ => doc.create_node(NodeType::Text, "t"),
        };
        if k < 3 {
            n.set_id(format!("i{}", i));
            n.set_attribute((AttributeId::X, 0.5));
        }
        p = h[choose(h.len())].clone();
        assume(p.is_root() || p.is_element());
        assume(k != 4 || p.is_element());
        p.append(n.clone());
        h.push(n);
    }
    let w = doc.to_string_with_opt(&WriteOptions::default());
    check(doc.to_string() == w, "a document is printed as it is written with the default options");
    check(format!("{}", doc) == w, "a document is printed as it is written with the default options");
    note(w.as_bytes());
});

// many attributes, many users
fn print_big(n: usize) {
    let mut doc = Document::new();
    let mut e = doc.create_element(ElementId::Rect);
    e.set_id("e");
    let k = n - choose(2);
    let mut w = b"rect id='e'".to_vec();
    for i in 0..k {
        let s = format!("a{}", i);
        e.set_attribute((s.as_str(), "v"));
        w.push(b' ');
        q(&mut w, &s, b"v");
    }
    let mut full = vec![b'<'];
    full.extend_from_slice(&w);
    full.push(b'>');
    check(format!("{}", e).as_bytes() == &full[..], "an element is printed as its start tag: id and attributes in order");
    let mut dbg = b"Element(".to_vec();
    dbg.extend_from_slice(&w);
    put(&mut dbg, "; linked-nodes:");
    let u = n - choose(2);
    let mut keep = Vec::new();
    for i in 0..u {
        let mut x = doc.create_element(ElementId::Use);
        x.set_id(format!("u{}", i));
        x.set_attribute((AttributeId::Href, e.clone()));
        put(&mut dbg, " 'u");
        put(&mut dbg, &i.to_string());
        dbg.push(b'\'');
        keep.push(x);
    }
    dbg.push(b')');
    check(format!("{:?}", e).as_bytes() == &dbg[..], "the debug form also lists the ids of the elements that link to it");
    note(&[k as u8]);
}
harness!(c23_big, { print_big(20 + choose(60)) });
harness!(c23_far, { print_big([128, 129, 256, 257, 300][choose(5)]) });
// long texts, ids, names and values
harness!(c23_long, {
    let n = [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1024, 1025, 4097][choose(18)];
    let c = ascii();
    let p = [0, n / 2, n - 1][choose(3)];
    let mut v = vec![b'a'; n];
    v[p] = c;
    let s = into_string(v.clone());
    let mut doc = Document::new();
    let mut w;
    let x = match choose(5) {
        0 => {
            w = b"<!--".to_vec();
            w.extend_from_slice(&v);
            put(&mut w, "-->");
            doc.create_node(NodeType::Comment, s)
        }
        1 => {
            w = v;
            doc.create_node(NodeType::Text, s)
        }
        2 => {
            w = b"<rect id='".to_vec();
            w.extend_from_slice(&v);
            put(&mut w, "'>");
            let mut x = doc.create_element(ElementId::Rect);
            x.set_id(s);
            x
        }
        3 => {
            w = b"<rect ".to_vec();
            w.extend_from_slice(&v);
            put(&mut w, "='v'>");
            let mut x = doc.create_element(ElementId::Rect);
            x.set_attribute((s.as_str(), "v"));
            x
        }
        _ => {
            w = b"<rect x='".to_vec();
            w.extend_from_slice(&v);
            put(&mut w, "'>");
            let mut x = doc.create_element(ElementId::Rect);
            x.set_attribute((AttributeId::X, s));
            x
        }
    };
    check(format!("{}", x).as_bytes() == &w[..], "a long text is printed as it is");
    note(&[c]);
});

// ------------------------------------------------------------------ C24

fn stored(n: &mut Node, kind: usize, a: Attribute, want: &AttributeValue) {
    // the ways to give it
    match kind {
        0 => n.set_attribute(a),
        1 => n.set_attribute_if_none(a),
        _ => check(n.set_attribute_checked(a).is_ok(), "a plain value is accepted"),
    }
    let at = n.attributes();
    check(at.len() == 1, "one attribute");
    check(at.iter().next().map(|a| &a.value) == Some(want), "the value is stored as it was given");
}
macro_rules! conv {
    ($doc:expr, $how:expr, $cust:expr, $x:expr, $p:pat => $c:expr) => {{
        let x = $x;
        let v = AttributeValue::from(x.clone());
        check(match v { $p => $c, _ => false }, "a value is converted into the kind that belongs to its type, unchanged");
        let mut n = $doc.create_element(ElementId::Rect);
        let a: Attribute = if $cust { Attribute::from(("cust", x.clone())) } else { Attribute::from((AttributeId::Width, x.clone())) };
        check(a.value == v, "a pair makes an attribute with that value");
        check(a.is_svg() != $cust && a.id() == if $cust { None } else { Some(AttributeId::Width) }, "a pair makes an attribute with that name");
        check(a.has_id(AttributeId::Width) != $cust && !a.has_id(AttributeId::Height), "has_id()");
        check(a.name == if $cust { QName::Name("cust".to_string()) } else { QName::Id(AttributeId::Width) }, "the name is kept");
        let b = if $cust { Attribute::new("cust", x) } else { Attribute::new(AttributeId::Width, x) };
        check(a == b, "both ways to make an attribute are the same");
        stored(&mut n, $how, b, &v);
    }};
}
const UNITS: [LengthUnit; 10] = [
    LengthUnit::None, LengthUnit::Em, LengthUnit::Ex, LengthUnit::Px, LengthUnit::In, LengthUnit::Cm, LengthUnit::Mm, LengthUnit::Pt, LengthUnit::Pc, LengthUnit::Percent,
];
const F: [f64; 8] = [0.0, -0.0, 1.0, -1.5, 0.1, 1e300, -1e-300, 123456789.125];
const I: [i32; 7] = [0, 1, -1, 255, -1000, i32::max_value(), i32::min_value()];
harness!(c24_val, {
    let mut doc = Document::new();
    let how = choose(3);
    let cust = choose(2) == 1;
    match choose(16) {
        0 => {
            let x = F[choose(8)];
            conv!(doc, how, cust, x, AttributeValue::Number(y) => y.to_bits() == x.to_bits())
        }
        1 => {
            let x = I[choose(7)];
            conv!(doc, how, cust, x, AttributeValue::Number(y) => y == x as f64)
        }
        2 => {
            let w = word(2);
            let s = into_string(w.clone());
            conv!(doc, how, cust, s.as_str(), AttributeValue::String(ref y) => y.as_bytes() == &w[..])
        }
        3 => {
            let w = word(2);
            let s = into_string(w.clone());
            conv!(doc, how, cust, s, AttributeValue::String(ref y) => y.as_bytes() == &w[..])
        }
        4 => {
            let (r, g, b) = (byte(), byte(), byte());
            conv!(doc, how, cust, Color::new(r, g, b), AttributeValue::Color(y) => y.red == r && y.green == g && y.blue == b)
        }
        5 => {
            let (x, u) = (F[choose(8)], UNITS[choose(10)]);
            conv!(doc, how, cust, (x, u), AttributeValue::Length(y) => y.num.to_bits() == x.to_bits() && y.unit == u)
        }
        6 => {
            let (x, u) = (I[choose(7)], UNITS[choose(10)]);
            conv!(doc, how, cust, (x, u), AttributeValue::Length(y) => y.num == x as f64 && y.unit == u)
        }
        7 => {
            let (x, u) = (F[choose(8)], UNITS[choose(10)]);
            conv!(doc, how, cust, Length::new(x, u), AttributeValue::Length(y) => y.num.to_bits() == x.to_bits() && y.unit == u)
        }
        8 => {
            let k = choose(4);
            let l: Vec<f64> = F[..k].to_vec();
            conv!(doc, how, cust, NumberList(l.clone()), AttributeValue::NumberList(ref y) => y.0 == l)
        }
        9 => {
            let k = choose(4);
            let l: Vec<Length> = (0..k).map(|i| Length::new(F[i + 2], UNITS[i])).collect();
            conv!(doc, how, cust, LengthList(l.clone()), AttributeValue::LengthList(ref y) => y.0 == l)
        }
        10 => {
            let a = Angle::new(F[choose(8)], [AngleUnit::Degrees, AngleUnit::Gradians, AngleUnit::Radians][choose(3)]);
            conv!(doc, how, cust, a, AttributeValue::Angle(y) => y == a)
        }
        11 => {
            let t = [Transform::default(), Transform::new(1.0, 2.0, 3.0, 4.0, 5.0, 6.0)][choose(2)];
            conv!(doc, how, cust, t, AttributeValue::Transform(y) => y.a == t.a && y.b == t.b && y.c == t.c && y.d == t.d && y.e == t.e && y.f == t.f)
        }
        12 => {
            let b = ViewBox::new(F[choose(8)], 2.0, 3.0, 4.0);
            conv!(doc, how, cust, b, AttributeValue::ViewBox(y) => y == b)
        }
        13 => {
            let k = choose(3);
            let l: Vec<(f64, f64)> = (0..k).map(|i| (F[i + 2], F[i + 3])).collect();
            conv!(doc, how, cust, Points(l.clone()), AttributeValue::Points(ref y) => y.0 == l)
        }
        14 => {
            let p = Path(vec![PathSegment::MoveTo { abs: choose(2) == 1, x: 1.0, y: 2.0 }]);
            conv!(doc, how, cust, p.clone(), AttributeValue::Path(ref y) => *y == p)
        }
        _ => {
            let r = AspectRatio { defer: choose(2) == 1, align: [Align::None, Align::XMidYMid, Align::XMaxYMin][choose(3)], slice: choose(2) == 1 };
            conv!(doc, how, cust, r, AttributeValue::AspectRatio(y) => y == r)
        }
    }
    reach("converted");
    note(&[how as u8]);
});
// fallbacks become values; links are made out of nodes
harness!(c24_link, {
    let mut doc = Document::new();
    let t = target(&mut doc);
    let fb = [PaintFallback::None, PaintFallback::CurrentColor, PaintFallback::Color(Color::new(1, byte(), 3))][choose(3)];
    let v = AttributeValue::from(fb);
    check(
        match (fb, v) {
            (PaintFallback::None, AttributeValue::None) => true,
            (PaintFallback::CurrentColor, AttributeValue::CurrentColor) => true,
            (PaintFallback::Color(a), AttributeValue::Color(b)) => a == b,
            _ => false,
        },
        "a fallback is a value",
    );
    let a = &ATTRS[index(ATTRS.len())];
    let with = choose(3);
    let x: Attribute = match with {
        0 => Attribute::from((a.id, t.clone())),
        1 => Attribute::from((a.id, (t.clone(), None))),
        _ => Attribute::from((a.id, (t.clone(), Some(fb)))),
    };
    check(x.id() == Some(a.id), "the name is kept");
    let paint = a.id == AttributeId::Fill || a.id == AttributeId::Stroke;
    let f = if with == 2 { Some(fb) } else { None };
    let mut e = doc.create_element(ElementId::Rect);
    e.set_attribute(x);
    let at = e.attributes();
    let want = if a.id == AttributeId::Href {
        AttributeValue::Link(t.clone())
    } else if paint {
        AttributeValue::Paint(t.clone(), f)
    } else {
        AttributeValue::FuncLink(t.clone())
    };
    check(at.get_value(a.id) == Some(&want), "a node becomes the link that belongs to the attribute");
    if paint {
        reach("paint");
    }
    note(a.name.as_bytes());
});
// any name, any value: what comes back
fn custom(k: usize) {
    let mut doc = Document::new();
    let mut e = doc.create_element(ElementId::Rect);
    let mut v = Vec::with_capacity(4);
    for _ in 0..k {
        v.push(ascii());
    }
    let s = into_string(v);
    let mut w = word(2);
    e.set_attribute((s.as_str(), into_string(w.clone()).as_str()));
    check(e.has_attribute(s.as_str()), "the name is kept");
    for a in ATTRS.iter() {
        check(!e.has_attribute(a.id), "a custom name is no SVG one");
    }
    let got = e.attributes().get_value(s.as_str()).cloned();
    check(got == Some(AttributeValue::String(into_string(w.clone()))), "the value is kept");
    w.push(b'x');
    e.set_attribute((s.as_str(), into_string(w.clone())));
    let got = e.attributes().get_value(s.as_str()).cloned();
    check(got == Some(AttributeValue::String(into_string(w))), "the value is kept");
    check(e.attributes().len() == 1, "one attribute");
    note(s.as_bytes());
}
harness!(c24_cust, { custom(1 + choose(3)) });
