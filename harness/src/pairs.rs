//! Every element with every attribute, every kind of content, every place in a text.
use super::cascade::put;
use super::parseh::OPEN;
use super::sym::*;
use super::tables::*;
use super::texth::*;
use super::values::*;
use super::writeh::*;
use svgdom::*;

fn pair() -> (&'static E, &'static A) {
    let e = &ELEMS[index(ELEMS.len())];
    let a = &ATTRS[index(ATTRS.len())];
    assume(e.id != ElementId::Style && a.name != "xmlns");
    (e, a)
}

/// Every attribute on every element.
harness!(c15_ea, {
    let t = choose(4);
    let (e, a) = pair();
    attr_case(a, &(e.id, e.name), ["0.5", "inherit", "url(#t)", "#t"][t].as_bytes());
});
/// The same from the style attribute and from a style sheet.
harness!(c12_ea, {
    let src = 1 + choose(2);
    let (e, a) = pair();
    // applied to all elements
    assume(!(src == 2 && a.name == "marker"));
    css_case_on(a, e.id, e.name, src, "inherit");
});
fn written() {
    let (e, a) = pair();
    assume(e.id != ElementId::Svg);
    if let Some(d) = doc_with(a, e.name, 0, b"1") {
        finish_with(&d, choose(2) * 3);
    }
}
/// Written and read again.
harness!(c16_ea, {
    mode(1);
    written()
});
harness!(c17_ea, {
    mode(2);
    written()
});

/// Set, replaced and removed.
harness!(c07_ea, {
    let (e, a) = pair();
    let mut doc = Document::new();
    let mut n = doc.create_element(e.id);
    n.set_attribute(("z", "0"));
    n.set_attribute((a.id, "1"));
    check(n.attributes().len() == 2 && n.attributes().get_value(a.id) == Some(&AttributeValue::from("1")), "an attribute is stored");
    n.set_attribute_if_none((a.id, "3"));
    check(n.attributes().get_value(a.id) == Some(&AttributeValue::from("1")), "an existing value stays");
    n.set_attribute((a.id, 2.0));
    check(n.attributes().len() == 2 && n.attributes().get_value(a.id) == Some(&AttributeValue::from(2.0)), "a lookup yields the last value");
    n.remove_attribute(a.id);
    check(!n.has_attribute(a.id) && n.attributes().len() == 1 && n.has_attribute("z"), "removing affects the named attribute only");
    n.set_attribute_if_none((a.id, "3"));
    check(n.attributes().get_value(a.id) == Some(&AttributeValue::from("3")), "a missing value is stored");
});

/// Every element with every content.
fn content(n: usize, dup: bool) {
    let e = &ELEMS[index(ELEMS.len())];
    assume(e.id != ElementId::Style);
    let mut doc = Document::new();
    let mut svg = doc.create_element(ElementId::Svg);
    doc.root().append(svg.clone());
    let mut x = doc.create_element(e.id);
    svg.append(x.clone());
    let mut text = false;
    let mut last = false;
    for _ in 0..choose(n + 1) {
        let k = choose(5);
        // two texts in a row become one
        assume(!(k == 1 && last));
        last = k == 1;
        text |= last;
        let c = match k {
            0 => doc.create_node(NodeType::Comment, "c"),
            1 => doc.create_node(NodeType::Text, "t"),
            2 => doc.create_element(ElementId::Rect),
            3 => {
                let mut t = doc.create_element(ElementId::Tspan);
                t.append(doc.create_node(NodeType::Comment, "d"));
                t
            }
            _ => {
                assume(dup);
                let mut t = doc.create_element(e.id);
                t.append(doc.create_node(NodeType::Text, "u"));
                t
            }
        };
        text |= k == 4;
        x.append(c);
    }
    svg.append(doc.create_element(ElementId::G));
    finish(&doc, text);
}
harness!(c16_cont, {
    mode(1);
    content(2, true)
});
harness!(c17_cont, {
    mode(2);
    content(2, true)
});

/// Every element inside of a text, with white space anywhere.
fn inline(spaces: u8) {
    let e = &ELEMS[index(ELEMS.len())];
    assume(e.id != ElementId::Style);
    let mut v = Vec::with_capacity(300);
    put(&mut v, "<svg xmlns='http://www.w3.org/2000/svg'><g><text");
    put(&mut v, if spaces == 1 { " xml:space='preserve'>" } else { ">" });
    let mut pieces = Vec::with_capacity(3);
    let mut skel = Vec::with_capacity(10);
    for i in 0..3 {
        if i == 1 {
            put(&mut v, "<");
            put(&mut v, e.name);
            put(&mut v, ">");
            skel.push(1);
        }
        let t = ["a", " a", "a ", " "][choose(4)];
        put(&mut v, t);
        if t.len() != 1 || t == "a" {
            skel.push(b'a');
        }
        pieces.push(Piece { text: t.as_bytes().to_vec(), keep: spaces == 1 });
        if i == 1 {
            put(&mut v, "</");
            put(&mut v, e.name);
            put(&mut v, ">");
            skel.push(2);
        }
    }
    put(&mut v, "</text></g></svg>");
    if let Some(doc) = super::cascade::parse_ok(v) {
        check_text(&doc, spaces, &skel, &[false, false, spaces == 1, false], &pieces);
    }
}
harness!(c14_any, { inline(0) });
harness!(c14_anyp, { inline(1) });

/// A text inside of every other element.
harness!(c14_out, {
    let e = &ELEMS[index(ELEMS.len())];
    assume(e.id != ElementId::Style && e.id != ElementId::Svg);
    let keep = choose(3);
    let mut v = Vec::with_capacity(300);
    v.extend_from_slice(OPEN);
    put(&mut v, "<");
    put(&mut v, e.name);
    put(&mut v, ["", " xml:space='preserve'", " xml:space='default'"][keep]);
    put(&mut v, "><text> a  b</text></");
    put(&mut v, e.name);
    put(&mut v, "><text> c  d</text></svg>");
    if let Some(doc) = super::cascade::parse_ok(v) {
        let mut it = doc.root().descendants().filter(|n| n.is_text());
        match (it.next(), it.next(), it.next()) {
            (Some(x), Some(y), None) => {
                check(*x.text() == if keep == 1 { " a  b" } else { "a b" }, "xml:space is inherited from every element");
                check(*y.text() == "c d", "xml:space of other elements has no effect");
            }
            _ => fail("texts are kept"),
        }
        for n in doc.root().descendants().filter(|n| n.is_element()) {
            check(n.has_attribute(AttributeId::Space) == (keep > 0 && n.has_tag_name(e.id) && n.parent().map_or(false, |p| p.has_tag_name(ElementId::Svg) && !p.parent().map_or(false, |q| q.is_element())) && n.first_child().map_or(false, |c| c.has_tag_name(ElementId::Text))), "xml:space stays exactly where it was set");
        }
    }
});

/// Long values, ids and texts with an arbitrary character anywhere.
fn long_at(text: bool) {
    let n = [17, 33, 65, 129, 258][choose(5)];
    let p = [0, 1, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256][choose(12)];
    assume(p < n);
    let mut t = vec![b'x'; n];
    let c = byte();
    assume((c >= b' ') & (c < 0x7f) | (c == b'\t') | (c == b'\n'));
    t[p] = c;
    // another one at the end
    let q = choose(4);
    assume(!(text && q > 0));
    if q > 0 {
        t[n - 1] = [b'<', b'&', b'\''][q - 1];
        assume(p < n - 1);
    }
    // a text is written and read by xmlwriter and roxmltree
    assume(!(text && (c == b'&' || c == b'<' || c == b']' || c == b'>' || c == b'\t' || c == b'\n' || c == b' ')));
    let t = into_string(t);
    let mut doc = Document::new();
    let mut svg = doc.create_element(ElementId::Svg);
    doc.root().append(svg.clone());
    let mut e = doc.create_element(ElementId::Text);
    svg.append(e.clone());
    if text {
        e.append(doc.create_node(NodeType::Text, t));
    } else {
        // trimmed when read
        assume((p > 0 && p + 1 < n) || c > b' ');
        match choose(3) {
            0 => {
                // references cannot name every id
                e.set_id(t);
            }
            1 => e.set_attribute((AttributeId::FontFamily, t)),
            _ => {
                assume(get_mode() == 2);
                e.set_attribute(("custom", t));
            }
        }
    }
    finish(&doc, false);
}
harness!(c16_long, {
    mode(1);
    long_at(false)
});
harness!(c17_long, {
    mode(2);
    long_at(false)
});
harness!(c16_longt, {
    mode(1);
    long_at(true)
});

/// Back-references when the nodes have no ids, or the same.
fn nameless(ops: usize) {
    let mut doc = Document::new();
    let mut t = doc.create_element(ElementId::Rect);
    t.set_id("t");
    let mut u = doc.create_element(ElementId::Rect);
    u.set_id(["u", "t"][choose(2)]);
    let mut s: Vec<Node> = Vec::with_capacity(3);
    let id = ["", "s"][choose(2)];
    for _ in 0..3 {
        let mut n = doc.create_element(ElementId::Use);
        n.set_id(id);
        s.push(n);
    }
    // 0 - nothing, 1 - linked to t, 2 - linked to u
    let mut m = [[0u8; 2]; 3];
    for _ in 0..ops {
        let i = choose(3);
        let k = choose(2);
        let nm = [AttributeId::Href, AttributeId::Mask][k];
        let op = choose(3) as u8;
        match op {
            0 => s[i].remove_attribute(nm),
            1 => s[i].set_attribute((nm, t.clone())),
            _ => s[i].set_attribute((nm, u.clone())),
        }
        m[i][k] = op;
        for (x, c) in [(&t, 1), (&u, 2)].iter() {
            let l = x.linked_nodes();
            let mut sum = 0;
            for i in 0..3 {
                let want = m[i].iter().filter(|v| **v == *c as u8).count();
                check(l.iter().filter(|n| **n == s[i]).count() == want, "a node is listed once per link attribute it holds");
                sum += want;
            }
            check(l.len() == sum && x.uses_count() == sum, "no other back-references");
        }
        for i in 0..3 {
            for k in 0..2 {
                let nm = [AttributeId::Href, AttributeId::Mask][k];
                let at = s[i].attributes();
                let got = match at.get_value(nm) {
                    None => 0,
                    Some(AttributeValue::Link(n)) | Some(AttributeValue::FuncLink(n)) => if *n == t { 1 } else if *n == u { 2 } else { 9 },
                    _ => 9,
                };
                check(got == m[i][k], "every attribute has the value that was set");
            }
        }
    }
}
harness!(c04_ids, { nameless(3) });
harness!(c04_idst, { nameless(4) });

/// Every kind of value under an SVG and a custom name.
harness!(c17_typed, {
    let mut doc = Document::new();
    let mut svg = doc.create_element(ElementId::Svg);
    doc.root().append(svg.clone());
    let mut t = doc.create_element(ElementId::G);
    t.set_id("t");
    let mut e = doc.create_element(ElementId::Rect);
    svg.append(e.clone());
    svg.append(t.clone());
    let x = match choose(18) {
        0 => AttributeValue::None,
        1 => AttributeValue::Inherit,
        2 => AttributeValue::CurrentColor,
        3 => AttributeValue::Color(Color::new(0x11, 0xaa, 0xff)),
        4 => AttributeValue::Number(-0.5),
        5 => AttributeValue::NumberList(NumberList(vec![0.5, 1.0])),
        6 => AttributeValue::Length(Length::new(0.5, LengthUnit::Mm)),
        7 => AttributeValue::LengthList(LengthList(vec![Length::new(0.5, LengthUnit::Percent), Length::new(2.0, LengthUnit::None)])),
        8 => AttributeValue::Angle(Angle::new(0.5, AngleUnit::Degrees)),
        9 => AttributeValue::Transform(Transform::new(1.0, 0.0, 0.0, 1.0, 10.0, 20.0)),
        10 => AttributeValue::Points(Points(vec![(0.5, 1.0), (2.0, -3.0)])),
        11 => AttributeValue::ViewBox(ViewBox::new(0.0, 0.5, 10.0, 20.0)),
        12 => AttributeValue::String("a&b".to_string()),
        13 => AttributeValue::Link(t.clone()),
        14 => AttributeValue::FuncLink(t.clone()),
        15 => AttributeValue::Paint(t.clone(), Some(PaintFallback::Color(Color::new(0x11, 0x22, 0x33)))),
        16 => AttributeValue::AspectRatio(AspectRatio { defer: true, align: Align::XMidYMid, slice: true }),
        _ => {
            let mut p = Path::new();
            p.push(PathSegment::MoveTo { abs: true, x: 0.5, y: -1.0 });
            p.push(PathSegment::EllipticalArc { abs: false, rx: 1.0, ry: 2.0, x_axis_rotation: 0.0, large_arc: true, sweep: false, x: 3.0, y: 4.0 });
            p.push(PathSegment::LineTo { abs: true, x: 3.0, y: 4.0 });
            p.push(PathSegment::LineTo { abs: true, x: 5.0, y: 4.0 });
            AttributeValue::Path(p)
        }
    };
    match choose(4) {
        0 => e.set_attribute(("custom", x)),
        1 => e.set_attribute((AttributeId::Fill, x)),
        2 => e.set_attribute((AttributeId::Href, x)),
        _ => {
            e.set_attribute(("custom", x.clone()));
            e.set_attribute(("d", x));
        }
    }
    mode(2);
    finish(&doc, false);
});

/// Every link attribute on every element, before and after its target.
harness!(c13_ea, {
    let after = choose(2) == 0;
    let (e, a) = pair();
    assume(e.id != ElementId::Svg);
    assume(match a.kind {
        Kind::Fill | Kind::Stroke | Kind::Func | Kind::Href => true,
        _ => false,
    });
    let mut v = Vec::with_capacity(300);
    v.extend_from_slice(OPEN);
    if !after {
        put(&mut v, "<g id='t'/>");
    }
    put(&mut v, "<");
    put(&mut v, e.name);
    put(&mut v, if a.kind == Kind::Href { " xlink:" } else { " " });
    put(&mut v, a.name);
    let text = if a.kind == Kind::Href { "#t" } else { "url(#t)" };
    put(&mut v, "='");
    put(&mut v, text);
    put(&mut v, "'/>");
    if after {
        put(&mut v, "<g id='t'/>");
    }
    put(&mut v, "</svg>");
    let doc = match super::cascade::parse_ok(v) {
        Some(d) => d,
        None => return,
    };
    let svg = match doc.svg_element() {
        Some(s) => s,
        None => return fail("all elements are kept"),
    };
    let (n, t) = match (svg.first_child(), svg.last_child()) {
        (Some(a), Some(b)) => if after { (a, b) } else { (b, a) },
        _ => return fail("all elements are kept"),
    };
    let want = resolved(a, expect(a.kind, e.id, text), &t);
    let at = n.attributes();
    check(at.len() == 1 && at.get_value(a.id) == want.as_ref(), "a reference on any element is resolved");
    let link = match want {
        Some(AttributeValue::String(_)) => 0,
        _ => 1,
    };
    check(t.uses_count() == link, "the target knows who refers to it");
});

/// What stands between two siblings.
harness!(c12_sib, {
    let mut v = Vec::with_capacity(400);
    put(&mut v, "<svg xmlns='http://www.w3.org/2000/svg' xmlns:z='urn:z'>");
    let host = choose(4);
    put(&mut v, ["<g>", "<a>", "<a><text>", "<g><g>"][host]);
    let mut prev = 0; // 1 - an a element, 2 - another one
    for _ in 0..2 {
        let k = choose(9);
        put(&mut v, ["", "<!--c-->", "t", "<?p x?>", "<a/>", "<g/>", "<z:b/>", "<foo/>", "<z:a/>"][k]);
        match k {
            4 | 8 => prev = 1,
            5 | 6 | 7 => prev = 2,
            _ => {}
        }
    }
    put(&mut v, "<rect id='r'/>");
    put(&mut v, ["", "<a/>", "<z:b/>"][choose(3)]);
    put(&mut v, ["</g>", "</a>", "</text></a>", "</g></g>"][host]);
    let rule = choose(9);
    put(&mut v, "<style>");
    put(&mut v, ["a + rect", "rect:first-child", "* + rect", "* > rect:first-child", "foo + rect", "g > rect", "a > rect", "a rect", "g > g > rect"][rule]);
    put(&mut v, "{stroke-width:3}</style></svg>");
    let foo = {
        // the nearest element before it
        let s = into_string(v.clone());
        let cut = s.find("<rect id").map_or(0, |i| i);
        s[..cut].ends_with("<foo/>") || s[..cut].ends_with("<foo/><!--c-->") || s[..cut].ends_with("<foo/>t") || s[..cut].ends_with("<foo/><?p x?>")
    };
    let want = match rule {
        0 => prev == 1,
        1 | 3 => prev == 0,
        2 => prev > 0,
        4 => foo,
        5 => host == 0 || host == 3,
        6 => host == 1,
        7 => host == 1 || host == 2,
        _ => host == 3,
    };
    let doc = match super::cascade::parse_ok(v) {
        Some(d) => d,
        None => return,
    };
    for n in doc.root().descendants().filter(|n| n.is_element()) {
        if n.has_tag_name(ElementId::Rect) {
            check(n.has_attribute(AttributeId::StrokeWidth) == want, "a rule applies to exactly the elements it matches");
        } else {
            check(n.attributes().is_empty(), "a rule applies to exactly the elements it matches");
        }
    }
    reach(if want { "styled" } else { "unstyled" });
});

/// One arbitrary character of 2 (3, 4) bytes.
fn wide(v: &mut Vec<u8>, n: usize) {
    let k = choose(n);
    let (a, b) = (byte(), byte());
    assume((b >= 0x80) & (b < 0xc0));
    if k == 0 {
        assume((a >= 0xc2) & (a < 0xe0));
        v.push(a);
        v.push(b);
        return;
    }
    let c = byte();
    assume((c >= 0x80) & (c < 0xc0));
    if k == 1 {
        assume((a >= 0xe0) & (a < 0xf0));
        assume((a != 0xe0) | (b >= 0xa0));
        assume((a != 0xed) | (b < 0xa0));
        // U+FFFE and U+FFFF are no characters of XML
        assume(!((a == 0xef) & (b == 0xbf) & (c >= 0xbe)));
        v.push(a);
        v.push(b);
        v.push(c);
        return;
    }
    let d = byte();
    assume((d >= 0x80) & (d < 0xc0));
    assume((a >= 0xf0) & (a < 0xf5));
    assume((a != 0xf0) | (b >= 0x90));
    assume((a != 0xf4) | (b < 0x90));
    v.push(a);
    v.push(b);
    v.push(c);
    v.push(d);
}
/// Characters with a meaning somewhere.
const SPECIAL: [&str; 16] = [
    "\u{feff}", "\u{2028}", "\u{2029}", "\u{200b}", "\u{200d}", "\u{202e}", "\u{fffd}", "\u{e000}", "\u{3000}", "\u{2003}", "\u{1680}", "\u{fdd0}", "\u{1f600}", "\u{10ffff}",
    "\u{10000}", "\u{e0001}",
];
/// Texts, comments, ids and values with one arbitrary character.
fn kept_char(all: bool) {
    let mut w = Vec::with_capacity(10);
    let place = choose(5);
    let k = choose(4);
    if k & 1 == 1 {
        w.push(b'a');
    }
    if all {
        // comments are checked character by character
        wide(&mut w, if place == 2 { 1 } else { 3 });
    } else {
        put(&mut w, SPECIAL[choose(SPECIAL.len())]);
    }
    if k > 1 {
        w.push(b'b');
    }
    let mut v = Vec::with_capacity(300);
    v.extend_from_slice(OPEN);
    put(&mut v, ["<text>", "<desc>", "<g><!--", "<g id='", "<g font-family='"][place]);
    v.extend_from_slice(&w);
    put(&mut v, ["</text>", "</desc>", "--></g>", "'/>", "'/>"][place]);
    put(&mut v, "</svg>");
    let doc = match super::cascade::parse_ok(v) {
        Some(d) => d,
        None => return,
    };
    let e = match doc.svg_element().and_then(|s| s.first_child()) {
        Some(e) => e,
        None => return fail("all elements are kept"),
    };
    match place {
        0 | 1 | 2 => match e.first_child() {
            Some(t) => check(t.text().as_bytes() == &w[..], "texts are kept as they are"),
            None => fail("texts are kept"),
        },
        3 => check(e.id().as_bytes() == &w[..], "ids are kept as they are"),
        _ => match e.attributes().get_value(AttributeId::FontFamily) {
            Some(AttributeValue::String(s)) => check(s.as_bytes() == &w[..], "values are kept as they are"),
            _ => fail("values are kept as they are"),
        },
    }
}

harness!(c11_spec, { kept_char(false) });
harness!(c11_wide, { kept_char(true) });

/// Only white space of XML is changed.
harness!(c14_wide, {
    let keep = choose(2) == 1;
    let mut v = Vec::with_capacity(300);
    v.extend_from_slice(OPEN);
    put(&mut v, if keep { "<text xml:space='preserve'>" } else { "<text>" });
    let mut w = Vec::with_capacity(30);
    let (a, b) = ([" ", "", "a", "a  "][choose(4)], ["  ", "", "b", " b"][choose(4)]);
    put(&mut w, a);
    wide(&mut w, 3);
    put(&mut w, b);
    v.extend_from_slice(&w);
    put(&mut v, "</text></svg>");
    let want = if keep {
        w
    } else {
        let n = w.len() - a.len() - b.len();
        let mut x = Vec::with_capacity(30);
        put(&mut x, ["", "", "a", "a "][[" ", "", "a", "a  "].iter().position(|s| *s == a).map_or(0, |i| i)]);
        x.extend_from_slice(&w[a.len()..a.len() + n]);
        put(&mut x, ["", "", "b", " b"][["  ", "", "b", " b"].iter().position(|s| *s == b).map_or(0, |i| i)]);
        x
    };
    let doc = match super::cascade::parse_ok(v) {
        Some(d) => d,
        None => return,
    };
    let mut n = 0;
    for t in doc.root().descendants().filter(|n| n.is_text()) {
        check(t.text().as_bytes() == &want[..], "only white space is changed");
        n += 1;
    }
    check(n == 1, "the text is one node");
    reach(if keep { "preserve" } else { "default" });
});

/// Ids of any characters.
harness!(c13_wide, {
    let mut w = Vec::with_capacity(10);
    if choose(2) == 1 {
        w.push(b'a');
    }
    wide(&mut w, 3);
    let k = choose(3);
    let near = choose(2) == 1;
    let mut v = Vec::with_capacity(300);
    v.extend_from_slice(OPEN);
    put(&mut v, "<g id='");
    v.extend_from_slice(&w);
    put(&mut v, "'/><rect ");
    put(&mut v, ["xlink:href='#", "fill='url(#", "mask='url(#"][k]);
    v.extend_from_slice(&w);
    if near {
        put(&mut v, "b");
    }
    put(&mut v, ["'/>", ")'/>", ")'/>"][k]);
    put(&mut v, "</svg>");
    let doc = match super::cascade::parse_ok(v) {
        Some(d) => d,
        None => return,
    };
    let svg = match doc.svg_element() {
        Some(s) => s,
        None => return fail("all elements are kept"),
    };
    match (svg.first_child(), svg.last_child()) {
        (Some(t), Some(s)) => {
            let at = s.attributes();
            let x = match at.get_value([AttributeId::Href, AttributeId::Fill, AttributeId::Mask][k]) {
                Some(AttributeValue::Link(n)) => k == 0 && *n == t,
                Some(AttributeValue::Paint(n, None)) => k == 1 && *n == t,
                Some(AttributeValue::FuncLink(n)) => k == 2 && *n == t,
                _ => false,
            };
            check(x == !near && t.uses_count() == if near { 0 } else { 1 }, "a reference leads to the element with exactly that id");
        }
        _ => fail("all elements are kept"),
    }
});

/// Any character is written and read again.
fn any_char() {
    let mut w = Vec::with_capacity(10);
    let m = get_mode();
    let k = choose(4);
    if k & 1 == 1 {
        w.push(b'a');
    }
    wide(&mut w, if m == 1 { 2 } else { 3 });
    if k > 1 {
        w.push(b'b');
    }
    let w = into_string(w);
    let mut doc = Document::new();
    let mut svg = doc.create_element(ElementId::Svg);
    doc.root().append(svg.clone());
    let mut e = doc.create_element(ElementId::Text);
    svg.append(e.clone());
    match choose(if m == 1 { 3 } else { 4 }) {
        0 => e.set_id(w),
        1 => e.set_attribute((AttributeId::FontFamily, w)),
        2 => e.append(doc.create_node(NodeType::Text, w)),
        _ => e.append(doc.create_node(NodeType::Comment, w)),
    }
    finish_with(&doc, choose(2) * 3);
}
harness!(c16_wide, {
    mode(1);
    any_char()
});
harness!(c17_wide, {
    mode(2);
    any_char()
});
