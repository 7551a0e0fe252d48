//! Long arbitrary words wherever a text can stand.
use super::cascade::{parse_ok, put};
use super::parseh::{check_parsed, logging, OPEN, PLACES};
use super::sym::*;
use super::tables::*;
use super::texth::*;
use super::writeh::*;
use svgdom::*;

/// A printable character that has no meaning in XML, CSS and references.
fn plain() -> u8 {
    let b = byte();
    assume((b > b' ') & (b < 0x7f) & (b != b'<') & (b != b'>') & (b != b'&') & (b != b'\'') & (b != b'"') & (b != b'=') & (b != b']'));
    b
}
fn plains(n: usize) -> Vec<u8> {
    let mut t = Vec::with_capacity(n);
    for _ in 0..n {
        t.push(plain());
    }
    t
}
fn letters(n: usize) -> Vec<u8> {
    let mut t = Vec::with_capacity(n);
    for i in 0..n {
        let c = byte();
        let l = c | 0x20;
        assume((l >= b'a') & (l <= b'z') & (c < 0x80) | (i > 0) & (c == b'-'));
        t.push(c);
    }
    t
}
fn any(n: usize) -> Vec<u8> {
    let mut t = Vec::with_capacity(n);
    for _ in 0..n {
        let b = byte();
        assume(b < 0x80);
        t.push(b);
    }
    t
}
const LENS: [usize; 8] = [1, 4, 8, 13, 20, 33, 64, 110];
fn len() -> usize {
    LENS[choose(LENS.len())]
}

/// Ids of any length.
harness!(c05_word, {
    let mut doc = Document::new();
    let mut x = doc.create_element(ElementId::Rect);
    let mut y = doc.create_element(ElementId::Rect);
    let (a, b) = (into_string(any(1 + choose(24))), into_string(any(1 + choose(24))));
    x.set_id(a.clone());
    y.set_id(b.clone());
    x.set_attribute((AttributeId::Fill, 1.0));
    let r = x.set_attribute_checked((AttributeId::Fill, y.clone()));
    if a == b {
        match r {
            Err(Error::ElementCrosslink) => {}
            _ => fail("a link between elements with one id is refused"),
        }
        check(y.uses_count() == 0 && x.attributes().get_value(AttributeId::Fill) == Some(&AttributeValue::from(1.0)), "a refused link changes nothing");
        reach("same");
    } else {
        check(r.is_ok() && y.uses_count() == 1, "a valid link is accepted");
        reach("different");
    }
});

/// Custom names of any length.
harness!(c07_word, {
    let mut doc = Document::new();
    let mut e = doc.create_element(ElementId::Rect);
    let (a, b) = (into_string(any(1 + choose(24))), into_string(any(1 + choose(24))));
    e.set_attribute((a.as_str(), "1"));
    e.set_attribute((AttributeId::Fill, "2"));
    e.set_attribute((b.as_str(), "3"));
    let same = a == b;
    {
        let at = e.attributes();
        check(at.len() == if same { 2 } else { 3 }, "each name occurs once");
        check(at.get_value(a.as_str()) == Some(&AttributeValue::from(if same { "3" } else { "1" })), "a lookup yields the last value");
        check(at.get_value(b.as_str()) == Some(&AttributeValue::from("3")), "a lookup yields the last value");
        check(at.get_value(AttributeId::Fill) == Some(&AttributeValue::from("2")), "other attributes are untouched");
    }
    e.set_attribute_if_none((a.as_str(), "4"));
    check(e.attributes().get_value(a.as_str()) != Some(&AttributeValue::from("4")), "an existing value stays");
    e.remove_attribute(b.as_str());
    check(!e.has_attribute(b.as_str()) && e.has_attribute(a.as_str()) == !same && e.has_attribute(AttributeId::Fill), "removing affects the named attribute only");
    reach(if same { "same" } else { "different" });
});

/// Any text at any place.
harness!(c10_word, {
    logging();
    let k = choose(PLACES.len());
    // names and colours are looked up: see c10_tab, c18_*
    assume(match k {
        2 | 7 | 8 | 9 | 10 | 12 | 13 | 19 | 20 => false,
        _ => true,
    });
    let (a, b) = PLACES[k];
    let mut v = Vec::with_capacity(1500);
    v.extend_from_slice(OPEN);
    put(&mut v, a);
    for _ in 0..[1, 5, 12][choose(3)] {
        let c = byte();
        let l = c | 0x20;
        assume((l >= b'a') & (l <= b'z') & (c < 0x80));
        v.push(c);
    }
    put(&mut v, b);
    put(&mut v, "</svg>");
    match Document::from_str(&into_string(v)) {
        Ok(d) => {
            check_parsed(&d);
            reach("ok");
        }
        Err(_) => reach("err"),
    }
});

/// Comments and texts stay what they are.
harness!(c11_word, {
    let w = {
        let mut t = Vec::with_capacity(140);
        for _ in 0..len() {
            let c = plain();
            assume(c != b'-');
            t.push(c);
        }
        t
    };
    let k = choose(5);
    let mut v = Vec::with_capacity(300);
    if k == 0 {
        put(&mut v, "<!--");
        v.extend_from_slice(&w);
        put(&mut v, "-->");
    }
    v.extend_from_slice(OPEN);
    put(&mut v, ["<g/>", "<!--", "<g><!--", "<text><!--", "<desc>"][k]);
    if k > 0 {
        v.extend_from_slice(&w);
    }
    put(&mut v, ["<g/>", "-->", "--></g>", "--></text>", "</desc>"][k]);
    put(&mut v, "<a/></svg>");
    let doc = match parse_ok(v) {
        Some(d) => d,
        None => return,
    };
    let w = into_string(w);
    let mut found = 0;
    for n in doc.root().descendants() {
        if n.is_comment() || n.is_text() {
            check(n.is_comment() == (k < 4) && *n.text() == w, "comments and texts are kept as they are");
            found += 1;
        }
    }
    check(found == 1, "comments and texts are kept");
    note(&[k as u8]);
});

/// A style sheet of another language.
harness!(c12_type, {
    let w = letters(len());
    let mut v = Vec::with_capacity(300);
    v.extend_from_slice(OPEN);
    put(&mut v, "<style type='");
    let k = choose(3);
    put(&mut v, ["text/", "", "text/css"][k]);
    if k < 2 {
        v.extend_from_slice(&w);
    }
    put(&mut v, "'>rect{fill:none}</style><rect/></svg>");
    let w = into_string(w);
    let css = k == 2 || (k == 0 && w == "css");
    // in another case it may be taken for one
    assume(css || !(k == 0 && w.eq_ignore_ascii_case("css")));
    let doc = match parse_ok(v) {
        Some(d) => d,
        None => return,
    };
    let n = doc.root().descendants().find(|n| n.has_tag_name(ElementId::Rect));
    match n {
        Some(n) => check(n.has_attribute(AttributeId::Fill) == css, "only CSS is applied"),
        None => fail("elements are kept"),
    }
    reach(if css { "css" } else { "other" });
});

/// Words of any characters between all kinds of white space.
harness!(c14_word, {
    let mut v = Vec::with_capacity(300);
    let mut want: Vec<u8> = Vec::with_capacity(100);
    let keep = choose(2) == 1;
    v.extend_from_slice(OPEN);
    put(&mut v, if keep { "<text xml:space='preserve'>" } else { "<text>" });
    for i in 0..3 {
        let n = [1, 6, 15][choose(3)];
        for _ in 0..n {
            let c = plain();
            v.push(c);
            want.push(c);
        }
        if i < 2 {
            let s = [" ", "  ", "\n\t", "\t", "\n \n"][choose(5)];
            put(&mut v, s);
            for _ in 0..if keep { s.len() } else { 1 } {
                want.push(b' ');
            }
        }
    }
    put(&mut v, "</text></svg>");
    let doc = match parse_ok(v) {
        Some(d) => d,
        None => return,
    };
    let mut n = 0;
    for t in doc.root().descendants().filter(|n| n.is_text()) {
        check(t.text().as_bytes() == &want[..], "only white space is changed");
        n += 1;
    }
    check(n == 1, "the text is one node");
    reach(if keep { "preserve" } else { "default" });
});

/// Every attribute with any word as its value.
fn written_value() {
    let a = &ATTRS[index(ATTRS.len())];
    // names of colours are a matter of svgtypes, unicode is written character by character
    assume(match a.kind {
        Kind::Fill | Kind::Stroke | Kind::Color | Kind::ColorCur | Kind::Skip => false,
        _ => a.id != AttributeId::Unicode && a.name != "xmlns",
    });
    let mut v = Vec::with_capacity(300);
    v.extend_from_slice(OPEN);
    put(&mut v, "<rect ");
    put(&mut v, if a.id == AttributeId::Href { "xlink:href" } else if a.id == AttributeId::Space { "xml:space" } else { a.name });
    put(&mut v, "='");
    v.extend_from_slice(&letters([2, 7, 16, 40][choose(4)]));
    put(&mut v, "'/></svg>");
    if let Some(doc) = parse_ok(v) {
        finish(&doc, false);
    }
}
harness!(c16_word, {
    mode(1);
    written_value()
});
harness!(c17_word, {
    mode(2);
    written_value()
});

/// Custom names and values of any characters.
harness!(c17_cust, {
    let mut doc = Document::new();
    let mut svg = doc.create_element(ElementId::Svg);
    doc.root().append(svg.clone());
    let mut e = doc.create_element(into_string(plains(1 + choose(9))).as_str());
    svg.append(e.clone());
    let mut t = Vec::with_capacity(20);
    for _ in 0..choose(9) {
        t.push(plain());
    }
    let t = into_string(t);
    e.set_attribute((into_string(plains(1 + choose(9))).as_str(), t.as_str()));
    e.set_attribute((AttributeId::FontFamily, t.as_str()));
    mode(2);
    finish(&doc, false);
});

/// What a node was given.
harness!(c22_word, {
    let mut doc = Document::new();
    let (a, b) = (any(1 + choose(12)), any(1 + choose(12)));
    let (a, b) = (into_string(a), into_string(b));
    match choose(3) {
        0 => {
            let mut e = doc.create_element(a.as_str());
            check(e.has_tag_name(a.as_str()) && *e.tag_name() == QName::Name(a.clone()) && e.tag_id().is_none() && !e.is_svg_element(), "a node has the name it was created with");
            check(e.has_tag_name(b.as_str()) == (a == b), "has_tag_name() of another name");
            e.set_tag_name(b.as_str());
            check(e.has_tag_name(b.as_str()) && *e.tag_name() == QName::Name(b.clone()) && e.tag_id().is_none(), "a node has the name last given to it");
            check(e.has_tag_name(a.as_str()) == (a == b), "has_tag_name() of another name");
        }
        1 => {
            let mut e = doc.create_element(ElementId::G);
            e.set_id(a.clone());
            check(*e.id() == a && e.has_id(), "a node has the id last given to it");
            e.set_id(b.as_str());
            check(*e.id() == b && e.has_id(), "a node has the id last given to it");
            e.set_id("");
            check(e.id().is_empty() && !e.has_id(), "a node has the id last given to it");
        }
        _ => {
            let k = [NodeType::Text, NodeType::Comment][choose(2)];
            let mut e = doc.create_node(k, a.clone());
            check(*e.text() == a, "a node has the text it was created with");
            e.set_text(&b);
            check(*e.text() == b && e.node_type() == k, "a node has the text last given to it");
            e.text_mut().push_str(&a);
            check(e.text().len() == a.len() + b.len() && e.text().starts_with(b.as_str()) && e.text().ends_with(a.as_str()), "a node has the text last given to it");
        }
    }
    reach(if a == b { "same" } else { "different" });
});

/// Custom names and texts under any name.
harness!(c24_word, {
    let mut doc = Document::new();
    let mut e = doc.create_element(ElementId::G);
    let n = into_string(any(1 + choose(12)));
    let t = into_string(any(choose(13)));
    let id = ATTRS[choose(8) * 28].id;
    match choose(3) {
        0 => {
            e.set_attribute((n.as_str(), t.as_str()));
            e.set_attribute((id, t.clone()));
        }
        1 => {
            e.set_attribute(Attribute::new(n.as_str(), t.as_str()));
            e.set_attribute(Attribute::new(id, t.clone()));
        }
        _ => {
            e.set_attribute_if_none((n.as_str(), AttributeValue::String(t.clone())));
            e.set_attribute_if_none((id, AttributeValue::from(t.as_str())));
        }
    }
    let at = e.attributes();
    check(at.len() == 2, "every value is stored once");
    for (i, a) in at.iter().enumerate() {
        match a.value {
            AttributeValue::String(ref s) => check(*s == t, "a text is stored as given"),
            _ => fail("a text becomes a text"),
        }
        check(if i == 0 { a.name == AttributeQName::Name(n.clone()) && !a.is_svg() } else { a.name == AttributeQName::Id(id) && a.has_id(id) }, "the name is the one given");
    }
});
