//! C15 (typed values): what every attribute value is, stated per attribute kind.
use super::parseh::*;
use super::sym::*;
use super::tables::*;
use std::str::FromStr;
use svgdom::*;
use svgtypes::{Paint, PathParser, Stream};

pub enum X {
    Absent,
    Val(AttributeValue),
    Ref(String, Option<PaintFallback>),
}
use X::*;

fn s(v: &str) -> X {
    Val(AttributeValue::String(v.to_string()))
}
fn opt<T>(r: Result<T, svgtypes::Error>) -> X
where
    AttributeValue: From<T>,
{
    match r {
        Ok(v) => Val(AttributeValue::from(v)),
        Err(_) => Absent,
    }
}
fn number(v: &str) -> Option<f64> {
    let mut st = Stream::from(v);
    match st.parse_number() {
        Ok(n) if st.at_end() => Some(n),
        _ => None,
    }
}
fn clamp01(n: Option<f64>) -> X {
    match n {
        Some(n) => Val(AttributeValue::Number(if n > 1.0 {
            1.0
        } else if n < 0.0 {
            0.0
        } else {
            n
        })),
        None => Absent,
    }
}
fn num(n: Option<f64>) -> X {
    match n {
        Some(n) => Val(AttributeValue::Number(n)),
        None => Absent,
    }
}
fn paint(v: &str) -> X {
    match Paint::from_str(v) {
        Ok(Paint::None) => Val(AttributeValue::None),
        Ok(Paint::Inherit) => Val(AttributeValue::Inherit),
        Ok(Paint::CurrentColor) => Val(AttributeValue::CurrentColor),
        Ok(Paint::Color(c)) => Val(AttributeValue::Color(c)),
        Ok(Paint::FuncIRI(l, f)) => Ref(l.to_string(), f),
        Err(_) => Absent,
    }
}

/// The value of an attribute of kind `k` of the element `e` with the given text.
pub fn expect(k: Kind, e: ElementId, raw: &str) -> X {
    // white space of XML
    let v = raw.trim_matches(|c| c == ' ' || c == '\t' || c == '\n' || c == '\r');
    let inherit = v == "inherit";
    let none = v == "none";
    let ainh = || Val(AttributeValue::Inherit);
    let anone = || Val(AttributeValue::None);
    match k {
        Kind::Id | Kind::Skip => Absent,
        Kind::Unicode => s(raw),
        Kind::Str => s(v),
        Kind::Href => match Stream::from(v).parse_iri() {
            Ok(l) => Ref(l.to_string(), None),
            Err(_) => s(v),
        },
        Kind::Xy => {
            if e == ElementId::Text || e == ElementId::Tspan || e == ElementId::Tref || e == ElementId::AltGlyph {
                list(LengthList::from_str(v))
            } else {
                opt(Length::from_str(v))
            }
        }
        Kind::Len => opt(Length::from_str(v)),
        Kind::Offset => match Length::from_str(v) {
            Ok(l) if l.unit == LengthUnit::None || l.unit == LengthUnit::Percent => Val(l.into()),
            _ => Absent,
        },
        Kind::LenInh if inherit => ainh(),
        Kind::LenInh => opt(Length::from_str(v)),
        Kind::Miter if inherit => ainh(),
        Kind::Miter => num(number(v)),
        Kind::Opacity if inherit => ainh(),
        Kind::Opacity | Kind::Coef => clamp01(number(v)),
        Kind::Dash if inherit => ainh(),
        Kind::Dash if none => anone(),
        Kind::Dash => list(LengthList::from_str(v)),
        Kind::Fill => match e {
            ElementId::Set | ElementId::Animate | ElementId::AnimateColor | ElementId::AnimateMotion | ElementId::AnimateTransform => s(v),
            _ => paint(v),
        },
        Kind::Stroke => paint(v),
        Kind::Func if inherit => ainh(),
        Kind::Func if none => anone(),
        Kind::Func => match Stream::from(v).parse_func_iri() {
            Ok(l) => Ref(l.to_string(), None),
            Err(_) => Absent,
        },
        Kind::Color | Kind::ColorCur if inherit => ainh(),
        Kind::ColorCur if v == "currentColor" => Val(AttributeValue::CurrentColor),
        Kind::Color | Kind::ColorCur => opt(Color::from_str(v)),
        Kind::NumList => match NumberList::from_str(v) {
            Ok(l) if !l.is_empty() => Val(l.into()),
            _ => Absent,
        },
        Kind::Points => opt(Points::from_str(v)),
        Kind::Path => {
            let mut d = Vec::with_capacity(8);
            for t in PathParser::from(v) {
                match t {
                    Ok(t) => d.push(t),
                    Err(_) => break,
                }
            }
            if d.is_empty() {
                Absent
            } else {
                Val(Path(d).into())
            }
        }
        Kind::Transform => match Transform::from_str(v) {
            Ok(t) if t != Transform::default() => Val(t.into()),
            _ => Absent,
        },
        Kind::FontSize => match Length::from_str(v) {
            Ok(l) => Val(l.into()),
            Err(_) if inherit => ainh(),
            Err(_) => s(v),
        },
        Kind::Adjust if inherit => ainh(),
        Kind::Adjust if none => anone(),
        Kind::Adjust => num(number(v)),
        Kind::NoneInh if none => anone(),
        Kind::NoneInh | Kind::Inh if inherit => ainh(),
        Kind::NoneInh | Kind::Inh => s(v),
        Kind::Spacing | Kind::Shift | Kind::GlyphH | Kind::GlyphV if inherit => ainh(),
        Kind::Spacing if v == "normal" => s(v),
        Kind::Shift if v == "baseline" || v == "sub" || v == "super" => s(v),
        Kind::Spacing | Kind::Shift => opt(Length::from_str(v)),
        Kind::Orient | Kind::GlyphV if v == "auto" => s(v),
        Kind::Orient | Kind::GlyphH | Kind::GlyphV => opt(Angle::from_str(v)),
        Kind::ViewBox => opt(ViewBox::from_str(v)),
        Kind::Aspect => opt(AspectRatio::from_str(v)),
    }
}
fn list(r: Result<LengthList, svgtypes::Error>) -> X {
    match r {
        Ok(l) if !l.is_empty() => Val(l.into()),
        _ => Absent,
    }
}

/// What it becomes in a document where only `t` can be referred to.
pub fn resolved(a: &A, x: X, t: &Node) -> Option<AttributeValue> {
    match x {
        Absent => None,
        Val(v) => Some(v),
        Ref(l, f) => Some(if l == *t.id() {
            match a.kind {
                Kind::Href => AttributeValue::Link(t.clone()),
                Kind::Fill | Kind::Stroke => AttributeValue::Paint(t.clone(), f),
                _ => AttributeValue::FuncLink(t.clone()),
            }
        } else {
            match f {
                Some(f) => AttributeValue::from(f),
                None => match a.kind {
                    Kind::Href => AttributeValue::String(format!("#{}", l)),
                    Kind::Fill => AttributeValue::None,
                    _ => AttributeValue::String(format!("url(#{})", l)),
                },
            }
        }),
    }
}

pub static TEXTS: [&str; 40] = [
    "7", " 7 ", "-3", ".5", "1.5", "0", "2e1", "50%", "7px", "7mm", "7em", "7x", "7 8", "7,8px", "1 2 3 4", "1 2 3", "0 0 -1 4", "red", "#f00",
    "#12345", "rgb(1,2,3)", "none", " none ", "inherit", "currentColor", "auto", "normal", "baseline", "super", "url(#t)", "url(#u)",
    "url(#t) red", "url(#u) none", "#t", " #u", "translate(1 2)", "scale(1)", "M 1 2 L 3 4", "M 1 2 Q", "xMidYMid slice",
];
static TEXTS2: [&str; 40] = [
    "", " ", "7deg", "1grad", "NONE", "Inherit", "url(t)", "url(#u) currentColor", "url( #t )", "xMidYMid", "defer none", "M1", "rotate(90", "\u{e9} x", "rotate(90)", "skewX(30)", "matrix(1 2 3 4 5 6) scale(2)", "matrix(1 0 0 1 0 0)", "translate(1) rotate(45 1 2)", "-7px", "+7", "1e-7", "rgb(100%,0%,0%)", "#FF0000", "transparent", "larger", "0 0 0 0", "1,,2", "7pt", "100000000", "m 1 2 h 3 z", "url(#t)red", "url(#t) inherit", "url(#u) #123", "RED", "7rad", "inherit ", "none none", "1 2 3 4 5", "xMaxYMax meet",
];

pub fn text() -> &'static str {
    let i = choose(TEXTS.len() + TEXTS2.len());
    if i < TEXTS.len() {
        TEXTS[i]
    } else {
        TEXTS2[i - TEXTS.len()]
    }
}

pub static HOSTS: [(ElementId, &str); 4] =
    [(ElementId::Rect, "rect"), (ElementId::Tspan, "tspan"), (ElementId::Animate, "animate"), (ElementId::LinearGradient, "linearGradient")];

/// Writes `text` as the content of a double quoted attribute.
pub fn push_attr(v: &mut Vec<u8>, text: &[u8]) {
    for b in text {
        match *b {
            b'"' => v.extend_from_slice(b"&quot;"),
            b'<' => v.extend_from_slice(b"&lt;"),
            b'&' => v.extend_from_slice(b"&amp;"),
            c => v.push(c),
        }
    }
}

fn names(a: &A, src: usize) -> bool {
    // how the attribute is written in XML
    src > 0 && a.flags & PRES == 0 && a.kind != Kind::Transform
}

/// src: 0 attribute, 1 style attribute, 2 style sheet
pub fn doc_with(a: &A, host: &str, src: usize, text: &[u8]) -> Option<Document> {
    let mut v = Vec::with_capacity(400);
    v.extend_from_slice(OPEN);
    if src == 2 {
        v.extend_from_slice(b"<style>*{");
        v.extend_from_slice(a.name.as_bytes());
        v.push(b':');
        v.extend_from_slice(text);
        v.extend_from_slice(b"}</style>");
    }
    v.push(b'<');
    v.extend_from_slice(host.as_bytes());
    match src {
        0 => {
            v.push(b' ');
            if a.kind == Kind::Href {
                v.extend_from_slice(b"xlink:");
            }
            v.extend_from_slice(a.name.as_bytes());
            v.extend_from_slice(b"=\"");
            push_attr(&mut v, text);
            v.push(b'"');
        }
        1 => {
            v.extend_from_slice(b" style=\"");
            v.extend_from_slice(a.name.as_bytes());
            v.push(b':');
            push_attr(&mut v, text);
            v.push(b'"');
        }
        _ => {}
    }
    v.extend_from_slice(b"/><g id='t'/></svg>");
    super::cascade::parse_ok(v)
}

fn nodes(doc: &Document) -> Option<(Node, Node)> {
    let svg = doc.svg_element()?;
    Some((svg.first_child()?, svg.last_child()?))
}

fn same(n: &Node, a: &A, want: &Option<AttributeValue>) {
    let at = n.attributes();
    let got = at.get_value(a.id);
    match (got, want) {
        (Some(g), Some(w)) => {
            check(*g == *w, "an attribute has the value of the type that belongs to it");
            reach("value");
        }
        (None, None) => reach("absent"),
        (Some(_), None) => fail("a text that does not match the grammar is no value"),
        (None, Some(_)) => fail("a valid value is kept"),
    }
    check(at.len() == if want.is_some() { 1 } else { 0 }, "no other attribute appears");
}

pub fn attr_case(a: &A, host: &(ElementId, &str), text: &[u8]) {
    // xmlns declares a namespace
    assume(a.name != "xmlns");
    let doc = match doc_with(a, host.1, 0, text) {
        Some(d) => d,
        None => return,
    };
    let (n, t) = match nodes(&doc) {
        Some(x) => x,
        None => return fail("all elements are kept"),
    };
    let st = into_string(text.to_vec());
    let x = expect(a.kind, host.0, &st);
    let want = resolved(a, x, &t);
    same(&n, a, &want);
    if a.kind == Kind::Id {
        check(*n.id() == st, "the id is kept as it is");
    } else {
        check(!n.has_id(), "no id appears");
    }
}

/// Every attribute with every text of the list, for the writer.
pub fn table() {
    let a = &ATTRS[index(ATTRS.len())];
    let t = text();
    assume(a.name != "xmlns");
    match doc_with(a, "rect", 0, t.as_bytes()) {
        Some(d) => super::writeh::finish(&d, false),
        None => {}
    }
}
/// Every attribute with every text of the list.
harness!(c15_tab, {
    let a = &ATTRS[index(ATTRS.len())];
    let t = text();
    attr_case(a, &HOSTS[0], t.as_bytes());
    note(a.name.as_bytes());
});
/// Attributes whose meaning depends on the element.
harness!(c15_host, {
    let h = 1 + choose(3);
    let a = &ATTRS[index(ATTRS.len())];
    let t = [6, 12, 0, 18, 30, 21, 17][choose(7)];
    attr_case(a, &HOSTS[h], TEXTS[t].as_bytes());
    note(a.name.as_bytes());
});
harness!(c15_elem, {
    // every element with the attributes that depend on it
    let e = &ELEMS[index(ELEMS.len())];
    assume(e.id != ElementId::Style && e.id != ElementId::Svg);
    let a = ["x", "y", "dx", "dy", "fill", "stroke", "width"][choose(7)];
    let a = match ATTRS.iter().find(|x| x.name == a) {
        Some(a) => a,
        None => return,
    };
    let t = ["1", "1 2", "red", "freeze", "url(#t)"][choose(5)];
    attr_case(a, &(e.id, e.name), t.as_bytes());
    note(e.name.as_bytes());
});

/// The same text from the style attribute and from a style sheet.
harness!(c15_css, { css() });
fn css() {
    let src = 1 + choose(2);
    let a = &ATTRS[index(ATTRS.len())];
    assume(!(src == 2 && a.kind == Kind::Func && a.name == "marker"));
    let t = text();
    // no CSS: unbalanced, or not ASCII
    assume(t != "rotate(90" && t.is_ascii());
    css_case(a, src, t);
}
harness!(c15_wcss, {
    let src = 1 + choose(2);
    let a = &ATTRS[index(ATTRS.len())];
    assume(!(src == 2 && a.kind == Kind::Func && a.name == "marker"));
    assume(match a.kind {
        Kind::Fill | Kind::Stroke | Kind::Color | Kind::ColorCur | Kind::Skip | Kind::Id => false,
        _ => true,
    });
    // letters and at most one hyphen
    let n = 1 + choose(14);
    let hyphen = choose(n);
    let mut w = Vec::with_capacity(n);
    for i in 0..n {
        let c = byte();
        let l = c | 0x20;
        if i > 0 && i == hyphen {
            assume(c == b'-');
        } else {
            assume((l >= b'a') & (l <= b'z') & (c < 0x80));
        }
        w.push(c);
    }
    let s = into_string(w);
    css_case(a, src, &s);
});
fn css_case(a: &A, src: usize, t: &str) {
    css_case_on(a, ElementId::Rect, "rect", src, t)
}
pub fn css_case_on(a: &A, id: ElementId, host: &str, src: usize, t: &str) {
    let doc = match doc_with(a, host, src, t.as_bytes()) {
        Some(d) => d,
        None => return,
    };
    let (n, tn) = match nodes(&doc) {
        Some(x) => x,
        None => return fail("all elements are kept"),
    };
    let want = if names(a, src) || a.kind != Kind::Transform && a.flags & PRES == 0 || t.trim().is_empty() {
        None
    } else {
        // CSS only knows `transform`
        if a.kind == Kind::Transform && a.name != "transform" {
            None
        } else {
            resolved(a, expect(a.kind, id, t), &tn)
        }
    };
    same(&n, a, &want);
    note(a.name.as_bytes());
}

/// One attribute of each kind with arbitrary bytes.
fn rep(k: usize) -> &'static A {
    let want = [
        "x", "width", "offset", "stroke-width", "stroke-miterlimit", "opacity", "k1", "stroke-dasharray", "font-size", "font-size-adjust",
        "letter-spacing", "baseline-shift", "orient", "glyph-orientation-horizontal", "glyph-orientation-vertical", "stdDeviation",
        "fill", "stroke", "clip-path", "color", "stop-color", "href", "transform", "points", "d", "viewBox", "preserveAspectRatio", "display",
        "fill-rule", "unicode", "in",
    ][k];
    match ATTRS.iter().find(|x| x.name == want) {
        Some(a) => a,
        None => &ATTRS[0],
    }
}
const REPS: usize = 31;

fn sym_case(a: &A, pre: &[u8], k: usize, set: &[u8], post: &[u8]) {
    let mut t = Vec::with_capacity(40);
    t.extend_from_slice(pre);
    push_any(&mut t, k, set);
    t.extend_from_slice(post);
    attr_case(a, &HOSTS[0], &t);
    note(&t);
}
harness!(c15_num, { sym_case(rep(choose(16)), b"", 3, b"07.-+e% px,d", b"") });
harness!(c15_numt, { sym_case(rep(choose(16)), b"", 4, b"05.-e% pxm,", b"") });
harness!(c15_misc, { sym_case(rep(16 + choose(REPS - 16)), b"", 3, b"#0af) ,-Mn", b"") });
harness!(c15_opac, { sym_case(rep(5 + choose(2)), b"", 4, b"0159.-+e", b"") });
harness!(c15_col, { sym_case(rep(16 + choose(5)), b"#", 3, b"09afAFgx ", b"") });
harness!(c15_url, { sym_case(rep([16, 17, 18, 21][choose(4)]), b"url(", 3, b"#tu) ", b") red") });
harness!(c15_ts, { sym_case(rep(22), b"scale(", 3, b"012 ,)-.", b")") });
harness!(c15_pts, { sym_case(rep(23 + choose(3)), b"M1 ", 4, b"12 ,-LM", b"") });

/// An arbitrary word: letters, and hyphens after the first one.
fn word(n: usize) -> Vec<u8> {
    let mut t = Vec::with_capacity(n);
    for i in 0..n {
        let c = byte();
        let l = c | 0x20;
        assume((l >= b'a') & (l <= b'z') & (c < 0x80) | (i > 0) & (c == b'-'));
        t.push(c);
    }
    t
}
harness!(c15_word, {
    let a = &ATTRS[index(ATTRS.len())];
    // names of colours are a matter of svgtypes
    assume(match a.kind {
        Kind::Fill | Kind::Stroke | Kind::Color | Kind::ColorCur | Kind::Skip | Kind::Id => false,
        _ => true,
    });
    let w = word(1 + choose(20));
    attr_case(a, &HOSTS[0], &w);
    note(&w);
});

/// References in every attribute.
harness!(c13_all, {
    let a = &ATTRS[index(ATTRS.len())];
    let t = ["url(#t)", "url(#u)", "url(#t) red", "url(#u) none", "url(#u) #f00", "url(#u) currentColor", "url( #t )", "#t", "#u", " #t ", "url(t)", "t", "#", "url(#)"][choose(14)];
    attr_case(a, &HOSTS[0], t.as_bytes());
    note(a.name.as_bytes());
});
harness!(c10_tab, {
    super::writeh::mode(3);
    table()
});
harness!(c10_decl, {
    super::writeh::mode(3);
    css()
});
harness!(c10_num, {
    super::writeh::mode(3);
    sym_case(rep(choose(16)), b"", 3, b"07.-+e% px,d", b"")
});
harness!(c10_misc, {
    super::writeh::mode(3);
    sym_case(rep(16 + choose(REPS - 16)), b"", 3, b"#0af) ,-Mn", b"")
});
harness!(c10_url, {
    super::writeh::mode(3);
    sym_case(rep([16, 17, 18, 21][choose(4)]), b"url(", 3, b"#tu) ", b") red")
});
harness!(c10_pts, {
    super::writeh::mode(3);
    sym_case(rep(22 + choose(4)), b"M1 ", 3, b"12 ,-LMZ(", b"")
});
