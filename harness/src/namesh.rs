//! C18 (names), C19 (classification), C20 (defaults).
use super::sym::*;
use super::tables::*;
use svgdom::*;

/// Every id has the name the specification gives it, both ways.
harness!(c18_e, {
    let e = &ELEMS[index(ELEMS.len())];
    check(e.id.as_str() == e.name, "an element id has its SVG name");
    check(ElementId::from_str(e.name) == Some(e.id), "an SVG element name is found");
    check(e.id.to_string() == e.name, "an element id is displayed as its name");
    check(format!("{:?}", e.id) == e.name, "an element id is shown as its name");
    let mut doc = Document::new();
    let n = doc.create_element(e.id);
    check(n.tag_id() == Some(e.id) && n.is_svg_element(), "an element has the id it was created with");
    check(n.has_tag_name(e.id) && !n.has_tag_name(e.name), "names and ids are not mixed up");
    check(n.tag_name().to_string() == e.name, "a tag is displayed as its name");
    let f = &ELEMS[index(ELEMS.len())];
    check((e.id == f.id) == (e.name == f.name), "different names have different ids");
    check(n.has_tag_name(f.id) == (e.name == f.name), "an element has no other id");
    note(e.name.as_bytes());
});
harness!(c18_a, {
    let a = &ATTRS[index(ATTRS.len())];
    check(a.id.as_str() == a.name, "an attribute id has its SVG name");
    check(AttributeId::from_str(a.name) == Some(a.id), "an SVG attribute name is found");
    check(a.id.to_string() == a.name, "an attribute id is displayed as its name");
    check(format!("{:?}", a.id) == a.name, "an attribute id is shown as its name");
    note(a.name.as_bytes());
});
harness!(c18_aa, {
    let i = index(ATTRS.len());
    let a = &ATTRS[i];
    for j in 0..ATTRS.len() {
        check((a.id == ATTRS[j].id) == (i == j), "different names have different ids");
    }
    note(&[i as u8]);
});

fn known_e(s: &str) -> bool {
    ELEMS.iter().any(|e| e.name == s)
}
fn known_a(s: &str) -> bool {
    ATTRS.iter().any(|e| e.name == s)
}

/// One arbitrary byte anywhere in a name: replaced, inserted or removed.
fn near(name: &str) -> String {
    let b = name.as_bytes();
    let mut v = Vec::with_capacity(40);
    let op = choose(5);
    let p = choose(b.len() + 1);
    if op == 3 {
        // a prefix
        v.extend_from_slice(&b[..p]);
        return into_string(v);
    }
    if op == 4 {
        // the rest in upper case
        v.extend_from_slice(b);
        v[p..].make_ascii_uppercase();
        return into_string(v);
    }
    v.extend_from_slice(&b[..p]);
    if op < 2 {
        let c = byte();
        assume(c < 0x80);
        v.push(c);
    }
    let from = if op == 1 { p } else { p + 1 };
    if from <= b.len() {
        v.extend_from_slice(&b[from..]);
    }
    into_string(v)
}
harness!(c18_ne, {
    let s = near(ELEMS[index(ELEMS.len())].name);
    match ElementId::from_str(&s) {
        Some(id) => {
            check(id.as_str() == s, "only the exact name of an element is found");
            reach("found");
        }
        None => check(!known_e(&s), "every SVG element name is found"),
    }
});
harness!(c18_na, {
    let s = near(ATTRS[index(ATTRS.len())].name);
    match AttributeId::from_str(&s) {
        Some(id) => {
            check(id.as_str() == s, "only the exact name of an attribute is found");
            reach("found");
        }
        None => check(!known_a(&s), "every SVG attribute name is found"),
    }
});

/// Any string of up to `max` bytes, hashed for real.
fn any_name(max: usize) -> String {
    let n = choose(max + 1);
    let mut v = Vec::with_capacity(max);
    for _ in 0..n {
        let c = byte();
        assume(c < 0x80);
        v.push(c);
    }
    into_string(v)
}
fn short_e(max: usize) {
    let s = any_name(max);
    if let Some(id) = ElementId::from_str(&s) {
        check(id.as_str() == s, "a string is never mistaken for the name of an element");
        check(known_e(&s), "only SVG element names are found");
        reach("found");
    } else {
        check(!known_e(&s), "every SVG element name is found");
    }
}
fn short_a(max: usize) {
    let s = any_name(max);
    if let Some(id) = AttributeId::from_str(&s) {
        check(id.as_str() == s, "a string is never mistaken for the name of an attribute");
        check(known_a(&s), "only SVG attribute names are found");
        reach("found");
    } else {
        check(!known_a(&s), "every SVG attribute name is found");
    }
}
harness!(c18_se, { short_e(2) });
harness!(c18_sa, { short_a(2) });
harness!(c18_te, { short_e(3) });
harness!(c18_ta, { short_a(3) });

// ------------------------------------------------------------------ C19

harness!(c19_e, {
    let e = &ELEMS[index(ELEMS.len())];
    let mut doc = Document::new();
    let n = doc.create_element(e.id);
    let f = e.flags;
    check(n.is_referenced() == (f & REFERENCED != 0), "is_referenced()");
    check(n.is_basic_shape() == (f & BASIC != 0), "is_basic_shape()");
    check(n.is_shape() == (f & SHAPE != 0), "is_shape()");
    check(n.is_container() == (f & CONTAINER != 0), "is_container()");
    check(n.is_text_content() == (f & TEXTC != 0), "is_text_content()");
    check(n.is_text_content_child() == (f & TEXTCC != 0), "is_text_content_child()");
    check(n.is_graphic() == (f & GRAPHIC != 0), "is_graphic()");
    check(n.is_gradient() == (f & GRADIENT != 0), "is_gradient()");
    check(n.is_paint_server() == (f & SERVER != 0), "is_paint_server()");
    check(n.is_filter_primitive() == (f & FE != 0), "is_filter_primitive()");
    // the same name as a custom element is something else
    let o = match choose(4) {
        0 => doc.create_element(e.name),
        1 => doc.create_node(NodeType::Text, e.name),
        2 => doc.create_node(NodeType::Comment, e.name),
        _ => doc.root(),
    };
    check(
        !o.is_referenced() && !o.is_basic_shape() && !o.is_shape() && !o.is_container() && !o.is_text_content()
            && !o.is_text_content_child() && !o.is_graphic() && !o.is_gradient() && !o.is_paint_server() && !o.is_filter_primitive(),
        "nodes which are not SVG elements belong to no class",
    );
    check(!o.is_svg_element() && o.tag_id().is_none(), "nodes which are not SVG elements have no element id");
    note(e.name.as_bytes());
});

fn aflags<T: AttributeType>(a: &T) -> u32 {
    let mut f = 0;
    if a.is_presentation() {
        f |= PRES;
    }
    if a.is_inheritable() {
        f |= INH;
    }
    if a.is_animation_event() {
        f |= ANIM;
    }
    if a.is_graphical_event() {
        f |= GRAPH;
    }
    if a.is_document_event() {
        f |= DOCEV;
    }
    if a.is_conditional_processing() {
        f |= COND;
    }
    if a.is_core() {
        f |= CORE;
    }
    if a.is_fill() {
        f |= FILLG;
    }
    if a.is_stroke() {
        f |= STROKEG;
    }
    f
}
harness!(c19_a, {
    let a = &ATTRS[index(ATTRS.len())];
    check(aflags(&a.id) == a.flags, "an attribute id belongs to exactly the classes the specification puts it in");
    check(aflags(&Attribute::new(a.id, "v")) == a.flags, "an attribute belongs to the classes of its id");
    let c = Attribute::new(a.name, "v");
    check(aflags(&c) == 0 && !c.is_svg() && c.id().is_none(), "a custom attribute belongs to no class");
    note(a.name.as_bytes());
});

/// What kind of value an attribute has.
harness!(c19_v, {
    let mut doc = Document::new();
    let mut t = doc.create_element(ElementId::G);
    t.set_id("t");
    let k = choose(18);
    let v = match k {
        0 => AttributeValue::None,
        1 => AttributeValue::Inherit,
        2 => AttributeValue::CurrentColor,
        3 => AttributeValue::AspectRatio(AspectRatio { defer: false, align: Align::None, slice: false }),
        4 => AttributeValue::from(Color::new(byte(), byte(), byte())),
        5 => AttributeValue::FuncLink(t.clone()),
        6 => AttributeValue::Paint(t.clone(), None),
        7 => AttributeValue::from((any_f64(), LengthUnit::Px)),
        8 => AttributeValue::from(LengthList(vec![])),
        9 => AttributeValue::from(Angle::new(any_f64(), AngleUnit::Degrees)),
        10 => AttributeValue::Link(t.clone()),
        11 => AttributeValue::from(any_f64()),
        12 => AttributeValue::from(NumberList(vec![])),
        13 => AttributeValue::from(Path::new()),
        14 => AttributeValue::from(Points(vec![])),
        15 => AttributeValue::from("s"),
        16 => AttributeValue::from(Transform::default()),
        _ => AttributeValue::from(ViewBox::new(0.0, 0.0, 1.0, 1.0)),
    };
    let got = |i: usize| match i {
        0 => v.is_none(),
        1 => v.is_inherit(),
        2 => v.is_current_color(),
        3 => v.is_aspect_ratio(),
        4 => v.is_color(),
        5 => v.is_func_link(),
        6 => v.is_paint(),
        7 => v.is_length(),
        8 => v.is_length_list(),
        9 => v.is_angle(),
        10 => v.is_link(),
        11 => v.is_number(),
        12 => v.is_number_list(),
        13 => v.is_path(),
        14 => v.is_points(),
        15 => v.is_string(),
        16 => v.is_transform(),
        _ => v.is_viewbox(),
    };
    for i in 0..18 {
        check(got(i) == (i == k), "a value is of its own kind only");
    }
    check(v.is_link_container() == (k == 5 || k == 6 || k == 10), "is_link_container()");
    let a = Attribute::new(AttributeId::Fill, v.clone());
    check(
        a.is_none() == (k == 0) && a.is_inherit() == (k == 1) && a.is_current_color() == (k == 2) && a.is_aspect_ratio() == (k == 3)
            && a.is_color() == (k == 4) && a.is_func_link() == (k == 5) && a.is_paint() == (k == 6) && a.is_length() == (k == 7)
            && a.is_length_list() == (k == 8) && a.is_link() == (k == 10) && a.is_number() == (k == 11) && a.is_number_list() == (k == 12)
            && a.is_path() == (k == 13) && a.is_points() == (k == 14) && a.is_string() == (k == 15) && a.is_transform() == (k == 16)
            && a.is_viewbox() == (k == 17) && a.is_link_container() == (k == 5 || k == 6 || k == 10),
        "an attribute is of the kind of its value",
    );
    // conversions
    let c = Color::new(byte(), byte(), byte());
    check(AttributeValue::from(PaintFallback::Color(c)) == AttributeValue::Color(c), "a fallback colour as a value");
    check(AttributeValue::from(PaintFallback::None).is_none(), "a fallback none as a value");
    check(AttributeValue::from(PaintFallback::CurrentColor).is_current_color(), "a fallback currentColor as a value");
    let i = byte() as i32 - 128;
    check(AttributeValue::from(i) == AttributeValue::Number(f64::from(i)), "an integer as a value");
    check(AttributeValue::from((i, LengthUnit::Mm)) == AttributeValue::Length(Length::new(f64::from(i), LengthUnit::Mm)), "an integer length as a value");
    note(&[k as u8]);
});

// ------------------------------------------------------------------ C20

harness!(c20, {
    let a = &ATTRS[index(ATTRS.len())];
    let want = match a.def {
        Def::No => None,
        Def::None => Some(AttributeValue::None),
        Def::Black => Some(AttributeValue::Color(Color { red: 0, green: 0, blue: 0 })),
        Def::White => Some(AttributeValue::Color(Color { red: 255, green: 255, blue: 255 })),
        Def::One => Some(AttributeValue::Number(1.0)),
        Def::Len(n) => Some(AttributeValue::Length(Length { num: n as f64, unit: LengthUnit::None })),
        Def::S(s) => Some(AttributeValue::String(s.to_string())),
    };
    check(AttributeValue::default_value(a.id) == want, "the default is the initial value of the specification");
    match Attribute::new_default(a.id) {
        Some(d) => {
            check(d.has_id(a.id) && Some(d.value) == want, "a default attribute has the id and the initial value");
            reach("default");
        }
        None => {
            check(want.is_none(), "there is a default attribute for every initial value");
            reach("no default");
        }
    }
    note(a.name.as_bytes());
});

/// A name with something before or after it.
fn decorated(name: &str) -> String {
    let mut v = Vec::with_capacity(80);
    let k = choose(22);
    let pre = ["xlink:", "xml:", "svg:", "xmlns:", "s:", ":", " ", "\n", "#", "-webkit-", "-", "_", "data-", "*", "<", "@"];
    let post = [" ", "\t", ":", ";", "=", "\0"];
    if k < 16 {
        v.extend_from_slice(pre[k].as_bytes());
    }
    v.extend_from_slice(name.as_bytes());
    if k >= 16 {
        v.extend_from_slice(post[k - 16].as_bytes());
    }
    into_string(v)
}
harness!(c18_de, {
    let s = decorated(ELEMS[index(ELEMS.len())].name);
    check(ElementId::from_str(&s).is_none(), "only the exact name of an element is found");
});
harness!(c18_da, {
    let s = decorated(ATTRS[index(ATTRS.len())].name);
    check(AttributeId::from_str(&s).is_none(), "only the exact name of an attribute is found");
});
/// Names which consist of two others.
harness!(c18_pe, {
    let (a, b) = (&ELEMS[index(ELEMS.len())], &ELEMS[index(ELEMS.len())]);
    let mut v = Vec::with_capacity(80);
    v.extend_from_slice(a.name.as_bytes());
    v.extend_from_slice([&b""[..], b"-", b":"][choose(3)]);
    v.extend_from_slice(b.name.as_bytes());
    let s = into_string(v);
    check(ElementId::from_str(&s).is_none() || known_e(&s), "only the exact name of an element is found");
});
