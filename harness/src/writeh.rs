//! C16 (writing and parsing again), C17 (layout of the written text).
use super::cascade::*;
use super::dump::*;
use super::parseh::*;
use super::sym::*;
use super::tables::*;
use super::texth::*;
use super::values::*;
use svgdom::*;

static mut MODE: u8 = 0;
pub fn mode(m: u8) {
    unsafe { MODE = m }
}
pub fn get_mode() -> u8 {
    unsafe { MODE }
}
/// The end of every parsing harness. By mode: nothing, round trip, layout;
/// with text outside of text elements only layouts without indents restore the document.
pub fn finish(doc: &Document, flat: bool) {
    match unsafe { MODE } {
        1 => {
            let o = options(if flat { 2 } else { 4 });
            round_trip(doc, &o);
        }
        2 => layout(doc, &options(6)),
        5 => layout(doc, &any_options()),
        _ => note(&dump(doc)),
    }
}
/// With one of the option sets.
pub fn finish_with(doc: &Document, k: usize) {
    match unsafe { MODE } {
        1 => round_trip(doc, &option_set(k)),
        _ => layout(doc, &option_set(k)),
    }
}
fn options(n: usize) -> WriteOptions {
    option_set(choose(n))
}
fn option_set(k: usize) -> WriteOptions {
    let mut o = WriteOptions::default();
    match k {
        0 => {
            o.indent = Indent::None;
        }
        1 => {
            o.indent = Indent::None;
            o.use_single_quote = true;
            o.attributes_indent = Indent::Spaces(3);
            all_values(&mut o);
            o.values.list_separator = ListSeparator::CommaSpace;
        }
        2 => {}
        3 => {
            o.use_single_quote = true;
            o.indent = Indent::Tabs;
            o.attributes_indent = Indent::Spaces(1);
            all_values(&mut o);
            o.values.list_separator = ListSeparator::Comma;
        }
        4 => {
            o.indent = Indent::Spaces(0);
            o.attributes_indent = Indent::Tabs;
        }
        _ => {
            o.indent = Indent::Spaces(1);
            o.attributes_indent = Indent::Spaces(0);
            o.use_single_quote = true;
        }
    }
    o
}
/// Every combination of layout options.
fn any_options() -> WriteOptions {
    let mut o = WriteOptions::default();
    let ind = |k: usize| match k {
        0 => Indent::None,
        1 => Indent::Tabs,
        k => Indent::Spaces([0, 1, 2, 3, 4, 8][k - 2]),
    };
    o.indent = ind(choose(8));
    o.attributes_indent = ind(choose(8));
    o.use_single_quote = choose(2) == 1;
    o
}
fn all_values(o: &mut WriteOptions) {
    o.values.trim_hex_colors = true;
    o.values.remove_leading_zero = true;
    o.values.use_compact_path_notation = true;
    o.values.join_arc_to_flags = true;
    o.values.remove_duplicated_path_commands = true;
    o.values.use_implicit_lineto_commands = true;
    o.values.simplify_transform_matrices = true;
}
fn again(doc: &Document, o: &WriteOptions) -> Option<Document> {
    let s = doc.to_string_with_opt(o);
    Document::from_str(&s).ok()
}
pub fn round_trip(doc: &Document, o: &WriteOptions) {
    let d2 = match again(doc, o) {
        Some(d) => d,
        None => {
            note(doc.to_string_with_opt(o).as_bytes());
            return fail("the written text can be parsed");
        }
    };
    let (a, b) = (dump_merged(doc), dump_merged(&d2));
    check(a == b, "parsing the written text restores the document");
    note(&b);
}

/// A recorded defect: these documents are not restored.
fn known(doc: &Document, label: &'static str) {
    let o = WriteOptions::default();
    match again(doc, &o) {
        Some(ref d2) if dump_merged(doc) == dump_merged(d2) => reach("restored"),
        _ => reach(label),
    }
    note(doc.to_string_with_opt(&o).as_bytes());
}

// ------------------------------------------------------------------ the expected text

fn indent(out: &mut Vec<u8>, n: usize, i: Indent) {
    for _ in 0..n {
        match i {
            Indent::None => {}
            Indent::Spaces(k) => {
                for _ in 0..k {
                    out.push(b' ');
                }
            }
            Indent::Tabs => out.push(b'\t'),
        }
    }
}
fn line(out: &mut Vec<u8>, depth: usize, keep: bool, o: &WriteOptions) {
    if !keep && o.indent != Indent::None {
        if !out.is_empty() {
            out.push(b'\n');
        }
        indent(out, depth, o.indent);
    }
}
pub fn value_text(a: &Attribute, o: &WriteOptions) -> Vec<u8> {
    let mut b = Vec::with_capacity(64);
    let v = &o.values;
    match &a.value {
        AttributeValue::None => put(&mut b, "none"),
        AttributeValue::Inherit => put(&mut b, "inherit"),
        AttributeValue::CurrentColor => put(&mut b, "currentColor"),
        AttributeValue::String(s) => put(&mut b, s),
        AttributeValue::Number(x) => x.write_buf_opt(v, &mut b),
        AttributeValue::NumberList(x) => x.write_buf_opt(v, &mut b),
        AttributeValue::Length(x) => x.write_buf_opt(v, &mut b),
        AttributeValue::LengthList(x) => x.write_buf_opt(v, &mut b),
        AttributeValue::Angle(x) => x.write_buf_opt(v, &mut b),
        AttributeValue::Transform(x) => x.write_buf_opt(v, &mut b),
        AttributeValue::Path(x) => x.write_buf_opt(v, &mut b),
        AttributeValue::Points(x) => x.write_buf_opt(v, &mut b),
        AttributeValue::ViewBox(x) => x.write_buf_opt(v, &mut b),
        AttributeValue::AspectRatio(x) => x.write_buf_opt(v, &mut b),
        AttributeValue::Color(x) => x.write_buf_opt(v, &mut b),
        AttributeValue::Link(n) => {
            put(&mut b, "#");
            put(&mut b, &n.id());
        }
        AttributeValue::FuncLink(n) => {
            put(&mut b, "url(#");
            put(&mut b, &n.id());
            put(&mut b, ")");
        }
        AttributeValue::Paint(n, f) => {
            put(&mut b, "url(#");
            put(&mut b, &n.id());
            put(&mut b, ")");
            match f {
                None => {}
                Some(PaintFallback::None) => put(&mut b, " none"),
                Some(PaintFallback::CurrentColor) => put(&mut b, " currentColor"),
                Some(PaintFallback::Color(c)) => {
                    b.push(b' ');
                    c.write_buf_opt(v, &mut b);
                }
            }
        }
    }
    b
}
fn attribute(out: &mut Vec<u8>, depth: usize, keep: bool, o: &WriteOptions, name: &str, val: &[u8], raw: bool) {
    if o.attributes_indent == Indent::None {
        out.push(b' ');
    } else {
        out.push(b'\n');
        if !keep {
            indent(out, depth, o.indent);
            indent(out, 1, o.attributes_indent);
        }
    }
    put(out, name);
    out.push(b'=');
    let q = if o.use_single_quote { b'\'' } else { b'"' };
    out.push(q);
    for &c in val {
        if c == q {
            put(out, if q == b'"' { "&quot;" } else { "&apos;" });
        } else if raw {
            out.push(c);
        } else if c == b'&' {
            put(out, "&amp;");
        } else if c == b'<' {
            put(out, "&lt;");
        } else if c == b'\n' {
            put(out, "&#xa;");
        } else if c == b'\t' {
            put(out, "&#x9;");
        } else if c == b'\r' {
            put(out, "&#xd;");
        } else {
            out.push(c);
        }
    }
    out.push(q);
}
fn uses_href(n: &Node) -> bool {
    n.has_attribute(AttributeId::Href) || n.children().any(|c| uses_href(&c))
}
fn hex(out: &mut Vec<u8>, c: u32) {
    let mut sh = 28;
    let mut on = false;
    loop {
        let d = (c >> sh) & 15;
        on |= d != 0 || sh == 0;
        if on {
            out.push(b"0123456789abcdef"[d as usize]);
        }
        if sh == 0 {
            break;
        }
        sh -= 4;
    }
}
fn expected(out: &mut Vec<u8>, n: &Node, depth: usize, keep: bool, o: &WriteOptions) {
    if n.is_comment() {
        line(out, depth, keep, o);
        put(out, "<!--");
        put(out, &n.text());
        put(out, "-->");
        return;
    }
    if n.is_text() {
        if depth == 0 {
            return;
        }
        line(out, depth, keep, o);
        for &c in n.text().as_bytes() {
            if c == b'<' {
                put(out, "&lt;");
            } else {
                out.push(c);
            }
        }
        return;
    }
    line(out, depth, keep, o);
    let name = match *n.tag_name() {
        QName::Id(id) => id.as_str().to_string(),
        QName::Name(ref s) => s.clone(),
    };
    out.push(b'<');
    put(out, &name);
    if depth == 0 && name == "svg" {
        attribute(out, depth, keep, o, "xmlns", b"http://www.w3.org/2000/svg", false);
        if uses_href(n) {
            attribute(out, depth, keep, o, "xmlns:xlink", b"http://www.w3.org/1999/xlink", false);
        }
    }
    if !n.id().is_empty() {
        attribute(out, depth, keep, o, "id", n.id().as_bytes(), false);
    }
    let at = n.attributes();
    for a in ATTRS.iter() {
        let got = match at.get(a.id) {
            Some(g) => g,
            None => continue,
        };
        let nm = match a.id {
            AttributeId::Href => "xlink:href",
            AttributeId::Space => "xml:space",
            _ => a.name,
        };
        let val = value_text(got, o);
        if a.id == AttributeId::Unicode {
            // always as character references
            let mut e = Vec::with_capacity(64);
            for c in into_string(val).chars() {
                put(&mut e, "&#x");
                hex(&mut e, c as u32);
                e.push(b';');
            }
            attribute(out, depth, keep, o, nm, &e, true);
        } else {
            attribute(out, depth, keep, o, nm, &val, false);
        }
    }
    for a in at.iter() {
        if let QName::Name(ref s) = a.name {
            attribute(out, depth, keep, o, s, &value_text(a, o), false);
        }
    }
    if !n.has_children() {
        return put(out, "/>");
    }
    out.push(b'>');
    let inner = keep || name == "text";
    for c in n.children() {
        expected(out, &c, depth + 1, inner, o);
    }
    line(out, depth, inner, o);
    put(out, "</");
    put(out, &name);
    out.push(b'>');
}
pub fn layout(doc: &Document, o: &WriteOptions) {
    let mut want = Vec::with_capacity(1000);
    for c in doc.root().children() {
        expected(&mut want, &c, 0, false, o);
    }
    if o.indent != Indent::None {
        want.push(b'\n');
    }
    let got = doc.to_string_with_opt(o);
    check(got.as_bytes() == &want[..], "the text is written as the options say");
    note(got.as_bytes());
}

// ------------------------------------------------------------------ documents

/// One character of an attribute value.
fn value_char(v: &mut Vec<u8>) {
    let k = choose(9);
    if k == 0 {
        let b = byte();
        assume(b >= b' ' && b < 127 && b != b'<' && b != b'&' && b != b'\'');
        v.push(b);
    } else {
        put(v, ["&#9;", "&#10;", "&#13;", "&amp;", "&lt;", "&quot;", "&apos;", "\u{20ac}"][k - 1]);
    }
}
/// A string attribute and an id with `k` arbitrary characters.
fn strings(k: usize, names: &[&str]) {
    let mut v = Vec::with_capacity(400);
    v.extend_from_slice(OPEN);
    put(&mut v, "<rect ");
    let i = choose(names.len());
    put(&mut v, names[i]);
    put(&mut v, "='");
    let m = v.len();
    for _ in 0..k {
        value_char(&mut v);
    }
    // a value of this attribute which looks like a reference is written as it is
    let amp = names[i] == "unicode" && v[m..].starts_with(b"&amp;#");
    put(&mut v, "'/></svg>");
    let doc = match parse_ok(v) {
        Some(d) => d,
        None => return,
    };
    if amp {
        return known(&doc, "unicode-reference");
    }
    reach("written");
    finish(&doc, false);
}
const STRS: &[&str] = &["font-family", "id", "unicode", "xlink:href", "xml:lang"];
harness!(c16_str, {
    mode(1);
    strings(2, STRS)
});
harness!(c16_str1, {
    mode(1);
    strings(1, STRS)
});
harness!(c16_strt, {
    mode(1);
    strings(3, STRS)
});
/// What looks like a reference when it is written without care.
fn entities(k: usize) {
    let mut v = Vec::with_capacity(400);
    v.extend_from_slice(OPEN);
    put(&mut v, "<rect ");
    let i = choose(STRS.len());
    put(&mut v, STRS[i]);
    put(&mut v, "='");
    let m = v.len();
    for _ in 0..1 + choose(k) {
        put(&mut v, ["&amp;", "&lt;", "#", "lt", "amp", "quot", ";", "x41", "65", " "][choose(10)]);
    }
    let amp = STRS[i] == "unicode" && v[m..].starts_with(b"&amp;#");
    put(&mut v, "'/></svg>");
    let doc = match parse_ok(v) {
        Some(d) => d,
        None => return,
    };
    if amp {
        return known(&doc, "unicode-reference");
    }
    reach("written");
    finish(&doc, false);
}
harness!(c16_ent, {
    mode(1);
    entities(3)
});
harness!(c16_entt, {
    mode(1);
    entities(4)
});
harness!(c17_str, {
    mode(2);
    strings(1, STRS)
});
harness!(c17_strt, {
    mode(2);
    strings(2, STRS)
});

/// Text with any characters.
fn chars(k: usize) {
    let mut v = Vec::with_capacity(300);
    v.extend_from_slice(OPEN);
    put(&mut v, "<text>");
    let mut amp = false;
    let mut end = false; // "]>": roxmltree does not accept it, although it is fine
    let mut br = false;
    for _ in 0..k {
        let c = choose(5);
        let mut nbr = false;
        match c {
            0 => {
                let b = byte();
                assume(b > b' ' && b < 127 && b != b'<' && b != b'&' && b != b'>');
                v.push(b);
                nbr = b == b']';
            }
            1 => {
                put(&mut v, "&amp;");
                amp = true;
            }
            2 => put(&mut v, "&lt;"),
            3 => {
                put(&mut v, "&gt;");
                end |= br;
            }
            _ => put(&mut v, "\u{20ac}"),
        }
        br = nbr;
    }
    put(&mut v, "</text></svg>");
    let doc = match parse_ok(v) {
        Some(d) => d,
        None => return,
    };
    if amp {
        return known(&doc, "text-ampersand");
    }
    if end {
        return known(&doc, "text-bracket");
    }
    reach("written");
    finish(&doc, false);
}
harness!(c16_chr, {
    mode(1);
    chars(2)
});
harness!(c16_chrt, {
    mode(1);
    chars(3)
});

harness!(c16_txt, {
    mode(1);
    c14(3, 2, 0, 2, true)
});
harness!(c16_txp, {
    mode(1);
    c14(3, 2, 1, 2, true)
});
harness!(c16_txm, {
    mode(1);
    c14(3, 1, 2, 2, false)
});
harness!(c16_txt2, {
    mode(1);
    c14(5, 1, 0, 2, true)
});
harness!(c16_txp2, {
    mode(1);
    c14(4, 2, 1, 2, true)
});
harness!(c16_txm2, {
    mode(1);
    c14(4, 1, 2, 2, true)
});
harness!(c17_txt, {
    mode(2);
    c14(3, 1, 2, 2, false)
});
harness!(c17_txtt, {
    mode(2);
    c14(4, 1, 0, 2, true)
});

/// Nested text elements and text in other elements.
fn nested() {
    let mut v = Vec::with_capacity(500);
    v.extend_from_slice(OPEN);
    put(&mut v, "<text>");
    let parts = ["a", "<text>b</text>", "<tspan>c</tspan>", "<text><tspan>d</tspan>e</text>", "<g/>", " f "];
    let n = 1 + choose(3);
    let mut last = 9;
    for _ in 0..n {
        let k = choose(6);
        assume(!((last == 0 || last == 5) && (k == 0 || k == 5)));
        last = k;
        put(&mut v, parts[k]);
    }
    put(&mut v, "</text>");
    put(&mut v, ["", "<desc>x y</desc>", "<g><title>x</title></g><rect/>"][choose(3)]);
    put(&mut v, "</svg>");
    let doc = match parse_ok(v) {
        Some(d) => d,
        None => return,
    };
    finish(&doc, false);
}
harness!(c16_nest, {
    mode(1);
    nested()
});
harness!(c17_nest, {
    mode(2);
    nested()
});

harness!(c16_lnk, {
    mode(1);
    c13(2, 8, false)
});
harness!(c16_lnkt, {
    mode(1);
    c13(3, 3, false)
});
harness!(c17_lnk, {
    mode(2);
    c13(2, 3, false)
});
harness!(c16_tree, {
    mode(1);
    c11(3, &[0, 1, 3, 6, 8, 10], false)
});
harness!(c16_treet, {
    mode(1);
    c11(4, &[0, 1, 3, 6, 8, 10], true)
});
harness!(c17_tree, {
    mode(2);
    c11(3, &[0, 1, 3, 6, 8, 10], false)
});
harness!(c17_treet, {
    mode(2);
    c11(4, &[0, 3, 6, 8, 10], false)
});
/// Every attribute with every text of the table.
harness!(c16_tab, {
    mode(1);
    table()
});
harness!(c17_tab, {
    mode(2);
    table()
});
/// Two attributes in any order: the written order is canonical.
fn order(n: usize, pool: &[usize]) {
    let mut doc = Document::new();
    let mut svg = doc.create_element(ElementId::Svg);
    let mut e = doc.create_element(ElementId::Rect);
    doc.root().append(svg.clone());
    svg.append(e.clone());
    for _ in 0..n {
        let k = if pool.is_empty() { index(ATTRS.len() + 3) } else { pool[choose(pool.len())] };
        if k < ATTRS.len() {
            let a = &ATTRS[k];
            assume(a.kind != Kind::Id);
            e.set_attribute((a.id, "v"));
        } else if k == ATTRS.len() {
            e.set_id("i");
        } else {
            e.set_attribute((["", "zz", "aa:b"][k - ATTRS.len()], "c"));
        }
    }
    layout(&doc, &options(3));
}
harness!(c17_ord2, { order(2, &[]) });
harness!(c17_ord, {
    let l = ATTRS.len();
    order(4, &[0, 1, l / 3, l / 2, l - 1, l, l + 1, l + 2])
});
harness!(c17_ordt, {
    let l = ATTRS.len();
    order(5, &[0, 1, l / 3, l / 2, l - 1, l, l + 1, l + 2])
});

/// Documents made with the API: nodes, ids, links, then edits.
fn api(n: usize, links: usize, edits: usize, set: &[u8]) {
    let mut doc = Document::new();
    let mut svg = doc.create_element(ElementId::Svg);
    doc.root().append(svg.clone());
    let mut h: Vec<Node> = Vec::with_capacity(8);
    let mut ids: Vec<u8> = Vec::with_capacity(8);
    for i in 0..n {
        let mut e = doc.create_element([ElementId::G, ElementId::Rect, ElementId::LinearGradient, ElementId::Text][i & 3]);
        let b = byte_in(set);
        for x in &ids {
            assume(b != *x);
        }
        ids.push(b);
        e.set_id(into_string(vec![b]));
        let p = choose(i + 1);
        if p == 0 {
            svg.append(e.clone());
        } else {
            h[p - 1].append(e.clone());
        }
        h.push(e);
    }
    for _ in 0..links {
        let (f, t) = (choose(n), choose(n));
        assume(f != t);
        let target = h[t].clone();
        let r = match choose(3) {
            0 => h[f].set_attribute_checked((AttributeId::Href, AttributeValue::Link(target))),
            1 => h[f].set_attribute_checked((AttributeId::Mask, AttributeValue::FuncLink(target))),
            _ => h[f].set_attribute_checked((AttributeId::Fill, AttributeValue::Paint(target, Some(PaintFallback::Color(Color::new(1, 2, 3)))))),
        };
        assume(r.is_ok());
    }
    for _ in 0..edits {
        let i = choose(n);
        match choose(5) {
            0 => {
                let b = byte_in(set);
                for x in &ids {
                    assume(b != *x);
                }
                ids[i] = b;
                h[i].set_id(into_string(vec![b]));
            }
            1 => {
                let j = choose(n);
                assume(i != j && !h[j].ancestors().any(|x| x == h[i]));
                let c = h[i].clone();
                h[j].append(c);
            }
            2 => {
                let j = choose(n);
                assume(i != j && !h[j].ancestors().any(|x| x == h[i]));
                let c = h[i].clone();
                h[j].insert_before(c);
            }
            3 => {
                let c = h[i].clone();
                doc.remove_node(c);
            }
            _ => {
                let c = doc.copy_node_deep(h[i].clone());
                svg.append(c);
            }
        }
    }
    finish(&doc, true);
}
harness!(c16_api, {
    mode(1);
    api(3, 1, 1, b"a&<c")
});
harness!(c16_api2, {
    mode(1);
    api(2, 2, 1, b"aB&'\"<(")
});
harness!(c16_apit, {
    mode(1);
    api(3, 2, 1, b"abcd")
});
harness!(c16_apit2, {
    mode(1);
    api(3, 1, 2, b"abcd")
});
harness!(c17_api, {
    mode(2);
    api(2, 1, 1, b"aB&'\"<(")
});

/// Anything can be written: nodes of every type everywhere, custom names, no svg element.
fn any_tree(n: usize) {
    let mut doc = Document::new();
    let mut h: Vec<Node> = Vec::with_capacity(8);
    h.push(doc.root());
    for _ in 0..n {
        let e = match choose(5) {
            0 => doc.create_element(ElementId::Svg),
            1 => doc.create_element(ElementId::Text),
            2 => doc.create_element("x:y"),
            3 => doc.create_node(NodeType::Text, "t"),
            _ => doc.create_node(NodeType::Comment, "c"),
        };
        let p = choose(h.len());
        assume(h[p].is_root() || h[p].is_element());
        h[p].append(e.clone());
        h.push(e);
    }
    layout(&doc, &options(6));
}
harness!(c17_any, { any_tree(3) });
harness!(c17_anyt, { any_tree(4) });

/// Number and list notation.
harness!(c17_val, {
    let mut o = WriteOptions::default();
    o.indent = Indent::None;
    let (a, b, c) = (choose(2) == 1, choose(2) == 1, choose(3));
    o.values.trim_hex_colors = a;
    o.values.remove_leading_zero = b;
    o.values.simplify_transform_matrices = a;
    o.values.use_compact_path_notation = b;
    o.values.list_separator = [ListSeparator::Space, ListSeparator::Comma, ListSeparator::CommaSpace][c];
    let sep = [" ", ",", ", "][c];
    let mut v = Vec::with_capacity(400);
    v.extend_from_slice(OPEN);
    put(&mut v, "<rect fill='#112233' stroke='#123456' stroke-width='0.5' opacity='0.25' stroke-dasharray='1 0.5 2' transform='matrix(1 0 0 1 10 20)' flood-color='#aabbcc'/><path d='M 1 2 L 3 -4'/><polygon points='1 2 3 4'/></svg>");
    let doc = match parse_ok(v) {
        Some(d) => d,
        None => return,
    };
    let half = if b { ".5" } else { "0.5" };
    let mut w = Vec::with_capacity(400);
    put(&mut w, "<svg xmlns=\"http://www.w3.org/2000/svg\"><rect fill=\"");
    put(&mut w, if a { "#123" } else { "#112233" });
    put(&mut w, "\" flood-color=\"");
    put(&mut w, if a { "#abc" } else { "#aabbcc" });
    put(&mut w, "\" opacity=\"");
    put(&mut w, if b { ".25" } else { "0.25" });
    put(&mut w, "\" stroke=\"#123456\" stroke-dasharray=\"1");
    put(&mut w, sep);
    put(&mut w, half);
    put(&mut w, sep);
    put(&mut w, "2\" stroke-width=\"");
    put(&mut w, half);
    put(&mut w, "\" transform=\"");
    if a {
        put(&mut w, "translate(10 20)");
    } else {
        put(&mut w, "matrix(1");
        for x in ["0", "0", "1", "10", "20"] {
            put(&mut w, sep);
            put(&mut w, x);
        }
        put(&mut w, ")");
    }
    put(&mut w, "\"/><path d=\"");
    put(&mut w, if b { "M1 2L3-4" } else { "M 1 2 L 3 -4" });
    put(&mut w, "\"/><polygon points=\"1");
    for x in ["2", "3", "4"] {
        put(&mut w, sep);
        put(&mut w, x);
    }
    put(&mut w, "\"/></svg>");
    let got = doc.to_string_with_opt(&o);
    note(got.as_bytes());
    check(got.as_bytes() == &w[..], "values are written in the chosen notation");
});

/// Neighbours and others, set in both orders.
harness!(c17_near, {
    let n = ATTRS.len();
    let i = index(n);
    let mut doc = Document::new();
    let mut svg = doc.create_element(ElementId::Svg);
    let mut e = doc.create_element(ElementId::Rect);
    doc.root().append(svg.clone());
    svg.append(e.clone());
    e.set_attribute(("zz", "c"));
    let offs = if choose(2) == 0 { [0, 1, 2, 57, 131, 190] } else { [190, 131, 57, 2, 1, 0] };
    for o in offs {
        let a = &ATTRS[(i + o) % n];
        if a.kind != Kind::Id {
            e.set_attribute((a.id, "v"));
        }
    }
    e.set_attribute(("aa", "c"));
    layout(&doc, &options(2));
});
/// A reference on any element of a tree, the svg element included.
fn href(n: usize) {
    let mut doc = Document::new();
    let mut h: Vec<Node> = Vec::with_capacity(8);
    h.push(doc.root());
    for i in 0..n {
        let mut e = match choose(3) {
            0 => doc.create_element(ElementId::Svg),
            1 => doc.create_element(ElementId::G),
            _ => doc.create_element("cust"),
        };
        e.set_id(["a", "b", "c", "d"][i]);
        let p = choose(h.len());
        h[p].append(e.clone());
        h.push(e);
    }
    let f = 1 + choose(n);
    match choose(4) {
        0 => h[f].set_attribute((AttributeId::Href, "#x")),
        1 => {
            let t = 1 + choose(n);
            assume(t != f);
            let t = h[t].clone();
            h[f].set_attribute((AttributeId::Href, t));
        }
        2 => h[f].set_attribute(("href", "#x")),
        _ => h[f].set_attribute((AttributeId::Fill, "#x")),
    }
    layout(&doc, &options(3));
}
harness!(c17_href, { href(3) });
harness!(c17_hreft, { href(4) });
/// Long texts with characters of several bytes.
fn long_text() {
    let k = choose(10);
    let (a, b) = PLACES[[0, 3, 4, 5, 15, 22, 26, 28, 32, 33][k]];
    let mut v = Vec::with_capacity(1500);
    v.extend_from_slice(OPEN);
    put(&mut v, a);
    long(&mut v, 60);
    put(&mut v, b);
    put(&mut v, "</svg>");
    let doc = match parse_ok(v) {
        Some(d) => d,
        None => return,
    };
    finish(&doc, k == 5);
}
harness!(c16_mb, {
    mode(1);
    long_text()
});
harness!(c17_mb, {
    mode(2);
    long_text()
});

harness!(c17_opt, {
    mode(5);
    c11(2, &[0, 6, 8, 10], false)
});
harness!(c17_opt2, {
    mode(5);
    c14(3, 1, 1, 2, true)
});
harness!(c17_opt3, {
    mode(5);
    c13(2, 3, false)
});
harness!(c10_chr, {
    mode(3);
    chars(2)
});
harness!(c10_strs, {
    mode(3);
    strings(2, STRS)
});
harness!(c10_nest, {
    mode(3);
    nested()
});
