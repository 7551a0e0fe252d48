//! Canonical rendering of a document, independent of the code under test's writer.
use svgdom::*;

pub fn esc(out: &mut Vec<u8>, s: &str) {
    out.push(b'"');
    out.extend_from_slice(s.as_bytes());
    out.push(b'"');
}

fn index(order: &[Node], n: &Node) -> u8 {
    for (i, x) in order.iter().enumerate() {
        if x == n {
            return i as u8;
        }
    }
    255
}
fn num(out: &mut Vec<u8>, mut n: u32) {
    let mut t = [0u8; 10];
    let mut i = 10;
    loop {
        i -= 1;
        t[i] = b'0' + (n % 10) as u8;
        n /= 10;
        if n == 0 {
            break;
        }
    }
    out.extend_from_slice(&t[i..]);
}

/// Kind letter plus content.
pub fn value(out: &mut Vec<u8>, order: &[Node], v: &AttributeValue) {
    let opt = ValueWriteOptions::default();
    match v {
        AttributeValue::None => out.extend_from_slice(b"none"),
        AttributeValue::Inherit => out.extend_from_slice(b"inherit"),
        AttributeValue::CurrentColor => out.extend_from_slice(b"currentColor"),
        AttributeValue::String(s) => {
            out.push(b'S');
            esc(out, s);
        }
        AttributeValue::Color(c) => {
            out.extend_from_slice(b"Color ");
            for x in [c.red, c.green, c.blue] {
                num(out, x as u32);
                out.push(b' ');
            }
        }
        AttributeValue::Link(n) => {
            out.extend_from_slice(b"Link ");
            num(out, index(order, n) as u32);
        }
        AttributeValue::FuncLink(n) => {
            out.extend_from_slice(b"Func ");
            num(out, index(order, n) as u32);
        }
        AttributeValue::Paint(n, f) => {
            out.extend_from_slice(b"Paint ");
            num(out, index(order, n) as u32);
            match f {
                None => {}
                Some(PaintFallback::None) => out.extend_from_slice(b" none"),
                Some(PaintFallback::CurrentColor) => out.extend_from_slice(b" currentColor"),
                Some(PaintFallback::Color(c)) => {
                    out.extend_from_slice(b" Color ");
                    for x in [c.red, c.green, c.blue] {
                        num(out, x as u32);
                        out.push(b' ');
                    }
                }
            }
        }
        AttributeValue::Number(x) => {
            out.extend_from_slice(b"Num ");
            x.write_buf_opt(&opt, out);
        }
        AttributeValue::NumberList(x) => {
            out.extend_from_slice(b"NumList ");
            x.write_buf_opt(&opt, out);
        }
        AttributeValue::Length(x) => {
            out.extend_from_slice(b"Len ");
            x.write_buf_opt(&opt, out);
        }
        AttributeValue::LengthList(x) => {
            out.extend_from_slice(b"LenList ");
            x.write_buf_opt(&opt, out);
        }
        AttributeValue::Angle(x) => {
            out.extend_from_slice(b"Angle ");
            x.write_buf_opt(&opt, out);
        }
        AttributeValue::Transform(x) => {
            out.extend_from_slice(b"Ts ");
            x.write_buf_opt(&opt, out);
        }
        AttributeValue::Path(x) => {
            out.extend_from_slice(b"Path ");
            x.write_buf_opt(&opt, out);
        }
        AttributeValue::Points(x) => {
            out.extend_from_slice(b"Points ");
            x.write_buf_opt(&opt, out);
        }
        AttributeValue::ViewBox(x) => {
            out.extend_from_slice(b"ViewBox ");
            x.write_buf_opt(&opt, out);
        }
        AttributeValue::AspectRatio(x) => {
            out.extend_from_slice(b"Aspect ");
            x.write_buf_opt(&opt, out);
        }
    }
}

fn name(out: &mut Vec<u8>, n: &AttributeQName) {
    match n {
        QName::Id(id) => out.extend_from_slice(id.as_str().as_bytes()),
        QName::Name(s) => {
            out.push(b'!');
            out.extend_from_slice(s.as_bytes());
        }
    }
}

fn node(out: &mut Vec<u8>, order: &[Node], n: &Node, merge: bool) {
    match n.node_type() {
        NodeType::Root => {}
        NodeType::Comment => {
            out.extend_from_slice(b"C");
            esc(out, &n.text());
            return;
        }
        NodeType::Text => {
            out.extend_from_slice(b"T");
            esc(out, &n.text());
            return;
        }
        NodeType::Element => {
            match *n.tag_name() {
                QName::Id(id) => out.extend_from_slice(id.as_str().as_bytes()),
                QName::Name(ref s) => {
                    out.push(b'!');
                    out.extend_from_slice(s.as_bytes());
                }
            }
            if !n.id().is_empty() {
                out.push(b'#');
                esc(out, &n.id());
            }
            let at = n.attributes();
            // sorted by SVG id, custom names after that, in order
            let mut ids: Vec<(usize, &Attribute)> = Vec::with_capacity(8);
            for a in at.iter() {
                let k = match a.name {
                    QName::Id(id) => id as usize,
                    QName::Name(_) => 100_000,
                };
                let p = ids.iter().position(|x| x.0 > k).unwrap_or(ids.len());
                ids.insert(p, (k, a));
            }
            for (_, a) in ids {
                out.push(b'[');
                name(out, &a.name);
                out.push(b'=');
                value(out, order, &a.value);
                out.push(b']');
            }
        }
    }
    if n.has_children() {
        out.push(b'(');
        let mut text = false;
        for c in n.children() {
            if merge && text && c.is_text() {
                out.truncate(out.len() - 2);
                out.extend_from_slice(c.text().as_bytes());
                out.push(b'"');
            } else {
                node(out, order, &c, merge);
            }
            text = c.is_text();
            out.push(b' ');
        }
        out.push(b')');
    }
}

pub fn dump(doc: &Document) -> Vec<u8> {
    dump_node(&doc.root())
}
/// Adjacent text nodes count as one.
pub fn dump_merged(doc: &Document) -> Vec<u8> {
    dump_any(&doc.root(), true)
}
pub fn dump_node(root: &Node) -> Vec<u8> {
    dump_any(root, false)
}
fn dump_any(root: &Node, merge: bool) -> Vec<u8> {
    let mut order = Vec::with_capacity(16);
    for n in root.descendants() {
        if !merge || !n.is_text() {
            order.push(n);
        }
    }
    let mut out = Vec::with_capacity(512);
    node(&mut out, &order, root, merge);
    out
}
