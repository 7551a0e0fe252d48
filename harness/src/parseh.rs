//! Parsing: C10 (robustness), C11 (filtering), C12 (cascade), C13 (links), C15 (values).
use super::dump::*;
use super::sym::*;
use svgdom::*;

struct Sink;
static mut BYTES: usize = 0;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let s = format!("{}", r.args());
        unsafe { BYTES += s.len() }
    }
    fn flush(&self) {}
}
static SINK: Sink = Sink;

/// Messages are formatted, as with any real logger.
pub fn logging() {
    let _ = log::set_logger(&SINK);
    log::set_max_level(log::LevelFilter::Trace);
}

pub const OPEN: &[u8] = b"<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink'>";

/// What every successfully parsed document looks like.
pub fn check_parsed(doc: &Document) {
    let root = doc.root();
    check(root.is_root() && root.parent().is_none(), "the document has a root node");
    let mut first = true;
    for c in root.children() {
        check(!c.is_text(), "no text outside of the svg element");
        if c.is_element() {
            if first {
                check(c.has_tag_name(ElementId::Svg), "the first element is svg");
                check(doc.svg_element() == Some(c.clone()), "svg_element() is the first element");
            }
            first = false;
        }
    }
    check(!first, "a parsed document has an svg element");
    for n in root.descendants() {
        check(!n.is_detached(), "every node of the tree belongs to the document");
        if n.is_element() {
            check(n.is_svg_element(), "only SVG elements are kept");
            check(!n.has_tag_name(ElementId::Style), "style elements are removed");
            for a in n.attributes().iter() {
                check(a.is_svg(), "only SVG attributes are kept");
                check(!a.has_id(AttributeId::Style) && !a.has_id(AttributeId::Class) && !a.has_id(AttributeId::Id), "style, class and id are not attributes");
                match a.value {
                    AttributeValue::Link(ref t) | AttributeValue::FuncLink(ref t) | AttributeValue::Paint(ref t, _) => {
                        check(t.root() == root, "links lead to nodes of the document");
                        check(t.has_id(), "link targets have an id");
                        check(t.linked_nodes().iter().any(|x| *x == n), "link targets know who refers to them");
                        reach("link");
                    }
                    _ => {}
                }
            }
            for l in n.linked_nodes().iter() {
                check(l.root() == root, "back-references lead to nodes of the document");
            }
        } else if n.is_text() {
            check(!n.text().is_empty(), "no empty text nodes");
        }
    }
}

fn parse(v: Vec<u8>) -> Option<Document> {
    logging();
    let s = into_string(v);
    match Document::from_str(&s) {
        Ok(d) => {
            reach("ok");
            check_parsed(&d);
            Some(d)
        }
        Err(_) => {
            reach("err");
            None
        }
    }
}

fn tmpl(pre: &[&[u8]], k: usize, set: &[u8], post: &[u8]) {
    let mut v = Vec::with_capacity(512);
    for p in pre {
        v.extend_from_slice(p);
    }
    push_any(&mut v, k, set);
    v.extend_from_slice(post);
    if let Some(d) = parse(v) {
        note(&dump(&d));
    }
}

// markup inside of the svg element
harness!(c10_xml, { tmpl(&[OPEN], 4, b"<>/a!?-&;' =", b"</svg>") });
// nothing but a few bytes
harness!(c10_raw, { tmpl(&[], 4, b"<>/a!?-&;' =\xef\xbb\xbf", b"") });
// prologue
harness!(c10_pro, { tmpl(&[], 3, b"<>/a!?- &", b"<svg xmlns='http://www.w3.org/2000/svg'/>") });
// attribute list
harness!(c10_att, { tmpl(&[OPEN, b"<rect x"], 3, b"=\"'> /x1&:", b"=''/></svg>") });
// CSS
harness!(c10_css, { tmpl(&[OPEN, b"<style>"], 4, b"*{}:;#.f,@/ ", b"</style><a/></svg>") });
harness!(c10_css2, { tmpl(&[OPEN, b"<style>*{fill"], 3, b"{}:;#!()'\\,- ", b"}</style><a/></svg>") });
harness!(c10_sty, { tmpl(&[OPEN, b"<a id='a' style=\"fill"], 4, b":;a#(){}'/*! ", b"\"/></svg>") });

/// Where a long text with characters of several bytes may stand.
pub const PLACES: [(&str, &str); 34] = [
    ("<text>", "</text>"),
    ("<rect width='", "'/>"),
    ("<rect fill='", "'/>"),
    ("<rect font-family='", "'/>"),
    ("<rect id='", "'/>"),
    ("<rect xlink:href='#", "'/>"),
    ("<rect fill='url(#", ")'/>"),
    ("<rect fill='url(#a) ", "'/>"),
    ("<rect style='", "'/>"),
    ("<rect style='fill:", "'/>"),
    ("<rect style='", ":red'/>"),
    ("<rect class='", "'/>"),
    ("<style>", "</style><rect/>"),
    ("<style>rect{fill:", "}</style><rect/>"),
    ("<style>.", "{fill:red}</style><rect/>"),
    ("<!--", "-->"),
    ("<?p ", "?>"),
    ("<path d='M 1 2 ", "'/>"),
    ("<rect transform='", "'/>"),
    ("<", "/>"),
    ("<rect ", "='1'/>"),
    ("<rect xmlns:z='", "'/>"),
    ("<title>", "</title>"),
    ("<rect viewBox='", "'/>"),
    ("<polygon points='1 2 ", "'/>"),
    ("<foo>", "</foo>"),
    ("<text><![CDATA[", "]]></text>"),
    ("<text xml:space='", "'> a </text>"),
    ("<text xml:space='preserve'> <tspan>", " </tspan> </text>"),
    ("<rect opacity='", "'/>"),
    ("<rect stroke-dasharray='", "'/>"),
    ("<style type='", "'/><rect/>"),
    ("<g clip-path='url(#", ")'/>"),
    ("<glyph unicode='", "'/>"),
];
pub fn long(v: &mut Vec<u8>, n: usize) {
    for _ in 0..choose(4) {
        v.push(b'x');
    }
    let c = ["\u{e9}", "\u{20ac}", "\u{10330}"][choose(3)];
    for _ in 0..n {
        v.extend_from_slice(c.as_bytes());
    }
}
fn multibyte(n: usize) {
    let (a, b) = PLACES[choose(PLACES.len())];
    let mut v = Vec::with_capacity(1500);
    v.extend_from_slice(OPEN);
    v.extend_from_slice(a.as_bytes());
    long(&mut v, n);
    v.extend_from_slice(b.as_bytes());
    v.extend_from_slice(b"</svg>");
    if let Some(d) = parse(v) {
        note(&dump(&d));
    }
}
harness!(c10_mb, { multibyte(90) });

/// Arbitrary bytes which are valid UTF-8.
fn utf8(k: usize) {
    let (a, b) = [("<text>", "</text>"), ("<rect fill='", "'/>"), ("<rect style='fill:", "'/>"), ("<style>", "</style>"), ("<", "/>"), ("<rect ", "=''/>"), ("<rect id='", "'/>"), ("<!--", "-->")][choose(8)];
    let mut v = Vec::with_capacity(400);
    v.extend_from_slice(OPEN);
    v.extend_from_slice(a.as_bytes());
    for _ in 0..k {
        v.push(byte());
    }
    v.extend_from_slice(b.as_bytes());
    v.extend_from_slice(b"</svg>");
    if let Some(d) = parse(v) {
        note(&dump(&d));
    }
}
harness!(c10_utf, { utf8(2) });
harness!(c10_utft, { utf8(3) });
/// Entities.
fn entity(k: usize) {
    let mut v = Vec::with_capacity(400);
    v.extend_from_slice(b"<!DOCTYPE svg [<!ENTITY e \"");
    push_any(&mut v, k, b"<>/a&;e#' ");
    v.extend_from_slice(b"\">]>");
    v.extend_from_slice(OPEN);
    v.extend_from_slice([&b"<text> &e; </text></svg>"[..], b"<rect fill='&e;'/></svg>", b"<rect style='&e;' id='&e;'/></svg>", b"<style>&e;</style></svg>"][choose(4)]);
    if let Some(d) = parse(v) {
        note(&dump(&d));
    }
}
harness!(c10_ent, { entity(3) });
harness!(c10_entt, { entity(4) });
/// Which documents are refused.
harness!(c10_root, {
    let pre = ["", "<?xml version='1.0'?>", "<!--c-->", "<!DOCTYPE svg>", " ", "\u{feff}"][choose(6)];
    let k = choose(12);
    let body = [
        "<svg xmlns='http://www.w3.org/2000/svg'/>",
        "<s:svg xmlns:s='http://www.w3.org/2000/svg'/>",
        "<svg xmlns='http://www.w3.org/2000/svg'><g/></svg>",
        "",
        "<svg/>",
        "<g xmlns='http://www.w3.org/2000/svg'/>",
        "<svg xmlns='urn:x'/>",
        "<svg xmlns='http://www.w3.org/2000/svg'>",
        "<foo xmlns='http://www.w3.org/2000/svg'/>",
        "<foo><svg xmlns='http://www.w3.org/2000/svg'/></foo>",
        "<Svg xmlns='http://www.w3.org/2000/svg'/>",
        "<svg xmlns='http://www.w3.org/2000/svg'/><svg xmlns='http://www.w3.org/2000/svg'/>",
    ][k];
    let post = ["", "<!--c-->", "\n", "<?p?>"][choose(4)];
    let mut v = Vec::with_capacity(300);
    v.extend_from_slice(pre.as_bytes());
    v.extend_from_slice(body.as_bytes());
    v.extend_from_slice(post.as_bytes());
    let r = parse(v);
    if k == 7 {
        // a recorded defect
        reach(if r.is_some() { "unclosed-root" } else { "refused" });
        return;
    }
    check(r.is_some() == (k < 3), "exactly well-formed documents with an svg element are parsed");
    if let Some(d) = r {
        note(&dump(&d));
    }
});
