//! C25: requests that cannot be carried out are refused.
use super::links::{elems, kind, name, same_value, V};
use super::parseh::{logging, OPEN};
use super::sym::*;
use super::treeh::*;
use svgdom::*;

/// Every forest, every node, every edit of a node with itself.
fn itself(n: usize) {
    let mut w = any_forest(n, true);
    let x = choose(n + 1);
    let a = w.h[x].clone();
    let mut b = w.h[x].clone();
    match choose(4) {
        0 => must_panic("a node is not appended to itself", || b.append(a)),
        1 => must_panic("a node is not prepended to itself", || b.prepend(a)),
        2 => must_panic("a node is not inserted before itself", || b.insert_before(a)),
        _ => must_panic("a node is not inserted after itself", || b.insert_after(a)),
    }
    w.h.clear();
}
harness!(c25_self, { itself(3) });
harness!(c25_selft, { itself(4) });

// elements with an empty name, nodes that need one
harness!(c25_name, {
    let mut doc = Document::new();
    let mut v = Vec::with_capacity(4);
    let k = choose(4);
    for _ in 0..k {
        let b = byte();
        assume(b < 0x80);
        v.push(b);
    }
    let s = into_string(v);
    let how = choose(4);
    if how == 0 {
        if s.is_empty() {
            must_panic("an element needs a name", || doc.create_element(""));
            return;
        }
        let e = doc.create_element(s.as_str());
        check(e.is_element(), "an element is created");
        reach("named");
    } else {
        let mut e = match how {
            1 => doc.create_element(ElementId::Rect),
            2 => doc.create_element("a name"),
            _ => {
                let mut e = doc.create_element(ElementId::G);
                doc.root().append(e.clone());
                e.set_id("a");
                e
            }
        };
        if s.is_empty() {
            must_panic("an element keeps a name", || e.set_tag_name(""));
            return;
        }
        e.set_tag_name(s.as_str());
        check(e.is_element(), "the element is renamed");
        reach("named");
    }
});

// nodes made from a kind and a text
harness!(c25_kind, {
    let mut doc = Document::new();
    let mut v = Vec::with_capacity(4);
    for _ in 0..choose(3) {
        let b = byte();
        assume(b < 0x80);
        v.push(b);
    }
    let s = into_string(v);
    match choose(4) {
        0 => must_panic("an element is not created without a name", || doc.create_node(NodeType::Element, s)),
        1 => must_panic("no second root is created", || doc.create_node(NodeType::Root, s)),
        2 => {
            let n = doc.create_node(NodeType::Text, s.clone());
            check(n.is_text() && *n.text() == s, "a text node is created");
            reach("text");
        }
        _ => {
            let n = doc.create_node(NodeType::Comment, s.clone());
            check(n.is_comment() && *n.text() == s, "a comment is created");
        }
    }
});

/// A link between two of `n` elements with arbitrary ids, given through methods that report no errors.
fn links(n: usize, k: usize, names: usize) {
    let mut doc = Document::new();
    let mut h = elems(&mut doc, n);
    let mut ids: Vec<String> = Vec::with_capacity(n);
    for i in 0..n {
        let mut v = Vec::with_capacity(4);
        for _ in 0..choose(k + 1) {
            let b = byte();
            assume(b < 0x7f);
            v.push(b);
        }
        let id = into_string(v);
        h[i].set_id(id.clone());
        ids.push(id);
    }
    // an earlier link
    let back = choose(2) == 1;
    let (i, t) = (choose(n), choose(n));
    if back {
        assume(!ids[i].is_empty() && ids[i] != ids[t]);
        let from = h[i].clone();
        h[t].set_attribute((AttributeId::Mask, from));
    }
    // an earlier value
    let nm = choose(names) as u8;
    let had = choose(2) == 1;
    if had {
        h[i].set_attribute((name(nm), "old"));
    }
    let bad = ids[t].is_empty() || ids[i] == ids[t] || (back && i != t);
    let target = h[t].clone();
    match choose(2) {
        0 => {
            if bad {
                must_panic("a link that is not allowed is refused", || h[i].set_attribute((name(nm), target)));
                return;
            }
            h[i].set_attribute((name(nm), target));
            check(same_value(&h, h[i].attributes().get_value(name(nm)), Some(kind(nm, t as u8, 0))), "a valid link is set");
            reach("set");
        }
        _ => {
            if bad && !had {
                must_panic("a link that is not allowed is refused", || h[i].set_attribute_if_none((name(nm), target)));
                return;
            }
            h[i].set_attribute_if_none((name(nm), target));
            if had {
                check(h[i].attributes().get_value(name(nm)) == Some(&AttributeValue::from("old")), "an existing value stays");
                reach("kept");
            } else {
                check(same_value(&h, h[i].attributes().get_value(name(nm)), Some(kind(nm, t as u8, 0))), "a valid link is set");
            }
        }
    }
}
harness!(c25_link, { links(2, 1, 4) });
harness!(c25_linkt, { links(3, 2, 6) });

/// What an error says.
fn said(e: &ParserError) -> String {
    format!("{}", e)
}

/// The outcome of parsing against what the XML parser says about the same text.
fn outcome(v: Vec<u8>) {
    logging();
    let s = into_string(v);
    let xml = roxmltree::Document::parse(&s);
    match (Document::from_str(&s), &xml) {
        (Err(ParserError::RoXmlError(e)), Err(x)) => {
            check(format!("{}", e) == format!("{}", x), "the error is that of the XML parser");
            check(said(&ParserError::from(e)) == format!("{}", x), "the error says what the XML parser says");
            reach("xml error");
        }
        (_, Err(_)) => fail("malformed XML is reported as such"),
        (r, Ok(x)) => {
            let svg = x.root_element().tag_name().name() == "svg"
                && x.root_element().tag_name().namespace() == Some("http://www.w3.org/2000/svg");
            match r {
                Ok(_) => {
                    check(svg, "a document without an svg element is refused");
                    reach("ok");
                }
                Err(ParserError::NoSvgElement) => {
                    check(!svg, "a document with an svg element is accepted");
                    check(said(&ParserError::NoSvgElement) == "the document does not have an SVG element", "the error names its reason");
                    reach("no svg");
                }
                Err(_) => fail("well-formed XML is never refused for another reason"),
            }
        }
    }
}
fn around(pre: &[&[u8]], k: usize, set: &[u8], post: &[u8]) {
    let mut v = Vec::with_capacity(512);
    for p in pre {
        v.extend_from_slice(p);
    }
    push_any(&mut v, k, set);
    v.extend_from_slice(post);
    outcome(v);
}
harness!(c25_xml, { around(&[OPEN], 4, b"<>/a!?-&;' =", b"</svg>") });
harness!(c25_pro, { around(&[], 4, b"<>/a!?- &", b"<svg xmlns='http://www.w3.org/2000/svg'/>") });
harness!(c25_att, { around(&[OPEN, b"<rect x"], 4, b"=\"'> /x1&:", b"=''/></svg>") });
harness!(c25_sty, { around(&[OPEN, b"<style>"], 4, b"*{}:;#.f,@/ ", b"</style><a/></svg>") });

harness!(c25_raw, { around(&[], 4, b"<>/a!?-&;' =\xef\xbb\xbf", b"") });

// the name and the namespace of the first element, what stands before and after it
harness!(c25_root, {
    let mut v = Vec::with_capacity(512);
    let pre: [&str; 5] = ["", "<!-- svg -->", "<?svg svg?>", "<?xml version='1.0'?>\n", "\n<!DOCTYPE svg>"];
    v.extend_from_slice(pre[choose(5)].as_bytes());
    let pr: [&str; 2] = ["", "s:"];
    let p = pr[choose(2)];
    let mut nm: Vec<u8> = Vec::with_capacity(8);
    push_any(&mut nm, choose(3) + 1, b"svgSx");
    v.push(b'<');
    v.extend_from_slice(p.as_bytes());
    v.extend_from_slice(&nm);
    let ns: [&str; 5] = ["", " xmlns='http://www.w3.org/2000/svg'", " xmlns:s='http://www.w3.org/2000/svg'", " xmlns='http://www.w3.org/2000/SVG' xmlns:s='svg'", " xmlns='http://www.w3.org/2000/svg' xmlns:s='http://www.w3.org/1999/xhtml'"];
    v.extend_from_slice(ns[choose(5)].as_bytes());
    v.extend_from_slice(b"><svg xmlns='http://www.w3.org/2000/svg'/></");
    v.extend_from_slice(p.as_bytes());
    v.extend_from_slice(&nm);
    let post: [&str; 3] = [">", "><!--a-->", "><a/>"];
    v.extend_from_slice(post[choose(3)].as_bytes());
    outcome(v);
});

// what the errors of the API say
harness!(c25_say, {
    let (e, want) = match choose(2) {
        0 => (Error::ElementMustHaveAnId, "the element must have an id"),
        _ => (Error::ElementCrosslink, "element crosslink"),
    };
    check(format!("{}", e) == want, "the error names its reason");
    check(said(&ParserError::from(e)) == want, "the error names its reason");
});
