//! C14: white space in text.
use super::cascade::*;
use super::dump::*;
use super::parseh::*;
use super::sym::*;
use super::writeh::finish;
use svgdom::*;

const SP: [&str; 4] = ["", " xml:space='preserve'", " xml:space='default'", " xml:space='x'"];

pub struct Piece {
    pub text: Vec<u8>,
    pub keep: bool,
}
fn is_sp(b: u8) -> bool {
    b == b' ' || b == b'\t' || b == b'\n'
}
/// One character of text; `v` gets its source, `t` what the XML parser makes of it.
fn text_char(v: &mut Vec<u8>, t: &mut Vec<u8>, wide: u8) {
    if wide == 2 {
        // the two classes only
        let b = byte_in(b" a");
        v.push(b);
        t.push(b);
        return;
    }
    let k = if wide == 1 { choose(5) } else if wide == 3 { 5 + choose(7) } else { 0 };
    match k {
        0 => {
            let b = byte();
            assume(b == b'\t' || b == b'\n' || (b >= b' ' && b < 127 && b != b'<' && b != b'&' && b != b']'));
            v.push(b);
            t.push(b);
        }
        1 => {
            put(v, "\u{e9}");
            put(t, "\u{e9}");
        }
        2 => {
            put(v, "&#32;");
            put(t, " ");
        }
        3 => {
            put(v, "&lt;");
            put(t, "<");
        }
        4 => {
            put(v, "\r\n");
            put(t, "\n");
        }
        5 => {
            v.push(b' ');
            t.push(b' ');
        }
        6 => {
            v.push(b'a');
            t.push(b'a');
        }
        k => {
            // spaces of Unicode are characters like any others
            let s = ["\u{a0}", "\u{3000}", "\u{2028}", "\u{200b}", "\u{1f600}"][k - 7];
            put(v, s);
            put(t, s);
        }
    }
}

/// Elements of a text.
const INLINE: [(&str, &str); 5] = [
    ("<tspan", "</tspan>"),
    ("<textPath", "</textPath>"),
    ("<a", "</a>"),
    ("<tref", "</tref>"),
    ("<altGlyph", "</altGlyph>"),
];

/// `steps` pieces inside of a text element: text of `len` characters, nested elements, comments.
/// `spaces`: 0 - the default everywhere, 1 - preserve everywhere, 2 - any on any element.
pub fn c14(steps: usize, len: usize, spaces: u8, wide: u8, comments: bool) {
    c14_in(steps, len, spaces, wide, comments, 1)
}
/// With `tags` kinds of elements inside of the text element.
pub fn c14_in(steps: usize, len: usize, spaces: u8, wide: u8, comments: bool, tags: usize) {
    let mut open: Vec<u8> = Vec::with_capacity(8);
    let mut v = Vec::with_capacity(900);
    let pick = |x: bool| -> usize {
        match spaces {
            0 => [0, 2][choose(2)],
            1 => {
                if x {
                    1
                } else {
                    0
                }
            }
            _ => choose(3),
        }
    };
    put(&mut v, "<svg xmlns='http://www.w3.org/2000/svg'");
    // where a preserve for everything is set
    let at = if spaces == 1 { choose(3) } else { 0 };
    let s0 = match spaces {
        0 => 0,
        1 => {
            if at == 0 {
                1
            } else {
                0
            }
        }
        _ => choose(3),
    };
    put(&mut v, SP[s0]);
    put(&mut v, "><g");
    if at == 1 {
        put(&mut v, SP[1]);
    }
    put(&mut v, "><text");
    let s1 = match spaces {
        0 => [0, 2, 3][choose(3)],
        1 => {
            if at == 2 {
                1
            } else {
                0
            }
        }
        _ => choose(3),
    };
    let _ = pick;
    put(&mut v, SP[s1]);
    put(&mut v, ">");
    let mut expl: Vec<bool> = Vec::with_capacity(8);
    expl.push(s0 != 0);
    expl.push(at == 1);
    expl.push(s1 != 0);
    let base = if s1 != 0 { s1 == 1 } else { s0 == 1 || at == 1 };
    let mut modes: Vec<bool> = Vec::with_capacity(8);
    modes.push(base);
    let mut pieces: Vec<Piece> = Vec::with_capacity(8);
    let mut skel = Vec::with_capacity(100);
    let mut last = 0; // what came before: 1 - text
    for _ in 0..steps {
        let k = choose(if comments { 4 } else { 3 });
        match k {
            0 => {
                assume(last != 1);
                let mut t = Vec::with_capacity(16);
                let n = 1 + choose(len);
                for _ in 0..n {
                    text_char(&mut v, &mut t, wide);
                }
                for &b in &t {
                    if !is_sp(b) {
                        skel.push(b);
                    }
                }
                pieces.push(Piece { text: t, keep: modes[modes.len() - 1] });
                last = 1;
            }
            1 => {
                let s = if spaces == 2 { choose(3) } else { 0 };
                let tag = if tags > 1 { choose(tags) } else { 0 };
                open.push(tag as u8);
                put(&mut v, INLINE[tag].0);
                put(&mut v, SP[s]);
                put(&mut v, ">");
                expl.push(s != 0);
                skel.push(1);
                let m = if s == 0 { modes[modes.len() - 1] } else { s == 1 };
                modes.push(m);
                last = 2;
            }
            2 => {
                assume(modes.len() > 1);
                put(&mut v, INLINE[open[open.len() - 1] as usize].1);
                open.pop();
                skel.push(2);
                modes.pop();
                last = 3;
            }
            _ => {
                put(&mut v, "<!--c-->");
                skel.push(3);
                last = 4;
            }
        }
    }
    while modes.len() > 1 {
        put(&mut v, INLINE[open[open.len() - 1] as usize].1);
        open.pop();
        skel.push(2);
        modes.pop();
    }
    put(&mut v, "</text></g></svg>");
    let doc = match parse_ok(v) {
        Some(d) => d,
        None => return,
    };
    check_text(&doc, spaces, &skel, &expl, &pieces);
}
/// The document against the pieces of its text. `skel`: characters other than spaces, 1 and 2 for
/// the start and end of an element, 3 for a comment; `expl`: elements with xml:space.
pub fn check_text(doc: &Document, spaces: u8, skel: &[u8], expl: &[bool], pieces: &[Piece]) {
    // what is there now
    let mut got = Vec::with_capacity(100);
    let mut out = Vec::with_capacity(100);
    let mut ei = 0;
    let mut ended = 0;
    for e in doc.root().traverse() {
        match e {
            NodeEdge::Start(n) => {
                if n.is_element() {
                    check(n.has_attribute(AttributeId::Space) == (ei < expl.len() && expl[ei]), "xml:space stays exactly where it was set");
                    if ei > 2 {
                        got.push(1);
                    }
                    ei += 1;
                } else if n.is_text() {
                    let t = n.text();
                    check(!t.is_empty(), "there are no empty text nodes");
                    for &b in t.as_bytes() {
                        out.push(b);
                        if !is_sp(b) {
                            got.push(b);
                        } else {
                            check(b == b' ', "tabs and line breaks become spaces");
                        }
                    }
                } else if n.is_comment() {
                    got.push(3);
                }
            }
            NodeEdge::End(n) => {
                if n.is_element() {
                    ended += 1;
                    // the last three are text, g and svg
                    if ended + 3 <= expl.len() {
                        got.push(2);
                    }
                }
            }
        }
    }
    let _ = ended;
    check(got == skel, "all other characters stay, in order and in their elements");
    if got != skel {
        return note(&dump(doc));
    }
    // white space: `want` per gap between other characters
    if spaces == 0 {
        let mut want = Vec::with_capacity(100);
        let mut pend = false;
        for p in pieces {
            for &b in &p.text {
                if is_sp(b) {
                    pend = !want.is_empty();
                } else {
                    if pend {
                        want.push(b' ');
                        pend = false;
                    }
                    want.push(b);
                }
            }
        }
        check(out == want, "without preserve, spaces shrink to one and vanish at both ends");
        if want.contains(&b' ') {
            reach("a space between words");
        }
        reach("default");
    } else if spaces == 1 {
        let mut want = Vec::with_capacity(100);
        for p in pieces {
            for &b in &p.text {
                want.push(if is_sp(b) { b' ' } else { b });
            }
        }
        check(out == want, "with preserve nothing is dropped");
        reach("preserve");
    } else {
        // runs of spaces between two other characters
        let mut o = 0;
        let mut run = 0;
        let mut first = true;
        let mut pure = true; // the run lies within one piece
        let mut keep = false;
        let mut kept = 0; // spaces of the run that must stay
        for p in pieces {
            if run > 0 {
                pure = false;
            }
            let mut start = true;
            for &b in &p.text {
                if is_sp(b) {
                    if run == 0 {
                        pure = !start;
                    }
                    run += 1;
                    keep = p.keep;
                    if p.keep {
                        kept += 1;
                    }
                } else {
                    let mut r = 0;
                    while o < out.len() && out[o] == b' ' {
                        r += 1;
                        o += 1;
                    }
                    check(r <= run, "white space appears only where it was");
                    check(r >= kept, "with preserve nothing is dropped");
                    if !first {
                        check(run == 0 || r > 0, "words stay apart");
                    }
                    if pure && run > 0 && !start {
                        check(r == if keep { run } else { 1 }, "white space inside of a text is kept with preserve, otherwise it shrinks to one");
                        reach("inside");
                    }
                    o += 1;
                    first = false;
                    run = 0;
                    pure = true;
                    kept = 0;
                }
                start = false;
            }
        }
        check(out.len() - o <= run, "white space appears only where it was");
        check(out.len() - o >= kept, "with preserve nothing is dropped");
        reach("mixed");
    }
    finish(doc, false);
}
harness!(c14_e, { c14_in(4, 1, 0, 2, false, 5) });
harness!(c14_en, { c14_in(5, 1, 0, 2, false, 3) });
harness!(c14_ep, { c14_in(3, 1, 1, 2, true, 5) });
harness!(c14_em, { c14_in(3, 1, 2, 2, false, 3) });
harness!(c14_et, { c14_in(6, 1, 0, 2, false, 3) });
harness!(c14_u, { c14(1, 3, 0, 3, false) });
harness!(c14_ud, { c14(3, 1, 0, 3, false) });
harness!(c14_up, { c14(1, 3, 1, 3, false) });
harness!(c14_s, { c14(1, 4, 0, 0, false) });
harness!(c14_d, { c14(3, 2, 0, 0, true) });
harness!(c14_d4, { c14(4, 1, 0, 0, true) });
harness!(c14_dn, { c14(6, 1, 0, 2, false) });
harness!(c14_dn2, { c14(4, 3, 0, 2, true) });
harness!(c14_dw, { c14(2, 2, 0, 1, true) });
harness!(c14_p, { c14(3, 2, 1, 0, true) });
harness!(c14_pn, { c14(5, 2, 1, 2, true) });
harness!(c14_pw, { c14(2, 2, 1, 1, true) });
harness!(c14_m, { c14(3, 2, 2, 0, false) });
harness!(c14_mn, { c14(4, 1, 2, 2, false) });
harness!(c14_mn2, { c14(3, 4, 2, 2, false) });
harness!(c14_t1, { c14(1, 6, 0, 0, false) });
harness!(c14_t2, { c14(7, 1, 0, 2, true) });
harness!(c14_t3, { c14(5, 2, 0, 2, true) });
harness!(c14_t4, { c14(3, 2, 0, 1, true) });
harness!(c14_t5, { c14(6, 1, 1, 2, true) });
harness!(c14_t6, { c14(5, 1, 2, 2, true) });
harness!(c14_t7, { c14(4, 3, 2, 2, false) });

/// Several text elements: each one on its own.
fn two_texts(len: usize, wrap: bool) {
    let mut v = Vec::with_capacity(500);
    v.extend_from_slice(OPEN);
    let mut want: Vec<Vec<u8>> = Vec::with_capacity(4);
    let mut keep = [false; 3];
    let n = 2;
    let between = choose(3);
    for i in 0..n {
        let g = wrap && choose(2) == 1;
        if g {
            put(&mut v, "<g>");
        }
        keep[i] = choose(2) == 1;
        put(&mut v, if keep[i] { "<text xml:space='preserve'>" } else { "<text>" });
        let mut t = Vec::with_capacity(8);
        for _ in 0..1 + choose(len) {
            let b = byte_in(b" a\n");
            v.push(b);
            t.push(if b == b'\n' { b' ' } else { b });
        }
        put(&mut v, "</text>");
        if g {
            put(&mut v, "</g>");
        }
        if i == 0 {
            put(&mut v, ["", "\n  ", "<rect/>"][between]);
        }
        if !keep[i] {
            let mut o: Vec<u8> = Vec::with_capacity(8);
            for b in t {
                if b == b' ' && (o.is_empty() || o[o.len() - 1] == b' ') {
                    continue;
                }
                o.push(b);
            }
            if let Some(b' ') = o.last() {
                o.pop();
            }
            t = o;
        }
        want.push(t);
    }
    put(&mut v, "</svg>");
    let doc = match parse_ok(v) {
        Some(d) => d,
        None => return,
    };
    let mut i = 0;
    for x in doc.root().descendants() {
        if x.has_tag_name(ElementId::Text) {
            if i == n {
                return fail("no text elements are added");
            }
            let sp = x.attributes().get_value(AttributeId::Space).cloned();
            check(sp == if keep[i] { Some(AttributeValue::from("preserve")) } else { None }, "xml:space stays where it was");
            match x.first_child() {
                Some(c) => check(c.is_text() && c.text().as_bytes() == &want[i][..] && c.next_sibling().is_none(), "the text of every text element is normalised on its own"),
                None => check(want[i].is_empty(), "no text is lost"),
            }
            i += 1;
        }
    }
    check(i == n, "all text elements are kept");
    finish(&doc, false);
}
harness!(c14_two, { two_texts(3, true) });
harness!(c14_twot, { two_texts(4, true) });
harness!(c10_txt, {
    super::writeh::mode(3);
    c14(3, 2, 0, 0, true)
});
harness!(c10_txm, {
    super::writeh::mode(3);
    c14(3, 1, 2, 2, true)
});
harness!(c10_txe, {
    super::writeh::mode(3);
    c14_in(4, 1, 0, 2, false, 5)
});
harness!(c10_txw, {
    super::writeh::mode(3);
    c14(2, 2, 0, 1, true)
});
harness!(c10_two, {
    super::writeh::mode(3);
    two_texts(3, true)
});
harness!(c09_txt, {
    super::writeh::mode(4);
    c14(3, 1, 2, 2, true)
});
harness!(c09_txe, {
    super::writeh::mode(4);
    c14_in(3, 1, 0, 2, false, 5)
});
