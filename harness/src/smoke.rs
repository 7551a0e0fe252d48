use super::sym::*;
use svgdom::*;

harness!(h_smoke, {
    let doc = Document::from_str("<svg xmlns='http://www.w3.org/2000/svg' width='10.5' height='5mm'><!-- c --><defs><linearGradient id='lg1'/></defs><style>.a{fill:red}</style><rect class='a' fill='url(#lg1)' transform='matrix(1 2 3 4 5.5 6)' points='1,2 3,4'/><path d='M 1 2 L 3 4 z'/><text x='1 2 3'> A <tspan>b</tspan> c </text></svg>").unwrap();
    note(doc.to_string().as_bytes());
});

harness!(h_smoke2, {
    let mut v = b"<svg xmlns='http://www.w3.org/2000/svg'><rect fill=\"".to_vec();
    for _ in 0..3 { v.push(byte_in(b"a<&\"# ")); }
    v.extend_from_slice(b"\"/></svg>");
    let s = into_string(v);
    if let Ok(doc) = Document::from_str(&s) {
        reach("ok");
        note(doc.to_string().as_bytes());
    } else {
        reach("err");
    }
});
