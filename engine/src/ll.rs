//! Parser for the textual LLVM IR that rustc emits after fat LTO.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Box<Ty>),
    Vec(u64, Box<Ty>),
    Struct(bool, Vec<Ty>), // packed, fields
    Label,
    Meta,
    Opaque,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let p = b.next_power_of_two();
                if p > 16 { 16 } else { p }
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Struct(packed, f) => {
                if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) }
            }
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) => (n * w as u64 + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Struct(packed, f) => {
                let mut o = 0u64;
                for t in f {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, idx: u64) -> (u64, &Ty) {
        match self {
            Ty::Struct(packed, f) => {
                let mut o = 0u64;
                for (i, t) in f.iter().enumerate() {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if i as u64 == idx {
                        return (o, t);
                    }
                    o += t.size();
                }
                panic!("bad field index")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => (idx * t.size(), t),
            _ => panic!("field_off of scalar"),
        }
    }
    /// scalar bit width
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => panic!("bits of non scalar {:?}", self),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    W(String),     // word / number
    L(String),     // %local
    G(String),     // @global
    S(Vec<u8>),    // c"..."
    Q(String),     // "..."
    M,             // metadata
    P(char),       // punctuation
}

pub fn tokenize(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::with_capacity(32);
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                let name;
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    let mut j = i + 2;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    name = s[i + 2..j].to_string();
                    i = j + 1;
                } else {
                    let mut j = i + 1;
                    while j < b.len() && idc(b[j]) {
                        j += 1;
                    }
                    name = s[i + 1..j].to_string();
                    i = j;
                }
                out.push(if c == b'%' { Tok::L(name) } else { Tok::G(name) });
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut j = i + 2;
                let mut v = Vec::new();
                while b[j] != b'"' {
                    if b[j] == b'\\' {
                        if b[j + 1] == b'\\' {
                            v.push(b'\\');
                            j += 2;
                        } else {
                            v.push(u8::from_str_radix(&s[j + 1..j + 3], 16).unwrap());
                            j += 3;
                        }
                    } else {
                        v.push(b[j]);
                        j += 1;
                    }
                }
                i = j + 1;
                out.push(Tok::S(v));
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::Q(s[i + 1..j].to_string()));
                i = j + 1;
            }
            b'!' | b'#' => {
                // metadata / attribute group reference; skip as unit
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) {
                    j += 1;
                }
                i = j;
                out.push(Tok::M);
            }
            _ if idc(c) || c == b'+' => {
                let mut j = i + 1;
                while j < b.len() && (idc(b[j]) || b[j] == b'+') {
                    j += 1;
                }
                out.push(Tok::W(s[i..j].to_string()));
                i = j;
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}

/// Constant or operand as parsed.
#[derive(Clone, Debug)]
pub enum Op {
    Reg(String),
    Global(String),
    Int(u128),
    Undef,
    Zero,
    Bytes(Vec<u8>),
    Agg(Vec<(Ty, Op)>),
    Splat(Ty, Box<Op>),
    Gep(Ty, Vec<(Ty, Op)>),
    Cast(String, Ty, Box<Op>, Ty),
    Bin(String, Ty, Box<Op>, Box<Op>),
}

pub struct P<'a> {
    pub t: Vec<Tok>,
    pub i: usize,
    pub named: &'a HashMap<String, Ty>,
}

pub type R<T> = Result<T, String>;

const VALUE_WORDS: &[&str] = &[
    "true", "false", "null", "undef", "poison", "zeroinitializer", "none", "getelementptr",
    "inttoptr", "ptrtoint", "ptrtoaddr", "bitcast", "trunc", "zext", "sext", "add", "sub", "xor", "splat",
    "and", "or", "shl", "lshr", "ashr", "mul", "addrspacecast", "asm", "blockaddress", "dso_local_equivalent", "no_cfi",
];

fn is_type_word(w: &str) -> bool {
    match w {
        "void" | "ptr" | "float" | "double" | "half" | "bfloat" | "fp128" | "x86_fp80" | "label" | "metadata" | "opaque" | "token" => true,
        _ => w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()),
    }
}

impl<'a> P<'a> {
    pub fn new(s: &str, named: &'a HashMap<String, Ty>) -> P<'a> {
        P { t: tokenize(s), i: 0, named }
    }
    pub fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    pub fn next(&mut self) -> R<Tok> {
        let r = self.t.get(self.i).cloned().ok_or("unexpected end of line".to_string());
        self.i += 1;
        r
    }
    pub fn isp(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    pub fn eatp(&mut self, c: char) -> bool {
        if self.isp(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn expp(&mut self, c: char) -> R<()> {
        if self.eatp(c) {
            Ok(())
        } else {
            Err(format!("expected '{}' at {:?}", c, self.peek()))
        }
    }
    pub fn isw(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::W(x)) if x == w)
    }
    pub fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn skip_balanced(&mut self) -> R<()> {
        // at '('
        let mut d = 0;
        loop {
            match self.next()? {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return Ok(());
                    }
                }
                _ => {}
            }
        }
    }
    pub fn at_type(&self) -> bool {
        match self.peek() {
            Some(Tok::W(w)) => is_type_word(w),
            Some(Tok::P('[')) | Some(Tok::P('{')) | Some(Tok::P('<')) | Some(Tok::L(_)) => true,
            _ => false,
        }
    }
    pub fn ty(&mut self) -> R<Ty> {
        let t = match self.next()? {
            Tok::W(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.eatw("addrspace") {
                        self.skip_balanced()?;
                    }
                    Ty::Ptr
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                "label" => Ty::Label,
                "metadata" => Ty::Meta,
                "opaque" | "token" => Ty::Opaque,
                _ if is_type_word(&w) && w.starts_with('i') => Ty::Int(w[1..].parse().map_err(|_| "int type")?),
                _ => return Err(format!("bad type word {}", w)),
            },
            Tok::P('[') => {
                let n = self.num()? as u64;
                if !self.eatw("x") {
                    return Err("expected x".into());
                }
                let t = self.ty()?;
                self.expp(']')?;
                Ty::Arr(n, Box::new(t))
            }
            Tok::P('{') => {
                let mut f = vec![];
                if !self.eatp('}') {
                    loop {
                        f.push(self.ty()?);
                        if !self.eatp(',') {
                            break;
                        }
                    }
                    self.expp('}')?;
                }
                Ty::Struct(false, f)
            }
            Tok::P('<') => {
                if self.eatp('{') {
                    let mut f = vec![];
                    if !self.eatp('}') {
                        loop {
                            f.push(self.ty()?);
                            if !self.eatp(',') {
                                break;
                            }
                        }
                        self.expp('}')?;
                    }
                    self.expp('>')?;
                    Ty::Struct(true, f)
                } else {
                    let n = self.num()? as u64;
                    if !self.eatw("x") {
                        return Err("expected x".into());
                    }
                    let t = self.ty()?;
                    self.expp('>')?;
                    Ty::Vec(n, Box::new(t))
                }
            }
            Tok::L(n) => self.named.get(&n).cloned().ok_or(format!("unknown named type {}", n))?,
            x => return Err(format!("bad type tok {:?}", x)),
        };
        Ok(t)
    }
    pub fn num(&mut self) -> R<i128> {
        match self.next()? {
            Tok::W(w) => w.parse::<i128>().map_err(|_| format!("bad number {}", w)),
            x => Err(format!("bad number tok {:?}", x)),
        }
    }
    /// Skip parameter / return attributes (words that are not types nor values).
    pub fn skip_attrs(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(Tok::W(w)) => {
                    let w = w.clone();
                    if VALUE_WORDS.contains(&w.as_str()) || is_type_word(&w) {
                        return Ok(());
                    }
                    let c = w.as_bytes()[0];
                    if c.is_ascii_digit() || c == b'-' || c == b'+' {
                        return Ok(());
                    }
                    if (w == "f0x" || w == "inf" || w == "nan") && false {
                        return Ok(());
                    }
                    self.i += 1;
                    if w == "align" {
                        if self.isp('(') {
                            self.skip_balanced()?;
                        } else {
                            self.next()?;
                        }
                    } else if self.isp('(') {
                        self.skip_balanced()?;
                    }
                }
                Some(Tok::M) => {
                    self.i += 1;
                }
                Some(Tok::Q(_)) => {
                    self.i += 1;
                    if self.eatp('=') {
                        self.i += 1;
                    }
                }
                _ => return Ok(()),
            }
        }
    }
    fn fconst(w: &str, ty: &Ty) -> R<u128> {
        let v: f64 = match w {
            "+inf" | "inf" => f64::INFINITY,
            "-inf" => f64::NEG_INFINITY,
            "+qnan" | "qnan" | "nan" | "+nan" => f64::from_bits(0x7ff8000000000000),
            "-qnan" | "-nan" => f64::from_bits(0xfff8000000000000),
            _ => {
                if let Some(h) = w.strip_prefix("f0x") {
                    return u128::from_str_radix(h, 16).map_err(|_| format!("bad float {}", w));
                }
                if let Some(h) = w.strip_prefix("0x") {
                    let bits = u64::from_str_radix(h, 16).map_err(|_| format!("bad float {}", w))?;
                    f64::from_bits(bits)
                } else {
                    w.parse::<f64>().map_err(|_| format!("bad float {}", w))?
                }
            }
        };
        Ok(match ty {
            Ty::F32 => (v as f32).to_bits() as u128,
            _ => v.to_bits() as u128,
        })
    }
    pub fn tyval(&mut self) -> R<(Ty, Op)> {
        let t = self.ty()?;
        self.skip_attrs()?;
        let v = self.val(&t)?;
        Ok((t, v))
    }
    pub fn val(&mut self, ty: &Ty) -> R<Op> {
        match self.next()? {
            Tok::L(n) => Ok(Op::Reg(n)),
            Tok::G(n) => Ok(Op::Global(n)),
            Tok::S(b) => Ok(Op::Bytes(b)),
            Tok::P('{') => {
                let mut f = vec![];
                if !self.eatp('}') {
                    loop {
                        f.push(self.tyval()?);
                        if !self.eatp(',') {
                            break;
                        }
                    }
                    self.expp('}')?;
                }
                Ok(Op::Agg(f))
            }
            Tok::P('[') => {
                let mut f = vec![];
                if !self.eatp(']') {
                    loop {
                        f.push(self.tyval()?);
                        if !self.eatp(',') {
                            break;
                        }
                    }
                    self.expp(']')?;
                }
                Ok(Op::Agg(f))
            }
            Tok::P('<') => {
                let packed = self.eatp('{');
                let mut f = vec![];
                if packed && self.eatp('}') {
                    self.expp('>')?;
                    return Ok(Op::Agg(f));
                }
                loop {
                    f.push(self.tyval()?);
                    if !self.eatp(',') {
                        break;
                    }
                }
                if packed {
                    self.expp('}')?;
                }
                self.expp('>')?;
                Ok(Op::Agg(f))
            }
            Tok::W(w) => match w.as_str() {
                "true" => Ok(Op::Int(1)),
                "false" => Ok(Op::Int(0)),
                "null" | "none" => Ok(Op::Int(0)),
                "undef" | "poison" => Ok(Op::Undef),
                "zeroinitializer" => Ok(Op::Zero),
                "splat" => {
                    self.expp('(')?;
                    let (t, v) = self.tyval()?;
                    self.expp(')')?;
                    Ok(Op::Splat(t, Box::new(v)))
                }
                "getelementptr" => {
                    while let Some(Tok::W(x)) = self.peek() {
                        if x == "inbounds" || x == "nuw" || x == "nusw" {
                            self.i += 1;
                        } else if x == "inrange" {
                            self.i += 1;
                            self.skip_balanced()?;
                        } else {
                            break;
                        }
                    }
                    self.expp('(')?;
                    let t = self.ty()?;
                    let mut v = vec![];
                    while self.eatp(',') {
                        v.push(self.tyval()?);
                    }
                    self.expp(')')?;
                    Ok(Op::Gep(t, v))
                }
                "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" => {
                    while !self.isp('(') {
                        self.i += 1;
                    }
                    self.expp('(')?;
                    let (t, v) = self.tyval()?;
                    if !self.eatw("to") {
                        return Err("cast expr".into());
                    }
                    let t2 = self.ty()?;
                    self.expp(')')?;
                    Ok(Op::Cast(w, t, Box::new(v), t2))
                }
                "add" | "sub" | "xor" | "and" | "or" | "shl" | "lshr" | "ashr" | "mul" => {
                    while !self.isp('(') {
                        self.i += 1;
                    }
                    self.expp('(')?;
                    let (t, a) = self.tyval()?;
                    self.expp(',')?;
                    let (_, b) = self.tyval()?;
                    self.expp(')')?;
                    Ok(Op::Bin(w, t, Box::new(a), Box::new(b)))
                }
                _ => match ty {
                    Ty::F32 | Ty::F64 => Ok(Op::Int(Self::fconst(&w, ty)?)),
                    _ => {
                        if let Ok(n) = w.parse::<i128>() {
                            Ok(Op::Int(n as u128))
                        } else if let Ok(n) = w.parse::<u128>() {
                            Ok(Op::Int(n))
                        } else if w.starts_with("u0x") || w.starts_with("s0x") {
                            Ok(Op::Int(u128::from_str_radix(&w[3..], 16).map_err(|_| "hex")?))
                        } else {
                            Err(format!("bad value {}", w))
                        }
                    }
                },
            },
            x => Err(format!("bad value tok {:?}", x)),
        }
    }
}

#[derive(Debug)]
pub struct RawInst {
    pub dst: Option<String>,
    pub line: String,
}

#[derive(Debug)]
pub struct RawBlock {
    pub name: String,
    pub insts: Vec<RawInst>,
}

#[derive(Debug)]
pub struct RawFn {
    pub name: String,
    pub pretty: String,
    pub params: Vec<(Ty, String)>,
    pub ret: Ty,
    pub blocks: Vec<RawBlock>,
}

pub struct RawGlobal {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Op>,
    pub align: u64,
    pub constant: bool,
}

pub struct Module {
    pub globals: Vec<RawGlobal>,
    pub fns: Vec<RawFn>,
    pub decls: Vec<String>,
    pub aliases: Vec<(String, Op)>,
    pub named: HashMap<String, Ty>,
}

fn parse_fn_header(line: &str, named: &HashMap<String, Ty>) -> R<(String, Ty, Vec<(Ty, String)>)> {
    let mut p = P::new(line, named);
    p.i = 1; // define/declare
    // linkage, cc, ret attrs
    loop {
        p.skip_attrs()?;
        if p.at_type() {
            break;
        }
        p.next()?;
    }
    let ret = p.ty()?;
    let name = match p.next()? {
        Tok::G(n) => n,
        x => return Err(format!("fn name {:?}", x)),
    };
    p.expp('(')?;
    let mut params = vec![];
    let mut auto = 0;
    if !p.eatp(')') {
        loop {
            if p.isw("...") {
                p.i += 1;
                break;
            }
            let t = p.ty()?;
            // attributes and optional name
            loop {
                match p.peek() {
                    Some(Tok::W(_)) | Some(Tok::M) | Some(Tok::Q(_)) => {
                        let isalign = p.isw("align");
                        p.i += 1;
                        if p.isp('(') {
                            p.skip_balanced()?;
                        } else if isalign {
                            p.i += 1;
                        } else if p.eatp('=') {
                            p.i += 1;
                        }
                    }
                    _ => break,
                }
            }
            let n = if let Some(Tok::L(n)) = p.peek().cloned() {
                p.i += 1;
                n
            } else {
                let n = auto.to_string();
                n
            };
            auto += 1;
            params.push((t, n));
            if !p.eatp(',') {
                break;
            }
        }
    }
    Ok((name, ret, params))
}

pub fn parse_module(src: &str) -> R<Module> {
    let mut m = Module {
        globals: vec![],
        fns: vec![],
        decls: vec![],
        aliases: vec![],
        named: HashMap::new(),
    };
    // named types first
    for line in src.lines() {
        if line.starts_with('%') && line.contains(" = type ") {
            let p = tokenize(line);
            if let Tok::L(n) = &p[0] {
                m.named.insert(n.clone(), Ty::Opaque);
            }
        }
    }
    for _ in 0..4 {
        let mut upd = vec![];
        for line in src.lines() {
            if line.starts_with('%') && line.contains(" = type ") {
                let mut p = P::new(line, &m.named);
                if let Tok::L(n) = p.next()? {
                    p.i = 3;
                    if let Ok(t) = p.ty() {
                        upd.push((n, t));
                    }
                }
            }
        }
        for (n, t) in upd {
            m.named.insert(n, t);
        }
    }
    let mut lines = src.lines().peekable();
    let mut last_comment = String::new();
    while let Some(line) = lines.next() {
        if line.is_empty() {
            continue;
        }
        let c = line.as_bytes()[0];
        if c == b';' {
            if !line.starts_with("; Function Attrs") && !line.starts_with("; ModuleID") {
                last_comment = line[1..].trim().to_string();
            }
            continue;
        }
        if c == b'!' || c == b'%' || c == b'$' || c == b'^' {
            continue;
        }
        if c == b'@' {
            let mut p = P::new(line, &m.named);
            let name = match p.next()? {
                Tok::G(n) => n,
                _ => return Err("global".into()),
            };
            p.expp('=')?;
            let mut external = false;
            let mut kind = String::new();
            loop {
                match p.next()? {
                    Tok::W(w) => match w.as_str() {
                        "global" | "constant" | "alias" | "ifunc" => {
                            kind = w;
                            break;
                        }
                        "external" | "extern_weak" => external = true,
                        "thread_local" | "addrspace" | "section" | "partition" => {
                            if p.isp('(') {
                                p.skip_balanced()?;
                            }
                        }
                        _ => {}
                    },
                    Tok::P(_) | Tok::Q(_) | Tok::M => {}
                    x => return Err(format!("global header {:?} in {}", x, line)),
                }
            }
            if kind == "alias" || kind == "ifunc" {
                let _t = p.ty()?;
                p.expp(',')?;
                let (_, v) = p.tyval()?;
                m.aliases.push((name, v));
                continue;
            }
            let ty = p.ty()?;
            let init = if external { None } else { Some(p.val(&ty)?) };
            let mut align = 0;
            while p.eatp(',') {
                if p.eatw("align") {
                    align = p.num()? as u64;
                } else {
                    p.i += 1;
                }
            }
            let align = if align == 0 { ty.align().max(1) } else { align };
            m.globals.push(RawGlobal { name, ty, init, align, constant: kind == "constant" });
            continue;
        }
        if line.starts_with("declare") {
            let (name, _, _) = parse_fn_header(line, &m.named).map_err(|e| format!("{} in {}", e, line))?;
            m.decls.push(name);
            last_comment.clear();
            continue;
        }
        if line.starts_with("define") {
            let (name, ret, params) = parse_fn_header(line, &m.named).map_err(|e| format!("{} in {}", e, line))?;
            let mut f = RawFn { pretty: if last_comment.is_empty() { name.clone() } else { std::mem::take(&mut last_comment) }, name, params, ret, blocks: vec![] };
            // the entry block may be unnamed: its implicit number is the number of unnamed params
            let mut cur: Option<RawBlock> = None;
            let auto_entry = f.params.iter().filter(|p| p.1.bytes().all(|c| c.is_ascii_digit())).count().to_string();
            while let Some(l) = lines.next() {
                if l == "}" {
                    break;
                }
                let tl = l.trim_start();
                if tl.is_empty() || tl.starts_with(';') {
                    continue;
                }
                if !l.starts_with(' ') {
                    // label
                    let end = if l.starts_with('"') {
                        let e = l[1..].find('"').unwrap() + 1;
                        let n = l[1..e].to_string();
                        if let Some(b) = cur.take() {
                            f.blocks.push(b);
                        }
                        cur = Some(RawBlock { name: n, insts: vec![] });
                        continue;
                    } else {
                        l.find(':').ok_or("label")?
                    };
                    if let Some(b) = cur.take() {
                        f.blocks.push(b);
                    }
                    cur = Some(RawBlock { name: l[..end].to_string(), insts: vec![] });
                    continue;
                }
                if cur.is_none() {
                    cur = Some(RawBlock { name: auto_entry.clone(), insts: vec![] });
                }
                let mut text = tl.to_string();
                if tl.starts_with("switch ") && tl.ends_with('[') {
                    while let Some(l2) = lines.next() {
                        text.push(' ');
                        text.push_str(l2.trim());
                        if l2.trim_start().starts_with(']') {
                            break;
                        }
                    }
                }
                if tl.starts_with("cleanup") || tl.starts_with("catch ") || tl.starts_with("filter ") {
                    if tl == "cleanup" || tl.starts_with("catch ptr") || tl.starts_with("filter [") {
                        continue;
                    }
                }
                if tl.contains("invoke ") && (tl.starts_with("invoke") || tl.contains(" = invoke")) {
                    if let Some(nl) = lines.peek() {
                        if nl.trim_start().starts_with("to label") {
                            text.push(' ');
                            text.push_str(lines.next().unwrap().trim());
                        }
                    }
                }
                let (dst, body) = split_dst(&text);
                cur.as_mut().unwrap().insts.push(RawInst { dst, line: body });
            }
            if let Some(b) = cur.take() {
                f.blocks.push(b);
            }
            last_comment.clear();
            m.fns.push(f);
            continue;
        }
    }
    Ok(m)
}

fn split_dst(s: &str) -> (Option<String>, String) {
    if !s.starts_with('%') {
        return (None, s.to_string());
    }
    if s.starts_with("%\"") {
        let e = s[2..].find('"').unwrap() + 2;
        let rest = s[e + 1..].trim_start();
        let rest = rest.strip_prefix("= ").unwrap();
        return (Some(s[2..e].to_string()), rest.to_string());
    }
    let e = s.find(" = ").unwrap();
    (Some(s[1..e].to_string()), s[e + 3..].to_string())
}
