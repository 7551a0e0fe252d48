//! Lowering of parsed LLVM functions to a compact register form.
use crate::expr::{mask, E};
use crate::ll::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(E),
    W(Rc<u128>),
    A(Rc<Vec<Val>>),
}

impl Val {
    #[inline]
    pub fn k(v: u128, w: u32) -> Val {
        let v = v & mask(w);
        if w <= 64 { Val::C(v as u64) } else { Val::W(Rc::new(v)) }
    }
    #[inline]
    pub fn conc(&self) -> Option<u128> {
        match self {
            Val::C(v) => Some(*v as u128),
            Val::W(v) => Some(**v),
            _ => None,
        }
    }
}

#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bop {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FBop {
    Add, Sub, Mul, Div, Rem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    ZExt, SExt, Trunc, Bits, FpToSi, FpToUi, SiToFp, UiToFp, FpTrunc, FpExt,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Intr {
    Nop,          // returns nothing
    Memcpy, Memset,
    Ctpop, Ctlz, Cttz, Bswap, Bitreverse, Fshl, Fshr,
    Umin, Umax, Smin, Smax, Abs, Ucmp, Scmp,
    UaddO, UsubO, UmulO, SaddO, SsubO, SmulO,
    UaddSat, UsubSat, SaddSat, SsubSat,
    FpToSiSat, FpToUiSat,
    Fabs, Floor, Ceil, FTrunc, Rint, Round, Sqrt, Copysign, Fma, MinNum, MaxNum, Pow,
    Tls, Expect, PtrMask, False,
    VReduce(String),
    Trap,
    // libc
    Malloc, Calloc, Realloc, Free, PosixMemalign, Memcmp, Bcmp, Strlen, Memchr, GetRandom, Libm(String),
    // harness interface
    SymByte, SymChoose, SymAssume, SymCheck, SymReach, SymNote, SymConc, SymLive, SymF64, SymFail, SymExpect,
    Panic(String),
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(O),
    Intr(Intr),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(Bop, u32, u32, O, O), // op width dst a b
    FBin(FBop, u32, u32, O, O),
    FNeg(u32, u32, O),
    ICmp(Pred, u32, u32, O, O),
    FCmp(String, u32, u32, O, O),
    Select(u32, O, O, O, u32, bool), // dst c a b width(0=agg) is_ptr
    Cast(CastK, u32, Rc<Ty>, Rc<Ty>, O),
    Load(u32, u32, O),             // dst width ptr   (scalar)
    LoadA(u32, Rc<Ty>, O),
    Store(u32, O, O),              // width val ptr
    StoreA(Rc<Ty>, O, O),
    Gep(u32, O, i64, Vec<(O, i64, u32)>),
    Alloca(u32, u64, u64, O),
    Call(Option<u32>, Callee, Vec<O>, Vec<u32>, Rc<Ty>),
    ExtV(u32, O, Vec<u32>),
    InsV(u32, O, O, Vec<u32>),
    ExtE(u32, O, O),
    InsE(u32, O, O, O),
    Shuf(u32, O, O, Vec<i32>),
    Mov(u32, O),
    Rmw(u32, String, u32, O, O),
    Cx(u32, u32, O, O, O),
    Br(u32),
    CBr(O, u32, u32),
    Sw(u32, O, Vec<(u128, u32)>, u32),
    Ret(Option<O>),
    Unreach,
    Bad(String),
}

pub struct Blk {
    pub phis: Vec<(u32, Vec<(u32, O)>)>,
    pub insts: Vec<I>,
}

pub struct Fun {
    pub name: String,
    pub pretty: String,
    pub nregs: u32,
    pub nparams: u32,
    pub blocks: Vec<Blk>,
    pub ninsts: u32,
}

pub struct Layout {
    pub gaddr: HashMap<String, u64>,
    pub fidx: HashMap<String, u32>,
    pub fpretty: Vec<String>,
}

pub const FN_BASE: u64 = 0x4000_0000;
pub const GL_BASE: u64 = 0x0010_0000;

impl Layout {
    pub fn gep_off(&self, ty: &Ty, idx: &[(Ty, Op)]) -> R<i64> {
        let mut off: i64 = 0;
        let mut cur = ty.clone();
        for (i, (t, o)) in idx.iter().enumerate() {
            let v = self.cval(t, o)?;
            let v = v.conc().ok_or("gep const")?;
            let v = crate::expr::sext(v, t.bits()) as i64;
            if i == 0 {
                off += v * cur.size() as i64;
            } else {
                let (o2, t2) = cur.field_off(v as u64);
                off += o2 as i64;
                let t2 = t2.clone();
                cur = t2;
            }
        }
        Ok(off)
    }
    pub fn cval(&self, ty: &Ty, o: &Op) -> R<Val> {
        Ok(match o {
            Op::Reg(_) => return Err("register in constant".into()),
            Op::Global(g) => Val::C(*self.gaddr.get(g).ok_or(format!("unknown global {}", g))?),
            Op::Int(v) => Val::k(*v, ty.bits()),
            Op::Undef | Op::Zero => self.zero(ty),
            Op::Bytes(b) => Val::A(Rc::new(b.iter().map(|x| Val::C(*x as u64)).collect())),
            Op::Agg(f) => {
                let mut v = vec![];
                for (t, x) in f {
                    v.push(self.cval(t, x)?);
                }
                Val::A(Rc::new(v))
            }
            Op::Splat(t, x) => {
                let n = match ty {
                    Ty::Vec(n, _) => *n,
                    _ => return Err("splat".into()),
                };
                let v = self.cval(t, x)?;
                Val::A(Rc::new(vec![v; n as usize]))
            }
            Op::Gep(t, args) => {
                let base = self.cval(&args[0].0, &args[0].1)?.conc().ok_or("gep base")? as u64;
                let off = self.gep_off(t, &args[1..])?;
                Val::C(base.wrapping_add(off as u64))
            }
            Op::Cast(k, t, x, t2) => {
                let v = self.cval(t, x)?.conc().ok_or("cast const")?;
                match k.as_str() {
                    "sext" => Val::k(crate::expr::sext(v, t.bits()) as u128, t2.bits()),
                    _ => Val::k(v, t2.bits()),
                }
            }
            Op::Bin(k, t, a, b) => {
                let x = self.cval(t, a)?.conc().ok_or("bin const")?;
                let y = self.cval(t, b)?.conc().ok_or("bin const")?;
                let kk = match k.as_str() {
                    "add" => crate::expr::K::Add,
                    "sub" => crate::expr::K::Sub,
                    "xor" => crate::expr::K::Xor,
                    "and" => crate::expr::K::And,
                    "or" => crate::expr::K::Or,
                    "shl" => crate::expr::K::Shl,
                    "lshr" => crate::expr::K::LShr,
                    "ashr" => crate::expr::K::AShr,
                    _ => crate::expr::K::Mul,
                };
                Val::k(crate::expr::cbin(kk, t.bits(), x, y).unwrap(), t.bits())
            }
        })
    }
    pub fn zero(&self, ty: &Ty) -> Val {
        match ty {
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                let z = self.zero(t);
                Val::A(Rc::new(vec![z; *n as usize]))
            }
            Ty::Struct(_, f) => Val::A(Rc::new(f.iter().map(|t| self.zero(t)).collect())),
            Ty::Void | Ty::Label | Ty::Meta | Ty::Opaque => Val::C(0),
            t => Val::k(0, t.bits()),
        }
    }
}

fn scalar_or_lane_bits(t: &Ty) -> u32 {
    match t {
        Ty::Vec(_, t) => t.bits(),
        t => t.bits(),
    }
}

pub struct Low<'a> {
    pub lay: &'a Layout,
    pub named: &'a HashMap<String, Ty>,
    pub regs: HashMap<String, u32>,
    pub blk: HashMap<String, u32>,
}

impl<'a> Low<'a> {
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn o(&mut self, t: &Ty, o: &Op) -> R<O> {
        if let Op::Reg(n) = o {
            return Ok(O::R(self.reg(n)));
        }
        Ok(O::K(self.lay.cval(t, o)?))
    }
    fn label(&mut self, p: &mut P) -> R<u32> {
        if !p.eatw("label") {
            return Err("label expected".into());
        }
        match p.next()? {
            Tok::L(n) => self.blk.get(&n).copied().ok_or(format!("no block {}", n)),
            x => Err(format!("label {:?}", x)),
        }
    }
    fn skip_flags(p: &mut P) {
        while let Some(Tok::W(w)) = p.peek() {
            match w.as_str() {
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "weak" => p.i += 1,
                _ => break,
            }
        }
    }
    pub fn inst(&mut self, dst: &Option<String>, line: &str) -> R<I> {
        let mut p = P::new(line, self.named);
        let op = match p.next()? {
            Tok::W(w) => w,
            x => return Err(format!("op {:?}", x)),
        };
        let d = dst.as_ref().map(|n| self.reg(n));
        let dd = d.unwrap_or(0);
        Ok(match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                Self::skip_flags(&mut p);
                let (t, a) = p.tyval()?;
                p.expp(',')?;
                let b = p.val(&t)?;
                let k = match op.as_str() {
                    "add" => Bop::Add,
                    "sub" => Bop::Sub,
                    "mul" => Bop::Mul,
                    "udiv" => Bop::UDiv,
                    "sdiv" => Bop::SDiv,
                    "urem" => Bop::URem,
                    "srem" => Bop::SRem,
                    "and" => Bop::And,
                    "or" => Bop::Or,
                    "xor" => Bop::Xor,
                    "shl" => Bop::Shl,
                    "lshr" => Bop::LShr,
                    _ => Bop::AShr,
                };
                I::Bin(k, scalar_or_lane_bits(&t), dd, self.o(&t, &a)?, self.o(&t, &b)?)
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                Self::skip_flags(&mut p);
                let (t, a) = p.tyval()?;
                p.expp(',')?;
                let b = p.val(&t)?;
                let k = match op.as_str() {
                    "fadd" => FBop::Add,
                    "fsub" => FBop::Sub,
                    "fmul" => FBop::Mul,
                    "fdiv" => FBop::Div,
                    _ => FBop::Rem,
                };
                I::FBin(k, scalar_or_lane_bits(&t), dd, self.o(&t, &a)?, self.o(&t, &b)?)
            }
            "fneg" => {
                Self::skip_flags(&mut p);
                let (t, a) = p.tyval()?;
                I::FNeg(t.bits(), dd, self.o(&t, &a)?)
            }
            "icmp" => {
                Self::skip_flags(&mut p);
                let pr = match p.next()? {
                    Tok::W(w) => w,
                    _ => return Err("icmp".into()),
                };
                let (t, a) = p.tyval()?;
                p.expp(',')?;
                let b = p.val(&t)?;
                let k = match pr.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => return Err("icmp pred".into()),
                };
                I::ICmp(k, scalar_or_lane_bits(&t), dd, self.o(&t, &a)?, self.o(&t, &b)?)
            }
            "fcmp" => {
                Self::skip_flags(&mut p);
                let pr = match p.next()? {
                    Tok::W(w) => w,
                    _ => return Err("fcmp".into()),
                };
                let (t, a) = p.tyval()?;
                p.expp(',')?;
                let b = p.val(&t)?;
                I::FCmp(pr, t.bits(), dd, self.o(&t, &a)?, self.o(&t, &b)?)
            }
            "select" => {
                Self::skip_flags(&mut p);
                let (tc, c) = p.tyval()?;
                p.expp(',')?;
                let (t, a) = p.tyval()?;
                p.expp(',')?;
                let (_, b) = p.tyval()?;
                let w = if t.is_scalar() { t.bits() } else { 0 };
                if !tc.is_scalar() {
                    let lw = scalar_or_lane_bits(&t);
                    return Ok(I::Select(dd, self.o(&tc, &c)?, self.o(&t, &a)?, self.o(&t, &b)?, lw, false));
                }
                I::Select(dd, self.o(&tc, &c)?, self.o(&t, &a)?, self.o(&t, &b)?, w, t == Ty::Ptr)
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "fptosi" | "fptoui" | "sitofp" | "uitofp" | "fptrunc" | "fpext" | "addrspacecast" => {
                Self::skip_flags(&mut p);
                let (t, a) = p.tyval()?;
                if !p.eatw("to") {
                    return Err("cast".into());
                }
                let t2 = p.ty()?;
                let k = match op.as_str() {
                    "zext" => CastK::ZExt,
                    "sext" => CastK::SExt,
                    "trunc" => CastK::Trunc,
                    "bitcast" => CastK::Bits,
                    "fptosi" => CastK::FpToSi,
                    "fptoui" => CastK::FpToUi,
                    "sitofp" => CastK::SiToFp,
                    "uitofp" => CastK::UiToFp,
                    "fptrunc" => CastK::FpTrunc,
                    "fpext" => CastK::FpExt,
                    _ => CastK::ZExt,
                };
                let k = if matches!(op.as_str(), "ptrtoint" | "ptrtoaddr" | "inttoptr") && t2.bits() < t.bits() { CastK::Trunc } else { k };
                let x = self.o(&t, &a)?;
                if t == t2 || (k == CastK::ZExt && t.is_scalar() && t2.is_scalar() && t.bits() == t2.bits()) {
                    return Ok(I::Mov(dd, x));
                }
                I::Cast(k, dd, Rc::new(t), Rc::new(t2), x)
            }
            "load" => {
                Self::skip_flags(&mut p);
                let t = p.ty()?;
                p.expp(',')?;
                let (pt, a) = p.tyval()?;
                let x = self.o(&pt, &a)?;
                if t.is_scalar() { I::Load(dd, t.bits(), x) } else { I::LoadA(dd, Rc::new(t), x) }
            }
            "store" => {
                Self::skip_flags(&mut p);
                let (t, v) = p.tyval()?;
                p.expp(',')?;
                let (pt, a) = p.tyval()?;
                let x = self.o(&pt, &a)?;
                let y = self.o(&t, &v)?;
                if t.is_scalar() { I::Store(t.bits(), y, x) } else { I::StoreA(Rc::new(t), y, x) }
            }
            "getelementptr" => {
                Self::skip_flags(&mut p);
                let t = p.ty()?;
                p.expp(',')?;
                let (pt, base) = p.tyval()?;
                if pt != Ty::Ptr {
                    return Err("vector gep".into());
                }
                let b = self.o(&pt, &base)?;
                let mut cur = t;
                let mut off = 0i64;
                let mut dynv = vec![];
                let mut first = true;
                while p.eatp(',') {
                    if matches!(p.peek(), Some(Tok::M)) {
                        break;
                    }
                    let (it, iv) = p.tyval()?;
                    let x = self.o(&it, &iv)?;
                    let scale;
                    if first {
                        scale = cur.size() as i64;
                        first = false;
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                if let O::K(v) = &x {
                                    let n = v.conc().unwrap() as u64;
                                    let (o2, t2) = cur.field_off(n);
                                    off += o2 as i64;
                                    let t2 = t2.clone();
                                    cur = t2;
                                    continue;
                                }
                                return Err("dynamic struct index".into());
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                scale = e.size() as i64;
                                let e2 = (**e).clone();
                                cur = e2;
                            }
                            _ => return Err("gep into scalar".into()),
                        }
                    }
                    match &x {
                        O::K(v) => {
                            let n = crate::expr::sext(v.conc().unwrap(), it.bits()) as i64;
                            off = off.wrapping_add(n.wrapping_mul(scale));
                        }
                        _ => dynv.push((x, scale, it.bits())),
                    }
                }
                I::Gep(dd, b, off, dynv)
            }
            "alloca" => {
                p.eatw("inalloca");
                let t = p.ty()?;
                let mut n = O::K(Val::C(1));
                let mut align = t.align();
                while p.eatp(',') {
                    if p.eatw("align") {
                        align = p.num()? as u64;
                    } else if p.at_type() {
                        let (nt, nv) = p.tyval()?;
                        n = self.o(&nt, &nv)?;
                    } else {
                        p.i += 1;
                    }
                }
                I::Alloca(dd, t.size(), align, n)
            }
            "extractvalue" => {
                let (t, a) = p.tyval()?;
                let mut path = vec![];
                while p.eatp(',') {
                    if matches!(p.peek(), Some(Tok::M)) {
                        break;
                    }
                    path.push(p.num()? as u32);
                }
                I::ExtV(dd, self.o(&t, &a)?, path)
            }
            "insertvalue" => {
                let (t, a) = p.tyval()?;
                p.expp(',')?;
                let (t2, v) = p.tyval()?;
                let mut path = vec![];
                while p.eatp(',') {
                    if matches!(p.peek(), Some(Tok::M)) {
                        break;
                    }
                    path.push(p.num()? as u32);
                }
                I::InsV(dd, self.o(&t, &a)?, self.o(&t2, &v)?, path)
            }
            "extractelement" => {
                let (t, a) = p.tyval()?;
                p.expp(',')?;
                let (t2, i) = p.tyval()?;
                I::ExtE(dd, self.o(&t, &a)?, self.o(&t2, &i)?)
            }
            "insertelement" => {
                let (t, a) = p.tyval()?;
                p.expp(',')?;
                let (t2, v) = p.tyval()?;
                p.expp(',')?;
                let (t3, i) = p.tyval()?;
                I::InsE(dd, self.o(&t, &a)?, self.o(&t2, &v)?, self.o(&t3, &i)?)
            }
            "shufflevector" => {
                let (t, a) = p.tyval()?;
                p.expp(',')?;
                let (t2, b) = p.tyval()?;
                p.expp(',')?;
                let (t3, m) = p.tyval()?;
                let mv = self.lay.cval(&t3, &m)?;
                let mm = match mv {
                    Val::A(v) => v.iter().map(|x| x.conc().unwrap() as u32 as i32).collect(),
                    _ => return Err("shuffle mask".into()),
                };
                I::Shuf(dd, self.o(&t, &a)?, self.o(&t2, &b)?, mm)
            }
            "freeze" => {
                let (t, a) = p.tyval()?;
                I::Mov(dd, self.o(&t, &a)?)
            }
            "br" => {
                if p.isw("label") {
                    I::Br(self.label(&mut p)?)
                } else {
                    let (t, c) = p.tyval()?;
                    p.expp(',')?;
                    let a = self.label(&mut p)?;
                    p.expp(',')?;
                    let b = self.label(&mut p)?;
                    I::CBr(self.o(&t, &c)?, a, b)
                }
            }
            "switch" => {
                let (t, v) = p.tyval()?;
                p.expp(',')?;
                let def = self.label(&mut p)?;
                p.expp('[')?;
                let mut cases = vec![];
                while !p.eatp(']') {
                    let (ct, cv) = p.tyval()?;
                    p.expp(',')?;
                    let l = self.label(&mut p)?;
                    cases.push((self.lay.cval(&ct, &cv)?.conc().unwrap(), l));
                }
                I::Sw(t.bits(), self.o(&t, &v)?, cases, def)
            }
            "ret" => {
                if p.isw("void") {
                    I::Ret(None)
                } else {
                    let (t, v) = p.tyval()?;
                    I::Ret(Some(self.o(&t, &v)?))
                }
            }
            "unreachable" => I::Unreach,
            "fence" => I::Mov(self.reg("__fence"), O::K(Val::C(0))),
            "atomicrmw" => {
                Self::skip_flags(&mut p);
                let o = match p.next()? {
                    Tok::W(w) => w,
                    _ => return Err("rmw".into()),
                };
                let (pt, a) = p.tyval()?;
                p.expp(',')?;
                let (t, v) = p.tyval()?;
                I::Rmw(dd, o, t.bits(), self.o(&pt, &a)?, self.o(&t, &v)?)
            }
            "cmpxchg" => {
                Self::skip_flags(&mut p);
                let (pt, a) = p.tyval()?;
                p.expp(',')?;
                let (t, c) = p.tyval()?;
                p.expp(',')?;
                let (_, n) = p.tyval()?;
                I::Cx(dd, t.bits(), self.o(&pt, &a)?, self.o(&t, &c)?, self.o(&t, &n)?)
            }
            "tail" | "notail" | "musttail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" {
                    p.next()?;
                }
                Self::skip_flags(&mut p);
                // cc and ret attrs
                loop {
                    p.skip_attrs()?;
                    if p.at_type() {
                        break;
                    }
                    return Err(format!("call type at {:?}", p.peek()));
                }
                let rt = p.ty()?;
                // optional function type
                if p.isp('(') {
                    p.skip_balanced()?;
                }
                if p.isw("asm") {
                    return Ok(I::Mov(self.reg("__asm"), O::K(Val::C(0))));
                }
                let callee = match p.next()? {
                    Tok::G(n) => Some(n),
                    Tok::L(n) => {
                        let r = self.reg(&n);
                        return self.finish_call(p, d, rt, Err(O::R(r)));
                    }
                    x => return Err(format!("callee {:?}", x)),
                };
                return self.finish_call(p, d, rt, Ok(callee.unwrap()));
            }
            "landingpad" | "resume" | "cleanupret" | "catchswitch" => I::Bad(op),
            _ => return Err(format!("unknown instruction {}", op)),
        })
    }
    fn finish_call(&mut self, mut p: P, d: Option<u32>, rt: Ty, callee: Result<String, O>) -> R<I> {
        p.expp('(')?;
        let mut args = vec![];
        let mut ws = vec![];
        if !p.eatp(')') {
            loop {
                let t = p.ty()?;
                if t == Ty::Meta {
                    // metadata argument: skip to ',' or ')'
                    while !p.isp(',') && !p.isp(')') {
                        if p.isp('(') {
                            p.skip_balanced()?;
                        } else {
                            p.i += 1;
                        }
                    }
                    args.push(O::K(Val::C(0)));
                    ws.push(0);
                } else {
                    p.skip_attrs()?;
                    let v = p.val(&t)?;
                    ws.push(match &t {
                        t if t.is_scalar() => t.bits(),
                        Ty::Vec(_, l) => l.bits(),
                        _ => 0,
                    });
                    args.push(self.o(&t, &v)?);
                }
                if !p.eatp(',') {
                    break;
                }
            }
            p.expp(')')?;
        }
        let c = match callee {
            Err(o) => Callee::Ind(o),
            Ok(n) => match self.lay.fidx.get(&n) {
                Some(&i) => match panic_fn(&self.lay.fpretty[i as usize]) {
                    Some(s) => Callee::Intr(Intr::Panic(s)),
                    None => Callee::Fn(i),
                },
                None => Callee::Intr(intrinsic(&n)),
            },
        };
        Ok(I::Call(d, c, args, ws, Rc::new(rt)))
    }
}

pub fn panic_fn(pretty: &str) -> Option<String> {
    if pretty.starts_with("core::panicking::") || pretty.contains("rust_begin_unwind") || pretty.starts_with("std::process::abort") || pretty.contains("rust_panic") {
        return Some(pretty.to_string());
    }
    if pretty.starts_with("std::panicking::") || pretty.starts_with("alloc::alloc::handle_alloc_error") || pretty.starts_with("alloc::raw_vec::handle_error") || pretty.starts_with("alloc::raw_vec::capacity_overflow") {
        if pretty.contains("default_hook") || pretty.contains("panic_count") {
            return None;
        }
        return Some(pretty.to_string());
    }
    None
}

pub fn intrinsic(n: &str) -> Intr {
    if let Some(r) = n.strip_prefix("llvm.") {
        let table: &[(&str, Intr)] = &[
            ("memcpy.", Intr::Memcpy),
            ("memmove.", Intr::Memcpy),
            ("memset.", Intr::Memset),
            ("ctpop.", Intr::Ctpop),
            ("ctlz.", Intr::Ctlz),
            ("cttz.", Intr::Cttz),
            ("bswap.", Intr::Bswap),
            ("bitreverse.", Intr::Bitreverse),
            ("fshl.", Intr::Fshl),
            ("fshr.", Intr::Fshr),
            ("umin.", Intr::Umin),
            ("umax.", Intr::Umax),
            ("smin.", Intr::Smin),
            ("smax.", Intr::Smax),
            ("abs.", Intr::Abs),
            ("ucmp.", Intr::Ucmp),
            ("scmp.", Intr::Scmp),
            ("uadd.with.overflow.", Intr::UaddO),
            ("usub.with.overflow.", Intr::UsubO),
            ("umul.with.overflow.", Intr::UmulO),
            ("sadd.with.overflow.", Intr::SaddO),
            ("ssub.with.overflow.", Intr::SsubO),
            ("smul.with.overflow.", Intr::SmulO),
            ("uadd.sat.", Intr::UaddSat),
            ("usub.sat.", Intr::UsubSat),
            ("sadd.sat.", Intr::SaddSat),
            ("ssub.sat.", Intr::SsubSat),
            ("fptosi.sat.", Intr::FpToSiSat),
            ("fptoui.sat.", Intr::FpToUiSat),
            ("fabs.", Intr::Fabs),
            ("floor.", Intr::Floor),
            ("ceil.", Intr::Ceil),
            ("trunc.", Intr::FTrunc),
            ("rint.", Intr::Rint),
            ("nearbyint.", Intr::Rint),
            ("roundeven.", Intr::Rint),
            ("round.", Intr::Round),
            ("sqrt.", Intr::Sqrt),
            ("copysign.", Intr::Copysign),
            ("fma.", Intr::Fma),
            ("fmuladd.", Intr::Fma),
            ("minnum.", Intr::MinNum),
            ("maxnum.", Intr::MaxNum),
            ("minimumnum.", Intr::MinNum),
            ("maximumnum.", Intr::MaxNum),
            ("pow.", Intr::Pow),
            ("tan.", Intr::Libm("tan".to_string())),
            ("cos.", Intr::Libm("cos".to_string())),
            ("sin.", Intr::Libm("sin".to_string())),
            ("threadlocal.address", Intr::Tls),
            ("expect", Intr::Expect),
            ("ptrmask", Intr::PtrMask),
            ("is.constant", Intr::False),
            ("assume", Intr::Nop),
            ("lifetime.", Intr::Nop),
            ("invariant.", Intr::Nop),
            ("experimental.noalias", Intr::Nop),
            ("dbg.", Intr::Nop),
            ("prefetch", Intr::Nop),
            ("x86.sse2.pause", Intr::Nop),
            ("donothing", Intr::Nop),
            ("trap", Intr::Trap),
            ("debugtrap", Intr::Trap),
            ("ubsantrap", Intr::Trap),
        ];
        for (p, i) in table {
            if r.starts_with(p) {
                return i.clone();
            }
        }
        if let Some(x) = r.strip_prefix("vector.reduce.") {
            let k = x.split('.').next().unwrap().to_string();
            return Intr::VReduce(k);
        }
        return Intr::Unsupported(n.to_string());
    }
    match n {
        "malloc" => Intr::Malloc,
        "calloc" => Intr::Calloc,
        "realloc" => Intr::Realloc,
        "free" => Intr::Free,
        "posix_memalign" => Intr::PosixMemalign,
        "memcpy" | "memmove" => Intr::Memcpy,
        "memset" => Intr::Memset,
        "memcmp" => Intr::Memcmp,
        "bcmp" => Intr::Bcmp,
        "strlen" => Intr::Strlen,
        "memchr" => Intr::Memchr,
        "getrandom" => Intr::GetRandom,
        "tan" | "atan" | "atan2" | "sin" | "cos" | "asin" | "acos" | "fmod" | "cbrt" | "hypot" => Intr::Libm(n.to_string()),
        "abort" | "_exit" | "exit" => Intr::Panic(n.to_string()),
        "__sym_byte" => Intr::SymByte,
        "__sym_choose" => Intr::SymChoose,
        "__sym_assume" => Intr::SymAssume,
        "__sym_check" => Intr::SymCheck,
        "__sym_reach" => Intr::SymReach,
        "__sym_note" => Intr::SymNote,
        "__sym_concretize" => Intr::SymConc,
        "__sym_live" => Intr::SymLive,
        "__sym_f64" => Intr::SymF64,
        "__sym_fail" => Intr::SymFail,
        "__sym_expect" => Intr::SymExpect,
        _ => Intr::Unsupported(n.to_string()),
    }
}

pub fn lower(f: &RawFn, lay: &Layout, named: &HashMap<String, Ty>) -> R<Fun> {
    let mut l = Low { lay, named, regs: HashMap::new(), blk: HashMap::new() };
    for (_, n) in &f.params {
        l.reg(n);
    }
    if l.regs.len() != f.params.len() {
        return Err("param names".into());
    }
    for (i, b) in f.blocks.iter().enumerate() {
        l.blk.insert(b.name.clone(), i as u32);
    }
    let mut blocks = vec![];
    let mut n = 0;
    for b in &f.blocks {
        let mut phis = vec![];
        let mut insts = vec![];
        for i in &b.insts {
            n += 1;
            if i.line.starts_with("phi ") {
                let mut p = P::new(&i.line, named);
                p.i = 1;
                Low::skip_flags(&mut p);
                let t = p.ty()?;
                let d = l.reg(i.dst.as_ref().unwrap());
                let mut inc = vec![];
                loop {
                    p.expp('[')?;
                    let v = p.val(&t)?;
                    p.expp(',')?;
                    let bl = match p.next()? {
                        Tok::L(n) => n,
                        _ => return Err("phi label".into()),
                    };
                    p.expp(']')?;
                    let bi = *l.blk.get(&bl).ok_or(format!("phi block {}", bl))?;
                    let o = l.o(&t, &v)?;
                    inc.push((bi, o));
                    if !p.eatp(',') {
                        break;
                    }
                    if !p.isp('[') {
                        break;
                    }
                }
                phis.push((d, inc));
                continue;
            }
            let is_invoke = i.line.starts_with("invoke ");
            let x = l.inst(&i.dst, &i.line).map_err(|e| format!("{}: {} :: {}", f.name, e, i.line))?;
            insts.push(x);
            if is_invoke {
                // continue on the normal edge: panics never unwind in the encoded program
                let pos = i.line.rfind("to label %").ok_or("invoke label")?;
                let rest = &i.line[pos + 10..];
                let toks = tokenize(&format!("%{}", rest));
                if let Tok::L(nm) = &toks[0] {
                    insts.push(I::Br(*l.blk.get(nm).ok_or("invoke dest")?));
                }
            }
        }
        blocks.push(Blk { phis, insts });
    }
    Ok(Fun { name: f.name.clone(), pretty: f.pretty.clone(), nregs: l.regs.len() as u32 + 1, nparams: f.params.len() as u32, blocks, ninsts: n })
}
