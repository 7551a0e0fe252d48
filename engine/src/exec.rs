//! Symbolic execution of the lowered IR.
use crate::expr::{cbin, mask, sext, Store, E, K};
use crate::ir::*;
use crate::ll::{Module, Ty};
use crate::mem::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Fun>,
    pub fi: u32,
    pub regs: Vec<Val>,
    pub blk: u32,
    pub ip: u32,
    pub ret: Option<u32>,
    pub sp: u64,
}

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub frames: Vec<Rc<Frame>>,
    pub sp: u64,
    pub heap: u64,
    pub live: i64,
    pub pc: Vec<E>,
    pub dom: Vec<[u64; 4]>,
    pub fixed: u128,
    pub ent: u128,
    pub model: Vec<u8>,
    pub nvars: u32,
    pub known: Vec<(E, u128)>,
    pub steps: u64,
    pub notes: Vec<(u8, u32)>,
    pub forks: u32,
    pub expect: bool,
}

pub struct Alt {
    pub c: E,
    pub known: Option<(E, u128)>,
    pub model: Vec<u8>,
}

pub enum X {
    Fork(Vec<Alt>),
    Viol(String, String),
    Inc(String),
    End,
}
type Rx<T> = Result<T, X>;

enum Flow {
    Next,
    Jump(u32),
    Frames,
    Split(E, Option<Vec<u8>>, bool, u32, u32), // cond, other model, side under current model, t, f
    Multi(Vec<(E, Vec<u8>, u32)>),
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub site: String,
    pub inputs: Vec<u8>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub steps: u64,
    pub forks: u64,
    pub max_steps: u64,
    pub max_vars: u64,
    pub assumed_away: u64,
    pub checks_true: u64,
    pub checks_solver: u64,
    pub branches_sym: u64,
    pub cache_hits: u64,
}

pub struct Opts {
    pub max_steps: u64,
    pub max_depth: usize,
    pub max_expr: u32,
    pub max_enum: usize,
    pub samples: usize,
    pub seed: u64,
    pub stubs: Vec<(String, String)>,
}

pub struct Engine<'a> {
    pub m: &'a Module,
    pub lay: Layout,
    pub funs: Vec<Option<Rc<Fun>>>,
    pub x: Store,
    pub z: Z3,
    pub o: Opts,
    pub stats: Stats,
    pub viols: Vec<Violation>,
    pub nviol: u64,
    viol_keys: HashMap<(String, String, String), u32>,
    pub incs: BTreeMap<String, (u64, Vec<u8>)>,
    pub reached: BTreeMap<String, u64>,
    pub checked: BTreeMap<String, u64>,
    pub cov: Vec<Vec<bool>>,
    pub samples: Vec<(Vec<u8>, Vec<u8>)>,
    nsample: u64,
    rng: u64,
    cache: HashMap<Vec<E>, (bool, Vec<u8>)>,
    dcache: HashSet<([u64; 4], [u64; 4])>,
    ecache: HashSet<[u64; 4]>,
    stubs: HashMap<u32, String>,
    pending: Option<Vec<State>>,
    pub forksites: BTreeMap<String, u64>,
    pub trace_forks: bool,
}

fn empty(d: &[u64; 4]) -> bool {
    d.iter().all(|x| *x == 0)
}
fn count(d: &[u64; 4]) -> u32 {
    d.iter().map(|x| x.count_ones()).sum()
}
fn first(d: &[u64; 4]) -> u8 {
    for i in 0..4 {
        if d[i] != 0 {
            return (i as u32 * 64 + d[i].trailing_zeros()) as u8;
        }
    }
    0
}

impl<'a> Engine<'a> {
    pub fn new(m: &'a Module, o: Opts, timeout_ms: u32) -> Result<Engine<'a>, String> {
        let mut gaddr = HashMap::new();
        let mut fidx = HashMap::new();
        let mut fpretty = vec![];
        for (i, f) in m.fns.iter().enumerate() {
            fidx.insert(f.name.clone(), i as u32);
            gaddr.insert(f.name.clone(), FN_BASE + i as u64 * 16);
            fpretty.push(f.pretty.clone());
        }
        // declared-only functions get addresses too
        for (i, n) in m.decls.iter().enumerate() {
            gaddr.insert(n.clone(), FN_BASE + (m.fns.len() + i) as u64 * 16);
        }
        let mut a = GL_BASE;
        for g in &m.globals {
            a = (a + g.align - 1) / g.align * g.align;
            gaddr.insert(g.name.clone(), a);
            a += g.ty.size().max(1);
        }
        let mut lay = Layout { gaddr, fidx, fpretty };
        for (n, op) in &m.aliases {
            let v = lay.cval(&Ty::Ptr, op)?.conc().unwrap() as u64;
            lay.gaddr.insert(n.clone(), v);
            if v >= FN_BASE && v < STACK_BASE {
                lay.fidx.insert(n.clone(), ((v - FN_BASE) / 16) as u32);
            }
        }
        let nf = m.fns.len();
        let mut stubs = HashMap::new();
        for (pat, kind) in &o.stubs {
            let mut hit = 0;
            for (i, p) in lay.fpretty.iter().enumerate() {
                if p.contains(pat.as_str()) {
                    stubs.insert(i as u32, kind.clone());
                    hit += 1;
                }
            }
            if hit == 0 {
                return Err(format!("stub pattern {} matches no function", pat));
            }
        }
        let seed = o.seed;
        Ok(Engine {
            m,
            lay,
            funs: (0..nf).map(|_| None).collect(),
            x: Store::new(),
            z: Z3::new(timeout_ms),
            o,
            stats: Stats::default(),
            viols: vec![],
            nviol: 0,
            viol_keys: HashMap::new(),
            incs: BTreeMap::new(),
            reached: BTreeMap::new(),
            checked: BTreeMap::new(),
            cov: (0..nf).map(|_| vec![]).collect(),
            samples: vec![],
            nsample: 0,
            rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
            cache: HashMap::new(),
            dcache: HashSet::new(),
            ecache: HashSet::new(),
            stubs,
            pending: None,
            forksites: BTreeMap::new(),
            trace_forks: std::env::var("SYM_FORKS").is_ok(),
        })
    }
    /// forget per-process results (after fork)
    pub fn reset_results(&mut self) {
        self.stats = Stats::default();
        self.viols.clear();
        self.nviol = 0;
        self.viol_keys.clear();
        self.incs.clear();
        self.reached.clear();
        self.checked.clear();
        for c in &mut self.cov {
            c.clear();
        }
        self.samples.clear();
        self.nsample = 0;
        self.z.queries = 0;
        self.z.sat = 0;
        self.z.unsat = 0;
        self.z.unknown = 0;
        self.z.time = 0.0;
        self.z.dumps.clear();
    }
    pub fn init_state(&mut self) -> Result<State, String> {
        let mut end = GL_BASE;
        for g in &self.m.globals {
            end = end.max(self.lay.gaddr[&g.name] + g.ty.size().max(1));
        }
        let mut mem = Mem::new(GL_BASE, end + 64);
        for g in &self.m.globals {
            if let Some(op) = &g.init {
                let v = self.lay.cval(&g.ty, op).map_err(|e| format!("global {}: {}", g.name, e))?;
                let a = self.lay.gaddr[&g.name];
                Self::init_mem(&mut mem, a, &g.ty, &v);
            }
        }
        Ok(State {
            mem,
            frames: vec![],
            sp: STACK_BASE + 4096,
            heap: HEAP_BASE + 4096,
            live: 0,
            pc: vec![],
            dom: vec![],
            fixed: 0,
            ent: 0,
            model: vec![],
            nvars: 0,
            known: vec![],
            steps: 0,
            notes: vec![],
            forks: 0,
            expect: false,
        })
    }
    fn init_mem(mem: &mut Mem, a: u64, ty: &Ty, v: &Val) {
        match (ty, v) {
            (_, Val::C(x)) => {
                mem.write_c(a, *x, ((ty.bits() + 7) / 8) as usize);
            }
            (_, Val::W(x)) => {
                mem.write_c(a, **x as u64, 8);
                mem.write_c(a + 8, (**x >> 64) as u64, 8);
            }
            (_, Val::A(f)) => {
                for (i, x) in f.iter().enumerate() {
                    let (o, t) = ty.field_off(i as u64);
                    Self::init_mem(mem, a + o, t, x);
                }
            }
            _ => {}
        }
    }
    pub fn fun(&mut self, i: u32) -> Result<Rc<Fun>, String> {
        if let Some(f) = &self.funs[i as usize] {
            return Ok(f.clone());
        }
        let f = Rc::new(lower(&self.m.fns[i as usize], &self.lay, &self.m.named)?);
        self.cov[i as usize] = vec![false; f.blocks.len()];
        self.funs[i as usize] = Some(f.clone());
        Ok(f)
    }
    fn touch(&mut self, fi: u32, b: u32, n: usize) {
        let c = &mut self.cov[fi as usize];
        if c.is_empty() {
            c.resize(n, false);
        }
        c[b as usize] = true;
    }
    pub fn push_frame(&mut self, st: &mut State, fi: u32, args: Vec<Val>, ret: Option<u32>) -> Rx<()> {
        if st.frames.len() >= self.o.max_depth {
            return Err(X::Viol("limit".into(), "call depth limit".into()));
        }
        let f = self.fun(fi).map_err(|e| X::Inc(format!("unsupported: {}", e)))?;
        let mut regs = args;
        if regs.len() != f.nparams as usize {
            return Err(X::Inc(format!("arity mismatch calling {}", f.pretty)));
        }
        regs.resize(f.nregs as usize, Val::C(0));
        self.touch(fi, 0, f.blocks.len());
        let sp = st.sp;
        st.frames.push(Rc::new(Frame { f, fi, regs, blk: 0, ip: 0, ret, sp }));
        Ok(())
    }

    // ---------------------------------------------------------------- solver side
    fn slice(&self, st: &State, m0: u128) -> (Vec<E>, u128) {
        let mut m = m0;
        let mut used = vec![false; st.pc.len()];
        loop {
            let mut ch = false;
            for (i, c) in st.pc.iter().enumerate() {
                if !used[i] {
                    let cm = self.x.vmask(*c);
                    if cm & m != 0 {
                        used[i] = true;
                        if cm & !m != 0 {
                            m |= cm;
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut v: Vec<E> = (0..st.pc.len()).filter(|i| used[*i]).map(|i| st.pc[i]).collect();
        v.sort();
        v.dedup();
        (v, m)
    }
    /// Is `pc /\ e` satisfiable? On yes, a full model.
    fn feasible(&mut self, st: &State, e: E) -> Rx<Option<Vec<u8>>> {
        if let Some(v) = self.x.kval(e) {
            return Ok(if v == 1 { Some(st.model.clone()) } else { None });
        }
        let m = self.x.vmask(e);
        if m & !st.fixed == 0 {
            let v = self.x.eval(e, &st.model);
            return Ok(if v == 1 { Some(st.model.clone()) } else { None });
        }
        if m.count_ones() == 1 {
            let i = m.trailing_zeros() as usize;
            let tt = self.x.tt(e);
            let d = st.dom[i];
            let r = [d[0] & tt[0], d[1] & tt[1], d[2] & tt[2], d[3] & tt[3]];
            if empty(&r) {
                // no value of this byte is left: let the solver confirm it once
                if self.dcache.contains(&(d, tt)) {
                    self.stats.cache_hits += 1;
                    return Ok(None);
                }
                let mut cs: Vec<E> = st.pc.iter().copied().filter(|c| self.x.vmask(*c) == m).collect();
                cs.push(e);
                let mut dummy = vec![];
                match self.z.check(&mut self.x, &cs, 0, &mut dummy) {
                    Res::Unsat => {
                        self.dcache.insert((d, tt));
                        return Ok(None);
                    }
                    Res::Sat => return Err(X::Inc("solver disagrees with byte domain".into())),
                    Res::Unknown => return Err(X::Inc("solver timeout".into())),
                }
            }
            let mut md = st.model.clone();
            if m & st.ent == 0 {
                md[i] = first(&r);
                return Ok(Some(md));
            }
            // candidate witnesses: change only this byte of the current model
            let rel: Vec<E> = st.pc.iter().copied().filter(|c| self.x.vmask(*c) & m != 0 && self.x.vmask(*c) != m).collect();
            let mut tries = 0;
            for v in 0..256usize {
                if r[v / 64] >> (v % 64) & 1 == 1 {
                    md[i] = v as u8;
                    if rel.iter().all(|c| self.x.eval(*c, &md) == 1) {
                        return Ok(Some(md));
                    }
                    tries += 1;
                    if tries > 12 {
                        break;
                    }
                }
            }
        }
        let (mut cs, sm) = self.slice(st, m);
        cs.push(e);
        if let Some((r, md)) = self.cache.get(&cs) {
            self.stats.cache_hits += 1;
            if !*r {
                return Ok(None);
            }
            let mut out = st.model.clone();
            for i in 0..md.len() {
                if sm >> i & 1 == 1 {
                    out[i] = md[i];
                }
            }
            return Ok(Some(out));
        }
        let mut out = st.model.clone();
        match self.z.check(&mut self.x, &cs, sm, &mut out) {
            Res::Sat => {
                self.cache.insert(cs, (true, out.clone()));
                Ok(Some(out))
            }
            Res::Unsat => {
                self.cache.insert(cs, (false, vec![]));
                Ok(None)
            }
            Res::Unknown => Err(X::Inc("solver timeout".into())),
        }
    }
    pub fn constrain(&mut self, st: &mut State, e: E) {
        let n = self.x.nd(e);
        if n.k == K::Const {
            return;
        }
        if n.k == K::And && n.w == 1 {
            self.constrain(st, n.a);
            self.constrain(st, n.b);
            return;
        }
        if n.k == K::Xor && n.w == 1 && self.x.kval(n.b) == Some(1) {
            let i = self.x.nd(n.a);
            if i.k == K::Or {
                let a = self.x.not(i.a);
                let b = self.x.not(i.b);
                self.constrain(st, a);
                self.constrain(st, b);
                return;
            }
        }
        if n.mask.count_ones() == 1 {
            let i = n.mask.trailing_zeros() as usize;
            let tt = self.x.tt(e);
            let d = &mut st.dom[i];
            let r = [d[0] & tt[0], d[1] & tt[1], d[2] & tt[2], d[3] & tt[3]];
            if r == *d {
                return;
            }
            *d = r;
            if count(&r) == 1 {
                st.fixed |= 1 << i;
            }
            st.pc.push(e);
        } else {
            st.ent |= n.mask;
            if !st.pc.contains(&e) {
                st.pc.push(e);
            }
        }
    }
    /// A condition over one byte which all its values left on this path agree about
    /// (confirmed by the solver, once per domain) is a constant.
    fn decided(&mut self, st: &State, r: Val) -> Rx<Val> {
        if let Val::S(e) = r {
            let m = self.x.vmask(e);
            if m.count_ones() == 1 && m & st.fixed == 0 {
                let d = st.dom[m.trailing_zeros() as usize];
                if d != [!0; 4] {
                    let tt = self.x.tt(e);
                    if (0..4).all(|k| d[k] & tt[k] == 0) {
                        if self.feasible(st, e)?.is_none() {
                            return Ok(Val::C(0));
                        }
                    } else if (0..4).all(|k| d[k] & !tt[k] == 0) {
                        let ne = self.x.not(e);
                        if self.feasible(st, ne)?.is_none() {
                            return Ok(Val::C(1));
                        }
                    }
                }
            }
        }
        Ok(r)
    }
    /// Make a value out of an expression, folding it when all its inputs are fixed.
    fn mkv(&mut self, st: &State, e: E) -> Val {
        let n = self.x.nd(e);
        if n.k == K::Const {
            return Val::k(n.v, n.w as u32);
        }
        if n.mask & !st.fixed == 0 {
            let v = self.x.eval(e, &st.model);
            return Val::k(v, n.w as u32);
        }
        Val::S(e)
    }
    fn ex(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::C(x) => self.x.konst(*x as u128, w),
            Val::W(x) => self.x.konst(**x, w),
            Val::S(e) => *e,
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn enum_z3(&mut self, st: &State, e: E) -> Rx<Vec<Alt>> {
        let w = self.x.w(e);
        let mut alts: Vec<Alt> = vec![];
        let mut excl = self.x.konst(1, 1);
        loop {
            match self.feasible(st, excl)? {
                None => break,
                Some(md) => {
                    let v = self.x.eval(e, &md);
                    let k = self.x.konst(v, w);
                    let c = self.x.bin(K::Eq, e, k);
                    let nc = self.x.not(c);
                    excl = self.x.bin(K::And, excl, nc);
                    alts.push(Alt { c, known: Some((e, v)), model: md });
                    if alts.len() > self.o.max_enum {
                        return Err(X::Inc("too many values to enumerate".into()));
                    }
                }
            }
        }
        Ok(alts)
    }
    fn enum_var(&mut self, st: &State, i: u32) -> Rx<Vec<Alt>> {
        let e = self.x.var(i);
        if st.ent >> i & 1 == 1 {
            return self.enum_z3(st, e);
        }
        self.enum_dom(st, e)
    }
    /// The case split over the values of byte `i` in its domain is complete:
    /// the solver refutes "the path condition holds and the byte has another value"
    /// (once per distinct domain).
    fn certify_dom(&mut self, st: &State, i: usize) -> Rx<()> {
        let d = st.dom[i];
        if self.ecache.contains(&d) {
            self.stats.cache_hits += 1;
            return Ok(());
        }
        let v = self.x.var(i as u32);
        let m = self.x.vmask(v);
        let mut cs: Vec<E> = st.pc.iter().copied().filter(|c| self.x.vmask(*c) == m).collect();
        for k in 0..256usize {
            if d[k / 64] >> (k % 64) & 1 == 1 {
                let k = self.x.konst(k as u128, 8);
                let c = self.x.bin(K::Eq, v, k);
                cs.push(self.x.not(c));
            }
        }
        let mut dummy = vec![];
        match self.z.check(&mut self.x, &cs, 0, &mut dummy) {
            Res::Unsat => {
                self.ecache.insert(d);
                Ok(())
            }
            Res::Sat => Err(X::Inc("solver disagrees with byte domain".into())),
            Res::Unknown => Err(X::Inc("solver timeout".into())),
        }
    }
    fn enum_dom(&mut self, st: &State, e: E) -> Rx<Vec<Alt>> {
        let i = self.x.vmask(e).trailing_zeros() as usize;
        self.certify_dom(st, i)?;
        let w = self.x.w(e);
        let d = st.dom[i];
        let mut seen: Vec<(u128, u8)> = vec![];
        let mut md = st.model.clone();
        for v in 0..256usize {
            if d[v / 64] >> (v % 64) & 1 == 1 {
                md[i] = v as u8;
                let r = self.x.eval(e, &md);
                if !seen.iter().any(|s| s.0 == r) {
                    seen.push((r, v as u8));
                }
            }
        }
        let mut out = vec![];
        for (r, v) in seen {
            let k = self.x.konst(r, w);
            let c = self.x.bin(K::Eq, e, k);
            let mut md = st.model.clone();
            md[i] = v;
            out.push(Alt { c, known: Some((e, r)), model: md });
        }
        Ok(out)
    }
    /// Concrete value of `v`, forking over all feasible values if necessary.
    fn conc(&mut self, st: &State, v: &Val, _w: u32) -> Rx<u128> {
        let e = match v {
            Val::C(x) => return Ok(*x as u128),
            Val::W(x) => return Ok(**x),
            Val::S(e) => *e,
            Val::A(_) => return Err(X::Inc("concretize aggregate".into())),
        };
        if let Some(k) = self.x.kval(e) {
            return Ok(k);
        }
        let m = self.x.vmask(e);
        if m & !st.fixed == 0 {
            return Ok(self.x.eval(e, &st.model));
        }
        if let Some(k) = st.known.iter().find(|k| k.0 == e) {
            return Ok(k.1);
        }
        // a value that is a function of one sub-value: split on that
        let n = self.x.nd(e);
        let sub = match n.k {
            K::ZExt | K::SExt => n.a,
            K::Add | K::Mul | K::Xor if self.x.kval(n.b).is_some() => n.a,
            K::Concat if self.x.kval(n.b).is_some() => n.a,
            K::Concat if self.x.kval(n.a).is_some() => n.b,
            _ => 0,
        };
        if sub != 0 {
            let v = self.conc(st, &Val::S(sub), 0)?;
            let k = self.x.konst(v, self.x.w(sub));
            let r = match n.k {
                K::ZExt => self.x.zext(k, n.w as u32),
                K::SExt => self.x.sext(k, n.w as u32),
                K::Concat if n.a == sub => self.x.concat(k, n.b),
                K::Concat => self.x.concat(n.a, k),
                b => self.x.bin(b, k, n.b),
            };
            return Ok(self.x.kval(r).unwrap());
        }
        let free = m & !st.fixed;
        if m.count_ones() == 1 && m & st.ent == 0 {
            let alts = self.enum_dom(st, e)?;
            if alts.len() == 1 {
                return Ok(alts[0].known.unwrap().1);
            }
            return Err(X::Fork(alts));
        }
        if self.x.nd(e).size > self.o.max_expr || self.nonlinear(e) {
            let alts = self.enum_var(st, free.trailing_zeros())?;
            return Err(X::Fork(alts));
        }
        let alts = self.enum_z3(st, e)?;
        Err(X::Fork(alts))
    }
    fn nonlinear(&self, e: E) -> bool {
        let n = self.x.nd(e);
        if n.k == K::Mul && self.x.kval(n.b).is_none() || matches!(n.k, K::UDiv | K::SDiv | K::URem | K::SRem) {
            return true;
        }
        [n.a, n.b, n.c].iter().any(|c| *c != 0 && self.nonlinear(*c))
    }
    /// force all the variables of `e` to be fixed
    fn fix_vars(&mut self, st: &State, e: E) -> Rx<u128> {
        let m = self.x.vmask(e) & !st.fixed;
        if m == 0 {
            return Ok(self.x.eval(e, &st.model));
        }
        let alts = self.enum_var(st, m.trailing_zeros())?;
        Err(X::Fork(alts))
    }
    fn conc_fix(&mut self, st: &State, v: &Val) -> Rx<u128> {
        match v {
            Val::S(e) => self.fix_vars(st, *e),
            v => v.conc().ok_or(X::Inc("aggregate".into())),
        }
    }

    // ---------------------------------------------------------------- memory
    fn load(&mut self, st: &State, a: u64, w: u32) -> Rx<Val> {
        let n = ((w + 7) / 8) as usize;
        if n <= 8 {
            if let Some(v) = st.mem.read_c(a, n) {
                return Ok(Val::k(v as u128, w));
            }
        }
        let mut parts: Vec<(u8, u32)> = Vec::with_capacity(n);
        for i in 0..n {
            match st.mem.byte(a.wrapping_add(i as u64)) {
                Some(b) => parts.push(b),
                None => return Err(X::Viol("memory".into(), format!("invalid read at {:#x}", a))),
            }
        }
        if parts.iter().all(|p| p.1 == 0) {
            let mut v = 0u128;
            for i in 0..n {
                v |= (parts[i].0 as u128) << (8 * i);
            }
            return Ok(Val::k(v, w));
        }
        let mut acc: Option<E> = None;
        for p in parts.iter() {
            let e = if p.1 != 0 { p.1 } else { self.x.konst(p.0 as u128, 8) };
            acc = Some(match acc {
                None => e,
                Some(lo) => self.x.concat(e, lo),
            });
        }
        let mut e = acc.unwrap();
        if self.x.w(e) > w {
            e = self.x.extract(e, w - 1, 0);
        }
        Ok(self.mkv(st, e))
    }
    fn store(&mut self, st: &mut State, a: u64, w: u32, v: &Val) -> Rx<()> {
        let n = ((w + 7) / 8) as usize;
        let ok = match v {
            Val::C(x) => {
                if n <= 8 { st.mem.write_c(a, *x, n) } else { st.mem.write_c(a, *x, 8) && st.mem.write_c(a + 8, 0, n - 8) }
            }
            Val::W(x) => st.mem.write_c(a, **x as u64, 8.min(n)) && (n <= 8 || st.mem.write_c(a + 8, (**x >> 64) as u64, n - 8)),
            Val::S(e) => {
                let mut e = *e;
                if self.x.w(e) < n as u32 * 8 {
                    e = self.x.zext(e, n as u32 * 8);
                }
                let mut ok = true;
                for i in 0..n {
                    let b = self.x.extract(e, i as u32 * 8 + 7, i as u32 * 8);
                    ok &= match self.mkv(st, b) {
                        Val::C(c) => st.mem.write_b(a + i as u64, c as u8, 0),
                        _ => st.mem.write_b(a + i as u64, 0, b),
                    };
                }
                ok
            }
            Val::A(_) => false,
        };
        if ok {
            Ok(())
        } else {
            Err(X::Viol("memory".into(), format!("invalid write at {:#x}", a)))
        }
    }
    fn load_ty(&mut self, st: &State, a: u64, ty: &Ty) -> Rx<Val> {
        match ty {
            Ty::Vec(n, t) if t.bits() % 8 != 0 => {
                let w = *n as u32 * t.bits();
                let v = self.load(st, a, w)?;
                Ok(self.frombits(st, &v, w, t.bits(), *n))
            }
            Ty::Arr(n, _) | Ty::Vec(n, _) => {
                let mut v = vec![];
                for i in 0..*n {
                    let (o, t) = ty.field_off(i);
                    v.push(self.load_ty(st, a + o, t)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Struct(_, f) => {
                let mut v = vec![];
                for i in 0..f.len() {
                    let (o, t) = ty.field_off(i as u64);
                    v.push(self.load_ty(st, a + o, t)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            t => self.load(st, a, t.bits()),
        }
    }
    fn store_ty(&mut self, st: &mut State, a: u64, ty: &Ty, v: &Val) -> Rx<()> {
        match (ty, v) {
            (Ty::Vec(n, t), Val::A(_)) if t.bits() % 8 != 0 => {
                let w = *n as u32 * t.bits();
                let b = self.tobits(st, v, t.bits());
                self.store(st, a, w, &b)
            }
            (_, Val::A(f)) => {
                for (i, x) in f.iter().enumerate() {
                    let (o, t) = ty.field_off(i as u64);
                    self.store_ty(st, a + o, t, x)?;
                }
                Ok(())
            }
            (t, v) => self.store(st, a, t.bits(), v),
        }
    }
    fn tobits(&mut self, st: &State, v: &Val, lw: u32) -> Val {
        match v {
            Val::A(f) => {
                if f.iter().all(|x| x.conc().is_some()) {
                    let mut r = 0u128;
                    for (i, x) in f.iter().enumerate() {
                        r |= x.conc().unwrap() << (i as u32 * lw);
                    }
                    return Val::k(r, lw * f.len() as u32);
                }
                let mut acc: Option<E> = None;
                for x in f.iter() {
                    let e = self.ex(x, lw);
                    acc = Some(match acc {
                        None => e,
                        Some(lo) => self.x.concat(e, lo),
                    });
                }
                self.mkv(st, acc.unwrap())
            }
            v => v.clone(),
        }
    }
    fn frombits(&mut self, st: &State, v: &Val, w: u32, lw: u32, n: u64) -> Val {
        let mut out = vec![];
        for i in 0..n as u32 {
            out.push(match v {
                Val::S(e) => {
                    let x = self.x.extract(*e, (i + 1) * lw - 1, i * lw);
                    self.mkv(st, x)
                }
                v => Val::k(v.conc().unwrap() >> (i * lw), lw),
            });
        }
        let _ = w;
        Val::A(Rc::new(out))
    }
    /// address operand of a load: concrete, or a table lookup turned into an expression
    fn load_sym(&mut self, st: &State, e: E, w: u32) -> Rx<Val> {
        let m = self.x.vmask(e);
        if let Some(k) = st.known.iter().find(|k| k.0 == e) {
            return self.load(st, k.1 as u64, w);
        }
        if self.x.nd(e).size > self.o.max_expr {
            let a = self.fix_vars(st, e)?;
            return self.load(st, a as u64, w);
        }
        if m.count_ones() == 1 && w <= 64 {
            let i = m.trailing_zeros() as usize;
            // every value the byte can take on this path
            let dom: [u64; 4] = if m & st.ent == 0 {
                st.dom[i]
            } else {
                let v = self.x.var(i as u32);
                let mut d = [0u64; 4];
                for a in self.enum_z3(st, v)? {
                    let x = a.known.unwrap().1 as usize;
                    d[x / 64] |= 1 << (x % 64);
                }
                d
            };
            let mut t = vec![0u64; 256];
            let mut md = st.model.clone();
            let mut ok = true;
            let mut last = 0;
            let mut seen = false;
            for v in 0..256usize {
                if dom[v / 64] >> (v % 64) & 1 == 1 {
                    md[i] = v as u8;
                    let a = self.x.eval(e, &md) as u64;
                    match self.load(st, a, w)? {
                        Val::C(x) => {
                            t[v] = x;
                            last = x;
                            seen = true;
                        }
                        _ => {
                            ok = false;
                            break;
                        }
                    }
                } else if seen {
                    t[v] = last;
                }
            }
            if ok {
                let var = self.x.var(i as u32);
                let r = self.x.tab(var, t, w);
                return Ok(self.mkv(st, r));
            }
        }
        let a = self.conc(st, &Val::S(e), 64)?;
        self.load(st, a as u64, w)
    }
    fn addr(&mut self, st: &State, v: &Val) -> Rx<u64> {
        match v {
            Val::C(a) => Ok(*a),
            v => Ok(self.conc(st, v, 64)? as u64),
        }
    }
    fn read_str(&mut self, st: &State, p: u64, n: u64) -> String {
        let mut v = vec![];
        for i in 0..n.min(400) {
            if let Some((c, _)) = st.mem.byte(p + i) {
                v.push(c);
            }
        }
        String::from_utf8_lossy(&v).into_owned()
    }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64) -> u64 {
        let al = align.max(16);
        let a = (st.heap + 16 + al - 1) / al * al;
        st.heap = a + (size + 15) / 16 * 16 + 16;
        st.mem.write_c(a - 16, size, 8);
        st.mem.write_c(a - 8, 0xA11C_E11F, 8);
        st.live += 1;
        a
    }
    fn free(&mut self, st: &mut State, a: u64) -> Rx<u64> {
        if a == 0 {
            return Ok(0);
        }
        if st.mem.read_c(a - 8, 8) != Some(0xA11C_E11F) {
            return Err(X::Viol("memory".into(), "invalid or double free".into()));
        }
        st.mem.write_c(a - 8, 0xDEAD, 8);
        st.live -= 1;
        Ok(st.mem.read_c(a - 16, 8).unwrap())
    }

    // ---------------------------------------------------------------- operations
    fn binop(&mut self, st: &State, k: Bop, w: u32, a: &Val, b: &Val) -> Rx<Val> {
        if let (Val::A(x), Val::A(y)) = (a, b) {
            let mut v = vec![];
            for i in 0..x.len() {
                v.push(self.binop(st, k, w, &x[i], &y[i])?);
            }
            return Ok(Val::A(Rc::new(v)));
        }
        let kk = match k {
            Bop::Add => K::Add,
            Bop::Sub => K::Sub,
            Bop::Mul => K::Mul,
            Bop::UDiv => K::UDiv,
            Bop::SDiv => K::SDiv,
            Bop::URem => K::URem,
            Bop::SRem => K::SRem,
            Bop::And => K::And,
            Bop::Or => K::Or,
            Bop::Xor => K::Xor,
            Bop::Shl => K::Shl,
            Bop::LShr => K::LShr,
            Bop::AShr => K::AShr,
        };
        if let (Some(x), Some(y)) = (a.conc(), b.conc()) {
            return match cbin(kk, w, x, y) {
                Some(v) => Ok(Val::k(v, w)),
                None => Err(X::Viol("unreachable".into(), "division by zero".into())),
            };
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let r = self.x.bin(kk, x, y);
        Ok(self.mkv(st, r))
    }
    fn icmp(&mut self, st: &State, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::A(x), Val::A(y)) = (a, b) {
            let mut v = vec![];
            for i in 0..x.len() {
                v.push(self.icmp(st, p, w, &x[i], &y[i]));
            }
            return Val::A(Rc::new(v));
        }
        if let (Some(x), Some(y)) = (a.conc(), b.conc()) {
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sext(x, w) > sext(y, w),
                Pred::Sge => sext(x, w) >= sext(y, w),
                Pred::Slt => sext(x, w) < sext(y, w),
                Pred::Sle => sext(x, w) <= sext(y, w),
            };
            return Val::C(r as u64);
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let r = match p {
            Pred::Eq => self.x.bin(K::Eq, x, y),
            Pred::Ne => {
                let e = self.x.bin(K::Eq, x, y);
                self.x.not(e)
            }
            Pred::Ugt => self.x.bin(K::Ult, y, x),
            Pred::Uge => self.x.bin(K::Ule, y, x),
            Pred::Ult => self.x.bin(K::Ult, x, y),
            Pred::Ule => self.x.bin(K::Ule, x, y),
            Pred::Sgt => self.x.bin(K::Slt, y, x),
            Pred::Sge => self.x.bin(K::Sle, y, x),
            Pred::Slt => self.x.bin(K::Slt, x, y),
            Pred::Sle => self.x.bin(K::Sle, x, y),
        };
        self.mkv(st, r)
    }
    fn fcmp(&mut self, st: &State, p: &str, w: u32, a: &Val, b: &Val) -> Rx<Val> {
        if let (Some(x), Some(y)) = (a.conc(), b.conc()) {
            let (x, y) = if w == 64 { (f64::from_bits(x as u64), f64::from_bits(y as u64)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
            let un = x.is_nan() || y.is_nan();
            let r = match p {
                "true" => true,
                "false" => false,
                "ord" => !un,
                "uno" => un,
                _ => {
                    let (o, c) = p.split_at(1);
                    if un {
                        o == "u"
                    } else {
                        match c {
                            "eq" => x == y,
                            "ne" => x != y,
                            "gt" => x > y,
                            "ge" => x >= y,
                            "lt" => x < y,
                            _ => x <= y,
                        }
                    }
                }
            };
            return Ok(Val::C(r as u64));
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let (absm, inf) = if w == 64 { (0x7fff_ffff_ffff_ffffu128, 0x7ff0_0000_0000_0000u128) } else { (0x7fff_ffffu128, 0x7f80_0000u128) };
        let am = self.x.konst(absm, w);
        let infk = self.x.konst(inf, w);
        let zero = self.x.konst(0, w);
        let ax = self.x.bin(K::And, x, am);
        let ay = self.x.bin(K::And, y, am);
        let nx = self.x.bin(K::Ult, infk, ax);
        let ny = self.x.bin(K::Ult, infk, ay);
        let un = self.x.bin(K::Or, nx, ny);
        let zx = self.x.bin(K::Eq, ax, zero);
        let zy = self.x.bin(K::Eq, ay, zero);
        let bz = self.x.bin(K::And, zx, zy);
        let beq = self.x.bin(K::Eq, x, y);
        let eq = self.x.bin(K::Or, beq, bz);
        let key = |s: &mut Store, v: E| {
            let sg = s.extract(v, w - 1, w - 1);
            let inv = s.not(v);
            let top = s.konst(1u128 << (w - 1), w);
            let pos = s.bin(K::Xor, v, top);
            s.ite(sg, inv, pos)
        };
        let kx = key(&mut self.x, x);
        let ky = key(&mut self.x, y);
        let nbz = self.x.not(bz);
        let lt0 = self.x.bin(K::Ult, kx, ky);
        let lt = self.x.bin(K::And, lt0, nbz);
        let gt0 = self.x.bin(K::Ult, ky, kx);
        let gt = self.x.bin(K::And, gt0, nbz);
        let r = match p {
            "true" => self.x.konst(1, 1),
            "false" => self.x.konst(0, 1),
            "uno" => un,
            "ord" => self.x.not(un),
            _ => {
                let (o, c) = p.split_at(1);
                let base = match c {
                    "eq" => eq,
                    "ne" => self.x.not(eq),
                    "lt" => lt,
                    "gt" => gt,
                    "le" => self.x.bin(K::Or, lt, eq),
                    _ => self.x.bin(K::Or, gt, eq),
                };
                if o == "u" {
                    self.x.bin(K::Or, un, base)
                } else {
                    let od = self.x.not(un);
                    self.x.bin(K::And, od, base)
                }
            }
        };
        Ok(self.mkv(st, r))
    }
    fn fbin(&mut self, st: &State, k: FBop, w: u32, a: &Val, b: &Val) -> Rx<Val> {
        if let (Val::A(x), Val::A(y)) = (a, b) {
            let mut v = vec![];
            for i in 0..x.len() {
                v.push(self.fbin(st, k, w, &x[i], &y[i])?);
            }
            return Ok(Val::A(Rc::new(v)));
        }
        let x = self.conc_fix(st, a)?;
        let y = self.conc_fix(st, b)?;
        Ok(if w == 64 {
            let (x, y) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
            let r = match k {
                FBop::Add => x + y,
                FBop::Sub => x - y,
                FBop::Mul => x * y,
                FBop::Div => x / y,
                FBop::Rem => x % y,
            };
            Val::C(r.to_bits())
        } else {
            let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
            let r = match k {
                FBop::Add => x + y,
                FBop::Sub => x - y,
                FBop::Mul => x * y,
                FBop::Div => x / y,
                FBop::Rem => x % y,
            };
            Val::C(r.to_bits() as u64)
        })
    }
    fn tof(v: u128, w: u32) -> f64 {
        if w == 64 { f64::from_bits(v as u64) } else { f32::from_bits(v as u32) as f64 }
    }
    fn fromf(v: f64, w: u32) -> Val {
        if w == 64 { Val::C(v.to_bits()) } else { Val::C((v as f32).to_bits() as u64) }
    }
    fn cast(&mut self, st: &State, k: CastK, t: &Ty, t2: &Ty, v: &Val) -> Rx<Val> {
        if k == CastK::Bits {
            let src = match t {
                Ty::Vec(_, l) => self.tobits(st, v, l.bits()),
                _ => v.clone(),
            };
            let total = match t {
                Ty::Vec(n, l) => *n as u32 * l.bits(),
                t => t.bits(),
            };
            return Ok(match t2 {
                Ty::Vec(n, l) => self.frombits(st, &src, total, l.bits(), *n),
                _ => match src {
                    Val::C(x) if total > 64 => Val::k(x as u128, total),
                    s => s,
                },
            });
        }
        if let (Ty::Vec(_, l), Ty::Vec(_, l2), Val::A(f)) = (t, t2, v) {
            let mut o = vec![];
            for x in f.iter() {
                o.push(self.cast(st, k, l, l2, x)?);
            }
            return Ok(Val::A(Rc::new(o)));
        }
        let (w, w2) = (t.bits(), t2.bits());
        match k {
            CastK::ZExt | CastK::SExt | CastK::Trunc => {
                if let Some(x) = v.conc() {
                    return Ok(match k {
                        CastK::SExt => Val::k(sext(x, w) as u128, w2),
                        _ => Val::k(x, w2),
                    });
                }
                let e = self.ex(v, w);
                let r = match k {
                    CastK::ZExt => self.x.zext(e, w2),
                    CastK::SExt => self.x.sext(e, w2),
                    _ => self.x.extract(e, w2 - 1, 0),
                };
                Ok(self.mkv(st, r))
            }
            _ => {
                let x = self.conc_fix(st, v)?;
                Ok(match k {
                    CastK::FpToSi => Val::k((Self::tof(x, w) as i128) as u128, w2),
                    CastK::FpToUi => Val::k(Self::tof(x, w) as u128, w2),
                    CastK::SiToFp => {
                        let s = sext(x, w);
                        if w2 == 64 { Val::C((s as f64).to_bits()) } else { Val::C((s as f32).to_bits() as u64) }
                    }
                    CastK::UiToFp => {
                        if w2 == 64 { Val::C((x as f64).to_bits()) } else { Val::C((x as f32).to_bits() as u64) }
                    }
                    CastK::FpTrunc => Val::C((f64::from_bits(x as u64) as f32).to_bits() as u64),
                    CastK::FpExt => Val::C((f32::from_bits(x as u32) as f64).to_bits()),
                    _ => unreachable!(),
                })
            }
        }
    }
    fn select(&mut self, st: &State, c: &Val, a: &Val, b: &Val, w: u32, isptr: bool) -> Rx<Val> {
        match c {
            Val::C(x) => Ok(if *x & 1 == 1 { a.clone() } else { b.clone() }),
            Val::A(cs) => {
                let (x, y) = match (a, b) {
                    (Val::A(x), Val::A(y)) => (x, y),
                    _ => return Err(X::Inc("vector select".into())),
                };
                let mut v = vec![];
                for i in 0..cs.len() {
                    v.push(self.select(st, &cs[i], &x[i], &y[i], w, false)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            c => {
                if w == 0 || isptr {
                    let x = self.conc_bool(st, c)?;
                    return Ok(if x { a.clone() } else { b.clone() });
                }
                let ce = self.ex(c, 1);
                let x = self.ex(a, w);
                let y = self.ex(b, w);
                let r = self.x.ite(ce, x, y);
                Ok(self.mkv(st, r))
            }
        }
    }
    fn conc_bool(&mut self, st: &State, c: &Val) -> Rx<bool> {
        let e = match c {
            Val::C(x) => return Ok(*x & 1 == 1),
            Val::S(e) => *e,
            _ => return Err(X::Inc("bool".into())),
        };
        if let Some(k) = st.known.iter().find(|k| k.0 == e) {
            return Ok(k.1 == 1);
        }
        if self.x.nd(e).size > self.o.max_expr || self.nonlinear(e) {
            return Ok(self.fix_vars(st, e)? == 1);
        }
        let b = self.x.eval(e, &st.model) == 1;
        let ne = self.x.not(e);
        let (this, other) = if b { (e, ne) } else { (ne, e) };
        match self.feasible(st, other)? {
            None => Ok(b),
            Some(m) => Err(X::Fork(vec![
                Alt { c: this, known: Some((e, b as u128)), model: st.model.clone() },
                Alt { c: other, known: Some((e, !b as u128)), model: m },
            ])),
        }
    }
    fn memcmp(&mut self, st: &State, p: u64, q: u64, n: u64) -> Rx<Val> {
        let mut acc = self.x.konst(0, 32);
        let one = self.x.konst(1, 32);
        let neg = self.x.konst(mask(32), 32);
        let mut bytes = vec![];
        for i in 0..n {
            let (a, b) = match (st.mem.byte(p + i), st.mem.byte(q + i)) {
                (Some(a), Some(b)) => (a, b),
                _ => return Err(X::Viol("memory".into(), "invalid memcmp".into())),
            };
            bytes.push((a, b));
            if a.1 == 0 && b.1 == 0 && a.0 != b.0 {
                break;
            }
        }
        for (a, b) in bytes.into_iter().rev() {
            let x = if a.1 != 0 { a.1 } else { self.x.konst(a.0 as u128, 8) };
            let y = if b.1 != 0 { b.1 } else { self.x.konst(b.0 as u128, 8) };
            let lt = self.x.bin(K::Ult, x, y);
            let eq = self.x.bin(K::Eq, x, y);
            let d = self.x.ite(lt, neg, one);
            acc = self.x.ite(eq, acc, d);
        }
        Ok(self.mkv(st, acc))
    }
    fn bcmp(&mut self, st: &State, p: u64, q: u64, n: u64) -> Rx<Val> {
        let mut acc = self.x.konst(1, 1);
        for i in 0..n {
            let (a, b) = match (st.mem.byte(p + i), st.mem.byte(q + i)) {
                (Some(a), Some(b)) => (a, b),
                _ => return Err(X::Viol("memory".into(), "invalid bcmp".into())),
            };
            if a.1 == 0 && b.1 == 0 {
                if a.0 != b.0 {
                    return Ok(Val::C(1));
                }
                continue;
            }
            let x = if a.1 != 0 { a.1 } else { self.x.konst(a.0 as u128, 8) };
            let y = if b.1 != 0 { b.1 } else { self.x.konst(b.0 as u128, 8) };
            let eq = self.x.bin(K::Eq, x, y);
            acc = self.x.bin(K::And, acc, eq);
            if self.x.kval(acc) == Some(0) {
                return Ok(Val::C(1));
            }
        }
        let z = self.x.konst(0, 32);
        let o = self.x.konst(1, 32);
        let r = self.x.ite(acc, z, o);
        Ok(self.mkv(st, r))
    }
    fn fresh(&mut self, st: &mut State) -> Rx<E> {
        if st.nvars >= 127 {
            return Err(X::Inc("too many symbolic bytes".into()));
        }
        let i = st.nvars;
        st.nvars += 1;
        st.dom.push([!0; 4]);
        st.model.push(b'a');
        Ok(self.x.var(i))
    }
    fn overflow(&mut self, st: &State, i: &Intr, w: u32, a: &Val, b: &Val) -> Rx<Val> {
        let signed = matches!(i, Intr::SaddO | Intr::SsubO | Intr::SmulO);
        let k = match i {
            Intr::UaddO | Intr::SaddO => K::Add,
            Intr::UsubO | Intr::SsubO => K::Sub,
            _ => K::Mul,
        };
        if let (Some(x), Some(y)) = (a.conc(), b.conc()) {
            let r = cbin(k, w, x, y).unwrap();
            let o = if signed {
                let (x, y) = (sext(x, w), sext(y, w));
                let t = match k {
                    K::Add => x.checked_add(y),
                    K::Sub => x.checked_sub(y),
                    _ => x.checked_mul(y),
                };
                t.map_or(true, |t| t != sext(r, w))
            } else {
                let t = match k {
                    K::Add => x.checked_add(y),
                    K::Sub => x.checked_sub(y),
                    _ => x.checked_mul(y),
                };
                t.map_or(true, |t| t != r)
            };
            return Ok(Val::A(Rc::new(vec![Val::k(r, w), Val::C(o as u64)])));
        }
        if w > 64 {
            return Err(X::Inc("wide symbolic overflow op".into()));
        }
        let w2 = if k == K::Mul { w * 2 } else { w + 1 };
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let (xx, yy) = if signed { (self.x.sext(x, w2), self.x.sext(y, w2)) } else { (self.x.zext(x, w2), self.x.zext(y, w2)) };
        let r = self.x.bin(k, x, y);
        let o = match (signed, k) {
            (false, K::Sub) => self.x.bin(K::Ult, x, y),
            _ => {
                let full = self.x.bin(k, xx, yy);
                let back = if signed { self.x.sext(r, w2) } else { self.x.zext(r, w2) };
                let e = self.x.bin(K::Eq, full, back);
                self.x.not(e)
            }
        };
        let rv = self.mkv(st, r);
        let ov = self.mkv(st, o);
        Ok(Val::A(Rc::new(vec![rv, ov])))
    }
    fn intr(&mut self, st: &mut State, i: &Intr, a: &[Val], ws: &[u32], rt: &Ty) -> Rx<Option<Val>> {
        macro_rules! cw {
            () => {
                ws[0]
            };
        }
        // lane-wise for vectors on simple integer intrinsics
        if let (Some(Val::A(_)), Ty::Vec(_, rl)) = (a.get(0), rt) {
            if let Val::A(l0) = &a[0] {
                let n = l0.len();
                let mut out = vec![];
                for j in 0..n {
                    let args: Vec<Val> = a.iter().map(|v| if let Val::A(l) = v { l[j].clone() } else { v.clone() }).collect();
                    out.push(self.intr(st, i, &args, ws, rl)?.unwrap_or(Val::C(0)));
                }
                return Ok(Some(Val::A(Rc::new(out))));
            }
        }
        Ok(match i {
            Intr::Nop => None,
            Intr::False => Some(Val::C(0)),
            Intr::Memcpy => {
                let (d, s) = (self.addr(st, &a[0])?, self.addr(st, &a[1])?);
                let n = self.conc(st, &a[2], 64)? as u64;
                if !st.mem.copy(d, s, n) {
                    return Err(X::Viol("memory".into(), "invalid memcpy".into()));
                }
                Some(a[0].clone())
            }
            Intr::Memset => {
                let d = self.addr(st, &a[0])?;
                let n = self.conc(st, &a[2], 64)? as u64;
                let (c, e) = match &a[1] {
                    Val::C(c) => (*c as u8, 0),
                    Val::S(e) => (0, self.x.extract(*e, 7, 0)),
                    _ => (0, 0),
                };
                if !st.mem.fill(d, c, e, n) {
                    return Err(X::Viol("memory".into(), "invalid memset".into()));
                }
                Some(a[0].clone())
            }
            Intr::Ctpop | Intr::Ctlz | Intr::Cttz => {
                let w = cw!();
                if let Some(x) = a[0].conc() {
                    let r = match i {
                        Intr::Ctpop => x.count_ones(),
                        Intr::Ctlz => if x == 0 { w } else { x.leading_zeros() - (128 - w) },
                        _ => if x == 0 { w } else { x.trailing_zeros() },
                    };
                    return Ok(Some(Val::k(r as u128, w)));
                }
                let e = self.ex(&a[0], w);
                let r = match i {
                    Intr::Ctpop => {
                        let mut acc = self.x.konst(0, w);
                        for b in 0..w {
                            let x = self.x.extract(e, b, b);
                            let z = self.x.zext(x, w);
                            acc = self.x.bin(K::Add, acc, z);
                        }
                        acc
                    }
                    Intr::Ctlz => {
                        let mut acc = self.x.konst(w as u128, w);
                        for b in 0..w {
                            let x = self.x.extract(e, b, b);
                            let k = self.x.konst((w - 1 - b) as u128, w);
                            acc = self.x.ite(x, k, acc);
                        }
                        acc
                    }
                    _ => {
                        let mut acc = self.x.konst(w as u128, w);
                        for b in (0..w).rev() {
                            let x = self.x.extract(e, b, b);
                            let k = self.x.konst(b as u128, w);
                            acc = self.x.ite(x, k, acc);
                        }
                        acc
                    }
                };
                Some(self.mkv(st, r))
            }
            Intr::Bswap => {
                let w = cw!();
                let n = w / 8;
                if let Some(x) = a[0].conc() {
                    let mut r = 0u128;
                    for j in 0..n {
                        r |= ((x >> (8 * j)) & 0xff) << (8 * (n - 1 - j));
                    }
                    return Ok(Some(Val::k(r, w)));
                }
                let e = self.ex(&a[0], w);
                let mut acc = self.x.extract(e, 7, 0);
                for j in 1..n {
                    let b = self.x.extract(e, 8 * j + 7, 8 * j);
                    acc = self.x.concat(acc, b);
                }
                Some(self.mkv(st, acc))
            }
            Intr::Bitreverse => {
                let w = cw!();
                let x = self.conc(st, &a[0], w)?;
                Some(Val::k(x.reverse_bits() >> (128 - w), w))
            }
            Intr::Fshl | Intr::Fshr => {
                let w = cw!();
                let s = (self.conc(st, &a[2], w)? % w as u128) as u32;
                let s = if *i == Intr::Fshl { s } else { (w - s) % w };
                // result = (a << s) | (b >> (w - s)); fshr by s == fshl by w-s, except s==0
                if s == 0 {
                    return Ok(Some(if *i == Intr::Fshl { a[0].clone() } else { a[1].clone() }));
                }
                let sv = Val::k(s as u128, w);
                let rv = Val::k((w - s) as u128, w);
                let hi = self.binop(st, Bop::Shl, w, &a[0], &sv)?;
                let lo = self.binop(st, Bop::LShr, w, &a[1], &rv)?;
                Some(self.binop(st, Bop::Or, w, &hi, &lo)?)
            }
            Intr::Umin | Intr::Umax | Intr::Smin | Intr::Smax => {
                let w = cw!();
                let p = match i {
                    Intr::Umin => Pred::Ult,
                    Intr::Umax => Pred::Ugt,
                    Intr::Smin => Pred::Slt,
                    _ => Pred::Sgt,
                };
                let c = self.icmp(st, p, w, &a[0], &a[1]);
                Some(self.select(st, &c, &a[0], &a[1], w, false)?)
            }
            Intr::Abs => {
                let w = cw!();
                let z = Val::k(0, w);
                let c = self.icmp(st, Pred::Slt, w, &a[0], &z);
                let n = self.binop(st, Bop::Sub, w, &z, &a[0])?;
                Some(self.select(st, &c, &n, &a[0], w, false)?)
            }
            Intr::Ucmp | Intr::Scmp => {
                let w = cw!();
                let rw = rt.bits();
                let (l, g) = if *i == Intr::Ucmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let c1 = self.icmp(st, l, w, &a[0], &a[1]);
                let c2 = self.icmp(st, g, w, &a[0], &a[1]);
                let x = self.select(st, &c2, &Val::k(1, rw), &Val::k(0, rw), rw, false)?;
                Some(self.select(st, &c1, &Val::k(mask(rw), rw), &x, rw, false)?)
            }
            Intr::UaddO | Intr::UsubO | Intr::UmulO | Intr::SaddO | Intr::SsubO | Intr::SmulO => Some(self.overflow(st, i, cw!(), &a[0], &a[1])?),
            Intr::UaddSat | Intr::UsubSat => {
                let w = cw!();
                let oi = if *i == Intr::UaddSat { Intr::UaddO } else { Intr::UsubO };
                let r = self.overflow(st, &oi, w, &a[0], &a[1])?;
                let (v, o) = match &r {
                    Val::A(f) => (f[0].clone(), f[1].clone()),
                    _ => unreachable!(),
                };
                let lim = if *i == Intr::UaddSat { Val::k(mask(w), w) } else { Val::k(0, w) };
                Some(self.select(st, &o, &lim, &v, w, false)?)
            }
            Intr::SaddSat | Intr::SsubSat => {
                let w = cw!();
                let x = sext(self.conc(st, &a[0], w)?, w);
                let y = sext(self.conc(st, &a[1], w)?, w);
                let r = if *i == Intr::SaddSat { x + y } else { x - y };
                let mx = (mask(w) >> 1) as i128;
                Some(Val::k(r.min(mx).max(-mx - 1) as u128, w))
            }
            Intr::FpToSiSat | Intr::FpToUiSat => {
                let w = cw!();
                let rw = rt.bits();
                let f = Self::tof(self.conc_fix(st, &a[0])?, w);
                if *i == Intr::FpToSiSat {
                    let mx = (mask(rw) >> 1) as i128;
                    Some(Val::k((f as i128).min(mx).max(-mx - 1) as u128, rw))
                } else {
                    Some(Val::k((f as u128).min(mask(rw)), rw))
                }
            }
            Intr::Fabs => {
                let w = cw!();
                let m = Val::k(mask(w) >> 1, w);
                Some(self.binop(st, Bop::And, w, &a[0], &m)?)
            }
            Intr::Copysign => {
                let w = cw!();
                let m = Val::k(mask(w) >> 1, w);
                let s = Val::k(1u128 << (w - 1), w);
                let x = self.binop(st, Bop::And, w, &a[0], &m)?;
                let y = self.binop(st, Bop::And, w, &a[1], &s)?;
                Some(self.binop(st, Bop::Or, w, &x, &y)?)
            }
            Intr::Floor | Intr::Ceil | Intr::FTrunc | Intr::Rint | Intr::Round | Intr::Sqrt => {
                let w = cw!();
                let f = Self::tof(self.conc_fix(st, &a[0])?, w);
                let r = match i {
                    Intr::Floor => f.floor(),
                    Intr::Ceil => f.ceil(),
                    Intr::FTrunc => f.trunc(),
                    Intr::Rint => f.round_ties_even(),
                    Intr::Round => f.round(),
                    _ => f.sqrt(),
                };
                Some(Self::fromf(r, w))
            }
            Intr::Fma | Intr::MinNum | Intr::MaxNum | Intr::Pow => {
                let w = cw!();
                let x = Self::tof(self.conc_fix(st, &a[0])?, w);
                let y = Self::tof(self.conc_fix(st, &a[1])?, w);
                let r = match i {
                    Intr::MinNum => x.min(y),
                    Intr::MaxNum => x.max(y),
                    Intr::Pow => x.powf(y),
                    _ => return Err(X::Inc("fma".into())),
                };
                Some(Self::fromf(r, w))
            }
            Intr::Tls | Intr::Expect => Some(a[0].clone()),
            Intr::PtrMask => Some(self.binop(st, Bop::And, 64, &a[0], &a[1])?),
            Intr::VReduce(k) => {
                let l = match &a[0] {
                    Val::A(l) => l.clone(),
                    _ => return Err(X::Inc("vreduce".into())),
                };
                let w = cw!();
                let mut acc = l[0].clone();
                for x in l.iter().skip(1) {
                    acc = match k.as_str() {
                        "or" => self.binop(st, Bop::Or, w, &acc, x)?,
                        "and" => self.binop(st, Bop::And, w, &acc, x)?,
                        "xor" => self.binop(st, Bop::Xor, w, &acc, x)?,
                        "add" => self.binop(st, Bop::Add, w, &acc, x)?,
                        "mul" => self.binop(st, Bop::Mul, w, &acc, x)?,
                        "umax" => self.intr(st, &Intr::Umax, &[acc, x.clone()], &[w, w], rt)?.unwrap(),
                        "umin" => self.intr(st, &Intr::Umin, &[acc, x.clone()], &[w, w], rt)?.unwrap(),
                        _ => return Err(X::Inc(format!("vector.reduce.{}", k))),
                    };
                }
                Some(acc)
            }
            Intr::Trap => return Err(X::Viol("panic".into(), "trap".into())),
            Intr::Malloc => {
                let n = self.conc(st, &a[0], 64)? as u64;
                if n > 0x0800_0000 {
                    return Err(X::Viol("panic".into(), "huge allocation".into()));
                }
                Some(Val::C(self.alloc(st, n, 16)))
            }
            Intr::Calloc => {
                let n = self.conc(st, &a[0], 64)? as u64 * self.conc(st, &a[1], 64)? as u64;
                let p = self.alloc(st, n, 16);
                st.mem.fill(p, 0, 0, n);
                Some(Val::C(p))
            }
            Intr::Realloc => {
                let p = self.addr(st, &a[0])?;
                let n = self.conc(st, &a[1], 64)? as u64;
                if n > 0x0800_0000 {
                    return Err(X::Viol("panic".into(), "huge allocation".into()));
                }
                let old = self.free(st, p)?;
                let q = self.alloc(st, n, 16);
                if p != 0 {
                    st.mem.copy(q, p, old.min(n));
                }
                Some(Val::C(q))
            }
            Intr::Free => {
                let p = self.addr(st, &a[0])?;
                self.free(st, p)?;
                None
            }
            Intr::PosixMemalign => {
                let out = self.addr(st, &a[0])?;
                let al = self.conc(st, &a[1], 64)? as u64;
                let n = self.conc(st, &a[2], 64)? as u64;
                let p = self.alloc(st, n, al);
                self.store(st, out, 64, &Val::C(p))?;
                Some(Val::C(0))
            }
            Intr::Memcmp => {
                let (p, q) = (self.addr(st, &a[0])?, self.addr(st, &a[1])?);
                let n = self.conc(st, &a[2], 64)? as u64;
                Some(self.memcmp(st, p, q, n)?)
            }
            Intr::Bcmp => {
                let (p, q) = (self.addr(st, &a[0])?, self.addr(st, &a[1])?);
                let n = self.conc(st, &a[2], 64)? as u64;
                Some(self.bcmp(st, p, q, n)?)
            }
            Intr::Strlen => {
                let p = self.addr(st, &a[0])?;
                let mut n = 0;
                loop {
                    match st.mem.byte(p + n) {
                        Some((0, 0)) => break,
                        Some((_, 0)) => n += 1,
                        _ => return Err(X::Inc("symbolic strlen".into())),
                    }
                }
                Some(Val::C(n))
            }
            Intr::Memchr => return Err(X::Inc("memchr".into())),
            Intr::Libm(n) => {
                let w = cw!();
                let x = Self::tof(self.conc_fix(st, &a[0])?, w);
                let y = if a.len() > 1 { Self::tof(self.conc_fix(st, &a[1])?, w) } else { 0.0 };
                if w != 64 {
                    return Err(X::Inc(format!("{} of a float", n)));
                }
                let r = match n.as_str() {
                    "tan" => x.tan(),
                    "atan" => x.atan(),
                    "atan2" => x.atan2(y),
                    "sin" => x.sin(),
                    "cos" => x.cos(),
                    "asin" => x.asin(),
                    "acos" => x.acos(),
                    "fmod" => x % y,
                    "cbrt" => x.cbrt(),
                    _ => x.hypot(y),
                };
                Some(Self::fromf(r, w))
            }
            Intr::GetRandom => {
                // seeds of hash maps: one fixed seed, nothing but the order of iteration depends on it
                let p = self.addr(st, &a[0])?;
                let n = self.conc(st, &a[1], 64)? as u64;
                for j in 0..n {
                    self.store(st, p + j, 8, &Val::C(0x5a))?;
                }
                Some(Val::C(n))
            }
            Intr::SymByte => {
                let e = self.fresh(st)?;
                Some(Val::S(e))
            }
            Intr::SymF64 => {
                let mut acc = self.fresh(st)?;
                for _ in 1..8 {
                    let b = self.fresh(st)?;
                    acc = self.x.concat(b, acc);
                }
                Some(Val::S(acc))
            }
            Intr::SymLive => Some(Val::C(st.live as u64)),
            Intr::SymNote => {
                let p = self.addr(st, &a[0])?;
                let n = self.conc(st, &a[1], 64)? as u64;
                for j in 0..n {
                    match st.mem.byte(p + j) {
                        Some(b) => st.notes.push(b),
                        None => return Err(X::Viol("memory".into(), "note".into())),
                    }
                }
                None
            }
            Intr::SymConc => {
                let w = cw!();
                Some(Val::k(self.conc(st, &a[0], w)?, rt.bits()))
            }
            Intr::SymReach => {
                let p = self.addr(st, &a[0])?;
                let n = self.conc(st, &a[1], 64)? as u64;
                let s = self.read_str(st, p, n);
                *self.reached.entry(s).or_insert(0) += 1;
                None
            }
            Intr::SymExpect => {
                st.expect = true;
                None
            }
            Intr::SymFail => {
                let p = self.addr(st, &a[0])?;
                let n = self.conc(st, &a[1], 64)? as u64;
                let s = self.read_str(st, p, n);
                return Err(X::Viol("check".into(), s));
            }
            Intr::Panic(s) => return Err(X::Viol("panic".into(), s.clone())),
            Intr::Unsupported(n) => return Err(X::Inc(format!("unsupported external function {}", n))),
            Intr::SymChoose | Intr::SymAssume | Intr::SymCheck => unreachable!(),
        })
    }

    // ---------------------------------------------------------------- driver
    pub fn backtrace(&self, st: &State) -> String {
        let mut v = vec![];
        for f in st.frames.iter().rev().take(6) {
            v.push(f.f.pretty.clone());
        }
        v.join(" < ")
    }
    fn record_viol(&mut self, st: &State, kind: &str, msg: &str, model: &[u8]) {
        self.nviol += 1;
        let site = self.backtrace(st);
        let key = (kind.to_string(), msg.to_string(), if kind == "check" { String::new() } else { site.clone() });
        let n = self.viol_keys.entry(key).or_insert(0);
        *n += 1;
        if *n <= 3 {
            self.viols.push(Violation { kind: kind.into(), msg: msg.into(), site, inputs: model[..st.nvars as usize].to_vec() });
        }
    }
    fn end_path(&mut self, st: &State) {
        self.stats.paths += 1;
        self.stats.steps += st.steps;
        self.stats.max_steps = self.stats.max_steps.max(st.steps);
        self.stats.max_vars = self.stats.max_vars.max(st.nvars as u64);
    }
    fn sample(&mut self, st: &State) {
        self.nsample += 1;
        if self.o.samples == 0 {
            return;
        }
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        let slot = if self.samples.len() < self.o.samples {
            self.samples.push((vec![], vec![]));
            self.samples.len() - 1
        } else {
            let r = (self.rng >> 11) % self.nsample;
            if r as usize >= self.o.samples {
                return;
            }
            r as usize
        };
        let mut out = vec![];
        for (c, e) in &st.notes {
            out.push(if *e != 0 { self.x.eval(*e, &st.model) as u8 } else { *c });
        }
        self.samples[slot] = (st.model[..st.nvars as usize].to_vec(), out);
    }
    fn jump(&mut self, fr: &mut Frame, b: u32) {
        let prev = fr.blk;
        let f = fr.f.clone();
        let blk = &f.blocks[b as usize];
        if !blk.phis.is_empty() {
            if blk.phis.len() == 1 {
                let (d, inc) = &blk.phis[0];
                for (p, o) in inc {
                    if *p == prev {
                        let v = Self::get(fr, o).clone();
                        fr.regs[*d as usize] = v;
                        break;
                    }
                }
            } else {
                let mut vals: Vec<Val> = Vec::with_capacity(blk.phis.len());
                for (_, inc) in &blk.phis {
                    for (p, o) in inc {
                        if *p == prev {
                            vals.push(Self::get(fr, o).clone());
                            break;
                        }
                    }
                }
                for ((d, _), v) in blk.phis.iter().zip(vals) {
                    fr.regs[*d as usize] = v;
                }
            }
        }
        fr.blk = b;
        fr.ip = 0;
        let c = &mut self.cov[fr.fi as usize];
        if c.is_empty() {
            c.resize(f.blocks.len(), false);
        }
        c[b as usize] = true;
    }
    #[inline(always)]
    fn get<'b>(fr: &'b Frame, o: &'b O) -> &'b Val {
        match o {
            O::R(r) => &fr.regs[*r as usize],
            O::K(v) => v,
        }
    }
    /// Run until the path ends or splits; returns the successor states.
    pub fn run(&mut self, mut st: State) -> Vec<State> {
        loop {
            let frp: *mut Frame = Rc::make_mut(st.frames.last_mut().unwrap());
            // The frame is only reached through `frp` until the frame stack changes.
            let fr: &mut Frame = unsafe { &mut *frp };
            let fun = fr.f.clone();
            let r = loop {
                let inst = &fun.blocks[fr.blk as usize].insts[fr.ip as usize];
                st.steps += 1;
                match self.exec(&mut st, fr, inst) {
                    Ok(Flow::Next) => fr.ip += 1,
                    Ok(Flow::Jump(b)) => {
                        self.jump(fr, b);
                        if st.steps > self.o.max_steps {
                            break Err(X::Viol("limit".into(), "step limit".into()));
                        }
                    }
                    Ok(f) => break Ok(f),
                    Err(e) => break Err(e),
                }
            };
            match r {
                Ok(Flow::Frames) => {
                    if let Some(p) = self.pending.take() {
                        return p;
                    }
                    if st.frames.is_empty() {
                        self.end_path(&st);
                        self.sample(&st);
                        return vec![];
                    }
                    continue;
                }
                Ok(Flow::Split(c, om, side, t, f)) => {
                    if self.trace_forks {
                        let k = format!("split {} {}", self.x.show(c, 4), self.backtrace(&st));
                        *self.forksites.entry(k).or_insert(0) += 1;
                    }
                    let nc = self.x.not(c);
                    let om = om.unwrap();
                    let mut other = st.clone();
                    self.stats.forks += 1;
                    let (c1, b1, c2, b2) = if side { (c, t, nc, f) } else { (nc, f, c, t) };
                    other.model = om;
                    self.constrain(&mut other, c2);
                    self.constrain(&mut st, c1);
                    other.forks += 1;
                    st.forks += 1;
                    let f2 = Rc::make_mut(other.frames.last_mut().unwrap());
                    self.jump(f2, b2);
                    let f1 = Rc::make_mut(st.frames.last_mut().unwrap());
                    self.jump(f1, b1);
                    return vec![other, st];
                }
                Ok(Flow::Multi(v)) => {
                    if self.trace_forks {
                        let k = format!("multi {} {} {}", v.len(), self.x.show(v[0].0, 4), self.backtrace(&st));
                        *self.forksites.entry(k).or_insert(0) += 1;
                    }
                    let mut out = vec![];
                    for (c, m, b) in v {
                        let mut s = st.clone();
                        s.model = m;
                        s.forks += 1;
                        self.stats.forks += 1;
                        self.constrain(&mut s, c);
                        let f = Rc::make_mut(s.frames.last_mut().unwrap());
                        self.jump(f, b);
                        out.push(s);
                    }
                    return out;
                }
                Ok(_) => unreachable!(),
                Err(X::Fork(alts)) => {
                    if self.trace_forks {
                        let top = st.frames.last().unwrap();
                        let ins = format!("{:?}", top.f.blocks[top.blk as usize].insts[top.ip as usize]);
                        let k = format!("conc {} {} {} :: {}", alts.len(), self.x.show(alts[0].known.map_or(0, |k| k.0), 5), self.backtrace(&st), ins);
                        *self.forksites.entry(k).or_insert(0) += 1;
                    }
                    let mut out = vec![];
                    for a in alts {
                        let mut s = st.clone();
                        s.model = a.model;
                        s.forks += 1;
                        self.stats.forks += 1;
                        self.constrain(&mut s, a.c);
                        if let Some(k) = a.known {
                            if self.x.vmask(k.0) & !s.fixed != 0 {
                                s.known.push(k);
                            }
                        }
                        out.push(s);
                    }
                    return out;
                }
                // the harness announced that this call has to panic
                Err(X::Viol(k, _)) if st.expect && k == "panic" => {
                    *self.reached.entry("panicked as announced".into()).or_insert(0) += 1;
                    self.end_path(&st);
                    self.sample(&st);
                    return vec![];
                }
                Err(X::Viol(k, m)) => {
                    self.end_path(&st);
                    let md = st.model.clone();
                    self.record_viol(&st, &k, &m, &md);
                    return vec![];
                }
                Err(X::Inc(m)) => {
                    self.end_path(&st);
                    let bt = self.backtrace(&st);
                    let inp = st.model[..st.nvars as usize].to_vec();
                    self.incs.entry(format!("{} at {}", m, bt)).or_insert((0, inp)).0 += 1;
                    return vec![];
                }
                Err(X::End) => {
                    self.stats.assumed_away += 1;
                    return vec![];
                }
            }
        }
    }
    #[inline(always)]
    fn exec(&mut self, st: &mut State, fr: &mut Frame, inst: &I) -> Rx<Flow> {
        match inst {
            I::Bin(k, w, d, a, b) => {
                let (x, y) = (Self::get(fr, a), Self::get(fr, b));
                let r = match (x, y) {
                    (Val::C(x), Val::C(y)) if *w <= 64 => {
                        let m = if *w == 64 { !0u64 } else { (1u64 << *w) - 1 };
                        match k {
                            Bop::Add => Val::C(x.wrapping_add(*y) & m),
                            Bop::Sub => Val::C(x.wrapping_sub(*y) & m),
                            Bop::Mul => Val::C(x.wrapping_mul(*y) & m),
                            Bop::And => Val::C(x & y),
                            Bop::Or => Val::C(x | y),
                            Bop::Xor => Val::C(x ^ y),
                            Bop::Shl => Val::C(if *y >= *w as u64 { 0 } else { (x << y) & m }),
                            Bop::LShr => Val::C(if *y >= *w as u64 { 0 } else { x >> y }),
                            _ => {
                                let (x, y) = (Val::C(*x), Val::C(*y));
                                self.binop(st, *k, *w, &x, &y)?
                            }
                        }
                    }
                    _ => {
                        let (x, y) = (x.clone(), y.clone());
                        self.binop(st, *k, *w, &x, &y)?
                    }
                };
                fr.regs[*d as usize] = r;
            }
            I::ICmp(p, w, d, a, b) => {
                let (x, y) = (Self::get(fr, a), Self::get(fr, b));
                let r = match (x, y, p) {
                    (Val::C(x), Val::C(y), Pred::Eq) => Val::C((x == y) as u64),
                    (Val::C(x), Val::C(y), Pred::Ne) => Val::C((x != y) as u64),
                    (Val::C(x), Val::C(y), Pred::Ult) => Val::C((x < y) as u64),
                    (Val::C(x), Val::C(y), Pred::Ugt) => Val::C((x > y) as u64),
                    (Val::C(x), Val::C(y), Pred::Ule) => Val::C((x <= y) as u64),
                    (Val::C(x), Val::C(y), Pred::Uge) => Val::C((x >= y) as u64),
                    _ => {
                        let (x, y) = (x.clone(), y.clone());
                        let r = self.icmp(st, *p, *w, &x, &y);
                        self.decided(st, r)?
                    }
                };
                fr.regs[*d as usize] = r;
            }
            I::Load(d, w, p) => {
                let pv = Self::get(fr, p).clone();
                let r = match pv {
                    Val::C(a) => self.load(st, a, *w)?,
                    Val::S(e) => {
                        if self.x.vmask(e) & !st.fixed == 0 {
                            let a = self.x.eval(e, &st.model) as u64;
                            self.load(st, a, *w)?
                        } else {
                            self.load_sym(st, e, *w)?
                        }
                    }
                    _ => return Err(X::Inc("load address".into())),
                };
                fr.regs[*d as usize] = r;
            }
            I::Store(w, v, p) => {
                let pv = Self::get(fr, p).clone();
                let a = self.addr(st, &pv)?;
                let v = Self::get(fr, v).clone();
                self.store(st, a, *w, &v)?;
            }
            I::Gep(d, b, off, dynv) => {
                let bv = Self::get(fr, b);
                if let Val::C(base) = bv {
                    let mut a = base.wrapping_add(*off as u64);
                    let mut ok = true;
                    for (o, s, w) in dynv {
                        match Self::get(fr, o) {
                            Val::C(i) => {
                                let i = if *w < 64 { sext(*i as u128, *w) as i64 } else { *i as i64 };
                                a = a.wrapping_add(i.wrapping_mul(*s) as u64);
                            }
                            _ => {
                                ok = false;
                                break;
                            }
                        }
                    }
                    if ok {
                        fr.regs[*d as usize] = Val::C(a);
                        return Ok(Flow::Next);
                    }
                }
                let bv = bv.clone();
                let mut acc = self.ex(&bv, 64);
                let o = self.x.konst(*off as u64 as u128, 64);
                acc = self.x.bin(K::Add, acc, o);
                for (o, s, w) in dynv {
                    let v = Self::get(fr, o).clone();
                    let e = self.ex(&v, *w);
                    let e = self.x.sext(e, 64);
                    let k = self.x.konst(*s as u64 as u128, 64);
                    let t = self.x.bin(K::Mul, e, k);
                    acc = self.x.bin(K::Add, acc, t);
                }
                fr.regs[*d as usize] = self.mkv(st, acc);
            }
            I::Br(b) => return Ok(Flow::Jump(*b)),
            I::CBr(c, t, f) => {
                let cv = Self::get(fr, c);
                match cv {
                    Val::C(x) => return Ok(Flow::Jump(if *x & 1 == 1 { *t } else { *f })),
                    Val::S(e) => {
                        let e = *e;
                        if t == f {
                            return Ok(Flow::Jump(*t));
                        }
                        if let Some(k) = st.known.iter().find(|k| k.0 == e) {
                            return Ok(Flow::Jump(if k.1 == 1 { *t } else { *f }));
                        }
                        if self.x.nd(e).size > self.o.max_expr || self.nonlinear(e) {
                            let v = self.fix_vars(st, e)?;
                            return Ok(Flow::Jump(if v == 1 { *t } else { *f }));
                        }
                        self.stats.branches_sym += 1;
                        let b = self.x.eval(e, &st.model) == 1;
                        let other = if b { self.x.not(e) } else { e };
                        match self.feasible(st, other)? {
                            None => return Ok(Flow::Jump(if b { *t } else { *f })),
                            Some(m) => return Ok(Flow::Split(e, Some(m), b, *t, *f)),
                        }
                    }
                    _ => return Err(X::Inc("branch on aggregate".into())),
                }
            }
            I::Sw(w, v, cases, def) => {
                let vv = Self::get(fr, v).clone();
                if let Some(x) = vv.conc() {
                    for (c, b) in cases {
                        if *c == x {
                            return Ok(Flow::Jump(*b));
                        }
                    }
                    return Ok(Flow::Jump(*def));
                }
                let e = self.ex(&vv, *w);
                if let Some(k) = st.known.iter().find(|k| k.0 == e) {
                    let t = cases.iter().find(|c| c.0 == k.1).map_or(*def, |c| c.1);
                    return Ok(Flow::Jump(t));
                }
                self.stats.branches_sym += 1;
                // one successor per distinct target
                let mut order: Vec<u32> = vec![];
                let mut conds: HashMap<u32, E> = HashMap::new();
                let mut none = self.x.konst(1, 1);
                for (c, b) in cases {
                    let k = self.x.konst(*c, *w);
                    let q = self.x.bin(K::Eq, e, k);
                    let nq = self.x.not(q);
                    none = self.x.bin(K::And, none, nq);
                    match conds.get(b) {
                        Some(o) => {
                            let o = *o;
                            let n = self.x.bin(K::Or, o, q);
                            conds.insert(*b, n);
                        }
                        None => {
                            order.push(*b);
                            conds.insert(*b, q);
                        }
                    }
                }
                match conds.get(def) {
                    Some(o) => {
                        let o = *o;
                        let n = self.x.bin(K::Or, o, none);
                        conds.insert(*def, n);
                    }
                    None => {
                        order.push(*def);
                        conds.insert(*def, none);
                    }
                }
                let mut out = vec![];
                for b in order {
                    let c = conds[&b];
                    if let Some(m) = self.feasible(st, c)? {
                        out.push((c, m, b));
                    }
                }
                if out.len() == 1 {
                    return Ok(Flow::Jump(out[0].2));
                }
                return Ok(Flow::Multi(out));
            }
            I::Select(d, c, a, b, w, isptr) => {
                let cv = Self::get(fr, c);
                if let Val::C(x) = cv {
                    let r = if *x & 1 == 1 { Self::get(fr, a).clone() } else { Self::get(fr, b).clone() };
                    fr.regs[*d as usize] = r;
                } else {
                    let cv = cv.clone();
                    let (x, y) = (Self::get(fr, a).clone(), Self::get(fr, b).clone());
                    let r = self.select(st, &cv, &x, &y, *w, *isptr)?;
                    fr.regs[*d as usize] = r;
                }
            }
            I::Cast(k, d, t, t2, v) => {
                let v = Self::get(fr, v).clone();
                let r = self.cast(st, *k, t, t2, &v)?;
                fr.regs[*d as usize] = r;
            }
            I::Mov(d, v) => {
                let v = Self::get(fr, v).clone();
                fr.regs[*d as usize] = v;
            }
            I::LoadA(d, t, p) => {
                let pv = Self::get(fr, p).clone();
                let a = self.addr(st, &pv)?;
                let r = self.load_ty(st, a, t)?;
                fr.regs[*d as usize] = r;
            }
            I::StoreA(t, v, p) => {
                let pv = Self::get(fr, p).clone();
                let a = self.addr(st, &pv)?;
                let v = Self::get(fr, v).clone();
                self.store_ty(st, a, t, &v)?;
            }
            I::Alloca(d, size, align, n) => {
                let nv = Self::get(fr, n).clone();
                let n = self.conc(st, &nv, 64)? as u64;
                let al = (*align).max(8);
                let a = (st.sp + al - 1) / al * al;
                st.sp = a + size * n;
                if st.sp >= STACK_LIM {
                    return Err(X::Viol("limit".into(), "stack limit".into()));
                }
                fr.regs[*d as usize] = Val::C(a);
            }
            I::ExtV(d, a, path) => {
                let mut v = Self::get(fr, a).clone();
                for i in path {
                    v = match v {
                        Val::A(f) => f[*i as usize].clone(),
                        _ => return Err(X::Inc("extractvalue".into())),
                    };
                }
                fr.regs[*d as usize] = v;
            }
            I::InsV(d, a, v, path) => {
                let mut agg = Self::get(fr, a).clone();
                let v = Self::get(fr, v).clone();
                fn ins(a: &mut Val, v: Val, p: &[u32]) -> bool {
                    if p.is_empty() {
                        *a = v;
                        return true;
                    }
                    match a {
                        Val::A(f) => ins(&mut Rc::make_mut(f)[p[0] as usize], v, &p[1..]),
                        _ => false,
                    }
                }
                if !ins(&mut agg, v, path) {
                    return Err(X::Inc("insertvalue".into()));
                }
                fr.regs[*d as usize] = agg;
            }
            I::ExtE(d, a, i) => {
                let iv = Self::get(fr, i).clone();
                let i = self.conc(st, &iv, 64)? as usize;
                let v = match Self::get(fr, a) {
                    Val::A(f) => f[i].clone(),
                    _ => return Err(X::Inc("extractelement".into())),
                };
                fr.regs[*d as usize] = v;
            }
            I::InsE(d, a, v, i) => {
                let iv = Self::get(fr, i).clone();
                let i = self.conc(st, &iv, 64)? as usize;
                let v = Self::get(fr, v).clone();
                let mut agg = Self::get(fr, a).clone();
                match &mut agg {
                    Val::A(f) => Rc::make_mut(f)[i] = v,
                    _ => return Err(X::Inc("insertelement".into())),
                }
                fr.regs[*d as usize] = agg;
            }
            I::Shuf(d, a, b, m) => {
                let (x, y) = match (Self::get(fr, a), Self::get(fr, b)) {
                    (Val::A(x), Val::A(y)) => (x.clone(), y.clone()),
                    _ => return Err(X::Inc("shufflevector".into())),
                };
                let v: Vec<Val> = m
                    .iter()
                    .map(|i| {
                        let i = *i as usize;
                        if i < x.len() { x[i].clone() } else { y[i - x.len()].clone() }
                    })
                    .collect();
                fr.regs[*d as usize] = Val::A(Rc::new(v));
            }
            I::FBin(k, w, d, a, b) => {
                let (x, y) = (Self::get(fr, a).clone(), Self::get(fr, b).clone());
                let r = self.fbin(st, *k, *w, &x, &y)?;
                fr.regs[*d as usize] = r;
            }
            I::FNeg(w, d, a) => {
                let x = Self::get(fr, a).clone();
                let s = Val::k(1u128 << (*w - 1), *w);
                let r = self.binop(st, Bop::Xor, *w, &x, &s)?;
                fr.regs[*d as usize] = r;
            }
            I::FCmp(p, w, d, a, b) => {
                let (x, y) = (Self::get(fr, a).clone(), Self::get(fr, b).clone());
                let r = self.fcmp(st, p, *w, &x, &y)?;
                fr.regs[*d as usize] = r;
            }
            I::Rmw(d, op, w, p, v) => {
                let pv = Self::get(fr, p).clone();
                let a = self.addr(st, &pv)?;
                let old = self.load(st, a, *w)?;
                let v = Self::get(fr, v).clone();
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => self.binop(st, Bop::Add, *w, &old, &v)?,
                    "sub" => self.binop(st, Bop::Sub, *w, &old, &v)?,
                    "and" => self.binop(st, Bop::And, *w, &old, &v)?,
                    "or" => self.binop(st, Bop::Or, *w, &old, &v)?,
                    "xor" => self.binop(st, Bop::Xor, *w, &old, &v)?,
                    _ => return Err(X::Inc(format!("atomicrmw {}", op))),
                };
                self.store(st, a, *w, &new)?;
                fr.regs[*d as usize] = old;
            }
            I::Cx(d, w, p, c, n) => {
                let pv = Self::get(fr, p).clone();
                let a = self.addr(st, &pv)?;
                let old = self.load(st, a, *w)?;
                let c = Self::get(fr, c).clone();
                let eqv = self.icmp(st, Pred::Eq, *w, &old, &c);
                let eq = self.conc_bool(st, &eqv)?;
                if eq {
                    let n = Self::get(fr, n).clone();
                    self.store(st, a, *w, &n)?;
                }
                fr.regs[*d as usize] = Val::A(Rc::new(vec![old, Val::C(eq as u64)]));
            }
            I::Ret(v) => {
                let v = v.as_ref().map(|o| Self::get(fr, o).clone());
                st.sp = fr.sp;
                let ret = fr.ret;
                st.frames.pop();
                if let Some(top) = st.frames.last_mut() {
                    let t = Rc::make_mut(top);
                    if let (Some(d), Some(v)) = (ret, v) {
                        t.regs[d as usize] = v;
                    }
                    t.ip += 1;
                }
                return Ok(Flow::Frames);
            }
            I::Call(d, callee, args, ws, rt) => {
                let fi = match callee {
                    Callee::Fn(i) => *i,
                    Callee::Ind(o) => {
                        let v = Self::get(fr, o).clone();
                        let a = self.addr(st, &v)?;
                        let idx = a.wrapping_sub(FN_BASE) / 16;
                        if a < FN_BASE || idx >= (self.m.fns.len() + self.m.decls.len()) as u64 {
                            return Err(X::Viol("memory".into(), "call through invalid pointer".into()));
                        }
                        if idx >= self.m.fns.len() as u64 {
                            let n = self.m.decls[idx as usize - self.m.fns.len()].clone();
                            return Err(X::Inc(format!("indirect call to external {}", n)));
                        }
                        if let Some(s) = panic_fn(&self.lay.fpretty[idx as usize]) {
                            return Err(X::Viol("panic".into(), s));
                        }
                        idx as u32
                    }
                    Callee::Intr(i) => {
                        match i {
                            Intr::SymChoose => {
                                let nv = Self::get(fr, &args[0]).clone();
                                let n = self.conc(st, &nv, 32)? as u32;
                                if n == 0 {
                                    return Err(X::End);
                                }
                                if n > 256 {
                                    return Err(X::Inc("choose too wide".into()));
                                }
                                // a fresh input byte, case-split over its n values
                                let e = self.fresh(st)?;
                                let i = st.nvars as usize - 1;
                                let kn = self.x.konst(n as u128, 8);
                                if n < 256 {
                                    let lt = self.x.bin(K::Ult, e, kn);
                                    self.constrain(st, lt);
                                }
                                self.certify_dom(st, i)?;
                                let mut alts = vec![];
                                // the call is completed in every successor
                                fr.ip += 1;
                                for v in (0..n).rev() {
                                    let k = self.x.konst(v as u128, 8);
                                    let c = self.x.bin(K::Eq, e, k);
                                    let mut s = st.clone();
                                    s.model[i] = v as u8;
                                    self.constrain(&mut s, c);
                                    let f = Rc::make_mut(s.frames.last_mut().unwrap());
                                    f.regs[d.unwrap() as usize] = Val::C(v as u64);
                                    alts.push(s);
                                }
                                self.stats.forks += alts.len() as u64 - 1;
                                self.pending = Some(alts);
                                return Ok(Flow::Frames);
                            }
                            Intr::SymAssume => {
                                let v = Self::get(fr, &args[0]).clone();
                                match v {
                                    Val::C(x) => {
                                        if x & 1 == 0 {
                                            return Err(X::End);
                                        }
                                    }
                                    Val::S(e) => {
                                        if self.x.eval(e, &st.model) != 1 {
                                            match self.feasible(st, e)? {
                                                None => return Err(X::End),
                                                Some(m) => st.model = m,
                                            }
                                        }
                                        self.constrain(st, e);
                                    }
                                    _ => return Err(X::Inc("assume".into())),
                                }
                                return Ok(Flow::Next);
                            }
                            Intr::SymCheck => {
                                let v = Self::get(fr, &args[0]).clone();
                                let p = Self::get(fr, &args[1]).clone();
                                let n = Self::get(fr, &args[2]).clone();
                                let (p, n) = (self.addr(st, &p)?, self.conc(st, &n, 64)? as u64);
                                let msg = self.read_str(st, p, n);
                                *self.checked.entry(msg.clone()).or_insert(0) += 1;
                                match v {
                                    Val::C(x) => {
                                        if x & 1 == 0 {
                                            return Err(X::Viol("check".into(), msg));
                                        }
                                        self.stats.checks_true += 1;
                                    }
                                    Val::S(e) => {
                                        self.stats.checks_solver += 1;
                                        let ne = self.x.not(e);
                                        if let Some(m) = self.feasible(st, ne)? {
                                            self.record_viol(st, "check", &msg, &m);
                                            match self.feasible(st, e)? {
                                                None => return Err(X::End),
                                                Some(m) => st.model = m,
                                            }
                                            self.constrain(st, e);
                                        }
                                    }
                                    _ => return Err(X::Inc("check".into())),
                                }
                                return Ok(Flow::Next);
                            }
                            _ => {}
                        }
                        let av: Vec<Val> = args.iter().map(|a| Self::get(fr, a).clone()).collect();
                        let r = self.intr(st, i, &av, ws, rt)?;
                        if let (Some(d), Some(v)) = (d, r) {
                            fr.regs[*d as usize] = v;
                        }
                        return Ok(Flow::Next);
                    }
                };
                let mut av: Vec<Val> = Vec::with_capacity(args.len() + 8);
                for a in args {
                    av.push(Self::get(fr, a).clone());
                }
                if !self.stubs.is_empty() {
                    if let Some(k) = self.stubs.get(&fi).cloned() {
                        return self.stub(st, fr, &k, &av, *d, rt);
                    }
                }
                self.push_frame(st, fi, av, *d)?;
                return Ok(Flow::Frames);
            }
            I::Unreach => return Err(X::Viol("unreachable".into(), "unreachable code executed".into())),
            I::Bad(s) => return Err(X::Inc(format!("instruction {}", s))),
        }
        Ok(Flow::Next)
    }
    /// Over-approximating replacements, enabled per harness on the command line.
    fn stub(&mut self, st: &mut State, fr: &mut Frame, kind: &str, _args: &[Val], d: Option<u32>, rt: &Ty) -> Rx<Flow> {
        match kind {
            "havoc" => {
                let w = rt.bits();
                let mut acc = self.fresh(st)?;
                for _ in 1..w / 8 {
                    let b = self.fresh(st)?;
                    acc = self.x.concat(b, acc);
                }
                if let Some(d) = d {
                    fr.regs[d as usize] = Val::S(acc);
                }
                Ok(Flow::Next)
            }
            _ => Err(X::Inc(format!("unknown stub {}", kind))),
        }
    }
}
