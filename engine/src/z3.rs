//! Minimal FFI to the Z3 C API.
use crate::expr::{Store, E, K};
use std::collections::HashMap;
use std::os::raw::{c_char, c_int, c_uint, c_void};

type P = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, r: *mut u64) -> bool;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_error(_c: P, e: c_int) {
    eprintln!("z3 error code {}", e);
    std::process::exit(3);
}

pub struct Z3 {
    c: P,
    s: P,
    bools: P,
    sorts: HashMap<u32, P>,
    asts: Vec<P>, // by expression id, as bit-vectors
    boolasts: HashMap<E, P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub dump_every: u64,
    pub dumps: Vec<(String, bool)>,
}

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = Z3_mk_string_symbol(c, b"rlimit\0".as_ptr() as *const c_char);
            Z3_params_set_uint(c, p, k, timeout_ms.saturating_mul(1000));
            Z3_solver_set_params(c, s, p);
            let bools = Z3_mk_bool_sort(c);
            Z3 { c, s, bools, sorts: HashMap::new(), asts: vec![], boolasts: HashMap::new(), queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0, dump_every: 0, dumps: vec![] }
        }
    }
    pub fn version() -> String {
        unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
    }
    fn sort(&mut self, w: u32) -> P {
        let c = self.c;
        *self.sorts.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(c, w) })
    }
    fn num(&mut self, v: u128, w: u32) -> P {
        let s = self.sort(w);
        unsafe {
            if w <= 64 {
                Z3_mk_unsigned_int64(self.c, v as u64, s)
            } else {
                let t = format!("{}\0", v);
                Z3_mk_numeral(self.c, t.as_ptr() as *const c_char, s)
            }
        }
    }
    /// Boolean term for a width-1 expression
    fn boolast(&mut self, st: &Store, e: E) -> P {
        if let Some(p) = self.boolasts.get(&e) {
            return *p;
        }
        let n = st.nd(e);
        let c = self.c;
        let r = unsafe {
            match n.k {
                K::Eq => {
                    let a = self.ast(st, n.a);
                    let b = self.ast(st, n.b);
                    Z3_mk_eq(c, a, b)
                }
                K::Ult | K::Ule | K::Slt | K::Sle => {
                    let a = self.ast(st, n.a);
                    let b = self.ast(st, n.b);
                    match n.k {
                        K::Ult => Z3_mk_bvult(c, a, b),
                        K::Ule => Z3_mk_bvule(c, a, b),
                        K::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                _ => {
                    let a = self.ast(st, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, a, one)
                }
            }
        };
        let _ = self.bools;
        self.boolasts.insert(e, r);
        r
    }
    fn ast(&mut self, st: &Store, e: E) -> P {
        if (e as usize) < self.asts.len() && !self.asts[e as usize].is_null() {
            return self.asts[e as usize];
        }
        let n = st.nd(e);
        let c = self.c;
        let w = n.w as u32;
        let r = unsafe {
            match n.k {
                K::Const => self.num(n.v, w),
                K::Var => {
                    let nm = format!("b{}\0", n.v);
                    let sym = Z3_mk_string_symbol(c, nm.as_ptr() as *const c_char);
                    let s = self.sort(8);
                    Z3_mk_const(c, sym, s)
                }
                K::ZExt => {
                    let a = self.ast(st, n.a);
                    Z3_mk_zero_ext(c, w - st.w(n.a), a)
                }
                K::SExt => {
                    let a = self.ast(st, n.a);
                    Z3_mk_sign_ext(c, w - st.w(n.a), a)
                }
                K::Extract => {
                    let a = self.ast(st, n.a);
                    Z3_mk_extract(c, n.v as u32 + w - 1, n.v as u32, a)
                }
                K::Eq | K::Ult | K::Ule | K::Slt | K::Sle => {
                    let b = self.boolast(st, e);
                    let one = self.num(1, 1);
                    let z = self.num(0, 1);
                    Z3_mk_ite(c, b, one, z)
                }
                K::Ite => {
                    let b = self.boolast(st, n.a);
                    let x = self.ast(st, n.b);
                    let y = self.ast(st, n.c);
                    Z3_mk_ite(c, b, x, y)
                }
                K::Tab => {
                    // group runs of equal values
                    let a = self.ast(st, n.a);
                    let t = &st.tabs[n.v as usize];
                    let mut i = 256usize;
                    let mut acc: Option<P> = None;
                    while i > 0 {
                        let v = t[i - 1];
                        let mut j = i - 1;
                        while j > 0 && t[j - 1] == v {
                            j -= 1;
                        }
                        let val = self.num(v as u128, w);
                        acc = Some(match acc {
                            None => val,
                            Some(rest) => {
                                let lim = self.num((i - 1) as u128, 8);
                                let cond = Z3_mk_bvule(c, a, lim);
                                Z3_mk_ite(c, cond, val, rest)
                            }
                        });
                        i = j;
                    }
                    acc.unwrap()
                }
                k => {
                    let a = self.ast(st, n.a);
                    let b = self.ast(st, n.b);
                    match k {
                        K::Add => Z3_mk_bvadd(c, a, b),
                        K::Sub => Z3_mk_bvsub(c, a, b),
                        K::Mul => Z3_mk_bvmul(c, a, b),
                        K::UDiv => Z3_mk_bvudiv(c, a, b),
                        K::SDiv => Z3_mk_bvsdiv(c, a, b),
                        K::URem => Z3_mk_bvurem(c, a, b),
                        K::SRem => Z3_mk_bvsrem(c, a, b),
                        K::And => Z3_mk_bvand(c, a, b),
                        K::Or => Z3_mk_bvor(c, a, b),
                        K::Xor => Z3_mk_bvxor(c, a, b),
                        K::Shl => Z3_mk_bvshl(c, a, b),
                        K::LShr => Z3_mk_bvlshr(c, a, b),
                        K::AShr => Z3_mk_bvashr(c, a, b),
                        K::Concat => Z3_mk_concat(c, a, b),
                        _ => panic!("z3 {:?}", k),
                    }
                }
            }
        };
        if self.asts.len() <= e as usize {
            self.asts.resize(e as usize + 1, std::ptr::null_mut());
        }
        self.asts[e as usize] = r;
        r
    }
    /// Check satisfiability of the conjunction; on Sat, fill `model` for the variables in `vars`.
    pub fn check(&mut self, st: &mut Store, cs: &[E], vars: u128, model: &mut Vec<u8>) -> Res {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for e in cs {
                let b = self.boolast(st, *e);
                Z3_solver_assert(self.c, self.s, b);
            }
            let r = Z3_solver_check(self.c, self.s);
            if self.dump_every > 0 && self.queries % self.dump_every == 1 && r != 0 && self.dumps.len() < 200 {
                let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned();
                self.dumps.push((s, r == 1));
            }
            if r == 1 {
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                for i in 0..128u32 {
                    if vars >> i & 1 == 1 {
                        let v = st.var(i);
                        let a = self.ast(st, v);
                        let mut out: P = std::ptr::null_mut();
                        Z3_model_eval(self.c, m, a, true, &mut out);
                        let mut x = 0u64;
                        Z3_get_numeral_uint64(self.c, out, &mut x);
                        if model.len() <= i as usize {
                            model.resize(i as usize + 1, 0);
                        }
                        model[i as usize] = x as u8;
                    }
                }
                Z3_model_dec_ref(self.c, m);
            }
            Z3_solver_pop(self.c, self.s, 1);
            r
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > 0.05 && std::env::var("SYM_SLOW").is_ok() {
            eprintln!("slow {:.3} cs={} vars={:x} r={}", dt, cs.len(), vars, r);
            for c in cs { eprintln!("   {}", st.show(*c, 6)); }
        }
        match r {
            1 => {
                self.sat += 1;
                Res::Sat
            }
            -1 => {
                self.unsat += 1;
                Res::Unsat
            }
            _ => {
                self.unknown += 1;
                Res::Unknown
            }
        }
    }
}
