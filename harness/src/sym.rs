//! Interface between the harnesses and whoever runs them: the symbolic
//! executor (which implements these functions itself) or the native replayer.
extern "C-unwind" {
    fn __sym_byte() -> u8;
    fn __sym_choose(n: u32) -> u32;
    fn __sym_assume(c: bool);
    fn __sym_check(c: bool, p: *const u8, n: usize);
    fn __sym_fail(p: *const u8, n: usize);
    fn __sym_reach(p: *const u8, n: usize);
    fn __sym_note(p: *const u8, n: usize);
    fn __sym_concretize(v: u64) -> u64;
    fn __sym_live() -> u64;
    fn __sym_f64() -> f64;
    fn __sym_expect();
}

/// An arbitrary byte.
#[inline(always)]
pub fn byte() -> u8 {
    unsafe { __sym_byte() }
}
/// An arbitrary value below `n`; the executor splits the path over all of them.
#[inline(always)]
pub fn choose(n: usize) -> usize {
    unsafe { __sym_choose(n as u32) as usize }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { __sym_assume(c) }
}
/// The assertion: must hold for every value of the symbolic inputs.
#[inline(always)]
pub fn check(c: bool, what: &'static str) {
    unsafe { __sym_check(c, what.as_ptr(), what.len()) }
}
#[inline(always)]
pub fn fail(what: &'static str) {
    unsafe { __sym_fail(what.as_ptr(), what.len()) }
}
/// Vacuity witness: the run must reach this point at least once.
#[inline(always)]
pub fn reach(what: &'static str) {
    unsafe { __sym_reach(what.as_ptr(), what.len()) }
}
/// Observable output, compared between the executor and the native run.
#[inline(always)]
pub fn note(b: &[u8]) {
    unsafe { __sym_note(b.as_ptr(), b.len()) }
}
#[inline(always)]
pub fn concretize(v: usize) -> usize {
    unsafe { __sym_concretize(v as u64) as usize }
}
/// Number of live heap allocations.
#[inline(always)]
pub fn live() -> u64 {
    unsafe { __sym_live() }
}
/// The call must panic; `what` is reported when it returns. Ends the path.
#[inline(always)]
pub fn must_panic<R>(what: &'static str, f: impl FnOnce() -> R) {
    unsafe { __sym_expect() }
    let r = f();
    fail(what);
    drop(r);
}
/// An arbitrary 64-bit float pattern.
#[inline(always)]
pub fn any_f64() -> f64 {
    unsafe { __sym_f64() }
}

/// An arbitrary byte out of `set`.
pub fn byte_in(set: &[u8]) -> u8 {
    let b = byte();
    let mut ok = false;
    for c in set {
        ok |= b == *c;
    }
    assume(ok);
    b
}
/// `n` arbitrary bytes out of `set` appended to `s`.
pub fn push_any(s: &mut Vec<u8>, n: usize, set: &[u8]) {
    for _ in 0..n {
        s.push(byte_in(set));
    }
}
pub fn into_string(v: Vec<u8>) -> String {
    match String::from_utf8(v) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            String::new()
        }
    }
}
/// An arbitrary value below `n`, for large `n`.
pub fn index(n: usize) -> usize {
    let i = choose((n + 63) / 64) * 64 + choose(64);
    assume(i < n);
    i
}
