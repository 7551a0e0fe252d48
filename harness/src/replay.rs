//! Native runner for the harnesses: feeds recorded input bytes to the real code.
//!   replay ENTRY HEX            one input; prints the outcome
//!   replay ENTRY --batch FILE   one hex input per line; prints `outcome<TAB>hex(notes)` per line
#[path = "lib.rs"]
mod h;
use h::sym;

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

struct Counting;
static LIVE: AtomicU64 = AtomicU64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(1, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(1, SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;

struct St {
    inp: Vec<u8>,
    pos: usize,
    notes: Vec<u8>,
    expect: bool,
}
thread_local! {
    static ST: RefCell<St> = RefCell::new(St { inp: Vec::new(), pos: 0, notes: Vec::with_capacity(1 << 16), expect: false });
}

struct Stop(String);

fn stop(s: String) -> ! {
    std::panic::panic_any(Stop(s))
}
fn next() -> u8 {
    let r = ST.with(|s| {
        let mut s = s.borrow_mut();
        if s.pos < s.inp.len() {
            let b = s.inp[s.pos];
            s.pos += 1;
            Some(b)
        } else {
            None
        }
    });
    match r {
        Some(b) => b,
        None => stop("inputs-exhausted".into()),
    }
}
fn text(p: *const u8, n: usize) -> String {
    unsafe { String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned() }
}

#[no_mangle]
pub extern "C-unwind" fn __sym_byte() -> u8 {
    next()
}
#[no_mangle]
pub extern "C-unwind" fn __sym_choose(n: u32) -> u32 {
    let b = next() as u32;
    if b >= n {
        stop("assume".into());
    }
    b
}
#[no_mangle]
pub extern "C-unwind" fn __sym_assume(c: bool) {
    if !c {
        stop("assume".into());
    }
}
#[no_mangle]
pub extern "C-unwind" fn __sym_check(c: bool, p: *const u8, n: usize) {
    if !c {
        stop(format!("check {}", text(p, n)));
    }
}
#[no_mangle]
pub extern "C-unwind" fn __sym_fail(p: *const u8, n: usize) {
    stop(format!("check {}", text(p, n)));
}
#[no_mangle]
pub extern "C-unwind" fn __sym_reach(_p: *const u8, _n: usize) {}
#[no_mangle]
pub extern "C-unwind" fn __sym_note(p: *const u8, n: usize) {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let b = unsafe { std::slice::from_raw_parts(p, n) };
        // the buffer is preallocated so that notes do not disturb the allocation counter
        let room = s.notes.capacity() - s.notes.len();
        let k = n.min(room);
        s.notes.extend_from_slice(&b[..k]);
    })
}
#[no_mangle]
pub extern "C-unwind" fn __sym_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
pub extern "C-unwind" fn __sym_live() -> u64 {
    LIVE.load(SeqCst)
}
#[no_mangle]
pub extern "C-unwind" fn __sym_expect() {
    ST.with(|s| s.borrow_mut().expect = true)
}
#[no_mangle]
pub extern "C-unwind" fn __sym_f64() -> f64 {
    let mut b = [0u8; 8];
    for x in &mut b {
        *x = next();
    }
    f64::from_le_bytes(b)
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn run(f: extern "C-unwind" fn(), inp: Vec<u8>) -> (String, Vec<u8>) {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        s.inp = inp;
        s.pos = 0;
        s.notes.clear();
        s.expect = false;
    });
    let r = std::panic::catch_unwind(|| f());
    let notes = ST.with(|s| s.borrow().notes.clone());
    let o = match r {
        Ok(()) => "ok".to_string(),
        Err(e) => {
            if let Some(s) = e.downcast_ref::<Stop>() {
                s.0.clone()
            } else if ST.with(|s| s.borrow().expect) {
                // the harness announced that this call has to panic
                "ok".to_string()
            } else if let Some(s) = e.downcast_ref::<&str>() {
                format!("panic {}", s)
            } else if let Some(s) = e.downcast_ref::<String>() {
                format!("panic {}", s)
            } else {
                "panic".into()
            }
        }
    };
    (o.replace('\n', " ").replace('\t', " "), notes)
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let f = match h::entry(&a[1]) {
        Some(f) => f,
        None => {
            eprintln!("no such entry: {}", a[1]);
            std::process::exit(3);
        }
    };
    if a[2] == "--batch" {
        for l in std::fs::read_to_string(&a[3]).unwrap().lines() {
            let (o, n) = run(f, unhex(l.trim()));
            println!("{}\t{}", o, n.iter().map(|x| format!("{:02x}", x)).collect::<String>());
        }
    } else {
        let (o, n) = run(f, unhex(&a[2]));
        println!("outcome: {}", o);
        println!("notes: {}", String::from_utf8_lossy(&n));
        if o != "ok" {
            std::process::exit(1);
        }
    }
}
