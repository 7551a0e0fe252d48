mod exec;
mod expr;
mod ir;
mod ll;
mod mem;
mod z3;

use exec::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

#[repr(C)]
struct Shared {
    slots: AtomicI64,
    stop: AtomicU64,
    violated: AtomicU64, // millis since start, 0 = none
    procs: AtomicU64,
    timeout: AtomicU64,
    paths: AtomicU64,
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}
fn clean(s: &str) -> String {
    s.replace('\t', " ").replace('\n', " ")
}

fn write_results(eng: &Engine, dir: &str) {
    let path = format!("{}/res.{}", dir, std::process::id());
    let mut f = std::fs::File::create(path).unwrap();
    let s = &eng.stats;
    for (k, v) in [
        ("paths", s.paths),
        ("steps", s.steps),
        ("forks", s.forks),
        ("max_steps", s.max_steps),
        ("max_vars", s.max_vars),
        ("assumed_away", s.assumed_away),
        ("checks_true", s.checks_true),
        ("checks_solver", s.checks_solver),
        ("branches_sym", s.branches_sym),
        ("cache_hits", s.cache_hits),
        ("z3_queries", eng.z.queries),
        ("z3_sat", eng.z.sat),
        ("z3_unsat", eng.z.unsat),
        ("z3_unknown", eng.z.unknown),
        ("z3_us", (eng.z.time * 1e6) as u64),
        ("violations", eng.nviol),
        ("exprs", eng.x.n.len() as u64),
    ] {
        writeln!(f, "stat\t{}\t{}", k, v).unwrap();
    }
    for v in &eng.viols {
        writeln!(f, "viol\t{}\t{}\t{}\t{}", clean(&v.kind), clean(&v.msg), clean(&v.site), hex(&v.inputs)).unwrap();
    }
    for (k, (n, i)) in &eng.incs {
        writeln!(f, "inc\t{}\t{}\t{}", clean(k), n, hex(i)).unwrap();
    }
    for (k, n) in &eng.reached {
        writeln!(f, "reach\t{}\t{}", clean(k), n).unwrap();
    }
    for (k, n) in &eng.checked {
        writeln!(f, "chk\t{}\t{}", clean(k), n).unwrap();
    }
    for (i, c) in eng.cov.iter().enumerate() {
        if c.iter().any(|x| *x) {
            let b: String = c.iter().map(|x| if *x { '1' } else { '0' }).collect();
            writeln!(f, "cov\t{}\t{}", i, b).unwrap();
        }
    }
    for (a, b) in &eng.samples {
        writeln!(f, "sample\t{}\t{}", hex(a), hex(b)).unwrap();
    }
    for (i, (q, sat)) in eng.z.dumps.iter().enumerate() {
        let n = format!("{}/q.{}.{}.{}.smt2", dir, std::process::id(), i, if *sat { "sat" } else { "unsat" });
        std::fs::write(n, format!("(set-logic QF_BV)\n{}\n(check-sat)\n", q)).unwrap();
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut file = String::new();
    let mut entry = String::new();
    let mut time = 600.0f64;
    let mut workers = 8i64;
    let mut dir = String::new();
    let mut viol_grace = 10.0f64;
    let mut z3_timeout = 20000u32;
    let mut dump_every = 0u64;
    let mut list = false;
    let mut max_mem = 28_000u64;
    let mut o = Opts { max_steps: 15_000_000, max_depth: 3000, max_expr: 300, max_enum: 1100, samples: 40, seed: 1, stubs: vec![] };
    let mut i = 1;
    while i < args.len() {
        let key = args[i].clone();
        let mut nx = || {
            i += 1;
            args[i].clone()
        };
        match key.as_str() {
            "--entry" => entry = nx(),
            "--time" => time = nx().parse().unwrap(),
            "--workers" => workers = nx().parse().unwrap(),
            "--dir" => dir = nx(),
            "--max-steps" => o.max_steps = nx().parse().unwrap(),
            "--max-depth" => o.max_depth = nx().parse().unwrap(),
            "--max-expr" => o.max_expr = nx().parse().unwrap(),
            "--samples" => o.samples = nx().parse().unwrap(),
            "--seed" => o.seed = nx().parse().unwrap(),
            "--grace" => viol_grace = nx().parse().unwrap(),
            "--z3-timeout" => z3_timeout = nx().parse().unwrap(),
            "--dump-every" => dump_every = nx().parse().unwrap(),
            "--max-mem" => max_mem = nx().parse().unwrap(),
            "--list" => list = true,
            "--stub" => {
                let s = nx();
                let (a, b) = s.rsplit_once('=').unwrap();
                o.stubs.push((a.to_string(), b.to_string()));
            }
            f => file = f.to_string(),
        }
        i += 1;
    }
    let t0 = Instant::now();
    let src = std::fs::read_to_string(&file).expect("read IR");
    let m = match ll::parse_module(&src) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("IR parse error: {}", e);
            std::process::exit(3);
        }
    };
    drop(src);
    if list {
        for f in &m.fns {
            println!("{}\t{}\t{}", f.name, f.pretty, f.blocks.iter().map(|b| b.insts.len()).sum::<usize>());
        }
        return;
    }
    let nproc_seed = o.seed;
    let mut eng = match Engine::new(&m, o, z3_timeout) {
        Ok(e) => e,
        Err(e) => {
            eprintln!("engine: {}", e);
            std::process::exit(3);
        }
    };
    let _ = nproc_seed;
    eng.z.dump_every = dump_every;
    let st = match eng.init_state() {
        Ok(s) => s,
        Err(e) => {
            eprintln!("init: {}", e);
            std::process::exit(3);
        }
    };
    let parse_s = t0.elapsed().as_secs_f64();
    let fi = match eng.lay.fidx.get(&entry) {
        Some(i) => *i,
        None => {
            eprintln!("no entry {}", entry);
            std::process::exit(3);
        }
    };
    let sh: &Shared = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const Shared) };
    sh.slots.store(workers - 1, SeqCst);
    let own_dir = dir.is_empty();
    if own_dir {
        dir = format!("/tmp/symll.{}", std::process::id());
    }
    let _ = std::fs::create_dir_all(&dir);
    for e in std::fs::read_dir(&dir).unwrap().flatten() {
        let n = e.file_name().to_string_lossy().into_owned();
        if n.starts_with("res.") || n.starts_with("q.") {
            let _ = std::fs::remove_file(e.path());
        }
    }

    // ---- root worker
    let root = unsafe { fork() };
    if root == 0 {
        let mut st = st;
        if let Err(_) = eng.push_frame(&mut st, fi, vec![], None) {
            eprintln!("cannot start {}", entry);
            unsafe { _exit(4) };
        }
        let mut stack = vec![st];
        let mut kids: Vec<i32> = vec![];
        sh.procs.fetch_add(1, SeqCst);
        let mut last_fork = Instant::now();
        let mut n = 0u64;
        loop {
            let s = match stack.pop() {
                Some(s) => s,
                None => break,
            };
            n += 1;
            if n % 64 == 0 {
                let el = t0.elapsed();
                if el.as_secs_f64() > time {
                    sh.timeout.store(1, SeqCst);
                    sh.stop.store(1, SeqCst);
                }
                let v = sh.violated.load(SeqCst);
                if v != 0 && el.as_millis() as u64 > v + (viol_grace * 1000.0) as u64 {
                    sh.stop.store(1, SeqCst);
                }
                if n % 4096 == 0 {
                    if let Ok(t) = std::fs::read_to_string("/proc/self/statm") {
                        let rss: u64 = t.split(' ').nth(1).and_then(|x| x.parse().ok()).unwrap_or(0) * 4 / 1024;
                        if rss > max_mem / workers as u64 {
                            sh.timeout.store(2, SeqCst);
                            sh.stop.store(1, SeqCst);
                        }
                    }
                }
                if sh.stop.load(SeqCst) != 0 {
                    break;
                }
            }
            let nv = eng.nviol;
            stack.extend(eng.run(s));
            if eng.nviol > nv {
                let ms = (t0.elapsed().as_millis() as u64).max(1);
                let _ = sh.violated.compare_exchange(0, ms, SeqCst, SeqCst);
            }
            if stack.len() >= 2 && sh.slots.load(SeqCst) > 0 && (last_fork.elapsed() > Duration::from_millis(15)) {
                let c = sh.slots.load(SeqCst);
                if c > 0 && sh.slots.compare_exchange(c, c - 1, SeqCst, SeqCst).is_ok() {
                    last_fork = Instant::now();
                    let pid = unsafe { fork() };
                    // split the pending states
                    let mut a = vec![];
                    let mut b = vec![];
                    for (i, s) in stack.drain(..).enumerate() {
                        if i % 2 == 0 { a.push(s) } else { b.push(s) }
                    }
                    if pid == 0 {
                        sh.procs.fetch_add(1, SeqCst);
                        kids.clear();
                        eng.reset_results();
                        stack = a;
                        drop(b);
                    } else if pid > 0 {
                        kids.push(pid);
                        stack = b;
                        std::mem::forget(a);
                    } else {
                        unsafe { _exit(5) };
                    }
                }
            }
        }
        if eng.trace_forks {
            let mut v: Vec<_> = eng.forksites.iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(*x.1));
            for (k, n) in v.into_iter().take(40) {
                eprintln!("{:7} {}", n, &k[..k.len().min(600)]);
            }
        }
        write_results(&eng, &dir);
        sh.slots.fetch_add(1, SeqCst);
        let mut bad = 0;
        for k in kids {
            let mut s = 0;
            unsafe { waitpid(k, &mut s, 0) };
            if s != 0 {
                bad = 6;
            }
        }
        unsafe { _exit(bad) };
    }
    let mut status = 0;
    unsafe { waitpid(root, &mut status, 0) };

    // ---- merge
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut viols: Vec<Vec<String>> = vec![];
    let mut incs: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut reach: BTreeMap<String, u64> = BTreeMap::new();
    let mut chk: BTreeMap<String, u64> = BTreeMap::new();
    let mut cov: BTreeMap<usize, Vec<u8>> = BTreeMap::new();
    let mut samples: Vec<(String, String)> = vec![];
    for e in std::fs::read_dir(&dir).unwrap().flatten() {
        let n = e.file_name().to_string_lossy().into_owned();
        if !n.starts_with("res.") {
            continue;
        }
        let t = std::fs::read_to_string(e.path()).unwrap();
        for l in t.lines() {
            let p: Vec<&str> = l.split('\t').collect();
            match p[0] {
                "stat" => {
                    let v: u64 = p[2].parse().unwrap();
                    let x = stats.entry(p[1].to_string()).or_insert(0);
                    if p[1].starts_with("max_") || p[1] == "exprs" { *x = (*x).max(v) } else { *x += v }
                }
                "viol" => viols.push(p[1..].iter().map(|s| s.to_string()).collect()),
                "inc" => {
                    let x = incs.entry(p[1].to_string()).or_insert((0, p[3].to_string()));
                    x.0 += p[2].parse::<u64>().unwrap();
                }
                "reach" => *reach.entry(p[1].to_string()).or_insert(0) += p[2].parse::<u64>().unwrap(),
                "chk" => *chk.entry(p[1].to_string()).or_insert(0) += p[2].parse::<u64>().unwrap(),
                "cov" => {
                    let i: usize = p[1].parse().unwrap();
                    let b = p[2].as_bytes();
                    let c = cov.entry(i).or_insert_with(|| vec![b'0'; b.len()]);
                    for (x, y) in c.iter_mut().zip(b) {
                        if *y == b'1' {
                            *x = b'1';
                        }
                    }
                }
                "sample" => samples.push((p[1].to_string(), p[2].to_string())),
                _ => {}
            }
        }
        let _ = std::fs::remove_file(e.path());
    }
    if own_dir {
        let _ = std::fs::remove_dir_all(&dir);
    }
    samples.sort();
    samples.dedup();
    let mut j = String::new();
    j.push_str("{\n");
    j.push_str(&format!(" \"entry\": \"{}\",\n \"z3\": \"{}\",\n", esc(&entry), esc(&z3::Z3::version())));
    j.push_str(&format!(" \"status\": {},\n \"timeout\": {},\n \"stopped\": {},\n", status, sh.timeout.load(SeqCst), sh.stop.load(SeqCst)));
    j.push_str(&format!(" \"parse_s\": {:.3},\n \"wall_s\": {:.3},\n \"procs\": {},\n", parse_s, t0.elapsed().as_secs_f64(), sh.procs.load(SeqCst)));
    let js = |m: &BTreeMap<String, u64>| -> String { m.iter().map(|(k, v)| format!("\"{}\": {}", esc(k), v)).collect::<Vec<_>>().join(", ") };
    j.push_str(&format!(" \"stats\": {{{}}},\n", js(&stats)));
    j.push_str(&format!(" \"reached\": {{{}}},\n", js(&reach)));
    j.push_str(&format!(" \"checked\": {{{}}},\n", js(&chk)));
    j.push_str(&format!(" \"incomplete\": [{}],\n", incs.iter().map(|(k, v)| format!("{{\"what\": \"{}\", \"count\": {}, \"inputs\": \"{}\"}}", esc(k), v.0, v.1)).collect::<Vec<_>>().join(", ")));
    j.push_str(&format!(
        " \"violations\": [{}],\n",
        viols.iter().map(|v| format!("{{\"kind\": \"{}\", \"msg\": \"{}\", \"site\": \"{}\", \"inputs\": \"{}\"}}", esc(&v[0]), esc(&v[1]), esc(&v[2]), v[3])).collect::<Vec<_>>().join(",\n  ")
    ));
    j.push_str(&format!(" \"samples\": [{}],\n", samples.iter().map(|(a, b)| format!("[\"{}\", \"{}\"]", a, b)).collect::<Vec<_>>().join(", ")));
    let covs: Vec<String> = cov
        .iter()
        .map(|(i, c)| {
            let f = &m.fns[*i];
            format!("{{\"fn\": \"{}\", \"blocks\": {}, \"hit\": {}, \"insts\": {}}}", esc(&f.pretty), c.len(), c.iter().filter(|x| **x == b'1').count(), f.blocks.iter().map(|b| b.insts.len()).sum::<usize>())
        })
        .collect();
    j.push_str(&format!(" \"functions\": [\n  {}\n ]\n}}\n", covs.join(",\n  ")));
    print!("{}", j);
    if status != 0 {
        std::process::exit(3);
    }
}
