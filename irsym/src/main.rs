//! irsym: bounded symbolic execution of LLVM IR with an SMT solver.
mod exec;
mod expr;
mod ll;
mod state;
mod vfs;
mod z3;

use exec::*;
use state::*;
use std::io::Write;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

const NT: usize = 256;
const NV: usize = 250;
#[repr(C)]
struct Task { nbranch: u32, nv: u32, vals: [u64; NV] }
#[repr(C)]
struct Shared { lock: AtomicU32, len: AtomicU32, idle: AtomicU32, stop: AtomicU32, viols: AtomicU32, paths: AtomicU64, tasks: [Task; NT] }

impl Shared {
    fn lock(&self) { while self.lock.compare_exchange(0, 1, SeqCst, SeqCst).is_err() { std::thread::yield_now(); } }
    fn unlock(&self) { self.lock.store(0, SeqCst); }
}

fn arg(args: &[String], k: &str) -> Option<String> { args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned()) }

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } }
    o + "\""
}

fn model_str(m: &[(u16, u64)]) -> String { format!("[{}]", m.iter().map(|(w, v)| format!("[{w},{v}]")).collect::<Vec<_>>().join(",")) }

fn obs_hash(en: &Engine, st: &State) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    let mut put = |b: u8| { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); };
    for o in &st.obs {
        for v in o { put(match v { Val::I(x) => *x as u8, Val::S(e) => en.eval(st, *e) as u8 }); }
        put(0xff); put(0xfe);
    }
    h
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let file = arg(&args, "--ll").expect("--ll");
    let entry = arg(&args, "--entry").unwrap_or("harness_main".into());
    let harness: u32 = arg(&args, "--harness").map_or(0, |s| s.parse().unwrap());
    let params: Vec<u64> = arg(&args, "--params").map_or(vec![], |s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect());
    let time: f64 = arg(&args, "--time").map_or(60.0, |s| s.parse().unwrap());
    let workers: usize = arg(&args, "--workers").map_or(8, |s| s.parse().unwrap());
    let out = arg(&args, "--out");
    let samples: usize = arg(&args, "--samples").map_or(0, |s| s.parse().unwrap());
    let path_steps: u64 = arg(&args, "--path-steps").map_or(400_000_000, |s| s.parse().unwrap());
    let max_viol: usize = arg(&args, "--max-viol").map_or(3, |s| s.parse().unwrap());
    let trace = args.iter().any(|a| a == "--trace");
    let prof = args.iter().any(|a| a == "--prof");
    let t0 = Instant::now();
    let src = std::fs::read_to_string(&file).expect("read ll");
    let src: &'static str = Box::leak(src.into_boxed_str());
    let m = ll::Module::parse(src);
    if trace { eprintln!("parsed {} functions {} globals in {:?}", m.funcs.len(), m.globals.len(), t0.elapsed()); }
    let lim = Limits { path_steps, deadline: t0 + Duration::from_secs_f64(time), max_viol };
    let mut en = Engine::new(m, lim, 20_000);
    en.harness = harness;
    en.params = params;
    en.trace = trace;
    en.max_samples = samples;
    if prof { en.prof = Some(Default::default()); en.want_forkprof = true; }
    let mut root = en.initial(&entry);
    en.stop_at_root = true;
    let r = en.run(&mut root);
    en.stop_at_root = false;
    let t_root = t0.elapsed();
    if trace { eprintln!("root after {:?}: {:?} steps {}", t_root, r, root.steps); }
    let root_steps = root.steps;
    let mut single = None;
    match r { End::Root => {} other => single = Some(other) }

    let tmp = format!("/tmp/irsym.{}", std::process::id());
    let sh: &'static Shared = unsafe { &*(mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, 0x21, -1, 0) as *const Shared) };
    let nw = if single.is_some() { 1 } else { workers };
    let mut pids = vec![];
    for wi in 0..nw {
        let pid = if nw == 1 { 0 } else { unsafe { fork() } };
        if pid == 0 {
            worker(&mut en, root.clone(), sh, wi, nw, single.take(), &format!("{tmp}.{wi}"));
            if nw > 1 { unsafe { _exit(0) } }
            break;
        }
        pids.push(pid);
    }
    let mut dead = 0;
    for p in pids { let mut s = 0; unsafe { waitpid(p, &mut s, 0); } if s != 0 { dead += 1; } }

    // aggregate
    let mut sums: std::collections::BTreeMap<String, u64> = Default::default();
    let (mut viols, mut errs, mut samp, mut fns, mut forks): (Vec<String>, Vec<String>, Vec<String>, std::collections::BTreeSet<String>, std::collections::BTreeMap<String, u64>) = Default::default();
    let mut profs: std::collections::BTreeMap<String, u64> = Default::default();
    let mut covers = 0u64;
    for wi in 0..nw {
        let f = format!("{tmp}.{wi}");
        let s = std::fs::read_to_string(&f).unwrap_or_default();
        if s.is_empty() { dead += 1; }
        let _ = std::fs::remove_file(&f);
        for l in s.lines() {
            let (k, v) = l.split_once(' ').unwrap();
            match k {
                "V" => viols.push(v.into()), "E" => errs.push(v.into()), "S" => samp.push(v.into()), "F" => { fns.insert(v.into()); }
                "C" => covers |= v.parse::<u64>().unwrap(),
                "P" => { let (n, k) = v.split_once(' ').unwrap(); *profs.entry(k.into()).or_insert(0) += n.parse::<u64>().unwrap(); }
                "K" => { let (n, k) = v.split_once(' ').unwrap(); *forks.entry(k.into()).or_insert(0) += n.parse::<u64>().unwrap(); }
                _ => { let e = sums.entry(k.into()).or_insert(0); let x: u64 = v.parse().unwrap(); if k == "maxdepth" { *e = (*e).max(x); } else { *e += x; } }
            }
        }
    }
    let mut o = String::from("{\n");
    for (k, v) in &sums { o += &format!("\"{k}\": {v},\n"); }
    errs.sort(); errs.dedup(); errs.truncate(12);
    o += &format!("\"root_steps\": {root_steps},\n\"dead_workers\": {dead},\n\"covers\": {covers},\n\"wall_s\": {:.3},\n\"root_s\": {:.3},\n\"z3_version\": {},\n", t0.elapsed().as_secs_f64(), t_root.as_secs_f64(), js(&z3::version()));
    o += &format!("\"violations\": [{}],\n\"errors\": [{}],\n\"samples\": [{}],\n\"functions\": [{}]\n}}\n", viols.join(",\n"), errs.iter().map(|e| js(e)).collect::<Vec<_>>().join(",\n"), samp.join(","), fns.iter().map(|e| js(e)).collect::<Vec<_>>().join(","));
    if prof {
        let mut v: Vec<_> = profs.iter().collect(); v.sort_by_key(|x| std::cmp::Reverse(x.1));
        for (k, n) in v.iter().take(25) { eprintln!("{n:>12} {k}"); }
        eprintln!("--- forks");
        let mut v: Vec<_> = forks.iter().collect(); v.sort_by_key(|x| std::cmp::Reverse(x.1));
        for (k, n) in v.iter().take(25) { eprintln!("{n:>12} {k}"); }
    }
    match out { Some(f) => std::fs::write(f, o).unwrap(), None => { std::io::stdout().write_all(o.as_bytes()).unwrap(); } }
}

fn worker(en: &mut Engine, root: State, sh: &'static Shared, wi: usize, nw: usize, single: Option<End>, out: &str) {
    let mut covers = 0u64;
    let mut errs: Vec<String> = vec![];
    let root_vars = root.vars.len();
    en.stats.steps = if wi == 0 { en.stats.steps } else { 0 };
    if nw > 1 {
        en.donate = Some(Box::new(move |work: &mut Vec<State>| {
            let idle = sh.idle.load(SeqCst);
            let len = sh.len.load(SeqCst);
            if idle <= len || work.len() < 2 { return; }
            sh.lock();
            while work.len() >= 2 && sh.len.load(SeqCst) < sh.idle.load(SeqCst) && (sh.len.load(SeqCst) as usize) < NT {
                if work[0].wit.len() > NV { break; }
                let s = work.remove(0);
                let n = sh.len.load(SeqCst) as usize;
                let t = &sh.tasks[n] as *const Task as *mut Task;
                unsafe {
                    (*t).nbranch = s.nbranch;
                    (*t).nv = s.wit.len() as u32;
                    for (i, v) in s.wit.iter().enumerate() { (*t).vals[i] = *v; }
                }
                sh.len.store(n as u32 + 1, SeqCst);
            }
            sh.unlock();
        }));
    }
    let mut finish = |en: &mut Engine, st: &State, r: End, errs: &mut Vec<String>| {
        en.stats.maxdepth = en.stats.maxdepth.max(st.nbranch as u64);
        match r {
            End::Ok => {
                en.stats.paths += 1;
                covers |= st.covers;
                if en.max_samples > 0 {
                    en.rng = en.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407 + wi as u64);
                    let k = (en.rng >> 33) as usize;
                    let keep = if en.samples.len() < en.max_samples { Some(en.samples.len()) } else { let j = k % en.stats.paths as usize; if j < en.max_samples { Some(j) } else { None } };
                    if let Some(j) = keep {
                        let h = obs_hash(en, st);
                        let x = (en.model(st), h);
                        if j < en.samples.len() { en.samples[j] = x; } else { en.samples.push(x); }
                    }
                }
            }
            End::Infeasible => en.stats.infeasible += 1,
            End::Violation(v) => { en.stats.paths += 1; covers |= st.covers; en.viols.push(v); sh.viols.fetch_add(1, SeqCst); }
            End::Incomplete(s) => { en.stats.incomplete += 1; errs.push(format!("incomplete: {s}")); }
            End::Error(s) => { en.stats.errors += 1; errs.push(format!("error: {s}")); }
            End::Root => unreachable!(),
        }
    };
    if let Some(r) = single { finish(en, &root, r, &mut errs); }
    else {
        let mut first = wi == 0;
        let mut idle = false;
        loop {
            if Instant::now() > en.lim.deadline || sh.stop.load(SeqCst) != 0 || en.viols.len() >= en.lim.max_viol || sh.viols.load(SeqCst) as usize >= en.lim.max_viol {
                en.stats.cut += en.work.len() as u64 + if first { 1 } else { 0 };
                if sh.stop.swap(1, SeqCst) == 0 { en.stats.cut += sh.len.load(SeqCst) as u64; }
                break;
            }
            if first {
                first = false;
                en.follow = 0;
                let mut st = root.clone();
                let r = en.run(&mut st);
                finish(en, &st, r, &mut errs);
            } else if let Some(mut st) = en.work.pop() {
                let r = en.run(&mut st);
                finish(en, &st, r, &mut errs);
            } else {
                if !idle { idle = true; sh.idle.fetch_add(1, SeqCst); }
                // take a task
                sh.lock();
                let n = sh.len.load(SeqCst);
                if n > 0 {
                    let t = &sh.tasks[n as usize - 1];
                    let (nb, wit) = (t.nbranch, t.vals[..t.nv as usize].to_vec());
                    sh.len.store(n - 1, SeqCst);
                    sh.idle.fetch_sub(1, SeqCst);
                    sh.unlock();
                    idle = false;
                    let mut st = root.clone();
                    en.follow = nb;
                    en.replay = Some(wit);
                    let _ = root_vars;
                    let r = en.run(&mut st);
                    en.replay = None;
                    finish(en, &st, r, &mut errs);
                    en.follow = 0;
                } else {
                    let done = sh.idle.load(SeqCst) as usize == nw;
                    sh.unlock();
                    if done { break; }
                    std::thread::sleep(Duration::from_micros(300));
                }
            }
            if let Some(mut d) = en.donate.take() { d(&mut en.work); en.donate = Some(d); }
        }
    }
    let s = &en.stats;
    let mut o = String::new();
    for (k, v) in [("paths", s.paths), ("infeasible", s.infeasible), ("incomplete", s.incomplete), ("engine_errors", s.errors), ("cut", s.cut), ("forks", s.forks), ("branches", s.branches), ("concretize", s.concretize), ("steps", s.steps),
        ("q_witness", s.q_witness), ("q_domain", s.q_domain), ("q_repair", s.q_repair), ("q_cache", s.q_cache), ("q_z3", s.q_z3), ("q_unknown", s.q_unknown), ("asserts", s.asserts), ("asserts_concrete", s.asserts_concrete), ("path_z3", s.path_z3), ("prunes_checked", s.prunes_checked),
        ("z3_queries", en.z3.queries), ("z3_ms", en.z3.nanos / 1_000_000), ("maxdepth", s.maxdepth), ("exprs", en.ex.nodes.len() as u64)] { o += &format!("{k} {v}\n"); }
    o += &format!("C {covers}\n");
    for v in &en.viols { o += &format!("V {{\"kind\": {}, \"msg\": {}, \"model\": {}}}\n", js(&v.kind), js(&v.msg), model_str(&v.model)); }
    errs.sort(); errs.dedup();
    for e in errs.iter().take(8) { o += &format!("E {}\n", e.replace('\n', " ")); }
    for (m, h) in &en.samples { o += &format!("S {{\"model\": {}, \"hash\": \"{h:016x}\"}}\n", model_str(m)); }
    for (i, b) in en.entered.iter().enumerate() { if *b { let n = demangle(en.m.funcs[i].name); if n.contains("papyri_lang") { o += &format!("F {n}\n"); } } }
    if let Some(p) = &en.prof { for (k, n) in p { o += &format!("P {n} {}\n", demangle(en.m.funcs[*k as usize].name)); } }
    for ((f, pc), n) in &en.forkprof { o += &format!("K {n} {} @{pc}\n", demangle(en.m.funcs[*f as usize].name)); }
    std::fs::write(out, o).unwrap();
}
