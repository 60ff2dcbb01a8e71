#![allow(clippy::all)]
mod sym;
mod util;
mod totality;
mod ints;
mod ids;
mod corpus;
mod esc;
mod exports;
mod syntax;
mod htmlp;
mod refi;
mod values;
mod content;
mod text;
mod cases;
mod diag;
mod regexes;
mod natives;
mod outputs;
mod modules;
mod cli;
mod code;
mod stdlib;
mod trees;

#[no_mangle]
pub extern "C" fn syn_choice(limit: u32) -> u32 { if sym::harness() == 16 { code::choice(limit) } else { sym::choose(limit.min(9)) } }

#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn harness_main() {
    match sym::harness() {
        1 => totality::run(),
        3 => esc::run(),
        4 => content::run(),
        5 => text::run(),
        15 => diag::run(),
        12 => ids::run(),
        6..=10 => values::run(),
        17 => ints::run(),
        23 => regexes::run(),
        11 | 18 | 19 => natives::run(),
        13 => outputs::run(),
        14 => modules::run(),
        16 => code::run(),
        20 | 21 | 25 => trees::run(),
        24 => stdlib::run(),
        26 => exports::run(),
        27 => syntax::run(),
        22 => cli::run(),
        _ => {}
    }
}

#[cfg(not(feature = "replay"))]
fn main() { harness_main() }

/// stdin: one case per line: `harness p,p,.. v,v,..`; stdout: one result line each
#[cfg(feature = "replay")]
fn main() {
    use std::io::BufRead;
    let verbose = std::env::args().any(|a| a == "-v");
    std::panic::set_hook(Box::new(|_| {}));
    let lines: Vec<String> = std::io::stdin().lock().lines().map(|l| l.unwrap()).collect();
    for l in lines {
        let f: Vec<&str> = l.split(' ').collect();
        if f.len() < 3 { continue; }
        let nums = |s: &str| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse::<u64>().unwrap()).collect::<Vec<_>>();
        let (h, p, v) = (f[0].parse().unwrap(), nums(f[1]), nums(f[2]));
        let msg = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
        let m2 = msg.clone();
        std::panic::set_hook(Box::new(move |i| { *m2.lock().unwrap() = i.to_string().replace('\n', " "); }));
        let t = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
            sym::STATE.with(|s| *s.borrow_mut() = sym::R { vals: v, harness: h, params: p, obs: 0xcbf29ce484222325, ..Default::default() });
            let r = std::panic::catch_unwind(|| harness_main());
            sym::STATE.with(|s| { let s = s.borrow(); (r.is_err(), s.infeasible, s.failed.clone(), s.obs, s.log.clone()) })
        }).unwrap();
        let (err, inf, failed, obs, log) = t.join().unwrap();
        sym::fs_end();
        if verbose { for x in log { println!("  | {}", String::from_utf8_lossy(&x).replace('\n', "\n  | ")); } }
        if inf { println!("infeasible"); }
        else if err { println!("panic {}", msg.lock().unwrap()); }
        else if !failed.is_empty() { println!("assert {}", failed.join("; ")); }
        else { println!("ok {obs:016x}"); }
        use std::io::Write;
        std::io::stdout().flush().unwrap();
    }
}
