//! C15: where and how often diagnostics are reported.
use crate::cases::CASES;
use crate::sym;
use papyri_lang::compiler::Context;
use papyri_lang::errors::ReportingLevel;

fn ch(n: u32) -> u32 { sym::choose(n) }

const GAPS: &[&str] = &[" ", "\n", " <!-- \u{e9}\n\u{1f600} -->\t", "\r\n", " #\u{e9}\n"];
/// cases with one diagnostic that leave what follows alone
fn isolated(i: usize) -> bool {
    let (s, ds) = CASES[i];
    ds.len() == 1 && !s.ends_with(['x', 'c', 'b']) && !ds[0].1.contains("end of") && !ds[0].1.contains("already") && !ds[0].1.contains("unmatched opening") && !s.starts_with("a {")
}

fn line_col(s: &[u8], at: usize) -> (u32, u32) {
    let (mut l, mut c) = (1, 1);
    for &b in &s[..at] {
        if b == b'\n' { l += 1; c = 1; } else if b & 0xc0 != 0x80 { c += 1; }
    }
    (l, c)
}

fn num(mut n: u32, out: &mut Vec<u8>) {
    let mut d = vec![];
    loop { d.push(b'0' + (n % 10) as u8); n /= 10; if n == 0 { break; } }
    d.reverse();
    out.extend(d);
}

/// text that has no faults and leaves what follows alone
fn prefix(n: u32, out: &mut Vec<u8>) {
    for _ in 0..n {
        match ch(8) {
            0 => out.push(sym::one_of(b"a\n.;")),
            1 => sym::push_wide(out),
            2 => out.extend("\u{1f600}".as_bytes()),
            3 => out.extend(b"\r\n"),
            4 => out.extend("#\u{e9}\n".as_bytes()),
            5 => out.extend(b"```\n\n``` "),
            6 => out.extend(b"\n\n"),
            _ => out.extend("<i>\n\u{e9}</i>".as_bytes()),
        }
    }
}

/// adds a case with one of its spaces replaced; where its parts are
fn place(i: usize, out: &mut Vec<u8>) -> Vec<usize> {
    let s = CASES[i].0.as_bytes();
    let spaces: Vec<usize> = (0..s.len()).filter(|&k| s[k] == b' ' && !CASES[i].0.contains("a b") || k > 3 && s[k - 1] == b'{' && false).collect();
    let (which, gap) = if spaces.is_empty() || sym::param(5) == 1 { (usize::MAX, " ") } else { (spaces[ch(spaces.len().min(3) as u32) as usize], GAPS[ch(GAPS.len() as u32) as usize]) };
    let mut at = vec![];
    for k in 0..s.len() {
        at.push(out.len());
        if k == which { out.extend(gap.as_bytes()); } else { out.push(s[k]); }
    }
    at.push(out.len());
    at
}

struct Want { out: Vec<u8>, errors: u32, warnings: u32 }

fn report(w: &mut Want, level: u32, src: &[u8], i: usize, at: &[usize], traced: bool) {
    for (t, msg, trail) in CASES[i].1 {
        if *t != traced { continue; }
        let warning = msg.starts_with("Warning");
        if warning { w.warnings += 1 } else { w.errors += 1 }
        // All, Warning, Error, IgnoreAll
        if level == 3 || warning && level == 2 { continue; }
        if *t { w.out.extend(b"Traceback (most recent call last):\n"); } else { w.out.extend(msg.as_bytes()); w.out.push(b'\n'); }
        for (o, name) in *trail {
            let (l, c) = line_col(src, at[*o]);
            w.out.extend(b"    File \"name\", line ");
            num(l, &mut w.out);
            w.out.extend(b", col ");
            num(c, &mut w.out);
            if !name.is_empty() { w.out.extend(b", in "); w.out.extend(name.as_bytes()); }
            w.out.push(b'\n');
        }
        if *t { w.out.extend(msg.as_bytes()); w.out.push(b'\n'); }
    }
}

fn plural(n: u32, what: &str, out: &mut Vec<u8>) {
    num(n, out);
    out.push(b' ');
    out.extend(what.as_bytes());
    if n != 1 { out.push(b's'); }
}

fn summary(w: &Want) -> Vec<u8> {
    let mut o = vec![];
    if w.errors > 0 { o.extend(b"failed, "); plural(w.errors, "error", &mut o); o.extend(b", "); plural(w.warnings, "warning", &mut o); }
    else { o.extend(b"OK"); if w.warnings > 0 { o.extend(b", "); plural(w.warnings, "warning", &mut o); } }
    o
}

pub fn run() {
    let lo = sym::param(1) as u32;
    let hi = (sym::param(2) as u32).min(CASES.len() as u32);
    let n = sym::param(3) as u32;
    let level = if sym::param(4) == 1 { ch(4) } else { 1 };
    let mut ctx = Context::new([ReportingLevel::All, ReportingLevel::Warning, ReportingLevel::Error, ReportingLevel::IgnoreAll][level as usize], None, None);
    let mut w = Want { out: vec![], errors: 0, warnings: 0 };
    let mut s = vec![];
    let mut parts: Vec<(usize, Vec<usize>)> = vec![];
    for k in 0..sym::param(0) {
        let i = (lo + ch(hi - lo)) as usize;
        if sym::param(0) > 1 { sym::assume(isolated(i)); }
        // the names must not be in scope already
        for (j, _) in &parts { sym::assume(!(CASES[i].0.contains("@fn f") && CASES[*j].0.contains("@fn f")) && i != *j); }
        prefix(n, &mut s);
        if k > 0 { s.extend(b"\n\n"); }
        parts.push((i, place(i, &mut s)));
    }
    // the parser reports first, then the rest in order of execution
    for (i, at) in &parts { report(&mut w, level, &s, *i, at, false); }
    for (i, at) in &parts { report(&mut w, level, &s, *i, at, true); }
    let src = sym::text(s);
    sym::observe(src.as_bytes());
    let r = ctx.compile_synthetic("name", &src);
    let d = &ctx.diagnostics;
    sym::check(d.num_errors == w.errors && d.num_warnings == w.warnings, 70, "the counts differ");
    sym::check(d.is_empty() == (w.errors + w.warnings == 0), 71, "is_empty differs");
    let sum = summary(&w);
    sym::check(d.summary().as_bytes() == &sum[..], 72, "the summary differs");
    let got = format!("{d:?}").into_bytes();
    sym::observe(&got);
    w.out.extend_from_slice(&sum);
    w.out.push(b'\n');
    // level 0 adds debugging messages
    sym::check(level == 0 || got == w.out, 73, "the report differs");
    sym::check(level == 0 || d.has_any(|_| true) == (w.out.len() > sum.len() + 1), 74, "has_any differs");
    sym::cover((w.errors > 0) as u32);
    ctx.diagnostics.clear();
    sym::check(ctx.diagnostics.is_empty() && ctx.diagnostics.num_errors == 0 && !ctx.diagnostics.has_any(|_| true), 75, "not cleared");
    std::mem::forget(r);
    std::mem::forget(src);
    std::mem::forget(ctx);
}
