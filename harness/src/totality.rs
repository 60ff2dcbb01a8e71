//! C01: no source text crashes or hangs the compiler.
use crate::{corpus::CORPUS, htmlp, sym, util};

/// Source texts with holes; `\0` is any ASCII byte, `\x01` any character.
const TEMPLATES: &[&str] = &[
    "\0", "\0\0", "\0\0\0", "\0\0\0\0", "\x01", "\x01\x01", "\x01\x01\x01",
];

pub fn fill(t: &str) -> String {
    let mut b: Vec<u8> = Vec::with_capacity(t.len() + 8);
    for c in t.bytes() {
        match c { 0 => b.push(sym::ascii()), 1 => sym::push_char(&mut b), c => b.push(c) }
    }
    sym::text(b)
}

/// one edit of a program: a symbolic character replacing or inserted before
/// the one at a chosen place, a deletion, a cut, or a duplication
pub fn edit(src: &[u8], ops: u64) -> Vec<u8> {
    let n = src.len() as u32;
    let mut k = sym::choose(ops.count_ones());
    let mut op = 0;
    while k > 0 || ops >> op & 1 == 0 { if ops >> op & 1 == 1 { k -= 1; } op += 1; }
    let at = sym::choose(n) as usize;
    // the place is a character boundary
    let mut b = src[..at].to_vec();
    match op {
        0 => { b.push(sym::ascii()); b.extend(&src[at + 1..]); }
        1 => { b.push(sym::ascii()); b.extend(&src[at..]); }
        2 => { sym::push_wide(&mut b); b.extend(&src[at + 1..]); }
        3 => b.extend(&src[at + 1..]),
        4 => {}
        5 => { let l = (src.len() - at).min(6); b.extend(&src[at..at + l]); b.extend(&src[at..]); }
        _ => { b.push(sym::ascii()); b.push(sym::ascii()); b.extend(&src[at + 1..]); }
    }
    b
}

pub fn run() {
    let mut ctx = util::ctx();
    let strict = sym::param(4) == 1;
    let src = match sym::param(0) {
        0 => fill(TEMPLATES[sym::param(1) as usize]),
        // programs param 1 .. param 2, edited by the operations in param 3
        _ => {
            let (from, to) = (sym::param(1), (sym::param(2)).min(CORPUS.len() as u64));
            let k = from + sym::choose((to - from) as u32) as u64;
            let src = CORPUS[k as usize].as_bytes();
            sym::text(if sym::param(3) == 0 { src.to_vec() } else { edit(src, sym::param(3)) })
        }
    };
    sym::observe(src.as_bytes());
    let r = ctx.compile_synthetic("t", &src);
    let out = util::render(&ctx, &r.out);
    sym::observe(&out);
    if ctx.diagnostics.is_empty() {
        sym::cover(0);
        if strict { sym::check(htmlp::tree(&out).is_some(), 1, "the output is not well-formed markup"); }
    } else {
        sym::cover(1);
        let s = ctx.diagnostics.summary();
        sym::check(s != "", 2, "no summary of the diagnostics");
        std::mem::forget(s);
    }
    std::mem::forget(r);
    std::mem::forget(ctx);
}
