//! C13: where output files go. Paths of symbolic components against a
//! model that resolves them lexically.
use crate::sym;
use papyri_lang::compiler::Context;
use papyri_lang::errors::ReportingLevel;
use papyri_lang::utils::OutFiles;

fn ch(n: u32) -> u32 { sym::choose(n) }
type S = Vec<u8>;

pub const BASES: &[&str] = &["out", "o/p", "/o/p", "", ".", "./out", "../out", "out/", "a/../out", "..", "/", "../../o"];

/// the lexical meaning of a path: whether it is absolute, the number of
/// leading `..`, and the names
#[derive(PartialEq)]
pub struct Abs { root: bool, up: usize, names: Vec<S> }

pub fn meaning(p: &[u8], from: Option<&Abs>) -> Abs {
    let root = p.first() == Some(&b'/');
    let mut a = match from { Some(f) if !root => Abs { root: f.root, up: f.up, names: f.names.clone() }, _ => Abs { root, up: 0, names: vec![] } };
    let mut i = 0;
    while i <= p.len() {
        let mut j = i;
        while j < p.len() && p[j] != b'/' { j += 1; }
        let c = &p[i..j];
        if c.is_empty() || c == b"." {}
        else if c == b".." { if a.names.pop().is_none() && !a.root { a.up += 1; } }
        else { a.names.push(c.to_vec()); }
        i = j + 1;
    }
    a
}

/// what is below `base`, if `p` is
pub fn below<'a>(base: &Abs, p: &'a Abs) -> Option<&'a [S]> {
    let n = base.names.len();
    if base.root == p.root && base.up == p.up && p.names.len() >= n && p.names[..n] == base.names[..] { Some(&p.names[n..]) } else { None }
}

/// a path, of symbolic characters or of components
fn path(n: u64) -> S {
    if n < 100 { return (0..n).map(|_| sym::one_of(b"ab./")).collect(); }
    let mut o = vec![];
    if ch(4) == 0 { o.extend(["/", "./", "/o/"][ch(3) as usize].as_bytes()); }
    for i in 0..n - 100 {
        if i > 0 { o.extend(b"/"); if ch(6) == 0 { o.push(b'/'); } }
        match ch(6) { 0 => o.extend(b".."), 1 => o.push(b'.'), 2 => o.push(sym::range(b'a', b'b')), 3 => o.extend(b"out"), 4 => o.extend(b"o/p"), _ => o.extend(b"..a") }
    }
    if ch(4) == 0 { o.push(b'/'); }
    o
}

/// the path a file is written to; None when it is refused
fn target(base: &str, p: &[u8]) -> Option<S> {
    let b = meaning(base.as_bytes(), None);
    let m = meaning(p, Some(&b));
    let rest = below(&b, &m)?;
    let mut t = base.as_bytes().to_vec();
    // the directory itself is spelled with a separator after it
    if !t.is_empty() && !t.ends_with(b"/") { t.push(b'/'); }
    for (i, n) in rest.iter().enumerate() { if i > 0 { t.push(b'/'); } t.extend(n); }
    Some(t)
}

fn direct(bases: u32, n: u64, count: u64) {
    let base = BASES[ch(bases) as usize];
    let mut o = OutFiles::new(base);
    let mut want = vec![];
    let mut ok = true;
    let ps: Vec<S> = (0..count).map(|_| path(n)).collect();
    for (i, p) in ps.iter().enumerate() {
        let t = sym::text(p.clone());
        sym::observe(p);
        let took = o.try_push(&t, i);
        let w = target(base, p);
        sym::cover(w.is_some() as u32);
        sym::check(took == w.is_some(), 70, if took { "a path out of the directory was accepted" } else { "a path in the directory was refused" });
        if let Some(w) = w { want.push((w, i)); }
        std::mem::forget(t);
    }
    sym::check(o.is_empty() == want.is_empty(), 71, "whether there are output files");
    let got: Vec<_> = o.take_iter().collect();
    ok &= got.len() == want.len();
    if ok { for (g, w) in got.iter().zip(&want) { let p = g.0.to_str().unwrap().as_bytes(); sym::observe(p); ok &= meaning(p, None) == meaning(&w.0, None) && g.1 == w.1; } }
    sym::check(ok, 72, "the files are not those asked for");
    sym::check(o.is_empty(), 73, "files were left behind");
}

/// calls in a document
fn language(bases: u32, n: u64, count: u64) {
    let base = BASES[ch(bases) as usize];
    let mut ctx = Context::new(ReportingLevel::Warning, Some(std::path::Path::new(base)), None);
    let mut src = vec![];
    let mut want: Vec<(S, S)> = vec![];
    let mut errors = 0;
    for _ in 0..count {
        let p = path(n);
        let c = sym::range(b'a', b'z');
        let (b, w): (S, S) = match ch(4) { 0 => (vec![c], vec![c]), 1 => ([&b"<p>"[..], &[c], b"</p>"].concat(), [&b"<p>"[..], &[c], b"</p>"].concat()), 2 => (b".".to_vec(), vec![]), _ => ([&b"{"[..], &[c], b"\n\n", &[c], b"}"].concat(), [&b"<p>"[..], &[c], b"</p><p>", &[c], b"</p>"].concat()) };
        src.extend(b"@file::write(`");
        src.extend(&p);
        src.extend(b"`) ");
        src.extend(&b);
        src.extend(b"\n\n");
        match target(base, &p) { Some(t) => want.push((t, w)), None => errors += 1 }
    }
    let t = sym::text(src);
    sym::observe(t.as_bytes());
    let r = ctx.compile_synthetic("t", &t);
    sym::check(r.out.is_empty(), 76, "output of its own");
    let text = format!("{:?}", ctx.diagnostics);
    let told = text.matches("is not within output directory").count();
    sym::check(ctx.diagnostics.num_errors == errors && told == errors as usize, 74, "errors are not those of paths out of the directory");
    let got: Vec<_> = ctx.out_files.as_mut().unwrap().take_iter().collect();
    let mut ok = got.len() == want.len();
    if ok {
        for (g, w) in got.iter().zip(&want) {
            let mut h = vec![];
            ctx.render(&g.1, true, &mut h).unwrap();
            let p = g.0.to_str().unwrap().as_bytes();
            sym::observe(p);
            sym::observe(&h);
            ok &= meaning(p, None) == meaning(&w.0, None) && h == w.1;
        }
    }
    sym::check(ok, 75, "the files are not those written");
    sym::cover((errors == 0) as u32);
    std::mem::forget(got);
    std::mem::forget(r);
    std::mem::forget(t);
    std::mem::forget(ctx);
}

pub fn run() {
    let (bases, n, count) = (sym::param(1) as u32, sym::param(2), sym::param(3));
    if sym::param(0) == 0 { direct(bases, n, count) } else { language(bases, n, count) }
}
