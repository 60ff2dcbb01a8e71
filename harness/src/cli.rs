//! C22: the command-line tool, run on a small tree of files, once or twice.
use crate::refi::decimal;
use crate::sym;

mod program {
    include!("/repo/src/bin/papyri.rs");
    pub fn go() { let _: () = main(); }
}

static mut ARGS: Vec<String> = vec![];
#[no_mangle]
pub fn verif_args() -> Vec<String> { unsafe { (*std::ptr::addr_of!(ARGS)).clone() } }

pub fn tool(args: Vec<&str>) -> i32 {
    for a in &args { sym::observe(a.as_bytes()); }
    unsafe { ARGS = args.iter().map(|s| s.to_string()).collect(); }
    sym::program(program::go)
}

fn ch(n: u32) -> u32 { sym::choose(n) }
/// one of those in `mask`
fn some(n: u32, mask: u64) -> u32 {
    let k = (0..n).filter(|k| mask >> k & 1 == 1).count() as u32;
    let c = ch(k);
    (0..n).filter(|k| mask >> k & 1 == 1).nth(c as usize).unwrap()
}
type B = Vec<u8>;

/// the source files, and their output files without extension
const FILES: [(&str, &str); 7] = [("a.papyri", "a"), ("b.papyri", "b"), ("d/a.papyri", "d/a"), ("l.lib.papyri", ""), ("d/E.v1.PAPYRI", "d/E.v1"), ("d/M.Lib.Papyri", ""), ("n.txt", "")];

/// arguments and the files they name
const WHICH: [(&[&str], &[usize]); 20] = [
    (&[], &[0, 1, 2, 3, 4, 5]),
    (&["a.papyri"], &[0]),
    (&["b.papyri", "a.papyri", "b.papyri"], &[0, 1]),
    (&["d"], &[2, 4, 5]),
    (&["*.papyri"], &[0, 1, 3]),
    (&["."], &[0, 1, 2, 3, 4, 5]),
    (&["./"], &[0, 1, 2, 3, 4, 5]),
    (&["d/", "d/a.papyri"], &[2, 4, 5]),
    (&["?.papyri", "a.papyri"], &[0, 1]),
    (&["d/*"], &[2, 4, 5]),
    (&["**/*.papyri"], &[0, 1, 2, 3]),
    (&["[ac].papyri"], &[0]),
    (&["n.txt"], &[]),
    (&["zz", "a.papyri"], &[0]),
    (&["l.lib.papyri"], &[3]),
    (&["d/../a.papyri"], &[0]),
    (&["../w/b.papyri"], &[1]),
    (&["d/E.v1.PAPYRI", "d/M.Lib.Papyri"], &[4, 5]),
    (&["z*.papyri"], &[]),
    (&["zz.papyri"], &[99]),
];

/// what a source file has in it
#[derive(Clone, Copy, PartialEq)]
enum K { Text, Nothing, Error, Warning, Write, WriteError, Id, Include, Binary }
use K::*;
const KINDS: [K; 9] = [Text, Nothing, Error, Warning, Write, WriteError, Id, Include, Binary];

fn source(k: K, c: u8, up: bool) -> B {
    let mut o: B = vec![];
    match k {
        Text => {}
        Nothing => return b"@export(x=1).\n".to_vec(),
        Error => o.extend(b"$zz\n\n"),
        Warning => o.extend(b"@export(x=1).\n\n@export(x=2).\n\n"),
        Write => o.extend(b"@file::write(`w/v`) z\n\n"),
        WriteError => o.extend(b"@file::write(`w/v`) z\n\n$zz\n\n"),
        Id => o.extend(b"@str::unique_id `t`\n\n"),
        Include => o.extend(if up { &b"@include `../l.lib`\n\n$i\n\n"[..] } else { &b"@include `l.lib`\n\n$i\n\n"[..] }),
        Binary => o.extend(b"\xff"),
    }
    o.push(c);
    o
}

/// paragraphs
fn output(ps: &[B], text: bool) -> B {
    let mut o = vec![];
    for p in ps {
        o.extend(if text { &b""[..] } else { b"<p>" });
        o.extend(p);
        o.extend(if text { &b"\n\n"[..] } else { b"</p>" });
    }
    o
}

struct Src { k: K, c: u8, time: u64 }
/// files that are not source files, with their times
type Tree = Vec<(String, B, u64)>;

struct Run { unchanged: bool, silent: bool, ignore: bool, text: bool, out: Option<&'static str>, which: usize, forms: u32, fault: u32 }

impl Run {
    fn args(&self) -> Vec<&'static str> {
        let mut a = vec![];
        let f = |i: u32| self.forms >> i & 1 == 1;
        if f(3) { a.extend(WHICH[self.which].0); }
        if self.unchanged { a.push(if f(0) { "-u" } else { "--skip-unchanged" }); }
        if self.silent { a.push(if f(1) { "-s" } else { "--silent" }); }
        if self.ignore { a.push("--ignore-warnings"); }
        if self.text { a.push(if f(2) { "-t" } else { "--text" }); }
        if let Some(o) = self.out { a.push(if f(0) { "-o" } else { "--out" }); a.push(o); }
        if !f(3) { a.extend(WHICH[self.which].0); }
        a
    }
}

/// the directory of output files as it is in the tree
fn place(o: &str) -> &str { match o { "./o" | "o/" => "o", "d/../o" => "o", o => o } }

fn has<'a>(t: &'a Tree, p: &str) -> Option<&'a (String, B, u64)> { t.iter().find(|x| x.0 == p) }
fn put(t: &mut Tree, p: String, b: B) {
    match t.iter_mut().find(|x| x.0 == p) { Some(x) => { x.1 = b; x.2 = u64::MAX / 2; } None => t.push((p, b, u64::MAX / 2)) }
}

/// runs the tool and compares what it did with what it should do
fn job(src: &[Src], tree: &mut Tree, r: &Run) {
    let code = tool(r.args());
    let printed = sym::stdout();
    sym::observe(&printed);
    sym::observe(&[code as u8]);
    let (mut ok, mut failed, mut skipped, mut written) = (0, 0, 0, 0);
    let mut fatal = false;
    let mut quiet = true;
    let mut lib = vec![vec![src[3].c]];
    if src[3].k == Nothing { lib.clear(); }
    let mut after: Tree = tree.clone();
    for &i in WHICH[r.which].1 {
        if i == 99 { fatal = true; continue; }
        if FILES[i].1.is_empty() { skipped += 1; continue; }
        let s = &src[i];
        let mut p = String::new();
        if let Some(o) = r.out { p.push_str(place(o)); p.push('/'); }
        p.push_str(FILES[i].1);
        p.push_str(if r.text { ".txt" } else { ".html" });
        if r.unchanged { if let Some(x) = has(tree, &p) { if s.time <= x.2 { skipped += 1; continue; } } }
        let mut ps: Vec<B> = vec![vec![s.c]];
        let mut error = false;
        let mut write = false;
        match s.k {
            Binary => { fatal = true; continue }
            Text => {}
            Nothing => ps.clear(),
            Error => error = true,
            Warning => quiet = false,
            Write | WriteError => { if r.out.is_none() || s.k == WriteError { error = true; } else { write = true; } }
            Id => ps.insert(0, b"t".to_vec()),
            Include => { ps.insert(0, b"7".to_vec()); let mut l = lib.clone(); l.append(&mut ps); ps = l; }
        }
        if error { failed += 1; quiet = false; continue; }
        if ps.is_empty() && !write { skipped += 1; continue; }
        if r.fault == 2 && r.out.is_some() { fatal = true; continue; }
        if write { put(&mut after, format!("{}/w/v", place(r.out.unwrap())), b"z".to_vec()); written += 1; }
        // where it should go there is a directory, or a file for a directory
        if r.fault == 1 && i == 0 && !ps.is_empty() { fatal = true; continue; }
        if !ps.is_empty() { put(&mut after, p, output(&ps, r.text)); written += 1; }
        ok += 1;
    }
    if fatal {
        // what was not compiled any more is as it was
        sym::check(code != 0, 80, "a source file could not be read but the exit status is zero");
        sym::cover(3);
        if !failed_tree(&after, tree, r) { sym::check(false, 81, "a file has other contents than it had or should have"); }
        return;
    }
    sym::check((code == 0) == (failed == 0), 82, "the exit status does not tell whether all sources were compiled");
    sym::check(code == 0 || code == 1, 83, "exit status");
    sym::cover((failed > 0) as u32);
    sym::cover(if written > 0 { 2 } else { 4 });
    // the files
    *tree = after;
    let mut same = true;
    for (p, b, _) in tree.iter() { same &= read(p).as_ref() == Some(b); }
    sym::check(same, 84, "an output file is missing or has other contents");
    let mut n = 0;
    same = true;
    walk("", &mut |p| { n += 1; same &= FILES.iter().any(|f| f.0 == p) || has(tree, p).is_some(); });
    sym::check(same && n == tree.len() + 7, 85, "there are files that should not be there");
    if r.silent {
        sym::check(!quiet || printed.is_empty(), 86, "silent but not quiet");
    } else if failed == 0 {
        let mut want: B = b"\n".to_vec();
        decimal(written, "-", &mut want);
        want.extend(b" file");
        if written != 1 { want.push(b's'); }
        want.extend(b" written; ");
        decimal(ok, "-", &mut want);
        want.extend(b" OK, ");
        decimal(failed, "-", &mut want);
        want.extend(b" failed, ");
        decimal(skipped, "-", &mut want);
        want.extend(b" skipped\n");
        sym::check(printed.ends_with(&want) || printed == &want[1..], 87, "the summary has other numbers");
    }
}

fn read(p: &str) -> Option<B> {
    let b = std::fs::read(p).ok();
    sym::observe(p.as_bytes());
    if let Some(b) = &b { sym::observe(b); }
    b
}

/// every output file is as it was or as it should be
fn failed_tree(after: &Tree, before: &Tree, r: &Run) -> bool {
    let mut good = true;
    for (p, b, _) in after {
        let got = read(p);
        good &= got.as_ref() == Some(b) || got.as_ref() == has(before, p).map(|x| &x.1);
    }
    let _ = r;
    walk("", &mut |p| good &= FILES.iter().any(|f| f.0 == p) || has(after, p).is_some());
    good
}

fn walk(d: &str, f: &mut dyn FnMut(&str)) {
    let mut es: Vec<_> = std::fs::read_dir(if d.is_empty() { "." } else { d }).unwrap().map(|e| e.unwrap()).collect();
    es.sort_by_key(|e| e.file_name());
    for e in es {
        let n = e.file_name();
        let p = if d.is_empty() { n.to_str().unwrap().to_string() } else { format!("{d}/{}", n.to_str().unwrap()) };
        sym::observe(p.as_bytes());
        if e.file_type().unwrap().is_dir() { walk(&p, f) } else { f(&p) }
    }
}

/// params: kind; which arguments (mask); options (mask of 16: unchanged 1,
/// silent 2, ignore 4, text 8 that may be given); output directories (mask of
/// 5); kinds of a, b and c (masks of 9); times; a second run;
/// faults of the file system
fn files() {
    let which = some(20, sym::param(1)) as usize;
    let may = sym::param(2);
    let opt = |k: u64| may & k != 0 && ch(2) == 1;
    let outs = [None, Some("o"), Some("./o"), Some("o/"), Some("d/p"), Some("d/../o")];
    let mut r = Run { unchanged: opt(1), silent: opt(2), ignore: opt(4), text: opt(8), out: outs[some(6, sym::param(3)) as usize], which, forms: if may & 16 != 0 { ch(16) } else { 15 }, fault: if sym::param(9) == 1 { ch(3) } else { 0 } };
    let masks = [sym::param(4), sym::param(5), sym::param(6)];
    let times = sym::param(7);
    let mut src: Vec<Src> = (0..7).map(|i| Src { k: if i < 3 { KINDS[some(9, masks[i]) as usize] } else { Text }, c: if i == 0 { sym::range(b'a', b'b') } else { b'a' + i as u8 }, time: 5 }).collect();
    let mut tree: Tree = vec![];
    sym::fs_begin();
    for (i, s) in src.iter_mut().enumerate() {
        let mut b = source(s.k, s.c, i == 2);
        if i == 3 { b.extend(b"\n\n@export(i=7)."); }
        // outputs of an earlier time
        if times & (1 << i) != 0 {
            s.time = 4 + ch(3) as u64;
            let mut p = r.out.map_or(String::new(), |o| format!("{}/", place(o)));
            p.push_str(FILES[i].1);
            p.push_str(if r.text { ".txt" } else { ".html" });
            // and of the other format, never wanted
            let other = format!("{}{}", p.rsplit_once('.').unwrap().0, if r.text { ".html" } else { ".txt" });
            sym::file(&p, b"old", 5);
            sym::file(&other, b"other", 7);
            tree.push((p, b"old".to_vec(), 5));
            tree.push((other, b"other".to_vec(), 7));
        }
        sym::observe(FILES[i].0.as_bytes());
        sym::observe(&b);
        sym::file(FILES[i].0, &b, s.time);
    }
    match r.fault {
        1 => sym::dir(&format!("{}a.{}", r.out.map_or(String::new(), |o| format!("{}/", place(o))), if r.text { "txt" } else { "html" })),
        2 => { sym::file("o", b"old", 5); tree.push(("o".into(), b"old".to_vec(), 5)); }
        _ => {}
    }
    job(&src, &mut tree, &r);
    if sym::param(8) == 1 {
        // a source has changed, was touched or is older, then again
        let i = ch(2) as usize;
        src[i] = Src { k: KINDS[some(9, masks[i]) as usize], c: b'k', time: [4, 4_000_000_000][ch(2) as usize] };
        // what was written has the time when it was
        for t in &mut tree { if t.2 > 10 { t.2 = 3_000_000_000; } }
        sym::file(FILES[i].0, &source(src[i].k, src[i].c, i == 2), src[i].time);
        r.unchanged = opt(1);
        job(&src, &mut tree, &r);
    }
    sym::fs_end();
}

/// the standard input
fn stdin() {
    let k = KINDS[some(9, sym::param(1)) as usize];
    let c = sym::range(b'a', b'j');
    let text = ch(2) == 1;
    let bad = ch(4);
    sym::fs_begin();
    let b = source(k, c, false);
    sym::observe(&b);
    sym::stdin(&b);
    sym::file("l.lib.papyri", b"l\n\n@export(i=7).", 1);
    let mut args = vec![if ch(2) == 0 { "-i" } else { "--stdin" }];
    if text { args.push("-t"); }
    match bad { 1 => args.push("l.lib.papyri"), 2 => args.extend(["-o", "o"]), 3 => args.push("--ignore-warnings"), _ => {} }
    let code = tool(args);
    let printed = sym::stdout();
    sym::observe(&printed);
    sym::observe(&[code as u8]);
    let refused = bad == 1 || bad == 2;
    let ps: Option<Vec<B>> = if refused { None } else {
        match k {
            Text => Some(vec![vec![c]]),
            Nothing => Some(vec![]),
            Error | Write | WriteError | Binary => None,
            // unspecified
            Warning => { sym::fs_end(); return }
            Id => Some(vec![b"t".to_vec(), vec![c]]),
            Include => Some(vec![b"l".to_vec(), b"7".to_vec(), vec![c]]),
        }
    };
    match ps {
        Some(ps) => { sym::check(code == 0 && printed == output(&ps, text), 88, "the output of the standard input") }
        None => { sym::check(code == 1 && printed.is_empty(), 89, "a failure was not told or printed something") }
    }
    sym::cover((code != 0) as u32);
    let mut n = 0;
    walk("", &mut |_| n += 1);
    sym::check(n == 1, 90, "files were written");
    sym::fs_end();
}

pub fn run() { if sym::param(0) == 0 { files() } else { stdin() } }
