//! C14: modules. A project of a few files, each a few statements in
//! paragraphs of their own, against a reference loader.
use crate::refi::{decimal, normal, render, H};
use crate::sym;
use papyri_lang::compiler::{Context, Value};
use papyri_lang::errors::ReportingLevel;

fn ch(n: u32) -> u32 { sym::choose(n) }

/// main, a, b, a directory with the name of a module
#[derive(Clone, Copy, PartialEq)]
enum F { M, A, B, X, C, T, DT, U, DX }
const PATHS: [&str; 5] = ["m.papyri", "a.papyri", "d/b.papyri", "x.papyri", "d/C.PAPYRI"];

#[derive(Clone, Copy)]
enum S {
    Text(u8),
    Export(u8, u8),
    /// exports a function whose value is `$x` where it is written
    Func,
    Call,
    Use,
    Include(&'static str),
    Import(&'static str),
    Id,
    Write(u8),
    ImportCall(&'static str),
    Read(&'static str),
    List(&'static str),
    /// exports a function that reads the file `t` beside it
    Reader,
    CallReader,
}

/// from the current directory, and from `d`
const SPELL: [&[&str]; 2] = [
    &["a", "d/b", "m", "x", "a.n", "a.papyri", "./a", "d/../a", "l", "d/./b.papyri", "./d//b", "d/k"],
    &["../a", "b", "../m", "../x", "a", "../a.papyri", "./../a", "../d/../a", "../l", "./b.papyri", ".././d/b", "k"],
];

const READ: &[&str] = &["t", "./t", "d/t", "../t", "d/../t", "u", "../u", "n", "x.papyri", "../x.papyri"];
const LIST: [&[&str]; 2] = [
    &[".", "./", "d", "d/", "./d//", "../w", "n", "a.papyri", "x.papyri"],
    &["..", "../", ".", "../d/", ".././d", "../../w", "../n", "b.papyri", "../x.papyri"],
];

fn file_statement(mask: u64, d: bool) -> S {
    let k = ch(7);
    sym::assume(mask & (1 << k) != 0);
    match k {
        0 => S::Include(SPELL[d as usize][ch(2) as usize]),
        1 => S::Reader,
        2 => S::CallReader,
        3 => S::List(LIST[d as usize][ch(9) as usize]),
        4 => S::Read(READ[ch(READ.len() as u32) as usize]),
        5 => S::Text(sym::range(b'p', b's')),
        _ => S::Include(if d { "C.PAPYRI" } else { "d/C.PAPYRI" }),
    }
}

fn statement(mask: u64, spells: u32, d: bool) -> S {
    let k = ch(10);
    sym::assume(mask & (1 << k) != 0);
    let path = || SPELL[d as usize][ch(spells) as usize];
    match k {
        0 => S::Include(path()),
        1 => S::Import(path()),
        2 => S::Export(b'x', sym::digit()),
        3 => S::Use,
        4 => S::Text(sym::range(b'p', b's')),
        5 => S::Id,
        6 => S::Func,
        7 => S::Call,
        8 => S::Write(sym::range(b'p', b's')),
        _ => S::ImportCall(path()),
    }
}

fn source(ss: &[S]) -> Vec<u8> {
    let mut o = vec![];
    for s in ss {
        match *s {
            S::Text(c) => o.push(c),
            S::Export(n, d) => { o.extend(b"@export("); o.push(n); o.push(b'='); o.push(d); o.extend(b").") }
            S::Func => o.extend(b"@export @fn g . -> [$x]"),
            S::Call => o.extend(b"@g."),
            S::Use => o.extend(b"$x"),
            S::Include(p) => { o.extend(b"@include `"); o.extend(p.as_bytes()); o.push(b'`') }
            S::Import(p) => { o.extend(b"@let(m=@import `"); o.extend(p.as_bytes()); o.extend(b"`) $m::x") }
            S::Id => o.extend(b"@str::unique_id `t`"),
            S::Write(c) => { o.extend(b"@file::write(`w`) "); o.push(c) }
            S::Read(p) => { o.extend(b"@file::read `"); o.extend(p.as_bytes()); o.push(b'`') }
            S::List(p) => { o.extend(b"@list::join(`,`) @file::list `"); o.extend(p.as_bytes()); o.push(b'`') }
            S::Reader => o.extend(b"@export @fn h . -> @file::read `t`"),
            S::CallReader => o.extend(b"@h."),
            S::ImportCall(p) => { o.extend(b"@let(m=@import `"); o.extend(p.as_bytes()); o.extend(b"`) @m::g.") }
        }
        o.extend(b"\n\n");
    }
    o
}

#[derive(Clone)]
enum V { Int(u8), Func(usize) }
type Names = Vec<(u8, V)>;
#[derive(Clone)]
struct Out { out: Vec<H>, exports: Names }
#[derive(Clone)]
enum State { Busy, Error, Loaded(Out) }

struct Loader<'a> {
    files: &'a [(F, Vec<S>)],
    states: Vec<(F, State)>,
    ids: u32,
    diags: Vec<Vec<u8>>,
    errors: u32,
    warnings: u32,
    /// the variables of each module compiled, and where it is
    frames: Vec<(Vec<u8>, Names)>,
    written: Vec<u8>,
    /// the contents of `t` and `d/t`
    texts: [Vec<u8>; 2],
}

fn get(ns: &Names, n: u8) -> Option<V> { ns.iter().find(|x| x.0 == n).map(|x| x.1.clone()) }
fn set(ns: &mut Names, n: u8, v: V) -> bool { for x in ns.iter_mut() { if x.0 == n { x.1 = v; return true; } } ns.push((n, v)); false }

fn line(i: usize) -> usize { 2 * i + 1 }

impl Loader<'_> {
    fn place(&self, path: &[u8], i: usize) -> Vec<u8> {
        let mut o = b"    File \"".to_vec();
        o.extend(path);
        o.extend(b"\", line ");
        decimal(line(i) as i64, "-", &mut o);
        o.extend(b", col ");
        o
    }
    fn error(&mut self, places: Vec<Vec<u8>>, msg: &[u8]) {
        self.errors += 1;
        self.diags.push(b"Traceback (most recent call last):".to_vec());
        self.diags.extend(places);
        self.diags.push(msg.to_vec());
    }
    fn warn(&mut self, place: Vec<u8>, msg: &[u8]) {
        self.warnings += 1;
        self.diags.push(msg.to_vec());
        self.diags.push(place);
    }

    /// the file at `path` from the file at `from`; its path
    fn find(from: &[u8], path: &[u8]) -> (Vec<u8>, Option<F>) {
        let mut p = match from.iter().rposition(|c| *c == b'/') { Some(i) => from[..i].to_vec(), None => vec![] };
        // the directory of a path has no trailing separators or dots
        loop {
            if p.ends_with(b"/") { p.pop(); } else if p.ends_with(b"/.") { p.truncate(p.len() - 2); } else { break; }
        }
        if !p.is_empty() { p.push(b'/'); }
        p.extend(path);
        let mut parts: Vec<&[u8]> = vec![b"w"];
        for c in p.split(|c| *c == b'/') {
            match c {
                b"" | b"." => {}
                c => {
                    // only directories have anything in them
                    if !matches!(&parts.join(&b"/"[..])[..], b"w" | b"w/d" | b"w/x.papyri" | b"") { return (p, None); }
                    if c == b".." { parts.pop(); } else { parts.push(c); }
                }
            }
        }
        let f = match &parts.join(&b"/"[..])[..] {
            b"w/m.papyri" => Some(F::M), b"w/a.papyri" | b"w/l.papyri" => Some(F::A), b"w/d/b.papyri" | b"w/d/k.papyri" => Some(F::B), b"w/x.papyri" => Some(F::X),
            b"w/d/C.PAPYRI" => Some(F::C), b"w/t" => Some(F::T), b"w/d/t" => Some(F::DT), b"w/u" => Some(F::U), b"w" => Some(F::DX), b"w/d" => Some(F::DX),
            _ => None,
        };
        (p, f)
    }
    fn read(&mut self, from: &[u8], path: &str, at: Vec<Vec<u8>>, o: &mut Out) {
        let why = match Self::find(from, path.as_bytes()).1 {
            Some(F::T) => { o.out.push(H::El(b"p".to_vec(), vec![], vec![H::Text(self.texts[0].clone())])); return }
            Some(F::DT) => { o.out.push(H::El(b"p".to_vec(), vec![], vec![H::Text(self.texts[1].clone())])); return }
            Some(F::X) => "Is a directory (os error 21)",
            Some(F::U) => "stream did not contain valid UTF-8",
            _ => "No such file or directory (os error 2)",
        };
        self.error(at, format!("Runtime error: failed to read file \"{path}\" ({why})").as_bytes());
    }

    fn load(&mut self, from: &[u8], path: &str) -> Result<Out, Vec<u8>> {
        let mut file = path.as_bytes().to_vec();
        if !path.ends_with(".papyri") && !path.ends_with(".PAPYRI") { file.extend(b".papyri"); }
        let (p, f) = Self::find(from, &file);
        let msg = |m: &str| { let mut o = b"Module error: ".to_vec(); o.extend(m.as_bytes()); o.extend(b" in \""); o.extend(&p); o.push(b'"'); o };
        let Some(f) = f else { return Err(msg("No such file or directory (os error 2)")); };
        match self.states.iter().find(|s| s.0 == f) {
            Some((_, State::Busy)) => return Err(msg("circular import detected")),
            Some((_, State::Error)) => return Err(msg("previous error")),
            Some((_, State::Loaded(o))) => return Ok(o.clone()),
            None => {}
        }
        let k = self.states.len();
        self.states.push((f, State::Busy));
        if f == F::X {
            self.states[k].1 = State::Error;
            return Err(msg("Is a directory (os error 21)"));
        }
        let o = self.run(f, &p, false);
        self.states[k].1 = State::Loaded(o.clone());
        Ok(o)
    }

    fn value(&mut self, v: Option<V>, at: Vec<Vec<u8>>) -> Option<H> {
        match v {
            Some(V::Int(d)) => Some(H::El(b"p".to_vec(), vec![], vec![H::Text(vec![d])])),
            Some(V::Func(_)) => { self.error(at, b"Type error: expected html, was function"); None }
            None => { self.error(at, b"Name error: no such variable 'x'"); None }
        }
    }

    fn run(&mut self, f: F, path: &[u8], main: bool) -> Out {
        let stmts = self.files.iter().find(|x| x.0 == f).map(|x| x.1.clone()).unwrap_or_default();
        let me = self.frames.len();
        self.frames.push((path.to_vec(), vec![]));
        let mut o = Out { out: vec![], exports: vec![] };
        for (i, s) in stmts.iter().enumerate() {
            let at = self.place(path, i);
            match *s {
                S::Text(c) => o.out.push(H::El(b"p".to_vec(), vec![], vec![H::Text(vec![c])])),
                S::Export(n, d) => self.export(&mut o, n, V::Int(d), at),
                S::Func => {
                    // the line of its body
                    let v = V::Func(me << 8 | i);
                    self.export(&mut o, b'g', v.clone(), at.clone());
                    self.bind(me, b'g', v, at);
                }
                S::Call => { let v = get(&self.frames[me].1, b'g'); self.call(v, at, &mut o) }
                S::Use => { let v = get(&self.frames[me].1, b'x'); let h = self.value(v, vec![at]); o.out.extend(h); }
                S::Include(p) => match self.load(path, p) {
                    Ok(m) => {
                        for (n, v) in m.exports { self.bind(me, n, v, at.clone()); }
                        o.out.extend(m.out);
                    }
                    Err(msg) => self.error(vec![at], &msg),
                },
                S::Import(p) => match self.load(path, p) {
                    Ok(m) => match get(&m.exports, b'x') {
                        None => self.error(vec![at], b"Name error: value of type '"),
                        v => { let h = self.value(v, vec![at]); o.out.extend(h); }
                    },
                    Err(msg) => self.error(vec![at], &msg),
                },
                S::Id => {
                    self.ids += 1;
                    let mut t = b"t".to_vec();
                    if self.ids > 1 { t.push(b'_'); decimal(self.ids as i64, "-", &mut t); }
                    o.out.push(H::El(b"p".to_vec(), vec![], vec![H::Text(t)]));
                }
                S::Write(c) => if main { self.written.push(c) } else { self.error(vec![at], b"Runtime error: no output directory for '@file::write'; use '--out'") },
                S::Read(p) => self.read(path, p, vec![at], &mut o),
                S::List(p) => {
                    let (whole, f) = Self::find(path, p.as_bytes());
                    let names: &[&str] = match f {
                        // what is in it is told from the spelling
                        Some(F::DX) => if p.contains('d') || p == "." && path.starts_with(b"d/b") || p == "." && path.starts_with(b"./d") { &["C.PAPYRI", "b"] } else { &["a", "d/C.PAPYRI", "d/b", "m", "x.papyri/y"] },
                        Some(F::X) => &["y"],
                        Some(_) => &[],
                        None => {
                            self.errors += 1;
                            let mut m = b"Module error: No such file or directory (os error 2) in \"".to_vec();
                            m.extend(whole);
                            m.push(b'"');
                            self.diags.push(m);
                            self.diags.push(at);
                            continue;
                        }
                    };
                    let base = p.trim_end_matches('/');
                    let all: Vec<String> = names.iter().map(|n| format!("{base}/{n}")).collect();
                    if !all.is_empty() { o.out.push(H::El(b"p".to_vec(), vec![], vec![H::Text(all.join(",").into_bytes())])); }
                }
                S::Reader => {
                    let v = V::Func(me << 8 | i);
                    self.export(&mut o, b'h', v.clone(), at.clone());
                    self.bind(me, b'h', v, at);
                }
                S::CallReader => match get(&self.frames[me].1, b'h') {
                    Some(V::Func(k)) => {
                        let of = self.frames[k >> 8].0.clone();
                        let inner = self.place(&of, k & 255);
                        self.read(&of, "t", vec![at, inner], &mut o);
                    }
                    _ => self.error(vec![at], b"Name error: no such variable 'h'"),
                },
                S::ImportCall(p) => match self.load(path, p) {
                    Ok(m) => match get(&m.exports, b'g') {
                        None => self.error(vec![at], b"Name error: value of type '"),
                        v => self.call(v, at, &mut o),
                    },
                    Err(msg) => self.error(vec![at], &msg),
                },
            }
        }
        o
    }
    fn call(&mut self, f: Option<V>, at: Vec<u8>, o: &mut Out) {
        match f {
            Some(V::Func(k)) => {
                let (of, j) = (k >> 8, k & 255);
                let inner = self.place(&self.frames[of].0.clone(), j);
                match get(&self.frames[of].1, b'x') {
                    Some(V::Int(d)) => o.out.push(H::El(b"ul".to_vec(), vec![], vec![H::El(b"li".to_vec(), vec![], vec![H::Text(vec![d])])])),
                    Some(V::Func(_)) => {}
                    None => self.error(vec![at, inner], b"Name error: no such variable 'x'"),
                }
            }
            _ => self.error(vec![at], b"Name error: no such variable 'g'"),
        }
    }
    fn export(&mut self, o: &mut Out, n: u8, v: V, at: Vec<u8>) {
        if set(&mut o.exports, n, v) { self.warn(at, &[b"Warning: name '", &[n][..], b"' already exported"].concat()); }
    }
    fn bind(&mut self, me: usize, n: u8, v: V, at: Vec<u8>) {
        if set(&mut self.frames[me].1, n, v) { self.warn(at, &[b"Warning: name '", &[n][..], b"' already declared"].concat()); }
    }
}

/// compiles main and compares with the reference
fn job(ctx: &mut Context, files: &[(F, Vec<S>)], main: F, texts: &[Vec<u8>; 2]) {
    let path = PATHS[main as usize];
    let mut l = Loader { files, states: vec![], ids: 0, diags: vec![], errors: 0, warnings: 0, frames: vec![], written: vec![], texts: texts.clone() };
    let want = l.run(main, path.as_bytes(), true);
    for (f, ss) in files {
        let s = source(ss);
        sym::observe(PATHS[*f as usize].as_bytes());
        sym::observe(&s);
    }
    let Ok(r) = ctx.load_uncached(std::path::Path::new(path)) else { sym::check(false, 60, "main was not read"); return };
    let mut html = vec![];
    ctx.render(&r.out, true, &mut html).unwrap();
    sym::observe(&html);
    let mut w = vec![];
    render(&normal(want.out), &mut w);
    let _ = &w;
    sym::check(html == w, 61, "the content differs from the reference");
    let text = format!("{:?}", ctx.diagnostics);
    sym::observe(text.as_bytes());
    sym::check(ctx.diagnostics.num_errors == l.errors && ctx.diagnostics.num_warnings == l.warnings, 62, "the number of diagnostics differs from the reference");
    let lines: Vec<&[u8]> = text.as_bytes().split(|c| *c == b'\n').collect();
    let mut same = lines.len() == l.diags.len() + 2;
    if same { for (g, w) in lines.iter().zip(&l.diags) { same &= g.starts_with(w) && (w.is_empty() == g.is_empty()); } }
    sym::check(same, 63, "the diagnostics differ from the reference");
    let mut ok = r.exports.len() == want.exports.len();
    if ok { for (g, w) in r.exports.values().zip(&want.exports) { ok &= match (g, &w.1) { (Value::Int(i), V::Int(d)) => *i == (*d - b'0') as i64, (Value::Func(_), V::Func(_)) => true, _ => false }; } }
    sym::check(ok, 64, "the exports differ from the reference");
    let files: Vec<_> = ctx.out_files.as_mut().map_or(vec![], |o| o.take_iter().collect());
    let mut ok = files.len() == l.written.len();
    if ok {
        for ((p, h), w) in files.iter().zip(&l.written) {
            let mut t = vec![];
            ctx.render(h, true, &mut t).unwrap();
            ok &= p.to_str() == Some("o/w") && t.iter().eq([*w].iter());
        }
    }
    sym::check(ok, 65, "the output files differ from the reference");
    sym::cover((l.errors > 0) as u32);
    std::mem::forget(files);
    std::mem::forget(r);
}

pub fn run() {
    let mut ctx = Context::new(ReportingLevel::Warning, Some(std::path::Path::new("o")), None);
    let _ = ctx.compile_synthetic("t", "a-b");
    let n = [sym::param(0), sym::param(1), sym::param(2)];
    let mask = sym::param(3);
    let spells = sym::param(4) as u32;
    let again = sym::param(5);
    let more = sym::param(6) == 1;
    let text = || vec![sym::one_of(b"a<&"), b'!'];
    let texts = if more { [text(), text()] } else { [vec![], vec![]] };
    let mut some = |k: usize| (0..n[k]).map(|_| if more { file_statement(mask >> (10 * k) & 1023, k == 2) } else { statement(mask >> (10 * k) & 1023, spells, k == 2) }).collect::<Vec<_>>();
    let mut files = vec![(F::M, some(0)), (F::A, some(1)), (F::B, some(2))];
    sym::fs_begin();
    for (f, ss) in &files { sym::file(PATHS[*f as usize], &source(ss), 1); }
    if more {
        files.push((F::C, vec![S::Text(b'c')]));
        sym::file(PATHS[F::C as usize], &source(&files[3].1), 1);
        sym::file("t", &texts[0], 1);
        sym::file("d/t", &texts[1], 1);
        sym::file("u", b"a\xffb", 1);
        sym::file("x.papyri/y.papyri", b"", 1);
    } else {
        sym::dir(PATHS[3]);
    }
    sym::link("l.papyri", "a.papyri");
    sym::link("d/k.papyri", "b.papyri");
    job(&mut ctx, &files, F::M, &texts);
    match again {
        // the same again
        1 => { ctx.reset(); job(&mut ctx, &files, F::M, &texts) }
        // another file is the main one
        2 => { ctx.reset(); job(&mut ctx, &files, F::A, &texts) }
        // one of the modules has changed
        3 => {
            files[1].1 = vec![S::Export(b'x', sym::digit()), S::Text(b'z')];
            sym::file(PATHS[1], &source(&files[1].1), 2);
            ctx.reset();
            job(&mut ctx, &files, F::M, &texts)
        }
        _ => {}
    }
    sym::fs_end();
    std::mem::forget(files);
    std::mem::forget(ctx);
}
