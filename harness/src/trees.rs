//! C20: HTML that is parsed from text, and escaped; C21: documents rendered
//! as plain text; C25: the network.
use crate::refi::*;
use crate::{content, stdlib, sym, text, util};

fn ch(n: u32) -> u32 { sym::choose(n) }

// ------------------------------------------------------------- as plain text

/// the text of a tree, with nothing of its markup
fn plain(ns: &[H], out: &mut Vec<u8>) {
    for n in ns {
        match n {
            H::Text(t) => out.extend(t),
            H::El(n, _, k) => {
                plain(k, out);
                match &n[..] {
                    b"p" => out.extend(b"\n\n"),
                    b"hr" => out.extend("\n\u{2015}\n\n".as_bytes()),
                    n if among(n, BLOCK) => out.push(b'\n'),
                    _ => {}
                }
            }
        }
    }
}

fn as_text() {
    let mut ctx = util::ctx();
    let n = sym::param(1) as u32;
    let items = match sym::param(0) {
        // any characters, in elements with attributes
        6 => {
            let mut d = vec![];
            for _ in 0..n { let c = sym::ascii(); sym::assume((c != b'`') & (c != b'\n') & (c != b'\r')); d.push(c); }
            if sym::param(2) == 1 { sym::push_wide(&mut d); }
            let v = || var("d");
            let k = match ch(6) {
                0 => v(),
                1 => tag("p", vec![It::E(v())]),
                2 => E::Tag(Box::new(TagE { name: Tn::Lit("div"), attrs: vec![At::Val("x", false, v()), At::Bare("y")], kids: vec![It::E(v())] })),
                3 => tag("ul", vec![It::E(tag("li", vec![It::E(tag("b", vec![It::E(v())]))]))]),
                4 => tag("pre", vec![It::E(v())]),
                _ => E::Group(vec![It::E(tag("i", vec![It::E(v())])), It::E(v())]),
            };
            vec![It::E(let_(vec![("d", E::Verb(d))], k))]
        }
        // values of all kinds
        7 => {
            let at = match ch(5) {
                0 => var("v"), 1 => tag("p", vec![It::E(var("v"))]), 2 => tag("li", vec![It::E(var("v"))]), 3 => E::Group(vec![txt("z"), It::E(var("v"))]),
                _ => let_(vec![("w", stdlib::any())], let_(vec![("u", list(vec![var("v"), var("w")]))], var("u"))),
            };
            vec![It::E(let_(vec![("v", stdlib::any())], at))]
        }
        m => { let (its, x) = content::build(m, n, sym::param(2) as u32); if m < 5 { vec![It::E(x)] } else { its } }
    };
    let mut p = Pr::new("");
    p.items(&items);
    let src = sym::text(std::mem::take(&mut p.out));
    sym::observe(src.as_bytes());
    let want = Ev::default().items(&items, &Env::top()).and_then(|ps| fill(K::Blocks, ps));
    let r = ctx.compile_synthetic("t", &src);
    let failed = ctx.diagnostics.num_errors > 0;
    sym::cover(want.is_none() as u32);
    match want {
        None => sym::check(failed, 210, "no error was reported"),
        Some(w) => {
            sym::check(!failed, 211, "an error was reported");
            let mut out = vec![];
            plain(&w, &mut out);
            let mut got = vec![];
            ctx.render(&r.out, false, &mut got).unwrap();
            sym::observe(&got);
            if !failed { sym::check(got == out, 212, "the text differs from that of the document"); }
        }
    }
    std::mem::forget(r);
    std::mem::forget(src);
    std::mem::forget(items);
    std::mem::forget(ctx);
}

/// code in text
fn code() {
    let mut ctx = util::ctx();
    let mut src = vec![];
    let mut want = vec![];
    let line = |k: u32| -> Vec<u8> { [&b"a<b"[..], b"&amp;", b"@f(1)", b"$x \"y\" -- ...", b""][k as usize].into() };
    if ch(2) == 1 { src.extend(b"x\n\n"); want.extend(b"x\n\n"); }
    let inline = ch(2) == 1;
    if inline {
        let k = ch(4);
        src.push(b'`'); src.extend(line(k)); src.extend(b"` y"); want.extend(line(k)); want.extend(b" y\n\n");
    } else {
        src.extend([&b"```\n"[..], b"```papyri\n", b"@code_block(first_line_no=7) ```\n"][ch(3) as usize]);
        let n = 1 + ch(3);
        for i in 0..n { let l = line(ch(if i > 0 && i + 1 < n { 5 } else { 4 })); src.extend(&l); src.push(b'\n'); want.extend(&l); want.push(b'\n'); }
        src.extend(b"```");
        want.push(b'\n');
    }
    let src = sym::text(src);
    sym::observe(src.as_bytes());
    let r = ctx.compile_synthetic("t", &src);
    sym::check(ctx.diagnostics.num_errors == 0, 213, "an error was reported");
    let mut got = vec![];
    ctx.render(&r.out, false, &mut got).unwrap();
    sym::observe(&got);
    sym::check(got == want, 214, "the text differs from that of the code");
    sym::cover(0);
    std::mem::forget(r);
    std::mem::forget(src);
    std::mem::forget(ctx);
}

// ------------------------------------------------------------ parsing HTML

struct Doc { out: Vec<u8>, bad: bool }

impl Doc {
    fn s(&mut self, s: &str) { self.out.extend(s.as_bytes()); }
    fn name(&mut self, n: &str) { if n.len() == 1 && sym::param(4) & 2 == 2 && ch(2) == 0 { self.s(&n.to_uppercase()) } else { self.s(n) } }
    /// a character, written in one of the ways it can be
    fn char(&mut self, quote: u8) -> Vec<u8> {
        let k = if sym::param(4) & 1 == 1 { ch(8) } else { [0, 1, 4, 6][ch(4) as usize] };
        match k {
            0 => { let c = sym::range(b'a', b'z'); self.out.push(c); vec![c] }
            1 => { self.s("&lt;"); vec![b'<'] }
            2 => { self.s("&amp;"); vec![b'&'] }
            3 => { self.s("&#x3e;"); vec![b'>'] }
            4 => { self.s("&eacute;"); "\u{e9}".into() }
            5 => { self.s("\u{e9}"); "\u{e9}".into() }
            6 => { if quote == b'"' { self.s("&quot;") } else { self.s("\"") } vec![b'"'] }
            _ => { self.s("&#39;"); vec![b'\''] }
        }
    }
    fn attrs(&mut self, n: u32) -> Vec<(Vec<u8>, Option<Vec<u8>>)> {
        let mut o: Vec<(Vec<u8>, Option<Vec<u8>>)> = vec![];
        for _ in 0..n {
            let name = ["x", "data-z", "y", "class"][ch(if sym::param(3) == 2 { 2 } else { 4 }) as usize];
            self.s(" ");
            self.name(name);
            self.s("=");
            let v = match if sym::param(3) == 2 { 3 * ch(2) } else { ch(4) } {
                0 => { self.s("\""); let v = self.char(b'"'); self.s("\""); v }
                1 => { self.s("'"); let v = self.char(b'\''); self.s("'"); v }
                2 => { let c = sym::range(b'a', b'c'); self.out.push(c); vec![c] }
                _ => { self.s("\"\""); vec![] }
            };
            // the first value counts
            if !o.iter().any(|x| x.0 == name.as_bytes()) { o.push((name.into(), Some(v))); }
        }
        o
    }
    fn element(&mut self, name: &str, attrs: u32, kids: impl FnOnce(&mut Doc) -> Vec<H>) -> H {
        self.s("<");
        self.name(name);
        let a = self.attrs(attrs);
        self.s(">");
        let k = kids(self);
        if !matches!(name, "br" | "img" | "hr") { self.s("</"); self.name(name); self.s(">"); }
        H::El(name.into(), a, k)
    }
    fn inline(&mut self, depth: u32) -> Vec<H> {
        match ch(if depth == 0 { 4 } else { 9 }) {
            0 => vec![],
            1 => vec![H::Text(self.char(0))],
            2 => { self.s(["<!---->", "<!-- a -->", "<!--<p>-->"][ch(3) as usize]); vec![] }
            3 => { let s = [" ", "\n", "\n  "][ch(3) as usize]; self.s(s); vec![H::Text(s.into())] }
            4 => vec![self.element("i", 0, |d| d.inline(depth - 1))],
            5 => vec![self.element("a", 1, |d| d.inline(0))],
            6 => vec![self.element(["br", "img"][ch(2) as usize], ch(2), |_| vec![])],
            7 => { let k = ch(2); vec![self.element(["span", "b"][k as usize], 0, |d| d.inline(depth - 1))] }
            // what is no markup
            _ => match ch(5) {
                // names that HTML writes with capitals
                4 => {
                    self.s("<svg viewBox=\"a\"><clipPath clipPathUnits=\"b\"></clipPath></svg>");
                    vec![H::El(b"svg".to_vec(), vec![(b"viewbox".to_vec(), Some(b"a".to_vec()))], vec![H::El(b"clippath".to_vec(), vec![(b"clippathunits".to_vec(), Some(b"b".to_vec()))], vec![])])]
                }
                k => { let t = ["a;", "1>2", "a=\"b\"", "]]"][k as usize]; self.s(t); vec![H::Text(t.into())] }
            },
        }
    }
    fn block(&mut self, depth: u32) -> Vec<H> {
        match ch(6) {
            0 => self.inline(1),
            1 => vec![self.element("p", ch(2), |d| d.inline(depth))],
            2 if depth > 0 => { let a = ch(2); vec![self.element("div", a, |d| { let mut o = d.block(depth - 1); o.extend(d.block(0)); o })] }
            3 => vec![self.element("ul", 0, |d| {
                // the end of an item may be left out
                let whole = ch(2) == 1;
                (0..ch(3)).map(|_| { d.s("<li>"); let k = d.inline(0); if whole { d.s("</li>"); } el("li", k) }).collect()
            })],
            4 => { self.s("<p>"); let k = self.inline(0); vec![el("p", k), self.element("p", 0, |d| d.inline(0))] }
            _ => vec![self.element("pre", 0, |d| { let mut o = vec![]; let c = d.char(0); o.push(H::Text(c)); o.extend(d.inline(1)); o })],
        }
    }
    /// text that no correct document has
    fn mistake(&mut self) {
        self.bad = true;
        self.s(["</i>", "<p", "< ", "</p x=\"\">", "<i x=\"a\" y\"b\">", "&#xd800;", "<html", "</body>a", "<!b>", "<?b>", "<div/>", "<tr>"][ch(12) as usize]);
    }
}

fn parsed() {
    let mut ctx = util::ctx();
    let names = util::Names::new(&mut ctx, &["p"]);
    let (n, depth, mistakes) = (sym::param(1), sym::param(2) as u32, sym::param(3));
    let mut d = Doc { out: vec![], bad: false };
    let fetch = sym::param(0) == 2;
    let around = mistakes == 2;
    match if around { ch(6) } else { 0 } {
        0 => d.s("<!DOCTYPE html>"), 1 => d.s("<!doctype html>\n"), 2 => d.s("<!DOCTYPE html><!-- a -->"), 3 => { d.bad = true; }
        4 => { d.s("<!DOCTYPE b>"); d.bad = true; }
        _ => d.s("\n<!DOCTYPE HTML>"),
    }
    let ha = if around { ch(2) } else { 0 };
    d.s("<html");
    let ha = d.attrs(ha);
    d.s(">");
    let mut head = vec![];
    match if around { ch(4) } else { 0 } {
        0 => d.s("<head></head>"),
        1 => { d.s("<head><title>"); let t = d.char(0); d.s("</title></head>"); head.push(el("title", vec![H::Text(t)])); }
        2 => { d.s("<head><style>a<b{}</style></head>"); head.push(el("style", vec![H::Text(b"a<b{}".to_vec())])); }
        _ => {} // it is there all the same
    }
    let ba = if around { ch(2) } else { 0 };
    d.s("<body");
    let ba = d.attrs(ba);
    d.s(">");
    let mut body = vec![];
    for _ in 0..n { body.extend(d.block(depth)); }
    if mistakes == 1 && ch(2) == 1 { d.s("<i x=a x=b></i>"); }
    if mistakes == 1 { let at = ch(2); if at == 0 { d.mistake(); d.s("<p>a</p>"); } else { d.s("<p>"); d.mistake(); d.s("</p>"); } }
    d.s("</body></html>");
    let Doc { out: html, bad } = d;
    // the body's attributes need it to be written
    let want = vec![H::El(b"html".to_vec(), ha, vec![el("head", normal(head)), H::El(b"body".to_vec(), ba, normal_all(body))])];
    let mut src = b"@export(x=".to_vec();
    if fetch { net(true, true, html.clone()); ctx = client(ctx); src.extend(b"@net::fetch_html `http://a/`"); } else { src.extend(b"@html::parse ```"); src.extend(&html); src.extend(b"```"); }
    src.extend(b").\n");
    text::outcome(&mut ctx, &names, src, if bad { None } else { Some(V::Html(want)) });
    std::mem::forget(ctx);
}

fn normal_all(ns: Vec<H>) -> Vec<H> {
    normal(ns).into_iter().map(|n| match n { H::El(n, a, k) => H::El(n, a, normal_all(k)), t => t }).collect()
}

/// questions about HTML, and its text
fn asked() {
    let mut ctx = util::ctx();
    let names = util::Names::new(&mut ctx, &["p"]);
    let x = match sym::param(1) {
        9 => stdlib::any(),
        // any characters
        8 => {
            let mut d = vec![];
            for _ in 0..sym::param(2) { let c = sym::ascii(); sym::assume((c != b'`') & (c != b'\n') & (c != b'\r')); d.push(c); }
            let v = || var("d");
            let k = match ch(5) {
                0 => v(),
                1 => tag("b", vec![It::E(v())]),
                2 => E::Tag(Box::new(TagE { name: Tn::Lit("div"), attrs: vec![At::Val("x", false, v())], kids: vec![] })),
                3 => E::Group(vec![It::E(tag("i", vec![])), It::E(v())]),
                _ => E::Group(vec![It::E(v()), It::E(v())]),
            };
            let_(vec![("d", E::Verb(d))], k)
        }
        m => content::build(m, sym::param(2) as u32, sym::param(3) as u32).1,
    };
    let v = Ev::default().e(&x, &Env::top()).and_then(|v| coerce(v, &T::Html)).map(|v| to_html(&v));
    let (f, want): (N, Option<V>) = match ch(3) {
        0 => ("is_empty", v.map(|h| V::Bool(h.is_empty()))),
        1 => ("is_whitespace", v.map(|h| V::Bool(match &h[..] { [] => true, [H::Text(t)] => white(t), _ => false }))),
        _ => ("escape_html", v.map(|h| { let mut o = vec![]; render(&h, &mut o); V::Str(o) })),
    };
    let e = call2("html", f, vec![], x);
    let mut p = Pr::new("");
    p.out.extend(b"@export(x=");
    p.e(&e);
    p.out.extend(b").\n");
    text::outcome(&mut ctx, &names, std::mem::take(&mut p.out), want);
    std::mem::forget(e);
    std::mem::forget(ctx);
}

// --------------------------------------------------------------- the network

pub struct Net { pub ok: bool, pub readable: bool, pub body: Vec<u8>, pub asked: Vec<Vec<u8>> }
static mut NET: Net = Net { ok: false, readable: false, body: vec![], asked: vec![] };

pub fn net(ok: bool, readable: bool, body: Vec<u8>) { unsafe { NET = Net { ok, readable, body, asked: vec![] }; } }
#[allow(static_mut_refs)]
pub fn requests() -> &'static Vec<Vec<u8>> { unsafe { &NET.asked } }

static mut LOGGED: bool = false;

/// a request: whether there is an answer
#[no_mangle]
#[allow(static_mut_refs)]
pub extern "C" fn net_send(url: *const u8, len: usize) -> bool {
    unsafe {
        NET.asked.push(std::slice::from_raw_parts(url, len).to_vec());
        // where the command-line tool runs, also where it can be seen later
        if LOGGED { std::fs::write(format!("request{}", NET.asked.len()), &NET.asked[NET.asked.len() - 1]).unwrap(); }
        NET.ok
    }
}
/// the answer, unless it breaks off
#[no_mangle]
#[allow(static_mut_refs)]
pub extern "C" fn net_text(out: &mut Vec<u8>) -> bool {
    unsafe { out.extend(&NET.body); NET.readable }
}

fn client(ctx: papyri_lang::compiler::Context) -> papyri_lang::compiler::Context {
    let mut ctx = ctx;
    ctx.http_client = Some(reqwest::blocking::Client::new());
    ctx
}

/// requests made by a document
fn network() {
    let mut ctx = util::ctx();
    let names = util::Names::new(&mut ctx, &["p"]);
    let allowed = ch(3) > 0;
    let (ok, readable) = match ch(3) { 0 => (true, true), 1 => (true, false), _ => (false, true) };
    let mut body = vec![];
    for _ in 0..sym::param(1) { sym::push_char(&mut body); }
    net(ok, readable, body.clone());
    if allowed { ctx = client(ctx); }
    let mut asked: Vec<Vec<u8>> = vec![];
    let mut src = b"@export(x=[".to_vec();
    let mut failed = false;
    let mut want = vec![];
    // what is fetched, and whether it is evaluated at all
    for k in 0..sym::param(2) as u32 {
        let mut url = ["http://a/", "https://b/?c=d&e#f", " x y ", ""][ch(4) as usize].as_bytes().to_vec();
        if !url.is_empty() && ch(2) == 1 { let c = sym::range(b'A', b'z'); sym::assume(c != b'`'); url.push(c); }
        let request = |src: &mut Vec<u8>| { src.extend(b"@net::fetch_raw "); if url.is_empty() { src.extend(b"\"\""); } else { src.push(b'`'); src.extend(&url); src.push(b'`'); } };
        if k > 0 { src.extend(b", "); }
        let mut evaluated = true;
        match ch(4) {
            0 => request(&mut src),
            // a function that is not called
            1 => { src.extend(b"@match 1 {1 -> 2, _ -> "); request(&mut src); src.push(b'}'); evaluated = false; want.push(V::Int(2)); }
            2 => { src.extend(b"@let(u="); request(&mut src); src.extend(b") $u"); }
            _ => { src.extend(b"@str::from "); request(&mut src); }
        }
        if evaluated {
            if allowed && (!failed || true) { asked.push(url); }
            if !allowed || !ok || !readable { failed = true; }
            want.push(V::Str(body.clone()));
        }
    }
    src.extend(b"]).\n");
    let broken = failed;
    text::outcome(&mut ctx, &names, src, if broken { None } else { Some(V::List(want)) });
    // an element that failed keeps no other from being evaluated
    let got = requests();
    if !allowed { sym::check(got.is_empty(), 250, "a request was made although none may be"); }
    else if !broken { sym::check(*got == asked, 251, "other requests were made than asked for"); }
    else {
        let mut i = 0;
        for g in got { while i < asked.len() && asked[i] != *g { i += 1; } i += 1; }
        sym::check(i <= asked.len(), 252, "a request was made that was not asked for");
    }
    std::mem::forget(ctx);
}

/// requests made by documents the command-line tool compiles
fn tool() {
    let ok = ch(2) == 0;
    let body = vec![sym::range(b'a', b'c')];
    net(ok, ch(2) == 0, body.clone());
    let readable = unsafe { NET.readable };
    let allowed = ch(2) == 1;
    let stdin = ch(2) == 1;
    let as_text = ch(2) == 1;
    let ignore = ch(2) == 1;
    let silent = ch(2) == 1;
    let kind = ch(4);
    let src: &[u8] = match kind {
        0 => b"@net::fetch_raw `http://a/`",
        1 => b"a",
        2 => b"@match 1 {1 -> b, _ -> @net::fetch_raw `http://a/`}",
        _ => b"@fn f $x -> @net::fetch_raw $x\n\n@f `http://a/`",
    };
    sym::fs_begin();
    unsafe { LOGGED = true; }
    if stdin { sym::stdin(src) } else { sym::file("d.papyri", src, 1) }
    let mut args = vec![];
    let first = ch(2) == 1;
    if !stdin && first { args.push("d.papyri"); }
    if ignore { args.push("--ignore-warnings"); }
    if allowed { args.push("--allow-http"); }
    if as_text { args.push("-t"); }
    if silent && !stdin { args.push("-s"); }
    if stdin { args.push("-i"); } else if !first { args.push("d.papyri"); }
    let code = crate::cli::tool(args);
    unsafe { LOGGED = false; }
    let printed = sym::stdout();
    sym::observe(&printed);
    sym::observe(&[code as u8]);
    let fetches = kind == 0 || kind == 3;
    let done = !fetches || allowed && ok && readable;
    let asked = std::fs::read("request1").ok();
    sym::check(asked.is_some() == (fetches && allowed), 253, "a request was made although none may be, or none was made");
    sym::check(std::fs::read("request2").is_err(), 254, "two requests were made");
    if let Some(a) = asked { sym::check(a == b"http://a/", 255, "another address was asked for"); }
    let out = if stdin { Some(printed) } else { std::fs::read(if as_text { "d.txt" } else { "d.html" }).ok() };
    sym::cover(!done as u32);
    sym::check((code == 0) == done, 256, "the exit status does not tell whether the request succeeded");
    let mut want = vec![];
    if !as_text { want.extend(b"<p>"); }
    if fetches { want.extend(&body); } else { want.push(b"ab"[kind as usize / 2]); }
    want.extend(if as_text { &b"\n\n"[..] } else { b"</p>" });
    match out {
        Some(o) if done => sym::check(o == want || stdin && o == [&want[..], b"\n"].concat(), 257, "the output is not the answer"),
        o => sym::check(!done && o.map_or(true, |o| o.is_empty() || stdin && !o.contains(&b'<')), 258, "there is an output although the request failed, or none"),
    }
    sym::fs_end();
}

pub fn run() {
    match (sym::harness(), sym::param(0)) {
        (21, 8) => code(),
        (21, _) => as_text(),
        (20, 0) => asked(),
        (20, _) => parsed(),
        (_, 1) => tool(),
        _ => network(),
    }
}
