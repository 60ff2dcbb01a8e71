//! C16: code fences and inline code show the code they were given.
use crate::refi::{decimal, esc, white};
use crate::{sym, util};

fn ch(n: u32) -> u32 { sym::choose(n) }

#[derive(Clone, Copy, PartialEq)]
enum K { Plain, Class(&'static str), Comment, Str, Left, Right }

#[derive(Clone)]
struct Tok(K, Vec<u8>);

fn tok(k: K, s: &str) -> Tok { Tok(k, s.as_bytes().to_vec()) }

fn starts(s: &[u8], p: &str) -> bool { s.len() >= p.len() && &s[..p.len()] == p.as_bytes() }

/// a web address: its start and end
fn url(s: &[u8]) -> Option<(usize, usize)> {
    for i in 0..s.len() {
        for p in ["http://", "https://"] {
            if starts(&s[i..], p) {
                let mut j = i + p.len();
                while j < s.len() && !white(&s[j..j + 1]) && !matches!(s[j], b'\'' | b'"' | b'`') { j += 1; }
                if j > i + p.len() { return Some((i, j)); }
            }
        }
    }
    None
}

fn number(n: i128) -> Vec<u8> {
    let mut o = vec![];
    if let Ok(i) = i64::try_from(n) { decimal(i, "-", &mut o); } else { o.extend(n.to_string().into_bytes()); }
    o
}

/// the lines of highlighted code: neighbours of one kind together, brackets
/// numbered in order with the one that closes them, addresses as links
struct Paint { lines: Vec<Vec<u8>>, open: Option<(&'static str, Vec<u8>)>, stack: Vec<(u8, u32)>, count: u32 }

impl Paint {
    fn new() -> Paint { Paint { lines: vec![vec![]], open: None, stack: vec![], count: 0 } }
    fn line(&mut self) -> &mut Vec<u8> { self.lines.last_mut().unwrap() }
    fn flush(&mut self) {
        if let Some((c, s)) = self.open.take() {
            let o = self.line();
            if c.is_empty() { esc(&s, false, o); } else {
                o.extend(b"<span class=\"");
                o.extend(c.as_bytes());
                o.extend(b"\">");
                esc(&s, false, o);
                o.extend(b"</span>");
            }
        }
    }
    fn put(&mut self, c: &'static str, s: &[u8]) {
        if s.is_empty() { return; }
        if !matches!(&self.open, Some((k, _)) if *k == c) { self.flush(); self.open = Some((c, vec![])); }
        self.open.as_mut().unwrap().1.extend(s);
    }
    fn part(&mut self, k: K, s: &[u8]) {
        match k {
            K::Plain => self.put("", s),
            K::Class(c) => self.put(c, s),
            K::Comment | K::Str => {
                let c = if k == K::Comment { "comment" } else { "string" };
                let mut s = s;
                while let Some((i, j)) = url(s) {
                    self.put(c, &s[..i]);
                    self.flush();
                    let o = self.line();
                    o.extend(b"<a href=\"");
                    esc(&s[i..j], true, o);
                    o.extend(if k == K::Comment { &b"\" class=\"comment\">"[..] } else { b"\">" });
                    esc(&s[i..j], false, o);
                    o.extend(b"</a>");
                    s = &s[j..];
                }
                self.put(c, s);
            }
            K::Left | K::Right => {
                let no = if k == K::Left {
                    self.count += 1;
                    self.stack.push((match s[0] { b'(' => b')', b'[' => b']', _ => b'}' }, self.count));
                    self.count
                } else {
                    match self.stack.last() {
                        Some(&(c, n)) if c == s[0] => { self.stack.pop(); n }
                        _ => { self.put("unmatched-paren", s); return; }
                    }
                };
                self.flush();
                let o = self.line();
                o.extend(if k == K::Left { &b"<span class=\"lparen\""[..] } else { b"<span class=\"rparen\"" });
                o.extend(b" data-paren-no=\"");
                o.extend(number(no as i128));
                o.extend(b"\">");
                o.extend(s);
                o.extend(b"</span>");
            }
        }
    }
    fn token(&mut self, t: &Tok) {
        for (i, s) in t.1.split(|c| *c == b'\n').enumerate() {
            if i > 0 { self.flush(); self.lines.push(vec![]); }
            // a line ends with the carriage return before its end, if there is one
            self.part(t.0, s);
        }
    }
    fn done(mut self) -> Vec<Vec<u8>> { self.flush(); self.lines }
}

/// the lines of the code: those from the first to the last that is not
/// blank, less the indentation of the first
fn dedent(src: &[u8]) -> Vec<Vec<u8>> {
    let mut end = src.len();
    while end > 0 && white(&src[end - 1..end]) { end -= 1; }
    let mut out: Vec<Vec<u8>> = vec![];
    let mut by: Option<&[u8]> = None;
    if end == 0 { return out; }
    for l in src[..end].split(|c| *c == b'\n') {
        let l = if l.last() == Some(&b'\r') { &l[..l.len() - 1] } else { l };
        let k = l.iter().position(|c| !white(&[*c]));
        let by = match (by, k) { (Some(b), _) => b, (None, None) => continue, (None, Some(k)) => { by = Some(&l[..k]); &l[..k] } };
        out.push(if l.len() >= by.len() && &l[..by.len()] == by { l[by.len()..].to_vec() } else { l[k.unwrap_or(l.len())..].to_vec() });
    }
    out
}

fn identifier(s: &[u8]) -> bool {
    !s.is_empty() && !s[0].is_ascii_digit() && s.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_')
}

/// a first line that is a name is the language
fn hint(src: &[u8]) -> Option<(&[u8], &[u8])> {
    let k = src.iter().position(|c| *c == b'\n')?;
    let mut e = k;
    while e > 0 && white(&src[e - 1..e]) { e -= 1; }
    if identifier(&src[..e]) { Some((&src[..e], &src[k + 1..])) } else { None }
}

/// how the code comes into the document
#[derive(Clone, Copy, PartialEq)]
enum How { Fence, Inline, Code(bool), Block }

struct Doc { how: How, language: Option<&'static str>, implicit: bool, first: Option<i64>, body: Vec<u8> }

const FIRST: &[i64] = &[0, 1, 2, 9, -1, i64::MAX, i64::MIN];

impl Doc {
    fn source(&self) -> Vec<u8> {
        let mut s: Vec<u8> = Vec::with_capacity(128);
        if self.implicit { s.extend(b"@implicit(language=`"); s.extend(self.language.unwrap().as_bytes()); s.extend(b"`)... "); }
        let mut args: Vec<Vec<u8>> = vec![];
        if let (Some(l), false) = (self.language, self.implicit) { args.push([b"language=`", l.as_bytes(), b"`"].concat()); }
        if let Some(n) = self.first { args.push([&b"first_line_no="[..], &number(n as i128)].concat()); }
        match self.how {
            How::Fence | How::Inline => {}
            How::Code(b) => { s.extend(b"@code"); if b { args.push(b"code_block=True".to_vec()); } }
            How::Block => s.extend(b"@code_block"),
        }
        if !args.is_empty() { s.push(b'('); s.extend(args.join(&b", "[..])); s.push(b')'); }
        let q: &[u8] = if self.how == How::Inline { b"`" } else { b"```" };
        if matches!(self.how, How::Code(_) | How::Block) { s.push(b' '); }
        s.extend(q);
        s.extend(&self.body);
        s.extend(q);
        s
    }
    fn block(&self) -> bool { !matches!(self.how, How::Inline | How::Code(false)) }
}

/// what the document shows, and the number of warnings; None where the code
/// is on several lines but not in a block
fn want(d: &Doc, painted: impl Fn(&[u8], &[Vec<u8>]) -> Option<Vec<Vec<u8>>>) -> (Option<Vec<u8>>, u32) {
    let mut lang = d.language.unwrap_or("none").as_bytes();
    let mut src = &d.body[..];
    if d.block() { if let Some((l, s)) = hint(src) { lang = l; src = s; } }
    let code = dedent(src);
    let mut warnings = 0;
    let lines = match painted(lang, &code) {
        Some(l) => l,
        None => { warnings += 1; code.iter().map(|l| { let mut o = vec![]; esc(l, false, &mut o); o }).collect() }
    };
    let class = warnings == 0 && lang != b"none";
    let mut o: Vec<u8> = Vec::with_capacity(256);
    let fence = matches!(d.how, How::Fence | How::Block);
    o.extend(if fence { &b"<pre class=\"panel listing\">"[..] } else { b"<p>" });
    o.extend(b"<code");
    if class { o.extend(b" class=\"syntax-highlight lang-"); o.extend(lang); o.push(b'"'); }
    o.push(b'>');
    let first = d.first.unwrap_or(1);
    if d.block() {
        for (i, l) in lines.iter().enumerate() {
            o.extend(b"<span class=\"line\" data-line-no=\"");
            o.extend(number(first as i128 + i as i128));
            o.extend(b"\">");
            o.extend(l);
            o.extend(b"</span>\n");
        }
    } else {
        if first != 1 { warnings += 1; }
        if lines.len() > 1 { return (None, warnings + 1); }
        for l in &lines { o.extend(l); }
    }
    o.extend(if fence { &b"</code></pre>"[..] } else { b"</code></p>" });
    (Some(o), warnings)
}

fn plain(code: &[Vec<u8>]) -> Vec<Vec<u8>> { code.iter().map(|l| { let mut o = vec![]; esc(l, false, &mut o); o }).collect() }

fn verdict(ctx: &mut papyri_lang::compiler::Context, d: &Doc, painted: impl Fn(&[u8], &[Vec<u8>]) -> Option<Vec<Vec<u8>>>) {
    let src = sym::text(d.source());
    sym::observe(src.as_bytes());
    let before = ctx.diagnostics.num_warnings;
    let r = ctx.compile_synthetic("t", &src);
    let (w, warnings) = want(d, painted);
    sym::check(ctx.diagnostics.num_errors == 0, 160, "an error was reported");
    let got = util::render(ctx, &r.out);
    sym::observe(&got);
    if let Some(w) = w { sym::check(got == w, 161, "the code is not shown as it should be"); }
    sym::check(ctx.diagnostics.num_warnings - before == warnings, 162, "the number of warnings");
    sym::cover(warnings.min(2));
    std::mem::forget(r);
    std::mem::forget(src);
}

// ------------------------------------------------------------ any highlighter

/// what the highlighter chose: the cuts and scopes of each character
static mut CHOICES: Vec<u32> = vec![];
/// the characters where it may cut
static mut FREE: Vec<bool> = vec![];

#[allow(static_mut_refs)]
pub fn choice(limit: u32) -> u32 {
    unsafe {
        let k = if FREE.get(CHOICES.len()) == Some(&false) { 0 } else { ch(limit) };
        CHOICES.push(k);
        k
    }
}

/// the kind of a range with the k-th scope stack
fn kind(s: &[u8], k: u32) -> K {
    if white(s) { return K::Plain; }
    let word = identifier(s);
    let bracket = s.len() == 1 && matches!(s[0], b'(' | b'[' | b'{' | b')' | b']' | b'}');
    let other = if word { "name" } else { "punctuation" };
    match k {
        2 => K::Class("err"),
        1 | 19 => K::Comment,
        _ if bracket => {
            // whether a bracket that is the whole of a string counts is left open
            sym::assume(!matches!(k, 6 | 9));
            if matches!(s[0], b'(' | b'[' | b'{') { K::Left } else { K::Right }
        }
        6 | 9 => K::Str,
        3 | 12 | 20 => if word { K::Class("keyword") } else { K::Class("punctuation") },
        4 => K::Class("keyword-literal"),
        5 => K::Class("number"),
        7 => K::Class("punctuation"),
        8 | 14 => K::Class("name"),
        10 => K::Class("keyword-op"),
        11 => K::Class("op"),
        13 => K::Class("name-def"),
        15 => if word { K::Class("keyword") } else { K::Class("name") },
        16 => K::Class("type-annotation"),
        17 | 18 => K::Class("decorator"),
        _ => K::Class(other),
    }
}

/// the code as the highlighter cut it
fn scoped(code: &[Vec<u8>]) -> Vec<Vec<u8>> {
    #[allow(static_mut_refs)]
    let mut it = unsafe { CHOICES.iter() };
    let mut p = Paint::new();
    // a range before any scope was given, or after the line broke, has the
    // scopes that came before
    let mut stack = 0;
    for (i, l) in code.iter().enumerate() {
        if i > 0 { p.token(&tok(K::Plain, "\n")); }
        let mut from = 0;
        for j in 0..l.len() {
            if l[j] & 0xc0 == 0x80 { continue; }
            let k = *it.next().unwrap();
            if k > 0 {
                if j > from { p.token(&Tok(kind(&l[from..j], stack), l[from..j].to_vec())); }
                from = j;
                stack = k - 1;
            }
        }
        if l.len() > from { p.token(&Tok(kind(&l[from..], stack), l[from..].to_vec())); }
    }
    p.done()
}

// ------------------------------------------------------------- papyri itself

const C: fn(&'static str) -> K = K::Class;

/// a piece of Papyri source, and whether it may stand directly beside another
fn piece(k: u32) -> (Vec<Tok>, bool) {
    let t = |k: K, s: &str| (vec![tok(k, s)], false);
    let o = |k: K, s: &str| (vec![tok(k, s)], true);
    match k {
        0 => o(K::Left, "("), 1 => o(K::Right, ")"), 2 => o(K::Left, "["), 3 => o(K::Right, "]"), 4 => o(K::Left, "{"), 5 => o(K::Right, "}"),
        6 => o(C("op"), "="), 7 => o(C("op"), ","),
        8 => t(C("keyword"), "@let"),
        9 => t(C("decorator"), "@f"),
        10 => t(C("name"), "$x"),
        11 => t(C("number"), "12"),
        12 => t(C("keyword-literal"), "True"),
        13 => t(C("keyword-literal"), "\\("),
        14 => t(C("keyword-literal"), "&lt;"),
        15 => t(K::Plain, "ab"),
        16 => (vec![tok(C("op"), "<"), tok(C("name"), "b"), tok(C("op"), ">")], true),
        17 => o(C("op"), "</b>"),
        18 => t(K::Str, "`s(`"),
        19 => t(K::Str, "`http://a.b/c`"),
        20 => (vec![tok(C("keyword"), "@fn"), tok(K::Plain, " "), tok(C("name-def"), "g")], false),
        21 => t(K::Comment, "# c( https://d/?e=f&g"),
        22 => t(K::Comment, "<!-- c\n d -->"),
        23 => t(K::Plain, "\u{e9}"),
        24 => t(K::Str, "`https:// http://`"),
        25 => t(K::Comment, "<!-- http://a http://b -->"),
        26 => t(C("keyword"), "@match"),
        // a function without a name: the next name is not its own
        _ => {
            let p = K::Plain;
            (vec![tok(C("keyword"), "@fn"), tok(p, " "), tok(C("name"), "$y"), tok(p, " "), tok(C("op"), "->"), tok(p, " "), tok(C("keyword"), "@let"), tok(K::Left, "("), tok(p, "cd"), tok(C("op"), "="),
                  tok(C("number"), "1"), tok(K::Right, ")")], true)
        }
    }
}
const PIECES: u32 = 28;

fn papyri(n: u64, mask: u64, crlf: bool) -> (Vec<u8>, Vec<Vec<u8>>) {
    let mut toks: Vec<Tok> = vec![];
    let mut left = true;
    for i in 0..n {
        let k = ch(PIECES);
        sym::assume(mask & (1 << k) != 0);
        let (ts, open) = piece(k);
        if i > 0 {
            let hash = matches!(toks.last(), Some(t) if t.1[0] == b'#');
            let s = ch(4);
            if s == 0 { sym::assume((open || left) && !hash); } else {
                sym::assume(!hash || s != 1);
                let w = match s { 1 => " ", 2 => "\n", _ => "\n\n  " };
                // the space after a comment, unless it ends a paragraph, is part of it
                if hash && s == 2 { toks.last_mut().unwrap().1.push(b'\n'); } else { toks.push(tok(K::Plain, w)); }
            }
        }
        left = open;
        toks.extend(ts);
    }
    let mut src = vec![];
    let mut p = Paint::new();
    for t in &toks {
        for &c in &t.1 { if crlf && c == b'\n' { src.push(b'\r'); } src.push(c); }
        p.token(t);
    }
    (src, p.done())
}

pub fn run() {
    let mut ctx = util::ctx();
    unsafe { CHOICES = vec![]; FREE = vec![]; }
    // the tables made on first use
    let w = ctx.compile_synthetic("w", "```js\n\n```\n\n@code(language=`papyri`) `a # http://b`");
    sym::check(ctx.diagnostics.num_errors == 0, 169, "the warm-up compiles");
    std::mem::forget(w);
    let how = |k: u64| match k { 0 => How::Fence, 1 => How::Inline, 2 => How::Code(true), 3 => How::Code(false), _ => How::Block };
    match sym::param(0) {
        // plain code: n characters
        0 => {
            let n = sym::param(1);
            let mut b = vec![];
            let mut twice = false;
            for i in 0..n as usize { b.push(sym::one_of(b" \t\n\ra<(")); if i > 0 { twice |= (b[i - 1] == b'\r') & (b[i] == b'\r'); } }
            // one carriage return belongs to the end of a line
            sym::assume(!twice);
            let d = Doc { how: how(sym::param(2)), language: None, implicit: false, first: None, body: b };
            // two code fences' quotes may not touch the code's own
            if d.how == How::Inline { sym::assume(!d.body.contains(&b'\n')); }
            verdict(&mut ctx, &d, |l, code| if l == b"none" { Some(plain(code)) } else { None });
        }
        // the language, and the number of the first line
        1 => {
            let first = if ch(2) == 0 { None } else { Some(FIRST[ch(FIRST.len() as u32) as usize]) };
            let language = [None, Some("none"), Some("papyri"), Some("zz"), Some("z-z")][ch(5) as usize];
            let implicit = language.is_some() && ch(2) == 1;
            let h = how(ch(5) as u64);
            sym::assume(!matches!(h, How::Fence | How::Inline) || first.is_none() && (implicit || language.is_none()));
            let mut b = vec![];
            b.extend(util::pick(&["", "papyri\n", "none\n", "zz \n", "zz\r\n", "Z_1\n", "1z\n", " zz\n", "\n", "zz z\n", "_\n"]).as_bytes());
            b.extend(util::pick(&["", "$x", " $x\n  $y", "zz\n$x\r\n", "\n\n $x\n$y\n\n"]).as_bytes());
            sym::assume(!b.is_empty() && (h != How::Inline || !b.contains(&b'\n')));
            // numbers are among the pieces below
            sym::assume(language != Some("papyri") || b[0] != b'1' && b[0] != b'_');
            let d = Doc { how: h, language, implicit, first, body: b };
            verdict(&mut ctx, &d, |l, code| match l {
                b"none" => Some(plain(code)),
                b"papyri" => {
                    let mut p = Paint::new();
                    for (i, l) in code.iter().enumerate() {
                        if i > 0 { p.token(&tok(K::Plain, "\n")); }
                        let k = l.iter().position(|c| !white(&[*c])).unwrap_or(l.len());
                        p.token(&Tok(K::Plain, l[..k].to_vec()));
                        p.token(&Tok(if l[k..].first() == Some(&b'$') { K::Class("name") } else { K::Plain }, l[k..].to_vec()));
                    }
                    Some(p.done())
                }
                _ => None,
            });
        }
        // papyri
        2 => {
            let (body, lines) = papyri(sym::param(1), sym::param(2), sym::param(3) == 1);
            let mut b = b"papyri\n".to_vec();
            b.extend(body);
            b.extend(b"\n");
            let d = Doc { how: How::Fence, language: None, implicit: false, first: None, body: b };
            verdict(&mut ctx, &d, |_, _| Some(lines.clone()));
        }
        // any highlighter
        _ => {
            let n = sym::param(1);
            let mut b = b"js\n".to_vec();
            let mut free = vec![];
            for i in 0..n {
                let c = ch(9);
                sym::assume(sym::param(2) & (1 << c) != 0 && (c != 0 || i > 0 && i + 1 < n));
                let w = ["\n", "a", "(", ")", "[", "]", "+", "\u{e9}", "http://b"][c as usize];
                b.extend(w.as_bytes());
                for j in 0..w.len() as u32 { if c > 0 && w.as_bytes()[j as usize] & 0xc0 != 0x80 { free.push(j == 0); } }
            }
            if sym::param(2) & 512 != 0 { b.extend(b" a"); free.extend([true, true]); }
            unsafe { CHOICES = vec![]; FREE = free; }
            let d = Doc { how: How::Fence, language: None, implicit: false, first: None, body: b };
            verdict(&mut ctx, &d, |_, code| Some(scoped(code)));
        }
    }
    std::mem::forget(ctx);
}
