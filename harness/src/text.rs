//! C05: what text, templates and verbatim strings denote.
use crate::refi::*;
use crate::{sym, util};

fn ch(n: u32) -> u32 { sym::choose(n) }

const SUBS: &[(&str, &str)] = &[("---", "\u{2014}"), ("--", "\u{2013}"), ("<->", "\u{2194}"), ("<-", "\u{2190}"), ("->", "\u{2192}"), ("!=", "\u{2260}"), ("<=", "\u{2264}"), (">=", "\u{2265}"), ("+/-", "\u{b1}"), ("(c)", "\u{a9}"), ("~", "\u{a0}")];

fn starts(s: &[u8], p: &str) -> bool { s.len() >= p.len() && &s[..p.len()] == p.as_bytes() }

/// the symbols written in ASCII: the longest one at each place, from the left
fn symbols(s: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut i = 0;
    'l: while i < s.len() {
        if s[i] == b'-' && i + 1 < s.len() && s[i + 1].is_ascii_digit() {
            out.extend("\u{2212}".as_bytes());
            i += 1;
            continue;
        }
        for (a, b) in SUBS {
            if starts(&s[i..], a) { out.extend(b.as_bytes()); i += a.len(); continue 'l; }
        }
        out.push(s[i]);
        i += 1;
    }
    out
}

fn space(c: u8) -> bool { matches!(c, b' ' | b'\t' | b'\n' | 12 | b'\r') }
fn ident(c: u8) -> bool { c.is_ascii_alphabetic() || c == b'_' }
fn find(s: &[u8], p: &str) -> Option<usize> { (0..s.len()).find(|&i| starts(&s[i..], p)) }

fn hex(s: &[u8]) -> Option<u32> {
    let mut n = 0u32;
    for &c in s {
        let d = match c { b'0'..=b'9' => c - b'0', b'a'..=b'f' => c - b'a' + 10, b'A'..=b'F' => c - b'A' + 10, _ => return None };
        if n >> 28 != 0 { return None; }
        n = n * 16 + d as u32;
    }
    Some(n)
}

fn named(s: &[u8]) -> Option<char> {
    for (n, c) in [("lt", '<'), ("gt", '>'), ("amp", '&'), ("quot", '"'), ("apos", '\''), ("nbsp", '\u{a0}'), ("copy", '\u{a9}'), ("eacute", '\u{e9}'), ("mdash", '\u{2014}'), ("lsquo", '\u{2018}'), ("Alpha", '\u{391}'), ("hearts", '\u{2665}')] {
        if s == n.as_bytes() { return Some(c); }
    }
    None
}

/// what text is made of
enum Part { Raw(u8), Str(&'static str), Char(char), Ws, Break, Bad }

/// a sequence of parts; None for text that is not just text
fn scan(s: &[u8], quotes: bool) -> Option<Vec<Part>> {
    let mut out: Vec<Part> = vec![];
    let mut left = true;
    let mut i = 0;
    let gap = |out: &mut Vec<Part>, brk: bool| match out.last() {
        Some(Part::Break) => {}
        Some(Part::Ws) => if brk { out.pop(); out.push(Part::Break) },
        _ => out.push(if brk { Part::Break } else { Part::Ws }),
    };
    let mut angle = false;
    while i < s.len() {
        let c = s[i];
        let r = &s[i..];
        // a comment may hide that a tag begins here
        if angle && i > 0 && s[i - 1] != b'<' && (ident(c) || c == b'!') { return None; }
        angle = if c == b'#' || starts(r, "<!--") { matches!(out.last(), Some(Part::Raw(b'<'))) } else { c == b'<' };
        if c == b'#' {
            // a comment to the end of the line, with the space after it
            // unless that ends a paragraph
            while i < s.len() && s[i] != b'\n' { i += 1; }
            let mut j = i;
            let mut n = 0;
            while j < s.len() && space(s[j]) { n += (s[j] == b'\n') as u32; j += 1; }
            if n < 2 { if j > i { left = true; } i = j; }
            continue;
        }
        if starts(r, "<!--") {
            i += match find(&r[4..], "-->") { Some(n) => n + 7, None => r.len() };
            continue;
        }
        if space(c) {
            let mut n = 0;
            while i < s.len() && space(s[i]) { n += (s[i] == b'\n') as u32; i += 1; }
            gap(&mut out, n >= 2);
            left = true;
            continue;
        }
        let was = left;
        left = matches!(c, b'=' | b'(' | b'>');
        match c {
            b'\\' => {
                let n = match r.get(1) { Some(b'x') => 2, Some(b'u') => 4, Some(b'U') => 8, _ => 0 };
                match r.get(1) {
                    None | Some(b'\n') => { out.push(Part::Bad); i += 1; }
                    Some(_) if n > 0 => {
                        match if r.len() >= n + 2 { hex(&r[2..n + 2]) } else { None } {
                            Some(k) => { out.push(match char::from_u32(k) { Some(c) => Part::Char(c), None => Part::Bad }); i += n + 2; }
                            None => { out.push(Part::Bad); i += 2; }
                        }
                    }
                    Some(b'n') => { out.push(Part::Char('\n')); i += 2; }
                    Some(b't') => { out.push(Part::Char('\t')); i += 2; }
                    Some(c) if *c < 0x80 => { out.push(Part::Char(*c as char)); i += 2; }
                    Some(_) => return None,
                }
            }
            b'&' if r.len() > 1 && (r[1].is_ascii_alphabetic() || r[1] == b'#') => {
                let mut k = 1;
                while k < r.len() && r[k] != b';' && !space(r[k]) { k += 1; }
                if k == r.len() || r[k] != b';' { out.push(Part::Bad); i += k; continue; }
                let e = &r[1..k];
                let code = if e[0] != b'#' { named(e).map(|c| c as u32) } else if e.len() > 1 && (e[1] | 32) == b'x' { hex(&e[2..]) } else {
                    e[1..].iter().fold(Some(0u32), |n, c| if c.is_ascii_digit() && n? < 100_000_000 { Some(n? * 10 + (c - b'0') as u32) } else { None })
                };
                if e[0] != b'#' && code.is_none() { return None; }
                if code == Some(0) { return None; }
                out.push(match code.and_then(char::from_u32) { Some(c) => Part::Char(c), _ => Part::Bad });
                i += k + 1;
            }
            b'<' if r.len() > 1 && (ident(r[1]) || matches!(r[1], b'/' | b'!' | b'$')) => {
                let mut k = 2;
                if r[1] == b'/' { while k < r.len() && (ident(r[k]) || k > 2 && r[k].is_ascii_digit()) { k += 1; } }
                if r[1] != b'/' { return None; }
                if !quotes && k < r.len() && r[k] == b'>' { out.push(Part::Raw(b'<')) } else { out.push(Part::Bad); }
                i += 1;
            }
            b'@' | b'$' if r.len() > 1 && ident(r[1]) => return None,
            b'`' | b'[' | b']' | b'{' | b'}' => return None,
            b'-' if starts(r, "->") => { out.push(Part::Raw(b'-')); out.push(Part::Raw(b'>')); i += 2; left = false; }
            b'.' if quotes && starts(r, "...") => { out.push(Part::Str("\u{2026}")); i += 3; }
            b'|' if quotes => { out.push(Part::Str("\u{2060}")); i += 1; }
            b'\'' if quotes => { out.push(Part::Str(if was { "\u{2018}" } else { "\u{2019}" })); i += 1; }
            b'"' if quotes => { out.push(Part::Str(if was { "\u{201c}" } else { "\u{201d}" })); i += 1; }
            c => { out.push(Part::Raw(c)); i += 1; }
        }
    }
    Some(out)
}

/// the pieces of text, or that there is an error in it
fn pieces(parts: Vec<Part>) -> Option<Vec<Piece>> {
    let mut out = vec![];
    let mut run: Vec<u8> = vec![];
    for p in parts.into_iter().map(Some).chain([None]) {
        match &p {
            Some(Part::Raw(b'<')) => { if !run.is_empty() { out.push(Piece::N(H::Text(symbols(&run)))); } run.clear(); run.push(b'<'); continue; }
            Some(Part::Raw(c)) => { run.push(*c); continue; }
            Some(Part::Str(s)) => { run.extend(s.as_bytes()); continue; }
            _ => {}
        }
        if !run.is_empty() { out.push(Piece::N(H::Text(symbols(&run)))); }
        run.clear();
        match p {
            Some(Part::Char(c)) => out.push(Piece::N(H::Text(c.to_string().into_bytes()))),
            Some(Part::Ws) => out.push(Piece::N(H::Text(vec![b' ']))),
            Some(Part::Break) => out.push(Piece::Break),
            Some(Part::Bad) => return None,
            _ => {}
        }
    }
    Some(out)
}

const BITS: &[&str] = &["a", "\"", "'", " ", "\n", " \n\t\n", "#c\n", "#c\n \n", "<!--c-->", "<!-- \n\n -->", "-", "\\n", "=", "("];
const ENTS: &[&str] = &["&lt;", "&gt;", "&amp;", "&quot;", "&apos;", "&nbsp;", "&copy;", "&eacute;", "&mdash;", "&lsquo;", "&Alpha;", "&hearts;"];

/// the text under test
fn source(kind: u64, n: u32) -> Vec<u8> {
    let mut s = vec![];
    match kind {
        // any ASCII
        0 => for _ in 0..n { s.push(sym::ascii()); },
        // parts of symbols
        1 => for _ in 0..n { s.push(sym::one_of(b"-<>=!+/(c)~.9a")); },
        // quotes, spaces and comments
        2 => for _ in 0..n { s.extend(BITS[ch(BITS.len() as u32) as usize].as_bytes()); },
        // escapes
        3 => { s.push(b'\\'); s.push(b"xuU"[ch(3) as usize]); for _ in 0..[2, 4, 8][(s[1] == b'u') as usize + 2 * (s[1] == b'U') as usize] { s.push(b'0'); } for i in 0..n as usize { let k = s.len(); if i == 0 { s[k - 1] = sym::ascii(); } else { let set = b"0189dDfFgx; "; s[2 + ch(k as u32 - 3) as usize] = set[ch(set.len() as u32) as usize]; } } s.push(b';'); }
        // entities
        4 => { s.extend(ENTS[ch(ENTS.len() as u32) as usize].as_bytes()); for _ in 0..n { if ch(2) == 0 { s.push(sym::ascii()); } else { s.insert(0, sym::ascii()); } } }
        5 => {
            s.extend(b"&#");
            if ch(2) == 0 { s.push(b'x'); if ch(2) == 0 { s.extend(b"10ff"); } } else if ch(2) == 0 { s.extend(b"55"); }
            for _ in 0..n { let set = b"0123456789abcdefABCDEFgx"; s.push(set[ch(set.len() as u32) as usize]); }
            s.push(b';');
        }
        // two characters around a fixed part
        6 => { s.push(sym::ascii()); s.extend(["--", "->", "<-", "(c", "+/", "..", "\"", "\\", "<!--", "-->", "&", " \n", "?:", "9", "#"][ch(15) as usize].as_bytes()); for _ in 1..n { s.push(sym::ascii()); } }
        // comments, whole or not
        8 => { s.extend(b"<!--"); for _ in 0..n { s.push(sym::one_of(b"->!<a #")); } s.extend(b"-->"); s.push(sym::one_of(b"-> a")); }
        // characters of any kind
        _ => for _ in 0..n { sym::push_char(&mut s); },
    }
    s
}

/// a template with braces, and what it denotes: spaces just inside the braces
/// do not count
fn braces(n: u32) -> (Vec<u8>, Option<V>) {
    let v = sym::range(b'x', b'z');
    let mut src = b"@export(x=@let(v=`".to_vec();
    src.push(v);
    src.extend(b"`) \"");
    let mut out: Vec<u8> = vec![];
    let (mut open, mut bad, mut skip, mut gap, mut name) = (0, false, false, false, false);
    for _ in 0..n {
        let k = ch(8);
        src.extend([&b"a"[..], b"$v", b" ", b"{", b"}", b"<!--c-->", b"\\n", b"'"][k as usize]);
        sym::assume(!(name && k == 0));
        name = k == 1;
        let text: &[u8] = match k { 0 => b"a", 1 => &[v], 6 => b"\n", 7 => b"'", _ => b"" };
        if !text.is_empty() { out.extend(text); skip = false; gap = false; }
        match k {
            2 => if !skip && !gap { out.push(b' '); gap = true; },
            3 => { open += 1; skip = true; gap = false; }
            4 => {
                // nothing in them
                sym::assume(!skip);
                if open == 0 { bad = true; } else { open -= 1; if gap { out.pop(); } }
                gap = false;
            }
            _ => {}
        }
    }
    bad |= open > 0;
    src.extend(b"\").");
    (src, if bad { None } else { Some(V::Str(out)) })
}

pub fn run() {
    let mut ctx = util::ctx();
    let names = util::Names::new(&mut ctx, &["p"]);
    // the lazily built parts
    let r = ctx.compile_synthetic("t", "a-b");
    std::mem::forget(r);
    let (kind, place, n) = (sym::param(0), sym::param(1), sym::param(2) as u32);
    if place == 7 {
        let (src, want) = braces(n);
        outcome(&mut ctx, &names, src, want);
        std::mem::forget(ctx);
        return;
    }
    let mut s = source(kind, n);
    match place {
        0 => {
            let Some(parts) = scan(&s, true) else { return };
            let want = pieces(parts).and_then(|ps| fill(K::Blocks, ps));
            let src = sym::text(s);
            sym::observe(src.as_bytes());
            let r = ctx.compile_synthetic("t", &src);
            let failed = ctx.diagnostics.num_errors > 0;
            sym::cover(want.is_none() as u32);
            match want {
                None => sym::check(failed, 61, "no error was reported"),
                Some(w) => {
                    sym::check(!failed, 62, "an error was reported");
                    if !failed {
                        let mut out = vec![];
                        render(&w, &mut out);
                        let got = util::render(&ctx, &r.out);
                        sym::observe(&got);
                        sym::check(got == out, 63, "the text differs from the reference");
                    }
                }
            }
            std::mem::forget(r);
            std::mem::forget(src);
        }
        1..=5 => {
            // within something that ends with `;` and a delimiter
            let mut src = vec![];
            src.extend_from_slice([&b"@export(x=<i>"[..], b"@export(x={", b"@export(x=<li>", b"@fn f $c -> $c\n@export(x=@f {", b"@export(x=\""][place as usize - 1]);
            s.push(b';');
            let v = match place {
                5 => {
                    for &c in &s { if matches!(c, b'"' | b'\n' | b'`') { return; } }
                    let Some(parts) = scan(&s, false) else { return };
                    let mut out = Some(vec![]);
                    for p in parts {
                        match (p, &mut out) {
                            (Part::Raw(c), Some(o)) => o.push(c),
                            (Part::Str(t), Some(o)) => o.extend(t.as_bytes()),
                            (Part::Char(c), Some(o)) => { let mut b = [0; 4]; o.extend(c.encode_utf8(&mut b).as_bytes()); }
                            (Part::Ws, Some(o)) => o.push(b' '),
                            _ => out = None,
                        }
                    }
                    out.map(V::Str)
                }
                p => {
                    // quotes after `>` or `{` are left quotes, as at the start
                    let Some(mut parts) = scan(&s, true) else { return };
                    // spaces next to the delimiters do not count
                    if matches!(parts.first(), Some(Part::Ws | Part::Break)) { parts.remove(0); }
                    let ps = pieces(parts);
                    match p {
                        1 => ps.and_then(|ps| fill(K::Inline, ps)).map(|h| V::Html(vec![el("i", h)])),
                        3 => ps.and_then(|ps| fill(K::Allow, ps)).map(|h| V::Html(vec![el("li", h)])),
                        _ => ps.and_then(|ps| fill(K::Allow, ps)).map(V::html),
                    }
                }
            };
            // a comment or backslash would take the delimiter
            let mut i = 0;
            while i < s.len() { if s[i] == b'#' && !(i > 0 && s[i - 1] == b'&' && (i < 2 || s[i - 2] != b'\\')) { let nl = s[i..].iter().any(|c| *c == b'\n'); if !nl { return; } } if s[i..].len() >= 4 && &s[i..i + 4] == b"<!--" && find(&s[i + 4..], "-->").is_none() { return; } i += 1; }
            src.extend_from_slice(&s);
            src.extend_from_slice([&b"</i>)."[..], b"}).", b"</li>).", b"}).", b"\")."][place as usize - 1]);
            outcome(&mut ctx, &names, src, v);
        }
        _ => {
            // verbatim strings with one to three backticks
            let k = 1 + ch(3) as usize;
            let mut src = b"@export(x=".to_vec();
            for _ in 0..k { src.push(b'`'); }
            src.extend_from_slice(&s);
            for _ in 0..k { src.push(b'`'); }
            src.extend_from_slice(b").");
            let mut all = s.clone();
            for _ in 0..k { all.push(b'`'); }
            // the closing delimiter is the first run that is long enough
            let mut run = 0;
            for &c in &all[..s.len()] { if c == b'`' { run += 1; if run >= k { return; } } else { run = 0; } }
            if matches!(s.first(), None | Some(b'`')) { return; }
            let v = if matches!(s.last(), Some(b'`')) || s.contains(&b'\n') && k < 3 { None } else {
                if s.contains(&b'\n') { return; }
                Some(V::Str(s))
            };
            outcome(&mut ctx, &names, src, v);
        }
    }
    std::mem::forget(ctx);
}

pub fn outcome(ctx: &mut papyri_lang::compiler::Context, names: &util::Names, src: Vec<u8>, want: Option<V>) {
    let src = sym::text(src);
    sym::observe(src.as_bytes());
    let r = ctx.compile_synthetic("t", &src);
    let failed = ctx.diagnostics.num_errors > 0;
    sym::cover(want.is_none() as u32);
    match want {
        None => sym::check(failed, 50, "no error was reported"),
        Some(w) => {
            sym::check(!failed, 51, "an error was reported");
            if !failed {
                match r.exports.values().last() {
                    None => sym::check(false, 53, "nothing was exported"),
                    Some(v) => {
                        let mut o = Vec::new();
                        util::show(&util::model(ctx, v), &mut o);
                        sym::observe(&o);
                        sym::check(util::same(ctx, names, v, &w), 54, "the value differs from the reference");
                    }
                }
            }
        }
    }
    std::mem::forget(r);
    std::mem::forget(src);
}
