//! C04: the structure of the HTML produced for tags and documents.
use crate::refi::*;
use crate::{sym, util};

fn ch(n: u32) -> u32 { sym::choose(n) }
fn letter() -> It { It::Text(vec![sym::range(b'a', b'd')]) }

/// every tag the language knows about, some it does not, and void ones
const TAGS: &[&str] = &["a", "address", "article", "aside", "blockquote", "body", "caption", "code", "colgroup", "dd", "details", "div", "dl", "dt", "fieldset", "figcaption", "figure", "footer", "form",
    "h1", "h2", "h3", "h4", "h5", "h6", "head", "header", "hgroup", "html", "i", "iframe", "li", "main", "menu", "nav", "noscript", "ol", "p", "pre", "script", "section", "span", "strong", "style", "table",
    "tbody", "td", "template", "tfoot", "th", "thead", "title", "tr", "ul", "foo"];
const VOIDS: &[&str] = &["area", "base", "br", "col", "command", "embed", "hr", "img", "input", "keygen", "link", "menuitem", "meta", "param", "source", "track", "wbr", "!DOCTYPE"];
/// one or two of every kind of content
const OUTER: &[&str] = &["p", "div", "ul", "span", "section", "a", "hgroup", "dl", "table", "tr", "head", "html", "br"];
const INNER: &[&str] = &["li", "div", "i", "p", "dt", "tr", "td", "h2", "a", "br", "hr", "style", "tbody", "head"];

fn space(i: &It) -> bool { matches!(i, It::Ws | It::Break) }

fn simple(n: u32) -> It {
    match n {
        0 => letter(),
        1 => It::Ws,
        2 => It::Break,
        3 => It::E(tag("i", vec![letter()])),
        4 => It::E(tag("div", vec![letter()])),
        5 => It::E(tag("li", vec![letter()])),
        6 => It::E(tag("br", vec![])),
        7 => It::E(tag("hr", vec![])),
        8 => It::E(tag("a", vec![letter()])),
        9 => It::E(tag("a", vec![It::E(tag("div", vec![]))])),
        10 => It::E(var("text")),
        11 => It::E(var("mixed")),
        12 => It::E(var("seq")),
        13 => It::E(var("unit")),
        14 => It::E(tag("td", vec![letter()])),
        15 => It::E(tag("p", vec![letter()])),
        16 => It::E(tag("span", vec![It::Text(b"x".to_vec()), It::Break, It::Text(b"y".to_vec())])),
        17 => It::E(E::Group(vec![It::Text(b"x".to_vec()), It::Break, It::Text(b"y".to_vec())])),
        18 => It::E(var("sp")),
        19 => It::E(var("tb")),
        _ => It::E(var("bt")),
    }
}
const SIMPLE: u32 = 21;

fn kids(n: u32, most: u32) -> Vec<It> {
    let mut out: Vec<It> = vec![];
    for _ in 0..n {
        let i = simple(ch(most));
        sym::assume(!(space(&i) && out.last().map_or(false, space)));
        match (out.last(), &i) {
            // a letter would be part of the name
            (Some(It::E(E::Var(_))), It::Text(s)) => { let s = vec![b';', s[0]]; out.push(It::Text(s)); }
            _ => out.push(i),
        }
    }
    out
}

fn scope(e: E) -> E {
    let_(vec![
        ("text", verb("tt")),
        ("mixed", E::Group(vec![It::Text(b"x".to_vec()), It::E(tag("div", vec![])), It::Text(b"y".to_vec()), It::E(tag("i", vec![]))])),
        ("seq", list(vec![int(1), verb("v")])),
        ("unit", E::Unit),
        ("sp", verb(" ")),
        ("tb", E::Join(vec![verb("j"), tag("div", vec![])])),
        ("bt", E::Join(vec![tag("p", vec![]), verb(" "), tag("i", vec![])])),
    ], e)
}

fn outer(n: &'static str, kids: Vec<It>) -> E {
    // written as a computed name when the parser would not take content
    if VOIDS.contains(&n) && (!kids.is_empty() || n == "!DOCTYPE") {
        return let_(vec![("t", verb(n))], E::Tag(Box::new(TagE { name: Tn::Var("t"), attrs: vec![], kids })));
    }
    tag(n, kids)
}

/// the nesting rules, stated on the result alone
fn allowed(h: &H, out: &mut bool) {
    let H::El(n, _, ks) = h else { return };
    let name = std::str::from_utf8(n).unwrap();
    let blocks = ks.iter().any(H::block);
    let inline = ks.iter().any(|k| !k.block());
    *out &= match kind(name) {
        K::Inline | K::Line => !blocks,
        K::Empty => ks.is_empty(),
        K::Blocks => !inline,
        K::Allow => !(blocks && inline),
        K::OneOf(set) => ks.iter().all(|k| matches!(k, H::El(m, ..) if set.iter().any(|s| s.as_bytes() == &m[..]))),
    };
    for k in ks { allowed(k, out); }
}

/// items and an expression
pub fn build(mode: u64, n: u32, most: u32) -> (Vec<It>, E) {
    match mode {
        // any tag
        0 => {
            let k = ch(TAGS.len() as u32 + VOIDS.len() as u32) as usize;
            let name = if k < TAGS.len() { TAGS[k] } else { VOIDS[k - TAGS.len()] };
            (vec![], scope(outer(name, kids(n, SIMPLE))))
        }
        // any kind of tag, more children
        1 => { let name = OUTER[ch(OUTER.len() as u32) as usize]; (vec![], scope(outer(name, kids(n, most)))) }
        // any kind of tag in any kind of tag
        2 => {
            let (a, b) = (OUTER[ch(OUTER.len() as u32) as usize], INNER[ch(INNER.len() as u32) as usize]);
            let mut k = vec![];
            if ch(2) == 1 { k.push(simple(ch(5))); }
            k.push(It::E(outer(b, kids(ch(2), SIMPLE))));
            for _ in 0..n { k.push(simple(ch(5))); }
            (vec![], scope(outer(a, k)))
        }
        // two tags side by side in any kind of tag
        3 => {
            let a = OUTER[ch(OUTER.len() as u32) as usize];
            let mut k = vec![];
            for i in 0..2 {
                let b = INNER[ch(INNER.len() as u32) as usize];
                if i == 1 { match ch(4) { 0 => {} 1 => k.push(It::Ws), 2 => k.push(It::Break), _ => k.push(letter()) } }
                k.push(It::E(outer(b, vec![])));
            }
            (vec![], scope(outer(a, k)))
        }
        // a group
        4 => (vec![], scope(E::Group(kids(n, SIMPLE)))),
        // a document
        _ => {
            let mut its = vec![];
            for _ in 0..n {
                let i = match ch(13) { 11 => It::E(outer(INNER[ch(INNER.len() as u32) as usize], vec![])), 12 => It::E(scope(E::Group(vec![simple(match ch(6) { 4 => 19, 5 => 20, k => 10 + k })]))), k => simple(if k == 10 { 15 } else { k }) };
                sym::assume(!(space(&i) && its.last().map_or(true, space)));
                its.push(i);
            }
            (its, E::Unit)
        }
    }
}

pub fn run() {
    let mut ctx = util::ctx();
    let (items, x) = build(sym::param(0), sym::param(1) as u32, sym::param(2) as u32);
    if sym::param(0) < 5 {
        let names = util::Names::new(&mut ctx, &["p"]);
        let code = util::against(&mut ctx, &names, &items, &x, "");
        sym::cover(code);
        if code == 0 {
            if let Some(V::Html(h)) = Ev::default().e(&x, &Env::top()) {
                let mut ok = true;
                for h in &h { allowed(h, &mut ok); }
                sym::check(ok, 60, "the reference breaks a nesting rule");
            }
        }
    } else {
        let mut p = Pr::new("");
        p.items(&items);
        let src = sym::text(std::mem::take(&mut p.out));
        sym::observe(src.as_bytes());
        let want = Ev::default().items(&items, &Env::top()).and_then(|ps| fill(K::Blocks, ps));
        let r = ctx.compile_synthetic("t", &src);
        let failed = ctx.diagnostics.num_errors > 0;
        sym::cover(want.is_none() as u32);
        match want {
            None => sym::check(failed, 61, "no error was reported"),
            Some(w) => {
                sym::check(!failed, 62, "an error was reported");
                let mut out = vec![];
                render(&w, &mut out);
                let got = util::render(&ctx, &r.out);
                sym::observe(&got);
                if !failed {
                    sym::check(got == out, 63, "the document differs from the reference");
                    let mut ok = true;
                    for h in &w { allowed(h, &mut ok); ok &= h.block(); }
                    sym::check(ok, 60, "the reference breaks a nesting rule");
                }
            }
        }
        std::mem::forget(r);
        std::mem::forget(src);
    }
    std::mem::forget(items);
    std::mem::forget(x);
    std::mem::forget(ctx);
}
