//! C23: regular expressions against a backtracking matcher.
use crate::refi::*;
use crate::{sym, util};
use std::rc::Rc;

fn ch(n: u32) -> u32 { sym::choose(n) }

/// an atom of a regular expression
enum A { Byte(u8), Dot, Set(&'static [u8], bool), Start, End, Group(Option<usize>, Vec<Vec<Q>>) }
/// an atom, how often it may occur and whether less is better
struct Q { a: A, lo: u32, hi: u32, lazy: bool }
struct Re { groups: Vec<Option<N>>, alts: Vec<Vec<Q>>, bad: bool }

const NAMES: &[N] = &["g", "h", "k"];

struct Gen { out: Vec<u8>, groups: Vec<Option<N>> }

impl Gen {
    fn seq(&mut self, n: u32, depth: u32, kind: u32) -> Vec<Q> { (0..n).map(|_| self.piece(depth, kind)).collect() }
    fn piece(&mut self, depth: u32, kind: u32) -> Q {
        let k = ch(if depth == 0 { 4 } else { 8 });
        let (a, quant) = match k {
            0 => { let c = b"ab"[ch(2) as usize]; self.out.push(c); (A::Byte(c), true) }
            1 => { self.out.push(b'.'); (A::Dot, true) }
            2 => { self.out.extend(b"[^a]"); (A::Set(b"a", false), true) }
            3 => { self.out.extend(b"[bc]"); (A::Set(b"bc", true), true) }
            4 => if ch(2) == 0 { self.out.push(b'^'); (A::Start, false) } else { self.out.push(b'$'); (A::End, false) },
            5 => { self.out.extend(b"(?:"); let g = self.alts(depth - 1, kind); self.out.push(b')'); (A::Group(None, g), false) }
            _ => {
                let id = self.groups.len();
                let name = match kind { 0 => None, 1 => Some(NAMES[id % 3]), _ => if ch(2) == 0 { None } else { Some(NAMES[id % 3]) } };
                self.groups.push(name);
                if let Some(n) = name { self.out.extend(b"(?P<"); self.out.extend(n.as_bytes()); self.out.push(b'>') } else { self.out.push(b'(') }
                let g = self.alts(depth - 1, kind);
                self.out.push(b')');
                // a repeated group always takes at least one character
                (A::Group(Some(id), g), k == 7)
            }
        };
        let quant = quant && !matches!(&a, A::Group(_, g) if g.iter().any(|s| s.iter().all(|q| q.lo == 0)));
        let (lo, hi, lazy) = match ch(if quant { 6 } else { 1 }) {
            0 => (1, 1, false),
            1 => { self.out.push(b'?'); (0, 1, false) }
            2 => { self.out.push(b'*'); (0, 99, false) }
            3 => { self.out.push(b'+'); (1, 99, false) }
            4 => { self.out.extend(b"*?"); (0, 99, true) }
            _ => { self.out.extend(b"{2}"); (2, 2, false) }
        };
        Q { a, lo, hi, lazy }
    }
    fn alts(&mut self, depth: u32, kind: u32) -> Vec<Vec<Q>> {
        let mut o = vec![];
        for i in 0..1 + ch(2) {
            if i > 0 { self.out.push(b'|'); }
            o.push(self.seq(1, depth, kind));
        }
        o
    }
}

type Caps = Vec<Option<(usize, usize)>>;
type K<'a> = &'a mut dyn FnMut(usize, &mut Caps) -> bool;

fn width(s: &[u8], i: usize) -> usize { if i >= s.len() { 0 } else if s[i] < 0x80 { 1 } else { 2 } }

fn atom(s: &[u8], i: usize, a: &A, caps: &mut Caps, k: K) -> bool {
    let w = width(s, i);
    match a {
        A::Byte(c) => w == 1 && s[i] == *c && k(i + w, caps),
        A::Dot => w > 0 && s[i] != b'\n' && k(i + w, caps),
        A::Set(set, yes) => { if w == 0 { return false; } let mut m = false; for c in *set { m |= s[i] == *c; } m == *yes && k(i + w, caps) }
        A::Start => i == 0 && k(i, caps),
        A::End => i == s.len() && k(i, caps),
        A::Group(id, alts) => {
            for a in alts {
                if seq(s, i, a, caps, &mut |j, caps| {
                    let Some(id) = id else { return k(j, caps) };
                    let old = caps[*id];
                    caps[*id] = Some((i, j));
                    let r = k(j, caps);
                    if !r { caps[*id] = old; }
                    r
                }) { return true; }
            }
            false
        }
    }
}

fn rep(s: &[u8], i: usize, q: &Q, n: u32, caps: &mut Caps, k: K) -> bool {
    if n < q.lo { return atom(s, i, &q.a, caps, &mut |j, c| rep(s, j, q, n + 1, c, k)); }
    if q.lazy && k(i, caps) { return true; }
    if n < q.hi && atom(s, i, &q.a, caps, &mut |j, c| rep(s, j, q, n + 1, c, k)) { return true; }
    !q.lazy && k(i, caps)
}

fn seq(s: &[u8], i: usize, qs: &[Q], caps: &mut Caps, k: K) -> bool {
    match qs.split_first() {
        None => k(i, caps),
        Some((q, rest)) => rep(s, i, q, 0, caps, &mut |j, c| seq(s, j, rest, c, k)),
    }
}

struct M { a: usize, b: usize, caps: Caps }

/// the first match at or after a place
fn first(re: &Re, s: &[u8], from: usize) -> Option<M> {
    let mut i = from;
    while i <= s.len() {
        for a in &re.alts {
            let mut caps: Caps = vec![None; re.groups.len()];
            let mut end = None;
            if seq(s, i, a, &mut caps, &mut |j, _| { end = Some(j); true }) { return Some(M { a: i, b: end.unwrap(), caps }); }
        }
        if i == s.len() { break; }
        i += width(s, i);
    }
    None
}

/// all matches: none overlap, and an empty one does not touch the one before
fn all(re: &Re, s: &[u8]) -> Vec<M> {
    let mut out: Vec<M> = vec![];
    let mut i = 0;
    while i <= s.len() {
        let Some(m) = first(re, s, i) else { break };
        if m.a == m.b && out.last().map_or(false, |l| l.b == m.a) { i = m.a + width(s, m.a).max(1); continue; }
        i = m.b;
        out.push(m);
    }
    out
}

fn value(re: &Re, s: &[u8], m: M) -> V {
    let part = |g: Option<(usize, usize)>| g.map_or(UNIT, |(a, b)| V::Str(s[a..b].to_vec()));
    if re.groups.is_empty() { return part(Some((m.a, m.b))); }
    if re.groups[0].is_none() { return V::List([Some((m.a, m.b))].into_iter().chain(m.caps).map(part).collect()); }
    V::Dict(re.groups.iter().zip(m.caps).map(|(n, g)| (n.unwrap().as_bytes().to_vec(), part(g))).collect())
}

/// expressions that are or are not accepted, the rule for the groups being the language's own
const SOURCES: &[(N, bool)] = &[
    ("", true), ("a", true), ("(", false), (")", false), ("*", false), ("a{2", false), ("[a", false), ("(?P<g>a)(?P<g>b)", false), ("(?P<g>a)(b)", false), ("(a)(?P<g>b)", false), ("(?P<g>a)(?:b)", true),
    ("(?P<g1>a)", true), ("(?P<_g>a)", true), ("(?P<g.h>a)", false), ("(?P<g[0]>a)", false), ("(?P<>a)", false), ("(?:a)", true), ("((?P<g>a))", false), ("(?i)a", true), ("(?P<G>a)", true), ("\\", false),
    ("(?P<g>a)|(b)", false), ("(?P<g>a)|(?P<h>b)", true), ("(a)|(b)", true), ("(?P<\u{e9}>a)", false),
];

fn group(g: &mut Gen, kind: u32, alts: Vec<(N, A)>) -> A {
    let id = g.groups.len();
    let name = match kind { 0 => None, 1 => Some(NAMES[id % 3]), _ => if ch(2) == 0 { None } else { Some(NAMES[id % 3]) } };
    g.groups.push(name);
    if let Some(n) = name { g.out.extend(b"(?P<"); g.out.extend(n.as_bytes()); g.out.push(b'>') } else { g.out.push(b'(') }
    let mut o = vec![];
    for (i, (t, a)) in alts.into_iter().enumerate() {
        if i > 0 { g.out.push(b'|'); }
        g.out.extend(t.as_bytes());
        o.push(vec![Q { a, lo: 1, hi: 1, lazy: false }]);
    }
    g.out.push(b')');
    A::Group(Some(id), o)
}

/// a piece that is often a group
fn piece(g: &mut Gen, kind: u32) -> Q {
    let (a, t, lo, hi): (A, N, u32, u32) = match ch(8) {
        0 => (A::Byte(b'a'), "a", 1, 1),
        1 => (A::Byte(b'b'), "b?", 0, 1),
        2 => (A::Dot, ".", 1, 1),
        3 => (group(g, kind, vec![("a", A::Byte(b'a'))]), "", 1, 1),
        4 => (group(g, kind, vec![("a", A::Byte(b'a')), (".", A::Dot)]), "*", 0, 99),
        5 => (group(g, kind, vec![("b", A::Byte(b'b'))]), "?", 0, 1),
        6 => { let id = g.groups.len(); g.groups.push(if kind == 0 { None } else { Some(NAMES[id % 3]) }); g.out.extend(if kind == 0 { "(".into() } else { format!("(?P<{}>", NAMES[id % 3]) }.as_bytes()); let i = group(g, kind, vec![("b", A::Byte(b'b'))]); g.out.extend(b"?)"); (A::Group(Some(id), vec![vec![Q { a: i, lo: 0, hi: 1, lazy: false }]]), "", 1, 1) }
        _ => (group(g, kind, vec![(".", A::Dot)]), "+?", 1, 99),
    };
    g.out.extend(t.as_bytes());
    Q { a, lo, hi, lazy: t == "+?" }
}

pub fn run() {
    let mut ctx = util::ctx();
    let names = util::Names::new(&mut ctx, NAMES);
    let (n, len, depth, wide) = (sym::param(0) as u32, sym::param(1), sym::param(2) as u32, sym::param(3));
    if depth == 9 {
        let (s, ok) = SOURCES[ch(SOURCES.len() as u32) as usize];
        let re = |s: N| call2("regex", "compile", vec![], verb(s));
        let (x, want) = match ch(5) {
            0 => (E::Match(Box::new(re(s)), vec![(P::Typed(T::Str), int(8)), (P::Typed(T::Regex), int(7)), (P::Ignore, int(9))]), ok.then(|| V::Int(7))),
            // two expressions are equal when they are written alike
            1 => {
                let (t, ok2) = SOURCES[ch(SOURCES.len() as u32) as usize];
                (call2("list", "contains", vec![pos(re(s))], list(vec![verb(s), if ok2 { re(t) } else { verb(t) }])), ok.then(|| V::Bool(ok2 && s == t)))
            }
            k => {
                // where one is expected, only one will do
                let t = if k == 2 { T::Regex } else { T::Str };
                let f = E::Fn(Rc::new(Def { name: None, params: vec![], content: Some(Param { ty: Some(t), ..param(Pk::Pos, "v") }), body: int(5) }));
                let arg = match ch(3) { 0 => re(s), 1 => verb(s), _ => E::Unit };
                let fits = match &arg { E::Verb(_) => k != 2, E::Unit => false, _ => k == 2 && ok };
                if k == 4 {
                    let v = V::Html(vec![H::El(b"code".to_vec(), vec![], vec![H::Text(format!("(@regex {s})").into_bytes())])]);
                    (call("hh", vec![], re(s)), ok.then(|| v))
                } else {
                    (let_(vec![("f", f)], call("f", vec![], arg)), fits.then(|| V::Int(5)))
                }
            }
        };
        let mut p = Pr::new("");
        p.out.extend(b"@fn hh $h: html -> $h\n@export(x=");
        p.e(&x);
        p.out.extend(b").\n");
        crate::text::outcome(&mut ctx, &names, std::mem::take(&mut p.out), want);
        std::mem::forget(x);
        std::mem::forget(ctx);
        return;
    }
    let kind = ch(3);
    let mut g = Gen { out: vec![], groups: vec![] };
    let mut top = |g: &mut Gen, n| if depth == 2 { (0..n).map(|_| piece(g, kind)).collect() } else { g.seq(n, depth, kind) };
    let mut alts = vec![top(&mut g, n)];
    if ch(2) == 1 { g.out.push(b'|'); alts.push(top(&mut g, 1)); }
    if g.groups.is_empty() { sym::assume(kind == 0); }
    let named = g.groups.iter().flatten().count();
    let bad = named > 0 && (named < g.groups.len() || named > 3);
    let re = Re { groups: g.groups, alts, bad };
    let mut s: Vec<u8> = vec![];
    for _ in 0..len { if wide == 1 && ch(3) == 0 { s.extend("\u{e9}".as_bytes()) } else { s.push(b"abc"[ch(if depth == 2 { 2 } else { 3 }) as usize]) } }
    let r = E::Verb(g.out);
    let t = || E::Verb(s.clone());
    let method = wide == 1 && ch(2) == 1;
    let op = |n: N| if method { call2("r", n, vec![], t()) } else { call2("regex", n, vec![pos(var("r"))], t()) };
    let x = let_(vec![("r", call2("regex", "compile", vec![], r))], list(["find", "find_all", "count", "test", "split"].into_iter().map(op).collect()));
    let mut p = Pr::new("");
    p.out.extend(b"@export(x=");
    p.e(&x);
    p.out.extend(b").\n");
    let src = sym::text(std::mem::take(&mut p.out));
    sym::observe(src.as_bytes());
    // the expressions are compiled once for all strings
    let r = ctx.compile_synthetic("t", &src);
    let failed = ctx.diagnostics.num_errors > 0;
    sym::cover(re.bad as u32);
    sym::check(failed == re.bad, 51, "an error was or was not reported");
    if !failed && !re.bad {
        let ms = || all(&re, &s);
        let want = V::List(vec![
            first(&re, &s, 0).map_or(UNIT, |m| value(&re, &s, m)),
            V::List(ms().into_iter().map(|m| value(&re, &s, m)).collect()),
            V::Int(ms().len() as i64),
            V::Bool(first(&re, &s, 0).is_some()),
            { let mut o = vec![]; let mut a = 0; for m in ms() { o.push(V::Str(s[a..m.a].to_vec())); a = m.b; } o.push(V::Str(s[a..].to_vec())); V::List(o) },
        ]);
        let v = r.exports.values().last().unwrap();
        let mut o = Vec::new();
        util::show(&util::model(&ctx, v), &mut o);
        sym::observe(&o);
        sym::check(util::same(&ctx, &names, v, &want), 54, "the value differs from the reference");
    }
    std::mem::forget(r);
    std::mem::forget(src);
    std::mem::forget(x);
    std::mem::forget(ctx);
}
