//! C06..C10: programs over all kinds of values against the reference
//! interpreter.
use crate::refi::*;
use crate::{sym, util};
use std::rc::Rc;

fn ch(n: u32) -> u32 { sym::choose(n) }

pub const GAPS: &[&str] = &["", " ", "\n", "<!-- c -->"];

/// the names of dictionary keys the generators use
const KEYS: &[&str] = &["p", "q", "r", "s", "_a", "_b"];

fn digit() -> E { E::Int(vec![sym::digit()]) }
fn letter() -> u8 { sym::range(b'a', b'd') }
fn it(c: u8) -> It { It::Text(vec![c]) }
fn verb1() -> E { E::Verb(vec![letter()]) }
fn thunk() -> E { E::Fn(Rc::new(Def { name: None, params: vec![], content: None, body: E::Unit })) }

/// a value of a simple kind, its leaves symbolic
fn scalar() -> E {
    match ch(6) {
        0 => E::Unit,
        1 => E::Bool(ch(2) == 1),
        2 => digit(),
        3 => verb1(),
        4 => tag("i", vec![it(letter())]),
        _ => tag("div", vec![it(letter())]),
    }
}

/// an expression of any kind
fn any(depth: u32) -> E { any2(depth, true) }
/// `nested`: functions may occur inside lists and dictionaries
/// text and blocks next to each other
fn siblings() -> E {
    let (a, b) = (E::Verb(vec![letter()]), tag("div", vec![]));
    E::Join(match ch(4) { 0 => vec![a, b], 1 => vec![b, a], 2 => vec![a, tag("i", vec![])], _ => vec![E::Verb(vec![b' ']), b] })
}

pub fn any2(depth: u32, nested: bool) -> E {
    let any = |d| { let e = any2(d, nested); if let E::Fn(_) = e { sym::assume(nested); } e };
    match ch(if depth == 0 { 10 } else { 17 }) {
        0 => E::Unit,
        1 => E::Bool(true),
        2 => digit(),
        3 => verb1(),
        4 => E::Verb(vec![]),
        5 => tag("i", vec![it(letter())]),
        6 => tag("div", vec![it(letter())]),
        7 => E::Group(vec![it(letter()), It::E(tag("i", vec![]))]),
        8 => thunk(),
        9 => E::Int(vec![b'-', b'1', b"038"[ch(3) as usize]]),
        10 => list(vec![]),
        11 => list(vec![any(depth - 1)]),
        12 => list(vec![any(depth - 1), scalar()]),
        13 => dict(vec![("p", any(depth - 1))]),
        14 => E::Group(vec![it(letter()), It::E(tag("p", vec![it(letter())]))]),
        15 => siblings(),
        // in either order
        _ => { let (a, b) = (("p", any(0)), ("q", digit())); dict(if ch(2) == 0 { vec![a, b] } else { vec![b, a] }) }
    }
}

fn prim() -> T {
    match ch(10) { 0 => T::Any, 1 => T::None, 2 => T::Html, 3 => T::Block, 4 => T::Inline, 5 => T::Bool, 6 => T::Int, 7 => T::Str, 8 => T::Func, _ => T::Regex }
}

/// a type as it can be written without a warning
fn ty(depth: u32) -> T { wrapped(prim(), depth) }
fn wrapped(mut t: T, depth: u32) -> T {
    for _ in 0..depth {
        t = match ch(4) { 0 => break, 1 => t.list(), 2 => t.dict(), _ => { sym::assume(!t.has_unit()); T::Opt(Box::new(t)) } };
    }
    t
}

fn def(name: N, params: Vec<Param>, content: Option<Param>, body: E) -> It { It::Fn(Rc::new(Def { name: Some(name), params, content, body })) }
fn typed(kind: Pk, name: N, t: T) -> Param { Param { ty: Some(t), ..param(kind, name) } }
fn seen(n: N) -> E { list(vec![var(n), call("typeof", vec![], var(n))]) }

/// a value that reaches a place of a declared type in one of several ways
fn coercion(way: u64, d: u32, items: &mut Vec<It>) -> E {
    if way >= 8 {
        let v = any2(d, false);
        return match way {
            8 => E::Tag(Box::new(TagE { name: Tn::Lit("i"), attrs: vec![At::Val("x", ch(2) == 1, v)], kids: vec![] })),
            9 => let_(vec![("v", v)], E::Tmpl(vec![TP::Lit(b"x".to_vec()), TP::Var(path("v")), TP::Lit(b"y".to_vec())])),
            10 => E::Tag(Box::new(TagE { name: Tn::Lit("i"), attrs: vec![At::Spread(dict(vec![("p", v)]))], kids: vec![] })),
            11 => let_(vec![("v", v)], match ch(4) {
                0 => tag("div", vec![It::E(var("v"))]),
                1 => tag("i", vec![it(b'x'), It::E(var("v"))]),
                2 => E::Group(vec![It::E(var("v")), it(b';')]),
                _ => tag("ul", vec![it(b'x'), It::E(var("v")), It::E(tag("li", vec![]))]),
            }),
            _ => let_(vec![("v", v)], list(vec![(var("v")), group(var("v")), tag("section", vec![It::E(var("v"))])])),
        };
    }
    let t = ty(d);
    let v = any2(d, false);
    match way {
        0 => { items.push(def("ff", vec![], Some(typed(Pk::Pos, "v", t)), seen("v"))); call("ff", vec![], v) }
        1 => { items.push(def("ff", vec![typed(Pk::Pos, "_v", t)], None, seen("_v"))); call("ff", vec![pos(v)], E::Unit) }
        2 => { items.push(def("ff", vec![typed(Pk::Named, "v", t)], None, seen("v"))); call("ff", vec![named("v", v)], E::Unit) }
        3 => { items.push(def("ff", vec![typed(Pk::PosSpread, "_v", t.list())], None, seen("_v"))); call("ff", vec![pos(digit()), pos(v)], E::Unit) }
        4 => { items.push(def("ff", vec![typed(Pk::NamedSpread, "v", t.dict())], None, seen("v"))); call("ff", vec![named("p", digit()), named("q", v)], E::Unit) }
        5 => { items.push(def("ff", vec![Param { default: Some(v), ..typed(Pk::Named, "v", t) }], None, seen("v"))); call("ff", vec![], E::Unit) }
        6 => { items.push(def("ff", vec![Param { opt: true, ..typed(Pk::Named, "v", t) }], None, seen("v"))); call("ff", vec![named("v", v)], E::Unit) }
        _ => {
            items.push(def("ff", vec![Param { implicit: true, opt: ch(2) == 1, ..typed(Pk::Named, "v", t) }], None, seen("v")));
            E::Let(true, vec![("v", v)], Box::new(call("ff", vec![], E::Unit)))
        }
    }
}

pub fn run() {
    let mut ctx = util::ctx();
    let names = util::Names::new(&mut ctx, KEYS);
    let gap = GAPS[sym::param(2) as usize];
    let mut items = vec![];
    let d = sym::param(1) as u32;
    let x = match (sym::harness(), sym::param(0)) {
        (6, w) => coercion(w, d, &mut items),
        // the type of a value
        (7, 0) => call("typeof", vec![], any(d)),
        // whether a value belongs to a type
        (7, 1) => { let t = ty(d); let v = any(d); E::Match(Box::new(v), vec![(P::Typed(t), E::Bool(true)), (P::Ignore, E::Bool(false))]) }
        (7, 2) => { let t = ty(d); let v = any(d); E::Match(Box::new(v), vec![(P::VarTyped("v", t), seen("v")), (P::TypeOf("t"), var("t"))]) }
        // equality
        (7, 3) => { let (v, w) = (any(d), any(d)); E::Match(Box::new(v), vec![(P::Is(group_if(w)), E::Bool(true)), (P::Ignore, E::Bool(false))]) }
        (7, 4) => { let (v, w) = (any(d), any(d)); let_(vec![("v", v), ("w", w)], list(vec![eqs("v", "w"), eqs("w", "v"), eqs("v", "v")])) }
        // the type of a list of several values
        (7, 5) => { let v = (0..sym::param(3)).map(|_| any2(d, true)).collect(); call("typeof", vec![], list(v)) }
        (8, 0) => args(d, sym::param(3) as u32, &mut items),
        (8, 1) => binding(d, &mut items),
        (9, 0) => matching(d),
        (9, 1) => structure(d),
        (9, 2) => template_pattern(d),
        (9, 3) => nested(d, sym::param(3)),
        (10, 1) => chain(d, &mut items),
        (10, 0) => document(d, if sym::param(3) == 0 { 1023 } else { sym::param(3) }, &mut items),
        _ => return,
    };
    let code = util::against(&mut ctx, &names, &items, &x, gap);
    sym::cover(code);
    std::mem::forget(x);
    std::mem::forget(items);
    std::mem::forget(ctx);
}

fn group_if(e: E) -> E { e }
fn eqs(a: N, b: N) -> E { E::Match(Box::new(var(a)), vec![(P::Is(var(b)), E::Bool(true)), (P::Ignore, E::Bool(false))]) }

// ---- C08: parameters and arguments
const POS: &[N] = &["_a", "_b", "_c", "_d"];
const NAMED: &[N] = &["p", "q", "r", "s"];

/// the parameters of a function of `n` parameters, of all kinds
fn params(n: u32, types: bool) -> Vec<Param> {
    let mut out: Vec<Param> = vec![];
    for i in 0..n as usize {
        let some = |p: Param| if types { match ch(3) { 0 => p, 1 => Param { ty: Some(T::Int), ..p }, _ => Param { ty: Some(T::Str), ..p } } } else { p };
        let p = match if sym::param(7) == 1 && i == 0 { 8 } else { ch(if types { 9 } else { 8 }) } {
            0 => some(param(Pk::Pos, POS[i])),
            1 => Param { opt: true, ..some(param(Pk::Pos, POS[i])) },
            2 => Param { default: Some(verb("0")), ..some(param(Pk::Pos, POS[i])) },
            3 => some(param(Pk::Named, NAMED[i])),
            4 => Param { opt: true, ..some(param(Pk::Named, NAMED[i])) },
            5 => Param { default: Some(verb("0")), ..param(Pk::Named, NAMED[i]) },
            6 => { let p = param(Pk::PosSpread, POS[i]); if types && ch(2) == 1 { Param { ty: Some(T::Str.list()), ..p } } else { p } }
            7 => { let p = param(Pk::NamedSpread, NAMED[i]); if types && ch(2) == 1 { Param { ty: Some(T::Str.dict()), ..p } } else { p } }
            _ => Param { implicit: true, opt: ch(2) == 1, ..some(param(Pk::Named, NAMED[i])) },
        };
        out.push(p);
    }
    out
}

fn value(types: bool) -> E { if types && ch(2) == 1 { verb1() } else { digit() } }

/// arguments; `lst` and `dct` name a list and a dictionary
fn arguments(m: u32, types: bool) -> Vec<Arg> {
    (0..m).map(|_| match ch(8) {
        0 => pos(value(types)),
        1 => named("p", value(types)),
        2 => named("q", value(types)),
        3 => named("_a", value(types)),
        4 => spread(list(vec![])),
        5 => spread(list(vec![value(false), digit()])),
        6 => dspread(dict(vec![("p", digit())])),
        _ => dspread(dict(vec![("q", digit()), ("r", digit())])),
    }).collect()
}

fn content() -> E { match ch(3) { 0 => E::Unit, 1 => digit(), _ => verb1() } }

fn all(ps: &[Param], c: &Option<Param>) -> E { list(ps.iter().chain(c.iter()).map(|p| var(p.name)).collect()) }

/// a function and a call with arguments
fn args(n: u32, m: u32, items: &mut Vec<It>) -> E {
    let types = sym::param(4) == 1;
    let ps = params(n, types);
    let c = match ch(if types { 4 } else { 2 }) { 0 => None, 1 => Some(param(Pk::Pos, "cc")), 2 => Some(typed(Pk::Pos, "cc", T::Int)), _ => Some(Param { opt: true, ..typed(Pk::Pos, "cc", T::Str) }) };
    let body = all(&ps, &c);
    let d = Def { name: Some("ff"), params: ps, content: c, body };
    if bad_def(&d) { items.push(It::Fn(Rc::new(d))); return digit(); }
    let implicit = d.params.iter().any(|p| p.implicit);
    items.push(It::Fn(Rc::new(d)));
    let a = arguments(m, types);
    let e = call("ff", a, content());
    if implicit { match ch(3) { 0 => e, 1 => E::Let(true, vec![("p", digit())], Box::new(e)), _ => E::Let(false, vec![("q", verb1())], Box::new(e)) } } else { e }
}

fn bind(mut a: Vec<Arg>, c: E) -> E { a.insert(0, pos(var("ff"))); call2("function", "bind", a, c) }

/// a function, arguments bound in one or two steps, and a call
fn binding(n: u32, items: &mut Vec<It>) -> E {
    let types = sym::param(6) == 1;
    let ps = params(n, types);
    let c = match ch(if n == 0 { 6 } else { 2 }) { 0 => None, 1 => Some(param(Pk::Pos, "cc")), 2 => Some(typed(Pk::Pos, "cc", T::Int)), 3 => Some(typed(Pk::Pos, "cc", T::Str)), 4 => Some(Param { opt: true, ..typed(Pk::Pos, "cc", T::Int) }), _ => Some(typed(Pk::Pos, "cc", T::Html)) };
    let body = all(&ps, &c);
    let d = Def { name: Some("ff"), params: ps, content: c, body };
    sym::assume(!bad_def(&d));
    items.push(It::Fn(Rc::new(d)));
    let some = sym::param(5) == 1;
    if some { sym::assume(matches!(items[0], It::Fn(ref d) if matches!(d.params[0].kind, Pk::Pos | Pk::Named) && d.params[0].default.is_none() && d.content.is_none())); }
    let b = bind(arguments(1, types), if some { E::Unit } else { content() });
    if sym::param(3) == 1 {
        let one = || match ch(3) { 0 => pos(digit()), 1 => named("p", digit()), _ => dspread(dict(vec![("p", digit()), ("r", digit())])) };
        let two = call2("function", "bind", if n == 0 { vec![pos(var("g"))] } else { vec![pos(var("g")), one()] }, content());
        let more = if n == 0 || ch(2) == 0 { vec![] } else { vec![one()] };
        return let_(vec![("g", b), ("h", two)], call("h", more, content()));
    }
    // with an implicit parameter
    if sym::param(7) == 1 {
        let e = call("g", arguments(ch(2), types), content());
        let q = NAMED[0];
        return match ch(3) {
            0 => let_(vec![("g", b)], e),
            1 => E::Let(true, vec![(q, digit())], Box::new(let_(vec![("g", b)], e))),
            _ => let_(vec![("g", b)], E::Let(true, vec![(q, digit())], Box::new(e))),
        };
    }
    if ch(5) == 0 { return let_(vec![("g", b)], list(vec![])); }
    let_(vec![("g", b)], call("g", arguments(ch(2), types), content()))
}

// ---- C09: patterns
struct Pats { next: usize, names: Vec<N>, narrow: bool }
const VARS: &[N] = &["x0", "x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8", "x9", "xa"];

impl Pats {
    fn fresh(&mut self) -> N {
        // a new name, or one bound already
        if !self.names.is_empty() && sym::param(4) & 1 != 0 && ch(3) == 0 { return self.names[self.names.len() - 1]; }
        let n = VARS[self.next];
        self.next += 1;
        self.names.push(n);
        n
    }
    fn lit(&mut self) -> E { match ch(5) { 0 => digit(), 1 => verb1(), 2 => E::Bool(ch(2) == 1), 3 => E::Int(vec![b'-', sym::range(b'1', b'9')]), _ => E::Tmpl(vec![TP::Lit(vec![letter(), letter()])]) } }
    fn ty(&mut self) -> T { match ch(7) { 0 => T::Int, 1 => T::Str, 2 => T::Inline, 3 => T::Block, 4 => T::Any.list(), 5 => T::Int.dict(), _ => T::Opt(Box::new(T::Bool)) } }
    /// a few patterns
    fn small(&mut self) -> P { match ch(5) { 0 => P::Ignore, 1 => P::Var(self.fresh()), 2 => P::Lit(digit()), 3 => P::Typed(T::Inline), _ => P::Is(var("y")) } }
    /// no alternatives or conjunctions at the top
    fn prim(&mut self, d: u32) -> P {
        if d == 0 && self.narrow { return self.small(); }
        match ch(if d == 0 { 8 } else { 13 }) {
            0 => P::Ignore,
            1 => P::None,
            2 => P::Var(self.fresh()),
            3 => P::Lit(self.lit()),
            4 => P::Is(var("y")),
            5 => { let t = self.ty(); P::Typed(t) }
            6 => { let n = self.fresh(); let t = self.ty(); P::VarTyped(n, t) }
            7 => P::TypeOf(self.fresh()),
            8 => { let (ps, sp) = self.seq(d - 1, 2); P::List(ps, sp) }
            9 => { let (ps, sp) = self.seq(d - 1, 2); P::Nodes(ps, sp) }
            10 => { let n = ch(3) as usize; let ps = (0..n).map(|i| (KEYS[i], self.prim(d - 1))).collect(); P::Dict(ps, self.rest(d - 1)) }
            11 => {
                let n = match ch(4) { 0 => None, 1 => Some(Ok("i")), 2 => Some(Ok("div")), _ => Some(Err(self.fresh())) };
                let ats = match ch(3) { 0 => vec![], 1 => vec![("p", None)], _ => vec![("p", Some(self.prim(0)))] };
                let r = self.rest(0);
                // the content of a tag is a sequence of nodes, or any one pattern
                P::Tag(n, ats, r, Box::new(self.prim(d - 1)))
            }
            _ => P::Tmpl(vec![TP::Lit(vec![letter()]), TP::Var(path(self.fresh()))]),
        }
    }
    fn rest(&mut self, d: u32) -> Option<Option<Box<P>>> { match ch(4) { 0 => None, 1 => Some(None), 2 => Some(Some(Box::new(P::Var(self.fresh())))), _ => Some(Some(Box::new(self.prim(d)))) } }
    fn seq(&mut self, d: u32, n: u32) -> (Vec<P>, Option<usize>) {
        let n = ch(n + 1);
        let sp = match ch(n + 1) { 0 => None, k => Some(k as usize - 1) };
        ((0..n).map(|_| self.prim(d)).collect(), sp)
    }
    fn pat(&mut self, d: u32) -> P {
        match ch(6) + 1 {
            1 => self.prim(d),
            6 => P::Or(Box::new(P::And(Box::new(self.small()), Box::new(self.small()))), Box::new(self.prim(d))),
            2 => P::And(Box::new(self.prim(d)), Box::new(self.small())),
            3 => P::And(Box::new(self.small()), Box::new(self.prim(d))),
            4 => P::Or(Box::new(self.small()), Box::new(self.prim(d))),
            _ => P::Or(Box::new(self.prim(d)), Box::new(P::And(Box::new(self.small()), Box::new(self.small())))),
        }
    }
}

fn value9(d: u32) -> E {
    match ch(if d == 0 { 8 } else { 14 }) {
        0 => E::Unit,
        1 => E::Bool(true),
        2 => digit(),
        3 => verb1(),
        4 => E::Verb(vec![letter(), letter()]),
        5 => tag("i", vec![it(letter())]),
        6 => tag("div", vec![it(letter())]),
        7 => E::Group(vec![it(letter()), It::E(tag("i", vec![]))]),
        8 => list(vec![]),
        9 => list(vec![value9(d - 1)]),
        10 => list(vec![value9(d - 1), scalar()]),
        11 => dict(vec![("p", value9(d - 1))]),
        12 => dict(vec![("p", scalar()), ("q", digit())]),
        _ => E::Tag(Box::new(TagE { name: Tn::Lit("i"), attrs: vec![if ch(2) == 0 { At::Bare("p") } else { At::Val("p", false, verb1()) }], kids: vec![It::E(tag("b", vec![])), it(letter())] })),
    }
}

/// a value against a pattern, then one that always matches; `kind` is what
/// is varied
fn matching(kind: u32) -> E {
    let n = sym::param(3) as u32;
    let mut g = Pats { next: 0, names: vec![], narrow: kind >= 2 };
    let some = || match ch(4) { 0 => digit(), 1 => verb1(), 2 => tag("i", vec![it(letter())]), _ => list(vec![digit()]) };
    let node = || match ch(3) { 0 => it(letter()), 1 => It::E(tag("i", vec![it(letter())])), _ => It::E(tag("hr", vec![])) };
    let (p, v) = match kind {
        0 => (g.prim(0), value9(1)),
        1 => (g.pat(0), value9(0)),
        2 => { let (ps, sp) = g.seq(0, n); let k = ch(n + 2); (P::List(ps, sp), if k == n + 1 { scalar() } else { list((0..k).map(|_| some()).collect()) }) }
        3 => { let (ps, sp) = g.seq(0, n); let k = ch(n + 2); (P::Nodes(ps, sp), if k == n + 1 { some() } else { E::Group((0..k).map(|_| node()).collect()) }) }
        4 => {
            let k = ch(n + 1) as usize;
            let ps = (0..k).map(|i| (KEYS[(i + ch(2) as usize) % 3], g.prim(0))).collect();
            let r = g.rest(0);
            let v = match ch(5) { 0 => scalar(), 1 => dict(vec![]), 2 => dict(vec![("p", some())]), 3 => dict(vec![("p", some()), ("q", some())]), _ => dict(vec![("r", digit()), ("q", some()), ("p", E::Unit)]) };
            (P::Dict(ps, r), v)
        }
        // tags: the attributes, or the rest
        5 | 6 => {
            let at = |n| if ch(2) == 0 { At::Bare(n) } else { At::Val(n, false, verb1()) };
            let inner = kind == 6;
            let name = match if inner { ch(4) } else { 0 } { 0 => None, 1 => Some(Ok("i")), 2 => Some(Ok("div")), _ => Some(Err(g.fresh())) };
            let ats = match if inner { ch(2) } else { ch(4) } { 0 => vec![], 1 => vec![("p", None)], 2 => vec![("p", Some(g.prim(0)))], _ => vec![("q", Some(P::Var(g.fresh()))), ("p", Some(g.prim(0)))] };
            let r = match if inner { ch(2) } else { ch(3) } { 0 => None, 1 => Some(None), _ => Some(Some(Box::new(g.prim(0)))) };
            let c = if !inner { P::Ignore } else { match ch(3) { 0 => g.prim(0), 1 => { let (ps, sp) = g.seq(0, n); P::Nodes(ps, sp) } _ => P::TypeOf(g.fresh()) } };
            let p = P::Tag(name, ats, r, Box::new(c));
            if inner && ch(4) == 0 { (p, value9(0)) } else {
                let attrs = match ch(if inner { 2 } else { 4 }) { 0 => vec![], 1 => vec![at("p")], 2 => vec![at("p"), at("q")], _ => vec![At::Spread(dict(vec![("q", E::Unit), ("p", verb1())]))] };
                let kids = match if inner { ch(3) } else { 0 } { 0 => vec![], 1 => vec![it(letter())], _ => vec![It::E(tag("b", vec![])), it(letter())] };
                (p, E::Tag(Box::new(TagE { name: Tn::Lit(if ch(2) == 0 { "i" } else { "div" }), attrs, kids })))
            }
        }
        // nesting
        _ => (match sym::param(5) { 0 => P::List(vec![g.prim(1)], None), 1 => P::Dict(vec![("p", g.prim(1))], None), 2 => P::Tag(None, vec![], None, Box::new(g.prim(1))), _ => P::And(Box::new(g.prim(1)), Box::new(P::Var(g.fresh()))) },
            match sym::param(5) { 0 => list(vec![value9(n)]), 1 => dict(vec![("p", value9(n))]), 2 => tag("i", match ch(3) { 0 => vec![it(letter())], 1 => vec![It::E(tag("b", vec![it(letter())]))], _ => vec![it(letter()), It::E(tag("b", vec![]))] }), _ => value9(n) }),
    };
    let mut ns = vec![];
    bound(&p, &mut ns);
    let y = if has_is(&p) { if ch(2) == 0 { digit() } else { verb1() } } else { E::Unit };
    let body = list(ns.iter().map(|n| var(n)).collect());
    let_(vec![("y", y)], E::Match(Box::new(v), vec![(p, body), (P::Var("z"), list(vec![verb("no"), var("z")]))]))
}

fn has_is(p: &P) -> bool {
    match p {
        P::Is(_) => true,
        P::And(a, b) | P::Or(a, b) => has_is(a) || has_is(b),
        P::List(ps, _) | P::Nodes(ps, _) => ps.iter().any(has_is),
        P::Dict(ps, r) => ps.iter().any(|p| has_is(&p.1)) || matches!(r, Some(Some(p)) if has_is(p)),
        P::Tag(_, ps, r, c) => ps.iter().any(|p| p.1.as_ref().map_or(false, has_is)) || matches!(r, Some(Some(p)) if has_is(p)) || has_is(c),
        _ => false,
    }
}

/// spreads in lists and sequences: lengths 0..5 against patterns of 0..4
fn structure(n: u32) -> E {
    let len = ch(n + 2);
    let vals: Vec<E> = (0..len).map(|_| digit()).collect();
    let k = ch(n + 1);
    let sp = match ch(k + 1) { 0 => None, j => Some(j as usize - 1) };
    let ps: Vec<P> = (0..k as usize).map(|i| match ch(3) { 0 if sp != Some(i) => P::Lit(digit()), 1 => P::Ignore, _ => P::Var(VARS[i]) }).collect();
    let p = P::List(ps, sp);
    let mut ns = vec![];
    bound(&p, &mut ns);
    let body = list(ns.iter().map(|n| var(n)).collect());
    E::Match(Box::new(list(vals)), vec![(p, body), (P::Ignore, E::Bool(false))])
}

/// spread patterns whose rest is matched by another one, `d` levels: of
/// lists (kind 0), content (1) and dictionaries (2)
fn nested(d: u32, kind: u64) -> E {
    let mut next = 0;
    fn go(d: u32, kind: u64, next: &mut usize) -> P {
        let mut v = || { let n = VARS[*next]; *next += 1; P::Var(n) };
        if d == 0 { return if ch(3) == 0 { P::Ignore } else { v() }; }
        if kind == 2 {
            let k = [KEYS[ch(3) as usize]];
            let ps = k.iter().map(|n| (*n, v())).collect();
            return P::Dict(ps, match ch(4) { 0 => None, 1 => Some(None), _ => Some(Some(Box::new(go(d - 1, kind, next)))) });
        }
        let mut ps = vec![];
        let pre = ch(3);
        for _ in 0..pre { ps.push(v()); }
        let post = ch(2);
        let end = if post == 1 { Some(v()) } else { None };
        ps.push(go(d - 1, kind, next));
        ps.extend(end);
        // without a spread the nested pattern is for one element
        let sp = if d > 1 || ch(4) > 0 { Some(pre as usize) } else { None };
        if kind == 0 { P::List(ps, sp) } else { P::Nodes(ps, sp) }
    }
    let p = go(d, kind, &mut next);
    let len = ch(6) as usize;
    let v = match kind {
        0 => list((0..len).map(|_| digit()).collect()),
        1 => E::Group((0..len).map(|_| It::E(tag("i", vec![it(letter())]))).collect()),
        _ => dict((0..len.min(4)).map(|i| (KEYS[(i + 1) % 4], digit())).collect()),
    };
    let mut ns = vec![];
    bound(&p, &mut ns);
    let body = list(ns.iter().map(|n| var(n)).collect());
    E::Match(Box::new(v), vec![(p, body), (P::Ignore, E::Bool(false))])
}

/// a template pattern of up to three variables against a string
fn template_pattern(n: u32) -> E {
    let len = 1 + ch(n);
    let s: Vec<u8> = (0..len).map(|_| sym::one_of(b"ab .")).collect();
    let mut ps = vec![];
    let k = ch(4);
    let mut vars = 0;
    for _ in 0..k {
        let last = matches!(ps.last(), Some(TP::Var(_)));
        match ch(4) {
            0 => ps.push(TP::Lit(vec![sym::range(b'a', b'b')])),
            1 => ps.push(TP::Lit(vec![b'.'])),
            2 => { sym::assume(!matches!(ps.last(), Some(TP::Ws)) && !ps.is_empty()); ps.push(TP::Ws) }
            _ => { let _ = last; ps.push(TP::Var(path(VARS[vars]))); vars += 1; }
        }
    }
    let p = P::Tmpl(ps);
    let mut ns = vec![];
    bound(&p, &mut ns);
    let body = list(ns.iter().map(|n| var(n)).collect());
    E::Match(Box::new(E::Verb(s)), vec![(p, body), (P::Ignore, E::Bool(false))])
}

// ---- C10: scoping
/// names that may or may not be bound, to values or functions
fn leaf() -> E {
    match ch(6) {
        0 => digit(),
        1 => var("x0"),
        2 => var("x1"),
        3 => call("f0", vec![], E::Unit),
        4 => call("f1", vec![], E::Unit),
        _ => call("f1", vec![pos(digit())], E::Unit),
    }
}
fn func(params: Vec<Param>, body: E) -> E { E::Fn(Rc::new(Def { name: None, params, content: None, body })) }

/// an expression that binds and uses names, `d` constructs deep
fn scoped(d: u32, mask: u64) -> E {
    if d == 0 { return leaf(); }
    let k = ch(10);
    sym::assume(mask & (1 << k) != 0);
    // either part may go deep
    let (a, b) = if d == 1 { (0, 0) } else if ch(2) == 0 { (0, d - 1) } else { (d - 1, 0) };
    let x = |n: u32| ["x0", "x1"][ch(n) as usize];
    let f = || ["f0", "f1"][ch(2) as usize];
    match k {
        0 => let_(vec![(x(2), scoped(a, mask))], list(vec![scoped(b, mask)])),
        1 => let_(vec![(f(), func(vec![], scoped(a, mask)))], list(vec![scoped(b, mask)])),
        2 => let_(vec![("f1", func(vec![Param { opt: true, ..param(Pk::Pos, "_a") }], list(vec![var("_a"), scoped(a, mask)])))], list(vec![scoped(b, mask)])),
        3 => E::Let(true, vec![(x(2), scoped(a, mask))], Box::new(list(vec![scoped(b, mask)]))),
        4 => let_(vec![(f(), func(vec![Param { implicit: true, opt: ch(2) == 1, ..param(Pk::Named, "x0") }], list(vec![var("x0"), scoped(a, mask)])))], list(vec![scoped(b, mask)])),
        5 => E::Match(Box::new(scoped(a, mask)), vec![(P::Var(x(2)), scoped(b, mask))]),
        6 => list(vec![scoped(a, mask), scoped(b, mask)]),
        7 => E::Group(vec![It::Fn(Rc::new(Def { name: Some(f()), params: vec![], content: None, body: scoped(a, mask) })), It::E(list(vec![scoped(b, mask)]))]),
        8 => let_(vec![("x0", scoped(a, mask)), ("x1", leaf())], list(vec![scoped(b, mask)])),
        _ => E::Match(Box::new(list(vec![scoped(a, mask), digit()])), vec![(P::List(vec![P::Var("x0"), P::Lit(digit())], None), scoped(b, mask)), (P::Ignore, leaf())]),
    }
}

/// a function with an implicit parameter called below `n` bindings
fn chain(n: u32, items: &mut Vec<It>) -> E {
    items.push(def("f0", vec![Param { implicit: true, opt: ch(2) == 1, ..param(Pk::Named, "x0") }], None, E::Match(Box::new(var("x0")), vec![(P::VarTyped("n", T::Int), list(vec![var("n")])), (P::TypeOf("n"), var("n"))])));
    items.push(def("f1", vec![param(Pk::Pos, "_g")], None, call("_g", vec![], E::Unit)));
    fn go(n: u32) -> E {
        if n == 0 { return match ch(4) { 0 => call("f0", vec![], E::Unit), 1 => call("f0", vec![named("x0", digit())], E::Unit), 2 => call("f1", vec![pos(var("f0"))], E::Unit), _ => list(vec![call("f0", vec![], E::Unit), call("typeof", vec![], var("x0"))]) }; }
        match ch(9) {
            0 => let_(vec![("x0", digit())], go(n - 1)),
            1 => E::Let(true, vec![("x0", digit())], Box::new(go(n - 1))),
            2 => E::Let(true, vec![("x1", digit()), ("x0", digit())], Box::new(go(n - 1))),
            3 => E::Let(true, vec![("x1", digit())], Box::new(go(n - 1))),
            4 => E::Match(Box::new(digit()), vec![(P::Var("x0"), go(n - 1))]),
            5 => let_(vec![("f2", func(vec![], go(n - 1)))], E::Let(true, vec![("x0", digit())], Box::new(call("f2", vec![], E::Unit)))),
            6 => call("f1", vec![pos(func(vec![], go(n - 1)))], E::Unit),
            7 => E::Group(vec![It::Fn(Rc::new(Def { name: Some("x0"), params: vec![], content: None, body: E::Unit })), It::E(list(vec![go(n - 1)]))]),
            _ => let_(vec![("f2", func(vec![param(Pk::Pos, "_a"), param(Pk::Named, "x0")], go(n - 1)))], call("f2", vec![pos(digit()), named("x0", digit())], E::Unit)),
        }
    }
    go(n)
}

/// a document with statements before the expression
fn document(d: u32, mask: u64, items: &mut Vec<It>) -> E {
    for _ in 0..sym::param(4) {
        match ch(4) {
            0 => {}
            1 => items.push(def("f0", vec![], None, leaf())),
            2 => items.push(def("f1", vec![Param { opt: true, ..param(Pk::Pos, "_a") }], None, list(vec![var("_a"), leaf()]))),
            _ => items.push(It::E(let_(vec![("x0", digit())], list(vec![leaf()])))),
        }
    }
    scoped(d, mask)
}
