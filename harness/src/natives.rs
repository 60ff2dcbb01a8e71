//! C11, C18, C19: the built-in functions of lists, strings and dictionaries.
use crate::refi::*;
use crate::{sym, util};
use std::rc::Rc;

fn ch(n: u32) -> u32 { sym::choose(n) }
fn digit() -> E { E::Int(vec![sym::digit()]) }
fn letter() -> u8 { sym::range(b'a', b'd') }
fn idx(n: N, i: i64) -> E { E::Var(Path { name: n, steps: vec![(false, Step::Idx(i))] }) }
fn func(c: Param, body: E) -> E { E::Fn(Rc::new(Def { name: None, params: vec![], content: Some(c), body })) }

/// an element of a list
fn element(kinds: u64) -> E {
    match kinds {
        0 => digit(),
        1 => E::Verb(vec![letter()]),
        2 => match ch(3) { 0 => digit(), 1 => E::Verb(vec![letter()]), _ => E::Unit },
        3 => match ch(9) {
            0 => digit(),
            1 => E::Verb(vec![letter()]),
            2 => E::Unit,
            3 => E::Bool(true),
            4 => list(vec![]),
            5 => list(vec![digit(), E::Unit]),
            6 => dict(vec![("p", digit())]),
            7 => tag("b", vec![It::Text(vec![letter()])]),
            _ => E::Group(vec![It::Text(vec![letter()]), It::E(tag("p", vec![]))]),
        },
        // something with a key
        4 => list(vec![if ch(2) == 0 { digit() } else { E::Int(vec![b'-', sym::range(b'1', b'9')]) }, int(0)]),
        5 => list(vec![E::Verb(if ch(2) == 0 { vec![letter()] } else { vec![letter(), letter()] }), int(0)]),
        _ => list(vec![match ch(4) { 0 => digit(), 1 => E::Verb(vec![letter()]), 2 => E::Bool(true), _ => E::Unit }, int(0)]),
    }
}

fn elements(kinds: u64, n: u64) -> Vec<E> {
    (0..n).map(|i| {
        let mut e = element(kinds);
        // so that equal keys can be told apart
        if kinds >= 4 { if let E::List(l) = &mut e { l[1].0 = int(i as i64); } }
        e
    }).collect()
}

/// a function for use as a callback
fn callback() -> E {
    let c = || param(Pk::Pos, "x");
    let r = || match ch(4) { 0 => E::Bool(true), 1 => E::Bool(false), 2 => int(1), _ => var("nothing") };
    match ch(8) {
        // with a parameter that only calls fill in by themselves
        7 => E::Fn(Rc::new(Def { name: None, params: vec![Param { implicit: true, opt: ch(2) == 0, ..param(Pk::Named, "i") }], content: Some(c()), body: E::Match(Box::new(var("i")), vec![(P::None, E::Bool(true)), (P::Ignore, E::Bool(false))]) })),
        0 => func(c(), E::Match(Box::new(var("x")), vec![(P::Lit(digit()), r()), (P::Lit(E::Verb(vec![letter()])), r()), (P::Ignore, r())])),
        1 => func(c(), E::Match(Box::new(var("x")), vec![(P::Typed(T::Int), E::Bool(true)), (P::Typed(T::Str), E::Bool(false))])),
        2 => func(c(), var("x")),
        3 => func(Param { ty: Some([T::Int, T::Str, T::Html][ch(3) as usize].clone()), ..c() }, match ch(2) { 0 => E::Bool(true), _ => list(vec![var("x")]) }),
        4 => E::Fn(Rc::new(Def { name: None, params: vec![], content: None, body: E::Bool(true) })),
        5 => E::Fn(Rc::new(Def { name: None, params: vec![Param { default: if ch(2) == 0 { Some(E::Bool(true)) } else { None }, ..param(Pk::Pos, "_p") }], content: Some(c()), body: var("_p") })),
        _ => int(3),
    }
}

fn small() -> i64 { [0, 1, -1, 2, -2, 3, -3, 4, -4, i64::MAX, -i64::MAX][ch(11) as usize] }

struct R { ev: Ev, env: Env }

impl R {
    fn v(&mut self, e: &E) -> Option<V> { self.ev.e(e, &self.env) }
    fn vs(&mut self, e: &[E]) -> Option<Vec<V>> { e.iter().map(|e| self.v(e)).collect() }
    fn call(&mut self, f: &V, x: V) -> Option<V> { if let V::Func(f) = f { self.ev.apply(f, f.bound.clone(), x, &self.env) } else { None } }
    fn test(&mut self, f: &V, x: V) -> Option<bool> { if let V::Bool(b) = self.call(f, x)? { Some(b) } else { None } }
}

/// the call `@type::name(args) content` or `@content::name(args).`
fn apply(ty: N, name: N, args: Vec<Arg>, content: E, method: bool) -> E {
    if method { let_(vec![("l", content)], call2("l", name, args, E::Unit)) } else { call2(ty, name, args, content) }
}

/// the list of these elements, as part of a longer one
fn part(mut es: Vec<E>) -> E {
    let n = es.len() as i64;
    match ch(3) {
        0 => { es.insert(0, int(7)); es.push(int(8)); call2("list", "slice", vec![pos(int(1)), pos(int(n + 1))], list(es)) }
        1 => { es.insert(0, int(7)); es.insert(0, int(6)); call2("list", "slice", vec![pos(int(1))], call2("list", "slice", vec![pos(int(1))], list(es))) }
        _ => { es.insert(0, int(7)); es.push(int(8)); E::Match(Box::new(list(es)), vec![(P::List(vec![P::Ignore, P::Var("m"), P::Ignore], Some(1)), var("m"))]) }
    }
}

fn lists(op: u64, n: u64, kinds: u64, r: &mut R) -> (E, Option<V>) {
    let es = if op == 7 {
        // a long list, its keys in some order and two of them symbolic
        let (a, b) = [(0, n - 1), (2, 3), (n / 2, n - 2)][ch(3) as usize];
        (0..n).map(|i| list(vec![if i == a || i == b { digit() } else if n > 32 { int((i * 5 % 3) as i64) } else { int((n - i) as i64 * 3 % 7) }, int(i as i64)])).collect()
    } else { elements(kinds, n) };
    let vs = r.vs(&es).unwrap();
    let method = ch(2) == 1;
    let l = if sym::param(3) == 1 { part(es) } else { list(es) };
    match op {
        // callbacks
        0 => {
            let which = ch(6);
            let mut f = callback();
            if which == 2 && ch(8) == 0 { f = E::Unit; }
            let fv = r.v(&f).unwrap();
            let want = (|| {
                if which == 2 && fv.unit() { return Some(V::List(vs.into_iter().filter(|v| !v.unit()).collect())); }
                if !matches!(fv, V::Func(_)) { return None; }
                match which {
                    0 => { for v in vs { if !r.test(&fv, v)? { return Some(V::Bool(false)); } } Some(V::Bool(true)) }
                    1 => { for v in vs { if r.test(&fv, v)? { return Some(V::Bool(true)); } } Some(V::Bool(false)) }
                    2 => { let mut o = vec![]; for v in vs { if r.test(&fv, v.clone())? { o.push(v); } } Some(V::List(o)) }
                    3 => { for v in vs { if r.test(&fv, v.clone())? { return Some(v); } } Some(UNIT) }
                    _ => { let mut o = vec![]; for v in vs { o.push(r.call(&fv, v)?); } Some(V::List(o)) }
                }
            })();
            let implicit = matches!(&f, E::Fn(d) if d.params.iter().any(|p| p.implicit));
            let x = apply("list", ["all", "any", "filter", "find", "map", "map"][which as usize], vec![pos(f)], l, method);
            (if implicit { E::Let(true, vec![("i", int(5))], Box::new(x)) } else { x }, want)
        }
        1 => {
            let (a, b) = (small(), if ch(3) == 0 { None } else { Some(small()) });
            let k = vs.len() as i64;
            let place = |i: i64| if i >= k { k } else if i >= 0 { i } else if i + k >= 0 { i + k } else { 0 };
            let (s, e) = (place(a), b.map_or(k, place));
            let mut args = vec![pos(int(a))];
            if let Some(b) = b { args.push(pos(int(b))); }
            let o = vs.into_iter().enumerate().filter(|x| (x.0 as i64) >= s && (x.0 as i64) < e).map(|x| x.1).collect();
            (apply("list", "slice", args, l, method), Some(V::List(o)))
        }
        // sorting
        2 | 3 | 7 => {
            let key = if op >= 3 { Some(func(param(Pk::Pos, "x"), idx("x", 0))) } else { None };
            let rev = ch(3);
            let keys: Vec<V> = match &key { None => vs.clone(), Some(f) => { let f = r.v(f).unwrap(); vs.iter().map(|v| r.call(&f, v.clone()).unwrap()).collect() } };
            let ok = keys.iter().all(|k| matches!(k, V::Int(_))) || keys.iter().all(|k| matches!(k, V::Str(_)));
            let mut args = vec![];
            if let Some(f) = key { args.push(named("key", f)); }
            if rev > 0 { args.push(named("reversed", E::Bool(rev == 2))); }
            let want = if !ok { None } else {
                // insertion sort: equal keys keep their order
                let mut o: Vec<usize> = vec![];
                for i in 0..keys.len() {
                    let mut j = o.len();
                    while j > 0 {
                        let (x, y) = (&keys[o[j - 1]], &keys[i]);
                        let before = match (x, y) { (V::Int(x), V::Int(y)) => if rev == 2 { y > x } else { y < x }, (V::Str(x), V::Str(y)) => if rev == 2 { y > x } else { y < x }, _ => false };
                        if !before { break; }
                        j -= 1;
                    }
                    o.insert(j, i);
                }
                Some(V::List(o.into_iter().map(|i| vs[i].clone()).collect()))
            };
            (apply("list", "sorted", args, l, method), want)
        }
        // the rest
        4 => {
            let w = ch(8);
            let k = vs.len();
            match w {
                0 => { let x = element(kinds); let v = r.v(&x).unwrap(); (apply("list", "contains", vec![pos(x)], l, method), Some(V::Bool(vs.iter().any(|w| eq(w, &v))))) }
                1 => {
                    let from = [None, Some(0), Some(5), Some(-2), Some(i64::MAX), Some(i64::MAX - 1), Some(-i64::MAX)][ch(7) as usize];
                    let args = match from { None => vec![], Some(i) => vec![named("from", int(i))] };
                    let o = vs.into_iter().enumerate().map(|(i, v)| Some(V::List(vec![V::Int(from.unwrap_or(0).checked_add(i as i64)?), v]))).collect::<Option<Vec<_>>>();
                    (apply("list", "enumerate", args, l, method), o.map(V::List))
                }
                2 => { let mut o = vec![]; for v in vs { if let V::List(l) = v { o.extend(l) } else { o.push(v) } } (apply("list", "flat", vec![], l, method), Some(V::List(o))) }
                3 => {
                    let i = small();
                    let p = if i < 0 { i.checked_add(k as i64) } else { Some(i) };
                    let v = p.and_then(|p| if p >= 0 && p < k as i64 { Some(vs[p as usize].clone()) } else { None });
                    (apply("list", "get", vec![pos(int(i))], l, method), v)
                }
                4 => (apply("list", "is_empty", vec![], l, method), Some(V::Bool(k == 0))),
                5 => (apply("list", "len", vec![], l, method), Some(V::Int(k as i64))),
                6 => {
                    let mut o = vs;
                    o.reverse();
                    (call2("list", "reversed", vec![], l), Some(V::List(o)))
                }
                _ => {
                    // arguments that are not what the function takes
                    let x = element(3);
                    let v = r.v(&x).unwrap();
                    match ch(4) {
                        0 => (call2("list", "len", vec![], x), if let V::List(l) = v { Some(V::Int(l.len() as i64)) } else { None }),
                        1 => (call2("list", "is_empty", vec![pos(x)], l), None),
                        2 => (apply("list", "get", vec![pos(x)], l, method), if let V::Int(i) = v { if (i as usize) < k { Some(vs[i as usize].clone()) } else { None } } else { None }),
                        _ => (apply("list", "slice", vec![pos(int(0)), pos(x)], l, method), match v { V::Int(i) => Some(V::List(vs.into_iter().take(i as usize).collect())), v if v.unit() => Some(V::List(vs)), _ => None }),
                    }
                }
            }
        }
        // an element of a list bound to a variable
        8 => {
            let i = small();
            let k = vs.len() as i64;
            let at = if i < 0 { i.checked_add(k) } else { Some(i) };
            let v = at.and_then(|p| if p >= 0 && p < k { Some(vs[p as usize].clone()) } else { None });
            let x = match l {
                E::Match(l, mut arms) => { arms[0].1 = idx("m", i); E::Match(l, arms) }
                l => if method { let_(vec![("l", l)], idx("l", i)) } else { E::Match(Box::new(l), vec![(P::Var("l"), idx("l", i))]) },
            };
            (x, v)
        }
        // joining to content
        5 => {
            let sep = match ch(5) { 0 => None, 1 => Some(E::Unit), 2 => Some(E::Verb(vec![sym::one_of(b", <&-")])), 3 => Some(tag("br", vec![])), _ => Some(tag("i", vec![It::Text(vec![letter()]), It::E(tag("b", vec![]))])) };
            let sv = match &sep { None => UNIT, Some(e) => r.v(e).unwrap() };
            let want = (|| {
                let V::Html(s) = coerce(sv, &T::Html).map(|v| V::Html(to_html(&v)))? else { return None };
                let mut o = vec![];
                for (i, v) in vs.into_iter().enumerate() {
                    let v = coerce(v, &T::Html)?;
                    if i > 0 { o.extend(s.clone()); }
                    o.extend(to_html(&v));
                }
                Some(V::html(normal(o)))
            })();
            (apply("list", "join", match sep { None => vec![], Some(e) => vec![pos(e)] }, l, method), want)
        }
        // the parts of content
        _ => {
            let t = vec![letter()];
            r.env.set(b"v", V::Str(t.clone()), false);
            let its: Vec<It> = (0..n).map(|_| match ch(6) { 0 => It::Text(vec![sym::one_of(b",+*%")]), 1 => It::Ws, 2 => It::E(tag("b", vec![It::Text(vec![letter()])])), 3 => It::E(tag("br", vec![])), 4 => It::E(var("v")), _ => It::E(tag("i", vec![It::E(tag("b", vec![]))])) }).collect();
            let g = tag("i", its);
            let V::Html(h) = r.v(&g).unwrap() else { return (E::Unit, None) };
            let H::El(_, _, k) = h.into_iter().next().unwrap() else { return (E::Unit, None) };
            let its2 = match g { E::Tag(t) => t.kids, _ => vec![] };
            (let_(vec![("v", E::Verb(t))], call2("list", "html_nodes", vec![], E::Group(its2))), Some(V::List(k.into_iter().map(|h| V::html(vec![h])).collect())))
        }
    }
}

// ---- strings
/// characters whose cases or classes are less than obvious: lower, upper,
/// whether they are white space
const CHARS: &[(&str, &str, &str, bool)] = &[
    ("\u{df}", "\u{df}", "SS", false), ("\u{e9}", "\u{e9}", "\u{c9}", false), ("\u{c9}", "\u{e9}", "\u{c9}", false), ("\u{130}", "i\u{307}", "\u{130}", false),
    ("\u{131}", "\u{131}", "I", false), ("\u{149}", "\u{149}", "\u{2bc}N", false), ("\u{1c5}", "\u{1c6}", "\u{1c4}", false), ("\u{fb01}", "\u{fb01}", "FI", false),
    ("\u{3a9}", "\u{3c9}", "\u{3a9}", false), ("\u{10400}", "\u{10428}", "\u{10400}", false), ("\u{5d0}", "\u{5d0}", "\u{5d0}", false),
    ("\u{a0}", "\u{a0}", "\u{a0}", true), ("\u{3000}", "\u{3000}", "\u{3000}", true), ("\u{2028}", "\u{2028}", "\u{2028}", true), ("\u{200b}", "\u{200b}", "\u{200b}", false),
    ("\u{85}", "\u{85}", "\u{85}", true), ("\u{feff}", "\u{feff}", "\u{feff}", false), ("\u{1f600}", "\u{1f600}", "\u{1f600}", false),
];

/// one character, its lower and upper case and whether it is white space
struct C { s: Vec<u8>, lower: Vec<u8>, upper: Vec<u8>, white: bool }

fn character() -> C {
    let k = ch(CHARS.len() as u32 + 2) as usize;
    if k < 2 {
        let c = sym::ascii();
        // what cannot stand in a verbatim string on one line
        sym::assume(c != b'`' && c != b'\n');
        let (up, lo) = (c >= b'A' && c <= b'Z', c >= b'a' && c <= b'z');
        return C { s: vec![c], lower: vec![if up { c + 32 } else { c }], upper: vec![if lo { c - 32 } else { c }], white: c == b' ' || (c >= 9 && c <= 13) };
    }
    let (s, l, u, w) = CHARS[k - 2];
    C { s: s.into(), lower: l.into(), upper: u.into(), white: w }
}

fn verbatim(s: &[u8]) -> E { E::Verb(s.to_vec()) }
fn has(s: &[u8], t: &[u8], at: usize) -> bool { s.len() >= at + t.len() && &s[at..at + t.len()] == t }

fn strings(op: u64, n: u64, r: &mut R) -> (E, Option<V>) {
    let method = ch(2) == 1;
    match op {
        // the characters of a string
        0 => {
            let cs: Vec<C> = (0..n).map(|_| character()).collect();
            let s: Vec<u8> = cs.iter().flat_map(|c| c.s.clone()).collect();
            let x = verbatim(&s);
            match ch(7) {
                0 => (apply("str", "lower", vec![], x, method), Some(V::Str(cs.iter().flat_map(|c| c.lower.clone()).collect()))),
                1 => (apply("str", "upper", vec![], x, method), Some(V::Str(cs.iter().flat_map(|c| c.upper.clone()).collect()))),
                2 => {
                    let (mut a, mut b) = (0, cs.len());
                    while a < b && cs[a].white { a += 1; }
                    while b > a && cs[b - 1].white { b -= 1; }
                    (apply("str", "trim", vec![], x, method), Some(V::Str(cs[a..b].iter().flat_map(|c| c.s.clone()).collect())))
                }
                3 => (apply("str", "len", vec![], x, method), Some(V::Int(s.len() as i64))),
                4 => (apply("str", "is_empty", vec![], x, method), Some(V::Bool(s.is_empty()))),
                5 => (apply("str", "is_whitespace", vec![], x, method), Some(V::Bool(white(&s)))),
                _ => {
                    let mut o = vec![];
                    esc(&s, false, &mut o);
                    // zero bytes have no entity
                    sym::assume(!s.contains(&0));
                    (apply("str", "escape_html", vec![], x, method), Some(V::Str(o)))
                }
            }
        }
        // prefixes and suffixes
        1 => {
            let s: Vec<u8> = (0..n).map(|_| letter()).collect();
            let t: Vec<u8> = (0..ch(n as u32 + 2)).map(|_| letter()).collect();
            let (a, b) = (verbatim(&s), verbatim(&t));
            let (name, v): (N, bool) = match ch(2) { 0 => ("starts_with", has(&s, &t, 0)), _ => ("ends_with", s.len() >= t.len() && has(&s, &t, s.len() - t.len())) };
            if method { (let_(vec![("l", a)], call2("l", name, vec![pos(b)], E::Unit)), Some(V::Bool(v))) }
            else { (call2("str", name, vec![pos(a), pos(b)], E::Unit), Some(V::Bool(v))) }
        }
        // splitting
        2 | 3 => {
            let mut s: Vec<u8> = vec![];
            for _ in 0..n { if op == 3 && ch(3) == 0 { s.extend("\u{e9}".as_bytes()) } else { s.push(letter()) } }
            let k = ch(if op == 3 { 2 } else { 4 });
            let t: Vec<u8> = if op == 3 && k == 1 { "\u{e9}".into() } else { (0..k).map(|_| letter()).collect() };
            let mut o = vec![];
            if t.is_empty() {
                o.push(V::Str(vec![]));
                let mut i = 0;
                while i < s.len() { let k = if s[i] >= 0xC0 { 2 } else { 1 }; o.push(V::Str(s[i..i + k].to_vec())); i += k; }
                o.push(V::Str(vec![]));
            } else {
                let (mut a, mut i) = (0, 0);
                while i < s.len() { if has(&s, &t, i) { o.push(V::Str(s[a..i].to_vec())); i += t.len(); a = i; } else { i += 1; } }
                o.push(V::Str(s[a..].to_vec()));
            }
            (apply("str", "split", vec![pos(verbatim(&t))], verbatim(&s), method), Some(V::List(o)))
        }
        // what is turned into a string
        4 => {
            let x = if ch(4) == 0 { E::Verb(vec![sym::one_of(b" \t\x0b\x0ca0")]) } else { element(3) };
            let v = r.v(&x).unwrap();
            let s = coerce(v.clone(), &T::Str);
            match ch(4) {
                0 => (call2("str", "from", vec![], x), s),
                1 => (call2("str", "len", vec![], x), match s { Some(V::Str(s)) => Some(V::Int(s.len() as i64)), _ => None }),
                2 => (call2("str", "starts_with", vec![pos(x), pos(verb("T"))], E::Unit), match s { Some(V::Str(s)) => Some(V::Bool(s.first() == Some(&b'T'))), _ => None }),
                _ => {
                    let want = match &v { V::Bool(b) => *b, V::Int(i) => *i != 0, V::Str(s) => !s.is_empty(), V::Html(h) => !h.is_empty(), V::List(l) => !l.is_empty(), V::Dict(d) => !d.is_empty(), V::Func(_) => true };
                    (call2("bool", "from", vec![], x), Some(V::Bool(want)))
                }
            }
        }
        // empty strings and dictionaries, functions
        5 => {
            let (x, w) = match ch(6) { 0 => (verb(""), false), 1 => (dict(vec![]), false), 2 => (func(param(Pk::Pos, "x"), var("x")), true), 3 => (E::Int(vec![b'0', sym::digit()]), true), 4 => (E::Int(vec![b'-', b'1']), true), _ => (E::Bool(ch(2) == 1), false) };
            let v = r.v(&x).unwrap();
            let w = match v { V::Int(i) => i != 0, V::Bool(b) => b, _ => w };
            (call2("bool", "from", vec![], x), Some(V::Bool(w)))
        }
        // logic
        6 => {
            let arg = || match ch(4) { 0 => E::Bool(true), 1 => E::Bool(false), 2 => int(1), _ => E::Unit };
            let (x, y) = (arg(), arg());
            let b = |e: &E| if let E::Bool(b) = e { Some(*b) } else { None };
            let (p, q) = (b(&x), b(&y));
            let both = |f: fn(bool, bool) -> bool| p.and_then(|p| q.map(|q| V::Bool(f(p, q))));
            let (name, want): (N, _) = match ch(3) { 0 => ("and", both(|p, q| p && q)), 1 => ("or", both(|p, q| p || q)), _ => return (apply("bool", "negate", vec![], x, method && p.is_some()), p.map(|p| V::Bool(!p))) };
            if method && p.is_some() { (let_(vec![("l", x)], call2("l", name, vec![pos(y)], E::Unit)), want) } else { (call2("bool", name, vec![pos(x), pos(y)], E::Unit), want) }
        }
        // content
        _ => {
            let t = vec![sym::one_of(b"<&> \"\x0c\x0b")];
            r.env.set(b"v", V::Str(t.clone()), false);
            r.env.set(b"e", V::Str(vec![]), false);
            let its: Vec<It> = (0..n).map(|_| match ch(5) { 0 => It::Text(vec![sym::one_of(b",+*%")]), 1 => It::E(var("v")), 2 => It::E(tag("b", vec![It::Text(vec![letter()])])), 3 => It::E(tag("br", vec![])), _ => It::E(var("e")) }).collect();
            let g = E::Group(its);
            let v = r.v(&g).unwrap();
            let h = to_html(&v);
            let (x, w) = match ch(3) {
                0 => { let mut o = vec![]; render(&h, &mut o); (call2("html", "escape_html", vec![], g), Some(V::Str(o))) }
                1 => (call2("html", "is_empty", vec![], g), Some(V::Bool(h.is_empty()))),
                _ => (call2("html", "is_whitespace", vec![], g), Some(V::Bool(h.iter().all(|h| match h { H::Text(t) => white(t), _ => false })))),
            };
            (let_(vec![("v", E::Verb(t)), ("e", verb(""))], x), w)
        }
    }
}

// ---- dictionaries
const KEYS: &[&str] = &["p", "q", "r", "s", "_a", "len"];

/// a part of any value, by names and indices
fn access(n: u64, d: u32, r: &mut R) -> (E, Option<V>) {
    let v = crate::values::any2(d, false);
    let steps = (0..n).map(|_| (ch(2) == 1, match ch(6) { 0 => Step::Attr("p"), 1 => Step::Attr("q"), 2 => Step::Attr("tag_name"), 3 => Step::Idx(0), 4 => Step::Idx(-1), _ => Step::Idx(1) })).collect();
    let p = Path { name: "v", steps };
    let x = match ch(3) { 0 => E::Tmpl(vec![TP::Lit(b"z".to_vec()), TP::Var(p)]), 1 => E::Group(vec![It::Text(b"z".to_vec()), It::E(E::Var(p))]), _ => list(vec![E::Var(p)]) };
    let e = let_(vec![("v", v)], x);
    let want = r.v(&e);
    (e, want)
}

fn dicts(op: u64, n: u64, r: &mut R) -> (E, Option<V>) {
    if op == 4 { return access(n, sym::param(2) as u32, r); }
    let mut d: Vec<(N, E)> = vec![];
    for _ in 0..n {
        let k = KEYS[ch(KEYS.len() as u32) as usize];
        sym::assume(d.iter().all(|x| x.0 != k));
        d.push((k, element(2)));
    }
    let vals: Vec<(S, V)> = d.iter().map(|(k, e)| (k.as_bytes().to_vec(), r.v(e).unwrap())).collect();
    let e = dict(d);
    match op {
        0 => match ch(6) {
            0 => (call2("dict", "len", vec![], e), Some(V::Int(n as i64))),
            1 => (call2("dict", "is_empty", vec![], e), Some(V::Bool(n == 0))),
            2 => (call2("dict", "keys", vec![], e), Some(V::List(vals.into_iter().map(|x| V::Str(x.0)).collect()))),
            3 => (call2("dict", "values", vec![], e), Some(V::List(vals.into_iter().map(|x| x.1).collect()))),
            4 => (call2("dict", "items", vec![], e), Some(V::List(vals.into_iter().map(|x| V::List(vec![V::Str(x.0), x.1])).collect()))),
            _ => (e, Some(V::Dict(vals))),
        },
        // one entry
        1 => {
            let w = ch(6);
            let key: Vec<u8> = match w { 0 => vec![letter()], 1 => vec![sym::range(b'p', b't')], 2 => vec![b'_', sym::range(b'a', b'c')], 3 => vec![], 4 => b"len".to_vec(), _ => vec![sym::ascii(), sym::ascii()] };
            for &c in &key { sym::assume(c != b'`' && c != b'\n'); }
            let v = vals.iter().find(|x| x.0 == key).map(|x| x.1.clone());
            (call2("dict", "get", vec![pos(verbatim(&key))], e), v)
        }
        // one entry by name, with or without coalescing
        2 => {
            let k = KEYS[ch(KEYS.len() as u32) as usize];
            let opt = ch(2) == 1;
            let v = vals.iter().find(|x| x.0 == k.as_bytes()).map(|x| x.1.clone());
            (let_(vec![("l", e)], E::List(vec![(E::Var(Path { name: "l", steps: vec![(opt, Step::Attr(k))] }), false)])), v.map(|v| V::List(vec![v])))
        }
        // together with entries of another
        _ => {
            let mut f: Vec<(N, E)> = vec![];
            let m = 1 + ch(2);
            for _ in 0..m {
                let k = KEYS[ch(KEYS.len() as u32) as usize];
                sym::assume(f.iter().all(|x| x.0 != k));
                f.push((k, element(2)));
            }
            let more: Vec<(S, V)> = f.iter().map(|(k, e)| (k.as_bytes().to_vec(), r.v(e).unwrap())).collect();
            let before = ch(2) == 1;
            let mut args: Vec<Arg> = f.into_iter().map(|(k, e)| named(k, e)).collect();
            args.insert(if before { 0 } else { args.len() }, dspread(e));
            let dup = more.iter().any(|x| vals.iter().any(|y| x.0 == y.0));
            let all = if before { vals.into_iter().chain(more).collect() } else { more.into_iter().chain(vals).collect() };
            (call2("dict", "new", args, E::Unit), if dup { None } else { Some(V::Dict(all)) })
        }
    }
}

pub fn run() {
    let mut ctx = util::ctx();
    let names = util::Names::new(&mut ctx, KEYS);
    let (op, n, kinds) = (sym::param(0), sym::param(1), sym::param(2));
    let mut r = R { ev: Ev::default(), env: Env::top() };
    let (x, want) = match sym::harness() {
        11 => lists(op, n, kinds, &mut r),
        18 => strings(op, n, &mut r),
        _ => dicts(op, n, &mut r),
    };
    let want = if bad(&x) { None } else { want };
    let mut p = Pr::new("");
    p.out.extend(b"@export(x=");
    p.e(&x);
    p.out.extend(b").\n");
    crate::text::outcome(&mut ctx, &names, std::mem::take(&mut p.out), want);
    sym::check(ctx.diagnostics.num_warnings == 0, 52, "a warning was reported");
    std::mem::forget(x);
    std::mem::forget(r);
    std::mem::forget(ctx);
}
