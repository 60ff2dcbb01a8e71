//! C26: what a document exports, and what importing or including it gives.
use crate::refi::*;
use crate::{sym, util};
use papyri_lang::compiler::Value;
use std::rc::Rc;

fn ch(n: u32) -> u32 { sym::choose(n) }
fn digit() -> E { E::Int(vec![sym::digit()]) }
fn fun(name: N, params: Vec<Param>, body: E) -> Rc<Def> { Rc::new(Def { name: Some(name), params, content: None, body }) }
fn implicit() -> Vec<Param> { vec![Param { implicit: true, opt: ch(2) == 1, ..param(Pk::Named, "x0") }] }

const NAMES: &[&str] = &["x0", "x1", "f0", "f1", "m"];

/// a value that may depend on what is bound
fn leaf() -> E {
    match ch(4) {
        0 => digit(),
        1 => var("x0"),
        2 => call("f0", vec![], E::Unit),
        _ => var("x1"),
    }
}

/// a statement; `d` statements deep
fn statement(d: u32, mask: u64, module: bool) -> It {
    let k = ch(16);
    sym::assume(mask & (1 << k) != 0);
    let x = || ["x0", "x1"][ch(2) as usize];
    let f = || ["f0", "f1"][ch(2) as usize];
    let inner = |b: bool| if d == 0 { vec![] } else { sym::assume(b); vec![statement(d - 1, mask, module)] };
    // and a use of what it binds
    let used = |b: bool| { let mut v = inner(b); if !v.is_empty() && ch(2) == 1 { v.push(It::E(list(vec![leaf()]))); } v };
    match k {
        0 => It::Export(Ex::Names(vec![(x(), leaf())])),
        1 => It::Export(Ex::Names(vec![("x1", leaf()), ("x0", digit())])),
        2 => It::Export(Ex::Fn(fun(f(), vec![], list(vec![leaf()])))),
        3 => It::Export(Ex::Fn(fun(f(), implicit(), list(vec![var("x0")])))),
        4 => It::Export(Ex::Let(vec![(x(), leaf())], E::Group(inner(true)))),
        5 => It::Export(Ex::Let(vec![("x0", digit()), ("x1", leaf())], match ch(3) { 0 => E::Unit, 1 => digit(), _ => call("f0", vec![], E::Unit) })),
        6 => It::Export(Ex::Let(vec![("f0", E::Fn(Rc::new(Def { name: None, params: vec![], content: None, body: leaf() })))], E::Group(inner(true)))),
        7 => It::E(E::Group(inner(d > 0))),
        8 => It::E(E::Let(ch(2) == 1, vec![("x0", digit())], Box::new(E::Group(if d == 0 { vec![It::Text(b"z".to_vec())] } else { used(true) })))),
        9 => { sym::assume(!module); It::Fn(fun("f0", vec![], E::Group(used(d > 0)))) }
        10 => It::E(E::Match(Box::new(digit()), vec![(P::Lit(digit()), E::Group(inner(d > 0))), (P::Var("x0"), E::Group(inner(true)))])),
        11 => It::E(tag("div", inner(d > 0))),
        12 => It::E(list(vec![leaf()])),
        13 => It::Export(Ex::Names(vec![("f0", E::Fn(Rc::new(Def { name: None, params: vec![], content: None, body: leaf() })))])),
        14 => It::Fn(fun(f(), vec![], leaf())),
        _ => It::E(E::Let(true, vec![("x0", digit())], Box::new(list(vec![call("f0", vec![], E::Unit)])))),
    }
}

/// a document's statements in order, and what they give
fn reference(items: &[It], ev: &mut Ev) -> Option<(Vec<H>, Vec<(S, V)>)> {
    if bad_items(items) { return None; }
    ev.exports = vec![];
    let ps = ev.items(items, &Env::top())?;
    Some((fill(K::Blocks, ps)?, std::mem::take(&mut ev.exports)))
}
fn text(items: &[It]) -> Vec<u8> {
    let mut p = Pr::new("");
    p.items(items);
    std::mem::take(&mut p.out)
}

pub fn run() {
    let mut ctx = util::ctx();
    let names = util::Names::new(&mut ctx, NAMES);
    let (n, mode, mask, d) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3) as u32);
    let module: Vec<It> = (0..n).map(|_| statement(d, mask, mode > 0)).collect();
    let mut ev = Ev::default();
    let first = reference(&module, &mut ev);
    // after an error the compiler goes on with the rest, which might not end
    if first.is_none() && cyclic(&module, &E::Unit) { sym::assume(false); }
    sym::fs_begin();
    let a = text(&module);
    sym::observe(&a);
    let mut want = first.clone();
    let mut keep = vec![];
    let main = if mode == 0 { a } else {
        sym::assume(first.is_some());
        sym::file("a.papyri", &a, 1);
        let m = Rc::new(first.clone().unwrap());
        let inc = || It::E(E::Module(true, m.clone()));
        let imp = || E::Module(false, m.clone());
        let ask = || It::E(list(vec![match ch(4) { 0 => var("x0"), 1 => var("x1"), 2 => call("f0", vec![], E::Unit), _ => call("f1", vec![], E::Unit) }]));
        // or nothing is asked afterwards
        let rest = |mut v: Vec<It>| { if ch(2) == 0 { v.push(ask()); } v };
        let line = || It::Export(Ex::Names(vec![("x1", leaf())]));
        keep = match mode {
            // everything it exports, in order
            1 => vec![It::Export(Ex::Names(vec![("m", imp())]))],
            2 => {
                let step = |n: N| Path { name: "m", steps: vec![(false, Step::Attr(n))] };
                let q = match ch(4) { 0 => E::Var(step("x0")), 1 => E::Var(step("x1")), 2 => E::Call(step("f0"), vec![], Box::new(E::Unit)), _ => E::Call(step("f1"), vec![], Box::new(E::Unit)) };
                rest(vec![It::E(E::Let(ch(2) == 1, vec![("m", imp()), ("x0", digit())], Box::new(list(vec![q]))))])
            }
            // included: its names are variables
            3 => vec![inc(), ask(), line()],
            // a name is there already
            4 => vec![It::Fn(fun("f0", if ch(2) == 0 { implicit() } else { vec![] }, leaf())), inc(), ask()],
            // included in a group of its own, or in a binding
            5 => rest(vec![It::E(E::Group(vec![inc(), ask()]))]),
            6 => rest(vec![It::E(E::Let(ch(2) == 1, vec![(["x0", "x1"][ch(2) as usize], digit())], Box::new(E::Group(vec![inc(), ask()]))))]),
            // its variables are not implicit
            7 => vec![It::Fn(fun("f1", implicit(), list(vec![var("x0")]))), inc(), It::E(list(vec![call("f1", vec![], E::Unit)]))],
            // an include in an export
            8 => rest(vec![It::Export(Ex::Let(vec![("x0", digit())], inc_group(ch(2) == 0, inc)))]),
            // twice
            _ => vec![inc(), inc(), ask()],
        };
        want = reference(&keep, &mut ev);
        if want.is_none() && (cyclic(&module, &E::Unit) || cyclic(&keep, &E::Unit)) { sym::assume(false); }
        text(&keep)
    };
    sym::observe(&main);
    sym::file("m.papyri", &main, 1);
    let Ok(r) = ctx.load_uncached(std::path::Path::new("m.papyri")) else { sym::check(false, 70, "main was not read"); return };
    let failed = ctx.diagnostics.num_errors > 0;
    sym::cover(want.is_none() as u32);
    match &want {
        None => sym::check(failed, 71, "no error was reported"),
        Some((h, x)) => {
            sym::check(!failed, 72, "an error was reported");
            sym::check((ctx.diagnostics.num_warnings > 0) == ev.warned, 73, "warnings differ");
            if !failed {
                let d = Value::Dict(r.exports.clone().into());
                let mut o = vec![];
                util::show(&util::model(&ctx, &d), &mut o);
                sym::observe(&o);
                sym::check(util::same(&ctx, &names, &d, &V::Dict(x.clone())), 74, "the exports differ from the reference");
                let got = util::render(&ctx, &r.out);
                sym::observe(&got);
                let mut out = vec![];
                render(h, &mut out);
                sym::check(got == out, 75, "the document differs from the reference");
                std::mem::forget(d);
            }
        }
    }
    sym::fs_end();
    std::mem::forget((r, module, keep, want, first, ev));
    std::mem::forget(ctx);
}

fn inc_group(alone: bool, inc: impl Fn() -> It) -> E { E::Group(if alone { vec![inc()] } else { vec![inc(), It::Export(Ex::Names(vec![("x1", var("x0"))]))] }) }
