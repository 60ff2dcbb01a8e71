//! Shared by the harnesses: running the real compiler on a source text, and
//! a plain model of values to compare its results with.
#![allow(dead_code)]
use crate::sym;
use papyri_lang::compiler::{Context, Value, HTML};
use papyri_lang::errors::ReportingLevel;

pub fn ctx() -> Context { Context::new(ReportingLevel::Warning, None, None) }

pub fn render(ctx: &Context, h: &HTML) -> Vec<u8> {
    let mut out = Vec::new();
    ctx.render(h, true, &mut out).unwrap();
    out
}

/// compiles and renders; None when there were diagnostics
pub fn compile(ctx: &mut Context, src: &str) -> Option<Vec<u8>> {
    let r = ctx.compile_synthetic("t", src);
    if !ctx.diagnostics.is_empty() { return None; }
    Some(render(ctx, &r.out))
}

/// a plain model of values
#[derive(Clone, PartialEq)]
pub enum M { Unit, Bool(bool), Int(i64), Str(Vec<u8>), List(Vec<M>), Html(Vec<u8>), Dict(Vec<M>), Func, Regex }

pub fn ms(s: &str) -> M { M::Str(s.as_bytes().to_vec()) }

pub fn model(ctx: &Context, v: &Value) -> M {
    match v {
        Value::Bool(b) => M::Bool(*b),
        Value::Int(i) => M::Int(*i),
        Value::Str(s) => M::Str(s.as_bytes().to_vec()),
        Value::List(l) => M::List(l.as_ref().iter().map(|v| model(ctx, v)).collect()),
        Value::Dict(d) => M::Dict(d.values().map(|v| model(ctx, v)).collect()),
        Value::HTML(HTML::Empty) => M::Unit,
        Value::HTML(h) => M::Html(render(ctx, h)),
        Value::Func(_) => M::Func,
        Value::Regex(_) => M::Regex,
    }
}

/// a readable form of a value, for observation and replay
pub fn show(m: &M, out: &mut Vec<u8>) {
    match m {
        M::Unit => out.extend(b"."),
        M::Bool(b) => out.extend(if *b { &b"True"[..] } else { b"False" }),
        M::Int(i) => { out.push(b'i'); for k in 0..8 { out.push((*i >> (56 - 8 * k)) as u8); } }
        M::Str(s) => { out.push(b'`'); out.extend(s); out.push(b'`'); }
        M::Html(s) => { out.push(b'{'); out.extend(s); out.push(b'}'); }
        M::List(l) | M::Dict(l) => {
            out.push(b'[');
            for m in l { show(m, out); out.push(b','); }
            out.push(b']');
        }
        M::Func => out.extend(b"@fn"),
        M::Regex => out.extend(b"regex"),
    }
}

/// the value of the last export of a program; None when anything was reported
pub fn eval(ctx: &mut Context, src: &str) -> Option<M> {
    sym::observe(src.as_bytes());
    let r = ctx.compile_synthetic("t", src);
    if !ctx.diagnostics.is_empty() { sym::observe(b"reported"); return None; }
    let v = r.exports.values().last().expect("no export");
    let m = model(ctx, v);
    let mut o = Vec::new();
    show(&m, &mut o);
    sym::observe(&o);
    std::mem::forget(r);
    Some(m)
}

/// the value of an expression
pub fn value(ctx: &mut Context, expr: &str) -> Option<M> {
    let mut s = String::with_capacity(expr.len() + 16);
    s.push_str("@export(x=");
    s.push_str(expr);
    s.push_str(").");
    eval(ctx, &s)
}

/// a source text under construction
#[derive(Default)]
pub struct B(pub Vec<u8>);
impl B {
    pub fn new() -> B { B(Vec::with_capacity(64)) }
    pub fn s(&mut self, s: &str) -> &mut B { self.0.extend_from_slice(s.as_bytes()); self }
    pub fn b(&mut self, s: &[u8]) -> &mut B { self.0.extend_from_slice(s); self }
    pub fn c(&mut self, c: u8) -> &mut B { self.0.push(c); self }
    pub fn text(&mut self) -> String { sym::text(std::mem::take(&mut self.0)) }
}

pub fn pick<'a>(set: &[&'a str]) -> &'a str { set[sym::choose(set.len() as u32) as usize] }

// ---- the reference interpreter against the real compiler
use crate::refi::{self, V, H};

/// whether a real value is the one the reference computed; `names` are the
/// names of dictionary keys known so far
pub struct Names(Vec<(Vec<u8>, papyri_lang::utils::NameID)>);

impl Names {
    /// the identities of names in this context
    pub fn new(ctx: &mut Context, names: &[&str]) -> Names {
        let mut b = B::new();
        b.s("@export(");
        for n in names { b.s(n).s("=1,"); }
        b.s(").");
        let t = b.text();
        let r = ctx.compile_synthetic("n", &t);
        let out = r.exports.keys().zip(names).map(|(k, n)| (n.as_bytes().to_vec(), *k)).collect();
        std::mem::forget(r);
        std::mem::forget(t);
        Names(out)
    }
    fn id(&self, n: &[u8]) -> Option<papyri_lang::utils::NameID> { self.0.iter().find(|x| x.0 == n).map(|x| x.1) }
}

pub fn same(ctx: &Context, names: &Names, v: &Value, w: &V) -> bool {
    match (v, w) {
        (Value::Bool(a), V::Bool(b)) => a == b,
        (Value::Int(a), V::Int(b)) => a == b,
        (Value::Str(a), V::Str(b)) => a.as_bytes() == &b[..],
        (Value::List(a), V::List(b)) => a.as_ref().len() == b.len() && a.as_ref().iter().zip(b).all(|(a, b)| same(ctx, names, a, b)),
        (Value::Dict(a), V::Dict(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, a), (n, b))| names.id(n).map_or(false, |i| i == *k) && same(ctx, names, a, b)),
        (Value::HTML(a), V::Html(b)) => {
            let mut out = vec![];
            refi::render(b, &mut out);
            a.is_empty() == b.is_empty() && a.is_block() == b.iter().any(H::block) && render(ctx, a) == out
        }
        (Value::Func(_), V::Func(_)) => true,
        _ => false,
    }
}

/// compiles `items` with an export of `x` in both and compares diagnostics
/// and value; the code of the outcome: 0 value, 1 error
pub fn against(ctx: &mut Context, names: &Names, items: &[refi::It], x: &refi::E, gap: &'static str) -> u32 {
    against_in(ctx, names, items, x, gap, &refi::Env::top())
}

/// the same where some names have a meaning already
pub fn against_in(ctx: &mut Context, names: &Names, items: &[refi::It], x: &refi::E, gap: &'static str, env: &refi::Env) -> u32 {
    let mut p = refi::Pr::new(gap);
    p.items(items);
    p.out.extend(b"@export(x=");
    p.e(x);
    p.out.extend(b").\n");
    let src = sym::text(std::mem::take(&mut p.out));
    sym::observe(src.as_bytes());
    let mut ev = refi::Ev::default();
    let want = if refi::bad_items(items) || refi::bad(x) { None } else { ev.items(items, env).and_then(|_| ev.e(x, env)) };
    // after an error the compiler goes on with the rest, which might not end
    if want.is_none() && refi::cyclic(items, x) { sym::assume(false); }
    let r = ctx.compile_synthetic("t", &src);
    let failed = ctx.diagnostics.num_errors > 0;
    let code = match &want {
        None => {
            sym::check(failed, 50, "no error was reported");
            1
        }
        Some(w) => {
            sym::check(!failed, 51, "an error was reported");
            sym::check((ctx.diagnostics.num_warnings > 0) == ev.warned, 52, "warnings differ");
            if !failed {
                match r.exports.values().last() {
                    None => sym::check(false, 53, "nothing was exported"),
                    Some(v) => {
                        let mut o = Vec::new();
                        show(&model(ctx, v), &mut o);
                        sym::observe(&o);
                        sym::check(same(ctx, names, v, w), 54, "the value differs from the reference");
                    }
                }
            }
            0
        }
    };
    std::mem::forget(r);
    std::mem::forget(src);
    std::mem::forget(want);
    std::mem::forget(env.clone());
    code
}
