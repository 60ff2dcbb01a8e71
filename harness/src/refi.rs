//! A reference interpreter for the core of the language, written from its
//! documentation and tests, independently of the implementation: syntax
//! trees, printed as source text for the real compiler and evaluated here.
#![allow(dead_code)]
use std::cell::RefCell;
use std::rc::Rc;

pub type S = Vec<u8>;
pub type N = &'static str;

// ---- types
#[derive(Clone, PartialEq)]
pub enum T { Any, None, Html, Block, Inline, Bool, Int, Str, Func, Regex, List(Box<T>), Dict(Box<T>), Opt(Box<T>) }

impl T {
    pub fn list(self) -> T { T::List(Box::new(self)) }
    pub fn dict(self) -> T { T::Dict(Box::new(self)) }
    /// whether the unit value belongs to the type
    pub fn has_unit(&self) -> bool { matches!(self, T::Any | T::None | T::Html | T::Block | T::Inline | T::Opt(_)) }
    pub fn opt(self) -> T { if self.has_unit() { self } else { T::Opt(Box::new(self)) } }
    fn html(&self) -> bool { matches!(self, T::Html | T::Block | T::Inline) }
    pub fn name(&self) -> String {
        match self {
            T::List(t) => format!("{} list", t.name()),
            T::Dict(t) => format!("{} dict", t.name()),
            T::Opt(t) => format!("{}?", t.name()),
            T::Any => "any".into(), T::None => "none".into(), T::Html => "html".into(), T::Block => "block".into(), T::Inline => "inline".into(),
            T::Bool => "bool".into(), T::Int => "int".into(), T::Str => "str".into(), T::Func => "function".into(), T::Regex => "regex".into(),
        }
    }
}

/// the least type containing both
pub fn join(a: &T, b: &T) -> T {
    if a == b { return a.clone(); }
    if *a == T::Any || *b == T::Any { return T::Any; }
    if *a == T::None { return b.clone().opt(); }
    if *b == T::None { return a.clone().opt(); }
    let (oa, ob) = (matches!(a, T::Opt(_)), matches!(b, T::Opt(_)));
    if oa || ob {
        let f = |t: &T| if let T::Opt(t) = t { (**t).clone() } else { t.clone() };
        return join(&f(a), &f(b)).opt();
    }
    match (a, b) {
        (T::List(a), T::List(b)) => join(a, b).list(),
        (T::Dict(a), T::Dict(b)) => join(a, b).dict(),
        _ if a.html() && b.html() => T::Html,
        _ => T::Any,
    }
}

// ---- HTML
#[derive(Clone)]
pub enum H { Text(S), El(S, Vec<(S, Option<S>)>, Vec<H>) }

pub const VOID: &[&str] = &["!DOCTYPE", "area", "base", "br", "col", "command", "embed", "hr", "img", "input", "keygen", "link", "menuitem", "meta", "param", "source", "track", "wbr"];
pub const BLOCK: &[&str] = &["!DOCTYPE", "address", "article", "aside", "base", "blockquote", "body", "dd", "details", "div", "dl", "dt", "fieldset", "figcaption", "figure", "footer", "form", "h1", "h2", "h3", "h4", "h5", "h6", "head", "header", "hgroup", "hr", "html", "iframe", "li", "link", "main", "menu", "meta", "nav", "ol", "p", "pre", "script", "section", "style", "table", "template", "title", "ul"];

pub fn among(n: &[u8], set: &[&str]) -> bool { set.iter().any(|x| x.as_bytes() == n) }
pub fn white(s: &[u8]) -> bool { s.iter().all(|c| matches!(c, b' ' | b'\n' | b'\t' | b'\r' | 12)) }

pub fn el(n: &str, kids: Vec<H>) -> H { H::El(n.as_bytes().to_vec(), vec![], kids) }

/// the order of attributes does not matter
impl PartialEq for H {
    fn eq(&self, o: &H) -> bool {
        match (self, o) {
            (H::Text(a), H::Text(b)) => a == b,
            (H::El(n, a, k), H::El(m, b, l)) => n == m && k == l && a.len() == b.len() && a.iter().all(|x| b.contains(x)),
            _ => false,
        }
    }
}

impl H {
    pub fn block(&self) -> bool {
        match self {
            H::Text(_) => false,
            H::El(n, _, k) => if n == b"a" { k.iter().any(H::block) } else { among(n, BLOCK) },
        }
    }
    fn white(&self) -> bool { matches!(self, H::Text(t) if white(t)) }
}

/// flat list of nodes with adjacent text merged and empty text dropped
pub fn normal(ns: Vec<H>) -> Vec<H> {
    let mut out: Vec<H> = vec![];
    for n in ns {
        match n {
            H::Text(t) => {
                if t.is_empty() { continue; }
                if let Some(H::Text(l)) = out.last_mut() { l.extend(t); } else { out.push(H::Text(t)); }
            }
            n => out.push(n),
        }
    }
    out
}

pub fn esc(s: &[u8], quotes: bool, out: &mut S) {
    for &c in s {
        match c {
            b'<' => out.extend(b"&lt;"), b'>' => out.extend(b"&gt;"), b'&' => out.extend(b"&amp;"),
            b'"' if quotes => out.extend(b"&quot;"), b'\'' if quotes => out.extend(b"&apos;"),
            c => out.push(c),
        }
    }
}

pub fn render(ns: &[H], out: &mut S) {
    for n in ns {
        match n {
            H::Text(t) => esc(t, false, out),
            H::El(n, at, k) => {
                out.push(b'<');
                out.extend(n);
                for (a, v) in at {
                    out.push(b' ');
                    out.extend(a.iter().map(|&c| if c == b'_' { b'-' } else { c }));
                    if let Some(v) = v { out.extend(b"=\""); esc(v, true, out); out.push(b'"'); }
                }
                out.push(b'>');
                render(k, out);
                if n == b"!DOCTYPE" { out.push(b'\n'); }
                else if !among(n, VOID) { out.extend(b"</"); out.extend(n); out.push(b'>'); }
            }
        }
    }
}

// ---- the content model
#[derive(Clone, Copy)]
pub enum K { OneOf(&'static [&'static str]), Blocks, Allow, Inline, Line, Empty }

pub fn kind(tag: &str) -> K {
    match tag {
        "article" | "aside" | "blockquote" | "footer" | "header" | "main" | "nav" | "section" => K::Blocks,
        "a" | "address" | "body" | "details" | "div" | "fieldset" | "figcaption" | "figure" | "form" | "li" => K::Allow,
        "dl" => K::OneOf(&["dd", "dt"]),
        "hgroup" => K::OneOf(&["p", "h1", "h2", "h3", "h4", "h5", "h6"]),
        "html" => K::OneOf(&["body", "head"]),
        "head" => K::OneOf(&["base", "link", "meta", "noscript", "script", "style", "template", "title"]),
        "menu" | "ol" | "ul" => K::OneOf(&["li"]),
        "table" => K::OneOf(&["tr", "tbody", "tfoot", "thead", "caption", "colgroup"]),
        "tbody" | "tfoot" | "thead" => K::OneOf(&["tr"]),
        "tr" => K::OneOf(&["td", "th"]),
        "h1" | "h2" | "h3" | "h4" | "h5" | "h6" | "p" => K::Line,
        t => if VOID.contains(&t) { K::Empty } else { K::Inline },
    }
}

#[derive(Clone)]
pub enum Piece { N(H), Break }

/// what an element of kind `k` holds when given these pieces in order; None
/// when they are not allowed
pub fn fill(k: K, ps: Vec<Piece>) -> Option<Vec<H>> {
    let trim = |mut v: Vec<H>| { while v.last().map_or(false, H::white) { v.pop(); } v };
    match k {
        K::Inline | K::Line | K::Empty => {
            let mut out = vec![];
            for p in ps {
                match p {
                    Piece::Break => match k { K::Inline => out.push(el("br", vec![])), K::Line => return None, _ => {} },
                    Piece::N(H::Text(t)) if t.is_empty() => {}
                    Piece::N(h) => {
                        if h.block() && !matches!(k, K::Empty) { return None; }
                        if !(out.is_empty() && h.white()) { out.push(h); }
                    }
                }
            }
            let out = trim(out);
            if matches!(k, K::Empty) && !out.is_empty() { return None; }
            Some(normal(out))
        }
        K::OneOf(_) | K::Blocks | K::Allow => {
            let wrap = match k { K::OneOf(s) => s[0], _ => "p" };
            // maximal runs of pieces to wrap, between the ones that stay
            let mut out: Vec<H> = vec![];
            let mut run: Vec<Piece> = vec![];
            let close = |run: &mut Vec<Piece>, out: &mut Vec<H>| -> Option<()> {
                if run.is_empty() { return Some(()); }
                let inner = fill(kind(wrap), std::mem::take(run))?;
                if !inner.is_empty() { out.push(el(wrap, inner)); }
                Some(())
            };
            for p in ps {
                match p {
                    Piece::Break => close(&mut run, &mut out)?,
                    Piece::N(H::Text(t)) if t.is_empty() => {}
                    Piece::N(h) => {
                        let stays = match (k, &h) { (K::OneOf(s), H::El(n, ..)) => among(n, s), (K::OneOf(_), _) => false, _ => h.block() };
                        if stays { close(&mut run, &mut out)?; out.push(h); }
                        else if !(run.is_empty() && h.white()) { run.push(Piece::N(h)); }
                    }
                }
            }
            if matches!(k, K::Allow) && out.is_empty() {
                // nothing but one run of inline content: not wrapped
                return fill(kind(wrap), run);
            }
            close(&mut run, &mut out)?;
            Some(normal(out))
        }
    }
}

// ---- values
#[derive(Clone)]
pub enum V { Bool(bool), Int(i64), Str(S), List(Vec<V>), Dict(Vec<(S, V)>), Html(Vec<H>), Func(Rc<F>) }

pub struct F { pub def: Rc<Def>, pub env: Env, pub bound: Bound, pub defaults: Vec<Option<V>> }

#[derive(Clone, Default)]
pub struct Bound { pub pos: Vec<V>, pub named: Vec<(S, V)>, pub content: Option<V> }

pub fn vs(s: &str) -> V { V::Str(s.as_bytes().to_vec()) }
pub const UNIT: V = V::Html(vec![]);

impl V {
    pub fn unit(&self) -> bool { matches!(self, V::Html(h) if h.is_empty()) }
    /// HTML as a value: a single run of text is a string
    pub fn html(h: Vec<H>) -> V {
        let mut h = normal(h);
        if let [H::Text(_)] = &h[..] {
            if let Some(H::Text(t)) = h.pop() { return V::Str(t); }
        }
        V::Html(h)
    }
    pub fn type_of(&self) -> T {
        match self {
            V::Bool(_) => T::Bool, V::Int(_) => T::Int, V::Str(_) => T::Str, V::Func(_) => T::Func,
            V::Html(h) => if h.is_empty() { T::None } else if h.iter().any(H::block) { T::Block } else { T::Inline },
            V::List(l) => common(l.iter()).list(),
            V::Dict(d) => common(d.iter().map(|x| &x.1)).dict(),
        }
    }
}

fn common<'a>(vs: impl Iterator<Item = &'a V>) -> T {
    let mut t: Option<T> = None;
    for v in vs { let u = v.type_of(); t = Some(match t { None => u, Some(t) => join(&t, &u) }); }
    t.unwrap_or(T::None)
}

/// values are equal; functions never are
pub fn eq(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Bool(a), V::Bool(b)) => a == b,
        (V::Int(a), V::Int(b)) => a == b,
        (V::Str(a), V::Str(b)) => a == b,
        (V::Html(a), V::Html(b)) => a == b,
        (V::List(a), V::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| eq(x, y)),
        (V::Dict(a), V::Dict(b)) => a.len() == b.len() && a.iter().all(|(k, x)| b.iter().any(|(l, y)| k == l && eq(x, y))),
        _ => false,
    }
}

/// whether the value belongs to the type as it is
pub fn belongs(v: &V, t: &T) -> bool {
    if v.unit() { return t.has_unit(); }
    match (t, v) {
        (T::Any, _) | (T::Bool, V::Bool(_)) | (T::Int, V::Int(_)) | (T::Str, V::Str(_)) | (T::Func, V::Func(_)) => true,
        (T::Html, V::Html(_) | V::Str(_)) | (T::Inline, V::Str(_)) => true,
        (T::Block, V::Html(h)) => h.iter().any(H::block),
        (T::Inline, V::Html(h)) => !h.iter().any(H::block),
        (T::List(t), V::List(l)) => l.iter().all(|v| belongs(v, t)),
        (T::Dict(t), V::Dict(d)) => d.iter().all(|v| belongs(&v.1, t)),
        (T::Opt(t), v) => belongs(v, t),
        _ => false,
    }
}

pub fn decimal(i: i64, minus: &str, out: &mut S) {
    if i < 0 { out.extend(minus.as_bytes()); }
    let mut n = i.unsigned_abs();
    let mut d = [0u8; 20];
    let mut k = 20;
    loop { k -= 1; d[k] = b'0' + (n % 10) as u8; n /= 10; if n == 0 { break; } }
    out.extend(&d[k..]);
}

fn bool_text(b: bool) -> S { if b { b"True".to_vec() } else { b"False".to_vec() } }

/// the HTML form of a value
pub fn to_html(v: &V) -> Vec<H> {
    match v {
        V::Html(h) => h.clone(),
        V::Str(s) => normal(vec![H::Text(s.clone())]),
        V::Bool(b) => vec![H::Text(bool_text(*b))],
        V::Int(i) => { let mut s = vec![]; decimal(*i, "\u{2212}", &mut s); vec![H::Text(s)] }
        V::List(l) => vec![el("ul", l.iter().map(|v| el("li", to_html(v))).collect())],
        V::Dict(d) => {
            let rows = d.iter().map(|(k, v)| el("tr", vec![el("th", vec![H::Text(k.clone())]), el("td", to_html(v))])).collect();
            vec![H::El(b"table".to_vec(), vec![(b"class".to_vec(), Some(b"tabular-data".to_vec()))], rows)]
        }
        V::Func(f) => {
            let mut s = b"(@fn ".to_vec();
            s.extend(f.def.name.unwrap_or("<anonymous>").as_bytes());
            s.push(b')');
            vec![el("code", vec![H::Text(s)])]
        }
    }
}

/// the value as a member of the type, or None
pub fn coerce(v: V, t: &T) -> Option<V> {
    let t = match t { T::Opt(u) => { if v.unit() { return Some(v); } u } t => t };
    match (t, &v) {
        (T::Any, _) => Some(v),
        (T::None, _) => if v.unit() { Some(v) } else { None },
        (T::Bool, V::Bool(_)) | (T::Int, V::Int(_)) | (T::Str, V::Str(_)) | (T::Func, V::Func(_)) => Some(v),
        (T::Str, V::Bool(b)) => Some(V::Str(bool_text(*b))),
        (T::Str, V::Int(i)) => { let mut s = vec![]; decimal(*i, "-", &mut s); Some(V::Str(s)) }
        (T::List(t), V::List(l)) => l.iter().map(|v| coerce(v.clone(), t)).collect::<Option<Vec<_>>>().map(V::List),
        (T::Dict(t), V::Dict(d)) => d.iter().map(|(k, v)| Some((k.clone(), coerce(v.clone(), t)?))).collect::<Option<Vec<_>>>().map(V::Dict),
        (T::Html | T::Block | T::Inline, V::Func(_)) => None,
        (T::Inline, V::List(_) | V::Dict(_)) => None,
        (T::Html | T::Inline, V::Str(_)) => Some(v),
        (T::Html, _) => Some(V::html(to_html(&v))),
        (T::Block, _) => {
            let h = to_html(&v);
            if h.is_empty() || h.iter().any(H::block) { Some(V::html(h)) } else { Some(V::Html(vec![el("p", h)])) }
        }
        (T::Inline, _) => { let h = to_html(&v); if h.iter().any(H::block) { None } else { Some(V::html(h)) } }
        _ => None,
    }
}

// ---- syntax
pub enum E {
    Unit, Bool(bool), Int(S), Verb(S), Word(S), Var(Path),
    List(Vec<(E, bool)>), Fn(Rc<Def>), Call(Path, Vec<Arg>, Box<E>), Let(bool, Vec<(N, E)>, Box<E>), Match(Box<E>, Vec<(P, E)>),
    Tmpl(Vec<TP>), Group(Vec<It>), Tag(Box<TagE>),
    /// `@list::join`: pieces that follow each other whatever they are
    Join(Vec<E>),
    /// `@import` or `@include` of the module `a`: what it outputs and exports
    Module(bool, Rc<(Vec<H>, Vec<(S, V)>)>),
}
pub enum It { E(E), Text(S), Ws, Break, Fn(Rc<Def>), Export(Ex) }
/// an export statement
pub enum Ex { Names(Vec<(N, E)>), Fn(Rc<Def>), Let(Vec<(N, E)>, E) }
pub enum TP { Lit(S), Var(Path) , Ws }
pub enum Step { Attr(N), Idx(i64) }
pub struct Path { pub name: N, pub steps: Vec<(bool, Step)> }
pub struct TagE { pub name: Tn, pub attrs: Vec<At>, pub kids: Vec<It> }
pub enum Tn { Lit(N), Var(N) }
/// an attribute, with `?=` or `=` or no value; or a spread
pub enum At { Val(N, bool, E), Bare(N), Spread(E) }
#[derive(Clone, Copy, PartialEq)]
pub enum Pk { Pos, Named, PosSpread, NamedSpread }
pub struct Param { pub kind: Pk, pub name: N, pub opt: bool, pub implicit: bool, pub ty: Option<T>, pub default: Option<E> }
pub struct Def { pub name: Option<N>, pub params: Vec<Param>, pub content: Option<Param>, pub body: E }
pub struct Arg { pub spread: u8, pub name: Option<N>, pub value: E }
pub enum P {
    Ignore, None, Var(N), And(Box<P>, Box<P>), Or(Box<P>, Box<P>), Lit(E), Is(E), Typed(T), TypeOf(N), VarTyped(N, T),
    /// patterns, index of the one with `*` if any, whether that one is written `...`
    List(Vec<P>, Option<usize>), Nodes(Vec<P>, Option<usize>),
    /// names, rest: None, Some(None) for `...`, Some(pattern)
    Dict(Vec<(N, P)>, Option<Option<Box<P>>>),
    /// tag name: None for `_`, Err(variable)
    Tag(Option<Result<N, N>>, Vec<(N, Option<P>)>, Option<Option<Box<P>>>, Box<P>),
    Tmpl(Vec<TP>),
}

pub fn var(n: N) -> E { E::Var(path(n)) }
pub fn path(name: N) -> Path { Path { name, steps: vec![] } }
pub fn int(i: i64) -> E { let mut s = vec![]; decimal(i, "-", &mut s); E::Int(s) }
pub fn verb(s: &str) -> E { E::Verb(s.as_bytes().to_vec()) }
pub fn call(f: N, args: Vec<Arg>, c: E) -> E { E::Call(path(f), args, Box::new(c)) }
pub fn call2(f: N, a: N, args: Vec<Arg>, c: E) -> E { E::Call(Path { name: f, steps: vec![(false, Step::Attr(a))] }, args, Box::new(c)) }
pub fn pos(value: E) -> Arg { Arg { spread: 0, name: None, value } }
pub fn named(n: N, value: E) -> Arg { Arg { spread: 0, name: Some(n), value } }
pub fn spread(value: E) -> Arg { Arg { spread: 1, name: None, value } }
pub fn dspread(value: E) -> Arg { Arg { spread: 2, name: None, value } }
pub fn list(v: Vec<E>) -> E { E::List(v.into_iter().map(|e| (e, false)).collect()) }
pub fn dict(v: Vec<(N, E)>) -> E { call2("dict", "new", v.into_iter().map(|(n, e)| named(n, e)).collect(), E::Unit) }
pub fn param(kind: Pk, name: N) -> Param { Param { kind, name, opt: false, implicit: false, ty: None, default: None } }
pub fn tag(n: N, kids: Vec<It>) -> E { E::Tag(Box::new(TagE { name: Tn::Lit(n), attrs: vec![], kids })) }
pub fn txt(s: &str) -> It { It::Text(s.as_bytes().to_vec()) }
pub fn group(e: E) -> E { E::Group(vec![It::E(e)]) }
pub fn let_(vars: Vec<(N, E)>, e: E) -> E { E::Let(false, vars, Box::new(e)) }

// ---- printing
pub struct Pr { pub out: Vec<u8>, pub gap: &'static str }

impl Pr {
    pub fn new(gap: &'static str) -> Pr { Pr { out: Vec::with_capacity(256), gap } }
    fn s(&mut self, s: &str) { self.out.extend_from_slice(s.as_bytes()); }
    fn g(&mut self) { let g = self.gap; self.s(g); }
    fn path(&mut self, p: &Path, sigil: &str) {
        self.s(sigil);
        self.s(p.name);
        for (q, st) in &p.steps {
            self.s(if *q { "?::" } else { "::" });
            match st { Step::Attr(n) => self.s(n), Step::Idx(i) => decimal(*i, "-", &mut self.out) }
        }
    }
    pub fn ty(&mut self, t: &T) { let n = t.name(); self.s(&n) }
    fn args(&mut self, args: &[Arg]) {
        if args.is_empty() { return; }
        self.g();
        self.s("(");
        for (i, a) in args.iter().enumerate() {
            if i > 0 { self.s(","); }
            self.g();
            self.s(["", "*", "**"][a.spread as usize]);
            if let Some(n) = a.name { self.s(n); self.g(); self.s("="); self.g(); }
            self.e(&a.value);
            self.g();
        }
        self.s(")");
    }
    fn param(&mut self, p: &Param) {
        self.s(match p.kind { Pk::PosSpread => "*", Pk::NamedSpread => "**", _ => "" });
        self.s("$");
        self.s(p.name);
        if p.opt { self.g(); self.s("?"); }
        if p.ty.is_some() || p.implicit {
            self.g();
            self.s(":");
            self.s(" ");
            if p.implicit { self.s("@implicit "); }
            match &p.ty { Some(t) => self.ty(t), None => self.s("any") }
        }
        if let Some(d) = &p.default { self.g(); self.s("="); self.g(); self.e(d); }
    }
    pub fn def(&mut self, d: &Def) {
        self.s("@fn");
        if let Some(n) = d.name { self.s(" "); self.s(n); }
        self.g();
        if !d.params.is_empty() {
            self.s("(");
            for (i, p) in d.params.iter().enumerate() {
                if i > 0 { self.s(","); }
                self.g();
                self.param(p);
                self.g();
            }
            self.s(")");
        }
        self.s(" ");
        match &d.content { None => self.s("."), Some(c) => self.param(c) }
        self.s(" -> ");
        self.e(&d.body);
    }
    fn tmpl(&mut self, ps: &[TP]) {
        self.s("\"");
        for p in ps {
            match p {
                TP::Lit(s) => self.out.extend(s),
                TP::Ws => self.s(" "),
                TP::Var(p) => { self.s("{"); self.path(p, "$"); self.s("}"); }
            }
        }
        self.s("\"");
    }
    pub fn e(&mut self, e: &E) {
        match e {
            E::Unit => self.s("."),
            E::Bool(b) => self.s(if *b { "True" } else { "False" }),
            E::Int(s) | E::Word(s) => self.out.extend(s),
            E::Verb(s) if s.is_empty() => self.s("\"\""),
            E::Verb(s) => { self.s("`"); self.out.extend(s); self.s("`"); }
            E::Var(p) => self.path(p, "$"),
            E::List(l) => {
                self.s("[");
                for (i, (e, sp)) in l.iter().enumerate() {
                    if i > 0 { self.s(","); self.s(" "); }
                    self.g();
                    if *sp { self.s("*"); }
                    self.e(e);
                    self.g();
                }
                self.s("]");
            }
            E::Fn(d) => self.def(d),
            E::Call(p, args, c) => { self.path(p, "@"); self.args(args); self.s(" "); self.e(c); }
            E::Let(imp, vars, e) => {
                self.s(if *imp { "@implicit" } else { "@let" });
                self.vars(vars);
                self.s(" ");
                self.e(e);
            }
            E::Match(v, bs) => {
                self.s("@match ");
                self.e(v);
                self.s(" {");
                for (i, (p, e)) in bs.iter().enumerate() {
                    if i > 0 { self.s(", "); }
                    self.g();
                    self.p(p);
                    self.s(" -> ");
                    self.e(e);
                }
                self.g();
                self.s("}");
            }
            E::Tmpl(ps) => self.tmpl(ps),
            E::Module(inc, _) => self.s(if *inc { "@include `a`" } else { "@import `a`" }),
            E::Join(es) => {
                self.s("@list::join [");
                for (i, e) in es.iter().enumerate() { if i > 0 { self.s(","); } self.g(); self.e(e); }
                self.s("]");
            }
            E::Group(its) => { self.s("{"); self.items(its); self.s("}"); }
            E::Tag(t) => {
                self.s("<");
                match t.name { Tn::Lit(n) => self.s(n), Tn::Var(n) => { self.s("$"); self.s(n) } }
                for a in &t.attrs {
                    self.s(" ");
                    match a {
                        At::Bare(n) => self.s(n),
                        At::Val(n, q, e) => { self.s(n); self.s(if *q { "?=" } else { "=" }); self.e(e); }
                        At::Spread(e) => { self.s("**"); self.e(e); }
                    }
                }
                if t.kids.is_empty() { self.s("/>"); return; }
                self.s(">");
                self.items(&t.kids);
                self.s("</>");
            }
        }
    }
    fn vars(&mut self, vars: &[(N, E)]) {
        self.s("(");
        for (i, (n, e)) in vars.iter().enumerate() {
            if i > 0 { self.s(", "); }
            self.s(n);
            self.g();
            self.s("=");
            self.g();
            self.e(e);
        }
        self.s(")");
    }
    pub fn items(&mut self, its: &[It]) {
        for it in its {
            match it {
                It::E(e) => self.e(e),
                It::Text(s) => self.out.extend(s),
                It::Ws => self.s(" "),
                It::Break => self.s("\n\n"),
                It::Fn(d) => { self.def(d); self.s("\n"); }
                It::Export(x) => {
                    self.s("@export");
                    match x {
                        Ex::Names(vs) => { self.vars(vs); self.s(".") }
                        Ex::Fn(d) => { self.s(" "); self.def(d) }
                        Ex::Let(vs, e) => { self.s(" @let"); self.vars(vs); self.s(" "); self.e(e) }
                    }
                    self.s("\n");
                }
            }
        }
    }
    pub fn p(&mut self, p: &P) {
        match p {
            P::Ignore => self.s("_"),
            P::None => self.s("."),
            P::Var(n) => { self.s("$"); self.s(n) }
            P::VarTyped(n, t) => { self.s("$"); self.s(n); self.g(); self.s(":"); self.g(); self.ty(t) }
            P::Typed(t) => { self.s("_"); self.g(); self.s(":"); self.g(); self.ty(t) }
            P::TypeOf(n) => { self.s("_: $"); self.s(n) }
            P::And(a, b) => { self.p(a); self.s(" & "); self.g(); self.p(b) }
            P::Or(a, b) => { self.p(a); self.s(" |"); self.g(); self.p(b) }
            P::Lit(e) => self.e(e),
            P::Is(e) => { self.s("="); self.e(e) }
            P::List(ps, sp) => { self.s("["); self.seq(ps, *sp, ", "); self.s("]") }
            P::Nodes(ps, sp) => { self.s("{"); self.seq(ps, *sp, " "); self.s("}") }
            P::Dict(ps, rest) => {
                self.s("(");
                for (i, (n, p)) in ps.iter().enumerate() {
                    if i > 0 { self.s(", "); }
                    self.g();
                    self.s(n);
                    self.s("=");
                    self.g();
                    self.p(p);
                }
                if !ps.is_empty() && rest.is_some() { self.s(", "); }
                self.rest(rest);
                self.s(")");
            }
            P::Tag(n, ats, rest, c) => {
                self.s("<");
                match n { None => self.s("_"), Some(Ok(n)) => self.s(n), Some(Err(v)) => { self.s("$"); self.s(v) } }
                for (n, p) in ats {
                    self.s(" ");
                    self.s(n);
                    if let Some(p) = p { self.s("="); self.p(p); }
                }
                if rest.is_some() { self.s(" "); }
                self.rest(rest);
                self.s(">");
                if let P::None = **c {} else { self.p(c); }
                self.s("</>");
            }
            P::Tmpl(ps) => self.tmpl(ps),
        }
    }
    fn rest(&mut self, r: &Option<Option<Box<P>>>) {
        match r { None => {} Some(None) => self.s("..."), Some(Some(p)) => { self.s("**"); self.p(p) } }
    }
    fn seq(&mut self, ps: &[P], sp: Option<usize>, sep: &str) {
        for (i, p) in ps.iter().enumerate() {
            if i > 0 { self.s(sep); }
            if sp == Some(i) {
                if let P::Ignore = p { self.s("..."); continue; }
                self.s("*");
            }
            self.p(p);
        }
    }
}

// ---- environments
#[derive(Clone)]
pub struct Env(Option<Rc<Frame>>);
pub struct Frame { vars: RefCell<Vec<(S, V, bool)>>, up: Env }

impl Env {
    pub fn top() -> Env { Env(None).push() }
    pub fn push(&self) -> Env { Env(Some(Rc::new(Frame { vars: RefCell::new(vec![]), up: self.clone() }))) }
    pub fn get(&self, n: &[u8], implicit: bool) -> Option<V> {
        let f = self.0.as_ref()?;
        for (m, v, i) in f.vars.borrow().iter() { if m == n && (*i || !implicit) { return Some(v.clone()); } }
        f.up.get(n, implicit)
    }
    /// true when the name was already there
    pub fn set(&self, n: &[u8], v: V, implicit: bool) -> bool {
        let mut vs = self.0.as_ref().unwrap().vars.borrow_mut();
        for x in vs.iter_mut() { if x.0 == n { x.1 = v; x.2 |= implicit; return true; } }
        vs.push((n.to_vec(), v, implicit));
        false
    }
    fn names(&self) -> Vec<S> { self.0.as_ref().unwrap().vars.borrow().iter().map(|x| x.0.clone()).collect() }
    fn drop(&self, keep: &[S]) { self.0.as_ref().unwrap().vars.borrow_mut().retain(|x| keep.contains(&x.0)); }
}

/// the state of an evaluation: None from any function means "an error is
/// reported"
#[derive(Default)]
pub struct Ev { pub warned: bool, pub depth: u32, /// nothing is printed after a definition
 pub tight: bool, pub exports: Vec<(S, V)> }

type R<X> = Option<X>;

impl Ev {
    pub fn path(&mut self, p: &Path, env: &Env) -> R<V> {
        let mut v = env.get(p.name.as_bytes(), false)?;
        for (q, st) in &p.steps {
            if *q && v.unit() { continue; }
            v = match (st, v) {
                (Step::Attr(n), V::Dict(d)) => d.into_iter().find(|x| x.0 == n.as_bytes())?.1,
                (Step::Attr("tag_name"), V::Html(h)) if matches!(&h[..], [H::El(..)]) => { let H::El(n, ..) = &h[0] else { return None }; V::Str(n.clone()) }
                (Step::Attr(_), _) => return None,
                (Step::Idx(i), V::List(l)) => {
                    let i = if *i < 0 { *i + l.len() as i64 } else { *i };
                    if i < 0 || i >= l.len() as i64 { return None; }
                    l[i as usize].clone()
                }
                _ => return None,
            };
        }
        Some(v)
    }

    pub fn e(&mut self, e: &E, env: &Env) -> R<V> {
        Some(match e {
            E::Unit => UNIT,
            E::Bool(b) => V::Bool(*b),
            E::Int(s) => {
                let (neg, ds) = if s[0] == b'-' { (true, &s[1..]) } else { (false, &s[..]) };
                let mut n = 0i64;
                for d in ds { n = n * 10 + (d - b'0') as i64; }
                V::Int(if neg { -n } else { n })
            }
            E::Verb(s) | E::Word(s) => V::Str(s.clone()),
            E::Var(p) => self.path(p, env)?,
            E::List(l) => {
                let mut out = vec![];
                for (e, sp) in l {
                    let v = self.e(e, env)?;
                    if !*sp { out.push(v); } else if let V::List(l) = v { out.extend(l); } else { return None; }
                }
                V::List(out)
            }
            E::Fn(d) => self.def(d, env)?,
            E::Module(false, m) => V::Dict(m.1.clone()),
            E::Module(true, m) => {
                for (n, v) in &m.1 { if env.set(n, v.clone(), false) { self.warned = true; } }
                V::html(m.0.clone())
            }
            E::Join(es) => {
                let mut o = vec![];
                for e in es { o.push(self.e(e, env)?); }
                let mut h = vec![];
                for v in o { h.extend(to_html(&coerce(v, &T::Html)?)); }
                V::html(normal(h))
            }
            E::Tmpl(ps) => {
                let mut s = vec![];
                for p in ps {
                    match p {
                        TP::Lit(x) => s.extend(x),
                        TP::Ws => s.push(b' '),
                        TP::Var(p) => {
                            let v = self.path(p, env)?;
                            if !v.unit() { let V::Str(x) = coerce(v, &T::Str)? else { return None }; s.extend(x); }
                        }
                    }
                }
                V::Str(s)
            }
            E::Let(imp, vars, e) => {
                let env = env.push();
                for (n, e) in vars {
                    let v = self.e(e, &env)?;
                    if env.set(n.as_bytes(), v, *imp) { self.warned = true; }
                }
                self.e(e, &env)?
            }
            E::Match(v, bs) => {
                let v = self.e(v, env)?;
                for (p, e) in bs {
                    let env = env.push();
                    if self.p(p, &v, &env)? { return self.e(e, &env); }
                }
                return None;
            }
            E::Group(its) => { let ps = self.items(its, env)?; V::html(fill(K::Allow, ps)?) }
            E::Tag(t) => {
                let name: S = match t.name {
                    Tn::Lit(n) => n.as_bytes().to_vec(),
                    Tn::Var(n) => {
                        let V::Str(s) = coerce(env.get(n.as_bytes(), false)?, &T::Str)? else { return None };
                        let s = s.to_ascii_lowercase();
                        if s == b"!doctype" { b"!DOCTYPE".to_vec() }
                        else if !s.is_empty() && !s[0].is_ascii_digit() && s.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') { s }
                        else { return None }
                    }
                };
                let mut at: Vec<(S, Option<S>)> = vec![];
                let mut add = |n: &[u8], v: Option<S>| -> R<()> {
                    if at.iter().any(|x| x.0 == n) { return None; }
                    at.push((n.to_vec(), v));
                    Some(())
                };
                for a in &t.attrs {
                    match a {
                        At::Bare(n) => add(n.as_bytes(), None)?,
                        At::Val(n, q, e) => {
                            let v = self.e(e, env)?;
                            if v.unit() && *q { continue; }
                            let V::Str(s) = coerce(v, &T::Str)? else { return None };
                            add(n.as_bytes(), Some(s))?;
                        }
                        At::Spread(e) => {
                            let V::Dict(d) = self.e(e, env)? else { return None };
                            for (k, v) in d {
                                if v.unit() { add(&k, None)?; continue; }
                                let V::Str(s) = coerce(v, &T::Str)? else { return None };
                                add(&k, Some(s))?;
                            }
                        }
                    }
                }
                let ps = self.items(&t.kids, env)?;
                let k = kind(std::str::from_utf8(&name).unwrap());
                V::Html(vec![H::El(name, at, fill(k, ps)?)])
            }
            E::Call(p, args, c) => {
                if p.name == "dict" && p.steps.len() == 1 && env.get(b"dict", false).is_none() {
                    // @dict::new
                    let mut d: Vec<(S, V)> = vec![];
                    for a in args {
                        if a.spread == 2 {
                            let V::Dict(x) = self.e(&a.value, env)? else { return None };
                            for (k, v) in x { if d.iter().any(|y| y.0 == k) { return None; } d.push((k, v)); }
                        } else if let Some(n) = a.name {
                            let v = self.e(&a.value, env)?;
                            if d.iter().any(|y| y.0 == n.as_bytes()) { return None; }
                            d.push((n.as_bytes().to_vec(), v));
                        } else { return None; }
                    }
                    return if self.e(c, env)?.unit() { Some(V::Dict(d)) } else { None };
                }
                if p.name == "typeof" && p.steps.is_empty() && args.is_empty() {
                    return Some(vs(&self.e(c, env)?.type_of().name()));
                }
                if p.name == "function" && p.steps.len() == 1 && env.get(b"function", false).is_none() {
                    return self.bind(args, c, env);
                }
                let f = self.path(p, env)?;
                if f.unit() && matches!(p.steps.last(), Some((true, _))) { return Some(UNIT); }
                let V::Func(f) = f else { return None };
                let mut b = f.bound.clone();
                let mut multi = false;
                for a in args {
                    let v = self.e(&a.value, env)?;
                    match (a.spread, a.name) {
                        (1, _) => { let V::List(l) = v else { return None }; b.pos.extend(l); }
                        (2, _) => { let V::Dict(d) = v else { return None }; for (k, v) in d { multi |= b.named.iter().any(|x| x.0 == k); b.named.push((k, v)); } }
                        (_, Some(n)) => { multi |= b.named.iter().any(|x| x.0 == n.as_bytes()); b.named.push((n.as_bytes().to_vec(), v)); }
                        _ => b.pos.push(v),
                    }
                }
                if multi { return None; }
                let c = self.e(c, env)?;
                self.apply(&f, b, c, env)?
            }
        })
    }

    /// @function::bind(f, args…) content
    fn bind(&mut self, args: &[Arg], c: &E, env: &Env) -> R<V> {
        let mut pos = vec![];
        let mut named: Vec<(S, V)> = vec![];
        for a in args {
            let v = self.e(&a.value, env)?;
            match (a.spread, a.name) {
                (1, _) => { let V::List(l) = v else { return None }; pos.extend(l); }
                (2, _) => { let V::Dict(d) = v else { return None }; named.extend(d); }
                (_, Some(n)) => named.push((n.as_bytes().to_vec(), v)),
                _ => pos.push(v),
            }
        }
        let c = self.e(c, env)?;
        if pos.is_empty() { return None; }
        let V::Func(f) = pos.remove(0) else { return None };
        let mut b = f.bound.clone();
        b.pos.extend(pos);
        for (k, v) in named { if b.named.iter().any(|x| x.0 == k) { return None; } b.named.push((k, v)); }
        if !c.unit() { if b.content.is_some() { return None; } b.content = Some(c); }
        self.check(&f, &b)?;
        Some(V::Func(Rc::new(F { def: f.def.clone(), env: f.env.clone(), bound: b, defaults: f.defaults.clone() })))
    }

    /// the arguments fit the parameters that receive them
    fn check(&mut self, f: &F, b: &Bound) -> R<()> {
        let ps = &f.def.params;
        let npos = ps.iter().filter(|p| p.kind == Pk::Pos).count();
        let rest = ps.iter().find(|p| p.kind == Pk::PosSpread);
        let nrest = ps.iter().find(|p| p.kind == Pk::NamedSpread);
        for (i, v) in b.pos.iter().enumerate() {
            if i < npos { coerce(v.clone(), &ty(&ps[i]))?; } else { coerce(v.clone(), &component(&ty(rest?)))?; }
        }
        for (k, v) in &b.named {
            match ps.iter().find(|p| p.kind == Pk::Named && p.name.as_bytes() == &k[..]) {
                Some(p) => { coerce(v.clone(), &ty(p))?; }
                None => { coerce(v.clone(), &component(&ty(nrest?)))?; }
            }
        }
        if let Some(c) = &b.content {
            let t = match &f.def.content { None => T::None, Some(p) => ty(p) };
            coerce(c.clone(), &t)?;
        }
        Some(())
    }

    /// a call with these arguments; `env` is the caller's
    pub fn apply(&mut self, f: &Rc<F>, mut b: Bound, content: V, env: &Env) -> R<V> {
        if b.content.is_some() && f.def.content.is_some() { if !content.unit() { return None; } } else { b.content = Some(content); }
        self.check(f, &b)?;
        let ps = &f.def.params;
        let new = f.env.push();
        let mut pos = b.pos.into_iter();
        for (i, p) in ps.iter().enumerate() {
            let given = match p.kind {
                Pk::Pos => pos.next(),
                Pk::PosSpread => Some(V::List(pos.by_ref().collect::<Vec<_>>())),
                Pk::Named => match b.named.iter().position(|x| x.0 == p.name.as_bytes()) {
                    Some(k) => Some(b.named.remove(k).1),
                    None if p.implicit => env.get(p.name.as_bytes(), true),
                    None => None,
                },
                Pk::NamedSpread => {
                    let rest = b.named.iter().filter(|x| !ps.iter().any(|q| q.kind == Pk::Named && q.name.as_bytes() == &x.0[..])).cloned().collect();
                    Some(V::Dict(rest))
                }
            };
            let v = match given { Some(v) => coerce(v, &ty(p))?, None => f.defaults[i].clone()? };
            new.set(p.name.as_bytes(), v, false);
        }
        match &f.def.content {
            None => {}
            Some(p) => { new.set(p.name.as_bytes(), coerce(b.content?, &ty(p))?, false); }
        }
        // programs that never end are left out
        crate::sym::assume(self.depth < 40);
        self.depth += 1;
        let r = self.e(&f.def.body, &new);
        self.depth -= 1;
        r
    }

    pub fn def(&mut self, d: &Rc<Def>, env: &Env) -> R<V> {
        let mut defaults = vec![];
        for p in &d.params {
            defaults.push(match &p.default { Some(e) => Some(coerce(self.e(e, env)?, &ty(p))?), None if p.opt => Some(UNIT), None => None });
        }
        Some(V::Func(Rc::new(F { def: d.clone(), env: env.clone(), bound: Bound::default(), defaults })))
    }

    fn export(&mut self, n: N, v: V) {
        for x in self.exports.iter_mut() { if x.0 == n.as_bytes() { x.1 = v; self.warned = true; return; } }
        self.exports.push((n.as_bytes().to_vec(), v));
    }
    fn export_all(&mut self, x: &Ex, env: &Env) -> R<()> {
        match x {
            Ex::Names(vs) => for (n, e) in vs { let v = self.e(e, env)?; self.export(n, v); },
            Ex::Fn(d) => {
                let v = self.def(d, env)?;
                let n = d.name.unwrap();
                self.export(n, v.clone());
                if env.set(n.as_bytes(), v, false) { self.warned = true; }
            }
            Ex::Let(vs, e) => {
                let env = env.push();
                for (n, e) in vs {
                    let v = self.e(e, &env)?;
                    self.export(n, v.clone());
                    if env.set(n.as_bytes(), v, false) { self.warned = true; }
                }
                let v = self.e(e, &env)?;
                coerce(v, &T::None)?;
            }
        }
        Some(())
    }

    pub fn items(&mut self, its: &[It], env: &Env) -> R<Vec<Piece>> {
        let space = |i: &It| matches!(i, It::Ws | It::Break);
        let mut its = its;
        while its.first().map_or(false, space) { its = &its[1..]; }
        while its.last().map_or(false, space) { its = &its[..its.len() - 1]; }
        let mut ps = vec![];
        for i in its {
            match i {
                It::Text(s) => ps.push(Piece::N(H::Text(s.clone()))),
                It::Ws => ps.push(Piece::N(H::Text(b" ".to_vec()))),
                It::Break => ps.push(Piece::Break),
                It::Fn(d) => { let v = self.def(d, env)?; if env.set(d.name.unwrap().as_bytes(), v, false) { self.warned = true; } if !self.tight { ps.push(Piece::N(H::Text(b" ".to_vec()))); } }
                It::Export(x) => { self.export_all(x, env)?; if !self.tight { ps.push(Piece::N(H::Text(b" ".to_vec()))); } }
                It::E(e) => {
                    let v = coerce(self.e(e, env)?, &T::Html)?;
                    for h in to_html(&v) { ps.push(Piece::N(h)); }
                }
            }
        }
        Some(ps)
    }

    // ---- patterns
    fn set(&mut self, env: &Env, n: &str, v: V) { if env.set(n.as_bytes(), v, false) { self.warned = true; } }

    fn all<'a>(&mut self, ps: impl Iterator<Item = &'a P>, vs: &[V], env: &Env) -> R<bool> {
        for (p, v) in ps.zip(vs) { if !self.p(p, v, env)? { return Some(false); } }
        Some(true)
    }

    fn seq(&mut self, ps: &[P], sp: Option<usize>, vals: &[V], make: &dyn Fn(&[V]) -> V, env: &Env) -> R<bool> {
        let Some(i) = sp else { return if ps.len() == vals.len() { self.all(ps.iter(), vals, env) } else { Some(false) } };
        if vals.len() + 1 < ps.len() { return Some(false); }
        let j = vals.len() - (ps.len() - i - 1);
        Some(self.all(ps[..i].iter(), &vals[..i], env)? && self.p(&ps[i], &make(&vals[i..j]), env)? && self.all(ps[i + 1..].iter(), &vals[j..], env)?)
    }

    fn named(&mut self, ps: &[(N, &P)], rest: &Option<Option<Box<P>>>, d: &[(S, V)], env: &Env) -> R<bool> {
        if rest.is_none() && d.len() != ps.len() { return Some(false); }
        for (n, p) in ps {
            let Some(x) = d.iter().find(|x| x.0 == n.as_bytes()) else { return Some(false) };
            if !self.p(p, &x.1, env)? { return Some(false); }
        }
        if let Some(Some(p)) = rest {
            let left = d.iter().filter(|x| !ps.iter().any(|q| q.0.as_bytes() == &x.0[..])).cloned().collect();
            return self.p(p, &V::Dict(left), env);
        }
        Some(true)
    }

    pub fn p(&mut self, p: &P, v: &V, env: &Env) -> R<bool> {
        Some(match p {
            P::Ignore => true,
            P::None => v.unit(),
            P::Var(n) => { self.set(env, n, v.clone()); true }
            P::And(a, b) => self.p(a, v, env)? && self.p(b, v, env)?,
            P::Or(a, b) => {
                let mut names = vec![];
                bound(a, &mut names);
                bound(b, &mut names);
                let before = env.names();
                if !self.p(a, v, env)? {
                    // a failed alternative leaves no names behind
                    let keep: Vec<S> = before.into_iter().filter(|n| !names.iter().any(|m| m.as_bytes() == &n[..])).chain(env.names().into_iter().filter(|n| !names.iter().any(|m| m.as_bytes() == &n[..]))).collect();
                    env.drop(&keep);
                    if !self.p(b, v, env)? { return Some(false); }
                }
                let have = env.names();
                for n in names { if !have.iter().any(|m| n.as_bytes() == &m[..]) { env.set(n.as_bytes(), UNIT, false); } }
                true
            }
            P::Lit(e) | P::Is(e) => { let w = self.e(e, env)?; eq(v, &w) }
            P::Typed(t) => belongs(v, t),
            P::VarTyped(n, t) => { let r = belongs(v, t); if r { self.set(env, n, v.clone()); } r }
            P::TypeOf(n) => { self.set(env, n, vs(&v.type_of().name())); true }
            P::List(ps, sp) => { let V::List(l) = v else { return Some(false) }; self.seq(ps, *sp, l, &|x| V::List(x.to_vec()), env)? }
            P::Nodes(ps, sp) => {
                let h = match v { V::Html(h) => h.clone(), V::Str(_) => to_html(v), _ => return Some(false) };
                let vals: Vec<V> = h.into_iter().map(|n| V::html(vec![n])).collect();
                self.seq(ps, *sp, &vals, &|x| V::html(x.iter().flat_map(to_html).collect()), env)?
            }
            P::Dict(ps, rest) => { let V::Dict(d) = v else { return Some(false) }; let ps: Vec<(N, &P)> = ps.iter().map(|x| (x.0, &x.1)).collect(); self.named(&ps, rest, d, env)? }
            P::Tag(n, ats, rest, c) => {
                let V::Html(h) = v else { return Some(false) };
                let [H::El(name, at, kids)] = &h[..] else { return Some(false) };
                match n {
                    None => {}
                    Some(Ok(n)) => if n.as_bytes() != &name[..] { return Some(false); },
                    Some(Err(x)) => self.set(env, x, V::Str(name.clone())),
                }
                let d: Vec<(S, V)> = at.iter().map(|(k, v)| (k.clone(), v.clone().map_or(UNIT, V::Str))).collect();
                let none = P::None;
                let ps: Vec<(N, &P)> = ats.iter().map(|x| (x.0, x.1.as_ref().unwrap_or(&none))).collect();
                self.named(&ps, rest, &d, env)? && self.p(c, &V::html(kids.clone()), env)?
            }
            P::Tmpl(ps) => {
                let V::Str(s) = v else { return Some(false) };
                if !ps.iter().any(|p| matches!(p, TP::Var(_) | TP::Ws)) {
                    let w = self.e(&E::Tmpl(ps.iter().map(|p| match p { TP::Lit(s) => TP::Lit(s.clone()), _ => TP::Ws }).collect()), env)?;
                    return Some(eq(v, &w));
                }
                let mut caps = vec![];
                if !lazy(ps, s, &mut caps) { return Some(false); }
                for (n, a, b) in caps { self.set(env, n, V::Str(s[a..b].to_vec())); }
                true
            }
        })
    }
}

fn char_len(c: u8) -> usize { if c < 0x80 { 1 } else if c < 0xE0 { 2 } else if c < 0xF0 { 3 } else { 4 } }

/// every variable takes as few characters as it can, but at least one, the
/// first one first
fn lazy(ps: &[TP], whole: &[u8], caps: &mut Vec<(N, usize, usize)>) -> bool {
    fn go(ps: &[TP], s: &[u8], at: usize, caps: &mut Vec<(N, usize, usize)>) -> bool {
        match ps.first() {
            None => at == s.len(),
            Some(TP::Lit(l)) => s[at..].starts_with(l) && go(&ps[1..], s, at + l.len(), caps),
            Some(TP::Ws) => {
                // as many as it can
                let mut n = 0;
                while at + n < s.len() && matches!(s[at + n], b' ' | 9..=13) { n += 1; }
                while n >= 1 { if go(&ps[1..], s, at + n, caps) { return true; } n -= 1; }
                false
            }
            Some(TP::Var(p)) => {
                let mut end = at;
                while end < s.len() {
                    end += char_len(s[end]);
                    caps.push((p.name, at, end));
                    if go(&ps[1..], s, end, caps) { return true; }
                    caps.pop();
                }
                false
            }
        }
    }
    go(ps, whole, 0, caps)
}

pub fn bound(p: &P, out: &mut Vec<N>) {
    match p {
        P::Var(n) | P::TypeOf(n) | P::VarTyped(n, _) => out.push(n),
        P::And(a, b) | P::Or(a, b) => { bound(a, out); bound(b, out); }
        P::List(ps, _) | P::Nodes(ps, _) => for p in ps { bound(p, out); },
        P::Dict(ps, r) => { for p in ps { bound(&p.1, out); } if let Some(Some(p)) = r { bound(p, out); } }
        P::Tag(n, ats, r, c) => {
            if let Some(Err(n)) = n { out.push(n); }
            for a in ats { if let Some(p) = &a.1 { bound(p, out); } }
            if let Some(Some(p)) = r { bound(p, out); }
            bound(c, out);
        }
        P::Tmpl(ps) => for p in ps { if let TP::Var(p) = p { out.push(p.name); } },
        _ => {}
    }
}

pub fn ty(p: &Param) -> T { let t = p.ty.clone().unwrap_or(T::Any); if p.opt { t.opt() } else { t } }
pub fn component(t: &T) -> T { match t { T::List(t) | T::Dict(t) => (**t).clone(), T::Opt(t) => component(t), T::Html | T::Block => T::Html, _ => T::Any } }

// ---- what the parser rejects
pub fn bad(e: &E) -> bool {
    match e {
        E::List(l) => l.iter().any(|x| bad(&x.0)),
        E::Fn(d) => bad_def(d),
        E::Join(es) => es.iter().any(bad),
        E::Call(_, args, c) => bad_args(args) || bad(c),
        E::Let(_, vars, e) => {
            bad_vars(vars) || bad(e)
                || matches!(**e, E::Unit | E::Bool(_) | E::Int(_) | E::Verb(_) | E::Word(_))
        }
        E::Match(v, bs) => bad(v) || bs.iter().any(|b| bad_p(&b.0) || bad(&b.1)),
        E::Group(its) => bad_items(its),
        E::Tag(t) => {
            let name = |a: &At| match a { At::Val(n, ..) | At::Bare(n) => Some(*n), _ => None };
            (0..t.attrs.len()).any(|i| name(&t.attrs[i]).is_some() && t.attrs[..i].iter().any(|x| name(x) == name(&t.attrs[i])))
                || t.attrs.iter().any(|a| match a { At::Val(_, _, e) | At::Spread(e) => bad(e), _ => false }) || bad_items(&t.kids)
        }
        _ => false,
    }
}
pub fn bad_items(its: &[It]) -> bool { its.iter().any(|i| match i { It::E(e) => bad(e), It::Fn(d) => bad_def(d), It::Export(x) => bad_export(x), _ => false }) }
fn bad_vars(vs: &[(N, E)]) -> bool { (0..vs.len()).any(|i| vs[..i].iter().any(|x| x.0 == vs[i].0)) || vs.iter().any(|x| bad(&x.1)) }
fn bad_export(x: &Ex) -> bool { match x { Ex::Names(vs) => bad_vars(vs), Ex::Fn(d) => bad_def(d), Ex::Let(vs, e) => bad_vars(vs) || bad(e) } }
fn bad_args(args: &[Arg]) -> bool {
    let mut seen_named = false;
    for (i, a) in args.iter().enumerate() {
        if bad(&a.value) { return true; }
        let is_named = a.name.is_some() || a.spread == 2;
        if a.name.is_some() && args[..i].iter().any(|b| b.name == a.name) { return true; }
        if !is_named && seen_named { return true; }
        seen_named |= is_named;
    }
    false
}
pub fn bad_def(d: &Def) -> bool {
    let ps = &d.params;
    for (i, p) in ps.iter().enumerate() {
        let pos = |p: &Param| matches!(p.kind, Pk::Pos | Pk::PosSpread);
        let required = |p: &Param| matches!(p.kind, Pk::Pos | Pk::Named) && !p.opt && p.default.is_none();
        let before = &ps[..i];
        if before.iter().any(|q| q.name == p.name) { return true; }
        if pos(p) && before.iter().any(|q| !pos(q)) { return true; }
        if required(p) && before.iter().any(|q| q.kind == p.kind && !required(q)) { return true; }
        if pos(p) && before.iter().any(|q| q.kind == Pk::PosSpread) { return true; }
        if !pos(p) && before.iter().any(|q| q.kind == Pk::NamedSpread) { return true; }
        if p.implicit && (p.kind != Pk::Named || p.default.is_some()) { return true; }
        if p.default.as_ref().map_or(false, bad) { return true; }
    }
    d.content.as_ref().map_or(false, |c| ps.iter().any(|p| p.name == c.name)) || bad(&d.body)
}
fn bad_p(p: &P) -> bool {
    match p {
        P::And(a, b) | P::Or(a, b) => bad_p(a) || bad_p(b),
        P::Lit(e) | P::Is(e) => bad(e),
        P::List(ps, _) => ps.iter().any(bad_p),
        P::Nodes(ps, _) => ps.iter().any(|p| bad_p(p) || !htmlish(p)),
        P::Dict(ps, r) => (0..ps.len()).any(|i| ps[..i].iter().any(|x| x.0 == ps[i].0)) || ps.iter().any(|x| bad_p(&x.1)) || matches!(r, Some(Some(p)) if bad_p(p)),
        P::Tag(_, ps, r, c) => (0..ps.len()).any(|i| ps[..i].iter().any(|x| x.0 == ps[i].0)) || ps.iter().any(|x| x.1.as_ref().map_or(false, bad_p)) || matches!(r, Some(Some(p)) if bad_p(p)) || bad_p(c),
        _ => false,
    }
}
/// the pattern may match HTML content
fn htmlish(p: &P) -> bool {
    match p {
        P::And(a, b) | P::Or(a, b) => htmlish(a) && htmlish(b),
        P::Lit(e) | P::Is(e) => !matches!(e, E::Bool(_) | E::Int(_) | E::List(_)),
        P::List(..) | P::Dict(..) => false,
        _ => true,
    }
}

// ---- which names call which: (function or "", name called)
pub fn calls(e: &E, me: N, out: &mut Vec<(N, N)>) {
    let go = |d: &Def, n: N, out: &mut Vec<(N, N)>| calls(&d.body, n, out);
    match e {
        E::List(l) => for x in l { calls(&x.0, me, out); },
        E::Fn(d) => go(d, me, out),
        E::Join(es) => for e in es { calls(e, me, out); },
        E::Call(p, args, c) => { out.push((me, p.name)); for a in args { calls(&a.value, me, out); } calls(c, me, out); }
        E::Let(_, vars, e) => { calls_vars(vars, me, out); calls(e, me, out); }
        E::Match(v, bs) => { calls(v, me, out); for b in bs { calls(&b.1, me, out); } }
        E::Group(its) => calls_items(its, me, out),
        E::Tag(t) => calls_items(&t.kids, me, out),
        _ => {}
    }
}
fn calls_vars(vars: &[(N, E)], me: N, out: &mut Vec<(N, N)>) { for (n, v) in vars { if let E::Fn(d) = v { calls(&d.body, n, out); } else { calls(v, me, out); } } }
pub fn calls_items(its: &[It], me: N, out: &mut Vec<(N, N)>) {
    for i in its { match i { It::E(e) => calls(e, me, out), It::Fn(d) | It::Export(Ex::Fn(d)) => calls(&d.body, d.name.unwrap(), out), It::Export(Ex::Names(vs)) => calls_vars(vs, me, out), It::Export(Ex::Let(vs, e)) => { calls_vars(vs, me, out); calls(e, me, out) } _ => {} } }
}
/// a function may call itself, directly or not
pub fn cyclic(its: &[It], x: &E) -> bool {
    let mut es = vec![];
    calls_items(its, "", &mut es);
    calls(x, "", &mut es);
    let n = es.len();
    for i in 0..n {
        let (a, mut seen) = (es[i].0, vec![es[i].1]);
        let mut k = 0;
        while k < seen.len() {
            if seen[k] == a { return true; }
            for e in &es { if e.0 == seen[k] && !seen.contains(&e.1) { seen.push(e.1); } }
            k += 1;
        }
    }
    false
}
