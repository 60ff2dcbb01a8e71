//! C27: which sequences of tokens are documents, and what they mean. A
//! reference parser for the tokens below; the meaning is the reference
//! interpreter's.
use crate::refi::{Ex, Path, Step, E, At, Arg, Def, Env, Ev, It, Param, Pk, T, TagE, Tn, S};
use crate::refi::{bad_items, fill, let_, list, param, render, tag, var};
use crate::{sym, util};
use crate::refi::P as Q;
use std::rc::Rc;

fn ch(n: u32) -> u32 { sym::choose(n) }

#[derive(Clone, PartialEq)]
enum K {
    Open, Close, LSq, RSq, LPar, RPar, Comma, Dot, Eq, Dots, Star, Stars, Space, Break, Comment,
    Word(&'static str), Num(S), Bool, Verb(S), Var(&'static str), Func, Let, Implicit, Match, Arrow, Fn, Under, Colon, And, Or, Less, Ent, Of, OfAny, Export,
    /// `<b>`, `<br>`, `<b/>`: the name, whether it stands alone
    Tag(&'static str, bool),
    /// `<b`
    Start(&'static str),
    End, AloneEnd, Quest,
    CloseTag(&'static str),
}

const ALL: &[&str] = &[
    "{", "}", "[", "]", "(", ")", ",", ".", "=", "...", "*", " ", "\n\n", "x", "1", "True", "`a`", "$x", "@f", "@let", "<b>", "<i>", "<br>", "<b/>", "</>", "</b>", "</B>", "</i>", "</br>",
    "<b", "<I", ">", "/>", "y", "@match", "->", "@fn", "_", "<!-- -->", "?", "**", "</I>", ":", "int", "list", "&", "|", "$_a", "@implicit", "<", "&amp;", "::", "?::", "@export", "none",
];
/// the tokens of a scenario
const SETS: &[&[&str]] = &[
    &["{", "}", "[", "]", "<b>", "</>", "</b>", "</i>", "x", ",", " "],
    &["@f", "(", ")", "x", "=", ",", ".", "1", "*", "**", "[", "]", " "],
    &["<b>", "<i>", "</>", "</b>", "</B>", "</I>", "</i>", "<br>", "</br>", "<b/>", "x"],
    &["<b", "<I", ">", "/>", "x", "y", "=", "1", "?", "</>", "</i>", "{", "}", " "],
    &["@let", "(", "x", "=", "1", ")", "$x", "{", "}", ",", "...", " "],
    &["@f", "...", "{", "}", "<b>", "</>", "x", ".", "\n\n", "<!-- -->", "(", ")"],
    &["@match", " ", "1", "{", "_", "->", "x", "}", ",", "$x", "."],
    &["@fn", " ", "x", "(", ")", "$x", "->", "1", "{", "}", "?", "=", ",", "*", "**"],
    ALL,
    &["@match", "[", "1", "]", "{", "[", "*", "...", "_", "=", "->", ",", "$x", "}"],
    &["@match", " ", "1", "{", "_", ":", "int", " ", "list", "none", "?", "$x", "|", "&", "->", "}"],
    &["@fn", " ", "x", "(", "$x", "$_a", ")", "->", "1", "?", ":", "int", "none", "@implicit", ",", "*"],
    &["@let", "(", "x", "=", "b", ")", "<", "$x", ">", "</>", "</b>", "::", "?::", "0", " ", "x", "/>", "1"],
    &["@export", "(", "x", "=", "1", ")", ".", " ", "@let", "@fn", "$x", "->", "...", "{", "}", ","],
    &["[", "@f", "...", "x", "]", "}", ",", "</>", "{", "[", " ", "@f"],
    &["@fn", " ", "x", "$x", "?", "=", "1", "->", ":", "int", "none", "@implicit", ".", "*"],
];

/// correct documents
const TEMPLATES: &[&[&str]] = &[
    &["[", "x", ",", "{", "x", "<b>", "x", "</>", "}", ",", "1", "]", "x"],
    &["@f", "(", "1", ",", "x", "=", "[", "1", "]", ")", "{", "x", "}", "x"],
    &["<i>", "@f", "...", "x", "<b", " ", "x", "=", "1", ">", "x", "</b>", "</I>", "x"],
    &["@let", "(", "x", "=", "1", ")", "{", "$x", " ", "@f", " ", "$x", "}", "$x"],
    &["@match", "[", "1", "]", "{", "1", "->", ".", ",", "$x", "->", "$x", ",", "}", "x"],
    &["@fn", " ", "x", "(", "$x", "?", ")", ".", "->", "{", "x", "}", "x"],
    &["{", "@let", "(", "x", "=", "@fn", "$x", "->", "1", ")", "...", "x", "}", "</>"],
    &["<b", " ", "x", "?", "=", "[", "]", " ", "y", "**", "@f", ".", "/>", "x", "\n\n", "<br>"],
    &["@f", "(", "*", "[", "1", ",", "]", ",", ")", "@f", "(", ")", "<i>", "</>", "`a`", "True"],
    &["{", "{", "[", "{", "}", ",", "{", "]", "}", "]", "}", "}"],
    &["@match", " ", "x", "{", "=", "x", "->", "<b>", "@let", "(", "x", "=", "1", ")", "...", "$x", "</b>", "}"],
    &["@match", "[", "1", ",", "<b>", "x", "</>", "]", "{", "[", "_", ":", "int", ",", "<b", " ", "x", "=", ".", ">", "</>", "]", "->", ".", ",", "[", "$x", "|", "1", ",", "*", "_", "]", "->", "$x", "}"],
    &["@match", " ", "<I", " ", "x", "=", "1", " ", "y", ">", "x", "</i>", "{", "<I", "**", "(", "x", "=", "$x", ",", "...", ")", ">", "_", "</I>", "->", "$x", "}"],
    &["@match", "{", "x", "<b>", "1", "</b>", "}", "{", "{", "=", "x", "...", "}", "->", "1", ",", "{", "_", "<b>", "$x", "</>", "*", ".", "}", "->", "$x", "}"],
    &["@fn", " ", "x", "(", "$_a", ",", "$x", "?", ":", "int", ")", "$y", "?", ":", "int", " ", "list", "->", "$y", "@f", "{", "}"],
    &["@implicit", "(", "x", "=", "1", ")", "{", "@fn", " ", "y", "(", "$x", ":", "@implicit", " ", "int", ")", ".", "->", "$x", "}", "@f", "|"],
    &["@let", "(", "x", "=", "b", ")", "{", "<", "$x", ">", "x", "</>", "&amp;", "}", "@export", "(", "y", "=", "1", ")", ".", "@export", "@fn", " ", "x", "$y", "->", "$y"],
    &["@let", "(", "x", "=", "[", "x", ",", "1", "]", ")", "{", "$x", "::", "1", "@f", " ", "$x", "?::", "0", "}", "@export", "@let", "(", "y", "=", "1", ")", "{", "$y", "@export", "(", "x", "=", "$y", ")", " ", ".", "}"],
    &["@match", "<b>", "1", "</>", "{", "<", "_", " ", "...", ">", "{", "}", "</>", "->", ".", ",", "<", "$x", " ", "**", "_", ">", "$y", "</>", "->", "$x", "}"],
    &["@match", " ", "1", "{", "$x", "&", "1", "|", "$y", "&", "$x", "|", "_", "->", "[", "$x", ",", "$y", "]", "}"],
    // and documents that are one token from correct
    &["@fn", " ", "x", "(", "*", "$_a", "=", "1", ")", ".", "->", "1"],
    &["@fn", " ", "x", "(", "**", "$y", "=", "1", ")", ".", "->", "1"],
    &["@fn", " ", "x", "(", "$x", "?", "=", "1", ")", "$y", "?", "=", "1", "->", "1"],
    &["@f", "(", "*", "x", "=", "1", ")", ".", "x"],
    &["@match", " ", "1", "{", "<b", " ", "**", "_", " ", "x", ">", "</>", "->", "1", ",", "_", "->", "1", "}"],
    &["@match", "{", "x", "}", "{", "{", "...", "*", "_", "}", "->", "1", "}"],
    &["@let", "(", "x", "=", "1", ",", "y", "=", "1", ")", "`a`"],
    &["@f", "(", "**", "x", "=", "1", ")", ".", "x"],
    &["@match", " ", "1", "{", "_", ":", "int", "?", "->", "1", ",", "$x", ":", "list", " ", "list", "->", "$x", ",", "_", "->", "x", "}"],
];

fn token(s: &'static str) -> K {
    match s {
        "{" => K::Open, "}" => K::Close, "[" => K::LSq, "]" => K::RSq, "(" => K::LPar, ")" => K::RPar, "," => K::Comma, "." => K::Dot, "=" => K::Eq, "..." => K::Dots, "*" => K::Star, "**" => K::Stars,
        " " => K::Space, "\n\n" => K::Break, "x" | "y" | "int" | "list" | "none" => K::Word(s), "1" => K::Num(vec![sym::digit()]), "True" => K::Bool, "`a`" => K::Verb(vec![sym::range(b'a', b'd')]),
        "$x" => K::Var("x"), "$_a" => K::Var("_a"), "$y" => K::Var("y"), ":" => K::Colon, "&" => K::And, "|" => K::Or, "@implicit" => K::Implicit, "<" => K::Less, "&amp;" => K::Ent, "::" => K::Of, "?::" => K::OfAny, "@export" => K::Export, "b" => K::Word("b"), "0" => K::Num(vec![b'0']), "@f" => K::Func, "@let" => K::Let, "<b>" => K::Tag("b", false), "<i>" => K::Tag("i", false), "<br>" => K::Tag("br", true), "<b/>" => K::Tag("b", true),
        "</>" => K::CloseTag(""), "</b>" => K::CloseTag("b"), "</B>" => K::CloseTag("B"), "</i>" => K::CloseTag("i"), "</I>" => K::CloseTag("I"), "</br>" => K::CloseTag("br"),
        "<b" => K::Start("b"), "<I" => K::Start("I"), ">" => K::End, "/>" => K::AloneEnd, "@match" => K::Match, "->" => K::Arrow, "@fn" => K::Fn, "_" => K::Under, "?" => K::Quest,
        _ => K::Comment,
    }
}
fn print(k: &K, o: &mut Vec<u8>) {
    let s: &[u8] = match k {
        K::Open => b"{", K::Close => b"}", K::LSq => b"[", K::RSq => b"]", K::LPar => b"(", K::RPar => b")", K::Comma => b",", K::Dot => b".", K::Eq => b"=", K::Dots => b"...", K::Star => b"*", K::Stars => b"**",
        K::Space => b" ", K::Break => b"\n\n", K::Comment => b"<!-- -->", K::Word(s) => s.as_bytes(), K::Num(s) => s, K::Bool => b"True",
        K::Verb(s) => { o.push(b'`'); o.extend(s); b"`" }
        K::Var(n) => { o.push(b'$'); n.as_bytes() }
        K::Colon => b":", K::And => b"&", K::Or => b"|", K::Implicit => b"@implicit", K::Less => b"<", K::Ent => b"&amp;", K::Of => b"::", K::OfAny => b"?::", K::Export => b"@export", K::Func => b"@f", K::Let => b"@let", K::Match => b"@match", K::Arrow => b"->", K::Fn => b"@fn", K::Under => b"_", K::End => b">", K::AloneEnd => b"/>", K::Quest => b"?",
        K::Tag(n, a) => { o.push(b'<'); o.extend(n.as_bytes()); if *a && *n != "br" { b"/>" } else { b">" } }
        K::Start(n) => { o.push(b'<'); n.as_bytes() }
        K::CloseTag(n) => { o.extend(b"</"); o.extend(n.as_bytes()); b">" }
    };
    o.extend(s);
}
/// whether two tokens would run into each other
fn together(a: &K, b: &K) -> bool {
    let word = |k: &K| matches!(k, K::Word(_) | K::Num(_) | K::Bool | K::Under | K::Var(_) | K::Func | K::Let | K::Implicit | K::Match | K::Fn | K::Export | K::Start(_));
    word(a) && matches!(b, K::Word(_) | K::Num(_) | K::Bool | K::Under)
        || matches!((a, b), (K::Dot | K::Dots, K::Dot | K::Dots) | (K::Star | K::Stars, K::Star | K::Stars) | (K::Space | K::Break | K::Comment, K::Space | K::Break | K::Comment) | (K::Verb(_), K::Verb(_)) | (K::End | K::AloneEnd, K::Eq) | (K::Colon | K::Of | K::OfAny, K::Colon | K::Of | K::OfAny) | (K::Quest, K::Of | K::OfAny) | (K::Less, K::Eq | K::Word(_) | K::AloneEnd | K::End | K::Arrow | K::Comment) | (K::And, K::Word(_) | K::Bool))
}

struct P { t: Vec<K>, i: usize, warned: bool, skip: bool }
#[derive(Clone, Copy)]
enum Until { Eof, Brace, Tag(&'static str), Dots }

impl P {
    fn peek(&self) -> Option<&K> { self.t.get(self.i) }
    fn next(&mut self) -> Option<K> { let k = self.t.get(self.i)?.clone(); self.i += 1; Some(k) }
    fn is(&mut self, k: K) -> bool { if self.peek() == Some(&k) { self.i += 1; true } else { false } }
    fn need(&mut self, k: K) -> Option<()> { if self.is(k) { Some(()) } else { None } }
    fn ws(&mut self) { while matches!(self.peek(), Some(K::Space | K::Break)) { self.i += 1; } }

    fn nodes(&mut self, u: Until) -> Option<Vec<It>> {
        let mut o = vec![];
        self.ws();
        loop {
            let Some(k) = self.peek().cloned() else { if matches!(u, Until::Eof | Until::Dots) { break; } else { return None } };
            match (u, &k) {
                (Until::Brace, K::Close) => { self.i += 1; break }
                (Until::Tag(n), K::CloseTag(m)) if m.is_empty() || m.eq_ignore_ascii_case(n) => { self.i += 1; break }
                (Until::Dots, K::Close | K::CloseTag(_)) => break,
                _ => {}
            }
            o.push(self.node()?);
        }
        while matches!(o.last(), Some(It::Ws | It::Break)) { o.pop(); }
        Some(o)
    }
    fn node(&mut self) -> Option<It> {
        let k = self.next()?;
        let text = |s: &[u8]| Some(It::Text(s.to_vec()));
        match k {
            K::Close | K::RSq | K::CloseTag(_) => None,
            K::Space => Some(It::Ws),
            K::Break => Some(It::Break),
            K::Comma | K::Dot | K::LPar | K::RPar | K::Eq | K::Word(_) | K::Num(_) | K::Bool | K::Star | K::Stars | K::End | K::AloneEnd | K::Under | K::Quest | K::Colon | K::And | K::Of | K::OfAny => { let mut o = vec![]; print(&k, &mut o); text(&o) }
            K::Dots => text("\u{2026}".as_bytes()),
            K::Arrow => text("\u{2192}".as_bytes()),
            K::Or => text("\u{2060}".as_bytes()),
            K::Ent => text(b"&"),
            K::Less if !matches!(self.peek(), Some(K::Var(_))) => text(b"<"),
            K::Export => {
                self.ws();
                Some(It::Export(if self.is(K::Fn) { Ex::Fn(Rc::new(self.def(true)?)) } else {
                    let is_let = self.is(K::Let);
                    let vars = self.vars()?;
                    if is_let { Ex::Let(vars, self.content()?) } else { self.ws(); self.need(K::Dot)?; Ex::Names(vars) }
                }))
            }
            K::Verb(s) => Some(It::E(tag("code", vec![It::Text(s)]))),
            K::Fn => { let d = self.def(true)?; Some(It::Fn(Rc::new(d))) }
            _ => { self.i -= 1; Some(It::E(self.expr()?)) }
        }
    }
    fn group(its: Vec<It>) -> E { if its.is_empty() { E::Unit } else { E::Group(its) } }
    /// what follows a call or a binding
    fn content(&mut self) -> Option<E> {
        self.ws();
        if self.is(K::Dots) { Some(P::group(self.nodes(Until::Dots)?)) } else { self.expr() }
    }
    fn expr(&mut self) -> Option<E> {
        self.ws();
        Some(match self.next()? {
            K::Dot => E::Unit,
            K::Word(s) => E::Word(s.as_bytes().to_vec()),
            K::Num(s) => E::Int(s),
            K::Bool => E::Bool(true),
            K::Verb(s) => E::Verb(s),
            K::Var(n) => E::Var(self.path(n)?),
            K::Open => P::group(self.nodes(Until::Brace)?),
            K::LSq => {
                let es = self.separated(K::RSq, |p| p.arg())?;
                if es.iter().any(|a| a.name.is_some() || a.spread == 2) { return None; }
                E::List(es.into_iter().map(|a| (a.value, a.spread == 1)).collect())
            }
            K::Func => { let p = self.path("f")?; let a = self.args()?; let c = self.content()?; E::Call(p, a.unwrap_or(vec![]), Box::new(c)) }
            K::Less => {
                let Some(K::Var(n)) = self.next() else { return None };
                if !self.path(n)?.steps.is_empty() { self.skip = true; return None; }
                self.start(Tn::Var(n))?
            }
            k @ (K::Let | K::Implicit) => {
                let vars = self.vars()?;
                let c = self.content()?;
                E::Let(k == K::Implicit, vars, Box::new(c))
            }
            K::Tag(n, alone) => self.tag(Tn::Lit(n), vec![], alone)?,
            K::Start(n) => self.start(Tn::Lit(if n == "I" { "i" } else { n }))?,
            K::Match => {
                let v = self.expr()?;
                self.ws();
                self.need(K::Open)?;
                let arms = self.separated(K::Close, |p| {
                    let q = p.pattern()?;
                    p.ws();
                    p.need(K::Arrow)?;
                    Some((q, p.expr()?))
                })?;
                E::Match(Box::new(v), arms)
            }
            K::Fn => E::Fn(Rc::new(self.def(false)?)),
            _ => return None,
        })
    }
    fn start(&mut self, n: Tn) -> Option<E> {
        let mut ats = vec![];
        loop {
            self.ws();
            if self.is(K::End) { return self.tag(n, ats, false); }
            if self.is(K::AloneEnd) { return self.tag(n, ats, true); }
            if self.is(K::Stars) { ats.push(At::Spread(self.expr()?)); continue; }
            let K::Word(a) = self.next()? else { return None };
            self.ws();
            let q = self.is(K::Quest);
            self.ws();
            ats.push(if self.is(K::Eq) { At::Val(a, q, self.expr()?) } else if q { return None } else { At::Bare(a) });
        }
    }
    fn tag(&mut self, name: Tn, attrs: Vec<At>, alone: bool) -> Option<E> {
        let end = match name { Tn::Lit(n) => n, Tn::Var(_) => "" };
        let kids = if alone { vec![] } else { self.nodes(Until::Tag(end))? };
        Some(E::Tag(Box::new(TagE { name, attrs, kids })))
    }
    /// a name and its parts
    fn path(&mut self, name: &'static str) -> Option<Path> {
        let mut steps = vec![];
        loop {
            let any = self.peek() == Some(&K::OfAny);
            if !any && self.peek() != Some(&K::Of) { return Some(Path { name, steps }); }
            self.i += 1;
            steps.push((any, match self.next()? { K::Num(s) => Step::Idx((s[0] - b'0') as i64), K::Word(n) => Step::Attr(n), _ => return None }));
        }
    }
    /// the names of a binding
    fn vars(&mut self) -> Option<Vec<(&'static str, E)>> {
        let a = self.args()??;
        if a.is_empty() || a.iter().any(|a| a.name.is_none() || a.spread > 0) { return None; }
        Some(a.into_iter().map(|a| (a.name.unwrap(), a.value)).collect())
    }
    fn separated<X>(&mut self, close: K, f: impl Fn(&mut P) -> Option<X>) -> Option<Vec<X>> {
        let mut o = vec![];
        loop {
            self.ws();
            if self.is(close.clone()) { return Some(o); }
            o.push(f(self)?);
            self.ws();
            if !self.is(K::Comma) { self.ws(); self.need(close)?; return Some(o); }
        }
    }
    fn arg(&mut self) -> Option<Arg> {
        self.ws();
        let spread = if self.is(K::Star) { 1 } else if self.is(K::Stars) { 2 } else { 0 };
        self.ws();
        if let Some(K::Word(n)) = self.peek().cloned() {
            self.i += 1;
            self.ws();
            if self.is(K::Eq) {
                if spread > 0 { return None; }
                return Some(Arg { spread: 0, name: Some(n), value: self.expr()? });
            }
            return Some(Arg { spread, name: None, value: E::Word(n.as_bytes().to_vec()) });
        }
        Some(Arg { spread, name: None, value: self.expr()? })
    }
    fn args(&mut self) -> Option<Option<Vec<Arg>>> {
        self.ws();
        if !self.is(K::LPar) { return Some(None); }
        Some(Some(self.separated(K::RPar, |p| p.arg())?))
    }
    fn def(&mut self, named: bool) -> Option<Def> {
        self.ws();
        let name = if let Some(K::Word(n)) = self.peek().cloned() { self.i += 1; Some(n) } else { None };
        if named && name.is_none() { return None; }
        self.ws();
        let params = if self.is(K::LPar) { self.separated(K::RPar, |p| p.param())? } else { vec![] };
        self.ws();
        let mut content = None;
        if !self.is(K::Dot) {
            let c = self.param()?;
            if !matches!(c.kind, Pk::Pos | Pk::Named) || c.default.is_some() { return None; }
            content = Some(c);
        }
        self.ws();
        self.need(K::Arrow)?;
        let body = self.expr()?;
        Some(Def { name, params, content, body })
    }
    fn param(&mut self) -> Option<Param> {
        self.ws();
        let spread = if self.is(K::Star) { 1 } else if self.is(K::Stars) { 2 } else { 0 };
        self.ws();
        let Some(K::Var(n)) = self.next() else { return None };
        let under = n.starts_with('_');
        self.ws();
        let opt = self.is(K::Quest);
        self.ws();
        let mut ty = None;
        let mut implicit = false;
        if self.is(K::Colon) {
            self.ws();
            implicit = self.is(K::Implicit);
            ty = Some(self.ty()?);
        }
        self.ws();
        let default = if self.is(K::Eq) { Some(self.expr()?) } else { None };
        let kind = match (spread, under) { (0, true) => Pk::Pos, (0, false) => Pk::Named, (1, true) => Pk::PosSpread, (2, false) => Pk::NamedSpread, _ => return None };
        if spread > 0 && (default.is_some() || implicit) { return None; }
        Some(Param { opt, implicit, ty, default, ..param(kind, n) })
    }
    fn ty(&mut self) -> Option<T> {
        self.ws();
        let mut t = match self.next()? { K::Word("int") => T::Int, K::Word("none") => T::None, K::Word("list") => T::Any.list(), _ => return None };
        loop {
            self.ws();
            match self.peek() {
                Some(K::Word("list")) => t = t.list(),
                Some(K::Word(_)) => return None,
                Some(K::Quest) => if t.has_unit() { self.warned = true } else { t = T::Opt(Box::new(t)) },
                _ => return Some(t),
            }
            self.i += 1;
        }
    }

    fn pattern(&mut self) -> Option<Q> {
        let mut p = self.both()?;
        loop {
            self.ws();
            if !self.is(K::Or) { return Some(p); }
            p = Q::Or(Box::new(p), Box::new(self.both()?));
        }
    }
    fn both(&mut self) -> Option<Q> {
        let mut p = self.primary()?;
        loop {
            self.ws();
            if !self.is(K::And) { return Some(p); }
            p = Q::And(Box::new(p), Box::new(self.primary()?));
        }
    }
    fn primary(&mut self) -> Option<Q> {
        self.ws();
        Some(match self.next()? {
            K::Under => self.typed(None)?,
            K::Var(n) => { self.simple()?; self.typed(Some(n))? }
            K::Dot => Q::None,
            K::Bool => Q::Lit(E::Bool(true)),
            K::Num(s) => Q::Lit(E::Int(s)),
            K::Verb(s) => Q::Lit(E::Verb(s)),
            K::Eq => Q::Is(self.expr()?),
            K::LSq => { let (ps, i) = self.sequence(K::RSq)?; Q::List(ps, i) }
            K::Open => { let (ps, i) = self.sequence(K::Close)?; if ps.is_empty() { Q::None } else { Q::Nodes(ps, i) } }
            K::LPar => {
                let (ps, r) = self.fields(K::RPar)?;
                Q::Dict(ps.into_iter().map(|x| (x.0, x.1.unwrap())).collect(), r)
            }
            K::Tag(n, alone) => self.tag_pattern(Some(Ok(n)), vec![], None, alone)?,
            K::Less => {
                let n = match self.next()? { K::Under => None, K::Var(n) => { self.simple()?; Some(Err(n)) } _ => return None };
                let (ps, r) = self.fields(K::End)?;
                let alone = self.t[self.i - 1] == K::AloneEnd;
                self.tag_pattern(n, ps, r, alone)?
            }
            K::Start(n) => {
                let n = if n == "I" { "i" } else { n };
                let (ps, r) = self.fields(K::End)?;
                let alone = self.t[self.i - 1] == K::AloneEnd;
                self.tag_pattern(Some(Ok(n)), ps, r, alone)?
            }
            _ => return None,
        })
    }
    /// no parts
    fn simple(&self) -> Option<()> { if matches!(self.peek(), Some(K::Of | K::OfAny)) { None } else { Some(()) } }
    fn typed(&mut self, n: Option<&'static str>) -> Option<Q> {
        self.ws();
        let p = n.map_or(Q::Ignore, Q::Var);
        if !self.is(K::Colon) { return Some(p); }
        self.ws();
        let t = if let Some(K::Var(v)) = self.peek().cloned() { self.i += 1; self.simple()?; Q::TypeOf(v) } else { Q::Typed(self.ty()?) };
        Some(if n.is_none() { t } else { Q::And(Box::new(t), Box::new(p)) })
    }
    fn sequence(&mut self, close: K) -> Option<(Vec<Q>, Option<usize>)> {
        let html = close == K::Close;
        let ps = self.list(close, !html, |p| {
            p.ws();
            if p.is(K::Dots) { return Some((true, Q::Ignore)); }
            let spread = p.is(K::Star);
            Some((spread, p.pattern()?))
        })?;
        if ps.iter().filter(|x| x.0).count() > 1 { return None; }
        let i = ps.iter().position(|x| x.0);
        Some((ps.into_iter().map(|x| x.1).collect(), i))
    }
    fn fields(&mut self, close: K) -> Option<(Vec<(&'static str, Option<Q>)>, Option<Option<Box<Q>>>)> {
        let attrs = close == K::End;
        let mut rest = None;
        let mut ps = vec![];
        let all = self.list(close, !attrs, |p| {
            p.ws();
            if p.is(K::Dots) { return Some((None, None)); }
            if p.is(K::Stars) { return Some((None, Some(p.pattern()?))); }
            let Some(K::Word(n)) = p.next() else { return None };
            p.ws();
            if p.is(K::Eq) { Some((Some(n), Some(p.pattern()?))) } else if attrs { Some((Some(n), None)) } else { None }
        })?;
        for (n, p) in all {
            if rest.is_some() { return None; }
            match n { Some(n) => ps.push((n, p)), None => rest = Some(p.map(Box::new)) }
        }
        Some((ps, rest))
    }
    fn tag_pattern(&mut self, n: Option<Result<&'static str, &'static str>>, ps: Vec<(&'static str, Option<Q>)>, r: Option<Option<Box<Q>>>, alone: bool) -> Option<Q> {
        let closes = |k: &K| matches!(k, K::CloseTag(m) if m.is_empty() || matches!(n, Some(Ok(n)) if m.eq_ignore_ascii_case(n)));
        let mut c = Q::None;
        if !alone {
            self.ws();
            if !matches!(self.peek(), Some(K::CloseTag(_))) { c = self.pattern()?; }
            self.ws();
            if !closes(&self.next()?) { return None; }
        }
        Some(Q::Tag(n, ps, r, Box::new(c)))
    }
    /// with commas between, or only next to each other
    fn list<X>(&mut self, close: K, commas: bool, f: impl Fn(&mut P) -> Option<X>) -> Option<Vec<X>> {
        if commas { return self.separated(close, f); }
        let mut o = vec![];
        loop {
            self.ws();
            if self.is(close.clone()) || close == K::End && self.is(K::AloneEnd) { return Some(o); }
            o.push(f(self)?);
        }
    }
}

pub fn run() {
    let mut ctx = util::ctx();
    let n = sym::param(0);
    let set = SETS[sym::param(1) as usize];
    let first = sym::param(2);
    let mut ks: Vec<K> = vec![];
    for i in 0..n {
        let s = if i < first { set[i as usize] } else { set[ch(set.len() as u32) as usize] };
        let k = token(s);
        ks.push(k);
    }
    if n == 0 {
        // a document with one place changed, or two
        let t = TEMPLATES[first as usize];
        let mut ts = t.to_vec();
        for _ in 0..sym::param(3) {
            let i = ch(ts.len() as u32 + 1) as usize;
            match ch(3) {
                0 => ts.insert(i, ALL[ch(ALL.len() as u32) as usize]),
                1 => { sym::assume(i < ts.len()); ts.remove(i); }
                _ => { sym::assume(i < ts.len()); ts[i] = ALL[ch(ALL.len() as u32) as usize]; }
            }
        }
        ks = ts.into_iter().map(token).collect();
    }
    for w in ks.windows(2) { sym::assume(!together(&w[0], &w[1])); }
    for w in ks.windows(3) { sym::assume(!matches!(w, [K::End | K::AloneEnd, K::Comment, K::Eq])); }
    // (a list written in the document cannot have functions in it, unlike a
    // list in a variable)
    sym::assume(!(ks.contains(&K::Fn) && ks.contains(&K::LSq)));
    let mut src = b"@fn f($_a?, $x?) $c -> @let(l=[$_a, $x, $c]) {$l}\n".to_vec();
    for k in &ks { print(k, &mut src); }
    let src = sym::text(src);
    sym::observe(src.as_bytes());
    // comments are as if they were not there
    let mut p = P { t: ks.into_iter().filter(|k| *k != K::Comment).collect(), i: 0, warned: false, skip: false };
    let items = p.nodes(Until::Eof);
    sym::assume(!p.skip);
    let mut ev = Ev { tight: true, ..Ev::default() };
    let want = items.as_ref().and_then(|its| {
        if bad_items(its) { return None; }
        let env = Env::top();
        let c = Param { opt: true, ..param(Pk::Pos, "_a") };
        let x = Param { opt: true, ..param(Pk::Named, "x") };
        let f = It::Fn(Rc::new(Def { name: Some("f"), params: vec![c, x], content: Some(param(Pk::Pos, "c")), body: let_(vec![("l", list(vec![var("_a"), var("x"), var("c")]))], crate::refi::group(var("l"))) }));
        ev.items(&[f], &env)?;
        fill(crate::refi::K::Blocks, ev.items(its, &env)?)
    });
    let r = ctx.compile_synthetic("t", &src);
    let failed = ctx.diagnostics.num_errors > 0;
    sym::cover(want.is_none() as u32);
    match &want {
        None => sym::check(failed, 80, "no error was reported"),
        Some(h) => {
            sym::check(!failed, 81, "an error was reported");
            if !failed {
                sym::check((ctx.diagnostics.num_warnings > 0) == (ev.warned || p.warned), 82, "warnings differ");
                let got = util::render(&ctx, &r.out);
                sym::observe(&got);
                let mut out = vec![];
                render(h, &mut out);
                sym::observe(&out); sym::check(got == out, 83, "the document differs from the reference");
            }
        }
    }
    std::mem::forget((r, src, want, items, p));
    std::mem::forget(ctx);
}
