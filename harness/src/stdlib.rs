//! C24: the functions of the standard library, against what each stands for.
use crate::refi::*;
use crate::{sym, util};
use std::rc::Rc;

fn ch(n: u32) -> u32 { sym::choose(n) }
fn ty_(kind: Pk, name: N, t: T) -> Param { Param { ty: Some(t), ..param(kind, name) } }
fn content(t: T) -> Option<Param> { Some(ty_(Pk::Pos, "v", t)) }
fn lit(s: &str) -> TP { TP::Lit(s.as_bytes().to_vec()) }
fn el_(name: N, attrs: Vec<At>, kids: Vec<It>) -> E { E::Tag(Box::new(TagE { name: Tn::Lit(name), attrs, kids })) }
fn val(n: N, e: E) -> At { At::Val(n, false, e) }
fn v() -> It { It::E(var("v")) }
fn error() -> E { call("raise", vec![], verb("")) }

/// functions that put their content in an element of its own
const WRAP: &[(N, N)] = &[
    ("b", "b"), ("bold", "strong"), ("cite", "cite"), ("dfn", "dfn"), ("emph", "em"), ("i", "i"), ("quote", "q"), ("span", "span"), ("sub", "sub"), ("sup", "sup"),
    ("strikethrough", "s"), ("underline", "u"), ("h1", "h1"), ("h2", "h2"), ("h3", "h3"), ("h4", "h4"), ("h5", "h5"), ("h6", "h6"),
];

/// a tag with `how` applied to its attributes, other values being an error
fn on_tag(with: (N, P), found: Vec<At>, or: Vec<At>) -> E {
    let t = |attrs| E::Tag(Box::new(TagE { name: Tn::Var("t"), attrs, kids: vec![It::E(var("v"))] }));
    let rest = || Some(Some(Box::new(P::Var("a"))));
    E::Match(Box::new(var("v")), vec![
        (P::Tag(Some(Err("t")), vec![(with.0, Some(with.1))], rest(), Box::new(P::Var("v"))), t(found)),
        (P::Tag(Some(Err("t")), vec![], rest(), Box::new(P::Var("v"))), t(or)),
        (P::Ignore, error()),
    ])
}

fn library() -> Env {
    let env = Env::top();
    let mut ev = Ev::default();
    let mut f = |name: N, params: Vec<Param>, c: Option<Param>, body: E| {
        let d = Rc::new(Def { name: Some(name), params, content: c, body });
        let f = ev.def(&d, &env).unwrap();
        env.set(name.as_bytes(), f, false);
    };
    for (n, t) in WRAP { f(n, vec![], content(T::Inline), el_(t, vec![], vec![v()])); }
    for n in ["kbd", "samp"] { f(n, vec![], content(T::Str), el_(n, vec![], vec![v()])); }
    f("blockquote", vec![Param { opt: true, ..ty_(Pk::Named, "cite", T::Str) }], content(T::Block), el_("blockquote", vec![At::Val("cite", true, var("cite"))], vec![v()]));
    f("href", vec![ty_(Pk::Pos, "_url", T::Str)], content(T::Inline), el_("a", vec![val("href", var("_url"))], vec![v()]));
    f("image", vec![Param { opt: true, ..ty_(Pk::Named, "alt", T::Str) }], content(T::Str), el_("img", vec![val("src", var("v")), At::Val("alt", true, var("alt"))], vec![]));
    f("footnote", vec![], content(T::Inline), E::Group(vec![
        It::Text("\u{2060}".as_bytes().to_vec()), It::E(el_("a", vec![val("class", verb("footnote-ref"))], vec![])), It::E(el_("span", vec![val("class", verb("footnote panel"))], vec![v()])),
    ]));
    f("numbered", vec![], content(T::Html), E::Match(Box::new(var("v")), vec![
        (P::Tag(Some(Ok("ul")), vec![], Some(Some(Box::new(P::Var("d")))), Box::new(P::Var("v"))), el_("ol", vec![At::Spread(var("d"))], vec![v()])),
        (P::Ignore, error()),
    ]));
    let tmpl = |ps| E::Tmpl(ps);
    f("class", vec![ty_(Pk::Pos, "_c", T::Str)], content(T::Html), on_tag(("class", P::Var("o")),
        vec![val("class", tmpl(vec![TP::Var(path("o")), TP::Ws, TP::Var(path("_c"))])), At::Spread(var("a"))],
        vec![val("class", var("_c")), At::Spread(var("a"))]));
    f("style", vec![ty_(Pk::Pos, "_s", T::Str)], content(T::Html), on_tag(("style", P::Var("o")),
        vec![val("style", tmpl(vec![TP::Var(path("o")), TP::Var(path("_s"))])), At::Spread(var("a"))],
        vec![val("style", var("_s")), At::Spread(var("a"))]));
    f("attributes", vec![ty_(Pk::NamedSpread, "d", T::Str.opt().dict())], content(T::Html), E::Match(Box::new(var("v")), vec![
        (P::Tag(Some(Err("t")), vec![], Some(Some(Box::new(P::Var("a")))), Box::new(P::Var("v"))), E::Tag(Box::new(TagE { name: Tn::Var("t"), attrs: vec![At::Spread(var("a")), At::Spread(var("d"))], kids: vec![v()] }))),
        (P::Ignore, error()),
    ]));
    let opt = |n: N, body: E| It::E(E::Match(Box::new(var(n)), vec![(P::None, E::Unit), (P::Ignore, body)]));
    let web = |s: &str| tmpl(vec![TP::Var(path("w")), lit(s)]);
    f("page", vec![
        ty_(Pk::Named, "title", T::Str),
        Param { default: Some(verb("https://kaya3.github.io/papyri")), ..ty_(Pk::Named, "web_root", T::Str) },
        Param { opt: true, ..ty_(Pk::Named, "head", T::Html) }, Param { opt: true, ..ty_(Pk::Named, "header", T::Html) }, Param { opt: true, ..ty_(Pk::Named, "footer", T::Html) },
    ], content(T::Block), let_(vec![("w", E::Match(Box::new(var("web_root")), vec![(P::Tmpl(vec![TP::Var(path("w")), lit("/")]), var("w")), (P::Ignore, var("web_root"))]))], E::Group(vec![
        It::E(el_("!DOCTYPE", vec![At::Bare("html")], vec![])),
        It::E(el_("html", vec![], vec![
            It::E(el_("head", vec![], vec![
                It::E(el_("title", vec![], vec![It::E(var("title"))])), It::E(el_("meta", vec![val("charset", verb("utf-8"))], vec![])),
                It::E(el_("link", vec![val("rel", verb("stylesheet")), val("type", verb("text/css")), val("href", web("/papyri.css"))], vec![])), It::E(var("head")),
            ])),
            It::E(el_("body", vec![], vec![
                opt("header", el_("header", vec![], vec![It::E(var("header"))])), It::E(el_("article", vec![], vec![v()])), opt("footer", el_("footer", vec![], vec![It::E(var("footer"))])),
                It::E(el_("script", vec![val("type", verb("text/javascript")), val("src", web("/papyri.js"))], vec![])),
            ])),
        ])),
    ])));
    let mut one = |name: N, params: Vec<Param>, c: Option<Param>, body: E| {
        let d = Rc::new(Def { name: Some(name), params, content: c, body });
        V::Dict(vec![(name.as_bytes().to_vec(), ev.def(&d, &env).unwrap())])
    };
    let inline = one("from", vec![], content(T::Inline), var("v"));
    let block = one("from", vec![], content(T::Block), var("v"));
    let tag_name = one("tag_name", vec![], content(T::Html), E::Var(Path { name: "v", steps: vec![(false, Step::Attr("tag_name"))] }));
    let call_ = one("call", vec![ty_(Pk::Pos, "_f", T::Func), param(Pk::PosSpread, "_args"), param(Pk::NamedSpread, "kwargs")], Some(param(Pk::Pos, "v")), call("_f", vec![spread(var("_args")), dspread(var("kwargs"))], var("v")));
    env.set(b"inline", inline, false);
    env.set(b"block", block, false);
    env.set(b"html", tag_name, false);
    env.set(b"function", call_, false);
    env
}

fn letter() -> It { It::Text(vec![sym::range(b'a', b'c')]) }

/// an element with or without attributes
fn element() -> E {
    let name = ["i", "img", "p", "ul", "a", "ol", "table"][ch(if sym::param(1) & 2 == 2 { 2 } else { 7 }) as usize];
    let attrs = match ch(6) {
        0 => vec![], 1 => vec![val("class", verb("k"))], 2 => vec![At::Bare("class")], 3 => vec![val("x", verb("y")), val("style", verb("s;"))],
        4 => vec![At::Bare("x"), val("class", verb("k"))], _ => vec![val("id", verb("d")), val("style", verb(""))],
    };
    let kids = match name { "img" => vec![], "ul" | "ol" => vec![It::E(tag("li", vec![letter()])), It::E(tag("li", vec![]))], "table" => vec![], _ => if ch(2) == 0 { vec![] } else { vec![letter()] } };
    el_(name, attrs, kids)
}

/// content of any kind
pub fn any() -> E {
    match ch(17) {
        0 => E::Unit,
        1 => E::Bool(true),
        2 => E::Int(vec![b'-', b"037"[ch(3) as usize]]),
        3 => E::Verb(vec![sym::range(b'a', b'c')]),
        4 => E::Verb(vec![]),
        5 => verb("<&"),
        6 => list(vec![]),
        7 => list(vec![int(1), tag("p", vec![letter()])]),
        8 => dict(vec![("p", int(1))]),
        9 => E::Fn(Rc::new(Def { name: None, params: vec![], content: None, body: E::Unit })),
        10 => E::Group(vec![letter(), It::E(tag("i", vec![]))]),
        11 => E::Group(vec![letter(), It::E(tag("p", vec![letter()]))]),
        12 => E::Group(vec![letter(), It::Break, letter()]),
        13 => tag("a", vec![It::E(tag("div", vec![letter()]))]),
        14 => E::Join(vec![verb("t"), tag("div", vec![letter()])]),
        15 => E::Join(vec![tag("p", vec![letter()]), verb(" "), tag("i", vec![])]),
        _ => tag("i", vec![letter()]),
    }
}

const TAKE: &[N] = &["kbd", "samp", "blockquote", "footnote", "numbered", "attributes", "image"];

/// a function of one argument, its content
fn plain(f: u32, c: E) -> E {
    let n = WRAP.len() as u32;
    if f < n { return call(WRAP[f as usize].0, vec![], c); }
    let f = f - n;
    if f < TAKE.len() as u32 { return call(TAKE[f as usize], vec![], c); }
    match f - TAKE.len() as u32 {
        0 => call2("inline", "from", vec![], c),
        1 => call2("block", "from", vec![], c),
        2 => call2("html", "tag_name", vec![], c),
        _ => call("href", vec![pos(verb("u"))], c),
    }
}
const PLAIN: u32 = WRAP.len() as u32 + TAKE.len() as u32 + 4;

/// a value given for a string that may be left out
fn text() -> E { match ch(if sym::param(1) & 1 == 1 { 2 } else { 6 }) { 0 => verb("z"), 1 => E::Unit, 2 => int(7), 3 => verb(""), 4 => tag("i", vec![]), _ => verb("\"&") } }

fn attributes(c: E) -> E {
    match ch(7) {
        0 => call("class", vec![pos(text())], c),
        1 => call("style", vec![pos(text())], c),
        2 => call("attributes", vec![named(["x", "class", "id"][ch(3) as usize], text())], c),
        3 => call("attributes", vec![named("x", text()), named("y", verb("1"))], c),
        4 => call("blockquote", vec![named("cite", text())], c),
        5 => call("image", vec![named("alt", text())], c),
        _ => call("href", vec![pos(text())], c),
    }
}

pub fn run() {
    let mut ctx = util::ctx();
    let names = util::Names::new(&mut ctx, &["p"]);
    let lib = library();
    let mut items = vec![];
    let x = match sym::param(0) {
        0 => plain(ch(PLAIN), if ch(2) == 0 { any() } else { element() }),
        // one in another
        1 => { let f = ch(PLAIN); let g = ch(PLAIN); let c = match ch(4) { 0 => E::Unit, 1 => E::Group(vec![letter(), It::E(tag("i", vec![]))]), 2 => verb("b"), _ => tag("p", vec![letter()]) }; plain(f, plain(g, c)) }
        2 => attributes(if ch(2) == 0 { any() } else { element() }),
        3 => attributes(attributes(element())),
        // in other content, where it is one piece
        4 => {
            let e = if ch(2) == 0 { plain(ch(PLAIN), E::Group(vec![letter()])) } else { attributes(element()) };
            let kids = vec![letter(), It::E(e), letter()];
            match ch(4) { 0 => E::Group(kids), 1 => tag("div", kids), 2 => tag("p", kids), _ => tag("section", kids) }
        }
        // calls by way of `function::call`
        5 => {
            let mut ps = vec![];
            let np = ch(3);
            for k in 0..np { ps.push(Param { opt: k == 1 && ch(2) == 1, ..param(Pk::Pos, ["_a", "_b"][k as usize]) }); }
            let rest = ch(2) == 1;
            if rest { ps.push(param(Pk::PosSpread, "_c")); }
            let nk = ch(2);
            if nk == 1 { ps.push(param(Pk::Named, "p")); }
            let c = ch(2) == 1;
            let mut body = ps.iter().map(|p| var(p.name)).collect::<Vec<_>>();
            if c { body.push(var("v")); }
            items.push(It::Fn(Rc::new(Def { name: Some("ff"), params: ps, content: if c { content([T::Any, T::Int][ch(2) as usize].clone()) } else { None }, body: list(body) })));
            let mut args = vec![if ch(8) == 0 { verb("ff") } else { var("ff") }].into_iter().map(pos).collect::<Vec<_>>();
            for k in 0..ch(4) { args.push(pos(int(k as i64))); }
            if ch(2) == 1 { args.push(named(["p", "q"][ch(2) as usize], int(9))); }
            call2("function", "call", args, [E::Unit, int(5), verb("s")].into_iter().nth(ch(3) as usize).unwrap())
        }
        // whole pages
        _ => {
            let mut args = vec![];
            let m = sym::param(1);
            match if m & 1 == 1 { ch(4) } else { 1 } { 0 => {} 1 => args.push(named("title", verb("T<"))), 2 => args.push(named("title", int(3))), _ => args.push(named("title", E::Unit)) }
            match if m & 1 == 1 { ch(6) } else { 0 } { 0 => {} k => args.push(named("web_root", [verb("w/"), verb("w"), verb("/"), verb(""), verb("w//")].into_iter().nth(k as usize - 1).unwrap())) }
            for (i, n) in ["head", "header", "footer"].into_iter().enumerate() {
                match if m >> (i + 1) & 1 == 1 { ch(5) } else { 0 } {
                    0 => {}
                    1 => args.push(named(n, E::Unit)),
                    2 => args.push(named(n, E::Group(vec![letter()]))),
                    3 => args.push(named(n, tag("style", vec![letter()]))),
                    _ => args.push(named(n, E::Group(vec![It::E(tag("p", vec![letter()])), letter()]))),
                }
            }
            call("page", args, if m & 16 == 16 { any() } else { E::Group(vec![letter()]) })
        }
    };
    let code = util::against_in(&mut ctx, &names, &items, &x, "", &lib.push());
    sym::cover(code);
    std::mem::forget(x);
    std::mem::forget(items);
    std::mem::forget(lib);
    std::mem::forget(ctx);
}
