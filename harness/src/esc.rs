//! C03: text and attribute values reach the HTML output escaped, unchanged.
use crate::{htmlp::{self, Ev}, sym, util::{self, *}};

fn open(n: &str) -> Ev { Ev::Open(n.into(), Vec::new()) }
fn opena(n: &str, a: &[(&str, &[u8])]) -> Ev { Ev::Open(n.into(), a.iter().map(|(k, v)| (k.as_bytes().to_vec(), Some(v.to_vec()))).collect()) }
fn close(n: &str) -> Ev { Ev::Close(n.into()) }
fn txt(p: &str, v: &[u8], s: &str) -> Ev { Ev::Text([p.as_bytes(), v, s.as_bytes()].concat()) }

/// a string with special characters in chosen and symbolic places
fn data(shape: u64) -> Vec<u8> {
    let mut v = Vec::new();
    let mut hole = |v: &mut Vec<u8>| { let c = sym::ascii(); sym::assume((c != b'`') & (c != b'\n')); v.push(c) };
    match shape {
        0 => hole(&mut v),
        1 => { hole(&mut v); hole(&mut v) }
        2 => { hole(&mut v); hole(&mut v); hole(&mut v) }
        3 => { v.extend(b"&"); v.extend(pick(&["lt", "gt", "amp", "quot", "nbsp", "#60", "#x3c", "#38", ""]).bytes()); hole(&mut v); if sym::choose(2) == 0 { v.push(b';') } }
        4 => { sym::push_wide(&mut v); hole(&mut v) }
        5 => { v.extend(b"some longer text, so long that it may take another path: "); hole(&mut v); v.extend(b" and on"); hole(&mut v) }
        6 => { v.extend(b"<"); v.extend(pick(&["b", "/p", "script", "!--", "br/", "?"]).bytes()); hole(&mut v); v.extend(b">"); }
        7 => { hole(&mut v); v.extend(pick(&["=\"", "='", "\" x=", "' y='", "\">", "&&", "<<", "\"\""]).bytes()); hole(&mut v) }
        _ => { hole(&mut v); sym::push_wide(&mut v) }
    }
    v
}

pub fn run() {
    let mut ctx = util::ctx();
    let how = sym::param(0);
    // param 1: the shapes, as a bit mask
    let mask = sym::param(1);
    let mut k = sym::choose(mask.count_ones());
    let mut shape = 0;
    while k > 0 || mask >> shape & 1 == 0 { if mask >> shape & 1 == 1 { k -= 1; } shape += 1; }
    let v = data(shape);
    if how == 17 { sym::assume(v[0] != b'q'); }
    // content that is nothing but whitespace is trimmed
    if ![2, 3, 4, 6, 9, 12, 13, 18].contains(&how) { let mut ws = true; for c in &v { ws &= (*c == b' ') | (*c == b'\t') | (*c == b'\r') | (*c == 12); } sym::assume(!ws); }
    let mut b = B::new();
    let want = match how {
        0 => { b.s("@let(v=`").b(&v).s("`) {X{$v}Y}"); vec![open("p"), txt("X", &v, "Y"), close("p")] }
        1 => { b.s("@let(v=`").b(&v).s("`) <b>$v</b>"); vec![open("p"), open("b"), txt("", &v, ""), close("b"), close("p")] }
        2 => { b.s("<b title=`").b(&v).s("`>x</b>"); vec![open("p"), opena("b", &[("title", &v)]), txt("x", b"", ""), close("b"), close("p")] }
        3 => {
            b.s("@let(v=`").b(&v).s("`) <b title=\"$v-$v\" lang='$v'>x</b>");
            let t = [&v[..], b"-", &v[..]].concat();
            vec![open("p"), opena("b", &[("title", &t), ("lang", &v)]), txt("x", b"", ""), close("b"), close("p")]
        }
        4 => { b.s("@let(d=@dict::new(title=`").b(&v).s("`, lang=`q`).) <b **$d>x</b>"); vec![open("p"), opena("b", &[("title", &v), ("lang", b"q")]), txt("x", b"", ""), close("b"), close("p")] }
        5 => {
            // escaping to a string: decoding it once gives the text back
            b.s("@let(v=`").b(&v).s("`)... @export(x=[@v::escape_html., @str::escape_html $v, @html::escape_html <b lang=$v>$v</b>]).");
            let g = util::eval(&mut ctx, &b.text());
            let Some(M::List(l)) = g else { sym::check(false, 1, "no result"); return };
            for (i, m) in l.iter().enumerate() {
                let M::Str(s) = m else { sym::check(false, 2, "not a string"); return };
                let e = htmlp::events(s);
                let w = if i < 2 { vec![txt("", &v, "")] } else { vec![opena("b", &[("lang", &v)]), txt("", &v, ""), close("b")] };
                sym::check(e == Some(w), 3, "escape_html does not decode to its input");
            }
            sym::cover(0);
            return;
        }
        6 => { b.s("X `x").b(&v).s("y` Y"); vec![open("p"), txt("X ", b"", ""), open("code"), txt("x", &v, "y"), close("code"), txt(" Y", b"", ""), close("p")] }
        7 => { b.s("@let(v=`").b(&v).s("`) [{X{$v}Y}, $v]"); vec![open("ul"), open("li"), txt("X", &v, "Y"), close("li"), open("li"), txt("", &v, ""), close("li"), close("ul")] }
        8 => { b.s("@dict::new(k=`").b(&v).s("`)."); vec![opena("table", &[("class", b"tabular-data")]), open("tr"), open("th"), txt("k", b"", ""), close("th"), open("td"), txt("", &v, ""), close("td"), close("tr"), close("table")] }
        9 => {
            // a computed tag name is an identifier or is refused
            b.s("@let(t=`").b(&v).s("`) {x<$t>y</>}");
            let src = b.text();
            sym::observe(src.as_bytes());
            let g = util::compile(&mut ctx, &src);
            let id = |c: u8| c.is_ascii_alphabetic() || c == b'_';
            let ok = id(v[0]) && v.iter().all(|c| id(*c) || c.is_ascii_digit());
            match g {
                None => { sym::cover(1); let low = v.to_ascii_lowercase(); sym::check(!ok || htmlp::VOID.iter().any(|x| x.as_bytes() == &low[..]) || low.len() <= 2, 4, "a valid tag name was refused"); }
                Some(o) => {
                    sym::cover(0);
                    sym::observe(&o);
                    sym::check(ok, 5, "an invalid tag name was accepted");
                    if let Some(e) = htmlp::events(&o) {
                        sym::check(e.contains(&Ev::Open(v.to_ascii_lowercase(), Vec::new())), 6, "the tag name is not in the output");
                    } else { sym::check(false, 7, "malformed output"); }
                }
            }
            return;
        }
        10 => {
            // adjacent pieces never combine into markup or an entity
            let t = pick(&["lt;", "amp;", "#60;", "b>", "/p>", "!-- "]);
            b.s("@let(v=`").b(&v).s("`, w=`").s(t).s("`) {X{$v}{$w}Y}");
            vec![open("p"), txt("X", &[&v[..], t.as_bytes()].concat(), "Y"), close("p")]
        }
        11 => { b.s("@let(v=`").b(&v).s("`) {X \"$v/$v\"}"); vec![open("p"), Ev::Text([b"X ", "\u{201c}".as_bytes(), &v, b"/", &v, "\u{201d}".as_bytes()].concat()), close("p")] }
        12 => { b.s("@href(`").b(&v).s("`) x"); vec![open("p"), opena("a", &[("href", &v)]), txt("x", b"", ""), close("a"), close("p")] }
        13 => { b.s("@image(alt=`").b(&v).s("`) `").b(&v).s("`"); vec![open("p"), opena("img", &[("src", &v), ("alt", &v)]), close("p")] }
        14 => { b.s("@list::join(`").b(&v).s("`) [a, <i>b</i>, c]"); vec![open("p"), txt("a", &v, ""), open("i"), txt("b", b"", ""), close("i"), txt("", &v, "c"), close("p")] }
        15 => { b.s("@let(v=`").b(&v).s("`) {@fn f($a, $b: str) $c -> <i lang=$b>{X{$a}Y{$c}Z}</i>\n@f(a=$v, b=$v) $v}"); vec![open("p"), opena("i", &[("lang", &v)]), Ev::Text([b"X", &v[..], b"Y", &v, b"Z"].concat()), close("i"), close("p")] }
        // a table of strings and nested lists
        16 => { b.s("@let(v=`").b(&v).s("`) {@dict::new(k=[$v, {X{$v}}]).}"); vec![opena("table", &[("class", b"tabular-data")]), open("tr"), open("th"), txt("k", b"", ""), close("th"), open("td"), open("ul"), open("li"), txt("", &v, ""), close("li"), open("li"), txt("X", &v, ""), close("li"), close("ul"), close("td"), close("tr"), close("table")] }
        // any name of an attribute
        18 => {
            let mut n = vec![sym::one_of(b"a_")];
            for _ in 0..2 { n.push(sym::one_of(b"_b9")); }
            match sym::choose(4) {
                0 => { b.s("<b ").b(&n).s("=`").b(&v).s("`>x</b>"); }
                1 => { b.s("<b ").b(&n).s("?=`").b(&v).s("`>x</b>"); }
                2 => { b.s("@let(d=@dict::new(").b(&n).s("=`").b(&v).s("`).) <b **$d>x</b>"); }
                _ => { b.s("@attributes(").b(&n).s("=`").b(&v).s("`) <b>x</b>"); }
            }
            let n: Vec<u8> = n.iter().map(|&c| if c == b'_' { b'-' } else { c }).collect();
            vec![open("p"), Ev::Open(b"b".to_vec(), vec![(n, Some(v.clone()))]), txt("x", b"", ""), close("b"), close("p")]
        }
        _ => { b.s("@match `").b(&v).s("` {$v & 'q$r' -> @i $r, $v -> <b lang=$v>{X{$v}}</b>}"); vec![open("p"), opena("b", &[("lang", &v)]), txt("X", &v, ""), close("b"), close("p")] }
    };
    let src = b.text();
    sym::observe(src.as_bytes());
    let g = util::compile(&mut ctx, &src);
    let Some(o) = g else { sym::check(false, 10, "the document was rejected"); return };
    sym::observe(&o);
    sym::cover(0);
    sym::check(htmlp::events(&o).as_ref() == Some(&want), 11, "the decoded output differs from the text and attributes written");
    std::mem::forget(ctx);
}
