//! C17: integers are exact 64-bit signed values or a reported error.
use crate::{sym, util::{self, *}};

const FAR: &[&str] = &["", "92233720368547758", "922337203685477580", "9223372036854775807", "0000000000000000000"];

/// pushes sign, a fixed prefix and `n` symbolic digits; the exact value
fn literal(b: &mut Vec<u8>, n: u64, prefix: &str) -> i128 {
    let neg = sym::choose(2) == 1;
    if neg { b.push(b'-'); }
    b.extend_from_slice(prefix.as_bytes());
    let mut v: i128 = 0;
    for c in prefix.bytes() { v = v * 10 + (c - b'0') as i128; }
    for _ in 0..n { let d = sym::digit(); b.push(d); v = v * 10 + (d - b'0') as i128; }
    if neg { -v } else { v }
}
fn fits(v: i128) -> bool { v >= i64::MIN as i128 && v <= i64::MAX as i128 }

fn expect(got: Option<M>, v: i128) {
    match got {
        Some(M::Int(i)) => { sym::cover(0); sym::check(i as i128 == v, 1, "an integer result differs from the exact value") }
        Some(_) => sym::check(false, 2, "not an integer"),
        None => { sym::cover(1); sym::check(!fits(v), 3, "an error although the exact value fits in 64 bits") }
    }
}

pub fn run() {
    let mut ctx = util::ctx();
    let n = sym::param(1);
    match sym::param(0) {
        // a literal
        0 => {
            let mut b = B::new();
            let v = literal(&mut b.0, n, FAR[sym::param(2) as usize]);
            let g = value(&mut ctx, &b.text());
            expect(g, v);
        }
        // @int::parse of a string literal
        1 => {
            let mut b = B::new();
            b.s("@int::parse `");
            let p = FAR[sym::param(2) as usize];
            let at = b.0.len();
            let pre = sym::choose(3);
            if pre == 1 { b.c(b'-'); } else if pre == 2 { b.c(b'+'); }
            b.s(p);
            for _ in 0..n { let c = sym::ascii(); sym::assume((c != b'`') & (c != b'\n')); b.c(c); }
            let t = b.0[at..].to_vec();
            b.s("`");
            let g = value(&mut ctx, &b.text());
            // reference: an optional sign and at least one digit
            let (neg, d) = match t.first() { Some(b'-') => (true, &t[1..]), Some(b'+') => (false, &t[1..]), _ => (false, &t[..]) };
            let ok = !d.is_empty() && d.iter().all(|c| c.is_ascii_digit());
            if !ok {
                sym::cover(2);
                sym::check(g.is_none(), 4, "malformed integer accepted");
            } else {
                let mut v: i128 = 0;
                for c in d { v = v * 10 + (c - b'0') as i128; }
                expect(g, if neg { -v } else { v });
            }
        }
        // sums of up to three terms
        2 => {
            let mut b = B::new();
            let method = sym::choose(2) == 1;
            let mut vals = [0i128; 3];
            if method { b.s("x=").0.clear(); }
            let mut lits: Vec<Vec<u8>> = Vec::new();
            for i in 0..n as usize {
                let mut l = Vec::new();
                vals[i] = literal(&mut l, 1, FAR[[0, 2][sym::choose(2) as usize]]);
                lits.push(l);
            }
            for v in &vals { sym::assume(fits(*v)); }
            if method {
                b.s("@let(a=").b(&lits[0]).s(")... @export(x=@a::add(");
                for (i, l) in lits[1..].iter().enumerate() { if i > 0 { b.s(", "); } b.b(l); }
                b.s(").).");
            } else {
                b.s("@export(x=@int::add(");
                for (i, l) in lits.iter().enumerate() { if i > 0 { b.s(", "); } b.b(l); }
                b.s(").).");
            }
            let g = eval(&mut ctx, &b.text());
            let (mut acc, mut part) = (0i128, true);
            for v in &vals { acc += *v; part &= fits(acc); }
            match g {
                Some(M::Int(i)) => { sym::cover(0); sym::check(i as i128 == acc, 5, "wrong sum") }
                Some(_) => sym::check(false, 2, "not an integer"),
                None => { sym::cover(1); sym::check(!part, 6, "overflow reported although every partial sum fits") }
            }
        }
        // negation
        3 => {
            let mut b = B::new();
            let method = sym::choose(2) == 1;
            let mut l = Vec::new();
            let v = literal(&mut l, n, FAR[sym::param(2) as usize]);
            sym::assume(fits(v));
            if method { b.s("@let(a=").b(&l).s(")... @export(x=@a::negate.)."); } else { b.s("@export(x=@int::negate ").b(&l).s(")."); }
            let g = eval(&mut ctx, &b.text());
            expect(g, -v);
        }
        // the decimal form: @str::from, template text, output text
        4 => {
            let mut b = B::new();
            let how = sym::param(3);
            let mut l = Vec::new();
            let v = literal(&mut l, n, FAR[sym::param(2) as usize]);
            sym::assume(fits(v));
            // canonical digits
            let neg = l[0] == b'-' && v != 0;
            let d = if l[0] == b'-' { &l[1..] } else { &l[..] };
            let mut k = 0;
            while k + 1 < d.len() && d[k] == b'0' { k += 1; }
            let d = d[k..].to_vec();
            let mut want = Vec::new();
            match how {
                0 => b.s("@export(x=@str::from ").b(&l).s(")."),
                1 => b.s("@let(a=").b(&l).s(")... @export(x='<$a>')."),
                _ => b.s("@let(a=").b(&l).s(") $a"),
            };
            let minus: &[u8] = if how == 0 { b"-" } else { "\u{2212}".as_bytes() };
            if how == 1 { want.push(b'<'); }
            if how == 2 { want.extend(b"<p>"); }
            if neg { want.extend(if how == 1 { b"-" } else { minus }); }
            want.extend(&d);
            if how == 1 { want.push(b'>'); }
            if how == 2 { want.extend(b"</p>"); }
            sym::cover(0);
            if how == 2 {
                let src = b.text();
                sym::observe(src.as_bytes());
                let g = util::compile(&mut ctx, &src).unwrap_or_default();
                sym::observe(&g);
                sym::check(g == want, 8, "the rendered integer differs from its decimal form");
            } else {
                let g = eval(&mut ctx, &b.text());
                sym::check(g == Some(M::Str(want)), 7, "the integer's string differs from its decimal form");
            }
        }
        // equality, match literals, truth
        _ => {
            let mut b = B::new();
            let (mut l, mut r) = (Vec::new(), Vec::new());
            let v = literal(&mut l, n, FAR[sym::param(2) as usize]);
            let w = literal(&mut r, n, FAR[sym::param(2) as usize]);
            sym::assume(fits(v) & fits(w));
            b.s("@let(a=").b(&l).s(", b=").b(&r).s(")... @export(x=[@match $a {").b(&r).s(" -> True, _ -> False}, @match $a {=$b -> True, _ -> False}, @list::contains($a) [$b], @bool::from $a, @list::sorted [$a, $b]]).");
            let g = eval(&mut ctx, &b.text());
            let (lo, hi) = if v <= w { (v, w) } else { (w, v) };
            sym::cover(0);
            let e = v == w;
            sym::check(g == Some(M::List(vec![M::Bool(e), M::Bool(e), M::Bool(e), M::Bool(v != 0), M::List(vec![M::Int(lo as i64), M::Int(hi as i64)])])), 9, "comparison, matching, truth or order of integers");
        }
    }
    std::mem::forget(ctx);
}
