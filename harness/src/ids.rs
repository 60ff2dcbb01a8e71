//! C12: unique IDs are distinct, valid, lowercase, and bounded in length.
use crate::{sym, util::{self, *}};
use papyri_lang::utils::text::UniqueIDGenerator;

fn valid(s: &[u8]) -> bool {
    let mut ok = !s.is_empty() && ((s[0] >= b'a') & (s[0] <= b'z') | (s[0] == b'_'));
    for c in s { ok &= (*c >= b'a') & (*c <= b'z') | (*c >= b'0') & (*c <= b'9') | (*c == b'_'); }
    ok
}

struct Seen(Vec<Vec<u8>>);
impl Seen {
    fn add(&mut self, id: &[u8], max: usize) {
        sym::observe(id);
        sym::check(valid(id), 1, "not a valid lowercase identifier");
        for o in &self.0 { sym::check(o != id, 2, "an ID was issued twice"); }
        // a suffix of k digits leaves room for one character when max >= k + 2
        let digits = (self.0.len() + 1).to_string().len();
        if self.0.is_empty() || max >= digits + 2 { sym::check(id.len() <= max, 3, "longer than max_length"); }
        // in no case longer than one character and the suffix need
        sym::check(id.len() <= max.max(digits + 2 + 2), 4, "much longer than max_length");
        self.0.push(id.to_vec());
    }
}

/// one of the shapes that make bases collide; `k` symbolic characters
fn base(shape: u32, b: &mut Vec<u8>, lang: bool) {
    let n = match shape { 0 => 1, 1 => 2, 2 => 3, 3 => { b.extend(b"a_"); 1 } 4 => { sym::push_wide(b); 0 } 5 => { b.extend(b"foo"); 1 } 6 => { b.extend(b"Ab_"); b.push(sym::digit()); 1 } _ => { b.push(b'x'); sym::push_wide(b); 0 } };
    for _ in 0..n {
        let c = sym::ascii();
        if lang { sym::assume((c != b'`') & (c != b'\n')); }
        b.push(c);
    }
}

/// one of the shapes in a bit mask
fn shape(mask: u64) -> u32 {
    let k = sym::choose(mask.count_ones());
    let mut left = k;
    for i in 0..8 { if mask >> i & 1 == 1 { if left == 0 { return i; } left -= 1; } }
    0
}

/// what the first ID for a base must be when the base is an identifier
fn plain(b: &[u8], max: usize) -> Option<Vec<u8>> {
    let ident = |c: u8| (c >= b'a') & (c <= b'z') | (c >= b'A') & (c <= b'Z') | (c >= b'0') & (c <= b'9') | (c == b'_');
    let mut ok = !b.is_empty() && !((b[0] >= b'0') & (b[0] <= b'9'));
    for c in b { ok &= ident(*c); }
    if ok { Some(b[..b.len().min(max)].to_ascii_lowercase()) } else { None }
}

pub fn run() {
    match sym::param(0) {
        // `n` bases of symbolic shapes through the generator
        0 => {
            let mut g = UniqueIDGenerator::new();
            let n = sym::param(1);
            let max = 1 + sym::choose(sym::param(2) as u32) as usize;
            let mut seen = Seen(Vec::new());
            for i in 0..n {
                let sh = shape(sym::param(3));
                let mut b = Vec::new();
                base(sh, &mut b, false);
                sym::observe(&b);
                let t = sym::text(b);
                let id = g.get_unique_id(&t, max);
                if i == 0 {
                    if let Some(p) = plain(t.as_bytes(), max) { sym::cover(0); sym::check(p == id.as_bytes(), 5, "the first ID for an identifier is not the identifier"); }
                }
                seen.add(id.as_bytes(), max);
            }
            g.clear();
            let id = g.get_unique_id("foo", 9);
            sym::check(&*id == "foo", 6, "IDs are not reusable after a reset");
            sym::cover(1);
        }
        // many requests for the same base, one other base in between
        1 => {
            let mut g = UniqueIDGenerator::new();
            let n = sym::param(1);
            // with a bound, up to it
            let most = sym::param(2) as u32;
            let max = 1 + sym::choose(if most > 0 { most } else { 8 }) as usize;
            let l = 1 + sym::choose(if most > 0 { 2 } else { 5 }) as usize;
            let mut b = b"Abcde"[..l].to_vec();
            b[l - 1] = sym::ascii();
            let t = sym::text(b);
            sym::observe(t.as_bytes());
            // a base that looks like a suffixed ID
            let mut o = t.as_bytes()[..1 + sym::choose(l as u32) as usize].to_vec();
            o.push(b'_');
            if sym::choose(2) == 1 { o.push(b'1'); }
            o.push(sym::digit());
            let o = sym::text(o);
            sym::observe(o.as_bytes());
            let at = sym::choose(2) as u64 * 3;
            let mut seen = Seen(Vec::new());
            for i in 0..n {
                if i == at { seen.add(g.get_unique_id(&o, max).as_bytes(), max); }
                seen.add(g.get_unique_id(&t, max).as_bytes(), max);
            }
            sym::cover(0);
        }
        // through the language
        _ => {
            let mut ctx = util::ctx();
            let max = sym::choose(7);
            let neg = sym::choose(4) == 0;
            let n = sym::param(1);
            let mut b = B::new();
            b.s("@export(x=[");
            let mut first = Vec::new();
            for i in 0..n {
                if i > 0 { b.s(", "); }
                match if i == 0 { 0 } else { sym::choose(3) } {
                    0 => { b.s("@str::unique_id(max_length="); if neg { b.c(b'-'); } b.c(b'0' + max as u8); b.s(") `"); }
                    1 => { b.s("@str::unique_id `"); }
                    _ => { b.s("@let(s=`"); }
                }
                let method = b.0.ends_with(b"s=`");
                let at = b.0.len();
                base(shape(sym::param(3)), &mut b.0, true);
                if i == 0 { first = b.0[at..].to_vec(); }
                if method { b.s("`) @s::unique_id."); } else { b.s("`"); }
            }
            b.s("]).");
            let src = b.text();
            let r = util::eval(&mut ctx, &src);
            if max == 0 || neg {
                sym::cover(2);
                sym::check(r.is_none(), 7, "a max_length below 1 was accepted");
            } else {
                sym::cover(0);
                let Some(M::List(l)) = r else { sym::check(false, 8, "no list of IDs"); return };
                sym::check(l.len() == n as usize, 9, "wrong number of IDs");
                let mut seen = Seen(Vec::new());
                for (i, m) in l.iter().enumerate() {
                    let M::Str(s) = m else { sym::check(false, 10, "an ID is not a string"); return };
                    if i == 0 { if let Some(p) = plain(&first, max as usize) { sym::check(&p == s, 5, "the first ID for an identifier is not the identifier"); } }
                    seen.add(s, if i == 0 { max as usize } else { 128 });
                }
                // the same context after a reset may issue them again
                ctx.reset();
                let r2 = util::eval(&mut ctx, &src);
                sym::check(r2 == Some(M::List(l)), 11, "a reset context issues different IDs");
            }
            std::mem::forget(ctx);
        }
    }
}
