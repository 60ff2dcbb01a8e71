//! Hash-consed bit-vector expressions.
//!
//! Expressions over exactly one symbolic variable of at most 8 bits get a
//! value table (256 entries); boolean ones are canonicalised to `InSet`. This
//! is exact rewriting: the table is the meaning of the term.
use std::collections::HashMap;
use std::rc::Rc;

pub type EId = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, Var, InSet, Tab,
    Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr,
    Concat, Extract, ZExt, SExt, Eq, Ult, Ule, Slt, Sle, Ite,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16, pub a: u32, pub b: u32, pub c: u32 }

pub type Set = [u64; 4];
pub fn set_has(s: &Set, v: usize) -> bool { s[v >> 6] >> (v & 63) & 1 == 1 }
pub fn set_and(a: &Set, b: &Set) -> Set { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }
pub fn set_not(a: &Set) -> Set { [!a[0], !a[1], !a[2], !a[3]] }
pub fn set_empty(a: &Set) -> bool { a.iter().all(|x| *x == 0) }
pub fn set_count(a: &Set) -> u32 { a.iter().map(|x| x.count_ones()).sum() }
pub fn set_first(a: &Set) -> usize {
    for i in 0..4 { if a[i] != 0 { return i * 64 + a[i].trailing_zeros() as usize; } }
    256
}
pub fn set_iter(a: &Set) -> impl Iterator<Item = usize> + '_ { (0..256).filter(move |i| set_has(a, *i)) }
pub const FULL: Set = [!0u64; 4];

pub const NOVAR: u32 = u32::MAX;

pub fn mask(w: u16) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
pub fn sext(v: u128, w: u16) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

pub fn apply(op: Op, w: u16, aw: u16, x: u128, y: u128) -> u128 {
    // w = result width, aw = operand width
    let m = mask(w);
    match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => if y == 0 { m } else { x / y },
        Op::URem => if y == 0 { x } else { x % y },
        Op::SDiv => { let (a, b) = (sext(x, w), sext(y, w)); if b == 0 { if a < 0 { 1 } else { m } } else { (a.wrapping_div(b) as u128) & m } }
        Op::SRem => { let (a, b) = (sext(x, w), sext(y, w)); if b == 0 { x } else { (a.wrapping_rem(b) as u128) & m } }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => if y >= w as u128 { 0 } else { (x << y) & m },
        Op::LShr => if y >= w as u128 { 0 } else { x >> y },
        Op::AShr => { let s = sext(x, w); let k = if y >= w as u128 { w as u32 - 1 } else { y as u32 }; ((s >> k) as u128) & m }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Ule => (x <= y) as u128,
        Op::Slt => (sext(x, aw) < sext(y, aw)) as u128,
        Op::Sle => (sext(x, aw) <= sext(y, aw)) as u128,
        _ => unreachable!(),
    }
}

pub struct Exprs {
    pub nodes: Vec<Node>,
    map: HashMap<Node, EId>,
    pub consts: Vec<u128>,
    const_map: HashMap<u128, u32>,
    pub sets: Vec<Set>,
    set_map: HashMap<Set, u32>,
    pub tabs: Vec<Rc<Vec<u64>>>,
    tab_map: HashMap<Rc<Vec<u64>>, u32>,
    /// per node: index into varsets
    pub vs: Vec<u32>,
    pub varsets: Vec<Rc<Vec<u32>>>,
    vs_map: HashMap<Rc<Vec<u32>>, u32>,
    vs_union: HashMap<(u32, u32), u32>,
    tables: HashMap<EId, Rc<Vec<u64>>>,
    rewritten: HashMap<EId, EId>,
    pub t: EId,
    pub f: EId,
}

/// variable id: ordinal*4 + log2(width/8)
pub fn var_width(v: u32) -> u16 { 8 << (v & 3) }
pub fn var_ord(v: u32) -> usize { (v >> 2) as usize }

impl Exprs {
    pub fn new() -> Exprs {
        let mut e = Exprs {
            nodes: vec![], map: HashMap::new(), consts: vec![], const_map: HashMap::new(),
            sets: vec![], set_map: HashMap::new(), tabs: vec![], tab_map: HashMap::new(),
            vs: vec![], varsets: vec![], vs_map: HashMap::new(), vs_union: HashMap::new(),
            tables: HashMap::new(), rewritten: HashMap::new(), t: 0, f: 0,
        };
        let empty = Rc::new(vec![]);
        e.varsets.push(empty.clone());
        e.vs_map.insert(empty, 0);
        // id 0 is reserved ("concrete byte") - a dummy node
        e.nodes.push(Node { op: Op::Const, w: 0, a: u32::MAX, b: 0, c: 0 });
        e.vs.push(0);
        e.f = e.cst(0, 1);
        e.t = e.cst(1, 1);
        e
    }
    fn varset(&mut self, v: Vec<u32>) -> u32 {
        if let Some(i) = self.vs_map.get(&v) { return *i; }
        let r = Rc::new(v);
        let i = self.varsets.len() as u32;
        self.varsets.push(r.clone());
        self.vs_map.insert(r, i);
        i
    }
    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 { return a; }
        if a == 0 { return b; }
        let k = (a.min(b), a.max(b));
        if let Some(i) = self.vs_union.get(&k) { return *i; }
        let mut v: Vec<u32> = self.varsets[a as usize].iter().chain(self.varsets[b as usize].iter()).copied().collect();
        v.sort(); v.dedup();
        let i = self.varset(v);
        self.vs_union.insert(k, i);
        i
    }
    #[inline] pub fn w(&self, e: EId) -> u16 { self.nodes[e as usize].w }
    #[inline] pub fn node(&self, e: EId) -> Node { self.nodes[e as usize] }
    pub fn vars(&self, e: EId) -> Rc<Vec<u32>> { self.varsets[self.vs[e as usize] as usize].clone() }
    /// the single narrow variable this expression depends on, or NOVAR
    #[inline] pub fn sv(&self, e: EId) -> u32 {
        let s = self.vs[e as usize];
        let v = &self.varsets[s as usize];
        if v.len() == 1 && v[0] & 3 == 0 { v[0] } else { NOVAR }
    }
    #[inline] pub fn cval(&self, e: EId) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const { Some(self.consts[n.a as usize]) } else { None }
    }
    fn raw(&mut self, n: Node) -> EId {
        if let Some(i) = self.map.get(&n) { return *i; }
        let vs = match n.op {
            Op::Const => 0,
            Op::Var | Op::InSet | Op::Tab => { let v = n.a; self.varset(vec![v]) }
            Op::Extract | Op::ZExt | Op::SExt => self.vs[n.a as usize],
            Op::Ite => { let (a, b, c) = (self.vs[n.a as usize], self.vs[n.b as usize], self.vs[n.c as usize]); let u = self.union(a, b); self.union(u, c) }
            _ => { let (a, b) = (self.vs[n.a as usize], self.vs[n.b as usize]); self.union(a, b) }
        };
        let i = self.nodes.len() as u32;
        self.nodes.push(n);
        self.vs.push(vs);
        self.map.insert(n, i);
        i
    }
    pub fn cst(&mut self, v: u128, w: u16) -> EId {
        let v = v & mask(w);
        let ci = match self.const_map.get(&v) { Some(i) => *i, None => {
            let i = self.consts.len() as u32; self.consts.push(v); self.const_map.insert(v, i); i } };
        self.raw(Node { op: Op::Const, w, a: ci, b: 0, c: 0 })
    }
    pub fn var(&mut self, v: u32) -> EId { self.raw(Node { op: Op::Var, w: var_width(v), a: v, b: 0, c: 0 }) }
    pub fn in_set(&mut self, v: u32, s: Set) -> EId {
        if set_empty(&s) { return self.f; }
        if s == FULL { return self.t; }
        let si = match self.set_map.get(&s) { Some(i) => *i, None => {
            let i = self.sets.len() as u32; self.sets.push(s); self.set_map.insert(s, i); i } };
        self.raw(Node { op: Op::InSet, w: 1, a: v, b: si, c: 0 })
    }
    pub fn tab(&mut self, v: u32, t: Vec<u64>, w: u16) -> EId {
        if w == 1 {
            let mut s = [0u64; 4];
            for i in 0..256 { if t[i] & 1 == 1 { s[i >> 6] |= 1 << (i & 63); } }
            return self.in_set(v, s);
        }
        if t.iter().all(|x| *x == t[0]) { return self.cst(t[0] as u128, w); }
        if w >= 8 && t.iter().enumerate().all(|(i, x)| *x == i as u64) {
            let x = self.var(v);
            return self.zext(x, w);
        }
        let ti = match self.tab_map.get(&t) { Some(i) => *i, None => {
            let r = Rc::new(t);
            let i = self.tabs.len() as u32; self.tabs.push(r.clone()); self.tab_map.insert(r, i); i } };
        self.raw(Node { op: Op::Tab, w, a: v, b: ti, c: 0 })
    }
    /// value table of a single-narrow-variable (or constant) expression of width <= 64
    pub fn table(&mut self, e: EId) -> Rc<Vec<u64>> {
        let n = self.node(e);
        match n.op {
            Op::Tab => return self.tabs[n.b as usize].clone(),
            _ => {}
        }
        if let Some(t) = self.tables.get(&e) { return t.clone(); }
        let m = mask(n.w) as u64;
        let mut out = vec![0u64; 256];
        match n.op {
            Op::Const => { let c = self.consts[n.a as usize] as u64; out.fill(c); }
            Op::Var => { for i in 0..256 { out[i] = i as u64; } }
            Op::InSet => { let s = self.sets[n.b as usize]; for i in 0..256 { out[i] = set_has(&s, i) as u64; } }
            Op::Extract => {
                if self.w(n.a) > 64 { for i in 0..256 { out[i] = (self.eval1(e, i as u64)) as u64; } }
                else { let a = self.table(n.a); for i in 0..256 { out[i] = (a[i] >> n.b) & m; } }
            }
            Op::ZExt => { let a = self.table(n.a); out.copy_from_slice(&a); }
            Op::SExt => { let aw = self.w(n.a); let a = self.table(n.a); for i in 0..256 { out[i] = (sext(a[i] as u128, aw) as u64) & m; } }
            Op::Concat => { let lw = self.w(n.b); let a = self.table(n.a); let b = self.table(n.b); for i in 0..256 { out[i] = (a[i] << lw) | b[i]; } }
            Op::Ite => { let c = self.table(n.a); let a = self.table(n.b); let b = self.table(n.c); for i in 0..256 { out[i] = if c[i] & 1 == 1 { a[i] } else { b[i] }; } }
            _ => {
                let aw = self.w(n.a);
                if aw > 64 { for i in 0..256 { out[i] = (self.eval1(e, i as u64)) as u64; } }
                else {
                    let a = self.table(n.a); let b = self.table(n.b);
                    for i in 0..256 { out[i] = apply(n.op, n.w, aw, a[i] as u128, b[i] as u128) as u64; }
                }
            }
        }
        let r = Rc::new(out);
        self.tables.insert(e, r.clone());
        r
    }
    fn eval1(&self, e: EId, x: u64) -> u128 {
        self.eval_with(e, &|_| x, &mut HashMap::new())
    }
    /// evaluate under an assignment by variable id
    pub fn eval_with(&self, e: EId, f: &dyn Fn(u32) -> u64, memo: &mut HashMap<EId, u128>) -> u128 {
        let n = self.node(e);
        match n.op {
            Op::Const => return self.consts[n.a as usize],
            Op::Var => return f(n.a) as u128 & mask(n.w),
            Op::InSet => return set_has(&self.sets[n.b as usize], (f(n.a) & 255) as usize) as u128,
            Op::Tab => return self.tabs[n.b as usize][(f(n.a) & 255) as usize] as u128,
            _ => {}
        }
        if let Some(t) = self.tables.get(&e) { let v = self.varsets[self.vs[e as usize] as usize][0]; return t[(f(v) & 255) as usize] as u128; }
        if let Some(v) = memo.get(&e) { return *v; }
        let r = match n.op {
            Op::Extract => (self.eval_with(n.a, f, memo) >> n.b) & mask(n.w),
            Op::ZExt => self.eval_with(n.a, f, memo),
            Op::SExt => (sext(self.eval_with(n.a, f, memo), self.w(n.a)) as u128) & mask(n.w),
            Op::Concat => (self.eval_with(n.a, f, memo) << self.w(n.b)) | self.eval_with(n.b, f, memo),
            Op::Ite => if self.eval_with(n.a, f, memo) & 1 == 1 { self.eval_with(n.b, f, memo) } else { self.eval_with(n.c, f, memo) },
            _ => {
                let a = self.eval_with(n.a, f, memo);
                let b = self.eval_with(n.b, f, memo);
                apply(n.op, n.w, self.w(n.a), a, b)
            }
        };
        memo.insert(e, r);
        r
    }
    /// canonicalise a freshly built node
    fn fin(&mut self, n: Node) -> EId {
        let before = self.nodes.len();
        let e = self.raw(n);
        if (e as usize) < before {
            // existing node: it may have been rewritten before
            if let Some(r) = self.rewritten.get(&e) { return *r; }
            return e;
        }
        if n.w <= 64 && self.sv(e) != NOVAR {
            let v = self.sv(e);
            let t = self.table(e);
            if n.w == 1 {
                let mut s = [0u64; 4];
                for i in 0..256 { if t[i] & 1 == 1 { s[i >> 6] |= 1 << (i & 63); } }
                let r = self.in_set(v, s);
                self.rewritten.insert(e, r);
                return r;
            }
            if t.iter().all(|x| *x == t[0]) { let r = self.cst(t[0] as u128, n.w); self.rewritten.insert(e, r); return r; }
            if n.w >= 8 && t.iter().enumerate().all(|(i, x)| *x == i as u64) {
                let x = self.var(v);
                let r = if n.w == 8 { x } else { self.raw(Node { op: Op::ZExt, w: n.w, a: x, b: 0, c: 0 }) };
                if r != e { self.rewritten.insert(e, r); }
                return r;
            }
        }
        e
    }
    pub fn bin(&mut self, op: Op, a: EId, b: EId) -> EId {
        let aw = self.w(a);
        debug_assert_eq!(aw, self.w(b));
        let w = match op { Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1, _ => aw };
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.cst(apply(op, w, aw, x, y), w); }
        let m = mask(w);
        let am = mask(aw);
        // commutative: constant on the right
        let (a, b, ca, cb) = match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq if ca.is_some() || (cb.is_none() && a > b) => (b, a, cb, ca),
            _ => (a, b, ca, cb),
        };
        match op {
            Op::Add => {
                if cb == Some(0) { return a; }
                let n = self.node(a);
                if let (Some(y), Op::Add) = (cb, n.op) { if let Some(x) = self.cval(n.b) { let c = self.cst(x.wrapping_add(y), w); return self.bin(Op::Add, n.a, c); } }
            }
            Op::Sub => {
                if cb == Some(0) { return a; }
                if a == b { return self.cst(0, w); }
                if let Some(y) = cb { let c = self.cst((0u128).wrapping_sub(y), w); return self.bin(Op::Add, a, c); }
            }
            Op::Mul => {
                if cb == Some(0) { return b; }
                if cb == Some(1) { return a; }
                if let Some(y) = cb { if y.is_power_of_two() { let c = self.cst(y.trailing_zeros() as u128, w); return self.bin(Op::Shl, a, c); } }
            }
            Op::UDiv => { if cb == Some(1) { return a; } if let Some(y) = cb { if y.is_power_of_two() { let c = self.cst(y.trailing_zeros() as u128, w); return self.bin(Op::LShr, a, c); } } }
            Op::URem => { if let Some(y) = cb { if y.is_power_of_two() { let c = self.cst(y - 1, w); return self.bin(Op::And, a, c); } } }
            Op::And => {
                if a == b { return a; }
                if let Some(y) = cb {
                    if y == 0 { return b; }
                    if y == m { return a; }
                    // low mask -> zext(extract)
                    if (y + 1).is_power_of_two() && w > 1 {
                        let k = (y + 1).trailing_zeros() as u16;
                        let x = self.extract(a, 0, k);
                        return self.zext(x, w);
                    }
                    let n = self.node(a);
                    if n.op == Op::Concat {
                        let lw = self.w(n.b);
                        let (h, l) = (self.cst(y >> lw, w - lw), self.cst(y, lw));
                        let (p, q) = (self.bin(Op::And, n.a, h), self.bin(Op::And, n.b, l));
                        return self.concat(p, q);
                    }
                    if n.op == Op::ZExt {
                        let iw = self.w(n.a);
                        let l = self.cst(y, iw);
                        let p = self.bin(Op::And, n.a, l);
                        return self.zext(p, w);
                    }
                }
                if w == 1 {
                    // x & !x
                    let nb = self.not_quick(b);
                    if nb == Some(a) { return self.f; }
                }
            }
            Op::Or => {
                if a == b { return a; }
                if let Some(y) = cb { if y == 0 { return a; } if y == m { return b; } }
                if w > 1 { if let Some(r) = self.disjoint_or(a, b, w) { return r; } }
                if w == 1 { let nb = self.not_quick(b); if nb == Some(a) { return self.t; } }
            }
            Op::Xor => {
                if a == b { return self.cst(0, w); }
                if cb == Some(0) { return a; }
                if w == 1 && cb == Some(1) { return self.not(a); }
                let n = self.node(a);
                if let (Some(y), Op::Xor) = (cb, n.op) { if let Some(x) = self.cval(n.b) { let c = self.cst(x ^ y, w); return self.bin(Op::Xor, n.a, c); } }
            }
            Op::Shl => {
                if let Some(y) = cb {
                    if y == 0 { return a; }
                    if y >= w as u128 { return self.cst(0, w); }
                    let k = y as u16;
                    let x = self.extract(a, 0, w - k);
                    let z = self.cst(0, k);
                    return self.concat(x, z);
                }
            }
            Op::LShr => {
                if let Some(y) = cb {
                    if y == 0 { return a; }
                    if y >= w as u128 { return self.cst(0, w); }
                    let k = y as u16;
                    let x = self.extract(a, k, w - k);
                    return self.zext(x, w);
                }
            }
            Op::AShr => {
                if let Some(y) = cb {
                    if y == 0 { return a; }
                    let k = (y as u16).min(w - 1);
                    let x = self.extract(a, k, w - k);
                    return self.sext(x, w);
                }
            }
            Op::Eq => {
                if a == b { return self.t; }
                if aw == 1 {
                    if let Some(y) = cb { return if y == 1 { a } else { self.not(a) }; }
                }
                if let Some(y) = cb {
                    let n = self.node(a);
                    match n.op {
                        Op::ZExt => {
                            let iw = self.w(n.a);
                            if y > mask(iw) { return self.f; }
                            let c = self.cst(y, iw);
                            return self.bin(Op::Eq, n.a, c);
                        }
                        Op::Concat => {
                            let lw = self.w(n.b);
                            let (h, l) = (self.cst(y >> lw, aw - lw), self.cst(y, lw));
                            let (p, q) = (self.bin(Op::Eq, n.a, h), self.bin(Op::Eq, n.b, l));
                            return self.bin(Op::And, p, q);
                        }
                        Op::Or if y == 0 => {
                            let z = b;
                            let (p, q) = (self.bin(Op::Eq, n.a, z), self.bin(Op::Eq, n.b, z));
                            return self.bin(Op::And, p, q);
                        }
                        Op::Xor => {
                            if let Some(x) = self.cval(n.b) { let c = self.cst(x ^ y, aw); return self.bin(Op::Eq, n.a, c); }
                            if y == 0 { return self.bin(Op::Eq, n.a, n.b); }
                        }
                        Op::Add => if let Some(x) = self.cval(n.b) { let c = self.cst(y.wrapping_sub(x), aw); return self.bin(Op::Eq, n.a, c); },
                        Op::Sub if y == 0 => return self.bin(Op::Eq, n.a, n.b),
                        Op::Ite => {
                            if self.cval(n.b).is_some() || self.cval(n.c).is_some() {
                                let (p, q) = (self.bin(Op::Eq, n.b, b), self.bin(Op::Eq, n.c, b));
                                return self.ite(n.a, p, q);
                            }
                        }
                        _ => {}
                    }
                } else {
                    let (n, k) = (self.node(a), self.node(b));
                    if n.op == Op::Concat && k.op == Op::Concat && self.w(n.b) == self.w(k.b) {
                        let (p, q) = (self.bin(Op::Eq, n.a, k.a), self.bin(Op::Eq, n.b, k.b));
                        return self.bin(Op::And, p, q);
                    }
                    if n.op == Op::ZExt && k.op == Op::ZExt && self.w(n.a) == self.w(k.a) { return self.bin(Op::Eq, n.a, k.a); }
                }
            }
            Op::Ult => {
                if a == b { return self.f; }
                if cb == Some(0) { return self.f; }
                if ca == Some(am) { return self.f; }
                if cb == Some(1) { let z = self.cst(0, aw); return self.bin(Op::Eq, a, z); }
                if aw == 1 && ca == Some(0) { return b; }
                if let Some(r) = self.cmp_zext(op, a, b, ca, cb) { return r; }
            }
            Op::Ule => {
                if a == b { return self.t; }
                if cb == Some(am) || ca == Some(0) { return self.t; }
                let r = self.bin(Op::Ult, b, a);
                return self.not(r);
            }
            Op::Slt => {
                if a == b { return self.f; }
                // zext with zero sign bit on both sides -> unsigned
                if self.nonneg(a) && self.nonneg(b) { return self.bin(Op::Ult, a, b); }
            }
            Op::Sle => {
                if a == b { return self.t; }
                let r = self.bin(Op::Slt, b, a);
                return self.not(r);
            }
            _ => {}
        }
        // push operations with constants through ite with constant arms
        if let Some(_) = cb {
            let n = self.node(a);
            if n.op == Op::Ite && (self.cval(n.b).is_some() && self.cval(n.c).is_some()) {
                let (p, q) = (self.bin(op, n.b, b), self.bin(op, n.c, b));
                return self.ite(n.a, p, q);
            }
        }
        if let Some(_) = ca {
            let n = self.node(b);
            if n.op == Op::Ite && (self.cval(n.b).is_some() && self.cval(n.c).is_some()) {
                let (p, q) = (self.bin(op, a, n.b), self.bin(op, a, n.c));
                return self.ite(n.a, p, q);
            }
        }
        self.fin(Node { op, w, a, b, c: 0 })
    }
    fn nonneg(&self, a: EId) -> bool {
        let n = self.node(a);
        match n.op {
            Op::ZExt => true,
            Op::Const => self.consts[n.a as usize] >> (n.w - 1) & 1 == 0,
            _ => false,
        }
    }
    fn cmp_zext(&mut self, op: Op, a: EId, b: EId, ca: Option<u128>, cb: Option<u128>) -> Option<EId> {
        let (n, k) = (self.node(a), self.node(b));
        if n.op == Op::ZExt {
            let iw = self.w(n.a);
            if let Some(y) = cb {
                if y > mask(iw) { return Some(self.t); } // a < y always
                let c = self.cst(y, iw);
                return Some(self.bin(op, n.a, c));
            }
            if k.op == Op::ZExt && self.w(k.a) == iw { return Some(self.bin(op, n.a, k.a)); }
        }
        if k.op == Op::ZExt {
            let iw = self.w(k.a);
            if let Some(x) = ca {
                if x >= mask(iw) { return Some(self.f); }
                let c = self.cst(x, iw);
                return Some(self.bin(op, c, k.a));
            }
        }
        None
    }
    fn disjoint_or(&mut self, a: EId, b: EId, w: u16) -> Option<EId> {
        // concat(x,0_k) | zext(y_j), j<=k  -> concat(x, zext(y,k))
        let (n, k) = (self.node(a), self.node(b));
        for (p, _q, pe, qe) in [(n, k, a, b), (k, n, b, a)] {
            let _ = pe;
            if p.op == Op::Concat {
                let lw = self.w(p.b);
                if self.cval(p.b) == Some(0) {
                    // low part zero
                    let qhi = self.extract(qe, lw, w - lw);
                    if self.cval(qhi) == Some(0) {
                        let ql = self.extract(qe, 0, lw);
                        return Some(self.concat(p.a, ql));
                    }
                }
                if self.cval(p.a) == Some(0) {
                    let qlo = self.extract(qe, 0, lw);
                    if self.cval(qlo) == Some(0) {
                        let qh = self.extract(qe, lw, w - lw);
                        return Some(self.concat(qh, p.b));
                    }
                }
            }
            if p.op == Op::ZExt {
                let lw = self.w(p.a);
                let qlo = self.extract(qe, 0, lw);
                if self.cval(qlo) == Some(0) {
                    let qh = self.extract(qe, lw, w - lw);
                    return Some(self.concat(qh, p.a));
                }
            }
        }
        None
    }
    fn not_quick(&mut self, a: EId) -> Option<EId> {
        let n = self.node(a);
        match n.op {
            Op::InSet => { let s = set_not(&self.sets[n.b as usize]); Some(self.in_set(n.a, s)) }
            Op::Xor if n.w == 1 && self.cval(n.b) == Some(1) => Some(n.a),
            _ => None,
        }
    }
    pub fn not(&mut self, a: EId) -> EId {
        let n = self.node(a);
        debug_assert_eq!(n.w, 1);
        match n.op {
            Op::Const => return if a == self.t { self.f } else { self.t },
            Op::InSet => { let s = set_not(&self.sets[n.b as usize]); return self.in_set(n.a, s); }
            Op::Xor if self.cval(n.b) == Some(1) => return n.a,
            Op::Or => { let (p, q) = (self.not(n.a), self.not(n.b)); return self.bin(Op::And, p, q); }
            Op::And => { let (p, q) = (self.not(n.a), self.not(n.b)); return self.bin(Op::Or, p, q); }
            _ => {}
        }
        let t = self.t;
        self.raw(Node { op: Op::Xor, w: 1, a, b: t, c: 0 })
    }
    pub fn extract(&mut self, a: EId, lo: u16, w: u16) -> EId {
        let n = self.node(a);
        if lo == 0 && w == n.w { return a; }
        debug_assert!(lo + w <= n.w);
        match n.op {
            Op::Const => { let v = self.consts[n.a as usize]; return self.cst(v >> lo, w); }
            Op::Extract => return self.extract(n.a, lo + n.b as u16, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw { return self.extract(n.a, lo - lw, w); }
                if lo + w <= lw { return self.extract(n.b, lo, w); }
                let h = self.extract(n.a, 0, lo + w - lw);
                let l = self.extract(n.b, lo, lw - lo);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { return self.cst(0, w); }
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                if lo < iw { let x = self.extract(n.a, lo, iw - lo); return self.sext(x, w); }
                let x = self.extract(n.a, iw - 1, 1);
                return self.sext(x, w);
            }
            Op::And | Op::Or | Op::Xor => {
                let (p, q) = (self.extract(n.a, lo, w), self.extract(n.b, lo, w));
                return self.bin(n.op, p, q);
            }
            Op::Ite => {
                let (p, q) = (self.extract(n.b, lo, w), self.extract(n.c, lo, w));
                return self.ite(n.a, p, q);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let (p, q) = (self.extract(n.a, 0, w), self.extract(n.b, 0, w));
                return self.bin(n.op, p, q);
            }
            Op::Tab => {
                let t: Vec<u64> = self.tabs[n.b as usize].iter().map(|x| (x >> lo) & mask(w) as u64).collect();
                return self.tab(n.a, t, w);
            }
            _ => {}
        }
        self.fin(Node { op: Op::Extract, w, a, b: lo as u32, c: 0 })
    }
    pub fn concat(&mut self, h: EId, l: EId) -> EId {
        let (n, k) = (self.node(h), self.node(l));
        let w = n.w + k.w;
        if let Some(x) = self.cval(h) {
            if let Some(y) = self.cval(l) { return self.cst((x << k.w) | y, w); }
            if x == 0 { return self.zext(l, w); }
        }
        if n.op == Op::Extract && k.op == Op::Extract && n.a == k.a && n.b == k.b + k.w as u32 {
            return self.extract(n.a, k.b as u16, w);
        }
        // extract(x,8..) ++ x'low where l == x itself low part
        if n.op == Op::Extract && n.b as u16 == k.w {
            let lo = self.extract(n.a, 0, k.w);
            if lo == l { return self.extract(n.a, 0, w); }
        }
        // right associate: (a ++ b) ++ l -> a ++ (b ++ l)
        if n.op == Op::Concat {
            let r = self.concat(n.b, l);
            return self.concat(n.a, r);
        }
        if k.op == Op::Concat {
            // try merging h with the top of l
            let kn = self.node(k.a);
            if n.op == Op::Extract && kn.op == Op::Extract && n.a == kn.a && n.b == kn.b + kn.w as u32 {
                let m = self.extract(n.a, kn.b as u16, n.w + kn.w);
                return self.concat(m, k.b);
            }
            if let (Some(x), Some(y)) = (self.cval(h), self.cval(k.a)) {
                let c = self.cst((x << kn.w) | y, n.w + kn.w);
                return self.concat(c, k.b);
            }
        }
        self.fin(Node { op: Op::Concat, w, a: h, b: l, c: 0 })
    }
    pub fn zext(&mut self, a: EId, w: u16) -> EId {
        let n = self.node(a);
        if n.w == w { return a; }
        if let Some(v) = self.cval(a) { return self.cst(v, w); }
        if n.op == Op::ZExt { return self.zext(n.a, w); }
        if n.op == Op::Ite && self.cval(n.b).is_some() && self.cval(n.c).is_some() {
            let (p, q) = (self.zext(n.b, w), self.zext(n.c, w));
            return self.ite(n.a, p, q);
        }
        self.fin(Node { op: Op::ZExt, w, a, b: 0, c: 0 })
    }
    pub fn sext(&mut self, a: EId, w: u16) -> EId {
        let n = self.node(a);
        if n.w == w { return a; }
        if let Some(v) = self.cval(a) { return self.cst(sext(v, n.w) as u128, w); }
        if n.op == Op::ZExt { return self.zext(n.a, w); }
        if n.op == Op::Ite && self.cval(n.b).is_some() && self.cval(n.c).is_some() {
            let (p, q) = (self.sext(n.b, w), self.sext(n.c, w));
            return self.ite(n.a, p, q);
        }
        self.fin(Node { op: Op::SExt, w, a, b: 0, c: 0 })
    }
    pub fn ite(&mut self, c: EId, a: EId, b: EId) -> EId {
        if c == self.t { return a; }
        if c == self.f { return b; }
        if a == b { return a; }
        let w = self.w(a);
        if w == 1 {
            if a == self.t { return self.bin(Op::Or, c, b); }
            if b == self.f { return self.bin(Op::And, c, a); }
            if a == self.f { let n = self.not(c); return self.bin(Op::And, n, b); }
            if b == self.t { let n = self.not(c); return self.bin(Op::Or, n, a); }
        }
        let nb = self.node(b);
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        let na = self.node(a);
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        if nb.op == Op::Ite && nb.b == a { let d = self.bin(Op::Or, c, nb.a); return self.ite(d, a, nb.c); }
        self.fin(Node { op: Op::Ite, w, a: c, b: a, c: b })
    }
    pub fn show(&self, e: EId, depth: u32) -> String {
        let n = self.node(e);
        if depth == 0 { return format!("#{e}"); }
        match n.op {
            Op::Const => format!("{:#x}:{}", self.consts[n.a as usize], n.w),
            Op::Var => format!("v{}", n.a >> 2),
            Op::InSet => format!("(v{} in {:x?})", n.a >> 2, self.sets[n.b as usize]),
            Op::Tab => format!("tab{}(v{}):{}", n.b, n.a >> 2, n.w),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, depth - 1), n.b, n.w),
            Op::ZExt | Op::SExt => format!("{:?}{}({})", n.op, n.w, self.show(n.a, depth - 1)),
            Op::Ite => format!("ite({},{},{})", self.show(n.a, depth - 1), self.show(n.b, depth - 1), self.show(n.c, depth - 1)),
            _ => format!("({:?} {} {})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}
