//! Parser for the textual LLVM IR rustc emits, lowering each function lazily
//! into a flat register code in which every aggregate/vector value is split
//! into scalar slots.
use crate::expr::Op;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u16), Ptr, F32, F64, Arr(u64, Rc<Ty>), Struct(Rc<Vec<Ty>>, bool), Vec(u32, Rc<Ty>), Other }

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; b.next_power_of_two().min(16) }
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Vec(n, t) => (*n as u64 * t.size()).next_power_of_two(),
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; let a = self.align(); (b + a - 1) / a * a }
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() { if !packed { let a = t.align(); o = (o + a - 1) / a * a; } o += t.size(); }
                if !packed { let a = self.align(); o = (o + a - 1) / a * a; }
                o
            }
            Ty::Vec(n, t) => if **t == Ty::Int(1) { (*n as u64 + 7) / 8 } else { *n as u64 * t.size() },
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !packed { let a = t.align(); o = (o + a - 1) / a * a; }
                    if j == i { return (o, t.clone()); }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i as u64 * t.size(), (**t).clone()),
            _ => panic!("field of {self:?}"),
        }
    }
    /// scalars as (byte offset, bit width)
    pub fn flatten(&self, base: u64, out: &mut Vec<(u32, u16)>) {
        match self {
            Ty::Int(w) => out.push((base as u32, *w)),
            Ty::Ptr | Ty::F64 => out.push((base as u32, 64)),
            Ty::F32 => out.push((base as u32, 32)),
            Ty::Arr(n, t) => for i in 0..*n { t.flatten(base + i * t.size(), out) },
            Ty::Vec(n, t) => for i in 0..*n as u64 { t.flatten(base + i * t.size(), out) },
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() { if !packed { let a = t.align(); o = (o + a - 1) / a * a; } t.flatten(base + o, out); o += t.size(); }
            }
            _ => {}
        }
    }
    pub fn scalars(&self) -> Vec<(u32, u16)> { let mut v = vec![]; self.flatten(0, &mut v); v }
    pub fn nslots(&self) -> u32 {
        match self {
            Ty::Int(_) | Ty::Ptr | Ty::F64 | Ty::F32 => 1,
            Ty::Arr(n, t) => *n as u32 * t.nslots(),
            Ty::Vec(n, t) => *n * t.nslots(),
            Ty::Struct(f, _) => f.iter().map(|t| t.nslots()).sum(),
            _ => 0,
        }
    }
    pub fn bits(&self) -> u64 {
        match self { Ty::Int(w) => *w as u64, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, Ty::Vec(n, t) => *n as u64 * t.bits(), _ => self.size() * 8 }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Opd { R(u32), C(u64), W(u32) }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastK { ZExt, SExt, Trunc }

#[derive(Clone, Debug)]
pub struct Edge { pub blk: u32, pub pc: u32, pub moves: Box<[(u32, Opd)]> }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum IOp { Umin, Umax, Smin, Smax, UsubSat, UaddSat, SsubSat, SaddSat, Ucmp, Scmp, UaddO, UsubO, UmulO, SaddO, SsubO, SmulO, Ctlz, Cttz, Ctpop, Bswap, Bitrev, Abs, Fshl, Fshr }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FOp { Add, Sub, Mul, Div, Rem, Neg, CmpOeq, CmpOlt, CmpOle, CmpOgt, CmpOge, CmpUne, CmpOne, CmpUno, CmpOrd, CmpUlt, CmpUle, CmpUgt, CmpUge, CmpUeq, FromS, FromU, ToS, ToU, Ext, Trunc }

#[derive(Debug)]
pub enum Callee { Direct(u32), Indirect(Opd) }
#[derive(Debug)]
pub struct CallI { pub d: u32, pub nret: u32, pub rw: u16, pub callee: Callee, pub args: Box<[Opd]>, pub aw: Box<[u16]>, pub next: Option<Edge> }
#[derive(Debug)]
pub struct SwitchI { pub a: Opd, pub w: u16, pub cases: Vec<(u64, u32)>, pub edges: Vec<Edge>, pub default: u32 }

#[derive(Debug)]
pub enum Ins {
    Bin { op: Op, w: u16, d: u32, a: Opd, b: Opd },
    Icmp { p: Pred, w: u16, d: u32, a: Opd, b: Opd },
    Cast { k: CastK, fw: u16, tw: u16, d: u32, a: Opd },
    /// the product of two 128-bit values, shifted down until it is one
    MulShr { d: u32, a: Opd, b: Opd, s: u32 },
    Unsupported(&'static str),
    Mov { d: u32, a: Opd },
    Select { d: u32, w: u16, c: Opd, a: Opd, b: Opd },
    Gep { d: u32, a: Opd, off: i64, idx: Box<[(Opd, u16, i64)]> },
    Gep0 { d: u32, a: Opd, off: i64 },
    Load { d: u32, a: Opd, w: u16 },
    LoadAgg { d: u32, a: Opd, parts: Box<[(u32, u16)]> },
    Store { a: Opd, v: Opd, w: u16 },
    StoreAgg { a: Opd, parts: Box<[(u32, u16, Opd)]> },
    Alloca { d: u32, off: u32 },
    AllocaDyn { d: u32, size: u64, n: Opd },
    Pack { d: u32, w: u16, parts: Box<[(Opd, u16)]> },
    Unpack { d: u32, a: Opd, w: u16, parts: Box<[u16]> },
    Repack { d: u32, parts: Box<[(Opd, u16)]>, out: Box<[u16]> },
    VecEqMask { d: u32, a: Opd, b: Box<[Opd]>, n: u16 },
    Call(Box<CallI>),
    IOp { op: IOp, w: u16, d: u32, a: Opd, b: Opd, c: Opd },
    FOp { op: FOp, w: u16, w2: u16, d: u32, a: Opd, b: Opd },
    MemCpy { d: Opd, s: Opd, n: Opd, mv: bool },
    MemSet { d: Opd, v: Opd, n: Opd },
    Rmw { op: u8, w: u16, d: u32, a: Opd, v: Opd },
    CmpXchg { d: u32, a: Opd, c: Opd, n: Opd, w: u16 },
    Br(Edge),
    CondBr(Box<(Opd, Edge, Edge)>),
    Switch(Box<SwitchI>),
    Ret(Box<[Opd]>),
    Unreachable,
    Trap,
    Asm(Box<(u32, u32, Box<[Opd]>)>),
    Bad(Box<String>),
    Nop,
}

#[derive(Debug)]
pub struct Code { pub ins: Vec<Ins>, pub nslots: u32, pub nparams: u32, pub frame_size: u32, pub id: u32 }

pub struct FuncDef<'a> { pub name: &'a str, pub header: &'a str, pub body: &'a str, pub declared_only: bool, pub code: Option<Rc<Code>> }
pub struct GlobalDef<'a> { pub name: &'a str, pub ty: Ty, pub init: &'a str, pub external: bool, pub tls: bool, pub constant: bool }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tok<'a> { Id(&'a str), Local(&'a str), Global(&'a str), Num(&'a str), Str(&'a str), CStr(&'a str), P(u8), Meta, Attr, Eof }

pub struct Lex<'a> { s: &'a [u8], src: &'a str, pub i: usize }
impl<'a> Lex<'a> {
    pub fn new(src: &'a str) -> Lex<'a> { Lex { s: src.as_bytes(), src, i: 0 } }
    fn is_id(b: u8) -> bool { b.is_ascii_alphanumeric() || b == b'_' || b == b'.' || b == b'$' || b == b'-' }
    fn quoted(&mut self) -> &'a str {
        let st = self.i + 1;
        self.i = st;
        while self.s[self.i] != b'"' { self.i += 1; }
        let r = &self.src[st..self.i];
        self.i += 1;
        r
    }
    pub fn peek(&self) -> Tok<'a> { let mut l = Lex { s: self.s, src: self.src, i: self.i }; l.next() }
    pub fn next(&mut self) -> Tok<'a> {
        let s = self.s;
        while self.i < s.len() && s[self.i].is_ascii_whitespace() { self.i += 1; }
        if self.i >= s.len() { return Tok::Eof; }
        let b = s[self.i];
        match b {
            b'%' | b'@' => {
                self.i += 1;
                let name = if s[self.i] == b'"' { self.quoted() } else {
                    let st = self.i;
                    while self.i < s.len() && Lex::is_id(s[self.i]) { self.i += 1; }
                    &self.src[st..self.i]
                };
                if b == b'%' { Tok::Local(name) } else { Tok::Global(name) }
            }
            b'"' => Tok::Str(self.quoted()),
            b'c' if self.i + 1 < s.len() && s[self.i + 1] == b'"' => { self.i += 1; Tok::CStr(self.quoted()) }
            b'!' => { self.i += 1; while self.i < s.len() && (Lex::is_id(s[self.i]) || s[self.i] == b'!') { self.i += 1; } Tok::Meta }
            b'#' => { self.i += 1; while self.i < s.len() && Lex::is_id(s[self.i]) { self.i += 1; } Tok::Attr }
            b'.' if s[self.i..].starts_with(b"...") => { self.i += 3; Tok::Id("...") }
            b'-' | b'0'..=b'9' => {
                let st = self.i; self.i += 1;
                while self.i < s.len() && (s[self.i].is_ascii_alphanumeric() || s[self.i] == b'.' || (s[self.i] == b'+' && s[self.i - 1] == b'e') || (s[self.i] == b'-' && s[self.i - 1] == b'e')) { self.i += 1; }
                Tok::Num(&self.src[st..self.i])
            }
            _ if b.is_ascii_alphabetic() || b == b'_' || b == b'.' => {
                let st = self.i;
                while self.i < s.len() && Lex::is_id(s[self.i]) { self.i += 1; }
                Tok::Id(&self.src[st..self.i])
            }
            _ => { self.i += 1; Tok::P(b) }
        }
    }
    pub fn eat(&mut self, p: u8) -> bool { if self.peek() == Tok::P(p) { self.next(); true } else { false } }
    pub fn expect(&mut self, p: u8) { let t = self.next(); if t != Tok::P(p) { panic!("expected {:?} got {:?} at {}", p as char, t, &self.src[self.i.saturating_sub(80)..(self.i + 80).min(self.src.len())]); } }
    pub fn eat_id(&mut self, id: &str) -> bool { if self.peek() == Tok::Id(id) { self.next(); true } else { false } }
    pub fn skip_parens(&mut self) {
        // at '('
        self.expect(b'(');
        let mut d = 1;
        while d > 0 { match self.next() { Tok::P(b'(') => d += 1, Tok::P(b')') => d -= 1, Tok::Eof => return, _ => {} } }
    }
}

pub struct Module<'a> {
    pub funcs: Vec<FuncDef<'a>>,
    pub globals: Vec<GlobalDef<'a>>,
    pub fn_by_name: HashMap<&'a str, u32>,
    pub gl_by_name: HashMap<&'a str, u32>,
    pub types: HashMap<&'a str, Ty>,
    pub wide: Vec<(u128, u16)>,
    pub aliases: HashMap<&'a str, &'a str>,
}

pub const FN_BASE: u32 = 1;
impl<'a> Module<'a> {
    pub fn gl_base(&self) -> u32 { FN_BASE + self.funcs.len() as u32 }
    pub fn parse(src: &'a str) -> Module<'a> {
        let mut m = Module { funcs: vec![], globals: vec![], fn_by_name: HashMap::new(), gl_by_name: HashMap::new(), types: HashMap::new(), wide: vec![], aliases: HashMap::new() };
        let b = src.as_bytes();
        let mut i = 0;
        let mut gl: Vec<(&'a str, &'a str)> = vec![];
        while i < b.len() {
            let e = memchr(b, b'\n', i);
            let line = &src[i..e];
            if line.starts_with("define ") {
                // body until "\n}"
                let mut j = e + 1;
                loop {
                    let k = memchr(b, b'\n', j);
                    if b[j] == b'}' { let body = &src[(e + 1).min(j)..j]; m.add_fn(line, body, false); i = k + 1; break; }
                    j = k + 1;
                }
                continue;
            } else if line.starts_with("declare ") {
                m.add_fn(line, "", true);
            } else if line.starts_with('@') {
                let mut l = Lex::new(line);
                let Tok::Global(name) = l.next() else { panic!() };
                gl.push((name, &line[l.i..]));
            } else if line.starts_with('%') {
                let mut l = Lex::new(line);
                let Tok::Local(name) = l.next() else { panic!() };
                l.expect(b'=');
                l.eat_id("type");
                let t = m.ty(&mut l);
                m.types.insert(name, t);
            }
            i = e + 1;
        }
        for (name, rest) in gl {
            let mut l = Lex::new(rest);
            l.expect(b'=');
            let (mut external, mut tls, mut alias) = (false, false, false);
            let mut constant = false;
            loop {
                match l.next() {
                    Tok::Id("global") => break,
                    Tok::Id("constant") => { constant = true; break }
                    Tok::Id("alias") => { alias = true; break }
                    Tok::Id("external") | Tok::Id("extern_weak") => external = true,
                    Tok::Id("thread_local") => { tls = true; if l.peek() == Tok::P(b'(') { l.skip_parens(); } }
                    Tok::Id("addrspace") => l.skip_parens(),
                    Tok::Id(_) => {}
                    t => panic!("global {name}: {t:?}"),
                }
            }
            let ty = m.ty(&mut l);
            if alias {
                l.expect(b',');
                let _ = m.ty(&mut l);
                if let Tok::Global(g) = l.next() { m.aliases.insert(name, g); }
                continue;
            }
            let gi = m.globals.len() as u32;
            m.gl_by_name.insert(name, gi);
            m.globals.push(GlobalDef { name, ty, init: &rest[l.i..], external, tls, constant });
        }
        m
    }
    fn add_fn(&mut self, header: &'a str, body: &'a str, decl: bool) {
        let mut l = Lex::new(header);
        let name = loop { match l.next() { Tok::Global(n) => break n, Tok::Eof => panic!("fn header"), _ => {} } };
        self.fn_by_name.insert(name, self.funcs.len() as u32);
        self.funcs.push(FuncDef { name, header, body, declared_only: decl, code: None });
    }
    pub fn ty(&self, l: &mut Lex<'a>) -> Ty {
        let t = match l.next() {
            Tok::Id("void") => Ty::Void,
            Tok::Id("ptr") => { if l.eat_id("addrspace") { l.skip_parens(); } Ty::Ptr }
            Tok::Id("float") => Ty::F32,
            Tok::Id("double") => Ty::F64,
            Tok::Id("label") | Tok::Id("metadata") | Tok::Id("token") | Tok::Id("opaque") | Tok::Id("half") | Tok::Id("fp128") | Tok::Id("x86_fp80") => Ty::Other,
            Tok::Id(s) if s.starts_with('i') && s[1..].parse::<u16>().is_ok() => Ty::Int(s[1..].parse().unwrap()),
            Tok::Local(n) => self.types.get(n).cloned().unwrap_or(Ty::Other),
            Tok::P(b'[') => {
                let Tok::Num(n) = l.next() else { panic!() };
                l.eat_id("x");
                let t = self.ty(l);
                l.expect(b']');
                Ty::Arr(n.parse().unwrap(), Rc::new(t))
            }
            Tok::P(b'{') => { let f = self.ty_list(l, b'}'); Ty::Struct(Rc::new(f), false) }
            Tok::P(b'<') => {
                if l.eat(b'{') {
                    let f = self.ty_list(l, b'}');
                    l.expect(b'>');
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let Tok::Num(n) = l.next() else { panic!() };
                    l.eat_id("x");
                    let t = self.ty(l);
                    l.expect(b'>');
                    Ty::Vec(n.parse().unwrap(), Rc::new(t))
                }
            }
            t => panic!("type: {t:?} in {}", &l.src[l.i.saturating_sub(100)..(l.i + 50).min(l.src.len())]),
        };
        t
    }
    fn ty_list(&self, l: &mut Lex<'a>, end: u8) -> Vec<Ty> {
        let mut v = vec![];
        if l.eat(end) { return v; }
        loop { v.push(self.ty(l)); if l.eat(end) { break; } l.expect(b','); }
        v
    }
    fn is_ty_start(t: Tok) -> bool {
        match t {
            Tok::Id(s) => matches!(s, "void" | "ptr" | "float" | "double" | "label" | "metadata" | "token" | "half") || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|b| b.is_ascii_digit())),
            Tok::P(b'[') | Tok::P(b'{') | Tok::P(b'<') => true,
            _ => false,
        }
    }
    /// skip attributes until a type starts
    fn skip_to_ty(&self, l: &mut Lex<'a>) {
        loop {
            let t = l.peek();
            if Self::is_ty_start(t) { return; }
            if let Tok::Local(n) = t { if self.types.contains_key(n) { return; } }
            match t { Tok::P(b'(') => l.skip_parens(), Tok::Eof => panic!("no type: {}", l.src), _ => { l.next(); } }
        }
    }
    fn skip_param_attrs(&self, l: &mut Lex<'a>) {
        loop {
            match l.peek() {
                Tok::Id(s) if !matches!(s, "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "splat" | "asm" | "add" | "sub" | "xor" | "trunc" | "zext" | "mul") => {
                    l.next();
                    if l.peek() == Tok::P(b'(') { l.skip_parens(); }
                    else if s == "align" { l.next(); }
                }
                Tok::Str(_) => { l.next(); if l.eat(b'=') { l.next(); } }
                _ => return,
            }
        }
    }
    pub fn gl_addr(&self, name: &str) -> Option<u64> {
        if let Some(i) = self.fn_by_name.get(name) { return Some(((FN_BASE + i) as u64) << 32); }
        if let Some(i) = self.gl_by_name.get(name) { return Some(((self.gl_base() + i) as u64) << 32); }
        if let Some(a) = self.aliases.get(name) { return self.gl_addr(a); }
        None
    }
    fn float_bits(s: &str, ty: &Ty) -> u64 {
        if let Some(h) = s.strip_prefix("0x") {
            let b = u64::from_str_radix(h.trim_start_matches(['H', 'K', 'L', 'M']), 16).unwrap();
            return if *ty == Ty::F32 { (f64::from_bits(b) as f32).to_bits() as u64 } else { b };
        }
        if s == "nan" { return if *ty == Ty::F32 { f32::NAN.to_bits() as u64 } else { f64::NAN.to_bits() }; }
        if let Some(h) = s.strip_prefix('f') { let _ = h; }
        let v: f64 = s.parse().unwrap_or(f64::NAN);
        if *ty == Ty::F32 { (v as f32).to_bits() as u64 } else { v.to_bits() }
    }
    /// a constant of the given type, flattened
    fn konst(&mut self, l: &mut Lex<'a>, ty: &Ty, out: &mut Vec<Opd>) {
        let t = l.next();
        match t {
            Tok::Id("null") | Tok::Id("undef") | Tok::Id("poison") | Tok::Id("zeroinitializer") | Tok::Id("none") => {
                for (_, w) in ty.scalars() { out.push(if w > 64 { self.wide.push((0, w)); Opd::W(self.wide.len() as u32 - 1) } else { Opd::C(0) }); }
            }
            Tok::Id("true") => out.push(Opd::C(1)),
            Tok::Id("false") => out.push(Opd::C(0)),
            Tok::Num(n) => match ty {
                Ty::Int(w) if *w > 64 => {
                    let v = if n.starts_with('-') { n.parse::<i128>().unwrap() as u128 } else { n.parse::<u128>().unwrap() };
                    self.wide.push((v & crate::expr::mask(*w), *w));
                    out.push(Opd::W(self.wide.len() as u32 - 1));
                }
                Ty::Int(w) => {
                    let v = if n.starts_with('-') { n.parse::<i64>().unwrap() as u64 } else { n.parse::<u64>().unwrap_or_else(|_| panic!("num {n}")) };
                    out.push(Opd::C(v & crate::expr::mask(*w) as u64));
                }
                Ty::F32 | Ty::F64 => out.push(Opd::C(Self::float_bits(n, ty))),
                _ => panic!("num for {ty:?}"),
            },
            Tok::Global(g) => {
                let a = self.gl_addr(g).unwrap_or_else(|| panic!("unknown global {g}"));
                out.push(Opd::C(a));
            }
            Tok::Id("splat") => {
                l.expect(b'(');
                let t = self.ty(l);
                let mut v = vec![];
                self.konst(l, &t, &mut v);
                l.expect(b')');
                let Ty::Vec(n, _) = ty else { panic!() };
                for _ in 0..*n { out.push(v[0]); }
            }
            Tok::CStr(s) => for b in unescape(s) { out.push(Opd::C(b as u64)); },
            Tok::P(b'<') | Tok::P(b'[') | Tok::P(b'{') => {
                let end = match t { Tok::P(b'<') => b'>', Tok::P(b'[') => b']', _ => b'}' };
                let mut end2 = false;
                let mut end = end;
                if t == Tok::P(b'<') && l.eat(b'{') { end = b'}'; end2 = true; }
                if !l.eat(end) {
                    loop {
                        let t = self.ty(l);
                        self.konst(l, &t, out);
                        if l.eat(end) { break; }
                        l.expect(b',');
                    }
                }
                if end2 { l.expect(b'>'); }
            }
            Tok::Id("getelementptr") => {
                while let Tok::Id(s) = l.peek() {
                    if matches!(s, "inbounds" | "nuw" | "nusw") { l.next(); } else if s == "inrange" { l.next(); l.skip_parens(); } else { break; }
                }
                l.expect(b'(');
                let t = self.ty(l);
                l.expect(b',');
                let _ = self.ty(l);
                let mut b = vec![];
                self.konst(l, &Ty::Ptr, &mut b);
                let Opd::C(mut addr) = b[0] else { panic!() };
                let mut cur = t;
                let mut first = true;
                while l.eat(b',') {
                    let it = self.ty(l);
                    let mut v = vec![];
                    self.konst(l, &it, &mut v);
                    let Opd::C(x) = v[0] else { panic!() };
                    let x = if it == Ty::Int(32) { x as u32 as i32 as i64 } else { x as i64 };
                    if first { addr = addr.wrapping_add((x * cur.size() as i64) as u64); first = false; }
                    else { let (o, t) = if let Ty::Struct(..) = cur { cur.field_off(x as usize) } else { let (_, t) = cur.field_off(0); ((x * t.size() as i64) as u64, t) }; addr = addr.wrapping_add(o); cur = t; }
                }
                l.expect(b')');
                out.push(Opd::C(addr));
            }
            Tok::Id(k @ ("ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext")) => {
                l.expect(b'(');
                let t = self.ty(l);
                let mut v = vec![];
                self.konst(l, &t, &mut v);
                l.eat_id("to");
                let t2 = self.ty(l);
                l.expect(b')');
                let _ = k;
                let Opd::C(x) = v[0] else { panic!() };
                out.push(Opd::C(x & crate::expr::mask(t2.bits() as u16) as u64));
            }
            Tok::Id(k @ ("add" | "sub" | "xor" | "mul")) => {
                while let Tok::Id("nuw" | "nsw") = l.peek() { l.next(); }
                l.expect(b'(');
                let t = self.ty(l);
                let mut v = vec![];
                self.konst(l, &t, &mut v);
                l.expect(b',');
                let t = self.ty(l);
                self.konst(l, &t, &mut v);
                l.expect(b')');
                let (Opd::C(x), Opd::C(y)) = (v[0], v[1]) else { panic!() };
                let r = match k { "add" => x.wrapping_add(y), "sub" => x.wrapping_sub(y), "mul" => x.wrapping_mul(y), _ => x ^ y };
                out.push(Opd::C(r & crate::expr::mask(t.bits() as u16) as u64));
            }
            Tok::Id(s) if matches!(ty, Ty::F32 | Ty::F64) => out.push(Opd::C(Self::float_bits(s, ty))),
            t => panic!("constant {t:?} for {ty:?} in {}", &l.src[l.i.saturating_sub(200)..(l.i + 50).min(l.src.len())]),
        }
    }
    pub fn global_bytes(&mut self, gi: u32) -> Vec<u8> {
        let g = &self.globals[gi as usize];
        let ty = g.ty.clone();
        let size = ty.size() as usize;
        let mut out = vec![0u8; size];
        if g.external { return out; }
        let init = g.init;
        let t = init.trim_start();
        if t.starts_with("zeroinitializer") || t.starts_with("undef") { return out; }
        let mut l = Lex::new(init);
        if let Tok::CStr(s) = l.peek() { let u = unescape(s); out[..u.len()].copy_from_slice(&u); return out; }
        self.write_init(&mut l, &ty, 0, &mut out);
        out
    }
    fn write_init(&mut self, l: &mut Lex<'a>, ty: &Ty, off: usize, out: &mut Vec<u8>) {
        match l.peek() {
            Tok::CStr(s) => { l.next(); let u = unescape(s); out[off..off + u.len()].copy_from_slice(&u); }
            Tok::Id("zeroinitializer") | Tok::Id("undef") | Tok::Id("poison") => { l.next(); }
            Tok::P(b'<') | Tok::P(b'[') | Tok::P(b'{') if !matches!(ty, Ty::Vec(..)) => {
                let Tok::P(p) = l.next() else { panic!() };
                let mut end = match p { b'[' => b']', b'{' => b'}', _ => b'}' };
                if p == b'<' { l.expect(b'{'); end = b'}'; }
                let mut i = 0;
                if !l.eat(end) {
                    loop {
                        let t = self.ty(l);
                        let (o, _) = ty.field_off(i);
                        self.write_init(l, &t, off + o as usize, out);
                        i += 1;
                        if l.eat(end) { break; }
                        l.expect(b',');
                    }
                }
                if p == b'<' { l.expect(b'>'); }
            }
            _ => {
                let mut v = vec![];
                self.konst(l, ty, &mut v);
                for ((o, w), x) in ty.scalars().into_iter().zip(v) {
                    let val = match x { Opd::C(c) => c as u128, Opd::W(i) => self.wide[i as usize].0, _ => panic!() };
                    let n = (w as usize + 7) / 8;
                    out[off + o as usize..off + o as usize + n].copy_from_slice(&val.to_le_bytes()[..n]);
                }
            }
        }
    }
}

fn memchr(b: &[u8], c: u8, from: usize) -> usize { b[from..].iter().position(|x| *x == c).map_or(b.len(), |p| p + from) }

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut out = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' { out.push(b'\\'); i += 2; }
            else { out.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap()); i += 3; }
        } else { out.push(b[i]); i += 1; }
    }
    out
}

// ---------------------------------------------------------------- functions

struct FnB<'a> {
    slots: HashMap<&'a str, u32>,
    nslots: u32,
    blocks: HashMap<&'a str, u32>,
    frame: u32,
    ins: Vec<Ins>,
    phis: Vec<Vec<(u32, u32, Vec<(Vec<Opd>, u32)>)>>,
    cur: u32,
    prods: HashMap<u32, (Opd, Opd)>,
}
impl<'a> FnB<'a> {
    fn slot(&mut self, name: &'a str, ty: &Ty) -> u32 {
        if let Some(s) = self.slots.get(name) { return *s; }
        let s = self.nslots;
        self.nslots += ty.nslots();
        self.slots.insert(name, s);
        s
    }
    fn tmp(&mut self, n: u32) -> u32 { let s = self.nslots; self.nslots += n; s }
    fn blk(&mut self, name: &'a str) -> u32 {
        let n = self.blocks.len() as u32;
        *self.blocks.entry(name).or_insert(n)
    }
}

impl<'a> Module<'a> {
    fn val(&mut self, f: &mut FnB<'a>, l: &mut Lex<'a>, ty: &Ty) -> Vec<Opd> {
        if let Tok::Local(n) = l.peek() {
            l.next();
            let s = f.slot(n, ty);
            return (0..ty.nslots()).map(|i| Opd::R(s + i)).collect();
        }
        let mut v = vec![];
        self.konst(l, ty, &mut v);
        v
    }
    fn tval(&mut self, f: &mut FnB<'a>, l: &mut Lex<'a>) -> (Ty, Vec<Opd>) { let t = self.ty(l); let v = self.val(f, l, &t); (t, v) }
    fn label(&mut self, f: &mut FnB<'a>, l: &mut Lex<'a>) -> Edge {
        if !l.eat_id("label") { panic!("label expected in {}", l.src); }
        let Tok::Local(n) = l.next() else { panic!() };
        Edge { blk: f.blk(n), pc: 0, moves: Box::new([]) }
    }

    pub fn code(&mut self, fi: u32) -> Rc<Code> {
        if let Some(c) = &self.funcs[fi as usize].code { return c.clone(); }
        let c = Rc::new(self.build(fi));
        self.funcs[fi as usize].code = Some(c.clone());
        c
    }

    fn build(&mut self, fi: u32) -> Code {
        let header = self.funcs[fi as usize].header;
        let body = self.funcs[fi as usize].body;
        let mut f = FnB { slots: HashMap::new(), nslots: 0, blocks: HashMap::new(), frame: 0, ins: vec![], phis: vec![], cur: 0, prods: HashMap::new() };
        // params
        let mut l = Lex::new(header);
        loop { if let Tok::Global(_) = l.next() { break; } }
        l.expect(b'(');
        let mut nparam_names = 0;
        if !l.eat(b')') {
            loop {
                if l.eat_id("...") { l.expect(b')'); break; }
                let t = self.ty(&mut l);
                self.skip_param_attrs(&mut l);
                match l.next() { Tok::Local(n) => { if n.bytes().all(|b| b.is_ascii_digit()) { nparam_names += 1; } f.slot(n, &t); } t => panic!("param {t:?} {header}") }
                if l.eat(b')') { break; }
                l.expect(b',');
            }
        }
        let nparams = f.nslots;
        // logical lines
        let mut lines: Vec<(bool, &'a str)> = vec![]; // (is_label, text)
        let base = body.as_ptr() as usize;
        let mut cont_from: Option<(usize, usize)> = None;
        for line in body.split('\n') {
            if line.is_empty() || line.starts_with(';') { continue; }
            let st = line.as_ptr() as usize - base;
            let en = st + line.len();
            if line.starts_with("  ") {
                let cont = line.starts_with("    ") || line.starts_with("  ]");
                if cont { let c = cont_from.as_mut().unwrap(); c.1 = en; }
                else {
                    if let Some((s, e)) = cont_from.take() { lines.push((false, &body[s..e])); }
                    cont_from = Some((st, en));
                }
            } else {
                if let Some((s, e)) = cont_from.take() { lines.push((false, &body[s..e])); }
                // label
                let lab = if line.starts_with('"') { let e = line[1..].find('"').unwrap(); &line[1..1 + e] } else { &line[..line.find(':').unwrap()] };
                lines.push((true, lab));
            }
        }
        if let Some((s, e)) = cont_from.take() { lines.push((false, &body[s..e])); }
        let mut blk_pc: HashMap<u32, u32> = HashMap::new();
        let implicit: &'static str = Box::leak(nparam_names.to_string().into_boxed_str());
        if lines.first().map_or(false, |x| !x.0) { let b = f.blk(implicit); blk_pc.insert(b, 0); f.cur = b; }
        let mut term_blk: Vec<(usize, u32)> = vec![];
        for (is_label, text) in lines {
            if is_label {
                let b = f.blk(text);
                f.cur = b;
                blk_pc.insert(b, f.ins.len() as u32);
                continue;
            }
            let before = f.ins.len();
            self.ins(&mut f, text);
            for k in before..f.ins.len() { term_blk.push((k, f.cur)); }
        }
        // edges
        let FnB { mut ins, phis, nslots, frame, .. } = f;
        let fix = |e: &mut Edge, from: u32| {
            e.pc = *blk_pc.get(&e.blk).expect("block");
            if let Some(ps) = phis.get(e.blk as usize) {
                let mut mv = vec![];
                for (d, n, inc) in ps {
                    let src = &inc.iter().find(|x| x.1 == from).expect("phi incoming").0;
                    for i in 0..*n { if src[i as usize] != Opd::R(d + i) { mv.push((d + i, src[i as usize])); } }
                }
                e.moves = mv.into_boxed_slice();
            }
        };
        for (k, from) in term_blk {
            match &mut ins[k] {
                Ins::Br(e) => fix(e, from),
                Ins::CondBr(b) => { fix(&mut b.1, from); fix(&mut b.2, from); }
                Ins::Switch(s) => for e in s.edges.iter_mut() { fix(e, from) },
                Ins::Call(c) => if let Some(e) = &mut c.next { fix(e, from) },
                _ => {}
            }
        }
        Code { ins, nslots, nparams, frame_size: frame, id: fi }
    }

    fn ins(&mut self, f: &mut FnB<'a>, text: &'a str) {
        let mut l = Lex::new(text);
        let l = &mut l;
        let mut res: Option<&'a str> = None;
        if let Tok::Local(n) = l.peek() { l.next(); l.expect(b'='); res = Some(n); }
        let Tok::Id(op) = l.next() else { panic!("instr {text}") };
        let op = if matches!(op, "tail" | "musttail" | "notail") { l.next(); "call" } else { op };
        match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                while let Tok::Id("nuw" | "nsw" | "exact" | "disjoint") = l.peek() { l.next(); }
                let ty = self.ty(l);
                let a = self.val(f, l, &ty);
                l.expect(b',');
                let b = self.val(f, l, &ty);
                let d = f.slot(res.unwrap(), &ty);
                let o = match op { "add" => Op::Add, "sub" => Op::Sub, "mul" => Op::Mul, "udiv" => Op::UDiv, "sdiv" => Op::SDiv, "urem" => Op::URem, "srem" => Op::SRem, "shl" => Op::Shl, "lshr" => Op::LShr, "ashr" => Op::AShr, "and" => Op::And, "or" => Op::Or, _ => Op::Xor };
                if ty == Ty::Int(256) {
                    // only products that are shifted down to 128 bits at once
                    let c = match b[0] { Opd::W(i) => Some(self.wide[i as usize].0), Opd::C(c) => Some(c as u128), _ => None };
                    match (o, a[0], b[0]) {
                        (Op::Mul, x, y) => { f.prods.insert(d, (x, y)); }
                        (Op::LShr, Opd::R(x), _) if f.prods.contains_key(&x) && matches!(c, Some(128..=255)) => { let s = c.unwrap(); let (x, y) = f.prods[&x]; f.ins.push(Ins::MulShr { d, a: x, b: y, s: s as u32 }); }
                        _ => f.ins.push(Ins::Unsupported("256-bit arithmetic")),
                    }
                    return;
                }
                let sc = ty.scalars();
                for i in 0..a.len() { f.ins.push(Ins::Bin { op: o, w: sc[i].1, d: d + i as u32, a: a[i], b: b[i] }); }
            }
            "icmp" => {
                l.eat_id("samesign");
                let Tok::Id(p) = l.next() else { panic!() };
                let p = match p { "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, _ => Pred::Sge };
                let ty = self.ty(l);
                let a = self.val(f, l, &ty);
                l.expect(b',');
                let b = self.val(f, l, &ty);
                let rt = if let Ty::Vec(n, _) = &ty { Ty::Vec(*n, Rc::new(Ty::Int(1))) } else { Ty::Int(1) };
                let d = f.slot(res.unwrap(), &rt);
                let sc = ty.scalars();
                for i in 0..a.len() { f.ins.push(Ins::Icmp { p, w: sc[i].1, d: d + i as u32, a: a[i], b: b[i] }); }
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => {
                while let Tok::Id("nneg" | "nuw" | "nsw") = l.peek() { l.next(); }
                let (t1, a) = self.tval(f, l);
                l.eat_id("to");
                let t2 = self.ty(l);
                let d = f.slot(res.unwrap(), &t2);
                let (s1, s2) = (t1.scalars(), t2.scalars());
                for i in 0..a.len() {
                    let (fw, tw) = (s1[i].1.min(128), s2[i].1.min(128));
                    if s1[i].1 > 128 { if let Opd::R(x) = a[i] { if f.prods.contains_key(&x) { f.ins.push(Ins::Unsupported("256-bit product")); continue; } } }
                    if s2[i].1 > 128 && op != "zext" { f.ins.push(Ins::Unsupported("256-bit extension")); continue; }
                    if fw == tw { f.ins.push(Ins::Mov { d: d + i as u32, a: a[i] }); continue; }
                    let k = if op == "sext" { CastK::SExt } else if fw < tw { CastK::ZExt } else { CastK::Trunc };
                    f.ins.push(Ins::Cast { k, fw, tw, d: d + i as u32, a: a[i] });
                }
            }
            "bitcast" => {
                let (t1, a) = self.tval(f, l);
                l.eat_id("to");
                let t2 = self.ty(l);
                let d = f.slot(res.unwrap(), &t2);
                let (s1, s2) = (t1.scalars(), t2.scalars());
                if s1.len() == 1 && s2.len() == 1 { f.ins.push(Ins::Mov { d, a: a[0] }); }
                else if s1.len() == s2.len() && s1.iter().zip(&s2).all(|(x, y)| x.1 == y.1) { for i in 0..a.len() { f.ins.push(Ins::Mov { d: d + i as u32, a: a[i] }); } }
                else if s2.len() == 1 {
                    f.ins.push(Ins::Pack { d, w: s2[0].1, parts: a.iter().zip(&s1).map(|(x, s)| (*x, s.1)).collect() });
                } else if s1.len() == 1 {
                    f.ins.push(Ins::Unpack { d, a: a[0], w: s1[0].1, parts: s2.iter().map(|s| s.1).collect() });
                } else {
                    f.ins.push(Ins::Repack { d, parts: a.iter().zip(&s1).map(|(x, s)| (*x, s.1)).collect(), out: s2.iter().map(|s| s.1).collect() });
                }
            }
            "select" => {
                while let Tok::Id(s) = l.peek() { if Self::is_ty_start(Tok::Id(s)) { break; } l.next(); }
                let (ct, c) = self.tval(f, l);
                l.expect(b',');
                let (t, a) = self.tval(f, l);
                l.expect(b',');
                let (_, b) = self.tval(f, l);
                let d = f.slot(res.unwrap(), &t);
                let sc = t.scalars();
                for i in 0..a.len() {
                    let cc = if let Ty::Vec(..) = ct { c[i] } else { c[0] };
                    f.ins.push(Ins::Select { d: d + i as u32, w: sc[i].1, c: cc, a: a[i], b: b[i] });
                }
            }
            "getelementptr" => {
                while let Tok::Id("inbounds" | "nuw" | "nusw") = l.peek() { l.next(); }
                if l.eat_id("inrange") { l.skip_parens(); }
                let t = self.ty(l);
                l.expect(b',');
                let (_, b) = self.tval(f, l);
                let mut off: i64 = 0;
                let mut idx = vec![];
                let mut cur = t;
                let mut first = true;
                while l.peek() == Tok::P(b',') {
                    l.next();
                    if let Tok::Meta = l.peek() { break; }
                    let (it, v) = self.tval(f, l);
                    let w = it.bits() as u16;
                    let (scale, next) = if first { (cur.size() as i64, cur.clone()) } else {
                        match &cur {
                            Ty::Struct(..) => { let Opd::C(k) = v[0] else { panic!() }; let (o, t) = cur.field_off(k as usize); off += o as i64; (0, t) }
                            Ty::Arr(_, t) | Ty::Vec(_, t) => (t.size() as i64, (**t).clone()),
                            _ => panic!("gep into {cur:?}"),
                        }
                    };
                    first = false;
                    cur = next;
                    if scale != 0 {
                        match v[0] {
                            Opd::C(k) => { let k = crate::expr::sext(k as u128, w) as i64; off = off.wrapping_add(k.wrapping_mul(scale)); }
                            o => idx.push((o, w, scale)),
                        }
                    }
                }
                let d = f.slot(res.unwrap(), &Ty::Ptr);
                if idx.is_empty() { f.ins.push(Ins::Gep0 { d, a: b[0], off }); }
                else { f.ins.push(Ins::Gep { d, a: b[0], off, idx: idx.into_boxed_slice() }); }
            }
            "load" => {
                while let Tok::Id("atomic" | "volatile") = l.peek() { l.next(); }
                let t = self.ty(l);
                l.expect(b',');
                let (_, a) = self.tval(f, l);
                let d = f.slot(res.unwrap(), &t);
                let sc = t.scalars();
                if sc.len() == 1 { f.ins.push(Ins::Load { d, a: a[0], w: sc[0].1 }); }
                else if sc.is_empty() {}
                else if matches!(&t, Ty::Vec(_, e) if matches!(**e, Ty::Int(w) if w % 8 != 0)) { f.ins.push(Ins::Bad(Box::new(text.to_string()))); }
                else { f.ins.push(Ins::LoadAgg { d, a: a[0], parts: sc.into_boxed_slice() }); }
            }
            "store" => {
                while let Tok::Id("atomic" | "volatile") = l.peek() { l.next(); }
                let (t, v) = self.tval(f, l);
                l.expect(b',');
                let (_, a) = self.tval(f, l);
                let sc = t.scalars();
                let sub = |t: &Ty| matches!(t, Ty::Vec(_, e) if matches!(**e, Ty::Int(w) if w % 8 != 0));
                if sub(&t) && sc.iter().map(|s| s.1).sum::<u16>() <= 64 {
                    // sub-byte vectors are bit-packed in memory
                    let w: u16 = sc.iter().map(|s| s.1).sum();
                    let tmp = f.nslots;
                    f.nslots += 1;
                    f.ins.push(Ins::Pack { d: tmp, w, parts: v.iter().zip(&sc).map(|(x, s)| (*x, s.1)).collect() });
                    f.ins.push(Ins::Store { a: a[0], v: Opd::R(tmp), w });
                }
                else if sub(&t) || matches!(&t, Ty::Struct(fs, _) if fs.iter().any(sub)) { f.ins.push(Ins::Bad(Box::new(text.to_string()))); }
                else if sc.len() == 1 { f.ins.push(Ins::Store { a: a[0], v: v[0], w: sc[0].1 }); }
                else if sc.is_empty() {}
                else { f.ins.push(Ins::StoreAgg { a: a[0], parts: sc.iter().zip(&v).map(|(s, v)| (s.0, s.1, *v)).collect() }); }
            }
            "alloca" => {
                l.eat_id("inalloca");
                let t = self.ty(l);
                let mut n: Option<Opd> = None;
                let mut align = t.align();
                while l.eat(b',') {
                    if l.eat_id("align") { if let Tok::Num(k) = l.next() { align = k.parse().unwrap(); } }
                    else if let Tok::Meta = l.peek() { break; }
                    else { let (_, v) = self.tval(f, l); n = Some(v[0]); }
                }
                let d = f.slot(res.unwrap(), &Ty::Ptr);
                match n {
                    None | Some(Opd::C(_)) => {
                        let k = if let Some(Opd::C(k)) = n { k } else { 1 };
                        let al = align.max(8) as u32;
                        let off = (f.frame + al - 1) / al * al;
                        f.frame = off + (t.size() * k) as u32;
                        f.ins.push(Ins::Alloca { d, off });
                    }
                    Some(o) => f.ins.push(Ins::AllocaDyn { d, size: t.size(), n: o }),
                }
            }
            "phi" => {
                while let Tok::Id(s) = l.peek() { if Self::is_ty_start(Tok::Id(s)) { break; } l.next(); }
                let t = self.ty(l);
                let mut inc = vec![];
                loop {
                    l.expect(b'[');
                    let v = self.val(f, l, &t);
                    l.expect(b',');
                    let Tok::Local(b) = l.next() else { panic!() };
                    l.expect(b']');
                    let b = f.blk(b);
                    inc.push((v, b));
                    if l.peek() == Tok::P(b',') { l.next(); if l.peek() != Tok::P(b'[') { break; } } else { break; }
                }
                let d = f.slot(res.unwrap(), &t);
                let c = f.cur as usize;
                if f.phis.len() <= c { f.phis.resize_with(c + 1, Vec::new); }
                f.phis[c].push((d, t.nslots(), inc));
            }
            "br" => {
                if l.peek() == Tok::Id("label") { let e = self.label(f, l); f.ins.push(Ins::Br(e)); }
                else {
                    let (_, c) = self.tval(f, l);
                    l.expect(b',');
                    let t = self.label(f, l);
                    l.expect(b',');
                    let e = self.label(f, l);
                    f.ins.push(Ins::CondBr(Box::new((c[0], t, e))));
                }
            }
            "switch" => {
                let (t, a) = self.tval(f, l);
                l.expect(b',');
                let d = self.label(f, l);
                l.expect(b'[');
                let mut edges = vec![d];
                let mut by_blk: HashMap<u32, u32> = HashMap::new();
                by_blk.insert(edges[0].blk, 0);
                let mut cases = vec![];
                while !l.eat(b']') {
                    let (_, v) = self.tval(f, l);
                    l.expect(b',');
                    let e = self.label(f, l);
                    let Opd::C(c) = v[0] else { panic!("wide switch") };
                    let ei = *by_blk.entry(e.blk).or_insert_with(|| { edges.push(e); edges.len() as u32 - 1 });
                    cases.push((c, ei));
                }
                cases.sort();
                f.ins.push(Ins::Switch(Box::new(SwitchI { a: a[0], w: t.bits() as u16, cases, edges, default: 0 })));
            }
            "ret" => {
                let t = self.ty(l);
                let v = if t == Ty::Void { vec![] } else { self.val(f, l, &t) };
                f.ins.push(Ins::Ret(v.into_boxed_slice()));
            }
            "unreachable" => f.ins.push(Ins::Unreachable),
            "resume" => f.ins.push(Ins::Bad(Box::new("resume".into()))),
            "landingpad" => {
                let t = self.ty(l);
                f.slot(res.unwrap(), &t);
                f.ins.push(Ins::Bad(Box::new("landingpad".into())));
            }
            "fence" => {}
            "freeze" => {
                let (t, a) = self.tval(f, l);
                let d = f.slot(res.unwrap(), &t);
                for i in 0..a.len() { f.ins.push(Ins::Mov { d: d + i as u32, a: a[i] }); }
            }
            "extractvalue" => {
                let (t, a) = self.tval(f, l);
                let (mut cur, mut k) = (t, 0u32);
                while l.peek() == Tok::P(b',') {
                    l.next();
                    let Tok::Num(n) = l.next() else { break };
                    let n: usize = n.parse().unwrap();
                    for j in 0..n { k += cur.field_off(j).1.nslots(); }
                    cur = cur.field_off(n).1;
                }
                let d = f.slot(res.unwrap(), &cur);
                for i in 0..cur.nslots() { f.ins.push(Ins::Mov { d: d + i, a: a[(k + i) as usize] }); }
            }
            "insertvalue" => {
                let (t, a) = self.tval(f, l);
                l.expect(b',');
                let (_, v) = self.tval(f, l);
                let (mut cur, mut k) = (t.clone(), 0u32);
                while l.peek() == Tok::P(b',') {
                    l.next();
                    let Tok::Num(n) = l.next() else { break };
                    let n: usize = n.parse().unwrap();
                    for j in 0..n { k += cur.field_off(j).1.nslots(); }
                    cur = cur.field_off(n).1;
                }
                let d = f.slot(res.unwrap(), &t);
                for i in 0..a.len() as u32 {
                    let src = if i >= k && i < k + v.len() as u32 { v[(i - k) as usize] } else { a[i as usize] };
                    f.ins.push(Ins::Mov { d: d + i, a: src });
                }
            }
            "extractelement" => {
                let (t, a) = self.tval(f, l);
                l.expect(b',');
                let (_, i) = self.tval(f, l);
                let Ty::Vec(_, e) = &t else { panic!() };
                let d = f.slot(res.unwrap(), e);
                match i[0] { Opd::C(k) => f.ins.push(Ins::Mov { d, a: a[k as usize] }), _ => f.ins.push(Ins::Bad(Box::new(text.to_string()))) }
            }
            "insertelement" => {
                let (t, a) = self.tval(f, l);
                l.expect(b',');
                let (_, v) = self.tval(f, l);
                l.expect(b',');
                let (_, i) = self.tval(f, l);
                let d = f.slot(res.unwrap(), &t);
                match i[0] {
                    Opd::C(k) => for j in 0..a.len() { f.ins.push(Ins::Mov { d: d + j as u32, a: if j == k as usize { v[0] } else { a[j] } }); },
                    _ => f.ins.push(Ins::Bad(Box::new(text.to_string()))),
                }
            }
            "shufflevector" => {
                let (t, a) = self.tval(f, l);
                l.expect(b',');
                let (_, b) = self.tval(f, l);
                l.expect(b',');
                let (mt, m) = self.tval(f, l);
                let Ty::Vec(_, e) = &t else { panic!() };
                let Ty::Vec(n, _) = mt else { panic!() };
                let rt = Ty::Vec(n, e.clone());
                let d = f.slot(res.unwrap(), &rt);
                for j in 0..n as usize {
                    let Opd::C(k) = m[j] else { panic!() };
                    let k = k as u32 as usize;
                    let src = if k < a.len() { a[k] } else if k - a.len() < b.len() { b[k - a.len()] } else { Opd::C(0) };
                    f.ins.push(Ins::Mov { d: d + j as u32, a: src });
                }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fneg" => {
                while let Tok::Id(s) = l.peek() { if Self::is_ty_start(Tok::Id(s)) { break; } l.next(); }
                let t = self.ty(l);
                let a = self.val(f, l, &t);
                let b = if op == "fneg" { a.clone() } else { l.expect(b','); self.val(f, l, &t) };
                let d = f.slot(res.unwrap(), &t);
                let o = match op { "fadd" => FOp::Add, "fsub" => FOp::Sub, "fmul" => FOp::Mul, "fdiv" => FOp::Div, "frem" => FOp::Rem, _ => FOp::Neg };
                let w = t.scalars();
                for i in 0..a.len() { f.ins.push(Ins::FOp { op: o, w: w[i].1, w2: w[i].1, d: d + i as u32, a: a[i], b: b[i] }); }
            }
            "fcmp" => {
                let mut p = "";
                while let Tok::Id(s) = l.peek() { if Self::is_ty_start(Tok::Id(s)) { break; } p = s; l.next(); }
                let t = self.ty(l);
                let a = self.val(f, l, &t);
                l.expect(b',');
                let b = self.val(f, l, &t);
                let d = f.slot(res.unwrap(), &Ty::Int(1));
                let o = match p { "oeq" => FOp::CmpOeq, "olt" => FOp::CmpOlt, "ole" => FOp::CmpOle, "ogt" => FOp::CmpOgt, "oge" => FOp::CmpOge, "une" => FOp::CmpUne, "one" => FOp::CmpOne, "uno" => FOp::CmpUno, "ord" => FOp::CmpOrd, "ult" => FOp::CmpUlt, "ule" => FOp::CmpUle, "ugt" => FOp::CmpUgt, "uge" => FOp::CmpUge, _ => FOp::CmpUeq };
                f.ins.push(Ins::FOp { op: o, w: t.bits() as u16, w2: 1, d, a: a[0], b: b[0] });
            }
            "sitofp" | "uitofp" | "fptosi" | "fptoui" | "fpext" | "fptrunc" => {
                while let Tok::Id(s) = l.peek() { if Self::is_ty_start(Tok::Id(s)) { break; } l.next(); }
                let (t1, a) = self.tval(f, l);
                l.eat_id("to");
                let t2 = self.ty(l);
                let d = f.slot(res.unwrap(), &t2);
                let o = match op { "sitofp" => FOp::FromS, "uitofp" => FOp::FromU, "fptosi" => FOp::ToS, "fptoui" => FOp::ToU, "fpext" => FOp::Ext, _ => FOp::Trunc };
                f.ins.push(Ins::FOp { op: o, w: t1.bits() as u16, w2: t2.bits() as u16, d, a: a[0], b: a[0] });
            }
            "atomicrmw" => {
                l.eat_id("volatile");
                let Tok::Id(o) = l.next() else { panic!() };
                let (_, a) = self.tval(f, l);
                l.expect(b',');
                let (t, v) = self.tval(f, l);
                let d = f.slot(res.unwrap(), &t);
                let o = match o { "xchg" => 0, "add" => 1, "sub" => 2, "and" => 3, "nand" => 4, "or" => 5, "xor" => 6, "max" => 7, "min" => 8, "umax" => 9, _ => 10 };
                f.ins.push(Ins::Rmw { op: o, w: t.bits() as u16, d, a: a[0], v: v[0] });
            }
            "cmpxchg" => {
                while let Tok::Id("weak" | "volatile") = l.peek() { l.next(); }
                let (_, a) = self.tval(f, l);
                l.expect(b',');
                let (t, c) = self.tval(f, l);
                l.expect(b',');
                let (_, n) = self.tval(f, l);
                let rt = Ty::Struct(Rc::new(vec![t.clone(), Ty::Int(1)]), false);
                let d = f.slot(res.unwrap(), &rt);
                f.ins.push(Ins::CmpXchg { d, a: a[0], c: c[0], n: n[0], w: t.bits() as u16 });
            }
            "call" | "invoke" => self.call(f, l, res, op == "invoke", text),
            _ => { panic!("unhandled instruction {text}") }
        }
    }

    fn call(&mut self, f: &mut FnB<'a>, l: &mut Lex<'a>, res: Option<&'a str>, invoke: bool, text: &'a str) {
        self.skip_to_ty(l);
        let mut rt = self.ty(l);
        if l.peek() == Tok::P(b'(') { l.skip_parens(); }
        if l.eat_id("addrspace") { l.skip_parens(); }
        let _ = &mut rt;
        // callee
        let mut asm = false;
        let callee = match l.next() {
            Tok::Global(g) => Ok(g),
            Tok::Local(n) => Err(Opd::R(f.slot(n, &Ty::Ptr))),
            Tok::Id("asm") => { asm = true; while !matches!(l.peek(), Tok::P(b'(')) { l.next(); } Err(Opd::C(0)) }
            Tok::Id("inttoptr") => { l.i -= 8; let mut v = vec![]; self.konst(l, &Ty::Ptr, &mut v); Err(v[0]) }
            t => panic!("callee {t:?} in {text}"),
        };
        l.expect(b'(');
        let mut args = vec![];
        let mut aw = vec![];
        if !l.eat(b')') {
            loop {
                let t = self.ty(l);
                if t == Ty::Other {
                    // metadata argument: skip
                    let mut d = 0;
                    loop { match l.peek() { Tok::P(b')') if d == 0 => break, Tok::P(b',') if d == 0 => break, Tok::P(b'(') => { d += 1; l.next(); } Tok::P(b')') => { d -= 1; l.next(); } _ => { l.next(); } } }
                } else {
                    self.skip_param_attrs(l);
                    let v = self.val(f, l, &t);
                    for (s, x) in t.scalars().iter().zip(v) { args.push(x); aw.push(s.1); }
                }
                if l.eat(b')') { break; }
                l.expect(b',');
            }
        }
        let d = match res { Some(r) => f.slot(r, &rt), None => 0 };
        let mut next = None;
        if invoke {
            loop { match l.next() { Tok::Id("to") => break, Tok::Eof => panic!("invoke {text}"), _ => {} } }
            next = Some(self.label(f, l));
        }
        if asm { f.ins.push(Ins::Asm(Box::new((d, rt.nslots(), args.into_boxed_slice())))); if let Some(e) = next { f.ins.push(Ins::Br(e)); } return; }
        if let Ok(g) = callee {
            if let Some(i) = g.strip_prefix("llvm.") {
                self.intrinsic(f, i, d, &rt, &args, &aw, text);
                if let Some(e) = next { f.ins.push(Ins::Br(e)); }
                return;
            }
        }
        let callee = match callee {
            Ok(g) => match self.gl_addr(g) { Some(a) => Callee::Direct((a >> 32) as u32 - FN_BASE), None => panic!("callee {g}") },
            Err(o) => Callee::Indirect(o),
        };
        let rw = if rt.nslots() == 1 { rt.scalars()[0].1 } else { 0 };
        f.ins.push(Ins::Call(Box::new(CallI { d, nret: rt.nslots(), rw, callee, args: args.into_boxed_slice(), aw: aw.into_boxed_slice(), next })));
    }

    fn intrinsic(&mut self, f: &mut FnB<'a>, name: &'a str, d: u32, rt: &Ty, args: &[Opd], aw: &[u16], text: &'a str) {
        let b = |f: &mut FnB<'a>, op: IOp| {
            let n = rt.nslots() as usize;
            match op {
                IOp::UaddO | IOp::UsubO | IOp::UmulO | IOp::SaddO | IOp::SsubO | IOp::SmulO => f.ins.push(Ins::IOp { op, w: aw[0], d, a: args[0], b: args[1], c: Opd::C(0) }),
                IOp::Fshl | IOp::Fshr => for i in 0..n { f.ins.push(Ins::IOp { op, w: aw[i], d: d + i as u32, a: args[i], b: args[n + i], c: args[2 * n + i] }) },
                IOp::Ctlz | IOp::Cttz | IOp::Ctpop | IOp::Bswap | IOp::Abs | IOp::Bitrev => for i in 0..n { f.ins.push(Ins::IOp { op, w: aw[i], d: d + i as u32, a: args[i], b: Opd::C(0), c: Opd::C(0) }) },
                IOp::Ucmp | IOp::Scmp => f.ins.push(Ins::IOp { op, w: aw[0], d, a: args[0], b: args[1], c: Opd::C(rt.bits()) }),
                _ => for i in 0..n { f.ins.push(Ins::IOp { op, w: aw[i], d: d + i as u32, a: args[i], b: args[n + i], c: Opd::C(0) }) },
            }
        };
        let st = |p: &str| name.starts_with(p);
        if st("lifetime.") || st("assume") || st("experimental.noalias") || st("dbg.") || st("prefetch") || st("donothing") || st("x86.sse2.pause") || st("var.annotation") || st("sideeffect") || st("pseudoprobe") { return; }
        if st("memcpy.") { f.ins.push(Ins::MemCpy { d: args[0], s: args[1], n: args[2], mv: false }); }
        else if st("memmove.") { f.ins.push(Ins::MemCpy { d: args[0], s: args[1], n: args[2], mv: true }); }
        else if st("memset.") { f.ins.push(Ins::MemSet { d: args[0], v: args[1], n: args[2] }); }
        else if st("trap") || st("ubsantrap") || st("debugtrap") { f.ins.push(Ins::Trap); }
        else if st("threadlocal.address") || st("launder.invariant") || st("strip.invariant") || st("ssa.copy") { f.ins.push(Ins::Mov { d, a: args[0] }); }
        else if st("expect.") { f.ins.push(Ins::Mov { d, a: args[0] }); }
        else if st("is.constant") { f.ins.push(Ins::Mov { d, a: Opd::C(0) }); }
        else if st("objectsize") { f.ins.push(Ins::Mov { d, a: Opd::C(!0) }); }
        else if st("umin.") { b(f, IOp::Umin) } else if st("umax.") { b(f, IOp::Umax) } else if st("smin.") { b(f, IOp::Smin) } else if st("smax.") { b(f, IOp::Smax) }
        else if st("usub.sat") { b(f, IOp::UsubSat) } else if st("uadd.sat") { b(f, IOp::UaddSat) } else if st("ssub.sat") { b(f, IOp::SsubSat) } else if st("sadd.sat") { b(f, IOp::SaddSat) }
        else if st("ucmp.") { b(f, IOp::Ucmp) } else if st("scmp.") { b(f, IOp::Scmp) }
        else if st("uadd.with") { b(f, IOp::UaddO) } else if st("usub.with") { b(f, IOp::UsubO) } else if st("umul.with") { b(f, IOp::UmulO) }
        else if st("sadd.with") { b(f, IOp::SaddO) } else if st("ssub.with") { b(f, IOp::SsubO) } else if st("smul.with") { b(f, IOp::SmulO) }
        else if st("ctlz.") { b(f, IOp::Ctlz) } else if st("cttz.") { b(f, IOp::Cttz) } else if st("ctpop.") { b(f, IOp::Ctpop) } else if st("bswap.") { b(f, IOp::Bswap) } else if st("bitreverse.") { b(f, IOp::Bitrev) }
        else if st("abs.") { b(f, IOp::Abs) } else if st("fshl.") { b(f, IOp::Fshl) } else if st("fshr.") { b(f, IOp::Fshr) }
        else if st("vector.reduce.or") || st("vector.reduce.and") || st("vector.reduce.add") || st("vector.reduce.umax") || st("vector.reduce.umin") {
            let op = if st("vector.reduce.or") { Some(Op::Or) } else if st("vector.reduce.and") { Some(Op::And) } else if st("vector.reduce.add") { Some(Op::Add) } else { None };
            let t = f.tmp(1);
            let mut acc = args[0];
            for i in 1..args.len() {
                match op {
                    Some(o) => f.ins.push(Ins::Bin { op: o, w: aw[0], d: t, a: acc, b: args[i] }),
                    None => f.ins.push(Ins::IOp { op: if st("vector.reduce.umax") { IOp::Umax } else { IOp::Umin }, w: aw[0], d: t, a: acc, b: args[i], c: Opd::C(0) }),
                }
                acc = Opd::R(t);
            }
            f.ins.push(Ins::Mov { d, a: acc });
        }
        else { f.ins.push(Ins::Bad(Box::new(format!("intrinsic {name}: {text}")))); }
    }
}
