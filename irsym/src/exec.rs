//! The symbolic interpreter.
use crate::expr::*;
use crate::ll::*;
use crate::vfs::{self, Vfs};
use crate::state::*;
use crate::z3::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Debug, Clone)]
pub struct Violation { pub kind: String, pub msg: String, pub model: Vec<(u16, u64)> }

#[derive(Debug)]
pub enum End { Ok, Infeasible, Violation(Violation), Error(String), Incomplete(String), Root }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ext {
    Unknown, Defined, Panic,
    Malloc, Calloc, Realloc, Free, PosixMemalign, Memcmp, Bcmp, Strlen, Getenv, Write, Writev, Getrandom, Syscall, Errno, Abort, Zero, Neg, ClockGettime,
    SymInt(u16), SymChoose, SymAssume, SymAssert, SymCover, SymObserve, SymConcrete, SymHarness, SymParam, SymStop,
    Open, Read, Close, Realpath, Getcwd, Strerror, Lseek, Statx, Mkdir, Opendir, Readdir, Closedir, Detect, Memchr, Sysconf, DebugPrint,
    SymFile, SymDir, SymLink, SymStdin, SymStdout,
    MemchrFn, MemrchrFn, Exit,
}

pub struct Limits { pub path_steps: u64, pub deadline: std::time::Instant, pub max_viol: usize }

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub paths: u64, pub infeasible: u64, pub incomplete: u64, pub errors: u64,
    pub forks: u64, pub branches: u64, pub steps: u64,
    pub q_witness: u64, pub q_domain: u64, pub q_repair: u64, pub q_cache: u64, pub q_z3: u64, pub q_unknown: u64,
    pub asserts: u64, pub asserts_concrete: u64, pub z3_nanos: u64, pub prunes_checked: u64, pub cut: u64, pub maxdepth: u64,
    pub concretize: u64, pub path_z3: u64,
}


pub struct Engine<'a> {
    pub m: Module<'a>,
    pub ex: Exprs,
    pub z3: Z3,
    pub exts: Vec<Ext>,
    pub gcache: HashMap<u32, Rc<Obj>>,
    pub wide: HashMap<u32, EId>,
    pub stats: Stats,
    pub work: Vec<State>,
    pub lim: Limits,
    pub harness: u32,
    pub params: Vec<u64>,
    pub stop_at_root: bool,
    pub follow: u32,
    pub qcache: HashMap<Vec<u64>, Option<Vec<(u32, u64)>>>,
    pub prune_cache: HashSet<(Set, Set)>,
    pub errno_obj: u32,
    pub entered: Vec<bool>,
    pub viols: Vec<Violation>,
    pub trace: bool,
    pub samples: Vec<(Vec<(u16, u64)>, u64)>,
    pub max_samples: usize,
    pub prof: Option<HashMap<u32, u64>>,
    pub forkprof: HashMap<(u32, u32), u64>,
    pub want_forkprof: bool,
    pub rng: u64,
    pub replay: Option<Vec<u64>>,
    pub donate: Option<Box<dyn FnMut(&mut Vec<State>)>>,
}

macro_rules! bail { ($($t:tt)*) => { return Err(End::Error(format!($($t)*))) } }
type R<T> = Result<T, End>;

fn m64(w: u16) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }
fn sx(v: u64, w: u16) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }

impl<'a> Engine<'a> {
    pub fn new(m: Module<'a>, lim: Limits, z3ms: u32) -> Engine<'a> {
        let n = m.funcs.len();
        let mut exts = vec![Ext::Unknown; n];
        for (i, f) in m.funcs.iter().enumerate() { exts[i] = classify(f.name, f.declared_only); }
        Engine {
            m, ex: Exprs::new(), z3: Z3::new(z3ms), exts, gcache: HashMap::new(), wide: HashMap::new(), stats: Stats::default(), work: vec![], lim,
            harness: 0, params: vec![], stop_at_root: false, follow: 0, qcache: HashMap::new(), prune_cache: HashSet::new(), errno_obj: 0, entered: vec![false; n],
            viols: vec![], trace: false, samples: vec![], max_samples: 0, prof: None, forkprof: HashMap::new(), want_forkprof: false, rng: 0x9e3779b97f4a7c15, donate: None, replay: None,
        }
    }

    pub fn initial(&mut self, entry: &str) -> State {
        let fi = *self.m.fn_by_name.get(entry).unwrap_or_else(|| panic!("no function {entry}"));
        let first = self.m.gl_base() + self.m.globals.len() as u32 + 1;
        let mut mem = Mem::new(first);
        self.errno_obj = mem.alloc(Obj::zeroed(8));
        let code = self.m.code(fi);
        self.entered[fi as usize] = true;
        let stack = if code.frame_size > 0 { mem.alloc(Obj::zeroed(code.frame_size as usize)) } else { 0 };
        let regs = vec![Val::I(0); code.nslots as usize];
        State {
            mem, frames: vec![], cur: Frame { code, pc: 0, regs, stack, dyns: vec![] },
            vars: vec![], doms: vec![], multi: vec![], wit: vec![], cons: vec![], nbranch: 0, conc: vec![], steps: 0, covers: 0, obs: vec![], fds: vec![None, None, None], vfs: Rc::new(Vfs::new()), out: Rc::new(vec![]), input: Rc::new((vec![], 0)),
        }
    }

    // ------------------------------------------------------------ values
    #[inline]
    pub fn e(&mut self, v: Val, w: u16) -> EId { match v { Val::I(x) => self.ex.cst(x as u128, w), Val::S(e) => e } }
    #[inline]
    pub fn v(&self, e: EId) -> Val {
        let n = self.ex.nodes[e as usize];
        if n.op == Op::Const && n.w <= 64 { Val::I(self.ex.consts[n.a as usize] as u64) } else { Val::S(e) }
    }
    fn wide_const(&mut self, i: u32) -> EId {
        if let Some(e) = self.wide.get(&i) { return *e; }
        let (v, w) = self.m.wide[i as usize];
        let e = self.ex.cst(v, w);
        self.wide.insert(i, e);
        e
    }
    #[inline]
    fn opd(&mut self, st: &State, o: Opd) -> Val {
        match o { Opd::R(i) => st.cur.regs[i as usize], Opd::C(c) => Val::I(c), Opd::W(i) => Val::S(self.wide_const(i)) }
    }

    // ------------------------------------------------------------ solver
    pub fn eval(&self, st: &State, e: EId) -> u128 {
        let wit = &st.wit;
        self.ex.eval_with(e, &|v| wit[var_ord(v)], &mut HashMap::new())
    }
    fn eval_cons_of(&self, st: &State, wit: &[u64], touched: &[u32]) -> bool {
        let mut memo = HashMap::new();
        for c in &st.cons {
            let vs = &self.ex.varsets[self.ex.vs[*c as usize] as usize];
            if vs.iter().any(|v| touched.contains(v)) {
                if self.ex.eval_with(*c, &|v| wit[var_ord(v)], &mut memo) & 1 == 0 { return false; }
            }
        }
        true
    }
    fn flatten_and(&self, e: EId, out: &mut Vec<EId>) {
        let n = self.ex.node(e);
        if n.op == Op::And && n.w == 1 { self.flatten_and(n.a, out); self.flatten_and(n.b, out); } else { out.push(e); }
    }
    fn prune_ok(&mut self, dom: Set, set: Set) {
        // discharged by the solver once per distinct (domain, condition) pair
        if self.prune_cache.insert((dom, set)) {
            let v = 0;
            let e = self.ex.in_set(v, set);
            self.stats.prunes_checked += 1;
            match self.z3.check(&self.ex, &[e], &[(v, dom)], &[]) {
                Answer::Unsat => {}
                _ => panic!("solver disagrees with a domain prune"),
            }
        }
    }
    /// Is the path condition plus `cond` satisfiable? Returns a model.
    pub fn feasible(&mut self, st: &State, cond: EId) -> Option<Vec<u64>> {
        if cond == self.ex.t { return Some(st.wit.clone()); }
        if cond == self.ex.f { return None; }
        if self.eval(st, cond) & 1 == 1 { self.stats.q_witness += 1; return Some(st.wit.clone()); }
        self.feasible_new(st, cond)
    }
    fn feasible_new(&mut self, st: &State, cond: EId) -> Option<Vec<u64>> {
        // conjunction of narrow conditions?
        let mut parts = vec![];
        self.flatten_and(cond, &mut parts);
        let mut wit = st.wit.clone();
        let mut touched: Vec<u32> = vec![];
        let mut doms: HashMap<u32, Set> = HashMap::new();
        let mut narrow = true;
        for p in &parts {
            let n = self.ex.node(*p);
            if n.op == Op::InSet {
                let o = var_ord(n.a);
                let s = self.ex.sets[n.b as usize];
                let cur = *doms.get(&n.a).unwrap_or(&st.doms[o]);
                let d = set_and(&cur, &s);
                if set_empty(&d) { self.stats.q_domain += 1; if cur == st.doms[o] { self.prune_ok(cur, s); } return None; }
                doms.insert(n.a, d);
                if !touched.contains(&n.a) { touched.push(n.a); }
            } else { narrow = false; }
        }
        for (v, d) in &doms {
            let o = var_ord(*v);
            if !set_has(d, wit[o] as usize & 255) { wit[o] = set_first(d) as u64; }
        }
        if narrow {
            if touched.iter().all(|v| !st.multi[var_ord(*v)]) { self.stats.q_domain += 1; return Some(wit); }
            if self.eval_cons_of(st, &wit, &touched) { self.stats.q_repair += 1; return Some(wit); }
            if touched.len() == 1 {
                let v = touched[0];
                let d = doms[&v];
                let mut tries = 0;
                for x in set_iter(&d) {
                    wit[var_ord(v)] = x as u64;
                    if self.eval_cons_of(st, &wit, &touched) { self.stats.q_repair += 1; return Some(wit); }
                    tries += 1;
                    if tries >= 12 { break; }
                }
            }
        }
        // slice
        let mut vars: Vec<u32> = self.ex.vars(cond).to_vec();
        let mut used = vec![false; st.cons.len()];
        let mut slice = vec![cond];
        loop {
            let mut changed = false;
            for (i, c) in st.cons.iter().enumerate() {
                if used[i] { continue; }
                let vs = self.ex.vars(*c);
                if vs.iter().any(|v| vars.contains(v)) {
                    used[i] = true; changed = true; slice.push(*c);
                    for v in vs.iter() { if !vars.contains(v) { vars.push(*v); } }
                }
            }
            if !changed { break; }
        }
        vars.sort();
        let dl: Vec<(u32, Set)> = vars.iter().filter(|v| **v & 3 == 0).map(|v| (*v, st.doms[var_ord(*v)])).collect();
        let mut key: Vec<u64> = slice.iter().map(|x| *x as u64).collect();
        key[1..].sort();
        for (v, s) in &dl { key.push(1 << 40 | *v as u64); key.extend_from_slice(s); }
        if let Some(r) = self.qcache.get(&key) {
            self.stats.q_cache += 1;
            return r.as_ref().map(|m| { let mut w = st.wit.clone(); for (v, x) in m { w[var_ord(*v)] = *x; } w });
        }
        self.stats.q_z3 += 1;
        match self.z3.check(&self.ex, &slice, &dl, &vars) {
            Answer::Unsat => { self.qcache.insert(key, None); None }
            Answer::Sat(m) => {
                let mut w = st.wit.clone();
                for (v, x) in &m { w[var_ord(*v)] = *x; }
                self.qcache.insert(key, Some(m));
                Some(w)
            }
            Answer::Unknown => { self.stats.q_unknown += 1; None }
        }
    }
    pub fn add(&mut self, st: &mut State, cond: EId) {
        let n = self.ex.node(cond);
        match n.op {
            Op::Const => {}
            Op::And => { self.add(st, n.a); self.add(st, n.b); }
            Op::InSet => { let o = var_ord(n.a); st.doms[o] = set_and(&st.doms[o], &self.ex.sets[n.b as usize]); }
            _ => {
                if !st.cons.contains(&cond) {
                    st.cons.push(cond);
                    for v in self.ex.vars(cond).iter() { st.multi[var_ord(*v)] = true; }
                }
            }
        }
    }
    fn fork_state(&mut self, st: &State) -> State {
        self.stats.forks += 1;
        if self.want_forkprof { *self.forkprof.entry((st.cur.code.id, st.cur.pc)).or_insert(0) += 1; }
        st.clone()
    }
    /// decide a symbolic condition; the other side (if feasible) is queued with `setup` applied
    fn branch(&mut self, st: &mut State, cond: EId, other: impl FnOnce(&mut Engine<'a>, &mut State, bool)) -> bool {
        if cond == self.ex.t { return true; }
        if cond == self.ex.f { return false; }
        // narrow single-variable condition decided by the domain alone
        self.stats.branches += 1;
        let taken = self.eval(st, cond) & 1 == 1;
        let neg = self.ex.not(cond);
        let (mine, theirs) = if taken { (cond, neg) } else { (neg, cond) };
        if st.nbranch >= self.follow {
            if let Some(w) = self.feasible_new(st, theirs) {
                let mut o = self.fork_state(st);
                o.wit = w;
                self.add(&mut o, theirs);
                o.nbranch += 1;
                other(self, &mut o, !taken);
                self.work.push(o);
            }
        }
        self.add(st, mine);
        st.nbranch += 1;
        taken
    }
    /// make a symbolic value concrete: one state per feasible value, each
    /// re-executing the current instruction with the value recorded in `conc`
    pub fn concretize(&mut self, st: &mut State, v: Val, w: u16) -> R<u64> {
        let e = match v { Val::I(x) => return Ok(x), Val::S(e) => e };
        if w > 64 { bail!("concretize wide"); }
        if let Some(c) = st.conc.iter().rev().find(|c| c.0 == e) { return Ok(c.1); }
        self.stats.concretize += 1;
        let x = self.eval(st, e) as u64;
        if st.nbranch >= self.follow {
            let mut ne = self.ex.t;
            let mut cur = x;
            let mut k = 0;
            loop {
                let c = self.ex.cst(cur as u128, w);
                let q = self.ex.bin(Op::Eq, e, c);
                let q = self.ex.not(q);
                ne = self.ex.bin(Op::And, ne, q);
                let Some(wn) = self.feasible(st, ne) else { break };
                let mut o = self.fork_state(st);
                o.wit = wn;
                cur = self.eval(&o, e) as u64;
                let c = self.ex.cst(cur as u128, w);
                let eq = self.ex.bin(Op::Eq, e, c);
                self.add(&mut o, eq);
                o.conc.push((e, cur));
                o.nbranch += 1;
                self.work.push(o);
                k += 1;
                if k > 4096 { return Err(End::Incomplete("concretisation of more than 4096 values".into())); }
            }
        }
        let c = self.ex.cst(x as u128, w);
        let eq = self.ex.bin(Op::Eq, e, c);
        self.add(st, eq);
        st.conc.push((e, x));
        st.nbranch += 1;
        Ok(x)
    }

    // ------------------------------------------------------------ memory
    fn obj<'s>(&mut self, st: &'s mut State, id: u32) -> R<&'s Rc<Obj>> {
        if st.mem.get(id).is_none() {
            let base = self.m.gl_base();
            if id >= base && id < base + self.m.globals.len() as u32 {
                let o = self.global(id);
                *st.mem.slot_mut(id) = Some(o);
            } else { bail!("access to invalid object {id} {}", self.where_(st)); }
        }
        Ok(st.mem.get(id).unwrap())
    }
    fn global(&mut self, id: u32) -> Rc<Obj> {
        if let Some(o) = self.gcache.get(&id) { return o.clone(); }
        let gi = id - self.m.gl_base();
        let data = self.m.global_bytes(gi);
        let o = Rc::new(Obj { data, sym: None });
        self.gcache.insert(id, o.clone());
        o
    }
    fn obj_mut<'s>(&mut self, st: &'s mut State, id: u32) -> R<&'s mut Obj> {
        self.obj(st, id)?;
        Ok(st.mem.get_mut(id).unwrap())
    }
    pub fn where_(&self, st: &State) -> String {
        let mut s = format!("in {} pc {}", demangle(self.m.funcs[st.cur.code.id as usize].name), st.cur.pc);
        for f in st.frames.iter().rev().take(12) { s += &format!(" < {}", demangle(self.m.funcs[f.code.id as usize].name)); }
        s
    }
    #[inline]
    pub fn load(&mut self, st: &mut State, addr: u64, w: u16) -> R<Val> {
        let n = (w as usize + 7) / 8;
        let (id, off) = ((addr >> 32) as u32, addr as u32 as usize);
        let o: &Rc<Obj> = match st.mem.get(id) { Some(o) => o, None => self.obj(st, id)? };
        if off + n > o.data.len() { bail!("out-of-bounds read of {n} at {off} in object of {} {}", o.data.len(), self.where_(st)); }
        if o.sym.is_none() {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                let x = u64::from_le_bytes(b);
                return Ok(Val::I(x & m64(w)));
            }
            let mut b = [0u8; 16];
            if n > 16 { bail!("wide load"); }
            b[..n].copy_from_slice(&o.data[off..off + n]);
            let x = u128::from_le_bytes(b);
            return Ok(Val::S(self.ex.cst(x, w)));
        }
        let o = o.clone();
        self.load_sym(st, &o, off, n, w)
    }
    fn narrow(&mut self, st: &State, e: EId) -> EId {
        let v = self.ex.sv(e);
        if v != NOVAR && v & 3 == 0 {
            let d = &st.doms[var_ord(v)];
            if set_count(d) == 1 {
                let t = self.ex.table(e);
                let x = t[set_first(d)];
                let w = self.ex.w(e);
                return self.ex.cst(x as u128, w);
            }
        }
        e
    }
    fn load_sym(&mut self, st: &State, o: &Obj, off: usize, n: usize, w: u16) -> R<Val> {
        let sy = o.sym.as_ref().unwrap();
        if sy[off..off + n].iter().all(|x| *x == 0) {
            if n > 16 { bail!("wide load"); }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            let x = u128::from_le_bytes(b);
            if w <= 64 { return Ok(Val::I(x as u64 & m64(w))); }
            return Ok(Val::S(self.ex.cst(x, w)));
        }
        let mut acc: Option<EId> = None;
        for k in (0..n).rev() {
            let b = if sy[off + k] == 0 { self.ex.cst(o.data[off + k] as u128, 8) } else { self.narrow(st, sy[off + k]) };
            acc = Some(match acc { None => b, Some(a) => self.ex.concat(a, b) });
        }
        let mut e = acc.unwrap();
        if self.ex.w(e) != w { e = self.ex.extract(e, 0, w); }
        Ok(self.v(e))
    }
    #[inline]
    pub fn store(&mut self, st: &mut State, addr: u64, v: Val, w: u16) -> R<()> {
        let n = (w as usize + 7) / 8;
        let (id, off) = ((addr >> 32) as u32, addr as u32 as usize);
        match v {
            Val::I(x) => {
                let o = self.obj_mut(st, id)?;
                if off + n > o.data.len() { let l = o.data.len(); bail!("out-of-bounds write of {n} at {off} in object of {l} {}", self.where_(st)); }
                let x = x & m64(w);
                if n <= 8 { o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]); } else { o.data[off..off + n].copy_from_slice(&(x as u128).to_le_bytes()[..n]); }
                if let Some(s) = &mut o.sym { s[off..off + n].fill(0); }
            }
            Val::S(e) => {
                let e = if w as usize != n * 8 { self.ex.zext(e, (n * 8) as u16) } else { e };
                if let Some(c) = self.ex.cval(e) {
                    let o = self.obj_mut(st, id)?;
                    if off + n > o.data.len() { bail!("out-of-bounds write"); }
                    o.data[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]);
                    if let Some(s) = &mut o.sym { s[off..off + n].fill(0); }
                    return Ok(());
                }
                let mut bs = [0u32; 16];
                let mut cs = [0u8; 16];
                for k in 0..n {
                    let b = self.ex.extract(e, 8 * k as u16, 8);
                    if let Some(c) = self.ex.cval(b) { cs[k] = c as u8; } else { bs[k] = b; }
                }
                let o = self.obj_mut(st, id)?;
                let len = o.data.len();
                if off + n > len { bail!("out-of-bounds write of {n} at {off} in object of {len} {}", self.where_(st)); }
                let s = o.sym.get_or_insert_with(|| vec![0; len]);
                for k in 0..n { s[off + k] = bs[k]; o.data[off + k] = cs[k]; }
            }
        }
        Ok(())
    }
    /// load through a symbolic pointer: one read-only object, offset a narrow expression -> value table
    /// An address that is a sum over several variables (a table row chosen by
    /// one, a column by another): make the term with the fewest values
    /// concrete, so that the rest can stay symbolic.
    fn split_addr(&mut self, st: &mut State, e: EId) -> R<EId> {
        if self.ex.cval(e).is_some() || self.ex.sv(e) != NOVAR { return Ok(e); }
        let mut terms = vec![];
        let mut stack = vec![e];
        while let Some(x) = stack.pop() {
            let n = self.ex.node(x);
            if n.op == Op::Add { stack.push(n.a); stack.push(n.b); } else { terms.push(x); }
        }
        let mut groups: Vec<(u32, EId)> = vec![];
        let mut konst = 0u64;
        for t in terms {
            if let Some(k) = self.ex.cval(t) { konst = konst.wrapping_add(k as u64); continue; }
            let v = self.ex.sv(t);
            if v == NOVAR { return Ok(e); }
            match groups.iter_mut().find(|g| g.0 == v) { Some(g) => g.1 = self.ex.bin(Op::Add, g.1, t), None => groups.push((v, t)) }
        }
        let mut best: Vec<(usize, EId)> = vec![];
        for (v, t) in &groups {
            let tab = self.ex.table(*t);
            let mut vals: Vec<u64> = set_iter(&st.doms[var_ord(*v)]).map(|i| tab[i]).collect();
            vals.sort(); vals.dedup();
            best.push((vals.len(), *t));
        }
        best.sort();
        let keep = best.pop().unwrap().1;
        for (_, t) in best { konst = konst.wrapping_add(self.concretize(st, Val::S(t), 64)?); }
        let k = self.ex.cst(konst as u128, 64);
        Ok(self.ex.bin(Op::Add, keep, k))
    }
    fn load_symaddr(&mut self, st: &mut State, e: EId, w: u16) -> R<Option<Val>> {
        let v = self.ex.sv(e);
        let n = (w as usize + 7) / 8;
        if v != NOVAR && w <= 64 {
            let d = st.doms[var_ord(v)];
            let t = self.ex.table(e);
            let first = t[set_first(&d)];
            let id = (first >> 32) as u32;
            if set_iter(&d).all(|i| (t[i] >> 32) as u32 == id) {
                let o = self.obj(st, id)?.clone();
                let ok = set_iter(&d).all(|i| { let off = t[i] as u32 as usize; off + n <= o.data.len() && o.sym.as_ref().map_or(true, |s| s[off..off + n].iter().all(|x| *x == 0)) });
                if ok {
                    let mut tab = vec![0u64; 256];
                    let mut def = None;
                    for i in set_iter(&d) {
                        let off = t[i] as u32 as usize;
                        let mut b = [0u8; 8];
                        b[..n].copy_from_slice(&o.data[off..off + n]);
                        tab[i] = u64::from_le_bytes(b) & m64(w);
                        def.get_or_insert(tab[i]);
                    }
                    for i in 0..256 { if !set_has(&d, i) { tab[i] = def.unwrap(); } }
                    let r = self.ex.tab(v, tab, w);
                    return Ok(Some(self.v(r)));
                }
            }
        }
        Ok(None)
    }
    pub fn read_bytes(&mut self, st: &mut State, addr: u64, n: usize) -> R<Vec<Val>> {
        if n == 0 { return Ok(vec![]); }
        let (id, off) = ((addr >> 32) as u32, addr as u32 as usize);
        let o = self.obj(st, id)?.clone();
        if off + n > o.data.len() { bail!("out-of-bounds read of {n} at {off} in object of {} {}", o.data.len(), self.where_(st)); }
        let mut out = Vec::with_capacity(n);
        for k in 0..n {
            let s = o.sym.as_ref().map_or(0, |s| s[off + k]);
            out.push(if s == 0 { Val::I(o.data[off + k] as u64) } else { let e = self.narrow(st, s); self.v(e) });
        }
        Ok(out)
    }
    fn read_concrete(&mut self, st: &mut State, addr: u64, n: usize) -> R<Vec<u8>> {
        let b = self.read_bytes(st, addr, n)?;
        Ok(b.iter().map(|v| match v { Val::I(x) => *x as u8, Val::S(e) => self.eval(st, *e) as u8 }).collect())
    }
    fn cstr(&mut self, st: &mut State, addr: u64) -> R<Vec<u8>> {
        let mut out = vec![];
        loop {
            match self.load(st, addr + out.len() as u64, 8)? { Val::I(0) => return Ok(out), Val::I(x) => out.push(x as u8), Val::S(e) => { let x = self.concretize(st, Val::S(e), 8)?; if x == 0 { return Ok(out); } out.push(x as u8); } }
        }
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: usize) -> R<()> {
        if n == 0 { return Ok(()); }
        let (sid, soff) = ((s >> 32) as u32, s as u32 as usize);
        let (did, doff) = ((d >> 32) as u32, d as u32 as usize);
        if sid == did {
            let o = self.obj_mut(st, sid)?;
            let len = o.data.len();
            if soff + n > len || doff + n > len { bail!("out-of-bounds memmove"); }
            o.data.copy_within(soff..soff + n, doff);
            if let Some(y) = &mut o.sym { y.copy_within(soff..soff + n, doff); }
            return Ok(());
        }
        let so = self.obj(st, sid)?.clone();
        if soff + n > so.data.len() { bail!("out-of-bounds copy source {soff}+{n} > {} {}", so.data.len(), self.where_(st)); }
        let o = self.obj_mut(st, did)?;
        let len = o.data.len();
        if doff + n > len { bail!("out-of-bounds copy destination {doff}+{n} > {len} {}", self.where_(st)); }
        o.data[doff..doff + n].copy_from_slice(&so.data[soff..soff + n]);
        match (&so.sym, &mut o.sym) {
            (None, None) => {}
            (None, Some(y)) => y[doff..doff + n].fill(0),
            (Some(x), y) => {
                if x[soff..soff + n].iter().all(|b| *b == 0) { if let Some(y) = y { y[doff..doff + n].fill(0); } }
                else { let y = y.get_or_insert_with(|| vec![0; len]); y[doff..doff + n].copy_from_slice(&x[soff..soff + n]); }
            }
        }
        Ok(())
    }

    pub fn model(&self, st: &State) -> Vec<(u16, u64)> { st.vars.iter().zip(&st.wit).map(|(v, x)| (var_width(*v), *x)).collect() }
    /// final full query over the whole path condition: the solver's own verdict and model
    fn solver_model(&mut self, st: &State, extra: Option<EId>) -> Option<Vec<(u16, u64)>> {
        let mut cons = st.cons.clone();
        if let Some(e) = extra { cons.push(e); }
        let dl: Vec<(u32, Set)> = st.vars.iter().filter(|v| **v & 3 == 0).map(|v| (*v, st.doms[var_ord(*v)])).collect();
        self.stats.path_z3 += 1;
        match self.z3.check(&self.ex, &cons, &dl, &st.vars) {
            Answer::Sat(m) => Some(m.iter().map(|(v, x)| (var_width(*v), *x)).collect()),
            Answer::Unsat => None,
            Answer::Unknown => { self.stats.q_unknown += 1; None }
        }
    }
    fn violation(&mut self, st: &State, kind: &str, msg: String) -> End {
        // prefer the interpreter's witness (already a model); confirm with the solver
        match self.solver_model(st, None) {
            Some(_) => End::Violation(Violation { kind: kind.into(), msg, model: self.model(st) }),
            None => End::Incomplete(format!("unconfirmed {kind}: {msg}")),
        }
    }

    // ------------------------------------------------------------ running
    pub fn run(&mut self, st: &mut State) -> End {
        match self.run_inner(st) { Ok(()) => End::Ok, Err(e) => e }
    }

    fn enter(&mut self, st: &mut State, fi: u32, args: &[Val]) -> R<()> {
        let code = match &self.m.funcs[fi as usize].code { Some(c) => c.clone(), None => self.m.code(fi) };
        self.entered[fi as usize] = true;
        let mut regs = Vec::with_capacity(code.nslots as usize);
        regs.extend_from_slice(args);
        if args.len() != code.nparams as usize { bail!("argument count {} vs {} calling {}", args.len(), code.nparams, self.m.funcs[fi as usize].name); }
        regs.resize(code.nslots as usize, Val::I(0));
        let stack = if code.frame_size > 0 { st.mem.alloc(Obj::zeroed(code.frame_size as usize)) } else { 0 };
        let f = Frame { code, pc: 0, regs, stack, dyns: vec![] };
        let old = std::mem::replace(&mut st.cur, f);
        st.frames.push(Rc::new(old));
        if st.frames.len() > 20000 { return Err(End::Incomplete("call depth over 20000".into())); }
        Ok(())
    }

    #[inline]
    fn jump(&mut self, st: &mut State, e: &Edge) {
        st.cur.pc = e.pc;
        match e.moves.len() {
            0 => {}
            1 => { let (d, o) = e.moves[0]; let v = self.opd(st, o); st.cur.regs[d as usize] = v; }
            _ => {
                let mut buf: [Val; 12] = [Val::I(0); 12];
                if e.moves.len() <= 12 {
                    for (i, (_, o)) in e.moves.iter().enumerate() { buf[i] = self.opd(st, *o); }
                    for (i, (d, _)) in e.moves.iter().enumerate() { st.cur.regs[*d as usize] = buf[i]; }
                } else {
                    let v: Vec<Val> = e.moves.iter().map(|(_, o)| self.opd(st, *o)).collect();
                    for (v, (d, _)) in v.iter().zip(e.moves.iter()) { st.cur.regs[*d as usize] = *v; }
                }
            }
        }
    }

    fn do_return(&mut self, st: &mut State, vals: &[Val]) -> R<bool> {
        if st.cur.stack != 0 { st.mem.release(st.cur.stack); }
        for d in std::mem::take(&mut st.cur.dyns) { st.mem.release(d); }
        let Some(f) = st.frames.pop() else { return Ok(false) };
        st.cur = Rc::try_unwrap(f).unwrap_or_else(|f| (*f).clone());
        let code = st.cur.code.clone();
        let Ins::Call(c) = &code.ins[st.cur.pc as usize] else { bail!("return to non-call") };
        for (i, v) in vals.iter().enumerate() { if (i as u32) < c.nret { st.cur.regs[c.d as usize + i] = *v; } }
        match &c.next { Some(e) => self.jump(st, e), None => st.cur.pc += 1 }
        Ok(true)
    }

    fn run_inner(&mut self, st: &mut State) -> R<()> {
        let mut tick: u32 = 0;
        loop {
            let code: *const Code = &*st.cur.code;
            // the Rc in st.cur keeps the code alive: module also caches it
            let code: &Code = unsafe { &*code };
            let fid = code.id;
            let mut n: u64 = 0;
            'frame: loop {
                let ins = &code.ins[st.cur.pc as usize];
                n += 1;
                tick += 1;
                if tick >= 50_000 {
                    tick = 0;
                    st.steps += n; self.stats.steps += n;
                    if let Some(p) = &mut self.prof { *p.entry(fid).or_insert(0) += n; }
                    n = 0;
                    if st.steps > self.lim.path_steps { let m = format!("path longer than {} steps {}", self.lim.path_steps, self.where_(st)); return Err(self.violation(st, "steps", m)); }
                    if let Some(mut d) = self.donate.take() { d(&mut self.work); self.donate = Some(d); }
                    if std::time::Instant::now() > self.lim.deadline { return Err(End::Incomplete("deadline".into())); }
                }
                match ins {
                    Ins::Bin { op, w, d, a, b } => {
                        let (x, y) = (self.opd(st, *a), self.opd(st, *b));
                        let r = self.bin(*op, *w, x, y)?;
                        st.cur.regs[*d as usize] = r;
                    }
                    Ins::Icmp { p, w, d, a, b } => {
                        let (x, y) = (self.opd(st, *a), self.opd(st, *b));
                        let r = self.icmp(*p, *w, x, y);
                        st.cur.regs[*d as usize] = r;
                    }
                    Ins::Unsupported(m) => bail!("{m}"),
                    Ins::MulShr { d, a, b, s } => {
                        let (x, y) = (self.opd(st, *a), self.opd(st, *b));
                        let (x, y) = (self.e(x, 128), self.e(y, 128));
                        let (Some(x), Some(y)) = (self.ex.cval(x), self.ex.cval(y)) else { bail!("a symbolic 256-bit product") };
                        // high half of the product
                        let (m, h) = ((1u128 << 64) - 1, 64);
                        let (ll, lh, hl, hh) = ((x & m) * (y & m), (x & m) * (y >> h), (x >> h) * (y & m), (x >> h) * (y >> h));
                        let mid = (ll >> h) + (lh & m) + (hl & m);
                        let hi = hh + (lh >> h) + (hl >> h) + (mid >> h);
                        let c = self.ex.cst(hi >> (s - 128), 128);
                        st.cur.regs[*d as usize] = self.v(c);
                    }
                    Ins::Cast { k, fw, tw, d, a } => {
                        let x = self.opd(st, *a);
                        let r = match x {
                            Val::I(x) if *tw <= 64 => Val::I(match k { CastK::ZExt => x, CastK::SExt => sx(x, *fw) as u64 & m64(*tw), CastK::Trunc => x & m64(*tw) }),
                            x => {
                                let e = self.e(x, *fw);
                                let r = match k { CastK::ZExt => self.ex.zext(e, *tw), CastK::SExt => self.ex.sext(e, *tw), CastK::Trunc => self.ex.extract(e, 0, *tw) };
                                self.v(r)
                            }
                        };
                        st.cur.regs[*d as usize] = r;
                    }
                    Ins::Mov { d, a } => { let x = self.opd(st, *a); st.cur.regs[*d as usize] = x; }
                    Ins::Select { d, w, c, a, b } => {
                        let r = match self.opd(st, *c) {
                            Val::I(x) => if x & 1 == 1 { self.opd(st, *a) } else { self.opd(st, *b) },
                            Val::S(c) => {
                                let c = self.narrow(st, c);
                                let (x, y) = (self.opd(st, *a), self.opd(st, *b));
                                let (x, y) = (self.e(x, *w), self.e(y, *w));
                                let r = self.ex.ite(c, x, y);
                                self.v(r)
                            }
                        };
                        st.cur.regs[*d as usize] = r;
                    }
                    Ins::Gep0 { d, a, off } => {
                        let x = self.opd(st, *a);
                        let r = match x { Val::I(x) => Val::I(x.wrapping_add(*off as u64)), Val::S(e) => { let c = self.ex.cst(*off as u64 as u128, 64); let r = self.ex.bin(Op::Add, e, c); self.v(r) } };
                        st.cur.regs[*d as usize] = r;
                    }
                    Ins::Gep { d, a, off, idx } => {
                        let mut acc = self.opd(st, *a);
                        if *off != 0 { acc = self.bin(Op::Add, 64, acc, Val::I(*off as u64))?; }
                        for (o, w, scale) in idx.iter() {
                            let v = self.opd(st, *o);
                            let t = match v {
                                Val::I(x) => Val::I((sx(x, *w)).wrapping_mul(*scale) as u64),
                                Val::S(e) => { let e = if *w < 64 { self.ex.sext(e, 64) } else { e }; let c = self.ex.cst(*scale as u64 as u128, 64); let r = self.ex.bin(Op::Mul, e, c); self.v(r) }
                            };
                            acc = self.bin(Op::Add, 64, acc, t)?;
                        }
                        st.cur.regs[*d as usize] = acc;
                    }
                    Ins::Load { d, a, w } => {
                        let r = match self.opd(st, *a) {
                            Val::I(x) => self.load(st, x, *w)?,
                            Val::S(e) => {
                                let e = self.narrow(st, e);
                                let e = self.split_addr(st, e)?;
                                match self.load_symaddr(st, e, *w)? {
                                    Some(v) => v,
                                    None => { let v = self.v(e); let x = self.concretize(st, v, 64)?; self.load(st, x, *w)? }
                                }
                            }
                        };
                        st.cur.regs[*d as usize] = r;
                    }
                    Ins::LoadAgg { d, a, parts } => {
                        let v = self.opd(st, *a);
                        let x = self.concretize(st, v, 64)?;
                        for (i, (o, w)) in parts.iter().enumerate() { let r = self.load(st, x + *o as u64, *w)?; st.cur.regs[*d as usize + i] = r; }
                    }
                    Ins::Store { a, v, w } => {
                        let p = self.opd(st, *a);
                        let x = self.concretize(st, p, 64)?;
                        let v = self.opd(st, *v);
                        self.store(st, x, v, *w)?;
                    }
                    Ins::StoreAgg { a, parts } => {
                        let p = self.opd(st, *a);
                        let x = self.concretize(st, p, 64)?;
                        for (o, w, v) in parts.iter() { let v = self.opd(st, *v); self.store(st, x + *o as u64, v, *w)?; }
                    }
                    Ins::Alloca { d, off } => st.cur.regs[*d as usize] = Val::I(((st.cur.stack as u64) << 32) + *off as u64),
                    Ins::AllocaDyn { d, size, n } => {
                        let v = self.opd(st, *n);
                        let x = self.concretize(st, v, 64)?;
                        let id = st.mem.alloc(Obj::zeroed((x * size) as usize));
                        st.cur.dyns.push(id);
                        st.cur.regs[*d as usize] = Val::I((id as u64) << 32);
                    }
                    Ins::Pack { d, w, parts } => {
                        let mut conc = *w <= 64;
                        let mut acc: u64 = 0;
                        let mut sh = 0;
                        if conc {
                            for (o, pw) in parts.iter() {
                                match self.opd(st, *o) { Val::I(x) => { acc |= x << sh; sh += *pw as u32; } Val::S(_) => { conc = false; break; } }
                            }
                        }
                        let r = if conc { Val::I(acc) } else {
                            let mut e: Option<EId> = None;
                            for (o, pw) in parts.iter().rev() { let v = self.opd(st, *o); let x = self.e(v, *pw); e = Some(match e { None => x, Some(a) => self.ex.concat(a, x) }); }
                            self.v(e.unwrap())
                        };
                        st.cur.regs[*d as usize] = r;
                    }
                    Ins::Unpack { d, a, w, parts } => {
                        let v = self.opd(st, *a);
                        let e = self.e(v, *w);
                        let mut lo = 0;
                        for (i, pw) in parts.iter().enumerate() { let x = self.ex.extract(e, lo, *pw); lo += *pw; st.cur.regs[*d as usize + i] = self.v(x); }
                    }
                    Ins::Repack { d, parts, out } => {
                        let mut e: Option<EId> = None;
                        let total: u16 = parts.iter().map(|p| p.1).sum();
                        if total > 128 { return Err(End::Error("repack over 128 bits".into())); }
                        for (o, pw) in parts.iter().rev() { let v = self.opd(st, *o); let x = self.e(v, *pw); e = Some(match e { None => x, Some(a) => self.ex.concat(a, x) }); }
                        let e = e.unwrap();
                        let mut lo = 0;
                        for (i, pw) in out.iter().enumerate() { let x = self.ex.extract(e, lo, *pw); lo += *pw; st.cur.regs[*d as usize + i] = self.v(x); }
                    }
                    Ins::VecEqMask { .. } => unreachable!(),
                    Ins::IOp { op, w, d, a, b, c } => {
                        let (x, y, z) = (self.opd(st, *a), self.opd(st, *b), self.opd(st, *c));
                        self.iop(st, *op, *w, *d, x, y, z)?;
                    }
                    Ins::FOp { op, w, w2, d, a, b } => {
                        let (x, y) = (self.opd(st, *a), self.opd(st, *b));
                        let x = self.concretize(st, x, *w)?;
                        let y = self.concretize(st, y, *w)?;
                        let r = fop(*op, *w, *w2, x, y);
                        st.cur.regs[*d as usize] = Val::I(r);
                    }
                    Ins::MemCpy { d, s, n: len, .. } => {
                        let (p, q, k) = (self.opd(st, *d), self.opd(st, *s), self.opd(st, *len));
                        let k = self.concretize(st, k, 64)?;
                        let p = self.concretize(st, p, 64)?;
                        let q = self.concretize(st, q, 64)?;
                        self.copy(st, p, q, k as usize)?;
                    }
                    Ins::MemSet { d, v, n: len } => {
                        let (p, v, k) = (self.opd(st, *d), self.opd(st, *v), self.opd(st, *len));
                        let k = self.concretize(st, k, 64)? as usize;
                        let p = self.concretize(st, p, 64)?;
                        if k > 0 {
                            if let Val::I(x) = v {
                                let o = self.obj_mut(st, (p >> 32) as u32)?;
                                let off = p as u32 as usize;
                                if off + k > o.data.len() { return Err(End::Error("memset out of bounds".into())); }
                                o.data[off..off + k].fill(x as u8);
                                if let Some(s) = &mut o.sym { s[off..off + k].fill(0); }
                            } else { for i in 0..k { self.store(st, p + i as u64, v, 8)?; } }
                        }
                    }
                    Ins::Rmw { op, w, d, a, v } => {
                        let p = self.opd(st, *a);
                        let p = self.concretize(st, p, 64)?;
                        let v = self.opd(st, *v);
                        let old = self.load(st, p, *w)?;
                        let new = match op { 0 => v, 1 => self.bin(Op::Add, *w, old, v)?, 2 => self.bin(Op::Sub, *w, old, v)?, 3 => self.bin(Op::And, *w, old, v)?, 5 => self.bin(Op::Or, *w, old, v)?, 6 => self.bin(Op::Xor, *w, old, v)?, _ => return Err(End::Error("rmw op".into())) };
                        self.store(st, p, new, *w)?;
                        st.cur.regs[*d as usize] = old;
                    }
                    Ins::CmpXchg { d, a, c, n: new, w } => {
                        let p = self.opd(st, *a);
                        let p = self.concretize(st, p, 64)?;
                        let old = self.load(st, p, *w)?;
                        let c = self.opd(st, *c);
                        let old = Val::I(self.concretize(st, old, *w)?);
                        let c = Val::I(self.concretize(st, c, *w)?);
                        let ok = old == c;
                        if ok { let v = self.opd(st, *new); self.store(st, p, v, *w)?; }
                        st.cur.regs[*d as usize] = old;
                        st.cur.regs[*d as usize + 1] = Val::I(ok as u64);
                    }
                    Ins::Br(e) => { self.jump(st, e); continue 'frame; }
                    Ins::CondBr(b) => {
                        let t = match self.opd(st, b.0) {
                            Val::I(x) => x & 1 == 1,
                            Val::S(c) => {
                                let b2: &(Opd, Edge, Edge) = b;
                                self.branch(st, c, |me, o, taken| { let e = if taken { &b2.1 } else { &b2.2 }; me.jump(o, e); })
                            }
                        };
                        self.jump(st, if t { &b.1 } else { &b.2 });
                        continue 'frame;
                    }
                    Ins::Switch(s) => {
                        let v = self.opd(st, s.a);
                        let k = match v {
                            Val::I(x) => match s.cases.binary_search_by_key(&x, |c| c.0) { Ok(i) => s.cases[i].1, Err(_) => 0 },
                            Val::S(e) => { let e = self.narrow(st, e); match self.v(e) { Val::I(x) => match s.cases.binary_search_by_key(&x, |c| c.0) { Ok(i) => s.cases[i].1, Err(_) => 0 }, Val::S(e) => self.sym_switch(st, s, e) } }
                        };
                        self.jump(st, &s.edges[k as usize]);
                        continue 'frame;
                    }
                    Ins::Ret(v) => {
                        let vals: Vec<Val> = v.iter().map(|o| self.opd(st, *o)).collect();
                        st.steps += n; self.stats.steps += n;
                        if let Some(p) = &mut self.prof { *p.entry(fid).or_insert(0) += n; }
                        if !self.do_return(st, &vals)? { return Ok(()); }
                        break 'frame;
                    }
                    Ins::Call(c) => {
                        let fi = match &c.callee {
                            Callee::Direct(f) => *f,
                            Callee::Indirect(o) => {
                                let v = self.opd(st, *o);
                                let p = self.concretize(st, v, 64)?;
                                let id = (p >> 32) as u32;
                                if p as u32 != 0 || id < FN_BASE || id >= self.m.gl_base() { return Err(End::Error(format!("call through bad pointer {p:#x} {}", self.where_(st)))); }
                                id - FN_BASE
                            }
                        };
                        let mut argbuf = [Val::I(0); 16];
                        let na = c.args.len();
                        let argv: Vec<Val>;
                        let args: &[Val] = if na <= 16 { for (i, o) in c.args.iter().enumerate() { argbuf[i] = self.opd(st, *o); } &argbuf[..na] } else { argv = c.args.iter().map(|o| self.opd(st, *o)).collect(); &argv };
                        if self.exts[fi as usize] == Ext::Defined {
                            st.steps += n; self.stats.steps += n;
                            if let Some(p) = &mut self.prof { *p.entry(fid).or_insert(0) += n; }
                            self.enter(st, fi, args)?;
                            break 'frame;
                        }
                        let args = args.to_vec();
                        let r = self.external(st, fi, &args, c)?;
                        if self.exts[fi as usize] == Ext::Exit {
                            st.steps += n; self.stats.steps += n;
                            break 'frame;
                        }
                        if let Some(v) = r { if c.nret > 0 { st.cur.regs[c.d as usize] = v; } }
                        match &c.next { Some(e) => { self.jump(st, e); continue 'frame; } None => {} }
                    }
                    Ins::Asm(b) => {
                        for i in 0..b.1 { st.cur.regs[(b.0 + i) as usize] = Val::I(0); }
                    }
                    Ins::Unreachable => return Err(End::Error(format!("reached unreachable {}", self.where_(st)))),
                    Ins::Trap => { let msg = format!("trap {}", self.where_(st)); return Err(self.violation(st, "panic", msg)); }
                    Ins::Bad(s) => return Err(End::Error(format!("unsupported: {s} {}", self.where_(st)))),
                    Ins::Nop => {}
                }
                st.cur.pc += 1;
            }
        }
    }

    fn sym_switch(&mut self, st: &mut State, s: &SwitchI, e: EId) -> u32 {
        self.stats.branches += 1;
        // condition per edge
        let mut conds: Vec<EId> = vec![self.ex.f; s.edges.len()];
        let v = self.ex.sv(e);
        if v != NOVAR {
            let t = self.ex.table(e);
            let mut sets = vec![[0u64; 4]; s.edges.len()];
            for i in 0..256 {
                let k = match s.cases.binary_search_by_key(&t[i], |c| c.0) { Ok(j) => s.cases[j].1, Err(_) => 0 } as usize;
                sets[k][i >> 6] |= 1 << (i & 63);
            }
            for k in 0..sets.len() { conds[k] = self.ex.in_set(v, sets[k]); }
        } else {
            for (c, k) in &s.cases {
                let c = self.ex.cst(*c as u128, s.w);
                let q = self.ex.bin(Op::Eq, e, c);
                conds[*k as usize] = self.ex.bin(Op::Or, conds[*k as usize], q);
            }
            let mut def = self.ex.t;
            for (c, k) in &s.cases {
                if *k == 0 { continue; }
                let c = self.ex.cst(*c as u128, s.w);
                let q = self.ex.bin(Op::Eq, e, c);
                let q = self.ex.not(q);
                def = self.ex.bin(Op::And, def, q);
            }
            conds[0] = def;
        }
        let x = self.eval(st, e) as u64;
        let mine = match s.cases.binary_search_by_key(&x, |c| c.0) { Ok(i) => s.cases[i].1, Err(_) => 0 };
        if st.nbranch >= self.follow {
            for k in 0..conds.len() {
                if k as u32 == mine || conds[k] == self.ex.f { continue; }
                if let Some(w) = self.feasible_new(st, conds[k]) {
                    let mut o = self.fork_state(st);
                    o.wit = w;
                    self.add(&mut o, conds[k]);
                    o.nbranch += 1;
                    self.jump(&mut o, &s.edges[k]);
                    self.work.push(o);
                }
            }
        }
        self.add(st, conds[mine as usize]);
        st.nbranch += 1;
        mine
    }

    #[inline]
    fn bin(&mut self, op: Op, w: u16, x: Val, y: Val) -> R<Val> {
        if let (Val::I(x), Val::I(y)) = (x, y) {
            if w <= 64 {
                let m = m64(w);
                return Ok(Val::I(match op {
                    Op::Add => x.wrapping_add(y) & m, Op::Sub => x.wrapping_sub(y) & m, Op::Mul => x.wrapping_mul(y) & m,
                    Op::And => x & y, Op::Or => x | y, Op::Xor => x ^ y,
                    Op::Shl => if y >= w as u64 { 0 } else { (x << y) & m },
                    Op::LShr => if y >= w as u64 { 0 } else { x >> y },
                    Op::AShr => (sx(x, w) >> y.min(63)) as u64 & m,
                    Op::UDiv | Op::URem | Op::SDiv | Op::SRem => { if y == 0 { bail!("division by zero"); } apply(op, w, w, x as u128, y as u128) as u64 }
                    _ => unreachable!(),
                }));
            }
        }
        let (a, b) = (self.e(x, w), self.e(y, w));
        let r = self.ex.bin(op, a, b);
        Ok(self.v(r))
    }
    #[inline]
    fn icmp(&mut self, p: Pred, w: u16, x: Val, y: Val) -> Val {
        if let (Val::I(x), Val::I(y)) = (x, y) {
            let r = match p {
                Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Ugt => x > y, Pred::Uge => x >= y,
                Pred::Slt => sx(x, w) < sx(y, w), Pred::Sle => sx(x, w) <= sx(y, w), Pred::Sgt => sx(x, w) > sx(y, w), Pred::Sge => sx(x, w) >= sx(y, w),
            };
            return Val::I(r as u64);
        }
        let (a, b) = (self.e(x, w), self.e(y, w));
        let r = match p {
            Pred::Eq => self.ex.bin(Op::Eq, a, b),
            Pred::Ne => { let r = self.ex.bin(Op::Eq, a, b); self.ex.not(r) }
            Pred::Ult => self.ex.bin(Op::Ult, a, b), Pred::Ule => self.ex.bin(Op::Ule, a, b),
            Pred::Ugt => self.ex.bin(Op::Ult, b, a), Pred::Uge => self.ex.bin(Op::Ule, b, a),
            Pred::Slt => self.ex.bin(Op::Slt, a, b), Pred::Sle => self.ex.bin(Op::Sle, a, b),
            Pred::Sgt => self.ex.bin(Op::Slt, b, a), Pred::Sge => self.ex.bin(Op::Sle, b, a),
        };
        self.v(r)
    }
    fn iop(&mut self, st: &mut State, op: IOp, w: u16, d: u32, x: Val, y: Val, z: Val) -> R<()> {
        let d = d as usize;
        if let (Val::I(a), Val::I(b), Val::I(c)) = (x, y, z) {
            if w <= 64 {
                let m = m64(w);
                let (sa, sb) = (sx(a, w), sx(b, w));
                let (smin, smax) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                let r = match op {
                    IOp::Umin => a.min(b), IOp::Umax => a.max(b),
                    IOp::Smin => sa.min(sb) as u64 & m, IOp::Smax => sa.max(sb) as u64 & m,
                    IOp::UsubSat => a.saturating_sub(b), IOp::UaddSat => { let s = a as u128 + b as u128; s.min(m as u128) as u64 }
                    IOp::SaddSat => (sa as i128 + sb as i128).clamp(smin, smax) as u64 & m,
                    IOp::SsubSat => (sa as i128 - sb as i128).clamp(smin, smax) as u64 & m,
                    IOp::Ucmp => (a.cmp(&b) as i64 as u64) & m64(c as u16),
                    IOp::Scmp => (sa.cmp(&sb) as i64 as u64) & m64(c as u16),
                    IOp::UaddO => { let s = a as u128 + b as u128; st.cur.regs[d + 1] = Val::I((s > m as u128) as u64); s as u64 & m }
                    IOp::UsubO => { st.cur.regs[d + 1] = Val::I((a < b) as u64); a.wrapping_sub(b) & m }
                    IOp::UmulO => { let s = a as u128 * b as u128; st.cur.regs[d + 1] = Val::I((s > m as u128) as u64); s as u64 & m }
                    IOp::SaddO => { let s = sa as i128 + sb as i128; st.cur.regs[d + 1] = Val::I((s < smin || s > smax) as u64); s as u64 & m }
                    IOp::SsubO => { let s = sa as i128 - sb as i128; st.cur.regs[d + 1] = Val::I((s < smin || s > smax) as u64); s as u64 & m }
                    IOp::SmulO => { let s = sa as i128 * sb as i128; st.cur.regs[d + 1] = Val::I((s < smin || s > smax) as u64); s as u64 & m }
                    IOp::Ctlz => if a == 0 { w as u64 } else { (a.leading_zeros() - (64 - w as u32)) as u64 },
                    IOp::Cttz => if a == 0 { w as u64 } else { a.trailing_zeros() as u64 },
                    IOp::Ctpop => a.count_ones() as u64,
                    IOp::Bswap => a.swap_bytes() >> (64 - w),
                    IOp::Bitrev => a.reverse_bits() >> (64 - w),
                    IOp::Abs => (sa.wrapping_abs()) as u64 & m,
                    IOp::Fshl => { let k = (c % w as u64) as u32; if k == 0 { a } else { ((a << k) | (b >> (w as u32 - k))) & m } }
                    IOp::Fshr => { let k = (c % w as u64) as u32; if k == 0 { b } else { ((b >> k) | (a << (w as u32 - k))) & m } }
                };
                st.cur.regs[d] = Val::I(r);
                return Ok(());
            }
        }
        let a = self.e(x, w);
        let r = match op {
            IOp::Umin | IOp::Umax | IOp::Smin | IOp::Smax => {
                let b = self.e(y, w);
                let lt = if matches!(op, IOp::Umin | IOp::Umax) { self.ex.bin(Op::Ult, a, b) } else { self.ex.bin(Op::Slt, a, b) };
                if matches!(op, IOp::Umin | IOp::Smin) { self.ex.ite(lt, a, b) } else { self.ex.ite(lt, b, a) }
            }
            IOp::UsubSat => { let b = self.e(y, w); let lt = self.ex.bin(Op::Ult, a, b); let s = self.ex.bin(Op::Sub, a, b); let z = self.ex.cst(0, w); self.ex.ite(lt, z, s) }
            IOp::UaddSat => { let b = self.e(y, w); let s = self.ex.bin(Op::Add, a, b); let o = self.ex.bin(Op::Ult, s, a); let mx = self.ex.cst(mask(w), w); self.ex.ite(o, mx, s) }
            IOp::Ucmp | IOp::Scmp => {
                let b = self.e(y, w);
                let Val::I(rw) = z else { bail!("cmp") };
                let k = if op == IOp::Ucmp { Op::Ult } else { Op::Slt };
                let (lt, gt) = (self.ex.bin(k, a, b), self.ex.bin(k, b, a));
                let rw = rw as u16;
                let (m1, p1, z0) = (self.ex.cst(mask(rw), rw), self.ex.cst(1, rw), self.ex.cst(0, rw));
                let t = self.ex.ite(gt, p1, z0);
                self.ex.ite(lt, m1, t)
            }
            IOp::UaddO | IOp::UsubO | IOp::UmulO | IOp::SaddO | IOp::SsubO | IOp::SmulO => {
                let b = self.e(y, w);
                let (k, signed) = match op { IOp::UaddO => (Op::Add, false), IOp::UsubO => (Op::Sub, false), IOp::UmulO => (Op::Mul, false), IOp::SaddO => (Op::Add, true), IOp::SsubO => (Op::Sub, true), _ => (Op::Mul, true) };
                let r = self.ex.bin(k, a, b);
                let o = match op {
                    IOp::UaddO => self.ex.bin(Op::Ult, r, a),
                    IOp::UsubO => self.ex.bin(Op::Ult, a, b),
                    _ => {
                        let w2 = if k == Op::Mul { w * 2 } else { w + 1 };
                        let (a2, b2) = if signed { (self.ex.sext(a, w2), self.ex.sext(b, w2)) } else { (self.ex.zext(a, w2), self.ex.zext(b, w2)) };
                        let r2 = self.ex.bin(k, a2, b2);
                        let rr = if signed { self.ex.sext(r, w2) } else { self.ex.zext(r, w2) };
                        let q = self.ex.bin(Op::Eq, r2, rr);
                        self.ex.not(q)
                    }
                };
                st.cur.regs[d + 1] = self.v(o);
                r
            }
            IOp::Ctlz | IOp::Cttz => {
                let mut acc = self.ex.cst(w as u128, w);
                let order: Vec<u16> = if op == IOp::Ctlz { (0..w).collect() } else { (0..w).rev().collect() };
                for i in order {
                    let b = self.ex.extract(a, i, 1);
                    let n = if op == IOp::Ctlz { w - 1 - i } else { i };
                    let c = self.ex.cst(n as u128, w);
                    acc = self.ex.ite(b, c, acc);
                }
                acc
            }
            IOp::Ctpop => {
                let mut acc = self.ex.cst(0, w);
                for i in 0..w { let b = self.ex.extract(a, i, 1); let z = self.ex.zext(b, w); acc = self.ex.bin(Op::Add, acc, z); }
                acc
            }
            IOp::Bswap => {
                let mut acc: Option<EId> = None;
                for i in 0..w / 8 { let b = self.ex.extract(a, i * 8, 8); acc = Some(match acc { None => b, Some(p) => self.ex.concat(p, b) }); }
                acc.unwrap()
            }
            IOp::Abs => { let z = self.ex.cst(0, w); let n = self.ex.bin(Op::Sub, z, a); let lt = self.ex.bin(Op::Slt, a, z); self.ex.ite(lt, n, a) }
            IOp::Fshl | IOp::Fshr => {
                let Val::I(k) = z else { bail!("symbolic funnel shift") };
                let b = self.e(y, w);
                let k = (k % w as u64) as u16;
                let k = if op == IOp::Fshl { k } else { (w - k) % w };
                if k == 0 { if op == IOp::Fshl { a } else { b } } else {
                    let h = self.ex.extract(a, 0, w - k);
                    let l = self.ex.extract(b, w - k, k);
                    self.ex.concat(h, l)
                }
            }
            _ => bail!("symbolic {op:?}"),
        };
        st.cur.regs[d] = self.v(r);
        Ok(())
    }

    fn new_var(&mut self, st: &mut State, w: u16) -> EId {
        let ord = st.vars.len() as u32;
        let k = match w { 8 => 0, 16 => 1, 32 => 2, _ => 3 };
        let id = ord * 4 + k;
        st.vars.push(id);
        st.doms.push(FULL);
        st.multi.push(k != 0);
        let x = self.replay.as_ref().and_then(|r| r.get(ord as usize)).copied().unwrap_or(0);
        st.wit.push(x);
        self.ex.var(id)
    }

    fn external(&mut self, st: &mut State, fi: u32, args: &[Val], c: &CallI) -> R<Option<Val>> {
        let x = self.exts[fi as usize];
        if self.stop_at_root && matches!(x, Ext::SymInt(_) | Ext::SymChoose) { return Err(End::Root); }
        macro_rules! conc { ($i:expr) => { self.concretize(st, args[$i], c.aw[$i])? } }
        Ok(match x {
            Ext::Malloc => { let n = conc!(0); self.alloc(st, n)? }
            Ext::Calloc => { let a = conc!(0); let n = conc!(1); self.alloc(st, n * a)? }
            Ext::PosixMemalign => {
                let p = conc!(0); let n = conc!(2);
                let v = self.alloc(st, n)?.unwrap();
                self.store(st, p, v, 64)?;
                Some(Val::I(0))
            }
            Ext::Realloc => {
                let p = conc!(0); let n = conc!(1);
                if p == 0 { return self.alloc(st, n); }
                let id = (p >> 32) as u32;
                let o = self.obj_mut(st, id)?;
                // fresh identity is not needed: old pointers are dead after realloc
                o.data.resize(n as usize, 0);
                if let Some(s) = &mut o.sym { s.resize(n as usize, 0); }
                Some(Val::I(p))
            }
            Ext::Free => { let p = conc!(0); if p != 0 { if p as u32 != 0 { bail!("free of interior pointer"); } st.mem.release((p >> 32) as u32); } None }
            Ext::Memcmp | Ext::Bcmp => {
                let n = conc!(2) as usize;
                let p = conc!(0); let q = conc!(1);
                if n == 0 { return Ok(Some(Val::I(0))); }
                let a = self.read_bytes(st, p, n)?;
                let b = self.read_bytes(st, q, n)?;
                if a.iter().zip(&b).all(|(x, y)| matches!((x, y), (Val::I(_), Val::I(_)))) {
                    let mut r = 0i32;
                    for (x, y) in a.iter().zip(&b) { if let (Val::I(x), Val::I(y)) = (x, y) { if x != y { r = if x < y { -1 } else { 1 }; break; } } }
                    return Ok(Some(Val::I(r as u32 as u64)));
                }
                if x == Ext::Bcmp {
                    let mut eq = self.ex.t;
                    for (x, y) in a.iter().zip(&b) {
                        let (x, y) = (self.e(*x, 8), self.e(*y, 8));
                        let q = self.ex.bin(Op::Eq, x, y);
                        eq = self.ex.bin(Op::And, eq, q);
                        if eq == self.ex.f { break; }
                    }
                    let (z, o) = (self.ex.cst(0, 32), self.ex.cst(1, 32));
                    let r = self.ex.ite(eq, z, o);
                    Some(self.v(r))
                } else {
                    let mut acc = self.ex.cst(0, 32);
                    for (x, y) in a.iter().zip(&b).rev() {
                        let (x, y) = (self.e(*x, 8), self.e(*y, 8));
                        let lt = self.ex.bin(Op::Ult, x, y);
                        let eq = self.ex.bin(Op::Eq, x, y);
                        let (m1, p1) = (self.ex.cst(0xffffffff, 32), self.ex.cst(1, 32));
                        let t = self.ex.ite(lt, m1, p1);
                        acc = self.ex.ite(eq, acc, t);
                    }
                    Some(self.v(acc))
                }
            }
            Ext::Strlen => { let p = conc!(0); let s = self.cstr(st, p)?; Some(Val::I(s.len() as u64)) }
            Ext::Getenv => Some(Val::I(0)),
            Ext::Write => {
                let fd = conc!(0); let p = conc!(1); let n = conc!(2);
                let b = self.read_bytes(st, p, n as usize)?;
                if self.trace && fd <= 2 { let b = self.read_concrete(st, p, n as usize)?; eprint!("{}", String::from_utf8_lossy(&b)); }
                self.write_fd(st, fd, b, c)?
            }
            Ext::Writev => {
                let fd = conc!(0); let p = conc!(1); let k = conc!(2);
                let mut all = vec![];
                for i in 0..k {
                    let n = self.load(st, p + 16 * i + 8, 64)?; let n = self.concretize(st, n, 64)?;
                    let q = self.load(st, p + 16 * i, 64)?; let q = self.concretize(st, q, 64)?;
                    all.extend(self.read_bytes(st, q, n as usize)?);
                }
                self.write_fd(st, fd, all, c)?
            }
            Ext::Open => {
                let p = conc!(0); let flags = conc!(1);
                let path = self.path(st, p)?;
                let r = (|| {
                    let abs = st.vfs.resolve(&path, true, flags & 0o100 != 0)?;
                    let node = st.vfs.nodes.get(&abs).map(|n| n.0.clone());
                    if node.is_some() && flags & 0o300 == 0o300 { return Err(vfs::EEXIST); }
                    let dir = matches!(node, Some(vfs::Node::Dir));
                    if dir && flags & 3 != 0 { return Err(vfs::EISDIR); }
                    if node.is_none() || (flags & 0o1000 != 0 && flags & 3 != 0) {
                        let v = Rc::make_mut(&mut st.vfs);
                        v.now += 1;
                        let now = v.now;
                        v.nodes.insert(abs.clone(), (vfs::Node::File(Rc::new(vec![])), now));
                    }
                    let pos = match st.vfs.nodes.get(&abs) { Some((vfs::Node::File(d), _)) if flags & 0o2000 != 0 => d.len() as u64, _ => 0 };
                    Ok(vfs::Fd { path: abs, pos, dir })
                })();
                match r {
                    Ok(fd) => { st.fds.push(Some(fd)); Some(Val::I(st.fds.len() as u64 - 1)) }
                    Err(e) => { self.set_errno(st, e)?; Some(Val::I(m64(c.rw.max(1)))) }
                }
            }
            Ext::Read => {
                let fd = conc!(0); let p = conc!(1); let n = conc!(2) as usize;
                if fd == 0 {
                    let at = st.input.1;
                    let b: Vec<Val> = st.input.0[at..].iter().take(n).cloned().collect();
                    for (i, v) in b.iter().enumerate() { self.store(st, p + i as u64, *v, 8)?; }
                    Rc::make_mut(&mut st.input).1 = at + b.len();
                    return Ok(Some(Val::I(b.len() as u64)));
                }
                let Some(Some(f)) = st.fds.get(fd as usize).cloned() else { self.set_errno(st, vfs::EBADF)?; return Ok(Some(Val::I(m64(c.rw)))) };
                if f.dir { self.set_errno(st, vfs::EISDIR)?; return Ok(Some(Val::I(m64(c.rw)))) }
                let Some((vfs::Node::File(d), _)) = st.vfs.nodes.get(&f.path).cloned() else { bail!("read of a removed file") };
                let k = n.min(d.len().saturating_sub(f.pos as usize));
                for i in 0..k { self.store(st, p + i as u64, d[f.pos as usize + i], 8)?; }
                st.fds[fd as usize].as_mut().unwrap().pos += k as u64;
                Some(Val::I(k as u64))
            }
            Ext::Close => { let fd = conc!(0) as usize; if fd < st.fds.len() { st.fds[fd] = None; } Some(Val::I(0)) }
            Ext::Lseek => {
                let fd = conc!(0) as usize; let off = conc!(1); let wh = conc!(2);
                let Some(Some(f)) = st.fds.get(fd).cloned() else { self.set_errno(st, vfs::EBADF)?; return Ok(Some(Val::I(m64(c.rw)))) };
                let len = match st.vfs.nodes.get(&f.path) { Some((vfs::Node::File(d), _)) => d.len() as u64, _ => 0 };
                let pos = match wh { 0 => off, 1 => f.pos.wrapping_add(off), _ => len.wrapping_add(off) };
                st.fds[fd].as_mut().unwrap().pos = pos;
                Some(Val::I(pos))
            }
            Ext::Statx => {
                let fd = conc!(0); let p = conc!(1); let flags = conc!(2); let buf = conc!(4);
                if p == 0 || buf == 0 { self.set_errno(st, 14)?; return Ok(Some(Val::I(m64(c.rw)))) }
                let path = self.path(st, p)?;
                let r = if path.is_empty() && flags & 0x1000 != 0 {
                    match st.fds.get(fd as u32 as usize) { Some(Some(f)) => Ok(f.path.clone()), _ => Err(vfs::EBADF) }
                } else { st.vfs.resolve(&path, flags & 0x100 == 0, false) };
                match r {
                    Err(e) => { self.set_errno(st, e)?; Some(Val::I(m64(c.rw))) }
                    Ok(abs) => {
                        let (node, time) = st.vfs.nodes[&abs].clone();
                        for i in 0..32 { self.store(st, buf + 8 * i, Val::I(0), 64)?; }
                        let (mode, size) = match &node { vfs::Node::Dir => (0o40755, 0), vfs::Node::File(d) => (0o100644, d.len()), vfs::Node::Link(t) => (0o120777, t.len()) };
                        let ino = st.vfs.nodes.keys().position(|k| *k == abs).unwrap() as u64 + 1;
                        self.store(st, buf, Val::I(0xfff), 32)?;
                        self.store(st, buf + 16, Val::I(1), 32)?;
                        self.store(st, buf + 28, Val::I(mode), 16)?;
                        self.store(st, buf + 32, Val::I(ino), 64)?;
                        self.store(st, buf + 40, Val::I(size as u64), 64)?;
                        for at in [64, 80, 96, 112] { self.store(st, buf + at, Val::I(time), 64)?; }
                        Some(Val::I(0))
                    }
                }
            }
            Ext::Realpath => {
                let p = conc!(0); let out = conc!(1);
                if out != 0 { bail!("realpath into a buffer"); }
                let path = self.path(st, p)?;
                match st.vfs.resolve(&path, true, false) {
                    Err(e) => { self.set_errno(st, e)?; Some(Val::I(0)) }
                    Ok(abs) => {
                        let abs = if abs.is_empty() { "/".to_string() } else { abs };
                        let Some(Val::I(q)) = self.alloc(st, abs.len() as u64 + 1)? else { unreachable!() };
                        for (i, b) in abs.bytes().enumerate() { self.store(st, q + i as u64, Val::I(b as u64), 8)?; }
                        Some(Val::I(q))
                    }
                }
            }
            Ext::Getcwd => {
                let p = conc!(0); let n = conc!(1);
                if n as usize <= vfs::CWD.len() { self.set_errno(st, 34)?; return Ok(Some(Val::I(0))) }
                for (i, b) in vfs::CWD.bytes().chain([0]).enumerate() { self.store(st, p + i as u64, Val::I(b as u64), 8)?; }
                Some(Val::I(p))
            }
            Ext::Strerror => {
                let e = conc!(0); let p = conc!(1); let n = conc!(2);
                let msg = std::io::Error::from_raw_os_error(e as i32).to_string();
                let msg = msg.rsplit_once(" (os error").map_or(&msg[..], |m| m.0);
                for (i, b) in msg.bytes().take(n as usize - 1).chain([0]).enumerate() { self.store(st, p + i as u64, Val::I(b as u64), 8)?; }
                Some(Val::I(0))
            }
            Ext::Mkdir => {
                let p = conc!(0);
                let path = self.path(st, p)?;
                let e = match st.vfs.resolve(&path, false, true) {
                    Err(e) => e,
                    Ok(abs) if st.vfs.nodes.contains_key(&abs) => vfs::EEXIST,
                    Ok(abs) => { Rc::make_mut(&mut st.vfs).nodes.insert(abs, (vfs::Node::Dir, 0)); 0 }
                };
                if e != 0 { self.set_errno(st, e)?; Some(Val::I(m64(c.rw))) } else { Some(Val::I(0)) }
            }
            // a directory stream is an object with the position, the number of
            // entries and the entries
            Ext::Opendir => {
                let p = conc!(0);
                let path = self.path(st, p)?;
                let r = st.vfs.resolve(&path, true, false);
                let abs = match r { Ok(a) => a, Err(e) => { self.set_errno(st, e)?; return Ok(Some(Val::I(0))) } };
                if !matches!(st.vfs.nodes[&abs].0, vfs::Node::Dir) { self.set_errno(st, vfs::ENOTDIR)?; return Ok(Some(Val::I(0))) }
                // not the order in which they are wanted
                let mut es = st.vfs.children(&abs);
                es.reverse();
                let n = es.len() as u64;
                let Some(Val::I(q)) = self.alloc(st, 16 + 288 * n)? else { unreachable!() };
                self.store(st, q + 8, Val::I(n), 64)?;
                for (k, (name, ty)) in es.iter().enumerate() {
                    let d = q + 16 + 288 * k as u64;
                    self.store(st, d, Val::I(k as u64 + 1), 64)?;
                    self.store(st, d + 16, Val::I(280), 16)?;
                    self.store(st, d + 18, Val::I(*ty as u64), 8)?;
                    for (i, b) in name.bytes().enumerate() { self.store(st, d + 19 + i as u64, Val::I(b as u64), 8)?; }
                }
                Some(Val::I(q))
            }
            Ext::Readdir => {
                let q = conc!(0);
                let (Val::I(k), Val::I(n)) = (self.load(st, q, 64)?, self.load(st, q + 8, 64)?) else { bail!("directory stream") };
                if k >= n { Some(Val::I(0)) } else { self.store(st, q, Val::I(k + 1), 64)?; Some(Val::I(q + 16 + 288 * k)) }
            }
            Ext::Closedir => { let q = conc!(0); st.mem.release((q >> 32) as u32); Some(Val::I(0)) }
            Ext::SymFile => {
                let p = conc!(0); let n = conc!(1); let d = conc!(2); let k = conc!(3); let time = conc!(4);
                let path = self.path_n(st, p, n)?;
                let data = self.read_bytes(st, d, k as usize)?;
                Rc::make_mut(&mut st.vfs).put(&path, vfs::Node::File(Rc::new(data)), time);
                None
            }
            Ext::SymDir => { let p = conc!(0); let n = conc!(1); let path = self.path_n(st, p, n)?; Rc::make_mut(&mut st.vfs).put(&path, vfs::Node::Dir, 0); None }
            Ext::SymLink => {
                let p = conc!(0); let n = conc!(1); let d = conc!(2); let k = conc!(3);
                let (path, to) = (self.path_n(st, p, n)?, self.path_n(st, d, k)?);
                Rc::make_mut(&mut st.vfs).put(&path, vfs::Node::Link(to), 0);
                None
            }
            Ext::SymStdin => { let p = conc!(0); let n = conc!(1); let b = self.read_bytes(st, p, n as usize)?; st.input = Rc::new((b, 0)); None }
            // copies what was written so far, and forgets it
            Ext::SymStdout => {
                let p = conc!(0); let n = conc!(1) as usize;
                let b = std::mem::take(Rc::make_mut(&mut st.out));
                for (i, v) in b.iter().take(n).enumerate() { self.store(st, p + i as u64, *v, 8)?; }
                Some(Val::I(b.len() as u64))
            }
            Ext::Getrandom => { let p = conc!(0); let n = conc!(1); for i in 0..n { self.store(st, p + i, Val::I(7), 8)?; } Some(Val::I(n)) }
            Ext::ClockGettime => { let p = conc!(1); self.store(st, p, Val::I(1), 64)?; self.store(st, p + 8, Val::I(0), 64)?; Some(Val::I(0)) }
            Ext::Syscall => { self.set_errno(st, 38)?; Some(Val::I(m64(c.rw.max(1)))) }
            Ext::Errno => Some(Val::I((self.errno_obj as u64) << 32)),
            Ext::Zero => Some(Val::I(0)),
            Ext::Neg => { self.set_errno(st, 2)?; Some(Val::I(m64(c.rw.max(1)))) }
            Ext::Sysconf => Some(Val::I(4096)),
            Ext::Detect => Some(Val::I(0)),
            // ends the program, or what runs in `sym_barrier`
            Ext::Exit => {
                let code = conc!(0);
                while self.m.funcs[st.cur.code.id as usize].name != "sym_barrier" {
                    if st.cur.stack != 0 { st.mem.release(st.cur.stack); }
                    for d in std::mem::take(&mut st.cur.dyns) { st.mem.release(d); }
                    let Some(f) = st.frames.pop() else { bail!("exit of the harness") };
                    st.cur = Rc::try_unwrap(f).unwrap_or_else(|f| (*f).clone());
                }
                self.do_return(st, &[Val::I(code & 0xff)])?;
                None
            }
            Ext::Abort => { let msg = format!("abort {}", self.where_(st)); return Err(self.violation(st, "panic", msg)); }
            Ext::Panic => {
                let name = demangle(self.m.funcs[fi as usize].name);
                let mut loc = String::new();
                for a in args.iter().rev() {
                    if let Val::I(p) = a { if let Ok(l) = self.read_location(st, *p) { loc = l; break; } }
                }
                let msg = format!("{name} at {loc} {}", self.where_(st));
                return Err(self.violation(st, "panic", msg));
            }
            Ext::SymInt(w) => { let e = self.new_var(st, w); Some(Val::S(e)) }
            Ext::SymChoose => {
                let n = conc!(0);
                if n == 0 { return Err(End::Infeasible); }
                // re-execution safe: the variable is created only once per call
                if !matches!(st.cur.regs[c.d as usize], Val::S(e) if st.conc.iter().any(|k| k.0 == e)) {
                    let e = self.new_var(st, if n <= 256 { 8 } else { 32 });
                    if n < 256 || n > 256 { let w = self.ex.w(e); let k = self.ex.cst(n as u128, w); let q = self.ex.bin(Op::Ult, e, k); self.add(st, q); }
                    st.cur.regs[c.d as usize] = Val::S(e);
                }
                let Val::S(e) = st.cur.regs[c.d as usize] else { unreachable!() };
                let w = self.ex.w(e);
                let x = self.concretize(st, Val::S(e), w)?;
                Some(Val::I(x))
            }
            Ext::SymConcrete => { let x = conc!(0); Some(Val::I(x)) }
            Ext::SymAssume => {
                match args[0] {
                    Val::I(x) => if x & 1 == 0 { return Err(End::Infeasible); },
                    Val::S(e) => {
                        let e = if self.ex.w(e) == 1 { e } else { self.ex.extract(e, 0, 1) };
                        match self.feasible(st, e) { Some(w) => { st.wit = w; self.add(st, e); } None => return Err(End::Infeasible) }
                    }
                }
                None
            }
            Ext::SymAssert => {
                self.stats.asserts += 1;
                let id = match args[1] { Val::I(x) => x, _ => 0 };
                match args[0] {
                    Val::I(x) => { self.stats.asserts_concrete += 1; if x & 1 == 0 { return Err(self.violation(st, "assert", format!("assertion {id}"))); } }
                    Val::S(e) => {
                        let e = if self.ex.w(e) == 1 { e } else { self.ex.extract(e, 0, 1) };
                        let n = self.ex.not(e);
                        if st.nbranch < self.follow { self.add(st, e); }
                        else if n != self.ex.f {
                            // the deciding query: whole path condition and the negated assertion, put to the solver
                            let before = self.stats.q_unknown;
                            if let Some(m) = self.solver_model(st, Some(n)) {
                                self.viols.push(Violation { kind: "assert".into(), msg: format!("assertion {id}"), model: m });
                                if self.viols.len() >= self.lim.max_viol { return Err(End::Incomplete("enough violations".into())); }
                            } else if self.stats.q_unknown > before { return Err(End::Incomplete(format!("solver gave no answer on assertion {id}"))); }
                            match self.feasible(st, e) { Some(w) => { st.wit = w; self.add(st, e); } None => return Err(End::Infeasible) }
                        }
                    }
                }
                None
            }
            Ext::SymCover => { let id = conc!(0); st.covers |= 1 << (id & 63); None }
            Ext::SymObserve => { let p = conc!(0); let n = conc!(1); if self.max_samples > 0 || self.trace { let b = self.read_bytes(st, p, n as usize)?; st.obs.push(b); } None }
            Ext::SymHarness => Some(Val::I(self.harness as u64)),
            Ext::SymParam => { let i = conc!(0) as usize; Some(Val::I(self.params.get(i).copied().unwrap_or(0))) }
            Ext::SymStop => return Err(End::Infeasible),
            Ext::DebugPrint => { if self.trace { let p = conc!(0); let n = conc!(1); let b = self.read_concrete(st, p, n as usize)?; eprintln!("[dbg] {}", String::from_utf8_lossy(&b)); } None }
            _ => bail!("call to unmodelled external {} {}", self.m.funcs[fi as usize].name, self.where_(st)),
        })
    }
    fn path(&mut self, st: &mut State, p: u64) -> R<String> { Ok(String::from_utf8_lossy(&self.cstr(st, p)?).into_owned()) }
    fn path_n(&mut self, st: &mut State, p: u64, n: u64) -> R<String> {
        let mut out = vec![];
        for i in 0..n { let v = self.load(st, p + i, 8)?; out.push(self.concretize(st, v, 8)? as u8); }
        Ok(String::from_utf8_lossy(&out).into_owned())
    }
    fn write_fd(&mut self, st: &mut State, fd: u64, b: Vec<Val>, c: &CallI) -> R<Option<Val>> {
        let n = b.len();
        if fd == 1 { Rc::make_mut(&mut st.out).extend(b); return Ok(Some(Val::I(n as u64))); }
        if fd == 2 { return Ok(Some(Val::I(n as u64))); }
        let Some(Some(f)) = st.fds.get(fd as usize).cloned() else { self.set_errno(st, vfs::EBADF)?; return Ok(Some(Val::I(m64(c.rw)))) };
        let v = Rc::make_mut(&mut st.vfs);
        v.now += 1;
        let now = v.now;
        let Some((vfs::Node::File(d), t)) = v.nodes.get_mut(&f.path) else { bail!("write to a removed file") };
        *t = now;
        let d = Rc::make_mut(d);
        d.resize(d.len().max(f.pos as usize + n), Val::I(0));
        for (i, x) in b.into_iter().enumerate() { d[f.pos as usize + i] = x; }
        st.fds[fd as usize].as_mut().unwrap().pos += n as u64;
        Ok(Some(Val::I(n as u64)))
    }
    fn set_errno(&mut self, st: &mut State, e: u64) -> R<()> { let a = (self.errno_obj as u64) << 32; self.store(st, a, Val::I(e), 32) }
    fn read_location(&mut self, st: &mut State, p: u64) -> R<String> {
        let (Val::I(f), Val::I(n), Val::I(line), Val::I(col)) = (self.load(st, p, 64)?, self.load(st, p + 8, 64)?, self.load(st, p + 16, 32)?, self.load(st, p + 20, 32)?) else { bail!("loc") };
        if n > 300 { bail!("loc"); }
        let b = self.read_concrete(st, f, n as usize)?;
        let s = String::from_utf8(b).map_err(|_| End::Error("loc".into()))?;
        if !s.contains(".rs") { bail!("loc"); }
        Ok(format!("{}:{line}:{col}", s.trim_end_matches('\0')))
    }
    fn alloc(&mut self, st: &mut State, n: u64) -> R<Option<Val>> {
        if n > 1 << 28 { return Err(End::Incomplete(format!("allocation of {n} bytes"))); }
        let id = st.mem.alloc(Obj::zeroed(n as usize));
        Ok(Some(Val::I((id as u64) << 32)))
    }
}

fn fop(op: FOp, w: u16, w2: u16, x: u64, y: u64) -> u64 {
    let f = |v: u64| if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v) };
    let out = |v: f64, w: u16| if w == 32 { (v as f32).to_bits() as u64 } else { v.to_bits() };
    let (a, b) = (f(x), f(y));
    let un = a.is_nan() || b.is_nan();
    match op {
        FOp::Add => out(a + b, w), FOp::Sub => out(a - b, w), FOp::Mul => out(a * b, w), FOp::Div => out(a / b, w), FOp::Rem => out(a % b, w), FOp::Neg => out(-a, w),
        FOp::CmpOeq => (a == b) as u64, FOp::CmpOlt => (a < b) as u64, FOp::CmpOle => (a <= b) as u64, FOp::CmpOgt => (a > b) as u64, FOp::CmpOge => (a >= b) as u64,
        FOp::CmpUne => (a != b) as u64, FOp::CmpOne => (!un && a != b) as u64, FOp::CmpUno => un as u64, FOp::CmpOrd => !un as u64,
        FOp::CmpUlt => (un || a < b) as u64, FOp::CmpUle => (un || a <= b) as u64, FOp::CmpUgt => (un || a > b) as u64, FOp::CmpUge => (un || a >= b) as u64, FOp::CmpUeq => (un || a == b) as u64,
        FOp::FromS => out(sx(x, w) as f64, w2), FOp::FromU => out(x as f64, w2),
        FOp::ToS => (a as i64) as u64 & m64(w2), FOp::ToU => (a as u64) & m64(w2),
        FOp::Ext => a.to_bits(), FOp::Trunc => (a as f32).to_bits() as u64,
    }
}

/// rough v0 demangling: the identifiers of the path
pub fn demangle(s: &str) -> String {
    if !s.starts_with("_R") { return s.to_string(); }
    let b = s.as_bytes();
    let mut i = 2;
    let mut out: Vec<&str> = vec![];
    while i < b.len() && out.len() < 14 {
        if b[i] == b's' || b[i] == b'B' {
            // disambiguator / backref up to '_'
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() { j += 1; }
            if j < b.len() && b[j] == b'_' && j - i <= 14 { i = j + 1; continue; }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() { j += 1; }
            let n: usize = s[i..j].parse().unwrap_or(0);
            let mut k = j;
            if k < b.len() && b[k] == b'_' { k += 1; }
            if n > 0 && k + n <= b.len() && s.is_char_boundary(k + n) { out.push(&s[k..k + n]); i = k + n; continue; }
            i = j; continue;
        }
        i += 1;
    }
    out.join("::")
}

fn classify(name: &str, decl: bool) -> Ext {
    if !decl {
        if !name.starts_with("_R") { return Ext::Defined; }
        for p in ["9panicking9panic_fmt", "9panicking18panic_nounwind", "9panicking5panic", "9panicking19panic_bounds_check", "9panicking18panic_bounds_check", "9panicking13assert_failed", "9panicking19assert_failed_inner", "9panicking11panic_const", "9panicking14panic_explicit", "9panicking14panic_no_unwind", "9panicking16panic_in_cleanup", "9panicking36panic_misaligned", "9panicking13panic_display", "6option13unwrap_failed", "6option13expect_failed", "6result13unwrap_failed", "16slice_error_fail", "19slice_error_fail_rt", "5slice5index16slice_index_fail", "24slice_start_index_len_fail", "22slice_end_index_len_fail", "22slice_index_order_fail", "18handle_alloc_error", "17capacity_overflow", "7raw_vec12handle_error", "20rust_panic_with_hook", "17rust_begin_unwind", "9panicking11begin_panic", "4cell22panic_already_borrowed", "4cell30panic_already_mutably_borrowed", "17len_mismatch_fail", "3vec6Vec6remove13assert_failed", "assert_failed"] {
            if name.contains(p) { return Ext::Panic; }
        }
        // a program may run, and exit, more than once
        if name.contains("18unique_thread_exit") { return Ext::Zero; }
        if name.contains("10std_detect6detect") && name.contains("detect_and_initialize") { return Ext::Detect; }
        return Ext::Defined;
    }
    match name {
        "malloc" => Ext::Malloc, "calloc" => Ext::Calloc, "realloc" => Ext::Realloc, "free" => Ext::Free, "posix_memalign" => Ext::PosixMemalign,
        "memcmp" => Ext::Memcmp, "bcmp" => Ext::Bcmp, "strlen" => Ext::Strlen, "getenv" => Ext::Getenv, "write" => Ext::Write, "writev" => Ext::Writev,
        "getrandom" => Ext::Getrandom, "syscall" => Ext::Syscall, "__errno_location" => Ext::Errno, "abort" => Ext::Abort, "exit" => Ext::Exit, "sym_zero" => Ext::Zero,
        "clock_gettime" => Ext::ClockGettime, "sysconf" => Ext::Sysconf,
        "sym_u8" | "sym_byte" => Ext::SymInt(8), "sym_u16" => Ext::SymInt(16), "sym_u32" => Ext::SymInt(32), "sym_u64" => Ext::SymInt(64),
        "sym_choose" => Ext::SymChoose, "sym_assume" => Ext::SymAssume, "sym_assert" => Ext::SymAssert, "sym_cover" => Ext::SymCover, "sym_observe" => Ext::SymObserve,
        "sym_concrete" => Ext::SymConcrete, "sym_harness" => Ext::SymHarness, "sym_param" => Ext::SymParam, "sym_stop" => Ext::SymStop, "sym_debug" => Ext::DebugPrint,
        "__cxa_thread_atexit_impl" | "pthread_self" | "gettid" | "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete" | "dl_iterate_phdr" | "sched_yield" | "munmap" | "dirfd" => Ext::Zero,
        "open64" | "open" => Ext::Open, "read" => Ext::Read, "close" => Ext::Close, "lseek64" => Ext::Lseek, "statx" => Ext::Statx,
        "realpath" => Ext::Realpath, "getcwd" => Ext::Getcwd, "__xpg_strerror_r" => Ext::Strerror, "mkdir" => Ext::Mkdir, "opendir" => Ext::Opendir, "readdir64" => Ext::Readdir, "closedir" => Ext::Closedir,
        "sym_file" => Ext::SymFile, "sym_dir" => Ext::SymDir, "sym_link" => Ext::SymLink, "sym_stdin" => Ext::SymStdin, "sym_stdout" => Ext::SymStdout,
        "stat64" | "fstat64" | "lstat64" | "readlink" | "fcntl" | "poll" => Ext::Neg,
        _ => Ext::Unknown,
    }
}
