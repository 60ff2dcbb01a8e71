//! Execution state: copy-on-write memory, call stack, path condition.
use crate::expr::*;
use crate::ll::Code;
use crate::vfs::{Fd, Vfs};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Val { I(u64), S(EId) }

#[derive(Clone, Debug)]
pub struct Obj { pub data: Vec<u8>, pub sym: Option<Vec<EId>> }
impl Obj {
    pub fn zeroed(n: usize) -> Obj { Obj { data: vec![0; n], sym: None } }
}

pub const CH: usize = 32;
pub type Chunk = [Option<Rc<Obj>>; CH];

#[derive(Clone)]
pub struct Mem { pub chunks: Vec<Rc<Chunk>>, pub free: Vec<u32>, pub next: u32, pub live: u64 }

impl Mem {
    pub fn new(first: u32) -> Mem { Mem { chunks: vec![], free: vec![], next: first, live: 0 } }
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        self.chunks.get(id as usize / CH)?[id as usize % CH].as_ref()
    }
    #[inline]
    pub fn slot_mut(&mut self, id: u32) -> &mut Option<Rc<Obj>> {
        let c = id as usize / CH;
        while self.chunks.len() <= c { self.chunks.push(Rc::new(std::array::from_fn(|_| None))); }
        &mut Rc::make_mut(&mut self.chunks[c])[id as usize % CH]
    }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let c = id as usize / CH;
        if c >= self.chunks.len() { return None; }
        Rc::make_mut(&mut self.chunks[c])[id as usize % CH].as_mut().map(Rc::make_mut)
    }
    pub fn alloc(&mut self, o: Obj) -> u32 {
        let id = match self.free.pop() { Some(i) => i, None => { self.next += 1; self.next - 1 } };
        *self.slot_mut(id) = Some(Rc::new(o));
        self.live += 1;
        id
    }
    pub fn release(&mut self, id: u32) {
        let s = self.slot_mut(id);
        if s.take().is_some() { self.live -= 1; self.free.push(id); }
    }
}

#[derive(Clone)]
pub struct Frame { pub code: Rc<Code>, pub pc: u32, pub regs: Vec<Val>, pub stack: u32, pub dyns: Vec<u32> }

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub frames: Vec<Rc<Frame>>,
    pub cur: Frame,
    /// variables created on this path, in order
    pub vars: Vec<u32>,
    pub doms: Vec<Set>,
    /// variable (by ordinal) occurs in a constraint over several variables (or is wide)
    pub multi: Vec<bool>,
    pub wit: Vec<u64>,
    pub cons: Vec<EId>,
    pub nbranch: u32,
    /// values already chosen for concretised expressions
    pub conc: Vec<(EId, u64)>,
    pub steps: u64,
    pub covers: u64,
    pub obs: Vec<Vec<Val>>,
    pub fds: Vec<Option<Fd>>,
    pub vfs: Rc<Vfs>,
    /// what was written to the standard output, what comes from the standard input
    pub out: Rc<Vec<Val>>,
    pub input: Rc<(Vec<Val>, usize)>,
}
