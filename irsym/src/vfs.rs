//! A small file system for the program under test: directories, files with
//! symbolic contents and symbolic links, in memory, part of the state.
use crate::state::Val;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone)]
pub enum Node { Dir, File(Rc<Vec<Val>>), Link(String) }

#[derive(Clone)]
pub struct Fd { pub path: String, pub pos: u64, pub dir: bool }

#[derive(Clone)]
pub struct Vfs { pub nodes: BTreeMap<String, (Node, u64)>, pub now: u64 }

pub const ENOENT: u64 = 2;
pub const EBADF: u64 = 9;
pub const EEXIST: u64 = 17;
pub const ENOTDIR: u64 = 20;
pub const EISDIR: u64 = 21;
pub const ELOOP: u64 = 40;

pub const CWD: &str = "/p/q/r/w";

impl Vfs {
    pub fn new() -> Vfs {
        let mut v = Vfs { nodes: BTreeMap::new(), now: 1000 };
        v.nodes.insert(String::new(), (Node::Dir, 0));
        for d in ["/p", "/p/q", "/p/q/r", CWD] { v.nodes.insert(d.into(), (Node::Dir, 0)); }
        v
    }

    /// the absolute path of an existing node, or of one that could be created
    /// where `missing` is allowed; no trailing slash, the root is empty
    pub fn resolve(&self, path: &str, follow: bool, missing: bool) -> Result<String, u64> {
        if path.is_empty() { return Err(ENOENT); }
        let mut todo: Vec<String> = path.split('/').rev().map(String::from).collect();
        let mut cur = if path.starts_with('/') { String::new() } else { CWD.to_string() };
        let mut links = 0;
        while let Some(c) = todo.pop() {
            if c.is_empty() || c == "." {
                if !matches!(self.nodes.get(&cur), Some((Node::Dir, _))) { return Err(ENOTDIR); }
                continue;
            }
            if !matches!(self.nodes.get(&cur), Some((Node::Dir, _))) { return Err(if self.nodes.contains_key(&cur) { ENOTDIR } else { ENOENT }); }
            if c == ".." { let k = cur.rfind('/').unwrap_or(0); cur.truncate(k); continue; }
            let next = format!("{cur}/{c}");
            match self.nodes.get(&next) {
                None => return if missing && todo.iter().all(|c| c.is_empty()) { Ok(next) } else { Err(ENOENT) },
                Some((Node::Link(t), _)) if follow || !todo.is_empty() => {
                    links += 1;
                    if links > 20 { return Err(ELOOP); }
                    if t.starts_with('/') { cur = String::new(); }
                    todo.extend(t.split('/').rev().map(String::from));
                }
                _ => cur = next,
            }
        }
        Ok(cur)
    }

    /// adds a node and the directories above it
    pub fn put(&mut self, path: &str, n: Node, time: u64) {
        let mut abs = if path.starts_with('/') { String::new() } else { CWD.to_string() };
        let parts: Vec<&str> = path.split('/').filter(|c| !c.is_empty() && *c != ".").collect();
        for (i, c) in parts.iter().enumerate() {
            if *c == ".." { let k = abs.rfind('/').unwrap_or(0); abs.truncate(k); continue; }
            abs = format!("{abs}/{c}");
            if i + 1 < parts.len() { self.nodes.entry(abs.clone()).or_insert((Node::Dir, 0)); }
        }
        self.nodes.insert(abs, (n, time));
    }

    pub fn children(&self, dir: &str) -> Vec<(String, u8)> {
        let pre = format!("{dir}/");
        self.nodes.iter().filter(|(p, _)| p.starts_with(&pre) && !p[pre.len()..].contains('/') && p.len() > pre.len())
            .map(|(p, n)| (p[pre.len()..].to_string(), match n.0 { Node::Dir => 4, Node::File(_) => 8, Node::Link(_) => 10 })).collect()
    }
}
