//! The interface between a harness and whatever executes it: the symbolic
//! executor (externs) or, with feature "replay", a list of concrete values.
#![allow(dead_code)]

#[cfg(not(feature = "replay"))]
mod imp {
    extern "C" {
        fn sym_u8() -> u8;
        fn sym_u64() -> u64;
        fn sym_choose(n: u32) -> u32;
        fn sym_assume(b: bool);
        fn sym_assert(b: bool, id: u32);
        fn sym_cover(id: u32);
        fn sym_observe(p: *const u8, n: usize);
        fn sym_harness() -> u32;
        fn sym_param(i: u32) -> u64;
        fn sym_stop();
        fn sym_debug(p: *const u8, n: usize);
        fn sym_file(p: *const u8, n: usize, d: *const u8, k: usize, time: u64);
        fn sym_dir(p: *const u8, n: usize);
        fn sym_link(p: *const u8, n: usize, d: *const u8, k: usize);
        fn sym_stdin(p: *const u8, n: usize);
        fn sym_stdout(p: *mut u8, n: usize) -> usize;
        fn sym_zero() -> i32;
    }
    static mut PROGRAM: Option<fn()> = None;
    /// the executor makes `exit` return from here
    #[no_mangle]
    #[inline(never)]
    unsafe extern "C" fn sym_barrier() -> i32 {
        use std::io::Write;
        if let Some(f) = PROGRAM { f(); }
        let _ = std::io::stdout().flush();
        sym_zero()
    }
    /// runs a program that may exit; its exit status
    pub fn program(f: fn()) -> i32 { unsafe { PROGRAM = Some(f); sym_barrier() } }
    /// an empty current directory for what follows
    pub fn fs_begin() {}
    pub fn fs_end() {}
    /// a file in it, with the time it was last modified
    pub fn file(p: &str, d: &[u8], time: u64) { unsafe { sym_file(p.as_ptr(), p.len(), d.as_ptr(), d.len(), time) } }
    pub fn dir(p: &str) { unsafe { sym_dir(p.as_ptr(), p.len()) } }
    pub fn link(p: &str, to: &str) { unsafe { sym_link(p.as_ptr(), p.len(), to.as_ptr(), to.len()) } }
    pub fn stdin(d: &[u8]) { unsafe { sym_stdin(d.as_ptr(), d.len()) } }
    /// what was written to the standard output since the last call
    pub fn stdout() -> Vec<u8> { let mut b = vec![0; 4096]; let n = unsafe { sym_stdout(b.as_mut_ptr(), b.len()) }; b.truncate(n); b }
    pub fn u8() -> u8 { unsafe { sym_u8() } }
    pub fn u64() -> u64 { unsafe { sym_u64() } }
    pub fn choose(n: u32) -> u32 { unsafe { sym_choose(n) } }
    pub fn assume(b: bool) { unsafe { sym_assume(b) } }
    #[inline(always)]
    pub fn check(b: bool, id: u32, _why: &str) { unsafe { sym_assert(b, id) } }
    pub fn cover(id: u32) { unsafe { sym_cover(id) } }
    pub fn observe(s: &[u8]) { unsafe { sym_observe(s.as_ptr(), s.len()) } }
    pub fn harness() -> u32 { unsafe { sym_harness() } }
    pub fn param(i: u32) -> u64 { unsafe { sym_param(i) } }
    pub fn stop() -> ! { unsafe { sym_stop() }; loop {} }
    pub fn debug(s: &str) { unsafe { sym_debug(s.as_ptr(), s.len()) } }
}

#[cfg(feature = "replay")]
pub mod imp {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct R { pub vals: Vec<u64>, pub next: usize, pub harness: u32, pub params: Vec<u64>, pub obs: u64, pub failed: Vec<String>, pub infeasible: bool, pub log: Vec<Vec<u8>> }
    thread_local!(pub static STATE: RefCell<R> = RefCell::new(R::default()));
    fn st<T>(f: impl FnOnce(&mut R) -> T) -> T { STATE.with(|s| f(&mut s.borrow_mut())) }
    fn next() -> u64 { st(|s| { let v = s.vals.get(s.next).copied().unwrap_or(0); s.next += 1; v }) }
    pub fn u8() -> u8 { next() as u8 }
    pub fn u64() -> u64 { next() }
    pub fn choose(n: u32) -> u32 { if n == 0 { stop() } (next() as u32) % n }
    pub fn assume(b: bool) { if !b { stop() } }
    pub fn check(b: bool, id: u32, why: &str) { if !b { st(|s| s.failed.push(format!("[{id}] {why}"))); } }
    pub fn cover(_id: u32) {}
    pub fn observe(b: &[u8]) {
        st(|s| {
            for x in b.iter().chain(&[0xff, 0xfe]) { s.obs ^= *x as u64; s.obs = s.obs.wrapping_mul(0x100000001b3); }
            s.log.push(b.to_vec());
        })
    }
    pub fn harness() -> u32 { st(|s| s.harness) }
    pub fn param(i: u32) -> u64 { st(|s| s.params.get(i as usize).copied().unwrap_or(0)) }
    pub struct Stop;
    pub fn stop() -> ! { st(|s| s.infeasible = true); std::panic::resume_unwind(Box::new(Stop)) }
    pub fn debug(s: &str) { eprintln!("[dbg] {s}"); }

    // A scratch directory stands for the file system: the current directory is
    // several levels down in it, and the process has given up its privileges.
    extern "C" {
        fn geteuid() -> u32;
        fn setgroups(n: usize, g: *const u32) -> i32;
        fn setgid(g: u32) -> i32;
        fn setuid(u: u32) -> i32;
        fn dup(fd: i32) -> i32;
        fn dup2(a: i32, b: i32) -> i32;
    }
    use std::os::fd::AsRawFd;
    #[derive(Default)]
    pub struct Fs { root: Option<std::path::PathBuf>, saved: Option<(i32, i32)> }
    static FS: std::sync::Mutex<Fs> = std::sync::Mutex::new(Fs { root: None, saved: None });
    static COUNT: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    pub fn fs_begin() {
        fs_end();
        let mut f = FS.lock().unwrap();
        unsafe { if geteuid() == 0 { assert!(setgroups(0, std::ptr::null()) == 0 && setgid(65534) == 0 && setuid(65534) == 0); } }
        let n = COUNT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let root = std::env::temp_dir().join(format!("papyri-replay.{}.{n}", std::process::id()));
        let w = root.join("p/q/r/w");
        std::fs::create_dir_all(&w).unwrap();
        std::env::set_current_dir(&w).unwrap();
        std::fs::write(root.join("out"), b"").unwrap();
        let out = std::fs::OpenOptions::new().append(true).open(root.join("out")).unwrap();
        unsafe {
            f.saved = Some((dup(0), dup(1)));
            dup2(out.as_raw_fd(), 1);
        }
        f.root = Some(root);
    }
    pub fn fs_end() {
        let mut f = FS.lock().unwrap();
        if let Some((i, o)) = f.saved.take() {
            use std::io::Write;
            std::io::stdout().flush().unwrap();
            unsafe { dup2(i, 0); dup2(o, 1); }
        }
        if let Some(r) = f.root.take() {
            std::env::set_current_dir("/").unwrap();
            std::fs::remove_dir_all(r).unwrap();
        }
    }
    extern "C" { fn fork() -> i32; fn waitpid(p: i32, status: *mut i32, o: i32) -> i32; }
    /// runs a program that may exit; its exit status
    pub fn program(f: fn()) -> i32 {
        use std::io::Write;
        std::io::stdout().flush().unwrap();
        unsafe {
            let p = fork();
            assert!(p >= 0);
            if p == 0 {
                let r = std::panic::catch_unwind(f);
                let _ = std::io::stdout().flush();
                std::process::exit(if r.is_err() { 101 } else { 0 });
            }
            let mut status = 0;
            assert!(waitpid(p, &mut status, 0) == p);
            if status & 127 != 0 { 128 + (status & 127) } else { status >> 8 & 255 }
        }
    }
    fn above(p: &str) { if let Some(d) = std::path::Path::new(p).parent() { std::fs::create_dir_all(d).unwrap(); } }
    pub fn file(p: &str, d: &[u8], time: u64) {
        assert!(!p.starts_with('/'));
        above(p);
        std::fs::write(p, d).unwrap();
        std::fs::File::options().write(true).open(p).unwrap().set_modified(std::time::UNIX_EPOCH + std::time::Duration::from_secs(time)).unwrap();
    }
    pub fn dir(p: &str) { assert!(!p.starts_with('/')); std::fs::create_dir_all(p).unwrap(); }
    pub fn link(p: &str, to: &str) { assert!(!p.starts_with('/')); above(p); std::os::unix::fs::symlink(to, p).unwrap(); }
    pub fn stdin(d: &[u8]) {
        let f = FS.lock().unwrap();
        let p = f.root.as_ref().unwrap().join("in");
        std::fs::write(&p, d).unwrap();
        unsafe { dup2(std::fs::File::open(&p).unwrap().as_raw_fd(), 0); }
    }
    pub fn stdout() -> Vec<u8> {
        use std::io::Write;
        std::io::stdout().flush().unwrap();
        let f = FS.lock().unwrap();
        let p = f.root.as_ref().unwrap().join("out");
        let b = std::fs::read(&p).unwrap();
        std::fs::write(&p, b"").unwrap();
        b
    }
}

pub use imp::*;

/// any ASCII byte
pub fn ascii() -> u8 { let b = u8(); assume(b < 0x80); b }
/// a byte out of `set`
pub fn one_of(set: &[u8]) -> u8 {
    let b = u8();
    let mut ok = false;
    for x in set { ok |= b == *x; }
    assume(ok);
    b
}
pub fn range(lo: u8, hi: u8) -> u8 { let b = u8(); assume((b >= lo) & (b <= hi)); b }
pub fn digit() -> u8 { range(b'0', b'9') }
/// Prefixes of the non-ASCII blocks of 64 characters a character hole ranges
/// over: Latin-1 (both halves), Greek, general punctuation (with the Unicode
/// spaces and line separators), CJK punctuation, U+FEC0.. (with the BOM),
/// Deseret (upper and lower case outside the BMP) and emoji.
const BLOCKS: &[&[u8]] = &[b"\xC2", b"\xC3", b"\xCE", b"\xE2\x80", b"\xE3\x80", b"\xEF\xBB", b"\xF0\x90\x90", b"\xF0\x9F\x98"];
/// any non-ASCII character of `BLOCKS`
pub fn push_wide(out: &mut Vec<u8>) {
    out.extend_from_slice(BLOCKS[choose(BLOCKS.len() as u32) as usize]);
    out.push(range(0x80, 0xBF));
}
/// any ASCII character or any character of `BLOCKS`
pub fn push_char(out: &mut Vec<u8>) {
    if choose(2) == 0 { out.push(ascii()) } else { push_wide(out) }
}
/// the bytes are UTF-8 by construction; the check is done by the real
/// validator only natively
pub fn text(b: Vec<u8>) -> String {
    #[cfg(feature = "replay")]
    { String::from_utf8(b).expect("harness text") }
    #[cfg(not(feature = "replay"))]
    { unsafe { String::from_utf8_unchecked(b) } }
}
