//! Replacement for fxhash used only in the symbolically executed build.
//!
//! A hash function may be any pure function of the hashed value; results of
//! a program that uses hash *tables* correctly do not depend on which one it
//! is. This one hashes byte strings to their length, so that hashing a string
//! of symbolic bytes yields a concrete value and every look-up becomes a chain
//! of real (symbolic) equality comparisons instead of a symbolic bucket index.
//! Violations found with it are replayed natively with the real fxhash.
use std::hash::{BuildHasherDefault, Hasher};
pub type FxBuildHasher = BuildHasherDefault<FxHasher>;
pub type FxHashMap<K, V> = std::collections::HashMap<K, V, FxBuildHasher>;
pub type FxHashSet<V> = std::collections::HashSet<V, FxBuildHasher>;
const SEED: u64 = 0x517cc1b727220a95;
#[derive(Debug, Clone, Default)]
pub struct FxHasher { hash: u64 }
impl FxHasher {
    #[inline]
    fn word(&mut self, w: u64) {
        self.hash = (self.hash.rotate_left(5) ^ w).wrapping_mul(SEED);
    }
}
impl Hasher for FxHasher {
    #[inline]
    fn write(&mut self, bytes: &[u8]) { self.word(bytes.len() as u64); }
    #[inline]
    fn write_u8(&mut self, i: u8) { self.word(i as u64); }
    #[inline]
    fn write_u16(&mut self, i: u16) { self.word(i as u64); }
    #[inline]
    fn write_u32(&mut self, i: u32) { self.word(i as u64); }
    #[inline]
    fn write_u64(&mut self, i: u64) { self.word(i); }
    #[inline]
    fn write_usize(&mut self, i: usize) { self.word(i as u64); }
    #[inline]
    fn finish(&self) -> u64 { self.hash }
}
