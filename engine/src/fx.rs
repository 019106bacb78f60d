//! Small fast hasher.
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
const K: u64 = 0x517c_c1b7_2722_0a95;
impl Fx {
    #[inline]
    fn add(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(K);
    }
}
impl Hasher for Fx {
    #[inline]
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut v = [0u8; 8];
            v[..c.len()].copy_from_slice(c);
            self.add(u64::from_le_bytes(v));
        }
    }
    #[inline]
    fn write_u8(&mut self, x: u8) { self.add(x as u64) }
    #[inline]
    fn write_u32(&mut self, x: u32) { self.add(x as u64) }
    #[inline]
    fn write_u64(&mut self, x: u64) { self.add(x) }
    #[inline]
    fn write_usize(&mut self, x: usize) { self.add(x as u64) }
    #[inline]
    fn write_u128(&mut self, x: u128) { self.add(x as u64); self.add((x >> 64) as u64) }
    #[inline]
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 32) }
}
pub type FxB = BuildHasherDefault<Fx>;
pub type FxMap<K, V> = HashMap<K, V, FxB>;
pub type FxSet<K> = HashSet<K, FxB>;
