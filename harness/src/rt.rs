//! Thin wrappers over the intrinsics which the symbolic executor (and, natively, src/main.rs) provide.
#![allow(dead_code)]

extern "C" {
    fn sym_bytes(p: *mut u8, n: usize, arr: u32);
    fn sym_byte(arr: u32, idx: u64) -> u8;
    fn sym_read(arr: u32, idx: u64, p: *mut u8, n: usize);
    fn sym_assume(c: u32);
    fn sym_check(c: u32, p: *const u8, n: usize);
    fn sym_reach(p: *const u8, n: usize);
    fn sym_observe(v: u64);
    fn sym_concretize(v: u64) -> u64;
    fn sym_alloc_limit(v: u64);
    fn sym_split(c: u32);
}

/// Fills `b` with the first bytes of the symbolic array `arr`.
pub fn bytes(b: &mut [u8], arr: u32) {
    unsafe { sym_bytes(b.as_mut_ptr(), b.len(), arr) }
}
/// Fills `b` with the bytes of the symbolic array `arr` from `idx` on.
pub fn read(arr: u32, idx: u64, b: &mut [u8]) {
    unsafe { sym_read(arr, idx, b.as_mut_ptr(), b.len()) }
}
/// Fills `b` with the bytes of the symbolic array `arr` from `idx` on.
pub fn bytes_at(b: &mut [u8], arr: u32, idx: u64) {
    read(arr, idx, b)
}
pub fn byte(arr: u32, idx: u64) -> u8 {
    unsafe { sym_byte(arr, idx) }
}
pub fn u16_(arr: u32, idx: u64) -> u16 {
    let mut b = [0; 2];
    read(arr, idx, &mut b);
    u16::from_le_bytes(b)
}
pub fn u32_(arr: u32, idx: u64) -> u32 {
    let mut b = [0; 4];
    read(arr, idx, &mut b);
    u32::from_le_bytes(b)
}
pub fn u64_(arr: u32, idx: u64) -> u64 {
    let mut b = [0; 8];
    read(arr, idx, &mut b);
    u64::from_le_bytes(b)
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c as u32) }
}
pub fn check(c: bool, id: &'static str) {
    unsafe { sym_check(c as u32, id.as_ptr(), id.len()) }
}
pub fn reach(id: &'static str) {
    unsafe { sym_reach(id.as_ptr(), id.len()) }
}
pub fn observe(v: u64) {
    unsafe { sym_observe(v) }
}
pub fn concretize(v: u64) -> u64 {
    unsafe { sym_concretize(v) }
}
/// Explore both sides of selections and minima separately (makes for simpler queries).
pub fn split(c: bool) {
    unsafe { sym_split(c as u32) }
}
pub fn alloc_limit(v: u64) {
    unsafe { sym_alloc_limit(v) }
}
/// A choice among 0..n, explored completely; made by byte `idx` of array `arr`.
pub fn choose(arr: u32, idx: u64, n: u8) -> u8 {
    let v = byte(arr, idx);
    assume(v < n);
    concretize(v as u64) as u8
}

pub fn le16(b: &[u8], o: usize) -> u16 {
    u16::from_le_bytes([b[o], b[o + 1]])
}
pub fn le32(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]])
}
pub fn le64(b: &[u8], o: usize) -> u64 {
    let mut a = [0u8; 8];
    a.copy_from_slice(&b[o..o + 8]);
    u64::from_le_bytes(a)
}
pub fn put(b: &mut [u8], o: usize, v: &[u8]) {
    b[o..o + v.len()].copy_from_slice(v);
}
pub fn put16(b: &mut [u8], o: usize, v: u16) {
    put(b, o, &v.to_le_bytes())
}
pub fn put32(b: &mut [u8], o: usize, v: u32) {
    put(b, o, &v.to_le_bytes())
}
pub fn put64(b: &mut [u8], o: usize, v: u64) {
    put(b, o, &v.to_le_bytes())
}
