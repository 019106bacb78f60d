//! Native counterpart of the symbolic executor: runs one harness on the input values of a file
//! (lines "array index value"; unlisted bytes are 0) against the natively compiled crate.
//!
//! Exit codes: 0 finished, 1 a check failed (CHECK-FAILED id), 77 an assumption does not hold,
//! 101 panic; other endings are crashes.
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashMap;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};

struct Limited;
static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
fn too_big(size: usize) {
    if size as u64 > LIMIT.load(Ordering::Relaxed) {
        LIMIT.store(u64::MAX, Ordering::Relaxed);
        finish(1, &format!("CHECK-FAILED allocation larger than allowed ({size} bytes)"));
    }
}
unsafe impl GlobalAlloc for Limited {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        too_big(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        too_big(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        too_big(n);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Limited = Limited;

static mut CELLS: Option<HashMap<(u32, u64), u8>> = None;

fn finish(code: i32, msg: &str) -> ! {
    let out = std::io::stdout();
    let mut o = out.lock();
    if !msg.is_empty() {
        let _ = writeln!(o, "{msg}");
    }
    let _ = o.flush();
    std::process::exit(code)
}

fn cell(arr: u32, idx: u64) -> u8 {
    #[allow(static_mut_refs)]
    unsafe {
        CELLS.as_ref().and_then(|c| c.get(&(arr, idx)).copied()).unwrap_or(0)
    }
}
#[no_mangle]
unsafe extern "C" fn sym_bytes(p: *mut u8, n: usize, arr: u32) {
    for i in 0..n {
        *p.add(i) = cell(arr, i as u64);
    }
}
#[no_mangle]
unsafe extern "C" fn sym_read(arr: u32, idx: u64, p: *mut u8, n: usize) {
    for i in 0..n {
        *p.add(i) = cell(arr, idx.wrapping_add(i as u64));
    }
}
#[no_mangle]
extern "C" fn sym_byte(arr: u32, idx: u64) -> u8 {
    cell(arr, idx)
}
#[no_mangle]
extern "C" fn sym_assume(c: u32) {
    if c == 0 {
        finish(77, "ASSUMPTION-FAILED");
    }
}
unsafe fn text(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()
}
#[no_mangle]
unsafe extern "C" fn sym_check(c: u32, p: *const u8, n: usize) {
    if c == 0 {
        let s = text(p, n);
        finish(1, &format!("CHECK-FAILED {s}"));
    }
}
#[no_mangle]
unsafe extern "C" fn sym_reach(p: *const u8, n: usize) {
    println!("REACH {}", text(p, n));
}
#[no_mangle]
extern "C" fn sym_observe(v: u64) {
    println!("OBS {v}");
}
#[no_mangle]
extern "C" fn sym_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
extern "C" fn sym_split(_c: u32) {}
#[no_mangle]
extern "C" fn sym_alloc_limit(v: u64) {
    LIMIT.store(v, Ordering::Relaxed);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let f = h::entries().into_iter().find(|e| e.0 == args[1]).expect("unknown entry").1;
    let mut cells = HashMap::new();
    for l in std::fs::read_to_string(&args[2]).expect("input file").lines() {
        let v: Vec<u64> = l.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        if v.len() == 3 {
            cells.insert((v[0] as u32, v[1]), v[2] as u8);
        }
    }
    unsafe { CELLS = Some(cells) };
    f();
    finish(0, "DONE");
}
