//! Native replayer: `replay <harness> <hex input>` runs a harness on recorded bytes with the real
//! dependencies.  Exit 0 completed, 77 assumption not met, 99 assertion failed, 101 panic.
#![allow(clippy::all)]
mod nd;
mod img;
mod elfout;
include!("props.rs");

use std::sync::Mutex;
/// the executor's bound on a single allocation
struct Limit;
unsafe impl std::alloc::GlobalAlloc for Limit {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() > 64 << 20 { println!("ALLOCATION of {} bytes", l.size()); std::process::exit(98) }
        unsafe { std::alloc::System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { unsafe { std::alloc::System.dealloc(p, l) } }
}
#[global_allocator]
static LIMIT: Limit = Limit;
static INPUT: Mutex<(Vec<u8>, usize)> = Mutex::new((Vec::new(), 0));
#[unsafe(no_mangle)]
extern "C" fn sym_bytes(p: *mut u8, n: usize) {
    let mut g = INPUT.lock().unwrap();
    for i in 0..n {
        let at = g.1;
        let b = g.0.get(at).copied().unwrap_or(0);
        g.1 += 1;
        unsafe { *p.add(i) = b };
    }
}
#[unsafe(no_mangle)]
extern "C" fn sym_assume(b: bool) { if !b { std::process::exit(77) } }
#[unsafe(no_mangle)]
extern "C" fn sym_assert(b: bool, line: u64) {
    if !b { println!("ASSERTION FAILED at line {line} of the harness"); std::process::exit(99) }
}
#[unsafe(no_mangle)]
extern "C" fn sym_assert_eq(a: u64, b: u64, line: u64) {
    if a != b { println!("ASSERTION FAILED at line {line} of the harness: {a:#x} != {b:#x}"); std::process::exit(99) }
}
#[unsafe(no_mangle)]
extern "C" fn sym_reach(_: u64) {}
#[unsafe(no_mangle)]
extern "C" fn sym_concretize(v: u64) -> u64 { v }
#[unsafe(no_mangle)]
extern "C" fn sym_observe(v: u64) { println!("OBS {v}") }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let hex = a.get(2).map(String::as_str).unwrap_or("");
    let v = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
    INPUT.lock().unwrap().0 = v;
    for t in TABLES {
        for (n, f) in *t {
            if *n == a[1] { f(); println!("DONE"); return; }
        }
    }
    eprintln!("no harness {}", a[1]);
    std::process::exit(2);
}
