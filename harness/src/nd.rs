//! Interface between the harnesses and whoever runs them: the symbolic executor
//! (every byte below is a solver variable) or the native replayer (recorded bytes).
#![allow(dead_code)]
use core::panic::Location;

unsafe extern "C" {
    fn sym_bytes(p: *mut u8, n: usize);
    fn sym_assume(b: bool);
    fn sym_assert(b: bool, line: u64);
    fn sym_assert_eq(a: u64, b: u64, line: u64);
    fn sym_reach(id: u64);
    fn sym_concretize(v: u64) -> u64;
    fn sym_observe(v: u64);
}

/// Cargo feature `thorough` selects the larger bound.
pub const fn tier(quick: usize, thorough: usize) -> usize {
    if cfg!(feature = "thorough") { thorough } else { quick }
}

/// A byte buffer aligned like a mapped file.
#[repr(C, align(16))]
#[derive(Clone)]
pub struct Buf<const N: usize>(pub [u8; N]);
impl<const N: usize> Buf<N> {
    pub fn zero() -> Self { Buf([0; N]) }
    pub fn any() -> Self { let mut b = Buf([0; N]); fill(&mut b.0); b }
}
impl<const N: usize> core::ops::Deref for Buf<N> {
    type Target = [u8; N];
    fn deref(&self) -> &[u8; N] { &self.0 }
}
impl<const N: usize> core::ops::DerefMut for Buf<N> {
    fn deref_mut(&mut self) -> &mut [u8; N] { &mut self.0 }
}

pub fn fill(b: &mut [u8]) { unsafe { sym_bytes(b.as_mut_ptr(), b.len()) } }
pub fn bytes<const N: usize>() -> [u8; N] { let mut b = [0; N]; fill(&mut b); b }
pub fn u8() -> u8 { bytes::<1>()[0] }
pub fn u16() -> u16 { u16::from_le_bytes(bytes()) }
pub fn u32() -> u32 { u32::from_le_bytes(bytes()) }
pub fn u64() -> u64 { u64::from_le_bytes(bytes()) }
pub fn bool() -> bool { let b = u8(); assume(b < 2); b == 1 }
/// A boolean explored as two separate path families.
pub fn flag() -> bool { below(2) == 1 }
/// Any value below `n`, explored one concrete value at a time.
pub fn below(n: usize) -> usize {
    if n <= 1 { return 0; }
    let v = if n <= 256 { u8() as u64 } else { u64() };
    assume(v < n as u64);
    conc(v) as usize
}
pub fn range(lo: usize, hi: usize) -> usize { lo + below(hi - lo + 1) }
pub fn conc(v: u64) -> u64 { unsafe { sym_concretize(v) } }
/// fork on how these compare
pub fn order(v: &[u64]) {
    let mut i = 0;
    while i < v.len() {
        let mut j = i + 1;
        while j < v.len() {
            if conc((v[i] < v[j]) as u64) == 0 { conc((v[j] < v[i]) as u64); }
            j += 1;
        }
        i += 1;
    }
}
pub fn conc_usize(v: usize) -> usize { conc(v as u64) as usize }
pub fn assume(b: bool) { unsafe { sym_assume(b) } }
pub fn reach(id: u64) { unsafe { sym_reach(id) } }
pub fn observe(v: u64) { unsafe { sym_observe(v) } }
#[track_caller]
pub fn ck(b: bool) { unsafe { sym_assert(b, Location::caller().line() as u64) } }
#[track_caller]
pub fn ck_eq(a: u64, b: u64) { unsafe { sym_assert_eq(a, b, Location::caller().line() as u64) } }
#[track_caller]
pub fn ck_bytes(a: &[u8], b: &[u8]) {
    let line = Location::caller().line() as u64;
    unsafe {
        sym_assert_eq(a.len() as u64, b.len() as u64, line);
        let mut i = 0;
        while i < a.len() {
            sym_assert_eq(a[i] as u64, b[i] as u64, line);
            i += 1;
        }
    }
}
/// Unwrap where an error is a violation of the property.
#[track_caller]
pub fn must<T, E>(r: Result<T, E>) -> T {
    match r {
        Ok(v) => v,
        Err(_) => {
            unsafe { sym_assert(false, Location::caller().line() as u64) };
            loop {}
        }
    }
}
#[track_caller]
pub fn some<T>(r: Option<T>) -> T {
    match r {
        Some(v) => v,
        None => {
            unsafe { sym_assert(false, Location::caller().line() as u64) };
            loop {}
        }
    }
}

#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
        $($(#[$m])* #[unsafe(no_mangle)] pub extern "C" fn $n() $b)*
        #[allow(dead_code)]
        pub const TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n)),*];
    };
}
