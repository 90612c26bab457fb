//! Solver-friendly model of the `memchr` crate API: same contract, plain byte loops.
#![no_std]
#[inline]
pub fn memchr(n: u8, h: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < h.len() {
        if h[i] == n { return Some(i); }
        i += 1;
    }
    None
}
#[inline]
pub fn memchr2(n1: u8, n2: u8, h: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < h.len() {
        if h[i] == n1 || h[i] == n2 { return Some(i); }
        i += 1;
    }
    None
}
#[inline]
pub fn memchr3(n1: u8, n2: u8, n3: u8, h: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < h.len() {
        if h[i] == n1 || h[i] == n2 || h[i] == n3 { return Some(i); }
        i += 1;
    }
    None
}
#[inline]
pub fn memrchr(n: u8, h: &[u8]) -> Option<usize> {
    let mut i = h.len();
    while i > 0 {
        i -= 1;
        if h[i] == n { return Some(i); }
    }
    None
}
pub fn memchr_iter(n: u8, h: &[u8]) -> impl Iterator<Item = usize> + '_ {
    h.iter().enumerate().filter(move |x| *x.1 == n).map(|x| x.0)
}
pub mod memmem {
    pub fn find(h: &[u8], n: &[u8]) -> Option<usize> {
        let mut i = 0;
        while i + n.len() <= h.len() {
            if &h[i..i + n.len()] == n { return Some(i); }
            i += 1;
        }
        None
    }
}
