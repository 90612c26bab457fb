//! ELF tables as bytes, for what the writers must produce.
#![allow(dead_code)]
use crate::img::E;
use crate::nd;
use object::write::elf::{Rel, Sym};

/// 8 bytes in the width of the class
pub fn word(e: E, v: u64) -> u64 { v & e.wmask() }
/// the string at `off` of the table at `at`
pub fn string(d: &[u8], at: usize, off: u64, s: &[u8]) {
    let o = at + nd::conc(off) as usize;
    nd::ck_bytes(&d[o..o + s.len()], s);
    nd::ck(d[o + s.len()] == 0);
}
pub fn rel_bytes(e: E, rela: bool, r: &[Rel]) -> Vec<u8> {
    let (w, n) = (e.w(), e.w() * (2 + rela as usize));
    let mut d = vec![0; n * r.len()];
    for (i, r) in r.iter().enumerate() {
        e.put(&mut d, n * i, w, r.r_offset);
        e.put(&mut d, n * i + w, w, if e.is64 { (r.r_sym as u64) << 32 | r.r_type.0 as u64 } else { (r.r_sym as u64) << 8 | r.r_type.0 as u64 });
        if rela { e.put(&mut d, n * i + 2 * w, w, r.r_addend as u64); }
    }
    d
}
/// the bytes of a symbol table with these names
pub fn symtab(e: E, s: &[Sym], name: &[u32]) -> (Vec<u8>, Vec<u8>) {
    let n = e.sym();
    let (mut d, mut x) = (vec![0; n * (s.len() + 1)], vec![0; 4 * (s.len() + 1)]);
    for (i, s) in s.iter().enumerate() {
        let shndx = match s.section { None => s.st_shndx.0 as u64, Some(k) if k >= 0xff00 => { e.put(&mut x, 4 * (i + 1), 4, k as u64); 0xffff } Some(k) => k as u64 };
        for (k, v) in [name[i] as u64, s.st_info.0 as u64, s.st_other.0 as u64, shndx, s.st_value, s.st_size].into_iter().enumerate() { e.symset(&mut d, n * (i + 1), k, v); }
    }
    (d, x)
}
/// an independent lookup in a SysV hash table
pub fn sysv_find(e: E, b: &[u8], nb: u32, n: u32, h: u32, want: u32) -> bool {
    let mut i = nd::conc(e.get(b, 8 + 4 * nd::conc((h % nb) as u64) as usize, 4));
    let mut left = n;
    while i != 0 && i < n as u64 && left != 0 {
        if i == want as u64 { return true; }
        i = nd::conc(e.get(b, 8 + 4 * (nb as usize + i as usize), 4));
        left -= 1;
    }
    false
}
