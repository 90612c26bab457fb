//! Byte-level helpers for building and interpreting images, independent of the crate's own structures.
#![allow(dead_code)]
use crate::nd;

pub fn put(b: &mut [u8], off: usize, n: usize, v: u64, big: bool) {
    let mut i = 0;
    while i < n { b[off + if big { n - 1 - i } else { i }] = (v >> (8 * i)) as u8; i += 1; }
}
pub fn get(b: &[u8], off: usize, n: usize, big: bool) -> u64 {
    let mut v = 0;
    let mut i = 0;
    while i < n { v |= (b[off + if big { n - 1 - i } else { i }] as u64) << (8 * i); i += 1; }
    v
}
pub fn sext(v: u64, bits: u32) -> u64 { (((v << (64 - bits)) as i64) >> (64 - bits)) as u64 }
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < a.len() { if a[i] != b[i] { return false; } i += 1; }
    true
}
/// does [off, off+n) lie inside `len` bytes
pub fn fits(off: u64, n: u64, len: usize) -> bool { off <= len as u64 && n <= len as u64 - off }
/// the result of reading `n` bytes at `off`: an empty read always succeeds
pub fn readable(off: u64, n: u64, len: usize) -> bool { n == 0 || fits(off, n, len) }
#[track_caller]
pub fn same_slice(r: &[u8], whole: &[u8], off: u64, n: u64) {
    nd::ck_eq(r.len() as u64, n);
    if n != 0 { nd::ck(r.as_ptr() as usize == whole.as_ptr() as usize + off as usize); }
}
/// the C string at `s` before `end`
pub fn cstr(b: &[u8], s: u64, end: u64) -> Option<&[u8]> {
    if s > end || end > b.len() as u64 { return None; }
    let s = nd::conc(s) as usize;
    let end = nd::conc(end) as usize;
    let mut i = s;
    while i < end { if b[i] == 0 { return Some(&b[s..i]); } i += 1; }
    None
}
pub fn pick(v: &[u64]) -> u64 { v[nd::below(v.len())] }
/// what data_range returns for a section of bytes `d` at `addr`
#[track_caller]
pub fn ck_range(r: Option<&[u8]>, d: &[u8], addr: u64, a: u64, n: u64) {
    let inside = a >= addr && fits(a.wrapping_sub(addr), n, d.len());
    nd::ck(r.is_some() == inside);
    if let Some(r) = r { same_slice(r, d, a - addr, n); }
}

/// ELF field positions
#[derive(Clone, Copy)]
pub struct E { pub is64: bool, pub big: bool }
impl E {
    pub fn any() -> E { E { is64: nd::flag(), big: nd::flag() } }
    pub fn w(self) -> usize { if self.is64 { 8 } else { 4 } }
    pub fn wmask(self) -> u64 { if self.is64 { !0 } else { 0xffff_ffff } }
    pub fn eh(self) -> usize { if self.is64 { 64 } else { 52 } }
    pub fn sh(self) -> usize { if self.is64 { 64 } else { 40 } }
    pub fn ph(self) -> usize { if self.is64 { 56 } else { 32 } }
    pub fn sym(self) -> usize { if self.is64 { 24 } else { 16 } }
    pub fn put(self, b: &mut [u8], off: usize, n: usize, v: u64) { put(b, off, n, v, self.big) }
    pub fn get(self, b: &[u8], off: usize, n: usize) -> u64 { get(b, off, n, self.big) }
    /// (offset, size) of header fields
    pub fn eh_type(self) -> (usize, usize) { (16, 2) }
    pub fn eh_machine(self) -> (usize, usize) { (18, 2) }
    pub fn eh_version(self) -> (usize, usize) { (20, 4) }
    pub fn eh_entry(self) -> (usize, usize) { (24, self.w()) }
    pub fn eh_phoff(self) -> (usize, usize) { (24 + self.w(), self.w()) }
    pub fn eh_shoff(self) -> (usize, usize) { (24 + 2 * self.w(), self.w()) }
    pub fn eh_flags(self) -> (usize, usize) { (24 + 3 * self.w(), 4) }
    pub fn eh_ehsize(self) -> (usize, usize) { (28 + 3 * self.w(), 2) }
    pub fn eh_phentsize(self) -> (usize, usize) { (30 + 3 * self.w(), 2) }
    pub fn eh_phnum(self) -> (usize, usize) { (32 + 3 * self.w(), 2) }
    pub fn eh_shentsize(self) -> (usize, usize) { (34 + 3 * self.w(), 2) }
    pub fn eh_shnum(self) -> (usize, usize) { (36 + 3 * self.w(), 2) }
    pub fn eh_shstrndx(self) -> (usize, usize) { (38 + 3 * self.w(), 2) }
    /// 0 name 1 type 2 flags 3 addr 4 offset 5 size 6 link 7 info 8 align 9 entsize
    pub fn shf(self, i: usize) -> (usize, usize) {
        if self.is64 { [(0, 4), (4, 4), (8, 8), (16, 8), (24, 8), (32, 8), (40, 4), (44, 4), (48, 8), (56, 8)][i] } else { (4 * i, 4) }
    }
    /// 0 type 1 flags 2 offset 3 vaddr 4 paddr 5 filesz 6 memsz 7 align
    pub fn phf(self, i: usize) -> (usize, usize) {
        if self.is64 { [(0, 4), (4, 4), (8, 8), (16, 8), (24, 8), (32, 8), (40, 8), (48, 8)][i] } else { ([0, 24, 4, 8, 12, 16, 20, 28][i], 4) }
    }
    /// 0 name 1 info 2 other 3 shndx 4 value 5 size
    pub fn symf(self, i: usize) -> (usize, usize) {
        if self.is64 { [(0, 4), (4, 1), (5, 1), (6, 2), (8, 8), (16, 8)][i] } else { [(0, 4), (12, 1), (13, 1), (14, 2), (4, 4), (8, 4)][i] }
    }
    pub fn set(self, b: &mut [u8], f: (usize, usize), v: u64) { self.put(b, f.0, f.1, v) }
    pub fn rd(self, b: &[u8], f: (usize, usize)) -> u64 { self.get(b, f.0, f.1) }
    pub fn shset(self, b: &mut [u8], at: usize, i: usize, v: u64) { let (o, n) = self.shf(i); self.put(b, at + o, n, v) }
    pub fn shget(self, b: &[u8], at: usize, i: usize) -> u64 { let (o, n) = self.shf(i); self.get(b, at + o, n) }
    pub fn phset(self, b: &mut [u8], at: usize, i: usize, v: u64) { let (o, n) = self.phf(i); self.put(b, at + o, n, v) }
    pub fn phget(self, b: &[u8], at: usize, i: usize) -> u64 { let (o, n) = self.phf(i); self.get(b, at + o, n) }
    pub fn symset(self, b: &mut [u8], at: usize, i: usize, v: u64) { let (o, n) = self.symf(i); self.put(b, at + o, n, v) }
    pub fn symget(self, b: &[u8], at: usize, i: usize) -> u64 { let (o, n) = self.symf(i); self.get(b, at + o, n) }
    /// a valid identification and sizes, tables absent
    pub fn ident(self, b: &mut [u8]) {
        b[0] = 0x7f; b[1] = b'E'; b[2] = b'L'; b[3] = b'F';
        b[4] = if self.is64 { 2 } else { 1 };
        b[5] = if self.big { 2 } else { 1 };
        b[6] = 1;
        self.set(b, self.eh_version(), 1);
        self.set(b, self.eh_ehsize(), self.eh() as u64);
        self.set(b, self.eh_phentsize(), self.ph() as u64);
        self.set(b, self.eh_shentsize(), self.sh() as u64);
    }
    pub fn sections(self, b: &mut [u8], off: u64, n: u64, strndx: u64) {
        self.set(b, self.eh_shoff(), off);
        self.set(b, self.eh_shnum(), n);
        self.set(b, self.eh_shstrndx(), strndx);
    }
    pub fn segments(self, b: &mut [u8], off: u64, n: u64) {
        self.set(b, self.eh_phoff(), off);
        self.set(b, self.eh_phnum(), n);
    }
    pub fn section(self, b: &mut [u8], at: usize, name: u64, ty: u64, off: u64, size: u64) {
        self.shset(b, at, 0, name);
        self.shset(b, at, 1, ty);
        self.shset(b, at, 4, off);
        self.shset(b, at, 5, size);
    }
}

/// Mach-O field positions
#[derive(Clone, Copy)]
pub struct M { pub is64: bool, pub big: bool }
impl M {
    pub fn any() -> M { M { is64: nd::flag(), big: nd::flag() } }
    pub fn two() -> M { let x = nd::flag(); M { is64: x, big: !x } }
    pub fn w(self) -> usize { if self.is64 { 8 } else { 4 } }
    pub fn hdr(self) -> usize { if self.is64 { 32 } else { 28 } }
    pub fn seg(self) -> usize { if self.is64 { 72 } else { 56 } }
    pub fn sect(self) -> usize { if self.is64 { 80 } else { 68 } }
    pub fn nlist(self) -> usize { if self.is64 { 16 } else { 12 } }
    pub fn put(self, b: &mut [u8], off: usize, n: usize, v: u64) { put(b, off, n, v, self.big) }
    pub fn get(self, b: &[u8], off: usize, n: usize) -> u64 { get(b, off, n, self.big) }
    pub fn u32(self, b: &[u8], off: usize) -> u64 { get(b, off, 4, self.big) }
    pub fn header(self, b: &mut [u8], cputype: u64, filetype: u64, ncmds: u64, size: u64) {
        put(b, 0, 4, 0xfeed_face + self.is64 as u64, self.big);
        for (i, v) in [cputype, 0, filetype, ncmds, size].into_iter().enumerate() { self.put(b, 4 + 4 * i, 4, v); }
    }
    /// 0 vmaddr 1 vmsize 2 fileoff 3 filesize 4 maxprot 5 initprot 6 nsects 7 flags
    pub fn segf(self, i: usize) -> (usize, usize) {
        let w = self.w();
        if i < 4 { (24 + i * w, w) } else { (24 + 4 * w + 4 * (i - 4), 4) }
    }
    /// 0 addr 1 size 2 offset 3 align 4 reloff 5 nreloc 6 flags 7 reserved1 8 reserved2 9 reserved3
    pub fn sectf(self, i: usize) -> (usize, usize) {
        let w = self.w();
        if i < 2 { (32 + i * w, w) } else { (32 + 2 * w + 4 * (i - 2), 4) }
    }
    pub fn segset(self, b: &mut [u8], at: usize, i: usize, v: u64) { let (o, n) = self.segf(i); self.put(b, at + o, n, v) }
    pub fn segget(self, b: &[u8], at: usize, i: usize) -> u64 { let (o, n) = self.segf(i); self.get(b, at + o, n) }
    pub fn sectset(self, b: &mut [u8], at: usize, i: usize, v: u64) { let (o, n) = self.sectf(i); self.put(b, at + o, n, v) }
    pub fn sectget(self, b: &[u8], at: usize, i: usize) -> u64 { let (o, n) = self.sectf(i); self.get(b, at + o, n) }
    /// a segment command with `n` sections, returns its size
    pub fn segment(self, b: &mut [u8], at: usize, n: usize) -> usize {
        let size = self.seg() + n * self.sect();
        self.put(b, at, 4, if self.is64 { 0x19 } else { 1 });
        self.put(b, at + 4, 4, size as u64);
        self.segset(b, at, 6, n as u64);
        size
    }
    pub fn symtab(self, b: &mut [u8], at: usize, symoff: u64, n: u64, stroff: u64, strsize: u64) {
        for (i, v) in [2, 24, symoff, n, stroff, strsize].into_iter().enumerate() { self.put(b, at + 4 * i, 4, v); }
    }
}
/// the bytes before the first NUL
pub fn name16(b: &[u8]) -> &[u8] {
    let mut i = 0;
    while i < b.len() && b[i] != 0 { i += 1; }
    &b[..nd::conc(i as u64) as usize]
}
/// PE image positions
#[derive(Clone, Copy)]
pub struct P { pub is64: bool, pub nt: usize, pub dirs: usize }
impl P {
    pub fn fh(self) -> usize { self.nt + 4 }
    pub fn opt(self) -> usize { self.nt + 24 }
    pub fn optsize(self) -> usize { if self.is64 { 112 } else { 96 } }
    pub fn dir(self, i: usize) -> usize { self.opt() + self.optsize() + 8 * i }
    pub fn sect(self, i: usize) -> usize { self.dir(self.dirs) + 40 * i }
    /// everything up to `n` section headers
    pub fn header(self, b: &mut [u8], n: usize) {
        put(b, 0, 2, 0x5a4d, false);
        put(b, 60, 4, self.nt as u64, false);
        put(b, self.nt, 4, 0x4550, false);
        put(b, self.fh(), 2, if self.is64 { 0x8664 } else { 0x14c }, false);
        put(b, self.fh() + 2, 2, n as u64, false);
        put(b, self.fh() + 16, 2, (self.optsize() + 8 * self.dirs) as u64, false);
        put(b, self.opt(), 2, if self.is64 { 0x20b } else { 0x10b }, false);
        put(b, self.opt() + self.optsize() - 4, 4, self.dirs as u64, false);
    }
    pub fn set_dir(self, b: &mut [u8], i: usize, va: u64, size: u64) {
        put(b, self.dir(i), 4, va, false);
        put(b, self.dir(i) + 4, 4, size, false);
    }
    pub fn section(self, b: &mut [u8], i: usize, va: u64, vsize: u64, raw: u64, rsize: u64) {
        for (k, v) in [vsize, va, rsize, raw].into_iter().enumerate() { put(b, self.sect(i) + 8 + 4 * k, 4, v, false); }
    }
}
