//! COFF objects, bigobj files and short import files.
use crate::{harnesses, img, nd};
use nd::Buf;
use object::pe;
use object::read::coff::{CoffFile, CoffHeader, ImportFile, ImportName, ImportType, Symbol as _};
use object::read::*;
use object::{Permissions, RelocationFlags, SectionFlags, SegmentFlags, SymbolFlags};

type Small = pe::ImageFileHeader;
type Big = pe::AnonObjectHeaderBigobj;
macro_rules! by_size {
    ($e:expr, $f:ident($($a:expr),*)) => { if $e.big { $f::<Big>($($a),*) } else { $f::<Small>($($a),*) } };
}
fn put(b: &mut [u8], off: usize, n: usize, v: u64) { img::put(b, off, n, v, false) }
fn get(b: &[u8], off: usize, n: usize) -> u64 { img::get(b, off, n, false) }

const CLSID: [u8; 16] = [0xc7, 0xa1, 0xba, 0xd1, 0xee, 0xba, 0xa9, 0x4b, 0xaf, 0x20, 0xfa, 0xf6, 0x6a, 0xa4, 0xdc, 0xb8];
#[derive(Clone, Copy)]
struct L { big: bool }
impl L {
    fn any() -> L { L { big: nd::flag() } }
    fn hdr(self) -> usize { if self.big { 56 } else { 20 } }
    fn sym(self) -> usize { if self.big { 20 } else { 18 } }
    /// 0 machine 1 sections 2 symbol pointer 3 symbol count
    fn f(self, i: usize) -> (usize, usize) { if self.big { [(6, 2), (44, 4), (48, 4), (52, 4)][i] } else { [(0, 2), (2, 2), (8, 4), (12, 4)][i] } }
    /// 0 value 1 section 2 type 3 class 4 aux
    fn y(self, i: usize) -> (usize, usize) { if self.big { [(8, 4), (12, 4), (16, 2), (18, 1), (19, 1)][i] } else { [(8, 4), (12, 2), (14, 2), (16, 1), (17, 1)][i] } }
    fn set(self, b: &mut [u8], i: usize, v: u64) { let (o, n) = self.f(i); put(b, o, n, v) }
    fn rd(self, b: &[u8], i: usize) -> u64 { let (o, n) = self.f(i); get(b, o, n) }
    fn yset(self, b: &mut [u8], at: usize, i: usize, v: u64) { let (o, n) = self.y(i); put(b, at + o, n, v) }
    fn yget(self, b: &[u8], at: usize, i: usize) -> u64 { let (o, n) = self.y(i); get(b, at + o, n) }
    fn ident(self, b: &mut [u8], machine: u64, sections: u64, symptr: u64, syms: u64) {
        if self.big { put(b, 2, 2, 0xffff); put(b, 4, 2, 2); b[12..28].copy_from_slice(&CLSID); }
        for (i, v) in [machine, sections, symptr, syms].into_iter().enumerate() { self.set(b, i, v); }
    }
    /// section number as a signed value
    fn sect(self, b: &[u8], at: usize) -> i64 {
        let v = self.yget(b, at, 1);
        if self.big { v as u32 as i32 as i64 } else if v > 0xfeff { v as u16 as i16 as i64 } else { v as i64 }
    }
}

/// header validity and fields, section and symbol tables' positions
fn header<C: CoffHeader>(l: L) {
    let mut b = Buf::<160>::zero();
    nd::fill(&mut b.0[..l.hdr()]);
    let h = l.hdr();
    if l.big {
        // stay near a valid identification
        let mut i = 12;
        let k = nd::below(16);
        while i < 28 { if i != 12 + k { b.0[i] = CLSID[i - 12]; } i += 1; }
    }
    let len = [h - 1, h, h + 40, h + 80, 160][nd::below(5)];
    l.set(&mut b.0, 1, img::pick(&[0, 1, 2, if l.big { 0xffff_ffff } else { 0xffff }]));
    let sp = img::pick(&[0, 100, 158, 0xffff_fff0]);
    l.set(&mut b.0, 2, sp);
    l.set(&mut b.0, 3, img::pick(&[0, 1, 0xffff_ffff]));
    if !l.big { put(&mut b.0, 16, 2, img::pick(&[0, 4, 0xffff])); }
    let opt = if l.big { 0 } else { get(&b.0, 16, 2) };
    let d = &b.0[..len];
    let r = CoffFile::<&[u8], C>::parse(d);
    let id = !l.big || get(&b.0, 0, 2) == 0 && get(&b.0, 2, 2) == 0xffff && get(&b.0, 4, 2) >= 2 && img::eq(&b.0[12..28], &CLSID);
    let (ns, ny) = (l.rd(&b.0, 1), l.rd(&b.0, 3));
    let sect = img::readable(h as u64 + opt, 40 * ns, len);
    let syms = sp == 0 || img::readable(sp, l.sym() as u64 * ny, len) && img::fits(sp + l.sym() as u64 * ny, 4, len);
    nd::ck(r.is_ok() == (len >= h && id && sect && syms));
    let Ok(f) = r else { nd::reach(1); return };
    nd::reach(2);
    let m = l.rd(d, 0);
    nd::ck(f.architecture() == match m {
        0x1c4 => Architecture::Arm,
        0xaa64 | 0xa641 => Architecture::Aarch64,
        0x14c => Architecture::I386,
        0x8664 => Architecture::X86_64,
        0x1f0 | 0x1f1 | 0x1f2 => Architecture::PowerPc,
        _ => Architecture::Unknown,
    });
    nd::ck(f.sub_architecture().is_some() == (m == 0xa641));
    nd::ck(f.is_little_endian() == (m != 0x1f2));
    nd::ck(!f.is_64() && f.kind() == ObjectKind::Relocatable && f.entry() == 0);
    let FileFlags::Coff { characteristics } = f.flags() else { nd::ck(false); return };
    nd::ck_eq(characteristics.0 as u64, if l.big { 0 } else { get(d, 18, 2) });
    nd::ck_eq(f.coff_section_table().len() as u64, ns);
    nd::ck_eq(f.coff_symbol_table().len() as u64, if sp == 0 { 0 } else { ny });
    nd::ck_eq(f.sections().count() as u64, ns);
    nd::ck_eq(f.segments().count() as u64, ns);
}

fn kind(c: u64) -> SectionKind {
    if c & 0x2000_0020 != 0 { SectionKind::Text }
    else if c & 0x40 != 0 { if c & 0x0200_0000 != 0 { SectionKind::Other } else if c & 0x8000_0000 != 0 { SectionKind::Data } else { SectionKind::ReadOnlyData } }
    else if c & 0x80 != 0 { SectionKind::UninitializedData }
    else if c & 0x200 != 0 { SectionKind::Linker }
    else { SectionKind::Unknown }
}
/// two sections, the second with arbitrary fields
fn sections<C: CoffHeader>(l: L) {
    let mut b = Buf::<160>::any();
    let h = l.hdr();
    nd::fill(&mut b.0[h..h + 80]);
    b.0[..h].fill(0);
    l.ident(&mut b.0, 0x8664, 2, 0, 0);
    let at = h + 40;
    let n = h + 84;
    for i in 0..2 { b.0[h + 40 * i..h + 40 * i + 8].copy_from_slice(if i == 0 { b".text\0\0\0" } else { b".longer8" }); }
    let off = img::pick(&[0, h as u64, n as u64 - 1, n as u64, 0x8000_0000]);
    let size = img::pick(&[0, 1, 4, 40, 0xffff_ffff]);
    put(&mut b.0, at + 20, 4, off);
    put(&mut b.0, at + 16, 4, size);
    let d = &b.0[..n];
    let f = nd::must(CoffFile::<&[u8], C>::parse(d));
    let s = nd::must(f.section_by_index(SectionIndex(2)));
    nd::ck(f.section_by_index(SectionIndex(0)).is_err() && f.section_by_index(SectionIndex(3)).is_err() && f.section_by_index(SectionIndex(usize::MAX)).is_err());
    let (z, t) = (nd::some(f.sections().nth(1)), nd::some(f.segments().nth(1)));
    nd::ck(z.index() == SectionIndex(2) && s.index() == SectionIndex(2));
    let c = get(d, at + 36, 4);
    nd::ck(z.kind() == kind(c) && s.kind() == kind(c));
    nd::ck_eq(s.address(), get(d, at + 12, 4));
    nd::ck_eq(s.size(), size);
    nd::ck_eq(t.address(), get(d, at + 12, 4));
    nd::ck_eq(t.size(), get(d, at + 8, 4));
    let al = c >> 20 & 15;
    let want = if al == 0 || al == 15 { 16 } else { 1 << (al - 1) };
    nd::ck_eq(s.align(), want);
    nd::ck_eq(t.align(), want);
    let bss = c & 0x80 != 0;
    nd::ck(s.file_range() == if bss { None } else { Some((off, size)) });
    nd::ck(t.file_range() == if bss { (0, 0) } else { (off, size) });
    let ok = bss || img::readable(off, size, n);
    nd::ck(s.data().is_ok() == ok && t.data().is_ok() == ok);
    if ok {
        let want: &[u8] = if bss || size == 0 { &[] } else { &d[off as usize..(off + size) as usize] };
        img::same_slice(nd::must(s.data()), want, 0, want.len() as u64);
        img::same_slice(nd::must(t.data()), want, 0, want.len() as u64);
        let (a, k) = (nd::u64(), img::pick(&[0, 1, 4]));
        img::ck_range(nd::must(s.data_range(a, k)), want, s.address(), a, k);
        img::ck_range(nd::must(t.data_range(a, k)), want, s.address(), a, k);
        nd::reach(1);
    }
    let SectionFlags::Coff { characteristics } = s.flags() else { nd::ck(false); return };
    nd::ck_eq(characteristics.0 as u64, c);
    let SegmentFlags::Coff { characteristics } = t.flags() else { nd::ck(false); return };
    nd::ck_eq(characteristics.0 as u64, c);
    let p: Permissions = t.permissions();
    nd::ck(p.readable() == (c & 0x4000_0000 != 0) && p.writable() == (c & 0x8000_0000 != 0) && p.executable() == (c & 0x2000_0000 != 0));
    nd::ck_bytes(nd::must(s.name_bytes()), b".longer8");
    nd::ck_bytes(nd::some(nd::must(t.name_bytes())), b".longer8");
    nd::ck_bytes(nd::must(nd::must(f.section_by_index(SectionIndex(1))).name_bytes()), b".text");
    nd::ck(nd::some(f.section_by_name(".longer8")).index() == SectionIndex(2));
    nd::ck(f.section_by_name(".longer").is_none());
    nd::ck_eq(f.coff_section_table().max_section_file_offset(), { let x = get(d, h + 16, 4) + get(d, h + 20, 4); let y = off + size; if x > y { x } else { y } });
}

/// numbers encoded in section names: base 10 and base 64, any characters
fn name_offset(base64: bool) {
    let mut s = pe::ImageSectionHeader::default();
    s.name[0] = b'/';
    let k = if base64 { s.name[1] = b'/'; 2 } else { 1 };
    // one character varies fully; the rest are the first or last digit or, at the end, padding
    let free = nd::range(k, 7);
    let (lo, hi) = if base64 { (b'A', b'/') } else { (0, b'9') };
    for i in k..8 { s.name[i] = if i == free { nd::u8() } else { if nd::flag() { hi } else if base64 { lo } else { 0 } }; }
    if !base64 { nd::assume(s.name[1] != b'/'); }
    let mut v = 0u64;
    let mut bad = false;
    let mut i = k;
    while i < 8 {
        let c = s.name[i] as u64;
        let digit = c.wrapping_sub(48);
        if base64 {
            let x = if c >= 65 && c <= 90 { c - 65 } else if c >= 97 && c <= 122 { c - 71 } else if digit < 10 { digit + 52 } else if c == 43 { 62 } else if c == 47 { 63 } else { 64 };
            bad |= x == 64;
            v = v << 6 | x & 63;
        } else {
            if c == 0 { break; }
            if digit > 9 { bad = true; break; }
            v = ((v as u32) * 10 + digit as u32) as u64;
        }
        i += 1;
    }
    if v > 0xffff_ffff { bad = true; }
    match s.name_offset() {
        Ok(Some(o)) => { nd::ck(!bad); nd::ck_eq(o as u64, v); nd::reach(1); }
        Ok(None) => nd::ck(false),
        Err(_) => { nd::ck(bad); nd::reach(2); }
    }
}
/// section and symbol names in the string table
fn names<C: CoffHeader>(l: L) {
    let mut b = Buf::<160>::zero();
    let h = l.hdr();
    let sy = h + 40;
    let st = sy + l.sym();
    l.ident(&mut b.0, 0x8664, 1, sy as u64, 1);
    // string table of 4 + 6 bytes
    let declared = img::pick(&[0, 3, 4, 8, 10, 11, 0xffff_ffff]);
    put(&mut b.0, st, 4, declared);
    let n = st + 10;
    let t = nd::bytes::<6>();
    for i in 0..6 { b.0[st + 4 + i] = t[i]; }
    let o = img::pick(&[0, 1, 2, 3, 4, 5, 7, 8, 9]);
    b.0[h] = b'/';
    b.0[h + 1] = b'0' + o as u8;
    put(&mut b.0, sy + 4, 4, o);
    let which = nd::flag();
    if which {
        // a name inside the record
        for i in 0..8 { b.0[h + i] = b'a' + i as u8; b.0[sy + i] = b'p' + i as u8; }
        let z = nd::below(9);
        if z < 8 { b.0[sy + z] = 0; b.0[h + z] = 0; }
    }
    let d = &b.0[..n];
    let f = nd::must(CoffFile::<&[u8], C>::parse(d));
    let s = nd::must(f.section_by_index(SectionIndex(1)));
    let y = nd::must(f.symbol_by_index(SymbolIndex(0)));
    if which {
        let mut z = 0;
        while z < 8 && d[h + z] != 0 { z += 1; }
        nd::ck_bytes(nd::must(s.name_bytes()), &d[h..h + z]);
        // a first NUL and an offset from the second half of the field, whatever it is
        if z > 0 { nd::ck_bytes(nd::must(y.name_bytes()), &d[sy..sy + z]); nd::reach(1); }
        return;
    }
    // a string must be terminated before the end of the table, and of the file
    let end = st as u64 + declared;
    let mut want = None;
    if o <= declared {
        let mut i = st + o as usize;
        while (i as u64) < end && i < n { if d[i] == 0 { want = Some(&d[st + o as usize..i]); break; } i += 1; }
    }
    for (i, r) in [s.name_bytes(), y.name_bytes()].into_iter().enumerate() {
        // a symbol with an empty name; the string table starts with its size
        let want = if i == 1 && o == 0 { Some(&d[..0]) } else { want };
        if i == 1 && o == 0 { nd::ck(r.is_ok()); }
        if end <= n as u64 || want.is_none() { nd::ck(r.is_ok() == want.is_some()); }
        if let (Ok(r), Some(w)) = (r, want) { nd::ck_bytes(r, w); nd::reach(2); }
    }
}

/// a symbol with arbitrary fields and an auxiliary record
fn symbols<C: CoffHeader>(l: L, file: bool) {
    let mut b = Buf::<200>::zero();
    let h = l.hdr();
    let sy = h + 80;
    l.ident(&mut b.0, 0x8664, 2, sy as u64, 3);
    put(&mut b.0, h + 12, 4, nd::u32() as u64);
    put(&mut b.0, h + 52, 4, nd::u32() as u64);
    let z = l.sym();
    let st = sy + 3 * z;
    put(&mut b.0, st, 4, 4);
    nd::fill(&mut b.0[sy..sy + 2 * z]);
    for i in 0..8 { b.0[sy + i] = b"name\0\0\0\0"[i]; b.0[sy + 2 * z + i] = b"last\0\0\0\0"[i]; }
    if file { l.yset(&mut b.0, sy, 3, 0x67); for i in 2..z { b.0[sy + z + i] = 0; } b.0[sy + z] = nd::u8(); }
    let n = st + 4;
    let aux = img::pick(&[0, 1, 2, 255]);
    l.yset(&mut b.0, sy, 4, aux);
    l.yset(&mut b.0, sy + z, 4, 0);
    let (v, t, c) = (l.yget(&b.0, sy, 0), l.yget(&b.0, sy, 2), l.yget(&b.0, sy, 3));
    let sect = l.sect(&b.0, sy);
    let d = &b.0[..n];
    let f = nd::must(CoffFile::<&[u8], C>::parse(d));
    let y = nd::must(f.symbol_by_index(SymbolIndex(0)));
    nd::ck(f.symbol_by_index(SymbolIndex(3)).is_err() && f.symbol_by_index(SymbolIndex(usize::MAX)).is_err());
    // iteration skips auxiliary records
    let mut it = f.symbols();
    nd::ck(nd::some(it.next()).index() == SymbolIndex(0));
    match aux {
        0 => nd::ck(nd::some(it.next()).index() == SymbolIndex(1)),
        1 => { let x = nd::some(it.next()); nd::ck(x.index() == SymbolIndex(2)); nd::ck_bytes(nd::must(x.name_bytes()), b"last"); nd::ck(it.next().is_none()); }
        _ => nd::ck(it.next().is_none()),
    }
    let a = sy + z;
    let g = |o, k| get(d, a + o, k);
    // classes: 2 external 3 static 6 label 0x67 file 0x68 section 0x69 weak external
    let (ext, stat, weak) = (c == 2, c == 3, c == 0x69);
    let fun = t & 0x30 == 0x20;
    let is_section = aux > 0 && stat && t == 0;
    nd::ck(y.kind() == match c {
        3 if is_section => SymbolKind::Section,
        2 | 3 | 0x69 => if fun { SymbolKind::Text } else { SymbolKind::Data },
        0x68 => SymbolKind::Section,
        0x67 => SymbolKind::File,
        6 => SymbolKind::Label,
        _ => SymbolKind::Unknown,
    });
    nd::ck(y.section() == if sect == 0 {
        if ext { if v == 0 { SymbolSection::Undefined } else { SymbolSection::Common } } else if c == 0x68 { SymbolSection::Undefined } else { SymbolSection::Unknown }
    } else if sect == -1 { SymbolSection::Absolute }
    else if sect == -2 { if c == 0x67 { SymbolSection::None } else { SymbolSection::Unknown } }
    else if sect < 0 { SymbolSection::Unknown } else { SymbolSection::Section(SectionIndex(sect as usize)) });
    nd::ck(y.is_undefined() == (ext && sect == 0 && v == 0));
    nd::ck(y.is_common() == (ext && sect == 0 && v != 0));
    nd::ck(y.is_definition() == (sect > 0 && (ext || weak || stat && !is_section)));
    nd::ck(y.is_weak() == weak && y.is_global() == (ext || weak) && y.is_local() != y.is_global());
    nd::ck(y.scope() == if ext || weak { SymbolScope::Linkage } else { SymbolScope::Compilation });
    let addr = if !(ext || stat || weak || c == 6) || sect < 1 || sect > 2 { 0 } else { get(d, h + 40 * (if sect == 1 { 0 } else { 1 }) + 12, 4) + v };
    nd::ck_eq(y.address(), addr);
    nd::ck_eq(y.size(), if stat { if is_section { g(0, 4) } else { 0 } } else if ext { if sect == 0 { v } else if aux > 0 && fun { g(4, 4) } else { 0 } } else { 0 });
    match y.flags() {
        SymbolFlags::CoffSection { typ, storage_class, selection, associative_section } => {
            nd::ck(is_section);
            nd::ck(typ.0 as u64 == t && storage_class.0 as u64 == c && selection.0 as u64 == g(14, 1));
            let num = g(12, 2) | if l.big { g(16, 2) << 16 } else { 0 };
            nd::ck(associative_section.is_some() == (num != 0));
            if let Some(x) = associative_section { nd::ck_eq(x.0 as u64, num); }
            nd::reach(2);
        }
        SymbolFlags::Coff { typ, storage_class } => { nd::ck(!is_section); nd::ck(typ.0 as u64 == t && storage_class.0 as u64 == c); }
        _ => nd::ck(false),
    }
    let raw = y.coff_symbol();
    nd::ck(raw.has_aux_weak_external() == (aux > 0 && weak && sect == 0 && v == 0));
    if raw.has_aux_weak_external() { nd::ck_eq(nd::must(f.coff_symbol_table().aux_weak_external(SymbolIndex(0))).default_symbol().0 as u64, g(0, 4)); }
    nd::ck(raw.has_aux_file_name() == (aux > 0 && c == 0x67));
    let name = y.name_bytes();
    if c == 0x67 && aux > 0 {
        // the name fills the auxiliary records
        nd::ck(name.is_ok() == (aux <= 2));
        if let Ok(name) = name {
            let end = a + aux as usize * z;
            let mut i = a;
            while i < end && d[i] != 0 { i += 1; }
            nd::ck_bytes(name, &d[a..i]);
            nd::reach(3);
        }
    } else { nd::ck_bytes(nd::must(name), b"name"); }
    nd::reach(1);
}

/// what each relocation type means: (machine, type, kind, size, addend)
const MAP: &[(u64, u64, RelocationKind, u64, i64)] = { use RelocationKind as K; &[
    (0x1c4, 1, K::Absolute, 32, 0), (0x1c4, 2, K::ImageOffset, 32, 0), (0x1c4, 10, K::Relative, 32, -4), (0x1c4, 14, K::SectionIndex, 16, 0), (0x1c4, 15, K::SectionOffset, 32, 0),
    (0xaa64, 1, K::Absolute, 32, 0), (0xaa64, 2, K::ImageOffset, 32, 0), (0xaa64, 3, K::Relative, 26, 0), (0xaa64, 8, K::SectionOffset, 32, 0), (0xaa64, 13, K::SectionIndex, 16, 0), (0xaa64, 14, K::Absolute, 64, 0), (0xaa64, 17, K::Relative, 32, -4),
    (0x14c, 1, K::Absolute, 16, 0), (0x14c, 2, K::Relative, 16, 0), (0x14c, 6, K::Absolute, 32, 0), (0x14c, 7, K::ImageOffset, 32, 0), (0x14c, 10, K::SectionIndex, 16, 0), (0x14c, 11, K::SectionOffset, 32, 0), (0x14c, 13, K::SectionOffset, 7, 0), (0x14c, 20, K::Relative, 32, -4),
    (0x8664, 1, K::Absolute, 64, 0), (0x8664, 2, K::Absolute, 32, 0), (0x8664, 3, K::ImageOffset, 32, 0), (0x8664, 4, K::Relative, 32, -4), (0x8664, 5, K::Relative, 32, -5), (0x8664, 6, K::Relative, 32, -6), (0x8664, 7, K::Relative, 32, -7), (0x8664, 8, K::Relative, 32, -8), (0x8664, 9, K::Relative, 32, -9), (0x8664, 10, K::SectionIndex, 16, 0), (0x8664, 11, K::SectionOffset, 32, 0), (0x8664, 12, K::SectionOffset, 7, 0),
] };
fn reloc_map<C: CoffHeader>(l: L) {
    let mut b = Buf::<120>::zero();
    let h = l.hdr();
    let m = img::pick(&[0x1c4, 0xaa64, 0xa641, 0x14c, 0x8664, 0x1f2]);
    l.ident(&mut b.0, m, 1, 0, 0);
    put(&mut b.0, h + 24, 4, h as u64 + 40);
    put(&mut b.0, h + 32, 2, 1);
    nd::fill(&mut b.0[h + 40..h + 50]);
    let d = &b.0[..h + 50];
    let f = nd::must(CoffFile::<&[u8], C>::parse(d));
    let s = nd::must(f.section_by_index(SectionIndex(1)));
    let mut it = s.relocations();
    let (o, r) = nd::some(it.next());
    nd::ck(it.next().is_none());
    let t = get(d, h + 48, 2);
    nd::ck_eq(o, get(d, h + 40, 4));
    nd::ck(r.target() == RelocationTarget::Symbol(SymbolIndex(get(d, h + 44, 4) as usize)));
    nd::ck(r.has_implicit_addend());
    nd::ck(r.subtractor().is_none());
    let RelocationFlags::Coff { typ } = r.flags() else { nd::ck(false); return };
    nd::ck_eq(typ.0 as u64, t);
    let mut want = (RelocationKind::Unknown, 0, 0);
    for &(mm, tt, k, z, a) in MAP { if (mm == m || mm == 0xaa64 && m == 0xa641) && tt == t { want = (k, z, a); } }
    nd::ck(r.kind() == want.0);
    nd::ck_eq(r.size() as u64, want.1);
    nd::ck_eq(r.addend() as u64, want.2 as u64);
    if want.0 != RelocationKind::Unknown {
        nd::ck(r.encoding() == if want.1 == 26 { RelocationEncoding::AArch64Call } else { RelocationEncoding::Generic });
        nd::reach(1);
    }
}
/// counts, including the overflow form
fn reloc_count<C: CoffHeader>(l: L) {
    let mut b = Buf::<160>::zero();
    let h = l.hdr();
    l.ident(&mut b.0, 0x8664, 1, 0, 0);
    let n = h + 70;
    let p = img::pick(&[0, h as u64 + 40, h as u64 + 41, n as u64 - 10, n as u64 - 9, 0xffff_fff8]);
    let k = img::pick(&[0, 1, 2, 3, 4, 0xfffe, 0xffff]);
    put(&mut b.0, h + 24, 4, p);
    put(&mut b.0, h + 32, 2, k);
    put(&mut b.0, h + 36, 4, nd::u32() as u64);
    nd::fill(&mut b.0[h + 40..n]);
    let x = img::pick(&[0, 1, 2, 3, 4, 0x1_0000, 0xffff_ffff]);
    put(&mut b.0, h + 40, 4, x);
    let d = &b.0[..n];
    let f = nd::must(CoffFile::<&[u8], C>::parse(d));
    let s = nd::must(f.section_by_index(SectionIndex(1)));
    let over = k == 0xffff && get(d, h + 36, 4) & 0x0100_0000 != 0;
    let (mut from, mut num, mut ok) = (p, k, true);
    if over {
        ok = img::fits(p, 10, n);
        if ok { num = get(d, p as usize, 4); ok = num != 0; num = num.wrapping_sub(1); from = p + 10; }
    }
    ok = ok && img::readable(from, 10 * num, n);
    let r = s.coff_relocations();
    nd::ck(r.is_ok() == ok);
    nd::ck_eq(s.relocations().count() as u64, if ok { num } else { 0 });
    if let Ok(r) = r {
        nd::ck_eq(r.len() as u64, num);
        if !r.is_empty() { nd::ck(r.as_ptr() as usize == d.as_ptr() as usize + from as usize); nd::reach(1); }
    }
    if over { nd::reach(2); }
}

/// COMDAT sections: three section symbols with auxiliary records and two plain symbols
fn comdats<C: CoffHeader>(l: L) {
    let mut b = Buf::<300>::zero();
    let h = l.hdr();
    let z = l.sym();
    let sy = h;
    l.ident(&mut b.0, 0x8664, 0, sy as u64, 6);
    let n = sy + 6 * z + 4;
    put(&mut b.0, n - 4, 4, 4);
    // 0: section symbol + aux, 2: another + aux, 4 and 5: plain symbols
    for i in [0, 2] {
        let at = sy + i * z;
        l.yset(&mut b.0, at, 3, if i == 2 { img::pick(&[2, 3]) } else { 3 });
        l.yset(&mut b.0, at, 4, if i == 0 { img::pick(&[0, 1]) } else { 1 });
        l.yset(&mut b.0, at, 1, img::pick(&[0, 1, 2]));
        l.yset(&mut b.0, at, 2, if i == 0 { nd::u16() as u64 } else { 0 });
        let a = at + z;
        b.0[a + 14] = nd::u8();
        put(&mut b.0, a + 12, 2, img::pick(&[0, 1, 2]));
        put(&mut b.0, a + 16, 2, if l.big { img::pick(&[0, 1]) } else { 0x101 });
        b.0[at] = b'a' + i as u8;
    }
    for i in [4, 5] {
        let at = sy + i * z;
        l.yset(&mut b.0, at, 3, 2);
        l.yset(&mut b.0, at, 1, img::pick(&[1, 2]));
        b.0[at] = b'a' + i as u8;
    }
    let d = &b.0[..n];
    let f = nd::must(CoffFile::<&[u8], C>::parse(d));
    let mut it = f.comdats();
    // symbols in order, skipping auxiliary records
    let mut list = [0usize; 6];
    let (mut m, mut i) = (0, 0);
    while i < 6 { list[m] = i; m += 1; i += 1 + l.yget(d, sy + i * z, 4) as usize; }
    let is_section = |i: usize| { let at = sy + i * z; l.yget(d, at, 4) > 0 && l.yget(d, at, 3) == 3 && l.yget(d, at, 2) == 0 };
    let sel = |i: usize| d[sy + (i + 1) * z + 14];
    let num = |i: usize| { let a = sy + (i + 1) * z; get(d, a + 12, 2) | if l.big { get(d, a + 16, 2) << 16 } else { 0 } };
    for q in 0..m {
        let i = list[q];
        if !is_section(i) { continue; }
        let s = l.sect(d, sy + i * z);
        if s <= 0 || sel(i) == 0 || sel(i) == 5 { continue; }
        let mut t = q + 1;
        while t < m && l.sect(d, sy + list[t] * z) != s { t += 1; }
        if t == m { continue; }
        let c = nd::some(it.next());
        nd::ck_eq(c.symbol().0 as u64, list[t] as u64);
        nd::ck_bytes(nd::must(c.name_bytes()), &[b'a' + list[t] as u8]);
        nd::ck(c.kind() == match sel(i) { 1 => ComdatKind::NoDuplicates, 2 => ComdatKind::Any, 3 => ComdatKind::SameSize, 4 => ComdatKind::ExactMatch, 6 => ComdatKind::Largest, 7 => ComdatKind::Newest, _ => ComdatKind::Unknown });
        let mut sec = c.sections();
        for w in 0..m {
            let j = list[w];
            if !is_section(j) { continue; }
            let x = l.sect(d, sy + j * z);
            if x <= 0 { continue; }
            if sel(j) == 5 && num(j) == s as u64 || sel(j) != 5 && sel(j) != 0 && x == s {
                nd::ck(sec.next() == Some(SectionIndex(x as usize)));
                nd::reach(2);
            }
        }
        nd::ck(sec.next().is_none());
        nd::reach(1);
    }
    nd::ck(it.next().is_none());
}

/// short import files
fn import(part: usize) {
    let mut b = Buf::<40>::zero();
    put(&mut b.0, 2, 2, 0xffff);
    put(&mut b.0, 18, 2, 4);
    if part == 0 { nd::fill(&mut b.0[..12]); }
    let body = [b"_ab@1\0d\0ex\0", b"@?x\0dd.d\0\0\0", b"s\0@\0z\0qqqqq", b"@@@\0dll\0e\0x", b"\0\0\0abcdefgh", b"?q\0dllname_"][if part == 0 { 0 } else { nd::below(6) }];
    for i in 0..11 { b.0[20 + i] = body[i]; }
    let size = if part == 0 { 11 } else { img::pick(&[0, 2, 8, 11, 12, 0xffff_ffff]) };
    put(&mut b.0, 12, 4, size);
    nd::fill(&mut b.0[16..18]);
    if part == 1 { nd::fill(&mut b.0[18..20]); b.0[22] = nd::u8(); }
    let n = if part == 0 { [19, 20, 31][nd::below(3)] } else { 31 };
    let d = &b.0[..n];
    let r = ImportFile::parse(d);
    let head = n >= 20 && get(&b.0, 0, 2) == 0 && get(&b.0, 2, 2) == 0xffff && get(&b.0, 4, 2) == 0;
    let fits = img::readable(20, size, n);
    let (ty, nt) = (get(&b.0, 18, 2) & 3, get(&b.0, 18, 2) >> 2 & 7);
    if !head || !fits { nd::ck(r.is_err()); nd::reach(1); return; }
    let end = 20 + size;
    let mut parts: [Option<&[u8]>; 3] = [None; 3];
    let mut at = 20;
    for k in 0..3 {
        parts[k] = img::cstr(d, at, end);
        match parts[k] { Some(s) => at += s.len() as u64 + 1, None => break }
    }
    let ok = parts[0].is_some() && parts[1].is_some() && (nt != 4 || parts[2].is_some()) && ty < 3 && nt < 5;
    nd::ck(r.is_ok() == ok);
    let Ok(f) = r else { return };
    let name = parts[0].unwrap_or(&[]);
    nd::ck_bytes(f.symbol(), name);
    nd::ck_bytes(f.dll(), parts[1].unwrap_or(&[]));
    nd::ck(f.import_type() == [ImportType::Code, ImportType::Data, ImportType::Const, ImportType::Const][ty as usize]);
    let m = get(d, 6, 2);
    nd::ck(f.architecture() == match m { 0x1c4 => Architecture::Arm, 0xaa64 | 0xa641 => Architecture::Aarch64, 0x14c => Architecture::I386, 0x8664 => Architecture::X86_64, _ => Architecture::Unknown });
    nd::ck(f.sub_architecture().is_some() == (m == 0xa641));
    let mut short = name;
    if !name.is_empty() && (name[0] == b'?' || name[0] == b'@' || name[0] == b'_') { short = &name[1..]; }
    match f.import() {
        ImportName::Ordinal(o) => { nd::ck(nt == 0); nd::ck_eq(o as u64, get(d, 16, 2)); nd::reach(2); }
        ImportName::Name(x) => {
            nd::ck(nt != 0);
            match nt {
                1 => nd::ck_bytes(x, name),
                2 => nd::ck_bytes(x, short),
                3 => { let mut i = 0; while i < short.len() && short[i] != b'@' { i += 1; } nd::ck_bytes(x, &short[..i]); }
                _ => nd::ck_bytes(x, parts[2].unwrap_or(&[])),
            }
            nd::reach(3);
        }
    }
}

harnesses! {
    /// arbitrary COFF header fields, file sizes around each table
    /// @reach 1,2
    fn c14_header() { header::<Small>(L { big: false }); }
    /// bigobj header with one arbitrary identification byte
    /// @reach 1,2
    fn c14_header_bigobj() { header::<Big>(L { big: true }); }
    /// a section with arbitrary fields
    /// @reach 1
    fn c14_sections() { let l = L::any(); by_size!(l, sections(l)); }
    /// base 10 name offsets
    /// @reach 1,2
    fn c14_name_offset10() { name_offset(false); }
    /// base 64 name offsets
    /// @reach 1,2
    fn c14_name_offset64() { name_offset(true); }
    /// names in records and a 6-byte string table
    /// @reach 1,2
    fn c14_names() { let l = L::any(); by_size!(l, names(l)); }
    /// a symbol with arbitrary fields and auxiliary record
    /// @reach 1,2
    fn c14_symbols() { let l = L::any(); by_size!(l, symbols(l, false)); }
    /// file symbols
    /// @reach 3
    fn c14_symbols_file() { let l = L::any(); by_size!(l, symbols(l, true)); }
    /// an arbitrary relocation for every machine
    /// @reach 1
    fn c14_relocs() { let l = L::any(); by_size!(l, reloc_map(l)); }
    /// relocation counts and offsets
    /// @reach 1,2
    fn c14_reloc_count() { let l = L::any(); by_size!(l, reloc_count(l)); }
    /// COMDAT records
    /// @reach 1,2
    fn c14_comdats() { comdats::<Small>(L { big: false }); }
    /// COMDAT records of bigobj files
    /// @reach 1,2
    fn c14_comdats_bigobj() { comdats::<Big>(L { big: true }); }
    /// import header
    /// @reach 1
    fn c14_import_header() { import(0); }
    /// import names of every type
    /// @reach 1,2,3
    fn c14_import_names() { import(1); }
}
