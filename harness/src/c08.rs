//! ELF relocations.
use crate::{harnesses, img::{self, E}, nd};
use nd::Buf;
use object::elf;
use object::read::elf::{CrelIterator, ElfFile, FileHeader, Rel, Rela, Relr, RelrIterator, SectionHeader};
use object::read::{Object, ObjectSection, RelocationFlags, RelocationTarget, SectionIndex, SymbolIndex};
use object::{Endianness, RelocationEncoding as N, RelocationKind as K};

macro_rules! by_class {
    ($e:expr, $f:ident($($a:expr),*)) => {
        if $e.is64 { $f::<elf::FileHeader64<Endianness>>($($a),*) } else { $f::<elf::FileHeader32<Endianness>>($($a),*) }
    };
}

/// (e_machine, class: 0 any 1 32-bit 2 64-bit, data: 0 any 1 little 2 big, type, kind, encoding, bits)
const MAP: &[(u64, u8, u8, u32, K, N, u8)] = &[
    (183, 2, 0, 0, K::None, N::Generic, 0), (183, 2, 0, 257, K::Absolute, N::Generic, 64), (183, 2, 0, 258, K::Absolute, N::Generic, 32), (183, 2, 0, 259, K::Absolute, N::Generic, 16), (183, 2, 0, 260, K::Relative, N::Generic, 64), (183, 2, 0, 261, K::Relative, N::Generic, 32), (183, 2, 0, 262, K::Relative, N::Generic, 16), (183, 2, 0, 283, K::PltRelative, N::AArch64Call, 26), (183, 1, 0, 0, K::None, N::Generic, 0), (183, 1, 0, 1, K::Absolute, N::Generic, 32),
    (36902, 0, 0, 0, K::None, N::Generic, 0), (36902, 0, 0, 1, K::Absolute, N::Generic, 32), (36902, 0, 0, 2, K::Absolute, N::Generic, 64), (36902, 0, 0, 9, K::Relative, N::Generic, 16), (36902, 0, 0, 10, K::Relative, N::Generic, 32), (36902, 0, 0, 11, K::Relative, N::Generic, 64),
    (40, 0, 0, 0, K::None, N::Generic, 0), (40, 0, 0, 2, K::Absolute, N::Generic, 32),
    (83, 0, 0, 0, K::None, N::Generic, 0), (83, 0, 0, 1, K::Absolute, N::Generic, 32), (83, 0, 0, 4, K::Absolute, N::Generic, 16),
    (247, 0, 0, 0, K::None, N::Generic, 0), (247, 0, 0, 1, K::Absolute, N::Generic, 64), (247, 0, 0, 10, K::Absolute, N::Generic, 32),
    (252, 0, 0, 0, K::None, N::Generic, 0), (252, 0, 0, 1, K::Absolute, N::Generic, 32), (252, 0, 0, 5, K::Relative, N::Generic, 32),
    (50, 0, 0, 0, K::None, N::Generic, 0), (50, 0, 1, 37, K::Absolute, N::Generic, 32), (50, 0, 2, 37, K::Absolute, N::Unknown, 32), (50, 0, 1, 36, K::Absolute, N::Unknown, 32), (50, 0, 2, 36, K::Absolute, N::Generic, 32), (50, 0, 1, 39, K::Absolute, N::Generic, 64), (50, 0, 2, 39, K::Absolute, N::Unknown, 64), (50, 0, 1, 38, K::Absolute, N::Unknown, 64), (50, 0, 2, 38, K::Absolute, N::Generic, 64), (50, 0, 1, 77, K::Relative, N::Generic, 32), (50, 0, 2, 77, K::Relative, N::Unknown, 32), (50, 0, 1, 76, K::Relative, N::Unknown, 32), (50, 0, 2, 76, K::Relative, N::Generic, 32), (50, 0, 1, 79, K::Relative, N::Generic, 64), (50, 0, 2, 79, K::Relative, N::Unknown, 64), (50, 0, 1, 78, K::Relative, N::Unknown, 64), (50, 0, 2, 78, K::Relative, N::Generic, 64),
    (175, 0, 0, 112, K::None, N::Generic, 0), (175, 0, 0, 0, K::Absolute, N::Generic, 32), (175, 0, 0, 50, K::Absolute, N::Generic, 64), (175, 0, 0, 51, K::Absolute, N::E2KLit, 64), (175, 0, 0, 110, K::Relative, N::E2KDisp, 28), (175, 0, 0, 108, K::Got, N::Generic, 32),
    (3, 0, 0, 0, K::None, N::Generic, 0), (3, 0, 0, 1, K::Absolute, N::Generic, 32), (3, 0, 0, 2, K::Relative, N::Generic, 32), (3, 0, 0, 3, K::Got, N::Generic, 32), (3, 0, 0, 4, K::PltRelative, N::Generic, 32), (3, 0, 0, 9, K::GotBaseOffset, N::Generic, 32), (3, 0, 0, 10, K::GotBaseRelative, N::Generic, 32), (3, 0, 0, 20, K::Absolute, N::Generic, 16), (3, 0, 0, 21, K::Relative, N::Generic, 16), (3, 0, 0, 22, K::Absolute, N::Generic, 8), (3, 0, 0, 23, K::Relative, N::Generic, 8),
    (62, 0, 0, 0, K::None, N::Generic, 0), (62, 0, 0, 1, K::Absolute, N::Generic, 64), (62, 0, 0, 2, K::Relative, N::Generic, 32), (62, 0, 0, 3, K::Got, N::Generic, 32), (62, 0, 0, 4, K::PltRelative, N::X86Branch, 32), (62, 0, 0, 9, K::GotRelative, N::Generic, 32), (62, 0, 0, 41, K::GotRelative, N::Unknown, 32), (62, 0, 0, 42, K::GotRelative, N::Unknown, 32), (62, 0, 0, 10, K::Absolute, N::Generic, 32), (62, 0, 0, 11, K::Absolute, N::X86Signed, 32), (62, 0, 0, 12, K::Absolute, N::Generic, 16), (62, 0, 0, 13, K::Relative, N::Generic, 16), (62, 0, 0, 14, K::Absolute, N::Generic, 8), (62, 0, 0, 15, K::Relative, N::Generic, 8),
    (164, 0, 0, 0, K::None, N::Generic, 0), (164, 0, 0, 6, K::Absolute, N::Generic, 32),
    (258, 0, 0, 0, K::None, N::Generic, 0), (258, 0, 0, 1, K::Absolute, N::Generic, 32), (258, 0, 0, 2, K::Absolute, N::Generic, 64), (258, 0, 0, 99, K::Relative, N::Generic, 32), (258, 0, 0, 109, K::Relative, N::Generic, 64), (258, 0, 0, 64, K::Relative, N::LoongArchBranch, 16), (258, 0, 0, 65, K::Relative, N::LoongArchBranch, 21), (258, 0, 0, 66, K::Relative, N::LoongArchBranch, 26),
    (4, 0, 0, 0, K::None, N::Generic, 0), (4, 0, 0, 1, K::Absolute, N::Generic, 32), (4, 0, 0, 2, K::Absolute, N::Generic, 16), (4, 0, 0, 3, K::Absolute, N::Generic, 8), (4, 0, 0, 4, K::Relative, N::Generic, 32), (4, 0, 0, 5, K::Relative, N::Generic, 16), (4, 0, 0, 6, K::Relative, N::Generic, 8), (4, 0, 0, 10, K::Got, N::Generic, 32), (4, 0, 0, 11, K::Got, N::Generic, 16), (4, 0, 0, 12, K::Got, N::Generic, 8), (4, 0, 0, 7, K::GotRelative, N::Generic, 32), (4, 0, 0, 8, K::GotRelative, N::Generic, 16), (4, 0, 0, 9, K::GotRelative, N::Generic, 8), (4, 0, 0, 13, K::PltRelative, N::Generic, 32), (4, 0, 0, 14, K::PltRelative, N::Generic, 16), (4, 0, 0, 15, K::PltRelative, N::Generic, 8),
    (8, 0, 0, 0, K::None, N::Generic, 0), (8, 0, 0, 1, K::Absolute, N::Generic, 16), (8, 0, 0, 2, K::Absolute, N::Generic, 32), (8, 0, 0, 18, K::Absolute, N::Generic, 64),
    (105, 0, 0, 0, K::None, N::Generic, 0), (105, 0, 0, 1, K::Absolute, N::Generic, 32), (105, 0, 0, 5, K::Absolute, N::Generic, 16),
    (15, 0, 0, 0, K::None, N::Generic, 0), (15, 0, 0, 1, K::Absolute, N::Generic, 32), (15, 0, 0, 9, K::Relative, N::Generic, 32),
    (20, 0, 0, 0, K::None, N::Generic, 0), (20, 0, 0, 1, K::Absolute, N::Generic, 32),
    (21, 0, 0, 0, K::None, N::Generic, 0), (21, 0, 0, 1, K::Absolute, N::Generic, 32), (21, 0, 0, 38, K::Absolute, N::Generic, 64),
    (243, 0, 0, 0, K::None, N::Generic, 0), (243, 0, 0, 1, K::Absolute, N::Generic, 32), (243, 0, 0, 2, K::Absolute, N::Generic, 64),
    (22, 0, 0, 0, K::None, N::Generic, 0), (22, 0, 0, 1, K::Absolute, N::Generic, 8), (22, 0, 0, 3, K::Absolute, N::Generic, 16), (22, 0, 0, 4, K::Absolute, N::Generic, 32), (22, 0, 0, 22, K::Absolute, N::Generic, 64), (22, 0, 0, 16, K::Relative, N::Generic, 16), (22, 0, 0, 5, K::Relative, N::Generic, 32), (22, 0, 0, 23, K::Relative, N::Generic, 64), (22, 0, 0, 17, K::Relative, N::S390xDbl, 16), (22, 0, 0, 19, K::Relative, N::S390xDbl, 32), (22, 0, 0, 18, K::PltRelative, N::S390xDbl, 16), (22, 0, 0, 20, K::PltRelative, N::S390xDbl, 32), (22, 0, 0, 15, K::Got, N::Generic, 16), (22, 0, 0, 7, K::Got, N::Generic, 32), (22, 0, 0, 24, K::Got, N::Generic, 64), (22, 0, 0, 26, K::GotRelative, N::S390xDbl, 32), (22, 0, 0, 27, K::GotBaseOffset, N::Generic, 16), (22, 0, 0, 13, K::GotBaseOffset, N::Generic, 32), (22, 0, 0, 28, K::GotBaseOffset, N::Generic, 64), (22, 0, 0, 14, K::GotBaseRelative, N::Generic, 64), (22, 0, 0, 21, K::GotBaseRelative, N::S390xDbl, 32),
    (263, 0, 0, 0, K::None, N::Generic, 0), (263, 0, 0, 1, K::Absolute, N::Generic, 64), (263, 0, 0, 10, K::Absolute, N::Generic, 32),
    (133, 0, 0, 11, K::Absolute, N::SharcTypeA, 24), (133, 0, 0, 12, K::Absolute, N::SharcTypeA, 32), (133, 0, 0, 13, K::Absolute, N::Generic, 32), (133, 0, 0, 14, K::Relative, N::SharcTypeA, 6), (133, 0, 0, 15, K::Relative, N::SharcTypeA, 24), (133, 0, 0, 16, K::Absolute, N::SharcTypeA, 6), (133, 0, 0, 17, K::Absolute, N::SharcTypeA, 16), (133, 0, 0, 18, K::Absolute, N::SharcTypeB, 6), (133, 0, 0, 19, K::Absolute, N::SharcTypeB, 7), (133, 0, 0, 20, K::Absolute, N::SharcTypeB, 16), (133, 0, 0, 23, K::Relative, N::SharcTypeB, 16), (133, 0, 0, 25, K::Absolute, N::Generic, 16),
    (2, 0, 0, 0, K::None, N::Generic, 0),
    (18, 0, 0, 0, K::None, N::Generic, 0),
    (43, 0, 0, 0, K::None, N::Generic, 0),
    (2, 0, 0, 3, K::Absolute, N::Generic, 32),
    (18, 0, 0, 3, K::Absolute, N::Generic, 32),
    (43, 0, 0, 3, K::Absolute, N::Generic, 32),
    (2, 0, 0, 23, K::Absolute, N::Generic, 32),
    (18, 0, 0, 23, K::Absolute, N::Generic, 32),
    (43, 0, 0, 23, K::Absolute, N::Generic, 32),
    (2, 0, 0, 32, K::Absolute, N::Generic, 64),
    (18, 0, 0, 32, K::Absolute, N::Generic, 64),
    (43, 0, 0, 32, K::Absolute, N::Generic, 64),
    (2, 0, 0, 54, K::Absolute, N::Generic, 64),
    (18, 0, 0, 54, K::Absolute, N::Generic, 64),
    (43, 0, 0, 54, K::Absolute, N::Generic, 64),
    (42, 0, 0, 0, K::None, N::Generic, 0), (42, 0, 0, 1, K::Absolute, N::Generic, 32), (42, 0, 0, 2, K::Relative, N::Generic, 32),
    (94, 0, 0, 0, K::None, N::Generic, 0), (94, 0, 0, 1, K::Absolute, N::Generic, 32), (94, 0, 0, 14, K::Relative, N::Generic, 32),
];

struct Img { sh: usize, rel: usize, n: usize, ent: usize }
/// sections: 1 target, 2 symbol table, 3 relocations (`count` entries), 4 and 5 more
fn image(l: E, b: &mut [u8], rela: bool, count: usize) -> Img {
    let sh = l.eh();
    let rel = (sh + 6 * l.sh() + 7) & !7;
    let ent = if rela { 3 } else { 2 } * l.w();
    let n = rel + count * ent;
    l.ident(b);
    l.sections(b, sh as u64, 6, 4);
    let s = |i| sh + i * l.sh();
    l.section(b, s(1), 0, 1, 0, 0);
    l.section(b, s(2), 0, 2, 0, 0);
    l.section(b, s(3), 0, if rela { 4 } else { 9 }, rel as u64, (count * ent) as u64);
    l.shset(b, s(3), 6, 2);
    l.shset(b, s(3), 7, 1);
    l.section(b, s(4), 0, 3, 0, 1);
    l.section(b, s(5), 0, 1, 0, 0);
    Img { sh, rel, n, ent }
}

/// (offset, symbol, type, addend) of an entry
fn entry(l: E, d: &[u8], at: usize, rela: bool, m64el: bool) -> (u64, u64, u64, i64) {
    let w = l.w();
    let off = l.get(d, at, w);
    let (sym, ty) = if m64el {
        // r_sym, r_ssym, r_type3, r_type2, r_type as separate fields
        (l.get(d, at + 8, 4), img::get(d, at + 12, 4, true))
    } else if l.is64 { (l.get(d, at + 8, 8) >> 32, l.get(d, at + 8, 8) & 0xffff_ffff) } else { (l.get(d, at + 4, 4) >> 8, l.get(d, at + 4, 4) & 0xff) };
    let add = if rela { img::sext(l.get(d, at + 2 * w, w), 8 * w as u32) as i64 } else { 0 };
    (off, sym, ty, add)
}

fn entries<Elf: FileHeader<Endian = Endianness>>(l: E, d: &[u8], m: &Img, rela: bool, count: usize, dynamic: bool, m64el: bool) {
    let f = nd::must(ElfFile::<Elf>::parse(d));
    let e = f.endian();
    let h = nd::must(f.elf_section_table().section(SectionIndex(3)));
    if rela {
        nd::ck(matches!(h.rel(e, d), Ok(None)));
        let (r, link) = nd::some(nd::must(h.rela(e, d)));
        nd::ck(r.len() == count && link == SectionIndex(2));
        for i in 0..count {
            let (off, sym, ty, add) = entry(l, d, m.rel + i * m.ent, true, m64el);
            nd::ck_eq(r[i].r_offset(e).into(), off);
            nd::ck_eq(r[i].r_sym(e, m64el) as u64, sym);
            nd::ck_eq(r[i].r_type(e, m64el).0 as u64, ty);
            let a: i64 = r[i].r_addend(e).into();
            nd::ck_eq(a as u64, add as u64);
            nd::ck(r[i].symbol(e, m64el) == if sym == 0 { None } else { Some(SymbolIndex(sym as usize)) });
        }
    } else {
        nd::ck(matches!(h.rela(e, d), Ok(None)));
        let (r, link) = nd::some(nd::must(h.rel(e, d)));
        nd::ck(r.len() == count && link == SectionIndex(2));
        for i in 0..count {
            let (off, sym, ty, _) = entry(l, d, m.rel + i * m.ent, false, false);
            nd::ck_eq(r[i].r_offset(e).into(), off);
            nd::ck_eq(r[i].r_sym(e) as u64, sym);
            nd::ck_eq(r[i].r_type(e).0 as u64, ty);
            nd::ck(r[i].symbol(e) == if sym == 0 { None } else { Some(SymbolIndex(sym as usize)) });
        }
    }
    nd::ck(matches!(h.crel(e, d), Ok(None)) && matches!(h.relr(e, d), Ok(None)));
    let mut i = 0;
    let mut see = |off: u64, r: object::read::Relocation| {
        let (o, sym, ty, add) = entry(l, d, m.rel + i * m.ent, rela, m64el);
        nd::ck_eq(off, o);
        nd::ck(r.target() == if sym == 0 { RelocationTarget::Absolute } else { RelocationTarget::Symbol(SymbolIndex(sym as usize)) });
        nd::ck_eq(r.addend() as u64, add as u64);
        nd::ck(r.has_implicit_addend() != rela);
        nd::ck(r.flags() == RelocationFlags::Elf { r_type: elf::RelocationType(ty as u32) });
        nd::ck(r.subtractor().is_none());
        i += 1;
    };
    if dynamic {
        for (off, r) in nd::some(f.dynamic_relocations()) { see(off, r); }
        nd::ck(nd::must(f.section_by_index(SectionIndex(1))).relocations().next().is_none());
    } else {
        for (off, r) in nd::must(f.section_by_index(SectionIndex(1))).relocations() { see(off, r); }
        nd::ck(nd::must(f.section_by_index(SectionIndex(5))).relocations().next().is_none());
    }
    nd::ck_eq(i as u64, count as u64);
    nd::reach(1);
}

fn mapping<Elf: FileHeader<Endian = Endianness>>(l: E, d: &[u8], m: &Img, mach: u64) {
    let f = nd::must(ElfFile::<Elf>::parse(d));
    let (_, r) = nd::some(nd::must(f.section_by_index(SectionIndex(1))).relocations().next());
    let (_, _, ty, _) = entry(l, d, m.rel, true, false);
    let mut want = (K::Unknown, N::Unknown, 0);
    for &(em, cls, data, t, k, n, z) in MAP {
        if em == mach && (cls == 0 || (cls == 2) == l.is64) && (data == 0 || (data == 2) == l.big) && t as u64 == ty { want = (k, n, z); nd::reach(1); }
    }
    nd::ck(r.kind() == want.0);
    nd::ck(r.encoding() == want.1);
    nd::ck_eq(r.size() as u64, want.2 as u64);
}

fn sections<Elf: FileHeader<Endian = Endianness>>(l: E, d: &[u8], m: &Img, x: bool) {
    let e = if l.big { Endianness::Big } else { Endianness::Little };
    let t = nd::must(nd::must(Elf::parse(d)).sections(e, d));
    let r = t.relocation_sections(e, SectionIndex(2));
    let g = |i: usize, f| l.shget(d, m.sh + i * l.sh(), f);
    let is_rel = |i: usize| matches!(g(i, 1), 4 | 9 | 0x40000014);
    let counts = |i: usize| is_rel(i) && g(i, 6) == 2 && g(i, 7) != 0;
    let mut ok = true;
    for i in 3..6 {
        if counts(i) {
            let info = nd::conc(g(i, 7));
            ok &= info < 6;
            if info < 6 { ok &= !is_rel(info as usize); }
        }
    }
    nd::ck(r.is_ok() == ok);
    let Ok(r) = r else { nd::reach(1); return };
    // every relocation section that applies to section 1 is found by following the chain, in order
    let tgt = if x { 5 } else { 1 };
    let mut at = SectionIndex(tgt);
    for i in 3..6 {
        if counts(i) && g(i, 7) == tgt as u64 {
            at = nd::some(r.get(at));
            nd::ck(at == SectionIndex(i));
            nd::reach(2);
        }
    }
    nd::ck(r.get(at).is_none());
    nd::ck(r.get(SectionIndex(6)).is_none());
}

fn relr<Elf: FileHeader<Endian = Endianness>>(l: E, d: &[u8], m: &Img, count: usize) {
    let e = if l.big { Endianness::Big } else { Endianness::Little };
    let t = nd::must(nd::must(Elf::parse(d)).sections(e, d));
    let mut it: RelrIterator<Elf> = nd::some(nd::must(nd::must(t.section(SectionIndex(3))).relr(e, d)));
    let w = l.w() as u64;
    let mut base = 0u64;
    for i in 0..count {
        let v = l.get(d, m.rel + i * l.w(), l.w());
        if v & 1 == 0 {
            nd::ck_eq(nd::some(it.next()).into(), v);
            base = v.wrapping_add(w) & l.wmask();
            nd::reach(1);
        } else {
            let mut j = 1;
            while j < 8 * w {
                if v >> j & 1 != 0 { nd::ck_eq(nd::some(it.next()).into(), base.wrapping_add((j - 1) * w) & l.wmask()); nd::reach(2); }
                j += 1;
            }
            base = base.wrapping_add((8 * w - 1) * w) & l.wmask();
        }
    }
    nd::ck(it.next().is_none());
}

/// independent CREL decoder over the bytes at `*p`
fn uleb(d: &[u8], p: &mut usize) -> Option<u64> {
    let (mut v, mut s) = (0u64, 0);
    loop {
        if *p >= d.len() { return None; }
        let b = d[*p];
        *p += 1;
        v |= ((b & 0x7f) as u64) << s;
        s += 7;
        if b < 0x80 { return Some(v); }
    }
}
fn sleb(d: &[u8], p: &mut usize) -> Option<i64> {
    let (mut v, mut s) = (0u64, 0);
    loop {
        if *p >= d.len() { return None; }
        let b = d[*p];
        *p += 1;
        v |= ((b & 0x7f) as u64) << s;
        s += 7;
        if b < 0x80 { return Some(img::sext(v, s) as i64); }
    }
}

harnesses! {
/// two REL or RELA entries with arbitrary contents, for a section or dynamic: raw fields and unified view; both classes and byte orders
/// @reach 1
fn c08_entries() {
    let l = E::any();
    let rela = nd::flag();
    let dynamic = nd::flag();
    let mut b = Buf::<560>::zero();
    let m = image(l, &mut b[..], rela, 2);
    nd::fill(&mut b[m.rel..m.n]);
    if dynamic {
        l.shset(&mut b[..], m.sh + 2 * l.sh(), 1, 11);
        l.shset(&mut b[..], m.sh + 3 * l.sh(), 7, 0);
    }
    by_class!(l, entries(l, &b[..m.n], &m, rela, 2, dynamic, false))
}

/// two RELA entries of a little-endian 64-bit MIPS file (special r_info layout)
/// @reach 1
fn c08_mips64el() {
    let l = E { is64: true, big: false };
    let mut b = Buf::<560>::zero();
    let m = image(l, &mut b[..], true, 2);
    l.set(&mut b[..], l.eh_machine(), 8);
    nd::fill(&mut b[m.rel..m.n]);
    entries::<elf::FileHeader64<Endianness>>(l, &b[..m.n], &m, true, 2, false, true)
}

/// kind, encoding and size of every 32-bit relocation type, for every machine with a defined mapping and one without
/// @reach 1
fn c08_mapping() {
    let l = E::any();
    let mach = img::pick(&[183, 36902, 40, 83, 247, 252, 50, 175, 3, 62, 164, 258, 4, 8, 105, 15, 20, 21, 243, 22, 263, 133, 2, 18, 43, 42, 94, 9999]);
    let mut b = Buf::<560>::zero();
    let m = image(l, &mut b[..], true, 1);
    l.set(&mut b[..], l.eh_machine(), mach);
    if mach == 8 && l.is64 && !l.big { nd::assume(false); }
    nd::fill(&mut b[m.rel + l.w()..m.rel + 2 * l.w()]);
    by_class!(l, mapping(l, &b[..m.n], &m, mach))
}

/// association of relocation sections with their target: three sections, each of any type, with any link and target none, 1, 3, 5 or out of range
/// @reach 1,2
/// @cost 5
fn c08_sections() {
    let l = E { is64: nd::flag(), big: false };
    let mut b = Buf::<560>::zero();
    let m = image(l, &mut b[..], true, 0);
    l.set(&mut b[..], l.eh_shstrndx(), 2);
    l.shset(&mut b[..], m.sh + 2 * l.sh(), 1, 3);
    let mut i = 3;
    while i < 6 {
        let at = m.sh + i * l.sh();
        for f in [1, 6] { l.shset(&mut b[..], at, f, nd::u32() as u64); }
        l.shset(&mut b[..], at, 7, img::pick(&[0, 1, 5, 3, 6, 0xffff_ffff]));
        i += 1;
    }
    let x = nd::flag();
    by_class!(l, sections(l, &b[..m.n], &m, x))
}

/// REL and RELA entries in two chained sections are reported in section order; the second section is REL
fn c08_chain() {
    let l = E::any();
    let mut b = Buf::<600>::zero();
    let m = image(l, &mut b[..], true, 1);
    let at = m.sh + 5 * l.sh();
    l.section(&mut b[..], at, 0, 9, m.n as u64, 2 * l.w() as u64);
    l.shset(&mut b[..], at, 6, 2);
    l.shset(&mut b[..], at, 7, 1);
    let n = m.n + 2 * l.w();
    nd::fill(&mut b[m.rel..n]);
    let d = &b[..n];
    fn go<Elf: FileHeader<Endian = Endianness>>(l: E, d: &[u8], m: &Img) {
        let f = nd::must(ElfFile::<Elf>::parse(d));
        let mut it = nd::must(f.section_by_index(SectionIndex(1))).relocations();
        let (a, ra) = nd::some(it.next());
        let (b, rb) = nd::some(it.next());
        nd::ck(it.next().is_none());
        nd::ck_eq(a, l.get(d, m.rel, l.w()));
        nd::ck_eq(b, l.get(d, m.n, l.w()));
        nd::ck(!ra.has_implicit_addend() && rb.has_implicit_addend());
        nd::ck_eq(ra.addend() as u64, img::sext(l.get(d, m.rel + 2 * l.w(), l.w()), 8 * l.w() as u32));
        nd::ck_eq(rb.addend() as u64, 0);
        // the accessors for a single relocation section refuse
        let s = nd::must(f.section_by_index(SectionIndex(1)));
        nd::ck(s.elf_relocation_section_index().is_err() && s.elf_relocation_section().is_err() && s.elf_linked_rel().is_err() && s.elf_linked_rela().is_err());
    }
    by_class!(l, go(l, d, &m))
}

/// one REL, RELA or other relocation section with up to two entries, linked or not
/// @reach 1,2,3
fn c08_linked() {
    let l = E::any();
    let rela = nd::flag();
    let count = nd::below(3);
    let mut b = Buf::<600>::zero();
    let m = image(l, &mut b[..], rela, count);
    let at = m.sh + 3 * l.sh();
    let crel = count == 0 && nd::flag();
    if crel { l.shset(&mut b[..], at, 1, 0x40000014); }
    l.shset(&mut b[..], at, 6, nd::range(0, 4) as u64);
    l.shset(&mut b[..], at, 7, [0, 1, 5][nd::below(3)]);
    let d = &b[..m.n];
    fn go<Elf: FileHeader<Endian = Endianness>>(l: E, d: &[u8], m: &Img, rela: bool, count: usize) {
        let at = m.sh + 3 * l.sh();
        let (link, info, crel) = (l.shget(d, at, 6), l.shget(d, at, 7), l.shget(d, at, 1) == 0x40000014);
        let f = nd::must(ElfFile::<Elf>::parse(d));
        for i in [1, 2, 3, 5] {
            let s = nd::must(f.section_by_index(SectionIndex(i)));
            let k = link == 2 && info == i as u64;
            let x = nd::must(s.elf_relocation_section_index());
            nd::ck(x == if k { Some(SectionIndex(3)) } else { None });
            let h = nd::must(s.elf_relocation_section());
            nd::ck(h.is_some() == k);
            if let Some(h) = h { nd::ck(h as *const _ as usize == d.as_ptr() as usize + at); nd::reach(1); }
            let n = if k && !crel { count } else { 0 };
            let (a, b) = (nd::must(s.elf_linked_rel()), nd::must(s.elf_linked_rela()));
            nd::ck(a.len() == if rela { 0 } else { n } && b.len() == if rela { n } else { 0 });
            if a.len() != 0 { img::same_slice(object::pod::bytes_of_slice(a), d, m.rel as u64, (m.n - m.rel) as u64); nd::reach(2); }
            if b.len() != 0 { img::same_slice(object::pod::bytes_of_slice(b), d, m.rel as u64, (m.n - m.rel) as u64); nd::reach(3); }
        }
    }
    by_class!(l, go(l, d, &m, rela, count))
}

/// dynamic relocations: three sections of any relocation type or another, each linked or not to the dynamic symbol table (absent, or one of two), sizes whole or not; they are reported in section order
/// @reach 1,2,3
/// @cost 3
fn c08_dynamic() {
    let l = E { is64: nd::flag(), big: nd::flag() };
    let mut b = Buf::<600>::zero();
    let m = image(l, &mut b[..], true, 0);
    let n = m.rel + 3 * l.w();
    for i in 0..3 { l.put(&mut b[..], m.rel + i * l.w(), l.w(), [0, 0, 1][i]); }
    nd::fill(&mut b[m.rel..m.rel + l.w()]);
    // the table is section 2
    let dynsym = nd::flag();
    l.shset(&mut b[..], m.sh + 2 * l.sh(), 1, if dynsym { 11 } else { 2 });
    let mut want = vec![];
    for i in [1, 3, 5] {
        let at = m.sh + i * l.sh();
        let (ty, link, cut) = match nd::below(5) { 0 => (4, 2, 0), 1 => (9, 2, 0), 2 => (img::pick(&[4, 9]), 0, 0), 3 => (4, 2, 1), _ => (img::pick(&[1, 19, 0x4000_0014]), 2, 0) };
        let size = if ty == 9 { 2 } else { 3 } * l.w() as u64 - cut;
        l.section(&mut b[..], at, 0, ty, m.rel as u64, size);
        l.shset(&mut b[..], at, 6, link);
        l.shset(&mut b[..], at, 7, 0);
        if ty == 0x4000_0014 { l.shset(&mut b[..], at, 5, 0); }
        if link == if dynsym { 2 } else { 0 } && cut == 0 && (ty == 4 || ty == 9) { want.push(ty == 4); }
    }
    let d = &b[..n];
    fn go<Elf: FileHeader<Endian = Endianness>>(l: E, d: &[u8], m: &Img, want: &[bool]) {
        let f = nd::must(ElfFile::<Elf>::parse(d));
        let mut it = nd::some(f.dynamic_relocations());
        for rela in want {
            let (o, r) = nd::some(it.next());
            nd::ck_eq(o, l.get(d, m.rel, l.w()));
            nd::ck(r.has_implicit_addend() != *rela);
            nd::ck_eq(r.addend() as u64, *rela as u64);
        }
        nd::ck(it.next().is_none());
        nd::ck(it.next().is_none());
        nd::reach(match want.len() { 0 => 1, 3 => 2, _ => 3 });
    }
    by_class!(l, go(l, d, &m, &want))
}

/// RELR: up to three entries, an arbitrary even address, a bitmap, then either; a bitmap with any of its low five and top two bits set
/// @reach 1,2
/// @cost 5
fn c08_relr() {
    let l = E::any();
    let mut b = Buf::<560>::zero();
    let m = image(l, &mut b[..], false, 2);
    let count = 1 + nd::below(3);
    l.shset(&mut b[..], m.sh + 3 * l.sh(), 1, 19);
    l.shset(&mut b[..], m.sh + 3 * l.sh(), 5, (count * l.w()) as u64);
    for i in 0..count {
        let mut v = nd::u64() & l.wmask();
        if i == 1 || i == 2 && nd::flag() { v = (v & (0x1e | 3 << (8 * l.w() - 2))) | 1; } else { v &= !1; }
        l.put(&mut b[..], m.rel + i * l.w(), l.w(), v);
    }
    by_class!(l, relr(l, &b[..m.n + l.w()], &m, count))
}

/// a single step through a RELR bitmap for any position and any bits
fn c08_relr_step() {
    let (o, v) = (nd::u64(), nd::u64());
    let (mut a, mut b) = (o, v);
    let r = elf::Relr64::<Endianness>::next(&mut a, &mut b);
    nd::ck(a == o.wrapping_add(8) && b == v >> 1);
    nd::ck(r == if v & 2 != 0 { Some(o.wrapping_add(8)) } else { None });
    let (mut a, mut b) = (o as u32, v as u32);
    let r = elf::Relr32::<Endianness>::next(&mut a, &mut b);
    nd::ck(a == (o as u32).wrapping_add(4) && b == v as u32 >> 1);
    nd::ck(r == if v & 2 != 0 { Some((o as u32).wrapping_add(4)) } else { None });
}

/// CREL: a stream of up to 7 (thorough: 9) arbitrary bytes whose header announces any count, decoded up to 3 entries
/// @reach 1,2,3,4
/// @cost 20
fn c08_crel() {
    const N: usize = nd::tier(6, 8);
    let mut b = Buf::<16>::zero();
    let n = nd::below(N + 1);
    nd::fill(&mut b[..n]);
    let d = &b[..n];
    let mut p = 0;
    let h = uleb(d, &mut p);
    let it = CrelIterator::new(d);
    nd::ck(it.is_ok() == h.is_some());
    let (Ok(mut it), Some(h)) = (it, h) else { nd::reach(1); return };
    let rela = h & 4 != 0;
    let shift = (h & 3) as u32;
    let bits = if rela { 3 } else { 2 };
    let mut left = h >> 3;
    nd::ck(it.is_rela() == rela);
    let (mut off, mut sym, mut ty, mut add) = (0u64, 0u32, 0u32, 0i64);
    for _ in 0..3 {
        nd::ck_eq(it.len() as u64, left);
        nd::ck(it.is_empty() == (left == 0));
        if left == 0 { nd::ck(it.next().is_none()); nd::reach(2); return; }
        let r = nd::some(it.next());
        let mut go = || -> Option<()> {
            // offset delta and flags form one unsigned LEB128 number
            let v = uleb(d, &mut p)?;
            off = off.wrapping_add((v >> bits) << shift);
            if v & 1 != 0 { sym = sym.wrapping_add(sleb(d, &mut p)? as u32); }
            if v & 2 != 0 { ty = ty.wrapping_add(sleb(d, &mut p)? as u32); }
            if rela && v & 4 != 0 { add = add.wrapping_add(sleb(d, &mut p)?); }
            Some(())
        };
        let e = go();
        nd::ck(r.is_ok() == e.is_some());
        let Ok(r) = r else { nd::ck(it.next().is_none()); nd::reach(3); return };
        nd::ck_eq(r.r_offset, off);
        nd::ck_eq(r.r_sym as u64, sym as u64);
        nd::ck_eq(r.r_type.0 as u64, ty as u64);
        nd::ck_eq(r.r_addend as u64, add as u64);
        nd::ck(r.symbol() == if sym == 0 { None } else { Some(SymbolIndex(sym as usize)) });
        nd::reach(4);
        left -= 1;
    }
}

/// CREL offset deltas at full width: 1 entry of 10 bytes with arbitrary payload bits
fn c08_crel_wide() {
    let rela = nd::flag();
    let shift = nd::below(4) as u8;
    let mut b = [0u8; 11];
    b[0] = 8 | if rela { 4 } else { 0 } | shift;
    let n = 2 + nd::below(9);
    nd::fill(&mut b[1..=n]);
    let d = &b[..=n];
    let bits = if rela { 3 } else { 2 };
    let mut v: u128 = 0;
    for i in 1..=n {
        nd::assume((d[i] >= 0x80) == (i < n));
        v |= ((d[i] & 0x7f) as u128) << (7 * (i - 1));
    }
    nd::assume(v & 7 & ((1 << bits) - 1) == 0);
    nd::assume(v >> bits <= u64::MAX as u128);
    let mut it = nd::must(CrelIterator::new(d));
    let r = nd::must(nd::some(it.next()));
    nd::ck_eq(r.r_offset, ((v >> bits) as u64) << shift);
    nd::ck(it.next().is_none());
}

/// CREL section through the unified view: 5 arbitrary bytes, 1 entry
/// @reach 1
fn c08_crel_section() {
    let l = E::any();
    let mut b = Buf::<560>::zero();
    let m = image(l, &mut b[..], true, 1);
    let at = m.sh + 3 * l.sh();
    l.shset(&mut b[..], at, 1, 0x40000014);
    l.shset(&mut b[..], at, 5, 5);
    let rela = nd::flag();
    b[m.rel] = 8 + if rela { 4 } else { 0 };
    b[m.rel + 1] = if rela { 7 } else { 3 } | (nd::u8() & 0x78);
    for i in 2..5 { b[m.rel + i] = nd::u8() & 0x7f; }
    fn go<Elf: FileHeader<Endian = Endianness>>(d: &[u8], at: usize, rela: bool) {
        let f = nd::must(ElfFile::<Elf>::parse(d));
        let mut it = nd::must(f.section_by_index(SectionIndex(1))).relocations();
        let (o, r) = nd::some(it.next());
        nd::ck(it.next().is_none());
        nd::ck_eq(o, (d[at + 1] >> if rela { 3 } else { 2 }) as u64);
        let s = img::sext(d[at + 2] as u64, 7) as u32;
        nd::ck(r.target() == if s == 0 { RelocationTarget::Absolute } else { RelocationTarget::Symbol(SymbolIndex(s as usize)) });
        nd::ck(r.flags() == RelocationFlags::Elf { r_type: elf::RelocationType(img::sext(d[at + 3] as u64, 7) as u32) });
        nd::ck(r.has_implicit_addend() != rela);
        nd::ck_eq(r.addend() as u64, if rela { img::sext(d[at + 4] as u64, 7) } else { 0 });
        nd::reach(1);
    }
    by_class!(l, go(&b[..m.n], m.rel, rela))
}

/// relocation map of an x86-64 section with two relocations of symbol 1: any offsets, type absolute, none or PC-relative, any addends and symbol value; relocating any value at any offset
/// @reach 1,2,3
fn c08_map() {
    let l = E { is64: true, big: false };
    let mut b = Buf::<640>::zero();
    let rela = nd::flag();
    let m = image(l, &mut b[..], rela, 2);
    l.set(&mut b[..], l.eh_machine(), 62);
    let sym = m.n;
    let n = sym + 48;
    let at = m.sh + 2 * l.sh();
    l.shset(&mut b[..], at, 4, sym as u64);
    l.shset(&mut b[..], at, 5, 48);
    nd::fill(&mut b[sym + 24 + 4..n]);
    let mut ty = [0; 2];
    for i in 0..2 {
        let at = m.rel + i * m.ent;
        nd::fill(&mut b[at..at + 8]);
        ty[i] = img::pick(&[0, 1, 2, 11]);
        l.put(&mut b[..], at + 8, 8, ty[i] | (nd::below(3) as u64) << 32);
        if rela { nd::fill(&mut b[at + 16..at + 24]); }
    }
    let d = &b[..n];
    let f = nd::must(ElfFile::<elf::FileHeader64<Endianness>>::parse(d));
    let r = nd::must(f.section_by_index(SectionIndex(1))).relocation_map();
    let en = |i: usize| entry(l, d, m.rel + i * m.ent, rela, false);
    let mut ok = true;
    for i in 0..2 { ok &= ty[i] == 0 || ty[i] == 1 && en(i).1 == 1; }
    if ty[0] == 1 && ty[1] == 1 && en(0).0 == en(1).0 { ok = false; }
    nd::ck(r.is_ok() == ok);
    let Ok(r) = r else { nd::reach(1); return };
    let value = if l.symget(d, sym + 24, 3) == 0xfff2 { 0 } else { l.symget(d, sym + 24, 4) };
    let (o, v) = (nd::u64(), nd::u64());
    let mut want = v;
    for i in 0..2 {
        if ty[i] == 1 && en(i).0 == o { want = value.wrapping_add(en(i).3 as u64).wrapping_add(if rela { 0 } else { v }); nd::reach(2); }
    }
    nd::ck_eq(r.relocate(o, v), want);
    nd::reach(3);
}
}
