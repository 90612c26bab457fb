//! Mach-O objects written by `write::Object` and read back.
use crate::{harnesses, img, nd};
use object::macho;
use object::read::macho::{MachHeader, MachOFile, Nlist as _};
use object::read::{Object as _, ObjectSection as _, ObjectSymbol as _, RelocationTarget};
use object::write::{MachOBuildVersion, Object, Relocation, StandardSection, Symbol, SymbolId, SymbolSection};
use object::{Architecture as A, BinaryFormat, Endianness, FileFlags, RelocationEncoding as N, RelocationFlags, RelocationKind as K, SectionFlags, SectionIndex, SectionKind as S, SubArchitecture, SymbolFlags, SymbolKind, SymbolScope};

type F64<'a> = MachOFile<'a, macho::MachHeader64<Endianness>>;
type F32<'a> = MachOFile<'a, macho::MachHeader32<Endianness>>;
macro_rules! by_class {
    ($is64:expr, $f:ident($d:expr $(, $a:expr)*)) => {
        if $is64 { $f(&nd::must(F64::parse(&**$d)) $(, $a)*) } else { $f(&nd::must(F32::parse(&**$d)) $(, $a)*) }
    };
}
fn new<'a>(a: A, big: bool) -> Object<'a> { Object::new(BinaryFormat::MachO, a, if big { Endianness::Big } else { Endianness::Little }) }
fn sym(name: &[u8], kind: SymbolKind, scope: SymbolScope, section: SymbolSection) -> Symbol {
    Symbol { name: name.to_vec(), value: 0, size: 0, kind, scope, weak: false, section, flags: SymbolFlags::None }
}
/// (architecture, cputype, subtype, 64-bit)
const ARCHS: [(A, u64, u64, bool); 7] = [
    (A::Arm, 12, 0, false), (A::Aarch64, 0x100_000c, 0, true), (A::Aarch64_Ilp32, 0x200_000c, 1, false), (A::I386, 7, 3, false),
    (A::X86_64, 0x100_0007, 3, true), (A::PowerPc, 18, 0, false), (A::PowerPc64, 0x100_0012, 0, true),
];
/// (kind, flags, segment)
const SECTIONS: &[(S, u64, &[u8])] = &[
    (S::Text, 0x8000_0400, b"__TEXT"), (S::Data, 0, b"__DATA"), (S::ReadOnlyData, 0, b"__TEXT"), (S::ReadOnlyDataWithRel, 0, b"__DATA"), (S::ReadOnlyString, 2, b"__TEXT"),
    (S::UninitializedData, 1, b"__DATA"), (S::Tls, 0x11, b"__DATA"), (S::UninitializedTls, 0x12, b"__DATA"), (S::TlsVariables, 0x13, b"__DATA"),
    (S::Debug, 0x0200_0000, b"__DWARF"), (S::DebugString, 0x0200_0000, b"__DWARF"), (S::OtherString, 2, b"__X"), (S::Other, 0, b"__X"), (S::Linker, 0, b"__LINKER"), (S::Metadata, 0, b""),
];
struct W<'a> { seg: &'a [u8], name: &'a [u8], flags: u64, align: u64, size: u64, data: Option<&'a [u8]> }
/// sections follow one another with the required alignment, data before space
fn sections_back<Mach: MachHeader<Endian = Endianness>>(f: &MachOFile<'_, Mach>, d: &[u8], want: &[W<'_>]) {
    nd::ck_eq(f.sections().count() as u64, want.len() as u64);
    let m = img::M { is64: f.is_64(), big: !f.is_little_endian() };
    let mut at = 0u64;
    let mut addr = vec![0; want.len()];
    for bss in [false, true] {
        for (i, w) in want.iter().enumerate() {
            if w.data.is_none() != bss { continue; }
            at = (at + w.align - 1) & !(w.align - 1);
            addr[i] = at;
            at += w.size;
        }
        if !bss { nd::ck_eq(m.segget(d, m.hdr(), 3), at); }
    }
    nd::ck_eq(m.segget(d, m.hdr(), 1), at);
    for (i, w) in want.iter().enumerate() {
        let s = nd::must(f.section_by_index(SectionIndex(i + 1)));
        nd::ck_bytes(nd::must(s.name_bytes()), w.name);
        nd::ck_bytes(nd::some(nd::must(s.segment_name_bytes())), w.seg);
        nd::ck_eq(s.address(), addr[i]);
        nd::ck_eq(s.align(), w.align);
        nd::ck_eq(s.size(), w.size);
        let SectionFlags::MachO { flags, .. } = s.flags() else { nd::ck(false); return };
        nd::ck_eq(flags.0 as u64, w.flags);
        if let Some(x) = w.data {
            let r = nd::must(s.data());
            nd::ck_bytes(r, x);
            if !r.is_empty() { nd::ck_eq((r.as_ptr() as usize - d.as_ptr() as usize) as u64, m.segget(d, m.hdr(), 2) + addr[i]); }
        } else {
            nd::ck(nd::must(s.data()).is_empty());
        }
    }
}
fn kind_back<Mach: MachHeader<Endian = Endianness>>(f: &MachOFile<'_, Mach>, i: usize, kind: S) {
    let q = nd::must(f.section_by_index(SectionIndex(i))).kind();
    nd::ck(match kind {
        S::ReadOnlyDataWithRel | S::Other | S::Linker | S::Metadata => q == S::Data,
        S::DebugString => q == S::Debug,
        S::OtherString => q == S::ReadOnlyString,
        k => q == k,
    });
}
fn sections(k: usize) {
    let is64 = nd::flag();
    let mut o = new(if is64 { A::Aarch64 } else { A::PowerPc }, !is64);
    let (kind, flags, seg) = SECTIONS[k];
    let bss = matches!(kind, S::UninitializedData | S::UninitializedTls);
    let align = 1u64 << [0, 1, 3, 14][nd::below(4)];
    let b: [u8; 5] = nd::bytes();
    let n = nd::below(6);
    let t = o.add_section(b"__TEXT".to_vec(), b"__text".to_vec(), S::Text);
    o.set_section_data(t, &b[..3], 1);
    let name: &[u8] = if nd::flag() { b"sixteen letters." } else { b"s" };
    let s = o.add_section(seg.to_vec(), name.to_vec(), kind);
    let mut size = n as u64;
    if bss { size = nd::u16() as u64; nd::ck_eq(o.append_section_bss(s, size, align), 0); }
    else { nd::ck_eq(o.append_section_data(s, &b[..n], align), 0); }
    let z = o.add_section(b"__DATA__SIXTEEN_".to_vec(), b"__z".to_vec(), S::Data);
    o.append_section_data(z, &b[1..5], 8);
    let d = nd::must(o.write());
    let want = [
        W { seg: b"__TEXT", name: b"__text", flags: 0x8000_0400, align: 1, size: 3, data: Some(&b[..3]) },
        W { seg, name, flags, align, size, data: if bss { None } else { Some(&b[..n]) } },
        W { seg: b"__DATA__SIXTEEN_", name: b"__z", flags: 0, align: 8, size: 4, data: Some(&b[1..5]) },
    ];
    by_class!(is64, sections_back(&d, &d, &want));
    by_class!(is64, kind_back(&d, 2, kind));
    nd::reach(1);
}
fn header() {
    let (a, cpu, sub, is64) = ARCHS[nd::below(7)];
    let big = nd::flag();
    let m = img::M { is64, big };
    let mut o = new(a, big);
    let e = cpu == 0x100_000c && nd::flag();
    if e { o.set_sub_architecture(Some(SubArchitecture::Arm64E)); }
    let (mut sub, own) = (if e { 2 } else { sub }, nd::u32());
    if !e && nd::flag() { o.set_macho_cpu_subtype(macho::CpuSubtype(own)); sub = own as u64; }
    let mut flags = nd::u32();
    o.flags = FileFlags::MachO { flags: macho::FileFlags(flags) };
    if nd::flag() { o.set_subsections_via_symbols(); flags |= 0x2000; }
    let v = nd::flag();
    let (p, min, sdk) = (nd::u32(), nd::u32(), nd::u32());
    if v {
        let mut b = MachOBuildVersion::default();
        b.platform = macho::Platform(p);
        b.minos = macho::Version(min);
        b.sdk = macho::Version(sdk);
        o.set_macho_build_version(b);
    }
    let bytes: [u8; 3] = nd::bytes();
    let s = o.section_id(StandardSection::Data);
    o.append_section_data(s, &bytes, 1);
    let d = nd::must(o.write());
    for (i, w) in [cpu, sub, 1, 3 + v as u64].into_iter().enumerate() { nd::ck_eq(m.u32(&d, 4 + 4 * i), w); }
    nd::ck_eq(m.u32(&d, 24), flags as u64);
    let at = m.hdr() + m.seg() + m.sect();
    if v {
        nd::ck(m.u32(&d, at) == 0x32 && m.u32(&d, at + 4) == 24 && m.u32(&d, at + 20) == 0);
        nd::ck_eq(m.u32(&d, at + 8), p as u64);
        nd::ck_eq(m.u32(&d, at + 12), min as u64);
        nd::ck_eq(m.u32(&d, at + 16), sdk as u64);
        nd::reach(1);
    }
    by_class!(is64, header_back(&d, a, e, big, flags, &bytes));
}
fn header_back<Mach: MachHeader<Endian = Endianness>>(f: &MachOFile<'_, Mach>, a: A, e: bool, big: bool, flags: u32, bytes: &[u8]) {
    nd::ck(f.architecture() == a && f.is_little_endian() != big);
    if e { nd::ck(f.sub_architecture() == Some(SubArchitecture::Arm64E)); }
    nd::ck(f.kind() == object::ObjectKind::Relocatable);
    let FileFlags::MachO { flags: x } = f.flags() else { nd::ck(false); return };
    nd::ck_eq(x.0 as u64, flags as u64);
    nd::ck_bytes(nd::must(nd::must(f.section_by_index(SectionIndex(1))).data()), bytes);
    nd::ck_eq(f.symbols().count() as u64, 0);
    nd::reach(2);
}
fn flags() {
    let is64 = nd::flag();
    let m = img::M { is64, big: !is64 };
    let mut o = new(if is64 { A::X86_64 } else { A::PowerPc }, !is64);
    let s = o.add_section(b"__S".to_vec(), b"s".to_vec(), S::Data);
    let (fl, r2, t, desc, v) = (nd::u32(), nd::u32(), nd::u8(), nd::u16(), nd::u32());
    o.section_mut(s).flags = SectionFlags::MachO { flags: macho::SectionFlags(fl), reserved2: r2 };
    let mut y = sym(b"y", SymbolKind::Data, SymbolScope::Linkage, SymbolSection::Section(s));
    y.value = v as u64;
    y.flags = SymbolFlags::MachO { n_type: macho::SymbolFlags(t), n_desc: macho::SymbolDesc(desc) };
    o.add_symbol(y);
    let d = nd::must(o.write());
    let at = m.hdr() + m.seg();
    nd::ck_eq(m.sectget(&d, at, 6), fl as u64);
    nd::ck_eq(m.sectget(&d, at, 8), r2 as u64);
    let st = m.u32(&d, at + m.sect() + 8) as usize;
    nd::ck(m.u32(&d, at + m.sect()) == 2 && m.u32(&d, at + m.sect() + 12) == 1);
    nd::ck(d[st + 4] == t && d[st + 5] == 1);
    nd::ck_eq(m.get(&d, st + 6, 2), desc as u64);
    nd::ck_eq(m.get(&d, st + 8, m.w()), v as u64);
    nd::reach(1);
}

#[derive(Clone, Copy)]
struct Y { name: &'static [u8], kind: SymbolKind, scope: SymbolScope, weak: bool, sect: usize, value: u64, size: u64 }
const NAMES: [&[u8]; 3] = [b"b", b"an", b"a"];
/// section addresses: 2 and 4 bytes of data, then space aligned to 4
const ADDR: [u64; 3] = [0, 4, 8];
fn symbols(which: usize) {
    let is64 = nd::flag();
    let mut o = new(if is64 { A::X86_64 } else { A::PowerPc }, !is64);
    let s = o.add_section(b"__DATA".to_vec(), b"s".to_vec(), S::Data);
    o.append_section_data(s, &[1, 2], 1);
    let t = o.add_section(b"__TEXT".to_vec(), b"t".to_vec(), S::Text);
    o.append_section_data(t, &[1, 2, 3, 4], 4);
    let u = o.add_section(b"__DATA".to_vec(), b"u".to_vec(), S::UninitializedTls);
    o.append_section_bss(u, 16, 4);
    // neither is written
    let f = o.add_file_symbol(b"f.c".to_vec());
    let q = o.section_symbol(t);
    nd::ck(f != q);
    let mut ys: Vec<Y> = Vec::new();
    for i in 0..3 {
        let pick = i == which;
        let scope = [SymbolScope::Compilation, SymbolScope::Linkage, SymbolScope::Dynamic][if pick { nd::below(3) } else { 2 - i }];
        let weak = pick && nd::flag();
        let sect = if pick { nd::below(6) } else { 3 + i % 2 };
        let kind = if sect == 5 { SymbolKind::Tls } else if nd::flag() { SymbolKind::Text } else { SymbolKind::Unknown };
        // undefined symbols have no local scope
        if sect == 0 || sect == 2 { nd::assume(scope != SymbolScope::Compilation); }
        let (mut value, mut size) = (nd::u16() as u64, nd::u16() as u64);
        if sect == 0 { value = 0; }
        if sect == 2 { value = [0, 1, 2, 8, 24, 1 << 15, 1 << 16][nd::below(7)]; nd::assume(size != 0); size |= 0x1_0000; }
        let mut y = sym(NAMES[i], kind, scope, [SymbolSection::Undefined, SymbolSection::Absolute, SymbolSection::Common, SymbolSection::Section(s), SymbolSection::Section(t), SymbolSection::Section(u)][sect]);
        y.value = value;
        y.size = size;
        y.weak = weak;
        o.add_symbol(y);
        ys.push(Y { name: NAMES[i], kind, scope, weak, sect, value, size });
    }
    let d = nd::must(o.write());
    by_class!(is64, symbols_back(&d, &d, &ys));
}
fn symbols_back<Mach: MachHeader<Endian = Endianness>>(f: &MachOFile<'_, Mach>, d: &[u8], ys: &[Y]) {
    let m = img::M { is64: f.is_64(), big: !f.is_little_endian() };
    nd::ck_eq(f.symbols().count() as u64, 3);
    let mut seen = [false; 3];
    let (mut last, mut counts) = (0, [0u64; 3]);
    let mut prev: Vec<u8> = Vec::new();
    for r in f.symbols() {
        let name = nd::must(r.name_bytes());
        let mut found = 9;
        for (i, y) in ys.iter().enumerate() {
            let mut n = if y.kind == SymbolKind::Unknown { Vec::new() } else { vec![b'_'] };
            n.extend_from_slice(y.name);
            if n.len() == name.len() && img::eq(&n, name) { found = i; }
        }
        nd::ck(found < 3);
        nd::ck(!seen[found]);
        seen[found] = true;
        let y = ys[found];
        // local, then external, then undefined
        let part = if y.sect == 0 || y.sect == 2 { 2 } else { (y.scope != SymbolScope::Compilation) as usize };
        nd::ck(part >= last);
        // sorted by name for lookup
        if part > 0 && part == last { nd::ck(prev < name.to_vec()); }
        last = part;
        prev = name.to_vec();
        counts[part] += 1;
        nd::ck(r.is_weak() == (y.weak && y.sect != 2) || y.sect == 2);
        // a weak reference or a weak definition
        let SymbolFlags::MachO { n_desc, .. } = r.flags() else { nd::ck(false); return };
        if y.sect != 2 { nd::ck_eq(n_desc.0 as u64 & 0xc0, if !y.weak { 0 } else if y.sect == 0 { 0x40 } else { 0x80 }); }
        match y.sect {
            0 => nd::ck(r.is_undefined() && r.is_global()),
            2 => {
                nd::ck(r.is_common() && r.is_global());
                nd::ck_eq(r.size(), y.size);
                nd::ck_eq(r.address(), 0);
                let SymbolFlags::MachO { n_desc, .. } = r.flags() else { nd::ck(false); return };
                let a = match y.value { 0 | 1 => 0, 2 => 1, 8 | 24 => 3, _ => 15 };
                nd::ck_eq(n_desc.0 as u64 >> 8 & 15, a);
                nd::reach(2);
            }
            1 => {
                nd::ck_eq(r.address(), y.value);
                nd::ck(r.section() == object::SymbolSection::Absolute && r.scope() == y.scope);
            }
            k => {
                nd::ck_eq(r.address(), ADDR[k - 3] + y.value);
                nd::ck(r.section_index() == Some(SectionIndex(k - 2)) && r.scope() == y.scope && r.is_definition());
                nd::ck(r.kind() == [SymbolKind::Data, SymbolKind::Text, SymbolKind::Tls][k - 3]);
            }
        }
        nd::ck(!r.macho_symbol().n_type().is_stab());
    }
    // the dynamic symbol table command describes the partition
    let at = m.hdr() + m.seg() + 3 * m.sect() + 24;
    nd::ck(m.u32(d, at) == 0xb && m.u32(d, at + 4) == 80);
    let want = [0, counts[0], counts[0], counts[1], counts[0] + counts[1], counts[2]];
    for (i, w) in want.into_iter().enumerate() { nd::ck_eq(m.u32(d, at + 8 + 4 * i), w); }
    nd::reach(1);
}

/// plain entry, independently unpacked: (number, pcrel, length, extern, type)
fn unpack(m: img::M, d: &[u8], at: usize) -> (u64, bool, u64, bool, u64) {
    let w = m.u32(d, at + 4);
    if m.big { (w >> 8, w & 0x80 != 0, w >> 5 & 3, w & 16 != 0, w & 15) } else { (w & 0xff_ffff, w >> 24 & 1 != 0, w >> 25 & 3, w >> 27 & 1 != 0, w >> 28) }
}
/// (kind, encoding, size, pcrel, type, addend in the data less the given one); type 99 is unsupported
type T = (K, N, u8, bool, u64, i64);
const X86: &[T] = &[(K::Absolute, N::Generic, 32, false, 0, 0), (K::Relative, N::Generic, 32, false, 99, 0), (K::GotRelative, N::Generic, 32, false, 99, 0), (K::Absolute, N::Generic, 8, false, 0, 0), (K::Absolute, N::Generic, 16, false, 0, 0)];
const X64: &[T] = &[
    (K::Absolute, N::Generic, 64, false, 0, 0), (K::Absolute, N::Generic, 32, false, 0, 0), (K::Relative, N::Generic, 32, true, 1, 4), (K::Relative, N::X86RipRelative, 32, true, 1, 4), (K::Relative, N::X86Branch, 32, true, 2, 4),
    (K::PltRelative, N::Generic, 32, true, 2, 4), (K::PltRelative, N::X86Branch, 32, true, 2, 4), (K::GotRelative, N::Generic, 32, true, 4, 4), (K::GotRelative, N::X86RipRelativeMovq, 32, true, 3, 4),
    (K::Got, N::Generic, 32, true, 99, 0), (K::Absolute, N::X86Signed, 32, true, 99, 0), (K::Absolute, N::Generic, 24, true, 99, 0), (K::Absolute, N::Generic, 8, false, 0, 0), (K::Absolute, N::Generic, 16, false, 0, 0),
];
const A64: &[T] = &[
    (K::Absolute, N::Generic, 64, false, 0, 0), (K::Absolute, N::Generic, 32, false, 0, 0), (K::Relative, N::AArch64Call, 26, true, 2, 0), (K::PltRelative, N::Generic, 26, true, 2, 0), (K::PltRelative, N::AArch64Call, 32, true, 2, 0),
    (K::GotRelative, N::Generic, 32, true, 7, 0), (K::Got, N::Generic, 64, false, 99, 0), (K::Absolute, N::Generic, 17, false, 99, 0),
    (K::Absolute, N::Generic, 12, false, 0, 0), (K::Absolute, N::Generic, 21, false, 0, 0), (K::Absolute, N::Generic, 8, false, 0, 0), (K::Absolute, N::Generic, 16, false, 0, 0),
];
const RELOCS: [(usize, &[T]); 7] = [(3, X86), (0, X86), (5, X86), (6, X86), (4, X64), (1, A64), (2, A64)];
/// one relocation by meaning
fn reloc_kind(which: usize) {
    let (a, t) = RELOCS[which];
    let arm = which >= 5;
    let (a, _, _, is64) = ARCHS[a];
    let big = (which == 2 || which == 3) || which == 1 && nd::flag();
    let m = img::M { is64, big };
    let i = nd::below(t.len());
    let (kind, encoding, size, pcrel, ty, implied) = t[i];
    let mut o = new(a, big);
    let b: [u8; 12] = nd::bytes();
    let s = o.add_section(b"__DATA".to_vec(), b"s".to_vec(), S::Data);
    o.append_section_data(s, &b, 4);
    let z = o.add_section(b"__DATA".to_vec(), b"z".to_vec(), S::Data);
    o.append_section_data(z, &[0; 3], 1);
    let l = o.add_symbol(sym(b"l", SymbolKind::Data, SymbolScope::Compilation, SymbolSection::Section(z)));
    let g = o.add_symbol(sym(b"g", SymbolKind::Data, SymbolScope::Dynamic, SymbolSection::Undefined));
    let to = nd::below(3);
    let target = if to == 0 { l } else if to == 1 { g } else { o.section_symbol(z) };
    let off = img::pick(&[0, 1, 4, 8, 9, 0x7fff_fffe]);
    let explicit = arm && ty == 2;
    let wide = explicit && nd::flag();
    let add = match nd::below(3) {
        0 => -implied,
        // explicit addends have 24 bits
        1 if wide => { let x = nd::u64() as i64; nd::assume(x < -0x80_0000 || x > 0x7f_ffff); x }
        _ if explicit => { let x = img::sext(nd::u32() as u64 & 0xff_ffff, 24) as i64; nd::assume(x != 0); x }
        1 => { let x = nd::u64() as i64; nd::assume(x < i64::MAX - 8 && x != -implied); x }
        _ => img::sext(nd::u32() as u64, 32) as i64,
    };
    let stored = add.wrapping_add(implied);
    let r = o.add_relocation(s, Relocation { offset: off, symbol: target, addend: add, flags: RelocationFlags::Generic { kind, encoding, size } });
    let bytes = if matches!(size, 12 | 21 | 26) { 4 } else { size as u64 / 8 };
    let can = explicit || stored == 0 || bytes >= 4 && off + bytes <= 12;
    nd::ck(r.is_ok() == (ty != 99 && can));
    if r.is_err() { nd::reach(2); return; }
    let mut want = b;
    if !explicit && stored != 0 { img::put(&mut want, off as usize, bytes as usize, stored as u64, big); nd::reach(3); }
    let d = o.write();
    nd::ck(d.is_ok() == !(explicit && (add < -0x80_0000 || add > 0x7f_ffff)));
    let Ok(d) = d else { nd::reach(4); return };
    let at = m.hdr() + m.seg();
    let (p, n) = (m.sectget(&d, at, 4) as usize, m.sectget(&d, at, 5));
    let pair = explicit && add != 0;
    nd::ck_eq(n, 1 + pair as u64);
    if pair {
        nd::ck(unpack(m, &d, p) == (add as u64 & 0xff_ffff, false, 2, false, 10) && m.u32(&d, p) == off);
    }
    let p = p + 8 * pair as usize;
    let length = match bytes { 1 => 0, 2 => 1, 4 => 2, _ => 3 };
    // an undefined symbol follows the local ones, section symbols are only written for 64-bit ARM
    let num = if to == 2 { 2 } else if to == 0 { 0 } else { 1 };
    nd::ck(unpack(m, &d, p) == (num, pcrel, length, to != 2, ty) && m.u32(&d, p) == off);
    let (kind, encoding, size) = match (which, ty) { (4, 1) => (K::Relative, N::X86RipRelative, size), (4, 2) => (K::PltRelative, N::X86Branch, size), (5 | 6, 2) => (K::PltRelative, N::AArch64Call, 26), (5 | 6, 0) if size != 64 && size % 8 != 0 => (kind, encoding, 32), _ => (kind, encoding, size) };
    by_class!(is64, reloc_back(&d, off, to, kind, encoding, size, if explicit { add } else { -implied }, &want));
}
fn reloc_back<Mach: MachHeader<Endian = Endianness>>(f: &MachOFile<'_, Mach>, off: u64, to: usize, kind: K, encoding: N, size: u8, add: i64, want: &[u8]) {
    let s = nd::must(f.section_by_index(SectionIndex(1)));
    nd::ck_bytes(nd::must(s.data()), want);
    let mut it = s.relocations();
    let (p, r) = nd::some(it.next());
    nd::ck(it.next().is_none());
    nd::ck_eq(p, off);
    nd::ck(r.kind() == kind && r.encoding() == encoding);
    nd::ck_eq(r.size() as u64, size as u64);
    nd::ck_eq(r.addend() as u64, add as u64);
    nd::ck(r.subtractor().is_none());
    match r.target() {
        RelocationTarget::Section(i) => nd::ck(to == 2 && i == SectionIndex(2)),
        RelocationTarget::Symbol(i) => {
            nd::ck(to != 2);
            let y = nd::must(f.symbol_by_index(i));
            nd::ck_bytes(nd::must(y.name_bytes()), if to == 0 { b"_l" } else { b"_g" });
            nd::ck(y.is_undefined() == (to == 1));
        }
        _ => nd::ck(false),
    }
    nd::reach(1);
}
/// one relocation by type
fn reloc_type() {
    let (a, _, _, is64) = ARCHS[[4, 5, 3, 1][nd::below(4)]];
    let big = a == A::PowerPc;
    let m = img::M { is64, big };
    let mut o = new(a, big);
    let b: [u8; 12] = nd::bytes();
    let s = o.add_section(b"__DATA".to_vec(), b"s".to_vec(), S::Data);
    o.append_section_data(s, &b, 4);
    let n = nd::below(4);
    let mut g: Option<SymbolId> = None;
    for i in 0..=n { g = Some(o.add_symbol(sym(&[b'a' + i as u8], SymbolKind::Data, SymbolScope::Dynamic, SymbolSection::Undefined))); }
    let g = nd::some(g);
    let (r_type, r_pcrel, r_length) = (nd::below(10) as u8, nd::flag(), nd::below(4) as u8);
    let implied = if !r_pcrel { 0 } else if a == A::X86_64 { match r_type { 6 => 5, 7 => 6, 8 => 8, _ => 4 } } else if a == A::I386 { 4 } else { 0 };
    let explicit = a == A::Aarch64 && (r_type == 2 || r_type == 3 || r_type == 4);
    let x = if explicit { img::sext(nd::u32() as u64 & 0xff_ffff, 24) as i64 } else { img::sext(nd::u32() as u64, 32) as i64 };
    let stored = x + implied;
    let zero = nd::conc((stored == 0) as u64) == 1;
    let r = o.add_relocation(s, Relocation { offset: 4, symbol: g, addend: x, flags: RelocationFlags::MachO { r_type: macho::RelocationType(r_type), r_pcrel, r_length } });
    nd::ck(r.is_ok() == (explicit || zero || r_length >= 2));
    if r.is_err() { nd::reach(2); return; }
    let mut want = b;
    if !explicit && !zero { img::put(&mut want, 4, 1 << r_length, stored as u64, big); }
    let d = nd::must(o.write());
    let at = m.hdr() + m.seg();
    let p = m.sectget(&d, at, 4) as usize;
    let pair = explicit && !zero;
    nd::ck_eq(m.sectget(&d, at, 5), 1 + pair as u64);
    if pair { nd::ck(unpack(m, &d, p) == (x as u64 & 0xff_ffff, false, r_length as u64, false, 10)); nd::reach(3); }
    nd::ck(unpack(m, &d, p + 8 * pair as usize) == (n as u64, r_pcrel, r_length as u64, true, r_type as u64));
    nd::ck_eq(m.u32(&d, p + 8 * pair as usize), 4);
    let o = m.sectget(&d, at, 2) as usize;
    nd::ck_bytes(&d[o..o + 12], &want);
    nd::reach(1);
}
/// differences of symbols
fn subtract() {
    let arm = nd::flag();
    let ilp = arm && nd::flag();
    let mut o = new(if ilp { A::Aarch64_Ilp32 } else if arm { A::Aarch64 } else { A::X86_64 }, false);
    let b: [u8; 16] = nd::bytes();
    let s = o.add_section(b"__DATA".to_vec(), b"s".to_vec(), S::Data);
    o.append_section_data(s, &b, 4);
    let z = o.add_symbol(sym(b"z", SymbolKind::Data, SymbolScope::Compilation, SymbolSection::Section(s)));
    let g = o.add_symbol(sym(b"g", SymbolKind::Data, SymbolScope::Dynamic, SymbolSection::Section(s)));
    let off = img::pick(&[0, 3, 8]);
    let x = img::sext(nd::u32() as u64, 32) as i64;
    // 64-bit ARM expresses data relative to its own place like this
    let own = arm && nd::flag();
    let size = [32, 64][nd::below(2)];
    let kind = if own { K::Relative } else { K::Absolute };
    let flags = RelocationFlags::Generic { kind, encoding: N::Generic, size };
    let rel = Relocation { offset: off, symbol: g, addend: x, flags };
    nd::must(if own { o.add_relocation(s, rel) } else { o.add_relocation_with_subtractor(s, rel, Some(z)) });
    let stored = if own { x - off as i64 } else { x };
    let zero = nd::conc((stored == 0) as u64) == 1;
    let mut want = b;
    if !zero { img::put(&mut want, off as usize, size as usize / 8, stored as u64, false); }
    let d = nd::must(o.write());
    by_class!(!ilp, subtract_back(&d, off, size, own, &want));
}
fn subtract_back<Mach: MachHeader<Endian = Endianness>>(f: &MachOFile<'_, Mach>, off: u64, size: u8, own: bool, want: &[u8]) {
    let s = nd::must(f.section_by_index(SectionIndex(1)));
    nd::ck_bytes(nd::must(s.data()), want);
    let mut it = s.relocations();
    let (p, r) = nd::some(it.next());
    nd::ck(it.next().is_none() && p == off && r.kind() == K::Absolute && r.addend() == 0 && r.has_implicit_addend());
    nd::ck_eq(r.size() as u64, size as u64);
    let RelocationTarget::Symbol(i) = r.target() else { nd::ck(false); return };
    nd::ck_bytes(nd::must(nd::must(f.symbol_by_index(i)).name_bytes()), b"_g");
    let y = nd::must(f.symbol_by_index(nd::some(r.subtractor())));
    nd::ck(y.is_local());
    nd::ck(y.section_index() == Some(SectionIndex(1)));
    nd::ck_eq(y.address(), 0);
    if own { nd::ck(y.kind() == SymbolKind::Section); nd::reach(2); } else { nd::ck_bytes(nd::must(y.name_bytes()), b"_z"); }
    nd::reach(1);
}
/// every relocation of several sections is written once
fn many() {
    let is64 = nd::flag();
    let mut o = new(if is64 { A::Aarch64 } else { A::PowerPc }, !is64);
    let m = img::M { is64, big: !is64 };
    let offs = [[0, 4, 8], [8, 4, 0], [0, 8, 4], [8, 0, 4]][nd::below(4)];
    let mut g = Vec::new();
    for n in [b"x", b"c", b"m"] { g.push(o.add_symbol(sym(n, SymbolKind::Data, SymbolScope::Dynamic, SymbolSection::Undefined))); }
    let k = nd::range(1, 3);
    for i in 0..2 {
        let s = o.add_section(b"__DATA".to_vec(), vec![b's' + i], S::Data);
        o.append_section_data(s, &[0; 12], 4);
        for j in 0..if i == 0 { k } else { 2 } {
            nd::must(o.add_relocation(s, Relocation { offset: offs[j], symbol: g[(j + i as usize) % 3], addend: 0, flags: RelocationFlags::Generic { kind: K::Absolute, encoding: N::Generic, size: 32 } }));
        }
    }
    let d = nd::must(o.write());
    for i in 0..2 {
        let at = m.hdr() + m.seg() + i * m.sect();
        let (p, n) = (m.sectget(&d, at, 4) as usize, if i == 0 { k } else { 2 });
        nd::ck(m.sectget(&d, at, 5) == n as u64 && p % m.w() == 0);
        let mut seen = [false; 3];
        for q in 0..n {
            let o = m.u32(&d, p + 8 * q);
            let mut j = 0;
            while j < n && offs[j] != o { j += 1; }
            nd::ck(j < n && !seen[j]);
            seen[j] = true;
            // undefined symbols are sorted by name: c, m, x
            nd::ck_eq(unpack(m, &d, p + 8 * q).0, [2, 0, 1][(j + i) % 3]);
        }
        // ascending input comes out descending
        if offs[0] < offs[n - 1] && offs[1] == 4 { for q in 1..n { nd::ck(m.u32(&d, p + 8 * q) < m.u32(&d, p + 8 * q - 8)); } nd::reach(1); }
    }
    by_class!(is64, many_back(&d));
}
fn many_back<Mach: MachHeader<Endian = Endianness>>(f: &MachOFile<'_, Mach>) {
    let mut at = 0;
    for y in f.symbols() {
        nd::ck_bytes(nd::must(y.name_bytes()), [b"_c", b"_m", b"_x"][at]);
        at += 1;
    }
    nd::ck_eq(at as u64, 3);
    nd::reach(2);
}
/// thread-local variables get a descriptor
fn tls() {
    let is64 = nd::flag();
    let mut o = new(if is64 { A::Aarch64 } else { A::PowerPc }, !is64);
    let w = if is64 { 8 } else { 4 };
    let b: [u8; 3] = nd::bytes();
    let n = nd::range(1, 2);
    let bss = nd::flag();
    let (weak, hidden) = (nd::flag(), nd::flag());
    let mut offs = Vec::new();
    for i in 0..n {
        let mut y = sym(&[b'v' + i as u8], SymbolKind::Tls, if hidden { SymbolScope::Linkage } else { SymbolScope::Dynamic }, SymbolSection::Undefined);
        y.weak = weak;
        let y = o.add_symbol(y);
        let s = o.section_id(if bss { StandardSection::UninitializedTls } else { StandardSection::Tls });
        offs.push(if bss { o.add_symbol_bss(y, s, 3, 2) } else { o.add_symbol_data(y, s, &b, 2) });
    }
    let d = nd::must(o.write());
    by_class!(is64, tls_back(&d, w, n, &offs, if bss { &[] } else { &b }, weak, hidden));
}
fn tls_back<Mach: MachHeader<Endian = Endianness>>(f: &MachOFile<'_, Mach>, w: u64, n: usize, offs: &[u64], b: &[u8], weak: bool, hidden: bool) {
    let find = |name: &[u8]| nd::some(f.symbols().find(|y| { let x = nd::must(y.name_bytes()); x.len() == name.len() && img::eq(x, name) }));
    let vars = nd::some(f.sections().find(|s| s.kind() == S::TlsVariables));
    let data = nd::some(f.sections().find(|s| matches!(s.kind(), S::Tls | S::UninitializedTls)));
    nd::ck_eq(vars.size(), 3 * w * n as u64);
    nd::ck_eq(vars.relocations().count() as u64, 2 * n as u64);
    nd::ck(find(b"__tlv_bootstrap").is_undefined());
    for i in 0..n {
        let v = find(&[b'_', b'v' + i as u8]);
        let init = find(&[b'_', b'v' + i as u8, b'$', b't', b'l', b'v', b'$', b'i', b'n', b'i', b't']);
        nd::ck(v.is_global() && init.is_local());
        nd::ck(v.is_weak() == weak && !init.is_weak());
        nd::ck(v.scope() == if hidden { SymbolScope::Linkage } else { SymbolScope::Dynamic });
        nd::ck(nd::must(vars.data()).iter().all(|x| *x == 0) && vars.align() == w);
        let z = nd::must(data.data());
        if b.is_empty() { nd::ck(z.is_empty() && data.size() == offs[i] + 3 || n == 2); } else { nd::ck_bytes(&z[4 * i..4 * i + 3], b); }
        nd::ck(v.section_index() == Some(vars.index()) && init.section_index() == Some(data.index()));
        let at = v.address() - vars.address();
        nd::ck_eq(at, 3 * w * i as u64);
        nd::ck_eq(init.address() - data.address(), offs[i]);
        nd::ck_eq(offs[i], 4 * i as u64);
        let (mut first, mut third) = (0, 0);
        for (o, r) in vars.relocations() {
            nd::ck(r.kind() == K::Absolute && r.size() as u64 == 8 * w);
            let RelocationTarget::Symbol(t) = r.target() else { nd::ck(false); return };
            if o == at { first += 1; nd::ck(t == find(b"__tlv_bootstrap").index()); }
            if o == at + 2 * w { third += 1; nd::ck(t == init.index()); }
        }
        nd::ck(first == 1 && third == 1);
    }
    nd::reach(1);
}
fn standard() {
    use StandardSection as Z;
    const T: [(Z, usize, &[u8]); 10] = [
        (Z::Text, 0, b"__text"), (Z::Data, 1, b"__data"), (Z::ReadOnlyData, 2, b"__const"), (Z::ReadOnlyDataWithRel, 3, b"__const"), (Z::ReadOnlyString, 4, b"__cstring"),
        (Z::UninitializedData, 5, b"__bss"), (Z::Tls, 6, b"__thread_data"), (Z::UninitializedTls, 7, b"__thread_bss"), (Z::TlsVariables, 8, b"__thread_vars"), (Z::EhFrame, 2, b"__eh_frame"),
    ];
    let is64 = nd::flag();
    let mut o = new(if is64 { A::X86_64 } else { A::I386 }, false);
    let (z, k, name) = T[nd::below(10)];
    let a = o.section_id(z);
    // subsections are expressed by symbols
    nd::ck(o.section_id(z) == a && o.add_subsection(z, b"foo") == a);
    let via = nd::flag();
    if via { o.set_subsections_via_symbols(); }
    let y = o.add_symbol(sym(b"y", SymbolKind::Data, SymbolScope::Dynamic, SymbolSection::Undefined));
    let (kind, flags, seg) = SECTIONS[k];
    let bss = k == 5 || k == 7;
    let p = if bss { o.add_symbol_bss(y, a, 0, 8) } else { o.add_symbol_data(y, a, &[], 8) };
    nd::ck_eq(p, 0);
    // a subsection has at least one byte
    nd::ck(o.symbol(y).size == via as u64 && o.symbol(y).value == 0 && o.symbol(y).section.id() == Some(a));
    nd::ck(o.symbol_id(b"y") == Some(y) && o.symbol_id(b"_y").is_none());
    let d = nd::must(o.write());
    let flags = if name == b"__eh_frame" { 0x6800_000b } else { flags };
    let size = via as u64;
    by_class!(is64, sections_back(&d, &d, &[W { seg, name, flags, align: 8, size, data: if bss { None } else { Some(&[0][..via as usize]) } }]));
    if name != b"__eh_frame" { by_class!(is64, kind_back(&d, 1, kind)); }
    nd::reach(1);
}
/// what cannot be expressed
fn errors() {
    let mut o = new(A::X86_64, false);
    let k = nd::below(7);
    let s = o.add_section(b"__DATA".to_vec(), b"s".to_vec(), S::Data);
    o.append_section_data(s, &[0; 8], 1);
    let y = o.add_symbol(sym(b"y", SymbolKind::Data, SymbolScope::Dynamic, SymbolSection::Section(s)));
    match k {
        0 => { o.add_section(b"__DATA".to_vec(), b"seventeen letters".to_vec(), S::Data); }
        1 => { o.add_section(b"seventeen letters".to_vec(), b"s".to_vec(), S::Data); }
        2 => { o.add_section(b"__DATA".to_vec(), b"n".to_vec(), S::Note); }
        3 => { o.add_symbol(sym(b"l", SymbolKind::Label, SymbolScope::Compilation, SymbolSection::Section(s))); }
        4 => { nd::must(o.add_relocation(s, Relocation { offset: 0, symbol: y, addend: 0, flags: RelocationFlags::MachO { r_type: macho::RelocationType(0), r_pcrel: false, r_length: 3 } })); }
        5 => { o.add_section(b"__DATA".to_vec(), b"n".to_vec(), S::Unknown); }
        _ => { nd::ck(o.add_relocation(s, Relocation { offset: 0, symbol: y, addend: 0, flags: RelocationFlags::Coff { typ: object::pe::RelocationType(1) } }).is_err()); }
    }
    nd::ck(o.write().is_ok() == (k == 4 || k == 6));
    nd::reach(1);
}
fn too_many() {
    let n = [255, 256][nd::below(2)];
    let mut o = new(A::X86_64, false);
    for _ in 0..n { o.add_section(b"__DATA".to_vec(), b"s".to_vec(), S::Data); }
    let r = o.write();
    nd::ck(r.is_ok() == (n == 255));
    if let Ok(d) = r { nd::ck_eq(nd::must(F64::parse(&*d)).sections().count() as u64, 255); nd::reach(1); } else { nd::reach(2); }
}

harnesses! {
    /// executable, data and thread-local kinds, 0-5 bytes, four alignments, both classes and byte orders
    /// @reach 1
    fn c16_macho_sections() { sections(nd::below(8)); }
    /// the other kinds
    /// @reach 1
    fn c16_macho_sections2() { sections(nd::range(8, 14)); }
    /// every architecture, arbitrary subtype, flags and build version
    /// @reach 1,2
    fn c16_macho_header() { header(); }
    /// arbitrary section and symbol flags
    /// @reach 1
    fn c16_macho_flags() { flags(); }
    /// three symbols, the first of any section, scope and weakness
    /// @reach 1,2
    fn c16_macho_symbols_0() { symbols(0); }
    /// the second of any section
    /// @reach 1,2
    fn c16_macho_symbols_1() { symbols(1); }
    /// the last of any section
    /// @reach 1,2
    fn c16_macho_symbols_2() { symbols(2); }
    /// relocations by meaning, 32-bit machines and PowerPC
    /// @reach 1,2,3
    fn c16_macho_reloc_kind() { reloc_kind(nd::below(4)); }
    /// x86-64
    /// @reach 1,2,3
    fn c16_macho_reloc_x64() { reloc_kind(4); }
    /// 64-bit ARM
    /// @reach 1,2,3,4
    fn c16_macho_reloc_arm64() { reloc_kind(5 + nd::flag() as usize); }
    /// relocations by type
    /// @reach 1,2,3
    fn c16_macho_reloc_type() { reloc_type(); }
    /// differences of symbols
    /// @reach 1,2
    fn c16_macho_subtract() { subtract(); }
    /// up to three relocations in two sections in four orders
    /// @reach 1,2
    fn c16_macho_many() { many(); }
    /// one or two thread-local variables
    /// @reach 1
    fn c16_macho_tls() { tls(); }
    /// standard sections and subsections
    /// @reach 1
    fn c16_macho_standard() { standard(); }
    /// names, kinds and relocations that cannot be expressed
    /// @reach 1
    fn c16_macho_errors() { errors(); }
    /// 255 and 256 sections
    /// @reach 1,2
    fn c16_macho_too_many() { too_many(); }
}
