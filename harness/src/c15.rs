//! COFF objects written by `write::Object` and read back.
use crate::{harnesses, img, nd};
use object::pe;
use object::read::coff::CoffFile;
use object::read::{Object as _, ObjectComdat as _, ObjectSection as _, ObjectSymbol as _, RelocationTarget};
use object::write::coff::CoffExportStyle;
use object::write::{Comdat, Object, Relocation, StandardSection, Symbol, SymbolSection};
use object::{Architecture as A, BinaryFormat, ComdatKind, Endianness, FileFlags, RelocationEncoding as N, RelocationFlags, RelocationKind as K, SectionFlags, SectionIndex, SectionKind as S, SubArchitecture, SymbolFlags, SymbolIndex, SymbolKind, SymbolScope};

type F<'a> = CoffFile<'a>;
fn get(b: &[u8], off: usize, n: usize) -> u64 { img::get(b, off, n, false) }
fn new<'a>(a: A) -> Object<'a> { Object::new(BinaryFormat::Coff, a, Endianness::Little) }
fn sym(name: &[u8], kind: SymbolKind, scope: SymbolScope, section: SymbolSection) -> Symbol {
    Symbol { name: name.to_vec(), value: 0, size: 0, kind, scope, weak: false, section, flags: SymbolFlags::None }
}
const SECTIONS: &[(S, u64)] = &[
    (S::Text, 0x6000_0020), (S::Data, 0xc000_0040), (S::ReadOnlyData, 0x4000_0040), (S::ReadOnlyDataWithRel, 0x4000_0040), (S::ReadOnlyString, 0x4000_0040), (S::UninitializedData, 0xc000_0080),
    (S::Debug, 0x4200_0040), (S::DebugString, 0x4200_0040), (S::Other, 0x4200_0040), (S::OtherString, 0x4200_0040), (S::Linker, 0xa00),
];
fn ck_section(f: &F<'_>, d: &[u8], i: usize, name: &[u8], chars: u64, align: u64, size: u64, data: Option<&[u8]>) {
    let s = nd::must(f.section_by_index(SectionIndex(i)));
    let SectionFlags::Coff { characteristics } = s.flags() else { nd::ck(false); return };
    nd::ck_eq(characteristics.0 as u64 & 0xff0f_ffff, chars & 0xff0f_ffff);
    nd::ck_bytes(nd::must(s.name_bytes()), name);
    nd::ck_eq(s.align(), align);
    nd::ck_eq(s.size(), size);
    nd::ck_eq(s.address(), 0);
    if let Some(data) = data {
        let r = nd::must(s.data());
        nd::ck_bytes(r, data);
        if !data.is_empty() { nd::ck((r.as_ptr() as usize - d.as_ptr() as usize) % 4 == 0); }
    } else { nd::ck(nd::must(s.data()).is_empty()); }
}
/// one section of any kind between two fixed ones
fn sections() {
    let m = nd::below(4);
    let mut o = new([A::I386, A::X86_64, A::Arm, A::Aarch64][m]);
    let ec = m == 3 && nd::flag();
    if ec { o.set_sub_architecture(Some(SubArchitecture::Arm64EC)); }
    let k = nd::below(SECTIONS.len());
    let (kind, chars) = SECTIONS[k];
    let shift = [0, 1, 2, 4, 12, 13][nd::below(6)];
    let align = 1u64 << shift;
    let b: [u8; 5] = nd::bytes();
    let n = nd::below(6);
    let fl = nd::u16();
    o.flags = FileFlags::Coff { characteristics: pe::FileFlags(fl) };
    let t = o.add_section(Vec::new(), b".a".to_vec(), S::Text);
    o.set_section_data(t, &b[..3], 1);
    let names: [&[u8]; 3] = [b".eight88", b".longer name", b".t"];
    let j = nd::below(3);
    let s = o.add_section(Vec::new(), names[j].to_vec(), kind);
    let mut size = n as u64;
    if kind == S::UninitializedData { size = nd::u32() as u64; nd::ck_eq(o.append_section_bss(s, size, align), 0); }
    else { nd::ck_eq(o.append_section_data(s, &b[..n], align), 0); }
    let z = o.add_section(Vec::new(), b".another long name".to_vec(), S::Data);
    o.append_section_data(z, &b[1..5], 8);
    let d = nd::must(o.write());
    let f = nd::must(F::parse(&*d));
    nd::ck(f.architecture() == o.architecture() && f.sub_architecture() == o.sub_architecture());
    let FileFlags::Coff { characteristics } = f.flags() else { nd::ck(false); return };
    nd::ck_eq(characteristics.0 as u64, fl as u64);
    nd::ck_eq(f.sections().count() as u64, 3);
    ck_section(&f, &d, 1, b".a", 0x6000_0020, 1, 3, Some(&b[..3]));
    ck_section(&f, &d, 2, names[j], chars, align, size, if kind == S::UninitializedData { None } else { Some(&b[..n]) });
    ck_section(&f, &d, 3, b".another long name", 0xc000_0040, 8, 4, Some(&b[1..5]));
    let q = nd::must(f.section_by_index(SectionIndex(2))).kind();
    nd::ck(match kind {
        S::ReadOnlyDataWithRel | S::ReadOnlyString => q == S::ReadOnlyData,
        S::Debug | S::DebugString | S::OtherString => q == S::Other,
        k => q == k,
    });
    nd::reach(1);
}
fn flags() {
    let mut o = new(A::X86_64);
    let s = o.add_section(Vec::new(), b".a".to_vec(), S::Data);
    let c = nd::u32();
    o.section_mut(s).flags = SectionFlags::Coff { characteristics: pe::SectionFlags(c) };
    let align = 1 << nd::range(0, 14);
    let b: [u8; 2] = nd::bytes();
    o.set_section_data(s, &b[..], align);
    let mut y = sym(b"y", SymbolKind::Data, SymbolScope::Linkage, SymbolSection::Section(s));
    let (t, cl) = (nd::u16(), nd::u8());
    y.flags = SymbolFlags::Coff { typ: pe::SymbolType(t), storage_class: pe::SymbolClass(cl) };
    o.add_symbol(y);
    let r = o.write();
    nd::ck(r.is_ok() == (align <= 8192));
    let Ok(d) = r else { nd::reach(1); return };
    let f = nd::must(F::parse(&*d));
    let want = c & !(15 << 20);
    let h = nd::must(f.section_by_index(object::SectionIndex(1)));
    let SectionFlags::Coff { characteristics } = h.flags() else { nd::ck(false); return };
    nd::ck_eq((characteristics.0 & !(15 << 20)) as u64, want as u64);
    nd::ck_eq(h.align(), align);
    let y = nd::must(f.symbol_by_index(SymbolIndex(0)));
    let SymbolFlags::Coff { typ, storage_class } = y.flags() else { nd::ck(false); return };
    nd::ck(typ.0 == t && storage_class.0 == cl);
    nd::reach(2);
}

struct Y { name: &'static [u8], kind: SymbolKind, scope: SymbolScope, weak: bool, sect: usize, value: u64, size: u64 }
const NAMES: [&[u8]; 3] = [b"eightchr", b"a longer name", b"x"];
/// symbols of any kind, scope, weakness and section; indices account for auxiliary records
fn symbols(which: usize) {
    let i386 = nd::flag();
    let mut o = new(if i386 { A::I386 } else { A::X86_64 });
    let s = o.add_section(Vec::new(), b".s".to_vec(), S::Data);
    let b: [u8; 2] = nd::bytes();
    o.append_section_data(s, &b, 4);
    let t = o.add_section(Vec::new(), b".t".to_vec(), S::Text);
    let mut ys: Vec<Y> = Vec::new();
    if which == 2 {
        let k = nd::below(3);
        let name: &'static [u8] = [&b"f.c"[..], b"eighteen charactr.", b"a name of more than 18"][k];
        o.add_file_symbol(name.to_vec());
        ys.push(Y { name, kind: SymbolKind::File, scope: SymbolScope::Compilation, weak: false, sect: 9, value: 0, size: 0 });
        o.section_symbol(s);
        ys.push(Y { name: b".s", kind: SymbolKind::Section, scope: SymbolScope::Compilation, weak: false, sect: 3, value: 0, size: 2 });
    }
    let kinds = [SymbolKind::Text, SymbolKind::Data, SymbolKind::Label];
    for i in 0..3 {
        let kind = if i == which { kinds[nd::below(3)] } else { kinds[i % 2] };
        let scope = [SymbolScope::Compilation, SymbolScope::Linkage, SymbolScope::Dynamic][if i == which { nd::below(3) } else { i }];
        let weak = i == which && nd::flag();
        let sect = if i == which { nd::below(5) } else { 3 + i % 2 };
        if sect == 0 { nd::assume(scope != SymbolScope::Compilation); }
        if kind == SymbolKind::Label { nd::assume(sect >= 3 && !weak); }
        let (value, size) = (nd::u32() as u64, nd::u32() as u64);
        if sect == 0 { nd::assume(value == 0); }
        if sect == 2 { nd::assume(size != 0); }
        let mut y = sym(NAMES[i], kind, scope, [SymbolSection::Undefined, SymbolSection::Absolute, SymbolSection::Common, SymbolSection::Section(s), SymbolSection::Section(t)][sect]);
        y.value = value;
        y.size = size;
        y.weak = weak;
        o.add_symbol(y);
        ys.push(Y { name: NAMES[i], kind, scope, weak, sect, value, size });
    }
    let r = o.write();
    let bad = ys.iter().any(|y| y.weak && (y.sect == 1 || y.sect == 2));
    nd::ck(r.is_ok() == !bad);
    let Ok(d) = r else { nd::reach(2); return };
    let f = nd::must(F::parse(&*d));
    let (st, n) = (get(&d, 8, 4) as usize, get(&d, 12, 4) as usize);
    let mut at = 0;
    for y in &ys {
        let mut under = Vec::new();
        if i386 && matches!(y.kind, SymbolKind::Text | SymbolKind::Data) { under.push(b'_'); }
        under.extend_from_slice(y.name);
        if y.weak {
            // the definition goes to an external symbol with a derived name
            let r = nd::must(f.symbol_by_index(SymbolIndex(at)));
            let name = nd::must(r.name_bytes());
            nd::ck(name.len() >= 6 + under.len() && img::eq(&name[..6], b".weak.") && img::eq(&name[6..6 + under.len()], &under));
            nd::ck(r.is_global() && r.section_index() == if y.sect < 3 { None } else { Some(SectionIndex(y.sect - 2)) });
            nd::ck_eq(get(&d, st + 18 * at + 8, 4), y.value);
            if y.sect == 0 { nd::ck_eq(get(&d, st + 18 * at + 12, 2), 0xffff); }
            at += 1;
        }
        let h = st + 18 * at;
        let r = nd::must(f.symbol_by_index(SymbolIndex(at)));
        nd::ck_bytes(nd::must(r.name_bytes()), &under);
        nd::ck(r.kind() == y.kind);
        let class = get(&d, h + 16, 1);
        let sect = get(&d, h + 12, 2);
        nd::ck(r.is_weak() == y.weak);
        let global = y.sect == 0 || y.sect == 2 || y.scope != SymbolScope::Compilation;
        if y.weak {
            nd::ck(class == 0x69 && sect == 0 && get(&d, h + 8, 4) == 0 && get(&d, h + 17, 1) == 1);
            nd::ck_eq(get(&d, h + 18, 4), at as u64 - 1);
            nd::ck_eq(get(&d, h + 22, 4), 3);
            nd::reach(3);
        } else if y.kind == SymbolKind::File || y.kind == SymbolKind::Label {
            nd::ck_eq(sect, if y.sect == 9 { 0xfffe } else { y.sect as u64 - 2 });
        } else if y.sect == 2 {
            nd::ck(r.is_common());
            nd::ck_eq(r.size(), y.size);
        } else {
            nd::ck_eq(get(&d, h + 8, 4), y.value);
            nd::ck_eq(sect, [0, 0xffff, 0, 1, 2][y.sect]);
            nd::ck(r.is_global() == global && r.is_undefined() == (y.sect == 0));
        }
        if y.kind == SymbolKind::Section {
            nd::ck_eq(get(&d, h + 18, 4), y.size);
            // checksum: reflected CRC-32 from zero
            let mut c = 0u32;
            for x in b { c ^= x as u32; for _ in 0..8 { c = (c >> 1) ^ (0xedb8_8320 & (0u32.wrapping_sub(c & 1))); } }
            nd::ck_eq(get(&d, h + 26, 4), c as u64);
            nd::reach(4);
        }
        at += 1 + get(&d, h + 17, 1) as usize;
    }
    nd::ck_eq(at as u64, n as u64);
    nd::reach(1);
}

fn comdat() {
    let mut o = new(A::X86_64);
    let s = o.add_section(Vec::new(), b".s".to_vec(), S::Data);
    let t = o.add_section(Vec::new(), b".t".to_vec(), S::Text);
    let u = o.add_section(Vec::new(), b".u".to_vec(), S::Text);
    o.append_section_data(s, &[1, 2, 3], 1);
    let missing = nd::flag();
    for x in [t, s] { o.section_symbol(x); }
    if !missing { o.section_symbol(u); }
    let a = o.add_symbol(sym(b"key", SymbolKind::Data, SymbolScope::Dynamic, SymbolSection::Section(s)));
    let b = o.add_symbol(sym(b"other", SymbolKind::Text, SymbolScope::Compilation, SymbolSection::Section(t)));
    let kinds = [ComdatKind::NoDuplicates, ComdatKind::Any, ComdatKind::SameSize, ComdatKind::ExactMatch, ComdatKind::Largest, ComdatKind::Newest, ComdatKind::Unknown];
    let k = nd::below(7);
    let w = nd::below(4);
    let list = [vec![s], vec![s, t], vec![u, s], vec![t, s, u]];
    o.add_comdat(Comdat { kind: kinds[k], symbol: a, sections: list[w].clone() });
    let two = w == 0 && nd::flag();
    if two { o.add_comdat(Comdat { kind: ComdatKind::Any, symbol: b, sections: vec![t] }); }
    let r = o.write();
    nd::ck(r.is_ok() == (k != 6 && !(missing && w >= 2)));
    let Ok(d) = r else { nd::reach(1); return };
    let f = nd::must(F::parse(&*d));
    let (mut first, mut second) = (0, 0);
    for c in f.comdats() {
        let name = nd::must(c.name_bytes());
        let mut m = [false; 4];
        for x in c.sections() { m[x.0] = true; }
        if img::eq(name, b"key") {
            first += 1;
            nd::ck(c.kind() == kinds[k]);
            nd::ck(m == [[false, true, false, false], [false, true, true, false], [false, true, false, true], [false, true, true, true]][w]);
        } else {
            second += 1;
            nd::ck_bytes(name, b"other");
            nd::ck(c.kind() == ComdatKind::Any && m == [false, false, true, false]);
        }
    }
    nd::ck(first == 1 && second == two as usize);
    for (i, x) in [(1, true), (2, w == 1 || w == 3 || two), (3, w >= 2)] {
        let SectionFlags::Coff { characteristics } = nd::must(f.section_by_index(SectionIndex(i))).flags() else { nd::ck(false); return };
        nd::ck((characteristics.0 & 0x1000 != 0) == x);
    }
    // a COMDAT symbol must be in a section
    let mut o = new(A::X86_64);
    let a = o.add_symbol(sym(b"key", SymbolKind::Data, SymbolScope::Dynamic, SymbolSection::Undefined));
    o.add_comdat(Comdat { kind: ComdatKind::Any, symbol: a, sections: Vec::new() });
    nd::ck(o.write().is_err());
    nd::reach(2);
}

const ARCHS: [(A, u64); 4] = [(A::I386, 0x14c), (A::X86_64, 0x8664), (A::Arm, 0x1c4), (A::Aarch64, 0xaa64)];
/// relocations given by type or meaning; the addend is in the data, less what the type implies
fn relocs(m: usize, generic: bool) {
    use K::*;
    // (kind, size, type, implied)
    const T: [&[(K, u8, u64, i64)]; 4] = [
        &[(Absolute, 16, 1, 0), (Relative, 16, 2, 0), (Absolute, 32, 6, 0), (ImageOffset, 32, 7, 0), (SectionIndex, 16, 10, 0), (SectionOffset, 32, 11, 0), (SectionOffset, 7, 13, 0), (Relative, 32, 20, 4), (PltRelative, 32, 20, 4), (Got, 32, 0, 0), (Absolute, 64, 0, 0)],
        &[(Absolute, 64, 1, 0), (Absolute, 32, 2, 0), (ImageOffset, 32, 3, 0), (Relative, 32, 4, 4), (PltRelative, 32, 4, 4), (SectionIndex, 16, 10, 0), (SectionOffset, 32, 11, 0), (SectionOffset, 7, 12, 0), (Relative, 32, 5, 5), (Relative, 32, 6, 6), (Relative, 32, 7, 7), (Relative, 32, 8, 8), (Relative, 32, 9, 9), (Relative, 64, 0, 0), (Unknown, 32, 0, 0)],
        &[(Absolute, 32, 1, 0), (ImageOffset, 32, 2, 0), (Relative, 32, 10, 4), (SectionIndex, 16, 14, 0), (SectionOffset, 32, 15, 0), (Absolute, 64, 0, 0)],
        &[(Absolute, 32, 1, 0), (ImageOffset, 32, 2, 0), (SectionIndex, 16, 13, 0), (SectionOffset, 32, 8, 0), (Absolute, 64, 14, 0), (Relative, 32, 17, 4), (PltRelative, 32, 17, 4), (Relative, 26, 3, 0), (GotBaseOffset, 32, 0, 0)],
    ];
    let (a, _) = ARCHS[m];
    let i = nd::below(T[m].len());
    let (kind, size, ty, implied) = T[m][i];
    let mut o = new(a);
    let s = o.add_section(Vec::new(), b".s".to_vec(), S::Data);
    let b: [u8; 10] = nd::bytes();
    o.append_section_data(s, &b, 1);
    let t = o.add_section(Vec::new(), b".t".to_vec(), S::Text);
    o.section_symbol(t);
    let g = o.add_symbol(sym(b"g", SymbolKind::Data, SymbolScope::Dynamic, SymbolSection::Undefined));
    let off = img::pick(&[0, 1, 2, 6, 7, 8, 0xffff_fffe]);
    let x = nd::u64() as i64;
    nd::assume(x < i64::MAX - 16);
    let add = match nd::below(3) { 0 => -implied, 1 => { nd::assume(x != -implied); x } _ => img::sext(x as u64, 32) as i64 };
    let adds = nd::conc((add >= -9 && add <= -4) as u64) == 1;
    let add = if adds { nd::conc(add as u64) as i64 } else { add };
    // x86-64 has types for the common distances to the end of the instruction
    if generic && m == 1 && kind == Relative && size == 32 && ty > 4 { nd::assume(add == -implied); }
    let (mut ty, mut implied) = (ty, implied);
    if generic && m == 1 && size == 32 && ty == 4 && (-9..=-5).contains(&add) { implied = -add; ty = implied as u64; }
    let known = ty != 0;
    if !generic { nd::assume(known); }
    let enc = if size == 26 { N::AArch64Call } else { N::Generic };
    let flags = if generic { RelocationFlags::Generic { kind, encoding: enc, size } } else { RelocationFlags::Coff { typ: pe::RelocationType(ty as u16) } };
    let r = o.add_relocation(s, Relocation { offset: off, symbol: g, addend: add, flags });
    let stored = add.wrapping_add(implied);
    let z = size as u64 / 8;
    let can = stored == 0 || (size == 32 || size == 64) && off + z <= 10;
    nd::ck(r.is_ok() == (known && can));
    if r.is_err() { nd::reach(2); return; }
    let mut want = b;
    if stored != 0 { img::put(&mut want, off as usize, z as usize, stored as u64, false); nd::reach(3); }
    let d = nd::must(o.write());
    let f = nd::must(F::parse(&*d));
    let s = nd::must(f.section_by_index(object::SectionIndex(1)));
    nd::ck_bytes(nd::must(s.data()), &want);
    let mut it = s.relocations();
    let (p, r) = nd::some(it.next());
    nd::ck(it.next().is_none());
    nd::ck_eq(p, off);
    let RelocationFlags::Coff { typ } = r.flags() else { nd::ck(false); return };
    nd::ck_eq(typ.0 as u64, ty);
    // after the section symbol and its auxiliary record
    nd::ck(r.target() == RelocationTarget::Symbol(SymbolIndex(2)));
    nd::ck_eq(r.addend() as u64, (-implied) as u64);
    nd::ck(r.kind() == if kind == PltRelative { Relative } else { kind });
    nd::ck_eq(r.size() as u64, size as u64);
    nd::reach(1);
}
/// GOT-relative references go through a pointer in a stub section
fn stub() {
    let x64 = nd::flag();
    let mut o = new(if x64 { A::X86_64 } else { A::I386 });
    let s = o.add_section(Vec::new(), b".s".to_vec(), S::Data);
    o.append_section_data(s, &[0; 12], 1);
    let g = o.add_symbol(sym(b"g", SymbolKind::Data, SymbolScope::Dynamic, SymbolSection::Undefined));
    let k = nd::range(1, 2);
    for i in 0..k {
        nd::must(o.add_relocation(s, Relocation { offset: 4 * i as u64, symbol: g, addend: -4, flags: RelocationFlags::Generic { kind: K::GotRelative, encoding: N::Generic, size: 32 } }));
    }
    let d = nd::must(o.write());
    let f = nd::must(F::parse(&*d));
    nd::ck_eq(f.sections().count() as u64, 2);
    let s = nd::must(f.section_by_index(object::SectionIndex(1)));
    let t = nd::must(f.section_by_index(SectionIndex(2)));
    nd::ck_bytes(nd::must(t.data()), if x64 { &[0; 8] } else { &[0; 4] });
    nd::ck_eq(s.relocations().count() as u64, k as u64);
    for (_, r) in s.relocations() {
        nd::ck(r.kind() == K::Relative && r.target() == RelocationTarget::Symbol(SymbolIndex(1)));
        let y = nd::must(f.symbol_by_index(SymbolIndex(1)));
        nd::ck(y.section_index() == Some(SectionIndex(2)) && y.is_local());
        nd::ck_bytes(nd::must(y.name_bytes()), if x64 { b".refptr.g" } else { b".refptr._g" });
    }
    let (p, r) = nd::some(t.relocations().next());
    nd::ck(p == 0 && r.kind() == K::Absolute && r.size() == if x64 { 64 } else { 32 } && r.target() == RelocationTarget::Symbol(SymbolIndex(0)));
    nd::reach(1);
}
/// standard sections, subsections and export directives
fn standard() {
    let mut o = new(A::X86_64);
    use StandardSection as Z;
    let all = [Z::Text, Z::Data, Z::ReadOnlyData, Z::ReadOnlyDataWithRel, Z::ReadOnlyString, Z::UninitializedData, Z::Tls, Z::EhFrame];
    let names: [&[u8]; 8] = [b".text", b".data", b".rdata", b".rdata", b".rdata", b".bss", b".tls$", b".eh_frame"];
    let k = [0, 1, 2, 2, 2, 5, 1, 2];
    let i = nd::below(8);
    let a = o.section_id(all[i]);
    nd::ck(o.section_id(all[i]) == a);
    let b = o.add_subsection(all[i], b"foo");
    nd::ck(a != b);
    let j = nd::below(4);
    let scope = if j == 3 { SymbolScope::Linkage } else { SymbolScope::Dynamic };
    let text = j == 1;
    o.add_symbol(sym(b"e", if text { SymbolKind::Text } else { SymbolKind::Data }, scope, SymbolSection::Section(a)));
    let gnu = nd::flag();
    o.add_coff_exports(if gnu { CoffExportStyle::Gnu } else { CoffExportStyle::Msvc });
    let d = nd::must(o.write());
    let f = nd::must(F::parse(&*d));
    let bss = i == 5;
    ck_section(&f, &d, 1, names[i], SECTIONS[k[i]].1, 1, 0, if bss { None } else { Some(&[]) });
    let mut full = names[i].to_vec();
    full.extend_from_slice(b"$foo");
    ck_section(&f, &d, 2, &full, SECTIONS[k[i]].1, 1, 0, if bss { None } else { Some(&[]) });
    let want: &[u8] = match (j == 3, gnu, text) {
        (true, ..) => b"",
        (_, true, true) => b" -export:\"e\"",
        (_, true, _) => b" -export:\"e\",data",
        (_, false, true) => b" /EXPORT:\"e\"",
        (_, false, _) => b" /EXPORT:\"e\",DATA",
    };
    let c = nd::must(f.section_by_index(SectionIndex(3)));
    nd::ck_bytes(nd::must(c.name_bytes()), b".drectve");
    nd::ck_bytes(nd::must(c.data()), want);
    nd::ck(c.kind() == S::Linker);
    nd::reach(1);
}

/// as many relocations as fit in the section header, and more
fn many_relocs() {
    let n = [0xffff, 0x10000][nd::below(2)];
    let mut o = new(A::X86_64);
    let t = o.section_id(StandardSection::Text);
    let v: [u8; 8] = nd::bytes();
    o.append_section_data(t, &v, 4);
    let y = o.add_symbol(sym(b"u", SymbolKind::Text, SymbolScope::Unknown, SymbolSection::Undefined));
    let mut i = 0;
    while i < n {
        nd::must(o.add_relocation(t, Relocation { offset: 4, symbol: y, addend: 0, flags: RelocationFlags::Generic { kind: K::ImageOffset, encoding: N::Generic, size: 32 } }));
        i += 1;
    }
    let d = nd::must(o.write());
    // the only section header follows the file header
    let (at, count, flags) = (get(&d, 20 + 24, 4) as usize, get(&d, 20 + 32, 2), get(&d, 20 + 36, 4));
    let over = n > 0xffff;
    nd::ck((flags & 0x0100_0000 != 0) == over);
    nd::ck_eq(count, if over { 0xffff } else { n as u64 });
    if over {
        nd::ck_eq(get(&d, at, 4), n as u64 + 1);
        nd::reach(1);
    }
    let at = at + if over { 10 } else { 0 };
    for i in [0, n - 1] {
        nd::ck_eq(get(&d, at + 10 * i, 4), 4);
        nd::ck_eq(get(&d, at + 10 * i + 8, 2), 3);
    }
    nd::ck_eq(get(&d, 8, 4), (at + 10 * n) as u64);
}

/// as many sections as a symbol can be in, and one more
fn many_sections() {
    let n = [0xfeff, 0xff00][nd::below(2)];
    let mut o = new(A::X86_64);
    let mut last = o.add_section(vec![], b"a".to_vec(), S::Data);
    let mut i = 1;
    while i < n { last = o.add_section(vec![], b"a".to_vec(), S::Data); i += 1; }
    let mut y = sym(b"y", SymbolKind::Data, SymbolScope::Linkage, SymbolSection::Section(last));
    y.value = nd::u16() as u64;
    let value = y.value;
    o.add_symbol(y);
    let r = o.write();
    core::mem::forget(o);
    nd::ck(r.is_ok() == (n == 0xfeff));
    let Ok(d) = r else { nd::reach(2); return };
    nd::ck_eq(get(&d, 2, 2), n as u64);
    let at = get(&d, 8, 4) as usize;
    nd::ck(get(&d, 12, 4) == 1 && d[at] == b'y' && d[at + 1] == 0);
    nd::ck(get(&d, at + 8, 4) == value && get(&d, at + 12, 2) == n as u64);
    nd::reach(1);
}

/// the storage class of a symbol of any kind, scope and section, or that it has none
fn classes() {
    let i386 = nd::flag();
    let mut o = new(if i386 { A::I386 } else { A::X86_64 });
    let s = o.add_section(Vec::new(), b".s".to_vec(), S::Data);
    let kind = [SymbolKind::Text, SymbolKind::Data, SymbolKind::Tls, SymbolKind::Label, SymbolKind::Unknown][nd::below(5)];
    let scope = [SymbolScope::Unknown, SymbolScope::Compilation, SymbolScope::Linkage, SymbolScope::Dynamic][nd::below(4)];
    let sect = nd::below(if kind == SymbolKind::Label { 4 } else { 5 });
    let mut y = sym(b"y", kind, scope, [SymbolSection::Undefined, SymbolSection::Absolute, SymbolSection::Common, SymbolSection::Section(s), SymbolSection::None][sect]);
    y.value = nd::u32() as u64;
    y.size = nd::u32() as u64;
    let (value, size) = (y.value, y.size);
    nd::assume(sect != 2 || size != 0);
    // what is defined must have a scope
    nd::assume(sect == 0 || scope != SymbolScope::Unknown);
    o.add_symbol(y);
    let want = match (kind, sect) {
        (SymbolKind::Label, _) => 6,
        (SymbolKind::Unknown, 0) => 2,
        (SymbolKind::Unknown, _) | (_, 4) => 0,
        (_, 0 | 2) => 2,
        _ => [0, 3, 2, 2][scope as usize],
    };
    let r = o.write();
    nd::ck(r.is_ok() == (want != 0));
    let Ok(d) = r else { nd::reach(2); return };
    let at = get(&d, 8, 4) as usize;
    let under = i386 && matches!(kind, SymbolKind::Text | SymbolKind::Data | SymbolKind::Tls);
    nd::ck(d[at..at + 3] == if under { *b"_y\0" } else { *b"y\0\0" });
    nd::ck_eq(get(&d, at + 16, 1), want);
    nd::ck_eq(get(&d, at + 14, 2), if kind == SymbolKind::Text { 0x20 } else { 0 });
    nd::ck_eq(get(&d, at + 12, 2), [0, 0xffff, 0, 1][sect]);
    nd::ck_eq(get(&d, at + 8, 4), if sect == 2 { size } else { value });
    nd::reach(1);
}

harnesses! {
    /// one section of each kind, 0-5 bytes, six alignments, short and long names
    /// @reach 1
    fn c15_coff_sections() { sections(); }
    /// arbitrary section and symbol flags
    /// @reach 1,2
    fn c15_coff_flags() { flags(); }
    /// three symbols, the first of any kind
    /// @reach 1,2,3
    fn c15_coff_symbols_0() { symbols(0); }
    /// the second of any kind
    /// @reach 1,2,3
    fn c15_coff_symbols_1() { symbols(1); }
    /// file and section symbols, the last of any kind
    /// @reach 1,2,3,4
    fn c15_coff_symbols_2() { symbols(2); }
    /// COMDAT sections and associates
    /// @reach 1,2
    fn c15_coff_comdat() { comdat(); }
    /// relocations by type, arbitrary addend and data
    /// @reach 1,2,3
    fn c15_coff_reloc_type() { relocs(nd::below(4), false); }
    /// relocations by meaning, 32-bit machines
    /// @reach 1,2,3
    fn c15_coff_reloc_kind() { relocs([0, 2][nd::below(2)], true); }
    /// relocations by meaning, 64-bit machines
    /// @reach 1,2,3
    fn c15_coff_reloc_kind64() { relocs([1, 3][nd::below(2)], true); }
    /// references through stubs
    /// @reach 1
    fn c15_coff_stub() { stub(); }
    /// 65535 or 65536 relocations of one section
    /// @reach 1
    /// @args --path-instrs 1000000000
    fn c15_coff_many_relocs() { many_relocs(); }
    /// 65279 and 65280 sections
    /// @reach 1,2
    /// @timeout 200
    /// @args --path-instrs 2000000000
    fn c15_coff_many_sections() { many_sections(); }
    /// a symbol of 5 kinds, 4 scopes and 5 sections
    /// @reach 1,2
    fn c15_coff_symbol_classes() { classes(); }
    /// standard sections and exports
    /// @reach 1
    fn c15_coff_standard() { standard(); }
}
