//! XCOFF objects written by `write::Object` and read back.
use crate::{harnesses, img, nd};
use object::read::xcoff::{FileHeader, XcoffFile};
use object::read::{Object as _, ObjectSection as _, ObjectSymbol as _, RelocationTarget};
use object::write::{Object, Relocation, Symbol, SymbolId, SymbolSection};
use object::{xcoff, Architecture as A, BinaryFormat, Endianness, FileFlags, RelocationEncoding as N, RelocationFlags, RelocationKind as K, SectionFlags, SectionIndex, SectionKind as S, SymbolFlags, SymbolIndex, SymbolKind, SymbolScope};

fn new<'a>(is64: bool) -> Object<'a> { Object::new(BinaryFormat::Xcoff, if is64 { A::PowerPc64 } else { A::PowerPc }, Endianness::Big) }
fn get(b: &[u8], off: usize, n: usize) -> u64 { img::get(b, off, n, true) }
fn up(n: u64, a: u64) -> u64 { (n + a - 1) & !(a - 1) }
macro_rules! by_class {
    ($is64:expr, $f:ident($($a:expr),*)) => { if $is64 { $f::<xcoff::FileHeader64>($($a),*) } else { $f::<xcoff::FileHeader32>($($a),*) } };
}
fn sym(name: &[u8], kind: SymbolKind, scope: SymbolScope, section: SymbolSection) -> Symbol {
    Symbol { name: name.to_vec(), value: 0, size: 0, kind, scope, weak: false, section, flags: SymbolFlags::None }
}
const NO: u64 = u64::MAX;
const KINDS: &[(S, u64)] = &[
    (S::Text, 0x20), (S::Data, 0x40), (S::UninitializedData, 0x80), (S::Tls, 0x400), (S::UninitializedTls, 0x800), (S::ReadOnlyData, 0x20), (S::ReadOnlyString, 0x20), (S::ReadOnlyDataWithRel, 0x20),
    (S::OtherString, 0x200), (S::Debug, 0x2000), (S::DebugString, 0x2000), (S::Other, 0), (S::Metadata, 0),
    (S::Note, NO), (S::Linker, NO), (S::Unknown, NO), (S::TlsVariables, NO),
];
/// one section of any kind between two fixed ones
fn sections<T: FileHeader>(is64: bool) {
    let mut o = new(is64);
    let fl = nd::u16();
    o.flags = FileFlags::Xcoff { f_flags: xcoff::FileFlags(fl & !2) };
    let (kind, flags) = KINDS[nd::below(KINDS.len())];
    let bss = matches!(kind, S::UninitializedData | S::UninitializedTls);
    let b: [u8; 5] = nd::bytes();
    let n = nd::below(6);
    let t = o.add_section(Vec::new(), b".a".to_vec(), S::Text);
    o.set_section_data(t, &b[..3], 1);
    let names: [&[u8]; 4] = [b"", b".m", b".eight88", b".ninechar"];
    let name = names[nd::below(4)];
    let m = o.add_section(Vec::new(), name.to_vec(), kind);
    let mut size = n as u64;
    if bss { size = nd::u16() as u64; nd::ck_eq(o.append_section_bss(m, size, 1), 0); }
    else { nd::ck_eq(o.append_section_data(m, &b[..n], 1), 0); }
    let z = o.add_section(Vec::new(), b".z".to_vec(), S::Data);
    o.append_section_data(z, &b[1..5], 4);
    let fixed = nd::flag();
    let raw = nd::u32();
    if fixed && !bss { o.section_mut(m).flags = SectionFlags::Xcoff { s_flags: xcoff::SectionFlags(raw) }; nd::assume(raw & 0x880 == 0); }
    let custom = fixed && !bss;
    let r = o.write();
    nd::ck(r.is_ok() == (name.len() <= 8 && (flags != NO || custom)));
    let Ok(d) = r else { nd::reach(2); return };
    let f = nd::must(XcoffFile::<T>::parse(&*d));
    nd::ck(f.architecture() == o.architecture() && f.is_64() == is64);
    let FileFlags::Xcoff { f_flags } = f.flags() else { nd::ck(false); return };
    nd::ck_eq(f_flags.0 as u64, (fl & !2) as u64);
    nd::ck_eq(f.sections().count() as u64, 3);
    let mapped = matches!(kind, S::Text | S::Data | S::UninitializedData);
    let want: [(&[u8], u64, u64, u64, &[u8]); 3] = [
        (b".a", 0x20, 0, 3, &b[..3]),
        (name, if custom { raw as u64 } else { flags }, if mapped { 4 } else { 0 }, size, if bss { &[] } else { &b[..n] }),
        (b".z", 0x40, if mapped { up(4 + size, 4) } else { 4 }, 4, &b[1..5]),
    ];
    let (h0, hs) = if is64 { (24, 72) } else { (20, 40) };
    for i in 0..3 {
        let (name, flags, addr, size, data) = want[i];
        let s = nd::must(f.section_by_index(SectionIndex(i + 1)));
        nd::ck_bytes(nd::must(s.name_bytes()), name);
        let SectionFlags::Xcoff { s_flags } = s.flags() else { nd::ck(false); return };
        nd::ck_eq(s_flags.0 as u64, flags);
        nd::ck_eq(s.address(), addr);
        nd::ck_eq(s.size(), size);
        // the virtual address is also the physical one
        let h = h0 + i * hs;
        let w = if is64 { 8 } else { 4 };
        nd::ck_eq(get(&d, h + 8, w), addr);
        nd::ck_eq(get(&d, h + 8 + w, w), addr);
        let r = nd::must(s.data());
        nd::ck_bytes(r, data);
        if !data.is_empty() { nd::ck((r.as_ptr() as usize - d.as_ptr() as usize) % 4 == 0); }
        nd::ck(s.relocations().next().is_none());
    }
    if !custom {
        let q = nd::must(f.section_by_index(SectionIndex(2))).kind();
        nd::ck(q == match kind { S::ReadOnlyData | S::ReadOnlyString | S::ReadOnlyDataWithRel => S::Text, S::DebugString => S::Debug, S::OtherString => S::Other, S::Other | S::Metadata => S::Unknown, k => k });
    }
    nd::reach(1);
}
struct Y { name: &'static [u8], kind: SymbolKind, scope: SymbolScope, weak: bool, sect: usize, value: u64, size: u64 }
/// names, kinds, scopes, sections, values
fn symbols<T: FileHeader>(is64: bool, which: usize) {
    let mut o = new(is64);
    let kinds = [S::Text, S::Data, S::UninitializedData, S::ReadOnlyData, S::Tls, S::UninitializedTls];
    // sections at 0, 4, 8
    let mut ids = Vec::new();
    for (i, &k) in kinds.iter().enumerate() {
        let s = o.add_section(Vec::new(), vec![b'a' + i as u8], k);
        if matches!(k, S::UninitializedData | S::UninitializedTls) { o.append_section_bss(s, 6, 1); } else { o.append_section_data(s, &[1, 2], 1); }
        ids.push(s);
    }
    let addrs = [0, 4, 8, 0, 0, 0];
    let mut ys: Vec<Y> = Vec::new();
    if which == 2 {
        let name: &'static [u8] = [&b"f.c"[..], b"eight.ch", b"a longer.c"][nd::below(3)];
        o.add_file_symbol(name.to_vec());
        ys.push(Y { name, kind: SymbolKind::File, scope: SymbolScope::Compilation, weak: false, sect: 9, value: 0, size: 0 });
    }
    let names: [&'static [u8]; 4] = [b"eightchr", b"a longer name", b"x", b""];
    for i in 0..2 {
        let any = i == which;
        let kind = if any { [SymbolKind::Text, SymbolKind::Data, SymbolKind::Tls, SymbolKind::Unknown, SymbolKind::Label][nd::below(5)] } else { SymbolKind::Data };
        let scope = if any { [SymbolScope::Compilation, SymbolScope::Linkage, SymbolScope::Dynamic][nd::below(3)] } else { SymbolScope::Dynamic };
        let weak = any && nd::flag();
        let sect = if any { nd::below(9) } else { 1 };
        let name = if any { names[nd::below(4)] } else { names[i] };
        let value = if is64 { nd::u64() } else { nd::u32() as u64 };
        let size = if is64 { nd::u64() } else { nd::u32() as u64 };
        if sect < 6 { nd::assume(value < 0x7fff_ffff); }
        if sect == 8 { nd::assume(size != 0); }
        if sect >= 7 { nd::assume(scope != SymbolScope::Compilation); }
        let mut y = sym(name, kind, scope, if sect < 6 { SymbolSection::Section(ids[sect]) } else { [SymbolSection::Absolute, SymbolSection::Undefined, SymbolSection::Common][sect - 6] });
        y.value = value; y.size = size; y.weak = weak;
        o.add_symbol(y);
        ys.push(Y { name, kind, scope, weak, sect, value, size });
    }
    // no storage class for these
    if ys.iter().any(|y| matches!(y.kind, SymbolKind::Unknown | SymbolKind::Label)) { nd::ck(o.write().is_err()); nd::reach(2); return; }
    let d = nd::must(o.write());
    let f = nd::must(XcoffFile::<T>::parse(&*d));
    let mut at = 0;
    let mut it = f.symbols();
    for y in &ys {
        let s = nd::must(f.symbol_by_index(SymbolIndex(at)));
        nd::ck(nd::some(it.next()).index() == SymbolIndex(at));
        nd::ck_bytes(nd::must(s.name_bytes()), y.name);
        let SymbolFlags::Xcoff { n_type, n_sclass, x_smtyp, x_smclas, containing_csect } = s.flags() else { nd::ck(false); return };
        let local = y.scope == SymbolScope::Compilation;
        let class = if y.sect == 9 { 103 } else if local { 3 } else if y.weak { 111 } else { 2 };
        nd::ck_eq(n_sclass.0 as u64, class);
        nd::ck_eq(n_type.0 as u64, if !local && y.scope == SymbolScope::Linkage { 0x2000 } else { 0 });
        nd::ck(containing_csect.is_none());
        nd::ck(s.section_index() == if y.sect < 6 { Some(SectionIndex(y.sect + 1)) } else { None });
        if y.sect == 9 { nd::ck(s.kind() == SymbolKind::File); at += 2; continue; }
        nd::ck_eq(s.address(), y.value + if y.sect < 6 { addrs[y.sect] } else { 0 });
        nd::ck(s.section() == match y.sect { 6 => object::read::SymbolSection::Absolute, 7 | 8 => object::read::SymbolSection::Undefined, i => object::read::SymbolSection::Section(SectionIndex(i + 1)) });
        nd::ck(s.is_global() == !local && s.is_weak() == (!local && y.weak));
        at += 1;
        if !local {
            at += 1;
            let (t, c) = match (y.kind, y.sect) {
                (SymbolKind::Text, _) => (1, 0),
                (SymbolKind::Data, 2) => (3, 9),
                (SymbolKind::Data, 3) => (1, 1),
                (SymbolKind::Data, _) => (1, 5),
                (_, 5) => (3, 21),
                _ => (1, 20),
            };
            nd::ck(x_smtyp.0 == t && x_smclas.0 == c);
            nd::ck_eq(s.size(), y.size);
            nd::ck(s.kind() == y.kind);
            nd::ck(s.scope() == if y.sect >= 7 { SymbolScope::Unknown } else { y.scope });
        }
        nd::reach(1);
    }
    nd::ck(it.next().is_none());
    nd::ck_eq(f.xcoff_symbol_table().len() as u64, at as u64);
}
/// explicit flags, and the index of a containing csect is adjusted for auxiliary entries
fn flags<T: FileHeader>(is64: bool) {
    let mut o = new(is64);
    let s = o.add_section(Vec::new(), b".t".to_vec(), S::Text);
    o.append_section_data(s, &[1, 2], 1);
    o.add_file_symbol(b"f".to_vec());
    let at = |o: &mut Object<'static>, n: &[u8], n_type: u16, n_sclass: u8, t: u8, c: u8, csect: Option<SymbolId>| {
        let mut y = sym(n, SymbolKind::Text, SymbolScope::Dynamic, SymbolSection::Section(s));
        y.size = 77;
        y.flags = SymbolFlags::Xcoff { n_type: xcoff::SymbolType(n_type), n_sclass: xcoff::SymbolClass(n_sclass), x_smtyp: xcoff::CsectAuxSmtyp(t), x_smclas: xcoff::CsectAuxClass(c), containing_csect: csect };
        o.add_symbol(y)
    };
    let c1 = at(&mut o, b"c1", 0, 107, 0x11, 0, None);
    let c2 = at(&mut o, b"c2", 0, 3, 0, 0, None);
    let ty = nd::u16();
    let class = img::pick(&[2, 107, 111, 3, 110]) as u8;
    let (t, c) = (nd::u8() & 0xf8 | 2, nd::u8());
    let inn = if nd::flag() { Some(if nd::flag() { c1 } else { c2 }) } else { None };
    at(&mut o, b"label", ty, class, t, c, inn);
    let d = nd::must(o.write());
    let f = nd::must(XcoffFile::<T>::parse(&*d));
    // file 0, c1 at 2, c2 at 4, label at 5
    let y = nd::must(f.symbol_by_index(SymbolIndex(5)));
    nd::ck_bytes(nd::must(y.name_bytes()), b"label");
    let SymbolFlags::Xcoff { n_type, n_sclass, x_smtyp, x_smclas, containing_csect } = y.flags() else { nd::ck(false); return };
    nd::ck(n_type.0 == ty && n_sclass.0 == class);
    if matches!(class, 2 | 107 | 111) {
        nd::ck(x_smtyp.0 == t && x_smclas.0 == c);
        nd::ck_eq(nd::some(containing_csect).0 as u64, match inn { None => 77, Some(i) => if i == c1 { 2 } else { 4 } });
        nd::reach(1);
    }
    let y = nd::must(f.symbol_by_index(SymbolIndex(2)));
    let SymbolFlags::Xcoff { n_sclass, x_smtyp, .. } = y.flags() else { nd::ck(false); return };
    nd::ck(n_sclass.0 == 107 && x_smtyp.0 == 0x11 && y.size() == 77);
}
/// relocations in two sections with addresses
fn relocs<T: FileHeader>(is64: bool) {
    let mut o = new(is64);
    let mut ids = Vec::new();
    for (i, k) in [S::Text, S::Data].into_iter().enumerate() {
        let s = o.add_section(Vec::new(), vec![b'a' + i as u8], k);
        o.append_section_data(s, &[0x11; 12][..], 1);
        ids.push(s);
    }
    o.add_file_symbol(b"f".to_vec());
    let y = o.add_symbol(sym(b"y", SymbolKind::Text, SymbolScope::Dynamic, SymbolSection::Undefined));
    let z = o.add_symbol(sym(b"z", SymbolKind::Text, SymbolScope::Dynamic, SymbolSection::Undefined));
    let sect = nd::below(2);
    let at = img::pick(&[0, 1, 4]);
    let to_z = nd::flag();
    let raw = nd::flag();
    let size = [8u8, 16, 32, 64][nd::below(4)];
    let kind = if raw { K::Unknown } else { [K::Absolute, K::Relative, K::Got, K::PltRelative, K::SectionOffset][nd::below(5)] };
    let ty = nd::u8();
    // sign and fixup bits
    let hi = if raw { nd::u8() & 0xc0 } else { 0 };
    let add = nd::u64() as i64;
    let flags = if raw { RelocationFlags::Xcoff { r_rtype: xcoff::RelocationType(ty), r_rsize: size - 1 | hi } } else { RelocationFlags::Generic { kind, encoding: N::Generic, size } };
    nd::assume(add < i64::MAX - 4);
    // the last relocation is a plain one, in each section
    let r = o.add_relocation(ids[sect], Relocation { offset: at, symbol: if to_z { z } else { y }, addend: add, flags });
    let rt = if raw { ty as u64 } else { match kind { K::Absolute => 0, K::Relative => 2, K::Got => 3, _ => 99 } };
    let stored = if rt == 2 { add.wrapping_add(4) } else { add };
    nd::ck(r.is_ok() == ((raw || rt != 99) && (stored == 0 || size >= 32)));
    if r.is_err() { nd::reach(2); return }
    for s in &ids {
        nd::must(o.add_relocation(*s, Relocation { offset: 8, symbol: y, addend: 0, flags: RelocationFlags::Xcoff { r_rtype: xcoff::R_POS, r_rsize: 31 } }));
    }
    let d = nd::must(o.write());
    let f = nd::must(XcoffFile::<T>::parse(&*d));
    for i in 0..2 {
        let s = nd::must(f.section_by_index(SectionIndex(i + 1)));
        let data = nd::must(s.data());
        let n = s.relocations().count();
        nd::ck_eq(n as u64, 1 + (i == sect) as u64);
        let mut it = s.relocations();
        if i == sect {
            let (a, r) = nd::some(it.next());
            nd::ck_eq(a, at);
            nd::ck(r.target() == RelocationTarget::Symbol(SymbolIndex(if to_z { 4 } else { 2 })));
            let RelocationFlags::Xcoff { r_rtype, r_rsize } = r.flags() else { nd::ck(false); return };
            nd::ck(r_rtype.0 as u64 == rt && r_rsize == size - 1 | hi);
            let n = size as usize / 8;
            // small addends in the data, truncated to the field
            let mut w = [0x11u8; 12];
            if stored != 0 { img::put(&mut w, at as usize, n, stored as u64, true); }
            nd::ck_bytes(data, &w);
            if !raw { nd::ck(r.kind() == kind && r.has_implicit_addend()); }
            // the record holds an address
            let w = if is64 { 8 } else { 4 };
            let h = if is64 { 24 + 72 * i } else { 20 + 40 * i };
            let p = if is64 { get(&d, h + 40, 8) } else { get(&d, h + 24, 4) } as usize;
            nd::ck_eq(get(&d, p, w), at + s.address());
            nd::reach(1);
        }
        let (a, r) = nd::some(it.next());
        nd::ck_eq(a, 8);
        nd::ck(r.target() == RelocationTarget::Symbol(SymbolIndex(2)) && r.kind() == K::Absolute && r.size() == 32);
    }
}

harnesses! {
    /// any flags and data, every section kind, data up to 5 bytes
    /// @reach 1,2
    fn c20_sections() { let c = nd::flag(); by_class!(c, sections(c)); }
    /// two symbols, one with every kind, scope, section and four names
    /// @reach 1
    fn c20_symbols0() { let c = nd::flag(); by_class!(c, symbols(c, 0)); }
    /// the second symbol is the general one
    /// @reach 1
    fn c20_symbols1() { let c = nd::flag(); by_class!(c, symbols(c, 1)); }
    /// after a file symbol
    /// @reach 1
    fn c20_symbols2() { let c = nd::flag(); by_class!(c, symbols(c, 2)); }
    /// any flags
    /// @reach 1
    fn c20_flags() { let c = nd::flag(); by_class!(c, flags(c)); }
    /// any addend and type; three offsets, four sizes
    /// @reach 1,2
    fn c20_relocs() { let c = nd::flag(); by_class!(c, relocs(c)); }
    /// 32767 and 32768 sections; 65534 and 65535 relocations in a section
    /// @reach 1,2,3
    /// @args --path-instrs 1000000000
    fn c20_limits() {
        let is64 = nd::flag();
        let mut o = new(is64);
        let more = nd::below(2);
        if nd::flag() {
            for _ in 0..0x7fff + more { o.add_section(Vec::new(), Vec::new(), S::Data); }
            let r = o.write();
            nd::ck(r.is_ok() == (more == 0));
            if let Ok(d) = r { nd::ck_eq(get(&d, 2, 2), 0x7fff); nd::reach(1); }
        } else {
            let s = o.add_section(Vec::new(), b"s".to_vec(), S::Data);
            o.append_section_data(s, &[0; 4], 1);
            let y = o.add_symbol(sym(b"y", SymbolKind::Text, SymbolScope::Dynamic, SymbolSection::Undefined));
            for _ in 0..0xfffe + more { nd::must(o.add_relocation(s, Relocation { offset: 0, symbol: y, addend: 0, flags: RelocationFlags::Xcoff { r_rtype: xcoff::R_POS, r_rsize: 31 } })); }
            let r = o.write();
            nd::ck(r.is_ok() == (is64 || more == 0));
            if let Ok(d) = r {
                nd::ck_eq(if is64 { get(&d, 24 + 56, 4) } else { get(&d, 20 + 32, 2) }, 0xfffe + more as u64);
                nd::reach(2);
            } else { nd::reach(3); }
        }
    }
}
