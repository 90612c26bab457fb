//! File kinds, and the format-independent `File` next to each format's own parser.
use crate::{harnesses, img, nd};
use img::{E, M, P};
use nd::Buf;
use object::read::coff::{CoffBigFile, CoffFile};
use object::read::elf::{ElfFile32, ElfFile64};
use object::read::macho::{MachOFile32, MachOFile64};
use object::read::pe::{PeFile32, PeFile64};
use object::read::xcoff::{XcoffFile32, XcoffFile64};
use object::read::*;
use object::{Architecture, BinaryFormat, Endianness, SymbolScope};
use object::write::{self, StandardSection, SymbolSection as WS};

const CLSID: [u8; 16] = [0xc7, 0xa1, 0xba, 0xd1, 0xee, 0xba, 0xa9, 0x4b, 0xaf, 0x20, 0xfa, 0xf6, 0x6a, 0xa4, 0xdc, 0xb8];
/// the kind the format definitions give these bytes at the start
fn kind(b: &[u8]) -> Option<FileKind> {
    let is = |s: &[u8]| img::eq(&b[..s.len()], s);
    let le = |o: usize, n: usize| img::get(b, o, n, false);
    if b.len() < 16 { return None; }
    if is(b"!<arch>\n") || is(b"!<thin>\n") { return Some(FileKind::Archive); }
    if is(b"dyld_v1 ") { return Some(FileKind::DyldCache); }
    if is(b"\x7fELF\x01") { return Some(FileKind::Elf32); }
    if is(b"\x7fELF\x02") { return Some(FileKind::Elf64); }
    match le(0, 4) {
        0xfeed_face | 0xcefa_edfe => return Some(FileKind::MachO32),
        0xfeed_facf | 0xcffa_edfe => return Some(FileKind::MachO64),
        0xbeba_feca => return Some(FileKind::MachOFat32),
        0xbfba_feca => return Some(FileKind::MachOFat64),
        0xffff_0000 => return match le(4, 2) {
            0 => Some(FileKind::CoffImport),
            2 if b.len() >= 32 && img::eq(&b[12..28], &CLSID) => Some(FileKind::CoffBig),
            _ => None,
        },
        _ => {}
    }
    match le(0, 2) {
        0x5a4d => {
            if b.len() < 64 { return None; }
            let nt = le(60, 4);
            if !img::fits(nt, 120, b.len()) { return None; }
            let nt = nd::conc(nt) as usize;
            if le(nt, 4) != 0x4550 { return None; }
            match le(nt + 24, 2) { 0x10b => Some(FileKind::Pe32), 0x20b => Some(FileKind::Pe64), _ => None }
        }
        0x1c4 | 0xaa64 | 0xa641 | 0x1f0 | 0x1f1 | 0x1f2 | 0x14c | 0x8664 => Some(FileKind::Coff),
        0xdf01 => Some(FileKind::Xcoff32),
        0xf701 => Some(FileKind::Xcoff64),
        _ => None,
    }
}
fn magic() {
    let mut b = Buf::<40>::any();
    let n = [0, 15, 16, 31, 32, 40][nd::below(6)];
    match nd::below(3) {
        0 => {}
        1 => { b.0[..6].copy_from_slice(&[0, 0, 0xff, 0xff, 2, 0]); }
        _ => { b.0[..6].copy_from_slice(&[0, 0, 0xff, 0xff, 2, 0]); b.0[12..27].copy_from_slice(&CLSID[..15]); }
    }
    let d = &b.0[..n];
    let w = kind(d);
    let r = FileKind::parse(d);
    nd::ck(r.ok() == w);
    if w.is_some() { nd::reach(1); } else { nd::reach(2); }
    // an unsupported or malformed file is an error
    if !matches!(w, Some(FileKind::Coff | FileKind::Elf32 | FileKind::Elf64 | FileKind::Xcoff32 | FileKind::Xcoff64 | FileKind::MachO32 | FileKind::MachO64)) { nd::ck(File::parse(d).is_err()); }
}
fn magic_pe() {
    let mut b = Buf::<192>::zero();
    let nt = img::pick(&[0, 2, 64, 71, 72, 73, 0xffff_fff8]);
    nd::fill(&mut b.0[0..2]);
    img::put(&mut b.0, 60, 4, nt, false);
    for o in [64, 71, 72] { if nt == o { nd::fill(&mut b.0[o as usize..o as usize + 4]); nd::fill(&mut b.0[o as usize + 24..o as usize + 26]); } }
    let n = [16, 63, 64, 184, 191, 192][nd::below(6)];
    let w = kind(&b.0[..n]);
    nd::ck(FileKind::parse(&b.0[..n]).ok() == w);
    if w.is_some() { nd::reach(1); } else { nd::reach(2); }
}
/// a file inside another one
fn magic_at() {
    let b = Buf::<24>::any();
    let at = img::pick(&[1, 8, 9, 1 << 63, u64::MAX]);
    let r = FileKind::parse_at(&b.0[..], at);
    if at > 8 { nd::ck(r.is_err()); nd::reach(2); return; }
    let d = &b.0[at as usize..at as usize + 16];
    let w = kind(d);
    nd::ck(r.ok() == w);
    if w.is_some() { nd::reach(1); }
}

fn ok<T, X>(a: Result<T>, b: Result<X>) -> Option<(T, X)> {
    nd::ck(a.is_ok() == b.is_ok());
    match (a, b) { (Ok(a), Ok(b)) => Some((a, b)), _ => None }
}
fn both<T, X>(a: Option<T>, b: Option<X>) -> Option<(T, X)> {
    nd::ck(a.is_some() == b.is_some());
    match (a, b) { (Some(a), Some(b)) => Some((a, b)), _ => None }
}
/// both iterations in step
fn each<A: Iterator, B: Iterator>(mut a: A, mut b: B, mut f: impl FnMut(A::Item, B::Item)) {
    loop { match both(a.next(), b.next()) { Some((x, y)) => f(x, y), None => return } }
}
fn slice(a: &[u8], b: &[u8]) { nd::ck(a.as_ptr() == b.as_ptr() || a.is_empty() && b.is_empty()); nd::ck_eq(a.len() as u64, b.len() as u64); }
fn bytes(a: Result<&[u8]>, b: Result<&[u8]>) { if let Some((a, b)) = ok(a, b) { slice(a, b) } }
fn opt(a: Result<Option<&[u8]>>, b: Result<Option<&[u8]>>) { if let Some((a, b)) = ok(a, b) { if let Some((a, b)) = both(a, b) { slice(a, b) } } }
fn symbol<'d>(a: &impl ObjectSymbol<'d>, b: &impl ObjectSymbol<'d>) {
    nd::ck(a.index() == b.index());
    bytes(a.name_bytes(), b.name_bytes());
    bytes(a.name().map(|x| x.as_bytes()), b.name().map(|x| x.as_bytes()));
    nd::ck_eq(a.address(), b.address());
    nd::ck_eq(a.size(), b.size());
    nd::ck(a.kind() == b.kind());
    nd::ck(a.section() == b.section());
    nd::ck(a.section_index() == b.section_index());
    nd::ck(a.is_undefined() == b.is_undefined());
    nd::ck(a.is_definition() == b.is_definition());
    nd::ck(a.is_common() == b.is_common());
    nd::ck(a.is_weak() == b.is_weak());
    nd::ck(a.scope() == b.scope());
    nd::ck(a.is_global() == b.is_global());
    nd::ck(a.is_local() == b.is_local());
    nd::ck(a.flags() == b.flags());
}
fn reloc(a: (u64, Relocation), b: (u64, Relocation)) {
    nd::ck_eq(a.0, b.0);
    let (a, b) = (a.1, b.1);
    nd::ck(a.kind() == b.kind() && a.encoding() == b.encoding() && a.size() == b.size() && a.target() == b.target() && a.subtractor() == b.subtractor());
    nd::ck(a.addend() == b.addend() && a.has_implicit_addend() == b.has_implicit_addend() && a.flags() == b.flags());
}
fn section<'d>(a: &impl ObjectSection<'d>, b: &impl ObjectSection<'d>) {
    nd::ck(a.index() == b.index());
    nd::ck_eq(a.address(), b.address());
    nd::ck_eq(a.size(), b.size());
    nd::ck_eq(a.align(), b.align());
    nd::ck(a.file_range() == b.file_range());
    bytes(a.data(), b.data());
    let q = a.address().wrapping_add(1);
    opt(a.data_range(q, 2), b.data_range(q, 2));
    if let Some((a, b)) = ok(a.compressed_file_range(), b.compressed_file_range()) { nd::ck(a == b); }
    if let Some((a, b)) = ok(a.compressed_data(), b.compressed_data()) { nd::ck(a.format == b.format && a.uncompressed_size == b.uncompressed_size); slice(a.data, b.data); }
    bytes(a.name_bytes(), b.name_bytes());
    bytes(a.name().map(|x| x.as_bytes()), b.name().map(|x| x.as_bytes()));
    opt(a.segment_name_bytes(), b.segment_name_bytes());
    opt(a.segment_name().map(|x| x.map(|x| x.as_bytes())), b.segment_name().map(|x| x.map(|x| x.as_bytes())));
    nd::ck(a.kind() == b.kind());
    nd::ck(a.flags() == b.flags());
    each(a.relocations(), b.relocations(), reloc);
    if let Some((x, y)) = ok(a.relocation_map(), b.relocation_map()) { for (o, _) in b.relocations() { nd::ck_eq(x.relocate(o, 5), y.relocate(o, 5)); } }
}
fn same<'d, A: Object<'d>, B: Object<'d>>(a: &A, b: &B) {
    nd::ck(a.architecture() == b.architecture());
    nd::ck(a.sub_architecture() == b.sub_architecture());
    nd::ck(a.endianness() == b.endianness() && a.is_little_endian() == b.is_little_endian());
    nd::ck(a.is_64() == b.is_64());
    nd::ck(a.kind() == b.kind());
    nd::ck(a.flags() == b.flags());
    nd::ck_eq(a.entry(), b.entry());
    nd::ck_eq(a.relative_address_base(), b.relative_address_base());
    nd::ck(a.has_debug_symbols() == b.has_debug_symbols());
    each(a.segments(), b.segments(), |x, y| {
        nd::ck_eq(x.address(), y.address());
        nd::ck_eq(x.size(), y.size());
        nd::ck_eq(x.align(), y.align());
        nd::ck(x.file_range() == y.file_range());
        bytes(x.data(), y.data());
        let q = y.address().wrapping_add(1);
        opt(x.data_range(q, 2), y.data_range(q, 2));
        opt(x.name_bytes(), y.name_bytes());
        opt(x.name().map(|x| x.map(|x| x.as_bytes())), y.name().map(|x| x.map(|x| x.as_bytes())));
        nd::ck(x.flags() == y.flags());
        nd::ck(x.permissions() == y.permissions());
    });
    each(a.sections(), b.sections(), |x, y| section(&x, &y));
    for i in 0..4 { if let Some((x, y)) = ok(a.section_by_index(SectionIndex(i)), b.section_by_index(SectionIndex(i))) { nd::ck(x.index() == y.index()); nd::ck_eq(x.size(), y.size()); } }
    if let Some((x, y)) = both(a.section_by_name(".text"), b.section_by_name(".text")) { nd::ck(x.index() == y.index()); }
    if let Some((x, y)) = both(a.section_by_name_bytes(b"__text"), b.section_by_name_bytes(b"__text")) { nd::ck(x.index() == y.index()); }
    each(a.symbols(), b.symbols(), |x, y| symbol(&x, &y));
    each(a.dynamic_symbols(), b.dynamic_symbols(), |x, y| symbol(&x, &y));
    if let Some((x, y)) = both(a.symbol_table(), b.symbol_table()) {
        each(x.symbols(), y.symbols(), |x, y| symbol(&x, &y));
        for i in 0..3 { if let Some((x, y)) = ok(x.symbol_by_index(SymbolIndex(i)), y.symbol_by_index(SymbolIndex(i))) { symbol(&x, &y); } }
    }
    if let Some((x, y)) = both(a.dynamic_symbol_table(), b.dynamic_symbol_table()) {
        each(x.symbols(), y.symbols(), |x, y| symbol(&x, &y));
        for i in 0..3 { if let Some((x, y)) = ok(x.symbol_by_index(SymbolIndex(i)), y.symbol_by_index(SymbolIndex(i))) { symbol(&x, &y); } }
    }
    for i in 0..3 { if let Some((x, y)) = ok(a.symbol_by_index(SymbolIndex(i)), b.symbol_by_index(SymbolIndex(i))) { symbol(&x, &y); } }
    for n in ["f", "_f", "v"] { if let Some((x, y)) = both(a.symbol_by_name(n), b.symbol_by_name(n)) { nd::ck(x.index() == y.index()); nd::reach(1); } }
    each(a.comdats(), b.comdats(), |x, y| {
        nd::ck(x.kind() == y.kind() && x.symbol() == y.symbol());
        bytes(x.name_bytes(), y.name_bytes());
        bytes(x.name().map(|x| x.as_bytes()), y.name().map(|x| x.as_bytes()));
        each(x.sections(), y.sections(), |x, y| nd::ck(x == y));
    });
    if let Some((x, y)) = both(a.dynamic_relocations(), b.dynamic_relocations()) { each(x, y, reloc); }
    {
        let (x, y) = (a.symbol_map(), b.symbol_map());
        each(x.symbols().iter(), y.symbols().iter(), |x, y| { nd::ck_eq(x.address(), y.address()); nd::ck_eq(x.size(), y.size()); slice(x.name().as_bytes(), y.name().as_bytes()); });
        let (x, y) = (a.object_map(), b.object_map());
        each(x.symbols().iter(), y.symbols().iter(), |x, y| { nd::ck_eq(x.address(), y.address()); nd::ck_eq(x.size(), y.size()); slice(x.name(), y.name()); });
    }
    if let Some((x, y)) = ok(a.import_libraries(), b.import_libraries()) { each(x, y, |x, y| if let Some((x, y)) = ok(x, y) { slice(x.name(), y.name()); nd::ck(x.flags() == y.flags()); }); }
    if let Some((x, y)) = ok(a.imports(), b.imports()) { each(x, y, |x, y| if let Some((x, y)) = ok(x, y) { nd::ck(x == y); }); }
    if let Some((x, y)) = ok(a.exports(), b.exports()) { each(x, y, |x, y| if let Some((x, y)) = ok(x, y) { nd::ck(x == y); }); }
    if let Some((x, y)) = ok(a.mach_uuid(), b.mach_uuid()) { nd::ck(x == y); }
    opt(a.build_id(), b.build_id());
    if let Some((x, y)) = ok(a.gnu_debuglink(), b.gnu_debuglink()) { if let Some((x, y)) = both(x, y) { slice(x.0, y.0); nd::ck_eq(x.1 as u64, y.1 as u64); nd::reach(3); } }
    if let Some((x, y)) = ok(a.gnu_debugaltlink(), b.gnu_debugaltlink()) { if let Some((x, y)) = both(x, y) { slice(x.0, y.0); slice(x.1, y.1); nd::reach(4); } }
    if let Some((x, y)) = ok(a.pdb_info(), b.pdb_info()) { if let Some((x, y)) = both(x, y) { nd::ck(x == y); nd::reach(5); } }
    nd::reach(2);
}
macro_rules! agree {
    ($d:expr, $v:ident, $t:ty, $k:ident) => {{
        nd::ck(FileKind::parse($d) == Ok(FileKind::$k));
        let (a, b) = (File::parse($d), <$t>::parse($d));
        {
            let (a, b) = (nd::must(a), nd::must(b));
            let f = match stringify!($v) { "Coff" | "CoffBig" => BinaryFormat::Coff, "Elf32" | "Elf64" => BinaryFormat::Elf, "MachO32" | "MachO64" => BinaryFormat::MachO, "Pe32" | "Pe64" => BinaryFormat::Pe, _ => BinaryFormat::Xcoff };
            nd::ck(a.format() == f);
            nd::ck(matches!(a, File::$v(_)));
            same(&a, &b);
        }
    }};
}

/// a small object of a format, written by the crate
fn written(f: BinaryFormat, a: Architecture, e: Endianness) -> Vec<u8> {
    let mut o = write::Object::new(f, a, e);
    let t = o.section_id(StandardSection::Text);
    let c = nd::bytes::<16>();
    o.append_section_data(t, &c, 8);
    let z = o.section_id(StandardSection::UninitializedData);
    if f != BinaryFormat::Coff { o.append_section_bss(z, 8, 4); }
    let s = |name: &[u8], section, kind| write::Symbol { name: name.to_vec(), value: nd::u8() as u64, size: nd::u8() as u64, kind, scope: if nd::flag() { SymbolScope::Linkage } else { SymbolScope::Compilation }, weak: false, section, flags: object::SymbolFlags::None };
    let y = o.add_symbol(s(b"f", WS::Section(t), SymbolKind::Text));
    let mut u = s(b"u", WS::Undefined, if f == BinaryFormat::Xcoff { SymbolKind::Text } else { SymbolKind::Unknown });
    u.scope = if f == BinaryFormat::Xcoff { SymbolScope::Linkage } else { SymbolScope::Unknown };
    u.value = 0;
    u.size = 0;
    o.add_symbol(u);
    let size = match a { Architecture::X86_64 | Architecture::PowerPc64 => 64, _ => 32 };
    nd::must(o.add_relocation(t, write::Relocation { offset: 8, symbol: y, addend: 0, flags: object::RelocationFlags::Generic { kind: RelocationKind::Absolute, encoding: RelocationEncoding::Generic, size } }));
    nd::must(o.write())
}
fn objects() {
    use Endianness::*;
    match nd::below(8) {
        0 => { let d = written(BinaryFormat::Elf, Architecture::I386, Little); agree!(&d[..], Elf32, ElfFile32::<Endianness>, Elf32) }
        1 => { let d = written(BinaryFormat::Elf, Architecture::PowerPc64, Big); agree!(&d[..], Elf64, ElfFile64::<Endianness>, Elf64) }
        2 => { let d = written(BinaryFormat::MachO, Architecture::I386, Little); agree!(&d[..], MachO32, MachOFile32::<Endianness>, MachO32) }
        3 => { let d = written(BinaryFormat::MachO, Architecture::X86_64, Little); agree!(&d[..], MachO64, MachOFile64::<Endianness>, MachO64) }
        4 => { let d = written(BinaryFormat::Coff, Architecture::I386, Little); agree!(&d[..], Coff, CoffFile::<&[u8]>, Coff) }
        5 => { let d = written(BinaryFormat::Coff, Architecture::X86_64, Little); agree!(&d[..], Coff, CoffFile::<&[u8]>, Coff) }
        6 => { let d = written(BinaryFormat::Xcoff, Architecture::PowerPc, Big); agree!(&d[..], Xcoff32, XcoffFile32::<&[u8]>, Xcoff32) }
        _ => { let d = written(BinaryFormat::Xcoff, Architecture::PowerPc64, Big); agree!(&d[..], Xcoff64, XcoffFile64::<&[u8]>, Xcoff64) }
    }
}
/// an executable with one of everything
fn elf_image(l: E) {
    let w = l.w();
    let sy = l.sym();
    let mut dynm = vec![0; 10 * w];
    for (i, v) in [1, 1, 5, 0, 10, 0x20, 14, 3, 0, 0].into_iter().enumerate() { l.put(&mut dynm, i * w, w, v); }
    let mut syms = vec![0; 3 * sy];
    for i in 1..3 {
        nd::fill(&mut syms[i * sy..(i + 1) * sy]);
        l.symset(&mut syms, i * sy, 0, img::pick(&[7, 9]));
        l.symset(&mut syms, i * sy, 3, [1, 0][i - 1]);
        l.symset(&mut syms, i * sy, 1, [0x12, 0x10][i - 1]);
    }
    let mut rel = vec![0; 3 * w];
    nd::fill(&mut rel);
    l.put(&mut rel, w, w, if l.is64 { 1 << 32 | 1 } else { 1 << 8 | 1 });
    let mut note = vec![0; 20];
    for (i, v) in [4, 4, 3].into_iter().enumerate() { l.put(&mut note, 4 * i, 4, v); }
    note[12..16].copy_from_slice(b"GNU\0");
    nd::fill(&mut note[16..20]);
    let mut link = b"dbg\0".to_vec();
    link.extend_from_slice(&nd::bytes::<4>());
    let mut alt = b"alt\0".to_vec();
    alt.extend_from_slice(&nd::bytes::<4>());
    let strs = b"\0lib.a\0f\0v\0".to_vec();
    // name, type, flags, link, info, entry size, data
    let secs: Vec<(&str, u64, u64, u64, u64, u64, Vec<u8>)> = vec![
        ("", 0, 0, 0, 0, 0, vec![]),
        (".text", 1, 6, 0, 0, 0, nd::bytes::<8>().to_vec()),
        (".symtab", 2, 0, 4, 1, sy as u64, syms.clone()),
        (".dynsym", 11, 2, 4, 1, sy as u64, syms),
        (".strtab", 3, 2, 0, 0, 0, strs),
        (".rela.dyn", 4, 2, 3, 0, 3 * w as u64, rel),
        (".dynamic", 6, 2, 4, 0, 2 * w as u64, dynm),
        (".note.gnu.build-id", 7, 2, 0, 0, 0, note),
        (".gnu_debuglink", 1, 0, 0, 0, 0, link),
        (".gnu_debugaltlink", 1, 0, 0, 0, 0, alt),
        (".debug_info", 1, 0, 0, 0, 0, vec![1, 2]),
    ];
    let mut names: Vec<u8> = vec![];
    let mut at: Vec<(u64, u64, u64)> = vec![];
    let ph = l.eh();
    let mut d: Vec<u8> = vec![0; ph + 2 * l.ph()];
    for s in &secs {
        while d.len() % 8 != 0 { d.push(0); }
        at.push((names.len() as u64, d.len() as u64, s.6.len() as u64));
        names.extend_from_slice(s.0.as_bytes());
        names.push(0);
        d.extend_from_slice(&s.6);
    }
    let no = d.len();
    d.extend_from_slice(&names);
    let sh = d.len();
    d.resize(sh + (secs.len() + 1) * l.sh(), 0);
    l.ident(&mut d);
    l.set(&mut d, l.eh_type(), img::pick(&[2, 3]));
    l.set(&mut d, l.eh_machine(), if l.is64 { 62 } else { 8 });
    l.set(&mut d, l.eh_entry(), nd::u64());
    l.sections(&mut d, sh as u64, secs.len() as u64 + 1, secs.len() as u64);
    l.segments(&mut d, ph as u64, 2);
    for (i, s) in secs.iter().enumerate() {
        let o = sh + i * l.sh();
        let addr = if i == 1 { nd::u8() as u64 } else { at[i].1 };
        for (k, v) in [at[i].0, s.1, s.2, addr, at[i].1, at[i].2, s.3, s.4, 1, s.5].into_iter().enumerate() { l.shset(&mut d, o, k, v); }
    }
    let o = sh + secs.len() * l.sh();
    l.section(&mut d, o, 0, 3, no as u64, names.len() as u64);
    l.phset(&mut d, ph, 0, 1);
    l.phset(&mut d, ph, 1, nd::u8() as u64 & 7);
    let va = nd::u64();
    l.phset(&mut d, ph, 3, va);
    l.phset(&mut d, ph, 4, nd::u64());
    l.phset(&mut d, ph, 5, sh as u64);
    l.phset(&mut d, ph, 6, sh as u64 + 9);
    l.phset(&mut d, ph, 7, img::pick(&[1, 4096]));
    for (k, v) in [2, 4, at[6].1, at[6].1, 0, at[6].2, at[6].2, 8].into_iter().enumerate() { l.phset(&mut d, ph + l.ph(), k, v); }
    if l.is64 { agree!(&d[..], Elf64, ElfFile64::<Endianness>, Elf64) } else { agree!(&d[..], Elf32, ElfFile32::<Endianness>, Elf32) }
}
fn macho_image(m: M) {
    let mut b = Buf::<512>::zero();
    let c = m.hdr();
    let z = m.segment(&mut b.0, c, 2);
    let (s, t) = (c + m.seg(), c + m.seg() + m.sect());
    let ly = c + z;
    let lu = ly + 24;
    let ld = lu + 24;
    let le = ld + 32;
    m.header(&mut b.0, if m.is64 { 0x0100_000c } else { 7 }, img::pick(&[1, 2, 6]), 5, (le + 24 - c) as u64);
    m.put(&mut b.0, 8, 4, img::pick(&[0, 2]));
    m.put(&mut b.0, 24, 4, nd::u32() as u64);
    let (d, y) = (le + 24, le + 40);
    let st = y + 2 * m.nlist();
    b.0[c + 8..c + 14].copy_from_slice(b"__TEXT");
    for (i, v) in [nd::u64(), nd::u64(), d as u64, 16, nd::u32() as u64, nd::u32() as u64].into_iter().enumerate() { m.segset(&mut b.0, c, i, v); }
    for (o, n, sz) in [(s, &b"__text"[..], 8), (t, &b"__debug_str"[..], 8)] {
        b.0[o..o + n.len()].copy_from_slice(n);
        b.0[o + 16..o + 22].copy_from_slice(b"__TEXT");
        m.sectset(&mut b.0, o, 0, nd::u8() as u64);
        m.sectset(&mut b.0, o, 1, sz);
        m.sectset(&mut b.0, o, 2, d as u64 + if o == t { 8 } else { 0 });
        m.sectset(&mut b.0, o, 3, if o == s { 4 } else { 0 });
        if o == s { m.sectset(&mut b.0, o, 6, nd::u32() as u64 & 0xff00_0001); }
    }
    m.symtab(&mut b.0, ly, y as u64, 2, st as u64, 8);
    m.put(&mut b.0, lu, 4, 0x1b);
    m.put(&mut b.0, lu + 4, 4, 24);
    nd::fill(&mut b.0[lu + 8..lu + 24]);
    m.put(&mut b.0, ld, 4, 0xc);
    m.put(&mut b.0, ld + 4, 4, 32);
    m.put(&mut b.0, ld + 8, 4, 24);
    b.0[ld + 24] = b'L';
    m.put(&mut b.0, le, 4, 0x8000_0028);
    m.put(&mut b.0, le + 4, 4, 24);
    m.put(&mut b.0, le + 8, 8, nd::u64());
    for i in 0..2 {
        let o = y + i * m.nlist();
        m.put(&mut b.0, o, 4, 1 + 3 * i as u64);
        b.0[o + 4] = [0xf, 1][i];
        b.0[o + 5] = [1, 0][i];
        if i == 1 { m.put(&mut b.0, o + 6, 2, nd::u16() as u64); }
        m.put(&mut b.0, o + 8, m.w(), if i == 0 { nd::u8() as u64 } else { 0 });
    }
    b.0[st..st + 8].copy_from_slice(b"\0_f\0_u\0\0");
    nd::fill(&mut b.0[d..d + 16]);
    let d = &b.0[..st + 8];
    if m.is64 { agree!(d, MachO64, MachOFile64::<Endianness>, MachO64) } else { agree!(d, MachO32, MachOFile32::<Endianness>, MachO32) }
}
fn put(b: &mut [u8], o: usize, n: usize, v: u64) { img::put(b, o, n, v, false) }
fn pe_image(is64: bool) {
    let mut b = Buf::<768>::zero();
    let p = P { is64, nt: 64, dirs: 7 };
    p.header(&mut b.0, 2);
    put(&mut b.0, p.fh() + 18, 2, nd::u16() as u64);
    put(&mut b.0, p.opt() + 16, 4, nd::u32() as u64);
    if is64 { put(&mut b.0, p.opt() + 24, 8, nd::u64()); } else { put(&mut b.0, p.opt() + 28, 4, nd::u32() as u64); }
    let raw = 368;
    p.section(&mut b.0, 0, 0x1000, 400, raw as u64, 400);
    p.section(&mut b.0, 1, 0x2000, 16, 0, 0);
    let (s0, s1) = (p.sect(0), p.sect(1));
    b.0[s0..s0 + 5].copy_from_slice(b".text");
    b.0[s1..s1 + 4].copy_from_slice(b".bss");
    put(&mut b.0, s0 + 36, 4, nd::u32() as u64);
    // exports: one by name
    let e = raw;
    p.set_dir(&mut b.0, 0, 0x1000, 80);
    for (o, v) in [(16, 1), (20, 1), (24, 1), (28, 0x1000 + 40), (32, 0x1000 + 44), (36, 0x1000 + 48)] { put(&mut b.0, e + o, 4, v); }
    put(&mut b.0, e + 40, 4, nd::u32() as u64 & 0xffff | 0x10000);
    put(&mut b.0, e + 44, 4, 0x1000 + 52);
    b.0[e + 52] = b'f';
    // imports: one by ordinal
    let i = raw + 80;
    p.set_dir(&mut b.0, 1, 0x1000 + 80, 40);
    for (o, v) in [(0, 0x1000 + 120), (12, 0x1000 + 152), (16, 0x1000 + 136)] { put(&mut b.0, i + o, 4, v); }
    let w = if is64 { 8 } else { 4 };
    put(&mut b.0, i + 40, w, nd::u16() as u64 | 1 << (8 * w - 1));
    b.0[i + 72] = b'L';
    // debug: one CodeView record
    let g = raw + 160;
    p.set_dir(&mut b.0, 6, 0x1000 + 160, 28);
    for (o, v) in [(12, 2), (16, 27), (20, 0x1000 + 200), (24, g as u64 + 40)] { put(&mut b.0, g + o, 4, v); }
    b.0[g + 40..g + 44].copy_from_slice(b"RSDS");
    nd::fill(&mut b.0[g + 44..g + 64]);
    b.0[g + 64] = b'p';
    if is64 { agree!(&b.0[..], Pe64, PeFile64::<&[u8]>, Pe64) } else { agree!(&b.0[..], Pe32, PeFile32::<&[u8]>, Pe32) }
}
fn coff_big() {
    let mut b = Buf::<{ 56 + 80 + 16 + 60 + 8 + 14 }>::zero();
    put(&mut b.0, 2, 2, 0xffff);
    put(&mut b.0, 4, 2, 2);
    put(&mut b.0, 6, 2, img::pick(&[0x8664, 0xa641]));
    b.0[12..28].copy_from_slice(&CLSID);
    let (d, r, y) = (136, 144, 154);
    let st = y + 60;
    for (o, v) in [(44, 2), (48, y as u64), (52, 3)] { put(&mut b.0, o, 4, v); }
    b.0[56..61].copy_from_slice(b".text");
    for (o, v) in [(16, 8), (20, d), (24, r)] { put(&mut b.0, 56 + o, 4, v); }
    put(&mut b.0, 56 + 32, 2, 1);
    put(&mut b.0, 56 + 36, 4, nd::u32() as u64 & 0xfeff_ffff);
    b.0[96..102].copy_from_slice(b".debug");
    nd::fill(&mut b.0[d as usize..d as usize + 8]);
    put(&mut b.0, r as usize, 4, nd::u32() as u64);
    put(&mut b.0, r as usize + 8, 2, img::pick(&[1, 4]));
    b.0[y] = b'f';
    put(&mut b.0, y + 8, 4, nd::u32() as u64);
    put(&mut b.0, y + 12, 4, 1);
    put(&mut b.0, y + 16, 2, img::pick(&[0, 0x20]));
    b.0[y + 18] = img::pick(&[2, 3]) as u8;
    b.0[y + 20] = b'v';
    put(&mut b.0, y + 28, 4, img::pick(&[0, 9]));
    b.0[y + 38] = 2;
    b.0[y + 40] = b'w';
    put(&mut b.0, y + 52, 4, 0xffff_ffff);
    b.0[y + 58] = nd::u8();
    put(&mut b.0, st, 4, 4);
    agree!(&b.0[..st + 4], CoffBig, CoffBigFile::<&[u8]>, CoffBig);
}
fn two() -> E { let x = nd::flag(); E { is64: x, big: !x } }

harnesses! {
    /// 40 bytes
    /// @reach 1,2
    fn c25_magic() { magic(); }
    /// 192 bytes
    /// @reach 1,2
    fn c25_magic_pe() { magic_pe(); }
    /// 24 bytes
    /// @reach 1,2
    fn c25_magic_at() { magic_at(); }
    /// a section, two symbols and a relocation in each format
    /// @reach 1,2
    fn c25_objects() { objects(); }
    /// an executable with 12 sections, 2 segments, 2 symbols in each table
    /// @reach 1,2,3,4
    fn c25_elf_image() { elf_image(two()); }
    /// an image with 2 sections and 2 symbols
    /// @reach 1,2
    fn c25_macho_image() { macho_image(M::two()); }
    /// an image with 2 sections, an export, an import and a debug record
    /// @reach 2,5
    fn c25_pe_image() { pe_image(nd::flag()); }
    /// an object with 2 sections, 3 symbols and a relocation
    /// @reach 1,2
    fn c25_coff_big() { coff_big(); }
}
