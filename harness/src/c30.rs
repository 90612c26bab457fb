//! `write::coff::Writer`: records, names, counts and layout of a COFF file written piece by piece.
use crate::img::get;
use crate::{harnesses, img, nd};
use object::pe;
use object::read::coff::CoffFile;
use object::read::{Object as _, ObjectSection as _, ObjectSymbol as _};
use object::write::coff::*;
use object::write::Object;
use object::{Architecture, BinaryFormat, Endianness, SectionKind};

fn header() -> FileHeader { FileHeader { machine: pe::Machine(nd::u16()), time_date_stamp: nd::u32(), characteristics: pe::FileFlags(nd::u16()) } }
/// the name of a section header field or symbol field, resolved in the string table
fn long<'a>(d: &'a [u8], strtab: usize, off: u64) -> &'a [u8] {
    let len = get(d, strtab, 4, false) as usize;
    nd::ck(len == d.len() - strtab && off >= 4 && off < len as u64);
    nd::some(img::cstr(&d[strtab..], off, len as u64))
}
fn section_name<'a>(d: &'a [u8], at: usize, strtab: usize) -> &'a [u8] {
    let f = &d[at..at + 8];
    if f[0] != b'/' { return img::name16(f); }
    let mut off = 0;
    if f[1] == b'/' {
        for &c in &f[2..] {
            let v = match c { b'A'..=b'Z' => c - b'A', b'a'..=b'z' => c - b'a' + 26, b'0'..=b'9' => c - b'0' + 52, b'+' => 62, b'/' => 63, _ => 255 };
            nd::ck(v < 64);
            off = off * 64 + v as u64;
        }
        // only offsets of more than seven digits
        nd::ck(off > 9_999_999);
    } else {
        let digits = img::name16(&f[1..]);
        nd::ck(!digits.is_empty() && (digits.len() == 1 || digits[0] != b'0'));
        for &c in digits { nd::ck(c.is_ascii_digit()); off = off * 10 + (c - b'0') as u64; }
        for &c in &f[1 + digits.len()..] { nd::ck(c == 0); }
    }
    long(d, strtab, off)
}
fn symbol_name<'a>(d: &'a [u8], at: usize, strtab: usize) -> &'a [u8] {
    if get(d, at, 4, false) != 0 { return img::name16(&d[at..at + 8]); }
    let off = get(d, at + 4, 4, false);
    if off == 0 { return &[]; }
    long(d, strtab, off)
}
fn section(name: Name) -> SectionHeader {
    SectionHeader {
        name, size_of_raw_data: nd::u32(), pointer_to_raw_data: nd::u32(), pointer_to_relocations: nd::u32(), pointer_to_linenumbers: nd::u32(),
        number_of_relocations: nd::u32(), number_of_linenumbers: nd::u16(), characteristics: pe::SectionFlags(nd::u32()),
    }
}
fn is_section(d: &[u8], at: usize, s: &SectionHeader) {
    let g = |o, n| get(d, at + o, n, false);
    nd::ck(g(8, 4) == 0 && g(12, 4) == 0);
    nd::ck(g(16, 4) == s.size_of_raw_data as u64 && g(20, 4) == s.pointer_to_raw_data as u64);
    nd::ck(g(24, 4) == s.pointer_to_relocations as u64 && g(28, 4) == s.pointer_to_linenumbers as u64);
    let n = s.number_of_relocations as u64;
    nd::ck(g(32, 2) == if n > 0xffff { 0xffff } else { n });
    nd::ck_eq(g(34, 2), s.number_of_linenumbers as u64);
    nd::ck_eq(g(36, 4), s.characteristics.0 as u64);
}
fn symbol(name: Name) -> Symbol {
    Symbol {
        name, value: nd::u32(), section_number: pe::SymbolSection(nd::u16() as i16 as i32), typ: pe::SymbolType(nd::u16()), storage_class: pe::SymbolClass(nd::u8()),
        number_of_aux_symbols: nd::u8(),
    }
}
fn is_symbol(d: &[u8], at: usize, s: &Symbol) {
    let g = |o, n| get(d, at + o, n, false);
    nd::ck(g(8, 4) == s.value as u64 && g(12, 2) == s.section_number.0 as u64 & 0xffff && g(14, 2) == s.typ.0 as u64);
    nd::ck(g(16, 1) == s.storage_class.0 as u64 && g(17, 1) == s.number_of_aux_symbols as u64);
}
/// strings added so that the last starts at `4 + pad`
fn digits(pad: usize, big: &[u8]) {
    let mut d = Vec::new();
    let mut w = Writer::new(&mut d);
    // "zz..." sorts before the others, which are not suffixes of it
    let _ = w.add_string(&big[..pad - 1]);
    let names: [&[u8]; 2] = [b"section-x", b"symbol--x"];
    let n = [w.add_name(names[0]), w.add_name(names[1])];
    w.reserve_file_header();
    w.reserve_section_headers(2);
    let _ = w.reserve_symbol_index();
    nd::must(w.reserve_symtab_strtab());
    let len = w.reserved_len();
    nd::must(w.write_file_header(FileHeader::default()));
    for i in 0..2 { w.write_section_header(SectionHeader { name: n[i], ..Default::default() }); }
    w.write_symbol(Symbol { name: n[1], ..Default::default() });
    w.write_strtab();
    nd::ck_eq(w.len(), len);
    drop(w);
    nd::ck_eq(d.len() as u64, len);
    let st = 20 + 80 + 18;
    for i in 0..2 { nd::ck_bytes(section_name(&d, 20 + 40 * i, st), names[i]); }
    nd::ck_bytes(symbol_name(&d, 100, st), names[1]);
    nd::reach(1);
}
static Z: [u8; 10_002_400] = [b'z'; 10_002_400];

harnesses! {
/// one of each record with arbitrary fields
/// @reach 1
fn c30_records() {
    let mut d = Vec::new();
    let mut w = Writer::new(&mut d);
    let h = header();
    w.reserve_file_header();
    w.reserve_section_headers(1);
    w.reserve_symbol_indices(1);
    nd::ck(w.reserve_aux_section() == 1 && w.reserve_aux_weak_external() == 1);
    nd::ck_eq(w.symbol_count() as u64, 3);
    let ro = w.reserve_relocations(1);
    nd::ck_eq(ro as u64, 60);
    nd::must(w.reserve_symtab_strtab());
    let len = w.reserved_len();
    nd::must(w.write_file_header(h.clone()));
    let raw = nd::bytes::<8>();
    let s = section(Name::Short(raw));
    w.write_section_header(s.clone());
    let r = Relocation { virtual_address: nd::u32(), symbol: nd::u32(), typ: pe::RelocationType(nd::u16()) };
    w.write_relocations_count(1);
    w.write_relocation(r.clone());
    let y = symbol(Name::Short(raw));
    w.write_symbol(y.clone());
    let a = AuxSymbolSection { length: nd::u32(), number_of_relocations: nd::u32(), number_of_linenumbers: nd::u16(), check_sum: nd::u32(), number: nd::u32(), selection: pe::ComdatSelection(nd::u8()) };
    w.write_aux_section(a.clone());
    let k = AuxSymbolWeak { weak_default_sym_index: nd::u32(), weak_search_type: pe::WeakExternSearch(nd::u32()) };
    w.write_aux_weak_external(k.clone());
    w.write_strtab();
    nd::ck_eq(w.len(), len);
    drop(w);
    nd::ck_eq(d.len() as u64, 128);
    let g = |o, n| get(&d, o, n, false);
    nd::ck(g(0, 2) == h.machine.0 as u64 && g(2, 2) == 1 && g(4, 4) == h.time_date_stamp as u64 && g(8, 4) == 70 && g(12, 4) == 3 && g(16, 2) == 0 && g(18, 2) == h.characteristics.0 as u64);
    nd::ck_bytes(&d[20..28], &raw);
    is_section(&d, 20, &s);
    nd::ck(g(60, 4) == r.virtual_address as u64 && g(64, 4) == r.symbol as u64 && g(68, 2) == r.typ.0 as u64);
    nd::ck_bytes(&d[70..78], &raw);
    is_symbol(&d, 70, &y);
    let n = a.number_of_relocations as u64;
    nd::ck(g(88, 4) == a.length as u64 && g(92, 2) == if n > 0xffff { 0xffff } else { n } && g(94, 2) == a.number_of_linenumbers as u64 && g(96, 4) == a.check_sum as u64);
    nd::ck(g(100, 2) == a.number as u64 & 0xffff && g(102, 1) == a.selection.0 as u64 && g(103, 1) == 0 && g(104, 2) == a.number as u64 >> 16);
    nd::ck(g(106, 4) == k.weak_default_sym_index as u64 && g(110, 4) == k.weak_search_type.0 as u64);
    for i in 114..124 { nd::ck(d[i] == 0); }
    nd::ck_eq(g(124, 4), 4);
    nd::reach(1);
}

/// any number of relocations: space reserved, count in the header and in the first relocation
/// @reach 1,2,3
fn c30_relocation_counts() {
    let n = nd::u32();
    nd::assume(n < u32::MAX);
    let mut d = Vec::new();
    let mut w = Writer::new(&mut d);
    let pad = nd::below(3) as u64;
    nd::ck_eq(w.reserve(pad, 1) as u64, 0);
    let off = w.reserve_relocations(n as usize);
    nd::ck_eq(off as u64, if n == 0 { 0 } else { pad });
    let total = if n > 0xffff { n as u64 + 1 } else { n as u64 };
    nd::ck_eq(w.reserved_len(), pad + 10 * total);
    w.write_relocations_count(n as usize);
    let len = w.len();
    drop(w);
    nd::ck(len == if n > 0xffff { 10 } else { 0 } && d.len() as u64 == len);
    if n > 0xffff {
        nd::ck(get(&d, 0, 4, false) == total && get(&d, 4, 4, false) == 0 && get(&d, 8, 2, false) == 0);
        nd::reach(1);
    } else if n == 0 { nd::reach(2); } else { nd::reach(3); }
}

/// sections and symbols with names of 0 to 11 bytes (three of them arbitrary), one of which may be a suffix of the other; decoded and read back
/// @reach 1,2
fn c30_names() {
    let mut b = [[b'q'; 11]; 2];
    let mut len = [0; 2];
    for i in 0..2 {
        len[i] = [0, 1, 7, 8, 9, 11][nd::below(6)];
        for k in 0..len[i] { if k == 0 || k + 1 == len[i] || k == 2 { b[i][k] = nd::u8(); nd::assume(b[i][k] != 0); } }
        // a short name that starts with a slash cannot be told from a long one
        if len[i] <= 8 { nd::assume(b[i][0] != b'/'); }
    }
    let n = [&b[0][..len[0]], &b[1][..len[1]]];
    let mut d = Vec::new();
    let mut w = Writer::new(&mut d);
    let names = [w.add_name(n[0]), w.add_name(n[1])];
    for i in 0..2 { nd::ck(matches!(names[i], Name::Long(_)) == (len[i] > 8)); }
    w.reserve_file_header();
    w.reserve_section_headers(2);
    nd::ck(w.reserve_symbol_index() == 0 && w.reserve_symbol_index() == 1);
    nd::must(w.reserve_symtab_strtab());
    let total = w.reserved_len();
    nd::must(w.write_file_header(FileHeader { machine: pe::Machine(0x8664), ..Default::default() }));
    for i in 0..2 { w.write_section_header(SectionHeader { name: names[i], ..Default::default() }); }
    for i in 0..2 { w.write_symbol(Symbol { name: names[i], section_number: pe::SymbolSection(1), storage_class: pe::SymbolClass(2), ..Default::default() }); }
    w.write_strtab();
    drop(w);
    nd::ck_eq(d.len() as u64, total);
    let (sym, st) = (100, 136);
    nd::ck(get(&d, 8, 4, false) == sym as u64 && get(&d, 12, 4, false) == 2);
    nd::ck_eq(get(&d, st, 4, false), (d.len() - st) as u64);
    let f = nd::must(CoffFile::<&[u8]>::parse(&d[..]));
    let mut s = f.sections();
    let mut y = f.symbols();
    for i in 0..2 {
        nd::ck_bytes(section_name(&d, 20 + 40 * i, st), n[i]);
        nd::ck_bytes(symbol_name(&d, sym + 18 * i, st), n[i]);
        nd::ck_bytes(nd::must(nd::some(s.next()).name_bytes()), n[i]);
        nd::ck_bytes(nd::must(nd::some(y.next()).name_bytes()), n[i]);
    }
    if len[0] > 8 && len[1] > 8 && d.len() < st + 4 + len[0] + len[1] + 2 { nd::reach(1); }
    if len[0] <= 8 && len[1] <= 8 { nd::ck_eq(d.len() as u64, st as u64 + 4); nd::reach(2); }
}

/// long section names at offsets of 1 to 4 (thorough: 1 to 7) decimal digits, around the changes of length
/// @reach 1
fn c30_decimal() {
    const P: [usize; 13] = [1, 5, 6, 7, 86, 95, 96, 986, 995, 996, 997, 9_986, 9_996];
    const T: [usize; 4] = [99_990, 99_996, 999_990, 999_996];
    let i = nd::below(nd::tier(P.len(), P.len() + T.len()));
    digits(if i < P.len() { P[i] } else { T[i - P.len()] }, &Z);
}

/// long section names at offsets of eight decimal digits, which are written in base 64, with every digit value at which the alphabet changes
/// @reach 1
/// @args --path-instrs 1000000000
fn c30_base64() { digits([9_999_994, 9_999_995, 10_000_057, 10_000_058, 10_000_059, 10_002_235, 10_002_299][nd::below(7)], &Z); }

/// a file with up to 2 sections (data of 0 to 5 arbitrary bytes or zeros, up to 2 relocations), a file name symbol with a name of 0, 1, 17 to 19 or 36 bytes and a custom range
/// @reach 1,2
fn c30_layout() {
    let bytes = nd::bytes::<5>();
    let ns = nd::below(3);
    let len = [nd::below(nd::tier(4, 6)), [0, 1, 4, 5][nd::below(4)]];
    let nr = [nd::below(3), 1];
    let zero = nd::flag();
    let fl = [0, 1, 17, 18, 19, 36][nd::below(6)];
    let mut fname = [b'f'; 36];
    fname[0] = nd::u8();
    fname[17] = nd::u8();
    let fname = &fname[..fl];
    let mut d = Vec::new();
    let mut w = Writer::new(&mut d);
    let n = [w.add_name(b".data"), w.add_name(b"a long section name")];
    let y = w.reserve_symbol_index();
    let na = w.reserve_aux_file_name(fname);
    nd::ck(y == 0 && na as usize == (fl + 17) / 18 && w.symbol_count() == 1 + na as u32);
    w.reserve_file_header();
    w.reserve_section_headers(ns as u16);
    let mut at = 20 + 40 * ns as u64;
    let mut off = [(0u32, 0u32); 2];
    for i in 0..ns {
        off[i] = (w.reserve_section(len[i]), w.reserve_relocations(nr[i]));
        if len[i] != 0 { at = (at + 3) & !3; nd::ck_eq(off[i].0 as u64, at); at += len[i] as u64; } else { nd::ck(off[i].0 == 0); }
        if nr[i] != 0 { nd::ck_eq(off[i].1 as u64, at); at += 10 * nr[i] as u64; } else { nd::ck(off[i].1 == 0); }
        nd::ck_eq(w.reserved_len(), at);
    }
    let align = [0, 1, 2, 16][nd::below(4)];
    let custom = w.reserve(3, align) as u64;
    if align > 1 { at = (at + align - 1) & !(align - 1); }
    nd::ck_eq(custom, at);
    at += 3;
    let until = at + nd::below(2) as u64;
    w.reserve_until(until);
    nd::must(w.reserve_symtab_strtab());
    let total = w.reserved_len();
    let h = header();
    nd::must(w.write_file_header(h.clone()));
    let mut hs: [SectionHeader; 2] = Default::default();
    for i in 0..ns { hs[i] = section(n[i]); w.write_section_header(hs[i].clone()); }
    let mut rel = [[(0u32, 0u32, 0u16); 2]; 2];
    for i in 0..ns {
        if zero { w.write_section_zeroes(len[i]); } else { w.write_section(&bytes[..len[i]]); }
        if len[i] != 0 { nd::ck_eq(w.len(), off[i].0 as u64 + len[i] as u64); }
        w.write_relocations_count(nr[i]);
        for k in 0..nr[i] {
            rel[i][k] = (nd::u32(), nd::u32(), nd::u16());
            w.write_relocation(Relocation { virtual_address: rel[i][k].0, symbol: rel[i][k].1, typ: pe::RelocationType(rel[i][k].2) });
        }
    }
    w.write_align(align);
    nd::ck_eq(w.len(), custom);
    w.write(b"abc");
    w.pad_until(until);
    let ys = Symbol { number_of_aux_symbols: na, ..symbol(Name::Short(*b".file\0\0\0")) };
    w.write_symbol(ys.clone());
    w.write_aux_file_name(fname, na);
    w.write_strtab();
    nd::ck_eq(w.len(), total);
    drop(w);
    nd::ck_eq(d.len() as u64, total);
    let g = |o: usize, n| get(&d, o, n, false);
    nd::ck(g(0, 2) == h.machine.0 as u64 && g(2, 2) == ns as u64 && g(8, 4) == until && g(12, 4) == 1 + na as u64);
    let st = until as usize + 18 * (1 + na as usize);
    for i in 0..ns {
        is_section(&d, 20 + 40 * i, &hs[i]);
        nd::ck_bytes(section_name(&d, 20 + 40 * i, st), if i == 0 { b".data" } else { b"a long section name" });
        let o = off[i].0 as usize;
        for k in 0..len[i] { nd::ck(d[o + k] == if zero { 0 } else { bytes[k] }); }
        for k in 0..nr[i] { let o = off[i].1 as usize + 10 * k; let r = rel[i][k]; nd::ck(g(o, 4) == r.0 as u64 && g(o + 4, 4) == r.1 as u64 && g(o + 8, 2) == r.2 as u64); nd::reach(1); }
    }
    nd::ck_bytes(&d[custom as usize..custom as usize + 3], b"abc");
    for i in custom as usize + 3..until as usize { nd::ck(d[i] == 0); }
    let s = until as usize;
    nd::ck_bytes(&d[s..s + 8], b".file\0\0\0");
    is_symbol(&d, s, &ys);
    nd::ck_bytes(&d[s + 18..s + 18 + fl], fname);
    for i in s + 18 + fl..st { nd::ck(d[i] == 0); }
    nd::ck(st + 4 + 20 == d.len() && g(st, 4) == 24);
    if na > 1 { nd::reach(2); }
}

/// file name symbols around the largest number of auxiliary records, 255
/// @reach 1,2
fn c30_long_file_name() {
    let len = [4572, 4573, 4590, 4591, 4608, 4609, 10_000][nd::below(7)];
    let mut o = Object::new(BinaryFormat::Coff, Architecture::X86_64, Endianness::Little);
    o.add_file_symbol(Z[..len].to_vec());
    let r = o.write();
    nd::ck(r.is_ok() == (len <= 255 * 18));
    let Ok(d) = r else { nd::reach(1); return };
    let n = (len + 17) / 18;
    let sym = get(&d, 8, 4, false) as usize;
    nd::ck(get(&d, 12, 4, false) == 1 + n as u64 && d[sym + 17] as usize == n);
    for i in [0, 1, len - 1] { nd::ck(d[sym + 18 + i] == b'z'); }
    for i in sym + 18 + len..sym + 18 + 18 * n { nd::ck(d[i] == 0); }
    nd::ck_eq(d.len() as u64, (sym + 18 + 18 * n + 4) as u64);
    nd::reach(2);
}

/// more sections than the format can number
/// @reach 1
/// @args --path-instrs 1000000000
fn c30_too_many_sections() {
    let mut o = Object::new(BinaryFormat::Coff, Architecture::X86_64, Endianness::Little);
    let n = 0xfeff + nd::below(2);
    for _ in 0..n { o.add_section(Vec::new(), Vec::new(), SectionKind::Data); }
    let r = o.write();
    nd::ck(r.is_ok() == (n <= 0xfeff));
    if let Ok(d) = r { nd::ck_eq(get(&d, 2, 2, false), n as u64); }
    nd::reach(1);
}
}
