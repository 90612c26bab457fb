//! ELF symbol tables.
use crate::{harnesses, img::{self, E}, nd};
use nd::Buf;
use object::elf;
use object::read::elf::{ElfFile, FileHeader, Sym};
use object::read::{Object, ObjectSymbol, ObjectSymbolTable, SectionIndex, SymbolIndex, SymbolSection};
use object::{Endianness, SymbolFlags, SymbolKind, SymbolScope};

macro_rules! by_class {
    ($e:expr, $f:ident($($a:expr),*)) => {
        if $e.is64 { $f::<elf::FileHeader64<Endianness>>($($a),*) } else { $f::<elf::FileHeader32<Endianness>>($($a),*) }
    };
}

struct Img { sh: usize, sym: usize, x: usize, str: usize, n: usize }
/// sections: 1 symbol table (`nsym`), 2 string table (5 bytes), 3 section indices (`nx`)
fn image(l: E, b: &mut [u8], ty: u64, nsym: usize, nx: usize) -> Img {
    let sh = l.eh();
    let sym = (sh + 4 * l.sh() + 7) & !7;
    let x = sym + nsym * l.sym();
    let str = x + 4 * nx;
    let n = str + 5;
    l.ident(b);
    l.sections(b, sh as u64, 4, 2);
    l.section(b, sh + l.sh(), 0, ty, sym as u64, (nsym * l.sym()) as u64);
    l.shset(b, sh + l.sh(), 6, 2);
    l.section(b, sh + 2 * l.sh(), 0, 3, str as u64, 5);
    if nx > 0 {
        l.section(b, sh + 3 * l.sh(), 0, 18, x as u64, 4 * nx as u64);
        l.shset(b, sh + 3 * l.sh(), 6, 1);
    }
    Img { sh, sym, x, str, n }
}

fn one<Elf: FileHeader<Endian = Endianness>>(l: E, d: &[u8], m: &Img, dynamic: bool, nx: usize) {
    let f = nd::must(ElfFile::<Elf>::parse(d));
    let e = f.endian();
    let table = nd::some(if dynamic { f.dynamic_symbol_table() } else { f.symbol_table() });
    nd::ck(if dynamic { f.symbol_table().is_none() } else { f.dynamic_symbol_table().is_none() });
    let mut it = if dynamic { f.dynamic_symbols() } else { f.symbols() };
    let s = nd::some(it.next());
    nd::ck(it.next().is_none());
    nd::ck(s.index() == SymbolIndex(1));
    let t = nd::must(table.symbol_by_index(SymbolIndex(1)));
    nd::ck(t.index() == SymbolIndex(1) && t.elf_symbol() as *const _ as usize == s.elf_symbol() as *const _ as usize);
    nd::ck(s.elf_symbol() as *const _ as *const u8 as usize == d.as_ptr() as usize + m.sym + l.sym());
    let g = |i| l.symget(d, m.sym + l.sym(), i);
    let (info, other, shndx, value, size) = (g(1), g(2), g(3), g(4), g(5));
    let (bind, ty) = (info >> 4, info & 15);
    // raw fields
    let r = s.elf_symbol();
    nd::ck_eq(r.st_name(e) as u64, g(0));
    nd::ck_eq(r.st_info().0 as u64, info);
    nd::ck_eq(r.st_bind().0 as u64, bind);
    nd::ck_eq(r.st_type().0 as u64, ty);
    nd::ck_eq(r.st_other().0 as u64, other);
    nd::ck_eq(r.st_visibility().0 as u64, other & 3);
    nd::ck_eq(r.st_shndx(e).0 as u64, shndx);
    nd::ck_eq(r.st_value(e).into(), value);
    nd::ck_eq(r.st_size(e).into(), size);
    nd::ck(r.is_undefined(e) == (shndx == 0) && r.is_common(e) == (shndx == 0xfff2) && r.is_absolute(e) == (shndx == 0xfff1));
    nd::ck(r.is_local() == (bind == 0) && r.is_weak() == (bind == 2));
    // unified view
    nd::ck_eq(s.address(), if shndx == 0xfff2 { 0 } else { value });
    nd::ck_eq(s.size(), size);
    nd::ck(s.flags() == SymbolFlags::Elf { st_info: elf::SymbolInfo(info as u8), st_other: elf::SymbolOther(other as u8) });
    nd::ck(s.is_undefined() == (shndx == 0) && s.is_common() == (shndx == 0xfff2));
    nd::ck(s.is_local() == (bind == 0) && s.is_global() == (bind != 0) && s.is_weak() == (bind == 2));
    let x = if nx == 2 { Some(l.get(d, m.x + 4, 4)) } else { None };
    let want = match shndx {
        0 => SymbolSection::Undefined,
        0xfff1 => if ty == 4 { SymbolSection::None } else { SymbolSection::Absolute },
        0xfff2 => SymbolSection::Common,
        0xffff => match x { Some(0) => SymbolSection::None, Some(v) => SymbolSection::Section(SectionIndex(v as usize)), None => SymbolSection::Unknown },
        v if v >= 0xff00 => SymbolSection::Unknown,
        v => SymbolSection::Section(SectionIndex(v as usize)),
    };
    nd::ck(s.section() == want);
    nd::ck(s.section_index() == want.index());
    let raw = if dynamic { f.elf_dynamic_symbol_table() } else { f.elf_symbol_table() };
    nd::ck(raw.shndx(e, SymbolIndex(1)).map(|v| v as u64) == x);
    match raw.symbol_section(e, r, SymbolIndex(1)) {
        Ok(v) => {
            nd::ck(shndx != 0xffff || x.is_some());
            let w = if shndx == 0xffff { x.unwrap_or(0) } else if shndx >= 0xff00 { 0 } else { shndx };
            nd::ck(v == if w == 0 { None } else { Some(SectionIndex(w as usize)) });
        }
        Err(_) => { nd::ck(shndx == 0xffff && x.is_none()); }
    }
    nd::reach(1);
}

fn classify<Elf: FileHeader<Endian = Endianness>>(l: E, d: &[u8], m: &Img) {
    let f = nd::must(ElfFile::<Elf>::parse(d));
    let s = nd::some(f.symbols().next());
    let g = |i| l.symget(d, m.sym + l.sym(), i);
    let (info, other, shndx) = (g(1), g(2), g(3));
    let (bind, ty) = (info >> 4, info & 15);
    let k = match ty { 1 | 5 => SymbolKind::Data, 2 | 10 => SymbolKind::Text, 3 => SymbolKind::Section, 4 => SymbolKind::File, 6 => SymbolKind::Tls, _ => SymbolKind::Unknown };
    nd::ck(s.kind() == k);
    let sc = if shndx == 0 { SymbolScope::Unknown } else {
        match bind { 0 => SymbolScope::Compilation, 1 | 2 => if other & 3 == 2 { SymbolScope::Linkage } else { SymbolScope::Dynamic }, _ => SymbolScope::Unknown }
    };
    nd::ck(s.scope() == sc);
    let name = img::cstr(d, m.str as u64 + g(0), m.str as u64 + 5);
    let mapping = ty == 0 && bind == 0 && matches!(name, Some(n) if !n.is_empty() && n[0] == b'$');
    let special = shndx == 0 || (shndx >= 0xff00 && shndx != 0xffff);
    nd::ck(s.is_definition() == (!special && (ty == 0 || ty == 1 || ty == 2) && !mapping));
    nd::reach(1);
}

fn names<Elf: FileHeader<Endian = Endianness>>(l: E, d: &[u8], m: &Img, size: u64) {
    let f = nd::must(ElfFile::<Elf>::parse(d));
    let s = nd::some(f.symbols().next());
    let name = img::cstr(d, m.str as u64 + l.symget(d, m.sym + l.sym(), 0), m.str as u64 + size);
    match s.name_bytes() {
        Err(_) => { nd::ck(name.is_none()); nd::ck(s.name().is_err()); nd::reach(1); }
        Ok(n) => {
            nd::ck_bytes(n, nd::some(name));
            nd::reach(2);
            let mut ascii = true;
            for &c in n { ascii &= c < 0x80; }
            if ascii {
                let t = nd::must(s.name());
                nd::ck(t.len() == n.len() && t.as_ptr() == n.as_ptr());
                nd::ck(f.symbol_by_name_bytes(n).map(|s| s.index()) == Some(SymbolIndex(1)));
                nd::reach(3);
            }
        }
    }
}

fn table<Elf: FileHeader<Endian = Endianness>>(l: E, d: &[u8], m: &Img) {
    let r = ElfFile::<Elf>::parse(d);
    let sec = m.sh + l.sh();
    let (off, size, link) = (l.shget(d, sec, 4), l.shget(d, sec, 5), l.shget(d, sec, 6));
    // the index table is used only when linked to the symbol table
    let s3 = m.sh + 3 * l.sh();
    let linked = l.shget(d, s3, 6) == 1;
    let xs = l.shget(d, s3, 5);
    let ok = size % l.sym() as u64 == 0 && img::readable(off, size, d.len()) && (link == 0 || link == 2)
        && (!linked || xs % 4 == 0 && img::readable(l.shget(d, s3, 4), xs, d.len()));
    nd::ck(r.is_ok() == ok);
    let Ok(f) = r else { nd::reach(1); return };
    let t = f.elf_symbol_table();
    let n = size / l.sym() as u64;
    nd::ck(t.section() == SectionIndex(1) && t.string_section() == SectionIndex(link as usize));
    nd::ck(t.shndx_section() == SectionIndex(if linked { 3 } else { 0 }));
    nd::ck_eq(t.len() as u64, n);
    nd::ck(t.is_empty() == (n == 0));
    let i = nd::u64();
    let s = t.symbol(SymbolIndex(i as usize));
    nd::ck(s.is_ok() == (i != 0 && i < n));
    if let Ok(s) = s { nd::ck(s as *const _ as *const u8 as usize == d.as_ptr() as usize + off as usize + i as usize * l.sym()); nd::reach(2); }
    nd::ck(f.symbol_by_index(SymbolIndex(i as usize)).is_ok() == (i != 0 && i < n));
    nd::ck(t.shndx(f.endian(), SymbolIndex(i as usize)).is_some() == (linked && i < xs / 4));
    // the same table by its section, and no table in any other section
    let k = nd::below(5);
    let y = f.elf_section_table().symbol_table_by_index(f.endian(), d, SectionIndex(k));
    nd::ck(y.is_ok() == (k == 1));
    if let Ok(y) = y { nd::ck(y.len() == t.len() && y.section() == t.section() && y.string_section() == t.string_section() && y.shndx_section() == t.shndx_section()); nd::reach(3); }
    let mut k = 1;
    for s in f.symbols() { nd::ck(s.index() == SymbolIndex(k)); k += 1; }
    nd::ck_eq(k as u64, if n == 0 { 1 } else { n });
    nd::ck_eq(t.enumerate().count() as u64, n);
    nd::ck(f.dynamic_symbols().next().is_none());
    let t = f.elf_dynamic_symbol_table();
    nd::ck(t.is_empty() && t.section() == SectionIndex(0) && t.string_section() == SectionIndex(0) && t.shndx_section() == SectionIndex(0));
}

harnesses! {
/// one symbol with arbitrary contents in .symtab or .dynsym, with and without an extended section index table (arbitrary contents): raw fields and unified view; both classes and byte orders
/// @reach 1
fn c07_symbol() {
    let l = E::any();
    let dynamic = nd::flag();
    let nx = if dynamic { 0 } else { img::pick(&[0, 1, 2]) as usize };
    let mut b = Buf::<500>::zero();
    let m = image(l, &mut b[..], if dynamic { 11 } else { 2 }, 2, nx);
    nd::fill(&mut b[m.sym + l.sym()..m.str]);
    by_class!(l, one(l, &b[..m.n], &m, dynamic, nx))
}

/// kind, scope and definition status for any symbol contents, name offset 0..6, arbitrary 4-byte string table contents
/// @reach 1
fn c07_classify() {
    let l = E::any();
    let mut b = Buf::<500>::zero();
    let m = image(l, &mut b[..], 2, 2, 0);
    nd::fill(&mut b[m.sym + l.sym()..m.str]);
    nd::fill(&mut b[m.str + 1..m.str + 2]);
    l.symset(&mut b[..], m.sym + l.sym(), 0, nd::below(7) as u64);
    by_class!(l, classify(l, &b[..m.n], &m))
}

/// symbol names: any name offset, string table of 0..5 bytes with arbitrary contents; UTF-8 view and lookup by name for ASCII names
/// @reach 1,2,3
fn c07_names() {
    let l = E::any();
    let mut b = Buf::<500>::zero();
    let m = image(l, &mut b[..], 2, 2, 0);
    nd::fill(&mut b[m.str + 1..m.n]);
    let z = nd::below(6) as u64;
    l.shset(&mut b[..], m.sh + 2 * l.sh(), 5, z);
    l.symset(&mut b[..], m.sym + l.sym(), 0, nd::u32() as u64);
    by_class!(l, names(l, &b[..m.n], &m, z))
}

/// symbol table of 3 entries whose section offset is in or out of bounds, size any, link and index table link any of 0..5 or u32::MAX, index table size any: acceptance, length, lookup of any index
/// @reach 1,2,3
fn c07_table() {
    let l = E::any();
    let mut b = Buf::<500>::zero();
    let m = image(l, &mut b[..], 2, 3, 2);
    let sec = m.sh + l.sh();
    l.shset(&mut b[..], sec, 4, m.sym as u64 + img::pick(&[0, 8, 1000]));
    match nd::below(3) {
        0 => { l.shset(&mut b[..], sec, 5, nd::u64() & l.wmask()); }
        1 => { l.shset(&mut b[..], sec, 6, img::pick(&[0, 1, 2, 3, 4, 5, 0xffff_ffff])); }
        _ => {
            let s3 = m.sh + 3 * l.sh();
            l.shset(&mut b[..], s3, 6, img::pick(&[0, 1, 2]));
            l.shset(&mut b[..], s3, 4, m.x as u64 + img::pick(&[0, 4, 1000]));
            l.shset(&mut b[..], s3, 5, nd::u64() & l.wmask());
        }
    }
    by_class!(l, table(l, &b[..m.n], &m))
}
}
