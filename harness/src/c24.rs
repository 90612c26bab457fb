//! Symbol maps and relocation maps.
use crate::{harnesses, img, nd};
use img::{E, M};
use nd::Buf;
use object::read::coff::{CoffFile, CoffHeader, Symbol as _};
use object::read::elf::{ElfFile, FileHeader, Sym as _};
use object::read::macho::{MachHeader, MachOFile, Nlist as _};
use object::read::xcoff::XcoffFile64;
use object::read::*;
use object::{elf, macho, Endianness, SymbolFlags};

/// lookups in a map of `n` entries
fn lookup(n: usize) {
    let names = ["a", "b", "c", "d"];
    let e: Vec<(u64, u64)> = (0..n).map(|_| (nd::u64(), nd::u64())).collect();
    let q = nd::u64();
    let mut o: Vec<u64> = e.iter().map(|e| e.0).collect();
    o.push(q);
    nd::order(&o);
    let m = SymbolMap::new((0..n).map(|i| SymbolMapName::new(e[i].0, e[i].1, names[i])).collect());
    let s = m.symbols();
    nd::ck_eq(s.len() as u64, n as u64);
    let mut seen = 0;
    for i in 0..n {
        let k = (s[i].name().as_bytes()[0] - b'a') as usize;
        seen |= 1 << k;
        nd::ck_eq(s[i].address(), e[k].0);
        nd::ck_eq(s[i].size(), e[k].1);
        if i > 0 { nd::ck(s[i - 1].address() <= s[i].address()); }
    }
    nd::ck_eq(seen, (1 << n) - 1);
    let b = m.before(q);
    nd::ck(b.is_some() == (0..n).fold(false, |r, i| r | (e[i].0 <= q)));
    if let Some(b) = b {
        nd::reach(1);
        nd::ck(b.address() <= q);
        for i in 0..n { nd::ck(!(e[i].0 > b.address() && e[i].0 <= q)); }
    }
    let c = m.containing(q);
    let holds = |a: u64, z: u64| z == 0 || q - a < z;
    if let Some(c) = c {
        nd::reach(2);
        let b = nd::some(b);
        nd::ck(c.address() == b.address() && c.size() == b.size());
        nd::ck(holds(c.address(), c.size()));
    } else if let Some(b) = b {
        nd::ck(!holds(b.address(), b.size()));
        nd::reach(3);
    }
}

struct C<'d> { a: u64, z: u64, rank: u64, name: &'d str }
/// the map of a file, from what its symbols and sections say
fn ck_map<'d, O: Object<'d>>(f: &O) {
    let mut c: Vec<C<'d>> = Vec::new();
    let mut ends: Vec<u64> = f.sections().map(|s| s.address().saturating_add(s.size())).collect();
    let t = f.symbol_table().or_else(|| f.dynamic_symbol_table());
    let Some(t) = t else { nd::ck(f.symbol_map().symbols().is_empty()); return };
    let mut n = 0;
    for s in t.symbols() {
        if !s.is_definition() { continue; }
        let Ok(name) = s.name() else { continue };
        if name.is_empty() { continue; }
        let kind = match s.kind() { SymbolKind::Text | SymbolKind::Data => 0, SymbolKind::Unknown => 1, _ => continue };
        let (a, z) = (s.address(), s.size());
        let label = match s.flags() {
            SymbolFlags::Xcoff { x_smtyp, .. } => { if z != 0 { ends.push(a.saturating_add(z)); } (x_smtyp.0 & 7 != 2) as u64 }
            _ => 0,
        };
        let scope = match s.scope() { SymbolScope::Dynamic => 0, SymbolScope::Linkage => 1, SymbolScope::Compilation => 2, SymbolScope::Unknown => 3 };
        // kind, label, size, scope and then the last
        c.push(C { a, z, rank: (kind << 40) | (label << 39) | (((z == 0) as u64) << 38) | (scope << 36) | (1000 - n), name });
        n += 1;
    }
    let mut o: Vec<u64> = c.iter().map(|c| c.a).collect();
    o.extend_from_slice(&ends);
    nd::order(&o);
    for c in &c { nd::conc((c.z == 0) as u64); }
    let m = f.symbol_map();
    let e = m.symbols();
    let mut want = 0;
    for i in 0..c.len() {
        let mut best = true;
        let mut next = !0u64;
        let mut more = false;
        for j in 0..c.len() {
            best &= (c[j].a != c[i].a) | (c[j].rank >= c[i].rank);
            let after = c[j].a > c[i].a;
            more |= after;
            if after & (c[j].a < next) { next = c[j].a; }
        }
        for &x in &ends {
            let after = x > c[i].a;
            more |= after;
            if after & (x < next) { next = x; }
        }
        if !best { nd::reach(3); continue; }
        want += 1;
        let size = if c[i].z != 0 { c[i].z } else if more { next - c[i].a } else { 0 };
        let mut found = false;
        for x in e {
            if x.address() == c[i].a {
                nd::ck(!found);
                found = true;
                nd::ck_eq(x.size(), size);
                nd::ck_bytes(x.name().as_bytes(), c[i].name.as_bytes());
            }
        }
        nd::ck(found);
        nd::reach(1);
    }
    nd::ck_eq(e.len() as u64, want);
    for i in 1..e.len() { nd::ck(e[i - 1].address() < e[i].address()); }
    if want == 0 { nd::reach(2); }
}

/// low and high values
fn spread(w: usize) -> u64 { nd::u8() as u64 | (nd::u8() as u64) << (8 * w - 8) }
/// an ELF file of `n` symbols
fn elf_map<Elf: FileHeader<Endian = Endianness>>(l: E, n: usize, any: bool) {
    let mut b = Buf::<{ 64 * 5 + 24 * 4 + 8 }>::zero();
    l.ident(&mut b.0);
    l.set(&mut b.0, l.eh_type(), 2);
    l.set(&mut b.0, l.eh_machine(), if l.is64 { 62 } else { 3 });
    let sh = l.eh();
    l.sections(&mut b.0, sh as u64, 4, 3);
    let y = sh + 4 * l.sh();
    let st = y + (n + 1) * l.sym();
    b.0[st..st + 8].copy_from_slice(b"\0a\0b\0c\0\0");
    if any { b.0[st + 5] = img::pick(&[b'c' as u64, 0x80]) as u8; }
    let (s1, s2, s3) = (sh + l.sh(), sh + 2 * l.sh(), sh + 3 * l.sh());
    l.section(&mut b.0, s1, 0, 1, 0, 0);
    l.shset(&mut b.0, s1, 2, 6);
    l.shset(&mut b.0, s1, 3, if any { 48 } else { spread(l.w()) });
    l.shset(&mut b.0, s1, 5, if any { 16 } else { spread(l.w()) });
    l.shset(&mut b.0, s1, 1, 8);
    l.section(&mut b.0, s2, 0, if any { img::pick(&[2, 11]) } else { 2 }, y as u64, ((n + 1) * l.sym()) as u64);
    l.shset(&mut b.0, s2, 6, 3);
    l.shset(&mut b.0, s2, 9, l.sym() as u64);
    l.section(&mut b.0, s3, 0, 3, st as u64, 8);
    for i in 0..n {
        let o = y + (i + 1) * l.sym();
        l.symset(&mut b.0, o, 0, if any && i == 0 { img::pick(&[0, 1, 5]) } else { 1 + 2 * i as u64 });
        l.symset(&mut b.0, o, 1, if any { nd::u8() as u64 } else { 0x12 });
        l.symset(&mut b.0, o, 2, if any { nd::u8() as u64 & 3 } else { 0 });
        l.symset(&mut b.0, o, 3, if any { img::pick(&[1, 0, 0xfff1]) } else { 1 });
        l.symset(&mut b.0, o, 4, if any { img::pick(&[16, 32]) } else { spread(l.w()) });
        l.symset(&mut b.0, o, 5, if any { img::pick(&[0, 8]) } else { nd::u8() as u64 });
    }
    let f = nd::must(ElfFile::<Elf>::parse(&b.0[..st + 8]));
    ck_map(&f);
    if any {
        let (t, e) = (f.elf_symbol_table(), f.endian());
        let one = |y: &Elf::Sym| (y.st_value(e).into(), y.st_size(e).into());
        let want: Vec<_> = t.symbols().iter().map(|y| { let (a, z) = one(y); (y.is_definition(e, t.strings()), a, z) }).collect();
        nd::order(&want.iter().map(|w| w.1).collect::<Vec<_>>());
        ck_raw(&t.map(e, |y| { let (a, z) = one(y); Some(SymbolMapName::new(a, z, "")) }), &want);
        nd::ck(t.map(e, |_| None::<SymbolMapName>).symbols().is_empty());
    }
}
/// Mach-O symbols have no size
fn macho_map<Mach: MachHeader<Endian = Endianness>>(m: M) {
    let mut b = Buf::<320>::zero();
    let c = m.hdr();
    let z = m.segment(&mut b.0, c, 1);
    m.header(&mut b.0, 7 | (m.is64 as u64) << 24, 2, 2, (z + 24) as u64);
    m.segset(&mut b.0, c, 0, 0);
    m.segset(&mut b.0, c, 1, 0x1000);
    let s = c + m.seg();
    m.sectset(&mut b.0, s, 0, spread(m.w()));
    m.sectset(&mut b.0, s, 1, spread(m.w()));
    m.sectset(&mut b.0, s, 6, 1);
    let y = c + z + 24;
    let st = y + 3 * m.nlist();
    m.symtab(&mut b.0, c + z, y as u64, 3, st as u64, 8);
    b.0[st..st + 8].copy_from_slice(b"\0a\0b\0c\0\0");
    for i in 0..3 {
        let o = y + i * m.nlist();
        m.put(&mut b.0, o, 4, 1 + 2 * i as u64);
        b.0[o + 4] = img::pick(&[0xf, 0xe]) as u8;
        b.0[o + 5] = 1;
        m.put(&mut b.0, o + 8, m.w(), spread(m.w()));
    }
    ck_map(&nd::must(MachOFile::<Mach>::parse(&b.0[..st + 8])));
}
/// raw maps take any symbol
fn macho_raw<Mach: MachHeader<Endian = Endianness>>(m: M) {
    let mut b = Buf::<128>::zero();
    let c = m.hdr();
    m.header(&mut b.0, 7 | (m.is64 as u64) << 24, 1, 1, 24);
    let y = c + 24;
    let n = y + 2 * m.nlist();
    m.symtab(&mut b.0, c, y as u64, 2, n as u64, 0);
    nd::fill(&mut b.0[y..n]);
    let f = nd::must(MachOFile::<Mach>::parse(&b.0[..n]));
    let e = f.endian();
    let t = f.macho_symbol_table();
    let want: Vec<_> = t.iter().map(|y| (y.is_definition(), y.n_value(e).into(), y.n_desc(e).0 as u64)).collect();
    nd::ck_eq(want.len() as u64, 2);
    nd::order(&want.iter().map(|w| w.1).collect::<Vec<_>>());
    ck_raw(&t.map(|y| Some(SymbolMapName::new(y.n_value(e).into(), y.n_desc(e).0 as u64, ""))), &want);
    nd::reach(1);
}
fn coff_raw<C: CoffHeader>(big: bool) {
    let mut b = Buf::<{ 56 + 60 + 4 }>::zero();
    fn p(b: &mut [u8], o: usize, n: usize, v: u64) { img::put(b, o, n, v, false) }
    let (h, z) = if big { (56, 20) } else { (20, 18) };
    if big {
        p(&mut b.0, 2, 2, 0xffff); p(&mut b.0, 4, 2, 2); p(&mut b.0, 6, 2, 0x8664); p(&mut b.0, 48, 4, 56); p(&mut b.0, 52, 4, 3);
        b.0[12..28].copy_from_slice(&[0xc7, 0xa1, 0xba, 0xd1, 0xee, 0xba, 0xa9, 0x4b, 0xaf, 0x20, 0xfa, 0xf6, 0x6a, 0xa4, 0xdc, 0xb8]);
    } else {
        p(&mut b.0, 0, 2, 0x8664); p(&mut b.0, 8, 4, 20); p(&mut b.0, 12, 4, 3);
    }
    nd::fill(&mut b.0[h + 8..h + 3 * z]);
    for i in 0..3 { b.0[h + i * z + z - 1] = if i == 0 { img::pick(&[0, 1]) as u8 } else { 0 }; }
    p(&mut b.0, h + 3 * z, 4, 4);
    let f = nd::must(CoffFile::<&[u8], C>::parse(&b.0[..h + 3 * z + 4]));
    let t = f.coff_symbol_table();
    let one = |y: &C::Symbol| (y.value() as u64, y.typ().0 as u64);
    let want: Vec<_> = t.iter().map(|(_, y)| { let (a, n) = one(y); (y.is_definition(), a, n) }).collect();
    nd::order(&want.iter().map(|w| w.1).collect::<Vec<_>>());
    ck_raw(&t.map(|y| { let (a, n) = one(y); Some(SymbolMapName::new(a, n, "")) }), &want);
    // reserved sections define nothing, external and static symbols do
    let mut i = 0;
    for w in &want {
        let o = h + i * z;
        let sect = if big { img::get(&b.0, o + 12, 4, false) as i32 as i64 } else { let v = img::get(&b.0, o + 12, 2, false); if v > 0xfeff { v as i16 as i64 } else { v as i64 } };
        let (class, aux) = (b.0[o + z - 2], b.0[o + z - 1]);
        nd::ck(w.0 == (sect > 0 && (class == 2 || class == 0x69 || class == 3 && !(aux > 0 && w.2 == 0))));
        i += 1 + aux as usize;
    }
    nd::reach(1);
}
/// csects and labels
fn xcoff_map() {
    let mut b = Buf::<{ 24 + 72 + 36 * 3 + 10 }>::zero();
    fn p(b: &mut [u8], o: usize, n: usize, v: u64) { img::put(b, o, n, v, true) }
    let y = 24 + 72;
    for (o, n, v) in [(0, 2, 0x1f7), (2, 2, 1), (8, 8, y as u64), (20, 4, 6), (24 + 64, 4, 0x20)] { p(&mut b.0, o, n, v); }
    p(&mut b.0, 24 + 16, 8, nd::u8() as u64);
    p(&mut b.0, 24 + 24, 8, nd::u8() as u64);
    let n = nd::tier(2, 3);
    p(&mut b.0, 20, 4, 2 * n as u64);
    p(&mut b.0, y + 36 * n, 4, 10);
    b.0[y + 36 * n + 4..y + 36 * n + 10].copy_from_slice(b"a\0b\0c\0");
    for i in 0..n {
        let o = y + 36 * i;
        p(&mut b.0, o, 8, nd::u8() as u64);
        p(&mut b.0, o + 8, 4, 4 + 2 * i as u64);
        p(&mut b.0, o + 12, 2, 1);
        b.0[o + 16] = img::pick(&[2, 107]) as u8;
        b.0[o + 17] = 1;
        p(&mut b.0, o + 18, 4, nd::u8() as u64);
        b.0[o + 28] = img::pick(&[1, 2]) as u8;
        b.0[o + 35] = 251;
    }
    ck_map(&nd::must(XcoffFile64::<&[u8]>::parse(&b.0[..])));
}

/// the raw map keeps the entries which define something, by address
fn ck_raw<'d>(m: &SymbolMap<SymbolMapName<'d>>, want: &[(bool, u64, u64)]) {
    let e = m.symbols();
    let mut n = 0;
    for w in want {
        if nd::conc(w.0 as u64) == 0 { continue; }
        n += 1;
        let mut found = false;
        for x in e { found |= x.address() == w.1 && x.size() == w.2; }
        nd::ck(found);
    }
    nd::ck_eq(e.len() as u64, n);
    for i in 1..e.len() { nd::ck(e[i - 1].address() <= e[i].address()); }
}

/// the relocation map of a section, from what its relocations say
fn ck_relocs<'d, O: Object<'d>>(f: &O, i: usize) {
    let s = nd::must(f.section_by_index(SectionIndex(i)));
    let mut ok = true;
    let mut want: Vec<(u64, bool, u64)> = Vec::new();
    for (off, r) in s.relocations() {
        if r.kind() == RelocationKind::None { continue; }
        let base = match r.target() {
            RelocationTarget::Symbol(y) => match f.symbol_by_index(y) { Ok(y) => y.address(), Err(_) => { ok = false; 0 } },
            RelocationTarget::Section(y) => match f.section_by_index(y) { Ok(y) => if y.kind() == SectionKind::Debug { 0 } else { y.address() }, Err(_) => { ok = false; 0 } },
            _ => { ok = false; 0 }
        };
        ok &= r.kind() == RelocationKind::Absolute && r.encoding() == RelocationEncoding::Generic;
        for w in &want { if w.0 == off { ok = false; } }
        want.push((off, r.has_implicit_addend(), base.wrapping_add(r.addend() as u64)));
    }
    let m = s.relocation_map();
    nd::ck(m.is_ok() == ok);
    let Ok(m) = m else { nd::reach(1); return };
    let (q, v) = (nd::u64(), nd::u64());
    let mut exp = v;
    for w in &want {
        let x = if w.1 { v.wrapping_add(w.2) } else { w.2 };
        nd::ck_eq(m.relocate(w.0, v), x);
        if w.0 == q { exp = x; }
    }
    nd::ck_eq(m.relocate(q, v), exp);
    nd::reach(2);
}
fn coff_relocs() {
    let mut b = Buf::<{ 20 + 40 + 20 + 36 + 4 }>::zero();
    fn p(b: &mut [u8], o: usize, n: usize, v: u64) { img::put(b, o, n, v, false) }
    let (r, y) = (60, 80);
    for (o, n, v) in [(0, 2, 0x8664), (2, 2, 1), (8, 4, y), (12, 4, 2), (44, 4, r), (52, 2, 2)] { p(&mut b.0, o, n, v); }
    p(&mut b.0, 32, 4, nd::u32() as u64);
    for i in 0..2 {
        let o = r as usize + 10 * i;
        p(&mut b.0, o, 4, nd::u32() as u64);
        p(&mut b.0, o + 4, 4, img::pick(&[0, 1, 2]));
        p(&mut b.0, o + 8, 2, img::pick(&[0, 1, 2, 3]));
        let s = y as usize + 18 * i;
        p(&mut b.0, s + 8, 4, nd::u32() as u64);
        p(&mut b.0, s + 12, 2, img::pick(&[1, 0, 0xffff]));
        b.0[s + 16] = 2;
    }
    p(&mut b.0, 116, 4, 4);
    ck_relocs(&nd::must(CoffFile::<&[u8]>::parse(&b.0[..])), 1);
}
fn macho_relocs<Mach: MachHeader<Endian = Endianness>>(m: M, paired: bool) {
    let mut b = Buf::<400>::zero();
    let c = m.hdr();
    let z = m.segment(&mut b.0, c, 2);
    // explicit addends are for ARM
    m.header(&mut b.0, if paired { 12 } else { 7 } | (m.is64 as u64) << 24, 1, 2, (z + 24) as u64);
    let (s, t) = (c + m.seg(), c + m.seg() + m.sect());
    m.sectset(&mut b.0, s, 0, nd::u64());
    b.0[s + 16..s + 23].copy_from_slice(if nd::flag() { b"__DWARF" } else { b"__DATA\0" });
    m.sectset(&mut b.0, s, 6, 0x0200_0000);
    m.sectset(&mut b.0, t, 0, nd::u64());
    let y = c + z + 24;
    let st = y + m.nlist();
    let r = st + 2;
    m.sectset(&mut b.0, s, 4, r as u64);
    m.sectset(&mut b.0, s, 5, 2);
    m.symtab(&mut b.0, c + z, y as u64, 1, st as u64, 2);
    m.put(&mut b.0, y + 8, m.w(), nd::u64());
    b.0[y + 4] = 0xf;
    b.0[y + 5] = 1;
    for i in 0..2 {
        let o = r + 8 * i;
        m.put(&mut b.0, o, 4, nd::u32() as u64 & 0x7fff_ffff);
        if paired && i == 0 {
            let n = nd::u32() as u64 & 0xff_ffff;
            m.put(&mut b.0, o + 4, 4, if m.big { n << 8 | 2 << 5 | 10 } else { n | 2 << 25 | 10 << 28 });
            continue;
        }
        // section or symbol number, pc-relative, length, external, type
        let ext = nd::below(2) as u64;
        let n = if ext == 1 { img::pick(&[0, 1]) } else { img::pick(&[0, 1, 2, 3]) };
        let (pc, len, ty) = (nd::below(2) as u64, 2 + nd::below(2) as u64, nd::below(2) as u64);
        m.put(&mut b.0, o + 4, 4, if m.big { n << 8 | pc << 7 | len << 5 | ext << 4 | ty } else { n | pc << 24 | len << 25 | ext << 27 | ty << 28 });
    }
    ck_relocs(&nd::must(MachOFile::<Mach>::parse(&b.0[..r + 16])), 1);
}
fn elf_relocs<Elf: FileHeader<Endian = Endianness>>(l: E) {
    let mut b = Buf::<{ 64 * 6 + 24 * 5 }>::zero();
    l.ident(&mut b.0);
    l.set(&mut b.0, l.eh_type(), 1);
    l.set(&mut b.0, l.eh_machine(), if l.is64 { 62 } else { 3 });
    let sh = l.eh();
    l.sections(&mut b.0, sh as u64, 5, 4);
    let y = sh + 5 * l.sh();
    let r = y + 2 * l.sym();
    let rela = l.is64;
    let (w, z) = (l.w(), if rela { 3 * l.w() } else { 2 * l.w() });
    let (s1, s2, s3) = (sh + l.sh(), sh + 2 * l.sh(), sh + 3 * l.sh());
    l.section(&mut b.0, s1, 0, 1, 0, 0);
    l.section(&mut b.0, s2, 0, 2, y as u64, 2 * l.sym() as u64);
    l.shset(&mut b.0, s2, 9, l.sym() as u64);
    l.shset(&mut b.0, s2, 6, 4);
    l.section(&mut b.0, sh + 4 * l.sh(), 0, 3, 0, 0);
    l.section(&mut b.0, s3, 0, if rela { 4 } else { 9 }, r as u64, 2 * z as u64);
    l.shset(&mut b.0, s3, 6, 2);
    l.shset(&mut b.0, s3, 7, 1);
    l.symset(&mut b.0, y + l.sym(), 4, nd::u64() & l.wmask());
    for i in 0..2 {
        let o = r + i * z;
        l.put(&mut b.0, o, w, nd::u64() & l.wmask());
        let (y, t) = (img::pick(&[0, 1, 2]), img::pick(&[0, 1, 2, 11]));
        l.put(&mut b.0, o + w, w, if l.is64 { y << 32 | t } else { y << 8 | t });
        if rela { l.put(&mut b.0, o + 2 * w, w, nd::u64()); }
    }
    ck_relocs(&nd::must(ElfFile::<Elf>::parse(&b.0[..r + 2 * z])), 1);
}
macro_rules! elf { ($l:expr, $f:ident($($a:expr),*)) => { if $l.is64 { $f::<elf::FileHeader64<Endianness>>($($a),*) } else { $f::<elf::FileHeader32<Endianness>>($($a),*) } }; }
macro_rules! mach { ($l:expr, $f:ident($($a:expr),*)) => { if $l.is64 { $f::<macho::MachHeader64<Endianness>>($($a),*) } else { $f::<macho::MachHeader32<Endianness>>($($a),*) } }; }
fn two() -> E { let x = nd::flag(); E { is64: x, big: !x } }

harnesses! {
    /// three (four) entries
    /// @reach 1,2,3
    fn c24_lookup() { lookup(nd::tier(3, 4)); }
    /// two symbols, one section
    /// @reach 1,2,3
    fn c24_elf_choice() { let l = two(); elf!(l, elf_map(l, 2, true)); }
    /// two (three) symbols, one section
    /// @reach 1,3
    fn c24_elf_sizes() { let l = two(); elf!(l, elf_map(l, nd::tier(2, 3), false)); }
    /// three symbols, one section
    /// @reach 1,3
    fn c24_macho_map() { let m = M::two(); mach!(m, macho_map(m)); }
    /// two (three) csects or labels, one section
    /// @reach 1,3
    fn c24_xcoff_map() { xcoff_map(); }
    /// two arbitrary symbols
    /// @reach 1
    fn c24_macho_raw() { let m = M::two(); mach!(m, macho_raw(m)); }
    /// three arbitrary symbols or records
    /// @reach 1
    fn c24_coff_raw() { if nd::flag() { coff_raw::<object::pe::AnonObjectHeaderBigobj>(true) } else { coff_raw::<object::pe::ImageFileHeader>(false) } }
    /// two relocations, two symbols
    /// @reach 1,2
    fn c24_coff_relocs() { coff_relocs(); }
    /// two relocations, a symbol and two sections
    /// @reach 1,2
    fn c24_macho_relocs() { let m = M::two(); mach!(m, macho_relocs(m, false)); }
    /// a relocation with an arbitrary explicit addend, a symbol and two sections
    /// @reach 1,2
    fn c24_macho_addend() { let m = M { is64: true, big: nd::flag() }; mach!(m, macho_relocs(m, true)); }
    /// two relocations, two symbols
    /// @reach 1,2
    fn c24_elf_relocs() { let l = two(); elf!(l, elf_relocs(l)); }
}
