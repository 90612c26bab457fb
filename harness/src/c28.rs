//! `build::elf::Builder`: what it writes, what it keeps of a file it reads, and its layout helpers.
use crate::elfout::{rel_bytes, string, symtab, sysv_find, word};
use crate::img::E;
use crate::{harnesses, img, nd};
use object::build::elf::*;
use object::build::{ByteString, Id};
use object::elf;
use object::write::elf::{Rel, Sym};
use object::Endianness;

fn new(e: E) -> Builder<'static> {
    let mut b = Builder::new(if e.big { Endianness::Big } else { Endianness::Little }, e.is64);
    b.header = Header { os_abi: elf::OsAbi(nd::u8()), abi_version: nd::u8(), e_type: elf::FileType(nd::u16()), e_machine: elf::Machine(nd::u16()), e_entry: word(e, nd::u64()), e_flags: elf::FileFlags(nd::u32()), e_phoff: 0 };
    nd::assume(b.header.e_machine.0 != 8);
    b
}
fn ck_header(e: E, d: &[u8], h: &Header, n: u64, shstrndx: u64) {
    let g = |f| e.rd(d, f);
    nd::ck(d[..4] == *b"\x7fELF" && d[4] == 1 + e.is64 as u8 && d[5] == 1 + e.big as u8 && d[6] == 1 && d[7] == h.os_abi.0 && d[8] == h.abi_version);
    nd::ck(g(e.eh_type()) == h.e_type.0 as u64 && g(e.eh_machine()) == h.e_machine.0 as u64 && g(e.eh_flags()) == h.e_flags.0 as u64 && g(e.eh_entry()) == h.e_entry);
    nd::ck_eq(g(e.eh_shnum()), n);
    nd::ck_eq(g(e.eh_shstrndx()), shstrndx);
}
/// a section the file must have
struct W<'a> { name: &'a [u8], ty: u64, flags: u64, addr: u64, link: u64, info: u64, align: u64, entsize: u64, data: Result<Vec<u8>, u64> }
/// section headers, names and contents; sections take no file space in common
fn ck_sections(e: E, d: &[u8], names: usize, want: &[W<'_>]) {
    let at = nd::conc(e.rd(d, e.eh_shoff())) as usize;
    let n = want.len() + 1;
    nd::ck(at % e.w() == 0 && at + n * e.sh() == d.len());
    for i in 0..10 { nd::ck_eq(e.shget(d, at, i), 0); }
    let str = nd::conc(e.shget(d, at + names * e.sh(), 4)) as usize;
    let mut used = vec![(0, e.eh() + e.rd(d, e.eh_phnum()) as usize * e.ph()), (at, d.len())];
    for (i, w) in want.iter().enumerate() {
        let s = at + (i + 1) * e.sh();
        string(d, str, e.shget(d, s, 0), w.name);
        for (k, v) in [(1, w.ty), (2, w.flags), (3, word(e, w.addr)), (6, w.link), (7, w.info), (8, w.align), (9, w.entsize)] { nd::ck_eq(e.shget(d, s, k), v); }
        match &w.data {
            Err(size) => nd::ck_eq(e.shget(d, s, 5), word(e, *size)),
            Ok(x) => {
                let (o, n) = (nd::conc(e.shget(d, s, 4)) as usize, nd::conc(e.shget(d, s, 5)) as usize);
                nd::ck(w.align == 0 || o % w.align as usize == 0);
                if i + 1 != names { nd::ck_bytes(&d[o..o + n], x); }
                for (a, b) in &used { nd::ck(o + n <= *a || o >= *b); }
                used.push((o, o + n));
            }
        }
    }
}
const NAMES: [&[u8]; 3] = [b"xab", b"ab", b"q"];
/// a relocatable file, read and written again with some sections and symbols deleted
fn object(nsym: usize, nrel: usize, del: &[u64]) {
    let e = E::any();
    let (is, rela) = (e.sym(), nrel != 0 && nd::flag());
    let del = img::pick(del) as usize;
    let info_link = nrel == 0 || nd::flag();
    let mut syms: Vec<Sym> = (0..nsym).map(|_| Sym {
        section: match nd::below(3) { 0 => None, k => Some([1, 3][k - 1]) }, st_name: 0, st_info: elf::SymbolInfo(nd::u8()), st_other: elf::SymbolOther(nd::u8()),
        st_shndx: elf::SymbolSection(0), st_value: nd::u64(), st_size: nd::u64(),
    }).collect();
    for s in &mut syms { if s.section.is_none() && nd::flag() { s.st_shndx.0 = 0xfff1; } }
    for s in &mut syms { if nd::flag() { nd::assume(s.st_info.0 >> 4 == 0); } else { nd::assume(s.st_info.0 >> 4 != 0); } }
    let mut rels: Vec<Rel> = (0..nrel).map(|_| Rel { r_offset: nd::u64(), r_sym: nd::below(nsym + 1) as u32, r_type: elf::RelocationType(nd::u32()), r_addend: nd::u64() as i64 }).collect();
    if !e.is64 { for r in &rels { nd::assume(r.r_type.0 < 256); } }
    let text: [u8; 5] = nd::bytes();
    let note: [u8; 3] = nd::bytes();
    let (bss, addr) = (nd::u32() as u64, word(e, nd::u64()));
    let text_align = if rela { 0 } else { 4 };
    let rel_ty = if rela { 4 } else { 9 };
    let rel_flags = if info_link { 0x40 } else { 0 };
    let strtab = b"\0xab\0q\0".to_vec();
    let offs = [1, 2, 5];
    let (sd, _) = symtab(e, &syms, &offs[..nsym]);
    let rd = rel_bytes(e, rela, &rels);
    let (relent, w) = (e.w() as u64 * (2 + rela as u64), e.w() as u64);
    let shstr = b"\0.text\0.rel\0.bss\0.note\0.symtab\0.strtab\0.shstrtab\0".to_vec();
    let nm: [&[u8]; 7] = [b".text", b".rel", b".bss", b".note", b".symtab", b".strtab", b".shstrtab"];
    let x = |i: usize, ty, flags, addr, link, info, align, entsize, data| W { name: nm[i], ty, flags, addr, link, info, align, entsize, data };
    let (sa, sb, sz) = (nd::u64() & 0xffff_ffff, nd::u32() as u64, nd::u32() as u64 & 0xff);
    // the file read
    let mut want = vec![
        x(0, 1, 6, addr, 0, sb, text_align, sz, Ok(text.to_vec())), x(1, rel_ty, rel_flags, 0, 5, 1, w, relent, Ok(rd)), x(2, 8, 3, addr, 0, 0, 16, 0, Err(bss)),
        x(3, 7, 0, 0, 0, 0, 1, sa & 0xff, Ok(note.to_vec())), x(4, 2, 0, 0, 6, 1, w, is as u64, Ok(sd)), x(5, 3, 0, 0, 0, 0, 1, 0, Ok(strtab)), x(6, 3, 0, 0, 0, 0, 1, 0, Ok(shstr)),
    ];
    let mut d = vec![0; e.eh()];
    let h = new(e).header;
    e.ident(&mut d);
    d[7] = h.os_abi.0;
    d[8] = h.abi_version;
    for (f, v) in [(e.eh_type(), h.e_type.0 as u64), (e.eh_machine(), h.e_machine.0 as u64), (e.eh_entry(), h.e_entry), (e.eh_flags(), h.e_flags.0 as u64)] { e.set(&mut d, f, v); }
    let mut hd = vec![0; e.sh()];
    let mut name = 1;
    for w in &want {
        let mut s = vec![0; e.sh()];
        let size = match &w.data { Ok(x) => x.len() as u64, Err(n) => *n };
        for (k, v) in [name, w.ty, w.flags, w.addr, d.len() as u64, size, w.link, w.info, w.align, w.entsize].into_iter().enumerate() { e.shset(&mut s, 0, k, v); }
        name += w.name.len() as u64 + 1;
        if let Ok(x) = &w.data { d.extend_from_slice(x); }
        hd.extend_from_slice(&s);
    }
    let off = d.len() as u64;
    e.sections(&mut d, off, 8, 7);
    d.extend_from_slice(&hd);
    let mut b = nd::must(if info_link { Builder::read(&d[..]) } else if e.is64 { Builder::read64(&d[..]) } else { Builder::read32(&d[..]) });
    nd::ck(b.sections.count() == 7 && b.symbols.count() == nsym && b.segments.is_empty() && b.dynamic_symbols.is_empty());
    // delete
    let dead_sym = nd::below(nsym + 1);
    if let Some(s) = b.sections.iter_mut().nth(del.wrapping_sub(1)) { s.delete = true; }
    if let Some(s) = b.symbols.iter_mut().nth(dead_sym.wrapping_sub(1)) { s.delete = true; }
    let mut o = Vec::new();
    let r = b.write(&mut o);
    // an info link to a deleted section is refused
    if del == 1 && info_link { nd::ck(r.is_err()); nd::reach(2); return; }
    nd::must(r);
    let map = |s: u64| if s == 0 { 0 } else { s - (del != 0 && s > del as u64) as u64 };
    // the symbols left, local ones first
    let live = |i: usize| i + 1 != dead_sym && syms[i].section != Some(del as u32);
    let mut order: Vec<usize> = (0..nsym).filter(|i| live(*i) && syms[*i].st_info.0 >> 4 == 0).collect();
    let locals = order.len();
    order.extend((0..nsym).filter(|i| live(*i) && syms[*i].st_info.0 >> 4 != 0));
    rels.retain(|r| r.r_sym == 0 || live(r.r_sym as usize - 1));
    for r in &mut rels { if r.r_sym != 0 { r.r_sym = 1 + order.iter().position(|i| *i == r.r_sym as usize - 1).unwrap() as u32; } }
    want[1].data = Ok(rel_bytes(e, rela, &rels));
    let str = {
        let at = nd::conc(e.rd(&o, e.eh_shoff())) as usize + map(6) as usize * e.sh();
        let (a, n) = (nd::conc(e.shget(&o, at, 4)) as usize, nd::conc(e.shget(&o, at, 5)) as usize);
        want[5].data = Ok(o[a..a + n].to_vec());
        a
    };
    let at = nd::conc(e.rd(&o, e.eh_shoff())) as usize + map(5) as usize * e.sh();
    let at = nd::conc(e.shget(&o, at, 4)) as usize;
    let names: Vec<u32> = (0..order.len()).map(|i| e.symget(&o, at + is * (i + 1), 0) as u32).collect();
    for (i, k) in order.iter().enumerate() { string(&o, str, names[i] as u64, NAMES[*k]); nd::ck(names[i] != 0); }
    let kept: Vec<Sym> = order.iter().map(|i| Sym { section: syms[*i].section.map(|s| map(s as u64) as u32), ..syms[*i].clone() }).collect();
    want[4].data = Ok(symtab(e, &kept, &names).0);
    want[4].info = 1 + locals as u64;
    for w in &mut want { w.link = map(w.link); }
    if info_link { want[1].info = map(1); }
    if del != 0 { want.remove(del - 1); }
    want.iter_mut().for_each(|w| if w.flags & 2 == 0 { w.addr = 0; });
    ck_header(e, &o, &h, want.len() as u64 + 1, want.len() as u64);
    nd::ck(e.rd(&o, e.eh_phnum()) == 0 && e.rd(&o, e.eh_phoff()) == 0);
    ck_sections(e, &o, want.len(), &want);
    nd::reach(1);
}

fn sect(b: &mut Builder<'static>, name: &'static str, ty: u32, flags: u64, align: u64, data: SectionData<'static>) -> SectionId {
    let s = b.sections.add();
    s.name = name.into();
    s.sh_type = elf::SectionType(ty);
    s.sh_flags = elf::SectionFlags(flags);
    s.sh_addralign = align;
    s.data = data;
    s.id()
}
fn bs(s: &'static str) -> ByteString<'static> { s.into() }

/// the dynamic symbols that may be present: name, local, section (0 undefined, 1 .data, 2 absolute)
const SYMS: [(&str, bool, u8); 5] = [("local", true, 1), ("def_a", false, 1), ("und", false, 0), ("def_b", false, 2), ("", false, 1)];
fn sysv(n: &[u8]) -> u32 {
    let mut h = 0u32;
    for c in n { h = (h << 4).wrapping_add(*c as u32); let g = h & 0xf000_0000; h ^= g >> 24; h &= !g; }
    h
}
fn gnu(n: &[u8]) -> u32 { n.iter().fold(5381u32, |h, c| h.wrapping_mul(33).wrapping_add(*c as u32)) }
/// the contents of a written section: offset, size
fn at(e: E, d: &[u8], i: usize) -> (usize, usize) {
    let s = nd::conc(e.rd(d, e.eh_shoff())) as usize + i * e.sh();
    (nd::conc(e.shget(d, s, 4)) as usize, nd::conc(e.shget(d, s, 5)) as usize)
}
struct V { flags: u16, index: u16, names: Vec<&'static str> }
fn ck_verdef(e: E, d: &[u8], s: (usize, usize), str: usize, want: &[V], shared: bool) {
    let mut o = s.0;
    let mut size = 0;
    for (i, v) in want.iter().enumerate() {
        for (k, n, x) in [(0, 2, 1), (2, 2, v.flags as u64), (4, 2, v.index as u64), (6, 2, v.names.len() as u64), (8, 4, sysv(v.names[0].as_bytes()) as u64)] { nd::ck_eq(e.get(d, o + k, n), x); }
        let mut a = o + nd::conc(e.get(d, o + 12, 4)) as usize;
        size += 20;
        for (k, n) in v.names.iter().enumerate() {
            nd::ck(a + 8 <= s.0 + s.1);
            string(d, str, e.get(d, a, 4), n.as_bytes());
            let next = nd::conc(e.get(d, a + 4, 4)) as usize;
            nd::ck((next == 0) == (k + 1 == v.names.len()));
            a += next;
            size += 8;
        }
        let next = nd::conc(e.get(d, o + 16, 4)) as usize;
        nd::ck((next == 0) == (i + 1 == want.len()));
        o += next;
    }
    nd::ck_eq(s.1 as u64, size - if shared { 8 } else { 0 });
}
fn ck_verneed(e: E, d: &[u8], s: (usize, usize), str: usize, want: &[(&str, Vec<V>)]) {
    let mut o = s.0;
    let mut size = 0;
    for (i, (file, v)) in want.iter().enumerate() {
        nd::ck(e.get(d, o, 2) == 1 && e.get(d, o + 2, 2) == v.len() as u64);
        string(d, str, e.get(d, o + 4, 4), file.as_bytes());
        let mut a = o + nd::conc(e.get(d, o + 8, 4)) as usize;
        size += 16;
        for (k, v) in v.iter().enumerate() {
            for (k, n, x) in [(0, 4, sysv(v.names[0].as_bytes()) as u64), (4, 2, v.flags as u64), (6, 2, v.index as u64)] { nd::ck_eq(e.get(d, a + k, n), x); }
            string(d, str, e.get(d, a + 8, 4), v.names[0].as_bytes());
            let next = nd::conc(e.get(d, a + 12, 4)) as usize;
            nd::ck((next == 0) == (k + 1 == want[i].1.len()));
            a += next;
            size += 16;
        }
        let next = nd::conc(e.get(d, o + 12, 4)) as usize;
        nd::ck((next == 0) == (i + 1 == want.len()));
        o += next;
    }
    nd::ck_eq(s.1 as u64, size);
}
/// a linked file made with the API, laid out with the helpers and written
#[derive(Clone, Copy, PartialEq)]
enum K { Symbols, Versions, Relocs }
fn linked(kind: K) {
    let is64 = nd::flag();
    let e = E { is64, big: if nd::tier(0, 1) == 1 { nd::flag() } else { is64 == (kind == K::Symbols) } };
    let mut b = new(e);
    let w = e.w() as u64;
    let is = e.sym();
    b.header.e_phoff = b.file_header_size();
    nd::ck_eq(b.file_header_size(), e.eh() as u64);
    b.hash_bucket_count = if kind == K::Symbols { 1 + nd::below(2) as u32 } else { 2 };
    b.gnu_hash_bucket_count = if kind == K::Symbols { 1 + nd::below(2) as u32 } else { 2 };
    b.gnu_hash_bloom_count = 1;
    b.gnu_hash_bloom_shift = 6;
    // versions
    let vers = kind == K::Versions;
    let base = vers && nd::flag();
    let shared = base && nd::flag();
    let v1 = if shared { "base" } else { "V1" };
    let fl: [u16; 4] = core::array::from_fn(|_| nd::u16());
    nd::assume(fl[0] & 1 == 0 && fl[1] & 1 == 0);
    let f = |i: usize| elf::VersionFlags(fl[i]);
    let relr = vers && nd::flag();
    let g2 = if relr { "GLIBC_ABI_DT_RELR" } else { "G2" };
    if base { b.version_base = Some(bs("base")); }
    if vers {
        for (i, names) in [vec![bs(v1)], vec![bs("V2"), bs(v1)]].into_iter().enumerate() { let id = b.versions.add(VersionData::Def(VersionDef { names, flags: f(i) })); nd::ck_eq(id.index().0 as u64, 2 + i as u64); }
        let other = b.version_files.add(bs("other"));
        let libc = b.version_files.add(bs("libc"));
        for (i, file, name) in [(2, libc, "G1"), (3, libc, g2)] { b.versions.add(VersionData::Need(VersionNeed { file, name: bs(name), flags: f(i) })); }
        b.versions.add(VersionData::Need(VersionNeed { file: other, name: bs("O"), flags: f(0) }));
    }
    // segments
    let base_addr = if e.is64 { 0x7f12_3456_0000 } else { 0x40_0000 };
    nd::ck_eq(b.segments.add_load_segment(elf::PF_R, 0x1000).id().index() as u64, 0);
    let load = b.segments.iter().next().map(|s| s.id());
    let load = nd::some(load);
    b.segments.add().p_type = elf::PT_DYNAMIC;
    let head = e.eh() as u64 + 2 * e.ph() as u64;
    nd::ck_eq(b.program_headers_size(), 2 * e.ph() as u64);
    let s = b.segments.get_mut(load);
    (s.p_vaddr, s.p_paddr, s.p_filesz, s.p_memsz) = (base_addr, base_addr, head, head);
    // sections
    let (gh, vsym, vdef, vneed) = (0x6fff_fff6u32, 0x6fff_ffff, 0x6fff_fffd, 0x6fff_fffe);
    let data: [u8; 3] = nd::bytes();
    let rela = if vers { relr } else { nd::flag() };
    let mut ids = vec![
        sect(&mut b, ".dynsym", 11, 2, w, SectionData::DynamicSymbol), sect(&mut b, ".dynstr", 3, 2, 1, SectionData::DynamicString),
        sect(&mut b, ".hash", 5, 2, 4, SectionData::Hash), sect(&mut b, ".gnu.hash", gh, 2, w, SectionData::GnuHash),
        sect(&mut b, ".data", 1, 3, 2, SectionData::Data(data.to_vec().into())), 
    ];
    let dat = ids[4];
    if vers {
        ids.push(sect(&mut b, ".gnu.version", vsym, 2, 2, SectionData::GnuVersym));
        ids.push(sect(&mut b, ".gnu.version_d", vdef, 2, 4, SectionData::GnuVerdef));
        ids.push(sect(&mut b, ".gnu.version_r", vneed, 2, 4, SectionData::GnuVerneed));
    }
    // symbols
    let st: [(u64, u64, u8); 5] = core::array::from_fn(|_| (nd::u64(), nd::u64(), nd::u8()));
    let mut have = vec![];
    for (i, (name, local, sec)) in SYMS.into_iter().enumerate() {
        let here = match kind { K::Symbols => nd::flag(), K::Versions => (1..4).contains(&i), K::Relocs => i < 3 };
        if !here { continue; }
        let s = b.dynamic_symbols.add();
        s.name = bs(name);
        s.set_st_info(if local { elf::STB_LOCAL } else { elf::STB_GLOBAL }, elf::SymbolType(st[i].2 & 15));
        nd::ck(s.st_info.0 == (!local as u8) << 4 | st[i].2 & 15 && (s.st_bind() == elf::STB_LOCAL) == local && s.st_type().0 == st[i].2 & 15);
        s.st_other = elf::SymbolOther(st[i].2);
        (s.st_value, s.st_size) = (st[i].0, st[i].1);
        if sec == 1 { s.section = Some(dat); s.st_shndx = elf::SymbolSection(9); }
        if sec == 2 { s.st_shndx = elf::SHN_ABS; }
        have.push((i, s.id(), 1u16, false));
    }
    nd::ck_eq(b.dynamic_symbols.count_defined() as u64, have.iter().filter(|h| SYMS[h.0].2 != 0).count() as u64);
    if vers {
        for (i, id, v, hidden) in &mut have {
            let n = if *i == 2 { 5 } else { 4 };
            let k = if *i == 2 { [0, 1, 4, 5, 6][nd::below(n)] } else { nd::below(n) };
            let s = b.dynamic_symbols.get_mut(*id);
            s.version = match k { 0 => VersionId::local(), 1 => VersionId::global(), k => nd::some(b.versions.iter().nth(k - 2)).id() };
            nd::ck(s.version.is_special() == (k < 2));
            s.version_hidden = nd::bool();
            (*v, *hidden) = (k as u16, s.version_hidden);
        }
    }
    // relocations and dynamic entries
    let mut rels: Vec<Rel> = vec![];
    if kind == K::Relocs {
        for _ in 0..2 {
            let r = Rel { r_offset: nd::u64(), r_sym: nd::below(4) as u32, r_type: elf::RelocationType(nd::u8() as u32), r_addend: nd::u64() as i64 };
            rels.push(r);
        }
    }
    let list = rels.iter().map(|r| Relocation { r_offset: r.r_offset, symbol: if r.r_sym == 0 { None } else { Some(have[r.r_sym as usize - 1].1) }, r_type: r.r_type, r_addend: r.r_addend }).collect();
    let r = sect(&mut b, ".rela.dyn", if rela { 4 } else { 9 }, 2, w, SectionData::DynamicRelocation(list));
    let v = nd::u64();
    let mut dyns: Vec<_> = [6i64, 5, 10, 4, 0x6fff_fef5].into_iter().map(|t| Dynamic::Auto { tag: elf::DynamicTag(t) }).collect();
    if vers { dyns.extend([0x6fff_fff0i64, 0x6fff_fffc, 0x6fff_fffd, 0x6fff_fffe, 0x6fff_ffff].into_iter().map(|t| Dynamic::Auto { tag: elf::DynamicTag(t) })); }
    dyns.push(Dynamic::String { tag: elf::DT_NEEDED, val: bs("libc") });
    dyns.push(Dynamic::Integer { tag: elf::DT_FLAGS, val: word(e, v) });
    nd::ck(dyns[0].tag().0 == 6);
    let dy = sect(&mut b, ".dynamic", 6, 3, w, SectionData::Dynamic(dyns));
    let str = ids[1];
    { let s = b.sections.get_mut(dy); s.sh_link_section = Some(str); s.sh_entsize = 2 * w; }
    { let s = b.sections.get_mut(r); s.sh_link_section = Some(ids[0]); s.sh_entsize = w * (2 + rela as u64); }
    ids.extend([r, dy]);
    let bss = nd::u16() as u64;
    ids.push(sect(&mut b, ".bss", 8, 3, 16, SectionData::UninitializedData(bss)));
    sect(&mut b, ".shstrtab", 3, 0, 1, SectionData::SectionString);
    // deletions: a hash table, .data or a symbol
    let del = if kind == K::Relocs { nd::below(4) } else { 0 };
    if del != 0 { b.sections.get_mut(ids[[0, 2, 3, 4][del]]).delete = true; }
    let dead = if kind == K::Relocs { nd::below(4) } else { 0 };
    if dead != 0 { b.dynamic_symbols.get_mut(have[dead - 1].1).delete = true; }
    let gone = |i: usize| (del == 3 && SYMS[have[i].0].2 == 1) || i + 1 == dead;
    // layout
    b.delete_orphans();
    b.delete_unused_versions();
    b.set_section_sizes();
    let mut dynseg = None;
    for id in &ids {
        if b.sections.get(*id).delete { continue; }
        if *id == ids[ids.len() - 1] { let s = b.sections.get_mut(*id); s.sh_offset = 0; s.sh_addr = 0x1234; continue; }
        b.segments.get_mut(load).append_section(b.sections.get_mut(*id));
        if *id == dy { dynseg = b.segments.iter().nth(1).map(|s| s.id()); b.segments.get_mut(nd::some(dynseg)).append_section(b.sections.get_mut(*id)); }
    }
    nd::ck(b.dynamic_section() == Some(dy) && b.dynamic_data().is_some() && b.dynamic_data_mut().is_some() && b.interp_section().is_none() && b.interp_data().is_none() && b.interp_data_mut().is_none());
    // what the dynamic symbol table must hold
    let nb = b.gnu_hash_bucket_count;
    let (hnb, h) = (b.hash_bucket_count, Header { e_phoff: 0, ..Header::default() });
    let _ = h;
    let hashed = |i: usize| { let (n, l, s) = SYMS[have[i].0]; !l && s != 0 && !n.is_empty() };
    let key = |i: usize| if SYMS[have[i].0].1 { (0, 0) } else if del == 2 { (1, 0) } else if !hashed(i) { (1, 0) } else { (2, gnu(SYMS[have[i].0].0.as_bytes()) % nb) };
    let mut order: Vec<usize> = (0..have.len()).filter(|i| !gone(*i)).collect();
    order.sort_by_key(|i| key(*i));
    let locals = order.iter().filter(|i| SYMS[have[**i].0].1).count();
    let ns = order.len();
    let head_ = (b.header.os_abi, b.header.abi_version, b.header.e_type, b.header.e_machine, b.header.e_entry, b.header.e_flags);
    let h = Header { os_abi: head_.0, abi_version: head_.1, e_type: head_.2, e_machine: head_.3, e_entry: head_.4, e_flags: head_.5, e_phoff: 0 };
    let mut d = Vec::new();
    nd::must(b.write(&mut d));
    // where each section must be
    let lay: Vec<usize> = (0..ids.len()).filter(|i| del == 0 || *i != [0, 2, 3, 4][del]).collect();
    let new_ix = |i: usize| lay.iter().position(|k| *k == i).map_or(0, |p| p as u64 + 1);
    let n = lay.len() + 1;
    ck_header(e, &d, &h, n as u64 + 1, n as u64);
    nd::ck(e.rd(&d, e.eh_phnum()) == 2 && e.rd(&d, e.eh_phoff()) == e.eh() as u64);
    let str = at(e, &d, new_ix(1) as usize).0;
    // symbols
    let pos = at(e, &d, 1).0;
    let dsec = new_ix(4);
    for (k, i) in order.iter().enumerate() {
        let (j, ..) = have[*i];
        let (name, local, sec) = SYMS[j];
        let o = pos + is * (k + 1);
        let off = e.symget(&d, o, 0);
        if name.is_empty() { nd::ck(off == 0); } else { nd::ck(off != 0); string(&d, str, off, name.as_bytes()); }
        for (f, v) in [(1, ((!local as u64) << 4) | (st[j].2 & 15) as u64), (2, st[j].2 as u64), (3, [0, dsec, 0xfff1][sec as usize]), (4, word(e, st[j].0)), (5, word(e, st[j].1))] { nd::ck_eq(e.symget(&d, o, f), v); }
    }
    for f in 0..6 { nd::ck_eq(e.symget(&d, pos, f), 0); }
    // the other tables
    let nz = |i: usize| SYMS[have[order[i]].0].0;
    if del != 1 {
        let t = at(e, &d, new_ix(2) as usize);
        let x = &d[t.0..t.0 + t.1];
        nd::ck(t.1 == 8 + 4 * (hnb as usize + ns + 1) && e.get(x, 0, 4) == hnb as u64 && e.get(x, 4, 4) == ns as u64 + 1);
        for i in 0..ns { if !nz(i).is_empty() { nd::ck(sysv_find(e, x, hnb, ns as u32 + 1, sysv(nz(i).as_bytes()), i as u32 + 1)); } }
    }
    if del != 2 {
        let t = at(e, &d, new_ix(3) as usize);
        let first = order.iter().position(|i| hashed(*i)).unwrap_or(ns);
        let (bk, ch) = (16 + w as usize, 16 + w as usize + 4 * nb as usize);
        nd::ck_eq(t.1 as u64, (ch + 4 * (ns - first)) as u64);
        if first < ns { nd::ck_eq(e.get(&d, t.0 + 4, 4), 1 + first as u64); }
        let bits = 8 * w as u32;
        let mut bloom = 0u64;
        for i in first..ns {
            let x = gnu(nz(i).as_bytes());
            bloom |= 1 << (x % bits) | 1 << ((x >> 6) % bits);
            let last = i + 1 == ns || gnu(nz(i + 1).as_bytes()) % nb != x % nb;
            nd::ck_eq(e.get(&d, t.0 + ch + 4 * (i - first), 4), ((x & !1) | last as u32) as u64);
            if i == first || gnu(nz(i - 1).as_bytes()) % nb != x % nb { nd::ck_eq(e.get(&d, t.0 + bk + 4 * (x % nb) as usize, 4), 1 + i as u64); }
        }
        nd::ck_eq(e.get(&d, t.0 + 16, w as usize), bloom);
    }
    let mut nver = (0, 0);
    if vers {
        let t = at(e, &d, 6);
        nd::ck_eq(t.1 as u64, 2 * (ns as u64 + 1));
        nd::ck_eq(e.get(&d, t.0, 2), 0);
        for (k, i) in order.iter().enumerate() { nd::ck_eq(e.get(&d, t.0 + 2 * (k + 1), 2), have[*i].2 as u64 | (have[*i].3 as u64) << 15); }
        let used = |v: u16| have.iter().any(|h| h.2 == v);
        let mut defs = vec![];
        if base { defs.push(V { flags: 1, index: 1, names: vec!["base"] }); }
        if used(2) { defs.push(V { flags: fl[0], index: 2, names: vec![v1] }); }
        if used(3) { defs.push(V { flags: fl[1], index: 3, names: vec!["V2", v1] }); }
        ck_verdef(e, &d, at(e, &d, 7), str, &defs, shared && used(2));
        let mut needs = vec![];
        if used(6) { needs.push(("other", vec![V { flags: fl[0], index: 6, names: vec!["O"] }])); }
        let mut libc = vec![];
        if used(4) { libc.push(V { flags: fl[2], index: 4, names: vec!["G1"] }); }
        if used(5) || relr { libc.push(V { flags: fl[3], index: 5, names: vec![g2] }); }
        if !libc.is_empty() { needs.push(("libc", libc)); }
        ck_verneed(e, &d, at(e, &d, 8), str, &needs);
        nver = (defs.len() as u64, needs.len() as u64);
    }
    // relocations
    let k = ids.len() - 3;
    rels.retain(|r| r.r_sym == 0 || !gone(r.r_sym as usize - 1));
    for r in &mut rels { if r.r_sym != 0 { r.r_sym = 1 + order.iter().position(|i| *i == r.r_sym as usize - 1).unwrap() as u32; } }
    // dynamic entries
    let addr = |i: usize| base_addr + at(e, &d, new_ix(i) as usize).0 as u64;
    let strsz = at(e, &d, new_ix(1) as usize).1 as u64;
    let mut ent = vec![(6, addr(0)), (5, addr(1)), (10, strsz)];
    if del != 1 { ent.push((4, addr(2))); }
    if del != 2 { ent.push((0x6fff_fef5, addr(3))); }
    if vers { ent.extend([(0x6fff_fff0, addr(5)), (0x6fff_fffc, addr(6)), (0x6fff_fffd, nver.0), (0x6fff_fffe, addr(7)), (0x6fff_ffff, nver.1)]); }
    let t = at(e, &d, new_ix(k + 1) as usize);
    let needed = e.get(&d, t.0 + ent.len() * 2 * w as usize + w as usize, w as usize);
    string(&d, str, needed, b"libc");
    ent.extend([(1, needed), (30, word(e, v)), (0, 0)]);
    let mut dd = vec![0; ent.len() * 2 * w as usize];
    for (i, (t, v)) in ent.iter().enumerate() { e.put(&mut dd, 2 * i * w as usize, w as usize, *t); e.put(&mut dd, (2 * i + 1) * w as usize, w as usize, *v); }
    // every header, with the sections one after another
    let raw = |i: u64| { let t = at(e, &d, i as usize); Ok(d[t.0..t.0 + t.1].to_vec()) };
    let mut want = vec![];
    let mut end = head;
    for &i in &lay {
        let x = |name, ty: u32, flags, align, link, info, entsize, data| W { name, ty: ty as u64, flags, addr: 0, link, info, align, entsize, data };
        let me = new_ix(i);
        let mut s = match i {
            0 => x(&b".dynsym"[..], 11, 2, w, new_ix(1), 1 + locals as u64, is as u64, raw(me)),
            1 => x(b".dynstr", 3, 2, 1, 0, 0, 0, raw(me)),
            2 => x(b".hash", 5, 2, 4, 1, 0, 4, raw(me)),
            3 => x(b".gnu.hash", gh, 2, w, 1, 0, if e.is64 { 0 } else { 4 }, raw(me)),
            4 => x(b".data", 1, 3, 2, 0, 0, 0, Ok(data.to_vec())),
            _ if i == k => x(b".rela.dyn", if rela { 4 } else { 9 }, 2, w, 1, 0, w * (2 + rela as u64), Ok(rel_bytes(e, rela, &rels))),
            _ if i == k + 1 => x(b".dynamic", 6, 3, w, new_ix(1), 0, 2 * w, Ok(dd.clone())),
            _ if i == k + 2 => x(b".bss", 8, 3, 16, 0, 0, 0, Err(bss)),
            5 => x(b".gnu.version", vsym, 2, 2, 1, 0, 2, raw(me)),
            6 => x(b".gnu.version_d", vdef, 2, 4, new_ix(1), nver.0, 0, raw(me)),
            _ => x(b".gnu.version_r", vneed, 2, 4, new_ix(1), nver.1, 0, raw(me)),
        };
        if i == k + 2 { s.addr = 0x1234; } else {
            let t = at(e, &d, me as usize);
            end = (end + s.align - 1) / s.align * s.align;
            nd::ck_eq(t.0 as u64, end);
            s.addr = base_addr + end;
            end += t.1 as u64;
        }
        want.push(s);
    }
    want.push(W { name: b".shstrtab", ty: 3, flags: 0, addr: 0, link: 0, info: 0, align: 1, entsize: 0, data: raw(n as u64) });
    ck_sections(e, &d, n, &want);
    // program headers
    let dt = at(e, &d, new_ix(k + 1) as usize);
    for (i, s) in [[1, 4, 0, base_addr, base_addr, end, end, 0x1000], [2, 0, dt.0 as u64, base_addr + dt.0 as u64, base_addr + dt.0 as u64, dt.1 as u64, dt.1 as u64, 0]].into_iter().enumerate() {
        for (f, v) in s.into_iter().enumerate() { nd::ck_eq(e.phget(&d, e.eh() + i * e.ph(), f), v); }
    }
    nd::reach(1);
    if !vers {
        // reading it back and writing it gives the same file
        let c = nd::must(Builder::read(&d[..]));
        nd::ck(c.load_align == 0x1000 && c.hash_bucket_count == if del == 1 { 0 } else { hnb } && c.gnu_hash_bucket_count == if del == 2 { 0 } else { nb });
        let mut o = Vec::new();
        nd::must(c.write(&mut o));
        nd::ck_bytes(&o, &d);
    } else {
        let c = nd::must(Builder::read(&d[..]));
        nd::ck(c.version_base.is_some() == base);
        for (k, i) in order.iter().enumerate() {
            let s = nd::some(c.dynamic_symbols.iter().nth(k));
            nd::ck(s.version_hidden == have[*i].3 && s.version.is_special() == (have[*i].2 < 2));
            if s.version.is_special() { nd::ck(s.version.index().0 == have[*i].2); } else {
                let name = ["V2", "G1", g2, "O"];
                let want = if have[*i].2 == 2 { v1 } else { name[have[*i].2 as usize - 3] };
                match &c.versions.get(s.version).data { VersionData::Def(d) => nd::ck(&d.names[0][..] == want.as_bytes()), VersionData::Need(n) => nd::ck(&n.name[..] == want.as_bytes()) }
            }
        }
    }
}

/// alignment to a power of two; 0 is no alignment
fn up(v: u64, a: u64) -> u64 { if a == 0 { v } else { (v + (a - 1)) & !(a - 1) } }
fn off() -> u64 { if nd::tier(0, 1) == 1 { nd::u32() as u64 } else { nd::u16() as u64 } }
fn adr() -> u64 { if nd::tier(0, 1) == 1 { nd::u64() & !0 >> 2 } else { (nd::u16() as u64) << 32 | nd::u16() as u64 } }
fn any_seg(b: &mut Builder<'static>, load: bool) -> SegmentId {
    let s = b.segments.add();
    s.p_type = elf::ProgramType(if load { 1 } else { 2 });
    (s.p_offset, s.p_vaddr, s.p_paddr, s.p_filesz, s.p_memsz) = (off(), adr(), adr(), off(), off());
    s.p_flags = elf::ProgramFlags(nd::u32());
    s.id()
}
fn any_sec(b: &mut Builder<'static>, align: u64) -> SectionId {
    let s = b.sections.add();
    s.sh_type = elf::SectionType(nd::u32());
    s.sh_flags = elf::SectionFlags(nd::u64());
    (s.sh_addr, s.sh_offset, s.sh_size, s.sh_addralign) = (adr(), off(), off(), align);
    s.id()
}
type R = (u64, u64, u64, u64);
/// offset, size in the file, address, size in memory
fn range(s: &Segment<'_>) -> R { (s.p_offset, s.p_filesz, s.p_vaddr, s.p_memsz) }
fn filesz(s: &Section<'_>) -> u64 { if s.sh_type.0 == 8 { 0 } else { s.sh_size } }
/// the union of a range and a section
fn union(r: R, s: &Section<'_>) -> R {
    if r.3 == 0 { return (s.sh_offset, filesz(s), s.sh_addr, s.sh_size); }
    let (o, a) = (r.0.min(s.sh_offset), r.2.min(s.sh_addr));
    (o, r.1.max(s.sh_offset + filesz(s) - o), a, r.3.max(s.sh_addr + s.sh_size - a))
}
#[track_caller]
fn ck_r(a: R, b: R) { nd::ck(a.0 == b.0 && a.1 == b.1); nd::ck(a.2 == b.2 && a.3 == b.3); }
fn append() {
    let mut b = new(E { is64: true, big: false });
    let load = nd::flag();
    let align = img::pick(&[0, 1, 16]);
    let g = any_seg(&mut b, load);
    let s = any_sec(&mut b, align);
    let g = b.segments.get_mut(g);
    g.p_memsz = g.p_filesz;
    let s = b.sections.get_mut(s);
    let r = range(g);
    let (off, addr) = (s.sh_offset, s.sh_addr);
    g.append_section(s);
    // in a PT_LOAD segment the section goes to the end, both in the file and in memory
    nd::ck(s.sh_offset == if load { up(r.0 + r.1, align) } else { off });
    nd::ck(s.sh_addr == if load { up(r.2 + r.3, align) } else { addr });
    ck_r(range(g), union(r, s));
    nd::ck(g.sections.len() == 1 && g.sections[0] == s.id());
    if r.3 == 0 { nd::ck(g.p_paddr == s.sh_addr); }
    g.remove_sections();
    nd::ck(g.sections.is_empty() && g.p_filesz == 0 && g.p_memsz == 0);
    nd::reach(1);
}
/// the interpreter and the dynamic section are the first of the first segment of their kind
fn special() {
    let mut b = new(E { is64: true, big: false });
    let ids: Vec<SectionId> = (0..2).map(|_| b.sections.add().id()).collect();
    let k = [nd::below(3), nd::below(3)];
    let c = nd::u8();
    for i in 0..2 {
        b.sections.get_mut(ids[i]).data = match k[i] { 0 => SectionData::Data(vec![c, i as u8].into()), 1 => SectionData::Dynamic(vec![Dynamic::Integer { tag: elf::DynamicTag(i as _), val: c as u64 }]), _ => SectionData::UninitializedData(2) };
    }
    let swap = nd::flag();
    // 0: no segment, 1: one without sections, 2: one or both sections, then another segment
    let form = [nd::below(3), nd::below(3)];
    for (t, f) in [(3, form[0]), (2, form[1])] {
        if f == 0 { continue; }
        let s = b.segments.add();
        s.p_type = elf::ProgramType(t);
        if f == 2 {
            let x = (t == 2) != swap;
            s.sections.push(ids[x as usize]);
            s.sections.push(ids[!x as usize]);
            let s = b.segments.add();
            s.p_type = elf::ProgramType(t);
            s.sections.push(ids[!x as usize]);
        }
    }
    let (i, d) = (swap as usize, !swap as usize);
    let (is, ds) = (form[0] == 2, form[1] == 2);
    nd::ck(b.interp_section() == if is { Some(ids[i]) } else { None });
    nd::ck(b.dynamic_section() == if ds { Some(ids[d]) } else { None });
    nd::ck(b.interp_data().is_some() == (is && k[i] == 0) && b.interp_data_mut().is_some() == (is && k[i] == 0));
    nd::ck(b.dynamic_data().is_some() == (ds && k[d] == 1) && b.dynamic_data_mut().is_some() == (ds && k[d] == 1));
    if let Some(x) = b.interp_data() { nd::ck(x[..] == [c, i as u8]); }
    if let Some(x) = b.interp_data_mut() { nd::ck(x[..] == [c, i as u8]); *x = vec![1u8].into(); nd::ck(matches!(&b.sections.get(ids[i]).data, SectionData::Data(x) if x[..] == [1])); nd::reach(1); }
    if let Some(x) = b.dynamic_data() { nd::ck(x.len() == 1 && matches!(x[0], Dynamic::Integer { tag, val } if tag.0 as usize == d && val == c as u64)); }
    if let Some(x) = b.dynamic_data_mut() { x.clear(); nd::ck(matches!(&b.sections.get(ids[d]).data, SectionData::Dynamic(x) if x.is_empty())); nd::reach(2); }
}
/// only ELF files are read, by their own class
fn kinds() {
    let mut d = vec![];
    let mut b = Builder::new(Endianness::Little, nd::flag());
    let s = b.sections.add();
    s.name = b".shstrtab"[..].into();
    s.data = SectionData::SectionString;
    nd::must(b.write(&mut d));
    for i in 0..7 { d[i] = nd::u8(); }
    let d = &d[..];
    let c = match (&d[..4] == b"\x7fELF", d[4]) { (true, 1) => 1, (true, 2) => 2, _ => 0 };
    let want = match c { 1 => Builder::read32(d).is_ok(), 2 => Builder::read64(d).is_ok(), _ => false };
    let r = Builder::read(d);
    nd::ck(r.is_ok() == want);
    if let Ok(r) = r { nd::ck(r.is_64 == (c == 2)); nd::reach(c); }
}
fn queries() {
    let mut b = new(E { is64: true, big: false });
    let (l0, l1) = (nd::flag(), nd::flag());
    let (g0, g1) = (any_seg(&mut b, l0), any_seg(&mut b, l1));
    let o = nd::u64();
    for (id, load) in [(g0, l0), (g1, l1)] {
        let g = b.segments.get(id);
        nd::ck(g.id() == id && g.is_load() == load);
        nd::ck(g.contains_offset(o) == (o >= g.p_offset && o < g.p_offset + g.p_filesz));
        nd::ck(g.contains_address(o) == (o >= g.p_vaddr && o < g.p_vaddr + g.p_memsz));
        nd::ck_eq(g.address_from_offset(o), o.wrapping_sub(g.p_offset).wrapping_add(g.p_vaddr));
    }
    let dead = nd::flag();
    b.segments.get_mut(g0).delete = dead;
    let inside = |id, load| load && b.segments.get(id).contains_offset(o);
    let want = if !dead && inside(g0, l0) { Some(g0) } else if inside(g1, l1) { Some(g1) } else { None };
    nd::ck(b.segments.find_load_segment_from_offset(o).map(|s| s.id()) == want);
    nd::ck(b.segments.count() == 2 - dead as usize && !b.segments.is_empty());
    if want.is_some() { nd::reach(1); }
}
fn load_segment() {
    let mut b = new(E { is64: true, big: false });
    let n = nd::below(3);
    let ids: Vec<_> = (0..n).map(|_| any_seg(&mut b, true)).collect();
    let align = img::pick(&[0, 1, 0x1000]);
    let fl = elf::ProgramFlags(nd::u32());
    let copy = n != 0 && nd::flag();
    if copy { b.segments.get_mut(ids[0]).p_align = align; b.segments.get_mut(ids[0]).p_flags = fl; }
    let s = if copy { b.segments.copy(ids[0]).id() } else { b.segments.add_load_segment(fl, align).id() };
    let s = b.segments.get(s);
    nd::ck(s.p_type.0 == 1 && s.p_flags == fl && s.p_align == align && s.p_filesz == 0 && s.p_memsz == 0 && s.p_paddr == s.p_vaddr && s.sections.is_empty());
    let (mut eo, mut ea) = (0, 0);
    for id in &ids {
        let g = b.segments.get(*id);
        eo = eo.max(g.p_offset + g.p_filesz);
        ea = ea.max(g.p_vaddr + g.p_memsz);
    }
    // after every other segment, with the address congruent to the offset
    nd::ck_eq(s.p_offset, eo);
    nd::ck(s.p_vaddr >= ea && s.p_vaddr - ea < 2 * align.max(1));
    if align != 0 { nd::ck_eq(s.p_vaddr & (align - 1), eo & (align - 1)); }
    nd::reach(1);
}
fn recalculate() {
    let mut b = new(E { is64: true, big: false });
    let g = any_seg(&mut b, true);
    let (s0, s1) = (any_sec(&mut b, 1), any_sec(&mut b, 1));
    let g = b.segments.get_mut(g);
    g.sections.push(s0);
    g.sections.push(s1);
    g.recalculate_ranges(&b.sections);
    ck_r(range(g), union(union((0, 0, 0, 0), b.sections.get(s0)), b.sections.get(s1)));
    let s = b.sections.get(s0);
    let f = s.p_flags().0;
    nd::ck(f == 4 | if s.sh_flags.0 & 1 != 0 { 2 } else { 0 } | if s.sh_flags.0 & 4 != 0 { 1 } else { 0 } && s.is_alloc() == (s.sh_flags.0 & 2 != 0));
    b.sections.get_mut(s0).name = bs("n");
    let (ty, fl, addr, size) = { let s = b.sections.get(s0); (s.sh_type, s.sh_flags, s.sh_addr, s.sh_size) };
    let c = b.sections.copy(s0);
    nd::ck(c.id() != s0 && c.sh_type == ty && c.sh_flags == fl && c.sh_addr == addr && c.sh_size == size && c.sh_offset == 0 && &c.name[..] == b"n" && !c.delete);
    nd::ck(b.sections.count() == 3);
    nd::reach(1);
}
/// `v` as ULEB128
fn uleb(o: &mut Vec<u8>, mut v: u32) { while v >= 128 { o.push(v as u8 | 128); v >>= 7; } o.push(v as u8); }
fn attributes() {
    let e = E { is64: nd::flag(), big: nd::flag() };
    let mut b = new(e);
    let bytes: [u8; 4] = nd::bytes();
    let data: [u8; 2] = nd::bytes();
    let ids = [sect(&mut b, ".a", 1, 0, 1, SectionData::Data(bytes.to_vec().into())), sect(&mut b, ".b", 1, 0, 1, SectionData::Data(vec![].into()))];
    let at_ = sect(&mut b, ".attr", 0x6fff_fff5, 0, 1, SectionData::Attributes(AttributesSection::new()));
    sect(&mut b, ".symtab", 2, 0, e.w() as u64, SectionData::Symbol);
    sect(&mut b, ".strtab", 3, 0, 1, SectionData::String);
    sect(&mut b, ".shstrtab", 3, 0, 1, SectionData::SectionString);
    let syms = [b.symbols.add().id(), b.symbols.add().id()];
    // symbols: the second may be local and then goes first
    let swap = nd::flag();
    b.symbols.get_mut(syms[0]).st_info = elf::SymbolInfo(0x10);
    b.symbols.get_mut(syms[1]).st_info = elf::SymbolInfo(if swap { 0 } else { 0x20 });
    let n = nd::below(3);
    let scopes: Vec<(usize, usize)> = (0..n).map(|_| (nd::below(3), nd::below(4))).collect();
    let mut sub = AttributesSubsection::new(bs("gnu"));
    for (k, m) in &scopes {
        let scope = match k {
            0 => AttributeScope::File,
            1 => AttributeScope::Section((0..2).filter(|i| m >> i & 1 != 0).map(|i| ids[i]).collect()),
            _ => AttributeScope::Symbol((0..2).filter(|i| m >> i & 1 != 0).map(|i| syms[i]).collect()),
        };
        sub.subsubsections.push(AttributesSubsubsection { scope, data: data.to_vec().into() });
    }
    if let SectionData::Attributes(a) = &mut b.sections.get_mut(at_).data { a.subsections.push(sub); }
    let dead = nd::below(3);
    match dead { 1 => b.sections.get_mut(ids[0]).delete = true, 2 => b.symbols.get_mut(syms[0]).delete = true, _ => {} }
    let mut d = Vec::new();
    nd::must(b.write(&mut d));
    let mut w = b"gnu\0".to_vec();
    for (k, m) in &scopes {
        let mut x = vec![];
        for i in 0..2 {
            if m >> i & 1 == 0 { continue; }
            match k {
                1 if !(i == 0 && dead == 1) => uleb(&mut x, if dead == 1 { 1 } else { 1 + i }),
                2 if !(i == 0 && dead == 2) => uleb(&mut x, if dead == 2 { 1 } else if swap { 2 - i } else { 1 + i }),
                _ => {}
            }
        }
        if *k != 0 { x.push(0); }
        x.extend_from_slice(&data);
        w.push(1 + *k as u8);
        let mut l = [0; 4];
        e.put(&mut l, 0, 4, 5 + x.len() as u64);
        w.extend_from_slice(&l);
        w.extend_from_slice(&x);
    }
    let mut l = [0; 4];
    e.put(&mut l, 0, 4, 4 + w.len() as u64);
    let t = at(e, &d, 3 - (dead == 1) as usize);
    nd::ck(d[t.0] == b'A');
    nd::ck_bytes(&d[t.0 + 1..t.0 + 5], &l);
    nd::ck_bytes(&d[t.0 + 5..t.0 + t.1], &w);
    // and back
    let c = nd::must(Builder::read(&d[..]));
    let s = nd::some(c.sections.iter().nth(2 - (dead == 1) as usize));
    if let SectionData::Attributes(a) = &s.data {
        nd::ck(a.subsections.len() == 1 && &a.subsections[0].vendor[..] == b"gnu" && a.subsections[0].subsubsections.len() == n);
        for (x, (k, _)) in a.subsections[0].subsubsections.iter().zip(&scopes) { nd::ck(x.scope.tag().0 as usize == 1 + k); nd::ck_bytes(&x.data, &data); }
    } else { nd::ck(false); }
    let mut o = Vec::new();
    nd::must(c.write(&mut o));
    nd::ck_bytes(&o, &d);
    nd::reach(1);
}
/// what cannot be written is refused
fn refused() {
    let e = E::any();
    let mut b = new(e);
    let w = e.w() as u64;
    let mut d = Vec::new();
    let k = nd::below(14);
    if k != 0 { sect(&mut b, ".shstrtab", 3, 0, 1, SectionData::SectionString); }
    match k {
        // no section header names, two of a kind
        0 => { sect(&mut b, ".x", 1, 0, 1, SectionData::Data(vec![1].into())); }
        1 => { sect(&mut b, ".y", 3, 0, 1, SectionData::SectionString); }
        2 => { for _ in 0..2 { sect(&mut b, ".y", 2, 0, w, SectionData::Symbol); } }
        3 => { for _ in 0..2 { sect(&mut b, ".y", 3, 0, w, SectionData::String); } }
        // symbols without a table, names without strings
        4 => { b.symbols.add(); }
        5 => { sect(&mut b, ".symtab", 2, 0, w, SectionData::Symbol); b.symbols.add().name = bs("n"); }
        6 => { b.dynamic_symbols.add(); }
        // sections that need segments
        7 => { sect(&mut b, ".dynamic", 6, 3, w, SectionData::Dynamic(vec![])); }
        // program headers elsewhere
        8 => { b.segments.add(); b.header.e_phoff = nd::u32() as u64; nd::assume(b.header.e_phoff != e.eh() as u64); }
        // links to deleted sections
        9 | 10 => {
            let x = sect(&mut b, ".x", 1, 0, 1, SectionData::Data(vec![1].into()));
            let y = sect(&mut b, ".y", 1, 0, 1, SectionData::Data(vec![1].into()));
            let s = b.sections.get_mut(x);
            if k == 9 { s.sh_link_section = Some(y) } else { s.sh_info_section = Some(y) }
            b.sections.get_mut(y).delete = true;
        }
        // overlapping, or not aligned
        11 | 12 => {
            b.header.e_phoff = e.eh() as u64;
            b.segments.add();
            let end = (e.eh() + e.ph()) as u64;
            let x = sect(&mut b, ".x", 1, 2, 4, SectionData::Data(vec![1, 2].into()));
            let y = sect(&mut b, ".y", 1, 2, 1, SectionData::Data(vec![1].into()));
            let o = nd::range(0, 5) as u64;
            if k == 11 {
                b.sections.get_mut(x).sh_offset = end;
                b.sections.get_mut(y).sh_offset = end + o;
                if o >= 2 {
                    nd::must(b.write(&mut d));
                    for (i, w) in [(2, end), (3, end + o)] { nd::ck(at(e, &d, i) == (w as usize, 4 - i)); }
                    nd::ck(d[end as usize] == 1 && d[end as usize + 1] == 2 && d[(end + o) as usize] == 1);
                    nd::reach(2);
                    return;
                }
                // a section of one byte can come first at the same offset only if the other does not start there
            } else {
                b.sections.get_mut(x).sh_offset = end + 4 + o;
                b.sections.get_mut(y).sh_offset = end;
                if (end + o) % 4 == 0 { nd::must(b.write(&mut d)); return; }
            }
        }
        // a version without its section
        _ => { b.version_base = Some(bs("b")); sect(&mut b, ".dynstr", 3, 2, 1, SectionData::DynamicString); }
    }
    nd::ck(b.write(&mut d).is_err());
    nd::reach(1);
}

/// so many sections that their count, the index of the string table and the sections of symbols need other places: `n` of data, the indices of
/// symbols if `x`, the `del`th deleted
fn many(e: E, n: usize, x: bool, del: usize) {
    let (value, size) = (word(e, nd::u64()), word(e, nd::u64()));
    let total = 1 + n + 3 + x as usize;
    let file = |n: usize, name: &dyn Fn(usize) -> u64, strings: &[u8], shstr: &[u8]| {
        let mut d = vec![0; e.eh()];
        e.ident(&mut d);
        let (sym, total) = (n + 1, 1 + n + 3 + x as usize);
        let mut t = vec![0; 3 * e.sym()];
        let mut ix = vec![0; 12];
        // a local symbol of the second section and a global one of the last
        for (k, (s, info)) in [(2, 1), (n as u64, 0x11)].into_iter().enumerate() {
            let big = s >= 0xff00;
            for (f, v) in [(0, name(k)), (1, info), (2, 0), (3, if big { 0xffff } else { s }), (4, value), (5, size)] { e.symset(&mut t, (k + 1) * e.sym(), f, v); }
            if big { e.put(&mut ix, 4 * (k + 1), 4, s); }
        }
        let mut hd = vec![0; total * e.sh()];
        let mut put = |i: usize, d: &mut Vec<u8>, c: &[u8], v: [u64; 6]| {
            while d.len() % v[4] as usize != 0 { d.push(0); }
            for (k, v) in [(0, v[0]), (1, v[1]), (4, d.len() as u64), (5, c.len() as u64), (6, v[2]), (7, v[3]), (8, v[4]), (9, v[5])] { e.shset(&mut hd, i * e.sh(), k, v); }
            d.extend_from_slice(c);
        };
        let mut i = 1;
        while i <= n { put(i, &mut d, if i == n { &[1, 2, 3] } else { &[] }, [1, 1, 0, 0, 1, 0]); i += 1; }
        put(sym, &mut d, &t, [4, 2, sym as u64 + 1 + x as u64, 2, e.w() as u64, e.sym() as u64]);
        if x { put(sym + 1, &mut d, &ix, [12, 18, sym as u64, 0, 4, 4]); }
        put(total - 2, &mut d, strings, [26, 3, 0, 0, 1, 0]);
        put(total - 1, &mut d, shstr, [34, 3, 0, 0, 1, 0]);
        while d.len() % e.w() != 0 { d.push(0); }
        let at = d.len() as u64;
        e.sections(&mut d, at, if total >= 0xff00 { 0 } else { total as u64 }, if total - 1 >= 0xff00 { 0xffff } else { total as u64 - 1 });
        if total >= 0xff00 { e.shset(&mut hd, 0, 5, total as u64); }
        if total - 1 >= 0xff00 { e.shset(&mut hd, 0, 6, total as u64 - 1); }
        d.extend_from_slice(&hd);
        d
    };
    let shstr: &[u8] = b"\0.a\0.symtab\0.symtab_shndx\0.strtab\0.shstrtab\0";
    let mut d = file(n, &|k| [1, 3][k], b"\0s\0t\0", shstr);
    e.set(&mut d, e.eh_type(), 1);
    e.set(&mut d, e.eh_machine(), 62);
    let mut b = nd::must(Builder::read(&d[..]));
    nd::ck(b.sections.count() == total - 1 && b.symbols.count() == 2);
    if del != 0 { nd::some(b.sections.iter_mut().nth(del - 1)).delete = true; }
    let mut o = Vec::new();
    let r = b.write(&mut o);
    // the indices of symbols are needed and not there
    if x && del == n + 2 { nd::ck(r.is_err()); nd::reach(2); return; }
    nd::must(r);
    let n = n - (del != 0) as usize;
    let total = 1 + n + 3 + x as usize;
    let at = nd::conc(e.rd(&o, e.eh_shoff())) as usize;
    nd::ck_eq(e.rd(&o, e.eh_shnum()), if total >= 0xff00 { 0 } else { total as u64 });
    nd::ck_eq(e.shget(&o, at, 5), if total >= 0xff00 { total as u64 } else { 0 });
    nd::ck_eq(e.rd(&o, e.eh_shstrndx()), if total - 1 >= 0xff00 { 0xffff } else { total as u64 - 1 });
    nd::ck_eq(e.shget(&o, at, 6), if total - 1 >= 0xff00 { total as u64 - 1 } else { 0 });
    nd::ck_eq(o.len() as u64, (at + total * e.sh()) as u64);
    let g = |i: usize, k| nd::conc(e.shget(&o, at + i * e.sh(), k));
    let part = |i: usize| &o[g(i, 4) as usize..(g(i, 4) + g(i, 5)) as usize];
    let names = g(total - 1, 4) as usize;
    for (i, name) in [(1, &b".a"[..]), (n, b".a"), (n + 1, b".symtab"), (total - 2, b".strtab"), (total - 1, b".shstrtab")] { string(&o, names, g(i, 0), name); }
    nd::ck(g(n + 1, 1) == 2 && g(n + 1, 6) == total as u64 - 2 && g(n + 1, 7) == 2);
    nd::ck_bytes(part(n), &[1, 2, 3]);
    let t = part(n + 1);
    let strings = g(total - 2, 4) as usize;
    if x { string(&o, names, g(n + 2, 0), b".symtab_shndx"); nd::ck(g(n + 2, 1) == 18 && g(n + 2, 6) == n as u64 + 1 && part(n + 2).len() == t.len() / e.sym() * 4); }
    nd::ck(t.len() == 3 * e.sym());
    for (k, (name, s, info)) in [(&b"s"[..], if del != 0 { 1 } else { 2 }, 1), (b"t", n as u64, 0x11)].into_iter().enumerate() {
        let y = |f| e.symget(t, (k + 1) * e.sym(), f);
        string(&o, strings, y(0), name);
        nd::ck(y(1) == info && y(2) == 0 && y(4) == value && y(5) == size);
        nd::ck_eq(y(3), if s >= 0xff00 { 0xffff } else { s });
        if x { nd::ck_eq(e.get(part(n + 2), 4 * (k + 1), 4), if s >= 0xff00 { s } else { 0 }); }
    }
    nd::reach(1);
}

/// as many versions as have an index, and one more
fn many_versions() {
    let e = E { is64: true, big: false };
    let n = 0x7ffe + nd::below(2);
    let mut b = new(e);
    b.header.e_phoff = e.eh() as u64;
    b.segments.add_load_segment(elf::PF_R, 1);
    let file = b.version_files.add(bs("f"));
    let mut last = VersionId::global();
    let mut i = 0;
    while i < n { last = b.versions.add(VersionData::Need(VersionNeed { file, name: bs("v"), flags: elf::VersionFlags(0) })); i += 1; }
    sect(&mut b, ".dynsym", 11, 2, 8, SectionData::DynamicSymbol);
    sect(&mut b, ".dynstr", 3, 2, 1, SectionData::DynamicString);
    sect(&mut b, ".v", 0x6fff_ffff, 2, 2, SectionData::GnuVersym);
    sect(&mut b, ".r", 0x6fff_fffe, 2, 4, SectionData::GnuVerneed);
    sect(&mut b, ".s", 3, 0, 1, SectionData::SectionString);
    let mut at = (e.eh() + e.ph()) as u64;
    for (s, len) in b.sections.iter_mut().zip([48, 7, 4, 32]) { at = up(at, 8); (s.sh_offset, s.sh_addr) = (at, 0x1000 + at); at += len; }
    let s = b.dynamic_symbols.add();
    s.name = bs("y");
    s.set_st_info(elf::STB_GLOBAL, elf::STT_FUNC);
    s.version = last;
    s.version_hidden = nd::bool();
    let hidden = s.version_hidden;
    let mut o = Vec::new();
    let r = b.write(&mut o);
    nd::ck(r.is_ok() == (n == 0x7ffe));
    if r.is_err() { nd::reach(2); return; }
    let at = nd::conc(e.rd(&o, e.eh_shoff())) as usize;
    let part = |i: usize| { let g = |k| nd::conc(e.shget(&o, at + i * e.sh(), k)) as usize; &o[g(4)..g(4) + g(5)] };
    nd::ck(part(3).len() == 4 && e.get(part(3), 0, 2) == 0);
    nd::ck_eq(e.get(part(3), 2, 2), 0x7fff | (hidden as u64) << 15);
    let t = part(4);
    // the unused go, and indices stay
    nd::ck(t.len() == 32 && e.get(t, 0, 2) == 1 && e.get(t, 2, 2) == 1 && e.get(t, 8, 4) == 16 && e.get(t, 12, 4) == 0 && e.get(t, 22, 2) == 0x7fff && e.get(t, 28, 4) == 0);
    nd::reach(1);
}

/// what delete_orphans deletes: segments whose listed sections are all deleted, symbols of deleted sections, relocations of deleted symbols, dynamic entries of tables that are gone
fn orphans() {
    let mut b = new(E { is64: true, big: false });
    let dat: Vec<_> = (0..2).map(|_| sect(&mut b, ".a", 1, 2, 1, SectionData::Data(vec![].into()))).collect();
    let tables = [
        (SectionData::DynamicSymbol, &[6i64][..]), (SectionData::DynamicString, &[5, 10]), (SectionData::Hash, &[4]), (SectionData::GnuHash, &[0x6fff_fef5]),
        (SectionData::GnuVersym, &[0x6fff_fff0]), (SectionData::GnuVerdef, &[0x6fff_fffc, 0x6fff_fffd]), (SectionData::GnuVerneed, &[0x6fff_fffe, 0x6fff_ffff]),
    ];
    let mut dyns = vec![];
    let gone_table = nd::below(8);
    let alone = nd::flag();
    let mut left = vec![];
    for (i, (data, tags)) in tables.into_iter().enumerate() {
        let here = (i == gone_table) == alone;
        for t in tags {
            let tag = elf::DynamicTag(*t);
            dyns.push(Dynamic::Auto { tag });
            dyns.push(Dynamic::Integer { tag, val: 1 });
            if here { left.push((*t, true)); }
            left.push((*t, false));
        }
        let id = sect(&mut b, ".t", 1, 2, 1, data);
        b.sections.get_mut(id).delete = !here;
    }
    let dy = sect(&mut b, ".dynamic", 6, 3, 8, SectionData::Dynamic(dyns));
    // 0: no section, 1 and 2: a section; the index of a symbol with a section does not count
    let (x, y) = (nd::u16(), nd::u16());
    let (mut st, mut ds) = (vec![], vec![]);
    for i in 0..3 {
        let s = b.symbols.add();
        (s.section, s.st_shndx) = (if i == 0 { None } else { Some(dat[i - 1]) }, elf::SymbolSection(x));
        st.push(s.id());
        let s = b.dynamic_symbols.add();
        (s.section, s.st_shndx) = (if i == 0 { None } else { Some(dat[i - 1]) }, elf::SymbolSection(y));
        ds.push(s.id());
    }
    let dead = nd::below(4);
    if dead != 0 { b.symbols.get_mut(st[dead - 1]).delete = true; b.dynamic_symbols.get_mut(ds[dead - 1]).delete = true; }
    let r = |symbol| Relocation { r_offset: 0, symbol, r_type: elf::RelocationType(1), r_addend: 0 };
    let rs = sect(&mut b, ".r", 4, 0, 8, SectionData::Relocation(vec![r(Some(st[1])), r(None), r(Some(st[0])), r(Some(st[2])), r(Some(st[1]))]));
    let r = |symbol| Relocation { r_offset: 0, symbol, r_type: elf::RelocationType(1), r_addend: 0 };
    let rd = sect(&mut b, ".d", 4, 0, 8, SectionData::DynamicRelocation(vec![r(Some(ds[1])), r(None), r(Some(ds[0])), r(Some(ds[2])), r(Some(ds[1]))]));
    let del = [nd::flag(), nd::flag()];
    for i in 0..2 { b.sections.get_mut(dat[i]).delete = del[i]; }
    // segments with each set of sections, and one that was deleted before
    let mut segs = vec![];
    for m in 0..5 {
        let load = nd::flag();
        let g = any_seg(&mut b, load);
        let s = b.segments.get_mut(g);
        for i in 0..2 { if m >> i & 1 != 0 || m == 4 { s.sections.push(dat[i]); } }
        s.delete = m == 4;
        segs.push((g, range(s)));
    }
    b.delete_orphans();
    for (m, (g, r)) in segs.into_iter().enumerate() {
        let s = b.segments.get(g);
        nd::ck(s.delete == (m == 4 || m != 0 && (0..2).all(|i| m >> i & 1 == 0 || del[i])));
        let live = |i: usize| m >> i & 1 != 0 && !del[i];
        if m < 4 { nd::ck(s.sections.iter().copied().eq((0..2).filter(|i| live(*i)).map(|i| dat[i]))); }
        ck_r(range(s), r);
    }
    let gone = |i: usize| i + 1 == dead || i > 0 && del[i - 1];
    for i in 0..3 { nd::ck(b.symbols.get(st[i]).delete == gone(i) && b.dynamic_symbols.get(ds[i]).delete == gone(i)); }
    let kept = [Some(1), None, Some(0), Some(2), Some(1)].into_iter().filter(|r: &Option<usize>| r.map_or(true, |i| !gone(i)));
    nd::ck(matches!(&b.sections.get(rs).data, SectionData::Relocation(v) if v.iter().map(|r| r.symbol).eq(kept.clone().map(|r| r.map(|i| st[i])))));
    nd::ck(matches!(&b.sections.get(rd).data, SectionData::DynamicRelocation(v) if v.iter().map(|r| r.symbol).eq(kept.map(|r| r.map(|i| ds[i])))));
    nd::ck(matches!(&b.sections.get(dy).data, SectionData::Dynamic(v) if v.iter().map(|x| (x.tag().0, matches!(x, Dynamic::Auto { .. }))).eq(left.into_iter())));
    nd::ck(!b.sections.get(rs).delete && !b.sections.get(rd).delete && !b.sections.get(dy).delete);
    nd::reach(1);
}

harnesses! {
    /// 2 sections, segments with every subset of them, 3 symbols, 5 relocations, any one of the 7 dynamic tables alone or missing
    /// @reach 1
    fn c28_orphans() { orphans() }
    /// relocatable file, 2 symbols, one section and one symbol deleted
    /// @reach 1,2
    fn c28_object_symbols() { object(2, 0, &[0, 1, 3]) }
    /// relocatable file, 1 symbol and 2 relocations, any of 4 sections deleted
    /// @reach 1,2
    fn c28_object_relocations() { object(1, 2, &[0, 1, 2, 3, 4]) }
    /// linked file with any of 5 dynamic symbols, both hash tables
    /// @reach 1
    fn c28_dynamic_symbols() { linked(K::Symbols) }
    /// linked file with 3 dynamic symbols and any of 7 versions each
    /// @reach 1
    fn c28_dynamic_versions() { linked(K::Versions) }
    /// linked file with 3 dynamic symbols and 2 relocations, one section and one symbol deleted
    /// @reach 1
    fn c28_dynamic_relocations() { linked(K::Relocs) }
    /// one segment and section, offsets and sizes below 2^16 (thorough: 2^32), addresses of two 16-bit halves (thorough: below 2^62)
    /// @reach 1
    fn c28_append_section() { append() }
    /// two sections in either order, segments of each kind absent, empty or two
    /// @reach 1,2
    fn c28_special() { special() }
    /// any identification, other fields 0
    /// @reach 1,2
    fn c28_kinds() { kinds() }
    /// two segments
    /// @reach 1
    fn c28_segment_queries() { queries() }
    /// up to two segments
    /// @reach 1
    fn c28_add_load_segment() { load_segment() }
    /// two sections
    /// @reach 1
    fn c28_recalculate_ranges() { recalculate() }
    /// up to 2 sub-subsections of each scope, with one section or symbol deleted
    /// @reach 1
    fn c28_attributes() { attributes() }
    /// 65276 sections, 64-bit little-endian, first deleted
    /// @reach 1
    /// @timeout 200
    /// @args --path-instrs 2000000000
    fn c28_many_0() { many(E { is64: true, big: false }, 0xfefd, false, 1) }
    /// 65279 and 4 sections, 32-bit big-endian
    /// @reach 1
    /// @timeout 200
    /// @args --path-instrs 2000000000
    fn c28_many_1() { many(E { is64: false, big: true }, 0xfeff, false, 0) }
    /// 65280 and 5, symbols of the last
    /// @reach 1
    /// @timeout 200
    /// @args --path-instrs 2000000000
    fn c28_many_2() { many(E { is64: true, big: true }, 0xff00, true, 0) }
    /// the same, first deleted
    /// @reach 1
    /// @timeout 200
    /// @args --path-instrs 2000000000
    fn c28_many_3() { many(E { is64: true, big: false }, 0xff00, true, 1) }
    /// the same, section of symbol sections deleted: refused
    /// @reach 2
    /// @timeout 200
    /// @args --path-instrs 2000000000
    fn c28_many_4() { many(E { is64: false, big: false }, 0xff00, true, 0xff02) }
    /// 32766 versions needed of one file, and one more
    /// @reach 1,2
    /// @timeout 200
    /// @args --path-instrs 2000000000
    fn c28_many_versions() { many_versions() }
    /// one defect each
    /// @reach 1,2
    fn c28_refused() { refused() }
}
