//! `write::elf::Encoder` records and tables against byte positions.
use crate::elfout::{rel_bytes, string, symtab, sysv_find, word};
use crate::img::E;
use crate::{harnesses, img, nd};
use object::elf;
use object::write::elf::*;
use object::Endianness;

fn enc(e: E, m: u16) -> Encoder<Endianness> { Encoder::new(if e.big { Endianness::Big } else { Endianness::Little }, e.is64, elf::Machine(m)) }
fn header(xnum: bool) {
    let e = E::any();
    let c = enc(e, 0);
    let h = FileHeader { os_abi: elf::OsAbi(nd::u8()), abi_version: nd::u8(), e_type: elf::FileType(nd::u16()), e_machine: elf::Machine(nd::u16()), e_entry: nd::u64(), e_flags: elf::FileFlags(nd::u32()) };
    let l = FileHeaderLayout { e_phoff: nd::u64(), segment_num: nd::u32(), e_shoff: nd::u64(), section_num: nd::u32(), shstrtab_index: nd::u32() };
    nd::assume(xnum == (l.segment_num >= 0xffff));
    let mut b = Vec::new();
    let r = c.file_header(&mut b, &h, &l);
    nd::ck(r.is_ok() == (!xnum || l.section_num != 0));
    if r.is_err() { nd::reach(2); return; }
    nd::ck(b.len() as u64 == c.file_header_size() && b.len() == e.eh());
    let mut w = vec![0u8; e.eh()];
    e.ident(&mut w);
    w[7] = h.os_abi.0;
    w[8] = h.abi_version;
    e.set(&mut w, e.eh_type(), h.e_type.0 as u64);
    e.set(&mut w, e.eh_machine(), h.e_machine.0 as u64);
    e.set(&mut w, e.eh_entry(), word(e, h.e_entry));
    e.set(&mut w, e.eh_phoff(), word(e, l.e_phoff));
    e.set(&mut w, e.eh_shoff(), word(e, l.e_shoff));
    e.set(&mut w, e.eh_flags(), h.e_flags.0 as u64);
    e.set(&mut w, e.eh_phentsize(), if l.segment_num == 0 { 0 } else { e.ph() as u64 });
    e.set(&mut w, e.eh_shentsize(), if l.section_num == 0 { 0 } else { e.sh() as u64 });
    e.set(&mut w, e.eh_phnum(), if xnum { 0xffff } else { l.segment_num as u64 });
    e.set(&mut w, e.eh_shnum(), if l.section_num >= 0xff00 { 0 } else { l.section_num as u64 });
    e.set(&mut w, e.eh_shstrndx(), if l.shstrtab_index >= 0xff00 { 0xffff } else { l.shstrtab_index as u64 });
    nd::ck_bytes(&b, &w);
    let mut b = Vec::new();
    c.null_section_header(&mut b, &l);
    let mut w = vec![0u8; e.sh()];
    e.shset(&mut w, 0, 5, if l.section_num >= 0xff00 { l.section_num as u64 } else { 0 });
    e.shset(&mut w, 0, 6, if l.shstrtab_index >= 0xff00 { l.shstrtab_index as u64 } else { 0 });
    e.shset(&mut w, 0, 7, if xnum { l.segment_num as u64 } else { 0 });
    nd::ck_bytes(&b, &w);
    nd::reach(1);
}
fn section() -> SectionHeader {
    SectionHeader {
        sh_name: nd::u32(), sh_type: elf::SectionType(nd::u32()), sh_flags: elf::SectionFlags(nd::u64()), sh_addr: nd::u64(), sh_offset: nd::u64(),
        sh_size: nd::u64(), sh_link: nd::u32(), sh_info: nd::u32(), sh_addralign: nd::u64(), sh_entsize: nd::u64(),
    }
}
fn ck_section(e: E, b: &[u8], at: usize, s: &SectionHeader) {
    let w = [s.sh_name as u64, s.sh_type.0 as u64, s.sh_flags.0, s.sh_addr, s.sh_offset, s.sh_size, s.sh_link as u64, s.sh_info as u64, s.sh_addralign, s.sh_entsize];
    for (i, v) in w.into_iter().enumerate() { nd::ck_eq(e.shget(b, at, i), word(e, v)); }
}
/// type, flags, link, info, align, entsize of a header with everything else zero
#[track_caller]
fn is(h: SectionHeader, ty: u32, flags: u64, link: u32, info: u32, align: u64, entsize: u64) {
    nd::ck(h.sh_name == 0 && h.sh_addr == 0 && h.sh_offset == 0 && h.sh_size == 0);
    nd::ck_eq(h.sh_type.0 as u64, ty as u64);
    nd::ck_eq(h.sh_flags.0, flags);
    nd::ck_eq(h.sh_link as u64, link as u64);
    nd::ck_eq(h.sh_info as u64, info as u64);
    nd::ck_eq(h.sh_addralign, align);
    nd::ck_eq(h.sh_entsize, entsize);
}
fn sysv(nb: u32) {
    let e = E::any();
    let c = enc(e, 0);
    let n = 1 + nd::below(nd::tier(4, 5)) as u32;
    let mut h = [None; 6];
    for x in h[1..n as usize].iter_mut() {
        if nd::flag() {
            let v = nd::u32();
            nd::conc((v % nb) as u64);
            *x = Some(v);
        }
    }
    let mut b = Vec::new();
    c.hash_table(&mut b, nb, n, |i| h[i as usize]);
    nd::ck(b.len() as u64 == c.hash_size(nb, n) && b.len() == 8 + 4 * (nb + n) as usize);
    nd::ck(e.get(&b, 0, 4) == nb as u64 && e.get(&b, 4, 4) == n as u64);
    let mut listed = 0;
    for i in 0..n {
        if let Some(v) = h[i as usize] { nd::ck(sysv_find(e, &b, nb, n, v, i)); listed += 1; nd::reach(1); }
    }
    // nothing else is in any chain
    let mut links = 0;
    for i in 0..nb + n { links += (e.get(&b, 8 + 4 * i as usize, 4) != 0) as u32; }
    nd::ck_eq(links as u64, listed);
    if n == 1 { nd::reach(2); }
}
fn gnu(nb: u32, bloom: u32) {
    let e = E::any();
    let c = enc(e, 0);
    let n = nd::below(nd::tier(4, 5)) as u32;
    let base = 1 + nd::below(2) as u32;
    let shift = img::pick(&[0, 5, 6, 31]) as u32;
    let mut h = [0u32; 5];
    let mut last = 0;
    for x in h[..n as usize].iter_mut() {
        *x = nd::u32();
        let k = nd::conc((*x % nb) as u64);
        nd::assume(k >= last);
        last = k;
        nd::conc(((*x / if e.is64 { 64 } else { 32 }) & (bloom - 1)) as u64);
    }
    let t = GnuHashTable { bucket_count: nb, bloom_count: bloom, bloom_shift: shift, symbol_base: base, symbol_count: n };
    let mut b = Vec::new();
    c.gnu_hash_table(&mut b, &t, |i| h[i as usize]);
    let (w, bits) = (e.w(), 8 * e.w() as u32);
    let (buckets, chain) = (16 + bloom as usize * w, 16 + bloom as usize * w + 4 * nb as usize);
    nd::ck(b.len() == chain + 4 * n as usize && b.len() as u64 == c.gnu_hash_size(bloom, nb, n));
    for (i, v) in [nb, base, bloom, shift].into_iter().enumerate() { nd::ck_eq(e.get(&b, 4 * i, 4), v as u64); }
    // the filter is the union of each symbol's two bits
    for k in 0..bloom {
        let mut m = 0u64;
        for &x in &h[..n as usize] {
            if (x / bits) & (bloom - 1) == k { m |= 1u64 << (x % bits) | 1u64 << ((x >> shift) % bits); }
        }
        nd::ck_eq(e.get(&b, 16 + w * k as usize, w), m);
    }
    // a bucket starts at its first symbol, and its chain ends with its last
    for k in 0..nb {
        let mut first = 0;
        for i in (0..n).rev() { if h[i as usize] % nb == k { first = i + base; } }
        nd::ck_eq(e.get(&b, buckets + 4 * k as usize, 4), first as u64);
    }
    for i in 0..n {
        let x = h[i as usize];
        let end = i + 1 == n || h[i as usize + 1] % nb != x % nb;
        nd::ck_eq(e.get(&b, chain + 4 * i as usize, 4), ((x & !1) | end as u32) as u64);
        nd::reach(1);
    }
    if n == 0 { nd::reach(2); }
}
/// what differs between the modes
trait Md {
    fn strtab(&mut self);
    fn dynstr(&mut self);
    fn shstrtab(&mut self);
    fn verdef(&mut self, n: u16);
    fn verneed(&mut self, n: u16);
}
impl Md for Writer<'_, TwoPhase> {
    fn strtab(&mut self) { self.write_strtab() }
    fn dynstr(&mut self) { self.write_dynstr() }
    fn shstrtab(&mut self) { self.write_shstrtab() }
    fn verdef(&mut self, _: u16) { self.write_align_gnu_verdef() }
    fn verneed(&mut self, _: u16) { self.write_align_gnu_verneed() }
}
impl Md for Writer<'_, SinglePhase> {
    fn strtab(&mut self) { let (o, n) = nd::must(self.write_strtab()); nd::ck(o + n as u64 == if o == 0 { 0 } else { self.offset() }); }
    fn dynstr(&mut self) { let (o, n) = nd::must(self.write_dynstr()); nd::ck(o + n as u64 == if o == 0 { 0 } else { self.offset() }); }
    fn shstrtab(&mut self) { let (o, n) = nd::must(self.write_shstrtab()); nd::ck(o + n as u64 == self.offset()); }
    fn verdef(&mut self, n: u16) { self.write_align_gnu_verdef(n); }
    fn verneed(&mut self, n: u16) { self.write_align_gnu_verneed(n); }
}
/// a section the file must have: name, type, flags, address, contents, link, info, alignment, entry size
struct X<'a> { name: &'a [u8], ty: u64, flags: u64, addr: u64, data: Vec<u8>, link: u64, info: u64, align: u64, entsize: u64 }
fn x(name: &[u8], ty: u64, flags: u64, addr: u64, data: Vec<u8>) -> X<'_> { X { name, ty, flags, addr, data, link: 0, info: 0, align: 1, entsize: 0 } }
/// header, sections in order and their contents; `.shstrtab` comes last
fn ck_file(e: E, d: &[u8], h: &FileHeader, ph: &[ProgramHeader], want: &[X<'_>]) {
    let g = |f| e.rd(d, f);
    nd::ck(d[..4] == *b"\x7fELF" && d[4] == 1 + e.is64 as u8 && d[5] == 1 + e.big as u8 && d[6] == 1 && d[7] == h.os_abi.0 && d[8] == h.abi_version);
    nd::ck(g(e.eh_type()) == h.e_type.0 as u64 && g(e.eh_machine()) == h.e_machine.0 as u64 && g(e.eh_flags()) == h.e_flags.0 as u64);
    nd::ck_eq(g(e.eh_entry()), word(e, h.e_entry));
    nd::ck_eq(g(e.eh_phnum()), ph.len() as u64);
    nd::ck_eq(g(e.eh_phoff()), if ph.is_empty() { 0 } else { e.eh() as u64 });
    for (i, p) in ph.iter().enumerate() {
        for (k, v) in [p.p_type.0 as u64, p.p_flags.0 as u64, p.p_offset, p.p_vaddr, p.p_paddr, p.p_filesz, p.p_memsz, p.p_align].into_iter().enumerate() {
            nd::ck_eq(e.phget(d, e.eh() + i * e.ph(), k), word(e, v));
        }
    }
    let n = want.len() + 2;
    nd::ck_eq(g(e.eh_shnum()), n as u64);
    nd::ck_eq(g(e.eh_shstrndx()), n as u64 - 1);
    let at = nd::conc(g(e.eh_shoff())) as usize;
    nd::ck(at % e.w() == 0 && at + n * e.sh() <= d.len());
    for i in 0..10 { nd::ck_eq(e.shget(d, at, i), 0); }
    let names = at + (n - 1) * e.sh();
    let str = nd::conc(e.shget(d, names, 4)) as usize;
    nd::ck(e.shget(d, names, 1) == 3 && e.shget(d, names, 8) == 1 && str + e.shget(d, names, 5) as usize <= d.len());
    string(d, str, e.shget(d, names, 0), b".shstrtab");
    for (i, w) in want.iter().enumerate() {
        let s = at + (i + 1) * e.sh();
        string(d, str, e.shget(d, s, 0), w.name);
        for (k, v) in [(1, w.ty), (2, w.flags), (3, word(e, w.addr)), (5, w.data.len() as u64), (6, w.link), (7, w.info), (8, w.align), (9, w.entsize)] { nd::ck_eq(e.shget(d, s, k), v); }
        let o = nd::conc(e.shget(d, s, 4));
        nd::ck(o % w.align == 0 && o >= (e.eh() + ph.len() * e.ph()) as u64);
        let o = o as usize;
        nd::ck_bytes(&d[o..o + w.data.len()], &w.data);
        // nothing overlaps
        for (j, v) in want.iter().enumerate() {
            let p = e.shget(d, at + (j + 1) * e.sh(), 4) as usize;
            if i != j { nd::ck(o + w.data.len() <= p || p + v.data.len() <= o); }
        }
        nd::ck(o + w.data.len() <= at || o >= at + n * e.sh());
    }
}
fn file_header() -> FileHeader {
    FileHeader { os_abi: elf::OsAbi(nd::u8()), abi_version: nd::u8(), e_type: elf::FileType(nd::u16()), e_machine: elf::Machine(nd::u16()), e_entry: nd::u64(), e_flags: elf::FileFlags(nd::u32()) }
}
fn segments(n: usize) -> Vec<ProgramHeader> {
    (0..n).map(|_| ProgramHeader { p_type: elf::ProgramType(nd::u32()), p_flags: elf::ProgramFlags(nd::u32()), p_offset: nd::u64(), p_vaddr: nd::u64(), p_paddr: nd::u64(), p_filesz: nd::u64(), p_memsz: nd::u64(), p_align: nd::u64() }).collect()
}
fn syms(n: usize, wide: bool) -> Vec<Sym> {
    (0..n).map(|_| Sym {
        section: match nd::below(if wide { 3 } else { 2 }) { 0 => None, 1 => Some(1), _ => Some(img::pick(&[0xff00, 0x12345]) as u32) },
        st_name: 0, st_info: elf::SymbolInfo(nd::u8()), st_other: elf::SymbolOther(nd::u8()), st_shndx: elf::SymbolSection(0xfff1), st_value: nd::u64(), st_size: nd::u64(),
    }).collect()
}
fn rels(e: E, n: usize) -> Vec<Rel> {
    (0..n).map(|_| {
        let r = Rel { r_offset: nd::u64(), r_sym: nd::u32(), r_type: elf::RelocationType(nd::u32()), r_addend: nd::u64() as i64 };
        if !e.is64 { nd::assume(r.r_sym < 1 << 24 && r.r_type.0 < 256); }
        r
    }).collect()
}
const NAMES: [&[u8]; 3] = [b"xab", b"ab", b"q"];
/// an object file
struct Obj { text: Vec<u8>, pre: Vec<u8>, syms: Vec<Sym>, rela: bool, rels: Vec<Rel>, group: Vec<u32>, attr: Vec<u8>, ids: Ids }
#[derive(Clone, Copy)]
struct Ids { text: Option<object::write::StringId>, rel: Option<object::write::StringId>, group: Option<object::write::StringId> }
/// everything after the file header and program headers; gives the offsets of text, relocations and group
fn emit<'a, M: Mode>(w: &mut Writer<'a, M>, o: &Obj, off: Option<[u64; 3]>, names: &[u32]) where Writer<'a, M>: Md {
    w.write(&o.pre);
    let a = w.write_align(4);
    w.write(&o.text);
    w.write_null_symbol();
    for (i, s) in o.syms.iter().enumerate() { nd::ck_eq(w.write_symbol(&Sym { st_name: names[i], ..s.clone() }).0 as u64, i as u64 + 1); }
    w.write_symtab_shndx();
    w.strtab();
    let b = w.write_align_relocation();
    for r in &o.rels { w.write_relocation(o.rela, r); }
    w.write_comdat_header();
    let c = w.offset() - 4;
    for i in &o.group { w.write_comdat_entry(SectionIndex(*i)); }
    w.write_gnu_attributes(&o.attr);
    if let Some(off) = off { nd::ck(off == [a, b, c]); }
    let head = |w: &mut Writer<'a, M>| {
        w.write_null_section_header();
        let t = w.write_section_header(&SectionHeader { sh_name: w.section_name_offset(o.ids.text), sh_type: elf::SHT_PROGBITS, sh_addralign: 4, sh_offset: a, sh_size: o.text.len() as u64, ..SectionHeader::default() });
        nd::ck_eq(t.0 as u64, 1);
        w.write_strtab_section_header();
        w.write_symtab_section_header(1);
        w.write_symtab_shndx_section_header();
        w.write_relocation_section_header(nd::some(o.ids.rel), SectionIndex(1), SectionIndex(3), b, o.rels.len(), o.rela);
        w.write_comdat_section_header(nd::some(o.ids.group), SectionIndex(3), SymbolIndex(1), c, o.group.len());
        w.write_gnu_attributes_section_header();
        w.write_shstrtab_section_header();
    };
    w.shstrtab();
    head(w);
}
fn object(two: bool, wide: bool) {
    let e = E::any();
    let h = file_header();
    nd::assume(h.e_machine.0 != 8);
    // with wide section indices the rest is fixed
    let some = |n: usize| if wide { n - 1 } else { nd::below(n) };
    let ph = segments(some(2));
    let mut bytes: [u8; 6] = nd::bytes();
    bytes[0] |= 1;
    let rela = nd::flag();
    let mut o = Obj {
        text: bytes[..3 + some(2)].to_vec(), pre: bytes[1..1 + 2 * some(2)].to_vec(), syms: syms(1 + wide as usize, wide), rela, rels: rels(e, 1 + some(2)),
        group: (0..some(3)).map(|_| nd::u32()).collect(), attr: bytes[..2].to_vec(), ids: Ids { text: None, rel: None, group: None },
    };
    let endian = if e.big { Endianness::Big } else { Endianness::Little };
    let mut d = Vec::new();
    let mut names = vec![];
    if two {
        let mut w = Writer::new(endian, e.is64, &mut d);
        w.reserve_file_header();
        w.reserve_program_headers(ph.len() as u32);
        nd::ck_eq(w.reserve_null_section_index().0 as u64, 0);
        nd::ck_eq(w.reserve_section_index().0 as u64, 1);
        nd::ck_eq(w.reserve_strtab_section_index().0 as u64, 2);
        nd::ck_eq(w.reserve_symtab_section_index().0 as u64, 3);
        o.ids = ids(&mut w);
        let mut id = vec![];
        w.reserve_null_symbol_index();
        for (i, s) in o.syms.iter().enumerate() {
            id.push(w.add_string(NAMES[i]));
            nd::ck_eq(w.reserve_symbol_index(s.section.map(SectionIndex)).0 as u64, i as u64 + 1);
        }
        nd::ck_eq(w.symbol_count() as u64, o.syms.len() as u64 + 1);
        let x = o.syms.iter().any(|s| s.section >= Some(0xff00));
        nd::ck(w.symtab_shndx_needed() == x && w.strtab_needed());
        if x { w.reserve_symtab_shndx_section_index(); }
        w.reserve_section_index();
        w.reserve_section_index();
        w.reserve_gnu_attributes_section_index();
        w.reserve_shstrtab_section_index();
        w.reserve(o.pre.len() as u64, 1);
        let a = w.reserve(o.text.len() as u64, 4);
        w.reserve_symtab();
        w.reserve_symtab_shndx();
        nd::must(w.reserve_strtab());
        let b = w.reserve_relocations(o.rels.len(), rela);
        let c = w.reserve_comdat(o.group.len());
        w.reserve_gnu_attributes(o.attr.len() as u64);
        nd::must(w.reserve_shstrtab());
        w.reserve_section_headers();
        let len = w.reserved_len();
        nd::must(w.write_file_header(&h));
        w.write_align_program_headers();
        for p in &ph { w.write_program_header(p); }
        names = id.iter().map(|&i| w.string_offset(Some(i))).collect();
        emit(&mut w, &o, Some([a, b, c]), &names);
        nd::ck(w.len() == len && w.offset() == len);
        drop(w);
        nd::ck_eq(d.len() as u64, len);
    } else {
        let mut w = Writer::new_single_phase(endian, e.is64, &mut d);
        nd::must(w.write_file_header(&h));
        let (p, n) = w.write_program_headers_placeholder(ph.len() as u32);
        nd::ck(n == (ph.len() * e.ph()) as u64 && p == if ph.is_empty() { 0 } else { e.eh() as u64 });
        o.ids = ids(&mut w);
        for i in 0..o.syms.len() { let id = w.add_string(NAMES[i]); names.push(w.string_offset(Some(id))); }
        emit(&mut w, &o, None, &names);
        let mut top = Vec::new();
        nd::must(w.write_headers_to(&mut top, &ph));
        drop(w);
        d[..top.len()].copy_from_slice(&top);
    }
    let (st, sx) = symtab(e, &o.syms, &names);
    let word = e.w() as u64;
    let wide = o.syms.iter().any(|s| s.section >= Some(0xff00));
    // the string table: find it by its header
    let at = e.rd(&d, e.eh_shoff()) as usize + 2 * e.sh();
    let (so, sn) = (nd::conc(e.shget(&d, at, 4)) as usize, nd::conc(e.shget(&d, at, 5)) as usize);
    nd::ck(so + sn <= d.len() && sn < 16);
    for i in 0..o.syms.len() { string(&d[..so + sn], so, names[i] as u64, NAMES[i]); }
    nd::ck(d[so] == 0);
    let mut group = vec![0; 4 + 4 * o.group.len()];
    e.put(&mut group, 0, 4, 1);
    for (i, g) in o.group.iter().enumerate() { e.put(&mut group, 4 + 4 * i, 4, *g as u64); }
    let mut want = vec![
        X { align: 4, ..x(b".text", 1, 0, 0, o.text.clone()) },
        x(b".strtab", 3, 0, 0, d[so..so + sn].to_vec()),
        X { link: 2, info: 1, align: word, entsize: e.sym() as u64, ..x(b".symtab", 2, 0, 0, st) },
    ];
    if wide { want.push(X { link: 3, align: 4, entsize: 4, ..x(b".symtab_shndx", 18, 0, 0, sx) }); nd::reach(1); }
    want.push(X { link: 3, info: 1, align: word, entsize: word * (2 + rela as u64), ..x(b".rel.text", if rela { 4 } else { 9 }, 0x40, 0, rel_bytes(e, rela, &o.rels)) });
    want.push(X { link: 3, info: 1, align: 4, entsize: 4, ..x(b".group", 17, 0, 0, group) });
    want.push(x(b".gnu.attributes", 0x6fff_fff5, 0, 0, o.attr.clone()));
    ck_file(e, &d, &h, &ph, &want);
}
fn ids<'a, M: Mode>(w: &mut Writer<'a, M>) -> Ids { Ids { text: Some(w.add_section_name(b".text")), rel: Some(w.add_section_name(b".rel.text")), group: Some(w.add_section_name(b".group")) } }
/// a dynamic file
struct Dyn { pre: Vec<u8>, syms: Vec<Sym>, vs: Vec<u16>, defs: Vec<Verdef>, needs: Vec<(Verneed, Vec<Vernaux>)>, tags: Vec<(i64, u64)>, addr: u64, relr: [u8; 8], hash: bool, sh: [u32; 3] }
const NB: u32 = 2;
fn emit_dyn<'a, M: Mode>(w: &mut Writer<'a, M>, o: &Dyn, names: &[object::write::StringId], relr: object::write::StringId) -> Vec<u64> where Writer<'a, M>: Md {
    let off = |w: &Writer<'a, M>, i: usize| w.dynamic_string_offset(Some(names[i]));
    let mut at = vec![];
    w.write(&o.pre);
    at.push(w.write_null_dynamic_symbol());
    for (i, s) in o.syms.iter().enumerate() {
        let s = Sym { st_name: off(w, i), ..s.clone() };
        nd::ck_eq(w.write_dynamic_symbol(&s).0 as u64, i as u64 + 1);
    }
    at.push(w.write_null_gnu_versym());
    for v in &o.vs { w.write_gnu_versym(elf::VersymIndex(*v)); }
    if o.hash { at.push(w.write_hash(NB, 1 + o.syms.len() as u32, |i| if i == 0 { None } else { Some(o.sh[i as usize]) })); }
    else { at.push(w.write_gnu_hash(1, 5, 1, NB, o.syms.len() as u32, |i| o.sh[i as usize])); }
    w.write_align(4);
    at.push(if o.defs.is_empty() { 0 } else { w.offset() });
    w.verdef(o.defs.len() as u16);
    for (i, v) in o.defs.iter().enumerate() {
        if v.aux_count == 3 {
            w.write_gnu_verdef_shared(&Verdef { aux_count: 1, ..v.clone() });
        } else {
            w.write_gnu_verdef(&Verdef { name: off(w, i), ..v.clone() });
            if v.aux_count == 2 { w.write_gnu_verdaux(names[2]); }
        }
    }
    at.push(if o.needs.is_empty() { 0 } else { w.offset() });
    w.verneed(o.needs.len() as u16);
    for (v, a) in &o.needs {
        let v = Verneed { file: off(w, 2), ..v.clone() };
        w.write_gnu_verneed(&v);
        for a in a { let a = Vernaux { name: off(w, 1), ..a.clone() }; w.write_gnu_vernaux(&a); }
    }
    w.dynstr();
    at.push(w.write_align_dynamic());
    nd::must(w.write_dynamic_string(elf::DT_SONAME, names[2]));
    for (t, v) in &o.tags { nd::must(w.write_dynamic(elf::DynamicTag(*t), *v)); }
    let r = w.write_align_relocation();
    at.push(r);
    w.write(&o.relr);
    w.shstrtab();
    w.write_null_section_header();
    w.write_dynstr_section_header(o.addr);
    w.write_dynsym_section_header(o.addr, 1);
    w.write_gnu_versym_section_header(o.addr);
    w.write_hash_section_header(o.addr);
    w.write_gnu_hash_section_header(o.addr);
    w.write_gnu_verdef_section_header(o.addr);
    w.write_gnu_verneed_section_header(o.addr);
    w.write_dynamic_section_header(o.addr);
    w.write_relative_relocation_section_header(relr, r, 8);
    w.write_shstrtab_section_header();
    at
}
fn dynamic(two: bool, versions: bool) {
    let e = E::any();
    let h = file_header();
    let pre: [u8; 3] = nd::bytes();
    let n = 1 + nd::below(2);
    let hash = versions || nd::flag();
    let mut o = Dyn {
        pre: pre[..[0, 3][nd::below(2)]].to_vec(), syms: syms(n, false), vs: (0..n).map(|_| nd::u16()).collect(), defs: vec![], needs: vec![],
        tags: (0..nd::below(2)).map(|_| (nd::u32() as i32 as i64, nd::u32() as u64)).collect(), addr: nd::u64(), relr: nd::bytes(), hash, sh: [nd::u32(), nd::u32(), nd::u32()],
    };
    if !hash { nd::assume(n == 1 || o.sh[0] % NB <= o.sh[1] % NB); }
    if versions {
        for i in 0..nd::below(3) {
            o.defs.push(Verdef { version: nd::u16(), flags: elf::VersionFlags(nd::u16()), index: elf::VersionIndex(nd::u16()), aux_count: 1 + nd::below(2) as u16, name: 0, hash: nd::u32() });
            if i == 1 && nd::flag() { o.defs[0].aux_count = 3; }
        }
        for _ in 0..nd::below(3) {
            let a: Vec<_> = (0..nd::below(3)).map(|_| Vernaux { flags: elf::VersionFlags(nd::u16()), index: elf::VersionIndex(nd::u16()), name: 0, hash: nd::u32() }).collect();
            o.needs.push((Verneed { version: nd::u16(), aux_count: a.len() as u16, file: 0 }, a));
        }
    }
    let endian = if e.big { Endianness::Big } else { Endianness::Little };
    let mut d = Vec::new();
    let names;
    let auxes = o.defs.iter().map(|d| if d.aux_count == 3 { 0 } else { d.aux_count as usize }).sum();
    let needs: usize = o.needs.iter().map(|n| n.1.len()).sum();
    if two {
        let mut w = Writer::new(endian, e.is64, &mut d);
        w.reserve_file_header();
        w.reserve_program_headers(0);
        nd::ck_eq(w.reserve_dynstr_section_index().0 as u64, 1);
        nd::ck_eq(w.reserve_dynsym_section_index().0 as u64, 2);
        w.reserve_gnu_versym_section_index();
        if hash { w.reserve_hash_section_index(); } else { w.reserve_gnu_hash_section_index(); }
        if !o.defs.is_empty() { w.reserve_gnu_verdef_section_index(); }
        if !o.needs.is_empty() { w.reserve_gnu_verneed_section_index(); }
        w.reserve_dynamic_section_index();
        let relr = w.add_section_name(b".relr.dyn");
        w.reserve_section_index();
        w.reserve_shstrtab_section_index();
        let id: Vec<_> = NAMES.iter().map(|s| w.add_dynamic_string(s)).collect();
        nd::ck(w.get_dynamic_string(NAMES[1]) == id[1]);
        for i in 0..n { nd::ck_eq(w.reserve_dynamic_symbol_index().0 as u64, i as u64 + 1); }
        nd::ck_eq(w.dynamic_symbol_count() as u64, n as u64 + 1);
        w.reserve(o.pre.len() as u64, 1);
        let mut at = vec![w.reserve_dynsym(), w.reserve_gnu_versym()];
        at.push(if hash { w.reserve_hash(NB, 1 + n as u32) } else { w.reserve_gnu_hash(1, NB, n as u32) });
        w.reserve(0, 4);
        at.push(w.reserve_gnu_verdef(o.defs.len() as u16, auxes));
        at.push(w.reserve_gnu_verneed(o.needs.len() as u16, needs));
        let st = nd::must(w.reserve_dynstr());
        nd::ck(w.reserved_len() == st + w.dynstr_len() as u64);
        at.push(w.reserve_dynamic(1 + o.tags.len()));
        at.push(w.reserve(8, e.w() as u64));
        nd::must(w.reserve_shstrtab());
        w.reserve_section_headers();
        let len = w.reserved_len();
        nd::must(w.write_file_header(&h));
        nd::ck_eq(w.write_align_program_headers(), 0);
        names = id.iter().map(|&i| w.dynamic_string_offset(Some(i)) as u64).collect::<Vec<_>>();
        let got = emit_dyn(&mut w, &o, &id, relr);
        nd::ck(got == at);
        nd::ck_eq(w.len(), len);
        drop(w);
        nd::ck_eq(d.len() as u64, len);
    } else {
        let mut w = Writer::new_single_phase(endian, e.is64, &mut d);
        nd::must(w.write_file_header(&h));
        let relr = w.add_section_name(b".relr.dyn");
        let id: Vec<_> = NAMES.iter().map(|s| w.add_dynamic_string(s)).collect();
        names = id.iter().map(|&i| w.dynamic_string_offset(Some(i)) as u64).collect::<Vec<_>>();
        emit_dyn(&mut w, &o, &id, relr);
        let mut top = Vec::new();
        nd::must(w.write_file_header_to(&mut top));
        drop(w);
        d[..top.len()].copy_from_slice(&top);
    }
    let at = e.rd(&d, e.eh_shoff()) as usize + e.sh();
    let (so, sn) = (nd::conc(e.shget(&d, at, 4)) as usize, nd::conc(e.shget(&d, at, 5)) as usize);
    nd::ck(so + sn <= d.len() && sn < 16 && d[so] == 0);
    for i in 0..3 { string(&d[..so + sn], so, names[i], NAMES[i]); }
    let name32: Vec<u32> = names.iter().map(|&n| n as u32).collect();
    let word = e.w() as u64;
    let mut vs = vec![0; 2 * (n + 1)];
    for (i, v) in o.vs.iter().enumerate() { e.put(&mut vs, 2 * i + 2, 2, *v as u64); }
    let c = enc(e, 0);
    let mut ht = Vec::new();
    if hash { c.hash_table(&mut ht, NB, 1 + n as u32, |i| if i == 0 { None } else { Some(o.sh[i as usize]) }); }
    else { c.gnu_hash_table(&mut ht, &GnuHashTable { bucket_count: NB, bloom_count: 1, bloom_shift: 5, symbol_base: 1, symbol_count: n as u32 }, |i| o.sh[i as usize]); }
    let mut want = vec![
        x(b".dynstr", 3, 2, o.addr, d[so..so + sn].to_vec()),
        X { link: 1, info: 1, align: word, entsize: e.sym() as u64, ..x(b".dynsym", 11, 2, o.addr, symtab(e, &o.syms, &name32).0) },
        X { link: 2, align: 2, entsize: 2, ..x(b".gnu.version", 0x6fff_ffff, 2, o.addr, vs) },
        if hash { X { link: 2, align: 4, entsize: 4, ..x(b".hash", 5, 2, o.addr, ht) } } else { X { link: 2, align: word, entsize: if e.is64 { 0 } else { 4 }, ..x(b".gnu.hash", 0x6fff_fff6, 2, o.addr, ht) } },
    ];
    if !o.defs.is_empty() {
        let mut v = vec![];
        for (i, f) in o.defs.iter().enumerate() {
            let (p, shared) = (v.len(), f.aux_count == 3);
            v.resize(p + 20, 0);
            for (k, y) in [f.version, f.flags.0, f.index.0, if shared { 1 } else { f.aux_count }].into_iter().enumerate() { e.put(&mut v, p + 2 * k, 2, y as u64); }
            let next = if i + 1 == o.defs.len() { 0 } else if shared { 20 } else { 20 + 8 * f.aux_count as u64 };
            for (k, y) in [f.hash as u64, if shared { 40 } else { 20 }, next].into_iter().enumerate() { e.put(&mut v, p + 8 + 4 * k, 4, y); }
            for k in 0..if shared { 0 } else { f.aux_count } {
                let p = v.len();
                v.resize(p + 8, 0);
                e.put(&mut v, p, 4, names[if k == 0 { i } else { 2 }]);
                e.put(&mut v, p + 4, 4, if k + 1 < f.aux_count { 8 } else { 0 });
            }
            if shared { nd::reach(1); }
        }
        want.push(X { link: 1, info: o.defs.len() as u64, align: 4, ..x(b".gnu.version_d", 0x6fff_fffd, 2, o.addr, v) });
    }
    if !o.needs.is_empty() {
        let mut v = vec![];
        for (i, (f, a)) in o.needs.iter().enumerate() {
            let p = v.len();
            v.resize(p + 16 + 16 * a.len(), 0);
            e.put(&mut v, p, 2, f.version as u64);
            e.put(&mut v, p + 2, 2, a.len() as u64);
            let next = if i + 1 == o.needs.len() { 0 } else { 16 + 16 * a.len() as u64 };
            for (k, y) in [names[2], if a.is_empty() { 0 } else { 16 }, next].into_iter().enumerate() { e.put(&mut v, p + 4 + 4 * k, 4, y); }
            for (j, g) in a.iter().enumerate() {
                let q = p + 16 + 16 * j;
                e.put(&mut v, q, 4, g.hash as u64);
                e.put(&mut v, q + 4, 2, g.flags.0 as u64);
                e.put(&mut v, q + 6, 2, g.index.0 as u64);
                e.put(&mut v, q + 8, 4, names[1]);
                e.put(&mut v, q + 12, 4, if j + 1 < a.len() { 16 } else { 0 });
            }
        }
        want.push(X { link: 1, info: o.needs.len() as u64, align: 4, ..x(b".gnu.version_r", 0x6fff_fffe, 2, o.addr, v) });
        nd::reach(2);
    }
    let w = e.w();
    let mut dy = vec![0; 2 * w * (1 + o.tags.len())];
    e.put(&mut dy, 0, w, 14);
    e.put(&mut dy, w, w, names[2]);
    for (i, (t, v)) in o.tags.iter().enumerate() { e.put(&mut dy, 2 * w * (i + 1), w, *t as u64); e.put(&mut dy, 2 * w * (i + 1) + w, w, *v); }
    want.push(X { link: 1, align: word, entsize: 2 * word, ..x(b".dynamic", 6, 3, o.addr, dy) });
    want.push(X { align: word, entsize: word, ..x(b".relr.dyn", 19, 0, 0, o.relr.to_vec()) });
    ck_file(e, &d, &h, &[], &want);
    nd::reach(3);
}
harnesses! {
    /// object files written in two phases: a symbol, relocations, a group and attributes of any fields, up to one segment, and every class and byte order
    fn c26_object_two() { object(true, false) }
    /// the same with two symbols, in sections past 0xff00 too
    /// @reach 1
    fn c26_object_two_wide() { object(true, true) }
    /// the same files written in a single phase
    fn c26_object_single() { object(false, false) }
    /// the same with two symbols, in sections past 0xff00 too
    /// @reach 1
    fn c26_object_single_wide() { object(false, true) }
    /// dynamic files written in two phases: up to two symbols and versions, SysV or GNU hash, dynamic entries and RELR relocations of any fields
    /// @reach 3
    fn c26_dynamic_two() { dynamic(true, false) }
    /// the same with up to two version definitions and requirements of up to two names each
    /// @reach 1,2,3
    fn c26_dynamic_two_versions() { dynamic(true, true) }
    /// the same files written in a single phase
    /// @reach 3
    fn c26_dynamic_single() { dynamic(false, false) }
    /// the same with versions
    /// @reach 1,2,3
    fn c26_dynamic_single_versions() { dynamic(false, true) }
    /// file header and null section header from any header and layout with fewer than 0xffff segments, both classes and byte orders
    /// @reach 1
    fn c26_header() { header(false) }
    /// the same with 0xffff segments or more
    /// @reach 1,2
    fn c26_header_xnum() { header(true) }
    /// program headers and section headers from any fields
    fn c26_headers() {
        let e = E::any();
        let c = enc(e, 0);
        let p = ProgramHeader { p_type: elf::ProgramType(nd::u32()), p_flags: elf::ProgramFlags(nd::u32()), p_offset: nd::u64(), p_vaddr: nd::u64(), p_paddr: nd::u64(), p_filesz: nd::u64(), p_memsz: nd::u64(), p_align: nd::u64() };
        let mut b = Vec::new();
        c.program_header(&mut b, &p);
        nd::ck(b.len() == e.ph() && c.program_header_size() == e.ph() as u64);
        for (i, v) in [p.p_type.0 as u64, p.p_flags.0 as u64, p.p_offset, p.p_vaddr, p.p_paddr, p.p_filesz, p.p_memsz, p.p_align].into_iter().enumerate() {
            nd::ck_eq(e.phget(&b, 0, i), word(e, v));
        }
        let s = section();
        c.section_header(&mut b, &s);
        nd::ck(b.len() == e.ph() + e.sh() && c.section_header_size() == e.sh() as u64);
        ck_section(e, &b, e.ph(), &s);
    }
    /// file ranges of any length up to 12, alignment up to 8 and target offset, reserved and written in both modes; any reserved length against the class
    /// @reach 1,2,3,4
    fn c26_ranges() {
        let e = E::any();
        let n = if e.big { Endianness::Big } else { Endianness::Little };
        let h = e.eh() as u64;
        let (k, to) = (nd::below(13), nd::below(12) as u64);
        let a = [0u64, 1, 2, 4, 8][nd::below(5)];
        let data = nd::bytes::<12>();
        let start = |at: u64| if a == 0 { at } else { (at + a - 1) / a * a };
        let (x, y) = (h + 3, start(h + 3) + k as u64);
        let mut buf = Vec::new();
        if nd::flag() {
            let mut w = Writer::new(n, e.is64, &mut buf);
            w.reserve_file_header();
            nd::ck_eq(w.reserve(3, 1), h);
            nd::ck_eq(w.reserve(k as u64, a), start(x));
            nd::ck_eq(w.reserved_len(), y);
            w.reserve_until(y + to);
            nd::ck_eq(w.reserved_len(), y + to);
            nd::must(w.write_file_header(&file_header()));
            nd::ck(w.offset() == h && w.len() == h);
            w.write(&[1, 2, 3]);
            nd::ck_eq(w.write_align(a), start(x));
            w.write(&data[..k]);
            w.pad_until(y + to);
            nd::ck(w.len() == w.reserved_len());
            nd::reach(1);
        } else {
            let mut w = Writer::new_single_phase(n, e.is64, &mut buf);
            nd::must(w.write_file_header(&file_header()));
            w.write(&[1, 2, 3]);
            nd::ck_eq(w.write_align(a), start(x));
            w.write(&data[..k]);
            w.pad_until(y + to);
            nd::ck(w.len() == y + to && w.offset() == y + to);
            nd::reach(2);
        }
        nd::ck_eq(buf.len() as u64, y + to);
        let (h, s, y) = (h as usize, start(x) as usize, y as usize);
        nd::ck_bytes(&buf[h..h + 3], &[1, 2, 3]);
        for i in h + 3..s { nd::ck(buf[i] == 0); }
        nd::ck_bytes(&buf[s..y], &data[..k]);
        for i in y..buf.len() { nd::ck(buf[i] == 0); }
        // a buffer that only keeps the size it was told
        struct Size(u64, bool, bool);
        impl object::write::WritableBuffer for Size {
            fn reserve(&mut self, n: u64) -> Result<(), ()> { self.0 = n; self.2 = true; if self.1 { Err(()) } else { Ok(()) } }
            fn write_bytes(&mut self, _: &[u8]) { nd::ck(self.2 && !self.1); }
        }
        let mut z = Size(0, nd::bool(), false);
        let refuse = z.1;
        let len = nd::u64();
        nd::assume(len >= h as u64);
        let mut w = Writer::new(n, e.is64, &mut z);
        w.reserve_file_header();
        w.reserve_until(len);
        let r = w.write_file_header(&file_header());
        let fits = e.is64 || len <= 0xffff_ffff;
        nd::ck(r.is_ok() == (fits && !refuse));
        nd::ck(z.2 == fits && z.0 == if fits { len } else { 0 });
        nd::reach(if r.is_ok() { 3 } else { 4 });
    }
    /// the section headers suggested for each kind of table, from any links and counts
    fn c26_defaults() {
        let e = E::any();
        let c = enc(e, 0);
        let (l, i, n) = (nd::u32(), nd::u32(), nd::u16());
        let w = e.w() as u64;
        nd::ck_eq(c.address_size(), w);
        let (sym, dy) = (e.sym() as u64, 2 * w);
        is(c.strtab_section_header(), 3, 0, 0, 0, 1, 0);
        is(c.dynstr_section_header(), 3, 2, 0, 0, 1, 0);
        is(c.symtab_section_header(l, i), 2, 0, l, i, w, sym);
        is(c.symtab_shndx_section_header(l), 18, 0, l, 0, 4, 4);
        is(c.dynsym_section_header(l, i), 11, 2, l, i, w, sym);
        is(c.dynamic_section_header(l), 6, 3, l, 0, w, dy);
        is(c.hash_section_header(l), 5, 2, l, 0, 4, 4);
        is(c.gnu_hash_section_header(l), 0x6fff_fff6, 2, l, 0, w, if e.is64 { 0 } else { 4 });
        is(c.gnu_versym_section_header(l), 0x6fff_ffff, 2, l, 0, 2, 2);
        is(c.gnu_verdef_section_header(l, n), 0x6fff_fffd, 2, l, n as u32, 4, 0);
        is(c.gnu_verneed_section_header(l, n), 0x6fff_fffe, 2, l, n as u32, 4, 0);
        is(c.gnu_attributes_section_header(), 0x6fff_fff5, 0, 0, 0, 1, 0);
        is(c.relocation_section_header(false), 9, 0x40, 0, 0, w, 2 * w);
        is(c.relocation_section_header(true), 4, 0x40, 0, 0, w, 3 * w);
        is(c.relative_relocation_section_header(), 19, 0, 0, 0, w, w);
        is(c.comdat_section_header(), 17, 0, 0, 0, 4, 4);
    }
    /// symbols from any fields, with a section or an explicit section field
    /// @reach 1
    fn c26_symbol() {
        let e = E::any();
        let c = enc(e, 0);
        let section = if nd::flag() { Some(nd::u32()) } else { None };
        let s = Sym { section, st_name: nd::u32(), st_info: elf::SymbolInfo(nd::u8()), st_other: elf::SymbolOther(nd::u8()), st_shndx: elf::SymbolSection(nd::u16()), st_value: nd::u64(), st_size: nd::u64() };
        let mut b = Vec::new();
        c.null_symbol(&mut b);
        let x = c.symbol(&mut b, &s);
        let n = e.sym();
        nd::ck(b.len() == 2 * n && c.sym_size() == n as u64);
        for v in &b[..n] { nd::ck(*v == 0); }
        let (shndx, wide) = match section {
            Some(i) if i >= 0xff00 => (0xffff, Some(i)),
            Some(i) => (i as u64, None),
            None => (s.st_shndx.0 as u64, if s.st_shndx.0 == 0xffff { Some(0) } else { None }),
        };
        for (i, v) in [s.st_name as u64, s.st_info.0 as u64, s.st_other.0 as u64, shndx, s.st_value, s.st_size].into_iter().enumerate() {
            nd::ck_eq(e.symget(&b, n, i), word(e, v));
        }
        nd::ck(x == wide);
        if wide.is_some() { nd::reach(1); }
    }
    /// relocations from any fields, including 64-bit little-endian MIPS
    /// @reach 1
    fn c26_relocation() {
        let e = E::any();
        let mips = nd::flag();
        let c = enc(e, if mips { 8 } else { 62 });
        let mut d = enc(e, if mips { 62 } else { 8 });
        d.set_machine(elf::Machine(if mips { 8 } else { 62 }));
        nd::ck(d.is_mips64el() == c.is_mips64el() && c.is_mips64el() == (mips && e.is64 && !e.big));
        let rela = nd::flag();
        let r = Rel { r_offset: nd::u64(), r_sym: nd::u32(), r_type: elf::RelocationType(nd::u32()), r_addend: nd::u64() as i64 };
        if !e.is64 { nd::assume(r.r_sym < 1 << 24 && r.r_type.0 < 256); }
        let mut b = Vec::new();
        c.relocation(&mut b, rela, &r);
        let w = e.w();
        nd::ck(b.len() == w * (2 + rela as usize) && c.rel_size(rela) == b.len() as u64 && c.relr_size() == w as u64);
        nd::ck_eq(e.get(&b, 0, w), word(e, r.r_offset));
        let info = e.get(&b, w, w);
        if !e.is64 {
            nd::ck_eq(info, (r.r_sym as u64) << 8 | r.r_type.0 as u64);
        } else if rela && c.is_mips64el() {
            // symbol, then the special symbol and the types in reverse, as single bytes
            nd::ck_eq(e.get(&b, 8, 4), r.r_sym as u64);
            for i in 0..4 { nd::ck_eq(b[15 - i] as u64, (r.r_type.0 >> (8 * i)) as u64 & 0xff); }
            nd::reach(1);
        } else {
            nd::ck_eq(info, (r.r_sym as u64) << 32 | r.r_type.0 as u64);
        }
        if rela { nd::ck_eq(e.get(&b, 2 * w, w), word(e, r.r_addend as u64)); }
    }
    /// dynamic entries from any tag and value; an error exactly when a 32-bit entry cannot hold them
    /// @reach 1,2
    fn c26_dynamic() {
        let e = E::any();
        let c = enc(e, 0);
        let (t, v) = (nd::u64() as i64, nd::u64());
        let mut b = Vec::new();
        let r = c.dynamic(&mut b, elf::DynamicTag(t), v);
        nd::ck(r.is_ok() == (e.is64 || (t == t as i32 as i64 && v <= 0xffff_ffff)));
        if r.is_err() { nd::ck(b.is_empty()); nd::reach(2); return; }
        let w = e.w();
        nd::ck(b.len() == 2 * w && c.dyn_size() == b.len() as u64);
        nd::ck_eq(e.get(&b, 0, w), word(e, t as u64));
        nd::ck_eq(e.get(&b, w, w), v);
        nd::reach(1);
    }
    /// version symbols, definitions and requirements from any fields and up to 65535 entries
    fn c26_versions() {
        let e = E::any();
        let c = enc(e, 0);
        let v = nd::u16();
        let mut b = Vec::new();
        c.gnu_versym(&mut b, elf::VersymIndex(v));
        nd::ck(b.len() == 2 && e.get(&b, 0, 2) == v as u64);
        let d = Verdef { version: nd::u16(), flags: elf::VersionFlags(nd::u16()), index: elf::VersionIndex(nd::u16()), aux_count: nd::u16(), name: nd::u32(), hash: nd::u32() };
        let next = nd::bool();
        b.clear();
        c.gnu_verdef(&mut b, next, &d);
        nd::ck_eq(b.len() as u64, 28);
        for (i, x) in [d.version, d.flags.0, d.index.0, d.aux_count].into_iter().enumerate() { nd::ck_eq(e.get(&b, 2 * i, 2), x as u64); }
        let n = if next { 20 + 8 * d.aux_count as u64 } else { 0 };
        for (i, x) in [d.hash as u64, 20, n, d.name as u64, if d.aux_count > 1 { 8 } else { 0 }].into_iter().enumerate() { nd::ck_eq(e.get(&b, 8 + 4 * i, 4), x); }
        b.clear();
        c.gnu_verdef_shared(&mut b, &d);
        nd::ck_eq(b.len() as u64, 20);
        for (i, x) in [d.version, d.flags.0, d.index.0, d.aux_count].into_iter().enumerate() { nd::ck_eq(e.get(&b, 2 * i, 2), x as u64); }
        for (i, x) in [d.hash as u64, 40, 20].into_iter().enumerate() { nd::ck_eq(e.get(&b, 8 + 4 * i, 4), x); }
        b.clear();
        c.gnu_verdaux(&mut b, next, d.name);
        nd::ck(b.len() == 8 && e.get(&b, 0, 4) == d.name as u64 && e.get(&b, 4, 4) == if next { 8 } else { 0 });
        let r = Verneed { version: v, aux_count: d.aux_count, file: d.name };
        b.clear();
        c.gnu_verneed(&mut b, next, &r);
        nd::ck_eq(b.len() as u64, 16);
        nd::ck(e.get(&b, 0, 2) == v as u64 && e.get(&b, 2, 2) == r.aux_count as u64);
        nd::ck_eq(e.get(&b, 4, 4), r.file as u64);
        nd::ck_eq(e.get(&b, 8, 4), if r.aux_count == 0 { 0 } else { 16 });
        nd::ck_eq(e.get(&b, 12, 4), if next { 16 + 16 * r.aux_count as u64 } else { 0 });
        let x = Vernaux { flags: d.flags, index: d.index, name: d.name, hash: d.hash };
        b.clear();
        c.gnu_vernaux(&mut b, next, &x);
        nd::ck_eq(b.len() as u64, 16);
        nd::ck_eq(e.get(&b, 0, 4), x.hash as u64);
        nd::ck(e.get(&b, 4, 2) == x.flags.0 as u64 && e.get(&b, 6, 2) == x.index.0 as u64);
        nd::ck(e.get(&b, 8, 4) == x.name as u64 && e.get(&b, 12, 4) == if next { 16 } else { 0 });
        let (k, a) = (nd::u16(), nd::u32() as usize);
        nd::ck_eq(c.gnu_versym_size(d.hash), 2 * d.hash as u64);
        nd::ck_eq(c.gnu_verdef_size(k, a), 20 * k as u64 + 8 * a as u64);
        nd::ck_eq(c.gnu_verneed_size(k, a), 16 * k as u64 + 16 * a as u64);
    }
    /// SysV hash tables with 1 bucket and up to 3 symbols (thorough 4) of any hash, some left out
    /// @reach 1,2
    fn c26_sysv_1() { sysv(1) }
    /// the same with 2 buckets
    /// @reach 1,2
    fn c26_sysv_2() { sysv(2) }
    /// the same with 3 buckets
    /// @reach 1,2
    fn c26_sysv_3() { sysv(3) }
    /// GNU hash tables with 1 bucket and 1 filter word, up to 3 symbols (thorough 4) of any hash
    /// @reach 1,2
    fn c26_gnu_1() { gnu(1, 1) }
    /// the same with 2 buckets and 2 filter words
    /// @reach 1,2
    fn c26_gnu_2() { gnu(2, 2) }
    /// the same with 3 buckets
    /// @reach 1,2
    fn c26_gnu_3() { gnu(3, 1) }
    /// attributes of two vendors, with file, section and symbol subsections of symbolic indices, tags and values, in both byte orders
    fn c26_attributes() {
        let big = nd::flag();
        let (t, x, y, z, s) = (nd::u8(), nd::u32(), nd::u64(), nd::u16(), nd::u8());
        nd::assume(s != 0);
        let mut a = AttributesWriter::new(if big { Endianness::Big } else { Endianness::Little });
        let mut w = vec![b'A'];
        let two = nd::flag();
        for k in 0..1 + two as usize {
            let vendor: &[u8] = if k == 0 { b"gnu" } else { b"x" };
            let at = w.len();
            a.start_subsection(vendor);
            w.extend_from_slice(&[0; 4]);
            w.extend_from_slice(vendor);
            w.push(0);
            for _ in 0..nd::below(3 - k) {
                let from = w.len();
                a.start_subsubsection(elf::AttributeTag(t));
                w.extend_from_slice(&[t, 0, 0, 0, 0]);
                if k == 0 {
                    a.write_subsubsection_index(z as u32 & 0x1ff);
                    leb(&mut w, z as u64 & 0x1ff, 2);
                    w.push(0);
                    a.write_subsubsection_indices(&[]);
                } else {
                    a.write_subsubsection_indices(&[s, 1]);
                    w.extend_from_slice(&[s, 1, 0]);
                    a.write_attribute_tag(x as u64 & 0xfff);
                    leb(&mut w, x as u64 & 0xfff, 2);
                    a.write_attribute_integer(y >> 43);
                    leb(&mut w, y >> 43, 3);
                    a.write_attribute_string(&[s]);
                    w.extend_from_slice(&[s, 0]);
                }
                a.write_subsubsection_attributes(&[t, s]);
                w.extend_from_slice(&[t, s]);
                a.end_subsubsection();
                let n = w.len() - from;
                img::put(&mut w, from + 1, 4, n as u64, big);
            }
            a.end_subsection();
            let n = w.len() - at;
            img::put(&mut w, at, 4, n as u64, big);
        }
        nd::ck_bytes(&a.data(), &w);
    }
}
/// minimal unsigned LEB128
fn leb(w: &mut Vec<u8>, v: u64, max: usize) {
    let mut n = 1;
    while n < max && v >> (7 * n) != 0 { n += 1; }
    let n = nd::conc(n as u64) as usize;
    for i in 0..n { w.push((v >> (7 * i)) as u8 & 0x7f | if i + 1 < n { 0x80 } else { 0 }); }
}
