//! `write::macho::Encoder`, `CodeSignatureEncoder`, and the `from_raw` constructors: a record copied through them is the same.
use crate::img::{E, M};
use crate::{harnesses, img, nd};
use object::pod::{self, Pod};
use object::read::macho::CodeDirectory as RawDirectory;
use object::write::{StringTable, elf as we, macho as wm};
use object::{Endianness, elf, macho};

fn endian(big: bool) -> Endianness { if big { Endianness::Big } else { Endianness::Little } }
fn raw<T: Pod>(b: &[u8]) -> &T { let (r, rest) = nd::must(pod::from_bytes::<T>(b)); nd::ck(rest.is_empty()); r }
fn menc(m: M) -> wm::Encoder<Endianness> {
    let c = wm::Encoder::new(endian(m.big), m.is64);
    nd::ck(c.is_64() == m.is64 && (c.endian() == Endianness::Big) == m.big && c.address_size() == m.w() as u64);
    c
}
fn any<const N: usize>() -> [u8; N] { nd::bytes() }
/// bytes after the load command header, of any contents
fn cmd<const N: usize>(m: M, c: u64, size: u64) -> [u8; N] {
    let mut b = any::<N>();
    m.put(&mut b, 0, 4, c);
    m.put(&mut b, 4, 4, size);
    b
}
#[track_caller]
fn same(out: &[u8], b: &[u8], size: u64) {
    nd::ck_eq(out.len() as u64, size);
    nd::ck_bytes(out, b);
}
fn header<H: object::read::macho::MachHeader<Endian = Endianness>>(m: M, b: &[u8]) {
    let c = menc(m);
    let h = wm::MachHeader::from_raw(endian(m.big), raw::<H>(b));
    for (i, v) in [h.cputype.0, h.cpusubtype.0, h.filetype.0, h.ncmds, h.sizeofcmds, h.flags.0].into_iter().enumerate() { nd::ck_eq(v as u64, m.u32(b, 4 + 4 * i)); }
    let mut o = vec![];
    c.mach_header(&mut o, &h);
    same(&o, b, c.mach_header_size());
}
fn segment<S: object::read::macho::Segment<Endian = Endianness>>(m: M) {
    let c = menc(m);
    let n = nd::u16() as u64;
    let mut b = any::<72>();
    let size = m.seg() as u64 + n * m.sect() as u64;
    nd::ck_eq(c.segment_command_size(n as u32), size);
    m.put(&mut b, 0, 4, if m.is64 { 0x19 } else { 1 });
    m.put(&mut b, 4, 4, size);
    m.segset(&mut b, 0, 6, n);
    let b = &b[..m.seg()];
    let s = wm::SegmentCommand::from_raw(endian(m.big), raw::<S>(b));
    nd::ck_bytes(&s.segname, &b[8..24]);
    for (i, v) in [s.vmaddr, s.vmsize, s.fileoff, s.filesize, s.maxprot.0 as u64, s.initprot.0 as u64, s.nsects as u64, s.flags.0 as u64].into_iter().enumerate() { nd::ck_eq(v, m.segget(b, 0, i)); }
    let mut o = vec![1];
    c.segment_command(&mut o, &s);
    same(&o[1..], b, c.segment_command_size(0));
}
fn section<S: object::read::macho::Section<Endian = Endianness>>(m: M) {
    let c = menc(m);
    let b = any::<80>();
    let b = &b[..m.sect()];
    let s = wm::SectionHeader::from_raw(endian(m.big), raw::<S>(b));
    nd::ck_bytes(&s.sectname, &b[..16]);
    nd::ck_bytes(&s.segname, &b[16..32]);
    for (i, v) in [s.addr, s.size, s.offset as u64, s.align as u64, s.reloff as u64, s.nreloc as u64, s.flags.0 as u64, s.reserved1 as u64, s.reserved2 as u64, s.reserved3 as u64].into_iter().enumerate() {
        nd::ck_eq(v, if i == 9 && !m.is64 { 0 } else { m.sectget(b, 0, i) });
    }
    let mut o = vec![];
    c.section_header(&mut o, &s);
    same(&o, b, c.section_header_size());
}
fn nlist<N: object::read::macho::Nlist<Endian = Endianness>>(m: M) {
    let c = menc(m);
    let b = any::<16>();
    let b = &b[..m.nlist()];
    let s = wm::Nlist::from_raw(endian(m.big), raw::<N>(b));
    nd::ck_eq(s.n_strx as u64, m.u32(b, 0));
    nd::ck(s.n_type.0 == b[4] && s.n_sect == b[5]);
    nd::ck_eq(s.n_desc.0 as u64, m.get(b, 6, 2));
    nd::ck_eq(s.n_value, m.get(b, 8, m.w()));
    let mut o = vec![];
    c.nlist(&mut o, &s);
    same(&o, b, c.nlist_size());
}
/// (number of bytes of a code directory header) by version
fn dirsize(v: u32) -> usize {
    let mut n = 44;
    if v >= 0x20100 { n += 4; }
    if v >= 0x20200 { n += 4; }
    if v >= 0x20300 { n += 12; }
    if v >= 0x20400 { n += 24; }
    n
}
fn directory(len: usize, version: u32) {
    let b = any::<88>();
    let b = &b[..len];
    nd::assume(img::get(b, 8, 4, true) == version as u64);
    nd::assume(img::get(b, 0, 4, true) == 0xfade_0c02);
    let r = nd::must(RawDirectory::parse(b));
    let d = wm::CodeDirectory::from_raw(&r);
    let g = |at: usize, n: usize| if at < len { img::get(b, at, n, true) } else { 0 };
    for (i, v) in [d.length, d.version.0, d.flags.0, d.hash_offset, d.ident_offset, d.n_special_slots, d.n_code_slots].into_iter().enumerate() { nd::ck_eq(v as u64, g(4 + 4 * i, 4)); }
    nd::ck(d.hash_size == b[36] && d.hash_type.0 == b[37] && d.platform == b[38] && d.page_size == b[39]);
    nd::ck_eq(d.scatter_offset as u64, g(44, 4));
    nd::ck_eq(d.team_offset as u64, g(48, 4));
    nd::ck_eq(d.code_limit, if g(56, 8) != 0 { g(56, 8) } else { g(32, 4) });
    for (i, v) in [d.exec_seg_base, d.exec_seg_limit, d.exec_seg_flags.0].into_iter().enumerate() { nd::ck_eq(v, g(64 + 8 * i, 8)); }
    let c = wm::CodeSignatureEncoder;
    let mut o = vec![];
    c.code_directory(&mut o, &d);
    nd::ck_eq(o.len() as u64, len as u64);
    nd::ck_eq(c.code_directory_size(d.version) as u64, len as u64);
    let wide = d.code_limit > 0xffff_ffff;
    for i in 0..len {
        // the limit is in one of two fields, the unused bytes are zero
        let (k, v) = match i {
            32..36 => (if wide { 0xff } else { (d.code_limit >> (8 * (35 - i))) as u8 }, o[i]),
            40..44 | 52..56 => (0, o[i]),
            56..64 => (if wide { (d.code_limit >> (8 * (63 - i))) as u8 } else { 0 }, o[i]),
            _ => (b[i], o[i]),
        };
        nd::ck(k == v);
    }
}
fn eenc(e: E) -> we::Encoder<Endianness> { we::Encoder::new(endian(e.big), e.is64, elf::Machine(0)) }
/// (program headers, sections, string section) as the format counts them
fn counts(e: E, h: &[u8], s: &[u8]) -> (u64, u64, u64) {
    let (off, shoff) = (e.rd(h, e.eh_phoff()), e.rd(h, e.eh_shoff()));
    let (p, n, x) = (e.rd(h, e.eh_phnum()), e.rd(h, e.eh_shnum()), e.rd(h, e.eh_shstrndx()));
    (
        if off == 0 { 0 } else if p == 0xffff { e.shget(s, 0, 7) } else { p },
        if shoff == 0 { 0 } else if n == 0 { e.shget(s, 0, 5) } else { n },
        if x == 0xffff { e.shget(s, 0, 6) } else { x },
    )
}
fn elf_header<H: object::read::elf::FileHeader<Endian = Endianness>>(e: E) {
    let c = eenc(e);
    let at = e.eh();
    let mut b = any::<128>();
    let b = &mut b[..at + e.sh()];
    let (phnum, shnum) = (e.rd(b, e.eh_phnum()), e.rd(b, e.eh_shnum()));
    e.ident(b);
    let mut i = 9;
    while i < 16 { b[i] = 0; i += 1; }
    // a table exists exactly when it has an offset
    e.set(b, e.eh_shoff(), at as u64);
    nd::assume((e.rd(b, e.eh_phoff()) == 0) == (phnum == 0));
    if phnum == 0 { e.set(b, e.eh_phentsize(), 0); nd::reach(2); }
    nd::assume(e.shget(b, at, 7) >= 0xffff || phnum != 0xffff);
    nd::assume(shnum != 0 || (e.shget(b, at, 5) != 0 && e.shget(b, at, 5) <= 0xffff_ffff));
    nd::assume(shnum < 0xff00 && (shnum != 0 || e.shget(b, at, 5) >= 0xff00));
    let x = e.rd(b, e.eh_shstrndx());
    nd::assume(x < 0xff00 || (x == 0xffff && e.shget(b, at, 6) >= 0xff00));
    let b = &*b;
    let f: &H = raw(&b[..at]);
    let h = we::FileHeader::from_raw(endian(e.big), f);
    nd::ck(h.os_abi.0 == b[7] && h.abi_version == b[8]);
    let l = nd::must(we::FileHeaderLayout::from_raw(endian(e.big), f, b));
    nd::ck((l.segment_num as u64, l.section_num as u64, l.shstrtab_index as u64) == counts(e, b, &b[at..]));
    let mut o = vec![];
    nd::must(c.file_header(&mut o, &h, &l));
    same(&o, &b[..at], c.file_header_size());
    let mut s = vec![];
    c.null_section_header(&mut s, &l);
    nd::ck_eq(s.len() as u64, e.sh() as u64);
    nd::ck(counts(e, &o, &s) == counts(e, b, &b[at..]));
    // what is not in the header is in the first section, which is otherwise zero
    let mut z = vec![0; e.sh()];
    for (f, over) in [(5, shnum == 0), (6, x == 0xffff), (7, phnum == 0xffff)] { if over { e.shset(&mut z, 0, f, e.shget(b, at, f)); nd::reach(3); } }
    nd::ck_bytes(&s, &z);
    nd::reach(1);
}
fn elf_records<H: object::read::elf::FileHeader<Endian = Endianness>>(e: E) {
    let (c, n) = (eenc(e), endian(e.big));
    let b = any::<64>();
    let mut o = vec![];
    let p = &b[..e.ph()];
    c.program_header(&mut o, &we::ProgramHeader::from_raw(n, raw::<H::ProgramHeader>(p)));
    same(&o, p, c.program_header_size());
    o.clear();
    let s = &b[..e.sh()];
    c.section_header(&mut o, &we::SectionHeader::from_raw(n, raw::<H::SectionHeader>(s)));
    same(&o, s, c.section_header_size());
    o.clear();
    let y = &b[..e.sym()];
    // the section index is not stored when the record has none
    let k = e.symget(y, 0, 3);
    let d = nd::u32();
    let ordinary = k != 0 && k < 0xff00;
    nd::assume(!(k == 0xffff) || d >= 0xff00);
    let section = if ordinary { Some(k as u32) } else if k == 0xffff { Some(d) } else { None };
    let r = c.symbol(&mut o, &we::Sym::from_raw(n, raw::<H::Sym>(y), section));
    nd::ck(r == if k == 0xffff { Some(d) } else { None });
    same(&o, y, c.sym_size());
}
fn elf_rel<H: object::read::elf::FileHeader<Endian = Endianness>>(e: E) {
    let n = endian(e.big);
    let b = any::<24>();
    let w = e.w();
    let mips = e.is64 && !e.big && nd::flag();
    let c = we::Encoder::new(n, e.is64, elf::Machine(if mips { 8 } else { 62 }));
    nd::ck(c.is_mips64el() == mips);
    let mut o = vec![];
    let a = &b[..3 * w];
    c.relocation(&mut o, true, &we::Rel::from_rela(n, raw::<H::Rela>(a), mips));
    same(&o, a, c.rel_size(true));
    if !mips {
        o.clear();
        let a = &b[..2 * w];
        c.relocation(&mut o, false, &we::Rel::from_rel(n, raw::<H::Rel>(a)));
        same(&o, a, c.rel_size(false));
    }
}

harnesses! {
    /// Mach-O file headers with any fields, both classes and byte orders
    fn c35_macho_header() {
        let m = M::any();
        let mut b = any::<32>();
        img::put(&mut b, 0, 4, 0xfeed_face + m.is64 as u64, m.big);
        img::put(&mut b, 28, 4, 0, m.big);
        if m.is64 { header::<macho::MachHeader64<Endianness>>(m, &b) } else { header::<macho::MachHeader32<Endianness>>(m, &b[..28]) }
    }
    /// segment commands with any fields and up to 65535 sections, and section headers with any fields
    fn c35_macho_segment() {
        let m = M::any();
        if m.is64 {
            segment::<macho::SegmentCommand64<Endianness>>(m);
            section::<macho::Section64<Endianness>>(m);
        } else {
            segment::<macho::SegmentCommand32<Endianness>>(m);
            section::<macho::Section32<Endianness>>(m);
        }
    }
    /// symbols and relocations of any contents
    fn c35_macho_symbol() {
        let m = M::any();
        let c = menc(m);
        if m.is64 { nlist::<macho::Nlist64<Endianness>>(m) } else { nlist::<macho::Nlist32<Endianness>>(m) }
        let b = any::<8>();
        let mut o = vec![];
        c.relocation(&mut o, &raw::<macho::Relocation<Endianness>>(&b).info(endian(m.big)));
        same(&o, &b, c.relocation_size());
        o.clear();
        let v = nd::u32();
        c.indirect_symbol(&mut o, macho::IndirectSymbol(v));
        nd::ck_eq(o.len() as u64, c.indirect_symbol_size());
        nd::ck_eq(m.u32(&o, 0), v as u64);
    }
    /// symbol table, dynamic symbol table, dyld info, linkedit data and build version commands with any fields
    fn c35_macho_commands() {
        let m = M::any();
        let (c, n) = (menc(m), endian(m.big));
        let mut o = vec![];
        let b = cmd::<24>(m, 2, 24);
        let s = wm::SymtabCommand::from_raw(n, raw(&b));
        for (i, v) in [s.symoff, s.nsyms, s.stroff, s.strsize].into_iter().enumerate() { nd::ck_eq(v as u64, m.u32(&b, 8 + 4 * i)); }
        c.symtab_command(&mut o, &s);
        same(&o, &b, c.symtab_command_size());
        o.clear();
        let b = cmd::<80>(m, 0xb, 80);
        let d = wm::DysymtabCommand::from_raw(n, raw(&b));
        let f = [
            d.ilocalsym, d.nlocalsym, d.iextdefsym, d.nextdefsym, d.iundefsym, d.nundefsym, d.tocoff, d.ntoc, d.modtaboff, d.nmodtab,
            d.extrefsymoff, d.nextrefsyms, d.indirectsymoff, d.nindirectsyms, d.extreloff, d.nextrel, d.locreloff, d.nlocrel,
        ];
        for (i, v) in f.into_iter().enumerate() { nd::ck_eq(v as u64, m.u32(&b, 8 + 4 * i)); }
        c.dysymtab_command(&mut o, &d);
        same(&o, &b, c.dysymtab_command_size());
        o.clear();
        let mut b = any::<48>();
        m.put(&mut b, 4, 4, 48);
        let d = wm::DyldInfoCommand::from_raw(n, raw(&b));
        let f = [d.rebase_off, d.rebase_size, d.bind_off, d.bind_size, d.weak_bind_off, d.weak_bind_size, d.lazy_bind_off, d.lazy_bind_size, d.export_off, d.export_size];
        for (i, v) in f.into_iter().enumerate() { nd::ck_eq(v as u64, m.u32(&b, 8 + 4 * i)); }
        c.dyld_info_command(&mut o, macho::LoadCommandType(m.u32(&b, 0) as u32), &d);
        same(&o, &b, c.dyld_info_command_size());
        o.clear();
        let (k, off, size) = (nd::u32(), nd::u32(), nd::u32());
        c.linkedit_data_command(&mut o, macho::LoadCommandType(k), off, size);
        nd::ck_eq(o.len() as u64, c.linkedit_data_command_size());
        for (i, v) in [k, 16, off, size].into_iter().enumerate() { nd::ck_eq(v as u64, m.u32(&o, 4 * i)); }
        o.clear();
        let t = nd::u16() as u64;
        let mut b = cmd::<24>(m, 0x32, 24 + 8 * t);
        m.put(&mut b, 20, 4, t);
        let v = wm::BuildVersionCommand::from_raw(n, raw(&b));
        for (i, v) in [v.platform.0, v.minos.0, v.sdk.0, v.ntools].into_iter().enumerate() { nd::ck_eq(v as u64, m.u32(&b, 8 + 4 * i)); }
        c.build_version_command(&mut o, &v);
        same(&o, &b, c.build_version_command_size(0));
        nd::ck_eq(c.build_version_command_size(t as u32), 24 + 8 * t);
        o.clear();
        c.build_tool_version(&mut o, macho::Tool(k), macho::Version(off));
        nd::ck(o.len() == 8 && m.u32(&o, 0) == k as u64 && m.u32(&o, 4) == off as u64);
    }
    /// dylib commands with a name of up to 9 bytes, and raw commands with up to 9 bytes
    fn c35_macho_dylib() {
        let m = M::any();
        let (c, n) = (menc(m), endian(m.big));
        let k = nd::below(10);
        let size = (24 + k + m.w()) / m.w() * m.w();
        nd::ck_eq(c.dylib_command_size(k), size as u64);
        let mut b = any::<48>();
        m.put(&mut b, 4, 4, size as u64);
        m.put(&mut b, 8, 4, 24);
        let mut i = 24 + k;
        while i < 48 { b[i] = 0; i += 1; }
        let d = wm::DylibCommand::from_raw(n, raw(&b[..24]), &b[24..24 + k]);
        let f = [d.cmd.0 as u64, size as u64, 24, d.timestamp as u64, d.current_version.0 as u64, d.compatibility_version.0 as u64];
        for (i, v) in f.into_iter().enumerate() { nd::ck_eq(v, m.u32(&b, 4 * i)); }
        let mut o = vec![];
        c.dylib_command(&mut o, &d);
        same(&o, &b[..size], size as u64);
        o.clear();
        c.load_command(&mut o, d.cmd, &b[24..24 + k]);
        nd::ck_eq(o.len() as u64, c.load_command_size(k as u64));
        nd::ck_eq(m.u32(&o, 0), d.cmd.0 as u64);
        nd::ck_eq(m.u32(&o, 4), 8 + k as u64);
        nd::ck_bytes(&o[8..], &b[24..24 + k]);
        let x = nd::u32() as u64;
        nd::ck_eq(c.load_command_size(x), 8 + x);
    }
    /// string tables of two strings of up to 4 bytes
    fn c35_macho_strtab() {
        let m = M::any();
        let c = menc(m);
        let (a, b) = (any::<4>(), any::<4>());
        let (a, b) = (&a[..nd::below(5)], &b[..nd::below(5)]);
        nd::assume(a.iter().all(|x| *x != 0) && b.iter().all(|x| *x != 0));
        let mut t = StringTable::default();
        let (x, y) = (t.add(a), t.add(b));
        let mut o = vec![];
        let n = nd::must(c.strtab(&mut o, &mut t));
        nd::ck(o.len() == n as usize && o.len() % m.w() == 0);
        nd::ck(o[0] == 0);
        // nothing but the strings and less than a word of padding
        nd::ck(o.len() < 1 + a.len() + b.len() + 2 + m.w());
        for (s, id) in [(a, x), (b, y)] {
            let at = t.get_offset(id);
            nd::ck(nd::some(img::cstr(&o, at as u64, o.len() as u64)).len() == s.len());
            nd::ck_bytes(&o[at as usize..at as usize + s.len()], s);
        }
        nd::reach(1);
    }
    /// code directories of each version with any fields
    /// @reach 1,2,3,4,5
    fn c35_code_directory() {
        let k = nd::below(5);
        let v = [nd::range(0x20000, 0x20001) as u32, 0x20100, 0x20200, 0x20300, 0x20400][k];
        directory(dirsize(v), v);
        nd::reach(k as u64 + 1);
    }
    /// super blobs, blob indexes and generic blobs with any fields; sizes of code directories for every version
    fn c35_blobs() {
        let c = wm::CodeSignatureEncoder;
        let (a, b) = (nd::u32(), nd::u32());
        let mut o = vec![];
        c.signature_super_blob(&mut o, a, b);
        nd::ck_eq(o.len() as u64, c.super_blob_size() as u64);
        for (i, v) in [0xfade_0cc0, a, b].into_iter().enumerate() { nd::ck_eq(img::get(&o, 4 * i, 4, true), v as u64); }
        o.clear();
        c.requirements_super_blob(&mut o, a, b);
        nd::ck_eq(o.len() as u64, c.super_blob_size() as u64);
        for (i, v) in [0xfade_0c01, a, b].into_iter().enumerate() { nd::ck_eq(img::get(&o, 4 * i, 4, true), v as u64); }
        o.clear();
        c.blob_index(&mut o, macho::CsSlot(a), b);
        nd::ck_eq(o.len() as u64, c.blob_index_size() as u64);
        for (i, v) in [a, b].into_iter().enumerate() { nd::ck_eq(img::get(&o, 4 * i, 4, true), v as u64); }
        o.clear();
        c.generic_blob(&mut o, a, b);
        nd::ck_eq(o.len() as u64, c.generic_blob_size() as u64);
        for (i, v) in [a, b].into_iter().enumerate() { nd::ck_eq(img::get(&o, 4 * i, 4, true), v as u64); }
        let v = nd::u32();
        nd::assume(v <= 0x20400);
        nd::ck_eq(c.code_directory_size(macho::CsVersion(v)) as u64, dirsize(v) as u64);
    }
    /// ELF file headers and first sections with any fields, all ways to count
    /// @reach 1,2,3
    fn c35_elf_header() {
        let e = E::any();
        if e.is64 { elf_header::<elf::FileHeader64<Endianness>>(e) } else { elf_header::<elf::FileHeader32<Endianness>>(e) }
    }
    /// ELF program headers, section headers and symbols of any contents
    fn c35_elf_records() {
        let e = E::any();
        if e.is64 { elf_records::<elf::FileHeader64<Endianness>>(e) } else { elf_records::<elf::FileHeader32<Endianness>>(e) }
    }
    /// ELF relocations of any contents, also the MIPS 64 layout
    fn c35_elf_rel() {
        let e = E::any();
        if e.is64 { elf_rel::<elf::FileHeader64<Endianness>>(e) } else { elf_rel::<elf::FileHeader32<Endianness>>(e) }
    }
    /// ELF version definitions and requirements, GNU hash headers with any fields
    fn c35_elf_versions() {
        let e = E::any();
        let (c, n) = (eenc(e), endian(e.big));
        let next = nd::bool();
        let mut b = any::<28>();
        let k = e.get(&b, 6, 2);
        e.put(&mut b, 12, 4, 20);
        e.put(&mut b, 16, 4, if next { 20 + 8 * k } else { 0 });
        e.put(&mut b, 24, 4, if k > 1 { 8 } else { 0 });
        let name = e.get(&b, 20, 4) as u32;
        let mut o = vec![];
        c.gnu_verdef(&mut o, next, &we::Verdef::from_raw(n, raw(&b[..20]), name));
        same(&o, &b, c.gnu_verdef_size(1, 1));
        o.clear();
        let mut b = any::<16>();
        let k = e.get(&b, 2, 2);
        e.put(&mut b, 8, 4, if k == 0 { 0 } else { 16 });
        e.put(&mut b, 12, 4, if next { 16 + 16 * k } else { 0 });
        c.gnu_verneed(&mut o, next, &we::Verneed::from_raw(n, raw(&b)));
        same(&o, &b, c.gnu_verneed_size(1, 0));
        o.clear();
        let mut b = any::<16>();
        e.put(&mut b, 12, 4, if next { 16 } else { 0 });
        c.gnu_vernaux(&mut o, next, &we::Vernaux::from_raw(n, raw(&b)));
        same(&o, &b, c.gnu_verneed_size(0, 1));
        o.clear();
        let b = any::<16>();
        let d = nd::u32();
        let t = we::GnuHashTable::from_raw(n, raw(&b), d);
        // buckets, first symbol, bloom words, shift
        for (i, v) in [t.bucket_count, t.symbol_base, t.bloom_count, t.bloom_shift].into_iter().enumerate() { nd::ck_eq(v as u64, e.get(&b, 4 * i, 4)); }
        nd::ck_eq(t.symbol_count as u64, d as u64);
    }
}
