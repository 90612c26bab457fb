//! `write::pe::Writer`: the layout reserved is the file written, and headers, sections, base relocations and certificates say so.
use crate::img::{get, put, P};
use crate::{harnesses, img, nd};
use object::pe;
use object::write::pe::*;

fn up(v: u64, a: u64) -> u64 { (v + a - 1) & !(a - 1) }
fn nt() -> NtHeaders {
    NtHeaders {
        machine: pe::Machine(nd::u16()), time_date_stamp: nd::u32(), characteristics: pe::FileFlags(nd::u16()), major_linker_version: nd::u8(), minor_linker_version: nd::u8(),
        address_of_entry_point: nd::u32(), image_base: nd::u64(), major_operating_system_version: nd::u16(), minor_operating_system_version: nd::u16(), major_image_version: nd::u16(),
        minor_image_version: nd::u16(), major_subsystem_version: nd::u16(), minor_subsystem_version: nd::u16(), subsystem: pe::Subsystem(nd::u16()), dll_characteristics: pe::DllFlags(nd::u16()),
        size_of_stack_reserve: nd::u64(), size_of_stack_commit: nd::u64(), size_of_heap_reserve: nd::u64(), size_of_heap_commit: nd::u64(),
    }
}
/// a section to write
struct S { name: [u8; 8], flags: u32, vsize: u64, data: Vec<u8>, dir: Option<usize> }
fn name(s: &str) -> [u8; 8] { let mut n = [0; 8]; n[..s.len()].copy_from_slice(s.as_bytes()); n }
/// the sections the writer has names for: method, name, flags, directory
fn known(i: usize, w: &mut Writer<'_>, v: u32, d: u32) -> (SectionRange, &'static str, u32, Option<usize>, bool) {
    match i {
        0 => (w.reserve_text_section(d), ".text", 0x6000_0020, None, false),
        1 => (w.reserve_data_section(v, d), ".data", 0xc000_0040, None, true),
        2 => (w.reserve_rdata_section(d), ".rdata", 0x4000_0040, None, false),
        3 => (w.reserve_bss_section(v), ".bss", 0xc000_0080, None, true),
        4 => (w.reserve_idata_section(d), ".idata", 0xc000_0040, Some(1), false),
        5 => (w.reserve_edata_section(d), ".edata", 0x4000_0040, Some(0), false),
        6 => (w.reserve_pdata_section(d), ".pdata", 0x4000_0040, Some(3), false),
        7 => (w.reserve_xdata_section(d), ".xdata", 0x4000_0040, None, false),
        _ => (w.reserve_rsrc_section(d), ".rsrc", 0x4000_0040, Some(2), false),
    }
}
struct Cfg { is64: bool, sa: u32, fa: u32, dirs: usize, dos: usize }
fn cfg(dirs: usize) -> Cfg {
    let (sa, fa) = [(0x1000, 0x200), (0x20, 0x20), (0x40, 8)][nd::below(3)];
    Cfg { is64: nd::flag(), sa, fa, dirs, dos: nd::below(3) }
}
/// write everything; `relocs` and `cert` are optional
fn run(c: &Cfg, make: &mut dyn FnMut(&mut Writer<'_>) -> Vec<(SectionRange, S)>, n: usize, relocs: &[(u32, u16)], cert: &[u8]) {
    let h = nt();
    let mut d = Vec::new();
    let mut w = Writer::new(c.is64, c.sa, c.fa, &mut d);
    let (sa, fa) = (c.sa as u64, c.fa as u64);
    if c.dos == 1 { w.reserve_dos_header_and_stub() } else { w.reserve_dos_header() }
    w.reserve_nt_headers(c.dirs);
    let p = P { is64: c.is64, nt: w.nt_headers_offset() as usize, dirs: c.dirs };
    nd::ck_eq(p.nt as u64, if c.dos == 1 { 128 } else { 64 });
    let extra = (nd::u32(), nd::u32());
    if c.dirs == 16 { w.set_data_directory(14, extra.0, extra.1); }
    w.reserve_section_headers(n as u16);
    let head = up(p.sect(n) as u64, fa);
    nd::ck_eq(w.reserved_len(), head);
    nd::ck_eq(w.virtual_len() as u64, up(head, sa));
    let mut s = make(&mut w);
    for &(a, t) in relocs { w.add_reloc(a, pe::BaseRelocationType(t)); }
    nd::ck(w.has_relocs() == !relocs.is_empty());
    if !relocs.is_empty() {
        let r = w.reserve_reloc_section();
        s.push((r, S { name: name(".reloc"), flags: 0x4200_0040, vsize: 0, data: blocks(relocs), dir: Some(5) }));
        let last = &mut s.last_mut().unwrap().1;
        last.vsize = last.data.len() as u64;
    }
    nd::ck_eq(s.len() as u64, n as u64);
    let before = w.reserved_len();
    if !cert.is_empty() { w.reserve_certificate_table(cert.len() as u32); }
    let len = w.reserved_len();
    let mut custom = nd::bytes::<64>();
    match c.dos {
        0 => nd::must(w.write_empty_dos_header()),
        1 => nd::must(w.write_dos_header_and_stub()),
        _ => {
            put(&mut custom, 0, 2, 0x5a4d, false);
            put(&mut custom, 60, 4, p.nt as u64, false);
            nd::must(w.write_custom_dos_header(nd::must(object::pod::from_bytes::<pe::ImageDosHeader>(&custom)).0))
        }
    }
    w.write_nt_headers(h.clone());
    w.write_section_headers();
    w.write_file_align();
    for (r, s) in &s {
        if s.dir == Some(5) { w.write_reloc_section(); } else { w.write_section(r.file_offset, &s.data); }
    }
    if !cert.is_empty() { w.write_certificate_table(cert); }
    nd::ck_eq(w.len(), len);
    drop(w);
    nd::ck_eq(d.len() as u64, len);
    let g = |o: usize, n: usize| get(&d, o, n, false);
    // DOS header
    match c.dos {
        0 => { for (i, b) in d[..60].iter().enumerate() { nd::ck_eq(*b as u64, if i == 0 { 0x4d } else if i == 1 { 0x5a } else { 0 }); } }
        1 => { nd::ck(g(0, 2) == 0x5a4d && g(2, 2) == 0x90 && g(4, 2) == 3 && g(8, 2) == 4 && g(12, 2) == 0xffff && g(16, 2) == 0xb8 && g(24, 2) == 0x40); nd::ck_bytes(&d[78..128], b"This program cannot be run in DOS mode.\r\r\n$\0\0\0\0\0\0\0");
            // push cs; pop ds; print the message; exit with 1
            nd::ck_bytes(&d[64..78], b"\x0e\x1f\xba\x0e\x00\xb4\x09\xcd\x21\xb8\x01\x4c\xcd\x21"); }
        _ => nd::ck_bytes(&d[..64], &custom),
    }
    nd::ck(g(60, 4) == p.nt as u64 && g(p.nt, 4) == 0x4550);
    // file header
    let f = p.fh();
    nd::ck(g(f, 2) == h.machine.0 as u64 && g(f + 2, 2) == n as u64 && g(f + 4, 4) == h.time_date_stamp as u64 && g(f + 8, 8) == 0);
    nd::ck(g(f + 16, 2) == (p.optsize() + 8 * c.dirs) as u64 && g(f + 18, 2) == h.characteristics.0 as u64);
    // sections and what they add up to
    let (mut va, mut fo) = (up(head, sa), head);
    let (mut code, mut data, mut bss, mut base_code, mut base_data) = (0, 0, 0, 0, 0);
    let mut dirs = [(0, 0); 16];
    for (i, (r, s)) in s.iter().enumerate() {
        let at = p.sect(i);
        nd::ck_bytes(&d[at..at + 8], &s.name);
        let fs = up(s.data.len() as u64, fa);
        let off = if fs == 0 { 0 } else { fo };
        for (k, v) in [s.vsize, va, fs, off, 0, 0, 0, s.flags as u64].into_iter().enumerate() { nd::ck_eq(g(at + 8 + 4 * k, 4), v); }
        nd::ck(r.virtual_address as u64 == va && r.virtual_size as u64 == s.vsize && r.file_offset as u64 == off && r.file_size as u64 == fs);
        let o = off as usize;
        nd::ck_bytes(&d[o..o + s.data.len()], &s.data);
        if fs != 0 { for b in &d[o + s.data.len()..o + fs as usize] { nd::ck(*b == 0); } }
        let v = up(s.vsize, fa);
        if s.flags & 0x20 != 0 { code += v; if base_code == 0 { base_code = va; } }
        else if s.flags & 0x40 != 0 { data += v; if base_data == 0 { base_data = va; } }
        else if s.flags & 0x80 != 0 { bss += v; if base_data == 0 { base_data = va; } }
        if let Some(k) = s.dir { dirs[k] = (va, s.vsize); }
        va = up(va + s.vsize, sa);
        fo += fs;
    }
    nd::ck_eq(before, fo);
    if !cert.is_empty() {
        let o = up(fo, 8);
        dirs[4] = (o, up(cert.len() as u64, 8));
        nd::ck_bytes(&d[o as usize..o as usize + cert.len()], cert);
        nd::ck_eq(len, o + dirs[4].1);
        for b in &d[o as usize + cert.len()..] { nd::ck(*b == 0); }
    } else {
        nd::ck_eq(len, fo);
    }
    if c.dirs == 16 { dirs[14] = (extra.0 as u64, extra.1 as u64); }
    for i in 0..c.dirs { nd::ck(g(p.dir(i), 4) == dirs[i].0 && g(p.dir(i) + 4, 4) == dirs[i].1); }
    // optional header
    let o = p.opt();
    nd::ck(g(o, 2) == if c.is64 { 0x20b } else { 0x10b } && d[o + 2] == h.major_linker_version && d[o + 3] == h.minor_linker_version);
    for (k, v) in [code, data, bss, h.address_of_entry_point as u64, base_code].into_iter().enumerate() { nd::ck_eq(g(o + 4 + 4 * k, 4), v); }
    if c.is64 { nd::ck_eq(g(o + 24, 8), h.image_base); } else { nd::ck(g(o + 24, 4) == base_data && g(o + 28, 4) == h.image_base & 0xffff_ffff); }
    nd::ck(g(o + 32, 4) == sa && g(o + 36, 4) == fa);
    for (k, v) in [h.major_operating_system_version, h.minor_operating_system_version, h.major_image_version, h.minor_image_version, h.major_subsystem_version, h.minor_subsystem_version].into_iter().enumerate() {
        nd::ck_eq(g(o + 40 + 2 * k, 2), v as u64);
    }
    for (k, v) in [0, va, head, 0].into_iter().enumerate() { nd::ck_eq(g(o + 52 + 4 * k, 4), v); }
    nd::ck(g(o + 68, 2) == h.subsystem.0 as u64 && g(o + 70, 2) == h.dll_characteristics.0 as u64);
    let z = if c.is64 { 8 } else { 4 };
    for (k, v) in [h.size_of_stack_reserve, h.size_of_stack_commit, h.size_of_heap_reserve, h.size_of_heap_commit].into_iter().enumerate() { nd::ck_eq(g(o + 72 + z * k, z), if c.is64 { v } else { v & 0xffff_ffff }); }
    nd::ck(g(o + 72 + 4 * z, 4) == 0 && g(o + 76 + 4 * z, 4) == c.dirs as u64);
    // a reader agrees
    let file = nd::must(object::read::FileKind::parse(&*d));
    nd::ck(file == if c.is64 { object::FileKind::Pe64 } else { object::FileKind::Pe32 });
    nd::reach(1);
}
/// relocation blocks for ascending pages
fn blocks(r: &[(u32, u16)]) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    while i < r.len() {
        let page = r[i].0 & !0xfff;
        let mut j = i;
        while j < r.len() && r[j].0 & !0xfff == page { j += 1; }
        let n = (j - i + 1) & !1;
        let p = v.len();
        v.resize(p + 8 + 2 * n, 0);
        put(&mut v, p, 4, page as u64, false);
        put(&mut v, p + 4, 4, 8 + 2 * n as u64, false);
        for k in i..j { put(&mut v, p + 8 + 2 * (k - i), 2, (r[k].1 << 12) as u64 | (r[k].0 & 0xfff) as u64, false); }
        i = j;
    }
    v
}
fn sections(first: usize) {
    let c = cfg(16);
    let b: [u8; 12] = nd::bytes();
    let n = 1 + nd::below(2);
    run(&c, &mut |w| (0..n).map(|i| {
        let k = if i == 0 { first } else { (first + 1 + nd::below(2)) % 9 };
        let size = img::pick(&[1, 9]) as usize;
        let v = img::pick(&[3, 0x1001]) as u32;
        let (r, s, flags, dir, own) = known(k, w, v, size as u32);
        let data = if k == 3 { vec![] } else { b[..size].to_vec() };
        (r, S { name: name(s), flags, vsize: if own { v as u64 } else { size as u64 }, data, dir })
    }).collect(), n, &[], &[]);
}
harnesses! {
    /// a section of any name and flags among two, empty or not, with 2 data directories or 16; every header field symbolic
    /// @reach 1
    fn c27_custom() {
        let c = cfg([2, 16][nd::below(2)]);
        let b: [u8; 12] = nd::bytes();
        let own: [u8; 8] = nd::bytes();
        let flags = [nd::u32(), nd::u32()];
        let n = [img::pick(&[0, 1, 8]) as usize, img::pick(&[0, 5]) as usize];
        let v = [img::pick(&[0, 0x41]) as u32, 0x123];
        run(&c, &mut |w| (0..2).map(|i| {
            let s = if i == 0 { own } else { name("x") };
            let r = w.reserve_section(s, pe::SectionFlags(flags[i]), v[i], n[i] as u32);
            (r, S { name: s, flags: flags[i], vsize: v[i] as u64, data: b[..n[i]].to_vec(), dir: None })
        }).collect(), 2, &[], &[]);
    }
    /// .text, or .text and another section
    /// @reach 1
    fn c27_text() { sections(0) }
    /// .data likewise
    /// @reach 1
    fn c27_data() { sections(1) }
    /// .rdata likewise
    /// @reach 1
    fn c27_rdata() { sections(2) }
    /// .bss likewise
    /// @reach 1
    fn c27_bss() { sections(3) }
    /// .idata likewise
    /// @reach 1
    fn c27_idata() { sections(4) }
    /// .edata likewise
    /// @reach 1
    fn c27_edata() { sections(5) }
    /// .pdata likewise
    /// @reach 1
    fn c27_pdata() { sections(6) }
    /// .xdata likewise
    /// @reach 1
    fn c27_xdata() { sections(7) }
    /// .rsrc likewise
    /// @reach 1
    fn c27_rsrc() { sections(8) }
    /// up to 4 base relocations (thorough 5) of any type at any offset of up to three pages
    /// @reach 1
    fn c27_relocs() {
        let c = Cfg { is64: nd::flag(), sa: 0x1000, fa: 8, dirs: 6, dos: 0 };
        let n = 1 + nd::below(nd::tier(4, 5));
        let mut page = nd::u32() & 0x7fff_f000;
        let mut r = vec![];
        for i in 0..n {
            if i != 0 && nd::flag() { page += 0x1000 * (1 + (nd::u8() as u32)); }
            let t = nd::u16();
            nd::assume(t < 16);
            r.push((page | nd::u16() as u32 & 0xfff, t));
        }
        run(&c, &mut |_| vec![], 1, &r, &[]);
    }
    /// a certificate table of up to 9 bytes after a section or none
    /// @reach 1
    fn c27_certificates() {
        let c = Cfg { is64: nd::flag(), sa: 0x20, fa: [4, 0x20][nd::below(2)], dirs: 16, dos: 0 };
        let b: [u8; 9] = nd::bytes();
        let n = nd::below(2);
        let size = img::pick(&[1, 4, 5, 8]) as usize;
        run(&c, &mut |w| (0..n).map(|_| {
            let r = w.reserve_text_section(size as u32);
            (r, S { name: name(".text"), flags: 0x6000_0020, vsize: size as u64, data: b[..size].to_vec(), dir: None })
        }).collect(), n, &[], &b[..img::pick(&[1, 8, 9]) as usize]);
    }
    /// gaps in the file and address space between two sections, reserved with any length up to 16 bits and written by hand
    /// @reach 1
    fn c27_gaps() {
        let is64 = nd::flag();
        let (sa, fa) = (0x40u32, 8u32);
        let b: [u8; 9] = nd::bytes();
        let stub = img::pick(&[64, 65, 90]) as u32;
        let mut d = Vec::new();
        let mut w = Writer::new(is64, sa, fa, &mut d);
        w.reserve_dos_header();
        w.reserve_until(stub);
        nd::ck_eq(w.reserved_len(), stub as u64);
        w.reserve_align(8);
        w.reserve_nt_headers(2);
        let p = P { is64, nt: w.nt_headers_offset() as usize, dirs: 2 };
        nd::ck_eq(p.nt as u64, up(stub as u64, 8));
        w.reserve_section_headers(2);
        let head = up(p.sect(2) as u64, 8);
        let v0 = up(head, 0x40);
        let n = [img::pick(&[0, 1, 8]) as u32, 3];
        let v = [nd::u16() as u32, nd::u16() as u32];
        let r0 = w.reserve_section(name("a"), pe::SectionFlags(0x40), v[0], n[0]);
        let v1 = v0 + up(v[0] as u64, 0x40);
        nd::ck(w.virtual_len() as u64 == v1 && r0.virtual_address as u64 == v0);
        let gap = nd::u16() as u32;
        nd::ck_eq(w.reserve_virtual(gap) as u64, v1);
        let mut v2 = v1 + up(gap as u64, 0x40);
        nd::ck_eq(w.virtual_len() as u64, v2);
        if nd::flag() {
            // up to an address, which may be the current one
            let x = v2 as u32 + nd::u16() as u32;
            w.reserve_virtual_until(x);
            v2 = up(x as u64, 0x40);
            nd::ck_eq(w.virtual_len() as u64, v2);
        }
        // nothing is reserved for no bytes
        let f1 = head + up(n[0] as u64, 8);
        nd::ck(w.reserve(0, 64) as u64 == f1 && w.reserved_len() == f1);
        nd::ck_eq(w.reserve(3, 4) as u64, f1);
        nd::ck_eq(w.reserve_file(5) as u64, f1 + 8);
        nd::ck_eq(w.reserved_len(), f1 + 13);
        let r1 = w.reserve_section(name("b"), pe::SectionFlags(0x40), v[1], n[1]);
        nd::ck(r1.file_offset as u64 == f1 + 16 && r1.virtual_address as u64 == v2);
        let end = w.reserved_len();
        nd::ck_eq(end, f1 + 24);
        w.reserve_until(end as u32 + 2);
        nd::must(w.write_empty_dos_header());
        w.pad_until(stub);
        w.write_align(8);
        w.write_nt_headers(nt());
        w.write_section_headers();
        w.write_file_align();
        w.write_section(r0.file_offset, &b[..n[0] as usize]);
        w.write(&b[..3]);
        w.write_file_align();
        nd::ck_eq(w.len(), f1 + 8);
        w.write(&b[4..9]);
        w.write_section(r1.file_offset, &b[..3]);
        w.pad_until(end as u32 + 2);
        nd::ck_eq(w.len(), end + 2);
        drop(w);
        nd::ck_eq(d.len() as u64, end + 2);
        let g = |o: usize| get(&d, o, 4, false);
        nd::ck_eq(g(60), p.nt as u64);
        for x in &d[64..p.nt] { nd::ck(*x == 0); }
        nd::ck_eq(g(p.nt), 0x4550);
        for (i, (va, fo)) in [(v0, if n[0] == 0 { 0 } else { head }), (v2, f1 + 16)].into_iter().enumerate() {
            let at = p.sect(i);
            nd::ck(g(at + 8) == v[i] as u64 && g(at + 12) == va && g(at + 16) == up(n[i] as u64, 8) && g(at + 20) == fo);
        }
        nd::ck_eq(g(p.opt() + 56), up(v2 + v[1] as u64, 0x40));
        let f1 = f1 as usize;
        nd::ck_bytes(&d[head as usize..head as usize + n[0] as usize], &b[..n[0] as usize]);
        nd::ck_bytes(&d[f1..f1 + 3], &b[..3]);
        nd::ck_bytes(&d[f1 + 8..f1 + 13], &b[4..9]);
        nd::ck_bytes(&d[f1 + 16..f1 + 19], &b[..3]);
        for k in (f1 + 3..f1 + 8).chain(f1 + 13..f1 + 16).chain(f1 + 19..d.len()) { nd::ck(d[k] == 0); }
        nd::reach(1);
    }
}
