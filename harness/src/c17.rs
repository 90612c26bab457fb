//! PE images: headers, sections, address mapping, data directories, rich header, base relocations, debug information.
use crate::{harnesses, img, nd};
use img::P;
use nd::Buf;
use object::pe;
use object::read::pe::{optional_header_magic, ImageNtHeaders, ImageOptionalHeader, PeFile, RichHeaderInfo};
use object::read::*;
use object::{Permissions, SectionFlags, SegmentFlags};

macro_rules! by_class {
    ($is64:expr, $f:ident($($a:expr),*)) => { if $is64 { $f::<pe::ImageNtHeaders64>($($a),*) } else { $f::<pe::ImageNtHeaders32>($($a),*) } };
}
fn put(b: &mut [u8], off: usize, n: usize, v: u64) { img::put(b, off, n, v, false) }
fn get(b: &[u8], off: usize, n: usize) -> u64 { img::get(b, off, n, false) }
fn file<'a, Pe: ImageNtHeaders>(d: &'a [u8]) -> PeFile<'a, Pe> { nd::must(PeFile::<Pe>::parse(d)) }

/// what makes an image acceptable
fn accept<Pe: ImageNtHeaders>(is64: bool) {
    let mut b = Buf::<352>::zero();
    let p = P { is64, nt: 64, dirs: 2 };
    p.header(&mut b.0, 1);
    let nt = img::pick(&[0, 4, 64, 66, 72, 348, 0xffff_fffc]) as usize;
    let q = P { is64, nt, dirs: 0 };
    put(&mut b.0, 60, 4, nt as u64);
    match nd::below(4) {
        0 => nd::fill(&mut b.0[0..2]),
        1 => nd::fill(&mut b.0[64..68]),
        2 => nd::fill(&mut b.0[88..90]),
        _ => {}
    }
    let size = img::pick(&[0, p.optsize() as u64 - 1, p.optsize() as u64, p.optsize() as u64 + 7, p.optsize() as u64 + 8, p.optsize() as u64 + 16, 0xffff]);
    put(&mut b.0, p.fh() + 16, 2, size);
    let dirs = img::pick(&[0, 1, 2, 3, 0xffff_ffff]);
    put(&mut b.0, p.opt() + p.optsize() - 4, 4, dirs);
    let ns = img::pick(&[0, 1, 2, 0xffff]);
    put(&mut b.0, p.fh() + 2, 2, ns);
    let len = [63, 64, 66, 100, 200, 240, 256, 352][nd::below(8)];
    let d = &b.0[..len];
    let dos = len >= 64 && get(&b.0, 0, 2) == 0x5a4d;
    let lay = dos && img::fits(nt as u64, (24 + q.optsize()) as u64, len);
    let ok = lay && {
        let (size, dirs, ns) = (get(d, q.fh() + 16, 2), get(d, q.opt() + q.optsize() - 4, 4), get(d, q.fh() + 2, 2));
        let o = q.optsize() as u64;
        get(d, nt, 4) == 0x4550 && get(d, q.opt(), 2) == if is64 { 0x20b } else { 0x10b }
            && size >= o && img::fits(q.opt() as u64, size, len) && 8 * dirs <= size - o
            && img::readable(q.opt() as u64 + size, 40 * ns, len)
    };
    let r = PeFile::<Pe>::parse(d);
    nd::ck(r.is_ok() == ok);
    let m = optional_header_magic(d);
    let mok = dos && img::fits(nt as u64, 120, len) && get(d, nt, 4) == 0x4550;
    nd::ck(m.is_ok() == mok);
    if let Ok(m) = m { nd::ck_eq(m as u64, get(d, q.opt(), 2)); }
    let Ok(f) = r else { nd::reach(1); return };
    nd::ck_eq(f.data_directories().len() as u64, dirs);
    nd::ck_eq(f.sections().count() as u64, ns);
    nd::ck(f.is_64() == is64 && f.is_little_endian());
    nd::reach(2);
}
/// every header field
fn fields<Pe: ImageNtHeaders>(is64: bool) {
    let mut b = Buf::<320>::zero();
    nd::fill(&mut b.0);
    let p = P { is64, nt: 64, dirs: 1 };
    p.header(&mut b.0, 1);
    nd::fill(&mut b.0[68..70]);
    let d = &b.0[..];
    let f = file::<Pe>(d);
    let (h, o) = (f.nt_headers().file_header(), f.nt_headers().optional_header());
    let m = get(d, 68, 2);
    nd::ck(f.architecture() == match m { 0x1c4 => Architecture::Arm, 0xaa64 | 0xa641 => Architecture::Aarch64, 0x14c => Architecture::I386, 0x8664 => Architecture::X86_64, _ => Architecture::Unknown });
    nd::ck(f.sub_architecture().is_some() == (m == 0xa641));
    let c = get(d, 86, 2);
    nd::ck(f.kind() == if c & 0x2000 != 0 { ObjectKind::Dynamic } else if c & 0x1000 != 0 { ObjectKind::Unknown } else { ObjectKind::Executable });
    let object::FileFlags::Coff { characteristics } = f.flags() else { nd::ck(false); return };
    nd::ck_eq(characteristics.0 as u64, c);
    use object::endian::LittleEndian as LE;
    nd::ck_eq(h.time_date_stamp.get(LE) as u64, get(d, 72, 4));
    let w = if is64 { 8 } else { 4 };
    let base = if is64 { get(d, 88 + 24, 8) } else { get(d, 88 + 28, 4) };
    let at = 88 + 32;
    nd::ck_eq(f.relative_address_base(), base);
    nd::ck_eq(f.entry(), base.wrapping_add(get(d, 88 + 16, 4)));
    nd::ck_eq(o.magic() as u64, get(d, 88, 2));
    nd::ck_eq(o.major_linker_version() as u64, d[90] as u64);
    nd::ck_eq(o.minor_linker_version() as u64, d[91] as u64);
    for (i, v) in [o.size_of_code(), o.size_of_initialized_data(), o.size_of_uninitialized_data(), o.address_of_entry_point(), o.base_of_code()].into_iter().enumerate() { nd::ck_eq(v as u64, get(d, 92 + 4 * i, 4)); }
    nd::ck(o.base_of_data() == if is64 { None } else { Some(get(d, 112, 4) as u32) });
    nd::ck_eq(o.image_base(), base);
    nd::ck_eq(o.section_alignment() as u64, get(d, at, 4));
    nd::ck_eq(o.file_alignment() as u64, get(d, at + 4, 4));
    for (i, v) in [o.major_operating_system_version(), o.minor_operating_system_version(), o.major_image_version(), o.minor_image_version(), o.major_subsystem_version(), o.minor_subsystem_version()].into_iter().enumerate() { nd::ck_eq(v as u64, get(d, at + 8 + 2 * i, 2)); }
    for (i, v) in [o.win32_version_value(), o.size_of_image(), o.size_of_headers(), o.check_sum()].into_iter().enumerate() { nd::ck_eq(v as u64, get(d, at + 20 + 4 * i, 4)); }
    nd::ck_eq(o.subsystem().0 as u64, get(d, at + 36, 2));
    nd::ck_eq(o.dll_characteristics().0 as u64, get(d, at + 38, 2));
    for (i, v) in [o.size_of_stack_reserve(), o.size_of_stack_commit(), o.size_of_heap_reserve(), o.size_of_heap_commit()].into_iter().enumerate() { nd::ck_eq(v, get(d, at + 40 + w * i, w)); }
    nd::ck_eq(o.loader_flags() as u64, get(d, at + 40 + 4 * w, 4));
    nd::ck_eq(o.number_of_rva_and_sizes() as u64, 1);
    let dir = nd::some(f.data_directories().iter().next());
    nd::ck(dir.address_range() == (get(d, p.dir(0), 4) as u32, get(d, p.dir(0) + 4, 4) as u32));
    nd::ck(f.data_directory(0).is_some() == (get(d, p.dir(0), 4) != 0));
    nd::ck(f.data_directory(1).is_none());
    nd::reach(1);
}

const N: usize = 352;
/// an image with one directory and `n` sections whose addresses and ranges vary
fn image(is64: bool, n: usize) -> (Buf<N>, P) {
    let mut b = Buf::<N>::zero();
    let p = P { is64, nt: 64, dirs: 1 };
    p.header(&mut b.0, n);
    (b, p)
}
/// arbitrary addresses, sizes and query: which section and file range
fn map<Pe: ImageNtHeaders>(is64: bool, n: usize) {
    let (mut b, p) = image(is64, n);
    let mut secs = [(0u32, 0u32, 0u32, 0u32); 2];
    for i in 0..n {
        let (va, vsize, raw, rsize) = (nd::u32(), nd::u32(), nd::u32(), nd::u32());
        secs[i] = (va, vsize, raw, rsize);
        p.section(&mut b.0, i, va as u64, vsize as u64, raw as u64, rsize as u64);
    }
    let d = &b.0[..];
    let f = file::<Pe>(d);
    let t = f.section_table();
    let va = nd::u32();
    let (mut range, mut owner) = (None, None);
    for i in (0..n).rev() {
        let (sva, vsize, raw, rsize) = secs[i];
        let k = va.wrapping_sub(sva);
        if va >= sva && k < vsize { owner = Some(i); }
        let size = if vsize < rsize { vsize } else { rsize };
        if va >= sva && k < size && raw <= !k { range = Some((raw + k, size - k)); }
    }
    nd::ck(t.pe_file_range_at(va) == range);
    let r = t.section_containing(va);
    nd::ck(r.is_some() == owner.is_some());
    if let (Some(r), Some(i)) = (r, owner) { nd::ck_eq(r as *const _ as u64 - d.as_ptr() as u64, p.sect(i) as u64); nd::reach(1); }
    if range.is_some() { nd::reach(2); }
}
/// the bytes found there
fn data<Pe: ImageNtHeaders>(is64: bool) {
    let (mut b, p) = image(is64, 2);
    let mut secs = [(0, 0x40, 344, 8), (0, 0, 0, 0)];
    let base = img::pick(&[0, 0x1000, 0xffff_ffe0]);
    let (raw, rsize) = [(0, 0), (320, 32), (336, 8), (340, 40), (0xffff_fff8, 16)][nd::below(5)];
    let at = nd::below(2);
    secs[at] = (base, img::pick(&[0, 5, 32, 0x50]), raw, rsize);
    if at == 0 { secs[1] = (0x10, 0x40, 344, 8); }
    for i in 0..2 { let (a, v, r, s) = secs[i]; p.section(&mut b.0, i, a, v, r, s); }
    let d = &b.0[..];
    let f = file::<Pe>(d);
    let t = f.section_table();
    let va = img::pick(&[0, 4, 7, 8, 0x10, 0x17, 0xfff, 0x1000, 0x1004, 0x1005, 0x101f, 0x1020, 0xffff_ffe0, 0xffff_ffff]);
    let (mut data, mut containing) = (None, None);
    for &(sva, vsize, raw, rsize) in secs.iter().rev() {
        let size = if vsize < rsize { vsize } else { rsize };
        if va < sva || va - sva >= size { continue; }
        let k = va - sva;
        if img::fits(raw + k, size - k, N) { data = Some((raw + k, size - k)); }
        if img::fits(raw, size, N) { containing = Some((raw, size, sva)); }
    }
    let r = t.pe_data_at(d, va as u32);
    nd::ck(r.is_some() == data.is_some());
    if let (Some(r), Some((o, n))) = (r, data) { img::same_slice(r, d, o, n); nd::reach(1); }
    let r = t.pe_data_containing(d, va as u32);
    nd::ck(r.is_some() == containing.is_some());
    if let (Some((r, v)), Some((o, n, s))) = (r, containing) { img::same_slice(r, d, o, n); nd::ck_eq(v as u64, s); nd::reach(2); }
}
/// a directory's data is the designated bytes
fn directory<Pe: ImageNtHeaders>(is64: bool) {
    let (mut b, p) = image(is64, 1);
    let (raw, rsize) = (nd::u32(), nd::u32());
    let (sva, vsize, va, size) = (nd::u32(), nd::u32(), nd::u32(), nd::u32());
    p.section(&mut b.0, 0, sva as u64, vsize as u64, raw as u64, rsize as u64);
    p.set_dir(&mut b.0, 0, va as u64, size as u64);
    let d = &b.0[..];
    let f = file::<Pe>(d);
    let t = f.section_table();
    nd::ck(f.data_directory(0).is_some() == (va != 0));
    let dir = nd::some(f.data_directories().iter().next());
    let max = if vsize < rsize { vsize } else { rsize };
    let k = va.wrapping_sub(sva);
    let inside = va >= sva && k < max && size <= max.wrapping_sub(k) && raw <= !k;
    let r = dir.file_range(&t);
    nd::ck(r.is_ok() == inside);
    if let Ok((o, n)) = r { nd::ck(o == raw.wrapping_add(k) && n == size); nd::reach(1); }
}
fn dirdata<Pe: ImageNtHeaders>(is64: bool) {
    let (mut b, p) = image(is64, 1);
    let (raw, rsize) = [(320, 32), (336, 8), (340, 40)][nd::below(3)];
    let (sva, vsize) = (0x1000, img::pick(&[0, 6, 0x100]));
    p.section(&mut b.0, 0, sva, vsize, raw, rsize);
    let (va, size) = (img::pick(&[0, 0xfff, 0x1000, 0x1005, 0x1007, 0x101f]), img::pick(&[0, 1, 3, 8, 32, 0xffff_ffff]));
    p.set_dir(&mut b.0, 0, va, size);
    let d = &b.0[..];
    let f = file::<Pe>(d);
    let dir = nd::some(f.data_directories().iter().next());
    let max = if vsize < rsize { vsize } else { rsize };
    let ok = va >= sva && va - sva < max && size <= max - (va - sva) && raw + max <= N as u64;
    let r = dir.data(d, &f.section_table());
    nd::ck(r.is_ok() == ok);
    if let Ok(r) = r { img::same_slice(r, d, raw + (va - sva), size); nd::reach(1); }
}
/// section and segment accessors
fn sections<Pe: ImageNtHeaders>(is64: bool) {
    let (mut b, p) = image(is64, 2);
    nd::fill(&mut b.0[p.opt() + 24..p.opt() + 36]);
    for i in 0..2 { let s = p.sect(i); nd::fill(&mut b.0[s + 1..s + 16]); nd::fill(&mut b.0[s + 24..s + 40]); b.0[s] = b'.' + i as u8 - i as u8; }
    let k = nd::below(2);
    let (raw, rsize) = [(0, 0), (320, 32), (336, 8), (344, 9), (0xffff_fff8, 16)][nd::below(5)];
    put(&mut b.0, p.sect(k) + 16, 4, rsize);
    put(&mut b.0, p.sect(k) + 20, 4, raw);
    put(&mut b.0, p.sect(k) + 8, 4, img::pick(&[0, 7, 8, 32, 0xffff_ffff]));
    let d = &b.0[..];
    let f = file::<Pe>(d);
    let base = if is64 { get(d, p.opt() + 24, 8) } else { get(d, p.opt() + 28, 4) };
    let h = p.sect(k);
    let s = nd::must(f.section_by_index(SectionIndex(k + 1)));
    let g = nd::some(f.segments().nth(k));
    nd::ck(nd::some(f.sections().nth(k)).index() == SectionIndex(k + 1) && s.index() == SectionIndex(k + 1));
    nd::ck(f.section_by_index(SectionIndex(0)).is_err() && f.section_by_index(SectionIndex(3)).is_err());
    nd::ck_eq(s.pe_section() as *const _ as u64 - d.as_ptr() as u64, h as u64);
    nd::ck_eq(g.pe_section() as *const _ as u64 - d.as_ptr() as u64, h as u64);
    let (vsize, va, c) = (get(d, h + 8, 4), get(d, h + 12, 4), get(d, h + 36, 4));
    nd::ck_eq(s.address(), base.wrapping_add(va));
    nd::ck_eq(g.address(), base.wrapping_add(va));
    nd::ck_eq(s.size(), vsize);
    nd::ck_eq(g.size(), vsize);
    nd::ck_eq(s.align(), get(d, p.opt() + 32, 4));
    nd::ck_eq(g.align(), get(d, p.opt() + 32, 4));
    let size = if vsize < rsize { vsize } else { rsize };
    nd::ck(s.file_range() == if size == 0 { None } else { Some((raw, size)) });
    nd::ck(g.file_range() == (raw, size));
    nd::ck(s.pe_section().pe_address_range() == (va as u32, vsize as u32));
    let ok = img::readable(raw, size, N);
    for r in [s.data(), g.data()] { nd::ck(r.is_ok() == ok); if let Ok(r) = r { img::same_slice(r, d, raw, size); } }
    nd::reach(1);
    let SectionFlags::Coff { characteristics } = s.flags() else { nd::ck(false); return };
    nd::ck_eq(characteristics.0 as u64, c);
    let SegmentFlags::Coff { characteristics } = g.flags() else { nd::ck(false); return };
    nd::ck_eq(characteristics.0 as u64, c);
    nd::ck(g.permissions() == Permissions::new(c & 0x4000_0000 != 0, c & 0x8000_0000 != 0, c & 0x2000_0000 != 0));
    let kind = if c & 0x2000_0020 != 0 { SectionKind::Text }
        else if c & 0x40 != 0 { if c & 0x0200_0000 != 0 { SectionKind::Other } else if c & 0x8000_0000 != 0 { SectionKind::Data } else { SectionKind::ReadOnlyData } }
        else if c & 0x80 != 0 { SectionKind::UninitializedData } else if c & 0x200 != 0 { SectionKind::Linker } else { SectionKind::Unknown };
    nd::ck(s.kind() == kind);
    nd::ck(s.relocations().next().is_none() && s.segment_name_bytes() == Ok(None));
    nd::reach(2);
}
/// the bytes at an address range
fn range<Pe: ImageNtHeaders>(is64: bool) {
    let (mut b, p) = image(is64, 1);
    nd::fill(&mut b.0[p.opt() + 24..p.opt() + 32]);
    p.section(&mut b.0, 0, 0, img::pick(&[5, 64]), 320, 16);
    nd::fill(&mut b.0[p.sect(0) + 12..p.sect(0) + 16]);
    let d = &b.0[..];
    let f = file::<Pe>(d);
    let base = if is64 { get(d, p.opt() + 24, 8) } else { get(d, p.opt() + 28, 4) };
    let n = if get(d, p.sect(0) + 8, 4) == 5 { 5 } else { 16 };
    let addr = base.wrapping_add(get(d, p.sect(0) + 12, 4));
    let (a, k) = (addr.wrapping_add(img::pick(&[0, 1, 4, 5, 15, 16, 17, u64::MAX])), img::pick(&[0, 1, 4, 15, 16, 17, u64::MAX]));
    let s = nd::must(f.section_by_index(SectionIndex(1)));
    let g = nd::some(f.segments().next());
    let want = &d[320..320 + n];
    img::ck_range(nd::must(s.data_range(a, k)), want, addr, a, k);
    img::ck_range(nd::must(g.data_range(a, k)), want, addr, a, k);
    nd::reach(1);
}
fn names<Pe: ImageNtHeaders>(is64: bool) {
    let (mut b, p) = image(is64, 2);
    b.0[p.sect(0)..p.sect(0) + 2].copy_from_slice(b".a");
    let k = nd::range(1, 8);
    nd::fill(&mut b.0[p.sect(1)..p.sect(1) + k]);
    nd::assume(b.0[p.sect(1)] != b'/');
    let d = &b.0[..];
    let f = file::<Pe>(d);
    let want = img::name16(&d[p.sect(1)..p.sect(1) + 8]);
    let s = nd::must(f.section_by_index(SectionIndex(2)));
    nd::ck_bytes(nd::must(s.name_bytes()), want);
    let g = nd::some(f.segments().nth(1));
    nd::ck_bytes(nd::some(nd::must(g.name_bytes())), want);
    let ask = [&b".a"[..], want, b".zz"][nd::below(3)];
    let found = f.section_by_name_bytes(ask).map(|s| s.index().0);
    nd::ck(found == if img::eq(ask, b".a") { Some(1) } else if img::eq(ask, want) { Some(2) } else { None });
    nd::reach(1);
}

/// the rich header is found wherever it is and unmasked
fn rich() {
    let mut b = Buf::<80>::zero();
    let (start, n) = (4 * nd::below(3), nd::below(4));
    let key = nd::u32() as u64;
    let put_start = nd::flag();
    let end = start + 16 + 8 * n;
    nd::fill(&mut b.0[start + 16..end]);
    // no marker by accident
    for i in (0..end).step_by(4) { nd::assume(get(&b.0, i, 4) != 0x6863_6952); }
    nd::assume(key != 0x6863_6952 && key ^ 0x536e_6144 != 0x6863_6952);
    for (i, v) in [0x536e_6144 ^ key, key, key, key].into_iter().enumerate() { put(&mut b.0, start + 4 * i, 4, if put_start { v } else { 0 }); }
    put(&mut b.0, end, 4, 0x6863_6952);
    put(&mut b.0, end + 4, 4, key);
    let limit = [end, end + 3, end + 4, end + 7, end + 8, 80, 81][nd::below(7)];
    // an earlier start marker among the zeroes, or one in the entries
    let mut first = None;
    for i in (0..end).step_by(4).rev() {
        if i + 16 > end { continue; }
        if get(&b.0, i, 4) == 0x536e_6144 ^ key && get(&b.0, i + 4, 4) == key && get(&b.0, i + 8, 4) == key && get(&b.0, i + 12, 4) == key { first = Some(i); }
    }
    let d = &b.0[..];
    let r = RichHeaderInfo::parse(d, limit as u64);
    nd::ck(r.is_some() == (first.is_some() && limit >= end + 8 && limit <= 80));
    let (Some(r), Some(at)) = (r, first) else { nd::reach(1); return };
    nd::ck(r.offset == at && r.length == end + 8 - at);
    nd::ck_eq(r.xor_key as u64, key);
    let mut i = at + 16;
    for e in r.unmasked_entries() {
        nd::ck_eq(e.comp_id as u64, get(d, i, 4) ^ key);
        nd::ck_eq(e.count as u64, get(d, i + 4, 4) ^ key);
        i += 8;
    }
    nd::ck(i + 8 > end && i <= end);
    nd::reach(2);
}
/// base relocations: every entry of every block except padding
fn relocs<Pe: ImageNtHeaders>(is64: bool) {
    let mut b = Buf::<512>::zero();
    let p = P { is64, nt: 64, dirs: 6 };
    p.header(&mut b.0, 1);
    p.section(&mut b.0, 0, 0x1000, 0x1000, 480, 32);
    let total = [0, 4, 8, 12, 20, 24, 30, 32][nd::below(8)];
    p.set_dir(&mut b.0, 5, 0x1000, total as u64);
    nd::fill(&mut b.0[480..480 + 32]);
    for i in 0..3 { if nd::flag() { put(&mut b.0, 480 + [4, 16, 24][i], 4, img::pick(&[0, 8, 10, 12, 16, 0xffff_fffc])); } else { let v = get(&b.0, 480 + [4, 16, 24][i], 4); nd::assume(v > 20 && v < 0x8000_0000); } }
    let d = &b.0[..];
    let f = file::<Pe>(d);
    let mut it = nd::some(nd::must(f.data_directories().relocation_blocks(d, &f.section_table())));
    let mut at = 0;
    let mut i = 0;
    while i < 4 {
        let r = it.next();
        if at >= total { nd::ck(matches!(r, Ok(None))); nd::reach(1); return; }
        let size = if total - at >= 8 { get(d, 480 + at + 4, 4) } else { 0 };
        let ok = size > 8 && size % 4 == 0 && size <= (total - at) as u64;
        nd::ck(r.is_ok() == ok);
        let Ok(r) = r else { nd::ck(matches!(it.next(), Ok(None))); nd::reach(2); return };
        let size = nd::conc(size) as usize;
        let mut r = nd::some(r);
        let va = get(d, 480 + at, 4);
        nd::ck_eq(r.virtual_address() as u64, va);
        nd::ck_eq(r.size() as u64, size as u64);
        for k in 0..(size - 8) / 2 {
            let e = get(d, 480 + at + 8 + 2 * k, 2);
            if e == 0 { continue; }
            let x = nd::some(r.next());
            nd::ck_eq(x.virtual_address as u64, (va + (e & 0xfff)) & 0xffff_ffff);
            nd::ck_eq(x.typ.0 as u64, e >> 12);
        }
        nd::ck(r.next().is_none());
        at += size;
        i += 1;
    }
    nd::ck(false);
}
/// the first CodeView record gives the debug database
fn pdb<Pe: ImageNtHeaders>(is64: bool) {
    let mut b = Buf::<512>::zero();
    let p = P { is64, nt: 64, dirs: 7 };
    p.header(&mut b.0, 1);
    p.section(&mut b.0, 0, 0x1000, 0x1000, 384, 56);
    let size = [0, 28, 56, 55, 84][nd::below(5)];
    let va = img::pick(&[0, 0x1000, 0x3000]);
    p.set_dir(&mut b.0, 6, va, size as u64);
    let mut recs = [(0u64, 0u64, 0u64); 2];
    for i in 0..2 {
        let t = nd::u32() as u64;
        let (o, n) = [(440, 32), (440, 24), (440, 23), (440, 3), (452, 60), (0, 30), (600, 8)][nd::below(if i == 0 { 7 } else { 2 })];
        recs[i] = (t, o, n);
        for (k, v) in [(12, t), (16, n), (24, o)] { put(&mut b.0, 384 + 28 * i + k, 4, v); }
    }
    nd::fill(&mut b.0[440..472]);
    if nd::flag() { b.0[440..444].copy_from_slice(b"RSDS"); }
    let d = &b.0[..];
    let f = file::<Pe>(d);
    let r = f.pdb_info();
    if va == 0 { nd::ck(r == Ok(None)); nd::reach(1); return; }
    if va != 0x1000 || size > 56 || size % 28 != 0 { nd::ck(r.is_err()); nd::reach(2); return; }
    for &(t, o, n) in &recs[..size / 28] {
        if t != 2 { continue; }
        if !img::readable(o, n, 512) || n < 4 { nd::ck(r.is_err()); return; }
        if !img::eq(&d[o as usize..o as usize + 4], b"RSDS") { continue; }
        let path = if n < 24 { None } else { img::cstr(d, o + 24, o + n) };
        nd::ck(r.is_ok() == path.is_some());
        let Some(path) = path else { nd::reach(3); return };
        let c = nd::some(nd::must(r));
        nd::ck_bytes(&c.guid(), &d[o as usize + 4..o as usize + 20]);
        nd::ck_eq(c.age() as u64, get(d, o as usize + 20, 4));
        nd::ck_bytes(c.path(), path);
        nd::reach(4);
        return;
    }
    nd::ck(r == Ok(None));
    nd::reach(5);
}

harnesses! {
    /// any signature, offset, optional header size and counts; eight file lengths
    /// @reach 1,2
    fn c17_pe_accept32() { accept::<pe::ImageNtHeaders32>(false); }
    /// PE32+
    /// @reach 1,2
    fn c17_pe_accept64() { accept::<pe::ImageNtHeaders64>(true); }
    /// every header byte arbitrary
    /// @reach 1
    fn c17_pe_fields() { let c = nd::flag(); by_class!(c, fields(c)); }
    /// one section with arbitrary ranges, arbitrary query
    /// @reach 1,2
    fn c17_pe_map_1() { let c = nd::flag(); by_class!(c, map(c, 1)); }
    /// two sections
    /// @reach 1,2
    fn c17_pe_map_2() { map::<pe::ImageNtHeaders64>(true, 2); }
    /// two sections, listed ranges and queries
    /// @reach 1,2
    fn c17_pe_data() { let c = nd::flag(); by_class!(c, data(c)); }
    /// arbitrary directory and section address and size
    /// @reach 1
    fn c17_pe_directory() { let c = nd::flag(); by_class!(c, directory(c)); }
    /// listed directory and section ranges
    /// @reach 1
    fn c17_pe_dirdata() { let c = nd::flag(); by_class!(c, dirdata(c)); }
    /// any section address and image base; listed relative queries
    /// @reach 1
    fn c17_pe_range() { let c = nd::flag(); by_class!(c, range(c)); }
    /// two section headers, nearly all bytes arbitrary
    /// @reach 1,2
    fn c17_pe_sections() { let c = nd::flag(); by_class!(c, sections(c)); }
    /// inline names of 0-8 bytes
    /// @reach 1
    fn c17_pe_names() { let c = nd::flag(); by_class!(c, names(c)); }
    /// 0-3 masked entries, any key
    /// @reach 1,2
    fn c17_pe_rich() { rich(); }
    /// up to three blocks in 32 bytes
    /// @reach 1,2
    fn c17_pe_relocs() { let c = nd::flag(); by_class!(c, relocs(c)); }
    /// two debug directory entries, arbitrary record
    /// @reach 1,2,3,4,5
    fn c17_pe_pdb() { let c = nd::flag(); by_class!(c, pdb(c)); }
}
