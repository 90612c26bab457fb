//! Mach-O containers: fat files, code signatures and the dyld shared cache.
use crate::{harnesses, img, nd};
use nd::Buf;
use object::macho;
use object::read::macho::{self as rm, FatArch};
use object::read::*;
use object::{Endianness, LittleEndian};

fn be(b: &[u8], off: usize, n: usize) -> u64 { img::get(b, off, n, true) }
fn putb(b: &mut [u8], off: usize, n: usize, v: u64) { img::put(b, off, n, v, true) }
fn putl(b: &mut [u8], off: usize, n: usize, v: u64) { img::put(b, off, n, v, false) }

// ---- fat files ----
fn fat<A: FatArch>(is64: bool) {
    let z = if is64 { 32 } else { 20 };
    let mut b = Buf::<76>::any();
    let n = img::pick(&[0, 1, 2, 3, 0xffff_ffff]);
    putb(&mut b.0, 4, 4, n);
    let len = [7, 8, 8 + z - 1, 8 + z, 8 + 2 * z, 76][nd::below(6)];
    let (sz, at) = (img::pick(&[0, 1, 30, 77, 0xffff_ffff]), img::pick(&[0, 5, 60, 76, 0xffff_ffff]));
    let w = if is64 { 8 } else { 4 };
    // the first entry is readable data
    putb(&mut b.0, 16, w, at);
    putb(&mut b.0, 16 + w, w, sz);
    let d = &b.0[..len];
    let r = rm::MachOFatFile::<A>::parse(d);
    let magic = if is64 { 0xcafe_babf } else { 0xcafe_babe };
    nd::ck(r.is_ok() == (len >= 8 && be(&b.0, 0, 4) == magic && img::readable(8, n * z as u64, len)));
    let Ok(f) = r else { nd::reach(1); return };
    nd::reach(2);
    nd::ck(f.header().nfat_arch.get(object::BigEndian) as u64 == n && f.arches().len() as u64 == n);
    for (i, a) in f.arches().iter().enumerate() {
        let o = 8 + i * z;
        let cpu = be(d, o, 4);
        nd::ck(a.cputype().0 as u64 == cpu && a.cpusubtype().0 as u64 == be(d, o + 4, 4));
        let off = if is64 { 16 } else { 8 };
        let (x, y) = (be(d, o + off.min(8 + w - 4), w), be(d, o + if is64 { 16 } else { 12 }, w));
        let x = if is64 { be(d, o + 8, 8) } else { x };
        nd::ck(a.file_range() == (x, y) && a.offset().into() == x && a.size().into() == y);
        nd::ck(a.align() as u64 == be(d, o + if is64 { 24 } else { 16 }, 4));
        let arch = match cpu {
            7 => Architecture::I386,
            0x0100_0007 => Architecture::X86_64,
            12 => Architecture::Arm,
            0x0100_000c => Architecture::Aarch64,
            8 => Architecture::Mips,
            18 => Architecture::PowerPc,
            0x0100_0012 => Architecture::PowerPc64,
            _ => Architecture::Unknown,
        };
        nd::ck(cpu == 0x0200_000c || a.architecture() == arch);
        if i == 0 {
            let r = a.data(d);
            nd::ck(r.is_ok() == img::readable(at, sz, len));
            if let Ok(r) = r { img::same_slice(r, d, at, sz); nd::reach(3); }
        }
    }
}

// ---- code signatures ----
fn signature() {
    const N: usize = 48;
    let mut b = Buf::<N>::any();
    let n = img::pick(&[0, 1, 2, 0xffff_ffff]);
    putb(&mut b.0, 8, 4, n);
    let o = [img::pick(&[0, 28, 31, 41, 0xffff_ffff]), img::pick(&[24, 40])];
    putb(&mut b.0, 16, 4, o[0]);
    putb(&mut b.0, 24, 4, o[1]);
    let len = [11, 12, 19, 20, 28, N][nd::below(6)];
    let mut c = [0u8; 16];
    let shift = nd::below(2) as u64 * 3;
    // the whole file is the signature, or all after the first bytes
    let mut file = [0u8; N + 3];
    file[shift as usize..shift as usize + N].copy_from_slice(&b.0);
    putl(&mut c, 8, 4, shift);
    putl(&mut c, 12, 4, len as u64);
    let (c, _) = nd::must(object::pod::from_bytes::<macho::LinkeditDataCommand<LittleEndian>>(&c));
    let r = c.code_signature(LittleEndian, &file[..]);
    let d = &file[shift as usize..shift as usize + len];
    nd::ck(r.is_ok() == (len >= 12 && be(&b.0, 0, 4) == 0xfade_0cc0 && img::fits(12, 8 * n, len)));
    let Ok(s) = r else { nd::reach(1); return };
    nd::ck(s.header().length.get(object::BigEndian) as u64 == be(d, 4, 4) && s.index().len() as u64 == n);
    let mut it = s.blobs();
    for i in 0..n as usize {
        let r = nd::some(Iterator::next(&mut it));
        let at = o[i];
        let good = img::fits(at, 8, len) && img::fits(at, be(d, at as usize + 4, 4), len);
        nd::ck(r.is_ok() == good);
        let Ok(r) = r else { nd::reach(2); continue };
        let size = be(d, at as usize + 4, 4);
        nd::ck(r.slot().0 as u64 == be(d, 12 + 8 * i, 4) && r.offset() as u64 == at && r.magic() as u64 == be(d, at as usize, 4));
        img::same_slice(r.data(), d, at, size);
        if size >= 8 { img::same_slice(r.contents(), d, at + 8, size - 8) } else { nd::ck(r.contents().is_empty()) }
        // too small for a code directory
        match r.code_directory() { Ok(None) => nd::ck(r.magic() != 0xfade_0c02), Ok(_) => nd::ck(false), Err(_) => nd::ck(r.magic() == 0xfade_0c02) }
        nd::reach(3);
    }
    nd::ck(Iterator::next(&mut it).is_none());
}
fn directory(part: usize) {
    const N: usize = 96;
    let mut b = Buf::<N>::any();
    let len = if part == 0 { [43, 44, 47, 48, 52, 63, 64, 87, 88, N][nd::below(10)] } else { N - 4 * nd::below(2) };
    if part > 0 {
        b.0[..12].copy_from_slice(&[0xfa, 0xde, 0x0c, 2, 0, 0, 0, N as u8, 0, 2, 4, 0]);
        b.0[10] = nd::below(4) as u8;
    }
    let ho = if part == 2 { img::pick(&[0, 20, 48, 95, 0xffff_fff0]) } else { 50 };
    putb(&mut b.0, 16, 4, ho);
    let io = if part == 1 { img::pick(&[0, 90, 93, 96, 0xffff_ffff]) } else { 90 };
    putb(&mut b.0, 20, 4, io);
    let hs = if part == 2 { img::pick(&[0, 1, 20, 255]) } else { 20 };
    b.0[36] = hs as u8;
    let to = if part == 1 { img::pick(&[0, 89, 94, 200]) } else { 90 };
    putb(&mut b.0, 48, 4, to);
    let d = &b.0[..len];
    let r = rm::CodeDirectory::parse(d);
    let v = be(&b.0, 8, 4);
    let need = if v >= 0x20400 { 88 } else if v >= 0x20300 { 64 } else if v >= 0x20200 { 52 } else if v >= 0x20100 { 48 } else { 44 };
    nd::ck(r.is_ok() == (be(&b.0, 0, 4) == 0xfade_0c02 && len >= need));
    let Ok(c) = r else { nd::reach(1); return };
    nd::reach(2);
    nd::ck(c.version().0 as u64 == v && c.header().flags.get(object::BigEndian).0 as u64 == be(d, 12, 4));
    nd::ck(c.scatter_offset() == if v >= 0x20100 { Some(be(d, 44, 4) as u32) } else { None });
    nd::ck(c.team_offset() == if v >= 0x20200 { Some(to as u32) } else { None });
    let l64 = if v >= 0x20300 { Some(be(d, 56, 8)) } else { None };
    nd::ck(c.code_limit64() == l64);
    nd::ck_eq(c.code_limit(), match l64 { Some(x) if x != 0 => x, _ => be(d, 32, 4) });
    match c.exec_seg() {
        Some(x) => nd::ck(v >= 0x20400 && x.exec_seg_base.get(object::BigEndian) == be(d, 64, 8) && x.exec_seg_limit.get(object::BigEndian) == be(d, 72, 8) && x.exec_seg_flags.get(object::BigEndian).0 == be(d, 80, 8)),
        None => nd::ck(v < 0x20400),
    }
    if part == 1 {
    let r = c.ident();
    let w = img::cstr(d, io, len as u64);
    nd::ck(r.is_ok() == w.is_some());
    if let (Ok(r), Some(w)) = (r, w) { nd::ck_bytes(r, w); nd::reach(3); }
    let r = c.team_id();
    if v < 0x20200 || to == 0 { nd::ck(matches!(r, Ok(None))) } else {
        let w = img::cstr(d, to, len as u64);
        nd::ck(r.is_ok() == w.is_some());
        if let (Ok(r), Some(w)) = (r, w) { nd::ck_bytes(nd::some(r), w); nd::reach(4); }
    }
    }
    if part < 2 { return; }
    // the hashes of special slots precede the others, in reverse
    let slot = img::pick(&[0, 1, 2, 0xffff_ffff]);
    let r = c.special_hash(macho::CsSlot(slot as u32));
    let good = slot != 0 && slot <= be(d, 24, 4) && slot * hs <= ho && img::fits(ho - slot * hs, hs, len);
    nd::ck(r.is_ok() == good);
    if let Ok(r) = r { img::same_slice(r, d, ho - slot * hs, hs); nd::reach(5); }
    let i = img::pick(&[0, 1, 3, 0xffff_fffe]);
    let r = c.code_hash(i as u32);
    let scatter = v >= 0x20100 && be(d, 44, 4) != 0;
    let at = ho + i * hs;
    let good = !scatter && i < be(d, 28, 4) && at < 1 << 32 && img::fits(at, hs, len);
    nd::ck(r.is_ok() == good);
    if let Ok(r) = r { img::same_slice(r, d, at, hs); nd::reach(6); }
}

// ---- the dyld shared cache ----
const H: usize = core::mem::size_of::<macho::DyldCacheHeader<Endianness>>();
const MAGIC: [(&[u8; 16], Architecture); 11] = [
    (b"dyld_v1    i386\0", Architecture::I386),
    (b"dyld_v1  x86_64\0", Architecture::X86_64),
    (b"dyld_v1 x86_64h\0", Architecture::X86_64),
    (b"dyld_v1     ppc\0", Architecture::PowerPc),
    (b"dyld_v1   armv6\0", Architecture::Arm),
    (b"dyld_v1   armv7\0", Architecture::Arm),
    (b"dyld_v1  armv7f\0", Architecture::Arm),
    (b"dyld_v1  armv7s\0", Architecture::Arm),
    (b"dyld_v1  armv7k\0", Architecture::Arm),
    (b"dyld_v1   arm64\0", Architecture::Aarch64),
    (b"dyld_v1  arm64e\0", Architecture::Aarch64),
];
type Cache<'a> = rm::DyldCache<'a, Endianness>;
fn magic() {
    let mut b = Buf::<H>::zero();
    let m = nd::below(11);
    b.0[..16].copy_from_slice(MAGIC[m].0);
    let p = nd::below(16);
    b.0[p] = nd::u8();
    let len = H - nd::below(2);
    let d = &b.0[..len];
    let mut arch = None;
    for (x, a) in MAGIC { if img::eq(&b.0[..16], x) { arch = Some(a); } }
    let r = Cache::parse(d, &[]);
    nd::ck(r.is_ok() == (len == H && arch.is_some()));
    nd::ck(FileKind::parse(d).ok() == if img::eq(&b.0[..8], b"dyld_v1 ") && b.0[15] == 0 { Some(FileKind::DyldCache) } else { FileKind::parse(d).ok() });
    let Ok(c) = r else { nd::reach(1); return };
    nd::reach(2);
    let big = arch == Some(Architecture::PowerPc);
    nd::ck(Some(c.architecture()) == arch && c.is_little_endian() != big && c.endianness() == if big { Endianness::Big } else { Endianness::Little });
    nd::ck(c.mappings().next().is_none() && c.images().next().is_none() && c.data().len() == H);
    nd::ck(rm::DyldCache::<LittleEndian>::parse(d, &[]).is_ok() != big);
    nd::ck(nd::must(Cache::subcache_suffixes(d)).is_empty());
}
/// lay out a header; `which` is the position of the mappings, which tells the version
fn head(b: &mut [u8], big: bool, which: u64) {
    b[..16].copy_from_slice(MAGIC[if big { 3 } else { 1 }].0);
    img::put(b, 16, 4, which, big);
}
/// mappings of both versions and addresses
fn mappings() {
    const N: usize = H + 112;
    let big = nd::flag();
    let mut b = Buf::<N>::zero();
    let which = img::pick(&[0x13f, 0x140]);
    head(&mut b.0, big, which);
    let v2 = which >= 0x140;
    let n = img::pick(&[0, 1, 2, 0xffff_ffff]);
    let at = if v2 { img::pick(&[H as u64, N as u64 - 56, N as u64]) } else { which };
    if v2 {
        img::put(&mut b.0, 0x138, 4, at, big);
        img::put(&mut b.0, 0x13c, 4, n, big);
        nd::fill(&mut b.0[H..]);
    } else {
        img::put(&mut b.0, 0x14, 4, n, big);
        nd::fill(&mut b.0[0x13f..0x13f + 64]);
    }
    let z: u64 = if v2 { 56 } else { 32 };
    if n == 1 {
        img::put(&mut b.0, (at as usize).min(N - 24) + 8, 8, img::pick(&[0, 1, 9, N as u64 + 1]), big);
        img::put(&mut b.0, (at as usize).min(N - 24) + 16, 8, img::pick(&[0, N as u64 - 9, !0]), big);
    }
    let d = &b.0[..];
    let r = Cache::parse(d, &[]);
    nd::ck(r.is_ok() == img::readable(at, n * z, N));
    let Ok(c) = r else { nd::reach(1); return };
    let a = nd::u64();
    let mut found = None;
    let mut it = c.mappings();
    for i in 0..n as usize {
        let m = nd::some(it.next());
        let o = at as usize + i * z as usize;
        let f = |x: usize, k: usize| img::get(d, o + x, k, big);
        nd::ck(m.address() == f(0, 8) && m.size() == f(8, 8) && m.file_offset() == f(16, 8));
        let p = if v2 { 48 } else { 24 };
        nd::ck(m.max_prot().0 as u64 == f(p, 4) && m.init_prot().0 as u64 == f(p + 4, 4));
        if found.is_none() && a >= f(0, 8) && a - f(0, 8) < f(8, 8) { found = Some(f(16, 8).checked_add(a - f(0, 8))); }
        if n == 1 {
            let r = m.data();
            nd::ck(r.is_ok() == img::readable(f(16, 8), f(8, 8), N));
            if let Ok(r) = r { img::same_slice(r, d, f(16, 8), f(8, 8)); nd::reach(2); }
            if !v2 { nd::ck(nd::must(m.relocations()).next().is_none()); }
        }
    }
    nd::ck(it.next().is_none());
    let r = c.data_and_offset_for_address(a);
    nd::ck(r.is_some() == matches!(found, Some(Some(_))));
    if let (Some((r, x)), Some(Some(w))) = (r, found) { nd::ck(r.as_ptr() == d.as_ptr()); nd::ck_eq(x, w); nd::reach(3); }
}
/// the list of files a cache consists of
fn subcaches() {
    const N: usize = H + 112;
    let big = nd::flag();
    let mut b = Buf::<N>::zero();
    let which = img::pick(&[0x1c7, 0x1c8, 0x1cf, 0x1d0]);
    head(&mut b.0, big, which);
    let z = if which >= 0x1d0 { 56 } else { 24 };
    let n = img::pick(&[0, 1, 2, 0xffff_ffff]);
    let at = H as u64 + nd::below(2) as u64;
    img::put(&mut b.0, 0x188, 4, at, big);
    img::put(&mut b.0, 0x18c, 4, n, big);
    // the symbols file
    let sym = nd::flag();
    if sym { b.0[0x190 + 15] = 7; }
    // the uuids of the files, of which one byte varies
    let u = [nd::u8(), nd::u8(), nd::u8()];
    let suffix: [u8; 3] = nd::bytes();
    for i in 0..3 { nd::assume(suffix[i] < 0x80); }
    for i in 0..2 {
        let o = H + (at as usize - H) + i * z;
        if o + z > N { break; }
        b.0[o + 3] = u[i];
        if z == 56 { b.0[o + 24 + 28 * i..o + 24 + 28 * i + 3].copy_from_slice(&suffix); if i == 1 { for k in 0..28 { b.0[o + 24 + k] = b'.'; } } }
    }
    let d = &b.0[..];
    let has = which >= 0x1c8;
    let good = !has || img::readable(at, n * z as u64, N);
    let r = Cache::subcache_suffixes(d);
    nd::ck(r.is_ok() == good);
    let count = if has { n as usize + sym as usize } else { 0 };
    if let Ok(r) = r {
        nd::ck(r.len() == count);
        for i in 0..count {
            if i == n as usize { nd::ck_bytes(r[i].as_bytes(), b".symbols"); }
            else if z == 24 { nd::ck_bytes(r[i].as_bytes(), if i == 0 { b".1" } else { b".2" }); }
            else {
                let o = at as usize + i * z + 24;
                nd::ck_bytes(r[i].as_bytes(), img::name16(&d[o..o + 32]));
            }
        }
        nd::reach(1);
    }
    // the files themselves: what the list says, or one off
    let mut f = [Buf::<H>::zero(), Buf::<H>::zero(), Buf::<H>::zero()];
    let w: [u8; 3] = nd::bytes();
    for i in 0..3 {
        if has && sym && i == n as usize { f[i].0[0x58 + 15] = w[i]; } else { f[i].0[0x58 + 3] = w[i]; }
    }
    let given = nd::below(4);
    let list = [&f[0].0[..], &f[1].0[..], &f[2].0[..]];
    let r = Cache::parse(d, &list[..given]);
    let mut ok = good && given == count;
    if ok { for i in 0..count { if i == n as usize { ok &= w[i] == 7; } else { ok &= w[i] == u[i]; } } }
    nd::ck(r.is_ok() == ok);
    if r.is_ok() { nd::reach(2); } else { nd::reach(3); }
}
/// images, their paths, and data in whichever file maps their address
fn images() {
    const N: usize = H + 64 + 16 + 64;
    let big = nd::flag();
    let mut b = Buf::<N>::zero();
    let which = img::pick(&[0x1c7, 0x1c8]);
    head(&mut b.0, big, which);
    let at = img::pick(&[H as u64, N as u64 - 32]);
    let n = img::pick(&[0, 1, 2, 0xffff_ffff]);
    let (p, c) = if which == 0x1c8 { (0x1c0, 0x1c4) } else { (0x18, 0x1c) };
    // the fields of the other generation of headers mean nothing
    nd::fill(&mut b.0[if p == 0x18 { 0x1c0..0x1c8 } else { 0x18..0x20 }]);
    img::put(&mut b.0, p, 4, at, big);
    img::put(&mut b.0, c, 4, n, big);
    // one mapping in this file
    let (ma, ms, mo) = (nd::u64(), nd::u64(), nd::u64());
    let m = H + 80;
    img::put(&mut b.0, 0x138, 4, m as u64, big);
    img::put(&mut b.0, 0x13c, 4, 1, big);
    for (i, v) in [ma, ms, mo].into_iter().enumerate() { img::put(&mut b.0, m + 8 * i, 8, v, big); }
    let addr = nd::u64();
    let path = img::pick(&[H as u64 + 64, H as u64 + 79, N as u64, 0xffff_ffff]);
    nd::fill(&mut b.0[H + 64..H + 67]);
    for i in 0..3 { nd::assume(b.0[H + 64 + i] < 0x80); }
    for i in 67..79 { b.0[H + i] = b'x'; }
    let o = at as usize;
    if o == H { img::put(&mut b.0, o, 8, addr, big); img::put(&mut b.0, o + 24, 4, path, big); }
    let d = &b.0[..];
    let r = Cache::parse(d, &[]);
    nd::ck(r.is_ok() == img::readable(at, 32 * n, N));
    let Ok(c) = r else { nd::reach(1); return };
    let mut it = c.images();
    for i in 0..n as usize {
        let x = nd::some(it.next());
        nd::ck_eq(x.info().address.get(if big { Endianness::Big } else { Endianness::Little }), img::get(d, o + 32 * i, 8, big));
        if i > 0 || o != H { continue; }
        let r = x.path();
        let w = img::cstr(d, path, N as u64);
        nd::ck(r.is_ok() == w.is_some());
        if let (Ok(r), Some(w)) = (r, w) { nd::ck_bytes(r.as_bytes(), w); nd::reach(2); }
        let r = x.image_data_and_offset();
        let w = if addr >= ma && addr - ma < ms { mo.checked_add(addr - ma) } else { None };
        nd::ck(r.is_ok() == w.is_some());
        if let (Ok((r, x)), Some(w)) = (r, w) { nd::ck(r.as_ptr() == d.as_ptr()); nd::ck_eq(x, w); nd::reach(3); }
    }
    nd::ck(it.next().is_none());
}

/// an image whose segments are spread over the files of a cache
fn image() {
    const HD: usize = 32 + 3 * 72 + 80 + 24;
    const N: usize = H + 56 + 56 + 32 + HD;
    const S: usize = H + 56 + 32;
    let m = img::M { is64: true, big: false };
    let mut b = Buf::<N>::zero();
    let mut s = [Buf::<S>::zero(), Buf::<S>::zero()];
    head(&mut b.0, false, 0x1d0);
    let (map, sub, im, hd) = (H, H + 56, H + 112, H + 144);
    // which of the two files holds the linkedit data, and whether there is a second file
    putl(&mut b.0, 0x138, 4, map as u64); putl(&mut b.0, 0x13c, 4, 1);
    putl(&mut b.0, 0x188, 4, sub as u64); putl(&mut b.0, 0x18c, 4, 1);
    b.0[0x190] = 9; // the symbols file
    s[1].0[0x58] = 9;
    putl(&mut b.0, 0x1c0, 4, im as u64); putl(&mut b.0, 0x1c4, 4, 1);
    // addresses 0x1000.. here and 0x2000.. in the other
    for (i, v) in [0x1000, 0x800, hd as u64].into_iter().enumerate() { putl(&mut b.0, map + 8 * i, 8, v); }
    head(&mut s[0].0, false, 0x1d0);
    putl(&mut s[0].0, 0x138, 4, H as u64); putl(&mut s[0].0, 0x13c, 4, 1);
    for (i, v) in [0x2000, 0x800, 0].into_iter().enumerate() { putl(&mut s[0].0, H + 8 * i, 8, v); }
    nd::fill(&mut s[0].0[H + 56..]);
    putl(&mut s[0].0, H + 60, 2, 0x010f);
    putl(&mut b.0, im, 8, 0x1000);
    // the image
    let mut h = [0u8; HD];
    let text = nd::flag();
    m.header(&mut h, 0x0100_0007, 6, 4, (HD - 32) as u64);
    let seg = |h: &mut [u8], at: usize, name: &[u8], n: usize, addr: u64| {
        m.segment(h, at, n);
        h[at + 8..at + 8 + name.len()].copy_from_slice(name);
        m.segset(h, at, 0, addr);
        m.segset(h, at, 1, 0x100);
    };
    seg(&mut h, 32, b"__TEXT", 0, 0x1000);
    let bad = nd::below(3);
    seg(&mut h, 104, b"__DATA", 1, [if text { 0x1100 } else { 0x2100 }, 0x17ff, 0x1800][bad]);
    let q = 104 + 72;
    h[q..q + 4].copy_from_slice(b"here");
    h[q + 16..q + 22].copy_from_slice(b"__DATA");
    m.sectset(&mut h, q, 0, 0x2100); m.sectset(&mut h, q, 1, 8);
    let off = img::pick(&[H as u64 + 60, H as u64 + 80, H as u64 + 81]);
    m.sectset(&mut h, q, 2, off);
    m.segset(&mut h, 104, 2, off);
    m.segset(&mut h, 104, 3, 8);
    seg(&mut h, 256, b"__LINKEDIT", 0, 0x2000);
    m.symtab(&mut h, 328, H as u64 + 56, 1, H as u64 + 72, 16);
    b.0[hd..].copy_from_slice(&h);
    let d = &b.0[..];
    let list = [&s[0].0[..], &s[1].0[..]];
    let c = nd::must(Cache::parse(d, &list));
    let x = nd::some(c.images().next());
    let r = x.parse_object();
    nd::ck(r.is_ok() == (bad != 2));
    let Ok(f) = r else { nd::reach(1); return };
    nd::ck(f.architecture() == Architecture::X86_64 && f.format() == object::BinaryFormat::MachO);
    // symbols come from the file with the linkedit segment
    let e = H + 56;
    let y = nd::must(f.symbol_by_index(SymbolIndex(0)));
    nd::ck_eq(y.address(), img::get(list[0], e + 8, 8, false));
    let so = img::get(list[0], e, 4, false);
    let w = if so < 16 { img::cstr(list[0], e as u64 + 16 + nd::conc(so), S as u64) } else { None };
    let r = y.name_bytes();
    nd::ck(r.is_ok() == w.is_some());
    if let (Ok(r), Some(w)) = (r, w) { nd::ck_bytes(r, w); }
    // the section's data comes from the file that maps its segment
    let g = nd::some(f.section_by_name("here"));
    let src = if bad == 1 || text { d } else { list[0] };
    let r = g.data();
    nd::ck(r.is_ok() == img::fits(off, 8, src.len()));
    if let Ok(r) = r { nd::ck(r.as_ptr() == src[off as usize..].as_ptr() && r.len() == 8); nd::reach(2); }
}

struct Rel { offset: u64, value: u64, auth: Option<(u8, u16, bool)> }
/// a cache with one mapping with slide information `info`, whose data is 48 bytes
fn ck_relocs(info: &[u8], data: &[u8], want: &[Rel], bad: bool) {
    const MAP: usize = H;
    const INFO: usize = H + 56;
    const DATA: usize = H + 56 + 56;
    let mut b = Buf::<{ DATA + 48 }>::zero();
    head(&mut b.0, false, 0x140);
    putl(&mut b.0, 0x138, 4, MAP as u64); putl(&mut b.0, 0x13c, 4, 1);
    for (i, v) in [0x1000, 0x100, DATA as u64, INFO as u64, 1].into_iter().enumerate() { putl(&mut b.0, MAP + 8 * i, 8, v); }
    b.0[INFO..INFO + info.len()].copy_from_slice(info);
    b.0[DATA..].copy_from_slice(data);
    let d = &b.0[..];
    let c = nd::must(Cache::parse(d, &[]));
    let m = nd::some(c.mappings().next());
    let mut it = nd::must(m.relocations());
    for w in want {
        let r = nd::must(nd::some(it.next()));
        nd::ck(r.offset == w.offset);
        nd::ck_eq(r.value, w.value);
        match (r.auth, w.auth) {
            (None, None) => {}
            (Some(a), Some((k, v, x))) => nd::ck(a.key as u8 == k && a.diversity == v && a.addr_div == x),
            _ => nd::ck(false),
        }
        nd::reach(1);
    }
    match it.next() {
        None => nd::ck(!bad),
        Some(Ok(_)) => nd::ck(false),
        Some(Err(_)) => { nd::ck(bad && it.next().is_none()); nd::reach(2); }
    }
}
fn word(d: &[u8], at: u64) -> Option<u64> { if img::fits(at, 8, 48) { Some(img::get(d, at as usize, 8, false)) } else { None } }
/// version 2: masked differences
fn slide2() {
    let mut info = [0u8; 56];
    let page = img::pick(&[16, 40, 0xffff_ffff]);
    let (mask, sh) = [(0x00ff_ff00_0000_0000u64, 40), (0x7, 0), (0xc000_0000_0000_0000, 62), (0, 0)][nd::below(4)];
    let add = nd::u64();
    for (i, v) in [2, page, 40, 2, 44, 2].into_iter().enumerate() { putl(&mut info, 4 * i, 4, v); }
    putl(&mut info, 24, 8, mask);
    putl(&mut info, 32, 8, add);
    let start = [img::pick(&[0, 2, 0x4000, 0x8000, 0x8001]), img::pick(&[0, 0x4000, 0x8001])];
    // the last extra entry always ends its list
    let extra = [img::pick(&[2, 0x8002]), 0x8000];
    for i in 0..2 { putl(&mut info, 40 + 2 * i, 2, start[i]); putl(&mut info, 44 + 2 * i, 2, extra[i]); }
    let mut d: [u8; 48] = nd::bytes();
    for i in 0..6 {
        let next = if i < 2 || i == 4 { 2 * nd::below(2) as u64 } else { 0 };
        let v = img::get(&d, 8 * i, 8, false) & !mask | if mask == 0 { 0 } else { next << sh };
        putl(&mut d, 8 * i, 8, v);
    }
    let mut want = Vec::new();
    let mut bad = false;
    'all: for i in 0..2 {
        if start[i] == 0x4000 { continue; }
        let mut list = Vec::new();
        if start[i] & 0x8000 != 0 {
            for k in (start[i] & 0x3fff) as usize..2 { list.push(extra[k] & 0x3fff); if extra[k] & 0x8000 != 0 { break; } }
        } else { list.push(start[i]); }
        for s in list {
            let mut o = i as u64 * page + 4 * s;
            loop {
                let Some(v) = word(&d, o) else { bad = true; break 'all };
                let next = if mask == 0 { 0 } else { nd::conc((v & mask) >> sh) };
                if v & !mask != 0 { want.push(Rel { offset: o, value: (v & !mask).wrapping_add(add), auth: None }); }
                if next == 0 { break; }
                o += 4 * next;
            }
        }
    }
    ck_relocs(&info, &d, &want, bad);
}
/// versions 3 and 5: fixed pointer formats
fn slide35(v5: bool) {
    let mut info = [0u8; 28];
    let page = img::pick(&[8, 24, 0xffff_ffff]);
    let add = nd::u64();
    for (i, v) in [if v5 { 5 } else { 3 }, page, 2].into_iter().enumerate() { putl(&mut info, 4 * i, 4, v); }
    putl(&mut info, 16, 8, add);
    let start = [img::pick(&[0, 8, 41, 0xffff]), img::pick(&[0, 16, 0xffff, 0x7fff])];
    for i in 0..2 { putl(&mut info, 24 + 2 * i, 2, start[i]); }
    let mut d: [u8; 48] = nd::bytes();
    // bytes 6 and 7 of each word hold the distance to the next
    let sh = if v5 { 52 } else { 51 };
    for i in 0..6 {
        if i == 5 || i == 3 { continue; }
        let v = img::get(&d, 8 * i, 8, false);
        let next = if i == 2 { 0 } else if i == 0 { img::pick(&[0, 1, 2, 0x7ff]) } else { img::pick(&[0, 1]) };
        putl(&mut d, 8 * i, 8, v & !(0x7ff << sh) | next << sh);
    }
    for i in [3, 5] { let v = img::get(&d, 8 * i, 8, false); putl(&mut d, 8 * i, 8, v & !(0x7ff << sh)); }
    let mut want = Vec::new();
    let mut bad = false;
    'all: for i in 0..2 {
        if start[i] == 0xffff { continue; }
        let mut o = i as u64 * page + start[i];
        loop {
            let Some(p) = word(&d, o) else { bad = true; break 'all };
            let auth = p >> 63 != 0;
            let bits = |lo: u32, n: u32| p >> lo & ((1 << n) - 1);
            let (value, a) = match (v5, auth) {
                (false, false) => (bits(0, 43) | bits(43, 8) << 56, None),
                (false, true) => (bits(0, 32).wrapping_add(add), Some((bits(49, 2) as u8, bits(32, 16) as u16, bits(48, 1) != 0))),
                (true, false) => (bits(0, 34).wrapping_add(add) | bits(34, 8) << 56, None),
                (true, true) => (bits(0, 34).wrapping_add(add), Some((if bits(51, 1) != 0 { 2 } else { 0 }, bits(34, 16) as u16, bits(50, 1) != 0))),
            };
            want.push(Rel { offset: o, value, auth: a });
            let next = nd::conc(bits(sh, 11));
            if next == 0 { break; }
            o += 8 * next;
        }
    }
    ck_relocs(&info, &d, &want, bad);
}
/// where slide information may lie
fn slide_range() {
    const N: usize = H + 56 + 48;
    let big = nd::flag();
    let mut b = Buf::<N>::zero();
    head(&mut b.0, big, 0x140);
    img::put(&mut b.0, 0x138, 4, H as u64, big);
    img::put(&mut b.0, 0x13c, 4, 1, big);
    let v = img::pick(&[1, 2, 3, 4, 5]);
    let at = img::pick(&[N as u64 - 48, N as u64 - 24, N as u64 - 4, N as u64 - 3, !0]);
    let size = nd::u64();
    img::put(&mut b.0, H + 24, 8, at, big);
    img::put(&mut b.0, H + 32, 8, size, big);
    let n = img::pick(&[0, 1, 4, 12, 13, 0xffff_ffff]);
    let (po, eo, en) = (img::pick(&[0, 48, 0xffff_ffff]), img::pick(&[40, 47]), img::pick(&[0, 1, 0xffff_ffff]));
    if at <= N as u64 - 4 {
        let a = at as usize;
        for (i, x) in (if v == 2 { [v, 8, po, n, eo, en] } else { [v, 8, n, 0, 0, 0] }).into_iter().enumerate() {
            if a + 4 * i < N { img::put(&mut b.0, a + 4 * i, 4, x, big); }
        }
    }
    let good = match v {
        2 => img::fits(at, 40, N) && img::readable(at.wrapping_add(po), 2 * n, N) && img::readable(at.wrapping_add(eo), 2 * en, N),
        3 | 5 => img::fits(at, 24, N) && img::readable(at + 24, 2 * n, N),
        _ => false,
    };
    let d = &b.0[..];
    let c = nd::must(Cache::parse(d, &[]));
    let m = nd::some(c.mappings().next());
    let r = m.relocations();
    nd::ck(r.is_ok() == (size == 0 || good));
    if size != 0 { if r.is_ok() { nd::reach(1) } else { nd::reach(2) } }
}

harnesses! {
    /// up to 76 bytes
    /// @reach 1,2,3
    fn c22_fat32() { fat::<macho::FatArch32>(false); }
    /// up to 76 bytes
    /// @reach 1,2,3
    fn c22_fat64() { fat::<macho::FatArch64>(true); }
    /// two blobs in 48 bytes
    /// @reach 1,2,3
    fn c22_signature() { signature(); }
    /// 96 bytes
    /// @reach 1,2
    fn c22_directory() { directory(0); }
    /// 96 bytes
    /// @reach 2,3,4
    fn c22_directory_names() { directory(1); }
    /// 96 bytes
    /// @reach 2,5,6
    fn c22_directory_hashes() { directory(2); }
    /// every architecture, one byte changed
    /// @reach 1,2
    fn c22_magic() { magic(); }
    /// up to two mappings
    /// @reach 1,2,3
    fn c22_mappings() { mappings(); }
    /// up to two subcaches and a symbols file
    /// @reach 1,2,3
    fn c22_subcaches() { subcaches(); }
    /// two images
    /// @reach 1,2,3
    fn c22_images() { images(); }
    /// an image in two files
    /// @reach 1,2
    fn c22_image() { image(); }
    /// two pages, two extras
    /// @reach 1,2
    fn c22_slide2() { slide2(); }
    /// two pages
    /// @reach 1,2
    fn c22_slide3() { slide35(false); }
    /// two pages
    /// @reach 1,2
    fn c22_slide5() { slide35(true); }
    /// offsets and counts around the end of the file
    /// @reach 1,2
    fn c22_slide_range() { slide_range(); }
}
