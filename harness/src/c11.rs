//! Mach-O headers, load commands, segments, sections, symbols and relocations.
use crate::{harnesses, img::{self, M}, nd};
use nd::Buf;
use object::macho;
use object::read::macho::{LoadCommandVariant as V, MachHeader, MachOFile, Nlist, Section, Segment};
use object::read::*;
use object::{Endianness, Permissions, RelocationFlags, SectionFlags, SegmentFlags, SymbolFlags};

type M64 = macho::MachHeader64<Endianness>;
type M32 = macho::MachHeader32<Endianness>;
macro_rules! by_class {
    ($e:expr, $f:ident($($a:expr),*)) => { if $e.is64 { $f::<M64>($($a),*) } else { $f::<M32>($($a),*) } };
}
fn endian(l: M) -> Endianness { if l.big { Endianness::Big } else { Endianness::Little } }

fn header<Mach: MachHeader<Endian = Endianness>>(l: M) {
    let mut b = Buf::<40>::any();
    let h = l.hdr();
    let n = nd::range(h - 1, h);
    // no load commands, so that only the header decides
    l.put(&mut b.0, 20, 4, 0);
    let d = &b[..n];
    let m = img::get(d, 0, 4, true);
    let le = if l.is64 { 0xcffa_edfe } else { 0xcefa_edfe };
    let be = if l.is64 { 0xfeed_facf } else { 0xfeed_face };
    let r = MachOFile::<Mach>::parse(d);
    nd::ck(r.is_ok() == (n == h && (m == le || m == be)));
    let Ok(f) = r else { return };
    nd::reach(1);
    let big = m == be;
    nd::ck(f.is_little_endian() != big);
    nd::ck(f.is_64() == l.is64);
    nd::ck((f.endian() == Endianness::Big) == big);
    let g = |i: usize| img::get(d, 4 * i, 4, big);
    let e = f.endian();
    let mh = f.macho_header();
    nd::ck(mh.is_type_64() == l.is64 && mh.is_big_endian() == big && mh.is_little_endian() != big);
    nd::ck_eq(mh.magic() as u64, m);
    nd::ck_eq(mh.cputype(e).0 as u64, g(1));
    nd::ck_eq(mh.cpusubtype(e).0 as u64, g(2));
    nd::ck_eq(mh.filetype(e).0 as u64, g(3));
    nd::ck_eq(mh.ncmds(e) as u64, g(4));
    nd::ck_eq(mh.sizeofcmds(e) as u64, g(5));
    nd::ck_eq(mh.flags(e).0 as u64, g(6));
    let FileFlags::MachO { flags } = f.flags() else { nd::ck(false); return };
    nd::ck_eq(flags.0 as u64, g(6));
    nd::ck(f.architecture() == match g(1) {
        7 => Architecture::I386,
        0x0100_0007 => Architecture::X86_64,
        12 => Architecture::Arm,
        0x0100_000c => Architecture::Aarch64,
        0x0200_000c => Architecture::Aarch64_Ilp32,
        8 => Architecture::Mips,
        18 => Architecture::PowerPc,
        0x0100_0012 => Architecture::PowerPc64,
        _ => Architecture::Unknown,
    });
    nd::ck(f.sub_architecture().is_some() == (g(1) == 0x0100_000c && g(2) & 0xff_ffff == 2));
    nd::ck(f.kind() == match g(3) { 1 => ObjectKind::Relocatable, 2 => ObjectKind::Executable, 4 => ObjectKind::Core, 6 => ObjectKind::Dynamic, _ => ObjectKind::Unknown });
    nd::ck(f.sections().next().is_none() && f.segments().next().is_none() && f.symbols().next().is_none());
    nd::ck(f.entry() == 0 && f.relative_address_base() == 0);
    nd::ck(f.comdats().next().is_none() && f.dynamic_symbols().next().is_none() && f.dynamic_symbol_table().is_none() && f.dynamic_relocations().is_none());
}

/// sequences of load commands
fn commands<Mach: MachHeader<Endian = Endianness>>(l: M) {
    let h = l.hdr();
    const N: usize = 32;
    let mut b = Buf::<72>::any();
    let size = img::pick(&[0, 7, 8, 24, 31, 32, 33, 0xffff_ffff]);
    l.header(&mut b.0, 0, 2, 0, size);
    let ncmds = nd::below(4) as u64 + if nd::flag() { 0x8000_0000 } else { 0 };
    l.put(&mut b.0, 16, 4, ncmds);
    // the first command's size decides where the second one is
    let s0 = img::pick(&[0, 7, 8, 12, 16, 24, 25, 32, 0xffff_fff8]);
    l.put(&mut b.0, h + 4, 4, s0);
    let d = &b[..h + N];
    let f = nd::must(Mach::parse(d, 0));
    let it = f.load_commands(endian(l), d, 0);
    nd::ck(it.is_ok() == (size <= N as u64));
    let Ok(mut it) = it else { return };
    let end = h + size as usize;
    let mut at = h;
    let mut n = 0;
    while n < 5 {
        let c = it.next();
        if n as u64 == ncmds { nd::ck(matches!(c, Ok(None))); nd::ck(matches!(it.next(), Ok(None))); break; }
        let cs = if end - at >= 8 { nd::conc(l.u32(d, at + 4).min(64)) } else { 0 };
        let ok = cs >= 8 && cs <= (end - at) as u64;
        nd::ck(c.is_ok() == ok);
        let Ok(c) = c else { nd::ck(matches!(it.next(), Ok(None))); nd::reach(2); break };
        let c = nd::some(c);
        nd::ck_eq(c.cmd().0 as u64, l.u32(d, at));
        nd::ck_eq(c.cmdsize() as u64, cs);
        nd::ck_eq(c.offset(), at as u64);
        img::same_slice(c.raw_data(), d, at as u64, cs);
        // strings are NUL-terminated inside the command
        if n == 0 {
            let off = img::pick(&[0, 3, cs - 1, cs, cs + 1, 0xffff_ffff]);
            let mut lc = [0; 4];
            l.put(&mut lc, 0, 4, off);
            let s = macho::LcStr { offset: object::U32::from_bytes(lc) };
            let got = c.string(endian(l), s);
            let want = if off > cs { None } else { img::cstr(d, at as u64 + off, at as u64 + cs) };
            nd::ck(got.is_ok() == want.is_some());
            if let (Ok(g), Some(w)) = (got, want) { nd::ck_bytes(g, w); }
        }
        at += cs as usize;
        n += 1;
        nd::reach(1);
    }
}

/// the variant and accessor for every command type
fn variants<Mach: MachHeader<Endian = Endianness>>(l: M) {
    let h = l.hdr();
    let mut b = Buf::<160>::any();
    // (command, minimum size, variant)
    const T: &[(u64, u64, u64)] = &[
        (0x1, 56, 1), (0x2, 24, 2), (0x4, 8, 3), (0x5, 8, 3), (0xb, 80, 4), (0xc, 24, 5), (0xd, 24, 6), (0xe, 12, 7), (0xf, 12, 8),
        (0x10, 20, 9), (0x11, 40, 10), (0x12, 12, 11), (0x13, 12, 12), (0x14, 12, 13), (0x15, 12, 14), (0x16, 16, 15), (0x17, 12, 16),
        (0x8000_0018, 24, 5), (0x19, 72, 17), (0x1a, 72, 18), (0x1b, 24, 19), (0x8000_001c, 12, 20), (0x1d, 16, 21), (0x1e, 16, 21),
        (0x8000_001f, 24, 5), (0x20, 24, 5), (0x21, 20, 22), (0x22, 48, 23), (0x8000_0022, 48, 23), (0x8000_0023, 24, 5), (0x24, 16, 24),
        (0x25, 16, 24), (0x26, 16, 21), (0x27, 12, 25), (0x8000_0028, 24, 26), (0x29, 16, 21), (0x2a, 16, 27), (0x2b, 16, 21),
        (0x2c, 24, 28), (0x2d, 12, 29), (0x2e, 16, 21), (0x2f, 16, 24), (0x30, 16, 24), (0x31, 40, 30), (0x32, 24, 31),
        (0x8000_0033, 16, 21), (0x8000_0034, 16, 21), (0x8000_0035, 32, 32), (0x39, 12, 33),
        (0x3, 8, 0), (0x6, 8, 0), (0x1c, 8, 0), (0x8000_0019, 8, 0), (0x28, 8, 0), (0x8000_001b, 8, 0), (0, 8, 0), (0x36, 8, 0), (0x3a, 8, 0), (0x8000_0032, 8, 0),
    ];
    let (cmd, min, want) = T[nd::below(T.len())];
    let size = if nd::flag() { min } else if min > 8 { min - 4 } else { min + 4 };
    l.header(&mut b.0, 0, 2, 1, size);
    l.put(&mut b.0, h, 4, cmd);
    l.put(&mut b.0, h + 4, 4, size);
    let d = &b[..h + size as usize];
    let e = endian(l);
    let f = nd::must(Mach::parse(d, 0));
    let c = nd::some(nd::must(nd::must(f.load_commands(e, d, 0)).next()));
    let ok = size >= min;
    fn p<T>(x: &T) -> usize { x as *const T as usize }
    let r = c.variant();
    nd::ck(r.is_ok() == ok);
    let mut rest: Option<&[u8]> = None;
    let base = d.as_ptr() as usize + h;
    if let Ok(v) = r {
        let (k, a) = match v {
            V::Segment32(x, y) => { rest = Some(y); (1, p(x)) }
            V::Symtab(x) => (2, p(x)), V::Thread(x, y) => { rest = Some(y); (3, p(x)) }
            V::Dysymtab(x) => (4, p(x)), V::Dylib(x) => (5, p(x)), V::IdDylib(x) => (6, p(x)), V::LoadDylinker(x) => (7, p(x)),
            V::IdDylinker(x) => (8, p(x)), V::PreboundDylib(x) => (9, p(x)), V::Routines32(x) => (10, p(x)), V::SubFramework(x) => (11, p(x)),
            V::SubUmbrella(x) => (12, p(x)), V::SubClient(x) => (13, p(x)), V::SubLibrary(x) => (14, p(x)), V::TwolevelHints(x) => (15, p(x)),
            V::PrebindCksum(x) => (16, p(x)), V::Segment64(x, y) => { rest = Some(y); (17, p(x)) }
            V::Routines64(x) => (18, p(x)), V::Uuid(x) => (19, p(x)), V::Rpath(x) => (20, p(x)), V::LinkeditData(x) => (21, p(x)),
            V::EncryptionInfo32(x) => (22, p(x)), V::DyldInfo(x) => (23, p(x)), V::VersionMin(x) => (24, p(x)), V::DyldEnvironment(x) => (25, p(x)),
            V::EntryPoint(x) => (26, p(x)), V::SourceVersion(x) => (27, p(x)), V::EncryptionInfo64(x) => (28, p(x)), V::LinkerOption(x) => (29, p(x)),
            V::Note(x) => (30, p(x)), V::BuildVersion(x, y) => { rest = Some(y); (31, p(x)) }
            V::FilesetEntry(x) => (32, p(x)), V::TargetTriple(x) => (33, p(x)),
            V::Other => (0, base),
            _ => (99, 0),
        };
        nd::ck_eq(k, want);
        nd::ck(a == base);
        if let Some(y) = rest { nd::ck(y.len() as u64 == size - min && y.as_ptr() as usize == base + min as usize); }
        nd::reach(1);
    }
    // accessors: Some for their command, an error if it is short, None otherwise
    fn acc<T>(r: Result<Option<&T>>, is: bool, ok: bool, base: usize) {
        match r {
            Ok(Some(x)) => nd::ck(is && ok && x as *const T as usize == base),
            Ok(None) => nd::ck(!is),
            Err(_) => nd::ck(is && !ok),
        }
    }
    acc(c.segment_32().map(|x| x.map(|x| x.0)), want == 1, ok, base);
    acc(c.segment_64().map(|x| x.map(|x| x.0)), want == 17, ok, base);
    acc(c.symtab(), want == 2, ok, base);
    acc(c.dysymtab(), want == 4, ok, base);
    acc(c.dylib(), want == 5, ok, base);
    acc(c.uuid(), want == 19, ok, base);
    acc(c.dyld_info(), want == 23, ok, base);
    acc(c.dyld_exports_trie(), cmd == 0x8000_0033, ok, base);
    acc(c.dyld_chained_fixups(), cmd == 0x8000_0034, ok, base);
    acc(c.entry_point(), want == 26, ok, base);
    acc(c.unix_thread().map(|x| x.map(|x| x.0)), cmd == 5, ok, base);
    if want == 5 && ok {
        let y = nd::some(nd::must(c.dylib()));
        let used = l.u32(d, h + 8) == 28 && l.u32(d, h + 12) == 0x1a74_1800;
        // the minimal command has no room for the flags
        match c.dylib_use_flags(e, y) { Ok(x) => nd::ck(!used && x.is_none()), Err(_) => nd::ck(used) }
    }
}

fn misc<Mach: MachHeader<Endian = Endianness>>(l: M) {
    let h = l.hdr();
    let mut b = Buf::<176>::any();
    let e = endian(l);
    // a filler command, then the command of interest
    let k = nd::below(6);
    let size: usize = [24, 24, 320, 40, 28, 32][k].min(96);
    l.header(&mut b.0, 0, 2, 2, 12 + size as u64);
    l.put(&mut b.0, h, 4, 0x1d);
    l.put(&mut b.0, h + 4, 4, 12);
    let at = h + 12;
    // only the command matters, so the entry point search skips the short first one
    let cmd = [0x1b, 0x8000_0028, 5, 0x32, 0x20, 0xc][k];
    l.put(&mut b.0, at, 4, cmd);
    l.put(&mut b.0, at + 4, 4, size as u64);
    if k == 2 {
        let ct = img::pick(&[0x0100_0007, 0x0100_000c, 7, 12, 18]);
        l.put(&mut b.0, 4, 4, ct);
    }
    let ntools = img::pick(&[0, 1, 2, 3, 0x2000_0001]);
    if k == 3 { l.put(&mut b.0, at + 20, 4, ntools); }
    let d = &b[..at + size];
    let f = nd::must(MachOFile::<Mach>::parse(d));
    let u = f.mach_uuid();
    let en = f.entry();
    match k {
        0 => { nd::ck_bytes(&nd::some(nd::must(u)), &d[at + 8..at + 24]); nd::ck(en == 0); nd::reach(1); }
        1 => { nd::ck_eq(en, l.get(d, at + 8, 8)); nd::ck(nd::must(u).is_none()); nd::reach(2); }
        2 => {
            let (o, n) = match l.u32(d, 4) { 7 => (at + 8 + 8 + 40, 4), 12 => (at + 8 + 8 + 60, 4), _ => (0, 0) };
            // the 64-bit states do not fit this command
            let want = if n != 0 { l.get(d, o, n) } else { 0 };
            nd::ck_eq(en, want);
            nd::reach(3);
        }
        3 => {
            match f.build_version() {
                Ok(x) => {
                    let (v, t) = nd::some(x);
                    nd::ck(ntools <= 2);
                    nd::ck_eq(v.platform.get(e).0 as u64, l.u32(d, at + 8));
                    nd::ck_eq(v.minos.get(e).0 as u64, l.u32(d, at + 12));
                    nd::ck_eq(v.sdk.get(e).0 as u64, l.u32(d, at + 16));
                    nd::ck_eq(t.len() as u64, ntools);
                    for i in 0..t.len() {
                        nd::ck_eq(t[i].tool.get(e).0 as u64, l.u32(d, at + 24 + 8 * i));
                        nd::ck_eq(t[i].version.get(e).0 as u64, l.u32(d, at + 28 + 8 * i));
                    }
                    nd::reach(4);
                }
                Err(_) => nd::ck(ntools > 2),
            }
        }
        _ => {
            let mut it = nd::must(f.macho_load_commands());
            it.next().ok();
            let c = nd::some(nd::must(it.next()));
            let y = nd::some(nd::must(c.dylib()));
            let used = l.u32(d, at + 8) == 28 && l.u32(d, at + 12) == 0x1a74_1800;
            let x = nd::must(c.dylib_use_flags(e, y));
            nd::ck(x.is_some() == used);
            if let Some(x) = x { nd::ck_eq(x.0 as u64, l.u32(d, at + 24)); nd::reach(5); }
            nd::ck_eq(y.dylib.current_version.get(e).0 as u64, l.u32(d, at + 16));
            nd::ck_eq(y.dylib.compatibility_version.get(e).0 as u64, l.u32(d, at + 20));
        }
    }
}
/// LC_UNIXTHREAD with room for every register state
fn thread<Mach: MachHeader<Endian = Endianness>>(l: M) {
    let h = l.hdr();
    let ct = img::pick(&[0x0100_0007, 0x0100_000c, 7, 12]);
    let (o, n): (usize, usize) = match ct { 7 => (40, 4), 12 => (60, 4), 0x0100_0007 => (128, 8), _ => (256, 8) };
    let short = nd::flag();
    let size = 16 + o + n - short as usize;
    let mut b = Buf::<320>::any();
    l.header(&mut b.0, ct, 2, 1, size as u64);
    l.put(&mut b.0, h, 4, 5);
    l.put(&mut b.0, h + 4, 4, size as u64);
    let d = &b[..h + size];
    let f = nd::must(MachOFile::<Mach>::parse(d));
    nd::ck_eq(f.entry(), if short { 0 } else { l.get(d, h + 16 + o, n) });
    nd::reach(1);
}

fn segments<Mach: MachHeader<Endian = Endianness>>(l: M) {
    let h = l.hdr();
    let s = l.seg();
    const T: usize = 8;
    let mut b = Buf::<200>::any();
    l.header(&mut b.0, 7, 2, 2, 2 * s as u64);
    l.segment(&mut b.0, h, 0);
    l.segment(&mut b.0, h + s, 0);
    // a concrete name of some length for the first
    let nl = [0, 5, 16][nd::below(3)];
    for i in 0..16 { if i < nl { nd::assume(b.0[h + 8 + i] != 0); } else { b.0[h + 8 + i] = 0; } }
    let n = h + 2 * s + T;
    let (off, size) = [(0, 0), (n as u64 - 4, 4), (n as u64 - 4, 5), (n as u64, 0), (n as u64 + 1, 0), (!0, 2), (4, 8), (1, !0)][nd::below(8)];
    l.segset(&mut b.0, h, 2, off);
    l.segset(&mut b.0, h, 3, size);
    let d = &b[..n];
    let f = nd::must(MachOFile::<Mach>::parse(d));
    let mut it = f.segments();
    for i in 0..2 {
        let at = h + i * s;
        let x = nd::some(it.next());
        let g = |i| l.segget(d, at, i);
        nd::ck_eq(x.address(), g(0));
        nd::ck_eq(x.size(), g(1));
        nd::ck(x.file_range() == (g(2), g(3)));
        nd::ck(x.align() == 0x1000);
        let SegmentFlags::MachO { flags, maxprot, initprot } = x.flags() else { nd::ck(false); return };
        nd::ck_eq(flags.0 as u64, g(7));
        nd::ck_eq(maxprot.0 as u64, g(4));
        nd::ck_eq(initprot.0 as u64, g(5));
        let p = x.permissions();
        nd::ck(p == Permissions::new(g(4) & 1 != 0, g(4) & 2 != 0, g(4) & 4 != 0));
        if i == 0 {
            nd::ck_bytes(nd::some(nd::must(x.name_bytes())), &d[at + 8..at + 8 + nl]);
            let (off, size) = (g(2), g(3));
            let ok = img::readable(off, size, n);
            let r = x.data();
            nd::ck(r.is_ok() == ok);
            let (a, k) = (nd::u64(), [0, 1, 4, !0][nd::below(4)]);
            let dr = x.data_range(a, k);
            nd::ck(dr.is_ok() == ok);
            if let (Ok(r), Ok(dr)) = (r, dr) {
                img::same_slice(r, d, off, size);
                img::ck_range(dr, r, g(0), a, k);
                nd::reach(1);
            }
        }
    }
    nd::ck(it.next().is_none());
}

const READABLE: [u64; 7] = [0, 2, 3, 4, 5, 0xe, 8];
fn kind_of(seg: &[u8], flags: u64, readonly: bool) -> SectionKind {
    if img::eq(seg, b"__DWARF") { return SectionKind::Debug; }
    if flags & 0x0200_0000 != 0 { return SectionKind::Unknown; }
    let _ = READABLE;
    match flags & 0xff {
        1 | 0xc => SectionKind::UninitializedData,
        2 => SectionKind::ReadOnlyString,
        3 | 4 | 5 | 0xe => SectionKind::ReadOnlyData,
        8 => SectionKind::Text,
        0x11 => SectionKind::Tls,
        0x12 => SectionKind::UninitializedTls,
        0x13 => SectionKind::TlsVariables,
        0 | 6 | 7 | 9 | 0xa | 0xb | 0xd | 0x10 | 0x14 | 0x15 | 0x16 => {
            if flags & 0x8000_0400 != 0 { SectionKind::Text } else if readonly { SectionKind::ReadOnlyData } else { SectionKind::Data }
        }
        _ => SectionKind::Unknown,
    }
}

fn sections<Mach: MachHeader<Endian = Endianness>>(l: M, data: bool) {
    let h = l.hdr();
    let s = l.sect();
    const T: usize = 8;
    let mut b = Buf::<360>::any();
    let ft = nd::u8() as u64;
    let sz = l.segment(&mut b.0, h, 2);
    l.header(&mut b.0, 7, ft, 1, sz as u64);
    l.segset(&mut b.0, h, 2, 0);
    l.segset(&mut b.0, h, 3, 0);
    let n = h + sz + T;
    let at = h + l.seg();
    let (off, size) = [(4, 8), (0, 0), (n as u64 - 4, 4), (n as u64 - 4, 5), (n as u64, 0), (n as u64 + 1, 0), (0xffff_ffff, 2), (1, !0)][if data { nd::below(8) } else { 0 }];
    l.sectset(&mut b.0, at, 2, off);
    l.sectset(&mut b.0, at, 1, size);
    if data { let f = img::pick(&[0, 1, 0xc, 0x12, 2, 0x8000_0411]); l.sectset(&mut b.0, at, 6, f); }
    let nl = [6, 0, 16][if data { 0 } else { nd::below(3) }];
    for i in 0..16 { if i < nl && (i != 3 || data) { b.0[at + i] = b'_' + i as u8; } else if i >= nl { b.0[at + i] = 0; } else { nd::assume(b.0[at + i] != 0); } }
    let seg = if data { 2 } else { nd::below(4) };
    let sn: &[u8] = [&b"__DWARF"[..], b"__TEXT", b"__DATA", b"__TEXTTTTTTTTTTT"][seg];
    for i in 0..16 { b.0[at + 16 + i] = if i < sn.len() { sn[i] } else { 0 }; }
    let d = &b[..n];
    let f = nd::must(MachOFile::<Mach>::parse(d));
    let mut it = f.sections();
    let x = nd::some(it.next());
    let g = |i| l.sectget(d, at, i);
    let fl = g(6);
    nd::ck(x.index() == SectionIndex(1));
    nd::ck_eq(x.address(), g(0));
    nd::ck_eq(x.size(), g(1));
    let al = x.align();
    if g(3) < 64 { nd::ck(al != 0 && al & (al - 1) == 0 && al >> (g(3) & 63) == 1); } else { nd::ck(al == 0); }
    nd::ck_bytes(nd::must(x.name_bytes()), &d[at..at + nl]);
    nd::ck_bytes(nd::some(nd::must(x.segment_name_bytes())), sn);
    let SectionFlags::MachO { flags, reserved2 } = x.flags() else { nd::ck(false); return };
    nd::ck_eq(flags.0 as u64, fl);
    nd::ck_eq(reserved2 as u64, g(8));
    let ro = if ft == 1 { seg == 1 } else { l.segget(d, h, 5) & 2 == 0 || l.segget(d, h, 7) & 0x10 != 0 };
    nd::ck(x.kind() == kind_of(sn, fl, ro));
    let zero = matches!(fl & 0xff, 1 | 0xc | 0x12);
    nd::ck(x.file_range() == if zero { None } else { Some((g(2), g(1))) });
    let ok = zero || img::readable(off, g(1), n);
    let r = x.data();
    nd::ck(r.is_ok() == ok);
    nd::ck(nd::must(x.compressed_file_range()).format == CompressionFormat::None);
    if let Ok(r) = r {
        if zero { nd::ck(r.is_empty()); } else { img::same_slice(r, d, off, g(1)); nd::reach(1); }
    }
    if data {
        let (a, k) = (nd::u64(), [0, 1, 4][nd::below(3)]);
        let dr = x.data_range(a, k);
        nd::ck(dr.is_ok() == ok);
        if let (Ok(r), Ok(dr)) = (r, dr) { img::ck_range(dr, r, g(0), a, k); }
    }
    let y = nd::some(it.next());
    nd::ck(y.index() == SectionIndex(2));
    nd::ck_eq(y.address(), l.sectget(d, at + s, 0));
    nd::ck(it.next().is_none());
    nd::ck(f.section_by_index(SectionIndex(0)).is_err());
    nd::ck(f.section_by_index(SectionIndex(3)).is_err());
    nd::ck_eq(nd::must(f.section_by_index(SectionIndex(2))).address(), y.address());
}

/// section numbering continues over segments; bad section counts are errors; a bad later command ends the list
fn two_segments<Mach: MachHeader<Endian = Endianness>>(l: M) {
    let h = l.hdr();
    let mut b = Buf::<480>::zero();
    let s0 = l.segment(&mut b.0, h, 1);
    let s1 = l.segment(&mut b.0, h + s0, 2);
    let bad = nd::below(4);
    l.header(&mut b.0, 7, 2, if bad == 3 { 1 } else { 2 }, (s0 + s1) as u64);
    if bad == 1 { l.segset(&mut b.0, h + s0, 6, img::pick(&[3, 0xffff_ffff])); }
    if bad == 2 { l.put(&mut b.0, h + s0 + 4, 4, img::pick(&[7, (s1 + 1) as u64])); }
    let at = [h + l.seg(), h + s0 + l.seg(), h + s0 + l.seg() + l.sect()];
    for a in at { let v = nd::u64(); l.sectset(&mut b.0, a, 0, v); }
    let d = &b[..h + s0 + s1];
    let r = MachOFile::<Mach>::parse(d);
    nd::ck(r.is_ok() == (bad != 1));
    let Ok(f) = r else { return };
    let n = if bad == 0 { 3 } else { 1 };
    let mut it = f.sections();
    for i in 0..n {
        let x = nd::some(it.next());
        nd::ck(x.index() == SectionIndex(i + 1));
        nd::ck_eq(x.address(), l.sectget(d, at[i], 0));
    }
    nd::ck(it.next().is_none());
    nd::ck(f.segments().count() == if bad == 0 { 2 } else { 1 });
    nd::reach(1);
}

/// file offsets of sections in segments extending past 4 GiB
fn large_offsets() {
    type S = macho::Section64<Endianness>;
    let l = M { is64: true, big: false };
    let mut b = Buf::<320>::zero();
    const N: usize = nd::tier(2, 3);
    let sz = l.segment(&mut b.0, 0, N);
    // offsets and sizes near multiples of 4 GiB: the low part arbitrary
    let fo = (img::pick(&[0, 5]) << 32) | nd::u32() as u64;
    let fs = (img::pick(&[0, 2, 0xffff_ffff]) << 32) | nd::u32() as u64;
    l.segset(&mut b.0, 0, 2, fo);
    l.segset(&mut b.0, 0, 3, fs);
    for i in 0..N {
        let at = 72 + 80 * i;
        let (o, f) = (nd::u32() as u64, if i == 0 { img::pick(&[0, 1, 0xc, 0x12]) } else { 0 });
        l.sectset(&mut b.0, at, 2, o);
        let s = (img::pick(&[0, 1]) << 32) | nd::u32() as u64;
        l.sectset(&mut b.0, at, 1, s);
        l.sectset(&mut b.0, at, 6, f);
    }
    let d = &b[..sz];
    let seg: &macho::SegmentCommand64<Endianness> = nd::must(d.read_at(0));
    let e = Endianness::Little;
    let secs: &[S] = nd::must(seg.sections(e, &d[72..]));
    let end = fo.wrapping_add(fs);
    let mut prev = fo;
    let mut it = seg.section_offsets(e, secs);
    for i in 0..N {
        let at = 72 + 80 * i;
        let raw = l.sectget(d, at, 2);
        let zero = matches!(l.sectget(d, at, 6) & 0xff, 1 | 0xc | 0x12);
        let r = nd::some(it.next());
        let mut want = raw;
        let mut ok = true;
        if end > 0xffff_ffff && !zero {
            // the least offset not before the previous end with the given low half
            want = (prev & !0xffff_ffff) | raw;
            if want < prev { want = want.wrapping_add(1 << 32); }
            let se = want.wrapping_add(l.sectget(d, at, 1));
            ok = se <= end;
            prev = se;
        }
        nd::ck(r.is_ok() == ok);
        match r {
            Ok((s, o)) => { nd::ck(s as *const S as usize == d.as_ptr() as usize + at); nd::ck_eq(o, want); nd::reach(1); }
            Err(_) => { nd::ck(it.next().is_none()); nd::reach(2); return; }
        }
    }
    nd::ck(it.next().is_none());
}

fn by_name<Mach: MachHeader<Endian = Endianness>>(l: M) {
    let h = l.hdr();
    let mut b = Buf::<280>::zero();
    let sz = l.segment(&mut b.0, h, 2);
    l.header(&mut b.0, 7, 2, 1, sz as u64);
    let at = [h + l.seg(), h + l.seg() + l.sect()];
    // (query, names it matches)
    const Q: &[(&[u8], &[&[u8]])] = &[
        (b".text", &[b".text", b"__text"]),
        (b"__text", &[b"__text"]),
        (b".debug_info", &[b".debug_info", b"__debug_info", b"__zdebug_info"]),
        (b".debug_str_offsets", &[b".debug_str_offse", b"__debug_str_offs", b"__zdebug_str_off"]),
        (b"", &[b""]),
        (b".", &[b".", b"__"]),
        (b".debug_", &[b".debug_", b"__debug_", b"__zdebug_"]),
    ];
    let (q, m) = Q[nd::below(Q.len())];
    let full = q.len() <= 16;
    // each section: one of the names, possibly with one character changed
    for &a in &at {
        let k = nd::below(m.len() + 1);
        if k < m.len() { for i in 0..m[k].len() { b.0[a + i] = m[k][i]; } }
        let c = [0, 1, 9, 15][nd::below(4)];
        if nd::flag() { b.0[a + c] = nd::u8(); }
    }
    let d = &b[..h + sz];
    let f = nd::must(MachOFile::<Mach>::parse(d));
    let hit = |a: usize| {
        let n = img::name16(&d[a..a + 16]);
        let mut i = if full { 0 } else { 1 };
        while i < m.len() { if img::eq(n, m[i]) { return true; } i += 1; }
        false
    };
    let want = if hit(at[0]) { Some(1) } else if hit(at[1]) { Some(2) } else { None };
    let got = f.section_by_name_bytes(q);
    nd::ck(got.map(|x| x.index().0) == want);
    nd::reach(1);
}

const NS: usize = 2;
struct Sy { b: Buf<400>, n: usize, sec: usize, sym: usize, str: usize }
fn sym_image(l: M) -> Sy {
    let mut b = Buf::<400>::zero();
    let h = l.hdr();
    let sz = l.segment(&mut b.0, h, 1);
    l.header(&mut b.0, 7, 1, 2, sz as u64 + 24);
    let sym = (h + sz + 24 + 7) & !7;
    let str = sym + NS * l.nlist();
    l.symtab(&mut b.0, h + sz, sym as u64, NS as u64, str as u64, 12);
    nd::fill(&mut b.0[sym..str]);
    Sy { b, n: str + 12, sec: h + l.seg(), sym, str }
}
fn symbols<Mach: MachHeader<Endian = Endianness>>(l: M) {
    let mut m = sym_image(l);
    let e = endian(l);
    nd::fill(&mut m.b.0[m.str..m.str + 12]);
    m.b.0[m.sec + 16] = b'_';
    let ty = img::pick(&[0, 1, 2, 0x11, 0x17]) | if nd::flag() { 0x400 } else { 0 };
    l.sectset(&mut m.b.0, m.sec, 6, ty);
    let (so, st) = (m.sym, m.str);
    let k = img::pick(&[0, 1, 11, 12, 0xffff_ffff]);
    l.put(&mut m.b.0, so, 4, k);
    l.put(&mut m.b.0, so + l.nlist(), 4, 2);
    let d = &m.b[..m.n];
    let f = nd::must(MachOFile::<Mach>::parse(d));
    let t = nd::some(f.symbol_table());
    nd::ck(f.macho_symbol_table().len() == NS);
    let mut it = f.symbols();
    let mut it2 = t.symbols();
    for i in 0..NS {
        let at = so + i * l.nlist();
        let (nt, ns, desc, v) = (d[at + 4] as u64, d[at + 5] as u64, l.get(d, at + 6, 2), l.get(d, at + 8, l.w()));
        let stab = nt & 0xe0 != 0;
        let raw = &f.macho_symbol_table().symbols()[i];
        nd::ck(raw.is_stab() == stab);
        nd::ck(raw.stab().map(|x| x.0 as u64) == if stab { Some(nt) } else { None });
        nd::ck_eq(raw.n_strx(e) as u64, l.u32(d, at));
        let by = f.symbol_by_index(SymbolIndex(i));
        nd::ck(by.is_ok() != stab);
        nd::ck(t.symbol_by_index(SymbolIndex(i)).is_ok() != stab);
        let typ = nt & 0xe;
        let und = !stab && typ == 0 && v == 0;
        let com = !stab && typ == 0 && v != 0;
        nd::ck(raw.is_undefined() == und && raw.is_common() == com && raw.is_definition() == (!stab && typ == 0xe));
        nd::ck_eq(raw.library_ordinal(e).0 as u64, desc >> 8);
        if stab { continue; }
        let x = nd::some(it.next());
        let x2 = nd::some(it2.next());
        nd::ck(x.index() == SymbolIndex(i) && x2.index() == SymbolIndex(i));
        nd::ck(nd::must(by).index() == SymbolIndex(i));
        nd::ck_eq(x.address(), if com { 0 } else { v });
        nd::ck_eq(x.size(), if com { v } else { 0 });
        nd::ck(x.is_undefined() == und && x.is_common() == com && x.is_definition() == (typ == 0xe));
        let sec = x.section();
        nd::ck(sec == match typ {
            0 => if com { SymbolSection::Common } else { SymbolSection::Undefined },
            2 => SymbolSection::Absolute,
            0xe if ns != 0 => SymbolSection::Section(SectionIndex(ns as usize)),
            _ => SymbolSection::Unknown,
        });
        nd::ck(x.is_weak() == (desc & 0xc0 != 0));
        let scope = if und { SymbolScope::Unknown } else if nt & 1 == 0 { SymbolScope::Compilation } else if nt & 0x10 != 0 { SymbolScope::Linkage } else { SymbolScope::Dynamic };
        nd::ck(x.scope() == scope);
        nd::ck(x.is_local() == (scope == SymbolScope::Compilation) && x.is_global() != x.is_local());
        let SymbolFlags::MachO { n_type, n_desc } = x.flags() else { nd::ck(false); return };
        nd::ck_eq(n_type.0 as u64, nt);
        nd::ck_eq(n_desc.0 as u64, desc);
        let want = if i == 0 { if k >= 12 { None } else { img::cstr(d, st as u64 + k, st as u64 + 12) } } else { img::cstr(d, st as u64 + 2, st as u64 + 12) };
        let got = x.name_bytes();
        nd::ck(got.is_ok() == want.is_some());
        if let (Ok(g), Some(w)) = (got, want) { nd::ck_bytes(g, w); nd::reach(1); }
        // the name is not the label of a section symbol
        if i == 0 || d[st + 2] != b'l' {
            let kind = if typ == 0xe && ns == 1 {
                match ty & 0xff { 0 if ty & 0x400 != 0 => SymbolKind::Text, 0 | 1 | 2 => SymbolKind::Data, 0x11 => SymbolKind::Tls, _ => SymbolKind::Unknown }
            } else if com { SymbolKind::Data } else { SymbolKind::Unknown };
            nd::assume(i != 0 || k >= 12 || d[st + k as usize] != b'l');
            nd::ck(x.kind() == kind);
            nd::reach(2);
        }
    }
    nd::ck(it.next().is_none() && it2.next().is_none());
    nd::ck(f.symbol_by_index(SymbolIndex(NS)).is_err());
    nd::ck(f.symbol_by_index(SymbolIndex(usize::MAX)).is_err());
}
fn ltmp<Mach: MachHeader<Endian = Endianness>>(l: M) {
    let mut m = sym_image(l);
    let st = m.str;
    let name = *b"ltmp12\0\0\0\0\0\0";
    for i in 0..12 { m.b.0[st + i] = name[i]; }
    let p = nd::below(8);
    m.b.0[st + p] = nd::u8();
    l.put(&mut m.b.0, m.sym, 4, 0);
    nd::fill(&mut m.b.0[m.sec + 32..m.sec + 40]);
    l.sectset(&mut m.b.0, m.sec, 6, 0);
    l.sectset(&mut m.b.0, m.sec, 1, 0);
    let ty = nd::u8() & 0x1f;
    m.b.0[m.sym + 4] = ty;
    m.b.0[m.sym + 5] = img::pick(&[0, 1, 2]) as u8;
    let d = &m.b[..m.n];
    let f = nd::must(MachOFile::<Mach>::parse(d));
    let x = nd::must(f.symbol_by_index(SymbolIndex(0)));
    let n = img::name16(&d[st..st + 12]);
    let mut is = n.len() > 4 && img::eq(&n[..4], b"ltmp");
    let mut i = 4;
    while i < n.len() { if !(n[i] >= b'0' && n[i] <= b'9') { is = false; } i += 1; }
    let insec = ty & 0xe == 0xe && d[m.sym + 5] == 1;
    let v = l.get(d, m.sym + 8, l.w());
    if insec {
        let want = if is && ty & 1 == 0 && v == l.sectget(d, m.sec, 0) { SymbolKind::Section } else { SymbolKind::Data };
        nd::ck(x.kind() == want);
        if want == SymbolKind::Section { nd::reach(1); }
    } else {
        nd::ck(x.kind() == if ty & 0xe == 0 && v != 0 { SymbolKind::Data } else { SymbolKind::Unknown });
    }
}
/// symbol tables at any position
fn symtab<Mach: MachHeader<Endian = Endianness>>(l: M) {
    let h = l.hdr();
    let mut b = Buf::<96>::any();
    l.header(&mut b.0, 7, 1, 1, 24);
    let n = h + 24 + 36;
    let symoff = img::pick(&[0, 8, n as u64 - l.nlist() as u64, n as u64, 0xffff_fff8]);
    let ns = img::pick(&[0, 1, 2, 0x1000_0001, 0xffff_ffff]);
    let so = img::pick(&[0, n as u64 - 4, n as u64, 0xffff_ffff]);
    let ss = img::pick(&[0, 4, 0xffff_ffff]);
    l.symtab(&mut b.0, h, symoff, ns, so, ss);
    let d = &b[..n];
    let e = endian(l);
    let r = MachOFile::<Mach>::parse(d);
    let ok = img::readable(symoff, ns * l.nlist() as u64, n);
    // alignment is not required
    nd::ck(r.is_ok() == ok);
    let Ok(f) = r else { return };
    let t = f.macho_symbol_table();
    nd::ck_eq(t.len() as u64, ns);
    if ns != 0 { nd::ck(t.symbols().as_ptr() as usize == d.as_ptr() as usize + symoff as usize); }
    let o = img::pick(&[0, 2, 4, 0xffff_ffff]);
    let want = if o < ss && so + o <= n as u64 { img::cstr(d, so + o, (so + ss).min(n as u64)) } else { None };
    // an unterminated string running to the end of the file is an error either way
    let got = t.strings().get(o as u32);
    if so + ss <= n as u64 || want.is_none() { nd::ck(got.is_ok() == want.is_some()); }
    if let (Ok(g), Some(w)) = (got, want) { nd::ck_bytes(g, w); nd::reach(1); }
    let _ = e;
}

struct Want { kind: RelocationKind, enc: RelocationEncoding, size: u8 }
fn reloc_want(ct: u64, ty: u64, pc: bool, len: u64) -> Want {
    use RelocationEncoding as E;
    use RelocationKind as K;
    let mut size = 8u8 << len;
    let (kind, enc) = match (ct, ty, pc) {
        (12, 0, false) | (7, 0, false) | (18, 0, false) | (0x0100_0012, 0, false) => (K::Absolute, E::Generic),
        (0x0100_000c | 0x0200_000c, 0, false) => (K::Absolute, E::Generic),
        (0x0100_000c | 0x0200_000c, 2, true) => { size = 26; (K::PltRelative, E::AArch64Call) }
        (0x0100_000c | 0x0200_000c, 7, true) => (K::GotRelative, E::Generic),
        (0x0100_0007, 0, false) => (K::Absolute, E::Generic),
        (0x0100_0007, 1, true) => (K::Relative, E::X86RipRelative),
        (0x0100_0007, 2, true) => (K::PltRelative, E::X86Branch),
        (0x0100_0007, 3, true) => (K::GotRelative, E::X86RipRelativeMovq),
        (0x0100_0007, 4, true) => (K::GotRelative, E::Generic),
        _ => (K::Unknown, E::Unknown),
    };
    Want { kind, enc, size }
}
fn relocs<Mach: MachHeader<Endian = Endianness>>(l: M) {
    let h = l.hdr();
    const N: usize = 2;
    let mut b = Buf::<216>::zero();
    let sz = l.segment(&mut b.0, h, 1);
    let ct = img::pick(&[7, 0x0100_0007, 12, 0x0100_000c, 0x0200_000c, 18, 0x0100_0012, 8]);
    l.header(&mut b.0, ct, 1, 1, sz as u64);
    let at = h + l.seg();
    let ro = (h + sz + 7) & !7;
    let n = ro + 8 * N;
    let count = if nd::flag() { N as u64 } else { img::pick(&[0, 3, 0x2000_0001]) };
    l.sectset(&mut b.0, at, 4, ro as u64);
    l.sectset(&mut b.0, at, 5, count);
    nd::fill(&mut b.0[ro..n]);
    let d = &b[..n];
    let f = nd::must(MachOFile::<Mach>::parse(d));
    let x = nd::some(f.sections().next());
    let mut it = x.relocations();
    let rs = x.macho_relocations();
    nd::ck(rs.is_ok() == (count <= N as u64));
    if count != N as u64 { nd::ck(it.next().is_none()); nd::ck(rs.map_or(0, |r| r.len()) == 0); return; }
    let (mut paired, mut sub) = (0i64, None);
    for i in 0..N {
        let (w0, w1) = (l.u32(d, ro + 8 * i), l.u32(d, ro + 8 * i + 4));
        let raw = nd::must(x.macho_relocations())[i];
        // bit fields are allocated from the other end on big-endian
        let (sy, pc, len, ext, ty) = if l.big { (w1 >> 8, w1 & 0x80 != 0, (w1 >> 5) & 3, w1 & 0x10 != 0, w1 & 15) }
            else { (w1 & 0xff_ffff, w1 >> 24 & 1 != 0, (w1 >> 25) & 3, w1 >> 27 & 1 != 0, w1 >> 28) };
        let scat = ct != 0x0100_0007 && w0 >> 31 != 0;
        nd::ck(raw.r_scattered(endian(l), macho::CpuType(ct as u32)) == scat);
        let si = raw.scattered_info(endian(l));
        nd::ck(si.r_address as u64 == w0 & 0xff_ffff && si.r_type.0 as u64 == w0 >> 24 & 15 && si.r_length as u64 == w0 >> 28 & 3 && si.r_pcrel == (w0 >> 30 & 1 != 0) && si.r_value as u64 == w1);
        // packing the fields gives the record back
        let p = si.relocation(endian(l));
        nd::ck(p.r_word0.get(endian(l)) as u64 == w0 | 0x8000_0000 && p.r_word1.get(endian(l)) as u64 == w1);
        let p = raw.info(endian(l)).relocation(endian(l));
        nd::ck(p.r_word0.get(endian(l)) as u64 == w0 && p.r_word1.get(endian(l)) as u64 == w1);
        if scat { continue; }
        let arm64 = ct == 0x0100_000c || ct == 0x0200_000c;
        if arm64 && ty == 10 { paired = img::sext(sy, 24) as i64; continue; }
        if arm64 && ty == 1 || ct == 0x0100_0007 && ty == 5 { sub = Some(sy); continue; }
        let (o, r) = nd::some(it.next());
        nd::ck_eq(o, w0);
        let w = reloc_want(ct, ty, pc, len);
        nd::ck(r.kind() == w.kind);
        nd::ck(r.encoding() == w.enc);
        nd::ck_eq(r.size() as u64, w.size as u64);
        nd::ck(r.target() == if ext { RelocationTarget::Symbol(SymbolIndex(sy as usize)) } else if sy == 0 { RelocationTarget::Absolute } else { RelocationTarget::Section(SectionIndex(sy as usize)) });
        nd::ck(r.subtractor().map(|s| s.0 as u64) == sub);
        nd::ck(r.has_implicit_addend() == (paired == 0));
        let mut add = paired;
        if pc && (ct == 7 || ct == 0x0100_0007) { add -= 1 << len; }
        if pc && ct == 0x0100_0007 { if ty == 6 { add -= 1; } else if ty == 7 { add -= 2; } else if ty == 8 { add -= 4; } }
        nd::ck_eq(r.addend() as u64, add as u64);
        let RelocationFlags::MachO { r_type, r_pcrel, r_length } = r.flags() else { nd::ck(false); return };
        nd::ck(r_type.0 as u64 == ty && r_pcrel == pc && r_length as u64 == len);
        paired = 0;
        sub = None;
        nd::reach(1);
    }
    nd::ck(it.next().is_none());
}

fn indirect<Mach: MachHeader<Endian = Endianness>>(l: M) {
    let e = endian(l);
    let mut b = Buf::<80>::any();
    l.sectset(&mut b.0, 0, 1, img::pick(&[0, 4, 8, 15, 16, 17]));
    l.sectset(&mut b.0, 0, 7, img::pick(&[0, 1, 3, 4, 0xffff_ffff]));
    l.sectset(&mut b.0, 0, 8, img::pick(&[0, 1, 6, 16]));
    let d = &b[..l.sect()];
    let s: &Mach::Section = nd::must(d.read_at(0));
    let t = [object::U32::<Endianness, macho::IndirectSymbol>::new(e, macho::IndirectSymbol(0)); 3];
    let ty = l.sectget(d, 0, 6) & 0xff;
    let w = match ty { 6 | 7 | 0x10 | 0x14 => l.w() as u64, 8 => l.sectget(d, 0, 8), _ => 0 };
    nd::ck_eq(s.symbol_stub_size(e) as u64, if ty == 8 { l.sectget(d, 0, 8) } else { 0 });
    let r = s.indirect_symbols(e, &t);
    if w == 0 {
        nd::ck(r.is_ok() == (ty != 8));
        if let Ok(r) = r { nd::ck(r.is_empty()); }
        return;
    }
    let (st, n) = (l.sectget(d, 0, 7), l.sectget(d, 0, 1) / nd::conc(w));
    nd::ck(r.is_ok() == img::fits(st, n, 3));
    if let Ok(r) = r { nd::ck(r.len() as u64 == n && r.as_ptr() as usize == t.as_ptr() as usize + 4 * st as usize); nd::reach(1); }
}

/// debug map
fn object_map<Mach: MachHeader<Endian = Endianness>>(l: M) {
    const N: usize = 5;
    let h = l.hdr();
    let mut b = Buf::<200>::zero();
    let sym = h + 24;
    let sym = (sym + 7) & !7;
    let str = sym + N * l.nlist();
    l.header(&mut b.0, 7, 1, 1, 24);
    let names = *b"\0f\0/a(m)\0/o\0";
    l.symtab(&mut b.0, h, sym as u64, N as u64, str as u64, names.len() as u64);
    for i in 0..names.len() { b.0[str + i] = names[i]; }
    // the first entry starts an object, with an optional archive member
    let obj = nd::below(4);
    let mut ty = [0x66u64, 0, 0, 0, 0];
    let mut nm = [[0u64, 3, 9, 99][obj], 0, 0, 0, 0];
    for i in 1..N {
        let k = nd::below(6);
        ty[i] = [0x24, 0x24, 0x26, 0x64, 0x66, 0x20][k];
        nm[i] = [0, 1, 1, 0, 9, 1][k];
    }
    for i in 0..N {
        l.put(&mut b.0, sym + i * l.nlist(), 4, nm[i]);
        b.0[sym + i * l.nlist() + 4] = ty[i] as u8;
        // increasing values, so that the map is in order
        l.put(&mut b.0, sym + i * l.nlist() + 8, 4 , if l.big && l.is64 { 0 } else { 16 * i as u64 });
        if l.is64 { l.put(&mut b.0, sym + i * l.nlist() + 8, 8, 16 * i as u64); }
    }
    let d = &b[..str + names.len()];
    let f = nd::must(MachOFile::<Mach>::parse(d));
    let m = f.object_map();
    let (mut no, mut ns) = (0, 0);
    let (mut cur, mut fun) = (None, None);
    for i in 0..N {
        let v = 16 * i as u64;
        match ty[i] {
            0x64 => cur = None,
            0x66 => {
                cur = None;
                if nm[i] != 0 && nm[i] != 99 {
                    nd::ck(no < m.objects().len());
                    let o = &m.objects()[no];
                    let (p, mem): (&[u8], Option<&[u8]>) = if nm[i] == 3 { (b"/a", Some(b"m")) } else { (b"/o", None) };
                    nd::ck_bytes(o.path(), p);
                    nd::ck(o.member().is_some() == mem.is_some());
                    if let (Some(a), Some(b)) = (o.member(), mem) { nd::ck_bytes(a, b); }
                    cur = Some(no);
                    no += 1;
                }
            }
            0x24 => if nm[i] != 0 { fun = Some(v) } else if let Some(a) = fun.take() {
                if let Some(c) = cur {
                    nd::ck(ns < m.symbols().len());
                    // entries are ordered by address: a function is listed before the statics inside it
                    let mut found = false;
                    for s in m.symbols() { if s.address() == a && s.size() == v { nd::ck_bytes(s.name(), b"f"); nd::ck(core::ptr::eq(s.object(&m), &m.objects()[c])); found = true; } }
                    nd::ck(found);
                    ns += 1;
                    nd::reach(1);
                }
            }
            0x26 => if let Some(c) = cur {
                let mut found = false;
                for s in m.symbols() { if s.address() == v && s.size() == 0 { nd::ck_bytes(s.name(), b"f"); nd::ck(core::ptr::eq(s.object(&m), &m.objects()[c])); found = true; } }
                nd::ck(found);
                ns += 1;
                nd::reach(2);
            },
            _ => {}
        }
    }
    nd::ck(m.objects().len() == no);
    nd::ck(m.symbols().len() == ns);
    for w in m.symbols().windows(2) { nd::ck(w[0].address() <= w[1].address()); }
}

harnesses! {
    /// arbitrary Mach-O header without load commands, both classes
    fn c11_header() { let l = M { is64: nd::flag(), big: false }; by_class!(l, header(l)); }
    /// load command tables of up to 32 bytes with arbitrary contents
    /// @reach 1,2
    fn c11_commands() { let l = M::any(); by_class!(l, commands(l)); }
    /// every command type with exact, short or longer size
    /// @reach 1
    fn c11_variants() { let l = M::two(); by_class!(l, variants(l)); }
    /// uuid, entry point, build version and dylib use commands with arbitrary contents
    /// @reach 1,2,3,4,5
    fn c11_misc() { let l = M::two(); by_class!(l, misc(l)); }
    /// entry point in an LC_UNIXTHREAD register state
    /// @reach 1
    fn c11_thread() { let l = M::any(); by_class!(l, thread(l)); }
    /// two segments with arbitrary fields and boundary file ranges
    /// @reach 1
    fn c11_segments() { let l = M::any(); by_class!(l, segments(l)); }
    /// two sections with arbitrary fields and boundary file ranges
    /// @reach 1
    fn c11_section_data() { let l = M::two(); by_class!(l, sections(l, true)); }
    /// two sections with arbitrary fields: kinds, flags and names
    /// @reach 1
    fn c11_section_kind() { let l = M::two(); by_class!(l, sections(l, false)); }
    /// section numbering over two segments, malformed counts and sizes
    /// @reach 1
    fn c11_two_segments() { let l = M::any(); by_class!(l, two_segments(l)); }
    /// offsets of two (thorough: three) sections in segments anywhere in the 64-bit file range
    /// @reach 1,2
    fn c11_large_offsets() { large_offsets(); }
    /// section lookup by name, two sections with names near the queried ones
    /// @reach 1
    fn c11_by_name() { let l = M::two(); by_class!(l, by_name(l)); }
    /// two arbitrary symbols, string table of 12 bytes
    /// @reach 1,2
    fn c11_symbols() { let l = M::two(); by_class!(l, symbols(l)); }
    /// section symbols
    /// @reach 1
    fn c11_ltmp() { let l = M::two(); by_class!(l, ltmp(l)); }
    /// symbol table ranges
    /// @reach 1
    fn c11_symtab() { let l = M::any(); by_class!(l, symtab(l)); }
    /// two arbitrary relocations for every cpu type
    /// @reach 1
    fn c11_relocs() { let l = M::any(); by_class!(l, relocs(l)); }
    /// indirect symbol ranges of an arbitrary section
    /// @reach 1
    fn c11_indirect() { let l = M::any(); by_class!(l, indirect(l)); }
    /// debug maps of five symbol table entries
    /// @reach 1,2
    fn c11_object_map() { let l = M::two(); by_class!(l, object_map(l)); }
}
