//! Imports and exports of Mach-O files through the unified interface.
use crate::{harnesses, img, nd};
use img::M;
use nd::Buf;
use object::read::macho::{MachHeader, MachOFile};
use object::read::*;
use object::{Endianness, macho};

type H32 = macho::MachHeader32<Endianness>;
type H64 = macho::MachHeader64<Endianness>;
macro_rules! by_width {
    ($m:expr, $f:ident($($a:expr),*)) => { if $m.is64 { $f::<H64>($($a),*) } else { $f::<H32>($($a),*) } };
}
/// a file being put together: commands follow the header
struct B<const N: usize> { b: [u8; N], m: M, at: usize, n: u64 }
impl<const N: usize> B<N> {
    fn new(m: M) -> Self { B { b: [0; N], m, at: m.hdr(), n: 0 } }
    fn cmd(&mut self, cmd: u64, size: usize) -> usize {
        let o = self.at;
        self.m.put(&mut self.b, o, 4, cmd);
        self.m.put(&mut self.b, o + 4, 4, size as u64);
        self.at += size;
        self.n += 1;
        o
    }
    fn put(&mut self, o: usize, n: usize, v: u64) { self.m.put(&mut self.b, o, n, v) }
    /// a library of a one-letter name
    fn dylib(&mut self, cmd: u64, name: u8) {
        let o = self.cmd(cmd, 32);
        self.put(o + 8, 4, 24);
        self.b[o + 24] = name;
    }
    fn segment(&mut self, name: &[u8], sects: usize, addr: u64) -> usize {
        let o = self.at;
        let z = self.m.segment(&mut self.b, o, sects);
        self.at += z;
        self.n += 1;
        self.b[o + 8..o + 8 + name.len()].copy_from_slice(name);
        self.m.segset(&mut self.b, o, 0, addr);
        o
    }
    fn symtab(&mut self, symoff: u64, n: u64, stroff: u64, strsize: u64) {
        let o = self.cmd(2, 24);
        self.m.symtab(&mut self.b, o, symoff, n, stroff, strsize);
    }
    fn end(&mut self, flags: u64) {
        let z = self.at - self.m.hdr();
        self.m.header(&mut self.b, if self.m.is64 { 0x0100_0007 } else { 7 }, 6, self.n, z as u64);
        self.m.put(&mut self.b, 24, 4, flags);
    }
    /// file position for the next `n` bytes
    fn room(&mut self, n: usize) -> usize { let o = self.at; self.at += n; o }
}

fn libraries<Mach: MachHeader<Endian = Endianness>>(m: M) {
    let mut f = B::<160>::new(m);
    let mut want = Vec::new();
    let mut ord = 0;
    for i in 0..2 {
        let cmd = if i == 1 { 0xc } else { img::pick(&[0xc, 0x8000_0018, 0x8000_001f, 0x20, 0x8000_0023, 0xd]) };
        let size = if i == 1 { 40 } else { [40, 24, 16][nd::below(3)] };
        let o = f.cmd(cmd, size);
        let at = img::pick(&[24, 28, 39, 40]);
        let time = img::pick(&[0x1a74_1800, 1]);
        let (v, c, u) = (nd::u32() as u64, nd::u32() as u64, nd::u32() as u64);
        if size >= 24 { for (k, x) in [at, time, v, c].into_iter().enumerate() { f.put(o + 8 + 4 * k, 4, x); } }
        if size == 40 {
            f.put(o + 24, 4, u);
            let s: [u8; 3] = nd::bytes();
            f.b[o + 28..o + 31].copy_from_slice(&s);
            f.b[o + 31] = b'~';
            if nd::flag() { f.b[o + 39] = b'z'; }
        }
        if cmd == 0xd { continue; }
        ord += 1;
        let uf = if at == 28 && time == 0x1a74_1800 { if size == 40 { Some(Some(u)) } else { None } } else { Some(None) };
        want.push((o, size, at, cmd, v, c, uf, ord));
    }
    f.end(0);
    let x = nd::must(MachOFile::<Mach>::parse(&f.b[..]));
    let mut it = nd::must(x.import_libraries());
    for (o, size, at, cmd, v, c, uf, ord) in want {
        let r = nd::some(Iterator::next(&mut it));
        let name = if size >= 24 { img::cstr(&f.b[o..o + size], at, size as u64) } else { None };
        nd::ck(r.is_ok() == (name.is_some() && uf.is_some()));
        let (Ok(r), Some(name), Some(uf)) = (r, name, uf) else { nd::reach(1); continue };
        nd::ck_bytes(r.name(), name);
        match r.flags() {
            ImportLibraryFlags::MachO { ordinal, cmd: k, current_version, compatibility_version, use_flags } =>
                nd::ck(ordinal == ord && k.0 as u64 == cmd && current_version.0 as u64 == v && compatibility_version.0 as u64 == c && use_flags.map(|x| x.0 as u64) == uf),
            _ => nd::ck(false),
        }
        nd::reach(2);
    }
    nd::ck(Iterator::next(&mut it).is_none());
}

const LIBS: [&[u8]; 2] = [b"A", b"B"];
fn ck_import(r: Result<Import<'_>>, lib: Option<&[u8]>, name: &[u8], weak: bool, flags: ImportFlags<'_>) {
    nd::ck(r.is_ok() == lib.is_some());
    let (Ok(r), Some(lib)) = (r, lib) else { nd::reach(1); return };
    nd::ck_bytes(r.library(), lib);
    nd::ck_bytes(nd::some(r.name().name()), name);
    nd::ck(r.is_weak() == weak && r.flags() == flags);
    nd::reach(2);
}
/// undefined symbols
fn import_symbols<Mach: MachHeader<Endian = Endianness>>(m: M) {
    let mut f = B::<224>::new(m);
    f.dylib(0xc, b'A');
    f.dylib(0x8000_0018, b'B');
    let c = f.at;
    f.symtab(0, 0, 0, 0);
    let two = nd::flag();
    f.end(if two { 0x80 } else { nd::u32() as u64 & !0x80 });
    let y = f.room(2 * m.nlist());
    let s = f.room(6);
    f.m.symtab(&mut f.b, c, y as u64, 2, s as u64, 6);
    nd::fill(&mut f.b[y..s]);
    f.b[s..s + 6].copy_from_slice(b"\0ab\0cd");
    let idx = [img::pick(&[0, 1, 2]), img::pick(&[1, 4, 6, 0xffff_ffff])];
    for i in 0..2 { f.m.put(&mut f.b, y + i * m.nlist(), 4, idx[i]); }
    let x = nd::must(MachOFile::<Mach>::parse(&f.b[..]));
    let mut it = nd::must(x.imports());
    for i in 0..2 {
        let o = y + i * m.nlist();
        let (t, desc, v) = (f.b[o + 4], m.get(&f.b, o + 6, 2), m.get(&f.b, o + 8, m.w()));
        if t & 0xee != 0 || v != 0 { continue; }
        let name = img::cstr(&f.b[s..s + 6], idx[i], 6);
        let r = nd::some(Iterator::next(&mut it));
        let lib = match desc >> 8 { _ if !two => Some(&[][..]), 0 | 254 | 255 => Some(&[][..]), 1 => Some(LIBS[0]), 2 => Some(LIBS[1]), _ => None };
        ck_import(r, if name.is_some() { lib } else { None }, name.unwrap_or(b""), desc & 0x40 != 0, ImportFlags::MachO { n_type: macho::SymbolFlags(t), n_desc: macho::SymbolDesc(desc as u16) });
    }
    nd::ck(Iterator::next(&mut it).is_none());
}
/// chained fixups take precedence over dyld info
fn import_chained<Mach: MachHeader<Endian = Endianness>>(m: M) {
    let mut f = B::<320>::new(m);
    if nd::flag() { f.cmd(0x8000_0022, 48); }
    f.dylib(0xc, b'A');
    let c = f.cmd(0x8000_0034, 16);
    f.dylib(0x20, b'B');
    f.end(0);
    let format = nd::range(1, 3);
    let z = [4, 8, 16][format - 1];
    let n = 28 + 2 * z + 5;
    let o = f.room(n);
    f.put(c + 8, 4, o as u64);
    f.put(c + 12, 4, n as u64);
    for (i, v) in [0, 28, 28, 28 + 2 * z as u64, 2, format as u64].into_iter().enumerate() { f.put(o + 4 * i, 4, v); }
    f.b[o + 28 + 2 * z..o + n].copy_from_slice(b"\0p\0q\0");
    let mut want = Vec::new();
    for i in 0..2 {
        let (lib, weak, name) = (nd::u16() as u64 & if format == 3 { 0xffff } else { 0xff }, nd::bool(), img::pick(&[1, 3, 5]));
        let lib = if i == 1 { lib & 3 } else { lib };
        let at = o + 28 + i * z;
        // the fields fill each word from the low bits
        if format == 3 { f.put(at, 8, lib | (weak as u64) << 16 | (nd::u16() as u64 & 0x7fff) << 17 | name << 32); f.put(at + 8, 8, nd::u64()); }
        else { f.put(at, 4, lib | (weak as u64) << 8 | name << 9); if format == 2 { f.put(at + 4, 4, nd::u32() as u64); } }
        let lib = if format == 3 { if lib > 0xfff0 { lib as u16 as i16 as i32 } else { lib as i32 } } else if lib > 0xf0 { lib as u8 as i8 as i32 } else { lib as i32 };
        want.push((lib, weak, name));
    }
    let x = nd::must(MachOFile::<Mach>::parse(&f.b[..]));
    let mut it = nd::must(x.imports());
    for (lib, weak, name) in want {
        if name == 5 { nd::ck(nd::some(Iterator::next(&mut it)).is_err()); break; }
        if lib == 0 { continue; }
        let r = nd::some(Iterator::next(&mut it));
        let l = match lib { 1 => Some(LIBS[0]), 2 => Some(LIBS[1]), x if x < 0 => Some(&[][..]), _ => None };
        ck_import(r, l, if name == 1 { b"p" } else { b"q" }, weak, ImportFlags::MachOBind { dylib: macho::BindDylib(lib), flags: macho::BindSymbolFlags(weak as u8) });
    }
    nd::ck(Iterator::next(&mut it).is_none());
}
/// dyld info: each symbol once, with the library of the first bind that uses it
fn import_binds<Mach: MachHeader<Endian = Endianness>>(m: M, which: usize) {
    let mut f = B::<256>::new(m);
    f.dylib(0xc, b'A');
    let c = f.cmd(if nd::flag() { 0x22 } else { 0x8000_0022 }, 48);
    f.dylib(0x20, b'B');
    f.end(0);
    let mut want = Vec::new();
    for t in 0..3 {
        let mut s: Vec<u8> = Vec::new();
        let (mut lib, mut sym, mut fresh, mut done) = (if t == 1 { Some(-3) } else { None }, None, false, false);
        // the others hold one import each
        let k = if t == which { nd::tier(5, 6) } else { 3 };
        for i in 0..k {
            let op = if t == which { if i == 0 { 1 } else if i == 1 { 3 } else { nd::below(8) } } else { [1, 3, 4][i] };
            let first = done;
            match op {
                0 => { s.push(0); if t == 2 { lib = None; sym = None; } else { done = true; } }
                1 => { let x = [1, 2, 3, 0][if t == which && i == 0 { nd::below(4) } else { i % 3 }]; s.push(0x10 | x); if !first { lib = Some(x as i32); } }
                2 => { let x = nd::range(0, 3) as i32; s.push(0x30 | (x.wrapping_neg() & 15) as u8); if !first { lib = Some(-x); } }
                3 => { let fl = nd::u8() & 15; let ch = b'a' + i as u8; s.extend_from_slice(&[0x40 | fl, ch, 0]); if !first { sym = Some((fl, ch)); fresh = true; } }
                4..=6 => {
                    let n = if op == 6 { nd::below(2) as u8 } else { 1 };
                    match op { 4 => s.push(0x90), 5 => s.push(0xb0 | nd::u8() & 15), _ => s.extend_from_slice(&[0xc0, n, 5]) }
                    if !first && fresh && n > 0 {
                        fresh = false;
                        let Some((fl, ch)) = sym else { want.push(None); continue };
                        let Some(l) = lib else { want.push(None); continue };
                        if l != 0 { want.push(Some((l, fl, ch))); }
                    }
                }
                _ => s.extend_from_slice(&[0x71, 9, 0x51]),
            }
        }
        // do not let an unused symbol reach the next stream
        if fresh && !done { nd::assume(false); }
        if done && fresh { nd::assume(false); }
        let o = f.room(s.len());
        f.b[o..o + s.len()].copy_from_slice(&s);
        f.put(c + 16 + 8 * t, 4, o as u64);
        f.put(c + 20 + 8 * t, 4, s.len() as u64);
    }
    let x = nd::must(MachOFile::<Mach>::parse(&f.b[..]));
    let mut it = nd::must(x.imports());
    for w in want {
        let r = nd::some(Iterator::next(&mut it));
        let Some((l, fl, ch)) = w else { nd::ck(r.is_err()); nd::reach(1); continue };
        let lib = match l { 1 => Some(LIBS[0]), 2 => Some(LIBS[1]), x if x < 0 => Some(&[][..]), _ => None };
        ck_import(r, lib, &[ch], fl & 1 != 0, ImportFlags::MachOBind { dylib: macho::BindDylib(l), flags: macho::BindSymbolFlags(fl) });
    }
    nd::ck(Iterator::next(&mut it).is_none());
}

fn ck_export(r: Result<Export<'_>>, name: &[u8], target: Option<ExportTarget<'_>>, weak: bool, flags: ExportFlags<'_>) {
    nd::ck(r.is_ok() == target.is_some());
    let (Ok(r), Some(t)) = (r, target) else { nd::reach(1); return };
    nd::ck_bytes(nd::some(r.name().name()), name);
    nd::ck(r.is_weak() == weak && r.flags() == flags);
    nd::reach(2);
    use ExportTarget::*;
    match (r.target(), t) {
        (Address { address: a }, Address { address: b }) => nd::ck_eq(a, b),
        (Absolute { value: a }, Absolute { value: b }) => nd::ck_eq(a, b),
        (TlvDescriptor { address: a }, TlvDescriptor { address: b }) => nd::ck_eq(a, b),
        (Resolver { resolver: a, stub: x }, Resolver { resolver: b, stub: y }) => {
            nd::ck_eq(a, b);
            nd::ck(x.is_some() == y.is_some());
            if let (Some(x), Some(y)) = (x, y) { nd::ck_eq(x, y); }
        }
        (Reexport { library: a, name: x }, Reexport { library: b, name: y }) => { nd::ck_bytes(a, b); nd::ck_bytes(nd::some(x.name()), nd::some(y.name())); }
        _ => nd::ck(false),
    }
}
/// the exports trie, which may be in either of two places
fn export_trie<Mach: MachHeader<Endian = Endianness>>(m: M) {
    let mut f = B::<384>::new(m);
    let base = if m.is64 { nd::u64() } else { nd::u32() as u64 };
    let text = nd::below(3);
    if text == 1 { f.segment(if nd::flag() { b"__DATA" } else { b"__TEXT_EXEC" }, 0, 77); }
    f.segment(if text == 2 { b"__OTHER" } else { b"__TEXT" }, 0, base);
    let base = if text == 2 { 0 } else { base };
    f.dylib(0xc, b'A');
    let place = nd::below(4);
    let mut at = Vec::new();
    if place == 3 { at.push((f.cmd(0x22, 48) + 40, false)); }
    if place != 1 { at.push((f.cmd(0x8000_0033, 16) + 8, true)); }
    if place == 1 || place == 2 { at.push((f.cmd(0x8000_0022, 48) + 40, place == 1)); }
    f.dylib(0x8000_001f, b'B');
    // symbols are not exports when there is a trie
    f.end(0);
    let t = f.room(24);
    for (o, good) in at {
        f.put(o, 4, if good { t as u64 } else { 1 << 31 });
        f.put(o + 4, 4, if good { 24 } else { 1 });
    }
    // "x" leads to an entry of two operands
    let fl = nd::u8() & 0x3f;
    let kind = nd::below(3);
    let fl = match kind { 0 => fl & 0x27, 1 => fl & 0x27 | 8, _ => fl & 0x27 | 0x10 };
    let (x, y) = (nd::u8() & 0x7f, nd::u8() & 0x7f);
    let named = nd::flag();
    let mut s = vec![0, 1, b'x', 0, 5];
    match kind {
        0 => s.extend_from_slice(&[3, fl, x | 0x80, y]),
        1 if named => s.extend_from_slice(&[4, fl, x, b'q', 0]),
        1 => s.extend_from_slice(&[3, fl, x, 0]),
        _ => s.extend_from_slice(&[4, fl, x, y | 0x80, 1]),
    }
    s.push(0);
    f.b[t..t + s.len()].copy_from_slice(&s);
    let o = nd::must(MachOFile::<Mach>::parse(&f.b[..]));
    let mut it = nd::must(o.exports());
    let (xw, yw) = (x as u64, y as u64);
    let a = xw | yw << 7;
    let target = match (kind, fl & 3) {
        (0, 0) => Some(ExportTarget::Address { address: base.wrapping_add(a) }),
        (0, 1) => Some(ExportTarget::TlvDescriptor { address: base.wrapping_add(a) }),
        (0, 2) => Some(ExportTarget::Absolute { value: a }),
        (2, 0) => Some(ExportTarget::Resolver { stub: Some(base.wrapping_add(xw)), resolver: base.wrapping_add(yw | 128) }),
        (1, _) => if x == 1 || x == 2 { Some(ExportTarget::Reexport { library: LIBS[x as usize - 1], name: NameOrOrdinal::Name(if named { b"q" } else { b"x" }) }) } else { None },
        _ => None,
    };
    ck_export(nd::some(Iterator::next(&mut it)), b"x", target, fl & 4 != 0, ExportFlags::None);
    nd::ck(Iterator::next(&mut it).is_none());
}
/// defined external symbols when there is no trie
fn export_symbols<Mach: MachHeader<Endian = Endianness>>(m: M) {
    let mut f = B::<288>::new(m);
    let g = f.segment(b"__DATA", 1, 0);
    let ty = nd::u8();
    f.m.sectset(&mut f.b, g + m.seg(), 6, ty as u64);
    let c = f.at;
    f.symtab(0, 0, 0, 0);
    f.end(nd::u32() as u64);
    let y = f.room(2 * m.nlist());
    let s = f.room(6);
    f.m.symtab(&mut f.b, c, y as u64, 2, s as u64, 6);
    nd::fill(&mut f.b[y..s]);
    f.b[s..s + 6].copy_from_slice(b"\0ab\0cd");
    let idx = [img::pick(&[0, 1, 6]), img::pick(&[2, 4])];
    for i in 0..2 { f.m.put(&mut f.b, y + i * m.nlist(), 4, idx[i]); }
    let x = nd::must(MachOFile::<Mach>::parse(&f.b[..]));
    let mut it = nd::must(x.exports());
    for i in 0..2 {
        let o = y + i * m.nlist();
        let (t, sec, desc, v) = (f.b[o + 4], f.b[o + 5], m.get(&f.b, o + 6, 2), m.get(&f.b, o + 8, m.w()));
        let name = img::cstr(&f.b[s..s + 6], idx[i], 6);
        if t & 0xe0 != 0 || t & 1 == 0 || t & 0x10 != 0 { continue; }
        // a bad name of another kind of external symbol may be an error or not
        if !matches!(t & 0xe, 2 | 10 | 14) { nd::assume(name.is_some()); continue; }
        let target = match t & 0xe {
            2 => Some(ExportTarget::Absolute { value: v }),
            10 => if v < 6 { img::cstr(&f.b[s..s + 6], nd::conc(v), 6).map(|n| ExportTarget::Reexport { library: b"", name: NameOrOrdinal::Name(if n.is_empty() { name.unwrap_or(b"") } else { n }) }) } else { None },
            _ if desc & 0x100 != 0 => Some(ExportTarget::Resolver { resolver: v, stub: None }),
            _ if sec != 1 => None,
            _ if ty == 0x13 => Some(ExportTarget::TlvDescriptor { address: v }),
            _ => Some(ExportTarget::Address { address: v }),
        };
        let r = nd::some(Iterator::next(&mut it));
        ck_export(r, name.unwrap_or(b""), if name.is_some() { target } else { None }, desc & 0x80 != 0, ExportFlags::MachO { n_type: macho::SymbolFlags(t), n_desc: macho::SymbolDesc(desc as u16) });
    }
    nd::ck(Iterator::next(&mut it).is_none());
}

harnesses! {
    /// two library commands
    /// @reach 1,2
    fn c23_libraries() { let m = M::any(); by_width!(m, libraries(m)); }
    /// two symbols, two libraries
    /// @reach 1,2
    fn c23_import_symbols() { let m = M::any(); by_width!(m, import_symbols(m)); }
    /// two imports of each format
    /// @reach 1,2
    fn c23_import_chained() { let m = M::any(); by_width!(m, import_chained(m)); }
    /// up to five (six) operations
    /// @reach 1,2
    fn c23_import_binds() { let m = M::two(); by_width!(m, import_binds(m, 0)); }
    /// up to five (six) operations
    /// @reach 1,2
    fn c23_import_weak() { let m = M::two(); by_width!(m, import_binds(m, 1)); }
    /// up to five (six) operations
    /// @reach 1,2
    fn c23_import_lazy() { let m = M::two(); by_width!(m, import_binds(m, 2)); }
    /// every kind of entry
    /// @reach 1,2
    fn c23_export_trie() { let m = M::any(); by_width!(m, export_trie(m)); }
    /// two symbols, one section
    /// @reach 1,2
    fn c23_export_symbols() { let m = M::any(); by_width!(m, export_symbols(m)); }
}
