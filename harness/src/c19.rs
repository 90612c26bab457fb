//! XCOFF objects: headers, sections, symbols with auxiliary entries, relocations.
use crate::{harnesses, img, nd};
use nd::Buf;
use object::read::xcoff::{self as rx, FileHeader, XcoffFile, CsectAux};
use object::read::*;
use object::{xcoff, FileFlags, SectionFlags, SymbolFlags};

macro_rules! by_class {
    ($is64:expr, $f:ident($($a:expr),*)) => { if $is64 { $f::<xcoff::FileHeader64>($($a),*) } else { $f::<xcoff::FileHeader32>($($a),*) } };
}
fn put(b: &mut [u8], off: usize, n: usize, v: u64) { img::put(b, off, n, v, true) }
fn get(b: &[u8], off: usize, n: usize) -> u64 { img::get(b, off, n, true) }
/// positions
#[derive(Clone, Copy)]
struct X { is64: bool }
impl X {
    fn w(self) -> usize { if self.is64 { 8 } else { 4 } }
    fn hdr(self) -> usize { if self.is64 { 24 } else { 20 } }
    fn aux(self) -> usize { if self.is64 { 120 } else { 72 } }
    fn sect(self) -> usize { if self.is64 { 72 } else { 40 } }
    fn rel(self) -> usize { if self.is64 { 14 } else { 10 } }
    fn nsyms(self) -> usize { if self.is64 { 20 } else { 12 } }
    fn header(self, b: &mut [u8], nscns: u64, symptr: u64, nsyms: u64, opt: u64, flags: u64) {
        put(b, 0, 2, if self.is64 { 0x1f7 } else { 0x1df });
        put(b, 2, 2, nscns);
        put(b, 8, self.w(), symptr);
        put(b, self.nsyms(), 4, nsyms);
        put(b, 16, 2, opt);
        put(b, 18, 2, flags);
    }
    /// 0 paddr 1 vaddr 2 size 3 scnptr 4 relptr 5 lnnoptr 6 nreloc 7 nlnno 8 flags
    fn sf(self, i: usize) -> (usize, usize) {
        let w = self.w();
        if i < 6 { (8 + w * i, w) } else if i < 8 { (8 + 6 * w + (i - 6) * w / 2, w / 2) } else { (8 + 7 * w, 4) }
    }
    fn sset(self, b: &mut [u8], at: usize, i: usize, v: u64) { let (o, n) = self.sf(i); put(b, at + o, n, v) }
    fn sget(self, b: &[u8], at: usize, i: usize) -> u64 { let (o, n) = self.sf(i); get(b, at + o, n) }
}
fn file<'a, T: FileHeader>(d: &'a [u8]) -> XcoffFile<'a, T> { nd::must(XcoffFile::<T>::parse(d)) }

/// what makes a file acceptable
fn accept<T: FileHeader>(is64: bool) {
    const N: usize = 320;
    let x = X { is64 };
    let mut b = Buf::<N>::zero();
    let (ns, sym, n) = (img::pick(&[0, 1, 2, 0xffff]), img::pick(&[0, 180, 300, 316, 320]), img::pick(&[0, 1, 6, 7, 0xffff_ffff]));
    let opt = img::pick(&[0, 28, 72, 120, 0xffff]);
    x.header(&mut b.0, ns, sym, n, opt, 0);
    nd::fill(&mut b.0[0..2]);
    nd::fill(&mut b.0[18..20]);
    let len = [19, 20, 23, 24, 200, 296, 304, N][nd::below(8)];
    let end = sym.saturating_add(18 * n);
    if sym != 0 && end + 4 <= N as u64 { nd::fill(&mut b.0[end as usize..end as usize + 4]); }
    let d = &b.0[..len];
    let lay = len >= x.hdr() && get(d, 0, 2) == if is64 { 0x1f7 } else { 0x1df };
    let exec = len >= 20 && get(d, 18, 2) & 2 != 0;
    // the auxiliary header itself is only read in executables that have a complete one
    let auxread = lay && exec && opt == x.aux() as u64;
    let ok = lay && (!auxread || img::fits(x.hdr() as u64, opt, len)) && img::readable(x.hdr() as u64 + opt, ns * x.sect() as u64, len)
        && (sym == 0 || (img::readable(sym, 18 * n, len) && img::fits(sym + 18 * n, 4, len)));
    let r = XcoffFile::<T>::parse(d);
    nd::ck(r.is_ok() == ok);
    let Ok(f) = r else { nd::reach(1); return };
    nd::ck_eq(f.sections().count() as u64, ns);
    nd::ck_eq(f.xcoff_symbol_table().len() as u64, if sym == 0 { 0 } else { n });
    nd::ck(f.symbol_table().is_some() == (sym != 0 && n != 0));
    nd::ck(f.xcoff_aux_header().is_some() == auxread);
    nd::reach(2);
}
fn fields<T: FileHeader>(is64: bool) {
    const N: usize = 160;
    let x = X { is64 };
    let mut b = Buf::<N>::any();
    let n = x.aux() as u64;
    let flags = nd::u16() as u64;
    let opt = img::pick(&[0, 8, n]);
    x.header(&mut b.0, 0, 0, nd::u32() as u64, opt, flags);
    let d = &b.0[..];
    let f = file::<T>(d);
    nd::ck(f.architecture() == if is64 { Architecture::PowerPc64 } else { Architecture::PowerPc });
    nd::ck(!f.is_little_endian() && f.is_64() == is64 && f.endianness() == object::Endianness::Big);
    nd::ck(f.kind() == if flags & 2 != 0 { ObjectKind::Executable } else if flags & 0x2000 != 0 { ObjectKind::Dynamic } else if flags & 1 == 0 { ObjectKind::Relocatable } else { ObjectKind::Unknown });
    let FileFlags::Xcoff { f_flags } = f.flags() else { nd::ck(false); return };
    nd::ck_eq(f_flags.0 as u64, flags);
    nd::ck_eq(f.xcoff_header().f_timdat() as u64, get(d, 4, 4));
    nd::ck_eq(f.xcoff_header().f_nsyms() as u64, get(d, x.nsyms(), 4));
    nd::ck(f.relative_address_base() == 0 && f.symbols().next().is_none() && f.segments().next().is_none());
    let entry = if is64 { get(d, 24 + 80, 8) } else { get(d, 20 + 16, 4) };
    nd::ck_eq(f.entry(), if flags & 2 != 0 && opt == n { entry } else { 0 });
    nd::reach(1);
}
/// every section field
fn sections<T: FileHeader>(is64: bool) {
    const N: usize = 320;
    let x = X { is64 };
    let mut b = Buf::<N>::zero();
    let exec = nd::flag();
    let opt = if exec { x.aux() } else { 4 };
    x.header(&mut b.0, 2, 0, 0, opt as u64, if exec { 2 } else { 0 });
    let at = x.hdr() + opt;
    let k = nd::below(2);
    let h = at + k * x.sect();
    nd::fill(&mut b.0[h + 8..h + x.sect()]);
    if exec {
        // the alignments are powers of two
        for i in 0..2 { put(&mut b.0, x.hdr() + 44 + 2 * i, 2, img::pick(&[0, 2, 5, 12, 31])); }
    }
    let (off, size) = [(0, 0), (0, 9), (300, 20), (301, 20), (312, 0), (0xffff_fff8, 16)][nd::below(6)];
    x.sset(&mut b.0, h, 2, size);
    x.sset(&mut b.0, h, 3, off);
    // one type at a time, or none
    let ty = img::pick(&[0, 8, 0x10, 0x20, 0x40, 0x80, 0x100, 0x200, 0x400, 0x800, 0x1000, 0x2000, 0x4000, 0x8000]);
    x.sset(&mut b.0, h, 8, ty | (nd::u16() as u64) << 16);
    let d = &b.0[..];
    let f = file::<T>(d);
    nd::ck(f.section_by_index(SectionIndex(0)).is_err() && f.section_by_index(SectionIndex(3)).is_err());
    let s = nd::must(f.section_by_index(SectionIndex(k + 1)));
    let t = nd::some(f.sections().nth(k));
    nd::ck(s.index() == SectionIndex(k + 1) && t.index() == SectionIndex(k + 1));
    nd::ck_eq(s.xcoff_section() as *const _ as u64 - d.as_ptr() as u64, h as u64);
    nd::ck_eq(t.xcoff_section() as *const _ as u64 - d.as_ptr() as u64, h as u64);
    let addr = x.sget(d, h, 0);
    nd::ck_eq(s.address(), addr);
    nd::ck_eq(s.size(), size);
    let kind = match ty {
        0x20 => SectionKind::Text, 0x40 => SectionKind::Data, 0x80 => SectionKind::UninitializedData,
        0x400 => SectionKind::Tls, 0x800 => SectionKind::UninitializedTls,
        0x10 | 0x2000 => SectionKind::Debug, 0x1000 | 0x8000 => SectionKind::Metadata,
        0x200 | 0x100 | 8 | 0x4000 => SectionKind::Other, _ => SectionKind::Unknown,
    };
    nd::ck(s.kind() == kind);
    let SectionFlags::Xcoff { s_flags } = s.flags() else { nd::ck(false); return };
    nd::ck_eq(s_flags.0 as u64, x.sget(d, h, 8));
    let log = |i: usize| 1u64 << get(d, x.hdr() + 44 + 2 * i, 2);
    nd::ck_eq(s.align(), if exec && kind == SectionKind::Text { log(0) } else if exec && kind == SectionKind::Data { log(1) } else { 4 });
    // uninitialised sections have no bytes in the file
    if ty == 0x80 || ty == 0x800 {
        nd::ck(s.file_range().is_none());
        nd::ck(nd::must(s.data()).is_empty());
        nd::reach(1);
        return;
    }
    nd::ck(s.file_range() == Some((off, size)));
    let ok = img::readable(off, size, N);
    let r = s.data();
    nd::ck(r.is_ok() == ok);
    let Ok(r) = r else { return };
    img::same_slice(r, d, off, size);
    let (a, n) = (addr.wrapping_add(img::pick(&[0, 1, 8, 9, 19, 20, u64::MAX])), img::pick(&[0, 1, 9, 20, 21, u64::MAX]));
    img::ck_range(nd::must(s.data_range(a, n)), &d[off as usize..(off + size) as usize], addr, a, n);
    nd::reach(2);
}
fn names<T: FileHeader>(is64: bool) {
    let x = X { is64 };
    let mut b = Buf::<168>::zero();
    x.header(&mut b.0, 2, 0, 0, 0, 0);
    b.0[x.hdr()] = b'a';
    let at = x.hdr() + x.sect();
    let k = nd::below(9);
    nd::fill(&mut b.0[at..at + k]);
    let d = &b.0[..];
    let f = file::<T>(d);
    let want = img::name16(&d[at..at + 8]);
    nd::ck_bytes(nd::must(nd::must(f.section_by_index(SectionIndex(2))).name_bytes()), want);
    let ask = [&b"a"[..], want, b"zz\xff"][nd::below(3)];
    let found = f.section_by_name_bytes(ask).map(|s| s.index().0);
    nd::ck(found == if img::eq(ask, b"a") { Some(1) } else if img::eq(ask, want) { Some(2) } else { None });
    nd::reach(1);
}
fn relocs<T: FileHeader>(is64: bool) {
    const N: usize = 136;
    let x = X { is64 };
    let mut b = Buf::<N>::zero();
    x.header(&mut b.0, 1, 0, 0, 0, 0);
    let off = img::pick(&[100, 106, 110, 136]);
    let n = img::pick(&[0, 1, 2, 3, 0xffff]);
    let h = x.hdr();
    x.sset(&mut b.0, h, 4, off);
    x.sset(&mut b.0, h, 6, n);
    let base = if is64 { nd::u64() } else { nd::u32() as u64 };
    x.sset(&mut b.0, h, 0, base);
    x.sset(&mut b.0, h, 1, base);
    nd::fill(&mut b.0[100..N]);
    let d = &b.0[..];
    let f = file::<T>(d);
    let s = nd::must(f.section_by_index(SectionIndex(1)));
    let ok = img::readable(off, n * x.rel() as u64, N);
    nd::ck(s.xcoff_relocations().is_ok() == ok);
    let mut it = s.relocations();
    if !ok { nd::ck(it.next().is_none()); nd::reach(1); return; }
    let w = x.w();
    for i in 0..n as usize {
        let p = off as usize + i * x.rel();
        let (size, ty) = (d[p + w + 4], d[p + w + 5]);
        let (a, r) = nd::some(it.next());
        nd::ck_eq(a, get(d, p, w).wrapping_sub(base));
        nd::ck(r.target() == RelocationTarget::Symbol(SymbolIndex(get(d, p + w, 4) as usize)));
        nd::ck(r.subtractor().is_none() && r.has_implicit_addend() && r.encoding() == RelocationEncoding::Generic);
        nd::ck_eq(r.size() as u64, (size & 0x3f) as u64 + 1);
        let object::RelocationFlags::Xcoff { r_rtype, r_rsize } = r.flags() else { nd::ck(false); return };
        nd::ck(r_rtype.0 == ty && r_rsize == size);
        let (kind, add) = match ty {
            0x00 | 0x0c | 0x0d | 0x08 | 0x18 | 0x20 => (RelocationKind::Absolute, 0),
            0x02 | 0x0a | 0x1a => (RelocationKind::Relative, -4),
            0x03 | 0x30 | 0x31 => (RelocationKind::Got, 0),
            _ => (RelocationKind::Unknown, 0),
        };
        nd::ck(r.kind() == kind && r.addend() == add);
        nd::reach(2);
    }
    nd::ck(it.next().is_none());
}

// ---- symbols ----
const SN: usize = 160;
const ST: usize = 40;
/// a symbol table of `n` records at ST and strings of 4 + 12 bytes
fn symbols_image(x: X, n: usize) -> Buf<SN> {
    let mut b = Buf::<SN>::zero();
    x.header(&mut b.0, 0, ST as u64, n as u64, 0, 0);
    put(&mut b.0, ST + 18 * n, 4, 16);
    b.0[ST + 18 * n + 4..ST + 18 * n + 16].copy_from_slice(b"ab\0\0longnam\0");
    b
}
/// every record that is not an auxiliary entry of another, except null ones
fn listing<T: FileHeader>(is64: bool) {
    let x = X { is64 };
    let n = nd::range(1, 4);
    let mut b = symbols_image(x, n);
    for i in 0..n { b.0[ST + 18 * i + 16] = nd::u8(); b.0[ST + 18 * i + 17] = img::pick(&[0, 1, 2, 255]) as u8; }
    let d = &b.0[..];
    let f = file::<T>(d);
    let mut it = f.symbols();
    let mut jt = nd::some(f.symbol_table()).symbols();
    let mut i = 0;
    while i < n {
        let p = ST + 18 * i;
        if d[p + 16] != 0 {
            let s = nd::some(it.next());
            nd::ck(s.index() == SymbolIndex(i) && nd::some(jt.next()).index() == SymbolIndex(i));
            nd::ck_eq(s.xcoff_symbol() as *const _ as u64 - d.as_ptr() as u64, p as u64);
            nd::reach(1);
        }
        i += 1 + d[p + 17] as usize;
    }
    nd::ck(it.next().is_none() && jt.next().is_none());
    let i = img::pick(&[0, 1, 3, 4, u64::MAX]) as usize;
    let r = f.symbol_by_index(SymbolIndex(i));
    nd::ck(r.is_ok() == (i < n && d[ST + 18 * i + 16] != 0));
    if let Ok(s) = r { nd::ck(s.index() == SymbolIndex(i)); nd::ck_eq(s.xcoff_symbol() as *const _ as u64 - d.as_ptr() as u64, (ST + 18 * i) as u64); }
    nd::ck(f.dynamic_symbols().next().is_none() && f.dynamic_symbol_table().is_none());
}
/// every field of a symbol with up to two auxiliary entries
fn symbol<T: FileHeader>(is64: bool) {
    let x = X { is64 };
    let mut b = symbols_image(x, 3);
    nd::fill(&mut b.0[ST + 1..ST + 54]);
    let naux = nd::below(4);
    b.0[ST + 17] = naux as u8;
    let class = img::pick(&[2, 3, 100, 101, 103, 107, 110, 111, 7]);
    b.0[ST + 16] = class as u8;
    let d = &b.0[..];
    let f = file::<T>(d);
    let s = nd::must(f.symbol_by_index(SymbolIndex(0)));
    let value = if is64 { get(d, ST, 8) } else { get(d, ST + 8, 4) };
    let scn = get(d, ST + 12, 2);
    let ty = get(d, ST + 14, 2);
    nd::ck_eq(s.address(), if class == 103 || class == 7 { 0 } else { value });
    nd::ck(s.section() == match scn { 0xffff => SymbolSection::Absolute, 0 => SymbolSection::Undefined, 0xfffe => SymbolSection::None, _ if scn < 0x8000 => SymbolSection::Section(SectionIndex(scn as usize)), _ => SymbolSection::Unknown });
    nd::ck(s.section_index() == if scn > 0 && scn < 0x8000 { Some(SectionIndex(scn as usize)) } else { None });
    let ext = class == 2 || class == 111;
    nd::ck(s.is_global() == ext && s.is_local() == !ext && s.is_weak() == (class == 111));
    nd::ck(s.is_undefined() == (ext && scn == 0));
    // common symbols are written as undefined externals, so that these may be common
    nd::ck(s.is_common() == (class == 2 && scn == 0));
    let vis = ty & 0xf000;
    if vis != 0x1000 {
        nd::ck(s.scope() == if scn == 0 { SymbolScope::Unknown } else if !ext { SymbolScope::Compilation } else if vis == 0x2000 { SymbolScope::Linkage } else { SymbolScope::Dynamic });
    }
    // the csect entry is the last one
    let csect = (ext || class == 107) && naux > 0 && naux < 3 && { !is64 || d[ST + 18 * naux + 17] == 251 };
    let a = ST + 18 * if naux < 3 { naux } else { 0 };
    let (smtyp, smclas) = if csect { (d[a + 10], d[a + 11]) } else { (0, 0) };
    let len = get(d, a, 4) | if is64 { get(d, a + 12, 4) << 32 } else { 0 };
    let t = smtyp & 7;
    nd::ck_eq(s.size(), if csect && (t == 1 || t == 3) { len } else { 0 });
    let kind = if class == 103 { SymbolKind::File } else if !csect || t == 0 || t > 3 { SymbolKind::Unknown } else if t == 2 { SymbolKind::Text } else {
        match smclas { 0 | 6 => SymbolKind::Text, 1 | 3 | 5 | 9 | 10 | 15 | 16 => SymbolKind::Data, 20 | 21 => SymbolKind::Tls, _ => SymbolKind::Unknown }
    };
    nd::ck(s.kind() == kind);
    nd::ck(s.is_definition() == (csect && t >= 1 && t <= 3 && scn > 0 && scn < 0x8000));
    let SymbolFlags::Xcoff { n_type, n_sclass, x_smtyp, x_smclas, containing_csect } = s.flags() else { nd::ck(false); return };
    nd::ck(n_type.0 as u64 == ty && n_sclass.0 as u64 == class && x_smtyp.0 == smtyp && x_smclas.0 == smclas);
    nd::ck(containing_csect == if csect && t == 2 { Some(SymbolIndex(len as usize)) } else { None });
    if csect {
        let c = nd::must(f.xcoff_symbol_table().aux_csect(SymbolIndex(0), naux));
        nd::ck(c.alignment() == smtyp >> 3 && c.x_scnlen() == len && c.x_parmhash() as u64 == get(d, a + 4, 4) && c.x_snhash() as u64 == get(d, a + 8, 2));
        nd::ck(c.x_stab() == if is64 { None } else { Some(get(d, a + 12, 4) as u32) });
        nd::ck(c.x_snstab() == if is64 { None } else { Some(get(d, a + 16, 2) as u16) });
        nd::reach(1);
    }
    nd::reach(2);
}
/// names in the record, the string table or a file's auxiliary entry
fn name<T: FileHeader>(is64: bool) {
    let x = X { is64 };
    let mut b = symbols_image(x, 3);
    let class = img::pick(&[2, 103]);
    let naux = nd::below(2);
    let p = ST + 18 * naux * (class == 103) as usize;
    let inline = nd::flag();
    let off = img::pick(&[0, 4, 5, 6, 8, 15, 16, 17, 0xffff_ffff]);
    let len = img::pick(&[0, 4, 8, 15, 16, 17, 60, 0x7000_0000]);
    // a symbol's name field is at 8 in the 64-bit form, where it is always an offset
    let field64 = is64 && p == ST;
    if inline { nd::fill(&mut b.0[p..p + 8]); nd::assume(b.0[p] != 0); }
    else if !field64 { for i in 1..4 { b.0[p + i] = nd::u8(); } put(&mut b.0, p + 4, 4, off); }
    if field64 { nd::fill(&mut b.0[ST..ST + 8]); put(&mut b.0, ST + 8, 4, off); }
    b.0[ST + 16] = class as u8;
    b.0[ST + 17] = naux as u8;
    let aux_ok = !is64 || naux == 0 || class != 103 || nd::flag();
    if naux == 1 && class == 103 { b.0[ST + 18 + 17] = if aux_ok { 252 } else { 251 }; if !is64 { b.0[ST + 18 + 17] = nd::u8(); } }
    let st = ST + 18 * 3;
    put(&mut b.0, st, 4, len);
    let d = &b.0[..];
    let f = file::<T>(d);
    let s = nd::must(f.symbol_by_index(SymbolIndex(0)));
    let want = if !aux_ok { None } else if inline && !field64 { Some(img::name16(&d[p..p + 8])) }
        else if off > len { None } else { img::cstr(d, st as u64 + off, st as u64 + len) };
    let r = s.name_bytes();
    nd::ck(r.is_ok() == want.is_some());
    if let (Ok(r), Some(w)) = (r, want) { nd::ck_bytes(r, w); nd::reach(1); } else { nd::reach(2); }
}

harnesses! {
    /// any magic and flags; listed counts and positions, eight file lengths
    /// @reach 1,2
    fn c19_accept32() { accept::<xcoff::FileHeader32>(false); }
    /// 64-bit form
    /// @reach 1,2
    fn c19_accept64() { accept::<xcoff::FileHeader64>(true); }
    /// every byte of the headers
    /// @reach 1
    fn c19_fields() { let c = nd::flag(); by_class!(c, fields(c)); }
    /// two section headers, nearly all bytes arbitrary
    /// @reach 1,2
    fn c19_sections() { let c = nd::flag(); by_class!(c, sections(c)); }
    /// names of up to 8 bytes
    /// @reach 1
    fn c19_names() { let c = nd::flag(); by_class!(c, names(c)); }
    /// up to three relocations
    /// @reach 1,2
    fn c19_relocs() { let c = nd::flag(); by_class!(c, relocs(c)); }
    /// up to four records
    /// @reach 1
    fn c19_listing() { let c = nd::flag(); by_class!(c, listing(c)); }
    /// nine classes, all other bytes of the symbol and its entries arbitrary
    /// @reach 1,2
    fn c19_symbol() { let c = nd::flag(); by_class!(c, symbol(c)); }
    /// inline, string table and file names
    /// @reach 1,2
    fn c19_name() { let c = nd::flag(); by_class!(c, name(c)); }
}
