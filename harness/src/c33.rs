//! `write::Object`: the file is the same by whichever route it is written, and defaults made explicit change nothing.
use crate::{harnesses, img, nd};
use object::read::{Object as _, ObjectComdat as _, ObjectSection as _, ObjectSymbol as _};
use object::write::{Comdat, ComdatId, Mangling, Object, Relocation, SectionId, StandardSection as Z, StandardSegment, StreamingBuffer, Symbol, SymbolId, SymbolSection, WritableBuffer};
use object::{Architecture as A, BinaryFormat as B, ComdatKind, Endianness as E, RelocationEncoding as N, RelocationFlags, RelocationKind as K, SectionFlags, SectionKind as S, SymbolFlags, SymbolKind, SymbolScope, coff, elf, macho, xcoff};
use std::io;

const T: [(B, A, E, u8); 8] = [
    (B::Elf, A::X86_64, E::Little, 64), (B::Elf, A::PowerPc, E::Big, 32), (B::Coff, A::I386, E::Little, 32), (B::Coff, A::X86_64, E::Little, 64),
    (B::MachO, A::X86_64, E::Little, 64), (B::MachO, A::PowerPc, E::Big, 32), (B::Xcoff, A::PowerPc, E::Big, 32), (B::Xcoff, A::PowerPc64, E::Big, 64),
];
fn new<'a>(t: usize) -> Object<'a> { Object::new(T[t].0, T[t].1, T[t].2) }
fn sym(name: &[u8], kind: SymbolKind, scope: SymbolScope, section: SymbolSection) -> Symbol {
    Symbol { name: name.to_vec(), value: 0, size: 0, kind, scope, weak: false, section, flags: SymbolFlags::None }
}
struct P { text: [u8; 8], data: [u8; 8], n: usize, bss: u64, size: u64, add: i64, weak: bool, at: u64 }
fn params() -> P {
    P { text: nd::bytes(), data: nd::bytes(), n: [0, 3][nd::below(2)], bss: nd::u16() as u64, size: nd::u16() as u64, add: nd::u16() as i64, weak: nd::flag(), at: [0, 3][nd::below(2)] }
}
struct O { o: Object<'static>, sections: Vec<SectionId>, symbols: Vec<SymbolId>, comdats: Vec<ComdatId> }
/// a few sections and symbols of every kind that all formats have
fn build(t: usize, p: &P) -> O {
    let mut o = new(t);
    let f = T[t].0;
    let text = o.section_id(Z::Text);
    let data = o.section_id(Z::Data);
    let bss = o.section_id(Z::UninitializedData);
    let (mut symbols, mut comdats) = (vec![], vec![]);
    symbols.push(o.add_file_symbol(b"x.c".to_vec()));
    let y = o.add_symbol(sym(b"f", SymbolKind::Text, SymbolScope::Dynamic, SymbolSection::Undefined));
    o.add_symbol_data(y, text, &p.text, 4);
    symbols.push(y);
    let mut u = sym(b"u", SymbolKind::Text, SymbolScope::Unknown, SymbolSection::Undefined);
    u.weak = p.weak;
    let y = o.add_symbol(u);
    symbols.push(y);
    let d = o.add_symbol(sym(b"d", SymbolKind::Data, SymbolScope::Compilation, SymbolSection::Undefined));
    o.append_section_data(data, &p.data[..p.n], 1);
    o.add_symbol_data(d, data, &p.data, 4);
    symbols.push(d);
    let b = o.add_symbol(sym(b"b", SymbolKind::Data, SymbolScope::Linkage, SymbolSection::Undefined));
    o.add_symbol_bss(b, bss, p.bss, 8);
    symbols.push(b);
    if f != B::Xcoff {
        symbols.push(o.section_symbol(data));
        let c = sym(b"c", SymbolKind::Data, SymbolScope::Dynamic, SymbolSection::Undefined);
        symbols.push(o.add_common_symbol(c, p.size, 4));
    }
    let flags = RelocationFlags::Generic { kind: K::Absolute, encoding: N::Generic, size: T[t].3 };
    nd::must(o.add_relocation(text, Relocation { offset: if T[t].3 == 64 { 0 } else { p.at }, symbol: y, addend: p.add, flags }));
    let mut sections = vec![text, data, bss];
    if matches!(f, B::Elf | B::Coff) {
        let s = o.add_subsection(Z::ReadOnlyData, b"z");
        o.append_section_data(s, &p.data[..p.n], 2);
        // COFF wants the symbol of the section before that of the group
        if f == B::Coff { symbols.push(o.section_symbol(s)); }
        let z = o.add_symbol(sym(b"z", SymbolKind::Data, SymbolScope::Dynamic, SymbolSection::Section(s)));
        sections.push(s);
        symbols.push(z);
        comdats.push(o.add_comdat(Comdat { kind: ComdatKind::Any, symbol: z, sections: vec![s] }));
    }
    O { o, sections, symbols, comdats }
}
#[derive(Default)]
struct Rec { data: Vec<u8>, reserved: Vec<u64>, late: bool, refuse: bool }
impl WritableBuffer for Rec {
    fn reserve(&mut self, size: u64) -> Result<(), ()> {
        self.late |= !self.data.is_empty();
        self.reserved.push(size);
        if self.refuse { Err(()) } else { Ok(()) }
    }
    fn write_bytes(&mut self, val: &[u8]) { self.data.extend_from_slice(val); }
}
/// takes at most `step` bytes at a time and `room` in all
struct Sink { data: Vec<u8>, room: usize, step: usize, flushed: usize, flush: bool, busy: bool }
impl io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.busy { self.busy = false; return Err(io::ErrorKind::Interrupted.into()); }
        let n = b.len().min(self.step).min(self.room - self.data.len());
        if n == 0 && !b.is_empty() { self.room = usize::MAX; return Err(io::ErrorKind::StorageFull.into()); }
        self.data.extend_from_slice(&b[..n]);
        self.busy = b[0] == 0 && n == 3;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushed += 1;
        if self.flush { Ok(()) } else { Err(io::ErrorKind::Other.into()) }
    }
}
fn routes() {
    let t = nd::below(8);
    let p = params();
    let o = build(t, &p).o;
    let d = nd::must(o.write());
    nd::ck_bytes(&nd::must(o.write()), &d);
    let mut r = Rec::default();
    nd::must(o.emit(&mut r));
    nd::ck(r.reserved.len() == 1 && !r.late);
    nd::ck_eq(r.reserved[0], d.len() as u64);
    nd::ck_bytes(&r.data, &d);
    let mut r = Rec { refuse: true, ..Rec::default() };
    nd::ck(o.emit(&mut r).is_err() && r.data.is_empty());
    nd::reach(1);
}
fn streams() {
    let t = nd::below(8);
    let p = P { text: nd::bytes(), data: [1, 0, 2, 0, 0, 3, 0, 4], n: 1, bss: 5, size: 7, add: 8, weak: false, at: 0 };
    let o = build(t, &p).o;
    let d = nd::must(o.write());
    let step = [1 << 20, 3][nd::below(2)];
    let cut = [0, 1, 2, 70, d.len() - 1, d.len(), 1 << 20][nd::below(7)];
    let flush = nd::flag();
    let mut s = Sink { data: vec![], room: cut, step, flushed: 0, flush, busy: false };
    let r = o.write_stream(&mut s);
    let fits = cut >= d.len();
    nd::ck(r.is_ok() == (fits && flush));
    nd::ck_eq(s.flushed as u64, fits as u64);
    // what was accepted is where it belongs: nothing is written after a failure
    nd::ck_bytes(&s.data, &d[..cut.min(d.len())]);
    nd::reach(if fits { 1 } else { 2 });
}
/// an error is kept until it is asked for, and nothing is written until then
fn stream_errors() {
    let s = Sink { data: vec![], room: 4, step: 1 << 20, flushed: 0, flush: true, busy: false };
    let mut b = StreamingBuffer::new(s);
    let x: [u8; 3] = nd::bytes();
    nd::ck(b.reserve(1 << 40).is_ok());
    b.write_bytes(&x);
    nd::ck(b.result().is_ok() && b.flush().is_ok());
    b.write_zeros(2);
    b.write_bytes(&[]);
    if nd::flag() {
        nd::ck(b.flush().is_err());
    } else {
        nd::ck(b.result().is_err());
    }
    nd::ck(b.result().is_ok());
    let s = b.into_inner();
    nd::ck(s.flushed == 1);
    nd::ck_bytes(&s.data, &[x[0], x[1], x[2], 0]);
    nd::reach(1);
}
fn explicit() {
    let t = nd::below(8);
    let p = params();
    let plain = build(t, &p);
    let O { mut o, sections, symbols, .. } = build(t, &p);
    let (some, more) = [(true, false), (false, true), (true, true)][nd::below(3)];
    if some {
        for &s in &sections {
            let f = o.default_section_flags(o.section(s));
            nd::ck(o.section(s).flags == SectionFlags::None && o.section_flags(o.section(s)) == f && f != SectionFlags::None);
            nd::ck(*o.section_flags_mut(s) == f && o.section(s).flags == f);
        }
    }
    if more {
        for &y in &symbols {
            let f = o.default_symbol_flags(o.symbol(y));
            nd::ck(o.symbol(y).flags == SymbolFlags::None && o.symbol_flags(o.symbol(y)) == f);
            nd::ck(*o.symbol_flags_mut(y) == f && o.symbol(y).flags == f);
        }
    }
    nd::ck_bytes(&nd::must(o.write()), &nd::must(plain.o.write()));
    nd::reach(1);
}
const KINDS: [S; 17] = [
    S::Text, S::Data, S::ReadOnlyData, S::ReadOnlyDataWithRel, S::ReadOnlyString, S::UninitializedData, S::Tls, S::UninitializedTls, S::TlsVariables,
    S::Other, S::OtherString, S::Debug, S::DebugString, S::Linker, S::Note, S::Metadata, S::Unknown,
];
/// the same for one section of each kind and one symbol of each kind in it
fn explicit_kinds() {
    let t = nd::below(8);
    let kind = KINDS[nd::below(17)];
    let y = [SymbolKind::Text, SymbolKind::Data, SymbolKind::Tls, SymbolKind::Label, SymbolKind::Unknown][nd::below(5)];
    let scope = [SymbolScope::Compilation, SymbolScope::Linkage, SymbolScope::Dynamic][nd::below(3)];
    let (weak, x) = (nd::flag(), nd::bytes::<4>());
    let make = |both: bool| {
        let mut o = new(t);
        let seg: &[u8] = if T[t].0 == B::MachO { b"__X" } else { b"" };
        let s = o.add_section(seg.to_vec(), b".x".to_vec(), kind);
        let v = if o.section(s).is_bss() { o.append_section_bss(s, 5, 1) } else { o.append_section_data(s, &x, 1) };
        nd::ck(v == 0);
        let mut q = sym(b"q", y, scope, SymbolSection::Section(s));
        q.weak = weak;
        q.size = 2;
        let q = o.add_symbol(q);
        if both { o.section_flags_mut(s); o.symbol_flags_mut(q); }
        o.write()
    };
    match (make(false), make(true)) {
        (Ok(a), Ok(b)) => { nd::ck_bytes(&a, &b); nd::reach(1); }
        (Err(_), Err(_)) => nd::reach(2),
        _ => nd::ck(false),
    }
}
/// what is changed through the reference is what is written
fn changed() {
    let t = nd::below(8);
    let p = P { text: [1; 8], data: [2; 8], n: 0, bss: 5, size: 7, add: 0, weak: false, at: 0 };
    let O { mut o, sections, symbols, .. } = build(t, &p);
    let (s, y) = (sections[1], symbols[1]);
    let (x, v) = (nd::u32(), nd::u8());
    match (o.section_flags_mut(s), T[t].0) {
        (SectionFlags::Elf { sh_flags, .. }, B::Elf) => sh_flags.0 ^= x as u64 & 0xfff0_0000,
        (SectionFlags::Coff { characteristics }, B::Coff) => characteristics.0 ^= x & 0x0f00_0000,
        (SectionFlags::MachO { flags, .. }, B::MachO) => flags.0 ^= x & 0xff00_0000,
        (SectionFlags::Xcoff { s_flags }, B::Xcoff) => s_flags.0 ^= x & 0xffff_0000,
        _ => nd::ck(false),
    }
    match (o.symbol_flags_mut(y), T[t].0) {
        (SymbolFlags::Elf { st_other, .. }, B::Elf) => st_other.0 ^= v,
        (SymbolFlags::CoffSection { .. } | SymbolFlags::None, B::Coff) | (SymbolFlags::MachO { .. }, B::MachO) | (SymbolFlags::Xcoff { .. }, B::Xcoff) => {}
        (SymbolFlags::MachO { n_desc, .. }, _) => n_desc.0 ^= v as u16,
        _ => {}
    }
    if let SymbolFlags::MachO { n_desc, .. } = o.symbol_flags_mut(y) { n_desc.0 ^= v as u16; }
    if let SymbolFlags::Xcoff { n_type, .. } = o.symbol_flags_mut(y) { n_type.0 ^= v as u16; }
    let d = nd::must(o.write());
    let f = nd::must(object::File::parse(&*d));
    let name: &[u8] = match T[t].0 { B::MachO => b"__data", _ => b".data" };
    let r = nd::some(f.section_by_name_bytes(name));
    nd::ck_eq(match r.flags() {
        SectionFlags::Elf { sh_flags, .. } => sh_flags.0 ^ 3,
        SectionFlags::Coff { characteristics } => (characteristics.0 ^ 0xc030_0040) as u64,
        SectionFlags::MachO { flags, .. } => flags.0 as u64,
        SectionFlags::Xcoff { s_flags } => (s_flags.0 ^ 0x40) as u64,
        _ => 1,
    }, x as u64 & match T[t].0 { B::Elf => 0xfff0_0000, B::Coff => 0x0f00_0000, B::MachO => 0xff00_0000, _ => 0xffff_0000 });
    let name: &[u8] = if matches!(t, 2 | 4 | 5) { b"_f" } else { b"f" };
    let r = nd::some(f.symbols().find(|r| r.name_bytes() == Ok(name)));
    match r.flags() {
        SymbolFlags::Elf { st_other, .. } => nd::ck_eq(st_other.0 as u64, v as u64),
        SymbolFlags::MachO { n_desc, .. } => nd::ck_eq(n_desc.0 as u64, v as u64),
        SymbolFlags::Xcoff { n_type, .. } => nd::ck_eq(n_type.0 as u64, v as u64),
        _ => nd::ck(T[t].0 == B::Coff),
    }
    nd::reach(1);
}
/// finding symbols, prefixes, section symbols, offsets within sections
fn registry() {
    let t = nd::below(8);
    let mut o = new(t);
    let own = match t { 2 => Mangling::CoffI386, 3 => Mangling::Coff, 0 | 1 => Mangling::Elf, 4 | 5 => Mangling::MachO, _ => Mangling::Xcoff };
    nd::ck(o.mangling() == own && o.format() == T[t].0 && o.architecture() == T[t].1 && o.sub_architecture().is_none());
    let mut prefix = matches!(t, 2 | 4 | 5);
    match nd::below(3) {
        0 => {}
        1 => { o.set_mangling(Mangling::None); prefix = false; nd::ck(o.mangling() == Mangling::None); }
        _ => { o.set_mangling(Mangling::CoffI386); prefix = true; nd::ck(o.mangling() == Mangling::CoffI386); }
    }
    let s = o.section_id(Z::Data);
    o.append_section_data(s, &[0; 64], 1);
    let names: [&[u8]; 3] = [b"a", b"bb", b""];
    let kinds = [SymbolKind::Text, SymbolKind::Data, SymbolKind::Tls, SymbolKind::Label, SymbolKind::Unknown];
    let mut last = [None; 2];
    let mut all = vec![];
    for _ in 0..nd::tier(2, 3) {
        let (n, k) = (nd::below(3), nd::below(5));
        let defined = nd::flag();
        let mut y = sym(names[n], kinds[k], SymbolScope::Dynamic, if defined { SymbolSection::Section(s) } else { SymbolSection::Undefined });
        y.value = nd::u64();
        y.size = nd::u64();
        let (v, z) = (y.value, y.size);
        let id = o.add_symbol(y);
        let named = n < 2 && k < 3;
        if named { last[n] = Some(id); }
        all.push((id, n, named, defined, v, z));
    }
    for i in 0..2 { nd::ck(o.symbol_id(names[i]) == last[i]); }
    nd::ck(o.symbol_id(b"").is_none() && o.symbol_id(b"_a").is_none() && o.symbol_id(b"c").is_none());
    let mut sec = None;
    for &(id, n, named, defined, v, z) in &all {
        let y = o.symbol(id);
        let mut want = vec![];
        if prefix && named { want.push(b'_'); }
        want.extend_from_slice(names[n]);
        nd::ck_bytes(&y.name, &want);
        nd::ck(y.is_undefined() != defined && !y.is_local() && !y.is_common());
        nd::ck_eq(y.value, v);
        nd::ck_eq(y.size, z);
        match o.symbol_section_and_offset(id) {
            Some((q, off)) => {
                nd::ck(defined && *sec.get_or_insert(q) == q);
                nd::ck_eq(off, v);
            }
            None => nd::ck(!defined),
        }
    }
    let q = o.section_symbol(s);
    nd::ck(sec.is_none() || sec == Some(q));
    nd::ck(o.section_symbol(s) == q && o.symbol_section_and_offset(q) == Some((q, 0)));
    nd::ck(all.iter().all(|a| a.0 != q));
    let y = o.symbol(q);
    nd::ck(y.kind == SymbolKind::Section && y.section == SymbolSection::Section(s) && y.section.id() == Some(s) && y.is_local() && y.value == 0 && y.size == 0);
    if T[t].0 != B::MachO { nd::ck_bytes(&y.name, if T[t].0 == B::Coff { b".data" } else { b"" }); }
    // adding it again gives it its flags
    let mut y = sym(b"ignored", SymbolKind::Section, SymbolScope::Compilation, SymbolSection::Section(s));
    y.flags = SymbolFlags::Elf { st_info: elf::SymbolInfo(3), st_other: elf::SymbolOther(nd::u8()) };
    let fl = y.flags;
    nd::ck(o.add_symbol(y) == q && o.symbol(q).flags == fl);
    nd::ck(o.add_symbol(sym(b"", SymbolKind::Section, SymbolScope::Compilation, SymbolSection::Section(s))) == q && o.symbol(q).flags == fl);
    // and again
    let mut y = sym(b"", SymbolKind::Section, SymbolScope::Compilation, SymbolSection::Section(s));
    y.flags = SymbolFlags::Coff { typ: Default::default(), storage_class: Default::default() };
    let fl = y.flags;
    nd::ck(o.add_symbol(y) == q && o.symbol(q).flags == fl && o.section_symbol(s) == q);
    nd::reach(1);
}
/// an addend that is stored in the data is stored there or refused
fn addend() {
    // format, size in bytes
    let t = nd::below(6);
    let (o, n) = [(Object::new(B::Elf, A::I386, E::Little), 4), (Object::new(B::Elf, A::Mips, E::Big), 4), (new(2), 4), (new(3), 8), (new(4), 8), (new(5), 4)].into_iter().nth(t).unwrap();
    let mut o: Object<'static> = o;
    let big = matches!(t, 1 | 5);
    let x: [u8; 12] = nd::bytes();
    let s = o.section_id(Z::Data);
    let from = nd::below(3);
    match from {
        0 => o.set_section_data(s, x.to_vec(), 4),
        1 => nd::ck(o.append_section_data(s, &x, 4) == 0),
        _ => { nd::ck(o.append_section_data(s, &[0; 12], 4) == 0); o.section_mut(s).data_mut().copy_from_slice(&x); }
    }
    let y = o.add_symbol(sym(b"y", SymbolKind::Data, SymbolScope::Dynamic, SymbolSection::Undefined));
    let add = nd::u32() as i32 as i64;
    nd::assume(add != 0);
    let off = img::pick(&[0, 1, 4, 5, 8, 9, 12, 1 << 31, u64::MAX - 8, u64::MAX - 3, u64::MAX]);
    let flags = RelocationFlags::Generic { kind: K::Absolute, encoding: N::Generic, size: 8 * n as u8 };
    let r = o.add_relocation(s, Relocation { offset: off, symbol: y, addend: add, flags });
    let fits = off <= 12 - n as u64;
    nd::ck(r.is_ok() == fits);
    let mut want = x;
    if fits {
        img::put(&mut want, off as usize, n, add as u64, big);
        nd::reach(1);
    } else {
        nd::reach(2);
    }
    nd::ck_bytes(o.section(s).data(), &want);
    let d = nd::must(o.write());
    let f = nd::must(object::File::parse(&*d));
    let r = nd::some(f.section_by_name_bytes(if t > 3 { b"__data" } else { b".data" }));
    nd::ck_bytes(nd::must(r.data()), &want);
    nd::ck_eq(r.relocations().count() as u64, fits as u64);
}
fn comdats() {
    let t = nd::below(4);
    let p = P { text: [1; 8], data: nd::bytes(), n: 3, bss: 5, size: 7, add: 0, weak: false, at: 0 };
    let O { mut o, sections, symbols, comdats } = build(t, &p);
    let c = comdats[0];
    nd::ck(o.comdat(c).kind == ComdatKind::Any && o.comdat(c).symbol == symbols[symbols.len() - 1] && o.comdat(c).sections == [sections[3]]);
    let more = nd::flag();
    let q = if more {
        let q = o.add_section(vec![], b".more".to_vec(), S::Data);
        o.append_section_data(q, &p.data[..2], 1);
        Some(q)
    } else {
        None
    };
    if let (Some(q), true) = (q, t < 2) { o.comdat_mut(c).sections.push(q); }
    let kind = if t < 2 { ComdatKind::Any } else { [ComdatKind::NoDuplicates, ComdatKind::SameSize, ComdatKind::Largest][nd::below(3)] };
    o.comdat_mut(c).kind = kind;
    let d = nd::must(o.write());
    let f = nd::must(object::File::parse(&*d));
    let r: Vec<_> = f.comdats().collect();
    nd::ck_eq(r.len() as u64, 1);
    nd::ck(r[0].kind() == kind);
    nd::ck_bytes(nd::must(r[0].name_bytes()), if t == 2 { b"_z" } else { b"z" });
    let names: Vec<_> = r[0].sections().map(|i| nd::must(nd::must(f.section_by_index(i)).name_bytes()).to_vec()).collect();
    let want: &[&[u8]] = if t >= 2 { &[b".rdata$z"] } else if more { &[b".rodata.z", b".more"] } else { &[b".rodata.z"] };
    nd::ck_eq(names.len() as u64, want.len() as u64);
    for (a, b) in names.iter().zip(want) { nd::ck_bytes(a, b); }
    nd::reach(1);
}
/// a common symbol has a size and an alignment
fn common() {
    let t = nd::below(6);
    let mut o = new(t);
    let size = nd::u32() as u64;
    nd::assume(size != 0);
    let align = 1u64 << nd::below(5);
    let mut y = sym(b"c", SymbolKind::Data, SymbolScope::Dynamic, SymbolSection::Undefined);
    y.value = nd::u64();
    y.size = nd::u64();
    let y = o.add_common_symbol(y, size, align);
    nd::ck(o.symbol_id(b"c") == Some(y) && o.symbol(y).is_common());
    nd::ck(o.symbol(y).value == align && o.symbol(y).size == size);
    let d = nd::must(o.write());
    let f = nd::must(object::File::parse(&*d));
    let r = nd::some(f.symbols().find(|r| r.is_common()));
    nd::ck_bytes(nd::must(r.name_bytes()), if matches!(t, 2 | 4 | 5) { b"_c" } else { b"c" });
    nd::ck_eq(r.size(), size);
    nd::ck(r.is_global() && r.section_index().is_none());
    if T[t].0 == B::MachO {
        let SymbolFlags::MachO { n_desc, .. } = r.flags() else { nd::ck(false); return };
        nd::ck_eq(n_desc.0 as u64 >> 8 & 15, align.trailing_zeros() as u64);
    }
    nd::reach(1);
}
fn segments() {
    let t = nd::below(6);
    let o = new(t);
    let want: [&[u8]; 3] = if T[t].0 == B::MachO { [b"__TEXT", b"__DATA", b"__DWARF"] } else { [b""; 3] };
    for (s, w) in [StandardSegment::Text, StandardSegment::Data, StandardSegment::Debug].into_iter().zip(want) { nd::ck_bytes(o.segment_name(s), w); }
    for (z, k) in [
        (Z::Text, S::Text), (Z::Data, S::Data), (Z::ReadOnlyData, S::ReadOnlyData), (Z::ReadOnlyDataWithRel, S::ReadOnlyDataWithRel), (Z::ReadOnlyString, S::ReadOnlyString),
        (Z::UninitializedData, S::UninitializedData), (Z::Tls, S::Tls), (Z::UninitializedTls, S::UninitializedTls), (Z::TlsVariables, S::TlsVariables), (Z::GnuProperty, S::Note), (Z::EhFrame, S::ReadOnlyData),
    ] { nd::ck(z.kind() == k); }
    nd::reach(1);
}
/// a section that has the name of a standard one is that one
fn standard() {
    let t = nd::below(8);
    let mut o = new(t);
    let (seg, name, kind): (&[u8], &[u8], S) = match (T[t].0, nd::below(3)) {
        (B::MachO, 0) => (b"__TEXT", b"__text", S::Text),
        (B::MachO, 1) => (b"__TEXT", b"__text", S::Data),
        (B::MachO, _) => (b"__DATA", b"__text", S::Text),
        (_, 0) => (b"", b".text", S::Text),
        (_, 1) => (b"", b".text", S::Data),
        (_, _) => (b"", b".texu", S::Text),
    };
    let same = matches!((seg, name, kind), (b"__TEXT", b"__text", S::Text) | (b"", b".text", S::Text));
    let first = nd::flag();
    let before = first.then(|| o.section_id(Z::Text));
    let a = o.add_section(seg.to_vec(), name.to_vec(), kind);
    let b = o.section_id(Z::Text);
    nd::ck(o.section_id(Z::Text) == b);
    match before {
        Some(x) => nd::ck(b == x && a != x),
        None => nd::ck((a == b) == same),
    }
    let y = o.section(a);
    nd::ck(y.name().map(str::as_bytes) == Some(name) && y.segment().map(str::as_bytes) == Some(seg) && !y.is_bss() && y.data().is_empty());
    o.set_subsections_via_symbols();
    let d = nd::must(o.write());
    let f = nd::must(object::File::parse(&*d));
    let n = f.sections().filter(|s| s.kind() != S::Metadata && s.name_bytes() != Ok(b"")).count();
    nd::ck_eq(n as u64, if a == b { 1 } else { 2 });
    nd::reach(1);
}
fn subtractor() {
    let t = nd::below(8);
    let mut o = new(t);
    let s = o.section_id(Z::Data);
    o.append_section_data(s, &[0; 8], 8);
    let y = o.add_symbol(sym(b"y", SymbolKind::Data, SymbolScope::Dynamic, SymbolSection::Section(s)));
    let flags = RelocationFlags::Generic { kind: K::Absolute, encoding: N::Generic, size: T[t].3 };
    let with = nd::flag();
    let r = o.add_relocation_with_subtractor(s, Relocation { offset: 0, symbol: y, addend: 0, flags }, with.then_some(y));
    nd::ck(!with || T[t].0 == B::MachO || r.is_err());
    nd::ck(with || r.is_ok());
    if r.is_err() { nd::reach(2); }
    nd::reach(1);
}

harnesses! {
    /// objects of all four formats with three to four sections, seven symbols, a relocation, symbolic contents and addends; written twice, to a recording buffer and to one that refuses
    /// @reach 1
    fn c33_routes() { routes(); }
    /// the same streamed to a sink that takes everything or three bytes at a time, is interrupted, fails at seven places or when flushed
    /// @reach 1,2
    fn c33_streams() { streams(); }
    /// three writes, the second fails half way
    /// @reach 1
    fn c33_stream_errors() { stream_errors(); }
    /// as c33_routes, default flags of all sections and all symbols made explicit or not
    /// @reach 1
    fn c33_explicit() { explicit(); }
    /// one section of any kind, one symbol of any kind, scope and weakness in it
    /// @reach 1,2
    fn c33_explicit_kinds() { explicit_kinds(); }
    /// any change of some bits of the flags of one section and one symbol
    /// @reach 1
    fn c33_changed() { changed(); }
    /// two (thorough: three) symbols of any kind out of three names with any values
    /// @reach 1
    fn c33_registry() { registry(); }
    /// any 32-bit addend, section of 12 bytes, offsets around the end and the limits
    /// @reach 1,2
    fn c33_addend() { addend(); }
    /// one group, kind changed, section added
    /// @reach 1
    fn c33_comdats() { comdats(); }
    /// any 32-bit size, five alignments
    /// @reach 1
    fn c33_common() { common(); }
    /// all standard segments and sections
    /// @reach 1
    fn c33_segments() { segments(); }
    /// a section named like a standard one, its kind or segment differing
    /// @reach 1
    fn c33_standard() { standard(); }
    /// absolute relocations with and without subtractor
    /// @reach 1,2
    fn c33_subtractor() { subtractor(); }
}
