//! `build::macho::Builder`: what it writes, what it keeps of a file it reads, and what it refuses.
use crate::img::M;
use crate::{harnesses, img, nd};
use object::build::macho::*;
use object::build::Bytes;
use object::macho;
use object::Endianness;

fn end(m: M) -> Endianness { if m.big { Endianness::Big } else { Endianness::Little } }
fn word(m: M, v: u64) -> u64 { if m.is64 { v } else { v & 0xffff_ffff } }
fn name(s: &[u8]) -> [u8; 16] { let mut x = [0; 16]; x[..s.len()].copy_from_slice(s); x }
fn new(m: M, filetype: u32) -> Builder<'static> {
    let mut b = Builder::new(end(m), m.is64);
    b.header = Header { cputype: macho::CpuType(nd::u32()), cpusubtype: macho::CpuSubtype(nd::u32()), filetype: macho::FileType(filetype), flags: macho::FileFlags(nd::u32()) };
    b
}
fn write(b: Builder<'_>) -> Vec<u8> { let mut o = Vec::new(); nd::must(b.write(&mut o)); o }
fn refused(b: Builder<'_>) { let mut o = Vec::new(); nd::ck(b.write(&mut o).is_err() && o.is_empty()); }
/// header and positions of the commands
fn commands(m: M, d: &[u8], h: &Header, want: &[(u64, usize)]) -> Vec<usize> {
    let sum: usize = want.iter().map(|w| w.1).sum();
    for (i, v) in [0xfeed_face + m.is64 as u64, h.cputype.0 as u64, h.cpusubtype.0 as u64, h.filetype.0 as u64, want.len() as u64, sum as u64, h.flags.0 as u64].into_iter().enumerate() { nd::ck_eq(m.u32(d, 4 * i), v); }
    if m.is64 { nd::ck_eq(m.u32(d, 28), 0); }
    let mut at = m.hdr();
    want.iter().map(|(cmd, size)| {
        nd::ck_eq(m.u32(d, at), *cmd);
        nd::ck_eq(m.u32(d, at + 4), *size as u64);
        at += size;
        at - size
    }).collect()
}
fn words(m: M, d: &[u8], at: usize, want: &[u64]) { for (i, v) in want.iter().enumerate() { nd::ck_eq(m.u32(d, at + 4 * i), *v); } }
/// disjoint parts of the file
struct Used(Vec<(usize, usize)>);
impl Used {
    fn add(&mut self, d: &[u8], o: usize, n: usize) {
        nd::ck(o + n <= d.len());
        if n == 0 { return; }
        for (a, b) in &self.0 { nd::ck(o + n <= *a || o >= *b); }
        self.0.push((o, o + n));
    }
}
#[derive(Clone)]
struct S { name: &'static [u8], sect: Option<usize>, n_type: u8, n_sect: u8, desc: u16, value: u64 }
/// (n_type, class): 0 local, 1 external, 2 undefined
const TYPES: [(u8, usize); 6] = [(0x0e, 0), (0x0f, 1), (0x01, 2), (0x1f, 0), (0x24, 0), (0x03, 1)];
fn class(t: u8) -> usize { TYPES[TYPES.iter().position(|x| x.0 == t).unwrap()].1 }
/// the order of the live symbols in the file, and how many of each class
fn order(s: &[S], live: &dyn Fn(usize) -> bool) -> (Vec<usize>, [u64; 3]) {
    let mut out = vec![];
    let mut n = [0; 3];
    for c in 0..3 {
        let mut v: Vec<usize> = (0..s.len()).filter(|i| live(*i) && class(s[*i].n_type) == c).collect();
        if c > 0 {
            // by name; insertion keeps the order of equal names
            for i in 1..v.len() {
                let mut j = i;
                while j > 0 && s[v[j - 1]].name > s[v[j]].name { v.swap(j - 1, j); j -= 1; }
            }
        }
        n[c] = v.len() as u64;
        out.extend(v);
    }
    (out, n)
}
fn add_symbols(b: &mut Builder<'_>, s: &[S], ids: &[SectionId]) -> Vec<SymbolId> {
    s.iter().map(|s| {
        let x = b.symbols.add();
        x.name = s.name.into();
        x.section = s.sect.map(|i| ids[i]);
        x.n_type = macho::SymbolFlags(s.n_type);
        x.n_sect = s.n_sect;
        x.n_desc = macho::SymbolDesc(s.desc);
        x.n_value = s.value;
        x.id()
    }).collect()
}
/// symbol table command, symbols and names; `sect` gives the section numbers
fn symtab(m: M, d: &[u8], at: usize, s: &[S], ord: &[usize], sect: &dyn Fn(usize) -> u64, used: &mut Used) {
    let f: Vec<usize> = (0..4).map(|i| nd::conc(m.u32(d, at + 8 + 4 * i)) as usize).collect();
    nd::ck(f[1] == ord.len() && f[0] % m.w() == 0);
    used.add(d, f[0], f[1] * m.nlist());
    used.add(d, f[2], f[3]);
    for (k, i) in ord.iter().enumerate() {
        let (p, s) = (f[0] + k * m.nlist(), &s[*i]);
        let x = nd::conc(m.u32(d, p)) as usize;
        if s.name.is_empty() { nd::ck(x == 0); }
        let o = f[2] + x;
        nd::ck(x + s.name.len() < f[3]);
        nd::ck_bytes(&d[o..o + s.name.len()], s.name);
        nd::ck(d[o + s.name.len()] == 0);
        nd::ck_eq(d[p + 4] as u64, s.n_type as u64);
        nd::ck_eq(d[p + 5] as u64, s.sect.map_or(s.n_sect as u64, sect));
        nd::ck_eq(m.get(d, p + 6, 2), s.desc as u64);
        nd::ck_eq(m.get(d, p + 8, m.w()), word(m, s.value));
    }
}
fn dysymtab(m: M, d: &[u8], at: usize, n: [u64; 3], off: u64, count: u64) {
    words(m, d, at + 8, &[0, n[0], n[0], n[1], n[0] + n[1], n[2], 0, 0, 0, 0, 0, 0, off, count, 0, 0, 0, 0]);
}
fn any_rel(target: RelocationTarget) -> Relocation {
    let (r_length, t) = (nd::u8(), nd::u8());
    nd::assume(r_length < 4 && t < 16);
    Relocation { target, r_address: nd::u32(), r_pcrel: nd::bool(), r_length, r_type: macho::RelocationType(t) }
}
fn rel_word(m: M, r: &Relocation, num: u64, ext: bool) -> u64 {
    let (p, l, e, t) = (r.r_pcrel as u64, r.r_length as u64, ext as u64, r.r_type.0 as u64);
    if m.big { num << 8 | p << 7 | l << 5 | e << 4 | t } else { num | p << 24 | l << 25 | e << 27 | t << 28 }
}
/// same bytes when read and written again
fn again(d: &[u8], m: M, page: u64, from: usize) {
    let mut b = match from { 0 => nd::must(Builder::read(d)), _ if m.is64 => nd::must(Builder::read64(d)), _ => nd::must(Builder::read32(d)) };
    nd::ck(b.is_64 == m.is64 && (b.endian == Endianness::Big) == m.big);
    if page != 0 {
        // every segment offset of the file is a multiple
        let mut n = 0x4000;
        let mut at = m.hdr();
        for _ in 0..nd::conc(m.u32(d, 16)) {
            if matches!(nd::conc(m.u32(d, at)), 1 | 0x19) { let o = nd::conc(m.segget(d, at, 2)); while o % n != 0 { n /= 2; } }
            at += nd::conc(m.u32(d, at + 4)) as usize;
        }
        nd::ck_eq(b.page_size as u64, n);
        b.page_size = page as u32;
    }
    nd::ck_bytes(&write(b), d);
    nd::reach(8);
}
fn object(nsym: usize, nrel: usize, del: &[u64], late: bool) {
    let m = if late { M::two() } else { M::any() };
    let mut b = new(m, 1);
    let perm = if nd::flag() { [0, 1, 2] } else { [2, 1, 0] };
    let del = img::pick(del) as usize;
    let dead_sym = if del == 0 || nsym < 2 { nd::below(nsym + 1) } else { 0 };
    let names: [&'static [u8]; 4] = [b"b", b"a", b"", b"b"];
    let mut syms: Vec<S> = (0..nsym).map(|i| {
        let t = TYPES[nd::below(if nsym > 2 { 3 } else { TYPES.len() })].0;
        S { name: names[i], sect: if t & 0xe == 0xe || t == 0x24 && !late { Some(i % 3) } else { None }, n_type: t, n_sect: nd::u8(), desc: nd::u16(), value: nd::u64() }
    }).collect();
    if late { syms.iter_mut().for_each(|s| s.n_sect = 0); }
    let text: [u8; 5] = nd::bytes();
    let rest: [u8; 3] = nd::bytes();
    let bss = nd::u32() as u64;
    let x: Vec<(u64, u64, u64)> = [2, 3, 0].into_iter().map(|align| (align, word(m, nd::u64()), nd::u32() as u64)).collect();
    // a section type decides what the size and reserved fields mean
    for (i, s) in x.iter().enumerate() { nd::assume(s.2 & 0xff == if i == 1 { 1 } else { 0 }); }
    let ids: Vec<SectionId> = (0..3).map(|i| {
        let s = b.sections.add();
        s.sectname = name([&b"__text"[..], b"__bss", b"sixteen_chars_xx"][i]);
        s.segname = name([&b"__TEXT"[..], b"__DATA", b"__X"][i]);
        s.addr = x[i].1;
        s.align = x[i].0 as u32;
        s.flags = macho::SectionFlags(x[i].2 as u32);
        s.data = if i == 1 { SectionData::UninitializedData(bss as u32) } else { SectionData::Data((if i == 0 { text.to_vec() } else { rest.to_vec() }).into()) };
        s.id()
    }).collect();
    let sids = add_symbols(&mut b, &syms, &ids);
    let rels: Vec<(Relocation, usize)> = (0..nrel).map(|i| {
        let t = if i == 0 && nsym > 0 { nd::below(nsym) } else { nsym + if nsym > 1 { 2 } else { nd::below(3) } };
        (any_rel(if t < nsym { RelocationTarget::Symbol(sids[t]) } else { RelocationTarget::Section(ids[t - nsym]) }), t)
    }).collect();
    b.sections.get_mut(ids[0]).relocations = rels.iter().map(|r| r.0).collect();
    let (mp, ip, fl, vs) = (nd::u32(), nd::u32(), nd::u32(), nd::u64());
    let seg = {
        let s = b.segments.add();
        s.maxprot = macho::VmProt(mp);
        s.initprot = macho::VmProt(ip);
        s.flags = macho::SegmentFlags(fl);
        s.vmsize = vs;
        s.sections = perm.iter().map(|i| ids[*i]).collect();
        s.id()
    };
    let bv: [u32; 5] = [nd::u32(), nd::u32(), nd::u32(), nd::u32(), nd::u32()];
    let raw: [u8; 16] = nd::bytes();
    let back = perm[0] == 2;
    let mut c = vec![
        LoadCommand::Segment(seg),
        LoadCommand::BuildVersion(BuildVersion { platform: macho::Platform(bv[0]), minos: macho::Version(bv[1]), sdk: macho::Version(bv[2]), tools: vec![BuildToolVersion { tool: macho::Tool(bv[3]), version: macho::Version(bv[4]) }] }),
        LoadCommand::Symtab, LoadCommand::Dysymtab,
        LoadCommand::Other { cmd: macho::LC_UUID, data: raw.to_vec().into() },
    ];
    if back { c.reverse(); }
    b.commands = c;
    let hd = Header { cputype: b.header.cputype, cpusubtype: b.header.cpusubtype, filetype: b.header.filetype, flags: b.header.flags };
    let kill = |b: &mut Builder<'_>| {
        if let Some(s) = b.sections.iter_mut().nth(del.wrapping_sub(1)) { s.delete = true; }
        if let Some(s) = b.symbols.iter_mut().nth(dead_sym.wrapping_sub(1)) { s.delete = true; }
    };
    let d = if late {
        // delete after reading the file; numbers there are those of the file
        let all = write(b);
        let mut b = nd::must(Builder::read(&all[..]));
        let (ord, _) = order(&syms, &|_| true);
        let at = |i: usize| perm.iter().position(|x| *x == i).unwrap();
        if del > 0 { nd::some(b.sections.iter_mut().nth(at(del - 1))).delete = true; }
        if dead_sym > 0 { nd::some(b.symbols.iter_mut().nth(nd::some(ord.iter().position(|x| *x == dead_sym - 1)))).delete = true; }
        write(b)
    } else {
        kill(&mut b);
        write(b)
    };
    let left: Vec<usize> = perm.iter().copied().filter(|i| *i + 1 != del).collect();
    let segsize = m.seg() + left.len() * m.sect();
    let mut want = vec![(if m.is64 { 0x19 } else { 1 }, segsize), (0x32, 32), (2, 24), (0xb, 80), (0x1b, 24)];
    if back { want.reverse(); }
    let mut p = commands(m, &d, &hd, &want);
    if back { p.reverse(); }
    let mut used = Used(vec![(0, m.hdr() + want.iter().map(|w| w.1).sum::<usize>())]);
    words(m, &d, p[1] + 8, &[bv[0] as u64, bv[1] as u64, bv[2] as u64, 1, bv[3] as u64, bv[4] as u64]);
    nd::ck_bytes(&d[p[4] + 8..p[4] + 24], &raw);
    // layout
    let base = used.0[0].1;
    let mut at = 0u64;
    for i in &left { if *i != 1 { at = (at + (1 << x[*i].0) - 1) >> x[*i].0 << x[*i].0; at += [5, 0, 3][*i]; } }
    let filesize = at;
    if left.contains(&1) { at = ((at + 7) & !7) + bss; }
    let q = p[0];
    nd::ck(d[q + 8..q + 24] == [0; 16]);
    for (i, v) in [0, word(m, at), base as u64, filesize, mp as u64, ip as u64, left.len() as u64, fl as u64].into_iter().enumerate() { nd::ck_eq(m.segget(&d, q, i), v); }
    let live = |i: usize| i + 1 != dead_sym && (del == 0 || syms[i].sect != Some(del - 1));
    let (ord, cnt) = order(&syms, &live);
    let sect = |i: usize| left.iter().position(|x| *x == i).map_or(0, |k| k as u64 + 1);
    at = 0;
    for (k, i) in left.iter().enumerate() {
        let h = q + m.seg() + k * m.sect();
        nd::ck_bytes(&d[h..h + 16], &name([&b"__text"[..], b"__bss", b"sixteen_chars_xx"][*i]));
        nd::ck_bytes(&d[h + 16..h + 32], &name([&b"__TEXT"[..], b"__DATA", b"__X"][*i]));
        let g = |f| m.sectget(&d, h, f);
        nd::ck(g(1) == [5, bss, 3][*i] && g(3) == x[*i].0 && g(6) == x[*i].2 && g(7) == 0 && g(8) == 0);
        if m.is64 { nd::ck_eq(g(9), 0); }
        if *i == 1 { nd::ck_eq(g(2), 0); } else {
            at = (at + (1 << x[*i].0) - 1) >> x[*i].0 << x[*i].0;
            nd::ck_eq(g(2), base as u64 + at);
            let o = base + at as usize;
            let t: &[u8] = if *i == 0 { &text } else { &rest };
            used.add(&d, o, t.len());
            nd::ck_bytes(&d[o..o + t.len()], t);
            at += t.len() as u64;
        }
        let rl: Vec<&(Relocation, usize)> = rels.iter().filter(|r| if r.1 < nsym { live(r.1) } else { r.1 - nsym + 1 != del }).collect();
        if *i != 0 || rl.is_empty() { nd::ck(g(5) == 0); continue; }
        nd::ck_eq(g(5), rl.len() as u64);
        let o = nd::conc(g(4)) as usize;
        nd::ck(o % m.w() == 0);
        used.add(&d, o, 8 * rl.len());
        for (k, (r, t)) in rl.into_iter().enumerate() {
            nd::ck_eq(m.u32(&d, o + 8 * k), r.r_address as u64);
            let (num, ext) = if *t < nsym { (nd::some(ord.iter().position(|x| x == t)) as u64, true) } else { (sect(*t - nsym), false) };
            nd::ck_eq(m.u32(&d, o + 8 * k + 4), rel_word(m, r, num, ext));
            nd::reach(1);
        }
    }
    symtab(m, &d, p[2], &syms, &ord, &sect, &mut used);
    dysymtab(m, &d, p[3], cnt, 0, 0);
    if del == 0 && dead_sym == 0 { again(&d, m, 0, back as usize); }
}
struct X { stub: bool, page: u64, del: usize }
/// an executable with segments in the table in another order than the commands
fn exec(x: X) {
    let m = M::two();
    let mut b = new(m, 2);
    b.page_size = x.page as u32;
    let base = if m.is64 { (nd::u32() as u64) << 12 } else { (nd::u16() as u64) << 12 };
    nd::assume(base > 0);
    let room = 0x400;
    let code: [u8; 6] = nd::bytes();
    let dat: [u8; 24] = nd::bytes();
    let flags = nd::u32() as u64;
    nd::assume(flags & 0xff == 0);
    // 0 text, 1 pointers with indirect symbols or stubs, 2 zero fill
    let sz = [6, if x.stub { 6 } else { 3 * m.w() as u64 }, 5];
    let dend = 0x2000 + sz[1];
    let addr = [base + room, base + 0x2000, base + dend + 7];
    let ids: Vec<SectionId> = (0..3).map(|i| {
        let s = b.sections.add();
        s.sectname = name([&b"__text"[..], b"__ptr", b"__bss"][i]);
        s.segname = name([&b"__TEXT"[..], b"__DATA", b"__DATA"][i]);
        s.addr = addr[i];
        s.flags = macho::SectionFlags([flags as u32, if x.stub { 8 } else { 6 }, 1][i]);
        if x.stub && i == 1 { s.symbol_stub_size = 2; }
        s.data = if i == 2 { SectionData::UninitializedData(5) } else { SectionData::Data((if i == 0 { code.to_vec() } else { dat[..sz[1] as usize].to_vec() }).into()) };
        s.id()
    }).collect();
    let syms: Vec<S> = (0..3).map(|i| {
        let t = [0x0f, 0x01, 0x0e][i];
        S { name: [&b"_m"[..], b"_puts", b"l"][i], sect: if t == 1 { None } else { Some([0, 0, 1][i]) }, n_type: t, n_sect: 0, desc: nd::u16(), value: nd::u64() }
    }).collect();
    let sids = add_symbols(&mut b, &syms, &ids);
    let special = 0x8000_0000 | (nd::flag() as u32) << 30;
    b.sections.get_mut(ids[1]).indirect_symbols = vec![IndirectSymbol::Symbol(sids[1]), IndirectSymbol::Flags(macho::IndirectSymbol(special)), IndirectSymbol::Symbol(sids[0])];
    let prot: Vec<[u32; 3]> = (0..4).map(|_| [nd::u32(), nd::u32(), nd::u32()]).collect();
    let nm: [&[u8]; 4] = [b"__PAGEZERO", b"__TEXT", b"__DATA", b"__LINKEDIT"];
    let va = [0, base, base + 0x2000, base + 0x4000];
    let vs = [base, 0x2000, 0x2000, nd::u16() as u64];
    let table: [usize; 4] = if nd::flag() { [0, 1, 2, 3] } else { [3, 2, 0, 1] };
    let mut seg = vec![None; 4];
    for i in table {
        let s = b.segments.add();
        s.segname = name(nm[i]);
        (s.vmaddr, s.vmsize) = (va[i], vs[i]);
        (s.maxprot, s.initprot, s.flags) = (macho::VmProt(prot[i][0]), macho::VmProt(prot[i][1]), macho::SegmentFlags(prot[i][2]));
        s.sections = match i { 1 => vec![ids[0]], 2 => vec![ids[1], ids[2]], _ => vec![] };
        seg[i] = Some(s.id());
    }
    for s in &seg { b.commands.push(LoadCommand::Segment(s.unwrap())); }
    b.commands.push(LoadCommand::Symtab);
    b.commands.push(LoadCommand::Dysymtab);
    let sig: [u8; 3] = nd::bytes();
    let fs: [u8; 5] = nd::bytes();
    let info: [u8; 7] = nd::bytes();
    b.commands.push(LoadCommand::LinkeditData { cmd: macho::LC_CODE_SIGNATURE, data: sig.to_vec().into() });
    b.commands.push(LoadCommand::LinkeditData { cmd: macho::LC_FUNCTION_STARTS, data: fs.to_vec().into() });
    b.commands.push(LoadCommand::DyldInfo { rebase: info[..2].to_vec().into(), bind: Bytes::default(), weak_bind: info[2..3].to_vec().into(), lazy_bind: Bytes::default(), export: info[3..].to_vec().into() });
    let hd = Header { cputype: b.header.cputype, cpusubtype: b.header.cpusubtype, filetype: b.header.filetype, flags: b.header.flags };
    // deletions: 1 the first segment, 2 the sections of the third, 3 one of them, 4 a used symbol, 5 another symbol
    let mut dead = vec![];
    match x.del {
        1 => b.segments.get_mut(seg[0].unwrap()).delete = true,
        2 => dead = vec![1, 2],
        3 => dead = vec![2],
        4 => b.symbols.get_mut(sids[1]).delete = true,
        5 => b.symbols.get_mut(sids[2]).delete = true,
        _ => {}
    }
    for i in &dead { b.sections.get_mut(ids[*i]).delete = true; }
    if x.del == 4 { return refused(b); }
    let d = write(b);
    let kept: Vec<usize> = (0..4).filter(|i| match x.del { 1 => *i != 0, 2 => *i != 2, _ => true }).collect();
    let mine = |i: usize| -> Vec<usize> { (match i { 1 => vec![0], 2 => vec![1, 2], _ => vec![] }).into_iter().filter(|s| !dead.contains(s)).collect() };
    let mut want: Vec<(u64, usize)> = kept.iter().map(|i| (if m.is64 { 0x19 } else { 1 }, m.seg() + mine(*i).len() * m.sect())).collect();
    let k = want.len();
    want.extend([(2, 24), (0xb, 80), (0x1d, 16), (0x26, 16), (0x8000_0022, 48)]);
    let p = commands(m, &d, &hd, &want);
    let mut used = Used(vec![(0, m.hdr() + want.iter().map(|w| w.1).sum::<usize>())]);
    nd::ck(used.0[0].1 <= room as usize);
    // offsets keep the distances of the addresses, file sizes are whole pages
    let up = |v: u64| v.div_ceil(x.page) * x.page;
    let has_ptr = !dead.contains(&1);
    let text_end = up(room + 6);
    let link = if has_ptr { text_end + up(sz[1]) } else { text_end };
    let mut number = 0;
    let mut sect = [0; 3];
    for (c, i) in kept.iter().enumerate() {
        let q = p[c];
        nd::ck_bytes(&d[q + 8..q + 24], &name(nm[*i]));
        let (off, size, vsize) = match i { 1 => (0, text_end, vs[1]), 2 => (text_end, up(sz[1]), vs[2]), 3 => (link, d.len() as u64 - link, up(d.len() as u64 - link)), _ => (0, 0, vs[0]) };
        for (f, v) in [va[*i], vsize, off, size, prot[*i][0] as u64, prot[*i][1] as u64, mine(*i).len() as u64, prot[*i][2] as u64].into_iter().enumerate() { nd::ck_eq(m.segget(&d, q, f), v); }
        for (j, s) in mine(*i).into_iter().enumerate() {
            number += 1;
            sect[s] = number;
            let h = q + m.seg() + j * m.sect();
            let g = |f| m.sectget(&d, h, f);
            let o = [room, text_end, 0][s];
            nd::ck(g(0) == addr[s] && g(1) == sz[s] && g(2) == o && g(3) == 0 && g(4) == 0 && g(5) == 0 && g(7) == 0);
            nd::ck_eq(g(6), [flags, if x.stub { 8 } else { 6 }, 1][s]);
            nd::ck_eq(g(8), if x.stub && s == 1 { 2 } else { 0 });
            if s != 2 {
                let o = o as usize;
                let t: &[u8] = if s == 0 { &code } else { &dat[..sz[1] as usize] };
                nd::ck_bytes(&d[o..o + t.len()], t);
            }
        }
    }
    used.0.push((used.0[0].1, link as usize));
    let (ord, cnt) = order(&syms, &|i| !(x.del == 5 && i == 2 || syms[i].sect.is_some_and(|s| dead.contains(&s))));
    symtab(m, &d, p[k], &syms, &ord, &|i| sect[i], &mut used);
    if has_ptr {
        let off = nd::conc(m.u32(&d, p[k + 1] + 56)) as usize;
        used.add(&d, off, 12);
        dysymtab(m, &d, p[k + 1], cnt, off as u64, 3);
        let num = |i: usize| nd::some(ord.iter().position(|x| *x == i)) as u64;
        words(m, &d, off, &[num(1), special as u64, num(0)]);
    } else {
        dysymtab(m, &d, p[k + 1], cnt, 0, 0);
    }
    let blob = |used: &mut Used, at: usize, t: &[u8]| {
        let (o, n) = (nd::conc(m.u32(&d, at)) as usize, nd::conc(m.u32(&d, at + 4)) as usize);
        nd::ck_eq(n as u64, t.len() as u64);
        if n == 0 { nd::ck(o == 0); return 0; }
        used.add(&d, o, n);
        nd::ck_bytes(&d[o..o + n], t);
        o
    };
    let s = blob(&mut used, p[k + 2] + 8, &sig);
    nd::ck(s % 16 == 0 && s + 3 == d.len());
    nd::ck(blob(&mut used, p[k + 3] + 8, &fs) % m.w() == 0);
    for (i, t) in [&info[..2], &[], &info[2..3], &[], &info[3..]].into_iter().enumerate() { nd::ck(blob(&mut used, p[k + 4] + 8 + 8 * i, t) % m.w() == 0); }
    nd::reach(1);
    if x.del != 4 { again(&d, m, x.page, (x.page == 16) as usize); }
}
/// the file a builder with these commands and no tables writes
fn image(m: M, cmds: &[Vec<u8>], h: &Header) -> Vec<u8> {
    let mut d = vec![0; m.hdr()];
    m.header(&mut d, h.cputype.0 as u64, h.filetype.0 as u64, cmds.len() as u64, cmds.iter().map(|c| c.len() as u64).sum());
    m.put(&mut d, 8, 4, h.cpusubtype.0 as u64);
    m.put(&mut d, 24, 4, h.flags.0 as u64);
    for c in cmds { d.extend_from_slice(c); }
    d
}
fn cmd(m: M, n: u64, words: &[u64]) -> Vec<u8> {
    let mut c = vec![0; 8 + 4 * words.len()];
    m.put(&mut c, 0, 4, n);
    let size = c.len() as u64;
    m.put(&mut c, 4, 4, size);
    for (i, w) in words.iter().enumerate() { m.put(&mut c, 8 + 4 * i, 4, *w); }
    c
}
/// libraries: the commands kept, ordinals of the symbols bound to them
fn libs() {
    let m = M::any();
    let h = new(m, 6).header;
    let lib = |n: u64, name: &[u8], f: [u32; 3]| {
        let mut c = cmd(m, n, &[24, f[0] as u64, f[1] as u64, f[2] as u64]);
        c.extend_from_slice(name);
        c.push(0);
        while c.len() % m.w() != 0 { c.push(0); }
        let size = c.len() as u64;
        m.put(&mut c, 4, 4, size);
        c
    };
    let f: Vec<[u32; 3]> = (0..4).map(|_| [nd::u32(), nd::u32(), nd::u32()]).collect();
    let kinds = [0xc, 0x8000_0018, 0x8000_001f, 0x20, 0x8000_0023];
    let a = lib(kinds[nd::below(5)], b"/usr/lib/a", f[0]);
    let x = lib(0xc, b"bcd", f[1]);
    let c = lib(0x8000_001f, b"", f[2]);
    let own = lib(0xd, b"me", f[3]);
    // two undefined symbols
    let (da, db, va) = (nd::u16(), nd::u16(), word(m, nd::u64()));
    let mut st = cmd(m, 2, &[0, 2, 0, 8]);
    let cs = vec![a.clone(), own.clone(), x.clone(), c.clone(), vec![0; 24]];
    let at = image(m, &cs, &h).len();
    m.put(&mut st, 8, 4, at as u64);
    m.put(&mut st, 16, 4, (at + 2 * m.nlist()) as u64);
    let mut d = image(m, &[a.clone(), own.clone(), x.clone(), c.clone(), st.clone()], &h);
    for (strx, desc, v) in [(1, da, va), (3, db, 0)] {
        let mut n = vec![0; m.nlist()];
        m.put(&mut n, 0, 4, strx);
        n[4] = 1;
        m.put(&mut n, 6, 2, desc as u64);
        m.put(&mut n, 8, m.w(), v);
        d.extend_from_slice(&n);
    }
    d.extend_from_slice(b"\0a\0b\0\0\0\0");
    let mut b = nd::must(Builder::read(&d[..]));
    let ids: Vec<DylibId> = b.commands.iter().filter_map(|c| match c { LoadCommand::Dylib(id) => Some(*id), _ => None }).collect();
    nd::ck(ids.len() == 3 && b.dylibs.count() == 3);
    let dead = nd::below(4);
    if dead > 0 { b.dylibs.get_mut(ids[dead - 1]).delete = true; }
    let bound = nd::below(4);
    if bound > 0 { nd::some(b.symbols.iter_mut().nth(1)).dylib = Some(ids[bound - 1]); }
    if bound > 0 && bound == dead { return refused(b); }
    let o = write(b);
    let left: Vec<usize> = (0..3).filter(|i| i + 1 != dead).collect();
    let mut cs = vec![];
    for (i, c) in [&a, &x, &c].into_iter().enumerate() {
        if left.contains(&i) { cs.push(c.clone()); }
        if i == 0 { cs.push(own.clone()); }
    }
    cs.push(st);
    let at = image(m, &cs, &h).len();
    let k = cs.len() - 1;
    m.put(&mut cs[k], 8, 4, at as u64);
    m.put(&mut cs[k], 16, 4, (at + 2 * m.nlist()) as u64);
    nd::ck(o.len() == d.len() - [0, a.len(), x.len(), c.len()][dead]);
    nd::ck_bytes(&o[..at], &image(m, &cs, &h));
    let e = at + m.nlist();
    nd::ck(m.get(&o, at + 6, 2) == da as u64 && m.get(&o, at + 8, m.w()) == va);
    let want = if bound == 0 { db as u64 } else { (db & 0xff) as u64 | (left.iter().position(|i| i + 1 == bound).unwrap() as u64 + 1) << 8 };
    nd::ck_eq(m.get(&o, e + 6, 2), want);
    if bound > 0 { nd::reach(1); }
}
/// commands kept as they are
fn other() {
    let m = M::any();
    let h = new(m, 2).header;
    let k = nd::below(6);
    // dynamic linker, source version, entry point, uuid, encryption info
    let c = [(0xe, 4), (0x2a, 2), (0x8000_0028, 4), (0x1b, 4), (0x21, 3), (0x2c, 4)][k];
    let v: Vec<u64> = (0..c.1).map(|_| nd::u32() as u64).collect();
    let mut c = cmd(m, c.0, &v);
    while c.len() % m.w() != 0 { c.push(0); }
    let size = c.len() as u64;
    m.put(&mut c, 4, 4, size);
    let tools: Vec<u64> = (0..3 + 2 * nd::below(3)).map(|_| nd::u32() as u64).collect();
    let mut v = tools.clone();
    v.insert(3, (tools.len() as u64 - 3) / 2);
    let d = image(m, &[c, cmd(m, 0x32, &v)], &h);
    let b = nd::must(Builder::read(&d[..]));
    nd::ck(b.page_size == 0x4000 && b.segments.is_empty() && b.symbols.is_empty());
    let o = write(b);
    nd::ck_bytes(&o[..d.len()], &d);
    nd::reach(1);
}
/// the link edit segment is found and sized whatever the page size read
fn pages() {
    let m = M::two();
    let h = new(m, 2).header;
    let (o0, o1) = (0, img::pick(&[0x200, 0x500, 0x4000, 0x8000, 0x3000]));
    let mut cs = vec![];
    for o in [o0, o1] {
        let mut c = vec![0; m.seg()];
        m.segment(&mut c, 0, 0);
        m.segset(&mut c, 0, 2, o);
        cs.push(c);
    }
    let d = image(m, &cs, &h);
    let b = nd::must(Builder::read(&d[..]));
    nd::ck(b.page_size as u64 == [0x200, 0x100, 0x4000, 0x4000, 0x1000][[0x200, 0x500, 0x4000, 0x8000, 0x3000].iter().position(|x| *x == o1).unwrap()]);
    nd::reach(1);
}
fn misuse() {
    let m = M::two();
    let k = nd::below(14);
    let mut b = new(m, if k < 3 { 1 } else { 2 });
    let base = 0x10_0000 + nd::u16() as u64;
    let mut s = vec![];
    let gap = [nd::u16() as u64, nd::u16() as u64];
    for i in 0..2u64 {
        let x = b.sections.add();
        x.addr = base + 0x1000 + i * 0x100;
        x.data = SectionData::Data(vec![1, 2, 3].into());
        s.push(x.id());
    }
    let g: Vec<SegmentId> = (0..2u64).map(|i| {
        let x = b.segments.add();
        (x.vmaddr, x.vmsize) = (base + i * 0x2000, 0x2000);
        if i == 0 { x.sections = s.clone(); }
        x.id()
    }).collect();
    b.commands = vec![LoadCommand::Segment(g[0]), LoadCommand::Segment(g[1])];
    match k {
        // objects have a single unnamed segment at zero
        0 => {}
        1 => { b.segments.get_mut(g[0]).vmaddr = 0; b.segments.get_mut(g[1]).delete = true; b.segments.get_mut(g[0]).segname[nd::below(16)] = nd::u8() | 1; }
        2 => { b.segments.get_mut(g[1]).delete = true; nd::assume(base != 0); }
        // something not referenced
        3 => { b.commands.remove(nd::below(2)); }
        4 => { b.segments.get_mut(g[0]).sections.remove(nd::below(2)); }
        5 => { b.symbols.add(); }
        // order and ranges
        6 => { b.commands.swap(0, 1); }
        7 => { b.segments.get_mut(g[0]).sections.swap(0, 1); }
        8 => { nd::assume(gap[0] > 0 && gap[0] < 0x1000); b.segments.get_mut(g[1]).vmaddr -= gap[0]; }
        9 => { nd::assume(gap[0] < 0x1103); b.segments.get_mut(g[0]).vmsize = gap[0]; }
        10 => { nd::assume(gap[0] < 0x1003); b.sections.get_mut(s[1]).addr = base + gap[0]; }
        11 => { nd::assume(gap[0] > 0); b.segments.get_mut(g[0]).vmaddr = base + 0x1000 + gap[0]; }
        // relocations of a linked file
        12 => { let r = any_rel(RelocationTarget::Section(s[0])); b.sections.get_mut(s[1]).relocations.push(r); }
        // a deleted segment that still has sections
        _ => { b.segments.get_mut(g[0]).delete = true; }
    }
    nd::reach(k as u64 + 1);
    refused(b)
}
/// n_sect and r_symbolnum of section relocations have one byte
fn many_sections() {
    let m = M::two();
    let n = 255 + nd::below(2);
    let mut b = new(m, 1);
    let ids: Vec<SectionId> = (0..n).map(|i| {
        let x = b.sections.add();
        x.addr = 16 * i as u64;
        x.data = SectionData::Data(vec![1].into());
        x.id()
    }).collect();
    let g = b.segments.add();
    g.vmsize = 16 * n as u64;
    g.sections = ids.clone();
    let g = g.id();
    b.commands = vec![LoadCommand::Segment(g)];
    if n > 255 { nd::reach(1); refused(b); return; }
    let s = b.symbols.add();
    (s.section, s.n_type) = (Some(ids[254]), macho::SymbolFlags(0xe));
    b.commands.push(LoadCommand::Symtab);
    nd::reach(2);
    let d = write(b);
    nd::ck_eq(m.u32(&d, m.hdr() + m.seg() - 8), 255);
    let st = m.hdr() + m.seg() + m.sect() * 255;
    let at = m.u32(&d, st + 8) as usize;
    nd::ck(d[at + 4] == 0xe && d[at + 5] == 255);
}
/// no command is read beyond its bounds or with references out of range
fn bad_file() {
    let m = M::any();
    let h = new(m, if nd::flag() { 1 } else { 2 }).header;
    let k = nd::below(7);
    let mut seg = vec![0; m.seg() + m.sect()];
    m.segment(&mut seg, 0, 1);
    let at = m.seg();
    let rest = m.hdr() + seg.len() + 24 + 80;
    let nl = m.nlist();
    m.sectset(&mut seg, at, 1, 8);
    m.sectset(&mut seg, at, 2, rest as u64);
    m.sectset(&mut seg, at, 4, (rest + 8) as u64);
    let mut st = cmd(m, 2, &[(rest + 24) as u64, 2, (rest + 24 + 2 * nl) as u64, 4]);
    let mut dy = cmd(m, 0xb, &[0; 18]);
    m.put(&mut dy, 56, 4, (rest + 16) as u64);
    m.put(&mut dy, 60, 4, 2);
    let mut body = vec![0; 24 + 2 * nl + 4];
    let mut ok = true;
    match k {
        // relocation targets
        0 => {
            let (num, ext) = (nd::u32() as u64 & 0xff_ffff, nd::flag());
            m.sectset(&mut seg, at, 5, 1);
            m.put(&mut body, 12, 4, if m.big { num << 8 | (ext as u64) << 4 } else { num | (ext as u64) << 27 });
            ok = if ext { num < 2 } else { num == 1 };
        }
        // indirect symbols
        1 => {
            let num = nd::u32() as u64;
            m.sectset(&mut seg, at, 6, [6, 7, 0x10, 0x14][nd::below(4)]);
            m.put(&mut body, 16, 4, num);
            ok = num < 2 || num & 0xc000_0000 != 0;
        }
        // stubs
        2 => {
            let (num, size, start) = (nd::u32() as u64, nd::below(9) as u64, nd::u8() as u64);
            m.sectset(&mut seg, at, 6, 8);
            m.sectset(&mut seg, at, 7, start);
            m.sectset(&mut seg, at, 8, size);
            m.put(&mut body, 20, 4, num);
            let good = num < 2 || num & 0xc000_0000 != 0;
            ok = size > 0 && start + 8 / size <= 2;
            // symbol 0 or the symbolic one
            ok &= good || size == 0 || start + 8 / size < 2 || 8 / size == 0;
        }
        // symbol sections
        3 => {
            let (t, n) = (nd::u8(), nd::u8());
            body[24 + 4] = t;
            body[24 + 5] = n;
            ok = t & 0xe != 0xe || n == 1;
        }
        // zero fill
        4 => {
            let size = word(m, nd::u64());
            m.sectset(&mut seg, at, 6, [1, 0xc, 0x12][nd::below(3)]);
            m.sectset(&mut seg, at, 1, size);
            ok = size >> 32 == 0;
        }
        // counts of unsupported tables
        5 => {
            let i = [32, 40, 48, 64, 72][nd::below(5)];
            let v = nd::u32();
            m.put(&mut dy, i + 4, 4, v as u64);
            ok = v == 0;
        }
        // two symbol tables
        _ => { dy = st.clone(); dy.resize(80, 0); m.put(&mut dy, 4, 4, 80); ok = false; }
    }
    if k == 6 && nd::flag() { st = cmd(m, 0x1b, &[1, 2, 3, 4]); ok = true; }
    let mut d = image(m, &[seg, st, dy], &h);
    nd::ck(d.len() == rest);
    d.extend_from_slice(&body);
    let r = Builder::read(&d[..]);
    nd::ck(r.is_ok() == ok);
    if ok { nd::reach(1); } else { nd::reach(2); }
    if let Ok(b) = r {
        let s = nd::some(b.sections.iter().next());
        nd::ck(k != 4 || s.data.size() as u64 == nd::conc(0) + m.sectget(&d, m.hdr() + m.seg(), 1));
        if k == 0 { nd::ck(s.relocations.len() == 1); }
        if k == 3 { nd::ck(nd::some(b.symbols.iter().next()).section.is_some() == (d[rest + 28] & 0xee == 0x0e || d[rest + 28] & 0xe == 0xe)); }
    }
}
/// sections of an object that all start at 0
fn known_addresses() {
    let m = M::two();
    let mut b = new(m, 1);
    let t: [u8; 4] = nd::bytes();
    let ids: Vec<SectionId> = (0..2).map(|_| { let s = b.sections.add(); s.data = SectionData::Data(t.to_vec().into()); s.id() }).collect();
    let s = b.segments.add();
    s.sections = ids;
    let id = s.id();
    b.commands.push(LoadCommand::Segment(id));
    let mut d = Vec::new();
    b.write(&mut d).unwrap();
    let h = m.hdr() + m.seg() + m.sect();
    nd::ck(m.sectget(&d, h, 0) == m.sectget(&d, h, 2) - m.segget(&d, m.hdr(), 2));
}
/// a function stab of the second section when the first one is deleted
fn known_stab() {
    let m = M::two();
    let mut b = new(m, 1);
    let ids: Vec<SectionId> = (0..2).map(|_| b.sections.add().id()).collect();
    let s = b.segments.add();
    s.sections = ids.clone();
    let id = s.id();
    b.commands = vec![LoadCommand::Segment(id), LoadCommand::Symtab];
    add_symbols(&mut b, &[S { name: b"f", sect: Some(1), n_type: 0x24, n_sect: 0, desc: 0, value: nd::u64() }], &ids);
    let mut d = Vec::new();
    b.write(&mut d).unwrap();
    let mut b = Builder::read(&d[..]).unwrap();
    b.sections.iter_mut().next().unwrap().delete = true;
    let mut d = Vec::new();
    b.write(&mut d).unwrap();
    let at = nd::conc(m.u32(&d, m.hdr() + m.seg() + m.sect() + 8)) as usize;
    nd::ck(d[at + 5] == 1);
}
/// any content of one command
fn any_command(kind: u64, len: usize, extra: usize) {
    let m = M::two();
    let mut h = new(m, 1).header;
    h.filetype.0 = if nd::flag() { 1 } else { 2 };
    let mut c = vec![0; len];
    nd::fill(&mut c);
    m.put(&mut c, 0, 4, kind);
    m.put(&mut c, 4, 4, len as u64);
    let far = m.hdr() as u64 + len as u64;
    if kind == 2 {
        let o = far + img::pick(&[0, 1, 0xffff_f000]);
        m.put(&mut c, 8, 4, o);
        m.put(&mut c, 12, 4, img::pick(&[0, 1, 2, 0xffff_ffff]));
        m.put(&mut c, 16, 4, far + img::pick(&[30, 0xffff_f000]));
        m.put(&mut c, 20, 4, img::pick(&[0, 4, 10, 0xffff_ffff]));
    }
    if kind == 1 || kind == 0x19 {
        let q = M { is64: kind == 0x19, big: m.big };
        q.segset(&mut c, 0, 6, img::pick(&[0, 1, 2, 0xffff_ffff]));
        let s = q.seg();
        q.sectset(&mut c, s, 1, img::pick(&[0, 9, u64::MAX]));
        q.sectset(&mut c, s, 2, img::pick(&[0, far, far + 8, 0xffff_ffff]));
        q.sectset(&mut c, s, 4, img::pick(&[far, 0xffff_ffff]));
        q.sectset(&mut c, s, 5, img::pick(&[0, 1, 0xffff_ffff]));
    }
    let mut d = image(m, &[c], &h);
    let mut t = vec![0; extra];
    nd::fill(&mut t);
    d.extend_from_slice(&t);
    if let Ok(b) = Builder::read(&d[..]) { nd::ck(b.commands.len() == 1); nd::reach(1); } else { nd::reach(2); }
}
/// what delete_orphans deletes: segments whose listed sections are all deleted, symbols of deleted sections, relocations and commands of what is deleted
fn orphans() {
    let mut b = new(M { is64: true, big: false }, 1);
    let ids: Vec<SectionId> = (0..3).map(|_| b.sections.add().id()).collect();
    let (n, d) = (nd::u8(), nd::u16());
    let syms: Vec<SymbolId> = (0..3).map(|i| {
        let x = b.symbols.add();
        x.section = if i == 0 { None } else { Some(ids[i - 1]) };
        (x.n_type, x.n_sect, x.n_desc) = (macho::SymbolFlags(n), n, macho::SymbolDesc(d));
        x.id()
    }).collect();
    let dead = nd::below(4);
    if dead != 0 { b.symbols.get_mut(syms[dead - 1]).delete = true; }
    let targets = [RelocationTarget::Symbol(syms[1]), RelocationTarget::Section(ids[0]), RelocationTarget::Symbol(syms[0]), RelocationTarget::Section(ids[2]), RelocationTarget::Symbol(syms[2]), RelocationTarget::Section(ids[1]), RelocationTarget::Section(ids[0])];
    for t in targets { b.sections.get_mut(ids[2]).relocations.push(Relocation { target: t, r_address: 0, r_pcrel: false, r_length: 2, r_type: macho::RelocationType(0) }); }
    let del = [nd::flag(), nd::flag()];
    for i in 0..2 { b.sections.get_mut(ids[i]).delete = del[i]; }
    let mut segs = vec![];
    for k in 0..5 {
        let s = b.segments.add();
        (s.vmaddr, s.vmsize) = (nd::u64(), nd::u64());
        for i in 0..2 { if k >> i & 1 != 0 || k == 4 { s.sections.push(ids[i]); } }
        s.delete = k == 4;
        segs.push(s.id());
    }
    b.commands.push(LoadCommand::Symtab);
    for s in &segs { b.commands.push(LoadCommand::Segment(*s)); }
    b.commands.push(LoadCommand::Dysymtab);
    b.delete_orphans();
    let gone = |k: usize| k == 4 || k != 0 && (0..2).all(|i| k >> i & 1 == 0 || del[i]);
    for (k, g) in segs.iter().enumerate() {
        let s = b.segments.get(*g);
        nd::ck(s.delete == gone(k));
        if k < 4 { nd::ck(s.sections.iter().copied().eq((0..2).filter(|i| k >> i & 1 != 0 && !del[*i]).map(|i| ids[i]))); }
    }
    let out = |i: usize| i + 1 == dead || i > 0 && del[i - 1];
    for i in 0..3 { nd::ck(b.symbols.get(syms[i]).delete == out(i)); }
    let keep = |t: &RelocationTarget| match t { RelocationTarget::Symbol(s) => !out(syms.iter().position(|x| x == s).unwrap()), RelocationTarget::Section(s) => !(0..2).any(|i| del[i] && ids[i] == *s) };
    nd::ck(b.sections.get(ids[2]).relocations.iter().map(|r| r.target).eq(targets.into_iter().filter(keep)));
    let mut want = vec![(0, 0)];
    for k in 0..5 { if !gone(k) { want.push((1, k)); } }
    want.push((3, 0));
    let got = b.commands.iter().map(|c| match c {
        LoadCommand::Symtab => (0, 0),
        LoadCommand::Segment(s) => (1, segs.iter().position(|x| x == s).unwrap()),
        LoadCommand::Dysymtab => (3, 0),
        _ => (4, 0),
    });
    nd::ck(got.eq(want.into_iter()));
    nd::reach(1);
}

/// names end at the first null, if there is one
fn names() {
    let mut b = new(M { is64: true, big: false }, 1);
    let mut n = *b"abcdefghijklmnop";
    let at = nd::below(17);
    if at < 16 { n[at] = 0; }
    n[img::pick(&[0, 7, 15]) as usize] = nd::u8();
    let want = img::cstr(&n, 0, 16).unwrap_or(&n);
    let g = b.segments.add();
    g.segname = n;
    nd::ck_bytes(g.segname(), want);
    let s = b.sections.add();
    (s.sectname, s.segname) = (n, *b"0123456789\0xxxxx");
    nd::ck_bytes(s.sectname(), want);
    nd::ck_bytes(s.segname(), b"0123456789");
    (s.segname, s.sectname) = (n, *b"0123456789\0xxxxx");
    nd::ck_bytes(s.segname(), want);
    nd::ck_bytes(s.sectname(), b"0123456789");
    nd::reach(1);
}
/// only Mach-O files are read, by their own class
fn kinds() {
    let mut b = nd::Buf::<32>::zero();
    nd::fill(&mut b.0[..5]);
    let d = &b.0[..];
    let m = u32::from_le_bytes([d[0], d[1], d[2], d[3]]);
    let m = if m.swap_bytes() >> 16 == 0xfeed { m.swap_bytes() } else { m };
    let c = match m { 0xfeed_face => 1, 0xfeed_facf => 2, _ => 0 };
    let want = match c { 1 => Builder::read32(d).is_ok(), 2 => Builder::read64(d).is_ok(), _ => false };
    let r = Builder::read(d);
    nd::ck(r.is_ok() == want);
    if r.is_ok() { nd::reach(c); }
}
harnesses! {
    /// 3 sections, segments with every subset of two of them, 3 symbols, 7 relocations; any deleted
    /// @reach 1
    fn c29_orphans() { orphans() }
    /// object: 3 sections, 1 symbol of 6 types, 1 relocation to it or a section, any field values, both classes and byte orders; written and read again
    /// @reach 1,8
    fn c29_object() { object(1, 1, &[0], false) }
    /// object: 3 symbols of 3 classes, 2 relocations
    /// @reach 1,8
    fn c29_object_order() { object(3, 2, &[0], false) }
    /// object: a section or symbol deleted before writing
    /// @reach 1
    fn c29_object_delete() { object(2, 2, &[0, 1, 2, 3], false) }
    /// object: a section or symbol deleted after reading the file
    /// @reach 1
    fn c29_object_read_delete() { object(2, 2, &[0, 1, 2, 3], true) }
    /// executable: 4 segments in any of 2 table orders, page size 16, link edit data, indirect symbols
    /// @reach 1,8
    fn c29_exec() { exec(X { stub: nd::flag(), page: 16, del: 0 }) }
    /// executable: page size 0x100
    /// @reach 1,8
    fn c29_exec_page() { exec(X { stub: false, page: 0x100, del: 0 }) }
    /// executable: one segment, sections or symbols deleted
    /// @reach 1
    fn c29_exec_delete() { exec(X { stub: false, page: 16, del: 1 + nd::below(5) }) }
    /// 3 libraries of any of 5 kinds, one deleted, a symbol bound to any of them
    /// @reach 1
    fn c29_dylibs() { libs() }
    /// commands kept as raw data, build versions with up to 2 tools
    /// @reach 1
    fn c29_commands() { other() }
    /// page size from segment file offsets
    /// @reach 1
    fn c29_page_size() { pages() }
    /// 255 sections, or one too many
    /// @reach 1,2
    fn c29_many_sections() { many_sections() }
    /// 14 kinds of misuse, any addresses within 16 bits of the limits
    /// @reach 1,2,3,4,5,6,7,8,9,10,11,12,13,14
    fn c29_misuse() { misuse() }
    /// files with references or sizes out of range
    /// @reach 1,2
    fn c29_bad_file() { bad_file() }
    /// any segment command with a section, with 16 bytes of file after it
    /// @reach 1,2
    fn c29_any_segment() { let m = nd::flag(); if m { any_command(0x19, 72 + 80, 16) } else { any_command(1, 56 + 68, 16) } }
    /// any symbol table command, with 40 bytes of file after it
    /// @reach 1,2
    fn c29_any_symtab() { any_command(2, 24, 40) }
    /// any dynamic symbol table, link edit data, dyld information, library, own name, build version or other command
    /// @reach 1,2
    fn c29_any_other() { let k = nd::below(7); any_command([0xb, 0x1d, 0x8000_0022, 0xc, 0xd, 0x32, 0x1b][k], [80, 16, 48, 32, 32, 40, 24][k], 8) }
    /// names of up to 16 bytes, one arbitrary
    /// @reach 1
    fn c29_names() { names() }
    /// any identification, other fields 0
    /// @reach 1,2
    fn c29_kinds() { kinds() }
    /// 2 sections of an object with address 0
    /// @known KF1
    fn c29_known_addresses() { known_addresses() }
    /// a section before that of a stab symbol deleted
    /// @known KF2
    fn c29_known_stab() { known_stab() }
}
