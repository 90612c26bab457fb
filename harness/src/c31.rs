//! `object-rewrite`: a rewritten file differs from its input in what was asked for, and stays well formed.
use crate::elfout::{string, sysv_find, word};
use crate::img::{E, M};
use crate::{harnesses, img, nd};
use object_rewrite::{Options, Rewriter};

type Str = &'static [u8];
fn v(s: &[u8]) -> Vec<u8> { s.to_vec() }
fn write(r: Rewriter<'_>) -> Result<Vec<u8>, ()> { let mut o = Vec::new(); r.write(&mut o).map_err(|_| ())?; Ok(o) }

/// a section of the file read
#[derive(Clone)]
struct S { name: Str, ty: u32, flags: u64, link: u64, info: u64, align: u64, ent: u64, data: Vec<u8>, size: u64, off: u64, addr: u64 }
fn s(name: Str, ty: u32, flags: u64, align: u64, data: Vec<u8>) -> S {
    let size = data.len() as u64;
    S { name, ty, flags, link: 0, info: 0, align, ent: 0, data, size, off: 0, addr: 0 }
}
/// a section header of the file written
#[derive(Clone, Copy)]
struct H { name: u64, ty: u64, flags: u64, addr: u64, off: u64, size: u64, link: u64, info: u64, align: u64, ent: u64 }
fn headers(e: E, d: &[u8]) -> Vec<H> {
    let (at, n) = (nd::conc(e.rd(d, e.eh_shoff())) as usize, nd::conc(e.rd(d, e.eh_shnum())) as usize);
    nd::ck(at != 0 && at + n * e.sh() <= d.len());
    (0..n).map(|i| {
        let g = |k| e.shget(d, at + i * e.sh(), k);
        H { name: nd::conc(g(0)), ty: nd::conc(g(1)), flags: g(2), addr: g(3), off: nd::conc(g(4)), size: if nd::conc(g(1)) == 8 { g(5) } else { nd::conc(g(5)) }, link: g(6), info: g(7), align: g(8), ent: g(9) }
    }).collect()
}
fn part<'a>(d: &'a [u8], h: &H) -> &'a [u8] { nd::ck(h.off + h.size <= d.len() as u64); &d[h.off as usize..(h.off + h.size) as usize] }
fn up(v: u64, a: u64) -> u64 { (v + a - 1) / a * a }

/// a relocatable file: any symbols and sections deleted and renamed
fn relocatable(what: usize) {
    let e = E::any();
    let w = e.w() as u64;
    // symbols: name, section
    const SYMS: [(Str, u64); 3] = [(b"a", 1), (b"bb", 2), (b"u", 0)];
    let st: [(u8, u8, u64, u64); 3] = core::array::from_fn(|_| (nd::u8() & 15, nd::u8(), nd::u64(), nd::u64()));
    let n = e.sym();
    let mut sd = vec![0; 4 * n];
    for (i, off) in [1, 3, 6].into_iter().enumerate() {
        for (f, x) in [(0, off), (1, 0x10 | st[i].0 as u64), (2, st[i].1 as u64), (3, SYMS[i].1), (4, st[i].2), (5, st[i].3)] { e.symset(&mut sd, (i + 1) * n, f, x); }
    }
    let mut rd = vec![0; 2 * e.w()];
    let (ro, rt) = (nd::u64(), nd::u8() as u64);
    e.put(&mut rd, 0, e.w(), ro);
    e.put(&mut rd, e.w(), e.w(), if e.is64 { 2 << 32 | rt } else { 2 << 8 | rt });
    let (x, y): ([u8; 5], [u8; 3]) = (nd::bytes(), nd::bytes());
    let mut secs = vec![
        s(b".text", 1, 6, 4, v(&x)), s(b".data", 1, 3, 2, v(&y)), S { size: nd::u32() as u64, ..s(b".bss", 8, 3, 8, vec![]) },
        S { link: 5, info: 1, ent: 2 * w, ..s(b".rel.text", 9, 0x40, w, rd) }, S { link: 6, info: 1, ent: n as u64, ..s(b".symtab", 2, 0, w, sd) },
        s(b".strtab", 3, 0, 1, v(b"\0a\0bb\0u\0")), s(b".shstrtab", 3, 0, 1, v(b"\0.text\0.data\0.bss\0.rel.text\0.symtab\0.strtab\0.shstrtab\0")),
    ];
    let mut d = vec![0; e.eh()];
    e.ident(&mut d);
    let (ty, fl) = (nd::u32(), nd::u32());
    for (f, x) in [(e.eh_type(), 1), (e.eh_machine(), 3), (e.eh_flags(), fl as u64)] { e.set(&mut d, f, x); }
    let mut name = 1;
    let mut hd = vec![0; e.sh()];
    for q in &mut secs {
        while d.len() as u64 % q.align != 0 { d.push(0); }
        q.off = d.len() as u64;
        d.extend_from_slice(&q.data);
        let at = hd.len();
        hd.resize(at + e.sh(), 0);
        for (k, x) in [name, q.ty as u64, q.flags, 0, q.off, q.size, q.link, q.info, q.align, q.ent].into_iter().enumerate() { e.shset(&mut hd, at, k, x); }
        name += q.name.len() as u64 + 1;
    }
    while d.len() % 8 != 0 { d.push(0); }
    let off = d.len() as u64;
    e.sections(&mut d, off, 8, 7);
    d.extend_from_slice(&hd);
    let _ = ty;
    // what is asked for
    let mut o = Options::default();
    let mut snames: Vec<Str> = SYMS.iter().map(|s| s.0).collect();
    let mut names: Vec<Str> = secs.iter().map(|s| s.name).collect();
    let mut dead = [false; 3];
    let mut gone = [false; 7];
    match what {
        0 => {
            for i in 0..3 { if nd::flag() { o.delete_symbols.insert(v(SYMS[i].0)); dead[i] = true; } }
            if nd::flag() { o.delete_symbols.insert(v(b"b")); }
            let r = nd::below(4);
            for (i, to) in [(0, &b"longer name"[..]), (1, b"a")] { if r >> i & 1 != 0 { o.rename_symbols.insert(v(SYMS[i].0), v(to)); snames[i] = to; } }
        }
        _ => {
            let i = nd::below(5);
            if i != 0 { o.delete_sections.insert(v(names[i - 1])); gone[i - 1] = true; }
            let r = nd::below(8);
            for (i, to) in [(1, &b".rodata"[..]), (3, b""), (6, b".data")] { if r & 1 << (i / 2) != 0 { o.rename_sections.insert(v(names[i]), v(to)); names[i] = to; } }
            if nd::flag() { o.rename_sections.insert(v(b".x"), v(b".y")); }
        }
    }
    let mut r = nd::must(Rewriter::read(&d));
    nd::must(r.modify(o));
    let out = write(r);
    // the target of a relocation section
    if gone[0] { nd::ck(out.is_err()); nd::reach(2); return; }
    let out = nd::must(out);
    let h = headers(e, &out);
    for f in [e.eh_type(), e.eh_machine(), e.eh_flags(), e.eh_entry(), e.eh_phnum()] { nd::ck_eq(e.rd(&out, f), e.rd(&d, f)); }
    nd::ck_bytes(&out[..16], &d[..16]);
    let live: Vec<usize> = (0..7).filter(|i| !gone[*i]).collect();
    let ix = |i: u64| if i == 0 { 0 } else { live.iter().position(|k| *k as u64 + 1 == i).map_or(0, |p| p as u64 + 1) };
    nd::ck(h.len() == live.len() + 1);
    nd::ck_eq(e.rd(&out, e.eh_shstrndx()), ix(7));
    let str = h[h.len() - 1];
    let mut used = vec![(0, e.eh() as u64), (nd::conc(e.rd(&out, e.eh_shoff())), out.len() as u64)];
    for (k, i) in live.iter().enumerate() {
        let (q, a) = (&secs[*i], h[k + 1]);
        string(&out, str.off as usize, a.name, names[*i]);
        nd::ck(a.ty == q.ty as u64 && a.flags == q.flags && a.addr == 0 && a.align == q.align && a.ent == q.ent);
        nd::ck(a.link == ix(q.link));
        if *i != 4 { nd::ck(a.info == ix(q.info)); }
        if *i < 3 { nd::ck_eq(a.size, word(e, q.size)); }
        if *i < 2 { nd::ck_bytes(part(&out, &a), &q.data); }
        if q.ty != 8 { nd::ck(a.off % q.align == 0); for (x, y) in &used { nd::ck(a.off + a.size <= *x || a.off >= *y); } used.push((a.off, a.off + a.size)); }
    }
    // symbols
    let keep: Vec<usize> = (0..3).filter(|i| !dead[*i] && !(SYMS[*i].1 != 0 && gone[SYMS[*i].1 as usize - 1])).collect();
    let (sym, strs) = (&h[ix(5) as usize], &h[ix(6) as usize]);
    let t = part(&out, sym);
    nd::ck(t.len() == n * (keep.len() + 1) && sym.info == 1);
    for (k, i) in keep.iter().enumerate() {
        let g = |f| e.symget(t, n * (k + 1), f);
        string(&out, strs.off as usize, g(0), snames[*i]);
        nd::ck_eq(g(1), 0x10 | st[*i].0 as u64);
        nd::ck(g(2) == st[*i].1 as u64 && g(3) == ix(SYMS[*i].1));
        nd::ck_eq(g(4), word(e, st[*i].2));
        nd::ck_eq(g(5), word(e, st[*i].3));
    }
    // the relocation against the second symbol
    if !gone[3] {
        let t = part(&out, &h[ix(4) as usize]);
        match keep.iter().position(|i| *i == 1) {
            None => nd::ck(t.is_empty()),
            Some(p) => {
                nd::ck_eq(e.get(t, 0, e.w()), word(e, ro));
                nd::ck_eq(e.get(t, e.w(), e.w()), if e.is64 { (p as u64 + 1) << 32 | rt } else { (p as u64 + 1) << 8 | rt });
                nd::ck(t.len() == 2 * e.w());
            }
        }
    }
    nd::reach(1);
}

/// a dynamic entry
#[derive(Clone, Copy, PartialEq)]
enum D { Str(u64, Str), Int(u64, u64), Sec(u64, usize), Size(u64, usize) }
const NEEDED: u64 = 1;
const SONAME: u64 = 14;
const RPATH: u64 = 15;
const RUNPATH: u64 = 29;
const DEBUG: u64 = 21;
/// positions in the section list
const INTERP: usize = 1;
const HASH: usize = 4;
const DYNSYM: usize = 5;
const DYNSTR: usize = 6;
const DYNAMIC: usize = 8;
const DATA: usize = 10;
const BSS: usize = 11;
const SHSTR: usize = 12;
#[derive(Clone)]
struct P { ty: u64, flags: u64, off: u64, addr: u64, filesz: u64, memsz: u64, align: u64 }
struct File { e: E, secs: Vec<S>, segs: Vec<P>, dynamic: Vec<D>, base: u64, h: [u8; 16], entry: u64, syms: Vec<(Str, [u64; 4])> }
/// a shared object with these dynamic entries, `slack` bytes after the program headers and room for `gap` more dynamic entries,
/// the dynamic strings at the end of the first segment if `last`, a writable second note outside the segment of notes if `one`
fn linked(e: E, dynamic: Vec<D>, slack: u64, gap: u64, note: usize, last: bool, one: bool) -> File {
    let w = e.w() as u64;
    let n = e.sym();
    let mut strs = vec![0u8];
    let mut add = |s: Str| { let o = strs.len() as u64; strs.extend_from_slice(s); strs.push(0); o };
    let st: [[u64; 4]; 2] = core::array::from_fn(|_| [nd::u8() as u64 & 15 | 0x10, nd::u8() as u64, word(e, nd::u64()), word(e, nd::u64())]);
    let syms: Vec<(Str, [u64; 4])> = vec![(b"f", st[0]), (b"g", st[1])];
    let mut sd = vec![0; 3 * n];
    for (i, (name, f)) in syms.iter().enumerate() {
        let o = add(name);
        for (k, x) in [(0, o), (1, f[0]), (2, f[1]), (3, [DATA as u64, 0][i]), (4, f[2]), (5, f[3])] { e.symset(&mut sd, n * (i + 1), k, x); }
    }
    let offs: Vec<u64> = dynamic.iter().map(|d| match d { D::Str(_, s) => add(s), _ => 0 }).collect();
    let mut hash = vec![0; 4 * 6];
    for (i, x) in [1, 3, 2, 0, 0, 1].into_iter().enumerate() { e.put(&mut hash, 4 * i, 4, x); }
    let notes = |t: u64| { let mut d = vec![0; note]; e.put(&mut d, 0, 4, 4); e.put(&mut d, 4, 4, note as u64 - 16); e.put(&mut d, 8, 4, t); d[12..16].copy_from_slice(b"GNU\0"); nd::fill(&mut d[16..18]); d };
    let (x, y): ([u8; 3], [u8; 4]) = (nd::bytes(), nd::bytes());
    let mut secs = vec![
        s(b".interp", 1, 2, 1, v(b"/ld\0")), s(b".note.a", 7, 2, 4, notes(1)), s(b".note.b", 7, if one { 3 } else { 2 }, 4, notes(2)),
        S { link: 5, ent: 4, ..s(b".hash", 5, 2, 4, hash) }, S { link: 6, info: 1, ent: n as u64, ..s(b".dynsym", 11, 2, w, sd) }, s(b".dynstr", 3, 2, 1, strs),
        s(b".rodata", 1, 2, 1, v(&x)), S { link: 6, ent: 2 * w, ..s(b".dynamic", 6, 3, w, vec![0; (dynamic.len() + 1) * 2 * e.w()]) },
        S { size: 16, ..s(b".tbss", 8, 0x403, 1, vec![]) }, s(b".data", 1, 3, 1, v(&y)), S { size: 24, ..s(b".bss", 8, 3, 1, vec![]) }, s(b".shstrtab", 3, 0, 1, v(b"\0.interp\0.note.a\0.note.b\0.hash\0.dynsym\0.dynstr\0.rodata\0.dynamic\0.tbss\0.data\0.bss\0.shstrtab\0")),
    ];
    let base = if e.is64 { 0x5500_0000_0000 } else { 0x40_0000 };
    let mut o = e.eh() as u64 + 6 * e.ph() as u64 + slack;
    let mut addr = base;
    for mut i in 0..12 {
        if last && (i == 5 || i == 6) { i = 11 - i; }
        if i + 1 == DYNAMIC { addr += 0x1000; }
        if i + 1 == SHSTR { addr = 0; }
        o = up(o, secs[i].align);
        secs[i].off = o;
        secs[i].addr = if addr == 0 { 0 } else { addr + o };
        o += secs[i].data.len() as u64;
        if i + 1 == DYNAMIC { o += gap * 2 * w; }
    }
    // allowed for sections without contents
    if gap == 0 { secs[BSS - 1].off = 0; }
    let mut dd = vec![0; (dynamic.len() + 1) * 2 * e.w()];
    for (i, d) in dynamic.iter().enumerate() {
        let (t, x) = match *d { D::Str(t, _) => (t, offs[i]), D::Int(t, x) => (t, x), D::Sec(t, s) => (t, secs[s - 1].addr), D::Size(t, s) => (t, secs[s - 1].size) };
        e.put(&mut dd, 2 * i * e.w(), e.w(), t);
        e.put(&mut dd, (2 * i + 1) * e.w(), e.w(), x);
    }
    secs[DYNAMIC - 1].data = dd;
    let sec = |i: usize| &secs[i - 1];
    let (dy, b, sh) = (sec(DYNAMIC), sec(BSS), sec(SHSTR));
    let end = if last { sec(DYNSTR).off + sec(DYNSTR).size } else { sec(7).off + 3 };
    let seg = |ty, flags, off, addr, filesz, memsz, align| P { ty, flags, off, addr, filesz, memsz, align };
    let ph = 6 * e.ph() as u64;
    let notes = if one { 1 } else { 2 } * note as u64;
    let segs = vec![
        seg(6, 4, e.eh() as u64, base + e.eh() as u64, ph, ph, w), seg(3, 4, sec(1).off, sec(1).addr, 4, 4, 1), seg(1, 4, 0, base, end, end, 0x1000),
        seg(4, 4, sec(2).off, sec(2).addr, notes, notes, 4), seg(1, 6, dy.off, dy.addr, sh.off - dy.off, b.addr + b.size - dy.addr, 0x1000), seg(2, 6, dy.off, dy.addr, dy.size, dy.size, w),
    ];
    let mut h = [0; 16];
    h[7] = nd::u8();
    h[8] = nd::u8();
    File { e, dynamic, base, h, entry: word(e, nd::u64()), syms, secs, segs }
}
fn image(f: &File) -> Vec<u8> {
    let e = f.e;
    let mut d = vec![0; f.secs[SHSTR - 1].off as usize];
    e.ident(&mut d);
    d[7] = f.h[7];
    d[8] = f.h[8];
    for (k, x) in [(e.eh_type(), 3), (e.eh_machine(), 62), (e.eh_entry(), f.entry)] { e.set(&mut d, k, x); }
    e.segments(&mut d, e.eh() as u64, 6);
    for (i, p) in f.segs.iter().enumerate() { for (k, x) in [p.ty, p.flags, p.off, p.addr, p.addr, p.filesz, p.memsz, p.align].into_iter().enumerate() { e.phset(&mut d, e.eh() + i * e.ph(), k, x); } }
    let mut hd = vec![0; e.sh()];
    let mut name = 1;
    for q in &f.secs {
        if q.off as usize + q.data.len() > d.len() { d.resize(q.off as usize + q.data.len(), 0); }
        d[q.off as usize..q.off as usize + q.data.len()].copy_from_slice(&q.data);
        let at = hd.len();
        hd.resize(at + e.sh(), 0);
        for (k, x) in [name, q.ty as u64, q.flags, q.addr, q.off, q.size, q.link, q.info, q.align, q.ent].into_iter().enumerate() { e.shset(&mut hd, at, k, x); }
        name += q.name.len() as u64 + 1;
    }
    while d.len() % 8 != 0 { d.push(0); }
    let off = d.len() as u64;
    e.sections(&mut d, off, 13, SHSTR as u64);
    d.extend_from_slice(&hd);
    d
}
/// what the rewritten file must hold
struct Want { dynamic: Vec<D>, interp: Vec<u8>, syms: Vec<(Str, usize)>, gone: Vec<usize> }
fn compare(f: &File, d: &[u8], w: &Want) {
    let e = f.e;
    let ws = e.w() as u64;
    // file header
    for k in [e.eh_type(), e.eh_machine(), e.eh_flags(), e.eh_phoff()] { nd::ck_eq(e.rd(d, k), [3, 62, 0, e.eh() as u64][if k == e.eh_type() { 0 } else if k == e.eh_machine() { 1 } else if k == e.eh_flags() { 2 } else { 3 }]); }
    nd::ck(d[7] == f.h[7] && d[8] == f.h[8]);
    nd::ck_eq(e.rd(d, e.eh_entry()), f.entry);
    // sections
    let h = headers(e, d);
    let live: Vec<usize> = (1..13).filter(|i| !w.gone.contains(i)).collect();
    nd::ck(h.len() == live.len() + 1);
    let ix = |i: u64| live.iter().position(|k| *k as u64 == i).map_or(0, |p| p as u64 + 1);
    let hd = |i: usize| h[ix(i as u64) as usize];
    nd::ck_eq(e.rd(d, e.eh_shstrndx()), ix(SHSTR as u64));
    // program headers
    let np = nd::conc(e.rd(d, e.eh_phnum())) as usize;
    let segs: Vec<P> = (0..np).map(|i| { let g = |k| nd::conc(e.phget(d, e.eh() + i * e.ph(), k)); nd::ck(g(3) == g(4)); P { ty: g(0), flags: g(1), off: g(2), addr: g(3), filesz: g(5), memsz: g(6), align: g(7) } }).collect();
    let phend = (e.eh() + np * e.ph()) as u64;
    let old: Vec<&P> = f.segs.iter().filter(|p| p.ty == 1).collect();
    let loads: Vec<&P> = segs.iter().filter(|p| p.ty == 1).collect();
    for (i, p) in loads.iter().enumerate() {
        nd::ck(p.filesz <= p.memsz && p.off + p.filesz <= d.len() as u64 && p.align == 0x1000 && p.addr % p.align == p.off % p.align);
        // those of the input stay, and come before any other
        if i < 2 { let o = old[i]; nd::ck(p.flags == o.flags && p.off == o.off && p.addr == o.addr && p.filesz == o.filesz && p.memsz == o.memsz); }
        else { nd::ck(p.filesz == p.memsz && p.filesz != 0); }
        for q in &loads[..i] { nd::ck((p.addr + p.memsz <= q.addr || p.addr >= q.addr + q.memsz) && (p.off + p.filesz <= q.off || p.off >= q.off + q.filesz)); }
    }
    nd::ck(loads.len() >= 2);
    let mut used = vec![(0, e.eh() as u64), (e.eh() as u64, phend), (nd::conc(e.rd(d, e.eh_shoff())), d.len() as u64)];
    let mut mem = vec![(f.base, f.base + phend)];
    let mut moved = false;
    let mut grown = false;
    for (k, i) in live.iter().enumerate() {
        let (q, a) = (&f.secs[*i - 1], h[k + 1]);
        string(d, hd(SHSTR).off as usize, a.name, q.name);
        nd::ck(a.ty == q.ty as u64 && a.flags == q.flags && a.align == q.align && a.ent == q.ent && a.link == ix(q.link) && a.info == q.info);
        let (addr, size) = (nd::conc(a.addr), nd::conc(a.size));
        if *i == SHSTR { nd::ck(addr == 0); } else {
            nd::ck(addr % q.align == 0);
            if q.flags & 0x400 == 0 {
                for (x, y) in &mem { nd::ck(addr + size <= *x || addr >= *y); }
                mem.push((addr, addr + size));
            }
            // loaded where its header says, with its permissions
            let p = nd::some(loads.iter().find(|p| addr >= p.addr && addr + size <= p.addr + p.memsz));
            nd::ck(p.flags == if q.flags & 1 != 0 && (*i != 3 || addr != q.addr) { 6 } else { 4 });
            if q.ty != 8 { nd::ck(a.off - p.off == addr - p.addr && a.off + size <= p.off + p.filesz); }
            // what may be referred to by address stays
            if matches!(*i, 7..=BSS) { nd::ck(addr == q.addr); }
            if addr == q.addr { nd::ck(a.off == q.off); } else { moved = true; nd::ck(p.addr != old[0].addr && p.addr != old[1].addr); }
            if size > q.size { grown = true; }
        }
        if q.ty != 8 { for (x, y) in &used { nd::ck(a.off + size <= *x || a.off >= *y); } used.push((a.off, a.off + size)); }
        if matches!(*i, 2 | 3 | 7 | DATA) { nd::ck_bytes(part(d, &a), &q.data); }
        if *i == BSS { nd::ck(size == q.size); }
    }
    nd::ck(grown || !moved && np == 6 - w.gone.contains(&INTERP) as usize);
    nd::ck(moved == (loads.len() > 2));
    if moved { nd::reach(2); }
    // the other segments
    let mut notes = vec![];
    for p in &segs {
        let is = |i: usize| { let a = hd(i); nd::ck(p.off == a.off && p.addr == a.addr && p.filesz == a.size && p.memsz == a.size); };
        match p.ty {
            1 => {}
            6 => nd::ck(p.off == e.eh() as u64 && p.addr == f.base + p.off && p.filesz == phend - p.off && p.memsz == p.filesz),
            3 => { nd::ck(!w.gone.contains(&INTERP)); is(INTERP) }
            2 => is(DYNAMIC),
            4 => { nd::ck(p.filesz == p.memsz && p.filesz != 0 && p.flags == 4 && p.align == 4); notes.push((p.off, p.addr, p.filesz)); }
            _ => nd::ck(false),
        }
    }
    for t in [6, 2, 3] { nd::ck(segs.iter().filter(|p| p.ty == t).count() == !(t == 3 && w.gone.contains(&INTERP)) as usize); }
    let (a, b) = (hd(2), hd(3));
    if f.secs[2].flags == 3 { nd::ck(notes == [(a.off, nd::conc(a.addr), a.size)]); if loads.len() == 4 { nd::reach(5); } }
    else if notes.len() == 1 { nd::ck(notes[0] == (a.off, nd::conc(a.addr), b.off + b.size - a.off) && b.addr - a.addr == b.off - a.off && b.off == a.off + a.size); }
    else { nd::ck(notes.len() == 2); notes.sort(); let mut x = [(a.off, nd::conc(a.addr), a.size), (b.off, nd::conc(b.addr), b.size)]; x.sort(); nd::ck(notes[0] == x[0] && notes[1] == x[1]); nd::reach(3); }
    // contents
    if !w.gone.contains(&INTERP) { nd::ck_bytes(part(d, &hd(INTERP)), &w.interp); }
    let strs = hd(DYNSTR);
    let t = part(d, &hd(DYNSYM));
    let n = e.sym();
    nd::ck(t.len() == n * (w.syms.len() + 1));
    for (k, (name, i)) in w.syms.iter().enumerate() {
        let g = |x| e.symget(t, n * (k + 1), x);
        let x = &f.syms[*i].1;
        string(d, strs.off as usize, g(0), name);
        nd::ck(g(1) == x[0] && g(2) == x[1] && g(3) == if *i == 0 { ix(DATA as u64) } else { 0 } && g(4) == x[2] && g(5) == x[3]);
    }
    if !w.gone.contains(&HASH) {
        let t = part(d, &hd(HASH));
        nd::ck(t.len() == 4 * (3 + w.syms.len() + 1) && e.get(t, 0, 4) == 1 && e.get(t, 4, 4) == w.syms.len() as u64 + 1);
        for (k, (_, i)) in w.syms.iter().enumerate() { if *i == 0 { nd::ck(sysv_find(e, t, 1, w.syms.len() as u32 + 1, 0, k as u32 + 1)); } }
    }
    let t = part(d, &hd(DYNAMIC));
    nd::ck(t.len() as u64 == (w.dynamic.len() as u64 + 1) * 2 * ws);
    let g = |i: usize| e.get(t, i * e.w(), e.w());
    for (i, x) in w.dynamic.iter().enumerate() {
        let (tag, val) = (g(2 * i), g(2 * i + 1));
        match *x {
            D::Str(t, s) => { nd::ck_eq(tag, t); string(d, strs.off as usize, val, s); nd::ck(val + (s.len() as u64) < strs.size); }
            D::Int(t, v) => { nd::ck_eq(tag, t); nd::ck_eq(val, v); }
            D::Sec(t, s) => { nd::ck_eq(tag, t); nd::ck_eq(val, hd(s).addr); }
            D::Size(t, s) => { nd::ck_eq(tag, t); nd::ck_eq(val, hd(s).size); }
        }
    }
    nd::ck(g(2 * w.dynamic.len()) == 0 && g(2 * w.dynamic.len() + 1) == 0);
    nd::reach(1);
}
fn is_path(d: &D) -> bool { matches!(d, D::Str(RPATH | RUNPATH, _)) }
const LONG: Str = b"/a/path/longer/than/any/room/there/is/in/the/string/table/of/the/file/that/was/read";
#[derive(Clone, Copy, PartialEq)]
enum Op { Debug, Path, Needed, Soname, Interp, Symbols, Sections }
fn dynamic(op: Op) {
    let e = if nd::tier(0, 1) == 1 { E::any() } else { let b = nd::flag(); E { is64: b, big: b } };
    let ph = e.ph() as u64;
    let slack = img::pick(&[0, ph - 8, 3 * ph]);
    // one more program header overlaps the first note, and two overlap both
    let note = if slack != 0 { 80 } else if matches!(op, Op::Interp | Op::Symbols) && nd::flag() { e.ph() } else { 20 };
    let x = word(e, nd::u64());
    let mut dy = vec![D::Str(NEEDED, b"liba"), D::Str(NEEDED, b"libb")];
    if op == Op::Soname { for _ in 0..nd::below(3) { dy.push(D::Str(SONAME, b"me")); } }
    if op == Op::Path { match nd::below(4) { 0 => {} 1 => dy.push(D::Str(RPATH, b"/r")), 2 => dy.push(D::Str(RUNPATH, b"")), _ => dy.extend([D::Str(RUNPATH, b"/u"), D::Str(RPATH, b"/r")]) } }
    dy.extend([D::Sec(4, HASH), D::Sec(5, DYNSTR), D::Sec(6, DYNSYM), D::Size(10, DYNSTR), D::Int(11, e.sym() as u64), D::Int(30, x)]);
    if op == Op::Debug && nd::flag() { dy.push(D::Int(DEBUG, 7)); }
    let gap = nd::below(if matches!(op, Op::Needed) { 3 } else { 2 }) as u64;
    let last = matches!(op, Op::Soname | Op::Symbols) && nd::flag();
    let one = matches!(op, Op::Soname | Op::Interp) && nd::flag();
    let f = linked(e, dy, slack, gap, note, last, one);
    let d = image(&f);
    let mut o = Options::default();
    let mut w = Want { dynamic: f.dynamic.clone(), interp: v(b"/ld\0"), syms: vec![(b"f", 0), (b"g", 1)], gone: vec![] };
    match op {
        Op::Debug => { o.elf.add_dynamic_debug = nd::flag(); if o.elf.add_dynamic_debug && !w.dynamic.iter().any(|d| matches!(d, D::Int(DEBUG, _))) { w.dynamic.push(D::Int(DEBUG, 0)); } }
        Op::Path => match nd::below(7) {
            0 => { o.elf.delete_runpath = true; w.dynamic.retain(|d| !is_path(d)); }
            1 | 2 => {
                let p: Str = [&b""[..], b"/n", LONG][nd::below(3)];
                o.elf.set_runpath = Some(v(p));
                // deletion comes first
                if nd::flag() { o.elf.delete_runpath = true; w.dynamic.retain(|d| !is_path(d)); }
                let mut any = false;
                for d in &mut w.dynamic { if is_path(d) { any = true; if let D::Str(_, s) = d { *s = p; } } }
                if !any { w.dynamic.push(D::Str(RUNPATH, p)); }
            }
            3 | 4 => {
                let two = nd::flag();
                o.elf.add_runpath = if two { vec![v(b"/x"), v(b"/yy")] } else { vec![v(b"/x")] };
                let mut any = false;
                for d in &mut w.dynamic { if is_path(d) { any = true; if let D::Str(_, s) = d { *s = match (*s, two) { (b"/r", true) => b"/r:/x:/yy", (b"/r", _) => b"/r:/x", (b"/u", true) => b"/u:/x:/yy", (b"/u", _) => b"/u:/x", (_, true) => b"/x:/yy", _ => b"/x" }; } } }
                if !any { w.dynamic.push(D::Str(RUNPATH, if two { b"/x:/yy" } else { b"/x" })); }
            }
            k => {
                let to = if k == 5 { o.elf.use_runpath = true; RUNPATH } else { o.elf.use_rpath = true; RPATH };
                for d in &mut w.dynamic { if is_path(d) { if let D::Str(t, _) = d { *t = to; } } }
            }
        },
        Op::Needed => {
            let (del, rep, add) = (nd::below(4), nd::below(3), nd::below(4));
            if del & 1 != 0 { o.elf.delete_needed.insert(v(b"liba")); w.dynamic.retain(|d| *d != D::Str(NEEDED, b"liba")); }
            if del & 2 != 0 { o.elf.delete_needed.insert(v(b"libx")); }
            if rep != 0 {
                let to: Str = if rep == 1 { b"liba" } else { LONG };
                o.elf.replace_needed.insert(v(b"libb"), v(to));
                for d in &mut w.dynamic { if *d == D::Str(NEEDED, b"libb") { *d = D::Str(NEEDED, to); } }
            }
            let lists: [Vec<Str>; 4] = [vec![], vec![b"liba"], vec![b"libn", b"libm"], vec![b"libn", b"libb"]];
            let list = &lists[add];
            o.elf.add_needed = list.iter().map(|s| v(s)).collect();
            let have: Vec<D> = w.dynamic.clone();
            let mut front: Vec<D> = list.iter().map(|s| D::Str(NEEDED, s)).filter(|d| !have.contains(d)).collect();
            front.extend(have);
            w.dynamic = front;
        }
        Op::Soname => {
            let n: Str = [&b""[..], b"you", LONG][nd::below(3)];
            o.elf.set_soname = Some(v(n));
            let mut any = false;
            for d in &mut w.dynamic { if let D::Str(SONAME, s) = d { *s = n; any = true; } }
            if !any { w.dynamic.push(D::Str(SONAME, n)); }
        }
        Op::Interp => {
            let n: Str = [&b"/l"[..], b"/ld\0", b"/lib/ld", LONG][nd::below(4)];
            o.elf.set_interpreter = Some(v(n));
            w.interp = v(n);
            if *n.last().unwrap() != 0 { w.interp.push(0); }
        }
        Op::Symbols => {
            if nd::flag() { o.delete_symbols.insert(v(b"f")); w.syms.remove(0); }
            match nd::below(4) { 0 => {} 1 => { o.rename_symbols.insert(v(b"g"), v(b"f")); w.syms.last_mut().unwrap().0 = b"f"; } 2 => { o.rename_symbols.insert(v(b"g"), v(LONG)); w.syms.last_mut().unwrap().0 = LONG; }
                _ => { o.rename_symbols.insert(v(b"f"), v(b"h")); if w.syms.len() == 2 { w.syms[0].0 = b"h"; } } }
        }
        Op::Sections => match nd::below(3) {
            0 => { o.delete_sections.insert(v(b".interp")); w.gone.push(INTERP); }
            1 => { o.delete_sections.insert(v(b".hash")); w.gone.push(HASH); w.dynamic.retain(|d| *d != D::Sec(4, HASH)); }
            _ => { o.delete_sections.insert(v(b".nothing")); }
        },
    }
    let mut r = nd::must(Rewriter::read(&d));
    nd::ck(r.elf_interpreter() == Some(b"/ld\0"));
    nd::ck(r.elf_soname() == f.dynamic.iter().find_map(|d| if let D::Str(SONAME, s) = d { Some(*s) } else { None }));
    nd::must(r.modify(o));
    nd::ck(r.elf_runpath() == w.dynamic.iter().find_map(|d| if let D::Str(RPATH | RUNPATH, s) = d { Some(*s) } else { None }));
    nd::ck(r.elf_needed().eq(w.dynamic.iter().filter_map(|d| if let D::Str(NEEDED, s) = d { Some(*s) } else { None })));
    let out = write(r);
    // the dynamic entries stay where they are
    let room = (f.secs[DATA - 1].addr - f.secs[DYNAMIC - 1].addr) / (2 * e.w() as u64);
    if w.dynamic.len() as u64 + 1 > room { nd::ck(out.is_err()); nd::reach(4); return; }
    compare(&f, &nd::must(out), &w);
}

/// a Mach-O object: symbols and sections deleted and renamed
fn macho() {
    let m = M::two();
    const SYMS: [(Str, u8, u64); 3] = [(b"l", 0x0e, 1), (b"_e", 0x0f, 2), (b"_u", 0x01, 0)];
    const SECS: [(Str, Str); 2] = [(b"__text", b"__TEXT"), (b"__data_sixteen_c", b"__DATA")];
    let st: [(u16, u64); 3] = core::array::from_fn(|_| (nd::u16(), nd::u64()));
    let data: [[u8; 4]; 2] = [nd::bytes(), nd::bytes()];
    let addr: [u64; 2] = core::array::from_fn(|_| nd::u32() as u64);
    let mut d = vec![0; m.hdr() + m.seg() + 2 * m.sect() + 24];
    let at = m.hdr();
    let size = m.segment(&mut d, at, 2);
    let o = d.len();
    m.header(&mut d, 7, 1, 2, (size + 24) as u64);
    m.segset(&mut d, at, 2, o as u64);
    m.segset(&mut d, at, 3, 8);
    m.segset(&mut d, at, 1, 8);
    for i in 0..2 {
        let p = at + m.seg() + i * m.sect();
        d[p..p + SECS[i].0.len()].copy_from_slice(SECS[i].0);
        d[p + 16..p + 16 + SECS[i].1.len()].copy_from_slice(SECS[i].1);
        for (k, x) in [(0, addr[i]), (1, 4), (2, (o + 4 * i) as u64)] { m.sectset(&mut d, p, k, x); }
        d.extend_from_slice(&data[i]);
    }
    let so = d.len();
    d.resize(so + 3 * m.nlist(), 0);
    let strs = b"\0l\0_e\0_u\0";
    for (i, off) in [1, 3, 6].into_iter().enumerate() {
        let p = so + i * m.nlist();
        m.put(&mut d, p, 4, off);
        d[p + 4] = SYMS[i].1;
        d[p + 5] = SYMS[i].2 as u8;
        m.put(&mut d, p + 6, 2, st[i].0 as u64);
        m.put(&mut d, p + 8, m.w(), st[i].1);
    }
    let to = d.len();
    d.extend_from_slice(strs);
    m.symtab(&mut d, at + size, so as u64, 3, to as u64, strs.len() as u64);
    // what is asked for
    let mut o = Options::default();
    let mut snames: Vec<Str> = SYMS.iter().map(|s| s.0).collect();
    let mut names: Vec<Str> = SECS.iter().map(|s| s.0).collect();
    let (mut dead, mut gone) = ([false; 3], [false; 2]);
    for i in 0..3 { if nd::flag() { o.delete_symbols.insert(v(SYMS[i].0)); dead[i] = true; } }
    match nd::below(3) { 0 => {} 1 => { o.rename_symbols.insert(v(b"_e"), v(b"_u")); snames[1] = b"_u"; } _ => { o.rename_symbols.insert(v(b"_u"), v(b"")); snames[2] = b""; } }
    let k = nd::below(3);
    if k != 0 { o.delete_sections.insert(v(names[k - 1])); gone[k - 1] = true; }
    let long = match nd::below(4) {
        0 => false,
        1 => { o.rename_sections.insert(v(b"__text"), v(b"")); names[0] = b""; false }
        2 => { o.rename_sections.insert(v(b"__data_sixteen_c"), v(b"__sixteen__bytes")); names[1] = b"__sixteen__bytes"; false }
        _ => { o.rename_sections.insert(v(b"__text"), v(b"__seventeen_bytes")); true }
    };
    let mut r = nd::must(Rewriter::read(&d));
    let ok = r.modify(o);
    if long && !gone[0] { nd::ck(ok.is_err()); nd::reach(2); return; }
    nd::must(ok);
    let out = nd::must(write(r));
    for i in 0..4 { nd::ck_eq(m.u32(&out, 4 * i), m.u32(&d, 4 * i)); }
    let live: Vec<usize> = (0..2).filter(|i| !gone[*i]).collect();
    let (mut segs, mut tab) = (vec![], vec![]);
    let mut at = m.hdr();
    for _ in 0..nd::conc(m.u32(&out, 16)) { match nd::conc(m.u32(&out, at)) { 1 | 0x19 => segs.push(at), 2 => tab.push(at), _ => nd::ck(false) } at += nd::conc(m.u32(&out, at + 4)) as usize; }
    nd::ck(segs.len() == 1 && tab.len() == 1);
    nd::ck_eq(m.segget(&out, segs[0], 6), live.len() as u64);
    for (k, i) in live.iter().enumerate() {
        let p = segs[0] + m.seg() + k * m.sect();
        let name = |o: usize, s: Str| { nd::ck_bytes(&out[o..o + s.len()], s); for i in s.len()..16 { nd::ck(out[o + i] == 0); } };
        name(p, names[*i]);
        name(p + 16, SECS[*i].1);
        nd::ck_eq(m.sectget(&out, p, 0), addr[*i]);
        nd::ck_eq(m.sectget(&out, p, 1), 4);
        let o = nd::conc(m.sectget(&out, p, 2)) as usize;
        nd::ck_bytes(&out[o..o + 4], &data[*i]);
    }
    let f: Vec<usize> = (0..4).map(|i| nd::conc(m.u32(&out, tab[0] + 8 + 4 * i)) as usize).collect();
    let keep: Vec<usize> = (0..3).filter(|i| !dead[*i] && !(SYMS[*i].2 != 0 && gone[SYMS[*i].2 as usize - 1])).collect();
    nd::ck(f[1] == keep.len());
    for (k, i) in keep.iter().enumerate() {
        let p = f[0] + k * m.nlist();
        string(&out[..f[2] + f[3]], f[2], m.u32(&out, p), snames[*i]);
        nd::ck(out[p + 4] == SYMS[*i].1 && out[p + 5] as u64 == live.iter().position(|x| *x as u64 + 1 == SYMS[*i].2).map_or(0, |x| x as u64 + 1));
        nd::ck_eq(m.get(&out, p + 6, 2), st[*i].0 as u64);
        nd::ck_eq(m.get(&out, p + 8, m.w()), if m.is64 { st[*i].1 } else { st[*i].1 & 0xffff_ffff });
    }
    nd::reach(1);
}
/// what a file does not have cannot be changed
fn refused() {
    let e = E::any();
    let m = M::any();
    let mut d = vec![0; if nd::flag() { e.eh() } else { m.hdr() }];
    let elf = d.len() == e.eh();
    if elf { e.ident(&mut d); e.set(&mut d, e.eh_type(), 1);
        let at = e.eh();
        d.resize(at + 2 * e.sh() + 11, 0);
        d[at + 2 * e.sh() + 1..].copy_from_slice(b".shstrtab\0");
        e.section(&mut d, at + e.sh(), 1, 3, (at + 2 * e.sh()) as u64, 11);
        e.sections(&mut d, at as u64, 2, 1);
    } else { m.header(&mut d, 7, 1, 0, 0); }
    let k = nd::below(13);
    if k == 12 { d.resize(80, 0); nd::fill(&mut d[0..4]); nd::assume(!(d[0] == 0x7f && d[1] == b'E') && d[0] & 0xfe != 0xfe && d[0] & 0xfe != 0xce); let n = nd::range(0, 80); nd::ck(Rewriter::read(&d[..n]).is_err()); nd::reach(2); return; }
    let mut r = nd::must(Rewriter::read(&d));
    nd::ck(r.elf_runpath().is_none() && r.elf_soname().is_none() && r.elf_interpreter().is_none() && r.elf_needed().next().is_none());
    let mut o = Options::default();
    let x = &mut o.elf;
    match k {
        0 => x.add_dynamic_debug = true,
        1 => x.delete_runpath = true,
        2 => x.set_runpath = Some(v(b"/a")),
        3 => x.add_runpath = vec![v(b"/a")],
        4 => x.use_runpath = true,
        5 => x.use_rpath = true,
        6 => { x.delete_needed.insert(v(b"a")); }
        7 => { x.replace_needed.insert(v(b"a"), v(b"b")); }
        8 => x.add_needed = vec![v(b"a")],
        9 => x.set_soname = Some(v(b"a")),
        10 => x.set_interpreter = Some(v(b"a")),
        _ => { nd::must(r.modify(o)); if elf { nd::must(write(r)); nd::reach(3); } return; }
    }
    nd::ck(r.modify(o).is_err());
    nd::reach(1);
}

harnesses! {
    /// relocatable file, 3 symbols: any of them deleted, 2 renamed
    /// @reach 1
    fn c31_object_symbols() { relocatable(0) }
    /// relocatable file, 7 sections: any of 4 deleted, any of 3 renamed
    /// @reach 1,2
    fn c31_object_sections() { relocatable(1) }
    /// shared object of 2 classes, 3 sizes of slack: DT_DEBUG added
    /// @reach 1,4
    fn c31_debug() { dynamic(Op::Debug) }
    /// the same: 4 combinations of DT_RPATH and DT_RUNPATH deleted, set, extended, changed
    /// @reach 1,2,4
    fn c31_runpath() { dynamic(Op::Path) }
    /// the same: DT_NEEDED deleted, replaced and added
    /// @reach 1,2,4
    fn c31_needed() { dynamic(Op::Needed) }
    /// the same: DT_SONAME set
    /// @reach 1,2,4,5
    fn c31_soname() { dynamic(Op::Soname) }
    /// the same: interpreter set
    /// @reach 1,2,3
    fn c31_interpreter() { dynamic(Op::Interp) }
    /// the same: dynamic symbols deleted and renamed
    /// @reach 1,2
    fn c31_dynamic_symbols() { dynamic(Op::Symbols) }
    /// the same: sections deleted
    /// @reach 1
    fn c31_sections() { dynamic(Op::Sections) }
    /// Mach-O object, 3 symbols and 2 sections: any deleted, some renamed
    /// @reach 1,2
    fn c31_macho() { macho() }
    /// files with no dynamic table; any first 4 bytes
    /// @reach 1,2,3
    fn c31_refused() { refused() }
}
