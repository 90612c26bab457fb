//! ELF symbol hash tables.
use crate::{harnesses, img::{self, E}, nd};
use nd::Buf;
use object::elf;
use object::read::elf::{FileHeader, GnuHashTable, HashTable, SectionHeader, SymbolTable, VersionTable};
use object::read::{SectionIndex, SymbolIndex};
use object::write::elf::{Encoder, GnuHashTable as Layout};
use object::Endianness;

macro_rules! by_class {
    ($e:expr, $f:ident($($a:expr),*)) => {
        if $e.is64 { $f::<elf::FileHeader64<Endianness>>($($a),*) } else { $f::<elf::FileHeader32<Endianness>>($($a),*) }
    };
}

/// 64-bit little-endian or 32-bit big-endian
fn two() -> E { let x = nd::flag(); E { is64: x, big: !x } }
const NSYM: usize = 4;
struct Img { sym: usize, str: usize, n: usize }
/// dynamic symbols 0..4 with one-byte arbitrary non-NUL names
fn image(l: E, b: &mut [u8]) -> Img {
    let sh = l.eh();
    let sym = (sh + 3 * l.sh() + 7) & !7;
    let str = sym + NSYM * l.sym();
    let n = str + 2 * NSYM;
    l.ident(b);
    l.sections(b, sh as u64, 3, 2);
    l.section(b, sh + l.sh(), 0, 11, sym as u64, (NSYM * l.sym()) as u64);
    l.shset(b, sh + l.sh(), 6, 2);
    l.section(b, sh + 2 * l.sh(), 0, 3, str as u64, 2 * NSYM as u64);
    for i in 1..NSYM {
        l.symset(b, sym + i * l.sym(), 0, 2 * i as u64);
        b[str + 2 * i] = nd::u8();
        nd::assume(b[str + 2 * i] != 0);
    }
    Img { sym, str, n }
}
fn endian(l: E) -> Endianness { if l.big { Endianness::Big } else { Endianness::Little } }
fn symbols<'a, Elf: FileHeader<Endian = Endianness>>(l: E, d: &'a [u8]) -> SymbolTable<'a, Elf> {
    let e = endian(l);
    nd::must(nd::must(nd::must(Elf::parse(d)).sections(e, d)).symbols(e, d, elf::SHT_DYNSYM))
}
#[track_caller]
fn same<S>(r: Option<(SymbolIndex, &S)>, want: Option<u64>, l: E, d: &[u8], m: &Img) {
    nd::ck(r.is_some() == want.is_some());
    if let (Some((i, s)), Some(w)) = (r, want) {
        nd::ck_eq(i.0 as u64, w);
        nd::ck(s as *const S as *const u8 as usize == d.as_ptr() as usize + m.sym + w as usize * l.sym());
    }
}

fn sysv<Elf: FileHeader<Endian = Endianness>>(l: E, d: &[u8], m: &Img, t: &[u8]) {
    let syms = symbols::<Elf>(l, d);
    let e = endian(l);
    let r = HashTable::<Elf>::parse(e, t);
    let ok = t.len() >= 8 && { let (nb, nc) = (l.get(t, 0, 4), l.get(t, 4, 4)); 8 + 4 * nb + 4 * nc <= t.len() as u64 };
    nd::ck(r.is_ok() == ok);
    let Ok(r) = r else { nd::reach(1); return };
    let nb = nd::conc(l.get(t, 0, 4)) as usize;
    let nc = nd::conc(l.get(t, 4, 4)) as usize;
    nd::ck_eq(r.symbol_table_length() as u64, nc as u64);
    let (name, hash) = (nd::bytes::<1>(), nd::u32());
    let got = r.find(e, &name, hash, None, &syms, &VersionTable::default());
    // follow the chain; a chain longer than the table is cyclic
    let mut want = None;
    if nb != 0 {
        let mut y = l.get(t, 8 + 4 * nd::conc_usize(hash as usize % nb), 4);
        for _ in 0..nc {
            let i = nd::conc(if y < 64 { y } else { 64 }) as usize;
            if i == 0 { break; }
            if i < NSYM && d[m.str + 2 * i] == name[0] { want = Some(i as u64); break; }
            if i >= nc { break; }
            y = l.get(t, 8 + 4 * (nb + i), 4);
        }
    }
    same(got, want, l, d, m);
    nd::reach(2);
    if want.is_some() { nd::reach(3); }
}

fn gnu<Elf: FileHeader<Endian = Endianness>>(l: E, d: &[u8], m: &Img, t: &[u8], base: usize) {
    let syms = symbols::<Elf>(l, d);
    let e = endian(l);
    let r = GnuHashTable::<Elf>::parse(e, t);
    let w = l.w();
    let ok = t.len() >= 16 && { let (nb, nf) = (l.get(t, 0, 4), l.get(t, 8, 4)); 16 + 4 * nb + w as u64 * nf <= t.len() as u64 };
    nd::ck(r.is_ok() == ok);
    let Ok(r) = r else { nd::reach(1); return };
    let nb = nd::conc(l.get(t, 0, 4)) as usize;
    let nf = nd::conc(l.get(t, 8, 4)) as usize;
    let shift = l.get(t, 12, 4);
    let buckets = 16 + nf * w;
    let values = buckets + 4 * nb;
    let nv = (t.len() - values) / 4;
    nd::ck_eq(r.symbol_base() as u64, base as u64);
    let (name, hash) = (nd::bytes::<1>(), nd::u32());
    let got = r.find(e, &name, hash, None, &syms, &VersionTable::default());
    let mut want = None;
    let bits = 8 * w as u32;
    // a shift that discards the whole hash is malformed: nothing can be found
    if nf.is_power_of_two() && nb != 0 && shift < 32 {
        let f = l.get(t, 16 + nd::conc_usize((hash / bits) as usize & (nf - 1)) * w, w);
        if f >> (hash % bits) & 1 != 0 && f >> ((hash >> shift) % bits) & 1 != 0 {
            let y = l.get(t, buckets + 4 * nd::conc_usize(hash as usize % nb), 4);
            let mut i = nd::conc(if y < 64 { y } else { 64 }) as usize;
            if i != 0 && i >= base {
                while i < NSYM && i - base < nv {
                    let v = l.get(t, values + 4 * (i - base), 4) as u32;
                    let n: &[u8] = if i == 0 { &[] } else { &d[m.str + 2 * i..m.str + 2 * i + 1] };
                    if v | 1 == hash | 1 && img::eq(n, &name) { want = Some(i as u64); break; }
                    if v & 1 != 0 { break; }
                    i += 1;
                }
            }
        }
    }
    if nf.is_power_of_two() { same(got, want, l, d, m); }
    nd::reach(2);
    if want.is_some() { nd::reach(3); }
}

fn length<Elf: FileHeader<Endian = Endianness>>(l: E, t: &[u8], nb: usize, base: u64) {
    let r = nd::must(GnuHashTable::<Elf>::parse(endian(l), t));
    let mut max = 0;
    for i in 0..nb { let v = l.get(t, 16 + 4 * i, 4); if v > max { max = v; } }
    let values = 16 + 4 * nb;
    let nv = ((t.len() - values) / 4) as u64;
    let mut want = None;
    if nb != 0 && base != 0 && max >= base && max - base < nv {
        let s = nd::conc(max - base);
        for i in s..nv {
            if l.get(t, values + 4 * i as usize, 4) & 1 != 0 { want = Some(base + i + 1); break; }
        }
        if want >= Some(1 << 32) { want = None; }
    }
    nd::ck(r.symbol_table_length(endian(l)).map(|v| v as u64) == want);
    if want.is_some() { nd::reach(1); }
}

fn written<Elf: FileHeader<Endian = Endianness>>(l: E, d: &[u8], m: &Img, gnu: bool, buckets: usize) {
    let syms = symbols::<Elf>(l, d);
    let e = endian(l);
    let enc = Encoder::new(e, l.is64, elf::EM_NONE);
    let nb = buckets as u32;
    let name = |i: u32| &d[m.str + 2 * i as usize..m.str + 2 * i as usize + 1];
    let mut out = Vec::new();
    let q = if nb == 3 { [img::pick(&[b'a' as u64, b'b' as u64, b'c' as u64, b'd' as u64, 0xa4]) as u8] } else { nd::bytes::<1>() };
    let mut want = [false; NSYM];
    for i in 1..NSYM { want[i] = d[m.str + 2 * i] == q[0]; }
    let got;
    if gnu {
        let nf = img::pick(&[1, 2]) as u32;
        let h = |i: u32| elf::gnu_hash(name(i + 1));
        nd::assume(h(0) % nb <= h(1) % nb && h(1) % nb <= h(2) % nb);
        let t = Layout { bucket_count: nb, bloom_count: nf, bloom_shift: img::pick(&[6, 31]) as u32, symbol_base: 1, symbol_count: 3 };
        enc.gnu_hash_table(&mut out, &t, h);
        nd::ck_eq(out.len() as u64, enc.gnu_hash_size(nf, nb, 3));
        let r = nd::must(GnuHashTable::<Elf>::parse(e, &out));
        nd::ck(r.symbol_table_length(e) == Some(4));
        got = r.find(e, &q, elf::gnu_hash(&q), None, &syms, &VersionTable::default()).map(|x| x.0.0);
    } else {
        enc.hash_table(&mut out, nb, 4, |i| if i == 0 { None } else { Some(elf::hash(name(i))) });
        nd::ck_eq(out.len() as u64, enc.hash_size(nb, 4));
        let r = nd::must(HashTable::<Elf>::parse(e, &out));
        nd::ck(r.symbol_table_length() == 4);
        got = r.find(e, &q, elf::hash(&q), None, &syms, &VersionTable::default()).map(|x| x.0.0);
    }
    match got {
        Some(i) => { nd::ck(i < NSYM && want[nd::conc_usize(i)]); nd::reach(1); }
        None => { nd::ck(!want[1] && !want[2] && !want[3]); nd::reach(2); }
    }
}

/// sections: 1 dynsym, 2 strings, 3 versym, 4 verdef (indices 2 and 3, names "x" and "y")
fn versioned<Elf: FileHeader<Endian = Endianness>>(l: E, gnu: bool) {
    let mut b = Buf::<640>::zero();
    let sh = l.eh();
    let sym = (sh + 5 * l.sh() + 7) & !7;
    let str = sym + NSYM * l.sym();
    let (vs, vd) = (str + 8, str + 16);
    let n = vd + 56;
    l.ident(&mut b[..]);
    l.sections(&mut b[..], sh as u64, 5, 2);
    for (i, &(ty, off, size, link, info)) in [(11, sym, NSYM * l.sym(), 2, 1), (3, str, 8, 0, 0), (0x6fff_ffff, vs, 8, 1, 0), (0x6fff_fffd, vd, 56, 2, 2)].iter().enumerate() {
        let at = sh + (i + 1) * l.sh();
        l.section(&mut b[..], at, 0, ty, off as u64, size as u64);
        l.shset(&mut b[..], at, 6, link);
        l.shset(&mut b[..], at, 7, info);
    }
    for (i, c) in [0, b'a', 0, b'x', 0, b'y', 0, 0].into_iter().enumerate() { b[str + i] = c; }
    let mut ver = [0u64; NSYM];
    for i in 1..NSYM {
        l.symset(&mut b[..], sym + i * l.sym(), 0, 1);
        ver[i] = [1, 2, 3, 0x8002][nd::below(if i == 3 { 3 } else { 4 })];
        l.put(&mut b[..], vs + 2 * i, 2, ver[i]);
    }
    let vh = [nd::u8() as u64, nd::u8() as u64];
    for i in 0..2 {
        let o = vd + 28 * i;
        for (x, k, v) in [(0, 2, 1), (4, 2, 2 + i as u64), (6, 2, 1), (8, 4, vh[i]), (12, 4, 20), (16, 4, 28 * (1 - i as u64)), (20, 4, 3 + 2 * i as u64)] { l.put(&mut b[..], o + x, k, v); }
    }
    let d = &b[..n];
    let e = endian(l);
    let s = nd::must(nd::must(Elf::parse(d)).sections(e, d));
    let syms = nd::must(s.symbols(e, d, elf::SHT_DYNSYM));
    let v = nd::some(nd::must(s.versions(e, d)));
    let q = nd::below(3);
    let need = if q == 0 { None } else { nd::must(v.version(elf::VersionIndex(1 + q as u16))) };
    nd::ck(need.is_some() == (q != 0));
    // all three symbols have the same name and are in one chain
    let mut want = None;
    for i in (1..NSYM).rev() {
        let def = ver[i] & 0x7fff;
        let ok = if q == 0 { def < 2 || ver[i] & 0x8000 == 0 } else { def == 1 + q as u64 };
        if ok { want = Some(i as u64); }
    }
    let mut t = Buf::<48>::zero();
    let got = if gnu {
        let hash = nd::u32() & !1;
        let w = l.w();
        for (i, x) in [1, 1, 1, 0].into_iter().enumerate() { l.put(&mut t[..], 4 * i, 4, x); }
        for i in 16..16 + w { t[i] = 0xff; }
        l.put(&mut t[..], 16 + w, 4, 1);
        for i in 0..3 { l.put(&mut t[..], 20 + w + 4 * i, 4, hash as u64 | (i == 2) as u64); }
        let r = nd::must(GnuHashTable::<Elf>::parse(e, &t[..32 + w]));
        r.find(e, b"a", hash, need, &syms, &v)
    } else {
        for (i, x) in [1, 4, 1, 0, 2, 3, 0].into_iter().enumerate() { l.put(&mut t[..], 4 * i, 4, x); }
        let r = nd::must(HashTable::<Elf>::parse(e, &t[..28]));
        r.find(e, b"a", nd::u32(), need, &syms, &v)
    };
    same(got, want, l, d, &Img { sym, str, n });
    if want.is_some() { nd::reach(1); } else { nd::reach(2); }
}

/// sections: 1 and 2 of any of these types, at arbitrary places
fn accessors<Elf: FileHeader<Endian = Endianness>>(l: E) {
    let mut b = Buf::<352>::zero();
    let sh = l.eh();
    let at = sh + 4 * l.sh();
    let n = at + 24;
    l.ident(&mut b[..]);
    l.sections(&mut b[..], sh as u64, 4, 3);
    l.section(&mut b[..], sh + 3 * l.sh(), 0, 3, 0, 1);
    const T: [u64; 3] = [5, 0x6fff_fff6, 1];
    let ty = [T[nd::below(3)], T[nd::below(2)]];
    let off = [at as u64 + [0, 4, 20][nd::below(3)], at as u64 + 4 * nd::below(2) as u64];
    let size = [20, if nd::flag() { 20 } else { 4 }];
    for i in 0..2 {
        l.section(&mut b[..], sh + (i + 1) * l.sh(), 0, ty[i], off[i], size[i]);
        l.shset(&mut b[..], sh + (i + 1) * l.sh(), 6, nd::u32() as u64);
    }
    // small counts, so that either kind of table may or may not fit
    for i in 0..6 { l.put(&mut b[..], at + 4 * i, 4, nd::u8() as u64 & 3); }
    let d = &b[..n];
    let e = endian(l);
    let s = nd::must(nd::must(Elf::parse(d)).sections(e, d));
    let base = d.as_ptr() as usize;
    // (type matches, header, table): None unless the type is the one asked for
    let state = |i: usize, gnu: bool| -> Option<(bool, bool)> {
        if ty[i] != T[gnu as usize] { return None; }
        let inside = off[i] + size[i] <= n as u64;
        let f = |o: u64| l.get(d, (off[i] + o) as usize, 4);
        let hdr = inside && size[i] >= if gnu { 16 } else { 8 };
        let tab = hdr && if gnu { 16 + l.w() as u64 * f(8) + 4 * f(0) <= size[i] } else { 8 + 4 * f(0) + 4 * f(4) <= size[i] };
        Some((hdr, tab))
    };
    macro_rules! each { ($gnu:expr, $header:ident, $table:ident, |$r:ident, $o:ident| $of:expr) => {{
        for i in 0..2 {
            let h = nd::must(s.section(SectionIndex(i + 1)));
            let st = state(i, $gnu);
            match h.$header(e, d) {
                Ok(None) => nd::ck(st.is_none()),
                Ok(Some(x)) => { nd::ck(st.is_some_and(|s| s.0)); nd::ck(x as *const _ as usize == base + off[i] as usize); nd::reach(1); }
                Err(_) => nd::ck(st.is_some_and(|s| !s.0)),
            }
            match h.$table(e, d) {
                Ok(None) => nd::ck(st.is_none()),
                Ok(Some(($r, link))) => { let $o = off[i] as usize; nd::ck(st.is_some_and(|s| s.1)); nd::ck($of); nd::ck_eq(link.0 as u64, l.shget(d, sh + (i + 1) * l.sh(), 6)); nd::reach(2); }
                Err(_) => nd::ck(st.is_some_and(|s| !s.1)),
            }
        }
        // the table gives the first section of the type
        let first = if state(0, $gnu).is_some() { Some(0) } else if state(1, $gnu).is_some() { Some(1) } else { None };
        match (s.$header(e, d), first) {
            (Ok(None), None) => (),
            (Ok(Some(x)), Some(i)) => { nd::ck(nd::some(state(i, $gnu)).0); nd::ck(x as *const _ as usize == base + off[i] as usize); }
            (Err(_), Some(i)) => nd::ck(!nd::some(state(i, $gnu)).0),
            _ => nd::ck(false),
        }
        match (s.$table(e, d), first) {
            (Ok(None), None) => nd::reach(3),
            (Ok(Some(($r, link))), Some(i)) => { let $o = off[i] as usize; nd::ck(nd::some(state(i, $gnu)).1); nd::ck($of); nd::ck_eq(link.0 as u64, l.shget(d, sh + (i + 1) * l.sh(), 6)); }
            (Err(_), Some(i)) => nd::ck(!nd::some(state(i, $gnu)).1),
            _ => nd::ck(false),
        }
    }} }
    if nd::flag() {
        each!(true, gnu_hash_header, gnu_hash, |r, o| r.symbol_base() as u64 == l.get(d, o + 4, 4));
    } else {
        each!(false, hash_header, hash, |r, o| r.symbol_table_length() as u64 == l.get(d, o + 4, 4));
    }
}

harnesses! {
/// SysV and GNU hash of every name of up to 9 (thorough: 16) bytes, against the ABI definitions
fn c09_functions() {
    const N: usize = nd::tier(9, 16);
    let b = nd::bytes::<N>();
    let n = nd::below(N + 1);
    let s = &b[..n];
    let (mut h, mut g) = (0u64, 5381u64);
    for &c in s {
        h = (h << 4) + c as u64;
        let t = h & 0xf000_0000;
        if t != 0 { h ^= t >> 24; }
        h &= !t & 0xffff_ffff;
        g = (g * 33 + c as u64) & 0xffff_ffff;
    }
    nd::ck_eq(elf::hash(s) as u64, h);
    nd::ck_eq(elf::gnu_hash(s) as u64, g);
}

/// SysV table of up to 2 buckets and 3 chain entries with arbitrary contents (including cyclic chains), and counts that do not fit; any name byte and any hash
/// @reach 1,2,3
/// @cost 5
fn c09_sysv() {
    let l = two();
    let mut b = Buf::<400>::zero();
    let m = image(l, &mut b[..]);
    let mut t = Buf::<32>::zero();
    let n = img::pick(&[0, 7, 8, 16, 24, nd::tier(24, 28) as u64]) as usize;
    nd::fill(&mut t[..n]);
    if n >= 8 { nd::assume(l.get(&t[..], 0, 4) <= 2 || l.get(&t[..], 0, 4) >= 0xffff_fff0); }
    let t = &t[..n];
    by_class!(l, sysv(l, &b[..m.n], &m, t))
}

/// GNU filter: 0, 1 or 2 (or an invalid 3) filter words with arbitrary contents, shift 0, 5, 31, 32 or the maximum, any hash; one bucket and one value that match
/// @reach 2,3
/// @cost 5
fn c09_gnu_filter() {
    let l = two();
    let mut b = Buf::<400>::zero();
    let m = image(l, &mut b[..]);
    let mut t = Buf::<64>::zero();
    let nf = nd::below(4);
    let n = 16 + nf * l.w() + 8;
    nd::fill(&mut t[16..n]);
    l.put(&mut t[..], 0, 4, 1);
    l.put(&mut t[..], 4, 4, 1);
    l.put(&mut t[..], 8, 4, nf as u64);
    l.put(&mut t[..], 12, 4, img::pick(&[0, 5, 31, 32, 0xffff_ffff]));
    l.put(&mut t[..], n - 8, 4, 1);
    let t = &t[..n];
    by_class!(l, gnu(l, &b[..m.n], &m, t, 1))
}

/// GNU chains: up to 2 buckets and 2 (thorough: 3) values with arbitrary contents, symbol base 1 or 2; any name byte and hash, filter passing everything
/// @reach 2,3
/// @cost 5
fn c09_gnu() {
    let l = two();
    let mut b = Buf::<400>::zero();
    let m = image(l, &mut b[..]);
    let mut t = Buf::<64>::zero();
    let base = nd::range(1, 2);
    let nb = nd::below(3);
    let at = 16 + l.w();
    let n = at + 4 * nb + 4 * nd::below(nd::tier(3, 4));
    for i in 16..at { t[i] = 0xff; }
    nd::fill(&mut t[at..n]);
    l.put(&mut t[..], 0, 4, nb as u64);
    l.put(&mut t[..], 4, 4, base as u64);
    l.put(&mut t[..], 8, 4, 1);
    let t = &t[..n];
    by_class!(l, gnu(l, &b[..m.n], &m, t, base))
}

/// GNU table header acceptance: table of 0, 15, 16, 24 or 32 arbitrary bytes
/// @reach 1,2
fn c09_gnu_header() {
    let l = two();
    let t = Buf::<32>::any();
    let n = img::pick(&[0, 15, 16, 24, 32]) as usize;
    let t = &t[..n];
    let ok = n >= 16 && 16 + l.w() as u64 * l.get(t, 8, 4) + 4 * l.get(t, 0, 4) <= n as u64;
    let r = if l.is64 { GnuHashTable::<elf::FileHeader64<Endianness>>::parse(endian(l), t).map(|r| r.symbol_base()) } else { GnuHashTable::<elf::FileHeader32<Endianness>>::parse(endian(l), t).map(|r| r.symbol_base()) };
    nd::ck(r.is_ok() == ok);
    if let Ok(b) = r { nd::ck_eq(b as u64, l.get(t, 4, 4)); nd::reach(1); } else { nd::reach(2); }
}

/// symbol table length derived from a GNU table of up to 2 buckets and 3 values with arbitrary contents, symbol base 0, 1, 5 or close to the maximum
/// @reach 1
fn c09_gnu_length() {
    let l = two();
    let mut t = Buf::<64>::zero();
    let nb = nd::below(3);
    let n = 16 + 4 * nb + 4 * nd::below(4);
    nd::fill(&mut t[16..n]);
    let base = img::pick(&[0, 1, 5, 0xffff_fffd, 0xffff_fffe]);
    l.put(&mut t[..], 0, 4, nb as u64);
    l.put(&mut t[..], 4, 4, base);
    let t = &t[..n];
    by_class!(l, length(l, t, nb, base))
}

/// a SysV table written for 3 symbols with one-byte names (one of them arbitrary with 1 or 2 buckets, the others one of three) and 1 to 4 buckets finds exactly the names in it (any one-byte name sought; one of five with 3 buckets)
/// @reach 1,2
/// @cost 5
fn c09_written_sysv() {
    let l = two();
    let mut b = Buf::<400>::zero();
    let m = image(l, &mut b[..]);
    let nb = nd::range(1, 4);
    let free = if nb < 3 { 1 + nd::below(NSYM) } else { NSYM };
    for i in 1..NSYM { if free == NSYM { b[m.str + 2 * i] = img::pick(&[b'a' as u64, b'b' as u64, 0xa4]) as u8; } else if i != free { b[m.str + 2 * i] = b'a' + i as u8; } }
    by_class!(l, written(l, &b[..m.n], &m, false, nb))
}

/// a GNU table written for 3 symbols with one-byte names sorted by bucket (one of them arbitrary with 1 or 2 buckets, the others one of three) and 1 to 4 buckets, 1 or 2 filter words and shift 6 or 31 finds exactly the names in it (any one-byte name sought; one of five with 3 buckets)
/// @reach 1,2
/// @cost 9
fn c09_written_gnu() {
    let l = two();
    let mut b = Buf::<400>::zero();
    let m = image(l, &mut b[..]);
    let nb = nd::range(1, 4);
    let free = if nb < 3 { 1 + nd::below(NSYM) } else { NSYM };
    for i in 1..NSYM { if free == NSYM { b[m.str + 2 * i] = img::pick(&[b'a' as u64, b'b' as u64, 0xa4]) as u8; } else if i != free { b[m.str + 2 * i] = b'a' + i as u8; } }
    by_class!(l, written(l, &b[..m.n], &m, true, nb))
}

/// three symbols of one name in one chain, each with any of four version indices (one of them hidden), two version definitions with arbitrary hashes; any hash, no version or either version asked for
/// @reach 1,2
fn c09_versions() { let (l, g) = (two(), nd::flag()); by_class!(l, versioned(l, g)) }

/// two sections of any of three types at several offsets and sizes inside and beyond the file, linked to any index, with tables of arbitrary small counts
/// @reach 1,2,3
fn c09_sections() { let l = two(); by_class!(l, accessors(l)) }
}
