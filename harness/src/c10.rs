//! ELF dynamic table, symbol versions, notes, properties, attributes, groups, imports and exports.
use crate::{harnesses, img::{self, E}, nd};
use nd::Buf;
use object::elf;
use object::read::elf::{AttributesSection, Dyn, ElfFile, FileHeader, NoteIterator, SectionHeader};
use object::read::{ExportFlags, ExportTarget, ImportFlags, NameOrOrdinal, Object, ObjectComdat, StringTable, SymbolIndex};
use object::Endianness;

macro_rules! by_class {
    ($e:expr, $f:ident($($a:expr),*)) => {
        if $e.is64 { $f::<elf::FileHeader64<Endianness>>($($a),*) } else { $f::<elf::FileHeader32<Endianness>>($($a),*) }
    };
}
fn two() -> E { let x = nd::flag(); E { is64: x, big: !x } }
fn endian(l: E) -> Endianness { if l.big { Endianness::Big } else { Endianness::Little } }
const B: usize = 720;
const STR: usize = 8;
struct Img { b: Buf<B>, n: usize }
/// sections 1.. of (type, size, link, info, contents aligned to 8); section `str` holds the names
fn image(l: E, s: &[(u64, usize, u64, u64)], str: u64) -> (Img, [usize; 8]) {
    let mut b = Buf::<B>::zero();
    l.ident(&mut b[..]);
    let sh = l.eh();
    l.sections(&mut b[..], sh as u64, s.len() as u64 + 1, str);
    let mut at = sh + (s.len() + 1) * l.sh();
    let mut pos = [0; 8];
    for (i, &(ty, size, link, info)) in s.iter().enumerate() {
        at = (at + 7) & !7;
        let h = sh + (i + 1) * l.sh();
        l.section(&mut b[..], h, 0, ty, at as u64, size as u64);
        l.shset(&mut b[..], h, 6, link);
        l.shset(&mut b[..], h, 7, info);
        pos[i + 1] = at;
        at += size;
    }
    (Img { b, n: at }, pos)
}
/// string table "\0", "a".., with two arbitrary non-NUL one-byte names at 1 and 3, and an unterminated tail
fn strings(b: &mut [u8], at: usize) {
    for o in [1, 3] { b[at + o] = nd::u8(); nd::assume(b[at + o] != 0); }
    b[at + 5] = b'z'; b[at + 6] = b'y'; b[at + 7] = b'x';
}
/// the string at an offset: empty, one byte, or an error
fn name_at(b: &[u8], at: usize, off: u64) -> Option<&[u8]> {
    if off >= STR as u64 { return None; }
    img::cstr(b, at as u64 + off, (at + STR) as u64)
}

fn dynamic<Elf: FileHeader<Endian = Endianness>>(l: E) {
    let w = l.w();
    const N: usize = 3;
    let (mut m, p) = image(l, &[(6, N * 2 * w, 2, 0), (3, STR, 0, 0)], 2);
    nd::fill(&mut m.b.0[p[1]..p[1] + N * 2 * w]);
    strings(&mut m.b.0, p[2]);
    // the value of the entry whose string is read is an offset into the table or anything beyond it
    let v = img::pick(&[0, 1, 2, 3, 5, 7, 8, 0x1_0000_0001, !0]) & l.wmask();
    l.put(&mut m.b.0, p[1] + 3 * w, w, v);
    let d = &m.b[..m.n];
    let e = endian(l);
    let s = nd::must(nd::must(Elf::parse(d)).sections(e, d));
    let t = nd::must(s.dynamic_table(e, d));
    nd::ck_eq(t.len() as u64, N as u64);
    let tag = |i: usize| { let v = l.get(d, p[1] + 2 * i * w, w); if l.is64 { v } else { img::sext(v, 32) } };
    let val = |i: usize| l.get(d, p[1] + (2 * i + 1) * w, w);
    let mut it = t.iter();
    let mut i = 0;
    while i < N {
        let x = t.dynamics()[i];
        nd::ck_eq(x.tag(e).0 as u64, tag(i));
        nd::ck_eq(x.val(e), val(i));
        nd::ck(x.tag32(e).map(|v| v as i64 as u64) == if tag(i) == img::sext(tag(i), 32) { Some(tag(i)) } else { None });
        nd::ck(x.val32(e).map(u64::from) == if val(i) >> 32 == 0 { Some(val(i)) } else { None });
        let st = [1, 14, 15, 29, 0x7fff_fffd, 0x7fff_ffff].contains(&tag(i));
        nd::ck(x.is_string(e) == st);
        let a = [3, 4, 5, 6, 7, 12, 13, 17, 21, 23, 25, 26, 32, 34, 0x6fff_fff0, 0x6fff_fffc, 0x6fff_fffe].contains(&tag(i)) || (0x6fff_fe00..=0x6fff_feff).contains(&tag(i));
        nd::ck(x.is_address(e) == a);
        i += 1;
    }
    let mut k = 0;
    while k < N {
        if tag(k) == 0 { break; }
        let x = nd::some(it.next());
        nd::ck_eq(x.tag.0 as u64, tag(k));
        nd::ck_eq(x.val, val(k));
        k += 1;
    }
    nd::ck(it.next().is_none());
    nd::ck(it.next().is_none());
    let x = t.dynamics()[1];
    let got = x.string(e, *t.strings());
    let want = name_at(d, p[2], v);
    nd::ck(got.is_ok() == want.is_some());
    if let (Ok(g), Some(w)) = (got, want) { nd::ck_bytes(g, w); nd::reach(1); }
}

fn needed<Elf: FileHeader<Endian = Endianness>>(l: E) {
    let w = l.w();
    const N: usize = 3;
    let (mut m, p) = image(l, &[(6, N * 2 * w, 2, 0), (3, STR, 0, 0)], 2);
    strings(&mut m.b.0, p[2]);
    for i in 0..N {
        nd::fill(&mut m.b.0[p[1] + 2 * i * w..p[1] + (2 * i + 1) * w]);
        l.put(&mut m.b.0, p[1] + (2 * i + 1) * w, w, if i == 1 { img::pick(&[3, 5]) } else { 1 });
    }
    let d = &m.b[..m.n];
    let f = nd::must(ElfFile::<Elf>::parse(d));
    let mut it = nd::must(f.import_libraries());
    for i in 0..N {
        let tag = l.get(d, p[1] + 2 * i * w, w);
        if tag == 0 { break; }
        if tag != 1 { continue; }
        let x = nd::some(it.next());
        let want = name_at(d, p[2], l.get(d, p[1] + (2 * i + 1) * w, w));
        nd::ck(x.is_ok() == want.is_some());
        if let (Ok(x), Some(n)) = (x, want) { nd::ck_bytes(x.name(), n); nd::reach(1); }
    }
    nd::ck(it.next().is_none());
}

/// a linked list of `hdr`-byte entries in `n` bytes: returns the offsets, and whether it ends in an error
/// (`next_at`: offset of the 4-byte link; an empty rest ends the list)
fn verdefs<Elf: FileHeader<Endian = Endianness>>(l: E, need: bool, auxes: bool) {
    const N: usize = 56;
    let hdr: usize = if need { 16 } else { 20 };
    let aux: usize = if need { 16 } else { 8 };
    let (mut m, p) = image(l, &[(if need { 0x6fff_fffe } else { 0x6fff_fffd }, N, 2, nd::below(3) as u64), (3, STR, 0, 0)], 2);
    let b = p[1];
    // small arbitrary values everywhere but in the links of the first two entries
    for i in 0..N / 4 {
        if i % 3 == 0 { m.b.0[b + 4 * i] = nd::u8() & 3; }
    }
    let next = if auxes { 0 } else { [0, hdr as u64, 24, 40, N as u64, N as u64 + 1, 0xffff_ffff][nd::below(7)] };
    l.put(&mut m.b.0, b + hdr - 4, 4, next);
    let auxo = if auxes { [0, hdr as u64, 36, N as u64, N as u64 + 8, 0xffff_fff0][nd::below(6)] } else { hdr as u64 };
    l.put(&mut m.b.0, b + hdr - 8, 4, auxo);
    if next != 0 && next + (hdr as u64) <= N as u64 {
        l.put(&mut m.b.0, b + next as usize + hdr - 4, 4, [0, 4, 16, 60][nd::below(4)]);
        l.put(&mut m.b.0, b + next as usize + hdr - 8, 4, [0, 60][nd::below(2)]);
    }
    if auxes {
        l.put(&mut m.b.0, b + if need { 2 } else { 6 }, 2, [0, 1, 2, 3, 0xffff][nd::below(5)]);
        if auxo != 0 && auxo + (aux as u64) <= N as u64 { l.put(&mut m.b.0, b + auxo as usize + aux - 4, 4, [0, aux as u64, 12, N as u64, !0][nd::below(5)]); }
    }
    let d = &m.b[..m.n];
    let at = |o: usize, n: usize| l.get(d, b + o, n);
    let e = endian(l);
    let s = nd::must(nd::must(Elf::parse(d)).sections(e, d));
    let base = d.as_ptr() as usize + b;
    // the auxiliary entries of the first definition
    let mut first: Option<()> = None;
    let mut check_aux = |next: &mut dyn FnMut() -> Option<Result<usize, ()>>, start: usize, cnt: u64| {
        if first.is_some() { return; }
        first = Some(());
        let mut o = start;
        let mut i = 0;
        while i < 3 {
            if i >= cnt { nd::ck(next().is_none()); return; }
            let x = nd::some(next());
            let end = o + aux <= N;
            let link = if end { nd::conc(if at(o + aux - 4, 4) <= N as u64 { at(o + aux - 4, 4) } else { !0 }) } else { 0 };
            if !end || link > (N - o) as u64 {
                nd::ck(x.is_err());
                nd::ck(next().is_none());
                nd::reach(1);
                return;
            }
            nd::ck(x == Ok(base + o));
            nd::reach(2);
            o += link as usize;
            i += 1;
        }
    };
    let mut o = 0;
    macro_rules! walk { ($it:expr, $aux:expr) => {{
        let mut it = $it;
        for step in 0..4 {
            let Some(x) = it.next().transpose() else { nd::ck(step > 0); break };
            if o + hdr > N { nd::ck(x.is_err()); nd::ck(it.next().transpose().is_none()); nd::reach(3); break; }
            let next = nd::conc(at(o + hdr - 4, 4));
            let aux = nd::conc(at(o + hdr - 8, 4));
            let bad = next > (N - o) as u64 || aux > (N - o) as u64;
            nd::ck(x.is_err() == bad);
            let Ok((h, mut a)) = x else { nd::ck(it.next().transpose().is_none()); nd::reach(4); break };
            nd::ck(h as *const _ as usize == base + o);
            check_aux(&mut || a.next().transpose().map(|x| x.map(|x| x as *const _ as usize).map_err(|_| ())), o + aux as usize, $aux);
            if next == 0 { nd::ck(it.next().transpose().is_none()); nd::reach(5); break; }
            o += next as usize;
            if o == N { nd::ck(it.next().transpose().is_none()); break; }
            nd::reach(6);
        }
    }} }
    if need {
        let (it, link) = nd::some(nd::must(s.gnu_verneed(e, d)));
        nd::ck_eq(link.0 as u64, 2);
        walk!(it, at(o + 2, 2));
    } else {
        let (it, link) = nd::some(nd::must(s.gnu_verdef(e, d)));
        nd::ck_eq(link.0 as u64, 2);
        walk!(it, at(o + 6, 2));
    }
}

/// sections: 1 dynsym, 2 strings, 3 versym, 4 verdef (two definitions), 5 verneed (one file, two versions)
fn versioned(l: E, nsym: usize) -> (Img, [usize; 8]) {
    let (mut m, p) = image(l, &[(11, nsym * l.sym(), 2, 1), (3, STR, 0, 0), (0x6fff_ffff, 2 * nsym, 1, 0), (0x6fff_fffd, 56, 2, 2), (0x6fff_fffe, 48, 2, 1)], 2);
    let b = &mut m.b.0;
    strings(b, p[2]);
    nd::fill(&mut b[p[3]..p[3] + 2 * nsym]);
    for i in 0..2 {
        let o = p[4] + 28 * i;
        nd::fill(&mut b[o + 8..o + 12]);
        l.put(b, o, 2, 1);
        l.put(b, o + 2, 2, if i == 0 { 1 } else { 0 });
        l.put(b, o + 4, 2, 1 + i as u64);
        l.put(b, o + 6, 2, 1);
        l.put(b, o + 12, 4, 20);
        l.put(b, o + 16, 4, if i == 0 { 28 } else { 0 });
        l.put(b, o + 20, 4, 1);
    }
    l.put(b, p[5], 2, 1);
    l.put(b, p[5] + 2, 2, 2);
    l.put(b, p[5] + 4, 4, 3);
    l.put(b, p[5] + 8, 4, 16);
    for i in 0..2 {
        let o = p[5] + 16 + 16 * i;
        nd::fill(&mut b[o..o + 4]);
        l.put(b, o + 6, 2, 3 + i as u64);
        l.put(b, o + 8, 4, 3);
        l.put(b, o + 12, 4, if i == 0 { 16 } else { 0 });
    }
    (m, p)
}
#[derive(Clone, Copy)]
struct Ver { name: u64, hash: u64, file: Option<u64> }
/// the versions by index, or an error
fn table(l: E, d: &[u8], p: &[usize; 8]) -> Option<[Option<Ver>; 8]> {
    let mut t = [None; 8];
    let bad = |o: u64| name_at(d, p[2], o).is_none();
    for i in 0..2 {
        let o = p[4] + 28 * i;
        if l.get(d, o + 2, 2) & 1 != 0 { continue; }
        let ndx = nd::conc(l.get(d, o + 4, 2)) as usize;
        if ndx < 2 || l.get(d, o + 6, 2) == 0 { continue; }
        let name = l.get(d, o + 20, 4);
        if bad(name) { return None; }
        t[ndx] = Some(Ver { name, hash: l.get(d, o + 8, 4), file: None });
    }
    for i in 0..2 {
        let o = p[5] + 16 + 16 * i;
        let ndx = nd::conc(l.get(d, o + 6, 2) & 0x7fff) as usize;
        if ndx < 2 { continue; }
        let (name, file) = (l.get(d, o + 8, 4), l.get(d, p[5] + 4, 4));
        if bad(name) || bad(file) { return None; }
        t[ndx] = Some(Ver { name, hash: l.get(d, o, 4), file: Some(file) });
    }
    Some(t)
}
fn versions<Elf: FileHeader<Endian = Endianness>>(l: E, mode: usize) {
    let (mut m, p) = versioned(l, 3);
    let b = &mut m.b.0;
    if mode == 0 {
        // any base flag, index and name of the definitions
        for i in 0..2 {
            let o = p[4] + 28 * i;
            let f = nd::u16() as u64 & !1;
            l.put(b, o + 2, 2, f | nd::below(2) as u64);
            l.put(b, o + 4, 2, nd::below(4) as u64);
            l.put(b, o + 20, 4, if i == 1 { img::pick(&[0, 1, 6]) } else { 1 });
        }
    } else {
        for i in 0..2 {
            let o = p[5] + 16 + 16 * i;
            l.put(b, o + 6, 2, nd::below(if i == 0 { 6 } else { 4 }) as u64 | (nd::below(2) as u64) << 15);
            l.put(b, o + 8, 4, if i == 1 { img::pick(&[1, 3, 9]) } else { 1 });
        }
        l.put(b, p[5] + 4, 4, img::pick(&[0, 3, 7]));
    }
    let d = &m.b[..m.n];
    let e = endian(l);
    let s = nd::must(nd::must(Elf::parse(d)).sections(e, d));
    let v = s.versions(e, d);
    let want = table(l, d, &p);
    nd::ck(v.is_ok() == want.is_some());
    let (Ok(v), Some(want)) = (v, want) else { nd::reach(1); return };
    let v = nd::some(v);
    for i in 0..8u16 {
        let got = v.version(elf::VersionIndex(i));
        let w = want[i as usize];
        if i < 2 { nd::ck(matches!(got, Ok(None))); continue; }
        nd::ck(got.is_ok() == w.is_some());
        if let (Ok(g), Some(w)) = (got, w) {
            let g = nd::some(g);
            nd::ck_bytes(g.name(), nd::some(name_at(d, p[2], w.name)));
            nd::ck_eq(g.hash() as u64, w.hash);
            nd::ck(g.file().is_some() == w.file.is_some());
            if let (Some(g), Some(w)) = (g.file(), w.file) { nd::ck_bytes(g, nd::some(name_at(d, p[2], w))); }
            nd::reach(2);
        }
    }
}
fn matches<Elf: FileHeader<Endian = Endianness>>(l: E) {
    let (mut m, p) = versioned(l, 3);
    l.put(&mut m.b.0, p[3] + 2, 2, nd::below(6) as u64 | (nd::below(2) as u64) << 15);
    // one definition (2) and two required versions (3, 4) with arbitrary hashes
    let d = &m.b[..m.n];
    let e = endian(l);
    let s = nd::must(nd::must(Elf::parse(d)).sections(e, d));
    let v = nd::some(nd::must(s.versions(e, d)));
    let t = nd::some(table(l, d, &p));
    let sym = 1 + 3 * nd::below(2);
    let raw = if sym < 3 { l.get(d, p[3] + 2 * sym, 2) } else { 1 };
    nd::ck_eq(v.version_index(e, SymbolIndex(sym)).0 as u64, raw);
    nd::ck_eq(v.version_index(e, SymbolIndex(sym)).index().0 as u64, raw & 0x7fff);
    let def = (raw & 0x7fff) as usize;
    let needi = nd::below(4);
    let need = if needi == 0 { None } else { nd::must(v.version(elf::VersionIndex(needi as u16 + 1))) };
    let want = if def >= 2 && t[if def < 8 { def } else { 0 }].is_none() { false } else {
        match (if def >= 2 { t[def] } else { None }, if needi == 0 { None } else { t[needi + 1] }) {
            (Some(a), Some(b)) => a.hash == b.hash && img::eq(nd::some(name_at(d, p[2], a.name)), nd::some(name_at(d, p[2], b.name))),
            (None, Some(_)) => false,
            (Some(_), None) => raw & 0x8000 == 0,
            (None, None) => true,
        }
    };
    nd::ck(v.matches(e, SymbolIndex(sym), need) == want);
    if want && needi != 0 { nd::reach(1); }
    if !want { nd::reach(2); }
}

fn notes<Elf: FileHeader<Endian = Endianness>>(l: E) where Elf::Word: From<u32> {
    const N: usize = 44;
    let mut m = Buf::<N>::any();
    let n = img::pick(&[0, 11, 12, 24, 28, 44]) as usize;
    let (ns, ds) = (img::pick(&[0, 1, 4, 12, 0xffff_ffff]), img::pick(&[0, 3, 8, 31, 0xffff_fffc]));
    l.put(&mut m.0, 0, 4, ns);
    l.put(&mut m.0, 4, 4, ds);
    let d = &m[..n];
    let align = nd::u32();
    let it = NoteIterator::<Elf>::new(endian(l), align.into(), d);
    nd::ck(it.is_ok() == (align <= 4 || align == 8));
    let Ok(mut it) = it else { nd::reach(1); return };
    let a = if align == 8 { 8u64 } else { 4 };
    let up = |x: u64| (x + a - 1) & !(a - 1);
    let e = endian(l);
    let r = it.next();
    if n == 0 { nd::ck(matches!(r, Ok(None))); return; }
    let dd = up(12 + ns);
    let ok = n >= 12 && img::fits(12, ns, n) && img::fits(dd, ds, n);
    nd::ck(r.is_ok() == ok);
    let Ok(r) = r else { nd::ck(matches!(it.next(), Ok(None))); nd::reach(2); return };
    let r = nd::some(r);
    nd::ck_eq(r.n_namesz(e) as u64, ns);
    nd::ck_eq(r.n_descsz(e) as u64, ds);
    nd::ck_eq(r.n_type(e).0 as u64, l.get(d, 8, 4));
    img::same_slice(r.name_bytes(), d, 12, ns);
    img::same_slice(r.desc(), d, dd, ds);
    let nb = r.name_bytes();
    let mut k = nb.len();
    while k > 0 && nb[k - 1] == 0 { k -= 1; }
    nd::ck_bytes(r.name(), &nb[..k]);
    nd::reach(3);
    let o = up(dd + ds);
    let r = it.next();
    if o >= n as u64 { nd::ck(matches!(r, Ok(None))); return; }
    // the second note is arbitrary
    let o = o as usize;
    if o + 12 > n { nd::ck(r.is_err()); return; }
    let (ns, ds) = (l.get(d, o, 4), l.get(d, o + 4, 4));
    let dd = up(12 + ns);
    let ok = img::fits(12, ns, n - o) && img::fits(dd, ds, n - o);
    nd::ck(r.is_ok() == ok);
    if let Ok(r) = r {
        let r = nd::some(r);
        nd::ck_eq(r.name_bytes().len() as u64, ns);
        img::same_slice(r.desc(), d, o as u64 + dd, ds);
        nd::reach(4);
    }
}

fn properties<Elf: FileHeader<Endian = Endianness>>(l: E) where Elf::Word: From<u32> {
    const N: usize = 48;
    let mut m = Buf::<N>::any();
    let ds = img::pick(&[0, 8, 12, 16, 24, 32]) as usize;
    l.put(&mut m.0, 0, 4, 4);
    l.put(&mut m.0, 4, 4, ds as u64);
    let sz = img::pick(&[0, 3, 4, 8, 16, 0xffff_fff7]);
    l.put(&mut m.0, 20, 4, sz);
    let d = &m[..];
    let e = endian(l);
    let mut it = nd::must(NoteIterator::<Elf>::new(e, 4.into(), d));
    let r = nd::some(nd::must(it.next()));
    let gnu = d[12] == b'G' && d[13] == b'N' && d[14] == b'U' && d[15] == 0 && l.get(d, 8, 4) == 5;
    let it = r.gnu_properties(e);
    nd::ck(it.is_some() == gnu);
    let Some(mut it) = it else { return };
    let a = l.w() as u64;
    let mut o = 0u64;
    for i in 0..3 {
        let r = it.next();
        if o == ds as u64 { nd::ck(matches!(r, Ok(None))); nd::reach(1); return; }
        let h = o as usize + 8 <= ds;
        let n = if h { l.get(d, 16 + o as usize + 4, 4) } else { 0 };
        let next = nd::conc(if h && n < 64 { (o + 8 + n + a - 1) & !(a - 1) } else { 1000 });
        nd::ck(r.is_ok() == (next <= ds as u64));
        let Ok(r) = r else { nd::ck(matches!(it.next(), Ok(None))); nd::reach(2); return };
        let r = nd::some(r);
        nd::ck_eq(r.pr_type().0 as u64, l.get(d, 16 + o as usize, 4));
        img::same_slice(r.pr_data(), d, 16 + o + 8, n);
        let v = r.data_u32(e);
        nd::ck(v.is_ok() == (n >= 4));
        if let Ok(v) = v { nd::ck_eq(v as u64, l.get(d, 24 + o as usize, 4)); }
        o = next;
        nd::reach(3);
        if i == 1 { nd::reach(4); }
    }
}

fn attributes<Elf: FileHeader<Endian = Endianness>>(l: E) {
    const N: usize = 24;
    let mut m = Buf::<N>::any();
    // version, length, vendor "v", tag, length, payload
    let n = img::pick(&[0, 1, 4, 7, 12, 24]) as usize;
    let len = img::pick(&[0, 4, 5, 6, 8, 11, 15, 23, 24, 0xffff_ffff]);
    let len2 = img::pick(&[0, 4, 5, 6, 8, 9, 17, 18, 0xffff_fffe]);
    l.put(&mut m.0, 1, 4, len);
    m.0[6] = 0;
    l.put(&mut m.0, 8, 4, len2);
    let d = &m[..n];
    let e = endian(l);
    let a = nd::must(AttributesSection::<Elf>::new(e, d));
    nd::ck_eq(a.version() as u64, if n == 0 { 0x41 } else { d[0] as u64 });
    let subs = a.subsections();
    nd::ck(subs.is_ok() == (n == 0 || d[0] == 0x41));
    let Ok(mut subs) = subs else { return };
    let s = subs.next();
    if n <= 1 { nd::ck(matches!(s, Ok(None))); return; }
    let vend = if n >= 5 && len >= 4 && img::fits(1, len, n) { img::cstr(d, 5, 1 + len) } else { None };
    nd::ck(s.is_ok() == vend.is_some());
    let Ok(s) = s else { nd::ck(matches!(subs.next(), Ok(None))); nd::reach(1); return };
    let s = nd::some(s);
    let vend = nd::some(vend);
    nd::ck_eq(s.length() as u64, len);
    nd::ck_bytes(s.vendor(), vend);
    let end = 1 + len as usize;
    if end == n { nd::ck(matches!(subs.next(), Ok(None))); }
    let mut ss = s.subsubsections();
    let o = 5 + vend.len() + 1;
    if o != 7 { return; }
    let r = ss.next();
    if o == end { nd::ck(matches!(r, Ok(None))); return; }
    let tag = d[o];
    let base = o + 5 <= end && len2 >= 5 && img::fits(o as u64, len2, end);
    let indices = if !base { None } else if tag == 1 { Some(0) } else if tag == 2 || tag == 3 { img::cstr(d, o as u64 + 5, o as u64 + len2).map(|x| x.len()) } else { None };
    nd::ck(r.is_ok() == indices.is_some());
    let Ok(r) = r else { nd::ck(matches!(ss.next(), Ok(None))); nd::reach(2); return };
    let (r, k) = (nd::some(r), nd::some(indices));
    nd::ck_eq(r.tag().0 as u64, tag as u64);
    nd::ck_eq(r.length() as u64, len2);
    nd::ck_eq(r.indices_data().len() as u64, k as u64);
    let ao = o + 5 + k + if tag == 1 { 0 } else { 1 };
    img::same_slice(r.attributes_data(), d, ao as u64, (o + len2 as usize - ao) as u64);
    if tag != 1 {
        // indices are unsigned LEB128
        img::same_slice(r.indices_data(), d, o as u64 + 5, k as u64);
        let mut it = r.indices();
        let mut i = 0;
        while i < k {
            let mut v = 0u64;
            let mut sh = 0;
            let mut done = false;
            while i < k && !done { v |= ((d[o + 5 + i] & 0x7f) as u64) << sh; done = d[o + 5 + i] < 0x80; sh += 7; i += 1; if sh > 35 { return; } }
            let g = it.next();
            nd::ck(g.is_ok() == (done && v >> 32 == 0));
            let Ok(g) = g else { nd::ck(matches!(it.next(), Ok(None))); return };
            nd::ck_eq(nd::some(g) as u64, v);
            nd::reach(4);
        }
        nd::ck(matches!(it.next(), Ok(None)));
    }
    nd::reach(3);
}

/// two subsections, the first with two sub-subsections, and the values in the last of each
fn attribute_values<Elf: FileHeader<Endian = Endianness>>(l: E) {
    let mut m = Buf::<41>::any();
    m.0[0] = b'A';
    for (at, len) in [(1, 24u64), (25, 16)] { l.put(&mut m.0, at, 4, len); m.0[at + 5] = 0; nd::assume(m[at + 4] != 0); }
    // all of the file, eight bytes; all of the file, ten bytes; the same in the second
    for (at, len) in [(7, 8u64), (15, 10), (31, 10)] { m.0[at] = 1; l.put(&mut m.0, at + 1, 4, len); }
    let d = &m[..];
    let mut subs = nd::must(nd::must(AttributesSection::<Elf>::new(endian(l), d)).subsections());
    let second = nd::flag();
    let s = nd::some(nd::must(subs.next()));
    nd::ck_bytes(s.vendor(), &d[5..6]);
    let mut ss = s.subsubsections();
    let r = nd::some(nd::must(ss.next()));
    img::same_slice(r.attributes_data(), d, 12, 3);
    let mut r = nd::some(nd::must(ss.next()));
    nd::ck(matches!(ss.next(), Ok(None)));
    let mut at = 20;
    if second {
        let s = nd::some(nd::must(subs.next()));
        nd::ck_bytes(s.vendor(), &d[29..30]);
        let mut ss = s.subsubsections();
        r = nd::some(nd::must(ss.next()));
        nd::ck(matches!(ss.next(), Ok(None)) && matches!(subs.next(), Ok(None)));
        at = 36;
    }
    let end = at + 5;
    img::same_slice(r.attributes_data(), d, at as u64, 5);
    let mut a = r.attributes();
    for _ in 0..3 {
        match nd::below(3) {
            2 => {
                let z = img::cstr(d, at as u64, end as u64);
                let v = a.read_string();
                nd::ck(v.is_ok() == z.is_some());
                let Ok(v) = v else { nd::reach(1); return };
                img::same_slice(v, d, at as u64, nd::some(z).len() as u64);
                at += v.len() + 1;
            }
            k => {
                let mut v = 0u64;
                let mut i = at;
                while i < end && d[i] >= 0x80 { v |= ((d[i] & 0x7f) as u64) << (7 * (i - at)); i += 1; }
                let none = k == 0 && at == end;
                let ok = i < end;
                if ok { v |= (d[i] as u64) << (7 * (i - at)); }
                let r = if k == 0 { a.read_tag() } else { a.read_integer().map(Some) };
                if none { nd::ck(matches!(r, Ok(None))); nd::reach(2); return; }
                nd::ck(r.is_ok() == ok);
                let Ok(r) = r else { nd::reach(3); return };
                nd::ck_eq(nd::some(r), v);
                at = i + 1;
            }
        }
    }
    nd::reach(4);
}
fn groups<Elf: FileHeader<Endian = Endianness>>(l: E) {
    let size = img::pick(&[0, 3, 4, 8, 10, 12]) as usize;
    let (mut m, p) = image(l, &[(2, 2 * l.sym(), 2, 1), (3, STR, 0, 0), (17, size, 1, 0)], 2);
    strings(&mut m.b.0, p[2]);
    m.n = p[3] + 12;
    nd::fill(&mut m.b.0[p[3]..p[3] + 12]);
    let h = l.eh() + 3 * l.sh();
    let ty = nd::u32();
    let info = img::pick(&[0, 1, 2, 0xffff_ffff]);
    l.shset(&mut m.b.0, h, 1, ty as u64);
    nd::assume(ty == 17 || ty == 1);
    l.shset(&mut m.b.0, h, 7, info);
    let name = img::pick(&[1, 5]);
    l.symset(&mut m.b.0, p[1] + l.sym(), 0, name);
    let d = &m.b[..m.n];
    let e = endian(l);
    let s = nd::must(nd::must(Elf::parse(d)).sections(e, d));
    let g = nd::must(s.section(object::SectionIndex(3))).group(e, d);
    if ty != 17 { nd::ck(matches!(g, Ok(None))); } else {
        nd::ck(g.is_ok() == (size >= 4 && size % 4 == 0));
        if let Ok(g) = g {
            let (f, v) = nd::some(g);
            nd::ck_eq(f.0 as u64, l.get(d, p[3], 4));
            nd::ck_eq(v.len() as u64, size as u64 / 4 - 1);
            for (i, x) in v.iter().enumerate() { nd::ck_eq(x.get(e) as u64, l.get(d, p[3] + 4 + 4 * i, 4)); }
            nd::reach(1);
        }
    }
    let f = nd::must(ElfFile::<Elf>::parse(d));
    let mut it = f.comdats();
    if ty == 17 && size >= 4 && size % 4 == 0 && l.get(d, p[3], 4) & 1 != 0 {
        let c = nd::some(it.next());
        nd::ck_eq(c.symbol().0 as u64, info);
        nd::ck(matches!(c.kind(), object::ComdatKind::Any));
        let n = c.name_bytes();
        nd::ck(n.is_ok() == (info == 1 && name == 1));
        if let Ok(n) = n { nd::ck_bytes(n, &d[p[2] + 1..p[2] + 2]); }
        let mut k = 0;
        for x in c.sections() { nd::ck_eq(x.0 as u64, l.get(d, p[3] + 4 + 4 * k, 4)); k += 1; }
        nd::ck_eq(k as u64, size as u64 / 4 - 1);
        nd::reach(2);
    }
    nd::ck(it.next().is_none());
}

/// the version name of a symbol, and the file it is needed from; Err for an index without a version
fn version_of<'a>(l: E, d: &'a [u8], p: &[usize; 8], t: &[Option<Ver>; 8], sym: usize) -> Result<(Option<&'a [u8]>, Option<&'a [u8]>), ()> {
    let i = nd::conc(l.get(d, p[3] + 2 * sym, 2) & 0x7fff) as usize;
    if i < 2 { return Ok((None, None)); }
    match t[i & 7] {
        Some(v) if i < 8 => Ok((name_at(d, p[2], v.name), v.file.map(|f| name_at(d, p[2], f).unwrap()))),
        _ => Err(()),
    }
}
#[track_caller]
fn opt_eq(a: Option<&[u8]>, b: Option<&[u8]>) {
    nd::ck(a.is_some() == b.is_some());
    if let (Some(a), Some(b)) = (a, b) { nd::ck_bytes(a, b); }
}
fn symbols_image(l: E) -> (Img, [usize; 8]) {
    let (mut m, p) = versioned(l, 3);
    let s = l.sym();
    nd::fill(&mut m.b.0[p[1] + s..p[1] + 3 * s]);
    l.symset(&mut m.b.0, p[1] + s, 0, 1);
    l.symset(&mut m.b.0, p[1] + 2 * s, 0, img::pick(&[0, 3, 5]));
    l.put(&mut m.b.0, p[3] + 2, 2, 2);
    l.put(&mut m.b.0, p[3] + 4, 2, img::pick(&[0, 0x8001, 2, 0x8003, 0x8002, 4, 5]));
    (m, p)
}
fn imports<Elf: FileHeader<Endian = Endianness>>(l: E) {
    let (m, p) = symbols_image(l);
    let d = &m.b[..m.n];
    let f = nd::must(ElfFile::<Elf>::parse(d));
    let t = nd::some(table(l, d, &p));
    let mut it = nd::must(f.imports());
    for i in 1..3 {
        let o = p[1] + i * l.sym();
        if l.symget(d, o, 3) != 0 { continue; }
        let n = name_at(d, p[2], l.symget(d, o, 0));
        if let Some(n) = n { if n.is_empty() { continue; } }
        let x = nd::some(it.next());
        let v = version_of(l, d, &p, &t, i);
        nd::ck(x.is_ok() == (n.is_some() && v.is_ok()));
        let (Ok(x), Some(n), Ok((v, file))) = (x, n, v) else { nd::reach(1); continue };
        match x.name() { NameOrOrdinal::Name(g) => nd::ck_bytes(g, n), _ => nd::ck(false) }
        nd::ck_bytes(x.library(), file.unwrap_or(&[]));
        let info = l.symget(d, o, 1);
        nd::ck(x.is_weak() == (info >> 4 == 2));
        match x.flags() {
            ImportFlags::Elf { st_info, st_other, version } => {
                nd::ck_eq(st_info.0 as u64, info);
                nd::ck_eq(st_other.0 as u64, l.symget(d, o, 2));
                opt_eq(version, v);
            }
            _ => nd::ck(false),
        }
        nd::reach(2);
    }
    nd::ck(it.next().is_none());
}
fn exports<Elf: FileHeader<Endian = Endianness>>(l: E) {
    let (m, p) = symbols_image(l);
    let d = &m.b[..m.n];
    let f = nd::must(ElfFile::<Elf>::parse(d));
    let t = nd::some(table(l, d, &p));
    let mut it = nd::must(f.exports());
    for i in 1..3 {
        let o = p[1] + i * l.sym();
        let (info, shndx, value) = (l.symget(d, o, 1), l.symget(d, o, 3), l.symget(d, o, 4));
        if info >> 4 == 0 || shndx == 0 || (shndx >= 0xff00 && shndx != 0xfff1 && shndx != 0xffff) { continue; }
        let ty = info & 15;
        if !(ty <= 2 || ty == 6 || ty == 10) { continue; }
        let n = name_at(d, p[2], l.symget(d, o, 0));
        let x = nd::some(it.next());
        let v = version_of(l, d, &p, &t, i);
        nd::ck(x.is_ok() == (n.is_some() && v.is_ok()));
        let (Ok(x), Some(n), Ok((v, _))) = (x, n, v) else { nd::reach(1); continue };
        match x.name() { NameOrOrdinal::Name(g) => nd::ck_bytes(g, n), _ => nd::ck(false) }
        match x.target() {
            ExportTarget::Address { address } => { nd::ck(ty <= 2 && shndx != 0xfff1); nd::ck_eq(address, value); }
            ExportTarget::Absolute { value: a } => { nd::ck(ty <= 2 && shndx == 0xfff1); nd::ck_eq(a, value); }
            ExportTarget::Tls { offset } => { nd::ck(ty == 6); nd::ck_eq(offset, value); }
            ExportTarget::Resolver { resolver, stub } => { nd::ck(ty == 10 && stub.is_none()); nd::ck_eq(resolver, value); }
            _ => nd::ck(false),
        }
        nd::ck(x.is_weak() == (info >> 4 == 2));
        match x.flags() {
            ExportFlags::Elf { st_info, st_other, version, version_hidden } => {
                nd::ck_eq(st_info.0 as u64, info);
                nd::ck_eq(st_other.0 as u64, l.symget(d, o, 2));
                opt_eq(version, v);
                nd::ck(version_hidden == (l.get(d, p[3] + 2 * i, 2) & 0x8000 != 0));
            }
            _ => nd::ck(false),
        }
        nd::reach(2);
    }
    nd::ck(it.next().is_none());
}
/// sizes of the optional tables: entry counts, alignment, wrong section types
fn tables<Elf: FileHeader<Endian = Endianness>>(l: E) {
    let size = img::pick(&[0, 1, 2, 4, 5, 6]);
    let (mut m, p) = image(l, &[(0x6fff_ffff, size as usize, 2, 0), (3, STR, 0, 0)], 2);
    let off = p[1] as u64 + img::pick(&[0, 1, 64, 1 << 31]);
    l.shset(&mut m.b.0, l.eh() + l.sh(), 4, off);
    let ty = nd::u32();
    l.shset(&mut m.b.0, l.eh() + l.sh(), 1, ty as u64);
    m.n += 8;
    let d = &m.b[..m.n];
    let e = endian(l);
    let s = nd::must(nd::must(Elf::parse(d)).sections(e, d));
    let r = nd::must(s.section(object::SectionIndex(1))).gnu_versym(e, d);
    if ty != 0x6fff_ffff { nd::ck(matches!(r, Ok(None))); return; }
    let ok = size % 2 == 0 && (size == 0 || img::fits(off, size, d.len()));
    nd::ck(r.is_ok() == ok);
    if let Ok(r) = r {
        let (v, link) = nd::some(r);
        nd::ck_eq(link.0 as u64, 2);
        nd::ck_eq(v.len() as u64, size / 2);
        for (i, x) in v.iter().enumerate() { nd::ck_eq(x.0.get(e).0 as u64, l.get(d, off as usize + 2 * i, 2)); }
        nd::reach(1);
    }
    let _ = StringTable::<&[u8]>::default();
}

harnesses! {
    /// dynamic section of 3 arbitrary entries; entry 1's value one of 9 string offsets; both classes and byte orders
    fn c10_dynamic() { let l = E::any(); by_class!(l, dynamic(l)); nd::reach(1); }
    /// 3 dynamic entries with arbitrary tags, string offsets valid or not; 64-bit LE and 32-bit BE
    /// @reach 1
    fn c10_needed() { let l = two(); by_class!(l, needed(l)); }
    /// 56-byte version definition section: first link 7 values, second entry's links 4 x 2 values
    /// @reach 3,4,5,6
    fn c10_verdef() { let l = two(); by_class!(l, verdefs(l, false, false)); }
    /// one version definition: auxiliary offset 6 values, count 5 values, first auxiliary link 5 values
    /// @reach 1,2
    fn c10_verdaux() { let l = two(); by_class!(l, verdefs(l, false, true)); }
    /// 56-byte version requirement section, as c10_verdef
    /// @reach 3,4,5,6
    fn c10_verneed() { let l = two(); by_class!(l, verdefs(l, true, false)); }
    /// one version requirement, as c10_verdaux
    /// @reach 1,2
    fn c10_vernaux() { let l = two(); by_class!(l, verdefs(l, true, true)); }
    /// two definitions with any flags, hash, index below 4 and 3 name offsets
    /// @reach 1,2
    fn c10_versions_def() { let l = two(); by_class!(l, versions(l, 0)); }
    /// two required versions with any hash and hidden bit, index below 6 and 4, 3 name and 3 file offsets
    /// @reach 1,2
    fn c10_versions_need() { let l = two(); by_class!(l, versions(l, 1)); }
    /// any version index below 6 with any hidden bit against each required version or none
    /// @reach 1,2
    fn c10_matches() { let l = two(); by_class!(l, matches(l)); }
    /// note sections of 6 sizes up to 44 bytes; first note's sizes from 5 x 5 values, the second note arbitrary, any alignment
    /// @reach 1,2,3,4
    fn c10_notes() { let l = two(); by_class!(l, notes(l)); }
    /// property notes of 6 sizes up to 32 bytes, first property size from 6 values, following ones arbitrary
    /// @reach 1,2,3,4
    fn c10_properties() { let l = two(); by_class!(l, properties(l)); }
    /// attribute sections of 6 sizes up to 24 bytes, 10 x 9 length values, arbitrary contents
    /// @reach 1,2,3,4
    fn c10_attributes() { let l = two(); by_class!(l, attributes(l)); }
    /// two subsections with two and one sub-subsections, three values of any kind from five arbitrary bytes
    /// @reach 1,2,3,4
    fn c10_attribute_values() { let l = two(); by_class!(l, attribute_values(l)); }
    /// group sections of 6 sizes with arbitrary flags and members
    /// @reach 1,2
    fn c10_groups() { let l = two(); by_class!(l, groups(l)); }
    /// two dynamic symbols, arbitrary except for the name offsets and version indices of the second (3 x 6 values)
    /// @reach 1,2
    fn c10_imports() { let l = two(); by_class!(l, imports(l)); }
    /// as c10_imports
    /// @reach 1,2
    fn c10_exports() { let l = two(); by_class!(l, exports(l)); }
    /// version symbol section of any type, 6 sizes and 4 offsets
    /// @reach 1
    fn c10_versym() { let l = two(); by_class!(l, tables(l)); }
}
