//! PE images: exported and imported symbols, forwarders, ordinals, delay-loaded libraries, resources.
use crate::{harnesses, img, nd};
use img::P;
use nd::Buf;
use object::endian::LittleEndian as LE;
use object::pe;
use object::read::pe::*;
use object::read::{self, NameOrOrdinal, Object};

macro_rules! by_class {
    ($is64:expr, $f:ident($($a:expr),*)) => { if $is64 { $f::<pe::ImageNtHeaders64>($($a),*) } else { $f::<pe::ImageNtHeaders32>($($a),*) } };
}
fn put(b: &mut [u8], off: usize, n: usize, v: u64) { img::put(b, off, n, v, false) }
fn get(b: &[u8], off: usize, n: usize) -> u64 { img::get(b, off, n, false) }
fn put4(b: &mut [u8], off: usize, v: &[u64]) { for (i, &x) in v.iter().enumerate() { put(b, off + 4 * i, 4, x); } }
const VA: u64 = 0x2000;

// ---- export table ----
/// directory acceptance: tables must lie within the directory's data
fn export_parse() {
    let mut b = Buf::<96>::any();
    let len = [39, 40, 56, 96][nd::below(4)];
    let (base, nf, nn) = (nd::u32() as u64, img::pick(&[0, 1, 4, 5, 0xffff_ffff]), img::pick(&[0, 1, 4, 0xffff_ffff]));
    let (af, an, ao) = (img::pick(&[0, VA + 40, VA + 80, VA - 4]), img::pick(&[0, VA + 40, VA + 92]), img::pick(&[0, VA + 44, VA + 90]));
    put4(&mut b.0, 16, &[base, nf, nn, af, an, ao]);
    let d = &b.0[..len];
    let table = |a: u64, n: u64, w: u64| img::fits(a.wrapping_sub(VA) & 0xffff_ffff, n * w, len);
    let ok = len >= 40 && base <= 0xffff
        && (af == 0 || (nf <= 0x1_0000 - base && table(af, nf, 4)))
        && (an == 0 || (ao != 0 && table(an, nn, 4) && table(ao, nn, 2)));
    let r = ExportTable::parse(d, VA as u32);
    nd::ck(r.is_ok() == ok);
    nd::ck(ExportTable::parse_directory(d).is_ok() == (len >= 40));
    let Ok(t) = r else { nd::reach(1); return };
    let (nf, nn) = (if af == 0 { 0 } else { nf }, if an == 0 { 0 } else { nn });
    nd::ck_eq(t.ordinal_base() as u64, base);
    nd::ck_eq(t.addresses().len() as u64, nf);
    nd::ck_eq(t.name_pointers().len() as u64, nn);
    nd::ck_eq(t.name_ordinals().len() as u64, nn);
    nd::ck_eq(t.directory().name.get(LE) as u64, get(d, 12, 4));
    nd::ck_eq(t.directory().time_date_stamp.get(LE) as u64, get(d, 4, 4));
    // an index and an ordinal name the same entry
    let i = nd::u16();
    let r = t.ordinal_from_index(ExportAddressIndex(i));
    nd::ck(r.is_ok() == ((i as u64) < nf));
    if let Ok(o) = r { nd::ck_eq(o.0 as u64, base + i as u64); }
    let o = nd::u16();
    let r = t.index_from_ordinal(ExportOrdinal(o));
    nd::ck(r.is_ok() == (o as u64 >= base && (o as u64) < base + nf));
    if let Ok(i) = r { nd::ck_eq(i.0 as u64 + base, o as u64); }
    nd::reach(2);
}
/// a table of `n` addresses at 40, `k` names at 56 with indices at 68, strings from 76
fn table(b: &mut [u8], base: u64, n: usize, k: usize) {
    put4(b, 16, &[base, n as u64, k as u64, VA + 40, VA + 56, VA + 68]);
}
fn export_lookup() {
    let mut b = Buf::<96>::any();
    let base = img::pick(&[0, 1, 0xfffd]);
    table(&mut b.0, base, 3, 2);
    let d = &b.0[..];
    let t = nd::must(ExportTable::parse(d, VA as u32));
    let mut k = 0;
    for (i, o, a) in t.address_iter() {
        nd::ck(i.0 as usize == k && o.0 as u64 == base + k as u64 && a as u64 == get(d, 40 + 4 * k, 4));
        nd::ck(t.address_by_index(i) == Ok(a) && t.address_by_ordinal(o) == Ok(a));
        k += 1;
    }
    nd::ck(k == 3 && t.address_by_index(ExportAddressIndex(3)).is_err());
    let mut k = 0;
    for (p, i) in t.name_iter() {
        nd::ck(p as u64 == get(d, 56 + 4 * k, 4) && i.0 as u64 == get(d, 68 + 2 * k, 2));
        k += 1;
    }
    nd::ck(k == 2);
    let p = img::pick(&[VA + 76, VA + 90, VA + 95, VA + 96, VA - 1, 0]);
    let want = img::cstr(d, (p.wrapping_sub(VA)) & 0xffff_ffff, 96);
    let r = t.name_from_pointer(p as u32);
    nd::ck(r.is_ok() == want.is_some());
    if let (Ok(r), Some(w)) = (r, want) { nd::ck_bytes(r, w); nd::reach(1); }
}
enum T<'a> { Addr(u64), Name(&'a [u8], &'a [u8]), Ord(&'a [u8], u64), Bad }
/// what a table entry designates
fn target(d: &[u8], addr: u64) -> T<'_> {
    let k = addr.wrapping_sub(VA) & 0xffff_ffff;
    if k >= d.len() as u64 { return T::Addr(addr); }
    let Some(s) = img::cstr(d, k, d.len() as u64) else { return T::Bad };
    let mut dot = None;
    for (i, &c) in s.iter().enumerate() { if c == b'.' { dot = Some(i); } }
    let Some(dot) = dot else { return T::Bad };
    let dot = nd::conc_usize(dot);
    let (lib, name) = (&s[..dot], &s[dot + 1..]);
    if name.is_empty() { return T::Bad; }
    if name[0] != b'#' { return T::Name(lib, name); }
    let mut v = 0u64;
    for &c in &name[1..] {
        if c < b'0' || c > b'9' { return T::Bad; }
        v = 10 * v + (c - b'0') as u64;
    }
    if name.len() == 1 || v > 0xffff { T::Bad } else { T::Ord(lib, v) }
}
fn same_target(r: Result<ExportTarget, read::Error>, w: T) {
    nd::ck(r.is_err() == matches!(w, T::Bad));
    if let Ok(x) = &r { nd::ck(x.is_address() == matches!(w, T::Addr(_)) && x.is_forward() != x.is_address()); }
    match (r, w) {
        (Ok(ExportTarget::Address(a)), T::Addr(x)) => { nd::ck_eq(a as u64, x); nd::reach(1); }
        (Ok(ExportTarget::ForwardByName(l, n)), T::Name(x, y)) => { nd::ck_bytes(l, x); nd::ck_bytes(n, y); nd::reach(2); }
        (Ok(ExportTarget::ForwardByOrdinal(l, o)), T::Ord(x, y)) => { nd::ck_bytes(l, x); nd::ck_eq(o.0 as u64, y); nd::reach(3); }
        (r, _) => nd::ck(r.is_err()),
    }
}
fn export_target(digits: bool) {
    const N: usize = 56;
    let mut b = Buf::<N>::zero();
    put4(&mut b.0, 16, &[1, 1, 0, VA + 40, 0, 0]);
    if digits {
        b.0[44] = b'a';
        b.0[45] = b'.';
        b.0[46] = b'#';
        let n = nd::below(nd::tier(7, 8));
        for i in 0..n { b.0[47 + i] = nd::u8(); nd::assume(b.0[47 + i] != b'.'); }
    } else {
        let n = nd::below(nd::tier(6, 7));
        nd::fill(&mut b.0[44..44 + n]);
    }
    let addr = if digits { VA + 44 } else { [VA + 44, VA + 45, VA + 55, VA + 56, VA - 1][nd::below(5)] };
    put(&mut b.0, 40, 4, addr);
    let d = &b.0[..];
    let t = nd::must(ExportTable::parse(d, VA as u32));
    nd::ck(t.is_forward(addr as u32) == (addr >= VA && addr < VA + N as u64));
    let w = target(d, addr);
    let (a, o) = (t.target_by_index(ExportAddressIndex(0)), t.target_by_ordinal(ExportOrdinal(1)));
    nd::ck(a.is_ok() == o.is_ok());
    same_target(a, w);
}
/// an address inside the directory's data designates a forwarder, any other an address
fn export_forward_range() {
    let mut b = Buf::<48>::zero();
    put4(&mut b.0, 16, &[1, 1, 0, VA + 40, 0, 0]);
    nd::fill(&mut b.0[40..44]);
    let d = &b.0[..];
    let t = nd::must(ExportTable::parse(d, VA as u32));
    let a = get(d, 40, 4) as u32;
    nd::ck(t.is_forward(a) == (a as u64 >= VA && (a as u64) < VA + 48));
    nd::assume(!t.is_forward(a));
    nd::ck(matches!(t.target_by_index(ExportAddressIndex(0)), Ok(ExportTarget::Address(x)) if x == a));
    nd::reach(1);
}
/// addresses, names and indices of the generic and the full listing
const EN: usize = 512;
fn exports<Pe: ImageNtHeaders>(is64: bool) {
    let mut b = Buf::<EN>::zero();
    let p = P { is64, nt: 64, dirs: 1 };
    p.header(&mut b.0, 1);
    nd::fill(&mut b.0[p.opt() + 28..p.opt() + 32]);
    let at = 400;
    p.section(&mut b.0, 0, VA, 0x1000, at as u64, 112);
    p.set_dir(&mut b.0, 0, VA, 100);
    let base = nd::below(2) as u64 * 7;
    table(&mut b.0[at..], base, 3, 2);
    let addr = [img::pick(&[0, 0x1234]), img::pick(&[0x1111, VA + 80]), 0x9999_9999];
    put4(&mut b.0, at + 40, &addr);
    let (n0, n1) = (img::pick(&[VA + 76, VA + 100, VA + 99]), VA + 78);
    put4(&mut b.0, at + 56, &[n0, n1]);
    let idx = [nd::below(4), nd::below(3)];
    for i in 0..2 { put(&mut b.0, at + 68 + 2 * i, 2, idx[i] as u64); }
    b.0[at + 76..at + 86].copy_from_slice(b"x\0yz\0.w\0.\0");
    b.0[at + 80] = nd::u8();
    nd::assume(b.0[at + 80] != b'.');
    let d = &b.0[..];
    let e = &d[at..at + 100];
    let f = nd::must(PeFile::<Pe>::parse(d));
    let ib = if is64 { get(d, p.opt() + 24, 8) } else { get(d, p.opt() + 28, 4) };
    let t = nd::some(nd::must(f.export_table()));
    // one entry per address, named by whichever name refers to it last
    let mut want = [None; 3];
    let mut bad = false;
    for a in addr { if matches!(target(e, a), T::Bad) { bad = true; } }
    for i in 0..2 {
        let s = img::cstr(e, [n0, n1][i] - VA, 100);
        if idx[i] > 2 || s.is_none() { bad = true; } else { want[idx[i]] = s; }
    }
    let r = t.exports();
    nd::ck(r.is_err() == bad);
    if let Ok(r) = r {
        nd::ck(r.len() == 3);
        for i in 0..3 {
            nd::ck(r[i].ordinal.0 as u64 == base + i as u64 && r[i].name.is_some() == want[i].is_some());
            if let (Some(x), Some(y)) = (r[i].name, want[i]) { nd::ck_bytes(x, y); }
            same_target(Ok(r[i].target), target(e, addr[i]));
        }
        nd::reach(4);
    }
    // names first, then the nonzero addresses no name refers to
    let mut it = nd::must(f.exports());
    let mut seen = [false; 3];
    for i in 0..5 {
        let k = if i < 2 { idx[i] } else { i - 2 };
        if i >= 2 && (seen[k] || addr[k] == 0) { continue; }
        let r = nd::some(it.next());
        let s = if i < 2 { img::cstr(e, [n0, n1][i] - VA, 100) } else { None };
        if i < 2 && k < 3 { seen[k] = true; }
        if k > 2 || (i < 2 && s.is_none()) || matches!(target(e, addr[k]), T::Bad) { nd::ck(r.is_err()); nd::reach(5); continue; }
        let x = nd::must(r);
        parts(x.name());
        match (x.name(), s) {
            (NameOrOrdinal::Name(a), Some(s)) => nd::ck_bytes(a, s),
            (NameOrOrdinal::Ordinal(o), None) => nd::ck_eq(o as u64, base + k as u64),
            _ => nd::ck(false),
        }
        nd::ck(!x.is_weak());
        let read::ExportFlags::Pe { ordinal } = x.flags() else { nd::ck(false); return };
        nd::ck_eq(ordinal.0 as u64, base + k as u64);
        match (x.target(), target(e, addr[k])) {
            (read::ExportTarget::Address { address }, T::Addr(a)) => nd::ck_eq(address, ib.wrapping_add(a)),
            (read::ExportTarget::Reexport { library, name: NameOrOrdinal::Name(n) }, T::Name(l, m)) => { nd::ck_bytes(library, l); nd::ck_bytes(n, m); nd::reach(6); }
            _ => nd::ck(false),
        }
    }
    nd::ck(it.next().is_none());
}

// ---- imports ----
const IN: usize = 640;
const AT: usize = 448;
/// an image with the section `VA` at AT and, if `split`, a second one for names
fn imports_image<Pe: ImageNtHeaders>(is64: bool, split: bool) -> (Buf<IN>, P) {
    let mut b = Buf::<IN>::zero();
    let p = P { is64, nt: 64, dirs: 14 };
    p.header(&mut b.0, 1 + split as usize);
    if split {
        p.section(&mut b.0, 0, VA, 0x100, AT as u64, 128);
        p.section(&mut b.0, 1, 0x3000, 0x100, AT as u64 + 128, 64);
    } else {
        p.section(&mut b.0, 0, VA, 0x1000, AT as u64, 192);
    }
    (b, p)
}
/// the bytes at an address in the section starting at `VA` or the names' section
fn string(d: &[u8], split: bool, addr: u64) -> Option<&[u8]> {
    let (va, lo, hi) = if split { (0x3000, AT + 128, AT + 192) } else { (VA, AT, AT + 192) };
    if addr < va || addr - va > (hi - lo) as u64 { return None; }
    img::cstr(d, lo as u64 + addr - va, hi as u64)
}
fn name_at(split: bool, k: u64) -> u64 { (if split { 0x3000 } else { VA + 128 }) + k }
/// one library's thunks: kind of each and how the listing ends
fn imports<Pe: ImageNtHeaders>(is64: bool, split: bool, delay: bool) {
    let (mut b, p) = imports_image::<Pe>(is64, split);
    let w = if is64 { 8 } else { 4 };
    let flag = 1u64 << (8 * w - 1);
    p.set_dir(&mut b.0, if delay { 13 } else { 1 }, VA, img::pick(&[0, 20]));
    let (first, orig) = (VA + 72, if delay || nd::flag() { VA + 96 } else { 0 });
    let lib = img::pick(&[name_at(split, 0), name_at(split, 63)]);
    let at = (if orig == 0 { first } else { orig } - VA) as usize + AT;
    if delay { put4(&mut b.0, AT, &[1, lib, nd::u32() as u64, first, orig, nd::u32() as u64, nd::u32() as u64, nd::u32() as u64]); }
    else { put4(&mut b.0, AT, &[orig, nd::u32() as u64, nd::u32() as u64, lib, first]); }
    nd::fill(&mut b.0[AT + 128..AT + 131]);
    b.0[AT + 132..AT + 140].copy_from_slice(b"\x05\x06fg\0\x07\0\0");
    b.0[AT + 191] = nd::u8();
    let mut thunks = [0u64; 2];
    for i in 0..2 {
        let v = match nd::below(3) { 0 => 0, 1 => flag | nd::u16() as u64, _ => img::pick(&[name_at(split, 4), name_at(split, 5), name_at(split, 9), name_at(split, 63)]) };
        thunks[i] = v;
        put(&mut b.0, at + w * i, w, v);
    }
    let d = &b.0[..];
    let f = nd::must(PeFile::<Pe>::parse(d));
    let mut libs = nd::must(f.import_libraries());
    let mut it = nd::must(f.imports());
    let name = string(d, split, lib);
    let r = nd::some(libs.next());
    nd::ck(r.is_ok() == name.is_some());
    let Some(name) = name else { nd::ck(nd::some(it.next()).is_err()); nd::reach(1); return };
    let r = nd::must(r);
    nd::ck_bytes(r.name(), name);
    nd::ck(matches!(r.flags(), read::ImportLibraryFlags::Pe { delay: x } if x == delay));
    nd::ck(libs.next().is_none());
    for v in thunks {
        if v == 0 { break; }
        let r = nd::some(it.next());
        let want = if v & flag != 0 { None } else { Some(string(d, split, v + 2).filter(|s| !s.is_empty())) };
        if let Some(None) = want { nd::ck(r.is_err()); nd::reach(2); continue; }
        let x = nd::must(r);
        nd::ck_bytes(x.library(), name);
        nd::ck(!x.is_weak() && matches!(x.flags(), read::ImportFlags::Pe { delay: y } if y == delay));
        parts(x.name());
        match (x.name(), want) {
            (NameOrOrdinal::Name(n), Some(Some(s))) => { nd::ck_bytes(n, s); nd::reach(3); }
            (NameOrOrdinal::Ordinal(o), None) => { nd::ck_eq(o as u64, v & 0xffff); nd::reach(4); }
            _ => nd::ck(false),
        }
    }
    nd::ck(it.next().is_none());
}
/// a name or an ordinal, never both
fn parts(x: NameOrOrdinal<&[u8]>) {
    let (n, o) = match x { NameOrOrdinal::Name(n) => (Some(n), None), NameOrOrdinal::Ordinal(o) => (None, Some(o)) };
    let same = |a: Option<&[u8]>| match (a, n) { (Some(a), Some(n)) => a.as_ptr() == n.as_ptr() && a.len() == n.len(), (a, n) => a.is_none() && n.is_none() };
    nd::ck(x.ordinal() == o && x.as_ref().ordinal() == o);
    nd::ck(same(x.name()) && same(x.as_ref().into_name()) && same(x.into_name()));
}
/// the descriptors up to the null one, both tables
fn descriptors<Pe: ImageNtHeaders>(is64: bool) {
    let (mut b, p) = imports_image::<Pe>(is64, false);
    p.set_dir(&mut b.0, 1, VA, 0);
    let dd = nd::flag();
    p.set_dir(&mut b.0, 13, if dd { VA + 64 } else { 0 }, 0);
    // names within the descriptors: any string is fine
    let n = nd::below(3);
    for i in 0..n { put(&mut b.0, AT + 20 * i + [4, 8, 0, 16][nd::below(4)], 4, 1); put(&mut b.0, AT + 20 * i + 12, 4, VA + 160 + i as u64); }
    let bit = nd::below(8);
    if dd { for i in 0..2 { put(&mut b.0, AT + 64 + 32 * i + 4, 4, VA + 170); put(&mut b.0, AT + 64 + 32 * i, 4, 1); } let v = nd::u32() as u64; put(&mut b.0, AT + 64 + 32 + 4 * bit, 4, v); put(&mut b.0, AT + 64 + 32 + 4 * (bit ^ 1), 4, 0); if bit > 1 { put4(&mut b.0, AT + 64 + 32, &[0, 0]); } }
    b.0[AT + 160..AT + 174].copy_from_slice(b"abc\0\0\0\0\0\0\0dll\0");
    let d = &b.0[..];
    let f = nd::must(PeFile::<Pe>::parse(d));
    let mut it = nd::must(f.import_libraries());
    for i in 0..n {
        let x = nd::must(nd::some(it.next()));
        nd::ck_bytes(x.name(), &b"abc"[i..]);
        nd::ck(matches!(x.flags(), read::ImportLibraryFlags::Pe { delay: false }));
    }
    if dd {
        let x = nd::must(nd::some(it.next()));
        nd::ck_bytes(x.name(), b"dll");
        nd::ck(matches!(x.flags(), read::ImportLibraryFlags::Pe { delay: true }));
        // the second one is null only when every field is
        let at = AT + 96;
        if get(d, at + 4 * bit, 4) != 0 {
            let attr = get(d, at, 4);
            let r = nd::some(it.next());
            if attr & 1 == 0 { nd::ck(r.is_err()); nd::reach(1); return; }
            nd::ck(r.is_err() == string(d, false, get(d, at + 4, 4)).is_none());
            nd::reach(2);
            return;
        }
    }
    nd::ck(it.next().is_none());
    nd::reach(3);
}
/// tables read directly: descriptors, thunks and names anywhere in the section
fn tables<Pe: ImageNtHeaders>(is64: bool) {
    let w = if is64 { 8 } else { 4 };
    let b = Buf::<64>::any();
    let d = &b.0[..];
    let at = img::pick(&[VA, VA + 24, VA + 40, VA + 44, VA + 48, VA + 64, VA + 68, VA - 4]);
    let k = at.wrapping_sub(VA) & 0xffff_ffff;
    let (i, j) = (ImportTable::new(d, VA as u32, at as u32), DelayLoadImportTable::new(d, VA as u32, at as u32));
    match nd::below(3) {
        0 => {
            for (r, size) in [(i.descriptors().map(|mut x| { let r = x.next(); let ended = !matches!(r, Ok(Some(_))); if ended { nd::ck(matches!(x.next(), Ok(None))); } r.map(|x| x.map(|x| x as *const _ as u64)) }), 20u64),
                (j.descriptors().map(|mut x| { let r = x.next(); let ended = !matches!(r, Ok(Some(_))); if ended { nd::ck(matches!(x.next(), Ok(None))); } r.map(|x| x.map(|x| x as *const _ as u64)) }), 32)] {
                nd::ck(r.is_ok() == (k <= 64));
                let Ok(r) = r else { nd::reach(1); continue };
                nd::ck(r.is_ok() == (k + size <= 64));
                let Ok(r) = r else { nd::reach(2); continue };
                let mut null = true;
                for x in (0..size as usize).step_by(4) { null &= get(d, k as usize + x, 4) == 0; }
                nd::ck(r.is_none() == null);
                if let Some(r) = r { nd::ck_eq(r - d.as_ptr() as u64, k); nd::reach(3); }
            }
        }
        1 => {
            let delay = nd::flag();
            let r = if delay { j.thunks(at as u32) } else { i.thunks(at as u32) };
            nd::ck(r.is_ok() == (k <= 64));
            let Ok(mut l) = r else { return };
            let x = l.get::<Pe>(1);
            nd::ck(x.is_ok() == (k + 2 * w as u64 <= 64));
            if let Ok(x) = x { nd::ck_eq(x.raw(), get(d, k as usize + w, w)); }
            nd::ck(l.get::<Pe>(usize::MAX).is_err());
            let r = l.next::<Pe>();
            nd::ck(r.is_ok() == (k + w as u64 <= 64));
            let Ok(r) = r else { nd::ck(matches!(l.next::<Pe>(), Ok(None))); nd::reach(4); return };
            let v = get(d, k as usize, w);
            nd::ck(r.is_none() == (v == 0));
            let Some(x) = r else { nd::ck(matches!(l.next::<Pe>(), Ok(None))); nd::reach(5); return };
            nd::ck(x.is_ordinal() == (v >> (8 * w - 1) != 0));
            nd::ck(x.raw() == v && x.ordinal() as u64 == v & 0xffff && x.address() as u64 == v & 0x7fff_ffff);
            nd::reach(6);
        }
        _ => {
            let delay = nd::flag();
            let (h, n) = if delay { (j.hint_name(at as u32), j.name(at as u32)) } else { (i.hint_name(at as u32), i.name(at as u32)) };
            let s = if k <= 64 { img::cstr(d, k, 64) } else { None };
            nd::ck(n.is_ok() == s.is_some());
            if let (Ok(n), Some(s)) = (n, s) { nd::ck_bytes(n, s); }
            let s = if k + 2 <= 64 { img::cstr(d, k + 2, 64).filter(|s| !s.is_empty()) } else { None };
            nd::ck(h.is_ok() == s.is_some());
            if let (Ok((h, n)), Some(s)) = (h, s) { nd::ck_bytes(n, s); nd::ck_eq(h as u64, get(d, k as usize, 2)); nd::reach(7); }
        }
    }
}

// ---- resources ----
fn resources() {
    let mut b = Buf::<64>::any();
    let len = [15, 16, 40, 64][nd::below(4)];
    let (named, ids) = (img::pick(&[0, 1, 0xffff]), img::pick(&[0, 1, 2, 0xffff]));
    put(&mut b.0, 12, 2, named);
    put(&mut b.0, 14, 2, ids);
    let sub = img::pick(&[0, 24, 25, 48, 52, 0x7fff_fffc]);
    if len == 64 { put(&mut b.0, 16 + 4, 4, sub | (nd::flag() as u64) << 31); }
    if sub == 24 || sub == 25 { put(&mut b.0, sub as usize + 12, 4, img::pick(&[0, 0x1_0001, 0x3_0000])); }
    let d = &b.0[..len];
    let dir = ResourceDirectory::new(d);
    let r = dir.root();
    nd::ck(r.is_ok() == (len >= 16 && 16 + 8 * (named + ids) <= len as u64));
    let Ok(t) = r else { nd::reach(1); return };
    nd::ck(t.entries.len() as u64 == named + ids);
    nd::ck(t.header.number_of_named_entries.get(LE) as u64 == named && t.header.number_of_id_entries.get(LE) as u64 == ids);
    nd::ck_eq(t.header.characteristics.get(LE) as u64, get(d, 0, 4));
    let mut k = 16;
    for e in t.entries {
        let (a, o) = (get(d, k, 4), get(d, k + 4, 4));
        k += 8;
        nd::ck(e.has_name() == (a >> 31 != 0) && e.is_table() == (o >> 31 != 0));
        nd::ck_eq(e.data_offset() as u64, o & 0x7fff_ffff);
        match e.name_or_id() {
            ResourceNameOrId::Id(i) => nd::ck(a >> 31 == 0 && i as u64 == a & 0xffff),
            ResourceNameOrId::Name(_) => nd::ck(a >> 31 != 0),
        }
        nd::ck(e.name_or_id().name().is_some() == (a >> 31 != 0));
        nd::ck(e.name_or_id().id() == if a >> 31 == 0 { Some(a as u16) } else { None });
        nd::reach(2);
    }
    if len < 64 || t.entries.is_empty() { return; }
    let e = &t.entries[0];
    let o = sub as usize;
    match e.data(dir) {
        Ok(ResourceDirectoryEntryData::Table(t)) => {
            nd::ck(e.is_table());
            let x = nd::must(e.data(dir));
            nd::ck(x.clone().data().is_none());
            nd::ck(nd::some(x.table()).header as *const _ == t.header as *const _);
            nd::ck_eq(t.header as *const _ as u64 - d.as_ptr() as u64, sub);
            nd::ck_eq(t.entries.len() as u64, get(d, o + 12, 2) + get(d, o + 14, 2));
            if !t.entries.is_empty() { nd::ck_eq(t.entries.as_ptr() as u64 - d.as_ptr() as u64, sub + 16); }
            nd::reach(3);
        }
        Ok(ResourceDirectoryEntryData::Data(x)) => {
            nd::ck(!e.is_table());
            let y = nd::must(e.data(dir));
            nd::ck(y.clone().table().is_none());
            nd::ck(nd::some(y.data()) as *const _ == x as *const _);
            nd::ck_eq(x as *const _ as u64 - d.as_ptr() as u64, sub);
            nd::ck_eq(x.offset_to_data.get(LE) as u64, get(d, o, 4));
            nd::ck_eq(x.size.get(LE) as u64, get(d, o + 4, 4));
            nd::ck_eq(x.code_page.get(LE) as u64, get(d, o + 8, 4));
            nd::reach(4);
        }
        Err(_) => nd::ck(sub > 48 || (e.is_table() && 16 + sub + 8 * (get(d, o + 12, 2) + get(d, o + 14, 2)) > 64)),
    }
}
/// names are counted UTF-16; unpaired surrogates are replaced
fn resource_name() {
    let mut b = Buf::<56>::zero();
    put(&mut b.0, 12, 2, 1);
    let off = img::pick(&[40, 48, 54, 56, 0x7fff_fffe]);
    put(&mut b.0, 16, 4, off | 1 << 31);
    let n = img::pick(&[0, 1, 2, 3, 4, 0xffff]);
    if off <= 54 { put(&mut b.0, off as usize, 2, n); }
    for i in 0..3 { if off == 48 { let v = img::pick(&[0x41, 0xe9, 0x20ac, 0xd83d, 0xde00, 0xffff]); put(&mut b.0, 50 + 2 * i, 2, v); } }
    if off == 40 { nd::fill(&mut b.0[42..56]); }
    let d = &b.0[..];
    let dir = ResourceDirectory::new(d);
    let t = nd::must(dir.root());
    let ResourceNameOrId::Name(name) = t.entries[0].name_or_id() else { nd::ck(false); return };
    let r = name.raw_data(dir);
    let ok = off + 2 + 2 * n <= 56;
    nd::ck(r.is_ok() == ok && name.data(dir).is_ok() == ok);
    if off == 48 {
        let s = name.to_string_lossy(dir);
        nd::ck(s.is_ok() == ok);
        if let Ok(s) = s {
            // independent decoding
            let mut out = [0u8; 16];
            let mut m = 0;
            let mut i = 0;
            let c = |i: usize| get(d, 50 + 2 * i, 2);
            while i < n as usize {
                let mut v = c(i);
                i += 1;
                if v & 0xf800 == 0xd800 {
                    if v < 0xdc00 && i < n as usize && c(i) & 0xfc00 == 0xdc00 { v = 0x1_0000 + ((v & 0x3ff) << 10) + (c(i) & 0x3ff); i += 1; } else { v = 0xfffd; }
                }
                let k = if v < 0x80 { 1 } else if v < 0x800 { 2 } else if v < 0x1_0000 { 3 } else { 4 };
                for j in 0..k { out[m + j] = (if k == 1 { v } else if j == 0 { (0xf00 >> k) & 0xff | v >> (6 * (k - 1)) } else { 0x80 | (v >> (6 * (k - 1 - j))) & 0x3f }) as u8; }
                m += k;
            }
            nd::ck_bytes(s.as_bytes(), &out[..m]);
            nd::reach(1);
        }
    }
    if let Ok(r) = r { img::same_slice(r, d, off + 2, 2 * n); nd::reach(2); }
}

harnesses! {
    /// any directory fields; listed counts and table positions
    /// @reach 1,2
    fn c18_export_parse() { export_parse(); }
    /// three addresses, two names, arbitrary table bytes
    /// @reach 1
    fn c18_export_lookup() { export_lookup(); }
    /// forwarders of up to 5 arbitrary bytes
    /// @reach 1,2
    fn c18_export_target() { export_target(false); }
    /// ordinals of up to 6 arbitrary characters
    /// @reach 3
    fn c18_export_target_ordinal() { export_target(true); }
    /// any address
    /// @reach 1
    fn c18_export_forward_range() { export_forward_range(); }
    /// three addresses and two names referring to any of them
    /// @reach 1,2,4,5,6
    fn c18_exports() { let c = nd::flag(); by_class!(c, exports(c)); }
    /// two thunks of every kind
    /// @reach 1,2,3,4
    fn c18_imports() { let c = nd::flag(); by_class!(c, imports(c, false, false)); }
    /// names in a section of their own
    /// @reach 1,2,3,4
    fn c18_imports_split() { let c = nd::flag(); by_class!(c, imports(c, true, false)); }
    /// delay-loaded
    /// @reach 1,2,3,4
    fn c18_imports_delay() { let c = nd::flag(); by_class!(c, imports(c, false, true)); }
    /// up to two descriptors in each table
    /// @reach 1,2,3
    fn c18_import_descriptors() { let c = nd::flag(); by_class!(c, descriptors(c)); }
    /// arbitrary section bytes, listed addresses
    /// @reach 1,2,3,4,5,6,7
    fn c18_import_tables() { let c = nd::flag(); by_class!(c, tables(c)); }
    /// two levels of arbitrary directories
    /// @reach 1,2,3,4
    fn c18_resources() { resources(); }
    /// up to 3 code units from six classes; 6 arbitrary ones
    /// @reach 1,2
    fn c18_resource_name() { resource_name(); }
}
