//! Raw data access: pod casts, Bytes, the slice ReadRef and string tables.
use crate::{harnesses, nd};
use nd::Buf;
use object::endian::{BigEndian, LittleEndian, U16, U32, U64};
use object::pod::{self, Pod};
use object::read::{Bytes, ReadRef, StringTable};
use core::mem::{align_of, size_of};

fn at(p: *const u8, q: *const u8) { nd::ck(p as usize == q as usize) }

fn one<T: Pod>(d: &[u8], m: &mut [u8], count: u64) {
    let base = d.as_ptr();
    let size = size_of::<T>();
    let aligned = base as usize % align_of::<T>() == 0;
    let fits = size <= d.len() && aligned;
    match pod::from_bytes::<T>(d) {
        Ok((v, tail)) => {
            nd::ck(fits);
            at(v as *const T as *const u8, base);
            nd::ck_eq(tail.len() as u64, (d.len() - size) as u64);
            at(tail.as_ptr(), base.wrapping_add(size));
            nd::ck_bytes(pod::bytes_of(v), &d[..size]);
            nd::reach(1);
        }
        Err(()) => { nd::ck(!fits); nd::reach(2) }
    }
    let need = count as u128 * size as u128;
    let sfits = need <= d.len() as u128 && aligned;
    match pod::slice_from_bytes::<T>(d, count as usize) {
        Ok((v, tail)) => {
            nd::ck(sfits);
            nd::ck_eq(v.len() as u64, count);
            at(v.as_ptr() as *const u8, base);
            nd::ck_eq(tail.len() as u64, d.len() as u64 - need as u64);
            at(tail.as_ptr(), base.wrapping_add(need as usize));
            let b = pod::bytes_of_slice(v);
            nd::ck_eq(b.len() as u64, need as u64);
            at(b.as_ptr(), base);
            nd::reach(3);
        }
        Err(()) => { nd::ck(!sfits); nd::reach(4) }
    }
    let all = aligned && d.len() % size == 0;
    match pod::slice_from_all_bytes::<T>(d) {
        Ok(v) => {
            nd::ck(all);
            nd::ck_eq(v.len() as u64, (d.len() / size) as u64);
            at(v.as_ptr() as *const u8, base);
        }
        Err(()) => nd::ck(!all),
    }
    // mutable variants
    let mbase = m.as_ptr();
    let mlen = m.len();
    let maligned = mbase as usize % align_of::<T>() == 0;
    match pod::from_bytes_mut::<T>(m) {
        Ok((v, tail)) => {
            nd::ck(size <= mlen && maligned);
            at(v as *const T as *const u8, mbase);
            nd::ck_eq(tail.len() as u64, (mlen - size) as u64);
            at(tail.as_ptr(), mbase.wrapping_add(size));
            nd::ck_eq(pod::bytes_of_mut(v).len() as u64, size as u64);
        }
        Err(()) => nd::ck(!(size <= mlen && maligned)),
    }
    match pod::slice_from_bytes_mut::<T>(m, count as usize) {
        Ok((v, tail)) => {
            nd::ck(need <= mlen as u128 && maligned);
            nd::ck_eq(v.len() as u64, count);
            at(v.as_ptr() as *const u8, mbase);
            nd::ck_eq(tail.len() as u64, mlen as u64 - need as u64);
            at(tail.as_ptr(), mbase.wrapping_add(need as usize));
            nd::ck_eq(pod::bytes_of_slice_mut(v).len() as u64, need as u64);
        }
        Err(()) => nd::ck(!(need <= mlen as u128 && maligned)),
    }
    match pod::slice_from_all_bytes_mut::<T>(m) {
        Ok(v) => {
            nd::ck(maligned && mlen % size == 0);
            nd::ck_eq(v.len() as u64, (mlen / size) as u64);
        }
        Err(()) => nd::ck(!(maligned && mlen % size == 0)),
    }
}

/// The part of `d` starting at `off` and `n` bytes long, or nothing.
fn sub(d: &[u8], off: u64, n: u128) -> bool { off as u128 + n <= d.len() as u128 }

harnesses! {
/// pod casts (shared and mutable, single, counted, whole-slice) of 1, 2, 3, 4 and 8 byte types with alignment 1, 2, 4 and 8
/// over slices of length 0..=9 at every misalignment 0..=7; element count any u64
fn c01_pod() {
    let b = Buf::<24>::any();
    let mut m = b.clone();
    let off = nd::below(8);
    let len = nd::below(10);
    let count = nd::u64();
    let d = &b[off..off + len];
    let m = &mut m[off..off + len];
    match nd::below(8) {
        0 => one::<u8>(d, m, count),
        1 => one::<u16>(d, m, count),
        2 => one::<u32>(d, m, count),
        3 => one::<u64>(d, m, count),
        4 => one::<[u8; 3]>(d, m, count),
        5 => one::<U16<LittleEndian>>(d, m, count),
        6 => one::<U32<BigEndian>>(d, m, count),
        _ => one::<U64<LittleEndian>>(d, m, count),
    }
}

/// Bytes cursor operations on a 12-byte slice with arbitrary contents; offset and count any u64
fn c01_bytes() {
    let b = Buf::<12>::any();
    let d = &b[..];
    let base = d.as_ptr();
    let off = nd::u64();
    let n = nd::u64();
    let mut c = Bytes(d);
    nd::ck(c.len() == 12 && !c.is_empty());
    let skipped = c.skip(off as usize);
    nd::ck(skipped.is_ok() == sub(d, off, 0));
    if skipped.is_err() { nd::ck(c.is_empty()); nd::reach(1); }
    else { nd::ck_eq(c.len() as u64, 12 - off); if off < 12 { at(c.0.as_ptr(), base.wrapping_add(off as usize)); } nd::reach(2); }
    match Bytes(d).read_bytes_at(off as usize, n as usize) {
        Ok(r) => { nd::ck(sub(d, off, n as u128)); nd::ck_eq(r.len() as u64, n); at(r.0.as_ptr(), base.wrapping_add(off as usize)); nd::reach(3); }
        Err(()) => { nd::ck(!sub(d, off, n as u128)); nd::reach(4); }
    }
    match Bytes(d).read_at::<U32<LittleEndian>>(off as usize) {
        Ok(r) => { nd::ck(sub(d, off, 4)); at(r as *const _ as *const u8, base.wrapping_add(off as usize)); }
        Err(()) => nd::ck(!sub(d, off, 4)),
    }
    match Bytes(d).read_slice_at::<U16<BigEndian>>(off as usize, n as usize) {
        Ok(r) => { nd::ck(sub(d, off, 2 * n as u128)); nd::ck_eq(r.len() as u64, n); at(r.as_ptr() as *const u8, base.wrapping_add(off as usize)); nd::reach(5); }
        Err(()) => nd::ck(!sub(d, off, 2 * n as u128)),
    }
    // a stream of reads consumes exactly what it returns; a failing read leaves nothing
    let mut c = Bytes(d);
    let a = c.read_bytes(n as usize);
    nd::ck(a.is_ok() == (n <= 12));
    if a.is_ok() {
        let left = 12 - n;
        let v = c.read::<U64<LittleEndian>>();
        nd::ck(v.is_ok() == (left >= 8));
        nd::ck_eq(c.len() as u64, if left >= 8 { left - 8 } else { 0 });
    } else { nd::ck(c.is_empty()); }
    let mut c = Bytes(d);
    let v = c.read_slice::<U32<LittleEndian>>(n as usize);
    nd::ck(v.is_ok() == (n <= 3));
    nd::ck_eq(c.len() as u64, if n <= 3 { 12 - 4 * n } else { 0 });
}

/// null-terminated reads at any u64 offset of an 8-byte slice with arbitrary contents
fn c01_strings() {
    let b = Buf::<8>::any();
    let d = &b[..];
    let off = nd::u64();
    let mut expect = None;
    if off < 8 {
        let off = nd::conc(off) as usize;
        let mut i = off;
        while i < 8 { if d[i] == 0 { expect = Some(i - off); break; } i += 1; }
    }
    match Bytes(d).read_string_at(off as usize) {
        Ok(s) => { let n = nd::some(expect); nd::ck_eq(s.len() as u64, n as u64); at(s.as_ptr(), d.as_ptr().wrapping_add(off as usize)); nd::reach(1); }
        Err(()) => { nd::ck(expect.is_none()); nd::reach(2); }
    }
    if off <= 8 {
        let mut c = Bytes(&d[off as usize..]);
        let r = c.read_string();
        nd::ck(r.is_ok() == expect.is_some());
        nd::ck_eq(c.len() as u64, match expect { Some(n) => 8 - off - n as u64 - 1, None => 0 });
    }
}

/// ReadRef for slices: any u64 offset, size and element count over a 12-byte slice
fn c01_readref() {
    let b = Buf::<12>::any();
    let d = &b[..];
    let base = d.as_ptr();
    let off = nd::u64();
    let n = nd::u64();
    nd::ck_eq(nd::must(ReadRef::len(d)), 12);
    let ok = n == 0 || sub(d, off, n as u128);
    match d.read_bytes_at(off, n) {
        Ok(r) => { nd::ck(ok); nd::ck_eq(r.len() as u64, n); if n != 0 { at(r.as_ptr(), base.wrapping_add(off as usize)); nd::reach(1); } }
        Err(()) => { nd::ck(!ok); nd::reach(2); }
    }
    let mut o = off;
    match d.read_bytes(&mut o, n) {
        Ok(r) => { nd::ck(ok); nd::ck_eq(r.len() as u64, n); nd::ck_eq(o, off.wrapping_add(n)); }
        Err(()) => { nd::ck(!ok); nd::ck_eq(o, off); }
    }
    let mut o = off;
    match d.read::<U32<LittleEndian>>(&mut o) {
        Ok(r) => { nd::ck(sub(d, off, 4)); nd::ck_eq(o, off + 4); at(r as *const _ as *const u8, base.wrapping_add(off as usize)); nd::reach(3); }
        Err(()) => { nd::ck(!sub(d, off, 4)); nd::ck_eq(o, off); }
    }
    let r = d.read_at::<U64<LittleEndian>>(off);
    nd::ck(r.is_ok() == sub(d, off, 8));
    if let Ok(r) = r { at(r as *const _ as *const u8, base.wrapping_add(off as usize)); }
    let need = 2 * n as u128;
    let mut o = off;
    match d.read_slice::<U16<LittleEndian>>(&mut o, n as usize) {
        Ok(r) => { nd::ck(n == 0 || sub(d, off, need)); nd::ck_eq(r.len() as u64, n); nd::ck_eq(o, off.wrapping_add(2 * n)); if n != 0 { at(r.as_ptr() as *const u8, base.wrapping_add(off as usize)); nd::reach(4); } }
        Err(()) => { nd::ck(!(n == 0 || sub(d, off, need))); nd::ck_eq(o, off); }
    }
    nd::ck(d.read_slice_at::<U16<LittleEndian>>(off, n as usize).is_ok() == (n == 0 || sub(d, off, need)));
}

/// delimited reads and string tables: 8-byte slice, table start and end and string offset any u64 / u32, any delimiter
fn c01_until() {
    let b = Buf::<8>::any();
    let d = &b[..];
    let (start, end, delim) = (nd::u64(), nd::u64(), nd::u8());
    let mut expect = None;
    let inb = start <= end && end <= 8;
    if inb {
        let mut i = nd::conc(start);
        let e = nd::conc(end);
        let s = i;
        while i < e { if d[i as usize] == delim { expect = Some((s, i - s)); break; } i += 1; }
    }
    match d.read_bytes_at_until(start..end, delim) {
        Ok(s) => { let (o, n) = nd::some(expect); nd::ck_eq(s.len() as u64, n); at(s.as_ptr(), d.as_ptr().wrapping_add(o as usize)); nd::reach(1); }
        Err(()) => { nd::ck(expect.is_none()); nd::reach(2); }
    }
    let _ = inb;
}

/// StringTable over an 8-byte slice: start, end any u64; offset any u32
fn c01_strtab() {
    let b = Buf::<8>::any();
    let d = &b[..];
    let (start, end, off) = (nd::u64(), nd::u64(), nd::u32());
    let t = StringTable::new(d, start, end);
    let s = start as u128 + off as u128;
    let mut expect = None;
    if s <= end as u128 && end <= 8 {
        let s = nd::conc(s as u64);
        let e = nd::conc(end);
        let mut i = s;
        while i < e { if d[i as usize] == 0 { expect = Some((s, i - s)); break; } i += 1; }
    }
    match t.get(off) {
        Ok(r) => { let (o, n) = nd::some(expect); nd::ck_eq(r.len() as u64, n); at(r.as_ptr(), d.as_ptr().wrapping_add(o as usize)); nd::reach(1); }
        Err(()) => { nd::ck(expect.is_none()); nd::reach(2); }
    }
    nd::ck(StringTable::<&[u8]>::default().get(off).is_err());
}
}
