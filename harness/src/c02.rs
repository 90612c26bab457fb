//! ReadCache and ReadCacheRange against the same bytes in memory.
use crate::{harnesses, nd};
use core::cell::Cell;
use nd::Buf;
use object::read::{ReadCache, ReadCacheOps, ReadRef, StringTable};
use object::endian::{LittleEndian, U16, U32};

const N: usize = 8;

/// A stream over `data`; `read` may return fewer bytes than asked for when `short`.
struct Stream<'a> { data: &'a [u8], pos: u64, short: bool }
impl<'a> ReadCacheOps for Stream<'a> {
    fn len(&mut self) -> Result<u64, ()> { Ok(self.data.len() as u64) }
    fn seek(&mut self, pos: u64) -> Result<u64, ()> { self.pos = pos; Ok(pos) }
    fn read(&mut self, buf: &mut [u8]) -> Result<usize, ()> {
        if self.pos >= self.data.len() as u64 { return Ok(0); }
        let mut n = buf.len().min(self.data.len() - self.pos as usize);
        if self.short && n > 1 { n = nd::range(1, n); }
        buf[..n].copy_from_slice(&self.data[self.pos as usize..][..n]);
        self.pos += n as u64;
        Ok(n)
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> Result<(), ()> {
        if self.pos > self.data.len() as u64 || buf.len() as u64 > self.data.len() as u64 - self.pos { return Err(()); }
        buf.copy_from_slice(&self.data[self.pos as usize..][..buf.len()]);
        self.pos += buf.len() as u64;
        Ok(())
    }
}

/// the same stream where any operation may fail; a failed read has moved the position and filled part of the buffer
struct Faulty<'a> { s: Stream<'a>, left: u32, failed: &'a Cell<bool> }
impl<'a> Faulty<'a> {
    fn fault(&mut self) -> Result<(), ()> {
        if self.left > 0 && nd::flag() { self.left -= 1; self.failed.set(true); Err(()) } else { Ok(()) }
    }
}
impl<'a> ReadCacheOps for Faulty<'a> {
    fn len(&mut self) -> Result<u64, ()> { self.fault()?; self.s.len() }
    fn seek(&mut self, pos: u64) -> Result<u64, ()> { self.fault()?; self.s.seek(pos) }
    fn read(&mut self, buf: &mut [u8]) -> Result<usize, ()> {
        if self.fault().is_err() { self.s.pos += 1; buf[0] = 0; return Err(()); }
        self.s.read(buf)
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> Result<(), ()> {
        if self.fault().is_err() { self.s.pos += 1; buf[0] = 0; return Err(()); }
        self.s.read_exact(buf)
    }
}

fn same(a: Result<&[u8], ()>, b: Result<&[u8], ()>) {
    nd::ck(a.is_ok() == b.is_ok());
    if let (Ok(a), Ok(b)) = (a, b) { nd::ck_bytes(a, b); nd::reach(1); } else { nd::reach(2); }
}

fn small(n: usize) -> u64 { nd::below(n) as u64 }
/// 0..=9 or one of the ten largest values
fn edge() -> u64 { if nd::flag() { small(10) } else { !small(10) } }

harnesses! {
/// any sequence of 2 (thorough: 3) bounded reads (counted, delimited with one of two delimiters, structure, array) at offsets 0..=6, ends 0..=7
/// of a 6-byte stream with arbitrary contents
/// @reach 1,2
fn c02_history() {
    let b = Buf::<6>::any();
    let d = &b[..];
    let cache = ReadCache::new(Stream { data: d, pos: 0, short: false });
    let mut i = 0;
    while i < nd::tier(2, 3) {
        i += 1;
        let (o, e) = (small(6), small(8));
        match nd::below(3) {
            0 => same((&cache).read_bytes_at(o, e), d.read_bytes_at(o, e)),
            1 => { let z = nd::flag() as u8; same((&cache).read_bytes_at_until(o..e, z), d.read_bytes_at_until(o..e, z)) }
            _ => {
                let mut p = o;
                let mut q = o;
                let a = (&cache).read::<U32<LittleEndian>>(&mut p);
                let c = d.read::<U32<LittleEndian>>(&mut q);
                nd::ck(a.is_ok() == c.is_ok());
                nd::ck_eq(p, q);
                if let (Ok(a), Ok(c)) = (a, c) { nd::ck(a.get(LittleEndian) == c.get(LittleEndian)); }
            }
        }
    }
    nd::ck_eq(nd::must((&cache).len()), 6);
}

/// two (thorough: three) delimited reads at starts 0..=1 with ends 2..=5 and one arbitrary delimiter, and a stream that may return any short read
/// @reach 1,2
fn c02_strings() {
    let b = Buf::<6>::any();
    let d = &b[..];
    let cache = ReadCache::new(Stream { data: d, pos: 0, short: true });
    let z = nd::u8();
    let mut i = 0;
    while i < nd::tier(2, 3) {
        i += 1;
        let (o, e) = (small(2), 2 + small(4));
        same((&cache).read_bytes_at_until(o..e, z), d.read_bytes_at_until(o..e, z));
    }
}

/// two reads at one start with ends 2..=5, each delimited with 0 or with 1 << k for one k of 0..=7
/// @reach 1,2
fn c02_delimiters() {
    let b = Buf::<6>::any();
    let d = &b[..];
    let cache = ReadCache::new(Stream { data: d, pos: 0, short: false });
    let k = 1u8 << nd::below(8);
    let o = small(2);
    let mut i = 0;
    while i < 2 {
        i += 1;
        let e = 2 + small(4);
        let z = if nd::flag() { 0 } else { k };
        same((&cache).read_bytes_at_until(o..e, z), d.read_bytes_at_until(o..e, z));
    }
}

/// up to 2 of the operations of a stream that may return short reads fail at any point of a sequence of 3 reads: a read fails when an operation did, and is right otherwise
/// @reach 1,2,3
fn c02_faults() {
    let b = Buf::<5>::any();
    let d = &b[..];
    let failed = Cell::new(false);
    let cache = ReadCache::new(Faulty { s: Stream { data: d, pos: 0, short: true }, left: 2, failed: &failed });
    let r = cache.range(1, 3);
    let mut i = 0;
    while i < 3 {
        i += 1;
        let o = small(2);
        failed.set(false);
        let (x, y) = match nd::below(4) {
            0 => ((&cache).read_bytes_at(o, 3), d.read_bytes_at(o, 3)),
            1 => ((&cache).read_bytes_at_until(o..4, 0), d.read_bytes_at_until(o..4, 0)),
            2 => (r.read_bytes_at(o, 2), d[1..4].read_bytes_at(o, 2)),
            _ => (r.read_bytes_at_until(o..3, 0), d[1..4].read_bytes_at_until(o..3, 0)),
        };
        if failed.get() { nd::ck(x.is_err()); nd::reach(3); } else { same(x, y); }
    }
    failed.set(false);
    let n = (&cache).len();
    nd::ck(n == if failed.get() { Err(()) } else { Ok(5) });
}

/// a single counted, delimited, structure or array read with any u64 offset, size, end and count
/// @reach 1,2
fn c02_wide() {
    let b = Buf::<N>::any();
    let d = &b[..];
    let cache = ReadCache::new(Stream { data: d, pos: 0, short: false });
    let (o, e) = (nd::u64(), nd::u64());
    match nd::below(4) {
        0 => same((&cache).read_bytes_at(o, e), d.read_bytes_at(o, e)),
        1 => same((&cache).read_bytes_at_until(o..e, 0), d.read_bytes_at_until(o..e, 0)),
        2 => {
            let a = (&cache).read_at::<U32<LittleEndian>>(o);
            let c = d.read_at::<U32<LittleEndian>>(o);
            nd::ck(a.is_ok() == c.is_ok());
            if let (Ok(a), Ok(c)) = (a, c) { nd::ck(a.get(LittleEndian) == c.get(LittleEndian)); nd::reach(3); }
        }
        _ => {
            let a = (&cache).read_slice_at::<U16<LittleEndian>>(o, e as usize);
            let c = d.read_slice_at::<U16<LittleEndian>>(o, e as usize);
            nd::ck(a.is_ok() == c.is_ok());
            if let (Ok(a), Ok(c)) = (a, c) { nd::ck_bytes(object::pod::bytes_of_slice(a), object::pod::bytes_of_slice(c)); nd::reach(4); }
        }
    }
}

/// ranges: every range offset and size inside an 8-byte stream, then a read with any u64 offset and size (delimited: the ten smallest and ten largest starts and ends) against the sub-slice
/// @reach 1,2
fn c02_range() {
    let b = Buf::<N>::any();
    let d = &b[..];
    let cache = ReadCache::new(Stream { data: d, pos: 0, short: false });
    let ro = small(9);
    let rs = small(9);
    nd::assume(ro + rs <= 8);
    let r = cache.range(ro, rs);
    let s = &d[ro as usize..][..rs as usize];
    nd::ck_eq(nd::must(r.len()), rs);
    let k = nd::below(3);
    let (o, e) = if k == 1 { (edge(), edge()) } else { (nd::u64(), nd::u64()) };
    match k {
        0 => same(r.read_bytes_at(o, e), s.read_bytes_at(o, e)),
        1 => same(r.read_bytes_at_until(o..e, 0), s.read_bytes_at_until(o..e, 0)),
        _ => {
            let a = r.read_at::<U16<LittleEndian>>(o);
            let c = s.read_at::<U16<LittleEndian>>(o);
            nd::ck(a.is_ok() == c.is_ok());
            if let (Ok(a), Ok(c)) = (a, c) { nd::ck(a.get(LittleEndian) == c.get(LittleEndian)); }
        }
    }
}

/// a range and the whole stream used alternately, two reads each: both see the stream's bytes; clear keeps reads correct
/// @reach 1,2
fn c02_shared() {
    let b = Buf::<6>::any();
    let d = &b[..];
    let mut cache = ReadCache::new(Stream { data: d, pos: 0, short: false });
    {
        let ro = small(3);
        let r = cache.range(ro, 3);
        let s = &d[ro as usize..][..3];
        let mut i = 0;
        while i < 2 {
            i += 1;
            let (o, e) = (small(3), 1 + small(3));
            if nd::flag() {
                same(r.read_bytes_at_until(o..e, 0), s.read_bytes_at_until(o..e, 0));
                same((&cache).read_bytes_at_until(o..e, 0), d.read_bytes_at_until(o..e, 0));
            } else {
                same((&cache).read_bytes_at(o, e), d.read_bytes_at(o, e));
                same(r.read_bytes_at(o, e), s.read_bytes_at(o, e));
            }
        }
    }
    cache.clear();
    same((&cache).read_bytes_at(1, 4), d.read_bytes_at(1, 4));
    same((&cache).read_bytes_at_until(2..5, 0), d.read_bytes_at_until(2..5, 0));
    nd::ck_eq(cache.into_inner().data.len() as u64, 6);
}

/// string tables over the cache: table start and end the ten smallest or ten largest u64, two lookups at offsets 0..=5, against the same table over the slice
/// @reach 1,2
fn c02_strtab() {
    let b = Buf::<6>::any();
    let d = &b[..];
    let cache = ReadCache::new(Stream { data: d, pos: 0, short: false });
    let (s, e) = (edge(), edge());
    let t = StringTable::new(&cache, s, e);
    let u = StringTable::new(d, s, e);
    let o = small(6) as u32;
    same(t.get(o), u.get(o));
    let o = small(6) as u32;
    same(t.get(o), u.get(o));
}

/// strings that need several 256-byte reads: delimiter at any position of a 600-byte stream
/// @reach 1
fn c02_long() {
    let mut b = Buf::<640>::zero();
    let mut i = 0;
    while i < 600 { b[i] = 1; i += 1; }
    let p = nd::below(600);
    b[p] = nd::u8();
    let d = &b[..600];
    let cache = ReadCache::new(Stream { data: d, pos: 0, short: false });
    let o = [0, 1, 255, 256, 257][nd::below(5)];
    same((&cache).read_bytes_at_until(o..600, 0), d.read_bytes_at_until(o..600, 0));
}
}
