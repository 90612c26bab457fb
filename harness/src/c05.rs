//! Written string tables and write buffers.
use crate::{harnesses, nd};
use nd::Buf;
use object::write::{CountingBuffer, StringTable, WritableBuffer, WritableBufferExt, GrowableBuffer};
use object::read::StringTable as ReadTable;
use object::{BigEndian, LittleEndian, Endianness};

fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < a.len() { if a[i] != b[i] { return false; } i += 1; }
    true
}

/// `k` strings of up to `m` bytes over an alphabet of `s` letters
fn table<'a>(b: &'a mut Buf<32>, k: usize, m: usize, s: u8) -> [&'a [u8]; 5] {
    let mut len = [0; 5];
    let mut i = 0;
    while i < k {
        len[i] = nd::below(m + 1);
        let mut j = 0;
        while j < len[i] { let x = nd::u8(); nd::assume(if s == 0 { x != 0 } else { x >= 1 && x <= s }); b[6 * i + j] = x; j += 1; }
        i += 1;
    }
    let b = &b[..];
    [&b[..len[0]], &b[6..6 + len[1]], &b[12..12 + len[2]], &b[18..18 + len[3]], &b[24..24 + len[4]]]
}

fn suffix(a: &[u8], b: &[u8]) -> bool { a.len() <= b.len() && eq(a, &b[b.len() - a.len()..]) }

fn check<'a>(t: &mut StringTable<'a>, k: usize, s: &[&'a [u8]], base: usize, merged: bool) {
    let mut id = [None; 5];
    let mut i = 0;
    nd::ck(t.is_empty());
    while i < k { id[i] = Some(t.add(s[i])); i += 1; }
    nd::ck(!t.is_empty());
    let mut out: Vec<u8> = Vec::new();
    out.write_zeros(base as u64);
    let size = nd::must(t.write(&mut out, base as u32));
    nd::ck_eq(size as u64, out.len() as u64);
    let r = ReadTable::new(&out[..], 0, out.len() as u64);
    let mut total = base;
    let mut i = 0;
    while i < k {
        let o = t.get_offset(id[i].unwrap());
        nd::ck_bytes(nd::must(r.get(o)), s[i]);
        nd::ck_bytes(t.get_string(id[i].unwrap()), s[i]);
        nd::ck(t.get_id(s[i]) == id[i].unwrap());
        nd::ck(t.maybe_get_offset(id[i]) == o);
        // equal strings share an id, different strings do not
        let mut dup = false;
        let mut j = 0;
        while j < i { let same = eq(s[i], s[j]); nd::ck(same == (id[i] == id[j])); dup |= same; j += 1; }
        // a merged table spends no space on a string that ends another one
        let mut covered = merged && s[i].len() == 0 && k > 0;
        let mut j = 0;
        while merged && j < k { covered |= j != i && s[j].len() > s[i].len() && suffix(s[i], s[j]); j += 1; }
        if !dup && !covered { total += s[i].len() + 1; }
        i += 1;
    }
    nd::ck(t.maybe_get_offset(None) == 0);
    nd::ck_eq(out.len() as u64, total as u64);
    nd::reach(1);
}

extern crate alloc;
use alloc::vec::Vec;

harnesses! {
/// merged table, base 1..=2: up to 3 strings of up to 3 arbitrary non-null bytes
/// @reach 1
fn c05_merge() {
    let mut b = Buf::<32>::zero();
    let k = nd::range(1, 3);
    let s = table(&mut b, k, 3, 0);
    let base = nd::range(1, 2);
    check(&mut StringTable::new(), k, &s, base, true);
}

/// merged table: 4 (thorough 5) strings of up to 3 bytes over a two-letter alphabet
/// @reach 1
fn c05_suffix() {
    let mut b = Buf::<32>::zero();
    let k = nd::tier(4, 5);
    let s = table(&mut b, k, nd::tier(2, 3), 2);
    check(&mut StringTable::new(), k, &s, 1, true);
}

/// table written in insertion order: up to 3 strings of up to 3 arbitrary non-null bytes: every distinct string in turn, offsets known before writing
/// @reach 1
fn c05_in_order() {
    let mut b = Buf::<32>::zero();
    let k = nd::range(1, 3);
    let s = table(&mut b, k, 3, 0);
    let base = nd::below(4);
    let mut t = StringTable::new_in_order(base as u32);
    let mut expect = base as u32;
    let mut i = 0;
    while i < k {
        let mut dup = false;
        let mut j = 0;
        while j < i { dup |= eq(s[i], s[j]); j += 1; }
        let id = t.add(s[i]);
        if !dup { nd::ck_eq(t.get_offset(id) as u64, expect as u64); expect += s[i].len() as u32 + 1; nd::reach(2); } else { nd::reach(3); }
        i += 1;
    }
    check(&mut StringTable::new_in_order(base as u32), k, &s, base, false);
    let mut out: Vec<u8> = Vec::new();
    nd::ck_eq(nd::must(t.write(&mut out, base as u32)) as u64, expect as u64);
}

/// a merged table refuses a second write
fn c05_rewrite() {
    let mut b = Buf::<32>::zero();
    let s = table(&mut b, 2, 2, 0);
    let mut t = StringTable::new();
    t.add(s[0]);
    t.add(s[1]);
    let mut out: Vec<u8> = Vec::new();
    nd::ck(t.write(&mut out, 1).is_ok());
    nd::ck(t.write(&mut out, 1).is_err());
}

/// buffers: a sequence of 4 writes (bytes, zeros, integers, alignment) into a growable buffer and a fixed slice, with and without a counter
fn c05_buffers() {
    let mut fixed = [0xeeu8; 64];
    let mut grow: Vec<u8> = Vec::new();
    let mut model = [0u8; 64];
    let mut n = 0usize;
    {
        let mut f = CountingBuffer::new(&mut fixed[..]);
        let mut g = CountingBuffer::new(&mut grow);
        let mut i = 0;
        while i < 4 {
            i += 1;
            match nd::below(6) {
                0 => { let b: [u8; 3] = nd::bytes(); f.write_bytes(&b); g.write_bytes(&b); model[n..n + 3].copy_from_slice(&b); n += 3; }
                1 => { let z = nd::below(5); f.write_zeros(z as u64); g.write_zeros(z as u64); n += z; }
                2 => { let v = nd::u16(); f.write_u16(LittleEndian, v); g.write_u16(LittleEndian, v); model[n..n + 2].copy_from_slice(&v.to_le_bytes()); n += 2; }
                3 => { let v = nd::u32(); f.write_u32(BigEndian, v); g.write_u32(BigEndian, v); model[n..n + 4].copy_from_slice(&v.to_be_bytes()); n += 4; }
                4 => { let v = nd::u64(); f.write_u64(Endianness::Big, v); g.write_u64(Endianness::Big, v); model[n..n + 8].copy_from_slice(&v.to_be_bytes()); n += 8; }
                _ => { let a = 1 << nd::below(4); f.write_align(a); g.write_align(a); while n % a as usize != 0 { n += 1; } nd::reach(1); }
            }
            nd::ck_eq(f.count(), n as u64);
            nd::ck_eq(g.count(), n as u64);
        }
        nd::ck_eq(f.into_inner().len() as u64, 64 - n as u64);
    }
    nd::ck_bytes(&grow, &model[..n]);
    nd::ck_bytes(&fixed[..n], &model[..n]);
    let mut i = n;
    while i < 64 { nd::ck(fixed[i] == 0xee); i += 1; }
}

/// reserving: any u64 size on a 16-byte slice succeeds exactly when it fits; pods and slices of pods are written verbatim
fn c05_reserve() {
    let size = nd::u64();
    let mut d = [0u8; 16];
    let mut s = &mut d[..];
    nd::ck(WritableBuffer::reserve(&mut s, size).is_ok() == (size <= 16));
    let v: [u8; 6] = nd::bytes();
    let mut g: Vec<u8> = Vec::new();
    nd::ck(WritableBuffer::reserve(&mut g, 100).is_ok());
    g.write_pod(&v);
    g.as_writable().write_pod_slice(&[v, v]);
    nd::ck_bytes(&g[..6], &v);
    nd::ck_bytes(&g[6..12], &v);
    nd::ck_bytes(&g[12..], &v);
}
}
