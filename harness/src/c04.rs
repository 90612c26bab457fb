//! LEB128.
use crate::{harnesses, nd};
use nd::Buf;
use object::read::Bytes;
use object::write::elf::AttributesWriter;
use object::{Endianness, elf};

/// Length of the first encoding in `d`, if it ends within `d`.
fn leb_len(d: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < d.len() { if d[i] & 0x80 == 0 { return Some(i + 1); } i += 1; }
    None
}

harnesses! {
/// unsigned: every byte string of up to 11 bytes (thorough 12); the value is the sum of the 7-bit groups, rejected if it does not fit in 64 bits
fn c04_read_u() {
    const N: usize = nd::tier(11, 12);
    let b = Buf::<16>::any();
    let n = nd::below(N + 1);
    let d = &b[..n];
    let len = leb_len(d);
    let mut c = Bytes(d);
    let r = c.read_uleb128();
    let mut v = 0u128;
    let mut i = 0;
    while i < n.min(18) { v |= ((d[i] & 0x7f) as u128) << (7 * i); if d[i] & 0x80 == 0 { break; } i += 1; }
    match len {
        // padded encodings longer than ten bytes are allowed to be rejected
        Some(k) if k <= 10 => {
            let fits = v <= u64::MAX as u128;
            nd::ck(r.is_ok() == fits);
            if let Ok(r) = r { nd::ck_eq(r, v as u64); nd::ck_eq(c.len() as u64, (n - k) as u64); nd::reach(1); } else { nd::reach(2); }
        }
        Some(_) => { if let Ok(r) = r { nd::ck(v == r as u128); } }
        None => { nd::ck(r.is_err()); nd::reach(3); }
    }
}

/// signed: every byte string of up to 11 bytes (thorough 12); the value is the sign-extended sum of the 7-bit groups, rejected if it does not fit in 64 bits
fn c04_read_s() {
    const N: usize = nd::tier(11, 12);
    let b = Buf::<16>::any();
    let n = nd::below(N + 1);
    let d = &b[..n];
    let len = leb_len(d);
    let mut c = Bytes(d);
    let r = c.read_sleb128();
    let mut v = 0u128;
    let mut i = 0;
    while i < n { v |= ((d[i] & 0x7f) as u128) << (7 * i); if d[i] & 0x80 == 0 { break; } i += 1; }
    match len {
        Some(k) if k <= 10 => {
            let sh = 128 - 7 * k as u32;
            let v = ((v << sh) as i128) >> sh;
            let fits = v >= i64::MIN as i128 && v <= i64::MAX as i128;
            nd::ck(r.is_ok() == fits);
            if let Ok(r) = r { nd::ck_eq(r as u64, v as u64); nd::ck_eq(c.len() as u64, (n - k) as u64); nd::reach(1); } else { nd::reach(2); }
        }
        Some(_) => {}
        None => { nd::ck(r.is_err()); nd::reach(3); }
    }
}

/// writer and reader agree on every u64 (tag and value) and u32 (index), and the writer uses the shortest form
fn c04_write() {
    let (t, v, x) = (nd::u64(), nd::u64(), nd::u32());
    let mut w = AttributesWriter::new(Endianness::Little);
    w.start_subsection(b"g");
    w.start_subsubsection(elf::Tag_Section);
    w.write_subsubsection_index(x);
    w.write_attribute_tag(t);
    w.write_attribute_integer(v);
    w.end_subsubsection();
    w.end_subsection();
    let d = w.data();
    // 'A', subsection length (4), "g\0", tag (1), length (4)
    let mut c = Bytes(&d[12..]);
    let n0 = c.len();
    nd::ck_eq(nd::must(c.read_uleb128()), x as u64);
    let n1 = c.len();
    nd::ck_eq(nd::must(c.read_uleb128()), t);
    let n2 = c.len();
    nd::ck_eq(nd::must(c.read_uleb128()), v);
    nd::ck(c.is_empty());
    let mut k = 1;
    while k < 10 && v >> (7 * k) != 0 { k += 1; }
    nd::ck_eq(n2 as u64, k as u64);
    let mut k = 1;
    while k < 10 && t >> (7 * k) != 0 { k += 1; }
    nd::ck_eq((n1 - n2) as u64, k as u64);
    let mut k = 1;
    while k < 5 && x >> (7 * k) != 0 { k += 1; }
    nd::ck_eq((n0 - n1) as u64, k as u64);
    nd::observe(v);
    nd::reach(4);
}
}
