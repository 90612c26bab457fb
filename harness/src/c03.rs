//! Endian-aware integers.
use crate::{harnesses, nd};
use object::endian::*;
use object::elf;

/// the value of `b` read most significant byte first if `big`
fn val(b: &[u8], big: bool) -> u64 {
    let mut v = 0u64;
    let mut i = 0;
    while i < b.len() { v = v << 8 | (if big { b[i] } else { b[b.len() - 1 - i] }) as u64; i += 1; }
    v
}
fn sext(v: u64, bits: u32) -> i64 { ((v << (64 - bits)) as i64) >> (64 - bits) }

fn prims<E: Endian>(e: E, big: bool) {
    nd::ck(e.is_big_endian() == big && e.is_little_endian() == !big);
    let b: [u8; 8] = nd::bytes();
    let (b2, b4) = ([b[0], b[1]], [b[0], b[1], b[2], b[3]]);
    let (v2, v4, v8) = (val(&b2, big), val(&b4, big), val(&b, big));
    nd::ck_eq(e.read_u16(b2) as u64, v2);
    nd::ck_eq(e.read_u32(b4) as u64, v4);
    nd::ck_eq(e.read_u64(b), v8);
    nd::ck_eq(e.read_i16(b2) as i64 as u64, sext(v2, 16) as u64);
    nd::ck_eq(e.read_i32(b4) as i64 as u64, sext(v4, 32) as u64);
    nd::ck_eq(e.read_i64(b) as u64, v8);
    nd::ck_bytes(&e.write_u16(v2 as u16), &b2);
    nd::ck_bytes(&e.write_u32(v4 as u32), &b4);
    nd::ck_bytes(&e.write_u64(v8), &b);
    nd::ck_bytes(&e.write_i16(v2 as i16), &b2);
    nd::ck_bytes(&e.write_i32(v4 as i32), &b4);
    nd::ck_bytes(&e.write_i64(v8 as i64), &b);
    nd::reach(1);
}

fn wrappers<E: Endian>(e: E, big: bool) {
    let b: [u8; 8] = nd::bytes();
    let n = nd::u64();
    let (b2, b4) = ([b[0], b[1]], [b[0], b[1], b[2], b[3]]);
    let (v2, v4, v8) = (val(&b2, big), val(&b4, big), val(&b, big));
    use object::pod::bytes_of;
    nd::ck_eq(U16::<E>::from_bytes(b2).get(e) as u64, v2);
    nd::ck_eq(U32::<E>::from_bytes(b4).get(e) as u64, v4);
    nd::ck_eq(U64::<E>::from_bytes(b).get(e), v8);
    nd::ck_eq(I16::<E>::from_bytes(b2).get(e) as i64 as u64, sext(v2, 16) as u64);
    nd::ck_eq(I32::<E>::from_bytes(b4).get(e) as i64 as u64, sext(v4, 32) as u64);
    nd::ck_eq(I64::<E>::from_bytes(b).get(e) as u64, v8);
    let u16v = U16::<E>::new(e, n as u16);
    nd::ck_eq(val(bytes_of(&u16v), big), n & 0xffff);
    let u32v = U32::<E>::new(e, n as u32);
    nd::ck_eq(val(bytes_of(&u32v), big), n & 0xffff_ffff);
    let u64v = U64::<E>::new(e, n);
    nd::ck_eq(val(bytes_of(&u64v), big), n);
    let i16v = I16::<E>::new(e, n as i16);
    nd::ck_eq(val(bytes_of(&i16v), big), n & 0xffff);
    let i32v = I32::<E>::new(e, n as i32);
    nd::ck_eq(val(bytes_of(&i32v), big), n & 0xffff_ffff);
    let i64v = I64::<E>::new(e, n as i64);
    nd::ck_eq(val(bytes_of(&i64v), big), n);
    let (mut a, mut c, mut d) = (U16::<E>::from_bytes(b2), U32::<E>::from_bytes(b4), U64::<E>::from_bytes(b));
    a.set(e, n as u16);
    c.set(e, n as u32);
    d.set(e, n);
    nd::ck(a == u16v && c == u32v && d == u64v);
    let (mut a, mut c, mut d) = (I16::<E>::from_bytes(b2), I32::<E>::from_bytes(b4), I64::<E>::from_bytes(b));
    a.set(e, n as i16);
    c.set(e, n as i32);
    d.set(e, n as i64);
    nd::ck(a == i16v && c == i32v && d == i64v);
    nd::reach(2);
}

fn widen<E: Endian>(e: E, big: bool) {
    use object::pod::bytes_of;
    let b: [u8; 4] = nd::bytes();
    let n = nd::u64();
    let v = val(&b, big);
    let u: U32<E, u64> = *object::pod::from_bytes::<U32<E, u64>>(&b).unwrap().0;
    nd::ck_eq(u.get_u64(e), v);
    let fits = n <= u32::MAX as u64;
    let r = U32::<E, u64>::new_u64(e, n);
    nd::ck(r.is_ok() == fits);
    if let Ok(r) = r { nd::ck_eq(val(bytes_of(&r), big), n); nd::reach(3); }
    nd::ck_eq(val(bytes_of(&U32::<E, u64>::new_u64_truncate(e, n)), big), n & 0xffff_ffff);
    let mut s = u;
    nd::ck(s.set_u64(e, n).is_ok() == fits);
    nd::ck_eq(val(bytes_of(&s), big), if fits { n } else { v });
    s.set_u64_truncate(e, n);
    nd::ck_eq(val(bytes_of(&s), big), n & 0xffff_ffff);
    let i: I32<E, i64> = *object::pod::from_bytes::<I32<E, i64>>(&b).unwrap().0;
    nd::ck_eq(i.get_i64(e) as u64, sext(v, 32) as u64);
    let m = n as i64;
    let fits = m >= i32::MIN as i64 && m <= i32::MAX as i64;
    let r = I32::<E, i64>::new_i64(e, m);
    nd::ck(r.is_ok() == fits);
    if let Ok(r) = r { nd::ck_eq(sext(val(bytes_of(&r), big), 32) as u64, n); nd::reach(4); }
    nd::ck_eq(val(bytes_of(&I32::<E, i64>::new_i64_truncate(e, m)), big), n & 0xffff_ffff);
    let mut s = i;
    nd::ck(s.set_i64(e, m).is_ok() == fits);
    nd::ck_eq(sext(val(bytes_of(&s), big), 32) as u64, if fits { n } else { sext(v, 32) as u64 });
    s.set_i64_truncate(e, m);
    nd::ck_eq(val(bytes_of(&s), big), n & 0xffff_ffff);
}

/// newtype-valued fields keep the raw value
fn newtypes<E: Endian>(e: E, big: bool) {
    use object::pod::bytes_of;
    let n = nd::u64();
    let t: U16<E, elf::Machine> = U16::new(e, elf::Machine(n as u16));
    nd::ck_eq(val(bytes_of(&t), big), n & 0xffff);
    nd::ck_eq(t.get(e).0 as u64, n & 0xffff);
    let t: U32<E, elf::SectionType> = U32::new(e, elf::SectionType(n as u32));
    nd::ck_eq(val(bytes_of(&t), big), n & 0xffff_ffff);
    nd::ck_eq(t.get(e).0 as u64, n & 0xffff_ffff);
    let t: U64<E, elf::SectionFlags> = U64::new(e, elf::SectionFlags(n));
    nd::ck_eq(val(bytes_of(&t), big), n);
    nd::ck_eq(t.get(e).0, n);
}

/// conversions without an explicit endianness
fn conv<E: FixedEndian>(big: bool) {
    use object::pod::bytes_of;
    let n = nd::u64();
    let (a, b, c) = (U16::<E>::from(n as u16), U32::<E>::from(n as u32), U64::<E>::from(n));
    nd::ck(val(bytes_of(&a), big) == n & 0xffff && val(bytes_of(&b), big) == n & 0xffff_ffff && val(bytes_of(&c), big) == n);
    nd::ck(u16::from(a) == n as u16 && u32::from(b) == n as u32 && u64::from(c) == n);
    let (a, b, c) = (I16::<E>::from(n as i16), I32::<E>::from(n as i32), I64::<E>::from(n as i64));
    nd::ck(val(bytes_of(&a), big) == n & 0xffff && val(bytes_of(&b), big) == n & 0xffff_ffff && val(bytes_of(&c), big) == n);
    nd::ck(i16::from(a) == n as i16 && i32::from(b) == n as i32 && i64::from(c) == n as i64);
    let t: U16<E, elf::Machine> = elf::Machine(n as u16).into();
    nd::ck_eq(val(bytes_of(&t), big), n & 0xffff);
    nd::reach(1);
}

fn run<E: Endian>(e: E, big: bool) {
    match nd::below(4) { 0 => prims(e, big), 1 => wrappers(e, big), 2 => widen(e, big), _ => newtypes(e, big) }
}

harnesses! {
/// every 16, 32 and 64 bit value, signed and unsigned, little and big endian, fixed and run-time endianness: reads, writes, constructors, setters
/// @reach 1,2,3,4
fn c03_values() {
    match nd::below(4) {
        0 => run(Endianness::Little, false),
        1 => run(Endianness::Big, true),
        2 => run(LittleEndian, false),
        _ => run(BigEndian, true),
    }
}

/// conversions with From of every value, little and big endian
/// @reach 1
fn c03_from() { if nd::flag() { conv::<LittleEndian>(false) } else { conv::<BigEndian>(true) } }

/// construction of an endianness from a flag, for each endianness type
fn c03_construct() {
    let big = nd::bool();
    nd::ck(Endianness::from_big_endian(big) == Some(if big { Endianness::Big } else { Endianness::Little }));
    nd::ck(Endianness::from_little_endian(big) == Some(if big { Endianness::Little } else { Endianness::Big }));
    nd::ck(LittleEndian::from_big_endian(big).is_some() == !big);
    nd::ck(LittleEndian::from_little_endian(big).is_some() == big);
    nd::ck(BigEndian::from_big_endian(big).is_some() == big);
    nd::ck(BigEndian::from_little_endian(big).is_some() == !big);
    nd::ck(!Endianness::Little.is_big_endian() && Endianness::Big.is_big_endian());
    nd::ck(Endianness::default().is_little_endian() && NativeEndian.is_little_endian());
    nd::ck(LittleEndian::FIXED == LittleEndian && BigEndian::FIXED == BigEndian);
}
}
