//! Compressed sections decompress to exactly the recorded size, or to an error.
use crate::{harnesses, img, nd};
use object::read::{CompressedData, CompressionFormat as C, Object as _, ObjectSection as _};
use std::borrow::Cow;

fn adler(p: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for &c in p { a += c as u32; b += a; }
    b << 16 | a
}
fn data(format: C, data: &[u8], uncompressed_size: u64) -> CompressedData<'_> { CompressedData { format, data, uncompressed_size } }
/// stored blocks of the given lengths
fn stored(p: &[u8], blocks: &[usize], sum: u32) -> Vec<u8> {
    let mut z = vec![0x78, 0x9c];
    let mut at = 0;
    for (i, &n) in blocks.iter().enumerate() {
        z.extend_from_slice(&[(i + 1 == blocks.len()) as u8, n as u8, 0, !n as u8, 255]);
        z.extend_from_slice(&p[at..at + n]);
        at += n;
    }
    z.extend_from_slice(&sum.to_be_bytes());
    z
}
const BLOCKS: [&[usize]; 6] = [&[0], &[5], &[2, 3], &[0, 4, 0], &[1, 1, 1], &[3, 0]];
fn sizes(n: usize) -> u64 { img::pick(&[0, 1, n as u64, n as u64 + 1, n as u64 + 2, (n as u64).wrapping_sub(1), 1000, 1 << 63, u64::MAX]) }
/// what a decompressor may say
fn result(r: Result<Cow<'_, [u8]>, object::read::Error>, ok: bool, p: &[u8]) {
    nd::ck(r.is_ok() == ok);
    if let Ok(r) = r {
        nd::ck_bytes(&r, p);
        nd::reach(1);
    } else {
        nd::reach(2);
    }
}
fn zlib_sizes() {
    let b = BLOCKS[nd::below(6)];
    let n: usize = b.iter().sum();
    let p: [u8; 5] = nd::bytes();
    let mut z = stored(&p[..n], b, adler(&p[..n]));
    // what follows the stream is ignored
    if nd::flag() { z.push(nd::u8()); }
    let m = sizes(n);
    result(data(C::Zlib, &z, m).decompress(), m == n as u64, &p[..n]);
}
fn zlib_cut() {
    let b = BLOCKS[nd::below(6)];
    let n: usize = b.iter().sum();
    let p: [u8; 5] = nd::bytes();
    let z = stored(&p[..n], b, adler(&p[..n]));
    let cut = nd::below(z.len() + 1);
    let m = img::pick(&[0, 1, 2, 3, 4, 5]);
    result(data(C::Zlib, &z[..cut], m).decompress(), cut == z.len() && m == n as u64, &p[..n]);
}
/// any header and checksum
fn zlib_header() {
    let p: [u8; 3] = nd::bytes();
    let sum = nd::u32();
    let mut z = stored(&p, &[3], sum);
    let h: [u8; 2] = nd::bytes();
    z[..2].copy_from_slice(&h);
    let valid = h[0] & 15 == 8 && h[0] >> 4 <= 7 && h[1] & 32 == 0 && ((h[0] as u32) << 8 | h[1] as u32) % 31 == 0;
    let r = data(C::Zlib, &z, 3).decompress();
    result(r, nd::conc((valid && sum == adler(&p)) as u64) == 1, &p);
}
/// any block header and lengths
fn zlib_block() {
    let mut z = [0x78, 1, 0, 0, 0, 0, 0, 7, 9, 0, 0, 0, 0];
    let h = nd::u8() & !6;
    z[2] = h;
    let (len, not) = (nd::u16(), nd::u16());
    z[3..5].copy_from_slice(&len.to_le_bytes());
    z[5..7].copy_from_slice(&not.to_le_bytes());
    z[9..].copy_from_slice(&adler(&[7, 9]).to_be_bytes());
    let r = data(C::Zlib, &z, 2).decompress();
    result(r, nd::conc((h & 1 == 1 && len == 2 && not == !2) as u64) == 1, &[7, 9]);
}
/// bits, the least significant first
struct Bits { out: Vec<u8>, n: u32 }
impl Bits {
    fn bit(&mut self, b: u8) {
        if self.n % 8 == 0 { self.out.push(0); }
        *self.out.last_mut().unwrap() |= (b & 1) << (self.n % 8);
        self.n += 1;
    }
    fn bits(&mut self, v: u32, n: u32) { for i in 0..n { self.bit((v >> i) as u8); } }
    /// Huffman codes have their most significant bit first
    fn code(&mut self, v: u32, n: u32) { for i in (0..n).rev() { self.bit((v >> i) as u8); } }
}
/// fixed codes: literals below and above 144, a copy of any distance
fn zlib_fixed() {
    let x = [[0, 143, 144, 255][nd::below(4)], [97, 200][nd::below(2)], 5];
    let mut b = Bits { out: vec![0x78, 0x5e], n: 0 };
    b.bits(3, 3);
    let mut p = vec![];
    for x in x {
        if x < 144 { b.code(0x30 + x as u32, 8); } else { b.code(0x190 + x as u32 - 144, 9); }
        p.push(x);
    }
    let dist = nd::below(5);
    let len = nd::range(3, 6);
    if dist > 0 {
        b.code(len as u32 - 2, 7);
        b.code(dist as u32 - 1, 5);
        if dist <= 3 { for _ in 0..len { p.push(p[p.len() - dist]); } }
    } else {
        nd::assume(len == 3);
    }
    b.code(0, 7);
    let mut z = b.out;
    z.extend_from_slice(&adler(&p).to_be_bytes());
    let m = p.len() as u64 + 2 - nd::below(4) as u64;
    result(data(C::Zlib, &z, m).decompress(), dist < 4 && m == p.len() as u64, &p);
}
const ZSTD: u32 = 0xfd2f_b528;
/// (kind, bytes): 0 raw, 1 one byte repeated
fn zstd(p: &[u8], blocks: &[(u32, usize)], out: &mut Vec<u8>, sized: bool) -> Vec<u8> {
    let mut z = ZSTD.to_le_bytes().to_vec();
    let n: usize = blocks.iter().map(|b| b.1).sum();
    // a single segment with a one byte size, or a window of 1 KiB
    z.extend_from_slice(&if sized { [0x20, n as u8] } else { [0, 0] });
    let mut at = 0;
    for (i, &(k, n)) in blocks.iter().enumerate() {
        z.extend_from_slice(&((n as u32) << 3 | k << 1 | (i + 1 == blocks.len()) as u32).to_le_bytes()[..3]);
        let have = if k == 0 { n } else { 1 };
        z.extend_from_slice(&p[at..at + have]);
        if k == 0 { out.extend_from_slice(&p[at..at + n]); } else { out.extend(std::iter::repeat_n(p[at], n)); }
        at += have;
    }
    z
}
const ZBLOCKS: [&[(u32, usize)]; 5] = [&[(0, 0)], &[(0, 5)], &[(0, 2), (1, 3)], &[(1, 7)], &[(0, 1), (0, 0), (0, 2)]];
fn zstd_sizes() {
    let b = ZBLOCKS[nd::below(5)];
    let p: [u8; 5] = nd::bytes();
    let mut out = vec![];
    let mut z = zstd(&p, b, &mut out, nd::flag());
    match nd::below(3) {
        0 => {}
        // frames follow one another
        1 => { let more = zstd(&p, &[(0, 2)], &mut out, true); z.extend_from_slice(&more); }
        // and some are skipped
        _ => { let mut s = vec![0x50 | nd::u8() & 15, 0x2a, 0x4d, 0x18, 2, 0, 0, 0, 1, 2]; s.extend_from_slice(&z); z = s; }
    }
    let m = sizes(out.len());
    result(data(C::Zstandard, &z, m).decompress(), m == out.len() as u64, &out);
}
fn zstd_cut() {
    let b = ZBLOCKS[nd::below(5)];
    let p: [u8; 5] = nd::bytes();
    let mut out = vec![];
    let z = zstd(&p, b, &mut out, nd::flag());
    let cut = nd::below(z.len() + 1);
    // nothing at all is no frames
    let m = nd::below(8) as u64;
    result(data(C::Zstandard, &z[..cut], m).decompress(), if cut == 0 { m == 0 } else { cut == z.len() && m == out.len() as u64 }, if cut == 0 { &[] } else { &out });
}
fn zstd_any() {
    let mut z = [0; 12];
    z[..4].copy_from_slice(&ZSTD.to_le_bytes());
    nd::fill(&mut z[4..7]);
    z[4] &= 0x27;
    nd::conc(z[6] as u64);
    z[9] = nd::u8();
    let n = nd::range(5, 6);
    let m = nd::below(3) as u64;
    if let Ok(r) = data(C::Zstandard, &z[..4 + n], m).decompress() {
        nd::ck_eq(r.len() as u64, m);
        nd::reach(1);
    }
    nd::reach(2);
}
/// no compression, or one that is not known
fn none() {
    let p: [u8; 4] = nd::bytes();
    let n = nd::below(5);
    let c = CompressedData::none(&p[..n]);
    nd::ck(c.format == C::None && c.uncompressed_size == n as u64);
    let r = nd::must(c.decompress());
    nd::ck(matches!(r, Cow::Borrowed(_)));
    img::same_slice(&r, &p, 0, n as u64);
    nd::ck(data(C::Unknown, &p[..n], nd::u64()).decompress().is_err());
    nd::reach(1);
}
/// sections of ELF files: a compression header of any type, a GNU header, or nothing
fn section() {
    let l = img::E::any();
    let p: [u8; 3] = nd::bytes();
    let kind = nd::below(4);
    let mut out = vec![];
    let z = if kind == 1 { zstd(&p, &[(0, 3)], &mut out, true) } else { stored(&p, &[3], adler(&p)) };
    let m = nd::range(1, 4) as u64;
    let mut s = vec![];
    let (mut ty, mut flags) = (1, 0);
    match kind {
        0 | 1 => {
            flags = 0x800;
            ty = if nd::flag() { nd::u32() as u64 } else { 1 + kind as u64 };
            s = vec![0; if l.is64 { 24 } else { 12 }];
            l.put(&mut s, 0, 4, ty);
            let w = l.w();
            l.put(&mut s, w, w, m);
            l.put(&mut s, 2 * w, w, 1);
            ty = nd::conc((ty == 1 + kind as u64) as u64);
        }
        2 => { s.extend_from_slice(b"ZLIB"); s.extend_from_slice(&m.to_be_bytes()); }
        _ => {}
    }
    s.extend_from_slice(&z);
    let str = l.eh() + 3 * l.sh();
    let at = str + 24;
    let mut b = vec![0; at];
    b[str + 1..str + 12].copy_from_slice(if kind == 2 { b".zdebug_abc" } else { b".other__abc" });
    b.extend_from_slice(&s);
    l.ident(&mut b);
    l.sections(&mut b, l.eh() as u64, 3, 2);
    let sh = l.eh() + l.sh();
    l.section(&mut b, sh, 1, 1, at as u64, s.len() as u64);
    l.shset(&mut b, sh, 2, flags);
    l.section(&mut b, sh + l.sh(), 0, 3, str as u64, 24);
    let f = nd::must(object::File::parse(&*b));
    let x = nd::must(f.section_by_index(object::SectionIndex(1)));
    let r = x.uncompressed_data();
    if kind == 3 {
        img::same_slice(&nd::must(r), &b, at as u64, s.len() as u64);
        nd::reach(1);
    } else {
        result(r, ty == 1 && m == 3, &p);
    }
}
harnesses! {
    /// zlib: one to three stored blocks of up to 5 symbolic bytes, nine recorded sizes, one byte of trailing data
    /// @reach 1,2
    fn c34_zlib_sizes() { zlib_sizes(); }
    /// the same cut anywhere, six recorded sizes
    /// @reach 1,2
    fn c34_zlib_cut() { zlib_cut(); }
    /// zlib: any header, any checksum, three symbolic bytes
    /// @reach 1,2
    fn c34_zlib_header() { zlib_header(); }
    /// zlib: any stored block header, length and complement
    /// @reach 1,2
    fn c34_zlib_block() { zlib_block(); }
    /// zlib: three literals with fixed codes, copies of length 3 to 6 and distance 1 to 4, four recorded sizes
    /// @reach 1,2
    fn c34_zlib_fixed() { zlib_fixed(); }
    /// zstd: raw and repeated blocks of up to 7 symbolic bytes, second and skippable frames, nine recorded sizes
    /// @reach 1,2
    fn c34_zstd_sizes() { zstd_sizes(); }
    /// the same cut anywhere, eight recorded sizes
    /// @reach 1,2
    fn c34_zstd_cut() { zstd_cut(); }
    /// zstd: arbitrary header, size and first block of up to 31 bytes, three recorded sizes
    /// @reach 1,2
    fn c34_zstd_any() { zstd_any(); }
    /// up to four symbolic bytes, not compressed or in an unknown way
    /// @reach 1
    fn c34_none() { none(); }
    /// ELF of either class and byte order, any compression type, GNU header, not compressed
    /// @reach 1,2
    fn c34_section() { section(); }
}
