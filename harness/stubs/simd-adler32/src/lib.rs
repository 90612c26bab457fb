//! Model of `simd-adler32`: bytewise Adler-32 (same function, no detection of instruction sets).
#![no_std]
#[derive(Clone)]
pub struct Adler32 { a: u16, b: u16 }
impl Default for Adler32 { fn default() -> Self { Self::new() } }
fn add(a: u32, b: u32) -> u32 { let c = a + b; if c >= 65521 { c - 65521 } else { c } }
impl Adler32 {
    pub fn new() -> Self { Adler32 { a: 1, b: 0 } }
    pub fn from_checksum(c: u32) -> Self { Adler32 { a: c as u16, b: (c >> 16) as u16 } }
    pub fn write(&mut self, data: &[u8]) {
        let (mut a, mut b) = (self.a as u32, self.b as u32);
        for &x in data { a = add(a, x as u32); b = add(b, a); }
        self.a = a as u16;
        self.b = b as u16;
    }
    pub fn finish(&self) -> u32 { (self.b as u32) << 16 | self.a as u32 }
    pub fn reset(&mut self) { *self = Self::new(); }
}
pub fn adler32_bytes(data: &[u8]) -> u32 { let mut h = Adler32::new(); h.write(data); h.finish() }
