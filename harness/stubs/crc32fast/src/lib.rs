//! Model of `crc32fast`: bitwise CRC-32 (same function, no tables).
#![no_std]
#[derive(Clone, Debug)]
pub struct Hasher { state: u32 }
impl Default for Hasher { fn default() -> Self { Self::new() } }
impl Hasher {
    pub fn new() -> Self { Self::new_with_initial(0) }
    pub fn new_with_initial(init: u32) -> Self { Hasher { state: init } }
    pub fn update(&mut self, data: &[u8]) {
        let mut c = !self.state;
        for b in data {
            c ^= *b as u32;
            let mut k = 0;
            while k < 8 { c = if c & 1 != 0 { (c >> 1) ^ 0xedb8_8320 } else { c >> 1 }; k += 1; }
        }
        self.state = !c;
    }
    pub fn reset(&mut self) { self.state = 0; }
    // only what is compiled needs it
    pub fn combine(&mut self, _: &Self) { unimplemented!() }
    pub fn finalize(self) -> u32 { self.state }
}
pub fn hash(buf: &[u8]) -> u32 { let mut h = Hasher::new(); h.update(buf); h.finalize() }
