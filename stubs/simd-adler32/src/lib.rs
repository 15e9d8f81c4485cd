//! The interface of simd-adler32 0.3.7 (as far as used) with a plain implementation.

/// Both sums modulo 65521, which is subtracted as soon as it is reached
pub fn adler(from: u32, data: &[u8]) -> u32 {
    let (mut a, mut b) = (from & 0xffff, from >> 16);
    for &x in data {
        a += x as u32;
        a -= 65521 & 0u32.wrapping_sub((a >= 65521) as u32);
        b += a;
        b -= 65521 & 0u32.wrapping_sub((b >= 65521) as u32);
    }
    b << 16 | a
}

#[derive(Clone)]
pub struct Adler32 {
    state: u32,
}

impl Default for Adler32 {
    fn default() -> Self {
        Self::new()
    }
}

impl Adler32 {
    pub fn new() -> Self {
        Adler32 { state: 1 }
    }
    pub fn from_checksum(checksum: u32) -> Self {
        Adler32 { state: checksum }
    }
    pub fn write(&mut self, data: &[u8]) {
        self.state = adler(self.state, data);
    }
    pub fn finish(&self) -> u32 {
        self.state
    }
    pub fn reset(&mut self) {
        self.state = 1;
    }
}

pub fn adler32(data: &[u8]) -> u32 {
    adler(1, data)
}
