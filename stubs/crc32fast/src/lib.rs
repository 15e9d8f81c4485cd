//! The interface of crc32fast 1.4.2 with a plain implementation (no tables, no processor features).

/// The polynomial division of the bytes, bit by bit
pub fn crc32(init: u32, bytes: &[u8]) -> u32 {
    let mut c = !init;
    for &b in bytes {
        c ^= b as u32;
        let mut k = 0;
        while k < 8 {
            c = (c >> 1) ^ (0xedb8_8320 & 0u32.wrapping_sub(c & 1));
            k += 1;
        }
    }
    !c
}

pub fn hash(buf: &[u8]) -> u32 {
    crc32(0, buf)
}

#[derive(Clone, Debug, Default)]
pub struct Hasher {
    state: u32,
    amount: u64,
}

impl Hasher {
    pub fn new() -> Self {
        Self::new_with_initial(0)
    }
    pub fn new_with_initial(init: u32) -> Self {
        Self::new_with_initial_len(init, 0)
    }
    pub fn new_with_initial_len(init: u32, amount: u64) -> Self {
        Hasher { state: init, amount }
    }
    pub fn update(&mut self, buf: &[u8]) {
        self.amount += buf.len() as u64;
        self.state = crc32(self.state, buf);
    }
    pub fn finalize(self) -> u32 {
        self.state
    }
    pub fn reset(&mut self) {
        self.state = 0;
        self.amount = 0;
    }
    pub fn combine(&mut self, other: &Self) {
        // Append as many zeros as the other one has bytes, without its initial and final inversions
        let mut c = self.state;
        for _ in 0..other.amount {
            let mut k = 0;
            while k < 8 {
                c = (c >> 1) ^ (0xedb8_8320 & 0u32.wrapping_sub(c & 1));
                k += 1;
            }
        }
        self.state = c ^ other.state;
        self.amount += other.amount;
    }
}

impl std::hash::Hasher for Hasher {
    fn write(&mut self, bytes: &[u8]) {
        self.update(bytes)
    }
    fn finish(&self) -> u64 {
        u64::from(self.clone().finalize())
    }
}
