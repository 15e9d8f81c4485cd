//! What `rand` draws: by default any value, or mostly values of a fixed sequence.
use crate::sym;

struct Source {
    /// State of the fixed sequence (0: every draw is arbitrary)
    state: u64,
    /// Draws before the arbitrary ones, and number of those
    skip: u64,
    free: u64,
}
static mut SOURCE: Source = Source { state: 0, skip: 0, free: 0 };

/// From now on, only `free` draws after the next `skip` ones are arbitrary
pub fn fix(seed: u64, skip: u64, free: u64) {
    unsafe { SOURCE = Source { state: seed, skip, free } }
}

/// From now on, every draw is arbitrary
pub fn release() {
    unsafe { SOURCE = Source { state: 0, skip: 0, free: 0 } }
}

fn next() -> Option<u64> {
    unsafe {
        let s = &mut *std::ptr::addr_of_mut!(SOURCE);
        if s.state == 0 {
            return None;
        }
        if s.skip > 0 {
            s.skip -= 1;
        } else if s.free > 0 {
            s.free -= 1;
            return None;
        }
        s.state ^= s.state << 13;
        s.state ^= s.state >> 7;
        s.state ^= s.state << 17;
        Some(s.state)
    }
}

#[no_mangle]
extern "C" fn __rng_range(span: u64) -> u64 {
    match next() {
        Some(v) => (v >> 11) % (span + 1),
        None => {
            let v = if span <= 0xff {
                sym::int(8)
            } else if span <= 0xffff_ffff {
                sym::int(32)
            } else {
                sym::int(64)
            };
            sym::assume(v <= span);
            v
        }
    }
}

#[no_mangle]
extern "C" fn __rng_word(bits: u32) -> u64 {
    match next() {
        Some(v) => v >> (64 - bits),
        None => sym::int(bits),
    }
}
