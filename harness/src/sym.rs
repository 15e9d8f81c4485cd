//! Interface between harnesses and the symbolic executor (or, when replaying, recorded inputs).

extern "C" {
    /// A fresh symbolic integer of `bits` bits (zero extended)
    pub fn __sym_int(bits: u32, tag: u32) -> u64;
    /// Restrict the exploration to inputs satisfying `cond`
    pub fn __sym_assume(cond: bool);
    /// Report a violation if `cond` can be false
    pub fn __sym_assert(cond: bool, msg: *const u8, len: usize);
    /// Mark a situation that must be reachable for the check to be meaningful
    pub fn __sym_cover(msg: *const u8, len: usize);
    /// Record an observable value, compared when a path is validated natively
    pub fn __sym_observe(v: u64);
    /// Number of live heap allocations
    pub fn __sym_live_heap() -> u64;
    /// Configuration value of the job
    pub fn __sym_param(i: u32) -> u64;
    /// Split into one path per feasible value
    pub fn __sym_split(v: u64) -> u64;
    /// Set the merge policy: the number of differing bytes two states may have to be merged
    pub fn __sym_merge(limit: u32);
    /// Is this property (three characters) being checked?
    pub fn __sym_wants(id: u32) -> bool;
}

#[inline]
pub fn int(bits: u32) -> u64 {
    unsafe { __sym_int(bits, 1) }
}
#[inline]
pub fn byte() -> u8 {
    int(8) as u8
}
#[inline]
pub fn boolean() -> bool {
    int(1) != 0
}
/// An arbitrary value of `lo..=hi`
#[inline]
pub fn range(lo: u64, hi: u64) -> u64 {
    if lo == hi {
        return lo;
    }
    let span = hi - lo;
    let bits = if span < 0x100 {
        8
    } else if span < 0x1_0000_0000 {
        32
    } else {
        64
    };
    let v = int(bits);
    assume(v <= span);
    lo + v
}
#[inline]
pub fn assume(cond: bool) {
    unsafe { __sym_assume(cond) }
}
#[inline]
pub fn check(cond: bool, msg: &'static str) {
    unsafe { __sym_assert(cond, msg.as_ptr(), msg.len()) }
}
#[inline]
pub fn cover(msg: &'static str) {
    unsafe { __sym_cover(msg.as_ptr(), msg.len()) }
}
pub fn cover_owned(msg: &str) {
    unsafe { __sym_cover(msg.as_ptr(), msg.len()) }
}
#[inline]
pub fn observe(v: u64) {
    unsafe { __sym_observe(v) }
}
#[inline]
pub fn live_heap() -> u64 {
    unsafe { __sym_live_heap() }
}
#[inline]
pub fn param(i: u32) -> u64 {
    unsafe { __sym_param(i) }
}
#[inline]
/// Is the call under test not the first one? (1: a similar one came before, 2: the arbitrary one itself)
pub fn again() -> u64 {
    param(15)
}
pub fn split(v: u64) -> u64 {
    unsafe { __sym_split(v) }
}
#[inline]
pub fn merge(limit: u32) {
    unsafe { __sym_merge(limit) }
}

#[inline]
pub fn wants(id: &'static [u8; 3]) -> bool {
    unsafe { __sym_wants((id[0] as u32) << 16 | (id[1] as u32) << 8 | id[2] as u32) }
}

/// The executor's side when replaying natively: inputs come from a file
#[cfg(feature = "replay")]
pub mod native {
    use std::sync::Mutex;
    pub struct Run {
        pub params: Vec<u64>,
        pub inputs: Vec<u64>,
        pub next: usize,
        /// Continue with pseudo-random inputs (if not zero)
        pub extend: u64,
        pub property: String,
    }
    pub static RUN: Mutex<Option<Run>> = Mutex::new(None);
    fn done(code: i32) -> ! {
        use std::io::Write;
        let _ = std::io::stdout().flush();
        std::process::exit(code)
    }
    #[no_mangle]
    extern "C" fn __sym_int(bits: u32, _tag: u32) -> u64 {
        let mut g = RUN.lock().unwrap();
        let r = g.as_mut().unwrap();
        let v = match r.inputs.get(r.next) {
            Some(&v) => v,
            None if r.extend != 0 => {
                // xorshift
                r.extend ^= r.extend << 13;
                r.extend ^= r.extend >> 7;
                r.extend ^= r.extend << 17;
                r.extend
            }
            None => {
                println!("INPUTS exhausted");
                done(78)
            }
        };
        r.next += 1;
        if bits < 64 {
            v & ((1 << bits) - 1)
        } else {
            v
        }
    }
    #[no_mangle]
    extern "C" fn __sym_assume(cond: bool) {
        if !cond {
            println!("ASSUME false");
            done(77)
        }
    }
    #[no_mangle]
    unsafe extern "C" fn __sym_assert(cond: bool, msg: *const u8, len: usize) {
        if !cond {
            let msg = std::str::from_utf8_unchecked(std::slice::from_raw_parts(msg, len));
            let mine = RUN.lock().unwrap().as_ref().unwrap().property.clone();
            let id = msg.split(' ').next().unwrap_or("");
            if !mine.is_empty() && id.len() == 3 && id != mine {
                return;
            }
            println!("ASSERT {}", msg);
            done(10)
        }
    }
    #[no_mangle]
    extern "C" fn __sym_cover(_: *const u8, _: usize) {}
    #[no_mangle]
    extern "C" fn __sym_observe(v: u64) {
        println!("OBS {}", v);
    }
    #[no_mangle]
    extern "C" fn __sym_live_heap() -> u64 {
        crate::alloc::imp::LIVE.load(std::sync::atomic::Ordering::SeqCst) as u64
    }
    #[no_mangle]
    extern "C" fn __sym_param(i: u32) -> u64 {
        RUN.lock().unwrap().as_ref().unwrap().params.get(i as usize).copied().unwrap_or(0)
    }
    #[no_mangle]
    extern "C" fn __sym_split(v: u64) -> u64 {
        v
    }
    #[no_mangle]
    extern "C" fn __sym_merge(_: u32) {}
    #[no_mangle]
    extern "C" fn __sym_wants(id: u32) -> bool {
        let g = RUN.lock().unwrap();
        let p = &g.as_ref().unwrap().property;
        p.is_empty() || p.as_bytes() == &id.to_be_bytes()[1..]
    }
}

/// A fixed sequence of arbitrary numbers
pub fn random(state: &mut u64) -> u64 {
    *state ^= *state << 13;
    *state ^= *state >> 7;
    *state ^= *state << 17;
    *state >> 20
}
