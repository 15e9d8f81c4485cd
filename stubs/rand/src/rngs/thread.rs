// Copyright 2018 Developers of the Rand project.
//
// Licensed under the Apache License, Version 2.0 <LICENSE-APACHE or
// https://www.apache.org/licenses/LICENSE-2.0> or the MIT license
// <LICENSE-MIT or https://opensource.org/licenses/MIT>, at your
// option. This file may not be copied, modified, or distributed
// except according to those terms.

//! Thread-local random number generator

use std::rc::Rc;

use crate::{CryptoRng, Error, RngCore};

/// VERIF: every word drawn from the thread-local generator is an arbitrary value
#[cfg_attr(doc_cfg, doc(cfg(all(feature = "std", feature = "std_rng"))))]
#[derive(Clone, Debug)]
pub struct ThreadRng {
    // Explicitly !Send and !Sync, as the original
    _rng: core::marker::PhantomData<Rc<()>>,
}

/// Retrieve the thread-local random number generator
pub fn thread_rng() -> ThreadRng {
    ThreadRng { _rng: core::marker::PhantomData }
}

impl Default for ThreadRng {
    fn default() -> ThreadRng {
        crate::prelude::thread_rng()
    }
}

impl RngCore for ThreadRng {
    #[inline(always)]
    fn next_u32(&mut self) -> u32 {
        crate::verif_word(32) as u32
    }

    #[inline(always)]
    fn next_u64(&mut self) -> u64 {
        crate::verif_word(64)
    }

    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for byte in dest {
            *byte = crate::verif_word(8) as u8;
        }
    }

    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

impl CryptoRng for ThreadRng {}


