// Copyright 2018 Developers of the Rand project.
//
// Licensed under the Apache License, Version 2.0 <LICENSE-APACHE or
// https://www.apache.org/licenses/LICENSE-2.0> or the MIT license
// <LICENSE-MIT or https://opensource.org/licenses/MIT>, at your
// option. This file may not be copied, modified, or distributed
// except according to those terms.

//! Thread-local random number generator -- VERIFICATION STAND-IN.
//!
//! Every word is an arbitrary value of its type (a symbolic variable under Kani, the next value of
//! the counterexample in a native replay).

use crate::{CryptoRng, Error, RngCore};

/// Handle to the (symbolic) thread-local generator.
#[derive(Copy, Clone, Debug)]
pub struct ThreadRng {
    // neither Send nor Sync, as in the real crate
    _not_send: core::marker::PhantomData<*mut u8>,
}

/// Retrieve the (symbolic) thread-local random number generator.
pub fn thread_rng() -> ThreadRng {
    ThreadRng { _not_send: core::marker::PhantomData }
}

impl Default for ThreadRng {
    fn default() -> ThreadRng {
        crate::prelude::thread_rng()
    }
}

impl RngCore for ThreadRng {
    #[inline(always)]
    fn next_u32(&mut self) -> u32 {
        let v = nd::u32();
        nd::log_draw(v as u64);
        v
    }

    #[inline(always)]
    fn next_u64(&mut self) -> u64 {
        let v = nd::u64();
        nd::log_draw(v);
        v
    }

    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = nd::u8();
            nd::log_draw(*b as u64);
        }
    }

    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

impl CryptoRng for ThreadRng {}
