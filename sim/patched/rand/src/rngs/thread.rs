// Copyright 2018 Developers of the Rand project.
//
// Licensed under the Apache License, Version 2.0 <LICENSE-APACHE or
// https://www.apache.org/licenses/LICENSE-2.0> or the MIT license
// <LICENSE-MIT or https://opensource.org/licenses/MIT>, at your
// option. This file may not be copied, modified, or distributed
// except according to those terms.

//! Thread-local random number generator

// Replaced for simulation: every output is drawn from the simulator's entropy source.

use crate::{CryptoRng, Error, RngCore};

/// Handle to the thread's generator, see `rand::thread_rng`.
#[derive(Copy, Clone, Debug)]
pub struct ThreadRng {
    // neither Send nor Sync, like the original
    not_send: core::marker::PhantomData<*mut ()>,
}

/// The thread-local generator.
pub fn thread_rng() -> ThreadRng {
    ThreadRng { not_send: core::marker::PhantomData }
}

impl Default for ThreadRng {
    fn default() -> ThreadRng {
        crate::prelude::thread_rng()
    }
}

impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0u8; 4];
        seam::thread_entropy(&mut b);
        u32::from_le_bytes(b)
    }

    fn next_u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        seam::thread_entropy(&mut b);
        u64::from_le_bytes(b)
    }

    fn fill_bytes(&mut self, dest: &mut [u8]) {
        seam::thread_entropy(dest)
    }

    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        seam::thread_entropy(dest);
        Ok(())
    }
}

impl CryptoRng for ThreadRng {}
