//! Deterministic stand-in for the `getrandom` crate.
//!
//! The library under test draws its random segment-insertion order from `rand::thread_rng()`, which seeds itself
//! through `getrandom`.  The harness runs every case on a fresh thread, sets this thread's seed first, and thereby
//! controls (and can replay) the "schedule" of the randomized algorithm.
use std::{cell::Cell, fmt, num::NonZeroU32, sync::atomic::{AtomicU64, Ordering}};

pub static CALLS: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static STATE: Cell<u64> = const { Cell::new(0x1234_5678_9abc_def0) };
}

/// Set the entropy stream of the calling thread.
pub fn verif_set_seed(seed: u64) {
    STATE.with(|s| s.set(seed));
}

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    CALLS.fetch_add(1, Ordering::Relaxed);
    STATE.with(|s| {
        for chunk in dest.chunks_mut(8) {
            let mut z = s.get().wrapping_add(0x9e37_79b9_7f4a_7c15);
            s.set(z);
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
            z ^= z >> 31;
            chunk.copy_from_slice(&z.to_le_bytes()[..chunk.len()]);
        }
    });
    Ok(())
}

#[derive(Copy, Clone, PartialEq, Eq)]
pub struct Error(NonZeroU32);

impl Error {
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub fn raw_os_error(self) -> Option<i32> { None }
    pub const fn code(self) -> NonZeroU32 { self.0 }
}
impl From<NonZeroU32> for Error { fn from(c: NonZeroU32) -> Self { Self(c) } }
impl fmt::Debug for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "getrandom::Error({})", self.0) } }
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "getrandom::Error({})", self.0) } }
impl std::error::Error for Error {}
impl From<Error> for std::io::Error { fn from(e: Error) -> Self { std::io::Error::new(std::io::ErrorKind::Other, e) } }
