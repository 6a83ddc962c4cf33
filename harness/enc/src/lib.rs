//! E01: the real encryption module, compiled from the repository's source over
//! ideal primitives.
#![allow(dead_code, unused_imports)]
#[path = "/repo/libursa/src/encryption/mod.rs"]
pub mod encryption;

mod input {
    pub fn byte() -> u8 {
        kani::any()
    }
    pub fn assume(b: bool) {
        kani::assume(b)
    }
    pub fn presented(b: &[u8]) {
        hmac::presented(b)
    }
}
#[cfg(kani)]
mod cases;
#[cfg(kani)]
mod proofs;
