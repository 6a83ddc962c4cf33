//! Stand-ins for AES: key sizes, and a keyed permutation of blocks. What the
//! code under test must guarantee does not rest on more.
pub trait Block {
    const KEY: usize;
}
pub struct Aes128;
pub struct Aes256;
impl Block for Aes128 {
    const KEY: usize = 16;
}
impl Block for Aes256 {
    const KEY: usize = 32;
}
