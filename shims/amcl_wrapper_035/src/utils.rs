use crate::constants::FieldElement_SIZE;
use sha3::digest::{ExtendableOutput, Input, XofReader};
use sha3::Shake256;

/// Hash message and return output of size equal to curve modulus. Uses SHAKE to hash the message.
pub fn hash_msg(msg: &[u8]) -> [u8; FieldElement_SIZE] {
    let mut hasher = Shake256::default();
    hasher.input(&msg);
    let mut h: [u8; FieldElement_SIZE] = [0; FieldElement_SIZE];
    hasher.xof_result().read(&mut h);
    h
}

pub fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 == 1 {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}
