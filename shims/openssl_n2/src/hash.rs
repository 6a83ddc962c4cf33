//! SHA-256: a random oracle on data that mentions symbolic values.
use crate::error::ErrorStack;
use sha2::Digest;

#[derive(Clone, Copy)]
pub struct MessageDigest(());
impl MessageDigest {
    pub fn sha256() -> Self {
        MessageDigest(())
    }
}
const MAGIC: [u8; 6] = [0x9e, b'S', b'Y', b'M', 0xe7, 0x01];
fn digest(data: &[u8]) -> Vec<u8> {
    if data.windows(6).any(|w| w == MAGIC) {
        let id = symcore::oracle("sha256", data);
        symcore::ints::set_range(
            id,
            symcore::BigInt::from(0),
            symcore::ints::pow2(256) - symcore::BigInt::from(1),
        );
        return symcore::ints::int_bytes(id);
    }
    sha2::Sha256::digest(data).to_vec()
}
#[derive(Clone)]
pub struct DigestBytes(Vec<u8>);
impl std::ops::Deref for DigestBytes {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl AsRef<[u8]> for DigestBytes {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
pub fn hash(_t: MessageDigest, data: &[u8]) -> Result<DigestBytes, ErrorStack> {
    Ok(DigestBytes(digest(data)))
}
pub struct Hasher(Vec<u8>);
impl Hasher {
    pub fn new(_t: MessageDigest) -> Result<Self, ErrorStack> {
        Ok(Hasher(vec![]))
    }
    pub fn update(&mut self, d: &[u8]) -> Result<(), ErrorStack> {
        self.0.extend_from_slice(d);
        Ok(())
    }
    pub fn finish(&mut self) -> Result<DigestBytes, ErrorStack> {
        let d = std::mem::replace(&mut self.0, vec![]);
        Ok(DigestBytes(digest(&d)))
    }
}
