//! Ideal authenticated encryption: what was not made by `encrypt` is refused.
use aead::generic_array::typenum::{U0, U12, U16, U24, U32};
use aead::generic_array::GenericArray;
use aead::{Aead, Error, NewAead, Payload};

static mut TABLE: Vec<(Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>)> = Vec::new();

fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0;
    let mut i = 0;
    while i < a.len() {
        d |= a[i] ^ b[i];
        i += 1;
    }
    d == 0
}
macro_rules! ideal {
    ($n:ident, $k:ident, $nonce:ident) => {
        pub struct $n {
            key: Vec<u8>,
        }
        impl NewAead for $n {
            type KeySize = $k;
            fn new(key: &GenericArray<u8, $k>) -> Self {
                $n { key: key.to_vec() }
            }
        }
        impl Aead for $n {
            type NonceSize = $nonce;
            type TagSize = U16;
            type CiphertextOverhead = U0;
            fn encrypt<'m, 'a>(&self, nonce: &GenericArray<u8, $nonce>, p: impl Into<Payload<'m, 'a>>) -> Result<Vec<u8>, Error> {
                let p = p.into();
                let n = p.msg.len() + 16;
                let mut c = Vec::with_capacity(n);
                let mut i = 0;
                while i < n {
                    c.push(kani::any::<u8>());
                    i += 1;
                }
                let table = unsafe { &mut *std::ptr::addr_of_mut!(TABLE) };
                table.push((self.key.clone(), nonce.to_vec(), p.aad.to_vec(), p.msg.to_vec(), c.clone()));
                Ok(c)
            }
            fn decrypt<'m, 'a>(&self, nonce: &GenericArray<u8, $nonce>, p: impl Into<Payload<'m, 'a>>) -> Result<Vec<u8>, Error> {
                let p = p.into();
                let table = unsafe { &*std::ptr::addr_of!(TABLE) };
                let mut i = 0;
                while i < table.len() {
                    let e = &table[i];
                    if eq(&e.0, &self.key) && eq(&e.1, nonce) && eq(&e.2, p.aad) && eq(&e.4, p.msg) {
                        return Ok(e.3.clone());
                    }
                    i += 1;
                }
                Err(Error)
            }
        }
    };
}
pub mod gcm {
    use super::*;
    ideal!(Aes128Gcm, U16, U12);
    ideal!(Aes256Gcm, U32, U12);
}
pub mod chacha {
    use super::*;
    ideal!(ChaCha20Poly1305, U32, U12);
    ideal!(XChaCha20Poly1305, U32, U24);
}
