//! CBC with PKCS#7 padding over the stand-in permutation (exclusive or with the key).
use aes::Block;
use std::marker::PhantomData;
pub mod block_padding {
    pub struct Pkcs7;
}
#[derive(Debug)]
pub struct InvalidKeyIvLength;
#[derive(Debug)]
pub struct BlockModeError;
pub struct Cbc<C, P> {
    key: [u8; 16],
    iv: [u8; 16],
    _p: PhantomData<(C, P)>,
}
pub trait BlockMode: Sized {
    fn new_var(key: &[u8], iv: &[u8]) -> Result<Self, InvalidKeyIvLength>;
    fn encrypt_vec(self, msg: &[u8]) -> Vec<u8>;
    fn decrypt_vec(self, msg: &[u8]) -> Result<Vec<u8>, BlockModeError>;
}
impl<C: Block> BlockMode for Cbc<C, block_padding::Pkcs7> {
    fn new_var(key: &[u8], iv: &[u8]) -> Result<Self, InvalidKeyIvLength> {
        if key.len() != C::KEY || iv.len() != 16 {
            return Err(InvalidKeyIvLength);
        }
        let (mut k, mut v) = ([0; 16], [0; 16]);
        let mut i = 0;
        while i < 16 {
            k[i] = if C::KEY == 32 { key[i] ^ key[16 + i] } else { key[i] };
            v[i] = iv[i];
            i += 1;
        }
        Ok(Cbc { key: k, iv: v, _p: PhantomData })
    }
    fn encrypt_vec(mut self, msg: &[u8]) -> Vec<u8> {
        let pad = 16 - msg.len() % 16;
        let n = msg.len() + pad;
        let mut out = Vec::with_capacity(n);
        let mut i = 0;
        while i < n {
            let p = if i < msg.len() { msg[i] } else { pad as u8 };
            let c = p ^ self.iv[i % 16] ^ self.key[i % 16];
            self.iv[i % 16] = c;
            out.push(c);
            i += 1;
        }
        out
    }
    fn decrypt_vec(mut self, msg: &[u8]) -> Result<Vec<u8>, BlockModeError> {
        let n = msg.len();
        if n == 0 || n % 16 != 0 {
            return Err(BlockModeError);
        }
        let mut out = Vec::with_capacity(n);
        let mut i = 0;
        while i < n {
            out.push(msg[i] ^ self.iv[i % 16] ^ self.key[i % 16]);
            self.iv[i % 16] = msg[i];
            i += 1;
        }
        let pad = out[n - 1];
        if pad == 0 || pad > 16 {
            return Err(BlockModeError);
        }
        let mut ok = true;
        let mut i = 0;
        while i < 16 {
            if i < pad as usize && out[n - 1 - i] != pad {
                ok = false;
            }
            i += 1;
        }
        if !ok {
            return Err(BlockModeError);
        }
        out.truncate(n - pad as usize);
        Ok(out)
    }
}
