//! The cases, over `crate::encryption` (the real module) and `crate::input`
//! (arbitrary bytes, or those of a counterexample).
use crate::encryption::symm::prelude::*;
use crate::encryption::symm::*;
use crate::input::*;
use aead::generic_array::typenum::Unsigned;
use aead::{Aead, NewAead};

fn vec(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    let mut i = 0;
    while i < n {
        v.push(byte());
        i += 1;
    }
    v
}
fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0;
    let mut i = 0;
    while i < a.len() {
        d |= a[i] ^ b[i];
        i += 1;
    }
    d == 0
}
fn gives(r: Result<Vec<u8>, aead::Error>, m: &[u8]) -> bool {
    match r {
        Ok(p) => eq(&p, m),
        Err(_) => false,
    }
}
fn key<E: NewAead>() -> Vec<u8> {
    vec(E::KeySize::to_usize())
}
fn nonce<E: Aead>() -> Vec<u8> {
    vec(E::NonceSize::to_usize())
}
fn make<E: Encryptor>(k: &[u8]) -> SymmetricEncryptor<E> {
    match SymmetricEncryptor::<E>::new_with_key(k) {
        Ok(e) => e,
        Err(_) => panic!("a key of the right length is accepted"),
    }
}

/// what is encrypted decrypts to the message
pub fn round<E: Encryptor>(aad: usize, len: usize) {
    let (k, n, a, m) = (key::<E>(), nonce::<E>(), vec(aad), vec(len));
    let e = make::<E>(&k);
    let c = match e.encrypt(&n[..], &a, &m) {
        Ok(c) => c,
        Err(_) => panic!("a message is encrypted"),
    };
    assert!(gives(e.decrypt(&n[..], &a, &c), &m), "an encrypted message is decrypted");
    let mut whole = n.clone();
    whole.extend_from_slice(&c);
    assert!(gives(e.decrypt_easy(&a, &whole), &m), "a message with its nonce in front is decrypted");
}
/// and with a nonce drawn by the library
pub fn easy<E: Encryptor>(aad: usize, len: usize) {
    let (k, a, m) = (key::<E>(), vec(aad), vec(len));
    let e = make::<E>(&k);
    let c = match e.encrypt_easy(&a, &m) {
        Ok(c) => c,
        Err(_) => panic!("a message is encrypted"),
    };
    let n = E::NonceSize::to_usize();
    assert!(c.len() > n, "the nonce is in front");
    assert!(gives(e.decrypt_easy(&a, &c), &m), "an encrypted message is decrypted");
    assert!(gives(e.decrypt(&c[..n], &a[..], &c[n..]), &m), "the nonce in front is the one that was used");
}
/// through streams
pub fn stream_in<E: Encryptor>(aad: usize, len: usize) {
    let (k, a, m) = (key::<E>(), vec(aad), vec(len));
    let e = make::<E>(&k);
    let mut c = Vec::new();
    assert!(e.encrypt_buffer(&a, &mut &m[..], &mut c).is_ok(), "a stream is encrypted");
    assert!(gives(e.decrypt_easy(&a, &c), &m), "a stream is encrypted as its bytes are");
}
pub fn stream_out<E: Encryptor>(aad: usize, len: usize) {
    let (k, a, m) = (key::<E>(), vec(aad), vec(len));
    let e = make::<E>(&k);
    let c = match e.encrypt_easy(&a, &m) {
        Ok(c) => c,
        Err(_) => panic!("a message is encrypted"),
    };
    let mut p = Vec::new();
    assert!(e.decrypt_buffer(&a, &mut &c[..], &mut p).is_ok() && eq(&p, &m), "a stream of encrypted bytes is decrypted");
}
/// through the type's name
pub fn named<E: Encryptor>(t: EncryptorType, len: usize) {
    let (k, n, a, m) = (key::<E>(), nonce::<E>(), vec(1), vec(len));
    let e = make::<E>(&k);
    let d = t.gen_encryptor(&k);
    assert!(d.keysize() == k.len() && t.is_valid_keysize(k.len()) && !t.is_valid_keysize(k.len() + 1), "the size of keys");
    assert!(d.noncesize() == n.len() && t.is_valid_noncesize(n.len()) && !t.is_valid_noncesize(n.len() + 1), "the size of nonces");
    match d.encrypt(&n, &a, &m) {
        Ok(c) => {
            assert!(gives(e.decrypt(&n, &a, &c), &m), "a name stands for its cipher");
            assert!(gives(d.decrypt(&n, &a, &c), &m), "a name's cipher decrypts");
        }
        Err(_) => panic!("a message is encrypted"),
    }
}
pub fn named_out<E: Encryptor>(t: EncryptorType, len: usize) {
    let (k, a, m) = (key::<E>(), vec(1), vec(len));
    match make::<E>(&k).encrypt_easy(&a, &m) {
        Ok(c) => assert!(gives(t.gen_encryptor(&k).decrypt_easy(&a, &c), &m), "a name stands for its cipher"),
        Err(_) => panic!("a message is encrypted"),
    }
}
pub fn named_in<E: Encryptor>(t: EncryptorType, len: usize) {
    let (k, a, m) = (key::<E>(), vec(1), vec(len));
    match t.gen_encryptor(&k).encrypt_easy(&a, &m) {
        Ok(c) => assert!(gives(make::<E>(&k).decrypt_easy(&a, &c), &m), "a name stands for its cipher"),
        Err(_) => panic!("a message is encrypted"),
    }
}
/// anything but what was encrypted is refused: any bytes of the nonce, the
/// associated data and the ciphertext are changed, `grow` bytes are added (or removed)
pub fn altered<E: Encryptor>(aad: usize, len: usize, grow: i64) {
    let (k, n, a, m) = (key::<E>(), nonce::<E>(), vec(aad), vec(len));
    let (dn, da) = (nonce::<E>(), vec(aad));
    // as many changed bytes as there can be
    let d = vec(128);
    let e = make::<E>(&k);
    let c = match e.encrypt(&n, &a, &m) {
        Ok(c) => c,
        Err(_) => panic!("a message is encrypted"),
    };
    let xor = |x: &[u8], d: &[u8], n: usize| {
        let mut v = Vec::with_capacity(n);
        let mut i = 0;
        while i < n {
            v.push(if i < x.len() { x[i] ^ d[i] } else { d[i] });
            i += 1;
        }
        v
    };
    let size = c.len() as i64 + grow;
    assert!(size >= 0 && size <= 128, "the harness's bound on lengths");
    let (n2, a2, c2) = (xor(&n, &dn, n.len()), xor(&a, &da, aad), xor(&c, &d, size as usize));
    assume(!eq(&n, &n2) || !eq(&a, &a2) || !eq(&c, &c2));
    presented(&c2);
    let mut whole = n2.clone();
    whole.extend_from_slice(&c2);
    assert!(e.decrypt(&n2, &a2, &c2).is_err(), "what was not encrypted is refused");
    assert!(e.decrypt_easy(&a2, &whole).is_err(), "what was not encrypted is refused, with its nonce in front");
}
/// with other associated data alone
pub fn other_data<E: Encryptor>(aad: usize, len: usize) {
    let (k, a, b, m) = (key::<E>(), vec(aad), vec(aad), vec(len));
    assume(!eq(&a, &b));
    let n = vec![9u8; E::NonceSize::to_usize()];
    let e = make::<E>(&k);
    match e.encrypt(&n, &a, &m) {
        Ok(c) => {
            presented(&c);
            assert!(e.decrypt(&n, &b, &c).is_err(), "other associated data are refused");
        }
        Err(_) => panic!("a message is encrypted"),
    }
}
/// under another key
pub fn other_key<E: Encryptor>(len: usize) {
    let (k, n, a, m) = (key::<E>(), nonce::<E>(), vec(1), vec(len));
    let k2 = key::<E>();
    // the part of the key that authenticates
    let from = if E::TagSize::to_usize() == 16 { 0 } else { k.len() / 2 };
    assume(!eq(&k[from..], &k2[from..]));
    let (e, f) = (make::<E>(&k), make::<E>(&k2));
    match e.encrypt(&n, &a, &m) {
        Ok(c) => {
            presented(&c);
            assert!(f.decrypt(&n, &a, &c).is_err(), "another key does not decrypt");
        }
        Err(_) => panic!("a message is encrypted"),
    }
}
/// any string of any length is an error or a message, never a panic
pub fn malformed<E: Encryptor>(len: usize) {
    let (k, a, c) = (key::<E>(), vec(1), vec(len));
    presented(&c);
    let e = make::<E>(&k);
    assert!(e.decrypt_easy(&a, &c).is_err(), "a string that was not encrypted is refused");
    if len >= E::NonceSize::to_usize() {
        let n = E::NonceSize::to_usize();
        assert!(e.decrypt(&c[..n], &a[..], &c[n..]).is_err(), "a string that was not encrypted is refused");
    }
}
/// keys and nonces of another length are errors
pub fn lengths<E: Encryptor>(len: usize) {
    let (k, n, s) = (key::<E>(), nonce::<E>(), vec(len));
    let e = make::<E>(&k);
    let r = SymmetricEncryptor::<E>::new_with_key(&s);
    assert!(r.is_ok() == (len == k.len()), "a key of another length is refused");
    let r = e.encrypt(&s[..], &b""[..], &b"m"[..]);
    assert!(r.is_ok() == (len == n.len()), "a nonce of another length is refused");
    if len != n.len() {
        assert!(e.decrypt(&s[..], &b""[..], &k[..]).is_err(), "a nonce of another length is refused");
    }
}
/// the end of the associated data is not the beginning of the nonce
pub fn shifted<E: Encryptor>(aad: usize, len: usize) {
    let (k, n, a, m) = (key::<E>(), nonce::<E>(), vec(aad), vec(len));
    let e = make::<E>(&k);
    match e.encrypt(&n, &a, &m) {
        Ok(c) => {
            let mut a2 = a.clone();
            a2.extend_from_slice(&n);
            let at = n.len();
            presented(&c[at..]);
            assert!(e.decrypt(&c[..at], &a2[..], &c[at..]).is_err(), "the nonce is not associated data");
        }
        Err(_) => panic!("a message is encrypted"),
    }
}
