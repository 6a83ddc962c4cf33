//! An ideal MAC: every new pair of key and input gets an arbitrary tag that
//! differs from the tags of other inputs and from what the adversary presents.
use generic_array::typenum::Unsigned;
use generic_array::GenericArray;
use sha2::Size;
use std::marker::PhantomData;

const MAX: usize = 192;
/// a string of at most MAX bytes
#[derive(Clone, Copy)]
struct Str {
    b: [u8; MAX],
    n: usize,
}
impl Str {
    const EMPTY: Str = Str { b: [0; MAX], n: 0 };
    fn add(&mut self, s: &[u8]) {
        assert!(self.n + s.len() <= MAX, "the stand-in takes inputs of at most 192 bytes");
        let mut i = 0;
        while i < s.len() {
            self.b[self.n + i] = s[i];
            i += 1;
        }
        self.n += s.len();
    }
    fn is(&self, o: &Str) -> bool {
        if self.n != o.n {
            return false;
        }
        let mut d = 0;
        let mut i = 0;
        while i < self.n {
            d |= self.b[i] ^ o.b[i];
            i += 1;
        }
        d == 0
    }
}
struct Entry {
    key: Str,
    input: Str,
    tag: [u8; 64],
}
const NONE: Entry = Entry { key: Str::EMPTY, input: Str::EMPTY, tag: [0; 64] };
static mut TABLE: [Entry; 4] = [NONE; 4];
static mut USED: usize = 0;
static mut PRESENTED: Str = Str::EMPTY;

/// the adversary's string is fixed: no new tag is the end of it
pub fn presented(bytes: &[u8]) {
    unsafe {
        PRESENTED = Str::EMPTY;
        (*std::ptr::addr_of_mut!(PRESENTED)).add(bytes);
    }
}
#[derive(Debug)]
pub struct InvalidKeyLength;
pub struct Hmac<D> {
    key: Str,
    input: Str,
    _d: PhantomData<D>,
}
pub struct MacResult<N: generic_array::ArrayLength<u8>>(GenericArray<u8, N>);
impl<N: generic_array::ArrayLength<u8>> MacResult<N> {
    pub fn code(self) -> GenericArray<u8, N> {
        self.0
    }
}
pub trait Mac: Sized {
    type N: generic_array::ArrayLength<u8>;
    fn new_varkey(key: &[u8]) -> Result<Self, InvalidKeyLength>;
    fn input(&mut self, data: &[u8]);
    fn result(self) -> MacResult<Self::N>;
    fn verify(self, code: &[u8]) -> Result<(), MacError>;
}
#[derive(Debug)]
pub struct MacError;
fn same(a: &[u8], b: &[u8], n: usize) -> bool {
    let mut d = 0;
    let mut i = 0;
    while i < n {
        d |= a[i] ^ b[i];
        i += 1;
    }
    d == 0
}
impl<D: Size> Mac for Hmac<D> {
    type N = D::N;
    fn new_varkey(key: &[u8]) -> Result<Self, InvalidKeyLength> {
        let mut k = Str::EMPTY;
        k.add(key);
        Ok(Hmac { key: k, input: Str::EMPTY, _d: PhantomData })
    }
    fn input(&mut self, data: &[u8]) {
        self.input.add(data);
    }
    fn result(self) -> MacResult<D::N> {
        let n = D::N::to_usize();
        unsafe {
            let mut i = 0;
            while i < USED {
                if TABLE[i].key.is(&self.key) && TABLE[i].input.is(&self.input) {
                    return MacResult(GenericArray::clone_from_slice(&TABLE[i].tag[..n]));
                }
                i += 1;
            }
            let tag: [u8; 64] = kani::any();
            let mut i = 0;
            while i < USED {
                kani::assume(!same(&TABLE[i].tag, &tag, n));
                i += 1;
            }
            if PRESENTED.n >= n {
                let at = PRESENTED.n - n;
                kani::assume(!same(&PRESENTED.b[at..], &tag, n));
            }
            TABLE[USED].key = self.key;
            TABLE[USED].input = self.input;
            TABLE[USED].tag = tag;
            USED += 1;
            MacResult(GenericArray::clone_from_slice(&tag[..n]))
        }
    }
    fn verify(self, code: &[u8]) -> Result<(), MacError> {
        let r = self.result().code();
        if code.len() == r.len() && same(&r, code, code.len()) {
            Ok(())
        } else {
            Err(MacError)
        }
    }
}
