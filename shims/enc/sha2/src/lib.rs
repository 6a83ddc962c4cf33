use generic_array::typenum::{U32, U64};
use generic_array::ArrayLength;
pub trait Size {
    type N: ArrayLength<u8>;
}
pub struct Sha256;
pub struct Sha512;
impl Size for Sha256 {
    type N = U32;
}
impl Size for Sha512 {
    type N = U64;
}
