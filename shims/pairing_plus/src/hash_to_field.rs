use digest::generic_array::{ArrayLength, GenericArray};
use std::marker::PhantomData;

pub trait FromRO {
    type Length: ArrayLength<u8>;
    fn from_ro(okm: &GenericArray<u8, <Self as FromRO>::Length>) -> Self;
}
impl<T: BaseFromRO> FromRO for T {
    type Length = <T as BaseFromRO>::BaseLength;
    fn from_ro(okm: &GenericArray<u8, <Self as FromRO>::Length>) -> T {
        T::from_okm(okm)
    }
}
pub trait BaseFromRO {
    type BaseLength: ArrayLength<u8>;
    fn from_okm(okm: &GenericArray<u8, <Self as BaseFromRO>::BaseLength>) -> Self;
}
pub trait ExpandMsg {}
#[derive(Debug)]
pub struct ExpandMsgXof<HashT> {
    phantom: PhantomData<HashT>,
}
impl<HashT> ExpandMsg for ExpandMsgXof<HashT> {}
#[derive(Debug)]
pub struct ExpandMsgXmd<HashT> {
    phantom: PhantomData<HashT>,
}
impl<HashT> ExpandMsg for ExpandMsgXmd<HashT> {}
