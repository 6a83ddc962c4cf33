//! generic-array as one plain array, which the model checker handles well.
pub use typenum;
use typenum::*;
pub trait ArrayLength<T>: Unsigned {
    type ArrayType: Copy + AsRef<[T]> + AsMut<[T]>;
    fn filled(v: T) -> Self::ArrayType;
}
macro_rules! lengths {
    ($($u:ident $n:expr),*) => {$(
        impl<T: Copy> ArrayLength<T> for $u {
            type ArrayType = [T; $n];
            fn filled(v: T) -> [T; $n] {
                [v; $n]
            }
        }
    )*};
}
lengths!(U0 0, U12 12, U16 16, U24 24, U28 28, U32 32, U36 36, U40 40, U48 48, U64 64, U80 80, U96 96);
#[repr(transparent)]
pub struct GenericArray<T, N: ArrayLength<T>> {
    data: N::ArrayType,
}
impl<T, N: ArrayLength<T>> Clone for GenericArray<T, N> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T, N: ArrayLength<T>> Copy for GenericArray<T, N> {}
impl<T: PartialEq, N: ArrayLength<T>> PartialEq for GenericArray<T, N> {
    fn eq(&self, o: &Self) -> bool {
        self.data.as_ref() == o.data.as_ref()
    }
}
impl<T: std::cmp::Eq, N: ArrayLength<T>> std::cmp::Eq for GenericArray<T, N> {}
impl<T, N: ArrayLength<T>> std::fmt::Debug for GenericArray<T, N> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("GenericArray")
    }
}
impl<T, N: ArrayLength<T>> std::ops::Deref for GenericArray<T, N> {
    type Target = [T];
    fn deref(&self) -> &[T] {
        self.data.as_ref()
    }
}
impl<T, N: ArrayLength<T>> std::ops::DerefMut for GenericArray<T, N> {
    fn deref_mut(&mut self) -> &mut [T] {
        self.data.as_mut()
    }
}
impl<T, N: ArrayLength<T>> AsRef<[T]> for GenericArray<T, N> {
    fn as_ref(&self) -> &[T] {
        self.data.as_ref()
    }
}
impl<T: Copy + Default, N: ArrayLength<T>> Default for GenericArray<T, N> {
    fn default() -> Self {
        GenericArray { data: N::filled(T::default()) }
    }
}
impl<T, N: ArrayLength<T>> GenericArray<T, N> {
    pub fn as_slice(&self) -> &[T] {
        self.data.as_ref()
    }
    pub fn as_mut_slice(&mut self) -> &mut [T] {
        self.data.as_mut()
    }
    pub fn from_slice(s: &[T]) -> &GenericArray<T, N> {
        assert!(s.len() == N::to_usize(), "a slice of another length than the array's");
        unsafe { &*(s.as_ptr() as *const GenericArray<T, N>) }
    }
    pub fn from_mut_slice(s: &mut [T]) -> &mut GenericArray<T, N> {
        assert!(s.len() == N::to_usize(), "a slice of another length than the array's");
        unsafe { &mut *(s.as_mut_ptr() as *mut GenericArray<T, N>) }
    }
    pub fn clone_from_slice(s: &[T]) -> GenericArray<T, N> {
        *Self::from_slice(s)
    }
}
impl<'a, T, N: ArrayLength<T>> From<&'a [T]> for &'a GenericArray<T, N> {
    fn from(s: &'a [T]) -> Self {
        GenericArray::from_slice(s)
    }
}
