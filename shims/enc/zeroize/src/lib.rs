pub trait Zeroize {
    fn zeroize(&mut self);
}
impl Zeroize for [u8] {
    fn zeroize(&mut self) {
        for b in self {
            *b = 0;
        }
    }
}
