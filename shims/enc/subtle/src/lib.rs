pub struct Choice(u8);
impl Choice {
    pub fn unwrap_u8(&self) -> u8 {
        self.0
    }
}
impl From<Choice> for bool {
    fn from(c: Choice) -> bool {
        c.0 == 1
    }
}
pub trait ConstantTimeEq {
    fn ct_eq(&self, other: &Self) -> Choice;
}
impl ConstantTimeEq for [u8] {
    fn ct_eq(&self, other: &[u8]) -> Choice {
        if self.len() != other.len() {
            return Choice(0);
        }
        let mut d = 0;
        let mut i = 0;
        while i < self.len() {
            d |= self[i] ^ other[i];
            i += 1;
        }
        Choice((d == 0) as u8)
    }
}
