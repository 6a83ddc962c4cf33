use crate::constants::GroupGT_SIZE;
use crate::errors::{SerzDeserzError, ValueError};
use crate::field_elem::FieldElement;
use crate::group_elem::GroupElement;
use crate::group_elem_g1::G1;
use crate::group_elem_g2::G2;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::ops::Mul;

use serde::de::{Deserialize, Deserializer, Error as DError, Visitor};
use serde::ser::{Serialize, Serializer};
use zeroize::Zeroize;

/// Discrete logarithm with respect to e(g1, g2).
#[derive(Clone, Debug)]
pub struct GT {
    value: symcore::Id,
}

const TY: u8 = b'T';

impl GT {
    pub fn new() -> Self {
        Self { value: 0 }
    }
    pub fn ate_pairing(g1: &G1, g2: &G2) -> Self {
        Self { value: symcore::mul(g1.id(), g2.id()) }
    }
    pub fn ate_2_pairing(g1: &G1, g2: &G2, h1: &G1, h2: &G2) -> Self {
        Self {
            value: symcore::add(symcore::mul(g1.id(), g2.id()), symcore::mul(h1.id(), h2.id())),
        }
    }
    pub fn ate_multi_pairing(elems: Vec<(&G1, &G2)>) -> Self {
        let mut v = 0;
        for (a, b) in elems {
            v = symcore::add(v, symcore::mul(a.id(), b.id()));
        }
        Self { value: v }
    }
    pub fn inner_product(left: &[G1], right: &[G2]) -> Result<Self, ValueError> {
        check_vector_size_for_equality!(left, right)?;
        Ok(Self::ate_multi_pairing(left.iter().zip(right).collect()))
    }
    pub fn product(a: &Self, b: &Self) -> Self {
        Self { value: symcore::add(a.value, b.value) }
    }
    pub fn pow(&self, e: &FieldElement) -> Self {
        Self { value: symcore::mul(self.value, e.id()) }
    }
    pub fn inverse(&self) -> Self {
        Self { value: symcore::neg(self.value) }
    }
    pub fn inverse_mut(&mut self) {
        self.value = symcore::neg(self.value)
    }
    pub fn is_one(&self) -> bool {
        symcore::is_zero(self.value)
    }
    pub fn one() -> Self {
        Self { value: 0 }
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        symcore::to_tag(self.value, TY, 4, GroupGT_SIZE)
    }
    pub fn from_bytes(bytes: &[u8]) -> Result<Self, SerzDeserzError> {
        if bytes.len() != GroupGT_SIZE {
            return Err(SerzDeserzError::GTBytesIncorrectSize(bytes.len(), GroupGT_SIZE));
        }
        Ok(Self { value: symcore::from_tag(bytes, TY).unwrap_or_else(|| symcore::oracle("gt-bytes", bytes)) })
    }
    pub fn write_to_slice(&self, target: &mut [u8]) -> Result<(), SerzDeserzError> {
        if target.len() != GroupGT_SIZE {
            return Err(SerzDeserzError::GTBytesIncorrectSize(target.len(), GroupGT_SIZE));
        }
        self.write_to_slice_unchecked(target);
        Ok(())
    }
    pub fn write_to_slice_unchecked(&self, target: &mut [u8]) {
        target.copy_from_slice(&self.to_bytes());
    }
    pub fn to_hex(&self) -> String {
        self.to_bytes().iter().map(|b| format!("{:02X}", b)).collect()
    }
    pub fn from_hex(s: String) -> Result<Self, SerzDeserzError> {
        let b = crate::utils::unhex(&s).ok_or(SerzDeserzError::CannotParseFP)?;
        Self::from_bytes(&b).map_err(|_| SerzDeserzError::CannotParseFP)
    }
}

impl PartialEq for GT {
    fn eq(&self, other: &GT) -> bool {
        symcore::eq(self.value, other.value)
    }
}

impl Hash for GT {
    fn hash<H: Hasher>(&self, state: &mut H) {
        state.write(&self.to_bytes())
    }
}
impl_sym_group!(GT, GroupGT_SIZE, TY, GTBytesIncorrectSize);

impl Mul<GT> for GT {
    type Output = Self;
    fn mul(self, other: GT) -> Self {
        GT::product(&self, &other)
    }
}
impl Mul<&GT> for GT {
    type Output = Self;
    fn mul(self, other: &GT) -> Self {
        GT::product(&self, other)
    }
}
impl Mul<GT> for &GT {
    type Output = GT;
    fn mul(self, other: GT) -> GT {
        GT::product(&self, &other)
    }
}
impl Mul<&GT> for &GT {
    type Output = GT;
    fn mul(self, other: &GT) -> GT {
        GT::product(self, other)
    }
}
