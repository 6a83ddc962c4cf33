use crate::constants::{GroupG1_SIZE, G1_COMP_BYTE_SIZE};
use crate::errors::{SerzDeserzError, ValueError};
use crate::field_elem::{FieldElement, FieldElementVector};
use crate::group_elem::{GroupElement, GroupElementVector};
use std::ops::{Add, AddAssign, Index, IndexMut, Mul, Neg, Sub, SubAssign};

use std::fmt;
use std::hash::{Hash, Hasher};
use std::slice::Iter;

use serde::de::{Deserialize, Deserializer, Error as DError, Visitor};
use serde::ser::{Serialize, Serializer};
use zeroize::Zeroize;

/// The discrete logarithm of the element with respect to the generator.
#[derive(Clone, Debug)]
pub struct G1 {
    value: symcore::Id,
}

impl_sym_group_elem!(G1, GroupG1_SIZE, G1_COMP_BYTE_SIZE, b'1', G1BytesIncorrectSize, "G1", false);
impl_sym_group!(G1, GroupG1_SIZE, b'1', G1BytesIncorrectSize);
impl_group_elem_ops!(G1);
impl_scalar_mul_ops!(G1);
impl_group_element_lookup_table!(G1, G1LookupTable);
impl_optmz_scalar_mul_ops!(G1, GroupG1, G1LookupTable);

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct G1Vector {
    elems: Vec<G1>,
}

impl_group_elem_vec_ops!(G1, G1Vector);
impl_group_elem_vec_product_ops!(G1, G1Vector, G1LookupTable);
impl_group_elem_vec_conversions!(G1, G1Vector);
