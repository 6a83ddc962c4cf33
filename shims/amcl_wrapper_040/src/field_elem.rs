//! Symbolic FieldElement: an expression over the prime field.
use rand::{CryptoRng, RngCore};

use crate::constants::FieldElement_SIZE;
use crate::errors::{SerzDeserzError, ValueError};
use crate::types::BigNum;
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::ops::{Add, AddAssign, Index, IndexMut, Mul, Neg, RangeBounds, Sub, SubAssign};
use std::slice::Iter;

use serde::de::{Deserialize, Deserializer, Error as DError, Visitor};
use serde::ser::{Serialize, Serializer};
use symcore::{engine, Id};
use zeroize::Zeroize;

#[macro_export]
macro_rules! add_field_elems {
    ( $( $elem:expr ),* ) => {
        {
            let mut sum = FieldElement::new();
            $(
                sum += $elem;
            )*
            sum
        }
    };
}

#[derive(Clone, Debug)]
pub struct FieldElement {
    value: Id,
}

const TY: u8 = b'F';

fn foreign(what: &str) -> ! {
    engine::inconclusive(&format!("{} on a symbolic field element", what))
}

impl fmt::Display for FieldElement {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.to_hex())
    }
}

impl Hash for FieldElement {
    fn hash<H: Hasher>(&self, state: &mut H) {
        state.write(&self.to_bytes())
    }
}

impl Default for FieldElement {
    fn default() -> Self {
        Self::new()
    }
}

impl Zeroize for FieldElement {
    fn zeroize(&mut self) {
        self.value = 0;
    }
}

impl FieldElement {
    pub fn from_id(value: Id) -> Self {
        Self { value }
    }
    pub fn id(&self) -> Id {
        self.value
    }
    fn small(&self, what: &str) -> i64 {
        use symcore::num_traits::ToPrimitive;
        match symcore::is_const(self.value) {
            Some((a, b)) if b.to_i64() == Some(1) && a.to_i64().map_or(false, |x| x >= 0) => a.to_i64().unwrap(),
            _ => foreign(what),
        }
    }

    pub fn new() -> Self {
        Self { value: 0 }
    }
    pub fn zero() -> Self {
        Self { value: 0 }
    }
    pub fn one() -> Self {
        Self { value: 1 }
    }
    pub fn minus_one() -> Self {
        Self { value: symcore::int(-1) }
    }
    /// Return a random non-zero field element
    pub fn random() -> Self {
        Self { value: symcore::random("fe") }
    }
    pub fn random_using_rng<R: RngCore + CryptoRng>(_rng: &mut R) -> Self {
        Self::random()
    }
    pub fn is_zero(&self) -> bool {
        symcore::is_zero(self.value)
    }
    pub fn is_one(&self) -> bool {
        symcore::eq(self.value, 1)
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        symcore::scalar_to_bytes(self.value, TY, FieldElement_SIZE)
    }
    pub fn from_bytes(bytes: &[u8]) -> Result<Self, SerzDeserzError> {
        if bytes.len() != FieldElement_SIZE {
            return Err(SerzDeserzError::FieldElementBytesIncorrectSize(
                bytes.len(),
                FieldElement_SIZE,
            ));
        }
        Ok(Self { value: symcore::scalar_from_bytes(bytes, TY) })
    }
    pub fn write_to_slice(&self, target: &mut [u8]) -> Result<(), SerzDeserzError> {
        if target.len() != FieldElement_SIZE {
            return Err(SerzDeserzError::FieldElementBytesIncorrectSize(
                target.len(),
                FieldElement_SIZE,
            ));
        }
        self.write_to_slice_unchecked(target);
        Ok(())
    }
    pub fn write_to_slice_unchecked(&self, target: &mut [u8]) {
        target.copy_from_slice(&self.to_bytes());
    }
    pub fn to_bignum(&self) -> BigNum {
        BigNum::new_int(self.small("to_bignum") as isize)
    }
    pub fn normalize(&mut self) {}
    pub fn from_msg_hash(msg: &[u8]) -> Self {
        Self { value: symcore::oracle("amcl-fe-hash", msg) }
    }
    pub fn add_assign_(&mut self, b: &Self) {
        self.value = symcore::add(self.value, b.value);
    }
    pub fn sub_assign_(&mut self, b: &Self) {
        self.value = symcore::sub(self.value, b.value);
    }
    pub fn plus(&self, b: &Self) -> Self {
        Self { value: symcore::add(self.value, b.value) }
    }
    pub fn minus(&self, b: &Self) -> Self {
        Self { value: symcore::sub(self.value, b.value) }
    }
    pub fn multiply(&self, b: &Self) -> Self {
        Self { value: symcore::mul(self.value, b.value) }
    }
    pub fn square(&self) -> Self {
        Self { value: symcore::mul(self.value, self.value) }
    }
    pub fn pow(&self, exp: &Self) -> Self {
        Self { value: symcore::pow(self.value, exp.small("pow") as u64) }
    }
    pub fn negation(&self) -> Self {
        Self { value: symcore::neg(self.value) }
    }
    pub fn negate(&mut self) {
        self.value = symcore::neg(self.value);
    }
    pub fn inverse(&self) -> Self {
        if self.is_zero() {
            return Self::zero();
        }
        Self { value: symcore::inv(self.value) }
    }
    pub fn inverse_mut(&mut self) {
        *self = self.inverse();
    }
    pub fn shift_right(&self, k: usize) -> Self {
        Self { value: symcore::int(self.small("shift_right") >> k) }
    }
    pub fn shift_left(&self, k: usize) -> Self {
        let mut v = self.value;
        for _ in 0..k {
            v = symcore::add(v, v);
        }
        Self { value: v }
    }
    pub fn is_even(&self) -> bool {
        self.small("is_even") % 2 == 0
    }
    pub fn is_odd(&self) -> bool {
        !self.is_even()
    }
    pub fn to_bitvectors(&self) -> Vec<Vec<u8>> {
        vec![self.to_bits()]
    }
    pub fn to_bits(&self) -> Vec<u8> {
        let v = self.small("to_bits");
        (0..63).map(|i| (v >> i & 1) as u8).collect()
    }
    /// The scalar itself, carried in the digit vector (see wnaf_mul).
    pub fn to_wnaf(&self, _w: usize) -> Vec<i8> {
        symcore::to_tag(self.value, b'W', 0, 48).into_iter().map(|b| b as i8).collect()
    }
    pub fn from_wnaf(wnaf: &[i8]) -> Self {
        let b: Vec<u8> = wnaf.iter().map(|b| *b as u8).collect();
        if let Some(i) = symcore::from_tag(&b, b'W') {
            return Self { value: i };
        }
        let mut v = Self::zero();
        for d in wnaf.iter().rev() {
            v = v.plus(&v).plus(&Self { value: symcore::int(*d as i64) });
        }
        v
    }
    pub fn to_power_of_2_base(&self, n: usize) -> Vec<u8> {
        let mut v = self.small("to_power_of_2_base");
        let mut out = vec![];
        while v != 0 || out.is_empty() {
            out.push((v & ((1 << n) - 1)) as u8);
            v >>= n;
        }
        out
    }
    pub fn from_power_of_2_base(repr: &[u8], n: usize) -> Self {
        let mut v = Self::zero();
        for d in repr.iter().rev() {
            v = v.shift_left(n).plus(&Self::from(*d));
        }
        v
    }
    pub fn nth_bit(&self, n: usize) -> u8 {
        (self.small("nth_bit") >> n & 1) as u8
    }
    pub fn or(&mut self, other: &Self) {
        self.value = symcore::int(self.small("or") | other.small("or"));
    }
    /// Takes a bunch of field elements and returns the inverse of all field elements.
    /// Also returns the product of all inverses as its computed as a side effect.
    /// For an input of n elements, rather than doing n inversions, does only 1 inversion but 3n multiplications.
    /// eg `batch_invert([a, b, c, d])` returns ([1/a, 1/b, 1/c, 1/d], 1/a * 1/b * 1/c * 1/d)
    /// Algorithm taken from Guide to Elliptic Curve Cryptography book, "Algorithm 2.26 Simultaneous inversion"
    pub fn batch_invert(elems: &[Self]) -> (Vec<Self>, Self) {
        debug_assert!(elems.len() > 0);

        let k = elems.len();

        // TODO: Multiplications below can be sped up by using montgomery multiplication.

        // Construct c as [elems[0], elems[0]*elems[1], elems[0]*elems[1]*elems[2], .... elems[0]*elems[1]*elems[2]*...elems[k-1]]
        let mut c: Vec<Self> = vec![elems[0].clone()];
        for i in 1..k {
            c.push(&c[i - 1] * &elems[i])
        }

        // u = 1 / elems[0]*elems[1]*elems[2]*...elems[k-1]
        let all_inv = c[k - 1].inverse();
        let mut u = all_inv.clone();
        let mut inverses = vec![FieldElement::one(); k];

        for i in (1..k).rev() {
            inverses[i] = &u * &c[i - 1];
            u = &u * &elems[i];
        }

        inverses[0] = u;

        (inverses, all_inv)
    }

    pub fn to_hex(&self) -> String {
        self.to_bytes().iter().map(|b| format!("{:02X}", b)).collect()
    }
    pub fn from_hex(s: String) -> Result<Self, SerzDeserzError> {
        let mut val = s;
        if val.len() > FieldElement_SIZE * 2 {
            return Err(SerzDeserzError::FieldElementBytesIncorrectSize(
                val.len(),
                FieldElement_SIZE,
            ));
        }
        while val.len() < FieldElement_SIZE * 2 {
            val.insert(0, '0');
        }
        let b = crate::utils::unhex(&val).ok_or(SerzDeserzError::RequiredHexChar)?;
        Self::from_bytes(&b)
    }
}

impl Serialize for FieldElement {
    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
    where
        S: Serializer,
    {
        serializer.serialize_newtype_struct("FieldElement", &self.to_hex())
    }
}
impl<'a> Deserialize<'a> for FieldElement {
    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
    where
        D: Deserializer<'a>,
    {
        struct FieldElementVisitor;

        impl<'a> Visitor<'a> for FieldElementVisitor {
            type Value = FieldElement;

            fn expecting(&self, formatter: &mut fmt::Formatter) -> fmt::Result {
                formatter.write_str("expected FieldElement")
            }

            fn visit_str<E>(self, value: &str) -> Result<FieldElement, E>
            where
                E: DError,
            {
                Ok(FieldElement::from_hex(value.to_string()).map_err(DError::custom)?)
            }
        }

        deserializer.deserialize_str(FieldElementVisitor)
    }
}

macro_rules! from_int {
    ($($t:ty),*) => {$(
        impl From<$t> for FieldElement {
            fn from(x: $t) -> Self {
                Self { value: symcore::big(symcore::BigInt::from(x)) }
            }
        }
    )*};
}
from_int!(u8, u32, u64, i32);

impl From<&[u8; FieldElement_SIZE]> for FieldElement {
    fn from(x: &[u8; FieldElement_SIZE]) -> Self {
        Self { value: symcore::scalar_from_bytes(x, TY) }
    }
}

impl PartialEq for FieldElement {
    fn eq(&self, other: &FieldElement) -> bool {
        symcore::eq(self.value, other.value)
    }
}

impl PartialOrd for FieldElement {
    fn partial_cmp(&self, other: &FieldElement) -> Option<Ordering> {
        Some(self.cmp(other))
    }
}

impl Eq for FieldElement {}

impl Ord for FieldElement {
    fn cmp(&self, other: &FieldElement) -> Ordering {
        if self.value == other.value {
            return Ordering::Equal;
        }
        self.small("cmp").cmp(&other.small("cmp"))
    }
}

impl Add for FieldElement {
    type Output = Self;

    fn add(self, other: Self) -> Self {
        self.plus(&other)
    }
}

impl Add<FieldElement> for &FieldElement {
    type Output = FieldElement;

    fn add(self, other: FieldElement) -> FieldElement {
        self.plus(&other)
    }
}

impl<'a> Add<&'a FieldElement> for FieldElement {
    type Output = Self;
    fn add(self, other: &'a FieldElement) -> Self {
        self.plus(other)
    }
}

impl<'a> Add<&'a FieldElement> for &FieldElement {
    type Output = FieldElement;
    fn add(self, other: &'a FieldElement) -> FieldElement {
        self.plus(other)
    }
}

impl AddAssign for FieldElement {
    fn add_assign(&mut self, other: Self) {
        self.add_assign_(&other)
    }
}

impl<'a> AddAssign<&'a FieldElement> for FieldElement {
    fn add_assign(&mut self, other: &'a FieldElement) {
        self.add_assign_(other)
    }
}

impl Sub for FieldElement {
    type Output = Self;

    fn sub(self, other: Self) -> Self {
        self.minus(&other)
    }
}

impl Sub<FieldElement> for &FieldElement {
    type Output = FieldElement;

    fn sub(self, other: FieldElement) -> FieldElement {
        self.minus(&other)
    }
}

impl<'a> Sub<&'a FieldElement> for FieldElement {
    type Output = Self;

    fn sub(self, other: &'a FieldElement) -> Self {
        self.minus(&other)
    }
}

impl<'a> Sub<&'a FieldElement> for &FieldElement {
    type Output = FieldElement;

    fn sub(self, other: &'a FieldElement) -> FieldElement {
        self.minus(&other)
    }
}

impl SubAssign for FieldElement {
    fn sub_assign(&mut self, other: Self) {
        self.sub_assign_(&other)
    }
}

impl<'a> SubAssign<&'a FieldElement> for FieldElement {
    fn sub_assign(&mut self, other: &'a Self) {
        self.sub_assign_(other)
    }
}

impl Mul for FieldElement {
    type Output = Self;

    fn mul(self, other: Self) -> Self {
        self.multiply(&other)
    }
}

impl Mul<FieldElement> for &FieldElement {
    type Output = FieldElement;

    fn mul(self, other: FieldElement) -> FieldElement {
        self.multiply(&other)
    }
}

impl<'a> Mul<&'a FieldElement> for FieldElement {
    type Output = FieldElement;

    fn mul(self, other: &'a FieldElement) -> FieldElement {
        self.multiply(other)
    }
}

impl<'a> Mul<&'a FieldElement> for &FieldElement {
    type Output = FieldElement;

    fn mul(self, other: &'a FieldElement) -> FieldElement {
        self.multiply(other)
    }
}

impl Neg for FieldElement {
    type Output = Self;

    fn neg(self) -> Self::Output {
        self.negation()
    }
}

impl Neg for &FieldElement {
    type Output = FieldElement;

    fn neg(self) -> Self::Output {
        self.negation()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FieldElementVector {
    elems: Vec<FieldElement>,
}

impl FieldElementVector {
    /// Creates a new field element vector with each element being 0
    // FIXME: size should have a type like u64 since usize can be small on older/smaller machines. This code
    // is less likely to be used on older/smaller machines though
    pub fn new(size: usize) -> Self {
        Self {
            elems: (0..size)
                .into_iter()
                .map(|_| FieldElement::new())
                .collect(),
        }
    }

    /// Generate a Vandermonde vector of field elements as:
    /// FieldElementVector::new_vandermonde_vector(k, n) => vec![1, k, k^2, k^3, ... k^n-1]
    /// FieldElementVector::new_vandermonde_vector(0, n) => vec![0, 0, ... n times]
    pub fn new_vandermonde_vector(elem: &FieldElement, size: usize) -> Self {
        if size == 0 {
            Self::new(0)
        } else if elem.is_zero() {
            Self::new(size)
        } else if elem.is_one() {
            vec![FieldElement::one(); size].into()
        } else {
            let mut v = Vec::<FieldElement>::with_capacity(size);
            v.push(FieldElement::one());
            for i in 1..size {
                v.push(&v[i - 1] * elem);
            }
            v.into()
        }
    }

    pub fn with_capacity(capacity: usize) -> Self {
        Self {
            elems: Vec::<FieldElement>::with_capacity(capacity),
        }
    }

    /// Get a vector of random field elements
    pub fn random(size: usize) -> Self {
        (0..size)
            .into_iter()
            .map(|_| FieldElement::random())
            .collect::<Vec<FieldElement>>()
            .into()
    }

    pub fn as_slice(&self) -> &[FieldElement] {
        self.elems.as_slice()
    }

    pub fn as_mut_slice(&mut self) -> &mut [FieldElement] {
        self.elems.as_mut_slice()
    }

    pub fn len(&self) -> usize {
        self.elems.len()
    }

    pub fn push(&mut self, value: FieldElement) {
        self.elems.push(value)
    }

    pub fn append(&mut self, other: &mut Self) {
        self.elems.append(&mut other.elems)
    }

    pub fn pop(&mut self) -> Option<FieldElement> {
        self.elems.pop()
    }

    pub fn insert(&mut self, index: usize, element: FieldElement) {
        self.elems.insert(index, element)
    }

    pub fn remove(&mut self, index: usize) -> FieldElement {
        self.elems.remove(index)
    }

    /// Multiply each element of the vector with a given field
    /// element `n` (scale the vector). Modifies the vector.
    pub fn scale(&mut self, n: &FieldElement) {
        self.elems.as_mut_slice().iter_mut().for_each(|e| {
            *e = e.multiply(n);
        })
    }

    /// Multiply each element of the vector with a given field
    /// element `n` to create a new vector
    pub fn scaled_by(&self, n: &FieldElement) -> Self {
        let mut scaled = self.clone();
        scaled.scale(n);
        scaled.into()
    }

    /// Add 2 vectors of field elements
    pub fn plus(&self, b: &FieldElementVector) -> Result<FieldElementVector, ValueError> {
        check_vector_size_for_equality!(self, b)?;
        let mut sum_vector = Self::new(self.len());
        sum_vector
            .as_mut_slice()
            .iter_mut()
            .enumerate()
            .for_each(|(i, e)| *e = &self[i] + &b[i]);
        Ok(sum_vector)
    }

    /// Subtract 2 vectors of field elements
    pub fn minus(&self, b: &FieldElementVector) -> Result<FieldElementVector, ValueError> {
        check_vector_size_for_equality!(self, b)?;
        let mut diff_vector = Self::new(self.len());
        diff_vector
            .as_mut_slice()
            .iter_mut()
            .enumerate()
            .for_each(|(i, e)| *e = &self[i] - &b[i]);
        Ok(diff_vector)
    }

    /// Compute sum of all elements of a vector
    pub fn sum(&self) -> FieldElement {
        self.as_slice()
            .iter()
            .cloned()
            .fold(FieldElement::new(), |a, b| a + b)
    }

    /// Computes inner product of 2 vectors of field elements
    /// [a1, a2, a3, ...field elements].[b1, b2, b3, ...field elements] = (a1*b1 + a2*b2 + a3*b3) % curve_order
    pub fn inner_product(&self, b: &FieldElementVector) -> Result<FieldElement, ValueError> {
        check_vector_size_for_equality!(self, b)?;
        let r = (0..b.len()).into_iter().map(|i| (&self[i] * &b[i])).fold(FieldElement::new(), |a, b| a + b);
        Ok(r)
    }

    /// Calculates Hadamard product of 2 field element vectors.
    /// Hadamard product of `a` and `b` = `a` o `b` = (a0 o b0, a1 o b1, ...).
    /// Here `o` denotes multiply operation
    pub fn hadamard_product(
        &self,
        b: &FieldElementVector,
    ) -> Result<FieldElementVector, ValueError> {
        check_vector_size_for_equality!(self, b)?;
        let mut hadamard_product = Self::new(self.len());
        hadamard_product
            .as_mut_slice()
            .iter_mut()
            .enumerate()
            .for_each(|(i, e)| *e = &self[i] * &b[i]);
        Ok(hadamard_product)
    }

    pub fn split_at(&self, mid: usize) -> (Self, Self) {
        let (l, r) = self.as_slice().split_at(mid);
        (Self::from(l), Self::from(r))
    }

    /// Replace a range `R` of the vector with `I`. Same as Vector's splice except it does not return
    /// anything. Only available to this crate for now for some manipulations in Polynomial
    pub(crate) fn splice<R, I>(&mut self, range: R, replace_with: I)
    where
        R: RangeBounds<usize>,
        I: IntoIterator<Item = FieldElement>,
    {
        self.elems.splice(range, replace_with);
    }

    pub fn iter(&self) -> Iter<FieldElement> {
        self.as_slice().iter()
    }
}

impl From<Vec<FieldElement>> for FieldElementVector {
    fn from(x: Vec<FieldElement>) -> Self {
        Self { elems: x }
    }
}

impl From<&[FieldElement]> for FieldElementVector {
    fn from(x: &[FieldElement]) -> Self {
        Self { elems: x.to_vec() }
    }
}

impl Into<Vec<FieldElement>> for FieldElementVector {
    fn into(self) -> Vec<FieldElement> {
        self.elems
    }
}

impl<'a> Into<&'a [FieldElement]> for &'a FieldElementVector {
    fn into(self) -> &'a [FieldElement] {
        &self.elems
    }
}

impl Index<usize> for FieldElementVector {
    type Output = FieldElement;

    fn index(&self, idx: usize) -> &FieldElement {
        &self.elems[idx]
    }
}

impl IndexMut<usize> for FieldElementVector {
    fn index_mut(&mut self, idx: usize) -> &mut FieldElement {
        &mut self.elems[idx]
    }
}

impl PartialEq for FieldElementVector {
    fn eq(&self, other: &Self) -> bool {
        if self.len() != other.len() {
            return false;
        }
        for i in 0..self.len() {
            if self[i] != other[i] {
                return false;
            }
        }
        true
    }
}

impl IntoIterator for FieldElementVector {
    type Item = FieldElement;
    type IntoIter = ::std::vec::IntoIter<FieldElement>;

    fn into_iter(self) -> Self::IntoIter {
        self.elems.into_iter()
    }
}

impl AsRef<[FieldElement]> for FieldElementVector {
    fn as_ref(&self) -> &[FieldElement] {
        self.elems.as_slice()
    }
}

// TODO: Implement add/sub/mul ops but need some way to handle error when vectors are of different length

pub fn multiply_row_vector_with_matrix(
    vector: &FieldElementVector,
    matrix: &Vec<FieldElementVector>,
) -> Result<FieldElementVector, ValueError> {
    check_vector_size_for_equality!(vector, matrix)?;
    let out_len = matrix[0].len();
    let mut out = FieldElementVector::new(out_len);
    for i in 0..out_len {
        for j in 0..vector.len() {
            out[i] += &vector[j] * &matrix[j][i];
        }
    }
    Ok(out)
}

