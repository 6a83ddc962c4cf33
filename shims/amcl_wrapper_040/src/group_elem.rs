use rand::{CryptoRng, RngCore};

use crate::errors::{SerzDeserzError, ValueError};
use crate::field_elem::{FieldElement, FieldElementVector};

use std::slice::Iter;

#[macro_export]
macro_rules! add_group_elems {
    ( $( $elem:expr ),* ) => {
        {
            let mut sum = GroupElement::new();
            $(
                sum += $elem;
            )*
            sum
        }
    };
}

pub trait GroupElement: Clone + Sized {
    fn new() -> Self;

    /// Return the identity element
    fn identity() -> Self;

    /// Return a group generator.
    fn generator() -> Self;

    /// Return a random group element
    fn random() -> Self {
        let n = FieldElement::random();
        Self::generator().scalar_mul_const_time(&n)
    }

    /// Return a random group element using the given random number generator
    fn random_using_rng<R: RngCore + CryptoRng>(rng: &mut R) -> Self {
        let n = FieldElement::random_using_rng(rng);
        Self::generator().scalar_mul_const_time(&n)
    }

    /// Check if the the point is the identity element of the group
    fn is_identity(&self) -> bool;

    /// Set the point to the identity element of the group
    fn set_to_identity(&mut self);

    /// Hash an arbitrary sized message using SHAKE and return output as group element
    fn from_msg_hash(msg: &[u8]) -> Self;

    fn to_bytes(&self, compress: bool) -> Vec<u8>;

    fn from_bytes(bytes: &[u8]) -> Result<Self, SerzDeserzError>;

    fn write_to_slice(&self, target: &mut [u8], compress: bool) -> Result<(), SerzDeserzError>;

    fn write_to_slice_unchecked(&self, target: &mut [u8], compress: bool);

    /// Add a group element to itself. `self = self + b`
    fn add_assign_(&mut self, b: &Self);

    /// Subtract a group element from itself. `self = self - b`
    fn sub_assign_(&mut self, b: &Self);

    /// Return sum of a group element and itself. `self + b`
    fn plus(&self, b: &Self) -> Self;

    /// Return difference of a group element and itself. `self - b`
    fn minus(&self, b: &Self) -> Self;

    /// Multiply point on the curve (element of group G1) with a scalar. Constant time operation.
    /// self * field_element_a.
    fn scalar_mul_const_time(&self, a: &FieldElement) -> Self;

    /// Return the double of the group element
    fn double(&self) -> Self;

    fn double_mut(&mut self);

    /// Returns hex string as a sequence of FPs separated by whitespace.
    /// Each FP is itself a 2-tuple of strings separated by whitespace, 1st string is the excess and 2nd is a BigNum
    fn to_hex(&self) -> String;

    /// Returns a group element by parsing the hex representation of itself. The hex
    /// representation should match the one from `to_hex`
    fn from_hex(s: String) -> Result<Self, SerzDeserzError>;

    /// Returns negation of this element
    fn negation(&self) -> Self;

    fn is_extension() -> bool;

    /// Checks if the element has correct order by checking if self *  group order (curve order) == Identity element (point at infinity).
    /// Uses constant time scalar multiplication.
    /// Question: But since we always know the multiplicand (group order) is there a faster way?
    fn has_correct_order(&self) -> bool;

    // TODO: Implement has_correct_order for variable time as well. Need to implement variable time scalar multiplication for group G2.
}

#[macro_export]
macro_rules! impl_sym_group {
    ( $g:ident, $size:ident, $ty:expr, $err:ident ) => {
        impl $g {
            pub fn from_id(value: symcore::Id) -> Self {
                Self { value }
            }
            pub fn id(&self) -> symcore::Id {
                self.value
            }
        }
        impl From<&[u8; $size]> for $g {
            fn from(x: &[u8; $size]) -> Self {
                Self { value: symcore::from_tag(x, $ty).unwrap_or(0) }
            }
        }
        impl Default for $g {
            fn default() -> Self {
                Self::new()
            }
        }
        impl fmt::Display for $g {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str(&self.to_hex())
            }
        }
        impl Zeroize for $g {
            fn zeroize(&mut self) {
                self.value = 0;
            }
        }
        impl Serialize for $g {
            fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
            where
                S: Serializer,
            {
                serializer.serialize_newtype_struct("$group_element", &self.to_hex())
            }
        }
        impl<'a> Deserialize<'a> for $g {
            fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
            where
                D: Deserializer<'a>,
            {
                struct GroupElemVisitor;
                impl<'a> Visitor<'a> for GroupElemVisitor {
                    type Value = $g;
                    fn expecting(&self, formatter: &mut fmt::Formatter) -> fmt::Result {
                        formatter.write_str("expected $group_element")
                    }
                    fn visit_str<E>(self, value: &str) -> Result<$g, E>
                    where
                        E: DError,
                    {
                        Ok($g::from_hex(value.to_string()).map_err(DError::custom)?)
                    }
                }
                deserializer.deserialize_str(GroupElemVisitor)
            }
        }
    };
}

/// GroupElement for a type holding the discrete logarithm.
#[macro_export]
macro_rules! impl_sym_group_elem {
    ( $g:ident, $size:ident, $comp:ident, $ty:expr, $err:ident, $domain:expr, $ext:expr ) => {
        impl GroupElement for $g {
            fn new() -> Self {
                Self { value: 0 }
            }
            fn identity() -> Self {
                Self { value: 0 }
            }
            fn generator() -> Self {
                Self { value: 1 }
            }
            fn random() -> Self {
                Self { value: symcore::random($domain) }
            }
            fn random_using_rng<R: rand::RngCore + rand::CryptoRng>(_: &mut R) -> Self {
                Self::random()
            }
            fn is_identity(&self) -> bool {
                symcore::is_zero(self.value)
            }
            fn set_to_identity(&mut self) {
                self.value = 0;
            }
            fn from_msg_hash(msg: &[u8]) -> Self {
                Self { value: symcore::oracle($domain, msg) }
            }
            fn to_bytes(&self, compress: bool) -> Vec<u8> {
                if compress {
                    symcore::to_tag(self.value, $ty, 2, $comp)
                } else {
                    symcore::to_tag(self.value, $ty, 4, $size)
                }
            }
            fn from_bytes(bytes: &[u8]) -> Result<Self, SerzDeserzError> {
                if bytes.len() != $size && bytes.len() != $comp {
                    return Err(SerzDeserzError::$err(bytes.len()));
                }
                // amcl reads both coordinates whatever the length is
                if bytes.len() == $comp && bytes[0] == 4 {
                    panic!("index out of bounds");
                }
                // bytes that encode no point decode to the identity, as in amcl
                Ok(Self { value: symcore::from_tag(bytes, $ty).unwrap_or(0) })
            }
            fn write_to_slice(&self, target: &mut [u8], compress: bool) -> Result<(), SerzDeserzError> {
                if target.len() != if compress { $comp } else { $size } {
                    return Err(SerzDeserzError::$err(target.len()));
                }
                self.write_to_slice_unchecked(target, compress);
                Ok(())
            }
            fn write_to_slice_unchecked(&self, target: &mut [u8], compress: bool) {
                target.copy_from_slice(&self.to_bytes(compress));
            }
            fn add_assign_(&mut self, b: &Self) {
                self.value = symcore::add(self.value, b.value);
            }
            fn sub_assign_(&mut self, b: &Self) {
                self.value = symcore::sub(self.value, b.value);
            }
            fn plus(&self, b: &Self) -> Self {
                Self { value: symcore::add(self.value, b.value) }
            }
            fn minus(&self, b: &Self) -> Self {
                Self { value: symcore::sub(self.value, b.value) }
            }
            fn scalar_mul_const_time(&self, a: &FieldElement) -> Self {
                Self { value: symcore::mul(self.value, a.id()) }
            }
            fn double(&self) -> Self {
                Self { value: symcore::add(self.value, self.value) }
            }
            fn double_mut(&mut self) {
                self.value = symcore::add(self.value, self.value);
            }
            fn to_hex(&self) -> String {
                if self.is_identity() {
                    return "infinity".to_string();
                }
                self.to_bytes(false).iter().map(|b| format!("{:02X}", b)).collect()
            }
            fn from_hex(s: String) -> Result<Self, SerzDeserzError> {
                if s == "infinity" {
                    return Ok(Self::new());
                }
                let b = crate::utils::unhex(&s).ok_or(SerzDeserzError::CannotParseFP)?;
                if b.len() != $size {
                    return Err(SerzDeserzError::CannotParseFP);
                }
                Self::from_bytes(&b)
            }
            fn negation(&self) -> Self {
                Self { value: symcore::neg(self.value) }
            }
            fn is_extension() -> bool {
                $ext
            }
            fn has_correct_order(&self) -> bool {
                true
            }
        }

        impl Hash for $g {
            fn hash<H: Hasher>(&self, state: &mut H) {
                state.write(&self.to_bytes(true))
            }
        }
        impl $g {
            pub fn hash_to_curve(tag: &[u8], msg: &[u8]) -> Self {
                let mut v = (tag.len() as u64).to_be_bytes().to_vec();
                v.extend_from_slice(tag);
                v.extend_from_slice(msg);
                Self { value: symcore::oracle(concat!("h2c", $domain), &v) }
            }
            /// returns self*a + h*b
            pub fn binary_scalar_mul(&self, h: &Self, a: &FieldElement, b: &FieldElement) -> Self {
                Self {
                    value: symcore::add(symcore::mul(self.value, a.id()), symcore::mul(h.value, b.id())),
                }
            }
        }
    };
}

#[macro_export]
macro_rules! impl_group_elem_ops {
    ( $group_element:ident ) => {
        impl PartialEq for $group_element {
            fn eq(&self, other: &$group_element) -> bool {
                symcore::eq(self.value, other.value)
            }
        }

        impl Eq for $group_element {}

        impl Add for $group_element {
            type Output = Self;

            fn add(self, other: Self) -> Self {
                self.plus(&other)
            }
        }

        impl Add<$group_element> for &$group_element {
            type Output = $group_element;

            fn add(self, other: $group_element) -> $group_element {
                self.plus(&other)
            }
        }

        impl<'a> Add<&'a $group_element> for $group_element {
            type Output = Self;
            fn add(self, other: &'a $group_element) -> Self {
                self.plus(other)
            }
        }

        impl<'a> Add<&'a $group_element> for &$group_element {
            type Output = $group_element;
            fn add(self, other: &'a $group_element) -> $group_element {
                self.plus(other)
            }
        }

        impl AddAssign for $group_element {
            fn add_assign(&mut self, other: Self) {
                self.add_assign_(&other)
            }
        }

        impl<'a> AddAssign<&'a $group_element> for $group_element {
            fn add_assign(&mut self, other: &'a $group_element) {
                self.add_assign_(other)
            }
        }

        impl Sub for $group_element {
            type Output = Self;

            fn sub(self, other: Self) -> Self {
                self.minus(&other)
            }
        }

        impl Sub<$group_element> for &$group_element {
            type Output = $group_element;

            fn sub(self, other: $group_element) -> $group_element {
                self.minus(&other)
            }
        }

        impl<'a> Sub<&'a $group_element> for $group_element {
            type Output = Self;
            fn sub(self, other: &'a $group_element) -> Self {
                self.minus(other)
            }
        }

        impl<'a> Sub<&'a $group_element> for &$group_element {
            type Output = $group_element;
            fn sub(self, other: &'a $group_element) -> $group_element {
                self.minus(other)
            }
        }

        impl SubAssign for $group_element {
            fn sub_assign(&mut self, other: Self) {
                self.sub_assign_(&other)
            }
        }

        impl<'a> SubAssign<&'a $group_element> for $group_element {
            fn sub_assign(&mut self, other: &'a $group_element) {
                self.sub_assign_(other)
            }
        }

        impl Mul<FieldElement> for $group_element {
            type Output = Self;

            fn mul(self, other: FieldElement) -> Self {
                self.scalar_mul_const_time(&other)
            }
        }

        impl Mul<&FieldElement> for $group_element {
            type Output = Self;

            fn mul(self, other: &FieldElement) -> Self {
                self.scalar_mul_const_time(other)
            }
        }

        impl Mul<FieldElement> for &$group_element {
            type Output = $group_element;

            fn mul(self, other: FieldElement) -> $group_element {
                self.scalar_mul_const_time(&other)
            }
        }

        impl Mul<&FieldElement> for &$group_element {
            type Output = $group_element;

            fn mul(self, other: &FieldElement) -> $group_element {
                self.scalar_mul_const_time(other)
            }
        }

        impl Neg for $group_element {
            type Output = Self;

            fn neg(self) -> Self::Output {
                self.negation()
            }
        }

        impl Neg for &$group_element {
            type Output = $group_element;

            fn neg(self) -> Self::Output {
                self.negation()
            }
        }
    };
}

macro_rules! impl_scalar_mul_ops {
    ( $group_element:ident ) => {
        impl Mul<$group_element> for FieldElement {
            type Output = $group_element;

            fn mul(self, other: $group_element) -> $group_element {
                other.scalar_mul_const_time(&self)
            }
        }

        impl Mul<&$group_element> for FieldElement {
            type Output = $group_element;

            fn mul(self, other: &$group_element) -> $group_element {
                other.scalar_mul_const_time(&self)
            }
        }

        impl Mul<$group_element> for &FieldElement {
            type Output = $group_element;

            fn mul(self, other: $group_element) -> $group_element {
                other.scalar_mul_const_time(self)
            }
        }

        impl Mul<&$group_element> for &FieldElement {
            type Output = $group_element;

            fn mul(self, other: &$group_element) -> $group_element {
                other.scalar_mul_const_time(self)
            }
        }
    };
}

macro_rules! impl_group_element_lookup_table {
    ( $group_element:ident, $name:ident  ) => {
        pub struct $name([$group_element; 8]);

        impl $name {
            /// Given public A and odd x with 0 < x < 2^4, return x.A.
            pub fn select(&self, x: usize) -> &$group_element {
                debug_assert_eq!(x & 1, 1);
                debug_assert!(x < 16);

                &self.0[x / 2]
            }
        }

        impl<'a> From<&'a $group_element> for $name {
            fn from(A: &'a $group_element) -> Self {
                let mut Ai: [$group_element; 8] = [
                    $group_element::new(),
                    $group_element::new(),
                    $group_element::new(),
                    $group_element::new(),
                    $group_element::new(),
                    $group_element::new(),
                    $group_element::new(),
                    $group_element::new(),
                ];
                let A2 = A.double();
                Ai[0] = A.clone();
                for i in 0..7 {
                    Ai[i + 1] = &Ai[i] + &A2;
                }
                // Now Ai = [A, 3A, 5A, 7A, 9A, 11A, 13A, 15A]
                Self(Ai)
            }
        }
    };
}

macro_rules! impl_optmz_scalar_mul_ops {
    ( $group_element:ident, $group:ident, $lookup_table:ident ) => {
        impl $group_element {
            /// Multiply point on the curve (element of group G1) with a scalar. Variable time operation
            /// Uses wNAF.
            pub fn scalar_mul_variable_time(&self, a: &FieldElement) -> Self {
                // TODO: Optimization: Attach the lookup table to the struct
                let table = $lookup_table::from(self);
                let wnaf = a.to_wnaf(5);
                $group_element::wnaf_mul(&table, &wnaf)
            }

            /// Return multiples of itself. eg. Given `n`=5, returns self, 2*self, 3*self, 4*self, 5*self
            pub fn get_multiples(&self, n: usize) -> Vec<$group_element> {
                // TODO: Can use `selector` from ECP
                let mut res = vec![self.clone()];
                for i in 2..=n {
                    res.push(&res[i - 2] + self);
                }
                res
            }

            pub fn to_wnaf_lookup_table(&self, width: usize) -> $lookup_table {
                // Only supporting table of width 5 for now
                debug_assert_eq!(width, 5);
                $lookup_table::from(self)
            }

            pub fn wnaf_mul(table: &$lookup_table, wnaf: &[i8]) -> Self {
                let result = &table.0[0] * &FieldElement::from_wnaf(wnaf);

                result
            }
        }
    };
}

pub trait GroupElementVector<T>: Sized {
    fn new(size: usize) -> Self;

    fn with_capacity(capacity: usize) -> Self;

    fn as_slice(&self) -> &[T];

    fn as_mut_slice(&mut self) -> &mut [T];

    fn len(&self) -> usize;

    fn push(&mut self, value: T);

    fn append(&mut self, other: &mut Self);

    fn pop(&mut self) -> Option<T>;

    fn insert(&mut self, index: usize, element: T);

    fn remove(&mut self, index: usize) -> T;

    /// Compute sum of all elements of the vector
    fn sum(&self) -> T;

    /// Multiply each element of the vector with a given field
    /// element `n` (scale the vector). Modifies the vector.
    fn scale(&mut self, n: &FieldElement);

    /// Multiply each element of the vector with a given field
    /// element `n` to create a new vector
    fn scaled_by(&self, n: &FieldElement) -> Self;

    /// Add 2 vectors
    fn plus(&self, b: &Self) -> Result<Self, ValueError>;

    /// Subtract 2 vectors
    fn minus(&self, b: &Self) -> Result<Self, ValueError>;

    fn iter(&self) -> Iter<T>;

    fn random(size: usize) -> Self;
}

#[macro_export]
macro_rules! impl_group_elem_vec_ops {
    ( $group_element:ident, $group_element_vec:ident ) => {
        impl GroupElementVector<$group_element> for $group_element_vec {
            fn new(size: usize) -> Self {
                Self {
                    elems: (0..size)
                        .into_iter()
                        .map(|_| $group_element::new())
                        .collect(),
                }
            }

            fn with_capacity(capacity: usize) -> Self {
                Self {
                    elems: Vec::<$group_element>::with_capacity(capacity),
                }
            }

            fn as_slice(&self) -> &[$group_element] {
                &self.elems
            }

            fn as_mut_slice(&mut self) -> &mut [$group_element] {
                &mut self.elems
            }

            fn len(&self) -> usize {
                self.elems.len()
            }

            fn push(&mut self, value: $group_element) {
                self.elems.push(value)
            }

            fn append(&mut self, other: &mut Self) {
                self.elems.append(&mut other.elems)
            }

            fn pop(&mut self) -> Option<$group_element> {
                self.elems.pop()
            }

            fn insert(&mut self, index: usize, element: $group_element) {
                self.elems.insert(index, element)
            }

            fn remove(&mut self, index: usize) -> $group_element {
                self.elems.remove(index)
            }

            fn sum(&self) -> $group_element {
                self.as_slice()
                    .iter()
                    .cloned()
                    .fold($group_element::new(), |a, b| a + b)
            }

            fn scale(&mut self, n: &FieldElement) {
                // TODO: Since each element is multiplied with same field element, use the
                // optimized version.
                for i in 0..self.len() {
                    self[i] = &self[i] * n;
                }
            }

            fn scaled_by(&self, n: &FieldElement) -> Self {
                // TODO: Since each element is multiplied with same field element, use the
                // optimized version.
                let mut scaled = Self::with_capacity(self.len());
                for i in 0..self.len() {
                    scaled.push(&self[i] * n)
                }
                scaled.into()
            }

            fn plus(&self, b: &Self) -> Result<Self, ValueError> {
                check_vector_size_for_equality!(self, b)?;
                let mut sum_vector = Self::new(self.len());
                sum_vector
                    .as_mut_slice()
                    .iter_mut()
                    .enumerate()
                    .for_each(|(i, e)| *e = &self[i] + &b[i]);
                Ok(sum_vector)
            }

            fn minus(&self, b: &Self) -> Result<Self, ValueError> {
                check_vector_size_for_equality!(self, b)?;
                let mut diff_vector = Self::new(self.len());
                diff_vector
                    .as_mut_slice()
                    .iter_mut()
                    .enumerate()
                    .for_each(|(i, e)| *e = &self[i] - &b[i]);
                Ok(diff_vector)
            }

            fn iter(&self) -> Iter<$group_element> {
                self.as_slice().iter()
            }

            fn random(size: usize) -> Self {
                (0..size)
                    .into_iter()
                    .map(|_| $group_element::random())
                    .collect::<Vec<$group_element>>()
                    .into()
            }
        }
    };
}

macro_rules! impl_group_elem_vec_product_ops {
    ( $group_element:ident, $group_element_vec:ident, $lookup_table:ident ) => {
        impl $group_element_vec {
            /// Computes inner product of 2 vectors, one of field elements and other of group elements.
            /// [a1, a2, a3, ...field elements].[b1, b2, b3, ...group elements] = (a1*b1 + a2*b2 + a3*b3)
            pub fn inner_product_const_time<'g, 'f>(
                &'g self,
                b: impl IntoIterator<Item = &'f FieldElement>,
            ) -> Result<$group_element, ValueError> {
                self.multi_scalar_mul_const_time(b)
            }

            pub fn inner_product_var_time<'g, 'f>(
                &'g self,
                b: impl IntoIterator<Item = &'f FieldElement>,
            ) -> Result<$group_element, ValueError> {
                self.multi_scalar_mul_var_time(b)
            }

            #[deprecated(since = "0.3.0", note = "Please use the `inner_product_var_time` function instead")]
            pub fn inner_product_var_time_with_ref_vecs(
                group_elems: Vec<&$group_element>,
                field_elems: Vec<&FieldElement>,
            ) -> Result<$group_element, ValueError> {
                Self::multi_scalar_mul_var_time_from_ref_vecs(group_elems, field_elems)
            }

            /// Calculates Hadamard product of 2 group element vectors.
            /// Hadamard product of `a` and `b` = `a` o `b` = (a0 o b0, a1 o b1, ...).
            /// Here `o` denotes group operation, which in elliptic curve is point addition
            pub fn hadamard_product(&self, b: &Self) -> Result<Self, ValueError> {
                check_vector_size_for_equality!(self, b)?;
                let mut hadamard_product = Self::new(self.len());
                hadamard_product.as_mut_slice().iter_mut().enumerate().for_each(|(i, e)| {
                    *e = &self[i] + &b[i]
                });
                Ok(hadamard_product)
            }

            pub fn split_at(&self, mid: usize) -> (Self, Self) {
                let (l, r) = self.as_slice().split_at(mid);
                (Self::from(l), Self::from(r))
            }

            /// Constant time multi-scalar multiplication. Naive approach computing `n` scalar
            /// multiplications and n-1 additions for `n` field elements
            pub fn multi_scalar_mul_const_time_naive(
                &self,
                field_elems: &FieldElementVector,
            ) -> Result<$group_element, ValueError> {
                check_vector_size_for_equality!(field_elems, self)?;
                let mut accum = $group_element::new();
                for i in 0..self.len() {
                    accum += &self[i] * &field_elems[i];
                }
                Ok(accum)
            }

            /// Constant time multi-scalar multiplication
            pub fn multi_scalar_mul_const_time<'g, 'f>(
                &'g self,
                field_elems: impl IntoIterator<Item = &'f FieldElement>,
            ) -> Result<$group_element, ValueError> {
                Self::multi_scalar_mul_const_time_without_precomputation(self.as_slice(), field_elems)
            }

            /// Variable time multi-scalar multiplication
            pub fn multi_scalar_mul_var_time<'g, 'f>(
                &'g self,
                field_elems: impl IntoIterator<Item = &'f FieldElement>,
            ) -> Result<$group_element, ValueError> {
                Self::multi_scalar_mul_var_time_without_precomputation(self.as_slice(), field_elems)
            }

            /// Strauss multi-scalar multiplication
            pub fn multi_scalar_mul_var_time_without_precomputation<'g, 'f>(
                group_elems: impl IntoIterator<Item = &'g $group_element>,
                field_elems: impl IntoIterator<Item = &'f FieldElement>,
            ) -> Result<$group_element, ValueError> {
                let lookup_tables: Vec<_> = group_elems
                    .into_iter()
                    .map(|e| $lookup_table::from(e))
                    .collect();

                Self::multi_scalar_mul_var_time_with_precomputation_done(
                    &lookup_tables,
                    field_elems,
                )
            }

            #[deprecated(since = "0.3.0", note = "Please use the `multi_scalar_mul_var_time_without_precomputation` function instead")]
            pub fn multi_scalar_mul_var_time_from_ref_vecs(
                group_elems: Vec<&$group_element>,
                field_elems: Vec<&FieldElement>,
            ) -> Result<$group_element, ValueError> {
                let lookup_tables: Vec<_> = group_elems
                    .iter()
                    .map(|e| $lookup_table::from(*e))
                    .collect();

                Self::multi_scalar_mul_var_time_with_precomputation_done(
                    &lookup_tables,
                    field_elems,
                )
            }

            /// Strauss multi-scalar multiplication. Passing the lookup tables since in lot of cases generators will be fixed
            pub fn multi_scalar_mul_var_time_with_precomputation_done<'f>(
                lookup_tables: &[$lookup_table],
                field_elems: impl IntoIterator<Item = &'f FieldElement>,
            ) -> Result<$group_element, ValueError> {
                let fs: Vec<_> = field_elems.into_iter().collect();
                check_vector_size_for_equality!(fs, lookup_tables)?;
                let mut r = $group_element::identity();
                for (f, t) in fs.iter().zip(lookup_tables.iter()) {
                    r = r + &t.0[0] * *f;
                }
                Ok(r)
            }

            /// Constant time multi-scalar multiplication.
            /// Taken from Guide to Elliptic Curve Cryptography book, "Algorithm 3.48 Simultaneous multiple point multiplication" without precomputing the addition
            /// Still helps with reducing doublings
            pub fn multi_scalar_mul_const_time_without_precomputation<'g, 'f>(
                group_elems: impl IntoIterator<Item = &'g $group_element>,
                field_elems: impl IntoIterator<Item = &'f FieldElement>,
            ) -> Result<$group_element, ValueError> {

                // Choosing window of size 3.
                let group_elem_multiples: Vec<_> = group_elems
                    .into_iter()
                    .map(|e| e.get_multiples(1)) // 2^3 - 1
                    .collect();

                Self::multi_scalar_mul_const_time_with_precomputation_done(
                    &group_elem_multiples,
                    field_elems,
                )
            }

            pub fn multi_scalar_mul_const_time_with_precomputation_done<'f>(
                group_elem_multiples: &[Vec<$group_element>],
                field_elems: impl IntoIterator<Item = &'f FieldElement>,
            ) -> Result<$group_element, ValueError> {
                let fs: Vec<_> = field_elems.into_iter().collect();
                check_vector_size_for_equality!(group_elem_multiples, fs)?;
                let mut r = $group_element::new();
                for (f, m) in fs.iter().zip(group_elem_multiples.iter()) {
                    r = r + &m[0] * *f;
                }
                Ok(r)
            }

            /// Non-constant time operation. Scale this group element vector by a factor. Each group
            /// element is multiplied by the same factor so wnaf is computed only once.
            pub fn scale_var_time(&mut self, n: &FieldElement) {
                let wnaf = n.to_wnaf(5);
                self.elems.as_mut_slice().iter_mut().for_each(|e| {
                    let table = $lookup_table::from(&(*e));
                    *e = $group_element::wnaf_mul(&table, &wnaf);
                })
            }

            /// Non-constant time operation. Return a scaled vector. Each group
            /// element is multiplied by the same factor so wnaf is computed only once.
            pub fn scaled_by_var_time(&self, n: &FieldElement) -> Self {
                let mut scaled: Self = self.clone();
                scaled.scale_var_time(n);
                scaled
            }
        }
    };
}

#[macro_export]
macro_rules! impl_group_elem_vec_conversions {
    ( $group_element:ident, $group_element_vec:ident ) => {
        impl From<Vec<$group_element>> for $group_element_vec {
            fn from(x: Vec<$group_element>) -> Self {
                Self { elems: x }
            }
        }

        impl From<&[$group_element]> for $group_element_vec {
            fn from(x: &[$group_element]) -> Self {
                Self { elems: x.to_vec() }
            }
        }

        impl Into<Vec<$group_element>> for $group_element_vec {
            fn into(self) -> Vec<$group_element> {
                self.elems
            }
        }

        impl<'a> Into<&'a [$group_element]> for &'a $group_element_vec {
            fn into(self) -> &'a [$group_element] {
                &self.elems
            }
        }

        impl Index<usize> for $group_element_vec {
            type Output = $group_element;

            fn index(&self, idx: usize) -> &$group_element {
                &self.elems[idx]
            }
        }

        impl IndexMut<usize> for $group_element_vec {
            fn index_mut(&mut self, idx: usize) -> &mut $group_element {
                &mut self.elems[idx]
            }
        }

        impl PartialEq for $group_element_vec {
            fn eq(&self, other: &Self) -> bool {
                if self.len() != other.len() {
                    return false;
                }
                for i in 0..self.len() {
                    if self[i] != other[i] {
                        return false;
                    }
                }
                true
            }
        }

        impl IntoIterator for $group_element_vec {
            type Item = $group_element;
            type IntoIter = ::std::vec::IntoIter<$group_element>;

            fn into_iter(self) -> Self::IntoIter {
                self.elems.into_iter()
            }
        }

        impl AsRef<[$group_element]> for $group_element_vec {
            fn as_ref(&self) -> &[$group_element] {
                self.elems.as_slice()
            }
        }
    };
}

