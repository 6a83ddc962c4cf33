use crate::hash_to_field::BaseFromRO;
use crate::{CurveAffine, CurveProjective, EncodedPoint, Engine, GroupDecodingError, SubgroupCheck};
use digest::generic_array::{typenum::U48, GenericArray};
use ff_zeroize::{Field, LegendreSymbol, PrimeField, PrimeFieldDecodingError, PrimeFieldRepr, ScalarEngine, SqrtField};
use rand_core::RngCore;
use std::cmp::Ordering;
use std::fmt;
use symcore::Id;

// ------------------------------------------------------------------- scalars
const TY_FR: u8 = b'F';

#[derive(Copy, Clone, PartialEq, Eq, Default, Debug)]
pub struct FrRepr(pub [u64; 4]);

impl FrRepr {
    fn be(&self) -> [u8; 32] {
        let mut o = [0u8; 32];
        for (i, l) in self.0.iter().rev().enumerate() {
            o[8 * i..8 * i + 8].copy_from_slice(&l.to_be_bytes());
        }
        o
    }
    fn from_be(b: &[u8]) -> Self {
        let mut r = [0u64; 4];
        for i in 0..4 {
            let mut w = [0u8; 8];
            w.copy_from_slice(&b[8 * i..8 * i + 8]);
            r[3 - i] = u64::from_be_bytes(w);
        }
        FrRepr(r)
    }
}
impl fmt::Display for FrRepr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "0x")?;
        for i in self.0.iter().rev() {
            write!(f, "{:016x}", *i)?;
        }
        Ok(())
    }
}
impl AsRef<[u64]> for FrRepr {
    fn as_ref(&self) -> &[u64] {
        &self.0
    }
}
impl AsMut<[u64]> for FrRepr {
    fn as_mut(&mut self) -> &mut [u64] {
        &mut self.0
    }
}
impl From<u64> for FrRepr {
    fn from(v: u64) -> Self {
        FrRepr([v, 0, 0, 0])
    }
}
impl From<Fr> for FrRepr {
    fn from(v: Fr) -> Self {
        v.into_repr()
    }
}
impl Ord for FrRepr {
    fn cmp(&self, o: &Self) -> Ordering {
        self.be().cmp(&o.be())
    }
}
impl PartialOrd for FrRepr {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl zeroize::Zeroize for FrRepr {
    fn zeroize(&mut self) {
        self.0 = [0; 4];
    }
}
impl PrimeFieldRepr for FrRepr {
    fn sub_noborrow(&mut self, other: &Self) {
        let mut b = 0u64;
        for i in 0..4 {
            let (x, b1) = self.0[i].overflowing_sub(other.0[i]);
            let (x, b2) = x.overflowing_sub(b);
            b = (b1 || b2) as u64;
            self.0[i] = x;
        }
    }
    fn add_nocarry(&mut self, other: &Self) {
        let mut c = 0u128;
        for i in 0..4 {
            c += self.0[i] as u128 + other.0[i] as u128;
            self.0[i] = c as u64;
            c >>= 64;
        }
    }
    fn num_bits(&self) -> u32 {
        for i in (0..4).rev() {
            if self.0[i] != 0 {
                return 64 * (i as u32 + 1) - self.0[i].leading_zeros();
            }
        }
        0
    }
    fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
    fn is_odd(&self) -> bool {
        self.0[0] & 1 == 1
    }
    fn is_even(&self) -> bool {
        !self.is_odd()
    }
    fn div2(&mut self) {
        self.shr(1)
    }
    fn shr(&mut self, amt: u32) {
        for _ in 0..amt {
            let mut t = 0;
            for i in self.0.iter_mut().rev() {
                let t2 = *i << 63;
                *i = (*i >> 1) | t;
                t = t2;
            }
        }
    }
    fn mul2(&mut self) {
        self.shl(1)
    }
    fn shl(&mut self, amt: u32) {
        for _ in 0..amt {
            let mut t = 0;
            for i in self.0.iter_mut() {
                let t2 = *i >> 63;
                *i = (*i << 1) | t;
                t = t2;
            }
        }
    }
}

#[derive(Copy, Clone, Debug)]
pub struct Fr(Id);

impl Fr {
    pub fn from_id(i: Id) -> Self {
        Fr(i)
    }
    pub fn id(&self) -> Id {
        self.0
    }
}
fn modulus() -> [u8; 32] {
    let m = symcore::field::modulus().to_bytes_be();
    let mut o = [0u8; 32];
    o[32 - m.len()..].copy_from_slice(&m);
    o
}
impl PartialEq for Fr {
    fn eq(&self, o: &Fr) -> bool {
        symcore::eq(self.0, o.0)
    }
}
impl Eq for Fr {}
impl Ord for Fr {
    fn cmp(&self, o: &Self) -> Ordering {
        if self == o {
            Ordering::Equal
        } else {
            self.into_repr().cmp(&o.into_repr())
        }
    }
}
impl PartialOrd for Fr {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Default for Fr {
    fn default() -> Self {
        Fr(0)
    }
}
impl zeroize::Zeroize for Fr {
    fn zeroize(&mut self) {
        self.0 = 0;
    }
}
impl fmt::Display for Fr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Fr({})", self.into_repr())
    }
}
impl Field for Fr {
    fn random<R: RngCore + ?Sized>(_rng: &mut R) -> Self {
        Fr(symcore::random("fr"))
    }
    fn zero() -> Self {
        Fr(0)
    }
    fn one() -> Self {
        Fr(1)
    }
    fn is_zero(&self) -> bool {
        symcore::is_zero(self.0)
    }
    fn square(&mut self) {
        self.0 = symcore::mul(self.0, self.0)
    }
    fn double(&mut self) {
        self.0 = symcore::add(self.0, self.0)
    }
    fn negate(&mut self) {
        self.0 = symcore::neg(self.0)
    }
    fn add_assign(&mut self, o: &Self) {
        self.0 = symcore::add(self.0, o.0)
    }
    fn sub_assign(&mut self, o: &Self) {
        self.0 = symcore::sub(self.0, o.0)
    }
    fn mul_assign(&mut self, o: &Self) {
        self.0 = symcore::mul(self.0, o.0)
    }
    fn inverse(&self) -> Option<Self> {
        if symcore::is_zero(self.0) {
            None
        } else {
            Some(Fr(symcore::inv(self.0)))
        }
    }
    fn frobenius_map(&mut self, _power: usize) {}
}
impl SqrtField for Fr {
    fn legendre(&self) -> LegendreSymbol {
        symcore::engine::inconclusive("square roots are not modelled")
    }
    fn sqrt(&self) -> Option<Self> {
        symcore::engine::inconclusive("square roots are not modelled")
    }
}
impl PrimeField for Fr {
    type Repr = FrRepr;
    fn from_repr(r: FrRepr) -> Result<Self, PrimeFieldDecodingError> {
        let b = r.be();
        if symcore::from_tag(&b, TY_FR).is_none() && b >= modulus() {
            return Err(PrimeFieldDecodingError::NotInField(format!("{}", r)));
        }
        Ok(Fr(symcore::scalar_from_bytes(&b, TY_FR)))
    }
    fn into_repr(&self) -> FrRepr {
        FrRepr::from_be(&symcore::scalar_to_bytes(self.0, TY_FR, 32))
    }
    fn char() -> FrRepr {
        FrRepr::from_be(&modulus())
    }
    const NUM_BITS: u32 = 255;
    const CAPACITY: u32 = 254;
    fn multiplicative_generator() -> Self {
        Fr(symcore::int(7))
    }
    const S: u32 = 32;
    fn root_of_unity() -> Self {
        symcore::engine::inconclusive("roots of unity are not modelled")
    }
}
impl BaseFromRO for Fr {
    type BaseLength = U48;
    fn from_okm(okm: &GenericArray<u8, U48>) -> Fr {
        Fr(symcore::oracle_unkeyed("okm", okm.as_slice()))
    }
}

// -------------------------------------------------------------------- groups
macro_rules! group {
    ($proj:ident, $aff:ident, $prep:ident, $comp:ident, $uncomp:ident, $ty:expr, $csize:expr, $usize:expr, $rand:expr, $pair:ident, $id1:ident, $id2:ident) => {
        #[derive(Copy, Clone, Debug)]
        pub struct $proj(Id);
        #[derive(Copy, Clone, Debug)]
        pub struct $aff(Id);
        #[derive(Clone, Debug)]
        pub struct $prep(pub(crate) Id);
        impl $prep {
            pub fn is_zero(&self) -> bool {
                symcore::is_zero(self.0)
            }
        }
        impl $proj {
            pub fn from_id(i: Id) -> Self {
                $proj(i)
            }
            pub fn id(&self) -> Id {
                self.0
            }
        }
        impl $aff {
            pub fn id(&self) -> Id {
                self.0
            }
        }
        impl PartialEq for $proj {
            fn eq(&self, o: &Self) -> bool {
                symcore::eq(self.0, o.0)
            }
        }
        impl Eq for $proj {}
        impl PartialEq for $aff {
            fn eq(&self, o: &Self) -> bool {
                symcore::eq(self.0, o.0)
            }
        }
        impl Eq for $aff {}
        impl Default for $proj {
            fn default() -> Self {
                $proj(0)
            }
        }
        impl Default for $aff {
            fn default() -> Self {
                $aff(0)
            }
        }
        impl zeroize::Zeroize for $proj {
            fn zeroize(&mut self) {
                self.0 = 0;
            }
        }
        impl fmt::Display for $proj {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "{:02x?}", self.into_affine().into_uncompressed().as_ref())
            }
        }
        impl fmt::Display for $aff {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "{:02x?}", self.into_uncompressed().as_ref())
            }
        }
        impl From<$aff> for $proj {
            fn from(a: $aff) -> Self {
                $proj(a.0)
            }
        }
        impl From<$proj> for $aff {
            fn from(a: $proj) -> Self {
                $aff(a.0)
            }
        }
        impl SubgroupCheck for $aff {
            fn in_subgroup(&self) -> bool {
                true
            }
        }
        impl CurveProjective for $proj {
            type Engine = Bls12;
            type Scalar = Fr;
            type Affine = $aff;
            fn random<R: RngCore>(_rng: &mut R) -> Self {
                $proj(symcore::random($rand))
            }
            fn zero() -> Self {
                $proj(0)
            }
            fn one() -> Self {
                $proj(1)
            }
            fn is_zero(&self) -> bool {
                symcore::is_zero(self.0)
            }
            fn double(&mut self) {
                self.0 = symcore::add(self.0, self.0)
            }
            fn add_assign(&mut self, o: &Self) {
                self.0 = symcore::add(self.0, o.0)
            }
            fn sub_assign(&mut self, o: &Self) {
                self.0 = symcore::sub(self.0, o.0)
            }
            fn add_assign_mixed(&mut self, o: &$aff) {
                self.0 = symcore::add(self.0, o.0)
            }
            fn negate(&mut self) {
                self.0 = symcore::neg(self.0)
            }
            fn mul_assign<S: Into<FrRepr>>(&mut self, other: S) {
                self.0 = symcore::mul(self.0, scalar(&other.into()))
            }
            fn into_affine(&self) -> $aff {
                $aff(self.0)
            }
        }
        impl CurveAffine for $aff {
            type Engine = Bls12;
            type Scalar = Fr;
            type Projective = $proj;
            type Prepared = $prep;
            type Uncompressed = $uncomp;
            type Compressed = $comp;
            type Pair = $pair;
            type PairingResult = Fq12;
            fn zero() -> Self {
                $aff(0)
            }
            fn one() -> Self {
                $aff(1)
            }
            fn is_zero(&self) -> bool {
                symcore::is_zero(self.0)
            }
            fn negate(&mut self) {
                self.0 = symcore::neg(self.0)
            }
            fn mul<S: Into<FrRepr>>(&self, other: S) -> $proj {
                $proj(symcore::mul(self.0, scalar(&other.into())))
            }
            fn prepare(&self) -> $prep {
                $prep(self.0)
            }
            fn pairing_with(&self, other: &$pair) -> Fq12 {
                Fq12(symcore::mul(self.0, other.id()))
            }
            fn into_projective(&self) -> $proj {
                $proj(self.0)
            }
            fn sum_of_products(bases: &[Self], scalars: &[&[u64; 4]]) -> $proj {
                let mut acc = 0;
                for (b, s) in bases.iter().zip(scalars) {
                    acc = symcore::add(acc, symcore::mul(b.0, scalar(&FrRepr(**s))));
                }
                $proj(acc)
            }
        }
        encoded!($comp, $aff, $csize, $ty, true);
        encoded!($uncomp, $aff, $usize, $ty, false);
    };
}
/// Value of a multiplier given as limbs: any 256-bit number, reduced modulo the order.
fn scalar(r: &FrRepr) -> Id {
    let b = r.be();
    if let Some(i) = symcore::from_tag(&b, TY_FR) {
        return i;
    }
    symcore::scalar_from_bytes(&b, TY_FR)
}
macro_rules! encoded {
    ($name:ident, $aff:ident, $size:expr, $ty:expr, $compressed:expr) => {
        #[derive(Copy, Clone)]
        pub struct $name([u8; $size]);
        impl AsRef<[u8]> for $name {
            fn as_ref(&self) -> &[u8] {
                &self.0
            }
        }
        impl AsMut<[u8]> for $name {
            fn as_mut(&mut self) -> &mut [u8] {
                &mut self.0
            }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "{:02x?}", &self.0[..])
            }
        }
        impl EncodedPoint for $name {
            type Affine = $aff;
            fn empty() -> Self {
                $name([0; $size])
            }
            fn size() -> usize {
                $size
            }
            fn into_affine(&self) -> Result<$aff, GroupDecodingError> {
                self.into_affine_unchecked()
            }
            fn into_affine_unchecked(&self) -> Result<$aff, GroupDecodingError> {
                if (self.0[0] & 0x80 == 0x80) != $compressed {
                    return Err(GroupDecodingError::UnexpectedCompressionMode);
                }
                if self.0[0] & 0x40 == 0x40 {
                    return if self.0[0] & 0x3f == 0 && self.0[1..].iter().all(|b| *b == 0) {
                        Ok($aff(0))
                    } else {
                        Err(GroupDecodingError::UnexpectedInformation)
                    };
                }
                match symcore::from_tag(&self.0, $ty) {
                    Some(i) => Ok($aff(i)),
                    None => Err(GroupDecodingError::NotOnCurve),
                }
            }
            fn from_affine(a: $aff) -> Self {
                let mut o = [0u8; $size];
                if a.0 == 0 || symcore::engine::identical(a.0, 0) {
                    o[0] = if $compressed { 0xc0 } else { 0x40 };
                } else {
                    o.copy_from_slice(&symcore::to_tag(a.0, $ty, if $compressed { 0x80 } else { 0 }, $size));
                }
                $name(o)
            }
        }
    };
}
group!(G1, G1Affine, G1Prepared, G1Compressed, G1Uncompressed, b'1', 48, 96, "g1", G2Affine, p, q);
group!(G2, G2Affine, G2Prepared, G2Compressed, G2Uncompressed, b'2', 96, 192, "g2", G1Affine, q, p);

/// Discrete logarithm with respect to e(g1, g2).
#[derive(Copy, Clone, Debug)]
pub struct Fq12(Id);
impl Fq12 {
    pub fn from_id(i: Id) -> Self {
        Fq12(i)
    }
    pub fn id(&self) -> Id {
        self.0
    }
}
impl PartialEq for Fq12 {
    fn eq(&self, o: &Fq12) -> bool {
        symcore::eq(self.0, o.0)
    }
}
impl Eq for Fq12 {}
impl Default for Fq12 {
    fn default() -> Self {
        Fq12(0)
    }
}
impl fmt::Display for Fq12 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Fq12({})", self.0)
    }
}
impl Field for Fq12 {
    fn random<R: RngCore + ?Sized>(_rng: &mut R) -> Self {
        Fq12(symcore::random("gt"))
    }
    fn zero() -> Self {
        symcore::engine::inconclusive("additive structure of the target group is not modelled")
    }
    fn one() -> Self {
        Fq12(0)
    }
    fn is_zero(&self) -> bool {
        false
    }
    fn square(&mut self) {
        self.0 = symcore::add(self.0, self.0)
    }
    fn double(&mut self) {
        symcore::engine::inconclusive("additive structure of the target group is not modelled")
    }
    fn negate(&mut self) {
        symcore::engine::inconclusive("additive structure of the target group is not modelled")
    }
    fn add_assign(&mut self, _o: &Self) {
        symcore::engine::inconclusive("additive structure of the target group is not modelled")
    }
    fn sub_assign(&mut self, _o: &Self) {
        symcore::engine::inconclusive("additive structure of the target group is not modelled")
    }
    fn mul_assign(&mut self, o: &Self) {
        self.0 = symcore::add(self.0, o.0)
    }
    fn inverse(&self) -> Option<Self> {
        Some(Fq12(symcore::neg(self.0)))
    }
    fn frobenius_map(&mut self, _power: usize) {
        symcore::engine::inconclusive("frobenius map is not modelled")
    }
}

#[derive(Clone, Debug)]
pub struct Bls12;
impl ScalarEngine for Bls12 {
    type Fr = Fr;
}
impl Engine for Bls12 {
    type G1 = G1;
    type G1Affine = G1Affine;
    type G2 = G2;
    type G2Affine = G2Affine;
    type Fqk = Fq12;
    fn miller_loop<'a, I>(i: I) -> Fq12
    where
        I: IntoIterator<Item = &'a (&'a G1Prepared, &'a G2Prepared)>,
    {
        let mut acc = 0;
        for (p, q) in i {
            acc = symcore::add(acc, symcore::mul(p.0, q.0));
        }
        Fq12(acc)
    }
    fn final_exponentiation(r: &Fq12) -> Option<Fq12> {
        Some(*r)
    }
}
