//! The same harness runs twice: on the symbolic curve layer (deciding) and,
//! with the feature `native`, on the real curve (replaying witnesses).
use pairing_plus::bls12_381::{Fr, G1, G2};
use pairing_plus::CurveProjective;
use symcore::engine;
use symcore::Id;

#[cfg(not(feature = "native"))]
mod imp {
    use super::*;
    pub fn fe(n: &str) -> Fr {
        Fr::from_id(symcore::free(n))
    }
    pub fn g1(n: &str) -> G1 {
        G1::from_id(symcore::free(n))
    }
    pub fn g2(n: &str) -> G2 {
        G2::from_id(symcore::free(n))
    }
    pub fn fe_const(b: &[u8]) -> Fr {
        Fr::from_id(symcore::big_be(b))
    }
    pub trait Val {
        fn diff(&self, o: &Self) -> Id;
        fn nz(&self) -> Id;
    }
    macro_rules! val {
        ($t:ty) => {
            impl Val for $t {
                fn diff(&self, o: &Self) -> Id {
                    symcore::sub(self.id(), o.id())
                }
                fn nz(&self) -> Id {
                    self.id()
                }
            }
        };
    }
    val!(Fr);
    val!(G1);
    val!(G2);
}

#[cfg(feature = "native")]
mod imp {
    use super::*;
    use ff_zeroize::{Field, PrimeField, PrimeFieldRepr};
    use pairing_plus::bls12_381::FrRepr;
    pub fn fe(n: &str) -> Fr {
        let mut b = vec![0u8; 32];
        let v = symcore::engine::witness(n).0.to_bytes_be();
        b[32 - v.len()..].copy_from_slice(&v);
        let mut r = FrRepr::default();
        r.read_be(&b[..]).unwrap();
        Fr::from_repr(r).unwrap()
    }
    pub fn g1(n: &str) -> G1 {
        let mut g = G1::one();
        g.mul_assign(fe(n));
        g
    }
    pub fn g2(n: &str) -> G2 {
        let mut g = G2::one();
        g.mul_assign(fe(n));
        g
    }
    pub fn fe_const(b: &[u8]) -> Fr {
        let mut r = FrRepr::default();
        r.read_be(b).unwrap();
        Fr::from_repr(r).unwrap()
    }
    pub trait Val {
        fn diff(&self, o: &Self) -> Id;
        fn nz(&self) -> Id;
    }
    macro_rules! val {
        ($t:ty) => {
            impl Val for $t {
                fn diff(&self, o: &Self) -> Id {
                    symcore::int(if self == o { 0 } else { 1 })
                }
                fn nz(&self) -> Id {
                    symcore::int(if self.is_zero() { 0 } else { 1 })
                }
            }
        };
    }
    val!(Fr);
    val!(G1);
    val!(G2);
}
pub use imp::*;

pub fn fes(n: &str, k: usize) -> Vec<Fr> {
    (0..k).map(|i| fe(&format!("{}{}", n, i))).collect()
}
pub fn g1s(n: &str, k: usize) -> Vec<G1> {
    (0..k).map(|i| g1(&format!("{}{}", n, i))).collect()
}
pub fn nonzero<T: Val>(v: T) -> T {
    engine::assume_nonzero(v.nz());
    v
}
pub fn same<T: Val>(a: &T, b: &T, label: &str) {
    engine::assert_zero(a.diff(b), label)
}
pub fn differ<T: Val>(a: &T, b: &T, label: &str) {
    engine::assert_nonzero(a.diff(b), label)
}
pub fn assume_same<T: Val>(a: &T, b: &T) {
    engine::assume_zero(a.diff(b))
}
pub fn assume_differ<T: Val>(a: &T, b: &T) {
    engine::assume_nonzero(a.diff(b))
}
pub fn truth(b: bool, label: &str) {
    engine::assert_true(b, label)
}
/// decides the branch (forks when both outcomes are possible)
pub fn is_same<T: Val>(a: &T, b: &T) -> bool {
    symcore::is_zero(a.diff(b))
}
/// All subsets of 0..n.
pub fn subsets(n: usize) -> Vec<Vec<usize>> {
    (0..1usize << n)
        .map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect())
        .collect()
}

// group arithmetic written as expressions
use ff_zeroize::Field;
pub fn mul(g: &G1, s: &Fr) -> G1 {
    let mut g = *g;
    g.mul_assign(*s);
    g
}
pub fn mul2(g: &G2, s: &Fr) -> G2 {
    let mut g = *g;
    g.mul_assign(*s);
    g
}
pub fn add(a: &G1, b: &G1) -> G1 {
    let mut a = *a;
    a.add_assign(b);
    a
}
pub fn sub(a: &G1, b: &G1) -> G1 {
    let mut a = *a;
    a.sub_assign(b);
    a
}
pub fn fadd(a: &Fr, b: &Fr) -> Fr {
    let mut a = *a;
    a.add_assign(b);
    a
}
pub fn fsub(a: &Fr, b: &Fr) -> Fr {
    let mut a = *a;
    a.sub_assign(b);
    a
}
pub fn fmul(a: &Fr, b: &Fr) -> Fr {
    let mut a = *a;
    a.mul_assign(b);
    a
}
pub fn finv(a: &Fr) -> Fr {
    a.inverse().unwrap()
}
/// a constant whose four 64-bit words differ
pub fn constant(word: Option<usize>) -> Fr {
    let mut b = [0u8; 32];
    for (i, x) in b.iter_mut().enumerate() {
        *x = 3 + i as u8;
    }
    if let Some(w) = word {
        b[8 * w + 7] ^= 1;
    }
    fe_const(&b)
}
/// Two different scalars: arbitrary ones, or (so that a hash that absorbs only
/// part of an encoding shows on real values too) ones that differ in one word.
pub fn two_fes(a: &str, b: &str, vary: bool) -> (Fr, Fr) {
    match if vary { engine::choose("near", 5) } else { 0 } {
        0 => {
            let (x, y) = (fe(a), fe(b));
            assume_differ(&y, &x);
            (x, y)
        }
        w => (constant(None), constant(Some(w as usize - 1))),
    }
}
/// Another point: an arbitrary one or the negation (same first coordinate).
pub fn other_g1(n: &str, of: &G1) -> G1 {
    let alt = match engine::choose("alt", 2) {
        0 => g1(n),
        _ => {
            let mut x = *of;
            x.negate();
            x
        }
    };
    assume_differ(&alt, of);
    alt
}
