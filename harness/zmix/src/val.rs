//! The same harness runs twice: on the symbolic curve layer (deciding) and,
//! with the feature `native`, on the real curve (replaying witnesses).
use amcl_wrapper::extension_field_gt::GT;
use amcl_wrapper::field_elem::FieldElement;
use amcl_wrapper::group_elem::GroupElement;
use amcl_wrapper::group_elem_g1::G1;
use amcl_wrapper::group_elem_g2::G2;
use symcore::engine;
use symcore::Id;

#[cfg(not(feature = "native"))]
mod imp {
    use super::*;
    pub fn fe(n: &str) -> FieldElement {
        FieldElement::from_id(symcore::free(n))
    }
    /// the arbitrary value of this name
    pub fn the(n: &str) -> FieldElement {
        FieldElement::from_id(symcore::the(n))
    }
    pub fn g1(n: &str) -> G1 {
        G1::from_id(symcore::free(n))
    }
    pub fn g2(n: &str) -> G2 {
        G2::from_id(symcore::free(n))
    }
    pub fn gt_of(e: &FieldElement) -> GT {
        GT::from_id(e.id())
    }
    pub trait Val {
        fn diff(&self, o: &Self) -> Id;
        fn nz(&self) -> Id;
    }
    macro_rules! val {
        ($t:ty) => {
            impl Val for $t {
                fn diff(&self, o: &Self) -> Id {
                    symcore::sub(self.id(), o.id())
                }
                fn nz(&self) -> Id {
                    self.id()
                }
            }
        };
    }
    val!(FieldElement);
    val!(G1);
    val!(G2);
    val!(GT);
}

#[cfg(feature = "native")]
mod imp {
    use super::*;
    pub fn fe(n: &str) -> FieldElement {
        let mut b = vec![0u8; 48];
        let v = symcore::engine::witness(n).0.to_bytes_be();
        b[48 - v.len()..].copy_from_slice(&v);
        FieldElement::from_bytes(&b).unwrap()
    }
    pub fn the(n: &str) -> FieldElement {
        fe(&format!("the {}", n))
    }
    pub fn g1(n: &str) -> G1 {
        G1::generator() * fe(n)
    }
    pub fn g2(n: &str) -> G2 {
        G2::generator() * fe(n)
    }
    pub fn gt_of(e: &FieldElement) -> GT {
        GT::ate_pairing(&(G1::generator() * e), &G2::generator())
    }
    pub trait Val {
        fn diff(&self, o: &Self) -> Id;
        fn nz(&self) -> Id;
    }
    macro_rules! val {
        ($t:ty, $z:ident) => {
            impl Val for $t {
                fn diff(&self, o: &Self) -> Id {
                    symcore::int(if self == o { 0 } else { 1 })
                }
                fn nz(&self) -> Id {
                    symcore::int(if self.$z() { 0 } else { 1 })
                }
            }
        };
    }
    val!(FieldElement, is_zero);
    val!(G1, is_identity);
    val!(G2, is_identity);
    val!(GT, is_one);
}
pub use imp::*;

pub fn fes(n: &str, k: usize) -> Vec<FieldElement> {
    (0..k).map(|i| fe(&format!("{}{}", n, i))).collect()
}
pub fn g1s(n: &str, k: usize) -> Vec<G1> {
    (0..k).map(|i| g1(&format!("{}{}", n, i))).collect()
}
pub fn g2s(n: &str, k: usize) -> Vec<G2> {
    (0..k).map(|i| g2(&format!("{}{}", n, i))).collect()
}
pub fn nonzero<T: Val>(v: T) -> T {
    engine::assume_nonzero(v.nz());
    v
}
pub fn same<T: Val>(a: &T, b: &T, label: &str) {
    engine::assert_zero(a.diff(b), label)
}
pub fn differ<T: Val>(a: &T, b: &T, label: &str) {
    engine::assert_nonzero(a.diff(b), label)
}
pub fn assume_same<T: Val>(a: &T, b: &T) {
    engine::assume_zero(a.diff(b))
}
pub fn assume_differ<T: Val>(a: &T, b: &T) {
    engine::assume_nonzero(a.diff(b))
}
pub fn zero<T: Val>(a: &T, label: &str) {
    engine::assert_zero(a.nz(), label)
}
pub fn truth(b: bool, label: &str) {
    engine::assert_true(b, label)
}
/// decides the branch (forks when both outcomes are possible)
pub fn is_same<T: Val>(a: &T, b: &T) -> bool {
    symcore::is_zero(a.diff(b))
}

/// All subsets of 0..n as bit masks.
pub fn subsets(n: usize) -> Vec<Vec<usize>> {
    (0..1usize << n)
        .map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect())
        .collect()
}
pub fn gmul(a: &GT, b: &GT) -> GT {
    a * b
}
