//! The same harness runs twice: on the symbolic curve layer (deciding) and,
//! with the feature `native`, on the real curve (replaying witnesses).
use amcl_wrapper::field_elem::FieldElement;
use symcore::engine;

#[cfg(not(feature = "native"))]
pub fn fe(n: &str) -> FieldElement {
    FieldElement::from_id(symcore::free(n))
}
#[cfg(feature = "native")]
pub fn fe(n: &str) -> FieldElement {
    let mut b = vec![0u8; 48];
    let v = engine::witness(n).0.to_bytes_be();
    b[48 - v.len()..].copy_from_slice(&v);
    FieldElement::from_bytes(&b).unwrap()
}
#[cfg(not(feature = "native"))]
fn id(x: &FieldElement) -> symcore::Id {
    x.id()
}
#[cfg(feature = "native")]
fn id(x: &FieldElement) -> symcore::Id {
    symcore::int(if x.is_zero() { 0 } else { 1 })
}
/// a nonzero scalar
pub fn some(n: &str) -> FieldElement {
    let x = fe(n);
    engine::assume_nonzero(id(&x));
    x
}
pub fn json<T: serde::Serialize + serde::de::DeserializeOwned>(x: &T) -> T {
    serde_json::from_str(&serde_json::to_string(x).unwrap()).unwrap()
}
/// messages of many lengths, pairwise different
pub fn messages(thorough: bool) -> Vec<Vec<u8>> {
    let mut v = vec![vec![], vec![0], vec![0, 0], vec![1], b"message".to_vec(), b"messagf".to_vec()];
    let lens: &[usize] = if thorough { &[20, 31, 32, 33, 47, 48, 55, 56, 63, 64, 65, 127, 128, 135, 136, 137, 255, 256, 1000, 4097, 65_536, 70_000] } else { &[32, 64, 136, 300, 5000, 70_000] };
    for l in lens {
        let mut m = vec![7u8; *l];
        v.push(m.clone());
        m[*l - 1] ^= 1;
        v.push(m.clone());
        m[*l - 1] ^= 1;
        m[0] ^= 0x80;
        v.push(m);
    }
    v
}
