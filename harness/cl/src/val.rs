//! Numbers in both worlds: symbolic (deciding) and native (replaying).
use symcore::{engine, ints, Id};
use ursa::bn::BigNumber;

pub fn dec(s: &str) -> BigNumber {
    BigNumber::from_dec(s).unwrap()
}
pub fn small(v: i64) -> BigNumber {
    let b = dec(&v.abs().to_string());
    if v < 0 {
        b.set_negative(true).unwrap()
    } else {
        b
    }
}
fn of(id: Id) -> BigNumber {
    dec(&ints::int_dec(id))
}
pub fn symbolic() -> bool {
    !engine::concrete()
}
/// any integer with 0 <= x < 2^bits
pub fn int(name: &str, bits: u32) -> BigNumber {
    let id = symcore::free(name);
    let lim = ints::pow2(bits);
    if engine::concrete() {
        let v = ints::integer(id).unwrap();
        return of(symcore::big(v % lim));
    }
    ints::set_range(id, symcore::BigInt::from(0), lim - 1);
    of(id)
}
/// the integer of this name, 0 <= x < 2^bits
pub fn the(name: &str, bits: u32) -> BigNumber {
    let id = symcore::the(name);
    let lim = ints::pow2(bits);
    if engine::concrete() {
        let v = ints::integer(id).unwrap();
        return of(symcore::big(v % lim));
    }
    ints::set_range(id, symcore::BigInt::from(0), lim - 1);
    of(id)
}
/// an integer about which nothing is known
pub fn any(name: &str) -> BigNumber {
    of(symcore::free(name))
}
/// what a number means: an integer, or the discrete logarithm of a residue
pub fn id(b: &BigNumber) -> Id {
    match ints::parse_dec(&b.to_dec().unwrap()) {
        Some(ints::Parsed::Int(i)) | Some(ints::Parsed::Res(i, _)) => i,
        None => panic!("not a number"),
    }
}
pub fn add(a: &BigNumber, b: &BigNumber) -> BigNumber {
    a.add(b).unwrap()
}
pub fn sub(a: &BigNumber, b: &BigNumber) -> BigNumber {
    a.sub(b).unwrap()
}
pub fn mul(a: &BigNumber, b: &BigNumber) -> BigNumber {
    a.mul(b, None).unwrap()
}
pub fn sdec(b: &BigNumber) -> serde_json::Value {
    serde_json::Value::String(b.to_dec().unwrap())
}
use ursa::pair::{GroupOrderElement, PointG1, PointG2};
/// any element of the scalar field of the pairing groups
pub fn fe(name: &str) -> GroupOrderElement {
    let r = ints::bn254_order();
    let mut i = symcore::free(name);
    if engine::concrete() {
        let v = ints::integer(i).unwrap() % &r;
        i = symcore::big(v);
    } else {
        ints::set_range(i, symcore::BigInt::from(0), r - 1);
    }
    let b = ints::int_bytes(i);
    let mut out = vec![0u8; 32 - b.len()];
    out.extend(b);
    GroupOrderElement::from_bytes(&out).unwrap()
}
pub fn fe_id(x: &GroupOrderElement) -> Id {
    match ints::parse_bytes(&x.to_bytes().unwrap()) {
        ints::Parsed::Int(i) => i,
        _ => panic!("not a field element"),
    }
}
fn nonzero(name: &str) -> GroupOrderElement {
    let k = fe(name);
    engine::assume_nonzero(fe_id(&k));
    k
}
pub fn g1(name: &str) -> PointG1 {
    PointG1::new().unwrap().mul(&nonzero(name)).unwrap()
}
pub fn g2(name: &str) -> PointG2 {
    PointG2::new().unwrap().mul(&nonzero(name)).unwrap()
}
/// one of n possibilities, all of which are explored
pub fn pick(what: &str, n: usize) -> usize {
    engine::choose(what, n as u32) as usize
}
