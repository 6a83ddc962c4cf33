//! Integers used as exponents, and residues of a group of unknown order.
//!
//! A symbolic integer is an expression id plus what is known about its range; a
//! residue modulo N is its discrete logarithm.  Both have decimal encodings, so
//! they travel through serialised structures.
use crate::engine::{choose, concrete};
use crate::{from_tag, is_const, to_tag, Id};
use num_bigint::{BigInt, Sign};
use num_traits::{One, Signed, Zero};
use std::collections::HashMap;
use std::sync::Mutex;

pub const TY_INT: u8 = 0x21;
pub const TY_RES: u8 = 0x22;
pub const TY_RAW: u8 = 0x23;

/// fixed safe primes used as the issuer's factors
pub const P: &str = "338990246337724825832821697558259011021906226037591787812502973519256540059308247880694607956172224206136572074347536414238438807340326174289825552345497111436893419668984489066641670958226985628666172404488530541952439886936311786805133402051830242282278155825226676797346751071940884527148790366667227343799";
pub const Q: &str = "272765828471637815182541608602386172007591876779537374732908065969829774327399028790918369278525924165443596127767353495573778485581879693106448499629851871593103156348512132333906671612181276612932369983592476253416647680442727597126373187302647813594695957363801248218574601880216786465049083157339324532099";
pub fn dec(s: &str) -> BigInt {
    BigInt::parse_bytes(s.as_bytes(), 10).unwrap()
}
pub fn modulus_n() -> BigInt {
    dec(P) * dec(Q)
}
/// order of the group of squares modulo N
pub fn qr_order() -> BigInt {
    (dec(P) / 2) * (dec(Q) / 2)
}
pub fn bn254_order() -> BigInt {
    BigInt::parse_bytes(
        b"2523648240000001BA344D8000000007FF9F800000000010A10000000000000D",
        16,
    )
    .unwrap()
}

#[derive(Default)]
struct Store {
    range: HashMap<Id, (BigInt, BigInt)>,
    sign: HashMap<Id, bool>,
    bits: HashMap<Id, i32>,
    composite: std::collections::HashSet<Id>,
    fork_signs: bool,
}
static STORE: Mutex<Option<Store>> = Mutex::new(None);
fn with<T>(f: impl FnOnce(&mut Store) -> T) -> T {
    let mut g = STORE.lock().unwrap();
    f(g.get_or_insert_with(Default::default))
}

pub fn integer(id: Id) -> Option<BigInt> {
    match is_const(id) {
        Some((a, b)) if b.is_one() => Some(a),
        _ => None,
    }
}
pub fn range(id: Id) -> Option<(BigInt, BigInt)> {
    if let Some(v) = integer(id) {
        return Some((v.clone(), v));
    }
    with(|s| s.range.get(&id).cloned())
}
/// lo <= id <= hi
pub fn set_range(id: Id, lo: BigInt, hi: BigInt) {
    if integer(id).is_some() {
        return;
    }
    with(|s| {
        let e = s.range.entry(id).or_insert_with(|| (lo.clone(), hi.clone()));
        if lo > e.0 {
            e.0 = lo;
        }
        if hi < e.1 {
            e.1 = hi;
        }
    })
}
/// Forget what is known about the range of a value.
pub fn forget_range(id: Id) {
    with(|s| {
        s.range.remove(&id);
    })
}
pub fn pow2(n: u32) -> BigInt {
    BigInt::one() << n
}
pub fn set_bits(id: Id, bits: i32) {
    with(|s| {
        s.bits.insert(id, bits);
    })
}
pub fn fork_signs(b: bool) {
    with(|s| s.fork_signs = b)
}
pub fn set_composite(id: Id) {
    with(|s| {
        s.composite.insert(id);
    })
}
pub fn is_composite(id: Id) -> bool {
    with(|s| s.composite.contains(&id))
}

/// number of bits of |id|: the largest possible for a value of known range;
/// both possibilities are explored for a value about which nothing is known
pub fn num_bits(id: Id) -> i32 {
    if let Some(b) = with(|s| s.bits.get(&id).cloned()) {
        return b;
    }
    if let Some((lo, hi)) = range(id) {
        return lo.abs().max(hi.abs()).bits() as i32;
    }
    let b = if choose("size of an unconstrained integer", 2) == 0 { 1 } else { 100_000 };
    set_bits(id, b);
    set_bits(crate::neg(id), b);
    b
}
/// a small number that the expression is under the path condition, if any
pub fn small(id: Id) -> Option<BigInt> {
    let v = BigInt::from(crate::lock().shadow[id as usize].0.clone());
    let q = BigInt::from(crate::field::modulus());
    let v = if v > &q / 2 { v - q } else { v };
    if v.bits() <= 70 && crate::engine::identical(id, crate::big(v.clone())) {
        Some(v)
    } else {
        None
    }
}
/// an expression equal to this one modulo m, with constants of at most m/2
pub fn modulo(id: Id, m: &BigInt) -> Id {
    let mut st = crate::lock();
    let mut map = HashMap::new();
    let mut seen = std::collections::HashSet::new();
    let mut todo = vec![id];
    while let Some(x) = todo.pop() {
        if !seen.insert(x) {
            continue;
        }
        todo.extend(st.deps(x));
        if let Some((v, d)) = st.as_const(x) {
            let r = ((&v % m) + m) % m;
            let r = if &r * 2 > *m { r - m } else { r };
            if !d.is_one() {
                continue;
            }
            if let Some((n, d)) = fraction(&r, m) {
                let c = st.cst(n, d);
                map.insert(x, c);
            } else if r != v {
                let c = st.cst(r, BigInt::one());
                map.insert(x, c);
            }
        }
    }
    if map.is_empty() {
        return id;
    }
    st.substitute(id, &map)
}
/// the fraction of small numbers that a large constant is modulo m, if any: such a
/// constant comes from a division, and expressions are compared over the rationals
fn fraction(v: &BigInt, m: &BigInt) -> Option<(BigInt, BigInt)> {
    let lim = pow2(80);
    if v.bits() < m.bits() / 2 || m.bits() < 240 {
        return None;
    }
    let (mut r0, mut r1) = (m.clone(), ((v % m) + m) % m);
    let (mut t0, mut t1) = (BigInt::zero(), BigInt::one());
    while r1 >= lim {
        let k = &r0 / &r1;
        let r = &r0 - &k * &r1;
        r0 = r1;
        r1 = r;
        let t = &t0 - &k * &t1;
        t0 = t1;
        t1 = t;
    }
    if r1.is_zero() || t1.abs() >= lim {
        return None;
    }
    Some((r1, t1))
}
/// the residue modulo m of a constant
pub fn residue(id: Id, m: &BigInt) -> Option<BigInt> {
    let (n, d) = is_const(id)?;
    let (mut r0, mut r1) = (m.clone(), ((d % m) + m) % m);
    let (mut t0, mut t1) = (BigInt::zero(), BigInt::one());
    while !r1.is_zero() {
        let k = &r0 / &r1;
        let r = &r0 - &k * &r1;
        r0 = r1;
        r1 = r;
        let t = &t0 - &k * &t1;
        t0 = t1;
        t1 = t;
    }
    if !r0.is_one() {
        return None;
    }
    let r = n * t0 % m;
    Some(if r.is_negative() { r + m } else { r })
}
pub fn negative(id: Id) -> bool {
    if let Some((lo, hi)) = range(id) {
        if !lo.is_negative() {
            return false;
        }
        if hi.is_negative() {
            return true;
        }
    }
    if !concrete() {
        if let Some(v) = small(id) {
            return v.is_negative();
        }
    }
    if let Some(b) = with(|s| s.sign.get(&id).cloned()) {
        return b;
    }
    if !with(|s| s.fork_signs) {
        return false;
    }
    let b = choose("sign of an integer", 2) == 1;
    let n = crate::neg(id);
    with(|s| {
        s.sign.insert(id, b);
        s.sign.insert(n, !b);
    });
    b
}
pub fn combine(id: Id, r: Option<(BigInt, BigInt)>) -> Id {
    if let Some((lo, hi)) = r {
        set_range(id, lo, hi);
    }
    id
}
pub fn add(a: Id, b: Id) -> Id {
    let r = range(a).and_then(|x| range(b).map(|y| (x.0 + y.0, x.1 + y.1)));
    combine(crate::add(a, b), r)
}
pub fn neg(a: Id) -> Id {
    let r = range(a).map(|x| (-x.1, -x.0));
    combine(crate::neg(a), r)
}
pub fn sub(a: Id, b: Id) -> Id {
    add(a, neg(b))
}
pub fn mul(a: Id, b: Id) -> Id {
    let r = range(a).and_then(|x| {
        range(b).map(|y| {
            let c = [&x.0 * &y.0, &x.0 * &y.1, &x.1 * &y.0, &x.1 * &y.1];
            (c.iter().min().unwrap().clone(), c.iter().max().unwrap().clone())
        })
    });
    combine(crate::mul(a, b), r)
}

/// big-endian bytes of |id|
pub fn int_bytes(id: Id) -> Vec<u8> {
    if let Some(v) = integer(id) {
        if v.is_zero() {
            return vec![];
        }
        return v.to_bytes_be().1;
    }
    let id = if negative(id) { neg(id) } else { id };
    let small = range(id).map(|r| r.1 < pow2(256)).unwrap_or(false);
    to_tag(id, TY_INT, 0x41, if small { 32 } else { 96 })
}
pub fn res_bytes(id: Id, reduced: bool) -> Vec<u8> {
    to_tag(id, if reduced { TY_RES } else { TY_RAW }, 0x41, 256)
}
pub enum Parsed {
    Int(Id),
    Res(Id, bool),
}
pub fn parse_bytes(b: &[u8]) -> Parsed {
    if let Some(i) = from_tag(b, TY_INT) {
        return Parsed::Int(i);
    }
    if let Some(i) = from_tag(b, TY_RES) {
        return Parsed::Res(i, true);
    }
    if let Some(i) = from_tag(b, TY_RAW) {
        return Parsed::Res(i, false);
    }
    Parsed::Int(crate::big_be(b))
}
pub fn bytes_dec(b: &[u8]) -> String {
    BigInt::from_bytes_be(Sign::Plus, b).to_string()
}
/// decimal encoding of an integer; in a replay the number itself
pub fn int_dec(id: Id) -> String {
    if let Some(v) = integer(id) {
        return v.to_string();
    }
    if concrete() {
        // a rational constant: its value modulo the order
        let (a, b) = is_const(id).unwrap();
        return BigInt::from(crate::field::Fp::ratio(&a, &b).0).to_string();
    }
    if negative(id) {
        format!("-{}", bytes_dec(&int_bytes(id)))
    } else {
        bytes_dec(&int_bytes(id))
    }
}
pub fn res_dec(id: Id) -> String {
    bytes_dec(&res_bytes(id, true))
}
pub fn parse_dec(s: &str) -> Option<Parsed> {
    let v = BigInt::parse_bytes(s.as_bytes(), 10)?;
    Some(match parse_bytes(&v.to_bytes_be().1) {
        Parsed::Int(i) if v.is_negative() => Parsed::Int(neg(i)),
        x => x,
    })
}
