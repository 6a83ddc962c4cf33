//! N02: the pairing groups and their scalar field.
use crate::val::*;
use symcore::engine::{assert_true, assert_zero, case, concrete, reach, Case};
use symcore::{ints, Id};
use ursa::pair::{GroupOrderElement as Fe, Pair, PointG1, PointG2};

/// x is the residue of e
fn is(x: &Fe, e: Id, label: &str) {
    let b = x.to_bytes().unwrap();
    assert_true(b.len() == Fe::BYTES_REPR_SIZE, "a scalar has the stated length");
    if concrete() {
        let (n, d) = symcore::is_const(e).unwrap();
        let v = symcore::field::Fp::ratio(&n, &d).to_bytes_be();
        let v = &v[v.len().saturating_sub(32)..];
        let mut w = vec![0u8; 32 - v.len()];
        w.extend(v);
        assert_true(b == w, label);
        return;
    }
    let i = fe_id(x);
    let d = symcore::sub(centred(i), e);
    match ints::integer(d) {
        Some(v) => assert_true(v % ints::bn254_order() == 0.into(), label),
        None => assert_zero(d, label),
    }
    let ok = match (ints::integer(i), ints::range(i)) {
        (Some(v), _) => v >= 0.into() && v < ints::bn254_order(),
        (None, Some((lo, hi))) => lo >= 0.into() && hi < ints::bn254_order(),
        _ => false,
    };
    assert_true(ok, &format!("{}: reduced", label));
}
/// (a - b) for the numbers of the field, 1/a
fn number(x: &Fe) -> Id {
    if concrete() {
        let b = x.to_bytes().unwrap();
        return symcore::big_be(&b);
    }
    centred(fe_id(x))
}
fn centred(i: Id) -> Id {
    let r = ints::bn254_order();
    let half = r.clone() / 2;
    match ints::integer(i) {
        Some(v) if v > half => symcore::big(v - r),
        _ => i,
    }
}
fn konst(v: i64) -> Fe {
    let r = ints::bn254_order();
    let v = if v < 0 { r + v } else { v.into() };
    let b = v.to_bytes_be().1;
    let mut w = vec![0u8; 32 - b.len()];
    w.extend(b);
    Fe::from_bytes(&w).unwrap()
}

fn scalars(a: &Fe, b: &Fe) {
    let (i, j) = (number(a), number(b));
    is(&a.add_mod(b).unwrap(), symcore::add(i, j), "sum");
    is(&a.sub_mod(b).unwrap(), symcore::sub(i, j), "difference");
    is(&a.mul_mod(b).unwrap(), symcore::mul(i, j), "product");
    is(&a.mod_neg().unwrap(), symcore::neg(i), "negative");
    assert_true(a.sub_mod(b).unwrap().add_mod(b).unwrap() == *a, "a - b + b is a");
    assert_true(
        a.sub_mod(b).unwrap() == b.sub_mod(a).unwrap().mod_neg().unwrap(),
        "a - b is -(b - a)",
    );
    reach("scalars");
}
fn inverse(a: &Fe) {
    match a.inverse() {
        Ok(v) => {
            assert_true(v.mul_mod(a).unwrap() == konst(1), "a times its inverse is one");
            assert_true(v.inverse().unwrap() == *a, "the inverse of the inverse");
            reach("inverse");
        }
        Err(_) => {
            assert_true(*a == konst(0), "only zero has no inverse");
            reach("no-inverse");
        }
    }
}
fn scalar_coding(a: &Fe) {
    let b = a.to_bytes().unwrap();
    assert_true(Fe::from_bytes(&b).unwrap() == *a, "scalar bytes");
    assert_true(Fe::from_string(&a.to_string().unwrap()).unwrap() == *a, "scalar string");
    let j = serde_json::to_string(a).unwrap();
    assert_true(serde_json::from_str::<Fe>(&j).unwrap() == *a, "scalar JSON");
    reach("scalar coding");
}

macro_rules! laws {
    ($f:ident, $g:ident, $pt:ident, $coding:ident) => {
        fn $f(a: &Fe, b: &Fe) {
            let p = $g("p");
            let inf = $pt::new_inf().unwrap();
            let (x, y) = (p.mul(a).unwrap(), p.mul(b).unwrap());
            let l = stringify!($f);
            assert_true(x.add(&y).unwrap() == p.mul(&a.add_mod(b).unwrap()).unwrap(), &format!("{}: aP + bP is (a+b)P", l));
            assert_true(x.sub(&y).unwrap() == p.mul(&a.sub_mod(b).unwrap()).unwrap(), &format!("{}: aP - bP is (a-b)P", l));
            assert_true(x.neg().unwrap() == p.mul(&a.mod_neg().unwrap()).unwrap(), &format!("{}: -aP is (-a)P", l));
            assert_true(x.mul(b).unwrap() == p.mul(&a.mul_mod(b).unwrap()).unwrap(), &format!("{}: b(aP) is (ab)P", l));
            assert_true(x.add(&y).unwrap() == y.add(&x).unwrap(), &format!("{}: commutative", l));
            assert_true(x.add(&inf).unwrap() == x, &format!("{}: infinity is neutral", l));
            assert_true(x.sub(&x).unwrap() == inf, &format!("{}: P - P is infinity", l));
            assert_true(inf.sub(&x).unwrap() == x.neg().unwrap(), &format!("{}: infinity minus P", l));
            let q = $g("q");
            assert_true(x.add(&q).unwrap().sub(&q).unwrap() == x, &format!("{}: P + Q - Q", l));
            assert_true((x == inf) == (*a == konst(0)), &format!("{}: aP is infinity exactly for a = 0", l));
            assert_true($pt::new().unwrap() != $pt::new().unwrap(), &format!("{}: drawn points differ", l));
            reach(l);
        }
        fn $coding(p: &$pt) {
            let l = stringify!($coding);
            let b = p.to_bytes().unwrap();
            assert_true(b.len() == $pt::BYTES_REPR_SIZE, &format!("{}: length", l));
            assert_true($pt::from_bytes(&b).unwrap() == *p, &format!("{}: bytes", l));
            assert_true($pt::from_string(&p.to_string().unwrap()).unwrap() == *p, &format!("{}: string", l));
            let j = serde_json::to_string(p).unwrap();
            let q: $pt = serde_json::from_str(&j).unwrap();
            assert_true(q == *p, &format!("{}: JSON", l));
            // what was decoded computes like the original
            let k = $g("k");
            assert_true(k.add(&q).unwrap() == k.add(p).unwrap(), &format!("{}: decoded point adds", l));
            for n in [0, 1, 31, 64, 65, 127, 129, 256].iter() {
                let r = $pt::from_bytes(&vec![4u8; *n]);
                assert_true(r.is_err(), &format!("{}: wrong length is refused", l));
            }
            reach(l);
        }
    };
}
laws!(laws1, g1, PointG1, coding1);
laws!(laws2, g2, PointG2, coding2);

fn pairing(a: &Fe, b: &Fe) {
    let (p, q) = (g1("p"), g2("q"));
    let e = Pair::pair(&p, &q).unwrap();
    let (x, y) = (p.mul(a).unwrap(), q.mul(b).unwrap());
    let ab = a.mul_mod(b).unwrap();
    assert_true(Pair::pair(&x, &y).unwrap() == e.pow(&ab).unwrap(), "e(aP, bQ) is e(P, Q)^ab");
    assert_true(Pair::pair(&x, &q).unwrap() == Pair::pair(&p, &q.mul(a).unwrap()).unwrap(), "e(aP, Q) is e(P, aQ)");
    let (r, s) = (g1("r"), g2("s"));
    let f = Pair::pair(&r, &s).unwrap();
    assert_true(Pair::pair2(&x, &y, &r, &s).unwrap() == Pair::pair(&x, &y).unwrap().mul(&f).unwrap(), "pair2 is the product of both pairings");
    assert_true(Pair::pair(&p.add(&r).unwrap(), &q).unwrap() == e.mul(&Pair::pair(&r, &q).unwrap()).unwrap(), "additive on the left");
    assert_true(Pair::pair(&p, &q.add(&s).unwrap()).unwrap() == e.mul(&Pair::pair(&p, &s).unwrap()).unwrap(), "additive on the right");
    assert_true(e.mul(&e.inverse().unwrap()).unwrap().is_unity().unwrap(), "times its inverse is one");
    assert_true(e.pow(a).unwrap().mul(&e.pow(b).unwrap()).unwrap() == e.pow(&a.add_mod(b).unwrap()).unwrap(), "e^a e^b is e^(a+b)");
    assert_true(Pair::pair(&x.neg().unwrap(), &y).unwrap() == Pair::pair(&x, &y).unwrap().inverse().unwrap(), "e(-P, Q) is the inverse");
    let one = Pair::pair(&x, &y).unwrap().is_unity().unwrap();
    assert_true(one == (ab == konst(0)), "e(aP, bQ) is one exactly for ab = 0");
    for z in [e, f, Pair::pair(&x, &y).unwrap()].iter() {
        assert_true(Pair::from_string(&z.to_string().unwrap()).unwrap() == *z, "pairing string");
        let j = serde_json::to_string(z).unwrap();
        assert_true(serde_json::from_str::<Pair>(&j).unwrap() == *z, "pairing JSON");
    }
    assert_true((e.to_bytes().unwrap() == e.pow(&konst(1)).unwrap().to_bytes().unwrap()) && e.to_bytes().unwrap().len() == Pair::BYTES_REPR_SIZE, "pairing bytes");
    reach("pairing");
}

fn seeds() {
    let s: Vec<Vec<u8>> = vec![vec![0; 32], vec![1; 32], (0..32).collect(), { let mut v = vec![0; 32]; v[31] = 1; v }, vec![255; 32]];
    let f: Vec<Fe> = s.iter().map(|s| Fe::new_from_seed(s).unwrap()).collect();
    for i in 0..s.len() {
        assert_true(Fe::new_from_seed(&s[i]).unwrap() == f[i], "a seed determines the scalar");
        for j in 0..i {
            assert_true(f[i] != f[j], "seeds determine different scalars");
        }
    }
    for n in [0usize, 1, 31, 33, 64, 128].iter() {
        assert_true(Fe::new_from_seed(&vec![7; *n]).is_err(), "a seed of another length is refused");
    }
    let h: Vec<PointG1> = s.iter().map(|s| PointG1::from_hash(s).unwrap()).collect();
    for i in 0..s.len() {
        assert_true(PointG1::from_hash(&s[i]).unwrap() == h[i], "a hash determines the point");
        assert_true(!h[i].is_inf().unwrap(), "a hash is no infinity");
    }
    assert_true(Fe::new().unwrap() != Fe::new().unwrap(), "drawn scalars differ");
    let order = ints::bn254_order().to_bytes_be().1;
    assert_true(Fe::order().unwrap() == order, "the order of the group");
    assert_true(PointG1::new_inf().unwrap().is_inf().unwrap() && !PointG1::new().unwrap().is_inf().unwrap(), "infinity");
    for n in 0..33usize {
        let mut b = vec![0u8; n];
        if n > 0 {
            b[n - 1] = 5;
        }
        let v = konst(if n > 0 { 5 } else { 0 });
        assert_true(Fe::from_bytes(&b).unwrap() == v, "short bytes are small numbers");
    }
    // numbers of 256 bits are taken modulo the order, however they are written
    for (m, k) in [(1u32, 0i64), (1, 5), (2, 0), (2, 1), (4, -1), (6, 3)].iter() {
        let v: symcore::BigInt = ints::bn254_order() * *m + *k;
        let a = Fe::from_bytes(&v.to_bytes_be().1).unwrap();
        assert_true(a == konst(*k), "bytes of an unreduced number");
        assert_true(a.to_bytes().unwrap() == konst(*k).to_bytes().unwrap(), "bytes of an unreduced number");
        let b = Fe::from_string(&v.to_str_radix(16)).unwrap();
        assert_true(a == b, "digits of an unreduced number");
    }
    for n in [33usize, 34, 64].iter() {
        assert_true(Fe::from_bytes(&vec![0; *n]).is_err(), "long bytes are refused");
    }
    reach("seeds");
}

fn malformed() {
    let words = ["", " ", "0", "G", "1", "-1", "1 ", "1 0", "1 G", "x 0", "1 \u{e9}1", "1 0 1 0 1", "1 0 1 0 1 0 1", "99999999999 0 1 0 1 0", "1 0 1 0 1 -1", "1.0 0 1 0 1 0", "0x1", "\u{0}", "1 0x1 1 0 1 0"];
    let long = "F".repeat(300);
    let many = vec!["1 G"; 12].join(" ");
    let short = vec!["1 0"; 11].join(" ");
    let mut all: Vec<String> = words.iter().map(|s| s.to_string()).collect();
    all.push(format!("1 {} 1 0 1 0", long));
    all.push(many);
    all.push(short);
    all.push(long);
    for s in &all {
        let j = serde_json::to_string(s).unwrap();
        assert_true(PointG1::from_string(s).is_err(), &format!("G1: {:?} is an error", s));
        assert_true(PointG2::from_string(s).is_err(), &format!("G2: {:?} is an error", s));
        assert_true(Pair::from_string(s).is_err(), &format!("pairing: {:?} is an error", s));
        assert_true(serde_json::from_str::<PointG1>(&j).is_err() && serde_json::from_str::<PointG2>(&j).is_err() && serde_json::from_str::<Pair>(&j).is_err(), "JSON of it is an error");
        let hex = !s.is_empty() && s.len() < 65 && s.chars().all(|c| c.is_ascii_hexdigit());
        if !hex {
            assert_true(Fe::from_string(s).is_err(), &format!("scalar: {:?} is an error", s));
            assert_true(serde_json::from_str::<Fe>(&j).is_err(), "JSON of it is an error");
        }
    }
    for j in ["1", "null", "[]", "{}", "true", "\"", "[1]"].iter() {
        assert_true(serde_json::from_str::<PointG1>(j).is_err() && serde_json::from_str::<PointG2>(j).is_err(), "JSON of another type");
        assert_true(serde_json::from_str::<Fe>(j).is_err() && serde_json::from_str::<Pair>(j).is_err(), "JSON of another type");
    }
    // the largest numbers that fit, and excesses out of range, do not upset anything
    let f = "F".repeat(64);
    for e in ["1", "0", "-1", "2147483647", "-2147483648"].iter() {
        for x in ["0", "1", "5", &f].iter() {
            for y in ["0", "1", "3", &f].iter() {
                for z in ["0", "1", "2"].iter() {
                    let s = format!("{} {} {} {} {} {}", e, x, e, y, e, z);
                    let j = serde_json::to_string(&s).unwrap();
                    let p = serde_json::from_str::<PointG1>(&j);
                    let _ = PointG1::from_string(&s).map(|p| p.add(&PointG1::new().unwrap()));
                    let zero = |s: &str| s.bytes().all(|b| b == b'0');
                    if zero(x) && zero(z) {
                        // what the library takes for infinity is neutral once decoded
                        let g = PointG1::new().unwrap();
                        assert_true(p.is_err() || g.add(&p.unwrap()).unwrap() == g, "a decoded infinity is neutral");
                    } else {
                        assert_true(p.is_err(), &format!("{} is not on the curve", s));
                    }
                    let s2 = format!("{} {} {} {} {} {} {} {} {} {} {} {}", e, x, e, y, e, y, e, x, e, z, e, z);
                    let j = serde_json::to_string(&s2).unwrap();
                    let p = serde_json::from_str::<PointG2>(&j);
                    if zero(x) && zero(y) && zero(z) {
                        let g = PointG2::new().unwrap();
                        assert_true(p.is_err() || g.add(&p.unwrap()).unwrap() == g, "a decoded infinity is neutral");
                    } else if symbolic() || p.is_ok() {
                        assert_true(p.is_err(), &format!("{} is not on the curve", s2));
                    }
                }
            }
        }
    }
    reach("malformed");
}

pub fn n02(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    let edge: Vec<i64> = if thorough { vec![0, 1, 2, 3, 5, 255, 256, 65537, i64::max_value(), -1, -2, -3, -256] } else { vec![0, 1, 2, -1, -2] };
    let ks = |e: i64| konst(e);
    v.push(case("scalars", || scalars(&fe("a"), &fe("b"))));
    v.push(case("scalars one", || { let a = fe("a"); scalars(&a, &a) }));
    for e in edge.clone() {
        v.push(case(format!("scalars {} left", e), move || scalars(&ks(e), &fe("b"))));
        v.push(case(format!("scalars {} right", e), move || scalars(&fe("a"), &ks(e))));
        for f in edge.clone() {
            v.push(case(format!("scalars {} {}", e, f), move || scalars(&ks(e), &ks(f))));
        }
        v.push(case(format!("inverse {}", e), move || inverse(&ks(e))));
        v.push(case(format!("scalar coding {}", e), move || scalar_coding(&ks(e))));
        v.push(case(format!("group 1 by {}", e), move || laws1(&fe("a"), &ks(e))));
        v.push(case(format!("group 1 from {}", e), move || laws1(&ks(e), &fe("a"))));
        v.push(case(format!("group 2 by {}", e), move || laws2(&fe("a"), &ks(e))));
        v.push(case(format!("group 2 from {}", e), move || laws2(&ks(e), &fe("a"))));
        v.push(case(format!("pairing {} left", e), move || pairing(&ks(e), &fe("b"))));
        v.push(case(format!("pairing {} right", e), move || pairing(&fe("a"), &ks(e))));
        v.push(case(format!("codings {}", e), move || {
            coding1(&g1("p").mul(&ks(e)).unwrap());
            coding2(&g2("p").mul(&ks(e)).unwrap());
        }));
    }
    v.push(case("inverse", || inverse(&fe("a"))));
    v.push(case("scalar coding", || scalar_coding(&fe("a"))));
    v.push(case("scalar coding difference", || scalar_coding(&fe("a").sub_mod(&fe("b")).unwrap())));
    for n in 0..if thorough { 20i64 } else { 6 } {
        v.push(case(format!("power {}", n), move || {
            let a = fe("a");
            let r = a.pow_mod(&konst(n)).unwrap();
            is(&r, symcore::pow(number(&a), n as u64), "power");
            reach("power");
        }));
    }
    v.push(case("group 1", || laws1(&fe("a"), &fe("b"))));
    v.push(case("group 2", || laws2(&fe("a"), &fe("b"))));
    v.push(case("pairing", || pairing(&fe("a"), &fe("b"))));
    v.push(case("codings", || {
        let (a, p, q) = (fe("a"), g1("p"), g2("q"));
        coding1(&p.mul(&a).unwrap());
        coding2(&q.mul(&a).unwrap());
        coding1(&p.sub(&g1("r")).unwrap().neg().unwrap());
        coding2(&q.sub(&g2("s")).unwrap().neg().unwrap());
    }));
    v.push(case("codings of infinity", || {
        coding1(&PointG1::new_inf().unwrap());
        coding2(&PointG2::new_inf().unwrap());
    }));
    v.push(case("seeds", seeds));
    v.push(case("malformed", malformed));
    v
}
