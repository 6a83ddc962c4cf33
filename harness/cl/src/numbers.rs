//! N01: big integers and residues of the arithmetic layer.
use crate::val::*;
use std::cmp::Ordering;
use symcore::engine::{assert_true, assert_zero, case, concrete, reach, Case};
use symcore::num_traits::{Signed, Zero};
use symcore::{ints, BigInt, Id};
use ursa::bn::BigNumber;

type Bn = BigNumber;

/// the number is the integer e
fn is(x: &Bn, e: Id, label: &str) {
    if concrete() {
        let (a, q) = (x.to_dec().unwrap(), ints::qr_order());
        let b = ints::dec(&ints::int_dec(e));
        let b = if b > &q / 2 { b - q } else { b }.to_string();
        assert_true(a == b, &format!("{}: {} is not {}", label, a, b));
        return;
    }
    let d = symcore::sub(id(x), e);
    match ints::integer(d) {
        Some(v) => assert_true(v.is_zero(), label),
        None => assert_zero(d, label),
    }
    let ok = match (ints::range(id(x)), ints::range(e)) {
        (Some(a), Some(b)) => a.0 >= b.0 && a.1 <= b.1,
        _ => true,
    };
    assert_true(ok, &format!("{}: sign", label));
}
fn num(b: &Bn) -> Id {
    id(b)
}
/// "+3", "-", "17": a symbolic number of either sign, or a constant
fn make(name: &str, kind: &str) -> Bn {
    let pos = |bits| {
        let x = int(name, bits);
        if concrete() {
            return x.add(&dec("1")).unwrap();
        }
        ints::set_range(id(&x), BigInt::from(1), ints::pow2(bits) - 1);
        x
    };
    match kind {
        "+" => pos(300),
        "-" => pos(300).set_negative(true).unwrap(),
        "+word" => pos(31),
        k => dec(k),
    }
}
fn neg(x: &Bn) -> bool {
    if concrete() {
        return x.to_dec().unwrap().starts_with('-');
    }
    // what the sign of a constant or of a number of known range is
    let (lo, hi) = ints::range(id(x)).unwrap();
    assert!(!lo.is_negative() || hi.is_negative());
    lo.is_negative()
}

fn unary(x: &Bn) {
    let i = num(x);
    let one = symcore::int(1);
    is(x, i, "itself");
    is(&x.increment().unwrap(), ints::add(i, one), "increment adds one");
    is(&x.decrement().unwrap(), ints::sub(i, one), "decrement takes one away");
    is(&x.try_clone().unwrap(), i, "clone");
    assert_true(x.is_negative() == neg(x), "sign");
    let abs = if neg(x) { ints::neg(i) } else { i };
    is(&x.set_negative(false).unwrap(), abs, "absolute value");
    is(&x.set_negative(true).unwrap(), ints::neg(abs), "negative of the absolute value");
    is(&x.sqr(None).unwrap(), ints::mul(i, i), "square");
    is(&x.sqr(Some(&mut Bn::new_context().unwrap())).unwrap(), ints::mul(i, i), "square");
    is(&x.lshift1().unwrap(), ints::mul(i, symcore::int(2)), "shift left");
    for w in [0u32, 1, 2, u32::max_value()].iter() {
        let k = symcore::int(*w as i64);
        let mut y = x.try_clone().unwrap();
        is(y.add_word(*w).unwrap(), ints::add(i, k), "add word");
        let mut y = x.try_clone().unwrap();
        is(y.sub_word(*w).unwrap(), ints::sub(i, k), "subtract word");
        let mut y = x.try_clone().unwrap();
        is(y.mul_word(*w).unwrap(), ints::mul(i, k), "multiply by word");
    }
    // encodings
    is(&Bn::from_dec(&x.to_dec().unwrap()).unwrap(), i, "decimal");
    is(&Bn::from_hex(&x.to_hex().unwrap()).unwrap(), i, "hexadecimal");
    is(&Bn::from_bytes(&x.to_bytes().unwrap()).unwrap(), abs, "bytes of the absolute value");
    let j = serde_json::to_string(x).unwrap();
    is(&serde_json::from_str(&j).unwrap(), i, "JSON");
    is(&serde_json::from_value(serde_json::to_value(x).unwrap()).unwrap(), i, "JSON value");
    assert_true(x.to_dec().unwrap().starts_with('-') == neg(x), "sign of the decimal");
    reach("unary");
}
fn binary(x: &Bn, y: &Bn) {
    let (i, j) = (num(x), num(y));
    is(&x.add(y).unwrap(), ints::add(i, j), "sum");
    is(&x.sub(y).unwrap(), ints::sub(i, j), "difference");
    is(&y.sub(x).unwrap(), ints::sub(j, i), "difference");
    is(&x.mul(y, None).unwrap(), ints::mul(i, j), "product");
    is(&x.mul(y, Some(&mut Bn::new_context().unwrap())).unwrap(), ints::mul(i, j), "product");
    reach("binary");
}
fn order(x: &Bn, y: &Bn) {
    let o = x.cmp(y);
    let d = x.sub(y).unwrap();
    let zero = dec("0");
    assert_true(y.cmp(x) == o.reverse(), "order is antisymmetric");
    assert_true(x.partial_cmp(y) == Some(o), "partial order");
    assert_true((x == y) == (o == Ordering::Equal), "equality is the order's");
    assert_true(d.is_negative() == (o == Ordering::Less), "the difference has the sign of the order");
    assert_true((d == zero) == (o == Ordering::Equal), "the difference is zero for equal numbers");
    assert_true((x < y) == (o == Ordering::Less) && (x > y) == (o == Ordering::Greater), "comparisons");
    assert_true(x.cmp(x) == Ordering::Equal && x == x, "reflexive");
    assert_true(*x == x.try_clone().unwrap(), "a clone is equal");
    assert_true(x.increment().unwrap() > *x && x.decrement().unwrap() < *x, "neighbours");
    reach("order");
}

fn modulus(k: &str) -> BigInt {
    match k {
        "n" => ints::modulus_n(),
        "q" => ints::qr_order(),
        v => ints::dec(v),
    }
}
fn bn(v: &BigInt) -> Bn {
    dec(&v.to_string())
}
fn ctx() -> ursa::bn::BigNumberContext {
    Bn::new_context().unwrap()
}
/// residues: exponents of either sign
fn powers(e: &Bn, f: &Bn) {
    let n = bn(&ints::modulus_n());
    let (g, h) = (Bn::random_qr(&n).unwrap(), Bn::random_qr(&n).unwrap());
    let one = dec("1");
    let p = |b: &Bn, x: &Bn| b.mod_exp(x, &n, None).unwrap();
    let m = |a: &Bn, b: &Bn| a.mod_mul(b, &n, None).unwrap();
    let ge = p(&g, e);
    assert_true(ge == g.mod_exp(e, &n, Some(&mut ctx())).unwrap(), "with and without context");
    if !concrete() {
        assert_zero(symcore::sub(id(&ge), symcore::mul(id(&g), id(e))), "power");
    }
    assert_true(p(&g, &e.add(f).unwrap()) == m(&ge, &p(&g, f)), "g^(e+f) is g^e g^f");
    assert_true(p(&ge, f) == p(&g, &e.mul(f, None).unwrap()), "(g^e)^f is g^(ef)");
    assert_true(p(&m(&g, &h), e) == m(&ge, &p(&h, e)), "(gh)^e is g^e h^e");
    let minus = dec("0").sub(e).unwrap();
    assert_true(m(&ge, &p(&g, &minus)) == one, "g^e g^-e is one");
    assert_true(ge.inverse(&n, None).unwrap() == p(&g, &minus), "the inverse of g^e is g^-e");
    assert_true(ge.inverse(&n, Some(&mut ctx())).unwrap() == p(&g, &minus), "inverse with context");
    assert_true(p(&g, &dec("0")) == one && p(&g, &one) == g, "powers zero and one");
    assert_true(p(&one, e) == one, "power of one");
    reach("powers");
}
fn residues() {
    let n = bn(&ints::modulus_n());
    let (g, h) = (Bn::random_qr(&n).unwrap(), Bn::random_qr(&n).unwrap());
    let m = |a: &Bn, b: &Bn| a.mod_mul(b, &n, None).unwrap();
    let gh = m(&g, &h);
    assert_true(gh == m(&h, &g), "commutative");
    assert_true(gh == g.mod_mul(&h, &n, Some(&mut ctx())).unwrap(), "product with context");
    assert_true(gh == g.mul(&h, None).unwrap().modulus(&n, None).unwrap(), "product, reduced");
    assert_true(gh == g.mul(&h, None).unwrap().modulus(&n, Some(&mut ctx())).unwrap(), "product, reduced");
    assert_true(m(&gh.mod_div(&h, &n, None).unwrap(), &h) == gh, "quotient times divisor");
    assert_true(gh.mod_div(&h, &n, None).unwrap() == g, "quotient");
    assert_true(gh.mod_div(&h, &n, Some(&mut ctx())).unwrap() == g, "quotient");
    assert_true(g.sqr(None).unwrap().modulus(&n, None).unwrap() == m(&g, &g), "square");
    assert_true(g.inverse(&n, None).unwrap().inverse(&n, None).unwrap() == g, "inverse of the inverse");
    assert_true(g != h, "drawn residues differ");
    // encodings
    for x in [&g, &gh, &g.inverse(&n, None).unwrap()].iter() {
        assert_true(Bn::from_dec(&x.to_dec().unwrap()).unwrap() == **x, "decimal of a residue");
        assert_true(Bn::from_hex(&x.to_hex().unwrap()).unwrap() == **x, "hexadecimal of a residue");
        assert_true(Bn::from_bytes(&x.to_bytes().unwrap()).unwrap() == **x, "bytes of a residue");
        let j = serde_json::to_string(x).unwrap();
        assert_true(serde_json::from_str::<Bn>(&j).unwrap() == **x, "JSON of a residue");
        assert_true(x.try_clone().unwrap() == **x, "clone of a residue");
        assert_true(!x.is_negative(), "residues are not negative");
    }
    reach("residues");
}
/// arithmetic modulo a prime
fn modular(x: &Bn, y: &Bn, invert: bool) {
    let qv = ints::qr_order();
    let q = bn(&qv);
    let (a, b) = (x.modulus(&q, None).unwrap(), y.modulus(&q, Some(&mut ctx())).unwrap());
    let chk = |v: &Bn, label: &str| {
        let i = id(v);
        let ok = match ints::range(i) {
            Some((lo, hi)) => !lo.is_negative() && hi < qv,
            None => false,
        };
        assert_true(ok, &format!("{}: reduced", label));
    };
    chk(&a, "residue");
    chk(&b, "residue");
    let (s, p) = (a.mod_sub(&b, &q, None).unwrap(), a.mod_mul(&b, &q, None).unwrap());
    chk(&s, "difference");
    chk(&p, "product");
    assert_true(s.add(&b).unwrap().modulus(&q, None).unwrap() == a, "a - b + b is a");
    assert_true(a.mod_sub(&b, &q, Some(&mut ctx())).unwrap() == s, "with context");
    if concrete() {
        assert_true(x.sub(y).unwrap().modulus(&q, None).unwrap() == s, "the difference, reduced");
        assert_true(x.mul(y, None).unwrap().modulus(&q, None).unwrap() == p, "the product, reduced");
    }
    reach("modular");
    if !invert {
        return;
    }
    match b.inverse(&q, None) {
        Ok(i) => {
            assert_true(i.mod_mul(&b, &q, None).unwrap() == dec("1"), "b times its inverse");
            let d = a.mod_div(&b, &q, None).unwrap();
            assert_true(d == a.mod_mul(&i, &q, None).unwrap(), "quotient");
            assert_true(d.mod_mul(&b, &q, None).unwrap() == a, "quotient times divisor");
            reach("quotient");
        }
        Err(_) => {
            assert_true(b == dec("0"), "only zero has no inverse");
            assert_true(a.mod_div(&b, &q, None).is_err(), "dividing by zero is an error");
            reach("no-inverse");
        }
    }
}
/// functions of constants, against another implementation
fn constants(xs: &[&str]) {
    let mut c = ctx();
    for a in xs.iter() {
        let (x, v) = (dec(a), ints::dec(a));
        let abs = v.abs();
        assert_true(x.num_bits().unwrap() as u64 == abs.bits() as u64, "size in bits");
        for k in [0usize, 1, 7, 31, 32, 63, 64, 200].iter() {
            let bit: BigInt = (&abs >> *k) % 2i32;
            assert_true(x.is_bit_set(*k as i32).unwrap() == !bit.is_zero(), "bit");
            let sh: BigInt = &abs >> *k;
            let sh = if v.is_negative() { -sh } else { sh };
            is(&x.rshift(*k as u32).unwrap(), symcore::big(sh.clone()), "shift right");
            if *k == 1 {
                is(&x.rshift1().unwrap(), symcore::big(sh), "shift right by one");
            }
            if !v.is_negative() {
                let mut y = x.try_clone().unwrap();
                let e = if bit.is_zero() { v.clone() + (BigInt::from(1) << *k) } else { v.clone() };
                is(y.set_bit(*k as i32).unwrap(), symcore::big(e), "bit set");
            }
        }
        for w in [1u32, 2, 10, u32::max_value()].iter() {
            let mut y = x.try_clone().unwrap();
            is(y.div_word(*w).unwrap(), symcore::big(&v / BigInt::from(*w)), "division by a word");
        }
        for b in xs.iter() {
            let (y, w) = (dec(b), ints::dec(b));
            if w.is_zero() {
                assert_true(x.div(&y, None).is_err() && x.div(&y, Some(&mut c)).is_err(), "division by zero is an error");
                assert_true(x.modulus(&y, None).is_err() && x.modulus(&y, Some(&mut c)).is_err(), "modulo zero is an error");
            } else {
                is(&x.div(&y, None).unwrap(), symcore::big(&v / &w), "quotient");
                is(&x.div(&y, Some(&mut c)).unwrap(), symcore::big(&v / &w), "quotient");
                let r = &v % &w;
                let r = if r.is_negative() { r + w.abs() } else { r };
                is(&x.modulus(&y, None).unwrap(), symcore::big(r), "remainder");
            }
            let (mut s, mut t) = (v.abs(), w.abs());
            while !t.is_zero() {
                let u = &s % &t;
                s = t;
                t = u;
            }
            is(&Bn::gcd(&x, &y, None).unwrap(), symcore::big(s.clone()), "greatest common divisor");
            is(&Bn::gcd(&x, &y, Some(&mut c)).unwrap(), symcore::big(s.clone()), "greatest common divisor");
            if w > BigInt::from(1) {
                match x.inverse(&y, None) {
                    Ok(i) => {
                        assert_true(s == BigInt::from(1), "numbers with a common divisor have no inverse");
                        is(&i.mul(&x, None).unwrap().modulus(&y, None).unwrap(), symcore::int(1), "inverse");
                    }
                    Err(_) => assert_true(s != BigInt::from(1), "coprime numbers have an inverse"),
                }
                for e in [-3i64, -1, 0, 1, 2, 17].iter() {
                    let p = x.mod_exp(&small(*e), &y, None);
                    if *e < 0 && s != BigInt::from(1) {
                        assert_true(p.is_err(), "no power with a negative exponent");
                        continue;
                    }
                    let mut r = BigInt::from(1);
                    for _ in 0..e.abs() {
                        r = r * &v % &w;
                    }
                    let r = if r.is_negative() { r + &w } else { r };
                    let p = p.unwrap();
                    if *e >= 0 {
                        is(&p, symcore::big(r), "power");
                    } else {
                        is(&p.mul(&bn(&r), None).unwrap().modulus(&y, None).unwrap(), symcore::int(1), "power with a negative exponent");
                    }
                }
            }
        }
        for e in 0..6 {
            let mut r = BigInt::from(1);
            for _ in 0..e {
                r = r * &v;
            }
            is(&x.exp(&small(e), None).unwrap(), symcore::big(r.clone()), "power of integers");
            is(&x.exp(&small(e), Some(&mut c)).unwrap(), symcore::big(r), "power of integers");
        }
    }
    reach("constants");
}
fn words() {
    let mut v: Vec<usize> = vec![0, 1, 255, 256, 65535, 1 << 31, u32::max_value() as usize];
    v.extend(&[1usize << 32, (1 << 32) + 5, usize::max_value()]);
    for w in v {
        is(&Bn::from_u32(w).unwrap(), symcore::big(BigInt::from(w)), "the number of a machine word");
    }
    assert_true(Bn::default() == dec("0") && Bn::new().unwrap() == dec("0"), "the default is zero");
    reach("words");
}
fn drawn() {
    let zero = dec("0");
    for bits in [1usize, 8, 64, 80, 128, 256, 2128].iter() {
        let lim = bn(&ints::pow2(*bits as u32));
        let (a, b) = (Bn::rand(*bits).unwrap(), Bn::rand(*bits).unwrap());
        assert_true(a >= zero && a < lim, "drawn numbers have the stated size");
        if *bits >= 64 {
            assert_true(a != b, "drawn numbers differ");
        }
        let x = lim.rand_range().unwrap();
        let y = lim.rand_range().unwrap();
        assert_true(x >= zero && x < lim, "numbers drawn below a bound");
        if *bits >= 64 {
            assert_true(x != y, "numbers drawn below a bound differ");
        }
    }
    assert_true(zero.rand_range().is_err(), "no number is below zero");
    for (lo, hi) in [("100", "120"), ("1000000", "2000000"), ("0", "1000"), ("340282366920938463463374607431768211456", "340282366920938463463374607431768311456")].iter() {
        let (lo, hi) = (dec(lo), dec(hi));
        let p = Bn::generate_prime_in_range(&lo, &hi).unwrap();
        assert_true(p >= lo && p < hi, "primes lie in the range");
        assert_true(p.is_prime(None).unwrap(), "primes are prime");
    }
    assert_true(Bn::generate_prime_in_range(&dec("20"), &dec("20")).is_err(), "an empty range is an error");
    assert_true(Bn::generate_prime_in_range(&dec("20"), &dec("10")).is_err(), "a backward range is an error");
    let p = Bn::generate_prime(100).unwrap();
    assert_true(p.is_prime(None).unwrap() && p.num_bits().unwrap() == 100, "primes of a size");
    reach("drawn");
}
fn primality() {
    // numbers above 3 and their primality
    let sieve = |n: u32| n >= 2 && (2..n).take_while(|d| d * d <= n).all(|d| n % d != 0);
    let mut c = ctx();
    for n in 0..400u32 {
        let x = dec(&n.to_string());
        assert_true(x.is_prime(None).unwrap() == sieve(n), "primality");
        assert_true(x.is_prime(Some(&mut c)).unwrap() == sieve(n), "primality");
        if n > 7 {
            let safe = sieve(n) && sieve((n - 1) / 2);
            assert_true(x.is_safe_prime(None).unwrap() == safe, "safe primality");
            assert_true(x.is_safe_prime(Some(&mut c)).unwrap() == safe, "safe primality");
        }
    }
    for s in [ints::P, ints::Q].iter() {
        assert_true(dec(s).is_safe_prime(None).unwrap(), "safe primality");
    }
    reach("primality");
}
fn hashes() {
    let (x, y) = (make("x", "+"), make("y", "+"));
    let (a, b) = (x.to_bytes().unwrap(), y.to_bytes().unwrap());
    let h = |v: &[Vec<u8>]| Bn::hash_array(v).unwrap();
    let mut ab = a.clone();
    ab.extend(&b);
    assert_true(h(&[a.clone(), b.clone()]) == Bn::hash(&ab).unwrap(), "hash of several is the hash of all bytes in order");
    assert_true(h(&[a.clone()]) == Bn::hash(&a).unwrap(), "hash of one");
    assert_true(h(&[]) == Bn::hash(&[]).unwrap(), "hash of none");
    assert_true(h(&[a.clone(), b.clone()]).len() == 32 && h(&[]).len() == 32, "32 bytes");
    assert_true(h(&[a.clone(), b.clone()]) != h(&[a.clone(), vec![0], b.clone()]), "nothing is left out");
    assert_true((h(&[a.clone(), b.clone()]) == h(&[b, a])) == (x == y), "the order matters");
    reach("hashes");
}
fn malformed() {
    for s in ["", "-", "x", "--1", "+-1", "12x", "1 2", " 1", "1\n", "0x10", "1.5", "1e5", "-1-", "١", "1\0", "\0"].iter() {
        assert_true(Bn::from_dec(s).is_err(), "a malformed decimal is an error");
        let j = serde_json::to_string(s).unwrap();
        assert_true(serde_json::from_str::<Bn>(&j).is_err(), "malformed JSON is an error");
    }
    for s in ["", "-", "g", "0x10", "1g", "--1", " 1", "1 ", "1\0", "é"].iter() {
        assert_true(Bn::from_hex(s).is_err(), "a malformed hexadecimal is an error");
    }
    for j in ["1", "null", "[]", "{}", "true", "\"", "[\"1\"]"].iter() {
        assert_true(serde_json::from_str::<Bn>(j).is_err(), "JSON of another type is an error");
    }
    for (s, v) in [("0", 0i64), ("-0", 0), ("007", 7), ("-12", -12)].iter() {
        is(&Bn::from_dec(s).unwrap(), symcore::int(*v), "decimal");
    }
    for (s, v) in [("0", 0i64), ("ff", 255), ("FF", 255), ("-a", -10), ("0010", 16)].iter() {
        is(&Bn::from_hex(s).unwrap(), symcore::int(*v), "hexadecimal");
    }
    assert_true(Bn::from_bytes(&[]).unwrap() == dec("0"), "no bytes are zero");
    is(&Bn::from_bytes(&[0, 0, 1, 2]).unwrap(), symcore::int(258), "big-endian bytes");
    let n = bn(&modulus("n"));
    let zero = dec("0");
    assert_true(zero.inverse(&n, None).is_err(), "zero has no inverse");
    assert_true(zero.mod_exp(&dec("-1"), &n, None).is_err(), "zero has no negative power");
    let g = Bn::random_qr(&n).unwrap();
    assert_true(g.mod_div(&zero, &n, None).is_err(), "dividing by zero is an error");
    for (a, b) in [("5", "3"), ("0", "1")].iter() {
        assert_true(dec(a).mod_mul(&dec(b), &zero, None).is_err(), "modulus zero is an error");
        assert_true(dec(a).mod_exp(&dec(b), &zero, None).is_err(), "modulus zero is an error");
        assert_true(dec(a).mod_sub(&dec(b), &zero, None).is_err(), "modulus zero is an error");
    }
    reach("malformed");
}

const SOME: [&str; 9] = ["0", "1", "-1", "2", "-2", "4294967295", "4294967296", "-4294967296", "18446744073709551616"];
const MORE: [&str; 8] = ["3", "-3", "255", "256", "-255", "18446744073709551615", "-18446744073709551615", "340282366920938463463374607431768211455"];
pub fn n01(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    let mut ks: Vec<&'static str> = vec!["+", "-"];
    ks.extend(&SOME);
    if thorough {
        ks.extend(&MORE);
    }
    for &k in ks.iter() {
        v.push(case(format!("unary {}", k), move || unary(&make("x", k))));
        for &l in ks.iter() {
            v.push(case(format!("binary {} {}", k, l), move || binary(&make("x", k), &make("y", l))));
            v.push(case(format!("order {} {}", k, l), move || order(&make("x", k), &make("y", l))));
            // constants of the field are small, or all numbers are constants
            let sym = |s: &str| s == "+" || s == "-";
            let both = sym(k) == sym(l);
            if both || (!k.starts_with("-") || sym(k)) && (!l.starts_with("-") || sym(l)) {
                let invert = both || sym(l) || ["0", "1"].contains(&l);
                v.push(case(format!("modular {} {}", k, l), move || modular(&make("x", k), &make("y", l), invert)));
            }
            if thorough || k.len() < 3 || l.len() < 3 {
                v.push(case(format!("powers {} {}", k, l), move || powers(&make("x", k), &make("y", l))));
            }
        }
    }
    v.push(case("constants", move || {
        let mut c = SOME.to_vec();
        c.extend(&["6", "9", "-10", "1000000007"]);
        if thorough {
            c.extend(&MORE);
        }
        constants(&c)
    }));
    v.push(case("residues", residues));
    v.push(case("words", words));
    v.push(case("drawn", drawn));
    v.push(case("primality", primality));
    v.push(case("hashes", hashes));
    v.push(case("malformed", malformed));
    v
}
