//! S07: Shamir's secret sharing over a prime field.
use crate::val::*;
use symcore::engine::{assert_true, assert_zero, assume_zero, case, concrete, identical, reach, Case};
use symcore::num_traits::{One, Zero};
use symcore::{engine, ints, BigInt, Id};
use ursa::bn::BigNumber;
use ursa::sharing::shamir::{combine_shares, split_secret, Share};

fn q() -> BigInt {
    ints::bn254_order()
}
fn bn(v: &BigInt) -> BigNumber {
    dec(&v.to_string())
}
fn field() -> BigNumber {
    bn(&q())
}
/// any element of the field
fn element(name: &str) -> BigNumber {
    let i = symcore::free(name);
    if concrete() {
        return bn(&(ints::integer(i).unwrap() % q()));
    }
    ints::set_range(i, BigInt::zero(), q() - 1);
    dec(&ints::int_dec(i))
}
fn bytes(b: &BigNumber) -> Vec<u8> {
    let v = b.to_bytes().unwrap();
    if v.is_empty() {
        vec![0]
    } else {
        v
    }
}
/// the number, in the field
fn num(b: &BigNumber) -> Id {
    if concrete() {
        return symcore::big(ints::dec(&b.to_dec().unwrap()));
    }
    let i = id(b);
    match ints::integer(i) {
        Some(v) if v > q() / 2 => symcore::big(v - q()),
        _ => i,
    }
}
fn equal(a: &BigNumber, b: &BigNumber, label: &str) {
    let d = symcore::sub(num(a), num(b));
    match ints::integer(d) {
        Some(v) => assert_true((v % q()).is_zero(), label),
        None => assert_zero(d, label),
    }
}
fn value(secret: &[u8]) -> BigNumber {
    BigNumber::from_bytes(secret).unwrap()
}
/// a secret: any element of the field, or one of its extreme ones
fn secret(kind: &str, name: &str) -> BigNumber {
    match kind {
        "any" => element(name),
        "0" => dec("0"),
        "1" => dec("1"),
        "last" => bn(&(q() - 1)),
        _ => unreachable!(),
    }
}
fn all_zero(s: &[Share]) -> bool {
    s.iter().all(|s| s.value == dec("0"))
}
/// the subsets of 0..n of at least t elements
fn subsets(n: usize, t: usize) -> Vec<Vec<usize>> {
    (0u32..1 << n)
        .map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect::<Vec<_>>())
        .filter(|s| s.len() >= t)
        .collect()
}
fn pick(s: &[Share], which: &[usize]) -> Vec<Share> {
    which.iter().map(|i| s[*i].clone()).collect()
}

/// any `threshold` or more shares, in any order, give back the secret
fn complete(kind: &'static str, t: u8, n: u8, which: &[usize]) {
    let s = secret(kind, "secret");
    let shares = split_secret(bytes(&s), t, n, &field()).expect("the secret is split");
    assert_true(shares.len() == n as usize, "as many shares as asked for");
    for (i, x) in shares.iter().enumerate() {
        assert_true(x.identifier as usize == i + 1, "identifiers count from one");
    }
    let mut chosen = pick(&shares, which);
    if all_zero(&chosen) {
        reach("no information in the shares");
        return;
    }
    equal(&value(&combine_shares(&chosen, &field()).expect("shares combine")), &s, "the shares give back the secret");
    chosen.reverse();
    equal(&value(&combine_shares(&chosen, &field()).expect("shares combine")), &s, "the order of shares does not matter");
    chosen.rotate_left(1);
    equal(&value(&combine_shares(chosen, &field()).expect("shares combine")), &s, "the order of shares does not matter");
    reach("complete");
}
/// the rank of a matrix over the field
fn rank(m: &mut Vec<Vec<BigInt>>) -> usize {
    let q = q();
    let modulo = |x: BigInt| ((x % &q) + &q) % &q;
    let (mut done, cols) = (0, m[0].len());
    for c in 0..cols {
        let p = match (done..m.len()).find(|r| !modulo(m[*r][c].clone()).is_zero()) {
            Some(p) => p,
            None => continue,
        };
        m.swap(done, p);
        let inv = modulo(m[done][c].clone()).modpow(&(&q - 2), &q);
        for r in done + 1..m.len() {
            let f = modulo(&m[r][c] * &inv);
            for k in c..cols {
                let d = &m[done][k] * &f;
                m[r][k] = modulo(&m[r][k] - d);
            }
        }
        done += 1;
    }
    done
}
/// one share fewer than the threshold is compatible with every secret
fn hiding(t: u8, n: u8, which: &[usize]) {
    let (s, r) = (element("secret"), element("other secret"));
    let a = split_secret(bytes(&s), t, n, &field()).unwrap();
    let b = split_secret(bytes(&r), t, n, &field()).unwrap();
    if concrete() {
        // the real randomness: the shares of the chosen positions vary, for one
        // secret, in as many directions as there are
        let at = |v: &[Share]| which.iter().map(|i| ints::dec(&v[*i].value.to_dec().unwrap())).collect::<Vec<_>>();
        let base = at(&a);
        let mut rows: Vec<Vec<BigInt>> = (0..which.len() + 2)
            .map(|_| at(&split_secret(bytes(&s), t, n, &field()).unwrap()).iter().zip(&base).map(|(x, y)| x - y).collect())
            .collect();
        assert_true(rank(&mut rows) == which.len(), "fewer shares than the threshold are compatible with another secret");
        return;
    }
    let ids = |v: &[Share]| which.iter().map(|i| id(&v[*i].value)).collect::<Vec<_>>();
    // the shares of another secret, for coefficients chosen to match
    let (x, coefficients) = symcore::chosen_randomness(&ids(&a), "coefficient");
    for c in coefficients {
        let (lo, hi) = ints::range(c).expect("a coefficient has a range");
        assert_true(lo <= BigInt::one() && hi >= q() - 2, "coefficients are drawn from the whole field");
    }
    for (x, y) in x.iter().zip(ids(&b)) {
        assume_zero(symcore::sub(*x, y));
    }
    assert_true(!identical(id(&s), id(&r)), "fewer shares than the threshold are compatible with another secret");
    for i in which {
        assert_true(!identical(id(&a[*i].value), id(&s)), "a share is not the secret");
    }
    reach("hiding");
}
/// a changed share changes what an exact threshold of shares gives
fn tampered(t: u8, n: u8, which: &[usize], changed: usize) {
    let s = element("secret");
    let shares = split_secret(bytes(&s), t, n, &field()).unwrap();
    let mut chosen = pick(&shares, which);
    let other = element("other value");
    engine::assume_nonzero(symcore::sub(num(&other), num(&chosen[changed].value)));
    chosen[changed].value = other;
    if let Ok(v) = combine_shares(&chosen, &field()) {
        let d = symcore::sub(num(&value(&v)), num(&s));
        engine::assert_nonzero(d, "a changed share changes the result");
        reach("tampered");
    }
}
fn encoding() {
    let q = field();
    for k in ["any", "0", "1", "last"].iter() {
        for i in [1u8, 2, 128, 255].iter() {
            let x = Share { identifier: *i, value: secret(k, &format!("value {}", i)) };
            let y = Share::from_bytes(x.to_bytes(), &q).expect("an encoded share decodes");
            assert_true(y.identifier == *i, "identifier of a decoded share");
            equal(&y.value, &x.value, "value of a decoded share");
            let c = x.clone();
            assert_true(c.identifier == *i, "identifier of a clone");
            equal(&c.value, &x.value, "value of a clone");
        }
    }
    assert_true(Share::from_bytes(&[] as &[u8], &q).is_err(), "nothing is not a share");
    let mut b = bytes(&bn(&(ints::bn254_order() + 5)));
    b.push(7);
    let y = Share::from_bytes(b, &q).unwrap();
    assert_true(y.identifier == 7, "identifier of a decoded share");
    equal(&y.value, &dec("5"), "the value of a share is taken in the field");
    reach("encoding");
}
fn refused() {
    let f = field();
    let s = || bytes(&element("secret"));
    assert_true(split_secret(s(), 0, 3, &f).is_err(), "threshold 0");
    assert_true(split_secret(s(), 1, 3, &f).is_err(), "threshold 1");
    assert_true(split_secret(s(), 3, 2, &f).is_err(), "threshold above the number of shares");
    assert_true(split_secret(s(), 255, 254, &f).is_err(), "threshold above the number of shares");
    assert_true(split_secret(&[] as &[u8], 2, 3, &f).is_err(), "empty secret");
    for (k, big) in [q(), q() + 1, q() * 2, BigInt::one() << 4096].iter().enumerate() {
        assert_true(split_secret(bytes(&bn(big)), 2, 3, &f).is_err(), &format!("secret outside the field {}", k));
    }
    for k in ["0", "1", "-7"].iter() {
        assert_true(split_secret(&[0u8], 2, 3, &dec(k)).is_err(), "field without two elements");
    }
    // the identifiers of the shares are distinct non-zero elements of the field
    for (n, k) in [(2, "2"), (3, "2"), (3, "3"), (5, "3"), (5, "5"), (7, "5"), (255, "251"), (254, "251")].iter() {
        assert_true(split_secret(&[1u8], 2, *n, &dec(k)).is_err(), &format!("{} shares in a field of {}", n, k));
    }
    assert_true(combine_shares(&[] as &[Share], &f).is_err(), "no shares");
    reach("refused");
}
fn not_combined(ids: &[u8]) {
    let v: Vec<Share> = ids
        .iter()
        .map(|i| Share { identifier: *i, value: element(&format!("value {}", i)) })
        .collect();
    assert_true(combine_shares(&v, &field()).is_err(), "shares that cannot be combined");
    let same: Vec<Share> = ids.iter().map(|i| Share { identifier: *i, value: v[0].value.try_clone().unwrap() }).collect();
    assert_true(combine_shares(&same, &field()).is_err(), "shares that cannot be combined");
    for k in ["0", "1", "-7"].iter() {
        let v = [Share { identifier: 1, value: element("x") }, Share { identifier: 2, value: dec("1") }];
        assert_true(combine_shares(&v, &dec(k)).is_err(), "field without two elements");
    }
    reach("not combined");
}

pub fn s07(thorough: bool) -> Vec<Case> {
    let mut out = vec![];
    let max = if thorough { 7 } else { 4 };
    for n in 2..=max {
        for t in 2..=n {
            for w in subsets(n as usize, t as usize) {
                for k in ["any", "0", "1", "last"].iter() {
                    if *k != "any" && (w.len() > t as usize || w[0] != 0) {
                        continue;
                    }
                    let w = w.clone();
                    out.push(case(format!("complete.{}of{}.{:?}.{}", t, n, w, k), move || complete(k, t, n, &w)));
                }
                if w.len() == t as usize {
                    for i in 0..w.len() {
                        let w = w.clone();
                        out.push(case(format!("tampered.{}of{}.{:?}.{}", t, n, w, i), move || tampered(t, n, &w, i)));
                    }
                }
            }
            for w in subsets(n as usize, t as usize - 1) {
                if w.len() == t as usize - 1 {
                    out.push(case(format!("hiding.{}of{}.{:?}", t, n, w), move || hiding(t, n, &w)));
                }
            }
        }
    }
    for w in [[0usize, 254], [253, 254], [254, 0], [127, 128]].iter() {
        out.push(case(format!("complete.2of255.{:?}", w), move || complete("any", 2, 255, w)));
    }
    for w in [[0usize, 127, 254], [252, 253, 254]].iter() {
        out.push(case(format!("complete.3of255.{:?}", w), move || complete("any", 3, 255, w)));
        out.push(case(format!("hiding.3of255.{:?}", &w[1..]), move || hiding(3, 255, &w[1..])));
    }
    for w in [[0usize], [127], [250], [254]].iter() {
        out.push(case(format!("hiding.2of255.{:?}", w), move || hiding(2, 255, w)));
    }
    out.push(case("encoding", encoding));
    out.push(case("refused", refused));
    let ids: [&[u8]; 10] = [
        &[1], &[255], &[0, 1], &[1, 2, 0], &[0, 0], &[1, 1, 2], &[1, 2, 1], &[2, 1, 1], &[255, 3, 255], &[4, 4],
    ];
    for i in ids.iter() {
        let i = i.to_vec();
        out.push(case(format!("not_combined.{:?}", i), move || not_combined(&i)));
    }
    out
}
