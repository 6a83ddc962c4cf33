//! Verifiable encryption (Camenisch-Shoup).
use serde_json::{from_str, to_string};
use symcore::engine::{self, assert_true, assume_nonzero, case, main as engine_main, reach, Case};
use symcore::{ints, BigInt, Id};
use ursa::bn::BigNumber;
use zmix::verifiable_encryption::cs_verifiable_encryption::*;

fn of(id: Id) -> BigNumber {
    BigNumber::from_dec(&ints::int_dec(id)).unwrap()
}
/// any integer with lo <= x < hi
fn between(id: Id, lo: BigInt, hi: BigInt) -> BigNumber {
    if engine::concrete() {
        let v = ints::integer(id).unwrap();
        let w = &hi - &lo;
        let r = ((v - &lo) % &w + &w) % &w + lo;
        return of(symcore::big(r));
    }
    ints::set_range(id, lo, hi - 1);
    of(id)
}
fn below(name: &str, bits: u32) -> BigNumber {
    between(symcore::free(name), BigInt::from(0), ints::pow2(bits))
}
fn id(b: &BigNumber) -> Id {
    match ints::parse_dec(&b.to_dec().unwrap()) {
        Some(ints::Parsed::Int(i)) => i,
        _ => panic!("not a number"),
    }
}
fn nonzero(name: &str, bits: u32) -> BigNumber {
    let x = between(symcore::free(name), BigInt::from(1), ints::pow2(bits));
    assume_nonzero(id(&x));
    x
}
fn small(v: u32) -> BigNumber {
    BigNumber::from_u32(v as usize).unwrap()
}
fn c(x: &BigNumber) -> BigNumber {
    x.try_clone().unwrap()
}
/// a message below n, whatever the 1024-bit factors of n
fn message(name: &str) -> BigNumber {
    below(name, 2045)
}
fn messages(n: usize, tag: &str) -> Vec<BigNumber> {
    (0..n).map(|i| message(&format!("{}{}", tag, i))).collect()
}
fn copy(x: &CSCiphertext) -> CSCiphertext {
    CSCiphertext { u: c(&x.u), e: x.e.iter().map(c).collect(), v: c(&x.v) }
}
struct K {
    pk: CSEncPubkey,
    sk: CSEncPrikey,
}
fn keys(n: usize) -> K {
    let k = CSKeypair::new(n).unwrap();
    K { pk: k.pub_key, sk: k.pri_key }
}
impl K {
    fn times(&self, a: &BigNumber, b: &BigNumber) -> BigNumber {
        a.mod_mul(b, &self.pk.paillier_group.modulus, None).unwrap()
    }
    fn pow(&self, a: &BigNumber, e: &BigNumber) -> BigNumber {
        self.pk.paillier_group.exponentiate(a, e, None).unwrap()
    }
    fn g(&self, e: &BigNumber) -> BigNumber {
        self.pow(&self.pk.paillier_group.g, e)
    }
    fn h(&self, e: &BigNumber) -> BigNumber {
        self.pow(&self.pk.paillier_group.h, e)
    }
    fn minus(&self, a: &BigNumber) -> BigNumber {
        self.pk.paillier_group.modulus.sub(a).unwrap()
    }
    fn abs(&self, a: &BigNumber) -> BigNumber {
        self.pk.paillier_group.abs(a, None).unwrap()
    }
    fn decrypt(&self, label: &[u8], x: &CSCiphertext) -> Result<Vec<BigNumber>, ()> {
        decrypt(label, x, &self.pk, &self.sk).map_err(|_| ())
    }
    /// a part multiplied by something else than one
    fn alter(&self, x: &BigNumber, how: usize, t: &str) -> BigNumber {
        let d = nonzero(&format!("d{}", t), 256);
        match how {
            0 => self.times(x, &self.g(&d)),
            1 => self.times(x, &self.h(&d)),
            2 => self.minus(x),
            _ => self.times(x, &self.times(&self.g(&d), &self.h(&nonzero(&format!("f{}", t), 256)))),
        }
    }
}
fn pick(what: &str, n: usize) -> usize {
    engine::choose(what, n as u32) as usize
}
fn same(a: &[BigNumber], b: &[BigNumber]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y)
}
const LABEL: &[u8] = b"label";

/// the values reconstructed by the verifier of a proof
fn reconstruct(k: &K, x: &CSCiphertext, s: &[BigNumber], r: &BigNumber, ch: &BigNumber, label: &[u8]) -> Option<CSCiphertext> {
    reconstruct_blindings_ciphertext(x, s, r, ch, label, &k.pk).ok()
}
fn equal(a: &CSCiphertext, b: &CSCiphertext) -> bool {
    a.e.len() == b.e.len() && a.u == b.u && same(&a.e, &b.e) && a.v == b.v
}
/// blinding - challenge * message
fn responses(m: &[BigNumber], t: &[BigNumber], ch: &BigNumber) -> Vec<BigNumber> {
    m.iter().zip(t).map(|(m, t)| t.sub(&ch.mul(m, None).unwrap()).unwrap()).collect()
}
fn blindings(n: usize) -> Vec<BigNumber> {
    (0..n).map(|i| below(&format!("mt{}", i), 592)).collect()
}
/// the challenge, which comes after the messages of the proof
fn challenge(t: &CSCiphertext, x: &CSCiphertext) -> BigNumber {
    let mut v = vec![t.u.to_bytes().unwrap(), x.u.to_bytes().unwrap()];
    for e in t.e.iter().chain(x.e.iter()) {
        v.push(e.to_bytes().unwrap());
    }
    v.push(t.v.to_bytes().unwrap());
    v.push(x.v.to_bytes().unwrap());
    BigNumber::from_bytes(&BigNumber::hash_array(&v).unwrap()).unwrap()
}

fn v01(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    let top = if thorough { 4 } else { 3 };
    for n in 1..=top {
        for used in 0..=n {
            v.push(case(&format!("round trip keys={} messages={}", n, used), move || {
                let k = keys(n);
                let label: &[u8] = [&b""[..], LABEL, &[0u8; 300][..]][pick("label", 3)];
                let m = messages(used, "m");
                let x = encrypt(&m, label, &k.pk).unwrap();
                assert_true(x.e.len() == used, "one part for each message");
                let r = k.decrypt(label, &x);
                assert_true(r.map(|r| same(&r, &m)).unwrap_or(false), "an encrypted message is decrypted");
                // everything stored and read back
                let pk: CSEncPubkey = from_str(&to_string(&k.pk).unwrap()).unwrap();
                let sk: CSEncPrikey = from_str(&to_string(&k.sk).unwrap()).unwrap();
                let x: CSCiphertext = from_str(&to_string(&x).unwrap()).unwrap();
                let r = decrypt(label, &x, &pk, &sk);
                assert_true(r.map(|r| same(&r, &m)).unwrap_or(false), "keys and ciphertexts can be stored");
                let x = encrypt(&m, label, &pk).unwrap();
                let r = k.decrypt(label, &x);
                assert_true(r.map(|r| same(&r, &m)).unwrap_or(false), "a stored key encrypts");
                reach("decrypted");
            }));
        }
        v.push(case(&format!("sizes keys={}", n), move || {
            let k = keys(n);
            let m = messages(n + 1, "m");
            assert_true(encrypt(&m, LABEL, &k.pk).is_err(), "too many messages are an error");
            let b = blindings(n + 1);
            assert_true(encrypt_and_prove_phase_1(&m, &b, LABEL, &k.pk).is_err(), "too many messages are an error in a proof");
            assert_true(encrypt_and_prove_phase_1(&m[..n], &b, LABEL, &k.pk).is_err(), "more blindings than messages are an error");
            assert_true(encrypt_and_prove_phase_1(&m[..n], &b[..n - 1], LABEL, &k.pk).is_err(), "fewer blindings than messages are an error");
            let mut x = encrypt(&m[..n], LABEL, &k.pk).unwrap();
            let (r, ch) = (below("r", 2000), below("c", 256));
            assert_true(reconstruct(&k, &x, &m, &r, &ch, LABEL).is_none(), "more responses than the key has parts are an error");
            assert_true(reconstruct(&k, &x, &m[..n - 1], &r, &ch, LABEL).is_none(), "a part without a response is an error");
            x.e.push(c(&x.u));
            assert_true(k.decrypt(LABEL, &x).is_err(), "more parts than the key has are an error");
            x.e.truncate(n - 1);
            assert_true(reconstruct(&k, &x, &m[..n], &r, &ch, LABEL).is_none(), "a response without a part is an error");
            assert_true(CSKeypair::new(0).is_err(), "a key for no message is an error");
            reach("sizes");
        }));
        v.push(case(&format!("altered keys={}", n), move || {
            let k = keys(n);
            let m = messages(n, "m");
            let label: &[u8] = [LABEL, &b""[..], &[7u8; 300][..]][pick("label", 3)];
            let x = encrypt(&m, label, &k.pk).unwrap();
            let mut y = copy(&x);
            let w = pick("part", n + 2);
            let how = pick("how", 4);
            {
                let p = if w == n { &mut y.u } else if w == n + 1 { &mut y.v } else { &mut y.e[w] };
                *p = k.alter(p, how, "");
            }
            let r = k.decrypt(label, &y);
            assert_true(r.is_err(), "a ciphertext with an altered part is refused");
            reach("altered");
        }));
        v.push(case(&format!("other label keys={}", n), move || {
            let k = keys(n);
            let m = messages(n, "m");
            let label: &[u8] = [LABEL, &b""[..], &[7u8; 32][..], &[7u8; 300][..]][pick("label", 4)];
            let x = encrypt(&m, label, &k.pk).unwrap();
            let mut others = vec![vec![], b"another".to_vec(), [label, &[0u8][..]].concat(), [label, &[7u8][..]].concat(), [&[0u8][..], label].concat()];
            for i in &[0, label.len() / 2, label.len().saturating_sub(1)] {
                if *i < label.len() {
                    let mut l = label.to_vec();
                    l[*i] ^= 1;
                    others.push(l.clone());
                    l.truncate(*i);
                    others.push(l);
                    others.push(label[*i + 1..].to_vec());
                }
            }
            for l in others.iter().filter(|l| l[..] != *label) {
                assert_true(k.decrypt(l, &x).is_err(), "another label is refused");
            }
            reach("other label");
        }));
        v.push(case(&format!("own encryption keys={}", n), move || {
            // one part is not the power of y that the others are
            let k = keys(n);
            let (m, r) = (messages(n, "m"), nonzero("r", 2000));
            let mut x = CSCiphertext { u: k.g(&r), e: vec![], v: small(1) };
            for i in 0..n {
                x.e.push(k.times(&k.pow(&k.pk.y1[i], &r), &k.h(&m[i])));
            }
            let (w, how) = (pick("part", n), pick("how", 3));
            if how > 0 {
                x.e[w] = k.alter(&x.e[w], [0, 0, 3][how], "");
            }
            let mut b = vec![x.u.to_bytes().unwrap()];
            b.extend(x.e.iter().map(|e| e.to_bytes().unwrap()));
            b.push(LABEL.to_vec());
            let hs = BigNumber::from_bytes(&BigNumber::hash_array(&b).unwrap()).unwrap();
            x.v = k.abs(&k.pow(&k.times(&k.pk.y2, &k.pow(&k.pk.y3, &hs)), &r));
            let d = k.decrypt(LABEL, &x);
            if how == 0 {
                assert_true(d.map(|d| same(&d, &m)).unwrap_or(false), "an encryption by other code decrypts");
            } else {
                assert_true(d.is_err(), "a part that hides no message is refused");
            }
            reach("own encryption");
        }));
        v.push(case(&format!("two altered keys={}", n), move || {
            let k = keys(n);
            let m = messages(n, "m");
            let mut y = encrypt(&m, LABEL, &k.pk).unwrap();
            let w = pick("first", n + 1);
            let (p, q) = (pick("how", 4), pick("how too", 4));
            if w == n {
                y.u = k.alter(&y.u, p, "1");
            } else {
                y.e[w] = k.alter(&y.e[w], p, "1");
            }
            y.v = k.abs(&k.alter(&y.v, q, "2"));
            assert_true(k.decrypt(LABEL, &y).is_err(), "a ciphertext with two altered parts is refused");
            reach("two altered");
        }));
        v.push(case(&format!("parts keys={}", n), move || {
            let k = keys(n + 1);
            let m = messages(n, "m");
            let x = encrypt(&m, LABEL, &k.pk).unwrap();
            let z = encrypt(&m, LABEL, &k.pk).unwrap();
            let mut y = copy(&x);
            match pick("change", 7) {
                0 => { y.e.pop(); }
                1 => { let e = c(&y.e[0]); y.e.push(e); }
                2 if n > 1 => y.e.swap(0, n - 1),
                3 if n > 1 => { y.e.remove(0); }
                4 => y.u = z.u,
                5 => y.v = z.v,
                6 => y.e[n - 1] = c(&z.e[n - 1]),
                _ => engine::prune("does not apply"),
            }
            assert_true(k.decrypt(LABEL, &y).is_err(), "a ciphertext of other parts is refused");
            reach("parts");
        }));
        v.push(case(&format!("part in the label keys={}", n), move || {
            let k = keys(n);
            let m = messages(n, "m");
            let mut y = encrypt(&m, LABEL, &k.pk).unwrap();
            let mut label = y.e.pop().unwrap().to_bytes().unwrap();
            label.extend_from_slice(LABEL);
            assert_true(k.decrypt(&label, &y).is_err(), "a ciphertext is refused under a label that continues it");
            reach("continued");
        }));
        v.push(case(&format!("other key keys={}", n), move || {
            let (k, l) = (keys(n), keys(n));
            let m = messages(n, "m");
            let x = encrypt(&m, LABEL, &k.pk).unwrap();
            assert_true(decrypt(LABEL, &x, &k.pk, &l.sk).is_err(), "another private key does not decrypt");
            reach("other key");
        }));
        v.push(case(&format!("proof keys={}", n), move || {
            let k = keys(n);
            let used = 1 + pick("fewer", n);
            let (m, t) = (messages(used, "m"), blindings(used));
            let (x, y, r, rt) = encrypt_and_prove_phase_1(&m, &t, LABEL, &k.pk).unwrap();
            let d = k.decrypt(LABEL, &x);
            assert_true(d.map(|d| same(&d, &m)).unwrap_or(false), "what is proved decrypts");
            let ch = below("c", 256);
            let rh = encrypt_and_prove_phase_2(&r, &rt, &ch, &k.pk, None).unwrap();
            let s = responses(&m, &t, &ch);
            let z = reconstruct(&k, &x, &s, &rh, &ch, LABEL);
            assert_true(z.map(|z| equal(&z, &y)).unwrap_or(false), "an honest proof is reconstructed");
            reach("proved");
        }));
        v.push(case(&format!("altered proof keys={}", n), move || {
            let k = keys(n);
            let (m, t) = (messages(n, "m"), blindings(n));
            let (mut x, y, r, rt) = encrypt_and_prove_phase_1(&m, &t, LABEL, &k.pk).unwrap();
            let mut ch = challenge(&y, &x);
            let mut rh = encrypt_and_prove_phase_2(&r, &rt, &ch, &k.pk, None).unwrap();
            let mut s = responses(&m, &t, &ch);
            let mut label = LABEL;
            let d = nonzero("d", 256);
            let w = pick("change", 2 * n + 5);
            match w {
                0 => ch = ch.add(&d).unwrap(),
                1 => rh = rh.add(&d).unwrap(),
                2 => label = b"label2",
                3 => x.u = k.alter(&x.u, [0, 1, 3][pick("how", 3)], ""),
                4 => x.v = k.alter(&x.v, [0, 1, 3][pick("how", 3)], ""),
                _ if w < 5 + n => s[w - 5] = s[w - 5].add(&d).unwrap(),
                _ => x.e[w - 5 - n] = k.alter(&x.e[w - 5 - n], [0, 1, 3][pick("how", 3)], ""),
            }
            let z = reconstruct(&k, &x, &s, &rh, &ch, label);
            assert_true(!z.map(|z| equal(&z, &y)).unwrap_or(false), "an altered proof is not reconstructed");
            reach("altered proof");
        }));
        v.push(case(&format!("own prover keys={}", n), move || {
            // a prover that makes ciphertext and commitments as it likes
            let k = keys(n);
            let (m, t) = (messages(n, "m"), blindings(n));
            let (r, rt) = (nonzero("r", 2000), below("rt", 2000));
            let w = pick("part", n + 2);
            let how = pick("how", 6);
            let mut x = CSCiphertext { u: k.g(&r), e: vec![], v: small(1) };
            for i in 0..n {
                x.e.push(k.times(&k.pow(&k.pk.y1[i], &r), &k.h(&m[i])));
            }
            let bad = |p: &BigNumber| match how {
                0 => c(p),
                4 => small(1),
                _ => k.alter(p, how - 1 - (how > 4) as usize, ""),
            };
            if w == n {
                x.u = bad(&x.u);
            } else if w < n {
                x.e[w] = bad(&x.e[w]);
            }
            // the digest of what is sent
            let mut b = vec![x.u.to_bytes().unwrap()];
            b.extend(x.e.iter().map(|e| e.to_bytes().unwrap()));
            b.push(LABEL.to_vec());
            let hs = BigNumber::from_bytes(&BigNumber::hash_array(&b).unwrap()).unwrap();
            let y = k.times(&k.pk.y2, &k.pow(&k.pk.y3, &hs));
            x.v = k.abs(&k.pow(&y, &r));
            if w == n + 1 {
                x.v = bad(&x.v);
            }
            let two = small(2);
            let mut z = CSCiphertext { u: k.pow(&k.g(&rt), &two), e: vec![], v: k.pow(&k.pow(&y, &rt), &two) };
            for i in 0..n {
                z.e.push(k.pow(&k.times(&k.pow(&k.pk.y1[i], &rt), &k.h(&t[i])), &two));
            }
            let ch = challenge(&z, &x);
            let rh = rt.sub(&r.mul(&ch, None).unwrap()).unwrap();
            let s = responses(&m, &t, &ch);
            let ok = reconstruct(&k, &x, &s, &rh, &ch, LABEL).map(|y| equal(&y, &z)).unwrap_or(false);
            if how == 0 {
                assert_true(ok, "the own prover can be honest");
            }
            if ok {
                let d = k.decrypt(LABEL, &x);
                assert_true(d.map(|d| same(&d, &m)).unwrap_or(false), "what is proved to be encrypted can be decrypted");
                reach("accepted");
            } else {
                reach("rejected");
            }
        }));
        v.push(case(&format!("chosen responses keys={}", n), move || {
            // the parts hide other exponents than the proof is made for, and the
            // responses are any numbers
            let k = keys(n);
            let r: Vec<BigNumber> = (0..n + 1).map(|i| nonzero(&format!("r{}", i), 2000)).collect();
            let rt: Vec<BigNumber> = (0..n + 1).map(|i| below(&format!("rt{}", i), 2000)).collect();
            let (m, t) = (messages(n, "m"), blindings(n));
            let mut x = CSCiphertext { u: k.g(&r[n]), e: vec![], v: small(1) };
            for i in 0..n {
                x.e.push(k.times(&k.pow(&k.pk.y1[i], &r[i]), &k.h(&m[i])));
            }
            let mut b = vec![x.u.to_bytes().unwrap()];
            b.extend(x.e.iter().map(|e| e.to_bytes().unwrap()));
            b.push(LABEL.to_vec());
            let hs = BigNumber::from_bytes(&BigNumber::hash_array(&b).unwrap()).unwrap();
            let y = k.times(&k.pk.y2, &k.pow(&k.pk.y3, &hs));
            x.v = k.abs(&k.pow(&y, &r[n]));
            let two = small(2);
            let mut z = CSCiphertext { u: k.pow(&k.g(&rt[n]), &two), e: vec![], v: k.pow(&k.pow(&y, &rt[n]), &two) };
            for i in 0..n {
                z.e.push(k.pow(&k.times(&k.pow(&k.pk.y1[i], &rt[i]), &k.h(&t[i])), &two));
            }
            let ch = challenge(&z, &x);
            let rh = rt[n].sub(&r[n].mul(&ch, None).unwrap()).unwrap();
            let s: Vec<BigNumber> = responses(&m, &t, &ch).iter().enumerate().map(|(i, s)| s.add(&below(&format!("o{}", i), 256)).unwrap()).collect();
            let ok = reconstruct(&k, &x, &s, &rh, &ch, LABEL).map(|y| equal(&y, &z)).unwrap_or(false);
            if ok {
                let d = k.decrypt(LABEL, &x);
                assert_true(d.map(|d| same(&d, &m)).unwrap_or(false), "what is proved to be encrypted can be decrypted");
                assert_true(same(&s, &responses(&m, &t, &ch)), "the responses are for the messages encrypted");
                reach("extracted");
            }
        }));
    }
    v.push(case("absolute values", move || {
        let k = keys(1);
        let x = k.times(&k.g(&nonzero("a", 2000)), &k.h(&below("b", 2000)));
        let x = if pick("sign", 2) == 0 { x } else { k.minus(&x) };
        let a = k.abs(&x);
        assert_true(a == k.abs(&a), "an absolute value is its own");
        assert_true(a == k.abs(&k.minus(&x)), "a number and its negative have one absolute value");
        assert_true(a == x || a == k.minus(&x), "an absolute value is the number or its negative");
        let g = &k.pk.paillier_group;
        assert_true(g.sqr(&a, None).unwrap() == g.sqr(&x, None).unwrap(), "with the same square");
        assert_true(g.sqr(&x, None).unwrap() == k.times(&x, &x), "a square is a product");
        reach("absolute");
    }));
    v
}

fn cases(prop: &str, thorough: bool) -> Vec<Case> {
    symcore::field::set_modulus(&ints::qr_order().to_str_radix(16));
    std::collections::HashMap::<u8, u8>::new();
    match prop {
        "V01" => v01(thorough),
        _ => panic!("unknown property"),
    }
}

fn main() {
    engine_main(cases)
}
