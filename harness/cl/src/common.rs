//! Attributes that several credentials are shown to share.
use crate::forge::*;
use crate::tamper::judge;
use crate::val::*;
use crate::world::*;
use serde_json::Value;
use symcore::engine::{assert_true, assume_nonzero, case, reach, Case};
use ursa::bn::BigNumber;

fn vals(tag: &str, ms: &BigNumber) -> Vals<'static> {
    vec![
        ("age", K::Known, the(&format!("age.{}", tag), 31)),
        ("name", K::Known, the(&format!("name.{}", tag), 256)),
        ("ms", K::Hidden, c(ms)),
    ]
}
struct Two {
    iss: Vec<Iss>,
    creds: Vec<Cred>,
    h: Vec<Holder>,
    k: Vec<Pk>,
}
/// credentials of one or several issuers, over the given secrets
fn creds(ms: &[BigNumber], one_issuer: bool) -> Two {
    let mut iss = vec![];
    for _ in 0..if one_issuer { 1 } else { ms.len() } {
        iss.push(issuer(&["age", "name"], &["ms"], false));
    }
    let mut t = Two { creds: vec![], h: vec![], k: vec![], iss };
    for (j, m) in ms.iter().enumerate() {
        let v = vals(&j.to_string(), m);
        let cr = issue(&t.iss[if one_issuer { 0 } else { j }], &v, &j.to_string(), None);
        t.h.push(holder(&cr.sig, &v));
        t.k.push(pk(&t.iss[if one_issuer { 0 } else { j }].pk));
        t.creds.push(cr);
    }
    t
}
impl Two {
    fn parts(&self, revealed: &[&[&str]]) -> Vec<Part> {
        (0..self.creds.len())
            .map(|j| Part { i: &self.iss[j.min(self.iss.len() - 1)], c: &self.creds[j], q: request(revealed[j], &[]), r: None })
            .collect()
    }
    fn forged(&self, revealed: &[&[&str]], shared: &Map, n: &BigNumber) -> Value {
        let p: Vec<Piece> = (0..self.h.len()).map(|j| Piece { k: &self.k[j], h: &self.h[j], revealed: revealed[j], preds: &[] }).collect();
        forge_many(&p, shared, n)
    }
    fn forged_apart(&self, revealed: &[&[&str]], m: &[Map], n: &BigNumber) -> Value {
        let p: Vec<Piece> = (0..self.h.len()).map(|j| Piece { k: &self.k[j], h: &self.h[j], revealed: revealed[j], preds: &[] }).collect();
        forge_each(&p, m, n)
    }
}
/// blinding values that differ from one credential to the next
fn apart(n: usize, tag: &str) -> Vec<Map> {
    let x: Vec<BigNumber> = (0..n).map(|j| int(&format!("{}{}", tag, j), 592)).collect();
    for i in 0..n {
        for j in 0..i {
            assume_nonzero(id(&sub(&x[i], &x[j])));
        }
    }
    x.into_iter().map(|v| { let mut m = Map::new(); m.insert(M.to_string(), v); m }).collect()
}
/// another nonce than all of these
fn another(tag: &str, old: &[&BigNumber]) -> BigNumber {
    let x = nonce(tag);
    for o in old {
        assume_nonzero(id(&sub(&x, o)));
    }
    x
}
fn secrets(n: usize, differ: bool) -> Vec<BigNumber> {
    let a = int("ms", 256);
    (0..n)
        .map(|j| {
            if differ && j == n - 1 {
                let b = int("ms'", 256);
                assume_nonzero(id(&sub(&a, &b)));
                b
            } else {
                c(&a)
            }
        })
        .collect()
}
const M: &str = "ms";

/// linked credentials have the same value of the common attribute
pub fn c14(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    for n in 2..=if thorough { 4 } else { 3 } {
        for one in &[false, true] {
            let one = *one;
            let none: Vec<&'static [&'static str]> = vec![&["name"]; n];
            let r = none.clone();
            v.push(case(&format!("own prover n={} one issuer={}", n, one), move || {
                let t = creds(&secrets(n, false), one);
                let nn = nonce("n");
                let mut sh = Map::new();
                sh.insert(M.into(), int("shared", 592));
                let p = t.forged(&r, &sh, &nn);
                assert_true(judge(&t.parts(&r), &[M], &p, &nn), "a shared value is accepted");
                // separate blinding values
                let n2 = another("n2", &[&nn]);
                let q = t.forged_apart(&r, &apart(n, "mt"), &n2);
                assert_true(!judge(&t.parts(&r), &[M], &q, &n2), "values that are not linked are rejected");
                assert_true(judge(&t.parts(&r), &[], &q, &n2), "unless nothing is to be linked");
                reach("linked");
            }));
            let r = none.clone();
            v.push(case(&format!("different values n={} one issuer={}", n, one), move || {
                let t = creds(&secrets(n, true), one);
                let nn = nonce("n");
                let mut sh = Map::new();
                if pick("blinding", 2) == 0 {
                    sh.insert(M.into(), int("shared", 592));
                }
                let mut p = t.forged(&r, &sh, &nn);
                assert_true(!judge(&t.parts(&r), &[M], &p, &nn), "different values are not linked");
                // the response that would be right for the other value
                let (a, b) = [(0, n - 1), (n - 1, 0)][pick("copy", 2)];
                let x = p["proofs"][a]["primary_proof"]["eq_proof"]["m"][M].clone();
                p["proofs"][b]["primary_proof"]["eq_proof"]["m"][M] = x;
                assert_true(!judge(&t.parts(&r), &[M], &p, &nn), "a response taken from another credential is rejected");
                reach("different");
            }));
            let r = none.clone();
            v.push(case(&format!("prepared difference n={} one issuer={}", n, one), move || {
                // blinding values that make the responses equal for one challenge
                let t = creds(&secrets(n, true), one);
                let nn = nonce("n");
                let guess = the("guess", 256);
                let base = int("shared", 592);
                let last = n - 1;
                let mut h = vec![];
                for j in 0..n {
                    let mut m = Map::new();
                    // shift the attribute: m~_last = base + guess (m_0 - m_last)
                    let s = if j == last { add(&base, &mul(&guess, &sub(&t.h[0].m[M], &t.h[last].m[M]))) } else { c(&base) };
                    m.insert(M.to_string(), s);
                    h.push(m);
                }
                let q = t.forged_apart(&r, &h, &nn);
                assert_true(!judge(&t.parts(&r), &[M], &q, &nn), "a guessed challenge does not link different values");
                reach("guessed");
            }));
            let r = none.clone();
            v.push(case(&format!("verifier used before n={} one issuer={}", n, one), move || {
                let t = creds(&secrets(n, false), one);
                let nn = nonce("n");
                let mut sh = Map::new();
                sh.insert(M.into(), int("shared", 592));
                let n2 = another("n2", &[&nn]);
                let n3 = another("n3", &[&nn, &n2]);
                let p: ursa::cl::Proof = un(&t.forged(&r, &sh, &nn));
                let mut sh2 = Map::new();
                sh2.insert(M.into(), int("shared2", 592));
                let p2: ursa::cl::Proof = un(&t.forged(&r, &sh2, &n2));
                let q: ursa::cl::Proof = un(&t.forged_apart(&r, &apart(n, "mt"), &n3));
                let parts = t.parts(&r);
                let mut ver = verifier(&parts, &[M]);
                assert_true(accepts(&mut ver, &p, &nn), "a shared value is accepted");
                assert_true(accepts(&mut ver, &p2, &n2), "a second presentation is accepted");
                assert_true(!accepts(&mut ver, &q, &n3), "values that are not linked are rejected");
                assert_true(accepts(&mut ver, &p, &nn), "a refused presentation has no effect");
                reach("again");
            }));
        }
    }
    for who in 0..2usize {
        v.push(case(&format!("revealed in credential {}", who), move || {
            // a common attribute that one of the credentials shows openly
            let t = creds(&secrets(2, true), false);
            let nn = nonce("n");
            let rev: Vec<&[&str]> = (0..2).map(|j| if j == who { &["name", "age"][..] } else { &["name"][..] }).collect();
            let mut p = t.forged(&rev, &Map::new(), &nn);
            let parts = t.parts(&rev);
            assert_true(!judge(&parts, &["age"], &p, &nn), "a revealed attribute is not linked");
            // with a response that no equation uses
            let x = p["proofs"][1 - who]["primary_proof"]["eq_proof"]["m"]["age"].clone();
            p["proofs"][who]["primary_proof"]["eq_proof"]["m"]["age"] = x;
            assert_true(!judge(&parts, &["age"], &p, &nn), "a response that no equation uses does not link");
            reach("revealed");
        }));
    }
    v.push(case("unknown attribute", || {
        let t = creds(&secrets(2, false), false);
        let nn = nonce("n");
        let rev: Vec<&[&str]> = vec![&["name"], &["name"]];
        let mut p = t.forged(&rev, &Map::new(), &nn);
        let parts = t.parts(&rev);
        assert_true(!judge(&parts, &["none"], &p, &nn), "an attribute that no credential has is not linked");
        let x = sdec(&any("x"));
        for j in 0..2 {
            p["proofs"][j]["primary_proof"]["eq_proof"]["m"]["none"] = x.clone();
        }
        assert_true(!judge(&parts, &["none"], &p, &nn), "an attribute that no credential has is not linked");
        reach("unknown");
    }));
    v
}
