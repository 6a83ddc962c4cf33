//! Presentations that must not be accepted.
use crate::forge::*;
use crate::val::*;
use crate::world::*;
use serde_json::Value;
use symcore::engine::{assert_true, assume_nonzero, case, reach, Case};
use ursa::bn::BigNumber;
use ursa::cl::*;

const TYPES: [&str; 4] = ["GE", "GT", "LE", "LT"];

pub fn check(i: &Iss, q: SubProofRequest, p: &Value, n: &BigNumber) -> bool {
    let mut v = ursa::cl::verifier::Verifier::new_proof_verifier().unwrap();
    v.add_sub_proof_request(&q, &i.schema, &i.nschema, &i.pk, None, None).unwrap();
    match serde_json::from_value::<Proof>(p.clone()) {
        Ok(p) => accepts(&mut v, &p, n),
        Err(_) => false,
    }
}
fn vals() -> Vals<'static> {
    vec![
        ("age", K::Known, int("age", 31)),
        ("name", K::Known, int("name", 256)),
        ("ms", K::Hidden, int("ms", 256)),
    ]
}
fn honest() -> (Iss, Pk, Holder) {
    let i = issuer(&["age", "name"], &["ms"], false);
    let v = vals();
    let cr = issue(&i, &v, "a", None);
    let k = pk(&i.pk);
    let h = holder(&cr.sig, &v);
    (i, k, h)
}
/// a holder who never got a credential
fn free_holder(k: &Pk, e: BigNumber) -> Holder {
    Holder {
        a: k.pow(&k.s, &int("adv.a", 2048)),
        e,
        v: int("adv.v", 2724),
        m2: int("adv.m2", 256),
        m: vals().into_iter().map(|x| (x.0.to_string(), x.2)).collect(),
    }
}
/// delta that a predicate of this type claims
pub fn claimed(typ: &str, bound: i32, m: &BigNumber) -> BigNumber {
    let b = small(bound as i64);
    match typ {
        "GE" => sub(m, &b),
        "GT" => sub(&sub(m, &b), &small(1)),
        "LE" => sub(&b, m),
        _ => sub(&sub(&b, m), &small(1)),
    }
}
pub fn roots() -> Vec<BigNumber> {
    (0..4).map(|j| int(&format!("u{}", j), 16)).collect()
}
pub fn squares(u: &[BigNumber]) -> BigNumber {
    u.iter().fold(small(0), |a, x| add(&a, &mul(x, x)))
}

const BOUNDS: [i32; 5] = [18, 0, -5, i32::max_value(), i32::min_value()];
/// the value that a predicate is about is at least (1) or at most (-1) the number
fn claim(t: &str, b: i32) -> (i64, i64) {
    match t {
        "GE" => (1, b as i64),
        "GT" => (1, b as i64 + 1),
        "LE" => (-1, b as i64),
        _ => (-1, b as i64 - 1),
    }
}
fn at_distance(t: &str, b: i32, d: i64) -> BigNumber {
    let (s, x) = claim(t, b);
    small(x + s * d)
}
/// a credential whose age clears the bound by ten
fn ten(t: &str, b: i32) -> (Iss, Pk, Holder) {
    let i = issuer(&["age", "name"], &["ms"], false);
    let mut v = vals();
    v[0].2 = at_distance(t, b, 10);
    let cr = issue(&i, &v, "a", None);
    let k = pk(&i.pk);
    let h = holder(&cr.sig, &v);
    (i, k, h)
}

/// only the holder of a signature over the presented values is accepted
pub fn c06(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    for rev in [&[][..], &["name"][..], &["age", "name"][..]].iter() {
        let rev: Vec<&'static str> = rev.to_vec();
        let r1 = rev.clone();
        v.push(case(&format!("own prover revealed={}", rev.len()), move || {
            let (i, k, h) = honest();
            let n = nonce("n");
            let p = forge(&k, &h, &r1, &[], &n);
            assert_true(check(&i, request(&r1, &[]), &p, &n), "a presentation of a signature is accepted");
            reach("accepted");
        }));
        let r1 = rev.clone();
        v.push(case(&format!("no signature revealed={}", rev.len()), move || {
            let i = issuer(&["age", "name"], &["ms"], false);
            let k = pk(&i.pk);
            let h = free_holder(&k, add(&e_start(), &int("adv.e", 119)));
            assume_nonzero(id(&h.relation(&k)));
            let n = nonce("n");
            let p = forge(&k, &h, &r1, &[], &n);
            assert_true(!check(&i, request(&r1, &[]), &p, &n), "values without a signature are rejected");
            reach("rejected");
        }));
        for e in [1i64, -1].iter() {
            let (r1, e) = (rev.clone(), *e);
            v.push(case(&format!("unit exponent {} revealed={}", e, rev.len()), move || {
                let i = issuer(&["age", "name"], &["ms"], false);
                let k = pk(&i.pk);
                let mut h = free_holder(&k, small(1));
                h.a = small(1);
                let rel = h.relation(&k);
                // A = (Z / S^v ...)^(1/e)
                h.a = if e == 1 { k.over(&small(1), &rel) } else { rel };
                h.e = small(e);
                let n = nonce("n");
                let p = forge(&k, &h, &r1, &[], &n);
                assert_true(!check(&i, request(&r1, &[]), &p, &n), "an exponent that is no prime of the range is rejected");
                reach("rejected");
            }));
        }
        let r1 = rev.clone();
        v.push(case(&format!("shifted value revealed={}", rev.len()), move || {
            let (i, k, mut h) = honest();
            let j = int("k", 16);
            assume_nonzero(id(&j));
            // A' = A R^-k signs m + k e
            h.a = k.over(&h.a, &k.pow(&k.r["name"], &j));
            let m = add(&h.m["name"], &mul(&j, &h.e));
            h.m.insert("name".into(), m);
            let n = nonce("n");
            let p = forge(&k, &h, &r1, &[], &n);
            assert_true(!check(&i, request(&r1, &[]), &p, &n), "a value shifted by the exponent is rejected");
            reach("rejected");
        }));
    }
    let sets: [(&[&str], &[&str]); 8] = [
        (&["name"], &[]),
        (&["age", "name"], &["age"]),
        (&["age", "name"], &["name"]),
        (&["age", "name", "zip"], &["zip"]),
        (&["age", "name", "zip"], &[]),
        (&["age"], &["name"]),
        (&[], &["name"]),
        (&["name"], &["name", "zip"]),
    ];
    for (asked, shown) in sets.iter() {
        for value in (if thorough { vec![None, Some(0i64), Some(1)] } else { vec![None, Some(0i64)] }).iter() {
            for r in 0..if thorough { 3 } else { 2 } {
                let (a, s, x) = (asked.to_vec(), shown.to_vec(), *value);
                v.push(case(&format!("disclosure {:?} for {:?} value={:?} response={}", s, a, x, r), move || disclosure(&a, &s, x, r)));
            }
        }
    }
    v
}

/// what is asked for is disclosed: a prover of its own withholds or adds attributes
fn disclosure(asked: &[&str], shown: &[&str], value: Option<i64>, response: u32) {
    let i = issuer(&["age", "name", "zip"], &["ms"], false);
    let mut v = vals();
    v.push(("zip", K::Known, int("zip", 256)));
    if let Some(x) = value {
        for a in v.iter_mut().filter(|a| a.0 != "ms" && asked.contains(&a.0) != shown.contains(&a.0)) {
            a.2 = small(x);
        }
    }
    let cr = issue(&i, &v, "a", None);
    let (k, h) = (pk(&i.pk), holder(&cr.sig, &v));
    let n = nonce("n");
    let mut p = forge(&k, &h, shown, &[], &n);
    let eq = &mut p["proofs"][0]["primary_proof"]["eq_proof"];
    for a in ["age", "name", "zip"].iter() {
        match (asked.contains(a), shown.contains(a), response) {
            (true, false, 1) | (false, true, 1) => {
                // no response for what is withheld, one for what is added
                let m = eq["m"].as_object_mut().unwrap();
                if m.remove(*a).is_none() {
                    m.insert(a.to_string(), sdec(&int("adv.response", 592)));
                }
            }
            (_, _, 2) if asked.contains(a) != shown.contains(a) => {
                // the response is of zero, or of the opposite
                eq["m"][*a] = sdec(&small(0));
            }
            _ => (),
        }
    }
    assert_true(!check(&i, request(asked, &[]), &p, &n), "a presentation that does not disclose what is asked for is rejected");
    reach("disclosure");
}

/// predicates hold of the presented credential
pub fn c12(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    for t in TYPES.iter() {
        let t: &'static str = *t;
        let less = t == "LE" || t == "LT";
        // the bound, with its ends
        for bound in &BOUNDS {
            let b = *bound;
            v.push(case(&format!("{} {} own prover", t, b), move || {
                // the four roots of what the predicate claims: 10 = 9 + 1
                let (i, k, h) = ten(t, b);
                let n = nonce("n");
                let u = vec![small(3), small(1), small(0), small(0)];
                let p = forge(&k, &h, &["name"], &[pr("age", t, b, u, small(10))], &n);
                assert_true(check(&i, request(&["name"], &[("age", t, b)]), &p, &n), "a predicate that holds is accepted");
                reach("accepted");
            }));
            v.push(case(&format!("{} {} not a sum of squares", t, b), move || {
                let (i, k, h) = honest();
                let n = nonce("n");
                let d = claimed(t, b, &h.m["age"]);
                let u = roots();
                assume_nonzero(id(&sub(&d, &squares(&u))));
                let p = forge(&k, &h, &["name"], &[pr("age", t, b, u, d)], &n);
                assert_true(!check(&i, request(&["name"], &[("age", t, b)]), &p, &n), "a difference that is no sum of four squares is rejected");
                reach("rejected");
            }));
            v.push(case(&format!("{} {} another difference", t, b), move || {
                let (i, k, h) = honest();
                let n = nonce("n");
                let u = roots();
                let d = squares(&u);
                assume_nonzero(id(&sub(&d, &claimed(t, b, &h.m["age"]))));
                let p = forge(&k, &h, &["name"], &[pr("age", t, b, u, d)], &n);
                assert_true(!check(&i, request(&["name"], &[("age", t, b)]), &p, &n), "squares that do not add up to the difference are rejected");
                reach("rejected");
            }));
        }
        for other in &TYPES {
            let o: &'static str = *other;
            for shift in if thorough { -2..=2 } else { -1..=1 } {
                if o == t && shift == 0 {
                    continue;
                }
                v.push(case(&format!("{} for {} {:+}", o, t, shift), move || {
                    // what is proved is another predicate than what is asked for
                    let (i, k, h) = ten(o, 18 + shift);
                    let n = nonce("n");
                    let u = vec![small(3), small(1), small(0), small(0)];
                    let said = pick("stated", 2) == 0;
                    let mut q = pr("age", o, 18 + shift, u, small(10));
                    if said {
                        // as if it were the other one
                        q.typ = t.into();
                        q.bound = 18;
                    }
                    let p = forge(&k, &h, &["name"], &[q], &n);
                    let ok = check(&i, request(&["name"], &[("age", t, 18)]), &p, &n);
                    let same = said && claim(o, 18 + shift) == claim(t, 18);
                    if same {
                        assert_true(ok, "the same claim in other words");
                    } else {
                        assert_true(!ok, "another predicate than the requested one is rejected");
                    }
                    reach("rejected");
                }));
            }
        }
        v.push(case(&format!("{} on another attribute", t), move || {
            let i = issuer(&["age", "name", "score"], &["ms"], false);
            let k = pk(&i.pk);
            let mut val = vals();
            val[0].2 = at_distance(t, 18, 10);
            val.push(("score", K::Known, int("score", 31)));
            let cr = issue(&i, &val, "a", None);
            let h = holder(&cr.sig, &val);
            let n = nonce("n");
            let u = vec![small(3), small(1), small(0), small(0)];
            assume_nonzero(id(&sub(&h.m["age"], &h.m["score"])));
            let p = forge(&k, &h, &["name"], &[pr("age", t, 18, u, small(10))], &n);
            assert_true(!check(&i, request(&["name"], &[("score", t, 18)]), &p, &n), "a predicate about another attribute is rejected");
            let mut p = p;
            p["proofs"][0]["primary_proof"]["ge_proofs"][0]["predicate"]["attr_name"] = "score".into();
            assert_true(!check(&i, request(&["name"], &[("score", t, 18)]), &p, &n), "a predicate renamed to another attribute is rejected");
            reach("rejected");
        }));
        v.push(case(&format!("{} on a revealed attribute", t), move || {
            let (i, k, h) = honest();
            let n = nonce("n");
            let u = roots();
            let d = squares(&u);
            let x = add(&h.m["age"], &int("off", 31));
            assume_nonzero(id(&sub(&x, &h.m["age"])));
            let _ = &d;
            let mut q = pr("age", t, 18, u, d);
            q.other = Some((x, int("other.t", 592)));
            let p = forge(&k, &h, &["name", "age"], &[q], &n);
            assert_true(!check(&i, request(&["name", "age"], &[("age", t, 18)]), &p, &n), "a predicate about another value than the revealed one is rejected");
            reach("rejected");
        }));
        for second in 0..2usize {
            v.push(case(&format!("{} the second of two missing or false {}", t, second), move || {
                let (i, k, h) = ten(t, 18);
                let n = nonce("n");
                let u = || vec![small(3), small(1), small(0), small(0)];
                let far = if pr("age", t, 18, vec![], small(0)).less { 10 } else { 30 };
                let first = pr("age", t, 18, u(), small(10));
                let p = if second == 0 {
                    // the first one twice
                    forge(&k, &h, &["name"], &[first, pr("age", t, 18, u(), small(10))], &n)
                } else {
                    let mut q = pr("age", t, 18, u(), small(10));
                    q.bound = far;
                    forge(&k, &h, &["name"], &[first, q], &n)
                };
                let q = request(&["name"], &[("age", t, 18), ("age", t, far)]);
                assert_true(!check(&i, q, &p, &n), "each requested predicate is proved");
                reach("rejected");
            }));
        }
        v.push(case(&format!("{} another value", t), move || {
            let (i, k, h) = honest();
            let n = nonce("n");
            let u = roots();
            let d = squares(&u);
            let b = small(18);
            let x = match t {
                "GE" => add(&d, &b),
                "GT" => add(&add(&d, &b), &small(1)),
                "LE" => sub(&b, &d),
                _ => sub(&sub(&b, &d), &small(1)),
            };
            assume_nonzero(id(&sub(&x, &h.m["age"])));
            let mut q = pr("age", t, 18, u, d);
            q.other = Some((x, int("other.t", 592)));
            let p = forge(&k, &h, &["name"], &[q], &n);
            assert_true(!check(&i, request(&["name"], &[("age", t, 18)]), &p, &n), "a predicate about another value is rejected");
            reach("rejected");
        }));
        v.push(case(&format!("{} commitment changed after the challenge", t), move || {
            let (i, k, _) = honest();
            let n = nonce("n");
            let u = vec![small(3), small(1), small(0), small(0)];
            let b = if less { 38 } else { 18 };
            let b = match t { "GT" => b - 1, "LT" => b + 1, _ => b };
            let mut val = vals();
            val[0].2 = small(28);
            let cr = issue(&i, &val, "b", None);
            let h = holder(&cr.sig, &val);
            let mut p = forge(&k, &h, &["name"], &[pr("age", t, b, u, small(10))], &n);
            let d = int("d", 64);
            assume_nonzero(id(&d));
            let ch = num(&p["aggregated_proof"]["c_hash"]);
            let g = &mut p["proofs"][0]["primary_proof"]["ge_proofs"][0];
            let t0 = k.times(&num(&g["t"]["0"]), &k.pow(&k.s, &d));
            let r0 = add(&num(&g["r"]["0"]), &mul(&ch, &d));
            let al = sub(&num(&g["alpha"]), &mul(&d, &num(&g["u"]["0"])));
            g["t"]["0"] = sdec(&t0);
            g["r"]["0"] = sdec(&r0);
            g["alpha"] = sdec(&al);
            assert_true(!check(&i, request(&["name"], &[("age", t, b)]), &p, &n), "a commitment chosen after the challenge is rejected");
            reach("rejected");
        }));
        v.push(case(&format!("{} proof missing", t), move || {
            let (i, k, h) = honest();
            let n = nonce("n");
            let p = forge(&k, &h, &["name"], &[], &n);
            assert_true(!check(&i, request(&["name"], &[("age", t, 18)]), &p, &n), "a presentation without the requested predicate is rejected");
            reach("rejected");
        }));
    }
    v
}
