//! Honest presentations are accepted; the library's prover refuses what does not hold.
use crate::val::*;
use crate::world::*;
use symcore::engine::{assert_true, case, choose, reach, Case};
use ursa::bn::BigNumber;

pub const TYPES: [&str; 4] = ["GE", "GT", "LE", "LT"];
fn holds(t: &str, x: i64, b: i64) -> bool {
    match t {
        "GE" => x >= b,
        "GT" => x > b,
        "LE" => x <= b,
        _ => x < b,
    }
}
fn through<T: serde::Serialize + serde::de::DeserializeOwned>(x: &T) -> T {
    serde_json::from_str(&serde_json::to_string(x).unwrap()).unwrap()
}
/// the largest value an attribute has, and its sign
fn attr(name: &str, negative: bool) -> BigNumber {
    let x = int(name, 256);
    if negative {
        x.set_negative(true).unwrap()
    } else {
        x
    }
}
fn both(parts: &[Part], common: &[&str]) {
    let n = nonce("n");
    let p = prove(parts, common, &n).unwrap();
    let mut v = verifier(parts, common);
    assert_true(accepts(&mut v, &p, &n), "an honest presentation is accepted");
    assert_true(accepts(&mut v, &p, &n), "and again by the same verifier");
    for n2 in other_nonces("n2", &n) {
        assert_true(!accepts(&mut v, &p, &n2), "a presentation for another nonce is rejected");
    }
    assert_true(accepts(&mut v, &p, &n), "and again after a rejection");
    reach("accepted");
}

pub fn c05(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    // every revealed subset, every kind of attribute
    for neg in &[false, true] {
        for committed in &[false, true] {
            let (neg, committed) = (*neg, *committed);
            v.push(case(&format!("revealed neg={} committed={}", neg, committed), move || {
                let hid: &[&str] = if committed { &["ms", "com"] } else { &["ms"] };
                let i = issuer(&["age", "name", "sex"], hid, false);
                let mut vals = vec![
                    ("age", K::Known, attr("age", neg)),
                    ("name", K::Known, attr("name", false)),
                    ("sex", K::Known, attr("sex", neg)),
                    ("ms", K::Hidden, int("ms", 256)),
                ];
                if committed {
                    vals.push(("com", K::Hidden, int("com", 256)));
                }
                let c = issue(&i, &vals, "a", None);
                let s = choose("revealed", 8);
                let names: Vec<&str> = ["age", "name", "sex"].iter().enumerate().filter(|x| s >> x.0 & 1 == 1).map(|x| *x.1).collect();
                both(&[Part { i: &i, c: &c, q: request(&names, &[]), r: None }], &[]);
            }));
        }
    }
    // predicates at, around and away from their bounds
    for t in TYPES.iter() {
        let t: &'static str = *t;
        let mut pts: Vec<(i64, i64)> = vec![
            (18, 18), (19, 18), (17, 18), (25, 18), (3, 18), (0, 0), (-5, -5), (-4, -5), (-6, -5), (0, -1), (-1, 0),
            (i32::max_value() as i64, i32::max_value() as i64), (i32::min_value() as i64, i32::min_value() as i64),
            (i32::max_value() as i64, 2147480000), (i32::min_value() as i64, -2147480000),
            (i32::max_value() as i64, i32::min_value() as i64), (i32::min_value() as i64, i32::max_value() as i64),
            // differences just below a square
            (24999999, 0), (-63999999, 0), (2147395599, 0), (i32::max_value() as i64, -2147352577), (48, 0), (-99, 0),
            // differences that are sums of few squares
            (512, 0), (896, 0), (1536, 0), (2048, 0), (-5632, 0), (1 << 29, 0), (3 << 29, 0), (-(1 << 29), 0), (1 << 30, -(1 << 30)), (-(1 << 30), 1 << 30),
        ];
        if thorough {
            for d in 0..40 {
                pts.push((1000 + d, 1000));
                pts.push((1000 - d, 1000));
            }
        }
        for (x, b) in pts {
            v.push(case(&format!("{} {} {}", x, t, b), move || {
                let i = issuer(&["age", "name"], &["ms"], false);
                let c = issue(&i, &vec![
                    ("age", K::Known, small(x)),
                    ("name", K::Known, int("name", 256)),
                    ("ms", K::Hidden, int("ms", 256)),
                ], "a", None);
                let parts = [Part { i: &i, c: &c, q: request(&["name"], &[("age", t, b as i32)]), r: None }];
                if holds(t, x, b) {
                    symcore::engine::within(40, "the proof is made within forty seconds of processor time", || both(&parts, &[]));
                } else {
                    assert_true(prove(&parts, &[], &nonce("n")).is_err(), "the prover refuses a predicate that does not hold");
                    reach("refused");
                }
            }));
        }
    }
    v.push(case("several predicates", || {
        let i = issuer(&["age", "name", "score"], &["ms"], false);
        let c = issue(&i, &vec![
            ("age", K::Known, small(28)),
            ("score", K::Known, small(-7)),
            ("name", K::Known, int("name", 256)),
            ("ms", K::Hidden, int("ms", 256)),
        ], "a", None);
        let q = request(&["name"], &[("age", "GE", 18), ("age", "LT", 65), ("score", "LE", 0), ("score", "GT", -100)]);
        both(&[Part { i: &i, c: &c, q, r: None }], &[]);
    }));
    v.push(case("committed attribute at issuance", || {
        let i = issuer(&["age", "name"], &["ms", "policy"], false);
        issue(&i, &vec![
            ("age", K::Known, attr("age", false)),
            ("name", K::Known, int("name", 256)),
            ("ms", K::Hidden, int("ms", 256)),
            ("policy", K::Committed, int("policy", 256)),
        ], "a", None);
        reach("issued");
    }));
    // two credentials of one holder, linked by the master secret
    for preds in 0..2usize {
        v.push(case(&format!("linked credentials preds={}", preds), move || {
            let i = issuer(&["age", "name"], &["ms"], false);
            let j = issuer(&["status", "max"], &["ms"], false);
            let ms = int("ms", 256);
            let d = || ms.try_clone().unwrap();
            let c = issue(&i, &vec![("age", K::Known, small(28)), ("name", K::Known, int("name", 256)), ("ms", K::Hidden, d())], "a", None);
            let e = issue(&j, &vec![("status", K::Known, int("status", 256)), ("max", K::Known, small(9)), ("ms", K::Hidden, d())], "b", None);
            let p1 = [("age", "GE", 18)];
            let p2 = [("max", "LE", 10)];
            let parts = [
                Part { i: &i, c: &c, q: request(&["name"], &p1[..preds]), r: None },
                Part { i: &j, c: &e, q: request(&["status"], &p2[..preds]), r: None },
            ];
            both(&parts, &["ms"]);
        }));
    }
    // revocable credentials
    for default in &[false, true] {
        for idx in 1..=3u32 {
            let default = *default;
            v.push(case(&format!("revocable default={} index={}", default, idx), move || {
                let i = issuer(&["age", "name"], &["ms"], true);
                let mut r = registry(&i, 3, default);
                let c = issue(&i, &vec![
                    ("age", K::Known, small(28)),
                    ("name", K::Known, int("name", 256)),
                    ("ms", K::Hidden, int("ms", 256)),
                ], "a", Some((&mut r, idx)));
                both(&[Part { i: &i, c: &c, q: request(&["name"], &[("age", "GE", 18)]), r: Some(&r) }], &[]);
                // the non-revocation proof is not asked for
                both(&[Part { i: &i, c: &c, q: request(&["name"], &[("age", "GE", 18)]), r: None }], &[]);
            }));
        }
    }
    v.push(case("revocable linked with plain", || {
        let i = issuer(&["age", "name"], &["ms"], true);
        let j = issuer(&["status"], &["ms"], false);
        let mut r = registry(&i, 2, false);
        let ms = int("ms", 256);
        let d = || ms.try_clone().unwrap();
        let c = issue(&i, &vec![("age", K::Known, small(28)), ("name", K::Known, int("name", 256)), ("ms", K::Hidden, d())], "a", Some((&mut r, 2)));
        let e = issue(&j, &vec![("status", K::Known, int("status", 256)), ("ms", K::Hidden, d())], "b", None);
        let parts = [
            Part { i: &j, c: &e, q: request(&[], &[]), r: None },
            Part { i: &i, c: &c, q: request(&["name"], &[("age", "LT", 65)]), r: Some(&r) },
        ];
        both(&parts, &["ms"]);
    }));
    // everything goes through its serialised form
    for revoc in &[false, true] {
        let revoc = *revoc;
        v.push(case(&format!("serialised revocable={}", revoc), move || {
            use ursa::cl::issuer::Issuer;
            use ursa::cl::prover::Prover;
            use ursa::cl::*;
            let i = issuer(&["age", "name"], &["ms"], revoc);
            let i = Iss { schema: through(&i.schema), nschema: through(&i.nschema), pk: through(&i.pk), sk: through(&i.sk), proof: through(&i.proof) };
            let own = vec![
                ("age", K::Known, small(28)),
                ("name", K::Known, attr("name", true)),
                ("ms", K::Hidden, int("ms", 256)),
            ];
            let all: Vals = own.iter().map(|x| (x.0, x.1, x.2.try_clone().unwrap())).collect();
            let vals = values(&all);
            let n0: BigNumber = through(&nonce("n0"));
            let n1: BigNumber = through(&nonce("n1"));
            let (bs, f, p) = Prover::blind_credential_secrets(&i.pk, &i.proof, &vals, &n0).unwrap();
            let (bs, f, p) = (through(&bs), through(&f), through(&p));
            let mut reg = None;
            let (mut sig, sp) = if revoc {
                let r = registry(&i, 2, false);
                let mut r = Reg { key_pub: through(&r.key_pub), key_priv: through(&r.key_priv), reg: through(&r.reg), ..r };
                let (sig, sp, d) = Issuer::sign_credential_with_revoc(
                    "prover", &bs, &p, &n0, &n1, &vals, &i.pk, &i.sk, 2, r.max, r.default, &mut r.reg, &r.key_priv, &r.tails,
                ).unwrap();
                r.reg = through(&r.reg);
                let d: RevocationRegistryDelta = through(&d.unwrap());
                let w: Witness = through(&Witness::new(2, r.max, r.default, &d, &r.tails).unwrap());
                reg = Some((r, w));
                (sig, sp)
            } else {
                Issuer::sign_credential("prover", &bs, &p, &n0, &n1, &vals, &i.pk, &i.sk).unwrap()
            };
            let sp = through(&sp);
            sig = through(&sig);
            match &reg {
                Some((r, w)) => Prover::process_credential_signature(&mut sig, &vals, &sp, &f, &i.pk, &n1, Some(&r.key_pub), Some(&r.reg), Some(w)),
                None => Prover::process_credential_signature(&mut sig, &vals, &sp, &f, &i.pk, &n1, None, None, None),
            }.unwrap();
            // a committed attribute is no part of the credential
            let (w, r) = match reg { Some((r, w)) => (Some(w), Some(r)), None => (None, None) };
            let c = Cred { vals: values(&own), sig: through(&sig), idx: 2, witness: w, delta: None };
            let q = request(&["name"], &[("age", "GE", 18)]);
            let parts = [Part { i: &i, c: &c, q, r: r.as_ref() }];
            let n: BigNumber = through(&nonce("n"));
            let p: Proof = through(&prove(&parts, &[], &n).unwrap());
            assert_true(accepts(&mut verifier(&parts, &[]), &p, &n), "a presentation survives serialisation");
            reach("serialised");
        }));
    }
    v
}
