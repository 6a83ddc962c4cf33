//! Serialised forms: what is decoded is what was encoded, or nothing.
use crate::val::*;
use crate::world::*;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeSet;
use symcore::engine::{assert_true, case, reach, Case};
use ursa::cl::issuer::Issuer;
use ursa::cl::prover::Prover;
use ursa::cl::*;
use ursa::pair::{Pair, PointG1, PointG2};

/// encodings as sets where the code has sets, without what stands for nothing
fn plain(v: &Value) -> Value {
    match v {
        Value::Object(m) => {
            let mut o = serde_json::Map::new();
            for (k, x) in m {
                let mut y = plain(x);
                if ["issued", "revoked", "attrs", "revealed_attrs", "predicates", "hidden_attributes"].contains(&k.as_str()) {
                    if let Value::Array(a) = &mut y {
                        a.sort_by_key(|x| x.to_string());
                        a.dedup();
                        if a.is_empty() && (k == "issued" || k == "revoked") {
                            continue;
                        }
                    }
                }
                if !y.is_null() {
                    o.insert(k.clone(), y);
                }
            }
            Value::Object(o)
        }
        Value::Array(a) => Value::Array(a.iter().map(plain).collect()),
        Value::String(s) => json!(point(s)),
        x => x.clone(),
    }
}
/// a point has many strings: its coordinates are projective
fn point(s: &str) -> String {
    let bytes = match s.split_whitespace().count() {
        6 => PointG1::from_string(s).ok().map(|p| if p.is_inf().unwrap() { vec![] } else { p.to_bytes().unwrap() }),
        12 => PointG2::from_string(s).ok().map(|p| if p == PointG2::new_inf().unwrap() { vec![] } else { p.to_bytes().unwrap() }),
        24 => Pair::from_string(s).ok().map(|p| p.to_bytes().unwrap()),
        _ => None,
    };
    match bytes {
        Some(b) => format!("{:?}", b),
        None => s.to_string(),
    }
}
type Object = (&'static str, Value, Box<dyn Fn(&Value) -> Option<Value>>);
fn object<T: Serialize + DeserializeOwned + 'static>(n: &'static str, x: &T) -> Object {
    let f = |v: &Value| -> Option<Value> {
        let direct = serde_json::from_value::<T>(v.clone()).ok().map(|x| js(&x));
        let text = serde_json::from_str::<T>(&serde_json::to_string(v).unwrap()).ok().map(|x| js(&x));
        assert_true(
            direct.as_ref().map(plain) == text.as_ref().map(plain),
            "the text is read like the value",
        );
        direct
    };
    (n, js(x), Box::new(f))
}
/// one of everything that is sent or stored
fn everything(revoc: bool, committed: bool, default: bool) -> Vec<Object> {
    let i = issuer(&["age", "name"], if committed { &["ms", "link", "com"] } else { &["ms", "link"] }, revoc);
    let mut v = vec![
        object("schema", &i.schema),
        object("hidden schema", &i.nschema),
        object("public key", &i.pk),
        object("private key", &i.sk),
        object("key proof", &i.proof),
        object("master secret", &Prover::new_master_secret().unwrap()),
        object("nonce", &new_nonce().unwrap()),
    ];
    let mut a: Vals = vec![
        ("age", K::Known, small(28)),
        ("name", K::Known, int("name", 256)),
        ("ms", K::Hidden, int("ms", 256)),
        ("link", K::Hidden, int("link", 256)),
    ];
    if committed {
        a.push(("com", K::Committed, int("com", 256)));
    }
    let vals = values(&a);
    let (n0, n1) = (nonce("n0"), nonce("n1"));
    let (bs, f, p) = Prover::blind_credential_secrets(&i.pk, &i.proof, &vals, &n0).unwrap();
    v.push(object("blinded secrets", &bs));
    v.push(object("blinding factors", &f));
    v.push(object("blinded secrets proof", &p));
    let q = request(&["name"], &[("age", "GE", 18), ("age", "LT", 65), ("age", "LE", -1 + 66), ("age", "GT", -3)]);
    let (mut sig, sp);
    let mut reg = None;
    if revoc {
        let mut r = registry(&i, 3, default);
        v.push(object("revocation public key", &r.key_pub));
        v.push(object("revocation private key", &r.key_priv));
        v.push(object("registry", &r.reg));
        let before = r.reg.clone();
        let none = RevocationRegistryDelta::from_parts(None, &before, &Default::default(), &Default::default());
        v.push(object("delta", &none));
        let s = Issuer::sign_credential_with_revoc(
            "prover", &bs, &p, &n0, &n1, &vals, &i.pk, &i.sk, 2, r.max, r.default, &mut r.reg, &r.key_priv, &r.tails,
        )
        .unwrap();
        sig = s.0;
        sp = s.1;
        if let Some(d) = &s.2 {
            v.push(object("delta", d));
        }
        let mut all = none.clone();
        if let Some(d) = &s.2 {
            all.merge(d).unwrap();
        }
        let mut w = Witness::new(2, r.max, r.default, &all, &r.tails).unwrap();
        let (x, y): (BTreeSet<u32>, BTreeSet<u32>) =
            if default { (BTreeSet::new(), vec![1, 3].into_iter().collect()) } else { (vec![1, 3].into_iter().collect(), BTreeSet::new()) };
        let d = Issuer::update_revocation_registry(&mut r.reg, r.max, x, y, &r.tails).unwrap();
        v.push(object("delta", &d));
        all.merge(&d).unwrap();
        w.update(2, r.max, &d, &r.tails).unwrap();
        let d = Issuer::update_revocation_registry(
            &mut r.reg, r.max, if default { vec![1] } else { vec![] }.into_iter().collect(), if default { vec![] } else { vec![1] }.into_iter().collect(), &r.tails,
        )
        .unwrap();
        all.merge(&d).unwrap();
        w.update(2, r.max, &d, &r.tails).unwrap();
        v.push(object("delta", &all));
        v.push(object("witness", &w));
        v.push(object("unprocessed signature", &sig));
        Prover::process_credential_signature(&mut sig, &vals, &sp, &f, &i.pk, &n1, Some(&r.key_pub), Some(&r.reg), Some(&w)).unwrap();
        reg = Some((r, w));
    } else {
        let s = Issuer::sign_credential("prover", &bs, &p, &n0, &n1, &vals, &i.pk, &i.sk).unwrap();
        sig = s.0;
        sp = s.1;
        Prover::process_credential_signature(&mut sig, &vals, &sp, &f, &i.pk, &n1, None, None, None).unwrap();
    }
    v.push(object("signature", &sig));
    v.push(object("signature proof", &sp));
    if committed {
        return v;
    }
    let (w, r) = match reg {
        Some((r, w)) => (Some(w), Some(r)),
        None => (None, None),
    };
    let c = Cred { vals, sig, idx: 2, witness: w, delta: None };
    let parts = [Part { i: &i, c: &c, q, r: r.as_ref() }];
    v.push(object("proof", &prove(&parts, &[], &nonce("n")).unwrap()));
    v
}
/// every place below the root
fn places(v: &Value, at: &str, out: &mut Vec<String>) {
    let mut go = |k: &str, x: &Value| {
        let p = format!("{}/{}", at, k.replace('~', "~0").replace('/', "~1"));
        out.push(p.clone());
        places(x, &p, out);
    };
    match v {
        Value::Object(m) => m.iter().for_each(|(k, x)| go(k, x)),
        // of many numbers or bytes the first and the last
        Value::Array(a) => a
            .iter()
            .enumerate()
            .filter(|(i, x)| *i == 0 || *i + 1 == a.len() || !x.is_number())
            .for_each(|(i, x)| go(&i.to_string(), x)),
        _ => (),
    }
}
fn without(v: &Value, at: &str) -> Value {
    let mut v = v.clone();
    let (parent, key) = at.split_at(at.rfind('/').unwrap());
    let key = key[1..].replace("~1", "/").replace("~0", "~");
    match v.pointer_mut(parent).unwrap() {
        Value::Object(m) => {
            m.remove(&key);
        }
        Value::Array(a) => {
            a.remove(key.parse().unwrap());
        }
        _ => unreachable!(),
    }
    v
}
fn with(v: &Value, at: &str, x: &Value) -> Value {
    let mut v = v.clone();
    *v.pointer_mut(at).unwrap() = x.clone();
    v
}
/// where a value may be absent, and stands for nothing
const OPTIONAL: [&str; 8] = ["prevAccum", "issued", "revoked", "r_key", "r_credential", "non_revoc_proof", "ur", "vr_prime"];

/// C11: serialised forms
pub fn c11(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    for k in 0..6usize {
        let (revoc, committed, default) = (k > 1, k % 2 == 1, k > 3);
        let name = format!("revocable={} committed={} default={}", revoc, committed, default);
        v.push(case(&format!("round trip {}", name), move || {
            for (n, j, f) in everything(revoc, committed, default) {
                let back = f(&j).map(|x| plain(&x));
                assert_true(back == Some(plain(&j)), &format!("what is decoded is what was encoded: {}", n));
            }
            reach("round trip");
        }));
        if committed && !thorough {
            continue;
        }
        v.push(case(&format!("damaged {}", name), move || {
            let bad: Vec<Value> =
                vec![json!(null), json!(true), json!(7), json!(-1), json!(4294967296u64), json!(1.5), json!(""), json!("zz"), json!([]), json!({})];
            for (n, j, f) in everything(revoc, committed, default) {
                let mut at = vec![];
                places(&j, "", &mut at);
                for p in &at {
                    let w = without(&j, p);
                    if let Some(x) = f(&w) {
                        let last = p.rsplit('/').next().unwrap();
                        assert_true(plain(&x) == plain(&w), &format!("what is left out is not invented: {} {}", n, p));
                        let member = j.pointer(&p[..p.rfind('/').unwrap()]).unwrap();
                        let open = OPTIONAL.contains(&last) || member.is_array() || named(p);
                        assert_true(open, &format!("a missing field is refused: {} {}", n, p));
                    }
                    for b in &bad {
                        let w = with(&j, p, b);
                        if let Some(x) = f(&w) {
                            assert_true(plain(&x) == plain(&w), &format!("another value is read as it is or refused: {} {} {}", n, p, b));
                        }
                    }
                }
                for b in &bad {
                    if let Some(x) = f(b) {
                        assert_true(plain(&x) == plain(b), &format!("another value is read as it is or refused: {} {}", n, b));
                    }
                }
            }
            reach("damaged");
        }));
    }
    v.push(case("earlier forms", || {
        // the base and the response of the master secret had fields of their own
        let i = issuer(&["age"], &["master_secret"], false);
        let j = js(&i.pk);
        let mut old = j.clone();
        let base = old["p_key"]["r"].as_object_mut().unwrap().remove("master_secret").unwrap();
        old["p_key"]["rms"] = base.clone();
        let k: CredentialPublicKey = un(&old);
        assert_true(js(&k) == j, "a key in the earlier form is the same key");
        let mut none = old.clone();
        none["p_key"].as_object_mut().unwrap().remove("rms");
        let k: CredentialPublicKey = un(&none);
        assert_true(js(&k) == none, "no base is invented");
        let i2 = Iss { pk: un(&old), sk: un(&js(&i.sk)), proof: un(&js(&i.proof)), schema: i.schema.clone(), nschema: i.nschema.clone() };
        let c = issue(&i2, &vec![("age", K::Known, int("age", 256)), ("master_secret", K::Hidden, int("ms", 256))], "a", None);
        let q = request(&["age"], &[]);
        let parts = [Part { i: &i2, c: &c, q, r: None }];
        let n = nonce("n");
        let p = prove(&parts, &[], &n).unwrap();
        let j = js(&p);
        let mut old = j.clone();
        let m = old["proofs"][0]["primary_proof"]["eq_proof"]["m"].as_object_mut().unwrap().remove("master_secret").unwrap();
        old["proofs"][0]["primary_proof"]["eq_proof"]["m1"] = m;
        let p: Proof = un(&old);
        assert_true(js(&p) == j, "a proof in the earlier form is the same proof");
        let k = Part { i: &i, c: &c, q: request(&["age"], &[]), r: None };
        assert_true(accepts(&mut verifier(&[k], &[]), &p, &n), "a presentation in the earlier form is accepted");
        reach("earlier");
    }));
    v.push(case("requests and values", || {
        // these are only read
        let q = request(&["name", "sex"], &[("age", "GE", 18), ("age", "LT", -65), ("height", "LE", 0), ("x y", "GT", i32::max_value())]);
        let j = json!({
            "revealed_attrs": ["sex", "name"],
            "predicates": [
                {"attr_name": "age", "p_type": "GE", "value": 18}, {"attr_name": "age", "p_type": "LT", "value": -65},
                {"attr_name": "height", "p_type": "LE", "value": 0}, {"attr_name": "x y", "p_type": "GT", "value": 2147483647},
            ]
        });
        let r: SubProofRequest = un(&j);
        assert_true(format!("{:?}", r) == format!("{:?}", q), "a request is read as it is written");
        for bad in &["ge", "EQ", "", ">="] {
            let mut w = j.clone();
            w["predicates"][0]["p_type"] = json!(bad);
            assert_true(serde_json::from_value::<SubProofRequest>(w).is_err(), "an unknown predicate is refused");
        }
        for bad in &[json!(2147483648i64), json!(-2147483649i64), json!("18"), json!(1.0), json!(null)] {
            let mut w = j.clone();
            w["predicates"][0]["value"] = bad.clone();
            assert_true(serde_json::from_value::<SubProofRequest>(w).is_err(), "a bound out of range is refused");
        }
        let (a, b, d, e) = (int("a", 256), int("b", 256), int("d", 256), int("e", 256));
        let mut x = Issuer::new_credential_values_builder().unwrap();
        x.add_value_known("age", &a).unwrap();
        x.add_value_hidden("ms", &b).unwrap();
        x.add_value_commitment("com", &d, &e).unwrap();
        let shown = format!("{:?}", x);
        let j = js(&x);
        assert_true(
            j == json!({"attrs_values": {
                "age": {"Known": {"value": sdec(&a)}}, "ms": {"Hidden": {"value": sdec(&b)}},
                "com": {"Commitment": {"value": sdec(&d), "blinding_factor": sdec(&e)}}}}),
            "values are written by name and kind",
        );
        let y: CredentialValuesBuilder = un(&j);
        assert_true(format!("{:?}", y) == shown, "values being collected are read as they are written");
        let z: CredentialValues = un(&j);
        assert_true(format!("{:?}", z) == format!("{:?}", x.finalize().unwrap()), "values are read as they are written");
        reach("requests");
    }));
    // what comes back works like what was sent
    let maxes: &[u32] = if thorough { &[1, 2, 3, 4] } else { &[1, 2, 3] };
    for &max in maxes {
        v.push(case(&format!("resumed tails max={}", max), move || {
            let i = issuer(&["age"], &["ms"], true);
            let (_, key, _, gen) = Issuer::new_revocation_registry_def(&i.pk, max, false).unwrap();
            let size = 2 * max as usize + 1;
            let stop = pick("stored after", size + 1);
            let (mut g, mut h) = (gen.clone(), gen.clone());
            let mut n = 0;
            loop {
                if n == stop {
                    h = un(&js(&h));
                }
                let (a, b) = (g.try_next().unwrap(), h.try_next().unwrap());
                assert_true(a == b, "a stored generator goes on where it was");
                assert_true(g.count() == h.count(), "a stored generator has as many tails left");
                if a.is_none() {
                    break;
                }
                let t: Tail = un(&js(&a.unwrap()));
                assert_true(Some(t) == b, "a tail is read as it is written");
                n += 1;
            }
            assert_true(n == size, "every tail is made");
            let _: RevocationKeyPrivate = un(&js(&key));
            reach("tails");
        }));
    }
    for &(max, len) in if thorough { &[(1, 4), (2, 3), (3, 1)][..] } else { &[(1, 3), (2, 2)][..] } {
        for k in 0..2 * max {
            let (default, idx) = (k % 2 == 1, k / 2 + 1);
            v.push(case(&format!("stored history max={} default={} index={}", max, default, idx), move || {
                crate::rev::history(max, default, idx, len, true)
            }));
        }
    }
    v
}
/// attributes are looked up by name where they are used
fn named(p: &str) -> bool {
    let mut it = p.rsplit('/');
    it.next();
    match it.next() {
        Some(x) => ["r", "xr_cap", "m", "revealed_attrs", "hidden_attributes", "committed_attributes", "m_caps", "r_caps", "u", "t", "mj"].contains(&x),
        None => false,
    }
}
