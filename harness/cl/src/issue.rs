//! Issuance: keys, blinded secrets and signatures are what they are claimed to be.
use crate::forge::*;
use crate::val::*;
use crate::world::*;
use serde_json::{json, Value};
use symcore::engine::{assert_true, assume_nonzero, case, reach, Case};
use ursa::bn::BigNumber;
use ursa::cl::issuer::Issuer;
use ursa::cl::prover::Prover;
use ursa::cl::*;
use ursa::pair::*;

const SCHEMAS: [(&[&str], &[&str]); 6] = [
    (&["age"], &[]),
    (&["age"], &["ms"]),
    (&["age", "name"], &["ms"]),
    (&["age", "name"], &["master_secret", "link"]),
    (&["a", "b", "c", "d"], &["ms"]),
    // names that are close to that of the base that the proof may leave out
    (&["master_secret_2", "master_secre"], &["Master_Secret", "my_master_secret", "master secret"]),
];
fn one(n: &BigNumber) -> bool {
    *n == small(1)
}
/// all the numbers of a structure
fn walk(v: &Value, path: &str, out: &mut Vec<String>) {
    match v {
        Value::Object(m) => m.iter().for_each(|(k, x)| walk(x, &format!("{}/{}", path, k), out)),
        Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| walk(x, &format!("{}/{}", path, i), out)),
        Value::Null => (),
        _ => out.push(path.to_string()),
    }
}
fn bump(v: &mut Value, path: &str, d: &BigNumber) {
    let x = v.pointer_mut(path).unwrap();
    *x = sdec(&add(&num(x), d));
}
fn bump_res(v: &mut Value, path: &str, k: &Pk, d: &BigNumber) {
    let x = v.pointer_mut(path).unwrap();
    *x = sdec(&k.times(&num(x), &k.pow(&k.s, d)));
}
fn nonzero(n: &str) -> BigNumber {
    let d = any(n);
    assume_nonzero(id(&d));
    d
}
fn key_ok(pk: &Value, p: &Value) -> bool {
    let pk: CredentialPublicKey = match serde_json::from_value(json!({"p_key": pk, "r_key": Value::Null})) {
        Ok(x) => x,
        Err(_) => return false,
    };
    let p: CredentialKeyCorrectnessProof = match serde_json::from_value(p.clone()) {
        Ok(x) => x,
        Err(_) => return false,
    };
    // nothing is blinded: only the key decides
    let none = Issuer::new_credential_values_builder().unwrap().finalize().unwrap();
    Prover::blind_credential_secrets(&pk, &p, &none, &int("kn", 80)).is_ok()
}
/// a key with its own proof; x' are the exponents that are claimed
fn own_key_proof(k: &Pk, order: &[String], xz: &BigNumber, xr: &dyn Fn(&str) -> BigNumber) -> Value {
    let mut h = vec![c(&k.z)];
    h.extend(order.iter().map(|a| c(&k.r[a])));
    let tz = int("own.tz", 2048);
    h.push(k.pow(&k.s, &tz));
    let t: Vec<BigNumber> = order.iter().map(|a| int(&format!("own.t.{}", a), 2048)).collect();
    h.extend(t.iter().map(|t| k.pow(&k.s, t)));
    let ch = hash1(&h);
    let resp = |x: &BigNumber, t: &BigNumber| sdec(&add(t, &mul(&ch, x)));
    let xr: Vec<Value> = order.iter().zip(&t).map(|(a, t)| json!([a, resp(&xr(a), t)])).collect();
    json!({"c": sdec(&ch), "xz_cap": resp(xz, &tz), "xr_cap": xr})
}
/// hash of the concatenation
fn hash1(v: &[BigNumber]) -> BigNumber {
    let b: Vec<u8> = v.iter().flat_map(|x| x.to_bytes().unwrap()).collect();
    BigNumber::from_bytes(&BigNumber::hash_array(&[b]).unwrap()).unwrap()
}
fn key_with(i: &Iss, x: &dyn Fn(&str) -> BigNumber) -> Value {
    let mut p = js(&i.pk)["p_key"].clone();
    let k = pk(&i.pk);
    p["z"] = sdec(&k.pow(&k.s, &x("/z")));
    for (a, v) in p["r"].as_object_mut().unwrap().iter_mut() {
        *v = sdec(&k.pow(&k.s, &x(a)));
    }
    p
}
fn pk_of(p: &Value) -> Pk {
    Pk {
        n: num(&p["n"]),
        s: num(&p["s"]),
        z: num(&p["z"]),
        rctxt: num(&p["rctxt"]),
        r: p["r"].as_object().unwrap().iter().map(|(a, v)| (a.clone(), num(v))).collect(),
    }
}

fn shape(kn: &[&str], hi: &[&str]) {
    let i = issuer(kn, hi, false);
    let x = |a: &str| the(&format!("x.{}", a), 2048);
    let p = key_with(&i, &x);
    let k = pk_of(&p);
    let order: Vec<String> = k.r.keys().cloned().collect();
    for a in 0..order.len() {
        for b in 0..a {
            assume_nonzero(id(&sub(&x(&order[a]), &x(&order[b]))));
        }
    }
    let q = own_key_proof(&k, &order, &x("/z"), &x);
    // a proof that leaves a base out (version 1 leaves out the master secret)
    let out = pick("left out", order.len());
    let rest: Vec<String> = order.iter().filter(|a| **a != order[out]).cloned().collect();
    let ok = key_ok(&p, &own_key_proof(&k, &rest, &x("/z"), &x));
    assert_true(ok == (order[out] == "master_secret"), "every base but the master secret's is proved");
    // an entry for a base that the key does not have
    let mut w = q.clone();
    w["xr_cap"].as_array_mut().unwrap().push(json!(["none", sdec(&x("none"))]));
    assert_true(!key_ok(&p, &w), "an entry for an unknown base is refused");
    let mut w = q.clone();
    w["xr_cap"][out][0] = json!("none");
    assert_true(!key_ok(&p, &w), "a renamed entry is refused");
    if order.len() > 1 {
        let other = (out + 1) % order.len();
        let mut w = q.clone();
        w["xr_cap"][out][0] = q["xr_cap"][other][0].clone();
        assert_true(!key_ok(&p, &w), "an entry for another base is refused");
        w["xr_cap"][other][0] = q["xr_cap"][out][0].clone();
        assert_true(!key_ok(&p, &w), "entries with exchanged names are refused");
        let mut w = q.clone();
        w["xr_cap"].as_array_mut().unwrap().swap(out, other);
        assert_true(!key_ok(&p, &w), "reordered entries are refused");
    }
    let mut w = q.clone();
    w["xr_cap"].as_array_mut().unwrap().remove(out);
    if order[out] != "master_secret" {
        assert_true(!key_ok(&p, &w), "a missing entry is refused");
    }
    reach("shape");
}

/// public keys are accepted only with a proof that Z and every R is a power of S
pub fn c01(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    for (si, (kn, hi)) in SCHEMAS.iter().enumerate() {
        let (kn, hi) = (*kn, *hi);
        if si == 5 {
            v.push(case("names close to the master secret's", move || shape(kn, hi)));
            continue;
        }
        v.push(case(&format!("honest key schema={}", si), move || {
            let i = issuer(kn, hi, pick("revocation", 2) == 1);
            let (p, q) = (js(&i.pk)["p_key"].clone(), js(&i.proof));
            assert_true(key_ok(&p, &q), "the issuer's key is accepted");
            let k = pk(&i.pk);
            let names: Vec<String> = kn.iter().chain(hi.iter()).map(|x| x.to_string()).collect();
            assert_true(
                k.r.len() == names.len() && names.iter().all(|n| k.r.contains_key(n)),
                "the key has one base for every attribute",
            );
            assert_true(q["xr_cap"].as_array().unwrap().len() == names.len(), "every base is proved");
            // no two bases are the same, in this key or another
            let j = pk(&issuer(kn, hi, false).pk);
            let all = |k: &Pk| {
                let mut a = vec![c(&k.s), c(&k.z), c(&k.rctxt)];
                a.extend(k.r.values().map(c));
                a
            };
            let mut a = all(&k);
            a.extend(all(&j));
            for x in 0..a.len() {
                for y in 0..x {
                    assert_true(a[x] != a[y], "bases are distinct");
                }
            }
            reach("honest");
        }));
        v.push(case(&format!("changed schema={}", si), move || {
            let i = issuer(kn, hi, false);
            let k = pk(&i.pk);
            let (mut p, mut q) = (js(&i.pk)["p_key"].clone(), js(&i.proof));
            let mut at = vec![];
            walk(&q, "", &mut at);
            at.retain(|x| !x.starts_with("/xr_cap/") || x.ends_with("/1"));
            let keys: Vec<String> =
                ["s", "z"].iter().map(|x| format!("/{}", x)).chain(k.r.keys().map(|a| format!("/r/{}", a))).collect();
            let total = at.len() + keys.len();
            let a = pick("first", total);
            let b = pick("second", total);
            if b > a || (!thorough && si == 4 && a != b) {
                reach("changed");
                return;
            }
            let d = nonzero("d");
            let ch = num(&q["c"]);
            let mut change = |x: usize, d: &BigNumber| {
                if x < at.len() {
                    bump(&mut q, &at[x], d);
                } else {
                    bump_res(&mut p, &keys[x - at.len()], &k, d);
                }
            };
            change(a, &d);
            if b < a {
                let e = match pick("ratio", 3) {
                    0 => c(&d),
                    1 => sub(&small(0), &d),
                    _ => mul(&ch, &d),
                };
                change(b, &e);
            }
            assert_true(!key_ok(&p, &q), "a changed key or proof is refused");
            reach("changed");
        }));
        if si == 4 {
            continue;
        }
        v.push(case(&format!("own proof schema={}", si), move || {
            let i = issuer(kn, hi, false);
            let x = |a: &str| the(&format!("x.{}", a), 2048);
            let p = key_with(&i, &x);
            let k = pk_of(&p);
            let order: Vec<String> = k.r.keys().cloned().collect();
            assert_true(key_ok(&p, &own_key_proof(&k, &order, &x("/z"), &x)), "powers of S are accepted");
            // one exponent is not the one that is claimed
            let wrong = pick("which", order.len() + 1);
            let d = nonzero("d");
            let y = |a: &str| {
                if wrong < order.len() && order[wrong] == a { add(&x(a), &d) } else { x(a) }
            };
            let z = if wrong == order.len() { add(&x("/z"), &d) } else { x("/z") };
            assert_true(!key_ok(&p, &own_key_proof(&k, &order, &z, &y)), "a base with another exponent is refused");
            reach("own");
        }));
        v.push(case(&format!("shape schema={}", si), move || shape(kn, hi)));
        v.push(case(&format!("used only when proved schema={}", si), move || {
            let i = issuer(kn, hi, false);
            let mut q = js(&i.proof);
            bump(&mut q, "/xz_cap", &nonzero("d"));
            let val = values(&vals_for(kn, hi, "a"));
            let r = Prover::blind_credential_secrets(&i.pk, &un(&q), &val, &nonce("n"));
            assert_true(r.is_err(), "secrets are not blinded under an unproved key");
            reach("used");
        }));
    }
    v
}
fn vals_for(kn: &[&'static str], hi: &[&'static str], tag: &str) -> Vals<'static> {
    kn.iter()
        .map(|a| (*a, K::Known, the(&format!("{}.{}", a, tag), 256)))
        .chain(hi.iter().map(|a| (*a, K::Hidden, the(&format!("{}.{}", a, tag), 256))))
        .collect()
}

/// what the holder sends, and the request it is for
struct Req {
    i: Iss,
    vals: CredentialValues,
    bs: Value,
    p: Value,
    n0: BigNumber,
}
const MIXES: [&[(&str, K)]; 6] = [
    &[("age", K::Known)],
    &[("age", K::Hidden)],
    &[("age", K::Known), ("ms", K::Hidden)],
    &[("age", K::Known), ("ms", K::Hidden), ("link", K::Hidden)],
    &[("age", K::Known), ("ms", K::Hidden), ("com", K::Committed)],
    &[("com", K::Committed), ("com2", K::Committed), ("ms", K::Hidden), ("age", K::Known), ("name", K::Known)],
];
fn mixed(m: &[(&'static str, K)], tag: &str) -> Vals<'static> {
    m.iter().map(|(a, k)| (*a, *k, the(&format!("{}.{}", a, tag), 256))).collect()
}
fn iss_for(m: &[(&'static str, K)], revoc: bool) -> Iss {
    let kn: Vec<&str> = m.iter().filter(|x| x.1 == K::Known || m.len() == 1).map(|x| x.0).collect();
    let hi: Vec<&str> = m.iter().filter(|x| x.1 != K::Known && m.len() > 1).map(|x| x.0).collect();
    issuer(&kn, &hi, revoc)
}
fn req(m: &[(&'static str, K)], revoc: bool) -> Req {
    let i = iss_for(m, revoc);
    let vals = values(&mixed(m, "a"));
    let n0 = nonce("n0");
    let (bs, _, p) = Prover::blind_credential_secrets(&i.pk, &i.proof, &vals, &n0).unwrap();
    Req { bs: js(&bs), p: js(&p), i, vals, n0 }
}
impl Req {
    fn signed(&self, bs: &Value, p: &Value, n0: &BigNumber) -> bool {
        let bs: BlindedCredentialSecrets = match serde_json::from_value(bs.clone()) {
            Ok(x) => x,
            Err(_) => return false,
        };
        let p: BlindedCredentialSecretsCorrectnessProof = match serde_json::from_value(p.clone()) {
            Ok(x) => x,
            Err(_) => return false,
        };
        Issuer::sign_credential("prover", &bs, &p, n0, &nonce("n1"), &self.vals, &self.i.pk, &self.i.sk).is_ok()
    }
}
/// A holder with its own proof: what it claims to have blinded is u = S^v prod R^m.
fn own_request(k: &Pk, hidden: &[&str], com: &[&str], off: &dyn Fn(&str) -> BigNumber, n0: &BigNumber) -> (Value, Value) {
    let x = |a: &str| the(&format!("own.{}", a), 256);
    let vp = int("own.v", 2128);
    let t = |a: &str| the(&format!("own.t.{}", a), 593);
    let mut u = k.pow(&k.s, &vp);
    let mut ut = k.pow(&k.s, &t("/v"));
    for a in hidden {
        u = k.times(&u, &k.pow(&k.r[*a], &x(a)));
        ut = k.times(&ut, &k.pow(&k.r[*a], &t(a)));
    }
    let mut h = vec![];
    let mut cs = serde_json::Map::new();
    for a in com {
        let b = format!("{}/r", a);
        let v = k.zs(&x(a), &x(&b));
        h.push(k.zs(&t(a), &t(&b)));
        h.push(c(&v));
        cs.insert(a.to_string(), sdec(&v));
    }
    h.push(c(&u));
    h.push(ut);
    h.push(c(n0));
    let ch = hash1(&h);
    let resp = |n: &str, v: &BigNumber| sdec(&add(&t(n), &mul(&ch, &add(v, &off(n)))));
    let mut mc = serde_json::Map::new();
    let mut rc = serde_json::Map::new();
    for a in hidden {
        mc.insert(a.to_string(), resp(a, &x(a)));
    }
    for a in com {
        let b = format!("{}/r", a);
        mc.insert(a.to_string(), resp(a, &x(a)));
        rc.insert(a.to_string(), resp(&b, &x(&b)));
    }
    (
        json!({"u": sdec(&u), "ur": Value::Null, "hidden_attributes": hidden, "committed_attributes": cs}),
        json!({"c": sdec(&ch), "v_dash_cap": resp("/v", &vp), "m_caps": mc, "r_caps": rc}),
    )
}

/// the issuer signs only what the holder proves to know
pub fn c03(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    for (mi, m) in MIXES.iter().enumerate() {
        let m = *m;
        v.push(case(&format!("honest request mix={}", mi), move || {
            let r = req(m, false);
            assert_true(r.signed(&r.bs, &r.p, &r.n0), "an honest request is signed");
            let hid: Vec<&str> = m.iter().filter(|x| x.1 == K::Hidden).map(|x| x.0).collect();
            let com: Vec<&str> = m.iter().filter(|x| x.1 == K::Committed).map(|x| x.0).collect();
            let h = r.bs["hidden_attributes"].as_array().unwrap();
            assert_true(h.len() == hid.len() && hid.iter().all(|a| h.contains(&json!(a))), "exactly the hidden attributes are blinded");
            let cm = r.bs["committed_attributes"].as_object().unwrap();
            assert_true(cm.len() == com.len() && com.iter().all(|a| cm.contains_key(*a)), "exactly the committed attributes are committed to");
            for o in other_nonces("n0'", &r.n0) {
                assert_true(!r.signed(&r.bs, &r.p, &o), "a request for another nonce is refused");
            }
            // fresh blinding every time
            let (b2, _, p2) = Prover::blind_credential_secrets(&r.i.pk, &r.i.proof, &r.vals, &r.n0).unwrap();
            let (b2, p2) = (js(&b2), js(&p2));
            assert_true(num(&b2["u"]) != num(&r.bs["u"]), "blinding is fresh");
            let mut at = vec![];
            walk(&r.p, "", &mut at);
            for a in at {
                assert_true(num(p2.pointer(&a).unwrap()) != num(r.p.pointer(&a).unwrap()), "no response is used twice");
            }
            reach("honest");
        }));
        v.push(case(&format!("changed request mix={}", mi), move || {
            let r = req(m, false);
            let k = pk(&r.i.pk);
            let mut at: Vec<(String, u8)> = vec![];
            let mut l = vec![];
            walk(&r.p, "", &mut l);
            at.extend(l.into_iter().map(|x| (x, 0)));
            at.push(("/u".into(), 1));
            at.extend(r.bs["committed_attributes"].as_object().unwrap().keys().map(|a| (format!("/committed_attributes/{}", a), 1)));
            let a = pick("first", at.len());
            let b = pick("second", at.len());
            if b > a {
                reach("changed");
                return;
            }
            let (mut bs, mut p) = (r.bs.clone(), r.p.clone());
            let d = nonzero("d");
            let ch = num(&p["c"]);
            let mut change = |x: &(String, u8), d: &BigNumber| {
                if x.1 == 0 {
                    bump(&mut p, &x.0, d)
                } else {
                    bump_res(&mut bs, &x.0, &k, d)
                }
            };
            change(&at[a], &d);
            if b < a {
                let e = match pick("ratio", 4) {
                    0 => c(&d),
                    1 => sub(&small(0), &d),
                    2 => mul(&ch, &d),
                    _ => sub(&small(0), &mul(&ch, &d)),
                };
                change(&at[b], &e);
            }
            assert_true(!r.signed(&bs, &p, &r.n0), &format!("a changed request is refused: {} {}", at[a].0, at[b].0));
            reach("changed");
        }));
        v.push(case(&format!("other parts mix={}", mi), move || {
            let r = req(m, false);
            let (mut bs, mut p) = (r.bs.clone(), r.p.clone());
            let mut at: Vec<(bool, String, String)> = vec![];
            for f in ["m_caps", "r_caps"].iter() {
                at.extend(p[*f].as_object().unwrap().keys().map(|a| (true, f.to_string(), a.clone())));
            }
            at.extend(bs["committed_attributes"].as_object().unwrap().keys().map(|a| (false, "committed_attributes".to_string(), a.clone())));
            at.extend(bs["hidden_attributes"].as_array().unwrap().iter().map(|a| (false, "hidden_attributes".to_string(), a.as_str().unwrap().to_string())));
            match pick("how", 4) {
                0 => {
                    // left out
                    if at.is_empty() {
                        return reach("parts");
                    }
                    let (proof, f, a) = at[pick("part", at.len())].clone();
                    let x = if proof { &mut p[&f] } else { &mut bs[&f] };
                    match x {
                        Value::Array(l) => l.retain(|y| *y != json!(a)),
                        y => {
                            y.as_object_mut().unwrap().remove(&a);
                        }
                    }
                    assert_true(!r.signed(&bs, &p, &r.n0), &format!("a request without a part is refused: {} {}", f, a));
                }
                1 => {
                    // an attribute that the key does not have
                    bs["hidden_attributes"].as_array_mut().unwrap().push(json!("none"));
                    p["m_caps"]["none"] = sdec(&any("x"));
                    assert_true(!r.signed(&bs, &p, &r.n0), "an attribute without a base is refused");
                }
                2 => {
                    // responses of two attributes exchanged
                    let names: Vec<String> = p["m_caps"].as_object().unwrap().keys().cloned().collect();
                    if names.len() < 2 {
                        return reach("parts");
                    }
                    let i = pick("first", names.len());
                    let j = (i + 1) % names.len();
                    let (x, y) = (p["m_caps"][&names[i]].clone(), p["m_caps"][&names[j]].clone());
                    p["m_caps"][&names[i]] = y;
                    p["m_caps"][&names[j]] = x;
                    assert_true(!r.signed(&bs, &p, &r.n0), "exchanged responses are refused");
                }
                _ => {
                    // proof of another request of the same holder
                    let (b2, _, p2) = Prover::blind_credential_secrets(&r.i.pk, &r.i.proof, &r.vals, &r.n0).unwrap();
                    assert_true(!r.signed(&bs, &js(&p2), &r.n0), "the proof of another request is refused");
                    assert_true(!r.signed(&js(&b2), &p, &r.n0), "the proof of another request is refused");
                }
            }
            reach("parts");
        }));
        if mi == 0 {
            continue;
        }
        v.push(case(&format!("own proof mix={}", mi), move || {
            let i = iss_for(m, false);
            let k = pk(&i.pk);
            let hid: Vec<&str> = m.iter().filter(|x| x.1 == K::Hidden).map(|x| x.0).collect();
            let com: Vec<&str> = m.iter().filter(|x| x.1 == K::Committed).map(|x| x.0).collect();
            let n0 = nonce("n0");
            let vals = values(&mixed(m, "a"));
            let r = Req { bs: Value::Null, p: Value::Null, i, vals, n0: c(&n0) };
            let (bs, p) = own_request(&k, &hid, &com, &|_| small(0), &n0);
            assert_true(r.signed(&bs, &p, &n0), "a proved request is signed");
            let mut names = vec!["/v".to_string()];
            names.extend(hid.iter().chain(com.iter()).map(|x| x.to_string()));
            names.extend(com.iter().map(|x| format!("{}/r", x)));
            let a = pick("first", names.len());
            let b = pick("second", names.len());
            let d = nonzero("d");
            let e = [small(0), c(&d), sub(&small(0), &d)];
            let e = &e[if a == b { 0 } else { pick("ratio", 3) }];
            let off = |n: &str| {
                if n == names[a] { c(&d) } else if n == names[b] { c(e) } else { small(0) }
            };
            let (bs, p) = own_request(&k, &hid, &com, &off, &n0);
            assert_true(!r.signed(&bs, &p, &n0), "an unproved value is refused");
            reach("own");
        }));
        v.push(case(&format!("named only mix={}", mi), move || {
            // an attribute that is named as hidden, of which nothing is blinded or proved
            let i = iss_for(m, false);
            let k = pk(&i.pk);
            let hid: Vec<&str> = m.iter().filter(|x| x.1 == K::Hidden).map(|x| x.0).collect();
            let kn: Vec<&str> = m.iter().filter(|x| x.1 == K::Known).map(|x| x.0).collect();
            if hid.is_empty() {
                return reach("known");
            }
            let n0 = nonce("n0");
            let a = hid[pick("which", hid.len())];
            let proved: Vec<&str> = hid.iter().cloned().filter(|x| *x != a).collect();
            // to values with and without the attribute
            let with = pick("values", 2) == 1 || kn.is_empty();
            let vals: Vals = mixed(m, "a").into_iter().filter(|x| with || x.0 != a).collect();
            let vals = values(&vals);
            let r = Req { bs: Value::Null, p: Value::Null, i, vals, n0: c(&n0) };
            let (mut bs, p) = own_request(&k, &proved, &[], &|_| small(0), &n0);
            bs["hidden_attributes"].as_array_mut().unwrap().push(json!(a));
            assert_true(!r.signed(&bs, &p, &n0), "an attribute of which nothing is proved is refused");
            reach("known");
        }));
        v.push(case(&format!("known values mix={}", mi), move || {
            // every attribute the issuer knows, blinded by the holder as well
            let i = iss_for(m, false);
            let k = pk(&i.pk);
            let kn: Vec<&str> = m.iter().filter(|x| x.1 == K::Known).map(|x| x.0).collect();
            let mut hid: Vec<&str> = m.iter().filter(|x| x.1 == K::Hidden).map(|x| x.0).collect();
            let n0 = nonce("n0");
            let vals = values(&mixed(m, "a"));
            let r = Req { bs: Value::Null, p: Value::Null, i, vals, n0: c(&n0) };
            if kn.is_empty() {
                return reach("known");
            }
            hid.push(kn[pick("which", kn.len())]);
            let (bs, p) = own_request(&k, &hid, &[], &|_| small(0), &n0);
            assert_true(!r.signed(&bs, &p, &n0), "a value the issuer knows is not blinded by the holder");
            reach("known");
        }));
    }
    let _ = thorough;
    v
}

/// an issued signature covers exactly the values, under a fresh prime and blinding
pub fn c02(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    for (mi, m) in MIXES.iter().enumerate() {
        for revoc in &[false, true] {
            let (m, revoc) = (*m, *revoc);
            v.push(case(&format!("covers the values mix={} revocable={}", mi, revoc), move || {
                let i = iss_for(m, revoc);
                let k = pk(&i.pk);
                let val = mixed(m, "a");
                let mut r = if revoc { Some(registry(&i, 2, true)) } else { None };
                let cr = issue(&i, &val, "a", r.as_mut().map(|r| (r, 1)));
                let h = holder(&cr.sig, &val);
                assert_true(one(&h.relation(&k)), "the signature covers the values");
                // and nothing else
                let names: Vec<String> = h.m.keys().cloned().collect();
                let what = pick("which", names.len() + 1);
                let mut h2 = holder(&cr.sig, &val);
                let d = nonzero("d");
                if what == names.len() {
                    h2.m2 = add(&h2.m2, &d);
                } else {
                    let x = add(&h2.m[&names[what]], &d);
                    h2.m.insert(names[what].clone(), x);
                }
                assert_true(!one(&h2.relation(&k)), "the signature covers no other values");
                let start = e_start();
                assert_true(h.e > start && h.e < add(&start, &small(2).exp(&small(119), None).unwrap()), "the exponent is in its range");
                assert_true(h.e.is_prime(None).unwrap(), "the exponent is prime");
                assert_true(h.v.num_bits().unwrap() >= 2723, "the blinding exponent is long");
                // a second signature on the same values
                let c2 = issue(&i, &val, "b", r.as_mut().map(|r| (r, 2)));
                let g = holder(&c2.sig, &val);
                assert_true(g.e != h.e && g.v != h.v && g.a != h.a, "every signature is fresh");
                if revoc {
                    let (a, b) = (js(&cr.sig), js(&c2.sig));
                    assert_true(g.m2 != h.m2, "the context depends on the revocation index");
                    let f = |x: &Value, n: &str| -> GroupOrderElement { un(&x["r_credential"][n]) };
                    for n in ["c", "vr_prime_prime", "m2"].iter() {
                        assert_true(f(&a, n) != f(&b, n), "every revocation part is fresh");
                    }
                    assert_true(
                        GroupOrderElement::from_bytes(&h.m2.to_bytes().unwrap()).unwrap() == f(&a, "m2"),
                        "both parts have the same context",
                    );
                } else {
                    assert_true(g.m2 == h.m2, "the context depends on the holder and index only");
                }
                reach("covered");
            }));
        }
    }
    v.push(case("context", || {
        let i = issuer(&["age"], &["ms"], true);
        let mut r = registry(&i, 3, true);
        let val = values(&vals_for(&["age"], &["ms"], "a"));
        let mut seen: Vec<(&str, u32, BigNumber)> = vec![];
        for (who, idx) in [("alice", 0), ("bob", 0), ("alice", 1), ("alice", 2), ("bob", 1), ("", 0), ("alice1", 0)].iter() {
            let n0 = nonce("n0");
            let (bs, _, p) = Prover::blind_credential_secrets(&i.pk, &i.proof, &val, &n0).unwrap();
            let sig = if *idx == 0 {
                Issuer::sign_credential(who, &bs, &p, &n0, &nonce("n1"), &val, &i.pk, &i.sk).unwrap().0
            } else {
                Issuer::sign_credential_with_revoc(
                    who, &bs, &p, &n0, &nonce("n1"), &val, &i.pk, &i.sk, *idx, 3, true, &mut r.reg, &r.key_priv, &r.tails,
                )
                .unwrap()
                .0
            };
            let m2 = num(&js(&sig)["p_credential"]["m_2"]);
            for s in &seen {
                assert_true(m2 != s.2, "different holders or indices have different contexts");
            }
            seen.push((who, *idx, m2));
        }
        reach("context");
    }));
    v.push(case("context of large registries", || {
        // indices around the widths of integers; the tails are not what matters here
        struct One(Tail);
        impl RevocationTailsAccessor for One {
            fn access_tail(&self, _: u32, f: &mut dyn FnMut(&Tail)) -> Result<(), ursa::errors::UrsaCryptoError> {
                f(&self.0);
                Ok(())
            }
        }
        let i = issuer(&["age"], &["ms"], true);
        let most = 20_000_000u32;
        let (_, key_priv, mut reg, mut gen) = Issuer::new_revocation_registry_def(&i.pk, most, false).unwrap();
        let tails = One(gen.try_next().unwrap().unwrap());
        let val = values(&vals_for(&["age"], &["ms"], "a"));
        let mut seen: Vec<(u32, BigNumber)> = vec![];
        for idx in [
            1u32, 2, 127, 128, 129, 255, 256, 257, 32_767, 32_768, 32_769, 65_535, 65_536, 65_537, 16_777_215, 16_777_216,
            16_777_217, 20_000_000,
        ]
        .iter()
        {
            let n0 = nonce("n0");
            let (bs, _, p) = Prover::blind_credential_secrets(&i.pk, &i.proof, &val, &n0).unwrap();
            let s = Issuer::sign_credential_with_revoc(
                "alice", &bs, &p, &n0, &nonce("n1"), &val, &i.pk, &i.sk, *idx, most, false, &mut reg, &key_priv, &tails,
            )
            .unwrap()
            .0;
            let m2 = num(&js(&s)["p_credential"]["m_2"]);
            for s in &seen {
                assert_true(m2 != s.1, "different indices have different contexts");
            }
            seen.push((*idx, m2));
        }
        reach("context");
    }));
    v.push(case("without a base", || {
        // a value for which the key has no base is not signed
        let i = issuer(&["age"], &["ms"], false);
        let val = values(&vals_for(&["age"], &["ms"], "a"));
        let more = values(&vals_for(&["age", "extra"], &["ms"], "a"));
        let n0 = nonce("n0");
        let (bs, _, p) = Prover::blind_credential_secrets(&i.pk, &i.proof, &val, &n0).unwrap();
        let s = Issuer::sign_credential("prover", &bs, &p, &n0, &nonce("n1"), &more, &i.pk, &i.sk);
        assert_true(s.is_err(), "a value without a base is not signed");
        let h = values(&vals_for(&["age"], &["ms", "extra"], "a"));
        let b = Prover::blind_credential_secrets(&i.pk, &i.proof, &h, &n0);
        assert_true(b.is_err(), "a value without a base is not blinded");
        reach("base");
    }));
    let _ = thorough;
    v
}

/// an issued credential, before the holder looked at it
struct Got {
    i: Iss,
    r: Option<Reg>,
    w: Option<Witness>,
    vals: Vals<'static>,
    sig: Value,
    sp: Value,
    f: Value,
    n1: BigNumber,
}
fn got(m: &[(&'static str, K)], revoc: bool) -> Got {
    let i = iss_for(m, revoc);
    let mut r = if revoc { Some(registry(&i, 2, false)) } else { None };
    let val = mixed(m, "a");
    let cv = values(&val);
    let (n0, n1) = (nonce("n0"), nonce("n1"));
    let (bs, f, p) = Prover::blind_credential_secrets(&i.pk, &i.proof, &cv, &n0).unwrap();
    let (sig, sp, w) = match &mut r {
        None => {
            let (a, b) = Issuer::sign_credential("prover", &bs, &p, &n0, &n1, &cv, &i.pk, &i.sk).unwrap();
            (a, b, None)
        }
        Some(r) => {
            let (a, b, d) = Issuer::sign_credential_with_revoc(
                "prover", &bs, &p, &n0, &n1, &cv, &i.pk, &i.sk, 1, 2, false, &mut r.reg, &r.key_priv, &r.tails,
            )
            .unwrap();
            let w = Witness::new(1, 2, false, &d.unwrap(), &r.tails).unwrap();
            (a, b, Some(w))
        }
    };
    Got { sig: js(&sig), sp: js(&sp), f: js(&f), i, r, w, vals: val, n1 }
}
impl Got {
    fn takes(&self, sig: &Value, sp: &Value, n1: &BigNumber) -> bool {
        self.takes_for(sig, sp, n1, &values(&self.vals))
    }
    fn takes_for(&self, sig: &Value, sp: &Value, n1: &BigNumber, cv: &CredentialValues) -> bool {
        let mut s: CredentialSignature = match serde_json::from_value(sig.clone()) {
            Ok(x) => x,
            Err(_) => return false,
        };
        let (sp, f): (SignatureCorrectnessProof, CredentialSecretsBlindingFactors) = (un(sp), un(&self.f));
        let r = self.r.as_ref();
        Prover::process_credential_signature(
            &mut s, cv, &sp, &f, &self.i.pk, n1, r.map(|r| &r.key_pub), r.map(|r| &r.reg), self.w.as_ref(),
        )
        .is_ok()
    }
}
const RPARTS: [&str; 9] = [
    "/sigma", "/c", "/vr_prime_prime", "/witness_signature/sigma_i", "/witness_signature/u_i",
    "/witness_signature/g_i", "/g_i", "/m2", "/both",
];

/// the holder keeps only a signature it can present
pub fn c04(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    for (mi, m) in MIXES.iter().enumerate() {
        let m = *m;
        v.push(case(&format!("honest signature mix={}", mi), move || {
            let g = got(m, pick("revocable", 2) == 1);
            assert_true(g.takes(&g.sig, &g.sp, &g.n1), "an honest signature is accepted");
            for o in other_nonces("n1'", &g.n1) {
                assert_true(!g.takes(&g.sig, &g.sp, &o), "a signature for another nonce is refused");
            }
            reach("honest");
        }));
        v.push(case(&format!("changed signature mix={}", mi), move || {
            let g = got(m, false);
            let k = pk(&g.i.pk);
            let at = ["/p_credential/a", "/p_credential/e", "/p_credential/v", "/p_credential/m_2", "/c", "/se"];
            let a = pick("first", at.len());
            let b = pick("second", at.len());
            if b > a {
                return reach("changed");
            }
            let (mut sig, mut sp) = (g.sig.clone(), g.sp.clone());
            let d = nonzero("d");
            let ch = num(&sp["c"]);
            let mut change = |x: &str, d: &BigNumber| {
                if x == "/p_credential/a" {
                    bump_res(&mut sig, x, &k, d)
                } else if x.starts_with("/p_") {
                    bump(&mut sig, x, d)
                } else {
                    bump(&mut sp, x, d)
                }
            };
            change(at[a], &d);
            if b < a {
                let e = match pick("ratio", 4) {
                    0 => c(&d),
                    1 => sub(&small(0), &d),
                    2 => mul(&ch, &d),
                    _ => mul(&num(&g.sig["p_credential"]["e"]), &d),
                };
                change(at[b], &e);
            }
            assert_true(!g.takes(&sig, &sp, &g.n1), &format!("a changed signature is refused: {} {}", at[a], at[b]));
            reach("changed");
        }));
        v.push(case(&format!("other values mix={}", mi), move || {
            let g = got(m, false);
            let signed: Vec<usize> = (0..m.len()).filter(|i| m[*i].1 != K::Committed).collect();
            let x = signed[pick("which", signed.len())];
            let mut val = mixed(m, "a");
            match pick("how", 3) {
                0 => {
                    let d = int("d", 256);
                    assume_nonzero(id(&d));
                    val[x].2 = add(&val[x].2, &d);
                }
                1 => {
                    assume_nonzero(id(&val[x].2));
                    val.remove(x);
                }
                _ => val.push(("extra", K::Known, int("extra", 256))),
            }
            assert_true(!g.takes_for(&g.sig, &g.sp, &g.n1, &values(&val)), "a signature on other values is refused");
            reach("values");
        }));
        v.push(case(&format!("own signature mix={}", mi), move || {
            // a signer of its own: it knows the orders (it made the key) and signs as it likes
            let g = got(m, false);
            let k = pk(&g.i.pk);
            let f = holder(&un(&g.sig), &g.vals);
            let vp = num(&g.f["v_prime"]);
            let bad = pick("what", 6);
            let e = match bad {
                // smaller and larger than the range
                1 => int("e", 596),
                2 => add(&add(&e_start(), &small(2).exp(&small(119), None).unwrap()), &add(&int("e", 200), &small(1))),
                3 => small(1),
                4 => small(-1),
                // a composite
                5 => small(4),
                _ => add(&e_start(), &int("e", 119)),
            };
            if bad == 1 {
                assume_nonzero(id(&e));
            }
            // Z / (S^v ...) is the e-th power of A: Q is chosen by way of v
            let mut rel = Holder { a: small(1), e: small(0), v: add(&vp, &f.v), m2: c(&f.m2), m: f.m };
            let a;
            if bad >= 3 {
                let q = k.over(&small(1), &rel.relation(&k));
                a = match bad {
                    3 => q,
                    4 => k.over(&small(1), &q),
                    // some fourth root
                    _ => k.pow(&k.s, &int("own.a", 2048)),
                };
            } else {
                a = k.pow(&k.s, &int("own.a", 2048));
            }
            rel.a = c(&a);
            rel.e = c(&e);
            if bad == 0 || bad == 5 {
                // nothing is signed
                assume_nonzero(id(&rel.relation(&k)));
            }
            let q = k.pow(&a, &e);
            let t = int("own.r", 2048);
            let ch = hash1(&[c(&q), c(&a), k.pow(&q, &t), c(&g.n1)]);
            // (c + se e) = t e for a power of A: se = t - c/e
            let se = int("own.se", 2048);
            if bad == 3 || bad == 4 {
                let s = if bad == 3 { sub(&t, &ch) } else { add(&t, &ch) };
                let sig = json!({"p_credential": {"m_2": sdec(&f.m2), "a": sdec(&a), "e": sdec(&e), "v": sdec(&f.v)}, "r_credential": Value::Null});
                let sp = json!({"c": sdec(&ch), "se": sdec(&s)});
                assert_true(!g.takes(&sig, &sp, &g.n1), "a signature with a unit exponent is refused");
            }
            let sig = json!({"p_credential": {"m_2": sdec(&f.m2), "a": sdec(&a), "e": sdec(&e), "v": sdec(&f.v)}, "r_credential": Value::Null});
            let sp = json!({"c": sdec(&ch), "se": sdec(&se)});
            assert_true(!g.takes(&sig, &sp, &g.n1), "what is no signature is refused");
            reach("own");
        }));
    }
    for m in [2usize, 4].iter() {
        let m = MIXES[*m];
        v.push(case(&format!("changed revocation part values={}", m.len()), move || {
            let g = got(m, true);
            assert_true(g.takes(&g.sig, &g.sp, &g.n1), "an honest signature is accepted");
            let part = RPARTS[pick("part", RPARTS.len())];
            let mut s = g.sig.clone();
            let p = |x: &Value| -> Value {
                let y: PointG1 = un(x);
                js(&y.add(&g1("d")).unwrap())
            };
            let p2 = |x: &Value| -> Value {
                let y: PointG2 = un(x);
                js(&y.add(&g2("d")).unwrap())
            };
            let q = |x: &Value| -> Value {
                let y: GroupOrderElement = un(x);
                let f = fe("d");
                assume_nonzero(fe_id(&f));
                js(&y.add_mod(&f).unwrap())
            };
            let r = &mut s["r_credential"];
            match part {
                "/both" => {
                    r["g_i"] = p(&r["g_i"]);
                    r["witness_signature"]["g_i"] = r["g_i"].clone();
                    if pick("sigma", 2) == 1 {
                        r["sigma"] = js(&un::<PointG1>(&r["sigma"]).add(&g1("e")).unwrap());
                    }
                }
                "/sigma" | "/g_i" | "/witness_signature/g_i" => {
                    let x = p(r.pointer(part).unwrap());
                    *r.pointer_mut(part).unwrap() = x;
                }
                "/witness_signature/sigma_i" | "/witness_signature/u_i" => {
                    let x = p2(r.pointer(part).unwrap());
                    *r.pointer_mut(part).unwrap() = x;
                }
                _ => {
                    let x = q(r.pointer(part).unwrap());
                    *r.pointer_mut(part).unwrap() = x;
                }
            }
            assert_true(!g.takes(&s, &g.sp, &g.n1), &format!("a changed revocation part is refused: {}", part));
            reach("revocation");
        }));
        v.push(case(&format!("other registry values={}", m.len()), move || {
            let mut g = got(m, true);
            let o = registry(&g.i, 2, false);
            match pick("what", 4) {
                0 => g.r.as_mut().unwrap().key_pub = o.key_pub.clone(),
                1 => g.r.as_mut().unwrap().reg = o.reg.clone(),
                2 => g.r = Some(o),
                _ => {
                    let x: PointG2 = un(&js(g.w.as_ref().unwrap())["omega"]);
                    g.w = Some(un(&json!({"omega": js(&x.add(&g2("d")).unwrap())})));
                }
            }
            assert_true(!g.takes(&g.sig, &g.sp, &g.n1), "a credential of another registry is refused");
            reach("registry");
        }));
    }
    let _ = thorough;
    v
}
