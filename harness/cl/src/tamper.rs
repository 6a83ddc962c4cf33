//! A presentation in which anything was changed is rejected.
use crate::forge::{c, pk, Pk};
use crate::val::*;
use crate::world::*;
use serde_json::{json, Value};
use symcore::engine::{assert_true, assume_nonzero, case, reach, Case};
use ursa::bn::BigNumber;
use ursa::cl::*;
use ursa::pair::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Int,
    Residue,
    Bytes,
    Scalar,
    G1,
    G2,
    Bound,
    Type,
    Name,
}
type Leaf = (String, Kind);

fn leaves(v: &Value, path: &str, out: &mut Vec<Leaf>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                leaves(x, &format!("{}/{}", path, k), out);
            }
        }
        Value::Array(a) if path.ends_with("/c_list") && a.iter().all(|x| x.is_array()) => {
            for i in 0..a.len() {
                out.push((format!("{}/{}", path, i), Kind::Bytes));
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                leaves(x, &format!("{}/{}", path, i), out);
            }
        }
        Value::Null => (),
        _ => {
            let seg: Vec<&str> = path.split('/').collect();
            let (last, parent) = (seg[seg.len() - 1], seg[seg.len() - 2]);
            let kind = if path.contains("/non_revoc_proof/c_list/") {
                if ["w", "s", "u"].contains(&last) { Kind::G2 } else { Kind::G1 }
            } else if path.contains("/non_revoc_proof/x_list/") {
                Kind::Scalar
            } else if parent == "predicate" {
                match last { "value" => Kind::Bound, "p_type" => Kind::Type, _ => Kind::Name }
            } else if last == "a_prime" || parent == "t" {
                Kind::Residue
            } else {
                Kind::Int
            };
            out.push((path.to_string(), kind));
        }
    }
}
/// add `d` to what a leaf stands for
fn alter(p: &mut Value, l: &Leaf, k: &Pk, d: &BigNumber) -> bool {
    let x = p.pointer_mut(&l.0).unwrap();
    match l.1 {
        Kind::Int => *x = sdec(&add(&num(x), d)),
        Kind::Residue => *x = sdec(&k.times(&num(x), &k.pow(&k.s, d))),
        Kind::Bytes => {
            let b: Vec<u8> = un(x);
            *x = json!(match b.len() {
                128 if l.0.rsplit('/').next().unwrap().parse::<usize>().unwrap() >= 4 => PointG2::from_bytes(&b).unwrap().add(&g2("dg")).unwrap().to_bytes().unwrap(),
                128 => PointG1::from_bytes(&b).unwrap().add(&g1("dg")).unwrap().to_bytes().unwrap(),
                _ => k.times(&BigNumber::from_bytes(&b).unwrap(), &k.pow(&k.s, d)).to_bytes().unwrap(),
            });
        }
        Kind::Scalar => {
            let f = fe("df");
            assume_nonzero(fe_id(&f));
            let y: GroupOrderElement = un(x);
            *x = js(&y.add_mod(&f).unwrap());
        }
        Kind::G1 => {
            let y: PointG1 = un(x);
            *x = js(&y.add(&g1("dg")).unwrap());
        }
        Kind::G2 => {
            let y: PointG2 = un(x);
            *x = js(&y.add(&g2("dg")).unwrap());
        }
        Kind::Bound => {
            let v = x.as_i64().unwrap();
            *x = json!([v + 1, v - 1, -v, 0][pick("bound", 4)]);
        }
        Kind::Type => {
            let t: Vec<&str> = ["GE", "GT", "LE", "LT"].iter().cloned().filter(|t| Some(*t) != x.as_str()).collect();
            *x = json!(t[pick("type", 3)]);
        }
        Kind::Name => {
            *x = json!(["name", "ms", "none"][pick("attribute", 3)]);
        }
    }
    true
}
pub fn setup(revoc: bool) -> (Iss, Option<Reg>, Cred) {
    let i = issuer(&["age", "name"], &["ms"], revoc);
    let mut r = if revoc { Some(registry(&i, 2, false)) } else { None };
    let v = vec![
        ("age", K::Known, small(28)),
        ("name", K::Known, int("name", 256)),
        ("ms", K::Hidden, int("ms", 256)),
    ];
    let cr = issue(&i, &v, "a", r.as_mut().map(|r| (r, 1)));
    (i, r, cr)
}
pub fn judge(parts: &[Part], common: &[&str], p: &Value, n: &BigNumber) -> bool {
    match serde_json::from_value::<Proof>(p.clone()) {
        Ok(p) => accepts(&mut verifier(parts, common), &p, n),
        Err(_) => false,
    }
}
fn scenario(revoc: bool, preds: &[Pred], f: impl FnOnce(&[Part], &Pk, Value, &BigNumber)) {
    let (i, r, cr) = setup(revoc);
    let n = nonce("n");
    let parts = [Part { i: &i, c: &cr, q: request(&["name"], preds), r: r.as_ref() }];
    let p = js(&prove(&parts, &[], &n).unwrap());
    let k = pk(&i.pk);
    f(&parts, &k, p, &n);
}
const PREDS: [&[Pred<'static>]; 3] = [&[], &[("age", "GE", 18)], &[("age", "LT", 65)]];

pub fn c13(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    for revoc in &[false, true] {
        for (pi, preds) in PREDS.iter().enumerate() {
            let (revoc, preds) = (*revoc, *preds);
            v.push(case(&format!("one value changed revocable={} predicates={}", revoc, pi), move || {
                scenario(revoc, preds, |parts, k, mut p, n| {
                    let mut ls = vec![];
                    leaves(&p, "", &mut ls);
                    let l = &ls[pick("leaf", ls.len())];
                    let d = any("d");
                    assume_nonzero(id(&d));
                    if alter(&mut p, l, k, &d) {
                        assert_true(!judge(parts, &[], &p, n), &format!("a changed value is rejected: {}", l.0));
                        reach("rejected");
                    }
                });
            }));
            // the same change at two places, as it is, negated, or multiplied by the challenge
            let ratios = if thorough { 4 } else { 2 };
            for half in 0..if pi == 0 { 1 } else { 6 } {
            v.push(case(&format!("two values changed revocable={} predicates={} block={}", revoc, pi, half), move || {
                scenario(revoc, preds, |parts, k, mut p, n| {
                    let mut ls = vec![];
                    leaves(&p, "", &mut ls);
                    ls.retain(|l| l.1 == Kind::Int || l.1 == Kind::Residue);
                    if !thorough {
                        ls.retain(|l| !l.0.contains("/u/") && !l.0.ends_with("/r/1") && !l.0.ends_with("/r/2") && !l.0.ends_with("/r/3"));
                    }
                    let a = pick("first", ls.len());
                    if pi > 0 && a % 6 != half {
                        return;
                    }
                    let b = pick("second", ls.len());
                    if a >= b && !thorough || a == b {
                        reach("rejected");
                        return;
                    }
                    let d = any("d");
                    assume_nonzero(id(&d));
                    let ch = num(&p["aggregated_proof"]["c_hash"]);
                    let e = match pick("ratio", ratios) {
                        0 => c(&d),
                        1 => sub(&small(0), &d),
                        2 => mul(&ch, &d),
                        _ => sub(&small(0), &mul(&ch, &d)),
                    };
                    alter(&mut p, &ls[a], k, &d);
                    alter(&mut p, &ls[b], k, &e);
                    assert_true(!judge(parts, &[], &p, n), &format!("changed values are rejected: {} {}", ls[a].0, ls[b].0));
                    reach("rejected");
                });
            }));
            }
            v.push(case(&format!("part removed or added revocable={} predicates={}", revoc, pi), move || {
                scenario(revoc, preds, |parts, _, mut p, n| {
                    // every map entry removed, every list entry removed or doubled, unknown entries added
                    let mut at: Vec<(String, usize)> = vec![];
                    fn walk(v: &Value, path: &str, at: &mut Vec<(String, usize)>) {
                        match v {
                            Value::Object(m) => {
                                for (k, x) in m {
                                    if !x.is_null() {
                                        at.push((format!("{}/{}", path, k), 0));
                                    }
                                    walk(x, &format!("{}/{}", path, k), at);
                                }
                            }
                            Value::Array(a) if a.iter().all(|x| !x.is_number()) => {
                                for (i, x) in a.iter().enumerate() {
                                    at.push((format!("{}/{}", path, i), 1));
                                    at.push((format!("{}/{}", path, i), 2));
                                    if i + 1 < a.len() {
                                        at.push((format!("{}/{}", path, i), 3));
                                    }
                                    walk(x, &format!("{}/{}", path, i), at);
                                }
                            }
                            _ => (),
                        }
                    }
                    walk(&p, "", &mut at);
                    let (path, how) = at[pick("part", at.len())].clone();
                    let cut = path.rfind('/').unwrap();
                    let (dir, last) = (path[..cut].to_string(), path[cut + 1..].to_string());
                    let x = p.pointer_mut(&dir).unwrap();
                    match how {
                        0 => {
                            x.as_object_mut().unwrap().remove(&last);
                        }
                        1 => {
                            x.as_array_mut().unwrap().remove(last.parse().unwrap());
                        }
                        2 => {
                            let i: usize = last.parse().unwrap();
                            let y = x[i].clone();
                            x.as_array_mut().unwrap().insert(i, y);
                        }
                        _ => {
                            let i: usize = last.parse().unwrap();
                            x.as_array_mut().unwrap().swap(i, i + 1);
                        }
                    }
                    assert_true(!judge(parts, &[], &p, n), &format!("a rearranged proof is rejected: {} {}", path, how));
                    reach("rejected");
                });
            }));
            v.push(case(&format!("other request revocable={} predicates={}", revoc, pi), move || {
                let (i, r, cr) = setup(revoc);
                let n = nonce("n");
                let parts = [Part { i: &i, c: &cr, q: request(&["name"], preds), r: r.as_ref() }];
                let p = js(&prove(&parts, &[], &n).unwrap());
                let more: Vec<Pred> = preds.iter().cloned().chain(Some(("age", "GT", 3))).collect();
                let q = match pick("request", 6) {
                    0 => request(&[], preds),
                    1 => request(&["age"], if preds.is_empty() { preds } else { &[] }),
                    2 => request(&["age", "name"], &[]),
                    3 => request(&["name"], &more),
                    4 => request(&["name"], &[("age", "GE", 19)]),
                    _ => request(&["name"], if preds.is_empty() { &[("age", "LE", 30)] } else { &[] }),
                };
                let parts = [Part { i: &i, c: &cr, q, r: r.as_ref() }];
                assert_true(!judge(&parts, &[], &p, &n), "a presentation for another request is rejected");
                reach("rejected");
            }));
            v.push(case(&format!("other verifier data revocable={} predicates={}", revoc, pi), move || {
                let (i, r, cr) = setup(revoc);
                let n = nonce("n");
                let parts = [Part { i: &i, c: &cr, q: request(&["name"], preds), r: r.as_ref() }];
                let p = js(&prove(&parts, &[], &n).unwrap());
                let j = issuer(&["age", "name"], &["ms"], revoc);
                let mut other = None;
                let (iss, reg, ns) = match pick("what", if revoc { 5 } else { 2 }) {
                    0 => (&j, r.as_ref(), vec![c(&n)]),
                    1 => {
                        (&i, r.as_ref(), other_nonces("m", &n))
                    }
                    2 => {
                        // another registry of the issuer, at the same state
                        let mut g = registry(&i, 2, false);
                        let v = vec![("age", K::Known, small(28)), ("name", K::Known, int("nb", 256)), ("ms", K::Hidden, int("mb", 256))];
                        issue(&i, &v, "b", Some((&mut g, 1)));
                        other = Some(g);
                        (&i, other.as_ref(), vec![c(&n)])
                    }
                    3 => {
                        // the registry, with another registry's key
                        let mut g = registry(&i, 2, false);
                        g.reg = r.as_ref().unwrap().reg.clone();
                        other = Some(g);
                        (&i, other.as_ref(), vec![c(&n)])
                    }
                    _ => {
                        // the registry's key, with another accumulator
                        let mut g = registry(&i, 2, false);
                        g.key_pub = r.as_ref().unwrap().key_pub.clone();
                        other = Some(g);
                        (&i, other.as_ref(), vec![c(&n)])
                    }
                };
                let parts = [Part { i: iss, c: &cr, q: request(&["name"], preds), r: reg }];
                for n2 in ns {
                    assert_true(!judge(&parts, &[], &p, &n2), "a presentation for other keys, registries or nonces is rejected");
                }
                reach("rejected");
                let _ = other;
            }));
        }
    }
    // sub proofs of one presentation are not interchangeable, and none is taken from another
    for common in &[false, true] {
        let common = *common;
        v.push(case(&format!("sub proofs exchanged common={}", common), move || {
            let (i, _, c1) = setup(false);
            let v2 = vec![("age", K::Known, small(28)), ("name", K::Known, int("name2", 256)), ("ms", K::Hidden, c(&int("ms2", 256)))];
            let _ = &v2;
            let c2 = issue(&i, &v2, "b", None);
            let n = nonce("n");
            let cm: &[&str] = if common { &["ms"] } else { &[] };
            let part = |x| Part { i: &i, c: x, q: request(&["name"], &[("age", "GE", 18)]), r: None };
            let p1 = js(&prove(&[part(&c1), part(&c2)], &[], &n).unwrap());
            let p2 = js(&prove(&[part(&c2), part(&c1)], &[], &n).unwrap());
            let mut p = p1.clone();
            match pick("how", 5) {
                0 => p["proofs"].as_array_mut().unwrap().swap(0, 1),
                1 => p["proofs"][1] = p1["proofs"][0].clone(),
                2 => p["proofs"][1] = p2["proofs"][0].clone(),
                3 => p["aggregated_proof"] = p2["aggregated_proof"].clone(),
                _ => {
                    let a = p["proofs"][0]["primary_proof"]["ge_proofs"].clone();
                    p["proofs"][1]["primary_proof"]["ge_proofs"] = a;
                }
            }
            assert_true(!judge(&[part(&c1), part(&c2)], cm, &p, &n), "sub proofs are not interchangeable");
            reach("rejected");
        }));
    }
    v
}
