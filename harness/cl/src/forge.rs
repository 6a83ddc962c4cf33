//! A prover of its own, for presentations the library would not make.
use crate::val::*;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use ursa::bn::BigNumber;
use ursa::cl::*;

pub type Map = BTreeMap<String, BigNumber>;
pub struct Pk {
    pub n: BigNumber,
    pub s: BigNumber,
    pub z: BigNumber,
    pub rctxt: BigNumber,
    pub r: Map,
}
pub fn pk(p: &CredentialPublicKey) -> Pk {
    let j = js(p);
    let k = &j["p_key"];
    Pk {
        n: num(&k["n"]),
        s: num(&k["s"]),
        z: num(&k["z"]),
        rctxt: num(&k["rctxt"]),
        r: k["r"].as_object().unwrap().iter().map(|(a, v)| (a.clone(), num(v))).collect(),
    }
}
impl Pk {
    pub fn pow(&self, b: &BigNumber, e: &BigNumber) -> BigNumber {
        b.mod_exp(e, &self.n, None).unwrap()
    }
    pub fn times(&self, a: &BigNumber, b: &BigNumber) -> BigNumber {
        a.mod_mul(b, &self.n, None).unwrap()
    }
    /// Z^a S^b
    pub fn zs(&self, a: &BigNumber, b: &BigNumber) -> BigNumber {
        self.times(&self.pow(&self.z, a), &self.pow(&self.s, b))
    }
    pub fn over(&self, a: &BigNumber, b: &BigNumber) -> BigNumber {
        a.mod_div(b, &self.n, None).unwrap()
    }
}
/// what a credential consists of
pub struct Holder {
    pub a: BigNumber,
    pub e: BigNumber,
    pub v: BigNumber,
    pub m2: BigNumber,
    pub m: Map,
}
pub fn c(b: &BigNumber) -> BigNumber {
    b.try_clone().unwrap()
}
pub fn holder(sig: &CredentialSignature, v: &Vals) -> Holder {
    let j = js(sig);
    let p = &j["p_credential"];
    Holder {
        a: num(&p["a"]),
        e: num(&p["e"]),
        v: num(&p["v"]),
        m2: num(&p["m_2"]),
        m: v.iter().filter(|x| x.1 != K::Committed).map(|x| (x.0.to_string(), c(&x.2))).collect(),
    }
}
impl Holder {
    /// A^e S^v Rctxt^m2 prod R_i^m_i / Z, which is 1 for a signature
    pub fn relation(&self, k: &Pk) -> BigNumber {
        let mut t = k.times(&k.pow(&self.a, &self.e), &k.pow(&k.s, &self.v));
        t = k.times(&t, &k.pow(&k.rctxt, &self.m2));
        for (a, m) in &self.m {
            t = k.times(&t, &k.pow(&k.r[a], m));
        }
        k.over(&t, &k.z)
    }
}
pub struct Pr {
    pub attr: String,
    pub typ: String,
    pub bound: i32,
    pub less: bool,
    pub u: Vec<BigNumber>,
    pub delta: BigNumber,
    /// the value the predicate is shown for, with its blinding, when it is not the attribute
    pub other: Option<(BigNumber, BigNumber)>,
}
pub fn pr(attr: &str, typ: &str, bound: i32, u: Vec<BigNumber>, delta: BigNumber) -> Pr {
    Pr {
        attr: attr.into(),
        typ: typ.into(),
        bound,
        less: typ == "LE" || typ == "LT",
        u,
        delta,
        other: None,
    }
}
pub fn hash(v: &[BigNumber]) -> BigNumber {
    let b: Vec<Vec<u8>> = v.iter().map(|x| x.to_bytes().unwrap()).collect();
    BigNumber::from_bytes(&BigNumber::hash_array(&b).unwrap()).unwrap()
}
fn dmap(m: &Map) -> Value {
    Value::Object(m.iter().map(|(k, v)| (k.clone(), sdec(v))).collect())
}
pub fn e_start() -> BigNumber {
    small(2).exp(&small(596), None).unwrap()
}
/// A presentation of one credential.  Every blinding value is arbitrary.
pub fn forge(k: &Pk, h: &Holder, revealed: &[&str], preds: &[Pr], nonce: &BigNumber) -> Value {
    forge_many(&[Piece { k, h, revealed, preds }], &Map::new(), nonce)
}
pub struct Piece<'a> {
    pub k: &'a Pk,
    pub h: &'a Holder,
    pub revealed: &'a [&'a str],
    pub preds: &'a [Pr],
}
/// `shared`: blinding values that all the credentials use
pub fn forge_many(pieces: &[Piece], shared: &Map, nonce: &BigNumber) -> Value {
    let s: Vec<Map> = pieces.iter().map(|_| shared.iter().map(|(a, v)| (a.clone(), c(v))).collect()).collect();
    forge_each(pieces, &s, nonce)
}
/// given blinding values for some attributes of each credential
pub fn forge_each(pieces: &[Piece], given: &[Map], nonce: &BigNumber) -> Value {
    let start = e_start();
    let mut tau = vec![];
    let mut cl = vec![];
    let mut inits = vec![];
    for (ci, Piece { k, h, revealed, preds }) in pieces.iter().enumerate() {
        let nm = |x: &str| if ci == 0 { format!("f.{}", x) } else { format!("f{}.{}", ci, x) };
        let r = int(&nm("r"), 2128);
        let et = int(&nm("et"), 456);
        let vt = int(&nm("vt"), 3060);
        let m2t = int(&nm("m2t"), 592);
        let hidden: Vec<String> = h.m.keys().filter(|a| !revealed.contains(&a.as_str())).cloned().collect();
        let mt: Map = hidden
            .iter()
            .map(|a| {
                let t = given[ci].get(a).map(c).unwrap_or_else(|| int(&nm(&format!("mt.{}", a)), 592));
                (a.clone(), t)
            })
            .collect();
        let ap = k.times(&h.a, &k.pow(&k.s, &r));
        let vp = sub(&h.v, &mul(&h.e, &r));
        let ep = sub(&h.e, &start);
        let mut t = k.times(&k.pow(&ap, &et), &k.pow(&k.s, &vt));
        t = k.times(&t, &k.pow(&k.rctxt, &m2t));
        for (a, x) in &mt {
            t = k.times(&t, &k.pow(&k.r[a], x));
        }
        tau.push(t);
        cl.push(c(&ap));
        let mut pi = vec![];
        for (i, p) in preds.iter().enumerate() {
            let nm = |x: &str| nm(&format!("p{}.{}", i, x));
            let rr: Vec<BigNumber> = (0..5).map(|j| int(&nm(&format!("r{}", j)), 2128)).collect();
            let ut: Vec<BigNumber> = (0..4).map(|j| int(&nm(&format!("ut{}", j)), 592)).collect();
            let rt: Vec<BigNumber> = (0..5).map(|j| int(&nm(&format!("rt{}", j)), 672)).collect();
            let at = int(&nm("at"), 2787);
            let ts: Vec<BigNumber> = (0..4).map(|j| k.zs(&p.u[j], &rr[j])).collect();
            let td = k.zs(&p.delta, &rr[4]);
            for j in 0..4 {
                tau.push(k.zs(&ut[j], &rt[j]));
            }
            let mjt = match &p.other {
                Some(o) => c(&o.1),
                None => mt.get(&p.attr).map(c).unwrap_or_else(|| int("f.mj", 592)),
            };
            let sd = if p.less { sub(&small(0), &rt[4]) } else { c(&rt[4]) };
            tau.push(k.zs(&mjt, &sd));
            let mut q = k.pow(&k.s, &at);
            for j in 0..4 {
                q = k.times(&q, &k.pow(&ts[j], &ut[j]));
            }
            tau.push(q);
            for x in &ts {
                cl.push(c(x));
            }
            cl.push(c(&td));
            pi.push((rr, ut, rt, at, ts, td, mjt));
        }
        inits.push((et, vt, m2t, hidden, mt, ap, vp, ep, pi));
    }
    let mut all: Vec<BigNumber> = tau.iter().map(c).collect();
    all.extend(cl.iter().map(c));
    all.push(c(nonce));
    let ch = hash(&all);
    let resp = |x: &BigNumber, t: &BigNumber| add(t, &mul(&ch, x));
    let mut proofs = vec![];
    for (Piece { h, revealed, preds, .. }, (et, vt, m2t, hidden, mt, ap, vp, ep, pi)) in pieces.iter().zip(inits) {
        let m_hat: Map = hidden.iter().map(|a| ((*a).clone(), resp(&h.m[a], &mt[a]))).collect();
        let rev: Map = h
            .m
            .iter()
            .filter(|(a, _)| revealed.contains(&a.as_str()))
            .map(|(a, v)| (a.clone(), c(v)))
            .collect();
        let mut ge = vec![];
        for (p, (rr, ut, rt, at, ts, td, mjt)) in preds.iter().zip(pi) {
            let mut u = Map::new();
            let mut r = Map::new();
            let mut t = Map::new();
            let mut ur = small(0);
            for j in 0..4 {
                u.insert(j.to_string(), resp(&p.u[j], &ut[j]));
                r.insert(j.to_string(), resp(&rr[j], &rt[j]));
                t.insert(j.to_string(), c(&ts[j]));
                ur = add(&ur, &mul(&p.u[j], &rr[j]));
            }
            r.insert("DELTA".into(), resp(&rr[4], &rt[4]));
            t.insert("DELTA".into(), td);
            let alpha = add(&at, &mul(&ch, &sub(&rr[4], &ur)));
            let mj = match &p.other {
                Some(o) => resp(&o.0, &o.1),
                None => resp(&h.m[&p.attr], &mjt),
            };
            ge.push(json!({"u": dmap(&u), "r": dmap(&r), "mj": sdec(&mj), "alpha": sdec(&alpha),
                "t": dmap(&t), "predicate": {"attr_name": p.attr, "p_type": p.typ, "value": p.bound}}));
        }
        proofs.push(json!({
            "primary_proof": {
                "eq_proof": {
                    "revealed_attrs": dmap(&rev), "a_prime": sdec(&ap),
                    "e": sdec(&resp(&ep, &et)), "v": sdec(&resp(&vp, &vt)),
                    "m": dmap(&m_hat), "m2": sdec(&resp(&h.m2, &m2t))
                },
                "ge_proofs": ge
            },
            "non_revoc_proof": Value::Null
        }));
    }
    let list: Vec<Value> = cl.iter().map(|x| json!(x.to_bytes().unwrap())).collect();
    json!({
        "proofs": proofs,
        "aggregated_proof": {"c_hash": sdec(&ch), "c_list": list}
    })
}
/// tails 0..=2L
pub fn num_of_tails(max: u32) -> u32 {
    2 * max + 1
}
