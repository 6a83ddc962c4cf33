//! Revocation: histories of a registry, deltas, and what a revoked holder can show.
use crate::forge::{c, num_of_tails};
use crate::tamper::judge;
use crate::val::*;
use crate::world::*;
use serde_json::Value;
use std::collections::{BTreeSet, HashSet};
use symcore::engine::{assert_true, assume_nonzero, case, reach, Case};
use ursa::cl::issuer::Issuer;
use ursa::cl::*;
use ursa::pair::*;

fn vals(tag: &str) -> Vals<'static> {
    vec![
        ("age", K::Known, small(28)),
        ("name", K::Known, int(&format!("name.{}", tag), 256)),
        ("ms", K::Hidden, int(&format!("ms.{}", tag), 256)),
    ]
}
fn accum(r: &RevocationRegistry) -> PointG2 {
    un(&js(r)["accum"])
}
fn omega(w: &Witness) -> PointG2 {
    un(&js(w)["omega"])
}
fn same(a: &PointG2, b: &PointG2) -> bool {
    a == b
}
fn tail(r: &Reg, i: u32) -> PointG2 {
    let mut t = None;
    r.tails.access_tail(i, &mut |x| t = Some(x.clone())).unwrap();
    t.unwrap()
}
fn sets(d: &RevocationRegistryDelta) -> (BTreeSet<u32>, BTreeSet<u32>) {
    let j = js(d);
    let f = |k: &str| -> BTreeSet<u32> {
        j.get(k).map(|x| x.as_array().unwrap().iter().map(|y| y.as_u64().unwrap() as u32).collect()).unwrap_or_default()
    };
    (f("issued"), f("revoked"))
}
fn none_delta(r: &Reg) -> RevocationRegistryDelta {
    RevocationRegistryDelta::from_parts(None, &r.reg, &HashSet::new(), &HashSet::new())
}
/// a registry with its history
struct Hist {
    i: Iss,
    r: Reg,
    /// indices in the accumulator
    live: BTreeSet<u32>,
    signed: BTreeSet<u32>,
    /// everything since the registry was made
    total: RevocationRegistryDelta,
    /// everything since the watched credential was made
    since: Option<RevocationRegistryDelta>,
    start: BTreeSet<u32>,
    /// everything is read back from its serialised form
    stored: bool,
}
impl Hist {
    fn new(max: u32, default: bool) -> Hist {
        let i = issuer(&["age", "name"], &["ms"], true);
        let r = registry(&i, max, default);
        let total = none_delta(&r);
        let live = if default { (1..=max).collect() } else { BTreeSet::new() };
        Hist { i, r, start: BTreeSet::new(), live, signed: BTreeSet::new(), total, since: None, stored: false }
    }
    fn happened(&mut self, d: &RevocationRegistryDelta, w: &mut Option<(u32, Witness)>) {
        let sent: RevocationRegistryDelta;
        let mut d = d;
        if self.stored {
            sent = un(&js(d));
            d = &sent;
            self.total = un(&js(&self.total));
            self.r.reg = un(&js(&self.r.reg));
            self.r.key_pub = un(&js(&self.r.key_pub));
            self.r.key_priv = un(&js(&self.r.key_priv));
            self.since = self.since.as_ref().map(|s| un(&js(s)));
            if let Some((_, w)) = w {
                *w = un(&js(w));
            }
        }
        let before = self.total.clone();
        self.total.merge(d).unwrap();
        // a delta that does not follow is refused and changes nothing
        if !same(&un::<PointG2>(&js(d)["accum"]), &un::<PointG2>(&js(d)["prevAccum"])) {
            let mut t = before;
            let mut later = d.clone();
            later.merge(d).map(|_| ()).unwrap_err();
            t.merge(&d.clone()).unwrap();
        }
        if let Some(s) = &mut self.since {
            s.merge(d).unwrap();
        } else if w.is_some() {
            self.since = Some(d.clone());
        }
        if let Some((i, w)) = w {
            w.update(*i, self.r.max, d, &self.r.tails).unwrap();
        }
    }
    fn sign(&mut self, idx: u32, tag: &str, w: &mut Option<(u32, Witness)>) -> Cred {
        let live = self.live.contains(&idx);
        let cr = issue_at(&self.i, &vals(tag), tag, &mut self.r, idx, &self.total);
        self.signed.insert(idx);
        if !live {
            self.live.insert(idx);
            let d = cr.delta.as_ref().unwrap();
            self.happened(d, w);
        }
        cr
    }
    fn ops(&self) -> usize {
        self.r.max as usize + (1 << self.r.max)
    }
    fn step(&mut self, op: usize, w: &mut Option<(u32, Witness)>) {
        let max = self.r.max;
        if op < max as usize {
            let idx = op as u32 + 1;
            if self.live.contains(&idx) {
                let d = Issuer::revoke_credential(&mut self.r.reg, max, idx, &self.r.tails).unwrap();
                self.live.remove(&idx);
                self.happened(&d, w);
            } else if !self.signed.contains(&idx) && !self.r.default {
                self.sign(idx, &format!("s{}", idx), w);
            } else {
                let d = Issuer::recovery_credential(&mut self.r.reg, max, idx, &self.r.tails).unwrap();
                self.live.insert(idx);
                self.happened(&d, w);
            }
            return;
        }
        let set = op - max as usize;
        let (mut issued, mut revoked) = (BTreeSet::new(), BTreeSet::new());
        for idx in 1..=max {
            if set >> (idx - 1) & 1 == 1 {
                if self.live.remove(&idx) {
                    revoked.insert(idx);
                } else {
                    self.live.insert(idx);
                    issued.insert(idx);
                }
            }
        }
        let d = Issuer::update_revocation_registry(&mut self.r.reg, max, issued, revoked, &self.r.tails).unwrap();
        self.happened(&d, w);
    }
}
/// issuance, with the witness made from everything that happened
fn issue_at(i: &Iss, v: &Vals, tag: &str, r: &mut Reg, idx: u32, total: &RevocationRegistryDelta) -> Cred {
    use ursa::cl::prover::Prover;
    let vals = values(v);
    let n0 = nonce(&format!("{}.n0", tag));
    let n1 = nonce(&format!("{}.n1", tag));
    let (bs, f, p) = Prover::blind_credential_secrets(&i.pk, &i.proof, &vals, &n0).unwrap();
    let (mut sig, sp, delta) = Issuer::sign_credential_with_revoc(
        "prover", &bs, &p, &n0, &n1, &vals, &i.pk, &i.sk, idx, r.max, r.default, &mut r.reg, &r.key_priv, &r.tails,
    )
    .unwrap();
    let mut d = total.clone();
    if let Some(x) = &delta {
        d.merge(x).unwrap();
    }
    let w = Witness::new(idx, r.max, r.default, &d, &r.tails).unwrap();
    Prover::process_credential_signature(&mut sig, &vals, &sp, &f, &i.pk, &n1, Some(&r.key_pub), Some(&r.reg), Some(&w)).unwrap();
    Cred { vals, sig, idx, witness: Some(w), delta }
}
fn shows(h: &Hist, cr: &Cred, w: &Witness, n: &str) -> bool {
    let n = nonce(n);
    let cr2 = Cred { vals: cr.vals.try_clone().unwrap(), sig: cr.sig.try_clone().unwrap(), idx: cr.idx, witness: Some(w.clone()), delta: None };
    let parts = [Part { i: &h.i, c: &cr2, q: request(&["name"], &[]), r: Some(&h.r) }];
    match prove(&parts, &[], &n) {
        Ok(p) => accepts(&mut verifier(&parts, &[]), &p, &n),
        Err(_) => false,
    }
}

/// one history of a registry, and what its credentials can show after it
pub fn history(max: u32, default: bool, idx: u32, len: usize, stored: bool) {
    let mut h = Hist::new(max, default);
    h.stored = stored;
    let mut w: Option<(u32, Witness)> = None;
    // something may have happened before the credential is issued
    let first = pick("before", h.ops());
    let touched = if first < max as usize { first as u32 + 1 == idx } else { (first - max as usize) >> (idx - 1) & 1 == 1 };
    if touched {
        return;
    }
    h.step(first, &mut w);
    let mut cr = h.sign(idx, "holder", &mut w);
    if stored {
        cr.sig = un(&js(&cr.sig));
        cr.witness = cr.witness.as_ref().map(|w| un(&js(w)));
    }
    let early = cr.witness.clone().unwrap();
    h.start = h.live.clone();
    w = Some((idx, early.clone()));
    for s in 0..len {
        let op = pick(&format!("step {}", s), h.ops());
        h.step(op, &mut w);
    }
    let w = w.unwrap().1;
    // the accumulator is the sum of the tails of the live indices
    let mut acc = PointG2::new_inf().unwrap();
    let mut wit = PointG2::new_inf().unwrap();
    for j in h.live.iter() {
        acc = acc.add(&tail(&h.r, max + 1 - j)).unwrap();
        if *j != idx {
            wit = wit.add(&tail(&h.r, max + 1 - j + idx)).unwrap();
        }
    }
    assert_true(same(&acc, &accum(&h.r.reg)), "the accumulator holds exactly the indices that are not revoked");
    assert_true(same(&wit, &omega(&w)), "a witness that follows every delta is that of the current registry");
    let fresh = Witness::new(idx, max, default, &h.total, &h.r.tails).unwrap();
    assert_true(same(&wit, &omega(&fresh)), "a witness from the merged delta is that of the current registry");
    let mut late = early.clone();
    if let Some(s) = &h.since {
        late.update(idx, max, s, &h.r.tails).unwrap();
    }
    assert_true(same(&wit, &omega(&late)), "a witness that follows the merged delta is that of the current registry");
    let live = h.live.contains(&idx);
    assert_true(shows(&h, &cr, &w, "n") == live, "accepted exactly when not revoked");
    if !same(&omega(&early), &omega(&w)) || !live {
        assert_true(!shows(&h, &cr, &early, "n2"), "an outdated witness is rejected");
    }
    reach(if live { "live" } else { "revoked" });
}

/// C07: after any history, exactly the credentials in the registry are shown as not revoked
pub fn c07(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    let maxes: &[u32] = if thorough { &[1, 2, 3, 4] } else { &[2, 3] };
    for &max in maxes {
        for default in &[false, true] {
            let default = *default;
            for idx in 1..=max {
                let len = match (thorough, max) { (true, 1) | (true, 2) => 4, (true, 3) => 2, (true, _) => 2, (false, 2) => 3, _ => 1 };
                v.push(case(&format!("history max={} default={} index={}", max, default, idx), move || history(max, default, idx, len, false)));
            }
        }
    }
    v
}

/// C08: merging deltas is doing one after the other
pub fn c08(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    for default in &[false, true] {
        let default = *default;
        let (max, len) = if thorough { (3, 3) } else { (2, 4) };
        v.push(case(&format!("merge default={}", default), move || {
            let mut h = Hist::new(max, default);
            let mut ds: Vec<RevocationRegistryDelta> = vec![];
            let mut states = vec![h.live.clone()];
            for s in 0..len {
                let op = pick(&format!("step {}", s), 1 << max);
                let before = h.total.clone();
                let _ = before;
                let r0 = h.r.reg.clone();
                let l0 = h.live.clone();
                h.step(max as usize + op, &mut None);
                let issued: HashSet<u32> = h.live.difference(&l0).cloned().collect();
                let revoked: HashSet<u32> = l0.difference(&h.live).cloned().collect();
                ds.push(RevocationRegistryDelta::from_parts(Some(&r0), &h.r.reg, &issued, &revoked));
                states.push(h.live.clone());
            }
            for a in 0..len {
                for b in a + 1..=len {
                    let mut d = ds[a].clone();
                    for x in &ds[a + 1..b] {
                        d.merge(x).unwrap();
                    }
                    let (i, r) = sets(&d);
                    let want_i: BTreeSet<u32> = states[b].difference(&states[a]).cloned().collect();
                    let want_r: BTreeSet<u32> = states[a].difference(&states[b]).cloned().collect();
                    assert_true(i == want_i && r == want_r, "a merged delta lists exactly what changed");
                    // grouped the other way
                    if b - a == 3 {
                        let mut e = ds[a + 1].clone();
                        e.merge(&ds[a + 2]).unwrap();
                        let mut f = ds[a].clone();
                        f.merge(&e).unwrap();
                        assert_true(sets(&f) == (i, r), "merging does not depend on grouping");
                    }
                }
            }
            let reg: RevocationRegistry = h.total.clone().into();
            assert_true(same(&accum(&reg), &accum(&h.r.reg)), "the merged delta ends at the registry");
            reach("merged");
        }));
        v.push(case(&format!("does not follow default={}", default), move || {
            let mut h = Hist::new(3, default);
            let r0 = h.r.reg.clone();
            h.step(0, &mut None);
            let r1 = h.r.reg.clone();
            h.step(1, &mut None);
            let r2 = h.r.reg.clone();
            let e = HashSet::new();
            let d = |a: Option<&RevocationRegistry>, b: &RevocationRegistry| RevocationRegistryDelta::from_parts(a, b, &e, &e);
            let mut x = d(Some(&r0), &r1);
            for bad in [d(Some(&r0), &r2), d(Some(&r2), &r1), d(None, &r2)].iter() {
                let before = js(&x).to_string();
                assert_true(x.merge(bad).is_err(), "a delta that does not follow is refused");
                assert_true(js(&x).to_string() == before, "a refused merge changes nothing");
            }
            assert_true(x.merge(&d(Some(&r1), &r2)).is_ok(), "a delta that follows is merged");
            reach("refused");
        }));
    }
    v.push(case("indices out of range", || {
        let mut h = Hist::new(2, true);
        h.step(2 + 1, &mut None);
        let before = accum(&h.r.reg);
        let idx = [0u32, 3, 4, 5, 1 << 31, u32::max_value()][pick("index", 6)];
        let one = |x: u32| -> BTreeSet<u32> { vec![1, x].into_iter().collect() };
        let none = BTreeSet::new();
        let r = &mut h.r;
        let ok = match pick("operation", 6) {
            0 => Issuer::revoke_credential(&mut r.reg, 2, idx, &r.tails).is_ok(),
            1 => Issuer::recovery_credential(&mut r.reg, 2, idx, &r.tails).is_ok(),
            2 => Issuer::update_revocation_registry(&mut r.reg, 2, one(idx), none, &r.tails).is_ok(),
            3 => Issuer::update_revocation_registry(&mut r.reg, 2, none, one(idx), &r.tails).is_ok(),
            4 => {
                let d = RevocationRegistryDelta::from_parts(None, &r.reg, &one(idx).into_iter().collect(), &HashSet::new());
                Witness::new(1, 2, false, &d, &r.tails).is_ok()
            }
            _ => Witness::new(idx, 2, true, &none_delta(r), &r.tails).is_ok(),
        };
        assert_true(!ok, "an index out of range is an error");
        assert_true(same(&before, &accum(&h.r.reg)), "and leaves the registry as it was");
        reach("range");
    }));
    v
}

/// C10: no combination of public points is a witness of a revoked credential
pub fn c10(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    let maxes: &[u32] = if thorough { &[1, 2, 3, 4] } else { &[2, 3] };
    for &max in maxes {
        for default in &[false, true] {
            let default = *default;
            for idx in 1..=max {
                v.push(case(&format!("combination max={} default={} index={}", max, default, idx), move || {
                    // chosen before the registry's secret is, so for every secret
                    let n = 2 * max + 1;
                    let ks: Vec<GroupOrderElement> = (0..n + 3).map(|j| fe(&format!("k{}", j))).collect();
                    let mut h = Hist::new(max, default);
                    let mut w = None;
                    let cr = h.sign(idx, "holder", &mut w);
                    let before = accum(&h.r.reg);
                    // any set of the others is revoked or issued together with it
                    let live = h.live.clone();
                    let mut set = 1usize << (idx - 1);
                    for j in 1..=max {
                        if j != idx && pick(&format!("toggle {}", j), 2) == 1 {
                            set |= 1 << (j - 1);
                        }
                    }
                    h.step(max as usize + set, &mut w);
                    assert_true(live.contains(&idx) && !h.live.contains(&idx), "revoked");
                    let mut o = accum(&h.r.reg).mul(&ks[0]).unwrap();
                    o = o.add(&before.mul(&ks[1]).unwrap()).unwrap();
                    o = o.add(&omega(cr.witness.as_ref().unwrap()).mul(&ks[2]).unwrap()).unwrap();
                    for j in 0..num_of_tails(max) {
                        o = o.add(&tail(&h.r, j).mul(&ks[3 + j as usize]).unwrap()).unwrap();
                    }
                    let w: Witness = un(&serde_json::json!({ "omega": js(&o) }));
                    assert_true(!shows(&h, &cr, &w, "n"), "no combination of published points is a witness of a revoked credential");
                    reach("rejected");
                }));
            }
        }
    }
    v
}

/// every field of a non-revocation credential
pub const FIELDS: [&str; 9] = [
    "/sigma", "/c", "/vr_prime_prime", "/witness_signature/sigma_i", "/witness_signature/u_i", "/witness_signature/g_i", "/g_i", "/m2", "/all g_i",
];
pub fn change(r: &mut Value, f: &str, d: &str) {
    let scalar = |x: &mut Value| {
        let k = fe(d);
        assume_nonzero(fe_id(&k));
        *x = js(&un::<GroupOrderElement>(x).add_mod(&k).unwrap());
    };
    match f {
        "/c" | "/vr_prime_prime" | "/m2" => scalar(r.pointer_mut(f).unwrap()),
        "/sigma" | "/g_i" | "/witness_signature/g_i" => {
            let x = r.pointer_mut(f).unwrap();
            *x = js(&un::<PointG1>(x).add(&g1(d)).unwrap());
        }
        "/all g_i" => {
            let y = js(&un::<PointG1>(&r["g_i"]).add(&g1(d)).unwrap());
            r["g_i"] = y.clone();
            r["witness_signature"]["g_i"] = y;
        }
        _ => {
            let x = r.pointer_mut(f).unwrap();
            *x = js(&un::<PointG2>(x).add(&g2(d)).unwrap());
        }
    }
}
/// C09: a proof of non-revocation is about the presented credential, and about a signed index
pub fn c09(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    for f in FIELDS.iter() {
        let f: &'static str = *f;
        v.push(case(&format!("altered credential {}", f), move || {
            let mut h = Hist::new(2, false);
            let cr = h.sign(1, "holder", &mut None);
            let mut s = js(&cr.sig);
            change(&mut s["r_credential"], f, "d");
            if f == "/all g_i" && pick("witness signature", 2) == 1 {
                change(&mut s["r_credential"], "/witness_signature/sigma_i", "d2");
            }
            let w = cr.witness.clone().unwrap();
            let cr = Cred { sig: un(&s), ..cr };
            if f == "/witness_signature/g_i" {
                // this copy is only looked at when the credential is received
                reach("rejected");
                return;
            }
            assert_true(!shows(&h, &cr, &w, "n"), "an altered non-revocation credential is rejected");
            reach("rejected");
        }));
    }
    v.push(case("altered witness", || {
        let mut h = Hist::new(2, false);
        let cr = h.sign(1, "holder", &mut None);
        let o = omega(cr.witness.as_ref().unwrap()).add(&g2("d")).unwrap();
        let w: Witness = un(&serde_json::json!({ "omega": js(&o) }));
        assert_true(!shows(&h, &cr, &w, "n"), "an altered witness is rejected");
        reach("rejected");
    }));
    // a revoked holder with parts of a credential that is not revoked
    v.push(case("another holder's credential", || {
        let mut h = Hist::new(3, false);
        let mut w = None;
        let a = h.sign(1, "revoked", &mut w);
        let mut wb = None;
        let b = h.sign(2, "live", &mut wb);
        h.step(0, &mut None);
        let wb = Witness::new(2, 3, false, &h.total, &h.r.tails).unwrap();
        assert_true(shows(&h, &b, &wb, "n"), "the credential that is not revoked is accepted");
        let wa = Witness::new(1, 3, false, &h.total, &h.r.tails).unwrap();
        let (ja, jb) = (js(&a.sig), js(&b.sig));
        let mut s = ja.clone();
        let names = ["sigma", "c", "vr_prime_prime", "witness_signature", "g_i", "m2", "i"];
        let set = pick("fields taken", 1 << names.len());
        for (i, n) in names.iter().enumerate() {
            if set >> i & 1 == 1 {
                s["r_credential"][n] = jb["r_credential"][n].clone();
            }
        }
        let w = if pick("witness", 2) == 0 { wa } else { wb };
        let x = Cred { vals: a.vals.try_clone().unwrap(), sig: un(&s), idx: 1, witness: None, delta: None };
        assert_true(!shows(&h, &x, &w, "n2"), "a revoked credential is not shown with parts of another one");
        reach("rejected");
    }));
    v.push(case("proof missing or taken", || {
        let mut h = Hist::new(3, false);
        let a = h.sign(1, "revoked", &mut None);
        let b = h.sign(2, "live", &mut None);
        h.step(0, &mut None);
        let wb = Witness::new(2, 3, false, &h.total, &h.r.tails).unwrap();
        let n = nonce("n");
        let show = |cr: &Cred, w: Option<Witness>, r: Option<&Reg>| {
            let x = Cred { vals: cr.vals.try_clone().unwrap(), sig: cr.sig.try_clone().unwrap(), idx: 1, witness: w, delta: None };
            js(&prove(&[Part { i: &h.i, c: &x, q: request(&["name"], &[]), r }], &[], &n).unwrap())
        };
        let pb = show(&b, Some(wb), Some(&h.r));
        let pa = show(&a, None, None);
        let parts = [Part { i: &h.i, c: &a, q: request(&["name"], &[]), r: Some(&h.r) }];
        assert_true(!judge(&parts, &[], &pa, &n), "a presentation without the requested proof is rejected");
        let mut p = pa.clone();
        p["proofs"][0]["non_revoc_proof"] = pb["proofs"][0]["non_revoc_proof"].clone();
        assert_true(!judge(&parts, &[], &p, &n), "a proof taken from another presentation is rejected");
        let mut p = pb.clone();
        p["proofs"][0]["primary_proof"] = pa["proofs"][0]["primary_proof"].clone();
        assert_true(!judge(&parts, &[], &p, &n), "a primary proof taken from another presentation is rejected");
        reach("rejected");
    }));
    // the holder's own signature, over nothing the issuer signed
    let forms = if thorough { 2 } else { 1 };
    v.push(case("unsigned index", move || {
        // chosen before the issuer's keys are
        let cc = fe("adv.c");
        let vr = fe("adv.vr");
        let x = g1("adv.sigma");
        let y = g1("adv.g");
        let z = g2("adv.sigma_i");
        let u = g2("adv.u");
        let o = g2("adv.omega");
        let mut h = Hist::new(2, false);
        let cr = h.sign(1, "holder", &mut None);
        h.step(0, &mut None);
        let mut s = js(&cr.sig);
        let r = &mut s["r_credential"];
        r["c"] = js(&cc);
        r["vr_prime_prime"] = js(&vr);
        r["sigma"] = js(&x);
        if pick("form", forms) == 0 {
            r["g_i"] = js(&y);
        }
        r["witness_signature"]["sigma_i"] = js(&z);
        r["witness_signature"]["u_i"] = js(&u);
        let w: Witness = un(&serde_json::json!({ "omega": js(&o) }));
        let cr = Cred { vals: cr.vals.try_clone().unwrap(), sig: un(&s), idx: 1, witness: None, delta: None };
        assert_true(!shows(&h, &cr, &w, "n"), "an unsigned index is rejected");
        let _ = c;
        reach("rejected");
    }));
    v
}
