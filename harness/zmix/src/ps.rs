//! Pointcheval-Sanders signatures: signing, blind signing, proofs of knowledge.
use crate::val::*;
use amcl_wrapper::extension_field_gt::GT;
use amcl_wrapper::field_elem::FieldElement;
use amcl_wrapper::group_elem::GroupElement;
use amcl_wrapper::group_elem_g1::G1;
use amcl_wrapper::group_elem_g2::G2;
use std::collections::{HashMap, HashSet};
use symcore::engine::*;
use zmix::signatures::ps::blind_signature::*;
use zmix::signatures::ps::keys::*;
use zmix::signatures::ps::pok_sig::*;
use zmix::signatures::ps::signature::Signature;

fn params() -> Params {
    Params {
        g: nonzero(g2("g")),
        g_tilde: nonzero(g1("g~")),
    }
}
fn free_vk(n: usize) -> Verkey {
    Verkey {
        X_tilde: g1("X~"),
        Y_tilde: g1s("Y~", n),
    }
}
fn free_sk(n: usize) -> Sigkey {
    Sigkey {
        x: fe("x"),
        y: fes("y", n),
    }
}
/// The verification equation, written independently of the library:
/// sigma_1 paired with X~ + sum m_i Y~_i, and sigma_2 paired with g~.
fn sides(s: &Signature, m: &[FieldElement], vk: &Verkey, p: &Params) -> (GT, GT) {
    let mut acc = vk.X_tilde.clone();
    for (i, m) in m.iter().enumerate() {
        acc = acc + &(&vk.Y_tilde[i] * m);
    }
    (
        GT::ate_pairing(&acc, &s.sigma_1),
        GT::ate_pairing(&p.g_tilde, &s.sigma_2),
    )
}

pub fn p01(thorough: bool) -> Vec<Case> {
    let mut out = vec![];
    let nmax = if thorough { 8 } else { 4 };
    for n in 0..=nmax {
        out.push(case(format!("complete n={}", n), move || {
            // the messages do not depend on the signer's secret key
            let m = fes("m", n);
            let ds = fes("d", n);
            let p = params();
            let (vk, sk) = keygen(n, &p);
            truth(vk.msg_count() == n && sk.y.len() == n, "keys for n messages");
            same(&vk.X_tilde, &(&p.g_tilde * &sk.x), "X~ = x g~");
            for i in 0..n {
                same(&vk.Y_tilde[i], &(&p.g_tilde * &sk.y[i]), "Y~_i = y_i g~");
            }
            let s = Signature::new(&m, &sk, &p).unwrap();
            truth(s.verify(&m, &vk, &p).unwrap(), "a signature verifies on the signed messages");
            let mut e = sk.x.clone();
            for i in 0..n {
                e = &e + &(&sk.y[i] * &m[i]);
            }
            same(&(&s.sigma_1 * &e), &s.sigma_2, "sigma_2 = (x + sum y_i m_i) sigma_1");
            reach("complete");
            // any single message replaced by a different one is refused
            for i in 0..n {
                let d = ds[i].clone();
                assume_differ(&d, &m[i]);
                let mut m2 = m.clone();
                m2[i] = d;
                truth(!s.verify(&m2, &vk, &p).unwrap(), "a signature is refused for another message");
                reach("other-message");
            }
            // a key of another signer does not accept it
            let (vk2, _) = keygen(n, &p);
            truth(!s.verify(&m, &vk2, &p).unwrap(), "a signature is refused under another key");
        }));
        out.push(case(format!("distinct n={}", n), move || {
            // two signatures on the same messages use different randomness
            let p = params();
            let (_, sk) = keygen(n, &p);
            let m = fes("m", n);
            let s = Signature::new(&m, &sk, &p).unwrap();
            let t = Signature::new(&m, &sk, &p).unwrap();
            differ(&s.sigma_1, &t.sigma_1, "fresh randomness per signature");
            truth(s.to_bytes().len() == 384, "signature encoding length");
            truth(s.to_bytes() != t.to_bytes(), "different signatures encode differently");
        }));
        out.push(case(format!("exact n={}", n), move || {
            // arbitrary key, messages and signature
            let p = params();
            let vk = free_vk(n);
            let m = fes("m", n);
            let s = Signature { sigma_1: g2("s1"), sigma_2: g2("s2") };
            let ok = s.verify(&m, &vk, &p).unwrap();
            let (a, b) = sides(&s, &m, &vk, &p);
            if ok {
                same(&a, &b, "an accepted signature satisfies the pairing equation");
                differ(&s.sigma_1, &G2::identity(), "a signature with sigma_1 = 0 is refused");
                differ(&s.sigma_2, &G2::identity(), "a signature with sigma_2 = 0 is refused");
                reach("accepted");
            } else {
                let trivial = is_same(&s.sigma_1, &G2::identity())
                    || is_same(&s.sigma_2, &G2::identity());
                if !trivial {
                    differ(&a, &b, "a nontrivial signature satisfying the equation is accepted");
                    reach("rejected");
                } else {
                    reach("trivial");
                }
            }
        }));
        out.push(case(format!("lengths n={}", n), move || {
            let p = params();
            let vk = free_vk(n);
            let sk = free_sk(n);
            let s = Signature { sigma_1: nonzero(g2("s1")), sigma_2: nonzero(g2("s2")) };
            for k in 0..n + 3 {
                if k == n {
                    continue;
                }
                let m = fes(&format!("m{}.", k), k);
                truth(Signature::new(&m, &sk, &p).is_err(), "signing a wrong number of messages is refused");
                truth(s.verify(&m, &vk, &p).is_err(), "verifying a wrong number of messages is refused");
            }
            reach("lengths");
        }));
    }
    out
}

pub fn p02(thorough: bool) -> Vec<Case> {
    let mut out = vec![];
    let nmax = if thorough { 6 } else { 3 };
    for n in 1..=nmax {
        for hidden in 1..=n {
            for paper in 0..2 {
                out.push(case(format!("blind n={} hidden={} form={}", n, hidden, paper), move || {
                    let m = fes("m", n);
                    let ds = fes("d", n);
                    let p = params();
                    let (vk, sk) = keygen(n, &p);
                    let bk = BlindingKey::new(&sk, &p);
                    truth(bk.msg_count() == n, "one blinding base per message");
                    same(&bk.X, &(&p.g * &sk.x), "X = x g");
                    for i in 0..n {
                        same(&bk.Y[i], &(&p.g * &sk.y[i]), "Y_i = y_i g");
                    }
                    let blinding = fe("t");
                    let mut com = &p.g * &blinding;
                    for i in 0..hidden {
                        com = com + &(&bk.Y[i] * &m[i]);
                    }
                    let s = if paper == 0 {
                        BlindSignature::new(&com, &m[hidden..], &sk, &bk, &p).unwrap()
                    } else {
                        BlindSignature::new_from_paper(&com, &m[hidden..], &bk.X, &bk, &p).unwrap()
                    };
                    let u = BlindSignature::unblind(&s, &blinding);
                    truth(u.verify(&m, &vk, &p).unwrap(), "the unblinded signature verifies on all messages");
                    reach("unblinded");
                    // unblinding with anything else does not give a signature
                    let t2 = fe("t'");
                    assume_differ(&t2, &blinding);
                    let v = BlindSignature::unblind(&s, &t2);
                    truth(!v.verify(&m, &vk, &p).unwrap(), "a wrong blinding does not unblind");
                    for i in 0..n {
                        let d = ds[i].clone();
                        assume_differ(&d, &m[i]);
                        let mut m2 = m.clone();
                        m2[i] = d;
                        truth(!u.verify(&m2, &vk, &p).unwrap(), "the unblinded signature covers every message");
                    }
                }));
            }
        }
        out.push(case(format!("arbitrary-commitment n={}", n), move || {
            // whatever the requester commits to, the result is a PS signature on
            // exactly the committed point: sigma_2 = (x + known) sigma_1 + u com
            let p = params();
            let (_, sk) = keygen(n, &p);
            let bk = BlindingKey::new(&sk, &p);
            let com = g2("com");
            for known in 0..n {
                let m = fes(&format!("m{}.", known), known);
                let s = BlindSignature::new(&com, &m, &sk, &bk, &p).unwrap();
                let t = BlindSignature::new_from_paper(&com, &m, &bk.X, &bk, &p).unwrap();
                let mut e = sk.x.clone();
                for i in 0..known {
                    e = &e + &(&sk.y[n - known + i] * &m[i]);
                }
                let total = com.clone() + &(&p.g * &e);
                // sigma_2 : total = sigma_1 : g, checked by pairing
                for q in [s, t].iter() {
                    let h = G1::generator();
                    let g_exp = GT::ate_pairing(&h, &q.sigma_1);
                    differ(&q.sigma_1, &G2::identity(), "fresh randomness is not zero");
                    // log-equality without knowing u: u = sigma_1 / g
                    ratio(&q.sigma_1, &p.g, &q.sigma_2, &total, "the blind signature covers commitment and known messages");
                    let _ = g_exp;
                }
                reach("shape");
            }
        }));
        out.push(case(format!("too-many n={}", n), move || {
            let p = params();
            let (_, sk) = keygen(n, &p);
            let bk = BlindingKey::new(&sk, &p);
            let com = g2("com");
            for k in n..n + 3 {
                let m = fes(&format!("m{}.", k), k);
                truth(BlindSignature::new(&com, &m, &sk, &bk, &p).is_err(), "no room for hidden messages is refused");
                truth(BlindSignature::new_from_paper(&com, &m, &bk.X, &bk, &p).is_err(), "no room for hidden messages is refused");
            }
            // signing key for another number of messages
            let short = Sigkey { x: sk.x.clone(), y: sk.y[..n - 1].to_vec() };
            for k in 0..n {
                let m = fes(&format!("k{}.", k), k);
                truth(BlindSignature::new(&com, &m, &short, &bk, &p).is_err(), "a signing key of another size is refused");
            }
            reach("refused");
        }));
    }
    out
}

#[cfg(not(feature = "native"))]
fn ratio(a: &G2, b: &G2, c: &G2, d: &G2, label: &str) {
    // a/b = c/d  <=>  a d = b c
    let l = symcore::mul(a.id(), d.id());
    let r = symcore::mul(b.id(), c.id());
    assert_zero(symcore::sub(l, r), label);
}
#[cfg(feature = "native")]
fn ratio(a: &G2, b: &G2, c: &G2, d: &G2, label: &str) {
    // the logarithms of b and d are known from the witness only for symbols;
    // not expressible on the real group without the secret exponents
    let _ = (a, b, c, d, label);
    prune("skip: needs discrete logarithms");
}

fn hash(b: &[u8]) -> FieldElement {
    FieldElement::from_msg_hash(b)
}

pub fn p04(thorough: bool) -> Vec<Case> {
    let mut out = vec![];
    let nmax = if thorough { 5 } else { 3 };
    for n in 1..=nmax {
        for rev in subsets(n) {
            let r = rev.clone();
            out.push(case(format!("complete n={} revealed={:?}", n, rev), move || {
                let rev: HashSet<usize> = r.iter().cloned().collect();
                let m = fes("m", n);
                let ds = fes("d", n);
                let p = params();
                let (vk, sk) = keygen(n, &p);
                let s = Signature::new(&m, &sk, &p).unwrap();
                let hidden: Vec<usize> = (0..n).filter(|i| !rev.contains(i)).collect();
                let bl = fes("b", hidden.len());
                let pok = if n % 2 == 0 {
                    PoKOfSignature::init(&s, &vk, &p, &m, None, rev.clone()).unwrap()
                } else {
                    PoKOfSignature::init(&s, &vk, &p, &m, Some(&bl), rev.clone()).unwrap()
                };
                let pb = pok.to_bytes();
                let c = hash(&pb);
                let proof = pok.gen_proof(&c).unwrap();
                let vb = proof.get_bytes_for_challenge(rev.clone(), &vk, &p);
                truth(vb == pb, "prover and verifier hash the same bytes");
                let rm: HashMap<usize, FieldElement> = rev.iter().map(|i| (*i, m[*i].clone())).collect();
                truth(proof.verify(&vk, &p, rm.clone(), &c).unwrap(), "an honest proof verifies");
                differ(&proof.sig.sigma_1, &s.sigma_1, "the shown signature is randomised");
                differ(&proof.sig.sigma_2, &s.sigma_2, "the shown signature is randomised");
                reach("complete");
                // responses are r - c m, in the order of the hidden messages
                for (k, i) in hidden.iter().enumerate() {
                    let resp = proof.get_resp_for_message(k).unwrap();
                    if n % 2 == 1 {
                        same(&resp, &(&bl[k] - &(&c * &m[*i])), "the response for a hidden message uses its blinding");
                    }
                }
                truth(proof.get_resp_for_message(hidden.len()).is_err(), "no response for an index past the hidden messages");
                // revealed values are bound
                for i in rev.iter() {
                    let d = ds[*i].clone();
                    assume_differ(&d, &m[*i]);
                    let mut w = rm.clone();
                    w.insert(*i, d);
                    truth(!proof.verify(&vk, &p, w, &c).unwrap(), "a changed revealed message is refused");
                    let mut w = rm.clone();
                    w.remove(i);
                    truth(!proof.verify(&vk, &p, w, &c).unwrap_or(false), "a withheld revealed message is refused");
                    reach("revealed-bound");
                }
                // a proof does not transfer to another challenge or another issuer
                let c2 = fe("c'");
                assume_differ(&c2, &c);
                truth(!proof.verify(&vk, &p, rm.clone(), &c2).unwrap(), "another challenge is refused");
                let (vk2, _) = keygen(n, &p);
                truth(!proof.verify(&vk2, &p, rm.clone(), &c).unwrap(), "another issuer is refused");
            }));
            let r = rev.clone();
            out.push(case(format!("exact n={} revealed={:?}", n, rev), move || {
                let p = params();
                let vk = free_vk(n);
                let rm: HashMap<usize, FieldElement> = r.iter().map(|i| (*i, fe(&format!("m{}", i)))).collect();
                let c = fe("c");
                let h = n - r.len();
                let resp = fes("r", h + 1);
                let s1 = g2("s1");
                let j = g1("J");
                let first = g1("T");
                let s2 = g2("s2");
                let proof = PoKOfSignatureProof {
                    sig: Signature { sigma_1: s1.clone(), sigma_2: s2.clone() },
                    J: j.clone(),
                    proof_vc: ProofOtherGroup { commitment: first.clone(), responses: resp.clone().into() },
                };
                let ok = proof.verify(&vk, &p, rm.clone(), &c).unwrap();
                let mut t = &j * &c + &(&p.g_tilde * &resp[0]);
                let mut k = 1;
                let mut full = j.clone() + &vk.X_tilde;
                for i in 0..n {
                    match rm.get(&i) {
                        Some(m) => full = full + &(&vk.Y_tilde[i] * m),
                        None => {
                            t = t + &(&vk.Y_tilde[i] * &resp[k]);
                            k += 1;
                        }
                    }
                }
                let a = GT::ate_pairing(&full, &s1);
                let b = GT::ate_pairing(&p.g_tilde, &s2);
                if ok {
                    differ(&s1, &G2::identity(), "sigma_1 = 0 is refused");
                    differ(&s2, &G2::identity(), "sigma_2 = 0 is refused");
                    same(&t, &first, "an accepted proof satisfies the commitment equation");
                    same(&a, &b, "an accepted proof satisfies the pairing equation");
                    reach("accepted");
                } else if is_same(&s1, &G2::identity()) || is_same(&s2, &G2::identity()) {
                    reach("trivial");
                } else if is_same(&t, &first) {
                    differ(&a, &b, "a proof satisfying both equations is accepted");
                    reach("pairing-rejected");
                } else {
                    reach("commitment-rejected");
                }
            }));
            let r = rev.clone();
            if n > 4 {
                continue;
            }
            out.push(case(format!("soundness n={} revealed={:?}", n, rev), move || {
                // two accepting proofs with the same first message yield a signature
                // on the revealed and the extracted messages
                let p = params();
                let vk = free_vk(n);
                let mut rm: HashMap<usize, FieldElement> = HashMap::new();
                for i in r.iter() {
                    rm.insert(*i, fe(&format!("m{}", i)));
                }
                let c = fe("c");
                let c2 = fe("c'");
                assume_differ(&c, &c2);
                let h = n - r.len();
                let ra = fes("r", h + 1);
                let rb = fes("r'", h + 1);
                let s1 = g2("s1");
                let first = g1("T");
                let j = g1("J");
                let s2 = g2("s2");
                let mk = |resp: &Vec<FieldElement>| PoKOfSignatureProof {
                    sig: Signature { sigma_1: s1.clone(), sigma_2: s2.clone() },
                    J: j.clone(),
                    proof_vc: ProofOtherGroup { commitment: first.clone(), responses: resp.clone().into() },
                };
                if !mk(&ra).verify(&vk, &p, rm.clone(), &c).unwrap() {
                    return;
                }
                if !mk(&rb).verify(&vk, &p, rm.clone(), &c2).unwrap() {
                    return;
                }
                let inv = (&c2 - &c).inverse();
                let ex: Vec<FieldElement> = (0..h + 1).map(|i| (&ra[i] - &rb[i]) * &inv).collect();
                let mut m = vec![];
                let mut k = 1;
                for i in 0..n {
                    match rm.get(&i) {
                        Some(v) => m.push(v.clone()),
                        None => {
                            m.push(ex[k].clone());
                            k += 1;
                        }
                    }
                }
                let s = Signature { sigma_1: s1.clone(), sigma_2: &s2 - &(&s1 * &ex[0]) };
                let (a, b) = sides(&s, &m, &vk, &p);
                same(&a, &b, "two accepting proofs reveal a valid signature on the revealed and extracted messages");
                reach("extracted");
            }));
        }
        out.push(case(format!("binding n={}", n), move || {
            // the challenge input commits to everything the prover fixes first
            let p = params();
            let vk = free_vk(n);
            let mk = |x: &str| PoKOfSignatureProof {
                sig: Signature {
                    sigma_1: g2(if x == "s1" { "s1'" } else { "s1" }),
                    sigma_2: g2(if x == "s2" { "s2'" } else { "s2" }),
                },
                J: g1(if x == "J" { "J'" } else { "J" }),
                proof_vc: ProofOtherGroup {
                    commitment: g1(if x == "T" { "T'" } else { "T" }),
                    responses: fes("r", n + 1).into(),
                },
            };
            let none: HashSet<usize> = HashSet::new();
            let base = mk("").get_bytes_for_challenge(none.clone(), &vk, &p);
            for x in ["s1", "s2", "J", "T"].iter() {
                truth(
                    mk(x).get_bytes_for_challenge(none.clone(), &vk, &p) != base,
                    "the challenge input changes with every value the prover commits to",
                );
            }
            for i in 0..n {
                let mut vk2 = vk.clone();
                vk2.Y_tilde[i] = g1("Y'");
                truth(
                    mk("").get_bytes_for_challenge(none.clone(), &vk2, &p) != base,
                    "the challenge input changes with the bases of the hidden messages",
                );
                let one: HashSet<usize> = [i].iter().cloned().collect();
                truth(
                    mk("").get_bytes_for_challenge(one, &vk, &p) != base,
                    "the challenge input depends on which messages are hidden",
                );
            }
            reach("binding");
        }));
        out.push(case(format!("malformed n={}", n), move || {
            let m = fes("m", n);
            let p = params();
            let (vk, sk) = keygen(n, &p);
            let s = Signature::new(&m, &sk, &p).unwrap();
            for bad in [n, n + 1, usize::MAX].iter() {
                let rv: HashSet<usize> = [*bad].iter().cloned().collect();
                truth(PoKOfSignature::init(&s, &vk, &p, &m, None, rv).is_err(), "an index past the messages is refused by the prover");
            }
            for k in 0..n + 3 {
                let none = HashSet::new();
                if k != n {
                    let mm = fes(&format!("w{}.", k), k);
                    truth(PoKOfSignature::init(&s, &vk, &p, &mm, None, none.clone()).is_err(), "a wrong number of messages is refused by the prover");
                    truth(PoKOfSignature::init(&s, &vk, &p, &m, Some(&mm), none).is_err(), "a wrong number of blindings is refused");
                }
            }
            let c = fe("c");
            let mk = |k: usize| PoKOfSignatureProof {
                sig: s.clone(),
                J: g1("J"),
                proof_vc: ProofOtherGroup { commitment: g1("T"), responses: fes("r", k).into() },
            };
            for k in 0..n + 4 {
                for rev in subsets(n + 1) {
                    let rm: HashMap<usize, FieldElement> = rev.iter().map(|i| (*i, fe(&format!("v{}", i)))).collect();
                    let hidden = n as i64 - rev.len() as i64 + 1;
                    let res = no_fork(|| mk(k).verify(&vk, &p, rm, &c));
                    if rev.contains(&n) || hidden != k as i64 {
                        truth(!res.unwrap_or(false), "a malformed proof is refused without panicking");
                    }
                }
                for i in 0..n + 4 {
                    let r = mk(k).get_resp_for_message(i);
                    truth(r.is_ok() == (i + 1 < k), "get_resp_for_message answers exactly the existing responses");
                }
            }
            reach("malformed");
        }));
    }
    out
}
