//! BBS+ signatures: signing and verification.
use crate::obj::*;
use crate::val::*;
use bbs::prelude::*;
use bbs::HashElem;
use bbs::RandomElem;
use ff_zeroize::Field;
use pairing_plus::bls12_381::{Bls12, Fr, G1, G2};
use pairing_plus::{CurveProjective, Engine};
use std::collections::{BTreeMap, BTreeSet};
use symcore::engine::*;

/// an arbitrary public key (identity points are refused by the library)
pub fn free_pk(n: usize) -> PublicKey {
    let h0 = nonzero(g1("h0"));
    let h: Vec<G1> = g1s("h", n).into_iter().map(nonzero).collect();
    let w = nonzero(g2("w"));
    key(&h0, &h, &w)
}
/// g1 + s h0 + sum m_i h_i, written independently of the library
pub fn b_value(s: &Fr, m: &[Fr], pk: &PublicKey) -> G1 {
    let mut b = add(&G1::one(), &mul(&pt(&pk.h0), s));
    for (i, m) in m.iter().enumerate() {
        b = add(&b, &mul(&pt(&pk.h[i]), m));
    }
    b
}
/// does e(A, w + e g2) = e(B, g2) hold?  (decides the branch)
pub fn equation(a: &G1, e: &Fr, s: &Fr, m: &[Fr], pk: &PublicKey) -> bool {
    let mut k = mul2(&G2::one(), e);
    k.add_assign(pk.w.as_ref());
    let b = b_value(s, m, pk);
    Bls12::pairing(*a, k) == Bls12::pairing(b, G2::one())
}

pub fn b01(thorough: bool) -> Vec<Case> {
    let mut out = vec![];
    let nmax = if thorough { 8 } else { 4 };
    for n in 1..=nmax {
        for short in &[false, true] {
            let short = *short;
            out.push(case(format!("complete n={} short-key={}", n, short), move || {
                let m = fes("m", n);
                let ds = fes("d", n);
                let (pk, sk) = if short {
                    let (d, sk) = Issuer::new_short_keys(None).unwrap();
                    (d.to_public_key(n).unwrap(), sk)
                } else {
                    Issuer::new_keys(n).unwrap()
                };
                truth(pk.message_count() == n && pk.h.len() == n, "keys for n messages");
                let x = sk_value(&sk);
                truth(*pk.w.as_ref() == mul2(&G2::one(), &x), "w = x g2");
                let s = Issuer::sign(&msgs(&m), &sk, &pk).unwrap();
                truth(s.verify(&msgs(&m), &pk).unwrap(), "a signature verifies on the signed messages");
                let (a, e, sv) = sig_parts(&s);
                same(&mul(&a, &fadd(&x, &e)), &b_value(&sv, &m, &pk), "A = B / (x + e)");
                reach("complete");
                for i in 0..n {
                    assume_differ(&ds[i], &m[i]);
                    let mut m2 = m.clone();
                    m2[i] = ds[i];
                    truth(!s.verify(&msgs(&m2), &pk).unwrap(), "a signature is refused for another message");
                    reach("other-message");
                }
                let (pk2, _) = Issuer::new_keys(n).unwrap();
                truth(!s.verify(&msgs(&m), &pk2).unwrap(), "a signature is refused under another key");
                let t = Issuer::sign(&msgs(&m), &sk, &pk).unwrap();
                let (a2, e2, s2) = sig_parts(&t);
                differ(&a, &a2, "fresh randomness per signature");
                differ(&e, &e2, "fresh randomness per signature");
                differ(&sv, &s2, "fresh randomness per signature");
            }));
        }
        out.push(case(format!("exact n={}", n), move || {
            let pk = free_pk(n);
            let m = fes("m", n);
            let (a, e, s) = (g1("A"), fe("e"), fe("s"));
            let g = sig(&a, &e, &s);
            match g.verify(&msgs(&m), &pk) {
                Ok(true) => {
                    differ(&a, &G1::zero(), "a signature with A = 0 is refused");
                    truth(equation(&a, &e, &s, &m, &pk), "an accepted signature satisfies the pairing equation");
                    reach("accepted");
                }
                Ok(false) => {
                    truth(!equation(&a, &e, &s, &m, &pk), "a signature satisfying the equation is accepted");
                    reach("rejected");
                }
                Err(_) => {
                    truth(
                        is_same(&a, &G1::zero()) || is_same(&e, &Fr::zero()) || is_same(&s, &Fr::zero()),
                        "only a malformed signature is an error",
                    );
                    reach("malformed");
                }
            }
        }));
        out.push(case(format!("lengths n={}", n), move || {
            let pk = free_pk(n);
            let sk = SecretKey::from(nonzero(fe("x")));
            let g = sig(&g1("A"), &fe("e"), &fe("s"));
            for k in 0..=n + 2 {
                let m = fes(&format!("m{}_", k), k);
                if k > n {
                    truth(Signature::new(&msgs(&m), &sk, &pk).is_err(), "more messages than the key supports are not signed");
                }
                if k != n {
                    truth(g.verify(&msgs(&m), &pk).is_err(), "a signature is checked against exactly the key's number of messages");
                }
            }
            reach("lengths");
        }));
        out.push(case(format!("fewer n={}", n), move || {
            // a signature on fewer messages covers exactly those, the rest being zero
            let k = choose("k", n as u32) as usize;
            let m = fes("m", k);
            let (pk, sk) = Issuer::new_keys(n).unwrap();
            let s = Signature::new(&msgs(&m), &sk, &pk).unwrap();
            let mut full = m.clone();
            full.resize(n, Fr::zero());
            truth(s.verify(&msgs(&full), &pk).unwrap(), "missing messages are zero");
            let d = nonzero(fe("d"));
            full[k] = d;
            truth(!s.verify(&msgs(&full), &pk).unwrap(), "missing messages cannot be filled in later");
            reach("fewer");
        }));
        out.push(case(format!("keys n={}", n), move || {
            // an identity point anywhere in the key, or a zero secret key, is refused
            let at = choose("at", n as u32 + 3) as usize;
            let mut pk = free_pk(n);
            let mut x = nonzero(fe("x"));
            match at {
                0 => pk.h0 = GeneratorG1::from(G1::zero()),
                1 => pk.w = GeneratorG2::from(G2::zero()),
                2 => x = Fr::zero(),
                i => pk.h[i - 3] = GeneratorG1::from(G1::zero()),
            }
            let sk = SecretKey::from(x);
            let m = fes("m", n);
            truth(Signature::new(&msgs(&m), &sk, &pk).is_err(), "malformed keys do not sign");
            let c = Commitment::from(g1("C"));
            truth(BlindSignature::new(&c, &BTreeMap::new(), &sk, &pk).is_err(), "malformed keys do not sign blindly");
            if at != 2 {
                truth(pk.validate().is_err(), "malformed public keys are recognised");
                let g = sig(&nonzero(g1("A")), &nonzero(fe("e")), &nonzero(fe("s")));
                truth(g.verify(&msgs(&m), &pk).is_err(), "nothing verifies under a malformed key");
            } else {
                truth(sk.validate().is_err(), "a zero secret key is recognised");
                truth(
                    DeterministicPublicKey::new(Some(KeyGenOption::FromSecretKey(sk))).is_err(),
                    "no public key for a zero secret key",
                );
            }
            reach("malformed-key");
        }));
    }
    out
}

/// B02: blind signing
pub fn b02(thorough: bool) -> Vec<Case> {
    let mut out = vec![];
    let nmax = if thorough { 4 } else { 3 };
    for n in 1..=nmax {
        for hidden in subsets(n) {
            let known: Vec<usize> = (0..n).filter(|i| !hidden.contains(i)).collect();
            let (h2, k2) = (hidden.clone(), known.clone());
            out.push(case(format!("complete n={} hidden={:?}", n, hidden), move || {
                let (hidden, known) = (h2.clone(), k2.clone());
                let m = fes("m", n);
                let ds = fes("d", n);
                let nonce = ProofNonce::from(fe("nonce"));
                let other_nonce = ProofNonce::from(fe("nonce2"));
                let (pk, sk) = Issuer::new_keys(n).unwrap();
                let x = sk_value(&sk);
                let (ctx, bf) = Prover::new_blind_signature_context(&pk, &map(&hidden, &m), &nonce).unwrap();
                // C = bf h0 + sum over the hidden messages
                let mut c = mul(&pt(&pk.h0), bf.as_ref());
                for i in &hidden {
                    c = add(&c, &mul(&pt(&pk.h[*i]), &m[*i]));
                }
                same(ctx.commitment.as_ref(), &c, "the commitment is to the hidden messages");
                let set: BTreeSet<usize> = known.iter().copied().collect();
                truth(ctx.verify(&set, &pk, &nonce).unwrap(), "an honest request is accepted");
                let bs = Issuer::blind_sign(&ctx, &map(&known, &m), &sk, &pk, &nonce).unwrap();
                let (a, e, s) = blind_parts(&bs);
                let mut b = add(&c, &add(&G1::one(), &mul(&pt(&pk.h0), &s)));
                for i in &known {
                    b = add(&b, &mul(&pt(&pk.h[*i]), &m[*i]));
                }
                same(&mul(&a, &fadd(&x, &e)), &b, "the blind signature covers the commitment and the known messages");
                let full = Prover::complete_signature(&pk, &msgs(&m), &bs, &bf).unwrap();
                truth(full.verify(&msgs(&m), &pk).unwrap(), "the completed signature verifies");
                let (a2, e2, s2) = sig_parts(&full);
                same(&a, &a2, "unblinding keeps A");
                same(&e, &e2, "unblinding keeps e");
                same(&s2, &fadd(&s, bf.as_ref()), "unblinding adds the blinding to s");
                reach("complete");
                for i in 0..n {
                    assume_differ(&ds[i], &m[i]);
                    let mut m2 = m.clone();
                    m2[i] = ds[i];
                    truth(Prover::complete_signature(&pk, &msgs(&m2), &bs, &bf).is_err(), "a signature on other messages is not completed");
                }
                assume_differ(other_nonce.as_ref(), nonce.as_ref());
                truth(
                    Issuer::blind_sign(&ctx, &map(&known, &m), &sk, &pk, &other_nonce).is_err(),
                    "a request made for another nonce is refused",
                );
                // the issuer's own choice of known messages must be the complement
                for other in subsets(n) {
                    if other != known {
                        truth(
                            Issuer::blind_sign(&ctx, &map(&other, &m), &sk, &pk, &nonce).is_err(),
                            "a request for other hidden positions is refused",
                        );
                    }
                }
                reach("refused");
            }));
            let (h2, k2) = (hidden.clone(), known.clone());
            out.push(case(format!("exact n={} hidden={:?}", n, hidden), move || {
                // arbitrary request: accepted exactly when T = sum r_i b_i + c C and
                // c is the hash
                let (hidden, known) = (h2.clone(), k2.clone());
                let pk = free_pk(n);
                let (c_pt, t) = (g1("C"), g1("T"));
                let nonce = ProofNonce::from(fe("nonce"));
                let c = fe("c");
                let r = fes("r", hidden.len() + 1);
                let ctx = BlindSignatureContext {
                    commitment: Commitment::from(c_pt),
                    challenge_hash: ProofChallenge::from(c),
                    proof_of_hidden_messages: vc(&t, &r),
                };
                let set: BTreeSet<usize> = known.iter().copied().collect();
                let ok = ctx.verify(&set, &pk, &nonce).unwrap();
                let mut v = add(&mul(&pt(&pk.h0), &r[0]), &mul(&c_pt, &c));
                for (j, i) in hidden.iter().enumerate() {
                    v = add(&v, &mul(&pt(&pk.h[*i]), &r[j + 1]));
                }
                if ok {
                    same(&v, &t, "an accepted request satisfies the proof equation");
                    reach("accepted");
                } else {
                    reach("rejected");
                }
                // with an honest challenge, arbitrary responses are accepted exactly
                // when they satisfy the equation
                let m = fes("m", n);
                let (honest, _) = Prover::new_blind_signature_context(&pk, &map(&hidden, &m), &nonce).unwrap();
                let (t, _) = vc_parts(&honest.proof_of_hidden_messages);
                let q = fes("w", hidden.len() + 1);
                let mut v = add(&mul(&pt(&pk.h0), &q[0]), &mul(honest.commitment.as_ref(), honest.challenge_hash.as_ref()));
                for (j, i) in hidden.iter().enumerate() {
                    v = add(&v, &mul(&pt(&pk.h[*i]), &q[j + 1]));
                }
                let ctx3 = BlindSignatureContext { proof_of_hidden_messages: vc(&t, &q), ..honest.clone() };
                if is_same(&v, &t) {
                    truth(ctx3.verify(&set, &pk, &nonce).unwrap(), "answers satisfying the proof equation are accepted");
                    reach("accepted-answer");
                } else {
                    truth(!ctx3.verify(&set, &pk, &nonce).unwrap(), "accepted answers satisfy the proof equation");
                    reach("rejected-answer");
                }
                // a wrong number of responses is refused
                for k in 0..=hidden.len() + 3 {
                    if k != r.len() {
                        let ctx = BlindSignatureContext {
                            proof_of_hidden_messages: vc(&t, &fes("q", k)),
                            ..ctx.clone()
                        };
                        truth(ctx.verify(&set, &pk, &nonce).unwrap_or(false) == false, "one response per base");
                    }
                }
            }));
            let (h2, k2) = (hidden.clone(), known.clone());
            out.push(case(format!("bound n={} hidden={:?}", n, hidden), move || {
                // the challenge of an accepted request is fixed by the bases, the
                // commitment, the random commitment and the nonce: the responses may
                // be anything, changing one of those is refused
                let (hidden, known) = (h2.clone(), k2.clone());
                let m = fes("m", n);
                let what = choose("what", 4 + hidden.len() as u32) as usize;
                let (nonce, other_nonce) = two_fes("nonce", "nonce2", what == 3);
                let nonce = ProofNonce::from(nonce);
                let pk = free_pk(n);
                let (ctx, _) = Prover::new_blind_signature_context(&pk, &map(&hidden, &m), &nonce).unwrap();
                let set: BTreeSet<usize> = known.iter().copied().collect();
                truth(ctx.verify(&set, &pk, &nonce).unwrap(), "an honest request is accepted");
                let (t, q) = vc_parts(&ctx.proof_of_hidden_messages);
                let (mut ctx2, mut pk2, mut nonce2) = (ctx.clone(), pk.clone(), nonce.clone());
                let mut t2 = t;
                match what {
                    0 => {
                        ctx2.commitment = Commitment::from(other_g1("alt", ctx.commitment.as_ref()));
                    }
                    1 => {
                        t2 = other_g1("alt", &t);
                    }
                    2 => {
                        pk2.h0 = GeneratorG1::from(other_g1("alt", pk.h0.as_ref()));
                    }
                    3 => {
                        nonce2 = ProofNonce::from(other_nonce);
                    }
                    i => {
                        let i = hidden[i - 4];
                        pk2.h[i] = GeneratorG1::from(other_g1("alt", pk.h[i].as_ref()));
                    }
                }
                // (responses that do not satisfy the proof equation: "exact" above)
                let r: Vec<Fr> = q.iter().zip(&fes("r", hidden.len() + 1)).map(|(q, d)| fadd(q, d)).collect();
                let mut v = add(&mul(pk2.h0.as_ref(), &r[0]), &mul(ctx2.commitment.as_ref(), ctx2.challenge_hash.as_ref()));
                for (j, i) in hidden.iter().enumerate() {
                    v = add(&v, &mul(pk2.h[*i].as_ref(), &r[j + 1]));
                }
                if !is_same(&v, &t2) {
                    return;
                }
                ctx2.proof_of_hidden_messages = vc(&t2, &r);
                truth(!ctx2.verify(&set, &pk2, &nonce2).unwrap(), "a request does not carry over to other public values");
                reach("bound");
            }));
        }
        out.push(case(format!("extract n={}", n), move || {
            // two accepted answers to different challenges open the commitment
            let pk = free_pk(n);
            let (c_pt, t) = (g1("C"), g1("T"));
            let (c1, c2) = (fe("c1"), fe("c2"));
            assume_differ(&c1, &c2);
            let (r1, r2) = (fes("r", n + 1), fes("q", n + 1));
            let mut bases = vec![pk.h0];
            bases.extend(pk.h.iter());
            let com = Commitment::from(c_pt);
            let ok1 = vc(&t, &r1).verify(&bases, &com, &ProofChallenge::from(c1)).unwrap();
            let ok2 = vc(&t, &r2).verify(&bases, &com, &ProofChallenge::from(c2)).unwrap();
            if !(ok1 && ok2) {
                return;
            }
            let k = finv(&fsub(&c2, &c1));
            let mut v = G1::zero();
            for i in 0..=n {
                v = add(&v, &mul(&pt(&bases[i]), &fmul(&fsub(&r1[i], &r2[i]), &k)));
            }
            same(&v, &c_pt, "two answers open the commitment");
            reach("extracted");
        }));
        out.push(case(format!("indices n={}", n), move || {
            // message positions the key does not have are refused, not a crash
            let (pk, sk) = Issuer::new_keys(n).unwrap();
            let m = fes("m", n);
            let nonce = ProofNonce::from(fe("nonce"));
            let bad = n + choose("beyond", 3) as usize;
            let mut h = map(&(0..n).collect::<Vec<_>>(), &m);
            let (ctx, _) = Prover::new_blind_signature_context(&pk, &h, &nonce).unwrap();
            let mut known = BTreeMap::new();
            known.insert(bad, msg(&fe("k")));
            truth(Issuer::blind_sign(&ctx, &known, &sk, &pk, &nonce).is_err(), "known messages beyond the key are refused");
            h.insert(bad, msg(&fe("k2")));
            truth(Prover::new_blind_signature_context(&pk, &h, &nonce).is_err(), "hidden messages beyond the key are refused");
            let mut only = BTreeMap::new();
            only.insert(bad, msg(&fe("k3")));
            truth(Prover::new_blind_signature_context(&pk, &only, &nonce).is_err(), "hidden messages beyond the key are refused");
            truth(BlindSignature::new(&ctx.commitment, &only, &sk, &pk).is_err(), "known messages beyond the key are refused");
            reach("indices");
        }));
    }
    out
}

/// B03: proofs of knowledge of committed values
pub fn b03(thorough: bool) -> Vec<Case> {
    let mut out = vec![];
    let nmax = if thorough { 8 } else { 4 };
    for n in 1..=nmax {
        out.push(case(format!("complete n={}", n), move || {
            // every commit chooses its own blinding or takes the caller's
            let ext = choose("given", 1 << n.min(3));
            let g: Vec<G1> = g1s("g", n);
            let m = fes("m", n);
            let b = fes("b", n);
            let c = ProofChallenge::from(fe("c"));
            let run = |m: &[Fr]| {
                let mut p = ProverCommittingG1::new();
                for i in 0..n {
                    let at = if ext >> i & 1 == 1 && i < 3 {
                        p.commit_with(GeneratorG1::from(g[i]), SignatureMessage::from(b[i]))
                    } else {
                        p.commit(GeneratorG1::from(g[i]))
                    };
                    truth(at == i, "bases are numbered from zero");
                }
                let bl: Vec<Fr> = (0..n).map(|i| *p.get_index(i).unwrap().1.as_ref()).collect();
                for i in 0..n {
                    same(p.get_index(i).unwrap().0.as_ref(), &g[i], "the base of a commit can be read back");
                }
                truth(p.get_index(n).is_err(), "reading past the last commit is an error");
                let f = p.finish();
                (f.gen_proof(&c, &msgs(m)).unwrap(), bl)
            };
            let (p, bl) = run(&m);
            let mut com = G1::zero();
            let mut t = G1::zero();
            let (tp, r) = vc_parts(&p);
            for i in 0..n {
                com = add(&com, &mul(&g[i], &m[i]));
                t = add(&t, &mul(&g[i], &bl[i]));
                same(&r[i], &fsub(&bl[i], &fmul(c.as_ref(), &m[i])), "response = blinding - challenge * secret");
            }
            same(&tp, &t, "random commitment over the blindings");
            let bases: Vec<GeneratorG1> = g.iter().map(GeneratorG1::from).collect();
            truth(p.verify(&bases, &Commitment::from(com), &c).unwrap(), "an honest proof verifies");
            reach("complete");
            let (_, bl2) = run(&m);
            for i in 0..n {
                if ext >> i & 1 == 1 && i < 3 {
                    same(&bl[i], &b[i], "the caller's blinding is used");
                } else {
                    differ(&bl[i], &bl2[i], "fresh blinding per proof");
                    for j in 0..i {
                        differ(&bl[i], &bl[j], "fresh blinding per base");
                    }
                }
            }
        }));
        out.push(case(format!("exact n={}", n), move || {
            let g: Vec<G1> = g1s("g", n);
            let bases: Vec<GeneratorG1> = g.iter().map(GeneratorG1::from).collect();
            let (com, t, c) = (g1("C"), g1("T"), fe("c"));
            let r = fes("r", n);
            let ok = vc(&t, &r).verify(&bases, &Commitment::from(com), &ProofChallenge::from(c)).unwrap();
            let mut v = mul(&com, &c);
            for i in 0..n {
                v = add(&v, &mul(&g[i], &r[i]));
            }
            if ok {
                same(&v, &t, "an accepted proof satisfies the equation");
                reach("accepted");
            } else {
                differ(&v, &t, "a proof satisfying the equation is accepted");
                reach("rejected");
            }
            for k in 0..=n + 2 {
                if k != n {
                    let p = vc(&t, &fes("q", k));
                    truth(p.verify(&bases, &Commitment::from(com), &ProofChallenge::from(c)).is_err(), "one response per base");
                    truth(
                        p.verify_complete_proof(&bases, &Commitment::from(com), &ProofChallenge::from(c), &[]).is_err(),
                        "one response per base",
                    );
                    let mut pc = ProverCommittingG1::new();
                    for b in &bases {
                        pc.commit(b);
                    }
                    truth(pc.finish().gen_proof(&ProofChallenge::from(c), &msgs(&fes("z", k))).is_err(), "one secret per base");
                }
            }
        }));
        out.push(case(format!("whole n={}", n), move || {
            // verify_complete_proof: the equation and the hash
            let g: Vec<G1> = g1s("g", n);
            let m = fes("m", n);
            let mut p = ProverCommittingG1::new();
            let mut com = G1::zero();
            for i in 0..n {
                p.commit(GeneratorG1::from(g[i]));
                com = add(&com, &mul(&g[i], &m[i]));
            }
            let f = p.finish();
            let mut extra = vec![];
            put(&mut extra, &com);
            extra.extend_from_slice(b"nonce");
            let c = f.gen_challenge(&extra);
            let pr = f.gen_proof(&c, &msgs(&m)).unwrap();
            let bases: Vec<GeneratorG1> = g.iter().map(GeneratorG1::from).collect();
            let cm = Commitment::from(com);
            truth(pr.verify_complete_proof(&bases, &cm, &c, b"nonce").unwrap(), "an honest whole proof verifies");
            reach("whole");
            let (t, _) = vc_parts(&pr);
            let alt = g1("alt");
            let q = fes("q", n);
            match choose("what", 4 + n as u32) as usize {
                0 => truth(!vc(&t, &q).verify_complete_proof(&bases, &cm, &c, b"nonc").unwrap(), "bound to the nonce"),
                1 => truth(!vc(&t, &q).verify_complete_proof(&bases, &cm, &c, b"nonde").unwrap(), "bound to the nonce"),
                2 => {
                    assume_differ(&alt, &t);
                    truth(!vc(&alt, &q).verify_complete_proof(&bases, &cm, &c, b"nonce").unwrap(), "bound to the random commitment");
                }
                3 => {
                    assume_differ(&alt, &com);
                    truth(
                        !vc(&t, &q).verify_complete_proof(&bases, &Commitment::from(alt), &c, b"nonce").unwrap(),
                        "bound to the commitment",
                    );
                }
                i => {
                    let i = i - 4;
                    assume_differ(&alt, &g[i]);
                    let mut b2 = bases.clone();
                    b2[i] = GeneratorG1::from(alt);
                    truth(!vc(&t, &q).verify_complete_proof(&b2, &cm, &c, b"nonce").unwrap(), "bound to the bases");
                }
            }
            reach("bound");
        }));
    }
    out
}

/// an honest signature with keys
fn signed(n: usize) -> (PublicKey, SecretKey, Vec<Fr>, Signature) {
    let m = fes("m", n);
    let (pk, sk) = Issuer::new_keys(n).unwrap();
    let s = Issuer::sign(&msgs(&m), &sk, &pk).unwrap();
    (pk, sk, m, s)
}
fn proof_messages(m: &[Fr], revealed: &[usize], ext: &BTreeMap<usize, Fr>) -> Vec<ProofMessage> {
    m.iter()
        .enumerate()
        .map(|(i, v)| {
            if revealed.contains(&i) {
                ProofMessage::Revealed(msg(v))
            } else if let Some(b) = ext.get(&i) {
                ProofMessage::Hidden(HiddenMessage::ExternalBlinding(msg(v), ProofNonce::from(b)))
            } else {
                ProofMessage::Hidden(HiddenMessage::ProofSpecificBlinding(msg(v)))
            }
        })
        .collect()
}
fn prove(pk: &PublicKey, s: &Signature, m: &[Fr], revealed: &[usize], nonce: &ProofNonce) -> (ProofRequest, SignatureProof) {
    let rq = Verifier::new_proof_request(revealed, pk).unwrap();
    let pok = Prover::commit_signature_pok(&rq, &proof_messages(m, revealed, &BTreeMap::new()), s).unwrap();
    let c = Prover::create_challenge_hash(&[pok.clone()], None, nonce).unwrap();
    (rq, Prover::generate_signature_pok(pok, &c).unwrap())
}

/// B04: proofs of knowledge of a signature
pub fn b04(thorough: bool) -> Vec<Case> {
    let mut out = vec![];
    let nmax = if thorough { 4 } else { 3 };
    for n in 1..=nmax {
        for rev in subsets(n) {
            let r2 = rev.clone();
            out.push(case(format!("complete n={} revealed={:?}", n, rev), move || {
                let rev = r2.clone();
                let hid: Vec<usize> = (0..n).filter(|i| !rev.contains(i)).collect();
                let given = choose("given", 2) == 1;
                let ext: BTreeMap<usize, Fr> = if given { hid.iter().map(|i| (*i, fe(&format!("b{}", i)))).collect() } else { BTreeMap::new() };
                let nonce = ProofNonce::from(fe("nonce"));
                let (pk, _, m, s) = signed(n);
                let rq = Verifier::new_proof_request(&rev, &pk).unwrap();
                truth(rq.revealed_messages == rev.iter().copied().collect(), "the request names the positions");
                let pok = Prover::commit_signature_pok(&rq, &proof_messages(&m, &rev, &ext), &s).unwrap();
                let c = Prover::create_challenge_hash(&[pok.clone()], None, &nonce).unwrap();
                let p = Prover::generate_signature_pok(pok.clone(), &c).unwrap();
                truth(p.revealed_messages.keys().copied().collect::<Vec<_>>() == rev, "exactly the requested messages are revealed");
                for (i, v) in &p.revealed_messages {
                    same(v.as_ref(), &m[*i], "the revealed messages are the signed ones");
                }
                let got = Verifier::verify_signature_pok(&rq, &p, &nonce);
                truth(got.is_ok(), "an honest proof is accepted");
                let got = got.unwrap();
                truth(got.len() == rev.len(), "the revealed messages are returned");
                for (v, i) in got.iter().zip(&rev) {
                    same(v.as_ref(), &m[*i], "the revealed messages are returned");
                }
                let c2 = Verifier::create_challenge_hash(&[p.clone()], &[rq.clone()], &nonce, None).unwrap();
                same(c2.as_ref(), c.as_ref(), "prover and verifier derive the same challenge");
                truth(
                    p.proof.verify(&pk, &p.revealed_messages, &c2).unwrap() == PoKOfSignatureProofStatus::Success,
                    "an honest proof is accepted",
                );
                reach("complete");
                // hidden messages given an external blinding answer with it
                for (k, i) in hid.iter().enumerate() {
                    let r = p.proof.get_resp_for_message(k).unwrap();
                    if let Some(b) = ext.get(i) {
                        same(r.as_ref(), &fsub(b, &fmul(c.as_ref(), &m[*i])), "the answer for a hidden message uses its blinding");
                    }
                }
                truth(p.proof.get_resp_for_message(hid.len()).is_err(), "no answer beyond the hidden messages");
                // nothing is shared between two proofs of one signature
                let (_, q) = prove(&pk, &s, &m, &rev, &nonce);
                let (a, b) = (Pok::read(&p.proof), Pok::read(&q.proof));
                differ(&a.a, &b.a, "fresh randomisation of the signature");
                differ(&a.abar, &b.abar, "fresh randomisation of the signature");
                differ(&a.d, &b.d, "fresh randomisation of the signature");
                differ(&a.t1, &b.t1, "fresh randomisation of the signature");
                differ(&a.t2, &b.t2, "fresh randomisation of the signature");
            }));
            let r2 = rev.clone();
            out.push(case(format!("exact n={} revealed={:?}", n, rev), move || {
                // arbitrary key, proof, messages and challenge
                let rev = r2.clone();
                let pk = free_pk(n);
                let m = fes("m", n);
                let p = Pok {
                    a: g1("A'"),
                    abar: g1("Abar"),
                    d: g1("d"),
                    t1: g1("T1"),
                    r1: fes("r", 2),
                    t2: g1("T2"),
                    r2: fes("q", 2 + n - rev.len()),
                };
                let c = fe("c");
                let st = p.build().verify(&pk, &map(&rev, &m), &ProofChallenge::from(c)).unwrap();
                let pair = !is_same(&p.a, &G1::zero()) && Bls12::pairing(p.a, *pk.w.as_ref()) == Bls12::pairing(p.abar, G2::one());
                let h0 = pt(&pk.h0);
                let v1 = add(&add(&mul(&p.a, &p.r1[0]), &mul(&h0, &p.r1[1])), &mul(&sub(&p.abar, &p.d), &c));
                let mut pr = G1::one();
                let mut v2 = add(&mul(&p.d, &p.r2[0]), &mul(&h0, &p.r2[1]));
                let mut k = 2;
                for i in 0..n {
                    if rev.contains(&i) {
                        pr = add(&pr, &mul(&pt(&pk.h[i]), &m[i]));
                    } else {
                        v2 = add(&v2, &mul(&pt(&pk.h[i]), &p.r2[k]));
                        k += 1;
                    }
                }
                let v2 = sub(&v2, &mul(&pr, &c));
                match st {
                    PoKOfSignatureProofStatus::Success => {
                        truth(pair, "accepted: A' is not zero and Abar = x A'");
                        same(&v1, &p.t1, "accepted: first relation");
                        same(&v2, &p.t2, "accepted: second relation");
                        reach("accepted");
                    }
                    PoKOfSignatureProofStatus::BadSignature => {
                        truth(!pair, "BadSignature means the pairing check failed");
                        reach("bad-signature");
                    }
                    PoKOfSignatureProofStatus::BadHiddenMessage => {
                        truth(pair, "the pairing check comes first");
                        differ(&v1, &p.t1, "BadHiddenMessage means the first relation failed");
                        reach("bad-hidden");
                    }
                    PoKOfSignatureProofStatus::BadRevealedMessage => {
                        truth(pair, "the pairing check comes first");
                        differ(&v2, &p.t2, "BadRevealedMessage means the second relation failed");
                        reach("bad-revealed");
                    }
                }
            }));
            let r2 = rev.clone();
            out.push(case(format!("extract n={} revealed={:?}", n, rev), move || {
                // two accepted answers yield a signature on the revealed messages
                let rev = r2.clone();
                let pk = free_pk(n);
                let m = fes("m", n);
                let p = Pok {
                    a: g1("A'"),
                    abar: g1("Abar"),
                    d: g1("d"),
                    t1: g1("T1"),
                    r1: fes("r", 2),
                    t2: g1("T2"),
                    r2: fes("q", 2 + n - rev.len()),
                };
                let q = Pok { r1: fes("ra", 2), r2: fes("qa", 2 + n - rev.len()), ..p.clone() };
                let (c1, c2) = (fe("c1"), fe("c2"));
                assume_differ(&c1, &c2);
                let shown = map(&rev, &m);
                let ok = |p: &Pok, c: &Fr| p.build().verify(&pk, &shown, &ProofChallenge::from(c)).unwrap().is_valid();
                if !ok(&p, &c1) || !ok(&q, &c2) {
                    return;
                }
                let k = finv(&fsub(&c2, &c1));
                let ex = |a: &Fr, b: &Fr| fmul(&fsub(a, b), &k);
                let minus_e = ex(&p.r1[0], &q.r1[0]);
                let rr = ex(&p.r1[1], &q.r1[1]);
                let minus_r3 = ex(&p.r2[0], &q.r2[0]);
                let sp = ex(&p.r2[1], &q.r2[1]);
                // a prover who knows no relation between the key's points has r3 != 0
                assume_differ(&minus_r3, &Fr::zero());
                let r3 = fsub(&Fr::zero(), &minus_r3);
                let a = mul(&p.a, &r3);
                let e = fsub(&Fr::zero(), &minus_e);
                let s = fadd(&sp, &fmul(&rr, &r3));
                let mut full = vec![];
                let mut j = 2;
                for i in 0..n {
                    if rev.contains(&i) {
                        full.push(m[i]);
                    } else {
                        full.push(ex(&p.r2[j], &q.r2[j]));
                        j += 1;
                    }
                }
                truth(equation(&a, &e, &s, &full, &pk), "two answers give a signature on the revealed messages");
                reach("extracted");
            }));
            let r2 = rev.clone();
            out.push(case(format!("bound n={} revealed={:?}", n, rev), move || {
                // the challenge is fixed by everything the proof is about
                let rev = r2.clone();
                let hid: Vec<usize> = (0..n).filter(|i| !rev.contains(i)).collect();
                let what = choose("what", 7 + hid.len() as u32) as usize;
                let (nonce, other_nonce) = two_fes("nonce", "nonce2", what == 0);
                let nonce = ProofNonce::from(nonce);
                let (pk, _, m, s) = signed(n);
                let (rq, p) = prove(&pk, &s, &m, &rev, &nonce);
                truth(Verifier::verify_signature_pok(&rq, &p, &nonce).is_ok(), "an honest proof is accepted");
                let base = Verifier::create_challenge_hash(&[p.clone()], &[rq.clone()], &nonce, None).unwrap();
                let mut v = Pok::read(&p.proof);
                let mut rq2 = rq.clone();
                let mut nonce2 = nonce.clone();
                match what {
                    0 => {
                        nonce2 = ProofNonce::from(other_nonce);
                    }
                    1 => {
                        v.a = other_g1("alt", &v.a);
                    }
                    2 => {
                        v.abar = other_g1("alt", &v.abar);
                    }
                    3 => {
                        v.d = other_g1("alt", &v.d);
                    }
                    4 => {
                        v.t1 = other_g1("alt", &v.t1);
                    }
                    5 => {
                        v.t2 = other_g1("alt", &v.t2);
                    }
                    6 => {
                        rq2.verification_key.h0 = GeneratorG1::from(other_g1("alt", pk.h0.as_ref()));
                    }
                    i => {
                        let i = hid[i - 7];
                        rq2.verification_key.h[i] = GeneratorG1::from(other_g1("alt", pk.h[i].as_ref()));
                    }
                }
                let p2 = SignatureProof { revealed_messages: p.revealed_messages.clone(), proof: v.build() };
                let c = Verifier::create_challenge_hash(&[p2.clone()], &[rq2.clone()], &nonce2, None).unwrap();
                differ(c.as_ref(), base.as_ref(), "the challenge depends on every public value");
                reach("bound");
                // and the nonce alone makes the verifier refuse
                truth(Verifier::verify_signature_pok(&rq, &p, &nonce2).is_err() || is_same(nonce2.as_ref(), nonce.as_ref()), "a proof for another nonce is refused");
            }));
            let r2 = rev.clone();
            out.push(case(format!("request n={} revealed={:?}", n, rev), move || {
                // the verifier asks for some positions and the prover answers for others,
                // deriving the challenge the way the verifier will
                let rev = r2.clone();
                let nonce = ProofNonce::from(fe("nonce"));
                let (pk, _, m, s) = signed(n);
                for asked in subsets(n) {
                    if asked == rev {
                        continue;
                    }
                    let rq = Verifier::new_proof_request(&asked, &pk).unwrap();
                    let own = Verifier::new_proof_request(&rev, &pk).unwrap();
                    let pok = Prover::commit_signature_pok(&own, &proof_messages(&m, &rev, &BTreeMap::new()), &s).unwrap();
                    let c0 = ProofChallenge::hash(b"x");
                    let draft = Prover::generate_signature_pok(pok.clone(), &c0).unwrap();
                    let c = Verifier::create_challenge_hash(&[draft], &[rq.clone()], &nonce, None).unwrap();
                    let p = Prover::generate_signature_pok(pok, &c).unwrap();
                    truth(Verifier::verify_signature_pok(&rq, &p, &nonce).is_err(), "a proof that reveals other messages than requested is refused");
                    reach("request");
                }
            }));
        }
        out.push(case(format!("revealed-value n={}", n), move || {
            // a prover holding a signature prepares T2 with an extra multiple of h_0 so
            // that the disclosed value can be chosen after the challenge
            let nonce = ProofNonce::from(fe("nonce"));
            let t = nonzero(fe("t"));
            let (pk, _, m, s) = signed(n);
            let rq = Verifier::new_proof_request(&[0], &pk).unwrap();
            let pok = Prover::commit_signature_pok(&rq, &proof_messages(&m, &[0], &BTreeMap::new()), &s).unwrap();
            let c0 = ProofChallenge::hash(b"x");
            let draft = Prover::generate_signature_pok(pok.clone(), &c0).unwrap();
            let mut v = Pok::read(&draft.proof);
            v.t2 = add(&v.t2, &mul(&pt(&pk.h[0]), &t));
            let p = SignatureProof { revealed_messages: draft.revealed_messages.clone(), proof: v.build() };
            let c = Verifier::create_challenge_hash(&[p], &[rq.clone()], &nonce, None).unwrap();
            let done = Prover::generate_signature_pok(pok, &c).unwrap();
            let mut w = Pok::read(&done.proof);
            w.t2 = v.t2;
            // m* = m - t / c
            let forged = fsub(&m[0], &fmul(&t, &finv(c.as_ref())));
            let mut shown = BTreeMap::new();
            shown.insert(0, msg(&forged));
            let p = SignatureProof { revealed_messages: shown, proof: w.build() };
            reach("revealed-value");
            truth(Verifier::verify_signature_pok(&rq, &p, &nonce).is_err(), "only signed values can be revealed");
        }));
        out.push(case(format!("refused n={}", n), move || {
            let nonce = ProofNonce::from(fe("nonce"));
            let ds = fes("d", n);
            let (pk, _, m, s) = signed(n);
            let all: Vec<usize> = (0..n).collect();
            // a prover cannot start from messages the signature does not cover
            for i in 0..n {
                assume_differ(&ds[i], &m[i]);
                let mut m2 = m.clone();
                m2[i] = ds[i];
                truth(PoKOfSignature::init(&s, &pk, &proof_messages(&m2, &[], &BTreeMap::new())).is_err(), "no proof for unsigned messages");
                truth(PoKOfSignature::init(&s, &pk, &proof_messages(&m2, &all, &BTreeMap::new())).is_err(), "no proof for unsigned messages");
            }
            for k in 0..=n + 1 {
                if k != n {
                    let ms = proof_messages(&fes(&format!("z{}", k), k), &[], &BTreeMap::new());
                    truth(PoKOfSignature::init(&s, &pk, &ms).is_err(), "no proof for another number of messages");
                }
            }
            let (rq, p) = prove(&pk, &s, &m, &all, &nonce);
            for i in 0..n {
                let mut q = p.clone();
                q.revealed_messages.insert(i, msg(&ds[i]));
                truth(Verifier::verify_signature_pok(&rq, &q, &nonce).is_err(), "an altered revealed message is refused");
            }
            // positions beyond the key
            let beyond = n + choose("beyond", 2) as usize;
            let mut q = p.clone();
            q.revealed_messages.insert(beyond, msg(&ds[0]));
            truth(Verifier::verify_signature_pok(&rq, &q, &nonce).is_err(), "revealed positions beyond the key are refused");
            truth(Verifier::new_proof_request(&[beyond], &pk).is_err(), "a request names positions of the key");
            // a key with an identity point, under which some messages would be free
            for at in 0..n + 2 {
                let mut bad = pk.clone();
                match at {
                    0 => bad.h0 = GeneratorG1::from(G1::zero()),
                    1 => bad.w = GeneratorG2::from(G2::zero()),
                    i => bad.h[i - 2] = GeneratorG1::from(G1::zero()),
                }
                let c = ProofChallenge::from(fe("c"));
                truth(p.proof.verify(&bad, &p.revealed_messages, &c).is_err(), "no proof verifies under a malformed key");
                let mut rq = rq.clone();
                rq.verification_key = bad.clone();
                truth(Verifier::verify_signature_pok(&rq, &p, &nonce).is_err(), "no proof verifies under a malformed key");
                truth(PoKOfSignature::init(&s, &bad, &proof_messages(&m, &[], &BTreeMap::new())).is_err(), "no proof is made under a malformed key");
                reach("bad key");
            }
            // wrong numbers of answers
            let v = Pok::read(&p.proof);
            let st = |v: &Pok| v.build().verify(&pk, &p.revealed_messages, &ProofChallenge::from(fe("c")));
            for k in 0..5 {
                if k != 2 {
                    let a = Pok { r1: fes("e", k), ..v.clone() };
                    truth(st(&a).map(|s| !s.is_valid()).unwrap_or(true), "one answer per base");
                    let a = Pok { r2: fes("e", k), ..v.clone() };
                    truth(st(&a).map(|s| !s.is_valid()).unwrap_or(true), "one answer per base");
                    truth(k > 2 || a.build().get_resp_for_message(0).is_err(), "no answer to read");
                }
            }
            reach("refused");
        }));
    }
    // several proofs share one challenge
    for k in 1..=3usize {
        out.push(case(format!("several k={}", k), move || {
            let nonce = ProofNonce::from(fe("nonce"));
            let link = fe("link");
            let b = fe("blind");
            let mut poks = vec![];
            let mut rqs = vec![];
            for j in 0..k {
                let m = vec![link, fe(&format!("m{}", j))];
                let (pk, sk) = Issuer::new_keys(2).unwrap();
                let s = Issuer::sign(&msgs(&m), &sk, &pk).unwrap();
                let mut ext = BTreeMap::new();
                ext.insert(0, b);
                let rq = Verifier::new_proof_request(&[1], &pk).unwrap();
                poks.push(Prover::commit_signature_pok(&rq, &proof_messages(&m, &[1], &ext), &s).unwrap());
                rqs.push(rq);
            }
            let claims: Vec<&[u8]> = vec![b"one", b"two"];
            let c = Prover::create_challenge_hash(&poks, Some(&claims), &nonce).unwrap();
            let ps: Vec<SignatureProof> = poks.iter().map(|p| Prover::generate_signature_pok(p.clone(), &c).unwrap()).collect();
            let vch = |ps: &[SignatureProof], claims: Option<&[&[u8]]>| Verifier::create_challenge_hash(ps, &rqs, &nonce, claims).unwrap();
            let c2 = vch(&ps, Some(&claims));
            same(c.as_ref(), c2.as_ref(), "prover and verifier derive the same challenge");
            for (p, r) in ps.iter().zip(&rqs) {
                truth(p.proof.verify(&r.verification_key, &p.revealed_messages, &c2).unwrap().is_valid(), "every proof is accepted");
                same(
                    p.proof.get_resp_for_message(0).unwrap().as_ref(),
                    ps[0].proof.get_resp_for_message(0).unwrap().as_ref(),
                    "equal hidden messages with equal blindings give equal answers",
                );
            }
            let c3 = vch(&ps, Some(&[&b"one"[..], &b"twp"[..]]));
            differ(c.as_ref(), c3.as_ref(), "the claims are part of the challenge");
            let c4 = vch(&ps, None);
            differ(c.as_ref(), c4.as_ref(), "the claims are part of the challenge");
            if k > 1 {
                let mut sw = ps.clone();
                let mut v = Pok::read(&sw[k - 1].proof);
                v.t2 = g1("alt");
                assume_differ(&v.t2, &Pok::read(&ps[k - 1].proof).t2);
                sw[k - 1].proof = v.build();
                let c5 = vch(&sw, Some(&claims));
                differ(c.as_ref(), c5.as_ref(), "every proof is part of the challenge");
                truth(
                    Verifier::create_challenge_hash(&ps, &rqs[..k - 1], &nonce, None).is_err(),
                    "every proof has its request",
                );
                truth(
                    Verifier::create_challenge_hash(&ps[..k - 1], &rqs, &nonce, None).is_err(),
                    "every request has its proof",
                );
            }
            reach("several");
        }));
    }
    out
}
