//! BBS+ key generation and encodings.
use crate::bbsp::*;
use crate::obj::*;
use crate::val::*;
use bbs::prelude::*;
use bbs::*;
use ff_zeroize::Field;
use pairing_plus::bls12_381::{Fr, G1, G2};
use pairing_plus::CurveProjective;
use std::collections::{BTreeMap, BTreeSet};
use std::convert::TryFrom;
use symcore::engine::*;

fn json<T: serde::Serialize + serde::de::DeserializeOwned>(v: &T) -> Option<T> {
    serde_json::from_str(&serde_json::to_string(v).unwrap()).ok()
}
/// round trip of a fixed-length type: both forms, the generic conversions, serde
macro_rules! fixed {
    ($t:ty, $v:expr, $label:expr) => {{
        let v: $t = $v;
        let c = v.to_bytes_compressed_form();
        let u = v.to_bytes_uncompressed_form();
        let back = [
            <$t>::from(c),
            <$t>::from(&c),
            <$t>::from(u),
            <$t>::from(&u),
            <$t>::try_from(&c[..]).unwrap(),
            <$t>::try_from(&u[..]).unwrap(),
            <$t>::try_from(c.to_vec()).unwrap(),
            <$t>::from(c.to_vec().into_boxed_slice()),
            json(&v).expect("serde round trip"),
        ];
        for b in back.iter() {
            truth(*b == v, concat!($label, ": decoding gives the value back"));
            truth(b.to_bytes_compressed_form()[..] == c[..], concat!($label, ": encoding is stable"));
            truth(b.to_bytes_uncompressed_form()[..] == u[..], concat!($label, ": encoding is stable"));
        }
        let boxed: Box<[u8]> = v.clone().into();
        truth(boxed[..] == c[..], concat!($label, ": boxed form"));
        for n in 0..c.len() {
            truth(<$t>::try_from(&c[..n]).is_err(), concat!($label, ": a cut encoding is refused"));
        }
        reach($label);
    }};
}
/// round trip of a variable-length type, compared through its encodings
macro_rules! var {
    ($t:ty, $v:expr, $label:expr) => {{
        let v: $t = $v;
        let c = v.to_bytes_compressed_form();
        let u = v.to_bytes_uncompressed_form();
        let back = [
            <$t>::from_bytes_compressed_form(&c).unwrap(),
            <$t>::from_bytes_uncompressed_form(&u).unwrap(),
            <$t>::try_from(&c[..]).unwrap(),
            <$t>::try_from(c.clone()).unwrap(),
            <$t>::from(c.clone().into_boxed_slice()),
            json(&v).expect("serde round trip"),
        ];
        for b in back.iter() {
            truth(b.to_bytes_compressed_form() == c, concat!($label, ": encoding is stable"));
            truth(b.to_bytes_uncompressed_form() == u, concat!($label, ": encoding is stable"));
        }
        reach($label);
        back
    }};
}

pub fn b05(thorough: bool) -> Vec<Case> {
    let mut out = vec![];
    out.push(case("elements", move || {
        let (f, g, h) = (fe("f"), g1("g"), g2("h"));
        fixed!(SignatureMessage, SignatureMessage::from(f), "message");
        fixed!(ProofNonce, ProofNonce::from(f), "nonce");
        fixed!(ProofChallenge, ProofChallenge::from(f), "challenge");
        fixed!(SignatureBlinding, SignatureBlinding::from(f), "blinding");
        fixed!(SecretKey, SecretKey::from(f), "secret key");
        fixed!(Commitment, Commitment::from(g), "commitment");
        fixed!(GeneratorG1, GeneratorG1::from(g), "generator");
        fixed!(GeneratorG2, GeneratorG2::from(h), "generator 2");
        fixed!(DeterministicPublicKey, DeterministicPublicKey::from(h), "short key");
    }));
    out.push(case("signatures", move || {
        let (a, e, s) = (g1("A"), fe("e"), fe("s"));
        let v = sig(&a, &e, &s);
        fixed!(Signature, v.clone(), "signature");
        let (a2, e2, s2) = sig_parts(&v);
        same(&a, &a2, "signature components");
        same(&e, &e2, "signature components");
        same(&s, &s2, "signature components");
        let v = blind_sig(&a, &e, &s);
        fixed!(BlindSignature, v, "blind signature");
        let (a2, e2, s2) = blind_parts(&v);
        same(&a, &a2, "signature components");
        same(&e, &e2, "signature components");
        same(&s, &s2, "signature components");
    }));
    let nmax = if thorough { 6 } else { 3 };
    for n in 0..=nmax {
        out.push(case(format!("keys n={}", n), move || {
            let pk = free_pk(n);
            for b in var!(PublicKey, pk.clone(), "public key").iter() {
                truth(*b == pk, "public key: decoding gives the value back");
            }
        }));
        out.push(case(format!("bad keys n={}", n), move || {
            // a key with an identity point does not decode
            let mut pk = free_pk(n);
            match choose("at", n as u32 + 2) as usize {
                0 => pk.h0 = GeneratorG1::from(G1::zero()),
                1 => pk.w = GeneratorG2::from(G2::zero()),
                i => pk.h[i - 2] = GeneratorG1::from(G1::zero()),
            }
            truth(PublicKey::from_bytes_compressed_form(pk.to_bytes_compressed_form()).is_err(), "a malformed key does not decode");
            truth(PublicKey::from_bytes_uncompressed_form(pk.to_bytes_uncompressed_form()).is_err(), "a malformed key does not decode");
            reach("bad-key");
        }));
        out.push(case(format!("proofs n={}", n), move || {
            let t = g1("T");
            let r = fes("r", n);
            for b in var!(ProofG1, vc(&t, &r), "vector proof").iter() {
                let (t2, r2) = vc_parts(b);
                same(&t, &t2, "vector proof components");
                truth(r2.len() == n, "vector proof components");
                for (x, y) in r.iter().zip(&r2) {
                    same(x, y, "vector proof components");
                }
            }
            let p = Pok {
                a: g1("A"),
                abar: g1("Abar"),
                d: g1("d"),
                t1: g1("T1"),
                r1: fes("e", choose("e", 4) as usize),
                t2: g1("T2"),
                r2: r.clone(),
            };
            let all = |q: &Pok, p: &Pok| {
                for (x, y) in [(&q.a, &p.a), (&q.abar, &p.abar), (&q.d, &p.d), (&q.t1, &p.t1), (&q.t2, &p.t2)].iter() {
                    same(*x, *y, "proof components");
                }
                truth(q.r1.len() == p.r1.len() && q.r2.len() == p.r2.len(), "proof components");
                for (x, y) in q.r1.iter().chain(&q.r2).zip(p.r1.iter().chain(&p.r2)) {
                    same(x, y, "proof components");
                }
            };
            for b in var!(PoKOfSignatureProof, p.build(), "signature proof").iter() {
                all(&Pok::read(b), &p);
            }
            // with revealed messages at any positions
            let mut shown = BTreeMap::new();
            for (k, i) in [0usize, 1, 7, 8, 255, 256, 65536].iter().enumerate().take(n) {
                shown.insert(*i, SignatureMessage::from(fe(&format!("m{}", k))));
            }
            let sp = SignatureProof { revealed_messages: shown.clone(), proof: p.build() };
            for b in var!(SignatureProof, sp, "disclosure proof").iter() {
                truth(b.revealed_messages == shown, "disclosure proof: revealed messages");
                all(&Pok::read(&b.proof), &p);
            }
            let (c, ch) = (g1("C"), fe("c"));
            let ctx = BlindSignatureContext {
                commitment: Commitment::from(c),
                challenge_hash: ProofChallenge::from(ch),
                proof_of_hidden_messages: vc(&t, &r),
            };
            for b in var!(BlindSignatureContext, ctx, "signing request").iter() {
                same(b.commitment.as_ref(), &c, "signing request components");
                same(b.challenge_hash.as_ref(), &ch, "signing request components");
                let (t2, r2) = vc_parts(&b.proof_of_hidden_messages);
                same(&t, &t2, "signing request components");
                truth(r2.len() == n, "signing request components");
                for (x, y) in r.iter().zip(&r2) {
                    same(x, y, "signing request components");
                }
            }
        }));
        // truncated encodings are refused
        out.push(case(format!("cut n={}", n), move || {
            let p = Pok { a: g1("A"), abar: g1("B"), d: g1("d"), t1: g1("T1"), r1: fes("e", 2), t2: g1("T2"), r2: fes("r", n) };
            let mut shown = BTreeMap::new();
            shown.insert(1, SignatureMessage::from(fe("m")));
            let pk = free_pk(n);
            macro_rules! cut {
                ($t:ty, $v:expr) => {{
                    let v: $t = $v;
                    let (c, u) = (v.to_bytes_compressed_form(), v.to_bytes_uncompressed_form());
                    for k in 0..c.len() {
                        truth(<$t>::from_bytes_compressed_form(&c[..k]).is_err(), "a cut encoding is refused");
                    }
                    for k in 0..u.len() {
                        truth(<$t>::from_bytes_uncompressed_form(&u[..k]).is_err(), "a cut encoding is refused");
                    }
                }};
            }
            match choose("type", 6) {
                0 => cut!(PublicKey, pk),
                1 => cut!(ProofG1, vc(&g1("T"), &fes("r", n))),
                2 => cut!(PoKOfSignatureProof, p.build()),
                3 => cut!(SignatureProof, SignatureProof { revealed_messages: shown, proof: p.build() }),
                4 => cut!(
                    BlindSignatureContext,
                    BlindSignatureContext {
                        commitment: Commitment::from(g1("C")),
                        challenge_hash: ProofChallenge::from(fe("c")),
                        proof_of_hidden_messages: vc(&g1("T"), &fes("r", n)),
                    }
                ),
                _ => cut!(ProofRequest, Verifier::new_proof_request(&(0..n).collect::<Vec<_>>(), &pk).unwrap()),
            }
            reach("cut");
        }));
    }
    let wide = if thorough { 34 } else { 18 };
    for n in 1..=wide {
        out.push(case(format!("request n={}", n), move || {
            let pk = free_pk(n);
            let sets: Vec<Vec<usize>> = if n <= 4 {
                subsets(n)
            } else {
                let mut v: Vec<Vec<usize>> = (0..n).map(|i| vec![i]).collect();
                v.push(vec![]);
                v.push((0..n).collect());
                v.push((0..n).step_by(2).collect());
                v.push((1..n).step_by(3).collect());
                v
            };
            for s in sets {
                let rq = Verifier::new_proof_request(&s, &pk).unwrap();
                let set: BTreeSet<usize> = s.iter().copied().collect();
                let (c, u) = (rq.to_bytes_compressed_form(), rq.to_bytes_uncompressed_form());
                for b in [
                    ProofRequest::from_bytes_compressed_form(&c).unwrap(),
                    ProofRequest::from_bytes_uncompressed_form(&u).unwrap(),
                    json(&rq).expect("serde round trip"),
                ]
                .iter()
                {
                    truth(b.revealed_messages == set, "the requested positions survive encoding");
                    truth(b.verification_key == pk, "the key of a request survives encoding");
                }
            }
            reach("request");
        }));
    }
    out
}

pub fn b06(thorough: bool) -> Vec<Case> {
    let mut out = vec![];
    let distinct = |v: &PublicKey| {
        let mut s: BTreeSet<Vec<u8>> = v.h.iter().map(|g| g.to_bytes_compressed_form().to_vec()).collect();
        s.insert(v.h0.to_bytes_compressed_form().to_vec());
        s
    };
    let mut ns: Vec<usize> = (1..=(if thorough { 12 } else { 5 })).collect();
    ns.push(if thorough { 700 } else { 300 });
    for n in ns {
        out.push(case(format!("random n={}", n), move || {
            let (pk, sk) = generate(n).unwrap();
            let (pk2, sk2) = Issuer::new_keys(n).unwrap();
            truth(pk.message_count() == n, "a generator per message");
            let (mut a, b) = (distinct(&pk), distinct(&pk2));
            truth(a.len() == n + 1, "generators of a key are distinct");
            a.extend(b);
            truth(a.len() == 2 * n + 2, "keys do not share generators");
            differ(&sk_value(&sk), &sk_value(&sk2), "fresh secret keys");
            differ(&sk_value(&sk), &Fr::zero(), "secret keys are not zero");
            same(pk.w.as_ref(), &mul2(&G2::one(), &sk_value(&sk)), "w = x g2");
            truth(pk.validate().is_ok() && sk.validate().is_ok(), "generated keys are valid");
            reach("random");
        }));
        out.push(case(format!("short n={}", n), move || {
            let w = nonzero(g2("w"));
            let w2 = nonzero(g2("w2"));
            assume_differ(&w, &w2);
            let d = DeterministicPublicKey::from(w);
            let pk = d.to_public_key(n).unwrap();
            truth(pk == d.to_public_key(n).unwrap(), "the long key is a function of the short key");
            truth(pk.message_count() == n, "a generator per message");
            same(pk.w.as_ref(), &w, "the long key keeps w");
            let mut all = distinct(&pk);
            truth(all.len() == n + 1, "generators of a key are distinct");
            all.extend(distinct(&d.to_public_key(n + 1).unwrap()));
            all.extend(distinct(&DeterministicPublicKey::from(w2).to_public_key(n).unwrap()));
            truth(all.len() == 3 * n + 4, "generators depend on the key and on the number of messages");
            reach("short");
        }));
    }
    out.push(case("seeds", move || {
        let key = |s: &[u8]| DeterministicPublicKey::new(Some(KeyGenOption::UseSeed(s.to_vec()))).unwrap();
        let seeds: Vec<Vec<u8>> = vec![
            vec![],
            vec![0],
            vec![0, 0],
            vec![1],
            b"seed".to_vec(),
            b"seed\0".to_vec(),
            vec![7; 31],
            vec![7; 32],
            vec![7; 33],
            vec![7; 128],
            vec![7; 200],
        ];
        for (i, a) in seeds.iter().enumerate() {
            let (w, x) = key(a);
            same(w.as_ref(), &mul2(&G2::one(), &sk_value(&x)), "w = x g2");
            let (_, y) = key(a);
            same(&sk_value(&x), &sk_value(&y), "a seed determines the key");
            for b in &seeds[..i] {
                let (_, y) = key(b);
                differ(&sk_value(&x), &sk_value(&y), "different seeds give different keys");
            }
        }
        let x = nonzero(fe("x"));
        let (w, sk) = DeterministicPublicKey::new(Some(KeyGenOption::FromSecretKey(SecretKey::from(x)))).unwrap();
        same(&sk_value(&sk), &x, "a given secret key is kept");
        same(w.as_ref(), &mul2(&G2::one(), &x), "w = x g2");
        let (_, a) = DeterministicPublicKey::new(None).unwrap();
        let (_, b) = Issuer::new_short_keys(None).unwrap();
        differ(&sk_value(&a), &sk_value(&b), "fresh secret keys");
        truth(generate(0).is_err() && w.to_public_key(0).is_err(), "no keys for zero messages");
        reach("seeds");
    }));
    out
}
