/// L03: single signatures and proofs of possession, for both choices of groups.
#[macro_export]
macro_rules! single {
    ($m:ident) => {
        pub mod $m {
            use crate::val::*;
            use amcl_wrapper::field_elem::FieldElement as Fe;
            use amcl_wrapper::group_elem::GroupElement;
            use symcore::engine::{assert_true, case, reach, Case};
            use ursa::keys::{KeyGenOption, PrivateKey as RawKey, PublicKey as RawPublic};
            use ursa::signatures::bls::$m::*;
            use ursa::signatures::SignatureScheme;

            pub const CONTEXTS: [Option<&'static [u8]>; 3] = [None, Some(b"context one"), Some(b"context two")];

            pub fn point(s: &Signature) -> SignatureGroup {
                SignatureGroup::from_bytes(&s.to_bytes()).unwrap()
            }
            pub fn sig(p: &SignatureGroup) -> Signature {
                if p.is_identity() {
                    return Signature::new(b"", None, &Fe::zero());
                }
                Signature::from_bytes(&p.to_bytes(false)).unwrap()
            }
            pub fn pop(p: &SignatureGroup) -> ProofOfPossession {
                if p.is_identity() {
                    let k = PublicKey::new(&Fe::one(), &Generator::generator());
                    return ProofOfPossession::new(&k, None, &Fe::zero());
                }
                ProofOfPossession::from_bytes(&p.to_bytes(false)).unwrap()
            }
            fn bytes(k: &Fe) -> Vec<u8> {
                k.to_bytes()
            }
            fn scheme_ok(m: &[u8], s: &[u8], k: &[u8]) -> bool {
                Bls.verify(m, s, &RawPublic(k.to_vec())).unwrap_or(false)
            }

            fn honest(m: &[u8], x: &Fe, c: usize) {
                let g = Generator::generator() * &some("g");
                let v = PublicKey::new(x, &g);
                let ctx = CONTEXTS[c];
                let s = Signature::new(m, ctx, x);
                assert_true(s.verify(m, ctx, &v, &g), "an honest signature is accepted");
                assert_true(s.verify(m, ctx, &v, &g), "an honest signature is accepted again");
                assert_true(Signature::new(m, ctx, x).to_bytes() == s.to_bytes(), "signatures are deterministic");
                let (s2, v2) = (Signature::from_bytes(&s.to_bytes()).unwrap(), PublicKey::from_bytes(&v.to_bytes()).unwrap());
                assert_true(s2.verify(m, ctx, &v2, &g), "after decoding from bytes");
                let (s3, v3) = (json(&s), json(&v));
                assert_true(s3.verify(m, ctx, &v3, &g), "after decoding from JSON");
                assert_true(s3.to_bytes() == s.to_bytes() && v3.to_bytes() == v.to_bytes() && s2.to_bytes() == s.to_bytes() && v2.to_bytes() == v.to_bytes(), "encodings round trip");
                let p = ProofOfPossession::new(&v, ctx, x);
                assert_true(p.verify(ctx, &v, &g), "an honest proof of possession is accepted");
                let p2 = ProofOfPossession::from_bytes(&p.to_bytes()).unwrap();
                assert_true(p2.verify(ctx, &v2, &g) && json(&p).verify(ctx, &v3, &g), "a decoded proof of possession is accepted");
                for (i, other) in CONTEXTS.iter().enumerate() {
                    if i != c {
                        assert_true(!s.verify(m, *other, &v, &g), "a signature is for one context");
                        assert_true(!p.verify(*other, &v, &g), "a proof of possession is for one context");
                    }
                }
                assert_true(s.to_bytes().len() == SIGNATURE_SIZE && v.to_bytes().len() == PUBLIC_KEY_SIZE, "encodings have the announced lengths");
                reach("honest");
            }
            fn exact(m: &[u8], c: usize) {
                let (x, r) = (fe("x"), some("r"));
                let v = some("v");
                let (same, scaled, unit) = (x == v, &x * &r == v, r == Fe::one());
                let g = Generator::generator();
                let k = PublicKey::new(&v, &g);
                let s = Signature::new(m, CONTEXTS[c], &x);
                assert_true(s.verify(m, CONTEXTS[c], &k, &g) == same, "accepted exactly under the signer's key");
                let g2 = &g * &r;
                assert_true(s.verify(m, CONTEXTS[c], &k, &g2) == scaled, "accepted exactly for the key's generator");
                let p = ProofOfPossession::new(&k, CONTEXTS[c], &x);
                assert_true(p.verify(CONTEXTS[c], &k, &g) == same, "possession is proven exactly with the secret key");
                let u = PublicKey::new(&r, &g);
                let q = ProofOfPossession::new(&k, CONTEXTS[c], &v);
                let wrong = ProofOfPossession::new(&u, CONTEXTS[c], &v);
                assert_true(q.verify(CONTEXTS[c], &k, &g), "an honest proof of possession");
                assert_true(q.verify(CONTEXTS[c], &k, &g2) == unit, "a proof is for one generator");
                assert_true(q.verify(CONTEXTS[c], &u, &g) == (r == v), "a proof is for one key");
                assert_true(wrong.verify(CONTEXTS[c], &k, &g) == (r == v), "a proof is about one key");
                reach("exact");
            }
            /// the adversary has signatures and public values of a signer it does not know
            fn forgery(ms: &[Vec<u8>], target: &[u8]) {
                let known: Vec<Fe> = (0..=ms.len()).map(|i| fe(&format!("known{}", i))).collect();
                let coef: Vec<Fe> = (0..ms.len()).map(|i| fe(&format!("coef{}", i))).collect();
                let (c, d) = (fe("pop"), fe("ctx"));
                let g = Generator::generator();
                let (v, k) = generate(&g);
                let mut p = point(&Signature::new(target, None, &known[ms.len()]));
                for (i, m) in ms.iter().enumerate() {
                    p = p + point(&Signature::new(m, None, &known[i]));
                    p = p + point(&Signature::new(m, None, &k)) * &coef[i];
                }
                let own = ProofOfPossession::new(&v, None, &k);
                p = p + SignatureGroup::from_bytes(&own.to_bytes()).unwrap() * &c;
                p = p + point(&Signature::new(target, CONTEXTS[1], &k)) * &d;
                assert_true(!sig(&p).verify(target, None, &v, &g), "no combination of other signatures is one");
                let q = pop(&p);
                let (w, _) = generate(&g);
                assert_true(!q.verify(None, &w, &g), "no combination of signatures proves possession of another key");
                reach("forgery");
            }
            fn others(ms: &[Vec<u8>]) {
                let g = Generator::generator();
                let (v, k) = generate(&g);
                for a in ms {
                    let s = Signature::new(a, None, &k);
                    for b in ms {
                        assert_true(s.verify(b, None, &v, &g) == (a == b), "a signature is for one message");
                    }
                }
                reach("others");
            }
            fn domains() {
                let v = some("v");
                let g = Generator::generator();
                let k = PublicKey::new(&v, &g);
                let p = ProofOfPossession::new(&k, None, &v);
                assert_true(!Signature::from_bytes(&p.to_bytes()).unwrap().verify(k.to_bytes(), None, &k, &g), "a proof of possession is no signature of the key");
                let s = Signature::new(k.to_bytes(), None, &v);
                assert_true(s.verify(k.to_bytes(), None, &k, &g), "a signature of the key is a signature");
                assert_true(!ProofOfPossession::from_bytes(&s.to_bytes()).unwrap().verify(None, &k, &g), "a signature of the key is no proof of possession");
                reach("domains");
            }
            /// byte strings that encode nothing, and the neutral element, verify nothing
            fn neutral(m: &[u8]) {
                let x = some("x");
                let y = fe("y");
                let g = Generator::generator();
                let zero = PublicKey::new(&Fe::zero(), &g);
                let none = Signature::new(m, None, &Fe::zero());
                assert_true(!none.verify(m, None, &zero, &g), "the neutral key signs nothing");
                assert_true(!Signature::new(m, None, &y).verify(m, None, &zero, &g), "no signature is valid for the neutral key");
                assert_true(!ProofOfPossession::new(&zero, None, &Fe::zero()).verify(None, &zero, &g), "nobody possesses the neutral key");
                let mut sum = PublicKey::new(&x, &g);
                sum.combine(&[PublicKey::new(&-&x, &g)]);
                assert_true(!none.verify(m, None, &sum, &g), "keys that cancel sign nothing");
                assert_true(!none.verify(m, None, &PublicKey::new(&x, &g), &g), "the neutral signature is none");
                reach("neutral");
            }
            fn malformed(m: &[u8]) {
                let v = some("v");
                let g = Generator::generator();
                let k = PublicKey::new(&v, &g).to_bytes();
                let s = Signature::new(m, None, &v).to_bytes();
                assert_true(scheme_ok(m, &s, &k), "an honest signature is accepted");
                let mut kinds: Vec<(usize, u8, u8)> = vec![];
                for n in [0usize, 1, 2, 48, 49, 96, 97, 98, 192, 193, 194].iter() {
                    for first in [0u8, 1, 2, 3, 4, 5, 255].iter() {
                        for rest in [0xffu8, 0xfe].iter() {
                            kinds.push((*n, *first, *rest));
                        }
                    }
                }
                for (n, first, rest) in kinds {
                    let mut b = vec![rest; n];
                    if n > 0 {
                        b[0] = first;
                    }
                    assert_true(!scheme_ok(m, &b, &k), "bytes that encode nothing are no signature");
                    assert_true(!scheme_ok(m, &s, &b), "bytes that encode nothing are no key");
                    for j in [2usize, 50, 97, 193].iter() {
                        assert_true(!scheme_ok(m, &b, &vec![0xffu8; *j]), "bytes that encode nothing sign nothing");
                    }
                    let mut c = b.clone();
                    if n > 0 {
                        c[0] = 4;
                    }
                    assert_true(!scheme_ok(m, &b, &c), "bytes that encode nothing sign nothing");
                    let _ = ProofOfPossession::from_bytes(&b).map(|p| assert_true(!p.verify(None, &PublicKey::new(&v, &g), &g), "bytes that encode nothing prove nothing"));
                    let _ = AggregatedPublicKey::from_bytes(&b);
                    let _ = AggregatedSignature::from_bytes(&b);
                }
                for n in 0..s.len() {
                    assert_true(!scheme_ok(m, &s[..n], &k), "a prefix of a signature is none");
                }
                for n in 0..k.len() {
                    assert_true(!scheme_ok(m, &s, &k[..n]), "a prefix of a key is none");
                }
                reach("malformed");
            }
            /// through the byte-string interface
            fn scheme(m: &[u8]) {
                let x = some("x");
                let b = Bls::new();
                let (p, s) = b.keypair(Some(KeyGenOption::FromSecretKey(RawKey(bytes(&x))))).unwrap();
                assert_true(p.0 == PublicKey::new(&x, &Generator::generator()).to_bytes() && s.0 == bytes(&x), "the key pair of a secret key");
                let t = b.sign(m, &s).unwrap();
                assert_true(t == Signature::new(m, None, &x).to_bytes(), "the interface signs with the default context");
                assert_true(b.verify(m, &t, &p).unwrap(), "an honest signature is accepted");
                let mut other = m.to_vec();
                other.push(1);
                assert_true(!b.verify(&other, &t, &p).unwrap(), "for another message it is rejected");
                let (q, r) = b.keypair(None).unwrap();
                let (q2, r2) = b.keypair(None).unwrap();
                assert_true(q.0 != q2.0 && r.0 != r2.0, "drawn keys differ");
                assert_true(b.verify(m, &b.sign(m, &r).unwrap(), &q).unwrap(), "a drawn key signs");
                assert_true(!b.verify(m, &b.sign(m, &r).unwrap(), &q2).unwrap() && !b.verify(m, &t, &q).unwrap(), "another key's signature is rejected");
                assert_true(Bls::signature_size() == t.len() && Bls::public_key_size() == p.0.len() && Bls::private_key_size() == s.0.len(), "the announced sizes");
                for n in [0usize, 1, 47, 49, 96].iter() {
                    let k = RawKey(vec![1u8; *n]);
                    assert_true(b.sign(m, &k).is_err() && b.keypair(Some(KeyGenOption::FromSecretKey(RawKey(vec![1u8; *n])))).is_err(), "secret keys have one length");
                }
                reach("scheme");
            }
            fn seeds(thorough: bool) {
                let b = Bls::new();
                let mut seen: Vec<Vec<u8>> = vec![];
                for i in 0..if thorough { 24u8 } else { 8 } {
                    let mut s = vec![i / 2; i as usize];
                    s.push(i);
                    let seed = || Some(KeyGenOption::UseSeed(s.clone()));
                    let (p, k) = b.keypair(seed()).unwrap();
                    let (p2, k2) = b.keypair(seed()).unwrap();
                    assert_true(p.0 == p2.0 && k.0 == k2.0, "a seed decides the key");
                    assert_true(!seen.contains(&k.0), "seeds decide different keys");
                    assert_true(b.verify(b"m", &b.sign(b"m", &k).unwrap(), &p).unwrap(), "a key from a seed signs");
                    seen.push(k.0.clone());
                }
                reach("seeds");
            }

            pub fn cases(thorough: bool, v: &mut Vec<Case>) {
                let name = stringify!($m);
                for (i, m) in messages(thorough).into_iter().enumerate() {
                    let (m2, c) = (m.clone(), i % 3);
                    v.push(case(format!("{} honest {}", name, i), move || honest(&m2, &some("v"), c)));
                    v.push(case(format!("{} exact {}", name, i), move || exact(&m, c)));
                }
                for k in [1u64, 2, 255].iter() {
                    v.push(case(format!("{} honest key {}", name, k), move || honest(b"message", &Fe::from(*k), 0)));
                }
                v.push(case(format!("{} honest key order-1", name), || honest(b"message", &Fe::minus_one(), 0)));
                v.push(case(format!("{} other messages", name), move || others(&messages(thorough))));
                let ms = messages(false);
                for n in 0..if thorough { 7 } else { 3 } {
                    let ms: Vec<_> = ms[..n].to_vec();
                    v.push(case(format!("{} forgery {}", name, n), move || forgery(&ms, b"target")));
                }
                v.push(case(format!("{} domains", name), domains));
                v.push(case(format!("{} neutral", name), || neutral(b"message")));
                v.push(case(format!("{} neutral empty", name), || neutral(b"")));
                v.push(case(format!("{} malformed", name), || malformed(b"message")));
                v.push(case(format!("{} scheme", name), || scheme(b"message")));
                v.push(case(format!("{} scheme empty", name), || scheme(b"")));
                v.push(case(format!("{} seeds", name), move || seeds(thorough)));
            }
        }
    };
}
single!(normal);
single!(small);
