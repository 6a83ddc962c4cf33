/// L04: several signers.
#[macro_export]
macro_rules! multi {
    ($m:ident) => {
        pub mod $m {
            use crate::single::$m::{point, pop, sig};
            use crate::val::*;
            use amcl_wrapper::field_elem::FieldElement as Fe;
            use amcl_wrapper::group_elem::GroupElement;
            use symcore::engine::{assert_true, case, reach, Case};
            use ursa::signatures::bls::$m::*;

            fn key_point(k: &PublicKey) -> Generator {
                Generator::from_bytes(&k.to_bytes()).unwrap()
            }
            fn key(p: &Generator) -> PublicKey {
                PublicKey::from_bytes(&p.to_bytes(false)).unwrap()
            }
            fn aggregated(p: &SignatureGroup) -> AggregatedSignature {
                if p.is_identity() {
                    return AggregatedSignature::new(&[]);
                }
                AggregatedSignature::from_bytes(&p.to_bytes(false)).unwrap()
            }
            fn apoint(s: &AggregatedSignature) -> SignatureGroup {
                SignatureGroup::from_bytes(&s.to_bytes()).unwrap()
            }
            fn keys(g: &Generator, n: usize) -> (Vec<PublicKey>, Vec<Fe>) {
                (0..n).map(|_| generate(g)).unzip()
            }
            fn without<T: Clone>(v: &[T], i: usize) -> Vec<T> {
                let mut w = v.to_vec();
                w.remove(i);
                w
            }
            fn with<T: Clone>(v: &[T], x: &T) -> Vec<T> {
                let mut w = v.to_vec();
                w.push(x.clone());
                w
            }
            fn changed<T: Clone>(v: &[T], i: usize, x: &T) -> Vec<T> {
                let mut w = v.to_vec();
                w[i] = x.clone();
                w
            }

            /// aggregation with weights derived from the keys
            fn weighted(n: usize, m: &[u8]) {
                let d = some("d");
                let ctx: Option<&'static [u8]> = if n % 2 == 0 { None } else { Some(b"some context") };
                let g = Generator::generator();
                let (vs, ks) = keys(&g, n);
                let make = |i: usize, m: &[u8], at: usize| Signature::new_with_rk_mitigation(m, ctx, &ks[i], at, &vs);
                let ss: Vec<Signature> = (0..n).map(|i| make(i, m, i)).collect();
                let (a, k) = (AggregatedSignature::new(&ss), AggregatedPublicKey::new(&vs));
                assert_true(a.verify(m, ctx, &k, &g), "all signers' aggregate is accepted");
                let (a2, k2) = (AggregatedSignature::from_bytes(&a.to_bytes()).unwrap(), AggregatedPublicKey::from_bytes(&k.to_bytes()).unwrap());
                assert_true(a2.verify(m, ctx, &k2, &g), "after decoding from bytes");
                assert_true(json(&a).verify(m, ctx, &json(&k), &g), "after decoding from JSON");
                let mut r = ss.clone();
                r.reverse();
                assert_true(AggregatedSignature::new(&r).to_bytes() == a.to_bytes(), "the order of the signatures does not matter");
                assert_true(AggregatedPublicKey::from(&vs[..]).to_bytes() == k.to_bytes(), "the aggregated key is deterministic");
                let mut other = m.to_vec();
                other.push(0);
                assert_true(!a.verify(&other, ctx, &k, &g), "for another message it is rejected");
                assert_true(!a.verify(m, Some(b"other context"), &k, &g), "for another context it is rejected");
                for i in 0..n {
                    assert_true(!AggregatedSignature::new(&without(&ss, i)).verify(m, ctx, &k, &g), "without one signature it is rejected");
                    assert_true(!AggregatedSignature::new(&with(&ss, &ss[i])).verify(m, ctx, &k, &g), "with a signature added twice it is rejected");
                    assert_true(!a.verify(m, ctx, &AggregatedPublicKey::new(&without(&vs, i)), &g), "with a signer left out it is rejected");
                    assert_true(!a.verify(m, ctx, &AggregatedPublicKey::new(&with(&vs, &vs[i])), &g), "with a signer named twice it is rejected");
                    assert_true(!AggregatedSignature::new(&changed(&ss, i, &make(i, &other, i))).verify(m, ctx, &k, &g), "with a signature of another message it is rejected");
                    assert_true(!AggregatedSignature::new(&changed(&ss, i, &Signature::new(m, ctx, &ks[i]))).verify(m, ctx, &k, &g), "with a signature without weight it is rejected");
                    if n > 1 {
                        assert_true(!AggregatedSignature::new(&changed(&ss, i, &make(i, m, (i + 1) % n))).verify(m, ctx, &k, &g), "with another signer's weight it is rejected");
                    }
                    assert_true(!ss[i].verify(m, ctx, &vs[i], &g), "a share is no signature of its own");
                }
                let (stranger, _) = generate(&g);
                assert_true(!a.verify(m, ctx, &AggregatedPublicKey::new(&with(&vs, &stranger)), &g), "with a signer who did not sign it is rejected");
                let q = apoint(&a) + point(&Signature::new(m, ctx, &d));
                assert_true(!aggregated(&q).verify(m, ctx, &k, &g), "an altered aggregate is rejected");
                reach("weighted");
            }
            /// the aggregated key weighs every key, so a key made from the others' is of no use
            fn rogue(n: usize) {
                let a = fe("a");
                let share: Vec<Fe> = (0..n).map(|i| fe(&format!("share{}", i))).collect();
                let (x, z) = (fe("x"), fe("z"));
                let y: Vec<Fe> = (0..n + 1).map(|i| fe(&format!("y{}", i))).collect();
                let m = b"message";
                let g = Generator::generator();
                let (vs, ks) = keys(&g, n);
                let mut p = &g * &a;
                for (v, s) in vs.iter().zip(&share) {
                    p = p - key_point(v) * s;
                }
                if p.is_identity() {
                    return;
                }
                let all = with(&vs, &key(&p));
                let k = AggregatedPublicKey::new(&all);
                // multiples of the message's point that are combinations of the weights, and
                // signatures by the others on another message
                let mut q = point(&Signature::new(m, None, &x));
                for i in 0..n + 1 {
                    q = q + point(&Signature::new_with_rk_mitigation(m, None, &y[i], i, &all));
                }
                for s in &ks {
                    q = q + point(&Signature::new(b"other", None, s)) * &z;
                }
                assert_true(!aggregated(&q).verify(m, None, &k, &g), "a key made from the others' does not sign for them");
                reach("rogue");
            }
            /// proofs of possession, for the sums without weights
            fn possession(n: usize) {
                let a = fe("a");
                let neg = some("share");
                let (x, y, z) = (fe("x"), fe("y"), fe("z"));
                let g = Generator::generator();
                let (vs, ks) = keys(&g, n);
                let mut p = &g * &a;
                for v in &vs {
                    p = p - key_point(v) * &neg;
                }
                // a copy of a signer's key comes with its proof
                if vs.iter().any(|v| key_point(v) == p) || p.is_identity() {
                    return;
                }
                let r = key(&p);
                let own = ProofOfPossession::new(&r, None, &x);
                let of = |p: &ProofOfPossession| SignatureGroup::from_bytes(&p.to_bytes()).unwrap();
                let mut q = of(&own);
                for (k, v) in ks.iter().zip(&vs) {
                    q = q + of(&ProofOfPossession::new(v, None, k)) * &y;
                    q = q + point(&Signature::new(r.to_bytes(), None, k)) * &z;
                }
                assert_true(!pop(&q).verify(None, &r, &g), "nobody possesses a key made from others' keys");
                reach("possession");
            }
            /// sums of plain signatures on one message
            fn plain(n: usize, m: &[u8]) {
                let xs: Vec<Fe> = (0..n).map(|i| fe(&format!("x{}", i))).collect();
                let d = some("d");
                let ctx: Option<&'static [u8]> = if n % 2 == 0 { None } else { Some(b"some context") };
                let g = Generator::generator();
                let (vs, ks) = keys(&g, n);
                let ss: Vec<Signature> = ks.iter().map(|k| Signature::new(m, ctx, k)).collect();
                let a = AggregatedSignature::new(&ss);
                assert_true(a.verify_no_rk(m, ctx, &vs, &g), "all signers' aggregate is accepted");
                let mut rev = vs.clone();
                rev.reverse();
                assert_true(a.verify_no_rk(m, ctx, &rev, &g), "the order of the keys does not matter");
                // the same sums, as a signature and a key
                let mut s = ss[0].clone();
                s.combine(&ss[1..]);
                let mut k = vs[0].clone();
                k.combine(&vs[1..]);
                assert_true(s.to_bytes() == a.to_bytes(), "combining is aggregating");
                assert_true(s.verify(m, ctx, &k, &g), "a combined signature is one for the combined key");
                let mut other = m.to_vec();
                other.push(0);
                assert_true(!a.verify_no_rk(&other, ctx, &vs, &g), "for another message it is rejected");
                assert_true(!a.verify_no_rk(m, Some(b"other context"), &vs, &g), "for another context it is rejected");
                for i in 0..n {
                    let few = AggregatedSignature::new(&without(&ss, i));
                    assert_true(!few.verify_no_rk(m, ctx, &vs, &g), "without one signature it is rejected");
                    assert_true(!a.verify_no_rk(m, ctx, &without(&vs, i), &g), "with a signer left out it is rejected");
                    assert_true(!a.verify_no_rk(m, ctx, &with(&vs, &vs[i]), &g), "with a signer named twice it is rejected");
                    if n > 1 {
                        assert_true(few.verify_no_rk(m, ctx, &without(&vs, i), &g), "the others' aggregate is accepted");
                    }
                    let bad = changed(&ss, i, &Signature::new(&other, ctx, &ks[i]));
                    assert_true(!AggregatedSignature::new(&bad).verify_no_rk(m, ctx, &vs, &g), "with a signature of another message it is rejected");
                }
                let (stranger, _) = generate(&g);
                assert_true(!a.verify_no_rk(m, ctx, &with(&vs, &stranger), &g), "with a signer who did not sign it is rejected");
                let own: Vec<Signature> = xs.iter().map(|x| Signature::new(m, ctx, x)).collect();
                assert_true(!AggregatedSignature::new(&own).verify_no_rk(m, ctx, &vs, &g), "without the keys there is no aggregate");
                let q = apoint(&a) + point(&Signature::new(m, ctx, &d));
                assert_true(!aggregated(&q).verify_no_rk(m, ctx, &vs, &g), "an altered aggregate is rejected");
                reach("plain");
            }
            /// one signature for several messages
            fn distinct(n: usize) {
                let ctx: Option<&'static [u8]> = if n % 2 == 0 { None } else { Some(b"some context") };
                let d = some("d");
                let xs: Vec<Fe> = (0..n).map(|i| fe(&format!("x{}", i))).collect();
                let vs: Vec<Fe> = (0..n).map(|i| some(&format!("v{}", i))).collect();
                let same = xs.iter().zip(&vs).all(|(x, v)| x == v);
                let g = Generator::generator();
                let ms: Vec<Vec<u8>> = messages(false).into_iter().take(n).collect();
                let ks: Vec<PublicKey> = vs.iter().map(|v| PublicKey::new(v, &g)).collect();
                let inputs: Vec<(&[u8], &PublicKey)> = ms.iter().map(|m| &m[..]).zip(&ks).collect();
                let total = |xs: &[Fe]| {
                    let ss: Vec<Signature> = ms.iter().zip(xs).map(|(m, x)| Signature::new(m, ctx, x)).collect();
                    let mut s = ss[0].clone();
                    s.combine(&ss[1..]);
                    s
                };
                let s = total(&vs);
                assert_true(s.verify_multi(&inputs, ctx, &g), "all signers' combined signature is accepted");
                let mut rev = inputs.clone();
                rev.reverse();
                assert_true(s.verify_multi(&rev, ctx, &g), "in any order");
                assert_true(total(&xs).verify_multi(&inputs, ctx, &g) == same, "accepted exactly for the signers' secrets");
                assert_true(!s.verify_multi(&inputs, Some(b"other context"), &g), "for another context it is rejected");
                for i in 0..n {
                    assert_true(!s.verify_multi(&without(&inputs, i), ctx, &g), "with a signer left out it is rejected");
                    assert_true(!s.verify_multi(&with(&inputs, &inputs[i]), ctx, &g), "with a message named twice it is rejected");
                    assert_true(!s.verify_multi(&changed(&inputs, i, &(b"another", &ks[i])), ctx, &g), "for another message it is rejected");
                    for j in 0..i {
                        // also when everybody signed it twice over
                        let mut twice = inputs.clone();
                        twice[i].0 = &ms[j];
                        let mut t = s.clone();
                        let o = sig(&(point(&Signature::new(&ms[i], ctx, &vs[i])) * &Fe::minus_one()));
                        t.combine(&[o, Signature::new(&ms[j], ctx, &vs[i])]);
                        assert_true(!t.verify_multi(&twice, ctx, &g), "messages that are not distinct are rejected");
                    }
                }
                let mut t = s.clone();
                t.combine(&[Signature::new(&ms[0], ctx, &d)]);
                assert_true(!t.verify_multi(&inputs, ctx, &g), "an altered signature is rejected");
                reach("distinct");
            }
            fn batch(n: usize) {
                let ctx: Option<&'static [u8]> = if n % 2 == 0 { None } else { Some(b"some context") };
                let xs: Vec<Fe> = (0..n).map(|i| fe(&format!("x{}", i))).collect();
                let vs: Vec<Fe> = (0..n).map(|i| some(&format!("v{}", i))).collect();
                let same = xs.iter().zip(&vs).all(|(x, v)| x == v);
                let g = Generator::generator();
                // the first two messages are equal
                let ms: Vec<Vec<u8>> = (0..n).map(|i| vec![i as u8 / 2; 3]).collect();
                let ks: Vec<PublicKey> = vs.iter().map(|v| PublicKey::new(v, &g)).collect();
                let sign = |xs: &[Fe]| -> Vec<Signature> { ms.iter().zip(xs).map(|(m, x)| Signature::new(m, ctx, x)).collect() };
                let (ss, ts) = (sign(&vs), sign(&xs));
                let input = |s: &'static [Signature], k: &'static [PublicKey], m: &'static [Vec<u8>]| -> Vec<(&'static [u8], &'static Signature, &'static PublicKey)> {
                    (0..s.len()).map(|i| (&m[i][..], &s[i], &k[i])).collect()
                };
                let leak_s = |s: Vec<Signature>| -> &'static [Signature] { Box::leak(s.into_boxed_slice()) };
                let k: &'static [PublicKey] = Box::leak(ks.into_boxed_slice());
                let m: &'static [Vec<u8>] = Box::leak(ms.clone().into_boxed_slice());
                let s = leak_s(ss);
                assert_true(Signature::batch_verify(&input(s, k, m), ctx, &g), "valid signatures are accepted together");
                assert_true(Signature::batch_verify(&input(leak_s(ts), k, m), ctx, &g) == same, "accepted exactly when each signature is valid");
                assert_true(!Signature::batch_verify(&input(s, k, m), Some(b"other context"), &g), "for another context they are rejected");
                for i in 0..n {
                    let mut w = ms.clone();
                    w[i].push(9);
                    let w: &'static [Vec<u8>] = Box::leak(w.into_boxed_slice());
                    assert_true(!Signature::batch_verify(&input(s, k, w), ctx, &g), "for another message they are rejected");
                }
                // differences that cancel in the sum
                if n > 1 {
                    let mut t = s.to_vec();
                    let d = point(&Signature::new(b"shift", ctx, &vs[0]));
                    t[0] = sig(&(point(&t[0]) + &d));
                    t[1] = sig(&(point(&t[1]) - &d));
                    assert_true(!Signature::batch_verify(&input(leak_s(t), k, m), ctx, &g), "differences that cancel are seen");
                }
                reach("batch");
            }
            fn aggregates(n: usize, size: usize) {
                let ctx: Option<&'static [u8]> = if n % 2 == 0 { None } else { Some(b"some context") };
                let d = some("d");
                let g = Generator::generator();
                let ms: Vec<Vec<u8>> = (0..n).map(|i| vec![i as u8 / 2; 3]).collect();
                let mut a = vec![];
                let mut k = vec![];
                for m in &ms {
                    let (vs, ks) = keys(&g, size);
                    let ss: Vec<Signature> = (0..size).map(|i| Signature::new_with_rk_mitigation(m, ctx, &ks[i], i, &vs)).collect();
                    a.push(AggregatedSignature::new(&ss));
                    k.push(AggregatedPublicKey::new(&vs));
                }
                let check = |ms: &[Vec<u8>], a: &[AggregatedSignature], k: &[AggregatedPublicKey], ctx: Option<&'static [u8]>| {
                    let v: Vec<(&[u8], &AggregatedSignature, &AggregatedPublicKey)> = (0..a.len()).map(|i| (&ms[i][..], &a[i], &k[i])).collect();
                    AggregatedSignature::batch_verify(&v, ctx, &g)
                };
                assert_true(check(&ms, &a, &k, ctx), "valid aggregates are accepted together");
                assert_true(!check(&ms, &a, &k, Some(b"other context")), "for another context they are rejected");
                for i in 0..n {
                    let mut w = ms.clone();
                    w[i].push(9);
                    assert_true(!check(&w, &a, &k, ctx), "for another message they are rejected");
                    let bad = aggregated(&(apoint(&a[i]) + point(&Signature::new(&ms[i], ctx, &d))));
                    assert_true(!check(&ms, &changed(&a, i, &bad), &k, ctx), "an altered aggregate is rejected");
                    let j = (i + 1) % n;
                    if i != j {
                        let mut t = a.clone();
                        let p = point(&Signature::new(b"shift", ctx, &d));
                        t[i] = aggregated(&(apoint(&t[i]) + &p));
                        t[j] = aggregated(&(apoint(&t[j]) - &p));
                        assert_true(!check(&ms, &t, &k, ctx), "differences that cancel are seen");
                        let mut u = k.clone();
                        u.swap(i, j);
                        assert_true(!check(&ms, &a, &u, ctx), "for each other's keys they are rejected");
                    }
                }
                reach("aggregates");
            }
            /// nobody, and keys that cancel, sign nothing
            fn nobody(m: &[u8]) {
                let x = some("x");
                let g = Generator::generator();
                let v = PublicKey::new(&x, &g);
                let w = PublicKey::new(&-&x, &g);
                let zero = PublicKey::new(&Fe::zero(), &g);
                let none = Signature::new(m, None, &Fe::zero());
                let a = AggregatedSignature::new(&[]);
                assert_true(!a.verify(m, None, &AggregatedPublicKey::new(&[]), &g), "no signers sign nothing");
                assert_true(!a.verify(m, None, &AggregatedPublicKey::new(&[zero.clone()]), &g), "the neutral key signs nothing");
                assert_true(!a.verify_no_rk(m, None, &[], &g), "no signers sign nothing");
                assert_true(!a.verify_no_rk(m, None, &[zero.clone()], &g), "the neutral key signs nothing");
                assert_true(!a.verify_no_rk(m, None, &[v.clone(), w.clone()], &g), "keys that cancel sign nothing");
                assert_true(!none.verify_multi(&[], None, &g), "no messages are not signed");
                assert_true(!none.verify_multi(&[(m, &zero)], None, &g), "the neutral key signs nothing");
                let s = Signature::new(m, None, &x);
                assert_true(!s.verify_multi(&[(m, &v), (b"forged", &zero)], None, &g), "the neutral key signs nothing next to others");
                assert_true(!Signature::batch_verify(&[(m, &none, &zero)], None, &g), "the neutral key signs nothing");
                assert_true(!Signature::batch_verify(&[(m, &s, &v), (b"forged", &none, &zero)], None, &g), "the neutral key signs nothing next to others");
                let k = AggregatedPublicKey::new(&[]);
                assert_true(!AggregatedSignature::batch_verify(&[(m, &a, &k)], None, &g), "no signers sign nothing");
                reach("nobody");
            }

            pub fn cases(thorough: bool, v: &mut Vec<Case>) {
                let name = stringify!($m);
                let max = if thorough { 6 } else { 4 };
                for n in 1..=max {
                    v.push(case(format!("{} weighted {}", name, n), move || weighted(n, b"message")));
                    v.push(case(format!("{} plain {}", name, n), move || plain(n, b"message")));
                    v.push(case(format!("{} possession {}", name, n), move || possession(n)));
                    if n < 4 {
                        v.push(case(format!("{} rogue {}", name, n), move || rogue(n)));
                    }
                    v.push(case(format!("{} distinct {}", name, n), move || distinct(n)));
                    v.push(case(format!("{} batch {}", name, n), move || batch(n)));
                    for size in 1..=if thorough { 3 } else { 2 } {
                        v.push(case(format!("{} aggregates {} of {}", name, n, size), move || aggregates(n, size)));
                    }
                }
                v.push(case(format!("{} weighted empty message", name), || weighted(2, b"")));
                v.push(case(format!("{} plain empty message", name), || plain(2, b"")));
                v.push(case(format!("{} nobody", name), || nobody(b"message")));
                v.push(case(format!("{} nobody empty", name), || nobody(b"")));
            }
        }
    };
}
multi!(normal);
multi!(small);
