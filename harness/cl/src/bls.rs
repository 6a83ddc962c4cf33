//! L01, L02: BLS signatures, proofs of possession and multi-signatures over BN254.
use crate::val::*;
use symcore::engine::{assert_true, case, reach, Case};
use ursa::bls::*;
use ursa::pair::{GroupOrderElement as Fe, PointG1, PointG2};

fn one() -> Fe {
    konst(1)
}
fn konst(v: u8) -> Fe {
    let mut b = vec![0u8; 32];
    b[31] = v;
    Fe::from_bytes(&b).unwrap()
}
fn key(x: &Fe) -> SignKey {
    SignKey::from_bytes(&x.to_bytes().unwrap()).unwrap()
}
/// a nonzero scalar of the adversary
fn some(name: &str) -> Fe {
    let x = fe(name);
    symcore::engine::assume_nonzero(fe_id(&x));
    x
}
fn scale(g: &Generator, k: &Fe) -> Generator {
    let p = PointG2::from_bytes(g.as_bytes()).unwrap().mul(k).unwrap();
    Generator::from_bytes(&p.to_bytes().unwrap()).unwrap()
}
fn ver(p: &PointG2) -> VerKey {
    VerKey::from_bytes(&p.to_bytes().unwrap()).unwrap()
}
fn g2of(k: &VerKey) -> PointG2 {
    PointG2::from_bytes(k.as_bytes()).unwrap()
}
fn g1of(s: &Signature) -> PointG1 {
    PointG1::from_bytes(s.as_bytes()).unwrap()
}
fn sig(p: &PointG1) -> Signature {
    Signature::from_bytes(&p.to_bytes().unwrap()).unwrap()
}
fn multi(p: &PointG1) -> MultiSignature {
    MultiSignature::from_bytes(&p.to_bytes().unwrap()).unwrap()
}
fn popof(p: &PointG1) -> ProofOfPossession {
    ProofOfPossession::from_bytes(&p.to_bytes().unwrap()).unwrap()
}
fn ok(s: &Signature, m: &[u8], k: &VerKey, g: &Generator) -> bool {
    Bls::verify(s, m, k, g).unwrap_or(false)
}
fn pop_ok(p: &ProofOfPossession, k: &VerKey, g: &Generator) -> bool {
    Bls::verify_proof_of_posession(p, k, g).unwrap_or(false)
}
fn multi_ok(s: &MultiSignature, m: &[u8], k: &[&VerKey], g: &Generator) -> bool {
    Bls::verify_multi_sig(s, m, k, g).unwrap_or(false)
}
fn json<T: serde::Serialize + serde::de::DeserializeOwned>(x: &T) -> T {
    serde_json::from_str(&serde_json::to_string(x).unwrap()).unwrap()
}
/// messages of many lengths, pairwise different
fn messages(thorough: bool) -> Vec<Vec<u8>> {
    let mut v = vec![vec![], vec![0], vec![0, 0], vec![1], b"message".to_vec(), b"messagf".to_vec()];
    let lens: &[usize] = if thorough { &[31, 32, 33, 55, 56, 63, 64, 65, 127, 128, 135, 136, 137, 255, 256, 1000, 4096, 4097, 65_536, 70_000, 1_100_000] } else { &[32, 64, 65, 136, 300, 5000, 70_000] };
    for l in lens {
        let mut m = vec![7u8; *l];
        v.push(m.clone());
        m[*l - 1] ^= 1;
        v.push(m.clone());
        m[*l - 1] ^= 1;
        m[0] ^= 0x80;
        v.push(m);
    }
    v
}

fn honest(m: &[u8], x: &Fe) {
    let g = Generator::new().unwrap();
    let k = key(x);
    let v = VerKey::new(&g, &k).unwrap();
    let s = Bls::sign(m, &k).unwrap();
    assert_true(ok(&s, m, &v, &g), "an honest signature is accepted");
    assert_true(ok(&s, m, &v, &g), "an honest signature is accepted again");
    assert_true(Bls::sign(m, &k).unwrap().as_bytes() == s.as_bytes(), "signatures are deterministic");
    let g2 = Generator::from_bytes(g.as_bytes()).unwrap();
    let k2 = SignKey::from_bytes(k.as_bytes()).unwrap();
    let v2 = VerKey::from_bytes(v.as_bytes()).unwrap();
    let s2 = Signature::from_bytes(s.as_bytes()).unwrap();
    assert_true(ok(&s2, m, &v2, &g2), "after decoding from bytes");
    assert_true(Bls::sign(m, &k2).unwrap().as_bytes() == s.as_bytes(), "the decoded key signs the same");
    assert_true(VerKey::new(&g2, &k2).unwrap().as_bytes() == v.as_bytes(), "the decoded key has the same verification key");
    let (g3, k3, v3, s3) = (json(&g), json(&k), json(&v), json(&s));
    assert_true(ok(&s3, m, &v3, &g3), "after decoding from JSON");
    assert_true(Bls::sign(m, &k3).unwrap().as_bytes() == s.as_bytes(), "the JSON key signs the same");
    assert_true(g3.as_bytes() == g.as_bytes() && k3.as_bytes() == k.as_bytes() && v3.as_bytes() == v.as_bytes() && s3.as_bytes() == s.as_bytes(), "bytes after JSON");
    reach("honest");
}
fn exact(m: &[u8]) {
    let (x, r) = (fe("x"), some("r"));
    let g = Generator::new().unwrap();
    let vs = some("v");
    let v = VerKey::new(&g, &key(&vs)).unwrap();
    // the multiple x of the message's point, for the multiple r of the generator
    let s = Bls::sign(m, &key(&x)).unwrap();
    assert_true(ok(&s, m, &v, &g) == (x == vs), "accepted exactly under the signer's key");
    let g2 = scale(&g, &r);
    assert_true(ok(&s, m, &v, &g2) == (x.mul_mod(&r).unwrap() == vs), "accepted exactly for the key's generator");
    reach("exact");
}
/// the adversary has signatures and public values of a signer it does not know
fn forgery(ms: &[Vec<u8>], target: &[u8]) {
    let known: Vec<Fe> = (0..=ms.len()).map(|i| fe(&format!("known{}", i))).collect();
    let coef: Vec<Fe> = (0..ms.len()).map(|i| fe(&format!("coef{}", i))).collect();
    let c = fe("pop");
    let g = Generator::new().unwrap();
    let k = SignKey::new(None).unwrap();
    let v = VerKey::new(&g, &k).unwrap();
    let mut p = g1of(&Bls::sign(target, &key(&known[ms.len()])).unwrap());
    for (i, m) in ms.iter().enumerate() {
        p = p.add(&g1of(&Bls::sign(m, &key(&known[i])).unwrap())).unwrap();
        p = p.add(&g1of(&Bls::sign(m, &k).unwrap()).mul(&coef[i]).unwrap()).unwrap();
    }
    let pop = ProofOfPossession::new(&v, &k).unwrap();
    p = p.add(&PointG1::from_bytes(pop.as_bytes()).unwrap().mul(&c).unwrap()).unwrap();
    assert_true(!ok(&sig(&p), target, &v, &g), "no combination of other signatures is one");
    reach("forgery");
}
fn others(ms: &[Vec<u8>]) {
    let g = Generator::new().unwrap();
    let k = SignKey::new(None).unwrap();
    let v = VerKey::new(&g, &k).unwrap();
    for a in ms {
        let s = Bls::sign(a, &k).unwrap();
        for b in ms {
            assert_true(ok(&s, b, &v, &g) == (a == b), "a signature is for one message");
        }
    }
    reach("others");
}
fn neutral(m: &[u8]) {
    let g = Generator::new().unwrap();
    let inf = PointG1::new_inf().unwrap();
    let zero = ver(&PointG2::new_inf().unwrap());
    assert_true(!ok(&sig(&inf), m, &zero, &g), "the neutral key signs nothing");
    assert_true(!pop_ok(&popof(&inf), &zero, &g), "nobody possesses the neutral key");
    assert_true(!multi_ok(&multi(&inf), m, &[], &g), "no signers sign nothing");
    assert_true(!multi_ok(&MultiSignature::new(&[]).unwrap(), m, &[], &g), "no signers sign nothing");
    assert_true(!multi_ok(&multi(&inf), m, &[&zero], &g), "the neutral key signs nothing");
    assert_true(!multi_ok(&multi(&inf), m, &[&zero, &zero], &g), "the neutral key signs nothing");
    let k = some("k");
    let p = VerKey::new(&g, &key(&k)).unwrap();
    let q = ver(&g2of(&p).neg().unwrap());
    assert_true(!multi_ok(&multi(&inf), m, &[&p, &q], &g), "keys that cancel sign nothing");
    let s = Bls::sign(m, &key(&fe("x"))).unwrap();
    assert_true(!ok(&s, m, &zero, &g), "no signature is valid for the neutral key");
    reach("neutral");
}
fn seeds() {
    let mut keys: Vec<Vec<u8>> = vec![];
    for i in 0..8u8 {
        let mut s = vec![i / 2; 32];
        s[31] = i;
        let k = SignKey::new(Some(&s)).unwrap();
        assert_true(SignKey::new(Some(&s)).unwrap().as_bytes() == k.as_bytes(), "a seed decides the key");
        assert_true(!keys.contains(&k.as_bytes().to_vec()), "seeds decide different keys");
        keys.push(k.as_bytes().to_vec());
    }
    let (a, b) = (SignKey::new(None).unwrap(), SignKey::new(None).unwrap());
    assert_true(a.as_bytes() != b.as_bytes(), "drawn keys differ");
    let (g, h) = (Generator::new().unwrap(), Generator::new().unwrap());
    assert_true(g.as_bytes() != h.as_bytes(), "drawn generators differ");
    for n in [0usize, 1, 31, 64, 127, 129].iter() {
        let b = vec![4u8; *n];
        assert_true(Generator::from_bytes(&b).is_err() && VerKey::from_bytes(&b).is_err(), "wrong lengths are errors");
        if *n != 65 {
            assert_true(Signature::from_bytes(&b).is_err() && MultiSignature::from_bytes(&b).is_err() && ProofOfPossession::from_bytes(&b).is_err(), "wrong lengths are errors");
        }
        if *n > 32 {
            assert_true(SignKey::from_bytes(&b).is_err(), "wrong lengths are errors");
        }
    }
    reach("seeds");
}

fn possession() {
    let (x, w) = (fe("x"), some("w"));
    let g = Generator::new().unwrap();
    let vs = some("v");
    // decided before anything is encoded
    let same = w == vs;
    let (k, kx) = (key(&vs), key(&x));
    let v = VerKey::new(&g, &k).unwrap();
    let p = ProofOfPossession::new(&v, &k).unwrap();
    assert_true(pop_ok(&p, &v, &g), "an honest proof of possession is accepted");
    assert_true(pop_ok(&ProofOfPossession::from_bytes(p.as_bytes()).unwrap(), &v, &g), "after decoding from bytes");
    assert_true(pop_ok(&json(&p), &json(&v), &json(&g)), "after decoding from JSON");
    assert_true(json(&p).as_bytes() == p.as_bytes(), "bytes after JSON");
    let q = ProofOfPossession::new(&v, &kx).unwrap();
    assert_true(pop_ok(&q, &v, &g) == (x == vs), "accepted exactly for the secret key");
    // of another key, with the same secret
    let u = VerKey::new(&g, &key(&w)).unwrap();
    assert_true(pop_ok(&p, &u, &g) == same, "a proof is for one key");
    assert_true(pop_ok(&ProofOfPossession::new(&u, &k).unwrap(), &v, &g) == same, "a proof is about one key");
    assert_true(pop_ok(&p, &v, &scale(&g, &w)) == (w == one()), "a proof is for one generator");
    reach("possession");
}
/// signatures are no proofs of possession and the other way round
fn domains() {
    let g = Generator::new().unwrap();
    let k = key(&some("v"));
    let v = VerKey::new(&g, &k).unwrap();
    let p = ProofOfPossession::new(&v, &k).unwrap();
    let s = Signature::from_bytes(p.as_bytes()).unwrap();
    assert_true(!ok(&s, v.as_bytes(), &v, &g), "a proof of possession is no signature of the key");
    let m = MultiSignature::from_bytes(p.as_bytes()).unwrap();
    assert_true(!multi_ok(&m, v.as_bytes(), &[&v], &g), "a proof of possession is no multi-signature of the key");
    let s = Bls::sign(v.as_bytes(), &k).unwrap();
    assert_true(ok(&s, v.as_bytes(), &v, &g), "a signature of the key is a signature");
    let q = ProofOfPossession::from_bytes(s.as_bytes()).unwrap();
    assert_true(!pop_ok(&q, &v, &g), "a signature of the key is no proof of possession");
    reach("domains");
}
/// a key made from the honest signers' keys
fn rogue(n: usize) {
    let a = fe("a");
    let neg = some("share");
    let (x, y, z) = (fe("x"), fe("y"), fe("z"));
    let g = Generator::new().unwrap();
    let ks: Vec<SignKey> = (0..n).map(|_| SignKey::new(None).unwrap()).collect();
    let vs: Vec<VerKey> = ks.iter().map(|k| VerKey::new(&g, k).unwrap()).collect();
    let mut p = PointG2::from_bytes(g.as_bytes()).unwrap().mul(&a).unwrap();
    for v in &vs {
        p = p.sub(&g2of(v).mul(&neg).unwrap()).unwrap();
    }
    let r = ver(&p);
    // what it can make: multiples of the hash, and of what the signers published
    let own = ProofOfPossession::new(&r, &key(&x)).unwrap();
    let mut q = PointG1::from_bytes(own.as_bytes()).unwrap();
    for (k, v) in ks.iter().zip(&vs) {
        let b = ProofOfPossession::new(v, k).unwrap();
        q = q.add(&PointG1::from_bytes(b.as_bytes()).unwrap().mul(&y).unwrap()).unwrap();
        // signatures of any message, the rogue key among them
        q = q.add(&g1of(&Bls::sign(r.as_bytes(), k).unwrap()).mul(&z).unwrap()).unwrap();
    }
    assert_true(!pop_ok(&popof(&q), &r, &g), "nobody possesses a key made from others' keys");
    reach("rogue");
}
fn multisig(n: usize, m: &[u8]) {
    let xs: Vec<Fe> = (0..n).map(|i| fe(&format!("x{}", i))).collect();
    let d = some("d");
    let g = Generator::new().unwrap();
    let ks: Vec<SignKey> = (0..n).map(|_| SignKey::new(None).unwrap()).collect();
    let vs: Vec<VerKey> = ks.iter().map(|k| VerKey::new(&g, k).unwrap()).collect();
    let ss: Vec<Signature> = ks.iter().map(|k| Bls::sign(m, k).unwrap()).collect();
    let (vr, sr): (Vec<&VerKey>, Vec<&Signature>) = (vs.iter().collect(), ss.iter().collect());
    let ms = MultiSignature::new(&sr).unwrap();
    assert_true(multi_ok(&ms, m, &vr, &g), "a multi-signature of all signers is accepted");
    assert_true(multi_ok(&MultiSignature::from_bytes(ms.as_bytes()).unwrap(), m, &vr, &g), "after decoding from bytes");
    assert_true(multi_ok(&json(&ms), m, &vr, &g), "after decoding from JSON");
    let (mut vr2, mut sr2) = (vr.clone(), sr.clone());
    vr2.reverse();
    assert_true(multi_ok(&ms, m, &vr2, &g), "the order of the keys does not matter");
    sr2.reverse();
    assert_true(MultiSignature::new(&sr2).unwrap().as_bytes() == ms.as_bytes(), "the order of the signatures does not matter");
    if n == 1 {
        assert_true(ms.as_bytes() == ss[0].as_bytes(), "a multi-signature of one is its signature");
        assert_true(ok(&Signature::from_bytes(ms.as_bytes()).unwrap(), m, &vs[0], &g), "a multi-signature of one");
    }
    let mut other = m.to_vec();
    other.push(0);
    assert_true(!multi_ok(&ms, &other, &vr, &g), "for another message it is rejected");
    for i in 0..n {
        let mut fewer = vr.clone();
        fewer.remove(i);
        assert_true(!multi_ok(&ms, m, &fewer, &g), "with a signer left out it is rejected");
        let mut more = vr.clone();
        more.push(&vs[i]);
        assert_true(!multi_ok(&ms, m, &more, &g), "with a signer named twice it is rejected");
        let mut part = sr.clone();
        part.remove(i);
        let few = MultiSignature::new(&part).unwrap();
        assert_true(!multi_ok(&few, m, &vr, &g), "without one signature it is rejected");
        if n > 1 {
            assert_true(multi_ok(&few, m, &fewer, &g), "the others' multi-signature is accepted");
        }
        let bad = Bls::sign(&other, &ks[i]).unwrap();
        part.insert(i, &bad);
        assert_true(!multi_ok(&MultiSignature::new(&part).unwrap(), m, &vr, &g), "with a signature of another message it is rejected");
        part[i] = &ss[i];
        part.push(&ss[i]);
        let twice = MultiSignature::new(&part).unwrap();
        assert_true(!multi_ok(&twice, m, &vr, &g), "with a signature added twice it is rejected");
        assert_true(multi_ok(&twice, m, &more, &g), "a signer who signs twice is named twice");
    }
    let stranger = VerKey::new(&g, &SignKey::new(None).unwrap()).unwrap();
    let mut more = vr.clone();
    more.push(&stranger);
    assert_true(!multi_ok(&ms, m, &more, &g), "with a signer who did not sign it is rejected");
    // what somebody without the keys sums up
    let own: Vec<Signature> = xs.iter().map(|x| Bls::sign(m, &key(x)).unwrap()).collect();
    let or: Vec<&Signature> = own.iter().collect();
    assert_true(!multi_ok(&MultiSignature::new(&or).unwrap(), m, &vr, &g), "without the keys there is no multi-signature");
    let p = PointG1::from_bytes(ms.as_bytes()).unwrap();
    let q = p.add(&g1of(&Bls::sign(m, &key(&d)).unwrap())).unwrap();
    assert_true(!multi_ok(&multi(&q), m, &vr, &g), "an altered multi-signature is rejected");
    reach("multi");
}
fn sums(n: usize) {
    let m = b"message";
    let xs: Vec<Fe> = (0..n).map(|i| fe(&format!("x{}", i))).collect();
    let vs: Vec<Fe> = (0..n).map(|i| fe(&format!("v{}", i))).collect();
    let g = Generator::new().unwrap();
    let total = |l: &[Fe]| l.iter().fold(konst(0), |a, b| a.add_mod(b).unwrap());
    let keys: Vec<VerKey> = vs.iter().map(|v| VerKey::new(&g, &key(v)).unwrap()).collect();
    let s: Vec<Signature> = xs.iter().map(|x| Bls::sign(m, &key(x)).unwrap()).collect();
    let ms = MultiSignature::new(&s.iter().collect::<Vec<_>>()).unwrap();
    let r = multi_ok(&ms, m, &keys.iter().collect::<Vec<_>>(), &g);
    let t = total(&vs);
    assert_true(r == (t != konst(0) && t == total(&xs)), "accepted exactly when the secrets agree in sum");
    reach("sums");
}

pub fn l01(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    for m in messages(thorough) {
        let n = format!("{} {:?}", m.len(), m.last().map(|x| x + m[0]));
        let m2 = m.clone();
        v.push(case(format!("honest {}", n), move || honest(&m2, &some("v"))));
        v.push(case(format!("exact {}", n), move || exact(&m)));
    }
    for k in [1u8, 2, 255].iter() {
        v.push(case(format!("honest key {}", k), move || honest(b"message", &konst(*k))));
    }
    v.push(case("honest key order-1", || honest(b"message", &one().mod_neg().unwrap())));
    v.push(case("other messages", move || others(&messages(thorough))));
    let ms = messages(false);
    for n in 0..if thorough { 8 } else { 3 } {
        let ms: Vec<_> = ms[..n].to_vec();
        v.push(case(format!("forgery {}", n), move || forgery(&ms, b"target")));
    }
    for m in messages(false) {
        v.push(case(format!("neutral {} {:?}", m.len(), m.last()), move || neutral(&m)));
    }
    v.push(case("seeds", seeds));
    v
}
pub fn l02(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    v.push(case("possession", possession));
    v.push(case("domains", domains));
    let max = if thorough { 6 } else { 4 };
    for n in 1..=max {
        v.push(case(format!("rogue {}", n), move || rogue(n)));
        v.push(case(format!("multi {}", n), move || multisig(n, b"message")));
        if n < 4 {
            v.push(case(format!("sums {}", n), move || sums(n)));
        }
    }
    v.push(case("multi empty message", || multisig(2, b"")));
    v
}
