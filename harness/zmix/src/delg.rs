//! Delegatable credentials: Groth signatures, credential chains, attribute tokens.
use crate::val::*;
use amcl_wrapper::extension_field_gt::GT;
use amcl_wrapper::field_elem::FieldElement;
use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
use amcl_wrapper::group_elem_g1::{G1Vector, G1};
use amcl_wrapper::group_elem_g2::{G2Vector, G2};
use std::collections::{HashMap, HashSet};
use symcore::engine::*;
use zmix::signatures::delg_cred_cdd::attribute_token::*;
use zmix::signatures::delg_cred_cdd::groth_sig::*;
use zmix::signatures::delg_cred_cdd::issuer::*;

type Eqs = Vec<(GT, GT)>;

/// e(S,R) = e(y0,g2) e(g1,V);  e(T_i,R) = e(m_i,g2) e(y_i,V)
fn eqs1(s: &Groth1Sig, m: &[G1], v: &G2, sp: &Groth1SetupParams) -> Eqs {
    let mut o = vec![(
        GT::ate_pairing(&s.S, &s.R),
        GT::ate_2_pairing(&sp.y[0], &sp.g2, &sp.g1, v),
    )];
    for i in 0..m.len() {
        o.push((
            GT::ate_pairing(&s.T[i], &s.R),
            GT::ate_2_pairing(&m[i], &sp.g2, &sp.y[i], v),
        ));
    }
    o
}
fn eqs2(s: &Groth2Sig, m: &[G2], v: &G1, sp: &Groth2SetupParams) -> Eqs {
    let mut o = vec![(
        GT::ate_pairing(&s.R, &s.S),
        GT::ate_2_pairing(&sp.g1, &sp.y[0], v, &sp.g2),
    )];
    for i in 0..m.len() {
        o.push((
            GT::ate_pairing(&s.R, &s.T[i]),
            GT::ate_2_pairing(&sp.g1, &m[i], v, &sp.y[i]),
        ));
    }
    o
}
fn holds(e: &Eqs) -> bool {
    e.iter().all(|(a, b)| is_same(a, b))
}

fn free_sp1(n: usize) -> Groth1SetupParams {
    Groth1SetupParams {
        g1: nonzero(g1("p.g1")),
        g2: nonzero(g2("p.g2")),
        y: g1s("p.y", n).into(),
    }
}
fn free_sp2(n: usize) -> Groth2SetupParams {
    Groth2SetupParams {
        g1: nonzero(g1("q.g1")),
        g2: nonzero(g2("q.g2")),
        y: g2s("q.y", n).into(),
    }
}

macro_rules! groth_cases {
    ($out:expr, $tag:expr, $n:expr, $GS:ident, $Sig:ident, $Vk:ident, $sp:ident, $eqs:ident, $m:ident, $ms:ident, $v:ident, $gvec:ident, $base:ident) => {{
        let n: usize = $n;
        for k in 0..=n {
            $out.push(case(format!("{} complete n={} k={}", $tag, n, k), move || {
                let msgs = $ms("m", k);
                let other = $ms("d", k);
                let r = nonzero(fe("r"));
                let sp = $GS::setup(n, b"label");
                truth(sp.y.len() == n, "one base per message");
                let (sk, vk) = $GS::keygen(&sp);
                same(&vk.0, &(&sp.$base * &sk), "the verification key is the secret times the generator");
                let s = $Sig::new(&msgs, &sk, &sp).unwrap();
                truth(s.verify(&msgs, &vk, &sp).unwrap(), "a signature verifies");
                truth(s.verify_batch(&msgs, &vk, &sp).unwrap(), "a signature verifies in batch mode");
                let q = s.randomize(&r);
                truth(q.verify(&msgs, &vk, &sp).unwrap(), "a randomised signature verifies");
                truth(q.verify_batch(&msgs, &vk, &sp).unwrap(), "a randomised signature verifies in batch mode");
                same(&q.R, &(&s.R * &r), "randomisation multiplies R");
                reach("complete");
                for i in 0..k {
                    assume_differ(&other[i], &msgs[i]);
                    let mut w = msgs.clone();
                    w[i] = other[i].clone();
                    truth(!s.verify(&w, &vk, &sp).unwrap(), "a changed message is refused");
                    truth(!q.verify_batch(&w, &vk, &sp).unwrap(), "a changed message is refused in batch mode");
                }
                let (_, vk2) = $GS::keygen(&sp);
                truth(!s.verify(&msgs, &vk2, &sp).unwrap(), "another key is refused");
                truth(!s.verify_batch(&msgs, &vk2, &sp).unwrap(), "another key is refused in batch mode");
            }));
            for batch in 0..2 {
                $out.push(case(format!("{} exact n={} k={} batch={}", $tag, n, k, batch), move || {
                    let sp = $sp(n);
                    let v = $v("V");
                    let msgs = $ms("m", k);
                    let s = $Sig { R: $v("R"), S: $m("S"), T: $ms("T", k).into() };
                    let vk = $Vk(v.clone());
                    let ok = if batch == 1 {
                        s.verify_batch(&msgs, &vk, &sp).unwrap()
                    } else {
                        s.verify(&msgs, &vk, &sp).unwrap()
                    };
                    let e = $eqs(&s, &msgs, &v, &sp);
                    if ok {
                        for (a, b) in e.iter() {
                            same(a, b, "an accepted signature satisfies every equation");
                        }
                        reach("accepted");
                    } else {
                        truth(!holds(&e), "a signature satisfying every equation is accepted");
                        reach("rejected");
                    }
                }));
            }
        }
        $out.push(case(format!("{} lengths n={}", $tag, n), move || {
            let sp = $sp(n);
            let sk = nonzero(fe("sk"));
            let vk = $Vk($v("V"));
            for k in n + 1..n + 3 {
                let msgs = $ms(&format!("m{}.", k), k);
                let s = $Sig { R: $v("R"), S: $m("S"), T: $ms("T", k).into() };
                truth($Sig::new(&msgs, &sk, &sp).is_err(), "signing too many messages is refused");
                truth(s.verify(&msgs, &vk, &sp).is_err(), "verifying too many messages is refused");
                truth(s.verify_batch(&msgs, &vk, &sp).is_err(), "verifying too many messages is refused");
            }
            // a signature over another number of messages is not accepted
            for k in 0..=n {
                for t in 0..=n + 1 {
                    if t == k {
                        continue;
                    }
                    let msgs = $ms("m", k);
                    let s = $Sig { R: $v("R"), S: $m("S"), T: $ms("T", t).into() };
                    let a = no_fork(|| s.verify(&msgs, &vk, &sp));
                    let b = no_fork(|| s.verify_batch(&msgs, &vk, &sp));
                    truth(!a.unwrap_or(false) && !b.unwrap_or(false), "a signature over another number of messages is refused");
                }
            }
            let honest = $Sig::new(&$ms("h", n), &sk, &sp).unwrap();
            for k in 0..n {
                let msgs = $ms("h", k);
                let vk = $Vk(&sp.$base * &sk);
                truth(!honest.verify(&msgs, &vk, &sp).unwrap_or(false), "a signature does not verify on a prefix of its messages");
                truth(!honest.verify_batch(&msgs, &vk, &sp).unwrap_or(false), "a signature does not verify on a prefix of its messages");
            }
            reach("lengths");
        }));
        $out.push(case(format!("{} key-proof n={}", $tag, n), move || {
            let sp = $sp(n);
            let sk = fe("sk");
            let c = fe("c");
            let vk = $Vk(&sp.$base * &sk);
            let com = $Vk::initiate_proof_of_knowledge_of_sigkey(&sp);
            let p = $Vk::finish_proof_of_knowledge_of_sigkey(com, sk.clone(), &c);
            truth($Vk::verify_proof_of_knowledge_of_sigkey(&p, &vk, &sp, &c).unwrap(), "an honest key proof verifies");
            let o = $Vk($v("V'"));
            assume_differ(&o.0, &vk.0);
            truth(
                !$Vk::verify_proof_of_knowledge_of_sigkey(&p, &o, &sp, &c).unwrap() || is_same(&c, &FieldElement::zero()),
                "a key proof is refused for another key",
            );
            reach("key-proof");
        }));
    }};
}

pub fn d01(thorough: bool) -> Vec<Case> {
    let mut out = vec![];
    let nmax = if thorough { 4 } else { 2 };
    for n in 1..=nmax {
        groth_cases!(out, "Groth1", n, GrothS1, Groth1Sig, Groth1Verkey, free_sp1, eqs1, g1, g1s, g2, G1Vector, g2);
        groth_cases!(out, "Groth2", n, GrothS2, Groth2Sig, Groth2Verkey, free_sp2, eqs2, g2, g2s, g1, G2Vector, g1);
    }
    out
}

struct Chain {
    chain: CredChain,
    even: Vec<EvenLevelVerkey>,
    odd: Vec<OddLevelVerkey>,
    last_sk: FieldElement,
}

/// Honest chain of `l` links; link i carries attrs[i] attributes and the
/// delegatee's key.
fn honest(l: usize, attrs: usize, a1: &[Vec<G1>], a2: &[Vec<G2>], sp1: &Groth1SetupParams, sp2: &Groth2SetupParams) -> Chain {
    let _ = attrs;
    let (root_sk, root_vk) = RootIssuer::keygen(sp1);
    let mut chain = CredChain::new();
    let mut even = vec![root_vk];
    let mut odd = vec![];
    let mut sk = root_sk;
    for i in 1..=l {
        if i % 2 == 1 {
            let (s, v) = OddLevelIssuer::keygen(sp2);
            let at: G1Vector = a1[i / 2].clone().into();
            let link = if i == 1 {
                RootIssuer::delegate(at, v.clone(), &sk, sp1).unwrap()
            } else {
                EvenLevelIssuer::new(i - 1).unwrap().delegate(at, v.clone(), &sk, sp1).unwrap()
            };
            truth(link.level == i && link.has_verkey(&v), "a delegated link has its level and carries the delegatee's key");
            chain.extend_with_odd(link).unwrap();
            odd.push(v);
            sk = s;
        } else {
            let (s, v) = EvenLevelIssuer::keygen(sp1);
            let at: G2Vector = a2[i / 2 - 1].clone().into();
            let link = OddLevelIssuer::new(i - 1).unwrap().delegate(at, v.clone(), &sk, sp2).unwrap();
            truth(link.level == i && link.has_verkey(&v), "a delegated link has its level and carries the delegatee's key");
            chain.extend_with_even(link).unwrap();
            even.push(v);
            sk = s;
        }
    }
    Chain { chain, even, odd, last_sk: sk }
}

fn attrs_of(l: usize, k: usize, tag: &str) -> (Vec<Vec<G1>>, Vec<Vec<G2>>) {
    let mut a1 = vec![];
    let mut a2 = vec![];
    for i in 1..=l {
        if i % 2 == 1 {
            a1.push(g1s(&format!("{}{}.", tag, i), k));
        } else {
            a2.push(g2s(&format!("{}{}.", tag, i), k));
        }
    }
    (a1, a2)
}

/// An arbitrary chain: every group element of every link is a free symbol,
/// except that the last attribute is the delegatee's key.
fn arbitrary(l: usize, k: usize) -> Chain {
    let even: Vec<_> = (0..l / 2 + 1).map(|i| Groth1Verkey(g2(&format!("ev{}", i)))).collect();
    let odd: Vec<_> = (0..(l + 1) / 2).map(|i| Groth2Verkey(g1(&format!("ov{}", i)))).collect();
    let (mut a1, mut a2) = attrs_of(l, k, "a");
    let r2 = g2s("R", (l + 1) / 2);
    let r1 = g1s("r", l / 2);
    let mut chain = CredChain::new();
    for i in 1..=l {
        if i % 2 == 1 {
            let j = i / 2;
            a1[j].push(odd[j].0.clone());
            chain.odd_links.push(CredLinkOdd {
                level: i,
                attributes: a1[j].clone().into(),
                signature: Groth1Sig {
                    R: r2[j].clone(),
                    S: g1(&format!("S{}", i)),
                    T: g1s(&format!("T{}.", i), k + 1).into(),
                },
            });
        } else {
            let j = i / 2 - 1;
            a2[j].push(even[j + 1].0.clone());
            chain.even_links.push(CredLinkEven {
                level: i,
                attributes: a2[j].clone().into(),
                signature: Groth2Sig {
                    R: r1[j].clone(),
                    S: g2(&format!("S{}", i)),
                    T: g2s(&format!("T{}.", i), k + 1).into(),
                },
            });
        }
    }
    Chain { chain, even, odd, last_sk: FieldElement::zero() }
}

fn chain_eqs(c: &Chain, l: usize, sp1: &Groth1SetupParams, sp2: &Groth2SetupParams) -> Eqs {
    let mut e = vec![];
    for i in 1..=l {
        if i % 2 == 1 {
            let k = &c.chain.odd_links[i / 2];
            e.extend(eqs1(&k.signature, k.attributes.as_slice(), &c.even[i / 2].0, sp1));
        } else {
            let k = &c.chain.even_links[i / 2 - 1];
            e.extend(eqs2(&k.signature, k.attributes.as_slice(), &c.odd[i / 2 - 1].0, sp2));
        }
    }
    e
}

fn verify(c: &Chain, batch: usize, l: usize, sp1: &Groth1SetupParams, sp2: &Groth2SetupParams) -> Option<bool> {
    let ev: Vec<_> = c.even.iter().take(l / 2 + 1).collect();
    let od: Vec<_> = c.odd.iter().take((l + 1) / 2).collect();
    let r = if batch == 1 {
        c.chain.verify_delegations_batched(ev, od, sp1, sp2)
    } else {
        c.chain.verify_delegations(ev, od, sp1, sp2)
    };
    r.ok()
}

pub fn d02(thorough: bool) -> Vec<Case> {
    let mut out = vec![];
    let lmax = 5;
    for l in 1..=8 {
        for k in 0..=(if thorough && l <= 3 { 2 } else if l <= 3 { 1 } else { 0 }) {
            out.push(case(format!("complete links={} attributes={}", l, k), move || {
                let (a1, a2) = attrs_of(l, k, "a");
                let sp1 = GrothS1::setup(k + 1, b"one");
                let sp2 = GrothS2::setup(k + 1, b"one");
                let c = honest(l, k, &a1, &a2, &sp1, &sp2);
                truth(c.chain.size() == l, "chain length");
                truth(verify(&c, 0, l, &sp1, &sp2) == Some(true), "an honest chain verifies");
                truth(verify(&c, 1, l, &sp1, &sp2) == Some(true), "an honest chain verifies in batch mode");
                if l % 2 == 1 {
                    truth(c.chain.verify_last_odd_delegation(&c.odd[l / 2], &c.even[l / 2], &sp1).unwrap(), "the last delegation verifies");
                } else {
                    truth(c.chain.verify_last_even_delegation(&c.even[l / 2], &c.odd[l / 2 - 1], &sp2).unwrap(), "the last delegation verifies");
                }
                for t in 1..=l {
                    let tr = c.chain.get_truncated(t).unwrap();
                    truth(tr.size() == t, "a truncated chain has the requested length");
                    let d = Chain { chain: tr, even: c.even.clone(), odd: c.odd.clone(), last_sk: FieldElement::zero() };
                    truth(verify(&d, 0, t, &sp1, &sp2) == Some(true), "a truncated chain verifies");
                    truth(verify(&d, 1, t, &sp1, &sp2) == Some(true), "a truncated chain verifies in batch mode");
                }
                truth(c.chain.get_truncated(l + 1).is_err(), "truncation to more links than there are is refused");
                truth(c.chain.get_odd_link((l + 1) / 2).is_err() && c.chain.get_even_link(l / 2).is_err(), "an index past the chain is refused");
                reach("complete");
            }));
            if l > lmax {
                continue;
            }
            for batch in 0..2 {
                out.push(case(format!("exact links={} attributes={} batch={}", l, k, batch), move || {
                    let sp1 = free_sp1(k + 1);
                    let sp2 = free_sp2(k + 1);
                    let c = arbitrary(l, k);
                    let ok = verify(&c, batch, l, &sp1, &sp2).unwrap();
                    let e = chain_eqs(&c, l, &sp1, &sp2);
                    if ok {
                        for (a, b) in e.iter() {
                            same(a, b, "in an accepted chain every link is signed by the delegator before it");
                        }
                        reach("accepted");
                    } else {
                        truth(!holds(&e), "a chain in which every link is correctly signed is accepted");
                        reach("rejected");
                    }
                }));
            }
        }
        if l > lmax {
            continue;
        }
        out.push(case(format!("wrong-keys links={}", l), move || {
            let sp1 = free_sp1(2);
            let sp2 = free_sp2(2);
            let c = arbitrary(l, 1);
            // a chain is refused when the delegatee's key is not the one signed in the link
            for i in 1..=l {
                for batch in 0..2 {
                    let mut d = Chain { chain: c.chain.clone(), even: c.even.clone(), odd: c.odd.clone(), last_sk: FieldElement::zero() };
                    if i % 2 == 1 {
                        let o = g1("other1");
                        assume_differ(&o, &d.odd[i / 2].0);
                        d.odd[i / 2] = Groth2Verkey(o);
                    } else {
                        let o = g2("other2");
                        assume_differ(&o, &d.even[i / 2].0);
                        d.even[i / 2] = Groth1Verkey(o);
                    }
                    let r = no_fork(|| verify(&d, batch, l, &sp1, &sp2));
                    truth(r != Some(true), "a link without the delegatee's key is refused");
                    // wrong level in the link
                    let mut d = Chain { chain: c.chain.clone(), even: c.even.clone(), odd: c.odd.clone(), last_sk: FieldElement::zero() };
                    if i % 2 == 1 {
                        d.chain.odd_links[i / 2].level += 2;
                    } else {
                        d.chain.even_links[i / 2 - 1].level += 2;
                    }
                    let r = no_fork(|| verify(&d, batch, l, &sp1, &sp2));
                    truth(r != Some(true), "a link with another level is refused");
                    // link without attributes
                    let mut d = Chain { chain: c.chain.clone(), even: c.even.clone(), odd: c.odd.clone(), last_sk: FieldElement::zero() };
                    if i % 2 == 1 {
                        d.chain.odd_links[i / 2].attributes = G1Vector::new(0);
                    } else {
                        d.chain.even_links[i / 2 - 1].attributes = G2Vector::new(0);
                    }
                    let r = no_fork(|| verify(&d, batch, l, &sp1, &sp2));
                    truth(r != Some(true), "a link without attributes is refused");
                    // signature over another number of attributes
                    let mut d = Chain { chain: c.chain.clone(), even: c.even.clone(), odd: c.odd.clone(), last_sk: FieldElement::zero() };
                    if i % 2 == 1 {
                        d.chain.odd_links[i / 2].signature.T = g1s("short", 1).into();
                    } else {
                        d.chain.even_links[i / 2 - 1].signature.T = g2s("short", 1).into();
                    }
                    let r = no_fork(|| verify(&d, batch, l, &sp1, &sp2));
                    truth(r != Some(true), "a signature over another number of attributes is refused");
                    // more attributes than the parameters allow
                    let mut d = Chain { chain: c.chain.clone(), even: c.even.clone(), odd: c.odd.clone(), last_sk: FieldElement::zero() };
                    if i % 2 == 1 {
                        let mut a = g1s("many", 3);
                        a.push(d.odd[i / 2].0.clone());
                        d.chain.odd_links[i / 2].attributes = a.into();
                        d.chain.odd_links[i / 2].signature.T = g1s("manyT", 4).into();
                    } else {
                        let mut a = g2s("many2", 3);
                        a.push(d.even[i / 2].0.clone());
                        d.chain.even_links[i / 2 - 1].attributes = a.into();
                        d.chain.even_links[i / 2 - 1].signature.T = g2s("manyT2", 4).into();
                    }
                    let r = no_fork(|| verify(&d, batch, l, &sp1, &sp2));
                    truth(r != Some(true), "a link with too many attributes is refused");
                }
            }
            // wrong number of keys
            for e in 0..l + 2 {
                for o in 0..l + 2 {
                    if e == l / 2 + 1 && o == (l + 1) / 2 {
                        continue;
                    }
                    let ek: Vec<_> = (0..e).map(|_| Groth1Verkey(g2("e"))).collect();
                    let ok: Vec<_> = (0..o).map(|_| Groth2Verkey(g1("o"))).collect();
                    truth(c.chain.verify_delegations(ek.iter().collect(), ok.iter().collect(), &sp1, &sp2).is_err(), "a wrong number of keys is refused");
                    truth(c.chain.verify_delegations_batched(ek.iter().collect(), ok.iter().collect(), &sp1, &sp2).is_err(), "a wrong number of keys is refused");
                }
            }
            reach("wrong-keys");
        }));
    }
    out.push(case("extend", move || {
        let sp1 = free_sp1(2);
        let sp2 = free_sp2(2);
        let _ = (&sp1, &sp2);
        let odd = |level: usize| CredLinkOdd {
            level,
            attributes: g1s("a", 1).into(),
            signature: Groth1Sig { R: g2("R"), S: g1("S"), T: g1s("T", 1).into() },
        };
        let even = |level: usize| CredLinkEven {
            level,
            attributes: g2s("b", 1).into(),
            signature: Groth2Sig { R: g1("r"), S: g2("s"), T: g2s("t", 1).into() },
        };
        let levels = [0usize, 1, 2, 3, 4, 5, 6, 7, 8, usize::MAX - 1, usize::MAX];
        for n in 0..3 {
            for l in levels.iter() {
                let mut c = CredChain::new();
                for i in 0..n {
                    c.extend_with_odd(odd(2 * i + 1)).unwrap();
                    c.extend_with_even(even(2 * i + 2)).unwrap();
                }
                truth(c.extend_with_odd(odd(*l)).is_ok() == (*l == 2 * n + 1), "an odd chain grows only by the next odd level");
                let mut c = CredChain::new();
                for i in 0..n {
                    c.extend_with_odd(odd(2 * i + 1)).unwrap();
                    c.extend_with_even(even(2 * i + 2)).unwrap();
                }
                truth(c.extend_with_even(even(*l)).is_ok() == (*l == 2 * n + 2), "an even chain grows only by the next even level");
            }
        }
        for l in levels.iter() {
            truth(EvenLevelIssuer::new(*l).is_ok() == (l % 2 == 0), "even level issuers have even levels");
            truth(OddLevelIssuer::new(*l).is_ok() == (l % 2 == 1), "odd level issuers have odd levels");
        }
        let e = CredChain::new();
        truth(e.verify_delegations(vec![&Groth1Verkey(g2("v"))], vec![], &sp1, &sp2).is_err(), "an empty chain is refused");
        truth(e.verify_delegations_batched(vec![&Groth1Verkey(g2("v"))], vec![], &sp1, &sp2).is_err(), "an empty chain is refused");
        truth(e.verify_last_odd_delegation(&Groth2Verkey(g1("w")), &Groth1Verkey(g2("v")), &sp1).is_err(), "no delegation in an empty chain");
        // too many attributes for the parameters
        let sk = nonzero(fe("sk"));
        for k in 0..4 {
            let r = EvenLevelIssuer::new(0).unwrap().delegate(g1s("x", k).into(), Groth2Verkey(g1("w")), &sk, &sp1);
            truth(r.is_ok() == (k < 2), "delegation leaves room for the key");
            let r = OddLevelIssuer::new(1).unwrap().delegate(g2s("z", k).into(), Groth1Verkey(g2("v")), &sk, &sp2);
            truth(r.is_ok() == (k < 2), "delegation leaves room for the key");
        }
        reach("extend");
    }));
    out
}

fn revealed_sets(l: usize, k: usize) -> Vec<Vec<Vec<usize>>> {
    let s = subsets(k);
    let mut out: Vec<Vec<Vec<usize>>> = vec![vec![]];
    for _ in 0..l {
        let mut n = vec![];
        for o in out.iter() {
            for x in s.iter() {
                let mut o = o.clone();
                o.push(x.clone());
                n.push(o);
            }
        }
        out = n;
    }
    out
}

fn as_sets(r: &Vec<Vec<usize>>) -> Vec<HashSet<usize>> {
    r.iter().map(|x| x.iter().cloned().collect()).collect()
}

fn same_comm(a: &AttributeTokenComm, b: &AttributeTokenComm, label: &str) {
    truth(a.comms_s.len() == b.comms_s.len() && a.comms_t.len() == b.comms_t.len(), label);
    for (x, y) in a.comms_s.iter().zip(b.comms_s.iter()) {
        same(x, y, label);
    }
    for (x, y) in a.comms_t.iter().zip(b.comms_t.iter()) {
        truth(x.len() == y.len(), label);
        for (p, q) in x.iter().zip(y.iter()) {
            same(p, q, label);
        }
    }
}

/// the revealed sets of long chains of links with one attribute: none, all, every
/// other one, and those of one link only
fn some_revealed_sets(l: usize) -> Vec<Vec<Vec<usize>>> {
    let of = |f: &dyn Fn(usize) -> bool| (0..l).map(|i| if f(i) { vec![0] } else { vec![] }).collect::<Vec<_>>();
    let mut out = vec![of(&|_| false), of(&|_| true), of(&|i| i % 2 == 0), of(&|i| i % 2 == 1)];
    out.extend((3..l).map(|x| of(&|i| i == x)));
    out
}

pub fn d03(thorough: bool) -> Vec<Case> {
    let mut out = vec![];
    let (lmax, long) = if thorough { (6, 10) } else { (4, 7) };
    for l in 1..=long {
        for k in 1..=2 {
            if k == 2 && l > (if thorough { 3 } else { 2 }) {
                continue;
            }
            for rev in if l > lmax { some_revealed_sets(l) } else { revealed_sets(l, k) } {
                let r = rev.clone();
                out.push(case(format!("complete links={} attributes={} revealed={:?}", l, k, rev), move || {
                    let (a1, a2) = attrs_of(l, k, "a");
                    let sp1 = GrothS1::setup(k + 1, b"one");
                    let sp2 = GrothS2::setup(k + 1, b"one");
                    let c = honest(l, k, &a1, &a2, &sp1, &sp2);
                    let ipk = &c.even[0];
                    let mut at = AttributeToken::new(&c.chain, &sp1, &sp2);
                    let comm = at.commitment(as_sets(&r)).unwrap();
                    // exactly the requested attributes are disclosed
                    for i in 1..=l {
                        if i % 2 == 1 {
                            let m = &comm.odd_level_revealed_attributes[i / 2];
                            truth(m.len() == r[i - 1].len(), "only the requested attributes are disclosed");
                            for j in r[i - 1].iter() {
                                same(&m[j], &a1[i / 2][*j], "the disclosed attribute is the signed one");
                            }
                        } else {
                            let m = &comm.even_level_revealed_attributes[i / 2 - 1];
                            truth(m.len() == r[i - 1].len(), "only the requested attributes are disclosed");
                            for j in r[i - 1].iter() {
                                same(&m[j], &a2[i / 2 - 1][*j], "the disclosed attribute is the signed one");
                            }
                        }
                    }
                    let ch = AttributeToken::gen_challenge(&comm, ipk, b"nonce".to_vec());
                    let ev: Vec<_> = c.even.iter().skip(1).collect();
                    let od: Vec<_> = c.odd.iter().collect();
                    let resp = at.response(&comm, &c.last_sk, &ch, ev, od).unwrap();
                    let rec = AttributeToken::reconstruct_commitment(l, &comm, &resp, &ch, as_sets(&r), ipk, &sp1, &sp2).unwrap();
                    same_comm(&comm, &rec, "the verifier recomputes the prover's commitment");
                    let pre = PrecompForCommitmentReconstitution::new(ipk, &sp1, &sp2);
                    let rec2 = AttributeToken::reconstruct_commitment_with_precomputed_vals(l, &comm, &resp, &ch, as_sets(&r), &sp1, &sp2, &pre).unwrap();
                    same_comm(&comm, &rec2, "the verifier recomputes the prover's commitment from precomputed values");
                    let ch2 = AttributeToken::gen_challenge(&rec, ipk, b"nonce".to_vec());
                    same(&ch, &ch2, "the recomputed challenge is the prover's");
                    // a verifier holding its own copy of the revealed attributes hashes the same bytes
                    let mut copy = rec.clone();
                    copy.odd_level_revealed_attributes = rebuild(&comm.odd_level_revealed_attributes);
                    copy.even_level_revealed_attributes = rebuild(&comm.even_level_revealed_attributes);
                    let ch3 = AttributeToken::gen_challenge(&copy, ipk, b"nonce".to_vec());
                    same(&ch, &ch3, "the challenge does not depend on how the token was transported");
                    reach("complete");
                    let ch4 = AttributeToken::gen_challenge(&rec, ipk, b"other".to_vec());
                    differ(&ch, &ch4, "the challenge covers the signed message");
                    // a token shown with a different disclosed value is refused
                    for i in 1..=l {
                        for j in r[i - 1].iter() {
                            let mut f = comm.clone();
                            if i % 2 == 1 {
                                let d = g1("d1");
                                assume_differ(&d, &a1[i / 2][*j]);
                                f.odd_level_revealed_attributes[i / 2].insert(*j, d);
                            } else {
                                let d = g2("d2");
                                assume_differ(&d, &a2[i / 2 - 1][*j]);
                                f.even_level_revealed_attributes[i / 2 - 1].insert(*j, d);
                            }
                            let rec = AttributeToken::reconstruct_commitment(l, &f, &resp, &ch, as_sets(&r), ipk, &sp1, &sp2).unwrap();
                            let c5 = AttributeToken::gen_challenge(&rec, ipk, b"nonce".to_vec());
                            differ(&ch, &c5, "a changed disclosed attribute changes the challenge");
                            differ(&rec.comms_t[i - 1][*j], &comm.comms_t[i - 1][*j], "a changed disclosed attribute changes the commitment");
                            reach("changed-attribute");
                        }
                    }
                }));
            }
        }
        // what an accepted token proves
        for k in 1..=(if l > 2 { 1 } else { 2 }) {
            let sets = if l > lmax { some_revealed_sets(l) } else { revealed_sets(l, k) };
            for rev in sets {
                let r = rev.clone();
                for pre in 0..2 {
                    let r = r.clone();
                    out.push(case(format!("exact links={} attributes={} revealed={:?} precomputed={}", l, k, rev, pre), move || {
                        // arbitrary responses: the recomputed commitments are the ones the
                        // protocol prescribes
                        exact_token(l, k, &r, pre == 1);
                        reach("exact");
                    }));
                }
            }
        }
        out.push(case(format!("malformed links={}", l), move || {
            let k = 2;
            let rev: Vec<Vec<usize>> = (0..l).map(|i| if i % 2 == 0 { vec![0] } else { vec![1] }).collect();
            let sp1 = free_sp1(k + 1);
            let mut sp2 = free_sp2(k + 1);
            sp2.g1 = sp1.g1.clone();
            sp2.g2 = sp1.g2.clone();
            let ipk = Groth1Verkey(g2("ipk"));
            let c = fe("c");
            let p = PrecompForCommitmentReconstitution::new(&ipk, &sp1, &sp2);
            for m in 0..MALFORMED {
                let (mut comm, mut resp) = free_token(l, k, &rev);
                let mut sets = as_sets(&rev);
                if !malform(m, &mut comm, &mut resp, &mut sets) {
                    continue;
                }
                let a = AttributeToken::reconstruct_commitment(l, &comm, &resp, &c, sets.clone(), &ipk, &sp1, &sp2);
                truth(a.is_err(), &format!("malformed token {} is refused", m));
                let b = AttributeToken::reconstruct_commitment_with_precomputed_vals(l, &comm, &resp, &c, sets, &sp1, &sp2, &p);
                truth(b.is_err(), &format!("malformed token {} is refused with precomputed values", m));
                reach("malformed");
            }
        }));
        out.push(case(format!("binding links={}", l), move || {
            let k = 2;
            let (comm, _resp) = free_token(l, k, &vec![vec![0]; l]);
            let ipk = Groth1Verkey(g2("ipk"));
            let base = AttributeToken::gen_challenge(&comm, &ipk, b"nonce".to_vec());
            let chk = |c: &AttributeTokenComm, what: &str| {
                let d = AttributeToken::gen_challenge(c, &ipk, b"nonce".to_vec());
                differ(&d, &base, what);
            };
            let gtx = GT::ate_pairing(&g1("fresh1"), &g2("fresh2"));
            for i in 0..l {
                let mut f = comm.clone();
                f.comms_s[i] = gtx.clone();
                assume_differ(&gtx, &comm.comms_s[i]);
                chk(&f, "the challenge covers the signature commitments");
                for j in 0..=k {
                    let mut f = comm.clone();
                    f.comms_t[i][j] = gtx.clone();
                    assume_differ(&gtx, &comm.comms_t[i][j]);
                    chk(&f, "the challenge covers the attribute commitments");
                }
                let mut f = comm.clone();
                if i % 2 == 0 {
                    f.odd_level_blinded_r[i / 2] = g2("fresh2");
                    assume_differ(&f.odd_level_blinded_r[i / 2], &comm.odd_level_blinded_r[i / 2]);
                    chk(&f, "the challenge covers the blinded R values");
                    let mut f = comm.clone();
                    f.odd_level_revealed_attributes[i / 2].insert(0, g1("fresh1"));
                    assume_differ(&f.odd_level_revealed_attributes[i / 2][&0], &comm.odd_level_revealed_attributes[i / 2][&0]);
                    chk(&f, "the challenge covers the disclosed attributes");
                    let mut f = comm.clone();
                    let v = f.odd_level_revealed_attributes[i / 2].remove(&0).unwrap();
                    f.odd_level_revealed_attributes[i / 2].insert(1, v);
                    chk(&f, "the challenge covers the position of the disclosed attributes");
                } else {
                    f.even_level_blinded_r[i / 2] = g1("fresh1");
                    assume_differ(&f.even_level_blinded_r[i / 2], &comm.even_level_blinded_r[i / 2]);
                    chk(&f, "the challenge covers the blinded R values");
                    let mut f = comm.clone();
                    f.even_level_revealed_attributes[i / 2].insert(0, g2("fresh2"));
                    assume_differ(&f.even_level_revealed_attributes[i / 2][&0], &comm.even_level_revealed_attributes[i / 2][&0]);
                    chk(&f, "the challenge covers the disclosed attributes");
                    let mut f = comm.clone();
                    let v = f.even_level_revealed_attributes[i / 2].remove(&0).unwrap();
                    f.even_level_revealed_attributes[i / 2].insert(1, v);
                    chk(&f, "the challenge covers the position of the disclosed attributes");
                }
            }
            let other = Groth1Verkey(g2("ipk'"));
            assume_differ(&other.0, &ipk.0);
            differ(&AttributeToken::gen_challenge(&comm, &other, b"nonce".to_vec()), &base, "the challenge covers the root key");
            reach("binding");
        }));
    }
    out
}

/// The same map built by inserting in another order (another hash table).
fn rebuild<G: Clone>(v: &Vec<HashMap<usize, G>>) -> Vec<HashMap<usize, G>> {
    v.iter()
        .map(|m| {
            let mut ks: Vec<usize> = m.keys().cloned().collect();
            ks.sort();
            let mut o = HashMap::new();
            let first: Vec<usize> = m.keys().cloned().collect();
            // look for a table that iterates in another order
            for _ in 0..64 {
                o = HashMap::new();
                for k in ks.iter().rev() {
                    o.insert(*k, m[k].clone());
                }
                if ks.len() < 2 || o.keys().cloned().collect::<Vec<_>>() != first {
                    break;
                }
            }
            o
        })
        .collect()
}

const MALFORMED: usize = 30;

/// One defect of shape; false when the token has no such part.
fn malform(m: usize, comm: &mut AttributeTokenComm, resp: &mut AttributeTokenResp, sets: &mut Vec<HashSet<usize>>) -> bool {
    fn pop<T>(v: &mut Vec<T>) -> bool {
        v.pop().is_some()
    }
    macro_rules! shorter {
        ($v:expr, $t:ident) => {{
            let mut w: Vec<_> = $v.iter().cloned().collect();
            let r = w.pop().is_some();
            $v = w.into();
            r
        }};
    }
    macro_rules! longer {
        ($v:expr) => {{
            let mut w: Vec<_> = $v.iter().cloned().collect();
            match w.last().cloned() {
                Some(x) => {
                    w.push(x);
                    $v = w.into();
                    true
                }
                None => false,
            }
        }};
    }
    match m {
        0 => { comm.comms_t[0] = vec![]; true }
        1 => pop(&mut comm.comms_t),
        2 => pop(&mut comm.comms_s),
        3 => pop(sets),
        4 => { comm.odd_level_revealed_attributes[0].clear(); true }
        5 => match comm.even_level_revealed_attributes.get_mut(0) { Some(x) => { x.clear(); true } None => false },
        6 => { sets[0].insert(2); true }
        7 => { sets[0].insert(9); true }
        8 => shorter!(resp.odd_level_resp_s, G1Vector),
        9 => shorter!(resp.even_level_resp_s, G2Vector),
        10 => shorter!(resp.odd_level_resp_vk, G1Vector),
        11 => shorter!(resp.even_level_resp_vk, G2Vector),
        12 => pop(&mut resp.odd_level_resp_t),
        13 => pop(&mut resp.even_level_resp_t),
        14 => pop(&mut resp.odd_level_resp_a),
        15 => pop(&mut resp.even_level_resp_a),
        16 => shorter!(resp.odd_level_resp_t[0], G1Vector),
        17 => match resp.even_level_resp_t.get_mut(0) { Some(x) => shorter!(*x, G2Vector), None => false },
        18 => shorter!(resp.odd_level_resp_a[0], G1Vector),
        19 => match resp.even_level_resp_a.get_mut(0) { Some(x) => shorter!(*x, G2Vector), None => false },
        20 => shorter!(comm.odd_level_blinded_r, G2Vector),
        21 => shorter!(comm.even_level_blinded_r, G1Vector),
        22 => pop(&mut comm.odd_level_revealed_attributes),
        23 => pop(&mut comm.even_level_revealed_attributes),
        24 => { let l = comm.comms_t.len() - 1; pop(&mut comm.comms_t[l]) }
        25 => { let x = comm.comms_t[0][0].clone(); comm.comms_t[0].push(x); true }
        // a response moved from one parity to the other
        26 => shorter!(resp.even_level_resp_s, G2Vector) && longer!(resp.odd_level_resp_s),
        27 => match resp.even_level_resp_t.pop() { Some(_) => { let x = resp.odd_level_resp_t[0].clone(); resp.odd_level_resp_t.push(x); true } None => false },
        28 => { comm.comms_t[0] = vec![]; resp.odd_level_resp_t[0] = G1Vector::new(0); true }
        _ => { sets[0].clear(); true }
    }
}

fn free_token(l: usize, k: usize, rev: &Vec<Vec<usize>>) -> (AttributeTokenComm, AttributeTokenResp) {
    let no = (l + 1) / 2;
    let ne = l / 2;
    let mut comm = AttributeTokenComm {
        odd_level_blinded_r: g2s("R", no).into(),
        even_level_blinded_r: g1s("r", ne).into(),
        comms_s: vec![],
        comms_t: vec![],
        odd_level_revealed_attributes: vec![],
        even_level_revealed_attributes: vec![],
    };
    let mut resp = AttributeTokenResp {
        resp_csk: fe("csk"),
        odd_level_resp_vk: g1s("zvk", if l % 2 == 1 { no - 1 } else { no }).into(),
        even_level_resp_vk: g2s("wvk", if l % 2 == 0 { ne - 1 } else { ne }).into(),
        odd_level_resp_s: g1s("zs", no).into(),
        even_level_resp_s: g2s("ws", ne).into(),
        odd_level_resp_t: vec![],
        even_level_resp_t: vec![],
        odd_level_resp_a: vec![],
        even_level_resp_a: vec![],
    };
    for i in 1..=l {
        let h = k - rev[i - 1].len();
        comm.comms_s.push(GT::ate_pairing(&g1(&format!("cs{}", i)), &G2::generator()));
        comm.comms_t.push((0..=k).map(|j| GT::ate_pairing(&g1(&format!("ct{}.{}", i, j)), &G2::generator())).collect());
        if i % 2 == 1 {
            comm.odd_level_revealed_attributes.push(rev[i - 1].iter().map(|j| (*j, g1(&format!("att{}.{}", i, j)))).collect());
            resp.odd_level_resp_t.push(g1s(&format!("zt{}.", i), k + 1).into());
            resp.odd_level_resp_a.push(g1s(&format!("za{}.", i), h).into());
        } else {
            comm.even_level_revealed_attributes.push(rev[i - 1].iter().map(|j| (*j, g2(&format!("att{}.{}", i, j)))).collect());
            resp.even_level_resp_t.push(g2s(&format!("wt{}.", i), k + 1).into());
            resp.even_level_resp_a.push(g2s(&format!("wa{}.", i), h).into());
        }
    }
    (comm, resp)
}

fn exact_token(l: usize, k: usize, rev: &Vec<Vec<usize>>, pre: bool) {
    let sp1 = free_sp1(k + 1);
    let mut sp2 = free_sp2(k + 1);
    // attribute tokens need both parameter sets over the same generators
    sp2.g1 = sp1.g1.clone();
    sp2.g2 = sp1.g2.clone();
    let ipk = Groth1Verkey(g2("ipk"));
    let c = fe("c");
    let (comm, resp) = free_token(l, k, rev);
    let rec = if pre {
        let p = PrecompForCommitmentReconstitution::new(&ipk, &sp1, &sp2);
        AttributeToken::reconstruct_commitment_with_precomputed_vals(l, &comm, &resp, &c, as_sets(rev), &sp1, &sp2, &p).unwrap()
    } else {
        AttributeToken::reconstruct_commitment(l, &comm, &resp, &c, as_sets(rev), &ipk, &sp1, &sp2).unwrap()
    };
    let nc = -&c;
    let one = FieldElement::one();
    let _ = one;
    for i in 1..=l {
        let h: Vec<usize> = (0..k).filter(|j| !rev[i - 1].contains(j)).collect();
        if i % 2 == 1 {
            let r = &comm.odd_level_blinded_r[i / 2];
            // the delegator's key, blinded: ipk^-c at level 1, the response above
            let key = |y: &G1| -> GT {
                if i == 1 {
                    GT::ate_pairing(&(y * &nc), &ipk.0)
                } else {
                    GT::ate_pairing(&(-y), &resp.even_level_resp_vk[i / 2 - 1])
                }
            };
            let zs = GT::ate_pairing(&resp.odd_level_resp_s[i / 2], r);
            let want = gmul(&gmul(&zs, &key(&sp1.g1)), &GT::ate_pairing(&(&sp1.y[0] * &nc), &sp1.g2));
            same(&rec.comms_s[i - 1], &want, "the recomputed s commitment follows the protocol");
            for j in 0..=k {
                let zt = GT::ate_pairing(&resp.odd_level_resp_t[i / 2][j], r);
                let m = if j == k {
                    if i != l {
                        GT::ate_pairing(&(-&resp.odd_level_resp_vk[i / 2]), &sp1.g2)
                    } else {
                        GT::ate_pairing(&(-(&sp1.g1 * &resp.resp_csk)), &sp1.g2)
                    }
                } else if let Some(p) = h.iter().position(|x| *x == j) {
                    GT::ate_pairing(&(-&resp.odd_level_resp_a[i / 2][p]), &sp1.g2)
                } else {
                    GT::ate_pairing(&(&comm.odd_level_revealed_attributes[i / 2][&j] * &nc), &sp1.g2)
                };
                let want = gmul(&gmul(&zt, &m), &key(&sp1.y[j]));
                same(&rec.comms_t[i - 1][j], &want, "the recomputed attribute commitment follows the protocol");
            }
        } else {
            let r = &comm.even_level_blinded_r[i / 2 - 1];
            let vk = &resp.odd_level_resp_vk[i / 2 - 1];
            let zs = GT::ate_pairing(r, &resp.even_level_resp_s[i / 2 - 1]);
            let want = gmul(
                &gmul(&zs, &GT::ate_pairing(&(-vk), &sp2.g2)),
                &GT::ate_pairing(&(&sp2.g1 * &nc), &sp2.y[0]),
            );
            same(&rec.comms_s[i - 1], &want, "the recomputed s commitment follows the protocol");
            for j in 0..=k {
                let zt = GT::ate_pairing(r, &resp.even_level_resp_t[i / 2 - 1][j]);
                let m = if j == k {
                    if i != l {
                        GT::ate_pairing(&(-&sp2.g1), &resp.even_level_resp_vk[i / 2 - 1])
                    } else {
                        GT::ate_pairing(&(-(&sp2.g1 * &resp.resp_csk)), &sp2.g2)
                    }
                } else if let Some(p) = h.iter().position(|x| *x == j) {
                    GT::ate_pairing(&(-&sp2.g1), &resp.even_level_resp_a[i / 2 - 1][p])
                } else {
                    GT::ate_pairing(&(&sp2.g1 * &nc), &comm.even_level_revealed_attributes[i / 2 - 1][&j])
                };
                let want = gmul(&gmul(&zt, &m), &GT::ate_pairing(&(-vk), &sp2.y[j]));
                same(&rec.comms_t[i - 1][j], &want, "the recomputed attribute commitment follows the protocol");
            }
        }
    }
}
