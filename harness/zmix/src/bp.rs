//! Bulletproofs: inner product argument and R1CS proofs.
use crate::val::*;
use amcl_wrapper::field_elem::{FieldElement, FieldElementVector};
use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
use amcl_wrapper::group_elem_g1::{G1Vector, G1};
use bulletproofs_amcl::ipp::{InnerProductArgumentProof, IPP};
use bulletproofs_amcl::utils::get_generators;
use merlin::Transcript;
use symcore::engine::*;

fn one() -> FieldElement {
    FieldElement::one()
}

/// transcript mirror: what a verifier of the documented protocol absorbs
pub fn absorb(t: &mut Transcript, label: &'static [u8], p: &G1) {
    t.append_message(label, &p.to_bytes());
}
pub fn absorb_scalar(t: &mut Transcript, label: &'static [u8], s: &FieldElement) {
    t.append_message(label, &s.to_bytes());
}
pub fn challenge(t: &mut Transcript, label: &'static [u8]) -> FieldElement {
    let mut b = [0u8; amcl_wrapper::constants::MODBYTES];
    t.challenge_bytes(label, &mut b);
    FieldElement::from(&b)
}
pub fn absorb_ipp_start(t: &mut Transcript, n: usize) {
    t.append_message(b"dom-sep", b"ipp v1");
    t.append_message(b"n", &(n as u64).to_le_bytes());
}

pub fn sum(ps: &[G1]) -> G1 {
    let mut r = G1::identity();
    for p in ps {
        r = r + p;
    }
    r
}
pub fn ip(a: &[FieldElement], b: &[FieldElement]) -> FieldElement {
    let mut r = FieldElement::zero();
    for i in 0..a.len() {
        r = r + &(&a[i] * &b[i]);
    }
    r
}

/// An argument whose messages are chosen round by round, each after the
/// challenges before it: the prover's free choices and the challenges.
pub struct Rounds {
    pub l: Vec<G1>,
    pub r: Vec<G1>,
    pub x: Vec<FieldElement>,
    pub a: FieldElement,
    pub b: FieldElement,
}
pub fn rounds(t: &mut Transcript, n: usize) -> Rounds {
    absorb_ipp_start(t, n);
    let (mut l, mut r, mut x) = (vec![], vec![], vec![]);
    let mut m = n;
    while m > 1 {
        let i = l.len();
        l.push(g1(&format!("L{}", i)));
        r.push(g1(&format!("R{}", i)));
        absorb(t, b"L", &l[i]);
        absorb(t, b"R", &r[i]);
        x.push(challenge(t, b"x"));
        m /= 2;
    }
    Rounds { l, r, x, a: fe("a"), b: fe("b") }
}

/// The two sides of the final equation, by folding the bases round by round.
pub fn folded(p: &G1, q: &G1, gs: &[G1], hs: &[G1], rd: &Rounds) -> (G1, G1) {
    let mut p = p.clone();
    let (mut g, mut h) = (gs.to_vec(), hs.to_vec());
    for (i, x) in rd.x.iter().enumerate() {
        let xi = x.inverse();
        let m = g.len() / 2;
        p = p + &(&rd.l[i] * &(x * x)) + &(&rd.r[i] * &(&xi * &xi));
        let ng: Vec<G1> = (0..m).map(|j| &g[j] * &xi + &(&g[m + j] * x)).collect();
        let nh: Vec<G1> = (0..m).map(|j| &h[j] * x + &(&h[m + j] * &xi)).collect();
        g = ng;
        h = nh;
    }
    let rhs = &g[0] * &rd.a + &(&h[0] * &rd.b) + &(q * &(&rd.a * &rd.b));
    (p, rhs)
}

pub fn r01(thorough: bool) -> Vec<Case> {
    let mut out = vec![];
    let ns: Vec<usize> = if thorough { vec![1, 2, 4, 8, 16] } else { vec![1, 2, 4] };
    for n in ns {
        for fac in 0..2 {
            out.push(case(format!("complete n={} factors={}", n, fac), move || {
                let g: G1Vector = g1s("g", n).into();
                let h: G1Vector = g1s("h", n).into();
                let u = g1("u");
                let a = fes("a", n);
                let b = fes("b", n);
                let (gf, hf) = if fac == 1 { (fes("gf", n), fes("hf", n)) } else { (vec![one(); n], vec![one(); n]) };
                let mut p = vec![&u * &ip(&a, &b)];
                for i in 0..n {
                    p.push(&g[i] * &(&a[i] * &gf[i]));
                    p.push(&h[i] * &(&b[i] * &hf[i]));
                }
                let p = sum(&p);
                let (gf, hf): (FieldElementVector, FieldElementVector) = (gf.into(), hf.into());
                let mut t = Transcript::new(b"ipp");
                let proof = IPP::create_ipp(&mut t, &u, &gf, &hf, &g, &h, &a.clone().into(), &b.clone().into());
                truth(1 << proof.L.len() == n && proof.R.len() == proof.L.len(), "one pair of messages per halving");
                let mut t = Transcript::new(b"ipp");
                let ok = IPP::verify_ipp(n, &mut t, &gf, &hf, &p, &u, &g, &h, &proof.a, &proof.b, &proof.L, &proof.R).is_ok();
                truth(ok, "an honest inner product argument verifies");
                reach("complete");
                // another product: P differs in the coefficient of u
                let d = nonzero(fe("d"));
                assume_differ(&u, &G1::identity());
                let mut t = Transcript::new(b"ipp");
                let p2 = &p + &(&u * &d);
                let bad = IPP::verify_ipp(n, &mut t, &gf, &hf, &p2, &u, &g, &h, &proof.a, &proof.b, &proof.L, &proof.R).is_ok();
                truth(!bad, "the argument is refused for another inner product");
            }));
        }
        for i in 0..n.trailing_zeros() as usize {
            if n > 8 { continue; }
            for side in 0..2 {
                // one message is replaced and the statement moved so that the
                // equation would hold under the old challenges
                out.push(case(format!("mauled n={} round={} side={}", n, i, side), move || {
                    // independent bases: nobody knows a relation among them
                    let g: G1Vector = get_generators("g", n).into();
                    let h: G1Vector = get_generators("h", n).into();
                    let u = G1::from_msg_hash(b"u");
                    let a = fes("a", n);
                    let b = fes("b", n);
                    let f: FieldElementVector = vec![one(); n].into();
                    let mut p = vec![&u * &ip(&a, &b)];
                    for j in 0..n {
                        p.push(&g[j] * &a[j]);
                        p.push(&h[j] * &b[j]);
                    }
                    let p = sum(&p);
                    let mut t = Transcript::new(b"ipp");
                    let proof = IPP::create_ipp(&mut t, &u, &f, &f, &g, &h, &a.clone().into(), &b.clone().into());
                    let mut t = Transcript::new(b"ipp");
                    let sc = IPP::verification_scalars(&proof.L, &proof.R, n, &mut t);
                    truth(sc.is_ok(), "the challenges of an honest argument are found");
                    let (sq, inv_sq, _) = sc.unwrap();
                    let d = g1("d");
                    assume_differ(&d, &G1::identity());
                    let (mut l, mut r) = (proof.L.clone(), proof.R.clone());
                    if side == 0 {
                        l[i] = &l[i] + &(&d * &inv_sq[i]);
                    } else {
                        r[i] = &r[i] + &(&d * &sq[i]);
                    }
                    let p2 = &p - &d;
                    let mut t = Transcript::new(b"ipp");
                    let bad = IPP::verify_ipp(n, &mut t, &f, &f, &p2, &u, &g, &h, &proof.a, &proof.b, &l, &r).is_ok();
                    truth(!bad, "the challenges depend on every message before them");
                    reach("mauled");
                }));
            }
        }
        for last in 0..2 {
            // last=0: the final scalars are the adversary's last choice; last=1: P is
            if last == 0 && n > 4 { continue; }
        out.push(case(format!("exact n={} last={}", n, last), move || {
            let g = g1s("g", n);
            let h = g1s("h", n);
            let gf = fes("gf", n);
            let hf = fes("hf", n);
            let u = g1("u");
            let p0 = if last == 0 { g1("p") } else { G1::identity() };
            let mut t = Transcript::new(b"ipp");
            let rd = rounds(&mut t, n);
            let p = if last == 0 { p0 } else { g1("p") };
            let mut t = Transcript::new(b"ipp");
            let ok = IPP::verify_ipp(
                n,
                &mut t,
                &gf.clone().into(),
                &hf.clone().into(),
                &p,
                &u,
                &g.clone().into(),
                &h.clone().into(),
                &rd.a,
                &rd.b,
                &rd.l.clone().into(),
                &rd.r.clone().into(),
            )
            .is_ok();
            let gs: Vec<G1> = (0..n).map(|i| &g[i] * &gf[i]).collect();
            let hs: Vec<G1> = (0..n).map(|i| &h[i] * &hf[i]).collect();
            let (x, y) = folded(&p, &u, &gs, &hs, &rd);
            if ok {
                same(&x, &y, "an accepted argument satisfies the folded equation");
                reach("accepted");
            } else {
                truth(!is_same(&x, &y), "an argument satisfying the folded equation is accepted");
                reach("rejected");
            }
        }));
        }
    }
    for n in vec![1usize, 2, 4] {
        out.push(case(format!("malformed n={}", n), move || {
            let g: G1Vector = g1s("g", n).into();
            let h: G1Vector = g1s("h", n).into();
            let gf: FieldElementVector = fes("gf", n).into();
            let hf: FieldElementVector = fes("hf", n).into();
            let (u, p, a, b) = (g1("u"), g1("p"), fe("a"), fe("b"));
            let rounds = n.trailing_zeros() as usize;
            for nl in 0..rounds + 2 {
                for nr in 0..rounds + 2 {
                    if nl == rounds && nr == rounds {
                        continue;
                    }
                    let l: G1Vector = g1s("l", nl).into();
                    let r: G1Vector = g1s("r", nr).into();
                    let mut t = Transcript::new(b"ipp");
                    truth(
                        IPP::verify_ipp(n, &mut t, &gf, &hf, &p, &u, &g, &h, &a, &b, &l, &r).is_err(),
                        "an argument with the wrong number of rounds is refused",
                    );
                }
            }
            for k in 3..4usize {
                let mut t = Transcript::new(b"ipp");
                let l: G1Vector = g1s("l", rounds).into();
                let r: G1Vector = g1s("r", rounds).into();
                truth(
                    IPP::verify_ipp(k, &mut t, &gf, &hf, &p, &u, &g, &h, &a, &b, &l, &r).is_err(),
                    "a size that is not two to the number of rounds is refused",
                );
            }
            for k in 31..34 {
                let mut t = Transcript::new(b"ipp");
                let l: G1Vector = vec![p.clone(); k].into();
                truth(
                    IPP::verify_ipp(n, &mut t, &gf, &hf, &p, &u, &g, &h, &a, &b, &l, &l).is_err(),
                    "too many rounds are refused",
                );
            }
            reach("malformed");
        }));
    }
    out
}
#[allow(dead_code)]
fn _unused(_: InnerProductArgumentProof) {}
#[allow(dead_code)]
fn _unused2(t: &mut Transcript, s: &FieldElement) {
    absorb_scalar(t, b"", s)
}
