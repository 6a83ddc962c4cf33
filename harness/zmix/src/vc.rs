//! Proofs of knowledge of the opening of a vector commitment (impl_PoK_VC!).
use crate::val::*;
use amcl_wrapper::field_elem::FieldElement;
use amcl_wrapper::group_elem::GroupElement;
use symcore::engine::*;

macro_rules! vc_cases {
    ($out:expr, $tag:expr, $n:expr, $Committing:path, $Committed:path, $Proof:path, $g:ident, $gv:path, $gsize:expr, $codec:expr) => {{
        let n: usize = $n;
        let tag = $tag;
        type Committing = $Committing;
        type Proof = $Proof;
        fn bases(n: usize) -> Vec<crate::vc::GroupOf<Proof>> {
            (0..n).map(|i| nonzero($g(&format!("g{}", i)))).collect()
        }
        // secrets, commitment and an honest proof for challenge `c`
        $out.push(case(format!("{} complete n={}", tag, n), move || {
            let gens = bases(n);
            let secrets = fes("m", n);
            let mut com = Committing::new();
            for i in 0..n {
                // every other blinding is supplied by the caller
                let b = fe(&format!("b{}", i));
                let at = if i % 2 == 0 { com.commit(&gens[i], Some(&b)) } else { com.commit(&gens[i], None) };
                truth(at == i, "commit returns the position of the new entry");
                let (g, bl) = com.get_index(i).unwrap();
                same(g, &gens[i], "get_index returns the committed base");
                if i % 2 == 0 {
                    same(bl, &b, "get_index returns the supplied blinding");
                }
            }
            truth(com.get_index(n).is_err(), "get_index refuses an index past the end");
            let mut expect = crate::vc::identity::<Proof>();
            for i in 0..n {
                let (g, b) = com.get_index(i).unwrap();
                expect = expect + &(g * b);
            }
            let committed = com.finish();
            same(&committed.commitment, &expect, "the first message commits to the blindings");
            let mut c_m = crate::vc::identity::<Proof>();
            for i in 0..n {
                c_m = c_m + &(&gens[i] * &secrets[i]);
            }
            let c = fe("c");
            let proof = committed.gen_proof(&c, &secrets).unwrap();
            truth(proof.responses.len() == n, "one response per secret");
            truth(proof.verify(&gens, &c_m, &c).unwrap(), "an honest proof verifies");
            if n > 0 {
                reach("complete");
            }
        }));
        // (amcl does not encode the identity uniquely, so an empty commitment does not transport)
        if n > 0 {
                $out.push(case(format!("{} complete-nonce n={}", tag, n), move || {
            // non-interactive use: challenge over bases, first message, commitment and nonce
            let gens = bases(n);
            let secrets = fes("m", n);
            let mut com = Committing::new();
            for g in gens.iter() {
                com.commit(g, None);
            }
            let committed = com.finish();
            let mut c_m = crate::vc::identity::<Proof>();
            for i in 0..n {
                c_m = c_m + &(&gens[i] * &secrets[i]);
            }
            let mut extra = c_m.to_bytes();
            extra.extend_from_slice(b"nonce");
            let c = committed.gen_challenge(extra);
            let proof = committed.gen_proof(&c, &secrets).unwrap();
            truth(
                proof.verify_complete_proof(&gens, &c_m, &c, b"nonce").unwrap(),
                "an honest non-interactive proof verifies",
            );
            truth(
                !proof.verify_complete_proof(&gens, &c_m, &c, b"other").unwrap(),
                "a proof made for another nonce is refused",
            );
            truth(
                !proof.verify_complete_proof(&gens, &c_m, &c, b"").unwrap(),
                "a proof checked without its nonce is refused",
            );
            let other = $g("other");
            assume_differ(&other, &c_m);
            truth(
                !proof.verify_complete_proof(&gens, &other, &c, b"nonce").unwrap(),
                "a proof for another commitment is refused",
            );
            reach("nonce");
        }));
        if n > 0 {
        $out.push(case(format!("{} bound n={}", tag, n), move || {
            // a prover who knows the secrets answers an honest challenge for
            // other public values than it was made for
            let gens = bases(n);
            let (secrets, b) = (fes("m", n), fes("b", n));
            let mut com = Committing::new();
            for i in 0..n {
                com.commit(&gens[i], Some(&b[i]));
            }
            let committed = com.finish();
            let mut c_m = crate::vc::identity::<Proof>();
            for i in 0..n {
                c_m = c_m + &(&gens[i] * &secrets[i]);
            }
            let mut extra = c_m.to_bytes();
            extra.extend_from_slice(b"nonce");
            let c = committed.gen_challenge(extra);
            let first = committed.commitment.clone();
            let what = choose("what is changed", n as u32 + 2) as usize;
            let (mut gens2, mut c_m2, mut first2) = (gens.clone(), c_m.clone(), first);
            let mut r: Vec<FieldElement> = (0..n).map(|i| &b[i] - &(&c * &secrets[i])).collect();
            let l = nonzero(fe("factor"));
            assume_differ(&l, &FieldElement::one());
            if what < n {
                let inv = l.inverse();
                assume_differ(&b[what], &FieldElement::zero());
                gens2[what] = &gens[what] * &l;
                r[what] = &r[what] * &inv;
            } else if what == n {
                assume_differ(&secrets[0], &FieldElement::zero());
                c_m2 = &c_m + &(&gens[0] * &l);
                r[0] = &r[0] - &(&c * &l);
            } else {
                first2 = &first2 + &(&gens[0] * &l);
                r[0] = &r[0] + &l;
            }
            let proof = crate::vc::make::<Proof>(first2, &r);
            truth(proof.verify(&gens2, &c_m2, &c).unwrap(), "the prepared answers satisfy the equation");
            truth(
                !proof.verify_complete_proof(&gens2, &c_m2, &c, b"nonce").unwrap(),
                "a challenge is for one list of bases, one commitment and one first message",
            );
            reach("bound");
        }));
        }
        }
        $out.push(case(format!("{} exact n={}", tag, n), move || {
            // arbitrary proof, arbitrary statement
            let gens = bases(n);
            let c = fe("c");
            let c_m = $g("commitment");
            let resp = fes("r", n);
            let first = $g("first");
            let proof = crate::vc::make::<Proof>(first.clone(), &resp);
            let ok = proof.verify(&gens, &c_m, &c).unwrap();
            let mut rhs = &c_m * &c;
            for i in 0..n {
                rhs = rhs + &(&gens[i] * &resp[i]);
            }
            if ok {
                same(&first, &rhs, "an accepted proof satisfies the verification equation");
                reach("accepted");
            } else {
                differ(&first, &rhs, "a proof satisfying the verification equation is accepted");
                reach("rejected");
            }
        }));
        $out.push(case(format!("{} exact-nonce n={}", tag, n), move || {
            let gens = bases(n);
            let c_m = $g("commitment");
            let resp = fes("r", n);
            let c0 = fe("c");
            let first = $g("first");
            let proof = crate::vc::make::<Proof>(first.clone(), &resp);
            let ok = proof.verify_complete_proof(&gens, &c_m, &c0, b"nonce").unwrap();
            // the challenge was fixed before the hash: acceptance has negligible probability
            truth(!ok, "a proof whose challenge is not the hash of the transcript is refused");
            reach("nonce-refused");
        }));
        $out.push(case(format!("{} soundness n={}", tag, n), move || {
            // two accepting transcripts with the same first message: secrets can be extracted
            if n == 0 {
                return;
            }
            let gens = bases(n);
            let c = fe("c");
            let c2 = fe("c'");
            assume_differ(&c, &c2);
            let r = fes("r", n);
            let r2 = fes("r'", n);
            let first = $g("first");
            let c_m = $g("commitment");
            let p1 = crate::vc::make::<Proof>(first.clone(), &r);
            let p2 = crate::vc::make::<Proof>(first.clone(), &r2);
            if !p1.verify(&gens, &c_m, &c).unwrap() || !p2.verify(&gens, &c_m, &c2).unwrap() {
                return;
            }
            let inv = (&c2 - &c).inverse();
            let mut acc = crate::vc::identity::<Proof>();
            for i in 0..n {
                let m = (&r[i] - &r2[i]) * &inv;
                acc = acc + &(&gens[i] * &m);
            }
            same(&acc, &c_m, "two accepting transcripts reveal an opening of the commitment");
            reach("extracted");
        }));
        $out.push(case(format!("{} lengths n={}", tag, n), move || {
            let gens = bases(n);
            let c = fe("c");
            let c_m = $g("commitment");
            let resp = fes("r", n + 2);
            let first = $g("first");
            for k in 0..n + 3 {
                let proof = crate::vc::make::<Proof>(first.clone(), &resp[..k]);
                if k != n {
                    truth(
                        proof.verify(&gens, &c_m, &c).is_err()
                            && proof.verify_complete_proof(&gens, &c_m, &c, b"n").is_err(),
                        "a proof with a different number of responses is refused",
                    );
                    let mut com = Committing::new();
                    for g in gens.iter() {
                        com.commit(g, None);
                    }
                    truth(
                        com.finish().gen_proof(&c, &resp[..k]).is_err(),
                        "a proof over a different number of secrets is refused",
                    );
                }
            }
            reach("lengths");
        }));
        if $codec {
            $out.push(case(format!("{} codec n={}", tag, n), move || {
                let resp = fes("r", n);
                let first = $g("first");
                let proof = crate::vc::make::<Proof>(first.clone(), &resp);
                let bytes = proof.to_bytes();
                truth(bytes.len() == $gsize + 4 + 48 * n, "encoded length");
                match Proof::from_bytes(&bytes) {
                    Err(_) => truth(false, "an encoded proof decodes"),
                    Ok(p) => {
                        same(&p.commitment, &first, "the decoded first message is the encoded one");
                        truth(p.responses.len() == n, "decoding keeps the number of responses");
                        for i in 0..n {
                            same(&p.responses[i], &resp[i], "decoding keeps every response");
                        }
                        reach("decoded");
                    }
                }
                for cut in 0..bytes.len() {
                    if cut % 16 == 0 || bytes.len() - cut < 3 {
                        truth(Proof::from_bytes(&bytes[..cut]).is_err(), "a truncated proof is refused");
                    }
                }
            }));
        }
    }};
}

pub trait PkProof: Sized {
    type G: GroupElement;
    fn build(c: Self::G, r: &[FieldElement]) -> Self;
}
pub type GroupOf<P> = <P as PkProof>::G;
macro_rules! pk {
    ($p:path, $g:ty) => {
        impl PkProof for $p {
            type G = $g;
            fn build(commitment: $g, r: &[FieldElement]) -> Self {
                $p {
                    commitment,
                    responses: r.to_vec().into(),
                }
            }
        }
    };
}
pk!(zmix::commitments::pok_vc::ProofG1, amcl_wrapper::group_elem_g1::G1);
pk!(zmix::commitments::pok_vc::ProofG2, amcl_wrapper::group_elem_g2::G2);
pk!(zmix::signatures::ps::pok_sig::ProofOtherGroup, amcl_wrapper::group_elem_g1::G1);
pk!(zmix::signatures::ps::blind_signature::ProofSignatureGroup, amcl_wrapper::group_elem_g2::G2);

pub fn identity<P: PkProof>() -> P::G {
    P::G::identity()
}
pub fn make<P: PkProof>(c: P::G, r: &[FieldElement]) -> P {
    P::build(c, r)
}

pub fn p03(thorough: bool) -> Vec<Case> {
    let mut out = vec![];
    let nmax = if thorough { 6 } else { 3 };
    for n in 0..=nmax {
        vc_cases!(out, "G1", n, zmix::commitments::pok_vc::ProverCommittingG1, zmix::commitments::pok_vc::ProverCommittedG1,
            zmix::commitments::pok_vc::ProofG1, g1, amcl_wrapper::group_elem_g1::G1Vector, 97, true);
        vc_cases!(out, "G2", n, zmix::commitments::pok_vc::ProverCommittingG2, zmix::commitments::pok_vc::ProverCommittedG2,
            zmix::commitments::pok_vc::ProofG2, g2, amcl_wrapper::group_elem_g2::G2Vector, 192, true);
        vc_cases!(out, "PS-other", n, zmix::signatures::ps::pok_sig::ProverCommittingOtherGroup, zmix::signatures::ps::pok_sig::ProverCommittedOtherGroup,
            zmix::signatures::ps::pok_sig::ProofOtherGroup, g1, amcl_wrapper::group_elem_g1::G1Vector, 97, true);
        vc_cases!(out, "PS-signature", n, zmix::signatures::ps::blind_signature::ProverCommittingSignatureGroup, zmix::signatures::ps::blind_signature::ProverCommittedSignatureGroup,
            zmix::signatures::ps::blind_signature::ProofSignatureGroup, g2, amcl_wrapper::group_elem_g2::G2Vector, 192, true);
    }
    out
}
