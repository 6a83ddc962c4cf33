//! Issuers, credentials and presentations through the public interface.
use crate::val::*;
use serde_json::Value;
use ursa::bn::BigNumber;
use ursa::cl::issuer::Issuer;
use ursa::cl::prover::Prover;
use ursa::cl::verifier::Verifier;
use ursa::cl::*;

pub struct Iss {
    pub schema: CredentialSchema,
    pub nschema: NonCredentialSchema,
    pub pk: CredentialPublicKey,
    pub sk: CredentialPrivateKey,
    pub proof: CredentialKeyCorrectnessProof,
}
pub fn schema(a: &[&str]) -> CredentialSchema {
    let mut b = Issuer::new_credential_schema_builder().unwrap();
    for x in a {
        b.add_attr(x).unwrap();
    }
    b.finalize().unwrap()
}
pub fn nschema(a: &[&str]) -> NonCredentialSchema {
    let mut b = Issuer::new_non_credential_schema_builder().unwrap();
    for x in a {
        b.add_attr(x).unwrap();
    }
    b.finalize().unwrap()
}
pub fn issuer(known: &[&str], hidden: &[&str], revoc: bool) -> Iss {
    let schema = schema(known);
    let nschema = nschema(hidden);
    let (pk, sk, proof) = Issuer::new_credential_def(&schema, &nschema, revoc).unwrap();
    Iss { schema, nschema, pk, sk, proof }
}
#[derive(Clone, Copy, PartialEq)]
pub enum K {
    Known,
    Hidden,
    Committed,
}
pub type Vals<'a> = Vec<(&'a str, K, BigNumber)>;
pub fn values(v: &Vals) -> CredentialValues {
    let mut b = Issuer::new_credential_values_builder().unwrap();
    for (n, k, x) in v {
        match k {
            K::Known => b.add_value_known(n, x).unwrap(),
            K::Hidden => b.add_value_hidden(n, x).unwrap(),
            K::Committed => b.add_value_commitment(n, x, &int(&format!("blind.{}", n), 250)).unwrap(),
        }
    }
    b.finalize().unwrap()
}
pub struct Reg {
    pub max: u32,
    pub default: bool,
    pub key_pub: RevocationKeyPublic,
    pub key_priv: RevocationKeyPrivate,
    pub reg: RevocationRegistry,
    pub tails: SimpleTailsAccessor,
}
pub fn registry(i: &Iss, max: u32, default: bool) -> Reg {
    let (key_pub, key_priv, reg, mut gen) =
        Issuer::new_revocation_registry_def(&i.pk, max, default).unwrap();
    let tails = SimpleTailsAccessor::new(&mut gen).unwrap();
    Reg { max, default, key_pub, key_priv, reg, tails }
}
pub struct Cred {
    pub vals: CredentialValues,
    pub sig: CredentialSignature,
    pub idx: u32,
    pub witness: Option<Witness>,
    pub delta: Option<RevocationRegistryDelta>,
}
pub fn nonce(n: &str) -> BigNumber {
    int(n, 80)
}
/// other nonces: an arbitrary one, and on concrete values those that differ in one byte
/// or in length
pub fn other_nonces(n: &str, than: &BigNumber) -> Vec<BigNumber> {
    let x = nonce(n);
    symcore::engine::assume_nonzero(symcore::sub(id(&x), id(than)));
    let mut v = vec![x];
    if symcore::engine::concrete() {
        let b = than.to_bytes().unwrap();
        for i in 0..b.len() {
            let mut c = b.clone();
            c[i] ^= 1;
            v.push(BigNumber::from_bytes(&c).unwrap());
        }
        let mut c = b.clone();
        c.push(0);
        v.push(BigNumber::from_bytes(&c).unwrap());
        v.push(BigNumber::from_bytes(&b[1..]).unwrap());
    }
    v
}
/// honest issuance
pub fn issue(i: &Iss, v: &Vals, tag: &str, r: Option<(&mut Reg, u32)>) -> Cred {
    let vals = values(v);
    let n0 = nonce(&format!("{}.n0", tag));
    let n1 = nonce(&format!("{}.n1", tag));
    let (bs, f, p) = Prover::blind_credential_secrets(&i.pk, &i.proof, &vals, &n0).unwrap();
    match r {
        None => {
            let (mut sig, sp) =
                Issuer::sign_credential("prover", &bs, &p, &n0, &n1, &vals, &i.pk, &i.sk).unwrap();
            Prover::process_credential_signature(&mut sig, &vals, &sp, &f, &i.pk, &n1, None, None, None)
                .unwrap();
            Cred { vals, sig, idx: 0, witness: None, delta: None }
        }
        Some((r, idx)) => {
            let (mut sig, sp, delta) = Issuer::sign_credential_with_revoc(
                "prover", &bs, &p, &n0, &n1, &vals, &i.pk, &i.sk, idx, r.max, r.default, &mut r.reg,
                &r.key_priv, &r.tails,
            )
            .unwrap();
            let d = delta.clone().unwrap_or_else(|| {
                RevocationRegistryDelta::from_parts(None, &r.reg, &Default::default(), &Default::default())
            });
            let w = Witness::new(idx, r.max, r.default, &d, &r.tails).unwrap();
            Prover::process_credential_signature(
                &mut sig, &vals, &sp, &f, &i.pk, &n1, Some(&r.key_pub), Some(&r.reg), Some(&w),
            )
            .unwrap();
            Cred { vals, sig, idx, witness: Some(w), delta }
        }
    }
}
pub type Pred<'a> = (&'a str, &'a str, i32);
pub fn request(revealed: &[&str], preds: &[Pred]) -> SubProofRequest {
    let mut b = Verifier::new_sub_proof_request_builder().unwrap();
    for a in revealed {
        b.add_revealed_attr(a).unwrap();
    }
    for (a, t, v) in preds {
        b.add_predicate(a, t, *v).unwrap();
    }
    b.finalize().unwrap()
}
/// one credential's part of a presentation
pub struct Part<'a> {
    pub i: &'a Iss,
    pub c: &'a Cred,
    pub q: SubProofRequest,
    pub r: Option<&'a Reg>,
}
pub fn prove(parts: &[Part], common: &[&str], n: &BigNumber) -> Result<Proof, String> {
    let mut b = Prover::new_proof_builder().unwrap();
    for a in common {
        b.add_common_attribute(a).unwrap();
    }
    for p in parts {
        b.add_sub_proof_request(
            &p.q, &p.i.schema, &p.i.nschema, &p.c.sig, &p.c.vals, &p.i.pk,
            p.r.map(|r| &r.reg),
            if p.r.is_some() { p.c.witness.as_ref() } else { None },
        )
        .map_err(|e| e.to_string())?;
    }
    b.finalize(n).map_err(|e| e.to_string())
}
pub fn verifier(parts: &[Part], common: &[&str]) -> verifier::ProofVerifier {
    let mut v = Verifier::new_proof_verifier().unwrap();
    for a in common {
        v.add_common_attribute(a).unwrap();
    }
    for p in parts {
        v.add_sub_proof_request(
            &p.q, &p.i.schema, &p.i.nschema, &p.i.pk,
            p.r.map(|r| &r.key_pub), p.r.map(|r| &r.reg),
        )
        .unwrap();
    }
    v
}
pub fn accepts(v: &mut verifier::ProofVerifier, p: &Proof, n: &BigNumber) -> bool {
    v.verify(p, n).unwrap_or(false)
}
pub fn js<T: serde::Serialize>(x: &T) -> Value {
    serde_json::to_value(x).unwrap()
}
pub fn un<T: serde::de::DeserializeOwned>(v: &Value) -> T {
    serde_json::from_value(v.clone()).unwrap()
}
pub fn num(v: &Value) -> BigNumber {
    dec(v.as_str().expect("number"))
}
