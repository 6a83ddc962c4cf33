//! Building and reading the objects whose fields are private, through their
//! own uncompressed encodings.
use bbs::prelude::*;
use bbs::{ToVariableLengthBytes, FR_COMPRESSED_SIZE as FR, G1_UNCOMPRESSED_SIZE as G};
use pairing_plus::bls12_381::{Fr, G1, G2};
use pairing_plus::serdes::SerDes;
use std::collections::BTreeMap;

pub fn put<T: SerDes>(o: &mut Vec<u8>, v: &T) {
    v.serialize(o, false).unwrap();
}
pub fn get<T: SerDes>(b: &[u8]) -> T {
    T::deserialize(&mut &b[..], false).unwrap()
}
pub fn msg(v: &Fr) -> SignatureMessage {
    SignatureMessage::from(v)
}
pub fn msgs(v: &[Fr]) -> Vec<SignatureMessage> {
    v.iter().map(msg).collect()
}
pub fn map(idx: &[usize], v: &[Fr]) -> BTreeMap<usize, SignatureMessage> {
    idx.iter().map(|i| (*i, msg(&v[*i]))).collect()
}
pub fn key(h0: &G1, h: &[G1], w: &G2) -> PublicKey {
    PublicKey {
        h0: GeneratorG1::from(h0),
        h: h.iter().map(GeneratorG1::from).collect(),
        w: GeneratorG2::from(w),
    }
}
pub fn pt(g: &GeneratorG1) -> G1 {
    *g.as_ref()
}
pub fn sk_value(sk: &SecretKey) -> Fr {
    get(&sk.to_bytes_uncompressed_form())
}
fn sig_bytes(a: &G1, e: &Fr, s: &Fr) -> [u8; G + 2 * FR] {
    let mut o = vec![];
    put(&mut o, a);
    put(&mut o, e);
    put(&mut o, s);
    let mut r = [0u8; G + 2 * FR];
    r.copy_from_slice(&o);
    r
}
pub fn sig(a: &G1, e: &Fr, s: &Fr) -> Signature {
    Signature::from(sig_bytes(a, e, s))
}
pub fn blind_sig(a: &G1, e: &Fr, s: &Fr) -> BlindSignature {
    BlindSignature::from(sig_bytes(a, e, s))
}
fn parts(b: &[u8]) -> (G1, Fr, Fr) {
    (get(&b[..G]), get(&b[G..G + FR]), get(&b[G + FR..]))
}
pub fn sig_parts(s: &Signature) -> (G1, Fr, Fr) {
    parts(&s.to_bytes_uncompressed_form())
}
pub fn blind_parts(s: &BlindSignature) -> (G1, Fr, Fr) {
    parts(&s.to_bytes_uncompressed_form())
}

fn vc_bytes(t: &G1, r: &[Fr]) -> Vec<u8> {
    let mut o = vec![];
    put(&mut o, t);
    o.extend_from_slice(&(r.len() as u32).to_be_bytes());
    for x in r {
        put(&mut o, x);
    }
    o
}
pub fn vc(t: &G1, r: &[Fr]) -> ProofG1 {
    ProofG1::from_bytes_uncompressed_form(&vc_bytes(t, r)).unwrap()
}
pub fn vc_parts(p: &ProofG1) -> (G1, Vec<Fr>) {
    vc_split(&p.to_bytes_uncompressed_form()).0
}
fn vc_split(b: &[u8]) -> ((G1, Vec<Fr>), usize) {
    let mut l = [0u8; 4];
    l.copy_from_slice(&b[G..G + 4]);
    let n = u32::from_be_bytes(l) as usize;
    let r = (0..n).map(|i| get(&b[G + 4 + FR * i..])).collect();
    ((get(b), r), G + 4 + FR * n)
}

#[derive(Clone)]
pub struct Pok {
    pub a: G1,
    pub abar: G1,
    pub d: G1,
    pub t1: G1,
    pub r1: Vec<Fr>,
    pub t2: G1,
    pub r2: Vec<Fr>,
}
impl Pok {
    pub fn build(&self) -> PoKOfSignatureProof {
        let mut o = vec![];
        put(&mut o, &self.a);
        put(&mut o, &self.abar);
        put(&mut o, &self.d);
        let p1 = vc_bytes(&self.t1, &self.r1);
        o.extend_from_slice(&(p1.len() as u32).to_be_bytes());
        o.extend_from_slice(&p1);
        o.extend_from_slice(&vc_bytes(&self.t2, &self.r2));
        PoKOfSignatureProof::from_bytes_uncompressed_form(&o).unwrap()
    }
    pub fn read(p: &PoKOfSignatureProof) -> Pok {
        let b = p.to_bytes_uncompressed_form();
        let ((t1, r1), n) = vc_split(&b[3 * G + 4..]);
        let ((t2, r2), _) = vc_split(&b[3 * G + 4 + n..]);
        Pok { a: get(&b), abar: get(&b[G..]), d: get(&b[2 * G..]), t1, r1, t2, r2 }
    }
}
