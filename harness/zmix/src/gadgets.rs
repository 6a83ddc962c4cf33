//! The gadgets shipped with the R1CS proofs. The functions that take a `Prover`
//! or a `Verifier` are run on those; the circuit each has collected is then read
//! through the `verif` hook and judged with an arbitrary witness.
use crate::r1cs::{num, zero_fe, Recorder};
use crate::val::*;
use amcl_wrapper::field_elem::FieldElement;
use amcl_wrapper::group_elem_g1::G1;
use bulletproofs_amcl::errors::{BulletproofError, R1CSError};
use bulletproofs_amcl::r1cs::gadgets::bound_check::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::mimc::mimc;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::poseidon::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_4_ary::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_8_ary::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::LeafValueType;
use bulletproofs_amcl::r1cs::gadgets::merkle_tree_hash::*;
use bulletproofs_amcl::r1cs::gadgets::mimc::*;
use bulletproofs_amcl::r1cs::gadgets::non_zero::*;
use bulletproofs_amcl::r1cs::gadgets::poseidon_hash::*;
use bulletproofs_amcl::r1cs::gadgets::set_membership::*;
use bulletproofs_amcl::r1cs::gadgets::set_membership_alt::*;
use bulletproofs_amcl::r1cs::gadgets::set_non_membership::*;
use bulletproofs_amcl::r1cs::gadgets::sparse_merkle_tree_4_ary::*;
use bulletproofs_amcl::r1cs::gadgets::sparse_merkle_tree_8_ary::*;
use bulletproofs_amcl::r1cs::linear_combination::AllocatedQuantity;
use bulletproofs_amcl::r1cs::{ConstraintSystem, LinearCombination, Prover, Variable, Verifier};
use merlin::Transcript;
use symcore::engine::*;

fn all(n: &str, k: usize) -> Vec<FieldElement> {
    (0..k).map(|i| the(&format!("{}{}", n, i))).collect()
}

/// A hash for trees: the square of an arbitrary affine form.
#[derive(Clone)]
pub struct Square {
    pub k: Vec<FieldElement>,
}
impl Square {
    pub fn value(&self, x: &[FieldElement]) -> FieldElement {
        let mut s = self.k[0].clone();
        for i in 0..x.len() {
            s = s + &(&self.k[i + 1] * &x[i]);
        }
        &s * &s
    }
    fn circuit<CS: ConstraintSystem>(&self, cs: &mut CS, x: Vec<LinearCombination>) -> LinearCombination {
        let mut s: LinearCombination = self.k[0].clone().into();
        for (i, l) in x.into_iter().enumerate() {
            s = s + &self.k[i + 1] * l;
        }
        let (_, _, o) = cs.multiply(s.clone(), s);
        o.into()
    }
}
macro_rules! square {
    ($h:ident, $c:ident) => {
        impl $h for Square {
            fn hash(&self, x: Vec<FieldElement>) -> Result<FieldElement, BulletproofError> {
                Ok(self.value(&x))
            }
        }
        impl $c for Square {
            fn prover_setup(&mut self, _: &mut Prover) -> Result<(), R1CSError> {
                Ok(())
            }
            fn verifier_setup(&mut self, _: &mut Verifier, _: Option<&G1>, _: Option<&G1>) -> Result<(), R1CSError> {
                Ok(())
            }
            fn hash<CS: ConstraintSystem>(
                &self,
                cs: &mut CS,
                x: Vec<LinearCombination>,
            ) -> Result<LinearCombination, R1CSError> {
                Ok(self.circuit(cs, x))
            }
        }
    };
}
square!(Arity4MerkleTreeHash, Arity4MerkleTreeHashConstraints);
square!(Arity8MerkleTreeHash, Arity8MerkleTreeHashConstraints);

/// What a proof is about: public parameters.
#[derive(Clone)]
pub enum Claim {
    NonZero,
    Bound { lower: u64, upper: u64, bits: usize },
    Member { set: Vec<FieldElement> },
    Alt { set: Vec<u64> },
    Outside { set: Vec<FieldElement> },
    Mimc { c: Vec<FieldElement>, image: FieldElement },
    Poseidon { params: PoseidonParams, sbox: SboxType, image: FieldElement },
    Tree { arity: usize, depth: usize, root: FieldElement, leaf: Option<FieldElement>, hash: Square },
}
use Claim::*;

/// What the prover knows: first the value(s) the claim is about, then helpers.
#[derive(Clone)]
pub struct Secret {
    pub values: Vec<FieldElement>,
    pub number: u64,
    pub nodes: Vec<Vec<FieldElement>>,
}
impl Secret {
    fn of(values: Vec<FieldElement>) -> Self {
        Secret { values, number: 0, nodes: vec![] }
    }
}

pub struct Bases {
    g: G1,
    h: G1,
}
fn bases() -> Bases {
    Bases { g: nonzero(g1("g")), h: nonzero(g1("h")) }
}

fn node4(n: &[FieldElement]) -> [FieldElement; 3] {
    [n[0].clone(), n[1].clone(), n[2].clone()]
}
fn node8(n: &[FieldElement]) -> [FieldElement; 7] {
    [
        n[0].clone(),
        n[1].clone(),
        n[2].clone(),
        n[3].clone(),
        n[4].clone(),
        n[5].clone(),
        n[6].clone(),
    ]
}

impl Claim {
    /// blindings: 0 given, 1 drawn, 2 neither
    fn prove(&self, s: &Secret, how: u32, p: &mut Prover) -> Result<Vec<G1>, R1CSError> {
        let mut r = rand::thread_rng();
        let rng = if how == 1 { Some(&mut r) } else { None };
        let one_bl = if how == 0 { Some(the("blinding")) } else { None };
        let bls = |n: usize| if how == 0 { Some(all("blinding", n)) } else { None };
        match self {
            NonZero => prove_non_zero_val(s.values[0].clone(), one_bl, rng, p),
            Bound { lower, upper, bits } => prove_bounded_num(s.number, one_bl, *lower, *upper, *bits, rng, p),
            Member { set } => prove_set_membership(s.values[0].clone(), one_bl, set, rng, p),
            Alt { set } => prove_set_membership_alt(s.number, one_bl, set, rng, p),
            Outside { set } => prove_set_non_membership(s.values[0].clone(), one_bl, set, rng, p),
            Mimc { c, image } => prove_mimc_preimage(s.values.clone(), bls(2), image, c, rng, p),
            Poseidon { params, sbox, image } => match params.width {
                3 => prove_knowledge_of_preimage_of_Poseidon_2(s.values.clone(), bls(2), image, params, sbox, rng, p),
                5 => prove_knowledge_of_preimage_of_Poseidon_4(s.values.clone(), bls(4), image, params, sbox, rng, p),
                _ => prove_knowledge_of_preimage_of_Poseidon_8(s.values.clone(), bls(8), image, params, sbox, rng, p),
            },
            Tree { arity, depth, root, leaf, hash } => {
                let b = bls(if leaf.is_some() { 1 } else { 2 });
                let (l, i) = (s.values[0].clone(), num(s.number));
                if *arity == 4 {
                    let n = s.nodes.iter().map(|n| node4(n)).collect();
                    prove_leaf_inclusion_4_ary_merkle_tree(
                        l, i, leaf.is_none(), b, n, root, *depth, &mut hash.clone(), rng, p,
                    )
                } else {
                    let n = s.nodes.iter().map(|n| node8(n)).collect();
                    prove_leaf_inclusion_8_ary_merkle_tree(
                        l, i, leaf.is_none(), b, n, root, *depth, &mut hash.clone(), rng, p,
                    )
                }
            }
        }
    }

    fn verify(&self, c: Vec<G1>, e: &Bases, v: &mut Verifier) -> Result<(), R1CSError> {
        match self {
            NonZero => verify_non_zero_val(c, v),
            Bound { lower, upper, bits } => verify_bounded_num(*lower, *upper, *bits, c, v),
            Member { set } => verify_set_membership(set, c, v),
            Alt { set } => verify_set_membership_alt(set, c, v),
            Outside { set } => verify_set_non_membership(set, c, v),
            Mimc { c: k, image } => verify_mimc_preimage(image, k, c, v),
            Poseidon { params, sbox, image } => match params.width {
                3 => verify_knowledge_of_preimage_of_Poseidon_2(image, params, sbox, c, &e.g, &e.h, v),
                5 => verify_knowledge_of_preimage_of_Poseidon_4(image, params, sbox, c, &e.g, &e.h, v),
                _ => verify_knowledge_of_preimage_of_Poseidon_8(image, params, sbox, c, &e.g, &e.h, v),
            },
            Tree { arity, depth, root, leaf, hash } => {
                let (mut h, l) = (hash.clone(), leaf.clone());
                if *arity == 4 {
                    verify_leaf_inclusion_4_ary_merkle_tree(root, *depth, &mut h, l, c, &e.g, &e.h, v)
                } else {
                    verify_leaf_inclusion_8_ary_merkle_tree(root, *depth, &mut h, l, c, &e.g, &e.h, v)
                }
            }
        }
    }

    /// number of commitments a proof of this claim comes with
    fn comms(&self) -> usize {
        match self {
            NonZero => 2,
            Bound { .. } => 3,
            Member { set } => set.len() + 1,
            Alt { set } => set.len() + 1,
            Outside { set } => 2 * set.len() + 1,
            Mimc { .. } => 2,
            Poseidon { params, .. } => params.width - 1,
            Tree { arity, depth, leaf, .. } => depth * (arity - 1) + 1 + (leaf.is_none() as usize),
        }
    }

    /// The claim, about the values committed to (`v`).
    fn holds(&self, v: &[FieldElement]) {
        match self {
            NonZero => differ(&v[0], &zero_fe(), "the value is not zero"),
            Bound { lower, upper, .. } => {
                let inside = (*lower..=*upper).any(|x| is_same(&v[0], &num(x)));
                truth(inside, "the value is within the bounds");
            }
            Member { set } => truth(set.iter().any(|x| is_same(&v[0], x)), "the value is in the set"),
            Alt { set } => {
                let x = &v[set.len()];
                truth(set.iter().any(|s| is_same(x, &num(*s))), "the value is in the set")
            }
            Outside { set } => {
                for x in set {
                    differ(&v[0], x, "the value is not in the set");
                }
            }
            Mimc { c, image } => same(&reference_mimc(&v[0], &v[1], c), image, "the values hash to the image"),
            Poseidon { params, sbox, image } => {
                let cap = [3u64, 31, 511][params.width / 4];
                let mut x = vec![num(cap)];
                x.extend_from_slice(&v[..params.width - 1]);
                same(&reference_poseidon(x, params, sbox)[1], image, "the values hash to the image");
            }
            Tree { arity, depth, root, leaf, hash } => {
                let total = (*arity as u64).pow(*depth as u32);
                let i = (0..total).find(|i| is_same(&v[0], &num(*i)));
                truth(i.is_some(), "the index is one of the tree");
                let (l, nodes) = match leaf {
                    Some(l) => (l.clone(), &v[1..]),
                    None => (v[1].clone(), &v[2..]),
                };
                let nodes: Vec<Vec<FieldElement>> = nodes.chunks(arity - 1).map(|c| c.to_vec()).collect();
                same(
                    &fold(hash, *arity, *depth, i.unwrap(), &l, &nodes),
                    root,
                    "the leaf hashes to the root along its path",
                );
            }
        }
    }
}

fn fold(h: &Square, arity: usize, depth: usize, i: u64, leaf: &FieldElement, nodes: &[Vec<FieldElement>]) -> FieldElement {
    let mut cur = leaf.clone();
    let mut i = i as usize;
    for l in (0..depth).rev() {
        let mut c = nodes[l].clone();
        c.insert(i % arity, cur);
        i /= arity;
        cur = h.value(&c);
    }
    cur
}

fn reference_mimc(l: &FieldElement, r: &FieldElement, c: &[FieldElement]) -> FieldElement {
    let (mut l, mut r) = (l.clone(), r.clone());
    for k in c {
        let t = &l + k;
        let n = &(&(&t * &t) * &t) + &r;
        r = l;
        l = n;
    }
    l
}

fn reference_sbox(x: &FieldElement, s: &SboxType) -> FieldElement {
    match s {
        SboxType::Cube => &(x * x) * x,
        SboxType::Quint => {
            let q = x * x;
            &(&q * &q) * x
        }
        SboxType::Inverse => x.inverse(),
    }
}
fn assume_invertible(x: Vec<FieldElement>, p: &PoseidonParams) {
    poseidon(x, p, &|x| {
        assume_differ(x, &zero_fe());
        x.inverse()
    });
}
fn reference_poseidon(x: Vec<FieldElement>, p: &PoseidonParams, s: &SboxType) -> Vec<FieldElement> {
    poseidon(x, p, &|x| reference_sbox(x, s))
}
fn poseidon(mut x: Vec<FieldElement>, p: &PoseidonParams, s: &dyn Fn(&FieldElement) -> FieldElement) -> Vec<FieldElement> {
    let total = p.full_rounds_beginning + p.partial_rounds + p.full_rounds_end;
    let w = p.width;
    for r in 0..total {
        let full = r < p.full_rounds_beginning || r >= p.full_rounds_beginning + p.partial_rounds;
        for i in 0..w {
            x[i] = &x[i] + &p.round_keys[r * w + i];
            if full || i == w - 1 {
                x[i] = s(&x[i]);
            }
        }
        let mut y = vec![zero_fe(); w];
        for i in 0..w {
            for j in 0..w {
                y[i] = &y[i] + &(&x[j] * &p.MDS_matrix[j][i]);
            }
        }
        x = y;
    }
    x
}

// ------------------------------------------------------------------- checks

/// The witness an honest prover assigns satisfies its circuit, which is the
/// verifier's circuit.
fn honest(c: &Claim, s: &Secret) {
    let e = bases();
    let how = choose("blindings", 2);
    let mut t = Transcript::new(b"gadget");
    let mut p = Prover::new(&e.g, &e.h, &mut t);
    let comms = c.prove(s, how, &mut p).unwrap();
    truth(comms.len() == c.comms(), "one commitment for every value the claim needs");
    let [l, r, o, v] = p.assignment();
    let mut rec = Recorder::new("p", v.as_slice().to_vec());
    rec.l = l.as_slice().to_vec();
    rec.r = r.as_slice().to_vec();
    for i in 0..rec.l.len() {
        same(&o[i], &(&rec.l[i] * &rec.r[i]), "every output wire is the product of its inputs");
    }
    for (i, k) in p.circuit().iter().enumerate() {
        same(&rec.eval(k), &zero_fe(), &format!("constraint {} holds for an honest witness", i));
    }
    let mut t = Transcript::new(b"gadget");
    let mut ver = Verifier::new(&mut t);
    truth(c.verify(comms, &e, &mut ver).is_ok(), "the verifier takes the commitments of an honest prover");
    let (m, kv) = ver.circuit();
    truth(m == rec.l.len() && kv.len() == p.circuit().len(), "prover and verifier collect circuits of one size");
    truth(ver.commitments().len() == rec.committed.len(), "prover and verifier commit to equally many values");
    // on arbitrary wires
    let mut any = Recorder::new("q", all("qv", rec.committed.len()));
    any.l = all("ql", m);
    any.r = all("qr", m);
    for (a, b) in p.circuit().iter().zip(kv) {
        same(&any.eval(a), &any.eval(b), "prover and verifier collect the same constraints");
    }
    reach("honest");
}

/// Every witness that satisfies the verifier's circuit makes the claim true.
fn sound(c: &Claim) {
    let e = bases();
    let comms = g1s("V", c.comms());
    let mut t = Transcript::new(b"gadget");
    let mut ver = Verifier::new(&mut t);
    truth(c.verify(comms.clone(), &e, &mut ver).is_ok(), "the verifier builds a circuit for any commitments");
    let bound = ver.commitments().to_vec();
    truth(bound.len() >= comms.len(), "the verifier binds every commitment");
    let mut v = all("v", comms.len());
    for (i, x) in comms.iter().enumerate() {
        same(&bound[i], x, "the verifier binds the commitments in order");
    }
    // what the verifier commits to itself is known
    for x in &bound[comms.len()..] {
        let k = match c {
            Poseidon { params, .. } => num([3u64, 31, 511][params.width / 4]),
            _ => violation("the verifier commits to a value of its own"),
        };
        same(x, &(&e.g * &k), "the capacity is committed to without blinding");
        v.push(k);
    }
    let (m, k) = ver.circuit();
    let mut any = Recorder::new("w", v);
    any.l = all("wl", m);
    any.r = all("wr", m);
    any.constraints = k.to_vec();
    any.assume();
    c.holds(&any.committed);
    reach("satisfied");
}

/// Any other number of commitments is an error.
fn lengths(c: &Claim, most: usize) {
    let e = bases();
    for n in 0..most + 1 {
        if n == c.comms() {
            continue;
        }
        let mut t = Transcript::new(b"gadget");
        let mut ver = Verifier::new(&mut t);
        truth(
            no_fork(|| c.verify(g1s("V", n), &e, &mut ver)).is_err(),
            &format!("{} commitments instead of {} are refused", n, c.comms()),
        );
    }
    let mut t = Transcript::new(b"gadget");
    let mut p = Prover::new(&e.g, &e.h, &mut t);
    let s = Secret { values: all("x", 8), number: 1, nodes: vec![] };
    truth(c.prove(&s, 2, &mut p).is_err(), "a prover without blindings and randomness reports an error");
    reach("lengths");
}

fn set(n: usize) -> Vec<FieldElement> {
    all("s", n)
}
fn params(width: usize, f: usize, p: usize, e: usize) -> PoseidonParams {
    // arbitrary parameters for one round, small distinct ones for several
    let several = f + p + e > 1;
    let val = |n: &str, i: usize, k: usize| -> Vec<FieldElement> {
        match several {
            true => (0..k).map(|j| num((i * i * 7 + j * j * 5 + i * j + 3) as u64 % 23 + 1)).collect(),
            false => all(n, k),
        }
    };
    let mut m = vec![];
    for i in 0..width {
        m.push(val(&format!("mds{}.", i), i, width));
    }
    PoseidonParams {
        width,
        full_rounds_beginning: f,
        full_rounds_end: e,
        partial_rounds: p,
        round_keys: val("rk", 1, width * (f + p + e)),
        MDS_matrix: m,
    }
}
fn square(arity: usize) -> Square {
    Square { k: all("k", arity + 1) }
}

fn poseidons(thorough: bool) -> Vec<(usize, SboxType, usize, usize, usize)> {
    use SboxType::*;
    let mut v = vec![];
    for s in vec![Cube, Quint, Inverse] {
        v.push((3, s, 1, 0, 0));
        v.push((3, s, 0, 1, 0));
        v.push((3, s, 0, 1, 1));
        v.push((3, s, 1, 1, 0));
        v.push((5, s, 1, 0, 0));
        v.push((9, s, 0, 1, 0));
        if thorough {
            v.push((3, s, 1, 1, 1));
            v.push((5, s, 1, 1, 0));
            v.push((9, s, 1, 0, 0));
        }
    }
    v
}

pub fn r03(thorough: bool) -> Vec<Case> {
    let mut out = vec![];
    macro_rules! add {
        ($name:expr, $f:expr) => {
            out.push(case($name, $f))
        };
    }
    add!("honest nonzero", || honest(&NonZero, &Secret::of(vec![nonzero(the("x"))])));
    add!("sound nonzero", || sound(&NonZero));
    add!("lengths nonzero", || lengths(&NonZero, 4));

    let mut bounds = vec![(0u64, 0u64, 1usize), (0, 1, 1), (1, 2, 2), (2, 5, 2), (3, 7, 3), (1, 3, 3)];
    if thorough {
        bounds.extend(vec![(0, 15, 4), (5, 12, 4), (1_000_000, 1_000_006, 3), ((1 << 40) - 3, 1 << 40, 2)]);
    }
    for (lower, upper, bits) in bounds {
        let c = Bound { lower, upper, bits };
        let (a, b, d) = (c.clone(), c.clone(), c.clone());
        add!(format!("honest bound {}..{} bits={}", lower, upper, bits), move || {
            let x = lower + choose("value", (upper - lower + 1) as u32) as u64;
            honest(&a, &Secret { values: vec![], number: x, nodes: vec![] })
        });
        add!(format!("sound bound {}..{} bits={}", lower, upper, bits), move || sound(&b));
        add!(format!("outside bound {}..{} bits={}", lower, upper, bits), move || {
            let e = bases();
            for x in vec![lower.checked_sub(1), upper.checked_add(1), Some(u64::max_value()), Some(0)] {
                let x = match x {
                    Some(x) if x < lower || x > upper => x,
                    _ => continue,
                };
                let mut t = Transcript::new(b"gadget");
                let mut p = Prover::new(&e.g, &e.h, &mut t);
                let s = Secret { values: vec![], number: x, nodes: vec![] };
                truth(d.prove(&s, 1, &mut p).is_err(), "a value outside the bounds is not proved to be within them");
            }
            reach("outside");
        });
    }
    // as wide as the dependency's numbers allow
    for bits in vec![8usize, 31, 32, 33, 48, 57] {
        for low in vec![0u64, 3] {
            add!(format!("honest wide bound bits={} from {}", bits, low), move || {
                let upper = low + (1u64 << bits) - 1;
                let c = Bound { lower: low, upper, bits };
                let x = match choose("value", bits as u32 + 2) as u64 {
                    i if i < bits as u64 => low + (1 << i),
                    i if i == bits as u64 => low,
                    _ => upper,
                };
                honest(&c, &Secret { values: vec![], number: x, nodes: vec![] })
            });
        }
    }
    add!("lengths bound", || lengths(&Bound { lower: 0, upper: 3, bits: 2 }, 5));

    for n in 0..(if thorough { 6 } else { 4 }) {
        if n > 0 {
            add!(format!("honest member n={}", n), move || {
                let s = set(n);
                let i = choose("which", n as u32) as usize;
                honest(&Member { set: s.clone() }, &Secret::of(vec![s[i].clone()]))
            });
        }
        add!(format!("sound member n={}", n), move || sound(&Member { set: set(n) }));
        add!(format!("lengths member n={}", n), move || lengths(&Member { set: set(n) }, n + 3));
        add!(format!("honest outside n={}", n), move || {
            let s = set(n);
            let x = the("x");
            for y in &s {
                assume_differ(&x, y);
            }
            honest(&Outside { set: s }, &Secret::of(vec![x]))
        });
        add!(format!("sound outside n={}", n), move || sound(&Outside { set: set(n) }));
        add!(format!("lengths outside n={}", n), move || lengths(&Outside { set: set(n) }, 2 * n + 4));
    }
    let mut alts: Vec<Vec<u64>> = vec![vec![7], vec![0, 3], vec![5, 5], vec![1, 2, 4], vec![9, 0, 1 << 40]];
    if thorough {
        alts.push(vec![1, 2, 3, 4, 5]);
        alts.push(vec![2, 3, 2, 2]);
    }
    for a in alts {
        let (b, d) = (a.clone(), a.clone());
        add!(format!("honest alt {:?}", a), move || {
            let i = choose("which", a.len() as u32) as usize;
            honest(&Alt { set: a.clone() }, &Secret { values: vec![], number: a[i], nodes: vec![] })
        });
        add!(format!("sound alt {:?}", b), move || sound(&Alt { set: b.clone() }));
        add!(format!("lengths alt {:?}", d), move || lengths(&Alt { set: d.clone() }, d.len() + 4));
    }

    for n in 0..4 {
        add!(format!("honest mimc rounds={}", n), move || {
            let (x, c) = (all("x", 2), all("c", n));
            let image = mimc(&x[0], &x[1], &c);
            honest(&Mimc { c, image }, &Secret::of(x))
        });
        add!(format!("sound mimc rounds={}", n), move || sound_image(|image| Mimc { c: all("c", n), image }));
    }
    add!("lengths mimc", || lengths(&Mimc { c: all("c", 1), image: the("image") }, 4));
    add!("inputs mimc", || {
        for n in 0..5 {
            let c = all("c", 2);
            let m = Mimc2 { constants: &c };
            let x = all("x", n);
            match m.hash(x.clone()) {
                Ok(h) => {
                    truth(n == 2, "a hash of two inputs takes two inputs");
                    same(&h, &reference_mimc(&x[0], &x[1], &c), "the MiMC permutation");
                }
                Err(_) => truth(n != 2, "a hash of two inputs takes two inputs"),
            }
        }
        reach("inputs");
    });
    for (w, s, f, p, e) in poseidons(thorough) {
        let nm = format!("poseidon width={} {:?} rounds={}+{}+{}", w, s, f, p, e);
        add!(format!("honest {}", nm), move || {
            let pr = params(w, f, p, e);
            let x = all("x", w - 1);
            if let SboxType::Inverse = s {
                // zero has no inverse
                let mut y = vec![num([3u64, 31, 511][w / 4])];
                y.extend_from_slice(&x);
                assume_invertible(y, &pr);
            }
            let h = match w {
                3 => Poseidon_hash_2(x.clone(), &pr, &s),
                5 => Poseidon_hash_4(x.clone(), &pr, &s),
                _ => Poseidon_hash_8(x.clone(), &pr, &s),
            };
            honest(&Poseidon { params: pr, sbox: s, image: h.unwrap() }, &Secret::of(x))
        });
        // more rounds are beyond the solver
        let most = if let SboxType::Cube = s { 2 } else { 1 };
        if f + p + e > most {
            continue;
        }
        add!(format!("sound {}", nm), move || {
            sound_image(|image| Poseidon { params: params(w, f, p, e), sbox: s, image })
        });
    }
    for w in vec![3usize, 5, 9] {
        add!(format!("lengths poseidon width={}", w), move || {
            let c = Poseidon { params: params(w, 1, 0, 0), sbox: SboxType::Cube, image: the("image") };
            lengths(&c, w + 2);
            for n in 0..w + 2 {
                let pr = params(w, 1, 0, 0);
                let x = all("x", n);
                let h = match w {
                    3 => Poseidon_hash_2(x, &pr, &SboxType::Cube),
                    5 => Poseidon_hash_4(x, &pr, &SboxType::Cube),
                    _ => Poseidon_hash_8(x, &pr, &SboxType::Cube),
                };
                truth(h.is_ok() == (n == w - 1), "a hash takes exactly its number of inputs");
            }
        });
    }

    // deep trees for honest paths only
    for (arity, depth) in if thorough {
        vec![(4usize, 1usize), (4, 2), (4, 3), (8, 1), (8, 2), (4, 5), (8, 3), (8, 6), (4, 9), (8, 11)]
    } else {
        vec![(4, 1), (4, 2), (8, 1), (4, 5), (8, 3), (8, 6)]
    } {
        for hidden in 0..2 {
            let nm = format!("tree arity={} depth={} {}", arity, depth, ["known leaf", "hidden leaf"][hidden]);
            let mk = move |root: FieldElement, leaf: FieldElement| Tree {
                arity,
                depth,
                root,
                leaf: if hidden == 1 { None } else { Some(leaf) },
                hash: square(arity),
            };
            add!(format!("honest {}", nm), move || {
                let total = (arity as u64).pow(depth as u32);
                // every digit at every level
                let picks: Vec<u64> = if total <= 16 {
                    (0..total).collect()
                } else {
                    (0..arity as u64).map(|d| (0..depth as u32).map(|l| ((d + l as u64) % arity as u64) * (arity as u64).pow(l)).sum()).collect()
                };
                let i = picks[choose("index", picks.len() as u32) as usize];
                let leaf = the("leaf");
                let nodes: Vec<Vec<FieldElement>> = (0..depth).map(|l| all(&format!("n{}.", l), arity - 1)).collect();
                let root = fold(&square(arity), arity, depth, i, &leaf, &nodes);
                honest(&mk(root, leaf.clone()), &Secret { values: vec![leaf], number: i, nodes })
            });
            if (arity as u64).pow(depth as u32) <= if thorough { 64 } else { 16 } {
                add!(format!("sound {}", nm), move || sound_image(|r| mk(r, the("leaf"))));
            }
            if depth > 3 {
                continue;
            }
            add!(format!("levels {}", nm), move || {
                for n in 0..arity * (depth + 2) {
                    if n == (arity - 1) * depth {
                        continue;
                    }
                    let mut r = Recorder::new("w", all("v", n + 1));
                    let nodes = r.vars()[1..].to_vec();
                    let i = AllocatedQuantity { variable: Variable::Committed(0), assignment: None };
                    let (root, leaf, mut h) = (the("root"), LeafValueType::Known(the("leaf")), square(arity));
                    let done = no_fork(|| match arity {
                        4 => vanilla_merkle_merkle_tree_4_verif_gadget(&mut r, depth, &root, leaf, i, nodes, &mut h),
                        _ => vanilla_merkle_merkle_tree_8_verif_gadget(&mut r, depth, &root, leaf, i, nodes, &mut h),
                    });
                    truth(done.is_err(), "a path has all its siblings on every level");
                }
                reach("levels");
            });
            add!(format!("lengths {}", nm), move || {
                let c = mk(the("root"), the("leaf"));
                lengths(&c, c.comms() + 2 * arity);
            });
        }
    }
    out
}

/// As `sound`, for a claim with an image: a free value that comes after the
/// committed ones, so that the last constraint fixes it.
fn sound_image(f: impl Fn(FieldElement) -> Claim) {
    all("v", f(zero_fe()).comms());
    sound(&f(the("image")));
}
