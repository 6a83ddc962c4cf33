//! Sparse Merkle trees: a map from leaf indices to values with a root and proofs.
use crate::r1cs::zero_fe;
use crate::val::*;
use amcl_wrapper::field_elem::FieldElement;
use bulletproofs_amcl::errors::{BulletproofError, BulletproofErrorKind};
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_4_ary::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_8_ary::*;
use bulletproofs_amcl::r1cs::gadgets::merkle_tree_hash::*;
use bulletproofs_amcl::utils::hash_db::{HashDb, InMemoryHashDb};
use std::cell::Cell;
use symcore::engine::*;

/// A collision-free hash.
#[derive(Clone, Debug)]
pub struct Free;
impl Free {
    fn value(&self, x: &[FieldElement]) -> FieldElement {
        let mut b = vec![];
        for e in x {
            b.extend_from_slice(&e.to_bytes());
        }
        FieldElement::from_msg_hash(&b)
    }
}
impl Arity4MerkleTreeHash for Free {
    fn hash(&self, x: Vec<FieldElement>) -> Result<FieldElement, BulletproofError> {
        Ok(self.value(&x))
    }
}
impl Arity8MerkleTreeHash for Free {
    fn hash(&self, x: Vec<FieldElement>) -> Result<FieldElement, BulletproofError> {
        Ok(self.value(&x))
    }
}

/// A database of which one read fails.
struct Faulty<T: Clone> {
    db: InMemoryHashDb<T>,
    fail_at: Cell<usize>,
}
impl<T: Clone> HashDb<T> for Faulty<T> {
    fn insert(&mut self, hash: Vec<u8>, value: T) {
        self.db.insert(hash, value)
    }
    fn get(&self, hash: &[u8]) -> Result<T, BulletproofError> {
        let n = self.fail_at.get();
        self.fail_at.set(n.wrapping_sub(1));
        if n == 0 {
            return Err(BulletproofErrorKind::HashNotFoundInDB { hash: hash.to_vec() }.into());
        }
        self.db.get(hash)
    }
}

fn at(i: usize) -> FieldElement {
    FieldElement::from(i as u64)
}

macro_rules! tree {
    ($m:ident, $tree:ident, $arity:expr, $val:ident) => {
        mod $m {
            use super::*;
            const A: usize = $arity;

            fn total(depth: usize) -> usize {
                A.pow(depth as u32)
            }
            /// Indices that have every digit on every level.
            fn picks(depth: usize) -> Vec<usize> {
                if total(depth) <= 16 {
                    return (0..total(depth)).collect();
                }
                let mut v: Vec<usize> = (0..A).map(|d| (0..depth).map(|l| (d + l) % A * A.pow(l as u32)).sum()).collect();
                v.extend(vec![0, 1, total(depth) - 1]);
                v.sort();
                v.dedup();
                v
            }
            fn check(t: &$tree<Free>, depth: usize, model: &[FieldElement], db: &dyn HashDb<$val>) {
                for i in picks(depth) {
                    let mut p = Some(vec![]);
                    let v = t.get(&at(i), &mut p, db).unwrap();
                    same(&v, &model[i], "a leaf has the value that was last written to it");
                    let p = p.unwrap();
                    truth(p.len() == depth, "a proof has one node for every level");
                    truth(t.verify_proof(&at(i), &model[i], &p, None).unwrap(), "the proof of a leaf verifies");
                    truth(
                        t.verify_proof(&at(i), &model[i], &p, Some(&t.root)).unwrap(),
                        "the proof of a leaf verifies under the given root",
                    );
                    let w = t.get(&at(i), &mut None, db).unwrap();
                    same(&w, &v, "reading without a proof is the same");
                }
            }
            fn write(depth: usize, steps: usize) -> (Vec<(usize, FieldElement)>, Vec<FieldElement>) {
                let p = picks(depth);
                let mut log: Vec<(usize, FieldElement)> = vec![];
                let mut model = vec![zero_fe(); total(depth)];
                for s in 0..steps {
                    let i = p[choose("index", p.len() as u32) as usize];
                    let v = if choose("zero", 2) == 1 { zero_fe() } else { nonzero(the(&format!("v{}", s))) };
                    model[i] = v.clone();
                    log.push((i, v));
                }
                (log, model)
            }

            /// Reads after any sequence of writes, through every handle.
            pub fn map(depth: usize, steps: usize) {
                let (log, model) = write(depth, steps);
                let h = Free;
                let mut db = InMemoryHashDb::<$val>::new();
                let mut t = $tree::new(&h, depth, &mut db).unwrap();
                let empty = t.root.clone();
                let mut now = vec![zero_fe(); total(depth)];
                let mut past = vec![(t.clone(), now.clone())];
                for (i, v) in &log {
                    let r = t.update(&at(*i), v.clone(), &mut db).unwrap();
                    same(&r, &t.root, "an update returns the new root");
                    now[*i] = v.clone();
                    past.push((t.clone(), now.clone()));
                }
                for (t, m) in &past {
                    check(t, depth, m, &db);
                }
                // the root depends on the map only
                let mut other = InMemoryHashDb::<$val>::new();
                let mut u = $tree::new(&h, depth, &mut other).unwrap();
                same(&u.root, &empty, "empty trees have one root");
                for i in (0..total(depth)).rev() {
                    if !model[i].is_zero() {
                        u.update(&at(i), model[i].clone(), &mut other).unwrap();
                    }
                }
                same(&u.root, &t.root, "the root does not depend on the order of the writes");
                reach("map");
            }

            /// An arbitrary proof is accepted exactly for the value of the leaf.
            pub fn exact(depth: usize, given: bool) {
                let h = Free;
                let mut db = InMemoryHashDb::<$val>::new();
                let p = picks(depth);
                let i = p[choose("index", p.len() as u32) as usize];
                // the leaf and its neighbours are arbitrary, the others distinct numbers
                let model: Vec<FieldElement> = (0..total(depth))
                    .map(|j| if j / A == i / A { nonzero(the(&format!("l{}", j))) } else { at(1000 + j) })
                    .collect();
                let mut t = $tree::new(&h, depth, &mut db).unwrap();
                for (i, v) in model.iter().enumerate() {
                    t.update(&at(i), v.clone(), &mut db).unwrap();
                }
                let mut proof = Some(vec![]);
                t.get(&at(i), &mut proof, &db).unwrap();
                let mut proof = proof.unwrap();
                // one level of the proof is arbitrary, or none
                let l = choose("level", depth as u32 + 1) as usize;
                let v = the("value");
                let mut diff = vec![(v.clone(), model[i].clone())];
                if l < depth {
                    for (k, e) in proof[l].iter_mut().enumerate() {
                        let x = the(&format!("p{}", k));
                        diff.push((x.clone(), e.clone()));
                        *e = x;
                    }
                }
                let root = t.root.clone();
                let r = match given {
                    true => {
                        // a tree that has changed since
                        t.update(&at(0), the("later"), &mut db).unwrap();
                        t.verify_proof(&at(i), &v, &proof, Some(&root))
                    }
                    false => t.verify_proof(&at(i), &v, &proof, None),
                };
                if r.unwrap() {
                    for (a, b) in diff {
                        same(&a, &b, "an accepted proof is the proof of the leaf's value");
                    }
                    reach("accepted");
                } else {
                    // some part differs
                    if diff.iter().all(|(a, b)| is_same(a, b)) {
                        violation("the proof of the leaf's value is accepted");
                    }
                    reach("rejected");
                }
            }

            /// Proofs of another length are not accepted.
            pub fn shapes(depth: usize) {
                let h = Free;
                let mut db = InMemoryHashDb::<$val>::new();
                let mut t = $tree::new(&h, depth, &mut db).unwrap();
                let v = nonzero(the("v"));
                t.update(&at(1), v.clone(), &mut db).unwrap();
                let mut p = Some(vec![]);
                t.get(&at(1), &mut p, &db).unwrap();
                let p = p.unwrap();
                for n in 0..depth + 3 {
                    let q: Vec<_> = (0..n).map(|i| p[i % depth].clone()).collect();
                    let r = no_fork(|| t.verify_proof(&at(1), &v, &q, None));
                    truth(
                        r.unwrap_or(false) == (n == depth),
                        &format!("a proof of {} levels is refused for a tree of {}", n, depth),
                    );
                }
                reach("shapes");
            }

            /// A read of the database that fails changes nothing.
            pub fn faults(depth: usize) {
                let h = Free;
                let mut db = Faulty { db: InMemoryHashDb::<$val>::new(), fail_at: Cell::new(usize::max_value()) };
                let mut t = $tree::new(&h, depth, &mut db).unwrap();
                let mut model = vec![zero_fe(); total(depth)];
                let p = picks(depth);
                for s in 0..2 {
                    let i = p[choose("index", p.len() as u32) as usize];
                    let v = nonzero(the(&format!("v{}", s)));
                    let root = t.root.clone();
                    if s == 1 {
                        let n = choose("fails", depth as u32) as usize;
                        db.fail_at.set(n);
                        truth(t.update(&at(i), v.clone(), &mut db).is_err(), "an update without the path's nodes is an error");
                        same(&t.root, &root, "a failed update leaves the root");
                        db.fail_at.set(n);
                        truth(t.get(&at(i), &mut None, &db).is_err(), "a read without the path's nodes is an error");
                        db.fail_at.set(usize::max_value());
                        check(&t, depth, &model, &db);
                    }
                    t.update(&at(i), v.clone(), &mut db).unwrap();
                    model[i] = v;
                }
                check(&t, depth, &model, &db);
                reach("faults");
            }
        }
    };
}
tree!(four, VanillaSparseMerkleTree4, 4, DbVal4ary);
tree!(eight, VanillaSparseMerkleTree8, 8, DbVal8ary);

pub fn r04(thorough: bool) -> Vec<Case> {
    let mut out = vec![];
    macro_rules! cases {
        ($m:ident, $arity:expr, $maps:expr, $exact:expr, $shapes:expr, $faults:expr) => {
            for (d, k) in $maps {
                out.push(case(format!("map arity={} depth={} writes={}", $arity, d, k), move || $m::map(d, k)));
            }
            for d in $exact {
                for g in vec![false, true] {
                    out.push(case(format!("exact arity={} depth={} root={}", $arity, d, g), move || $m::exact(d, g)));
                }
            }
            for d in $shapes {
                out.push(case(format!("shapes arity={} depth={}", $arity, d), move || $m::shapes(d)));
            }
            for d in $faults {
                out.push(case(format!("faults arity={} depth={}", $arity, d), move || $m::faults(d)));
            }
        };
    }
    let q4: Vec<(usize, usize)> = if thorough { vec![(0, 3), (1, 3), (2, 2), (3, 2)] } else { vec![(0, 2), (1, 3), (2, 2)] };
    let q8: Vec<(usize, usize)> = if thorough { vec![(0, 2), (1, 2), (2, 2), (3, 2)] } else { vec![(0, 2), (1, 2)] };
    cases!(four, 4, q4, vec![1usize, 2], vec![1usize, 2, 3], vec![1usize, 2]);
    cases!(eight, 8, q8, if thorough { vec![1usize, 2] } else { vec![1usize] }, vec![1usize, 2], vec![1usize, 2]);
    out
}
