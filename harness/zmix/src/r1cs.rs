//! R1CS proofs: the real prover and verifier, and a third implementation of the
//! `ConstraintSystem` trait that records the circuit with an arbitrary witness.
use crate::val::*;
use amcl_wrapper::field_elem::FieldElement;
use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
use amcl_wrapper::group_elem_g1::{G1Vector, G1};
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::r1cs::{
    ConstraintSystem, LinearCombination, Prover, R1CSProof, RandomizedConstraintSystem, Variable, Verifier,
};
use crate::bp::*;
use merlin::Transcript;
use symcore::engine::*;

pub fn zero_fe() -> FieldElement {
    FieldElement::zero()
}
pub fn one() -> FieldElement {
    FieldElement::one()
}
pub fn num(n: u64) -> FieldElement {
    FieldElement::from(n)
}

/// Records a circuit; the witness of every multiplier is arbitrary.
pub struct Recorder {
    pub committed: Vec<FieldElement>,
    pub l: Vec<FieldElement>,
    pub r: Vec<FieldElement>,
    pub constraints: Vec<LinearCombination>,
    pub deferred: Vec<Box<dyn Fn(&mut Recorder) -> Result<(), R1CSError>>>,
    pub transcript: Transcript,
    pending: Option<usize>,
    tag: String,
}
impl Recorder {
    pub fn new(tag: &str, committed: Vec<FieldElement>) -> Self {
        Recorder {
            committed,
            l: vec![],
            r: vec![],
            constraints: vec![],
            deferred: vec![],
            transcript: Transcript::new(b"recorder"),
            pending: None,
            tag: tag.to_string(),
        }
    }
    pub fn vars(&self) -> Vec<Variable> {
        (0..self.committed.len()).map(Variable::Committed).collect()
    }
    pub fn commit(&mut self, v: FieldElement) -> Variable {
        self.committed.push(v);
        Variable::Committed(self.committed.len() - 1)
    }
    fn fresh(&mut self) -> usize {
        let i = self.l.len();
        self.l.push(fe(&format!("{}l{}", self.tag, i)));
        self.r.push(fe(&format!("{}r{}", self.tag, i)));
        i
    }
    pub fn value(&self, v: &Variable) -> FieldElement {
        match v {
            Variable::Committed(i) => self.committed[*i].clone(),
            Variable::MultiplierLeft(i) => self.l[*i].clone(),
            Variable::MultiplierRight(i) => self.r[*i].clone(),
            Variable::MultiplierOutput(i) => &self.l[*i] * &self.r[*i],
            Variable::One() => one(),
        }
    }
    pub fn eval(&self, lc: &LinearCombination) -> FieldElement {
        let mut s = zero_fe();
        for (v, c) in &lc.terms {
            s = s + &(&self.value(v) * c);
        }
        s
    }
    pub fn second_phase(&mut self) {
        self.pending = None;
        let d = std::mem::replace(&mut self.deferred, vec![]);
        for f in d.iter() {
            f(self).unwrap();
        }
    }
    /// restrict to witnesses that satisfy the circuit
    pub fn assume(&self) {
        for c in &self.constraints {
            assume_same(&self.eval(c), &zero_fe());
        }
    }
}
impl ConstraintSystem for Recorder {
    type RandomizedCS = Recorder;
    fn multiply(&mut self, mut left: LinearCombination, mut right: LinearCombination) -> (Variable, Variable, Variable) {
        // the witness of the inputs is forced by the two constraints
        let (l, r) = (self.eval(&left), self.eval(&right));
        let i = self.l.len();
        self.l.push(l);
        self.r.push(r);
        left.terms.push((Variable::MultiplierLeft(i), FieldElement::minus_one()));
        right.terms.push((Variable::MultiplierRight(i), FieldElement::minus_one()));
        self.constraints.push(left);
        self.constraints.push(right);
        (Variable::MultiplierLeft(i), Variable::MultiplierRight(i), Variable::MultiplierOutput(i))
    }
    fn allocate(&mut self, _: Option<FieldElement>) -> Result<Variable, R1CSError> {
        match self.pending.take() {
            None => {
                let i = self.fresh();
                self.pending = Some(i);
                Ok(Variable::MultiplierLeft(i))
            }
            Some(i) => Ok(Variable::MultiplierRight(i)),
        }
    }
    fn allocate_multiplier(
        &mut self,
        _: Option<(FieldElement, FieldElement)>,
    ) -> Result<(Variable, Variable, Variable), R1CSError> {
        let i = self.fresh();
        Ok((Variable::MultiplierLeft(i), Variable::MultiplierRight(i), Variable::MultiplierOutput(i)))
    }
    fn constrain(&mut self, lc: LinearCombination) {
        self.constraints.push(lc);
    }
    fn specify_randomized_constraints<F>(&mut self, callback: F) -> Result<(), R1CSError>
    where
        F: 'static + Fn(&mut Self::RandomizedCS) -> Result<(), R1CSError>,
    {
        self.deferred.push(Box::new(callback));
        Ok(())
    }
    fn evaluate_lc(&self, _: &LinearCombination) -> Option<FieldElement> {
        None
    }
    fn allocate_single(&mut self, a: Option<FieldElement>) -> Result<(Variable, Option<Variable>), R1CSError> {
        match self.allocate(a)? {
            Variable::MultiplierRight(i) => Ok((Variable::MultiplierRight(i), Some(Variable::MultiplierOutput(i)))),
            v => Ok((v, None)),
        }
    }
}
impl RandomizedConstraintSystem for Recorder {
    fn challenge_scalar(&mut self, label: &'static [u8]) -> FieldElement {
        challenge(&mut self.transcript, label)
    }
}

// ------------------------------------------------------------------- circuits

/// Circuits over the committed values; `k` are arbitrary public coefficients and
/// `w` the prover's assignments of allocated variables.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Circuit {
    /// nothing
    Empty,
    /// k0 v0 + k1 v1 + k2 = v2
    Linear,
    /// v0 * v1 = v2
    Product,
    /// (k0 v0 + k1) * (v1 - k2 v0) = k3 v2 + k4, repeated terms
    Affine,
    /// v0^3 = v1 (two multipliers)
    Cube,
    /// three multipliers (padding): v0^4 = v1
    Fourth,
    /// allocated pair with product: a*b = v0, a + b = v1
    Pair,
    /// an odd number of allocated singles: a*b = v0, c = v1 (c has no partner)
    Odd,
    /// {v0,v1} = {v2,v3} by a random challenge (second phase only)
    Shuffle,
    /// first phase product, second phase two challenges
    Mixed,
}
use Circuit::*;
pub const CIRCUITS: [Circuit; 10] = [Empty, Linear, Product, Affine, Cube, Fourth, Pair, Odd, Shuffle, Mixed];

impl Circuit {
    pub fn nv(self) -> usize {
        match self {
            Empty => 1,
            Cube | Fourth | Pair | Odd => 2,
            Linear | Product | Affine => 3,
            Shuffle | Mixed => 4,
        }
    }
    fn nw(self) -> usize {
        match self {
            Pair => 2,
            Odd => 3,
            _ => 0,
        }
    }
    fn build<CS: ConstraintSystem>(
        self,
        cs: &mut CS,
        v: &[Variable],
        k: &[FieldElement],
        w: Option<&[FieldElement]>,
    ) -> Result<(), R1CSError> {
        let lc = LinearCombination::from;
        let wi = |i: usize| w.map(|w| w[i].clone());
        match self {
            Empty => {}
            Linear => cs.constrain(k[0].clone() * v[0] + k[1].clone() * v[1] + k[2].clone() - v[2]),
            Product => {
                let (_, _, o) = cs.multiply(v[0].into(), v[1].into());
                cs.constrain(o - v[2]);
            }
            Affine => {
                let l = k[0].clone() * v[0] + k[1].clone();
                let r = v[1] - k[2].clone() * v[0];
                let (l, _, o) = cs.multiply(l, r);
                let t: LinearCombination = k[3].clone() * v[2] + lc(k[4].clone());
                cs.constrain(o + l - t - l);
            }
            Cube => {
                let (_, _, s) = cs.multiply(v[0].into(), v[0].into());
                let (_, _, c) = cs.multiply(s.into(), v[0].into());
                cs.constrain(c - v[1]);
            }
            Fourth => {
                let (x, _, s) = cs.multiply(v[0].into(), v[0].into());
                let (_, _, c) = cs.multiply(s.into(), x.into());
                let (_, _, q) = cs.multiply(c.into(), v[0].into());
                cs.constrain(v[1] - q);
            }
            Pair => {
                let (a, b, o) = cs.allocate_multiplier(w.map(|w| (w[0].clone(), w[1].clone())))?;
                cs.constrain(o - v[0]);
                cs.constrain(a + b - v[1]);
            }
            Odd => {
                let a = cs.allocate(wi(0))?;
                let (b, o) = cs.allocate_single(wi(1))?;
                let (c, none) = cs.allocate_single(wi(2))?;
                assert!(none.is_none());
                cs.constrain(o.unwrap() - v[0]);
                cs.constrain(c - v[1]);
                cs.constrain(a - b - k[0].clone());
            }
            Shuffle => {
                let v = v.to_vec();
                cs.specify_randomized_constraints(move |cs| {
                    let z = cs.challenge_scalar(b"shuffle");
                    let (_, _, l) = cs.multiply(v[0] - z.clone(), v[1] - z.clone());
                    let (_, _, r) = cs.multiply(v[2] - z.clone(), v[3] - z.clone());
                    cs.constrain(l - r);
                    Ok(())
                })?;
            }
            Mixed => {
                let (_, _, o) = cs.multiply(v[0].into(), v[1].into());
                let v = v.to_vec();
                cs.specify_randomized_constraints(move |cs| {
                    let a = cs.challenge_scalar(b"a");
                    let b = cs.challenge_scalar(b"b");
                    // a (v0 v1 - v2) + b (v2 - v3) = 0, through a multiplier
                    let (_, _, p) = cs.multiply(o - v[2], LinearCombination::from(a));
                    cs.constrain(p + (b * (v[2] - v[3])));
                    Ok(())
                })?;
            }
        }
        Ok(())
    }
    /// values that satisfy the circuit (None: the last value is free of it)
    fn satisfied(self, k: &[FieldElement], w: &[FieldElement]) -> Vec<FieldElement> {
        let mut v = fes("v", self.nv());
        match self {
            Empty => {}
            Linear => v[2] = &k[0] * &v[0] + &(&k[1] * &v[1]) + &k[2],
            Product => v[2] = &v[0] * &v[1],
            Affine => {
                let l = &k[0] * &v[0] + &k[1];
                let r = &v[1] - &(&k[2] * &v[0]);
                v[2] = (l * r - &k[4]) * k[3].inverse();
            }
            Cube => v[1] = &v[0] * &v[0] * &v[0],
            Fourth => v[1] = &v[0] * &v[0] * &v[0] * &v[0],
            Pair => {
                v[0] = &w[0] * &w[1];
                v[1] = &w[0] + &w[1];
            }
            Odd => {
                v[0] = &w[0] * &w[1];
                v[1] = w[2].clone();
            }
            Shuffle => {
                v[2] = v[1].clone();
                v[3] = v[0].clone();
            }
            Mixed => {
                v[2] = &v[0] * &v[1];
                v[3] = v[2].clone();
            }
        }
        v
    }
}

struct Gens {
    g: G1,
    h: G1,
    gs: G1Vector,
    hs: G1Vector,
}
fn gens(n: usize) -> Gens {
    Gens {
        g: nonzero(g1("g")),
        h: nonzero(g1("h")),
        gs: g1s("G", n).into(),
        hs: g1s("H", n).into(),
    }
}

fn prove(
    c: Circuit,
    e: &Gens,
    v: &[FieldElement],
    k: &[FieldElement],
    w: &[FieldElement],
    bl: &[FieldElement],
) -> Result<(R1CSProof, Vec<G1>), R1CSError> {
    let mut t = Transcript::new(b"r1cs test");
    let mut p = Prover::new(&e.g, &e.h, &mut t);
    let mut comms = vec![];
    let mut vars = vec![];
    for (i, x) in v.iter().enumerate() {
        let (cm, va) = p.commit(x.clone(), bl[i].clone());
        comms.push(cm);
        vars.push(va);
    }
    c.build(&mut p, &vars, k, Some(w))?;
    Ok((p.prove(&e.gs, &e.hs)?, comms))
}
fn verify(c: Circuit, e: &Gens, comms: &[G1], k: &[FieldElement], proof: &R1CSProof, label: &'static [u8]) -> bool {
    let mut t = Transcript::new(label);
    let mut p = Verifier::new(&mut t);
    let vars: Vec<Variable> = comms.iter().map(|c| p.commit(c.clone())).collect();
    c.build(&mut p, &vars, k, None).unwrap();
    p.verify(proof, &e.g, &e.h, &e.gs, &e.hs).is_ok()
}

fn size(c: Circuit) -> usize {
    match c {
        Empty | Linear | Product | Affine | Pair => 1,
        Cube | Odd | Shuffle | Mixed => 2,
        Fourth => 4,
    }
}

pub fn r02(thorough: bool) -> Vec<Case> {
    let mut out = vec![];
    for c in CIRCUITS.iter().cloned() {
        for extra in 0..2 {
            if extra == 1 && !thorough && size(c) != 1 {
                continue;
            }
            out.push(case(format!("complete {:?} spare-generators={}", c, extra), move || {
                let k = fes("k", 5);
                assume_differ(&k[3], &zero_fe());
                let mut w = fes("w", c.nw());
                if c == Odd {
                    w[0] = &w[1] + &k[0];
                }
                let v = c.satisfied(&k, &w);
                let e = gens(size(c) + extra);
                let bl = fes("bl", v.len());
                let (proof, comms) = prove(c, &e, &v, &k, &w, &bl).unwrap();
                for i in 0..v.len() {
                    same(&comms[i], &(&e.g * &v[i] + &(&e.h * &bl[i])), "inputs are committed to under g and h");
                }
                truth(verify(c, &e, &comms, &k, &proof, b"r1cs test"), "an honest proof of a true statement verifies");
                reach("complete");
            }));
        }
        if c == Empty {
            continue;
        }
        out.push(case(format!("false-statement {:?}", c), move || {
            let k = fes("k", 5);
            assume_differ(&k[3], &zero_fe());
            let mut w = fes("w", c.nw());
            if c == Odd {
                w[0] = &w[1] + &k[0];
            }
            let mut v = c.satisfied(&k, &w);
            let i = choose("which value", v.len() as u32) as usize;
            let d = nonzero(fe("delta"));
            v[i] = &v[i] + &d;
            // one value changed, or two of them
            let j = choose("which other value", v.len() as u32) as usize;
            if j < i {
                let d = nonzero(fe("other delta"));
                v[j] = &v[j] + &d;
                reach("two changed");
            } else if j > i {
                prune("the same two values");
            }
            // the changed value breaks the statement
            let mut r = Recorder::new("x", v.clone());
            let vars = r.vars();
            c.build(&mut r, &vars, &k, None).unwrap();
            r.second_phase();
            for (j, x) in w.iter().enumerate() {
                if j % 2 == 0 { r.l[j / 2] = x.clone() } else { r.r[j / 2] = x.clone() }
            }
            if c == Odd { r.r[1] = zero_fe(); }
            let holds = r.constraints.iter().all(|l| is_same(&r.eval(l), &zero_fe()));
            if holds {
                prune("still true");
            }
            let e = gens(size(c));
            let bl = fes("bl", v.len());
            let (proof, comms) = prove(c, &e, &v, &k, &w, &bl).unwrap();
            truth(!verify(c, &e, &comms, &k, &proof, b"r1cs test"), "a proof of a false statement is refused");
            reach("refused");
        }));
    }
    for c in CIRCUITS.iter().cloned() {
        // last: which value the adversary fixes last
        for last in 0..3 {
            out.push(case(format!("exact {:?} last={}", c, last), move || exact(c, last)));
        }
    }
    for c in CIRCUITS.iter().cloned() {
        out.push(case(format!("binding {:?}", c), move || binding(c)));
    }
    out.push(case("combinations", combinations));
    for c in vec![Empty, Product, Cube, Shuffle] {
        out.push(case(format!("malformed {:?}", c), move || malformed(c)));
    }
    out
}

fn json<T: serde::Serialize>(v: &T) -> serde_json::Value {
    serde_json::to_value(v).unwrap()
}

/// A proof all of whose parts are chosen by an adversary, each after the
/// challenges that precede it in the protocol, against the two equations the
/// protocol prescribes.
fn exact(c: Circuit, last: usize) {
    let k = fes("k", 5);
    let n = size(c);
    let e = gens(n);
    let comms = g1s("V", c.nv());
    let mut t = Transcript::new(b"r1cs test");
    t.append_message(b"dom-sep", b"r1cs v1");
    for v in &comms {
        absorb(&mut t, b"V", v);
    }
    t.append_u64(b"m", comms.len() as u64);
    let mut r = Recorder::new("x", vec![zero_fe(); c.nv()]);
    let vars = r.vars();
    c.build(&mut r, &vars, &k, None).unwrap();
    let n1 = r.l.len();
    let (ai1, ao1, s1) = (g1("A_I1"), g1("A_O1"), g1("S1"));
    absorb(&mut t, b"A_I1", &ai1);
    absorb(&mut t, b"A_O1", &ao1);
    absorb(&mut t, b"S1", &s1);
    let two: &[u8] = if r.deferred.is_empty() { b"r1cs-1phase" } else { b"r1cs-2phase" };
    t.append_message(b"dom-sep", two);
    r.transcript = t;
    r.second_phase();
    let mut t = r.transcript.clone();
    let m = r.l.len();
    assert!(m.next_power_of_two() == n);
    let (ai2, ao2, s2) = (g1("A_I2"), g1("A_O2"), g1("S2"));
    absorb(&mut t, b"A_I2", &ai2);
    absorb(&mut t, b"A_O2", &ao2);
    absorb(&mut t, b"S2", &s2);
    let y = challenge(&mut t, b"y");
    let z = challenge(&mut t, b"z");
    let names: [&'static [u8]; 5] = [b"T_1", b"T_3", b"T_4", b"T_5", b"T_6"];
    let ts = g1s("T_", 5);
    for i in 0..5 {
        absorb(&mut t, names[i], &ts[i]);
    }
    let u = challenge(&mut t, b"u");
    let x = challenge(&mut t, b"x");
    let (tx, tb, eb) = match last {
        0 => (fe("t_x"), fe("t_x_blinding"), fe("e_blinding")),
        1 => {
            let (b, e) = (fe("t_x_blinding"), fe("e_blinding"));
            (fe("t_x"), b, e)
        }
        _ => {
            let (x, b) = (fe("t_x"), fe("e_blinding"));
            (x, fe("t_x_blinding"), b)
        }
    };
    absorb_scalar(&mut t, b"t_x", &tx);
    absorb_scalar(&mut t, b"t_x_blinding", &tb);
    absorb_scalar(&mut t, b"e_blinding", &eb);
    let w = challenge(&mut t, b"w");
    let rd = rounds(&mut t, n);
    let proof: R1CSProof = serde_json::from_value(serde_json::json!({
        "A_I1": json(&ai1), "A_O1": json(&ao1), "S1": json(&s1),
        "A_I2": json(&ai2), "A_O2": json(&ao2), "S2": json(&s2),
        "T_1": json(&ts[0]), "T_3": json(&ts[1]), "T_4": json(&ts[2]), "T_5": json(&ts[3]), "T_6": json(&ts[4]),
        "t_x": json(&tx), "t_x_blinding": json(&tb), "e_blinding": json(&eb),
        "ipp_proof": { "L": json(&G1Vector::from(rd.l.clone())), "R": json(&G1Vector::from(rd.r.clone())), "a": json(&rd.a), "b": json(&rd.b) }
    }))
    .unwrap();
    let ok = verify(c, &e, &comms, &k, &proof, b"r1cs test");

    // weights of the flattened constraints: sum_q z^(q+1) (W_q . vars) = 0
    let zero = zero_fe();
    let (mut wl, mut wr, mut wo, mut wv, mut wc) =
        (vec![zero.clone(); n], vec![zero.clone(); n], vec![zero.clone(); n], vec![zero.clone(); c.nv()], zero.clone());
    let mut zq = one();
    for q in &r.constraints {
        zq = &zq * &z;
        for (var, co) in &q.terms {
            let a = &zq * co;
            match var {
                Variable::MultiplierLeft(i) => wl[*i] = &wl[*i] + &a,
                Variable::MultiplierRight(i) => wr[*i] = &wr[*i] + &a,
                Variable::MultiplierOutput(i) => wo[*i] = &wo[*i] + &a,
                Variable::Committed(i) => wv[*i] = &wv[*i] - &a,
                Variable::One() => wc = &wc - &a,
            }
        }
    }
    let yi = y.inverse();
    let mut ypow = vec![one()];
    for i in 1..n {
        let p = &ypow[i - 1] * &yi;
        ypow.push(p);
    }
    let x2 = &x * &x;
    let x3 = &x2 * &x;
    // t(x) g + t~(x) h = x^2 (delta + wc) g + x^2 sum wV V + sum x^i T_i
    let mut delta = zero.clone();
    for i in 0..n {
        delta = delta + &(&(&ypow[i] * &wr[i]) * &wl[i]);
    }
    let lhs1 = &e.g * &tx + &(&e.h * &tb);
    let mut parts = vec![&e.g * &(&x2 * &(&delta + &wc))];
    for i in 0..comms.len() {
        parts.push(&comms[i] * &(&x2 * &wv[i]));
    }
    let xs = [x.clone(), x3.clone(), &x3 * &x, &x3 * &x2, &x3 * &x3];
    for i in 0..5 {
        parts.push(&ts[i] * &xs[i]);
    }
    let rhs1 = sum(&parts);
    // the inner product argument for l(x), r(x) with the scaled bases
    let f: Vec<FieldElement> = (0..n).map(|i| if i < n1 { one() } else { u.clone() }).collect();
    let gs: Vec<G1> = (0..n).map(|i| &e.gs[i] * &f[i]).collect();
    let hs: Vec<G1> = (0..n).map(|i| &e.hs[i] * &(&f[i] * &ypow[i])).collect();
    let mut parts = vec![
        &ai1 * &x,
        &ao1 * &x2,
        &s1 * &x3,
        &ai2 * &(&u * &x),
        &ao2 * &(&u * &x2),
        &s2 * &(&u * &x3),
        &e.h * &(-&eb),
        &e.g * &(&w * &tx),
    ];
    for i in 0..n {
        parts.push(&gs[i] * &(&x * &(&ypow[i] * &wr[i])));
        parts.push(&hs[i] * &(&(&x * &wl[i]) + &wo[i]));
        parts.push(&e.hs[i] * &(-&f[i]));
    }
    let (lhs2, rhs2) = folded(&sum(&parts), &(&e.g * &w), &gs, &hs, &rd);
    if ok {
        same(&lhs1, &rhs1, "an accepted proof satisfies the polynomial equation");
        same(&lhs2, &rhs2, "an accepted proof satisfies the inner product equation");
        reach(&format!("accepted {:?}", c));
    } else {
        truth(!(is_same(&lhs1, &rhs1) && is_same(&lhs2, &rhs2)), "a proof satisfying both equations is accepted");
        reach("rejected");
    }
}

/// Linear combinations denote what their operators say, and the prover
/// evaluates them so.
fn combinations() {
    let v = fes("v", 3);
    let k = fes("k", 3);
    let mut rec = Recorder::new("x", v.clone());
    let (l, r) = (fe("l"), fe("r"));
    let (vl, vr, vo) = rec.allocate_multiplier(None).unwrap();
    rec.l[0] = l.clone();
    rec.r[0] = r.clone();
    let e = gens(1);
    let mut t = Transcript::new(b"r1cs test");
    let mut p = Prover::new(&e.g, &e.h, &mut t);
    let x: Vec<Variable> = (0..3).map(|i| p.commit(v[i].clone(), fe(&format!("bl{}", i))).1).collect();
    p.allocate_multiplier(Some((l.clone(), r.clone()))).unwrap();
    type L = LinearCombination;
    let o = &l * &r;
    let lc = |v: Variable| L::from(v);
    let mut sum = lc(x[0]) + k[0].clone();
    sum += x[1];
    sum += lc(x[2]) - vl;
    let all: Vec<(L, FieldElement)> = vec![
        (L::default(), zero_fe()),
        (L::from(k[0].clone()), k[0].clone()),
        (lc(vl), l.clone()),
        (lc(vr), r.clone()),
        (lc(vo), o.clone()),
        (lc(Variable::One()), one()),
        (k[0].clone() * (lc(x[0]) + k[1].clone()), &k[0] * &(&v[0] + &k[1])),
        (&k[0] * (lc(x[0]) - k[1].clone()), &k[0] * &(&v[0] - &k[1])),
        (-(lc(x[0]) + k[2].clone()), (&v[0] + &k[2]).negation()),
        (-x[1], v[1].negation()),
        (x[0] + x[1], &v[0] + &v[1]),
        (x[0] - x[1], &v[0] - &v[1]),
        (x[0] + k[0].clone(), &v[0] + &k[0]),
        (x[0] - k[0].clone(), &v[0] - &k[0]),
        (k[0].clone() + x[0], &k[0] + &v[0]),
        (k[0].clone() - x[0], &k[0] - &v[0]),
        (k[0].clone() * x[0], &k[0] * &v[0]),
        ((k[0].clone() * x[0]) - (k[1].clone() * x[1]) + vo, &(&(&k[0] * &v[0]) - &(&k[1] * &v[1])) + &o),
        (sum, &(&(&v[0] + &k[0]) + &(&v[1] + &v[2])) - &l),
        (vec![(x[0], k[0].clone()), (x[1], k[1].clone())].into_iter().collect(), &(&k[0] * &v[0]) + &(&k[1] * &v[1])),
        (vec![(x[0], k[0].clone()), (vr, k[1].clone())].iter().collect(), &(&k[0] * &v[0]) + &(&k[1] * &r)),
    ];
    for (i, (c, want)) in all.iter().enumerate() {
        same(&rec.eval(c), want, &format!("combination {} denotes its value", i));
        let n = c.len();
        truth(n == c.clone().get_terms().len(), "the length is the number of terms");
        // the same terms twice and once more: one term per variable, same value
        let twice = c.clone() + c.clone();
        let s = twice.clone().simplify();
        same(&rec.eval(&s), &rec.eval(&twice), "simplifying keeps the value");
        let vars: std::collections::HashSet<Variable> = twice.terms.iter().map(|t| t.0).collect();
        truth(s.len() == vars.len(), "simplifying leaves one term for every variable");
        match p.evaluate_lc(c) {
            Some(got) => same(&got, want, &format!("the prover evaluates combination {}", i)),
            None => truth(false, "the prover evaluates combinations"),
        }
    }
    let mut t = Transcript::new(b"r1cs test");
    let ver = Verifier::new(&mut t);
    truth(ver.evaluate_lc(&all[1].0).is_none(), "the verifier has no values");
    reach("combinations");
}

/// Every challenge of the verifier depends on every message that the protocol
/// sends before it: the commitments, and the parts of the proof.
fn binding(c: Circuit) {
    let k = fes("k", 5);
    assume_differ(&k[3], &zero_fe());
    let mut w = fes("w", c.nw());
    if c == Odd {
        w[0] = &w[1] + &k[0];
    }
    let v = c.satisfied(&k, &w);
    let n = size(c);
    let e = gens(n);
    let bl = fes("bl", v.len());
    let (proof, comms) = prove(c, &e, &v, &k, &w, &bl).unwrap();
    let lg = n.trailing_zeros() as usize;
    merlin::drawn();
    no_fork(|| verify(c, &e, &comms, &k, &proof, b"r1cs test"));
    let before = merlin::drawn();
    let find = |l: &[u8], back: usize| before.iter().position(|c| c.0 == l).unwrap_or(before.len() - lg - back);
    let (y, x, wpos) = (find(b"y", 5), find(b"x", 2), find(b"w", 1));
    let (d, ds) = (nonzero(g1("d")), nonzero(fe("ds")));
    let mut messages: Vec<(String, usize)> = vec![];
    for i in 0..comms.len() {
        messages.push((format!("V{}", i), 0));
    }
    for (m, at) in vec![
        ("A_I1", 0), ("A_O1", 0), ("S1", 0), ("A_I2", y), ("A_O2", y), ("S2", y),
        ("T_1", x), ("T_3", x), ("T_4", x), ("T_5", x), ("T_6", x), ("t_x", wpos), ("t_x_blinding", wpos),
    ] {
        messages.push((m.to_string(), at));
    }
    for i in 0..lg {
        messages.push((format!("L{}", i), wpos + 1 + i));
        messages.push((format!("R{}", i), wpos + 1 + i));
    }
    let (m, at) = messages[choose("message", messages.len() as u32) as usize].clone();
    let mut comms = comms;
    let mut j = json(&proof);
    let moved = |v: &serde_json::Value| -> serde_json::Value {
        let p: G1 = serde_json::from_value(v.clone()).unwrap();
        json(&(&p + &d))
    };
    if m.starts_with("V") {
        let i: usize = m[1..].parse().unwrap();
        comms[i] = &comms[i] + &d;
    } else if m.starts_with("L") || m.starts_with("R") {
        let i: usize = m[1..].parse().unwrap();
        let mut ps: Vec<G1> = {
            let v: G1Vector = serde_json::from_value(j["ipp_proof"][&m[..1]].clone()).unwrap();
            v.as_slice().to_vec()
        };
        ps[i] = &ps[i] + &d;
        j["ipp_proof"][&m[..1]] = json(&G1Vector::from(ps));
    } else if m.starts_with("t") {
        let f: FieldElement = serde_json::from_value(j[&m].clone()).unwrap();
        j[&m] = json(&(&f + &ds));
    } else {
        j[&m] = moved(&j[&m]);
    }
    let p: R1CSProof = serde_json::from_value(j).unwrap();
    no_fork(|| verify(c, &e, &comms, &k, &p, b"r1cs test"));
    let after = merlin::drawn();
    for i in at..before.len().min(after.len()) {
        truth(before[i].1 != after[i].1, "every challenge depends on every message before it");
    }
    reach("bound");
}

/// Shapes that no prover produces are refused, without a panic.
fn malformed(c: Circuit) {
    let k = fes("k", 5);
    let w = fes("w", c.nw());
    let v = c.satisfied(&k, &w);
    let n = size(c);
    let e = gens(n);
    let bl = fes("bl", v.len());
    let (proof, comms) = prove(c, &e, &v, &k, &w, &bl).unwrap();
    let lg = n.trailing_zeros() as usize;
    let good = json(&proof);
    for nl in 0..lg + 3 {
        for nr in 0..lg + 3 {
            if nl == lg && nr == lg {
                continue;
            }
            let mut j = good.clone();
            j["ipp_proof"]["L"] = json(&G1Vector::from(g1s("l", nl)));
            j["ipp_proof"]["R"] = json(&G1Vector::from(g1s("r", nr)));
            let p: R1CSProof = serde_json::from_value(j).unwrap();
            truth(!no_fork(|| verify(c, &e, &comms, &k, &p, b"r1cs test")), "a proof with the wrong number of rounds is refused");
        }
    }
    let p: R1CSProof = serde_json::from_value(good).unwrap();
    truth(verify(c, &e, &comms, &k, &p, b"r1cs test"), "a proof survives serialisation");
    truth(!verify(c, &e, &comms, &k, &p, b"another label"), "a proof is bound to the transcript");
    // too few generators
    for (a, b) in vec![(n, n - 1), (n - 1, n), (n - 1, n - 1), (0, 0)] {
        let short = Gens {
            g: e.g.clone(),
            h: e.h.clone(),
            gs: e.gs.as_slice()[..a].into(),
            hs: e.hs.as_slice()[..b].into(),
        };
        truth(!no_fork(|| verify(c, &short, &comms, &k, &p, b"r1cs test")), "too few generators are refused");
        truth(no_fork(|| prove(c, &short, &v, &k, &w, &bl)).is_err(), "too few generators are refused by the prover");
    }
    // a commitment that does not open to the proved value
    let d = nonzero(fe("d"));
    let i = choose("commitment", comms.len() as u32) as usize;
    let mut cs = comms.clone();
    cs[i] = &cs[i] + &(&e.g * &d);
    truth(!verify(c, &e, &cs, &k, &p, b"r1cs test"), "a proof does not verify for another commitment");
    reach("malformed");
}
