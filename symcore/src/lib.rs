//! Symbolic field values for executing the real ursa code on symbolic inputs.
//!
//! A value is a node of a global expression DAG over a prime field.  Group
//! elements of a prime-order group are represented by their discrete
//! logarithm, which is also such a node.  Control flow that depends on a value
//! is decided by `decide_zero`, which asks the SMT solver whether the branch is
//! forced and otherwise forks (see `engine`).

pub mod engine;
pub mod ints;
pub use num_bigint::BigInt;
pub use num_traits;
pub mod field;
pub mod smt;

use field::Fp;
use num_integer::Integer;
use num_traits::{One, Signed, Zero};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Mutex, MutexGuard, OnceLock};

pub type Id = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    /// chosen by the caller / the adversary: any value
    Free,
    /// drawn from the random number generator: uniform and independent of
    /// everything created before it
    Rand,
    /// output of a hash modelled as a random oracle
    Oracle,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Node {
    Const(BigInt, BigInt),
    Sym(u32),
    Add(Id, Id),
    Mul(Id, Id),
    Neg(Id),
    Inv(Id),
}

pub struct SymInfo {
    pub name: String,
    pub kind: Kind,
    pub node: Id,
}

pub struct Stats {
    pub queries: u64,
    pub unsat: u64,
    pub sat: u64,
    pub solver_s: f64,
    pub max_query_s: f64,
    pub asserts: u64,
    pub syntactic: u64,
    pub negligible: u64,
}

pub struct State {
    pub nodes: Vec<Node>,
    pub shadow: Vec<Fp>,
    /// index of the latest created symbol the node mentions (+1; 0 = none)
    pub latest: Vec<u32>,
    pub cons: HashMap<Node, Id>,
    pub syms: Vec<SymInfo>,
    pub subst: BTreeMap<u32, Id>,
    pub neqs: Vec<Id>,
    pub oracles: HashMap<(String, Vec<u8>), Id>,
    pub named: HashMap<String, u32>,
    pub the: HashMap<String, Id>,
    pub oracle_list: Vec<(String, Vec<u8>)>,
    pub tag_lens: std::collections::BTreeSet<(u8, usize)>,
    pub oracle_bytes: HashMap<(String, Vec<u8>, usize), Vec<u8>>,
    pub tags: Vec<Id>,
    pub tag_of: HashMap<(Id, usize), usize>,
    pub tag_by_shadow: HashMap<Fp, Vec<usize>>,
    pub frac: HashMap<Id, Frac>,
    /// polynomials shown to be identically zero
    pub zeros: std::collections::HashSet<Id>,
    /// large queries that timed out on this path
    pub factored_failures: u32,
    pub rand_ctr: u64,
    pub stats: Stats,
    pub solver: Option<smt::Solver>,
    pub path: engine::PathState,
}

/// num / product of den factors
#[derive(Clone, Debug)]
pub struct Frac {
    pub num: Id,
    pub den: BTreeMap<Id, u32>,
}

static STATE: OnceLock<Mutex<State>> = OnceLock::new();

impl State {
    fn new() -> Self {
        let mut s = State {
            nodes: vec![],
            shadow: vec![],
            latest: vec![],
            cons: HashMap::new(),
            syms: vec![],
            subst: BTreeMap::new(),
            neqs: vec![],
            oracles: HashMap::new(),
            named: HashMap::new(),
            the: HashMap::new(),
            oracle_list: vec![],
            tag_lens: Default::default(),
            oracle_bytes: HashMap::new(),
            tags: vec![],
            tag_of: HashMap::new(),
            tag_by_shadow: HashMap::new(),
            frac: HashMap::new(),
            zeros: Default::default(),
            factored_failures: 0,
            rand_ctr: 0,
            stats: Stats {
                queries: 0,
                unsat: 0,
                sat: 0,
                solver_s: 0.0,
                max_query_s: 0.0,
                asserts: 0,
                syntactic: 0,
                negligible: 0,
            },
            solver: None,
            path: engine::PathState::default(),
        };
        s.cst(BigInt::zero(), BigInt::one());
        s.cst(BigInt::one(), BigInt::one());
        s
    }

    pub fn push(&mut self, n: Node) -> Id {
        if let Some(i) = self.cons.get(&n) {
            return *i;
        }
        let (sh, lt) = self.eval_node(&n);
        let id = self.nodes.len() as Id;
        self.nodes.push(n.clone());
        self.shadow.push(sh);
        self.latest.push(lt);
        self.cons.insert(n, id);
        id
    }

    fn eval_node(&self, n: &Node) -> (Fp, u32) {
        let s = |i: &Id| self.shadow[*i as usize].clone();
        let l = |i: &Id| self.latest[*i as usize];
        match n {
            Node::Const(a, b) => (Fp::ratio(a, b), 0),
            Node::Sym(k) => match self.subst.get(k) {
                Some(e) => (s(e), l(e)),
                None => (
                    Fp::derive(&format!(
                        "{}/{}",
                        self.syms[*k as usize].name, self.path.shadow_salt
                    )),
                    k + 1,
                ),
            },
            Node::Add(a, b) => (s(a).add(&s(b)), l(a).max(l(b))),
            Node::Mul(a, b) => (s(a).mul(&s(b)), l(a).max(l(b))),
            Node::Neg(a) => (s(a).neg(), l(a)),
            Node::Inv(a) => (s(a).inv(), l(a)),
        }
    }

    /// Recompute every shadow after a substitution.  Substituted symbols depend
    /// only on nodes built over earlier symbols, but those nodes may have larger
    /// indices, so iterate in dependency order.
    pub fn refresh(&mut self) {
        let n = self.nodes.len();
        let mut done = vec![false; n];
        for root in 0..n as Id {
            let mut stack = vec![root];
            while let Some(&x) = stack.last() {
                if done[x as usize] {
                    stack.pop();
                    continue;
                }
                let deps = self.deps(x);
                let mut ready = true;
                for d in deps {
                    if !done[d as usize] {
                        stack.push(d);
                        ready = false;
                    }
                }
                if ready {
                    let node = self.nodes[x as usize].clone();
                    let (sh, lt) = self.eval_node(&node);
                    self.shadow[x as usize] = sh;
                    self.latest[x as usize] = lt;
                    done[x as usize] = true;
                    stack.pop();
                }
            }
        }
        self.frac.clear();
        self.tag_by_shadow.clear();
        for (i, t) in self.tags.clone().iter().enumerate() {
            let sh = self.shadow[*t as usize].clone();
            self.tag_by_shadow.entry(sh).or_default().push(i);
        }
    }

    pub fn deps(&self, x: Id) -> Vec<Id> {
        match &self.nodes[x as usize] {
            Node::Const(..) => vec![],
            Node::Sym(k) => self.subst.get(k).map(|e| vec![*e]).unwrap_or_default(),
            Node::Add(a, b) | Node::Mul(a, b) => vec![*a, *b],
            Node::Neg(a) | Node::Inv(a) => vec![*a],
        }
    }

    pub fn cst(&mut self, mut a: BigInt, mut b: BigInt) -> Id {
        if engine::concrete() {
            a = BigInt::from(Fp::ratio(&a, &b).0);
            b = BigInt::one();
        }
        let g = a.gcd(&b);
        if !g.is_one() && !g.is_zero() {
            a /= &g;
            b /= &g;
        }
        if b.is_negative() {
            a = -a;
            b = -b;
        }
        self.push(Node::Const(a, b))
    }

    pub fn as_const(&self, i: Id) -> Option<(BigInt, BigInt)> {
        match &self.nodes[i as usize] {
            Node::Const(a, b) => Some((a.clone(), b.clone())),
            _ => None,
        }
    }

    pub fn add(&mut self, a: Id, b: Id) -> Id {
        if a == 0 {
            return b;
        }
        if b == 0 {
            return a;
        }
        if let (Some((an, ad)), Some((bn, bd))) = (self.as_const(a), self.as_const(b)) {
            return self.cst(&an * &bd + &bn * &ad, ad * bd);
        }
        if self.nodes[a as usize] == Node::Neg(b) || self.nodes[b as usize] == Node::Neg(a) {
            return 0;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.push(Node::Add(a, b))
    }

    pub fn neg(&mut self, a: Id) -> Id {
        if let Some((n, d)) = self.as_const(a) {
            return self.cst(-n, d);
        }
        if let Node::Neg(b) = self.nodes[a as usize] {
            return b;
        }
        self.push(Node::Neg(a))
    }

    pub fn mul(&mut self, a: Id, b: Id) -> Id {
        if a == 0 || b == 0 {
            return 0;
        }
        if a == 1 {
            return b;
        }
        if b == 1 {
            return a;
        }
        if let (Some((an, ad)), Some((bn, bd))) = (self.as_const(a), self.as_const(b)) {
            return self.cst(an * bn, ad * bd);
        }
        if self.nodes[a as usize] == Node::Inv(b) || self.nodes[b as usize] == Node::Inv(a) {
            return 1;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.push(Node::Mul(a, b))
    }

    /// Raw inverse; the caller has already ruled out zero.
    pub fn inv(&mut self, a: Id) -> Id {
        if let Some((n, d)) = self.as_const(a) {
            if n.is_zero() {
                return 0;
            }
            return self.cst(d, n);
        }
        if let Node::Inv(b) = self.nodes[a as usize] {
            return b;
        }
        self.push(Node::Inv(a))
    }

    pub fn new_sym(&mut self, name: &str, kind: Kind) -> Id {
        let k = self.syms.len() as u32;
        self.syms.push(SymInfo {
            name: name.to_string(),
            kind,
            node: 0,
        });
        let id = self.push(Node::Sym(k));
        self.syms[k as usize].node = id;
        id
    }

    /// Numerator / denominator form of a node (substitution applied).
    pub fn frac(&mut self, root: Id) -> Frac {
        let mut stack = vec![root];
        while let Some(&x) = stack.last() {
            if self.frac.contains_key(&x) {
                stack.pop();
                continue;
            }
            let mut ready = true;
            for d in self.deps(x) {
                if !self.frac.contains_key(&d) {
                    stack.push(d);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            stack.pop();
            let node = self.nodes[x as usize].clone();
            let f = match node {
                Node::Const(..) => Frac {
                    num: x,
                    den: BTreeMap::new(),
                },
                Node::Sym(k) => match self.subst.get(&k) {
                    Some(e) => self.frac[e].clone(),
                    None => Frac {
                        num: x,
                        den: BTreeMap::new(),
                    },
                },
                Node::Neg(a) => {
                    let f = self.frac[&a].clone();
                    Frac {
                        num: self.neg(f.num),
                        den: f.den,
                    }
                }
                Node::Mul(a, b) => {
                    let (fa, fb) = (self.frac[&a].clone(), self.frac[&b].clone());
                    let mut den = fa.den.clone();
                    for (k, v) in &fb.den {
                        *den.entry(*k).or_insert(0) += v;
                    }
                    // cancel factors of the numerators against the denominator
                    let mut nums = vec![];
                    for n in [fa.num, fb.num] {
                        self.factors(n, &mut nums);
                    }
                    let mut kept = vec![];
                    for n in nums {
                        match den.get_mut(&n) {
                            Some(e) if *e > 0 => {
                                *e -= 1;
                                if *e == 0 {
                                    den.remove(&n);
                                }
                            }
                            _ => kept.push(n),
                        }
                    }
                    kept.sort_unstable();
                    let mut num = 1;
                    for n in kept {
                        num = self.mul(num, n);
                    }
                    Frac { num, den }
                }
                Node::Add(a, b) => {
                    let (fa, fb) = (self.frac[&a].clone(), self.frac[&b].clone());
                    if fa.den == fb.den {
                        Frac {
                            num: self.add(fa.num, fb.num),
                            den: fa.den,
                        }
                    } else {
                        let mut lcm = fa.den.clone();
                        for (k, v) in &fb.den {
                            let e = lcm.entry(*k).or_insert(0);
                            *e = (*e).max(*v);
                        }
                        let mut na = fa.num;
                        let mut nb = fb.num;
                        for (k, v) in &lcm {
                            for _ in 0..(v - fa.den.get(k).unwrap_or(&0)) {
                                na = self.mul(na, *k);
                            }
                            for _ in 0..(v - fb.den.get(k).unwrap_or(&0)) {
                                nb = self.mul(nb, *k);
                            }
                        }
                        Frac {
                            num: self.add(na, nb),
                            den: lcm,
                        }
                    }
                }
                Node::Inv(a) => {
                    let f = self.frac[&a].clone();
                    let mut num = 1;
                    for (k, v) in &f.den {
                        for _ in 0..*v {
                            num = self.mul(num, *k);
                        }
                    }
                    let mut facs = vec![];
                    self.factors(f.num, &mut facs);
                    let mut den = BTreeMap::new();
                    for x in facs {
                        if let Some((n, d)) = self.as_const(x) {
                            if n.is_zero() {
                                num = 0;
                            } else {
                                let c = self.cst(d, n);
                                num = self.mul(num, c);
                            }
                        } else {
                            *den.entry(x).or_insert(0) += 1;
                        }
                    }
                    Frac { num, den }
                }
            };
            self.frac.insert(x, f);
        }
        self.frac[&root].clone()
    }

    pub fn factors(&mut self, n: Id, out: &mut Vec<Id>) {
        match self.nodes[n as usize].clone() {
            Node::Mul(a, b) => {
                self.factors(a, out);
                self.factors(b, out);
            }
            Node::Neg(a) => {
                let m1 = self.cst(BigInt::from(-1), BigInt::one());
                out.push(m1);
                self.factors(a, out);
            }
            Node::Const(a, _) if a.is_one() && n == 1 => {}
            _ => out.push(n),
        }
    }

    /// Rebuild `e` with symbol nodes replaced.
    pub fn substitute(&mut self, root: Id, map: &HashMap<Id, Id>) -> Id {
        let mut memo: HashMap<Id, Id> = map.clone();
        let mut stack = vec![root];
        while let Some(&x) = stack.last() {
            if memo.contains_key(&x) {
                stack.pop();
                continue;
            }
            let deps: Vec<Id> = match &self.nodes[x as usize] {
                Node::Add(a, b) | Node::Mul(a, b) => vec![*a, *b],
                Node::Neg(a) | Node::Inv(a) => vec![*a],
                Node::Sym(k) => self.subst.get(k).map(|e| vec![*e]).unwrap_or_default(),
                _ => vec![],
            };
            let mut ready = true;
            for d in &deps {
                if !memo.contains_key(d) {
                    stack.push(*d);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            stack.pop();
            let r = match self.nodes[x as usize].clone() {
                Node::Add(a, b) => {
                    let (a, b) = (memo[&a], memo[&b]);
                    self.add(a, b)
                }
                Node::Mul(a, b) => {
                    let (a, b) = (memo[&a], memo[&b]);
                    self.mul(a, b)
                }
                Node::Neg(a) => {
                    let a = memo[&a];
                    self.neg(a)
                }
                Node::Inv(a) => {
                    let a = memo[&a];
                    self.inv(a)
                }
                Node::Sym(k) => match self.subst.get(&k) {
                    Some(e) => memo[e],
                    None => x,
                },
                Node::Const(..) => x,
            };
            memo.insert(x, r);
        }
        memo[&root]
    }
}

pub fn lock() -> MutexGuard<'static, State> {
    let m = STATE.get_or_init(|| Mutex::new(State::new()));
    match m.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}

// ---------------------------------------------------------------- public ops

pub const ZERO: Id = 0;
pub const ONE: Id = 1;

pub fn add(a: Id, b: Id) -> Id {
    lock().add(a, b)
}
pub fn neg(a: Id) -> Id {
    lock().neg(a)
}
pub fn sub(a: Id, b: Id) -> Id {
    let mut s = lock();
    if a == b {
        return 0;
    }
    let n = s.neg(b);
    s.add(a, n)
}
pub fn mul(a: Id, b: Id) -> Id {
    lock().mul(a, b)
}
/// Inverse with the convention 0^-1 = 0 (forks on zero).
pub fn inv(a: Id) -> Id {
    if is_zero(a) {
        return 0;
    }
    lock().inv(a)
}
pub fn pow(a: Id, mut e: u64) -> Id {
    let mut r = 1;
    let mut b = a;
    while e > 0 {
        if e & 1 == 1 {
            r = mul(r, b);
        }
        e >>= 1;
        if e > 0 {
            b = mul(b, b);
        }
    }
    r
}
pub fn int(v: i64) -> Id {
    lock().cst(BigInt::from(v), BigInt::one())
}
pub fn big(v: BigInt) -> Id {
    lock().cst(v, BigInt::one())
}
/// The constant with these big-endian bytes.
pub fn big_be(b: &[u8]) -> Id {
    big(BigInt::from_bytes_be(num_bigint::Sign::Plus, b))
}
/// An arbitrary value.  A name that is used again stands for another value.
pub fn free(name: &str) -> Id {
    let n = {
        let mut s = lock();
        let c = s.named.entry(name.to_string()).or_insert(0);
        *c += 1;
        if *c == 1 {
            name.to_string()
        } else {
            format!("{}#{}", name, c)
        }
    };
    make_free(&n)
}
fn make_free(name: &str) -> Id {
    if engine::concrete() {
        return big(engine::witness(name).0.into());
    }
    lock().new_sym(name, Kind::Free)
}
/// The arbitrary value of this name.
pub fn the(name: &str) -> Id {
    let n = format!("the {}", name);
    let mut s = lock();
    if let Some(i) = s.the.get(&n) {
        return *i;
    }
    drop(s);
    let i = make_free(&n);
    s = lock();
    s.the.insert(n, i);
    i
}
/// A value from the random number generator.
pub fn random(what: &str) -> Id {
    let mut s = lock();
    s.rand_ctr += 1;
    let name = format!("rand{}.{}", s.rand_ctr, what);
    if engine::concrete() {
        return s.cst(Fp::derive(&name).0.into(), BigInt::one());
    }
    s.new_sym(&name, Kind::Rand)
}
/// The expressions with the random values they mention replaced by values of the
/// caller's choice; the random values replaced.
pub fn chosen_randomness(exprs: &[Id], name: &str) -> (Vec<Id>, Vec<Id>) {
    let mut rands = vec![];
    {
        let s = lock();
        let (mut todo, mut seen) = (exprs.to_vec(), std::collections::HashSet::new());
        while let Some(x) = todo.pop() {
            if !seen.insert(x) {
                continue;
            }
            if let Node::Sym(k) = s.nodes[x as usize] {
                if let Kind::Rand = s.syms[k as usize].kind {
                    rands.push(x);
                }
            }
            todo.extend(s.deps(x));
        }
    }
    rands.sort();
    let map: HashMap<Id, Id> = rands.iter().map(|r| (*r, free(name))).collect();
    let mut s = lock();
    (exprs.iter().map(|x| s.substitute(*x, &map)).collect(), rands)
}
/// Random-oracle output keyed by the exact input bytes.
pub fn oracle(domain: &str, content: &[u8]) -> Id {
    oracle_named(domain, content, true)
}
/// The same, with a name that does not depend on the input (for inputs that come
/// from the system's random number generator and differ from run to run).
pub fn oracle_unkeyed(domain: &str, content: &[u8]) -> Id {
    oracle_named(domain, content, false)
}
fn oracle_named(domain: &str, content: &[u8], keyed: bool) -> Id {
    let content = normalise_tags(content);
    let mut s = lock();
    let key = (domain.to_string(), content);
    if let Some(i) = s.oracles.get(&key) {
        return *i;
    }
    if !engine::concrete() {
        drop(s);
        if let Some(id) = same_input(domain, &key.1) {
            lock().oracles.insert(key, id);
            return id;
        }
        s = lock();
        s.oracle_list.push(key.clone());
    }
    let n = s.oracles.len();
    if engine::concrete() {
        let v = Fp::derive(&format!("{}{:?}", domain, key.1));
        return s.cst(v.0.into(), BigInt::one());
    }
    let name = if keyed {
        format!("H{}.{}.{:016x}", n, domain, field::fnv(&key.1))
    } else {
        format!("H{}.{}", n, domain)
    };
    let id = s.new_sym(&name, Kind::Oracle);
    s.oracles.insert(key, id);
    id
}

/// An earlier input of the same form whose values turn out to be equal to this one's.
/// (Equal inputs have equal outputs; whether they are equal is decided, on both sides.)
fn same_input(domain: &str, content: &[u8]) -> Option<Id> {
    let earlier: Vec<(Vec<u8>, Id)> = {
        let s = lock();
        s.oracle_list
            .iter()
            .filter(|k| k.0 == domain && k.1.len() == content.len())
            .map(|k| (k.1.clone(), s.oracles[k]))
            .collect()
    };
    if earlier.is_empty() {
        return None;
    }
    let tags = find_tags(content);
    'next: for (old, out) in earlier {
        // everything but the values is the same
        let mut at = 0;
        let mut pairs = vec![];
        for (start, len, ty) in tags.iter().cloned() {
            let end = start + len;
            if old[at..end - 4] != content[at..end - 4] {
                continue 'next;
            }
            match (from_tag(&content[start..end], ty), from_tag(&old[start..end], ty)) {
                (Some(a), Some(b)) => {
                    if a != b {
                        pairs.push((a, b));
                    }
                }
                _ => continue 'next,
            }
            at = end;
        }
        if old[at..] != content[at..] {
            continue 'next;
        }
        let ds: Vec<Id> = pairs.iter().map(|(a, b)| sub(*a, *b)).collect();
        if ds.iter().any(|d| engine::surely_nonzero(*d)) {
            continue 'next;
        }
        for d in ds {
            if !engine::decide_zero(d) {
                continue 'next;
            }
        }
        return Some(out);
    }
    None
}
/// start, length and type of every value in a byte string
fn find_tags(b: &[u8]) -> Vec<(usize, usize, u8)> {
    let lens = lock().tag_lens.clone();
    let mut out: Vec<(usize, usize, u8)> = vec![];
    let mut i = 1;
    while i + 7 <= b.len() {
        if b[i..i + 6] == MAGIC {
            let (start, ty) = (i - 1, b[i + 6]);
            let hit = lens.iter().find(|l| {
                l.0 == ty && start + l.1 <= b.len() && from_tag(&b[start..start + l.1], ty).is_some()
            });
            if let Some(l) = hit {
                out.push((start, l.1, ty));
                i = start + l.1 + 1;
                continue;
            }
        }
        i += 1;
    }
    out
}

pub fn is_const(a: Id) -> Option<(BigInt, BigInt)> {
    lock().as_const(a)
}

pub fn is_zero(a: Id) -> bool {
    engine::decide_zero(a)
}
pub fn eq(a: Id, b: Id) -> bool {
    if a == b {
        return true;
    }
    let d = sub(a, b);
    engine::decide_zero(d)
}

// ----------------------------------------------------------------- byte tags

const MAGIC: [u8; 6] = [0x9e, b'S', b'Y', b'M', 0xe7, 0x01];

fn tag_index(id: Id, ty: u8) -> usize {
    {
        let s = lock();
        if let Some(t) = s.tag_of.get(&(id, 0)) {
            return *t;
        }
    }
    let _ = ty;
    // an equal expression serialised before gets the same bytes
    let cands: Vec<usize> = {
        let s = lock();
        let sh = s.shadow[id as usize].clone();
        s.tag_by_shadow.get(&sh).cloned().unwrap_or_default()
    };
    for c in cands {
        let other = lock().tags[c];
        if other == id || engine::identical(other, id) {
            lock().tag_of.insert((id, 0), c);
            return c;
        }
    }
    let mut s = lock();
    let t = s.tags.len();
    s.tags.push(id);
    s.tag_of.insert((id, 0), t);
    let sh = s.shadow[id as usize].clone();
    s.tag_by_shadow.entry(sh).or_default().push(t);
    t
}

/// Bytes standing for the serialisation of value `id` of type `ty`; equal
/// values give equal bytes, and the first byte is chosen by the caller so that
/// format flags / canonical-range checks see a plausible encoding.
pub fn to_tag(id: Id, ty: u8, first: u8, len: usize) -> Vec<u8> {
    assert!(len >= 16);
    let t = tag_index(id, ty);
    lock().tag_lens.insert((ty, len));
    let mut v = vec![0u8; len];
    v[0] = first;
    v[1..7].copy_from_slice(&MAGIC);
    v[7] = ty;
    filler(&mut v[8..len - 4], ty, len);
    // the value is identified by the last bytes only, so that code which uses
    // just the beginning of an encoding is seen to ignore the value
    v[len - 4..].copy_from_slice(&(t as u32).to_be_bytes());
    v
}
fn filler(out: &mut [u8], ty: u8, len: usize) {
    let mut x = ((ty as u64) << 40) ^ len as u64;
    for b in out.iter_mut() {
        x = x
            .wrapping_mul(6364136223846793005)
            .wrapping_add(1442695040888963407);
        *b = (x >> 33) as u8;
    }
}

pub fn from_tag(bytes: &[u8], ty: u8) -> Option<Id> {
    if bytes.len() < 16 || bytes[1..7] != MAGIC || bytes[7] != ty {
        return None;
    }
    let n = bytes.len();
    let mut f = vec![0u8; n - 12];
    filler(&mut f, ty, n);
    if f[..] != bytes[8..n - 4] {
        return None;
    }
    let mut t = [0u8; 4];
    t.copy_from_slice(&bytes[n - 4..]);
    let t = u32::from_be_bytes(t) as usize;
    let id = {
        let s = lock();
        *s.tags.get(t)?
    };
    Some(id)
}

/// Tags whose expressions became equal under the path condition are rewritten
/// to the same bytes before hashing.
fn normalise_tags(content: &[u8]) -> Vec<u8> {
    content.to_vec()
}

// ------------------------------------------------------------ scalar encoding

/// Big-endian bytes of a scalar: constants keep their real encoding.
pub fn scalar_to_bytes(id: Id, ty: u8, len: usize) -> Vec<u8> {
    if let Some((n, d)) = is_const(id) {
        let v = Fp::ratio(&n, &d).to_bytes_be();
        let mut out = vec![0u8; len];
        let k = v.len().min(len);
        out[len - k..].copy_from_slice(&v[v.len() - k..]);
        return out;
    }
    to_tag(id, ty, 0x00, len)
}

/// Inverse of the above; small numbers (positive or negative mod p) are
/// constants, any other byte string is an independent oracle output.
pub fn scalar_from_bytes(bytes: &[u8], ty: u8) -> Id {
    if let Some(i) = from_tag(bytes, ty) {
        return i;
    }
    match small_const(bytes) {
        Some(v) => big(v),
        None => oracle("bytes", bytes),
    }
}

pub fn small_const(bytes: &[u8]) -> Option<BigInt> {
    let v = BigInt::from_bytes_be(num_bigint::Sign::Plus, bytes);
    let lim = BigInt::one() << 80;
    if v < lim {
        return Some(v);
    }
    let p = BigInt::from(field::modulus());
    let m = &v % &p;
    if m < lim {
        return Some(m);
    }
    let d = &p - &m;
    if d < lim {
        return Some(-d);
    }
    None
}

/// the expression of a node, for diagnosis
pub fn show(root: Id) -> String {
    fn go(s: &State, i: Id, d: usize) -> String {
        match &s.nodes[i as usize] {
            Node::Const(a, b) => {
                let t = a.to_string();
                let t = if t.len() > 24 { format!("{}..{}", &t[..8], &t[t.len() - 4..]) } else { t };
                if b.is_one() { t } else { format!("{}/{}", t, b.to_string().len()) }
            }
            Node::Sym(n) => format!("{}#{}", s.syms[*n as usize].name, n),
            _ if d == 0 => format!("@{}", i),
            Node::Add(a, b) => format!("({} + {})", go(s, *a, d - 1), go(s, *b, d - 1)),
            Node::Mul(a, b) => format!("{}*{}", go(s, *a, d - 1), go(s, *b, d - 1)),
            Node::Neg(a) => format!("-{}", go(s, *a, d - 1)),
            Node::Inv(a) => format!("inv({})", go(s, *a, d - 1)),
        }
    }
    go(&lock(), root, 30)
}
