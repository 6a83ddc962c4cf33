//! Path exploration: every path runs in a forked child process; forks of the
//! control flow are explored depth first by re-execution.
use crate::field::Fp;
use crate::smt::{query_nonzero, Answer, How};
use crate::{lock, Id, Kind, Node, State};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{Read, Write};
use std::os::unix::io::FromRawFd;
use std::sync::atomic::{AtomicBool, Ordering};

#[derive(Default)]
pub struct PathState {
    pub prefix: Vec<u32>,
    pub taken: Vec<(u32, u32)>,
    pub hyps: Vec<String>,
    pub chooses: Vec<u32>,
    pub reached: BTreeSet<String>,
    pub notes: Vec<String>,
    pub out_fd: i32,
    pub shadow_salt: u64,
    pub no_fork: u32,
    pub skipped_nonlinear: u64,
    pub samples: Vec<String>,
    pub negligible_allowed: bool,
}

static CONCRETE: AtomicBool = AtomicBool::new(false);
pub fn concrete() -> bool {
    CONCRETE.load(Ordering::Relaxed)
}
pub fn set_concrete() {
    CONCRETE.store(true, Ordering::Relaxed)
}

static WITNESS: std::sync::OnceLock<(HashMap<String, String>, Vec<u32>)> =
    std::sync::OnceLock::new();

/// Counterexample file: lines "choose N" and "value NAME HEX".
fn witness_file() -> &'static (HashMap<String, String>, Vec<u32>) {
    WITNESS.get_or_init(|| {
        let mut m = HashMap::new();
        let mut c = vec![];
        let p = std::env::var("SYM_WITNESS").unwrap_or_default();
        for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
            let w: Vec<&str> = l.splitn(3, ' ').collect();
            match w[0] {
                "choose" => c.push(w[1].parse().unwrap()),
                "value" => {
                    m.insert(w[2].to_string(), w[1].to_string());
                }
                _ => {}
            }
        }
        (m, c)
    })
}

/// Concrete value of a free symbol in a replay.
pub fn witness(name: &str) -> Fp {
    match witness_file().0.get(name) {
        Some(h) => Fp(num_bigint::BigUint::parse_bytes(h.as_bytes(), 16).unwrap()),
        None => Fp::derive(&format!("{}/0", name)),
    }
}

// ------------------------------------------------------------------ decisions

fn fork(n: u32) -> u32 {
    let mut st = lock();
    let i = st.path.taken.len();
    let c = st.path.prefix.get(i).cloned().unwrap_or(0);
    if c >= n {
        drop(st);
        finish("inconclusive", "non-deterministic re-execution (fork arity changed)", None);
    }
    st.path.taken.push((c, n));
    c
}

/// Explicit case split requested by a harness: returns 0..n on separate paths.
pub fn choose(what: &str, n: u32) -> u32 {
    if concrete() {
        static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let i = NEXT.fetch_add(1, Ordering::SeqCst);
        return witness_file().1.get(i).cloned().unwrap_or(0);
    }
    let c = fork(n);
    lock().path.chooses.push(c);
    lock().path.hyps.push(format!("{}={}", what, c));
    c
}

/// Run without forking on generic (not forced) equalities: the equality is
/// taken to be false and recorded.
pub fn no_fork<T>(f: impl FnOnce() -> T) -> T {
    lock().path.no_fork += 1;
    let r = f();
    lock().path.no_fork -= 1;
    r
}

/// Are the two expressions equal for every value (under the path condition)?
pub fn identical(a: Id, b: Id) -> bool {
    let mut st = lock();
    let nb = st.neg(b);
    let d = st.add(a, nb);
    zero_identity(&mut st, d) == Answer::Unsat
}

fn zero_identity(st: &mut State, d: Id) -> Answer {
    if !st.shadow[d as usize].is_zero() {
        return Answer::Sat;
    }
    let f = st.frac(d);
    nonzero_split(st, f.num)
}

/// Upper bound on the number of monomials of the expanded polynomial.
fn monomials(st: &State, root: Id) -> f64 {
    let mut memo: HashMap<Id, f64> = HashMap::new();
    let mut stack = vec![root];
    while let Some(&x) = stack.last() {
        if memo.contains_key(&x) {
            stack.pop();
            continue;
        }
        let deps = st.deps(x);
        let mut ready = true;
        for d in deps {
            if !memo.contains_key(&d) {
                stack.push(d);
                ready = false;
            }
        }
        if !ready {
            continue;
        }
        stack.pop();
        let v = match &st.nodes[x as usize] {
            Node::Add(a, b) => memo[a] + memo[b],
            Node::Mul(a, b) => memo[a] * memo[b],
            Node::Neg(a) | Node::Inv(a) => memo[a],
            Node::Sym(k) => match st.subst.get(k) {
                Some(e) => memo[e],
                None => 1.0,
            },
            Node::Const(..) => 1.0,
        };
        memo.insert(x, v);
    }
    memo[&root]
}

/// Degree bounds of the polynomial in every symbol it mentions.
fn degrees(st: &State, root: Id) -> Vec<(u32, u32)> {
    let syms = symbols(st, root);
    let mut order = vec![];
    let mut seen = BTreeSet::new();
    let mut stack = vec![(root, false)];
    while let Some((x, done)) = stack.pop() {
        if done {
            order.push(x);
            continue;
        }
        if !seen.insert(x) {
            continue;
        }
        stack.push((x, true));
        for d in st.deps(x) {
            stack.push((d, false));
        }
    }
    let mut out = vec![];
    let mut deg: HashMap<Id, u32> = HashMap::new();
    for k in syms {
        deg.clear();
        for x in &order {
            let v = match &st.nodes[*x as usize] {
                Node::Add(a, b) => deg[a].max(deg[b]),
                Node::Mul(a, b) => deg[a].saturating_add(deg[b]),
                Node::Neg(a) | Node::Inv(a) => deg[a],
                Node::Sym(j) if *j == k => 1,
                Node::Sym(j) => st.subst.get(j).map(|e| deg[e]).unwrap_or(0),
                Node::Const(..) => 0,
            };
            deg.insert(*x, v);
        }
        out.push((k, deg[&root]));
    }
    out
}

/// Polynomials with at most this many monomials are multiplied out by the solver.
const EXPAND_UP_TO: f64 = 20000.0;

/// Is there an assignment with poly != 0?  A polynomial too large for one query
/// is split by the powers of a symbol: it is identically zero exactly if every
/// coefficient is, and each coefficient is a query of its own.
fn nonzero_split(st: &mut State, poly: Id) -> Answer {
    if poly == 0 || st.zeros.contains(&poly) {
        st.stats.syntactic += 1;
        return Answer::Unsat;
    }
    if !st.shadow[poly as usize].is_zero() {
        return Answer::Sat;
    }
    let size = monomials(st, poly);
    let mut a = Answer::Unknown;
    if size <= EXPAND_UP_TO {
        a = query_nonzero(st, poly, How::Expand);
    } else if st.factored_failures < 3 {
        a = query_nonzero(st, poly, How::Factored(3000));
        if a == Answer::Unknown {
            st.factored_failures += 1;
        }
    }
    if a == Answer::Unknown {
        let best = degrees(st, poly)
            .into_iter()
            .filter(|(_, d)| *d > 0)
            .min_by_key(|(k, d)| (*d, *k));
        if let Some((k, _)) = best {
            if let Some(cs) = coefficients(st, poly, k) {
                a = Answer::Unsat;
                for c in cs {
                    a = nonzero_split(st, c);
                    if a != Answer::Unsat {
                        break;
                    }
                }
            }
        }
    }
    if a == Answer::Unsat {
        st.zeros.insert(poly);
    }
    a
}

fn eval_with(st: &State, root: Id, ov: &HashMap<Id, Fp>) -> Fp {
    let mut memo: HashMap<Id, Fp> = ov.clone();
    let mut stack = vec![root];
    while let Some(&x) = stack.last() {
        if memo.contains_key(&x) {
            stack.pop();
            continue;
        }
        let deps = st.deps(x);
        let mut ready = true;
        for d in &deps {
            if !memo.contains_key(d) {
                stack.push(*d);
                ready = false;
            }
        }
        if !ready {
            continue;
        }
        stack.pop();
        let v = match &st.nodes[x as usize] {
            Node::Add(a, b) => memo[a].add(&memo[b]),
            Node::Mul(a, b) => memo[a].mul(&memo[b]),
            Node::Neg(a) => memo[a].neg(),
            Node::Inv(a) => memo[a].inv(),
            Node::Sym(k) => match st.subst.get(k) {
                Some(e) => memo[e].clone(),
                None => st.shadow[x as usize].clone(),
            },
            Node::Const(..) => st.shadow[x as usize].clone(),
        };
        memo.insert(x, v);
    }
    memo[&root].clone()
}

/// Symbols a polynomial mentions, latest first.
fn symbols(st: &State, root: Id) -> Vec<u32> {
    let mut seen = BTreeSet::new();
    let mut vis = BTreeSet::new();
    let mut stack = vec![root];
    while let Some(x) = stack.pop() {
        if !vis.insert(x) {
            continue;
        }
        if let Node::Sym(k) = st.nodes[x as usize] {
            if !st.subst.contains_key(&k) {
                seen.insert(k);
            }
        }
        stack.extend(st.deps(x));
    }
    seen.into_iter().rev().collect()
}

/// Latest symbol the polynomial really depends on, with its expression
/// simplified so that cancelled symbols are gone.
fn latest_dep(st: &mut State, mut poly: Id) -> (Option<u32>, Id) {
    loop {
        let syms = symbols(st, poly);
        let k = match syms.first() {
            None => return (None, poly),
            Some(k) => *k,
        };
        let node = st.syms[k as usize].node;
        let mut dep = false;
        for i in 0..2 {
            let mut ov = HashMap::new();
            ov.insert(node, Fp::derive(&format!("probe{}", i)));
            if eval_with(st, poly, &ov) != st.shadow[poly as usize] {
                dep = true;
                break;
            }
        }
        if dep {
            return (Some(k), poly);
        }
        let mut m = HashMap::new();
        m.insert(node, 0);
        let p0 = st.substitute(poly, &m);
        let np = st.neg(p0);
        let d = st.add(poly, np);
        if zero_identity(st, d) != Answer::Unsat {
            return (Some(k), poly);
        }
        let f = st.frac(p0);
        poly = f.num;
    }
}

/// Coefficients of the polynomial `root` in symbol k.
fn coefficients(st: &mut State, root: Id, k: u32) -> Option<Vec<Id>> {
    let mut memo: HashMap<Id, Vec<Id>> = HashMap::new();
    let mut stack = vec![root];
    while let Some(&x) = stack.last() {
        if memo.contains_key(&x) {
            stack.pop();
            continue;
        }
        let deps = match &st.nodes[x as usize] {
            Node::Add(a, b) | Node::Mul(a, b) => vec![*a, *b],
            Node::Neg(a) => vec![*a],
            Node::Inv(_) => return None,
            _ => vec![],
        };
        let mut ready = true;
        for d in deps {
            if !memo.contains_key(&d) {
                stack.push(d);
                ready = false;
            }
        }
        if !ready {
            continue;
        }
        stack.pop();
        let v = match st.nodes[x as usize].clone() {
            Node::Sym(j) if j == k => vec![0, 1],
            Node::Add(a, b) => {
                let (a, b) = (memo[&a].clone(), memo[&b].clone());
                if a.len() == 1 && b.len() == 1 {
                    vec![x]
                } else {
                    (0..a.len().max(b.len()))
                        .map(|i| {
                            let l = a.get(i).cloned().unwrap_or(0);
                            let r = b.get(i).cloned().unwrap_or(0);
                            st.add(l, r)
                        })
                        .collect()
                }
            }
            Node::Neg(a) => {
                let a = memo[&a].clone();
                if a.len() == 1 {
                    vec![x]
                } else {
                    a.iter().map(|i| st.neg(*i)).collect()
                }
            }
            Node::Mul(a, b) => {
                let (a, b) = (memo[&a].clone(), memo[&b].clone());
                if a.len() == 1 && b.len() == 1 {
                    vec![x]
                } else {
                    let mut o = vec![0; a.len() + b.len() - 1];
                    for (i, l) in a.iter().enumerate() {
                        for (j, r) in b.iter().enumerate() {
                            let p = st.mul(*l, *r);
                            o[i + j] = st.add(o[i + j], p);
                        }
                    }
                    o
                }
            }
            _ => vec![x],
        };
        if v.len() > 40 {
            return None;
        }
        memo.insert(x, v);
    }
    memo.remove(&root)
}

/// Can the polynomial f in the late random value k vanish for every k?  The
/// coefficients that would have to be zero, or None if that is impossible.
fn can_vanish(st: &mut State, f: Id, k: u32) -> Option<Vec<Id>> {
    let cs = coefficients(st, f, k)?;
    let mut out = vec![];
    for c in cs {
        if c == 0 || (st.shadow[c as usize].is_zero() && zero_identity(st, c) == Answer::Unsat) {
            continue;
        }
        if st.as_const(c).is_some() {
            return None;
        }
        let fs = open_factors(st, c);
        let mut any = false;
        for x in fs {
            let (j, p) = latest_dep(st, x);
            if let Some(j) = j {
                if st.syms[j as usize].kind == Kind::Free || can_vanish(st, p, j).is_some() {
                    any = true;
                    break;
                }
            }
        }
        if !any {
            return None;
        }
        out.push(c);
    }
    Some(out)
}

fn known_nonzero(st: &mut State, f: Id) -> bool {
    if let Some((n, _)) = st.as_const(f) {
        return !num_traits::Zero::is_zero(&n);
    }
    let sh = st.shadow[f as usize].clone();
    for n in st.neqs.clone() {
        if n == f {
            return true;
        }
        let ns = st.shadow[n as usize].clone();
        if ns == sh || ns == sh.neg() {
            let o = if ns == sh { st.neg(n) } else { n };
            let d = st.add(f, o);
            if zero_identity(st, d) == Answer::Unsat {
                return true;
            }
        }
    }
    false
}

/// Factors of the numerator that are not already known to be nonzero.
fn open_factors(st: &mut State, d: Id) -> Vec<Id> {
    let f = st.frac(d);
    let mut fs = vec![];
    st.factors(f.num, &mut fs);
    fs.sort_unstable();
    fs.dedup();
    let mut out = vec![];
    for x in fs {
        if known_nonzero(st, x) {
            continue;
        }
        match common_factors(st, x) {
            None => out.push(x),
            Some(parts) => {
                for p in parts {
                    if !out.contains(&p) && !known_nonzero(st, p) {
                        out.push(p);
                    }
                }
            }
        }
    }
    out
}

/// a*x + a*y + ... as the factors a, x + y + ...
fn common_factors(st: &mut State, x: Id) -> Option<Vec<Id>> {
    fn flat(st: &State, x: Id, neg: bool, out: &mut Vec<(bool, Id)>) {
        if out.len() > 64 {
            return;
        }
        match st.nodes[x as usize] {
            Node::Add(a, b) => {
                flat(st, a, neg, out);
                flat(st, b, neg, out);
            }
            Node::Neg(a) => flat(st, a, !neg, out),
            _ => out.push((neg, x)),
        }
    }
    let mut terms = vec![];
    flat(st, x, false, &mut terms);
    if terms.len() < 2 || terms.len() > 64 {
        return None;
    }
    let mut parts: Vec<Vec<Id>> = vec![];
    for t in &terms {
        let mut fs = vec![];
        st.factors(t.1, &mut fs);
        parts.push(fs);
    }
    let mut common: Vec<Id> = vec![];
    for c in parts[0].clone() {
        if st.as_const(c).is_some() || !parts.iter().all(|p| p.contains(&c)) {
            continue;
        }
        for p in parts.iter_mut() {
            let i = p.iter().position(|y| *y == c).unwrap();
            p.remove(i);
        }
        common.push(c);
    }
    if common.is_empty() {
        return None;
    }
    let mut sum = 0;
    for (i, p) in parts.iter().enumerate() {
        let mut v = 1;
        for y in p {
            v = st.mul(v, *y);
        }
        if terms[i].0 {
            v = st.neg(v);
        }
        sum = st.add(sum, v);
    }
    st.factors(sum, &mut common);
    common.sort_unstable();
    common.dedup();
    Some(common)
}

/// d = 0 for at most a negligible part of the values
pub fn surely_nonzero(d: Id) -> bool {
    let mut st = lock();
    if let Some((n, _)) = st.as_const(d) {
        return !num_traits::Zero::is_zero(&n);
    }
    if st.shadow[d as usize].is_zero() {
        return false;
    }
    for f in open_factors(&mut st, d) {
        let (k, p) = latest_dep(&mut st, f);
        if let Some(k) = k {
            if st.syms[k as usize].kind == Kind::Free || can_vanish(&mut st, p, k).is_some() {
                return false;
            }
        }
    }
    true
}

pub fn decide_zero(d: Id) -> bool {
    let mut st = lock();
    if let Some((n, _)) = st.as_const(d) {
        return num_traits::Zero::is_zero(&n);
    }
    if st.shadow[d as usize].is_zero() {
        return match zero_identity(&mut st, d) {
            Answer::Unsat => true,
            a => {
                drop(st);
                finish(
                    "inconclusive",
                    &format!("solver answered {:?} on a value whose witness is zero", a),
                    None,
                )
            }
        };
    }
    let fs = open_factors(&mut st, d);
    // keep only factors that can vanish with non-negligible probability
    let mut feas = vec![];
    for f in fs {
        let (k, p) = latest_dep(&mut st, f);
        match k {
            None => {}
            Some(k) if st.syms[k as usize].kind == Kind::Free => feas.push(p),
            Some(k) => {
                if can_vanish(&mut st, p, k).is_some() {
                    feas.push(p);
                } else {
                    st.stats.negligible += 1;
                    st.neqs.push(f);
                }
            }
        }
    }
    if feas.is_empty() {
        return false;
    }
    if st.path.no_fork > 0 {
        st.neqs.extend(feas);
        return false;
    }
    drop(st);
    let c = fork(2);
    if c == 0 {
        lock().neqs.extend(feas);
        return false;
    }
    let f = if feas.len() == 1 {
        feas[0]
    } else {
        feas[fork(feas.len() as u32) as usize]
    };
    assume_zero_factor(f);
    true
}

/// Restrict the path to values with d = 0 (ends the path if impossible).
pub fn assume_zero(d: Id) {
    let mut st = lock();
    if let Some((n, _)) = st.as_const(d) {
        drop(st);
        if num_traits::Zero::is_zero(&n) {
            return;
        }
        finish("pruned", "infeasible", None);
    }
    if st.shadow[d as usize].is_zero() && zero_identity(&mut st, d) == Answer::Unsat {
        return;
    }
    let fs = open_factors(&mut st, d);
    drop(st);
    if fs.is_empty() {
        finish("pruned", "infeasible", None);
    }
    let f = if fs.len() == 1 {
        fs[0]
    } else {
        fs[fork(fs.len() as u32) as usize]
    };
    assume_zero_factor(f);
}

fn assume_zero_factor(f: Id) {
    let mut st = lock();
    let (k, f) = latest_dep(&mut st, f);
    let k = match k {
        None => {
            drop(st);
            finish("pruned", "infeasible", None)
        }
        Some(k) => k,
    };
    if st.syms[k as usize].kind != Kind::Free {
        // a value drawn after everything else: the polynomial vanishes with more
        // than negligible probability only if all its coefficients do
        match can_vanish(&mut st, f, k) {
            None => {
                st.stats.negligible += 1;
                drop(st);
                finish("pruned", "negligible", None);
            }
            Some(cs) => {
                drop(st);
                for c in cs {
                    assume_zero(c);
                }
                return;
            }
        }
    }
    let node = st.syms[k as usize].node;
    let at = |st: &mut State, v: i64| {
        let c = st.cst(v.into(), 1.into());
        let mut m = HashMap::new();
        m.insert(node, c);
        st.substitute(f, &m)
    };
    let rest = at(&mut st, 0);
    let one = at(&mut st, 1);
    let nr = st.neg(rest);
    let coef = st.add(one, nr);
    let t = st.mul(coef, node);
    let lin = st.add(rest, t);
    let nl = st.neg(lin);
    let d = st.add(f, nl);
    if zero_identity(&mut st, d) != Answer::Unsat {
        st.path.skipped_nonlinear += 1;
        drop(st);
        finish("pruned", "nonlinear", None);
    }
    drop(st);
    if decide_zero(coef) {
        assume_zero(rest);
        return;
    }
    let mut st = lock();
    let ic = st.inv(coef);
    let e = st.mul(rest, ic);
    let e = st.neg(e);
    // e mentions only symbols created before k, so this is triangular
    st.subst.insert(k, e);
    let nm = st.syms[k as usize].name.clone();
    st.path.hyps.push(format!("{} fixed by an equality", nm));
    st.refresh();
    let neqs = st.neqs.clone();
    for n in neqs {
        if st.shadow[n as usize].is_zero() && zero_identity(&mut st, n) == Answer::Unsat {
            drop(st);
            finish("pruned", "infeasible", None);
        }
    }
}

/// Restrict the path to values with d != 0.
pub fn assume_nonzero(d: Id) {
    let mut st = lock();
    if let Some((n, _)) = st.as_const(d) {
        if num_traits::Zero::is_zero(&n) {
            drop(st);
            finish("pruned", "infeasible", None);
        }
        return;
    }
    if st.shadow[d as usize].is_zero() && zero_identity(&mut st, d) == Answer::Unsat {
        drop(st);
        finish("pruned", "infeasible", None);
    }
    let fs = open_factors(&mut st, d);
    st.neqs.extend(fs);
}

// ----------------------------------------------------------------- assertions

pub fn assert_zero(d: Id, label: &str) {
    let mut st = lock();
    st.stats.asserts += 1;
    if !st.shadow[d as usize].is_zero() {
        drop(st);
        finish("violation", label, None);
    }
    match zero_identity(&mut st, d) {
        Answer::Unsat => {}
        a => {
            drop(st);
            finish("inconclusive", &format!("{}: solver {:?}", label, a), None);
        }
    }
}

/// d must differ from zero for every value allowed by the path condition.
pub fn assert_nonzero(d: Id, label: &str) {
    lock().stats.asserts += 1;
    if decide_zero(d) {
        finish("violation", label, None);
    }
}

pub fn assert_true(b: bool, label: &str) {
    lock().stats.asserts += 1;
    if !b {
        finish("violation", label, None);
    }
}

pub fn reach(label: &str) {
    lock().path.reached.insert(label.to_string());
}
pub fn sample(s: String) {
    let mut st = lock();
    if st.path.samples.len() < 8 {
        st.path.samples.push(s);
    }
}
pub fn hyps() -> Vec<String> {
    lock().path.hyps.clone()
}

/// Has any symbol been fixed by an equality on this path?
pub fn constrained() -> bool {
    !lock().subst.is_empty()
}

pub fn prune(reason: &str) -> ! {
    finish("pruned", reason, None)
}
pub fn inconclusive(reason: &str) -> ! {
    finish("inconclusive", reason, None)
}
/// Run `f`; needing more than `secs` seconds of processor time is a violation.
pub fn within<T>(secs: u64, label: &str, f: impl FnOnce() -> T) -> T {
    fn cpu() -> u64 {
        let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
        unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
        t.tv_sec as u64
    }
    let (done, over) = std::sync::mpsc::channel::<()>();
    let label = label.to_string();
    let end = cpu() + secs;
    let watch = std::thread::spawn(move || loop {
        match over.recv_timeout(std::time::Duration::from_millis(200)) {
            Err(std::sync::mpsc::RecvTimeoutError::Timeout) if cpu() < end => continue,
            Err(std::sync::mpsc::RecvTimeoutError::Timeout) => violation(&label),
            _ => return,
        }
    });
    let r = f();
    drop(done);
    let _ = watch.join();
    r
}
pub fn violation(label: &str) -> ! {
    finish("violation", label, None)
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

fn finish(status: &str, label: &str, extra: Option<&str>) -> ! {
    if concrete() {
        // native replay of a counterexample
        println!("REPLAY {} {}", status, label);
        std::process::exit(match status {
            "violation" => 1,
            "ok" => 0,
            _ => 3,
        });
    }
    let st = lock();
    let mut s = String::new();
    s.push_str(&format!(
        "{{\"status\":\"{}\",\"label\":\"{}\",\"extra\":\"{}\",",
        status,
        esc(label),
        esc(extra.unwrap_or(""))
    ));
    let t: Vec<String> = st
        .path
        .taken
        .iter()
        .map(|(a, b)| format!("[{},{}]", a, b))
        .collect();
    s.push_str(&format!("\"taken\":[{}],", t.join(",")));
    s.push_str(&format!("\"chooses\":{:?},", st.path.chooses));
    let q = |v: &mut dyn Iterator<Item = String>| {
        v.map(|x| format!("\"{}\"", esc(&x)))
            .collect::<Vec<_>>()
            .join(",")
    };
    s.push_str(&format!("\"hyps\":[{}],", q(&mut st.path.hyps.iter().cloned())));
    s.push_str(&format!(
        "\"reached\":[{}],",
        q(&mut st.path.reached.iter().cloned())
    ));
    s.push_str(&format!(
        "\"samples\":[{}],",
        q(&mut st.path.samples.iter().cloned())
    ));
    s.push_str(&format!(
        "\"stats\":{{\"queries\":{},\"unsat\":{},\"sat\":{},\"solver_s\":{:.4},\"max_query_s\":{:.4},\"asserts\":{},\"syntactic\":{},\"negligible\":{},\"nonlinear\":{},\"nodes\":{},\"symbols\":{}}},",
        st.stats.queries, st.stats.unsat, st.stats.sat, st.stats.solver_s, st.stats.max_query_s,
        st.stats.asserts, st.stats.syntactic, st.stats.negligible, st.path.skipped_nonlinear,
        st.nodes.len(), st.syms.len()
    ));
    let mut w = vec![];
    for sy in st.syms.iter() {
        if sy.kind == Kind::Free {
            w.push(format!(
                "\"{}\":\"{}\"",
                esc(&sy.name),
                st.shadow[sy.node as usize].to_hex()
            ));
        }
    }
    s.push_str(&format!("\"witness\":{{{}}}}}\n", w.join(",")));
    let fd = st.path.out_fd;
    let mut b = s.as_bytes();
    while !b.is_empty() {
        let n = unsafe { libc::write(fd, b.as_ptr() as *const _, b.len()) };
        if n <= 0 {
            break;
        }
        b = &b[n as usize..];
    }
    unsafe { libc::_exit(0) }
}

// ------------------------------------------------------------------- scheduler

pub struct Case {
    pub name: String,
    pub run: Box<dyn Fn()>,
}

pub fn case(name: impl Into<String>, run: impl Fn() + 'static) -> Case {
    Case {
        name: name.into(),
        run: Box::new(run),
    }
}

struct Job {
    case: usize,
    prefix: Vec<u32>,
}

struct Running {
    job: Job,
    pid: i32,
    file: std::fs::File,
    buf: Vec<u8>,
}

fn json_list_pairs(s: &str) -> Vec<(u32, u32)> {
    // s = [[a,b],[c,d]]
    let mut out = vec![];
    let nums: Vec<u32> = s
        .split(|c: char| !c.is_ascii_digit())
        .filter(|x| !x.is_empty())
        .filter_map(|x| x.parse().ok())
        .collect();
    for p in nums.chunks(2) {
        if p.len() == 2 {
            out.push((p[0], p[1]));
        }
    }
    out
}

fn field<'a>(line: &'a str, key: &str) -> &'a str {
    let k = format!("\"{}\":", key);
    match line.find(&k) {
        None => "",
        Some(i) => {
            let r = &line[i + k.len()..];
            let mut depth = 0i32;
            let mut instr = false;
            let mut prev = ' ';
            for (j, c) in r.char_indices() {
                if instr {
                    if c == '"' && prev != '\\' {
                        instr = false;
                        if depth == 0 {
                            return &r[..=j];
                        }
                    }
                } else {
                    match c {
                        '"' => instr = true,
                        '[' | '{' => depth += 1,
                        ']' | '}' => {
                            depth -= 1;
                            if depth == 0 {
                                return &r[..=j];
                            }
                            if depth < 0 {
                                return &r[..j];
                            }
                        }
                        ',' if depth == 0 => return &r[..j],
                        _ => {}
                    }
                }
                prev = if prev == '\\' && c == '\\' { ' ' } else { c };
            }
            r
        }
    }
}

static mut PANIC_MSG: Option<String> = None;

fn child(case: &Case, prefix: &[u32], fd: i32) -> ! {
    unsafe {
        // leave no orphans behind when the parent is ended
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        let secs: u64 = std::env::var("SYM_PATH_S")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(240);
        libc::alarm(secs as u32);
    }
    {
        let mut st = lock();
        st.path.prefix = prefix.to_vec();
        st.path.out_fd = fd;
    }
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let l = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        unsafe {
            PANIC_MSG = Some(format!("{} at {}", m, l));
        }
    }));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (case.run)()));
    match r {
        Ok(()) => finish("ok", "", None),
        Err(_) => {
            #[allow(static_mut_refs)]
            let m = unsafe { PANIC_MSG.clone().unwrap_or_default() };
            let m = m.split("stack backtrace").next().unwrap_or("").chars().take(300).collect::<String>();
            finish("violation", &format!("panic: {}", m.trim()), None)
        }
    }
}

/// Explore every path of every case.  Writes one JSON line per path to `out`
/// and a final summary line.
pub fn run(cases: Vec<Case>, out_path: &str, max_paths_per_case: usize) {
    // make HashMap iteration order the same in every child
    let _ = std::collections::hash_map::RandomState::new();
    let _ = crate::field::modulus();
    let _ = Fp::derive("warm");
    let jobs: usize = std::env::var("SYM_JOBS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(8);
    let mut out = std::fs::File::create(out_path).expect("cannot write results");
    let mut work: Vec<Job> = (0..cases.len())
        .rev()
        .map(|i| Job {
            case: i,
            prefix: vec![],
        })
        .collect();
    let mut paths = vec![0usize; cases.len()];
    let mut running: Vec<Running> = vec![];
    let mut violations = 0;
    let mut bad = vec![0usize; cases.len()];
    let mut truncated = BTreeMap::new();
    while !work.is_empty() || !running.is_empty() {
        while running.len() < jobs && !work.is_empty() {
            // once something is violated: cases without violations first
            let next = if violations == 0 {
                work.len() - 1
            } else {
                (0..work.len()).rev().min_by_key(|&i| bad[work[i].case]).unwrap()
            };
            let job = work.remove(next);
            if paths[job.case] >= max_paths_per_case {
                *truncated.entry(job.case).or_insert(0) += 1;
                continue;
            }
            paths[job.case] += 1;
            let mut fds = [0i32; 2];
            unsafe {
                assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            }
            let pid = unsafe { libc::fork() };
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                unsafe {
                    libc::close(fds[0]);
                    for r in &running {
                        use std::os::unix::io::AsRawFd;
                        libc::close(r.file.as_raw_fd());
                    }
                }
                child(&cases[job.case], &job.prefix, fds[1]);
            }
            unsafe {
                libc::close(fds[1]);
            }
            running.push(Running {
                job,
                pid,
                file: unsafe { std::fs::File::from_raw_fd(fds[0]) },
                buf: vec![],
            });
        }
        let mut pf: Vec<libc::pollfd> = running
            .iter()
            .map(|r| {
                use std::os::unix::io::AsRawFd;
                libc::pollfd {
                    fd: r.file.as_raw_fd(),
                    events: libc::POLLIN,
                    revents: 0,
                }
            })
            .collect();
        unsafe {
            libc::poll(pf.as_mut_ptr(), pf.len() as _, -1);
        }
        let mut i = 0;
        let mut k = 0;
        while i < running.len() {
            let ready = pf[k].revents != 0;
            k += 1;
            if !ready {
                i += 1;
                continue;
            }
            let mut tmp = [0u8; 65536];
            let n = running[i].file.read(&mut tmp).unwrap_or(0);
            if n > 0 {
                running[i].buf.extend_from_slice(&tmp[..n]);
                i += 1;
                continue;
            }
            let r = running.remove(i);
            let mut status = 0;
            unsafe {
                libc::waitpid(r.pid, &mut status, 0);
            }
            let line = String::from_utf8_lossy(&r.buf).trim().to_string();
            let name = &cases[r.job.case].name;
            if line.is_empty() {
                let why = if libc::WIFSIGNALED(status) && libc::WTERMSIG(status) == libc::SIGALRM {
                    "path time limit".to_string()
                } else if libc::WIFSIGNALED(status) && libc::WTERMSIG(status) == libc::SIGKILL {
                    "killed".to_string()
                } else {
                    format!("died with status {:#x}", status)
                };
                // a crash (stack overflow, abort) of the code under test
                let st = if why == "path time limit" || why == "killed" {
                    "inconclusive"
                } else {
                    "crash"
                };
                let _ = writeln!(
                    out,
                    "{{\"case\":\"{}\",\"prefix\":{:?},\"path\":{{\"status\":\"{}\",\"label\":\"{}\",\"witness\":{{}},\"taken\":[],\"hyps\":[],\"reached\":[],\"samples\":[],\"stats\":{{}}}}}}",
                    esc(name), r.job.prefix, st, why
                );
                if st == "crash" {
                    violations += 1;
                    bad[r.job.case] += 1;
                }
                continue;
            }
            let taken = json_list_pairs(field(&line, "taken"));
            for j in r.job.prefix.len()..taken.len() {
                for alt in 1..taken[j].1 {
                    let mut p: Vec<u32> = taken[..j].iter().map(|t| t.0).collect();
                    p.push(alt);
                    work.push(Job {
                        case: r.job.case,
                        prefix: p,
                    });
                }
            }
            if field(&line, "status") == "\"violation\"" {
                violations += 1;
                bad[r.job.case] += 1;
            }
            let _ = writeln!(
                out,
                "{{\"case\":\"{}\",\"prefix\":{:?},\"path\":{}}}",
                esc(name),
                r.job.prefix,
                line
            );
        }
        // enough counterexamples, or enough after the first ones (they may be of
        // one kind, and not all need be replayable)
        if violations >= 80 {
            for r in &running {
                unsafe {
                    libc::kill(r.pid, libc::SIGKILL);
                    let mut s = 0;
                    libc::waitpid(r.pid, &mut s, 0);
                }
            }
            let _ = writeln!(out, "{{\"stopped\":\"violations found\"}}");
            break;
        }
    }
    let tr: Vec<String> = truncated
        .iter()
        .map(|(c, n)| format!("\"{}\":{}", esc(&cases[*c].name), n))
        .collect();
    let _ = writeln!(
        out,
        "{{\"summary\":true,\"cases\":{},\"paths\":{},\"truncated\":{{{}}}}}",
        cases.len(),
        paths.iter().sum::<usize>(),
        tr.join(",")
    );
}

/// Replay one case concretely (see `set_concrete`).
pub fn replay(cases: Vec<Case>, name: &str) -> ! {
    for c in cases {
        if c.name == name {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (c.run)()));
            match r {
                Ok(()) => finish("ok", "", None),
                Err(_) => finish("violation", "panic", None),
            }
        }
    }
    println!("REPLAY error no such case");
    std::process::exit(3)
}

/// Is `id` a free symbol no equality on this path has touched?
pub fn still_free(id: Id) -> bool {
    if concrete() {
        return true;
    }
    let st = lock();
    match st.nodes[id as usize] {
        Node::Sym(k) => !st.subst.contains_key(&k),
        _ => false,
    }
}

/// Command line of every harness:
///   run PROP quick|thorough OUT      explore, write one JSON line per path
///   replay PROP quick|thorough CASE  run one case on the values in SYM_WITNESS
pub fn main(cases: fn(&str, bool) -> Vec<Case>) {
    let a: Vec<String> = std::env::args().collect();
    let thorough = a[3] == "thorough";
    match a[1].as_str() {
        "run" => {
            let max = std::env::var("SYM_MAX_PATHS")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(if thorough { 2000 } else { 300 });
            let mut c = cases(&a[2], thorough);
            if let Ok(f) = std::env::var("SYM_CASE") {
                c.retain(|c| c.name.contains(&f));
            }
            run(c, &a[4], max)
        }
        "replay" => {
            set_concrete();
            replay(cases(&a[2], thorough), &a[4])
        }
        _ => panic!("usage"),
    }
}
