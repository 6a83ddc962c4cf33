//! SMT back end: queries are sent as SMT-LIB2 text to a z3 process.
use crate::{Id, Node, State};
use num_traits::{One, Signed};
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::CommandExt;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

pub struct Solver {
    _child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Answer {
    Unsat,
    Sat,
    Unknown,
}

/// `Expand`: multiply the polynomial out first (small ones); `Factored`: keep
/// its structure, within a time limit (large products of sums).
#[derive(Clone, Copy, Debug)]
pub enum How {
    Expand,
    Factored(u64),
}

pub fn timeout_ms() -> u64 {
    std::env::var("SYM_SOLVER_MS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(30_000)
}

impl Solver {
    fn start() -> Solver {
        let bin = std::env::var("SYM_SOLVER").unwrap_or_else(|_| "z3-new".into());
        let mut cmd = Command::new(&bin);
        cmd.args(&["-in", "-smt2", "-memory:6000"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null());
        // the solver ends with the path that asks it
        unsafe {
            cmd.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        let mut child = cmd
            .spawn()
            .expect("cannot start the SMT solver");
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        let mut s = Solver {
            _child: child,
            inp,
            out,
        };
        s.send(&format!(
            "(set-option :timeout {})\n(set-logic QF_NRA)\n",
            timeout_ms()
        ));
        s
    }
    fn send(&mut self, t: &str) {
        self.inp.write_all(t.as_bytes()).expect("solver died");
        self.inp.flush().expect("solver died");
    }
    fn answer(&mut self) -> Answer {
        loop {
            let mut l = String::new();
            if self.out.read_line(&mut l).unwrap_or(0) == 0 {
                return Answer::Unknown;
            }
            match l.trim() {
                "unsat" => return Answer::Unsat,
                "sat" => return Answer::Sat,
                "" => continue,
                _ => return Answer::Unknown,
            }
        }
    }
}

fn num(a: &num_bigint::BigInt) -> String {
    if a.is_negative() {
        format!("(- {})", -a)
    } else {
        format!("{}", a)
    }
}

/// SMT-LIB definitions for the polynomial `root` (no Inv nodes, no substituted
/// symbols: the output of `State::frac`).  Returns (text, name of root).
pub fn emit(st: &State, roots: &[Id]) -> (String, Vec<String>) {
    let mut out = String::new();
    let mut name: HashMap<Id, String> = HashMap::new();
    let mut stack: Vec<Id> = roots.to_vec();
    while let Some(&x) = stack.last() {
        if name.contains_key(&x) {
            stack.pop();
            continue;
        }
        let deps: Vec<Id> = match &st.nodes[x as usize] {
            Node::Add(a, b) | Node::Mul(a, b) => vec![*a, *b],
            Node::Neg(a) => vec![*a],
            Node::Inv(_) => panic!("inverse in polynomial"),
            _ => vec![],
        };
        let mut ready = true;
        for d in &deps {
            if !name.contains_key(d) {
                stack.push(*d);
                ready = false;
            }
        }
        if !ready {
            continue;
        }
        stack.pop();
        let nm = match &st.nodes[x as usize] {
            Node::Const(a, b) => {
                if b.is_one() {
                    format!("{}", num(a))
                } else {
                    format!("(/ {} {})", num(a), b)
                }
            }
            Node::Sym(k) => {
                let n = format!("|{}|", st.syms[*k as usize].name);
                out.push_str(&format!("(declare-const {} Real)\n", n));
                n
            }
            Node::Add(a, b) => {
                out.push_str(&format!(
                    "(define-fun e{} () Real (+ {} {}))\n",
                    x, name[a], name[b]
                ));
                format!("e{}", x)
            }
            Node::Mul(a, b) => {
                out.push_str(&format!(
                    "(define-fun e{} () Real (* {} {}))\n",
                    x, name[a], name[b]
                ));
                format!("e{}", x)
            }
            Node::Neg(a) => {
                out.push_str(&format!(
                    "(define-fun e{} () Real (- {}))\n",
                    x, name[a]
                ));
                format!("e{}", x)
            }
            Node::Inv(_) => unreachable!(),
        };
        name.insert(x, nm);
    }
    let rs = roots.iter().map(|r| name[r].clone()).collect();
    (out, rs)
}

/// Is there an assignment with poly != 0?  Unsat means poly is identically 0.
pub fn query_nonzero(st: &mut State, poly: Id, how: How) -> Answer {
    let check = match how {
        How::Expand => format!("(check-sat-using (try-for (then (using-params simplify :som true :som_blowup 100000000) qfnra-nlsat) {}))", timeout_ms()),
        How::Factored(ms) => format!("(check-sat-using (try-for smt {}))", ms),
    };
    if poly == 0 {
        st.stats.syntactic += 1;
        return Answer::Unsat;
    }
    let (defs, r) = emit(st, &[poly]);
    let text = format!(
        "(push 1)\n{}(assert (not (= {} 0)))\n{}\n",
        defs, r[0], check
    );
    if let Ok(dir) = std::env::var("SYM_DUMP") {
        let _ = std::fs::write(
            format!(
                "{}/q{}_{}.smt2",
                dir,
                std::process::id(),
                st.stats.queries
            ),
            format!("(set-logic QF_NRA)\n{}", text),
        );
    }
    if st.solver.is_none() {
        st.solver = Some(Solver::start());
    }
    let t = Instant::now();
    let s = st.solver.as_mut().unwrap();
    s.send(&text);
    let a = s.answer();
    s.send("(pop 1)\n");
    let dt = t.elapsed().as_secs_f64();
    st.stats.queries += 1;
    st.stats.solver_s += dt;
    if dt > st.stats.max_query_s {
        st.stats.max_query_s = dt;
    }
    match a {
        Answer::Unsat => st.stats.unsat += 1,
        Answer::Sat => st.stats.sat += 1,
        Answer::Unknown => {}
    }
    a
}
