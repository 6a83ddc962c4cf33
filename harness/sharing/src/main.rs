//! Symbolic execution of ursa_sharing: its Group/Field traits are instantiated
//! with symbolic elements, so the library's own generic code runs unmodified.
use rand::{CryptoRng, RngCore};
use symcore::engine::*;
use symcore::Id;
use ursa_sharing::error::{SharingError, SharingResult};
use ursa_sharing::feldman::{FeldmanVerifier, Scheme as Feldman};
use ursa_sharing::generic_array::GenericArray;
use ursa_sharing::pedersen::{PedersenVerifier, Scheme as Pedersen};
use ursa_sharing::shamir::{Scheme as Shamir, Share};
use ursa_sharing::typenum::{U32, U48};
use ursa_sharing::{Field, Group};

use std::convert::TryFrom;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;

/// Draw "random" values as free symbols (for the secrecy properties).
static RAND_FREE: AtomicBool = AtomicBool::new(false);
/// Use the identifier itself as x coordinate.
static FIXED_X: AtomicBool = AtomicBool::new(false);
/// Identifier -> symbolic x coordinate.
static XS: Mutex<Vec<(usize, Id)>> = Mutex::new(Vec::new());

/// In a native replay of the secrecy cases: the k-th drawn value is PROBE[k].
static PROBE: Mutex<Option<(usize, Vec<i64>)>> = Mutex::new(None);

fn draw(what: &str) -> Id {
    if let Some((k, v)) = PROBE.lock().unwrap().as_mut() {
        if v.len() <= *k {
            v.push(0);
        }
        let i = *k;
        *k += 1;
        // an arbitrary base point plus the probed offset
        return symcore::int(1_000_003 * (i as i64 + 1) + v[i]);
    }
    if RAND_FREE.load(Ordering::SeqCst) && !concrete() {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        symcore::free(&format!("drawn{}.{}", N.fetch_add(1, Ordering::SeqCst), what))
    } else {
        symcore::random(what)
    }
}

/// The field element an identifier stands for: an arbitrary element, distinct
/// for distinct identifiers and nonzero.
fn x_of(k: usize) -> Id {
    let mut xs = XS.lock().unwrap();
    if let Some((_, i)) = xs.iter().find(|p| p.0 == k) {
        return *i;
    }
    if k == 0 {
        return 0;
    }
    if FIXED_X.load(Ordering::SeqCst) {
        return symcore::int(k as i64);
    }
    let i = symcore::free(&format!("x{}", k));
    assume_nonzero(i);
    for (_, o) in xs.iter() {
        assume_nonzero(symcore::sub(*o, i));
    }
    xs.push((k, i));
    i
}

fn declare_xs(n: usize) {
    if n >= 5 {
        FIXED_X.store(true, Ordering::SeqCst);
    }
    for k in 1..=n {
        x_of(k);
    }
}

#[derive(Clone, Debug)]
struct F(Id);
#[derive(Clone, Debug)]
struct G(Id);

impl Group for F {
    type Size = U32;
    fn zero() -> Self {
        F(0)
    }
    fn from_bytes<B: AsRef<[u8]>>(value: B) -> SharingResult<Self> {
        let v = value.as_ref();
        if v.len() != 32 {
            return Err(SharingError::ShareInvalidValue);
        }
        match symcore::from_tag(v, b'F') {
            Some(i) => Ok(F(i)),
            None => symcore::small_const(v)
                .map(|c| F(symcore::big(c)))
                .ok_or(SharingError::ShareInvalidValue),
        }
    }
    fn random(_: &mut (impl RngCore + CryptoRng)) -> Self {
        F(draw("f"))
    }
    fn is_zero(&self) -> bool {
        symcore::is_zero(self.0)
    }
    fn is_valid(&self) -> bool {
        !symcore::is_zero(self.0)
    }
    fn negate(&mut self) {
        self.0 = symcore::neg(self.0)
    }
    fn add_assign(&mut self, rhs: &Self) {
        self.0 = symcore::add(self.0, rhs.0)
    }
    fn sub_assign(&mut self, rhs: &Self) {
        self.0 = symcore::sub(self.0, rhs.0)
    }
    fn scalar_mul_assign(&mut self, rhs: &F) {
        self.0 = symcore::mul(self.0, rhs.0)
    }
    fn to_bytes(&self) -> GenericArray<u8, U32> {
        let v = if concrete() {
            symcore::to_tag(self.0, b'F', 0, 32)
        } else {
            symcore::scalar_to_bytes(self.0, b'F', 32)
        };
        GenericArray::clone_from_slice(&v)
    }
}

impl Field for F {
    fn one() -> Self {
        F(1)
    }
    fn from_usize(value: usize) -> Self {
        F(x_of(value))
    }
    fn scalar_div_assign(&mut self, rhs: &Self) {
        let i = symcore::inv(rhs.0);
        self.0 = symcore::mul(self.0, i)
    }
}

impl Group<F> for G {
    type Size = U48;
    fn zero() -> Self {
        G(0)
    }
    fn from_bytes<B: AsRef<[u8]>>(value: B) -> SharingResult<Self> {
        let v = value.as_ref();
        if v.len() != 48 {
            return Err(SharingError::ShareInvalidValue);
        }
        symcore::from_tag(v, b'G')
            .map(G)
            .ok_or(SharingError::ShareInvalidValue)
    }
    fn random(_: &mut (impl RngCore + CryptoRng)) -> Self {
        G(draw("g"))
    }
    fn is_zero(&self) -> bool {
        symcore::is_zero(self.0)
    }
    fn is_valid(&self) -> bool {
        !symcore::is_zero(self.0)
    }
    fn negate(&mut self) {
        self.0 = symcore::neg(self.0)
    }
    fn add_assign(&mut self, rhs: &Self) {
        self.0 = symcore::add(self.0, rhs.0)
    }
    fn sub_assign(&mut self, rhs: &Self) {
        self.0 = symcore::sub(self.0, rhs.0)
    }
    fn scalar_mul_assign(&mut self, rhs: &F) {
        self.0 = symcore::mul(self.0, rhs.0)
    }
    fn to_bytes(&self) -> GenericArray<u8, U48> {
        GenericArray::clone_from_slice(&symcore::to_tag(self.0, b'G', 0, 48))
    }
}

struct NoRng;
impl RngCore for NoRng {
    fn next_u32(&mut self) -> u32 {
        panic!("harness: raw randomness requested")
    }
    fn next_u64(&mut self) -> u64 {
        panic!("harness: raw randomness requested")
    }
    fn fill_bytes(&mut self, _: &mut [u8]) {
        panic!("harness: raw randomness requested")
    }
    fn try_fill_bytes(&mut self, _: &mut [u8]) -> Result<(), rand::Error> {
        panic!("harness: raw randomness requested")
    }
}
impl CryptoRng for NoRng {}

/// A secret the schemes accept.
fn secret() -> F {
    let s = symcore::free("secret");
    assume_nonzero(s);
    F(s)
}

fn field_of(share: &Share) -> F {
    F::from_bytes(share.value()).expect("share carries a field element")
}

fn eq_assert(a: Id, b: Id, label: &str) {
    assert_zero(symcore::sub(a, b), label)
}

/// All index subsets of 0..n with the given size.
fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    for m in 0u32..(1 << n) {
        if m.count_ones() as usize == k {
            out.push((0..n).filter(|i| m >> i & 1 == 1).collect());
        }
    }
    out
}

/// The subset in several orders: ascending, descending, rotated.
fn orders(s: &[usize]) -> Vec<Vec<usize>> {
    let mut out = vec![s.to_vec()];
    let mut r = s.to_vec();
    r.reverse();
    out.push(r);
    let mut q = s.to_vec();
    q.rotate_left(1);
    out.push(q);
    out.dedup();
    out
}

fn shapes(max_n: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for n in 2..=max_n {
        for t in 2..=n {
            v.push((t, n));
        }
    }
    v
}

// ------------------------------------------------- participants beyond a byte

/// Identifiers around the byte boundaries of their encoding.
const WIDE: [usize; 10] = [
    1,
    2,
    255,
    256,
    257,
    65_535,
    65_536,
    65_537,
    0x0100_0001,
    0xffff_ffff,
];

fn wide_s01(limit: usize) -> Vec<Case> {
    let mut cases = vec![];
    for t in 2..=3usize {
        cases.push(case(format!("wide split t={} n={}", t, limit), move || {
            FIXED_X.store(true, Ordering::SeqCst);
            let s = secret();
            let sch = Shamir::new(t, limit).unwrap();
            let shares = sch.split_secret(&mut NoRng, &s).unwrap();
            assert_true(shares.len() == limit, "one share per participant");
            for (i, sh) in shares.iter().enumerate() {
                assert_true(sh.identifier() as usize == i + 1, "identifiers run from 1 to n");
            }
            for sub in [[0usize, 256, 2], [254, 255, 256], [1, limit - 1, 257], [limit - 1, 0, 255], [43, limit - 257, limit - 1]] {
                let pick: Vec<Share> = sub[..t].iter().map(|i| shares[*i].clone()).collect();
                let r: F = sch.combine_shares::<F, F>(&pick).expect("combine accepts enough shares");
                eq_assert(r.0, s.0, "combined value equals the secret");
            }
            reach("reconstructed");
        }));
    }
    cases.push(case("wide identifiers", move || {
        FIXED_X.store(true, Ordering::SeqCst);
        let (c0, c1) = (symcore::free("c0"), symcore::free("c1"));
        let sch = Shamir::new(2, 2).unwrap();
        let shares: Vec<Share> = WIDE
            .iter()
            .map(|id| {
                let y = symcore::add(c0, symcore::mul(c1, x_of(*id)));
                assume_nonzero(y);
                Share::new(*id, F(y).to_bytes())
            })
            .collect();
        for i in 0..WIDE.len() {
            for j in 0..WIDE.len() {
                let r = sch.combine_shares::<F, F>(&[shares[i].clone(), shares[j].clone()]);
                if i == j {
                    assert_true(r.is_err(), "a repeated identifier is refused");
                } else {
                    eq_assert(r.expect("distinct identifiers combine").0, c0, "combine interpolates at zero");
                }
            }
        }
        reach("interpolated");
    }));
    cases
}

fn wide_s04(limit: usize) -> Vec<Case> {
    vec![case(format!("wide t=2 n={}", limit), move || {
        FIXED_X.store(true, Ordering::SeqCst);
        let s = secret();
        let f = Feldman::new(2, limit).unwrap();
        let (v, shares) = f.split_secret::<F, G>(&mut NoRng, &s, None).unwrap();
        let p = Pedersen::new(2, limit).unwrap();
        let r = p.split_secret::<F, G>(&mut NoRng, &s, None, None).unwrap();
        for i in [0usize, 1, 254, 255, 256, 257, limit - 1] {
            assert_true(f.verify_share::<F, G>(&shares[i], &v).is_ok(), "a dealt Feldman share verifies");
            assert_true(
                p.verify_share::<F, G>(&r.secret_shares[i], &r.blinding_shares[i], &r.verifier).is_ok(),
                "a dealt Pedersen share verifies",
            );
        }
        reach("wide");
    })]
}

fn wide_s05() -> Vec<Case> {
    vec![case("wide identifiers", move || {
        FIXED_X.store(true, Ordering::SeqCst);
        let (g, h) = (symcore::free("g"), symcore::free("h"));
        assume_nonzero(g);
        assume_nonzero(h);
        let cs: Vec<Id> = (0..3).map(|i| symcore::free(&format!("C{}", i))).collect();
        let (fv, pv) = (feldman_verifier(g, &cs), pedersen_verifier(g, h, &cs));
        let id = WIDE[choose("identifier", WIDE.len() as u32) as usize];
        let (y, b) = (symcore::free("y"), symcore::free("b"));
        assume_nonzero(y);
        assume_nonzero(b);
        let mut want = 0;
        for c in cs.iter().rev() {
            want = symcore::add(symcore::mul(want, x_of(id)), *c);
        }
        let (sy, sb) = (Share::new(id, F(y).to_bytes()), Share::new(id, F(b).to_bytes()));
        let gy = symcore::mul(g, y);
        let df = symcore::sub(gy, want);
        let dp = symcore::sub(symcore::add(gy, symcore::mul(h, b)), want);
        if choose("scheme", 2) == 0 {
            match Feldman::new(3, 3).unwrap().verify_share::<F, G>(&sy, &fv) {
                Ok(()) => assert_zero(df, "an accepted Feldman share lies on the committed polynomial"),
                Err(_) => assert_nonzero(df, "a rejected Feldman share is off the committed polynomial"),
            }
        } else {
            match Pedersen::new(3, 3).unwrap().verify_share::<F, G>(&sy, &sb, &pv) {
                Ok(()) => assert_zero(dp, "an accepted Pedersen share opens the committed polynomial"),
                Err(_) => assert_nonzero(dp, "a rejected Pedersen share does not open the commitment"),
            }
        }
        reach("wide");
    })]
}

fn wide_s06() -> Vec<Case> {
    vec![case("wide identifiers", move || {
        let y = symcore::free("y");
        for id in WIDE.iter() {
            let sh = Share::new(*id, F(y).to_bytes());
            assert_true(sh.identifier() as usize == *id, "a share keeps its identifier");
            let r = Share::try_from(&sh.to_bytes()[..]).expect("share decodes");
            assert_true(r.identifier() as usize == *id, "share identifier survives");
            assert_true(r.value() == sh.value(), "share value survives");
        }
        reach("wide");
    })]
    .into_iter()
    .chain([255usize, 256, 257, 300].iter().map(|n| {
        let n = *n;
        case(format!("{} commitments", n), move || {
            let cs: Vec<Id> = (0..n).map(|i| symcore::free(&format!("C{}", i))).collect();
            let (g, h) = (symcore::free("g"), symcore::free("h"));
            let (fv, pv) = (feldman_verifier(g, &cs), pedersen_verifier(g, h, &cs));
            let f = FeldmanVerifier::<F, G>::try_from(&fv.to_bytes()[..]).expect("a Feldman verifier decodes");
            let p = PedersenVerifier::<F, G>::try_from(&pv.to_bytes()[..]).expect("a Pedersen verifier decodes");
            assert_true(f.commitments.len() == n && p.commitments.len() == n, "every commitment survives");
            eq_assert(f.g.0, g, "Feldman generator survives");
            eq_assert(p.g.0, g, "Pedersen generator survives");
            eq_assert(p.h.0, h, "Pedersen blinding generator survives");
            same(&f.commitments, &fv.commitments, "Feldman commitments survive");
            same(&p.commitments, &pv.commitments, "Pedersen commitments survive");
            reach("wide");
        })
    }))
    .collect()
}

// -------------------------------------------------------------------- S01

fn shamir_reconstruct(max_n: usize) -> Vec<Case> {
    let mut cases = vec![];
    for (t, n) in shapes(max_n) {
        cases.push(case(format!("split-combine t={} n={}", t, n), move || {
            declare_xs(n);
            let s = secret();
            let sch = Shamir::new(t, n).expect("scheme");
            let shares = sch.split_secret(&mut NoRng, &s).expect("split");
            assert_true(shares.len() == n, "one share per participant");
            for (i, sh) in shares.iter().enumerate() {
                assert_true(
                    sh.identifier() as usize == i + 1,
                    "identifiers run from 1 to n",
                );
            }
            for k in t..=n {
                for sub in subsets(n, k) {
                    for o in orders(&sub) {
                        let pick: Vec<Share> = o.iter().map(|i| shares[*i].clone()).collect();
                        let r: F = sch
                            .combine_shares::<F, F>(&pick)
                            .expect("combine accepts enough shares");
                        eq_assert(r.0, s.0, "combined value equals the secret");
                    }
                }
            }
            for sub in subsets(n, t - 1) {
                let pick: Vec<Share> = sub.iter().map(|i| shares[*i].clone()).collect();
                assert_true(
                    sch.combine_shares::<F, F>(&pick).is_err(),
                    "fewer shares than the threshold are refused",
                );
            }
            reach("reconstructed");
        }));
        // combining group elements y_i*B gives secret*B (threshold use)
        cases.push(case(format!("combine-in-group t={} n={}", t, n), move || {
            declare_xs(n);
            let s = secret();
            let b = symcore::free("base");
            assume_nonzero(b);
            let sch = Shamir::new(t, n).unwrap();
            let shares = sch.split_secret(&mut NoRng, &s).unwrap();
            for sub in subsets(n, t) {
                let pick: Vec<Share> = sub
                    .iter()
                    .map(|i| {
                        let y = field_of(&shares[*i]);
                        let mut g = G(b);
                        g.scalar_mul_assign(&y);
                        Share::new(shares[*i].identifier() as usize, g.to_bytes())
                    })
                    .collect();
                let r: G = sch.combine_shares::<F, G>(&pick).expect("combine in group");
                eq_assert(
                    r.0,
                    symcore::mul(b, s.0),
                    "combining in the exponent equals secret times base",
                );
            }
            reach("group");
        }));
        // combine is Lagrange interpolation at zero for arbitrary share values
        cases.push(case(format!("interpolate t={} n={}", t, n), move || {
            declare_xs(n);
            let sch = Shamir::new(t, n).unwrap();
            // arbitrary polynomial of degree < k, k = number of shares given
            for k in t..=n {
                let coefs: Vec<Id> = (0..k).map(|i| symcore::free(&format!("a{}_{}", k, i))).collect();
                let ids: Vec<usize> = (n - k + 1..=n).collect();
                let mut sh = vec![];
                for id in &ids {
                    let x = x_of(*id);
                    let mut y = 0;
                    for c in coefs.iter().rev() {
                        y = symcore::add(symcore::mul(y, x), *c);
                    }
                    assume_nonzero(y);
                    sh.push(Share::new(*id, F(y).to_bytes()));
                }
                let r: F = sch.combine_shares::<F, F>(&sh).expect("combine");
                eq_assert(r.0, coefs[0], "combine interpolates at zero");
            }
            reach("interpolated");
        }));
    }
    cases
}

// -------------------------------------------------------------------- S02

fn shamir_guards(max_n: usize) -> Vec<Case> {
    let mut cases = vec![];
    for (t, n) in shapes(max_n) {
        cases.push(case(format!("bad-sets t={} n={}", t, n), move || {
            declare_xs(n);
            let sch = Shamir::new(t, n).unwrap();
            let mk = |id: usize, nm: &str| {
                let v = symcore::free(nm);
                Share::new(id, F(v).to_bytes())
            };
            // a repeated identifier at every pair of positions, any values
            for len in t..=n {
                for i in 0..len {
                    for j in i + 1..len {
                        let mut set: Vec<Share> = (0..len)
                            .map(|k| mk(k + 1, &format!("d{}_{}_{}_{}", len, i, j, k)))
                            .collect();
                        set[j] = mk(i + 1, &format!("dup{}_{}_{}", len, i, j));
                        assert_true(
                            no_fork(|| sch.combine_shares::<F, F>(&set).is_err()),
                            "a repeated identifier is refused",
                        );
                    }
                }
                for i in 0..len {
                    let mut set: Vec<Share> = (0..len)
                        .map(|k| mk(k + 1, &format!("z{}_{}_{}", len, i, k)))
                        .collect();
                    set[i] = mk(0, &format!("zero{}_{}", len, i));
                    assert_true(
                        no_fork(|| sch.combine_shares::<F, F>(&set).is_err()),
                        "identifier zero is refused",
                    );
                }
            }
            for len in 0..t {
                let set: Vec<Share> = (0..len).map(|k| mk(k + 1, &format!("f{}_{}", len, k))).collect();
                assert_true(
                    no_fork(|| sch.combine_shares::<F, F>(&set).is_err()),
                    "fewer shares than the threshold are refused",
                );
            }
            reach("refused");
        }));
    }
    cases.push(case("zero-secret", move || {
        let s = symcore::free("secret");
        let sch = Shamir::new(2, 3).unwrap();
        declare_xs(3);
        let r = sch.split_secret(&mut NoRng, &F(s));
        match r {
            Ok(_) => {
                reach("split");
                assert_nonzero(s, "a zero secret is refused");
            }
            Err(_) => {
                reach("refused-secret");
                assert_zero(s, "only the zero secret is refused");
            }
        }
    }));
    cases
}

// -------------------------------------------------------------------- S03

fn secrecy(max_n: usize) -> Vec<Case> {
    let mut cases = vec![];
    for (t, n) in shapes(max_n) {
        for sub in subsets(n, t - 1) {
            for which in 0..2 {
                if which == 1 && n > 3 {
                    continue;
                }
                let sub = sub.clone();
                let nm = ["shamir", "pedersen"][which];
                cases.push(case(
                    format!("{} t={} n={} held={:?}", nm, t, n, sub),
                    move || {
                        RAND_FREE.store(true, Ordering::SeqCst);
                        declare_xs(n);
                        if concrete() {
                            return secrecy_native(t, n, which, &sub);
                        }
                        let g = G(symcore::free("g"));
                        let h = G(symcore::free("h"));
                        assume_nonzero(g.0);
                        assume_nonzero(h.0);
                        // the adversary's view, fixed before everything else
                        let view: Vec<Id> =
                            (0..t - 1).map(|i| symcore::free(&format!("view{}", i))).collect();
                        let bview: Vec<Id> =
                            (0..t - 1).map(|i| symcore::free(&format!("bview{}", i))).collect();
                        let cview: Vec<Id> =
                            (0..t).map(|i| symcore::free(&format!("cview{}", i))).collect();
                        let s = secret();
                        let (shares, extra) = if which == 0 {
                            (
                                Shamir::new(t, n).unwrap().split_secret(&mut NoRng, &s).unwrap(),
                                None,
                            )
                        } else {
                            let r = Pedersen::new(t, n)
                                .unwrap()
                                .split_secret::<F, G>(&mut NoRng, &s, Some(g), Some(h))
                                // a zero blinding, which the library refuses
                                .unwrap_or_else(|_| prune("zero blinding drawn"));
                            (
                                r.secret_shares.clone(),
                                Some((r.blinding_shares.clone(), r.verifier.clone())),
                            )
                        };
                        for (k, i) in sub.iter().enumerate() {
                            let y = field_of(&shares[*i]);
                            assume_zero(symcore::sub(y.0, view[k]));
                        }
                        if let Some((bs, v)) = &extra {
                            for (k, i) in sub.iter().enumerate() {
                                let y = field_of(&bs[*i]);
                                assume_zero(symcore::sub(y.0, bview[k]));
                            }
                            // the published commitments fix one more value;
                            // the others follow from the shares
                            let c0 = &v.commitments[0];
                            let c0 = G::from_bytes(c0.to_bytes()).unwrap();
                            assume_zero(symcore::sub(c0.0, cview[0]));
                        }
                        // every secret is still consistent with the view
                        let fresh = symcore::engine::still_free(s.0);
                        assert_true(
                            fresh,
                            "the view of t-1 participants leaves the secret undetermined",
                        );
                        reach(&format!("{}-secret-free", ["shamir", "pedersen"][which]));
                    },
                ));
            }
        }
    }
    cases
}

/// Native replay: the view is an affine function of the secret and the drawn
/// values; find by elimination whether it leaves the secret undetermined.
fn secrecy_native(t: usize, n: usize, which: usize, sub: &[usize]) {
    let view = |ds: i64, offs: &[i64]| -> (Vec<Id>, usize) {
        *PROBE.lock().unwrap() = Some((0, offs.to_vec()));
        let s = F(symcore::int(77_000_001 + ds));
        let (g, h) = (symcore::int(1_234_577), symcore::int(9_876_543));
        let mut out = vec![];
        if which == 0 {
            let sh = Shamir::new(t, n).unwrap().split_secret(&mut NoRng, &s).unwrap();
            for i in sub {
                out.push(field_of(&sh[*i]).0);
            }
        } else {
            let r = Pedersen::new(t, n)
                .unwrap()
                .split_secret::<F, G>(&mut NoRng, &s, Some(G(g)), Some(G(h)))
                .unwrap();
            for i in sub {
                out.push(field_of(&r.secret_shares[*i]).0);
                out.push(field_of(&r.blinding_shares[*i]).0);
            }
            for c in &r.verifier.commitments {
                out.push(G::from_bytes(c.to_bytes()).unwrap().0);
            }
        }
        let used = PROBE.lock().unwrap().take().unwrap().0;
        (out, used)
    };
    let (base, used) = view(0, &[]);
    let mut cols: Vec<Vec<Id>> = vec![];
    let diff = |v: Vec<Id>| -> Vec<Id> {
        v.iter().zip(&base).map(|(a, b)| symcore::sub(*a, *b)).collect()
    };
    for k in 0..used {
        let mut o = vec![0; used];
        o[k] = 1;
        cols.push(diff(view(0, &o).0));
    }
    // is the secret's column in the span of the drawn values' columns?
    let mut target = diff(view(1, &[]).0);
    for r in 0..base.len() {
        let Some(p) = cols.iter().position(|c| !symcore::is_zero(c[r])) else {
            continue;
        };
        let piv = cols.swap_remove(p);
        let inv = symcore::inv(piv[r]);
        let elim = |c: &mut Vec<Id>| {
            let f = symcore::mul(c[r], inv);
            for i in 0..c.len() {
                c[i] = symcore::sub(c[i], symcore::mul(f, piv[i]));
            }
        };
        for c in cols.iter_mut() {
            elim(c);
        }
        elim(&mut target);
    }
    assert_true(
        target.iter().all(|x| symcore::is_zero(*x)),
        "the view of t-1 participants leaves the secret undetermined",
    );
}

// -------------------------------------------------------------------- S04

fn vss_complete(max_n: usize) -> Vec<Case> {
    let mut cases = vec![];
    for (t, n) in shapes(max_n) {
        for own in 0..2 {
            cases.push(case(format!("feldman t={} n={} own-g={}", t, n, own), move || {
                declare_xs(n);
                let s = secret();
                let g = symcore::free("g");
                assume_nonzero(g);
                let sch = Feldman::new(t, n).unwrap();
                let (v, shares) = sch
                    .split_secret::<F, G>(&mut NoRng, &s, if own == 1 { Some(G(g)) } else { None })
                    .expect("split");
                if own == 1 {
                    eq_assert(v.g.0, g, "the supplied generator is used");
                }
                let c0 = G::from_bytes(v.commitments[0].to_bytes()).unwrap();
                eq_assert(c0.0, symcore::mul(v.g.0, s.0), "first commitment commits to the secret");
                assert_true(shares.len() == n, "one share per participant");
                for sh in &shares {
                    assert_true(
                        sch.verify_share::<F, G>(sh, &v).is_ok(),
                        "every dealt Feldman share verifies",
                    );
                }
                for sub in subsets(n, t) {
                    let pick: Vec<Share> = sub.iter().map(|i| shares[*i].clone()).collect();
                    let r: F = sch.combine_shares::<F, F>(&pick).expect("combine");
                    eq_assert(r.0, s.0, "Feldman shares combine to the secret");
                }
                reach("feldman");
            }));
            cases.push(case(format!("pedersen t={} n={} own-gh={}", t, n, own), move || {
                declare_xs(n);
                let s = secret();
                let (g, h) = (symcore::free("g"), symcore::free("h"));
                assume_nonzero(g);
                assume_nonzero(h);
                let sch = Pedersen::new(t, n).unwrap();
                let (og, oh) = if own == 1 { (Some(G(g)), Some(G(h))) } else { (None, None) };
                let r = sch.split_secret::<F, G>(&mut NoRng, &s, og, oh).expect("split");
                if own == 1 {
                    eq_assert(r.verifier.g.0, g, "the supplied generator is used");
                    eq_assert(r.verifier.h.0, h, "the supplied blinding generator is used");
                }
                let c0 = G::from_bytes(r.verifier.commitments[0].to_bytes()).unwrap();
                let want = symcore::add(
                    symcore::mul(r.verifier.g.0, s.0),
                    symcore::mul(r.verifier.h.0, r.blinding.0),
                );
                eq_assert(c0.0, want, "first commitment is a Pedersen commitment to the secret");
                assert_true(
                    r.secret_shares.len() == n && r.blinding_shares.len() == n,
                    "one share pair per participant",
                );
                for (a, b) in r.secret_shares.iter().zip(r.blinding_shares.iter()) {
                    assert_true(
                        sch.verify_share::<F, G>(a, b, &r.verifier).is_ok(),
                        "every dealt Pedersen share verifies",
                    );
                }
                for sub in subsets(n, t) {
                    let pick: Vec<Share> = sub.iter().map(|i| r.secret_shares[*i].clone()).collect();
                    let c: F = sch.combine_shares::<F, F>(&pick).expect("combine");
                    eq_assert(c.0, s.0, "Pedersen shares combine to the secret");
                    let pick: Vec<Share> = sub.iter().map(|i| r.blinding_shares[*i].clone()).collect();
                    let c: F = sch.combine_shares::<F, F>(&pick).expect("combine");
                    eq_assert(c.0, r.blinding.0, "blinding shares combine to the blinding");
                }
                reach("pedersen");
            }));
        }
    }
    cases
}

// -------------------------------------------------------------------- S05

fn vss_sound(max_n: usize) -> Vec<Case> {
    let mut cases = vec![];
    for (t, n) in shapes(max_n) {
        // arbitrary dealer: commitments, generator, share all adversarial
        for len in t..=t {
            cases.push(case(format!("feldman t={} n={} commitments={}", t, n, len), move || {
                declare_xs(n);
                let g = symcore::free("g");
                assume_nonzero(g);
                let cs: Vec<Id> = (0..len).map(|i| symcore::free(&format!("C{}", i))).collect();
                let v = feldman_verifier(g, &cs);
                let sch = Feldman::new(t, n).unwrap();
                for id in 1..=2 {
                    let y = symcore::free(&format!("y{}", id));
                    let mut want = 0;
                    for c in cs.iter().rev() {
                        want = symcore::add(symcore::mul(want, x_of(id)), *c);
                    }
                    let d = symcore::sub(symcore::mul(g, y), want);
                    match sch.verify_share::<F, G>(&Share::new(id, F(y).to_bytes()), &v) {
                        Ok(()) => {
                            reach("feldman-accept");
                            assert_zero(d, "an accepted Feldman share lies on the committed polynomial");
                        }
                        Err(_) => {
                            reach("feldman-reject");
                            if !symcore::is_zero(y) {
                                assert_nonzero(d, "a rejected Feldman share is off the committed polynomial");
                            }
                        }
                    }
                }
            }));
            cases.push(case(format!("pedersen t={} n={} commitments={}", t, n, len), move || {
                declare_xs(n);
                let (g, h) = (symcore::free("g"), symcore::free("h"));
                assume_nonzero(g);
                assume_nonzero(h);
                let cs: Vec<Id> = (0..len).map(|i| symcore::free(&format!("C{}", i))).collect();
                let v = pedersen_verifier(g, h, &cs);
                let sch = Pedersen::new(t, n).unwrap();
                for id in 1..=2 {
                    let y = symcore::free(&format!("y{}", id));
                    let b = symcore::free(&format!("b{}", id));
                    let mut want = 0;
                    for c in cs.iter().rev() {
                        want = symcore::add(symcore::mul(want, x_of(id)), *c);
                    }
                    let d = symcore::sub(
                        symcore::add(symcore::mul(g, y), symcore::mul(h, b)),
                        want,
                    );
                    let r = sch.verify_share::<F, G>(
                        &Share::new(id, F(y).to_bytes()),
                        &Share::new(id, F(b).to_bytes()),
                        &v,
                    );
                    assert_true(
                        sch.verify_share::<F, G>(
                            &Share::new(id, F(y).to_bytes()),
                            &Share::new(3 - id, F(b).to_bytes()),
                            &v,
                        )
                        .is_err(),
                        "shares of different identifiers are refused",
                    );
                    match r {
                        Ok(()) => {
                            reach("pedersen-accept");
                            assert_zero(d, "an accepted Pedersen share opens the committed polynomial");
                        }
                        Err(_) => {
                            reach("pedersen-reject");
                            if !symcore::is_zero(y) && !symcore::is_zero(b) {
                                assert_nonzero(d, "a rejected Pedersen share does not open the commitment");
                            }
                        }
                    }
                }
            }));
        }
        // as many commitments as the threshold, no more, no fewer
        for len in (0..t).chain(t + 1..=n + 1) {
            cases.push(case(format!("short-verifier t={} n={} commitments={}", t, n, len), move || {
                declare_xs(n);
                let (g, h) = (symcore::free("g"), symcore::free("h"));
                let cs: Vec<Id> = (0..len).map(|i| symcore::free(&format!("C{}", i))).collect();
                let (y, b) = (symcore::free("y"), symcore::free("b"));
                let fv = feldman_verifier(g, &cs);
                let pv = pedersen_verifier(g, h, &cs);
                let (sy, sb) = (Share::new(1, F(y).to_bytes()), Share::new(1, F(b).to_bytes()));
                assert_true(
                    Feldman::new(t, n).unwrap().verify_share::<F, G>(&sy, &fv).is_err(),
                    "a Feldman verifier with another number of commitments is refused",
                );
                assert_true(
                    Pedersen::new(t, n).unwrap().verify_share::<F, G>(&sy, &sb, &pv).is_err(),
                    "a Pedersen verifier with another number of commitments is refused",
                );
                reach("short");
            }));
        }
        // t shares accepted against one verifier combine to the committed value
        cases.push(case(format!("feldman-consistent t={} n={}", t, n), move || {
            let g = symcore::free("g");
            assume_nonzero(g);
            let cs: Vec<Id> = (0..t).map(|i| symcore::free(&format!("C{}", i))).collect();
            declare_xs(n);
            let v = feldman_verifier(g, &cs);
            let sch = Feldman::new(t, n).unwrap();
            let mut shares = vec![];
            for id in n - t + 1..=n {
                let y = symcore::free(&format!("y{}", id));
                assume_nonzero(y);
                let sh = Share::new(id, F(y).to_bytes());
                if sch.verify_share::<F, G>(&sh, &v).is_err() {
                    prune("share rejected");
                }
                shares.push(sh);
            }
            let r: F = sch.combine_shares::<F, F>(&shares).expect("combine");
            eq_assert(symcore::mul(r.0, g), cs[0], "verified shares combine to the committed secret");
            reach("consistent");
        }));
    }
    cases
}

fn feldman_verifier(g: Id, cs: &[Id]) -> FeldmanVerifier<F, G> {
    FeldmanVerifier {
        g: G(g),
        commitments: cs
            .iter()
            .map(|c| ursa_sharing::ShareVerifier::try_from(&G(*c).to_bytes()[..]).unwrap())
            .collect(),
    }
}

fn pedersen_verifier(g: Id, h: Id, cs: &[Id]) -> PedersenVerifier<F, G> {
    PedersenVerifier {
        g: G(g),
        h: G(h),
        commitments: cs
            .iter()
            .map(|c| ursa_sharing::ShareVerifier::try_from(&G(*c).to_bytes()[..]).unwrap())
            .collect(),
    }
}

// -------------------------------------------------------------------- S06

fn codecs(max_n: usize) -> Vec<Case> {
    let mut cases = vec![];
    for (t, n) in shapes(max_n) {
        cases.push(case(format!("roundtrip t={} n={}", t, n), move || {
            declare_xs(n);
            let s = secret();
            let (v, shares) = Feldman::new(t, n).unwrap().split_secret::<F, G>(&mut NoRng, &s, None).unwrap();
            for sh in &shares {
                let b = sh.to_bytes();
                let r = Share::try_from(&b[..]).expect("share decodes");
                assert_true(r.identifier() == sh.identifier(), "share identifier survives");
                assert_true(r.value() == sh.value(), "share value survives");
                let c = sh.clone();
                assert_true(c.identifier() == sh.identifier() && c.value() == sh.value(), "clone of a share");
            }
            let b = v.to_bytes();
            let w = FeldmanVerifier::<F, G>::try_from(&b[..]).expect("Feldman verifier decodes");
            eq_assert(w.g.0, v.g.0, "Feldman generator survives");
            same(&v.commitments, &w.commitments, "Feldman commitments survive");
            same(&v.commitments, &v.clone().commitments, "cloned Feldman commitments");
            for sh in &shares {
                assert_true(
                    Feldman::new(t, n).unwrap().verify_share::<F, G>(sh, &w).is_ok(),
                    "shares verify against the decoded Feldman verifier",
                );
            }
            let r = Pedersen::new(t, n).unwrap().split_secret::<F, G>(&mut NoRng, &s, None, None).unwrap();
            let b = r.verifier.to_bytes();
            let w = PedersenVerifier::<F, G>::try_from(&b[..]).expect("Pedersen verifier decodes");
            eq_assert(w.g.0, r.verifier.g.0, "Pedersen generator survives");
            eq_assert(w.h.0, r.verifier.h.0, "Pedersen blinding generator survives");
            same(&r.verifier.commitments, &w.commitments, "Pedersen commitments survive");
            for (a, b) in r.secret_shares.iter().zip(r.blinding_shares.iter()) {
                assert_true(
                    Pedersen::new(t, n).unwrap().verify_share::<F, G>(a, b, &w).is_ok(),
                    "shares verify against the decoded Pedersen verifier",
                );
            }
            reach("roundtrip");
        }));
    }
    cases
}

fn same(
    a: &[ursa_sharing::ShareVerifier<F, G>],
    b: &[ursa_sharing::ShareVerifier<F, G>],
    label: &str,
) {
    assert_true(a.len() == b.len(), label);
    for (x, y) in a.iter().zip(b) {
        let x = G::from_bytes(x.to_bytes()).unwrap();
        let y = G::from_bytes(y.to_bytes()).unwrap();
        eq_assert(x.0, y.0, label);
    }
}

fn cases(prop: &str, thorough: bool) -> Vec<Case> {
    let n = if thorough { 5 } else { 4 };
    let wide = if thorough { 66_000 } else { 600 };
    let mut more = match prop {
        "S01" => wide_s01(wide),
        "S04" => wide_s04(wide),
        "S05" => wide_s05(),
        "S06" => wide_s06(),
        _ => vec![],
    };
    let mut out = match prop {
        "S01" => shamir_reconstruct(n),
        "S02" => shamir_guards(n),
        "S03" => {
            FIXED_X.store(true, Ordering::SeqCst);
            secrecy(n)
        }
        "S04" => vss_complete(n),
        "S05" => vss_sound(n),
        "S06" => codecs(n),
        _ => panic!("unknown property"),
    };
    out.append(&mut more);
    out
}

fn main() {
    symcore::engine::main(cases)
}
