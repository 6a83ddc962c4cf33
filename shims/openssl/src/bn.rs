//! Big numbers: symbolic integers and residues modulo the issuer's N.
use crate::error::ErrorStack;
use std::cmp::Ordering;
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::sync::atomic::{AtomicUsize, Ordering as AO};
use std::sync::Mutex;
use symcore::engine::inconclusive;
use symcore::ints::{self, Parsed};
use symcore::num_traits::{One, Signed, Zero};
use symcore::{BigInt, Id};

type R<T> = Result<T, ErrorStack>;
fn err<T>(s: &str) -> R<T> {
    Err(ErrorStack(s.into()))
}

#[derive(Clone, Copy, PartialEq)]
enum Val {
    Int(Id),
    /// discrete logarithm of a residue modulo N, and whether it is reduced
    Res(Id, bool),
}
use Val::*;

pub struct BigNumContext(());
impl BigNumContext {
    pub fn new() -> R<Self> {
        Ok(BigNumContext(()))
    }
}
pub struct MsbOption(i32);
impl MsbOption {
    pub const MAYBE_ZERO: MsbOption = MsbOption(-1);
    pub const ONE: MsbOption = MsbOption(0);
    pub const TWO_ONES: MsbOption = MsbOption(1);
}
pub struct OpensslString(String);
impl Deref for OpensslString {
    type Target = str;
    fn deref(&self) -> &str {
        &self.0
    }
}
impl fmt::Display for OpensslString {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}

pub struct BigNumRef {
    v: Val,
}
pub struct BigNum(BigNumRef);
impl Deref for BigNum {
    type Target = BigNumRef;
    fn deref(&self) -> &BigNumRef {
        &self.0
    }
}
impl DerefMut for BigNum {
    fn deref_mut(&mut self) -> &mut BigNumRef {
        &mut self.0
    }
}
impl AsRef<BigNumRef> for BigNum {
    fn as_ref(&self) -> &BigNumRef {
        &self.0
    }
}
fn mk(v: Val) -> BigNum {
    BigNum(BigNumRef { v })
}
fn parsed(p: Parsed) -> Val {
    match p {
        Parsed::Int(i) => Int(i),
        Parsed::Res(i, r) => Res(i, r),
    }
}
/// the bit query that the next `set_bit` on a zero number copies
static COPY: Mutex<Option<Id>> = Mutex::new(None);

impl BigNum {
    pub fn new() -> R<Self> {
        Ok(mk(Int(0)))
    }
    pub fn from_u32(n: u32) -> R<Self> {
        Ok(mk(Int(symcore::int(n as i64))))
    }
    pub fn from_dec_str(s: &str) -> R<Self> {
        // as the C function: the longest prefix of digits, if there is one
        std::ffi::CString::new(s).unwrap();
        let sign = s.starts_with('-') as usize;
        let n = s[sign..].bytes().take_while(|c| c.is_ascii_digit()).count();
        if n == 0 {
            return err("bad decimal");
        }
        match ints::parse_dec(&s[..sign + n]) {
            Some(p) => Ok(mk(parsed(p))),
            None => err("bad decimal"),
        }
    }
    pub fn from_hex_str(s: &str) -> R<Self> {
        std::ffi::CString::new(s).unwrap();
        let sign = s.starts_with('-') as usize;
        let n = s[sign..].bytes().take_while(|c| c.is_ascii_hexdigit()).count();
        if n == 0 {
            return err("bad hex");
        }
        let s = &s[..sign + n];
        match BigInt::parse_bytes(s.as_bytes(), 16) {
            Some(v) => {
                let neg = v.is_negative();
                let x = parsed(ints::parse_bytes(&v.to_bytes_be().1));
                Ok(mk(match x {
                    Int(i) if neg => Int(ints::neg(i)),
                    x => x,
                }))
            }
            None => err("bad hex"),
        }
    }
    pub fn from_slice(b: &[u8]) -> R<Self> {
        Ok(mk(parsed(ints::parse_bytes(b))))
    }
}
fn k(i: Id) -> Option<BigInt> {
    ints::integer(i)
}
fn cst(v: BigInt) -> BigNumRef {
    BigNumRef { v: Int(symcore::big(v)) }
}

impl BigNumRef {
    fn int(&self) -> Id {
        match self.v {
            Int(i) => i,
            Res(..) => inconclusive("a residue is used as an integer"),
        }
    }
    fn konst(&self) -> Option<BigInt> {
        match self.v {
            Int(i) => k(i),
            _ => None,
        }
    }
    /// discrete logarithm of this number taken modulo N
    fn res(&self) -> Id {
        match self.v {
            Res(i, _) => i,
            Int(i) => match k(i) {
                Some(ref v) if v.is_one() => 0,
                Some(ref v) if v.is_zero() => inconclusive("zero is used as a residue"),
                Some(v) => symcore::oracle("residue", v.to_string().as_bytes()),
                None => inconclusive("a symbolic integer is used as a residue"),
            },
        }
    }
    fn is_n(&self) -> bool {
        self.konst().map(|v| v == ints::modulus_n()).unwrap_or(false)
    }
    fn is_field(&self) -> bool {
        self.konst()
            .map(|v| v == ints::qr_order() || v == ints::bn254_order())
            .unwrap_or(false)
    }
    fn set(&mut self, v: Val) {
        self.v = v;
    }
    fn set_mod(&mut self, id: Id, m: &BigNumRef) {
        self.reduced(id, m.konst().unwrap());
    }
    /// the expression, now known to be reduced
    fn reduced(&mut self, id: Id, m: BigInt) {
        if k(id).is_some() {
            return self.const_mod(k(id).unwrap(), m).unwrap();
        }
        let id = ints::modulo(id, &m);
        if k(id).is_some() {
            return self.const_mod(k(id).unwrap(), m).unwrap();
        }
        if let Some(v) = ints::residue(id, &m) {
            return self.const_mod(v, m).unwrap();
        }
        if ints::range(id).map(|r| r.0.is_negative() || r.1 >= m).unwrap_or(true) {
            ints::forget_range(id);
            ints::set_range(id, BigInt::zero(), m - 1);
        }
        self.v = Int(id);
    }

    pub fn generate_prime(
        &mut self,
        bits: i32,
        safe: bool,
        _add: Option<&BigNumRef>,
        _rem: Option<&BigNumRef>,
    ) -> R<()> {
        if safe {
            static NEXT: AtomicUsize = AtomicUsize::new(0);
            let i = NEXT.fetch_add(1, AO::SeqCst);
            let d = ints::dec(if i % 2 == 0 { ints::P } else { ints::Q });
            if d.bits() as i32 != bits {
                inconclusive("safe prime of an unexpected size");
            }
            *self = cst(d);
            return Ok(());
        }
        let id = symcore::random("prime");
        ints::set_range(id, ints::pow2(bits as u32 - 1), ints::pow2(bits as u32) - 1);
        self.v = Int(id);
        Ok(())
    }
    pub fn is_prime(&self, _checks: i32, _ctx: &mut BigNumContext) -> R<bool> {
        match self.konst() {
            Some(v) => {
                let p = [ints::dec(ints::P), ints::dec(ints::Q)];
                Ok(if p.iter().any(|x| *x == v || x / 2 == v) {
                    true
                } else if v < BigInt::from(2) {
                    false
                } else {
                    // Fermat test to a few bases
                    [2u32, 3, 5, 7].iter().all(|b| {
                        let b = BigInt::from(*b);
                        b == v || b.modpow(&(&v - 1), &v).is_one()
                    })
                })
            }
            None => Ok(!ints::is_composite(self.int())),
        }
    }
    pub fn rand(&mut self, bits: i32, _msb: MsbOption, _odd: bool) -> R<()> {
        let id = symcore::random(&format!("rand{}", bits));
        ints::set_range(id, BigInt::zero(), ints::pow2(bits as u32) - 1);
        self.v = Int(id);
        Ok(())
    }
    pub fn rand_range(&self, out: &mut BigNumRef) -> R<()> {
        if self.is_n() {
            out.v = Res(symcore::random("residue"), true);
            return Ok(());
        }
        if let Some((_, hi)) = ints::range(self.int()) {
            if !hi.is_positive() {
                return err("invalid range");
            }
        }
        let id = symcore::random("range");
        if let Some((_, hi)) = ints::range(self.int()) {
            ints::set_range(id, BigInt::zero(), hi - 1);
        }
        out.v = Int(id);
        Ok(())
    }
    pub fn num_bits(&self) -> i32 {
        match self.v {
            Int(i) => ints::num_bits(i),
            Res(..) => 2048,
        }
    }
    pub fn is_bit_set(&self, n: i32) -> bool {
        if let Some(v) = self.konst() {
            return ((v.abs() >> n as usize) % 2i32).is_one();
        }
        if n == 0 {
            *COPY.lock().unwrap() = Some(self.int());
            return true;
        }
        false
    }
    pub fn set_bit(&mut self, n: i32) -> R<()> {
        let c = COPY.lock().unwrap().take();
        if let (0, Some(id)) = (n, c) {
            self.v = Int(id);
            return Ok(());
        }
        match self.konst() {
            Some(v) => {
                let b = BigInt::one() << n as usize;
                if !((&v >> n as usize) % 2i32).is_one() {
                    *self = cst(v + b);
                }
            }
            None => {
                let id = symcore::random("with bit");
                let hi = ints::range(self.int()).map(|r| r.1).unwrap_or_else(BigInt::zero);
                let bits = (hi.bits() as u32).max(n as u32 + 1);
                ints::set_range(id, ints::pow2(n as u32), ints::pow2(bits) - 1);
                self.v = Int(id);
            }
        }
        Ok(())
    }
    pub fn to_dec_str(&self) -> R<OpensslString> {
        Ok(OpensslString(match self.v {
            Int(i) => ints::int_dec(i),
            Res(i, r) => ints::bytes_dec(&ints::res_bytes(i, r)),
        }))
    }
    pub fn to_hex_str(&self) -> R<OpensslString> {
        let d = self.to_dec_str()?;
        let v = BigInt::parse_bytes(d.as_bytes(), 10).unwrap();
        Ok(OpensslString(v.to_str_radix(16).to_uppercase()))
    }
    pub fn to_vec(&self) -> Vec<u8> {
        match self.v {
            Int(i) => ints::int_bytes(i),
            Res(i, r) => ints::res_bytes(i, r),
        }
    }
    pub fn checked_add(&mut self, a: &BigNumRef, b: &BigNumRef) -> R<()> {
        self.v = Int(ints::add(a.int(), b.int()));
        Ok(())
    }
    pub fn checked_sub(&mut self, a: &BigNumRef, b: &BigNumRef) -> R<()> {
        self.v = Int(ints::sub(a.int(), b.int()));
        Ok(())
    }
    pub fn checked_mul(&mut self, a: &BigNumRef, b: &BigNumRef, _c: &mut BigNumContext) -> R<()> {
        self.v = match (a.v, b.v) {
            (Int(x), Int(y)) => Int(ints::mul(x, y)),
            _ => Res(symcore::add(a.res(), b.res()), false),
        };
        Ok(())
    }
    pub fn checked_div(&mut self, a: &BigNumRef, b: &BigNumRef, _c: &mut BigNumContext) -> R<()> {
        match (a.konst(), b.konst()) {
            (Some(_), Some(ref y)) if y.is_zero() => err("division by zero"),
            (Some(x), Some(y)) => {
                *self = cst(x / y);
                Ok(())
            }
            _ => inconclusive("division of symbolic integers"),
        }
    }
    pub fn sqr(&mut self, a: &BigNumRef, _c: &mut BigNumContext) -> R<()> {
        self.v = match a.v {
            Int(x) => Int(ints::mul(x, x)),
            Res(x, _) => Res(symcore::add(x, x), false),
        };
        Ok(())
    }
    pub fn mod_mul(
        &mut self,
        a: &BigNumRef,
        b: &BigNumRef,
        m: &BigNumRef,
        _c: &mut BigNumContext,
    ) -> R<()> {
        if m.is_n() {
            self.set(Res(symcore::add(a.res(), b.res()), true));
            return Ok(());
        }
        if let (Some(x), Some(y), Some(m)) = (a.konst(), b.konst(), m.konst()) {
            return self.const_mod(x * y, m);
        }
        if m.is_field() {
            let id = symcore::mul(a.int(), b.int());
            self.set_mod(id, m);
            return Ok(());
        }
        inconclusive("multiplication with an unknown modulus")
    }
    pub fn mod_sub(
        &mut self,
        a: &BigNumRef,
        b: &BigNumRef,
        m: &BigNumRef,
        _c: &mut BigNumContext,
    ) -> R<()> {
        if let (Some(x), Some(y), Some(m)) = (a.konst(), b.konst(), m.konst()) {
            return self.const_mod(x - y, m);
        }
        if m.is_field() {
            let id = symcore::sub(a.int(), b.int());
            self.set_mod(id, m);
            return Ok(());
        }
        inconclusive("subtraction with an unknown modulus")
    }
    pub fn mod_add(
        &mut self,
        a: &BigNumRef,
        b: &BigNumRef,
        m: &BigNumRef,
        _c: &mut BigNumContext,
    ) -> R<()> {
        if let (Some(x), Some(y), Some(m)) = (a.konst(), b.konst(), m.konst()) {
            return self.const_mod(x + y, m);
        }
        if m.is_field() {
            let id = symcore::add(a.int(), b.int());
            self.set_mod(id, m);
            return Ok(());
        }
        inconclusive("addition with an unknown modulus")
    }
    fn const_mod(&mut self, v: BigInt, m: BigInt) -> R<()> {
        if m.is_zero() {
            return err("zero modulus");
        }
        let r = &v % &m;
        *self = cst(if r.is_negative() { r + m.abs() } else { r });
        Ok(())
    }
    pub fn gcd(&mut self, a: &BigNumRef, b: &BigNumRef, _c: &mut BigNumContext) -> R<()> {
        match (a.konst(), b.konst()) {
            (Some(mut x), Some(mut y)) => {
                while !y.is_zero() {
                    let t = &x % &y;
                    x = y;
                    y = t;
                }
                *self = cst(x.abs());
                Ok(())
            }
            _ => inconclusive("gcd of symbolic integers"),
        }
    }
    pub fn add_word(&mut self, w: u32) -> R<()> {
        self.v = Int(ints::add(self.int(), symcore::int(w as i64)));
        Ok(())
    }
    pub fn sub_word(&mut self, w: u32) -> R<()> {
        self.v = Int(ints::sub(self.int(), symcore::int(w as i64)));
        Ok(())
    }
    pub fn mul_word(&mut self, w: u32) -> R<()> {
        self.v = Int(ints::mul(self.int(), symcore::int(w as i64)));
        Ok(())
    }
    pub fn div_word(&mut self, w: u32) -> R<u64> {
        match self.konst() {
            Some(v) if w != 0 => {
                *self = cst(v / w);
                Ok(0)
            }
            Some(_) => err("division by zero"),
            None => inconclusive("division of a symbolic integer"),
        }
    }
    pub fn mod_exp(
        &mut self,
        a: &BigNumRef,
        e: &BigNumRef,
        m: &BigNumRef,
        _c: &mut BigNumContext,
    ) -> R<()> {
        if m.is_n() {
            let x = e.int();
            let x = if ints::negative(x) { ints::neg(x) } else { x };
            self.set(Res(symcore::mul(a.res(), x), true));
            return Ok(());
        }
        if let (Some(x), Some(y), Some(m)) = (a.konst(), e.konst(), m.konst()) {
            if m.is_zero() {
                return err("zero modulus");
            }
            *self = cst(x.modpow(&y.abs(), &m));
            return Ok(());
        }
        inconclusive("exponentiation with an unknown modulus")
    }
    pub fn nnmod(&mut self, a: &BigNumRef, m: &BigNumRef, _c: &mut BigNumContext) -> R<()> {
        if let Res(i, _) = a.v {
            if m.is_n() {
                self.set(Res(i, true));
                return Ok(());
            }
            inconclusive("a residue is reduced by another modulus");
        }
        if let (Some(x), Some(m)) = (a.konst(), m.konst()) {
            return self.const_mod(x, m);
        }
        if m.is_field() {
            self.reduced(a.int(), m.konst().unwrap());
            return Ok(());
        }
        inconclusive("reduction by an unknown modulus")
    }
    pub fn exp(&mut self, a: &BigNumRef, e: &BigNumRef, _c: &mut BigNumContext) -> R<()> {
        match (a.konst(), e.konst()) {
            (Some(x), Some(y)) => {
                let mut r = BigInt::one();
                let n = y.bits();
                for i in (0..n).rev() {
                    r = &r * &r;
                    if ((&y >> i as usize) % 2i32).is_one() {
                        r *= &x;
                    }
                }
                *self = cst(r);
                Ok(())
            }
            _ => inconclusive("symbolic power"),
        }
    }
    pub fn mod_inverse(&mut self, a: &BigNumRef, m: &BigNumRef, _c: &mut BigNumContext) -> R<()> {
        if m.is_n() {
            if let Some(v) = a.konst() {
                if v.is_zero() {
                    return err("no inverse");
                }
            }
            self.set(Res(symcore::neg(a.res()), true));
            return Ok(());
        }
        if let (Some(x), Some(m)) = (a.konst(), m.konst()) {
            let (mut r0, mut r1) = (m.clone(), ((&x % &m) + &m) % &m);
            let (mut t0, mut t1) = (BigInt::zero(), BigInt::one());
            while !r1.is_zero() {
                let q = &r0 / &r1;
                let r = &r0 - &q * &r1;
                r0 = r1;
                r1 = r;
                let t = &t0 - &q * &t1;
                t0 = t1;
                t1 = t;
            }
            if !r0.is_one() {
                return err("no inverse");
            }
            return self.const_mod(t0, m);
        }
        if m.is_field() {
            let q = m.konst().unwrap();
            let unit = match ints::range(a.int()) {
                Some((lo, hi)) => lo.is_positive() && hi < q,
                None => false,
            };
            if unit {
                symcore::engine::assume_nonzero(a.int());
            } else if symcore::is_zero(a.int()) {
                return err("no inverse");
            }
            let id = symcore::inv(a.int());
            self.set_mod(id, m);
            return Ok(());
        }
        inconclusive("inverse with an unknown modulus")
    }
    pub fn set_negative(&mut self, negative: bool) {
        if let Int(i) = self.v {
            if ints::negative(i) != negative {
                self.v = Int(ints::neg(i));
            }
        }
    }
    pub fn is_negative(&self) -> bool {
        match self.v {
            Int(i) => ints::negative(i),
            _ => false,
        }
    }
    pub fn lshift1(&mut self, a: &BigNumRef) -> R<()> {
        self.v = Int(ints::mul(a.int(), symcore::int(2)));
        Ok(())
    }
    pub fn lshift(&mut self, a: &BigNumRef, n: i32) -> R<()> {
        self.v = Int(ints::mul(a.int(), symcore::big(ints::pow2(n as u32))));
        Ok(())
    }
    pub fn rshift1(&mut self, a: &BigNumRef) -> R<()> {
        self.rshift(a, 1)
    }
    pub fn rshift(&mut self, a: &BigNumRef, n: i32) -> R<()> {
        match a.konst() {
            Some(v) => {
                let m = v.abs() >> n as usize;
                *self = cst(if v.is_negative() { -m } else { m });
                Ok(())
            }
            None => inconclusive("shift of a symbolic integer"),
        }
    }
    /// compares absolute values
    pub fn ucmp(&self, o: &BigNumRef) -> Ordering {
        let abs = |b: &BigNumRef| match b.v {
            Int(x) if ints::negative(x) => BigNumRef { v: Int(ints::neg(x)) },
            v => BigNumRef { v },
        };
        abs(self).order(&abs(o))
    }
    fn same(&self, o: &BigNumRef) -> bool {
        match (self.v, o.v) {
            (Int(x), Int(y)) => {
                // ranges that do not meet
                if let (Some(a), Some(b)) = (ints::range(x), ints::range(y)) {
                    if a.1 < b.0 || b.1 < a.0 {
                        return false;
                    }
                }
                symcore::eq(x, y)
            }
            (Res(..), Int(y)) | (Int(y), Res(..)) if k(y).map(|v| v.is_zero()).unwrap_or(false) => {
                false
            }
            _ => {
                let (x, y) = (self.res(), o.res());
                let r = symcore::eq(x, y);
                if !r && std::env::var("SYM_DEBUG").is_ok() {
                    eprintln!("unequal:\n  {}\n  {}", symcore::show(x), symcore::show(y));
                }
                r
            }
        }
    }
    fn order(&self, o: &BigNumRef) -> Ordering {
        if self.same(o) {
            return Ordering::Equal;
        }
        if let (Int(x), Int(y)) = (self.v, o.v) {
            let (d, e) = (ints::sub(x, y), ints::sub(y, x));
            if let Some(v) = ints::small(d) {
                return v.cmp(&BigInt::zero());
            }
            let mut r = None;
            // ranges that at most touch, of numbers that differ
            if let (Some(a), Some(b)) = (ints::range(x), ints::range(y)) {
                if a.1 <= b.0 {
                    r = Some(Ordering::Less);
                } else if b.1 <= a.0 {
                    r = Some(Ordering::Greater);
                }
            }
            for (i, o) in [(d, Ordering::Less), (e, Ordering::Greater)].iter() {
                if let (None, Some((lo, hi))) = (r, ints::range(*i)) {
                    if !hi.is_positive() {
                        r = Some(*o);
                    } else if !lo.is_negative() {
                        r = Some(o.reverse());
                    }
                }
            }
            let r = r.unwrap_or_else(|| {
                if symcore::engine::choose("order of two integers", 2) == 0 {
                    Ordering::Less
                } else {
                    Ordering::Greater
                }
            });
            let (n, p) = if r == Ordering::Less { (d, e) } else { (e, d) };
            ints::set_range(n, -ints::pow2(8192), BigInt::from(-1));
            ints::set_range(p, BigInt::one(), ints::pow2(8192));
            return r;
        }
        if let (Res(x, _), Res(y, _)) = (self.v, o.v) {
            // either, but the same each time
            static ORDER: Mutex<Vec<(Id, Id)>> = Mutex::new(Vec::new());
            let mut known = ORDER.lock().unwrap();
            for (a, b) in known.iter() {
                if symcore::engine::identical(x, *a) && symcore::engine::identical(y, *b) {
                    return Ordering::Less;
                }
                if symcore::engine::identical(x, *b) && symcore::engine::identical(y, *a) {
                    return Ordering::Greater;
                }
            }
            return if symcore::engine::choose("order of two residues", 2) == 0 {
                known.push((x, y));
                Ordering::Less
            } else {
                known.push((y, x));
                Ordering::Greater
            };
        }
        inconclusive("order of a residue and an integer")
    }
}
impl fmt::Debug for BigNumRef {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "bn")
    }
}
impl fmt::Debug for BigNum {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "bn")
    }
}
impl PartialEq for BigNumRef {
    fn eq(&self, o: &Self) -> bool {
        self.same(o)
    }
}
impl Eq for BigNumRef {}
impl PartialEq for BigNum {
    fn eq(&self, o: &Self) -> bool {
        self.same(o)
    }
}
impl Eq for BigNum {}
impl PartialOrd for BigNum {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.order(o))
    }
}
impl Ord for BigNum {
    fn cmp(&self, o: &Self) -> Ordering {
        self.order(o)
    }
}
