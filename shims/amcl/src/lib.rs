//! Group elements are discrete logarithms, a pairing multiplies them.
pub mod rand {
    /// Seeded generator: only the seed matters.
    #[derive(Clone)]
    pub struct RAND {
        pub(crate) seed: Vec<u8>,
        pub(crate) used: u32,
    }
    impl RAND {
        pub fn new() -> RAND {
            RAND { seed: vec![], used: 0 }
        }
        pub fn clean(&mut self) {
            self.seed.clear();
            self.used = 0;
        }
        pub fn seed(&mut self, rawlen: usize, raw: &[u8]) {
            self.seed.extend_from_slice(&raw[..rawlen.min(raw.len())]);
        }
    }
}

pub mod bn254 {
    pub mod rom {
        pub const MODBYTES: usize = 32;
        pub const CURVE_ORDER: [i64; 5] =
            [0xD, 0x800000000010A1, 0x8000000007FF9F, 0x40000001BA344D, 0x25236482];
        pub const MODULUS: [i64; 5] =
            [0x13, 0x13A7, 0x80000000086121, 0x40000001BA344D, 0x25236482];
        pub const CURVE_GX: [i64; 5] =
            [0x12, 0x13A7, 0x80000000086121, 0x40000001BA344D, 0x25236482];
        pub const CURVE_GY: [i64; 5] = [1, 0, 0, 0, 0];
        pub const CURVE_PXA: [i64; 5] =
            [0xEE4224C803FB2B, 0x8BBB4898BF0D91, 0x7E8C61EDB6A464, 0x519EB62FEB8D8C, 0x61A10BB];
        pub const CURVE_PXB: [i64; 5] =
            [0x8C34C1E7D54CF3, 0x746BAE3784B70D, 0x8C5982AA5B1F4D, 0xBA737833310AA7, 0x516AAF9];
        pub const CURVE_PYA: [i64; 5] = [1, 0, 0, 0, 0];
        pub const CURVE_PYB: [i64; 5] = [2, 0, 0, 0, 0];
    }
    pub mod big {
        use super::rom::MODBYTES;
        use crate::rand::RAND;
        use std::cmp::Ordering;
        use symcore::engine::{choose, inconclusive};
        use symcore::ints::{self, Parsed};
        use symcore::{BigInt, Id};

        #[derive(Clone, Copy)]
        pub struct BIG(pub Id);

        /// a value taken modulo the group order
        fn reduced(id: Id) -> BIG {
            let r = ints::bn254_order();
            if let Some(v) = ints::integer(id) {
                return BIG(symcore::big(((v % &r) + &r) % &r));
            }
            ints::forget_range(id);
            ints::set_range(id, BigInt::from(0), r - 1);
            BIG(id)
        }
        /// the field element: constants above half the order are written as negative ones
        pub fn residue(id: Id) -> Id {
            match ints::integer(id) {
                Some(v) => {
                    let r = ints::bn254_order();
                    let v = ((v % &r) + &r) % &r;
                    let half: BigInt = r.clone() / 2;
                    symcore::big(if v > half { v - r } else { v })
                }
                None => id,
            }
        }
        fn order(m: &BIG) -> BigInt {
            match ints::integer(m.0) {
                Some(ref v) if *v == ints::bn254_order() => v.clone(),
                _ => inconclusive("modulus is not the group order"),
            }
        }
        impl BIG {
            pub fn new() -> BIG {
                BIG(0)
            }
            pub fn new_int(x: isize) -> BIG {
                BIG(symcore::int(x as i64))
            }
            pub fn new_ints(a: &[i64]) -> BIG {
                let mut v = BigInt::from(0);
                for x in a.iter().rev() {
                    v = (v << 56usize) + BigInt::from(*x);
                }
                BIG(symcore::big(v))
            }
            pub fn zero(&mut self) {
                self.0 = 0;
            }
            pub fn one(&mut self) {
                self.0 = symcore::int(1);
            }
            pub fn iszilch(&self) -> bool {
                symcore::is_zero(self.0)
            }
            pub fn isunity(&self) -> bool {
                symcore::eq(self.0, symcore::int(1))
            }
            pub fn add(&mut self, r: &BIG) {
                if let (Some(x), Some(y)) = (ints::integer(self.0), ints::integer(r.0)) {
                    self.0 = symcore::big(x + y);
                    return;
                }
                let k = match (ints::range(self.0), ints::range(r.0)) {
                    (Some(a), Some(b)) => Some((a.0 + b.0, a.1 + b.1)),
                    _ => None,
                };
                let id = symcore::add(residue(self.0), residue(r.0));
                if ints::integer(id).is_some() {
                    self.0 = symcore::big((ints::integer(id).unwrap() + ints::bn254_order()) % ints::bn254_order());
                    return;
                }
                ints::forget_range(id);
                self.0 = match k {
                    Some((lo, hi)) => {
                        ints::set_range(id, lo, hi);
                        id
                    }
                    None => id,
                };
            }
            pub fn sub(&mut self, r: &BIG) {
                self.0 = ints::sub(self.0, r.0);
            }
            pub fn inc(&mut self, x: isize) {
                self.0 = ints::add(self.0, symcore::int(x as i64));
            }
            pub fn dec(&mut self, x: isize) {
                self.0 = ints::sub(self.0, symcore::int(x as i64));
            }
            pub fn rmod(&mut self, m: &BIG) {
                if let (Some(v), Some(p)) = (ints::integer(self.0), ints::integer(m.0)) {
                    let x = ((v % &p) + &p) % &p;
                    self.0 = symcore::big(x);
                    return;
                }
                let r = order(m);
                if let Some(v) = ints::integer(self.0) {
                    let x = ((v % &r) + &r) % &r;
                    self.0 = symcore::big(x);
                    return;
                }
                *self = reduced(self.0);
            }
            pub fn modmul(a: &BIG, b: &BIG, m: &BIG) -> BIG {
                let r = order(m);
                if let (Some(x), Some(y)) = (ints::integer(a.0), ints::integer(b.0)) {
                    return BIG(symcore::big((x * y) % &r));
                }
                reduced(symcore::mul(residue(a.0), residue(b.0)))
            }
            pub fn modneg(a: &BIG, m: &BIG) -> BIG {
                let r = order(m);
                if let Some(v) = ints::integer(a.0) {
                    // not reduced: the negative of zero is the order
                    return BIG(symcore::big(&r - (v % &r)));
                }
                if symcore::is_zero(a.0) {
                    return BIG(symcore::big(r));
                }
                reduced(symcore::neg(a.0))
            }
            pub fn invmodp(&mut self, m: &BIG) {
                order(m);
                if symcore::is_zero(self.0) {
                    panic!("inverting zero does not end");
                }
                if let Some(v) = ints::integer(self.0) {
                    let r = ints::bn254_order();
                    let e: BigInt = r.clone() - 2;
                    self.0 = symcore::big(v.modpow(&e, &r));
                    return;
                }
                *self = reduced(symcore::inv(self.0));
            }
            pub fn powmod(&mut self, e: &BIG, m: &BIG) -> BIG {
                order(m);
                match ints::integer(e.0) {
                    // a high power is an unknown function of base and exponent
                    Some(v) if v > BigInt::from(4096) && ints::integer(self.0).is_none() => {
                        let mut k = self.bytes();
                        k.extend_from_slice(v.to_string().as_bytes());
                        reduced(symcore::oracle("high power", &k))
                    }
                    Some(v) if v < BigInt::from(100_000) => {
                        let n: u64 = v.to_string().parse().unwrap();
                        let id = symcore::pow(self.0, n);
                        if n == 0 || ints::integer(id).is_some() {
                            BIG(id)
                        } else {
                            reduced(id)
                        }
                    }
                    _ => inconclusive("power with a symbolic exponent"),
                }
            }
            pub fn randomnum(m: &BIG, rng: &mut RAND) -> BIG {
                order(m);
                if rng.seed.len() == 128 {
                    return reduced(symcore::random("element"));
                }
                let mut k = rng.seed.clone();
                k.extend_from_slice(&rng.used.to_be_bytes());
                rng.used += 1;
                reduced(symcore::oracle("seeded element", &k))
            }
            pub fn tobytes(&mut self, b: &mut [u8]) {
                let v = self.bytes();
                b[..MODBYTES].copy_from_slice(&v);
            }
            fn bytes(&self) -> Vec<u8> {
                let mut out = vec![0u8; MODBYTES];
                if ints::integer(self.0).is_none() && ints::range(self.0).is_none() {
                    ints::set_range(self.0, BigInt::from(0), ints::bn254_order() - 1);
                }
                let v = ints::int_bytes(self.0);
                let k = v.len().min(MODBYTES);
                out[MODBYTES - k..].copy_from_slice(&v[v.len() - k..]);
                out
            }
            pub fn frombytes(b: &[u8]) -> BIG {
                match ints::parse_bytes(&b[..MODBYTES]) {
                    Parsed::Int(i) => BIG(i),
                    Parsed::Res(..) => inconclusive("a residue is read as a group order element"),
                }
            }
            pub fn to_hex(&mut self) -> String {
                self.bytes().iter().map(|b| format!("{:02X}", b)).collect()
            }
            pub fn from_hex(s: String) -> BIG {
                match BigInt::parse_bytes(s.as_bytes(), 16) {
                    Some(v) => {
                        let b = v.to_bytes_be().1;
                        let mut out = vec![0u8; MODBYTES];
                        let k = b.len().min(MODBYTES);
                        out[MODBYTES - k..].copy_from_slice(&b[b.len() - k..]);
                        BIG::frombytes(&out)
                    }
                    None => inconclusive("not a hexadecimal number"),
                }
            }
        }
        impl PartialEq for BIG {
            fn eq(&self, o: &BIG) -> bool {
                if let (Some(x), Some(y)) = (ints::integer(self.0), ints::integer(o.0)) {
                    return x == y;
                }
                symcore::eq(residue(self.0), residue(o.0))
            }
        }
        impl PartialOrd for BIG {
            fn partial_cmp(&self, o: &BIG) -> Option<Ordering> {
                if let (Some(x), Some(y)) = (ints::integer(self.0), ints::integer(o.0)) {
                    return x.partial_cmp(&y);
                }
                if symcore::eq(residue(self.0), residue(o.0)) {
                    return Some(Ordering::Equal);
                }
                if let (Some(a), Some(b)) = (ints::range(self.0), ints::range(o.0)) {
                    if a.1 <= b.0 {
                        return Some(Ordering::Less);
                    }
                    if b.1 <= a.0 {
                        return Some(Ordering::Greater);
                    }
                }
                Some(if choose("order of two group order elements", 2) == 0 {
                    Ordering::Less
                } else {
                    Ordering::Greater
                })
            }
        }
    }
    use symcore::BigInt;
    /// Coordinates that are no point: a value of its own, or what the library takes for infinity.
    fn off_curve(infinity: bool) -> symcore::Id {
        let mut l = OFF.lock().unwrap();
        let id = if infinity { symcore::int(0) } else { symcore::free("coordinates off the curve") };
        if !infinity {
            symcore::engine::assume_nonzero(id);
            l.push(id);
        }
        id
    }
    static OFF: std::sync::Mutex<Vec<symcore::Id>> = std::sync::Mutex::new(vec![]);
    static COORDINATES: std::sync::Mutex<Vec<(symcore::Id, symcore::Id, u8)>> =
        std::sync::Mutex::new(vec![]);
    /// an affine coordinate of the point
    fn coordinate(point: symcore::Id, which: u8) -> big::BIG {
        let c = symcore::free("coordinate");
        COORDINATES.lock().unwrap().push((c, point, which));
        big::BIG(c)
    }
    /// the point with these affine coordinates; infinity if there is none
    fn with_coordinates(x: &big::BIG, y: &big::BIG) -> symcore::Id {
        if symcore::is_const(x.0).is_some() && symcore::is_const(y.0).is_some() {
            return symcore::int(1);
        }
        let l = COORDINATES.lock().unwrap();
        let px = l.iter().find(|e| e.0 == x.0 && e.2 == 0).map(|e| e.1);
        let py = l.iter().find(|e| e.0 == y.0 && e.2 == 1).map(|e| e.1);
        match (px, py) {
            (Some(p), Some(q)) if p == q => {
                if OFF.lock().unwrap().contains(&p) {
                    symcore::int(0)
                } else {
                    p
                }
            }
            _ => symcore::engine::inconclusive("a point of unrelated coordinates"),
        }
    }
    macro_rules! group {
        ($n:ident, $ty:expr, $len:expr, $coords:expr) => {
            #[derive(Clone, Copy)]
            pub struct $n(pub symcore::Id);
            impl $n {
                pub fn new() -> $n {
                    $n(0)
                }
                pub fn inf(&mut self) {
                    self.0 = 0;
                }
                pub fn is_infinity(&self) -> bool {
                    symcore::is_zero(self.0)
                }
                pub fn isunity(&self) -> bool {
                    symcore::is_zero(self.0)
                }
                pub fn add(&mut self, o: &$n) {
                    self.0 = symcore::add(self.0, o.0);
                }
                pub fn sub(&mut self, o: &$n) {
                    self.0 = symcore::sub(self.0, o.0);
                }
                pub fn neg(&mut self) {
                    self.0 = symcore::neg(self.0);
                }
                pub fn equals(&self, o: &$n) -> bool {
                    symcore::eq(self.0, o.0)
                }
                fn enc(&self) -> Vec<u8> {
                    symcore::to_tag(self.0, $ty, 4, $len)
                }
                fn dec(b: &[u8]) -> $n {
                    match symcore::from_tag(&b[..$len.min(b.len())], $ty) {
                        Some(i) => $n(i),
                        None => symcore::engine::inconclusive("unknown encoding of a point"),
                    }
                }
                /// coordinates as the library writes them; the point is in their low bytes
                pub fn to_hex(&self) -> String {
                    let t = symcore::to_tag(self.0, $ty, 4, $coords * 24);
                    let w: Vec<String> = t
                        .chunks(24)
                        .map(|c| {
                            let h: String = c.iter().map(|b| format!("{:02X}", b)).collect();
                            format!("1 {:0>64}", h)
                        })
                        .collect();
                    w.join(" ")
                }
                pub fn from_hex(s: String) -> $n {
                    let mut w = s.split_whitespace();
                    let mut t = vec![];
                    for _ in 0..$coords {
                        let _: i32 = w.next().unwrap().parse().unwrap();
                        let x = BigInt::parse_bytes(w.next().unwrap().as_bytes(), 16).unwrap();
                        let b = x.to_bytes_be().1;
                        if b.len() <= 24 {
                            t.extend(vec![0u8; 24 - b.len()]);
                        }
                        t.extend(b);
                    }
                    if t.iter().all(|b| *b == 0) {
                        return $n(off_curve(true));
                    }
                    match symcore::from_tag(&t, $ty) {
                        Some(i) => $n(i),
                        None => $n(off_curve(false)),
                    }
                }
            }
            impl PartialEq for $n {
                fn eq(&self, o: &$n) -> bool {
                    symcore::eq(self.0, o.0)
                }
            }
        };
    }
    pub mod ecp {
        use super::big::BIG;
        use super::{coordinate, off_curve, with_coordinates, BigInt};
        group!(ECP, 0x31, 65, 3);
        impl ECP {
            pub fn new_bigs(x: &BIG, y: &BIG) -> ECP {
                ECP(with_coordinates(x, y))
            }
            pub fn getx(&self) -> BIG {
                coordinate(self.0, 0)
            }
            pub fn gety(&self) -> BIG {
                coordinate(self.0, 1)
            }
            /// hashing to the curve
            pub fn new_big(x: &BIG) -> ECP {
                let mut x = *x;
                let mut b = [0u8; 32];
                x.tobytes(&mut b);
                ECP(symcore::oracle("point", &b))
            }
            pub fn tobytes(&self, b: &mut [u8], _compress: bool) {
                b[..65].copy_from_slice(&self.enc());
            }
            pub fn frombytes(b: &[u8]) -> ECP {
                ECP::dec(b)
            }
        }
    }
    pub mod ecp2 {
        use super::fp2::FP2;
        use super::{coordinate, off_curve, with_coordinates, BigInt};
        group!(ECP2, 0x32, 128, 6);
        impl ECP2 {
            pub fn new_fp2s(x: &FP2, y: &FP2) -> ECP2 {
                ECP2(with_coordinates(&x.0, &y.0))
            }
            pub fn getx(&self) -> FP2 {
                FP2(coordinate(self.0, 0))
            }
            pub fn gety(&self) -> FP2 {
                FP2(coordinate(self.0, 1))
            }
            pub fn tobytes(&self, b: &mut [u8]) {
                b[..128].copy_from_slice(&self.enc());
            }
            pub fn frombytes(b: &[u8]) -> ECP2 {
                ECP2::dec(b)
            }
        }
    }
    pub mod fp2 {
        use super::big::BIG;
        #[derive(Clone, Copy)]
        pub struct FP2(pub BIG);
        impl FP2 {
            pub fn new_bigs(a: &BIG, _b: &BIG) -> FP2 {
                FP2(*a)
            }
        }
    }
    pub mod fp12 {
        use super::{off_curve, BigInt};
        group!(FP12, 0x33, 384, 12);
        impl FP12 {
            pub fn reduce(&mut self) {}
            pub fn mul(&mut self, o: &FP12) {
                self.0 = symcore::add(self.0, o.0);
            }
            pub fn conj(&mut self) {
                self.0 = symcore::neg(self.0);
            }
            pub fn tobytes(&mut self, b: &mut [u8]) {
                b[..384].copy_from_slice(&self.enc());
            }
        }
    }
    pub mod pair {
        use super::big::{residue, BIG};
        use super::ecp::ECP;
        use super::ecp2::ECP2;
        use super::fp12::FP12;
        pub fn ate(p: &ECP2, q: &ECP) -> FP12 {
            FP12(symcore::mul(p.0, q.0))
        }
        pub fn ate2(p: &ECP2, q: &ECP, r: &ECP2, s: &ECP) -> FP12 {
            FP12(symcore::add(symcore::mul(p.0, q.0), symcore::mul(r.0, s.0)))
        }
        pub fn fexp(x: &FP12) -> FP12 {
            *x
        }
        pub fn g1mul(p: &ECP, e: &mut BIG) -> ECP {
            ECP(symcore::mul(p.0, residue(e.0)))
        }
        pub fn g2mul(p: &ECP2, e: &BIG) -> ECP2 {
            ECP2(symcore::mul(p.0, residue(e.0)))
        }
        pub fn gtpow(x: &FP12, e: &BIG) -> FP12 {
            FP12(symcore::mul(x.0, residue(e.0)))
        }
    }
}
