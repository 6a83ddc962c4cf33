//! Arithmetic modulo the group order, used only for the concrete shadow of
//! every node (a witness value), never as the deciding step.
use num_bigint::{BigInt, BigUint, Sign};
use num_integer::Integer;
use num_traits::{One, Zero};
use std::sync::OnceLock;

static P: OnceLock<BigUint> = OnceLock::new();
static SEED: OnceLock<u64> = OnceLock::new();

pub fn set_modulus(hex: &str) {
    let _ = P.set(BigUint::parse_bytes(hex.as_bytes(), 16).unwrap());
}
pub fn modulus() -> BigUint {
    P.get_or_init(|| {
        BigUint::parse_bytes(
            b"73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001",
            16,
        )
        .unwrap()
    })
    .clone()
}
fn seed() -> u64 {
    *SEED.get_or_init(|| {
        std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1)
    })
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Fp(pub BigUint);

impl Fp {
    pub fn from_int(v: &BigInt) -> Fp {
        let p = BigInt::from(modulus());
        let m = v.mod_floor(&p);
        Fp(m.to_biguint().unwrap())
    }
    pub fn ratio(a: &BigInt, b: &BigInt) -> Fp {
        if b.is_one() {
            return Fp::from_int(a);
        }
        Fp::from_int(a).mul(&Fp::from_int(b).inv())
    }
    pub fn add(&self, o: &Fp) -> Fp {
        let mut v = &self.0 + &o.0;
        let p = modulus();
        if v >= p {
            v -= p;
        }
        Fp(v)
    }
    pub fn neg(&self) -> Fp {
        if self.0.is_zero() {
            self.clone()
        } else {
            Fp(modulus() - &self.0)
        }
    }
    pub fn mul(&self, o: &Fp) -> Fp {
        Fp((&self.0 * &o.0) % modulus())
    }
    pub fn inv(&self) -> Fp {
        if self.0.is_zero() {
            return self.clone();
        }
        let p = BigInt::from(modulus());
        let g = BigInt::from(self.0.clone()).extended_gcd(&p);
        Fp::from_int(&g.x)
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_zero()
    }
    pub fn to_bytes_be(&self) -> Vec<u8> {
        self.0.to_bytes_be()
    }
    pub fn to_hex(&self) -> String {
        self.0.to_str_radix(16)
    }
    /// Deterministic pseudo-random value for a symbol name.
    pub fn derive(name: &str) -> Fp {
        let mut out = vec![];
        for i in 0..5u64 {
            let mut b = name.as_bytes().to_vec();
            b.extend_from_slice(&seed().to_be_bytes());
            b.extend_from_slice(&i.to_be_bytes());
            out.extend_from_slice(&fnv(&b).to_be_bytes());
        }
        Fp(BigUint::from(BigInt::from_bytes_be(Sign::Plus, &out).to_biguint().unwrap()) % modulus())
    }
}
