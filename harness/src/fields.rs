//! Fields owned by the harness (independent of the ones under test) and conversions.
use crate::util::{El, Rng};
use ark_ff::{BigInteger, PrimeField};
use num_bigint::BigUint;

macro_rules! fld {
    ($m:ident, $ty:ident, $n:literal, $p:literal, $g:literal) => {
        pub mod $m {
            use ark_ff::fields::{$ty, MontBackend, MontConfig};
            #[derive(MontConfig)]
            #[modulus = $p]
            #[generator = $g]
            pub struct Cfg;
            pub type F = $ty<MontBackend<Cfg, $n>>;
        }
    };
}

// production fields, moduli typed in from the standards
fld!(babybear, Fp64, 1, "2013265921", "31");
fld!(goldilocks, Fp64, 1, "18446744069414584321", "7");
fld!(bls12, Fp256, 4, "52435875175126190479447740508185965837690552500527637822603658699938581184513", "7");
fld!(bn256, Fp256, 4, "21888242871839275222246405745257275088548364400416034343698204186575808495617", "7");
fld!(pallas, Fp256, 4, "28948022309329048855892746252171976963363056481941560715954676764349967630337", "5");
fld!(vesta, Fp256, 4, "28948022309329048855892746252171976963363056481941647379679742748393362948097", "5");
// tiny fields: whole state spaces can be enumerated
fld!(f3, Fp64, 1, "3", "2");
fld!(f5, Fp64, 1, "5", "2");
fld!(f7, Fp64, 1, "7", "3");
fld!(f11, Fp64, 1, "11", "2");
fld!(f13, Fp64, 1, "13", "2");
fld!(f17, Fp64, 1, "17", "3");
fld!(f257, Fp64, 1, "257", "3");
fld!(f65537, Fp64, 1, "65537", "3");

pub fn modulus<F: PrimeField>() -> BigUint {
    BigUint::from_bytes_le(&F::MODULUS.to_bytes_le())
}

pub fn modulus_el<F: PrimeField>() -> El {
    let mut e = [0u64; 4];
    let l = F::MODULUS;
    let l = l.as_ref();
    e[..l.len()].copy_from_slice(l);
    e
}

pub fn to_el<F: PrimeField>(x: &F) -> El {
    let b = x.into_bigint();
    let l: &[u64] = b.as_ref();
    let mut e = [0u64; 4];
    e[..l.len()].copy_from_slice(l);
    e
}

pub fn of_el<F: PrimeField>(e: &El) -> F {
    let mut b = F::BigInt::default();
    let n = b.as_ref().len();
    b.as_mut().copy_from_slice(&e[..n]);
    F::from_bigint(b).expect("harness: non-canonical element")
}

pub fn to_els<F: PrimeField>(v: &[F]) -> Vec<El> {
    v.iter().map(to_el).collect()
}

pub fn of_els<F: PrimeField>(v: &[El]) -> Vec<F> {
    v.iter().map(of_el).collect()
}

pub fn of_big<F: PrimeField>(b: &BigUint) -> F {
    let r = b % modulus::<F>();
    let mut e = [0u64; 4];
    for (i, d) in r.to_u64_digits().iter().enumerate() {
        e[i] = *d;
    }
    of_el(&e)
}

pub fn to_big<F: PrimeField>(x: &F) -> BigUint {
    BigUint::from_bytes_le(&x.into_bigint().to_bytes_le())
}

/// Element whose internal (Montgomery) limbs are exactly `raw` (reduced first).
pub fn of_raw<F: PrimeField>(raw: &BigUint) -> F {
    let n = F::BigInt::default().as_ref().len() * 64;
    let p = modulus::<F>();
    let r = (BigUint::from(1u8) << n) % &p;
    let rinv = r.modpow(&(&p - 2u8), &p);
    of_big(&((raw % &p) * rinv))
}

pub fn rand<F: PrimeField>(rng: &mut Rng) -> F {
    let bits = F::MODULUS_BIT_SIZE as usize;
    loop {
        let mut b = F::BigInt::default();
        for (i, l) in b.as_mut().iter_mut().enumerate() {
            let left = bits.saturating_sub(64 * i);
            let m = if left >= 64 { u64::MAX } else { (1u64 << left) - 1 };
            *l = rng.next() & m;
        }
        if let Some(x) = F::from_bigint(b) {
            return x;
        }
    }
}

/// d^-1 mod (p-1), if it exists.
pub fn root_exp<F: PrimeField>(d: usize) -> Option<Vec<u64>> {
    let m = modulus::<F>() - 1u8;
    let d = BigUint::from(d as u64);
    // extended Euclid by brute force over the small degree: find k with (k*m + 1) % d == 0
    let dd: u64 = d.to_u64_digits()[0];
    for k in 0..dd {
        let num = BigUint::from(k) * &m + 1u8;
        if (&num % dd).bits() == 0 {
            let e = num / dd;
            return Some((e % &m).to_u64_digits());
        }
    }
    None
}
