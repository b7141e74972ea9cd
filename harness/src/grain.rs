//! The published constant generation (Grain LFSR), written from the specification.
use crate::fields::{modulus, of_big};
use crate::refm::Mat;
use ark_ff::PrimeField;
use num_bigint::BigUint;
use std::collections::VecDeque;

pub struct Grain {
    s: VecDeque<u8>,
    n: usize,
}

impl Grain {
    pub fn new(n: usize, t: usize, rf: usize, rp: usize, sbox: u64) -> Self {
        let mut s = VecDeque::new();
        for (v, w) in [(1u64, 2), (sbox, 4), (n as u64, 12), (t as u64, 12), (rf as u64, 10), (rp as u64, 10), ((1 << 30) - 1, 30)] {
            for i in (0..w).rev() {
                s.push_back(((v >> i) & 1) as u8);
            }
        }
        let mut g = Grain { s, n };
        for _ in 0..160 {
            g.step();
        }
        g
    }
    fn step(&mut self) -> u8 {
        let s = &self.s;
        let b = s[62] ^ s[51] ^ s[38] ^ s[23] ^ s[13] ^ s[0];
        self.s.pop_front();
        self.s.push_back(b);
        b
    }
    fn bit(&mut self) -> u8 {
        loop {
            let x = self.step();
            let y = self.step();
            if x == 1 {
                return y;
            }
        }
    }
    pub fn int(&mut self) -> BigUint {
        let mut r = BigUint::from(0u8);
        for _ in 0..self.n {
            r = (r << 1u8) + self.bit();
        }
        r
    }
    pub fn below(&mut self, p: &BigUint) -> BigUint {
        loop {
            let x = self.int();
            if x < *p {
                return x;
            }
        }
    }
}

pub struct P2Tables<R: PrimeField> {
    pub rc: Mat<R>,
    pub diag_m_1: Vec<R>,
}

/// `attempt`: which candidate diagonal the published search accepted (widths above 3).
pub fn poseidon2<R: PrimeField>(t: usize, rf: usize, rp: usize, attempt: usize) -> P2Tables<R> {
    let p = modulus::<R>();
    let mut g = Grain::new(R::MODULUS_BIT_SIZE as usize, t, rf, rp, 0);
    let mut rc = vec![];
    for r in 0..rf + rp {
        let mut row = vec![R::zero(); t];
        let k = if r >= rf / 2 && r < rf / 2 + rp { 1 } else { t };
        for x in row.iter_mut().take(k) {
            *x = of_big(&g.below(&p));
        }
        rc.push(row);
    }
    let diag_m_1 = match t {
        2 => vec![R::from(1u64), R::from(2u64)],
        3 => vec![R::from(1u64), R::from(1u64), R::from(2u64)],
        _ => {
            let mut d = vec![];
            for _ in 0..=attempt {
                d = (0..t).map(|_| of_big::<R>(&g.int()) - R::one()).collect();
            }
            d
        }
    };
    P2Tables { rc, diag_m_1 }
}

pub fn poseidon<R: PrimeField>(t: usize, rf: usize, rp: usize) -> (Mat<R>, Mat<R>) {
    let p = modulus::<R>();
    let mut g = Grain::new(R::MODULUS_BIT_SIZE as usize, t, rf, rp, 1);
    let rc: Mat<R> = (0..rf + rp).map(|_| (0..t).map(|_| of_big(&g.below(&p))).collect()).collect();
    let xy: Vec<R> = (0..2 * t).map(|_| of_big(&g.int())).collect();
    let mds = (0..t)
        .map(|i| (0..t).map(|j| (xy[i] + xy[t + j]).inverse().unwrap()).collect())
        .collect();
    (mds, rc)
}
