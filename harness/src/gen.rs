//! Workload generation: hostile states, perturbation groups, states steered from inside.
use crate::inst::{Dyn, Kind};
use crate::util::*;
use num_bigint::BigUint;
use std::sync::OnceLock;

pub fn el(x: u64) -> El {
    [x, 0, 0, 0]
}

// ---------------------------------------------------------------- literal dictionary
/// Integer literals of the (non-table) sources of the tree under test: what a comparison in the
/// code could single out. Classic fuzzing dictionary; contributes inputs, never verdicts.
pub fn dictionary() -> &'static [u64] {
    static D: OnceLock<Vec<u64>> = OnceLock::new();
    D.get_or_init(|| {
        let mut out = std::collections::BTreeSet::new();
        let mut stack = vec![std::path::PathBuf::from(format!("{}/src", cfg().repo))];
        while let Some(p) = stack.pop() {
            let Ok(rd) = std::fs::read_dir(&p) else { continue };
            for e in rd.flatten() {
                let path = e.path();
                if path.is_dir() {
                    stack.push(path);
                    continue;
                }
                let Ok(s) = std::fs::read_to_string(&path) else { continue };
                for line in s.lines() {
                    if !line.trim_start().starts_with("//") {
                        literals(line, &mut out);
                    }
                }
            }
        }
        out.into_iter().collect()
    })
}

fn literals(line: &str, out: &mut std::collections::BTreeSet<u64>) {
    let b = line.as_bytes();
    let mut i = 0;
    let mut in_str = false;
    while i < b.len() {
        if b[i] == b'"' && (i == 0 || b[i - 1] != b'\\') {
            in_str = !in_str;
            i += 1;
            continue;
        }
        let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
        if !in_str && b[i].is_ascii_digit() && (i == 0 || !word(b[i - 1])) {
            let st = i;
            while i < b.len() && word(b[i]) {
                i += 1;
            }
            let mut w: String = line[st..i].chars().filter(|c| *c != '_').collect();
            for suf in ["usize", "u128", "u64", "u32", "u16", "u8", "i128", "i64", "i32", "i16", "i8", "isize"] {
                if let Some(x) = w.strip_suffix(suf) {
                    w = x.to_string();
                    break;
                }
            }
            let v = if let Some(h) = w.strip_prefix("0x") {
                u64::from_str_radix(h, 16).ok()
            } else if let Some(h) = w.strip_prefix("0b") {
                u64::from_str_radix(h, 2).ok()
            } else if let Some(h) = w.strip_prefix("0o") {
                u64::from_str_radix(h, 8).ok()
            } else {
                w.parse().ok()
            };
            if let Some(v) = v {
                out.insert(v);
                // `1 << k`
                let rest = line[i..].trim_start();
                if v < 256 && rest.starts_with("<<") {
                    let k: String = rest[2..].trim_start().chars().take_while(|c| c.is_ascii_digit()).collect();
                    if let Ok(k) = k.parse::<u32>() {
                        if k < 56 {
                            out.insert(v << k);
                        }
                    }
                }
            }
            continue;
        }
        i += 1;
    }
}

/// Dictionary values usable as sizes or counts, with neighbours.
pub fn dict_sizes(min: u64, max: u64) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    for d in dictionary() {
        for x in [d.saturating_sub(1), *d, d + 1] {
            if x >= min && x <= max {
                v.push(x as usize);
            }
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}

// ---------------------------------------------------------------- special values
pub fn core(d: &dyn Dyn) -> Vec<El> {
    let m1 = d.neg(&el(1));
    let mut v = vec![el(0), el(1), m1, el(2), d.neg(&el(2)), d.red(&BigUint::from(3u8))];
    if d.bits() < 3 {
        v = vec![el(0), el(1), m1];
    }
    for x in v.iter_mut() {
        *x = d.red(&big(x));
    }
    v.sort();
    v.dedup();
    v
}

pub fn big(e: &El) -> BigUint {
    let mut b = vec![];
    for l in e {
        b.extend_from_slice(&l.to_le_bytes());
    }
    BigUint::from_bytes_le(&b)
}

pub fn specials(d: &dyn Dyn) -> Vec<El> {
    let mut v = core(d);
    let p = big(&d.modulus());
    let half = &p / 2u8;
    v.push(d.red(&half));
    v.push(d.red(&(&half + 1u8)));
    for k in [1usize, 2, 3, 4, 7, 8, 15, 16, 24, 30, 31, 32, 33, 40, 48, 62, 63, 64, 65, 96, 127, 128, 129, 191, 192, 193, 224, 250, 252, 253, 254] {
        if k < d.bits() {
            let q = BigUint::from(1u8) << k;
            v.push(d.red(&q));
            v.push(d.red(&(&q - 1u8)));
            v.push(d.red(&(&q + 1u8)));
            v.push(d.red(&(&p - &q)));
        }
    }
    for k in (0..d.bits()).step_by(16) {
        v.push(d.raw(&(BigUint::from(1u8) << k)));
        v.push(d.raw(&((BigUint::from(1u8) << (k + 1)) - 1u8)));
    }
    // roots of unity of small order, inverses of small numbers
    let pm1 = &p - 1u8;
    for k in [3u32, 4, 5, 6, 7, 8, 16, 32] {
        if (&pm1 % k) == BigUint::from(0u8) {
            for b in 2u32..20 {
                let r = BigUint::from(b).modpow(&(&pm1 / k), &p);
                if r != BigUint::from(1u8) {
                    v.push(d.red(&r));
                    break;
                }
            }
        }
    }
    for k in [2u32, 3, 4, 5, 7] {
        v.push(d.red(&BigUint::from(k).modpow(&(&p - 2u8), &p)));
    }
    v.push(d.raw(&BigUint::from(0xffff_ffffu64)));
    v.push(d.raw(&BigUint::from(u64::MAX)));
    v.push(d.raw(&(&p - 1u8)));
    v.push(d.raw(&(&p - 2u8)));
    for x in 0..20u64 {
        v.push(d.red(&BigUint::from(x)));
    }
    for c in d.consts().iter().take(24) {
        v.push(*c);
        v.push(d.neg(c));
    }
    for x in dictionary() {
        v.push(d.red(&BigUint::from(*x)));
    }
    v.sort();
    v.dedup();
    v
}

/// Kinds of steering per layer and position.
pub const CLASSES: usize = 15;

fn fit_small(d: &dyn Dyn, x: u64) -> El {
    d.red(&BigUint::from(x))
}

pub struct Gen<'a> {
    pub d: &'a dyn Dyn,
    pub rng: Rng,
    pub core: Vec<El>,
    pub sp: Vec<El>,
    pub p: El,
}

impl<'a> Gen<'a> {
    pub fn new(d: &'a dyn Dyn, stream: &str) -> Self {
        Gen { d, rng: Rng::new(cfg().seed, &format!("{}/{}", stream, d.name().split('#').next().unwrap_or(""))), core: core(d), sp: specials(d), p: d.modulus() }
    }
    pub fn rnd(&mut self) -> El {
        self.d.rnd(&mut self.rng)
    }
    pub fn rvec(&mut self) -> Vec<El> {
        (0..self.d.t()).map(|_| self.d.rnd(&mut self.rng)).collect()
    }
    fn fit(&self, mut e: El) -> El {
        let b = big(&e);
        if b >= big(&self.p) {
            e = self.d.red(&b);
        }
        e
    }
    /// An element of a random kind.
    pub fn any(&mut self) -> El {
        match self.rng.below(8) {
            0 | 1 => *self.rng.pick(&self.core),
            2 | 3 => *self.rng.pick(&self.sp),
            4 => {
                let k = self.rng.below(64);
                {
                    let x = self.rng.next() >> k;
                    self.fit(el(x))
                }
            }
            5 => {
                // few limbs set
                let mut e = [0u64; 4];
                let limbs = self.d.bits().div_ceil(64);
                let i = self.rng.below(limbs);
                e[i] = self.rng.next() >> self.rng.below(64);
                self.fit(e)
            }
            6 => {
                let raw = self.rng.next() >> self.rng.below(64);
                self.d.raw(&BigUint::from(raw))
            }
            _ => self.d.rnd(&mut self.rng),
        }
    }
    pub fn tweak(&mut self, e: &El) -> El {
        let d = self.d;
        match self.rng.below(7) {
            0 => d.add(e, &el(1)),
            1 => d.add(e, &d.neg(&el(1))),
            2 => d.neg(e),
            3 => {
                let k = self.rng.below(d.bits().saturating_sub(1).max(1));
                let mut x = *e;
                x[k / 64] ^= 1 << (k % 64);
                self.fit(x)
            }
            4 => {
                let limbs = d.bits().div_ceil(64);
                let i = self.rng.below(limbs);
                let mut x = *e;
                x[i] = self.rng.next() >> (if i == limbs - 1 { 64 * limbs - d.bits() + 1 } else { 0 });
                self.fit(x)
            }
            5 => d.add(e, e),
            _ => self.any(),
        }
    }

    /// The systematic part: every structured family, all positions and pairs.
    pub fn structured(&mut self, full: bool) -> Vec<(&'static str, Vec<El>)> {
        let d = self.d;
        let t = d.t();
        let mut v: Vec<(&'static str, Vec<El>)> = vec![];
        for s in self.sp.clone() {
            v.push(("constant state", vec![s; t]));
        }
        for _ in 0..3 {
            let a = self.rnd();
            v.push(("constant state", vec![a; t]));
        }
        for base in [0u64, 1, 2, 100, 1 << 20] {
            let seq: Vec<El> = (0..t).map(|i| d.red(&BigUint::from(base + i as u64))).collect();
            v.push(("sequence", seq.clone()));
            v.push(("sequence", seq.iter().rev().cloned().collect()));
            v.push(("sequence", seq.iter().map(|x| d.neg(x)).collect()));
        }
        for i in 0..t {
            let r = self.rnd();
            for s in self.core.clone().into_iter().chain([r]) {
                let mut x = vec![el(0); t];
                x[i] = s;
                v.push(("one hot", x));
                let mut x = vec![el(1); t];
                x[i] = s;
                v.push(("one hot", x));
                let mut x = self.rvec();
                x[i] = s;
                v.push(("special element", x));
            }
            let sps = self.sp.clone();
            let step = if full { 1 } else { (sps.len() / 24).max(1) };
            let off = self.rng.below(step);
            for s in sps.iter().skip(off).step_by(step) {
                let mut x = self.rvec();
                x[i] = *s;
                v.push(("special element", x));
            }
            for l in dictionary() {
                if *l > 24 {
                    let mut x = self.rvec();
                    x[i] = d.red(&BigUint::from(*l));
                    v.push(("dictionary element", x));
                }
            }
            let mut x = self.rvec();
            x[..=i].iter_mut().for_each(|e| *e = el(0));
            v.push(("zero prefix", x));
            let mut x = self.rvec();
            x[i..].iter_mut().for_each(|e| *e = el(0));
            v.push(("zero suffix", x));
            let mut x = self.rvec();
            x[i] = el(0);
            let s = x.iter().fold(el(0), |a, b| d.add(&a, b));
            x[i] = d.neg(&s);
            v.push(("sum zero", x));
            for j in 0..i {
                let mut x = self.rvec();
                x[j] = x[i];
                v.push(("equal pair", x.clone()));
                x[j] = d.neg(&x[i]);
                v.push(("opposite pair", x.clone()));
                x[j] = el(0);
                x[i] = el(0);
                v.push(("zero pair", x));
            }
        }
        for c in if d.has_model() { 8..CLASSES - 1 } else { 0..0 } {
            for i in 0..t {
                for _ in 0..3 {
                    if let Some((_, x)) = self.guided(false, 0, c * t + i) {
                        v.push(("related elements", x));
                    }
                }
            }
        }
        for per in [2usize, 3, 4, t / 2] {
            if per > 0 && per < t {
                let b = self.rvec();
                v.push(("periodic", (0..t).map(|i| b[i % per]).collect()));
            }
        }
        let mut b = self.rvec();
        b.sort_by(|a, c| big(a).cmp(&big(c)));
        v.push(("sorted", b.clone()));
        b.reverse();
        v.push(("sorted", b.clone()));
        v.push(("palindrome", (0..t).map(|i| b[i.min(t - 1 - i)]).collect()));
        for sh in [64 - 8, 64 - 16, 64 - 31, 32, 1, 0] {
            let x: Vec<El> = (0..t).map(|_| el(self.rng.next() >> sh)).collect();
            v.push(("small elements", x.iter().map(|e| self.fit(*e)).collect()));
        }
        if self.core.len().pow(t.min(8) as u32) <= if full { 50_000 } else { 1300 } {
            let n = self.core.len().pow(t as u32);
            for k in 0..n {
                let mut q = k;
                let x = (0..t)
                    .map(|_| {
                        let e = self.core[q % self.core.len()];
                        q /= self.core.len();
                        e
                    })
                    .collect();
                v.push(("core product", x));
            }
        }
        v
    }

    pub fn mixed(&mut self) -> (&'static str, Vec<El>) {
        let t = self.d.t();
        match self.rng.below(5) {
            0 => ("core mix", (0..t).map(|_| *self.rng.pick(&self.core)).collect()),
            1 => ("special mix", (0..t).map(|_| *self.rng.pick(&self.sp)).collect()),
            2 => ("any mix", (0..t).map(|_| self.any()).collect()),
            3 => {
                let pool: Vec<El> = (0..2).map(|_| self.any()).collect();
                ("two values", (0..t).map(|_| *self.rng.pick(&pool)).collect())
            }
            _ => ("uniform", self.rvec()),
        }
    }

    /// A base state followed by close relatives (a stale or truncated memo answers one of them).
    pub fn group(&mut self) -> Vec<Vec<El>> {
        let t = self.d.t();
        let base = if self.rng.chance(1, 3) { self.mixed().1 } else { self.rvec() };
        let mut v = vec![base.clone(), base.clone()];
        for _ in 0..4 {
            let mut x = base.clone();
            let i = self.rng.below(t);
            x[i] = self.tweak(&base[i]);
            v.push(x);
        }
        let mut x = base.clone();
        let (i, j) = (self.rng.below(t), self.rng.below(t));
        x.swap(i, j);
        v.push(x);
        let mut x = base.clone();
        x.rotate_left(1 + self.rng.below(t.max(2) - 1));
        v.push(x);
        let mut x = base.clone();
        x.reverse();
        v.push(x);
        // compensating change: same sum
        let (i, j) = (self.rng.below(t), self.rng.below(t));
        if i != j {
            let mut x = base.clone();
            let a = self.any();
            x[i] = self.d.add(&x[i], &a);
            x[j] = self.d.add(&x[j], &self.d.neg(&a));
            v.push(x);
        }
        v.push(base);
        v
    }

    /// States that force chosen values at a chosen inner layer, by inverting the model.
    pub fn guided(&mut self, alt: bool, k: usize, variant: usize) -> Option<(&'static str, Vec<El>)> {
        let d = self.d;
        let t = d.t();
        let kind = d.kind(alt, k);
        let mut s = self.rvec();
        let i = variant % t;
        let first = matches!(kind, Kind::PowFirst | Kind::Gm);
        let pos = if first && variant % 3 != 0 { 0 } else { i };
        let tag = match (variant / t) % CLASSES {
            0 => {
                s[pos] = el(0);
                "inner zero"
            }
            1 => {
                s[pos] = *self.rng.pick(&self.core);
                "inner core value"
            }
            2 => {
                let j = (i + 1 + self.rng.below(t.max(2) - 1)) % t;
                s[j] = s[i];
                "inner equal pair"
            }
            3 => {
                s.iter_mut().for_each(|x| *x = el(0));
                if self.rng.chance(1, 2) {
                    s[i] = self.any();
                }
                "inner zero state"
            }
            4 => {
                s[pos] = self.any();
                "inner special"
            }
            5 => {
                let a = self.any();
                s.iter_mut().for_each(|x| *x = a);
                "inner constant state"
            }
            6 => {
                s[i] = el(0);
                let sum = s.iter().fold(el(0), |a, b| d.add(&a, b));
                s[i] = d.neg(&sum);
                "inner sum zero"
            }
            7 => {
                for x in s.iter_mut() {
                    if self.rng.chance(1, 2) {
                        *x = *self.rng.pick(&self.core);
                    }
                }
                "inner core mix"
            }
            8 => {
                let j = (i + 1 + self.rng.below(t.max(2) - 1)) % t;
                s[j] = d.neg(&s[i]);
                "inner opposite pair"
            }
            9 => {
                // the elements of one residue class, or of one block, cancel
                let m = *self.rng.pick(&[2usize, 4, 4, t.div_ceil(2)]);
                let block = self.rng.chance(1, 3);
                let same = |a: usize| if block { a / m == i / m } else { a % m == i % m };
                s[i] = el(0);
                let sum = (0..t).filter(|a| same(*a)).fold(el(0), |a, b| d.add(&a, &s[b]));
                s[i] = d.neg(&sum);
                "inner class sum zero"
            }
            10 => {
                // a small linear relation: the temporaries of the cheap matrices, or any
                let fixed: [[u64; 4]; 8] =
                    [[1, 1, 0, 0], [0, 0, 1, 1], [0, 2, 1, 1], [1, 1, 0, 2], [1, 1, 4, 6], [4, 6, 1, 1], [5, 7, 1, 3], [1, 3, 5, 7]];
                let mut c = vec![0u64; t];
                if self.rng.chance(2, 3) {
                    let row = self.rng.pick(&fixed);
                    let b = i / 4 * 4;
                    (0..4).filter(|q| b + q < t).for_each(|q| c[b + q] = row[q]);
                } else {
                    for _ in 0..2 + self.rng.below(2) {
                        c[self.rng.below(t)] = 1 + self.rng.below(4) as u64;
                    }
                }
                if let Some(u) = (0..t).filter(|q| c[*q] == 1).last() {
                    s[u] = el(0);
                    let sum = (0..t).fold(el(0), |a, b| d.add(&a, &d.mul(&s[b], &fit_small(d, c[b]))));
                    s[u] = d.neg(&sum);
                }
                "inner small relation"
            }
            12 => {
                s.iter_mut().for_each(|x| *x = *self.rng.pick(&self.sp));
                s[i] = self.any();
                "inner special mix"
            }
            13 => {
                // every element at an end of the range, of the number or of its representation
                let p = big(&self.p);
                let (kind, spread) = (self.rng.below(8), 1 + self.rng.below(40));
                let near: Vec<usize> = [2usize, 4, 7, 8, 15, 30, 31, 32, 63, 64, 127, 128, 191, 192, 254, 255].iter().copied().filter(|b| *b <= d.bits().max(2) + 1).collect();
                for x in s.iter_mut() {
                    let k = BigUint::from(self.rng.below(spread));
                    let w = BigUint::from(1u8) << *self.rng.pick(&near);
                    let top = if p > k { &p - 1u8 - k.min(&p - 1u8) } else { BigUint::from(0u8) };
                    *x = match match kind {
                        5 => self.rng.below(5),
                        6 => 2 * self.rng.below(2),
                        7 => 1 + 2 * self.rng.below(2),
                        k => k,
                    } {
                        0 => d.red(&top),
                        1 => d.raw(&(top % &p)),
                        2 => d.red(&(w + p.clone() - BigUint::from(self.rng.below(3) as u32) % &p)),
                        3 => d.raw(&((w - BigUint::from(self.rng.below(3) as u32)) % &p)),
                        _ => d.raw(&(BigUint::from(self.rng.below(spread)) % &p)),
                    };
                }
                "inner range ends"
            }
            14 => {
                // the square inside the S-box is a special value
                let mut done = false;
                for _ in 0..6 {
                    let v = self.any();
                    if let Some(r) = d.sqrt(&v) {
                        s[pos] = if self.rng.chance(1, 2) { r } else { d.neg(&r) };
                        done = true;
                        break;
                    }
                }
                if let (true, Some(r)) = (done, d.sqrt(&s[pos])) {
                    if self.rng.chance(1, 3) {
                        s[pos] = r;
                    }
                }
                "inner special square"
            }
            _ => {
                let j = (i + 1 + self.rng.below(t.max(2) - 1)) % t;
                s[j] = match self.rng.below(5) {
                    0 => d.add(&s[i], &el(1)),
                    1 => d.add(&s[i], &s[i]),
                    2 => d.mul(&s[i], &s[i]),
                    3 => d.red(&(big(&s[i]) >> 1)),
                    _ => {
                        let mut x = s[i];
                        x[0] ^= 1;
                        self.fit(x)
                    }
                };
                "inner related pair"
            }
        };
        let mut tag = tag;
        if kind == Kind::Gm && variant % 4 == 3 {
            // choose the S-box inputs of this and the following t-1 rounds
            let mut kk = k;
            let mut prev = el(1);
            let mut carry = vec![]; // powers already added to everything but the head
            for step in 0..t {
                let Some((c, deg)) = d.gm_round(kk) else { break };
                let want = match self.rng.below(4) {
                    0 => el(0),
                    3 => d.neg(&prev), // odd powers cancel
                    1 => *self.rng.pick(&self.core),
                    _ => self.any(),
                };
                let want = if variant % 8 == 3 { el(0) } else { want };
                prev = want;
                // head at round `step` is original element (t - step) % t plus the powers since it was head
                let idx = (t - step) % t;
                let sum = carry.iter().fold(el(0), |a: El, b: &El| d.add(&a, b));
                s[idx] = d.add(&d.add(&want, &d.neg(&c)), &d.neg(&sum));
                carry.push(d.pow(&want, deg));
                kk += 2;
            }
            tag = "inner S-box sequence";
        }
        if kind == Kind::Nep && variant % 4 == 3 {
            let g = d.nep_gamma(k)?;
            let q = 2 * self.rng.below(t / 2);
            let z = if self.rng.chance(1, 2) { el(0) } else { self.any() };
            let x2 = d.add(&d.add(&g, &z), &d.neg(&d.mul(&z, &z)));
            s[q + 1] = x2;
            s[q] = d.add(&x2, &z);
            tag = "inner quadratic root";
        }
        d.back(alt, k, &s).map(|x| (tag, x))
    }
}
