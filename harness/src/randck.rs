//! C19: statistics and freshness of random elements and generated parameter sets.
//! All thresholds are at 9 sigma or more, so that a false alarm does not happen.
use crate::fields::{self, *};
use crate::gen::big;
use crate::inst::*;
use crate::perm::{with_field, N_FIELDS};
use crate::util::*;
use ark_ff::PrimeField;
use std::collections::HashMap;
use std::sync::Arc;
use zkhash::fields as zf;
use zkhash::fields::utils::{random_scalar, random_scalar_without_0};
use zkhash::gmimc::gmimc_params::GmimcParams;
use zkhash::neptune::neptune_params::NeptuneParams;

/// Tail of a normal deviate; chi-square is brought to it with the Wilson-Hilferty cube root.
fn chi_z(chi: f64, df: f64) -> f64 {
    let k = 2.0 / (9.0 * df);
    ((chi / df).cbrt() - (1.0 - k)) / k.sqrt()
}
const Z: f64 = 9.0;

fn chi_test(what: &str, counts: &[u64], probs: &[f64]) -> f64 {
    let n: u64 = counts.iter().sum();
    // merge cells with tiny expectation
    let (mut chi, mut df) = (0.0, -1.0);
    let (mut oc, mut pc) = (0.0, 0.0);
    for (o, p) in counts.iter().zip(probs) {
        if *p <= 0.0 && *o > 0 {
            violation("a random element outside its range was drawn", format!("{}: impossible cell hit {} times", what, o));
        }
        oc += *o as f64;
        pc += *p;
        if pc * n as f64 >= 50.0 {
            chi += (oc - pc * n as f64).powi(2) / (pc * n as f64);
            df += 1.0;
            oc = 0.0;
            pc = 0.0;
        }
    }
    if df < 1.0 {
        return 0.0;
    }
    let z = chi_z(chi, df);
    if z > Z {
        violation("random elements are not uniform or not independent", format!("{}: chi-square {:.1} with {} degrees of freedom over {} draws (z = {:.1})", what, chi, df, n, z));
    }
    z
}

/// Accumulates one stream of draws.
pub struct Stream {
    what: String,
    p: El,
    bits: usize,
    n: u64,
    bit: Vec<u64>,
    top: Vec<u64>,
    mods: Vec<(u64, Vec<u64>)>,
    pair: [Vec<u64>; 4],
    lowpair: [Vec<u64>; 4],
    hist: Vec<El>,
    nonzero: bool,
}
const MODS: [u64; 6] = [3, 5, 7, 16, 17, 255];

fn shr(e: &El, k: usize) -> u64 {
    let (w, b) = (k / 64, k % 64);
    let lo = e[w] >> b;
    let hi = if b > 0 && w + 1 < 4 { e[w + 1] << (64 - b) } else { 0 };
    lo | hi
}
fn rem(e: &El, m: u64) -> u64 {
    let mut r = 0u128;
    for l in e.iter().rev() {
        r = ((r << 64) | *l as u128) % m as u128;
    }
    r as u64
}

impl Stream {
    fn new(what: &str, p: El, nonzero: bool) -> Self {
        let bits = big(&p).bits() as usize;
        Stream {
            what: what.to_string(),
            p,
            bits,
            n: 0,
            bit: vec![0; bits],
            top: vec![0; 256],
            mods: MODS.iter().map(|m| (*m, vec![0; *m as usize])).collect(),
            pair: std::array::from_fn(|_| vec![0; 256]),
            lowpair: std::array::from_fn(|_| vec![0; 256]),
            hist: vec![],
            nonzero,
        }
    }
    fn top_bits(&self, e: &El, k: usize) -> usize {
        (shr(e, self.bits.saturating_sub(k)) & ((1 << k) - 1)) as usize
    }
    fn push(&mut self, e: El) {
        if big_ge(&e, &self.p) {
            violation("a random element is not in the field", format!("{}: {}", self.what, hex(&e)));
        }
        if self.nonzero && e == [0; 4] {
            violation("the non-zero generator returned zero", self.what.clone());
        }
        self.n += 1;
        for (k, c) in self.bit.iter_mut().enumerate() {
            *c += (e[k / 64] >> (k % 64)) & 1;
        }
        let tb = self.top_bits(&e, 8.min(self.bits));
        self.top[tb] += 1;
        for (m, c) in self.mods.iter_mut() {
            c[rem(&e, *m) as usize] += 1;
        }
        for (i, lag) in [1usize, 2, 3, 8].iter().enumerate() {
            if self.hist.len() >= *lag {
                let o = self.hist[self.hist.len() - lag];
                let (a, b) = (self.top_bits(&o, 4.min(self.bits)), self.top_bits(&e, 4.min(self.bits)));
                self.pair[i][a * 16 + b] += 1;
                self.lowpair[i][((o[0] & 15) * 16 + (e[0] & 15)) as usize] += 1;
            }
        }
        self.hist.push(e);
        if self.hist.len() > 64 {
            self.hist.drain(..32);
        }
    }
    /// P(the top k bits equal i) for a uniform element.
    fn top_probs(&self, k: usize) -> Vec<f64> {
        let k = k.min(self.bits);
        let p = bigf(&self.p);
        let s = 2f64.powi((self.bits - k) as i32);
        let z = if self.nonzero { 1.0 } else { 0.0 };
        (0..1usize << k)
            .map(|i| {
                let lo = i as f64 * s;
                let hi = ((i + 1) as f64 * s).min(p);
                let c = (hi - lo).max(0.0) - if i == 0 { z } else { 0.0 };
                c / (p - z)
            })
            .collect()
    }
    fn finish(self, ev: &mut Ev) {
        if self.n < 1000 {
            return;
        }
        let p = bigf(&self.p);
        let z = if self.nonzero { 1.0 } else { 0.0 };
        let n = self.n as f64;
        let mut worst: f64 = 0.0;
        for k in 0..self.bits {
            // exact share of elements with bit k set
            let per = 2f64.powi(k as i32 + 1);
            let full = (p / per).floor();
            let rest = p - full * per;
            let cnt = full * per / 2.0 + (rest - per / 2.0).max(0.0);
            let q = cnt / (p - z);
            // float noise of huge moduli is far below the statistical error
            let sd = (n * q * (1.0 - q)).sqrt().max(1.0);
            let dev = (self.bit[k] as f64 - n * q).abs() / sd;
            worst = worst.max(dev);
            if dev > Z {
                violation("a bit of the random elements is biased", format!("{}: bit {} set {} times in {} draws, expected share {:.6} (z = {:.1})", self.what, k, self.bit[k], self.n, q, dev));
            }
        }
        worst = worst.max(chi_test(&format!("{} top bits", self.what), &self.top, &self.top_probs(8)));
        let pm = |m: u64, r: u64| -> f64 {
            let pr = rem(&self.p, m);
            let full = ((p - pr as f64) / m as f64).round();
            let c = full + if r < pr { 1.0 } else { 0.0 } - if r == 0 { z } else { 0.0 };
            c / (p - z)
        };
        for (m, c) in &self.mods {
            let probs: Vec<f64> = (0..*m).map(|r| pm(*m, r)).collect();
            worst = worst.max(chi_test(&format!("{} modulo {}", self.what, m), c, &probs));
        }
        let t4 = self.top_probs(4);
        let l4: Vec<f64> = (0..16).map(|r| pm(16, r)).collect();
        for (i, lag) in [1, 2, 3, 8].iter().enumerate() {
            let mut pr = vec![0.0; 256];
            let mut pl = vec![0.0; 256];
            for a in 0..16 {
                for b in 0..16 {
                    if a < t4.len() && b < t4.len() {
                        pr[a * 16 + b] = t4[a] * t4[b];
                    }
                    pl[a * 16 + b] = l4[a] * l4[b];
                }
            }
            worst = worst.max(chi_test(&format!("{} top bits of draws {} apart", self.what, lag), &self.pair[i], &pr));
            worst = worst.max(chi_test(&format!("{} low bits of draws {} apart", self.what, lag), &self.lowpair[i], &pl));
        }
        ev.count("streams tested", 1);
        ev.sample(&self.what.clone(), || format!("{}: {} draws, largest deviation {:.1} sigma", self.what, self.n, worst));
    }
}
fn big_ge(a: &El, b: &El) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
fn bigf(e: &El) -> f64 {
    e.iter().rev().fold(0.0, |a, l| a * 18446744073709551616.0 + *l as f64)
}

// ---------------------------------------------------------------- freshness
/// Values of one large field; anything seen twice, or simply related to its predecessor, is not fresh.
#[derive(Default)]
struct Fresh {
    seen: HashMap<u64, (El, String)>,
}
impl Fresh {
    fn add(&mut self, v: El, origin: &dyn Fn() -> String) {
        let k = fnv(&v);
        if let Some((o, w)) = self.seen.get(&k) {
            if *o == v {
                violation("a freshly generated value repeats or derives from another", format!("{}: {} and {}", hex(&v), w, origin()));
            }
        } else {
            self.seen.insert(k, (v, origin()));
        }
    }
    /// A run of successive values: the values, and simple relations between neighbours.
    fn run<F: PrimeField>(&mut self, what: &str, vs: &[F]) {
        let b = F::MODULUS_BIT_SIZE as usize;
        for (i, v) in vs.iter().enumerate() {
            let e = to_el(v);
            if shr(&e, b - 64) >> 0 == 0 || shr(&to_el(&-*v), b - 64) == 0 {
                violation("a freshly generated value is tiny or nearly the modulus", format!("{} #{}: {}", what, i, hex(&e)));
            }
            self.add(e, &|| format!("{} #{}", what, i));
            if i > 0 {
                let o = vs[i - 1];
                self.add(to_el(&(*v - o)), &|| format!("difference at {} #{}", what, i));
                self.add(to_el(&(*v + o)), &|| format!("sum at {} #{}", what, i));
                self.add(to_el(&(*v * o.inverse().unwrap_or(F::one()))), &|| format!("quotient at {} #{}", what, i));
            }
        }
    }
}

fn draw<F: PrimeField>(nonzero: bool) -> F {
    match catch(|| if nonzero { random_scalar_without_0::<F>() } else { random_scalar::<F>() }) {
        Ok(x) => x,
        Err(m) => violation("drawing a random element panicked", m),
    }
}

fn stream_job<F: PrimeField, R: PrimeField>(fname: &str, ev: &mut Ev, nonzero: bool, n: usize) {
    let what = format!("{}<{}>", if nonzero { "random_scalar_without_0" } else { "random_scalar" }, fname);
    let mut s = Stream::new(&what, modulus_el::<R>(), nonzero);
    let p = R::MODULUS.as_ref()[0];
    let tiny = R::MODULUS_BIT_SIZE < 20;
    let mut cells = vec![0u64; if tiny { p as usize } else { 0 }];
    let mut dup = HashMap::new();
    let mut dups = 0u64;
    let mut prev: Option<u64> = None;
    let mut trans = vec![0u64; if p < 20 && tiny { (p * p) as usize } else { 0 }];
    for i in 0..n {
        let e = to_el(&draw::<F>(nonzero));
        s.push(e);
        if tiny {
            cells[e[0] as usize] += 1;
            if !trans.is_empty() {
                if let Some(q) = prev {
                    trans[(q * p + e[0]) as usize] += 1;
                }
                prev = Some(e[0]);
            }
        } else if dup.insert(fnv(&e), ()).is_some() {
            dups += 1;
        }
        ev.case(if nonzero { "non-zero draws" } else { "draws" }, fnv(&[sfp(&what), e[0], e[1], e[2], e[3], if tiny { i as u64 } else { 0 }]), true);
    }
    if tiny {
        let z = nonzero as u64;
        let pr: Vec<f64> = (0..p).map(|v| if v == 0 && nonzero { 0.0 } else { 1.0 / (p - z) as f64 }).collect();
        chi_test(&format!("{} all values", what), &cells, &pr);
        if !trans.is_empty() {
            let tp: Vec<f64> = (0..p * p).map(|k| pr[(k / p) as usize] * pr[(k % p) as usize]).collect();
            chi_test(&format!("{} successive values", what), &trans, &tp);
        }
    } else {
        let exp = (n as f64) * (n as f64) / 2.0 / bigf(&modulus_el::<R>()).min(1.8e19);
        if dups as f64 > exp + 9.0 * exp.sqrt() + 6.0 {
            violation("random elements repeat too often", format!("{}: {} repetitions in {} draws, expected {:.1}", what, dups, n, exp));
        }
        ev.count("repetitions in large streams", dups);
    }
    s.finish(ev);
}

/// Many threads at once, long- and short-lived: no two draws coincide.
fn threads_job(ev: &mut Ev, threads: usize, rounds: usize, per: usize) {
    type F = zf::bls12::FpBLS12;
    let mut fresh = Fresh::default();
    let mut st = Stream::new("random_scalar<BLS12> across threads", modulus_el::<fields::bls12::F>(), false);
    for round in 0..rounds {
        let barrier = Arc::new(std::sync::Barrier::new(threads));
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let b = barrier.clone();
                std::thread::spawn(move || {
                    b.wait();
                    (0..per).map(|k| draw::<F>(k % 3 == 1)).collect::<Vec<F>>()
                })
            })
            .collect();
        for (t, h) in hs.into_iter().enumerate() {
            let v = h.join().unwrap_or_else(|_| violation("drawing random elements in a thread panicked", String::new()));
            fresh.run(&format!("round {} thread {}", round, t), &v);
            for x in &v {
                let e = to_el(x);
                st.push(e);
                ev.case("draws across threads", fnv(&e), true);
            }
        }
    }
    ev.count("threads", (threads * rounds) as u64);
    st.finish(ev);
}

pub fn child_rand() {
    let v: Vec<String> = (0..40).map(|_| hex(&to_el(&draw::<zf::bls12::FpBLS12>(false)))).collect();
    println!("{}", v.join(" "));
    let g = catch(|| Arc::new(GmimcParams::<zf::bls12::FpBLS12>::new(3, 5, 20))).unwrap();
    let n = catch(|| Arc::new(NeptuneParams::<zf::bls12::FpBLS12>::new(4, 5, 2, 3))).unwrap();
    let x: Vec<zf::bls12::FpBLS12> = (0..4u64).map(|i| i.into()).collect();
    println!("{} {}", hex(&to_el(&Hash::g(&g).call(0, &x[..3])[0])), hex(&to_el(&Hash::n(&n).call(0, &x)[0])));
}

fn process_job(ev: &mut Ev, n: usize) {
    let mut seen: HashMap<String, usize> = HashMap::new();
    for k in 0..n {
        let Some(out) = crate::history::child(&["child-rand"]) else { continue };
        for w in out.split_whitespace() {
            if let Some(o) = seen.insert(w.to_string(), k) {
                violation("two processes drew the same random element or generated the same parameters", format!("processes {} and {}: {}", o, k, w));
            }
            ev.case("draws across processes", sfp(w), true);
        }
        ev.count("processes", 1);
    }
}

// ---------------------------------------------------------------- generated parameter sets
#[allow(unused_variables)]
fn large_sets<F: PrimeField, R: PrimeField>(fname: &str, ev: &mut Ev, reps: usize) {
    if R::MODULUS_BIT_SIZE < 200 {
        return;
    }
    let mut rng = Rng::new(cfg().seed, &format!("c19 sets {}", fname));
    let mut fresh = Fresh::default();
    let mut st = Stream::new(&format!("constants of generated sets over {}", fname), modulus_el::<R>(), false);
    let mut dg = Stream::new(&format!("Neptune diagonals over {}", fname), modulus_el::<R>(), true);
    let mut outs: HashMap<Vec<El>, String> = HashMap::new();
    let dims: [(usize, usize, usize); 7] = [(2, 3, 1), (3, 5, 226), (4, 5, 228), (8, 5, 20), (8, 5, 20), (5, 7, 64), (24, 5, 300)];
    for rep in 0..reps {
        let (t, d, r) = if rep < 2 * dims.len() { dims[rep % dims.len()] } else { (2 + rng.below(24), *rng.pick(&[3usize, 5, 7]), 1 + rng.below(300)) };
        let what = format!("GMiMC<{}> t={} d={} rounds={} set {}", fname, t, d, r, rep);
        let p = catch(|| Arc::new(GmimcParams::<F>::new(t, d, r))).unwrap_or_else(|m| violation("generating a parameter set panicked", format!("{}: {}", what, m)));
        #[cfg(vp_hooks)]
        {
            let c = p.vp_round_constants();
            fresh.run(&what, &c[..r.min(c.len())]);
            for x in &c {
                st.push(to_el(x));
                ev.case("generated GMiMC constants", fnv(&to_el(x)), true);
            }
        }
        let h = Hash::g(&p);
        let x: Vec<F> = (0..t as u64).map(F::from).collect();
        if let Some(o) = outs.insert(to_els(&h.call(0, &x)), what.clone()) {
            violation("two generated parameter sets behave alike", format!("{} and {}", o, what));
        }
        ev.case("generated sets", sfp(&what), true);
        let t = if rep < 20 { [4usize, 8, 6, 12, 2, 16, 24, 10][rep % 8] } else { 2 * (1 + rng.below(12)) };
        let (rf, rp) = (2 * rng.below(5), rng.below(50));
        let (rf, rp) = if rf + rp == 0 { (2, 1) } else { (rf, rp) };
        let what = format!("Neptune<{}> t={} d={} rf={} rp={} set {}", fname, t, d, rf, rp, rep);
        let p = catch(|| Arc::new(NeptuneParams::<F>::new(t, d, rf, rp))).unwrap_or_else(|m| violation("generating a parameter set panicked", format!("{}: {}", what, m)));
        #[cfg(vp_hooks)]
        {
            let v = nep_view::<F, F>(&p);
            // stored minus one; the matrix entry itself must not vanish
            let diag: Vec<F> = v.diag.iter().map(|x| *x + F::one()).collect();
            for x in &diag {
                if x.is_zero() {
                    violation("a diagonal entry of Neptune's internal matrix is zero", what.clone());
                }
                dg.push(to_el(x));
                ev.case("generated Neptune diagonals", fnv(&to_el(x)), true);
            }
            let mut all: Vec<F> = v.rc.iter().flatten().copied().collect();
            all.extend(&diag);
            all.push(v.abc[2]);
            if t != 4 && t != 8 {
                for i in 0..t {
                    for j in 0..t {
                        if (i + j) % 2 == 0 {
                            all.push(v.me[i][j]);
                        }
                    }
                }
            }
            fresh.run(&what, &all);
            for x in &all {
                st.push(to_el(x));
                ev.case("generated Neptune constants", fnv(&to_el(x)), true);
            }
        }
        let h = Hash::n(&p);
        let x: Vec<F> = (0..t as u64).map(F::from).collect();
        if let Some(o) = outs.insert(to_els(&h.call(0, &x)), what.clone()) {
            violation("two generated parameter sets behave alike", format!("{} and {}", o, what));
        }
        ev.case("generated sets", sfp(&what), true);
        if fresh.seen.len() > 1_500_000 {
            fresh.seen.clear();
        }
    }
    st.finish(ev);
    dg.finish(ev);
}

/// Over tiny fields every value of every position occurs, so each position's distribution is visible.
#[cfg(vp_hooks)]
fn tiny_sets<F: PrimeField, R: PrimeField>(fname: &str, ev: &mut Ev, reps: usize) {
    if R::MODULUS_BIT_SIZE > 5 {
        return;
    }
    let p = R::MODULUS.as_ref()[0] as usize;
    let at = |x: &F| to_el(x)[0] as usize;
    let uni = vec![1.0 / p as f64; p];
    let nz: Vec<f64> = (0..p).map(|v| if v == 0 { 0.0 } else { 1.0 / (p - 1) as f64 }).collect();
    for (t, rounds) in [(3usize, 7usize), (9, 12), (2, 1)] {
        let mut cells = vec![vec![0u64; p]; rounds];
        let mut pairs = vec![0u64; p * p];
        for _ in 0..reps {
            let g = catch(|| GmimcParams::<F>::new(t, 5, rounds)).unwrap_or_else(|m| violation("generating a parameter set panicked", m));
            let c = g.vp_round_constants();
            for (i, x) in c.iter().take(rounds).enumerate() {
                cells[i][at(x)] += 1;
                if i > 0 {
                    pairs[at(&c[i - 1]) * p + at(x)] += 1;
                }
                ev.case("tiny-field constants", fnv(&[sfp(fname), t as u64, i as u64, ev.evaluations]), true);
            }
        }
        for (i, c) in cells.iter().enumerate() {
            chi_test(&format!("GMiMC<{}> constant of round {}", fname, i), c, &uni);
        }
        if rounds > 1 {
            let pp: Vec<f64> = (0..p * p).map(|k| uni[k / p] * uni[k % p]).collect();
            chi_test(&format!("GMiMC<{}> neighbouring constants", fname), &pairs, &pp);
        }
    }
    for t in [2usize, 4, 6, 8] {
        let (rf, rp) = (2, 2);
        let mut rc = vec![vec![0u64; p]; t * (rf + rp)];
        let mut dg = vec![vec![0u64; p]; t];
        let mut me = vec![vec![0u64; p]; t * t];
        let mut gm = vec![0u64; p];
        for _ in 0..reps {
            let n = catch(|| NeptuneParams::<F>::new(t, 3, rf, rp)).unwrap_or_else(|m| violation("generating a parameter set panicked", m));
            let v = nep_view::<F, F>(&n);
            for (i, x) in v.rc.iter().flatten().enumerate() {
                rc[i][at(x)] += 1;
            }
            for (i, x) in v.diag.iter().enumerate() {
                let e = *x + F::one();
                if e.is_zero() {
                    violation("a diagonal entry of Neptune's internal matrix is zero", format!("{} t={} position {}", fname, t, i));
                }
                dg[i][at(&e)] += 1;
            }
            for (i, x) in v.me.iter().flatten().enumerate() {
                me[i][at(x)] += 1;
            }
            gm[at(&v.abc[2])] += 1;
            ev.case("tiny-field Neptune sets", fnv(&[sfp(fname), t as u64, ev.evaluations]), true);
        }
        for (i, c) in rc.iter().enumerate() {
            chi_test(&format!("Neptune<{}> t={} round constant {}", fname, t, i), c, &uni);
        }
        for (i, c) in dg.iter().enumerate() {
            chi_test(&format!("Neptune<{}> t={} diagonal {}", fname, t, i), c, &nz);
        }
        chi_test(&format!("Neptune<{}> t={} gamma", fname, t), &gm, &uni);
        if t != 4 && t != 8 {
            for i in 0..t {
                for j in 0..t {
                    if (i + j) % 2 == 0 {
                        chi_test(&format!("Neptune<{}> t={} external entry ({}, {})", fname, t, i, j), &me[i * t + j], &uni);
                    }
                }
            }
        }
    }
}
#[cfg(not(vp_hooks))]
fn tiny_sets<F: PrimeField, R: PrimeField>(_fname: &str, _ev: &mut Ev, _reps: usize) {}

fn plus_one<F: PrimeField>(x: &F) -> F {
    *x + F::one()
}

#[cfg(vp_hooks)]
fn nep_same<F: PrimeField>(p: &NeptuneParams<F>) -> NepView<F> {
    nep_view::<F, F>(p)
}

/// The named GMiMC and Neptune instances: constants of instances over one field never coincide.
#[cfg(vp_hooks)]
fn named_sets(ev: &mut Ev) {
    macro_rules! gm {
        ($fresh:ident; $($md:ident $($n:ident)*;)*) => {$($(
            let p = catch(|| zkhash::gmimc::$md::$n.clone()).unwrap_or_else(|m| violation("a named instance cannot be built", m));
            let c = p.vp_round_constants();
            $fresh.run(stringify!($n), &c);
            ev.count("named sets", 1);
            for x in &c { ev.case("named constants", fnv(&to_el(x)), true); }
        )*)*};
    }
    macro_rules! nn {
        ($fresh:ident; $($n:ident $t:literal)*) => {$(
            let p = catch(|| zkhash::neptune::neptune_instances::$n.clone()).unwrap_or_else(|m| violation("a named instance cannot be built", m));
            let v = nep_same(&p);
            let mut all: Vec<_> = v.rc.iter().flatten().copied().collect();
            for x in &v.diag { all.push(plus_one(x)); }
            all.push(v.abc[2]);
            $fresh.run(stringify!($n), &all);
            ev.count("named sets", 1);
            for x in &all { ev.case("named constants", fnv(&to_el(x)), true); }
        )*};
    }
    let mut bls = Fresh::default();
    gm! {bls; gmimc_instance_bls12 GMIMC_BLS_2_PARAMS GMIMC_BLS_3_PARAMS GMIMC_BLS_4_PARAMS GMIMC_BLS_5_PARAMS GMIMC_BLS_8_PARAMS GMIMC_BLS_9_PARAMS GMIMC_BLS_12_PARAMS GMIMC_BLS_16_PARAMS GMIMC_BLS_20_PARAMS GMIMC_BLS_24_PARAMS;}
    nn! {bls; NEPTUNE_BLS_4_PARAMS 4 NEPTUNE_BLS_8_PARAMS 8}
    let mut bn = Fresh::default();
    gm! {bn; gmimc_instance_bn256 GMIMC_BN_3_PARAMS GMIMC_BN_4_PARAMS GMIMC_BN_5_PARAMS GMIMC_BN_8_PARAMS GMIMC_BN_9_PARAMS GMIMC_BN_12_PARAMS GMIMC_BN_16_PARAMS GMIMC_BN_20_PARAMS GMIMC_BN_24_PARAMS;}
    nn! {bn; NEPTUNE_BN_PARAMS 4}
    let mut pa = Fresh::default();
    gm! {pa; gmimc_instance_pallas GMIMC_PALLAS_3_PARAMS GMIMC_PALLAS_4_PARAMS GMIMC_PALLAS_5_PARAMS GMIMC_PALLAS_8_PARAMS GMIMC_PALLAS_9_PARAMS GMIMC_PALLAS_12_PARAMS GMIMC_PALLAS_16_PARAMS GMIMC_PALLAS_20_PARAMS GMIMC_PALLAS_24_PARAMS;}
    nn! {pa; NEPTUNE_PALLAS_4_PARAMS 4 NEPTUNE_PALLAS_8_PARAMS 8}
    let mut ve = Fresh::default();
    gm! {ve; gmimc_instance_vesta GMIMC_VESTA_3_PARAMS GMIMC_VESTA_4_PARAMS GMIMC_VESTA_5_PARAMS GMIMC_VESTA_8_PARAMS GMIMC_VESTA_9_PARAMS GMIMC_VESTA_12_PARAMS GMIMC_VESTA_16_PARAMS GMIMC_VESTA_20_PARAMS GMIMC_VESTA_24_PARAMS;}
    nn! {ve; NEPTUNE_VESTA_PARAMS 4}
}
#[cfg(not(vp_hooks))]
fn named_sets(_ev: &mut Ev) {}

pub fn c19() -> Ev {
    let mut jobs: Vec<Job> = vec![];
    let n = amount(700_000, 12_000_000);
    for f in 0..N_FIELDS {
        for nz in [false, true] {
            let n = if f < 6 && cfg().thorough { n / 3 } else { n };
            jobs.push(Box::new(move |ev: &mut Ev| with_field!(f, stream_job(ev, nz, n))));
        }
        let r = amount(120, 2500);
        jobs.push(Box::new(move |ev: &mut Ev| with_field!(f, large_sets(ev, r))));
        let r = amount(8000, 150_000);
        jobs.push(Box::new(move |ev: &mut Ev| with_field!(f, tiny_sets(ev, r))));
    }
    jobs.push(Box::new(|ev: &mut Ev| named_sets(ev)));
    let mut ev = par(jobs);
    threads_job(&mut ev, 8, amount(6, 60), 2000);
    threads_job(&mut ev, 32, amount(20, 300), 3);
    process_job(&mut ev, amount(16, 200));
    ev
}
