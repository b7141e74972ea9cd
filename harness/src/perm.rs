//! C01, C02, C04, C05, C06, C07, C08: every permutation call observed against the model.
use crate::fields::*;
use crate::gen::{dict_sizes, Gen, CLASSES};
use crate::inst::*;
use crate::refm::{self, inverse};
use crate::util::*;
use ark_ff::PrimeField;
use std::sync::Arc;
use zkhash::gmimc::gmimc_params::GmimcParams;
use zkhash::neptune::neptune_params::NeptuneParams;
use zkhash::poseidon::poseidon_params::PoseidonParams;
use zkhash::poseidon2::poseidon2_params::Poseidon2Params;

/// One observed evaluation by every evaluator of the instance.
pub fn observe(d: &dyn Dyn, ev: &mut Ev, tag: &str, x: &[El]) -> Vec<El> {
    let mut want = if d.has_model() { Some(d.model(x)) } else { None };
    for (e, ename) in d.evaluators().iter().enumerate() {
        let got = match catch(|| d.call(e, x)) {
            Ok(g) => g,
            Err(m) => violation(
                "a well-formed evaluation panicked",
                format!("{} {} input {} ({}): {}", d.name(), ename, hexv(x), tag, m),
            ),
        };
        match &want {
            Some(w) => {
                if *w != got {
                    violation(
                        "the evaluator's result differs from the specification",
                        format!("{} {} input {} ({}): got {} expected {}", d.name(), ename, hexv(x), tag, hexv(&got), hexv(w)),
                    );
                }
            }
            None => {
                if got.len() != d.t() {
                    violation("wrong output length", format!("{} {} input {}", d.name(), ename, hexv(x)));
                }
                want = Some(got)
            }
        }
    }
    let w = want.unwrap();
    ev.case(tag, fnv_els(sfp(d.name()), x), w != x);
    ev.sample(d.fam(), || format!("{} {} {} -> {}", d.name(), tag, hexv(&x[..x.len().min(4)]), hexv(&w[..w.len().min(2)])));
    w
}

/// The full observation plan for one instance.
pub fn plan(d: &dyn Dyn, ev: &mut Ev, stream: &str, mixed: usize, groups: usize, guided: usize, systematic: bool) {
    let mut g = Gen::new(d, stream);
    if d.get_t() != d.t() {
        violation("instance reports a wrong width", format!("{}: {} instead of {}", d.name(), d.get_t(), d.t()));
    }
    if systematic {
        for (tag, x) in g.structured(cfg().thorough) {
            observe(d, ev, tag, &x);
        }
    }
    for _ in 0..groups {
        for x in g.group() {
            observe(d, ev, "perturbation group", &x);
        }
    }
    for _ in 0..mixed {
        let (tag, x) = g.mixed();
        observe(d, ev, tag, &x);
    }
    if d.has_model() && d.invertible() && guided > 0 {
        for alt in [false, true] {
            if alt && d.fam() != "poseidon" {
                continue;
            }
            let n = d.layers(alt) + 1;
            let total = CLASSES * d.t() * n;
            let step = (total / guided).max(1);
            let mut k = g.rng.below(step);
            while k < total {
                // co-prime walk over (layer, variant)
                let layer = k % n;
                let variant = (k / n) ^ (g.rng.below(2) * 3);
                if let Some((tag, x)) = g.guided(alt, layer, variant) {
                    observe(d, ev, tag, &x);
                }
                k += 1 + g.rng.below(2 * step - 1);
            }
        }
    }
    // iterate the permutation: outputs become inputs
    let mut x = g.rvec();
    for _ in 0..(mixed / 10 + 3) {
        x = observe(d, ev, "chain", &x);
    }
    // outputs steered to special values
    if d.has_model() && d.invertible() {
        for v in 0..(guided / 20).max(2) {
            if let Some((_, x)) = g.guided(false, d.layers(false), v) {
                observe(d, ev, "special output", &x);
            }
        }
    }
}

/// Relative cost of one evaluation (model and code), to balance budgets.
fn weight(n: &Named) -> f64 {
    let mul = if n.bits > 64 { 4.0 } else { 1.0 };
    let ops = match n.fam {
        "gmimc" => n.rf * n.t * 2,
        _ => (n.rf + n.rp) * n.t * n.t,
    };
    (ops as f64) * mul / 20_000.0
}

pub fn named_jobs(fam: &'static str, budget: f64) -> Vec<Job<'static>> {
    let mut jobs: Vec<(f64, Job)> = vec![];
    let all = named();
    let cnt = all.iter().filter(|n| n.fam == fam).count() as f64;
    for n in all {
        if n.fam != fam {
            continue;
        }
        let w = weight(&n);
        // evaluations affordable for this instance
        let k = (budget / cnt / w.max(0.05)).clamp(200.0 * cfg().scale.min(1.0), 400_000.0);
        let parts = 4usize;
        for part in 0..parts {
            let n2 = named().into_iter().find(|m| m.name == n.name).unwrap();
            let k = k / parts as f64;
            jobs.push((
                w,
                Box::new(move |ev: &mut Ev| {
                    let d = make(&n2);
                    plan(&*d, ev, &format!("named{}", part), (k * 0.3) as usize, (k * 0.02) as usize, (k * 0.3) as usize, part == 0);
                    ev.count("instances x parts", 1);
                }),
            ));
        }
    }
    jobs.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
    jobs.into_iter().map(|(_, j)| j).collect()
}

pub fn c01() -> Ev {
    par(named_jobs("poseidon2", amount(120_000, 3_000_000) as f64))
}
pub fn c02() -> Ev {
    par(named_jobs("poseidon", amount(100_000, 2_500_000) as f64))
}

// ---------------------------------------------------------------- generated parameter sets
pub fn pick_val<R: PrimeField>(rng: &mut Rng) -> R {
    match rng.below(6) {
        0 => R::zero(),
        1 => R::one(),
        2 => -R::one(),
        3 => R::from(rng.below(20) as u64),
        _ => rand(rng),
    }
}

pub fn tab<R: PrimeField>(rng: &mut Rng, rows: usize, cols: usize) -> Vec<Vec<R>> {
    // tables are uniform, special, or all zero
    match rng.below(8) {
        0 => vec![vec![R::zero(); cols]; rows],
        1 | 2 => (0..rows).map(|_| (0..cols).map(|_| pick_val(rng)).collect()).collect(),
        _ => (0..rows).map(|_| (0..cols).map(|_| rand(rng)).collect()).collect(),
    }
}

pub fn cv<A: PrimeField, B: PrimeField>(m: &[Vec<A>]) -> Vec<Vec<B>> {
    m.iter().map(|r| of_els(&to_els(r))).collect()
}

fn build<T>(what: &str, desc: &str, f: impl FnOnce() -> T) -> T {
    match catch(f) {
        Ok(x) => x,
        Err(m) => violation(&format!("{} refused a valid parameter set", what), format!("{}: {}", desc, m)),
    }
}

pub const P2_WIDTHS: [usize; 8] = [2, 3, 4, 8, 12, 16, 20, 24];

#[derive(Clone, Copy, PartialEq)]
pub enum Shape {
    Any,
    Bijective,
}

pub fn random_p2<F: PrimeField, R: PrimeField>(fname: &str, rng: &mut Rng, t: usize, d: usize, small: bool, shape: Shape) -> Inst<F, R> {
    let rf = 2 * rng.below(if small { 3 } else { 6 });
    let rp = *rng.pick(&if small { [0usize, 1, 2, 3] } else { [0usize, 1, 5, 30] });
    p2_at(fname, rng, t, d, rf, rp, shape)
}

pub fn p2_at<F: PrimeField, R: PrimeField>(fname: &str, rng: &mut Rng, t: usize, d: usize, rf: usize, rp: usize, shape: Shape) -> Inst<F, R> {
    let mut diag: Vec<R> = tab(rng, 1, t).pop().unwrap();
    if shape == Shape::Bijective {
        // widths 2 and 3 have a fixed matrix; over tiny fields some widths admit no invertible diagonal
        for _ in 0..200 {
            if inverse(&refm::p2_internal(t, &diag)).is_some() {
                break;
            }
            diag = (0..t).map(|_| rand(rng)).collect();
        }
    }
    let mut rc: Vec<Vec<R>> = tab(rng, rf + rp, t);
    // partial rounds need one constant; rows in the published layout are zero-padded, short or full
    let partial_len = *rng.pick(&[1usize, 1, t, t]);
    for r in rc.iter_mut().skip(rf / 2).take(rp) {
        r.truncate(partial_len);
    }
    let mi = refm::p2_internal(t, &diag);
    let name = format!("custom Poseidon2<{}> t={} d={} rf={} rp={} #{}", fname, t, d, rf, rp, serial());
    let params = build("Poseidon2Params::new", &name, || {
        Arc::new(Poseidon2Params::<F>::new(t, d, rf, rp, &of_els(&to_els(&diag)), &cv::<R, F>(&mi), &cv::<R, F>(&rc)))
    });
    for r in rc.iter_mut() {
        r.resize(t, R::zero());
    }
    p2_inst(name, Hash::p2(&params), (t, d, rf, rp), &diag, &rc)
}

pub fn random_invertible<R: PrimeField>(rng: &mut Rng, t: usize, need_block: bool) -> Vec<Vec<R>> {
    let sparse = rng.below(3);
    for attempt in 0.. {
        let m: Vec<Vec<R>> = (0..t)
            .map(|i| {
                (0..t)
                    .map(|j| match sparse {
                        0 if attempt < 200 => {
                            if i == j || rng.chance(1, 3) {
                                pick_val(rng)
                            } else {
                                R::zero()
                            }
                        }
                        1 if attempt < 200 => R::from(rng.below(3) as u64),
                        _ => rand(rng),
                    })
                    .collect()
            })
            .collect();
        if inverse(&m).is_none() {
            continue;
        }
        if need_block {
            let b: Vec<Vec<R>> = m[1..].iter().map(|r| r[1..].to_vec()).collect();
            if inverse(&b).is_none() {
                continue;
            }
        }
        return m;
    }
    unreachable!()
}

pub fn random_p<F: PrimeField, R: PrimeField>(fname: &str, rng: &mut Rng, t: usize, d: usize, small: bool) -> Inst<F, R> {
    let rf = 2 * rng.below(if small { 3 } else { 6 });
    let rp = *rng.pick(&if small { [1usize, 1, 2, 4] } else { [1usize, 2, 7, 30] });
    p_at(fname, rng, t, d, rf, rp)
}

pub fn p_at<F: PrimeField, R: PrimeField>(fname: &str, rng: &mut Rng, t: usize, d: usize, rf: usize, rp: usize) -> Inst<F, R> {
    let mds: Vec<Vec<R>> = random_invertible(rng, t, true);
    let rc: Vec<Vec<R>> = tab(rng, rf + rp, t);
    let name = format!("custom Poseidon<{}> t={} d={} rf={} rp={} #{}", fname, t, d, rf, rp, serial());
    let params = build("PoseidonParams::new", &name, || {
        Arc::new(PoseidonParams::<F>::new(t, d, rf, rp, &cv::<R, F>(&mds), &cv::<R, F>(&rc)))
    });
    p_inst(name, Hash::p(&params), (t, d, rf, rp), &mds, &rc)
}

pub fn random_g<F: PrimeField, R: PrimeField>(fname: &str, rng: &mut Rng, t: usize, d: usize, rounds: usize) -> Inst<F, R> {
    let name = format!("custom GMiMC<{}> t={} d={} rounds={} #{}", fname, t, d, rounds, serial());
    let p = build("GmimcParams::new", &name, || Arc::new(GmimcParams::<F>::new(t, d, rounds)));
    if p.get_t() != t || p.get_rounds() != rounds {
        violation("GMiMC parameters report other values than given", format!("{}: t {} rounds {}", name, p.get_t(), p.get_rounds()));
    }
    g_inst(name, &p, (t, d, rounds))
}

pub fn random_n<F: PrimeField, R: PrimeField>(fname: &str, rng: &mut Rng, t: usize, d: usize, small: bool) -> Inst<F, R> {
    let rf = 2 * rng.below(if small { 3 } else { 5 });
    let rp = *rng.pick(&if small { [0usize, 1, 2, 3] } else { [0usize, 1, 6, 40] });
    n_at(fname, rng, t, d, rf, rp)
}

pub fn n_at<F: PrimeField, R: PrimeField>(fname: &str, _rng: &mut Rng, t: usize, d: usize, rf: usize, rp: usize) -> Inst<F, R> {
    let name = format!("custom Neptune<{}> t={} d={} rf={} rp={} #{}", fname, t, d, rf, rp, serial());
    let p = build("NeptuneParams::new", &name, || Arc::new(NeptuneParams::<F>::new(t, d, rf, rp)));
    n_inst(name, &p, (t, d, rf, rp))
}

/// All states of a tiny field if there are at most `cap`, else a structured sample.
fn sweep(d: &dyn Dyn, ev: &mut Ev, cap: usize, stream: &str, sample: usize) -> bool {
    let p = d.modulus()[0] as usize;
    let big_field = d.modulus()[1..].iter().any(|x| *x != 0) || p > 70_000;
    let total = if big_field { None } else { (0..d.t()).try_fold(1usize, |a, _| a.checked_mul(p)).filter(|n| *n <= cap) };
    match total {
        Some(n) => {
            for k in 0..n {
                let mut q = k;
                let x: Vec<El> = (0..d.t())
                    .map(|_| {
                        let e = [(q % p) as u64, 0, 0, 0];
                        q /= p;
                        e
                    })
                    .collect();
                observe(d, ev, "whole state space", &x);
            }
            ev.count("parameter sets with the whole state space observed", 1);
            true
        }
        None => {
            plan(d, ev, stream, sample, sample / 15 + 1, sample, false);
            false
        }
    }
}

pub struct FieldSet {
    pub name: &'static str,
    pub tiny: bool,
}

macro_rules! with_field {
    ($idx:expr, $f:ident ( $($a:expr),* )) => {
        match $idx {
            0 => $f::<zkhash::fields::babybear::FpBabyBear, crate::fields::babybear::F>("BabyBear", $($a),*),
            1 => $f::<zkhash::fields::goldilocks::FpGoldiLocks, crate::fields::goldilocks::F>("Goldilocks", $($a),*),
            2 => $f::<zkhash::fields::bls12::FpBLS12, crate::fields::bls12::F>("BLS12", $($a),*),
            3 => $f::<zkhash::fields::bn256::FpBN256, crate::fields::bn256::F>("BN256", $($a),*),
            4 => $f::<zkhash::fields::pallas::FpPallas, crate::fields::pallas::F>("Pallas", $($a),*),
            5 => $f::<zkhash::fields::vesta::FpVesta, crate::fields::vesta::F>("Vesta", $($a),*),
            6 => $f::<crate::fields::f3::F, crate::fields::f3::F>("F3", $($a),*),
            7 => $f::<crate::fields::f5::F, crate::fields::f5::F>("F5", $($a),*),
            8 => $f::<crate::fields::f7::F, crate::fields::f7::F>("F7", $($a),*),
            9 => $f::<crate::fields::f11::F, crate::fields::f11::F>("F11", $($a),*),
            10 => $f::<crate::fields::f13::F, crate::fields::f13::F>("F13", $($a),*),
            11 => $f::<crate::fields::f17::F, crate::fields::f17::F>("F17", $($a),*),
            12 => $f::<crate::fields::f257::F, crate::fields::f257::F>("F257", $($a),*),
            _ => $f::<crate::fields::f65537::F, crate::fields::f65537::F>("F65537", $($a),*),
        }
    };
}
pub(crate) use with_field;
pub const N_FIELDS: usize = 14;

fn one_custom<F: PrimeField, R: PrimeField>(fname: &str, ev: &mut Ev, fam: &str, t: usize, d: usize, rounds: usize, rng: &mut Rng, cap: usize, sample: usize) {
    let tiny = R::MODULUS_BIT_SIZE < 20;
    let small = tiny || rng.chance(1, 3);
    let inst: Box<dyn Dyn> = match fam {
        "poseidon2" => Box::new(random_p2::<F, R>(fname, rng, t, d, small, Shape::Any)),
        "poseidon" => Box::new(random_p::<F, R>(fname, rng, t, d, small)),
        "gmimc" => Box::new(random_g::<F, R>(fname, rng, t, d, rounds)),
        _ => Box::new(random_n::<F, R>(fname, rng, t, d, small)),
    };
    ev.count(&format!("parameter sets {} d={}", fam, d), 1);
    ev.count(&format!("parameter sets {} t={}", fam, t), 1);
    sweep(&*inst, ev, cap, &format!("c{}", rng.next()), sample);
}

/// Generated parameter sets of one family over all fields.
pub fn custom_jobs(fam: &'static str, reps: usize, cap: usize, sample: usize) -> Vec<Job<'static>> {
    let degrees: &[usize] = if fam == "poseidon2" { &[3, 5, 7, 11] } else { &[3, 5, 7] };
    let mut jobs: Vec<Job> = vec![];
    for f in 0..N_FIELDS {
        for chunk in 0..4usize {
            let degrees = degrees.to_vec();
            jobs.push(Box::new(move |ev: &mut Ev| {
                let mut rng = Rng::new(cfg().seed, &format!("custom/{}/{}/{}", fam, f, chunk));
                let widths: Vec<usize> = match fam {
                    "poseidon2" => P2_WIDTHS.to_vec(),
                    "poseidon" => vec![2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 24, 33],
                    "gmimc" => {
                        let mut v: Vec<usize> = (2..=26).collect();
                        v.extend([31, 32, 33, 40, 64]);
                        v
                    }
                    _ => vec![2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 24, 32, 60],
                };
                let mut extra = if [0, 2, 11].contains(&f) { dict_sizes(2, 48) } else { vec![] };
                extra.retain(|x| !widths.contains(x));
                for (wi, t) in widths.iter().chain(if fam == "poseidon" || fam == "gmimc" { extra.iter() } else { [].iter() }).enumerate() {
                    if wi % 4 != chunk {
                        continue;
                    }
                    for d in &degrees {
                        for rep in 0..reps {
                            let heavy = *t > 12;
                            if (heavy && rep > reps / 3) || (wi >= widths.len() && rep > 0) {
                                continue;
                            }
                            // rounds around the width boundaries, one round, many rounds
                            let rounds = match (rep, rng.below(5)) {
                                (_, 0) => 1 + rng.below(3),
                                (_, 1) => *t + rng.below(3) - 1,
                                (_, 2) => 2 * *t + rng.below(3) - 1,
                                (_, 3) => 1 + rng.below(*t),
                                _ => 20 + rng.below(300),
                            };
                            let s = if heavy { sample / 3 + 3 } else { sample };
                            with_field!(f, one_custom(ev, fam, *t, *d, rounds, &mut rng, cap, s));
                        }
                    }
                }
            }));
        }
    }
    jobs
}

fn one_extreme<F: PrimeField, R: PrimeField>(fname: &str, ev: &mut Ev, fam: &str, t: usize, d: usize, rf: usize, rp: usize, rng: &mut Rng, sample: usize) {
    let inst: Box<dyn Dyn> = match fam {
        "poseidon2" => Box::new(p2_at::<F, R>(fname, rng, t, d, rf, rp, Shape::Any)),
        "poseidon" => Box::new(p_at::<F, R>(fname, rng, t, d, rf, rp)),
        "gmimc" => Box::new(random_g::<F, R>(fname, rng, t, d, rp)),
        _ => Box::new(n_at::<F, R>(fname, rng, t, d, rf, rp)),
    };
    ev.count("parameter sets of extreme width or round number", 1);
    let stream = format!("x{}", rng.next());
    let mut g = Gen::new(&*inst, &stream);
    for _ in 0..sample {
        let (tag, x) = g.mixed();
        observe(&*inst, ev, tag, &x);
    }
    observe(&*inst, ev, "constant state", &vec![crate::gen::el(0); t]);
}

/// Widths and round numbers far from the usual ones: around the powers of two, hundreds and thousands.
pub fn extreme_jobs(fam: &'static str) -> Vec<Job<'static>> {
    let deep = cfg().thorough;
    let rounds = [31usize, 32, 33, 63, 64, 65, 100, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513, 600, 1023, 1024, 1025, 4099];
    // (t, rf, rp)
    let mut sets: Vec<(usize, usize, usize)> = vec![];
    match fam {
        "poseidon2" => {
            sets.extend([(2, 2, 65_540), (4, 65_540, 1)]);
            for r in rounds.iter().filter(|r| deep || **r < 1200) {
                sets.push((2, 2, *r));
                sets.push((3, r & !1, 3));
                sets.push((4, 4, *r));
                sets.push((8, r & !1, 2));
                if *r < 300 {
                    sets.push((12, 2, *r));
                    sets.push((24, r & !1, 1));
                    sets.push((16, r & !1, *r));
                    sets.push((20, 0, *r));
                }
            }
        }
        "poseidon" => {
            sets.extend([(2, 2, 65_540), (3, 65_540, 1)]);
            for r in rounds.iter().filter(|r| deep || **r < 1200) {
                sets.push((2, 2, *r));
                sets.push((3, r & !1, 3));
                sets.push((3, r & !1, *r));
                sets.push((5, 0, *r));
                if *r < 300 {
                    sets.push((9, r & !1, 2));
                    sets.push((8, 2, *r));
                }
            }
            for t in [31usize, 32, 34, 47, 48, 49, 63, 64, 65].iter().chain(if deep { [96usize, 127, 128, 129, 160].iter() } else { [].iter() }) {
                sets.push((*t, 2, 2));
                sets.push((*t, 4, 1));
            }
            sets.push((258, 2, 2));
            if deep {
                sets.extend([(255, 0, 2), (256, 2, 3), (257, 2, 2), (300, 2, 2)]);
            }
        }
        "gmimc" => {
            for r in rounds {
                for t in [2usize, 3, 4, 5, 7, 8, 9, 12, 16, 31] {
                    sets.push((t, 0, r));
                }
            }
            for t in [60usize, 63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 4097] {
                for r in [1usize, 2, 3, 17, t - 1, t, t + 1, 2 * t - 1, 2 * t, 2 * t + 1] {
                    if r <= 3000 {
                        sets.push((t, 0, r));
                    }
                }
            }
            if deep {
                sets.extend([(65535, 0, 5), (65536, 0, 5), (65537, 0, 5), (70_000, 0, 3), (3, 0, 70_000), (8, 0, 65_537), (2, 0, 140_000)]);
            } else {
                sets.extend([(65537, 0, 3), (3, 0, 65_540), (8, 0, 65_541)]);
            }
        }
        _ => {
            sets.extend([(2, 2, 65_540), (4, 65_540, 1)]);
            for r in rounds.iter().filter(|r| deep || **r < 1200) {
                sets.push((2, 2, *r));
                sets.push((4, r & !1, 3));
                sets.push((4, 4, *r));
                sets.push((8, r & !1, *r % 37));
                if *r < 300 {
                    sets.push((6, r & !1, *r));
                    sets.push((12, 2, *r));
                }
            }
            for t in [30usize, 32, 34, 62, 64, 66, 100, 128, 130, 256, 258].iter().chain(if deep { [126usize, 254, 300, 510, 512, 514].iter() } else { [].iter() }) {
                sets.push((*t, 2, 2));
                sets.push((*t, 4, 0));
                sets.push((*t, 0, 3));
            }
        }
    }
    let deg: &'static [usize] = if fam == "poseidon2" { &[3, 5, 7, 11] } else { &[3, 5, 7] };
    let n = 16;
    (0..n)
        .map(|part| {
            let sets: Vec<_> = sets.iter().cloned().skip(part).step_by(n).collect();
            Box::new(move |ev: &mut Ev| {
                let mut rng = Rng::new(cfg().seed, &format!("extreme/{}/{}", fam, part));
                for (t, rf, rp) in sets {
                    let d = *rng.pick(deg);
                    let big = t * (rf + rp) > 100_000 || (fam != "gmimc" && t > 120);
                    let f = if big { *rng.pick(&[0usize, 9, 11]) } else { *rng.pick(&[0usize, 0, 1, 2, 3, 4, 7, 11, 13]) };
                    with_field!(f, one_extreme(ev, fam, t, d, rf, rp, &mut rng, if big { 1 } else if cfg().scale < 0.5 { 2 } else { amount(4, 16) }));
                }
            }) as Job
        })
        .collect()
}

pub fn c04() -> Ev {
    let mut j = extreme_jobs("poseidon2");
    j.extend(custom_jobs("poseidon2", amount(30, 120), amount(3000, 200_000), amount(40, 120)));
    par(j)
}
pub fn c05() -> Ev {
    let mut j = extreme_jobs("poseidon");
    j.extend(custom_jobs("poseidon", amount(9, 60), amount(3000, 200_000), amount(40, 120)));
    par(j)
}
pub fn c06() -> Ev {
    let mut j = named_jobs("gmimc", amount(120_000, 2_500_000) as f64);
    j.extend(extreme_jobs("gmimc"));
    j.extend(custom_jobs("gmimc", amount(8, 40), amount(1500, 100_000), amount(24, 60)));
    let ev = par(j);
    note_hooks(ev)
}
pub fn c07() -> Ev {
    let mut j = named_jobs("neptune", amount(100_000, 2_500_000) as f64);
    j.extend(extreme_jobs("neptune"));
    j.extend(custom_jobs("neptune", amount(14, 80), amount(3000, 200_000), amount(40, 120)));
    let ev = par(j);
    note_hooks(ev)
}

fn note_hooks(mut ev: Ev) -> Ev {
    ev.count(if cfg!(vp_hooks) { "hooked build" } else { "unhooked build" }, 1);
    ev
}

// ---------------------------------------------------------------- C08
/// Whole image of a tiny state space: every output exactly once.
fn image(d: &dyn Dyn, ev: &mut Ev, cap: usize) {
    let p = d.modulus()[0] as usize;
    let t = d.t();
    let Some(n) = (0..t).try_fold(1usize, |a, _| a.checked_mul(p)).filter(|n| *n <= cap) else { return };
    for (e, en) in d.evaluators().iter().enumerate() {
        let mut owner: Vec<u32> = vec![u32::MAX; n];
        for k in 0..n {
            let mut q = k;
            let x: Vec<El> = (0..t)
                .map(|_| {
                    let v = [(q % p) as u64, 0, 0, 0];
                    q /= p;
                    v
                })
                .collect();
            let y = match catch(|| d.call(e, &x)) {
                Ok(y) => y,
                Err(m) => violation("a well-formed evaluation panicked", format!("{} {} input {}: {}", d.name(), en, hexv(&x), m)),
            };
            let mut idx = 0usize;
            for v in y.iter().rev() {
                idx = idx * p + v[0] as usize;
            }
            if y.len() != t || owner[idx] != u32::MAX {
                violation(
                    "two input states map to the same output state",
                    format!("{} {} output {}: inputs #{} and #{} (base-{} digits)", d.name(), en, hexv(&y), owner[idx], k, p),
                );
            }
            owner[idx] = k as u32;
            ev.case("image of a whole state space", fnv(&[sfp(d.name()), e as u64, k as u64]), y != x);
        }
        ev.count("complete images", 1);
    }
}

fn one_image<F: PrimeField, R: PrimeField>(fname: &str, ev: &mut Ev, fam: &str, t: usize, d: usize, rng: &mut Rng, cap: usize) {
    if R::MODULUS_BIT_SIZE > 20 {
        return;
    }
    let inst: Box<dyn Dyn> = match fam {
        "poseidon2" => Box::new(random_p2::<F, R>(fname, rng, t, d, true, Shape::Bijective)),
        "poseidon" => Box::new(random_p::<F, R>(fname, rng, t, d, true)),
        "gmimc" => {
            let r = 1 + rng.below(3 * t);
            Box::new(random_g::<F, R>(fname, rng, t, d, r))
        }
        _ => Box::new(random_n::<F, R>(fname, rng, t, d, true)),
    };
    // GMiMC is a Feistel network and always invertible; the others need invertible layers
    if fam == "gmimc" || inst.invertible() {
        image(&*inst, ev, cap);
    }
}

/// Sequences of evaluations on one large-field instance: no two states share an output, and
/// the model's inverse of an output is the input that produced it.
fn collide(d: &dyn Dyn, ev: &mut Ev, n: usize, part: usize) {
    let mut g = Gen::new(d, &format!("collide{}", part));
    let mut seen: std::collections::HashMap<u64, Vec<El>> = std::collections::HashMap::new();
    let mut ticks = 0u64;
    let mut obs = |ev: &mut Ev, tag: &str, x: Vec<El>| {
        for (e, en) in d.evaluators().iter().enumerate() {
            let y = match catch(|| d.call(e, &x)) {
                Ok(y) => y,
                Err(m) => violation("a well-formed evaluation panicked", format!("{} {} input {}: {}", d.name(), en, hexv(&x), m)),
            };
            // the model is invertible layer by layer: its own output needs no inversion, except for a sample
            ticks += 1;
            if d.has_model() && d.invertible() && (ticks % 16 == 1 || d.model(&x) != y) {
                let back = d.back(false, d.layers(false), &y).unwrap_or_default();
                if back != x {
                    violation(
                        "the specification's inverse of the output is another state than the input",
                        format!("{} {} ({}): input {} output {} inverse {}", d.name(), en, tag, hexv(&x), hexv(&y), hexv(&back)),
                    );
                }
                ev.count("outputs inverted", 1);
            }
            let key = fnv_els(e as u64, &y);
            if let Some(o) = seen.get(&key) {
                if *o != x && d.call(e, o) == y {
                    violation(
                        "two input states map to the same output state",
                        format!("{} {}: {} and {} -> {}", d.name(), en, hexv(o), hexv(&x), hexv(&y)),
                    );
                }
            } else {
                seen.insert(key, x.clone());
            }
            ev.case(tag, fnv_els(sfp(d.name()) ^ e as u64, &x), y != x);
            ev.sample(d.fam(), || format!("{} {} {} -> {}", d.name(), tag, hexv(&x[..x.len().min(4)]), hexv(&y[..y.len().min(2)])));
        }
    };
    if part == 0 {
        for (tag, x) in g.structured(false) {
            obs(ev, tag, x);
        }
    }
    for _ in 0..n / 12 {
        for x in g.group() {
            obs(ev, "perturbation group", x);
        }
    }
    if d.has_model() && d.invertible() {
        let l = d.layers(false) + 1;
        for k in 0..n {
            let (layer, var) = (g.rng.below(l), g.rng.below(CLASSES * d.t()));
            if let Some((tag, x)) = g.guided(d.fam() == "poseidon" && k % 2 == 1 && layer < d.layers(true), layer, var) {
                obs(ev, tag, x);
            }
        }
    }
}

pub fn c08() -> Ev {
    let mut jobs: Vec<Job> = vec![];
    let budget = amount(60_000, 1_500_000) as f64;
    let cnt = named().len() as f64;
    let mut v: Vec<Named> = named();
    v.sort_by(|a, b| weight(b).partial_cmp(&weight(a)).unwrap());
    for n in v {
        let k = (budget / cnt / weight(&n).max(0.05)).clamp(60.0, 40_000.0) as usize / 2;
        for part in 0..2 {
            let n = named().into_iter().find(|m| m.name == n.name).unwrap();
            jobs.push(Box::new(move |ev: &mut Ev| {
                let d = make(&n);
                collide(&*d, ev, k, part);
            }));
        }
    }
    let cap = amount(20_000, 1_000_000);
    for f in 6..N_FIELDS {
        for fam in ["poseidon2", "poseidon", "gmimc", "neptune"] {
            jobs.push(Box::new(move |ev: &mut Ev| {
                let mut rng = Rng::new(cfg().seed, &format!("image/{}/{}", fam, f));
                for rep in 0..amount(8, 40) {
                    let widths: &[usize] = match fam {
                        "poseidon2" => &[2, 3, 4, 8],
                        "neptune" => &[2, 4, 6, 8],
                        _ => &[2, 3, 4, 5, 6, 8, 9],
                    };
                    for t in widths {
                        for d in [3usize, 5, 7, 11] {
                            if d == 11 && fam != "poseidon2" {
                                continue;
                            }
                            if rep > 2 && *t > 4 {
                                continue;
                            }
                            with_field!(f, one_image(ev, fam, *t, d, &mut rng, cap));
                        }
                    }
                }
            }));
        }
    }
    note_hooks(par(jobs))
}
