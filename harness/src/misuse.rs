//! C20: every misuse is watched for a returned value; correct use is re-observed afterwards.
use crate::fields::*;
use crate::gen::{dict_sizes, el, Gen};
use crate::inst::*;
use crate::perm::{cv, random_g, random_invertible, random_n, random_p, random_p2, tab, with_field, Shape, N_FIELDS, P2_WIDTHS};
use crate::refm;
use crate::util::*;
use ark_ff::PrimeField;
use std::sync::Arc;
use zkhash::gmimc::gmimc_params::GmimcParams;
use zkhash::neptune::neptune_params::NeptuneParams;
use zkhash::poseidon::poseidon_params::PoseidonParams;
use zkhash::poseidon2::poseidon2_params::Poseidon2Params;

/// Must not return.
fn refused<T>(ev: &mut Ev, tag: &str, fp: u64, desc: impl Fn() -> String, show: impl Fn(&T) -> String, f: impl FnOnce() -> T) {
    match catch(f) {
        Ok(v) => violation(&format!("misuse was answered instead of refused: {}", tag), format!("{} -> {}", desc(), show(&v))),
        Err(m) => {
            ev.case(tag, fp, true);
            ev.sample(tag, || format!("{}: {}", desc(), m.replace('\n', " ")));
        }
    }
}

fn lengths(t: usize, rng: &mut Rng, extra: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..t + 5).collect();
    v.extend([2 * t - 1, 2 * t, 2 * t + 1, 3 * t, 4 * t, t * t, t + 8, t + 16, t + 64, 255, 256, 257, 65536 + t]);
    for _ in 0..extra {
        v.push(rng.below(10 * t + 40));
    }
    let ds = dict_sizes(0, 5000);
    if !ds.is_empty() {
        for _ in 0..extra {
            v.push(*rng.pick(&ds));
        }
    }
    v.retain(|n| *n != t);
    v
}

fn wrong_lengths(d: &dyn Dyn, ev: &mut Ev, extra: usize, stream: &str) {
    let mut g = Gen::new(d, stream);
    let t = d.t();
    // correct calls, recorded before any refusal of this round
    let before: Vec<(usize, Vec<El>, Result<Vec<El>, String>)> = (0..6)
        .map(|k| {
            let x = if k % 2 == 0 { g.rvec() } else { g.mixed().1 };
            let e = k % d.evaluators().len();
            let y = catch(|| d.call(e, &x));
            (e, x, y)
        })
        .collect();
    let again = |ev: &mut Ev, k: usize| {
        let (e, x, y) = &before[k % 6];
        let z = catch(|| d.call(*e, x));
        match (y, &z) {
            (Ok(a), Ok(b)) if a == b => {}
            (Err(_), Err(_)) => {}
            _ => violation("correct use after a refused call gives another answer than before it", format!("{} {} {}: {:?} then {:?}", d.name(), d.evaluators()[*e], hexv(x), y.as_ref().map(|v| hexv(v)), z.as_ref().map(|v| hexv(v)))),
        }
        ev.case("correct use after a refusal", fnv_els(sfp(d.name()) ^ *e as u64, x), true);
    };
    for n in lengths(t, &mut g.rng.clone(), extra) {
        for e in 0..d.evaluators().len() {
            for kind in 0..4 {
                if n > 300 && kind > 0 {
                    continue;
                }
                let mut x = g.rvec();
                match kind {
                    0 => x.resize(n, el(0)),
                    1 => {
                        let last = x[t - 1];
                        x.resize(n, last)
                    }
                    2 => x = vec![el(0); n],
                    _ => {
                        x.truncate(n);
                        while x.len() < n {
                            x.push(g.any());
                        }
                    }
                }
                let tag = if n < t { "state too short" } else { "state too long" };
                refused(ev, tag, fnv_els(sfp(d.name()) ^ e as u64, &x), || format!("{} {} t={} with {} elements", d.name(), d.evaluators()[e], t, n), |v: &Vec<El>| hexv(&v[..v.len().min(4)]), || d.call(e, &x));
            }
        }
        if g.rng.chance(1, 6) {
            again(ev, n);
        }
    }
    (0..6).for_each(|k| again(ev, k));
}

fn bad_degrees(good: &[usize], rng: &mut Rng) -> Vec<usize> {
    let mut v: Vec<usize> = (0..70).collect();
    v.extend([127, 128, 129, 131, 255, 256, 257, 259, 261, 263, 267, 65535, 65536, 65537, 65539, 65541, 65543, 65547]);
    for g in [3usize, 5, 7, 11] {
        v.extend([g + (1 << 16), g + (1 << 32), g + (1 << 31), g | (1 << 63), usize::MAX - g, g.wrapping_neg(), 0usize.wrapping_sub(g) & 0xffff_ffff, g << 8, g << 32]);
    }
    v.extend([usize::MAX, usize::MAX - 1, 1 << 63, 1 << 62]);
    for _ in 0..20 {
        v.push((rng.next() >> rng.below(62)) as usize);
    }
    v.extend(dict_sizes(0, u32::MAX as u64));
    v.retain(|d| !good.contains(d));
    v.sort_unstable();
    v.dedup();
    v
}

fn odd_counts(rng: &mut Rng) -> Vec<usize> {
    let mut v: Vec<usize> = (0..16).map(|i| 2 * i + 1).collect();
    v.extend([55, 57, 63, 65, 99, 101, 127, 255, 257, 1001]);
    for _ in 0..6 {
        v.push(2 * rng.below(150) + 1);
    }
    v
}

fn params<F: PrimeField, R: PrimeField>(fname: &str, ev: &mut Ev, reps: usize, part: usize) {
    let mut rng = Rng::new(cfg().seed, &format!("c20/{}/{}", fname, part));
    let rng = &mut rng;
    let sh = |_: &()| "parameters".to_string();
    for rep in 0..reps {
        // ------------------------------------------------ degrees
        let t2 = *rng.pick(&P2_WIDTHS);
        let rf = 2 * rng.below(4);
        let rp = 1 + rng.below(4);
        let diag: Vec<F> = of_els(&to_els(&tab::<R>(rng, 1, t2).pop().unwrap()));
        let rc2: Vec<Vec<F>> = cv(&tab::<R>(rng, rf + rp, t2));
        let mi: Vec<Vec<F>> = refm::p2_internal(t2, &diag);
        let tp = 2 + rng.below(9);
        let mds: Vec<Vec<F>> = cv(&random_invertible::<R>(rng, tp, true));
        let rcp: Vec<Vec<F>> = cv(&tab::<R>(rng, rf + rp, tp));
        let tn = 2 * (1 + rng.below(8));
        for d in bad_degrees(&[3, 5, 7, 11], rng) {
            refused(ev, "Poseidon2 degree", fnv(&[d as u64, t2 as u64, sfp(fname)]), || format!("{} t={} d={}", fname, t2, d), sh, || drop(Poseidon2Params::<F>::new(t2, d, rf, rp, &diag, &mi, &rc2)));
        }
        for d in bad_degrees(&[3, 5, 7], rng) {
            refused(ev, "Poseidon degree", fnv(&[d as u64, tp as u64, sfp(fname), 1]), || format!("{} t={} d={}", fname, tp, d), sh, || drop(PoseidonParams::<F>::new(tp, d, rf, rp, &mds, &rcp)));
            refused(ev, "GMiMC degree", fnv(&[d as u64, tp as u64, sfp(fname), 2]), || format!("{} t={} d={}", fname, tp, d), sh, || drop(GmimcParams::<F>::new(tp, d, rf + rp)));
            refused(ev, "Neptune degree", fnv(&[d as u64, tn as u64, sfp(fname), 3]), || format!("{} t={} d={}", fname, tn, d), sh, || drop(NeptuneParams::<F>::new(tn, d, rf, rp)));
        }
        // ------------------------------------------------ odd numbers of full rounds
        let d = *rng.pick(&[3usize, 5, 7]);
        for rf in odd_counts(rng) {
            if rf > 300 && rep > 0 {
                continue;
            }
            let rc2: Vec<Vec<F>> = vec![diag.clone(); rf + rp];
            let rcp: Vec<Vec<F>> = vec![mds[0].clone(); rf + rp];
            refused(ev, "odd full rounds", fnv(&[rf as u64, t2 as u64, sfp(fname), 4]), || format!("Poseidon2 {} t={} rf={}", fname, t2, rf), sh, || drop(Poseidon2Params::<F>::new(t2, d, rf, rp, &diag, &mi, &rc2)));
            refused(ev, "odd full rounds", fnv(&[rf as u64, tp as u64, sfp(fname), 5]), || format!("Poseidon {} t={} rf={}", fname, tp, rf), sh, || drop(PoseidonParams::<F>::new(tp, d, rf, rp, &mds, &rcp)));
            refused(ev, "odd full rounds", fnv(&[rf as u64, tn as u64, sfp(fname), 6]), || format!("Neptune {} t={} rf={}", fname, tn, rf), sh, || drop(NeptuneParams::<F>::new(tn, d, rf, rp)));
        }
        // ------------------------------------------------ odd Neptune widths
        for t in (0..20).map(|i| 2 * i + 1).chain([63, 65, 101]) {
            refused(ev, "odd Neptune width", fnv(&[t as u64, rf as u64, sfp(fname), 7]), || format!("{} t={}", fname, t), sh, || drop(NeptuneParams::<F>::new(t, d, rf, rp)));
        }
        // ------------------------------------------------ Poseidon matrix rows and constant rows
        for n in (0..tp + 4).chain([2 * tp, 3 * tp]).filter(|n| *n != tp) {
            let mut m = mds.clone();
            if rep % 2 == 0 {
                m.resize(n, mds[0].clone());
            } else {
                // square, of another size
                m = cv(&random_invertible::<R>(rng, n.max(2), true));
                if m.len() == tp {
                    continue;
                }
            }
            refused(ev, "Poseidon matrix rows", fnv(&[n as u64, tp as u64, sfp(fname), 8, rep as u64]), || format!("{} t={} rows={}", fname, tp, n), sh, || drop(PoseidonParams::<F>::new(tp, d, rf, rp, &m, &rcp)));
        }
        for row in 0..rcp.len() {
            for n in [0, 1, tp - 1, tp + 1, tp + 2, 2 * tp].into_iter().filter(|n| *n != tp) {
                let mut r = rcp.clone();
                let fill = if rep % 2 == 0 { F::zero() } else { F::from(7u64) };
                r[row].resize(n, fill);
                refused(ev, "Poseidon constant row length", fnv(&[n as u64, tp as u64, row as u64, sfp(fname), 9]), || format!("{} t={} rf={} rp={} row {} of length {}", fname, tp, rf, rp, row, n), sh, || drop(PoseidonParams::<F>::new(tp, d, rf, rp, &mds, &r)));
            }
        }
        // every row of the same wrong length
        for n in [tp - 1, tp + 1, 2 * tp] {
            let r: Vec<Vec<F>> = cv(&tab::<R>(rng, rf + rp, n));
            refused(ev, "Poseidon constant row length", fnv(&[n as u64, tp as u64, 999, sfp(fname), 9]), || format!("{} t={} all rows of length {}", fname, tp, n), sh, || drop(PoseidonParams::<F>::new(tp, d, rf, rp, &mds, &r)));
        }
        // ------------------------------------------------ Poseidon2 widths
        let show = |v: &Vec<F>| hexv(&to_els(&v[..v.len().min(4)]));
        for t in (0..40usize).chain([48, 64, 100, 258, 260]).filter(|t| !P2_WIDTHS.contains(t)) {
            let x: Vec<F> = (0..t).map(|_| rand::<F>(rng)).collect();
            let dg = x.clone();
            for (rf, rp) in [(rf, rp), (0, 0), (0, rp), (2, 0)] {
                let rc = vec![x.clone(); rf + rp];
                refused(ev, "Poseidon2 unsupported width", fnv(&[t as u64, rf as u64, rp as u64, sfp(fname), 10]), || format!("{} t={} rf={} rp={}", fname, t, rf, rp), show, || {
                    let p = Arc::new(Poseidon2Params::<F>::new(t, d, rf, rp, &dg, &[], &rc));
                    Hash::p2(&p).call(0, &x)
                });
            }
        }
        // ------------------------------------------------ tables too short
        let x2: Vec<F> = (0..t2).map(|_| rand::<F>(rng)).collect();
        for n in 0..rf + rp {
            let rc = rc2[..n].to_vec();
            refused(ev, "Poseidon2 too few constant rows", fnv(&[n as u64, t2 as u64, rf as u64, rp as u64, sfp(fname), 11]), || format!("{} t={} rf={} rp={} rows={}", fname, t2, rf, rp, n), show, || {
                Hash::p2(&Arc::new(Poseidon2Params::<F>::new(t2, d, rf, rp, &diag, &mi, &rc))).call(0, &x2)
            });
            let rc = rcp[..n].to_vec();
            let xp: Vec<F> = (0..tp).map(|_| rand::<F>(rng)).collect();
            for e in 0..2 {
                refused(ev, "Poseidon too few constant rows", fnv(&[n as u64, tp as u64, rf as u64, rp as u64, sfp(fname), 12, e as u64]), || format!("{} t={} rf={} rp={} rows={} evaluator {}", fname, tp, rf, rp, n, e), show, || {
                    Hash::p(&Arc::new(PoseidonParams::<F>::new(tp, d, rf, rp, &mds, &rc))).call(e, &xp)
                });
            }
        }
        for row in 0..rf + rp {
            let partial = row >= rf / 2 && row < rf / 2 + rp;
            for n in if partial { 0..1 } else { 0..t2 } {
                let mut rc = rc2.clone();
                rc[row].truncate(n);
                refused(ev, "Poseidon2 constant row too short", fnv(&[n as u64, t2 as u64, row as u64, sfp(fname), 13]), || format!("{} t={} rf={} rp={} row {} of length {}", fname, t2, rf, rp, row, n), show, || {
                    Hash::p2(&Arc::new(Poseidon2Params::<F>::new(t2, d, rf, rp, &diag, &mi, &rc))).call(0, &x2)
                });
            }
        }
        if t2 >= 4 {
            for n in 0..t2 {
                let dg = diag[..n].to_vec();
                refused(ev, "Poseidon2 diagonal too short", fnv(&[n as u64, t2 as u64, rf as u64, sfp(fname), 14]), || format!("{} t={} rf={} rp={} diagonal of length {}", fname, t2, rf, rp, n), show, || {
                    Hash::p2(&Arc::new(Poseidon2Params::<F>::new(t2, d, rf, rp, &dg, &mi, &rc2))).call(0, &x2)
                });
            }
        }
        // ------------------------------------------------ wrong states on fresh parameter sets
        let small = true;
        let insts: Vec<Box<dyn Dyn>> = vec![
            Box::new(random_p2::<F, R>(fname, rng, t2, d, small, Shape::Any)),
            Box::new(random_p::<F, R>(fname, rng, tp, d, small)),
            Box::new(random_g::<F, R>(fname, rng, tp + 6 * (rep % 2), d, rf + rp)),
            Box::new(random_n::<F, R>(fname, rng, tn, d, small)),
        ];
        for i in insts {
            wrong_lengths(&*i, ev, 4, "c20 custom");
        }
        ev.count("parameter rounds", 1);
    }
}

pub fn c20() -> Ev {
    let mut jobs: Vec<Job> = vec![];
    let extra = amount(12, 400);
    for n in named() {
        jobs.push(Box::new(move |ev: &mut Ev| {
            let d = make(&n);
            wrong_lengths(&*d, ev, extra, "c20");
            wrong_lengths(&*d.fork(), ev, extra / 4, "c20 clone");
            ev.count("named instances", 1);
        }));
    }
    let reps = amount(8, 120);
    for part in 0..2usize {
        for f in 0..N_FIELDS {
            jobs.push(Box::new(move |ev: &mut Ev| with_field!(f, params(ev, reps, part))));
        }
    }
    par(jobs)
}
