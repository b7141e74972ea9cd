//! C21: a counting allocator watches the live heap between equal batches of calls.
use crate::api::Lin;
use crate::compress::comp_width;
use crate::fields::*;
use crate::gen::{specials, Gen};
use crate::inst::*;
use crate::perm::{cv, pick_val, random_invertible, tab, P2_WIDTHS};
use crate::refm;
use crate::util::*;
use ark_ff::PrimeField;
use sha2::digest::Output;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};
use std::sync::Arc;
use zkhash::fields::utils as zu;
use zkhash::gmimc::gmimc_params::GmimcParams;
use zkhash::merkle_tree::merkle_tree_f2 as f2;
use zkhash::merkle_tree::merkle_tree_fp as fp;
use zkhash::merkle_tree::merkle_tree_orchard as orch;
use zkhash::merkle_tree::merkle_tree_sapling as sapl;
use zkhash::neptune::neptune_params::NeptuneParams;
use zkhash::poseidon::poseidon_params::PoseidonParams;
use zkhash::poseidon2::poseidon2_params::Poseidon2Params;
use zkhash::utils as zmat;

pub struct Counting;
static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);
static BLOCKS: AtomicI64 = AtomicI64::new(0);
static EVENTS: AtomicI64 = AtomicI64::new(0);

fn note(bytes: i64, blocks: i64) {
    if ON.load(Relaxed) {
        LIVE.fetch_add(bytes, Relaxed);
        BLOCKS.fetch_add(blocks, Relaxed);
        EVENTS.fetch_add(1, Relaxed);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64, 1);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64, 1);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64), -1);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as i64 - l.size() as i64, 0);
        System.realloc(p, l, n)
    }
}

const BATCHES: usize = 6;

/// `f(rng)` performs one batch and says how many monitored calls it made.
fn class(ev: &mut Ev, what: &str, mut f: impl FnMut(&mut Rng) -> u64) {
    let mut rng = Rng::new(cfg().seed, &format!("c21/{}", what));
    let mut live = [0i64; BATCHES + 1];
    let mut blocks = [0i64; BATCHES + 1];
    let mut calls = 0;
    for _ in 0..2 {
        f(&mut rng);
    }
    live[0] = LIVE.load(Relaxed);
    blocks[0] = BLOCKS.load(Relaxed);
    let e0 = EVENTS.load(Relaxed);
    for b in 1..=BATCHES {
        calls += f(&mut rng);
        live[b] = LIVE.load(Relaxed);
        blocks[b] = BLOCKS.load(Relaxed);
        PROGRESS.fetch_add(1, Relaxed);
    }
    let events = EVENTS.load(Relaxed) - e0;
    let grows = |live: &[i64], blocks: &[i64], calls: u64| {
        let growth = live[BATCHES] - live[0];
        (1..=BATCHES).all(|b| live[b] > live[b - 1]) || (1..=BATCHES).all(|b| blocks[b] > blocks[b - 1]) || growth * 2 >= calls as i64 && growth > 256
    };
    if grows(&live, &blocks, calls) {
        // a store of bounded size that is still filling is no leak: look again, much longer
        let first = live.map(|x| x - live[0]);
        let mut calls = 0;
        for b in 0..=BATCHES {
            for _ in 0..40 {
                calls += f(&mut rng);
                PROGRESS.fetch_add(1, Relaxed);
            }
            live[b] = LIVE.load(Relaxed);
            blocks[b] = BLOCKS.load(Relaxed);
        }
        if grows(&live, &blocks, calls) {
            violation(
                "live memory grows with the number of calls",
                format!("{}: live bytes after each of {} equal batches {:?}; then {} more calls: bytes {:?}, blocks {:?}", what, BATCHES, first, calls, live.map(|x| x - live[0]), blocks.map(|x| x - blocks[0])),
            );
        }
        ev.count("stores that filled up and stopped growing", 1);
    }
    ev.case(what, fnv(&[sfp(what), cfg().seed]), calls > 0);
    ev.evaluations += calls;
    ev.count("monitored calls", calls);
    ev.count("heap events seen by the allocator", events as u64);
    ev.sample(what, || format!("{}: {} calls, {} heap events, live bytes after each batch {:?}", what, calls, events, live.map(|x| x - live[0])));
}

/// Rare retention: `f(n)` makes n cheap calls. What keeps one word per thousands of calls grows whenever
/// the number of calls doubles; a store of bounded size stops.
fn marathon(ev: &mut Ev, what: &str, first: u64, mut f: impl FnMut(u64)) {
    const DOUBLINGS: usize = 5;
    let step = |f: &mut dyn FnMut(u64), mut n: u64| {
        while n > 0 {
            let k = n.min(1 << 14);
            let _ = catch(|| f(k));
            n -= k;
            PROGRESS.fetch_add(1, Relaxed);
        }
        LIVE.load(Relaxed)
    };
    let mut calls = first;
    let mut live = vec![step(&mut f, first)];
    for _ in 0..DOUBLINGS {
        let l = step(&mut f, calls);
        live.push(l);
        calls *= 2;
    }
    let grows = |l: &[i64]| l.windows(2).all(|w| w[1] > w[0]);
    if grows(&live) {
        for _ in 0..3 {
            let l = step(&mut f, calls);
            live.push(l);
            calls *= 2;
        }
        if grows(&live) {
            let d: Vec<i64> = live.iter().map(|x| x - live[0]).collect();
            violation("live memory grows with the number of calls", format!("{}: live bytes after {} calls and after each doubling, up to {} calls: {:?}", what, first, calls, d));
        }
        ev.count("stores that filled up and stopped growing", 1);
    }
    ev.case("marathon", sfp(what), true);
    ev.evaluations += calls;
    ev.count("monitored calls", calls);
    ev.count("calls in marathons", calls);
    ev.sample(what, || format!("{}: {} calls, live bytes after each doubling {:?}", what, calls, live.iter().map(|x| x - live[0]).collect::<Vec<_>>()));
}

fn marathons(ev: &mut Ev, first: u64) {
    type B = zkhash::fields::babybear::FpBabyBear;
    type R = crate::fields::babybear::F;
    let mut rng = Rng::new(cfg().seed, "c21/marathons");
    for fam in 0..4 {
        let d = crate::history::tiny_inst::<B, R>("BabyBear", fam, if fam == 3 { 4 } else { 3 }, &mut rng);
        for e in 0..=d.evaluators().len() {
            let mut x: Vec<El> = (0..d.t()).map(|_| d.rnd(&mut rng)).collect();
            let what = format!("{} {}", d.fam(), d.evaluators().get(e).unwrap_or(&"compression"));
            marathon(ev, &what, first, |n| {
                if let Ok(y) = catch(|| d.chain(e, &x, n as usize)) {
                    x = y;
                }
            });
        }
        marathon(ev, &format!("{} objects", d.fam()), first / 4, |n| drop(catch(|| d.churn(n as usize, n % 2 == 0))));
        if fam == 2 {
            // the other evaluator of wide instances
            let w = crate::history::tiny_inst::<B, R>("BabyBear", fam, 8, &mut rng);
            let mut x: Vec<El> = (0..8).map(|_| w.rnd(&mut rng)).collect();
            marathon(ev, "gmimc wide permutation", first, |n| {
                if let Ok(y) = catch(|| w.chain(0, &x, n as usize)) {
                    x = y;
                }
            });
        }
    }
    let mut t = fp::MerkleTree::new(Lin { reenter: false });
    let mut v = vec![B::from(1u64), B::from(2u64), B::from(3u64)];
    marathon(ev, "field tree", first, |n| {
        for k in 0..n {
            v[(k % 3) as usize] = t.accumulate(&v);
        }
    });
    let mut t = f2::MerkleTree::<sha2::Sha256>::new();
    let mut v = vec![Output::<sha2::Sha256>::default(); 2];
    marathon(ev, "digest tree", first / 4, |n| {
        for k in 0..n {
            v[(k % 2) as usize] = t.accumulate(&v);
        }
    });
    let mut t = orch::MerkleTree::new(Lin { reenter: false });
    let mut v = vec![pasta_curves::pallas::Base::from(5); 2];
    marathon(ev, "Orchard tree", first, |n| {
        for k in 0..n {
            v[(k % 2) as usize] = t.accumulate(&v);
        }
    });
    let mut t = sapl::MerkleTree::new(Lin { reenter: false });
    let mut v = vec![jubjub::Base::from(5); 2];
    marathon(ev, "Sapling tree", first, |n| {
        for k in 0..n {
            v[(k % 2) as usize] = t.accumulate(&v);
        }
    });
    let mut i = 0u64;
    marathon(ev, "decoding", first / 2, |n| {
        for _ in 0..n {
            i += 1;
            let _ = std::hint::black_box(zu::from_hex::<B>(&format!("0x{:016x}", i.wrapping_mul(0x9E3779B97F4A7C15))));
        }
    });
    marathon(ev, "random elements", first, |n| {
        for _ in 0..n {
            std::hint::black_box(zu::random_scalar_without_0::<B>());
        }
    });
    marathon(ev, "matrix helpers", first / 2, |n| {
        for _ in 0..n {
            i += 1;
            let m = vec![vec![B::from(i | 1), B::from(3u64)], vec![B::from(0u64), B::from(7u64)]];
            let v = zmat::mat_transpose(&zmat::mat_inverse(&m));
            std::hint::black_box(PoseidonParams::<B>::mat_vec_mul(&v, &m[0]));
        }
    });
    marathon(ev, "parameter sets", first / 8, |n| {
        for _ in 0..n {
            i += 1;
            let m = vec![vec![B::from(2u64), B::from(i)], vec![B::from(1u64), B::from(1u64)]];
            let rc = vec![vec![B::from(i); 2]];
            drop(catch(|| drop(PoseidonParams::<B>::new(2, 7, 0, 1, &m, &rc))));
            drop(catch(|| drop(Poseidon2Params::<B>::new(2, 7, 0, 1, &rc[0], &m, &rc))));
            drop(catch(|| drop(GmimcParams::<B>::new(2, 7, 2))));
            drop(catch(|| drop(NeptuneParams::<B>::new(2, 7, 0, 1))));
        }
    });
    marathon(ev, "refused calls", first / 16, |n| {
        for _ in 0..n {
            drop(catch(|| drop(zu::from_hex::<B>("0x1"))));
            drop(catch(|| drop(PoseidonParams::<B>::new(2, 4, 0, 1, &[], &[]))));
        }
    });
}

fn input(d: &dyn Dyn, sp: &[El], rng: &mut Rng, k: usize) -> Vec<El> {
    let t = d.t();
    let mut x: Vec<El> = (0..t).map(|_| d.rnd(rng)).collect();
    match k % 12 {
        0 => x = vec![[0; 4]; t],
        1 => x = (0..t).map(|_| *rng.pick(sp)).collect(),
        2 => x = vec![*rng.pick(sp); t],
        3 => x[rng.below(t)] = *rng.pick(sp),
        4 => x = vec![x[0]; t],
        5 => x[0] = [0; 4],
        6 => x[rng.below(t)] = [0; 4],
        7 => x[t - 1] = [0; 4],
        8 => {
            let z = rng.below(t) + 1;
            x[t - z..].iter_mut().for_each(|e| *e = [0; 4]);
        }
        9 => {
            for e in x.iter_mut() {
                *e = [rng.next() >> 36, 0, 0, 0];
            }
        }
        10 => x[0] = [1, 0, 0, 0],
        _ => {}
    }
    x
}

fn instance(ev: &mut Ev, d: &dyn Dyn, label: &str, per: usize) {
    let sp = specials(d);
    let guided: Vec<Vec<El>> = {
        let mut g = Gen::new(d, "c21");
        let n = if d.has_model() { d.layers(false) } else { 0 };
        (0..24).filter_map(|k| if n == 0 { None } else { g.guided(false, (k * 7919) % n, k).map(|x| x.1) }).collect()
    };
    class(ev, &format!("{} evaluations", label), |rng| {
        let mut n = 0;
        for k in 0..per {
            let x = input(d, &sp, rng, k);
            for e in 0..d.evaluators().len() {
                let _ = catch(|| drop(d.call(e, &x)));
                n += 1;
            }
        }
        for x in &guided {
            let _ = catch(|| drop(d.call(0, x)));
            n += 1;
        }
        n
    });
    class(ev, &format!("{} refused evaluations", label), |rng| {
        let mut n = 0;
        for k in 0..per / 2 + 1 {
            let mut x = input(d, &sp, rng, k);
            let l = [d.t() + 1, d.t() - 1, 0, 2 * d.t(), d.t() + 3][k % 5];
            x.resize(l, [0; 4]);
            for e in 0..d.evaluators().len() {
                let _ = catch(|| drop(d.call(e, &x)));
                n += 1;
            }
        }
        n
    });
    class(ev, &format!("{} compressions and objects", label), |rng| {
        let fits = d.t() == comp_width(d.fam());
        let mut n = 0;
        for k in 0..per / 2 + 1 {
            let x = input(d, &sp, rng, k + 1);
            if fits {
                let _ = catch(|| drop(d.compress(&x[..2])));
                n += 1;
                if k % 8 == 0 {
                    let m = 1 + k % 9;
                    let v: Vec<El> = (0..m).map(|_| d.rnd(rng)).collect();
                    let _ = catch(|| drop(d.tree(&v)));
                    n += 1;
                }
            } else if k % 4 == 0 {
                let _ = catch(|| drop(d.compress(&[x[0], x[0]])));
                n += 1;
            }
            let c = match k % 3 {
                0 => d.fork(),
                1 => d.again(),
                _ => d.relocated(),
            };
            let _ = catch(|| drop(c.call(0, &x)));
            n += 1;
        }
        n
    });
}

fn generic<F: PrimeField>(ev: &mut Ev, fname: &str, per: usize) {
    let v = |rng: &mut Rng, n: usize| -> Vec<F> { (0..n).map(|_| pick_val::<F>(rng)).collect() };
    class(ev, &format!("{} matrix helpers", fname), |rng| {
        for k in 0..per {
            let n = 1 + k % 12;
            let m: Vec<Vec<F>> = (0..n).map(|_| v(rng, n)).collect();
            let x = v(rng, n);
            let _ = catch(|| drop(zmat::mat_inverse(&m)));
            let _ = catch(|| drop(zmat::mat_transpose(&m)));
            let _ = catch(|| drop(PoseidonParams::<F>::mat_vec_mul(&m, &x)));
            let _ = catch(|| drop(Poseidon2Params::<F>::mat_vec_mul(&m, &x)));
            let _ = catch(|| drop(PoseidonParams::<F>::mat_mat_mul(&m, &m)));
            let ragged = vec![x.clone(), vec![]];
            let _ = catch(|| drop(zmat::mat_inverse(&ragged)));
            let rc: Vec<Vec<F>> = (0..6).map(|_| v(rng, n)).collect();
            let _ = catch(|| drop(PoseidonParams::<F>::equivalent_matrices(&m, n, 3)));
            let _ = catch(|| drop(PoseidonParams::<F>::equivalent_round_constants(&rc, &m, 2, 3)));
            let _ = catch(|| drop(Poseidon2Params::<F>::equivalent_round_constants(&rc, &m, 2, 3)));
        }
        9 * per as u64
    });
    class(ev, &format!("{} decoding and random elements", fname), |rng| {
        for k in 0..4 * per {
            let mut s = String::from(if k % 7 == 0 { "" } else if k % 2 == 0 { "0x" } else { "0X" });
            for _ in 0..2 * (k % 70) + (k % 11 == 0) as usize {
                s.push(*rng.pick(&['0', '1', '7', '9', 'a', 'f', 'A', 'F', 'c', 'E']));
            }
            if k % 13 == 0 {
                s.push_str("zz");
            }
            let _ = catch(|| drop(zu::from_hex::<F>(&s)));
            let _ = catch(|| drop(zu::random_scalar::<F>()));
            let _ = catch(|| drop(zu::random_scalar_without_0::<F>()));
        }
        12 * per as u64
    });
    class(ev, &format!("{} constructing and dropping parameters", fname), |rng| {
        let mut n = 0;
        for k in 0..per / 3 + 1 {
            let d = [3usize, 5, 7, 11, 4][k % 5];
            let t2 = P2_WIDTHS[k % 8];
            let diag = v(rng, t2);
            let mi = refm::p2_internal(t2, &diag);
            let rc: Vec<Vec<F>> = tab(rng, 7, t2);
            let x = v(rng, t2);
            let _ = catch(|| {
                let p = Arc::new(Poseidon2Params::<F>::new(t2, d, 4, 3, &diag, &mi, &rc));
                let h = Hash::p2(&p);
                let h2 = h.relocated();
                (h.call(0, &x), h2.clone().call(0, &x))
            });
            let t = 2 + k % 7;
            let m = random_invertible::<F>(rng, t, true);
            let rc: Vec<Vec<F>> = cv::<F, F>(&tab(rng, 7, t));
            let x = v(rng, t);
            let _ = catch(|| {
                let p = Arc::new(PoseidonParams::<F>::new(t, d, 4, 3, &m, &rc));
                let h = Hash::p(&p);
                let h2 = h.relocated();
                (h.call(0, &x), h2.clone().call(1, &x))
            });
            let t = 2 + (k % 6) * 2;
            let x = v(rng, t);
            let _ = catch(|| {
                let h = Hash::g(&Arc::new(GmimcParams::<F>::new(t, d, 9)));
                let h2 = h.relocated();
                (h.call(0, &x), h2.clone().call(1, &x))
            });
            let _ = catch(|| {
                let h = Hash::n(&Arc::new(NeptuneParams::<F>::new(t, d, 4, 3)));
                let h2 = h.relocated();
                (h.call(0, &x), h2.clone().call(0, &x))
            });
            n += 12;
        }
        n
    });
    class(ev, &format!("{} field trees", fname), |rng| {
        let mut reused = fp::MerkleTree::new(Lin { reenter: false });
        for k in 0..per {
            // the largest size comes in every batch, the rest varies
            let n = if k == 0 { 200 } else { rng.below(130) };
            let x = v(rng, n);
            let _ = catch(|| drop(fp::MerkleTree::new(Lin { reenter: false }).accumulate(&x)));
            let _ = catch(|| drop(reused.accumulate(&x)));
            crate::api::set_fuse(rng.below(n + 1));
            let _ = catch(|| drop(reused.clone().accumulate(&x)));
            crate::api::set_fuse(usize::MAX);
        }
        3 * per as u64
    });
}

fn other_trees(ev: &mut Ev, per: usize) {
    let mut kept = f2::MerkleTree::<sha2::Sha256>::new();
    class(ev, "digest trees", |rng| {
        for k in 0..per {
            let n = if k == 0 { 200 } else { rng.below(130) };
            let x: Vec<Output<sha2::Sha256>> = (0..n)
                .map(|_| {
                    let mut o = Output::<sha2::Sha256>::default();
                    o.iter_mut().for_each(|b| *b = rng.next() as u8);
                    o
                })
                .collect();
            let _ = catch(|| drop(kept.accumulate(&x)));
            let _ = catch(|| drop(kept.clone().accumulate(&x)));
            let y: Vec<Output<sha3::Sha3_512>> = (0..n % 20).map(|_| Output::<sha3::Sha3_512>::default()).collect();
            let _ = catch(|| drop(f2::MerkleTree::<sha3::Sha3_512>::default().accumulate(&y)));
        }
        3 * per as u64
    });
    let mut o = orch::MerkleTree::new(Lin { reenter: false });
    let mut s = sapl::MerkleTree::new(Lin { reenter: false });
    class(ev, "Orchard and Sapling trees", |rng| {
        for k in 0..per {
            let n = if k == 0 { 200 } else { rng.below(130) };
            let x: Vec<_> = (0..n as u64).map(|i| pasta_curves::pallas::Base::from(i ^ rng.next())).collect();
            let y: Vec<_> = (0..n as u64).map(|i| jubjub::Base::from(i ^ rng.next())).collect();
            let _ = catch(|| drop(o.accumulate(&x)));
            let _ = catch(|| drop(o.clone().accumulate(&x)));
            let _ = catch(|| drop(s.accumulate(&y)));
            let _ = catch(|| drop(s.clone().accumulate(&y)));
        }
        4 * per as u64
    });
}

/// Sizes that never come back, below a largest one that comes in every batch (so that a reused buffer is no growth).
fn new_sizes(k: &mut u64, per: u64, prime: u64) -> Vec<usize> {
    let mut v = vec![prime as usize];
    for _ in 0..per {
        *k += 1;
        v.push((*k % prime * 7919 % prime) as usize);
    }
    v
}

/// Anything remembered per list length, string length or number of rounds shows here.
fn shapes(ev: &mut Ev) {
    type F = zkhash::fields::babybear::FpBabyBear;
    type B = pasta_curves::pallas::Base;
    type J = jubjub::Base;
    // primes above 8 + 7 * 40 batches' worth of sizes
    let (per, prime) = (30, 8713);
    let mut k = 0;
    let leaves: Vec<F> = (0..=prime).map(F::from).collect();
    class(ev, "field trees of ever new sizes", |_| {
        let v = new_sizes(&mut k, per, prime);
        for n in &v {
            let _ = catch(|| drop(fp::MerkleTree::new(Lin { reenter: false }).accumulate(&leaves[..*n])));
        }
        v.len() as u64
    });
    let mut k = 0;
    let leaves: Vec<Output<blake2::Blake2s256>> = (0..=prime)
        .map(|i| {
            let mut o = Output::<blake2::Blake2s256>::default();
            o[..8].copy_from_slice(&i.to_le_bytes());
            o
        })
        .collect();
    class(ev, "digest trees of ever new sizes", |_| {
        let v = new_sizes(&mut k, per, prime);
        for n in &v {
            let _ = catch(|| drop(f2::MerkleTree::<blake2::Blake2s256>::new().accumulate(&leaves[..*n])));
        }
        v.len() as u64
    });
    let mut k = 0;
    let leaves: Vec<B> = (0..=prime).map(B::from).collect();
    let leaves2: Vec<J> = (0..=prime).map(J::from).collect();
    class(ev, "Orchard and Sapling trees of ever new sizes", |_| {
        let v = new_sizes(&mut k, per, prime);
        for n in &v {
            let _ = catch(|| drop(orch::MerkleTree::new(Lin { reenter: false }).accumulate(&leaves[..*n])));
            let _ = catch(|| drop(sapl::MerkleTree::new(Lin { reenter: false }).accumulate(&leaves2[..*n])));
        }
        2 * v.len() as u64
    });
    let mut k = 0;
    let digits = format!("0x{}", "1f".repeat(prime as usize));
    class(ev, "hex strings of ever new lengths", |_| {
        let v = new_sizes(&mut k, per, prime);
        for n in &v {
            let _ = catch(|| drop(zu::from_hex::<F>(&digits[..2 + 2 * n])));
            let _ = catch(|| drop(zu::from_hex::<F>(&digits[..3 + 2 * (n - 1)])));
        }
        2 * v.len() as u64
    });
    let (per, prime) = (8, 2503);
    let mut k = 0;
    let rc: Vec<Vec<F>> = (0..prime + 5).map(|i| vec![F::from(i), F::from(i * i + 1)]).collect();
    let m = vec![vec![F::from(2u64), F::from(1u64)], vec![F::from(1u64), F::from(3u64)]];
    class(ev, "parameters of ever new round numbers", |_| {
        let v = new_sizes(&mut k, per, prime);
        for n in &v {
            let x = [F::from(3u64), F::from(*n as u64)];
            let _ = catch(|| {
                let h = Hash::g(&Arc::new(GmimcParams::<F>::new(2, 7, *n + 1)));
                drop(h.call(0, &x));
            });
            let _ = catch(|| {
                let h = Hash::n(&Arc::new(NeptuneParams::<F>::new(2, 7, 2, *n)));
                drop(h.call(0, &x));
            });
            let _ = catch(|| {
                let h = Hash::p(&Arc::new(PoseidonParams::<F>::new(2, 7, 4, *n + 1, &m, &rc)));
                drop(h.call(0, &x));
            });
            let _ = catch(|| {
                let h = Hash::p2(&Arc::new(Poseidon2Params::<F>::new(2, 7, 4, *n, &[F::from(1u64), F::from(2u64)], &m, &rc)));
                drop(h.call(0, &x));
            });
        }
        8 * v.len() as u64
    });
}

/// Threads that use the library and end give everything back.
fn threads(ev: &mut Ev, insts: &[Box<dyn Dyn>], n: usize) {
    class(ev, "threads that used the library and ended", |rng| {
        for k in 0..n {
            let d = &insts[(k * 7) % insts.len()];
            let x: Vec<El> = (0..d.t()).map(|_| d.rnd(rng)).collect();
            let (d, x) = (&**d, &x);
            std::thread::scope(|s| {
                s.spawn(move || {
                    for e in 0..d.evaluators().len() {
                        let _ = catch(|| drop(d.call(e, x)));
                    }
                    let _ = catch(|| drop(d.call(0, &x[1..])));
                    if d.t() == comp_width(d.fam()) {
                        let _ = catch(|| drop(d.tree(x)));
                    }
                    let _ = catch(|| drop(zu::random_scalar::<zkhash::fields::bls12::FpBLS12>()));
                });
            });
        }
        4 * n as u64
    });
}

pub fn c21() -> Ev {
    let mut ev = Ev::default();
    let insts: Vec<Box<dyn Dyn>> = named().iter().map(make).collect();
    // room for the harness's own bookkeeping, so that it does not move during measurements
    ev.distinct.reserve(4096);
    ON.store(true, Relaxed);
    let per = amount(40, 600);
    for d in &insts {
        instance(&mut ev, &**d, d.name(), per);
    }
    let per = amount(120, 2500);
    generic::<zkhash::fields::babybear::FpBabyBear>(&mut ev, "BabyBear", per);
    generic::<zkhash::fields::goldilocks::FpGoldiLocks>(&mut ev, "Goldilocks", per);
    generic::<zkhash::fields::bls12::FpBLS12>(&mut ev, "BLS12", per);
    generic::<zkhash::fields::bn256::FpBN256>(&mut ev, "BN256", per);
    generic::<zkhash::fields::pallas::FpPallas>(&mut ev, "Pallas", per);
    generic::<zkhash::fields::vesta::FpVesta>(&mut ev, "Vesta", per);
    generic::<crate::fields::f17::F>(&mut ev, "F17", per);
    other_trees(&mut ev, per);
    shapes(&mut ev);
    threads(&mut ev, &insts, amount(60, 800));
    marathons(&mut ev, amount(1 << 16, 1 << 19) as u64);
    ON.store(false, Relaxed);
    ev
}
