//! C10: concurrent first use and concurrent use, natively, under ThreadSanitizer and under Miri.
use crate::compress::comp_width;
use crate::gen::el;
use crate::history::{child_env, fit, noise, pick_focus, refuse, tiny_inst, Judge};
use crate::inst::*;
use crate::perm::with_field;
use crate::pristine::{ask, pool, run, Op};
use crate::util::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::Relaxed};
use std::sync::{Barrier, Mutex};

fn touch_table(k: usize) -> u64 {
    use zkhash::{poseidon as p, poseidon2 as p2};
    let n = match k % 10 {
        0 => p2::poseidon2_instance_bls12::RC3.len(),
        1 => p2::poseidon2_instance_bls12::MAT_DIAG8_M_1.len(),
        2 => p2::poseidon2_instance_goldilocks::MAT_INTERNAL12.len(),
        3 => p2::poseidon2_instance_vesta::RC3.len(),
        4 => p::poseidon_instance_bls12::MDS3.len(),
        5 => p::poseidon_instance_babybear::RC16.len(),
        6 => p::poseidon_instance_pallas::MDS8.len(),
        7 => p::poseidon_instance_bn256::RC3.len(),
        8 => p::poseidon_instance_goldilocks::MDS20.len(),
        _ => p2::poseidon2_instance_babybear::RC24.len(),
    };
    n as u64
}

/// In a fresh process: many threads use every global instance for the first time at once.
/// Prints the values of the instances whose constants are fixed.
pub fn child_conc(a: &HashMap<String, String>) {
    let k: u64 = a.get("--k").and_then(|s| s.parse().ok()).unwrap_or(0);
    let mut rng = Rng::new(k, "child-conc");
    // waiting first users spin; under ThreadSanitizer more of them than cores starve the initialiser
    let threads = if cfg().variant == "tsan" { [2usize, 3, 4][rng.below(3)] } else { [2usize, 4, 8, 16, 32][rng.below(5)] };
    let all = named();
    let order: Vec<usize> = {
        let mut o: Vec<usize> = (0..all.len()).collect();
        for i in (1..o.len()).rev() {
            o.swap(i, rng.below(i + 1));
        }
        o
    };
    let mode = k % 3;
    let barrier = Barrier::new(threads);
    let results: Mutex<HashMap<(usize, usize), (usize, Result<Vec<El>, String>)>> = Mutex::new(HashMap::new());
    let first: Mutex<HashMap<usize, Vec<u8>>> = Mutex::new(HashMap::new());
    let check = |who: usize, i: usize, e: usize, r: Result<Vec<El>, String>| {
        let mut m = results.lock().unwrap();
        let (o, old) = m.entry((i, e)).or_insert((who, r.clone()));
        let same = match (&*old, &r) {
            (Ok(a), Ok(b)) => a == b,
            (Err(_), Err(_)) => true,
            _ => false,
        };
        if !same {
            violation(
                "concurrent first users of an instance see different results",
                format!("{} evaluator {}: thread {} got {:?}, thread {} got {:?} (process {}, {} threads, mode {})", all[i].name, e, o, old.as_ref().map(|v| hexv(v)), who, r.as_ref().map(|v| hexv(v)), k, threads, mode),
            );
        }
    };
    std::thread::scope(|s| {
        for w in 0..threads {
            let (barrier, order, all, check, first) = (&barrier, &order, &all, &check, &first);
            s.spawn(move || {
                let mut rng = Rng::new(k, &format!("w{}", w));
                let mut mine = order.clone();
                if mode != 0 {
                    for i in (1..mine.len()).rev() {
                        mine.swap(i, rng.below(i + 1));
                    }
                }
                if mode != 0 {
                    barrier.wait();
                }
                for i in mine {
                    if mode == 0 {
                        // everybody hits the same instance at the same moment
                        barrier.wait();
                        for _ in 0..rng.below(200) {
                            std::hint::spin_loop();
                        }
                    }
                    if mode == 2 {
                        if rng.chance(1, 4) {
                            noise(&mut rng);
                        }
                        let t = rng.below(10);
                        let _ = catch(|| touch_table(t));
                    }
                    let e = rng.below(2);
                    let r = catch(|| (all[i].touch)(e));
                    first.lock().unwrap().entry(i).or_default().push(w as u8);
                    let e = if all[i].fam == "poseidon" || all[i].fam == "gmimc" { e } else { 0 };
                    check(w, i, e, r);
                    PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                }
            });
        }
    });
    // alone again, after everybody has finished
    for (i, n) in all.iter().enumerate() {
        for e in 0..(if n.fam == "poseidon" || n.fam == "gmimc" { 2 } else { 1 }) {
            let r = catch(|| (n.touch)(e));
            check(threads, i, e, r.clone());
            if n.fam == "poseidon" || n.fam == "poseidon2" {
                println!("{} {} {}", i, e, r.map(|v| hexv(&v)).unwrap_or_else(|_| "panic".into()));
            }
        }
    }
    let first = first.into_inner().unwrap();
    let orders: std::collections::HashSet<&Vec<u8>> = first.values().collect();
    println!("threads {}", threads);
    println!("orders {}", orders.len());
}

fn first_uses(ev: &mut Ev, n: usize) {
    let names = named();
    let mut seen: HashMap<String, String> = HashMap::new();
    for (i, d) in pool().iter().enumerate().take(names.len()) {
        if d.fam() == "poseidon" || d.fam() == "poseidon2" {
            let x: Vec<El> = (0..d.t()).map(|k| el(k as u64)).collect();
            for e in 0..d.evaluators().len() {
                seen.insert(format!("{} {}", i, e), ask(i, Op::Perm(e), &x).map(|v| hexv(&v)).unwrap_or_else(|| "panic".into()));
            }
        }
    }
    let mut jobs: Vec<Job> = vec![];
    let seen = &seen;
    let names = &names;
    let lanes = if cfg().variant == "tsan" { 2 } else { 4 };
    for lane in 0..lanes {
        jobs.push(Box::new(move |ev: &mut Ev| {
            for k in (lane..n).step_by(lanes) {
                let Some(out) = child_env(&["child-conc", "--k", &(k as u64 + cfg().seed * 1000).to_string(), "--threads", "8"], 0) else { return };
                let mut lines = 0;
                for l in out.lines() {
                    let w: Vec<&str> = l.splitn(3, ' ').collect();
                    if w[0] == "threads" {
                        ev.count("threads racing for the first use", w[1].parse().unwrap_or(0));
                        ev.count("instances initialised under a race", names.len() as u64);
                        continue;
                    }
                    if w[0] == "orders" {
                        ev.count("distinct completion orders of racing first uses", w[1].parse().unwrap_or(0));
                        continue;
                    }
                    if w.len() != 3 {
                        continue;
                    }
                    lines += 1;
                    ev.case("racing first uses", fnv(&[sfp(l), k as u64]), true);
                    let v = &seen[&format!("{} {}", w[0], w[1])];
                    if v != w[2] {
                        violation("an instance first used concurrently returns another value than alone", format!("{} evaluator {}: got {} alone {} (process {})", names[w[0].parse::<usize>().unwrap()].name, w[1], w[2], v, k));
                    }
                }
                if lines == 0 {
                    inconclusive("a child process observed nothing");
                }
                ev.count("processes", 1);
            }
        }));
    }
    ev.merge(par(jobs));
}

/// All threads on the same few objects.
fn stress(ev: &mut Ev, threads: usize, epochs: usize, calls: usize, slow: bool) {
    let mut rng = Rng::new(cfg().seed, &format!("c10/{}/{}", threads, epochs));
    let barrier = Barrier::new(threads);
    let n = pool().len();
    // what each epoch shares: one or two instances, clones made beforehand, inputs
    struct Epoch {
        idx: Vec<usize>,
        objs: Vec<Box<dyn Dyn>>,
        inputs: Vec<Vec<Vec<El>>>,
        alone: Vec<Vec<Vec<Vec<El>>>>,
        /// order in which threads completed calls (relaxed: adds no synchronisation)
        next: AtomicUsize,
        log: Vec<AtomicU32>,
    }
    let plan: Vec<Epoch> = (0..epochs)
        .map(|_| {
            let a = rng.below(n);
            let same: Vec<usize> = (0..n).filter(|i| pool()[*i].t() == pool()[a].t()).collect();
            let mut idx: Vec<usize> = if rng.chance(1, 2) { vec![a] } else { vec![a, *rng.pick(&same)] };
            if rng.chance(1, 4) {
                idx = pick_focus(&mut rng);
                idx.truncate(2);
            }
            let shared = rng.chance(1, 2);
            let objs = idx.iter().map(|i| if rng.chance(1, 2) { pool()[*i].fork() } else { pool()[*i].again() }).collect();
            let k = if slow { 2 } else { 6 };
            let mut inputs: Vec<Vec<Vec<El>>> = idx
                .iter()
                .map(|i| {
                    let d = &*pool()[*i];
                    let base: Vec<El> = (0..d.t()).map(|_| d.rnd(&mut rng)).collect();
                    (0..k)
                        .map(|q| {
                            let mut x = base.clone();
                            if q > 0 {
                                let p = rng.below(d.t());
                                x[p] = d.rnd(&mut rng);
                            }
                            x
                        })
                        .collect()
                })
                .collect();
            if shared && idx.len() == 2 && pool()[idx[0]].t() == pool()[idx[1]].t() {
                inputs[1] = inputs[0].iter().map(|x| x.iter().map(|e| fit(&*pool()[idx[1]], e)).collect()).collect();
            }
            // without a second process (Miri) the values alone are taken here, before the threads exist
            let alone = if cfg!(miri) {
                idx.iter().zip(&inputs).map(|(i, xs)| xs.iter().map(|x| (0..pool()[*i].evaluators().len()).map(|e| run(&*pool()[*i], Op::Perm(e), x).unwrap_or_default()).collect()).collect()).collect()
            } else {
                vec![]
            };
            Epoch { idx, objs, inputs, alone, next: AtomicUsize::new(0), log: (0..96).map(|_| AtomicU32::new(0)).collect() }
        })
        .collect();
    let total = Mutex::new(Ev::default());
    std::thread::scope(|s| {
        for w in 0..threads {
            let (barrier, plan, total) = (&barrier, &plan, &total);
            s.spawn(move || {
                let mut ev = Ev::default();
                let mut j = Judge::new();
                let mut rng = Rng::new(cfg().seed, &format!("c10w{}", w));
                for (en, ep) in plan.iter().enumerate() {
                    barrier.wait();
                    let mut private: Option<Box<dyn Dyn>> = None;
                    for _ in 0..calls {
                        let q = rng.below(ep.idx.len());
                        let i = ep.idx[q];
                        let d: &dyn Dyn = match rng.below(6) {
                            0 | 1 => &*pool()[i],
                            2 | 3 => &*ep.objs[q],
                            4 => {
                                private = Some(ep.objs[q].fork());
                                &**private.as_ref().unwrap()
                            }
                            _ => match &private {
                                Some(p) if p.name() == pool()[i].name() => &**p,
                                _ => &*pool()[i],
                            },
                        };
                        let xi = rng.below(ep.inputs[q].len());
                        let x = ep.inputs[q][xi].clone();
                        let comp = d.t() == comp_width(d.fam());
                        let (op, y): (Op, Vec<El>) = match rng.below(10) {
                            0 if comp => (Op::Compress, vec![x[0], x[1]]),
                            1 if comp && !cfg!(miri) => (Op::Tree, x.iter().cycle().take(2 + rng.below(7)).cloned().collect()),
                            2 => {
                                refuse(d, &mut rng, &x);
                                ev.count("refused calls under concurrency", 1);
                                continue;
                            }
                            3 if rng.chance(1, 4) => {
                                noise(&mut rng);
                                ev.count("unrelated calls under concurrency", 1);
                                continue;
                            }
                            4 => {
                                let mut y = x.clone();
                                let p = rng.below(d.t());
                                y[p] = fit(d, &el(rng.next() >> 40));
                                (Op::Perm(rng.below(d.evaluators().len())), y)
                            }
                            _ => (Op::Perm(rng.below(d.evaluators().len())), x.clone()),
                        };
                        let got = run(d, op, &y);
                        if let Some(l) = ep.log.get(ep.next.fetch_add(1, Relaxed)) {
                            l.store(w as u32 + 1, Relaxed);
                        }
                        j.judge(&mut ev, d, "concurrent call", op, &y, &got, &|| {
                            if let Op::Perm(e) = op {
                                if cfg!(miri) {
                                    return if y == x { Some(ep.alone[q][xi][e].clone()) } else { got.clone().ok() };
                                }
                            }
                            if cfg!(miri) {
                                return got.clone().ok();
                            }
                            ask(i, op, &y)
                        });
                        if rng.chance(1, 16) {
                            std::thread::yield_now();
                        }
                    }
                    drop(private);
                    if w == 0 {
                        ev.count("epochs", 1);
                    }
                    let _ = en;
                }
                total.lock().unwrap().merge(ev);
            });
        }
    });
    ev.merge(total.into_inner().unwrap());
    let orders: std::collections::HashSet<Vec<u32>> = plan.iter().map(|e| e.log.iter().map(|x| x.load(Relaxed)).collect()).collect();
    ev.count("distinct completion orders of concurrent calls", orders.len() as u64);
    ev.count("switches between threads in recorded orders", orders.iter().map(|o| o.windows(2).filter(|p| p[0] != p[1]).count() as u64).sum());
    if let Some(o) = orders.iter().next() {
        ev.sample("completion order", || format!("{} threads: {:?}", threads, &o[..o.len().min(60)]));
    }
    ev.count("threads sharing instances", threads as u64);
}

/// Objects made, copied and dropped while others are in use: tiny instances, so that the calls are
/// mostly bookkeeping and threads meet inside it as often as possible.
fn clash(ev: &mut Ev, threads: usize, iters: usize) {
    let mut rng = Rng::new(cfg().seed, "clash");
    struct Subject {
        d: Box<dyn Dyn>,
        xs: Vec<Vec<El>>,
        perm: Vec<Vec<Vec<El>>>,
        comp: Vec<Vec<El>>,
        root: Vec<El>,
    }
    let mut all: Vec<Subject> = vec![];
    for fam in 0..4 {
        for f in [0usize, 2] {
            if cfg!(miri) && f > 0 {
                continue;
            }
            let t = if fam == 3 { 4 } else { 3 };
            let d: Box<dyn Dyn> = with_field!(f, tiny_inst(fam, t, &mut rng));
            let xs: Vec<Vec<El>> = (0..3).map(|_| (0..t).map(|_| d.rnd(&mut rng)).collect()).collect();
            let alone = |op: Op, x: &[El]| run(&*d, op, x).unwrap_or_else(|m| violation("a well-formed call panicked", format!("{} {:?}: {}", d.name(), op, m)));
            let perm = (0..d.evaluators().len()).map(|e| xs.iter().map(|x| alone(Op::Perm(e), x)).collect()).collect();
            let comp = xs.iter().map(|x| alone(Op::Compress, &x[..2])).collect();
            let root = alone(Op::Tree, &xs[0]);
            all.push(Subject { d, xs, perm, comp, root });
        }
    }
    // one subject at a time, one family at a time, everything at once
    let mut groups: Vec<Vec<usize>> = (0..8).map(|i| vec![i]).collect();
    groups.extend((0..4).map(|f| vec![2 * f, 2 * f + 1]));
    groups.extend([(0..8).collect::<Vec<_>>(), vec![0, 2], vec![1, 5], vec![3, 7]]);
    if cfg!(miri) {
        groups = vec![vec![0], vec![0, 1, 2, 3]];
    }
    let calls = AtomicUsize::new(0);
    for (gi, group) in groups.iter().enumerate() {
        let barrier = Barrier::new(threads);
        std::thread::scope(|s| {
            for w in 0..threads {
                let (barrier, all, calls) = (&barrier, &all, &calls);
                s.spawn(move || {
                    let mut rng = Rng::new(cfg().seed, &format!("clash{}/{}", gi, w));
                    barrier.wait();
                    for k in 0..iters {
                        let j = &all[*rng.pick(group)];
                        let d = &*j.d;
                        let bad = |what: &str, got: String| violation("a call returns another value while objects are made and dropped", format!("{} {}: {}", d.name(), what, got));
                        // half of the threads mostly make objects, the others mostly use them
                        let kind = if w % 2 == 0 { rng.below(8) } else { 3 + rng.below(12) };
                        let r = catch(|| match kind {
                            0..=2 => d.churn(3, false),
                            3 => d.churn(1, true),
                            4..=8 => {
                                let q = rng.below(3);
                                let r = d.call_many(d.evaluators().len(), &[j.xs[q][..2].to_vec()], 3, &[j.comp[q].clone()]);
                                if let Err((_, y)) = r {
                                    bad("compression", hexv(&y));
                                }
                            }
                            9..=12 => {
                                let e = rng.below(d.evaluators().len());
                                if let Err((_, y)) = d.call_many(e, &j.xs, 3, &j.perm[e]) {
                                    bad("permutation", hexv(&y));
                                }
                            }
                            13 => {
                                let y = d.tree(&j.xs[0]);
                                if vec![y] != j.root {
                                    bad("tree", hexv(&[y]));
                                }
                            }
                            _ => {
                                if k % 16 == 0 {
                                    refuse(d, &mut rng, &j.xs[0]);
                                } else if k % 16 == 1 {
                                    noise(&mut rng);
                                } else {
                                    drop(d.fork());
                                }
                            }
                        });
                        if let Err(m) = r {
                            bad("operation", format!("panic: {}", m));
                        }
                        if k % 64 == 0 {
                            PROGRESS.fetch_add(1, Relaxed);
                        }
                    }
                    calls.fetch_add(iters, Relaxed);
                });
            }
        });
        ev.case("objects made while others are used", fnv(&[gi as u64]), true);
    }
    ev.count("operations while objects are made and dropped", calls.into_inner() as u64);
}

/// Under Miri: a few lazily initialised globals raced for the first time, by all orders of threads.
fn miri_first(ev: &mut Ev) {
    let want = ["POSEIDON2_BABYBEAR_16_PARAMS", "GMIMC_GOLDILOCKS_8_PARAMS"];
    let all: Vec<Named> = named().into_iter().filter(|n| want.contains(&n.name)).collect();
    let out: Mutex<HashMap<usize, Vec<El>>> = Mutex::new(HashMap::new());
    std::thread::scope(|s| {
        for w in 0..2 {
            let (all, out) = (&all, &out);
            s.spawn(move || {
                for k in 0..all.len() {
                    let i = (k + w) % all.len();
                    if let Ok(r) = catch(|| (all[i].touch)(0)) {
                        if *out.lock().unwrap().entry(i).or_insert_with(|| r.clone()) != r {
                            violation("concurrent first users of an instance see different results", all[i].name.to_string());
                        }
                    }
                }
            });
        }
    });
    ev.count("instances initialised under a race", all.len() as u64);
    ev.case("racing first uses", cfg().seed, true);
}

pub fn c10() -> Ev {
    let mut ev = Ev::default();
    if cfg!(miri) {
        miri_first(&mut ev);
        stress(&mut ev, 3, amount(2, 6), 4, true);
        clash(&mut ev, 2, 6);
        return ev;
    }
    first_uses(&mut ev, amount(40, 600));
    let slow = cfg().variant == "tsan";
    stress(&mut ev, 8, amount(150, 2500), if slow { 24 } else { 150 }, slow);
    stress(&mut ev, 24, amount(60, 800), if slow { 8 } else { 60 }, slow);
    stress(&mut ev, 2, amount(60, 800), if slow { 30 } else { 200 }, slow);
    clash(&mut ev, 8, if slow { amount(1500, 10_000) } else { amount(20_000, 400_000) });
    clash(&mut ev, 3, if slow { amount(1500, 10_000) } else { amount(20_000, 400_000) });
    if !slow {
        // more threads than any table of slots
        stress(&mut ev, 160, amount(6, 60), 40, slow);
        stress(&mut ev, 400, amount(2, 20), 20, slow);
    }
    ev.count("answers of the pristine process", crate::pristine::asked());
    ev
}
