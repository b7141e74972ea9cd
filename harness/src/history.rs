//! C09: results along random call histories, judged against the same call made alone.
use crate::compress::comp_width;
use crate::fields::*;
use crate::gen::{big, dict_sizes, el, Gen};
use crate::inst::*;
use crate::perm::{n_at, p2_at, p_at, random_g, random_n, random_p, random_p2, with_field, Shape};
use crate::pristine::{self, ask, ask_recipe, pool, run, Op};
use crate::trees::expected;
use crate::util::*;
use ark_ff::PrimeField;
use std::collections::{HashMap, VecDeque};

use zkhash::fields as zf;
use zkhash::gmimc::gmimc_params::GmimcParams;
use zkhash::neptune::neptune_params::NeptuneParams;

// ---------------------------------------------------------------- child processes
/// Run this binary again; a verdict or crash of the child is ours. None: it could not be started.
pub fn child(args: &[&str]) -> Option<String> {
    child_env(args, 0)
}

pub fn child_env(args: &[&str], env: usize) -> Option<String> {
    if cfg!(miri) {
        return None;
    }
    let exe = std::env::current_exe().ok()?;
    let c = cfg();
    let mut cmd = std::process::Command::new(exe);
    cmd.args(args)
        .args(["--prop", &c.prop, "--variant", &c.variant, "--repo", &c.repo, "--replay", &c.replay_dir])
        .args(["--tier", if c.thorough { "thorough" } else { "quick" }]);
    match env % 4 {
        1 => {
            let keep: Vec<(String, String)> = std::env::vars().filter(|(k, _)| k.ends_with("SAN_OPTIONS")).collect();
            cmd.env_clear().envs(keep);
            cmd.current_dir("/");
        }
        2 => {
            cmd.env("RUST_BACKTRACE", "1").env("LC_ALL", "C").env("TZ", "Asia/Kathmandu");
        }
        3 => {
            cmd.env("RUST_LOG", "trace").env("DEBUG", "1").env("HOME", "/nonexistent").env("RUST_TEST_THREADS", "1");
        }
        _ => {}
    }
    let o = match cmd.stdin(std::process::Stdio::null()).output() {
        Ok(o) => o,
        Err(e) => inconclusive(&format!("cannot start a child process: {}", e)),
    };
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    let err = String::from_utf8_lossy(&o.stderr).to_string();
    if o.status.success() {
        return Some(out);
    }
    eprint!("{}", err);
    use std::os::unix::process::ExitStatusExt;
    if out.contains(&format!("VIOLATION property={} ", c.prop)) {
        print!("{}", out);
        std::process::exit(1);
    }
    let head: String = err.lines().take(30).collect::<Vec<_>>().join("\n");
    let san = ["ThreadSanitizer", "AddressSanitizer", "overflowed its stack", "cannot unwind", "unsafe precondition"];
    if matches!(o.status.signal(), Some(4 | 6 | 7 | 8 | 11)) && !err.contains("memory allocation of") || san.iter().any(|s| err.contains(s)) {
        violation("a child process crashed or its sanitizer reported an error", format!("{:?} {:?}\n{}", args, o.status, head));
    }
    inconclusive(&format!("a child process failed: {:?} {:?} {}", args, o.status, head));
}

// ---------------------------------------------------------------- subjects
fn one_recipe<F: PrimeField, R: PrimeField>(fname: &str, rng: &mut Rng, p2: bool) -> Box<dyn Dyn> {
    // one shape per field and family, so that sets differ only in their contents
    if p2 {
        let t = *rng.pick(&[3usize, 4]);
        Box::new(random_p2::<F, R>(fname, rng, t, 5, true, Shape::Any))
    } else {
        Box::new(random_p::<F, R>(fname, rng, 3, 5, true))
    }
}

/// A generated Poseidon or Poseidon2 parameter set, fully determined by its number.
pub fn recipe(seed: u64) -> Box<dyn Dyn> {
    let mut rng = Rng::new(seed, "recipe");
    let f = *rng.pick(&[0usize, 1, 2, 11]);
    let p2 = rng.chance(1, 2);
    with_field!(f, one_recipe(&mut rng, p2))
}

fn one_random<F: PrimeField, R: PrimeField>(fname: &str, rng: &mut Rng, fam: usize) -> Box<dyn Dyn> {
    match fam {
        0 => Box::new(random_p2::<F, R>(fname, rng, 3, 5, true, Shape::Any)),
        1 => Box::new(random_p::<F, R>(fname, rng, 3, 5, true)),
        2 => {
            let t = *rng.pick(&[3usize, 3, 8, 9]);
            Box::new(random_g::<F, R>(fname, rng, t, 5, 10))
        }
        _ => Box::new(random_n::<F, R>(fname, rng, 4, 5, true)),
    }
}

/// Every named instance and small caller-made ones, several of each shape.
pub fn build_pool() -> Vec<Box<dyn Dyn>> {
    let mut v: Vec<Box<dyn Dyn>> = if cfg!(miri) { vec![] } else { named().iter().map(make).collect() };
    let mut rng = Rng::new(cfg().seed, "pool");
    for f in [0usize, 1, 2, 4] {
        if cfg!(miri) && f > 0 {
            continue;
        }
        for fam in 0..4 {
            for _ in 0..2 {
                v.push(with_field!(f, one_random(&mut rng, fam)));
            }
        }
    }
    // three of exactly one shape each: they differ in their tables alone
    for (f, fam) in twin_kinds() {
        for _ in 0..TWINS {
            v.push(with_field!(f, one_twin(&mut rng, fam)));
        }
    }
    v
}

const TWINS: usize = 3;
fn twin_kinds() -> Vec<(usize, usize)> {
    let fields: &[usize] = if cfg!(miri) { &[] } else { &[0, 1, 2] };
    fields.iter().flat_map(|f| (0..4).map(move |fam| (*f, fam))).collect()
}

fn one_twin<F: PrimeField, R: PrimeField>(fname: &str, rng: &mut Rng, fam: usize) -> Box<dyn Dyn> {
    match fam {
        0 => Box::new(p2_at::<F, R>(fname, rng, 3, 5, 4, 3, Shape::Any)),
        1 => Box::new(p_at::<F, R>(fname, rng, 3, 5, 4, 3)),
        2 => Box::new(random_g::<F, R>(fname, rng, 3, 5, 10)),
        _ => Box::new(n_at::<F, R>(fname, rng, 4, 5, 4, 3)),
    }
}

/// The instances a worker stays with for a while: sets of one shape, or mostly ones of one width,
/// whose inputs are interchangeable.
pub fn pick_focus(rng: &mut Rng) -> Vec<usize> {
    let n = pool().len();
    let kinds = twin_kinds().len();
    if kinds > 0 && rng.chance(1, 3) {
        let first = n - (1 + rng.below(kinds)) * TWINS;
        return (first..first + TWINS).collect();
    }
    let a = rng.below(n);
    let same: Vec<usize> = (0..n).filter(|i| pool()[*i].t() == pool()[a].t()).collect();
    let mut focus: Vec<usize> = (0..3).map(|_| if rng.chance(2, 3) { *rng.pick(&same) } else { rng.below(n) }).collect();
    focus.push(a);
    focus
}

fn comp_state(d: &dyn Dyn, a: &El, b: &El) -> Vec<El> {
    let mut s = vec![*a, *b];
    s.resize(d.t(), el(0));
    s
}

pub fn by_model(d: &dyn Dyn, op: Op, x: &[El]) -> Option<Vec<El>> {
    if !d.has_model() {
        return None;
    }
    Some(match op {
        Op::Perm(_) => d.model(x),
        Op::Compress => vec![d.model(&comp_state(d, &x[0], &x[1]))[0]],
        Op::Tree => vec![expected(x, |_, a, b| d.model(&comp_state(d, a, b))[0])],
    })
}

pub struct Judge {
    memo: HashMap<u64, u64>,
    tick: u64,
}
impl Judge {
    pub fn new() -> Self {
        Judge { memo: HashMap::new(), tick: 0 }
    }
    /// The verdict on one observed call. `alone` answers the same call without a history.
    pub fn judge(&mut self, ev: &mut Ev, d: &dyn Dyn, what: &str, op: Op, x: &[El], got: &Result<Vec<El>, String>, alone: &dyn Fn() -> Option<Vec<El>>) {
        self.tick += 1;
        let opn = match op {
            Op::Perm(e) => e as u64,
            Op::Compress => 100,
            Op::Tree => 200,
        };
        let key = fnv_els(sfp(d.name()) ^ opn.wrapping_mul(0x9E37), x);
        ev.case(what, fnv(&[key, sfp(what)]), true);
        let want = by_model(d, op, x);
        let same_model = match (&want, got) {
            (Some(w), Ok(g)) => w == g,
            _ => false,
        };
        let first = match got {
            Ok(g) => {
                let h = fnv_els(1, g);
                let o = *self.memo.entry(key).or_insert(h);
                if self.memo.len() > 400_000 {
                    self.memo.clear();
                }
                o == h
            }
            Err(_) => false,
        };
        // a sample of the calls is replayed alone even when everything agrees
        let replay = self.tick % 400 == 7 || (want.is_none() && self.tick % 12 == 5);
        if same_model && first && !replay {
            return;
        }
        if want.is_none() && first && !replay {
            return;
        }
        let a = alone();
        ev.count("calls replayed alone", 1);
        let describe = |r: &Option<Vec<El>>| r.as_ref().map(|v| hexv(v)).unwrap_or_else(|| "panic".into());
        let g = got.clone().ok();
        if g != a {
            violation(
                "a call returns another value with this history than alone",
                format!("{} {:?} input {} ({}): got {} alone {} panic: {:?}", d.name(), op, hexv(x), what, describe(&g), describe(&a), got.as_ref().err()),
            );
        }
        if g.is_some() && !first {
            violation("a call returns another value than before with the same input", format!("{} {:?} input {} ({}): now {}", d.name(), op, hexv(x), what, describe(&g)));
        }
        if !same_model && want.is_some() {
            ev.count("consistent deviations from the specification (not judged here)", 1);
        }
    }
}

pub fn fit(d: &dyn Dyn, x: &El) -> El {
    if big(x) >= big(&d.modulus()) {
        d.red(&big(x))
    } else {
        *x
    }
}

/// Calls that do not belong to the history's subjects: refused calls, other API, new parameters.
pub fn noise(rng: &mut Rng) {
    use zkhash::fields::utils::*;
    type B = zf::bls12::FpBLS12;
    let _ = match rng.below(7) {
        0 => catch(|| drop(random_scalar::<B>())),
        1 => catch(|| drop(from_hex::<B>("0x12f"))),
        2 => catch(|| drop(zkhash::utils::mat_inverse(&[vec![B::from(0u64)]]))),
        3 => {
            let t = 2 + rng.below(4);
            catch(|| drop(GmimcParams::<zf::babybear::FpBabyBear>::new(t, 5, 3)))
        }
        4 => {
            let d = rng.below(12);
            catch(|| drop(NeptuneParams::<B>::new(4, d, 2, 1)))
        }
        5 => catch(|| drop(from_hex::<B>("0x00ff"))),
        _ => catch(|| drop(zkhash::utils::mat_inverse(&[vec![B::from(3u64), B::from(1u64)], vec![B::from(1u64), B::from(1u64)]]))),
    };
}

/// A refused call: wrong length, on the permutation or (for widths that do not compress) compression.
pub fn refuse(d: &dyn Dyn, rng: &mut Rng, x: &[El]) {
    let mut y = x.to_vec();
    match rng.below(4) {
        0 => y.truncate(rng.below(d.t())),
        1 => y.push(el(0)),
        2 => y.extend(x.to_vec()),
        _ => y.clear(),
    }
    let e = rng.below(d.evaluators().len());
    let _ = catch(|| d.call(e, &y));
    if d.t() != comp_width(d.fam()) {
        let _ = catch(|| d.compress(&[x[0], x[0]]));
    }
}

fn worker(ev: &mut Ev, w: usize, ops: usize) {
    let mut rng = Rng::new(cfg().seed, &format!("c09/{}", w));
    let mut j = Judge::new();
    let n = pool().len();
    // inputs common to all workers
    let mut crng = Rng::new(cfg().seed, "c09/common");
    let common: Vec<Vec<El>> = (0..n).map(|i| (0..pool()[i].t()).map(|_| pool()[i].rnd(&mut crng)).collect()).collect();
    let mut recent: HashMap<usize, VecDeque<Vec<El>>> = HashMap::new();
    let mut focus: Vec<usize> = vec![0, 1, 2];
    let mut objs: HashMap<(usize, usize), Box<dyn Dyn>> = HashMap::new();
    for k in 0..ops {
        if k % 60 == 0 {
            focus = pick_focus(&mut rng);
        }
        let i = *rng.pick(&focus);
        let orig: &dyn Dyn = &*pool()[i];
        let kind = rng.below(6);
        let fresh: Option<Box<dyn Dyn>>;
        let d: &dyn Dyn = match kind {
            0 | 1 => orig,
            2 | 3 | 4 => {
                if !objs.contains_key(&(i, kind)) || rng.chance(1, 40) {
                    let o = match kind {
                        2 => orig.fork(),
                        3 => orig.again(),
                        _ => orig.relocated(),
                    };
                    objs.insert((i, kind), o);
                }
                &**objs.get(&(i, kind)).unwrap()
            }
            _ => {
                fresh = Some(orig.fork().again());
                &**fresh.as_ref().unwrap()
            }
        };
        // the input: seen before by this or another instance of the width, a relative of it, or new
        let t = d.t();
        let rec = recent.entry(t).or_default();
        let mut x: Vec<El> = match rng.below(8) {
            0 | 1 | 2 if !rec.is_empty() => rec[rng.below(rec.len())].clone(),
            3 => common[i].clone(),
            4 | 5 if !rec.is_empty() => {
                let mut g = Gen { d: orig, rng: rng.clone(), core: vec![el(0), el(1), orig.neg(&el(1))], sp: vec![el(0), el(5)], p: orig.modulus() };
                let mut y: Vec<El> = rec[g.rng.below(rec.len())].iter().map(|e| fit(orig, e)).collect();
                for _ in 0..1 + g.rng.below(2) {
                    let p = g.rng.below(t);
                    y[p] = g.tweak(&y[p]);
                }
                if g.rng.chance(1, 5) {
                    let (a, b) = (g.rng.below(t), g.rng.below(t));
                    y.swap(a, b);
                }
                rng = g.rng;
                y
            }
            6 => (0..t).map(|_| el(rng.below(3) as u64)).collect(),
            _ => (0..t).map(|_| orig.rnd(&mut rng)).collect(),
        };
        x.iter_mut().for_each(|e| *e = fit(orig, e));
        rec.push_back(x.clone());
        if rec.len() > 6 {
            rec.pop_front();
        }
        let alone = |op: Op, x: &[El]| {
            let x = x.to_vec();
            move || ask(i, op, &x)
        };
        match rng.below(16) {
            0 => {
                refuse(d, &mut rng, &x);
                ev.count("refused calls in histories", 1);
            }
            1 => {
                noise(&mut rng);
                ev.count("unrelated calls in histories", 1);
            }
            2 => {
                let e = rng.below(d.evaluators().len());
                let mut xs = vec![x.clone()];
                for _ in 0..3 {
                    let mut y = x.clone();
                    let p = rng.below(t);
                    y[p] = orig.add(&y[p], &el(1));
                    xs.push(y);
                }
                xs.push(x.clone());
                match catch(|| d.call_inplace(e, &xs)) {
                    Ok(r) => {
                        for (x, g) in xs.iter().zip(r) {
                            j.judge(ev, d, "same buffer, overwritten", Op::Perm(e), x, &Ok(g), &alone(Op::Perm(e), x));
                        }
                    }
                    Err(m) => j.judge(ev, d, "same buffer, overwritten", Op::Perm(e), &x, &Err(m), &alone(Op::Perm(e), &x)),
                }
            }
            3 | 4 if t == comp_width(d.fam()) => {
                let p = [x[0], x[1]];
                let g = run(d, Op::Compress, &p);
                j.judge(ev, d, "compression", Op::Compress, &p, &g, &alone(Op::Compress, &p));
            }
            5 if t == comp_width(d.fam()) => {
                let mut l = x.clone();
                for _ in 0..rng.below(4) {
                    l.push(orig.rnd(&mut rng));
                }
                let g = run(d, Op::Tree, &l);
                j.judge(ev, d, "tree", Op::Tree, &l, &g, &alone(Op::Tree, &l));
            }
            6 => {
                // on a thread of its own
                let e = rng.below(d.evaluators().len());
                let g = std::thread::scope(|s| s.spawn(|| run(d, Op::Perm(e), &x)).join()).unwrap_or_else(|_| Err("thread".into()));
                j.judge(ev, d, "on a new thread", Op::Perm(e), &x, &g, &alone(Op::Perm(e), &x));
            }
            7 => {
                // short-lived parameter sets: addresses get reused
                let base = rng.next() >> 20;
                let mut y: Option<Vec<El>> = None;
                for q in 0..4 {
                    let seed = base + q;
                    let r = recipe(seed);
                    let y = y.get_or_insert_with(|| (0..r.t()).map(|_| r.rnd(&mut rng)).collect());
                    let mut z: Vec<El> = y.iter().map(|e| fit(&*r, e)).collect();
                    z.resize(r.t(), el(1));
                    let e = rng.below(r.evaluators().len());
                    let g = run(&*r, Op::Perm(e), &z);
                    j.judge(ev, &*r, "short-lived instance", Op::Perm(e), &z, &g, &|| ask_recipe(seed, Op::Perm(e), &z));
                }
                for q in 0..3 {
                    let r = with_field!([0usize, 2][q % 2], one_random(&mut rng, 2 + q % 2));
                    let z: Vec<El> = (0..r.t()).map(|k| el(k as u64 + 1)).collect();
                    let g = run(&*r, Op::Perm(0), &z);
                    j.judge(ev, &*r, "short-lived instance", Op::Perm(0), &z, &g, &|| run(&*r.relocated(), Op::Perm(0), &z).ok());
                }
            }
            8 => {
                let e = rng.below(d.evaluators().len());
                let g = catch(|| d.call_orphan(e, &x));
                j.judge(ev, d, "object that alone holds its parameters", Op::Perm(e), &x, &g, &alone(Op::Perm(e), &x));
            }
            _ => {
                let e = rng.below(d.evaluators().len());
                let g = run(d, Op::Perm(e), &x);
                j.judge(ev, d, ["original object", "original object", "clone", "second object", "copied parameters", "fresh clone"][kind], Op::Perm(e), &x, &g, &alone(Op::Perm(e), &x));
            }
        }
    }
    ev.count("histories", 1);
    ev.sample("history", || format!("worker {}: {} operations over {} instances", w, ops, n));
}

fn many(d: &dyn Dyn, e: usize, xs: &[Vec<El>], n: usize, first: &[Vec<El>]) {
    let mut done = 0;
    // whole cycles per batch, so that the position in the cycle carries over
    let batch = (1 << 20) / xs.len() * xs.len();
    while done < n {
        let k = (n - done).min(batch);
        match catch(|| d.call_many(e, xs, k, first)) {
            Ok(Ok(())) => {}
            Ok(Err((i, y))) => violation(
                "a repeated call changed its result",
                format!("{} operation {} call {} with {}: {} instead of {}", d.name(), e, done + i, hexv(&xs[i % xs.len()]), hexv(&y), hexv(&first[i % xs.len()])),
            ),
            Err(m) => violation("a repeated call panicked", format!("{} {}: {}", d.name(), hexv(&xs[0]), m)),
        }
        done += k;
        PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    }
}

/// Very many calls of one cheap instance: counters that wrap, caches that fill up. The inputs form
/// cycles of odd length, so that what was left 2^k calls ago belongs to another input.
fn marathon(ev: &mut Ev, fam: usize, named_too: bool, tiny: usize, named_calls: usize) {
    let mut rng = Rng::new(cfg().seed, &format!("marathon/{}", fam));
    for comp in [false, true] {
        let t = if !comp { 2 } else if fam == 3 { 4 } else { 3 };
        let r: Box<dyn Dyn> = with_field!(0usize, tiny_inst(fam, t, &mut rng));
        let e = r.evaluators().len() - if comp { 0 } else { 1 };
        let op = if comp { Op::Compress } else { Op::Perm(e) };
        let width = if comp { 2 } else { t };
        let xs: Vec<Vec<El>> = (0..3).map(|_| (0..width).map(|_| r.rnd(&mut rng)).collect()).collect();
        let Ok(first) = xs.iter().map(|x| run(&*r, op, x)).collect::<Result<Vec<_>, _>>() else { return };
        let n = if comp { tiny / 4 } else { tiny };
        many(&*r, e, &xs, n, &first);
        ev.count("calls in marathons", n as u64);
        ev.case("marathon", fnv(&[fam as u64, comp as u64]), true);
    }
    if !named_too {
        return;
    }
    let names: &[&str] = match fam {
        0 => &["POSEIDON2_BLS_3_PARAMS"],
        1 => &["POSEIDON_BLS_3_PARAMS"],
        2 => &["GMIMC_BLS_3_PARAMS", "GMIMC_GOLDILOCKS_8_PARAMS"],
        _ => &["NEPTUNE_BN_PARAMS"],
    };
    for name in names {
        let i = pool().iter().position(|d| d.name() == *name).unwrap();
        let d = &*pool()[i];
        let comp = d.t() == comp_width(d.fam());
        for e in 0..d.evaluators().len() + comp as usize {
            let op = if e == d.evaluators().len() { Op::Compress } else { Op::Perm(e) };
            let width = if op == Op::Compress { 2 } else { d.t() };
            let xs: Vec<Vec<El>> = (0..5).map(|_| (0..width).map(|_| d.rnd(&mut rng)).collect()).collect();
            let Some(first) = xs.iter().map(|x| ask(i, op, x)).collect::<Option<Vec<_>>>() else { return };
            let mut counts: Vec<usize> = dict_sizes(2, 5000);
            counts.push(named_calls);
            for n in counts {
                many(d, e, &xs, n, &first);
                ev.count("calls in marathons", n as u64);
            }
            ev.case("marathon", fnv(&[sfp(name), e as u64 + 1]), true);
        }
    }
}

fn shaped<F: PrimeField, R: PrimeField>(fname: &str, fam: usize, t: usize, rounds: usize, rng: &mut Rng) -> Box<dyn Dyn> {
    match fam {
        0 => Box::new(p2_at::<F, R>(fname, rng, t, 3, 2, 1, Shape::Any)),
        1 => Box::new(p_at::<F, R>(fname, rng, t, 3, 2, 1)),
        2 => Box::new(random_g::<F, R>(fname, rng, t, 3, rounds)),
        _ => Box::new(n_at::<F, R>(fname, rng, t, 3, 2, 1)),
    }
}

/// One instance, a pause of exactly k calls of another one of another width, the first instance again:
/// what a call leaves behind may only be found again after its marks have wrapped around.
fn pauses(ev: &mut Ev, fam: usize, long: usize) {
    let mut rng = Rng::new(cfg().seed, &format!("pauses/{}", fam));
    let widths: &[(usize, usize)] = match fam {
        0 => &[(24, 8), (4, 12), (3, 2), (2, 16)],
        1 => &[(9, 4), (3, 8), (2, 5)],
        2 => &[(12, 8), (8, 20), (5, 3), (3, 9), (16, 9)],
        _ => &[(12, 4), (4, 8), (8, 4), (2, 6)],
    };
    for (ta, tb) in widths {
        let (ra, rb) = (1 + rng.below(2 * ta), 1 + rng.below(2 * tb));
        let a: Box<dyn Dyn> = with_field!(0usize, shaped(fam, *ta, ra, &mut rng));
        let b: Box<dyn Dyn> = with_field!(0usize, shaped(fam, *tb, rb, &mut rng));
        let ask = |d: &dyn Dyn, rng: &mut Rng, n: usize| -> Option<(Vec<Vec<El>>, Vec<Vec<El>>)> {
            let xs: Vec<Vec<El>> = (0..n).map(|_| (0..d.t()).map(|_| d.rnd(rng)).collect()).collect();
            let ys = xs.iter().map(|x| run(d, Op::Perm(0), x)).collect::<Result<Vec<_>, _>>().ok()?;
            Some((xs, ys))
        };
        let (Some((ax, ay)), Some((bx, by))) = (ask(&*a, &mut rng, 1), ask(&*b, &mut rng, 3)) else { return };
        let mut ks: Vec<usize> = (0..600).chain(1020..1030).chain(4090..4100).collect();
        if long > 0 {
            ks.extend(65_530..65_530 + long);
        }
        for k in ks {
            for e in 0..a.evaluators().len().min(2) {
                many(&*a, e, &ax, 1, &ay);
            }
            if k > 0 {
                many(&*b, 0, &bx, k, &by);
            }
            many(&*a, 0, &ax, 1, &ay);
            ev.case("pause", fnv(&[fam as u64, *ta as u64, *tb as u64, k as u64]), true);
        }
    }
}

/// Two sets of one shape; a call with the first, then exactly k objects or parameter sets made and
/// dropped, then the same call with the second: what is told apart by a running number may meet its
/// number again. Runs before any other thread exists.
fn numbers(ev: &mut Ev) {
    let mut rng = Rng::new(cfg().seed, "numbers");
    for fam in 0..4 {
        let t = if fam == 3 { 4 } else { 3 };
        let mk = |rng: &mut Rng| -> Box<dyn Dyn> { with_field!(0usize, shaped(fam, t, 3, rng)) };
        let (a, b) = (mk(&mut rng), mk(&mut rng));
        let x: Vec<El> = (0..t).map(|_| a.rnd(&mut rng)).collect();
        let (Ok(ya), Ok(yb)) = (run(&*a, Op::Perm(0), &x), run(&*b, Op::Perm(0), &x)) else { continue };
        let check = |d: &dyn Dyn, y: &[El], k: usize, what: &str| {
            for e in 0..d.evaluators().len() {
                let g = run(d, Op::Perm(e), &x);
                // the evaluators agree on correct code (C05, C06); here only the history counts
                if e == 0 && g.as_ref().ok().map(|v| &v[..]) != Some(y) {
                    violation("a call returns another value after other objects were made", format!("{} input {}: first {} after {} {}: {:?}", d.name(), hexv(&x), hexv(y), k, what, g.map(|v| hexv(&v))));
                }
            }
        };
        let ks = (0..=300usize).chain(510..=514).chain(1022..=1026).chain(4094..=4098).chain(65_530..=65_540);
        for k in ks {
            check(&*a.again(), &ya, k, "objects");
            a.churn(k, false);
            check(&*b.again(), &yb, k, "objects");
            ev.case("objects made in between", fnv(&[fam as u64, k as u64]), true);
        }
        // parameter sets: the second one is itself the last of the series
        for k in (0..=20usize).chain(250..=260).chain(65_533..=65_538) {
            let first = mk(&mut rng);
            let Ok(y) = run(&*first, Op::Perm(0), &x) else { continue };
            for _ in 0..k {
                match fam {
                    2 => drop(GmimcParams::<zf::babybear::FpBabyBear>::new(t, 3, 3)),
                    3 => drop(NeptuneParams::<zf::babybear::FpBabyBear>::new(t, 3, 2, 1)),
                    _ if k < 1000 => drop(mk(&mut rng)),
                    _ => {}
                }
            }
            let last = mk(&mut rng);
            let g = run(&*last, Op::Perm(0), &x);
            let w = by_model(&*last, Op::Perm(0), &x);
            if g.is_ok() && g.as_ref().ok() == Some(&y) && w.as_ref().map(|w| w != &y).unwrap_or(true) {
                violation("a call returns the value of another parameter set", format!("{} input {}: {} after {} parameter sets, the value of {}", last.name(), hexv(&x), hexv(&y), k, first.name()));
            }
            check(&*first, &y, k, "parameter sets");
            ev.case("parameter sets made in between", fnv(&[fam as u64, k as u64, 1]), true);
        }
    }
}

/// The cheapest instance of a family.
pub fn tiny_inst<F: PrimeField, R: PrimeField>(fname: &str, fam: usize, t: usize, rng: &mut Rng) -> Box<dyn Dyn> {
    match fam {
        0 => Box::new(p2_at::<F, R>(fname, rng, t, 3, 0, 1, Shape::Any)),
        1 => Box::new(p_at::<F, R>(fname, rng, t, 3, 0, 1)),
        2 => Box::new(random_g::<F, R>(fname, rng, t, 3, 1)),
        _ => Box::new(n_at::<F, R>(fname, rng, t, 3, 0, 1)),
    }
}

// ---------------------------------------------------------------- across processes
fn fixed_inputs(i: usize, d: &dyn Dyn) -> Vec<Vec<El>> {
    let mut rng = Rng::new(99, &format!("fixed{}", i));
    vec![
        (0..d.t()).map(|k| fit(d, &el(k as u64))).collect(),
        (0..d.t()).map(|_| d.rnd(&mut rng)).collect(),
        vec![el(0); d.t()],
    ]
}

/// A fresh process using the global instances in its own order, after its own misuse.
pub fn child_first(a: &HashMap<String, String>) {
    let k: u64 = a.get("--k").and_then(|s| s.parse().ok()).unwrap_or(0);
    let mut rng = Rng::new(k, "child-first");
    let all: Vec<(usize, Named)> = named().into_iter().enumerate().collect();
    let mut order: Vec<usize> = (0..all.len()).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, rng.below(i + 1));
    }
    if k == 0 {
        order.sort();
    }
    let job = |order: &[usize], mut rng: Rng, print: bool| {
        for i in order {
            let n = &all[*i].1;
            let fixed = n.fam == "poseidon" || n.fam == "poseidon2";
            if rng.chance(1, 3) {
                noise(&mut rng);
            }
            let d = make(n);
            if k % 2 == 1 {
                refuse(&*d, &mut rng, &vec![el(3); d.t()]);
            }
            let mut inputs: Vec<(usize, Vec<El>)> = fixed_inputs(*i, &*d).into_iter().enumerate().collect();
            if k % 3 == 1 {
                inputs.reverse();
            }
            for (q, x) in inputs {
                for e in 0..d.evaluators().len() {
                    let r = run(&*d, Op::Perm(e), &x);
                    if fixed && print {
                        println!("{} {} {} {}", i, q, e, r.map(|v| hexv(&v)).unwrap_or_else(|_| "panic".into()));
                    }
                }
            }
        }
    };
    if k % 4 == 2 {
        // used by other threads first
        std::thread::scope(|s| {
            for t in 0..3 {
                let r = Rng::new(k, &format!("pre{}", t));
                let (job, order) = (&job, &order);
                s.spawn(move || job(&order[t * 5..t * 5 + 20], r, false));
            }
        });
    }
    job(&order, rng, true);
}

fn processes(ev: &mut Ev, n: usize) {
    let names = named();
    let mut seen: HashMap<String, (usize, String)> = HashMap::new();
    // alone, in this process' pristine copy
    for (i, nm) in names.iter().enumerate() {
        if nm.fam == "poseidon" || nm.fam == "poseidon2" {
            let d = &*pool()[i];
            for (q, x) in fixed_inputs(i, d).iter().enumerate() {
                for e in 0..d.evaluators().len() {
                    let v = ask(i, Op::Perm(e), x).map(|v| hexv(&v)).unwrap_or_else(|| "panic".into());
                    seen.insert(format!("{} {} {}", i, q, e), (usize::MAX, v));
                }
            }
        }
    }
    for k in 0..n {
        let Some(out) = child_env(&["child-first", "--k", &k.to_string()], k) else { return };
        let mut lines = 0;
        for l in out.lines() {
            let w: Vec<&str> = l.splitn(4, ' ').collect();
            if w.len() != 4 {
                continue;
            }
            lines += 1;
            let key = w[..3].join(" ");
            ev.case("first uses in other processes", sfp(l) ^ k as u64, true);
            let (o, v) = seen.entry(key.clone()).or_insert((k, w[3].to_string()));
            if v != w[3] {
                violation(
                    "a named instance returns different values in different processes",
                    format!("{} input {} evaluator {}: process {} got {}, {} got {}", names[w[0].parse::<usize>().unwrap()].name, w[1], w[2], k, w[3], o, v),
                );
            }
        }
        if lines == 0 {
            inconclusive("a child process observed nothing");
        }
        ev.count("processes", 1);
    }
}

pub fn c09() -> Ev {
    let mut jobs: Vec<Job> = vec![];
    let ops = amount(24_000, 500_000);
    for w in 0..8 {
        jobs.push(Box::new(move |ev: &mut Ev| worker(ev, w, ops)));
    }
    let tiny = amount(1 << 22, 1 << 32).max(70_000);
    let nm = amount(70_000, 4_000_000).max(66_000);
    for fam in 0..4 {
        jobs.push(Box::new(move |ev: &mut Ev| marathon(ev, fam, true, tiny, nm)));
    }
    let long = amount(6, 12);
    for fam in 0..4 {
        jobs.push(Box::new(move |ev: &mut Ev| pauses(ev, fam, long)));
    }
    let pr = amount(24, 300).max(4);
    jobs.push(Box::new(move |ev: &mut Ev| processes(ev, pr)));
    // the longest jobs first
    jobs.rotate_right(9);
    let mut first = Ev::default();
    numbers(&mut first);
    let mut ev = par(jobs);
    ev.merge(first);
    ev.count("answers of the pristine process", pristine::asked());
    ev
}

