//! C12, C13, C14: Merkle roots against symbolic (injective) compression and plain recursion.
use crate::fields::{self, *};
use crate::gen::dict_sizes;
use crate::inst::*;
use crate::util::*;
use ark_ff::PrimeField;
use group::ff::PrimeField as FfField;
use sha2::digest::{consts::*, generic_array::ArrayLength, FixedOutput, FixedOutputReset, HashMarker, Output, OutputSizeUser, Reset, Update};
use sha2::Digest;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use zkhash::fields as zf;
use zkhash::merkle_tree::merkle_tree_f2 as f2;
use zkhash::merkle_tree::merkle_tree_fp as fp;
use zkhash::merkle_tree::merkle_tree_orchard as orch;
use zkhash::merkle_tree::merkle_tree_sapling as sapl;

/// The oracle: pad with the last leaf to the next power of two (at least two), fold level by level.
pub fn expected<T: Clone>(leaves: &[T], mut comp: impl FnMut(usize, &T, &T) -> T) -> T {
    let mut n = 2;
    while n < leaves.len() {
        n *= 2;
    }
    let mut nodes: Vec<T> = leaves.to_vec();
    nodes.resize(n, leaves[leaves.len() - 1].clone());
    let mut h = 0;
    while nodes.len() > 1 {
        nodes = nodes.chunks(2).map(|c| comp(h, &c[0], &c[1])).collect();
        h += 1;
    }
    nodes.pop().unwrap()
}

// ---------------------------------------------------------------- symbolic compression
/// Distinct arguments get distinct values, so equal roots mean equal trees.
#[derive(Default)]
struct Intern {
    map: HashMap<Vec<u8>, u64>,
    calls: u64,
}
impl Intern {
    fn id(&mut self, key: Vec<u8>) -> u64 {
        self.calls += 1;
        let n = 600_000_000 + self.map.len() as u64;
        *self.map.entry(key).or_insert(n)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Symbolic,
    Linear,   // a + 2b
    Sum,      // a + b
    Left,     // a
    Right,    // b
    Zero,     // constant
    Square,   // a^2 + 3b
}
const MODES: [Mode; 7] = [Mode::Symbolic, Mode::Linear, Mode::Sum, Mode::Left, Mode::Right, Mode::Zero, Mode::Square];

/// How codes become field elements: which limbs (of the number or of its representation) tell values apart.
const SPREADS: usize = 8;
thread_local! {
    static RINV: std::cell::RefCell<HashMap<std::any::TypeId, Box<dyn std::any::Any>>> = Default::default();
    static NESTED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn cached<T: Copy + 'static>(make: impl FnOnce() -> T) -> T {
    RINV.with(|m| *m.borrow_mut().entry(std::any::TypeId::of::<T>()).or_insert_with(|| Box::new(make())).downcast_ref::<T>().unwrap())
}
fn enc_ark<F: PrimeField>(spread: usize, c: u64) -> F {
    let x = F::from(c);
    let r = || cached(|| F::from(2u64).pow([64 * F::BigInt::default().as_ref().len() as u64]).inverse().unwrap_or(F::one()));
    let w = F::from(1u128 << 64);
    match spread % SPREADS {
        0 => x,
        1 => F::from((c as u128) << 64),
        2 => F::from((c as u128) << 64) * w * w,
        3 => -x,
        4 => F::from(((c as u128) << 64) | 0x1234_5678_9abc),
        5 => x * r(),
        6 => x * r() * w,
        _ => x * r() * w * w * w,
    }
}
fn enc_ff<F: FfField + 'static>(spread: usize, c: u64) -> F {
    let x = F::from(c);
    let w = F::from(1 << 32).square();
    let r = || cached(|| w.square().square().invert().unwrap_or(F::from(1)));
    match spread % SPREADS {
        0 => x,
        1 => x * w,
        2 => x * w * w * w,
        3 => -x,
        4 => x * w + F::from(0x1234_5678_9abc),
        5 => x * r(),
        6 => x * r() * w,
        _ => x * r() * w * w * w,
    }
}

#[derive(Clone)]
struct Toy {
    mode: Mode,
    spread: usize,
    /// Accumulate another tree inside some compressions.
    reenter: bool,
    it: Arc<Mutex<Intern>>,
    fuse: Arc<Mutex<Option<usize>>>,
    bad: Arc<Mutex<Option<String>>>,
}
impl Toy {
    fn new(mode: Mode, spread: usize) -> Self {
        Toy { mode, spread, reenter: false, it: Default::default(), fuse: Default::default(), bad: Default::default() }
    }
    fn tick(&self) {
        let mut f = self.fuse.lock().unwrap();
        if let Some(n) = f.as_mut() {
            if *n == 0 {
                *f = None;
                drop(f);
                panic!("compression failed on purpose");
            }
            *n -= 1;
        }
    }
    /// A compression function is free to use trees itself.
    fn nested(&self, probe: u64, f: impl FnOnce(Toy)) {
        if self.reenter && probe % 7 == 0 && !NESTED.with(|n| n.replace(true)) {
            f(Toy::new(Mode::Symbolic, self.spread));
            NESTED.with(|n| n.set(false));
        }
    }
    fn apply<T: Clone>(&self, level: usize, a: &T, b: &T, bytes: impl Fn(&T) -> Vec<u8>, from: impl Fn(u64) -> T, lin: impl Fn(u64, u64, bool) -> T) -> T {
        match self.mode {
            Mode::Symbolic => {
                let mut k = (level as u64).to_le_bytes().to_vec();
                let x = bytes(a);
                k.extend((x.len() as u64).to_le_bytes());
                k.extend(x);
                k.extend(bytes(b));
                from(self.it.lock().unwrap().id(k))
            }
            Mode::Linear => lin(1, 2, false),
            Mode::Sum => lin(1, 1, false),
            Mode::Left => a.clone(),
            Mode::Right => b.clone(),
            Mode::Zero => from(0),
            Mode::Square => lin(1, 3, true),
        }
    }
    fn comp_ark<F: PrimeField>(&self, level: usize, a: &F, b: &F) -> F {
        self.apply(
            level,
            a,
            b,
            |x| to_el(x).iter().flat_map(|l| l.to_le_bytes()).collect(),
            |n| enc_ark(self.spread, n),
            |x, y, sq| {
                let l = if sq { *a * *a } else { *a };
                l * F::from(x) + *b * F::from(y)
            },
        )
    }
    fn comp_ff<F: FfField + 'static>(&self, level: usize, a: &F, b: &F) -> F {
        self.apply(
            level,
            a,
            b,
            |x| x.to_repr().as_ref().to_vec(),
            |n| enc_ff(self.spread, n),
            |x, y, sq| {
                // the level takes part in the arithmetic modes too
                let l = if sq { *a * *a } else { *a };
                l * F::from(x) + *b * F::from(y) + F::from(level as u64)
            },
        )
    }
}

impl<F: PrimeField> fp::MerkleTreeHash<F> for Toy {
    fn compress(&self, input: &[&F]) -> F {
        self.tick();
        if input.len() != 2 {
            *self.bad.lock().unwrap() = Some(format!("compress called with {} inputs", input.len()));
            return F::zero();
        }
        self.nested(to_el(input[1])[0], |toy| {
            let l = [*input[1], *input[0], F::one(), *input[1], F::zero()];
            for n in [5, 1, 2, 3] {
                let want = expected(&l[..n], |_, a, b| toy.comp_ark(0, a, b));
                if fp::MerkleTree::<F, Toy>::new(toy.clone()).accumulate(&l[..n]) != want {
                    *self.bad.lock().unwrap() = Some(format!("a tree accumulated inside a compression has a wrong root, n={}", n));
                }
            }
        });
        self.comp_ark(0, input[0], input[1])
    }
}
impl orch::MerkleTreeHash for Toy {
    fn compress(&self, level: usize, input: &[&pasta_curves::pallas::Base; 2]) -> pasta_curves::pallas::Base {
        self.tick();
        self.nested(input[1].to_repr().as_ref()[0] as u64, |toy| {
            let l = [*input[1], *input[0], pasta_curves::pallas::Base::from(1), *input[1], pasta_curves::pallas::Base::from(0)];
            for n in [5, 1, 2, 3] {
                let want = expected(&l[..n], |h, a, b| toy.comp_ff(h, a, b));
                if orch::MerkleTree::new(toy.clone()).accumulate(&l[..n]) != want {
                    *self.bad.lock().unwrap() = Some(format!("a tree accumulated inside a compression has a wrong root, n={}", n));
                }
            }
        });
        self.comp_ff(level, input[0], input[1])
    }
}
impl sapl::MerkleTreeHash for Toy {
    fn compress(&self, level: usize, input: &[&jubjub::Base; 2]) -> jubjub::Base {
        self.tick();
        self.nested(input[1].to_repr().as_ref()[0] as u64, |toy| {
            let l = [*input[1], *input[0], jubjub::Base::from(1), *input[1], jubjub::Base::from(0)];
            for n in [5, 1, 2, 3] {
                let want = expected(&l[..n], |h, a, b| toy.comp_ff(h, a, b));
                if sapl::MerkleTree::new(toy.clone()).accumulate(&l[..n]) != want {
                    *self.bad.lock().unwrap() = Some(format!("a tree accumulated inside a compression has a wrong root, n={}", n));
                }
            }
        });
        self.comp_ff(level, input[0], input[1])
    }
}

// ---------------------------------------------------------------- leaf patterns
const PATTERNS: usize = 12;
/// Leaf i of n as a small integer code.
fn leaf(pat: usize, i: usize, n: usize, rng: &mut Rng) -> u64 {
    match pat % PATTERNS {
        0 => 1000 + i as u64,
        1 => 7,
        2 => 0,
        3 => rng.below(2) as u64,
        4 => 1 + (i / 2) as u64,                         // siblings equal
        5 => if i + 1 == n { 0 } else { 5 + i as u64 },  // last leaf zero
        6 => if i == 0 { 0 } else { 5 + i as u64 },      // first leaf zero
        7 => if i % 2 == 1 { 0 } else { 5 + i as u64 },  // right siblings zero
        8 => (i % 3) as u64,
        9 => (n - i) as u64,
        10 => if i + 1 == n && n > 1 { 1000 } else { 1000 + i as u64 }, // last equals first
        _ => rng.next() >> 40,
    }
}

fn sizes(quick_all: usize, quick_max: usize, thorough_all: usize, thorough_max: usize) -> Vec<usize> {
    let (all, max) = if cfg().thorough { (thorough_all, thorough_max) } else { (quick_all, quick_max) };
    let (all, max) = ((all as f64 * cfg().scale.max(0.05)) as usize + 8, (max as f64 * cfg().scale.max(0.02)) as usize + 64);
    let mut v: Vec<usize> = (1..=all).collect();
    let mut p = 2usize;
    while p <= max {
        v.extend([p - 1, p, p + 1, p + p / 2]);
        p *= 2;
    }
    v.extend(dict_sizes(1, max as u64));
    v.retain(|x| *x >= 1 && *x <= max.max(all));
    v.sort_unstable();
    v.dedup();
    v
}

/// One tree object under observation through a closure `acc`.
struct Tree<'a, T> {
    what: &'a str,
    acc: Box<dyn FnMut(&[T]) -> T + 'a>,
}

fn check_root<T: Clone + PartialEq>(
    ev: &mut Ev,
    tree: &mut Tree<T>,
    tag: &str,
    leaves: &[T],
    comp: impl FnMut(usize, &T, &T) -> T,
    show: &dyn Fn(&T) -> String,
    fp_: u64,
) {
    let want = expected(leaves, comp);
    let got = match catch(|| (tree.acc)(leaves)) {
        Ok(g) => g,
        Err(m) => violation("accumulating a non-empty leaf list panicked", format!("{} {} n={}: {}", tree.what, tag, leaves.len(), m)),
    };
    if got != want {
        violation(
            "the accumulated root is not that of the specified tree",
            format!(
                "{} {} n={} first leaves {} root {} expected {}",
                tree.what,
                tag,
                leaves.len(),
                leaves.iter().take(8).map(show).collect::<Vec<_>>().join(","),
                show(&got),
                show(&want)
            ),
        );
    }
    ev.case(tag, fp_, true);
    ev.count("leaves", leaves.len() as u64);
    ev.sample(tree.what, || format!("{} {} n={} root {}", tree.what, tag, leaves.len(), show(&want)));
}

/// The common plan: sizes x patterns on fresh and reused objects, failures in between.
/// `fresh` makes a tree over the given toy hasher; `clone` clones a tree object before use.
fn toy_plan<T: Clone + PartialEq + Send>(
    ev: &mut Ev,
    what: &str,
    part: usize,
    parts: usize,
    mk: impl Fn(Toy) -> Box<dyn FnMut(&[T]) -> T>,
    comp: impl Fn(&Toy, usize, &T, &T) -> T,
    enc: impl Fn(usize, u64) -> T,
    show: &dyn Fn(&T) -> String,
    (qa, qm, ta, tm): (usize, usize, usize, usize),
) {
    let mut rng = Rng::new(cfg().seed, &format!("tree/{}/{}", what, part));
    let szs: Vec<usize> = sizes(qa, qm, ta, tm).into_iter().enumerate().filter(|(k, _)| k % parts == part).map(|x| x.1).collect();
    for (m, mode) in MODES.into_iter().enumerate().chain([(7, Mode::Symbolic), (8, Mode::Symbolic), (9, Mode::Symbolic)]) {
        let spread = m * parts + part;
        let mut toy = Toy::new(mode, spread);
        toy.reenter = m % 3 == 1;
        let toy = toy;
        let of = |c: u64| if c == 6 { enc(3, 1) } else { enc(spread, c) };
        let mut reused = Tree { what, acc: mk(toy.clone()) };
        // large and small ones in any order
        let mut szs: Vec<usize> = szs.iter().copied().filter(|n| m < 7 || *n < 700).collect();
        if m > 0 {
            for i in (1..szs.len()).rev() {
                szs.swap(i, rng.below(i + 1));
            }
        }
        for n in szs.iter() {
            if mode != Mode::Symbolic && *n > 600 && !(*n).is_power_of_two() {
                continue;
            }
            let pats: Vec<usize> = if *n <= 40 && mode == Mode::Symbolic {
                (0..PATTERNS).collect()
            } else if *n <= 4096 {
                vec![0, rng.below(PATTERNS), 11]
            } else {
                vec![0, rng.below(PATTERNS)]
            };
            for pat in pats {
                let leaves: Vec<T> = (0..*n).map(|i| of(leaf(pat, i, *n, &mut rng))).collect();
                let f = fnv(&[sfp(what), *n as u64, pat as u64, mode as u64, part as u64]);
                if rng.chance(1, 4) {
                    let mut fresh = Tree { what, acc: mk(toy.clone()) };
                    check_root(ev, &mut fresh, &format!("fresh tree {:?}", mode), &leaves, |l, a, b| comp(&toy, l, a, b), show, f);
                } else {
                    check_root(ev, &mut reused, &format!("reused tree {:?}", mode), &leaves, |l, a, b| comp(&toy, l, a, b), show, f ^ 1);
                }
                if let Some(m) = toy.bad.lock().unwrap().take() {
                    violation("the tree's use of its compression function goes wrong", format!("{}: {}", what, m));
                }
                // close relatives of the list just accumulated, on the same object
                if *n <= 600 && rng.chance(1, 3) {
                    let mut x = leaves.clone();
                    let (i, j) = (rng.below(*n), rng.below(*n));
                    let tag = match rng.below(6) {
                        0 => {
                            x[i] = of(900_000 + rng.below(1000) as u64);
                            "one leaf changed"
                        }
                        1 => {
                            x.swap(i, j);
                            "two leaves exchanged"
                        }
                        2 if *n > 1 => {
                            x.pop();
                            "last leaf removed"
                        }
                        3 => {
                            x.push(x[j].clone());
                            "leaf appended"
                        }
                        4 => {
                            x.rotate_left(i);
                            "leaves rotated"
                        }
                        _ => {
                            x[*n - 1] = of(900_000 + rng.below(1000) as u64);
                            "last leaf changed"
                        }
                    };
                    check_root(ev, &mut reused, tag, &x, |l, a, b| comp(&toy, l, a, b), show, f ^ fnv(&[ev.evaluations]));
                    check_root(ev, &mut reused, "repeated list", &leaves, |l, a, b| comp(&toy, l, a, b), show, f ^ 3);
                }
            }
            // keep the interner bounded
            if toy.it.lock().unwrap().map.len() > 3_000_000 {
                toy.it.lock().unwrap().map.clear();
            }
            // a compression that fails midway, then the same object again
            if *n >= 3 && *n < 2000 && rng.chance(1, 6) {
                let leaves: Vec<T> = (0..*n).map(|i| of(leaf(0, i, *n, &mut rng))).collect();
                *toy.fuse.lock().unwrap() = Some(if rng.chance(1, 2) { rng.below(*n / 2) } else { rng.below(n.next_power_of_two() - 1) });
                let r = catch(|| (reused.acc)(&leaves));
                *toy.fuse.lock().unwrap() = None;
                ev.count(if r.is_err() { "compressions failed midway" } else { "fuse not reached" }, 1);
                let m = 1 + rng.below(*n);
                check_root(ev, &mut reused, "reused after a failure", &leaves[..m], |l, a, b| comp(&toy, l, a, b), show, fnv(&[sfp(what), m as u64, 77, part as u64]));
            }
            if rng.chance(1, 8) {
                empty(ev, what, &mut reused);
                let leaves: Vec<T> = (0..3).map(|i| of(leaf(0, i, 3, &mut rng))).collect();
                check_root(ev, &mut reused, "reused after an empty list", &leaves, |l, a, b| comp(&toy, l, a, b), show, fnv(&[sfp(what), 3, 99]));
            }
        }
        ev.count("compressions by monitored trees and oracle", toy.it.lock().unwrap().calls);
    }
}

/// Very large lists around powers of two, with a cheap mixing compression (the symbolic one would need gigabytes).
fn huge_sizes() -> Vec<usize> {
    if cfg().scale < 0.9 {
        return vec![];
    }
    let top = if cfg().thorough { 24 } else { 22 };
    let mut v = vec![];
    for k in 17..=top {
        v.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + (1 << (k - 1))]);
    }
    v.extend(dict_sizes(1 << 17, 1 << top));
    v
}

/// One object used very many times (a counter in it would wrap or reach a threshold).
fn marathon<T: Clone + PartialEq>(ev: &mut Ev, what: &'static str, mut acc: Box<dyn FnMut(&[T]) -> T>, comp: impl Fn(usize, &T, &T) -> T, of: impl Fn(u64) -> T, show: &dyn Fn(&T) -> String) {
    if cfg().scale < 0.2 {
        return;
    }
    let lists: Vec<Vec<T>> = [1usize, 2, 3, 1, 5, 2, 4].iter().enumerate().map(|(k, n)| (0..*n as u64).map(|i| of(i * 5 + k as u64)).collect()).collect();
    let want: Vec<T> = lists.iter().map(|l| expected(l, |h, a, b| comp(h, a, b))).collect();
    let n = amount(1 << 18, 1 << 25).max(70_000);
    for k in 0..n {
        let i = k % lists.len();
        if k % 1024 == 0 {
            PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        }
        match catch(|| acc(&lists[i])) {
            Ok(g) if g == want[i] => {}
            Ok(g) => violation("a tree object used often returns another root", format!("{} use {} n={}: {} expected {}", what, k, lists[i].len(), show(&g), show(&want[i]))),
            Err(m) => violation("a tree object used often panics", format!("{} use {} n={}: {}", what, k, lists[i].len(), m)),
        }
    }
    ev.count("uses of one tree object", n as u64);
    ev.case("marathon", fnv(&[sfp(what), 31]), true);
}

fn huge<T: Clone + PartialEq>(ev: &mut Ev, what: &'static str, acc: Box<dyn FnMut(&[T]) -> T>, comp: impl Fn(usize, &T, &T) -> T, of: impl Fn(u64) -> T, show: &dyn Fn(&T) -> String) {
    let mut tree = Tree { what, acc };
    for n in huge_sizes() {
        let leaves: Vec<T> = (0..n as u64).map(|i| of(i * 3 + 1)).collect();
        check_root(ev, &mut tree, "huge list", &leaves, |l, a, b| comp(l, a, b), show, fnv(&[sfp(what), n as u64, 7777]));
    }
    // long lists of equal or repeating leaves with one odd leaf somewhere: whoever recognises repetitions by looking
    // at some of the leaves only takes them for regular
    if cfg().scale >= 0.9 {
        let mut rng = Rng::new(cfg().seed, &format!("huge/{}", what));
        for k in 14..=if cfg().thorough { 20 } else { 18 } {
            for period in [1usize, 2, 256, 1 << (k - 2), 1 << (k - 1)] {
                let n = (1usize << k) + [0, 0, 1][rng.below(3)];
                let mut leaves: Vec<T> = (0..n).map(|i| of((i % period) as u64 * 3 + 1)).collect();
                let odd = rng.below(n);
                leaves[odd] = of(7_000_003);
                check_root(ev, &mut tree, "huge repeating list with one odd leaf", &leaves, |l, a, b| comp(l, a, b), show, fnv(&[sfp(what), n as u64, period as u64, odd as u64]));
            }
        }
    }
}

#[derive(Clone)]
struct Mix;
impl<F: PrimeField> fp::MerkleTreeHash<F> for Mix {
    fn compress(&self, i: &[&F]) -> F {
        mix_ark(i[0], i[1])
    }
}
fn mix_ark<F: PrimeField>(a: &F, b: &F) -> F {
    a.double() + *a + *b * *b + F::one()
}
impl orch::MerkleTreeHash for Mix {
    fn compress(&self, l: usize, i: &[&pasta_curves::pallas::Base; 2]) -> pasta_curves::pallas::Base {
        mix_ff(l, i[0], i[1])
    }
}
impl sapl::MerkleTreeHash for Mix {
    fn compress(&self, l: usize, i: &[&jubjub::Base; 2]) -> jubjub::Base {
        mix_ff(l, i[0], i[1])
    }
}
fn mix_ff<B: FfField>(l: usize, a: &B, b: &B) -> B {
    a.double() + *a + *b * *b + B::from(l as u64 + 1)
}

/// A cheap order-sensitive digest of eight bytes.
#[derive(Clone, Default)]
struct MixDigest(u64);
impl HashMarker for MixDigest {}
impl OutputSizeUser for MixDigest {
    type OutputSize = U8;
}
impl Update for MixDigest {
    fn update(&mut self, data: &[u8]) {
        for b in data {
            self.0 = (self.0 ^ (*b as u64 + 1)).wrapping_mul(0x100000001b3).rotate_left(23);
        }
    }
}
impl FixedOutput for MixDigest {
    fn finalize_into(self, out: &mut Output<Self>) {
        out.copy_from_slice(&self.0.to_le_bytes());
    }
}
impl Reset for MixDigest {
    fn reset(&mut self) {
        self.0 = 0;
    }
}
impl FixedOutputReset for MixDigest {
    fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
        out.copy_from_slice(&self.0.to_le_bytes());
        self.0 = 0;
    }
}

fn empty<T>(ev: &mut Ev, what: &str, tree: &mut Tree<T>) {
    if catch(|| (tree.acc)(&[])).is_ok() {
        violation("an empty leaf list was answered with a root", what.to_string());
    }
    ev.case("empty list refused", sfp(what), true);
}

// ---------------------------------------------------------------- C12
fn fp_toy<F: PrimeField>(fname: &'static str, ev: &mut Ev, part: usize, parts: usize, sz: (usize, usize, usize, usize)) {
    toy_plan::<F>(
        ev,
        fname,
        part,
        parts,
        |toy| {
            let mut t = fp::MerkleTree::<F, Toy>::new(toy);
            let mut k = 0usize;
            Box::new(move |l: &[F]| {
                k += 1;
                if k % 5 == 0 {
                    t = t.clone();
                }
                t.accumulate(l)
            })
        },
        |toy, _l, a, b| toy.comp_ark(0, a, b),
        enc_ark::<F>,
        &|x| hex(&to_el(x)),
        sz,
    );
}

fn real_tree<F: PrimeField, R: PrimeField>(ev: &mut Ev, inst: &Inst<F, R>, n: usize, rng: &mut Rng) {
    let leaves: Vec<F> = (0..n)
        .map(|_| match rng.below(4) {
            0 => F::zero(),
            1 => F::from(rng.below(3) as u64),
            _ => of_el(&to_el(&rand::<R>(rng))),
        })
        .collect();
    let mut t = fp::MerkleTree::new(AsTreeHash(inst.hash.clone()));
    let model = inst.model.as_ref();
    let width = inst.t;
    let mut tree = Tree { what: inst.name.as_str(), acc: Box::new(move |l: &[F]| t.accumulate(l)) };
    let h = inst.hash.clone();
    let f = fnv_els(sfp(&inst.name), &to_els(&leaves));
    check_root(
        ev,
        &mut tree,
        "real hash",
        &leaves,
        |_, a, b| match model {
            Some(m) => {
                let mut s = vec![of_el::<R>(&to_el(a)), of_el::<R>(&to_el(b))];
                s.resize(width, R::zero());
                of_el(&to_el(&m.fwd(&s)[0]))
            }
            None => h.compress(&[a, b]),
        },
        &|x| hex(&to_el(x)),
        f,
    );
}

pub fn c12() -> Ev {
    let mut jobs: Vec<Job> = vec![];
    let parts = 4;
    for p in 0..parts {
        let big = (1100, 1 << 17, 5000, 1 << 21);
        let small = (300, 1 << 12, 2100, 1 << 16);
        jobs.push(Box::new(move |ev: &mut Ev| fp_toy::<zf::bls12::FpBLS12>("tree over BLS12", ev, p, parts, big)));
        jobs.push(Box::new(move |ev: &mut Ev| fp_toy::<zf::goldilocks::FpGoldiLocks>("tree over Goldilocks", ev, p, parts, small)));
        jobs.push(Box::new(move |ev: &mut Ev| fp_toy::<zf::babybear::FpBabyBear>("tree over BabyBear", ev, p, parts, small)));
        jobs.push(Box::new(move |ev: &mut Ev| fp_toy::<zf::bn256::FpBN256>("tree over BN256", ev, p, parts, small)));
        jobs.push(Box::new(move |ev: &mut Ev| fp_toy::<zf::pallas::FpPallas>("tree over Pallas", ev, p, parts, small)));
        jobs.push(Box::new(move |ev: &mut Ev| fp_toy::<zf::vesta::FpVesta>("tree over Vesta", ev, p, parts, small)));
    }
    jobs.push(Box::new(|ev: &mut Ev| {
        type F = zf::babybear::FpBabyBear;
        let mut t = fp::MerkleTree::<F, Mix>::new(Mix);
        let mut u = t.clone();
        marathon::<F>(ev, "tree over BabyBear", Box::new(move |l| u.accumulate(l)), |_, a, b| mix_ark(a, b), F::from, &|x| hex(&to_el(x)));
        huge::<F>(ev, "tree over BabyBear", Box::new(move |l| t.accumulate(l)), |_, a, b| mix_ark(a, b), F::from, &|x| hex(&to_el(x)));
    }));
    // the real hashes, against their models
    macro_rules! real {
        ($mk:expr) => {
            jobs.push(Box::new(move |ev: &mut Ev| {
                let inst = catch(|| $mk).unwrap_or_else(|m| violation("a named instance cannot be built", m));
                let mut rng = Rng::new(cfg().seed, &format!("realtree/{}", inst.name));
                for n in (1..=amount(33, 130)).chain([64, 100, 127, 128, 129, amount(256, 1024)]) {
                    real_tree(ev, &inst, n, &mut rng);
                }
            }))
        };
    }
    real!({
        let tb = crate::grain::poseidon2::<fields::bls12::F>(3, 8, 56, 0);
        p2_inst::<zf::bls12::FpBLS12, fields::bls12::F>("tree Poseidon2 BLS 3".into(), Hash::p2(&zkhash::poseidon2::poseidon2_instance_bls12::POSEIDON2_BLS_3_PARAMS), (3, 5, 8, 56), &tb.diag_m_1, &tb.rc)
    });
    real!({
        let tb = crate::grain::poseidon2::<fields::bn256::F>(3, 8, 56, 0);
        p2_inst::<zf::bn256::FpBN256, fields::bn256::F>("tree Poseidon2 BN256".into(), Hash::p2(&zkhash::poseidon2::poseidon2_instance_bn256::POSEIDON2_BN256_PARAMS), (3, 5, 8, 56), &tb.diag_m_1, &tb.rc)
    });
    real!({
        let (mds, rc) = crate::grain::poseidon::<fields::pallas::F>(3, 8, 56);
        p_inst::<zf::pallas::FpPallas, fields::pallas::F>("tree Poseidon Pallas 3".into(), Hash::p(&zkhash::poseidon::poseidon_instance_pallas::POSEIDON_PALLAS_3_PARAMS), (3, 5, 8, 56), &mds, &rc)
    });
    real!(g_inst::<zf::bls12::FpBLS12, fields::bls12::F>("tree GMiMC BLS 3".into(), &zkhash::gmimc::gmimc_instance_bls12::GMIMC_BLS_3_PARAMS, (3, 5, 226)));
    real!(n_inst::<zf::vesta::FpVesta, fields::vesta::F>("tree Neptune Vesta".into(), &zkhash::neptune::neptune_instances::NEPTUNE_VESTA_PARAMS, (4, 5, 6, 68)));
    par(jobs)
}

// ---------------------------------------------------------------- C14
pub fn c14() -> Ev {
    let mut jobs: Vec<Job> = vec![];
    let parts = 4;
    let sz = (1100, 1 << 17, 5000, 1 << 21);
    for p in 0..parts {
        jobs.push(Box::new(move |ev: &mut Ev| {
            type B = pasta_curves::pallas::Base;
            toy_plan::<B>(
                ev,
                "Orchard tree",
                p,
                parts,
                |toy| {
                    let mut t = orch::MerkleTree::new(toy);
                    let mut k = 0;
                    Box::new(move |l: &[B]| {
                        k += 1;
                        if k % 5 == 0 {
                            t = t.clone();
                        }
                        t.accumulate(l)
                    })
                },
                |toy, l, a, b| toy.comp_ff(l, a, b),
                enc_ff::<B>,
                &|x| format!("{:?}", x),
                sz,
            )
        }));
        jobs.push(Box::new(move |ev: &mut Ev| {
            type B = jubjub::Base;
            toy_plan::<B>(
                ev,
                "Sapling tree",
                p,
                parts,
                |toy| {
                    let mut t = sapl::MerkleTree::new(toy);
                    let mut k = 0;
                    Box::new(move |l: &[B]| {
                        k += 1;
                        if k % 5 == 0 {
                            t = t.clone();
                        }
                        t.accumulate(l)
                    })
                },
                |toy, l, a, b| toy.comp_ff(l, a, b),
                enc_ff::<B>,
                &|x| format!("{:?}", x),
                sz,
            )
        }));
    }
    jobs.push(Box::new(|ev: &mut Ev| {
        type B = pasta_curves::pallas::Base;
        let mut t = orch::MerkleTree::new(Mix);
        let mut u = t.clone();
        marathon::<B>(ev, "Orchard tree", Box::new(move |l| u.accumulate(l)), mix_ff, B::from, &|x| format!("{:?}", x));
        huge::<B>(ev, "Orchard tree", Box::new(move |l| t.accumulate(l)), mix_ff, B::from, &|x| format!("{:?}", x));
    }));
    jobs.push(Box::new(|ev: &mut Ev| {
        type B = jubjub::Base;
        let mut t = sapl::MerkleTree::new(Mix);
        let mut u = t.clone();
        marathon::<B>(ev, "Sapling tree", Box::new(move |l| u.accumulate(l)), mix_ff, B::from, &|x| format!("{:?}", x));
        huge::<B>(ev, "Sapling tree", Box::new(move |l| t.accumulate(l)), mix_ff, B::from, &|x| format!("{:?}", x));
    }));
    par(jobs)
}

// ---------------------------------------------------------------- C13
thread_local! {
    static STRINGS: std::cell::RefCell<HashMap<Vec<u8>, u64>> = Default::default();
}

/// Injective toy digest: the output names the whole absorbed byte string (first 8 bytes), rest pattern.
#[derive(Clone)]
struct ToyDigest<N: ArrayLength<u8> + 'static> {
    buf: Vec<u8>,
    _n: std::marker::PhantomData<N>,
}
impl<N: ArrayLength<u8> + 'static> Default for ToyDigest<N> {
    fn default() -> Self {
        ToyDigest { buf: vec![], _n: Default::default() }
    }
}
impl<N: ArrayLength<u8> + 'static> HashMarker for ToyDigest<N> {}
impl<N: ArrayLength<u8> + 'static> OutputSizeUser for ToyDigest<N> {
    type OutputSize = N;
}
impl<N: ArrayLength<u8> + 'static> Update for ToyDigest<N> {
    fn update(&mut self, data: &[u8]) {
        self.buf.extend_from_slice(data);
    }
}
impl<N: ArrayLength<u8> + 'static> ToyDigest<N> {
    fn put(&self, out: &mut Output<Self>) {
        let id = STRINGS.with(|s| {
            let mut s = s.borrow_mut();
            let n = s.len() as u64 + (1 << 40);
            *s.entry(self.buf.clone()).or_insert(n)
        });
        // an 8-byte (or longer) output is injective; shorter ones are a checksum
        let le = id.to_le_bytes();
        let l = out.len();
        for (i, o) in out.iter_mut().enumerate() {
            *o = if l >= 8 { le[i % 8] ^ (i / 8) as u8 } else { le[0].wrapping_mul(31).wrapping_add(le[1]).wrapping_add(i as u8 * 7) };
        }
    }
}
impl<N: ArrayLength<u8> + 'static> FixedOutput for ToyDigest<N> {
    fn finalize_into(self, out: &mut Output<Self>) {
        self.put(out);
    }
}
impl<N: ArrayLength<u8> + 'static> Reset for ToyDigest<N> {
    fn reset(&mut self) {
        self.buf.clear();
    }
}
impl<N: ArrayLength<u8> + 'static> FixedOutputReset for ToyDigest<N> {
    fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
        self.put(out);
        self.buf.clear();
    }
}

fn dig_plan<D: Digest + FixedOutputReset + Clone + 'static>(ev: &mut Ev, what: &'static str, part: usize, parts: usize, sz: (usize, usize, usize, usize)) {
    let mut rng = Rng::new(cfg().seed, &format!("dig/{}/{}", what, part));
    let len = <D as Digest>::output_size();
    let comp = |_: usize, a: &Output<D>, b: &Output<D>| {
        let mut h = D::new();
        Digest::update(&mut h, a);
        Digest::update(&mut h, b);
        h.finalize()
    };
    let mk_leaf = |c: u64, rng: &mut Rng| {
        let mut o = Output::<D>::default();
        match c {
            0 => {}
            1 => o.iter_mut().for_each(|b| *b = 0xff),
            c if c % 7 == 3 => o.iter_mut().for_each(|b| *b = rng.next() as u8),
            c => {
                let le = c.to_le_bytes();
                for (i, b) in o.iter_mut().enumerate() {
                    *b = le[i % 8];
                }
            }
        }
        o
    };
    let show = |x: &Output<D>| x.iter().map(|b| format!("{:02x}", b)).collect::<String>();
    let mk = |via_default: bool| {
        let mut t = if via_default { f2::MerkleTree::<D>::default() } else { f2::MerkleTree::<D>::new() };
        let mut k = 0;
        let acc: Box<dyn FnMut(&[Output<D>]) -> Output<D>> = Box::new(move |l: &[Output<D>]| {
            k += 1;
            if k % 5 == 0 {
                t = t.clone();
            }
            t.accumulate(l)
        });
        Tree { what, acc }
    };
    let mut reused = mk(false);
    let mut szs: Vec<usize> = sizes(sz.0, sz.1, sz.2, sz.3).into_iter().enumerate().filter(|(k, _)| k % parts == part).map(|x| x.1).collect();
    for i in (1..szs.len()).rev() {
        szs.swap(i, rng.below(i + 1));
    }
    for n in szs.iter() {
        let pats: Vec<usize> = if *n <= 24 { (0..PATTERNS).collect() } else { vec![0, rng.below(PATTERNS)] };
        for pat in pats {
            let leaves: Vec<Output<D>> = (0..*n).map(|i| { let c = leaf(pat, i, *n, &mut rng); mk_leaf(c, &mut rng) }).collect();
            let f = fnv(&[sfp(what), *n as u64, pat as u64, len as u64, part as u64]);
            if rng.chance(1, 4) {
                let mut fresh = mk(rng.chance(1, 2));
                check_root(ev, &mut fresh, "fresh tree", &leaves, comp, &show, f);
            } else {
                check_root(ev, &mut reused, "reused tree", &leaves, comp, &show, f ^ 1);
            }
            if *n <= 600 && rng.chance(1, 2) {
                let mut x = leaves.clone();
                let (i, j) = (rng.below(*n), rng.below(*n));
                match rng.below(5) {
                    0 => {
                        // one byte of one leaf
                        let b = rng.below(len);
                        x[i][b] ^= 1 << rng.below(8);
                    }
                    1 => x.swap(i, j),
                    2 if *n > 1 => drop(x.pop()),
                    3 => x.push(x[j].clone()),
                    _ => {
                        let b = rng.below(len);
                        x[*n - 1][b] = x[*n - 1][b].wrapping_add(1);
                    }
                }
                check_root(ev, &mut reused, "close relative on the same object", &x, comp, &show, f ^ fnv(&[ev.evaluations]));
                check_root(ev, &mut reused, "repeated list", &leaves, comp, &show, f ^ 3);
            }
        }
        if rng.chance(1, 8) {
            empty(ev, what, &mut reused);
        }
        STRINGS.with(|s| {
            if s.borrow().len() > 1_000_000 {
                s.borrow_mut().clear();
            }
        });
    }
}

pub fn c13() -> Ev {
    let mut jobs: Vec<Job> = vec![];
    macro_rules! dig {
        ($parts:expr, $name:literal, $d:ty, $sz:expr) => {
            for p in 0..$parts {
                jobs.push(Box::new(move |ev: &mut Ev| dig_plan::<$d>(ev, $name, p, $parts, $sz)));
            }
        };
    }
    let big = (1100, 1 << 16, 5000, 1 << 20);
    let mid = (260, 1 << 10, 1100, 1 << 14);
    dig!(4, "toy digest 8", ToyDigest<U8>, big);
    dig!(1, "toy digest 1", ToyDigest<U1>, mid);
    dig!(1, "toy digest 3", ToyDigest<U3>, mid);
    dig!(1, "toy digest 33", ToyDigest<U33>, mid);
    dig!(1, "toy digest 128", ToyDigest<U128>, mid);
    dig!(1, "SHA-256", sha2::Sha256, mid);
    dig!(1, "SHA-224", sha2::Sha224, mid);
    dig!(1, "SHA-384", sha2::Sha384, mid);
    dig!(1, "SHA-512", sha2::Sha512, mid);
    dig!(1, "SHA-512/256", sha2::Sha512_256, mid);
    dig!(1, "SHA3-256", sha3::Sha3_256, mid);
    dig!(1, "SHA3-512", sha3::Sha3_512, mid);
    dig!(1, "Keccak-256", sha3::Keccak256, mid);
    dig!(1, "BLAKE2b-512", blake2::Blake2b512, mid);
    dig!(1, "BLAKE2s-256", blake2::Blake2s256, mid);
    dig!(1, "BLAKE2b-256", blake2::Blake2b<U32>, mid);
    jobs.push(Box::new(|ev: &mut Ev| {
        type O = Output<MixDigest>;
        let mut t = f2::MerkleTree::<MixDigest>::new();
        let comp = |_: usize, a: &O, b: &O| {
            let mut h = MixDigest::default();
            Update::update(&mut h, a);
            Update::update(&mut h, b);
            h.finalize_fixed()
        };
        let mut u = t.clone();
        let of = |i: u64| O::from(i.wrapping_mul(0x9e3779b97f4a7c15).to_le_bytes());
        marathon::<O>(ev, "mixing digest", Box::new(move |l| u.accumulate(l)), comp, of, &|x| format!("{:x?}", x));
        huge::<O>(ev, "mixing digest", Box::new(move |l| t.accumulate(l)), comp, |i| O::from(i.wrapping_mul(0x9e3779b97f4a7c15).to_le_bytes()), &|x| format!("{:x?}", x));
    }));
    par(jobs)
}
