//! C11: a random tour of the whole safe API, good and bad arguments alike. The verdict comes from
//! the sanitizer / interpreter / checked arithmetic the harness is built with, plus three monitors
//! of its own: returned elements are canonical, arguments and earlier results stay as they were,
//! and well-formed calls never stop on an arithmetic overflow.
use crate::fields::*;
use crate::gen::dict_sizes;
use crate::inst::*;
use crate::perm::{pick_val, with_field, N_FIELDS, P2_WIDTHS};
use crate::util::*;
use ark_ff::PrimeField;
use sha2::digest::{FixedOutputReset, Output};
use sha2::Digest;
use std::cell::Cell;
use std::sync::Arc;
use zkhash::fields::utils as zu;
use zkhash::gmimc::gmimc_params::GmimcParams;
use zkhash::merkle_tree::merkle_tree_f2 as f2;
use zkhash::merkle_tree::merkle_tree_fp as fp;
use zkhash::merkle_tree::merkle_tree_orchard as orch;
use zkhash::merkle_tree::merkle_tree_sapling as sapl;
use zkhash::neptune::neptune_params::NeptuneParams;
use zkhash::poseidon::poseidon_params::PoseidonParams;
use zkhash::poseidon2::poseidon2_params::Poseidon2Params;
use zkhash::utils as zmat;

type Mat<F> = Vec<Vec<F>>;

thread_local! {
    static FUSE: Cell<usize> = const { Cell::new(usize::MAX) };
    static DEPTH: Cell<usize> = const { Cell::new(0) };
}

/// a + 2b, sometimes failing, sometimes using another tree from inside.
#[derive(Clone)]
pub struct Lin {
    pub reenter: bool,
}
pub fn set_fuse(n: usize) {
    FUSE.with(|f| f.set(n));
}
fn tick() {
    FUSE.with(|f| match f.get() {
        0 => {
            f.set(usize::MAX);
            panic!("compression failed on purpose")
        }
        usize::MAX => {}
        n => f.set(n - 1),
    });
}
fn nested(on: bool, f: impl FnOnce()) {
    if on && DEPTH.with(|d| d.get()) == 0 {
        DEPTH.with(|d| d.set(1));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        DEPTH.with(|d| d.set(0));
        if let Err(e) = r {
            std::panic::resume_unwind(e);
        }
    }
}
impl<F: PrimeField> fp::MerkleTreeHash<F> for Lin {
    fn compress(&self, v: &[&F]) -> F {
        tick();
        nested(self.reenter, || {
            fp::MerkleTree::new(self.clone()).accumulate(&[*v[0], *v[1], *v[0]]);
        });
        *v[0] + v[1].double()
    }
}
impl orch::MerkleTreeHash for Lin {
    fn compress(&self, level: usize, v: &[&pasta_curves::pallas::Base; 2]) -> pasta_curves::pallas::Base {
        tick();
        nested(self.reenter, || {
            orch::MerkleTree::new(self.clone()).accumulate(&[*v[0], *v[1], *v[0]]);
        });
        *v[0] + v[1] + v[1] + pasta_curves::pallas::Base::from(level as u64)
    }
}
impl sapl::MerkleTreeHash for Lin {
    fn compress(&self, level: usize, v: &[&jubjub::Base; 2]) -> jubjub::Base {
        tick();
        nested(self.reenter, || {
            sapl::MerkleTree::new(self.clone()).accumulate(&[*v[0], *v[1], *v[0]]);
        });
        *v[0] + v[1] + v[1] + jubjub::Base::from(level as u64)
    }
}

struct Tour<'a, F: PrimeField> {
    fname: &'a str,
    ev: &'a mut Ev,
    rng: Rng,
    step: u64,
    /// live hash objects, replaced (and so dropped) in random order
    ring: Vec<(Hash<F>, String)>,
    /// earlier results with a private copy of what they were
    kept: Vec<(Vec<F>, Vec<El>, String)>,
    miri: bool,
}

fn val<F: PrimeField>(rng: &mut Rng) -> F {
    if rng.chance(1, 2) {
        pick_val::<F>(rng)
    } else {
        rand::<F>(rng)
    }
}
fn vec_of<F: PrimeField>(rng: &mut Rng, n: usize) -> Vec<F> {
    (0..n).map(|_| val(rng)).collect()
}
fn mat_of<F: PrimeField>(rng: &mut Rng, r: usize, c: usize) -> Mat<F> {
    (0..r).map(|_| vec_of(rng, c)).collect()
}

impl<F: PrimeField> Tour<'_, F> {
    /// Every monitored call goes through here.
    fn go<T>(&mut self, op: &str, wf: bool, desc: impl Fn() -> String, f: impl FnOnce() -> T, els: impl FnOnce(&T) -> Vec<F>) -> Option<T> {
        self.step += 1;
        match catch(f) {
            Ok(v) => {
                for x in els(&v) {
                    let b = x.into_bigint();
                    if b >= F::MODULUS || F::from_bigint(b) != Some(x) {
                        violation("a returned element is not a canonical field element", format!("{} {} {}", self.fname, op, desc()));
                    }
                }
                self.ev.case(&format!("{} ({}) returned", op, if wf { "good arguments" } else { "odd arguments" }), fnv(&[sfp(self.fname), sfp(op), self.step, cfg().seed]), true);
                let step = self.step;
                self.ev.sample(op, || format!("{} step {} {} {}: returned", self.fname, step, op, desc()));
                Some(v)
            }
            Err(m) => {
                if wf && m.contains("overflow") && !m.contains("on purpose") {
                    violation("a well-formed call stops on an arithmetic overflow", format!("{} {} {}: {}", self.fname, op, desc(), m));
                }
                self.ev.case(&format!("{} ({}) refused", op, if wf { "good arguments" } else { "odd arguments" }), fnv(&[sfp(self.fname), sfp(op), self.step, cfg().seed]), true);
                None
            }
        }
    }
    fn same(&self, op: &str, now: &[F], before: &[F]) {
        if now != before {
            violation("a call changed its borrowed arguments", format!("{} {}: {} became {}", self.fname, op, hexv(&to_els(before)), hexv(&to_els(now))));
        }
    }
    fn keep(&mut self, v: Vec<F>, op: &str) {
        let e = to_els(&v);
        if self.kept.len() < 24 {
            self.kept.push((v, e, op.to_string()));
        } else {
            let i = self.rng.below(24);
            self.kept[i] = (v, e, op.to_string());
        }
        if self.rng.chance(1, 8) {
            for (v, e, op) in &self.kept {
                if to_els(v) != *e {
                    violation("an earlier result changed after it was returned", format!("{} {}: {} became {}", self.fname, op, hexv(e), hexv(&to_els(v))));
                }
            }
        }
    }

    fn hex(&mut self) {
        let r = &mut self.rng;
        let mut s: String = ["0x", "0x", "0X", "", "x0", "0", "x", " 0x", "0x0x"][r.below(9)].to_string();
        let n = match r.below(6) {
            0 => r.below(6),
            1 => 60 + r.below(10),
            2 => 126 + r.below(8),
            3 => r.below(if self.miri { 40 } else { 400 }),
            _ => r.below(40),
        };
        for _ in 0..n {
            s.push(match r.below(40) {
                0 => *r.pick(&['g', 'G', ' ', '\0', '/', ':', '@', '`', '\n', '-', '+', '_']),
                1 => *r.pick(&['é', '€', '０', '𝟘', 'ａ', '\u{feff}']),
                _ => *r.pick(&['0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'a', 'b', 'c', 'd', 'e', 'f', 'A', 'B', 'C', 'D', 'E', 'F', '0', 'f']),
            });
        }
        let wf = s.len() >= 2 && s.is_char_boundary(2) && s[..2].eq_ignore_ascii_case("0x") && s[2..].bytes().all(|c| c.is_ascii_hexdigit()) && s.len() % 2 == 0;
        let c = s.clone();
        if let Some(x) = self.go("from_hex", wf, || s.clone(), || zu::from_hex::<F>(&c), |x| vec![*x]) {
            self.keep(vec![x], "from_hex");
        }
    }

    fn scalars(&mut self) {
        let n = 1 + self.rng.below(8);
        let v = self.go("random_scalar", true, String::new, || (0..n).map(|i| if i % 2 == 0 { zu::random_scalar::<F>() } else { zu::random_scalar_without_0::<F>() }).collect::<Vec<_>>(), |v| v.clone());
        if let Some(v) = v {
            self.keep(v, "random_scalar");
        }
    }

    fn matrices(&mut self) {
        let max = if self.miri { 5 } else { 26 };
        let n = self.rng.below(max);
        let mut m = mat_of::<F>(&mut self.rng, n, n);
        let mut square = n > 0;
        match self.rng.below(6) {
            0 if n > 0 => {
                let i = self.rng.below(n);
                let l = self.rng.below(n + 3);
                m[i] = vec_of(&mut self.rng, l);
                square = l == n;
            }
            1 => {
                let c = self.rng.below(max);
                m = mat_of(&mut self.rng, n, c);
                square = n > 0 && c == n;
            }
            2 if n > 0 => {
                let (i, j) = (self.rng.below(n), self.rng.below(n));
                m[i] = m[j].clone();
            }
            3 if n > 0 => {
                let i = self.rng.below(n);
                m[i] = vec![F::zero(); n];
            }
            _ => {}
        }
        let before = m.clone();
        let shape = format!("{:?}", m.iter().map(|r| r.len()).collect::<Vec<_>>());
        let rect = !m.is_empty() && m.iter().all(|r| r.len() == m[0].len());
        let d = || shape.clone();
        let fl = |v: &Mat<F>| v.concat();
        match self.rng.below(5) {
            0 => {
                if let Some(v) = self.go("mat_inverse", square, d, || zmat::mat_inverse(&m), fl) {
                    self.keep(v.concat(), "mat_inverse");
                }
            }
            1 => {
                if let Some(v) = self.go("mat_transpose", rect, d, || zmat::mat_transpose(&m), fl) {
                    self.keep(v.concat(), "mat_transpose");
                }
            }
            2 => {
                let l = if self.rng.chance(1, 3) { self.rng.below(max) } else { n };
                let x = vec_of::<F>(&mut self.rng, l);
                if let Some(v) = self.go("Poseidon mat_vec_mul", square && l == n, d, || PoseidonParams::<F>::mat_vec_mul(&m, &x), |v| v.clone()) {
                    self.keep(v, "mat_vec_mul");
                }
            }
            3 => {
                let l = if self.rng.chance(1, 3) { self.rng.below(max) } else { n };
                let x = vec_of::<F>(&mut self.rng, l);
                if let Some(v) = self.go("Poseidon2 mat_vec_mul", square && l == n, d, || Poseidon2Params::<F>::mat_vec_mul(&m, &x), |v| v.clone()) {
                    self.keep(v, "mat_vec_mul");
                }
            }
            _ => {
                let (r, c) = if self.rng.chance(1, 3) { (self.rng.below(max), self.rng.below(max)) } else { (n, n) };
                let b = mat_of::<F>(&mut self.rng, r, c);
                if let Some(v) = self.go("mat_mat_mul", square && r == n && c == n, d, || PoseidonParams::<F>::mat_mat_mul(&m, &b), fl) {
                    self.keep(v.concat(), "mat_mat_mul");
                }
            }
        }
        self.same("matrix helper", &m.concat(), &before.concat());
    }

    fn tables(&mut self) {
        let t = 1 + self.rng.below(if self.miri { 4 } else { 13 });
        let rp = self.rng.below(6);
        let rfb = self.rng.below(4);
        let m = mat_of::<F>(&mut self.rng, t, t);
        let rows = if self.rng.chance(1, 4) { self.rng.below(12) } else { 2 * rfb + rp };
        let mut rc = mat_of::<F>(&mut self.rng, rows, t);
        let mut wf = rp >= 1 && rows >= rfb + rp && t >= 2;
        if rows > 0 && self.rng.chance(1, 4) {
            let i = self.rng.below(rows);
            let l = self.rng.below(t + 2);
            rc[i] = vec_of(&mut self.rng, l);
            wf = false;
        }
        let ask_t = if self.rng.chance(1, 5) { self.rng.below(t + 3) } else { t };
        let d = || format!("t={} rp={} rfb={} rows={} asked t={}", t, rp, rfb, rows, ask_t);
        match self.rng.below(3) {
            0 => {
                if let Some((a, b, c)) = self.go("equivalent_matrices", wf && ask_t == t, d, || PoseidonParams::<F>::equivalent_matrices(&m, ask_t, rp), |v| [v.0.concat(), v.1.concat(), v.2.concat()].concat()) {
                    self.keep([a.concat(), b.concat(), c.concat()].concat(), "equivalent_matrices");
                }
            }
            1 => {
                if let Some(v) = self.go("Poseidon equivalent_round_constants", wf, d, || PoseidonParams::<F>::equivalent_round_constants(&rc, &m, rfb, rp), |v| v.concat()) {
                    self.keep(v.concat(), "equivalent_round_constants");
                }
            }
            _ => {
                if let Some(v) = self.go("Poseidon2 equivalent_round_constants", wf, d, || Poseidon2Params::<F>::equivalent_round_constants(&rc, &m, rfb, rp), |v| v.concat()) {
                    self.keep(v.concat(), "equivalent_round_constants");
                }
            }
        }
    }

    fn construct(&mut self) {
        let r = &mut self.rng;
        let small = if self.miri { 2 } else { 6 };
        let rf = if r.chance(1, 6) { r.below(8) } else { 2 * r.below(small / 2 + 1) };
        let rp = 1 + r.below(small);
        let odd = r.chance(1, 3);
        let d = if odd { *r.pick(&[0usize, 1, 2, 3, 4, 5, 6, 7, 9, 11, 13]) } else { *r.pick(&[3usize, 5, 7]) };
        let fam = r.below(4);
        let t = match fam {
            0 if !odd => *r.pick(if self.miri { &P2_WIDTHS[..4] } else { &P2_WIDTHS }),
            3 if !odd => 2 + 2 * r.below(if self.miri { 3 } else { 12 }),
            _ => r.below(if self.miri { 9 } else { 30 }) + (!odd) as usize,
        };
        let mut rows = rf + rp;
        if odd && r.chance(1, 2) {
            rows = r.below(rows + 2);
        }
        let mut rc = mat_of::<F>(r, rows, t);
        if odd && rows > 0 && r.chance(1, 2) {
            let i = r.below(rows);
            let l = r.below(t + 3);
            rc[i] = vec_of(r, l);
        }
        let wf = !odd && rf % 2 == 0 && t > 0;
        let desc = format!("family {} t={} d={} rf={} rp={} rows={} odd={}", fam, t, d, rf, rp, rows, odd);
        let ds = || desc.clone();
        let h = match fam {
            0 => {
                let dl = if odd { r.below(t + 3) } else { t };
                let diag = vec_of::<F>(r, dl);
                let mi = if r.chance(1, 2) { mat_of(r, t, t) } else { vec![] };
                self.go("Poseidon2Params::new", wf, ds, || Hash::p2(&Arc::new(Poseidon2Params::new(t, d, rf, rp, &diag, &mi, &rc))), |_| vec![])
            }
            1 => {
                let n = if odd { r.below(t + 3) } else { t };
                let mds = if odd { mat_of::<F>(r, n, t) } else { crate::perm::random_invertible::<F>(r, t, true) };
                self.go("PoseidonParams::new", wf && t >= 2, ds, || Hash::p(&Arc::new(PoseidonParams::new(t, d, rf, rp, &mds, &rc))), |_| vec![])
            }
            2 => {
                let rounds = 1 + r.below(if self.miri { 6 } else { 60 });
                self.go("GmimcParams::new", wf && t >= 2, ds, || Hash::g(&Arc::new(GmimcParams::new(t, d, rounds))), |_| vec![])
            }
            _ => self.go("NeptuneParams::new", wf && t % 2 == 0, ds, || Hash::n(&Arc::new(NeptuneParams::new(t, d, rf, rp))), |_| vec![]),
        };
        if let Some(h) = h {
            if self.rng.chance(1, 4) {
                // Debug output and clones walk over everything the parameters hold
                let s = catch(|| match &h {
                    Hash::P2(a, b) => format!("{:?}{:?}", a, b),
                    Hash::P(a, b) => format!("{:?}{:?}", a, b),
                    Hash::G(a, b) => format!("{:?}{:?}", a, b),
                    Hash::N(a, b) => format!("{:?}{:?}", a, b),
                });
                self.ev.count("Debug output bytes", s.map(|s| s.len() as u64).unwrap_or(0));
            }
            self.put(h, if odd { "odd" } else { "good" });
        }
    }
    fn put(&mut self, h: Hash<F>, label: &str) {
        if self.ring.len() < 10 {
            self.ring.push((h, label.to_string()));
        } else {
            let i = self.rng.below(10);
            self.ring[i] = (h, label.to_string());
        }
    }

    fn evaluate(&mut self) {
        if self.ring.is_empty() {
            return;
        }
        let i = self.rng.below(self.ring.len());
        let (h, label) = (self.ring[i].0.clone(), self.ring[i].1.clone());
        let t = h.get_t();
        match self.rng.below(12) {
            0 => self.put(h, &label),
            1 => {
                let r = self.go("clone or move parameters", true, String::new, || h.relocated(), |_| vec![]);
                if let Some(r) = r {
                    self.put(r, &label);
                }
            }
            2 => {
                self.ring.swap_remove(i);
            }
            3 => {
                // the object outlives the parameters' other owners, on another thread
                let x = vec_of::<F>(&mut self.rng, t);
                let e = self.rng.below(h.evaluators().len());
                if let Some(l) = self.go("permutation of an object that alone holds its parameters", label == "good", || format!("t={}", t), || h.orphan_call(e, &x), |v| v.clone()) {
                    self.keep(l, "permutation of an orphan");
                }
                let moved = self.ring.swap_remove(i).0;
                drop(h);
                let l = std::thread::Builder::new().spawn(move || catch(move || moved.call(0, &x)).ok()).unwrap().join().ok().flatten();
                self.ev.count("evaluations on a thread of their own", l.is_some() as u64);
                if let Some(l) = l {
                    self.keep(l, "permutation on another thread");
                }
            }
            4 | 5 => {
                let n = if self.rng.chance(1, 3) { self.rng.below(7) } else { 2 };
                let x = vec_of::<F>(&mut self.rng, n);
                let refs: Vec<&F> = x.iter().collect();
                let fits = n == 2 && t == if matches!(h, Hash::N(..)) { 4 } else { 3 };
                if let Some(v) = self.go("compress", fits && label == "good", || format!("t={} inputs={}", t, n), || h.compress(&refs), |v| vec![*v]) {
                    self.keep(vec![v], "compress");
                }
            }
            6 => {
                let n = self.rng.below(if self.miri { 6 } else { 40 });
                let x = vec_of::<F>(&mut self.rng, n);
                let a = AsTreeHash(h);
                if let Some(v) = self.go("tree over a hash", false, || format!("t={} leaves={}", t, n), || fp::MerkleTree::new(a).accumulate(&x), |v| vec![*v]) {
                    self.keep(vec![v], "tree");
                }
            }
            _ => {
                let n = if self.rng.chance(1, 3) { self.rng.below(2 * t + 4) } else { t };
                let x = vec_of::<F>(&mut self.rng, n);
                let before = x.clone();
                let e = self.rng.below(h.evaluators().len());
                let op = format!("{} {}", match h {
                    Hash::P2(..) => "Poseidon2",
                    Hash::P(..) => "Poseidon",
                    Hash::G(..) => "GMiMC",
                    Hash::N(..) => "Neptune",
                }, h.evaluators()[e]);
                if let Some(v) = self.go(&op, n == t && label == "good", || format!("t={} length={}", t, n), || h.call(e, &x), |v| v.clone()) {
                    self.keep(v, &op);
                }
                self.same(&op, &x, &before);
            }
        }
    }

    fn size(&mut self) -> usize {
        match self.rng.below(8) {
            0 if !self.miri => *self.rng.pick(&dict_sizes(1, 3000).into_iter().chain([1]).collect::<Vec<_>>()),
            1 if !self.miri => self.rng.below(700),
            2 => self.rng.below(4),
            _ => self.rng.below(if self.miri { 9 } else { 70 }),
        }
    }

    fn trees(&mut self) {
        let n = self.size();
        let fuse = if self.rng.chance(1, 5) { self.rng.below(n + 1) } else { usize::MAX };
        FUSE.with(|f| f.set(fuse));
        let lin = Lin { reenter: self.rng.chance(1, 6) };
        let rounds = 1 + self.rng.below(2);
        let wf = n > 0;
        let ds = move || format!("leaves={}", n);
        let k = self.rng.next();
        match self.rng.below(4) {
            0 => {
                let x = vec_of::<F>(&mut self.rng, n);
                let mut tr = fp::MerkleTree::new(lin);
                for _ in 0..rounds {
                    if let Some(v) = self.go("field tree", wf, ds, || tr.accumulate(&x), |v| vec![*v]) {
                        self.keep(vec![v], "field tree");
                    }
                    tr = tr.clone();
                }
            }
            1 => {
                let x: Vec<_> = (0..n as u64).map(|i| pasta_curves::pallas::Base::from(i ^ k)).collect();
                let mut tr = orch::MerkleTree::new(lin);
                for _ in 0..rounds {
                    self.go("Orchard tree", wf, ds, || tr.accumulate(&x), |_| vec![]);
                    tr = tr.clone();
                }
            }
            2 => {
                let x: Vec<_> = (0..n as u64).map(|i| jubjub::Base::from(i ^ k)).collect();
                let mut tr = sapl::MerkleTree::new(lin);
                for _ in 0..rounds {
                    self.go("Sapling tree", wf, ds, || tr.accumulate(&x), |_| vec![]);
                    tr = tr.clone();
                }
            }
            _ => {
                FUSE.with(|f| f.set(usize::MAX));
                match self.rng.below(5) {
                    0 => self.digest::<sha2::Sha256>(n, rounds),
                    1 => self.digest::<sha2::Sha512>(n, rounds),
                    2 => self.digest::<sha3::Sha3_224>(n, rounds),
                    3 => self.digest::<blake2::Blake2s256>(n, rounds),
                    _ => self.digest::<sha3::Keccak256>(n, rounds),
                }
            }
        }
        FUSE.with(|f| f.set(usize::MAX));
    }
    fn digest<D: Digest + FixedOutputReset + Clone>(&mut self, n: usize, rounds: usize) {
        let x: Vec<Output<D>> = (0..n)
            .map(|_| {
                let mut o = Output::<D>::default();
                o.iter_mut().for_each(|b| *b = self.rng.next() as u8);
                o
            })
            .collect();
        let before = x.clone();
        let mut tr = if n % 2 == 0 { f2::MerkleTree::<D>::new() } else { f2::MerkleTree::<D>::default() };
        for _ in 0..rounds {
            self.go("digest tree", n > 0, || format!("leaves={}", n), || tr.accumulate(&x), |_| vec![]);
            tr = tr.clone();
        }
        if x != before {
            violation("a call changed its borrowed arguments", format!("digest tree, {} leaves", n));
        }
    }
}

fn tour<F: PrimeField, R: PrimeField>(fname: &str, ev: &mut Ev, part: usize, steps: usize) {
    let rng = Rng::new(cfg().seed, &format!("c11/{}/{}", fname, part));
    let mut t = Tour::<F> { fname, ev, rng, step: (part as u64) << 32, ring: vec![], kept: vec![], miri: cfg!(miri) };
    for k in 0..steps {
        match t.rng.below(16) {
            0 => t.hex(),
            1 => t.scalars(),
            2 | 3 => t.matrices(),
            4 => t.tables(),
            5 | 6 => t.trees(),
            7 | 8 => t.construct(),
            _ if t.ring.len() < 3 => t.construct(),
            _ => t.evaluate(),
        }
        if k % 64 == 63 {
            PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        }
    }
    t.ev.count("API tour steps", steps as u64);
}

/// The named instances with right and wrong inputs, compressions and trees.
fn named_tour(ev: &mut Ev, lo: usize, parts: usize, per: usize) {
    for (k, n) in named().into_iter().enumerate() {
        if k % parts != lo {
            continue;
        }
        let d = make(&n);
        let mut rng = Rng::new(cfg().seed, &format!("c11/{}", n.name));
        for _ in 0..per {
            let len = if rng.chance(1, 3) { rng.below(2 * n.t + 4) } else { n.t };
            let x: Vec<El> = (0..len).map(|_| if rng.chance(1, 4) { [0; 4] } else { d.rnd(&mut rng) }).collect();
            let e = rng.below(d.evaluators().len());
            let good = match rng.below(6) {
                0 => {
                    let good = len == 2 && n.t == crate::compress::comp_width(n.fam);
                    (good, catch(|| drop(d.compress(&x))))
                }
                1 => (false, catch(|| drop(d.tree(&x)))),
                2 => (len == n.t, catch(|| drop(d.fork().call(e, &x)))),
                3 => (len == n.t, catch(|| drop(d.relocated().call(e, &x)))),
                _ => (len == n.t, catch(|| drop(d.call(e, &x)))),
            };
            if let (true, Err(m)) = &good {
                if m.contains("overflow") {
                    violation("a well-formed call stops on an arithmetic overflow", format!("{} {}: {}", n.name, hexv(&x), m));
                }
            }
            ev.case(if good.1.is_ok() { "named instance returned" } else { "named instance refused" }, fnv_els(sfp(n.name), &x), true);
        }
        ev.count("named instances toured", 1);
    }
}

/// Deep work must not need a deep stack: a default-sized thread accumulates a large tree.
fn deep(ev: &mut Ev) {
    let n = if cfg().thorough { 600_000 } else { 70_000 };
    let r = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            let x: Vec<zkhash::fields::babybear::FpBabyBear> = (0..n as u64).map(|i| i.into()).collect();
            let a = catch(|| fp::MerkleTree::new(Lin { reenter: false }).accumulate(&x)).is_ok();
            let y: Vec<Output<sha2::Sha256>> = (0..n).map(|_| Output::<sha2::Sha256>::default()).collect();
            let b = catch(|| f2::MerkleTree::<sha2::Sha256>::new().accumulate(&y)).is_ok();
            let z: Vec<_> = (0..n as u64).map(pasta_curves::pallas::Base::from).collect();
            let c = catch(|| orch::MerkleTree::new(Lin { reenter: false }).accumulate(&z)).is_ok();
            let w: Vec<_> = (0..n as u64).map(jubjub::Base::from).collect();
            let d = catch(|| sapl::MerkleTree::new(Lin { reenter: false }).accumulate(&w)).is_ok();
            (a, b, c, d)
        })
        .unwrap()
        .join();
    ev.count("leaves accumulated on a 2 MiB stack", 4 * n as u64);
    ev.case("large trees on a small stack", n as u64, r.is_ok());
}

pub fn c11() -> Ev {
    if cfg!(miri) {
        let mut ev = Ev::default();
        let n = amount(70, 2500);
        tour::<crate::fields::f17::F, crate::fields::f17::F>("F17", &mut ev, 0, n * 2);
        tour::<zkhash::fields::babybear::FpBabyBear, crate::fields::babybear::F>("BabyBear", &mut ev, 0, n);
        tour::<zkhash::fields::bls12::FpBLS12, crate::fields::bls12::F>("BLS12", &mut ev, 0, n / 4);
        return ev;
    }
    let mut jobs: Vec<Job> = vec![];
    let steps = amount(12_000, 250_000);
    for part in 0..3usize {
        for f in 0..N_FIELDS {
            jobs.push(Box::new(move |ev: &mut Ev| with_field!(f, tour(ev, part, steps / 3))));
        }
    }
    let per = amount(60, 1500);
    for lo in 0..16 {
        jobs.push(Box::new(move |ev: &mut Ev| named_tour(ev, lo, 16, per)));
    }
    jobs.push(Box::new(deep));
    par(jobs)
}
