//! The code under test behind one object-safe interface, paired with its reference model.
use crate::fields::{self, *};
use crate::grain;
use crate::refm::{self, Layer, Model, Roots};
use crate::util::*;
use ark_ff::PrimeField;
use std::sync::Arc;
use zkhash::fields as zf;
use zkhash::gmimc::{gmimc::Gmimc, gmimc_params::GmimcParams};
use zkhash::merkle_tree::merkle_tree_fp::MerkleTreeHash;
use zkhash::neptune::{neptune::Neptune, neptune_params::NeptuneParams};
use zkhash::poseidon::{poseidon::Poseidon, poseidon_params::PoseidonParams};
use zkhash::poseidon2::{poseidon2::Poseidon2, poseidon2_params::Poseidon2Params};

#[derive(Clone)]
pub enum Hash<F: PrimeField> {
    P2(Poseidon2<F>, Arc<Poseidon2Params<F>>),
    P(Poseidon<F>, Arc<PoseidonParams<F>>),
    G(Gmimc<F>, Arc<GmimcParams<F>>),
    N(Neptune<F>, Arc<NeptuneParams<F>>),
}

// With this feature jobs run one after another and objects change threads only by hand-over.
#[cfg(feature = "share")]
unsafe impl<F: PrimeField> Send for Hash<F> {}
#[cfg(feature = "share")]
unsafe impl<F: PrimeField> Sync for Hash<F> {}

impl<F: PrimeField> Hash<F> {
    pub fn p2(p: &Arc<Poseidon2Params<F>>) -> Self {
        Hash::P2(Poseidon2::new(p), p.clone())
    }
    pub fn p(p: &Arc<PoseidonParams<F>>) -> Self {
        Hash::P(Poseidon::new(p), p.clone())
    }
    pub fn g(p: &Arc<GmimcParams<F>>) -> Self {
        Hash::G(Gmimc::new(p), p.clone())
    }
    pub fn n(p: &Arc<NeptuneParams<F>>) -> Self {
        Hash::N(Neptune::new(p), p.clone())
    }
    pub fn again(&self) -> Self {
        match self {
            Hash::P2(_, p) => Self::p2(p),
            Hash::P(_, p) => Self::p(p),
            Hash::G(_, p) => Self::g(p),
            Hash::N(_, p) => Self::n(p),
        }
    }
    /// The same parameters at another address.
    pub fn relocated(&self) -> Self {
        match self {
            Hash::P2(_, p) => Self::p2(&Arc::new((**p).clone())),
            Hash::P(_, p) => Self::p(&Arc::new((**p).clone())),
            Hash::G(_, p) => Self::g(&Arc::new((**p).clone())),
            Hash::N(_, p) => Self::n(&Arc::new((**p).clone())),
        }
    }
    /// An object that outlives every other owner of its parameters.
    pub fn orphan_call(&self, e: usize, x: &[F]) -> Vec<F> {
        match self {
            Hash::P2(_, p) => {
                let p = Arc::new((**p).clone());
                let h = Poseidon2::new(&p);
                drop(p);
                let _other = std::hint::black_box(x.to_vec());
                h.clone().permutation(x)
            }
            Hash::P(_, p) => {
                let p = Arc::new((**p).clone());
                let h = Poseidon::new(&p);
                drop(p);
                let _other = std::hint::black_box(x.to_vec());
                if e == 0 { h.clone().permutation(x) } else { h.permutation_not_opt(x) }
            }
            Hash::G(_, p) => {
                let p = Arc::new((**p).clone());
                let h = Gmimc::new(&p);
                drop(p);
                let _other = std::hint::black_box(x.to_vec());
                if e == 0 { h.clone().permutation(x) } else { h.permutation_not_opt(x) }
            }
            Hash::N(_, p) => {
                let p = Arc::new((**p).clone());
                let h = Neptune::new(&p);
                drop(p);
                let _other = std::hint::black_box(x.to_vec());
                h.clone().permutation(x)
            }
        }
    }
    pub fn evaluators(&self) -> &'static [&'static str] {
        match self {
            Hash::P2(..) | Hash::N(..) => &["permutation"],
            _ => &["permutation", "permutation_not_opt"],
        }
    }
    pub fn call(&self, e: usize, x: &[F]) -> Vec<F> {
        match self {
            Hash::P2(h, _) => h.permutation(x),
            Hash::N(h, _) => h.permutation(x),
            Hash::P(h, _) if e == 0 => h.permutation(x),
            Hash::P(h, _) => h.permutation_not_opt(x),
            Hash::G(h, _) if e == 0 => h.permutation(x),
            Hash::G(h, _) => h.permutation_not_opt(x),
        }
    }
    pub fn get_t(&self) -> usize {
        match self {
            Hash::P2(h, _) => h.get_t(),
            Hash::N(h, _) => h.get_t(),
            Hash::P(h, _) => h.get_t(),
            Hash::G(h, _) => h.get_t(),
        }
    }
    pub fn compress(&self, v: &[&F]) -> F {
        match self {
            Hash::P2(h, _) => h.compress(v),
            Hash::N(h, _) => h.compress(v),
            Hash::P(h, _) => h.compress(v),
            Hash::G(h, _) => h.compress(v),
        }
    }
}

/// A Merkle-tree-able view of any hash.
#[derive(Clone)]
pub struct AsTreeHash<F: PrimeField>(pub Hash<F>);
impl<F: PrimeField> MerkleTreeHash<F> for AsTreeHash<F> {
    fn compress(&self, input: &[&F]) -> F {
        self.0.compress(input)
    }
}

#[derive(Clone)]
pub struct Inst<F: PrimeField, R: PrimeField> {
    pub name: String,
    pub fam: &'static str,
    pub t: usize,
    pub hash: Hash<F>,
    pub model: Option<Model<R>>,
    /// Another layered description with the same meaning, used only to steer inputs.
    pub guide: Option<Model<R>>,
    pub roots: Roots,
    pub consts: Vec<El>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Mat,
    Add,
    PowAll,
    PowFirst,
    Nep,
    Gm,
    Rot,
    End,
}

pub trait Dyn: Send + Sync {
    fn name(&self) -> &str;
    fn fam(&self) -> &'static str;
    fn t(&self) -> usize;
    fn get_t(&self) -> usize;
    fn evaluators(&self) -> &'static [&'static str];
    fn call(&self, e: usize, x: &[El]) -> Vec<El>;
    /// Every state through one and the same input buffer, overwritten in place.
    fn call_inplace(&self, e: usize, xs: &[Vec<El>]) -> Vec<Vec<El>>;
    /// `n` calls cycling through the inputs, each compared with its expected result.
    /// `e` past the evaluators means compression of the first two elements.
    fn call_many(&self, e: usize, xs: &[Vec<El>], n: usize, want: &[Vec<El>]) -> Result<(), (usize, Vec<El>)>;
    /// The call on an object whose parameters nobody else holds any more.
    fn call_orphan(&self, e: usize, x: &[El]) -> Vec<El>;
    /// `n` calls, each on the result of the one before; `e` past the evaluators means compression.
    fn chain(&self, e: usize, x: &[El], n: usize) -> Vec<El>;
    /// Make and drop hash objects for these parameters, or for a copy of them.
    fn churn(&self, n: usize, copy: bool);
    fn compress(&self, v: &[El]) -> El;
    /// Merkle root over the leaves with this hash.
    fn tree(&self, leaves: &[El]) -> El;
    fn has_model(&self) -> bool;
    fn model(&self, x: &[El]) -> Vec<El>;
    fn invertible(&self) -> bool;
    fn layers(&self, alt: bool) -> usize;
    fn kind(&self, alt: bool, k: usize) -> Kind;
    fn back(&self, alt: bool, k: usize, s: &[El]) -> Option<Vec<El>>;
    fn upto(&self, alt: bool, k: usize, x: &[El]) -> Vec<El>;
    fn fork(&self) -> Box<dyn Dyn>;
    fn again(&self) -> Box<dyn Dyn>;
    fn relocated(&self) -> Box<dyn Dyn>;
    fn consts(&self) -> &[El];
    fn gm_round(&self, k: usize) -> Option<(El, usize)>;
    fn nep_gamma(&self, k: usize) -> Option<El>;
    // field helpers
    fn bits(&self) -> usize;
    fn modulus(&self) -> El;
    fn rnd(&self, rng: &mut Rng) -> El;
    fn add(&self, a: &El, b: &El) -> El;
    fn mul(&self, a: &El, b: &El) -> El;
    fn neg(&self, a: &El) -> El;
    fn red(&self, b: &num_bigint::BigUint) -> El;
    fn raw(&self, b: &num_bigint::BigUint) -> El;
    fn pow(&self, a: &El, d: usize) -> El;
    fn sqrt(&self, a: &El) -> Option<El>;
}

impl<F: PrimeField, R: PrimeField> Inst<F, R> {
    fn mdl(&self, alt: bool) -> &Model<R> {
        if alt {
            if let Some(g) = &self.guide {
                return g;
            }
        }
        self.model.as_ref().unwrap()
    }
}

impl<F: PrimeField, R: PrimeField> Dyn for Inst<F, R> {
    fn name(&self) -> &str {
        &self.name
    }
    fn fam(&self) -> &'static str {
        self.fam
    }
    fn t(&self) -> usize {
        self.t
    }
    fn get_t(&self) -> usize {
        self.hash.get_t()
    }
    fn evaluators(&self) -> &'static [&'static str] {
        self.hash.evaluators()
    }
    fn call(&self, e: usize, x: &[El]) -> Vec<El> {
        to_els(&self.hash.call(e, &of_els::<F>(x)))
    }
    fn call_inplace(&self, e: usize, xs: &[Vec<El>]) -> Vec<Vec<El>> {
        let mut buf: Vec<F> = of_els(&xs[0]);
        xs.iter()
            .map(|x| {
                for (b, v) in buf.iter_mut().zip(x) {
                    *b = of_el(v);
                }
                to_els(&self.hash.call(e, &buf))
            })
            .collect()
    }
    fn call_many(&self, e: usize, xs: &[Vec<El>], n: usize, want: &[Vec<El>]) -> Result<(), (usize, Vec<El>)> {
        let xs: Vec<Vec<F>> = xs.iter().map(|x| of_els(x)).collect();
        let ws: Vec<Vec<F>> = want.iter().map(|x| of_els(x)).collect();
        let comp = e >= self.evaluators().len();
        let mut q = 0;
        for i in 0..n {
            if comp {
                let y = self.hash.compress(&[&xs[q][0], &xs[q][1]]);
                if y != ws[q][0] {
                    return Err((i, to_els(&[y])));
                }
            } else {
                let y = self.hash.call(e, &xs[q]);
                if y != ws[q] {
                    return Err((i, to_els(&y)));
                }
            }
            q += 1;
            if q == xs.len() {
                q = 0;
            }
        }
        Ok(())
    }
    fn call_orphan(&self, e: usize, x: &[El]) -> Vec<El> {
        to_els(&self.hash.orphan_call(e, &of_els::<F>(x)))
    }
    fn chain(&self, e: usize, x: &[El], n: usize) -> Vec<El> {
        let mut v: Vec<F> = of_els(x);
        for _ in 0..n {
            if e < self.evaluators().len() {
                v = self.hash.call(e, &v);
            } else {
                let y = self.hash.compress(&[&v[0], &v[1]]);
                v[1] = v[0];
                v[0] = y;
            }
        }
        to_els(&v)
    }
    fn churn(&self, n: usize, copy: bool) {
        for _ in 0..n {
            let h = if copy { self.hash.relocated() } else { self.hash.again() };
            drop(std::hint::black_box(h));
        }
    }
    fn compress(&self, v: &[El]) -> El {
        let v: Vec<F> = of_els(v);
        let r: Vec<&F> = v.iter().collect();
        to_el(&self.hash.compress(&r))
    }
    fn tree(&self, leaves: &[El]) -> El {
        let v: Vec<F> = of_els(leaves);
        to_el(&zkhash::merkle_tree::merkle_tree_fp::MerkleTree::new(AsTreeHash(self.hash.clone())).accumulate(&v))
    }
    fn has_model(&self) -> bool {
        self.model.is_some()
    }
    fn model(&self, x: &[El]) -> Vec<El> {
        to_els(&self.mdl(false).fwd(&of_els::<R>(x)))
    }
    fn invertible(&self) -> bool {
        self.model.as_ref().map(|m| m.invertible()).unwrap_or(false)
    }
    fn layers(&self, alt: bool) -> usize {
        self.mdl(alt).layers.len()
    }
    fn kind(&self, alt: bool, k: usize) -> Kind {
        match self.mdl(alt).layers.get(k) {
            None => Kind::End,
            Some(Layer::Mat { .. }) => Kind::Mat,
            Some(Layer::Add(_)) => Kind::Add,
            Some(Layer::PowAll(_)) => Kind::PowAll,
            Some(Layer::PowFirst(_)) => Kind::PowFirst,
            Some(Layer::NepQuad(_)) => Kind::Nep,
            Some(Layer::GmAdd { .. }) => Kind::Gm,
            Some(Layer::RotR) => Kind::Rot,
        }
    }
    fn back(&self, alt: bool, k: usize, s: &[El]) -> Option<Vec<El>> {
        self.mdl(alt).back(k, &of_els::<R>(s), &self.roots).map(|v| to_els(&v))
    }
    fn upto(&self, alt: bool, k: usize, x: &[El]) -> Vec<El> {
        to_els(&self.mdl(alt).upto(k, &of_els::<R>(x)))
    }
    fn fork(&self) -> Box<dyn Dyn> {
        Box::new(self.clone())
    }
    fn again(&self) -> Box<dyn Dyn> {
        let mut c = self.clone();
        c.hash = self.hash.again();
        Box::new(c)
    }
    fn relocated(&self) -> Box<dyn Dyn> {
        let mut c = self.clone();
        c.hash = self.hash.relocated();
        Box::new(c)
    }
    fn consts(&self) -> &[El] {
        &self.consts
    }
    fn gm_round(&self, k: usize) -> Option<(El, usize)> {
        match self.model.as_ref()?.layers.get(k)? {
            Layer::GmAdd { c, d } => Some((to_el(c), *d)),
            _ => None,
        }
    }
    fn nep_gamma(&self, k: usize) -> Option<El> {
        match self.model.as_ref()?.layers.get(k)? {
            Layer::NepQuad(g) => Some(to_el(g)),
            _ => None,
        }
    }
    fn bits(&self) -> usize {
        R::MODULUS_BIT_SIZE as usize
    }
    fn modulus(&self) -> El {
        modulus_el::<R>()
    }
    fn rnd(&self, rng: &mut Rng) -> El {
        to_el(&fields::rand::<R>(rng))
    }
    fn add(&self, a: &El, b: &El) -> El {
        to_el(&(of_el::<R>(a) + of_el::<R>(b)))
    }
    fn mul(&self, a: &El, b: &El) -> El {
        to_el(&(of_el::<R>(a) * of_el::<R>(b)))
    }
    fn neg(&self, a: &El) -> El {
        to_el(&(-of_el::<R>(a)))
    }
    fn red(&self, b: &num_bigint::BigUint) -> El {
        to_el(&of_big::<R>(b))
    }
    fn raw(&self, b: &num_bigint::BigUint) -> El {
        to_el(&of_raw::<R>(b))
    }
    fn pow(&self, a: &El, d: usize) -> El {
        to_el(&of_el::<R>(a).pow([d as u64]))
    }
    fn sqrt(&self, a: &El) -> Option<El> {
        let v = of_el::<R>(a);
        v.sqrt().filter(|r| *r * r == v).map(|r| to_el(&r))
    }
}

// ---------------------------------------------------------------- constructors
fn some_consts<R: PrimeField>(v: impl Iterator<Item = R>) -> Vec<El> {
    let all: Vec<El> = v.map(|x| to_el(&x)).collect();
    let n = all.len();
    if n <= 48 {
        return all;
    }
    (0..48).map(|i| all[i * (n - 1) / 47]).collect()
}

pub fn p2_inst<F: PrimeField, R: PrimeField>(
    name: String,
    hash: Hash<F>,
    (t, d, rf, rp): (usize, usize, usize, usize),
    diag: &[R],
    rc: &[Vec<R>],
) -> Inst<F, R> {
    let consts = some_consts(rc.iter().flatten().chain(diag).copied());
    Inst { name, fam: "poseidon2", t, hash, model: Some(refm::poseidon2(t, d, rf, rp, diag, rc)), guide: None, roots: Roots::new::<R>(), consts }
}

/// The optimised Poseidon evaluation as layers, from the crate's own derived tables. Used only to
/// steer inputs into special inner states of the optimised evaluator, never as an oracle.
fn poseidon_opt_guide<F: PrimeField, R: PrimeField>(
    (t, d, rf, rp): (usize, usize, usize, usize),
    mds: &[Vec<R>],
    rc: &[Vec<R>],
) -> Option<Model<R>> {
    let fm: Vec<Vec<F>> = mds.iter().map(|r| of_els(&to_els(r))).collect();
    let frc: Vec<Vec<F>> = rc.iter().map(|r| of_els(&to_els(r))).collect();
    let (mi, v, w, opt) = catch(|| {
        let (mi, v, w) = PoseidonParams::<F>::equivalent_matrices(&fm, t, rp);
        (mi, v, w, PoseidonParams::<F>::equivalent_round_constants(&frc, &fm, rf / 2, rp))
    })
    .ok()?;
    let cv = |m: &[Vec<F>]| -> Vec<Vec<R>> { m.iter().map(|r| of_els(&to_els(r))).collect() };
    let (mi, v, w, opt) = (cv(&mi), cv(&v), cv(&w), cv(&opt));
    if mi.len() != t || mi.iter().any(|r| r.len() != t) || v.len() < rp || w.len() < rp || opt.len() < rp {
        return None;
    }
    if v.iter().chain(&w).any(|r| r.len() + 1 != t) || opt[0].len() != t || opt[1..].iter().any(|r| r.is_empty()) {
        return None;
    }
    let mat = |m: Vec<Vec<R>>| Layer::Mat { inv: refm::inverse(&m), m };
    let full = mat(mds.to_vec());
    let mut l = vec![];
    for r in rc.iter().take(rf / 2) {
        l.extend([Layer::Add(r.clone()), Layer::PowAll(d), full.clone()]);
    }
    l.push(Layer::Add(opt[0].clone()));
    l.push(mat(mi));
    for r in 0..rp {
        l.push(Layer::PowFirst(d));
        if r + 1 < rp {
            let mut a = vec![R::zero(); t];
            a[0] = opt[r + 1][0];
            l.push(Layer::Add(a));
        }
        let k = rp - r - 1;
        let mut m = refm::identity(t);
        m[0][0] = mds[0][0];
        for i in 1..t {
            m[0][i] = w[k][i - 1];
            m[i][0] = v[k][i - 1];
        }
        l.push(mat(m));
    }
    for r in rc.iter().take(rf + rp).skip(rf / 2 + rp) {
        l.extend([Layer::Add(r.clone()), Layer::PowAll(d), full.clone()]);
    }
    Some(Model { t, layers: l })
}

pub fn p_inst<F: PrimeField, R: PrimeField>(
    name: String,
    hash: Hash<F>,
    (t, d, rf, rp): (usize, usize, usize, usize),
    mds: &[Vec<R>],
    rc: &[Vec<R>],
) -> Inst<F, R> {
    let consts = some_consts(rc.iter().flatten().chain(mds.iter().flatten()).copied());
    let guide = poseidon_opt_guide::<F, R>((t, d, rf, rp), mds, rc);
    Inst { name, fam: "poseidon", t, hash, model: Some(refm::poseidon(t, d, rf, rp, mds, rc)), guide, roots: Roots::new::<R>(), consts }
}

#[allow(unused_variables, unused_mut)]
pub fn g_inst<F: PrimeField, R: PrimeField>(name: String, p: &Arc<GmimcParams<F>>, (t, d, rounds): (usize, usize, usize)) -> Inst<F, R> {
    let mut model = None;
    let mut consts = vec![];
    #[cfg(vp_hooks)]
    {
        let rc: Vec<R> = of_els(&to_els(&p.vp_round_constants()));
        if rc.len() < rounds {
            violation("GMiMC parameters do not hold one constant per round", format!("{}: rounds {} constants {}", name, rounds, rc.len()));
        }
        let rc = rc[..rounds].to_vec();
        consts = some_consts(rc.iter().copied());
        model = Some(refm::gmimc(t, d, &rc));
    }
    Inst { name, fam: "gmimc", t, hash: Hash::g(p), model, guide: None, roots: Roots::new::<R>(), consts }
}

#[cfg(vp_hooks)]
pub struct NepView<R: PrimeField> {
    pub rc: Vec<Vec<R>>,
    pub me: Vec<Vec<R>>,
    pub diag: Vec<R>,
    pub abc: Vec<R>,
}

#[cfg(vp_hooks)]
pub fn nep_view<F: PrimeField, R: PrimeField>(p: &NeptuneParams<F>) -> NepView<R> {
    let cv = |m: Vec<Vec<F>>| -> Vec<Vec<R>> { m.iter().map(|r| of_els(&to_els(r))).collect() };
    NepView {
        rc: cv(p.vp_round_constants()),
        me: cv(p.vp_external_matrix()),
        diag: of_els(&to_els(&p.vp_internal_diag_m_1())),
        abc: of_els(&to_els(&p.vp_alpha_beta_gamma())),
    }
}

#[allow(unused_variables, unused_mut)]
pub fn n_inst<F: PrimeField, R: PrimeField>(name: String, p: &Arc<NeptuneParams<F>>, (t, d, rf, rp): (usize, usize, usize, usize)) -> Inst<F, R> {
    let mut model = None;
    let mut consts = vec![];
    #[cfg(vp_hooks)]
    {
        let v = nep_view::<F, R>(p);
        let w = |what: &str| -> ! { violation(&format!("Neptune parameters: {}", what), name.clone()) };
        if v.rc.len() != rf + rp || v.rc.iter().any(|r| r.len() != t) {
            w("not one row of t constants per round");
        }
        if v.diag.len() != t || v.me.len() != t || v.me.iter().any(|r| r.len() != t) {
            w("matrix shapes differ from the width");
        }
        if v.abc[0] != R::one() || v.abc[1] != R::one() {
            w("alpha or beta is not one");
        }
        let me = match refm::nep_external::<R>(t) {
            Some(m) => {
                if m != v.me {
                    w("external matrix of width 4 or 8 is not the specified circulant one");
                }
                m
            }
            None => {
                for (i, row) in v.me.iter().enumerate() {
                    for (j, x) in row.iter().enumerate() {
                        if (i + j) % 2 == 1 && !x.is_zero() {
                            w("external matrix mixes even and odd positions");
                        }
                    }
                }
                v.me.clone()
            }
        };
        consts = some_consts(v.rc.iter().flatten().chain(&v.diag).chain(&v.abc).copied());
        model = Some(refm::neptune(t, d, rf, rp, &me, &v.diag, v.abc[2], &v.rc));
    }
    Inst { name, fam: "neptune", t, hash: Hash::n(p), model, guide: None, roots: Roots::new::<R>(), consts }
}

// ---------------------------------------------------------------- the named instances
pub struct Named {
    pub name: &'static str,
    pub fam: &'static str,
    pub field: &'static str,
    pub t: usize,
    pub d: usize,
    pub rf: usize,
    pub rp: usize,
    pub bits: usize,
    pub make: fn() -> Box<dyn Dyn>,
    /// Straight to the global instance: evaluate (0, 1, 2, ...) with evaluator e.
    pub touch: fn(usize) -> Vec<El>,
    /// An instance made by the public constructor from the regenerated standard tables.
    pub rebuild: Option<fn() -> Box<dyn Dyn>>,
}


fn count_up<F: PrimeField>(h: &Hash<F>, e: usize) -> Vec<El> {
    let x: Vec<F> = (0..h.get_t() as u64).map(F::from).collect();
    to_els(&h.call(e % h.evaluators().len(), &x))
}

macro_rules! p2s {
    ($v:ident; $($name:ident $md:ident $ft:ty, $rf_:ident, $t:expr, $d:expr, $rf:expr, $rp:expr, $k:expr;)*) => {$(
        $v.push(Named { name: stringify!($name), fam: "poseidon2", field: stringify!($rf_), t: $t, d: $d, rf: $rf, rp: $rp,
            bits: <fields::$rf_::F as PrimeField>::MODULUS_BIT_SIZE as usize,
            make: || {
                let tb = grain::poseidon2::<fields::$rf_::F>($t, $rf, $rp, $k);
                Box::new(p2_inst::<$ft, fields::$rf_::F>(stringify!($name).into(),
                    Hash::p2(&zkhash::poseidon2::$md::$name), ($t, $d, $rf, $rp), &tb.diag_m_1, &tb.rc))
            },
            touch: |e| count_up(&Hash::p2(&zkhash::poseidon2::$md::$name), e),
            rebuild: Some(|| {
                let tb = grain::poseidon2::<fields::$rf_::F>($t, $rf, $rp, $k);
                let diag: Vec<$ft> = of_els(&to_els(&tb.diag_m_1));
                let rc: Vec<Vec<$ft>> = tb.rc.iter().map(|r| of_els(&to_els(r))).collect();
                let p = Arc::new(Poseidon2Params::<$ft>::new($t, $d, $rf, $rp, &diag, &refm::p2_internal($t, &diag), &rc));
                Box::new(p2_inst::<$ft, fields::$rf_::F>(format!("rebuilt {}", stringify!($name)),
                    Hash::p2(&p), ($t, $d, $rf, $rp), &tb.diag_m_1, &tb.rc))
            }) });
    )*};
}
macro_rules! ps {
    ($v:ident; $($name:ident $md:ident $ft:ty, $rf_:ident, $t:expr, $d:expr, $rf:expr, $rp:expr;)*) => {$(
        $v.push(Named { name: stringify!($name), fam: "poseidon", field: stringify!($rf_), t: $t, d: $d, rf: $rf, rp: $rp,
            bits: <fields::$rf_::F as PrimeField>::MODULUS_BIT_SIZE as usize,
            make: || {
                let (mds, rc) = grain::poseidon::<fields::$rf_::F>($t, $rf, $rp);
                Box::new(p_inst::<$ft, fields::$rf_::F>(stringify!($name).into(),
                    Hash::p(&zkhash::poseidon::$md::$name), ($t, $d, $rf, $rp), &mds, &rc))
            },
            touch: |e| count_up(&Hash::p(&zkhash::poseidon::$md::$name), e),
            rebuild: Some(|| {
                let (mds, rc) = grain::poseidon::<fields::$rf_::F>($t, $rf, $rp);
                let cv = |m: &[Vec<fields::$rf_::F>]| -> Vec<Vec<$ft>> { m.iter().map(|r| of_els(&to_els(r))).collect() };
                let p = Arc::new(PoseidonParams::<$ft>::new($t, $d, $rf, $rp, &cv(&mds), &cv(&rc)));
                Box::new(p_inst::<$ft, fields::$rf_::F>(format!("rebuilt {}", stringify!($name)),
                    Hash::p(&p), ($t, $d, $rf, $rp), &mds, &rc))
            }) });
    )*};
}
macro_rules! gs {
    ($v:ident; $($name:ident $md:ident $ft:ty, $rf_:ident, $t:expr, $d:expr, $r:expr;)*) => {$(
        $v.push(Named { name: stringify!($name), fam: "gmimc", field: stringify!($rf_), t: $t, d: $d, rf: $r, rp: 0,
            bits: <fields::$rf_::F as PrimeField>::MODULUS_BIT_SIZE as usize,
            make: || Box::new(g_inst::<$ft, fields::$rf_::F>(stringify!($name).into(),
                    &zkhash::gmimc::$md::$name, ($t, $d, $r))),
            touch: |e| count_up(&Hash::g(&zkhash::gmimc::$md::$name), e), rebuild: None });
    )*};
}
macro_rules! ns {
    ($v:ident; $($name:ident $ft:ty, $rf_:ident, $t:expr, $d:expr, $rf:expr, $rp:expr;)*) => {$(
        $v.push(Named { name: stringify!($name), fam: "neptune", field: stringify!($rf_), t: $t, d: $d, rf: $rf, rp: $rp,
            bits: <fields::$rf_::F as PrimeField>::MODULUS_BIT_SIZE as usize,
            make: || Box::new(n_inst::<$ft, fields::$rf_::F>(stringify!($name).into(),
                    &zkhash::neptune::neptune_instances::$name, ($t, $d, $rf, $rp))),
            touch: |e| count_up(&Hash::n(&zkhash::neptune::neptune_instances::$name), e), rebuild: None });
    )*};
}

type BB = zf::babybear::FpBabyBear;
type GL = zf::goldilocks::FpGoldiLocks;
type BLS = zf::bls12::FpBLS12;
type BN = zf::bn256::FpBN256;
type PA = zf::pallas::FpPallas;
type VE = zf::vesta::FpVesta;

#[rustfmt::skip]
pub fn named() -> Vec<Named> {
    let mut v: Vec<Named> = vec![];
    p2s!{v;
        POSEIDON2_GOLDILOCKS_8_PARAMS poseidon2_instance_goldilocks GL, goldilocks, 8, 7, 8, 22, 3;
        POSEIDON2_GOLDILOCKS_12_PARAMS poseidon2_instance_goldilocks GL, goldilocks, 12, 7, 8, 22, 8;
        POSEIDON2_GOLDILOCKS_16_PARAMS poseidon2_instance_goldilocks GL, goldilocks, 16, 7, 8, 22, 46;
        POSEIDON2_GOLDILOCKS_20_PARAMS poseidon2_instance_goldilocks GL, goldilocks, 20, 7, 8, 22, 6;
        POSEIDON2_BABYBEAR_16_PARAMS poseidon2_instance_babybear BB, babybear, 16, 7, 8, 13, 18;
        POSEIDON2_BABYBEAR_24_PARAMS poseidon2_instance_babybear BB, babybear, 24, 7, 8, 21, 4;
        POSEIDON2_BLS_2_PARAMS poseidon2_instance_bls12 BLS, bls12, 2, 5, 8, 56, 0;
        POSEIDON2_BLS_3_PARAMS poseidon2_instance_bls12 BLS, bls12, 3, 5, 8, 56, 0;
        POSEIDON2_BLS_4_PARAMS poseidon2_instance_bls12 BLS, bls12, 4, 5, 8, 56, 0;
        POSEIDON2_BLS_8_PARAMS poseidon2_instance_bls12 BLS, bls12, 8, 5, 8, 57, 8;
        POSEIDON2_BN256_PARAMS poseidon2_instance_bn256 BN, bn256, 3, 5, 8, 56, 0;
        POSEIDON2_PALLAS_3_PARAMS poseidon2_instance_pallas PA, pallas, 3, 5, 8, 56, 0;
        POSEIDON2_PALLAS_4_PARAMS poseidon2_instance_pallas PA, pallas, 4, 5, 8, 56, 0;
        POSEIDON2_PALLAS_8_PARAMS poseidon2_instance_pallas PA, pallas, 8, 5, 8, 57, 6;
        POSEIDON2_VESTA_PARAMS poseidon2_instance_vesta VE, vesta, 3, 5, 8, 56, 0;
    }
    ps!{v;
        POSEIDON_GOLDILOCKS_8_PARAMS poseidon_instance_goldilocks GL, goldilocks, 8, 7, 8, 22;
        POSEIDON_GOLDILOCKS_12_PARAMS poseidon_instance_goldilocks GL, goldilocks, 12, 7, 8, 22;
        POSEIDON_GOLDILOCKS_16_PARAMS poseidon_instance_goldilocks GL, goldilocks, 16, 7, 8, 22;
        POSEIDON_GOLDILOCKS_20_PARAMS poseidon_instance_goldilocks GL, goldilocks, 20, 7, 8, 22;
        POSEIDON_BABYBEAR_16_PARAMS poseidon_instance_babybear BB, babybear, 16, 7, 8, 13;
        POSEIDON_BABYBEAR_24_PARAMS poseidon_instance_babybear BB, babybear, 24, 7, 8, 21;
        POSEIDON_BLS_2_PARAMS poseidon_instance_bls12 BLS, bls12, 2, 5, 8, 56;
        POSEIDON_BLS_3_PARAMS poseidon_instance_bls12 BLS, bls12, 3, 5, 8, 56;
        POSEIDON_BLS_4_PARAMS poseidon_instance_bls12 BLS, bls12, 4, 5, 8, 56;
        POSEIDON_BLS_8_PARAMS poseidon_instance_bls12 BLS, bls12, 8, 5, 8, 57;
        POSEIDON_BN_PARAMS poseidon_instance_bn256 BN, bn256, 3, 5, 8, 56;
        POSEIDON_PALLAS_3_PARAMS poseidon_instance_pallas PA, pallas, 3, 5, 8, 56;
        POSEIDON_PALLAS_4_PARAMS poseidon_instance_pallas PA, pallas, 4, 5, 8, 56;
        POSEIDON_PALLAS_8_PARAMS poseidon_instance_pallas PA, pallas, 8, 5, 8, 57;
        POSEIDON_VESTA_PARAMS poseidon_instance_vesta VE, vesta, 3, 5, 8, 56;
    }
    gs!{v;
        GMIMC_BLS_2_PARAMS gmimc_instance_bls12 BLS, bls12, 2, 5, 224;
        GMIMC_BLS_3_PARAMS gmimc_instance_bls12 BLS, bls12, 3, 5, 226;
        GMIMC_BLS_4_PARAMS gmimc_instance_bls12 BLS, bls12, 4, 5, 228;
        GMIMC_BLS_5_PARAMS gmimc_instance_bls12 BLS, bls12, 5, 5, 230;
        GMIMC_BLS_8_PARAMS gmimc_instance_bls12 BLS, bls12, 8, 5, 236;
        GMIMC_BLS_9_PARAMS gmimc_instance_bls12 BLS, bls12, 9, 5, 238;
        GMIMC_BLS_12_PARAMS gmimc_instance_bls12 BLS, bls12, 12, 5, 314;
        GMIMC_BLS_16_PARAMS gmimc_instance_bls12 BLS, bls12, 16, 5, 546;
        GMIMC_BLS_20_PARAMS gmimc_instance_bls12 BLS, bls12, 20, 5, 842;
        GMIMC_BLS_24_PARAMS gmimc_instance_bls12 BLS, bls12, 24, 5, 1202;
        GMIMC_BN_3_PARAMS gmimc_instance_bn256 BN, bn256, 3, 5, 226;
        GMIMC_BN_4_PARAMS gmimc_instance_bn256 BN, bn256, 4, 5, 228;
        GMIMC_BN_5_PARAMS gmimc_instance_bn256 BN, bn256, 5, 5, 230;
        GMIMC_BN_8_PARAMS gmimc_instance_bn256 BN, bn256, 8, 5, 236;
        GMIMC_BN_9_PARAMS gmimc_instance_bn256 BN, bn256, 9, 5, 238;
        GMIMC_BN_12_PARAMS gmimc_instance_bn256 BN, bn256, 12, 5, 314;
        GMIMC_BN_16_PARAMS gmimc_instance_bn256 BN, bn256, 16, 5, 546;
        GMIMC_BN_20_PARAMS gmimc_instance_bn256 BN, bn256, 20, 5, 842;
        GMIMC_BN_24_PARAMS gmimc_instance_bn256 BN, bn256, 24, 5, 1202;
        GMIMC_PALLAS_3_PARAMS gmimc_instance_pallas PA, pallas, 3, 5, 226;
        GMIMC_PALLAS_4_PARAMS gmimc_instance_pallas PA, pallas, 4, 5, 228;
        GMIMC_PALLAS_5_PARAMS gmimc_instance_pallas PA, pallas, 5, 5, 230;
        GMIMC_PALLAS_8_PARAMS gmimc_instance_pallas PA, pallas, 8, 5, 236;
        GMIMC_PALLAS_9_PARAMS gmimc_instance_pallas PA, pallas, 9, 5, 238;
        GMIMC_PALLAS_12_PARAMS gmimc_instance_pallas PA, pallas, 12, 5, 314;
        GMIMC_PALLAS_16_PARAMS gmimc_instance_pallas PA, pallas, 16, 5, 546;
        GMIMC_PALLAS_20_PARAMS gmimc_instance_pallas PA, pallas, 20, 5, 842;
        GMIMC_PALLAS_24_PARAMS gmimc_instance_pallas PA, pallas, 24, 5, 1202;
        GMIMC_VESTA_3_PARAMS gmimc_instance_vesta VE, vesta, 3, 5, 226;
        GMIMC_VESTA_4_PARAMS gmimc_instance_vesta VE, vesta, 4, 5, 228;
        GMIMC_VESTA_5_PARAMS gmimc_instance_vesta VE, vesta, 5, 5, 230;
        GMIMC_VESTA_8_PARAMS gmimc_instance_vesta VE, vesta, 8, 5, 236;
        GMIMC_VESTA_9_PARAMS gmimc_instance_vesta VE, vesta, 9, 5, 238;
        GMIMC_VESTA_12_PARAMS gmimc_instance_vesta VE, vesta, 12, 5, 314;
        GMIMC_VESTA_16_PARAMS gmimc_instance_vesta VE, vesta, 16, 5, 546;
        GMIMC_VESTA_20_PARAMS gmimc_instance_vesta VE, vesta, 20, 5, 842;
        GMIMC_VESTA_24_PARAMS gmimc_instance_vesta VE, vesta, 24, 5, 1202;
        GMIMC_GOLDILOCKS_8_PARAMS gmimc_instance_goldilocks GL, goldilocks, 8, 7, 146;
        GMIMC_GOLDILOCKS_12_PARAMS gmimc_instance_goldilocks GL, goldilocks, 12, 7, 314;
        GMIMC_GOLDILOCKS_16_PARAMS gmimc_instance_goldilocks GL, goldilocks, 16, 7, 546;
        GMIMC_GOLDILOCKS_20_PARAMS gmimc_instance_goldilocks GL, goldilocks, 20, 7, 842;
        GMIMC_BABYBEAR_16_PARAMS gmimc_instance_babybear BB, babybear, 16, 7, 546;
        GMIMC_BABYBEAR_24_PARAMS gmimc_instance_babybear BB, babybear, 24, 7, 1202;
    }
    ns!{v;
        NEPTUNE_BN_PARAMS BN, bn256, 4, 5, 6, 68;
        NEPTUNE_BLS_4_PARAMS BLS, bls12, 4, 5, 6, 69;
        NEPTUNE_BLS_8_PARAMS BLS, bls12, 8, 5, 6, 74;
        NEPTUNE_GOLDILOCKS_8_PARAMS GL, goldilocks, 8, 7, 6, 38;
        NEPTUNE_GOLDILOCKS_12_PARAMS GL, goldilocks, 12, 7, 6, 42;
        NEPTUNE_GOLDILOCKS_16_PARAMS GL, goldilocks, 16, 7, 6, 48;
        NEPTUNE_GOLDILOCKS_20_PARAMS GL, goldilocks, 20, 7, 6, 52;
        NEPTUNE_BABYBEAR_16_PARAMS BB, babybear, 16, 7, 6, 34;
        NEPTUNE_BABYBEAR_24_PARAMS BB, babybear, 24, 7, 6, 43;
        NEPTUNE_PALLAS_4_PARAMS PA, pallas, 4, 5, 6, 69;
        NEPTUNE_PALLAS_8_PARAMS PA, pallas, 8, 5, 6, 74;
        NEPTUNE_VESTA_PARAMS VE, vesta, 4, 5, 6, 68;
    }
    v
}

/// Build a named instance; a refusal is an observation, not a harness error.
pub fn make(n: &Named) -> Box<dyn Dyn> {
    match catch(|| (n.make)()) {
        Ok(d) => d,
        Err(m) => violation("a named instance cannot be built", format!("{}: {}", n.name, m)),
    }
}
