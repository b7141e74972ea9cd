//! Reference models: a permutation as a list of layers over a harness-owned field.
//! Straight from the specifications: dense matrices, plain powers, no shortcuts.
use crate::fields::root_exp;
use ark_ff::{Field, PrimeField};

pub type Mat<R> = Vec<Vec<R>>;

#[derive(Clone)]
pub enum Layer<R: PrimeField> {
    Mat { m: Mat<R>, inv: Option<Mat<R>> },
    Add(Vec<R>),
    PowAll(usize),
    PowFirst(usize),
    NepQuad(R),
    GmAdd { c: R, d: usize },
    RotR,
}

#[derive(Clone)]
pub struct Model<R: PrimeField> {
    pub t: usize,
    pub layers: Vec<Layer<R>>,
}

pub fn matvec<R: Field>(m: &[Vec<R>], v: &[R]) -> Vec<R> {
    m.iter()
        .map(|row| row.iter().zip(v).fold(R::zero(), |a, (x, y)| a + *x * *y))
        .collect()
}

pub fn matmat<R: Field>(a: &[Vec<R>], b: &[Vec<R>]) -> Mat<R> {
    let c = b[0].len();
    a.iter()
        .map(|row| (0..c).map(|j| row.iter().zip(b).fold(R::zero(), |s, (x, br)| s + *x * br[j])).collect())
        .collect()
}

pub fn transpose<R: Copy>(a: &[Vec<R>]) -> Mat<R> {
    if a.is_empty() {
        return vec![];
    }
    (0..a[0].len()).map(|j| a.iter().map(|r| r[j]).collect()).collect()
}

pub fn identity<R: Field>(n: usize) -> Mat<R> {
    (0..n).map(|i| (0..n).map(|j| if i == j { R::one() } else { R::zero() }).collect()).collect()
}

/// Gauss-Jordan with pivot search on an augmented matrix (written independently of the crate's).
pub fn inverse<R: Field>(m: &[Vec<R>]) -> Option<Mat<R>> {
    let n = m.len();
    let mut a: Vec<Vec<R>> = m
        .iter()
        .enumerate()
        .map(|(i, r)| {
            let mut v = r.clone();
            v.extend((0..n).map(|j| if i == j { R::one() } else { R::zero() }));
            v
        })
        .collect();
    for c in 0..n {
        let p = (c..n).find(|r| !a[*r][c].is_zero())?;
        a.swap(c, p);
        let k = a[c][c].inverse()?;
        for x in a[c].iter_mut() {
            *x *= k;
        }
        let pr = a[c].clone();
        for (r, row) in a.iter_mut().enumerate() {
            if r != c && !row[c].is_zero() {
                let f = row[c];
                for (x, y) in row.iter_mut().zip(&pr) {
                    *x -= f * *y;
                }
            }
        }
    }
    Some(a.into_iter().map(|r| r[n..].to_vec()).collect())
}

pub fn circ<R: PrimeField>(row: &[u64]) -> Mat<R> {
    let n = row.len();
    (0..n).map(|i| (0..n).map(|j| R::from(row[(j + n - i) % n])).collect()).collect()
}

pub fn ones_plus_diag<R: PrimeField>(d: &[R]) -> Mat<R> {
    let t = d.len();
    (0..t)
        .map(|i| (0..t).map(|j| if i == j { R::one() + d[i] } else { R::one() }).collect())
        .collect()
}

/// External matrix of the Poseidon2 specification.
pub fn p2_external<R: PrimeField>(t: usize) -> Option<Mat<R>> {
    match t {
        2 => Some(circ(&[2, 1])),
        3 => Some(circ(&[2, 1, 1])),
        4 | 8 | 12 | 16 | 20 | 24 => {
            let m4: [[u64; 4]; 4] = [[5, 7, 1, 3], [4, 6, 1, 1], [1, 3, 5, 7], [1, 1, 4, 6]];
            Some(
                (0..t)
                    .map(|i| {
                        (0..t)
                            .map(|j| {
                                let f = if t > 4 && i / 4 == j / 4 { 2 } else { 1 };
                                R::from(f * m4[i % 4][j % 4])
                            })
                            .collect()
                    })
                    .collect(),
            )
        }
        _ => None,
    }
}

/// Internal matrix: fixed for widths 2 and 3, all-ones plus diagonal otherwise.
pub fn p2_internal<R: PrimeField>(t: usize, diag_m_1: &[R]) -> Mat<R> {
    let u = |v: &[u64]| v.iter().map(|x| R::from(*x)).collect::<Vec<_>>();
    match t {
        2 => vec![u(&[2, 1]), u(&[1, 3])],
        3 => vec![u(&[2, 1, 1]), u(&[1, 2, 1]), u(&[1, 1, 3])],
        _ => ones_plus_diag(diag_m_1),
    }
}

/// Neptune external matrix for widths 4 and 8.
pub fn nep_external<R: PrimeField>(t: usize) -> Option<Mat<R>> {
    let (a, b): (Mat<R>, Mat<R>) = match t {
        4 => (circ(&[2, 1]), circ(&[1, 2])),
        8 => (circ(&[3, 2, 1, 1]), circ(&[1, 1, 2, 3])),
        _ => return None,
    };
    Some(
        (0..t)
            .map(|i| {
                (0..t)
                    .map(|j| match (i % 2, j % 2) {
                        (0, 0) => a[i / 2][j / 2],
                        (1, 1) => b[i / 2][j / 2],
                        _ => R::zero(),
                    })
                    .collect()
            })
            .collect(),
    )
}

fn mat_layer<R: PrimeField>(m: Mat<R>) -> Layer<R> {
    let inv = inverse(&m);
    Layer::Mat { m, inv }
}

pub fn poseidon2<R: PrimeField>(t: usize, d: usize, rf: usize, rp: usize, diag_m_1: &[R], rc: &[Vec<R>]) -> Model<R> {
    let me = mat_layer(p2_external(t).expect("width"));
    let mi = mat_layer(p2_internal(t, diag_m_1));
    let mut l = vec![me.clone()];
    for r in 0..rf + rp {
        if r >= rf / 2 && r < rf / 2 + rp {
            let mut a = vec![R::zero(); t];
            a[0] = rc[r][0];
            l.push(Layer::Add(a));
            l.push(Layer::PowFirst(d));
            l.push(mi.clone());
        } else {
            l.push(Layer::Add(rc[r][..t].to_vec()));
            l.push(Layer::PowAll(d));
            l.push(me.clone());
        }
    }
    Model { t, layers: l }
}

pub fn poseidon<R: PrimeField>(t: usize, d: usize, rf: usize, rp: usize, mds: &[Vec<R>], rc: &[Vec<R>]) -> Model<R> {
    let m = mat_layer(mds.to_vec());
    let mut l = vec![];
    for r in 0..rf + rp {
        l.push(Layer::Add(rc[r].clone()));
        l.push(if r >= rf / 2 && r < rf / 2 + rp { Layer::PowFirst(d) } else { Layer::PowAll(d) });
        l.push(m.clone());
    }
    Model { t, layers: l }
}

pub fn gmimc<R: PrimeField>(t: usize, d: usize, rc: &[R]) -> Model<R> {
    let mut l = vec![];
    for (r, c) in rc.iter().enumerate() {
        l.push(Layer::GmAdd { c: *c, d });
        if r + 1 < rc.len() {
            l.push(Layer::RotR);
        }
    }
    Model { t, layers: l }
}

pub fn neptune<R: PrimeField>(
    t: usize,
    d: usize,
    rf: usize,
    rp: usize,
    me: &[Vec<R>],
    mi_diag_m_1: &[R],
    gamma: R,
    rc: &[Vec<R>],
) -> Model<R> {
    let me = mat_layer(me.to_vec());
    let mi = mat_layer(ones_plus_diag(mi_diag_m_1));
    let mut l = vec![me.clone()];
    for r in 0..rf + rp {
        if r >= rf / 2 && r < rf / 2 + rp {
            l.push(Layer::PowFirst(d));
            l.push(mi.clone());
        } else {
            l.push(Layer::NepQuad(gamma));
            l.push(me.clone());
        }
        l.push(Layer::Add(rc[r].clone()));
    }
    Model { t, layers: l }
}

fn powu<R: Field>(x: &R, d: usize) -> R {
    let mut r = R::one();
    for _ in 0..d {
        r *= *x;
    }
    r
}

impl<R: PrimeField> Layer<R> {
    pub fn fwd(&self, s: &mut Vec<R>) {
        match self {
            Layer::Mat { m, .. } => *s = matvec(m, s),
            Layer::Add(c) => s.iter_mut().zip(c).for_each(|(x, y)| *x += *y),
            Layer::PowAll(d) => s.iter_mut().for_each(|x| *x = powu(x, *d)),
            Layer::PowFirst(d) => s[0] = powu(&s[0], *d),
            Layer::NepQuad(g) => {
                let (two, three, four) = (R::from(2u64), R::from(3u64), R::from(4u64));
                for p in s.chunks_mut(2) {
                    let (x1, x2) = (p[0], p[1]);
                    let z2 = (x1 - x2) * (x1 - x2);
                    let q = *g + x1 - two * x2 - z2;
                    p[0] = two * x1 + x2 + three * z2 + q * q;
                    p[1] = x1 + three * x2 + four * z2 + q * q;
                }
            }
            Layer::GmAdd { c, d } => {
                let p = powu(&(s[0] + *c), *d);
                s[1..].iter_mut().for_each(|x| *x += p);
            }
            Layer::RotR => s.rotate_right(1),
        }
    }

    pub fn invertible(&self) -> bool {
        match self {
            Layer::Mat { inv, .. } => inv.is_some(),
            Layer::PowAll(d) | Layer::PowFirst(d) => root_exp::<R>(*d).is_some(),
            Layer::NepQuad(_) => !R::from(5u64).is_zero(),
            _ => true,
        }
    }

    pub fn bwd(&self, s: &mut Vec<R>, roots: &Roots) -> Option<()> {
        match self {
            Layer::Mat { inv, .. } => *s = matvec(inv.as_ref()?, s),
            Layer::Add(c) => s.iter_mut().zip(c).for_each(|(x, y)| *x -= *y),
            Layer::PowAll(d) => {
                let e = roots.get(*d)?;
                s.iter_mut().for_each(|x| *x = x.pow(e));
            }
            Layer::PowFirst(d) => {
                let e = roots.get(*d)?;
                s[0] = s[0].pow(e);
            }
            Layer::NepQuad(g) => {
                let three = R::from(3u64);
                let fifth = R::from(5u64).inverse()?;
                for p in s.chunks_mut(2) {
                    let u = p[0] - p[1];
                    let w = p[0] - (*g + u) * (*g + u);
                    let z = (w + three * u) * fifth;
                    let x2 = z - z * z - u;
                    p[1] = x2;
                    p[0] = x2 + z;
                }
            }
            Layer::GmAdd { c, d } => {
                let p = powu(&(s[0] + *c), *d);
                s[1..].iter_mut().for_each(|x| *x -= p);
            }
            Layer::RotR => s.rotate_left(1),
        }
        Some(())
    }
}

/// d -> d^-1 mod (p-1) for the degrees in use.
#[derive(Clone, Default)]
pub struct Roots(Vec<(usize, Option<Vec<u64>>)>);
impl Roots {
    pub fn new<R: PrimeField>() -> Self {
        Roots([3usize, 5, 7, 11].iter().map(|d| (*d, root_exp::<R>(*d))).collect())
    }
    pub fn get(&self, d: usize) -> Option<&Vec<u64>> {
        self.0.iter().find(|(x, _)| *x == d).and_then(|(_, e)| e.as_ref())
    }
}

impl<R: PrimeField> Model<R> {
    pub fn fwd(&self, x: &[R]) -> Vec<R> {
        let mut s = x.to_vec();
        for l in &self.layers {
            l.fwd(&mut s);
        }
        s
    }
    pub fn invertible(&self) -> bool {
        self.layers.iter().all(|l| l.invertible())
    }
    /// The input that makes the state before layer k equal to `s` (k = layers.len(): the output).
    pub fn back(&self, k: usize, s: &[R], roots: &Roots) -> Option<Vec<R>> {
        let mut s = s.to_vec();
        for l in self.layers[..k].iter().rev() {
            l.bwd(&mut s, roots)?;
        }
        Some(s)
    }
    pub fn upto(&self, k: usize, x: &[R]) -> Vec<R> {
        let mut s = x.to_vec();
        for l in &self.layers[..k] {
            l.fwd(&mut s);
        }
        s
    }
}
