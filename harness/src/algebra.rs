//! C16 (matrix helpers) and C22 (tables for cheap partial rounds) against schoolbook algebra.
use crate::fields::*;
use crate::gen::dict_sizes;
use crate::perm::{cv, pick_val, random_invertible, tab, with_field, N_FIELDS};
use crate::refm::{self, Mat};
use crate::util::*;
use ark_ff::PrimeField;
use zkhash::poseidon::poseidon_params::PoseidonParams;
use zkhash::poseidon2::poseidon2_params::Poseidon2Params;
use zkhash::utils::{mat_inverse, mat_transpose};

fn show<R: PrimeField>(m: &[Vec<R>]) -> String {
    m.iter().map(|r| hexv(&to_els(r))).collect::<Vec<_>>().join(" ")
}
fn fpm<R: PrimeField>(tag: &str, m: &[Vec<R>]) -> u64 {
    let mut v: Vec<El> = vec![[m.len() as u64, 0, 0, 0]];
    for r in m {
        v.extend(to_els(r));
    }
    fnv_els(sfp(tag), &v)
}

fn inv_case<F: PrimeField, R: PrimeField>(fname: &str, ev: &mut Ev, tag: &str, m: &[Vec<R>]) {
    let want = refm::inverse(m);
    let got = catch(|| mat_inverse(&cv::<R, F>(m)));
    match (&want, got) {
        (None, Ok(g)) => violation("a singular matrix was inverted", format!("{} {}: {} -> {}", fname, tag, show(m), show(&g))),
        (Some(_), Err(e)) => violation("an invertible matrix was refused", format!("{} {}: {} ({})", fname, tag, show(m), e)),
        (Some(w), Ok(g)) => {
            if cv::<F, R>(&g) != *w {
                violation("the inverse is wrong", format!("{} {}: {} -> {} expected {}", fname, tag, show(m), show(&g), show(w)));
            }
            // both sides, with the harness's own product
            let id = refm::identity::<R>(m.len());
            if m.len() <= 40 && (refm::matmat(m, w) != id || refm::matmat(w, m) != id) {
                inconclusive("the harness's inverse is wrong");
            }
        }
        (None, Err(_)) => ev.count("singular refused", 1),
    }
    ev.case(tag, fpm(fname, m), true);
    ev.sample(tag, || format!("{} {}x{} {}", fname, m.len(), m.len(), if want.is_some() { "inverted" } else { "refused as singular" }));
}

fn shapes<R: PrimeField>(rng: &mut Rng, n: usize, k: usize) -> (&'static str, Mat<R>) {
    let perm = |rng: &mut Rng| {
        let mut p: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            p.swap(i, rng.below(i + 1));
        }
        p
    };
    let nz = |rng: &mut Rng| loop {
        let x: R = pick_val(rng);
        if !x.is_zero() {
            break x;
        }
    };
    let dense = |rng: &mut Rng| -> Mat<R> { (0..n).map(|_| (0..n).map(|_| rand(rng)).collect()).collect() };
    let grid = |f: &mut dyn FnMut(usize, usize) -> R| -> Mat<R> { (0..n).map(|i| (0..n).map(|j| f(i, j)).collect()).collect() };
    match k % 20 {
        0 => ("dense", dense(rng)),
        1 => ("special entries", grid(&mut |_, _| pick_val(rng))),
        2 => {
            let p = perm(rng);
            ("permutation", grid(&mut |i, j| if p[i] == j { R::one() } else { R::zero() }))
        }
        3 => {
            let p = perm(rng);
            ("monomial", grid(&mut |i, j| if p[i] == j { nz(rng) } else { R::zero() }))
        }
        4 => ("lower triangular", grid(&mut |i, j| if i == j { nz(rng) } else if j < i { pick_val(rng) } else { R::zero() })),
        5 => ("upper triangular", grid(&mut |i, j| if i == j { nz(rng) } else if j > i { pick_val(rng) } else { R::zero() })),
        6 => {
            let p = perm(rng);
            let t: Mat<R> = grid(&mut |i, j| if i == j { nz(rng) } else if j > i { pick_val(rng) } else { R::zero() });
            ("row-permuted triangular", p.iter().map(|i| t[*i].clone()).collect())
        }
        7 => {
            // a leading minor vanishes although the matrix need not be singular
            let mut m = dense(rng);
            let k = rng.below(n);
            for j in 0..=k {
                let c: R = if rng.chance(1, 2) { R::zero() } else { R::from(3u64) };
                m[k][j] = if k == 0 { R::zero() } else { m[0][j] * c };
            }
            ("vanishing leading minor", m)
        }
        8 => {
            let mut m = dense(rng);
            let (i, j) = (rng.below(n), rng.below(n));
            let c: R = pick_val(rng);
            m[i] = if i == j { vec![R::zero(); n] } else { m[j].iter().map(|x| *x * c).collect() };
            ("proportional rows", m)
        }
        9 => {
            let mut m = dense(rng);
            let (i, j) = (rng.below(n), rng.below(n));
            let c: R = pick_val(rng);
            for r in m.iter_mut() {
                r[i] = if i == j { R::zero() } else { r[j] * c };
            }
            ("proportional columns", m)
        }
        10 => {
            // rank deficient by construction: product of n x r and r x n
            let r = rng.below(n).max(1);
            let a: Mat<R> = (0..n).map(|_| (0..r).map(|_| rand(rng)).collect()).collect();
            let b: Mat<R> = (0..r).map(|_| (0..n).map(|_| rand(rng)).collect()).collect();
            ("low rank", refm::matmat(&a, &b))
        }
        11 => ("zero diagonal", grid(&mut |i, j| if i == j { R::zero() } else { rand(rng) })),
        12 => {
            let d: Vec<R> = (0..n).map(|_| pick_val(rng)).collect();
            ("ones plus diagonal", refm::ones_plus_diag(&d))
        }
        13 => {
            let row: Vec<u64> = (0..n).map(|_| rng.below(5) as u64).collect();
            ("circulant", refm::circ(&row))
        }
        14 => ("Cauchy", grid(&mut |i, j| R::from((i + n + j) as u64 + 1).inverse().unwrap_or(R::zero()))),
        15 => ("Vandermonde", grid(&mut |i, j| R::from(i as u64 + 2).pow([j as u64]))),
        16 => {
            let d = rng.below(3) + 1;
            ("sparse", grid(&mut |i, j| if i == j && rng.chance(3, 4) || rng.chance(d, n + d) { pick_val(rng) } else { R::zero() }))
        }
        17 => {
            let mut m = refm::identity(n);
            let (i, j) = (rng.below(n), rng.below(n));
            m[i][j] = pick_val(rng);
            ("elementary", m)
        }
        18 => ("anti-triangular", grid(&mut |i, j| if i + j == n - 1 { nz(rng) } else if i + j >= n { pick_val(rng) } else { R::zero() })),
        _ => {
            // block swap: zero top-left block
            let k = n / 2;
            ("zero leading block", grid(&mut |i, j| if i < k && j < k { R::zero() } else { rand(rng) }))
        }
    }
}

/// Products and transposes of one order.
fn products<F: PrimeField, R: PrimeField>(fname: &str, ev: &mut Ev, rng: &mut Rng, a: &Mat<R>, b: &Mat<R>) {
    let n = a.len();
    let v: Vec<R> = (0..n).map(|_| if rng.chance(1, 3) { pick_val(rng) } else { rand(rng) }).collect();
    let (fa, fb, fv) = (cv::<R, F>(&a), cv::<R, F>(&b), of_els::<F>(&to_els(&v)));
    let w = refm::matvec(a, &v);
    for (name, got) in [
        ("PoseidonParams::mat_vec_mul", catch(|| PoseidonParams::<F>::mat_vec_mul(&fa, &fv))),
        ("Poseidon2Params::mat_vec_mul", catch(|| Poseidon2Params::<F>::mat_vec_mul(&fa, &fv))),
    ] {
        match got {
            Ok(g) if to_els(&g) == to_els(&w) => ev.case("matrix-vector products", fpm(name, &a) ^ fnv_els(0, &to_els(&v)), true),
            Ok(g) => violation("a matrix-vector product is wrong", format!("{} {}: {} * {} -> {} expected {}", fname, name, show(&a), hexv(&to_els(&v)), hexv(&to_els(&g)), hexv(&to_els(&w)))),
            Err(m) => violation("a matrix-vector product of fitting sizes panicked", format!("{} {} n={}: {}", fname, name, n, m)),
        }
    }
    let w = refm::matmat(&a, &b);
    match catch(|| PoseidonParams::<F>::mat_mat_mul(&fa, &fb)) {
        Ok(g) if cv::<F, R>(&g) == w => ev.case("matrix products", fpm("mm", &a) ^ fpm("", &b), true),
        Ok(g) => violation("a matrix product is wrong", format!("{}: {} * {} -> {} expected {}", fname, show(&a), show(&b), show(&g), show(&w))),
        Err(m) => violation("a product of square matrices panicked", format!("{} n={}: {}", fname, n, m)),
    }
    for c in [1 + rng.below(n + 3), n, 1, 1 + rng.below(40)] {
        let m: Mat<R> = (0..n).map(|_| (0..c).map(|_| rand(rng)).collect()).collect();
        let w = refm::transpose(&m);
        match catch(|| mat_transpose(&cv::<R, F>(&m))) {
            Ok(g) if cv::<F, R>(&g) == w => ev.case("transposes", fpm("tr", &m), n > 1 || c > 1),
            Ok(g) => violation("a transpose is wrong", format!("{} {}x{}: {} -> {}", fname, n, c, show(&m), show(&g))),
            Err(e) => violation("a transpose panicked", format!("{} {}x{}: {}", fname, n, c, e)),
        }
    }
}

/// Orders far beyond any instance: blocked, unrolled or parallel code has its seams there.
fn c16_large<F: PrimeField, R: PrimeField>(fname: &str, ev: &mut Ev, part: usize, cap: usize) {
    let mut rng = Rng::new(cfg().seed, &format!("c16large/{}/{}", fname, part));
    let mut ns: Vec<usize> = vec![33, 40, 48, 50, 63, 64, 65, 66, 80, 96, 97, 100, 127, 128, 129, 130, 150, 192, 200, 255, 256, 257, 300, 511, 512, 513];
    ns.extend(dict_sizes(40, if cfg().thorough { 300 } else { 130 }));
    ns.sort_unstable();
    ns.dedup();
    for (i, n) in ns.into_iter().enumerate() {
        if n > cap || i % 4 != part {
            continue;
        }
        let (ka, kb) = (rng.below(20), [0usize, 1, 5][rng.below(3)]);
        let a = shapes::<R>(&mut rng, n, ka).1;
        let b = shapes::<R>(&mut rng, n, kb).1;
        products::<F, R>(fname, ev, &mut rng, &a, &b);
        products::<F, R>(fname, ev, &mut rng, &b, &b);
        if n <= 130 || cfg().thorough && n <= 260 {
            for k in [0usize, 6] {
                inv_case::<F, R>(fname, ev, "large", &shapes::<R>(&mut rng, n, k).1);
            }
        }
        let c = 1 + rng.below(3);
        for (r, c) in [(n * 4 + 1, c), (c, n * 4 + 1)] {
            let m: Mat<R> = (0..r).map(|_| (0..c).map(|_| rand(&mut rng)).collect()).collect();
            match catch(|| mat_transpose(&cv::<R, F>(&m))) {
                Ok(g) if cv::<F, R>(&g) == refm::transpose(&m) => ev.case("long transposes", fpm("tr", &m), true),
                Ok(_) => violation("a transpose is wrong", format!("{} {}x{}", fname, r, c)),
                Err(e) => violation("a transpose panicked", format!("{} {}x{}: {}", fname, r, c, e)),
            }
        }
        ev.count("large orders", 1);
    }
}

fn c16_field<F: PrimeField, R: PrimeField>(fname: &str, ev: &mut Ev, part: usize, reps: usize) {
    let mut rng = Rng::new(cfg().seed, &format!("c16/{}/{}", fname, part));
    let p = R::MODULUS.as_ref()[0] as usize;
    let tiny = R::MODULUS_BIT_SIZE < 20;
    // every matrix of small shapes over tiny fields
    if tiny && part == 0 {
        let cap = amount(70_000, 3_000_000);
        for n in 1..=4usize {
            let Some(total) = (0..n * n).try_fold(1usize, |a, _| a.checked_mul(p)).filter(|t| *t <= cap) else { continue };
            for k in 0..total {
                let mut q = k;
                let m: Mat<R> = (0..n)
                    .map(|_| {
                        (0..n)
                            .map(|_| {
                                let e = R::from((q % p) as u64);
                                q /= p;
                                e
                            })
                            .collect()
                    })
                    .collect();
                inv_case::<F, R>(fname, ev, "all matrices of a shape", &m);
            }
            ev.count("complete matrix spaces", 1);
        }
    }
    let mut ns: Vec<usize> = (1..=13).chain([15, 16, 17, 20, 23, 24, 32]).collect();
    ns.extend(dict_sizes(1, if cfg().thorough { 70 } else { 40 }));
    ns.sort_unstable();
    ns.dedup();
    for n in ns {
        for rep in 0..if n > 13 { reps / 6 + 1 } else { reps } {
            for k in 0..20 {
                if n > 13 && (k + rep + n) % 4 != part {
                    continue;
                }
                let (tag, m) = shapes::<R>(&mut rng, n, k);
                inv_case::<F, R>(fname, ev, tag, &m);
            }
            let a = shapes::<R>(&mut rng, n, rep).1;
            let kb = rng.below(20);
            let b = shapes::<R>(&mut rng, n, kb).1;
            products::<F, R>(fname, ev, &mut rng, &a, &b);
        }
    }
}

pub fn c16() -> Ev {
    let mut jobs: Vec<Job> = vec![];
    let reps = amount(20, 400);
    for part in 0..4 {
        for (f, cap) in [(0usize, 300usize), (2, 130), (13, 130)] {
            let cap = if cfg().thorough { 520 } else { cap };
            jobs.push(Box::new(move |ev: &mut Ev| with_field!(f, c16_large(ev, part, cap))));
        }
        for f in 0..N_FIELDS {
            jobs.push(Box::new(move |ev: &mut Ev| with_field!(f, c16_field(ev, part, reps))));
        }
    }
    par(jobs)
}

// ---------------------------------------------------------------- C22
fn pow<R: PrimeField>(x: R, d: u64) -> R {
    x.pow([d])
}

fn states<R: PrimeField>(rng: &mut Rng, t: usize, n: usize, rc: &[Vec<R>]) -> Vec<Vec<R>> {
    (0..n)
        .map(|k| match k % 5 {
            0 => vec![R::zero(); t],
            1 => (0..t).map(|_| pick_val(rng)).collect(),
            // cancels the first constants
            2 => rc.first().map(|r| r.iter().map(|x| -*x).collect()).unwrap_or(vec![R::one(); t]),
            _ => (0..t).map(|_| rand(rng)).collect(),
        })
        .collect()
}

fn c22_case<F: PrimeField, R: PrimeField>(fname: &str, ev: &mut Ev, rng: &mut Rng, t: usize, rp: usize, rfb: usize, d: u64, fam: usize, m: &[Vec<R>], rc: &[Vec<R>]) {
    let desc = || format!("{} {} t={} rounds_f_beginning={} rounds_p={} d={} matrix {} constants {}", fname, ["Poseidon", "Poseidon2"][fam], t, rfb, rp, d, show(m), show(&rc[..rc.len().min(100)]));
    let plain = |x: &[R]| {
        let mut s = x.to_vec();
        for r in 0..rp {
            s.iter_mut().zip(&rc[rfb + r]).for_each(|(a, b)| *a += *b);
            s[0] = pow(s[0], d);
            s = refm::matvec(m, &s);
        }
        s
    };
    let (fm, frc) = (cv::<R, F>(m), cv::<R, F>(rc));
    let shape = |what: &str| -> ! { violation(&format!("derived tables: {}", what), desc()) };
    let refused = |e: String| -> ! { violation("deriving tables from valid parameters panicked", format!("{} {}", e, desc())) };
    if fam == 0 {
        let (mi, v, w) = catch(|| PoseidonParams::<F>::equivalent_matrices(&fm, t, rp)).unwrap_or_else(|e| refused(e));
        let opt = catch(|| PoseidonParams::<F>::equivalent_round_constants(&frc, &fm, rfb, rp)).unwrap_or_else(|e| refused(e));
        let (mi, v, w, opt) = (cv::<F, R>(&mi), cv::<F, R>(&v), cv::<F, R>(&w), cv::<F, R>(&opt));
        if mi.len() != t || mi.iter().any(|r| r.len() != t) || v.len() != rp || w.len() != rp || v.iter().chain(&w).any(|r| r.len() + 1 != t) {
            shape("sparse factors have wrong shapes");
        }
        if opt.len() < rp || opt[0].len() != t || opt[1..rp].iter().any(|r| r.is_empty()) {
            shape("moved constants have wrong shapes");
        }
        for x in states(rng, t, 6, &rc[rfb..]) {
            let mut s = x.clone();
            s.iter_mut().zip(&opt[0]).for_each(|(a, b)| *a += *b);
            s = refm::matvec(&mi, &s);
            for r in 0..rp {
                s[0] = pow(s[0], d);
                if r + 1 < rp {
                    s[0] += opt[r + 1][0];
                }
                let k = rp - r - 1;
                let s0 = s[0];
                let mut n0 = m[0][0] * s0;
                for i in 1..t {
                    n0 += w[k][i - 1] * s[i];
                    s[i] += v[k][i - 1] * s0;
                }
                s[0] = n0;
            }
            let want = plain(&x);
            if s != want {
                violation("the cheap partial rounds differ from the plain ones", format!("state {}: cheap {} plain {} for {}", hexv(&to_els(&x)), hexv(&to_els(&s)), hexv(&to_els(&want)), desc()));
            }
            ev.case("Poseidon partial rounds", fnv_els(fpm(fname, m), &to_els(&x)) ^ fpm("rc", rc), true);
        }
    } else {
        let opt = catch(|| Poseidon2Params::<F>::equivalent_round_constants(&frc, &fm, rfb, rp)).unwrap_or_else(|e| refused(e));
        let opt = cv::<F, R>(&opt);
        if opt.len() < rp || opt[0].len() != t || opt[1..rp].iter().any(|r| r.is_empty()) {
            shape("moved constants have wrong shapes");
        }
        for x in states(rng, t, 6, &rc[rfb..]) {
            let mut s = x.clone();
            s.iter_mut().zip(&opt[0]).for_each(|(a, b)| *a += *b);
            for r in 0..rp {
                s[0] = pow(s[0], d);
                if let Some(o) = opt.get(r + 1) {
                    if r + 1 < rp {
                        s[0] += o[0];
                    } else {
                        s.iter_mut().zip(o).for_each(|(a, b)| *a += *b);
                    }
                }
                s = refm::matvec(m, &s);
            }
            let want = plain(&x);
            if s != want {
                violation("the moved constants are not equivalent", format!("state {}: cheap {} plain {} for {}", hexv(&to_els(&x)), hexv(&to_els(&s)), hexv(&to_els(&want)), desc()));
            }
            ev.case("Poseidon2 partial rounds", fnv_els(fpm(fname, m), &to_els(&x)) ^ fpm("rc", rc), true);
        }
    }
    ev.count("table sets", 1);
    ev.sample(["Poseidon", "Poseidon2"][fam], || format!("{} t={} rp={} rounds_f_beginning={} d={} 6 states", fname, t, rp, rfb, d));
}

fn c22_field<F: PrimeField, R: PrimeField>(fname: &str, ev: &mut Ev, part: usize, reps: usize) {
    let mut rng = Rng::new(cfg().seed, &format!("c22/{}/{}", fname, part));
    let mut ts: Vec<usize> = (2..=13).chain([16, 17, 20, 24]).collect();
    ts.extend(dict_sizes(2, 33));
    ts.sort_unstable();
    ts.dedup();
    for t in ts {
        if t % 4 != part {
            continue;
        }
        for rep in 0..if t > 13 { reps / 8 + 1 } else { reps } {
            for fam in 0..2 {
                let rp = *rng.pick(&[1usize, 1, 2, 3, 4, 5, 8, 13, 22, 56, 57, 60]);
                let rp = if t > 13 && rp > 22 { 2 + rp % 10 } else { rp };
                // numbers of rounds no named instance has: counters narrower than a word wrap in them
                let rp = match (t, rep) {
                    (2..=5, 0) => *rng.pick(&[127usize, 128, 129, 130, 140, 200]),
                    (2..=5, 1) => *rng.pick(&[255usize, 256, 257, 258, 300, 520, 1030]),
                    (2..=3, 2) if cfg().scale >= 0.2 => *rng.pick(&[4_100usize, 32_770, 65_537, 65_540]),
                    _ => rp,
                };
                let rfb = rng.below(6);
                let d = *rng.pick(&[3u64, 5, 7, 11]);
                // a matrix special enough to make pivots vanish
                let mut m: Mat<R>;
                let mut tries = 0;
                loop {
                    m = if rep % 2 == 0 || tries > 30 { random_invertible(&mut rng, t, fam == 0) } else { shapes(&mut rng, t, rep + tries).1 };
                    tries += 1;
                    let block: Mat<R> = m[1..].iter().map(|r| r[1..].to_vec()).collect();
                    if refm::inverse(&m).is_some() && (fam == 1 || refm::inverse(&block).is_some()) {
                        break;
                    }
                }
                let extra = rng.below(5);
                let rc: Mat<R> = tab(&mut rng, rfb + rp + extra, t);
                c22_case::<F, R>(fname, ev, &mut rng, t, rp, rfb, d, fam, &m, &rc);
            }
        }
    }
}

pub fn c22() -> Ev {
    let mut jobs: Vec<Job> = vec![];
    let reps = amount(24, 400);
    for part in 0..4 {
        for f in 0..N_FIELDS {
            jobs.push(Box::new(move |ev: &mut Ev| with_field!(f, c22_field(ev, part, reps))));
        }
    }
    // the published tables
    macro_rules! pub_p {
        ($md:ident $f:ident $ft:ty, $t:literal $rf:literal $rp:literal) => {
            jobs.push(Box::new(|ev: &mut Ev| {
                let (mds, rc) = crate::grain::poseidon::<crate::fields::$f::F>($t, $rf, $rp);
                let mut rng = Rng::new(cfg().seed, concat!("c22p", stringify!($md), $t));
                for _ in 0..amount(6, 60) {
                    c22_case::<$ft, crate::fields::$f::F>(stringify!($md), ev, &mut rng, $t, $rp, $rf / 2, 5, 0, &mds, &rc);
                }
            }))
        };
    }
    macro_rules! pub_p2 {
        ($md:ident $f:ident $ft:ty, $t:literal $rf:literal $rp:literal $k:literal) => {
            jobs.push(Box::new(|ev: &mut Ev| {
                let tb = crate::grain::poseidon2::<crate::fields::$f::F>($t, $rf, $rp, $k);
                let m = refm::ones_plus_diag(&tb.diag_m_1);
                let mut rng = Rng::new(cfg().seed, concat!("c22q", stringify!($md), $t));
                for _ in 0..amount(6, 60) {
                    c22_case::<$ft, crate::fields::$f::F>(stringify!($md), ev, &mut rng, $t, $rp, $rf / 2, 5, 1, &m, &tb.rc);
                }
            }))
        };
    }
    use zkhash::fields as zf;
    pub_p!(poseidon_bls12 bls12 zf::bls12::FpBLS12, 2 8 56);
    pub_p!(poseidon_bls12 bls12 zf::bls12::FpBLS12, 3 8 56);
    pub_p!(poseidon_bls12 bls12 zf::bls12::FpBLS12, 8 8 57);
    pub_p!(poseidon_bn256 bn256 zf::bn256::FpBN256, 3 8 56);
    pub_p!(poseidon_pallas pallas zf::pallas::FpPallas, 4 8 56);
    pub_p!(poseidon_vesta vesta zf::vesta::FpVesta, 3 8 56);
    pub_p!(poseidon_goldilocks goldilocks zf::goldilocks::FpGoldiLocks, 12 8 22);
    pub_p!(poseidon_babybear babybear zf::babybear::FpBabyBear, 24 8 21);
    pub_p2!(poseidon2_bls12 bls12 zf::bls12::FpBLS12, 2 8 56 0);
    pub_p2!(poseidon2_bls12 bls12 zf::bls12::FpBLS12, 3 8 56 0);
    pub_p2!(poseidon2_bls12 bls12 zf::bls12::FpBLS12, 8 8 57 8);
    pub_p2!(poseidon2_bn256 bn256 zf::bn256::FpBN256, 3 8 56 0);
    pub_p2!(poseidon2_pallas pallas zf::pallas::FpPallas, 4 8 56 0);
    pub_p2!(poseidon2_vesta vesta zf::vesta::FpVesta, 3 8 56 0);
    pub_p2!(poseidon2_goldilocks goldilocks zf::goldilocks::FpGoldiLocks, 12 8 22 8);
    pub_p2!(poseidon2_babybear babybear zf::babybear::FpBabyBear, 24 8 21 4);
    par(jobs)
}
