//! C15: every observed compression against the model, the permutation and the refusal rule.
use crate::fields::*;
use crate::gen::{el, Gen};
use crate::inst::*;
use crate::perm::{random_g, random_n, random_p, random_p2, with_field, Shape, N_FIELDS, P2_WIDTHS};
use crate::util::*;
use ark_ff::PrimeField;

pub fn comp_width(fam: &str) -> usize {
    if fam == "neptune" {
        4
    } else {
        3
    }
}

pub fn one(d: &dyn Dyn, ev: &mut Ev, tag: &str, a: &El, b: &El) -> Option<El> {
    let fits = d.t() == comp_width(d.fam());
    let got = catch(|| d.compress(&[*a, *b]));
    let fp = fnv_els(sfp(d.name()), &[*a, *b]);
    if !fits {
        if let Ok(g) = got {
            violation("compression with an instance of another width returned a value", format!("{} t={} ({}, {}) -> {}", d.name(), d.t(), hex(a), hex(b), hex(&g)));
        }
        ev.case("other width refused", fp, true);
        return None;
    }
    let g = match got {
        Ok(g) => g,
        Err(m) => violation("a compression panicked", format!("{} ({}, {}): {}", d.name(), hex(a), hex(b), m)),
    };
    let mut s = vec![*a, *b];
    s.resize(d.t(), el(0));
    let w = match catch(|| d.call(0, &s)) {
        Ok(w) => w[0],
        Err(m) => violation("a well-formed evaluation panicked", format!("{} {}: {}", d.name(), hexv(&s), m)),
    };
    if g != w {
        violation("the compression is not the first element of the permutation", format!("{} ({}, {}): got {} expected {} ({})", d.name(), hex(a), hex(b), hex(&g), hex(&w), tag));
    }
    ev.case(tag, fp, true);
    ev.sample(d.name(), || format!("{} ({}, {}) -> {}", d.name(), hex(a), hex(b), hex(&g)));
    Some(g)
}

fn pairs(d: &dyn Dyn, ev: &mut Ev, n: usize, part: usize) {
    let mut g = Gen::new(d, &format!("c15/{}", part));
    let sp = g.sp.clone();
    let core = g.core.clone();
    if d.t() != comp_width(d.fam()) {
        for a in &core {
            for b in &core {
                one(d, ev, "", a, b);
            }
        }
        for s in &sp {
            let r = g.rnd();
            one(d, ev, "", s, s);
            one(d, ev, "", s, &r);
        }
        return;
    }
    if part == 0 {
        for a in &core {
            for b in sp.iter() {
                one(d, ev, "special pair", a, b);
                one(d, ev, "special pair", b, a);
            }
        }
        for s in &sp {
            one(d, ev, "equal pair", s, s);
            let r = g.rnd();
            one(d, ev, "special with random", s, &r);
            one(d, ev, "special with random", &r, s);
            let ns = d.neg(s);
            one(d, ev, "opposite pair", s, &ns);
        }
    }
    for k in 0..n {
        let (a, b) = (g.any(), g.any());
        one(d, ev, "any pair", &a, &b);
        if k % 4 == 0 {
            one(d, ev, "swapped pair", &b, &a);
            let c = g.tweak(&a);
            one(d, ev, "perturbed pair", &c, &b);
            let c = g.tweak(&b);
            one(d, ev, "perturbed pair", &a, &c);
            one(d, ev, "repeated pair", &a, &b);
            one(d, ev, "equal pair", &a, &a);
            let na = d.neg(&a);
            one(d, ev, "opposite pair", &a, &na);
        }
    }
    // chains, as in a tree: outputs become inputs on either side
    let (mut a, mut b) = (g.rnd(), g.rnd());
    for k in 0..n / 8 {
        let c = one(d, ev, "chain", &a, &b).unwrap();
        if k % 2 == 0 {
            a = c
        } else {
            b = c
        }
    }
    // the permutation's own special inner states with zero capacity cannot be chosen freely;
    // special inputs to the first S-box can
    for c in d.consts().to_vec() {
        let n = d.neg(&c);
        let r = g.rnd();
        one(d, ev, "constant-cancelling", &n, &r);
        one(d, ev, "constant-cancelling", &r, &n);
        one(d, ev, "constant-cancelling", &n, &n);
    }
}

fn custom<F: PrimeField, R: PrimeField>(fname: &str, ev: &mut Ev, fam: usize, rng: &mut Rng, reps: usize) {
    for rep in 0..reps {
        for d in [3usize, 5, 7, 11] {
            if d == 11 && fam != 0 {
                continue;
            }
            // the compressing width and another one
            for other in [false, rep % 3 == 0] {
                let t = match (fam, other) {
                    (0, true) => *rng.pick(&P2_WIDTHS.iter().copied().filter(|t| *t != 3).collect::<Vec<_>>()),
                    (1, true) | (2, true) => *rng.pick(&[2usize, 4, 5, 6, 8, 9, 12]),
                    (3, true) => *rng.pick(&[2usize, 6, 8, 10, 12]),
                    (3, false) => 4,
                    _ => 3,
                };
                let inst: Box<dyn Dyn> = match fam {
                    0 => Box::new(random_p2::<F, R>(fname, rng, t, d, true, Shape::Any)),
                    1 => Box::new(random_p::<F, R>(fname, rng, t, d, true)),
                    2 => {
                        let r = 1 + rng.below(12);
                        Box::new(random_g::<F, R>(fname, rng, t, d, r))
                    }
                    _ => Box::new(random_n::<F, R>(fname, rng, t, d, true)),
                };
                let p = inst.modulus()[0];
                if !other && R::MODULUS_BIT_SIZE < 9 {
                    for a in 0..p {
                        for b in 0..p {
                            one(&*inst, ev, "all pairs of a small field", &el(a), &el(b));
                        }
                    }
                } else {
                    pairs(&*inst, ev, 12, 1);
                }
                ev.count("custom instances", 1);
            }
        }
    }
}

pub fn c15() -> Ev {
    let mut jobs: Vec<Job> = vec![];
    let n = amount(2500, 60_000);
    for part in 0..4usize {
        for nm in named() {
            let fits = nm.t == comp_width(nm.fam);
            if !fits && part > 0 {
                continue;
            }
            jobs.push(Box::new(move |ev: &mut Ev| {
                let d = make(&nm);
                pairs(&*d, ev, n / 4, part);
                ev.count(if fits { "compressing named instances x parts" } else { "non-compressing named instances" }, 1);
            }));
        }
    }
    let reps = amount(6, 60);
    for f in 0..N_FIELDS {
        for fam in 0..4 {
            jobs.push(Box::new(move |ev: &mut Ev| {
                let mut rng = Rng::new(cfg().seed, &format!("c15/{}/{}", f, fam));
                with_field!(f, custom(ev, fam, &mut rng, reps))
            }));
        }
    }
    par(jobs)
}
