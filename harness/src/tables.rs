//! C03: every public table entry against the regenerated one; names, widths, round numbers.
use crate::fields::{self, *};
use crate::gen::Gen;
use crate::grain;
use crate::inst::*;
use crate::refm;
use crate::util::*;
use ark_ff::PrimeField;

fn rows<F: PrimeField, R: PrimeField>(ev: &mut Ev, name: &str, got: &[Vec<F>], want: &[Vec<R>], min_cols: bool) {
    if got.len() != want.len() {
        violation("a public table has the wrong number of rows", format!("{}: {} rows, expected {}", name, got.len(), want.len()));
    }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        let g = to_els(g);
        let w = to_els(w);
        // a partial-round row may or may not be padded with its zeros
        let short_ok = min_cols && g.len() < w.len() && !g.is_empty() && w[g.len()..].iter().all(|x| *x == [0; 4]);
        if g.len() != w.len() && !short_ok {
            violation("a public table has the wrong row length", format!("{} row {}: {} entries, expected {}", name, i, g.len(), w.len()));
        }
        for (j, (a, b)) in g.iter().zip(&w).enumerate() {
            if a != b {
                violation(
                    "a public table entry differs from the published generation procedure",
                    format!("{}[{}][{}]: {} expected {}", name, i, j, hex(a), hex(b)),
                );
            }
            ev.case("table entries", fnv(&[sfp(name), i as u64, j as u64]), *b != [0; 4]);
        }
    }
    ev.count("tables", 1);
    ev.sample(name, || format!("{}: {} rows, [0][0] = {}", name, want.len(), hex(&to_el(&want[0][0]))));
}

macro_rules! p2t {
    ($ev:ident; $($md:ident $f:ident $t:literal $rf:literal $rp:literal $k:literal $diag:ident $mi:ident $rc:ident;)*) => {$(
        {
            use zkhash::poseidon2::$md as m;
            let tb = grain::poseidon2::<fields::$f::F>($t, $rf, $rp, $k);
            let n = concat!(stringify!($md), " t=", $t);
            let (rc, diag, mi) = catch(|| (m::$rc.to_vec(), m::$diag.to_vec(), m::$mi.to_vec()))
                .unwrap_or_else(|e| violation("a public table cannot be read", format!("{}: {}", n, e)));
            rows($ev, &format!("{} RC", n), &rc, &tb.rc, true);
            rows($ev, &format!("{} DIAG_M_1", n), &[diag], &[tb.diag_m_1.clone()], false);
            rows($ev, &format!("{} MAT_INTERNAL", n), &mi, &refm::ones_plus_diag(&tb.diag_m_1), false);
        }
    )*};
}
macro_rules! pt {
    ($ev:ident; $($md:ident $f:ident $t:literal $rf:literal $rp:literal $mds:ident $rc:ident;)*) => {$(
        {
            use zkhash::poseidon::$md as m;
            let (mds, rc) = grain::poseidon::<fields::$f::F>($t, $rf, $rp);
            let n = concat!(stringify!($md), " t=", $t);
            let (grc, gm) = catch(|| (m::$rc.to_vec(), m::$mds.to_vec()))
                .unwrap_or_else(|e| violation("a public table cannot be read", format!("{}: {}", n, e)));
            rows($ev, &format!("{} RC", n), &grc, &rc, false);
            rows($ev, &format!("{} MDS", n), &gm, &mds, false);
        }
    )*};
}

macro_rules! grounds {
    ($ev:ident; $([$md:ident $($name:ident $t:expr, $d:expr, $r:expr;)*])*) => {$($(
        {
            let p = catch(|| zkhash::gmimc::$md::$name.clone())
                .unwrap_or_else(|e| violation("a named instance cannot be built", format!("{}: {}", stringify!($name), e)));
            gm_rounds($ev, stringify!($name), (p.get_t(), p.get_rounds()), ($t, $d, $r), bits_of(&p));
        }
    )*)*};
}

fn bits_of<F: PrimeField>(_: &zkhash::gmimc::gmimc_params::GmimcParams<F>) -> usize {
    F::MODULUS_BIT_SIZE as usize
}

fn gm_rounds(ev: &mut Ev, name: &str, got: (usize, usize), want: (usize, usize, usize), bits: usize) {
    let (t, d, r) = want;
    // documented bound: max(2 + 2(t + t^2), ceil(2 log_d p) + 2t)
    let b1 = 2 + 2 * (t + t * t);
    let b2 = (2.0 * (bits as f64) / (d as f64).log2()).floor() as usize + 2 * t;
    if got != (t, r) {
        violation("a named GMiMC instance reports other parameters than documented", format!("{}: (t, rounds) = {:?}, documented ({}, {})", name, got, t, r));
    }
    if r < b1 || r < b2 {
        inconclusive("harness table of GMiMC rounds is below the bound");
    }
    ev.case("GMiMC round numbers", sfp(name), true);
}

pub fn c03() -> Ev {
    let mut jobs: Vec<Job> = vec![];
    jobs.push(Box::new(|ev: &mut Ev| {
        p2t! {ev;
            poseidon2_instance_goldilocks goldilocks 8 8 22 3 MAT_DIAG8_M_1 MAT_INTERNAL8 RC8;
            poseidon2_instance_goldilocks goldilocks 12 8 22 8 MAT_DIAG12_M_1 MAT_INTERNAL12 RC12;
            poseidon2_instance_goldilocks goldilocks 16 8 22 46 MAT_DIAG16_M_1 MAT_INTERNAL16 RC16;
            poseidon2_instance_goldilocks goldilocks 20 8 22 6 MAT_DIAG20_M_1 MAT_INTERNAL20 RC20;
            poseidon2_instance_babybear babybear 16 8 13 18 MAT_DIAG16_M_1 MAT_INTERNAL16 RC16;
            poseidon2_instance_babybear babybear 24 8 21 4 MAT_DIAG24_M_1 MAT_INTERNAL24 RC24;
            poseidon2_instance_bls12 bls12 2 8 56 0 MAT_DIAG2_M_1 MAT_INTERNAL2 RC2;
            poseidon2_instance_bls12 bls12 3 8 56 0 MAT_DIAG3_M_1 MAT_INTERNAL3 RC3;
            poseidon2_instance_bls12 bls12 4 8 56 0 MAT_DIAG4_M_1 MAT_INTERNAL4 RC4;
            poseidon2_instance_bls12 bls12 8 8 57 8 MAT_DIAG8_M_1 MAT_INTERNAL8 RC8;
            poseidon2_instance_bn256 bn256 3 8 56 0 MAT_DIAG3_M_1 MAT_INTERNAL3 RC3;
            poseidon2_instance_pallas pallas 3 8 56 0 MAT_DIAG3_M_1 MAT_INTERNAL3 RC3;
            poseidon2_instance_pallas pallas 4 8 56 0 MAT_DIAG4_M_1 MAT_INTERNAL4 RC4;
            poseidon2_instance_pallas pallas 8 8 57 6 MAT_DIAG8_M_1 MAT_INTERNAL8 RC8;
            poseidon2_instance_vesta vesta 3 8 56 0 MAT_DIAG3_M_1 MAT_INTERNAL3 RC3;
        }
    }));
    jobs.push(Box::new(|ev: &mut Ev| {
        pt! {ev;
            poseidon_instance_goldilocks goldilocks 8 8 22 MDS8 RC8;
            poseidon_instance_goldilocks goldilocks 12 8 22 MDS12 RC12;
            poseidon_instance_goldilocks goldilocks 16 8 22 MDS16 RC16;
            poseidon_instance_goldilocks goldilocks 20 8 22 MDS20 RC20;
            poseidon_instance_babybear babybear 16 8 13 MDS16 RC16;
            poseidon_instance_babybear babybear 24 8 21 MDS24 RC24;
            poseidon_instance_bls12 bls12 2 8 56 MDS2 RC2;
            poseidon_instance_bls12 bls12 3 8 56 MDS3 RC3;
            poseidon_instance_bls12 bls12 4 8 56 MDS4 RC4;
            poseidon_instance_bls12 bls12 8 8 57 MDS8 RC8;
            poseidon_instance_bn256 bn256 3 8 56 MDS3 RC3;
            poseidon_instance_pallas pallas 3 8 56 MDS3 RC3;
            poseidon_instance_pallas pallas 4 8 56 MDS4 RC4;
            poseidon_instance_pallas pallas 8 8 57 MDS8 RC8;
            poseidon_instance_vesta vesta 3 8 56 MDS3 RC3;
        }
    }));
    jobs.push(Box::new(|ev: &mut Ev| {
        grounds! {ev;
            [gmimc_instance_bls12
                GMIMC_BLS_2_PARAMS 2, 5, 224; GMIMC_BLS_3_PARAMS 3, 5, 226; GMIMC_BLS_4_PARAMS 4, 5, 228;
                GMIMC_BLS_5_PARAMS 5, 5, 230; GMIMC_BLS_8_PARAMS 8, 5, 236; GMIMC_BLS_9_PARAMS 9, 5, 238;
                GMIMC_BLS_12_PARAMS 12, 5, 314; GMIMC_BLS_16_PARAMS 16, 5, 546; GMIMC_BLS_20_PARAMS 20, 5, 842;
                GMIMC_BLS_24_PARAMS 24, 5, 1202;]
            [gmimc_instance_bn256
                GMIMC_BN_3_PARAMS 3, 5, 226; GMIMC_BN_4_PARAMS 4, 5, 228;
                GMIMC_BN_5_PARAMS 5, 5, 230; GMIMC_BN_8_PARAMS 8, 5, 236; GMIMC_BN_9_PARAMS 9, 5, 238;
                GMIMC_BN_12_PARAMS 12, 5, 314; GMIMC_BN_16_PARAMS 16, 5, 546; GMIMC_BN_20_PARAMS 20, 5, 842;
                GMIMC_BN_24_PARAMS 24, 5, 1202;]
            [gmimc_instance_pallas
                GMIMC_PALLAS_3_PARAMS 3, 5, 226; GMIMC_PALLAS_4_PARAMS 4, 5, 228;
                GMIMC_PALLAS_5_PARAMS 5, 5, 230; GMIMC_PALLAS_8_PARAMS 8, 5, 236; GMIMC_PALLAS_9_PARAMS 9, 5, 238;
                GMIMC_PALLAS_12_PARAMS 12, 5, 314; GMIMC_PALLAS_16_PARAMS 16, 5, 546; GMIMC_PALLAS_20_PARAMS 20, 5, 842;
                GMIMC_PALLAS_24_PARAMS 24, 5, 1202;]
            [gmimc_instance_vesta
                GMIMC_VESTA_3_PARAMS 3, 5, 226; GMIMC_VESTA_4_PARAMS 4, 5, 228;
                GMIMC_VESTA_5_PARAMS 5, 5, 230; GMIMC_VESTA_8_PARAMS 8, 5, 236; GMIMC_VESTA_9_PARAMS 9, 5, 238;
                GMIMC_VESTA_12_PARAMS 12, 5, 314; GMIMC_VESTA_16_PARAMS 16, 5, 546; GMIMC_VESTA_20_PARAMS 20, 5, 842;
                GMIMC_VESTA_24_PARAMS 24, 5, 1202;]
            [gmimc_instance_goldilocks
                GMIMC_GOLDILOCKS_8_PARAMS 8, 7, 146; GMIMC_GOLDILOCKS_12_PARAMS 12, 7, 314;
                GMIMC_GOLDILOCKS_16_PARAMS 16, 7, 546; GMIMC_GOLDILOCKS_20_PARAMS 20, 7, 842;]
            [gmimc_instance_babybear
                GMIMC_BABYBEAR_16_PARAMS 16, 7, 546; GMIMC_BABYBEAR_24_PARAMS 24, 7, 1202;]
        }
    }));
    for n in named() {
        jobs.push(Box::new(move |ev: &mut Ev| {
            let d = make(&n);
            if d.get_t() != n.t {
                violation("a named instance reports a wrong width", format!("{}: {} instead of {}", n.name, d.get_t(), n.t));
            }
            ev.case("instance width", sfp(n.name), true);
            // degree, rounds and the tables actually wired into the instance: it must evaluate like
            // one built from the standard tables, whatever the evaluators do with them
            if let Some(rb) = n.rebuild {
                let Ok(r) = catch(rb) else {
                    ev.count("standard tables refused by the constructor", 1);
                    return;
                };
                let mut g = Gen::new(&*d, "c03");
                for k in 0..amount(40, 400) {
                    let x: Vec<El> = match k {
                        0 => (0..n.t).map(|i| [i as u64, 0, 0, 0]).collect(),
                        _ if k % 3 == 0 => g.mixed().1,
                        _ => g.rvec(),
                    };
                    for e in 0..d.evaluators().len() {
                        let (a, b) = (catch(|| d.call(e, &x)), catch(|| r.call(e, &x)));
                        if a.as_ref().ok() != b.as_ref().ok() {
                            violation("a named instance does not evaluate like one built from the standard tables", format!("{} {} {}: {:?} expected {:?}", n.name, d.evaluators()[e], hexv(&x), a.map(|v| hexv(&v)), b.map(|v| hexv(&v))));
                        }
                    }
                    ev.case("instance probes", fnv_els(sfp(n.name), &x), true);
                }
            }
            ev.count("named instances", 1);
        }));
    }
    par(jobs)
}
