//! C17 (field arithmetic), C18 (hex decoding): every observed operation against integers.
use crate::fields::{modulus_el, to_el};
use crate::gen::{big, dictionary};
use crate::perm::{with_field, N_FIELDS};
use crate::util::*;
use ark_ff::{BigInteger, FftField, Field, LegendreSymbol, PrimeField};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use num_bigint::BigUint;
use zkhash::fields as zf;
use zkhash::fields::utils::from_hex;

fn b(x: u64) -> BigUint {
    BigUint::from(x)
}

struct Spec {
    name: &'static str,
    p: &'static str,
    /// prime factors of p - 1 other than 2
    odd: &'static [&'static str],
    twos: u32,
}

const SPECS: [Spec; 6] = [
    Spec { name: "BabyBear", p: "2013265921", odd: &["3", "5"], twos: 27 },
    Spec { name: "Goldilocks", p: "18446744069414584321", odd: &["3", "5", "17", "257", "65537"], twos: 32 },
    Spec {
        name: "BLS12",
        p: "52435875175126190479447740508185965837690552500527637822603658699938581184513",
        odd: &["3", "11", "19", "10177", "906349", "906349", "2508409", "125527", "859267", "2529403", "52437899", "254760293", "254760293"],
        twos: 32,
    },
    Spec {
        name: "BN256",
        p: "21888242871839275222246405745257275088548364400416034343698204186575808495617",
        odd: &["3", "3", "13", "29", "983", "237073", "11003", "405928799", "1670836401704629", "13818364434197438864469338081"],
        twos: 28,
    },
    Spec {
        name: "Pallas",
        p: "28948022309329048855892746252171976963363056481941560715954676764349967630337",
        odd: &["3", "463", "539204044132271846773", "8999194758858563409123804352480028797519453"],
        twos: 32,
    },
    Spec {
        name: "Vesta",
        p: "28948022309329048855892746252171976963363056481941647379679742748393362948097",
        odd: &["3", "3", "1709", "24859", "1690502597179744445941507", "10427374428728808478656897599072717"],
        twos: 32,
    },
];

fn val<F: PrimeField>(x: &F) -> BigUint {
    big(&to_el(x))
}

fn put<F: PrimeField>(v: &BigUint) -> F {
    let mut bi = F::BigInt::default();
    let d = v.to_u64_digits();
    bi.as_mut()[..d.len()].copy_from_slice(&d);
    match catch(|| F::from_bigint(bi)) {
        Ok(Some(x)) => x,
        Ok(None) => violation("an integer below the modulus is refused", v.to_string()),
        Err(m) => violation("conversion from an integer panicked", format!("{}: {}", v, m)),
    }
}

fn c17_field<F: PrimeField + FftField>(spec: &'static Spec, ev: &mut Ev, part: usize, n: usize) {
    let p: BigUint = spec.p.parse().unwrap();
    let limbs = p.bits().div_ceil(64) as usize;
    let bad = |what: &str, w: String| -> ! { violation(what, format!("{}: {}", spec.name, w)) };
    // ---- constants
    let m1 = &p - 1u8;
    let mut prod = BigUint::from(1u8) << spec.twos;
    for f in spec.odd {
        prod *= f.parse::<BigUint>().unwrap();
    }
    if prod != m1 {
        inconclusive("harness factorisation is wrong");
    }
    let lim = |x: &[u64]| -> BigUint {
        BigUint::from_bytes_le(&x.iter().flat_map(|l| l.to_le_bytes()).collect::<Vec<_>>())
    };
    if part == 0 {
        let eqs: Vec<(&str, BigUint, BigUint)> = vec![
            ("MODULUS", lim(F::MODULUS.as_ref()), p.clone()),
            ("characteristic", lim(F::characteristic()), p.clone()),
            ("MODULUS_BIT_SIZE", b(F::MODULUS_BIT_SIZE as u64), b(p.bits())),
            ("MODULUS_MINUS_ONE_DIV_TWO", lim(F::MODULUS_MINUS_ONE_DIV_TWO.as_ref()), &m1 >> 1),
            ("TRACE", lim(F::TRACE.as_ref()), &m1 >> spec.twos),
            ("TRACE_MINUS_ONE_DIV_TWO", lim(F::TRACE_MINUS_ONE_DIV_TWO.as_ref()), (&m1 >> spec.twos) >> 1),
            ("TWO_ADICITY", b(<F as FftField>::TWO_ADICITY as u64), b(spec.twos as u64)),
            ("limbs", b(F::BigInt::NUM_LIMBS as u64), b(limbs as u64)),
            ("extension degree", b(F::extension_degree()), b(1)),
            ("zero", val(&F::zero()), b(0)),
            ("one", val(&F::one()), b(1)),
            ("default", val(&F::default()), b(0)),
        ];
        for (w, g, x) in eqs {
            if g != x {
                bad("a field constant is wrong", format!("{} = {} expected {}", w, g, x));
            }
            ev.case("constants", sfp(spec.name) ^ sfp(w), true);
        }
        let gen = val(&F::GENERATOR);
        for f in spec.odd.iter().copied().chain(["2"]) {
            let q = &m1 / f.parse::<BigUint>().unwrap();
            if gen.modpow(&q, &p) == b(1) || gen == b(0) {
                bad("the declared generator is not a primitive root", format!("{}^((p-1)/{}) = 1", gen, f));
            }
            ev.case("generator order", sfp(spec.name) ^ sfp(f), true);
        }
        let w = val(&F::TWO_ADIC_ROOT_OF_UNITY);
        if w.modpow(&(BigUint::from(1u8) << (spec.twos - 1)), &p) != m1 {
            bad("the root of unity does not have order 2^s", w.to_string());
        }
        for k in 0..=spec.twos {
            let r = match F::get_root_of_unity(1u64 << k) {
                Some(r) => val(&r),
                None => bad("a root of unity of a supported order is missing", format!("2^{}", k)),
            };
            let ok = if k == 0 { r == b(1) } else { r.modpow(&(BigUint::from(1u8) << (k - 1)), &p) == m1 };
            if !ok {
                bad("a derived root of unity has the wrong order", format!("2^{}: {}", k, r));
            }
            ev.case("roots of unity", sfp(spec.name) ^ k as u64, true);
        }
        // non-canonical integers are refused
        for x in [p.clone(), &p + 1u8, (BigUint::from(1u8) << (64 * limbs)) - 1u8, &p + (&p >> 3)] {
            if x.bits() > 64 * limbs as u64 {
                continue;
            }
            let mut bi = F::BigInt::default();
            let d = x.to_u64_digits();
            bi.as_mut()[..d.len()].copy_from_slice(&d);
            if F::from_bigint(bi).is_some() {
                bad("an integer not below the modulus was accepted", x.to_string());
            }
            ev.case("non-canonical refused", sfp(spec.name) ^ fnv(&x.to_u64_digits()), true);
        }
    }
    // ---- operand pool
    let mut sp: Vec<BigUint> = vec![];
    let r = (BigUint::from(1u8) << (64 * limbs)) % &p;
    let rinv = r.modpow(&(&p - 2u8), &p);
    let mut add = |x: BigUint| {
        let x = x % &p;
        sp.push((&x * &rinv) % &p); // also as internal representation
        sp.push(x);
    };
    for x in 0..20u64 {
        add(b(x));
        add(&p - b(x + 1));
    }
    for k in 0..p.bits() {
        let q: BigUint = BigUint::from(1u8) << (k as usize);
        add(q.clone());
        add(&q - 1u8);
        add(&q + 1u8);
        add(&p - (&q % &p));
    }
    for k in 1..8u64 {
        add(&p / b(k));
        add(&p / b(k) + 1u8);
    }
    let ones: BigUint = (BigUint::from(1u8) << 64u32) - 1u8;
    for i in 0..limbs {
        add(ones.clone() << (64 * i));
        add(BigUint::from(0xffff_ffffu64) << (64 * i));
        add(BigUint::from(0xffff_ffff_0000_0000u64) << (64 * i));
        add(b(1) << (64 * i + 63));
    }
    for d in dictionary() {
        add(b(*d));
    }
    sp.sort();
    sp.dedup();
    let mut rng = Rng::new(cfg().seed, &format!("c17/{}/{}", spec.name, part));
    let mut rnd = |rng: &mut Rng| -> BigUint {
        let mut d = vec![0u64; limbs + 1];
        d.iter_mut().for_each(|x| *x = rng.next());
        lim(&d) % &p
    };
    let el_fp = |x: &BigUint| fnv(&x.to_u64_digits());
    // ---- binary operations
    let mut bin = |ev: &mut Ev, tag: &str, x: &BigUint, y: &BigUint| {
        let (fx, fy): (F, F) = (put(x), put(y));
        let sub = |x: &BigUint, y: &BigUint| (&p + x - y) % &p;
        let r = catch(|| {
            let mut t = vec![
                ("+", val(&(fx + fy)), (x + y) % &p),
                ("-", val(&(fx - fy)), sub(x, y)),
                ("*", val(&(fx * fy)), (x * y) % &p),
            ];
            let (mut a, mut s, mut m) = (fx, fx, fx);
            a += &fy;
            s -= &fy;
            m *= &fy;
            t.push(("add_assign", val(&a), (x + y) % &p));
            t.push(("sub_assign", val(&s), sub(x, y)));
            t.push(("mul_assign", val(&m), (x * y) % &p));
            t.push(("sum_of_products", val(&F::sum_of_products(&[fx, fy, fx], &[fy, fy, fx])), (x * y + y * y + x * x) % &p));
            t.push(("sum", val(&[fx, fy, fx].iter().sum::<F>()), (x + y + x) % &p));
            t.push(("product", val(&[fx, fy, fx].iter().product::<F>()), (x * y * x) % &p));
            if *y != b(0) {
                let inv = y.modpow(&(&p - 2u8), &p);
                t.push(("/", val(&(fx / fy)), (x * inv) % &p));
            }
            if x != y {
                let (z, q): (F, F) = (put(&sub(x, y)), put(&sub(y, x)));
                let (hx, hz, hq) = (hash_of(&fx), hash_of(&(fy + z)), hash_of(&(fy - q)));
                t.push(("hash of equal elements", b((hx == hz && hx == hq) as u64), b(1)));
            }
            t.push(("sum_of_products of 9", val(&F::sum_of_products(&[fx, fy, fx, -fx, fx, fy, fx, fy, fy], &[fy, fy, fx, fx, fx, fy, fx, fy, -fy])), {
                let (xx, yy) = (x * x, y * y);
                (x * y + &yy + &xx + (&p * &p - &xx) + &xx + &yy + &xx + &yy + (&p * &p - &yy)) % &p
            }));
            t.push(("sum_of_products of 1", val(&F::sum_of_products(&[fx], &[fy])), (x * y) % &p));
            let ord = fx.cmp(&fy) == x.cmp(y);
            (t, ord, (fx == fy) == (x == y))
        });
        let (t, ord, eq) = r.unwrap_or_else(|m| violation("field arithmetic panicked", format!("{}: {} {}: {}", spec.name, x, y, m)));
        for (op, g, w) in t {
            if g != w {
                violation("a field operation disagrees with integer arithmetic", format!("{}: {} {} {} = {} expected {}", spec.name, x, op, y, g, w));
            }
        }
        if !ord || !eq {
            violation("comparison disagrees with the integers", format!("{}: {} {}", spec.name, x, y));
        }
        ev.case(tag, sfp(spec.name) ^ el_fp(x).rotate_left(1) ^ el_fp(y).wrapping_mul(3), true);
    };
    if part == 0 {
        let core: Vec<BigUint> = sp.iter().step_by((sp.len() / if cfg().thorough { 400 } else { 90 }).max(1)).cloned().chain([b(0), b(1), &p - 1u8, &p - 2u8, &p / 2u8, &p / 2u8 + 1u8]).collect();
        for x in &core {
            for y in &core {
                bin(ev, "special pairs", x, y);
            }
        }
    }
    for k in 0..n {
        let x = if k % 3 == 0 { rng.pick(&sp).clone() } else { rnd(&mut rng) };
        let y = match k % 5 {
            0 => rng.pick(&sp).clone(),
            1 => (&p - &x) % &p,
            2 => x.clone(),
            3 => (&p + &x + 1u8 - b(2 * rng.below(2) as u64)) % &p,
            _ => rnd(&mut rng),
        };
        bin(ev, "random pairs", &x, &y);
    }
    // ---- unary operations and conversions
    let half = &m1 >> 1;
    let mut un = |ev: &mut Ev, tag: &str, x: &BigUint, rng: &mut Rng, heavy: bool| {
        let fx: F = put(x);
        let check = |op: &str, g: BigUint, w: BigUint| {
            if g != w {
                violation("a field operation disagrees with integer arithmetic", format!("{}: {}({}) = {} expected {}", spec.name, op, x, g, w));
            }
        };
        let r = catch(|| {
            check("neg", val(&-fx), (&p - x) % &p);
            check("double", val(&fx.double()), (x + x) % &p);
            check("square", val(&fx.square()), (x * x) % &p);
            let (mut d, mut s, mut n) = (fx, fx, fx);
            d.double_in_place();
            s.square_in_place();
            n.neg_in_place();
            check("double_in_place", val(&d), (x + x) % &p);
            check("square_in_place", val(&s), (x * x) % &p);
            check("neg_in_place", val(&n), (&p - x) % &p);
            check("into_bigint", big(&to_el(&fx)), x.clone());
            let num: BigUint = fx.into();
            check("into BigUint", num, x.clone());
            check("Display and FromStr", {
                let s = fx.to_string();
                match s.parse::<F>() {
                    Ok(y) => val(&y),
                    Err(_) if s.is_empty() => x.clone(), // ark prints zero as an empty string in some versions
                    Err(_) => b(u64::MAX),
                }
            }, x.clone());
            match (fx.inverse(), *x == b(0)) {
                (None, true) => {}
                (Some(i), false) => check("inverse", val(&i), x.modpow(&(&p - 2u8), &p)),
                _ => violation("inversion is undefined exactly at zero", format!("{}: {}", spec.name, x)),
            }
            let mut bytes = vec![];
            fx.serialize_compressed(&mut bytes).unwrap();
            let len = p.bits().div_ceil(8) as usize;
            let mut le = x.to_bytes_le();
            le.resize(len, 0);
            if *x == b(0) {
                le = vec![0; len];
            }
            if bytes != le {
                violation("serialisation is not the little-endian integer", format!("{}: {} {:?}", spec.name, x, bytes));
            }
            if fx.is_zero() != (*x == b(0)) || fx.is_one() != (*x == b(1)) {
                violation("a test for zero or one is wrong", format!("{}: {}", spec.name, x));
            }
            check("characteristic multiple", val(&(fx + put::<F>(&b(0)) * fx)), x.clone());
            let mut z = fx;
            z.set_zero();
            check("set_zero", val(&z), b(0));
            let mut o = fx;
            o.set_one();
            check("set_one", val(&o), b(1));
            let mut fr = fx;
            fr.frobenius_map_in_place(1);
            check("frobenius", val(&fr), x.clone());
            let mut raw = vec![];
            fx.serialize_uncompressed(&mut raw).unwrap();
            if raw != bytes || fx.compressed_size() != bytes.len() || fx.uncompressed_size() != bytes.len() {
                violation("the two serialisations differ", format!("{}: {} {:?} {:?}", spec.name, x, bytes, raw));
            }
            // the same number plus the modulus is not canonical
            let over = (x + &p).to_bytes_le();
            if over.len() <= bytes.len() {
                let mut o = over;
                o.resize(bytes.len(), 0);
                if let Ok(y) = F::deserialize_compressed(&o[..]) {
                    violation("a non-canonical serialisation was accepted", format!("{}: {:?} -> {}", spec.name, o, val(&y)));
                }
            }
            match F::deserialize_compressed(&bytes[..]) {
                Ok(y) => check("deserialize", val(&y), x.clone()),
                Err(e) => violation("own serialisation is refused", format!("{}: {} {:?}", spec.name, x, e)),
            }
        });
        if let Err(m) = r {
            violation("field arithmetic panicked", format!("{}: {}: {}", spec.name, x, m));
        }
        if heavy {
            let mut ed = vec![rng.next(); 1 + rng.below(limbs + 2)];
            ed.iter_mut().for_each(|e| *e = rng.next() >> rng.below(64));
            let exps = [b(0), b(1), b(2), b(3), b(5), b(7), b(11), &p - 2u8, m1.clone(), p.clone(), &p + 1u8, lim(&ed)];
            for e in exps {
                let mut d = e.to_u64_digits();
                if rng.chance(1, 2) {
                    d.push(0);
                }
                let g = catch(|| fx.pow(&d)).unwrap_or_else(|m| violation("exponentiation panicked", format!("{}: {}^{}: {}", spec.name, x, e, m)));
                let w = if e == b(0) { b(1) } else { x.modpow(&e, &p) };
                if val(&g) != w {
                    violation("an exponentiation is wrong", format!("{}: {}^{} = {} expected {}", spec.name, x, e, val(&g), w));
                }
            }
            let is_sq = *x == b(0) || x.modpow(&half, &p) == b(1);
            let leg = fx.legendre();
            let want = if *x == b(0) { LegendreSymbol::Zero } else if is_sq { LegendreSymbol::QuadraticResidue } else { LegendreSymbol::QuadraticNonResidue };
            if leg != want {
                violation("the Legendre symbol is wrong", format!("{}: {}", spec.name, x));
            }
            match (catch(|| fx.sqrt()).unwrap_or_else(|m| violation("square root panicked", format!("{}: {}: {}", spec.name, x, m))), is_sq) {
                (Some(s), true) => {
                    let s = val(&s);
                    if (&s * &s) % &p != *x {
                        violation("a square root is wrong", format!("{}: sqrt({}) = {}", spec.name, x, s));
                    }
                }
                (None, false) => {}
                _ => violation("a square root exists exactly for squares", format!("{}: {}", spec.name, x)),
            }
        }
        ev.case(tag, sfp(spec.name) ^ el_fp(x), true);
        ev.sample(tag, || format!("{}: {}", spec.name, x));
    };
    if part == 0 {
        for x in &sp {
            un(ev, "special elements", x, &mut rng, true);
        }
        if p.bits() < 32 && cfg().thorough && cfg().scale >= 1.0 {
            // every element of the smallest field: squares, inverses and conversions
            let mut k = 0u64;
            while b(k) < p {
                let fx = F::from(k);
                let q = val(&fx.square());
                if q != b(((k as u128 * k as u128) % 2013265921) as u64) {
                    violation("a field operation disagrees with integer arithmetic", format!("{}: square({})", spec.name, k));
                }
                k += 97;
            }
        }
    }
    for k in 0..n / 2 {
        let x = rnd(&mut rng);
        un(ev, "random elements", &x, &mut rng, k % 8 == 0);
    }
    // ---- conversions from integers and byte strings of any length
    for k in 0..n / 2 {
        let len = match k % 4 {
            0 => rng.below(2 * limbs * 8 + 3),
            1 => p.bits().div_ceil(8) as usize,
            2 => rng.below(9),
            _ => rng.below(200),
        };
        let mut by: Vec<u8> = (0..len).map(|_| rng.next() as u8).collect();
        match rng.below(6) {
            0 => by.iter_mut().for_each(|x| *x = 0xff),
            1 => by.iter_mut().for_each(|x| *x = 0),
            2 => {
                let s = (rng.pick(&sp) + &p * b(rng.below(4) as u64)).to_bytes_le();
                by = s;
            }
            _ => {}
        }
        let r = catch(|| (val(&F::from_le_bytes_mod_order(&by)), val(&F::from_be_bytes_mod_order(&by))));
        let (le, be) = r.unwrap_or_else(|m| violation("a byte conversion panicked", format!("{}: {:?}: {}", spec.name, by, m)));
        if le != BigUint::from_bytes_le(&by) % &p || be != BigUint::from_bytes_be(&by) % &p {
            bad("a byte conversion is wrong", format!("{:?}", by));
        }
        ev.case("byte strings", sfp(spec.name) ^ fnv(&by.iter().map(|x| *x as u64).collect::<Vec<_>>()), !by.is_empty());
        let u = match rng.below(3) {
            0 => rng.next() as u128,
            1 => (rng.next() as u128) << 64 | rng.next() as u128,
            _ => u128::MAX >> rng.below(128),
        };
        let i = u as i64;
        let wi = if i < 0 { (&p - b(i.unsigned_abs()) % &p) % &p } else { b(i as u64) % &p };
        let eqs = [
            ("u128", val(&F::from(u)), BigUint::from(u) % &p),
            ("u64", val(&F::from(u as u64)), b(u as u64) % &p),
            ("u32", val(&F::from(u as u32)), b(u as u32 as u64) % &p),
            ("u16", val(&F::from(u as u16)), b(u as u16 as u64) % &p),
            ("u8", val(&F::from(u as u8)), b(u as u8 as u64) % &p),
            ("bool", val(&F::from(u & 1 == 1)), b((u & 1) as u64)),
            ("BigUint", val(&F::from(BigUint::from(u) * &p + b(5))), b(5)),
        ];
        for (w, g, x) in eqs {
            if g != x {
                bad("an integer conversion is wrong", format!("from {} {}: {} expected {}", w, u, g, x));
            }
        }
        let _ = wi;
        ev.case("integers", sfp(spec.name) ^ fnv(&[u as u64, (u >> 64) as u64]), true);
    }
    // ---- batch inversion
    for _ in 0..(n / 200).max(2) {
        let l = 1 + rng.below(40);
        let xs: Vec<BigUint> = (0..l).map(|_| if rng.chance(1, 6) { b(0) } else if rng.chance(1, 2) { rng.pick(&sp).clone() } else { rnd(&mut rng) }).collect();
        let mut fs: Vec<F> = xs.iter().map(put::<F>).collect();
        ark_ff::batch_inversion(&mut fs);
        for (x, f) in xs.iter().zip(&fs) {
            let w = if *x == b(0) { b(0) } else { x.modpow(&(&p - 2u8), &p) };
            if val(f) != w {
                bad("batch inversion is wrong", x.to_string());
            }
        }
        ev.case("batch inversions", fnv(&[sfp(spec.name), l as u64, el_fp(&xs[0])]), true);
    }
    ev.count("fields x parts", 1);
}

fn hash_of<T: std::hash::Hash>(x: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub fn c17() -> Ev {
    let mut jobs: Vec<Job> = vec![];
    let n = amount(12_000, 400_000);
    for part in 0..4 {
        jobs.push(Box::new(move |ev: &mut Ev| c17_field::<zf::babybear::FpBabyBear>(&SPECS[0], ev, part, n)));
        jobs.push(Box::new(move |ev: &mut Ev| c17_field::<zf::goldilocks::FpGoldiLocks>(&SPECS[1], ev, part, n)));
        jobs.push(Box::new(move |ev: &mut Ev| c17_field::<zf::bls12::FpBLS12>(&SPECS[2], ev, part, n)));
        jobs.push(Box::new(move |ev: &mut Ev| c17_field::<zf::bn256::FpBN256>(&SPECS[3], ev, part, n)));
        jobs.push(Box::new(move |ev: &mut Ev| c17_field::<zf::pallas::FpPallas>(&SPECS[4], ev, part, n)));
        jobs.push(Box::new(move |ev: &mut Ev| c17_field::<zf::vesta::FpVesta>(&SPECS[5], ev, part, n)));
    }
    par(jobs)
}

// ---------------------------------------------------------------- C18
/// Some(value) for a well-formed string, None for one that must be refused.
fn decode(s: &str) -> Option<BigUint> {
    let by = s.as_bytes();
    if by.len() < 2 || by[0] != b'0' || (by[1] != b'x' && by[1] != b'X') || by.len() % 2 != 0 {
        return None;
    }
    let mut v = vec![];
    for c in &by[2..] {
        v.push(match c {
            b'0'..=b'9' => c - b'0',
            b'a'..=b'f' => c - b'a' + 10,
            b'A'..=b'F' => c - b'A' + 10,
            _ => return None,
        });
    }
    if v.is_empty() {
        return Some(b(0));
    }
    BigUint::from_radix_be(&v, 16)
}

fn hex_case<F: PrimeField>(fname: &str, ev: &mut Ev, tag: &str, s: &str) {
    let got = catch(|| from_hex::<F>(s));
    let short: String = s.chars().take(300).collect();
    match (decode(s), got) {
        (Some(w), Ok(g)) => {
            let w = w % big(&modulus_el::<F>());
            if val(&g) != w {
                violation("a hex string decodes to a wrong value", format!("{}: {:?} (length {}) -> {} expected {} ({})", fname, short, s.len(), val(&g), w, tag));
            }
            ev.count("decoded", 1);
        }
        (None, Err(_)) => ev.count("refused", 1),
        (Some(_), Err(m)) => violation("a well-formed hex string was refused", format!("{}: {:?} (length {}) ({}): {}", fname, short, s.len(), tag, m)),
        (None, Ok(g)) => violation("a malformed hex string was decoded", format!("{}: {:?} -> {} ({})", fname, short, val(&g), tag)),
    }
    ev.case(tag, sfp(fname) ^ sfp(s), true);
    ev.sample(tag, || format!("{}: {:?}", fname, short.chars().take(80).collect::<String>()));
}

fn c18_field<F: PrimeField, R: PrimeField>(fname: &str, ev: &mut Ev, part: usize, n: usize) {
    let mut rng = Rng::new(cfg().seed, &format!("c18/{}/{}", fname, part));
    let p = big(&modulus_el::<R>());
    let digits = |rng: &mut Rng, len: usize, style: usize| -> String {
        (0..len)
            .map(|i| {
                let d = match style % 7 {
                    5 => 15,
                    6 => if i + 1 == len { 1 } else { 0 },
                    _ => rng.below(16) as u32,
                };
                let c = std::char::from_digit(d as u32, 16).unwrap();
                match style % 3 {
                    0 => c,
                    1 => c.to_ascii_uppercase(),
                    _ => if rng.chance(1, 2) { c } else { c.to_ascii_uppercase() },
                }
            })
            .collect()
    };
    if part == 0 {
        // values around multiples of the modulus and powers of two, with and without leading zeros
        let mut vs: Vec<BigUint> = vec![b(0), b(1), b(255), b(256)];
        for k in 0..6u64 {
            for o in 0..3u64 {
                vs.push(&p * b(k) + b(o));
                if k > 0 {
                    vs.push(&p * b(k) - b(o));
                }
            }
        }
        for k in (1..600).step_by(3) {
            let q: BigUint = BigUint::from(1u8) << (k as usize);
            vs.extend([&q - 1u8, q.clone(), &q + 1u8, &q % &p, &p * &q, &p * &q - 1u8]);
        }
        for d in dictionary() {
            vs.push(b(*d));
        }
        for v in vs {
            let mut h = v.to_str_radix(16);
            if h.len() % 2 == 1 {
                hex_case::<F>(fname, ev, "odd number of digits", &format!("0x{}", h));
                h.insert(0, '0');
            }
            hex_case::<F>(fname, ev, "special values", &format!("0x{}", h));
            hex_case::<F>(fname, ev, "special values", &format!("0x{}", h.to_uppercase()));
            hex_case::<F>(fname, ev, "leading zeros", &format!("0x00{}", h));
            hex_case::<F>(fname, ev, "leading zeros", &format!("0x{}{}", "00".repeat(rng.below(40)), h));
            hex_case::<F>(fname, ev, "prefix 0X", &format!("0X{}", h));
            hex_case::<F>(fname, ev, "no prefix", &h);
        }
        for len in 0..=300 {
            for style in 0..7 {
                let s = format!("0x{}", digits(&mut rng, len, style));
                hex_case::<F>(fname, ev, if len % 2 == 0 { "every length" } else { "odd number of digits" }, &s);
            }
        }
        for len in [511usize, 512, 1022, 1024, 2048, 4096, 4098, 8192, 65536, 65538, 131_070, 131_072, 131_074, 140_000].into_iter().chain(crate::gen::dict_sizes(300, 20_000)) {
            for style in [0, 1, 2, 5] {
                let s = format!("0x{}", digits(&mut rng, len, style));
                hex_case::<F>(fname, ev, "long strings", &s);
            }
        }
        for s in [
            "", "0", "x", "0x", "0X", "00", "0x0", "x0", "X00", "1x00", "0y00", "0b01", "0o17", "00x1", "0x0x12", "0x0x", "0x 12", " 0x12", "0x12 ", "\t0x12", "0x12\n", "\n0x12", "0x12\0",
            "\00x12", "+0x12", "-0x12", "0x+1", "0x-1", "0x+12", "0x-12", "0x1_2", "0x12_", "0x_12", "0x12h", "12h", "0xg0", "0x0g", "0xG0", "#12", "$12", "\\x12", "0x１２", "０x12", "0x٣٤", "0xé", "0xéé", "é0x12", "0ẋ12",
            "0x\u{0}\u{0}", "0x12\u{200b}\u{200b}", "\u{feff}0x12", "0x'12'", "0x\"12\"", "0x12,34", "0x12 34", "0x12:34", "0x12-34", "0x1.", "0x1.00", "0x0X12", "0X0x12", "0x00x1", "00", "0012", "0123", "1234", "deadbeef", "DEADBEEF",
            "0x12 0x34", "0x120x34", "0xİ", "0xıı", "0xｆｆ", "0x12\r\n", "0x\u{7f}\u{7f}",
        ] {
            hex_case::<F>(fname, ev, "listed strings", s);
        }
    }
    for k in 0..n {
        let l = 2 * rng.below(*rng.clone().pick(&[3usize, 17, 34, 66]));
        let st = rng.below(7);
        let body = digits(&mut rng, l, st);
        let s = format!("0x{}", body);
        hex_case::<F>(fname, ev, "random strings", &s);
        // one defect each
        let mut by: Vec<char> = s.chars().collect();
        let pos = rng.below(by.len());
        match k % 5 {
            0 => {
                // any ASCII character at any position
                by[pos] = (rng.below(128) as u8) as char;
            }
            1 => {
                by.remove(pos);
            }
            2 => {
                let c = *rng.pick(&['0', 'x', 'g', ' ', 'é', '٣', '\0', '_', '-', '+', '@', '`', '/', ':', 'G', '{', '[']);
                by.insert(pos, c);
            }
            3 => {
                by.swap(0, pos);
            }
            _ => {
                let c = *rng.pick(&['@', '`', '/', ':', 'G', 'g', '[', '{', 'Z', 'z', 'O', 'l', '\u{ff10}', '\u{ff21}']);
                by[pos] = c;
                if c.len_utf8() > 1 && rng.chance(1, 2) && pos + 1 < by.len() {
                    by.remove(pos + 1);
                }
            }
        }
        let t: String = by.into_iter().collect();
        hex_case::<F>(fname, ev, "one defect", &t);
        // and the good one again afterwards
        if k % 7 == 0 {
            hex_case::<F>(fname, ev, "random strings", &s);
        }
    }
    if part == 1 {
        for c in 0..=255u32 {
            let ch = char::from_u32(c).unwrap();
            for s in [format!("0x{}0", ch), format!("0x0{}", ch), format!("0x{}{}", ch, ch), format!("0{}00", ch), format!("{}x00", ch), format!("{}0x00", ch), format!("0x00{}", ch), format!("0x00{}{}", ch, ch), format!("0xab{}d{}f", ch, ch)] {
                hex_case::<F>(fname, ev, "every character", &s);
            }
        }
    }
}

pub fn c18() -> Ev {
    let mut jobs: Vec<Job> = vec![];
    let n = amount(4000, 200_000);
    for part in 0..4 {
        for f in 0..N_FIELDS {
            jobs.push(Box::new(move |ev: &mut Ev| with_field!(f, c18_field(ev, part, n))));
        }
    }
    par(jobs)
}
