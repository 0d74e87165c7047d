//! Self-contained workloads for sanitizers: the oracle is the instrumentation, so results are only
//! looked at (every digit takes part in a branch) and, where it costs nothing, sanity-checked.

#[path = "../../harness/src/rng.rs"]
#[allow(dead_code)]
mod rng;

use astro_float_num::*;
use rng::Rng;
use std::collections::BTreeMap;
use std::fmt::Write;
use std::str::FromStr;
use std::sync::{Arc, Barrier};

const MODES: [RoundingMode; 7] = [
    RoundingMode::None,
    RoundingMode::ToEven,
    RoundingMode::Up,
    RoundingMode::Down,
    RoundingMode::ToZero,
    RoundingMode::FromZero,
    RoundingMode::ToOdd,
];
const RDX: [Radix; 4] = [Radix::Bin, Radix::Oct, Radix::Dec, Radix::Hex];

fn words(r: &mut Rng, len: usize) -> Vec<Word> {
    let kind = r.below(8);
    let mut v: Vec<Word> = (0..len)
        .map(|_| match kind {
            0 => Word::MAX,
            1 => 0,
            2 => *r.pick(&[0, Word::MAX, 1, Word::MAX << 1]),
            3 => (1 as Word) << r.below(WORD_BIT_SIZE as u64),
            _ => r.u64() as Word,
        })
        .collect();
    if kind >= 6 && len > 3 {
        // blocks of zeros or ones
        let a = r.usize(0, len - 1);
        let b = r.usize(a, len - 1);
        let f = if kind == 6 { 0 } else { Word::MAX };
        v[a..=b].fill(f);
    }
    if let Some(t) = v.last_mut() {
        *t |= (1 as Word) << (WORD_BIT_SIZE - 1);
    }
    if r.chance(1, 12) && len > 1 {
        v[0] = 0;
    }
    v
}

fn length(r: &mut Rng, size: u32) -> usize {
    match size {
        0 => r.usize(1, 4),
        1 => match r.below(16) {
            0 => r.usize(100, 600),
            1 | 2 => r.usize(20, 120),
            3..=6 => r.usize(5, 20),
            _ => r.usize(1, 5),
        },
        2 => match r.below(20) {
            0 => r.usize(5400, 6000),
            1..=4 => r.usize(200, 800),
            _ => r.usize(30, 240),
        },
        // interpreted: a few lengths on the other side of the algorithms' thresholds
        _ => match r.below(40) {
            0 => r.usize(221, 240),
            1..=3 => r.usize(60, 150),
            4..=11 => r.usize(5, 40),
            _ => r.usize(1, 4),
        },
    }
}

pub fn number(r: &mut Rng, size: u32) -> BigFloat {
    let l = length(r, size);
    let w = words(r, l);
    let s = if r.chance(1, 2) { Sign::Pos } else { Sign::Neg };
    let e = match r.below(10) {
        0 => EXPONENT_MIN + r.below(200) as Exponent,
        1 => EXPONENT_MAX - r.below(200) as Exponent,
        2 => r.range(-100_000, 100_000) as Exponent,
        3..=5 => r.range(-4, 8) as Exponent,
        _ => r.range(-200, 200) as Exponent,
    };
    match r.below(24) {
        0 => {
            // subnormal
            let k = r.usize(1, w.len() * WORD_BIT_SIZE - 1);
            let mut x = BigFloat::from_words(&w, s, EXPONENT_MIN);
            let y = BigFloat::from_words(&[1 as Word | 1 << (WORD_BIT_SIZE - 1)], Sign::Pos, -(k as Exponent));
            x = x.mul(&y, w.len() * WORD_BIT_SIZE, RoundingMode::ToZero);
            x
        }
        1 => BigFloat::from_i32(*r.pick(&[-2i32, -1, 0, 1, 2, 3, 10]), l * WORD_BIT_SIZE),
        2 => BigFloat::from_f64(f64::from_bits(r.u64()), l * WORD_BIT_SIZE),
        _ => {
            let mut x = BigFloat::from_raw_parts(&w, w.len() * WORD_BIT_SIZE, s, e, r.chance(1, 4));
            if x.is_nan() {
                x = BigFloat::from_words(&w, s, e);
            }
            x
        }
    }
}

/// Branch on every digit, so that an uninitialized one is seen.
fn look(x: &BigFloat) -> u64 {
    let mut h = 1469598103934665603u64;
    if let Some((m, n, s, e, i)) = x.as_raw_parts() {
        for d in m {
            if *d == 0x5bd1_e995 {
                h = h.rotate_left(1);
            }
            h = (h ^ *d as u64).wrapping_mul(1099511628211);
        }
        if n > m.len() * WORD_BIT_SIZE || (s == Sign::Neg) != x.is_negative() || e > EXPONENT_MAX {
            println!("BAD raw parts");
        }
        h = h.wrapping_add(e as u64).wrapping_add(i as u64);
    }
    if h == 0 {
        print!("");
    }
    h
}

fn text(r: &mut Rng, size: u32) -> String {
    let n = match size {
        0 => r.usize(1, 50),
        1 => r.usize(1, 300),
        2 => r.usize(1, 20_000),
        _ => r.usize(1, 60),
    };
    let p = r.usize(0, n);
    let mut s = String::new();
    for k in 0..n {
        if k == p {
            s.push('.');
        }
        s.push((b'0' + r.below(2) as u8 * r.below(5) as u8) as char);
    }
    if r.chance(1, 2) {
        let _ = write!(s, "e{}", r.range(-300, 300));
    }
    s
}

const NAMES: [&str; 58] = [
    "add", "sub", "mul", "mul", "div", "div", "rem", "reciprocal", "sqrt", "cbrt", "powi", "add_full_prec", "sub_full_prec", "mul_full_prec", "set_precision",
    "round", "int", "fract", "floor", "ceil", "cmp", "set_exponent", "clone", "max", "parse", "from_str", "format", "to_radix", "display", "from_radix",
    "consts", "try_set_precision", "ints", "limits", "ln", "exp", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh",
    "log2", "log10", "log", "pow", "signs", "from_words", "from_raw_parts", "words", "new", "from_str",
];

fn step(r: &mut Rng, pool: &mut [BigFloat], cc: &mut Consts, size: u32, seen: &mut BTreeMap<&'static str, u64>) -> u64 {
    let k = pool.len() as u64;
    let (mut a, mut b) = (pool[r.below(k) as usize].clone(), pool[r.below(k) as usize].clone());
    let rm = *r.pick(&MODES);
    let p = match size {
        0 => r.usize(1, 4 * WORD_BIT_SIZE),
        1 => {
            if r.chance(1, 10) {
                r.usize(1, 8000)
            } else {
                r.usize(1, 900)
            }
        }
        2 => length(r, 2) * WORD_BIT_SIZE + r.usize(0, 3),
        _ => length(r, 3) * WORD_BIT_SIZE + r.usize(0, 3),
    };
    let mut nm: &'static str = *r.pick(&NAMES);
    let mut fun = matches!(
        nm,
        "ln" | "exp" | "sin" | "cos" | "tan" | "asin" | "acos" | "atan" | "sinh" | "cosh" | "tanh" | "asinh" | "acosh" | "atanh" | "log2" | "log10" | "log" | "pow"
    );
    if size >= 2 && fun && !r.chance(1, if size == 2 { 40 } else { 15 }) {
        nm = *r.pick(&["mul", "div", "sqrt", "mul_full_prec", "rem", "to_radix", "parse", "powi", "cbrt"]);
        fun = false;
    }
    if size == 3 {
        // interpretation is slow: functions get short arguments near 1
        let long = |x: &BigFloat, n: usize| x.mantissa_max_bit_len().unwrap_or(0) > n * WORD_BIT_SIZE;
        if fun {
            a = BigFloat::from_words(&words(r, 1), Sign::Pos, r.range(-3, 5) as Exponent);
            b = BigFloat::from_words(&words(r, 1), Sign::Neg, r.range(-3, 5) as Exponent);
        } else if (nm == "cbrt" || nm == "powi" || nm == "display" || nm == "format" || nm == "to_radix") && (long(&a, 16) || p > 16 * WORD_BIT_SIZE) {
            nm = "mul";
        } else if (nm == "from_str" || nm == "consts") && r.chance(3, 4) || nm == "cbrt" && (long(&a, 6) || p > 6 * WORD_BIT_SIZE) {
            nm = *r.pick(&["div", "sqrt", "rem", "set_precision", "parse", "words"]);
        }
    }
    let pf = match size {
        2 => p.min(8000),
        3 => r.usize(1, 2 * WORD_BIT_SIZE),
        _ => p.min(3000),
    };
    let pt = if size == 3 { p.min(4 * WORD_BIT_SIZE) } else { p.min(20_000) };
    let trace = std::env::var("LITE_TRACE").ok();
    let t0 = std::time::Instant::now();
    let rdx = *r.pick(&RDX);
    let far = if size == 3 { 100 } else { 1500 };
    let small = |x: &BigFloat| x.exponent().map(|e| e.unsigned_abs() < far).unwrap_or(true);
    let close = (a.exponent().unwrap_or(0) as i64 - b.exponent().unwrap_or(0) as i64).abs() < 3000;
    *seen.entry(nm).or_insert(0) += 1;
    if trace.is_some() {
        println!("begin {} {} {:?} {:?}", nm, p, a.mantissa_max_bit_len(), b.mantissa_max_bit_len());
    }
    let x = match nm {
        "add" => a.add(&b, p, rm),
        "sub" => a.sub(&b, p, rm),
        "mul" => a.mul(&b, p, rm),
        "div" => a.div(&b, p, rm),
        "rem" if close => a.rem(&b),
        "reciprocal" => a.reciprocal(p, rm),
        "sqrt" => a.sqrt(p, rm),
        "cbrt" => a.cbrt(p, rm),
        "powi" => a.powi(r.usize(0, if size == 2 { 9 } else { 40 }), p, rm),
        "add_full_prec" if close => a.add_full_prec(&b),
        "sub_full_prec" if close => a.sub_full_prec(&b),
        "mul_full_prec" => a.mul_full_prec(&b),
        "set_precision" => {
            let mut x = a.clone();
            let _ = x.set_precision(p, rm);
            x
        }
        "try_set_precision" => {
            let mut x = a.clone();
            let s = r.usize(0, 1000);
            if x.try_set_precision(p, rm, s) {
                x
            } else {
                a
            }
        }
        "round" => a.round(r.usize(0, 500), rm),
        "int" => a.int(),
        "fract" => a.fract(),
        "floor" => a.floor(),
        "ceil" => a.ceil(),
        "cmp" => {
            if a.cmp(&b).unwrap_or(0) > 0 || a.abs_cmp(&b).unwrap_or(0) < 0 {
                a
            } else {
                b
            }
        }
        "set_exponent" => {
            let mut x = a.clone();
            x.set_exponent(*r.pick(&[EXPONENT_MIN, EXPONENT_MAX, 0, 1, -70, 200]));
            x
        }
        "clone" => a.clone(),
        "max" => a.max(&b).min(&a.clamp(&b, &a)),
        "parse" => BigFloat::parse(&text(r, size), rdx, pt, rm, cc),
        "from_str" => BigFloat::from_str(&text(r, size)).unwrap_or(NAN),
        "format" if size != 3 && (small(&a) || rdx != Radix::Dec || size < 2) || small(&a) => {
            let s = a.format(rdx, rm, cc).unwrap_or_default();
            BigFloat::parse(&s, rdx, pt, rm, cc)
        }
        "to_radix" if small(&a) || size < 2 => match a.convert_to_radix(rdx, rm, cc) {
            Ok((s, d, e)) => BigFloat::convert_from_radix(s, &d, e, rdx, pt, rm, cc),
            Err(e) => BigFloat::nan(Some(e)),
        },
        "display" if size < 2 || size == 3 && small(&a) => {
            let s = format!("{} {:b} {:o} {:X} {:?}", a, b, a, b, a.err());
            if s.len() < 3 {
                println!("BAD display");
            }
            a
        }
        "from_radix" => {
            let d: Vec<u8> = (0..r.usize(0, if size == 3 { 60 } else { 200 })).map(|_| r.below(rdx as u64) as u8).collect();
            let q = if r.chance(1, 4) { usize::MAX } else { p.min(3000) };
            BigFloat::convert_from_radix(Sign::Neg, &d, r.range(-300, 300) as Exponent, rdx, q, rm, cc)
        }
        "consts" => match r.below(4) {
            0 => cc.pi(pf, rm),
            1 => cc.e(pf, rm),
            2 => cc.ln_2(pf, rm),
            _ => cc.ln_10(pf, rm),
        },
        "ints" => match r.below(6) {
            0 => BigFloat::from_i128(r.u64() as i128 * r.u64() as i64 as i128, p),
            1 => BigFloat::from_u128(r.u64() as u128 * r.u64() as u128, p),
            2 => BigFloat::from_i64(r.u64() as i64, p),
            3 => BigFloat::from_u8(r.u64() as u8, p),
            4 => BigFloat::from_f64(f64::from_bits(r.u64()), p),
            _ => BigFloat::from_f32(f32::from_bits(r.u64() as u32), p),
        },
        "limits" => match r.below(5) {
            0 => BigFloat::max_value(p),
            1 => BigFloat::min_value(p),
            2 => BigFloat::min_positive(p),
            3 => BigFloat::min_positive_normal(p),
            _ => BigFloat::new(p),
        },
        "ln" => a.ln(pf, rm, cc),
        "exp" => a.exp(pf, rm, cc),
        "sin" if small(&a) => a.sin(pf, rm, cc),
        "cos" if small(&a) => a.cos(pf, rm, cc),
        "tan" if small(&a) => a.tan(pf, rm, cc),
        "asin" => a.asin(pf, rm, cc),
        "acos" => a.acos(pf, rm, cc),
        "atan" => a.atan(pf, rm, cc),
        "sinh" => a.sinh(pf, rm, cc),
        "cosh" => a.cosh(pf, rm, cc),
        "tanh" => a.tanh(pf, rm, cc),
        "asinh" => a.asinh(pf, rm, cc),
        "acosh" => a.acosh(pf, rm, cc),
        "atanh" => a.atanh(pf, rm, cc),
        "log2" => a.log2(pf, rm, cc),
        "log10" => a.log10(pf, rm, cc),
        "log" => a.log(&b, pf, rm, cc),
        "pow" => a.pow(&b, pf, rm, cc),
        "signs" => {
            let mut x = -a;
            x.inv_sign();
            x.set_sign(Sign::Neg);
            x.abs()
        }
        "from_words" => {
            let l = length(r, size.min(1));
            let mut w = words(r, l);
            if r.chance(1, 3) {
                let k = w.len() - 1;
                w[k] >>= r.below(WORD_BIT_SIZE as u64);
            }
            BigFloat::from_words(&w, Sign::Pos, r.range(-500, 500) as Exponent)
        }
        "from_raw_parts" => {
            let l = length(r, size.min(1));
            let w = words(r, l);
            let n = w.len() * WORD_BIT_SIZE - r.usize(0, 2);
            BigFloat::from_raw_parts(&w, n, Sign::Pos, r.range(-500, 500) as Exponent, false)
        }
        _ => number(r, size),
    };
    if trace.is_some() {
        println!("step {} {} us", nm, t0.elapsed().as_micros());
    }
    let h = look(&x);
    let keep = x.mantissa_max_bit_len().unwrap_or(0) <= match size {
        0 => 5 * WORD_BIT_SIZE,
        1 => 700 * WORD_BIT_SIZE,
        3 => 240 * WORD_BIT_SIZE,
        _ => 13_000 * WORD_BIT_SIZE,
    };
    if keep && r.chance(1, 2) && !x.is_nan() && !x.is_inf() {
        let k = r.below(k) as usize;
        pool[k] = x;
    } else if r.chance(1, 2) {
        let k = r.below(k) as usize;
        pool[k] = number(r, size);
    }
    h
}

/// stress SEED CASES SIZE [FIRST [STEP [SECS]]]
pub fn stress(a: &[String]) -> i32 {
    let g = |k: usize, d: u64| a.get(k).and_then(|s| s.parse().ok()).unwrap_or(d);
    let (seed, cases, size, first, by, secs) = (g(0, 1), g(1, 100), g(2, 1) as u32, g(3, 0), g(4, 1), g(5, 1_000_000));
    let t0 = std::time::Instant::now();
    let mut seen = BTreeMap::new();
    let mut distinct = std::collections::BTreeSet::new();
    let (mut steps, mut done, mut panics) = (0u64, 0u64, 0u64);
    let mut i = first;
    let mut shared = Consts::new().expect("consts");
    while i < cases && t0.elapsed().as_secs() <= secs {
        println!("case {}", i);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut r = Rng::for_case(seed, "lite", size as u64, i);
            let mut own;
            let cc = if size == 3 && i % 40 != 0 {
                &mut shared
            } else {
                own = Consts::new().expect("consts");
                &mut own
            };
            let mut pool: Vec<BigFloat> = (0..r.usize(2, 5)).map(|_| number(&mut r, size)).collect();
            for _ in 0..r.usize(2, if size == 0 { 6 } else { 20 }) {
                if t0.elapsed().as_secs() > secs {
                    break;
                }
                distinct.insert(step(&mut r, &mut pool, cc, size, &mut seen));
                steps += 1;
            }
        }));
        if r.is_err() {
            panics += 1;
            println!("PANIC {} {}", i, crate::LAST.with(|p| p.borrow().clone()).unwrap_or_default());
        }
        done += 1;
        i += by;
    }
    println!("STRESS {} {} {} {} {:?}", done, steps, distinct.len(), panics, seen);
    0
}

/// threads SEED ROUNDS: first use by all threads at once, then shared operands.
pub fn threads(a: &[String]) -> i32 {
    let g = |k: usize, d: u64| a.get(k).and_then(|s| s.parse().ok()).unwrap_or(d);
    let (seed, rounds) = (g(0, 1), g(1, 10));
    let bar = Arc::new(Barrier::new(8));
    let mut total = 0;
    for round in 0..rounds {
        // operands are made without the library's lazily initialized values being touched before
        let shared: Arc<Vec<BigFloat>> = {
            let mut r = Rng::for_case(seed, "shared", 0, round);
            Arc::new((0..12).map(|_| BigFloat::from_words(&words(&mut r, 3), Sign::Pos, r.clone().range(-5, 5) as Exponent)).collect())
        };
        let hs: Vec<_> = (0..8u64)
            .map(|t| {
                let (bar, shared) = (bar.clone(), shared.clone());
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn(move || {
                        let mut r = Rng::for_case(seed, "threads", if t % 2 == 0 { 0 } else { t }, round);
                        let mut seen = BTreeMap::new();
                        bar.wait();
                        let mut cc = Consts::new().expect("consts");
                        let mut pool: Vec<BigFloat> = shared.iter().cloned().collect();
                        let mut h = vec![];
                        for _ in 0..25 {
                            h.push(step(&mut r, &mut pool, &mut cc, 0, &mut seen));
                            let (x, y) = (r.pick(&shared), r.clone());
                            let _ = y;
                            h.push(look(&x.mul(&shared[3], 200, RoundingMode::Up).ln(150, RoundingMode::ToEven, &mut cc)));
                            h.push(look(&x.sqrt(300, RoundingMode::Down)));
                            h.push(format!("{}", x).len() as u64);
                        }
                        h
                    })
                    .expect("thread")
            })
            .collect();
        let out: Vec<Vec<u64>> = hs.into_iter().map(|h| h.join().unwrap_or_default()).collect();
        for t in [2, 4, 6] {
            if out[t] != out[0] || out[t].is_empty() {
                println!("DIFFER round {} thread {}", round, t);
                return 1;
            }
        }
        total += out.iter().map(|o| o.len()).sum::<usize>();
    }
    println!("THREADS {} {}", rounds, total);
    0
}
