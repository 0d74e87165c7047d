//! C09: the inexact flag over all operations. C13: representation invariants of everything the
//! library returns, and construction from raw parts.

use crate::drive::*;
use crate::exact::{exact_case, int_case, set_case};
use crate::gen::*;
use crate::judge::*;
use crate::model::*;
use crate::numeric::*;
use crate::report::*;
use crate::rng::Rng;
use astro_float_num::{BigFloat, Exponent, FromExt, Radix, Sign};
use rug::Integer;
use serde_json::json;

pub fn run_c09(cfg: &Config) -> i32 {
    let want = Want { value: false, flag: true, canon: false };
    let mut st = observe_ops(
        cfg,
        &[
            Plan { ops: ARITH1, cases: 900_000, big: 2000 },
            Plan { ops: ARITH2, cases: 300_000, big: 500 },
            Plan { ops: ELEM, cases: 300_000, big: 500 },
            Plan { ops: TRIG, cases: 250_000, big: 300 },
            Plan { ops: HYP, cases: 250_000, big: 300 },
            Plan { ops: CONSTS, cases: 2000, big: 40 },
        ],
        &want,
    );
    let mul = if cfg.thorough() { 20 } else { 1 };
    st.merge(drive(cfg, "c09-exact", 200_000 * mul, 200.0, 60.0, |r, w, i| exact_case(r, w, i, false)));
    st.merge(drive(cfg, "c09-int", 200_000 * mul, 200.0, 60.0, |r, w, i| int_case(r, w, i)));
    st.merge(drive(cfg, "c09-set", 100_000 * mul, 200.0, 60.0, |r, w, i| set_case(r, w, i)));
    st.only(&["flag:", "panic:", "hang:"]);
    finish(
        cfg,
        st,
        "all operations on operands flagged exact or inexact; the flag is compared with what MPFR/GMP say about the exact result; \
         non-trivial: the result had to be rounded or is subnormal, distinct by all arguments",
        Default::default(),
        "exploration",
    )
}

pub fn run_c13(cfg: &Config) -> i32 {
    let want = Want { value: false, flag: false, canon: true };
    let mut st = observe_ops(
        cfg,
        &[
            Plan { ops: ARITH1, cases: 1_200_000, big: 4000 },
            Plan { ops: ARITH2, cases: 600_000, big: 1000 },
            Plan { ops: ELEM, cases: 300_000, big: 1000 },
            Plan { ops: TRIG, cases: 300_000, big: 500 },
            Plan { ops: HYP, cases: 300_000, big: 500 },
            Plan { ops: CONSTS, cases: 2000, big: 40 },
        ],
        &want,
    );
    let mul = if cfg.thorough() { 20 } else { 1 };
    st.merge(drive(cfg, "c13-raw", 600_000 * mul, 200.0, 60.0, |r, w, i| if i / 8 % 2 == 0 { raw_parts(r, w) } else { words(r, w) }));
    st.merge(drive(cfg, "c13-prod", 600_000 * mul, 200.0, 60.0, |r, w, i| producers(r, w, i)));
    st.only(&["canon:", "raw:", "words:", "panic:", "hang:"]);
    finish(
        cfg,
        st,
        "every number returned by operations, constructors, conversions and setters is inspected (exponent range, normalization, \
         number of significant bits, canonical zero, raw parts round trip); raw parts and words valid or not; \
         non-trivial: distinct by all arguments",
        Default::default(),
        "exploration",
    )
}

fn raw_words(r: &mut Rng) -> Vec<u64> {
    let len = match r.below(12) {
        0 => 0,
        1..=8 => r.usize(1, 4),
        _ => r.usize(4, 40),
    };
    if len == 0 {
        return vec![];
    }
    let mut v = gen_words(r, len);
    match r.below(6) {
        0 => v.fill(0),
        1 | 2 => {
            // leading zeroes
            let z = words_to_int(&v) >> r.usize(0, len * 64) as u32;
            v = int_to_words(&z, len);
        }
        3 => {
            let k = r.usize(0, len - 1);
            v[k..].fill(0);
            if r.chance(1, 2) {
                v[0] |= 1;
            }
        }
        _ => {}
    }
    v
}

fn raw_exp(r: &mut Rng) -> i64 {
    match r.below(6) {
        0 | 1 => EMIN,
        2 => EMIN + r.range(0, 200),
        3 => EMAX - r.range(0, 2),
        4 => 0,
        _ => gen_exp(r, ExpClass::Any),
    }
}

fn raw_parts(r: &mut Rng, w: &mut Worker) {
    let m = raw_words(r);
    let e = raw_exp(r);
    let z = words_to_int(&m);
    let bits = z.significant_bits() as usize;
    let p = m.len() * 64;
    let n = match r.below(6) {
        0 => p,
        1 => r.usize(0, p + 70),
        2 => p + 1,
        _ => bits,
    };
    let neg = r.chance(1, 2);
    let inx = r.chance(1, 2);
    let hex: Vec<String> = m.iter().map(|x| format!("{:016x}", x)).collect();
    let j = json!({"op": "from_raw_parts", "m": hex, "n": n, "s": if neg { -1 } else { 1 }, "e": e, "inexact": inx});
    let Some(x) = w.call(&j, |_| BigFloat::from_raw_parts(&m, n, sign(neg), e as Exponent, inx)) else { return };
    if m.is_empty() {
        return; // precision zero: nothing is said
    }
    let valid = n == bits && (n == p || n == 0 || e == EMIN);
    let zero_off = n == 0 && e != 0; // exponent of zero is taken as 0
    if valid {
        let want_e = if n == 0 { 0 } else { e };
        let ok = match x.as_raw_parts() {
            Some((m2, n2, s2, e2, i2)) => m2 == &m[..] && n2 == n && s2 == sign(neg) && e2 as i64 == want_e && i2 == inx,
            None => false,
        };
        if !ok {
            w.violate("raw:valid", json!({"case": j, "got": show(&x)}));
        } else {
            let acc = x.sign() == Some(sign(neg))
                && x.exponent().map(|v| v as i64) == Some(want_e)
                && x.precision() == Some(n)
                && x.mantissa_max_bit_len() == Some(p)
                && x.mantissa_digits() == Some(&m[..])
                && x.inexact() == inx
                && x.is_zero() == (n == 0)
                && x.is_subnormal() == (n < p);
            if !acc {
                w.violate("raw:accessors", json!({"case": j, "got": show(&x)}));
            }
        }
        w.st.count(if zero_off { "raw_zero" } else if n < p { "raw_subnormal" } else { "raw_normal" });
    } else {
        if !x.is_nan() || x.err() != Some(astro_float_num::Error::InvalidArgument) {
            w.violate("raw:invalid_accepted", json!({"case": j, "got": show(&x)}));
        }
        w.st.count("raw_rejected");
    }
    if let Err(e) = canonical(&x) {
        w.violate("canon:from_raw_parts", json!({"case": j, "got": show(&x), "why": e}));
    }
    w.nontrivial(&j);
}

fn words(r: &mut Rng, w: &mut Worker) {
    let m = raw_words(r);
    if m.is_empty() {
        return;
    }
    let e = raw_exp(r);
    let neg = r.chance(1, 2);
    let hex: Vec<String> = m.iter().map(|x| format!("{:016x}", x)).collect();
    let j = json!({"op": "from_words", "m": hex, "s": if neg { -1 } else { 1 }, "e": e});
    let Some(x) = w.call(&j, |_| BigFloat::from_words(&m, sign(neg), e as Exponent)) else { return };
    // value: the integer scaled by 2^(e - 64 * length), exactly
    let z = words_to_int(&m);
    let ok = match x.as_raw_parts() {
        Some((m2, _, s2, e2, i2)) => {
            let z2 = words_to_int(m2);
            let same = if z == 0 {
                z2 == 0
            } else {
                let d = e - e2 as i64;
                d >= 0 && d <= (m.len() * 64) as i64 && Integer::from(&z << d as u32) == z2
            };
            same && m2.len() == m.len() && s2 == sign(neg) && !i2
        }
        None => false,
    };
    if !ok {
        w.violate("words:value", json!({"case": j, "got": show(&x)}));
    }
    if let Err(e) = canonical(&x) {
        w.violate("canon:from_words", json!({"case": j, "got": show(&x), "why": e}));
    }
    w.st.count("from_words");
    w.nontrivial(&j);
}

/// Everything else that returns numbers.
fn producers(r: &mut Rng, w: &mut Worker, i: u64) {
    let len = gen_len(r, 0);
    let cl = *r.pick(&[ExpClass::Small, ExpClass::Small, ExpClass::Mid, ExpClass::Edge]);
    let o = |cl| NumOpts { len, exp: cl, subnormal: true, zero: true, inexact: true };
    let a = gen_num(r, &o(cl));
    let mut b = gen_num(r, &o(cl));
    if r.chance(1, 4) {
        b = perturb(r, &a);
    }
    let p = r.usize(1, 400);
    let rm = gen_rm(r);
    let v = r.u64();
    let e = raw_exp(r) as Exponent;
    let nm = [
        "rem", "add_full_prec", "sub_full_prec", "mul_full_prec", "int", "fract", "floor", "ceil", "round", "set_exponent", "from_f64", "from_f32",
        "from_i8", "from_i64", "from_u128", "from_word", "limits", "parse", "random_normal", "from_ext", "minmax", "clone", "signum", "abs",
    ];
    let k = (i / 8) as usize % nm.len();
    let near = match (a.exponent(), b.exponent()) {
        (Some(x), Some(y)) => (x as i64 - y as i64).abs() < 5000,
        _ => true,
    };
    if k < 3 && !near {
        return;
    }
    let j = json!({"op": nm[k], "a": show(&a), "b": show(&b), "p": p, "rm": rm_name(rm), "v": v, "e": e});
    let Some(res) = w.call(&j, |cc| match nm[k] {
        "rem" => vec![a.rem(&b)],
        "add_full_prec" => vec![a.add_full_prec(&b)],
        "sub_full_prec" => vec![a.sub_full_prec(&b)],
        "mul_full_prec" => vec![a.mul_full_prec(&b)],
        "int" => vec![a.int()],
        "fract" => vec![a.fract()],
        "floor" => vec![a.floor()],
        "ceil" => vec![a.ceil()],
        "round" => {
            let n = match v % 4 {
                0 => (v >> 60) as usize,
                1 => ((-(a.exponent().unwrap_or(0) as i64)).max(0) as usize).saturating_add((v >> 56) as usize),
                2 => (a.mantissa_max_bit_len().unwrap_or(0) as i64 - a.exponent().unwrap_or(0) as i64 - (v >> 58) as i64).max(0) as usize,
                _ => (v >> 52) as usize,
            };
            vec![a.round(n, rm)]
        }
        "set_exponent" => {
            let mut x = a.clone();
            x.set_exponent(e);
            let mut y = x.clone();
            y.set_exponent(EMIN as Exponent);
            let _ = y.set_precision(p, rm);
            vec![x, y]
        }
        "from_f64" => vec![BigFloat::from_f64(f64::from_bits(match v % 3 { 0 => v & 0xf_ffff_ffff_ffff, 1 => v & 0x8000_0000_0000_0007, _ => v }), p)],
        "from_f32" => vec![BigFloat::from_f32(f32::from_bits(match v % 3 { 0 => (v as u32) & 0x7f_ffff, _ => v as u32 }), p)],
        "from_i8" => vec![BigFloat::from_i8(v as i8, p), BigFloat::from_i8(i8::MIN, p), BigFloat::from_u8(v as u8, p)],
        "from_i64" => vec![BigFloat::from_i64(v as i64, p), BigFloat::from_i64(i64::MIN, p), BigFloat::from_i32(v as i32, p), BigFloat::from_i32(i32::MIN, p)],
        "from_u128" => {
            let x = (v as u128) << (v % 70);
            vec![BigFloat::from_u128(x, p), BigFloat::from_i128(x as i128, p), BigFloat::from_i128(i128::MIN, p), BigFloat::from_u128(u128::MAX, p)]
        }
        "from_word" => vec![BigFloat::from_word(v >> (v % 64), p), BigFloat::from_word(0, p)],
        "limits" => vec![BigFloat::max_value(p), BigFloat::min_value(p), BigFloat::min_positive(p), BigFloat::min_positive_normal(p), BigFloat::new(p)],
        "parse" => {
            let rdx = [Radix::Bin, Radix::Oct, Radix::Dec, Radix::Hex][(v % 4) as usize];
            let s = a.format(rdx, rm, cc).unwrap_or_default();
            if s.len() > 5000 {
                return vec![];
            }
            vec![BigFloat::parse(&s, rdx, p, rm, cc), BigFloat::parse(&s, rdx, usize::MAX, rm, cc)]
        }
        "random_normal" => {
            let lo = e.min(EMAX as Exponent - 500);
            vec![BigFloat::random_normal(p, lo, lo + (v % 500) as Exponent), BigFloat::random_normal(p, EMIN as Exponent, EMAX as Exponent), BigFloat::random_normal(p, lo, lo)]
        }
        "from_ext" => vec![BigFloat::from_ext(a.clone(), p, rm, cc), BigFloat::from_ext(v as i32, p, rm, cc), BigFloat::from_ext(v as f64, p, rm, cc), BigFloat::from_ext("-12.5e3", p, rm, cc)],
        "minmax" => vec![a.min(&b), a.max(&b), a.clamp(&b, &b)],
        "clone" => vec![a.clone(), BigFloat::default(), -&a],
        "signum" => vec![a.signum()],
        _ => vec![a.abs(), a.neg()],
    }) else {
        return;
    };
    for (q, x) in res.iter().enumerate() {
        if let Err(m) = canonical(x) {
            w.violate(format!("canon:{}", nm[k]), json!({"case": j, "nth": q, "got": show(x), "why": m}));
        }
    }
    if nm[k] == "random_normal" {
        let lo = e.min(EMAX as Exponent - 500) as i64;
        let ok = |x: &BigFloat, a: i64, b: i64| {
            !x.is_nan() && !x.is_subnormal() && !x.is_zero() && x.mantissa_max_bit_len() == Some(round_p(p)) && (a..=b).contains(&(x.exponent().unwrap() as i64))
        };
        if !ok(&res[0], lo, lo + (v % 500) as i64) || !ok(&res[1], EMIN, EMAX) || !ok(&res[2], lo, lo) {
            w.violate("raw:random_normal", json!({"case": j, "got": [show(&res[0]), show(&res[1]), show(&res[2])]}));
        }
    }
    w.st.count(nm[k]);
    w.nontrivial(&j);
    let _ = Sign::Pos;
}
