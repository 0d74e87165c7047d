//! C08: conversion from and to radix 2, 8, 10, 16: parse, FromStr, convert_from_radix, format,
//! Display and friends, convert_to_radix. Exact values by GMP, rounding by the model.

use crate::drive::*;
use crate::gen::*;
use crate::judge::canonical;
use crate::model::*;
use crate::report::*;
use crate::rng::Rng;
use astro_float_num::{BigFloat, Error, Exponent, Radix, RoundingMode, Sign};
use rug::ops::Pow;
use rug::{Float, Integer};
use serde_json::json;

pub const RADIXES: [Radix; 4] = [Radix::Bin, Radix::Oct, Radix::Dec, Radix::Hex];

pub fn base(r: Radix) -> u32 {
    match r {
        Radix::Bin => 2,
        Radix::Oct => 8,
        Radix::Dec => 10,
        Radix::Hex => 16,
    }
}

pub fn rname(r: Radix) -> &'static str {
    match r {
        Radix::Bin => "bin",
        Radix::Oct => "oct",
        Radix::Dec => "dec",
        Radix::Hex => "hex",
    }
}

/// m * radix^k, good for rounding to p bits.
pub fn value_of(m: &Integer, k: i64, neg: bool, rdx: Radix, p: usize) -> Option<Ideal> {
    if *m == 0 {
        return Some(Ideal::Zero);
    }
    let sg = |v: Float| if neg { -v } else { v };
    if rdx != Radix::Dec {
        let lg = base(rdx).trailing_zeros() as i64;
        let v = scaled(m, k * lg);
        return Some(Ideal::Num { v: sg(v), sticky: false });
    }
    let wp = (p + 64) as u32;
    let mf = Float::with_val(m.significant_bits().max(2), m);
    if k >= 0 && k < 20000 {
        let v = Integer::from(m * Integer::from(10).pow(k as u32));
        return Some(Ideal::Num { v: sg(scaled(&v, 0)), sticky: false });
    }
    if k < 0 && k > -20000 {
        let d = Integer::from(10).pow((-k) as u32);
        let df = Float::with_val(d.significant_bits(), &d);
        let (v, o) = Float::with_val_round(wp, &mf / &df, RNDZ);
        return Some(from_rndz(sg(v), o, neg));
    }
    for extra in [64u32, 512] {
        let q = wp + extra;
        let t = Float::with_val_round(q, (&Float::with_val(64, 10)).pow(&Integer::from(k.abs())), RNDZ).0;
        let v = if k > 0 {
            Float::with_val_round(q, &mf * &t, RNDZ).0
        } else {
            Float::with_val_round(q, &mf / &t, RNDZ).0
        };
        let (z, e) = int_exp(&v);
        let bits = z.significant_bits();
        if bits < q {
            continue;
        }
        let sh = bits - wp;
        let low = Integer::from(&z - (Integer::from(&z >> sh) << sh));
        if low > 16 && low < (Integer::from(1) << sh) - 16u32 {
            let v = scaled(&Integer::from(&z >> sh), e + sh as i64);
            let v = Float::with_val(wp, v);
            return Some(Ideal::Num { v: sg(v), sticky: true });
        }
    }
    None
}

pub struct Text {
    pub s: String,
    pub m: Integer,
    pub k: i64,
    pub neg: bool,
    pub ndigits: usize,
}

fn digits_of(z: &Integer, rdx: Radix) -> Vec<u8> {
    if *z == 0 {
        return vec![];
    }
    z.to_string_radix(base(rdx) as i32).bytes().map(|c| if c <= b'9' { c - b'0' } else { c - b'a' + 10 }).collect()
}

pub fn value_from_digits(d: &[u8], rdx: Radix) -> Integer {
    let mut s = String::with_capacity(d.len() + 1);
    s.push('0');
    for v in d {
        s.push(std::char::from_digit(*v as u32, 16).unwrap());
    }
    Integer::from_str_radix(&s, base(rdx) as i32).unwrap()
}

/// Digits of an interesting value: random, runs, near a rounding boundary of `p` bits.
pub fn gen_digits(r: &mut Rng, rdx: Radix, p: usize, len: usize) -> (Vec<u8>, i64) {
    let b = base(rdx) as u64;
    match r.below(8) {
        0 => {
            // runs of the lowest and the highest digit
            let mut v = vec![];
            while v.len() < len {
                let d = *r.pick(&[0, b - 1, b / 2, 1, r.clone().below(b)]) as u8;
                for _ in 0..r.usize(1, 1 + len / 2) {
                    v.push(d);
                }
            }
            v.truncate(len);
            (v, r.range(-20, 20))
        }
        1 | 2 => {
            // next to a p-bit number or to the middle of two of them
            let bits = p.max(1);
            let mut z = gen_bits(r, bits) << 2u32;
            z += r.below(4) as u32;
            let mut e = r.range(-40, 40);
            if r.chance(1, 6) {
                e = r.range(-600, 600);
            }
            // z * 2^(e - bits) as digits: exact for e < bits needs fraction digits
            let sh = e - bits as i64 - 2;
            let mut k = 0i64;
            if sh >= 0 {
                z <<= sh as u32;
            } else {
                match rdx {
                    Radix::Dec => {
                        z *= Integer::from(5).pow((-sh) as u32);
                        k = sh;
                    }
                    _ => {
                        let lg = base(rdx).trailing_zeros() as i64;
                        let n = (-sh + lg - 1) / lg;
                        z <<= (n * lg + sh) as u32;
                        k = -n;
                    }
                }
            }
            // something far below the boundary
            let mut d = digits_of(&z, rdx);
            match r.below(4) {
                0 => {}
                1 => {
                    let n = r.usize(1, 60);
                    d.extend(std::iter::repeat_n(0, n - 1));
                    d.push(1);
                    k -= n as i64;
                }
                2 => {
                    z -= 1;
                    let n = r.usize(1, 60);
                    d = digits_of(&z, rdx);
                    d.extend(std::iter::repeat_n((b - 1) as u8, n));
                    k -= n as i64;
                }
                _ => {
                    let n = r.usize(1, 40);
                    d.extend(std::iter::repeat_n(0, n));
                    k -= n as i64;
                }
            }
            let n = d.len() as i64;
            (d, k + n)
        }
        3 => {
            // power of the radix, plus or minus one
            let mut v = vec![0u8; len];
            v[0] = 1;
            if r.chance(1, 2) {
                v[len - 1] = 1;
            }
            (v, r.range(-30, 30))
        }
        _ => ((0..len).map(|_| r.below(b) as u8).collect(), r.range(-30, 30)),
    }
}

pub fn gen_dlen(r: &mut Rng, big: bool) -> usize {
    if big {
        return *r.pick(&[1500, 2500, 4097, 9000, 20000, 40000]) + r.usize(0, 300);
    }
    match r.below(12) {
        0..=5 => r.usize(1, 25),
        6..=8 => r.usize(15, 80),
        9 => *r.pick(&[1, 2, 18, 19, 20, 21, 37, 38, 39, 57, 76, 77]),
        10 => r.usize(80, 400),
        _ => r.usize(1, 5),
    }
}

/// exponents such that the value is in the whole range; `beyond`: or far beyond it
pub fn far_exp(r: &mut Rng, rdx: Radix, beyond: bool, emax: i64) -> i64 {
    let top = match rdx {
        Radix::Bin => emax,
        Radix::Oct => emax / 3,
        Radix::Dec => (emax as f64 * std::f64::consts::LOG10_2) as i64,
        Radix::Hex => emax / 4,
    };
    let v = match r.below(if beyond { 8 } else { 6 }) {
        6 => r.range(top, 1 << 31),
        7 => *r.pick(&[1i64 << 31, 1 << 32, 1 << 33, 1 << 40, 1 << 56]) + r.range(-3, 3),
        0 => top - r.range(-3, 3),
        1 => top - r.range(-100, 100),
        2 => top + r.range(1, 40),
        3 => r.range(0, top),
        4 => r.range(0, 100_000),
        _ => r.range(0, 3000),
    };
    if r.chance(1, 2) { v } else { -v }
}

pub fn gen_text(r: &mut Rng, rdx: Radix, p: usize, big: bool, far: bool, emax: i64) -> Text {
    let len = gen_dlen(r, big);
    let (d, mut e) = gen_digits(r, rdx, p.min(3000), len);
    if far {
        e = far_exp(r, rdx, p < usize::MAX || rdx == Radix::Dec, emax);
    }
    // value = 0.d * rdx^e
    let neg = r.chance(1, 3);
    let mut s = String::new();
    if neg {
        s.push('-');
    } else if r.chance(1, 6) {
        s.push('+');
    }
    let point = match r.below(6) {
        0 => 0,
        1 => d.len(),
        2 => 1.min(d.len()),
        _ => r.usize(0, d.len()),
    };
    let up = r.chance(1, 2);
    let ch = |v: u8| {
        let c = std::char::from_digit(v as u32, 16).unwrap();
        if up { c.to_ascii_uppercase() } else { c }
    };
    for _ in 0..(if r.chance(1, 5) { r.usize(1, 30) } else { 0 }) {
        s.push('0');
    }
    for v in &d[..point] {
        s.push(ch(*v));
    }
    let mut has_int = point > 0;
    if point < d.len() || r.chance(1, 3) {
        if !has_int && r.chance(1, 2) {
            s.push('0');
            has_int = true;
        }
        s.push('.');
    }
    let _ = has_int;
    for v in &d[point..] {
        s.push(ch(*v));
    }
    let x = e - point as i64;
    let mut xe = x;
    let plain = x == 0 && r.chance(1, 2) || (!far && r.chance(1, 6));
    if plain {
        xe = 0;
    } else {
        if rdx == Radix::Hex {
            s.push('_');
        }
        s.push(if r.chance(1, 3) { 'E' } else { 'e' });
        if x < 0 {
            s.push('-');
        } else if r.chance(1, 2) {
            s.push('+');
        }
        if r.chance(1, 10) {
            s.push_str("00");
        }
        let t = x.unsigned_abs();
        let t = match rdx {
            Radix::Bin => format!("{:b}", t),
            Radix::Oct => format!("{:o}", t),
            Radix::Dec => t.to_string(),
            Radix::Hex => if up { format!("{:X}", t) } else { format!("{:x}", t) },
        };
        s.push_str(&t);
    }
    let m = value_from_digits(&d, rdx);
    let k = xe + point as i64 - d.len() as i64;
    Text { s, m, k, neg, ndigits: d.len() }
}

fn short(s: &str) -> String {
    if s.len() > 700 {
        format!("{}...({} characters)...{}", &s[..400], s.len(), &s[s.len() - 100..])
    } else {
        s.to_string()
    }
}

/// Compare a parsed number. `p` = usize::MAX: precision chosen by the library.
#[allow(clippy::too_many_arguments)]
fn check_number(w: &mut Worker, j: &serde_json::Value, x: &BigFloat, m: &Integer, k: i64, neg: bool, rdx: Radix, p: usize, rm: RoundingMode, far: bool) {
    let op = format!("{}:{}", j["op"].as_str().unwrap_or("?"), rname(rdx));
    let cls = if far { "far" } else { "near" };
    if let Err(e) = canonical(x) {
        w.violate(format!("canon:{}", op), json!({"case": j, "got": show(x), "why": e}));
        return;
    }
    let auto = p == usize::MAX;
    let rp = if auto { x.mantissa_max_bit_len().unwrap_or(64) } else { round_p(p) };
    let Some(id) = value_of(m, k, neg, rdx, rp) else {
        w.st.inconclusive += 1;
        return;
    };
    let got = observe(x);
    if auto && rdx != Radix::Dec {
        // exact, or out of range
        let Ideal::Num { v, .. } = &id else {
            if got != Res::Zero {
                w.violate(format!("auto:{}:{}", op, cls), json!({"case": j, "got": show(x), "expected": "0"}));
            }
            return;
        };
        let ok = match (&got, get_exp(v) > EMAX) {
            (Res::Inf(n), true) => *n == neg,
            (Res::Num { .. }, false) => to_mpfr(x).unwrap() == *v,
            // below the range of exponents of the digits
            (Res::Zero, false) => get_exp(v) <= EMIN * base(rdx).trailing_zeros() as i64,
            _ => false,
        };
        if !ok {
            w.violate(format!("auto:{}:{}", op, cls), json!({"case": j, "got": show(x)}));
        }
        w.st.count(&format!("{}:auto", op));
        w.nontrivial(&json!([j["op"], j["s"], "auto"]));
        return;
    }
    let (e, rounded) = round_ideal(&id, rp, rm);
    let c = match &e {
        Res::Inf(_) => "inf",
        Res::Zero => "zero",
        Res::Num { e, words, .. } if *e == EMIN && words[words.len() - 1] >> 63 == 0 => "subnormal",
        _ => "normal",
    };
    if got != e {
        w.violate(format!("value:{}:{}:{}", op, cls, c), json!({"case": j, "got": show(x), "expected": show_res(&e)}));
    } else if x.mantissa_max_bit_len().is_some() && x.mantissa_max_bit_len() != Some(rp) {
        w.violate(format!("prec:{}", op), json!({"case": j, "got": show(x)}));
    } else if !x.is_inf() && x.inexact() != rounded {
        w.violate(format!("flag:{}:{}:{}", op, c, if rounded { "lost" } else { "spurious" }), json!({"case": j, "got": show(x)}));
    }
    if matches!(e, Res::Zero | Res::Num { .. }) && !x.is_zero() && x.is_negative() != neg {
        w.violate(format!("sign:{}", op), json!({"case": j, "got": show(x)}));
    }
    w.st.count(&format!("{}:{}", op, c));
    if rounded {
        w.nontrivial(&json!([j["op"], j["s"], j["p"], j["rm"]]));
    }
}

fn parse_case(r: &mut Rng, w: &mut Worker, i: u64, big: bool) {
    let rdx = RADIXES[(i / 8) as usize % 4];
    let p = match r.below(7) {
        0 => usize::MAX,
        1 => 64,
        2 => r.usize(1, 64),
        3 => if big { r.usize(1000, 60000) } else { r.usize(300, 2000) },
        _ => r.usize(1, 400),
    };
    let rm = gen_rm(r);
    let far = !big && r.chance(1, 6);
    let t = gen_text(r, rdx, p, big, far, EMAX);
    let api = r.below(8);
    if api < 6 {
        let j = json!({"op": "parse", "s": short(&t.s), "rdx": rname(rdx), "p": p, "rm": rm_name(rm)});
        let Some(x) = w.call(&j, |cc| BigFloat::parse(&t.s, rdx, p, rm, cc)) else { return };
        check_number(w, &j, &x, &t.m, t.k, t.neg, rdx, p, rm, far);
        if rdx == Radix::Dec && r.chance(1, 3) {
            let j = json!({"op": "from_str", "s": short(&t.s)});
            let Some(x) = w.call(&j, |_| t.s.parse::<BigFloat>()) else { return };
            match x {
                Ok(x) => check_number(w, &j, &x, &t.m, t.k, t.neg, rdx, usize::MAX, RoundingMode::ToEven, far),
                Err(e) => w.violate("value:from_str:error", json!({"case": j, "got": format!("{:?}", e)})),
            }
        }
    } else {
        // digits directly, value = 0.d * rdx^e
        let len = gen_dlen(r, big);
        let (mut d, mut e) = gen_digits(r, rdx, p.min(3000), len);
        if far {
            e = far_exp(r, rdx, false, EMAX);
        }
        for _ in 0..(if r.chance(1, 4) { r.usize(1, 90) } else { 0 }) {
            d.insert(0, 0);
        }
        for _ in 0..(if r.chance(1, 6) { r.usize(1, 90) } else { 0 }) {
            d.push(0);
        }
        if r.chance(1, 60) {
            d.fill(0);
        }
        if r.chance(1, 100) {
            d.clear();
        }
        let invalid = !d.is_empty() && r.chance(1, 30);
        if invalid {
            let at = r.usize(0, d.len() - 1);
            d[at] = (base(rdx) as u64 + r.below(200)) as u8;
        }
        let e = e.clamp(EMIN, EMAX);
        let hexs: String = d.iter().take(400).map(|v| format!("{:x},", v)).collect();
        let j = json!({"op": "convert_from_radix", "s": hexs, "len": d.len(), "neg": t.neg, "e": e, "rdx": rname(rdx), "p": p, "rm": rm_name(rm)});
        let s = sign(t.neg);
        let Some(x) = w.call(&j, |cc| BigFloat::convert_from_radix(s, &d, e as Exponent, rdx, p, rm, cc)) else { return };
        if invalid {
            // a value out of range can be reported before the digits are looked at
            if far && x.is_inf() {
                return;
            }
            if !x.is_nan() || x.err() != Some(Error::InvalidArgument) {
                w.violate(format!("invalid_digit:{}", rname(rdx)), json!({"case": j, "got": show(&x)}));
            }
            w.st.count("invalid_digit");
            return;
        }
        let m = value_from_digits(&d, rdx);
        let k = e - d.len() as i64;
        check_number(w, &j, &x, &m, k, t.neg, rdx, p, rm, far);
    }
    let _ = t.ndigits;
}

/// digits (0.d * rdx^e) of what the library printed
pub struct Printed {
    pub neg: bool,
    pub d: Vec<u8>,
    pub e: i64,
}

/// Independent reading of the documented format.
pub fn read_text(s: &str, rdx: Radix) -> Option<Printed> {
    let (neg, t) = match s.strip_prefix('-') {
        Some(t) => (true, t),
        None => (false, s),
    };
    let b = base(rdx);
    let (mant, ex) = if rdx == Radix::Hex {
        match t.split_once("_e") {
            Some((m, e)) => (m, Some(e)),
            None => (t, None),
        }
    } else {
        match t.split_once('e') {
            Some((m, e)) => (m, Some(e)),
            None => (t, None),
        }
    };
    let (ip, fp) = mant.split_once('.')?;
    if ip.is_empty() {
        return None;
    }
    let mut d = vec![];
    for c in ip.chars().chain(fp.chars()) {
        if c.is_ascii_lowercase() {
            return None;
        }
        d.push(c.to_digit(b)? as u8);
    }
    let mut e = ip.len() as i64;
    if let Some(x) = ex {
        let (sg, v) = if let Some(v) = x.strip_prefix('+') { (1, v) } else { (-1, x.strip_prefix('-')?) };
        e += sg * i64::from_str_radix(v, b).ok()?;
    }
    Some(Printed { neg, d, e })
}

/// Is `d` (0.d * 10^e) the number |x| rounded to n decimal digits? None: undecided.
pub fn dec_ok(x: &Float, d: &[u8], e: i64, n: usize, rm: RoundingMode) -> Option<bool> {
    let neg = x.is_sign_negative();
    let ax = Float::with_val(x.prec(), x.abs_ref());
    // strip leading zeroes of the digits
    let lead = d.iter().take_while(|v| **v == 0).count();
    let (d, e) = (&d[lead..], e - lead as i64);
    if d.is_empty() {
        return Some(false);
    }
    let n = n.max(d.len());
    let mut dd = value_from_digits(d, Radix::Dec);
    dd *= Integer::from(10).pow((n - d.len()) as u32);
    // t = |x| * 10^(n - e) should round to dd; dd in [10^(n-1), 10^n)
    let k = n as i64 - e;
    let expect = |q: &Integer, kk: u32, sticky: bool| round_int(q, kk, sticky, neg, rm).0;
    let (lo, sh, sticky) = if k.abs() < 20000 {
        let (m, x2) = int_exp(&ax);
        // m * 2^x2 * 10^k
        let p10 = Integer::from(10).pow(k.unsigned_abs() as u32);
        let (mut num, mut den) = (m, Integer::from(1));
        if k >= 0 {
            num *= &p10;
        } else {
            den = p10;
        }
        if x2 >= 0 {
            num <<= x2 as u32;
        } else {
            den <<= (-x2) as u32;
        }
        let (q, r) = Integer::from(&num << 8u32).div_rem(den);
        (q, 8u32, r != 0)
    } else {
        let mut res = None;
        for extra in [128u32, 1024] {
            let wp = (n as f64 * 3.33) as u32 + 64 + extra;
            let t = Float::with_val_round(wp, (&Float::with_val(64, 10)).pow(&Integer::from(k.abs())), RNDZ).0;
            let v = if k >= 0 {
                Float::with_val_round(wp, &ax * &t, RNDZ).0
            } else {
                Float::with_val_round(wp, &ax / &t, RNDZ).0
            };
            let (z, x2) = int_exp(&v);
            // z has wp bits; error a few units
            let sh = -x2;
            if sh < 40 {
                return Some(false); // far too large
            }
            if sh as u64 > z.significant_bits() as u64 + 10 {
                return Some(false);
            }
            let keep = (sh - 8) as u32;
            let low = Integer::from(&z - (Integer::from(&z >> keep) << keep));
            if low > 64 && low < (Integer::from(1) << keep) - 64u32 {
                res = Some((Integer::from(&z >> keep), 8u32, true));
                break;
            }
        }
        res?
    };
    let want = expect(&lo, sh, sticky);
    if want == dd && dd < Integer::from(10).pow(n as u32) {
        // the true value must have n digits at this scale, or be just below a power of ten
        let low = Integer::from(10).pow(n as u32 - 1);
        let fl = Integer::from(&lo >> sh);
        if fl >= low {
            return Some(true);
        }
        // value below 10^(n-1): with n digits the rounding would have been finer
        if dd != low {
            return Some(false);
        }
        // scale by ten and look again: it has to round up to the power of ten
        return dec_ok_fine(x, &low, k + 1, rm);
    }
    Some(false)
}

/// Value just below a power of ten: t = |x| * 10^k has to round to 10 * low.
fn dec_ok_fine(x: &Float, low: &Integer, k: i64, rm: RoundingMode) -> Option<bool> {
    let neg = x.is_sign_negative();
    let ax = Float::with_val(x.prec(), x.abs_ref());
    let n = low.to_string().len() as u32;
    if k.abs() >= 20000 {
        return None;
    }
    let (m, x2) = int_exp(&ax);
    let p10 = Integer::from(10).pow(k.unsigned_abs() as u32);
    let (mut num, mut den) = (m, Integer::from(1));
    if k >= 0 {
        num *= &p10;
    } else {
        den = p10;
    }
    if x2 >= 0 {
        num <<= x2 as u32;
    } else {
        den <<= (-x2) as u32;
    }
    let (q, r) = Integer::from(&num << 8u32).div_rem(den);
    let want = round_int(&q, 8, r != 0, neg, rm).0;
    Some(want == Integer::from(10).pow(n))
}

/// A number whose decimal expansion is near a tie or a run of zeroes at its number of digits.
fn near_decimal(r: &mut Rng, len: usize) -> Option<BigFloat> {
    let n = (len as u64 * 64 * 301029996 / 1000000000) as usize + 1;
    let mut z = Integer::from(0);
    for _ in 0..n {
        z = z * 10u32 + r.below(10) as u32;
    }
    if r.chance(1, 3) {
        z = Integer::from(10).pow(n as u32) - r.below(3) as u32;
    }
    z = z * 100u32 + *r.pick(&[0u32, 50, 1, 99, 49, 51]);
    let k = r.range(-60, 40);
    let f = Float::with_val(z.significant_bits() + 64, &z) * Float::with_val(1000, (&Float::with_val(64, 10)).pow(&Integer::from(k)));
    from_mpfr(&f, len)
}

fn format_case(r: &mut Rng, w: &mut Worker, i: u64, big: bool) {
    let rdx = RADIXES[(i / 8) as usize % 4];
    let rm = gen_rm(r);
    let len = if big { r.usize(40, 1500) } else { gen_len(r, 0) };
    let cl = match r.below(8) {
        0 if !big => ExpClass::Any,
        1 if !big => ExpClass::Edge,
        2 => ExpClass::Mid,
        _ => ExpClass::Small,
    };
    let mut x = gen_num(r, &NumOpts { len, exp: cl, subnormal: !big, zero: !big, inexact: true });
    if r.chance(1, 6) {
        // integers and short fractions
        if let Some(v) = from_int(&Integer::from(r.u64() >> r.below(63)), r.chance(1, 2), r.range(-10, 70), len) {
            x = v;
        }
    } else if r.chance(1, 6) && !big {
        if let Some(v) = near_decimal(r, len) {
            x = v;
        }
    }
    let p = len * 64;
    let j = json!({"op": "format", "a": show(&x), "rdx": rname(rdx), "rm": rm_name(rm)});
    let Some((s, digits)) = w.call(&j, |cc| (x.format(rdx, rm, cc), x.convert_to_radix(rdx, rm, cc))) else { return };
    let bad = |w: &mut Worker, what: &str, g: serde_json::Value| {
        w.violate(format!("{}:format:{}", what, rname(rdx)), json!({"case": j, "got": g}));
    };
    let (s, (ds, dd, de)) = match (s, digits) {
        (Ok(s), Ok(d)) => (s, d),
        (a, b) => {
            bad(w, "error", json!(format!("{:?} {:?}", a.map(|s| short(&s)), b.map(|d| d.2))));
            return;
        }
    };
    // Display and friends round to the nearest even
    if rm == RoundingMode::ToEven && r.chance(1, 2) {
        let t = match rdx {
            Radix::Bin => w.call(&j, |_| format!("{:b}", x)),
            Radix::Oct => w.call(&j, |_| format!("{:o}", x)),
            Radix::Dec => w.call(&j, |_| format!("{}", x)),
            Radix::Hex => w.call(&j, |_| format!("{:X}", x)),
        };
        if t.as_deref() != Some(&s) {
            bad(w, "display", json!({"format": short(&s), "display": t.map(|t| short(&t))}));
        }
        w.st.count("display");
    }
    if x.is_zero() {
        if !matches!(s.as_str(), "0.0" | "-0.0") || dd.iter().any(|v| *v != 0) {
            bad(w, "zero", json!([short(&s), dd]));
        }
        w.st.count(&format!("format:{}:zero", rname(rdx)));
        return;
    }
    let Some(pr) = read_text(&s, rdx) else {
        bad(w, "shape", json!(short(&s)));
        return;
    };
    let f = to_mpfr(&x).unwrap();
    if pr.neg != x.is_negative() || (ds == Sign::Neg) != x.is_negative() {
        bad(w, "sign", json!(short(&s)));
    }
    if dd.iter().any(|v| *v as u32 >= base(rdx)) {
        bad(w, "digits", json!(dd));
        return;
    }
    // both forms denote the same value
    if !x.is_subnormal() && (dd.is_empty() || dd[0] == 0) && !x.is_subnormal() && de as i64 > EMIN && rdx == Radix::Dec {
        bad(w, "leading_zero", json!(short(&s)));
    }
    for (d, e, what) in [(&pr.d, pr.e, "text"), (&dd, de as i64, "digits")] {
        if rdx == Radix::Dec {
            let n = (p as u64 * 301029996 / 1000000000) as usize + 1;
            match dec_ok(&f, d, e, n, rm) {
                Some(true) => {}
                Some(false) => bad(w, if x.is_subnormal() { "value_subnormal" } else { "value" }, json!({"form": what, "text": short(&s), "e": e})),
                None => w.st.inconclusive += 1,
            }
        } else {
            let lg = base(rdx).trailing_zeros() as i64;
            let m = value_from_digits(d, rdx);
            let v = if m == 0 { Float::with_val(64, 0) } else { scaled(&m, (e - d.len() as i64) * lg) };
            let v = if x.is_negative() { -v } else { v };
            if v != f {
                bad(w, "value", json!({"form": what, "text": short(&s), "e": e}));
            }
        }
    }
    // reading it back
    if rdx != Radix::Dec {
        let Some((y, z)) = w.call(&j, |cc| (BigFloat::parse(&s, rdx, p, RoundingMode::ToEven, cc), BigFloat::parse(&s, rdx, usize::MAX, RoundingMode::ToEven, cc))) else {
            return;
        };
        if observe(&y) != observe(&x) {
            bad(w, "round_trip", json!({"text": short(&s), "back": show(&y)}));
        }
        if to_mpfr(&z).map(|v| v != f).unwrap_or(true) {
            bad(w, "round_trip_auto", json!({"text": short(&s), "back": show(&z)}));
        }
    }
    w.st.count(&format!("format:{}:{}", rname(rdx), if x.is_subnormal() { "subnormal" } else { "normal" }));
    w.nontrivial(&j);
}

/// Texts that are not numbers, or hardly: no panic, documented words recognized.
fn odd_text(r: &mut Rng, w: &mut Worker, _i: u64) {
    let rdx = *r.pick(&RADIXES);
    let words = ["inf", "Inf", "INF", "+inf", "-inf", "-Inf", "nan", "NaN", "-nan", "NAN"];
    if r.chance(1, 4) {
        let s = *r.pick(&words);
        let j = json!({"op": "parse", "s": s, "rdx": rname(rdx)});
        let Some(x) = w.call(&j, |cc| BigFloat::parse(s, rdx, 64, RoundingMode::ToEven, cc)) else { return };
        let l = s.to_lowercase();
        let ok = if l.contains("nan") { x.is_nan() } else { x.is_inf() && x.is_inf_neg() == l.starts_with('-') };
        if !ok {
            w.violate(format!("word:{}", l), json!({"case": j, "got": show(&x)}));
        }
        w.st.count("words");
        w.nontrivial(&j);
        return;
    }
    // zero in all spellings
    if r.chance(1, 3) {
        let mut s = String::new();
        if r.chance(1, 3) {
            s.push(*r.pick(&['+', '-']));
        }
        let (a, b) = (r.usize(0, 3), r.usize(0, 4));
        if a + b == 0 {
            return;
        }
        s.push_str(&"0".repeat(a));
        if b > 0 || r.chance(1, 2) {
            s.push('.');
        }
        s.push_str(&"0".repeat(b));
        if r.chance(2, 3) {
            if rdx == Radix::Hex {
                s.push('_');
            }
            s.push('e');
            if r.chance(1, 2) {
                s.push(*r.pick(&['+', '-']));
            }
            for _ in 0..r.usize(1, 11) {
                s.push(*r.pick(&['0', '1', '1']));
            }
        }
        let p = r.usize(1, 200);
        let j = json!({"op": "parse_zero", "s": s, "rdx": rname(rdx), "p": p});
        let Some(x) = w.call(&j, |cc| BigFloat::parse(&s, rdx, p, RoundingMode::ToEven, cc)) else { return };
        if !x.is_zero() || canonical(&x).is_err() || x.mantissa_max_bit_len() != Some(round_p(p)) || x.inexact() {
            w.violate(format!("zero:parse:{}", rname(rdx)), json!({"case": j, "got": show(&x), "canonical": format!("{:?}", canonical(&x))}));
        }
        w.st.count("zeroes");
        w.nontrivial(&j);
        return;
    }
    let alphabet = ['0', '1', '7', '9', 'a', 'f', 'F', '.', '.', '+', '-', 'e', 'E', '_', 'i', 'n', 'N', 'x', ' ', '\u{130}', '\u{0}', 'é'];
    let n = r.usize(0, 14);
    let s: String = (0..n).map(|_| *r.pick(&alphabet)).collect();
    let p = *r.pick(&[64usize, 1, 200, usize::MAX]);
    let rm = gen_rm(r);
    let j = json!({"op": "parse_odd", "s": s, "rdx": rname(rdx), "p": p});
    let Some(x) = w.call(&j, |cc| BigFloat::parse(&s, rdx, p, rm, cc)) else { return };
    if let Err(e) = canonical(&x) {
        w.violate(format!("canon:parse_odd:{}", rname(rdx)), json!({"case": j, "got": show(&x), "why": e}));
    }
    let _ = w.call(&j, |_| s.parse::<BigFloat>());
    w.st.count("odd_texts");
    w.nontrivial(&j);
}

pub fn run(cfg: &Config) -> i32 {
    let mul = if cfg.thorough() { 20 } else { 1 };
    let mut st = drive(cfg, "c08-parse", 300_000 * mul, 200.0, 60.0, |r, w, i| parse_case(r, w, i, false));
    st.merge(drive(cfg, "c08-parse-big", 600 * mul, 200.0, 100.0, |r, w, i| parse_case(r, w, i, true)));
    st.merge(drive(cfg, "c08-format", 120_000 * mul, 200.0, 60.0, |r, w, i| format_case(r, w, i, false)));
    st.merge(drive(cfg, "c08-format-big", 400 * mul, 200.0, 100.0, |r, w, i| format_case(r, w, i, true)));
    st.merge(drive(cfg, "c08-odd", 200_000 * mul, 200.0, 60.0, odd_text));
    finish(
        cfg,
        st,
        "texts and digit strings with random, repeated and near-tie digits, all spellings of sign, point and exponent, the whole exponent range; numbers \
         of all sizes printed and compared digit by digit with GMP; non-trivial: the value had to be rounded, or a number was printed, distinct by text and arguments",
        Default::default(),
        "exploration",
    )
}
