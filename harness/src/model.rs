//! Reference model: what a correctly rounded result looks like, bit for bit.
//!
//! A finite number is 0.m * 2^e with a mantissa of a whole number of 64-bit words, e in
//! EXPONENT_MIN..=EXPONENT_MAX; numbers at EXPONENT_MIN may be subnormal.

use astro_float_num::{BigFloat, Exponent, RoundingMode, Sign, EXPONENT_MAX, EXPONENT_MIN};
use rug::float::Round;
use rug::integer::Order;
use rug::{Float, Integer};
use serde_json::{json, Value};

pub const EMIN: i64 = EXPONENT_MIN as i64;
pub const EMAX: i64 = EXPONENT_MAX as i64;

pub const MODES: [RoundingMode; 6] = [
    RoundingMode::ToEven,
    RoundingMode::Up,
    RoundingMode::Down,
    RoundingMode::ToZero,
    RoundingMode::FromZero,
    RoundingMode::ToOdd,
];

pub fn round_p(p: usize) -> usize {
    p.div_ceil(64) * 64
}

/// Exact value of a result: nothing, or a value `v` and whether the true magnitude is
/// (infinitesimally, less than one ulp of `v`) larger than |v|.
#[derive(Clone, Debug)]
pub enum Ideal {
    Nan,
    Inf(bool),
    Zero,
    /// non-zero, but too small for any representable quantum to be near
    Tiny(bool),
    Num { v: Float, sticky: bool },
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Nan,
    Inf(bool),
    Zero,
    Num { neg: bool, e: i64, words: Vec<u64> },
}

/// Set MPFR's exponent range to the widest one in this thread.
pub fn widen_mpfr() {
    unsafe {
        let lo = gmp_mpfr_sys::mpfr::get_emin_min();
        let hi = gmp_mpfr_sys::mpfr::get_emax_max();
        gmp_mpfr_sys::mpfr::set_emin(lo);
        gmp_mpfr_sys::mpfr::set_emax(hi);
    }
}

pub fn words_to_int(w: &[u64]) -> Integer {
    Integer::from_digits(w, Order::Lsf)
}

/// Exact m * 2^k.
pub fn scaled(m: &Integer, k: i64) -> Float {
    let prec = (m.significant_bits()).max(2);
    let mut f = Float::with_val(prec, m);
    shift(&mut f, k);
    f
}

pub fn shift(f: &mut Float, k: i64) {
    if !f.is_zero() {
        unsafe {
            gmp_mpfr_sys::mpfr::mul_2si(
                f.as_raw_mut(),
                f.as_raw(),
                k as _,
                gmp_mpfr_sys::mpfr::rnd_t::RNDN,
            );
        }
    }
}

pub fn get_exp(f: &Float) -> i64 {
    unsafe { gmp_mpfr_sys::mpfr::get_exp(f.as_raw()) as i64 }
}

/// Integer mantissa and exponent: f = m * 2^k, f finite and not zero.
pub fn int_exp(f: &Float) -> (Integer, i64) {
    let mut z = Integer::new();
    let k = unsafe { gmp_mpfr_sys::mpfr::get_z_2exp(z.as_raw_mut(), f.as_raw()) };
    (z, k as i64)
}

/// Value of an astro-float number; None for NaN and Inf.
pub fn to_mpfr(x: &BigFloat) -> Option<Float> {
    let (m, _n, s, e, _i) = x.as_raw_parts()?;
    if m.iter().all(|w| *w == 0) {
        let z = Float::with_val(64, 0);
        return Some(if s == Sign::Neg { -z } else { z });
    }
    let z = words_to_int(m);
    let mut f = scaled(&z, e as i64 - 64 * m.len() as i64);
    if s == Sign::Neg {
        f = -f;
    }
    Some(f)
}

/// Observed result in the form the model produces.
pub fn observe(x: &BigFloat) -> Res {
    if x.is_nan() {
        return Res::Nan;
    }
    if x.is_inf() {
        return Res::Inf(x.is_inf_neg());
    }
    let (m, _n, s, e, _i) = x.as_raw_parts().unwrap();
    if x.is_zero() {
        return Res::Zero;
    }
    Res::Num { neg: s == Sign::Neg, e: e as i64, words: m.to_vec() }
}

/// Integer rounding of n/2^sh (n >= 0, plus something in (0,1) unit of n if sticky).
/// Returns the rounded value and whether it was inexact.
pub fn round_int(n: &Integer, sh: u32, sticky: bool, neg: bool, rm: RoundingMode) -> (Integer, bool) {
    let q = Integer::from(n >> sh);
    let low = Integer::from(n - Integer::from(&q << sh));
    let inexact = sticky || low != 0;
    if !inexact {
        return (q, false);
    }
    // position relative to half
    let cmp = if sh == 0 {
        std::cmp::Ordering::Less // only the sticky part; below half of a unit by contract
    } else {
        let half = Integer::from(1) << (sh - 1);
        match low.cmp(&half) {
            std::cmp::Ordering::Equal if sticky => std::cmp::Ordering::Greater,
            o => o,
        }
    };
    let inc = match rm {
        RoundingMode::None | RoundingMode::ToZero => false,
        RoundingMode::FromZero => true,
        RoundingMode::Up => !neg,
        RoundingMode::Down => neg,
        RoundingMode::ToEven => match cmp {
            std::cmp::Ordering::Less => false,
            std::cmp::Ordering::Greater => true,
            std::cmp::Ordering::Equal => q.is_odd(),
        },
        RoundingMode::ToOdd => match cmp {
            std::cmp::Ordering::Less => false,
            std::cmp::Ordering::Greater => true,
            std::cmp::Ordering::Equal => q.is_even(),
        },
    };
    (if inc { q + 1 } else { q }, true)
}

pub fn int_to_words(n: &Integer, len: usize) -> Vec<u64> {
    let mut v = n.to_digits::<u64>(Order::Lsf);
    assert!(v.len() <= len);
    v.resize(len, 0);
    v
}

/// A number format: bits of a word and the exponent range.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Fmt {
    pub wb: usize,
    pub emin: i64,
    pub emax: i64,
}

pub const F64: Fmt = Fmt { wb: 64, emin: EMIN, emax: EMAX };

impl Fmt {
    pub fn round_p(&self, p: usize) -> usize {
        p.div_ceil(self.wb) * self.wb
    }
}

/// A rounded result; the mantissa is an integer of `words * wb` bits.
#[derive(Clone, Debug, PartialEq)]
pub enum Res2 {
    Nan,
    Inf(bool),
    Zero,
    Num { neg: bool, e: i64, m: Integer },
}

/// The correctly rounded result with precision `p` bits (> 0) and mode `rm`,
/// and whether rounding lost information.
pub fn round_ideal(x: &Ideal, p: usize, rm: RoundingMode) -> (Res, bool) {
    let words = p.div_ceil(64);
    let (r, i) = round_fmt(x, p, rm, &F64);
    (
        match r {
            Res2::Nan => Res::Nan,
            Res2::Inf(n) => Res::Inf(n),
            Res2::Zero => Res::Zero,
            Res2::Num { neg, e, m } => Res::Num { neg, e, words: int_to_words(&m, words) },
        },
        i,
    )
}

pub fn round_fmt(x: &Ideal, p: usize, rm: RoundingMode, fmt: &Fmt) -> (Res2, bool) {
    assert!(p > 0);
    let (emin, emax) = (fmt.emin, fmt.emax);
    let pad = (fmt.round_p(p) - p) as u32;
    match x {
        Ideal::Nan => (Res2::Nan, false),
        Ideal::Inf(n) => (Res2::Inf(*n), false),
        Ideal::Zero => (Res2::Zero, false),
        Ideal::Tiny(neg) => {
            let up = match rm {
                RoundingMode::FromZero => true,
                RoundingMode::Up => !*neg,
                RoundingMode::Down => *neg,
                _ => false,
            };
            if up {
                (Res2::Num { neg: *neg, e: emin, m: Integer::from(1) << pad }, true)
            } else {
                (Res2::Zero, true)
            }
        }
        Ideal::Num { v, sticky } => {
            let neg = v.is_sign_negative();
            let (mut m, k) = int_exp(v);
            m.abs_mut();
            let bits = m.significant_bits() as i64;
            let e = bits + k; // v = 0.m * 2^e
            if e > emax {
                return (Res2::Inf(neg), true);
            }
            let q = e.max(emin) - p as i64; // exponent of the unit in the last place
            let (n, inexact) = if k >= q {
                // the value is a multiple of the quantum; a sticky part would need more bits
                assert!(!*sticky, "oracle precision too low");
                (m << ((k - q) as u32), false)
            } else {
                let sh = q - k;
                if sh > bits + 2 {
                    // far below half of the quantum: only its presence matters
                    round_int(&Integer::from(1), 3, true, neg, rm)
                } else {
                    round_int(&m, sh as u32, *sticky, neg, rm)
                }
            };
            if n == 0 {
                return (Res2::Zero, inexact);
            }
            let nb = n.significant_bits() as i64;
            let mut re = q + nb;
            let mut n = n;
            if re < emin {
                re = emin;
            } else if nb > p as i64 {
                // carry out of the mantissa: n is a power of two
                n >>= 1;
            } else {
                debug_assert!(re == emin || nb == p as i64);
            }
            if re > emax {
                return (Res2::Inf(neg), true);
            }
            (Res2::Num { neg, e: re, m: n << pad }, inexact)
        }
    }
}

/// Build Ideal from an MPFR computation done with rounding toward zero.
pub fn from_rndz(v: Float, ord: std::cmp::Ordering, sign_hint: bool) -> Ideal {
    if v.is_nan() {
        return Ideal::Nan;
    }
    if v.is_infinite() {
        return Ideal::Inf(v.is_sign_negative());
    }
    let sticky = ord != std::cmp::Ordering::Equal;
    if v.is_zero() {
        return if sticky { Ideal::Tiny(sign_hint || v.is_sign_negative()) } else { Ideal::Zero };
    }
    Ideal::Num { v, sticky }
}

pub const RNDZ: Round = Round::Zero;

pub fn rm_name(rm: RoundingMode) -> &'static str {
    match rm {
        RoundingMode::None => "None",
        RoundingMode::Up => "Up",
        RoundingMode::Down => "Down",
        RoundingMode::ToZero => "ToZero",
        RoundingMode::FromZero => "FromZero",
        RoundingMode::ToEven => "ToEven",
        RoundingMode::ToOdd => "ToOdd",
    }
}

pub fn rm_from(s: &str) -> RoundingMode {
    match s {
        "Up" => RoundingMode::Up,
        "Down" => RoundingMode::Down,
        "ToZero" => RoundingMode::ToZero,
        "FromZero" => RoundingMode::FromZero,
        "ToEven" => RoundingMode::ToEven,
        "ToOdd" => RoundingMode::ToOdd,
        _ => RoundingMode::None,
    }
}

/// A number written out for a replay file.
pub fn show(x: &BigFloat) -> Value {
    match x.as_raw_parts() {
        None => {
            if x.is_nan() {
                json!(format!("NaN({:?})", x.err()))
            } else if x.is_inf_pos() {
                json!("Inf")
            } else {
                json!("-Inf")
            }
        }
        Some((m, n, s, e, i)) => json!({
            "m": m.iter().map(|w| format!("{:016x}", w)).collect::<Vec<_>>(),
            "n": n, "s": s.to_int(), "e": e, "inexact": i
        }),
    }
}

pub fn unshow(v: &Value) -> BigFloat {
    if let Some(s) = v.as_str() {
        return match s {
            "Inf" => astro_float_num::INF_POS,
            "-Inf" => astro_float_num::INF_NEG,
            _ => astro_float_num::NAN,
        };
    }
    let m: Vec<u64> = v["m"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| u64::from_str_radix(x.as_str().unwrap(), 16).unwrap())
        .collect();
    let s = if v["s"].as_i64().unwrap() < 0 { Sign::Neg } else { Sign::Pos };
    BigFloat::from_raw_parts(
        &m,
        v["n"].as_u64().unwrap() as usize,
        s,
        v["e"].as_i64().unwrap() as Exponent,
        v["inexact"].as_bool().unwrap(),
    )
}

pub fn show_res(r: &Res) -> Value {
    match r {
        Res::Nan => json!("NaN"),
        Res::Inf(n) => json!(if *n { "-Inf" } else { "Inf" }),
        Res::Zero => json!("0"),
        Res::Num { neg, e, words } => json!({
            "m": words.iter().map(|w| format!("{:016x}", w)).collect::<Vec<_>>(),
            "s": if *neg { -1 } else { 1 }, "e": e
        }),
    }
}
