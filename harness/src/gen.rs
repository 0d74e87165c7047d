//! Generators of hostile numbers: structured mantissas, correlated operands, extreme exponents.

use crate::model::*;
use crate::rng::Rng;
use astro_float_num::{BigFloat, Exponent, RoundingMode, Sign};
use rug::{Float, Integer};

/// Number of words of a mantissa. `big` allows sizes that reach the subquadratic algorithms.
pub fn gen_len(r: &mut Rng, big: u32) -> usize {
    match r.below(100) {
        0..=34 => r.usize(1, 2),
        35..=69 => r.usize(2, 5),
        70..=89 => r.usize(5, 12),
        90..=96 => r.usize(12, 34),
        _ => match big {
            0 => r.usize(1, 16),
            1 => r.usize(30, 80),
            _ => *r.pick(&[33, 34, 40, 64, 65, 66, 71, 72, 90, 128, 140, 150, 221, 230]),
        },
    }
}

fn word(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => 0,
        1 => u64::MAX,
        2 => 1,
        3 => 1 << 63,
        4 => u64::MAX << r.below(64),
        5 => u64::MAX >> r.below(64),
        _ => r.u64(),
    }
}

/// Mantissa words (least significant first), top bit set.
pub fn gen_words(r: &mut Rng, len: usize) -> Vec<u64> {
    let mut v = vec![0u64; len];
    match r.below(10) {
        0 | 1 | 2 => {
            for w in v.iter_mut() {
                *w = r.u64();
            }
        }
        3 => {
            for w in v.iter_mut() {
                *w = word(r);
            }
        }
        4 | 5 => {
            // runs of ones and zeroes
            let n = len * 64;
            let mut pos = 0;
            let mut bit = r.chance(1, 2);
            while pos < n {
                let run = match r.below(4) {
                    0 => r.usize(1, 4),
                    1 => r.usize(1, 70),
                    2 => r.usize(50, 140),
                    _ => 64 * r.usize(1, 4),
                };
                if bit {
                    for b in pos..(pos + run).min(n) {
                        v[b / 64] |= 1 << (b % 64);
                    }
                }
                pos += run;
                bit = !bit;
            }
        }
        6 => {
            // few bits
            for _ in 0..r.usize(0, 4) {
                let b = r.usize(0, len * 64 - 1);
                v[b / 64] |= 1 << (b % 64);
            }
        }
        7 => {
            // nearly all ones
            v.fill(u64::MAX);
            for _ in 0..r.usize(0, 3) {
                let b = r.usize(0, len * 64 - 1);
                v[b / 64] &= !(1 << (b % 64));
            }
        }
        8 => {
            // short significand, trailing zero words
            let k = r.usize(1, len.min(2));
            for i in len - k..len {
                v[i] = r.u64();
            }
            if r.chance(1, 2) {
                v[len - 1] &= u64::MAX << r.below(64);
            }
        }
        _ => {
            // small integer
            let k = 1 + r.below(12);
            let mut w = r.below(1 << k).max(1);
            w <<= w.leading_zeros();
            v[len - 1] = w;
        }
    }
    // trailing patterns around the lowest word
    if r.chance(1, 8) {
        v[0] = *r.pick(&[0, 1, u64::MAX, 1 << 63, (1 << 63) - 1, (1 << 63) + 1]);
    }
    v[len - 1] |= 1 << 63;
    v
}

#[derive(Clone, Copy, PartialEq)]
pub enum ExpClass {
    /// around zero
    Small,
    /// a few hundred or thousand
    Mid,
    /// anything in the range
    Any,
    /// near the ends of the range
    Edge,
}

pub fn gen_exp(r: &mut Rng, c: ExpClass) -> i64 {
    match c {
        ExpClass::Small => r.range(-70, 70),
        ExpClass::Mid => r.range(-3000, 3000),
        ExpClass::Any => {
            let k = r.range(1, 31);
            let v = r.range(0, 1 << k);
            (if r.chance(1, 2) { v } else { -v }).clamp(EMIN, EMAX)
        }
        ExpClass::Edge => {
            let d = match r.below(3) {
                0 => r.range(0, 4),
                1 => r.range(0, 140),
                _ => r.range(0, 3000),
            };
            if r.chance(1, 2) {
                EMIN + d
            } else {
                EMAX - d
            }
        }
    }
}

pub fn sign(neg: bool) -> Sign {
    if neg {
        Sign::Neg
    } else {
        Sign::Pos
    }
}

pub fn build(words: &[u64], neg: bool, e: i64, inexact: bool) -> BigFloat {
    let x = BigFloat::from_raw_parts(words, words.len() * 64, sign(neg), e as Exponent, inexact);
    debug_assert!(!x.is_nan());
    x
}

/// Subnormal number with `len` words and `bits` significant bits.
pub fn gen_subnormal(r: &mut Rng, len: usize) -> BigFloat {
    let bits = match r.below(4) {
        0 => r.usize(1, 3.min(len * 64 - 1)),
        1 => (len * 64 - r.usize(1, 4)).max(1),
        2 => (64 * r.usize(1, len)).min(len * 64 - 1),
        _ => r.usize(1, len * 64 - 1),
    };
    let mut z = words_to_int(&gen_words(r, len));
    z >>= (len * 64 - bits) as u32;
    let w = int_to_words(&z, len);
    let neg = r.chance(1, 2);
    let inx = r.chance(1, 8);
    BigFloat::from_raw_parts(&w, bits, sign(neg), EMIN as Exponent, inx)
}

pub struct NumOpts {
    pub len: usize,
    pub exp: ExpClass,
    pub subnormal: bool,
    pub zero: bool,
    pub inexact: bool,
}

pub fn gen_num(r: &mut Rng, o: &NumOpts) -> BigFloat {
    if o.zero && r.chance(1, 40) {
        let mut z = BigFloat::new(o.len * 64);
        if r.chance(1, 2) {
            z.set_sign(Sign::Neg);
        }
        return z;
    }
    if o.subnormal && r.chance(1, 30) {
        return gen_subnormal(r, o.len);
    }
    let w = gen_words(r, o.len);
    let e = gen_exp(r, o.exp);
    let neg = r.chance(1, 2);
    let inx = o.inexact && r.chance(1, 8);
    build(&w, neg, e, inx)
}

/// Round an MPFR value to `len` words and make a number of it, None when out of range.
pub fn from_mpfr(v: &Float, len: usize) -> Option<BigFloat> {
    if v.is_nan() || v.is_infinite() {
        return None;
    }
    if v.is_zero() {
        return Some(BigFloat::new(len * 64));
    }
    let p = (len * 64) as u32;
    let f = Float::with_val(p, v);
    let (m, k) = int_exp(&f);
    let neg = m < 0;
    let m: Integer = m.abs();
    let bits = m.significant_bits();
    let e = bits as i64 + k;
    if !(EMIN..=EMAX).contains(&e) {
        return None;
    }
    let m = m << (p - bits);
    Some(build(&int_to_words(&m, len), neg, e, false))
}

/// Integer significand `m` (any size that fits `len` words) scaled to exponent e: 0.m * 2^e.
pub fn from_int(m: &Integer, neg: bool, e: i64, len: usize) -> Option<BigFloat> {
    if *m == 0 {
        return None;
    }
    let bits = m.significant_bits() as usize;
    if bits > len * 64 || !(EMIN..=EMAX).contains(&e) {
        return None;
    }
    let z = Integer::from(m << (len * 64 - bits) as u32);
    Some(build(&int_to_words(&z, len), neg, e, false))
}

/// Random integer with exactly `bits` bits.
pub fn gen_bits(r: &mut Rng, bits: usize) -> Integer {
    let len = bits.div_ceil(64);
    let w = gen_words(r, len);
    let mut z = words_to_int(&w);
    z >>= (len * 64 - bits) as u32;
    z
}

/// Result precision related to operand lengths.
pub fn gen_p(r: &mut Rng, lens: &[usize]) -> usize {
    let base = *r.pick(lens);
    let p = match r.below(8) {
        0 => base * 64,
        1 => base * 64,
        2 => (base * 64).saturating_sub(64).max(1),
        3 => base * 64 + 64,
        4 => lens.iter().sum::<usize>() * 64,
        5 => r.usize(1, base * 64 + 64),
        6 => r.usize(1, 4) * 64,
        _ => r.usize(1, 2 * base) * 64,
    };
    p.max(1)
}

pub fn gen_rm(r: &mut Rng) -> RoundingMode {
    *r.pick(&MODES)
}

/// y = x with its significand changed by a few units in some place.
pub fn perturb(r: &mut Rng, x: &BigFloat) -> BigFloat {
    let (m, _n, s, e, _i) = match x.as_raw_parts() {
        Some(p) => p,
        None => return x.clone(),
    };
    if x.is_zero() || x.is_subnormal() {
        return x.clone();
    }
    let mut len = m.len();
    let mut z = words_to_int(m);
    if r.chance(1, 3) {
        let add = r.usize(0, 2);
        z <<= (64 * add) as u32;
        len += add;
    }
    let pos = match r.below(3) {
        0 => 0,
        1 => r.usize(0, len * 64 - 1),
        _ => r.usize(0, (len * 64 - 1).min(70)),
    };
    let d = Integer::from(r.below(3)) << pos as u32;
    if r.chance(1, 2) {
        z += d;
    } else {
        z -= d;
    }
    if z <= 0 {
        return x.clone();
    }
    let bits = z.significant_bits() as usize;
    if bits > len * 64 {
        return x.clone();
    }
    let ne = e as i64 + bits as i64 - (len * 64) as i64;
    from_int(&z, s == Sign::Neg, ne, len).unwrap_or_else(|| x.clone())
}
