//! Case generators per operation.

use crate::gen::*;
use crate::model::*;
use crate::ops::*;
use crate::rng::Rng;
use astro_float_num::{BigFloat, Exponent, Sign};
use rug::{Float, Integer};

fn opts(len: usize, exp: ExpClass) -> NumOpts {
    NumOpts { len, exp, subnormal: true, zero: true, inexact: true }
}

fn class(r: &mut Rng) -> ExpClass {
    match r.below(20) {
        0..=11 => ExpClass::Small,
        12..=14 => ExpClass::Mid,
        15..=17 => ExpClass::Edge,
        _ => ExpClass::Any,
    }
}

fn set_e(x: &mut BigFloat, e: i64) {
    if !x.is_subnormal() && !x.is_zero() {
        x.set_exponent(e.clamp(EMIN, EMAX) as Exponent);
    }
}

fn exp_of(x: &BigFloat) -> i64 {
    x.exponent().unwrap_or(0) as i64
}

fn len_of(x: &BigFloat) -> usize {
    (x.mantissa_max_bit_len().unwrap_or(64) / 64).max(1)
}

/// A result exponent near an end of the range.
fn edge_target(r: &mut Rng, p: usize) -> i64 {
    match r.below(6) {
        0 => EMIN - p as i64 + r.range(-3, 3),
        1 => EMIN - r.range(0, p as i64),
        2 => EMIN + r.range(-2, 2),
        3 => EMIN - 64 * r.range(0, (p / 64) as i64) + r.range(-1, 1),
        _ => EMAX + r.range(-2, 2),
    }
}

pub fn gen_arith(r: &mut Rng, op: Op, big: u32) -> Case {
    let rm = gen_rm(r);
    let la = gen_len(r, big);
    let lb = if r.chance(1, 2) { la } else { gen_len(r, big) };
    let cls = class(r);
    let mut a = gen_num(r, &opts(la, cls));
    let clsb = if r.chance(2, 3) { cls } else { class(r) };
    let mut b = gen_num(r, &opts(lb, clsb));
    let mut p = gen_p(r, &[la, lb]);
    match op {
        Op::Add | Op::Sub => {
            match r.below(8) {
                0 | 1 => {
                    // overlapping operands
                    let span = (la.max(lb) * 64) as i64 + 70;
                    let e = exp_of(&a) + r.range(-span, span);
                    set_e(&mut b, e);
                }
                2 => {
                    // shifts by whole words, give or take one
                    let k = r.range(-(lb as i64) - 1, lb as i64 + 1) * 64 + r.range(-1, 1);
                    let e = exp_of(&a) + k;
                    set_e(&mut b, e);
                }
                3 | 4 => {
                    // cancellation
                    b = perturb(r, &a);
                    if r.chance(1, 3) {
                        let d = r.range(-2, 2);
                        let e = exp_of(&b) + d;
                        set_e(&mut b, e);
                    }
                }
                5 | 6 => {
                    // tie or nearly: b is half a unit of a at precision p, or p +- few
                    let pr = round_p(p) as i64;
                    let m = match r.below(4) {
                        0 => Integer::from(1),
                        1 => (Integer::from(1) << r.usize(1, lb * 64 - 1) as u32) + 1,
                        2 => (Integer::from(1) << r.usize(1, lb * 64 - 1) as u32) - 1,
                        _ => Integer::from(r.below(7) + 1),
                    };
                    let e = exp_of(&a) - pr + r.range(-1, 2);
                    let e = if e < EMIN { exp_of(&a) } else { e };
                    if let Some(x) = from_int(&m, r.chance(1, 2), e, lb.max((m.significant_bits() as usize).div_ceil(64))) {
                        b = x;
                    }
                }
                _ => {
                    if r.chance(1, 4) {
                        // far apart
                        let k = r.range(1, 32);
                        let e = exp_of(&a) - r.range(0, 1 << k);
                        set_e(&mut b, e);
                    }
                }
            }
            if r.chance(1, 2) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        Op::Mul => match r.below(10) {
            0 => {
                // exact product with p+1 or so bits
                let pr = round_p(p);
                let k = r.usize(1, pr);
                let (ba, bb) = (k, (pr + r.usize(0, 3)).saturating_sub(k).max(1));
                let (x, y) = (gen_bits(r, ba), gen_bits(r, bb));
                if let Some(v) = from_int(&x, r.chance(1, 2), exp_of(&a), ba.div_ceil(64)) {
                    a = v;
                }
                if let Some(v) = from_int(&y, r.chance(1, 2), exp_of(&b), bb.div_ceil(64)) {
                    b = v;
                }
            }
            1 => {
                // all ones
                a = build(&vec![u64::MAX; la], false, exp_of(&a), false);
                if r.chance(1, 2) {
                    b = build(&vec![u64::MAX; lb], r.chance(1, 2), exp_of(&b), false);
                }
            }
            2 | 3 => {
                let t = edge_target(r, round_p(p));
                let ea = gen_exp(r, ExpClass::Any).max(t - EMAX).min(t - EMIN).clamp(EMIN, EMAX);
                set_e(&mut a, ea);
                set_e(&mut b, t - ea);
            }
            4 => {
                b = perturb(r, &a);
            }
            5 => b = a.clone(),
            _ => {}
        },
        Op::Div => match r.below(10) {
            0..=2 => {
                // a = q * b, perhaps off by a little: exact quotients and near ties
                let pr = round_p(p);
                let qb = pr.min(64 * 60) + r.usize(0, 2) - r.usize(0, 1);
                let q = gen_bits(r, qb);
                if let (Some((m, ..)), false) = (b.as_raw_parts(), b.is_zero()) {
                    let d = words_to_int(m);
                    let mut n = Integer::from(&q * &d);
                    match r.below(4) {
                        0 => n += 1,
                        1 => n -= 1,
                        2 => n += Integer::from(&d >> 1u32),
                        _ => {}
                    }
                    if n > 0 {
                        let l = (n.significant_bits() as usize).div_ceil(64);
                        if let Some(v) = from_int(&n, r.chance(1, 2), exp_of(&a), l) {
                            a = v;
                        }
                    }
                }
            }
            3 => {
                // division by a power of two or small integer
                let w = r.below(8) + 1;
                if let Some(v) = from_int(&Integer::from(w), r.chance(1, 2), exp_of(&b), lb) {
                    b = v;
                }
            }
            4 => b = build(&vec![u64::MAX; lb], r.chance(1, 2), exp_of(&b), false),
            5 | 6 => {
                let t = edge_target(r, round_p(p));
                let ea = gen_exp(r, ExpClass::Any).max(t + EMIN).min(t + EMAX).clamp(EMIN, EMAX);
                set_e(&mut a, ea);
                set_e(&mut b, ea - t);
            }
            7 => b = perturb(r, &a),
            _ => {}
        },
        Op::Recip => match r.below(6) {
            0 => {
                let w = r.below(64) + 1;
                if let Some(v) = from_int(&Integer::from(w), r.chance(1, 2), exp_of(&a), la) {
                    a = v;
                }
            }
            1 => {
                a = build(&vec![u64::MAX; la], r.chance(1, 2), exp_of(&a), false);
            }
            2 => {
                let t = edge_target(r, round_p(p));
                set_e(&mut a, -t);
            }
            _ => {}
        },
        Op::Sqrt | Op::Cbrt => {
            let k = if op == Op::Sqrt { 2u32 } else { 3 };
            if op == Op::Sqrt && !r.chance(1, 30) {
                a.set_sign(Sign::Pos);
            }
            match r.below(8) {
                6 | 7 => {
                    // a root which is extremely close to a short number or to a tie
                    let pr = round_p(p);
                    let qb = match r.below(4) {
                        0 => pr,
                        1 => pr + 1,
                        2 => r.usize(8, 130),
                        _ => r.usize(8, pr + 2),
                    };
                    let n = near_power(r, k, qb.min(64 * 20 + 1));
                    let l = (n.significant_bits() as usize).div_ceil(64) + r.usize(0, 1);
                    let e = n.significant_bits() as i64 + k as i64 * r.range(-40, 40) + (r.below(k as u64) as i64);
                    if let Some(v) = from_int(&n, op == Op::Cbrt && r.chance(1, 2), e, l.max(1)) {
                        a = v;
                    }
                }
                0..=2 => {
                    let pr = round_p(p);
                    let qb = match r.below(4) {
                        0 => r.usize(1, 70),
                        1 => pr,
                        2 => pr + 1,
                        _ => r.usize(1, pr + 2),
                    };
                    let q = gen_bits(r, qb);
                    use rug::ops::Pow;
                    let mut n = Integer::from((&q).pow(k));
                    match r.below(5) {
                        0 => n += 1,
                        1 => n -= 1,
                        _ => {}
                    }
                    let l = (n.significant_bits() as usize).div_ceil(64) + r.usize(0, 1);
                    // keep the value a perfect power: the integer's exponent is its bit count plus k*j
                    let e = n.significant_bits() as i64 + k as i64 * r.range(-40, 40);
                    if let Some(v) = from_int(&n, op == Op::Cbrt && r.chance(1, 2), e, l.max(1)) {
                        a = v;
                    }
                }
                _ => {}
            }
        }
        Op::SetPrec => match r.below(4) {
            0..=1 => {
                // tail after p bits is a tie, nearly a tie, all ones or zeroes
                if la >= 2 && !a.is_zero() && !a.is_subnormal() {
                    let (m, _n, s, e, i) = a.as_raw_parts().unwrap();
                    let mut w = m.to_vec();
                    let k = r.usize(1, la - 1); // kept words
                    p = k * 64 - r.usize(0, 63);
                    let tail = la - k;
                    match r.below(5) {
                        0 => {
                            w[..tail].fill(0);
                            w[tail - 1] = 1 << 63;
                        }
                        1 => {
                            w[..tail].fill(0);
                            w[tail - 1] = 1 << 63;
                            w[0] |= 1;
                        }
                        2 => {
                            w[..tail].fill(u64::MAX);
                            w[tail - 1] >>= 1;
                        }
                        3 => w[..tail].fill(u64::MAX),
                        _ => {
                            w[..tail].fill(0);
                            w[0] = 1;
                        }
                    }
                    if r.chance(1, 3) {
                        w[tail..].fill(u64::MAX);
                    }
                    a = build(&w, s == Sign::Neg, e as i64, i);
                }
            }
            2 => {
                a = gen_subnormal(r, la);
                p = r.usize(1, la * 64 + 64);
            }
            _ => {}
        },
        _ => {}
    }
    let mut c = Case::new2(op, a, b, p, rm);
    if op == Op::Powi {
        powi_args(r, &mut c);
    }
    c
}

/// A number whose k-th root (k = 2, 3) times a power of two is `bits` long but for a distance far below the
/// last digit: s^k - c divided by the power of two which divides it.
fn near_power(r: &mut Rng, k: u32, bits: usize) -> Integer {
    use rug::ops::Pow;
    let t = (bits - 2) as u32;
    let c: i64 = if k == 2 {
        // squares modulo a power of two
        8 * r.range(-4, 4) + 1
    } else {
        2 * r.range(-8, 8) + 1
    };
    let mut s = Integer::from(1);
    // s^k = c modulo 2^t, digit by digit
    for i in 1..t {
        let d = Integer::from((&s).pow(k)) - c;
        let known = if k == 2 { i + 1 } else { i };
        if known < t && !d.is_divisible_2pow(known + 1) {
            s += Integer::from(1) << i;
        }
    }
    // the digits which are left
    s.keep_bits_mut(t);
    s += Integer::from(1) << (bits as u32 - 1);
    if k == 3 || r.chance(1, 2) {
        let j = r.below(2) as u32;
        s += Integer::from(j) << (bits as u32 - 2);
    }
    let mut n = s.pow(k) - c;
    let z = n.find_one(0).unwrap_or(0);
    n >>= z;
    n
}

fn powi_args(r: &mut Rng, c: &mut Case) {
    let la = if r.chance(3, 4) { r.usize(1, 6) } else { r.usize(6, 20) };
    let cls = if r.chance(3, 4) { ExpClass::Small } else { ExpClass::Mid };
    c.a = gen_num(r, &opts(la, cls));
    c.p = gen_p(r, &[la]);
    c.n = match r.below(8) {
        0 => r.usize(0, 3),
        1 | 2 => r.usize(2, 20),
        3 => r.usize(2, 300),
        4 => (1usize << r.usize(0, 16)) + r.usize(0, 2) - 1,
        5 => r.usize(0, 1 << 20),
        6 => {
            // near one: a = 1 +- tiny, big exponent
            let mut w = vec![0u64; la];
            w[la - 1] = 1 << 63;
            w[0] |= r.u64() >> r.below(64);
            if la == 1 {
                w[0] |= 1 << 63;
            }
            c.a = build(&w, r.chance(1, 2), 1, false);
            r.usize(0, 1 << 30)
        }
        _ => {
            // result around the ends of the range
            let e = exp_of(&c.a);
            let t = if r.chance(1, 2) { EMAX } else { -EMIN };
            if e.abs() > 1 {
                ((t / e.abs()) + r.range(-2, 2)).max(0) as usize
            } else {
                r.usize(0, 1000)
            }
        }
    };
    if r.chance(1, 4) {
        // small base: exact powers, ties
        let b = r.usize(1, 64);
        let m = gen_bits(r, b);
        if let Some(v) = from_int(&m, r.chance(1, 2), exp_of(&c.a), 1) {
            c.a = v;
        }
    }
}

fn flen(r: &mut Rng, thorough: bool) -> usize {
    match r.below(100) {
        0..=39 => r.usize(1, 2),
        40..=79 => r.usize(2, 4),
        80..=95 => r.usize(4, 9),
        _ => {
            if thorough {
                r.usize(9, 40)
            } else {
                r.usize(9, 16)
            }
        }
    }
}

fn simple(r: &mut Rng, len: usize) -> BigFloat {
    // value with a short significand
    let k = r.range(1, 16);
    let m = Integer::from(r.below(1 << k) + 1);
    let e = m.significant_bits() as i64 - r.range(-3, 8);
    from_int(&m, r.chance(1, 2), e, len).unwrap()
}

pub fn scales(op: Op) -> bool {
    !matches!(op, Op::Pow | Op::ConstPi | Op::ConstE | Op::ConstLn2 | Op::ConstLn10)
}

/// Moves the argument to where the function changes its character for results of `p` bits:
/// for the exponential functions a value proportional to `p` (there e^-2x is about one unit of the last digit),
/// for the others an exponent proportional to `p`. Half of the values are next to a power of two.
pub fn scale_with_p(r: &mut Rng, op: Op, a: &mut BigFloat, p: usize) {
    if a.is_zero() || a.is_nan() || a.is_inf() || a.is_subnormal() || p == 0 {
        return;
    }
    let sign = a.sign().unwrap_or(Sign::Pos);
    let len = a.mantissa_max_bit_len().unwrap_or(64) / 64;
    let ln2 = 0.693147f64;
    match op {
        Op::Exp | Op::Sinh | Op::Cosh | Op::Tanh => {
            // e^-kx against 2^-p
            let k = *r.pick(&[1.0f64, 2.0, 2.0, 3.0]);
            let mut t = p as f64 * ln2 / k * (0.5 + r.below(10000) as f64 / 10000.0 * 0.7);
            if r.chance(1, 3) {
                t = p as f64 * ln2 / k + r.range(-70, 70) as f64 + 0.25;
            }
            let mut t = t.abs().max(1.0);
            if r.chance(1, 2) {
                let e = t.log2().floor();
                t = e.exp2() * (1.0 + r.below(1 << 20) as f64 / (1u64 << 20) as f64 / r.usize(4, 64) as f64);
            }
            let x = Float::with_val(53, t);
            if let Some(y) = from_mpfr(&x, len) {
                *a = if r.chance(1, 2) { perturb(r, &y) } else { y };
            }
        }
        _ => {
            let (n, d) = *r.pick(&[(1i64, 1i64), (1, 2), (1, 3), (1, 4), (1, 5), (2, 3), (2, 1), (1, 6), (1, 8)]);
            let mut e = p as i64 * n / d + match r.below(3) {
                0 => 0,
                1 => r.range(-3, 3),
                _ => r.range(-66, 66),
            };
            let up = matches!(op, Op::Asinh | Op::Acosh | Op::Atan | Op::Ln | Op::Log2 | Op::Log10 | Op::Log);
            if !up || (op != Op::Acosh && r.chance(1, 2)) {
                e = -e;
            }
            if op == Op::Acosh {
                e = e.max(1);
            }
            if matches!(op, Op::Asin | Op::Acos | Op::Atanh) {
                e = e.min(0);
            }
            set_e(a, e);
            if r.chance(1, 4) && !a.is_zero() {
                // power of two, or next to it
                if let Some(y) = from_int(&Integer::from(1), false, e, len) {
                    *a = if r.chance(1, 2) { perturb(r, &y) } else { y };
                }
            }
        }
    }
    a.set_sign(if op == Op::Acosh { Sign::Pos } else { sign });
}

/// Case for a transcendental function, inside or at the boundary of its domain.
pub fn gen_fun(r: &mut Rng, op: Op, thorough: bool) -> Case {
    let rm = gen_rm(r);
    let len = flen(r, thorough);
    let mut p = match r.below(6) {
        0..=2 => len * 64,
        3 => flen(r, thorough) * 64,
        4 => (len * 64).saturating_sub(r.usize(0, 63)).max(1),
        _ => len * 64 + 64,
    };
    let o = |e| NumOpts { len, exp: e, subnormal: false, zero: true, inexact: true };
    let mut b = BigFloat::new(64);
    let mut a = match r.below(10) {
        0 => simple(r, len),
        1..=6 => {
            let mut x = gen_num(r, &o(ExpClass::Small));
            let e = r.range(-6, 6);
            set_e(&mut x, e);
            x
        }
        7 => gen_num(r, &o(ExpClass::Small)),
        8 => {
            // tiny arguments, around the thresholds of the shortcuts: exponent about -p/k
            let mut x = gen_num(r, &o(ExpClass::Small));
            let k = *r.pick(&[1i64, 2, 3]);
            let e = -(round_p(p).max(len * 64) as i64) / k + r.range(-70, 70) / k;
            set_e(&mut x, e.min(5));
            x
        }
        _ => {
            let mut x = gen_num(r, &o(ExpClass::Mid));
            if exp_of(&x) > 0 {
                let e = r.range(0, 40);
                set_e(&mut x, e);
            }
            x
        }
    };
    let wide = |r: &mut Rng, a: &mut BigFloat| {
        let cl = if r.chance(1, 2) { ExpClass::Any } else { ExpClass::Edge };
        let e = gen_exp(r, cl);
        set_e(a, e);
    };
    let near_one = |r: &mut Rng, len: usize| -> BigFloat {
        // 1 +- 2^-k ...
        let bits = (len * 64) as u32;
        let k = r.usize(1, len * 64 - 1) as u32;
        let one = Integer::from(1) << (bits - 1);
        let d = Integer::from(r.below(5) + 1) << (bits - 1 - k);
        if r.chance(1, 2) {
            let m = Integer::from(&one + &d);
            let e = m.significant_bits() as i64 - bits as i64 + 1;
            if m.significant_bits() > bits {
                from_int(&Integer::from(&one + 1), false, 1, len).unwrap()
            } else {
                from_int(&m, false, e, len).unwrap()
            }
        } else {
            let one2 = Integer::from(&one << 1u32);
            let m = Integer::from(&one2 - &d);
            if m <= 0 {
                return BigFloat::from_word(1, len * 64);
            }
            let m = if m.significant_bits() > bits { m >> 1 } else { m };
            from_int(&m, false, 0, len).unwrap_or_else(|| BigFloat::from_word(1, len * 64))
        }
    };
    match op {
        Op::Exp | Op::Sinh | Op::Cosh => match r.below(8) {
            0 => {
                // around overflow and underflow: |x| about 2^31 ln 2
                let t = Float::with_val(128, rug::float::Constant::Log2) * EMAX;
                let x = t + r.range(-200, 200);
                a = from_mpfr(&x, len).unwrap();
                if r.chance(1, 2) {
                    a.inv_sign();
                }
                if r.chance(1, 2) {
                    a = perturb(r, &a);
                }
            }
            1 => {
                let e = r.range(6, 32);
                set_e(&mut a, e);
            }
            2 => {
                let e = gen_exp(r, ExpClass::Any).min(0);
                set_e(&mut a, e);
            }
            _ => {}
        },
        Op::Tanh => match r.below(6) {
            0 => {
                let e = r.range(4, 12);
                set_e(&mut a, e);
            }
            1 => wide(r, &mut a),
            _ => {}
        },
        Op::Asinh | Op::Atan => match r.below(6) {
            0 => wide(r, &mut a),
            1 => {
                let e = r.range(0, 200);
                set_e(&mut a, e);
            }
            _ => {}
        },
        Op::Ln | Op::Log2 | Op::Log10 => {
            if !r.chance(1, 50) {
                a.set_sign(Sign::Pos);
            }
            match r.below(8) {
                0 | 1 => a = near_one(r, len),
                2 => wide(r, &mut a),
                3 => {
                    // powers of two and ten
                    if op == Op::Log10 {
                        use rug::ops::Pow;
                        let k = r.below(60) as u32;
                        let t = Integer::from(10).pow(k);
                        let mut l = (t.significant_bits() as usize).div_ceil(64);
                        if r.chance(1, 4) {
                            l += 1;
                        }
                        a = from_int(&t, false, t.significant_bits() as i64, l).unwrap();
                        if r.chance(1, 3) {
                            a = perturb(r, &a);
                        }
                    } else {
                        let e = r.range(-2000, 2000);
                        a = from_int(&Integer::from(1), false, e, len).unwrap();
                        if r.chance(1, 3) {
                            a = perturb(r, &a);
                        }
                    }
                }
                4 => a = gen_subnormal(r, len),
                _ => {}
            }
            if !r.chance(1, 50) {
                a.set_sign(Sign::Pos);
            }
        }
        Op::Asin | Op::Acos | Op::Atanh => match r.below(6) {
            0 | 1 => {
                a = near_one(r, len);
                if exp_of(&a) > 0 && !r.chance(1, 10) {
                    a = a.reciprocal(len * 64, astro_float_num::RoundingMode::ToZero);
                }
                if r.chance(1, 2) {
                    a.inv_sign();
                }
            }
            2 if r.chance(1, 10) => {
                a = BigFloat::from_i8(if r.chance(1, 2) { 1 } else { -1 }, 64);
            }
            2 => {
                let e = gen_exp(r, ExpClass::Any).min(0);
                set_e(&mut a, e);
            }
            _ => {
                let e = r.range(-8, 0);
                set_e(&mut a, e);
            }
        },
        Op::Acosh => {
            a.set_sign(Sign::Pos);
            match r.below(5) {
                0 | 1 => {
                    a = near_one(r, len);
                    if exp_of(&a) < 1 && !r.chance(1, 20) {
                        let e = exp_of(&a) + 1;
                        set_e(&mut a, e);
                    }
                }
                2 => {
                    let e = gen_exp(r, ExpClass::Any).abs().max(1);
                    set_e(&mut a, e);
                }
                _ => {
                    let e = r.range(1, 60);
                    set_e(&mut a, e);
                }
            }
        }
        Op::Sin | Op::Cos | Op::Tan => match r.below(6) {
            0 | 1 => {
                // near multiples of pi/2 (pi/4)
                let j = r.range(1, 20);
                let k = r.range(1, 1 << j);
                let den = *r.pick(&[1i64, 2, 2, 4]);
                let pi = Float::with_val((len * 64 + 200) as u32, rug::float::Constant::Pi);
                let x = pi * k / den;
                a = from_mpfr(&x, len).unwrap();
                if r.chance(1, 2) {
                    a.inv_sign();
                }
                if r.chance(1, 3) {
                    a = perturb(r, &a);
                }
            }
            2 => {
                let e = match r.below(if thorough { 20 } else { 60 }) {
                    0 => r.range(3000, if thorough { 300_000 } else { 30_000 }),
                    1..=3 => r.range(700, 9000),
                    _ => r.range(2, 700),
                };
                set_e(&mut a, e);
            }
            3 if r.chance(1, 2) => {
                let e = gen_exp(r, ExpClass::Any).min(0);
                set_e(&mut a, e);
            }
            _ => {}
        },
        Op::Log => {
            a.set_sign(Sign::Pos);
            b = match r.below(6) {
                0 => BigFloat::from_u32(r.below(40) as u32 + 2, 64),
                1 => near_one(r, len),
                2 => a.clone(),
                _ => {
                    let mut x = gen_num(r, &o(ExpClass::Small));
                    let e = r.range(-10, 10);
                    set_e(&mut x, e);
                    x
                }
            };
            b.set_sign(Sign::Pos);
            match r.below(6) {
                0 => a = near_one(r, len),
                1 | 2 => {
                    // exact: a = b^k
                    let k = r.usize(1, 12);
                    let bb = r.below(60) as u32 + 2;
                    b = BigFloat::from_u32(bb, 64);
                    use rug::ops::Pow;
                    let t = Integer::from(bb).pow(k as u32);
                    let l = (t.significant_bits() as usize).div_ceil(64);
                    a = from_int(&t, false, t.significant_bits() as i64, l).unwrap();
                    if r.chance(1, 3) {
                        a = perturb(r, &a);
                    }
                }
                3 => {
                    let e = gen_exp(r, ExpClass::Any);
                    set_e(&mut a, e);
                }
                _ => {}
            }
            a.set_sign(Sign::Pos);
        }
        Op::Pow => {
            b = match r.below(6) {
                0 => {
                    let k = r.range(-30, 30) as i32;
                    BigFloat::from_i32(k, 64)
                }
                1 => simple(r, len.min(2)),
                _ => {
                    let mut x = gen_num(r, &o(ExpClass::Small));
                    let e = r.range(-6, 6);
                    set_e(&mut x, e);
                    x
                }
            };
            match r.below(10) {
                0 => a = near_one(r, len),
                1 | 2 => {
                    // exact: a = c^(2^j) , b = m/2^j
                    let j = r.below(3) as u32;
                    let cb = r.usize(1, 20);
                    let c = gen_bits(r, cb);
                    use rug::ops::Pow;
                    let t = Integer::from((&c).pow(1 << j));
                    let l = (t.significant_bits() as usize).div_ceil(64);
                    let e = t.significant_bits() as i64 + (1i64 << j) * r.range(-8, 8);
                    a = from_int(&t, false, e, l).unwrap();
                    let m = Integer::from(r.below(12) + 1);
                    let eb = m.significant_bits() as i64 - j as i64;
                    b = from_int(&m, r.chance(1, 3), eb, 1).unwrap();
                }
                3 => {
                    // result around the ends of the range
                    a.set_sign(Sign::Pos);
                    if !a.is_zero() {
                        if let Some(x) = to_mpfr(&a) {
                            let l = Float::with_val(128, x.log2_ref());
                            if !l.is_zero() {
                                let t = if r.chance(1, 2) { EMAX } else { EMIN - (p as i64) / 2 };
                                let q = Float::with_val(128, Float::with_val(64, t) / &l) + Float::with_val(64, r.range(-3, 3));
                                if let Some(x) = from_mpfr(&q, len.min(2)) {
                                    b = x;
                                }
                            }
                        }
                    }
                }
                4 => {
                    let e = gen_exp(r, ExpClass::Any);
                    set_e(&mut a, e);
                    let e = r.range(-40, 10);
                    set_e(&mut b, e);
                }
                5 if r.chance(1, 2) => {
                    // base of any sign next to one or a power of two, large integer power of any parity
                    let k = r.usize(1, 3);
                    let mut w = gen_words(r, k);
                    w[k - 1] |= 1 << 63;
                    let e = 64 * k as i64 + *r.pick(&[0i64, 0, 0, 1, -1, -2, 3]);
                    b = build(&w, r.chance(1, 2), e, false);
                    let l = k + r.usize(1, 2);
                    let mut m = vec![0u64; l];
                    m[l - 1] = 1 << 63;
                    if r.chance(3, 4) {
                        // 1 + d, d * b up to 2^30
                        let pos = (64 * (l - k)) as i64 + 25 - r.range(0, 24);
                        let pos = pos.clamp(0, 64 * l as i64 - 2) as usize;
                        m[pos / 64] |= 1 << (pos % 64);
                        if pos > 64 {
                            m[0] = r.u64();
                        }
                    }
                    a = build(&m, r.chance(3, 4), 1, false);
                    if r.chance(1, 3) {
                        // below one
                        a = a.reciprocal(64 * l, astro_float_num::RoundingMode::ToEven);
                    }
                }
                5 => {
                    // integer power, negative base
                    b = BigFloat::from_i32(r.range(-40, 40) as i32, 64);
                    a.set_sign(Sign::Neg);
                }
                6 => {
                    // result close to one
                    let e = -r.range(0, round_p(p) as i64 + 80);
                    set_e(&mut b, e);
                    a.set_sign(Sign::Pos);
                }
                _ => {
                    a.set_sign(Sign::Pos);
                }
            }
        }
        Op::ConstPi | Op::ConstE | Op::ConstLn2 | Op::ConstLn10 => {
            p = r.usize(1, if thorough { 6000 } else { 2000 });
        }
        _ => {}
    }
    let scale = r.chance(1, 8) && scales(op);
    if scale {
        let q = round_p(p);
        scale_with_p(r, op, &mut a, q);
    }
    let mut c = Case::new2(op, a, b, p, rm);
    if !scale && r.chance(1, 6) {
        near_tie(r, &mut c, thorough);
    }
    c
}

/// Choose the argument so that the result is extremely close to a representable number or to the
/// middle between two of them: the working precision must be raised until the bits are decided.
fn near_tie(r: &mut Rng, c: &mut Case, thorough: bool) -> Option<()> {
    use rug::ops::Pow;
    let pw = if thorough { r.usize(1, 6) } else { r.usize(1, 3) };
    let lx = pw + r.usize(0, 3);
    let pb = pw * 64;
    let mut bits = match r.below(4) {
        0 => pb,
        1 => pb + 1,
        2 => pb - r.usize(0, 40),
        _ => r.usize(1, 20),
    };
    let wp = (lx * 64 + 160) as u32;
    let mut e = match c.op {
        Op::Asin | Op::Acos | Op::Atan | Op::Sin | Op::Cos | Op::Tanh => r.range(-4, 0),
        Op::Exp | Op::Tan | Op::Sinh | Op::Cosh | Op::Pow => r.range(-20, 40),
        _ => r.range(-6, 5),
    };
    if c.op == Op::Cosh {
        e = e.abs() + 1;
    }
    if bits == 0 {
        bits = 1;
    }
    let m = gen_bits(r, bits);
    let mut y = scaled(&m, e - bits as i64);
    if y.prec() < wp {
        y = Float::with_val(wp, &y);
    }
    let signed = !matches!(c.op, Op::Exp | Op::Cosh | Op::Acosh | Op::Acos | Op::Pow);
    if signed && r.chance(1, 2) {
        y = -y;
    }
    let x = match c.op {
        Op::Exp => y.ln(),
        Op::Ln => y.exp(),
        Op::Log2 => y.exp2(),
        Op::Log10 => y.exp10(),
        Op::Sin => y.asin(),
        Op::Cos => y.acos(),
        Op::Tan => y.atan(),
        Op::Asin => y.sin(),
        Op::Acos => y.cos(),
        Op::Atan => y.tan(),
        Op::Sinh => y.asinh(),
        Op::Cosh => y.acosh(),
        Op::Tanh => y.atanh(),
        Op::Asinh => y.sinh(),
        Op::Acosh => y.cosh(),
        Op::Atanh => y.tanh(),
        Op::Log => {
            let b = to_mpfr(&c.b)?;
            Float::with_val(wp, b.pow(&y))
        }
        Op::Pow => {
            let b = to_mpfr(&c.b)?;
            if b.is_zero() {
                return None;
            }
            let q = Float::with_val(wp, 1 / b);
            Float::with_val(wp, y.pow(&q))
        }
        _ => return None,
    };
    if x.is_nan() || x.is_infinite() || x.is_zero() {
        return None;
    }
    c.a = from_mpfr(&x, lx)?;
    c.p = pb;
    Some(())
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn near_powers() {
        let mut r = Rng::new(1);
        for k in [2u32, 3] {
            for bits in [8usize, 64, 65, 128, 129, 300] {
                let n = near_power(&mut r, k, bits);
                println!("{k} {bits}: {} bits", n.significant_bits());
                assert!((n.significant_bits() as usize) <= (k as usize - 1) * bits + 8);
            }
        }
    }
}
