//! C01..C05, C09, C13 (operations): every numeric operation against MPFR/GMP.

use crate::drive::*;
use crate::gen::*;
use crate::gencase::*;
use crate::judge::*;
use crate::ops::*;
use crate::report::*;
use crate::rng::Rng;

pub const ARITH1: &[Op] = &[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Recip];
pub const ARITH2: &[Op] = &[Op::Sqrt, Op::Cbrt, Op::SetPrec, Op::Powi];
pub const ELEM: &[Op] = &[Op::Exp, Op::Ln, Op::Log2, Op::Log10, Op::Log, Op::Pow];
pub const TRIG: &[Op] = &[Op::Sin, Op::Cos, Op::Tan, Op::Asin, Op::Acos, Op::Atan];
pub const HYP: &[Op] = &[Op::Sinh, Op::Cosh, Op::Tanh, Op::Asinh, Op::Acosh, Op::Atanh];
pub const CONSTS: &[Op] = &[Op::ConstPi, Op::ConstE, Op::ConstLn2, Op::ConstLn10];

pub fn is_arith(op: Op) -> bool {
    ARITH1.contains(&op) || ARITH2.contains(&op)
}

/// Case with ordinary sizes (up to a few dozen words).
pub fn gen_case(r: &mut Rng, op: Op, thorough: bool) -> Case {
    if is_arith(op) {
        gen_arith(r, op, 1)
    } else {
        gen_fun(r, op, thorough)
    }
}

/// Sizes that reach Toom-2, Toom-3, the FFT, recursive division and its unbalanced variants.
pub fn big_len(r: &mut Rng, max: usize) -> usize {
    let l = match r.below(12) {
        0..=3 => r.usize(30, 110),
        4..=6 => r.usize(100, 320),
        7 | 8 => r.usize(200, 900),
        9 => r.usize(600, 2500),
        10 => *r.pick(&[69usize, 70, 71, 140, 159, 160, 161, 219, 220, 221, 222, 440, 660, 661, 662, 663]),
        _ => r.usize(2000, 9000),
    };
    l.min(max)
}

/// Case with long operands or long results.
pub fn gen_case_big(r: &mut Rng, op: Op, thorough: bool) -> Case {
    let rm = gen_rm(r);
    match op {
        Op::Mul | Op::Div | Op::Add | Op::Sub => {
            let max = match op {
                Op::Div => if thorough { 3000 } else { 1200 },
                _ => 12000,
            };
            let la = big_len(r, max);
            let lb = match r.below(5) {
                0 | 1 => la,
                2 => r.usize(1, la),
                3 => (la / r.usize(2, 9)).max(1),
                _ => big_len(r, max),
            };
            let o = |len| NumOpts { len, exp: ExpClass::Small, subnormal: false, zero: false, inexact: false };
            let a = gen_num(r, &o(la));
            let mut b = gen_num(r, &o(lb));
            if op == Op::Div && r.chance(1, 3) {
                // exact quotient, or off by one unit
                let q = gen_num(r, &o(r.clone().usize(1, la)));
                let f = b.mul_full_prec(&q);
                let f = if r.chance(1, 2) { f } else { perturb(r, &f) };
                let p = (q.mantissa_max_bit_len().unwrap() + r.usize(0, 1) * 64).max(64);
                if !f.is_inf() && !f.is_nan() {
                    return Case::new2(op, f, b, p, rm);
                }
            }
            if r.chance(1, 6) {
                b = perturb(r, &a);
            }
            let p = match r.below(5) {
                0 => la * 64,
                1 => (la + lb) * 64,
                2 => lb * 64,
                3 => r.usize(1, (la + lb) * 64),
                _ => 64 * r.usize(1, 4),
            };
            let p = p.min(max * 64 * 2);
            if r.chance(1, 2) && op != Op::Div {
                Case::new2(op, b, a, p, rm)
            } else {
                Case::new2(op, a, b, p, rm)
            }
        }
        Op::Recip | Op::Sqrt | Op::Cbrt | Op::SetPrec | Op::Powi => {
            let max = match op {
                Op::SetPrec => 9000,
                Op::Cbrt => 300,
                Op::Powi => 120,
                _ => if thorough { 2000 } else { 700 },
            };
            let la = big_len(r, max).min(max);
            let o = NumOpts { len: la, exp: ExpClass::Small, subnormal: false, zero: false, inexact: false };
            let mut a = gen_num(r, &o);
            let k = if op == Op::Cbrt { 3 } else { 2 };
            if matches!(op, Op::Sqrt | Op::Cbrt) {
                a.set_sign(astro_float_num::Sign::Pos);
                if r.chance(1, 3) {
                    // perfect power
                    let q = gen_num(r, &NumOpts { len: (la / k).max(1), ..o });
                    let q = q.abs();
                    let mut f = q.mul_full_prec(&q);
                    if k == 3 {
                        f = f.mul_full_prec(&q);
                    }
                    a = if r.chance(2, 3) { f } else { perturb(r, &f) };
                }
            }
            let p = match r.below(4) {
                0 | 1 => la * 64,
                2 => r.usize(1, la) * 64,
                _ => 64 * big_len(r, max),
            };
            let mut c = Case::new1(op, a, p, rm);
            c.n = r.usize(2, 40);
            c
        }
        Op::ConstPi | Op::ConstE | Op::ConstLn2 | Op::ConstLn10 => {
            let p = r.usize(1, if thorough { 60000 } else { 12000 });
            Case::new1(op, astro_float_num::BigFloat::new(64), p, rm)
        }
        _ => {
            // a function with a long result, or a long argument
            let mut c = gen_fun(r, op, false);
            let max = if thorough { 200 } else { 60 };
            let len = r.usize(10, max);
            match r.below(3) {
                0 => c.p = len * 64,
                1 => {
                    let o = NumOpts { len, exp: ExpClass::Small, subnormal: false, zero: false, inexact: false };
                    let mut a = gen_num(r, &o);
                    if let Some(e) = c.a.exponent() {
                        if !c.a.is_zero() && !c.a.is_subnormal() {
                            a.set_exponent(e);
                            if let Some(s) = c.a.sign() {
                                a.set_sign(s);
                            }
                            c.a = a;
                        }
                    }
                    c.p = r.usize(1, len) * 64;
                }
                _ => {
                    let o = NumOpts { len, exp: ExpClass::Small, subnormal: false, zero: false, inexact: false };
                    let mut a = gen_num(r, &o);
                    if let Some(e) = c.a.exponent() {
                        if !c.a.is_zero() && !c.a.is_subnormal() {
                            a.set_exponent(e.clamp(-200, 200));
                            if let Some(s) = c.a.sign() {
                                a.set_sign(s);
                            }
                            c.a = a;
                        }
                    }
                    c.p = len * 64;
                }
            }
            if crate::gencase::scales(op) && r.chance(1, 3) {
                let q = c.p.div_ceil(64) * 64;
                crate::gencase::scale_with_p(r, op, &mut c.a, q);
            }
            c
        }
    }
}

pub struct Plan {
    pub ops: &'static [Op],
    pub cases: u64,
    pub big: u64,
}

pub fn run(cfg: &Config, plans: &[Plan], want: Want, rule: &str) -> i32 {
    let st = observe_ops(cfg, plans, &want);
    finish(cfg, st, rule, Default::default(), "exploration")
}

pub fn observe_ops(cfg: &Config, plans: &[Plan], want: &Want) -> Stats {
    let mut st = Stats::default();
    let mul = if cfg.thorough() { 20 } else { 1 };
    let id = cfg.property.to_lowercase();
    let only = std::env::var("OP").ok().and_then(|s| Op::from_name(&s));
    for (k, pl) in plans.iter().enumerate() {
        let n = pl.ops.len() as u64;
        st.merge(drive(cfg, &format!("{}-{}", id, k), pl.cases * mul, 400.0, 60.0, |r, w, i| {
            let op = only.unwrap_or(pl.ops[((i / 8) % n) as usize]);
            let mut c = gen_case(r, op, w.thorough);
            let fresh = r.chance(1, 64);
            if r.chance(1, 12) && c.p > 0 {
                c.rm = astro_float_num::RoundingMode::None;
            }
            timed(&c, || judge(w, &c, fresh, want));
        }));
        st.merge(drive(cfg, &format!("{}-{}-big", id, k), pl.big * mul, 400.0, 120.0, |r, w, i| {
            let op = only.unwrap_or(pl.ops[((i / 8) % n) as usize]);
            let mut c = gen_case_big(r, op, w.thorough);
            if r.chance(1, 12) && c.p > 0 {
                c.rm = astro_float_num::RoundingMode::None;
            }
            timed(&c, || judge(w, &c, false, want));
            w.st.count("long_operands");
        }));
    }
    st
}

fn timed(c: &Case, f: impl FnOnce() -> bool) {
    let t = std::time::Instant::now();
    f();
    let dt = t.elapsed().as_millis();
    if dt > 3000 && std::env::var("AFV_SLOW").is_ok() {
        let s = c.json().to_string();
        eprintln!("slow {} ms p={} {}", dt, c.p, &s[..s.len().min(100)]);
    }
}
