//! C10: infinities, NaN, zeroes, arguments out of the domain, incorrect precision.

use crate::drive::*;
use crate::gen::*;
use crate::judge::canonical;
use crate::model::*;
use crate::numeric::*;
use crate::ops::*;
use crate::report::*;
use crate::rng::Rng;
use astro_float_num::{BigFloat, Consts, Error, RoundingMode, Sign, INF_NEG, INF_POS, NAN};
use rug::Float;
use serde_json::json;

#[derive(Debug, Clone, PartialEq)]
enum W {
    Nan,
    /// NaN with this error
    NanErr(Option<Error>),
    Inf(bool),
    /// zero, positive or negative
    Zero,
    One(bool),
    HalfPi(bool),
    /// judged by the numeric oracle
    Ideal,
    /// nothing is specified
    Open,
}

const ERRS: [Option<Error>; 5] = [
    None,
    Some(Error::InvalidArgument),
    Some(Error::DivisionByZero),
    Some(Error::MemoryAllocation),
    Some(Error::ExponentOverflow(Sign::Pos)),
];

fn pool(r: &mut Rng) -> BigFloat {
    match r.below(13) {
        12 => {
            // integers and half integers which take all digits of the mantissa
            let len = r.usize(1, 4);
            let mut w = gen_words(r, len);
            w[0] |= 1;
            w[len - 1] |= 1 << 63;
            let e = 64 * len as i64 + *r.pick(&[0i64, 0, 0, 1, 2, -1, -2, 64]);
            build(&w, r.chance(1, 2), e, false)
        }
        0 => BigFloat::nan(*r.pick(&ERRS)),
        1 | 2 => INF_POS,
        3 | 4 => INF_NEG,
        5 | 6 => {
            let mut z = BigFloat::new(r.usize(1, 4) * 64);
            if r.chance(1, 2) {
                z.set_sign(Sign::Neg);
            }
            z
        }
        7 => BigFloat::from_i8(if r.chance(1, 2) { 1 } else { -1 }, r.usize(1, 200)),
        8 => BigFloat::from_i8(r.range(-5, 5) as i8, 64),
        9 => {
            let mut x = BigFloat::from_i32(r.range(-40, 40) as i32, 64);
            if !x.is_zero() {
                let e = x.exponent().unwrap() as i64 - r.range(0, 3);
                x.set_exponent(e as _);
            }
            x
        }
        10 => gen_subnormal(r, r.clone().usize(1, 3)),
        _ => {
            let len = r.usize(1, 3);
            let cl = if r.chance(2, 3) { ExpClass::Small } else { ExpClass::Edge };
            gen_num(r, &NumOpts { len, exp: cl, subnormal: true, zero: false, inexact: true })
        }
    }
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum K {
    Nan,
    Inf,
    NInf,
    Zero,
    Pos,
    Neg,
}

fn kind(x: &BigFloat) -> K {
    if x.is_nan() {
        K::Nan
    } else if x.is_inf_pos() {
        K::Inf
    } else if x.is_inf_neg() {
        K::NInf
    } else if x.is_zero() {
        K::Zero
    } else if x.is_negative() {
        K::Neg
    } else {
        K::Pos
    }
}

fn neg(x: &BigFloat) -> bool {
    x.sign() == Some(Sign::Neg)
}

/// odd integer / integer, for a finite exponent
fn int_kind(b: &BigFloat) -> (bool, bool) {
    let f = to_mpfr(b).unwrap();
    if !f.is_integer() {
        return (false, false);
    }
    if get_exp(&f) > 4000 {
        return (true, false);
    }
    (true, f.to_integer().unwrap().is_odd())
}

fn want(c: &Case) -> W {
    let (a, b) = (&c.a, &c.b);
    let (ka, kb) = (kind(a), kind(b));
    if ka == K::Nan {
        return W::NanErr(a.err());
    }
    let bin = c.binary();
    if bin && kb == K::Nan {
        // NaN is passed on, unless the other operand alone makes the result a NaN
        if c.op == Op::Log && ka != K::Pos {
            return W::Nan;
        }
        return W::NanErr(b.err());
    }
    let inf = |k: K| k == K::Inf || k == K::NInf;
    let s = neg(a) != neg(b);
    match c.op {
        Op::Add | Op::Sub => {
            let nb = if c.op == Op::Sub { !neg(b) } else { neg(b) };
            match (inf(ka), inf(kb)) {
                (true, true) => if neg(a) == nb { W::Inf(nb) } else { W::Nan },
                (true, false) => W::Inf(neg(a)),
                (false, true) => W::Inf(nb),
                _ => W::Ideal,
            }
        }
        Op::Mul => match (inf(ka), inf(kb)) {
            (false, false) => W::Ideal,
            _ if ka == K::Zero || kb == K::Zero => W::Nan,
            _ => W::Inf(s),
        },
        Op::Div => match (inf(ka), inf(kb)) {
            (true, true) => W::Nan,
            (true, false) => W::Inf(s),
            (false, true) => W::Zero,
            _ if kb == K::Zero => if ka == K::Zero { W::Nan } else { W::Inf(s) },
            _ => W::Ideal,
        },
        Op::Recip => match ka {
            K::Inf | K::NInf => W::Zero,
            K::Zero => W::Inf(neg(a)),
            _ => W::Ideal,
        },
        Op::Sqrt => match ka {
            K::Inf => W::Inf(false),
            K::NInf => W::Nan,
            K::Neg => W::NanErr(Some(Error::InvalidArgument)),
            _ => W::Ideal,
        },
        Op::Cbrt | Op::Sinh | Op::Asinh if inf(ka) => W::Inf(neg(a)),
        Op::Cosh if inf(ka) => W::Inf(false),
        Op::Powi if inf(ka) => {
            if c.n == 0 {
                W::One(false)
            } else {
                W::Inf(neg(a) && c.n % 2 == 1)
            }
        }
        Op::Exp if inf(ka) => if neg(a) { W::Zero } else { W::Inf(false) },
        Op::Ln | Op::Log2 | Op::Log10 => match ka {
            K::Inf => W::Inf(false),
            K::NInf => W::Nan,
            K::Zero => W::Inf(true),
            K::Neg => W::NanErr(Some(Error::InvalidArgument)),
            _ => W::Ideal,
        },
        Op::Log => {
            if ka == K::Neg || kb == K::Neg {
                if inf(ka) || inf(kb) || ka == K::Zero || kb == K::Zero {
                    return W::Open;
                }
                return W::NanErr(Some(Error::InvalidArgument));
            }
            match (ka, kb) {
                (K::NInf, _) | (_, K::NInf) => W::Nan,
                (K::Inf, K::Pos) => {
                    let v = to_mpfr(b).unwrap();
                    if v > 1 { W::Inf(false) } else if v < 1 { W::Inf(true) } else { W::Open }
                }
                (K::Inf, K::Inf) => W::Nan,
                (K::Inf, _) => W::Open,
                (K::Pos, K::Inf) => W::Zero,
                (K::Zero, _) | (_, K::Zero) => W::Open,
                _ => {
                    if to_mpfr(b).unwrap() == 1 { W::Open } else { W::Ideal }
                }
            }
        }
        Op::Pow => match (inf(ka), inf(kb)) {
            (true, false) => match kb {
                K::Zero => W::One(false),
                K::Pos => W::Inf(neg(a) && int_kind(b).1),
                _ => W::Zero,
            },
            (true, true) => if kb == K::Inf { W::Inf(false) } else { W::Zero },
            (false, true) => {
                // the limit, by the size of the base
                let v = to_mpfr(a).unwrap().abs();
                if v == 1 {
                    if neg(a) { W::Open } else { W::One(false) }
                } else if (v > 1) == (kb == K::Inf) {
                    W::Inf(false)
                } else {
                    W::Zero
                }
            }
            _ => match (ka, kb) {
                (_, K::Zero) => W::One(false),
                (K::Zero, K::Neg) => W::Inf(neg(a) && int_kind(b).1),
                (K::Zero, K::Pos) => W::Zero,
                (K::Neg, _) if !int_kind(b).0 => W::NanErr(Some(Error::InvalidArgument)),
                _ => W::Ideal,
            },
        },
        Op::Sin | Op::Cos | Op::Tan if inf(ka) => W::Nan,
        Op::Asin | Op::Acos | Op::Atanh => {
            if inf(ka) {
                return W::Nan;
            }
            let v = to_mpfr(a).unwrap().abs();
            if v > 1 {
                W::NanErr(Some(Error::InvalidArgument))
            } else if v == 1 && c.op == Op::Atanh {
                W::Inf(neg(a))
            } else {
                W::Ideal
            }
        }
        Op::Atan if inf(ka) => W::HalfPi(neg(a)),
        Op::Tanh if inf(ka) => W::One(neg(a)),
        Op::Acosh => match ka {
            K::Inf => W::Inf(false),
            K::NInf => W::Nan,
            _ => {
                if to_mpfr(a).unwrap() < 1 {
                    W::NanErr(Some(Error::InvalidArgument))
                } else {
                    W::Ideal
                }
            }
        },
        _ => W::Ideal,
    }
}

const ALL: &[&[Op]] = &[ARITH1, ARITH2, ELEM, TRIG, HYP];

pub fn run(cfg: &Config) -> i32 {
    let mul = if cfg.thorough() { 20 } else { 1 };
    let ops: Vec<Op> = ALL.iter().flat_map(|v| v.iter().copied()).filter(|o| *o != Op::SetPrec).collect();
    let only = std::env::var("OP").ok().and_then(|s| Op::from_name(&s));
    let mut st = drive(cfg, "c10", if only.is_some() { 20_000 } else { 500_000 * mul }, 300.0, 60.0, |r, w, i| {
        let op = only.unwrap_or(ops[(i / 8) as usize % ops.len()]);
        let mut c = Case::new2(op, pool(r), pool(r), r.usize(1, 300), gen_rm(r));
        c.n = *r.pick(&[0, 1, 2, 3, 4, 5, 1 << 33, usize::MAX]);
        special_case(w, &c);
    });
    st.merge(drive(cfg, "c10-p", 40_000 * mul, 300.0, 60.0, |r, w, i| wrong_precision(r, w, i, &ops)));
    st.merge(drive(cfg, "c10-misc", 60_000 * mul, 300.0, 60.0, misc));
    finish(
        cfg,
        st,
        "all operations over a pool of NaN (every error), infinities, zeroes of both signs, subnormal, +-1, integers, dyadic \
         and extreme numbers; non-trivial: a special operand, a domain error or an incorrect precision, distinct by arguments",
        Default::default(),
        "exploration",
    )
}

fn special_case(w: &mut Worker, c: &Case) {
    let j = c.json();
    // argument reduction needs pi with as many digits as the exponent
    if TRIG.contains(&c.op) && c.a.exponent().map_or(false, |e| e > 3000) {
        return;
    }
    // operations with huge powers are slow only when the value is finite
    if c.op == Op::Powi && c.n > 1 << 20 && c.a.exponent().is_some() && !c.a.is_zero() {
        return;
    }
    let Some(got) = w.call(&j, |cc| exec(c, cc)) else { return };
    let want = want(c);
    let op = c.op.name();
    let p = round_p(c.p);
    let bad = |w: &mut Worker, e: serde_json::Value| {
        let mut kinds = format!("{:?}", kind(&c.a)) + &if c.binary() { format!(",{:?}", kind(&c.b)) } else { String::new() };
        if c.op == Op::Pow && matches!(kind(&c.a), K::Pos | K::Neg) && c.b.is_inf() {
            let v = to_mpfr(&c.a).unwrap().abs();
            kinds += if v < 1 { ",base below 1" } else { ",base above 1" };
        }
        let what = format!("{:?}", kind(&got));
        w.violate(format!("special:{}({})={}", op, kinds, what), json!({"case": j, "got": show(&got), "expected": e}));
    };
    let num_is = |f: &Float| to_mpfr(&got).map(|v| v == *f).unwrap_or(false) && got.mantissa_max_bit_len() == Some(p);
    let name = match &want {
        W::NanErr(_) => "nan_with_error",
        W::Nan => "nan",
        W::Inf(_) => "inf",
        W::Zero => "zero",
        W::One(_) => "one",
        W::HalfPi(_) => "half_pi",
        W::Ideal => "finite",
        _ => "open",
    };
    w.st.count(&format!("{}:{}", op, name));
    match &want {
        W::Nan => {
            if !got.is_nan() {
                bad(w, json!("NaN"));
            }
        }
        W::NanErr(e) => {
            if !got.is_nan() || got.err() != *e {
                bad(w, json!(format!("NaN with {:?}", e)));
            }
        }
        W::Inf(n) => {
            if !got.is_inf() || got.is_inf_neg() != *n {
                bad(w, json!(if *n { "-Inf" } else { "Inf" }));
            }
        }
        W::Zero => {
            if !got.is_zero() || got.mantissa_max_bit_len() != Some(p) {
                bad(w, json!(format!("zero with precision {}", p)));
            }
        }
        W::One(n) => {
            if !num_is(&Float::with_val(64, if *n { -1 } else { 1 })) {
                bad(w, json!(if *n { "-1" } else { "1" }));
            }
        }
        W::HalfPi(n) => {
            let mut v = Float::with_val((p + 64) as u32, rug::float::Constant::Pi);
            shift(&mut v, -1);
            let x = Ideal::Num { v: if *n { -v } else { v }, sticky: true };
            // MPFR's pi here is rounded to nearest at p+64 bits: good unless the last 64 bits are all equal
            let (e, _) = round_ideal(&x, p, c.rm);
            if observe(&got) != e {
                bad(w, show_res(&e));
            }
        }
        W::Ideal => {
            if let Some(id) = ideal(c) {
                let (e, _) = round_ideal(&id, p, c.rm);
                if observe(&got) != e {
                    bad(w, show_res(&e));
                } else if matches!(e, Res::Num { .. } | Res::Zero) && got.mantissa_max_bit_len() != Some(p) {
                    bad(w, json!(format!("precision {}", p)));
                }
            }
        }
        W::Open => {}
    }
    if let Err(m) = canonical(&got) {
        w.violate(format!("canon:{}", op), json!({"case": j, "got": show(&got), "why": m}));
    }
    if want != W::Ideal && want != W::Open {
        w.nontrivial(&j);
    }
}

/// Precisions that no number can have: NaN with InvalidArgument, never a panic or another value.
fn wrong_precision(r: &mut Rng, w: &mut Worker, i: u64, ops: &[Op]) {
    let p = match r.below(4) {
        0 => usize::MAX,
        1 => usize::MAX - r.usize(0, 200),
        2 => isize::MAX as usize - r.usize(0, 300),
        _ => isize::MAX as usize + r.usize(0, usize::MAX / 2 - 200),
    };
    let rm = gen_rm(r);
    let fin = |r: &mut Rng| loop {
        let x = pool(r);
        if !x.is_nan() && !x.is_inf() {
            return x;
        }
    };
    let k = (i / 8) as usize % (ops.len() + 12);
    let (op, res) = if k < ops.len() {
        let mut c = Case::new2(ops[k], fin(r), fin(r), p, rm);
        c.n = r.usize(1, 5);
        let j = c.json();
        // cases that are infinite or NaN for another reason say nothing
        if want(&c) != W::Ideal {
            return;
        }
        let Some(g) = w.call(&j, |cc| exec(&c, cc)) else { return };
        (j, g)
    } else {
        let v = r.u64();
        let j = json!({"op": format!("ctor{}", k - ops.len()), "p": p});
        let Some(g) = w.call(&j, |cc| match k - ops.len() {
            0 => BigFloat::new(p),
            1 => BigFloat::from_f64(f64::from_bits(v & 0xbfffffffffffffff), p),
            2 => BigFloat::from_u64(v, p),
            3 => BigFloat::from_i128(v as i128 * 3, p),
            4 => BigFloat::from_word(v, p),
            5 => BigFloat::max_value(p),
            6 => BigFloat::min_positive(p),
            7 => BigFloat::min_positive_normal(p),
            8 => cc.pi(p, rm),
            9 => cc.ln_2(p, rm),
            10 => cc.e(p, rm),
            _ => cc.ln_10(p, rm),
        }) else {
            return;
        };
        (j, g)
    };
    w.st.count("incorrect_precision");
    if !res.is_nan() || res.err() != Some(Error::InvalidArgument) {
        let o = op["op"].as_str().unwrap_or("").to_string();
        w.violate(format!("precision:{}", o), json!({"case": op, "got": show(&res), "expected": "NaN with InvalidArgument"}));
    }
    w.nontrivial(&op);
}

/// Functions without a precision argument, queries, and the rest of the API on special values.
fn misc(r: &mut Rng, w: &mut Worker, _i: u64) {
    let a = pool(r);
    let b = pool(r);
    let (ka, kb) = (kind(&a), kind(&b));
    let j = json!({"op": "misc", "a": show(&a), "b": show(&b)});
    let mut out: Vec<(String, serde_json::Value)> = vec![];
    let r2 = w.call(&j, |cc: &mut Consts| {
        let mut bad = |n: &str, ok: bool, g: serde_json::Value| {
            if !ok {
                out.push((n.to_string(), g));
            }
        };
        let inf = |k: K| k == K::Inf || k == K::NInf;
        let is = |x: &BigFloat, k: K| kind(x) == k;
        let near = match (a.exponent(), b.exponent()) {
            (Some(x), Some(y)) => (x as i64 - y as i64).abs() < 5000 || kb == K::Zero,
            _ => true,
        };
        // full precision operations and remainder
        if near {
        for (n, g, sub) in [("add_full_prec", a.add_full_prec(&b), false), ("sub_full_prec", a.sub_full_prec(&b), true)] {
            let nb = neg(&b) != sub;
            let ok = if ka == K::Nan || kb == K::Nan {
                g.is_nan() && g.err() == if ka == K::Nan { a.err() } else { b.err() }
            } else if inf(ka) && inf(kb) {
                if neg(&a) == nb { g.is_inf() && g.is_inf_neg() == nb } else { g.is_nan() }
            } else if inf(ka) {
                g.is_inf() && g.is_inf_neg() == neg(&a)
            } else if inf(kb) {
                g.is_inf() && g.is_inf_neg() == nb
            } else {
                true
            };
            if (inf(ka) || inf(kb) || ka == K::Nan || kb == K::Nan) && !ok {
                bad(n, false, show(&g));
            }
        }
        if inf(ka) || inf(kb) || ka == K::Nan || kb == K::Nan {
            let g = a.mul_full_prec(&b);
            let ok = if ka == K::Nan || kb == K::Nan {
                g.is_nan() && g.err() == if ka == K::Nan { a.err() } else { b.err() }
            } else if ka == K::Zero || kb == K::Zero {
                g.is_nan()
            } else {
                g.is_inf() && g.is_inf_neg() == (neg(&a) != neg(&b))
            };
            bad("mul_full_prec", ok, show(&g));
        }
        let g = a.rem(&b);
        let ok = if ka == K::Nan {
            g.is_nan() && g.err() == a.err()
        } else if inf(ka) {
            g.is_nan()
        } else if kb == K::Nan {
            g.is_nan() && g.err() == b.err()
        } else if inf(kb) {
            g.as_raw_parts() == a.as_raw_parts()
        } else if kb == K::Zero {
            g.is_nan() && g.err() == Some(Error::InvalidArgument)
        } else {
            true
        };
        bad("rem", ok, show(&g));
        }
        // queries
        let s = if ka == K::Nan { None } else { Some(if neg(&a) { Sign::Neg } else { Sign::Pos }) };
        bad("sign", a.sign() == s, json!(format!("{:?}", a.sign())));
        bad("is_positive", a.is_positive() == (s == Some(Sign::Pos)), json!(null));
        bad("is_negative", a.is_negative() == (s == Some(Sign::Neg)), json!(null));
        let fin = !inf(ka) && ka != K::Nan;
        bad("queries", a.exponent().is_some() == fin && a.precision().is_some() == fin && a.mantissa_max_bit_len().is_some() == fin
            && a.mantissa_digits().is_some() == fin && a.as_raw_parts().is_some() == fin, json!(null));
        use std::num::FpCategory::*;
        let cat = match ka {
            K::Nan => Nan,
            K::Inf | K::NInf => Infinite,
            K::Zero => Zero,
            _ => if a.is_subnormal() { Subnormal } else { Normal },
        };
        bad("classify", a.classify() == cat, json!(format!("{:?}", a.classify())));
        if !fin {
            bad("is_int", !a.is_int(), json!(true));
            bad("is_zero", !a.is_zero() && !a.is_subnormal() && !a.inexact(), json!(true));
            let mut x = a.clone();
            x.set_inexact(true);
            x.set_exponent(5);
            bad("setters", !x.inexact() && kind(&x) == ka && x.set_precision(70, RoundingMode::Up).is_ok() && kind(&x) == ka, json!(null));
            let mut y = a.clone();
            y.inv_sign();
            let mut z = a.clone();
            z.set_sign(Sign::Neg);
            let n = match ka { K::Inf => K::NInf, K::NInf => K::Inf, k => k };
            bad("inv_sign", kind(&y) == n && kind(&a.neg()) == n && kind(&-&a) == n, json!(null));
            bad("set_sign", kind(&z) == if ka == K::Nan { K::Nan } else { K::NInf }, json!(null));
            let ab = a.abs();
            bad("abs", if ka == K::Nan { ab.is_nan() && ab.err() == a.err() } else { ab.is_inf_pos() }, show(&ab));
            for (n, g) in [("floor", a.floor()), ("ceil", a.ceil()), ("round", a.round(3, RoundingMode::ToEven))] {
                bad(n, if ka == K::Nan { g.is_nan() && g.err() == a.err() } else { is(&g, ka) }, show(&g));
            }
            for (n, g) in [("int", a.int()), ("fract", a.fract())] {
                bad(n, g.is_nan(), show(&g));
            }
            let c = a.clone();
            bad("clone", kind(&c) == ka && c.err() == a.err(), show(&c));
            for rdx in [astro_float_num::Radix::Bin, astro_float_num::Radix::Oct, astro_float_num::Radix::Dec, astro_float_num::Radix::Hex] {
                let t = a.format(rdx, RoundingMode::ToEven, cc).unwrap_or_default();
                let e = match ka { K::Nan => "NaN", K::Inf => "Inf", _ => "-Inf" };
                bad("format", t == e, json!(t));
                let back = BigFloat::parse(e, rdx, 64, RoundingMode::ToEven, cc);
                bad("parse", kind(&back) == ka && back.err().is_none(), show(&back));
                bad("convert_to_radix", a.convert_to_radix(rdx, RoundingMode::ToEven, cc) == Err(Error::InvalidArgument), json!(null));
            }
        } else {
            bad("err", a.err().is_none(), json!(null));
        }
        let _ = NAN;
    });
    if r2.is_none() {
        return;
    }
    for (n, g) in out {
        w.violate(format!("special:{}({:?},{:?})", n, ka, kb), json!({"case": j, "got": g}));
    }
    w.nontrivial(&j);
}
