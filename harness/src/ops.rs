//! The numeric operations: how to call them, and their exact value by MPFR/GMP.

use crate::model::*;
use astro_float_num::{BigFloat, Consts, RoundingMode};
use rug::ops::Pow;
use rug::{Float, Integer};
use serde_json::{json, Value};

macro_rules! ops {
    ($($v:ident $n:literal),*) => {
        #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
        pub enum Op { $($v),* }
        impl Op {
            pub fn name(self) -> &'static str { match self { $(Op::$v => $n),* } }
            pub fn from_name(s: &str) -> Option<Op> { match s { $($n => Some(Op::$v),)* _ => None } }
        }
    };
}

ops!(
    Add "add", Sub "sub", Mul "mul", Div "div", Recip "reciprocal", Sqrt "sqrt", Cbrt "cbrt",
    Powi "powi", SetPrec "set_precision", Exp "exp", Ln "ln", Log2 "log2", Log10 "log10", Log "log", Pow "pow",
    Sin "sin", Cos "cos", Tan "tan", Asin "asin", Acos "acos", Atan "atan",
    Sinh "sinh", Cosh "cosh", Tanh "tanh", Asinh "asinh", Acosh "acosh", Atanh "atanh",
    ConstPi "const_pi", ConstE "const_e", ConstLn2 "const_ln2", ConstLn10 "const_ln10"
);

#[derive(Clone)]
pub struct Case {
    pub op: Op,
    pub a: BigFloat,
    pub b: BigFloat,
    pub n: usize,
    pub p: usize,
    pub rm: RoundingMode,
}

impl Case {
    pub fn new1(op: Op, a: BigFloat, p: usize, rm: RoundingMode) -> Case {
        Case { op, a, b: BigFloat::new(64), n: 0, p, rm }
    }
    pub fn new2(op: Op, a: BigFloat, b: BigFloat, p: usize, rm: RoundingMode) -> Case {
        Case { op, a, b, n: 0, p, rm }
    }
    pub fn binary(&self) -> bool {
        matches!(self.op, Op::Add | Op::Sub | Op::Mul | Op::Div | Op::Log | Op::Pow)
    }
    pub fn nullary(&self) -> bool {
        matches!(self.op, Op::ConstPi | Op::ConstE | Op::ConstLn2 | Op::ConstLn10)
    }
    pub fn json(&self) -> Value {
        let mut v = json!({"op": self.op.name(), "p": self.p, "rm": rm_name(self.rm)});
        if !self.nullary() {
            v["a"] = show(&self.a);
        }
        if self.binary() {
            v["b"] = show(&self.b);
        }
        if self.op == Op::Powi {
            v["n"] = json!(self.n);
        }
        v
    }
    pub fn from_json(v: &Value) -> Option<Case> {
        Some(Case {
            op: Op::from_name(v["op"].as_str()?)?,
            a: if v["a"].is_null() { BigFloat::new(64) } else { unshow(&v["a"]) },
            b: if v["b"].is_null() { BigFloat::new(64) } else { unshow(&v["b"]) },
            n: v["n"].as_u64().unwrap_or(0) as usize,
            p: v["p"].as_u64()? as usize,
            rm: rm_from(v["rm"].as_str()?),
        })
    }
    pub fn arg_inexact(&self) -> bool {
        (!self.nullary() && self.a.inexact()) || (self.binary() && self.b.inexact())
    }
}

pub fn exec(c: &Case, cc: &mut Consts) -> BigFloat {
    let (a, b, p, rm) = (&c.a, &c.b, c.p, c.rm);
    match c.op {
        Op::Add => a.add(b, p, rm),
        Op::Sub => a.sub(b, p, rm),
        Op::Mul => a.mul(b, p, rm),
        Op::Div => a.div(b, p, rm),
        Op::Recip => a.reciprocal(p, rm),
        Op::Sqrt => a.sqrt(p, rm),
        Op::Cbrt => a.cbrt(p, rm),
        Op::Powi => a.powi(c.n, p, rm),
        Op::SetPrec => {
            let mut x = a.clone();
            match x.set_precision(p, rm) {
                Ok(()) => x,
                Err(astro_float_num::Error::ExponentOverflow(s)) => {
                    if s.is_positive() {
                        astro_float_num::INF_POS
                    } else {
                        astro_float_num::INF_NEG
                    }
                }
                Err(e) => BigFloat::nan(Some(e)),
            }
        }
        Op::Exp => a.exp(p, rm, cc),
        Op::Ln => a.ln(p, rm, cc),
        Op::Log2 => a.log2(p, rm, cc),
        Op::Log10 => a.log10(p, rm, cc),
        Op::Log => a.log(b, p, rm, cc),
        Op::Pow => a.pow(b, p, rm, cc),
        Op::Sin => a.sin(p, rm, cc),
        Op::Cos => a.cos(p, rm, cc),
        Op::Tan => a.tan(p, rm, cc),
        Op::Asin => a.asin(p, rm, cc),
        Op::Acos => a.acos(p, rm, cc),
        Op::Atan => a.atan(p, rm, cc),
        Op::Sinh => a.sinh(p, rm, cc),
        Op::Cosh => a.cosh(p, rm, cc),
        Op::Tanh => a.tanh(p, rm, cc),
        Op::Asinh => a.asinh(p, rm, cc),
        Op::Acosh => a.acosh(p, rm, cc),
        Op::Atanh => a.atanh(p, rm, cc),
        Op::ConstPi => cc.pi(p, rm),
        Op::ConstE => cc.e(p, rm),
        Op::ConstLn2 => cc.ln_2(p, rm),
        Op::ConstLn10 => cc.ln_10(p, rm),
    }
}

/// Exact value of the operation for finite arguments, good for rounding to `p` bits.
/// None: the oracle cannot decide.
pub fn ideal(c: &Case) -> Option<Ideal> {
    let a = if c.nullary() { Float::with_val(64, 1) } else { to_mpfr(&c.a)? };
    let b = if c.binary() { to_mpfr(&c.b)? } else { Float::with_val(64, 1) };
    ideal_of(c.op, &a, &b, c.n, c.p)
}

pub fn ideal_of(op: Op, a: &Float, b: &Float, n: usize, p: usize) -> Option<Ideal> {
    let p = round_p(p).max(64) as u32;
    let wp = p + 64;
    let f1 = |g: &dyn Fn(&Float) -> (Float, std::cmp::Ordering), neg: bool| {
        let (v, o) = g(a);
        from_rndz(v, o, neg)
    };
    let neg_a = a.is_sign_negative();
    macro_rules! un {
        ($m:ident) => {
            f1(&|x| Float::with_val_round(wp, x.$m(), RNDZ), neg_a)
        };
    }
    Some(match op {
        Op::Add => {
            let (v, o) = Float::with_val_round(wp, a + b, RNDZ);
            from_rndz(v, o, false)
        }
        Op::Sub => {
            let (v, o) = Float::with_val_round(wp, a - b, RNDZ);
            from_rndz(v, o, false)
        }
        Op::Mul => {
            let (v, o) = Float::with_val_round(wp, a * b, RNDZ);
            from_rndz(v, o, false)
        }
        Op::Div => {
            if b.is_zero() {
                return None;
            }
            let (v, o) = Float::with_val_round(wp, a / b, RNDZ);
            from_rndz(v, o, false)
        }
        Op::Recip => {
            if a.is_zero() {
                return None;
            }
            un!(recip_ref)
        }
        Op::Sqrt => un!(sqrt_ref),
        Op::Cbrt => un!(cbrt_ref),
        Op::Powi => {
            let odd = n % 2 == 1;
            let n = Integer::from(n);
            let (v, o) = Float::with_val_round(wp, a.pow(&n), RNDZ);
            from_rndz(v, o, neg_a && odd)
        }
        Op::SetPrec => {
            // value with at least wp bits
            let pr = a.prec().max(wp);
            from_rndz(Float::with_val(pr, a), std::cmp::Ordering::Equal, false)
        }
        Op::Exp => f1(&|x| Float::with_val_round(wp, x.exp_ref(), RNDZ), false),
        Op::Ln => un!(ln_ref),
        Op::Log2 => un!(log2_ref),
        Op::Log10 => un!(log10_ref),
        Op::Log => return ideal_log(a, b, p),
        Op::Pow => {
            let (v, o) = Float::with_val_round(wp, a.pow(b), RNDZ);
            let odd = b.is_integer() && b.to_integer().map(|i| i.is_odd()).unwrap_or(false);
            from_rndz(v, o, neg_a && odd)
        }
        Op::Sin => un!(sin_ref),
        Op::Cos => un!(cos_ref),
        Op::Tan => un!(tan_ref),
        Op::Asin => un!(asin_ref),
        Op::Acos => un!(acos_ref),
        Op::Atan => un!(atan_ref),
        Op::Sinh => un!(sinh_ref),
        Op::Cosh => un!(cosh_ref),
        Op::Tanh => un!(tanh_ref),
        Op::Asinh => un!(asinh_ref),
        Op::Acosh => un!(acosh_ref),
        Op::Atanh => un!(atanh_ref),
        Op::ConstPi => {
            let (v, o) = Float::with_val_round(wp, rug::float::Constant::Pi, RNDZ);
            from_rndz(v, o, false)
        }
        Op::ConstLn2 => {
            let (v, o) = Float::with_val_round(wp, rug::float::Constant::Log2, RNDZ);
            from_rndz(v, o, false)
        }
        Op::ConstE => f1(&|x| Float::with_val_round(wp, x.exp_ref(), RNDZ), false),
        Op::ConstLn10 => {
            let t = Float::with_val(64, 10);
            let (v, o) = Float::with_val_round(wp, t.ln_ref(), RNDZ);
            from_rndz(v, o, false)
        }
    })
}

/// log_b(a) = ln a / ln b: exact when it is rational, otherwise computed until the bits are decided.
fn ideal_log(a: &Float, b: &Float, p: u32) -> Option<Ideal> {
    if *a < 0 || *b < 0 {
        return Some(Ideal::Nan);
    }
    // logarithm of zero, base zero or one: covered by the table of special values
    if *a == 0 || *b == 0 || *b == 1 {
        return None;
    }
    if *a == 1 {
        return Some(Ideal::Zero);
    }
    // Candidate by working precision; if the result is within the error bound of a value with few
    // bits, test exactness: a = b^(r) for dyadic r.
    for extra in [128u32, 512, 2048] {
        let wp = p + extra;
        let la = Float::with_val(wp + 64, a.ln_ref());
        let lb = Float::with_val(wp + 64, b.ln_ref());
        let q = Float::with_val(wp, &la / &lb);
        // relative error below 2^(-wp+3)
        let (m, k) = int_exp(&q);
        let neg = m < 0;
        let mut m = m.abs();
        // look at the bits below p+1: all zeroes or all ones near the end => undecided
        let bits = m.significant_bits();
        let low_bits = bits - (p + 2);
        let low = Integer::from(&m - (Integer::from(&m >> low_bits) << low_bits));
        let err = Integer::from(32);
        let top = Integer::from(1) << low_bits;
        if low > err && low < Integer::from(&top - &err) {
            // decided: truncate safely
            m >>= low_bits;
            let v = scaled(&(Integer::from(&m << 2u32) + 1u32), k + low_bits as i64 - 2);
            let pr = v.prec().max(p + 4);
            let v = Float::with_val(pr, v);
            return Some(Ideal::Num { v: if neg { -v } else { v }, sticky: true });
        }
        if extra == 512 {
            // candidate dyadic value
            let mut c = Integer::from(&m + (Integer::from(1) << (low_bits - 1)));
            c >>= low_bits;
            let r = scaled(&c, k + low_bits as i64);
            let r = if neg { -r } else { r };
            if exact_pow(b, &r, a) {
                let pr = r.prec().max(p + 4);
                return Some(Ideal::Num { v: Float::with_val(pr, r), sticky: false });
            }
        }
    }
    None
}

/// b^r == a exactly, r dyadic rational. (MPFR's ternary value tells whether pow is exact.)
pub fn exact_pow(b: &Float, r: &Float, a: &Float) -> bool {
    let pr = a.prec().max(b.prec()) + 64;
    let (v, o) = Float::with_val_round(pr, b.pow(r), RNDZ);
    o == std::cmp::Ordering::Equal && v == *a
}
