//! C16: the macro `expr!`. Random expressions are compiled with the macro (../macro_run), evaluated on random arguments,
//! and compared with their value by MPFR at a precision far beyond, correctly rounded.

use crate::drive::*;
use crate::exact::Dy;
use crate::gen::*;
use crate::model::*;
use crate::report::*;
use crate::rng::Rng;
use astro_float_num::{RoundingMode, EXPONENT_MAX, EXPONENT_MIN};
use rug::float::Special;
use rug::ops::Pow;
use rug::{Float, Integer};
use serde_json::json;
use std::cell::RefCell;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

const F: Fmt = Fmt { wb: 64, emin: EXPONENT_MIN as i64, emax: EXPONENT_MAX as i64 };
/// cancellation up to this many bits is judged
const MAX_LOST: i64 = 1100;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ty {
    Big,
    I64,
    U128,
    F64,
    Str,
}

#[derive(Clone, Debug)]
enum Ex {
    Var(usize),
    /// source text and decimal value
    Lit(String, String),
    Const(&'static str),
    Neg(Box<Ex>),
    Bin(char, Box<Ex>, Box<Ex>),
    Fun(&'static str, Vec<Ex>),
}

struct Expr {
    vars: Vec<Ty>,
    ex: Ex,
    /// 0: Context, 1: tuple of three, 2: tuple of five
    form: u8,
    src: String,
    /// near-equal arguments make it cancel
    close: bool,
}

fn v(k: usize) -> Ex {
    Ex::Var(k)
}
fn f1(n: &'static str, a: Ex) -> Ex {
    Ex::Fun(n, vec![a])
}
fn f2(n: &'static str, a: Ex, b: Ex) -> Ex {
    Ex::Fun(n, vec![a, b])
}
fn b2(o: char, a: Ex, b: Ex) -> Ex {
    Ex::Bin(o, Box::new(a), Box::new(b))
}
fn lit(s: &str) -> Ex {
    Ex::Lit(s.to_string(), s.to_string())
}

const FUN1: [&str; 19] = [
    "recip", "sqrt", "cbrt", "ln", "log2", "log10", "exp", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh",
];

fn literal(r: &mut Rng) -> Ex {
    let d = |r: &mut Rng, n: usize| (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect::<String>();
    match r.below(12) {
        0 => lit(&r.below(20).to_string()),
        1 => lit(&(r.below(1000) + 1).to_string()),
        2 => {
            let n = r.usize(15, 60);
            lit(&format!("1{}", d(r, n)))
        }
        3 => {
            let x = r.below(1 << 40);
            Ex::Lit(format!("0x{:X}", x), x.to_string())
        }
        4 => Ex::Lit("1_000_003".into(), "1000003".into()),
        5 => lit(&format!("{}.5", r.below(30))),
        6 => lit(&format!("0.{}", r.below(99999) + 1)),
        7 => lit(&format!("1.{}e-{}", d(r, 5), r.below(30))),
        8 => lit(&format!("{}.{}e+{}", r.below(9) + 1, d(r, 3), r.below(12))),
        9 => {
            let t = format!("{}.{}", r.below(20), d(r, 30));
            Ex::Lit(format!("\"{}\"", t), t)
        }
        10 => {
            let n = r.usize(1, 90);
            let t = format!("1.{}{}", "0".repeat(n), r.below(9) + 1);
            Ex::Lit(format!("\"{}\"", t), t)
        }
        _ => {
            let t = format!("-1.{}e-{}", d(r, 6), r.below(9));
            Ex::Lit(format!("\"{}\"", t), t)
        }
    }
}

fn tree(r: &mut Rng, depth: usize, nv: usize) -> Ex {
    if depth == 0 || r.chance(1, 8) {
        return match r.below(10) {
            0..=6 => v(r.usize(0, nv - 1)),
            7 => Ex::Const(*r.pick(&["pi", "e", "ln_2", "ln_10"])),
            _ => literal(r),
        };
    }
    match r.below(12) {
        0..=5 => {
            let o = *r.pick(&['+', '-', '*', '/', '+', '-', '*', '/', '+', '-', '%']);
            let a = tree(r, depth - 1, nv);
            b2(o, a, tree(r, depth - 1, nv))
        }
        6 => Ex::Neg(Box::new(tree(r, depth - 1, nv))),
        7 => {
            let a = tree(r, depth - 1, nv);
            let n = if r.chance(1, 2) { "pow" } else { "log" };
            f2(n, a, tree(r, depth - 1, nv))
        }
        _ => {
            let n = *r.pick(&FUN1);
            f1(n, tree(r, depth - 1, nv))
        }
    }
}

/// Expressions in which nearly all digits cancel.
fn cancelling(r: &mut Rng) -> Ex {
    let n = *r.pick(&FUN1);
    let g = |r: &mut Rng, x: Ex| match r.below(6) {
        0 => x,
        1 => f1("sqrt", x),
        2 => b2('/', x, lit("3")),
        3 => b2('*', x, Ex::Const("pi")),
        4 => f1("exp", x),
        _ => f1("ln", x),
    };
    match r.below(22) {
        0 => b2('-', f1(n, v(0)), f1(n, v(1))),
        1 => b2('+', f1(n, v(0)), Ex::Neg(Box::new(f1(n, v(1))))),
        2 => f1("ln", b2('/', g(r, v(0)), g(r, v(1)))),
        3 => {
            let f = *r.pick(&["ln", "log2", "log10"]);
            f1(f, b2('/', f1(n, v(0)), f1(n, v(1))))
        }
        4 => {
            let f = *r.pick(&["acos", "asin", "atanh"]);
            f1(f, b2('/', f1("exp", v(0)), f1("exp", v(1))))
        }
        5 => f1("acosh", b2('/', f1("sqrt", v(0)), f1("sqrt", v(1)))),
        6 => {
            let (f, g) = *r.pick(&[("ln", "exp"), ("asin", "sin"), ("acos", "cos"), ("tan", "atan"), ("sinh", "asinh"), ("cosh", "acosh"), ("atanh", "tanh"), ("acosh", "cosh"), ("exp", "ln")]);
            f1(f, f1(g, v(0)))
        }
        7 => f2("log", f2("pow", v(1), v(0)), v(1)),
        8 => f2("pow", b2('/', f1("sqrt", v(0)), f1("sqrt", v(1))), v(2)),
        9 => b2('-', f1("exp", v(0)), lit("1")),
        10 => b2('-', f1("cos", b2('-', v(0), v(1))), lit("1")),
        11 => b2('-', f1("sqrt", b2('+', b2('*', v(0), v(0)), lit("1"))), v(0)),
        12 => f1(*r.pick(&["sin", "tan"]), b2('*', v(2), Ex::Const("pi"))),
        13 => f1(*r.pick(&["cos", "tan"]), b2('*', b2('+', lit("1"), v(2)), b2('/', Ex::Const("pi"), lit("2")))),
        14 => f2("log", b2('/', f1("exp", v(0)), f1("exp", v(1))), f1("sqrt", v(2))),
        15 => f2("log", f1("sqrt", v(2)), b2('/', f1("exp", v(0)), f1("exp", v(1)))),
        16 => b2('%', b2('*', v(0), lit("7")), f1("sqrt", v(1))),
        17 => b2('-', b2('/', lit("1"), g(r, v(0))), b2('/', lit("1"), g(r, v(1)))),
        18 => b2('-', g(r, v(0)), g(r, v(1))),
        19 => b2('-', b2('+', lit("1"), v(2)), lit("1")),
        20 => b2('*', f1("sin", v(0)), b2('-', f1("ln", v(0)), f1("ln", v(1)))),
        _ => f1(*r.pick(&["sin", "cos", "tan"]), f1("exp", v(2))),
    }
}

fn source(e: &Ex, r: &mut Rng, o: &mut String) {
    match e {
        Ex::Var(k) => write!(o, "{}", ["x", "y", "z"][*k]).unwrap(),
        Ex::Lit(s, _) => o.push_str(s),
        Ex::Const(c) => o.push_str(c),
        Ex::Neg(a) => {
            o.push_str("-(");
            source(a, r, o);
            o.push(')');
        }
        Ex::Bin(c, a, b) => {
            // parentheses are left out where the usual precedence makes no difference
            let rank = |c: char| if "+-".contains(c) { 1 } else { 2 };
            let need = |x: &Ex, right: bool| match x {
                Ex::Bin(d, _, _) => rank(*d) < rank(*c) || (right && rank(*d) == rank(*c)),
                _ => false,
            };
            for (k, x) in [a, b].into_iter().enumerate() {
                if k == 1 {
                    write!(o, " {} ", c).unwrap();
                }
                let par = need(x, k == 1) || (matches!(**x, Ex::Bin(..)) && r.chance(1, 3));
                if par {
                    o.push('(');
                }
                source(x, r, o);
                if par {
                    o.push(')');
                }
            }
        }
        Ex::Fun(n, a) => {
            write!(o, "{}(", n).unwrap();
            for (k, x) in a.iter().enumerate() {
                if k > 0 {
                    o.push_str(", ");
                }
                source(x, r, o);
            }
            o.push(')');
        }
    }
}

fn expressions(seed: u64, n: usize) -> Vec<Expr> {
    (0..n)
        .map(|k| {
            let mut r = Rng::for_case(seed, "exprs", 0, k as u64);
            let close = r.chance(1, 2);
            let ex = if k < FUN1.len() {
                f1(FUN1[k], v(0))
            } else if k < FUN1.len() + 7 {
                let j = k - FUN1.len();
                match j {
                    5 => f2("pow", v(0), v(1)),
                    6 => f2("log", v(0), v(1)),
                    _ => b2(['+', '-', '*', '/', '%'][j], v(0), v(1)),
                }
            } else if k == FUN1.len() + 7 {
                v(0)
            } else if r.chance(1, 2) {
                let c = cancelling(&mut r);
                if r.chance(1, 3) {
                    // and as a part of a larger one
                    let o = *r.pick(&['+', '*', '-', '/']);
                    if r.chance(1, 2) {
                        let n = *r.pick(&FUN1);
                        b2(o, c, f1(n, v(2)))
                    } else {
                        f1(*r.pick(&["atan", "exp", "cbrt", "sinh", "asinh", "recip"]), c)
                    }
                } else {
                    c
                }
            } else {
                let d = r.usize(1, 4);
                tree(&mut r, d, 3)
            };
            let vars = (0..3)
                .map(|_| *r.pick(&[Ty::Big, Ty::Big, Ty::Big, Ty::Big, Ty::Big, Ty::I64, Ty::U128, Ty::F64, Ty::Str, Ty::Str]))
                .collect();
            let mut src = String::new();
            source(&ex, &mut r, &mut src);
            Expr { vars, ex, form: r.below(3) as u8, src, close }
        })
        .collect()
}

fn program(v: &[Expr]) -> String {
    let mut o = String::new();
    for (k, e) in v.iter().enumerate() {
        writeln!(o, "#[allow(unused, clippy::all)]\nfn e{}(v: &[Val], c: &mut Cx) -> BigFloat {{", k).unwrap();
        for (j, t) in e.vars.iter().enumerate() {
            let g = match t {
                Ty::Big => "big",
                Ty::I64 => "i64",
                Ty::U128 => "u128",
                Ty::F64 => "f64",
                Ty::Str => "str",
            };
            writeln!(o, "    let {} = v[{}].{}();", ["x", "y", "z"][j], j, g).unwrap();
        }
        writeln!(o, "    let mut cc = c.cc.take().unwrap();").unwrap();
        match e.form {
            0 => writeln!(o, "    let mut t = Context::new(c.p, c.rm, cc, c.emin, c.emax);\n    let r = expr!({}, &mut t);\n    c.cc = Some(t.to_raw_parts().2);\n    r", e.src),
            1 => writeln!(o, "    let r = expr!({}, (c.p, c.rm, &mut cc));\n    c.cc = Some(cc);\n    r", e.src),
            _ => writeln!(o, "    let r = expr!({}, (c.p, c.rm, &mut cc, c.emin, c.emax));\n    c.cc = Some(cc);\n    r", e.src),
        }
        .unwrap();
        o.push_str("}\n");
    }
    writeln!(o, "pub const EXPRS: [fn(&[Val], &mut Cx) -> BigFloat; {}] = [", v.len()).unwrap();
    for k in 0..v.len() {
        write!(o, "e{}, ", k).unwrap();
    }
    o.push_str("];\n");
    o
}

// ---------------------------------------------------------------------------------------------

/// An argument: what is sent, and its exact value.
#[derive(Clone, Debug)]
enum Arg {
    Big { neg: bool, e: i64, words: Vec<u64>, inexact: bool },
    I64(i64),
    U128(u128),
    F64(f64),
    Str(String),
}

impl Arg {
    fn text(&self) -> String {
        match self {
            Arg::Big { neg, e, words, inexact } => {
                let h: String = words.iter().rev().map(|w| format!("{:016x}", w)).collect();
                format!("b{},{},{},{}", if *neg { "-" } else { "+" }, e, *inexact as u8, h)
            }
            Arg::I64(x) => format!("i{}", x),
            Arg::U128(x) => format!("u{}", x),
            Arg::F64(x) => format!("f{:x}", x.to_bits()),
            Arg::Str(s) => format!("s{}", s),
        }
    }
    fn value(&self, prec: u32) -> Float {
        match self {
            Arg::Big { neg, e, words, .. } => {
                let m = words_to_int(words);
                let d = Dy { neg: *neg, m, k: *e - 64 * words.len() as i64 };
                if d.m == 0 {
                    return Float::with_val(prec, 0);
                }
                let f = scaled(&d.m, d.k);
                if d.neg {
                    -f
                } else {
                    f
                }
            }
            Arg::I64(x) => Float::with_val(64, *x),
            Arg::U128(x) => Float::with_val(128, *x),
            Arg::F64(x) => Float::with_val(53, *x),
            Arg::Str(s) => Float::with_val(prec, Float::parse(s).expect("number")),
        }
    }
    /// It fits in the first working precision.
    fn exact(&self, p: usize) -> bool {
        match self {
            Arg::Str(_) => false,
            Arg::Big { words, .. } => words.len() * 64 <= p + 64,
            _ => p >= 64 || !matches!(self, Arg::U128(_)),
        }
    }
}

fn decimal_of(x: &Float, digits: usize) -> String {
    x.to_string_radix(10, Some(digits)).replace('@', "")
}

/// A value of the type, next to `to` when given.
fn arg(r: &mut Rng, t: Ty, to: Option<&Float>) -> Arg {
    let target = |r: &mut Rng, x: &Float, k: u32| {
        let mut d = Float::with_val(64, 1u32 + r.below(1000) as u32);
        d >>= k + 10;
        let n = x.prec().max(64) + k + 80;
        if r.chance(1, 2) {
            d = -d;
        }
        Float::with_val(n, x * Float::with_val(n, 1 + Float::with_val(n, &d)))
    };
    match t {
        Ty::Big => {
            if let Some(x) = to {
                let k = *r.pick(&[3u32, 20, 50, 64, 100, 128, 200, 300, 500, 700]);
                let k = k + r.below(30) as u32;
                let y = target(r, x, k);
                let len = (k as usize / 64 + 2).max(1);
                if let Some(b) = from_mpfr(&y, len) {
                    if let Some((m, _, s, e, _)) = b.as_raw_parts() {
                        return Arg::Big { neg: s == astro_float_num::Sign::Neg, e: e as i64, words: m.to_vec(), inexact: r.chance(1, 4) };
                    }
                }
            }
            let len = match r.below(10) {
                0 => r.usize(4, 16),
                1..=3 => r.usize(2, 4),
                _ => 1,
            };
            let mut words = gen_words(r, len);
            let e = match r.below(12) {
                0 => r.range(-200, 0),
                1 => r.range(10, 60),
                2 | 3 => r.range(3, 8),
                4..=7 => 0,
                8 | 9 => 1,
                _ => r.range(-8, 3),
            };
            if r.chance(1, 4) {
                // next to one
                words = vec![0; len];
                words[len - 1] = 1 << 63;
                let j = r.usize(0, len * 64 - 2);
                words[j / 64] |= 1 << (j % 64);
                if words[len - 1] >> 63 == 0 {
                    words[len - 1] |= 1 << 63;
                }
                return Arg::Big { neg: r.chance(1, 5), e: 1, words, inexact: r.chance(1, 4) };
            }
            let l = words.len();
            words[l - 1] |= 1 << 63;
            Arg::Big { neg: r.chance(1, 4), e, words, inexact: r.chance(1, 4) }
        }
        Ty::I64 => Arg::I64(match r.below(6) {
            0 => r.u64() as i64,
            1 => -(r.below(50) as i64),
            _ => r.below(40) as i64 + 1,
        }),
        Ty::U128 => Arg::U128(match r.below(4) {
            0 => (r.u64() as u128) << 64 | r.u64() as u128,
            1 => r.u64() as u128,
            _ => r.below(60) as u128 + 1,
        }),
        Ty::F64 => Arg::F64(match r.below(5) {
            0 => 1.0 + r.range(-1000, 1000) as f64 * f64::EPSILON,
            1 => to.map(|x| x.to_f64()).filter(|x| x.is_normal()).unwrap_or(0.5),
            2 => r.range(-100000, 100000) as f64 / 1024.0,
            _ => (r.u64() >> 11) as f64 / (1u64 << 53) as f64,
        }),
        Ty::Str => Arg::Str(match r.below(5) {
            0 => "0.1".into(),
            1 | 2 => {
                if let Some(x) = to {
                    let k = *r.pick(&[10u32, 40, 70, 130, 260, 600]);
                    let y = target(r, x, k);
                    decimal_of(&y, k as usize * 3 / 10 + 12)
                } else {
                    let n = r.usize(0, 120);
                    format!("1.{}{}", "0".repeat(n), r.below(9) + 1)
                }
            }
            3 => format!("{}.{}", r.below(30), r.u64()),
            _ => format!("0.{}{}", r.u64(), r.u64()),
        }),
    }
}

/// What happened inside an evaluation.
#[derive(Default)]
struct Haz {
    /// bits lost by cancellation of inexact operands
    lost: i64,
    /// an addition or subtraction of inexact operands lost so many bits
    added: i64,
    /// and the exponent of the operands was so big
    far: i64,
    rem_lost: i64,
    /// the argument of asin, acos, acosh or atanh is so many bits close to one
    to_one: i64,
    lo: i64,
    hi: i64,
    zero: bool,
    special: bool,
    /// there is a logarithm whose value is a matter of convention
    open: bool,
}

struct Env<'a> {
    args: &'a [Arg],
    p: usize,
    prec: u32,
    emin: i64,
    emax: i64,
    /// an exponent is next to a limit of the context
    edge: bool,
    /// an argument was out of the range
    clipped: bool,
}

fn exp_of(x: &Float) -> Option<i64> {
    if x.is_normal() {
        Some(get_exp(x))
    } else {
        None
    }
}

/// Value and whether it is exact (an argument or a literal).
fn eval(e: &Ex, env: &mut Env, h: &mut Haz) -> Option<(Float, bool)> {
    let p = env.prec;
    let r = match e {
        Ex::Var(k) => {
            let i = env.args[*k].exact(env.p);
            let x = clip(env.args[*k].value(p), i, env);
            let n = x.prec().max(p);
            (Float::with_val(n, x), i)
        }
        Ex::Lit(_, d) => {
            let i = !d.contains('.') && !d.contains('e');
            let x = clip(Float::with_val(p, Float::parse(d).ok()?), i, env);
            (x, i)
        }
        Ex::Const(c) => (
            match *c {
                "pi" => Float::with_val(p, rug::float::Constant::Pi),
                "e" => Float::with_val(p, 1).exp(),
                "ln_2" => Float::with_val(p, rug::float::Constant::Log2),
                _ => Float::with_val(p, 10).ln(),
            },
            false,
        ),
        Ex::Neg(a) => {
            let (x, i) = eval(a, env, h)?;
            (-x, i)
        }
        Ex::Bin(o, a, b) => {
            let (x, i) = eval(a, env, h)?;
            let (y, j) = eval(b, env, h)?;
            let z = match o {
                '+' => Float::with_val(p, &x + &y),
                '-' => Float::with_val(p, &x - &y),
                '*' => Float::with_val(p, &x * &y),
                '/' => Float::with_val(p, &x / &y),
                _ => {
                    if let (Some(a), Some(b)) = (exp_of(&x), exp_of(&y)) {
                        if a - b > 3000 {
                            return None;
                        }
                    }
                    let z = Float::with_val(p.max(x.prec()).max(y.prec()), &x % &y);
                    if !(i && j) {
                        // an error of the operands counts as much as the quotient is long; near a jump all is lost
                        let big = exp_of(&x).unwrap_or(0).max(exp_of(&y).unwrap_or(0));
                        let d = Float::with_val(p, y.clone().abs() - z.clone().abs());
                        let near = exp_of(&z).unwrap_or(-99999).min(exp_of(&d).unwrap_or(-99999));
                        h.rem_lost = h.rem_lost.max(big - near);
                    }
                    z
                }
            };
            if (*o == '+' || *o == '-') && !(i && j) {
                if let (Some(a), Some(b)) = (exp_of(&x), exp_of(&y)) {
                    let l = a.max(b) - exp_of(&z).unwrap_or(-(1 << 40));
                    h.lost = h.lost.max(l);
                    h.added = h.added.max(l);
                    if l >= env.p as i64 + 60 {
                        h.far = h.far.max(a.abs().max(b.abs()));
                    }
                }
            }
            // exact operands of moderate length give an exact value
            let s = i && j && (x.prec() + y.prec() < p / 2) && *o != '/';
            (z, s)
        }
        Ex::Fun(n, a) => {
            let (mut x, mut i) = eval(&a[0], env, h)?;
            if matches!(*n, "sin" | "cos" | "tan") {
                let y = clip(x.clone(), i, env);
                if y != x {
                    i = true;
                }
                x = y;
                if exp_of(&x).unwrap_or(0) > 1000 {
                    return None;
                }
            }
            let one = Float::with_val(p, 1);
            let mut near = |x: &Float, i: bool, h: &mut Haz| {
                if !i && x.is_normal() {
                    let d = Float::with_val(p, x.clone().abs() - &one);
                    h.lost = h.lost.max(-exp_of(&d).unwrap_or(-(1 << 40)));
                }
            };
            let w = |x: &Float| Float::with_val(p, x);
            let z = match *n {
                "recip" => w(&x).recip(),
                "sqrt" => w(&x).sqrt(),
                "cbrt" => w(&x).cbrt(),
                "exp" => w(&x).exp(),
                "sinh" => w(&x).sinh(),
                "cosh" => w(&x).cosh(),
                "tanh" => w(&x).tanh(),
                "asinh" => w(&x).asinh(),
                "atan" => w(&x).atan(),
                "ln" | "log2" | "log10" | "asin" | "acos" | "acosh" | "atanh" => {
                    near(&x, i, h);
                    if matches!(*n, "asin" | "acos" | "acosh" | "atanh") && x.is_normal() {
                        let d = Float::with_val(x.prec(), x.clone().abs() - &one);
                        if let Some(e) = exp_of(&d) {
                            h.to_one = h.to_one.max(-e);
                        }
                    }
                    match *n {
                        "ln" => w(&x).ln(),
                        "log2" => w(&x).log2(),
                        "log10" => w(&x).log10(),
                        "asin" => w(&x).asin(),
                        "acos" => w(&x).acos(),
                        "acosh" => w(&x).acosh(),
                        _ => w(&x).atanh(),
                    }
                }
                "sin" | "cos" | "tan" => {
                    let z = match *n {
                        "sin" => w(&x).sin(),
                        "cos" => w(&x).cos(),
                        _ => w(&x).tan(),
                    };
                    if !i {
                        if let (Some(ez), Some(ex)) = (exp_of(&z), exp_of(&x)) {
                            if ex >= 0 {
                                h.lost = h.lost.max(ez.abs() + ex);
                            }
                        }
                    }
                    z
                }
                "pow" | "log" => {
                    let (y, j) = eval(&a[1], env, h)?;
                    near(&x, i, h);
                    if *n == "log" {
                        near(&y, j, h);
                        if !y.is_normal() || y == 1 || !x.is_normal() || y.is_sign_negative() {
                            h.open = true;
                            h.special = true;
                        }
                        let l = w(&x).ln();
                        Float::with_val(p, &l / w(&y).ln())
                    } else {
                        if x.is_zero() || y.is_zero() || (x.is_sign_negative() && !j) {
                            h.open = true;
                            h.special = true;
                        }
                        if exp_of(&y).unwrap_or(0) > 64 && x.is_sign_negative() {
                            h.special = true;
                        }
                        w(&x).pow(&y)
                    }
                }
                _ => return None,
            };
            (z, false)
        }
    };
    if let Some(e) = exp_of(&r.0) {
        h.lo = h.lo.min(e);
        h.hi = h.hi.max(e);
    } else if r.0.is_zero() {
        h.zero = true;
    } else {
        h.special = true;
    }
    Some(r)
}

/// Arguments out of the range of the context become zero or infinite.
fn clip(x: Float, exact: bool, env: &mut Env) -> Float {
    if let Some(e) = exp_of(&x) {
        // rounding of a value next to a power of two may bring it in the range or out of it
        if !exact && ((e - env.emax).abs() <= 1 || (e - env.emin).abs() <= 1) {
            let a = Float::with_val(x.prec(), x.abs_ref());
            let m = if e >= 0 { a >> e as u32 } else { a << (-e) as u32 };
            // m is from 1/2 up to 1
            let d = Float::with_val(64, 1 - m.clone());
            let u = Float::with_val(64, &m - 0.5f64);
            let lim = -(env.p as i64).min(60);
            env.edge = env.edge || [d, u].iter().any(|d| d.is_zero() || exp_of(d).unwrap_or(0) < lim);
        }
        if e > env.emax || e < env.emin {
            env.clipped = true;
        }
        if e > env.emax {
            return Float::with_val(x.prec(), if x.is_sign_negative() { Special::NegInfinity } else { Special::Infinity });
        }
        if e < env.emin {
            return Float::with_val(x.prec(), 0);
        }
    }
    x
}

// ---------------------------------------------------------------------------------------------

struct Server {
    ch: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.ch.kill();
        let _ = self.ch.wait();
    }
}

thread_local! {
    static SRV: RefCell<Option<Server>> = const { RefCell::new(None) };
}

/// The answer, or how the process ended.
fn ask(exe: &str, line: &str) -> Result<String, String> {
    SRV.with(|s| {
        let mut s = s.borrow_mut();
        let v = s.get_or_insert_with(|| {
            let mut ch = Command::new(exe).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("program starts");
            let inp = ch.stdin.take().unwrap();
            let out = BufReader::new(ch.stdout.take().unwrap());
            Server { ch, inp, out }
        });
        let mut l = String::new();
        let ok = v.inp.write_all(line.as_bytes()).and_then(|_| v.inp.write_all(b"\n")).and_then(|_| v.inp.flush()).is_ok()
            && matches!(v.out.read_line(&mut l), Ok(n) if n > 0 && l.ends_with('\n'));
        if ok {
            return Ok(l.trim_end().to_string());
        }
        let mut x = s.take().unwrap();
        let _ = x.ch.kill();
        let st = x.ch.wait().expect("wait");
        use std::os::unix::process::ExitStatusExt;
        Err(match (st.code(), st.signal()) {
            (Some(99), _) => "hang".into(),
            (_, Some(9)) => "killed".into(),
            (c, g) => format!("ended:{:?}:{:?}", c, g),
        })
    })
}

fn rm_word(rm: RoundingMode) -> &'static str {
    match rm {
        RoundingMode::ToEven => "even",
        RoundingMode::Up => "up",
        RoundingMode::Down => "down",
        RoundingMode::ToZero => "zero",
        RoundingMode::FromZero => "from",
        RoundingMode::ToOdd => "odd",
        RoundingMode::None => "none",
    }
}

enum Got {
    Nan(String),
    R(Res2, usize),
}

fn read(a: &str) -> Option<Got> {
    let f: Vec<&str> = a.split(' ').collect();
    Some(match f[0] {
        "I+" => Got::R(Res2::Inf(false), 0),
        "I-" => Got::R(Res2::Inf(true), 0),
        "N" => Got::Nan(f[1..].join(" ")),
        "V" => {
            let hex = f.get(5).copied().unwrap_or("");
            let m = if hex.is_empty() { Integer::new() } else { Integer::from_str_radix(hex, 16).ok()? };
            let bits = hex.len() * 4;
            if m == 0 {
                Got::R(Res2::Zero, bits)
            } else {
                Got::R(Res2::Num { neg: f[1] == "-", e: f[2].parse().ok()?, m }, bits)
            }
        }
        _ => return None,
    })
}

fn case(r: &mut Rng, w: &mut Worker, i: u64, all: &[Expr], exe: &str) {
    let k = r.below(all.len() as u64) as usize;
    let ex = &all[k];
    let p = match r.below(8) {
        0 => 64 * r.usize(1, 8),
        1 => r.usize(1, 70),
        2 => r.usize(300, 1200),
        _ => r.usize(40, 300),
    };
    let rm = if r.chance(1, 12) { RoundingMode::None } else { gen_rm(r) };
    let (mut emin, mut emax) = match r.below(6) {
        0 => (-(r.below(3000) as i64), r.below(3000) as i64),
        1 => (-(r.below(60) as i64), r.below(60) as i64),
        2 => (F.emin, F.emax),
        _ => (-100_000, 100_000),
    };
    if ex.form == 1 {
        (emin, emax) = (F.emin, F.emax);
    }
    let x = arg(r, ex.vars[0], None);
    let pi = r.chance(1, 10);
    let y = {
        let t = if pi {
            Some(Float::with_val(1200, rug::float::Constant::Pi) * r.below(40) as u32 / 2u32)
        } else if ex.close || r.chance(1, 6) {
            Some(x.value(1200))
        } else {
            None
        };
        let t = t.filter(|t| t.is_normal());
        arg(r, ex.vars[1], t.as_ref())
    };
    let (x, y) = if pi && r.chance(1, 2) && ex.vars[0] == ex.vars[1] { (y, x) } else { (x, y) };
    let z = arg(r, ex.vars[2], None);
    let args = vec![x, y, z];
    if ex.form != 1 && r.chance(1, 6) {
        // a limit of the context next to the exponent of an argument or of the value
        let prec = p as u32 + 200;
        let mut env = Env { args: &args, p, prec, emin: F.emin, emax: F.emax, edge: false, clipped: false };
        let v = match r.below(5) {
            k @ 0..=2 => Some(args[k as usize].value(prec)),
            _ => eval(&ex.ex, &mut env, &mut Haz::default()).map(|v| v.0),
        };
        if let Some(e) = v.and_then(|v| exp_of(&v)) {
            let t = (e + r.below(3) as i64 - 1).clamp(F.emin, F.emax);
            if t > 0 || (t == 0 && r.chance(1, 2)) {
                emax = t;
            } else {
                emin = t;
            }
            w.st.count("limit_at_value");
        }
    }
    let desc = json!({"expr": ex.src, "form": ex.form, "types": format!("{:?}", ex.vars), "args": args.iter().map(|a| a.text()).collect::<Vec<_>>(),
        "p": p, "rm": rm_word(rm), "emin": emin, "emax": emax});
    // the value
    let longest = args.iter().map(|a| a.value(64).prec()).max().unwrap_or(64);
    let p1 = p as u32 + 1800 + longest.min(3000);
    let ev = |prec: u32| {
        let mut env = Env { args: &args, p, prec, emin, emax, edge: false, clipped: false };
        let mut h = Haz::default();
        let v = eval(&ex.ex, &mut env, &mut h);
        (v, h, env.edge, env.clipped)
    };
    let (v1, h, e1, clipped) = ev(p1);
    let (v2, _, _, _) = ev(p1 + 900);
    let (Some((v1, _)), Some((v2, _))) = (v1, v2) else {
        w.st.count("left_out:cost");
        return;
    };
    // a value that rounds to one looks as close to one as the working precision is long
    let lim = (-emin - p as i64 - 300).min(MAX_LOST).max(0);
    let deep = h.lost > lim;
    if deep && emin < -3000 {
        w.st.count("left_out:deep_cancellation");
        return;
    }
    if h.far > 50_000 {
        // the known finding about operands which agree entirely: the working precision becomes as long as their exponent
        w.st.count("left_out:cancelled_entirely_far");
        return;
    }
    let line = format!("{} {} {} {} {} {}", k, p, rm_word(rm), emin, emax, args.iter().map(|a| a.text()).collect::<Vec<_>>().join(" "));
    w.begin(|| desc.clone());
    w.st.evals += 1;
    let ans = match ask(exe, &line) {
        Ok(a) => a,
        Err(e) if e == "killed" => {
            w.st.inconclusive += 1;
            w.st.count("killed");
            return;
        }
        Err(e) => return w.violate(format!("macro:{}", e), json!({"case": desc})),
    };
    if let Some(m) = ans.strip_prefix("P ") {
        return w.violate(format!("macro:panic:{}", root(&ex.ex)), json!({"case": desc, "panic": m}));
    }
    let Some(got) = read(&ans) else { return w.violate("macro:answer", json!({"case": desc, "got": ans})) };
    w.st.count("answered");
    // functions of an argument replaced by an infinity belong to another property; so does the domain next to its ends
    let short = args.iter().all(|a| a.exact(p));
    // intermediate results out of the range of the library are lost
    let out = h.hi > F.emax - 100 || h.lo < F.emin + 10_000;
    if deep || e1 || (out && !matches!(ex.ex, Ex::Var(_))) || h.rem_lost > 30 || (clipped && h.special && matches!(&ex.ex, Ex::Fun(..))) {
        w.st.count("only_answered");
        return;
    }
    let show2 = |r: &Res2| match r {
        Res2::Num { neg, e, m } => format!("{}{:x} e {}", if *neg { "-" } else { "" }, m, e),
        r => format!("{:?}", r),
    };
    let single = matches!(&ex.ex, Ex::Var(_)) || matches!(&ex.ex, Ex::Bin(_, a, b) if matches!(**a, Ex::Var(_)) && matches!(**b, Ex::Var(_)));
    let special = h.special || v2.is_nan() || v2.is_infinite();
    if special && !single {
        // a function out of its domain
        if short && !h.open && !clipped && v1.is_nan() && v2.is_nan() && !h.zero && h.lost < 20 && h.hi < 30 && h.lo > -60 {
            w.st.count("nan");
            if let Got::R(r, _) = &got {
                if !matches!(r, Res2::Nan) {
                    w.violate(format!("macro:nan:{}", root(&ex.ex)), json!({"case": desc, "got": show2(r), "expected": "NaN"}));
                }
            }
        } else {
            w.st.count("left_out:special");
        }
        return;
    }
    if !special && !v1.is_zero() {
        let d = Float::with_val(p1, &v1 - &v2);
        if let (Some(a), Some(b)) = (exp_of(&d), exp_of(&v2)) {
            if b - a < p as i64 + 200 {
                w.st.count("left_out:undetermined");
                return;
            }
        }
        if v2.is_zero() {
            return;
        }
    }
    // the allowed results: the value rounded, or rounded from very near it
    let mut want = vec![];
    if v2.is_nan() {
        want.push(Res2::Nan);
    } else if v2.is_infinite() {
        want.push(Res2::Inf(v2.is_sign_negative()));
    } else if v2.is_zero() {
        want.push(Res2::Zero);
    } else {
        let n = v2.prec() + 8;
        let mut d = Float::with_val(64, 1);
        d >>= p as u32 + 20;
        let modes: &[RoundingMode] = if rm == RoundingMode::None { &[RoundingMode::ToZero, RoundingMode::FromZero] } else { &[rm] };
        for m in modes {
            for q in [Float::with_val(n, 1 - &d), Float::with_val(n, 1 + &d)] {
                let x = Float::with_val(n, &v2 * &q);
                let (mut r, _) = round_fmt(&Ideal::Num { v: x, sticky: false }, p, *m, &F);
                if let Res2::Num { neg, e, .. } = &r {
                    if *e > emax {
                        r = Res2::Inf(*neg);
                    } else if *e < emin {
                        r = Res2::Zero;
                    }
                }
                if !want.contains(&r) {
                    want.push(r);
                }
            }
        }
    }
    let cls = if h.added >= p as i64 + 60 {
        "cancelled_entirely"
    } else if h.to_one >= p as i64 + 60 {
        "rounded_to_one"
    } else if args.iter().any(|a| !a.exact(p)) {
        "rounded_argument"
    } else if h.lost > 20 {
        "cancelling"
    } else {
        "plain"
    };
    let near = |r: &Res2| -> bool {
        // without rounding only the error is bounded
        let Res2::Num { neg, e, m } = r else { return false };
        if v2.is_zero() || special {
            return false;
        }
        let b = m.significant_bits() as i64;
        let g = scaled(m, e - b);
        let g = if *neg { -g } else { g };
        let d = Float::with_val(64, &g - &v2);
        d.is_zero() || exp_of(&d).unwrap_or(1 << 40) <= get_exp(&v2) - p as i64 + 1
    };
    let ok = match &got {
        Got::Nan(_) => want.contains(&Res2::Nan),
        Got::R(r, _) => want.contains(r) || (rm == RoundingMode::None && near(r)),
    };
    w.st.count(&format!("{}:{}", root(&ex.ex), cls));
    if !ok {
        let g = match &got {
            Got::Nan(e) => format!("NaN {}", e),
            Got::R(r, _) => show2(r),
        };
        let sig = if cls == "cancelled_entirely" || cls == "rounded_to_one" { format!("macro:value:{}", cls) } else { format!("macro:value:{}:{}", cls, root(&ex.ex)) };
        return w.violate(sig, json!({"case": desc, "got": g, "expected": want.iter().map(show2).collect::<Vec<_>>(), "lost_bits": h.lost}));
    }
    if let Got::R(r @ Res2::Num { .. }, bits) = &got {
        if *bits != F.round_p(p) {
            return w.violate("macro:precision", json!({"case": desc, "got": bits, "expected": F.round_p(p), "value": show2(r)}));
        }
        w.nontrivial(&desc);
    }
    if i % 40 == 0 {
        w.sample(|| json!({"expr": ex.src, "p": p, "lost_bits": h.lost}));
    }
}

fn root(e: &Ex) -> String {
    match e {
        Ex::Var(_) => "var".into(),
        Ex::Lit(..) => "literal".into(),
        Ex::Const(c) => c.to_string(),
        Ex::Neg(a) => root(a),
        Ex::Bin(c, _, _) => c.to_string(),
        Ex::Fun(n, _) => n.to_string(),
    }
}

/// Build ../macro_run with the expressions of a file.
fn build(cfg: &Config, exprs: &std::path::Path) -> Result<String, String> {
    let dir = cfg.verif.join("macro_run");
    let o = Command::new("cargo")
        .current_dir(&dir)
        .args(["build", "--offline", "--locked"])
        .env("AFV_EXPRS", exprs)
        .output()
        .map_err(|e| e.to_string())?;
    if o.status.success() {
        Ok(dir.join("target/debug/macro_run").display().to_string())
    } else {
        Err(String::from_utf8_lossy(&o.stderr).to_string())
    }
}

pub fn run(cfg: &Config) -> i32 {
    let t = cfg.thorough();
    let dir = cfg.verif.join("macro_run/target");
    let _ = std::fs::create_dir_all(&dir);
    let n = if t { 1500 } else { 400 };
    let all = expressions(cfg.seed, n);
    let mut st = Stats::default();
    // one plain expression must compile, or the library does not build at all
    let f0 = dir.join("exprs-0.rs");
    let simple = vec![Expr { vars: vec![Ty::Big; 3], ex: v(0), form: 1, src: "x".into(), close: false }];
    std::fs::write(&f0, program(&simple)).expect("written");
    if let Err(e) = build(cfg, &f0) {
        println!("the macro does not build: {}", e.lines().filter(|l| l.starts_with("error")).take(5).collect::<Vec<_>>().join("; "));
        return 2;
    }
    let f = dir.join(format!("exprs-{}-{}.rs", cfg.seed, n));
    std::fs::write(&f, program(&all)).expect("written");
    let exe = match build(cfg, &f) {
        Ok(e) => e,
        Err(e) => {
            let ls: Vec<String> = e.lines().skip_while(|l| !l.starts_with("error")).take(40).map(|l| l.chars().take(300).collect()).collect();
            st.evals = 1;
            st.cases = 1;
            st.nontrivial.insert(1);
            st.violate("macro:compile".into(), json!({"what": "an expression of the documented kind does not compile", "output": ls}));
            return finish(cfg, st, "compilation of generated expressions", Default::default(), "exploration");
        }
    };
    let st = drive(cfg, "c16", if t { 2_000_000 } else { 200_000 }, if t { 3000.0 } else { 400.0 }, 120.0, |r, w, i| case(r, w, i, &all, &exe));
    let mut extra = serde_json::Map::new();
    extra.insert("expressions_compiled".into(), json!(n));
    finish(
        cfg,
        st,
        "random and cancelling expressions compiled with the macro in three forms of context, with variables of five types, evaluated on structured arguments; \
         the result must be the value correctly rounded, within 2^-20 of a unit in the last place; non-trivial: distinct evaluations with a finite non-zero result",
        extra,
        "exploration",
    )
}
