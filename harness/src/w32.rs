//! C19: the same contract on 32-bit words. The library is built for i686 and runs in child processes (../lite);
//! every answer is compared with the exact value by MPFR/GMP and the 32-bit rounding model.

use crate::drive::*;
use crate::exact::{add_dy, rem_ideal, trunc, Dy};
use crate::gen::*;
use crate::model::*;
use crate::numeric::*;
use crate::ops::*;
use crate::radix::{self, dec_ok, gen_text, read_text, value_of, RADIXES};
use crate::report::*;
use crate::rng::Rng;
use astro_float_num::{BigFloat, Radix, RoundingMode, Sign};
use rug::{Float, Integer};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

const F: Fmt = Fmt { wb: 32, emin: -536870912, emax: 536870911 };
const BATCH: usize = 64;

/// A number of the 32-bit library.
#[derive(Clone, Debug)]
enum N32 {
    Nan(String),
    Inf(bool),
    Num { neg: bool, e: i64, inx: bool, n: usize, m: Integer, words: usize },
}

impl N32 {
    fn text(&self) -> String {
        match self {
            N32::Nan(_) => "N".into(),
            N32::Inf(n) => (if *n { "I-" } else { "I+" }).into(),
            N32::Num { neg, e, inx, m, words, .. } => {
                let h = m.to_string_radix(16);
                let h = if *m == 0 { "" } else { &h };
                format!("{},{},{},{}{}", if *neg { "-" } else { "+" }, e, *inx as u8, "0".repeat(words * 8 - h.len()), h)
            }
        }
    }
    fn dy(&self) -> Option<Dy> {
        match self {
            N32::Num { neg, e, m, words, .. } => Some(Dy { neg: *neg, m: m.clone(), k: e - 32 * *words as i64 }),
            _ => None,
        }
    }
    fn float(&self) -> Option<Float> {
        let d = self.dy()?;
        if d.m == 0 {
            let z = Float::with_val(64, 0);
            return Some(if d.neg { -z } else { z });
        }
        let f = scaled(&d.m, d.k);
        Some(if d.neg { -f } else { f })
    }
    fn inx(&self) -> bool {
        matches!(self, N32::Num { inx: true, .. })
    }
    fn subnormal(&self) -> bool {
        matches!(self, N32::Num { m, words, .. } if *m != 0 && (m.significant_bits() as usize) < words * 32)
    }
    fn zero(&self) -> bool {
        matches!(self, N32::Num { m, .. } if *m == 0)
    }
    fn res(&self) -> Res2 {
        match self {
            N32::Nan(_) => Res2::Nan,
            N32::Inf(n) => Res2::Inf(*n),
            N32::Num { m, .. } if *m == 0 => Res2::Zero,
            N32::Num { neg, e, m, .. } => Res2::Num { neg: *neg, e: *e, m: m.clone() },
        }
    }
    fn bits(&self) -> usize {
        match self {
            N32::Num { words, .. } => words * 32,
            _ => 0,
        }
    }
}

/// V sign e inexact n hex | I+ | I- | N err
fn read_num(s: &str) -> Option<N32> {
    let f: Vec<&str> = s.split(' ').collect();
    match f[0] {
        "N" => Some(N32::Nan(f.get(1..).map(|v| v.join(" ")).unwrap_or_default())),
        "I+" => Some(N32::Inf(false)),
        "I-" => Some(N32::Inf(true)),
        "V" => {
            let hex = f.get(5).copied().unwrap_or("");
            if hex.len() % 8 != 0 {
                return None;
            }
            Some(N32::Num {
                neg: f[1] == "-",
                e: f[2].parse().ok()?,
                inx: f[3] == "1",
                n: f[4].parse().ok()?,
                m: if hex.is_empty() { Integer::new() } else { Integer::from_str_radix(hex, 16).ok()? },
                words: hex.len() / 8,
            })
        }
        _ => None,
    }
}

fn canonical(x: &N32) -> Result<(), String> {
    let N32::Num { e, n, m, words, .. } = x else { return Ok(()) };
    if *m == 0 {
        return if *e != 0 || *n != 0 { Err(format!("zero with exponent {} and {} bits", e, n)) } else { Ok(()) };
    }
    if !(F.emin..=F.emax).contains(e) {
        return Err(format!("exponent {} out of range", e));
    }
    let b = m.significant_bits() as usize;
    if b != *n {
        return Err(format!("{} bits told, {} there", n, b));
    }
    if b < words * 32 && *e != F.emin {
        return Err("not normalized".into());
    }
    Ok(())
}

/// A 64-bit number of the generators as a 32-bit one.
fn map_e(r: &mut Rng, e: i64, sh: i64) -> i64 {
    let near = 1 << 22;
    if e > EMAX - near {
        F.emax - (EMAX - e)
    } else if e < EMIN + near {
        F.emin + (e - EMIN)
    } else if !(F.emin..=F.emax).contains(&e) {
        e / 4
    } else {
        let _ = r;
        (e + sh).clamp(F.emin, F.emax)
    }
}

fn map_num(r: &mut Rng, x: &BigFloat, sh: i64) -> N32 {
    let Some((m, _, s, e, i)) = x.as_raw_parts() else {
        return if x.is_nan() { N32::Nan(String::new()) } else { N32::Inf(x.is_inf_neg()) };
    };
    let mut z = words_to_int(m);
    let mut words = m.len() * 2;
    if words > 1 && r.chance(1, 2) {
        z >>= 32;
        words -= 1;
    }
    // patterns in single 32-bit words
    if !x.is_subnormal() && z != 0 && r.chance(1, 4) {
        for _ in 0..r.usize(1, 3) {
            let k = r.usize(0, words - 1);
            if k + 1 < words {
                let mask = Integer::from(u32::MAX) << (32 * k as u32);
                let v = *r.pick(&[0u32, u32::MAX, 1, 1 << 31, (1 << 31) - 1, u32::MAX - 1]);
                z = (z & !mask) | (Integer::from(v) << (32 * k as u32));
            }
        }
    }
    let neg = s == Sign::Neg;
    if z == 0 {
        return N32::Num { neg, e: 0, inx: i, n: 0, m: z, words };
    }
    let e = if x.is_subnormal() { F.emin } else { map_e(r, e as i64, sh) };
    let n = z.significant_bits() as usize;
    N32::Num { neg, e, inx: i, n, m: z, words }
}

fn set_e(x: &mut N32, v: i64) {
    if x.subnormal() || x.zero() {
        return;
    }
    if let N32::Num { e, .. } = x {
        *e = v.clamp(F.emin, F.emax);
    }
}

/// What the answer is judged by.
enum Rule {
    Op(Op, N32, N32, usize, usize, RoundingMode),
    /// exact value, flag, exact number of bits of precision if it is specified
    Exact(Dy, Option<bool>, Option<usize>, &'static str),
    /// exactly `p` bits (from machine floats and integers the precision is that of the words)
    Parse { m: Integer, k: i64, neg: bool, rdx: Radix, p: Option<usize>, rm: RoundingMode },
    Format(N32, Radix, RoundingMode),
    Digits(N32, Radix, RoundingMode),
    Cmp(N32, N32),
    Special(Res2),
    IntTooShort(Dy),
}

pub(crate) struct Item {
    pub(crate) op: String,
    pub(crate) line: String,
    rule: Rule,
}

const ALL: &[&[Op]] = &[ARITH1, ARITH1, ARITH2, ELEM, TRIG, HYP, CONSTS];

fn op_item(r: &mut Rng, thorough: bool, big: bool) -> Item {
    let ops = *r.pick(ALL);
    let op = *r.pick(ops);
    let mut c = if big { gen_case_big(r, op, false) } else { gen_case(r, op, thorough) };
    if big && (ops.len() == ELEM.len()) && c.p > 1600 {
        c.p = r.usize(1, 1600);
    }
    let sh = if r.chance(1, 8) { r.range(-33, 33) } else { 0 };
    let mut a = map_num(r, &c.a, sh);
    let mut b = map_num(r, &c.b, sh);
    let mut p = c.p;
    if r.chance(1, 2) {
        p = p.saturating_sub(32).max(1);
    }
    let edge = |r: &mut Rng, p: usize| match r.below(5) {
        0 => F.emin - p as i64 + r.range(-3, 3),
        1 => F.emin - r.range(0, p as i64),
        2 => F.emin + r.range(-2, 2),
        3 => F.emin - 32 * r.range(0, (p / 32) as i64) + r.range(-1, 1),
        _ => F.emax + r.range(-2, 2),
    };
    let any = |r: &mut Rng| {
        let k = r.range(1, 29);
        let v = r.range(0, 1 << k);
        if r.chance(1, 2) { v } else { -v }
    };
    match op {
        Op::Mul if r.chance(1, 6) => {
            let t = edge(r, p);
            let ea = any(r).max(t - F.emax).min(t - F.emin);
            set_e(&mut a, ea);
            set_e(&mut b, t - ea);
        }
        Op::Div if r.chance(1, 6) => {
            let t = edge(r, p);
            let ea = any(r).max(t + F.emin).min(t + F.emax);
            set_e(&mut a, ea);
            set_e(&mut b, ea - t);
        }
        Op::Recip if r.chance(1, 6) => {
            let t = edge(r, p);
            set_e(&mut a, -t);
        }
        Op::Powi if r.chance(1, 8) => {
            let t = edge(r, p);
            let n = *r.pick(&[2i64, 3, 5, 7, 64, 1000, 65537]);
            c.n = n as usize;
            set_e(&mut a, t / n + r.range(-1, 2));
        }
        Op::Exp | Op::Sinh | Op::Cosh if r.chance(1, 6) => {
            // around overflow and underflow
            let t = Float::with_val(128, rug::float::Constant::Log2) * F.emax;
            let x = t + r.range(-300, 300);
            let l = (c.a.mantissa_max_bit_len().unwrap_or(64) / 64).clamp(1, 8);
            if let Some(v) = from_mpfr(&x, l) {
                let v = if r.chance(1, 2) { perturb(r, &v) } else { v };
                a = map_num(r, &v, 0);
                if r.chance(1, 2) {
                    if let N32::Num { neg, .. } = &mut a {
                        *neg = true;
                    }
                }
            }
        }
        _ => {}
    }
    if c.n as u64 > u32::MAX as u64 {
        c.n = (c.n as u32) as usize;
    }
    let line = format!("{} {} {} {} {} {}", op.name(), p, rm_name(c.rm), c.n, a.text(), b.text());
    Item { op: op.name().into(), line, rule: Rule::Op(op, a, b, c.n, p, c.rm) }
}

fn num32(r: &mut Rng, cl: ExpClass, z: bool) -> N32 {
    let len = gen_len(r, 1);
    let x = gen_num(r, &NumOpts { len, exp: cl, subnormal: z, zero: z, inexact: true });
    map_num(r, &x, 0)
}

fn near32(r: &mut Rng, a: &N32) -> N32 {
    // a with a unit changed somewhere, perhaps with another length
    let N32::Num { neg, e, inx, m, words, .. } = a else { return a.clone() };
    if *m == 0 || a.subnormal() {
        return a.clone();
    }
    let add = r.usize(0, 2);
    let words = words + add;
    let mut z = Integer::from(m << (32 * add) as u32);
    let pos = r.usize(0, words * 32 - 2) as u32;
    let d = Integer::from(r.below(2)) << pos;
    z = if r.chance(1, 2) && (z.significant_bits() as usize) == words * 32 && !(Integer::from(&z + &d).significant_bits() as usize > words * 32) {
        z + d
    } else if Integer::from(&z - &d).significant_bits() as usize == words * 32 {
        z - d
    } else {
        z
    };
    let n = z.significant_bits() as usize;
    N32::Num { neg: *neg, e: *e, inx: *inx, n, m: z, words }
}

fn misc_item(r: &mut Rng) -> Item {
    let cl = if r.chance(3, 4) { ExpClass::Small } else { ExpClass::Mid };
    let mut a = num32(r, cl, true);
    let mut b = if r.chance(1, 4) { near32(r, &a) } else { num32(r, cl, true) };
    let mk = |op: &str, line: String, rule: Rule| Item { op: op.to_string(), line, rule };
    match r.below(11) {
        10 => {
            // exponents out of the range, which is narrower than the type
            let e = match r.below(4) {
                0 => F.emax + r.range(-2, 3),
                1 => F.emin + r.range(-3, 2),
                2 => *r.pick(&[i32::MAX as i64, i32::MIN as i64, 1 << 30, -(1 << 30)]),
                _ => r.range(i32::MIN as i64, i32::MAX as i64),
            };
            let inside = (F.emin..=F.emax).contains(&e);
            let N32::Num { neg, m, words, inx, .. } = &mut a else { return op_item(r, false, false) };
            if *words == 0 {
                return op_item(r, false, false);
            }
            // a normal number
            *m = Integer::from(&*m | (Integer::from(1) << (32 * *words as u32 - 1)));
            let d = Dy { neg: *neg, m: m.clone(), k: e - 32 * *words as i64 };
            let bits = *words * 32;
            let hex = m.to_string_radix(16);
            let sg = if *neg { "-" } else { "+" };
            if r.chance(1, 2) {
                let rule = if inside { Rule::Exact(d, Some(*inx), Some(bits), "raw") } else { Rule::Special(Res2::Nan) };
                mk("from_raw_parts", format!("raw 0 None 0 {},{},{},{}", sg, e, *inx as u8, hex), rule)
            } else {
                let rule = if inside { Rule::Exact(d, Some(false), Some(bits), "raw") } else { Rule::Special(Res2::Nan) };
                mk("from_words", format!("words 0 None {} {},0,{}", e, sg, hex), rule)
            }
        }
        0 | 1 => {
            if r.chance(1, 6) {
                let e = r.range(F.emin, F.emax);
                set_e(&mut a, e);
            }
            if r.chance(1, 8) {
                for x in [&mut a, &mut b] {
                    let e = F.emin + r.range(0, 200);
                    set_e(x, e);
                }
            }
            if b.zero() {
                return op_item(r, false, false);
            }
            let (da, db) = (a.dy().unwrap(), b.dy().unwrap());
            let w = rem_ideal(&da, &db);
            mk("rem", format!("rem 0 None 0 {} {}", a.text(), b.text()), Rule::Exact(w, Some(a.inx() || b.inx()), None, "rem"))
        }
        2 => {
            let sub = r.chance(1, 2);
            let w = add_dy(&a.dy().unwrap(), &b.dy().unwrap(), sub);
            let op = if sub { "sub_full_prec" } else { "add_full_prec" };
            mk(op, format!("{} 0 None 0 {} {}", op, a.text(), b.text()), Rule::Exact(w, Some(a.inx() || b.inx()), None, "full"))
        }
        3 => {
            let (da, db) = (a.dy().unwrap(), b.dy().unwrap());
            let w = Dy { neg: da.neg != db.neg, m: Integer::from(&da.m * &db.m), k: da.k + db.k };
            if w.m != 0 && w.e() < F.emin {
                return op_item(r, false, false);
            }
            mk("mul_full_prec", format!("mul_full_prec 0 None 0 {} {}", a.text(), b.text()), Rule::Exact(w, Some(a.inx() || b.inx()), None, "full"))
        }
        4 | 5 => {
            let x = crate::exact::int_num(r);
            let a = map_num(r, &x, 0);
            let d = a.dy().unwrap();
            if d.m != 0 && d.k > 3000 {
                return op_item(r, false, false);
            }
            let (q, f) = trunc(&d);
            let op = *r.pick(&["int", "fract", "floor", "ceil", "round"]);
            if op == "round" {
                let bits = d.m.significant_bits() as i64;
                let n = match r.below(3) {
                    0 => r.usize(0, 40),
                    1 => (-d.k + r.range(-3, 2)).clamp(0, 1 << 30) as usize,
                    _ => (-d.k - r.range(0, bits.max(1))).clamp(0, 1 << 30) as usize,
                };
                let rm = gen_rm(r);
                let (w, x) = if d.m == 0 || d.k >= -(n as i64) {
                    (d.clone(), false)
                } else {
                    let sh = -(n as i64) - d.k;
                    let (q, x) = if sh > bits + 2 {
                        round_int(&Integer::from(1), 3, true, d.neg, rm)
                    } else {
                        round_int(&d.m, sh as u32, false, d.neg, rm)
                    };
                    (Dy { neg: d.neg, m: q, k: -(n as i64) }, x)
                };
                if w.m != 0 && w.e() < F.emin {
                    return op_item(r, false, false);
                }
                return mk(op, format!("round 0 {} {} {}", rm_name(rm), n, a.text()), Rule::Exact(w, Some(x || a.inx()), Some(a.bits()), "round"));
            }
            let mut w = Dy { neg: d.neg, m: q, k: 0 };
            let mut prec = Some(a.bits());
            match op {
                "fract" => {
                    w = if !f {
                        Dy { neg: d.neg, m: Integer::new(), k: 0 }
                    } else if d.e() <= 0 {
                        d.clone()
                    } else {
                        let sh = (-d.k) as u32;
                        Dy { neg: d.neg, m: Integer::from(&d.m - (Integer::from(&d.m >> sh) << sh)), k: d.k }
                    }
                }
                "floor" => {
                    if d.neg && f {
                        w.m += 1;
                    }
                    prec = None;
                }
                "ceil" => {
                    if !d.neg && f {
                        w.m += 1;
                    }
                    prec = None;
                }
                _ => {}
            }
            mk(op, format!("{} 0 None 0 {}", op, a.text()), Rule::Exact(w, Some(a.inx()), prec, "int"))
        }
        6 => {
            let e = match r.below(4) {
                0 => F.emin + r.range(0, 300),
                1 => F.emax - r.range(0, 3),
                2 => *r.pick(&[i32::MAX as i64, i32::MIN as i64, 1 << 30, -(1 << 30), F.emax + 1, F.emin - 1]),
                _ => r.range(-100, 100),
            };
            let line = format!("set_exponent 0 None {} {}", e, a.text());
            // clamped to the range
            let e = e.clamp(F.emin, F.emax);
            let d = a.dy().unwrap();
            let old = if let N32::Num { e, .. } = &a { *e } else { 0 };
            let w = if d.m == 0 { d } else { Dy { neg: d.neg, m: d.m, k: d.k + e - old } };
            if w.m != 0 && (w.e() < F.emin || w.e() > F.emax) {
                return op_item(r, false, false);
            }
            mk("set_exponent", line, Rule::Exact(w, Some(a.inx()), Some(a.bits()), "set"))
        }
        7 => mk("cmp", format!("cmp 0 None 0 {} {}", a.text(), b.text()), Rule::Cmp(a, b)),
        8 => mk("id", format!("id 0 None 0 {}", a.text()), Rule::Exact(a.dy().unwrap(), Some(a.inx()), Some(a.bits()), "id")),
        _ => {
            let p = r.usize(1, 400);
            let w = p.div_ceil(32);
            let one = Integer::from(1);
            let op = *r.pick(&["max_value", "min_value", "min_positive", "min_positive_normal"]);
            let top = Integer::from(&one << (w * 32) as u32) - 1u32;
            let d = match op {
                "max_value" => Dy { neg: false, m: top, k: F.emax - 32 * w as i64 },
                "min_value" => Dy { neg: true, m: top, k: F.emax - 32 * w as i64 },
                "min_positive" => Dy { neg: false, m: one, k: F.emin - 32 * w as i64 },
                _ => Dy { neg: false, m: one, k: F.emin - 1 },
            };
            mk(op, format!("{} {} None 0", op, p), Rule::Exact(d, Some(false), Some(w * 32), "limit"))
        }
    }
}

pub(crate) fn from_item(r: &mut Rng) -> Item {
    let p = match r.below(6) {
        0 => r.usize(1, 32),
        1 => 32 * r.usize(1, 6),
        2 => 64,
        _ => r.usize(1, 300),
    };
    let rp = F.round_p(p);
    let t = r.usize(0, 12);
    let int = |name: &str, v: Integer, bits: usize| {
        let neg = v < 0;
        let d = Dy { neg, m: v.clone().abs(), k: 0 };
        let line = format!("from_{} {} None {}", name, p, v);
        let rule = if rp < bits { Rule::IntTooShort(d) } else { Rule::Exact(d, Some(false), Some(rp), "from_int") };
        Item { op: format!("from_{}", name), line, rule }
    };
    macro_rules! i {
        ($t:ty, $n:literal) => {{
            let v = crate::prim::int_bits(r, <$t>::BITS) as $t;
            int($n, Integer::from(v), <$t>::BITS as usize)
        }};
    }
    match t {
        0 => i!(i8, "i8"),
        1 => i!(u8, "u8"),
        2 => i!(i16, "i16"),
        3 => i!(u16, "u16"),
        4 => i!(i32, "i32"),
        5 => i!(u32, "u32"),
        6 => i!(i64, "i64"),
        7 => i!(u64, "u64"),
        8 => i!(i128, "i128"),
        9 => i!(u128, "u128"),
        10 => i!(u32, "word"),
        k => {
            let (v, line) = if k == 11 {
                let b = crate::prim::f64_bits(r);
                (f64::from_bits(b), format!("from_f64 {} None {}", p, b))
            } else {
                let b = crate::prim::f32_bits(r);
                (f32::from_bits(b) as f64, format!("from_f32 {} None {}", p, b))
            };
            // what needs more bits than there are is left to the 64-bit check
            let op = if k == 11 { "from_f64" } else { "from_f32" };
            let rule = if v.is_nan() {
                Rule::Special(Res2::Nan)
            } else if v.is_infinite() {
                Rule::Special(Res2::Inf(v < 0.0))
            } else if v == 0.0 {
                Rule::Exact(Dy { neg: false, m: Integer::new(), k: 0 }, Some(false), Some(rp), op)
            } else {
                let (z, k) = int_exp(&Float::with_val(53, v));
                let d = Dy { neg: z < 0, m: z.abs(), k };
                if d.m.significant_bits() as usize > rp {
                    Rule::IntTooShort(d)
                } else if d.e() <= -1022 && k as usize != usize::MAX {
                    // a listed finding of the conversion of subnormal doubles
                    Rule::IntTooShort(d)
                } else {
                    Rule::Exact(d, Some(false), Some(rp), op)
                }
            };
            Item { op: op.into(), line, rule }
        }
    }
}

fn text_item(r: &mut Rng, big: bool) -> Item {
    let rdx = *r.pick(&RADIXES);
    let rm = gen_rm(r);
    let b = radix::base(rdx);
    if r.chance(1, 2) {
        let p = match r.below(5) {
            0 => 32 * r.usize(1, 4),
            1 => r.usize(1, 32),
            2 if big => r.usize(1000, 20000),
            _ => r.usize(1, 400),
        };
        if r.chance(1, 4) {
            let len = radix::gen_dlen(r, big);
            let (d, e) = radix::gen_digits(r, rdx, p.min(2000), len);
            let neg = r.chance(1, 2);
            let e = if r.chance(1, 8) { radix::far_exp(r, rdx, false, F.emax).clamp(F.emin, F.emax) } else { e };
            let t: String = d.iter().map(|v| std::char::from_digit(*v as u32, 36).unwrap()).collect();
            let m = radix::value_from_digits(&d, rdx);
            let k = e - d.len() as i64;
            let line = format!("from_radix {} {} {} {},{},{}", p, rm_name(rm), b, if neg { "-" } else { "+" }, e, t);
            return Item { op: "from_radix".into(), line, rule: Rule::Parse { m, k, neg, rdx, p: Some(p), rm } };
        }
        let far = !big && r.chance(1, 8);
        let t = gen_text(r, rdx, p, big, far, F.emax);
        if rdx == Radix::Dec && r.chance(1, 4) {
            let line = format!("from_str 0 None 10 {}", t.s);
            return Item { op: "from_str".into(), line, rule: Rule::Parse { m: t.m, k: t.k, neg: t.neg, rdx, p: None, rm: RoundingMode::ToEven } };
        }
        let line = format!("parse {} {} {} {}", p, rm_name(rm), b, t.s);
        return Item { op: "parse".into(), line, rule: Rule::Parse { m: t.m, k: t.k, neg: t.neg, rdx, p: Some(p), rm } };
    }
    let cl = match r.below(8) {
        0 if !big => ExpClass::Any,
        1 if !big => ExpClass::Edge,
        2 => ExpClass::Mid,
        _ => ExpClass::Small,
    };
    let x = if big {
        let len = r.usize(20, 300);
        let v = gen_num(r, &NumOpts { len, exp: cl, subnormal: false, zero: false, inexact: false });
        map_num(r, &v, 0)
    } else {
        num32(r, cl, true)
    };
    let op = if r.chance(1, 2) { "format" } else { "to_radix" };
    let line = format!("{} 0 {} {} {}", op, rm_name(rm), b, x.text());
    Item { op: op.into(), line, rule: if op == "format" { Rule::Format(x, rdx, rm) } else { Rule::Digits(x, rdx, rm) } }
}

// ---------------------------------------------------------------------------------------------

pub(crate) struct Server {
    ch: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
}

pub(crate) enum Answer {
    Lines(Vec<String>),
    Died(String),
}

impl Server {
    fn start() -> Server {
        let exe = std::env::var("AFV_I686").expect("AFV_I686: path of the 32-bit program");
        Server::of(&exe, &format!("{} {} {}", F.wb, F.emin, F.emax))
    }

    pub(crate) fn of(exe: &str, info: &str) -> Server {
        let mut ch = Command::new(exe).arg("serve").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("the program starts");
        let mut inp = ch.stdin.take().unwrap();
        let mut out = BufReader::new(ch.stdout.take().unwrap());
        writeln!(inp, "info").expect("write");
        let mut l = String::new();
        out.read_line(&mut l).expect("read");
        assert_eq!(l.trim(), info, "word size and range of the program");
        Server { ch, inp, out }
    }

    pub(crate) fn ask(&mut self, lines: &[&str]) -> Answer {
        let mut t = format!("{}\n", lines.len());
        for l in lines {
            t.push_str(l);
            t.push('\n');
        }
        let mut res = vec![];
        if self.inp.write_all(t.as_bytes()).and_then(|_| self.inp.flush()).is_ok() {
            for _ in lines {
                let mut l = String::new();
                match self.out.read_line(&mut l) {
                    Ok(n) if n > 0 && l.ends_with('\n') => res.push(l.trim_end().to_string()),
                    _ => break,
                }
            }
        }
        if res.len() == lines.len() {
            return Answer::Lines(res);
        }
        let _ = self.ch.kill();
        let st = self.ch.wait().expect("wait");
        use std::os::unix::process::ExitStatusExt;
        Answer::Died(match (st.code(), st.signal()) {
            (Some(99), _) => "hang".into(),
            (Some(c), _) => format!("exit{}", c),
            (_, Some(g)) => format!("signal{}", g),
            _ => "?".into(),
        })
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.ch.kill();
        let _ = self.ch.wait();
    }
}

thread_local! {
    static SRV: RefCell<Option<Server>> = const { RefCell::new(None) };
}

fn ask(lines: &[&str]) -> Answer {
    SRV.with(|s| {
        let mut s = s.borrow_mut();
        let a = s.get_or_insert_with(Server::start).ask(lines);
        if matches!(a, Answer::Died(_)) {
            *s = None;
        }
        a
    })
}

pub(crate) fn short(s: &str) -> String {
    if s.len() > 3000 {
        let cut = |mut k: usize| {
            while !s.is_char_boundary(k) {
                k -= 1;
            }
            k
        };
        format!("{}...({} characters)", &s[..cut(2500)], s.len())
    } else {
        s.to_string()
    }
}

fn show2(r: &Res2) -> Value {
    match r {
        Res2::Num { neg, e, m } => json!(format!("{}{:x} e {}", if *neg { "-" } else { "" }, m, e)),
        r => json!(format!("{:?}", r)),
    }
}

/// The 32-bit stack and heap are limited: a refused allocation is an answer too.
fn judge(w: &mut Worker, it: &Item, ans: &str) {
    w.st.evals += 1;
    let j = json!({"op": it.op, "call": short(&it.line)});
    let op = &it.op;
    let mut bad = |w: &mut Worker, sig: String, extra: Value| {
        w.violate(sig, json!({"case": j, "got": short(ans), "expected": extra}));
    };
    if let Some(m) = ans.strip_prefix("P ") {
        let loc = m.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("").to_string();
        return bad(w, format!("panic:{}:{}", op, loc), json!(m));
    }
    if ans == "M" {
        return bad(w, format!("operand:{}", op), json!("operands are not changed"));
    }
    let num = || read_num(ans);
    match &it.rule {
        Rule::Op(o, a, b, n, p, rm) => {
            let Some(g) = num() else { return bad(w, format!("answer:{}", op), json!("a number")) };
            if let Err(e) = canonical(&g) {
                return bad(w, format!("canon:{}", op), json!(e));
            }
            let c = Case { op: *o, a: BigFloat::new(64), b: BigFloat::new(64), n: *n, p: *p, rm: *rm };
            let one = Float::with_val(64, 1);
            let fa = if c.nullary() { one.clone() } else { a.float().unwrap() };
            let fb = if c.binary() { b.float().unwrap() } else { one };
            let Some(id) = ideal_of(*o, &fa, &fb, *n, *p) else {
                w.st.inconclusive += 1;
                w.st.count(&format!("undecided:{}", op));
                return;
            };
            let bits = if *o == Op::SetPrec { *p } else { F.round_p(*p) };
            let (want, rounded) = round_fmt(&id, bits, *rm, &F);
            let cls = match &want {
                Res2::Nan => "nan",
                Res2::Inf(_) => "inf",
                Res2::Zero => "zero",
                Res2::Num { e, m, .. } if *e == F.emin && (m.significant_bits() as usize) < F.round_p(*p) => "subnormal",
                _ => "normal",
            };
            w.st.count(&format!("{}:{}", op, cls));
            if g.res() != want {
                return bad(w, format!("value:{}:{}", op, cls), show2(&want));
            }
            if matches!(want, Res2::Num { .. } | Res2::Zero) && g.bits() != F.round_p(*p) {
                return bad(w, format!("prec:{}:{}", op, cls), json!(F.round_p(*p)));
            }
            let open = (*o == Op::Powi && *n == 0) || (*o == Op::Pow && fb.is_zero());
            if !open && matches!(want, Res2::Num { .. } | Res2::Zero) {
                let ef = rounded || (!c.nullary() && a.inx()) || (c.binary() && b.inx());
                if ef != g.inx() {
                    return bad(w, format!("flag:{}:{}:{}", op, cls, if ef { "lost" } else { "spurious" }), json!(ef));
                }
            }
            if (rounded || cls == "subnormal") && want != Res2::Zero {
                w.nontrivial(&j);
            }
        }
        Rule::Exact(d, flag, prec, cls) => {
            let Some(g) = num() else { return bad(w, format!("answer:{}", op), json!("a number")) };
            if let Err(e) = canonical(&g) {
                return bad(w, format!("canon:{}", op), json!(e));
            }
            let ok = match g.dy() {
                None => d.e() > F.emax && matches!(g, N32::Inf(n) if n == d.neg),
                Some(x) => (d.m == 0 || d.e() <= F.emax) && x.same(d),
            };
            w.st.count(&format!("{}:{}", op, cls));
            if !ok {
                return bad(w, format!("value:{}", op), d.show());
            }
            if let (Some(f), N32::Num { inx, .. }) = (flag, &g) {
                if inx != f {
                    return bad(w, format!("flag:{}", op), json!(f));
                }
            }
            if let (Some(p), N32::Num { .. }) = (prec, &g) {
                if g.bits() != *p {
                    return bad(w, format!("prec:{}", op), json!(p));
                }
            }
            w.nontrivial(&j);
        }
        Rule::IntTooShort(d) => {
            let ok = match num() {
                Some(N32::Nan(e)) => e == "InvalidArgument",
                Some(g @ N32::Num { .. }) => canonical(&g).is_ok(),
                _ => false,
            };
            if !ok {
                bad(w, format!("value:{}:short", op), d.show());
            }
            w.st.count(&format!("{}:short", op));
        }
        Rule::Special(r) => {
            if num().map(|g| g.res()) != Some(r.clone()) {
                bad(w, format!("value:{}:special", op), show2(r));
            }
            w.st.count(&format!("{}:special", op));
        }
        Rule::Parse { m, k, neg, rdx, p, rm } => {
            let Some(g) = num() else { return bad(w, format!("answer:{}", op), json!("a number")) };
            if let Err(e) = canonical(&g) {
                return bad(w, format!("canon:{}", op), json!(e));
            }
            let rp = match p {
                Some(p) => F.round_p(*p),
                None => g.bits().max(32),
            };
            let Some(id) = value_of(m, *k, *neg, *rdx, rp) else {
                w.st.inconclusive += 1;
                return;
            };
            let (want, rounded) = round_fmt(&id, rp, *rm, &F);
            let rn = radix::rname(*rdx);
            w.st.count(&format!("{}:{}", op, rn));
            if g.res() != want {
                return bad(w, format!("value:{}:{}", op, rn), show2(&want));
            }
            if let N32::Num { inx, .. } = &g {
                if *inx != rounded {
                    return bad(w, format!("flag:{}:{}", op, rn), json!(rounded));
                }
                if g.bits() != rp {
                    return bad(w, format!("prec:{}:{}", op, rn), json!(rp));
                }
            }
            if rounded {
                w.nontrivial(&j);
            }
        }
        Rule::Format(x, rdx, rm) | Rule::Digits(x, rdx, rm) => {
            let rn = radix::rname(*rdx);
            let (neg, d, e) = if let Some(t) = ans.strip_prefix("T ") {
                match read_text(t, *rdx) {
                    Some(p) => (p.neg, p.d, p.e),
                    None => return bad(w, format!("shape:{}:{}", op, rn), json!("the documented form")),
                }
            } else if let Some(t) = ans.strip_prefix("D ") {
                let f: Vec<&str> = t.split(' ').collect();
                let d: Vec<u8> = f.get(2).unwrap_or(&"").chars().map(|c| c.to_digit(36).unwrap_or(99) as u8).collect();
                (f[0] == "-", d, f[1].parse().unwrap_or(0))
            } else {
                return bad(w, format!("error:{}:{}", op, rn), json!("digits"));
            };
            w.st.count(&format!("{}:{}", op, rn));
            let N32::Num { neg: xn, .. } = x else { return };
            if d.iter().any(|v| *v as u32 >= radix::base(*rdx)) {
                return bad(w, format!("digits:{}:{}", op, rn), json!("digits of the radix"));
            }
            if x.zero() {
                if d.iter().any(|v| *v != 0) {
                    bad(w, format!("value:{}:{}", op, rn), json!("0"));
                }
                return;
            }
            if neg != *xn {
                return bad(w, format!("sign:{}:{}", op, rn), json!(xn));
            }
            let f = x.float().unwrap();
            if *rdx == Radix::Dec {
                let n = (x.bits() as u64 * 301029996 / 1000000000) as usize + 1;
                match dec_ok(&f, &d, e, n, *rm) {
                    Some(true) => {}
                    Some(false) => return bad(w, format!("value:{}:{}", op, rn), json!(f.to_string_radix(10, Some(60)))),
                    None => w.st.inconclusive += 1,
                }
            } else {
                let lg = radix::base(*rdx).trailing_zeros() as i64;
                let m = radix::value_from_digits(&d, *rdx);
                let v = if m == 0 { Float::with_val(64, 0) } else { scaled(&m, (e - d.len() as i64) * lg) };
                let v = if *xn { -v } else { v };
                if v != f {
                    return bad(w, format!("value:{}:{}", op, rn), json!(f.to_string_radix(16, None)));
                }
            }
            w.nontrivial(&j);
        }
        Rule::Cmp(a, b) => {
            let (x, y) = (a.float().unwrap(), b.float().unwrap());
            let o = x.partial_cmp(&y).unwrap();
            let oa = Float::with_val(x.prec(), x.abs_ref()).partial_cmp(&Float::with_val(y.prec(), y.abs_ref())).unwrap();
            let want = format!("C Some({}) Some({}) Some({:?}) {}", o as i32, oa as i32, o, o.is_eq());
            w.st.count("cmp");
            if ans != want {
                return bad(w, "value:cmp".into(), json!(want));
            }
            w.nontrivial(&j);
        }
    }
}

fn batch(r: &mut Rng, w: &mut Worker, big: bool) {
    let n = if big { 4 } else { BATCH };
    let items: Vec<Item> = (0..n)
        .map(|_| match r.below(12) {
            0..=6 => op_item(r, w.thorough, big),
            7 | 8 if !big => misc_item(r),
            9 if !big => from_item(r),
            7 | 8 | 9 => op_item(r, w.thorough, big),
            _ => text_item(r, big),
        })
        .collect();
    let only = std::env::var("OP").ok();
    let items: Vec<Item> = items.into_iter().filter(|i| only.as_ref().map(|o| *o == i.op).unwrap_or(true)).collect();
    if items.is_empty() {
        return;
    }
    w.begin(|| json!({"op": "batch", "first": short(&items[0].line)}));
    let lines: Vec<&str> = items.iter().map(|i| i.line.as_str()).collect();
    match ask(&lines) {
        Answer::Lines(v) => {
            for (it, a) in items.iter().zip(&v) {
                judge(w, it, a);
            }
        }
        Answer::Died(_) => {
            // one at a time, to see which
            let mut found = false;
            for it in &items {
                match ask(&[&it.line]) {
                    Answer::Lines(v) => judge(w, it, &v[0]),
                    Answer::Died(how) => {
                        found = true;
                        w.st.evals += 1;
                        let s = if how == "hang" { format!("hang:{}", it.op) } else { format!("crash:{}:{}", it.op, how) };
                        w.violate(s, json!({"case": {"op": it.op, "call": short(&it.line)}, "how": how}));
                        break;
                    }
                }
            }
            if !found {
                // depends on what was asked before: give the whole stream of the batch
                match ask(&lines) {
                    Answer::Died(how) => w.violate(format!("crash:history:{}", how), json!({"calls": lines.iter().map(|l| short(l)).collect::<Vec<_>>()})),
                    Answer::Lines(_) => {
                        w.st.inconclusive += 1;
                        w.st.count("child_lost");
                    }
                }
            }
        }
    }
}

pub fn run(cfg: &Config) -> i32 {
    let mul = if cfg.thorough() { 12 } else { 1 };
    let n = std::env::var("C19_BATCHES").ok().and_then(|s| s.parse().ok()).unwrap_or(6000u64);
    let mut st = drive(cfg, "c19", n * mul, if cfg.thorough() { 3000.0 } else { 250.0 }, 120.0, |r, w, _| batch(r, w, false));
    st.merge(drive(cfg, "c19-big", n / 10 * mul, if cfg.thorough() { 3000.0 } else { 200.0 }, 120.0, |r, w, _| batch(r, w, true)));
    finish(
        cfg,
        st,
        "calls answered by the library built for i686 (32-bit words), judged against MPFR/GMP with the 32-bit range and rounding; \
         non-trivial: the exact result had to be rounded or is subnormal, or the operation is exact, distinct by the call",
        Default::default(),
        "exploration",
    )
}
