//! C14: random programs over the whole public interface with hostile arguments. Nothing may panic,
//! and every call must come back (CPU budget per call).

use crate::drive::*;
use crate::gen::*;
use crate::gencase::*;
use crate::judge::canonical;
use crate::model::*;
use crate::numeric::{gen_case, ARITH1, ARITH2, CONSTS, ELEM, HYP, TRIG};
use crate::ops::*;
use crate::report::*;
use crate::rng::Rng;
use astro_float_num::ctx::Context;
use astro_float_num::{BigFloat, Consts, Exponent, FromExt, Radix, RoundingMode, Sign, EXPONENT_MAX, EXPONENT_MIN, INF_NEG, INF_POS, NAN};
use serde_json::json;
use std::fmt::Write;
use std::str::FromStr;

const RDX: [Radix; 4] = [Radix::Bin, Radix::Oct, Radix::Dec, Radix::Hex];
const ALLRM: [RoundingMode; 7] = [
    RoundingMode::None,
    RoundingMode::ToEven,
    RoundingMode::Up,
    RoundingMode::Down,
    RoundingMode::ToZero,
    RoundingMode::FromZero,
    RoundingMode::ToOdd,
];

/// Precision: ordinary, or one that no machine has memory for. Zero is allowed too.
fn hp(r: &mut Rng) -> usize {
    match r.below(24) {
        0 => 0,
        1 => usize::MAX,
        2 => usize::MAX - r.usize(0, 200),
        3 => isize::MAX as usize - r.usize(0, 200),
        4 => isize::MAX as usize / 2 + 1 + r.usize(0, 200),
        5 => 1,
        6..=9 => 64 * r.usize(1, 10),
        10 => r.usize(1, 64),
        11 => r.usize(1000, 4000),
        _ => r.usize(1, 500),
    }
}

fn he(r: &mut Rng) -> Exponent {
    match r.below(6) {
        0 => *r.pick(&[i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1, 0, 1, -1]),
        1 => r.u64() as i32,
        2 => EXPONENT_MIN.saturating_add(r.range(0, 300) as i32),
        3 => EXPONENT_MAX.saturating_sub(r.range(0, 300) as i32),
        _ => r.range(-300, 300) as i32,
    }
}

fn hn(r: &mut Rng) -> usize {
    match r.below(6) {
        0 => usize::MAX - r.usize(0, 3),
        1 => 1usize << r.below(64),
        2 => r.u64() as usize,
        3 => r.usize(0, 3),
        _ => r.usize(0, 700),
    }
}

fn hs(r: &mut Rng) -> String {
    let n = r.usize(0, 40);
    let mut s = String::new();
    match r.below(5) {
        0 => {
            for _ in 0..n {
                s.push(char::from_u32(r.below(0x11_0000) as u32).unwrap_or('\u{1F980}'));
            }
        }
        1 => {
            for _ in 0..n {
                s.push(*r.pick(&['0', '1', '7', '9', 'a', 'f', 'F', 'e', 'E', '_', '+', '-', '.', ' ', '\0', 'i', 'n', 'I', 'N', '\u{0660}']));
            }
        }
        2 => {
            // a number, then damaged
            s = format!("{}{}.{}e{}", if r.chance(1, 2) { "-" } else { "" }, r.below(1000), r.u64(), r.range(-400, 400));
            for _ in 0..r.usize(1, 3) {
                let k = r.usize(0, s.len());
                let c = *r.pick(&['e', '.', '-', '+', '_', 'x', '9', 'n']);
                s.insert(k.min(s.len()), c);
            }
        }
        3 => {
            let e = *r.pick(&["2147483647", "2147483648", "-2147483648", "-2147483649", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551616", "99999999999999999999999999", "-99999999999999999999999999", "646456993", "-646456993", "646456994", "-646457012", "+", "-", "", "0000000000000000000000000000000001"]);
            s = format!("{}{}{}{}", r.pick(&["", "-", "+"]), r.pick(&["1", "0", "0.0001", "9.99", ".5", "7.", ".", "123456789012345678901234567890"]), r.pick(&["e", "E", "_e", ""]), e);
        }
        _ => {
            s.push_str(r.pick(&["inf", "-inf", "+Inf", "INFINITY", "nan", "-NaN", "nano", "i", "in", "n", "na", "", "+", "-", ".", "e", "_", "-.", "+e1", "infe1"]));
        }
    }
    s
}

/// Text whose magnitude makes an exact binary result huge on purpose (automatic precision of
/// binary radices keeps the position of the digits) is left out: it needs memory, not robustness.
fn auto_ok(s: &str) -> bool {
    s.len() < 60 && !s.bytes().any(|c| c == b'e' || c == b'E' || c == b'_')
}

fn small_enough(x: &BigFloat) -> bool {
    x.mantissa_max_bit_len().unwrap_or(0) <= 64 * 70
}

fn exp_of(x: &BigFloat) -> i64 {
    x.exponent().unwrap_or(0) as i64
}

/// Arguments for which the cost is out of proportion by nature: huge trigonometric arguments need as
/// many digits of pi as the exponent says; full-precision operations keep all the digits in between.
fn affordable(c: &Case) -> bool {
    let trig = matches!(c.op, Op::Sin | Op::Cos | Op::Tan);
    !(trig && exp_of(&c.a) > 3000)
}

fn start(r: &mut Rng) -> BigFloat {
    let cl = *r.pick(&[ExpClass::Small, ExpClass::Small, ExpClass::Mid, ExpClass::Any, ExpClass::Edge]);
    let len = gen_len(r, 0);
    match r.below(16) {
        0 => INF_POS,
        1 => INF_NEG,
        2 => NAN,
        3 => BigFloat::nan(Some(astro_float_num::Error::InvalidArgument)),
        4 => BigFloat::max_value(len * 64),
        5 => BigFloat::min_value(len * 64),
        6 => BigFloat::min_positive(len * 64),
        7 => gen_subnormal(r, len),
        8 => BigFloat::from_i32(r.range(-20, 20) as i32, 64 * r.clone().usize(1, 3)),
        9 => BigFloat::new(r.usize(0, 300)),
        _ => gen_num(r, &NumOpts { len, exp: cl, subnormal: true, zero: true, inexact: true }),
    }
}

/// A writer which formats numbers while it is written to.
struct Nested {
    out: String,
    x: BigFloat,
}

impl Write for Nested {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.out.push_str(s);
        let t = format!("{} {:b}", self.x, self.x);
        let _ = BigFloat::from_str(&self.x.to_string());
        self.out.push_str(&t[..t.len().min(4)]);
        Ok(())
    }
}

fn step(r: &mut Rng, w: &mut Worker, pool: &mut [BigFloat], allops: &[Op]) -> u64 {
    let n = pool.len() as u64;
    let (ia, ib, ic) = (r.below(n) as usize, r.below(n) as usize, r.below(n) as usize);
    let (a, b, c) = (pool[ia].clone(), pool[ib].clone(), pool[ic].clone());
    let p = hp(r);
    let rm = *r.pick(&ALLRM);
    let (e, k) = (he(r), hn(r));
    let which = r.below(100);
    let out: Option<BigFloat>;
    let mut tag = "op";
    if which < 40 {
        let op = *r.pick(allops);
        let cs = Case { op, a, b, n: k, p, rm };
        if !affordable(&cs) {
            return 0;
        }
        out = w.call(&cs.json(), |cc| exec(&cs, cc));
        w.st.count(op.name());
    } else if which < 48 {
        // an argument the numeric generators made, with an unusual mode or precision
        let op = *r.pick(allops);
        let mut cs = gen_case(r, op, false);
        if r.chance(1, 2) {
            cs.rm = rm;
        }
        if r.chance(1, 2) {
            cs.p = p;
        }
        if !affordable(&cs) {
            return 0;
        }
        out = w.call(&cs.json(), |cc| exec(&cs, cc));
        w.st.count(op.name());
    } else {
        let near = (exp_of(&a) - exp_of(&b)).abs() < 4000;
        let rdx = *r.pick(&RDX);
        let s = hs(r);
        let names = [
            "rem", "add_full_prec", "sub_full_prec", "mul_full_prec", "cmp", "minmaxclamp", "int", "fract", "floor", "ceil", "round", "set_exponent",
            "set_precision", "try_set_precision", "parse", "from_str", "format", "display", "nested_display", "convert_from_radix", "convert_to_radix",
            "from_raw_parts", "from_words", "predicates", "from_int", "from_float", "limits", "random_normal", "signs", "from_ext", "context", "serde",
            "classify_debug", "roundtrip_raw",
        ];
        let nm = *r.pick(&names);
        tag = nm;
        if ["rem", "add_full_prec", "sub_full_prec"].contains(&nm) && !near {
            return 0;
        }
        let digits: Vec<u8> = (0..r.usize(0, 60)).map(|_| if r.chance(1, 30) { r.u64() as u8 } else { r.below(2 + r.clone().below(16)) as u8 }).collect();
        let words: Vec<u64> = if r.chance(1, 10) { vec![] } else { gen_words(r, r.clone().usize(1, 6)) };
        let sg = sign(r.chance(1, 2));
        let v = r.u64();
        let inx = r.chance(1, 2);
        let j = json!({"op": nm, "a": show(&a), "b": show(&b), "c": show(&c), "p": p, "rm": rm_name(rm), "e": e, "k": k, "s": s,
            "rdx": format!("{:?}", rdx), "digits": digits, "words": words, "v": v});
        out = w.call(&j, |cc| match nm {
            "rem" => a.rem(&b),
            "add_full_prec" => a.add_full_prec(&b),
            "sub_full_prec" => a.sub_full_prec(&b),
            "mul_full_prec" => a.mul_full_prec(&b),
            "cmp" => {
                let _ = (a.cmp(&b), a.abs_cmp(&b), a == b, a < b, a >= b, a.partial_cmp(&b), a == &b, a.is_zero());
                a.signum()
            }
            "minmaxclamp" => a.clamp(&b.min(&c), &b.max(&a)).max(&c.clamp(&b, &a)),
            "int" => a.int(),
            "fract" => a.fract(),
            "floor" => a.floor(),
            "ceil" => a.ceil(),
            "round" => a.round(k, rm),
            "set_exponent" => {
                let mut x = a.clone();
                x.set_exponent(e);
                x
            }
            "set_precision" => {
                let mut x = a.clone();
                let _ = x.set_precision(p, rm);
                x
            }
            "try_set_precision" => {
                let mut x = a.clone();
                if !x.try_set_precision(p, rm, k) {
                    // refused: to be discarded
                    x = BigFloat::default();
                }
                x
            }
            "parse" => {
                let q = if p == usize::MAX && rdx != Radix::Dec && !auto_ok(&s) { 64 } else { p };
                BigFloat::parse(&s, rdx, q, rm, cc)
            }
            "from_str" => BigFloat::from_str(&s).unwrap_or(NAN),
            "format" => {
                let t = a.format(rdx, rm, cc).unwrap_or_default();
                BigFloat::parse(&t, rdx, 64 + (v % 200) as usize, rm, cc)
            }
            "display" => {
                let w = (v % 50) as usize;
                let _ = (format!("{}", a), format!("{:?}", a), format!("{:b}", a), format!("{:o}", a), format!("{:X}", a), format!("{:w$.3}", a, w = w), format!("{:+#010x?}", a));
                a.clone()
            }
            "nested_display" => {
                let mut t = Nested { out: String::new(), x: b.clone() };
                let _ = write!(t, "{} {:X}", a, a);
                a.clone()
            }
            "convert_from_radix" => BigFloat::convert_from_radix(sg, &digits, e, rdx, if p == usize::MAX { 64 } else { p }, rm, cc),
            "convert_to_radix" => match a.convert_to_radix(rdx, rm, cc) {
                Ok((s, d, e)) => BigFloat::convert_from_radix(s, &d, e, rdx, 128, rm, cc),
                Err(e) => BigFloat::nan(Some(e)),
            },
            "from_raw_parts" => BigFloat::from_raw_parts(&words, k, sg, e, inx),
            "from_words" => BigFloat::from_words(&words, sg, e),
            "predicates" => {
                let _ = (a.is_inf(), a.is_inf_neg(), a.is_inf_pos(), a.is_nan(), a.is_int(), a.err(), a.is_positive(), a.is_negative(), a.is_subnormal(), a.is_zero());
                let _ = (a.exponent(), a.precision(), a.sign(), a.mantissa_max_bit_len(), a.mantissa_digits().map(|m| m.len()), a.inexact());
                a.abs()
            }
            "from_int" => BigFloat::from_i128((v as i128).wrapping_mul(v as i128), p).max(&BigFloat::from_u64(v, p)).min(&BigFloat::from_i8(v as i8, p)),
            "from_float" => BigFloat::from_f64(f64::from_bits(v), p).max(&BigFloat::from_f32(f32::from_bits(v as u32), p)),
            "limits" => match v % 5 {
                0 => BigFloat::max_value(p),
                1 => BigFloat::min_value(p),
                2 => BigFloat::min_positive(p),
                3 => BigFloat::min_positive_normal(p),
                _ => BigFloat::new(p),
            },
            "random_normal" => BigFloat::random_normal(p, e, (v >> 32) as i32),
            "signs" => {
                let mut x = -a.clone();
                x.inv_sign();
                x.set_sign(sg);
                x.set_inexact(inx);
                x.neg()
            }
            "from_ext" => match v % 4 {
                0 => BigFloat::from_ext(a.clone(), p, rm, cc),
                1 => BigFloat::from_ext(s.as_str(), if p == usize::MAX { 64 } else { p }, rm, cc),
                2 => BigFloat::from_ext(f64::from_bits(v), p, rm, cc),
                _ => BigFloat::from_ext(v as i64, p, rm, cc),
            },
            "context" => {
                let mut x = Context::new(p, rm, Consts::new().unwrap(), e, k as i32);
                let y = x.clone().map(|mut y| y.const_ln10()).unwrap_or(NAN);
                let _ = format!("{:?}", (x.emin(), x.emax()));
                x.const_pi().max(&x.const_e()).min(&x.const_ln2()).max(&y)
            }
            "serde" => {
                let t = serde_json::to_string(&a).unwrap_or_default();
                let _ = serde_json::from_str::<BigFloat>(&s);
                let _ = serde_json::from_value::<BigFloat>(json!(s));
                serde_json::from_str::<BigFloat>(&t).unwrap_or(NAN)
            }
            "classify_debug" => {
                let _ = (a.classify(), format!("{:?} {:?}", a, a.err()), a.err().map(|e| e.to_string()), format!("{:?}{:?}", rm, rdx));
                BigFloat::default()
            }
            _ => match a.as_raw_parts() {
                Some((m, n, s, e, i)) => BigFloat::from_raw_parts(m, n, s, e, i),
                None => a.clone(),
            },
        });
        w.st.count(nm);
    }
    let Some(x) = out else { return 0 };
    let empty = x.as_raw_parts().map(|v| v.0.is_empty()).unwrap_or(false);
    if !empty {
        if let Err(m) = canonical(&x) {
            w.violate(format!("canon:{}", tag), json!({"got": show(&x), "why": m, "p": p}));
        }
    }
    let h = crate::rng::hash_bytes(show(&x).to_string().as_bytes());
    // numbers without digits come only from precision 0, which has no defined results
    if small_enough(&x) && !empty {
        let k = r.below(n) as usize;
        pool[k] = x;
    } else if empty && r.chance(1, 2) {
        let k = r.below(n) as usize;
        pool[k] = x;
    }
    h
}

fn program(r: &mut Rng, w: &mut Worker, allops: &[Op]) {
    let n = r.usize(2, 8);
    let mut pool: Vec<BigFloat> = (0..n).map(|_| start(r)).collect();
    if r.chance(1, 4) {
        // ordinary magnitudes only, so that long programs do not end in NaN at once
        for x in pool.iter_mut() {
            let len = r.usize(1, 5);
            *x = gen_num(r, &NumOpts { len, exp: ExpClass::Small, subnormal: false, zero: false, inexact: false });
        }
    }
    let steps = r.usize(3, 30);
    for _ in 0..steps {
        let h = step(r, w, &mut pool, allops);
        if h != 0 {
            w.st.nontrivial.insert(h);
        }
        let dead = pool.iter().filter(|x| x.is_nan()).count();
        if dead * 2 > pool.len() {
            for x in pool.iter_mut() {
                if x.is_nan() {
                    *x = start(r);
                }
            }
        }
    }
    w.sample(|| json!({"pool_at_the_end": pool.iter().map(show).collect::<Vec<_>>()}));
}

pub fn run(cfg: &Config) -> i32 {
    let mul = if cfg.thorough() { 30 } else { 1 };
    let mut ops: Vec<Op> = vec![];
    for s in [ARITH1, ARITH2, ELEM, TRIG, HYP, CONSTS] {
        ops.extend_from_slice(s);
    }
    let st = drive(cfg, "c14", 400_000 * mul, 600.0, 60.0, |r, w, _| program(r, w, &ops));
    let _ = (gen_arith as fn(&mut Rng, Op, u32) -> Case, Sign::Pos);
    finish(
        cfg,
        st,
        "random programs over all public functions and traits, on a pool of numbers that feeds results back, with precisions, exponents, positions, texts, digits \
         and raw parts chosen to be hostile; a panic (overflow checks and debug assertions on), a crash, or a call which does not come back is a violation; \
         non-trivial: distinct results",
        Default::default(),
        "exploration",
    )
}
