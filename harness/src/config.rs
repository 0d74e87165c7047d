//! C21: the library gives the same answers in every configuration it can be built in: optimized and without
//! assertions, without the standard library, and without the carry instructions of x86. The programs (../lite) are
//! asked the same calls, and each answer has to be that of the usual build, character by character.

use crate::drive::*;
use crate::gen::*;
use crate::model::*;
use crate::numeric::{gen_case, gen_case_big, ARITH1, ARITH2, CONSTS, ELEM, HYP, TRIG};
use crate::ops::*;
use crate::radix::{self, gen_text, RADIXES};
use crate::report::*;
use crate::rng::Rng;
use crate::w32::{from_item, short, Answer, Server};
use astro_float_num::{BigFloat, Radix, Sign};
use serde_json::json;
use std::cell::RefCell;

const BATCH: usize = 64;
/// name, environment variable with the path of the program
const VARIANTS: [(&str, &str); 4] = [("usual", "AFV_BASE"), ("optimized", "AFV_OPT"), ("no_std", "AFV_NOSTD"), ("portable", "AFV_PORTABLE")];

fn text(x: &BigFloat) -> String {
    match x.as_raw_parts() {
        None => (if x.is_nan() { "N" } else if x.is_inf_neg() { "I-" } else { "I+" }).into(),
        Some((m, _, s, e, i)) => {
            let h: String = m.iter().rev().map(|d| format!("{:016x}", d)).collect();
            format!("{},{},{},{}", if s == Sign::Neg { "-" } else { "+" }, e, i as u8, h)
        }
    }
}

struct Call {
    op: String,
    line: String,
}

fn call(op: &str, line: String) -> Call {
    Call { op: op.to_string(), line }
}

const ALL: &[&[Op]] = &[ARITH1, ARITH1, ARITH1, ARITH2, ELEM, TRIG, HYP, CONSTS];

fn op_call(r: &mut Rng, thorough: bool, big: bool) -> Call {
    let ops = *r.pick(ALL);
    let op = *r.pick(ops);
    let mut c = if big { gen_case_big(r, op, false) } else { gen_case(r, op, thorough) };
    if big && !matches!(op, Op::Add | Op::Sub | Op::Mul | Op::Div) && c.p > 3000 {
        c.p = r.usize(1, 3000);
    }
    call(op.name(), format!("{} {} {} {} {} {}", op.name(), c.p, rm_name(c.rm), c.n, text(&c.a), text(&c.b)))
}

fn number(r: &mut Rng) -> BigFloat {
    let cl = if r.chance(3, 4) { ExpClass::Small } else { ExpClass::Mid };
    let len = gen_len(r, 1);
    gen_num(r, &NumOpts { len, exp: cl, subnormal: true, zero: true, inexact: true })
}

fn misc_call(r: &mut Rng) -> Call {
    let a = number(r);
    let mut b = if r.chance(1, 4) { perturb(r, &a) } else { number(r) };
    if let (Some(x), Some(y)) = (a.exponent(), b.exponent()) {
        if (x as i64 - y as i64).abs() > 5000 {
            b.set_exponent(x);
        }
    }
    let (ta, tb) = (text(&a), text(&b));
    let two = |op: &str| call(op, format!("{} 0 None 0 {} {}", op, ta, tb));
    match r.below(10) {
        0 | 1 => two("rem"),
        2 => two("add_full_prec"),
        3 => two("sub_full_prec"),
        4 => two("mul_full_prec"),
        5 => two("cmp"),
        6 => {
            let x = crate::exact::int_num(r);
            let op = *r.pick(&["int", "fract", "floor", "ceil", "round"]);
            let n = match r.below(2) {
                0 => r.usize(0, 40),
                _ => (x.mantissa_max_bit_len().unwrap_or(64) as i64 - x.exponent().unwrap_or(0) as i64 - r.range(0, 70)).clamp(0, 1 << 30) as usize,
            };
            call(op, format!("{} 0 {} {} {}", op, rm_name(gen_rm(r)), n, text(&x)))
        }
        7 => {
            let e = match r.below(3) {
                0 => EMIN + r.range(0, 300),
                1 => EMAX - r.range(0, 3),
                _ => r.range(-100, 100),
            };
            call("set_exponent", format!("set_exponent 0 None {} {}", e, ta))
        }
        8 => {
            let op = *r.pick(&["max_value", "min_value", "min_positive", "min_positive_normal"]);
            call(op, format!("{} {} None 0", op, r.usize(1, 400)))
        }
        _ => {
            let it = from_item(r);
            Call { op: it.op, line: it.line }
        }
    }
}

fn text_call(r: &mut Rng, big: bool) -> Call {
    let rdx = *r.pick(&RADIXES);
    let rm = rm_name(gen_rm(r));
    let b = radix::base(rdx);
    if r.chance(1, 2) {
        let p = match r.below(4) {
            0 => 64 * r.usize(1, 4),
            1 if big => r.usize(1000, 20000),
            _ => r.usize(1, 700),
        };
        if r.chance(1, 4) {
            let len = radix::gen_dlen(r, big);
            let (d, e) = radix::gen_digits(r, rdx, p.min(2000), len);
            let t: String = d.iter().map(|v| std::char::from_digit(*v as u32, 36).unwrap()).collect();
            return call("from_radix", format!("from_radix {} {} {} {},{},{}", p, rm, b, if r.chance(1, 2) { "-" } else { "+" }, e, t));
        }
        let far = !big && r.chance(1, 8);
        let t = gen_text(r, rdx, p, big, far, EMAX);
        if rdx == Radix::Dec && r.chance(1, 4) {
            return call("from_str", format!("from_str 0 None 10 {}", t.s));
        }
        return call("parse", format!("parse {} {} {} {}", p, rm, b, t.s));
    }
    let x = if big {
        let len = r.usize(20, 300);
        gen_num(r, &NumOpts { len, exp: ExpClass::Small, subnormal: false, zero: false, inexact: false })
    } else if r.chance(1, 6) {
        let len = gen_len(r, 1);
        gen_num(r, &NumOpts { len, exp: ExpClass::Edge, subnormal: true, zero: false, inexact: false })
    } else {
        number(r)
    };
    let op = if r.chance(1, 2) { "format" } else { "to_radix" };
    call(op, format!("{} 0 {} {} {}", op, rm, b, text(&x)))
}

thread_local! {
    static SRV: RefCell<Vec<Option<Server>>> = const { RefCell::new(Vec::new()) };
}

/// The program of a variant, or why it could not be built.
fn exe(k: usize) -> Result<String, String> {
    let v = std::env::var(VARIANTS[k].1).unwrap_or_else(|_| panic!("{}: path of a program", VARIANTS[k].1));
    match v.strip_prefix("FAILED:") {
        Some(log) => Err(std::fs::read_to_string(log).unwrap_or_default()),
        None => Ok(v),
    }
}

fn ask(k: usize, lines: &[&str]) -> Answer {
    SRV.with(|s| {
        let mut s = s.borrow_mut();
        s.resize_with(VARIANTS.len(), || None);
        let a = s[k]
            .get_or_insert_with(|| Server::of(&exe(k).expect("program"), &format!("64 {} {}", EMIN, EMAX)))
            .ask(lines);
        if matches!(a, Answer::Died(_)) {
            s[k] = None;
        }
        a
    })
}

fn compare(w: &mut Worker, k: usize, it: &Call, want: &str, got: &str) {
    w.st.evals += 1;
    let name = VARIANTS[k].0;
    w.st.count(name);
    // a panic of the usual build is judged elsewhere; texts of memory errors depend on the machine
    if want.starts_with("P ") || want == "?" || got == "?" || want.contains("MemoryAllocation") || got.contains("MemoryAllocation") {
        w.st.count("not_compared");
        return;
    }
    if got != want {
        w.violate(
            format!("config:{}:{}", name, it.op),
            json!({"configuration": name, "call": short(&it.line), "got": short(got), "expected": short(want)}),
        );
    } else {
        w.nontrivial(&json!([name, it.line]));
    }
}

fn batch(r: &mut Rng, w: &mut Worker, big: bool, have: &[bool]) {
    let n = if big { 4 } else { BATCH };
    let items: Vec<Call> = (0..n)
        .map(|_| match r.below(12) {
            0..=6 => op_call(r, w.thorough, big),
            7..=9 if !big => misc_call(r),
            7..=9 => op_call(r, w.thorough, big),
            _ => text_call(r, big),
        })
        .collect();
    w.begin(|| json!({"op": "batch", "first": short(&items[0].line)}));
    let lines: Vec<&str> = items.iter().map(|i| i.line.as_str()).collect();
    let Answer::Lines(want) = ask(0, &lines) else {
        w.st.count("usual_build_died");
        w.st.inconclusive += 1;
        return;
    };
    for k in 1..VARIANTS.len() {
        if !have[k] {
            continue;
        }
        match ask(k, &lines) {
            Answer::Lines(got) => {
                for ((it, a), b) in items.iter().zip(&want).zip(&got) {
                    compare(w, k, it, a, b);
                }
            }
            Answer::Died(_) => {
                let mut found = false;
                for (it, a) in items.iter().zip(&want) {
                    match ask(k, &[&it.line]) {
                        Answer::Lines(v) => compare(w, k, it, a, &v[0]),
                        Answer::Died(how) => {
                            found = true;
                            w.st.evals += 1;
                            w.violate(
                                format!("config:{}:{}:{}", VARIANTS[k].0, it.op, how),
                                json!({"configuration": VARIANTS[k].0, "call": short(&it.line), "expected": short(a), "how": how}),
                            );
                            break;
                        }
                    }
                }
                if !found {
                    w.st.count("child_lost");
                    w.st.inconclusive += 1;
                }
            }
        }
    }
}

pub fn run(cfg: &Config) -> i32 {
    let mul = if cfg.thorough() { 12 } else { 1 };
    let n = std::env::var("C21_BATCHES").ok().and_then(|s| s.parse().ok()).unwrap_or(9000u64);
    let built: Vec<Result<String, String>> = (0..VARIANTS.len()).map(exe).collect();
    let have: Vec<bool> = built.iter().map(|b| b.is_ok()).collect();
    let mut st = drive(cfg, "c21-build", 1, 60.0, 60.0, |_, w, _| {
        for (k, b) in built.iter().enumerate() {
            w.st.evals += 1;
            if let Err(log) = b {
                w.violate(format!("config:{}:build", VARIANTS[k].0), json!({"configuration": VARIANTS[k].0, "call": "build of the library", "got": short(log)}));
            }
        }
    });
    st.merge(drive(cfg, "c21", n * mul, if cfg.thorough() { 3000.0 } else { 200.0 }, 120.0, |r, w, _| batch(r, w, false, &have)));
    st.merge(drive(cfg, "c21-big", n / 10 * mul, if cfg.thorough() { 3000.0 } else { 120.0 }, 120.0, |r, w, _| batch(r, w, true, &have)));
    finish(
        cfg,
        st,
        "answers of the library built optimized without assertions, without the standard library, and without instructions of x86, each compared \
         with the answer of the usual build to the same call; non-trivial: equal answers, distinct by configuration and call",
        Default::default(),
        "exploration",
    )
}
