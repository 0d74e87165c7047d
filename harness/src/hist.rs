//! C17: results depend on the arguments only, not on the state of the constants cache, on what the
//! thread did before, or on what other threads do; operands are never modified.

use crate::drive::*;
use crate::gen::*;
use crate::gencase::gen_fun;
use crate::model::*;
use crate::numeric::{gen_case, gen_case_big, ARITH1, ARITH2, CONSTS, ELEM, HYP, TRIG};
use crate::ops::*;
use crate::report::*;
use crate::rng::Rng;
use astro_float_num::{BigFloat, Consts, Error, Exponent, FromExt, Radix, RoundingMode, Sign};
use serde_json::{json, Value};
use std::str::FromStr;
use std::sync::{Arc, Barrier};

const RDX: [Radix; 4] = [Radix::Bin, Radix::Oct, Radix::Dec, Radix::Hex];

#[derive(Clone)]
pub enum Step {
    Num(Case),
    Exact(&'static str, BigFloat, BigFloat),
    Parse(String, Radix, usize, RoundingMode),
    Format(BigFloat, Radix, RoundingMode),
    ToRadix(BigFloat, Radix, RoundingMode),
    FromRadix(Vec<u8>, i32, Radix, usize, RoundingMode),
    Display(BigFloat),
    FromStr(String),
    FromExt(String, usize, RoundingMode),
}

fn sh(x: &BigFloat) -> String {
    format!("{} {:?}", show(x), x.err())
}

/// What a call returned.
pub enum Out {
    Num(BigFloat),
    Text(Result<String, Error>),
    Digits(Result<(Sign, Vec<u8>, Exponent), Error>),
    Cmp(Option<i128>, Option<i128>, Option<std::cmp::Ordering>),
}

impl Out {
    pub fn text(&self) -> String {
        match self {
            Out::Num(x) => sh(x),
            Out::Text(t) => format!("{:?}", t),
            Out::Digits(d) => format!("{:?}", d),
            Out::Cmp(a, b, c) => format!("{:?} {:?} {:?}", a, b, c),
        }
    }

    pub fn no_memory(&self) -> bool {
        match self {
            Out::Num(x) => x.is_nan() && matches!(x.err(), Some(Error::MemoryAllocation)),
            Out::Text(Err(e)) => *e == Error::MemoryAllocation,
            Out::Digits(Err(e)) => *e == Error::MemoryAllocation,
            _ => false,
        }
    }
}

impl Step {
    pub fn json(&self) -> Value {
        match self {
            Step::Num(c) => c.json(),
            Step::Exact(n, a, b) => json!({"op": n, "a": show(a), "b": show(b)}),
            Step::Parse(s, r, p, m) => json!({"op": "parse", "s": s, "rdx": format!("{:?}", r), "p": p, "rm": rm_name(*m)}),
            Step::Format(x, r, m) => json!({"op": "format", "a": show(x), "rdx": format!("{:?}", r), "rm": rm_name(*m)}),
            Step::ToRadix(x, r, m) => json!({"op": "convert_to_radix", "a": show(x), "rdx": format!("{:?}", r), "rm": rm_name(*m)}),
            Step::FromRadix(d, e, r, p, m) => json!({"op": "convert_from_radix", "d": d, "e": e, "rdx": format!("{:?}", r), "p": p, "rm": rm_name(*m)}),
            Step::Display(x) => json!({"op": "display", "a": show(x)}),
            Step::FromStr(s) => json!({"op": "from_str", "s": s}),
            Step::FromExt(s, p, m) => json!({"op": "from_ext", "s": s, "p": p, "rm": rm_name(*m)}),
        }
    }

    pub fn eval(&self, cc: &mut Consts) -> Out {
        match self {
            Step::Num(c) => Out::Num(exec(c, cc)),
            Step::Exact(n, a, b) => match *n {
                "rem" => Out::Num(a.rem(b)),
                "add_full_prec" => Out::Num(a.add_full_prec(b)),
                "sub_full_prec" => Out::Num(a.sub_full_prec(b)),
                "mul_full_prec" => Out::Num(a.mul_full_prec(b)),
                "cmp" => Out::Cmp(a.cmp(b), a.abs_cmp(b), a.partial_cmp(b)),
                "max" => Out::Num(a.max(b)),
                "round" => Out::Num(a.round(65, RoundingMode::ToEven)),
                "fract" => Out::Num(a.fract()),
                "int" => Out::Num(a.int()),
                "ceil" => Out::Num(a.ceil()),
                "clone" => Out::Num(a.clone()),
                "neg" => Out::Num(a.neg()),
                "abs" => Out::Num(a.abs()),
                "clamp" => Out::Num(a.clamp(b, b)),
                "set_exponent" => {
                    let mut x = a.clone();
                    x.set_exponent(b.exponent().unwrap_or(0));
                    Out::Num(x)
                }
                "from_words" => Out::Num(BigFloat::from_words(a.mantissa_digits().unwrap_or(&[]), astro_float_num::Sign::Neg, 3)),
                "from_u128" => Out::Num(BigFloat::from_u128(u128::MAX - 5, 200)),
                "from_f64" => Out::Num(BigFloat::from_f64(-1.25e-300, 700)),
                "from_i64" => Out::Num(BigFloat::from_i64(i64::MIN + 1, 64)),
                "max_value" => Out::Num(BigFloat::max_value(500)),
                "min_positive" => Out::Num(BigFloat::min_positive(500)),
                _ => Out::Num(a.floor()),
            },
            Step::Parse(s, r, p, m) => Out::Num(BigFloat::parse(s, *r, *p, *m, cc)),
            Step::Format(x, r, m) => Out::Text(x.format(*r, *m, cc)),
            Step::ToRadix(x, r, m) => Out::Digits(x.convert_to_radix(*r, *m, cc)),
            Step::FromRadix(d, e, r, p, m) => Out::Num(BigFloat::convert_from_radix(astro_float_num::Sign::Pos, d, *e, *r, *p, *m, cc)),
            Step::Display(x) => Out::Text(Ok(format!("{} {:b} {:o} {:X}", x, x, x, x))),
            Step::FromStr(s) => Out::Num(BigFloat::from_str(s).unwrap_or_else(|e| BigFloat::nan(Some(e)))),
            Step::FromExt(s, p, m) => Out::Num(BigFloat::from_ext(s.as_str(), *p, *m, cc)),
        }
    }

    pub fn run(&self, cc: &mut Consts) -> String {
        self.eval(cc).text()
    }

    fn operands(&self) -> Vec<&BigFloat> {
        match self {
            Step::Num(c) => vec![&c.a, &c.b],
            Step::Exact(_, a, b) => vec![a, b],
            Step::Format(x, _, _) | Step::ToRadix(x, _, _) | Step::Display(x) => vec![x],
            _ => vec![],
        }
    }

    /// the thread's own state matters for these
    fn thread_local(&self) -> bool {
        matches!(self, Step::Display(_) | Step::FromStr(_))
    }
}

fn decimal(r: &mut Rng, max: usize) -> String {
    let n = match r.below(4) {
        0 => r.usize(1, 20),
        1 => r.usize(1, max),
        _ => r.usize(1, 120),
    };
    let mut s = String::new();
    if r.chance(1, 2) {
        s.push('-');
    }
    let pt = r.usize(0, n);
    for k in 0..n {
        if k == pt {
            s.push('.');
        }
        s.push((b'0' + r.below(10) as u8) as char);
    }
    if r.chance(1, 2) {
        s.push_str(&format!("e{}", r.range(-300, 300)));
    }
    s
}

fn num(r: &mut Rng, max: usize) -> BigFloat {
    let cl = *r.pick(&[ExpClass::Small, ExpClass::Small, ExpClass::Mid]);
    let len = match r.below(6) {
        0 => r.usize(1, max.max(1)),
        1 => 1,
        _ => r.usize(1, 12),
    };
    gen_num(r, &NumOpts { len, exp: cl, subnormal: true, zero: true, inexact: true })
}

pub fn gen_step(r: &mut Rng, allops: &[Op], big: bool) -> Step {
    let rm = gen_rm(r);
    let maxw = if big { 400 } else { 40 };
    match r.below(20) {
        0..=8 => {
            let op = *r.pick(allops);
            let mut c = if big && r.chance(1, 3) && !matches!(op, Op::Asin | Op::Acos | Op::Sin | Op::Cos | Op::Tan) {
                gen_case_big(r, op, false)
            } else {
                gen_case(r, op, false)
            };
            if c.p > 20_000 {
                c.p = 20_000;
            }
            if c.nullary() && r.chance(1, 3) {
                c.p = if big { r.usize(1, 30_000) } else { r.usize(1, 4000) };
            }
            Step::Num(c)
        }
        9 | 10 => {
            // the constants at precisions which go up and down
            let op = *r.pick(CONSTS);
            let p = match r.below(4) {
                0 => 64 * r.usize(1, 10),
                1 => r.usize(1, 3000),
                _ => if big { r.usize(1, 30_000) } else { r.usize(1, 1000) },
            };
            Step::Num(Case::new1(op, BigFloat::new(64), p, rm))
        }
        11 | 12 => {
            let n = *r.pick(&["rem", "add_full_prec", "sub_full_prec", "mul_full_prec", "cmp", "max", "round", "fract", "floor"]);
            let (a, mut b) = (num(r, maxw), num(r, maxw));
            let (ea, eb) = (a.exponent().unwrap_or(0) as i64, b.exponent().unwrap_or(0) as i64);
            if (ea - eb).abs() > 4000 && !b.is_zero() {
                b.set_exponent((ea - r.range(-200, 2000)).clamp(EMIN, EMAX) as i32);
            }
            Step::Exact(n, a, b)
        }
        13 => Step::Parse(decimal(r, if big { 6000 } else { 800 }), Radix::Dec, r.usize(1, 1000), rm),
        14 => Step::Format(num(r, maxw), *r.pick(&RDX), rm),
        15 => Step::ToRadix(num(r, maxw), Radix::Dec, rm),
        16 => {
            let n = if r.chance(1, 3) { r.usize(1, if big { 6000 } else { 800 }) } else { r.usize(1, 60) };
            let d = (0..n).map(|_| r.below(10) as u8).collect();
            Step::FromRadix(d, r.range(-400, 400) as i32, Radix::Dec, if r.chance(1, 3) { usize::MAX } else { r.usize(1, 1000) }, rm)
        }
        17 => Step::Display(num(r, maxw)),
        18 => Step::FromStr(decimal(r, if big { 6000 } else { 800 })),
        _ => {
            if r.chance(1, 2) {
                Step::FromExt(decimal(r, 300), r.usize(1, 700), rm)
            } else {
                let op = *r.pick(&[Op::Ln, Op::Exp, Op::Sin, Op::Log10, Op::Acos]);
                Step::Num(gen_fun(r, op, false))
            }
        }
    }
}

pub fn ops() -> Vec<Op> {
    ARITH1.iter().chain(ARITH2).chain(ELEM).chain(TRIG).chain(HYP).chain(CONSTS).copied().collect()
}

pub fn fresh() -> Consts {
    Consts::new().expect("consts")
}

fn differ(w: &mut Worker, steps: &[Step], k: usize, how: &str, want: &str, got: &str) {
    let op = steps[k].json()["op"].as_str().unwrap_or("?").to_string();
    let prog: Vec<Value> = if steps.len() <= 40 { steps.iter().map(|s| s.json()).collect() } else { vec![steps[k].json()] };
    w.violate(
        format!("history:{}:{}", how, op),
        json!({"program": prog, "step": k, "how": how, "alone": &want[..want.len().min(4000)], "got": &got[..got.len().min(4000)]}),
    );
}

fn program(r: &mut Rng, w: &mut Worker, allops: &[Op], i: u64) {
    let big = (i / STREAMS) % 40 == 0;
    let n = r.usize(2, 12);
    let mut steps: Vec<Step> = vec![];
    for _ in 0..n {
        // sometimes the same arguments again, or the same operation at another precision
        if !steps.is_empty() && r.chance(1, 5) {
            let mut s = r.pick(&steps).clone();
            if let Step::Num(c) = &mut s {
                if r.chance(2, 3) {
                    c.p = (c.p as i64 + r.range(-130, 400)).max(1) as usize;
                }
                if r.chance(1, 2) {
                    c.rm = gen_rm(r);
                }
            }
            steps.push(s);
        } else {
            steps.push(gen_step(r, allops, big));
        }
    }
    let before: Vec<String> = steps.iter().flat_map(|s| s.operands().into_iter().map(sh).collect::<Vec<_>>()).collect();
    // each alone, with a new cache
    let mut alone: Vec<String> = vec![];
    for s in &steps {
        let j = s.json();
        let out = if s.thread_local() {
            w.call(&j, |_| {
                std::thread::scope(|sc| sc.spawn(|| guard(|| s.run(&mut fresh()))).join().unwrap_or(Err("join".into())))
            })
            .map(|v| match v {
                Ok(v) => v,
                Err(m) => {
                    w.violate(format!("panic:{}", j["op"].as_str().unwrap_or("?")), json!({"case": j, "panic": m}));
                    String::new()
                }
            })
        } else {
            w.call(&j, |_| s.run(&mut fresh()))
        };
        let Some(out) = out else { return };
        alone.push(out);
    }
    // one cache, in order, then backwards
    let mut own = fresh();
    for (how, rev) in [("shared", false), ("reverse", true)] {
        for q in 0..n {
            let k = if rev { n - 1 - q } else { q };
            let Some(got) = w.call(&steps[k].json(), |_| steps[k].run(&mut own)) else { return };
            if got != alone[k] {
                differ(w, &steps, k, how, &alone[k], &got);
                return;
            }
        }
    }
    // the cache every earlier program used
    for k in 0..n {
        let Some(got) = w.call(&steps[k].json(), |cc| steps[k].run(cc)) else { return };
        if got != alone[k] {
            differ(w, &steps, k, "long_lived", &alone[k], &got);
            return;
        }
    }
    // a new thread
    if r.chance(1, 8) {
        let out: Vec<Result<String, String>> = std::thread::scope(|sc| {
            sc.spawn(|| {
                let mut cc = fresh();
                steps.iter().map(|s| guard(|| s.run(&mut cc))).collect()
            })
            .join()
            .unwrap_or_default()
        });
        for (k, v) in out.iter().enumerate() {
            w.st.evals += 1;
            match v {
                Ok(v) if *v == alone[k] => {}
                Ok(v) => differ(w, &steps, k, "new_thread", &alone[k], v),
                Err(m) => differ(w, &steps, k, "new_thread_panic", &alone[k], m),
            }
        }
        w.st.count("programs_in_a_new_thread");
    }
    let after: Vec<String> = steps.iter().flat_map(|s| s.operands().into_iter().map(sh).collect::<Vec<_>>()).collect();
    for (b, a) in before.iter().zip(&after) {
        if a != b {
            w.violate("operand_modified", json!({"before": b, "after": a, "program": steps.iter().map(|s| s.json()).collect::<Vec<_>>()}));
        }
    }
    for s in &steps {
        w.st.count(s.json()["op"].as_str().unwrap_or("?"));
    }
    w.nontrivial(&json!(steps.iter().map(|s| s.json()).collect::<Vec<_>>()));
}

/// The same operands used by eight threads at once.
fn concurrent(cfg: &Config, st: &mut Stats, rounds: u64) {
    let allops = ops();
    for round in 0..rounds {
        let mut r = Rng::for_case(cfg.seed, "c17-concurrent", 0, round);
        let steps: Arc<Vec<Step>> = Arc::new((0..60).map(|_| gen_step(&mut r, &allops, false)).collect());
        let bar = Arc::new(Barrier::new(8));
        let hs: Vec<_> = (0..8u64)
            .map(|t| {
                let (steps, bar) = (steps.clone(), bar.clone());
                let mut r = Rng::for_case(cfg.seed, "c17-order", t, round);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn(move || {
                        let n = steps.len();
                        let mut order: Vec<usize> = (0..n).collect();
                        for k in (1..n).rev() {
                            order.swap(k, r.usize(0, k));
                        }
                        let mut cc = fresh();
                        bar.wait();
                        let mut out = vec![Ok(String::new()); n];
                        for k in order {
                            out[k] = guard(|| steps[k].run(&mut cc));
                        }
                        out
                    })
                    .expect("thread")
            })
            .collect();
        let outs: Vec<Vec<Result<String, String>>> = hs.into_iter().map(|h| h.join().unwrap_or_default()).collect();
        for k in 0..steps.len() {
            st.evals += 8;
            let want = guard(|| steps[k].run(&mut fresh()));
            for o in &outs {
                if o.get(k) != Some(&want) {
                    let op = steps[k].json()["op"].as_str().unwrap_or("?").to_string();
                    st.violate(
                        format!("concurrent:{}", op),
                        json!({"step": steps[k].json(), "alone": format!("{:?}", want).chars().take(3000).collect::<String>(),
                               "got": format!("{:?}", o.get(k)).chars().take(3000).collect::<String>(), "round": round, "seed": cfg.seed}),
                    );
                }
            }
        }
        st.cases += 1;
        st.count("concurrent_rounds");
    }
}

/// Body of a child process: the library used for the first time by all threads at the same moment.
pub fn race_child(seed: u64) -> i32 {
    let allops = ops();
    let bar = Arc::new(Barrier::new(8));
    let hs: Vec<_> = (0..8u64)
        .map(|t| {
            let bar = bar.clone();
            let allops = allops.clone();
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    // the first call of each thread, the same in half of the threads
                    let mut r = Rng::for_case(seed, "c17-race", if t % 2 == 0 { 0 } else { t }, 0);
                    let steps: Vec<Step> = (0..6).map(|_| gen_step(&mut r, &allops, false)).collect();
                    bar.wait();
                    let mut cc = fresh();
                    let out: Vec<_> = steps.iter().map(|s| guard(|| s.run(&mut cc))).collect();
                    (steps, out)
                })
                .expect("thread")
        })
        .collect();
    let mut bad = 0;
    for h in hs {
        let Ok((steps, out)) = h.join() else {
            println!("DIFFER join");
            return 1;
        };
        for (s, o) in steps.iter().zip(out) {
            let want = guard(|| s.run(&mut fresh()));
            if want != o {
                println!("DIFFER {}", json!({"step": s.json(), "alone": format!("{:?}", want), "got": format!("{:?}", o)}));
                bad = 1;
            }
        }
    }
    bad
}

fn races(cfg: &Config, st: &mut Stats, n: u64) {
    let exe = std::env::current_exe().expect("exe");
    for k in 0..n {
        let seed = cfg.seed.wrapping_mul(1_000_003).wrapping_add(k);
        let out = std::process::Command::new(&exe).arg("race").arg(seed.to_string()).output();
        let Ok(out) = out else {
            st.inconclusive += 1;
            continue;
        };
        st.cases += 1;
        st.evals += 48;
        st.count("processes_racing_on_first_use");
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        match out.status.code() {
            Some(0) => {}
            Some(1) => {
                let l = text.lines().find(|l| l.starts_with("DIFFER")).unwrap_or("").chars().take(3000).collect::<String>();
                st.violate("first_use_race".to_string(), json!({"seed": seed, "what": l}));
            }
            Some(_) => st.inconclusive += 1,
            None => st.violate("first_use_crash".to_string(), json!({"seed": seed, "status": format!("{:?}", out.status)})),
        }
    }
}

pub fn run(cfg: &Config) -> i32 {
    let t = cfg.thorough();
    let allops = ops();
    let mut st = drive(cfg, "c17", if t { 600_000 } else { 50_000 }, if t { 3000.0 } else { 500.0 }, 120.0, |r, w, i| program(r, w, &allops, i));
    if std::env::var("AFV_ONLY").is_err() {
        concurrent(cfg, &mut st, if t { 400 } else { 40 });
        races(cfg, &mut st, if t { 2000 } else { 150 });
        crate::san::threads(cfg, &mut st, if t { 5000 } else { 400 });
    }
    finish(
        cfg,
        st,
        "random programs of 2-12 calls; every result compared bit for bit (digits, exponent, sign, flag, error, text) with the same call made alone with a new cache: \
         with one cache in order and backwards, with a cache used by all earlier programs, in a new thread, by eight threads at once on shared operands, and in \
         processes whose threads all make the first use of the library at the same moment; threads under ThreadSanitizer; operands compared before and after; non-trivial: distinct programs",
        Default::default(),
        "exploration",
    )
}
