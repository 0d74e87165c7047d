//! C06: the constants cache. Every word-aligned precision up to a bound, in random order, in caches
//! with different histories, against MPFR.

use crate::drive::*;
use crate::gen::gen_rm;
use crate::judge::canonical;
use crate::model::*;
use crate::report::*;
use crate::rng::Rng;
use astro_float_num::{BigFloat, Consts, RoundingMode};
use rug::Float;
use serde_json::json;

const NAMES: [&str; 4] = ["const_pi", "const_e", "const_ln2", "const_ln10"];

struct Master {
    v: Vec<Float>,
}

fn master(bits: u32) -> Master {
    let wp = bits + 256;
    Master {
        v: vec![
            Float::with_val_round(wp, rug::float::Constant::Pi, RNDZ).0,
            Float::with_val_round(wp, Float::with_val(64, 1).exp_ref(), RNDZ).0,
            Float::with_val_round(wp, rug::float::Constant::Log2, RNDZ).0,
            Float::with_val_round(wp, Float::with_val(64, 10).ln_ref(), RNDZ).0,
        ],
    }
}

fn get(cc: &mut Consts, k: usize, p: usize, rm: RoundingMode) -> BigFloat {
    match k {
        0 => cc.pi(p, rm),
        1 => cc.e(p, rm),
        2 => cc.ln_2(p, rm),
        _ => cc.ln_10(p, rm),
    }
}

fn one(w: &mut Worker, m: &Master, cc: &mut Option<Consts>, k: usize, p: usize, rm: RoundingMode, hist: &[usize]) {
    let j = json!({"op": NAMES[k], "p": p, "rm": rm_name(rm), "requested_before": hist});
    let got = match cc {
        Some(c) => w.call(&j, |_| get(c, k, p, rm)),
        None => w.call(&j, |c| get(c, k, p, rm)),
    };
    let Some(got) = got else {
        if cc.is_some() {
            *cc = Consts::new().ok();
        }
        return;
    };
    let rp = round_p(p);
    let v = Float::with_val_round((rp + 128) as u32, &m.v[k], RNDZ).0;
    let (e, _) = round_ideal(&Ideal::Num { v, sticky: true }, rp, rm);
    if observe(&got) != e {
        w.violate(format!("value:{}", NAMES[k]), json!({"case": j, "got": show(&got), "expected": show_res(&e)}));
    } else if got.mantissa_max_bit_len() != Some(rp) {
        w.violate(format!("prec:{}", NAMES[k]), json!({"case": j, "precision": got.mantissa_max_bit_len()}));
    } else if !got.inexact() {
        w.violate(format!("flag:{}", NAMES[k]), json!({"case": j}));
    }
    if let Err(e) = canonical(&got) {
        w.violate(format!("canon:{}", NAMES[k]), json!({"case": j, "why": e}));
    }
    w.st.count(NAMES[k]);
    w.nontrivial(&json!([NAMES[k], rp, rm_name(rm), hist.len().min(3)]));
}

pub fn run(cfg: &Config) -> i32 {
    // every whole-word precision, function and mode, in a scattered order
    let words: u64 = if cfg.thorough() { 1500 } else { 250 };
    let top: u64 = if cfg.thorough() { 20000 } else { 1600 };
    let m = master((top * 64 + 64) as u32);
    let n = words * 4 * 6;
    // a step coprime to n spreads neighbours over the streams and the sizes
    let mut step = n * 7 / 11;
    while gcd(step, n) != 1 {
        step += 1;
    }
    let mut st = drive(cfg, "c06-all", n, 300.0, 120.0, |r, w, i| {
        let k = (i * step) % n;
        let rm = MODES[(k % 6) as usize];
        let c = (k / 6 % 4) as usize;
        let words = (k / 24 + 1) as usize;
        let p = words * 64 - if r.chance(1, 2) { 0 } else { r.usize(0, 63) };
        one(w, &m, &mut None, c, p, rm, &[]);
    });
    st.count("every_precision_up_to_words_done");
    // fresh caches with short histories
    let cases = if cfg.thorough() { 200_000 } else { 20_000 };
    st.merge(drive(cfg, "c06-hist", cases, 300.0, 120.0, |r, w, _| {
        let mut cc = Consts::new().ok();
        let mut hist = vec![];
        let big = if r.chance(1, 12) { 250 } else { 40 };
        for _ in 0..r.usize(1, 7) {
            let k = r.usize(0, 3);
            let p = match r.below(5) {
                0 if !hist.is_empty() => {
                    let h: usize = *r.pick(&hist);
                    (h + 64 * r.usize(0, 2)).saturating_sub(64).max(1)
                }
                1 => r.usize(1, 64 * 4),
                _ => r.usize(1, 64 * big),
            };
            let rm = gen_rm(r);
            one(w, &m, &mut cc, k, p, rm, &hist);
            hist.push(p);
        }
    }));
    // long ones
    let cases = if cfg.thorough() { 400 } else { 48 };
    st.merge(drive(cfg, "c06-long", cases, 300.0, 200.0, |r, w, _| {
        let mut cc = if r.chance(1, 2) { Consts::new().ok() } else { None };
        let p = r.usize(1, (top * 64) as usize);
        one(w, &m, &mut cc, r.clone().usize(0, 3), p, gen_rm(r), &[]);
        w.st.count("long");
    }));
    st.merge(none_mode(cfg, &m));
    finish(
        cfg,
        st,
        "all four constants at every whole-word precision up to the bound in all six modes, plus random request histories in fresh caches and long \
         precisions; non-trivial: distinct by constant, precision, mode and length of history",
        Default::default(),
        "exploration",
    )
}

fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 { a } else { gcd(b, a % b) }
}

/// Without rounding the value is unspecified beyond being near: within a unit in the last place.
fn none_mode(cfg: &Config, m: &Master) -> Stats {
    drive(cfg, "c06-none", 800, 100.0, 60.0, |r: &mut Rng, w, _| {
        let (k, p) = (r.usize(0, 3), r.usize(1, 4000));
        let j = json!({"op": NAMES[k], "p": p, "rm": "None"});
        let Some(g) = w.call(&j, |c| get(c, k, p, RoundingMode::None)) else { return };
        let Some(v) = to_mpfr(&g) else {
            w.violate(format!("none:{}", NAMES[k]), json!({"case": j, "got": show(&g)}));
            return;
        };
        let mut d = Float::with_val(v.prec().max(64) + 300, &v - &m.v[k]);
        d.abs_mut();
        let mut ulp = Float::with_val(64, 1);
        shift(&mut ulp, get_exp(&m.v[k]) - round_p(p) as i64);
        if d > ulp {
            w.violate(format!("none:{}", NAMES[k]), json!({"case": j, "got": show(&g)}));
        }
        w.st.count("mode_none");
    })
}
