//! C18 (conversions from machine numbers), C20 (contexts), C22 (serialization), C24 (rounding only when decided).

use crate::drive::*;
use crate::gen::*;
use crate::judge::canonical;
use crate::model::*;
use crate::report::*;
use crate::rng::Rng;
use astro_float_num::ctx::{Context, Contextable};
use astro_float_num::{BigFloat, Consts, Error, Exponent, FromExt, Radix, RoundingMode, Sign, EXPONENT_MAX, EXPONENT_MIN};
use rug::{Float, Integer};
use serde_json::{json, Value};
use std::str::FromStr;

pub fn int_bits(r: &mut Rng, bits: u32) -> u128 {
    let m = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    let x = (r.u64() as u128) << 64 | r.u64() as u128;
    let v = match r.below(9) {
        0 => 0,
        1 => m,
        2 => 1u128 << (bits - 1),
        3 => (1u128 << (bits - 1)) - 1,
        4 => 1u128 << r.below(bits as u64),
        5 => r.below(300) as u128,
        6 => (x & m) >> r.below(bits as u64),
        7 => ((x & m) >> r.below(bits as u64)) << r.below(bits as u64),
        _ => x,
    };
    let v = match r.below(6) {
        0 => v.wrapping_add(1),
        1 => v.wrapping_sub(1),
        2 => v.wrapping_neg(),
        _ => v,
    };
    v & m
}

fn any_p(r: &mut Rng) -> usize {
    match r.below(10) {
        0 => 1,
        1 => 64,
        2 => 65,
        3 => 128,
        4 => 129,
        5 => r.usize(1, 63),
        6 => 64 * r.usize(1, 40),
        7 => *r.pick(&[usize::MAX, usize::MAX - 1, usize::MAX - 63, usize::MAX - 64, isize::MAX as usize]),
        _ => r.usize(1, 1000),
    }
}

pub fn f64_bits(r: &mut Rng) -> u64 {
    let v = r.u64();
    match r.below(10) {
        0 => 0,
        1 => 1 << 63,
        2 => f64::INFINITY.to_bits() | (v & (1 << 63)),
        3 => f64::NAN.to_bits() | (v & ((1 << 63) | 0xf)),
        4 => v & 0x800f_ffff_ffff_ffff,
        5 => (v & (1 << 63)) | (1 << r.below(52)),
        6 => (v & 0x8000_0000_0000_0000) | (0x7fe << 52) | (v & 0xf_ffff_ffff_ffff) | if v & 16 == 0 { 0xf_ffff_ffff_ffff } else { 0 },
        7 => (v & 0x8010_0000_0000_0000) | r.below(3),
        8 => ((r.range(-1000, 1000) as f64) / 8.0).to_bits(),
        _ => v,
    }
}

pub fn f32_bits(r: &mut Rng) -> u32 {
    let v = r.u64() as u32;
    match r.below(8) {
        0 => 0,
        1 => 1 << 31,
        2 => f32::INFINITY.to_bits() | (v & (1 << 31)),
        3 => f32::NAN.to_bits() | (v & ((1 << 31) | 0xf)),
        4 => v & 0x807f_ffff,
        5 => (v & (1 << 31)) | (1 << r.below(23)),
        _ => v,
    }
}

fn good_p(p: usize) -> bool {
    p < (isize::MAX as usize) / 2 - (1 << 33)
}

/// Exact value expected: None for NaN, Err(neg) for infinity.
enum V {
    Nan,
    Inf(bool),
    Val(Float, bool),
}

fn v_int(v: Integer) -> V {
    let neg = v < 0;
    V::Val(Float::with_val(v.significant_bits().max(2), &v), neg)
}

fn v_f64(f: f64) -> V {
    if f.is_nan() {
        V::Nan
    } else if f.is_infinite() {
        V::Inf(f < 0.0)
    } else {
        V::Val(Float::with_val(53, f), f < 0.0)
    }
}

/// A number which must be exactly `v` with `len` bits of precision.
fn exactly(w: &mut Worker, j: &Value, what: &str, x: &BigFloat, v: &V, p: usize) {
    let bad = |w: &mut Worker, why: &str| w.violate(format!("conv:{}:{}", what, why), json!({"case": j, "got": show(x)}));
    if let Err(e) = canonical(x) {
        w.violate(format!("canon:{}", what), json!({"case": j, "got": show(x), "why": e}));
        return;
    }
    if !good_p(p) {
        // an infinity or NaN has no precision and may be recognized first
        let ok = match v {
            V::Nan => x.is_nan(),
            V::Inf(n) => (x.is_nan() && x.err() == Some(Error::InvalidArgument)) || (x.is_inf() && x.is_inf_neg() == *n),
            V::Val(..) => x.is_nan() && x.err() == Some(Error::InvalidArgument),
        };
        if !ok {
            bad(w, "precision");
        }
        return;
    }
    if let (V::Val(f, _), Some(g)) = (v, to_mpfr(x)) {
        if halved_subnormal(f, &g) && what.starts_with("from_f64") {
            w.violate("conv:from_f64:subnormal_halved", json!({"case": j, "got": show(x)}));
            return;
        }
    }
    match v {
        V::Nan => {
            if !x.is_nan() {
                bad(w, "nan");
            }
        }
        V::Inf(n) => {
            if !x.is_inf() || x.is_inf_neg() != *n {
                bad(w, "inf");
            }
        }
        V::Val(f, neg) => {
            let Some(g) = to_mpfr(x) else {
                bad(w, "value");
                return;
            };
            if g != *f {
                bad(w, "value");
            } else if !f.is_zero() && (x.is_negative() != *neg || x.is_positive() == *neg) {
                bad(w, "sign");
            } else if x.mantissa_max_bit_len() != Some(round_p(p)) {
                bad(w, "precision");
            } else if x.inexact() {
                bad(w, "inexact");
            }
        }
    }
}

/// The listed finding: a subnormal double comes out as exactly a half of itself.
fn halved_subnormal(f: &Float, g: &Float) -> bool {
    !f.is_zero() && get_exp(f) <= -1022 && Float::with_val(128, g * 2) == *f
}

/// The number must be `v` correctly rounded to exactly p bits.
fn rounded(w: &mut Worker, j: &Value, what: &str, x: &BigFloat, v: &V, p: usize, rm: RoundingMode) {
    let V::Val(f, _) = v else {
        exactly(w, j, what, x, v, p);
        return;
    };
    if !good_p(p) || f.is_zero() {
        exactly(w, j, what, x, v, p);
        return;
    }
    let (e, inx) = round_ideal(&Ideal::Num { v: f.clone(), sticky: false }, p, rm);
    if what == "from_f64:from_ext" && get_exp(f) <= -1022 && observe(x) != e {
        let h = Float::with_val(64, f / 2);
        if observe(x) == round_ideal(&Ideal::Num { v: h, sticky: false }, p, rm).0 {
            w.violate("conv:from_f64:subnormal_halved", json!({"case": j, "got": show(x)}));
            return;
        }
    }
    if observe(x) != e {
        w.violate(format!("conv:{}:value", what), json!({"case": j, "got": show(x), "expected": show_res(&e)}));
    } else if x.inexact() != inx {
        w.violate(format!("conv:{}:inexact", what), json!({"case": j, "got": show(x)}));
    } else if x.mantissa_max_bit_len() != Some(round_p(p)) {
        w.violate(format!("conv:{}:precision", what), json!({"case": j, "got": show(x)}));
    }
    if let Err(e) = canonical(x) {
        w.violate(format!("canon:{}", what), json!({"case": j, "got": show(x), "why": e}));
    }
}

macro_rules! int_case {
    ($r:ident, $w:ident, $p:ident, $rm:ident, $t:ty, $f:ident, $n:literal) => {{
        let v = int_bits($r, <$t>::BITS) as $t;
        let j = json!({"op": $n, "v": v.to_string(), "p": $p, "rm": rm_name($rm)});
        // a precision below the size of the type is rounded up to whole words; a value that needs more
        // bits than that cannot be represented and gives an error
        if let Some(x) = $w.call(&j, |_| BigFloat::$f(v, $p)) {
            let need = <$t>::BITS as usize;
            if good_p($p) && round_p($p) < need {
                if !(x.is_nan() && x.err() == Some(Error::InvalidArgument)) {
                    let ok = to_mpfr(&x).map(|f| f == v).unwrap_or(false);
                    if !ok {
                        $w.violate(format!("conv:{}:value", $n), json!({"case": j, "got": show(&x)}));
                    }
                }
            } else {
                exactly($w, &j, $n, &x, &v_int(Integer::from(v)), $p);
            }
        }
        if let Some(x) = $w.call(&j, |_| BigFloat::from(v)) {
            exactly($w, &j, concat!($n, ":from"), &x, &v_int(Integer::from(v)), 128);
        }
        if let Some(x) = $w.call(&j, |cc| BigFloat::from_ext(v, $p, $rm, cc)) {
            rounded($w, &j, concat!($n, ":from_ext"), &x, &v_int(Integer::from(v)), $p, $rm);
        }
        $w.st.count($n);
        if v != 0 {
            $w.nontrivial(&j);
        }
    }};
}

fn machine(r: &mut Rng, w: &mut Worker, i: u64) {
    let p = any_p(r);
    let rm = gen_rm(r);
    match (i / 8) % 14 {
        0 => int_case!(r, w, p, rm, i8, from_i8, "from_i8"),
        1 => int_case!(r, w, p, rm, u8, from_u8, "from_u8"),
        2 => int_case!(r, w, p, rm, i16, from_i16, "from_i16"),
        3 => int_case!(r, w, p, rm, u16, from_u16, "from_u16"),
        4 => int_case!(r, w, p, rm, i32, from_i32, "from_i32"),
        5 => int_case!(r, w, p, rm, u32, from_u32, "from_u32"),
        6 => int_case!(r, w, p, rm, i64, from_i64, "from_i64"),
        7 => int_case!(r, w, p, rm, u64, from_u64, "from_u64"),
        8 => int_case!(r, w, p, rm, i128, from_i128, "from_i128"),
        9 => int_case!(r, w, p, rm, u128, from_u128, "from_u128"),
        10 | 11 => {
            let f = f64::from_bits(f64_bits(r));
            let j = json!({"op": "from_f64", "v": format!("{:e} {:016x}", f, f.to_bits()), "p": p, "rm": rm_name(rm)});
            if let Some(x) = w.call(&j, |_| BigFloat::from_f64(f, p)) {
                exactly(w, &j, "from_f64", &x, &v_f64(f), p);
            }
            if let Some(x) = w.call(&j, |_| BigFloat::from(f)) {
                exactly(w, &j, "from_f64:from", &x, &v_f64(f), 128);
            }
            if let Some(x) = w.call(&j, |cc| BigFloat::from_ext(f, p, rm, cc)) {
                rounded(w, &j, "from_f64:from_ext", &x, &v_f64(f), p, rm);
            }
            w.st.count("from_f64");
            if f != 0.0 {
                w.nontrivial(&j);
            }
        }
        12 => {
            let f = f32::from_bits(f32_bits(r));
            let j = json!({"op": "from_f32", "v": format!("{:e} {:08x}", f, f.to_bits()), "p": p, "rm": rm_name(rm)});
            if let Some(x) = w.call(&j, |_| BigFloat::from_f32(f, p)) {
                exactly(w, &j, "from_f32", &x, &v_f64(f as f64), p);
            }
            if let Some(x) = w.call(&j, |_| BigFloat::from(f)) {
                exactly(w, &j, "from_f32:from", &x, &v_f64(f as f64), 128);
            }
            if let Some(x) = w.call(&j, |cc| BigFloat::from_ext(f, p, rm, cc)) {
                rounded(w, &j, "from_f32:from_ext", &x, &v_f64(f as f64), p, rm);
            }
            w.st.count("from_f32");
            if f != 0.0 {
                w.nontrivial(&j);
            }
        }
        _ => {
            let v = int_bits(r, 64) as u64;
            let j = json!({"op": "from_word", "v": v, "p": p});
            if let Some(x) = w.call(&j, |_| BigFloat::from_word(v, p)) {
                exactly(w, &j, "from_word", &x, &v_int(Integer::from(v)), p);
            }
            if let Some(x) = w.call(&j, |_| BigFloat::new(p)) {
                exactly(w, &j, "new", &x, &v_int(Integer::new()), p);
            }
            limits(w, p);
            w.st.count("from_word");
            w.nontrivial(&j);
        }
    }
}

/// max_value and friends: the ends of the range at a precision.
fn limits(w: &mut Worker, p: usize) {
    let fs: [(&str, fn(usize) -> BigFloat); 4] = [
        ("max_value", BigFloat::max_value),
        ("min_value", BigFloat::min_value),
        ("min_positive", BigFloat::min_positive),
        ("min_positive_normal", BigFloat::min_positive_normal),
    ];
    for (n, f) in fs {
        let j = json!({"op": n, "p": p});
        let Some(x) = w.call(&j, |_| f(p)) else { continue };
        if !good_p(p) {
            if !x.is_nan() || x.err() != Some(Error::InvalidArgument) {
                w.violate(format!("conv:{}:precision", n), json!({"case": j, "got": show(&x)}));
            }
            continue;
        }
        let len = round_p(p) / 64;
        let mut m = vec![0u64; len];
        let (neg, e) = match n {
            "max_value" | "min_value" => {
                m.fill(u64::MAX);
                (n == "min_value", EMAX)
            }
            "min_positive" => {
                m[0] = 1;
                (false, EMIN)
            }
            _ => {
                m[len - 1] = 1 << 63;
                (false, EMIN)
            }
        };
        if observe(&x) != (Res::Num { neg, e, words: m }) || x.inexact() {
            w.violate(format!("conv:{}:value", n), json!({"case": j, "got": show(&x)}));
        }
    }
}

/// FromExt of a number and of text, FromStr, Default.
fn texts(r: &mut Rng, w: &mut Worker, i: u64) {
    let p = any_p(r);
    let rm = gen_rm(r);
    if (i / 8) % 2 == 0 {
        let cl = *r.pick(&[ExpClass::Small, ExpClass::Mid, ExpClass::Edge]);
        let len = gen_len(r, 0);
        let x = gen_num(r, &NumOpts { len, exp: cl, subnormal: true, zero: true, inexact: false });
        let mut x = x;
        x.set_inexact(false);
        let j = json!({"op": "from_ext", "x": show(&x), "p": p, "rm": rm_name(rm)});
        let Some(y) = w.call(&j, |cc| BigFloat::from_ext(x.clone(), p, rm, cc)) else { return };
        let v = V::Val(to_mpfr(&x).unwrap(), x.is_negative());
        if let V::Val(f, _) = &v {
            if !f.is_zero() && good_p(p) {
                let (e, _) = round_ideal(&Ideal::Num { v: f.clone(), sticky: false }, p, rm);
                if let Res::Inf(n) = e {
                    // rounding went out of the range: infinity, or the error of the overflow
                    let s = if n { Sign::Neg } else { Sign::Pos };
                    let ok = (y.is_inf() && y.is_inf_neg() == n) || (y.is_nan() && y.err() == Some(Error::ExponentOverflow(s)));
                    if !ok {
                        w.violate("conv:from_ext:overflow", json!({"case": j, "got": show(&y)}));
                    }
                    return;
                }
            }
        }
        rounded(w, &j, "from_ext", &y, &v, p, rm);
        w.nontrivial(&j);
        w.st.count("from_ext_number");
        return;
    }
    // decimal text of moderate size: exact value by integers
    let nd = r.usize(1, 40);
    let mut d: String = (0..nd).map(|_| char::from(b'0' + r.below(10) as u8)).collect();
    if r.chance(1, 4) {
        d = d.replace(|c: char| c > '4', "0");
    }
    let point = r.usize(0, nd);
    let e = if r.chance(1, 3) { 0 } else { r.range(-60, 60) };
    let neg = r.chance(1, 2);
    let mut s = String::new();
    s.push_str(if neg { "-" } else if r.chance(1, 4) { "+" } else { "" });
    s.push_str(&d[..point]);
    if point < nd || r.chance(1, 2) {
        s.push('.');
        s.push_str(&d[point..]);
    }
    if e != 0 || r.chance(1, 4) {
        s.push_str(&format!("{}{}", if r.chance(1, 2) { "e" } else { "E" }, e));
    }
    let j = json!({"op": "from_str", "s": s, "p": p, "rm": rm_name(rm)});
    let m = Integer::from_str(&d).unwrap();
    let k = e - (nd - point) as i64;
    let Some(id) = crate::radix::value_of(&m, k, neg, Radix::Dec, round_p(p.min(100_000)).max(1024)) else { return };
    // usize::MAX asks parse for its automatic precision; other unusable precisions are errors
    if p != usize::MAX {
        if let Some(x) = w.call(&j, |cc| BigFloat::from_ext(s.as_str(), p, rm, cc)) {
            if !good_p(p) {
                if !x.is_nan() || x.err() != Some(Error::InvalidArgument) {
                    w.violate("conv:from_ext_str:precision", json!({"case": j, "got": show(&x)}));
                }
            } else {
                let (e, inx) = round_ideal(&id, round_p(p), rm);
                if observe(&x) != e {
                    w.violate("conv:from_ext_str:value", json!({"case": j, "got": show(&x), "expected": show_res(&e)}));
                } else if e != Res::Zero && x.inexact() != inx {
                    w.violate("conv:from_ext_str:inexact", json!({"case": j, "got": show(&x)}));
                } else if x.mantissa_max_bit_len() != Some(round_p(p)) {
                    w.violate("conv:from_ext_str:precision", json!({"case": j, "got": show(&x)}));
                }
            }
        }
    }
    // FromStr: rounded to nearest at the precision it chose, which holds the written digits
    if let Some(x) = w.call(&j, |_| BigFloat::from_str(&s)) {
        match x {
            Ok(x) if !x.is_nan() && !x.is_inf() => {
                let q = x.mantissa_max_bit_len().unwrap();
                let sig = d.trim_start_matches('0').trim_end_matches('0').len();
                if m != 0 && (q as f64) < sig as f64 * 3.3219 {
                    w.violate("conv:from_str:precision", json!({"case": j, "got": show(&x)}));
                }
                let (e, _) = round_ideal(&id, q, RoundingMode::ToEven);
                if observe(&x) != e {
                    w.violate("conv:from_str:value", json!({"case": j, "got": show(&x), "expected": show_res(&e)}));
                }
            }
            o => w.violate("conv:from_str:value", json!({"case": j, "got": format!("{:?}", o)})),
        }
    }
    let dz = BigFloat::default();
    if !dz.is_zero() {
        w.violate("conv:default", json!({"case": j, "got": show(&dz)}));
    }
    w.st.count("from_str");
    w.nontrivial(&j);
}

pub fn run_c18(cfg: &Config) -> i32 {
    let mul = if cfg.thorough() { 30 } else { 1 };
    let mut st = drive(cfg, "c18-machine", 3_000_000 * mul, 300.0, 30.0, machine);
    st.merge(drive(cfg, "c18-text", 400_000 * mul, 300.0, 30.0, texts));
    finish(
        cfg,
        st,
        "all primitive types with extreme and random values at ordinary, word-edge and unusable precisions; numbers and decimal text by the conversion traits; \
         non-trivial: non-zero values, distinct by value, precision and mode",
        Default::default(),
        "exploration",
    )
}

// ---------------------------------------------------------------------------------------------

fn gen_exp_any(r: &mut Rng) -> Exponent {
    match r.below(6) {
        0 => 0,
        1 => *r.pick(&[i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1, EXPONENT_MIN, EXPONENT_MAX]),
        2 => r.range(-3, 3) as Exponent,
        3 => (r.u64() as i32) as Exponent,
        _ => r.range(-100_000, 100_000) as Exponent,
    }
}

fn same(a: &BigFloat, b: &BigFloat) -> bool {
    a.as_raw_parts() == b.as_raw_parts() && a.is_nan() == b.is_nan() && a.is_inf_pos() == b.is_inf_pos() && a.err() == b.err()
}

struct Model {
    p: usize,
    rm: RoundingMode,
    emin: Exponent,
    emax: Exponent,
}

/// What any context must show, through inherent methods or the trait.
fn observe_ctx<T: Contextable>(w: &mut Worker, j: &Value, what: &str, c: &mut T, m: &Model, consts: bool) {
    let mut bad = |w: &mut Worker, why: &str| w.violate(format!("ctx:{}:{}", what, why), json!({"case": j}));
    if c.precision() != m.p {
        bad(w, "precision");
    }
    if c.rounding_mode() != m.rm {
        bad(w, "rounding_mode");
    }
    if c.emin() != m.emin {
        bad(w, "emin");
    }
    if c.emax() != m.emax {
        bad(w, "emax");
    }
    if consts {
        let mut fresh = Consts::new().expect("consts");
        let want = [fresh.pi(m.p, m.rm), fresh.e(m.p, m.rm), fresh.ln_2(m.p, m.rm), fresh.ln_10(m.p, m.rm)];
        let got = guard(|| [c.const_pi(), c.const_e(), c.const_ln2(), c.const_ln10()]);
        let got2 = guard(|| {
            let cc = c.consts();
            [cc.pi(m.p, m.rm), cc.e(m.p, m.rm), cc.ln_2(m.p, m.rm), cc.ln_10(m.p, m.rm)]
        });
        w.st.evals += 8;
        for (k, n) in ["pi", "e", "ln2", "ln10"].iter().enumerate() {
            match (&got, &got2) {
                (Ok(g), Ok(h)) => {
                    if !same(&g[k], &want[k]) || !same(&h[k], &want[k]) {
                        bad(w, n);
                    }
                    // independent of the library: MPFR
                    if k == 0 && good_p(m.p) {
                        let rp = round_p(m.p);
                        let v = Float::with_val_round((rp + 64) as u32, rug::float::Constant::Pi, RNDZ).0;
                        if observe(&g[0]) != round_ideal(&Ideal::Num { v, sticky: true }, rp, m.rm).0 {
                            bad(w, "pi_value");
                        }
                    }
                }
                _ => bad(w, "panic"),
            }
        }
    }
}

/// A random program of context operations against a model of its state.
fn ctx_program(r: &mut Rng, w: &mut Worker, _i: u64) {
    let gp = |r: &mut Rng| match r.below(6) {
        0 => 64 * r.usize(1, 20),
        1 => r.usize(1, 64),
        _ => r.usize(1, 700),
    };
    let clamp = |a: Exponent, b: Exponent| (a.clamp(EXPONENT_MIN, 0), b.clamp(0, EXPONENT_MAX));
    let (p, rm, a, b) = (gp(r), gen_rm(r), gen_exp_any(r), gen_exp_any(r));
    let (emin, emax) = clamp(a, b);
    let mut m = Model { p, rm, emin, emax };
    let mut log = vec![json!(["new", p, rm_name(rm), a, b])];
    let j0 = json!({"op": "ctx", "program": log});
    let Some(mut c) = w.call(&j0, |_| Context::new(p, rm, Consts::new().unwrap(), a, b)) else { return };
    for _ in 0..r.usize(1, 12) {
        match r.below(8) {
            0 => {
                let p = gp(r);
                log.push(json!(["set_precision", p]));
                c.set_precision(p);
                m.p = p;
            }
            1 => {
                let rm = gen_rm(r);
                log.push(json!(["set_rounding_mode", rm_name(rm)]));
                c.set_rounding_mode(rm);
                m.rm = rm;
            }
            2 => {
                let e = gen_exp_any(r);
                log.push(json!(["set_emin", e]));
                c.set_emin(e);
                m.emin = clamp(e, 0).0;
            }
            3 => {
                let e = gen_exp_any(r);
                log.push(json!(["set_emax", e]));
                c.set_emax(e);
                m.emax = clamp(0, e).1;
            }
            4 => {
                log.push(json!(["set_consts"]));
                let mut cc = Consts::new().unwrap();
                let q = r.usize(1, 900);
                let _ = cc.pi(q, m.rm);
                let _ = cc.ln_10(q / 2 + 1, m.rm);
                c.set_consts(cc);
            }
            5 => {
                log.push(json!(["clone"]));
                let j = json!({"op": "ctx", "program": log});
                let Some(d) = w.call(&j, |_| c.clone()) else { return };
                match d {
                    Ok(d) => {
                        let old = std::mem::replace(&mut c, d);
                        let mut old = old;
                        observe_ctx(w, &j, "original_of_clone", &mut old, &m, false);
                    }
                    Err(e) => {
                        w.violate("ctx:clone:error", json!({"case": j, "got": format!("{:?}", e)}));
                        return;
                    }
                }
            }
            6 => {
                log.push(json!(["to_raw_parts"]));
                let j = json!({"op": "ctx", "program": log});
                let Some((p, rm, cc, e1, e2)) = w.call(&j, |_| c.to_raw_parts()) else { return };
                if p != m.p || rm != m.rm || e1 != m.emin || e2 != m.emax {
                    w.violate("ctx:to_raw_parts", json!({"case": j, "got": json!([p, rm_name(rm), e1, e2])}));
                }
                c = Context::new(p, rm, cc, e1, e2);
            }
            _ => {
                log.push(json!(["consts"]));
                let j = json!({"op": "ctx", "program": log});
                observe_ctx(w, &j, "context", &mut c, &m, true);
            }
        }
        let j = json!({"op": "ctx", "program": log});
        if c.precision() != m.p || c.rounding_mode() != m.rm || c.emin() != m.emin || c.emax() != m.emax {
            w.violate("ctx:getters", json!({"case": j, "got": json!([c.precision(), rm_name(c.rounding_mode()), c.emin(), c.emax()])}));
        }
        observe_ctx(w, &j, "context", &mut c, &m, false);
    }
    let j = json!({"op": "ctx", "program": log});
    observe_ctx(w, &j, "context", &mut c, &m, true);
    w.nontrivial(&j);
    // tuples
    let mut cc = Consts::new().unwrap();
    let full = Model { p: m.p, rm: m.rm, emin: EXPONENT_MIN, emax: EXPONENT_MAX };
    observe_ctx(w, &j, "tuple3", &mut (m.p, m.rm, &mut cc), &full, true);
    let (a, b) = (gen_exp_any(r), gen_exp_any(r));
    let (emin, emax) = clamp(a, b);
    let lim = Model { p: m.p, rm: m.rm, emin, emax };
    let j = json!({"op": "ctx", "tuple": [m.p, rm_name(m.rm), a, b]});
    observe_ctx(w, &j, "tuple5", &mut (m.p, m.rm, &mut cc, a, b), &lim, true);
    // an unusable precision
    if r.chance(1, 20) {
        let bad = Model { p: usize::MAX - r.usize(0, 100), rm: m.rm, emin: m.emin, emax: m.emax };
        let j = json!({"op": "ctx", "p": bad.p});
        c.set_precision(bad.p);
        c.set_rounding_mode(bad.rm);
        observe_ctx(w, &j, "context", &mut c, &bad, true);
    }
    w.st.count("ctx_programs");
}

pub fn run_c20(cfg: &Config) -> i32 {
    let n = if cfg.thorough() { 600_000 } else { 15_000 };
    let st = drive(cfg, "c20", n, 500.0, 60.0, ctx_program);
    finish(
        cfg,
        st,
        "random programs of context operations run against a model of the context's state, every getter and constant observed by inherent methods and by the \
         trait, and as tuples; non-trivial: distinct programs",
        Default::default(),
        "exploration",
    )
}

// ---------------------------------------------------------------------------------------------

fn ser_case(r: &mut Rng, w: &mut Worker, i: u64) {
    match (i / 8) % 4 {
        0 | 1 => {
            let x = if r.chance(1, 12) {
                r.pick(&[astro_float_num::INF_POS, astro_float_num::INF_NEG, astro_float_num::NAN]).clone()
            } else {
                let cl = *r.pick(&[ExpClass::Small, ExpClass::Small, ExpClass::Mid, ExpClass::Edge]);
                let len = if cl == ExpClass::Edge { r.usize(1, 3) } else { gen_len(r, 0) };
                gen_num(r, &NumOpts { len, exp: cl, subnormal: r.clone().chance(1, 10), zero: true, inexact: true })
            };
            let j = json!({"op": "serialize", "x": show(&x)});
            let Some(s) = w.call(&j, |_| serde_json::to_string(&x)) else { return };
            let Ok(s) = s else {
                w.violate("ser:error", json!({"case": j, "got": format!("{:?}", s)}));
                return;
            };
            let Some(v) = w.call(&j, |_| serde_json::to_value(&x).ok()) else { return };
            let Some(text) = w.call(&j, |cc| x.format(Radix::Dec, RoundingMode::ToEven, cc)) else { return };
            let Ok(text) = text else { return };
            let plain = serde_json::from_str::<String>(&s).unwrap_or_default();
            if plain != text || v != Some(json!(text)) {
                w.violate("ser:text", json!({"case": j, "got": s, "expected": text}));
            }
            let Some(y) = w.call(&j, |_| serde_json::from_str::<BigFloat>(&s)) else { return };
            let Some(y2) = w.call(&j, |_| serde_json::from_value::<BigFloat>(json!(text))) else { return };
            let Some(z) = w.call(&j, |_| BigFloat::from_str(&text)) else { return };
            match (y, y2, z) {
                (Ok(y), Ok(y2), Ok(z)) => {
                    if !same(&y, &z) || !same(&y2, &z) {
                        w.violate("ser:deserialized", json!({"case": j, "got": show(&y), "expected": show(&z)}));
                    }
                    if x.is_nan() != y.is_nan() || x.is_inf_pos() != y.is_inf_pos() || x.is_inf_neg() != y.is_inf_neg() || x.is_zero() != y.is_zero() {
                        // a subnormal number may be too small for the precision chosen by the parser
                        if !x.is_subnormal() && x.exponent().map(|e| (e as i64) < EMAX).unwrap_or(true) {
                            w.violate("ser:kind", json!({"case": j, "got": show(&y)}));
                        }
                    } else if let (Some(a), Some(b)) = (to_mpfr(&x), to_mpfr(&y)) {
                        // the text has all the digits: what comes back differs by a few units in the last place
                        if !a.is_zero() && !x.is_subnormal() {
                            let q = x.mantissa_max_bit_len().unwrap().min(y.mantissa_max_bit_len().unwrap()) as i64;
                            let mut d = Float::with_val(a.prec().max(b.prec()) + 64, &a - &b);
                            d.abs_mut();
                            let mut ulp = Float::with_val(64, 1);
                            shift(&mut ulp, get_exp(&a) - q + 3);
                            if d > ulp {
                                w.violate("ser:value", json!({"case": j, "got": show(&y), "text": text}));
                            }
                        }
                        if !a.is_zero() && a.is_sign_negative() != b.is_sign_negative() {
                            w.violate("ser:sign", json!({"case": j, "got": show(&y), "text": text}));
                        }
                    }
                }
                o => w.violate("ser:rejected", json!({"case": j, "text": text, "got": format!("{:?}", o)})),
            }
            w.nontrivial(&j);
            w.st.count("ser_numbers");
        }
        2 => {
            // JSON numbers are taken exactly
            let (s, f): (String, Float) = match r.below(3) {
                0 => {
                    let v = int_bits(r, 64) as u64;
                    (v.to_string(), Float::with_val(64, v))
                }
                1 => {
                    let v = int_bits(r, 64) as i64;
                    (v.to_string(), Float::with_val(64, v))
                }
                _ => {
                    let v = f64::from_bits(f64_bits(r));
                    if !v.is_finite() {
                        return;
                    }
                    // the double JSON reads may differ from the one written by a unit
                    let s = serde_json::to_string(&v).unwrap();
                    let v: f64 = serde_json::from_str(&s).unwrap();
                    (s, Float::with_val(53, v))
                }
            };
            let j = json!({"op": "deserialize_number", "s": s});
            let Some(y) = w.call(&j, |_| serde_json::from_str::<BigFloat>(&s)) else { return };
            match y {
                Ok(y) => {
                    if to_mpfr(&y).map(|g| f.prec() == 53 && (s.contains('e') || s.contains('.')) && halved_subnormal(&f, &g)).unwrap_or(false) && !y.inexact() {
                        w.violate("ser:subnormal_halved", json!({"case": j, "got": show(&y)}));
                    } else if to_mpfr(&y).map(|g| g != f).unwrap_or(true) || y.inexact() {
                        w.violate("ser:number", json!({"case": j, "got": show(&y)}));
                    }
                    if let Err(e) = canonical(&y) {
                        w.violate("canon:deserialize", json!({"case": j, "got": show(&y), "why": e}));
                    }
                }
                Err(e) => w.violate("ser:number_rejected", json!({"case": j, "got": format!("{}", e)})),
            }
            w.nontrivial(&j);
            w.st.count("ser_json_numbers");
        }
        _ => {
            // containers, and data that is not a number
            let k = r.usize(0, 5);
            let v: Vec<BigFloat> = (0..k)
                .map(|_| gen_num(r, &NumOpts { len: r.clone().usize(1, 4), exp: ExpClass::Small, subnormal: false, zero: true, inexact: false }))
                .collect();
            let j = json!({"op": "container", "v": v.iter().map(show).collect::<Vec<_>>()});
            let Some(s) = w.call(&j, |_| serde_json::to_string(&v).unwrap_or_default()) else { return };
            let Some(u) = w.call(&j, |_| serde_json::from_str::<Vec<BigFloat>>(&s)) else { return };
            let want: Vec<BigFloat> = v.iter().map(|x| BigFloat::from_str(&x.to_string()).unwrap()).collect();
            let ok = match &u {
                Ok(u) => u.len() == want.len() && u.iter().zip(&want).all(|(a, b)| same(a, b)),
                Err(_) => false,
            };
            if !ok {
                w.violate("ser:container", json!({"case": j, "text": s}));
            }
            for bad in ["true", "null", "[1]", "{\"a\":1}", "\"\u{1F980}", "[]", "{}"] {
                let j = json!({"op": "deserialize_other", "s": bad});
                let Some(y) = w.call(&j, |_| serde_json::from_str::<BigFloat>(bad)) else { continue };
                if let Ok(y) = y {
                    w.violate("ser:accepted", json!({"case": j, "got": show(&y)}));
                }
            }
            let t = *r.pick(&["\"\"", "\"x\"", "\"1e\"", "\"--1\"", "\"\u{1F980}\"", "\"e5\"", "\".\""]);
            let j = json!({"op": "deserialize_text", "s": t});
            if let Some(Ok(y)) = w.call(&j, |_| serde_json::from_str::<BigFloat>(t)) {
                if !y.is_nan() && t != "\"1e\"" {
                    w.violate("ser:accepted_text", json!({"case": j, "got": show(&y)}));
                }
            }
            w.st.count("ser_containers");
        }
    }
}

pub fn run_c22(cfg: &Config) -> i32 {
    let n = if cfg.thorough() { 2_000_000 } else { 120_000 };
    let st = drive(cfg, "c22", n, 500.0, 60.0, ser_case);
    finish(
        cfg,
        st,
        "numbers of all kinds written and read through serde's JSON, JSON numbers of all integer and floating types, containers, and foreign data; \
         non-trivial: distinct values",
        Default::default(),
        "exploration",
    )
}

// ---------------------------------------------------------------------------------------------

/// A number with `s` trusted bits: rounding is accepted only if every value the trusted bits allow rounds the same.
fn try_case(r: &mut Rng, w: &mut Worker, _i: u64) {
    let len = match r.below(4) {
        0 => 1,
        1 => r.usize(8, 40),
        _ => r.usize(1, 6),
    };
    let bits = len * 64;
    let p = match r.below(5) {
        0 => 64 * r.usize(1, len),
        1 => bits - r.usize(0, bits.min(70) - 1),
        2 => bits + r.usize(0, 130),
        _ => r.usize(1, bits),
    };
    let s = match r.below(8) {
        0 => p,
        1 => p + 1,
        2 => (p + r.usize(0, 70)).min(bits),
        3 => bits,
        4 => bits - r.usize(0, 3),
        5 => r.usize(0, bits + 100),
        6 => 64 * r.usize(0, len),
        _ => (p + r.usize(0, 5)).min(bits),
    };
    // digits around the boundary: runs of zeros or ones, or a half, between p and s
    let mut z = gen_bits(r, bits);
    if p < bits && r.chance(3, 4) {
        let top = Integer::from(&z >> (bits - p) as u32);
        let k = bits - p;
        let tail = match r.below(5) {
            0 => Integer::new(),
            1 => (Integer::from(1) << k as u32) - 1,
            2 => Integer::from(1) << (k - 1) as u32,
            3 => (Integer::from(1) << (k - 1) as u32) - 1,
            _ => gen_bits(r, k),
        };
        z = (top << k as u32) + tail;
        let pos = match r.below(3) {
            0 => 0,
            1 => r.usize(0, k - 1),
            _ => (bits.saturating_sub(s)).min(k - 1),
        };
        let d = Integer::from(r.below(4)) << pos as u32;
        let c = if r.chance(1, 2) { Integer::from(&z + &d) } else { Integer::from(&z - &d) };
        if c > 0 && c.significant_bits() as usize == bits {
            z = c;
        }
    }
    let neg = r.chance(1, 2);
    let e = r.range(-100, 100);
    let Some(mut x) = from_int(&z, neg, e, len) else { return };
    x.set_inexact(true);
    let rm = gen_rm(r);
    let j = json!({"op": "try_set_precision", "x": show(&x), "p": p, "s": s, "rm": rm_name(rm)});
    let mut y = x.clone();
    let Some(ok) = w.call(&j, |_| y.try_set_precision(p, rm, s)) else { return };
    if !ok {
        // not decided: legitimate only if some value allowed by the trusted bits (two more words of
        // doubt are granted) rounds differently, or nothing below the cut is trusted
        if p < bits && s > p {
            // the function may look at whole words only: two words of doubt
            let wide = Integer::from(1) << (bits - s.min(bits) + 130) as u32;
            let lo = round_at(&(Integer::from(&z) - &wide), bits, p, neg, rm, false);
            let hi = round_at(&(Integer::from(&z) + &wide), bits, p, neg, rm, false);
            if lo == hi && lo.is_some() && !near_boundary(&z, bits, p, &wide) {
                w.violate("try:undecided", json!({"case": j}));
            }
        }
        w.st.count("undecided");
        w.nontrivial(&j);
        return;
    }
    if let Err(m) = canonical(&y) {
        w.violate("canon:try_set_precision", json!({"case": j, "got": show(&y), "why": m}));
    }
    let (want, inx) = round_ideal(&Ideal::Num { v: to_mpfr(&x).unwrap(), sticky: false }, p, rm);
    if observe(&y) != want {
        w.violate("try:value", json!({"case": j, "got": show(&y), "expected": show_res(&want)}));
    }
    let _ = inx;
    if !y.inexact() {
        w.violate("try:flag", json!({"case": j, "got": show(&y)}));
    }
    if p < bits {
        // every value within a unit of the last trusted bit, exclusive, must round to the same
        let sh = bits - s.min(bits);
        let unit = Integer::from(1) << sh as u32;
        // doubled scale, so that "just inside" is representable
        let z2 = Integer::from(&z << 1u32);
        let d = Integer::from(&unit << 1u32) - 1u32;
        let a = round_at(&Integer::from(&z2 - &d), bits + 1, p, neg, rm, true);
        let b = round_at(&Integer::from(&z2 + &d), bits + 1, p, neg, rm, true);
        if a != b {
            w.violate("try:accepted_undecidable", json!({"case": j, "got": show(&y)}));
        }
        w.st.count("decided");
        w.nontrivial(&j);
    } else {
        w.st.count("extended");
    }
}

/// z (a magnitude with its unit at 2^-bits of the top) rounded to p bits after the top; as a multiple of the cut.
fn round_at(z: &Integer, bits: usize, p: usize, neg: bool, rm: RoundingMode, _strict: bool) -> Option<Integer> {
    if *z <= 0 {
        return None;
    }
    Some(round_int(z, (bits - p) as u32, false, neg, rm).0)
}

/// Is a point where rounding changes (in any mode) within `d` of z?
fn near_boundary(z: &Integer, bits: usize, p: usize, d: &Integer) -> bool {
    let k = (bits - p) as u32;
    let half = Integer::from(1) << (k.max(1) - 1);
    let low = Integer::from(z - (Integer::from(z >> k) << k));
    let full = Integer::from(1) << k;
    let dist = [low.clone(), Integer::from(&full - &low), Integer::from(&low - &half).abs()];
    dist.iter().any(|x| x <= d)
}

pub fn run_c24(cfg: &Config) -> i32 {
    let n = if cfg.thorough() { 60_000_000 } else { 6_000_000 };
    let st = drive(cfg, "c24", n, 500.0, 60.0, try_case);
    finish(
        cfg,
        st,
        "numbers with runs of zeros, ones and halves around the cut and the end of the trusted bits; both the acceptance and the refusal judged by rounding the \
         ends of the interval the trusted bits allow; non-trivial: distinct cases where bits are cut off",
        Default::default(),
        "exploration",
    )
}
