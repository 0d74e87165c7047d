//! C11: comparison, min, max, clamp, signum against exact values.

use crate::drive::*;
use crate::gen::*;
use crate::model::*;
use crate::report::*;
use crate::rng::Rng;
use astro_float_num::{BigFloat, Sign, INF_NEG, INF_POS, NAN};
use rug::{Float, Integer};
use serde_json::json;
use std::cmp::Ordering;

fn any(r: &mut Rng) -> BigFloat {
    match r.below(24) {
        0 => INF_POS,
        1 => INF_NEG,
        2 => NAN,
        3 | 4 => {
            let mut z = BigFloat::new(r.usize(1, 4) * 64);
            if r.chance(1, 2) {
                z.set_sign(Sign::Neg);
            }
            z
        }
        5 | 6 => gen_subnormal(r, r.clone().usize(1, 5)),
        7 => {
            let m = Integer::from(r.below(4) + 1);
            let e = m.significant_bits() as i64 + r.range(-2, 2);
            from_int(&m, r.chance(1, 2), e, r.usize(1, 3)).unwrap()
        }
        _ => {
            let len = gen_len(r, 0);
            let c = match r.below(4) {
                0 => ExpClass::Any,
                1 => ExpClass::Edge,
                _ => ExpClass::Small,
            };
            gen_num(r, &NumOpts { len, exp: c, subnormal: true, zero: true, inexact: true })
        }
    }
}

/// The same value with another mantissa length where possible.
fn relen(r: &mut Rng, x: &BigFloat) -> BigFloat {
    let Some((m, _, s, e, i)) = x.as_raw_parts() else { return x.clone() };
    if x.is_zero() {
        return x.clone();
    }
    let mut v = m.to_vec();
    if r.chance(1, 2) {
        for _ in 0..r.usize(1, 3) {
            v.insert(0, 0);
        }
    } else {
        while v.len() > 1 && v[0] == 0 {
            v.remove(0);
        }
    }
    let n = words_to_int(&v).significant_bits() as usize;
    BigFloat::from_raw_parts(&v, n, s, e, i)
}

fn related(r: &mut Rng, a: &BigFloat) -> BigFloat {
    match r.below(12) {
        0..=3 => any(r),
        4 => a.clone(),
        5 => relen(r, a),
        6 => {
            let x = relen(r, a);
            x.neg()
        }
        7 => a.neg(),
        8 if a.is_subnormal() => {
            // another subnormal number close by
            let (m, n, s, e, _) = a.as_raw_parts().unwrap();
            let mut z = words_to_int(m);
            z += r.range(-2, 2);
            if z <= 0 {
                return a.clone();
            }
            let len = m.len();
            if z.significant_bits() as usize > len * 64 {
                return a.clone();
            }
            let _ = n;
            let w = int_to_words(&z, len);
            let x = BigFloat::from_raw_parts(&w, z.significant_bits() as usize, s, e, false);
            relen(r, &x)
        }
        9 if a.exponent().is_some() && !a.is_zero() && !a.is_subnormal() => {
            let mut x = a.clone();
            let e = a.exponent().unwrap() as i64 + r.range(-1, 1);
            x.set_exponent(e.clamp(EMIN, EMAX) as _);
            x
        }
        _ => {
            let x = perturb(r, a);
            if r.chance(1, 4) {
                relen(r, &x)
            } else {
                x
            }
        }
    }
}

/// Exact order; None for NaN.
pub fn order(a: &BigFloat, b: &BigFloat, abs: bool) -> Option<Ordering> {
    if a.is_nan() || b.is_nan() {
        return None;
    }
    let f = |x: &BigFloat| -> Float {
        let v = if x.is_inf() {
            let i = Float::with_val(64, rug::float::Special::Infinity);
            if x.is_inf_neg() {
                -i
            } else {
                i
            }
        } else {
            to_mpfr(x).unwrap()
        };
        if abs {
            v.abs()
        } else {
            v
        }
    };
    f(a).partial_cmp(&f(b))
}

fn same(a: &BigFloat, b: &BigFloat) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    a.is_inf_pos() == b.is_inf_pos() && a.is_inf_neg() == b.is_inf_neg() && a.as_raw_parts() == b.as_raw_parts()
}

pub fn run(cfg: &Config) -> i32 {
    let mul = if cfg.thorough() { 20 } else { 1 };
    let st = drive(cfg, "c11", 2_000_000 * mul, 300.0, 60.0, case);
    finish(
        cfg,
        st,
        "pairs and triples related by value, length, sign, exponent or one unit; non-trivial: both comparable, distinct by arguments",
        Default::default(),
        "exploration",
    )
}

fn case(r: &mut Rng, w: &mut Worker, _i: u64) {
    let a = any(r);
    let b = related(r, &a);
    let c = json!({"op": "cmp", "a": show(&a), "b": show(&b)});
    let sg = |x: Option<i128>| x.map(|v| v.cmp(&0));
    let Some((c1, c2, c3)) = w.call(&c, |_| (a.cmp(&b), b.cmp(&a), a.abs_cmp(&b))) else { return };
    let want = order(&a, &b, false);
    let wabs = order(&a, &b, true);
    let cls = match want {
        None => "nan",
        Some(Ordering::Equal) => "equal",
        _ => "different",
    };
    w.st.count(&format!("cmp:{}", cls));
    if sg(c1) != want || sg(c2) != want.map(|o| o.reverse()) {
        w.violate(format!("value:cmp:{}", cls), json!({"case": c, "got": [c1, c2], "expected": format!("{:?}", want)}));
    }
    if sg(c3) != wabs {
        w.violate(format!("value:abs_cmp:{}", cls), json!({"case": c, "got": c3, "expected": format!("{:?}", wabs)}));
    }
    // operators
    let Some(ops) = w.call(&c, |_| (a == b, a != b, a < b, a <= b, a > b, a >= b, a.partial_cmp(&b), a == &b, a.partial_cmp(&&b))) else {
        return;
    };
    let l = want == Some(Ordering::Less);
    let e = want == Some(Ordering::Equal);
    let g = want == Some(Ordering::Greater);
    if ops != (e, !e, l, l || e, g, g || e, want, e, want) {
        w.violate(format!("value:operators:{}", cls), json!({"case": c, "got": format!("{:?}", ops), "expected": format!("{:?}", want)}));
    }
    // min and max give one of the arguments
    let Some((mx, mn)) = w.call(&c, |_| (a.max(&b), a.min(&b))) else { return };
    let (wx, wn) = match want {
        None => (NAN, NAN),
        Some(Ordering::Less) => (b.clone(), a.clone()),
        Some(Ordering::Greater) => (a.clone(), b.clone()),
        Some(Ordering::Equal) => (a.clone(), a.clone()),
    };
    let okx = same(&mx, &wx) || (e && same(&mx, &b));
    let okn = same(&mn, &wn) || (e && same(&mn, &b));
    if !okx || !okn {
        w.violate(format!("value:minmax:{}", cls), json!({"case": c, "max": show(&mx), "min": show(&mn)}));
    }
    // clamp
    let x = related(r, &b);
    let cc = json!({"op": "clamp", "x": show(&x), "min": show(&a), "max": show(&b)});
    let Some(k) = w.call(&cc, |_| x.clamp(&a, &b)) else { return };
    let wk = if x.is_nan() || want.is_none() || g {
        NAN
    } else if order(&x, &a, false) == Some(Ordering::Less) {
        a.clone()
    } else if order(&x, &b, false) == Some(Ordering::Greater) {
        b.clone()
    } else {
        x.clone()
    };
    if !same(&k, &wk) {
        w.violate("value:clamp", json!({"case": cc, "got": show(&k), "expected": show(&wk)}));
    }
    // signum
    let cs = json!({"op": "signum", "a": show(&a)});
    let Some(s) = w.call(&cs, |_| a.signum()) else { return };
    let ok = if a.is_nan() {
        s.is_nan()
    } else if a.is_zero() {
        s.is_zero()
    } else {
        to_mpfr(&s).map(|v| v == if a.is_negative() { -1 } else { 1 }).unwrap_or(false)
    };
    if !ok {
        w.violate("value:signum", json!({"case": cs, "got": show(&s)}));
    }
    if want.is_some() {
        w.nontrivial(&c);
    }
}
