//! The oracle for one operation: value, precision, inexact flag, canonical form.

use crate::drive::{guard, Worker};
use crate::model::*;
use crate::ops::*;
use astro_float_num::{BigFloat, Consts};
use serde_json::{json, Value};

pub struct Want {
    pub value: bool,
    pub flag: bool,
    pub canon: bool,
}

/// Representation invariants of any number handed to the user.
pub fn canonical(x: &BigFloat) -> Result<(), String> {
    if x.is_nan() || x.is_inf() {
        return if x.as_raw_parts().is_some() { Err("raw parts of a non-number".into()) } else { Ok(()) };
    }
    let (m, n, s, e, inexact) = x.as_raw_parts().ok_or("no raw parts")?;
    let e = e as i64;
    if x.mantissa_max_bit_len() != Some(m.len() * 64) {
        return Err("mantissa_max_bit_len is not the number of mantissa bits".into());
    }
    if m.iter().all(|w| *w == 0) {
        if !x.is_zero() {
            return Err("zero mantissa but not zero".into());
        }
        if e != 0 {
            return Err(format!("zero with exponent {}", e));
        }
        if n != 0 {
            return Err(format!("zero with {} significant bits", n));
        }
        return Ok(());
    }
    if x.is_zero() {
        return Err("non-zero mantissa but zero".into());
    }
    if !(EMIN..=EMAX).contains(&e) {
        return Err(format!("exponent {} out of range", e));
    }
    let bits = words_to_int(m).significant_bits() as usize;
    if n != bits {
        return Err(format!("precision {} but {} significant bits", n, bits));
    }
    let top = m[m.len() - 1] >> 63 == 1;
    if !top && e != EMIN {
        return Err(format!("not normalized at exponent {}", e));
    }
    if x.is_subnormal() == top {
        return Err("is_subnormal wrong".into());
    }
    // raw parts round trip
    let y = BigFloat::from_raw_parts(m, n, s, e as i32, inexact);
    if y.as_raw_parts() != x.as_raw_parts() {
        return Err("from_raw_parts(as_raw_parts) differs".into());
    }
    Ok(())
}

/// Coarse class of the expected result, used in signatures and counters.
fn where_class(exp: &Res) -> &'static str {
    match exp {
        Res::Nan => "nan",
        Res::Inf(_) => "inf",
        Res::Zero => "zero",
        Res::Num { e, words, .. } => {
            if *e == EMIN && words[words.len() - 1] >> 63 == 0 {
                "subnormal"
            } else {
                "normal"
            }
        }
    }
}

/// Run a case and judge it. Returns false if the case was not decided.
pub fn judge(w: &mut Worker, c: &Case, fresh_cc: bool, want: &Want) -> bool {
    w.begin(|| c.json());
    let got = if fresh_cc {
        let mut cc = Consts::new().expect("consts");
        guard(|| exec(c, &mut cc))
    } else {
        let cc = &mut w.cc;
        guard(|| exec(c, cc))
    };
    w.st.evals += 1;
    let op = c.op.name();
    let got = match got {
        Ok(g) => g,
        Err(m) => {
            // a panic leaves the cache in an unknown state
            w.cc = Consts::new().expect("consts");
            let msg = m.split(" at ").last().unwrap_or("").to_string();
            let loc = msg.rsplit('/').next().unwrap_or("").to_string();
            let file = loc.split(':').next().unwrap_or("").to_string();
            w.violate(format!("panic:{}:{}", op, file), json!({"case": c.json(), "panic": m}));
            return true;
        }
    };
    if want.canon {
        if let Err(m) = canonical(&got) {
            w.violate(format!("canon:{}", op), json!({"case": c.json(), "got": show(&got), "why": m}));
        }
    }
    if !want.value && !want.flag {
        return true;
    }
    let Some(id) = ideal(c) else {
        w.st.inconclusive += 1;
        w.st.count(&format!("undecided:{}", op));
        return false;
    };
    let p = round_p(c.p);
    if c.rm == astro_float_num::RoundingMode::None {
        judge_unrounded(w, c, &got, &id, p, want);
        return true;
    }
    // set_precision rounds to exactly p bits, everything else to whole words
    let bits = if c.op == Op::SetPrec { c.p } else { p };
    let (exp, rounded) = round_ideal(&id, bits, c.rm);
    let obs = observe(&got);
    let cls = where_class(&exp);
    w.st.count(&format!("{}:{}", op, cls));
    if want.value {
        if obs != exp {
            w.violate(
                format!("value:{}:{}", op, cls),
                json!({"case": c.json(), "got": show(&got), "expected": show_res(&exp)}),
            );
        } else if matches!(exp, Res::Num { .. } | Res::Zero) {
            let l = got.mantissa_max_bit_len();
            if l != Some(p) {
                w.violate(
                    format!("prec:{}:{}", op, cls),
                    json!({"case": c.json(), "got": show(&got), "precision": l, "expected_precision": p}),
                );
            }
        }
    }
    // x^0 is 1 whatever x is: whether an inexact x makes it inexact is left open
    let open_flag = (c.op == Op::Powi && c.n == 0) || (c.op == Op::Pow && c.b.is_zero());
    if want.flag && !open_flag && obs == exp && matches!(exp, Res::Num { .. } | Res::Zero) {
        let ef = rounded || c.arg_inexact();
        if got.inexact() != ef {
            w.violate(
                format!("flag:{}:{}:{}", op, cls, if ef { "lost" } else { "spurious" }),
                json!({"case": c.json(), "got": show(&got), "expected_inexact": ef, "rounded": rounded}),
            );
        }
    }
    // non-trivial: finite non-zero result that had to be rounded, or lies at an edge of the range
    if (rounded || cls == "subnormal") && obs != Res::Zero {
        let j = c.json().to_string();
        w.st.nontrivial.insert(crate::rng::hash_bytes(j.as_bytes()));
        w.sample(|| c.json());
    }
    true
}

/// Mode None: the digits after the last one are dropped, so the result is within a unit of the last place
/// of the exact value (a few for functions), and the flag says whether it differs from it.
fn judge_unrounded(w: &mut Worker, c: &Case, got: &BigFloat, id: &Ideal, p: usize, want: &Want) {
    use astro_float_num::RoundingMode::{FromZero, ToZero};
    use rug::Float;
    let op = c.op.name();
    let bits = if c.op == Op::SetPrec { c.p } else { p };
    let (lo, _) = round_ideal(id, bits, ToZero);
    let (hi, _) = round_ideal(id, bits, FromZero);
    let obs = observe(got);
    let cls = where_class(&lo);
    w.st.count(&format!("unrounded:{}:{}", op, cls));
    let units = match c.op {
        Op::Add | Op::Sub | Op::Mul | Op::Div | Op::Recip | Op::Sqrt | Op::Cbrt | Op::SetPrec => 1u32,
        _ => 8,
    };
    let mut ok = obs == lo || obs == hi;
    let mut same = obs == lo && lo == hi && !matches!(id, Ideal::Tiny(_));
    if let (Res::Num { e, .. }, Ideal::Num { v, sticky }) = (&obs, id) {
        if let Some(x) = to_mpfr(got) {
            let wp = x.prec().max(v.prec()) + 128;
            let q = *e - bits as i64;
            let mut d = Float::with_val(wp, &x - v);
            same = d.is_zero() && !*sticky;
            d.abs_mut();
            let u = Float::with_val(64, units) << q as i32;
            ok |= d <= u;
        }
    }
    if want.value {
        if !ok {
            w.violate(
                format!("unrounded:{}:{}", op, cls),
                json!({"case": c.json(), "got": show(got), "expected_next_to": show_res(&lo)}),
            );
        } else if matches!(obs, Res::Num { .. } | Res::Zero) && got.mantissa_max_bit_len() != Some(p) {
            w.violate(
                format!("prec:{}:unrounded", op),
                json!({"case": c.json(), "got": show(got), "precision": got.mantissa_max_bit_len(), "expected_precision": p}),
            );
        }
    }
    let open_flag = (c.op == Op::Powi && c.n == 0) || (c.op == Op::Pow && c.b.is_zero());
    if want.flag && !open_flag && ok && matches!(obs, Res::Num { .. } | Res::Zero) {
        let ef = c.arg_inexact() || !same;
        // set_precision keeps whole words, but may look at the bits asked for only
        // functions compute an approximation which may happen to be the exact value
        let spurious_ok = (c.op == Op::SetPrec && c.p % 64 != 0) || (units > 1 && c.op != Op::Powi);
        if got.inexact() != ef && !(spurious_ok && !ef) {
            w.violate(
                format!("flag:{}:unrounded:{}", op, if ef { "lost" } else { "spurious" }),
                json!({"case": c.json(), "got": show(got), "expected_inexact": ef}),
            );
        }
    }
    if !same {
        let j = c.json().to_string();
        w.st.nontrivial.insert(crate::rng::hash_bytes(j.as_bytes()));
    }
}

pub fn case_of_detail(d: &Value) -> Option<Case> {
    Case::from_json(&d["case"])
}
