//! C07: exact operations (remainder, full precision). C12: integer and fraction parts, rounding to
//! binary positions, exponent and sign changes.

use crate::drive::*;
use crate::gen::*;
use crate::model::*;
use crate::numeric::big_len;
use crate::report::*;
use crate::rng::Rng;
use astro_float_num::{BigFloat, Exponent, Sign};
use rug::{Float, Integer};
use serde_json::{json, Value};

/// Exact dyadic number: (-1)^neg * m * 2^k.
#[derive(Clone, Debug)]
pub struct Dy {
    pub neg: bool,
    pub m: Integer,
    pub k: i64,
}

pub fn dy(x: &BigFloat) -> Option<Dy> {
    let (m, _n, s, e, _) = x.as_raw_parts()?;
    Some(Dy { neg: s == Sign::Neg, m: words_to_int(m), k: e as i64 - 64 * m.len() as i64 })
}

impl Dy {
    /// Exponent in the form 0.m * 2^e.
    pub fn e(&self) -> i64 {
        self.m.significant_bits() as i64 + self.k
    }
    pub fn norm(&self) -> (bool, Integer, i64) {
        if self.m == 0 {
            return (false, Integer::new(), 0);
        }
        let t = self.m.find_one(0).unwrap();
        (self.neg, Integer::from(&self.m >> t), self.k + t as i64)
    }
    pub fn same(&self, o: &Dy) -> bool {
        self.norm() == o.norm()
    }
    pub fn show(&self) -> Value {
        json!(format!("{}0x{} * 2^{}", if self.neg { "-" } else { "" }, self.m.to_string_radix(16), self.k))
    }
}

pub fn add_dy(a: &Dy, b: &Dy, sub: bool) -> Dy {
    let k = a.k.min(b.k);
    let f = |d: &Dy| {
        let v = Integer::from(&d.m << (d.k - k) as u32);
        if d.neg {
            -v
        } else {
            v
        }
    };
    let z = if sub { f(a) - f(b) } else { f(a) + f(b) };
    Dy { neg: z < 0, m: z.abs(), k }
}

fn case2(op: &str, a: &BigFloat, b: &BigFloat) -> Value {
    json!({"op": op, "a": show(a), "b": show(b)})
}

fn num(r: &mut Rng, len: usize, exp: ExpClass, z: bool) -> BigFloat {
    gen_num(r, &NumOpts { len, exp, subnormal: z, zero: z, inexact: true })
}

/// Compare an observed number with an exact dyadic value (any precision).
fn expect(w: &mut Worker, c: &Value, got: &BigFloat, want: &Dy, flag: Option<bool>, cls: &str) {
    let op = c["op"].as_str().unwrap_or("").to_string();
    w.st.count(&format!("{}:{}", op, cls));
    let ok = match dy(got) {
        None => want.e() > EMAX && got.is_inf() && got.is_inf_neg() == want.neg,
        Some(g) => want.e() <= EMAX && g.same(want),
    };
    if !ok {
        w.violate(format!("value:{}:{}", op, cls), json!({"case": c, "got": show(got), "expected": want.show()}));
        return;
    }
    if let Some(f) = flag {
        if !got.is_inf() && got.inexact() != f {
            w.violate(format!("flag:{}:{}", op, cls), json!({"case": c, "got": show(got), "expected_inexact": f}));
        }
    }
    w.nontrivial(c);
}

pub fn rem_ideal(a: &Dy, b: &Dy) -> Dy {
    let (a1, b1) = (a, b);
    let m;
    let k;
    if a1.k >= b1.k {
        let d = Integer::from(a1.k - b1.k);
        let p = Integer::from(2).pow_mod(&d, &b1.m).unwrap_or_else(|_| Integer::new());
        m = (Integer::from(&a1.m % &b1.m) * p) % &b1.m;
        k = b1.k;
    } else {
        let sh = b1.k - a1.k;
        k = a1.k;
        m = if a1.m == 0 || b1.e() > a1.e() {
            a1.m.clone()
        } else {
            let d = Integer::from(&b1.m << sh as u32);
            Integer::from(&a1.m % &d)
        };
    }
    Dy { neg: a.neg, m, k }
}

pub fn run_c07(cfg: &Config) -> i32 {
    let mul = if cfg.thorough() { 20 } else { 1 };
    let mut st = drive(cfg, "c07", 600_000 * mul, 300.0, 60.0, |r, w, i| exact_case(r, w, i, false));
    st.merge(drive(cfg, "c07-big", 12_000 * mul, 300.0, 120.0, |r, w, i| exact_case(r, w, i, true)));
    finish(
        cfg,
        st,
        "remainder, full precision add, sub, mul against GMP integers; non-trivial: finite operands, distinct by all arguments",
        Default::default(),
        "exploration",
    )
}

pub fn exact_case(r: &mut Rng, w: &mut Worker, i: u64, big: bool) {
    let (la, lb) = if big {
        let max = if r.chance(1, 8) { 12000 } else { 1500 };
        let a = big_len(r, max);
        (a, if r.chance(1, 2) { a } else { r.usize(1, max) })
    } else {
        let a = gen_len(r, 1);
        (a, if r.chance(1, 2) { a } else { gen_len(r, 1) })
    };
    let cl = if r.chance(4, 5) { ExpClass::Small } else { ExpClass::Mid };
    let mut a = num(r, la, cl, !big);
    let mut b = num(r, lb, cl, !big);
    let which = (i / 8) % 6;
    if which < 3 {
        // remainder
        if b.is_zero() {
            return;
        }
        let (la, lb) = if big { (la.min(700), lb.min(700)) } else { (la, lb) };
        if big {
            a = num(r, la, cl, false);
            b = num(r, lb, cl, false);
        }
        match r.below(10) {
            0 => {
                // equal exponents, perhaps close values
                let e = b.exponent().unwrap();
                if !a.is_subnormal() && !b.is_subnormal() {
                    a.set_exponent(e + r.range(-2, 2) as Exponent);
                }
            }
            1 => {
                // wide exponents
                if !a.is_subnormal() {
                    a.set_exponent(gen_exp(r, ExpClass::Any) as Exponent);
                }
                if !b.is_subnormal() && r.chance(1, 2) {
                    b.set_exponent(gen_exp(r, ExpClass::Any) as Exponent);
                }
            }
            2 => {
                // both near the lower end
                for x in [&mut a, &mut b] {
                    if !x.is_subnormal() {
                        x.set_exponent((EMIN + r.range(0, 300)) as Exponent);
                    }
                }
            }
            3 | 4 => {
                // a multiple of b, or off by one unit
                let q = num(r, r.clone().usize(1, 4), ExpClass::Small, false);
                let p = b.mul_full_prec(&q);
                if !p.is_inf() && !p.is_nan() && !p.is_zero() {
                    a = if r.chance(1, 2) { p } else { perturb(r, &p) };
                }
            }
            5 => b = perturb(r, &a),
            6 => {
                // small modulus: power of two or small integer
                if let Some(x) = from_int(&Integer::from(r.below(20) + 1), false, r.range(-5, 5), lb) {
                    b = x;
                }
            }
            7 => {
                a = gen_subnormal(r, la);
                if r.chance(1, 2) {
                    b = gen_subnormal(r, lb);
                }
            }
            _ => {}
        }
        if b.is_zero() {
            return;
        }
        if r.chance(1, 4) {
            // exponent difference around the sizes
            if !a.is_subnormal() && !b.is_subnormal() && !a.is_zero() {
                let e = b.exponent().unwrap() as i64 + r.range(-(64 * la as i64) - 3, 64 * lb as i64 + 3);
                a.set_exponent(e.clamp(EMIN, EMAX) as Exponent);
            }
        }
        let (da, db) = (dy(&a).unwrap(), dy(&b).unwrap());
        let c = case2("rem", &a, &b);
        let Some(got) = w.call(&c, |_| a.rem(&b)) else { return };
        let want = rem_ideal(&da, &db);
        let cls = if want.m == 0 {
            "zero"
        } else if want.e() < EMIN + 64 {
            "subnormal"
        } else if da.k >= db.k {
            "wide"
        } else {
            "close"
        };
        expect(w, &c, &got, &want, Some(a.inexact() || b.inexact()), cls);
        // sign of the result is the sign of self
        if !got.is_zero() && got.sign() != a.sign() {
            w.violate("sign:rem", json!({"case": c, "got": show(&got)}));
        }
        return;
    }
    if which < 5 {
        if !a.is_subnormal() && !b.is_subnormal() && !a.is_zero() {
            match r.below(4) {
                0 => {
                    let span = (la.max(lb) * 64) as i64 + 70;
                    let e = a.exponent().unwrap() as i64 + r.range(-span, span);
                    if !b.is_zero() {
                        b.set_exponent(e.clamp(EMIN, EMAX) as Exponent);
                    }
                }
                1 => b = perturb(r, &a),
                2 if !b.is_zero() => {
                    let t = if r.chance(1, 2) { EMAX } else { EMIN };
                    let f = |r: &mut Rng| (t + if t > 0 { -r.range(0, 200) } else { r.range(0, 200) }) as Exponent;
                    let (x, y) = (f(r), f(r));
                    a.set_exponent(x);
                    b.set_exponent(y);
                }
                _ => {}
            }
        }
        let (da, db) = (dy(&a).unwrap(), dy(&b).unwrap());
        if (da.k - db.k).abs() > 2_000_000 {
            return;
        }
        let sub = which == 4;
        let c = case2(if sub { "sub_full_prec" } else { "add_full_prec" }, &a, &b);
        let Some(got) = w.call(&c, |_| if sub { a.sub_full_prec(&b) } else { a.add_full_prec(&b) }) else { return };
        let want = add_dy(&da, &db, sub);
        let cls = if want.m == 0 { "zero" } else if want.e() < EMIN + 64 { "subnormal" } else { "normal" };
        expect(w, &c, &got, &want, Some(a.inexact() || b.inexact()), cls);
        return;
    }
    // product
    if !a.is_zero() && !b.is_zero() && !a.is_subnormal() && !b.is_subnormal() && r.chance(1, 5) {
        // result near the ends of the range
        let t = match r.below(5) {
            0 | 1 => EMAX + r.range(-1, 2),
            2 => EMIN + r.range(2, 4),
            _ => EMIN + r.range(-64 * (la + lb) as i64 - 70, 3),
        };
        let ea = gen_exp(r, ExpClass::Any).max(t - EMAX).min(t - EMIN).clamp(EMIN, EMAX);
        a.set_exponent(ea as Exponent);
        b.set_exponent((t - ea).clamp(EMIN, EMAX) as Exponent);
    }
    let (da, db) = (dy(&a).unwrap(), dy(&b).unwrap());
    let want = Dy { neg: da.neg != db.neg, m: Integer::from(&da.m * &db.m), k: da.k + db.k };
    let c = case2("mul_full_prec", &a, &b);
    let Some(got) = w.call(&c, |_| a.mul_full_prec(&b)) else { return };
    if want.m != 0 && want.e() < EMIN {
        // below the range: bits are lost only below a mantissa with place for the product
        w.st.count("mul_full_prec:subnormal");
        let flag = a.inexact() || b.inexact();
        let Some(g) = dy(&got) else {
            w.violate("value:mul_full_prec:subnormal".to_string(), json!({"case": c, "got": show(&got), "expected": want.show()}));
            return;
        };
        let d = add_dy(&g, &want, true);
        let p = got.mantissa_max_bit_len().unwrap() as i64;
        let unit = EMIN - p;
        let place = want.norm().1.significant_bits() as i64;
        let bad = if d.m == 0 {
            (got.inexact() != flag).then_some("flag")
        } else if p < place {
            Some("short")
        } else if d.e() > unit {
            Some("far")
        } else {
            (!got.inexact()).then_some("flag")
        };
        if let Some(x) = bad {
            let v = json!({"case": c, "got": show(&got), "expected": want.show(), "precision": p});
            w.violate(format!("{}:mul_full_prec:subnormal", if x == "flag" { "flag" } else { "value" }), v);
            return;
        }
        w.nontrivial(&c);
        return;
    }
    let cls = if want.m == 0 { "zero" } else { "normal" };
    expect(w, &c, &got, &want, Some(a.inexact() || b.inexact()), cls);
}

// ---------------------------------------------------------------------------------------------

/// Integer part toward zero of |d| and whether there is a fraction.
pub fn trunc(d: &Dy) -> (Integer, bool) {
    if d.m == 0 {
        return (Integer::new(), false);
    }
    if d.k >= 0 {
        return (Integer::from(&d.m << d.k as u32), false);
    }
    if d.e() <= 0 {
        return (Integer::new(), true);
    }
    let sh = (-d.k) as u32;
    let q = Integer::from(&d.m >> sh);
    let f = d.m.find_one(0).unwrap() < sh;
    (q, f)
}

pub fn run_c12(cfg: &Config) -> i32 {
    let mul = if cfg.thorough() { 20 } else { 1 };
    let mut st = drive(cfg, "c12", 1_200_000 * mul, 300.0, 60.0, |r, w, i| int_case(r, w, i));
    st.merge(drive(cfg, "c12-set", 400_000 * mul, 300.0, 60.0, |r, w, i| set_case(r, w, i)));
    finish(
        cfg,
        st,
        "int, fract, floor, ceil, round, is_int, set_exponent, sign changes against GMP integers; non-trivial: finite non-zero argument, distinct by all arguments",
        Default::default(),
        "exploration",
    )
}

pub fn int_num(r: &mut Rng) -> BigFloat {
    let len = gen_len(r, 0);
    let bits = (len * 64) as i64;
    let mut a = num(r, len, ExpClass::Small, true);
    if !a.is_zero() && !a.is_subnormal() {
        let e = match r.below(10) {
            0..=4 => r.range(-2, bits + 2),
            5 => r.range(0, len as i64) * 64 + r.range(-1, 1),
            6 => r.range(-70, 2),
            7 => gen_exp(r, ExpClass::Any),
            8 => gen_exp(r, ExpClass::Edge),
            _ => r.range(0, 10),
        };
        a.set_exponent(e.clamp(EMIN, EMAX) as Exponent);
        // clear or fill bits around the binary point
        if (1..bits).contains(&e) && r.chance(1, 2) {
            let (m, _, s, e2, i) = a.as_raw_parts().unwrap();
            let mut z = words_to_int(m);
            let fb = (bits - e) as u32; // fraction bits
            let lowm = (Integer::from(1) << fb) - 1u32;
            match r.below(5) {
                0 => z &= !lowm.clone(),
                1 => z |= &lowm,
                2 => {
                    z &= !lowm.clone();
                    z |= Integer::from(1) << (fb - 1);
                }
                3 => {
                    z &= !lowm.clone();
                    z |= Integer::from(1);
                }
                _ => {
                    z &= !lowm.clone();
                    z |= Integer::from(1) << (fb - 1);
                    z |= Integer::from(1);
                }
            }
            if r.chance(1, 6) {
                // all ones above the point: carries out
                z |= ((Integer::from(1) << bits as u32) - 1u32) & !lowm;
            }
            a = build(&int_to_words(&z, len), s == Sign::Neg, e2 as i64, i);
        }
    }
    a
}

fn keep_prec(w: &mut Worker, c: &Value, a: &BigFloat, got: &BigFloat) {
    let op = c["op"].as_str().unwrap_or("").to_string();
    if got.mantissa_max_bit_len() != a.mantissa_max_bit_len() && !got.is_inf() {
        w.violate(format!("prec:{}", op), json!({"case": c, "got": show(got), "precision": got.mantissa_max_bit_len()}));
    }
}

pub fn int_case(r: &mut Rng, w: &mut Worker, i: u64) {
    let a = int_num(r);
    let d = dy(&a).unwrap();
    let mk = |op: &str| json!({"op": op, "a": show(&a)});
    let huge = d.m != 0 && d.k > 2000;
    let cls = if d.m == 0 {
        "zero"
    } else if d.e() <= 0 {
        "below_one"
    } else if d.k >= 0 {
        "integer"
    } else {
        "mixed"
    };
    // for integers with huge exponents everything is the identity
    let tr = if huge { None } else { Some(trunc(&d)) };
    let id = || d.clone();
    let int = match &tr {
        None => id(),
        Some((q, _)) => Dy { neg: d.neg, m: q.clone(), k: 0 },
    };
    let has_f = tr.as_ref().map(|t| t.1).unwrap_or(false);
    match (i / 8) % 7 {
        0 => {
            let c = mk("int");
            let Some(g) = w.call(&c, |_| a.int()) else { return };
            expect(w, &c, &g, &int, Some(a.inexact()), cls);
            keep_prec(w, &c, &a, &g);
        }
        1 => {
            let c = mk("fract");
            let Some(g) = w.call(&c, |_| a.fract()) else { return };
            let want = if tr.is_none() {
                Dy { neg: d.neg, m: Integer::new(), k: 0 }
            } else if d.k >= 0 || !has_f {
                Dy { neg: d.neg, m: Integer::new(), k: 0 }
            } else if d.e() <= 0 {
                id()
            } else {
                let sh = (-d.k) as u32;
                let m = Integer::from(&d.m - (Integer::from(&d.m >> sh) << sh));
                Dy { neg: d.neg, m, k: d.k }
            };
            expect(w, &c, &g, &want, Some(a.inexact()), cls);
            keep_prec(w, &c, &a, &g);
        }
        2 => {
            let c = mk("floor");
            let Some(g) = w.call(&c, |_| a.floor()) else { return };
            let mut want = int;
            if d.neg && has_f {
                want.m += 1;
            }
            expect(w, &c, &g, &want, Some(a.inexact()), cls);
        }
        3 => {
            let c = mk("ceil");
            let Some(g) = w.call(&c, |_| a.ceil()) else { return };
            let mut want = int;
            if !d.neg && has_f {
                want.m += 1;
            }
            expect(w, &c, &g, &want, Some(a.inexact()), cls);
        }
        4 => {
            let c = mk("is_int");
            let Some(g) = w.call(&c, |_| a.is_int()) else { return };
            if g != !has_f {
                w.violate(format!("value:is_int:{}", cls), json!({"case": c, "got": g}));
            }
            w.st.count(&format!("is_int:{}", g));
            w.nontrivial(&c);
        }
        _ => {
            let bits = d.m.significant_bits() as i64;
            let n = match r.below(6) {
                0 => 0,
                1 => r.usize(0, 70),
                2 => (-d.k + r.range(-3, 2)).max(0).min(1 << 33) as usize,
                3 => ((-d.k - bits) + r.range(-2, 3)).max(0).min(1 << 33) as usize,
                4 => (-d.k - r.range(0, bits.max(1))).max(0).min(1 << 33) as usize,
                _ => r.usize(0, 3),
            };
            let rm = gen_rm(r);
            let c = json!({"op": "round", "a": show(&a), "n": n, "rm": rm_name(rm)});
            let Some(g) = w.call(&c, |_| a.round(n, rm)) else { return };
            // quantum 2^-n
            let (want, inexact) = if d.m == 0 || d.k >= -(n as i64) {
                (id(), false)
            } else {
                let sh = -(n as i64) - d.k;
                let (q, x) = if sh > bits + 2 {
                    round_int(&Integer::from(1), 3, true, d.neg, rm)
                } else {
                    round_int(&d.m, sh as u32, false, d.neg, rm)
                };
                (Dy { neg: d.neg, m: q, k: -(n as i64) }, x)
            };
            if want.m != 0 && want.e() < EMIN {
                return;
            }
            let cls = if want.m == 0 { "zero" } else if d.e() <= -(n as i64) { "to_unit" } else { cls };
            expect(w, &c, &g, &want, Some(inexact || a.inexact()), cls);
            keep_prec(w, &c, &a, &g);
        }
    }
}

pub fn set_case(r: &mut Rng, w: &mut Worker, i: u64) {
    let a = if r.chance(1, 3) {
        gen_subnormal(r, r.clone().usize(1, 6))
    } else {
        let cl = if r.chance(1, 2) { ExpClass::Edge } else { ExpClass::Any };
        num(r, r.clone().usize(1, 6), cl, true)
    };
    let d = dy(&a).unwrap();
    if (i / 8) % 3 < 2 {
        let e = match r.below(4) {
            0 => gen_exp(r, ExpClass::Edge),
            1 => EMIN + r.range(0, 400),
            2 => gen_exp(r, ExpClass::Small),
            _ => gen_exp(r, ExpClass::Any),
        };
        let c = json!({"op": "set_exponent", "a": show(&a), "e": e});
        let mut x = a.clone();
        let Some(()) = w.call(&c, |_| x.set_exponent(e as Exponent)) else { return };
        // the value is mantissa * 2^e where the mantissa of a subnormal number is taken at EMIN
        let want = if d.m == 0 {
            d.clone()
        } else {
            Dy { neg: d.neg, m: d.m.clone(), k: d.k + e - a.exponent().unwrap() as i64 }
        };
        let cls = if a.is_subnormal() { "subnormal" } else { "normal" };
        if want.m != 0 && want.e() < EMIN {
            return; // cannot be: e >= EMIN and bits are kept
        }
        expect(w, &c, &x, &want, Some(a.inexact()), cls);
        keep_prec(w, &c, &a, &x);
        if let Err(m) = crate::judge::canonical(&x) {
            w.violate("canon:set_exponent", json!({"case": c, "got": show(&x), "why": m}));
        }
        return;
    }
    let c = json!({"op": "sign_ops", "a": show(&a)});
    let Some(res) = w.call(&c, |_| {
        let n1 = a.neg();
        let n2 = -&a;
        let n3 = -(a.clone());
        let mut n4 = a.clone();
        n4.inv_sign();
        let ab = a.abs();
        let mut p = a.clone();
        p.set_sign(Sign::Pos);
        let mut q = a.clone();
        q.set_sign(Sign::Neg);
        (vec![n1, n2, n3, n4], vec![ab, p], q, a.clone())
    }) else {
        return;
    };
    let flip = |x: &BigFloat, neg: bool| {
        let (m, n, s, e, i) = a.as_raw_parts().unwrap();
        let (m2, n2, s2, e2, i2) = x.as_raw_parts().unwrap();
        let _ = s;
        m == m2 && n == n2 && e == e2 && i == i2 && s2 == sign(neg)
    };
    let neg = a.is_negative();
    let ok = res.0.iter().all(|x| flip(x, !neg)) && res.1.iter().all(|x| flip(x, false)) && flip(&res.2, true) && flip(&res.3, neg);
    if !ok {
        w.violate("value:sign_ops", json!({"case": c}));
    }
    if a.is_positive() == a.is_negative() || a.sign() != Some(sign(neg)) {
        w.violate("value:is_positive", json!({"case": c}));
    }
    w.st.count("sign_ops");
    w.nontrivial(&c);
    let _ = Float::new(2);
}
