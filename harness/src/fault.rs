//! C23: allocation failures. A counting allocator refuses chosen allocations made by a call of the
//! library; the call must return NaN with the memory error (or an error), or the right result, and
//! leave the constants cache and everything else usable.

use crate::drive::*;
use crate::gen::*;
use crate::hist::{fresh, gen_step, ops, Out, Step};
use crate::ops::*;
use crate::report::*;
use crate::rng::Rng;
use astro_float_num::{BigFloat, Consts, Error};
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Fail;

thread_local! {
    // allocations seen since armed; first to fail; how many to fail; smallest size to fail; failures made
    static ON: Cell<bool> = const { Cell::new(false) };
    static SEEN: Cell<u64> = const { Cell::new(0) };
    static FIRST: Cell<u64> = const { Cell::new(u64::MAX) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static SIZE: Cell<usize> = const { Cell::new(usize::MAX) };
    static FAILED: Cell<u64> = const { Cell::new(0) };
}

fn refuse(size: usize) -> bool {
    ON.try_with(|on| {
        if !on.get() {
            return false;
        }
        let k = SEEN.with(|s| {
            let k = s.get();
            s.set(k + 1);
            k
        });
        let first = FIRST.with(|f| f.get());
        let hit = (k >= first && k - first < COUNT.with(|c| c.get())) || size >= SIZE.with(|s| s.get());
        if hit {
            FAILED.with(|f| f.set(f.get() + 1));
        }
        hit
    })
    .unwrap_or(false)
}

unsafe impl GlobalAlloc for Fail {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && refuse(n) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static A: Fail = Fail;

/// Called when a panic begins: reporting it needs memory.
pub fn disarm() {
    let _ = ON.try_with(|o| o.set(false));
}

struct Plan {
    first: u64,
    count: u64,
    size: usize,
}

/// Run with failures; allocations seen and refused.
fn armed<T>(p: &Plan, f: impl FnOnce() -> T) -> (Result<T, String>, u64, u64) {
    SEEN.with(|c| c.set(0));
    FAILED.with(|c| c.set(0));
    FIRST.with(|c| c.set(p.first));
    COUNT.with(|c| c.set(p.count));
    SIZE.with(|c| c.set(p.size));
    let r = guard(|| {
        ON.with(|o| o.set(true));
        let v = f();
        ON.with(|o| o.set(false));
        v
    });
    disarm();
    (r, SEEN.with(|c| c.get()), FAILED.with(|c| c.get()))
}

const NONE: Plan = Plan { first: u64::MAX, count: 0, size: usize::MAX };

fn pick_step(r: &mut Rng, allops: &[Op], big: bool) -> Step {
    loop {
        let s = if r.chance(1, 8) {
            let n = *r.pick(&[
                "clone", "neg", "abs", "int", "ceil", "clamp", "set_exponent", "from_words", "from_u128", "from_f64", "from_i64", "max_value", "min_positive",
            ]);
            let (l1, l2) = (r.usize(1, 9), r.usize(1, 9));
            let a = gen_num(r, &NumOpts { len: l1, exp: ExpClass::Small, subnormal: true, zero: true, inexact: true });
            let b = gen_num(r, &NumOpts { len: l2, exp: ExpClass::Small, subnormal: true, zero: true, inexact: true });
            Step::Exact(n, a, b)
        } else {
            gen_step(r, allops, big)
        };
        // formatting by the standard library cannot report a failure
        if !matches!(s, Step::Display(_)) {
            return s;
        }
    }
}

fn case(r: &mut Rng, w: &mut Worker, allops: &[Op], i: u64) {
    let big = (i / STREAMS) % 50 == 0;
    let s = pick_step(r, allops, big);
    let j = s.json();
    let op = j["op"].as_str().unwrap_or("?").to_string();
    // what it should be, and how many allocations there are with a new cache
    let Some(want) = w.call(&j, |_| s.run(&mut fresh())) else { return };
    let mut cc = fresh();
    // sometimes the cache has something in it
    let warm = r.chance(1, 3);
    if warm {
        let p = r.usize(1, 600);
        let rm = gen_rm(r);
        let _ = w.call(&json!({"op": "warm"}), |_| {
            let _ = (cc.pi(p, rm), cc.e(p, rm), cc.ln_2(p, rm), cc.ln_10(p, rm));
        });
    }
    let (out, total, _) = armed(&NONE, || s.eval(&mut if warm { fresh() } else { fresh() }));
    drop(out);
    if total == 0 {
        w.st.count("no_allocation");
        return;
    }
    let tries = r.usize(1, 6);
    for _ in 0..tries {
        let plan = match r.below(8) {
            0 => Plan { first: r.below(total), count: u64::MAX, size: usize::MAX },
            1 => Plan { first: r.below(total.min(12)), count: 1, size: usize::MAX },
            2 => Plan { first: total - 1 - r.below(total.min(12)), count: 1, size: usize::MAX },
            3 => Plan { first: r.below(total), count: 1 + r.below(4), size: usize::MAX },
            4 => Plan { first: u64::MAX, count: 0, size: 8 << r.below(12) },
            _ => Plan { first: r.below(total), count: 1, size: usize::MAX },
        };
        let jj = json!({"op": op, "call": j, "fail_from": plan.first, "fail_count": plan.count, "fail_size": plan.size, "warm": warm});
        let mut got: Option<Out> = None;
        let mut failed = 0;
        let mut panicked = None;
        if w
            .call(&jj, |_| {
                let (o, _, f) = armed(&plan, || s.eval(&mut cc));
                failed = f;
                match o {
                    Ok(o) => got = Some(o),
                    Err(m) => panicked = Some(m),
                }
            })
            .is_none()
        {
            return;
        }
        if let Some(m) = panicked {
            let f = m.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("").to_string();
            w.violate(format!("fault_panic:{}:{}", op, f), json!({"case": jj, "panic": m}));
            return;
        }
        let Some(got) = got else { return };
        let text = got.text();
        if failed == 0 {
            if text != want {
                w.violate(format!("fault_later:{}", op), json!({"case": jj, "expected": want, "got": text}));
                return;
            }
            w.st.count("plan_did_not_reach");
            continue;
        }
        w.st.count("refused_allocations");
        if got.no_memory() {
            w.st.count("memory_error_returned");
        } else if text == want {
            w.st.count("recovered");
        } else {
            w.violate(format!("fault_result:{}", op), json!({"case": jj, "expected": want, "got": text}));
            return;
        }
        w.nontrivial(&json!([op, total, plan.first, plan.count, plan.size, crate::rng::hash_bytes(want.as_bytes())]));
        // the same cache afterwards
        if r.chance(1, 2) {
            let Some(again) = w.call(&j, |_| s.run(&mut cc)) else { return };
            if again != want {
                w.violate(format!("fault_cache:{}", op), json!({"case": jj, "expected": want, "got": again, "when": "the same call repeated with memory"}));
                return;
            }
        }
        if r.chance(1, 3) {
            let s2 = gen_step(r, allops, false);
            let j2 = s2.json();
            let Some(a) = w.call(&j2, |_| s2.run(&mut fresh())) else { return };
            let Some(b) = w.call(&j2, |_| s2.run(&mut cc)) else { return };
            if a != b {
                w.violate(format!("fault_cache:{}", op), json!({"case": jj, "expected": a, "got": b, "when": "another call after the failure", "other": j2}));
                return;
            }
        }
    }
    w.st.count(&op);
}

/// In-place changes and constructors of the caches.
fn in_place(r: &mut Rng, w: &mut Worker) {
    let l = r.usize(1, 20);
    let x = gen_num(r, &NumOpts { len: l, exp: ExpClass::Small, subnormal: true, zero: true, inexact: true });
    let p = r.usize(1, 2000);
    let rm = gen_rm(r);
    let j: Value = json!({"op": "set_precision", "a": crate::model::show(&x), "p": p});
    let mut want = x.clone();
    let _ = want.set_precision(p, rm);
    let mut y = x.clone();
    let plan = Plan { first: r.below(2), count: u64::MAX, size: usize::MAX };
    let (o, _, failed) = armed(&plan, || y.set_precision(p, rm));
    w.st.evals += 1;
    match o {
        Err(m) => w.violate("fault_panic:set_precision", json!({"case": j, "panic": m})),
        Ok(Ok(())) => {
            if crate::model::show(&y) != crate::model::show(&want) {
                w.violate("fault_result:set_precision", json!({"case": j, "got": crate::model::show(&y)}));
            }
        }
        Ok(Err(e)) => {
            // a number must be left: the old value, or NaN
            let left = y.is_nan() || crate::model::show(&y) == crate::model::show(&x);
            if failed == 0 || e != Error::MemoryAllocation || !left {
                w.violate("fault_result:set_precision", json!({"case": j, "got": crate::model::show(&y), "err": format!("{:?}", e)}));
            }
            w.st.count("memory_error_returned");
        }
    }
    let mut c = None;
    let (o, _, failed) = armed(&Plan { first: r.below(9), count: 1 + r.below(3), size: usize::MAX }, || c = Some(Consts::new()));
    w.st.evals += 1;
    match (o, c) {
        (Ok(()), Some(Ok(mut c))) => {
            let pi = c.pi(200, rm);
            if crate::model::show(&pi) != crate::model::show(&fresh().pi(200, rm)) {
                w.violate("fault_cache:new", json!({"rm": crate::model::rm_name(rm)}));
            }
        }
        (Ok(()), Some(Err(e))) if failed > 0 && e == Error::MemoryAllocation => w.st.count("memory_error_returned"),
        (o, c) => w.violate("fault_result:consts_new", json!({"got": format!("{:?} {:?}", o, c.map(|c| c.is_ok()))})),
    }
    let _ = BigFloat::default();
}

pub fn run(cfg: &Config) -> i32 {
    let t = cfg.thorough();
    let allops = ops();
    // the library's lazily made values exist before failures begin
    let mut r = Rng::for_case(1, "c23-warm", 0, 0);
    for _ in 0..600 {
        let s = gen_step(&mut r, &allops, false);
        let _ = guard(|| s.run(&mut fresh()));
    }
    let st = drive(cfg, "c23", if t { 2_000_000 } else { 250_000 }, if t { 3000.0 } else { 400.0 }, 120.0, |r, w, i| {
        if (i / STREAMS) == 0 {
            // this thread's own lazily made values
            let mut q = Rng::for_case(1, "c23-warm", 0, 0);
            for _ in 0..100 {
                let s = gen_step(&mut q, &allops, false);
                let _ = guard(|| s.run(&mut fresh()));
            }
        }
        if r.chance(1, 20) {
            in_place(r, w)
        } else {
            case(r, w, &allops, i)
        }
    });
    finish(
        cfg,
        st,
        "calls in which chosen allocations fail (one by one over the whole call, several, all from one on, all above a size); the result must be the memory error or \
         the right result, the cache must give right results afterwards, nothing may panic or abort; non-trivial: distinct calls and failure plans in which an \
         allocation was really refused",
        Default::default(),
        "fault_enumeration",
    )
}
