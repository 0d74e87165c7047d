//! Running cases: fixed deterministic streams, panic capture, CPU budget per case.

use crate::model::widen_mpfr;
use crate::report::{Config, Stats};
use crate::rng::Rng;
use astro_float_num::Consts;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const STREAMS: u64 = 8;

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        crate::fault::disarm();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
        if std::env::var("AFV_TRACE").is_ok() {
            eprintln!("panic: {} at {}", msg, loc);
        }
    }));
}

/// Run library code; Err(message) if it panicked.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()),
    }
}

pub struct Slot {
    stream: u64,
    idx: AtomicU64,
    busy: AtomicBool,
    gen: AtomicU64,
    clock: AtomicI32,
    desc: Mutex<Value>,
    stats: Mutex<Stats>,
}

pub struct Worker {
    pub st: Stats,
    pub cc: Consts,
    pub tag: String,
    pub stream: u64,
    pub idx: u64,
    pub thorough: bool,
    pub seed: u64,
    slot: Arc<Slot>,
}

impl Worker {
    /// Say what is about to run (for the watchdog and crash reports).
    pub fn begin(&self, desc: impl FnOnce() -> Value) {
        *self.slot.desc.lock().unwrap() = desc();
        self.slot.gen.fetch_add(1, Ordering::SeqCst);
    }

    pub fn violate(&mut self, sig: impl Into<String>, detail: Value) {
        let mut d = detail;
        if d.is_object() {
            d["where"] = json!({"tag": self.tag, "stream": self.stream, "idx": self.idx, "seed": self.seed});
        }
        self.st.violate(sig.into(), d);
    }

    /// Run library code described by `desc`; a panic is a violation.
    pub fn call<T>(&mut self, desc: &Value, f: impl FnOnce(&mut Consts) -> T) -> Option<T> {
        *self.slot.desc.lock().unwrap() = desc.clone();
        self.slot.gen.fetch_add(1, Ordering::SeqCst);
        self.st.evals += 1;
        let cc = &mut self.cc;
        match guard(|| f(cc)) {
            Ok(v) => Some(v),
            Err(m) => {
                self.cc = Consts::new().expect("consts");
                let loc = m.rsplit(" at ").next().unwrap_or("").rsplit('/').next().unwrap_or("").to_string();
                let file = loc.split(':').next().unwrap_or("").to_string();
                let op = desc["op"].as_str().unwrap_or("?").to_string();
                self.violate(format!("panic:{}:{}", op, file), json!({"case": desc, "panic": m}));
                None
            }
        }
    }

    pub fn nontrivial(&mut self, desc: &Value) {
        let s = desc.to_string();
        self.st.nontrivial.insert(crate::rng::hash_bytes(s.as_bytes()));
        if self.st.samples.len() < 2 && s.len() < 1500 {
            self.st.samples.push(desc.clone());
        }
    }

    pub fn sample(&mut self, v: impl FnOnce() -> Value) {
        if self.st.samples.len() < 2 {
            let s = v();
            if s.to_string().len() < 1500 {
                self.st.samples.push(s);
            }
        }
    }
}

extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, clk: *mut i32) -> i32;
    fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32;
}

fn own_clock() -> i32 {
    let mut c = 0;
    unsafe { pthread_getcpuclockid(pthread_self(), &mut c) };
    c
}

fn clock_s(c: i32) -> f64 {
    let mut ts = [0i64; 2];
    if unsafe { clock_gettime(c, &mut ts) } != 0 {
        return -1.0;
    }
    ts[0] as f64 + ts[1] as f64 * 1e-9
}

/// Where the supervisor finds what was running when the worker process died.
fn state_file() -> Option<std::fs::File> {
    let p = std::env::var("AFV_STATE").ok()?;
    std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(p).ok()
}

/// Run `cases` cases split over the fixed streams.
/// `wall` seconds at most; `cpu` seconds of CPU per case at most before it counts as not terminating.
pub fn drive(
    cfg: &Config,
    tag: &str,
    cases: u64,
    wall: f64,
    cpu: f64,
    f: impl Fn(&mut Rng, &mut Worker, u64) + Sync,
) -> Stats {
    let only: Option<(String, u64, u64)> = std::env::var("AFV_ONLY").ok().map(|s| {
        let v: Vec<&str> = s.split(':').collect();
        (v[0].to_string(), v[1].parse().unwrap(), v[2].parse().unwrap())
    });
    let prefix = std::env::var("AFV_PREFIX").is_ok();
    if let Some((t, _, _)) = &only {
        if t != tag {
            return Stats::default();
        }
    }
    if let Ok(p) = std::env::var("AFV_STATE") {
        use std::io::Write;
        let p = std::path::PathBuf::from(p).with_extension("tags");
        if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(p) {
            let _ = writeln!(f, "{}", tag);
        }
    }
    let t0 = Instant::now();
    let slots: Vec<Arc<Slot>> = (0..STREAMS)
        .map(|s| {
            Arc::new(Slot {
                stream: s,
                idx: AtomicU64::new(0),
                busy: AtomicBool::new(false),
                gen: AtomicU64::new(0),
                clock: AtomicI32::new(0),
                desc: Mutex::new(Value::Null),
                stats: Mutex::new(Stats::default()),
            })
        })
        .collect();
    let done = AtomicU64::new(0);
    let capped = AtomicBool::new(false);
    let mut total = Stats::default();
    std::thread::scope(|sc| {
        for slot in slots.iter() {
            let slot = slot.clone();
            let f = &f;
            let only = &only;
            let done = &done;
            let capped = &capped;
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    use std::os::unix::fs::FileExt;
                    widen_mpfr();
                    let sf = state_file();
                    slot.clock.store(own_clock(), Ordering::SeqCst);
                    let mut w = Worker {
                        st: Stats::default(),
                        cc: Consts::new().expect("consts"),
                        tag: tag.to_string(),
                        stream: slot.stream,
                        idx: 0,
                        thorough: cfg.thorough(),
                        seed: cfg.seed,
                        slot: slot.clone(),
                    };
                    let mut i = slot.stream;
                    while i < cases || only.is_some() {
                        if let Some((_, s, k)) = only {
                            if *s != slot.stream || i > *k {
                                break;
                            }
                            if !prefix && i != *k {
                                i += STREAMS;
                                continue;
                            }
                        }
                        if t0.elapsed().as_secs_f64() > wall {
                            capped.store(true, Ordering::SeqCst);
                            break;
                        }
                        let mut r = Rng::for_case(cfg.seed, tag, slot.stream, i);
                        w.idx = i;
                        slot.idx.store(i, Ordering::SeqCst);
                        if let Some(sf) = &sf {
                            let mut b = [0u8; 16];
                            b[..8].copy_from_slice(&(i + 1).to_le_bytes());
                            b[8..].copy_from_slice(&crate::rng::hash_bytes(tag.as_bytes()).to_le_bytes());
                            let _ = sf.write_all_at(&b, slot.stream * 16);
                        }
                        slot.gen.fetch_add(1, Ordering::SeqCst);
                        slot.busy.store(true, Ordering::SeqCst);
                        let r2 = guard(|| f(&mut r, &mut w, i));
                        slot.busy.store(false, Ordering::SeqCst);
                        if let Err(m) = r2 {
                            // a panic of the harness itself: never a verdict about the library
                            eprintln!("harness panic in {} stream {} idx {}: {}", tag, slot.stream, i, m);
                            w.st.inconclusive += 1;
                            w.st.count("harness_panic");
                        }
                        w.st.cases += 1;
                        if w.st.viols.len() >= 40 {
                            break;
                        }
                        if w.st.cases % 16 == 0 {
                            let mut s = slot.stats.lock().unwrap();
                            s.merge(std::mem::take(&mut w.st));
                            if s.viols.len() >= 40 {
                                break;
                            }
                        }
                        i += STREAMS;
                    }
                    slot.stats.lock().unwrap().merge(w.st);
                    if let Some(sf) = &sf {
                        let _ = sf.write_all_at(&[0u8; 16], slot.stream * 16);
                    }
                    done.fetch_add(1, Ordering::SeqCst);
                })
                .expect("thread");
        }
        // watchdog: CPU time of the case, not wall-clock time, so a loaded machine does not matter
        let mut seen: Vec<(u64, f64)> = vec![(u64::MAX, 0.0); STREAMS as usize];
        while done.load(Ordering::SeqCst) < STREAMS {
            std::thread::sleep(Duration::from_millis(20));
            for (k, slot) in slots.iter().enumerate() {
                if !slot.busy.load(Ordering::SeqCst) {
                    seen[k].0 = u64::MAX;
                    continue;
                }
                let g = slot.gen.load(Ordering::SeqCst);
                let c = clock_s(slot.clock.load(Ordering::SeqCst));
                if c < 0.0 {
                    continue;
                }
                if seen[k].0 != g {
                    seen[k] = (g, c);
                } else if c - seen[k].1 > cpu {
                    let mut all = Stats::default();
                    for s in &slots {
                        all.merge(std::mem::take(&mut *s.stats.lock().unwrap()));
                    }
                    let d = slot.desc.lock().unwrap().clone();
                    let op = d["op"].as_str().unwrap_or("case").to_string();
                    all.evals += 1;
                    all.cases += 1;
                    all.nontrivial.insert(1);
                    all.violate(
                        format!("hang:{}", op),
                        json!({"what": format!("no result after {} s of CPU time", cpu), "case": d,
                          "where": {"tag": tag, "stream": slot.stream, "idx": slot.idx.load(Ordering::SeqCst), "seed": cfg.seed}}),
                    );
                    let rc = crate::report::finish(
                        cfg,
                        all,
                        "run cut short by a case that did not terminate",
                        Default::default(),
                        "exploration",
                    );
                    use std::io::Write;
                    let _ = std::io::stdout().flush();
                    std::process::exit(rc);
                }
            }
        }
    });
    for s in &slots {
        total.merge(std::mem::take(&mut *s.stats.lock().unwrap()));
    }
    if capped.load(Ordering::SeqCst) {
        *total.counters.entry(format!("wall_cap_reached:{}", tag)).or_insert(0) += 1;
    }
    total
}
