//! C15: no undefined behaviour. Runs the workloads of ../lite under AddressSanitizer, MemorySanitizer, ThreadSanitizer
//! and Miri (64- and 32-bit), and reads what the instrumentation reports.

use crate::report::*;
use crate::rng::hash_bytes;
use serde_json::{json, Map, Value};
use std::io::{BufRead, BufReader, Read};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// One process to watch.
#[derive(Clone)]
struct Job {
    name: String,
    /// "asan" ... (a program) or "miri64", "miri32" (run by cargo)
    kind: &'static str,
    args: Vec<String>,
    secs: u64,
}

struct Seen {
    job: Job,
    rc: Option<i32>,
    signal: Option<i32>,
    out: Vec<String>,
    err: String,
    cut: bool,
    wall: f64,
}

fn run_job(j: &Job, limit: Duration) -> Option<Seen> {
    let mut c = if j.kind.starts_with("miri") {
        let mut c = Command::new("cargo");
        c.current_dir(std::env::var("AFV_LITE").ok()?);
        c.args(["+nightly", "miri", "run", "--offline", "--locked", "--target-dir", "target/miri"]);
        if j.kind == "miri32" {
            c.args(["--target", "i686-unknown-linux-gnu"]);
        }
        c.arg("--").args(&j.args);
        c.env("MIRIFLAGS", "-Zmiri-disable-isolation");
        c
    } else {
        let mut c = Command::new(std::env::var(format!("AFV_{}", j.kind.to_uppercase())).ok()?);
        c.args(&j.args);
        c.env("ASAN_OPTIONS", "detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1");
        c.env("MSAN_OPTIONS", "allocator_may_return_null=1");
        c.env("TSAN_OPTIONS", "halt_on_error=1:allocator_may_return_null=1");
        c
    };
    let t0 = Instant::now();
    let mut ch = c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).process_group(0).spawn().ok()?;
    let so = ch.stdout.take()?;
    let mut se = ch.stderr.take()?;
    let out = Arc::new(Mutex::new(vec![]));
    let o2 = out.clone();
    let ho = std::thread::spawn(move || {
        // only the last "case" line is kept
        for l in BufReader::new(so).lines().map_while(Result::ok) {
            let mut v = o2.lock().unwrap();
            let case = l.starts_with("case ");
            if case && v.last().map(|p: &String| p.starts_with("case ")).unwrap_or(false) {
                v.pop();
            }
            v.push(l);
        }
    });
    let he = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = se.read_to_end(&mut b);
        String::from_utf8_lossy(&b).to_string()
    });
    let mut cut = false;
    let st = loop {
        match ch.try_wait().ok()? {
            Some(s) => break Some(s),
            None if t0.elapsed() > limit && !cut => {
                cut = true;
                // the whole group: cargo starts the interpreter as a child
                let _ = Command::new("kill").args(["-9", "--", &format!("-{}", ch.id())]).status();
            }
            None => std::thread::sleep(Duration::from_millis(50)),
        }
    };
    let _ = ho.join();
    let err = he.join().unwrap_or_default();
    let out = out.lock().unwrap().clone();
    Some(Seen {
        job: j.clone(),
        rc: st.and_then(|s| s.code()),
        signal: st.and_then(|s| s.signal()),
        out,
        err,
        cut,
        wall: t0.elapsed().as_secs_f64(),
    })
}

/// What the instrumentation reported, if anything: kind and place.
fn report(s: &Seen) -> Option<(String, String)> {
    let e = &s.err;
    let place = || {
        e.lines()
            .find(|l| l.contains("astro-float-num/src/"))
            .map(|l| {
                let t = &l[l.find("astro-float-num/src/").unwrap_or(0)..];
                t.split_whitespace().next().unwrap_or("").split(':').next().unwrap_or("").to_string()
            })
            .unwrap_or_else(|| "?".into())
    };
    for (pat, nm) in [
        ("ERROR: AddressSanitizer: ", "asan"),
        ("WARNING: MemorySanitizer: ", "msan"),
        ("WARNING: ThreadSanitizer: ", "tsan"),
        ("error: Undefined Behavior: ", "miri"),
        ("error: memory leaked: ", "miri leak"),
        ("error: Data race ", "miri race"),
    ] {
        if let Some(i) = e.find(pat) {
            let k = e[i + pat.len()..].lines().next().unwrap_or("");
            let k: String = k.split(|c: char| c == '(' || c == '0').next().unwrap_or("").trim().chars().take(80).collect();
            return Some((format!("{}:{}", nm, k), place()));
        }
    }
    if e.contains("unsafe precondition(s) violated") {
        return Some(("unsafe precondition violated".into(), place()));
    }
    if let Some(g) = s.signal {
        if [4, 6, 7, 8, 11].contains(&g) && !s.cut {
            return Some((format!("crash:signal{}", g), place()));
        }
    }
    s.out.iter().find(|l| l.starts_with("BAD") || l.starts_with("DIFFER")).map(|l| (l.clone(), String::new()))
}

/// Threads over shared operands and first use, under ThreadSanitizer (for C17).
pub fn threads(cfg: &Config, st: &mut Stats, rounds: u64) {
    let j = Job {
        name: "tsan threads".into(),
        kind: "tsan",
        args: vec!["threads".into(), cfg.seed.to_string(), rounds.to_string()],
        secs: 0,
    };
    let Some(s) = run_job(&j, Duration::from_secs(600)) else {
        st.inconclusive += 1;
        st.count("tsan_not_started");
        return;
    };
    for l in s.out.iter().filter_map(|l| l.strip_prefix("THREADS ")) {
        let n = l.split(' ').nth(1).and_then(|v| v.parse().ok()).unwrap_or(0u64);
        st.evals += n;
        *st.counters.entry("tsan_operations".into()).or_insert(0) += n;
    }
    if let Some((kind, place)) = report(&s) {
        st.violate(
            format!("race:{}:{}", kind, place),
            json!({"what": kind, "place": place, "args": j.args,
                   "report": s.err.lines().take(40).map(|l| l.chars().take(300).collect::<String>()).collect::<Vec<_>>(), "out": s.out.last()}),
        );
    } else if s.rc != Some(0) || s.cut {
        st.inconclusive += 1;
        st.count("tsan_not_conclusive");
    }
}

pub fn run(cfg: &Config) -> i32 {
    let secs: u64 = std::env::var("C15_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if cfg.thorough() { 3000 } else { 330 });
    let t = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<String>>();
    let sd = cfg.seed.to_string();
    let mut jobs = vec![];
    let mut add = |name: &str, kind: &'static str, args: Vec<String>, secs: u64| jobs.push(Job { name: name.into(), kind, args, secs });
    let sc = (secs * 9 / 10).to_string();
    for (kind, sizes) in [("asan", ["0", "1", "2"]), ("msan", ["0", "1", "2"])] {
        for z in sizes {
            // sizes 0 are done much earlier
            let s = if z == "0" { (secs / 5).to_string() } else { sc.clone() };
            add(&format!("{} size {}", kind, z), kind, t(&["stress", &sd, "100000000", z, "0", "1", &s]), secs);
        }
    }
    let rounds = (secs * 2).to_string();
    add("tsan threads", "tsan", t(&["threads", &sd, &rounds]), secs);
    for k in 0..2 {
        let f = k.to_string();
        add(&format!("miri64 {}", k), "miri64", t(&["stress", &sd, "1000000", "3", &f, "3", &sc]), secs);
    }
    add("miri32", "miri32", t(&["stress", &sd, "1000000", "3", "2", "3", &sc]), secs);

    let hs: Vec<_> = jobs
        .into_iter()
        .map(|j| std::thread::spawn(move || {
            let r = run_job(&j, Duration::from_secs(j.secs + 60));
            (j, r)
        }))
        .collect();
    let mut st = Stats::default();
    let mut extra = Map::new();
    let mut table: Vec<Value> = vec![];
    let mut bad = vec![];
    for h in hs {
        let (j, r) = h.join().expect("watcher");
        let Some(s) = r else {
            bad.push(format!("{} was not started", j.name));
            continue;
        };
        let mut row = Map::new();
        row.insert("process".into(), json!(s.job.name));
        row.insert("wall_s".into(), json!(s.wall));
        for l in &s.out {
            if let Some(x) = l.strip_prefix("STRESS ") {
                let f: Vec<&str> = x.splitn(5, ' ').collect();
                let g = |k: usize| f.get(k).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
                st.cases += g(0);
                st.evals += g(1);
                for k in 0..g(2) {
                    st.nontrivial.insert(hash_bytes(format!("{}:{}", s.job.name, k).as_bytes()));
                }
                row.insert("programs".into(), json!(g(0)));
                row.insert("operations".into(), json!(g(1)));
                row.insert("distinct_results".into(), json!(g(2)));
                row.insert("panics (left to another property)".into(), json!(g(3)));
                row.insert("by_operation".into(), json!(f.get(4)));
            } else if let Some(x) = l.strip_prefix("THREADS ") {
                let f: Vec<u64> = x.split(' ').filter_map(|v| v.parse().ok()).collect();
                st.cases += f.first().copied().unwrap_or(0);
                st.evals += f.get(1).copied().unwrap_or(0);
                row.insert("rounds of 8 threads".into(), json!(f.first()));
                row.insert("operations".into(), json!(f.get(1)));
            }
        }
        let last = s.out.iter().rev().find(|l| l.starts_with("case ")).cloned().unwrap_or_default();
        if let Some((kind, place)) = report(&s) {
            let from = s.err.find("ERROR").or(s.err.find("WARNING: ")).or(s.err.find("error: ")).unwrap_or(0);
            st.violate(
                format!("ub:{}:{}", kind, place),
                json!({"what": kind, "place": place, "process": s.job.kind, "args": s.job.args, "program": last,
                       "report": s.err[from..].lines().take(40).map(|l| l.chars().take(300).collect::<String>()).collect::<Vec<_>>(),
                       "out": s.out.iter().rev().take(3).collect::<Vec<_>>()}),
            );
        } else if s.cut {
            row.insert("cut at".into(), json!(last));
            st.inconclusive += 1;
        } else if s.rc != Some(0) {
            bad.push(format!("{} ended with {:?}/{:?}: {}", s.job.name, s.rc, s.signal, s.err.lines().last().unwrap_or("").chars().take(200).collect::<String>()));
        }
        st.count(&format!("finished:{}", s.job.kind));
        if st.samples.len() < 10 {
            st.samples.push(json!({"process": s.job.name, "args": s.job.args, "last_program": last}));
        }
        table.push(Value::Object(row));
    }
    extra.insert("processes".into(), json!(table));
    if !bad.is_empty() {
        extra.insert("not_conclusive".into(), json!(bad));
    }
    let cut = st.inconclusive;
    let found = !st.viols.is_empty();
    let rc = finish(
        cfg,
        st,
        "programs of 2 to 20 random operations over numbers of all sizes in a process with instrumentation; distinct: results told apart by their digits",
        extra,
        "exploration",
    );
    if !found && (!bad.is_empty() || cut > 3) {
        for b in &bad {
            println!("inconclusive: {}", b);
        }
        println!("inconclusive: {} processes did not end as they should", bad.len() as u64 + cut);
        return 2;
    }
    rc
}
