//! Supervisor: runs the worker as a child process, so that a crash of the library (a signal)
//! becomes a verdict with a replay, and anything else that ends a run badly stays inconclusive.

use crate::report::*;
use serde_json::{json, Value};
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const CRASH: [i32; 5] = [4, 6, 7, 8, 11]; // ILL ABRT BUS FPE SEGV

enum End {
    Code(i32),
    Signal(i32),
    Timeout,
}

fn run(cfg: &Config, envs: &[(String, String)], secs: u64, quiet: bool) -> End {
    let exe = std::env::current_exe().expect("exe");
    let mut c = Command::new(exe);
    c.arg("worker").arg(&cfg.property);
    for (k, v) in envs {
        c.env(k, v);
    }
    if quiet {
        c.stdout(Stdio::null()).stderr(Stdio::null());
    }
    let mut ch = c.spawn().expect("worker started");
    let t0 = Instant::now();
    loop {
        match ch.try_wait().expect("wait") {
            Some(s) => {
                return match (s.code(), s.signal()) {
                    (Some(c), _) => End::Code(c),
                    (_, Some(g)) => End::Signal(g),
                    _ => End::Code(2),
                }
            }
            None => {
                if t0.elapsed().as_secs() > secs {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return End::Timeout;
                }
                std::thread::sleep(Duration::from_millis(20));
            }
        }
    }
}

pub fn check(cfg: &Config) -> i32 {
    let dir = std::env::temp_dir();
    let sf = dir.join(format!("afv-state-{}-{}", cfg.property, std::process::id()));
    let _ = std::fs::remove_file(&sf);
    let _ = std::fs::remove_file(sf.with_extension("tags"));
    let limit = if cfg.thorough() { 7200 } else { 860 };
    let env = vec![("AFV_STATE".to_string(), sf.display().to_string())];
    let rc = match run(cfg, &env, limit, false) {
        End::Code(c) => c,
        End::Timeout => {
            println!("inconclusive: the run did not finish in {} s", limit);
            2
        }
        End::Signal(g) if CRASH.contains(&g) => crash(cfg, g, &sf),
        End::Signal(g) => {
            println!("inconclusive: worker ended by signal {}", g);
            2
        }
    };
    let _ = std::fs::remove_file(&sf);
    let _ = std::fs::remove_file(sf.with_extension("tags"));
    rc
}

fn crash(cfg: &Config, sig: i32, sf: &std::path::Path) -> i32 {
    // which cases were running
    let b = std::fs::read(sf).unwrap_or_default();
    let mut cand = vec![];
    for (s, ch) in b.chunks(16).enumerate() {
        if ch.len() < 16 {
            continue;
        }
        let i = u64::from_le_bytes(ch[..8].try_into().unwrap());
        let h = u64::from_le_bytes(ch[8..].try_into().unwrap());
        if i > 0 {
            cand.push((s as u64, i - 1, h));
        }
    }
    let tags: Vec<String> = std::fs::read_to_string(sf.with_extension("tags"))
        .map(|t| t.lines().map(|l| l.to_string()).collect())
        .unwrap_or_default();
    let mut found: Option<Value> = None;
    'o: for prefix in [false, true] {
        for (s, i, h) in &cand {
            let Some(tag) = tags.iter().find(|t| crate::rng::hash_bytes(t.as_bytes()) == *h) else { continue };
            let mut env = vec![("AFV_ONLY".to_string(), format!("{}:{}:{}", tag, s, i))];
            if prefix {
                env.push(("AFV_PREFIX".to_string(), "1".to_string()));
            }
            if let End::Signal(g) = run(cfg, &env, 60, true) {
                if CRASH.contains(&g) {
                    found = Some(json!({"tag": tag, "stream": s, "idx": i, "needs_previous_cases": prefix}));
                    break 'o;
                }
            }
        }
    }
    let mut st = Stats::default();
    st.evals = cand.iter().map(|c| c.1 / 8 + 1).sum::<u64>().max(1);
    st.cases = st.evals;
    st.nontrivial.insert(1);
    st.samples.push(json!({"running_when_the_process_died": cand.iter().map(|c| json!([c.0, c.1])).collect::<Vec<_>>()}));
    st.violate(
        format!("crash:signal{}", sig),
        json!({"what": format!("the process was killed by signal {}", sig), "seed": cfg.seed,
               "case": found, "running": cand.iter().map(|c| json!([c.0, c.1])).collect::<Vec<_>>()}),
    );
    finish(cfg, st, "run cut short by a crash of the library", Default::default(), "exploration")
}
