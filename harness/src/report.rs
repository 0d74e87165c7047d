//! Verdicts, evidence, known findings, replay files.

use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet};
use std::path::PathBuf;
use std::time::Instant;

/// A violation by its signature: how often, and the first of them.
pub struct Viol {
    pub count: u64,
    pub detail: Value,
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub cases: u64,
    pub nontrivial: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub viols: BTreeMap<String, Viol>,
    pub inconclusive: u64,
}

impl Stats {
    pub fn count(&mut self, k: &str) {
        if let Some(c) = self.counters.get_mut(k) {
            *c += 1;
        } else {
            self.counters.insert(k.to_string(), 1);
        }
    }

    pub fn counter(&self, k: &str) -> u64 {
        self.counters.get(k).copied().unwrap_or(0)
    }

    pub fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.cases += o.cases;
        self.inconclusive += o.inconclusive;
        self.nontrivial.extend(o.nontrivial);
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s);
            }
        }
        for (k, v) in o.viols {
            if let Some(x) = self.viols.get_mut(&k) {
                x.count += v.count;
            } else {
                self.viols.insert(k, v);
            }
        }
    }

    /// Keep the violations of one kind only (another check owns the others).
    pub fn only(&mut self, kinds: &[&str]) {
        self.viols.retain(|k, _| kinds.iter().any(|p| k.starts_with(p)));
    }

    pub fn violate(&mut self, sig: String, detail: Value) {
        if let Some(x) = self.viols.get_mut(&sig) {
            x.count += 1;
        } else if self.viols.len() < 100 {
            self.viols.insert(sig, Viol { count: 1, detail });
        }
    }
}

#[derive(Clone)]
pub struct Config {
    pub property: String,
    pub seed: u64,
    pub tier: String,
    pub verif: PathBuf,
    pub start: Instant,
}

impl Config {
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
}

/// Known findings: [{property, sig, what}], matched on the exact signature.
fn known(cfg: &Config) -> Vec<(String, String)> {
    let p = cfg.verif.join("known_findings.json");
    let Ok(s) = std::fs::read_to_string(p) else { return vec![] };
    let Ok(v) = serde_json::from_str::<Value>(&s) else {
        eprintln!("known_findings.json is not valid");
        std::process::exit(2);
    };
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|f| f["property"] == json!(cfg.property))
                .map(|f| {
                    (
                        f["sig"].as_str().unwrap_or("").to_string(),
                        f["what"].as_str().unwrap_or("").to_string(),
                    )
                })
                .collect()
        })
        .unwrap_or_default()
}

/// Write the evidence file, print verdict lines, return the exit code.
pub fn finish(cfg: &Config, st: Stats, rule: &str, extra: Map<String, Value>, level: &str) -> i32 {
    let kn = known(cfg);
    let mut hit: BTreeMap<String, u64> = BTreeMap::new();
    let mut real: Vec<(&String, &Viol)> = vec![];
    for (sig, v) in &st.viols {
        if kn.iter().any(|(s, _)| s == sig) {
            hit.insert(sig.clone(), v.count);
        } else {
            real.push((sig, v));
        }
    }
    let total: u64 = real.iter().map(|v| v.1.count).sum();
    for (s, w) in &kn {
        // listed findings are always announced; the number says how often this run met them
        println!(
            "KNOWN-FINDING: property={} {} [{}; met {} times in this run]",
            cfg.property,
            w,
            s,
            hit.get(s).copied().unwrap_or(0)
        );
    }
    for (i, (sig, v)) in real.iter().take(10).enumerate() {
        let dir = cfg.verif.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let f = dir.join(format!("{}-{}-{}.json", cfg.property, cfg.seed, i));
        let body = json!({"property": cfg.property, "sig": sig, "seed": cfg.seed,
            "tier": cfg.tier, "detail": v.detail});
        let _ = std::fs::write(&f, serde_json::to_string_pretty(&body).unwrap());
        println!("VIOLATION property={} replay={}", cfg.property, f.display());
        println!("  sig={} count={} detail={}", sig, v.count, v.detail.to_string().chars().take(900).collect::<String>());
    }
    let mut cov = Map::new();
    cov.insert("evaluations".into(), json!(st.evals));
    cov.insert("cases".into(), json!(st.cases));
    cov.insert("distinct_nontrivial".into(), json!(st.nontrivial.len()));
    cov.insert("rule".into(), json!(rule));
    cov.insert("samples".into(), json!(st.samples));
    cov.insert("observed".into(), json!(st.counters));
    cov.insert("inconclusive".into(), json!(st.inconclusive));
    cov.insert("known_findings_met".into(), json!(hit));
    for (k, v) in extra {
        cov.insert(k, v);
    }
    let ev = json!({
        "property": cfg.property, "tier": cfg.tier, "seed": cfg.seed, "level": level,
        "coverage": cov, "wall_s": cfg.start.elapsed().as_secs_f64(),
        "violations": total,
    });
    let dir = cfg.verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(
        dir.join(format!("{}.json", cfg.property)),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    )
    .expect("evidence written");
    println!(
        "{}: {} cases, {} evaluations, {} distinct non-trivial, {} violations, {:.1} s",
        cfg.property,
        st.cases,
        st.evals,
        st.nontrivial.len(),
        total,
        cfg.start.elapsed().as_secs_f64()
    );
    if !real.is_empty() {
        1
    } else if st.evals == 0 || st.nontrivial.is_empty() {
        println!("inconclusive: nothing was observed");
        2
    } else if st.counter("harness_panic") * 20 > st.cases {
        println!("inconclusive: the monitors themselves failed in {} cases", st.counter("harness_panic"));
        2
    } else {
        0
    }
}
