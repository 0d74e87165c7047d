//! The table of checks.

use crate::judge::*;
use crate::model::*;
use crate::numeric::{self, *};
use crate::ops::*;
use crate::report::*;
use crate::drive::guard;
use astro_float_num::Consts;
use serde_json::Value;

const VALUE: Want = Want { value: true, flag: false, canon: false };

const RULE_NUM: &str = "cases: structured mantissas, correlated operands, ties and near-ties, cancellation, exact results, \
subnormals, range edges, plus operands of up to 12000 words; non-trivial: the exact result had to be rounded or is subnormal, \
distinct by all arguments, precision and mode";

pub fn run(cfg: &Config) -> i32 {
    match cfg.property.as_str() {
        "C01" => numeric::run(cfg, &[Plan { ops: ARITH1, cases: 2_000_000, big: 30_000 }], VALUE, RULE_NUM),
        "C02" => numeric::run(cfg, &[Plan { ops: ARITH2, cases: 1_500_000, big: 8000 }], VALUE, RULE_NUM),
        "C03" => numeric::run(cfg, &[Plan { ops: ELEM, cases: 1_600_000, big: 15_000 }], VALUE, RULE_NUM),
        "C04" => numeric::run(cfg, &[Plan { ops: TRIG, cases: 1_600_000, big: 15_000 }], VALUE, RULE_NUM),
        "C05" => numeric::run(cfg, &[Plan { ops: HYP, cases: 1_600_000, big: 15_000 }], VALUE, RULE_NUM),
        "C06" => crate::consts::run(cfg),
        "C09" => crate::inv::run_c09(cfg),
        "C13" => crate::inv::run_c13(cfg),
        "C08" => crate::radix::run(cfg),
        "C10" => crate::special::run(cfg),
        "C11" => crate::order::run(cfg),
        "C14" => crate::robust::run(cfg),
        "C16" => crate::macros::run(cfg),
        "C15" => crate::san::run(cfg),
        "C17" => crate::hist::run(cfg),
        "C18" => crate::prim::run_c18(cfg),
        "C21" => crate::config::run(cfg),
        "C19" => crate::w32::run(cfg),
        "C20" => crate::prim::run_c20(cfg),
        "C22" => crate::prim::run_c22(cfg),
        "C23" => crate::fault::run(cfg),
        "C24" => crate::prim::run_c24(cfg),
        "C07" => crate::exact::run_c07(cfg),
        "C12" => crate::exact::run_c12(cfg),
        _ => {
            eprintln!("no such check: {}", cfg.property);
            2
        }
    }
}

pub fn replay(f: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
    if let Some(c) = case_of_detail(&v["detail"]) {
        let mut cc = Consts::new().unwrap();
        println!("case {}", c.json());
        println!("ideal {:?}", ideal(&c).map(|i| round_ideal(&i, round_p(c.p), c.rm)).map(|(a, b)| (show_res(&a), b)));
        println!("got {:?}", guard(|| show(&exec(&c, &mut cc))));
    }
    0
}
