//! Evaluates generated expressions with the macro `expr!`. The expressions are in the file AFV_EXPRS names at build time:
//! functions `eN(v: &[Val], c: &mut Cx) -> BigFloat` and the table EXPRS.
//!
//! Request:  K p rm emin emax form value...   (form: ctx | t3 | t5; a value is raw words, an integer, a float or text)
//! Answer:   V sign exponent inexact bits hex | I+ | I- | N error | P panic

#[allow(unused_imports)]
use astro_float::{ctx::Context, expr, BigFloat, Consts, Exponent, Radix, RoundingMode, Sign, Word};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering};

#[allow(dead_code)]
pub enum Val {
    Big(BigFloat),
    I64(i64),
    U128(u128),
    F64(f64),
    Str(String),
}

#[allow(dead_code)]
impl Val {
    fn big(&self) -> BigFloat {
        match self {
            Val::Big(x) => x.clone(),
            _ => panic!("value of another kind"),
        }
    }
    fn i64(&self) -> i64 {
        match self {
            Val::I64(x) => *x,
            _ => panic!("value of another kind"),
        }
    }
    fn u128(&self) -> u128 {
        match self {
            Val::U128(x) => *x,
            _ => panic!("value of another kind"),
        }
    }
    fn f64(&self) -> f64 {
        match self {
            Val::F64(x) => *x,
            _ => panic!("value of another kind"),
        }
    }
    fn str(&self) -> &str {
        match self {
            Val::Str(x) => x,
            _ => panic!("value of another kind"),
        }
    }
}

pub struct Cx {
    p: usize,
    rm: RoundingMode,
    emin: Exponent,
    emax: Exponent,
    cc: Option<Consts>,
}

include!(env!("AFV_EXPRS"));

fn rm(s: &str) -> RoundingMode {
    match s {
        "even" => RoundingMode::ToEven,
        "up" => RoundingMode::Up,
        "down" => RoundingMode::Down,
        "zero" => RoundingMode::ToZero,
        "from" => RoundingMode::FromZero,
        "odd" => RoundingMode::ToOdd,
        _ => RoundingMode::None,
    }
}

fn val(s: &str) -> Val {
    let (k, x) = s.split_at(1);
    match k {
        "b" => {
            // sign exponent inexact hex
            let f: Vec<&str> = x.split(',').collect();
            let w: Vec<Word> = f[3]
                .as_bytes()
                .chunks(16)
                .rev()
                .map(|c| Word::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap())
                .collect();
            let n = w.len() * 64;
            let s = if f[0] == "-" { Sign::Neg } else { Sign::Pos };
            let mut b = BigFloat::from_words(&w, s, f[1].parse().unwrap());
            if b.mantissa_max_bit_len() != Some(n) && !w.is_empty() {
                b = BigFloat::new(n);
            }
            b.set_inexact(f[2] == "1");
            Val::Big(b)
        }
        "i" => Val::I64(x.parse().unwrap()),
        "u" => Val::U128(x.parse().unwrap()),
        "f" => Val::F64(f64::from_bits(u64::from_str_radix(x, 16).unwrap())),
        _ => Val::Str(x.to_string()),
    }
}

fn show(x: &BigFloat) -> String {
    if let Some((m, n, s, e, i)) = x.as_raw_parts() {
        let h: String = m.iter().rev().map(|w| format!("{:016x}", w)).collect();
        format!("V {} {} {} {} {}", if s == Sign::Neg { "-" } else { "+" }, e, i as u8, n, h)
    } else if x.is_inf_pos() {
        "I+".into()
    } else if x.is_inf_neg() {
        "I-".into()
    } else {
        format!("N {:?}", x.err())
    }
}

static BUSY: AtomicU64 = AtomicU64::new(0);

fn cpu() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let g = |k: usize| f.get(k).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
    g(11) + g(12)
}

/// An evaluation which uses more than a minute of processor time ends the process, which the parent reports.
fn watchdog() {
    let (mut last, mut since) = (u64::MAX, 0);
    loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let (b, c) = (BUSY.load(Ordering::SeqCst), cpu());
        if b != last || b % 2 == 0 {
            last = b;
            since = c;
        } else if c - since > 6000 {
            std::process::exit(99);
        }
    }
}

fn main() {
    std::thread::spawn(watchdog);
    std::panic::set_hook(Box::new(|_| {}));
    let mut cc = Some(Consts::new().unwrap());
    let so = std::io::stdout();
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let f: Vec<&str> = l.split(' ').collect();
        let mut c = Cx {
            p: f[1].parse().unwrap(),
            rm: rm(f[2]),
            emin: f[3].parse().unwrap(),
            emax: f[4].parse().unwrap(),
            cc: cc.take().or_else(|| Consts::new().ok()),
        };
        let v: Vec<Val> = f[5..].iter().map(|s| val(s)).collect();
        let k: usize = f[0].parse().unwrap();
        BUSY.fetch_add(1, Ordering::SeqCst);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| EXPRS[k](&v, &mut c)));
        BUSY.fetch_add(1, Ordering::SeqCst);
        let a = match r {
            Ok(x) => {
                cc = c.cc;
                show(&x)
            }
            Err(e) => format!("P {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
        };
        let mut o = so.lock();
        writeln!(o, "{}", a.replace('\n', " ")).unwrap();
        o.flush().unwrap();
    }
}
