//! Executes calls described by lines of text, whatever the word size, and prints what came back.

use astro_float_num::*;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
#[cfg(feature = "std")]
use std::str::FromStr;
use std::sync::atomic::{AtomicU64, Ordering};

pub static BUSY: AtomicU64 = AtomicU64::new(0);

pub fn rm_of(s: &str) -> RoundingMode {
    match s {
        "None" => RoundingMode::None,
        "ToEven" => RoundingMode::ToEven,
        "Up" => RoundingMode::Up,
        "Down" => RoundingMode::Down,
        "ToZero" => RoundingMode::ToZero,
        "FromZero" => RoundingMode::FromZero,
        _ => RoundingMode::ToOdd,
    }
}

pub fn rdx_of(s: &str) -> Radix {
    match s {
        "2" => Radix::Bin,
        "8" => Radix::Oct,
        "10" => Radix::Dec,
        _ => Radix::Hex,
    }
}

fn words_of(hex: &str) -> Vec<Word> {
    let w = WORD_BIT_SIZE / 4;
    let mut v = vec![];
    let mut end = hex.len();
    while end > 0 {
        let st = end.saturating_sub(w);
        v.push(Word::from_str_radix(&hex[st..end], 16).expect("hex"));
        end = st;
    }
    v
}

/// sign,exponent,inexact,hex digits | I+ | I- | N
pub fn num_of(s: &str) -> BigFloat {
    match s {
        "I+" => return INF_POS,
        "I-" => return INF_NEG,
        "N" => return NAN,
        _ => {}
    }
    let f: Vec<&str> = s.split(',').collect();
    let w = words_of(f[3]);
    let sg = if f[0] == "-" { Sign::Neg } else { Sign::Pos };
    let mut n = w.len() * WORD_BIT_SIZE;
    for d in w.iter().rev() {
        n -= d.leading_zeros() as usize;
        if *d != 0 {
            break;
        }
    }
    let e: Exponent = f[1].parse().expect("exponent");
    BigFloat::from_raw_parts(&w, n, sg, if n == 0 { 0 } else { e }, f[2] == "1")
}

pub fn show(x: &BigFloat) -> String {
    if x.is_nan() {
        return format!("N {}", match x.err() {
            None => "-".to_string(),
            Some(e) => format!("{:?}", e),
        });
    }
    if x.is_inf() {
        return (if x.is_inf_neg() { "I-" } else { "I+" }).to_string();
    }
    match x.as_raw_parts() {
        None => "?".to_string(),
        Some((m, n, s, e, i)) => {
            let mut h = String::new();
            for d in m.iter().rev() {
                h.push_str(&format!("{:0w$x}", d, w = WORD_BIT_SIZE / 4));
            }
            format!("V {} {} {} {} {}", if s == Sign::Neg { "-" } else { "+" }, e, i as u8, n, h)
        }
    }
}

fn one(l: &str, cc: &mut Consts) -> String {
    let f: Vec<&str> = l.split(' ').collect();
    let op = f[0];
    // op p rm n a b
    if let "parse" | "from_str" | "format" | "to_radix" | "from_radix" | "raw" | "words" = op {
        return match op {
            "parse" => show(&BigFloat::parse(f[4], rdx_of(f[3]), f[1].parse().expect("p"), rm_of(f[2]), cc)),
            #[cfg(not(feature = "std"))]
            "from_str" => "?".to_string(),
            #[cfg(feature = "std")]
            "from_str" => match BigFloat::from_str(f[4]) {
                Ok(x) => show(&x),
                Err(e) => format!("E {:?}", e),
            },
            "format" => match num_of(f[4]).format(rdx_of(f[3]), rm_of(f[2]), cc) {
                Ok(s) => format!("T {}", s),
                Err(e) => format!("E {:?}", e),
            },
            "to_radix" => match num_of(f[4]).convert_to_radix(rdx_of(f[3]), rm_of(f[2]), cc) {
                Ok((s, d, e)) => {
                    let t: String = d.iter().map(|v| char::from_digit(*v as u32, 36).unwrap_or('?')).collect();
                    format!("D {} {} {}", if s == Sign::Neg { "-" } else { "+" }, e, t)
                }
                Err(e) => format!("E {:?}", e),
            },
            "raw" => show(&num_of(f[4])),
            "words" => {
                let g: Vec<&str> = f[4].split(',').collect();
                let sg = if g[0] == "-" { Sign::Neg } else { Sign::Pos };
                show(&BigFloat::from_words(&words_of(g[2]), sg, f[3].parse().expect("e")))
            }
            _ => {
                // from_radix p rm rdx sign,e,digits
                let g: Vec<&str> = f[4].split(',').collect();
                let d: Vec<u8> = g[2].chars().map(|c| c.to_digit(36).expect("digit") as u8).collect();
                let s = if g[0] == "-" { Sign::Neg } else { Sign::Pos };
                show(&BigFloat::convert_from_radix(s, &d, g[1].parse().expect("e"), rdx_of(f[3]), f[1].parse().expect("p"), rm_of(f[2]), cc))
            }
        };
    }
    let p: usize = f[1].parse().expect("p");
    let rm = rm_of(f[2]);
    if let Some(t) = op.strip_prefix("from_") {
        let v = f[3];
        macro_rules! int {
            ($t:ty, $f:ident) => {
                show(&BigFloat::$f(v.parse::<$t>().expect("int"), p))
            };
        }
        return match t {
            "i8" => int!(i8, from_i8),
            "u8" => int!(u8, from_u8),
            "i16" => int!(i16, from_i16),
            "u16" => int!(u16, from_u16),
            "i32" => int!(i32, from_i32),
            "u32" => int!(u32, from_u32),
            "i64" => int!(i64, from_i64),
            "u64" => int!(u64, from_u64),
            "i128" => int!(i128, from_i128),
            "u128" => int!(u128, from_u128),
            "f64" => show(&BigFloat::from_f64(f64::from_bits(v.parse().expect("bits")), p)),
            "f32" => show(&BigFloat::from_f32(f32::from_bits(v.parse().expect("bits")), p)),
            "word" => show(&BigFloat::from_word(v.parse().expect("word"), p)),
            _ => "?".to_string(),
        };
    }
    let n: usize = f[3].parse().unwrap_or(0);
    let a = f.get(4).map(|s| num_of(s)).unwrap_or_default();
    let b = f.get(5).map(|s| num_of(s)).unwrap_or_default();
    let (keep_a, keep_b) = (show(&a), show(&b));
    let x = match op {
        "add" => a.add(&b, p, rm),
        "sub" => a.sub(&b, p, rm),
        "mul" => a.mul(&b, p, rm),
        "div" => a.div(&b, p, rm),
        "reciprocal" => a.reciprocal(p, rm),
        "sqrt" => a.sqrt(p, rm),
        "cbrt" => a.cbrt(p, rm),
        "powi" => a.powi(n, p, rm),
        "exp" => a.exp(p, rm, cc),
        "ln" => a.ln(p, rm, cc),
        "log2" => a.log2(p, rm, cc),
        "log10" => a.log10(p, rm, cc),
        "log" => a.log(&b, p, rm, cc),
        "pow" => a.pow(&b, p, rm, cc),
        "sin" => a.sin(p, rm, cc),
        "cos" => a.cos(p, rm, cc),
        "tan" => a.tan(p, rm, cc),
        "asin" => a.asin(p, rm, cc),
        "acos" => a.acos(p, rm, cc),
        "atan" => a.atan(p, rm, cc),
        "sinh" => a.sinh(p, rm, cc),
        "cosh" => a.cosh(p, rm, cc),
        "tanh" => a.tanh(p, rm, cc),
        "asinh" => a.asinh(p, rm, cc),
        "acosh" => a.acosh(p, rm, cc),
        "atanh" => a.atanh(p, rm, cc),
        "const_pi" => cc.pi(p, rm),
        "const_e" => cc.e(p, rm),
        "const_ln2" => cc.ln_2(p, rm),
        "const_ln10" => cc.ln_10(p, rm),
        "set_precision" => {
            let mut x = a.clone();
            match x.set_precision(p, rm) {
                Ok(()) => x,
                Err(Error::ExponentOverflow(s)) => {
                    if s == Sign::Pos {
                        INF_POS
                    } else {
                        INF_NEG
                    }
                }
                Err(e) => BigFloat::nan(Some(e)),
            }
        }
        "rem" => a.rem(&b),
        "add_full_prec" => a.add_full_prec(&b),
        "sub_full_prec" => a.sub_full_prec(&b),
        "mul_full_prec" => a.mul_full_prec(&b),
        "int" => a.int(),
        "fract" => a.fract(),
        "floor" => a.floor(),
        "ceil" => a.ceil(),
        "round" => a.round(n, rm),
        "id" => a.clone(),
        "set_exponent" => {
            let mut x = a.clone();
            x.set_exponent(f[3].parse().expect("e"));
            x
        }
        "cmp" => {
            macro_rules! t { ($o:expr) => { $o.map(|v| v.signum()) }; }
            return format!("C {:?} {:?} {:?} {}", t!(a.cmp(&b)), t!(a.abs_cmp(&b)), a.partial_cmp(&b), a == b);
        }
        "max_value" => BigFloat::max_value(p),
        "min_value" => BigFloat::min_value(p),
        "min_positive" => BigFloat::min_positive(p),
        "min_positive_normal" => BigFloat::min_positive_normal(p),
        _ => return format!("? {}", op),
    };
    if show(&a) != keep_a || show(&b) != keep_b {
        return "M".to_string();
    }
    show(&x)
}

pub fn guarded(l: &str, cc: &mut Consts) -> String {
    match catch_unwind(AssertUnwindSafe(|| one(l, cc))) {
        Ok(s) => s,
        Err(_) => {
            *cc = Consts::new().expect("consts");
            let m = crate::LAST.with(|p| p.borrow_mut().take()).unwrap_or_default();
            format!("P {}", m.replace('\n', " "))
        }
    }
}

fn cpu() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let t = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = t.split_whitespace().collect();
    let g = |k: usize| f.get(k).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
    g(11) + g(12)
}

/// A call which uses more than a minute of processor time ends the process, which the parent reports.
fn watchdog() {
    std::thread::spawn(|| {
        let (mut last, mut since) = (u64::MAX, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let b = BUSY.load(Ordering::SeqCst);
            let c = cpu();
            if b != last || b % 2 == 0 {
                last = b;
                since = c;
            } else if c - since > 6000 {
                std::process::exit(99);
            }
        }
    });
}

pub fn serve() -> i32 {
    watchdog();
    let mut cc = Consts::new().expect("consts");
    let mut inp = std::io::stdin().lock();
    let mut out = std::io::stdout().lock();
    let mut l = String::new();
    loop {
        l.clear();
        if inp.read_line(&mut l).unwrap_or(0) == 0 {
            return 0;
        }
        if l.trim() == "info" {
            let _ = writeln!(out, "{} {} {}", WORD_BIT_SIZE, EXPONENT_MIN, EXPONENT_MAX);
            let _ = out.flush();
            continue;
        }
        // a number of lines, then the lines
        let Ok(n) = l.trim().parse::<usize>() else { return 2 };
        let mut req = vec![];
        for _ in 0..n {
            let mut s = String::new();
            if inp.read_line(&mut s).unwrap_or(0) == 0 {
                return 2;
            }
            req.push(s);
        }
        let mut res = String::new();
        for s in &req {
            BUSY.fetch_add(1, Ordering::SeqCst);
            if BUSY.load(Ordering::SeqCst) % 2 == 0 {
                BUSY.fetch_add(1, Ordering::SeqCst);
            }
            res.push_str(&guarded(s.trim_end(), &mut cc));
            res.push('\n');
            BUSY.fetch_add(1, Ordering::SeqCst);
        }
        if out.write_all(res.as_bytes()).is_err() || out.flush().is_err() {
            return 2;
        }
    }
}
