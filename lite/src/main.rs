//! Runs the library without any C dependency: on 32-bit words, and under sanitizers and Miri.
#![cfg_attr(bare32, no_main)]

mod serve;
#[cfg(feature = "std")]
mod stress;

use std::cell::RefCell;

thread_local! {
    pub static LAST: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|p| *p.borrow_mut() = Some(format!("{} at {}", m, l)));
    }));
}

fn start(args: Vec<String>) -> i32 {
    hook();
    match args.get(1).map(|s| s.as_str()) {
        Some("serve") => serve::serve(),
        #[cfg(feature = "std")]
        Some("stress") => stress::stress(&args[2..]),
        #[cfg(feature = "std")]
        Some("threads") => stress::threads(&args[2..]),
        _ => {
            eprintln!("usage: lite serve | stress SEED CASES SIZE [FIRST [STEP [SECS]]] | threads SEED ROUNDS");
            2
        }
    }
}

#[cfg(not(bare32))]
fn main() {
    std::process::exit(start(std::env::args().collect()));
}

// Linked without the C start files, which are not installed for 32 bits.
#[cfg(bare32)]
std::arch::global_asm!(
    ".globl _start", "_start:", "xorl %ebp, %ebp", "popl %esi", "movl %esp, %ecx", "andl $-16, %esp", "pushl %eax", "pushl %esp", "pushl %edx",
    "pushl $0", "pushl $0", "pushl %ecx", "pushl %esi", "pushl $main", "call __libc_start_main", "hlt",
    options(att_syntax)
);

#[cfg(bare32)]
#[no_mangle]
pub extern "C" fn main(argc: i32, argv: *const *const std::ffi::c_char) -> i32 {
    let args = (0..argc as usize)
        .map(|k| unsafe { std::ffi::CStr::from_ptr(*argv.add(k)) }.to_string_lossy().to_string())
        .collect();
    let rc = std::thread::Builder::new().stack_size(64 << 20).spawn(move || start(args)).map(|h| h.join().unwrap_or(101)).unwrap_or(2);
    std::process::exit(rc)
}
