//! native HARNESS[:ARG] HEX  — runs one harness on a recorded input.
//! Exit: 0 done, 77 an assumption does not hold, 10 a check fails, 101 panic.
#![allow(clippy::all, dead_code)]
#[path = "../../harness/src/lib.rs"]
mod h;
pub use h::*;

use std::sync::Mutex;

struct In {
    b: Vec<u8>,
    at: usize,
    obs: Vec<u64>,
}
static IN: Mutex<In> = Mutex::new(In { b: vec![], at: 0, obs: vec![] });

fn take(n: usize) -> u64 {
    let mut g = IN.lock().unwrap_or_else(|e| e.into_inner());
    let mut v = 0u64;
    for i in 0..n {
        let x = g.b.get(g.at).copied().unwrap_or(0);
        g.at += 1;
        v |= (x as u64) << (8 * i);
    }
    v
}
#[no_mangle]
extern "C" fn sym_u8() -> u8 {
    take(1) as u8
}
#[no_mangle]
extern "C" fn sym_u16() -> u16 {
    take(2) as u16
}
#[no_mangle]
extern "C" fn sym_u32() -> u32 {
    take(4) as u32
}
#[no_mangle]
extern "C" fn sym_u64() -> u64 {
    take(8)
}
#[no_mangle]
unsafe extern "C" fn sym_bytes(p: *mut u8, n: usize) {
    for i in 0..n {
        *p.add(i) = take(1) as u8;
    }
}
#[no_mangle]
extern "C" fn sym_assume(c: bool) {
    if !c {
        println!("ASSUME");
        std::process::exit(77);
    }
}
#[no_mangle]
unsafe extern "C" fn sym_check(c: bool, m: *const u8, n: usize) {
    if !c {
        let m = std::str::from_utf8_unchecked(std::slice::from_raw_parts(m, n));
        println!("CHECK {}", m);
        std::process::exit(10);
    }
}
#[no_mangle]
extern "C" fn sym_cover(_id: u32) {}
#[no_mangle]
extern "C" fn sym_observe(x: u64) {
    IN.lock().unwrap_or_else(|e| e.into_inner()).obs.push(x);
}
#[no_mangle]
extern "C" fn sym_known(_x: u64, _y: u64, recorded: u8) -> bool {
    recorded == 1
}
#[no_mangle]
extern "C" fn sym_pin(x: u64) -> u64 {
    x
}
#[no_mangle]
extern "C" fn sym_differ() {}
#[no_mangle]
extern "C" fn sym_prefer(_c: bool) {}
#[no_mangle]
extern "C" fn sym_concrete(_x: u64, recorded: u8) -> bool {
    recorded == 1
}
#[no_mangle]
extern "C" fn sym_enum(x: u64) -> u64 {
    x
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() != 3 {
        eprintln!("usage: native HARNESS[:ARG] HEX|@FILE");
        std::process::exit(2);
    }
    let (name, arg) = match a[1].split_once(':') {
        Some((n, x)) => (n, x.parse().expect("arg")),
        None => (a[1].as_str(), 0),
    };
    // long inputs come in a file
    let hex = match a[2].strip_prefix('@') {
        Some(f) => std::fs::read_to_string(f).expect("input"),
        None => a[2].clone(),
    };
    let b = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).expect("hex")).collect();
    IN.lock().unwrap().b = b;
    for t in TABLES {
        for (n, f) in t.iter() {
            if *n == name {
                f(arg);
                let g = IN.lock().unwrap();
                let o: Vec<String> = g.obs.iter().map(|x| x.to_string()).collect();
                println!("DONE {}", o.join(","));
                return;
            }
        }
    }
    eprintln!("no harness {}", name);
    std::process::exit(2);
}
