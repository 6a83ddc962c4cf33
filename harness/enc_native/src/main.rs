//! Runs one case on the real ciphers, on the bytes of a counterexample.
#![allow(dead_code, unused_imports)]
pub use ursa::encryption;
mod input {
    use std::cell::RefCell;
    thread_local! { static BYTES: RefCell<std::collections::VecDeque<u8>> = RefCell::new(Default::default()); }
    pub fn set(b: Vec<u8>) {
        BYTES.with(|x| *x.borrow_mut() = b.into());
    }
    pub fn byte() -> u8 {
        BYTES.with(|x| x.borrow_mut().pop_front().unwrap_or(0))
    }
    pub fn assume(b: bool) {
        if !b {
            println!("REPLAY skip");
            std::process::exit(3);
        }
    }
    pub fn presented(_: &[u8]) {}
}
mod cases;
use cases::*;
use ursa::encryption::symm::prelude::*;
macro_rules! cases {
    ($($name:ident => $e:expr,)*) => {
        fn run(name: &str) {
            match name {
                $(stringify!($name) => { $e; })*
                _ => panic!("no such case"),
            }
        }
    };
}
include!("table.rs");
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let t = std::fs::read_to_string(&a[2]).unwrap();
    let hex = t.lines().find(|l| l.starts_with("bytes ")).map(|l| l[6..].trim().to_string()).unwrap_or_default();
    input::set((0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect());
    let name = a[1].clone();
    match std::panic::catch_unwind(move || run(&name)) {
        Ok(_) => println!("REPLAY ok"),
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            println!("REPLAY violation {}", m);
            std::process::exit(1);
        }
    }
}
