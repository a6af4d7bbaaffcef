//! kp <harness> <values>: runs one harness on concrete values (one hex string per line) against the real crates.
use std::panic;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[2]).expect("values");
    for l in text.lines().filter(|l| !l.starts_with('#') && !l.trim().is_empty()) {
        let l = l.trim();
        let b: Vec<u8> = (0..l.len() / 2).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).expect("hex")).collect();
        kp::nd::VALS.with(|v| v.borrow_mut().push_back(b));
    }
    let name = a[1].clone();
    let r = panic::catch_unwind(move || kp::run(&name) || kp::front::run(&name));
    match r {
        Ok(true) => println!("holds"),
        Ok(false) => {
            println!("no such harness");
            std::process::exit(2);
        }
        Err(_) => {
            println!("FAILS");
            std::process::exit(1);
        }
    }
}
