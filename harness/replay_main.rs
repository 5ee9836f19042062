//! Native replayer: runs one harness on recorded inputs with the real libraries.
#![allow(dead_code)]
#[macro_use]
#[path = "sym.rs"]
pub mod sym;
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/registry.rs"));

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let hex = if a[2] == "-" { "" } else { &a[2] };
    sym::set_input((0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect());
    run(&a[1]);
    println!("REPLAY-FINISHED");
}
