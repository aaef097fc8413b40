//! monosim: deterministic simulation of monoasm.
#![allow(static_mut_refs)]
#![allow(clippy::all)]
mod driver;
mod emit;
mod gen;
mod green;
mod lanes;
mod many;
mod mem;
mod plan;
mod refs;
mod rng;
mod run;
mod scen;
mod sys;
mod world;

pub static mut CUR_OP: i32 = -1;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = driver::main(&a[1..]);
    std::process::exit(code);
}
