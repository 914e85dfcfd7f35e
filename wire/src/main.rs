#![allow(non_snake_case)]
#[path = "../../shared/nd.rs"]
pub mod nd;
#[path = "../../shared/runner.rs"]
mod runner;
mod contracts;

fn main() {
    runner::main(contracts::list());
}
