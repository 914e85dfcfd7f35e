#[cfg(not(kani))]
use mabo_codegen_contracts::nd;

#[cfg(not(kani))]
#[path = "../../shared/runner.rs"]
mod runner;

fn main() {
    #[cfg(not(kani))]
    runner::main(mabo_codegen_contracts::all());
}
