//! Contracts of the Rust code generator: `build.rs` runs the real `mabo-build` on the schemas in
//! `schemas/`, this crate compiles what it generated and states the contracts on it.
//!
//! Naming of contracts as in `/verif/contracts`; `full` contracts are decided for all values of
//! the generated type, for the schemas at hand.
#![allow(non_snake_case, unused_macros, unused_imports)]

#[path = "../../shared/nd.rs"]
pub mod nd;

include!(concat!(env!("OUT_DIR"), "/mods.rs"));

#[cfg(not(kani))]
#[path = "../../shared/spec.rs"]
pub mod spec;

#[cfg(not(kani))]
pub mod msg;

#[path = "small.rs"]
pub mod small_types;

#[cfg(not(kani))]
#[path = "known.rs"]
mod known_findings;

#[cfg(not(kani))]
mod generated {
    include!(concat!(env!("OUT_DIR"), "/contracts.rs"));
}

/// Has to fail on every run: a verifier that accepts it proves nothing.
#[cfg(kani)]
#[kani::proof]
fn zz_canary__must_fail() {
    let v: u32 = kani::any();
    assert!(mabo::varint::size_u32(v) < 5, "canary");
}

pub fn all() -> Vec<(&'static str, fn())> {
    #[cfg(not(kani))]
    return [small_types::list(), small_types::list_roundtrip(), generated::list(), known_findings::list()].concat();
    #[cfg(kani)]
    [small_types::list(), small_types::list_roundtrip()].concat()
}
