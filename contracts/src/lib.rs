//! Contracts of the `mabo` runtime crate, checked on the real crate (path dependency; nothing is
//! copied or rewritten).
//!
//! Every contract is a function named `<property>__<function>__<contract>__<kind>`:
//!
//! - `full`: the symbolic inputs cover the complete domain of the function. Loops are bounded by
//!   the operand width and unwinding assertions are on, so Kani's answer is a proof.
//! - `bounded`: decided by Kani up to a stated input length (never counted as proved).
//! - `sampled`: outside of Kani's reach; executed natively on a seeded stream of inputs.
//!
//! All of them can be executed natively too (see `nd.rs`), to replay a counterexample of the
//! verifier on the real code, or to search for a failing input of a failed obligation.
#![allow(non_snake_case, unused_macros)]

#[path = "../../shared/nd.rs"]
pub mod nd;

pub mod ids;
pub mod nonzero;
pub mod scalars;
pub mod segments;
pub mod skip;
pub mod varint;

#[cfg(not(kani))]
pub mod containers;
#[cfg(not(kani))]
#[path = "../../shared/spec.rs"]
pub mod spec;

/// Has to fail on every run: a verifier that accepts it proves nothing.
#[cfg(kani)]
#[kani::proof]
fn zz_canary__must_fail() {
    let v: u32 = kani::any();
    assert!(mabo::varint::size_u32(v) < 5, "canary");
}

pub fn all() -> Vec<(&'static str, fn())> {
    let v = [ids::list(), nonzero::list(), scalars::list(), segments::list(), skip::list(), varint::list()].concat();
    #[cfg(not(kani))]
    let v = [v, containers::list()].concat();
    v
}
