//! Offline stand-in for the arkworks crates (early 2021 API) that celo-bls-snark-rs
//! depends on. The git dependencies cannot be fetched in this sandbox; the facade crates in
//! ../ark-* re-export these modules under the original crate names.
#![allow(clippy::all)]
#![allow(non_camel_case_types, non_upper_case_globals, dead_code)]
#[macro_use]
pub mod std_;
#[macro_use]
pub mod ff;
pub mod serialize;
#[macro_use]
pub mod ec;
pub mod curves;
#[macro_use]
pub mod relations;
pub mod r1cs_std;
pub mod crypto_primitives;
pub mod groth16;
