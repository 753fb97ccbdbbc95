#![allow(unused_imports)] // lib.rs imports what only the modules left out use
// Written by build.rs from /repo/crates/bls-crypto/src/lib.rs at each build.
include!(concat!(env!("OUT_DIR"), "/lib.rs"));
