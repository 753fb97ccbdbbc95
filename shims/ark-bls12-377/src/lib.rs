pub use arkshim::curves::bls12_377::*;
