pub use arkshim::groth16::*;
