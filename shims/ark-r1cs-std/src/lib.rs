pub use arkshim::r1cs_std::*;
