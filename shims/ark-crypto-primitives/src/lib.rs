pub use arkshim::crypto_primitives::*;
