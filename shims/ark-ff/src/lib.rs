pub use arkshim::ff::*;
pub use arkshim::to_bytes;
