pub use arkshim::relations::*;
pub use arkshim::{lc, ns};
