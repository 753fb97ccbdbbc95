pub use arkshim::std_::*;
pub use arkshim::{add_to_trace, end_timer, start_timer};
