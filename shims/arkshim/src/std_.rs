//! ark_std
pub use std::*;
pub use rand;

/// ceil(log2(x)), and 0 for 0
pub fn log2(x: usize) -> u32 {
    if x == 0 {
        0
    } else if x.is_power_of_two() {
        1usize.leading_zeros() - x.leading_zeros()
    } else {
        0usize.leading_zeros() - x.leading_zeros()
    }
}
pub struct TimerInfo;
#[macro_export]
macro_rules! start_timer {
    ($msg:expr) => {{ let _ = $msg; $crate::std_::TimerInfo }};
    ($msg:expr, $($arg:tt)*) => {{ let _ = $msg; $crate::std_::TimerInfo }};
}
#[macro_export]
macro_rules! end_timer {
    ($time:expr) => { let _ = $time; };
    ($time:expr, $msg:expr) => { let _ = $time; let _ = $msg; };
}
#[macro_export]
macro_rules! add_to_trace {
    ($title:expr, $msg:expr) => { let _ = $msg; };
}
