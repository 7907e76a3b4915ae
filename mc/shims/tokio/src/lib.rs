//! `tokio` whose tasks, blocking threads and timers are coroutines and virtual
//! time of the model checker; outside an exploration it is the real `tokio`.
#![allow(clippy::all)]
#[doc(hidden)]
pub use ::real as __real;
pub use real::*;

pub use task::spawn;

pub mod sync;
pub mod task;
pub mod time;

#[doc(hidden)]
pub fn __select_start(n: u32) -> u32 {
    if mcrt::active() {
        mcrt::select_start(n)
    } else {
        0
    }
}

#[macro_export]
macro_rules! select {
    (biased; $($t:tt)*) => { $crate::__real::select!(biased; $($t)*) };
    (else => $else:expr $(,)?) => {{ $else }};
    ($p:pat = $($t:tt)*) => {
        $crate::__real::select!(@{ start={ $crate::__select_start(BRANCHES) }; () } $p = $($t)*)
    };
}
