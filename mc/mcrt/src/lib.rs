//! Deterministic scheduler and stateless model checker.
//!
//! Every thread, async task and blocking closure of the program under test is a
//! coroutine on one OS thread. Shimmed primitives call [`point`] before each
//! operation; the explorer enumerates which coroutine continues at each point,
//! which data alternative is taken at each [`choose`], within a bound on the
//! number of deviations from the default schedule (or on preemptions).
//!
//! Outside an exploration all entry points are inert, so shims fall back to the
//! behaviour of the real primitive.

mod exec;
mod explore;
mod join;
mod time;

pub use exec::*;
pub use explore::*;
pub use join::*;
pub use time::*;
