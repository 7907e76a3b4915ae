//! `backoff` 0.4.0 on virtual time, with the random part of an interval as an
//! explored choice. Copied from the crate; see `random` and `rt_sleeper`.
#![allow(warnings)]
pub mod backoff;
mod clock;
pub mod default;
mod error;
pub mod exponential;
pub mod future;
mod retry;
pub use crate::clock::{Clock, SystemClock};
pub use crate::error::Error;
pub use crate::retry::{retry, retry_notify, Notify};
pub type ExponentialBackoff = exponential::ExponentialBackoff<SystemClock>;
pub type ExponentialBackoffBuilder = exponential::ExponentialBackoffBuilder<SystemClock>;
