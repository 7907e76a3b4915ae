use std::{
    future::Future,
    ops::{Add, AddAssign, Sub, SubAssign},
    pin::Pin,
    task::{Context, Poll},
    time::Duration,
};

use crate::{active, add_timer, cancel_timer, now_ns};

/// `std::time::Instant` on the virtual clock of an execution.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Instant {
    /// Distance from the origin of the virtual or real clock.
    at: Duration,
}

fn origin() -> std::time::Instant {
    use std::sync::OnceLock;
    static O: OnceLock<std::time::Instant> = OnceLock::new();
    *O.get_or_init(std::time::Instant::now)
}

/// Virtual time starts away from zero so that subtractions stay in range.
const BASE: Duration = Duration::from_secs(1_000_000);

impl Instant {
    pub fn now() -> Self {
        let at = if active() {
            Duration::from_nanos(now_ns())
        } else {
            origin().elapsed()
        };
        Instant { at: BASE + at }
    }
    pub fn virtual_ns(&self) -> u64 {
        self.at.saturating_sub(BASE).as_nanos().min(u64::MAX as u128 / 2) as u64
    }
    pub fn elapsed(&self) -> Duration {
        Instant::now().saturating_duration_since(*self)
    }
    pub fn duration_since(&self, earlier: Instant) -> Duration {
        self.saturating_duration_since(earlier)
    }
    pub fn saturating_duration_since(&self, earlier: Instant) -> Duration {
        self.at.saturating_sub(earlier.at)
    }
    pub fn checked_duration_since(&self, earlier: Instant) -> Option<Duration> {
        self.at.checked_sub(earlier.at)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        self.at.checked_add(d).map(|at| Instant { at })
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        self.at.checked_sub(d).map(|at| Instant { at })
    }
    pub fn from_std(i: Instant) -> Instant {
        i
    }
    pub fn into_std(self) -> Instant {
        self
    }
}
impl std::fmt::Debug for Instant {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Instant({:?})", self.at)
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant { at: self.at + d }
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        self.at += d
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        Instant { at: self.at - d }
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, d: Duration) {
        self.at -= d
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.saturating_duration_since(o)
    }
}

/// A future that completes at a virtual time.
pub struct Sleep {
    deadline: Instant,
    timer: Option<u64>,
}

impl Sleep {
    pub fn until(deadline: Instant) -> Sleep {
        Sleep {
            deadline,
            timer: None,
        }
    }
    pub fn new(d: Duration) -> Sleep {
        let now = Instant::now();
        Sleep::until(
            now.checked_add(d)
                .unwrap_or(now + Duration::from_secs(86400 * 365 * 30)),
        )
    }
    pub fn deadline(&self) -> Instant {
        self.deadline
    }
    pub fn is_elapsed(&self) -> bool {
        Instant::now() >= self.deadline
    }
    pub fn reset(mut self: Pin<&mut Self>, deadline: Instant) {
        if let Some(t) = self.timer.take() {
            cancel_timer(t);
        }
        self.deadline = deadline;
    }
}

impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.is_elapsed() {
            if let Some(t) = self.timer.take() {
                cancel_timer(t);
            }
            return Poll::Ready(());
        }
        if let Some(t) = self.timer.take() {
            cancel_timer(t);
        }
        self.timer = Some(add_timer(self.deadline.virtual_ns(), cx.waker().clone()));
        Poll::Pending
    }
}

impl Drop for Sleep {
    fn drop(&mut self) {
        if let Some(t) = self.timer.take() {
            cancel_timer(t);
        }
    }
}
