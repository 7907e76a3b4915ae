use std::{
    fmt,
    future::{Future, IntoFuture},
    pin::Pin,
    task::{Context, Poll},
};

pub use mcrt::{Instant, Sleep};
pub use std::time::Duration;

pub fn sleep(d: Duration) -> Sleep {
    Sleep::new(d)
}
pub fn sleep_until(at: Instant) -> Sleep {
    Sleep::until(at)
}

pub mod error {
    use std::fmt;
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(crate) ());
    impl fmt::Display for Elapsed {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
}

pub struct Timeout<F> {
    fut: F,
    sleep: Sleep,
}
impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, error::Elapsed>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        // `fut` is structurally pinned, `sleep` is Unpin.
        let this = unsafe { self.get_unchecked_mut() };
        if let Poll::Ready(v) = unsafe { Pin::new_unchecked(&mut this.fut) }.poll(cx) {
            return Poll::Ready(Ok(v));
        }
        match Pin::new(&mut this.sleep).poll(cx) {
            Poll::Ready(()) => Poll::Ready(Err(error::Elapsed(()))),
            Poll::Pending => Poll::Pending,
        }
    }
}
impl<F: fmt::Debug> fmt::Debug for Timeout<F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Timeout")
    }
}
pub fn timeout<F: IntoFuture>(d: Duration, f: F) -> Timeout<F::IntoFuture> {
    Timeout {
        fut: f.into_future(),
        sleep: Sleep::new(d),
    }
}
pub fn timeout_at<F: IntoFuture>(at: Instant, f: F) -> Timeout<F::IntoFuture> {
    Timeout {
        fut: f.into_future(),
        sleep: Sleep::until(at),
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
pub enum MissedTickBehavior {
    #[default]
    Burst,
    Delay,
    Skip,
}

pub struct Interval {
    next: Instant,
    period: Duration,
    behavior: MissedTickBehavior,
    sleep: Option<Sleep>,
}
impl Interval {
    pub async fn tick(&mut self) -> Instant {
        std::future::poll_fn(|cx| self.poll_tick(cx)).await
    }
    pub fn poll_tick(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
        let next = self.next;
        let s = self.sleep.get_or_insert_with(|| Sleep::until(next));
        match Pin::new(s).poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(()) => {
                self.sleep = None;
                let now = Instant::now();
                self.next = match self.behavior {
                    MissedTickBehavior::Burst => next + self.period,
                    _ => now + self.period,
                };
                Poll::Ready(next)
            }
        }
    }
    pub fn reset(&mut self) {
        self.sleep = None;
        self.next = Instant::now() + self.period;
    }
    pub fn period(&self) -> Duration {
        self.period
    }
    pub fn missed_tick_behavior(&self) -> MissedTickBehavior {
        self.behavior
    }
    pub fn set_missed_tick_behavior(&mut self, b: MissedTickBehavior) {
        self.behavior = b;
    }
}
pub fn interval(period: Duration) -> Interval {
    interval_at(Instant::now(), period)
}
pub fn interval_at(start: Instant, period: Duration) -> Interval {
    assert!(period > Duration::ZERO, "`period` must be non-zero.");
    Interval {
        next: start,
        period,
        behavior: MissedTickBehavior::Burst,
        sleep: None,
    }
}
