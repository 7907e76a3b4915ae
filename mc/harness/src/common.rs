//! Scenario plumbing shared by all properties.
use std::{
    collections::VecDeque,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll, Waker},
};

use futures::Stream;
use mcrt::{Body, Cfg, Kind, Mode};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
    pub fn thorough(self) -> bool {
        self == Tier::Thorough
    }
}

pub struct Scen {
    pub name: String,
    pub cfg: Cfg,
    pub body: Body,
    pub weight: f64,
    /// What is enumerated, in words.
    pub what: String,
}

impl Scen {
    pub fn new(
        name: impl Into<String>,
        cfg: Cfg,
        f: impl Fn() -> Result<String, String> + Send + Sync + 'static,
    ) -> Scen {
        Scen {
            name: name.into(),
            cfg,
            body: Arc::new(f),
            weight: 1.0,
            what: String::new(),
        }
    }
    pub fn weight(mut self, w: f64) -> Self {
        self.weight = w;
        self
    }
    pub fn what(mut self, w: impl Into<String>) -> Self {
        self.what = w.into();
        self
    }
}

pub fn dev(bound: u32) -> Cfg {
    Cfg {
        bound,
        ..Default::default()
    }
}
/// Switching away from a runnable task costs one; who goes next is free.
pub fn pre(bound: u32) -> Cfg {
    Cfg {
        mode: Mode::Preemptions,
        bound,
        ..Default::default()
    }
}
pub fn deferred(mut c: Cfg) -> Cfg {
    c.defer = true;
    c
}
pub fn kinds(mut c: Cfg, k: &[Kind]) -> Cfg {
    c.kinds = mcrt::mask(k);
    c
}

/// For a few very long executions.
pub fn long(mut c: Cfg) -> Cfg {
    c.max_steps = 100_000_000;
    c
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

// ------------------------------------------------------------------- feeds

struct FeedInner<T> {
    script: VecDeque<Step<T>>,
    avail: VecDeque<Step<T>>,
    waker: Option<Waker>,
    taken: usize,
}
pub enum Step<T> {
    Item(T),
    End,
}
/// A stream whose items arrive when the harness decides.
pub struct Feed<T>(Arc<Mutex<FeedInner<T>>>);
pub struct FeedStream<T>(Arc<Mutex<FeedInner<T>>>);

impl<T> Clone for Feed<T> {
    fn clone(&self) -> Self {
        Feed(self.0.clone())
    }
}

impl<T> Feed<T> {
    pub fn new(items: impl IntoIterator<Item = T>) -> (Feed<T>, FeedStream<T>) {
        let mut script: VecDeque<Step<T>> = items.into_iter().map(Step::Item).collect();
        script.push_back(Step::End);
        let i = Arc::new(Mutex::new(FeedInner {
            script,
            avail: VecDeque::new(),
            waker: None,
            taken: 0,
        }));
        (Feed(i.clone()), FeedStream(i))
    }
    pub fn has_more(&self) -> bool {
        !self.0.lock().unwrap().script.is_empty()
    }
    pub fn left(&self) -> usize {
        self.0.lock().unwrap().script.len()
    }
    pub fn taken(&self) -> usize {
        self.0.lock().unwrap().taken
    }
    pub fn advance(&self) {
        let w = {
            let mut g = self.0.lock().unwrap();
            if let Some(s) = g.script.pop_front() {
                g.avail.push_back(s);
            }
            g.waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
    pub fn advance_all(&self) {
        while self.has_more() {
            self.advance()
        }
    }
}

impl<T> Stream for FeedStream<T> {
    type Item = T;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
        let mut g = self.0.lock().unwrap();
        match g.avail.front() {
            None => {
                g.waker = Some(cx.waker().clone());
                Poll::Pending
            }
            Some(Step::End) => Poll::Ready(None),
            Some(Step::Item(_)) => {
                g.taken += 1;
                match g.avail.pop_front() {
                    Some(Step::Item(t)) => Poll::Ready(Some(t)),
                    _ => unreachable!(),
                }
            }
        }
    }
}

// ------------------------------------------------------------------ driver

pub trait Source {
    fn more(&self) -> bool;
    fn go(&self);
}
impl<T> Source for Feed<T> {
    fn more(&self) -> bool {
        self.has_more()
    }
    fn go(&self) {
        self.advance()
    }
}

/// An event that may happen once, at any time.
pub struct Act<'a> {
    open: std::cell::Cell<bool>,
    f: Box<dyn Fn() + 'a>,
}
impl<'a> Act<'a> {
    pub fn new(f: impl Fn() + 'a) -> Self {
        Act { open: std::cell::Cell::new(true), f: Box::new(f) }
    }
    /// It cannot happen any more.
    pub fn rule_out(&self) {
        self.open.set(false)
    }
    pub fn took_place_or_out(&self) -> bool {
        !self.open.get()
    }
}
impl Source for Act<'_> {
    fn more(&self) -> bool {
        self.open.get()
    }
    fn go(&self) {
        self.open.set(false);
        (self.f)()
    }
}

#[derive(Clone, Copy)]
pub struct Drive {
    /// Also offer opening all waiting gates at once.
    pub burst: bool,
    /// Virtual seconds to wait when nothing is left to do.
    pub patience_s: u64,
    /// An event other than the first possible one counts against the bound.
    pub counted: bool,
}
impl Default for Drive {
    fn default() -> Self {
        Drive {
            burst: true,
            patience_s: 150,
            counted: false,
        }
    }
}

/// Alternates between letting everything settle and one enumerated external
/// event (an input arrives, an operation completes), until `done`.
pub fn drive(
    d: Drive,
    sources: &[&dyn Source],
    done: &dyn Fn() -> bool,
    what: &str,
) -> Result<(), String> {
    let mut waited = false;
    loop {
        mcrt::quiesce();
        if done() {
            return Ok(());
        }
        let gates = mcrt::gates_waiting();
        let src: Vec<usize> = (0..sources.len()).filter(|i| sources[*i].more()).collect();
        let burst = d.burst && gates.len() > 1;
        let n = gates.len() + src.len() + burst as usize;
        if n == 0 {
            if waited {
                return Err(format!(
                    "{what} hangs: nothing is left to happen and it has not finished"
                ));
            }
            waited = true;
            mcrt::sleep_ns(d.patience_s * 1_000_000_000);
            continue;
        }
        waited = false;
        let c = if d.counted {
            mcrt::choose_dev(n)
        } else {
            mcrt::choose(n)
        };
        if c < gates.len() {
            mcrt::note(|| format!("== operation at gate {} completes", gates[c]));
            mcrt::gate_open(gates[c]);
        } else if c < gates.len() + src.len() {
            let s = src[c - gates.len()];
            mcrt::note(|| format!("== input source {s} advances"));
            sources[s].go();
        } else {
            mcrt::note(|| "== all waiting operations complete".to_string());
            for g in gates {
                mcrt::gate_open(g);
            }
        }
    }
}

/// [`drive`] with the default options.
pub fn run_to(
    sources: &[&dyn Source],
    done: &dyn Fn() -> bool,
    what: &str,
) -> Result<(), String> {
    drive(Drive::default(), sources, done, what)
}

/// Lets everything happen without enumerating the order of events.
pub fn settle_all(done: &dyn Fn() -> bool, what: &str) -> Result<(), String> {
    let mut waited = 0;
    loop {
        mcrt::quiesce();
        if done() {
            return Ok(());
        }
        let gates = mcrt::gates_waiting();
        if gates.is_empty() {
            if waited == 2 {
                return Err(format!("{what} hangs"));
            }
            waited += 1;
            mcrt::sleep_ns(100_000_000_000);
        }
        for g in gates {
            mcrt::gate_open(g);
        }
    }
}

pub fn no_panics() -> Result<(), String> {
    let p = mcrt::panics();
    if p.is_empty() {
        Ok(())
    } else {
        Err(format!("a task panicked: {} ({})", p[0].1, p[0].0))
    }
}

pub fn secs(n: u64) -> u64 {
    n * 1_000_000_000
}

/// All permutations of 0..n (choice per execution).
pub fn choose_perm(n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    while !left.is_empty() {
        let c = mcrt::choose(left.len());
        out.push(left.remove(c));
    }
    out
}

/// A future that is dropped instead of being polled for the `n`-th time.
pub async fn polled_at_most<F: std::future::Future>(n: usize, f: F) -> Option<F::Output> {
    let mut f = Some(Box::pin(f));
    let mut left = n;
    std::future::poll_fn(move |cx| {
        if left == 0 {
            mcrt::note(|| "== dropped".into());
            f = None;
            return Poll::Ready(None);
        }
        left -= 1;
        f.as_mut().unwrap().as_mut().poll(cx).map(Some)
    })
    .await
}

/// Answer of a stream to a single poll.
pub enum Polled<T> {
    Item(T),
    End,
    /// Not ready, but it asked to be polled again.
    Busy,
    /// Not ready and waiting for something.
    Idle,
}
struct Flag(std::sync::atomic::AtomicBool);
impl futures::task::ArcWake for Flag {
    fn wake_by_ref(f: &Arc<Self>) {
        f.0.store(true, std::sync::atomic::Ordering::SeqCst)
    }
}
pub fn poll_once<S: Stream + Unpin>(s: &mut S) -> Polled<S::Item> {
    let f = Arc::new(Flag(false.into()));
    let w = futures::task::waker(f.clone());
    match Pin::new(s).poll_next(&mut Context::from_waker(&w)) {
        Poll::Ready(Some(x)) => Polled::Item(x),
        Poll::Ready(None) => Polled::End,
        Poll::Pending if f.0.load(std::sync::atomic::Ordering::SeqCst) => Polled::Busy,
        Poll::Pending => Polled::Idle,
    }
}
/// What a stream gives without waiting.
pub fn poll_now<S: Stream + Unpin>(s: &mut S) -> Option<S::Item> {
    for _ in 0..100 {
        match poll_once(s) {
            Polled::Item(x) => return Some(x),
            Polled::End | Polled::Idle => return None,
            Polled::Busy => {}
        }
    }
    None
}
