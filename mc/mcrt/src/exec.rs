use std::{
    any::Any,
    cell::{Cell, RefCell},
    collections::HashMap,
    future::Future,
    panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
    pin::pin,
    sync::Arc,
    task::{Context, Poll, Wake, Waker},
};

use corosensei::{stack::DefaultStack, Coroutine, CoroutineResult, Yielder};

pub type TaskId = usize;
pub type ResId = u64;
type Co = Coroutine<(), (), (), DefaultStack>;

const STACK_SIZE: usize = 1024 * 1024;
/// After this many consecutive points of one task it is forced to yield once.
const FAIRNESS: u32 = 3000;

/// Classes of scheduling points; a configuration can switch classes off.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(u8)]
pub enum Kind {
    Atomic = 0,
    Lock = 1,
    Map = 2,
    Queue = 3,
    Cell = 4,
    Skip = 5,
    Sem = 6,
    Spawn = 7,
    Chan = 8,
    Yield = 9,
    User = 10,
    Block = 11,
    Data = 12,
    Broker = 13,
}

pub const ALL_KINDS: u32 = u32::MAX;
pub const fn mask(kinds: &[Kind]) -> u32 {
    let mut m = 0;
    let mut i = 0;
    while i < kinds.len() {
        m |= 1 << (kinds[i] as u8);
        i += 1;
    }
    m
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    /// Any non-default scheduling decision costs one.
    Deviations,
    /// Switching away from a runnable task costs one; the choice of the next
    /// task when the current one blocks is free.
    Preemptions,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub mode: Mode,
    pub bound: u32,
    pub kinds: u32,
    pub max_steps: u64,
    pub horizon_ns: u64,
    pub early_timers: bool,
    /// Number of shards of every concurrent map.
    pub shards: usize,
    /// Points before the harness calls [`start_exploring`] offer no choices.
    pub defer: bool,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            mode: Mode::Deviations,
            bound: 1,
            kinds: ALL_KINDS,
            max_steps: 300_000,
            horizon_ns: 3_600_000_000_000,
            early_timers: false,
            shards: 1,
            defer: false,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum St {
    Runnable,
    /// Waiting for its waker (async) or an explicit unpark.
    Parked,
    /// Waiting for a resource notification.
    Res(ResId),
    /// Waiting until nothing else can run.
    Quiesce,
    Done,
}

struct Coro {
    co: Option<Box<Co>>,
    yielder: *const Yielder<(), ()>,
    st: St,
    notified: bool,
    cancelled: bool,
    name: String,
    /// Async tasks are cancelled by dropping their future, others by unwinding.
    is_async: bool,
}

/// One recorded decision with alternatives that are within the bound.
#[derive(Clone, Copy, Debug)]
pub(crate) struct Rec {
    pub pos: u32,
    pub n: u16,
    pub alt_cost: u8,
    pub cost_before: u32,
    pub sig: u64,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Finished,
    Deadlock,
    Horizon,
    StepLimit,
}

pub(crate) struct Exec {
    pub cfg: Cfg,
    id: u64,
    coros: Vec<Coro>,
    current: TaskId,
    next: Option<TaskId>,
    tearing: bool,
    exploring: bool,
    // decisions
    prefix: Vec<(u32, u16)>,
    prefix_i: usize,
    prefix_sig: u64,
    pos: u32,
    cost: u32,
    pub recs: Vec<Rec>,
    sig: u64,
    pub diverged: Option<String>,
    pub steps: u64,
    consec: u32,
    step_limit_hit: bool,
    tear_points: u64,
    // time
    pub clock: u64,
    timers: Vec<(u64, u64, Waker)>,
    timer_seq: u64,
    // misc
    next_res: ResId,
    open_gates: HashMap<u64, bool>,
    gate_res: HashMap<u64, ResId>,
    gate_waiting: Vec<u64>,
    pub panics: Vec<(String, String)>,
    pub trace: Option<Vec<String>>,
    rng: u64,
    rng_script: std::collections::VecDeque<u64>,
    pub leaked: usize,
    locals: HashMap<&'static str, Box<dyn Any>>,
}

thread_local! {
    static CUR: Cell<*mut Exec> = const { Cell::new(std::ptr::null_mut()) };
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
    static NEXT_EXEC: Cell<u64> = const { Cell::new(1) };
}

#[allow(clippy::mut_from_ref)]
#[inline]
pub(crate) fn cur() -> Option<&'static mut Exec> {
    let p = CUR.with(|c| c.get());
    if p.is_null() {
        None
    } else {
        Some(unsafe { &mut *p })
    }
}

/// Payload used to unwind a synchronous coroutine at teardown.
pub struct KillToken;

/// True while an exploration drives the calling thread.
#[inline]
pub fn active() -> bool {
    !CUR.with(|c| c.get()).is_null()
}

/// True while the execution is being torn down (its verdict is known).
pub fn tearing() -> bool {
    cur().map(|e| e.tearing).unwrap_or(false)
}

pub fn shards() -> usize {
    cur().map(|e| e.cfg.shards).unwrap_or(4)
}

/// Ends the explored part of an execution: from here on no choices are made and
/// remaining tasks are wound down.
pub fn finish() {
    if let Some(e) = cur() {
        e.tearing = true;
    }
}

/// With `Cfg::defer`, choices begin here.
pub fn start_exploring() {
    if let Some(e) = cur() {
        e.exploring = true;
    }
}

/// From here on the default schedule is followed (data choices remain).
pub fn stop_exploring() {
    if let Some(e) = cur() {
        e.exploring = false;
    }
}

/// Deterministic pseudo-random bits, the same in every execution.
pub fn rng_u64() -> Option<u64> {
    cur().map(|e| {
        if let Some(v) = e.rng_script.pop_front() {
            return v;
        }
        e.rng = e.rng.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = e.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    })
}

/// The next random bits. What is left of an earlier script is discarded.
pub fn rng_script(v: impl IntoIterator<Item = u64>) {
    if let Some(e) = cur() {
        e.rng_script = v.into_iter().collect();
    }
}
/// Starts another stream of random bits.
pub fn rng_seed(s: u64) {
    if let Some(e) = cur() {
        e.rng_script.clear();
        e.rng = s;
    }
}

/// Execution-local storage for harnesses and models (shared by all tasks).
pub fn local<T: Default + 'static, R>(key: &'static str, f: impl FnOnce(&mut T) -> R) -> R {
    let e = cur().expect("no execution");
    let mut b = e
        .locals
        .remove(key)
        .unwrap_or_else(|| Box::<T>::default() as Box<dyn Any>);
    let r = f(b.downcast_mut::<T>().expect("local type"));
    cur().unwrap().locals.insert(key, b);
    r
}

fn mix(h: u64, v: u64) -> u64 {
    (h.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95)
}

impl Exec {
    pub(crate) fn new(cfg: Cfg, prefix: Vec<(u32, u16)>, prefix_sig: u64, trace: bool) -> Box<Exec> {
        let id = NEXT_EXEC.with(|c| {
            let v = c.get();
            c.set(v + 1);
            v
        });
        let exploring = !cfg.defer;
        Box::new(Exec {
            cfg,
            id,
            coros: Vec::with_capacity(32),
            current: 0,
            next: None,
            tearing: false,
            exploring,
            prefix,
            prefix_i: 0,
            prefix_sig,
            pos: 0,
            cost: 0,
            recs: Vec::new(),
            sig: 0,
            diverged: None,
            steps: 0,
            consec: 0,
            step_limit_hit: false,
            tear_points: 0,
            clock: 0,
            timers: Vec::new(),
            timer_seq: 0,
            next_res: 1,
            open_gates: HashMap::new(),
            gate_res: HashMap::new(),
            gate_waiting: Vec::new(),
            panics: Vec::new(),
            trace: if trace { Some(Vec::new()) } else { None },
            rng: 0x1234_5678,
            rng_script: Default::default(),
            leaked: 0,
            locals: HashMap::new(),
        })
    }

    /// Numbers the next decision.
    #[inline]
    fn bump(&mut self, kind: Kind) {
        self.pos += 1;
        self.sig = mix(self.sig, (kind as u64) << 32 | self.current as u64);
    }

    #[inline]
    fn at_prefix(&self) -> bool {
        self.prefix_i < self.prefix.len() && self.prefix[self.prefix_i].0 == self.pos
    }

    /// True if the decision just numbered can only take its default.
    #[inline]
    fn default_only(&self, alt_cost: u32) -> bool {
        !self.at_prefix()
            && (self.prefix_i < self.prefix.len() || self.cost + alt_cost > self.cfg.bound)
    }

    /// Resolves the decision just numbered, with `n` alternatives.
    fn decide(&mut self, n: usize, alt_cost: u8) -> usize {
        let pos = self.pos;
        if self.at_prefix() {
            let c = self.prefix[self.prefix_i].1 as usize;
            self.prefix_i += 1;
            if self.prefix_i == self.prefix.len() && self.prefix_sig != self.sig {
                self.diverged.get_or_insert_with(|| {
                    format!("replayed prefix reached decision {pos} in a different state")
                });
            }
            if c >= n {
                self.diverged
                    .get_or_insert_with(|| format!("decision {pos}: choice {c} of {n}"));
                return 0;
            }
            self.cost += alt_cost as u32;
            return c;
        }
        if n > 1
            && self.prefix_i == self.prefix.len()
            && self.cost + alt_cost as u32 <= self.cfg.bound
        {
            self.recs.push(Rec {
                pos,
                n: n as u16,
                alt_cost,
                cost_before: self.cost,
                sig: self.sig,
            });
        }
        0
    }

    fn runnable_after_current(&self, out: &mut Vec<TaskId>) {
        let n = self.coros.len();
        for k in 1..=n {
            let i = (self.current + k) % n;
            if i != self.current && self.coros[i].st == St::Runnable {
                out.push(i);
            }
        }
    }

    fn log(&mut self, f: impl FnOnce(&Exec) -> String) {
        if self.trace.is_some() {
            let s = f(self);
            self.trace.as_mut().unwrap().push(s);
        }
    }

    fn fire_next_timer(&mut self) -> bool {
        if self.timers.is_empty() {
            return false;
        }
        let t = self.timers.iter().map(|t| t.0).min().unwrap();
        self.clock = self.clock.max(t);
        let mut due: Vec<(u64, u64, Waker)> = Vec::new();
        let mut i = 0;
        while i < self.timers.len() {
            if self.timers[i].0 <= t {
                due.push(self.timers.remove(i));
            } else {
                i += 1;
            }
        }
        due.sort_by_key(|d| d.1);
        let clock = self.clock;
        self.log(|_| format!("clock -> {} ms", clock / 1_000_000));
        for d in due {
            d.2.wake();
        }
        true
    }

    fn can_decide(&self) -> bool {
        self.exploring && !self.tearing
    }
}

/// A scheduling point before an operation of class `kind`.
#[inline]
pub fn point(kind: Kind) {
    if let Some(e) = cur() {
        point_slow(e, kind, false)
    }
}

/// A scheduling point of a task that cannot progress by itself (spin, yield):
/// others go first.
pub fn yield_point() {
    if let Some(e) = cur() {
        point_slow(e, Kind::Yield, true)
    }
}

fn point_slow(e: &mut Exec, kind: Kind, yielding: bool) {
    if e.coros.is_empty() || std::thread::panicking() {
        return;
    }
    if e.tearing {
        e.tear_points += 1;
        if e.tear_points > 3_000_000 || yielding && e.tear_points > 10_000 {
            // Spins for ever: never resumed again.
            let me = e.current;
            e.coros[me].st = St::Res(ResId::MAX);
            switch_out(e);
        }
        return;
    }
    if e.cfg.kinds & (1 << kind as u8) == 0 && !yielding {
        return;
    }
    e.steps += 1;
    e.consec += 1;
    if e.steps > e.cfg.max_steps {
        e.step_limit_hit = true;
        switch_out(e);
        return;
    }
    let forced = yielding || e.consec > FAIRNESS;
    if !e.exploring && !forced {
        return;
    }
    e.bump(kind);
    if !forced && e.default_only(1) {
        return;
    }
    let mut others = Vec::with_capacity(8);
    e.runnable_after_current(&mut others);
    if forced {
        e.consec = 0;
        if others.is_empty() {
            return;
        }
        let me = e.current;
        others.push(me);
        let c = if e.can_decide() {
            e.decide(others.len(), 1)
        } else {
            0
        };
        let to = others[c];
        if to != me {
            e.next = Some(to);
            switch_out(e);
        }
        return;
    }
    let early = e.cfg.early_timers && !e.timers.is_empty();
    let n = others.len() + 1 + early as usize;
    if n == 1 {
        return;
    }
    let c = e.decide(n, 1);
    if c == 0 {
        return;
    }
    if c == others.len() + 1 {
        e.log(|e| format!("early timer at {kind:?} of {}", e.coros[e.current].name));
        e.fire_next_timer();
        return;
    }
    let to = others[c - 1];
    e.log(|e| {
        format!(
            "preempt {} before {kind:?} (step {}); run {}",
            e.coros[e.current].name, e.steps, e.coros[to].name
        )
    });
    e.next = Some(to);
    switch_out(e);
}

/// Suspends the running coroutine (its state says whether it can be resumed).
fn switch_out(e: &mut Exec) {
    let me = e.current;
    let y = e.coros[me].yielder;
    assert!(!y.is_null(), "switch outside a coroutine");
    unsafe { (*y).suspend(()) };
    if let Some(e) = cur() {
        if e.coros[me].cancelled && !e.coros[me].is_async && !std::thread::panicking() {
            resume_unwind(Box::new(KillToken));
        }
    }
}

fn block(e: &mut Exec, st: St) {
    let me = e.current;
    if e.coros.is_empty() {
        panic!("blocking outside a coroutine");
    }
    if e.coros[me].cancelled && !e.coros[me].is_async {
        if std::thread::panicking() {
            return;
        }
        resume_unwind(Box::new(KillToken));
    }
    e.coros[me].st = st;
    switch_out(e);
}

/// Explores `n` alternatives without charging the bound.
pub fn choose(n: usize) -> usize {
    match cur() {
        Some(e) if n > 1 && !e.tearing => {
            e.bump(Kind::Data);
            let c = e.decide(n, 0);
            e.log(|_| format!("choose {c} of {n}"));
            c
        }
        _ => 0,
    }
}

/// Explores `n` alternatives; any but the first costs one deviation.
pub fn choose_dev(n: usize) -> usize {
    match cur() {
        Some(e) if n > 1 && e.can_decide() => {
            e.bump(Kind::Data);
            e.decide(n, 1)
        }
        _ => 0,
    }
}

/// `tokio::select!` start branch.
pub fn select_start(n: u32) -> u32 {
    if active() {
        choose_dev(n as usize) as u32
    } else {
        0
    }
}

pub fn note(f: impl FnOnce() -> String) {
    if let Some(e) = cur() {
        e.log(|_| f());
    }
}

// ---------------------------------------------------------------- resources

pub fn new_res() -> ResId {
    cur().map(|e| {
        e.next_res += 1;
        e.next_res
    })
    .unwrap_or(0)
}

/// Blocks the calling coroutine until [`notify_res`] on `r`.
pub fn wait_res(r: ResId) {
    let e = cur().expect("wait_res outside an execution");
    block(e, St::Res(r));
}

pub fn notify_res(r: ResId) {
    if let Some(e) = cur() {
        for c in e.coros.iter_mut() {
            if c.st == St::Res(r) {
                c.st = St::Runnable;
            }
        }
    }
}

// -------------------------------------------------------------------- gates

fn gate_resource(e: &mut Exec, g: u64) -> ResId {
    if let Some(r) = e.gate_res.get(&g) {
        return *r;
    }
    e.next_res += 1;
    let r = e.next_res;
    e.gate_res.insert(g, r);
    r
}

/// Blocks until gate `g` is opened by the harness. False if the execution is
/// being torn down instead.
pub fn gate_wait(g: u64) -> bool {
    let Some(e) = cur() else { return true };
    if e.tearing {
        return false;
    }
    if e.open_gates.get(&g).copied().unwrap_or(false) {
        return true;
    }
    e.gate_waiting.push(g);
    let r = gate_resource(e, g);
    loop {
        wait_res(r);
        let e = cur().unwrap();
        if e.tearing {
            return false;
        }
        if e.open_gates.get(&g).copied().unwrap_or(false) {
            return true;
        }
    }
}

/// Gates that a task is blocked on, in order of arrival.
pub fn gates_waiting() -> Vec<u64> {
    cur().map(|e| e.gate_waiting.clone()).unwrap_or_default()
}

pub fn gate_open(g: u64) {
    if let Some(e) = cur() {
        e.open_gates.insert(g, true);
        e.gate_waiting.retain(|x| *x != g);
        let r = gate_resource(e, g);
        notify_res(r);
    }
}

// ------------------------------------------------------------------- waking

struct TaskWaker {
    exec: u64,
    task: TaskId,
}

impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if let Some(e) = cur() {
            if e.id == self.exec {
                unpark(e, self.task);
            }
        }
    }
}

fn unpark(e: &mut Exec, t: TaskId) {
    let c = &mut e.coros[t];
    c.notified = true;
    if c.st == St::Parked {
        c.st = St::Runnable;
    }
}

fn task_waker(e: &Exec) -> Waker {
    Waker::from(Arc::new(TaskWaker {
        exec: e.id,
        task: e.current,
    }))
}

/// Runs a future on the calling coroutine.
pub fn block_on<F: Future>(fut: F) -> F::Output {
    let Some(e) = cur() else {
        panic!("mcrt::block_on outside an execution")
    };
    let w = task_waker(e);
    let mut cx = Context::from_waker(&w);
    let mut fut = pin!(fut);
    loop {
        let e = cur().unwrap();
        let me = e.current;
        e.coros[me].notified = false;
        if let Poll::Ready(v) = fut.as_mut().poll(&mut cx) {
            return v;
        }
        park(me);
    }
}

fn park(me: TaskId) {
    let e = cur().unwrap();
    if e.coros[me].notified {
        // Woken while it was polled: goes to the back of the queue.
        point_slow(e, Kind::Yield, true);
    } else {
        block(e, St::Parked);
    }
}

/// Waits until no other task can run (time does not advance). Returns false at
/// teardown.
pub fn quiesce() {
    let e = cur().expect("quiesce outside an execution");
    if e.tearing {
        return;
    }
    block(e, St::Quiesce);
}

/// Lets `ns` of virtual time pass for the calling coroutine.
pub fn sleep_ns(ns: u64) {
    let e = cur().expect("sleep outside an execution");
    if e.tearing {
        return;
    }
    let w = task_waker(e);
    let at = e.clock.saturating_add(ns);
    let me = e.current;
    e.coros[me].notified = false;
    add_timer(at, w);
    while now_ns() < at {
        let e = cur().unwrap();
        if e.tearing {
            return;
        }
        e.coros[me].notified = false;
        block(e, St::Parked);
    }
}

pub fn now_ns() -> u64 {
    cur().map(|e| e.clock).unwrap_or(0)
}

pub fn add_timer(at: u64, w: Waker) -> u64 {
    let e = cur().expect("timer outside an execution");
    e.timer_seq += 1;
    let s = e.timer_seq;
    e.timers.push((at, s, w));
    s
}

pub fn cancel_timer(id: u64) {
    if let Some(e) = cur() {
        e.timers.retain(|t| t.1 != id);
    }
}

pub fn panics() -> Vec<(String, String)> {
    cur().map(|e| e.panics.clone()).unwrap_or_default()
}

// ----------------------------------------------------------------- spawning

pub fn panic_message(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

fn new_coro(e: &mut Exec, name: String, is_async: bool, body: Box<dyn FnOnce()>) -> TaskId {
    let id = e.coros.len();
    let stack = STACKS
        .with(|s| s.borrow_mut().pop())
        .unwrap_or_else(|| DefaultStack::new(STACK_SIZE).expect("stack"));
    let co: Co = Coroutine::with_stack(stack, move |y: &Yielder<(), ()>, ()| {
        if let Some(e) = cur() {
            e.coros[id].yielder = y as *const _;
        }
        let r = catch_unwind(AssertUnwindSafe(body));
        if let Err(p) = r {
            if p.downcast_ref::<KillToken>().is_none() {
                if let Some(e) = cur() {
                    let name = e.coros[id].name.clone();
                    e.panics.push((name, panic_message(&*p)));
                }
            }
        }
    });
    e.coros.push(Coro {
        co: Some(Box::new(co)),
        yielder: std::ptr::null(),
        st: St::Runnable,
        notified: false,
        cancelled: false,
        name,
        is_async,
    });
    id
}

/// Starts a coroutine running a synchronous closure.
pub fn spawn_sync(name: &str, f: impl FnOnce() + 'static) -> TaskId {
    let e = cur().expect("spawn outside an execution");
    let name = format!("{name}#{}", e.coros.len());
    let id = new_coro(e, name, false, Box::new(f));
    point(Kind::Spawn);
    id
}

/// Starts a coroutine polling a future; `done` receives its output, a panic
/// payload, or nothing if it was cancelled.
pub fn spawn_async<F>(
    name: &str,
    fut: F,
    done: impl FnOnce(Option<std::thread::Result<F::Output>>) + 'static,
) -> TaskId
where
    F: Future + 'static,
{
    let e = cur().expect("spawn outside an execution");
    let name = format!("{name}#{}", e.coros.len());
    let label = name.clone();
    let body = move || {
        let e = cur().unwrap();
        let w = task_waker(e);
        let me = e.current;
        let mut cx = Context::from_waker(&w);
        let mut fut = Box::pin(fut);
        loop {
            let e = cur().unwrap();
            if e.coros[me].cancelled {
                let r = catch_unwind(AssertUnwindSafe(move || drop(fut)));
                if let Err(p) = r {
                    cur().unwrap().panics.push((label, panic_message(&*p)));
                }
                done(None);
                return;
            }
            e.coros[me].notified = false;
            let r = catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut cx)));
            match r {
                Ok(Poll::Ready(v)) => {
                    drop(fut);
                    done(Some(Ok(v)));
                    return;
                }
                Ok(Poll::Pending) => {}
                Err(p) => {
                    let e = cur().unwrap();
                    e.panics.push((label, panic_message(&*p)));
                    let _ = catch_unwind(AssertUnwindSafe(move || drop(fut)));
                    done(Some(Err(p)));
                    return;
                }
            }
            let e = cur().unwrap();
            if e.coros[me].cancelled {
                continue;
            }
            park(me);
        }
    };
    let id = new_coro(e, name, true, Box::new(body));
    point(Kind::Spawn);
    id
}

/// Aborts an async task: its future is dropped at its next await.
pub fn cancel(t: TaskId) {
    if let Some(e) = cur() {
        if !e.coros[t].is_async || e.coros[t].st == St::Done {
            return;
        }
        e.coros[t].cancelled = true;
        if e.coros[t].st == St::Parked {
            e.coros[t].st = St::Runnable;
        }
    }
}

pub fn is_done(t: TaskId) -> bool {
    cur().map(|e| e.coros[t].st == St::Done).unwrap_or(true)
}

pub fn current_task() -> TaskId {
    cur().map(|e| e.current).unwrap_or(0)
}

pub fn task_waker_current() -> Waker {
    task_waker(cur().expect("no execution"))
}

// ------------------------------------------------------------------ running

fn resume(e: *mut Exec, id: TaskId) {
    unsafe {
        (*e).current = id;
        let mut co = (&mut (*e).coros)[id].co.take().expect("resumed twice");
        let r = co.resume(());
        match r {
            CoroutineResult::Yield(()) => {
                (&mut (*e).coros)[id].co = Some(co);
            }
            CoroutineResult::Return(()) => {
                (&mut (*e).coros)[id].st = St::Done;
                STACKS.with(|s| {
                    let mut s = s.borrow_mut();
                    if s.len() < 256 {
                        s.push(co.into_stack());
                    }
                });
            }
        }
    }
}

/// Runs one execution to its end. The body is task 0.
pub(crate) fn run_exec(e: &mut Exec, body: Box<dyn FnOnce()>) -> End {
    let ptr: *mut Exec = e;
    CUR.with(|c| {
        assert!(c.get().is_null(), "nested execution");
        c.set(ptr)
    });
    new_coro(e, "main".into(), false, body);
    let end = schedule(ptr);
    teardown(ptr);
    // Locals may own shim objects: drop them while the execution is current.
    let locals = std::mem::take(unsafe { &mut (*ptr).locals });
    drop(locals);
    let timers = std::mem::take(unsafe { &mut (*ptr).timers });
    drop(timers);
    CUR.with(|c| c.set(std::ptr::null_mut()));
    end
}

fn schedule(ptr: *mut Exec) -> End {
    let mut cands: Vec<TaskId> = Vec::new();
    loop {
        let e = unsafe { &mut *ptr };
        if e.step_limit_hit {
            return End::StepLimit;
        }
        if e.coros[0].st == St::Done {
            return End::Finished;
        }
        if let Some(n) = e.next.take() {
            e.consec = 0;
            resume(ptr, n);
            continue;
        }
        e.steps += 1;
        if e.steps > e.cfg.max_steps {
            return End::StepLimit;
        }
        cands.clear();
        e.runnable_after_current(&mut cands);
        if e.coros[e.current].st == St::Runnable {
            // Only reached right after the start of the execution.
            cands.insert(0, e.current);
        }
        if cands.is_empty() {
            if let Some(q) = e.coros.iter().position(|c| c.st == St::Quiesce) {
                e.coros[q].st = St::Runnable;
                e.consec = 0;
                resume(ptr, q);
                continue;
            }
            if e.clock > e.cfg.horizon_ns {
                return End::Horizon;
            }
            if e.fire_next_timer() {
                continue;
            }
            return End::Deadlock;
        }
        let early = e.cfg.early_timers && !e.timers.is_empty();
        let n = cands.len() + early as usize;
        let c = if n > 1 && e.can_decide() {
            let alt = match e.cfg.mode {
                Mode::Deviations => 1,
                Mode::Preemptions => 0,
            };
            e.bump(Kind::Block);
            e.decide(n, alt)
        } else {
            0
        };
        if c == cands.len() {
            e.log(|_| "early timer".to_string());
            e.fire_next_timer();
            continue;
        }
        if c > 0 {
            e.log(|e| {
                format!(
                    "after {} blocked (step {}): run {} instead of {}",
                    e.coros[e.current].name,
                    e.steps,
                    e.coros[cands[c]].name,
                    e.coros[cands[0]].name
                )
            });
        }
        e.consec = 0;
        resume(ptr, cands[c]);
    }
}

/// Winds the remaining coroutines down without exploring.
fn teardown(ptr: *mut Exec) {
    let e = unsafe { &mut *ptr };
    e.tearing = true;
    e.next = None;
    let mut budget = 20_000u32;
    // Tasks run until they wait, then their futures are dropped.
    loop {
        let e = unsafe { &mut *ptr };
        if budget == 0 {
            break;
        }
        budget -= 1;
        for c in e.coros.iter_mut() {
            match c.st {
                St::Parked if c.is_async => {
                    c.cancelled = true;
                    c.st = St::Runnable;
                }
                St::Runnable if c.is_async => c.cancelled = true,
                _ => {}
            }
        }
        let gates: Vec<ResId> = e.gate_res.values().copied().collect();
        for r in gates {
            notify_res(r);
        }
        let e = unsafe { &mut *ptr };
        // Async tasks and helpers first; the main coroutine goes last.
        let pick = (1..e.coros.len())
            .find(|i| e.coros[*i].st == St::Runnable)
            .or_else(|| (e.coros[0].st == St::Runnable).then_some(0));
        if let Some(i) = pick {
            resume(ptr, i);
            continue;
        }
        // Nothing runnable: unwind synchronous coroutines that still wait.
        let sync = (1..e.coros.len())
            .chain(std::iter::once(0))
            .find(|i| {
                !e.coros[*i].is_async
                    && matches!(e.coros[*i].st, St::Parked | St::Quiesce)
                    && !e.coros[*i].cancelled
            });
        if let Some(i) = sync {
            e.coros[i].cancelled = true;
            e.coros[i].st = St::Runnable;
            resume(ptr, i);
            continue;
        }
        break;
    }
    let e = unsafe { &mut *ptr };
    for c in e.coros.iter_mut() {
        if c.st != St::Done {
            if let Some(co) = c.co.take() {
                e.leaked += 1;
                std::mem::forget(co);
            }
        }
    }
}

pub fn record_panic(msg: String) {
    if let Some(e) = cur() {
        let name = e.coros[e.current].name.clone();
        e.panics.push((name, msg));
    }
}
