//! Stateless search over the decisions of an execution.
use std::{
    cell::RefCell,
    collections::BTreeMap,
    panic::{catch_unwind, AssertUnwindSafe},
    rc::Rc,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc, Condvar, Mutex, Once,
    },
    time::{Duration, Instant},
};

use crate::{
    exec::{panic_message, run_exec, Exec, KillToken},
    Cfg, End,
};

pub type Prefix = Vec<(u32, u16)>;
/// The harness of one execution: `Ok(outcome)` or `Err(violation)`.
pub type Body = Arc<dyn Fn() -> Result<String, String> + Send + Sync>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub msg: String,
    pub prefix: Prefix,
    pub bound: u32,
    pub trace: Vec<String>,
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    /// Executions over all bounds.
    pub executions: u64,
    /// Executions, decision points and steps of the deepest completed bound.
    pub schedules: u64,
    pub states: u64,
    pub transitions: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub completed_bound: Option<u32>,
    pub capped: bool,
    pub max_decisions: u32,
    pub leaked: u64,
    pub violation: Option<Violation>,
    /// Executions that failed with a listed finding.
    pub known: BTreeMap<String, u64>,
    pub known_example: BTreeMap<String, Violation>,
    pub error: Option<String>,
    pub diverged: u64,
    pub wall: Duration,
}

pub struct Limits {
    pub threads: usize,
    pub wall: Duration,
    /// Returns the id of the known finding a violation message belongs to.
    pub known: Arc<dyn Fn(&str) -> Option<String> + Send + Sync>,
    /// An execution that does not come back (called on a watchdog thread).
    pub stuck: Arc<dyn Fn(&Prefix, u32) + Send + Sync>,
}

pub struct RunOut {
    pub result: Result<String, String>,
    recs: Vec<crate::exec::Rec>,
    steps: u64,
    pub trace: Vec<String>,
    pub diverged: Option<String>,
    leaked: u64,
}

fn hook() {
    static H: Once = Once::new();
    H.call_once(|| {
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            if !crate::active() || std::env::var_os("MC_PANICS").is_some() {
                old(info)
            }
        }));
    });
}

/// Runs one execution that follows `prefix`.
pub fn run_one(cfg: &Cfg, prefix: Prefix, sig: u64, trace: bool, body: &Body) -> RunOut {
    hook();
    let mut e = Exec::new(cfg.clone(), prefix, sig, trace);
    let out: Rc<RefCell<Option<Result<String, String>>>> = Rc::default();
    let o2 = out.clone();
    let b = body.clone();
    let end = run_exec(
        &mut e,
        Box::new(move || {
            let r = catch_unwind(AssertUnwindSafe(|| b()));
            let v = match r {
                Ok(v) => v,
                Err(p) => {
                    if p.downcast_ref::<KillToken>().is_some() {
                        return;
                    }
                    Err(format!("panic: {}", panic_message(&*p)))
                }
            };
            if o2.borrow().is_none() {
                *o2.borrow_mut() = Some(v);
            }
            crate::finish();
        }),
    );
    let result = match (end, out.borrow_mut().take()) {
        (End::Finished, Some(v)) => v,
        (End::Finished, None) => Err("harness ended without a verdict".into()),
        (End::Deadlock, _) => Err("deadlock: nothing can run and no timer is pending".into()),
        (End::Horizon, _) => Err("hang: no progress until the time horizon".into()),
        (End::StepLimit, _) => Err("livelock: step limit reached".into()),
    };
    RunOut {
        result,
        recs: std::mem::take(&mut e.recs),
        steps: e.steps,
        trace: e.trace.take().unwrap_or_default(),
        diverged: e.diverged.take(),
        leaked: e.leaked as u64,
    }
}

/// [`run_one`] without checking the signature of the prefix.
pub fn run_one_at(cfg: &Cfg, prefix: Prefix, trace: bool, body: &Body) -> RunOut {
    let mut out = run_one(cfg, prefix, 0, trace, body);
    out.diverged = None;
    out
}

struct Work {
    prefix: Prefix,
    sig: u64,
    cost: u32,
}

struct Shared {
    queue: Mutex<(Vec<Work>, usize)>,
    cv: Condvar,
    stop: AtomicBool,
    capped: AtomicBool,
}

/// Explores all executions with bounds 0, 1, .. `cfg.bound`.
pub fn explore(cfg: &Cfg, lim: &Limits, body: Body) -> Report {
    let t0 = Instant::now();
    let mut rep = Report::default();
    for bound in 0..=cfg.bound {
        let mut c = cfg.clone();
        c.bound = bound;
        let left = lim.wall.saturating_sub(t0.elapsed());
        let r = explore_bound(&c, lim, left, &body);
        rep.executions += r.executions;
        rep.leaked += r.leaked;
        for (k, v) in r.known {
            *rep.known.entry(k).or_default() += v;
        }
        for (k, v) in r.known_example {
            rep.known_example.entry(k).or_insert(v);
        }
        for (k, v) in r.outcomes {
            *rep.outcomes.entry(k).or_default() += v;
        }
        rep.max_decisions = rep.max_decisions.max(r.max_decisions);
        if r.error.is_some() {
            rep.error = r.error;
        }
        rep.diverged += r.diverged;
        if r.violation.is_some() {
            rep.violation = r.violation;
            rep.schedules = r.schedules;
            rep.states = r.states;
            rep.transitions = r.transitions;
            break;
        }
        // Counts describe the deepest bound that was started.
        rep.schedules = r.schedules;
        rep.states = r.states;
        rep.transitions = r.transitions;
        if r.capped {
            rep.capped = true;
            break;
        }
        rep.completed_bound = Some(bound);
        if left.is_zero() {
            rep.capped = bound < cfg.bound;
            break;
        }
    }
    rep.wall = t0.elapsed();
    rep
}

fn explore_bound(cfg: &Cfg, lim: &Limits, wall: Duration, body: &Body) -> Report {
    let t0 = Instant::now();
    let shared = Arc::new(Shared {
        queue: Mutex::new((
            vec![Work {
                prefix: vec![],
                sig: 0,
                cost: 0,
            }],
            0,
        )),
        cv: Condvar::new(),
        stop: AtomicBool::new(false),
        capped: AtomicBool::new(false),
    });
    let total = Arc::new(Mutex::new(Report::default()));
    let nthreads = lim.threads.max(1);
    // Watchdog: start of the current execution of each worker (ms since t0 + 1).
    let beats: Arc<Vec<(AtomicU64, Mutex<Prefix>)>> =
        Arc::new((0..nthreads).map(|_| (AtomicU64::new(0), Mutex::new(vec![]))).collect());
    let wd_stop = Arc::new((Mutex::new(false), Condvar::new()));
    let wd = {
        let beats = beats.clone();
        let stuck = lim.stuck.clone();
        let stop = wd_stop.clone();
        let bound = cfg.bound;
        std::thread::spawn(move || {
            let mut g = stop.0.lock().unwrap();
            while !*g {
                g = stop.1.wait_timeout(g, Duration::from_secs(2)).unwrap().0;
                let now = t0.elapsed().as_millis() as u64;
                for b in beats.iter() {
                    let s = b.0.load(Ordering::SeqCst);
                    if s != 0 && now > s + 90_000 {
                        let p = b.1.lock().unwrap().clone();
                        stuck(&p, bound);
                    }
                }
            }
        })
    };
    std::thread::scope(|s| {
        for t in 0..nthreads {
            let shared = shared.clone();
            let total = total.clone();
            let beats = beats.clone();
            let body = body.clone();
            let cfg = cfg.clone();
            let known = lim.known.clone();
            s.spawn(move || {
                let mut local: Vec<Work> = Vec::new();
                let mut rep = Report::default();
                let mut have_token = false;
                loop {
                    if local.is_empty() {
                        let mut q = shared.queue.lock().unwrap();
                        if have_token {
                            q.1 -= 1;
                            have_token = false;
                        }
                        loop {
                            if shared.stop.load(Ordering::SeqCst) {
                                break;
                            }
                            if let Some(w) = q.0.pop() {
                                local.push(w);
                                q.1 += 1;
                                have_token = true;
                                break;
                            }
                            if q.1 == 0 {
                                break;
                            }
                            q = shared
                                .cv
                                .wait_timeout(q, Duration::from_millis(20))
                                .unwrap()
                                .0;
                        }
                        if local.is_empty() {
                            shared.cv.notify_all();
                            break;
                        }
                    }
                    if shared.stop.load(Ordering::SeqCst) {
                        if have_token {
                            shared.queue.lock().unwrap().1 -= 1;
                        }
                        break;
                    }
                    let w = local.pop().unwrap();
                    *beats[t].1.lock().unwrap() = w.prefix.clone();
                    beats[t].0.store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                    let out = run_one(&cfg, w.prefix.clone(), w.sig, false, &body);
                    beats[t].0.store(0, Ordering::SeqCst);
                    rep.executions += 1;
                    rep.schedules += 1;
                    rep.transitions += out.steps;
                    rep.states += out.recs.len() as u64 + 1;
                    rep.leaked += out.leaked;
                    rep.max_decisions = rep.max_decisions.max(out.recs.len() as u32);
                    // Still an execution of the real code, but its subtree would
                    // not be the one its parent recorded.
                    let diverged = out.diverged.is_some();
                    if let Some(d) = out.diverged {
                        rep.diverged += 1;
                        if rep.error.is_none() {
                            rep.error = Some(format!("replay diverged: {d} (prefix {:?})", w.prefix));
                        }
                    }
                    match out.result {
                        Ok(o) => *rep.outcomes.entry(o).or_default() += 1,
                        Err(msg) => {
                            // The same schedule must fail again.
                            let mut trace = vec![];
                            for _ in 0..2 {
                                let again =
                                    run_one(&cfg, w.prefix.clone(), w.sig, true, &body);
                                trace = again.trace;
                                if again.result.is_ok() {
                                    rep.error = Some(format!(
                                        "not reproducible: {msg} vs {:?} (prefix {:?})",
                                        again.result, w.prefix
                                    ));
                                }
                            }
                            let v = Violation {
                                msg: msg.clone(),
                                prefix: w.prefix.clone(),
                                bound: cfg.bound,
                                trace,
                            };
                            match known(&msg) {
                                Some(k) => {
                                    *rep.known.entry(k.clone()).or_default() += 1;
                                    rep.known_example.entry(k).or_insert(v);
                                }
                                _ => {
                                    rep.violation = Some(v);
                                    shared.stop.store(true, Ordering::SeqCst);
                                    continue;
                                }
                            }
                        }
                    }
                    // Deepest decisions are explored first.
                    for r in out.recs.iter().filter(|_| !diverged) {
                        let cost = r.cost_before + r.alt_cost as u32;
                        debug_assert!(cost <= cfg.bound && r.cost_before >= w.cost.min(r.cost_before));
                        for alt in (1..r.n).rev() {
                            let mut p = Vec::with_capacity(w.prefix.len() + 1);
                            p.extend_from_slice(&w.prefix);
                            p.push((r.pos, alt));
                            local.push(Work {
                                prefix: p,
                                sig: r.sig,
                                cost,
                            });
                        }
                    }
                    if local.len() > 1 {
                        let mut q = shared.queue.lock().unwrap();
                        if q.0.len() < nthreads {
                            let give = (local.len() / 2).min(64);
                            q.0.extend(local.drain(..give));
                            shared.cv.notify_all();
                        }
                    }
                    if t0.elapsed() > wall {
                        shared.capped.store(true, Ordering::SeqCst);
                        shared.stop.store(true, Ordering::SeqCst);
                    }
                }
                let mut tot = total.lock().unwrap();
                tot.executions += rep.executions;
                tot.schedules += rep.schedules;
                tot.transitions += rep.transitions;
                tot.states += rep.states;
                tot.leaked += rep.leaked;
                tot.max_decisions = tot.max_decisions.max(rep.max_decisions);
                for (k, v) in rep.outcomes {
                    *tot.outcomes.entry(k).or_default() += v;
                }
                for (k, v) in rep.known {
                    *tot.known.entry(k).or_default() += v;
                }
                for (k, v) in rep.known_example {
                    tot.known_example.entry(k).or_insert(v);
                }
                if rep.error.is_some() {
                    tot.error = rep.error;
                }
                tot.diverged += rep.diverged;
                if let Some(v) = rep.violation {
                    let better = match &tot.violation {
                        None => true,
                        Some(o) => v.prefix.len() < o.prefix.len(),
                    };
                    if better {
                        tot.violation = Some(v);
                    }
                }
            });
        }
    });
    *wd_stop.0.lock().unwrap() = true;
    wd_stop.1.notify_all();
    let _ = wd.join();
    let mut rep = std::mem::take(&mut *total.lock().unwrap());
    rep.capped = shared.capped.load(Ordering::SeqCst) && rep.violation.is_none();
    rep
}
