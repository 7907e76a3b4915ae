//! Retries.
use std::{
    cell::RefCell,
    rc::Rc,
    time::Duration,
};

use mcrt::choose;
use paladin::operation::{
    FatalError, FatalStrategy, OperationError, RetryStrategy, TransientError,
};

use crate::common::*;
use crate::ensure;
use crate::ops::{FatalC, RetryStrategyC};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Out {
    Ok,
    Err,
    Fatal(FatalC),
}

#[derive(Default)]
struct Obs {
    starts: Vec<u64>,
    ends: Vec<u64>,
    outs: Vec<Out>,
    traced: Vec<String>,
}

fn strategies() -> Vec<RetryStrategyC> {
    use RetryStrategyC::*;
    vec![
        Immediate(1),
        Immediate(2),
        Immediate(3),
        After(1, 50),
        After(2, 50),
        After(3, 7),
        Exp(100, 1000),
        Exp(300, 200),
    ]
}

/// What the strategy promises about the recorded attempts of `f`; `ok` is the
/// number of the successful attempt, if any, `fatal` of a fatal one.
fn judge(s: RetryStrategyC, o: &Obs, traced: bool) -> Result<(), String> {
    let n = o.starts.len();
    let last = *o.outs.last().ok_or("never attempted")?;
    for i in 0..n - 1 {
        ensure!(
            o.outs[i] == Out::Err,
            "attempt {} came after {:?}",
            i + 2,
            o.outs[i]
        );
    }
    match s {
        RetryStrategyC::Immediate(m) | RetryStrategyC::After(m, _) => {
            ensure!(
                n <= m as usize + 1,
                "{n} attempts with a retry bound of {m}"
            );
            if last == Out::Err {
                ensure!(
                    n == m as usize + 1,
                    "gave up after {n} attempts with a retry bound of {m}"
                );
            }
            if let RetryStrategyC::After(_, ms) = s {
                for i in 1..n {
                    let gap = o.starts[i] - o.ends[i - 1];
                    ensure!(
                        gap >= ms * 1_000_000,
                        "attempt {} came {} us after the failure before, declared delay {ms} ms",
                        i + 1,
                        gap / 1000
                    );
                }
            }
        }
        RetryStrategyC::Exp(min, max) => {
            let t0 = o.starts[0];
            for i in 1..n {
                let gap = o.starts[i] - o.ends[i - 1];
                ensure!(
                    gap >= min * 500_000,
                    "attempt {} came {} us after the failure before, minimal delay {min} ms",
                    i + 1,
                    gap / 1000
                );
                ensure!(
                    o.starts[i] - t0 <= max * 1_000_000,
                    "attempt {} started {} ms after the first, maximal elapsed time {max} ms",
                    i + 1,
                    (o.starts[i] - t0) / 1_000_000
                );
            }
            if last == Out::Err {
                let longest = (min as f64) * 1.5f64.powi(n as i32 - 1) * 1.5 * 1e6 + 2e6;
                let el = (o.ends[n - 1] - t0) as f64;
                ensure!(
                    el + longest > max as f64 * 1e6,
                    "gave up after {n} attempts and {} ms of {max} ms",
                    el / 1e6
                );
            }
        }
    }
    if traced {
        let want: Vec<String> = (0..n - 1).map(|i| format!("attempt {i}")).collect();
        ensure!(
            o.traced == want,
            "tracer saw {:?}, retried failures are {want:?}",
            o.traced
        );
    }
    Ok(())
}

fn attempt(
    obs: &Rc<RefCell<Obs>>,
    with_fatal: bool,
    dur_ms: &[u64],
) -> impl std::future::Future<Output = (usize, Out)> {
    let obs = obs.clone();
    let d = dur_ms.to_vec();
    async move {
        let i = {
            let mut o = obs.borrow_mut();
            o.starts.push(mcrt::now_ns());
            o.starts.len() - 1
        };
        let t = d[choose(d.len())];
        if t > 0 {
            mcrt::Sleep::new(Duration::from_millis(t)).await;
        }
        // Attempts far beyond every bound succeed, to keep executions finite.
        let c = if i > 9 {
            Out::Ok
        } else {
            match choose(if with_fatal { 4 } else { 2 }) {
                0 => Out::Err,
                1 => Out::Ok,
                2 => Out::Fatal(FatalC::Terminate),
                _ => Out::Fatal(FatalC::Ignore),
            }
        };
        let mut o = obs.borrow_mut();
        o.ends.push(mcrt::now_ns());
        o.outs.push(c);
        (i, c)
    }
}

/// `RetryStrategy::retry[_trace]` on a plain function.
fn plain(traced: bool, durs: &'static [u64], only: usize) -> Result<String, String> {
    let ss = strategies();
    let s = ss[only];
    let obs: Rc<RefCell<Obs>> = Default::default();
    let strat: RetryStrategy = s.get();
    let o2 = obs.clone();
    let f = || {
        let a = attempt(&o2, false, durs);
        async move {
            let (i, c) = a.await;
            match c {
                Out::Ok => Ok(1000 + i),
                _ => Err(format!("attempt {i}")),
            }
        }
    };
    let o3 = obs.clone();
    let res = mcrt::block_on(async {
        if traced {
            strat
                .retry_trace(f, |e: String| o3.borrow_mut().traced.push(e))
                .await
        } else {
            strat.retry(f).await
        }
    });
    let o = obs.borrow();
    judge(s, &o, traced)?;
    let n = o.starts.len();
    let want = if o.outs[n - 1] == Out::Ok {
        Ok(1000 + n - 1)
    } else {
        Err(format!("attempt {}", n - 1))
    };
    ensure!(res == want, "returned {res:?}, expected {want:?}");
    Ok(format!("{n} attempts {:?}", o.outs[n - 1]))
}

/// `OperationError::retry[_trace]`, where attempts may fail transiently (with
/// another declared strategy) or for good.
fn operation(traced: bool, durs: &'static [u64], only: usize, full: bool) -> Result<String, String> {
    let s = strategies()[only];
    let fs = [FatalC::Terminate, FatalC::Ignore][choose(2)];
    let obs: Rc<RefCell<Obs>> = Default::default();
    let via_from = choose(2) == 1;
    let te = if via_from {
        TransientError::from_anyhow(anyhow::anyhow!("first"), s.get(), fs.get())
    } else {
        TransientError::from_str("first", s.get(), fs.get())
    };
    let first: OperationError = te.into();
    let o2 = obs.clone();
    let f = || {
        let a = attempt(&o2, full, durs);
        async move {
            let (i, c) = a.await;
            match c {
                Out::Ok => Ok(1000 + i),
                Out::Err => Err(TransientError::from_str(
                    &format!("attempt {i}"),
                    // What a later attempt declares does not matter.
                    RetryStrategyC::Immediate(5).get(),
                    match fs {
                        FatalC::Terminate => FatalStrategy::Ignore,
                        FatalC::Ignore => FatalStrategy::Terminate,
                    },
                )
                .into()),
                Out::Fatal(x) => {
                    Err(FatalError::from_str(&format!("fatal {i}"), x.get()).into())
                }
            }
        }
    };
    let o3 = obs.clone();
    let res: Result<usize, OperationError> = mcrt::block_on(async {
        if traced {
            first
                .retry_trace(f, |e: OperationError| {
                    let m = e.as_err().to_string();
                    o3.borrow_mut().traced.push(m)
                })
                .await
        } else {
            first.retry(f).await
        }
    });
    let o = obs.borrow();
    judge(s, &o, traced)?;
    let n = o.starts.len();
    let name = |s: FatalStrategy| match s {
        FatalStrategy::Terminate => "Terminate",
        FatalStrategy::Ignore => "Ignore",
    };
    let got = match &res {
        Ok(v) => format!("ok {v}"),
        Err(OperationError::Transient { err, .. }) => format!("transient {err}"),
        Err(OperationError::Fatal { err, strategy }) => format!("{err} / {}", name(*strategy)),
    };
    let want = match o.outs[n - 1] {
        Out::Ok => format!("ok {}", 1000 + n - 1),
        Out::Err => format!("attempt {} / {}", n - 1, name(fs.get())),
        Out::Fatal(x) => format!("fatal {} / {}", n - 1, name(x.get())),
    };
    ensure!(got == want, "returned {got}, expected {want}");
    Ok(format!("{n} attempts: {want}"))
}

/// A fatal error is never retried at all.
fn fatal_first() -> Result<String, String> {
    let fs = [FatalC::Terminate, FatalC::Ignore][choose(2)];
    let traced = choose(2) == 1;
    let calls = Rc::new(RefCell::new(0));
    let c2 = calls.clone();
    let e: OperationError = FatalError::from_str("broken", fs.get()).into();
    let f = || {
        *c2.borrow_mut() += 1;
        async { Ok::<u32, OperationError>(1) }
    };
    let mut traces = 0;
    let tr = RefCell::new(&mut traces);
    let res = mcrt::block_on(async {
        if traced {
            e.retry_trace(f, |_| **tr.borrow_mut() += 1).await
        } else {
            e.retry(f).await
        }
    });
    ensure!(*calls.borrow() == 0, "a fatal error was retried");
    match res {
        Err(OperationError::Fatal { err, strategy }) => {
            ensure!(err.to_string() == "broken", "error changed to {err}");
            ensure!(
                matches!(
                    (strategy, fs),
                    (FatalStrategy::Terminate, FatalC::Terminate)
                        | (FatalStrategy::Ignore, FatalC::Ignore)
                ),
                "strategy changed"
            );
        }
        r => return Err(format!("returned {r:?}")),
    }
    ensure!(traces == 0, "a fatal error was reported as retried");
    // Conversions keep error and strategy.
    for fs in [FatalC::Terminate, FatalC::Ignore] {
        let t: OperationError =
            TransientError::from_str("x", RetryStrategyC::Immediate(1).get(), fs.get()).into();
        let f = t.into_fatal();
        let ok = matches!(
            (&f, fs),
            (OperationError::Fatal { strategy: FatalStrategy::Terminate, .. }, FatalC::Terminate)
                | (OperationError::Fatal { strategy: FatalStrategy::Ignore, .. }, FatalC::Ignore)
        );
        ensure!(ok && f.as_err().to_string() == "x", "into_fatal gave {f:?}");
        ensure!(
            matches!(
                (f.fatal_strategy(), fs),
                (FatalStrategy::Terminate, FatalC::Terminate)
                    | (FatalStrategy::Ignore, FatalC::Ignore)
            ),
            "fatal_strategy of {f:?}"
        );
    }
    Ok("not retried".into())
}

pub fn scenarios(t: Tier) -> Vec<Scen> {
    let mut v = vec![Scen::new("fatal-first", dev(0), fatal_first)];
    let bound = t.pick(1, 2);
    for only in 0..strategies().len() {
        let s = strategies()[only];
        let exp = matches!(s, RetryStrategyC::Exp(..));
        for traced in [false, true] {
            let what = "all outcomes and durations of successive attempts, all random backoff factors within the bound";
            let cfg = if exp { dev(bound) } else { dev(0) };
            let durs: &'static [u64] = if exp { &[0, 700] } else { &[0, 30] };
            v.push(
                Scen::new(format!("strategy-{s:?}-trace-{traced}"), cfg.clone(), move || {
                    plain(traced, durs, only)
                })
                .what(what),
            );
            v.push(
                Scen::new(format!("operation-{s:?}-trace-{traced}"), cfg, move || {
                    operation(traced, durs, only, true)
                })
                .what(what),
            );
        }
    }
    v
}
