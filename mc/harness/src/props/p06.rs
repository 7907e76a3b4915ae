//! Failures that are to be ignored.
use paladin::directive::{Directive, IndexedStream};

use crate::common::*;
use crate::ensure;
use crate::ops::*;
use crate::rt::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    Fatal,
    Exhausted,
    ExhaustedLater,
    /// A fatal error to ignore on the retry of a failure that is not.
    FatalOnRetry,
}
const HOWS: [How; 4] = [How::Fatal, How::Exhausted, How::ExhaustedLater, How::FatalOnRetry];
impl How {
    fn plan(self) -> Vec<Fate> {
        use FatalC::*;
        match self {
            How::Fatal => vec![Fate::Fatal(Ignore)],
            How::Exhausted => vec![Fate::Transient(RetryStrategyC::Immediate(1), Ignore)],
            How::ExhaustedLater => vec![Fate::Transient(RetryStrategyC::After(1, 300), Ignore)],
            How::FatalOnRetry => vec![
                Fate::Transient(RetryStrategyC::Immediate(2), Terminate),
                Fate::Fatal(Ignore),
            ],
        }
    }
}

#[derive(Clone, Copy)]
struct C {
    n: usize,
    how: How,
    bad: u32,
    workers: usize,
    gated: bool,
    feed: bool,
    /// Another directive runs at the same time.
    other: bool,
    deep: bool,
}

fn body(c: C) -> Result<String, String> {
    set_gated(c.gated);
    let rt = runtime(c.workers, Ser::Postcard);
    let nums: Vec<u64> = (0..c.n as u64).map(|i| 3 + i).collect();
    let is_bad = |i: usize| c.bad >> i & 1 == 1;
    let key = |i: usize| format!("inc1({})", nums[i]);
    for i in 0..c.n {
        if is_bad(i) {
            plan(key(i), c.how.plan());
        }
    }
    let (feed, stream) = Feed::new(
        nums.iter().copied().enumerate().map(Ok).collect::<Vec<anyhow::Result<(usize, u64)>>>(),
    );
    if !c.feed {
        feed.advance_all();
    }
    let seen: SharedSeen<u64> = Default::default();
    let (s2, r2) = (seen.clone(), rt.clone());
    let leader = mcrt::task("leader", async move {
        match IndexedStream::new(stream).map(&INC1).run(&r2).await {
            Ok(s) => read(s, s2).await,
            Err(e) => s2.lock().unwrap().err = Some(e.to_string()),
        }
    });
    let other: SharedSeen<String> = Default::default();
    let lo = c.other.then(|| {
        let (s2, r2) = (other.clone(), rt.clone());
        mcrt::task("other", async move {
            match IndexedStream::from(vec![1u64, 2]).map(&SHOW).run(&r2).await {
                Ok(s) => read(s, s2).await,
                Err(e) => s2.lock().unwrap().err = Some(e.to_string()),
            }
        })
    });
    mcrt::start_exploring();
    let good = c.n - c.bad.count_ones() as usize;
    // Until nothing happens any more. A map with ignored failures stays open.
    drive(
        Drive::default(),
        &[&feed],
        &|| {
            feed.left() == 0
                && seen.lock().unwrap().items.len() >= good
                && lo.as_ref().map(|l| l.is_finished()).unwrap_or(true)
                && mcrt::gates_waiting().is_empty()
        },
        "a task beside an ignored failure",
    )?;
    // Retries of ignored failures that are still to come.
    for _ in 0..3 * c.n {
        mcrt::sleep_ns(secs(2));
        settle_all(&|| mcrt::gates_waiting().is_empty(), "the remaining attempts")?;
    }
    {
        let s = seen.lock().unwrap();
        ensure!(s.err.is_none(), "the map failed: {:?}", s.err);
        let want: Vec<(usize, u64)> = (0..c.n).filter(|i| !is_bad(*i)).map(|i| (i, 10 * nums[i] + 1)).collect();
        same_items(&s.items, &want)?;
        if c.bad == 0 {
            ensure!(s.ended, "the map did not end");
        }
    }
    for i in 0..c.n {
        let runs = runs_of(&key(i));
        ensure!(
            runs == 1 || is_bad(i) && runs > 1,
            "task {} was executed {runs} times",
            key(i)
        );
    }
    if c.other {
        let s = other.lock().unwrap();
        ensure!(s.err.is_none(), "another map failed: {:?}", s.err);
        ensure!(s.ended, "another map did not end");
        same_items(&s.items, &[(0, "<1>".to_string()), (1, "<2>".to_string())])?;
        for k in ["show(1)", "show(2)"] {
            ensure!(runs_of(k) == 1, "task {k} was executed {} times", runs_of(k));
        }
    }
    // Every worker still serves: as many concurrent tasks as there are workers.
    if !c.deep {
        mcrt::stop_exploring();
    }
    set_gated(true);
    let later: SharedSeen<u64> = Default::default();
    let (s2, r2, w) = (later.clone(), rt.clone(), c.workers as u64);
    let l2 = mcrt::task("later", async move {
        match IndexedStream::from((0..w).collect::<Vec<u64>>()).map(&INC2).run(&r2).await {
            Ok(s) => read(s, s2).await,
            Err(e) => s2.lock().unwrap().err = Some(e.to_string()),
        }
    });
    mcrt::quiesce();
    ensure!(
        mcrt::gates_waiting().len() == c.workers,
        "after ignored failures, {} of {} workers serve",
        mcrt::gates_waiting().len(),
        c.workers
    );
    settle_all(&|| l2.is_finished(), "a later map")?;
    no_panics()?;
    let s = later.lock().unwrap();
    ensure!(s.err.is_none(), "a later map failed: {:?}", s.err);
    let want: Vec<(usize, u64)> = (0..w as usize).map(|i| (i, 10 * i as u64 + 2)).collect();
    same_items(&s.items, &want)?;
    let order: Vec<usize> = seen.lock().unwrap().items.iter().map(|i| i.0).collect();
    drop(leader);
    Ok(format!("{order:?}"))
}

pub fn scenarios(t: Tier) -> Vec<Scen> {
    let mut v = vec![];
    let mut add = |name: String, cfg, c: C, w: f64, what: &str| {
        v.push(Scen::new(name, cfg, move || body(c)).weight(w).what(what))
    };
    for how in HOWS {
        for n in 1..=t.pick(3, 4) {
            for bad in 1..1u32 << n {
                for workers in 1..=t.pick(2, 3) {
                    for feed in [false, true] {
                        for other in [false, true] {
                            if other && (n > t.pick(2, 3) || feed) {
                                continue;
                            }
                            add(
                                format!("{n}-{how:?}-bad-{bad:b}-workers-{workers}-feed-{feed}-other-{other}"),
                                dev(0),
                                C { n, how, bad, workers, gated: true, feed, other, deep: true },
                                1.0,
                                "every set of ignored failures, all orders of input arrivals and completions",
                            );
                        }
                    }
                    if n <= 2 {
                        for other in [false, true] {
                            add(
                                format!("{n}-{how:?}-bad-{bad:b}-workers-{workers}-other-{other}-schedules"),
                                deferred(dev(t.pick(2, 3))),
                                C { n, how, bad, workers, gated: false, feed: false, other, deep: t.thorough() },
                                2.0,
                                "every set of ignored failures, all schedules within the deviation bound",
                            );
                        }
                    }
                }
            }
        }
    }
    over_amqp(&mut v, |s| {
        if s.name.contains("Cbor") {
            return None;
        }
        Some(t.pick(1, 2))
    });
    v
}
