//! Operations that fail for good, and inputs that fail.
use paladin::directive::{Directive, IndexedStream, Literal};

use super::p02::{cat_of, letters};
use crate::common::*;
use crate::ensure;
use crate::ops::*;
use crate::rt::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    Fatal,
    Panic,
    /// Retries used up.
    Exhausted,
    /// Delayed retries used up.
    ExhaustedLater,
    /// A fatal error on a retry.
    FatalOnRetry,
    /// Not a failure: succeeds on a retry.
    Recovers,
}
const HOWS: [How; 6] = [
    How::Fatal,
    How::Panic,
    How::Exhausted,
    How::ExhaustedLater,
    How::FatalOnRetry,
    How::Recovers,
];
impl How {
    fn plan(self) -> Vec<Fate> {
        use FatalC::*;
        let imm = |n, f| Fate::Transient(RetryStrategyC::Immediate(n), f);
        match self {
            How::Fatal => vec![Fate::Fatal(Terminate)],
            How::Panic => vec![Fate::Panic],
            How::Exhausted => vec![imm(2, Terminate)],
            How::ExhaustedLater => vec![Fate::Transient(RetryStrategyC::After(1, 700), Terminate)],
            // The strategy of the failure that is retried is not the fatal one's.
            How::FatalOnRetry => vec![imm(3, Ignore), Fate::Fatal(Terminate)],
            How::Recovers => vec![imm(2, Terminate), Fate::Ok],
        }
    }
    fn fails(self) -> bool {
        self != How::Recovers
    }
    /// The text the directive's error must carry.
    fn message(self, key: &str) -> String {
        match self {
            How::Fatal => format!("fatal {key} #0"),
            How::Panic => "panicked".into(),
            // The last attempt's.
            How::Exhausted | How::ExhaustedLater => {
                format!("transient {key} #{}", runs_of(key).saturating_sub(1))
            }
            How::FatalOnRetry => format!("fatal {key} #1"),
            How::Recovers => unreachable!(),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum D {
    Map,
    Fold,
    Literal,
    /// A map whose result is mapped by the failing operation.
    Chain,
}

#[derive(Clone, Copy)]
struct C {
    d: D,
    n: usize,
    how: How,
    /// Bit set of failing inputs (combinations for folds).
    bad: u32,
    /// The input fails before this item.
    input_error: Option<usize>,
    workers: usize,
    ser: Ser,
    gated: bool,
    feed: bool,
}

fn unplanned_panics() -> Result<(), String> {
    for (t, m) in mcrt::panics() {
        ensure!(m.contains("planned panic"), "a task panicked: {m} ({t})");
    }
    Ok(())
}

/// All combinations a fold over `v` may execute.
fn combinations(v: &[String]) -> Vec<String> {
    let mut out = vec![];
    for i in 0..v.len() {
        for j in i + 1..v.len() {
            for k in j + 1..=v.len() {
                let key = format!("{}+{}", v[i..j].concat(), v[j..k].concat());
                if !out.contains(&key) {
                    out.push(key);
                }
            }
        }
    }
    out
}

fn body(c: C) -> Result<String, String> {
    set_gated(c.gated);
    let rt = runtime(c.workers, c.ser);
    let nums: Vec<u64> = (0..c.n as u64).map(|i| 3 + i).collect();
    let text: Vec<String> = letters(c.n).into_iter().map(|s| if s == "a" { "a".into() } else { s }).collect();
    let all_keys: Vec<String> = match c.d {
        D::Map => nums.iter().map(|x| format!("inc1({x})")).collect(),
        D::Chain => nums.iter().map(|x| format!("show({})", 10 * x + 1)).collect(),
        D::Literal => vec!["inc1(3)".into()],
        D::Fold => combinations(&text),
    };
    let bad_keys: Vec<String> = all_keys
        .iter()
        .enumerate()
        .filter(|(i, _)| c.bad >> i & 1 == 1)
        .map(|(_, k)| k.clone())
        .collect();
    for k in &bad_keys {
        plan(k.clone(), c.how.plan());
    }
    let seen: SharedSeen<String> = Default::default();
    let out: Slot<String> = Default::default();
    let (s2, o2, r2) = (seen.clone(), out.clone(), rt.clone());
    let script = |f: &dyn Fn(usize) -> String| {
        let mut v: Vec<anyhow::Result<(usize, String)>> = (0..c.n).map(|i| Ok((i, f(i)))).collect();
        if let Some(at) = c.input_error {
            v.insert(at, Err(anyhow::anyhow!("input error {at}")));
        }
        v
    };
    let (feed, stream) = Feed::new(script(&|i| match c.d {
        D::Fold => text[i].clone(),
        _ => nums[i].to_string(),
    }));
    if !c.feed {
        feed.advance_all();
    }
    let leader = mcrt::task("leader", async move {
        use futures::TryStreamExt;
        let numbers = |s: FeedStream<anyhow::Result<(usize, String)>>| {
            IndexedStream::new(s.map_ok(|(i, x)| (i, x.parse::<u64>().unwrap())))
        };
        match c.d {
            D::Map => match numbers(stream).map(&INC1).run(&r2).await {
                Ok(s) => read(IndexedStream::new(s.map_ok(|(i, x)| (i, x.to_string()))), s2).await,
                Err(e) => s2.lock().unwrap().err = Some(e.to_string()),
            },
            D::Chain => match Directive::map(numbers(stream).map(&INC1), &SHOW).run(&r2).await {
                Ok(s) => read(s, s2).await,
                Err(e) => s2.lock().unwrap().err = Some(e.to_string()),
            },
            D::Fold => o2.put(IndexedStream::new(stream).fold(&CAT).run(&r2).await),
            D::Literal => o2.put(Literal(3u64).map(&INC1).run(&r2).await.map(|l| l.0.to_string())),
        }
    });
    mcrt::start_exploring();
    drive(
        Drive::default(),
        &[&feed],
        &|| leader.is_finished(),
        "the failing directive",
    )?;
    unplanned_panics()?;
    // Failures that took place. An aborted execution need not have reported.
    let took: Vec<&String> = bad_keys.iter().filter(|k| c.how.fails() && runs_of(k) > 0).collect();
    let mut wanted: Vec<String> = took.iter().map(|k| c.how.message(k)).collect();
    if let Some(at) = c.input_error {
        wanted.push(format!("input error {at}"));
    }
    let must_fail = !wanted.is_empty();
    let err: Option<String>;
    match c.d {
        D::Map | D::Chain => {
            let s = seen.lock().unwrap();
            ensure!(s.over(), "the stream is still open");
            ensure!(!(must_fail && s.ended), "the map ended as if it had succeeded although {wanted:?}");
            let value = |i: usize| {
                let y = 10 * nums[i] + 1;
                if c.d == D::Map {
                    y.to_string()
                } else {
                    format!("<{y}>")
                }
            };
            let mut used = vec![];
            for (i, v) in &s.items {
                ensure!(*i < c.n && *v == value(*i), "the map yielded ({i}, {v})");
                ensure!(!used.contains(i), "the map yielded index {i} twice");
                let failing = c.how.fails() && bad_keys.contains(&all_keys[*i]);
                ensure!(!failing, "the map yielded a result for the failing input {i}");
                used.push(*i);
            }
            ensure!(must_fail || used.len() == c.n, "the map ended with {} of {} items", used.len(), c.n);
            err = s.err.clone();
        }
        D::Fold | D::Literal => {
            let r = out.get().ok_or("the directive has not returned")?;
            let want = if c.d == D::Fold { cat_of(&text) } else { "31".into() };
            if let Ok(v) = &r {
                ensure!(!must_fail, "the directive returned {v:?} although {wanted:?}");
                ensure!(*v == want, "the directive returned {v:?}, expected {want:?}");
            }
            err = r.err();
        }
    }
    match err {
        None => Ok(format!("success, failures {took:?}")),
        Some(e) => {
            ensure!(must_fail, "the directive failed without a failure: {e}");
            ensure!(
                wanted.iter().any(|w| e.contains(w.as_str())),
                "the directive failed with {e:?}, the failures were {wanted:?}"
            );
            Ok(e)
        }
    }
}

pub fn scenarios(t: Tier) -> Vec<Scen> {
    let mut v = vec![];
    let mut add = |name: String, cfg, c: C, w: f64, what: &str| {
        v.push(Scen::new(name, cfg, move || body(c)).weight(w).what(what))
    };
    let base = C {
        d: D::Map,
        n: 1,
        how: How::Fatal,
        bad: 1,
        input_error: None,
        workers: 1,
        ser: Ser::Postcard,
        gated: true,
        feed: false,
    };
    let orders = "every set of failing executions, all orders of input arrivals and completions";
    let schedules = "every set of failing executions, all schedules within the deviation bound";
    for how in HOWS {
        for ser in SERS {
            for workers in 1..=2 {
                let c = C { d: D::Literal, how, ser, workers, ..base };
                add(format!("literal-{how:?}-{ser:?}-workers-{workers}"), dev(0), c, 1.0, orders);
                if ser == Ser::Postcard {
                    add(
                        format!("literal-{how:?}-workers-{workers}-schedules"),
                        deferred(dev(t.pick(2, 3))),
                        C { gated: false, ..c },
                        2.0,
                        schedules,
                    );
                }
            }
        }
        for d in [D::Map, D::Chain] {
            for n in 1..=t.pick(3, 4) {
                for bad in 1..1u32 << n {
                    for workers in 1..=t.pick(2, 3) {
                        for feed in [false, true] {
                            if d == D::Chain && (bad.count_ones() > 1 || n > 2 && !t.thorough()) {
                                continue;
                            }
                            add(
                                format!("{d:?}-{n}-{how:?}-bad-{bad:b}-workers-{workers}-feed-{feed}"),
                                dev(0),
                                C { d, n, how, bad, workers, feed, ..base },
                                1.0,
                                orders,
                            );
                        }
                        if n <= 2 && d == D::Map || n == 1 {
                            add(
                                format!("{d:?}-{n}-{how:?}-bad-{bad:b}-workers-{workers}-schedules"),
                                deferred(dev(t.pick(if n == 1 || workers == 1 { 2 } else { 1 }, if n == 1 { 3 } else { 2 }))),
                                C { d, n, how, bad, workers, gated: false, ..base },
                                2.0,
                                schedules,
                            );
                        }
                    }
                }
            }
        }
        for n in 2..=t.pick(3, 4) {
            let k = combinations(&letters(n)).len();
            for bad in 1..1u32 << k {
                // All sets for short folds, single failures and all-fail for longer ones.
                if k > 5 && bad.count_ones() > 1 && bad != (1 << k) - 1 {
                    continue;
                }
                for workers in 1..=2 {
                    for feed in [false, true] {
                        add(
                            format!("fold-{n}-{how:?}-bad-{bad:b}-workers-{workers}-feed-{feed}"),
                            dev(0),
                            C { d: D::Fold, n, how, bad, workers, feed, ..base },
                            1.0,
                            orders,
                        );
                    }
                    if n == 2 || bad == (1 << k) - 1 {
                        add(
                            format!("fold-{n}-{how:?}-bad-{bad:b}-workers-{workers}-schedules"),
                            deferred(dev(t.pick(if n == 2 { 2 } else { 1 }, if n == 2 { 3 } else { 2 }))),
                            C { d: D::Fold, n, how, bad, workers, gated: false, ..base },
                            2.0,
                            schedules,
                        );
                    }
                }
            }
        }
    }
    for d in [D::Map, D::Chain, D::Fold] {
        for n in 0..=t.pick(3, 4) {
            for at in 0..=n {
                for workers in 1..=2 {
                    for feed in [false, true] {
                        add(
                            format!("{d:?}-{n}-input-error-{at}-workers-{workers}-feed-{feed}"),
                            dev(0),
                            C { d, n, bad: 0, input_error: Some(at), workers, feed, ..base },
                            1.0,
                            "all orders of input arrivals and completions, the input fails at each position",
                        );
                    }
                    if n <= 2 {
                        add(
                            format!("{d:?}-{n}-input-error-{at}-workers-{workers}-schedules"),
                            deferred(dev(t.pick(if workers == 1 { 2 } else { 1 }, if n < 2 { 3 } else { 2 }))),
                            C { d, n, bad: 0, input_error: Some(at), workers, gated: false, ..base },
                            2.0,
                            "all schedules within the deviation bound, the input fails at each position",
                        );
                    }
                }
            }
            // A failing input and a failing operation.
            if n == 2 {
                for at in 0..=n {
                    add(
                        format!("{d:?}-{n}-input-error-{at}-and-failure"),
                        dev(0),
                        C { d, n, bad: 1, input_error: Some(at), workers: 2, feed: true, ..base },
                        1.0,
                        orders,
                    );
                }
            }
        }
    }
    over_amqp(&mut v, |s| {
        if s.name.contains("Cbor") {
            return None;
        }
        Some(t.pick(1, 2))
    });
    v
}
