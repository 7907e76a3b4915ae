//! Directives over the AMQP backend, with separate worker processes.
use std::sync::Arc;

use paladin::directive::{Directive, IndexedStream, Literal};

use super::p02::{cat_of, letters};
use crate::common::*;
use crate::ensure;
use crate::ops::*;
use crate::rt::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum D {
    Map(usize),
    Fold(usize),
    Literal,
    /// map, then map, then fold of the texts.
    Chain(usize),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fail {
    No,
    Fatal,
    Panic,
    Exhausted,
    /// An ignored failure of one input of a map.
    Ignored,
}

#[derive(Clone, Copy)]
struct C {
    d: D,
    workers: usize,
    /// Workers start at enumerated moments instead of before the leader.
    late: bool,
    ser: Ser,
    gated: bool,
    fail: Fail,
    /// A second directive runs afterwards on the same deployment.
    again: bool,
}

fn nums(n: usize) -> Vec<u64> {
    [4, 9, 4, 1].into_iter().cycle().take(n).collect()
}

async fn eval(d: D, rt: &paladin::runtime::Runtime, seen: Option<SharedSeen<u64>>) -> anyhow::Result<String> {
    Ok(match d {
        D::Map(n) => {
            let s = IndexedStream::from(nums(n)).map(&INC1).run(rt).await?;
            let seen = seen.unwrap_or_default();
            read(s, seen.clone()).await;
            let mut s = seen.lock().unwrap();
            if let Some(e) = &s.err {
                anyhow::bail!("{e}");
            }
            s.items.sort();
            format!("{:?}", s.items)
        }
        D::Fold(n) => IndexedStream::from(letters(n)).fold(&CAT).run(rt).await?,
        D::Literal => Literal(4u64).map(&INC1).run(rt).await?.0.to_string(),
        D::Chain(n) => {
            Directive::map(IndexedStream::from(nums(n)).map(&INC1), &SHOW)
                .fold(&CAT)
                .run(rt)
                .await?
        }
    })
}

fn expected(d: D, fail: Fail) -> String {
    match d {
        D::Map(n) => {
            let mut v: Vec<_> = nums(n).into_iter().map(|x| 10 * x + 1).enumerate().collect();
            if fail == Fail::Ignored {
                v.retain(|(i, _)| nums(n)[*i] != 9);
            }
            format!("{v:?}")
        }
        D::Fold(n) => cat_of(&letters(n)),
        D::Literal => "41".into(),
        D::Chain(n) => nums(n).into_iter().map(|x| format!("<{}>", 10 * x + 1)).collect(),
    }
}

struct Starter {
    ser: Ser,
    left: std::cell::Cell<usize>,
    ends: std::cell::RefCell<Vec<(Slot<()>, mcrt::JoinHandle<()>)>>,
}
impl Source for Starter {
    fn more(&self) -> bool {
        self.left.get() > 0
    }
    fn go(&self) {
        self.left.set(self.left.get() - 1);
        let end: Slot<()> = Default::default();
        let h = amqp_worker(&format!("worker{}", self.left.get()), self.ser, end.clone());
        self.ends.borrow_mut().push((end, h));
    }
}

fn body(c: C) -> Result<String, String> {
    set_gated(c.gated);
    let bad = match c.d {
        D::Map(n) => format!("inc1({})", nums(4)[n.clamp(1, 2) - 1]),
        D::Literal => "inc1(4)".into(),
        D::Fold(_) => "a+b".into(),
        D::Chain(_) => "show(41)".into(),
    };
    let immediate = |n, f| Fate::Transient(RetryStrategyC::Immediate(n), f);
    let wanted = match c.fail {
        Fail::No | Fail::Ignored => None,
        Fail::Fatal => Some(format!("fatal {bad} #0")),
        Fail::Panic => Some("panicked".into()),
        Fail::Exhausted => Some(format!("transient {bad} #")),
    };
    match c.fail {
        Fail::No => {}
        Fail::Fatal => plan(bad.clone(), vec![Fate::Fatal(FatalC::Terminate)]),
        Fail::Panic => plan(bad.clone(), vec![Fate::Panic]),
        Fail::Exhausted => plan(bad.clone(), vec![immediate(1, FatalC::Terminate)]),
        Fail::Ignored => plan("inc1(9)", vec![Fate::Fatal(FatalC::Ignore)]),
    }
    let starter = Starter {
        ser: c.ser,
        left: std::cell::Cell::new(c.workers),
        ends: Default::default(),
    };
    if !c.late {
        while starter.more() {
            starter.go();
        }
        mcrt::quiesce();
    }
    let out: Slot<String> = Default::default();
    let again: Slot<String> = Default::default();
    let seen: SharedSeen<u64> = Default::default();
    let (o2, o3, s2) = (out.clone(), again.clone(), seen.clone());
    let leader = mcrt::task("leader", async move {
        let rt = match amqp_leader(c.ser).await {
            Ok(r) => Arc::new(r),
            Err(e) => return o2.put(Err(e)),
        };
        o2.put(eval(c.d, &rt, Some(s2)).await);
        if c.again {
            o3.put(eval(D::Map(1), &rt, None).await);
            o3.is_set();
        }
    });
    mcrt::start_exploring();
    // An ignored failure leaves its map waiting for ever.
    let sofar = {
        let (out, seen, leader) = (&out, &seen, &leader);
        move || match c.fail {
            Fail::Ignored => out.is_set() || seen.lock().unwrap().items.len() == nums_of(c.d) - 1,
            _ => out.is_set() && leader.is_finished(),
        }
    };
    drive(Drive::default(), &[&starter], &sofar, "the directive")?;
    mcrt::quiesce();
    for (t, m) in mcrt::panics() {
        ensure!(m.contains("planned panic"), "a task panicked: {m} ({t})");
    }
    if c.fail == Fail::Ignored {
        ensure!(out.get().is_none(), "the map ended: {:?}", out.get());
        let mut s = seen.lock().unwrap();
        s.items.sort();
        ensure!(
            format!("{:?}", s.items) == expected(c.d, c.fail),
            "the map yielded {:?}, expected {}",
            s.items,
            expected(c.d, c.fail)
        );
    } else {
        match (&wanted, out.get().unwrap()) {
            (None, Ok(v)) => ensure!(
                v == expected(c.d, c.fail),
                "{:?} returned {v}, expected {}",
                c.d,
                expected(c.d, c.fail)
            ),
            (None, Err(e)) => return Err(format!("{:?} failed: {e}", c.d)),
            (Some(w), Ok(v)) => return Err(format!("{:?} returned {v} although {w}", c.d)),
            (Some(w), Err(e)) => ensure!(e.contains(w.as_str()), "{:?} failed with {e}, expected {w}", c.d),
        }
        if c.again {
            let v = again.value("a second directive")?;
            ensure!(v == expected(D::Map(1), Fail::No), "a second directive returned {v}");
        }
    }
    if wanted.is_none() {
        for (end, _) in starter.ends.borrow().iter() {
            ensure!(!end.is_set(), "a worker left: {:?}", end.get());
        }
    }
    let s = seen.lock().unwrap();
    Ok(format!("{:?} {:?}", out.get(), s.items.iter().map(|i| i.0).collect::<Vec<_>>()))
}
fn nums_of(d: D) -> usize {
    match d {
        D::Map(n) | D::Fold(n) | D::Chain(n) => n,
        D::Literal => 1,
    }
}

pub fn scenarios(t: Tier) -> Vec<Scen> {
    let mut v = vec![];
    let mut add = |name: String, cfg, c: C, w: f64, what: &str| {
        v.push(Scen::new(name, cfg, move || body(c)).weight(w).what(what))
    };
    let base = C {
        d: D::Literal,
        workers: 1,
        late: false,
        ser: Ser::Postcard,
        gated: true,
        fail: Fail::No,
        again: false,
    };
    let orders = "all completion orders and moments at which workers start";
    let schedules = "all schedules within the deviation bound of leader, workers and broker round trips";
    let ds = [
        D::Literal,
        D::Map(0),
        D::Map(1),
        D::Map(2),
        D::Map(t.pick(3, 4)),
        D::Fold(0),
        D::Fold(1),
        D::Fold(2),
        D::Fold(t.pick(3, 4)),
        D::Chain(2),
        D::Chain(t.pick(2, 3)),
    ];
    for (k, d) in ds.into_iter().enumerate() {
        if k > 0 && ds[k - 1] == d {
            continue;
        }
        for workers in 1..=2 {
            for late in [false, true] {
                for ser in SERS {
                    let c = C { d, workers, late, ser, ..base };
                    add(format!("orders-{d:?}-workers-{workers}-late-{late}-{ser:?}"), dev(0), c, 1.0, orders);
                    if nums_of(d) <= 2 && ser == Ser::Postcard {
                        let b = t.pick(2, 3);
                        add(
                            format!("schedules-{d:?}-workers-{workers}-late-{late}"),
                            deferred(dev(b)),
                            C { gated: false, ..c },
                            2.0,
                            schedules,
                        );
                    }
                }
                add(
                    format!("again-{d:?}-workers-{workers}-late-{late}"),
                    dev(0),
                    C { d, workers, late, again: true, ..base },
                    1.0,
                    "as orders, and a second directive afterwards",
                );
            }
        }
    }
    for fail in [Fail::Fatal, Fail::Panic, Fail::Exhausted] {
        for d in [D::Literal, D::Map(2), D::Fold(2), D::Fold(3), D::Chain(2)] {
            if d == D::Fold(3) {
                continue; // the failing combination need not take place
            }
            for workers in 1..=2 {
                for late in [false, true] {
                    let c = C { d, workers, late, fail, ..base };
                    add(format!("{fail:?}-{d:?}-workers-{workers}-late-{late}"), dev(0), c, 1.0, orders);
                    if d == D::Literal || d == D::Fold(2) {
                        add(
                            format!("{fail:?}-{d:?}-workers-{workers}-late-{late}-schedules"),
                            deferred(dev(t.pick(2, 3))),
                            C { gated: false, ..c },
                            1.0,
                            schedules,
                        );
                    }
                }
            }
        }
    }
    for d in [D::Map(t.pick(150, 600)), D::Fold(t.pick(60, 200)), D::Chain(t.pick(60, 200))] {
        for workers in [1, 8] {
            for late in [false, true] {
                let c = C { d, workers, late, gated: false, ..base };
                add(format!("many-{d:?}-workers-{workers}-late-{late}"), long(dev(0)), c, 1.0, "a long directive, by the default schedule");
            }
        }
    }
    for workers in 1..=2 {
        for late in [false, true] {
            add(
                format!("ignored-workers-{workers}-late-{late}"),
                dev(0),
                C { d: D::Map(3), workers, late, fail: Fail::Ignored, ..base },
                1.0,
                orders,
            );
        }
    }
    v
}
