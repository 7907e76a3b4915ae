//! Lost connections to the broker.
use std::{cell::Cell, sync::Arc};

use lapin::model::with;
use paladin::directive::{Directive, IndexedStream, Literal};

use super::p02::{cat_of, letters};
use crate::common::*;
use crate::ensure;
use crate::ops::*;
use crate::rt::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum D {
    Map(usize),
    Fold(usize),
    Literal,
    /// map, map, fold.
    Chain(usize),
    /// A mapped stream that is collected.
    Collect(usize),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Lose {
    /// The leader's connection, at an enumerated moment.
    Leader,
    /// Connections of workers (not all), at enumerated moments.
    Workers,
}

#[derive(Clone, Copy)]
struct C {
    d: D,
    workers: usize,
    lose: Lose,
    gated: bool,
    feed: bool,
}

fn lost(conn: usize) {
    mcrt::note(|| format!("== connection {conn} is lost"));
    for w in with(|w| w.kill_connection(conn)) {
        w.wake();
    }
}

fn nums(n: usize) -> Vec<u64> {
    [4, 9, 4, 1][..n].to_vec()
}

fn expected(d: D) -> String {
    let inc = |x: u64| 10 * x + 1;
    match d {
        D::Map(n) => format!("{:?}", nums(n).into_iter().map(inc).enumerate().collect::<Vec<_>>()),
        D::Collect(n) => format!("{:?}", nums(n).into_iter().map(inc).collect::<Vec<_>>()),
        D::Fold(n) => cat_of(&letters(n)),
        D::Literal => "41".into(),
        D::Chain(n) => cat_of(&nums(n).into_iter().map(|x| format!("<{}>", inc(x))).collect::<Vec<_>>()),
    }
}

fn body(c: C) -> Result<String, String> {
    set_gated(c.gated);
    let ends: Vec<Slot<()>> = (0..c.workers).map(|_| Slot::default()).collect();
    for i in 0..c.workers {
        amqp_worker(&format!("worker{i}"), Ser::Postcard, ends[i].clone());
        mcrt::quiesce();
    }
    ensure!(with(|w| w.conns.len()) == c.workers, "a worker uses {} connections", with(|w| w.conns.len()));
    let rt = Arc::new(mcrt::block_on(amqp_leader(Ser::Postcard)).expect("runtime"));
    let leader_conn = with(|w| w.conns.len()) - 1;
    let n = match c.d {
        D::Map(n) | D::Fold(n) | D::Chain(n) | D::Collect(n) => n,
        D::Literal => 0,
    };
    let (feed, stream) = Feed::new((0..n).map(|i| Ok(i)).collect::<Vec<anyhow::Result<usize>>>());
    if !c.feed {
        feed.advance_all();
    }
    let seen: SharedSeen<u64> = Default::default();
    let out: Slot<String> = Default::default();
    let (o2, s2) = (out.clone(), seen.clone());
    let leader = mcrt::task("leader", async move {
        use futures::TryStreamExt;
        let r = async {
            Ok(match c.d {
                D::Map(n) => {
                    let s = IndexedStream::new(stream.map_ok(move |i| (i, nums(n)[i])));
                    read(s.map(&INC1).run(&rt).await?, s2.clone()).await;
                    let s = s2.lock().unwrap();
                    if let Some(e) = &s.err {
                        anyhow::bail!("{e}");
                    }
                    let mut v = s.items.clone();
                    v.sort();
                    format!("{v:?}")
                }
                D::Collect(n) => {
                    let s = IndexedStream::new(stream.map_ok(move |i| (i, nums(n)[i])));
                    let v: Vec<u64> = s.map(&INC1).run(&rt).await?.into_values_sorted().await?.into_iter().collect();
                    format!("{v:?}")
                }
                D::Fold(n) => IndexedStream::new(stream.map_ok(move |i| (i, letters(n)[i].clone()))).fold(&CAT).run(&rt).await?,
                D::Literal => Literal(4u64).map(&INC1).run(&rt).await?.0.to_string(),
                D::Chain(n) => {
                    let s = IndexedStream::new(stream.map_ok(move |i| (i, nums(n)[i])));
                    Directive::map(s.map(&INC1), &SHOW).fold(&CAT).run(&rt).await?
                }
            })
        }
        .await;
        o2.put(r);
    });
    let fell = Cell::new(false);
    let act_leader = Act::new(|| {
        fell.set(true);
        lost(leader_conn)
    });
    let workers: Vec<Act> = (0..c.workers.saturating_sub(1)).map(|i| Act::new(move || lost(i))).collect();
    match c.lose {
        Lose::Leader => workers.iter().for_each(Act::rule_out),
        Lose::Workers => act_leader.rule_out(),
    }
    mcrt::start_exploring();
    if !c.gated && c.lose == Lose::Leader {
        // At any moment of the schedule.
        act_leader.rule_out();
        fell.set(true);
        mcrt::task("network", async move { lost(leader_conn) });
    }
    let anywhere = !c.gated && c.lose == Lose::Workers;
    if anywhere {
        // At any moment of the schedule. A loss between the end of an execution and the delivery
        // of its result may cost the result, or bring it twice.
        workers.iter().for_each(Act::rule_out);
        mcrt::task("network", async move { lost(0) });
    }
    let mut sources: Vec<&dyn Source> = vec![&feed, &act_leader];
    sources.extend(workers.iter().map(|w| w as &dyn Source));
    let r = drive(Drive::default(), &sources, &|| leader.is_finished(), "the directive");
    let delivered = lab(|l| l.runs.iter().any(|r| r.ended));
    if anywhere && r.is_err() && delivered {
        no_panics()?;
        return Ok("a result was lost".into());
    }
    r?;
    let gone: Vec<usize> = match (anywhere, c.lose) {
        (true, _) => vec![0],
        (false, Lose::Workers) => (0..workers.len()).filter(|i| workers[*i].took_place_or_out()).collect(),
        (false, Lose::Leader) => vec![],
    };
    // Let what still executes end.
    let mut left = 100;
    mcrt::quiesce();
    while !mcrt::gates_waiting().is_empty() && left > 0 {
        left -= 1;
        for g in mcrt::gates_waiting() {
            mcrt::gate_open(g);
        }
        mcrt::quiesce();
    }
    no_panics()?;
    for (i, end) in ends.iter().enumerate() {
        ensure!(
            end.is_set() == gone.contains(&i),
            "worker {i} {} (connections lost: {gone:?})",
            if end.is_set() { "left" } else { "did not leave" }
        );
    }
    let want = expected(c.d);
    // Whatever was yielded is right.
    let s = seen.lock().unwrap();
    let mut used = vec![];
    for (i, v) in &s.items {
        ensure!(*i < n && *v == 10 * nums(n)[*i] + 1, "the map yielded ({i}, {v})");
        ensure!(anywhere || !used.contains(i), "the map yielded index {i} twice");
        used.push(*i);
    }
    match out.get().ok_or("the directive has not returned")? {
        Ok(_) if anywhere && matches!(c.d, D::Map(_)) => Ok("values".into()),
        Ok(v) => {
            ensure!(v == want, "{:?} returned {v}, expected {want} or an error", c.d);
            Ok("value".into())
        }
        Err(e) => {
            ensure!(fell.get(), "{:?} failed although the leader's connection was not lost: {e}", c.d);
            Ok(format!("error after {used:?}"))
        }
    }
}

pub fn scenarios(t: Tier) -> Vec<Scen> {
    let mut v = vec![];
    let mut add = |name: String, cfg, c: C, w: f64, what: &str| {
        v.push(Scen::new(name, cfg, move || body(c)).weight(w).what(what))
    };
    let m = t.pick(3, 4);
    let ds = [
        D::Literal,
        D::Map(0),
        D::Map(1),
        D::Map(2),
        D::Map(m),
        D::Collect(1),
        D::Collect(m),
        D::Fold(0),
        D::Fold(1),
        D::Fold(2),
        D::Fold(3),
        D::Fold(4),
        D::Chain(1),
        D::Chain(2),
        D::Chain(m),
    ];
    for d in ds {
        for feed in [false, true] {
            if feed && d == D::Literal {
                continue;
            }
            for workers in 1..=t.pick(2, 3) {
                add(
                    format!("leader-{d:?}-workers-{workers}-feed-{feed}"),
                    dev(0),
                    C { d, workers, lose: Lose::Leader, gated: true, feed },
                    1.0,
                    "the leader's connection is lost at every point between arrivals and completions, all orders of those",
                );
            }
            for workers in 2..=t.pick(3, 3) {
                add(
                    format!("workers-{d:?}-workers-{workers}-feed-{feed}"),
                    dev(0),
                    C { d, workers, lose: Lose::Workers, gated: true, feed },
                    1.0,
                    "connections of all workers but one are lost at every point between arrivals and completions, all orders of those",
                );
            }
        }
        if matches!(d, D::Literal | D::Map(1 | 2) | D::Fold(2 | 3) | D::Chain(1)) {
            add(
                format!("workers-{d:?}-schedules"),
                deferred(dev(t.pick(2, 3))),
                C { d, workers: 2, lose: Lose::Workers, gated: false, feed: false },
                2.0,
                "the connection of one of two workers is lost at every step of all schedules within the deviation bound",
            );
        }
        for workers in 1..=2 {
            add(
                format!("leader-{d:?}-workers-{workers}-schedules"),
                deferred(dev(t.pick(2, 3))),
                C { d, workers, lose: Lose::Leader, gated: false, feed: false },
                2.0,
                "the leader's connection is lost at every step of all schedules within the deviation bound",
            );
        }
    }
    v
}
