//! Mapping a stream.
use std::sync::Arc;

use paladin::directive::{indexed_stream, Directive, IndexedStream};

use crate::common::*;
use crate::ensure;
use crate::ops::*;
use crate::rt::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Arrive {
    /// A plain iterator.
    Iter,
    /// One by one, enumerated against completions; indices in order.
    Feed,
    /// As `Feed`, all index orders.
    FeedPerm,
}

#[derive(Clone, Copy)]
struct C {
    n: usize,
    workers: usize,
    ser: Ser,
    arrive: Arrive,
    gated: bool,
    big: bool,
}

fn values(n: usize) -> Vec<u64> {
    // Two inputs are equal: results must not be confused or merged.
    (0..n as u64).map(|i| [7, 3, 7, 0, 5, 7][i as usize % 6] + 100 * (i / 6)).collect()
}

fn body(c: C) -> Result<String, String> {
    set_gated(c.gated);
    let rt = runtime(c.workers, c.ser);
    let vs = values(c.n);
    let seen: SharedSeen<u64> = Default::default();
    let mut idx: Vec<usize> = (0..c.n).collect();
    if c.arrive == Arrive::FeedPerm {
        idx = choose_perm(c.n);
    }
    let (feed, stream) = Feed::new(
        idx.iter()
            .map(|i| Ok((*i, vs[*i])))
            .collect::<Vec<anyhow::Result<(usize, u64)>>>(),
    );
    let input: IndexedStream<'static, u64> = if c.arrive == Arrive::Iter {
        feed.advance_all();
        match mcrt::choose(3) {
            0 => IndexedStream::from(vs.clone()),
            1 => indexed_stream::from_into_iterator(vs.clone()),
            _ => indexed_stream::try_from_into_iterator(
                vs.clone().into_iter().map(Ok).collect::<Vec<_>>(),
            ),
        }
    } else {
        IndexedStream::new(stream)
    };
    let s2 = seen.clone();
    let rt2 = rt.clone();
    let leader = mcrt::task("leader", async move {
        match input.map(&INC1).run(&rt2).await {
            Ok(out) => read(out, s2).await,
            Err(e) => s2.lock().unwrap().err = Some(format!("run: {e}")),
        }
    });
    mcrt::start_exploring();
    drive(
        Drive {
            burst: c.big,
            ..Default::default()
        },
        &[&feed],
        &|| leader.is_finished(),
        "the mapped stream",
    )?;
    no_panics()?;
    let s = seen.lock().unwrap();
    ensure!(s.err.is_none(), "the map failed: {:?}", s.err);
    let want: Vec<(usize, u64)> = vs.iter().enumerate().map(|(i, x)| (i, 10 * x + 1)).collect();
    same_items(&s.items, &want)?;
    ensure!(
        feed.left() == 0 || c.arrive == Arrive::Iter,
        "the stream ended before its input"
    );
    let order: Vec<usize> = s.items.iter().map(|i| i.0).collect();
    drop(Arc::clone(&rt));
    Ok(format!("{order:?}"))
}

pub fn scenarios(t: Tier) -> Vec<Scen> {
    let mut v = vec![];
    let mut add = |name: String, cfg, c: C, w: f64, what: &str| {
        v.push(Scen::new(name, cfg, move || body(c)).weight(w).what(what))
    };
    let base = C {
        n: 0,
        workers: 1,
        ser: Ser::Postcard,
        arrive: Arrive::Iter,
        gated: false,
        big: false,
    };
    // Orders of arrival and completion.
    for n in 0..=t.pick(4, 5) {
        for workers in 1..=t.pick(3, 4) {
            for ser in SERS {
                if ser == Ser::Cbor && workers > 2 {
                    continue;
                }
                for arrive in [Arrive::Iter, Arrive::Feed, Arrive::FeedPerm] {
                    if (arrive == Arrive::FeedPerm && (n < 2 || n > t.pick(3, 4))) || (n > 3 && arrive == Arrive::Feed && workers > 2 && !t.thorough()) {
                        continue;
                    }
                    add(
                        format!("orders-{n}-workers-{workers}-{ser:?}-{arrive:?}"),
                        dev(0),
                        C { n, workers, ser, arrive, gated: true, ..base },
                        1.0,
                        "all orders of input arrivals and operation completions, default schedule otherwise",
                    );
                }
            }
        }
    }
    // More items than the concurrency limit.
    for n in [11, 13] {
        add(
            format!("many-{n}"),
            dev(0),
            C { n, workers: 2, arrive: Arrive::Feed, big: true, ..base },
            1.0,
            "more inputs than the concurrency limit of sending",
        );
    }
    // Indices that do not fit into narrower integers.
    for n in [300, t.pick(3_000, 70_000)] {
        for ser in SERS {
            if n > 10_000 && ser == Ser::Cbor {
                continue;
            }
            add(
                format!("long-{n}-{ser:?}"),
                long(dev(0)),
                C { n, workers: 3, ser, ..base },
                1.0,
                "a long input, default schedule",
            );
        }
    }
    // Schedules.
    for n in 0..=3 {
        for workers in 1..=2 {
            for arrive in [Arrive::Iter, Arrive::Feed] {
                add(
                    format!("schedules-{n}-workers-{workers}-{arrive:?}"),
                    deferred(dev(t.pick(if n < 3 { 3 } else { 2 }, if n < 2 { 5 } else if n < 3 { 4 } else { 3 }))),
                    C { n, workers, arrive, gated: false, ..base },
                    4.0,
                    "all schedules within the deviation bound of leader, workers and executions",
                );
            }
        }
    }
    for workers in [8, 16] {
        add(
            format!("long-workers-{workers}"),
            long(dev(0)),
            C { n: 300, workers, ..base },
            1.0,
            "many workers, by the default schedule",
        );
    }
    over_amqp(&mut v, |s| {
        if s.name.contains("Cbor") || s.name.contains("70000") {
            return None;
        }
        Some(t.pick(1, 2))
    });
    v
}
