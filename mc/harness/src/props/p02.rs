//! Folding a stream.
use paladin::directive::{indexed_stream, Directive, IndexedStream};

use crate::common::*;
use crate::ensure;
use crate::ops::*;
use crate::rt::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Arrive {
    Iter,
    Feed,
    FeedPerm,
    /// Indices in descending order.
    FeedDown,
}

#[derive(Clone, Copy)]
struct C {
    n: usize,
    workers: usize,
    ser: Ser,
    arrive: Arrive,
    gated: bool,
    /// Deviations from the default order of events are bounded.
    counted: bool,
}

pub fn letters(n: usize) -> Vec<String> {
    // Two items are equal.
    (0..n)
        .map(|i| match i {
            2 => "a".to_string(),
            _ => ((b'a' + (i % 26) as u8) as char).to_string(),
        })
        .collect()
}
pub fn cat_of(v: &[String]) -> String {
    if v.is_empty() {
        "()".into()
    } else {
        v.concat()
    }
}

fn body(c: C) -> Result<String, String> {
    set_gated(c.gated);
    let rt = runtime(c.workers, c.ser);
    let vs = letters(c.n);
    let idx: Vec<usize> = match c.arrive {
        Arrive::FeedPerm => choose_perm(c.n),
        Arrive::FeedDown => (0..c.n).rev().collect(),
        _ => (0..c.n).collect(),
    };
    let (feed, stream) = Feed::new(
        idx.iter()
            .map(|i| Ok((*i, vs[*i].clone())))
            .collect::<Vec<anyhow::Result<(usize, String)>>>(),
    );
    let input: IndexedStream<'static, String> = if c.arrive == Arrive::Iter {
        feed.advance_all();
        match mcrt::choose(2) {
            0 => IndexedStream::from(vs.clone()),
            _ => indexed_stream::try_from_into_iterator(
                vs.clone().into_iter().map(Ok).collect::<Vec<_>>(),
            ),
        }
    } else {
        IndexedStream::new(stream)
    };
    let out: Slot<String> = Default::default();
    let (o2, rt2) = (out.clone(), rt.clone());
    let leader = mcrt::task("leader", async move {
        o2.put(input.fold(&CAT).run(&rt2).await);
    });
    mcrt::start_exploring();
    drive(
        Drive {
            counted: c.counted,
            ..Default::default()
        },
        &[&feed],
        &|| leader.is_finished(),
        "the fold",
    )?;
    no_panics()?;
    let got = out.value("the fold")?;
    let want = cat_of(&vs);
    ensure!(got == want, "the fold of {vs:?} returned {got:?}");
    ensure!(
        feed.left() == 0,
        "the fold returned before the end of its input"
    );
    let runs = run_keys();
    Ok(runs.join(" "))
}

pub fn scenarios(t: Tier) -> Vec<Scen> {
    let mut v = vec![];
    let mut add = |name: String, cfg, c: C, w: f64, what: &str| {
        v.push(Scen::new(name, cfg, move || body(c)).weight(w).what(what))
    };
    let base = C {
        n: 0,
        workers: 1,
        ser: Ser::Postcard,
        arrive: Arrive::Iter,
        gated: false,
        counted: false,
    };
    for n in 0..=t.pick(5, 6) {
        for workers in 1..=t.pick(3, 3) {
            for ser in SERS {
                if ser == Ser::Cbor && workers > 1 {
                    continue;
                }
                for arrive in [Arrive::Iter, Arrive::Feed, Arrive::FeedPerm, Arrive::FeedDown] {
                    let big = match arrive {
                        Arrive::Iter => n > 6,
                        Arrive::Feed | Arrive::FeedDown => n > t.pick(4, 5),
                        Arrive::FeedPerm => n < 2 || n > t.pick(4, 5),
                    };
                    if big {
                        continue;
                    }
                    add(
                        format!("orders-{n}-workers-{workers}-{ser:?}-{arrive:?}"),
                        dev(0),
                        C { n, workers, ser, arrive, gated: true, ..base },
                        1.0,
                        "all orders of input arrivals (including the end of input) and completions of combinations, default schedule otherwise",
                    );
                }
            }
        }
    }
    // More items than the limits of the internal channels.
    for n in [11, 12, 13, 22, 25] {
        for arrive in [Arrive::Iter, Arrive::Feed, Arrive::FeedDown] {
            for workers in [1, 3] {
                add(
                    format!("many-{n}-workers-{workers}-{arrive:?}"),
                    dev(t.pick(1, 2)),
                    C { n, workers, arrive, gated: true, counted: true, ..base },
                    1.0,
                    "more items than the concurrency limits; orders of events within the deviation bound of the default one",
                );
            }
        }
    }
    for n in [64, 255, 256, 257, 300, t.pick(600, 3_000)] {
        for arrive in [Arrive::Iter, Arrive::FeedDown] {
            add(
                format!("long-{n}-{arrive:?}"),
                long(dev(0)),
                C { n, workers: 3, arrive, ..base },
                1.0,
                "a long input, default schedule",
            );
        }
    }
    for n in 0..=3 {
        for workers in 1..=2 {
            for arrive in [Arrive::Iter, Arrive::Feed, Arrive::FeedDown] {
                if n < 2 && arrive == Arrive::FeedDown {
                    continue;
                }
                add(
                    format!("schedules-{n}-workers-{workers}-{arrive:?}"),
                    deferred(dev(t.pick(if n < 3 || workers == 1 { 3 } else { 2 }, if n < 3 { 5 } else { 4 }))),
                    C { n, workers, arrive, ..base },
                    6.0,
                    "all schedules within the deviation bound of leader, workers and executions",
                );
            }
        }
    }
    for workers in [8, 16] {
        add(
            format!("long-workers-{workers}"),
            long(dev(0)),
            C { n: 300, workers, ..base },
            1.0,
            "many workers, by the default schedule",
        );
    }
    over_amqp(&mut v, |s| {
        if s.name.contains("Cbor") {
            return None;
        }
        Some(t.pick(1, 2))
    });
    v
}
