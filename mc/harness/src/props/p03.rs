//! Chains of directives.
use paladin::directive::{Directive, IndexedStream, Literal};

use crate::common::*;
use crate::ensure;
use crate::ops::*;
use crate::rt::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum P {
    Literal(usize),
    /// Maps, then collect sorted.
    Collect(usize),
    /// Maps, then fold.
    Fold(usize),
    /// Fold, then the result as a literal is mapped.
    FoldMap,
    /// Collect a mapped stream whose input has an error at a position.
    CollectErr(usize),
}

#[derive(Clone, Copy)]
struct C {
    p: P,
    n: usize,
    workers: usize,
    ser: Ser,
    gated: bool,
    feed: bool,
}

static MEASURE: std::sync::LazyLock<Measure> = std::sync::LazyLock::new(|| Measure { unit: "m".into() });

fn inc(k: u64, x: u64) -> u64 {
    10 * x + k
}
fn show(x: u64) -> String {
    format!("<{x}>")
}
fn measure(s: String) -> (String, u32) {
    let l = s.len() as u32;
    (format!("{s}m"), l)
}

fn values(n: usize) -> Vec<u64> {
    (0..n as u64).map(|i| [4, 9, 4, 1][i as usize % 4] + 10 * (i / 4)).collect()
}

fn body(c: C) -> Result<String, String> {
    set_gated(c.gated);
    let rt = runtime(c.workers, c.ser);
    let vs = values(c.n);
    let mut script: Vec<anyhow::Result<(usize, u64)>> = vs.iter().copied().enumerate().map(Ok).collect();
    if let P::CollectErr(at) = c.p {
        script.insert(at, Err(anyhow::anyhow!("input error")));
    }
    let (feed, stream) = Feed::new(script);
    if !c.feed {
        feed.advance_all();
    }
    let s: IndexedStream<'static, u64> = IndexedStream::new(stream);
    let out: Slot<String> = Default::default();
    let (o2, rt2) = (out.clone(), rt.clone());
    let leader = mcrt::task("leader", async move {
        macro_rules! collect {
            ($d:expr) => {
                async {
                    let v: Vec<_> = $d.run(&rt2).await?.into_values_sorted().await?.into_iter().collect();
                    anyhow::Ok(format!("{v:?}"))
                }
                .await
            };
        }
        macro_rules! plain {
            ($d:expr) => {
                $d.run(&rt2).await.map(|x| format!("{x:?}"))
            };
        }
        o2.put(match c.p {
            P::Literal(0) => plain!(Literal(5u64)),
            P::Literal(1) => plain!(Literal(5u64).map(&INC1)),
            P::Literal(2) => plain!(Literal(5u64).map(&INC1).map(&INC2)),
            P::Literal(3) => plain!(Literal(5u64).map(&INC2).map(&SHOW).map(&*MEASURE)),
            P::Literal(_) => plain!(Literal("x".to_string()).map(&*MEASURE)),
            P::Collect(0) => collect!(s),
            P::Collect(1) => collect!(s.map(&INC1)),
            P::Collect(2) => collect!(s.map(&INC1).map(&INC2)),
            P::Collect(3) => collect!(s.map(&INC2).map(&SHOW).map(&*MEASURE)),
            P::Collect(_) => collect!(s.map(&INC1).map(&INC1)),
            P::Fold(1) => plain!(s.map(&SHOW).fold(&CAT)),
            P::Fold(2) => plain!(s.map(&INC1).map(&SHOW).fold(&CAT)),
            P::Fold(_) => plain!(s.map(&INC1).map(&INC2).map(&SHOW).fold(&CAT)),
            P::FoldMap => async {
                let f = s.map(&SHOW).fold(&CAT).run(&rt2).await?;
                plain!(Literal(f).map(&*MEASURE))
            }
            .await,
            P::CollectErr(_) => collect!(s.map(&INC1)),
        });
    });
    mcrt::start_exploring();
    drive(
        Drive::default(),
        &[&feed],
        &|| leader.is_finished(),
        "the program",
    )?;
    no_panics()?;
    let each = |f: &dyn Fn(u64) -> u64| vs.iter().map(|x| f(*x)).collect::<Vec<u64>>();
    let shown = |v: Vec<u64>| v.into_iter().map(show).collect::<Vec<String>>();
    let cat = |v: Vec<String>| if v.is_empty() { "()".to_string() } else { v.concat() };
    let want: String = match c.p {
        P::Literal(0) => "Literal(5)".into(),
        P::Literal(1) => format!("{:?}", Literal(inc(1, 5))),
        P::Literal(2) => format!("{:?}", Literal(inc(2, inc(1, 5)))),
        P::Literal(3) => format!("{:?}", Literal(measure(show(inc(2, 5))))),
        P::Literal(_) => format!("{:?}", Literal(measure("x".into()))),
        P::Collect(0) => format!("{vs:?}"),
        P::Collect(1) => format!("{:?}", each(&|x| inc(1, x))),
        P::Collect(2) => format!("{:?}", each(&|x| inc(2, inc(1, x)))),
        P::Collect(3) => format!(
            "{:?}",
            shown(each(&|x| inc(2, x))).into_iter().map(measure).collect::<Vec<_>>()
        ),
        P::Collect(_) => format!("{:?}", each(&|x| inc(1, inc(1, x)))),
        P::Fold(1) => format!("{:?}", cat(shown(vs.clone()))),
        P::Fold(2) => format!("{:?}", cat(shown(each(&|x| inc(1, x))))),
        P::Fold(_) => format!("{:?}", cat(shown(each(&|x| inc(2, inc(1, x)))))),
        P::FoldMap => format!("{:?}", Literal(measure(cat(shown(vs.clone()))))),
        P::CollectErr(_) => {
            return match out.get() {
                Some(Err(e)) if e.contains("input error") => Ok(e),
                o => Err(format!("collecting a stream with an error returned {o:?}")),
            }
        }
    };
    let got = out.value("the program")?;
    ensure!(got == want, "{:?} over {vs:?} returned {got}, expected {want}", c.p);
    Ok(got)
}

/// Collecting a stream that yields its indices in any order.
fn sorted(n: usize, all: bool, err: bool) -> Result<String, String> {
    let idx = if all {
        choose_perm(n)
    } else {
        // Strides and rotations of a longer sequence.
        let stride = [1, n - 1, 7][mcrt::choose(3)];
        let start = mcrt::choose(n);
        (0..n).map(|i| (start + i * stride) % n).collect()
    };
    let mut script: Vec<anyhow::Result<(usize, String)>> =
        idx.iter().map(|i| Ok((*i, format!("v{i}")))).collect();
    if err {
        script.insert(mcrt::choose(n + 1), Err(anyhow::anyhow!("input error")));
    }
    let got = mcrt::block_on(async {
        IndexedStream::new(futures::stream::iter(script))
            .into_values_sorted()
            .await
            .map(|v| v.into_iter().collect::<Vec<_>>())
    });
    match got {
        Err(e) if err && e.to_string().contains("input error") => Ok("error".into()),
        Ok(v) if !err && v == (0..n).map(|i| format!("v{i}")).collect::<Vec<_>>() => Ok("sorted".into()),
        o => Err(format!("collecting indices {idx:?} (with an error: {err}) returned {o:?}")),
    }
}

pub fn scenarios(t: Tier) -> Vec<Scen> {
    let mut v = vec![];
    let mut add = |name: String, cfg, c: C, w: f64, what: &str| {
        v.push(Scen::new(name, cfg, move || body(c)).weight(w).what(what))
    };
    let orders = "all orders of input arrivals and operation completions of the chain";
    let schedules = "all schedules within the deviation bound";
    for p in [P::Literal(0), P::Literal(1), P::Literal(2), P::Literal(3), P::Literal(4)] {
        for workers in 1..=2 {
            for ser in SERS {
                let c = C { p, n: 0, workers, ser, gated: true, feed: false };
                add(format!("{p:?}-workers-{workers}-{ser:?}"), dev(0), c, 1.0, orders);
                if ser == Ser::Postcard {
                    add(
                        format!("{p:?}-workers-{workers}-schedules"),
                        deferred(dev(t.pick(2, if workers == 1 { 4 } else { 3 }))),
                        C { gated: false, ..c },
                        3.0,
                        schedules,
                    );
                }
            }
        }
    }
    let chains = [
        P::Collect(0),
        P::Collect(1),
        P::Collect(2),
        P::Collect(3),
        P::Collect(4),
        P::Fold(1),
        P::Fold(2),
        P::Fold(3),
        P::FoldMap,
    ];
    for p in chains {
        for n in 0..=t.pick(3, 4) {
            for workers in 1..=t.pick(2, 3) {
                for ser in SERS {
                    for feed in [false, true] {
                        let maps = match p {
                            P::Collect(k) | P::Fold(k) => k.min(3),
                            _ => 1,
                        };
                        // The trees of the deep chains are large.
                        if (ser == Ser::Cbor && workers > 1) || (maps == 3 && feed && n > 2 && workers > 1 && !t.thorough()) {
                            continue;
                        }
                        add(
                            format!("{p:?}-{n}-workers-{workers}-{ser:?}-feed-{feed}"),
                            dev(0),
                            C { p, n, workers, ser, gated: true, feed },
                            1.0,
                            orders,
                        );
                    }
                }
                if n <= 2 && p != P::Collect(0) {
                    add(
                        format!("{p:?}-{n}-workers-{workers}-schedules"),
                        deferred(dev(t.pick(if n < 2 || workers == 1 { 2 } else { 1 }, if n < 2 { 3 } else { 2 }))),
                        C { p, n, workers, ser: Ser::Postcard, gated: false, feed: false },
                        3.0,
                        schedules,
                    );
                }
            }
        }
    }
    for p in [P::Collect(2), P::Fold(1)] {
        add(
            format!("{p:?}-long"),
            long(dev(0)),
            C { p, n: t.pick(300, 1_000), workers: 3, ser: Ser::Postcard, gated: false, feed: false },
            1.0,
            "a long input, default schedule",
        );
    }
    for n in 0..=t.pick(3, 4) {
        for at in 0..=n {
            for feed in [false, true] {
                add(
                    format!("collect-{n}-error-at-{at}-feed-{feed}"),
                    dev(0),
                    C { p: P::CollectErr(at), n, workers: 2, ser: Ser::Postcard, gated: true, feed },
                    1.0,
                    orders,
                );
            }
        }
    }
    for n in 0..=t.pick(6, 7) {
        for err in [false, true] {
            v.push(
                Scen::new(format!("sorted-{n}-error-{err}"), dev(0), move || sorted(n, true, err))
                    .what("all index orders of a stream that is collected sorted"),
            );
        }
    }
    for n in [23, 64] {
        v.push(
            Scen::new(format!("sorted-long-{n}"), dev(0), move || sorted(n, false, false))
                .what("strides and rotations of a longer stream that is collected sorted"),
        );
    }
    over_amqp(&mut v, |s| {
        if s.name.contains("Cbor") {
            return None;
        }
        Some(t.pick(1, 2))
    });
    v
}
