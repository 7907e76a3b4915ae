//! Several directives on one runtime.
use std::sync::Arc;

use paladin::{
    directive::{Directive, IndexedStream, Literal},
    runtime::Runtime,
};

use crate::common::*;
use crate::ensure;
use crate::ops::*;
use crate::rt::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum D {
    /// Maps `inc1` over the same values in every directive.
    Map(usize),
    /// Maps another operation.
    Show(usize),
    Fold(usize),
    Literal,
}

/// Runs a directive; the outcome as text, map items in index order, with their
/// count so that foreign or repeated items show.
async fn run(d: D, rt: Arc<Runtime>) -> anyhow::Result<String> {
    async fn all<T: std::fmt::Debug>(mut s: IndexedStream<'_, T>) -> anyhow::Result<String> {
        use futures::StreamExt;
        let mut v = vec![];
        while let Some(i) = s.next().await {
            v.push(i?);
        }
        v.sort_by_key(|i| i.0);
        Ok(format!("{v:?}"))
    }
    match d {
        D::Map(n) => all(IndexedStream::from(values(n)).map(&INC1).run(&rt).await?).await,
        D::Show(n) => all(IndexedStream::from(values(n)).map(&SHOW).run(&rt).await?).await,
        D::Fold(n) => {
            IndexedStream::from(values(n).into_iter().map(|x| x.to_string()).collect::<Vec<_>>())
                .fold(&CAT)
                .run(&rt)
                .await
        }
        D::Literal => Ok(format!("{:?}", Literal(3u64).map(&INC1).run(&rt).await?)),
    }
}
fn values(n: usize) -> Vec<u64> {
    vec![3, 8, 3, 5][..n].to_vec()
}
fn expected(d: D) -> String {
    match d {
        D::Map(n) => format!("{:?}", values(n).into_iter().map(|x| 10 * x + 1).enumerate().collect::<Vec<_>>()),
        D::Show(n) => format!("{:?}", values(n).into_iter().map(|x| format!("<{x}>")).enumerate().collect::<Vec<_>>()),
        D::Fold(0) => "()".into(),
        D::Fold(n) => values(n).into_iter().map(|x| x.to_string()).collect(),
        D::Literal => "Literal(31)".into(),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Drop {
    None,
    /// The first directive is dropped at an enumerated moment.
    First,
    /// The first map is read up to an enumerated number of items, then dropped.
    AfterItems,
}

#[derive(Clone, Copy)]
struct C {
    a: D,
    b: D,
    workers: usize,
    gated: bool,
    drop: Drop,
    /// The second directive starts at an enumerated moment.
    late: bool,
    /// Explore the schedules of the later directives, too.
    deep: bool,
}

struct Once(std::cell::Cell<bool>);
impl Once {
    fn new() -> Self {
        Once(std::cell::Cell::new(true))
    }
}
/// An event that may happen once at any time (or never matters).
struct Act<'a>(Once, Box<dyn Fn() + 'a>);
impl Source for Act<'_> {
    fn more(&self) -> bool {
        self.0 .0.get()
    }
    fn go(&self) {
        self.0 .0.set(false);
        (self.1)()
    }
}

fn body(c: C) -> Result<String, String> {
    set_gated(c.gated);
    let rt = runtime(c.workers, Ser::Postcard);
    let (oa, ob): (Slot<String>, Slot<String>) = Default::default();
    let (fa, ra) = (oa.clone(), rt.clone());
    let la = mcrt::task("first", async move {
        if c.drop == Drop::AfterItems {
            let D::Map(n) = c.a else { unreachable!() };
            let k = mcrt::choose(n + 1);
            let r = async {
                let mut s = IndexedStream::from(values(n)).map(&INC1).run(&ra).await?;
                for _ in 0..k {
                    let (i, x) = futures::StreamExt::next(&mut s).await.expect("item")?;
                    assert_eq!(x, 10 * values(n)[i] + 1);
                }
                drop(s);
                anyhow::Ok(expected(c.a))
            }
            .await;
            fa.put(r)
        } else if c.drop == Drop::First && !c.gated {
            // Dropped instead of being polled another time.
            let k = mcrt::choose(9);
            if let Some(r) = polled_at_most(k, run(c.a, ra)).await {
                fa.put(r)
            }
        } else {
            fa.put(run(c.a, ra).await)
        }
    });
    let lb = Arc::new(std::sync::Mutex::new(None));
    let start_b = {
        let (lb, ob, rt) = (lb.clone(), ob.clone(), rt.clone());
        move || {
            let (ob, rt) = (ob.clone(), rt.clone());
            *lb.lock().unwrap() = Some(mcrt::task("second", async move { ob.put(run(c.b, rt).await) }));
        }
    };
    let act_drop = Act(Once::new(), Box::new(|| la.abort()));
    let act_b = Act(Once::new(), Box::new(start_b));
    if !c.late {
        act_b.go();
    }
    if c.drop != Drop::First || !c.gated {
        act_drop.0 .0.set(false);
    }
    mcrt::start_exploring();
    let dropping = c.drop == Drop::First;
    drive(
        Drive::default(),
        &[&act_drop, &act_b],
        &|| (la.is_finished() || (dropping && !act_drop.more())) && ob.is_set(),
        "a directive",
    )?;
    // Later directives are served, too.
    if !c.deep {
        mcrt::stop_exploring();
    }
    set_gated(false);
    for g in mcrt::gates_waiting() {
        mcrt::gate_open(g);
    }
    let oc: Slot<String> = Default::default();
    let od: Slot<String> = Default::default();
    let (o2, o3, r2) = (oc.clone(), od.clone(), rt.clone());
    let lc = mcrt::task("later", async move {
        o2.put(run(D::Map(2), r2.clone()).await);
        o3.put(run(D::Fold(3), r2).await);
    });
    settle_all(&|| lc.is_finished(), "a later directive")?;
    no_panics()?;
    let a = if dropping && !oa.is_set() {
        "dropped".to_string()
    } else {
        let a = oa.value("the first directive")?;
        ensure!(a == expected(c.a), "the first directive {:?} returned {a}", c.a);
        a
    };
    let b = ob.value("the second directive")?;
    ensure!(b == expected(c.b), "the second directive {:?} returned {b}", c.b);
    let v = oc.value("a later map")?;
    ensure!(v == expected(D::Map(2)), "a later map returned {v}");
    let v = od.value("a later fold")?;
    ensure!(v == expected(D::Fold(3)), "a later fold returned {v}");
    Ok(a)
}

pub fn scenarios(t: Tier) -> Vec<Scen> {
    let mut v = vec![];
    let mut add = |name: String, cfg, c: C, w: f64, what: &str| {
        v.push(Scen::new(name, cfg, move || body(c)).weight(w).what(what))
    };
    let n = t.pick(2, 3);
    let pairs = [
        (D::Map(n), D::Map(n)),
        (D::Map(2), D::Show(2)),
        (D::Map(2), D::Fold(3)),
        (D::Fold(3), D::Map(2)),
        (D::Fold(3), D::Fold(3)),
        (D::Fold(2), D::Fold(t.pick(3, 4))),
        (D::Literal, D::Map(2)),
        (D::Literal, D::Literal),
        (D::Map(0), D::Map(2)),
        (D::Fold(1), D::Fold(2)),
        (D::Show(2), D::Literal),
    ];
    for (a, b) in pairs {
        for workers in 1..=t.pick(2, 3) {
            for drop in [Drop::None, Drop::First, Drop::AfterItems] {
                if drop == Drop::AfterItems && !matches!(a, D::Map(_)) {
                    continue;
                }
                for late in [false, true] {
                    let c = C { a, b, workers, gated: true, drop, late, deep: true };
                    add(
                        format!("{a:?}-{b:?}-workers-{workers}-drop-{drop:?}-late-{late}"),
                        dev(0),
                        c,
                        1.0,
                        "all orders of operation completions, start of the second directive and drop of the first one",
                    );
                }
                if workers <= 2 {
                    let c = C { a, b, workers, gated: false, drop, late: false, deep: t.thorough() };
                    add(
                        format!("{a:?}-{b:?}-workers-{workers}-drop-{drop:?}-schedules"),
                        deferred(dev(t.pick(if drop == Drop::None || workers == 1 { 2 } else { 1 }, 2))),
                        c,
                        3.0,
                        "all schedules within the deviation bound of both leaders, the workers and executions",
                    );
                }
            }
        }
    }
    over_amqp(&mut v, |s| {
        if s.name.contains("Cbor") {
            return None;
        }
        Some(t.pick(1, 2))
    });
    v
}
