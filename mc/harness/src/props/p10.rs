//! Queue names.
use std::{
    collections::{HashMap, VecDeque},
    sync::{Arc, Mutex},
};

use mcrt::choose;
use paladin::queue::{
    in_memory::{InMemoryConnection, InMemoryConsumer, InMemoryQueueHandle},
    Connection, DeliveryMode, Publisher, QueueHandle, QueueOptions, SyndicationMode,
};

use super::p08::{opts, ser};
use crate::common::*;
use crate::ensure;

fn options(i: usize) -> QueueOptions {
    match i {
        0 => opts(SyndicationMode::ExactlyOnce, DeliveryMode::Persistent),
        1 => opts(SyndicationMode::Broadcast, DeliveryMode::Persistent),
        _ => opts(SyndicationMode::Broadcast, DeliveryMode::Ephemeral),
    }
}

/// Everything a fresh consumer named `name` finds in the queue now.
async fn peek(h: &InMemoryQueueHandle, name: &str) -> Vec<u32> {
    let mut c: InMemoryConsumer<u32> = h.declare_consumer(name).await.unwrap();
    let mut v = vec![];
    while let Some((m, _)) = poll_now(&mut c) {
        v.push(m);
    }
    v
}

struct Q {
    opt: usize,
    kept: VecDeque<u32>,
    subscribed: bool,
}

/// All histories of declare/publish/receive/delete over names and clones.
fn sequences(depth: usize) -> Result<String, String> {
    let base = InMemoryConnection::new(ser(0));
    let conns = [base.clone(), base.clone()];
    let names = ["", "queue", "queue-2"];
    mcrt::block_on(async {
        let mut model: HashMap<usize, Q> = HashMap::new();
        // Handles stay usable; a handle of a deleted queue reaches the old queue only.
        let mut log = String::new();
        let mut n = 0;
        for _ in 0..depth {
            let q = choose(2) + choose(2);
            let conn = &conns[log.len() % 2];
            match choose(3) {
                0 => {
                    // Declare (with any options) and publish one message.
                    let o = choose(3);
                    log.push_str(&format!("P{q}o{o} "));
                    let h = conn.declare_queue(names[q], options(o)).await.unwrap();
                    let m = model.entry(q).or_insert(Q {
                        opt: o,
                        kept: VecDeque::new(),
                        subscribed: false,
                    });
                    n += 1;
                    h.publisher::<u32>().publish(&n).await.unwrap();
                    if m.opt != 2 || m.subscribed {
                        m.kept.push_back(n);
                    }
                }
                1 => {
                    let o = choose(3);
                    log.push_str(&format!("R{q}o{o} "));
                    let h = conn.declare_queue(names[q], options(o)).await.unwrap();
                    let m = model.entry(q).or_insert(Q {
                        opt: o,
                        kept: VecDeque::new(),
                        subscribed: false,
                    });
                    let got = peek(&h, "reader").await;
                    m.subscribed = true;
                    let want: Vec<u32> = m.kept.drain(..).collect();
                    ensure!(
                        got == want,
                        "reading {:?} gave {got:?}, expected {want:?} ({log})",
                        names[q]
                    );
                }
                _ => {
                    log.push_str(&format!("D{q} "));
                    let r = conn.delete_queue(names[q]).await;
                    ensure!(r.is_ok(), "deleting {:?} failed: {r:?}", names[q]);
                    model.remove(&q);
                }
            }
        }
        for q in 0..3 {
            let h = conns[1].declare_queue(names[q], options(0)).await.unwrap();
            let got = peek(&h, "reader").await;
            let want: Vec<u32> = model.remove(&q).map(|m| m.kept.into()).unwrap_or_default();
            ensure!(
                got == want,
                "in the end {:?} holds {got:?}, expected {want:?} ({log})",
                names[q]
            );
        }
        Ok(log)
    })
}

/// Threads declare the same and other names at the same time; everyone who
/// declared a name must have reached the same queue.
fn declare_race(n: usize, kinds: bool) -> Result<String, String> {
    let base = InMemoryConnection::new(ser(0));
    let ok: Arc<Mutex<Vec<InMemoryQueueHandle>>> = Default::default();
    let other = choose(2) == 1;
    let mut hs = vec![];
    for i in 0..n {
        let c = base.clone();
        let ok = ok.clone();
        hs.push(mcrt::task("declarer", async move {
            let o = if kinds { i % 2 } else { 0 };
            let h = c.declare_queue("q", options(o)).await.unwrap();
            h.publisher::<u32>().publish(&(i as u32)).await.unwrap();
            ok.lock().unwrap().push(h);
        }));
    }
    if other {
        let c = base.clone();
        hs.push(mcrt::task("other", async move {
            let h = c.declare_queue("q2", options(0)).await.unwrap();
            h.publisher::<u32>().publish(&100).await.unwrap();
            c.delete_queue("q3").await.unwrap();
        }));
    }
    for h in hs {
        mcrt::block_on(h).map_err(|e| format!("{e:?}"))?;
    }
    mcrt::block_on(async {
        let want: Vec<u32> = (0..n as u32).collect();
        let which = choose(n + 1);
        let h = if which == n {
            base.declare_queue("q", options(2)).await.unwrap()
        } else {
            ok.lock().unwrap()[which].clone()
        };
        let mut got = peek(&h, "r").await;
        got.sort();
        ensure!(
            got == want,
            "{n} declarers of one name published {want:?}, handle {which} sees {got:?}"
        );
        // Which options won? A second subscriber tells.
        h.publisher::<u32>().publish(&50).await.unwrap();
        let a = peek(&h, "r").await;
        let b = peek(&h, "s").await;
        ensure!(
            a == vec![50] && b.is_empty(),
            "after a further message, two consumers see {a:?} and {b:?}"
        );
        if other {
            let h2 = base.declare_queue("q2", options(1)).await.unwrap();
            let x = peek(&h2, "r").await;
            ensure!(x == vec![100], "other queue holds {x:?}");
        }
        Ok(format!("{which} {other}"))
    })
}

/// Deleting while others declare and publish: a name always denotes one queue
/// of its declarations' messages, each kept at most once.
fn delete_race() -> Result<String, String> {
    let base = InMemoryConnection::new(ser(0));
    let pre = choose(2) == 1;
    mcrt::block_on(async {
        if pre {
            let h = base.declare_queue("q", options(0)).await.unwrap();
            h.publisher::<u32>().publish(&9).await.unwrap();
        }
        let keep = base.declare_queue("keep", options(0)).await.unwrap();
        let (b1, b2, b3) = (base.clone(), base.clone(), base.clone());
        let k = keep.clone();
        let t1 = mcrt::task("deleter", async move {
            b1.delete_queue("q").await.unwrap();
        });
        let t2 = mcrt::task("declarer", async move {
            let h = b2.declare_queue("q", options(0)).await.unwrap();
            h.publisher::<u32>().publish(&1).await.unwrap();
            let mut v = peek(&h, "c").await;
            v.sort();
            v
        });
        let t3 = mcrt::task("bystander", async move {
            k.publisher::<u32>().publish(&7).await.unwrap();
            let h = b3.declare_queue("keep", options(1)).await.unwrap();
            h.publisher::<u32>().publish(&8).await.unwrap();
        });
        t1.await.map_err(|e| format!("{e:?}"))?;
        let v = t2.await.map_err(|e| format!("{e:?}"))?;
        t3.await.map_err(|e| format!("{e:?}"))?;
        ensure!(
            v == vec![1] || (pre && v == vec![1, 9]),
            "declarer saw {v:?}"
        );
        let h = base.declare_queue("keep", options(0)).await.unwrap();
        let k = peek(&h, "c").await;
        ensure!(k == vec![7, 8], "the other queue holds {k:?}");
        // After the deletion is over, deleting again empties for good.
        base.delete_queue("q").await.unwrap();
        let h = base.declare_queue("q", options(0)).await.unwrap();
        let r = peek(&h, "c").await;
        ensure!(r.is_empty(), "a deleted queue came back with {r:?}");
        Ok(format!("{v:?}"))
    })
}

/// Many names at a time.
fn many(n: u32) -> Result<String, String> {
    let base = InMemoryConnection::new(ser(0));
    let conns = [base.clone(), base.clone()];
    mcrt::block_on(async {
        let name = |i: u32| format!("{}queue-{i}", "long-".repeat(i as usize % 40));
        for round in 0..3 {
            for i in 0..n {
                let h = conns[i as usize % 2].declare_queue(&name(i), options(0)).await.unwrap();
                h.publish(&(i + n * round)).await.unwrap();
            }
            // Every third is deleted.
            for i in (round..n).step_by(3) {
                conns[1].delete_queue(&name(i)).await.unwrap();
            }
        }
        for i in 0..n {
            let h = conns[(i + 1) as usize % 2].declare_queue(&name(i), options(0)).await.unwrap();
            let got = peek(&h, "c").await;
            // Deleted in round i % 3, with what it held.
            let want: Vec<u32> = (i % 3 + 1..3).map(|r| i + n * r).collect();
            ensure!(got == want, "queue {i} of {n} holds {got:?}, expected {want:?}");
        }
        Ok("all".into())
    })
}

pub fn scenarios(t: Tier) -> Vec<Scen> {
    let d = t.pick(4, 5);
    let b = t.pick(3, 4);
    vec![
        Scen::new("sequences", dev(0), move || sequences(d)).what(format!("all histories of {d} declare-and-publish, declare-and-read and delete steps over three names (one empty) and all option combinations, through two clones of the connection, against a reference model")),
        Scen::new("declare-race-2", pre(b), || declare_race(2, false)).what("two tasks declare one name, one declares another"),
        Scen::new("declare-race-3", pre(t.pick(2, 3)), || declare_race(3, false)).what("three tasks declare one name"),
        super::conform::maps(t.pick(3, 4)),
        Scen::new("many", long(dev(0)), move || many(t.pick(600, 5_000))).what("many names at a time, by the default schedule"),
        Scen::new("delete-race", pre(t.pick(2, 3)), delete_race).what("a name deleted and declared at the same time, a bystander on another name"),
    ]
}
