//! Broadcast in-memory queues.
use std::sync::{Arc, Mutex};

use futures::StreamExt;
use mcrt::choose;
use paladin::queue::{
    in_memory::{InMemoryConnection, InMemoryQueueHandle},
    Connection, DeliveryMode, Publisher, QueueHandle, SyndicationMode,
};

use super::p08::{in_order, msg, opts, ser, Inbox, Msg};
use crate::common::*;
use crate::ensure;

fn short(v: &[Msg]) -> Vec<(u32, u32)> {
    v.iter().map(|m| (m.0, m.1)).collect()
}

/// One subscription of the reference model.
#[derive(Default, Clone)]
struct Sub {
    queued: Vec<Msg>,
}

/// All sequential histories over two names against a reference model.
fn sequences(depth: usize, mode: DeliveryMode) -> Result<String, String> {
    let conn = InMemoryConnection::new(ser(0));
    mcrt::block_on(async {
        let h = conn
            .declare_queue("q", opts(SyndicationMode::Broadcast, mode))
            .await
            .unwrap();
        let mut history: Vec<Msg> = vec![];
        let mut subs: Vec<Option<Sub>> = vec![None, None];
        let mut cons: Vec<Vec<_>> = vec![vec![], vec![]];
        let mut next = 0;
        let mut log = String::new();
        let names = ["a", "b"];
        for step in 0..depth + 1 {
            let act = if step == depth { 9 } else { choose(6) };
            match act {
                0 | 5 => {
                    // A new content, or the same as before.
                    let m = msg(0, next);
                    next += (act == 0) as u32;
                    log.push('p');
                    h.publish(&m).await.unwrap();
                    if subs.iter().all(|s| s.is_none()) {
                        if mode == DeliveryMode::Persistent {
                            history.push(m);
                        }
                    } else {
                        for s in subs.iter_mut().flatten() {
                            s.queued.push(m.clone());
                        }
                    }
                }
                k @ (1 | 2) => {
                    let i = k - 1;
                    log.push_str(&format!("d{i}"));
                    cons[i].push(h.declare_consumer::<Msg>(names[i]).await.unwrap());
                    if subs[i].is_none() {
                        let mut s = Sub::default();
                        if subs.iter().all(|s| s.is_none()) {
                            s.queued = std::mem::take(&mut history);
                        }
                        subs[i] = Some(s);
                    }
                }
                k => {
                    // Take everything through each of the subscription's receivers.
                    for i in 0..2 {
                        if k != 9 && k - 3 != i {
                            continue;
                        }
                        log.push_str(&format!("r{i}"));
                        let Some(s) = subs[i].as_mut() else { continue };
                        let mut got = vec![];
                        let n = cons[i].len();
                        // Alternate between the receivers that share the name.
                        let mut idle = 0;
                        let mut j = 0;
                        while idle < n {
                            match poll_now(&mut cons[i][j % n]) {
                                Some((m, _)) => {
                                    got.push(m);
                                    idle = 0;
                                }
                                _ => idle += 1,
                            }
                            j += 1;
                        }
                        ensure!(
                            got == s.queued,
                            "subscription {i} received {:?}, expected {:?} ({log})",
                            short(&got),
                            short(&s.queued)
                        );
                        s.queued.clear();
                        // Receivers that wait keep a place in line; start afresh.
                        for c in cons[i].iter_mut() {
                            *c = h.declare_consumer::<Msg>(names[i]).await.unwrap();
                        }
                    }
                }
            }
        }
        Ok(log)
    })
}

struct C {
    persistent: bool,
    before: u32,
    pubs: &'static [u32],
    /// Consumers declared up front, and late ones racing with the publishers.
    early: usize,
    late: usize,
    same_name: bool,
}

fn listen(h: &InMemoryQueueHandle, name: &'static str, inbox: Inbox, declared: Arc<Mutex<Vec<(&'static str, u32)>>>, published: Arc<Mutex<u32>>) -> mcrt::JoinHandle<()> {
    let h = h.clone();
    mcrt::task(name, async move {
        let mut c = h.declare_consumer::<Msg>(name).await.unwrap();
        let k = *published.lock().unwrap();
        declared.lock().unwrap().push((name, k));
        while let Some((m, _)) = c.next().await {
            inbox.lock().unwrap().push(m);
        }
    })
}

fn body(c: &C) -> Result<String, String> {
    let conn = InMemoryConnection::new(ser(1));
    let names = ["a", "b", "c"];
    let n = c.early + c.late;
    let inboxes: Vec<Inbox> = (0..n).map(|_| Default::default()).collect();
    // Messages whose publication had begun when a consumer was declared.
    let begun: Arc<Mutex<u32>> = Default::default();
    let declared: Arc<Mutex<Vec<(&'static str, u32)>>> = Default::default();
    let begun_log: Arc<Mutex<Vec<Msg>>> = Default::default();
    mcrt::block_on(async {
        let mode = if c.persistent {
            DeliveryMode::Persistent
        } else {
            DeliveryMode::Ephemeral
        };
        let h = conn
            .declare_queue("q", opts(SyndicationMode::Broadcast, mode))
            .await
            .unwrap();
        for i in 0..c.before {
            h.publish(&msg(7, i)).await.unwrap();
        }
        let mut keep = vec![];
        for i in 0..n {
            if i == c.early {
                mcrt::quiesce();
                for (p, m) in c.pubs.iter().enumerate() {
                    let h = h.clone();
                    let m = *m;
                    let begun = begun.clone();
                    let bl = begun_log.clone();
                    keep.push(mcrt::task("publisher", async move {
                        let q = h.publisher::<Msg>();
                        for i in 0..m {
                            *begun.lock().unwrap() += 1;
                            bl.lock().unwrap().push(msg(p as u32, i));
                            q.publish(&msg(p as u32, i)).await.unwrap();
                        }
                    }));
                }
            }
            let name = if c.same_name { names[0] } else { names[i] };
            keep.push(listen(&h, name, inboxes[i].clone(), declared.clone(), begun.clone()));
        }
        if c.late == 0 {
            mcrt::quiesce();
            for (p, m) in c.pubs.iter().enumerate() {
                let h = h.clone();
                let m = *m;
                keep.push(mcrt::task("publisher", async move {
                    let q = h.publisher::<Msg>();
                    for i in 0..m {
                        q.publish(&msg(p as u32, i)).await.unwrap();
                    }
                }));
            }
        }
        mcrt::quiesce();
        // Everything published so far had its consumers: nothing is kept for
        // one that comes now.
        let late: Inbox = Default::default();
        keep.push(listen(&h, "z", late.clone(), declared.clone(), begun.clone()));
        mcrt::quiesce();
        let z = late.lock().unwrap().clone();
        ensure!(
            z.is_empty(),
            "a consumer declared after all received {:?}, which had been delivered before ({:?})",
            short(&z),
            inboxes.iter().map(|i| short(&i.lock().unwrap())).collect::<Vec<_>>()
        );
        Ok::<_, String>(())
    })?;
    no_panics()?;
    let got: Vec<Vec<Msg>> = inboxes.iter().map(|i| i.lock().unwrap().clone()).collect();
    let all: Vec<Msg> = c
        .pubs
        .iter()
        .enumerate()
        .flat_map(|(p, m)| (0..*m).map(move |i| msg(p as u32, i)))
        .collect();
    let kept: Vec<Msg> = if c.persistent {
        (0..c.before).map(|i| msg(7, i)).collect()
    } else {
        vec![]
    };
    let show = || format!("{:?}", got.iter().map(|g| short(g)).collect::<Vec<_>>());
    for (i, g) in got.iter().enumerate() {
        let mut u = g.clone();
        u.sort();
        let l = u.len();
        u.dedup();
        ensure!(u.len() == l, "consumer {i} received a message twice: {}", show());
        in_order(g).map_err(|e| format!("consumer {i}: {e}"))?;
    }
    if c.same_name {
        // One subscription: the union is what one consumer would have got.
        let mut u: Vec<Msg> = got.iter().flatten().cloned().collect();
        u.sort();
        let l = u.len();
        u.dedup();
        ensure!(u.len() == l, "one subscription received a message twice: {}", show());
        for m in all.iter().chain(&kept) {
            let after = c.early > 0 || c.persistent;
            ensure!(!after || u.contains(m), "message {:?} not received: {}", (m.0, m.1), show());
        }
        return Ok(show());
    }
    // Declared first, every later message arrives.
    for i in 0..c.early {
        for m in &all {
            ensure!(
                got[i].contains(m),
                "consumer {i} never received {:?}: {}",
                (m.0, m.1),
                show()
            );
        }
    }
    // A late consumer receives every message whose publication began after it
    // was declared.
    let dec = declared.lock().unwrap().clone();
    let bl = begun_log.lock().unwrap().clone();
    for i in c.early..n {
        let Some((_, k)) = dec.iter().find(|d| d.0 == names[i]) else {
            return Err("a consumer could not be declared".into());
        };
        for m in &bl[*k as usize..] {
            ensure!(
                got[i].contains(m),
                "consumer {i} never received {:?}, published after it was declared: {}",
                (m.0, m.1),
                show()
            );
        }
    }
    // Messages kept for lack of consumers reach exactly one consumer.
    for m in &kept {
        let k = got.iter().filter(|g| g.contains(m)).count();
        ensure!(
            k == 1,
            "message {:?}, published before any consumer, was received by {k} consumers: {}",
            (m.0, m.1),
            show()
        );
        if c.early > 0 {
            ensure!(
                got.iter().take(c.early).any(|g| g.contains(m)),
                "kept message not given to the first consumer"
            );
        }
    }
    if !c.persistent {
        for g in &got {
            ensure!(g.iter().all(|m| m.0 != 7), "a discarded message was delivered");
        }
    }
    // With persistent delivery nothing is lost even when declaring overlaps.
    if c.persistent {
        for m in &all {
            ensure!(
                got.iter().any(|g| g.contains(m)),
                "message {:?} was received by nobody: {}",
                (m.0, m.1),
                show()
            );
        }
        // What the first consumer got out of the kept messages comes first.
        for g in &got {
            let first_other = g.iter().position(|m| m.0 != 7).unwrap_or(g.len());
            ensure!(
                g[first_other..].iter().all(|m| m.0 != 7),
                "kept messages out of order: {}",
                show()
            );
        }
    }
    Ok(show())
}

/// Many messages kept for the first of several subscriptions, and many for all.
fn many(n: u32, persistent: bool, names: usize, which: usize) -> Result<String, String> {
    let conn = InMemoryConnection::new(ser(which));
    let mode = if persistent { DeliveryMode::Persistent } else { DeliveryMode::Ephemeral };
    mcrt::block_on(async {
        let h = conn.declare_queue("q", opts(SyndicationMode::Broadcast, mode)).await.unwrap();
        let m = |i: u32| (1, i, "x".repeat(i as usize % 300));
        for i in 0..n {
            h.publish(&m(i)).await.unwrap();
        }
        let mut cs = vec![];
        for i in 0..names {
            cs.push(h.declare_consumer::<Msg>(&format!("c{i}")).await.unwrap());
        }
        for i in n..2 * n {
            h.publish(&m(i)).await.unwrap();
        }
        for (k, c) in cs.iter_mut().enumerate() {
            let first = if persistent && k == 0 { 0 } else { n };
            for i in first..2 * n {
                match poll_now(c) {
                    Some((x, _)) => ensure!(x == m(i), "subscription {k} received {:?} in place {i}", (x.0, x.1)),
                    None => return Err(format!("subscription {k} of {names} misses message {i} and later ones of {}", 2 * n)),
                }
            }
            ensure!(poll_now(c).is_none(), "subscription {k} received more than was published");
        }
        Ok("all".into())
    })
}

pub fn scenarios(t: Tier) -> Vec<Scen> {
    let mut v = vec![];
    let d = t.pick(5, 7);
    for (n, m) in [("persistent", DeliveryMode::Persistent), ("ephemeral", DeliveryMode::Ephemeral)] {
        v.push(Scen::new(format!("sequences-{n}"), dev(0), move || sequences(d, m)).what(format!("all histories of {d} publishes, declarations (also of a name twice) and receptions over two names against a reference model")));
    }
    let mut cases: Vec<(&str, C)> = vec![
        ("early-2", C { persistent: true, before: 1, pubs: &[2, 1], early: 2, late: 0, same_name: false }),
        ("early-2-ephemeral", C { persistent: false, before: 1, pubs: &[2], early: 2, late: 0, same_name: false }),
        ("first-late", C { persistent: true, before: 1, pubs: &[2], early: 0, late: 1, same_name: false }),
        ("first-late-2p", C { persistent: true, before: 0, pubs: &[1, 1], early: 0, late: 1, same_name: false }),
        ("two-late", C { persistent: true, before: 0, pubs: &[1], early: 0, late: 2, same_name: false }),
        ("two-late-kept", C { persistent: true, before: 2, pubs: &[1], early: 0, late: 2, same_name: false }),
        ("early-late", C { persistent: true, before: 1, pubs: &[2], early: 1, late: 1, same_name: false }),
        ("early-late-ephemeral", C { persistent: false, before: 1, pubs: &[2], early: 1, late: 1, same_name: false }),
        ("same-name", C { persistent: true, before: 1, pubs: &[2], early: 1, late: 1, same_name: true }),
        ("same-name-race", C { persistent: true, before: 1, pubs: &[1], early: 0, late: 2, same_name: true }),
    ];
    if t.thorough() {
        cases.push(("two-late-2p", C { persistent: true, before: 1, pubs: &[1, 1], early: 0, late: 2, same_name: false }));
        cases.push(("three", C { persistent: true, before: 1, pubs: &[2], early: 1, late: 2, same_name: false }));
    }
    for (n, c) in cases {
        let b = t.pick(2, 3);
        let mut cfg = pre(b);
        cfg.shards = 2;
        v.push(Scen::new(n, cfg, move || body(&c)).what("all interleavings of publishers and of consumers being declared, within the preemption bound"));
    }
    let n = t.pick(1_500, 20_000);
    for persistent in [false, true] {
        for names in [1, 2, 9] {
            for which in 0..2 {
                v.push(
                    Scen::new(format!("many-persistent-{persistent}-names-{names}-format-{which}"), long(dev(0)), move || {
                        many(n, persistent, names, which)
                    })
                    .what(format!("{n} messages before and after {names} subscriptions, by the default schedule")),
                );
            }
        }
    }
    v
}
