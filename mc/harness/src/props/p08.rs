//! Single-delivery in-memory queues.
use std::sync::{Arc, Mutex};

use futures::StreamExt;
use mcrt::{choose, JoinHandle};
use paladin::{
    acker::Acker,
    queue::{
        in_memory::InMemoryConnection, Connection, DeliveryMode, Publisher, QueueDurability,
        QueueHandle, QueueOptions, SyndicationMode,
    },
    serializer::Serializer,
};

use crate::common::*;
use crate::ensure;

pub fn opts(s: SyndicationMode, d: DeliveryMode) -> QueueOptions {
    QueueOptions {
        delivery_mode: d,
        syndication_mode: s,
        durability: QueueDurability::NonDurable,
    }
}
pub fn single() -> QueueOptions {
    opts(SyndicationMode::ExactlyOnce, DeliveryMode::Persistent)
}
pub fn ser(i: usize) -> Serializer {
    if i == 0 {
        Serializer::Postcard
    } else {
        Serializer::Cbor
    }
}

pub type Msg = (u32, u32, String);
pub fn msg(p: u32, i: u32) -> Msg {
    (p, i, "x".repeat((p * 3 + i) as usize))
}
pub type Inbox = Arc<Mutex<Vec<Msg>>>;

type H = paladin::queue::in_memory::InMemoryQueueHandle;

/// A task that consumes until it is aborted (or `limit` messages).
fn consumer(h: &H, name: &'static str, limit: usize, inbox: Inbox) -> JoinHandle<()> {
    let h = h.clone();
    mcrt::task(name, async move {
        let mut c = h.declare_consumer::<Msg>(name).await.unwrap();
        for _ in 0..limit {
            let Some((m, a)) = c.next().await else { return };
            inbox.lock().unwrap().push(m);
            a.ack().await.unwrap();
        }
    })
}
fn publisher(h: &H, id: u32, n: u32) -> JoinHandle<()> {
    let h = h.clone();
    mcrt::task("publisher", async move {
        let p = h.publisher::<Msg>();
        for i in 0..n {
            p.publish(&msg(id, i)).await.unwrap();
        }
        let _: Result<(), _> = p.close().await;
    })
}

fn multiset(v: &[Msg]) -> Vec<Msg> {
    let mut v = v.to_vec();
    v.sort();
    v
}
pub fn in_order(v: &[Msg]) -> Result<(), String> {
    for p in 0..8 {
        let s: Vec<u32> = v.iter().filter(|m| m.0 == p).map(|m| m.1).collect();
        ensure!(
            s.windows(2).all(|w| w[0] < w[1]),
            "messages of publisher {p} received as {s:?}"
        );
    }
    Ok(())
}

struct C {
    pubs: &'static [u32],
    before: u32,
    cons: usize,
    /// One consumer takes this many messages and is then dropped.
    limited: Option<usize>,
    /// A further consumer is aborted at an explored moment.
    victim: bool,
}

fn body(c: &C) -> Result<String, String> {
    let conn = InMemoryConnection::new(ser(0));
    let inboxes: Vec<Inbox> = (0..c.cons + 1).map(|_| Default::default()).collect();
    mcrt::block_on(async {
        let h = conn.declare_queue("q", single()).await.unwrap();
        for i in 0..c.before {
            h.publish(&msg(7, i)).await.unwrap();
        }
        let names = ["c0", "c1", "c2"];
        let mut hs = vec![];
        let victim = c
            .victim
            .then(|| consumer(&h, "victim", usize::MAX, inboxes[c.cons].clone()));
        let late = choose(2) == 1;
        let start = |hs: &mut Vec<_>| {
            for i in 0..c.cons {
                let lim = match c.limited {
                    Some(l) if i == 0 => l,
                    _ => usize::MAX,
                };
                hs.push(consumer(&h, names[i], lim, inboxes[i].clone()));
            }
        };
        if !late {
            start(&mut hs);
        }
        let ps: Vec<_> = c
            .pubs
            .iter()
            .enumerate()
            .map(|(i, n)| publisher(&h, i as u32, *n))
            .collect();
        if let Some(v) = &victim {
            // At once, in the middle, or when it waits for ever.
            if choose(2) == 1 {
                mcrt::quiesce();
            }
            v.abort();
        }
        if late {
            if choose(2) == 1 {
                mcrt::quiesce();
            }
            start(&mut hs);
        }
        for p in ps {
            if let Err(e) = p.await {
                return Err(format!("publisher failed: {e:?}"));
            }
        }
        Ok(())
    })?;
    mcrt::quiesce();
    no_panics()?;
    let mut all: Vec<Msg> = (0..c.before).map(|i| msg(7, i)).collect();
    for (p, n) in c.pubs.iter().enumerate() {
        all.extend((0..*n).map(|i| msg(p as u32, i)));
    }
    let got: Vec<Vec<Msg>> = inboxes.iter().map(|i| i.lock().unwrap().clone()).collect();
    let union: Vec<Msg> = got.iter().flatten().cloned().collect();
    let short = |v: &[Msg]| v.iter().map(|m| (m.0, m.1)).collect::<Vec<_>>();
    ensure!(
        multiset(&union) == multiset(&all),
        "published {:?}, received {:?}",
        short(&all),
        got.iter().map(|g| short(g)).collect::<Vec<_>>()
    );
    for g in &got {
        in_order(g)?;
    }
    if let Some(l) = c.limited {
        ensure!(got[0].len() <= l, "a dropped consumer received more");
    }
    Ok(format!("{:?}", got.iter().map(|g| short(g)).collect::<Vec<_>>()))
}

/// Sequential histories against a reference queue: publish, poll of either
/// consumer once, drop and redeclare a consumer.
fn sequences(depth: usize) -> Result<String, String> {
    let conn = InMemoryConnection::new(ser(choose(2)));
    mcrt::block_on(async {
        let h = conn.declare_queue("q", single()).await.unwrap();
        let mut model = std::collections::VecDeque::new();
        let mut next = 0u32;
        let mut cons = vec![None, None];
        // A consumer whose last poll was pending waits and is served first.
        let mut waiting: Vec<usize> = vec![];
        let mut log = String::new();
        for _ in 0..depth {
            match choose(6) {
                z @ (0 | 5) => {
                    // A new content, or the same as before.
                    let m = msg(0, next);
                    next += (z == 0) as u32;
                    h.publish(&m).await.unwrap();
                    model.push_back(m);
                    log.push('p');
                }
                k @ (1 | 2) => {
                    let i = k - 1;
                    log.push_str(&format!("c{i}"));
                    if cons[i].is_none() {
                        cons[i] = Some(h.declare_consumer::<Msg>(["a", "b"][i]).await.unwrap());
                    }
                    let c = cons[i].as_mut().unwrap();
                    let got = poll_once(c);
                    // Messages are promised to consumers in the order they began to wait.
                    let ahead = waiting.iter().take_while(|w| **w != i).count();
                    match got {
                        Polled::Item((m, _)) => {
                            ensure!(
                                Some(&m) == model.front(),
                                "received {m:?}, next is {:?} ({log})",
                                model.front()
                            );
                            model.pop_front();
                            waiting.retain(|w| *w != i);
                        }
                        Polled::End => return Err("the queue ended".into()),
                        Polled::Busy => {}
                        Polled::Idle => {
                            ensure!(
                                model.len() <= ahead,
                                "nothing received although {} messages are queued ({log})",
                                model.len()
                            );
                            if !waiting.contains(&i) {
                                waiting.push(i);
                            }
                        }
                    }
                }
                k => {
                    let i = k - 3;
                    log.push_str(&format!("d{i}"));
                    cons[i] = None;
                    waiting.retain(|w| *w != i);
                }
            }
        }
        // Whoever polls now gets what is left.
        cons.clear();
        let mut c = h.declare_consumer::<Msg>("last").await.unwrap();
        while let Some(m) = model.pop_front() {
            match poll_now(&mut c) {
                Some((x, _)) => ensure!(x == m, "received {x:?}, next is {m:?} ({log})"),
                _ => return Err(format!("message {m:?} was lost ({log})")),
            }
        }
        ensure!(poll_now(&mut c).is_none(), "a message came from nowhere ({log})");
        Ok(log)
    })
}

/// Many messages, in batches, taken by several consumers.
fn many(n: u32, batch: u32, cons: usize, which: usize) -> Result<String, String> {
    let conn = InMemoryConnection::new(ser(which));
    mcrt::block_on(async {
        let h = conn.declare_queue("q", single()).await.unwrap();
        let mut cs = vec![];
        for i in 0..cons {
            cs.push(h.declare_consumer::<Msg>(&format!("c{i}")).await.unwrap());
        }
        let p = h.publisher::<Msg>();
        let (mut sent, mut got) = (0, vec![vec![]; cons]);
        let m = |i: u32| (1, i, "x".repeat(i as usize % 300));
        while sent < n {
            for _ in 0..batch.min(n - sent) {
                p.publish(&m(sent)).await.unwrap();
                sent += 1;
            }
            // Half of it; the rest stays behind.
            for k in 0..batch.div_ceil(2) as usize {
                let c = k % cons;
                if let Some((m, a)) = poll_now(&mut cs[c]) {
                    got[c].push(m);
                    a.ack().await.unwrap();
                }
            }
        }
        let mut idle = 0;
        while idle < 2 * cons {
            for c in 0..cons {
                match poll_now(&mut cs[c]) {
                    Some((m, _)) => {
                        got[c].push(m);
                        idle = 0;
                    }
                    None => idle += 1,
                }
            }
        }
        for g in &got {
            in_order(g)?;
        }
        let all: Vec<Msg> = multiset(&got.concat());
        let want: Vec<Msg> = (0..n).map(m).collect();
        ensure!(all.len() == want.len(), "{n} messages were published, {} received", all.len());
        if let Some(k) = (0..want.len()).find(|k| all[*k] != want[*k]) {
            return Err(format!("message {k} of {n} is received as {:?}", all[k]));
        }
        Ok("all".into())
    })
}

pub fn scenarios(t: Tier) -> Vec<Scen> {
    let mut v = vec![];
    let d = t.pick(6, 8);
    v.push(Scen::new("sequences", dev(0), move || sequences(d)).what(format!("all histories of {d} publishes, polls, drops and redeclarations of two consumers, both formats, against a FIFO reference")));
    let cases: Vec<(&str, C)> = vec![
        ("1p1c", C { pubs: &[2], before: 1, cons: 1, limited: None, victim: false }),
        ("1p2c", C { pubs: &[3], before: 0, cons: 2, limited: None, victim: false }),
        ("2p1c", C { pubs: &[2, 2], before: 0, cons: 1, limited: None, victim: false }),
        ("2p2c", C { pubs: &[2, 1], before: 1, cons: 2, limited: None, victim: false }),
        ("drop-after-1", C { pubs: &[2], before: 1, cons: 2, limited: Some(1), victim: false }),
        ("victim", C { pubs: &[2], before: 0, cons: 1, limited: None, victim: true }),
        ("victim-2", C { pubs: &[1, 1], before: 1, cons: 1, limited: None, victim: true }),
    ];
    for (n, c) in cases {
        let b = t.pick(2, 3);
        v.push(Scen::new(n, pre(b), move || body(&c)).what("all interleavings of publisher, consumer and abort within the preemption bound"));
    }
    let n = t.pick(3_000, 70_000);
    for (batch, cons) in [(n, 1), (n, 3), (1, 1), (7, 2), (300, 4)] {
        for which in 0..2 {
            v.push(
                Scen::new(format!("many-{batch}-consumers-{cons}-format-{which}"), long(dev(0)), move || many(n, batch, cons, which))
                    .what(format!("{n} messages, of which up to {batch} at a time are queued, by the default schedule")),
            );
        }
    }
    v
}
