//! Single-delivery queues of the AMQP backend against a model broker.
use std::sync::{Arc, Mutex};

use futures::StreamExt;
use lapin::model::with;
use mcrt::choose;
use paladin::{
    acker::Acker,
    queue::{
        amqp::{AMQPAcker, AMQPConnection, AMQPConsumer},
        Connection, DeliveryMode, Publisher, QueueDurability, QueueHandle, QueueOptions,
        SyndicationMode,
    },
};
use serde::{Deserialize, Serialize};

use crate::common::*;
use crate::ensure;
use crate::rt::*;

pub fn opts(s: SyndicationMode, i: usize) -> QueueOptions {
    QueueOptions {
        syndication_mode: s,
        delivery_mode: [DeliveryMode::Persistent, DeliveryMode::Ephemeral][i % 2],
        durability: [QueueDurability::NonDurable, QueueDurability::Durable][i / 2 % 2],
    }
}
fn single(i: usize) -> QueueOptions {
    opts(SyndicationMode::ExactlyOnce, i)
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Note {
    pub n: u32,
    pub text: String,
}
pub fn note(n: u32) -> Note {
    Note {
        n,
        text: "é".repeat(n as usize % 3),
    }
}
/// Bytes that are no [`Note`] in either format.
pub const GARBAGE: [&[u8]; 3] = [&[], &[0xff], &[0x05, 0x09, b'x']];

pub fn wake(w: Vec<std::task::Waker>) {
    for w in w {
        w.wake()
    }
}

/// A consumer with the deliveries it has not settled.
struct Cons {
    conn: usize,
    queue: usize,
    c: AMQPConsumer<Note>,
    held: Vec<(u32, Note, AMQPAcker)>,
}
#[derive(Clone, Debug, PartialEq)]
enum St {
    Queued,
    Held(usize),
    Settled(bool),
}
/// A message of the reference: queue, content (None is garbage), state.
struct M {
    queue: usize,
    note: Option<Note>,
    st: St,
}

struct World {
    qos: u16,
    conns: Vec<(AMQPConnection, usize)>,
    cons: Vec<Option<Cons>>,
    msgs: Vec<M>,
    log: String,
}
const NAMES: [&str; 2] = ["tasks", "tasks-2"];

impl World {
    async fn connect(&mut self) {
        let c = amqp_connection_qos(Ser::Postcard, self.qos).await;
        let id = with(|w| w.conns.len() - 1);
        self.conns.push((c, id));
    }
    /// Takes one delivery from consumer `i`, if there is one.
    async fn receive(&mut self, i: usize) -> Result<bool, String> {
        let log = &self.log;
        let qos = self.qos as usize;
        let Some(c) = self.cons[i].as_mut() else { return Ok(false) };
        let mut got = poll_now(&mut c.c);
        // Malformed messages are settled in the background.
        for _ in 0..4 {
            if got.is_none() {
                mcrt::quiesce();
                got = poll_now(&mut c.c);
            }
        }
        match got {
            Some((n, a)) => {
                let q = c.queue;
                let Some(ix) = self
                    .msgs
                    .iter()
                    .position(|m| m.queue == q && m.st == St::Queued && m.note.as_ref() == Some(&n))
                else {
                    return Err(format!(
                        "consumer {i} received {n:?}, which is not there to be delivered ({log})"
                    ));
                };
                self.msgs[ix].st = St::Held(i);
                c.held.push((ix as u32, n, a));
                ensure!(
                    c.held.len() <= qos,
                    "consumer {i} holds {} unsettled messages, the prefetch count is {qos} ({log})",
                    c.held.len()
                );
                Ok(true)
            }
            None => {
                if c.held.len() < qos {
                    // Others may have prefetched what is queued.
                    let others: usize = 0;
                    let (ready, _) = with(|w| w.depth(URI, NAMES[c.queue])).unwrap_or((0, 0));
                    ensure!(
                        ready == others,
                        "consumer {i} holds {} of {qos} messages and gets nothing, but {ready} messages are ready ({log})",
                        c.held.len()
                    );
                }
                Ok(false)
            }
        }
    }
    async fn settle(&mut self, i: usize, newest: bool, ack: bool) -> Result<(), String> {
        let Some(c) = self.cons[i].as_mut() else { return Ok(()) };
        if c.held.is_empty() {
            return Ok(());
        }
        let (ix, n, a) = c.held.remove(if newest { c.held.len() - 1 } else { 0 });
        let before = with(|w| w.settled.len());
        let r = if ack { a.ack().await } else { a.nack().await };
        ensure!(r.is_ok(), "settling {n:?} failed: {r:?} ({})", self.log);
        let s = with(|w| w.settled[before..].to_vec());
        ensure!(
            s.len() == 1 && s[0].0 == NAMES[c.queue] && s[0].2 == ack,
            "settling {n:?} (ack {ack}) settled {s:?} at the broker ({})",
            self.log
        );
        self.msgs[ix as usize].st = St::Settled(ack);
        Ok(())
    }
    /// Whatever consumer `i` held goes back.
    fn lose(&mut self, i: usize) {
        if self.cons[i].take().is_some() {
            for m in self.msgs.iter_mut() {
                if m.st == St::Held(i) {
                    m.st = St::Queued;
                }
            }
        }
    }
}

fn sequences(depth: usize, qos: u16, faults: bool) -> Result<String, String> {
    mcrt::block_on(async {
        let mut w = World {
            qos,
            conns: vec![],
            cons: vec![None, None],
            msgs: vec![],
            log: format!("qos {qos}: "),
        };
        w.connect().await;
        w.connect().await;
        let publisher = amqp_connection(Ser::Postcard).await;
        let o = choose(2) * 3;
        let mut handles = vec![];
        for n in NAMES {
            handles.push(publisher.declare_queue(n, single(o)).await.map_err(|e| e.to_string())?);
        }
        let mut next = 0;
        for _ in 0..depth {
            // publish, malformed, receive, ack, nack, lose, redeclare
            let acts = if faults { 8 } else { 6 };
            match choose(acts) {
                0 => {
                    let q = choose(2);
                    w.log.push_str(&format!("P{q} "));
                    let r = handles[q].publisher::<Note>().publish(&note(next)).await;
                    ensure!(r.is_ok(), "publishing failed: {r:?} ({})", w.log);
                    w.msgs.push(M { queue: q, note: Some(note(next)), st: St::Queued });
                    next += 1;
                }
                i @ (1 | 2) => {
                    let i = i - 1;
                    if w.cons[i].is_none() {
                        let conn = w.conns[i].0.clone();
                        let h = conn.declare_queue(NAMES[0], single(o)).await.map_err(|e| e.to_string())?;
                        let c = h.declare_consumer::<Note>(["one", "two"][i]).await.map_err(|e| e.to_string())?;
                        w.cons[i] = Some(Cons { conn: i, queue: 0, c, held: vec![] });
                        w.log.push_str(&format!("C{i} "));
                    }
                    let r = w.receive(i).await?;
                    w.log.push_str(&format!("R{i}{} ", if r { "+" } else { "-" }));
                }
                k @ (3 | 4) => {
                    let i = choose(2);
                    let newest = qos > 1 && choose(2) == 1;
                    w.log.push_str(&format!("{}{i}{} ", if k == 3 { "A" } else { "N" }, if newest { "l" } else { "f" }));
                    w.settle(i, newest, k == 3).await?;
                }
                5 => {
                    let g = choose(GARBAGE.len());
                    w.log.push_str(&format!("G{g} "));
                    wake(with(|x| x.inject(URI, NAMES[0], GARBAGE[g])));
                    w.msgs.push(M { queue: 0, note: None, st: St::Queued });
                }
                k => {
                    // Connection 0 is lost, or consumer 0's connection is closed.
                    let i = k - 6;
                    w.log.push_str(&format!("L{i} "));
                    if i == 0 {
                        wake(with(|x| x.kill_connection(w.conns[0].1)));
                    } else {
                        let _ = w.conns[0].0.close().await;
                    }
                    if let Some(c) = w.cons[0].as_mut() {
                        // What had been handed out already may still be received; settling
                        // it is impossible. The stream must not go on or hang.
                        for _ in 0..4 {
                            let r = futures::future::poll_immediate(c.c.next()).await;
                            match r {
                                Some(None) => break,
                                Some(Some((n, _))) => ensure!(
                                    w.msgs.iter().any(|m| m.note.as_ref() == Some(&n)),
                                    "received {n:?} from nowhere"
                                ),
                                None => return Err(format!("a consumer waits on a lost connection ({})", w.log)),
                            }
                        }
                        ensure!(c.conn == 0, "wrong connection");
                    }
                    w.lose(0);
                    let fresh = amqp_connection_qos(Ser::Postcard, qos).await;
                    w.conns[0] = (fresh, with(|x| x.conns.len() - 1));
                }
            }
            mcrt::quiesce();
        }
        // Everything that was not settled is still there.
        for (_, id) in &w.conns {
            wake(with(|x| x.kill_connection(*id)));
        }
        w.lose(0);
        w.lose(1);
        let log = w.log.clone();
        let last = amqp_connection(Ser::Postcard).await;
        for q in 0..2 {
            let h = last.declare_queue(NAMES[q], single(o)).await.map_err(|e| e.to_string())?;
            let mut c = h.declare_consumer::<Note>("last").await.map_err(|e| e.to_string())?;
            let mut got = vec![];
            loop {
                let mut x = poll_now(&mut c);
                for _ in 0..6 {
                    if x.is_none() {
                        mcrt::quiesce();
                        x = poll_now(&mut c);
                    }
                }
                let Some((n, a)) = x else { break };
                a.ack().await.map_err(|e| e.to_string())?;
                got.push(n);
            }
            let want: Vec<Note> = w
                .msgs
                .iter()
                .filter(|m| m.queue == q && m.st == St::Queued)
                .filter_map(|m| m.note.clone())
                .collect();
            ensure!(
                got == want,
                "in the end queue {q} holds {got:?}, expected {want:?} ({log})"
            );
        }
        no_panics()?;
        Ok(log)
    })
}

// ----------------------------------------------------------- concurrent use

#[derive(Clone, Copy)]
struct C {
    pubs: &'static [u32],
    consumers: usize,
    qos: u16,
    /// The first consumer's connection is lost at an enumerated moment.
    kill: bool,
    garbage: usize,
    /// Every second message is nacked.
    nack: bool,
}

fn body(c: C) -> Result<String, String> {
    let got: Vec<Arc<Mutex<Vec<Note>>>> = (0..c.consumers).map(|_| Default::default()).collect();
    let settled: Arc<Mutex<Vec<Note>>> = Default::default();
    let mut ids = vec![];
    let mut hs = vec![];
    mcrt::block_on(async {
        for i in 0..c.consumers {
            let conn = amqp_connection_qos(Ser::Cbor, c.qos).await;
            ids.push(with(|w| w.conns.len() - 1));
            let h = conn.declare_queue("tasks", single(0)).await.unwrap();
            let (inbox, settled) = (got[i].clone(), settled.clone());
            hs.push(mcrt::task(&format!("consumer{i}"), async move {
                let mut s = h.declare_consumer::<Note>(&format!("c{i}")).await.unwrap();
                while let Some((n, a)) = s.next().await {
                    inbox.lock().unwrap().push(n.clone());
                    let bad = c.nack && n.n % 2 == 1;
                    let r = if bad { a.nack().await } else { a.ack().await };
                    if r.is_ok() {
                        settled.lock().unwrap().push(n);
                    }
                }
                // Keeps the connection to the end.
                drop(conn);
            }));
        }
    });
    mcrt::quiesce();
    mcrt::start_exploring();
    for (p, n) in c.pubs.iter().enumerate() {
        let n = *n;
        hs.push(mcrt::task("publisher", async move {
            let conn = amqp_connection(Ser::Cbor).await;
            let h = conn.declare_queue("tasks", single(0)).await.unwrap();
            let q = h.publisher::<Note>();
            for i in 0..n {
                q.publish(&note(1000 * p as u32 + i)).await.unwrap();
            }
            q.close().await.unwrap();
        }));
    }
    for g in 0..c.garbage {
        if choose(2) == 1 {
            mcrt::quiesce();
        }
        wake(with(|w| w.inject(URI, "tasks", GARBAGE[g])));
    }
    if c.kill {
        let id = ids[0];
        let at = choose(3);
        hs.push(mcrt::task("network", async move {
            for _ in 0..at {
                mcrt::yield_point();
            }
            wake(with(|w| w.kill_connection(id)));
        }));
    }
    mcrt::quiesce();
    no_panics()?;
    let mut want: Vec<Note> = vec![];
    for (p, n) in c.pubs.iter().enumerate() {
        want.extend((0..*n).map(|i| note(1000 * p as u32 + i)));
    }
    let show: Vec<Vec<u32>> = got.iter().map(|g| g.lock().unwrap().iter().map(|n| n.n).collect()).collect();
    let mut s = settled.lock().unwrap().clone();
    s.sort();
    ensure!(
        s == want,
        "published {:?}, settled {:?}, received {show:?}",
        want.iter().map(|n| n.n).collect::<Vec<_>>(),
        s.iter().map(|n| n.n).collect::<Vec<_>>()
    );
    let total: usize = show.iter().map(|g| g.len()).sum();
    ensure!(
        c.kill || total == want.len(),
        "messages were delivered more than once: {show:?}"
    );
    let left = with(|w| w.depth(URI, "tasks"));
    ensure!(left == Some((0, 0)), "messages left at the broker (ready, unsettled): {left:?}, received {show:?}");
    Ok(format!("{show:?}"))
}

pub fn scenarios(t: Tier) -> Vec<Scen> {
    let mut v = vec![];
    for qos in [1, 2] {
        for faults in [false, true] {
            let d = t.pick(5, 6);
            let mut cfg = dev(0);
            cfg.shards = 3;
            v.push(
                Scen::new(format!("sequences-qos-{qos}-faults-{faults}"), cfg, move || sequences(d, qos, faults))
                    .weight(4.0)
                    .what(format!("all histories of {d} publishes to two queues, receptions by two connections, acknowledgements of either kind and order, malformed messages{}", if faults { ", connection losses" } else { "" })),
            );
        }
    }
    for pubs in [&[2u32][..], &[3], &[1, 1], &[2, 1]] {
        for consumers in 1..=2 {
            for (qos, kill, garbage, nack) in [
                (1, false, 0, false),
                (2, false, 0, true),
                (1, false, 1, false),
                (2, false, 2, false),
                (1, true, 0, false),
                (2, true, 1, false),
            ] {
                if kill && consumers < 2 {
                    continue;
                }
                let c = C { pubs, consumers, qos, kill, garbage, nack };
                v.push(
                    Scen::new(
                        format!("schedules-{pubs:?}-consumers-{consumers}-qos-{qos}-kill-{kill}-garbage-{garbage}"),
                        deferred(dev(t.pick(if pubs.len() == 1 && !kill { 2 } else { 1 }, 2))),
                        move || body(c),
                    )
                    .what("all schedules within the deviation bound of publishers, consumers and the loss of a connection"),
                );
            }
        }
    }
    for (pubs, consumers, qos) in [
        (&[300u32][..], 1, 1),
        (&[300], 3, 2),
        (&[150, 150], 2, 16),
        (&[100, 100, 100], 4, 1),
    ] {
        for garbage in [0, 2] {
            let c = C { pubs, consumers, qos, kill: false, garbage, nack: false };
            v.push(
                Scen::new(format!("many-{pubs:?}-consumers-{consumers}-qos-{qos}-garbage-{garbage}"), long(dev(0)), move || body(c))
                    .what("hundreds of messages, by the default schedule"),
            );
        }
    }
    v
}
