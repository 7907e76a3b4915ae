//! Coordinated channels: liveness (P11) and safety (P12).
use std::{
    collections::VecDeque,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll, Waker},
};

use async_trait::async_trait;
use futures::{Stream, StreamExt};
use mcrt::{choose, point, Kind};
use paladin::{
    acker::{Acker, ComposedAcker, NoopAcker},
    channel::coordinated_channel::coordinated_channel,
    queue::Publisher,
};

use crate::common::*;
use crate::ensure;

/// The message sent after the closing.
const LATE: u32 = u32::MAX;

/// The inner channel: sends may fail, take a while, and arrive at once.
#[derive(Default)]
struct Pipe {
    q: VecDeque<u32>,
    waker: Option<Waker>,
    closes: usize,
    sent: Vec<u32>,
    /// The inner stream ends when its publisher was closed.
    ends: bool,
}
#[derive(Clone)]
struct Tx {
    p: Arc<Mutex<Pipe>>,
    fail: u32,
    slow: bool,
    /// The failing send takes its time.
    slow_fail: bool,
}
struct Rx(Arc<Mutex<Pipe>>);

#[async_trait]
impl Publisher<u32> for Tx {
    async fn publish(&self, m: &u32) -> anyhow::Result<()> {
        point(Kind::User);
        let failing = *m < 31 && self.fail & (1 << m) != 0;
        if self.slow || (failing && self.slow_fail) {
            super::p19::Pend(false).await;
        }
        if failing {
            anyhow::bail!("cannot send {m}")
        }
        let w = {
            let mut p = self.p.lock().unwrap();
            p.q.push_back(*m);
            p.sent.push(*m);
            p.waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
        point(Kind::User);
        Ok(())
    }
    async fn close(&self) -> anyhow::Result<()> {
        point(Kind::User);
        let w = {
            let mut p = self.p.lock().unwrap();
            p.closes += 1;
            p.waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
        if self.fail & (1 << 31) != 0 {
            anyhow::bail!("cannot close")
        }
        Ok(())
    }
}
impl Stream for Rx {
    type Item = u32;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u32>> {
        point(Kind::User);
        let mut p = self.0.lock().unwrap();
        match p.q.pop_front() {
            Some(m) => Poll::Ready(Some(m)),
            None if p.ends && p.closes > 0 => Poll::Ready(None),
            None => {
                p.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

#[derive(Default)]
struct Obs {
    got: Vec<u32>,
    acked: Vec<u32>,
    ended: bool,
    ended_in_need: Option<String>,
    sent_ok: Vec<u32>,
    failed: Vec<u32>,
    refused: Vec<u32>,
    /// The sending end was closed or dropped (before the call is made).
    closing: bool,
    closed: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ack {
    /// By the receiver, before it polls again.
    Inline,
    /// By other tasks, later, in any order.
    Apart,
    /// Kept until the harness acknowledges.
    Held,
    /// By two other tasks at once.
    Twins,
}

#[derive(Clone)]
struct C {
    sends: u32,
    tasks: usize,
    fail: u32,
    slow: bool,
    close: usize,
    ack: Ack,
    /// The receiver waits before anything is sent.
    waits: bool,
    twice: bool,
    /// The closer does not wait for the publishers.
    overlap: bool,
    /// The inner stream ends by itself.
    ends: bool,
}

fn record_end(o: &mut Obs) {
    o.ended = true;
    if !o.closing {
        o.ended_in_need = Some("the sending end is open".into());
    }
    let missing: Vec<u32> = o
        .sent_ok
        .iter()
        .filter(|m| !o.acked.contains(m))
        .copied()
        .collect();
    if !missing.is_empty() {
        o.ended_in_need = Some(format!(
            "messages {missing:?} are not received and acknowledged"
        ));
    }
}

fn body(c: &C, live: bool) -> Result<String, String> {
    let pipe: Arc<Mutex<Pipe>> = Default::default();
    pipe.lock().unwrap().ends = c.ends;
    let tx = Tx {
        p: pipe.clone(),
        fail: c.fail,
        slow: c.slow,
        slow_fail: c.fail != 0 && choose(2) == 1,
    };
    let (tx, rx) = coordinated_channel::<u32, u32, _, _>(tx, Rx(pipe.clone()));
    let obs: Arc<Mutex<Obs>> = Default::default();
    type Held = Arc<Mutex<Vec<(u32, Arc<dyn Acker>)>>>;
    let held: Held = Default::default();
    let receiver = {
        let obs = obs.clone();
        let held = held.clone();
        let c = c.clone();
        move || {
            mcrt::task("receiver", async move {
                let mut rx = std::pin::pin!(rx);
                while let Some((m, a)) = rx.next().await {
                    obs.lock().unwrap().got.push(m);
                    // Acked first: an end afterwards is legitimate.
                    let nack = m % 2 == 1;
                    let a: Arc<dyn Acker> = Arc::new(ComposedAcker::new(NoopAcker::new(), a));
                    match c.ack {
                        Ack::Inline => {
                            obs.lock().unwrap().acked.push(m);
                            for _ in 0..1 + c.twice as usize {
                                if nack {
                                    a.nack().await.unwrap()
                                } else {
                                    a.ack().await.unwrap()
                                }
                            }
                        }
                        Ack::Apart => {
                            let obs = obs.clone();
                            let twice = c.twice;
                            mcrt::task("acker", async move {
                                super::p19::Pend(false).await;
                                obs.lock().unwrap().acked.push(m);
                                for _ in 0..1 + twice as usize {
                                    if nack {
                                        a.nack().await.unwrap()
                                    } else {
                                        a.ack().await.unwrap()
                                    }
                                }
                            });
                        }
                        Ack::Twins => {
                            for nack in [nack, !nack] {
                                let obs = obs.clone();
                                let a = a.clone();
                                mcrt::task("acker", async move {
                                    obs.lock().unwrap().acked.push(m);
                                    if nack {
                                        a.nack().await.unwrap()
                                    } else {
                                        a.ack().await.unwrap()
                                    }
                                });
                            }
                        }
                        Ack::Held => held.lock().unwrap().push((m, a)),
                    }
                }
                record_end(&mut obs.lock().unwrap());
            })
        }
    };
    let mut keep = vec![];
    let mut receiver = Some(receiver);
    if c.waits {
        keep.push((receiver.take().unwrap())());
        mcrt::quiesce();
    }
    // The sending end lives in an Arc: the last owner drops it.
    let tx = Arc::new(tx);
    let mut pubs = vec![];
    for t in 0..c.tasks {
        let tx = tx.clone();
        let obs = obs.clone();
        let ms: Vec<u32> = (0..c.sends).filter(|m| *m as usize % c.tasks == t).collect();
        pubs.push(mcrt::task("publisher", async move {
            for m in ms {
                let r = tx.publish(&m).await;
                let mut o = obs.lock().unwrap();
                match r {
                    Ok(()) => {
                        if o.ended && !o.acked.contains(&m) {
                            o.ended_in_need.get_or_insert(format!(
                                "message {m} was published after the end"
                            ));
                        }
                        o.sent_ok.push(m)
                    }
                    Err(e) if e.to_string().contains("closed") => o.refused.push(m),
                    Err(_) => o.failed.push(m),
                }
            }
        }));
    }
    let closer = {
        let obs = obs.clone();
        let how = c.close;
        let tx2 = tx.clone();
        drop(tx);
        let wait = !c.overlap;
        mcrt::task("closer", async move {
            if wait {
                for p in pubs {
                    p.await.unwrap();
                }
            }
            obs.lock().unwrap().closing = true;
            if how != 1 {
                let r = tx2.close().await;
                if how == 2 {
                    // Closing twice is harmless.
                    let _ = tx2.close().await;
                }
                obs.lock().unwrap().closed = r.is_ok();
            }
            if how == 0 || how == 2 {
                let r = tx2.publish(&LATE).await;
                let mut o = obs.lock().unwrap();
                match r {
                    Ok(()) => o.sent_ok.push(LATE),
                    Err(_) => o.refused.push(LATE),
                }
                drop(o);
                // Kept open beyond the end of the test.
                std::mem::forget(tx2);
            }
        })
    };
    keep.push(closer);
    if let Some(r) = receiver.take() {
        if choose(2) == 1 {
            mcrt::quiesce();
        }
        keep.push(r());
    }
    mcrt::quiesce();
    // Held acknowledgements, in every order.
    while c.ack == Ack::Held {
        {
            let o = obs.lock().unwrap();
            if let Some(w) = &o.ended_in_need {
                return Err(format!("the receiver ended although {w}"));
            }
        }
        let n = held.lock().unwrap().len();
        if n == 0 {
            break;
        }
        let (m, a) = held.lock().unwrap().remove(choose(n));
        obs.lock().unwrap().acked.push(m);
        let nack = choose(2) == 1;
        mcrt::block_on(async {
            for _ in 0..1 + c.twice as usize {
                if nack {
                    a.nack().await.unwrap()
                } else {
                    a.ack().await.unwrap()
                }
            }
        });
        mcrt::quiesce();
    }
    mcrt::quiesce();
    no_panics()?;
    let o = obs.lock().unwrap();
    let desc = format!(
        "sent {:?} failed {:?} refused {:?} received {:?} acked {:?}",
        o.sent_ok, o.failed, o.refused, o.got, o.acked
    );
    // Safety.
    if let Some(w) = &o.ended_in_need {
        return Err(format!("the receiver ended although {w} ({desc})"));
    }
    let mut g = o.got.clone();
    g.sort();
    let mut s = o.sent_ok.clone();
    s.sort();
    let l = g.len();
    g.dedup();
    ensure!(l == g.len(), "a message was received twice: {desc}");
    ensure!(
        g.iter().all(|m| s.contains(m)),
        "received something that was not published: {desc}"
    );
    ensure!(!(o.ended && g != s), "the receiver ended too early: {desc}");
    if live {
        ensure!(g == s, "a published message was not received: {desc}");
        ensure!(
            o.ended,
            "the receiver waits for ever although the sending end is closed and everything is acknowledged: {desc}"
        );
        if c.close != 1 && !o.refused.contains(&LATE) && o.closed {
            return Err(format!("publishing after close succeeded: {desc}"));
        }
        if c.close == 0 && o.closed {
            ensure!(
                pipe.lock().unwrap().closes >= 1,
                "the wrapped publisher was not closed"
            );
        }
    }
    Ok(desc)
}

/// With the sending end open the receiver waits, whatever was acknowledged.
fn stays_open(n: u32) -> Result<String, String> {
    let pipe: Arc<Mutex<Pipe>> = Default::default();
    let tx = Tx {
        p: pipe.clone(),
        fail: 0,
        slow: false,
        slow_fail: false,
    };
    let (tx, rx) = coordinated_channel::<u32, u32, _, _>(tx, Rx(pipe.clone()));
    let ended = Arc::new(Mutex::new(vec![]));
    let e2 = ended.clone();
    let h = mcrt::task("receiver", async move {
        let mut rx = std::pin::pin!(rx);
        while let Some((m, a)) = rx.next().await {
            e2.lock().unwrap().push(m);
            a.ack();
            a.ack();
        }
    });
    for m in 0..n {
        mcrt::block_on(tx.publish(&m)).map_err(|e| e.to_string())?;
        if choose(2) == 1 {
            mcrt::quiesce();
        }
        ensure!(!h.is_finished(), "the receiver ended while the sending end is open");
    }
    mcrt::quiesce();
    ensure!(!h.is_finished(), "the receiver ended while the sending end is open");
    let got = ended.lock().unwrap().clone();
    ensure!(got == (0..n).collect::<Vec<_>>(), "received {got:?}");
    drop(tx);
    Ok(String::new())
}

pub fn scenarios(t: Tier, live: bool) -> Vec<Scen> {
    let mut v = vec![];
    let base = C {
        sends: 2,
        tasks: 1,
        fail: 0,
        slow: false,
        close: 0,
        ack: Ack::Inline,
        waits: true,
        twice: false,
        overlap: false,
        ends: false,
    };
    let mut cases: Vec<(String, C)> = vec![];
    for close in 0..3 {
        for waits in [true, false] {
            for ack in [Ack::Inline, Ack::Apart, Ack::Held] {
                for sends in 0..=2 {
                    for (twice, slow) in [(false, false), (true, true)] {
                        cases.push((
                            format!("{sends}-close{close}-waits-{waits}-{ack:?}-twice-{twice}"),
                            C { sends, close, waits, ack, twice, slow, ..base.clone() },
                        ));
                    }
                }
            }
        }
    }
    for overlap in [false, true] {
        for tasks in 1..=2 {
            for close in 0..2 {
                for fail in [0u32, 1, 2, 3] {
                    for ack in [Ack::Inline, Ack::Apart] {
                        cases.push((
                            format!("overlap-{overlap}-tasks{tasks}-close{close}-fail{fail}-{ack:?}"),
                            C { tasks, close, fail, overlap, ack, slow: tasks == 1, ..base.clone() },
                        ));
                    }
                }
            }
        }
    }
    for waits in [true, false] {
        for sends in 1..=2 {
            for overlap in [false, true] {
                cases.push((
                    format!("twins-{sends}-waits-{waits}-overlap-{overlap}"),
                    C { sends, waits, overlap, ack: Ack::Twins, ..base.clone() },
                ));
            }
            for ack in [Ack::Inline, Ack::Apart, Ack::Held, Ack::Twins] {
                for close in [0, 2] {
                    cases.push((
                        format!("inner-ends-{sends}-waits-{waits}-{ack:?}-close{close}"),
                        C { sends, waits, ack, close, ends: true, ..base.clone() },
                    ));
                }
            }
        }
    }
    cases.push((
        "close-fails".into(),
        C { fail: 1 << 31, close: 3, ..base.clone() },
    ));
    if t.thorough() {
        for overlap in [false, true] {
            for close in 0..2 {
                for fail in [0u32, 2, 5] {
                    cases.push((
                        format!("three-overlap-{overlap}-close{close}-fail{fail}"),
                        C { sends: 3, tasks: 3, close, fail, overlap, ack: Ack::Apart, ..base.clone() },
                    ));
                }
            }
        }
    }
    for (n, c) in cases {
        let b = t.pick(2, 3);
        v.push(
            Scen::new(n, pre(b), move || body(&c, live))
                .what("all interleavings of publishing, closing, receiving and acknowledging within the preemption bound"),
        );
    }
    let n = t.pick(200, 600);
    for (close, ack, tasks, waits) in [
        (0, Ack::Inline, 1, true),
        (1, Ack::Apart, 3, false),
        (0, Ack::Twins, 2, true),
        (2, Ack::Apart, 4, true),
    ] {
        let c = C { sends: n, close, ack, tasks, waits, slow: tasks == 3, ..base.clone() };
        v.push(
            Scen::new(format!("many-close{close}-{ack:?}-tasks{tasks}"), long(dev(0)), move || body(&c, live))
                .what("hundreds of messages, by the default schedule"),
        );
    }
    if !live {
        v.push(Scen::new("stays-open", pre(3), || stays_open(3)));
    }
    v
}
