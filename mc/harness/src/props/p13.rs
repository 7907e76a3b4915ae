//! Release of leased channels.
use std::{
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll},
};

use async_trait::async_trait;
use futures::{Stream, StreamExt};
use lapin::model::with;
use mcrt::choose;
use paladin::{
    acker::{Acker, NoopAcker},
    channel::{queue::QueueChannelFactory, Channel, ChannelFactory, ChannelType, LeaseGuard},
    directive::{Directive, IndexedStream, Literal},
    queue::{
        in_memory::{InMemoryConnection, InMemoryQueueHandle},
        Connection, Publisher, QueueOptions,
    },
    runtime::{COMMAND_IPC_ROUTING_KEY, TASK_IPC_ROUTING_KEY},
    serializer::Serializable,
    task::Task,
};

use super::p02::{cat_of, letters};
use crate::common::*;
use crate::ensure;
use crate::ops::*;
use crate::rt::*;

// ------------------------------------------------------ the guard by itself

/// A channel that counts its releases.
#[derive(Clone, Default)]
struct Counting(Arc<Mutex<u32>>);
struct NoSender;
#[async_trait]
impl<T: Serializable> Publisher<T> for NoSender {
    async fn publish(&self, _: &T) -> anyhow::Result<()> {
        Ok(())
    }
    async fn close(&self) -> anyhow::Result<()> {
        Ok(())
    }
}
struct NoReceiver<T>(std::marker::PhantomData<fn() -> T>);
impl<T> Stream for NoReceiver<T> {
    type Item = (T, NoopAcker);
    fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        Poll::Ready(None)
    }
}
#[async_trait]
impl Channel for Counting {
    type Sender<'a, T: Serializable + 'a> = NoSender;
    type Acker = NoopAcker;
    type Receiver<'a, T: Serializable + 'a> = NoReceiver<T>;
    async fn close(&self) -> anyhow::Result<()> {
        Ok(())
    }
    async fn sender<'a, T: Serializable + 'a>(&self) -> anyhow::Result<NoSender> {
        Ok(NoSender)
    }
    async fn receiver<'a, T: Serializable + 'a>(&self) -> anyhow::Result<NoReceiver<T>> {
        Ok(NoReceiver(std::marker::PhantomData))
    }
    fn release(&self) {
        *self.0.lock().unwrap() += 1;
    }
}

/// All uses of a guarded stream up to a length, the last being its drop.
fn guard(depth: usize) -> Result<String, String> {
    let items = choose(4);
    let chan = Counting::default();
    let n = || *chan.0.lock().unwrap();
    let (feed, s) = Feed::new(0..items as u32);
    let mut log = format!("{items} items: ");
    let mut next = 0;
    // Plain, boxed, or inside of another combinator.
    let shape = choose(4);
    log.push_str(["plain ", "boxed ", "mapped ", "taken "][shape]);
    let g = LeaseGuard::new(chan.clone(), s);
    let mut g: Box<dyn Stream<Item = u32> + Unpin + Send> = match shape {
        0 => Box::new(g),
        1 => Box::new(Box::pin(g)),
        2 => Box::new(g.map(|x| x)),
        _ => Box::new(g.take(10)),
    };
    let mut ended = false;
    for _ in 0..depth {
        ensure!(n() == 0, "released {} times before the drop ({log})", n());
        match choose(4) {
            // Drop now.
            0 => break,
            1 => {
                log.push('+');
                feed.advance();
            }
            // Poll.
            2 => {
                if ended {
                    continue;
                }
                match poll_once(&mut g) {
                    Polled::Item(x) => {
                        log.push_str(&x.to_string());
                        ensure!(x == next, "yielded {x} instead of {next} ({log})");
                        next += 1;
                    }
                    Polled::End => {
                        log.push('$');
                        ensure!(next == items as u32, "ended after {next} of {items} ({log})");
                        ended = true;
                    }
                    _ => log.push('.'),
                }
            }
            // Move it to another owner.
            _ => {
                log.push('>');
                let h = mcrt::task("mover", async move { g });
                g = h.join_blocking().map_err(|_| "the mover failed")?;
            }
        }
    }
    ensure!(n() == 0, "released {} times before the drop ({log})", n());
    match choose(3) {
        0 => drop(g),
        // By another task; by one that is aborted.
        1 => {
            let h = mcrt::task("dropper", async move { drop(g) });
            let _ = h.join_blocking();
        }
        _ => {
            let h = mcrt::task("dropper", async move {
                let _g = g;
                std::future::pending::<()>().await
            });
            mcrt::quiesce();
            ensure!(n() == 0, "released by a waiting owner ({log})");
            h.abort();
            mcrt::quiesce();
        }
    }
    ensure!(n() == 1, "released {} times after the drop ({log})", n());
    mcrt::quiesce();
    ensure!(n() == 1, "released {} times later ({log})", n());
    Ok(log)
}

// ------------------------------------------------- channels over a connection

/// Deletions and closings that a connection was asked for.
#[derive(Clone)]
struct Watched {
    inner: InMemoryConnection,
    deleted: Arc<Mutex<Vec<String>>>,
    closed: Arc<Mutex<u32>>,
}
#[async_trait]
impl Connection for Watched {
    type QueueHandle = InMemoryQueueHandle;
    async fn close(&self) -> anyhow::Result<()> {
        *self.closed.lock().unwrap() += 1;
        self.inner.close().await
    }
    async fn declare_queue(&self, name: &str, options: QueueOptions) -> anyhow::Result<InMemoryQueueHandle> {
        self.inner.declare_queue(name, options).await
    }
    async fn delete_queue(&self, name: &str) -> anyhow::Result<()> {
        self.deleted.lock().unwrap().push(name.to_string());
        self.inner.delete_queue(name).await
    }
}

/// Two leased channels of one connection: senders and receivers come and go.
fn channels(depth: usize, kind: ChannelType) -> Result<String, String> {
    mcrt::block_on(async {
        let conn = Watched {
            inner: InMemoryConnection::new(Ser::Postcard.get()),
            deleted: Default::default(),
            closed: Default::default(),
        };
        let f = QueueChannelFactory::new(conn.clone());
        let mut chans = vec![];
        let mut guards = vec![];
        let mut senders = vec![];
        let mut names: Vec<String> = vec![];
        for _ in 0..2 {
            let (name, c) = f.issue(kind).await.map_err(|e| e.to_string())?;
            ensure!(!names.contains(&name), "two channels were issued as {name}");
            let r = c.receiver::<u32>().await.map_err(|e| e.to_string())?;
            senders.push(Some(c.sender::<u32>().await.map_err(|e| e.to_string())?));
            guards.push(Some(LeaseGuard::new(c.clone(), r)));
            chans.push(c);
            names.push(name);
        }
        let mut want: Vec<String> = vec![];
        let mut queued = [vec![], vec![]];
        let mut next = 0;
        let mut log = String::new();
        for _ in 0..depth {
            let i = choose(2);
            match choose(6) {
                0 => {
                    log.push_str(&format!("S{i} "));
                    if let Some(s) = &senders[i] {
                        s.publish(&next).await.map_err(|e| e.to_string())?;
                        if guards[i].is_some() {
                            queued[i].push(next);
                        }
                        next += 1;
                    }
                }
                // A sender obtained by name.
                1 => {
                    if guards[i].is_none() {
                        continue;
                    }
                    log.push_str(&format!("N{i} "));
                    let c = f.get(names[i].clone(), kind).await.map_err(|e| e.to_string())?;
                    let s = c.sender::<u32>().await.map_err(|e| e.to_string())?;
                    s.publish(&next).await.map_err(|e| e.to_string())?;
                    queued[i].push(next);
                    next += 1;
                    s.close().await.map_err(|e| e.to_string())?;
                }
                2 => {
                    log.push_str(&format!("s{i} "));
                    senders[i] = None;
                }
                3 => {
                    log.push_str(&format!("R{i} "));
                    let Some(g) = guards[i].as_mut() else { continue };
                    match poll_now(g) {
                        Some((x, a)) => {
                            ensure!(queued[i].first() == Some(&x), "received {x} of {:?} ({log})", queued[i]);
                            queued[i].remove(0);
                            a.ack().await.map_err(|e| e.to_string())?;
                        }
                        None => ensure!(queued[i].is_empty(), "{:?} were sent and are not received ({log})", queued[i]),
                    }
                }
                4 => {
                    log.push_str(&format!("D{i} "));
                    if let Some(g) = guards[i].take() {
                        drop(g);
                        want.push(names[i].clone());
                        queued[i].clear();
                    }
                }
                // Another end of the channel goes.
                _ => {
                    log.push_str(&format!("c{i} "));
                    let c = chans[i].clone();
                    drop(c);
                }
            }
            mcrt::quiesce();
            let got = conn.deleted.lock().unwrap().clone();
            ensure!(got == want, "deleted {got:?}, the dropped receivers are those of {want:?} ({log})");
        }
        drop((guards.split_off(0), senders, chans));
        mcrt::quiesce();
        let mut got = conn.deleted.lock().unwrap().clone();
        got.sort();
        names.sort();
        ensure!(got == names, "in the end {got:?} were deleted, the channels are {names:?} ({log})");
        ensure!(*conn.closed.lock().unwrap() == 0, "the connection was closed ({log})");
        Ok(log)
    })
}

// ------------------------------------------------------- leases of a runtime

fn result_queues() -> Vec<String> {
    with(|w| w.queue_names(URI))
        .into_iter()
        .filter(|q| q != TASK_IPC_ROUTING_KEY && !q.starts_with("amq."))
        .collect()
}

/// A leased task channel over AMQP: tasks sent, results taken, ends dropped in
/// every order.
fn leased(depth: usize, tasks: usize) -> Result<String, String> {
    set_gated(true);
    let end: Slot<()> = Default::default();
    amqp_worker("worker", Ser::Postcard, end.clone());
    mcrt::quiesce();
    let rt = mcrt::block_on(amqp_leader(Ser::Postcard)).map_err(|e| e.to_string())?;
    mcrt::block_on(async {
        let (name, s, mut r) =
            rt.lease_coordinated_task_channel::<Inc, u32>().await.map_err(|e| e.to_string())?;
        let mut s = Some(s);
        let mut log = String::new();
        let (mut sent, mut got) = (0, 0);
        let mut done = 0;
        ensure!(result_queues() == [name.clone()], "the queues are {:?}", result_queues());
        for _ in 0..depth {
            match choose(5) {
                0 => break,
                1 => {
                    log.push_str("S ");
                    if sent < tasks {
                        if let Some(s) = &s {
                            let t = Task { routing_key: name.clone(), metadata: sent as u32, op: &INC1, input: sent as u64 };
                            s.publish(&t).await.map_err(|e| e.to_string())?;
                            sent += 1;
                        }
                    }
                }
                2 => {
                    let g = mcrt::gates_waiting();
                    if let Some(g) = g.first() {
                        log.push_str("X ");
                        mcrt::gate_open(*g);
                        done += 1;
                    }
                }
                3 => {
                    log.push_str("R ");
                    match poll_once(&mut r) {
                        Polled::Item((t, a)) => {
                            let t = t.map_err(|e| e.to_string())?;
                            ensure!(t.metadata == got && t.output == 10 * got as u64 + 1, "received {t:?} ({log})");
                            got += 1;
                            a.ack().await.map_err(|e| e.to_string())?;
                        }
                        Polled::End => ensure!(s.is_none() && got == sent as u32, "ended early ({log})"),
                        _ => {}
                    }
                }
                _ => {
                    if let Some(s) = s.take() {
                        if choose(2) == 0 {
                            log.push_str("close ");
                            s.close().await.map_err(|e| e.to_string())?;
                        } else {
                            log.push_str("drop ");
                        }
                    }
                }
            }
            mcrt::quiesce();
            ensure!(
                result_queues() == [name.clone()],
                "before the receiver is dropped the result queues are {:?} ({log})",
                result_queues()
            );
        }
        drop(r);
        mcrt::quiesce();
        ensure!(result_queues().is_empty(), "after the drop the broker has {:?} ({log})", result_queues());
        // A result that arrives later must not stop the worker.
        while let Some(g) = mcrt::gates_waiting().first() {
            mcrt::gate_open(*g);
            done += 1;
            mcrt::quiesce();
        }
        ensure!(done == sent, "{done} of {sent} tasks were executed ({log})");
        ensure!(!end.is_set(), "the worker left: {:?} ({log})", end.get());
        drop(s);
        no_panics()?;
        Ok(log)
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum D {
    Literal,
    Map(usize),
    Fold(usize),
    Chain(usize),
    /// A map of which only a number of items is taken after all are there.
    Abandoned(usize, usize),
    /// A map whose stream is never polled.
    Unpolled(usize),
    /// A map and a fold whose only task fails for good.
    FailedMap,
    FailedFold,
}

fn directive(d: D, ser: Ser, gated: bool) -> Result<String, String> {
    set_gated(gated);
    match d {
        D::FailedMap => plan("inc1(7)", vec![Fate::Fatal(FatalC::Terminate)]),
        D::FailedFold => plan("x+y", vec![Fate::Fatal(FatalC::Terminate)]),
        _ => {}
    }
    let ends: Vec<Slot<()>> = (0..2).map(|_| Default::default()).collect();
    for (i, e) in ends.iter().enumerate() {
        amqp_worker(&format!("worker{i}"), ser, e.clone());
    }
    mcrt::quiesce();
    let rt = Arc::new(mcrt::block_on(amqp_leader(ser)).map_err(|e| e.to_string())?);
    let out: Slot<String> = Default::default();
    let o2 = out.clone();
    let nums = |n: usize| (0..n as u64).collect::<Vec<_>>();
    mcrt::start_exploring();
    let rt2 = rt.clone();
    let (go, go2) = futures::channel::oneshot::channel::<()>();
    let ready = matches!(d, D::Abandoned(..) | D::Unpolled(_));
    mcrt::task("leader", async move {
        let rt = rt2;
        let r = async {
            Ok(match d {
                D::Literal => Literal(4u64).map(&INC1).run(&rt).await?.0.to_string(),
                D::Map(n) => {
                    let seen: SharedSeen<u64> = Default::default();
                    read(Directive::map(IndexedStream::from(nums(n)), &INC1).run(&rt).await?, seen.clone()).await;
                    let s = seen.lock().unwrap();
                    anyhow::ensure!(s.ended, "the map did not end");
                    s.items.len().to_string()
                }
                D::Fold(n) => Directive::fold(IndexedStream::from(letters(n)), &CAT).run(&rt).await?,
                D::Chain(n) => {
                    Directive::map(Directive::map(IndexedStream::from(nums(n)), &INC1), &SHOW)
                        .fold(&CAT)
                        .run(&rt)
                        .await?
                }
                D::Abandoned(n, k) => {
                    let mut s = Directive::map(IndexedStream::from(nums(n)), &INC1).run(&rt).await?;
                    for _ in 0..k {
                        s.next().await;
                    }
                    let _ = go2.await;
                    k.to_string()
                }
                D::Unpolled(n) => {
                    let _s = Directive::map(IndexedStream::from(nums(n)), &INC1).run(&rt).await?;
                    let _ = go2.await;
                    "unpolled".into()
                }
                D::FailedMap => {
                    let seen: SharedSeen<u64> = Default::default();
                    read(Directive::map(IndexedStream::from(vec![7u64]), &INC1).run(&rt).await?, seen.clone()).await;
                    let s = seen.lock().unwrap();
                    anyhow::ensure!(s.err.is_some(), "no error");
                    "failed".into()
                }
                D::FailedFold => match Directive::fold(IndexedStream::from(vec!["x".to_string(), "y".into()]), &CAT).run(&rt).await {
                    Ok(v) => anyhow::bail!("returned {v}"),
                    Err(_) => "failed".into(),
                },
            })
        }
        .await;
        o2.put(r);
    });
    let want = match d {
        D::Literal => "41".to_string(),
        D::Map(n) => n.to_string(),
        D::Fold(n) => cat_of(&letters(n)),
        D::Chain(n) => nums(n).into_iter().map(|x| format!("<{}>", 10 * x + 1)).collect(),
        D::Abandoned(_, k) => k.to_string(),
        D::Unpolled(_) => "unpolled".into(),
        D::FailedMap | D::FailedFold => "failed".into(),
    };
    if ready {
        // Whatever was dispatched is executed before the stream is dropped.
        loop {
            mcrt::quiesce();
            let g = mcrt::gates_waiting();
            if g.is_empty() {
                break;
            }
            mcrt::gate_open(g[choose(g.len())]);
        }
        let _ = go.send(());
    }
    run_to(&[], &|| out.is_set(), "the directive")?;
    mcrt::quiesce();
    let v = out.value("the directive")?;
    ensure!(v == want, "{d:?} returned {v}, expected {want}");
    ensure!(
        result_queues().is_empty(),
        "after {d:?} the broker still has the result queues {:?}",
        result_queues()
    );
    let x = with(|w| w.exchange_names(URI));
    ensure!(x == [COMMAND_IPC_ROUTING_KEY], "after {d:?} the broker has the exchanges {x:?}");
    no_panics()?;
    Ok(v)
}

pub fn scenarios(t: Tier) -> Vec<Scen> {
    let mut v = vec![];
    let d = t.pick(7, 9);
    let mut free = dev(0);
    free.shards = 3;
    v.push(
        Scen::new("guard", free.clone(), move || guard(d))
            .weight(2.0)
            .what(format!("all sequences of {d} arrivals, polls and moves of a guarded stream, then its drop by one of three owners")),
    );
    for kind in [ChannelType::ExactlyOnce, ChannelType::Broadcast] {
        let d = t.pick(5, 6);
        v.push(
            Scen::new(format!("channels-{kind:?}"), free.clone(), move || channels(d, kind))
                .weight(2.0)
                .what(format!("all sequences of {d} sends, receptions and drops of the ends of two leased in-memory channels")),
        );
    }
    for tasks in 1..=2 {
        let d = t.pick(7, 9);
        v.push(
            Scen::new(format!("leased-{tasks}"), free.clone(), move || leased(d, tasks))
                .weight(2.0)
                .what(format!("all sequences of {d} sends, executions, receptions, closings and drops of the sender of a leased task channel over AMQP")),
        );
    }
    let ds = [
        D::Literal,
        D::Map(0),
        D::Map(1),
        D::Map(3),
        D::Fold(0),
        D::Fold(1),
        D::Fold(3),
        D::Chain(2),
        D::Abandoned(2, 0),
        D::Abandoned(2, 1),
        D::Abandoned(3, 2),
        D::Unpolled(2),
        D::FailedMap,
        D::FailedFold,
    ];
    for d in ds {
        for ser in SERS {
            v.push(
                Scen::new(format!("orders-{d:?}-{ser:?}"), dev(0), move || directive(d, ser, true))
                    .what("all completion orders of a directive over AMQP"),
            );
        }
        v.push(
            Scen::new(format!("schedules-{d:?}"), deferred(dev(t.pick(if matches!(d, D::Chain(_)) { 2 } else { 3 }, 4))), move || {
                directive(d, Ser::Postcard, false)
            })
            .what("all schedules within the deviation bound of leader, workers and broker"),
        );
    }
    let k = t.pick(1, 4);
    for d in [D::Map(150 * k), D::Fold(60 * k), D::Chain(60 * k)] {
        for ser in SERS {
            v.push(
                Scen::new(format!("many-{d:?}-{ser:?}"), long(dev(0)), move || directive(d, ser, false))
                    .what("a long directive over AMQP, by the default schedule"),
            );
        }
    }
    v
}
