//! Broadcast queues of the AMQP backend against a model broker.
use std::sync::{Arc, Mutex};

use futures::StreamExt;
use lapin::model::with;
use mcrt::choose;
use paladin::{
    acker::Acker,
    queue::{amqp::AMQPConsumer, Connection, Publisher, QueueHandle, SyndicationMode},
    runtime::{CommandIpc, COMMAND_IPC_ABORT_ALL_KEY, COMMAND_IPC_ROUTING_KEY},
};

use super::p21::{note, opts, wake, Note, GARBAGE};
use crate::common::*;
use crate::ensure;
use crate::ops::*;
use crate::rt::*;

/// All histories over connections that declare, consume, publish and delete.
fn sequences(depth: usize, conns: usize, rich: bool) -> Result<String, String> {
    mcrt::block_on(async {
        let name = "commands";
        let o = opts(SyndicationMode::Broadcast, choose(2) * 3);
        let mut cs = vec![];
        for _ in 0..conns {
            cs.push(amqp_connection(Ser::Postcard).await);
        }
        let base = with(|w| w.conns.len()) - conns;
        struct Sub {
            conn: usize,
            c: AMQPConsumer<Note>,
            want: Vec<Note>,
            queue_id: u32,
        }
        let mut subs: Vec<Sub> = vec![];
        let mut epoch = 0;
        let mut next = 0;
        let mut names = 0;
        let mut log = String::new();
        let drain = |s: &mut AMQPConsumer<Note>| -> Result<Vec<Note>, String> {
            let mut got = vec![];
            let mut idle = 0;
            while idle < 4 {
                match poll_now(s) {
                    Some((n, a)) => {
                        mcrt::block_on(a.ack()).map_err(|e| e.to_string())?;
                        got.push(n);
                        idle = 0;
                    }
                    None => {
                        mcrt::quiesce();
                        idle += 1
                    }
                }
            }
            Ok(got)
        };
        for step in 0..=depth {
            let act = if step == depth { 99 } else { choose(if rich { 6 } else { 3 }) };
            match act {
                // Publish from some connection.
                0 => {
                    let i = choose(conns);
                    log.push_str(&format!("P{i} "));
                    let h = cs[i].declare_queue(name, o).await.map_err(|e| format!("declaring: {e} ({log})"))?;
                    let r = h.publisher::<Note>().publish(&note(next)).await;
                    ensure!(r.is_ok(), "publishing failed: {r:?} ({log})");
                    for s in subs.iter_mut().filter(|s| s.queue_id == epoch) {
                        s.want.push(note(next));
                    }
                    next += 1;
                }
                // Consume on some connection.
                1 => {
                    if subs.len() == 3 {
                        continue;
                    }
                    let i = choose(conns);
                    log.push_str(&format!("C{i} "));
                    let h = cs[i].declare_queue(name, o).await.map_err(|e| format!("declaring: {e} ({log})"))?;
                    let c = h
                        .declare_consumer::<Note>(&format!("c{names}"))
                        .await
                        .map_err(|e| format!("consuming: {e} ({log})"))?;
                    names += 1;
                    subs.push(Sub { conn: i, c, want: vec![], queue_id: epoch });
                }
                // One consumer (2) or all (99) take what is there.
                2 | 99 => {
                    if subs.is_empty() {
                        continue;
                    }
                    let pick = if act == 99 { None } else { Some(choose(subs.len())) };
                    log.push_str(&format!("R{pick:?} "));
                    for (i, s) in subs.iter_mut().enumerate() {
                        if pick.is_some() && pick != Some(i) {
                            continue;
                        }
                        let got = drain(&mut s.c)?;
                        ensure!(
                            got == s.want,
                            "consumer {i} received {got:?}, expected {:?} ({log})",
                            s.want
                        );
                        s.want.clear();
                    }
                }
                // A consumer goes.
                3 => {
                    if subs.is_empty() {
                        continue;
                    }
                    let i = choose(subs.len());
                    log.push_str(&format!("X{i} "));
                    subs.remove(i);
                }
                // A connection is lost.
                4 => {
                    let i = choose(conns);
                    log.push_str(&format!("L{i} "));
                    wake(with(|w| w.kill_connection(base + i)));
                    subs.retain(|s| s.conn != i);
                    // That process is gone; a new one takes its place.
                    return finish(&mut subs.into_iter().map(|s| (s.c, s.want)).collect::<Vec<_>>(), &log, &drain);
                }
                // The channel is deleted; declaring it again starts afresh.
                _ => {
                    let i = choose(conns);
                    log.push_str(&format!("D{i} "));
                    let r = cs[i].delete_queue(name).await;
                    ensure!(r.is_ok(), "deleting failed: {r:?} ({log})");
                    let x = with(|w| w.exchange_names(URI));
                    ensure!(x.is_empty(), "after the deletion the broker has the exchanges {x:?} ({log})");
                    epoch += 1;
                }
            }
            mcrt::quiesce();
        }
        drop(subs);
        mcrt::quiesce();
        let left = with(|w| w.queue_names(URI));
        ensure!(left.is_empty(), "queues {left:?} outlive their consumers ({log})");
        no_panics()?;
        Ok(log)
    })
}
fn finish(
    subs: &mut [(AMQPConsumer<Note>, Vec<Note>)],
    log: &str,
    drain: &dyn Fn(&mut AMQPConsumer<Note>) -> Result<Vec<Note>, String>,
) -> Result<String, String> {
    for (i, (c, want)) in subs.iter_mut().enumerate() {
        let got = drain(c)?;
        ensure!(got == *want, "after a connection was lost, consumer {i} received {got:?}, expected {want:?} ({log})");
    }
    Ok(log.to_string())
}

#[derive(Clone, Copy)]
struct C {
    consumers: usize,
    same_conn: bool,
    pubs: &'static [u32],
    garbage: bool,
}

/// Consumers that are there, publishers that race.
fn concurrent(c: C) -> Result<String, String> {
    let got: Vec<Arc<Mutex<Vec<Note>>>> = (0..c.consumers).map(|_| Default::default()).collect();
    let o = opts(SyndicationMode::Broadcast, 0);
    let mut hs = vec![];
    mcrt::start_exploring();
    mcrt::block_on(async {
        let mut conn = None;
        for inbox in &got {
            if conn.is_none() || !c.same_conn {
                conn = Some(amqp_connection(Ser::Cbor).await);
            }
            let conn = conn.clone().unwrap();
            let inbox = inbox.clone();
            hs.push(mcrt::task("consumer", async move {
                let h = conn.declare_queue("commands", o).await.unwrap();
                let mut s = h.declare_consumer::<Note>("same").await.unwrap();
                while let Some((n, a)) = s.next().await {
                    inbox.lock().unwrap().push(n);
                    a.ack().await.unwrap();
                }
            }));
        }
    });
    mcrt::quiesce();
    if let Some(p) = mcrt::panics().first() {
        // The name of a consumer is unique on its connection; these are not.
        ensure!(c.same_conn, "a consumer failed: {}", p.1);
        return Ok("refused".into());
    }
    if c.garbage {
        for q in with(|w| w.queue_names(URI)) {
            wake(with(|w| w.inject(URI, &q, GARBAGE[1])));
        }
    }
    for (p, n) in c.pubs.iter().enumerate() {
        let n = *n;
        hs.push(mcrt::task("publisher", async move {
            let conn = amqp_connection(Ser::Cbor).await;
            let h = conn.declare_queue("commands", o).await.unwrap();
            for i in 0..n {
                h.publish(&note(1000 * p as u32 + i)).await.unwrap();
            }
        }));
    }
    mcrt::quiesce();
    no_panics()?;
    let show: Vec<Vec<u32>> = got.iter().map(|g| g.lock().unwrap().iter().map(|n| n.n).collect()).collect();
    for (i, g) in show.iter().enumerate() {
        for (p, n) in c.pubs.iter().enumerate() {
            let of: Vec<u32> = g.iter().copied().filter(|x| *x / 1000 == p as u32).collect();
            let want: Vec<u32> = (0..*n).map(|i| 1000 * p as u32 + i).collect();
            ensure!(of == want, "consumer {i} received {of:?} of publisher {p}, expected {want:?}; all: {show:?}");
        }
        let total: u32 = c.pubs.iter().sum();
        ensure!(g.len() == total as usize, "consumer {i} received {g:?}");
    }
    Ok(format!("{show:?}"))
}

/// Workers on their own connections, some executing, some idle: an abort of
/// everything stops them all.
fn workers(n: usize, busy: usize) -> Result<String, String> {
    set_gated(true);
    let ends: Vec<Slot<()>> = (0..n).map(|_| Default::default()).collect();
    let mut hs = vec![];
    for (i, e) in ends.iter().enumerate() {
        hs.push(amqp_worker(&format!("worker{i}"), Ser::Postcard, e.clone()));
    }
    mcrt::quiesce();
    let leader = mcrt::block_on(amqp_leader(Ser::Postcard)).map_err(|e| e.to_string())?;
    let leader = Arc::new(leader);
    let l2 = leader.clone();
    let map = mcrt::task("leader", async move {
        use paladin::directive::{Directive, IndexedStream};
        let s = Directive::map(IndexedStream::from((0..busy as u64).collect::<Vec<_>>()), &INC1).run(&l2).await.unwrap();
        read(s, Default::default()).await
    });
    mcrt::quiesce();
    ensure!(runs_total() == busy, "{} of {busy} tasks are executing", runs_total());
    mcrt::start_exploring();
    let sender = mcrt::block_on(leader.get_command_ipc_sender()).map_err(|e| e.to_string())?;
    mcrt::block_on(sender.publish(&CommandIpc::Abort { routing_key: COMMAND_IPC_ABORT_ALL_KEY.into() }))
        .map_err(|e| e.to_string())?;
    mcrt::quiesce();
    ensure!(!with(|w| w.exchange_names(URI)).contains(&"".to_string()), "unnamed exchange");
    ensure!(with(|w| w.exchange_names(URI)) == [COMMAND_IPC_ROUTING_KEY], "no exchange for commands");
    mcrt::sleep_ns(secs(11));
    mcrt::quiesce();
    let gone = ends.iter().filter(|e| e.is_set()).count();
    ensure!(gone == busy, "after the abort {gone} workers have left, {busy} were executing");
    // The idle ones leave when the next task reaches them.
    let l3 = leader.clone();
    let more = mcrt::task("leader2", async move {
        use paladin::directive::{Directive, IndexedStream};
        let s = Directive::map(IndexedStream::from((50..50 + n as u64).collect::<Vec<_>>()), &INC2).run(&l3).await.unwrap();
        read(s, Default::default()).await
    });
    mcrt::sleep_ns(secs(1));
    mcrt::quiesce();
    ensure!(ends.iter().all(|e| e.is_set()), "a worker is still there after the abort of everything");
    ensure!(runs_total() == busy, "a task was started after the abort: {:?}", run_keys());
    for e in &ends {
        e.value("a worker")?;
    }
    map.abort();
    more.abort();
    no_panics()?;
    Ok(format!("{busy} of {n}"))
}

pub fn scenarios(t: Tier) -> Vec<Scen> {
    let mut v = vec![];
    for conns in 1..=3 {
        let d = t.pick(6, 8);
        let mut cfg = dev(0);
        cfg.shards = 3;
        v.push(
            Scen::new(format!("sequences-{conns}"), cfg.clone(), move || sequences(d, conns, false))
                .what(format!("all histories of {d} publishes, declarations and receptions on {conns} connections")),
        );
        let d = t.pick(5, 6);
        v.push(
            Scen::new(format!("sequences-rich-{conns}"), cfg, move || sequences(d, conns, true))
                .what(format!("all histories of {d} publishes, declarations, receptions, departures, deletions and connection losses on {conns} connections")),
        );
    }
    for consumers in 1..=3 {
        for pubs in [&[2u32][..], &[1, 1]] {
            for garbage in [false, true] {
                let c = C { consumers, same_conn: false, pubs, garbage };
                v.push(
                    Scen::new(
                        format!("schedules-{consumers}-{pubs:?}-garbage-{garbage}"),
                        deferred(dev(t.pick(2, 3))),
                        move || concurrent(c),
                    )
                    .what("all schedules within the deviation bound of consumers that declare and then of publishers"),
                );
            }
        }
    }
    for (consumers, pubs) in [(2, &[200u32][..]), (12, &[20, 20])] {
        for garbage in [false, true] {
            let c = C { consumers, same_conn: false, pubs, garbage };
            v.push(
                Scen::new(format!("many-{consumers}-{pubs:?}-garbage-{garbage}"), long(dev(0)), move || concurrent(c))
                    .what("many messages or consumers, by the default schedule"),
            );
        }
    }
    for n in 1..=3 {
        for busy in 0..=n {
            v.push(
                Scen::new(format!("workers-{n}-executing-{busy}"), deferred(dev(t.pick(2, 3))), move || workers(n, busy))
                    .what("an abort of everything to workers on separate connections, all schedules within the deviation bound"),
            );
        }
    }
    v
}
