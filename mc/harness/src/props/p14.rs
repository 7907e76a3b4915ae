//! The main loop of a worker: one result per task, to where the task says.
use std::{
    collections::BTreeMap,
    sync::{Arc, Mutex},
};

use futures::StreamExt;
use lapin::model::with;
use mcrt::choose;
use paladin::{
    acker::Acker,
    channel::ChannelType,
    operation::Operation,
    queue::{Connection, Publisher, QueueHandle, QueueOptions},
    runtime::TASK_IPC_ROUTING_KEY,
    serializer::Serializer,
    task::{AnyTask, AnyTaskResult, Task},
};
use serde::{Deserialize, Serialize};

use crate::common::*;
use crate::ensure;
use crate::ops::*;
use crate::rt::*;

/// Metadata that tells tasks apart.
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Tag {
    pub id: u32,
    pub path: Vec<String>,
    pub mark: Option<bool>,
}
fn tag(id: u32) -> Tag {
    Tag {
        id,
        path: (0..id % 3).map(|i| format!("p{i}")).collect(),
        mark: [None, Some(false), Some(true)][id as usize % 3],
    }
}

/// A task, and what the result must contain.
struct Job {
    task: AnyTask,
    /// None: an ignored failure.
    output: Option<Vec<u8>>,
    key: String,
    /// Number of executions.
    attempts: usize,
}

fn job<Op: Operation>(op: &Op, input: Op::Input, out: Op::Output, key: &str, route: &str, id: u32, s: Serializer) -> Job {
    let t = Task { routing_key: route.into(), metadata: tag(id), op, input };
    Job {
        task: t.as_any_task(s).expect("task"),
        output: Some(s.to_bytes(&out).expect("output").to_vec()),
        key: key.into(),
        attempts: 1,
    }
}

/// The kinds of task on the bus.
const KINDS: usize = 8;
fn make(kind: usize, id: u32, route: &str, s: Serializer) -> Job {
    let x = id as u64;
    match kind {
        0 => job(&INC1, x, 10 * x + 1, &format!("inc1({x})"), route, id, s),
        1 => job(&SHOW, x, format!("<{x}>"), &format!("show({x})"), route, id, s),
        2 => job(
            &CAT,
            (format!("a{id}"), "b".into()),
            format!("a{id}b"),
            &format!("a{id}+b"),
            route,
            id,
            s,
        ),
        3 => job(
            &Measure { unit: "cm".into() },
            format!("m{id}"),
            (format!("m{id}cm"), format!("m{id}").len() as u32),
            &format!("measure(m{id})"),
            route,
            id,
            s,
        ),
        // The same type of operation with other arguments.
        4 => job(&INC2, x, 10 * x + 2, &format!("inc2({x})"), route, id, s),
        // Fails for good, which is ignored.
        5 => {
            let mut j = job(&Inc { k: 5 }, x, 0, &format!("inc5({x})"), route, id, s);
            plan(j.key.clone(), vec![Fate::Fatal(FatalC::Ignore)]);
            j.output = None;
            j
        }
        // Fails once and is retried.
        6 => {
            let mut j = job(&Inc { k: 6 }, x, 10 * x + 6, &format!("inc6({x})"), route, id, s);
            plan(
                j.key.clone(),
                vec![Fate::Transient(RetryStrategyC::Immediate(2), FatalC::Terminate), Fate::Ok],
            );
            j.attempts = 2;
            j
        }
        // Is retried in vain, which is ignored.
        _ => {
            let mut j = job(&Inc { k: 7 }, x, 0, &format!("inc7({x})"), route, id, s);
            plan(j.key.clone(), vec![Fate::Transient(RetryStrategyC::After(1, 30), FatalC::Ignore)]);
            j.output = None;
            j.attempts = 0;
            j
        }
    }
}

#[derive(Clone, Copy)]
struct C {
    tasks: usize,
    workers: usize,
    bus: Ser,
    gated: bool,
    /// The kinds, formats and addresses are enumerated; otherwise fixed.
    mix: bool,
    /// Tasks arrive at enumerated moments instead of at once.
    arrivals: bool,
    /// Result queues exist before the results do.
    declared: bool,
    workers_first: bool,
}

type Inbox = Arc<Mutex<Vec<(Tag, Vec<u8>, String)>>>;

fn body(c: C) -> Result<String, String> {
    set_gated(c.gated);
    let mut jobs = vec![];
    let mut log = String::new();
    for i in 0..c.tasks {
        let (k, r, s) = if c.mix {
            (choose(KINDS), choose(2), SERS[choose(2)])
        } else {
            ([0, 2, 1, 5][i % 4], i % 2, SERS[(i / 2 + i) % 2])
        };
        log.push_str(&format!("{k}{}{} ", ["a", "b"][r], if s == Ser::Cbor { "c" } else { "p" }));
        jobs.push(make(k, i as u32 + 3, ["results-a", "results-b"][r], s.get()));
    }
    let ends: Vec<Slot<()>> = (0..c.workers).map(|_| Default::default()).collect();
    let start = || {
        for (i, e) in ends.iter().enumerate() {
            amqp_worker(&format!("worker{i}"), c.bus, e.clone());
        }
        mcrt::quiesce();
    };
    if c.workers_first {
        start();
    }
    let opts: QueueOptions = ChannelType::ExactlyOnce.into();
    let inboxes: [Inbox; 2] = Default::default();
    let conn = mcrt::block_on(amqp_connection(c.bus));
    let mut readers = vec![];
    let mut listen = || {
        for (i, inbox) in inboxes.iter().enumerate() {
            let (conn, inbox) = (conn.clone(), inbox.clone());
            readers.push(mcrt::task("reader", async move {
                let q = conn.declare_queue(["results-a", "results-b"][i], opts).await.unwrap();
                let mut s = q.declare_consumer::<AnyTaskResult>(&format!("reader{i}")).await.unwrap();
                while let Some((r, a)) = s.next().await {
                    let entry = match r {
                        AnyTaskResult::Ok(o) => {
                            let t = o.serializer.from_bytes::<Tag>(&o.metadata).unwrap_or(Tag {
                                id: 999,
                                path: vec![format!("{:?}", o.metadata)],
                                mark: None,
                            });
                            (t, o.output.to_vec(), o.serializer.to_string())
                        }
                        AnyTaskResult::Err(e) => (tag(0), e.into_bytes(), "error".into()),
                    };
                    inbox.lock().unwrap().push(entry);
                    a.ack().await.unwrap();
                }
            }));
        }
    };
    if c.declared {
        listen();
        mcrt::quiesce();
    }
    mcrt::start_exploring();
    let (feed, src) = Feed::new(jobs.iter().map(|j| j.task.clone()).collect::<Vec<_>>());
    if !c.arrivals {
        feed.advance_all();
    }
    {
        let conn = mcrt::block_on(amqp_connection(c.bus));
        mcrt::task("leader", async move {
            let q = conn.declare_queue(TASK_IPC_ROUTING_KEY, opts).await.unwrap();
            let p = q.publisher::<AnyTask>();
            let mut src = src;
            while let Some(t) = src.next().await {
                p.publish(&t).await.unwrap();
            }
        });
    }
    if !c.workers_first {
        start();
    }
    // All tasks are settled.
    let n = c.tasks;
    run_to(
        &[&feed],
        &|| !feed.has_more() && with(|w| w.settled.iter().filter(|s| s.0 == TASK_IPC_ROUTING_KEY).count()) >= n,
        "the bus",
    )?;
    mcrt::quiesce();
    mcrt::sleep_ns(secs(5));
    mcrt::quiesce();
    if !c.declared {
        listen();
        mcrt::quiesce();
    }
    // Executions.
    for j in &jobs {
        let r = runs_of(&j.key);
        let ok = if j.attempts > 0 { r == j.attempts } else { r >= 2 };
        ensure!(ok, "{} was executed {r} times ({log})", j.key);
    }
    let known: usize = jobs.iter().map(|j| runs_of(&j.key)).sum();
    ensure!(runs_total() == known, "executions {:?} ({log})", run_keys());
    // Results.
    for (i, inbox) in inboxes.iter().enumerate() {
        let mut got = inbox.lock().unwrap().clone();
        let mut want: Vec<(Tag, Vec<u8>, String)> = jobs
            .iter()
            .enumerate()
            .filter(|(_, j)| j.task.routing_key == ["results-a", "results-b"][i])
            .filter_map(|(k, j)| Some((tag(k as u32 + 3), j.output.clone()?, j.task.serializer.to_string())))
            .collect();
        got.sort();
        want.sort();
        ensure!(
            got == want,
            "address {i} received {got:?}, expected {want:?} ({log})"
        );
    }
    let mut queues = with(|w| w.queue_names(URI));
    queues.retain(|q| !q.starts_with("amq.") && q != TASK_IPC_ROUTING_KEY);
    ensure!(queues == ["results-a", "results-b"], "results were sent to {queues:?} ({log})");
    // Settlement.
    let mut seen: BTreeMap<Vec<u8>, (u32, bool)> = Default::default();
    with(|w| {
        for (q, p, a) in &w.settled {
            if q == TASK_IPC_ROUTING_KEY {
                let e = seen.entry(p.clone()).or_default();
                e.0 += 1;
                e.1 = *a;
            }
        }
    });
    for j in &jobs {
        let bytes = c.bus.get().to_bytes(&j.task).unwrap().to_vec();
        match seen.get(&bytes) {
            Some((1, acked)) => ensure!(
                *acked || j.output.is_none(),
                "{} was negatively acknowledged ({log})",
                j.key
            ),
            Some((k, _)) => return Err(format!("{} was settled {k} times ({log})", j.key)),
            None => return Err(format!("{} was never settled ({log})", j.key)),
        }
    }
    ensure!(
        with(|w| w.depth(URI, TASK_IPC_ROUTING_KEY)) == Some((0, 0)),
        "tasks are left on the bus ({log})"
    );
    for e in &ends {
        ensure!(!e.is_set(), "a worker left: {:?} ({log})", e.get());
    }
    no_panics()?;
    Ok(log)
}

/// The emulated workers of an in-memory runtime: two leased channels of different
/// operations and metadata.
fn emulated(workers: usize, ser: Ser, n: usize, gated: bool) -> Result<String, String> {
    set_gated(gated);
    let rt = memory(workers, ser);
    mcrt::start_exploring();
    let out = mcrt::block_on(async {
        let (ka, sa, mut ra) = rt.lease_coordinated_task_channel::<Inc, Tag>().await?;
        let (kb, sb, mut rb) = rt.lease_coordinated_task_channel::<Show, (u8, String)>().await?;
        for i in 0..n as u32 {
            sa.publish(&Task { routing_key: ka.clone(), metadata: tag(i), op: [&INC1, &INC2][i as usize % 2], input: i as u64 }).await?;
            sb.publish(&Task { routing_key: kb.clone(), metadata: (i as u8, format!("m{i}")), op: &SHOW, input: i as u64 }).await?;
        }
        sa.close().await?;
        sb.close().await?;
        anyhow::Ok((rt.clone(), (async move {
            let mut v = vec![];
            while let Some((r, a)) = ra.next().await {
                let r = r?;
                v.push((r.metadata, r.output));
                a.ack().await?;
            }
            anyhow::Ok(v)
        }, async move {
            let mut v = vec![];
            while let Some((r, a)) = rb.next().await {
                let r = r?;
                v.push((r.metadata, r.output));
                a.ack().await?;
            }
            anyhow::Ok(v)
        })))
    })
    .map_err(|e: anyhow::Error| e.to_string())?;
    let (_rt, (fa, fb)) = out;
    let (a, b): (Slot<Vec<(Tag, u64)>>, Slot<Vec<((u8, String), String)>>) = Default::default();
    let (a2, b2) = (a.clone(), b.clone());
    mcrt::task("a", async move { a2.put(fa.await) });
    mcrt::task("b", async move { b2.put(fb.await) });
    run_to(&[], &|| a.is_set() && b.is_set(), "a receiver")?;
    let (mut a, mut b) = (a.value("a")?, b.value("b")?);
    let order: Vec<u32> = a.iter().map(|x| x.0.id).collect();
    a.sort();
    b.sort();
    let wa: Vec<(Tag, u64)> = {
        let mut v: Vec<_> = (0..n as u32).map(|i| (tag(i), 10 * i as u64 + 1 + i as u64 % 2)).collect();
        v.sort();
        v
    };
    let wb: Vec<_> = (0..n as u64).map(|i| ((i as u8, format!("m{i}")), format!("<{i}>"))).collect();
    ensure!(a == wa, "received {a:?}, expected {wa:?}");
    ensure!(b == wb, "received {b:?}, expected {wb:?}");
    ensure!(runs_total() == 2 * n, "executions {:?}", run_keys());
    no_panics()?;
    Ok(format!("{order:?}"))
}

pub fn scenarios(t: Tier) -> Vec<Scen> {
    let mut v = vec![];
    let base = C {
        tasks: 1,
        workers: 1,
        bus: Ser::Postcard,
        gated: false,
        mix: true,
        arrivals: false,
        declared: true,
        workers_first: true,
    };
    let mut free = dev(0);
    free.shards = 3;
    for bus in SERS {
        for workers in 1..=2 {
            let tasks = t.pick(3, 4);
            let c = C { tasks, workers, bus, ..base };
            v.push(
                Scen::new(format!("mixes-{bus:?}-workers-{workers}"), free.clone(), move || body(c))
                    .weight(4.0)
                    .what(format!("all sequences of {tasks} tasks of {KINDS} kinds, two formats and two addresses")),
            );
        }
        for workers in 1..=3 {
            for declared in [true, false] {
                let c = C { tasks: 2, workers, bus, gated: true, arrivals: true, declared, ..base };
                v.push(
                    Scen::new(format!("orders-{bus:?}-workers-{workers}-declared-{declared}"), free.clone(), move || body(c))
                        .weight(2.0)
                        .what("all pairs of tasks, arrival moments and completion orders"),
                );
                let c = C { tasks: 4, mix: false, ..c };
                v.push(
                    Scen::new(format!("orders-4-{bus:?}-workers-{workers}-declared-{declared}"), free.clone(), move || body(c))
                        .what("four tasks, all arrival moments and completion orders"),
                );
            }
        }
    }
    for workers in 1..=2 {
        for tasks in 1..=t.pick(3, 4) {
            for workers_first in [true, false] {
                let c = C { tasks, workers, mix: false, workers_first, ..base };
                v.push(
                    Scen::new(
                        format!("schedules-{tasks}-workers-{workers}-first-{workers_first}"),
                        deferred(dev(t.pick(if tasks < 3 { 3 } else { 2 }, 4))),
                        move || body(c),
                    )
                    .weight(2.0)
                    .what("all schedules within the deviation bound of leader, workers, broker and readers"),
                );
            }
        }
    }
    for workers in [1, 3, 8] {
        for bus in SERS {
            let c = C { tasks: t.pick(150, 600), workers, bus, mix: false, ..base };
            v.push(
                Scen::new(format!("many-{bus:?}-workers-{workers}"), long(dev(0)), move || body(c))
                    .what("hundreds of tasks, by the default schedule"),
            );
        }
    }
    for workers in 1..=3 {
        for ser in SERS {
            v.push(
                Scen::new(format!("emulated-orders-{workers}-{ser:?}"), free.clone(), move || {
                    emulated(workers, ser, 2, true)
                })
                .what("four tasks of two channels on emulated workers, all completion orders"),
            );
        }
        v.push(
            Scen::new(format!("emulated-schedules-{workers}"), deferred(dev(t.pick(2, 3))), move || {
                emulated(workers, Ser::Postcard, 1, false)
            })
            .what("two tasks of two channels on emulated workers, all schedules within the deviation bound"),
        );
    }
    v
}
