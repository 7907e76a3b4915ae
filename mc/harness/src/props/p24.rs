//! Dropping an in-memory runtime.
use std::sync::{Arc, Mutex};

use futures::StreamExt;
use mcrt::choose;
use paladin::{
    directive::{Directive, IndexedStream},
    runtime::Runtime,
    task::Task,
};

use crate::common::*;
use crate::ensure;
use crate::ops::*;
use crate::rt::*;

type Send_ = Box<dyn Fn(u64) -> Result<(), String>>;
/// A way to send tasks to the workers of `rt` that outlives `rt`.
fn sender(rt: &Runtime) -> Result<(Send_, Arc<Mutex<Vec<u64>>>, mcrt::JoinHandle<()>), String> {
    let (key, s, mut r) =
        mcrt::block_on(rt.lease_coordinated_task_channel::<Inc, u64>()).map_err(|e| e.to_string())?;
    let got: Arc<Mutex<Vec<u64>>> = Default::default();
    let g2 = got.clone();
    let h = mcrt::task("receiver", async move {
        while let Some((x, a)) = r.next().await {
            if let Ok(o) = x {
                g2.lock().unwrap().push(o.output);
            }
            let _ = a.ack().await;
        }
    });
    Ok((
        Box::new(move |x| {
            let t = Task { routing_key: key.clone(), metadata: x, op: &INC1, input: x };
            mcrt::block_on(s.publish(&t)).map_err(|e| e.to_string())
        }),
        got,
        h,
    ))
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Here,
    Task,
    Thread,
    /// The last of several owners, which is aborted.
    Owner,
}
fn drop_it(rt: Arc<Runtime>, how: How) -> Result<(), String> {
    mcrt::note(|| "== the runtime is dropped".into());
    match how {
        How::Here => drop(rt),
        How::Task => {
            let h = mcrt::task("dropper", async move { drop(rt) });
            mcrt::quiesce();
            ensure!(h.is_finished(), "dropping the runtime blocks");
        }
        How::Thread => {
            let h = mcrt::thread("dropper", move || drop(rt));
            mcrt::quiesce();
            ensure!(h.is_finished(), "dropping the runtime blocks");
        }
        How::Owner => {
            let h = mcrt::task("owner", async move {
                let _rt = rt;
                std::future::pending::<()>().await
            });
            mcrt::quiesce();
            h.abort();
        }
    }
    Ok(())
}

/// All histories of tasks and completions before and after the drop.
fn sequences(workers: usize, depth: usize, after: usize) -> Result<String, String> {
    set_gated(true);
    let ser = SERS[choose(2)];
    let other = memory(2, ser);
    let c = memory_config(workers, ser);
    let rt = Arc::new(mcrt::block_on(Runtime::from_config(&c, register())).map_err(|e| e.to_string())?);
    let mut log = format!("{ser:?} ");
    let settled = choose(2) == 1;
    if settled {
        mcrt::quiesce();
    } else {
        log.push_str("early ");
    }
    let (send, _got, h) = sender(&rt)?;
    let mut next = 0u64;
    let mut sent = |log: &mut String| -> Result<(), String> {
        log.push_str("S ");
        send(next)?;
        next += 1;
        Ok(())
    };
    let open = |log: &mut String| {
        let g = mcrt::gates_waiting();
        if !g.is_empty() {
            log.push_str("X ");
            mcrt::gate_open(g[choose(g.len())]);
        }
    };
    for i in 0..depth {
        match choose(if i == 0 || settled { 3 } else { 4 }) {
            0 => break,
            1 => sent(&mut log)?,
            2 => open(&mut log),
            _ => {
                // More before anything could happen.
                sent(&mut log)?;
                continue;
            }
        }
        if settled {
            mcrt::quiesce();
        }
    }
    let how = [How::Here, How::Task, How::Thread, How::Owner][choose(4)];
    log.push_str(&format!("drop-{how:?} "));
    // What an unsettled worker had started is not counted.
    if settled {
        mcrt::quiesce();
    }
    let started = runs_total();
    drop_it(rt, how)?;
    mcrt::quiesce();
    let strict = settled || how == How::Here;
    let n = runs_total();
    if strict {
        ensure!(n == started, "the drop was followed by {:?} ({log})", &run_keys()[started..]);
    }
    for _ in 0..after {
        match choose(3) {
            0 => sent(&mut log)?,
            1 => open(&mut log),
            _ => {
                log.push_str("W ");
                mcrt::sleep_ns(secs(100));
            }
        }
        mcrt::quiesce();
        ensure!(runs_total() == n, "the drop was followed by {:?} ({log})", &run_keys()[n..]);
    }
    while let Some(g) = mcrt::gates_waiting().first() {
        mcrt::gate_open(*g);
        mcrt::quiesce();
    }
    ensure!(runs_total() == n, "the drop was followed by {:?} ({log})", &run_keys()[n..]);
    h.abort();
    mcrt::quiesce();
    // The other runtime still works.
    set_gated(false);
    works(&other, &log)?;
    no_panics()?;
    Ok(log)
}

fn works(rt: &Arc<Runtime>, log: &str) -> Result<(), String> {
    let seen: SharedSeen<u64> = Default::default();
    let (s2, rt) = (seen.clone(), rt.clone());
    mcrt::task("other", async move {
        let s = Directive::map(IndexedStream::from(vec![71u64, 72, 73]), &INC1).run(&rt).await.unwrap();
        read(s, s2).await
    });
    settle_all(&|| seen.lock().unwrap().over(), &format!("a map on another runtime ({log})"))?;
    let s = seen.lock().unwrap();
    ensure!(s.ended, "a map on another runtime failed: {:?} ({log})", s.err);
    same_items(&s.items, &[(0, 711), (1, 721), (2, 731)]).map_err(|e| format!("{e} ({log})"))
}

/// The drop races with the workers and with a directive of another runtime.
fn race(workers: usize, tasks: usize, gated: bool, how: How) -> Result<String, String> {
    set_gated(gated);
    let other = memory(1, Ser::Postcard);
    let rt = memory(workers, Ser::Postcard);
    let (send, got, _h) = sender(&rt)?;
    mcrt::quiesce();
    let seen: SharedSeen<u64> = Default::default();
    let (s2, o2) = (seen.clone(), other.clone());
    mcrt::start_exploring();
    for i in 0..tasks as u64 {
        send(i)?;
    }
    mcrt::task("other", async move {
        let s = Directive::map(IndexedStream::from(vec![71u64, 72]), &INC2).run(&o2).await.unwrap();
        read(s, s2).await
    });
    let mine = || lab(|l| l.runs.iter().filter(|r| !r.key.starts_with("inc2")).count());
    let live = || lab(|l| l.runs.iter().filter(|r| !r.key.starts_with("inc2") && !r.ended).count());
    if how == How::Here {
        // After an enumerated number of steps of the others.
        for _ in 0..mcrt::choose(4) {
            mcrt::yield_point();
        }
    }
    let before = mine();
    let idle = workers - live().min(workers);
    drop_it(rt, how)?;
    mcrt::quiesce();
    let n = mine();
    // A worker that is running when it is cancelled stops where it next waits: it
    // may still start an execution, and go on if that is over at once.
    ensure!(
        !gated || how != How::Here || n - before <= idle,
        "the drop was followed by {} executions of {idle} workers",
        n - before
    );
    mcrt::stop_exploring();
    for i in 0..workers as u64 + 2 {
        send(20 + i)?;
        mcrt::quiesce();
    }
    while let Some(g) = mcrt::gates_waiting().first() {
        mcrt::gate_open(*g);
        mcrt::quiesce();
    }
    mcrt::sleep_ns(secs(100));
    mcrt::quiesce();
    ensure!(mine() == n, "the drop was followed by executions: {:?}", run_keys());
    settle_all(&|| seen.lock().unwrap().over(), "the map of another runtime")?;
    let s = seen.lock().unwrap();
    ensure!(s.ended, "the map of another runtime failed: {:?}", s.err);
    same_items(&s.items, &[(0, 712), (1, 722)])?;
    no_panics()?;
    let g = got.lock().unwrap().len();
    Ok(format!("{n} executed, {g} received"))
}

pub fn scenarios(t: Tier) -> Vec<Scen> {
    let mut v = vec![];
    let mut free = dev(0);
    free.shards = 3;
    for workers in 1..=4 {
        let (d, a) = t.pick((5, 2), (6, 3));
        v.push(
            Scen::new(format!("sequences-{workers}"), free.clone(), move || sequences(workers, d, a))
                .weight(2.0)
                .what(format!("all histories of {d} tasks and completions, the drop by one of four owners, and {a} tasks, completions and waits")),
        );
    }
    for workers in 1..=3 {
        for tasks in 0..=3 {
            for gated in [true, false] {
                for how in [How::Here, How::Task, How::Thread] {
                    if how == How::Thread && (workers > 2 || !gated) {
                        continue;
                    }
                    v.push(
                        Scen::new(
                            format!("race-{workers}-tasks-{tasks}-gated-{gated}-{how:?}"),
                            deferred(dev(t.pick(if workers + tasks < 4 { 3 } else { 2 }, 4))),
                            move || race(workers, tasks, gated, how),
                        )
                        .what("the drop, the workers and a directive of another runtime, all schedules within the deviation bound"),
                    );
                }
            }
        }
    }
    for workers in [1, 8] {
        for gated in [true, false] {
            for how in [How::Here, How::Task] {
                v.push(
                    Scen::new(format!("many-{workers}-gated-{gated}-{how:?}"), long(dev(0)), move || race(workers, 100, gated, how))
                        .what("many tasks, by the default schedule"),
                );
            }
        }
    }
    v
}
