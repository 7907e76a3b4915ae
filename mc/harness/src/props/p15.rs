//! Aborts and terminal failures stop workers; aborts of a job skip its tasks.
use std::{collections::VecDeque, sync::Arc};

use lapin::model::with;
use mcrt::choose;
use paladin::{
    channel::ChannelType,
    queue::{Connection, Publisher, QueueHandle, QueueOptions},
    runtime::{CommandIpc, COMMAND_IPC_ABORT_ALL_KEY, TASK_IPC_ROUTING_KEY},
    task::{AnyTask, Task},
};

use crate::common::*;
use crate::ensure;
use crate::ops::*;
use crate::rt::*;

const JOBS: [&str; 2] = ["job-a", "job-b"];
/// The time a worker has to leave, and some.
const SHUTDOWN_S: u64 = 11;

#[derive(Clone, Copy, PartialEq, Debug)]
enum T {
    Ok,
    /// Fails for good.
    Fail,
    Panic,
    /// Fails for good on a retry that is due later.
    Later,
    Ignored,
}
fn key(id: u64) -> String {
    format!("inc1({id})")
}
fn any_task(id: u64, job: &str, t: T) -> AnyTask {
    let plan_ = match t {
        T::Ok => vec![],
        T::Fail => vec![Fate::Fatal(FatalC::Terminate)],
        T::Panic => vec![Fate::Panic],
        T::Later => vec![
            Fate::Transient(RetryStrategyC::After(2, 3_000), FatalC::Ignore),
            Fate::Fatal(FatalC::Terminate),
        ],
        T::Ignored => vec![Fate::Fatal(FatalC::Ignore)],
    };
    if !plan_.is_empty() {
        plan(key(id), plan_);
    }
    let t = Task { routing_key: job.into(), metadata: id, op: &INC1, input: id };
    t.as_any_task(Ser::Cbor.get()).unwrap()
}

/// A deployment: workers, a way to send tasks and commands.
struct Bus {
    workers: usize,
    ends: Vec<Slot<()>>,
    tasks: Box<dyn Fn(&AnyTask) -> Result<(), String>>,
    cmds: Box<dyn Publisher<CommandIpc> + Send + Unpin + Sync>,
    _keep: Box<dyn std::any::Any>,
}
impl Bus {
    fn amqp(workers: usize) -> Result<Bus, String> {
        let ends: Vec<Slot<()>> = (0..workers).map(|_| Default::default()).collect();
        for (i, e) in ends.iter().enumerate() {
            amqp_worker(&format!("worker{i}"), Ser::Postcard, e.clone());
        }
        mcrt::quiesce();
        let leader = Arc::new(mcrt::block_on(amqp_leader(Ser::Postcard)).map_err(|e| e.to_string())?);
        let conn = mcrt::block_on(amqp_connection(Ser::Postcard));
        let opts: QueueOptions = ChannelType::ExactlyOnce.into();
        let q = mcrt::block_on(conn.declare_queue(TASK_IPC_ROUTING_KEY, opts)).map_err(|e| e.to_string())?;
        for j in JOBS {
            mcrt::block_on(conn.declare_queue(j, opts)).map_err(|e| e.to_string())?;
        }
        let l: &'static paladin::runtime::Runtime = unsafe { &*Arc::as_ptr(&leader) };
        let cmds = mcrt::block_on(l.get_command_ipc_sender()).map_err(|e| e.to_string())?;
        Ok(Bus {
            workers,
            ends,
            tasks: Box::new(move |t| mcrt::block_on(q.publish(t)).map_err(|e| e.to_string())),
            cmds,
            _keep: Box::new((leader, conn)),
        })
    }
    fn memory(workers: usize) -> Result<Bus, String> {
        let rt = memory(workers, Ser::Postcard);
        mcrt::quiesce();
        let l: &'static paladin::runtime::Runtime = unsafe { &*Arc::as_ptr(&rt) };
        let cmds = mcrt::block_on(l.get_command_ipc_sender()).map_err(|e| e.to_string())?;
        let (_, s, r) =
            mcrt::block_on(l.lease_coordinated_task_channel::<Inc, u64>()).map_err(|e| e.to_string())?;
        Ok(Bus {
            workers,
            ends: vec![],
            tasks: Box::new(move |t| {
                let input = t.serializer.from_bytes::<u64>(&t.input).unwrap();
                let t = Task { routing_key: t.routing_key.clone(), metadata: input, op: &INC1, input };
                mcrt::block_on(s.publish(&t)).map_err(|e| e.to_string())
            }),
            cmds,
            _keep: Box::new((rt, std::cell::RefCell::new(Box::new(r) as Box<dyn std::any::Any>))),
        })
    }
    fn new(workers: usize, amqp: bool) -> Result<Bus, String> {
        if amqp {
            Bus::amqp(workers)
        } else {
            Bus::memory(workers)
        }
    }
    fn abort(&self, key: &str) -> Result<(), String> {
        mcrt::note(|| format!("== abort {key}"));
        mcrt::block_on(self.cmds.publish(&CommandIpc::Abort { routing_key: key.into() })).map_err(|e| e.to_string())
    }
    fn left(&self) -> usize {
        self.ends.iter().filter(|e| e.is_set()).count()
    }
}

/// All histories of tasks, completions, failures, commands and waits.
fn sequences(workers: usize, amqp: bool, depth: usize, rich: bool) -> Result<String, String> {
    set_gated(true);
    let bus = Bus::new(workers, amqp)?;
    let mut log = String::new();
    let mut next = 0u64;
    // The reference, until something stops the workers.
    let mut queue: VecDeque<(u64, usize, T)> = VecDeque::new();
    let mut executing: Vec<(u64, usize, T)> = vec![];
    let mut aborted = [false; 2];
    let mut since = [0u64; 2];
    let mut delivered = [0usize; 2];
    let mut skipped = 0;
    let mut stopped: Option<(u64, usize, usize)> = None;
    for _ in 0..depth {
        match choose(if rich { 8 } else { 6 }) {
            // A task of either job arrives.
            c @ (0 | 1) => {
                log.push_str(&format!("{}{next} ", ["a", "b"][c]));
                (bus.tasks)(&any_task(next, JOBS[c], T::Ok))?;
                queue.push_back((next, c, T::Ok));
                next += 1;
            }
            // A task of the first job that fails in one of the ways.
            2 => {
                let t = [T::Fail, T::Panic, T::Later, T::Ignored][choose(if rich { 4 } else { 1 })];
                log.push_str(&format!("{t:?}{next} "));
                (bus.tasks)(&any_task(next, JOBS[0], t))?;
                queue.push_back((next, 0, t));
                next += 1;
            }
            // An execution completes.
            3 => {
                if stopped.is_some() {
                    continue;
                }
                let g = mcrt::gates_waiting();
                if g.is_empty() {
                    continue;
                }
                let i = choose(g.len());
                let name = gate_name(g[i]);
                log.push_str(&format!("done-{name} "));
                let at = executing
                    .iter()
                    .position(|e| key(e.0) == name)
                    .ok_or(format!("{name} executes unexpectedly ({log})"))?;
                let (id, job, t) = executing.remove(at);
                mcrt::gate_open(g[i]);
                mcrt::quiesce();
                if t == T::Later {
                    // The second attempt.
                    mcrt::sleep_ns(secs(4));
                    mcrt::quiesce();
                    let g = mcrt::gates_waiting();
                    let again = g.iter().find(|g| gate_name(**g) == key(id));
                    ensure!(again.is_some(), "{} was not retried ({log})", key(id));
                    mcrt::gate_open(*again.unwrap());
                    mcrt::quiesce();
                }
                match t {
                    T::Ok => delivered[job] += 1,
                    T::Ignored => {}
                    _ => {
                        delivered[job] += 1;
                        let x = live_executions();
                        stopped = Some((mcrt::now_ns(), x, runs_total()));
                    }
                }
            }
            4 => {
                log.push_str("ABORT ");
                bus.abort(COMMAND_IPC_ABORT_ALL_KEY)?;
                mcrt::quiesce();
                if stopped.is_none() {
                    stopped = Some((mcrt::now_ns(), executing.len(), runs_total()));
                    ensure!(
                        live_executions() == executing.len(),
                        "{} executions, expected {executing:?} ({log})",
                        live_executions()
                    );
                }
            }
            5 => {
                let j = choose(2);
                log.push_str(&format!("abort-{j} "));
                bus.abort(JOBS[j])?;
                aborted[j] = true;
                since[j] = mcrt::now_ns();
            }
            6 => {
                log.push_str("wait-40 ");
                mcrt::sleep_ns(secs(40));
            }
            // An abort of some other job, or of one that is executing, twice.
            _ => {
                log.push_str("abort-c ");
                bus.abort("job-c")?;
            }
        }
        mcrt::quiesce();
        // A job is remembered for a minute; histories in which it is not settled
        // whether it still is are of no use.
        for j in 0..2 {
            if aborted[j] && mcrt::now_ns() - since[j] > secs(59) {
                return Ok("long".into());
            }
        }
        if let Some((at, busy, started)) = stopped {
            ensure!(
                runs_total() == started,
                "a task was started after the workers were told to stop: {:?} ({log})",
                &run_keys()[started..]
            );
            ensure!(
                unraised() == 0,
                "{} executions have not been told to stop ({log})",
                unraised()
            );
            if amqp && mcrt::now_ns() >= at + secs(SHUTDOWN_S) {
                ensure!(bus.left() >= busy, "{} workers left, {busy} were executing ({log})", bus.left());
            }
        } else {
            while executing.len() < bus.workers && !queue.is_empty() {
                let t = queue.pop_front().unwrap();
                if aborted[t.1] {
                    skipped += 1;
                } else {
                    executing.push(t);
                }
            }
            let mut now: Vec<String> = mcrt::gates_waiting().into_iter().map(gate_name).collect();
            let mut want: Vec<String> = executing.iter().map(|e| key(e.0)).collect();
            now.sort();
            want.sort();
            ensure!(now == want, "executing {now:?}, expected {want:?} ({log})");
            ensure!(unraised() == executing.len(), "an execution was told to stop ({log})");
            ensure!(bus.left() == 0, "a worker left: {:?} ({log})", bus.ends.iter().find_map(|e| e.get()));
            if amqp {
                for j in 0..2 {
                    let n = with(|w| w.depth(URI, JOBS[j])).map(|d| d.0).unwrap_or(0);
                    ensure!(
                        n == delivered[j] || aborted[j],
                        "{n} results of {} tasks of {} ({log})",
                        delivered[j],
                        JOBS[j]
                    );
                }
            }
        }
    }
    if let Some((at, busy, started)) = stopped {
        let until = at + secs(SHUTDOWN_S);
        if mcrt::now_ns() < until {
            mcrt::sleep_ns(until - mcrt::now_ns());
            mcrt::quiesce();
        }
        if amqp {
            ensure!(bus.left() >= busy, "{} workers left, {busy} were executing ({log})", bus.left());
        }
        // Whoever is left leaves when a task comes; also much later.
        if rich && choose(2) == 1 {
            log.push_str("later ");
            mcrt::sleep_ns(secs(200));
        }
        let job = ["job-d", JOBS[0]][choose(2)];
        log.push_str(job);
        for i in 0..bus.workers as u64 + 1 {
            // A worker that is gone takes its connection with it.
            (bus.tasks)(&any_task(next + i, job, T::Ok))?;
            mcrt::quiesce();
        }
        mcrt::sleep_ns(secs(1));
        mcrt::quiesce();
        ensure!(
            runs_total() == started,
            "a task was started after the workers were told to stop: {:?} ({log})",
            &run_keys()[started..]
        );
        ensure!(
            !amqp || bus.left() == bus.workers,
            "{} of {} workers left after being told to stop ({log})",
            bus.left(),
            bus.workers
        );
    }
    for (t, m) in mcrt::panics() {
        ensure!(m.contains("planned panic"), "a task panicked: {m} ({t}) ({log})");
    }
    Ok(format!("{log} {skipped}"))
}
/// Executions that have not ended.
fn live_executions() -> usize {
    lab(|l| l.runs.iter().filter(|r| !r.ended).count())
}
/// Executions that have not ended and whose abort signal is not raised.
fn unraised() -> usize {
    lab(|l| {
        l.runs
            .iter()
            .zip(&l.aborts)
            .filter(|(r, (_, a))| {
                !r.ended && !a.as_ref().map(|a| a.load(std::sync::atomic::Ordering::SeqCst)).unwrap_or(false)
            })
            .count()
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Race {
    /// An abort of everything while tasks arrive.
    All,
    /// A task fails for good while others execute or arrive.
    Failure,
    /// Two fail at the same time.
    Failures,
    /// An abort of a job right before one of everything.
    JobThenAll,
    /// An abort of a job while tasks of both arrive.
    Job,
}

fn race(workers: usize, amqp: bool, r: Race, busy: usize) -> Result<String, String> {
    set_gated(true);
    let bus = Bus::new(workers, amqp)?;
    let next = std::cell::Cell::new(0u64);
    let send = |job: &str, t: T| {
        let x = (bus.tasks)(&any_task(next.get(), job, t));
        next.set(next.get() + 1);
        x
    };
    // These execute when it starts.
    for i in 0..busy {
        let t = match r {
            Race::Failure if i == 0 => T::Fail,
            Race::Failures if i < 2 => T::Fail,
            _ => T::Ok,
        };
        send("job-c", t)?;
    }
    mcrt::quiesce();
    ensure!(runs_total() == busy.min(workers), "{:?} are executing", run_keys());
    mcrt::start_exploring();
    match r {
        Race::All => {
            let c = &bus;
            c.abort(COMMAND_IPC_ABORT_ALL_KEY)?;
        }
        Race::JobThenAll => {
            bus.abort("job-a")?;
            bus.abort(COMMAND_IPC_ABORT_ALL_KEY)?;
            bus.abort("job-b")?;
        }
        Race::Job => bus.abort("job-a")?,
        Race::Failure => mcrt::gate_open(gate_id(&key(0), 0)),
        Race::Failures => {
            mcrt::gate_open(gate_id(&key(0), 0));
            mcrt::gate_open(gate_id(&key(1), 0));
        }
    }
    // These arrive meanwhile.
    send("job-a", T::Ok)?;
    send("job-b", T::Ok)?;
    mcrt::quiesce();
    let mut out = format!("{:?}", &run_keys()[busy..]);
    if r == Race::Job {
        ensure!(bus.left() == 0, "an abort of a job stopped a worker");
        // Everything ends, one after the other.
        settle_all(&|| mcrt::gates_waiting().is_empty() && runs_of(&key(next.get() - 1)) == 1, "the other job")?;
        ensure!(unraised() == 0, "impossible");
        ensure!(
            lab(|l| l.aborts.iter().all(|(_, a)| !a.as_ref().unwrap().load(std::sync::atomic::Ordering::SeqCst))),
            "an abort of a job raised an abort signal"
        );
        // From now on its tasks are skipped.
        let a = runs_total();
        send("job-a", T::Ok)?;
        send("job-b", T::Ok)?;
        mcrt::quiesce();
        settle_all(&|| mcrt::gates_waiting().is_empty() && runs_of(&key(next.get() - 1)) == 1, "the other job")?;
        ensure!(runs_total() == a + 1, "an aborted job's task was executed: {:?}", run_keys());
        ensure!(bus.left() == 0, "an abort of a job stopped a worker");
        return Ok(out);
    }
    let started = runs_total();
    let busy_now = live_executions();
    ensure!(unraised() == 0, "{} executions have not been told to stop: {:?}", unraised(), run_keys());
    mcrt::sleep_ns(secs(SHUTDOWN_S));
    mcrt::quiesce();
    if amqp {
        ensure!(bus.left() >= busy_now, "{} workers left, {busy_now} were executing", bus.left());
    }
    for _ in 0..workers + 1 {
        send("job-d", T::Ok)?;
        mcrt::quiesce();
    }
    mcrt::sleep_ns(secs(1));
    mcrt::quiesce();
    ensure!(
        runs_total() == started,
        "a task was started after the workers were told to stop: {:?}",
        &run_keys()[started..]
    );
    if amqp {
        ensure!(bus.left() == workers, "{} of {workers} workers left", bus.left());
    }
    no_panics()?;
    out.push_str(&format!(" {busy_now}"));
    Ok(out)
}

/// Many aborted jobs at a time.
fn many(workers: usize, amqp: bool, n: usize) -> Result<String, String> {
    set_gated(false);
    let bus = Bus::new(workers, amqp)?;
    let mut id = 0;
    let mut send = |job: &str| {
        id += 1;
        let r = (bus.tasks)(&any_task(id, job, T::Ok));
        mcrt::quiesce();
        r
    };
    // Results are for these; jobs that share a prefix are different jobs.
    let name = |i: usize| format!("job-{i}");
    for i in 0..n {
        bus.abort(&name(i))?;
        mcrt::quiesce();
        for j in [i, i / 2, 0] {
            send(&name(j))?;
            ensure!(runs_total() == 0, "a task of {} was executed, {} jobs are aborted", name(j), i + 1);
        }
    }
    for _ in 0..2 {
        for i in 0..n {
            send(&name(i))?;
        }
        ensure!(runs_total() == 0, "tasks of aborted jobs were executed, {n} jobs are aborted");
        mcrt::sleep_ns(secs(20));
        mcrt::quiesce();
    }
    for i in 0..2 * workers {
        send(JOBS[1])?;
        ensure!(runs_total() == i + 1, "a task of a job that was not aborted was not executed");
    }
    ensure!(bus.left() == 0, "an abort of a job stopped a worker");
    no_panics()?;
    Ok(String::new())
}

pub fn scenarios(t: Tier) -> Vec<Scen> {
    let mut v = vec![];
    let mut free = dev(0);
    free.shards = 3;
    for amqp in [true, false] {
        let b = if amqp { "amqp" } else { "memory" };
        for workers in 1..=3 {
            let d = t.pick(6, 8);
            v.push(
                Scen::new(format!("sequences-{b}-{workers}"), free.clone(), move || {
                    sequences(workers, amqp, d, false)
                })
                .weight(4.0)
                .what(format!("all histories of {d} tasks of two jobs, completions, a terminal failure, aborts of everything and of a job")),
            );
            let d = t.pick(5, 6);
            v.push(
                Scen::new(format!("sequences-rich-{b}-{workers}"), free.clone(), move || {
                    sequences(workers, amqp, d, true)
                })
                .weight(4.0)
                .what(format!("as sequences, {d} steps, with panics, failures on retries, ignored failures and waits")),
            );
            for r in [Race::All, Race::Failure, Race::Failures, Race::JobThenAll, Race::Job] {
                for busy in 0..=workers {
                    let min = match r {
                        Race::Failure => 1,
                        Race::Failures => 2,
                        _ => 0,
                    };
                    if busy < min {
                        continue;
                    }
                    v.push(
                        Scen::new(
                            format!("race-{r:?}-{b}-{workers}-executing-{busy}"),
                            deferred(dev(t.pick(2, 3))),
                            move || race(workers, amqp, r, busy),
                        )
                        .what("commands or failures while tasks arrive, all schedules within the deviation bound"),
                    );
                }
            }
        }
    }
    for amqp in [true, false] {
        for workers in [1, 8] {
            v.push(
                Scen::new(format!("many-amqp-{amqp}-workers-{workers}"), long(dev(0)), move || many(workers, amqp, t.pick(60, 300)))
                    .what("many aborted jobs, by the default schedule"),
            );
        }
    }
    v
}
