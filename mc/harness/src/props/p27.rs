//! Deployments follow their configuration.
use std::sync::Arc;

use clap::Parser;
use lapin::model::with;
use paladin::{
    config::{Config, Runtime as RuntimeKind, Serializer as SerializerKind},
    directive::{Directive, IndexedStream},
    runtime::{Runtime, WorkerRuntime, TASK_IPC_ROUTING_KEY},
};

use crate::common::*;
use crate::ensure;
use crate::ops::*;
use crate::rt::*;

// ------------------------------------------------------------ command lines

#[derive(Parser, Debug)]
struct Cli {
    #[command(flatten)]
    options: Config,
}

/// One of several ways to write an option, or none; what it stands for.
fn pick<T: Clone>(ways: &[(&[&str], T)], argv: &mut Vec<String>) -> T {
    let (words, value) = &ways[mcrt::choose(ways.len())];
    argv.extend(words.iter().map(|s| s.to_string()));
    value.clone()
}

/// The environment is the process's.
static ENV: std::sync::Mutex<()> = std::sync::Mutex::new(());

fn command_lines() -> Result<String, String> {
    let mut argv = vec!["worker".to_string()];
    let serializer = pick(
        &[
            (&[], None),
            (&["--serializer", "postcard"], Some(SerializerKind::Postcard)),
            (&["--serializer=cbor"], Some(SerializerKind::Cbor)),
            (&["-s", "cbor"], Some(SerializerKind::Cbor)),
            (&["PALADIN_SERIALIZER=cbor"], Some(SerializerKind::Cbor)),
        ],
        &mut argv,
    );
    let runtime = pick(
        &[
            (&[], None),
            (&["--runtime", "amqp"], Some(RuntimeKind::Amqp)),
            (&["--runtime=in-memory"], Some(RuntimeKind::InMemory)),
            (&["-r", "in-memory"], Some(RuntimeKind::InMemory)),
            (&["PALADIN_RUNTIME=in-memory"], Some(RuntimeKind::InMemory)),
        ],
        &mut argv,
    );
    let num_workers = pick(
        &[
            (&[], None),
            (&["--num-workers", "0"], Some(0)),
            (&["-n", "1"], Some(1)),
            (&["--num-workers=64"], Some(64)),
            (&["PALADIN_NUM_WORKERS=2"], Some(2)),
            (&["PALADIN_NUM_WORKERS=2", "-n", "5"], Some(5)),
        ],
        &mut argv,
    );
    let amqp_uri = pick(
        &[
            (&[], None),
            (&["--amqp-uri", "amqp://a:5672"], Some("amqp://a:5672".to_string())),
            (&["PALADIN_AMQP_URI=amqp://e:5672"], Some("amqp://e:5672".to_string())),
        ],
        &mut argv,
    );
    let task_bus_routing_key = pick(
        &[
            (&[], None),
            (&["--task-bus-routing-key", "bus"], Some("bus".to_string())),
            (&["--task-bus-routing-key", ""], Some(String::new())),
            (&["PALADIN_TASK_BUS_ROUTING_KEY=env-bus"], Some("env-bus".to_string())),
        ],
        &mut argv,
    );
    let line = argv.join(" ");
    let (vars, args): (Vec<_>, Vec<_>) = argv.into_iter().partition(|w| w.starts_with("PALADIN_"));
    let got = {
        let _env = ENV.lock().unwrap_or_else(|e| e.into_inner());
        let vars: Vec<_> = vars.iter().map(|v| v.split_once('=').unwrap()).collect();
        vars.iter().for_each(|(k, v)| std::env::set_var(k, v));
        let got = Cli::try_parse_from(args);
        vars.iter().for_each(|(k, _)| std::env::remove_var(k));
        got
    };
    if amqp_uri.is_none() && runtime != Some(RuntimeKind::InMemory) {
        // Refused here or when the runtime is built.
        let Ok(c) = got else { return Ok("rejected".into()) };
        let r = mcrt::block_on(async {
            Ok::<_, anyhow::Error>((
                Runtime::from_config(&c.options, register()).await.is_err(),
                WorkerRuntime::from_config(&c.options, register()).await.is_err(),
            ))
        });
        no_panics()?;
        let r = r.unwrap();
        ensure!(r == (true, true), "{line:?} gives no broker, and runtimes were built from it");
        return Ok("rejected later".into());
    }
    let want = Config {
        serializer: serializer.unwrap_or(SerializerKind::Postcard),
        runtime: runtime.unwrap_or(RuntimeKind::Amqp),
        num_workers,
        amqp_uri,
        task_bus_routing_key,
    };
    match got {
        Ok(c) if c.options == want => Ok("accepted".into()),
        Ok(c) => Err(format!("{line:?} was read as {:?} instead of {want:?}", c.options)),
        Err(e) => Err(format!("{line:?} was rejected: {e}")),
    }
}

/// Values that no option has.
fn bad_command_lines() -> Result<String, String> {
    const BAD: [&[&str]; 7] = [
        &["--serializer", "json"],
        &["--serializer", ""],
        &["--runtime", "in_memory"],
        &["--runtime", "kafka"],
        &["--num-workers", "-1"],
        &["--num-workers", "many"],
        &["--num-workers", "1.5"],
    ];
    let b = BAD[mcrt::choose(BAD.len())];
    let argv = ["worker", "--amqp-uri", "amqp://a"].into_iter().chain(b.iter().copied());
    let _env = ENV.lock().unwrap_or_else(|e| e.into_inner());
    let got = Cli::try_parse_from(argv);
    ensure!(got.is_err(), "{b:?} was accepted: {got:?}");
    Ok("rejected".into())
}

// ------------------------------------------------------------------ workers

/// In-memory runtimes execute as many tasks at a time as they have workers.
fn parallel(given: Option<usize>, shorthand: bool, tasks: usize, ser: Ser) -> Result<String, String> {
    set_gated(true);
    let workers = given.unwrap_or(3);
    let rt = Arc::new(
        mcrt::block_on(async {
            if shorthand {
                return Runtime::in_memory().await;
            }
            let c = Config { num_workers: given, ..memory_config(0, ser) };
            Runtime::from_config(&c, register()).await
        })
        .map_err(|e| e.to_string())?,
    );
    let seen: SharedSeen<u64> = Default::default();
    let (s2, r2) = (seen.clone(), rt.clone());
    let leader = mcrt::task("leader", async move {
        match IndexedStream::from((0..tasks as u64).collect::<Vec<_>>()).map(&INC1).run(&r2).await {
            Ok(s) => read(s, s2).await,
            Err(e) => s2.lock().unwrap().err = Some(e.to_string()),
        }
    });
    mcrt::start_exploring();
    let mut done = 0;
    loop {
        mcrt::quiesce();
        let g = mcrt::gates_waiting();
        ensure!(
            g.len() == workers.min(tasks - done),
            "{} of {} remaining tasks are executed at the same time, {workers} workers are configured",
            g.len(),
            tasks - done
        );
        if g.is_empty() {
            break;
        }
        done += 1;
        mcrt::gate_open(g[mcrt::choose(g.len())]);
    }
    no_panics()?;
    if workers == 0 && tasks > 0 {
        ensure!(!leader.is_finished(), "a map without workers ended");
        return Ok("no workers".into());
    }
    let s = seen.lock().unwrap();
    ensure!(s.ended, "the map did not end: {:?}", s.err);
    let want: Vec<(usize, u64)> = (0..tasks).map(|i| (i, 10 * i as u64 + 1)).collect();
    same_items(&s.items, &want)?;
    drop(rt);
    Ok(format!("{workers} workers"))
}

// ---------------------------------------------------------------- isolation

#[derive(Clone, Copy, Debug, PartialEq)]
struct Place {
    broker: usize,
    bus: usize,
}
const BROKERS: [&str; 2] = ["amqp://broker", "amqp://other"];
fn bus(i: usize) -> Option<String> {
    match i {
        0 => None,
        1 => Some("bus".into()),
        // The default's name is the default.
        2 => Some(TASK_IPC_ROUTING_KEY.into()),
        _ => Some("bus-2".into()),
    }
}
impl Place {
    fn same(self, o: Place) -> bool {
        let name = |p: Place| bus(p.bus).unwrap_or(TASK_IPC_ROUTING_KEY.into());
        self.broker == o.broker && name(self) == name(o)
    }
    fn config(self, ser: Ser) -> Config {
        Config {
            amqp_uri: Some(BROKERS[self.broker].into()),
            task_bus_routing_key: bus(self.bus),
            ..amqp_config(ser)
        }
    }
}
const PLACES: [Place; 5] = [
    Place { broker: 0, bus: 0 },
    Place { broker: 0, bus: 1 },
    Place { broker: 0, bus: 2 },
    Place { broker: 1, bus: 0 },
    Place { broker: 0, bus: 3 },
];

fn start_worker(p: Place, ser: Ser, name: &str) -> Slot<()> {
    let end: Slot<()> = Default::default();
    let e2 = end.clone();
    mcrt::task(name, async move {
        let r = async { WorkerRuntime::from_config(&p.config(ser), register()).await?.main_loop().await }.await;
        e2.put(r)
    });
    end
}

/// Two leaders and one or two workers; maps are executed exactly by workers of
/// the same broker and bus, and if there are none, as soon as one starts.
fn isolation(a: Place, b: Place, w: Place, v: Option<Place>, ser: Ser, gated: bool) -> Result<String, String> {
    set_gated(gated);
    let mut ends = vec![start_worker(w, ser, "worker0")];
    let mut workers = vec![w];
    if let Some(v) = v {
        ends.push(start_worker(v, ser, "worker1"));
        workers.push(v);
    }
    mcrt::quiesce();
    let mut leaders = vec![];
    let mut slots = vec![];
    for (i, p) in [a, b].into_iter().enumerate() {
        let rt = mcrt::block_on(async { Runtime::from_config(&p.config(ser), register()).await });
        let rt = rt.map_err(|e| e.to_string())?;
        let seen: SharedSeen<u64> = Default::default();
        let s2 = seen.clone();
        let vals = vec![10 * (i as u64 + 1), 10 * (i as u64 + 1) + 1];
        leaders.push(mcrt::task(&format!("leader{i}"), async move {
            match IndexedStream::from(vals).map(&INC1).run(&rt).await {
                Ok(s) => read(s, s2).await,
                Err(e) => s2.lock().unwrap().err = Some(e.to_string()),
            }
        }));
        slots.push((p, seen));
    }
    mcrt::start_exploring();
    let complete = |i: usize| -> Result<(), String> {
        let s = slots[i].1.lock().unwrap();
        ensure!(s.err.is_none(), "leader {i} failed: {:?}", s.err);
        ensure!(s.ended, "the map of leader {i} hangs although a worker of its broker and bus runs");
        let x = 10 * (i as u64 + 1);
        same_items(&s.items, &[(0, 10 * x + 1), (1, 10 * x + 11)])
    };
    let untouched = |i: usize, workers: &[Place]| -> Result<(), String> {
        let s = slots[i].1.lock().unwrap();
        ensure!(
            s.items.is_empty() && s.err.is_none() && !s.ended,
            "the map of leader {i} at {:?} was answered by workers of {workers:?}",
            slots[i].0
        );
        for x in [10 * (i as u64 + 1), 10 * (i as u64 + 1) + 1] {
            let n = runs_of(&format!("inc1({x})"));
            ensure!(n == 0, "a task of {:?} was executed by workers of {workers:?}", slots[i].0);
        }
        Ok(())
    };
    let all = |name: &str| -> Result<(), String> {
        // Until nothing happens any more, completions in any order.
        loop {
            mcrt::quiesce();
            let g = mcrt::gates_waiting();
            if g.is_empty() {
                break;
            }
            mcrt::gate_open(g[mcrt::choose(g.len())]);
        }
        no_panics().map_err(|e| format!("{name}: {e}"))
    };
    all("at first")?;
    let mut late = vec![];
    for i in 0..2 {
        if workers.iter().any(|w| w.same(slots[i].0)) {
            complete(i)?;
        } else {
            untouched(i, &workers)?;
            late.push(slots[i].0);
        }
    }
    for p in late {
        ends.push(start_worker(p, ser, "late"));
        workers.push(p);
        all("later")?;
    }
    for i in 0..2 {
        complete(i)?;
        for x in [10 * (i as u64 + 1), 10 * (i as u64 + 1) + 1] {
            let n = runs_of(&format!("inc1({x})"));
            ensure!(n == 1, "a task was executed {n} times");
        }
    }
    ensure!(ends.iter().all(|e| !e.is_set()), "a worker left");
    Ok(format!("{} late workers", workers.len() - 1 - v.is_some() as usize))
}

/// A broker that cannot be reached.
fn unreachable_broker(worker: bool) -> Result<String, String> {
    with(|w| w.refuse_connections = true);
    mcrt::start_exploring();
    let r = mcrt::block_on(async {
        let c = PLACES[0].config(Ser::Postcard);
        if worker {
            WorkerRuntime::from_config(&c, register()).await.map(|_| ())
        } else {
            Runtime::from_config(&c, register()).await.map(|_| ())
        }
    });
    no_panics()?;
    ensure!(r.is_err(), "a runtime was built although the broker cannot be reached");
    Ok("error".into())
}

pub fn scenarios(t: Tier) -> Vec<Scen> {
    let mut v = vec![
        Scen::new("command-lines", dev(0), command_lines).what("all combinations of several ways to give each option, on the command line or in the environment"),
        Scen::new("bad-command-lines", dev(0), bad_command_lines).what("values that no option has"),
    ];
    for ser in SERS {
        for given in [None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(t.pick(5, 6))] {
            for tasks in [0, 1, t.pick(5, 6)] {
                v.push(
                    Scen::new(format!("workers-{given:?}-tasks-{tasks}-{ser:?}"), dev(0), move || parallel(given, false, tasks, ser))
                        .what("all completion orders; the number of tasks executed at the same time"),
                );
            }
        }
    }
    v.push(Scen::new("workers-shorthand", dev(0), || parallel(None, true, 5, Ser::Postcard)).what("all completion orders"));
    for worker in [false, true] {
        v.push(
            Scen::new(format!("unreachable-broker-worker-{worker}"), dev(2), move || unreachable_broker(worker))
                .what("a broker that refuses connections"),
        );
    }
    for a in PLACES {
        for b in PLACES {
            for w in PLACES {
                let others: Vec<Option<Place>> = if t.thorough() {
                    std::iter::once(None).chain(PLACES.into_iter().map(Some)).collect()
                } else {
                    vec![None, Some(PLACES[1])]
                };
                for v2 in others {
                    let ser = if w.bus == 1 { Ser::Cbor } else { Ser::Postcard };
                    let n = |p: Place| format!("{}/{}", p.broker, p.bus);
                    let name = format!("leaders-{}-{}-workers-{}-{}", n(a), n(b), n(w), v2.map(n).unwrap_or_default());
                    v.push(
                        Scen::new(&name, dev(0), move || isolation(a, b, w, v2, ser, true))
                            .what("leaders and workers at every combination of brokers and buses, all completion orders"),
                    );
                    if v2.is_none() && a.bus <= 1 && b.bus <= 1 && w.bus <= 1 {
                        v.push(
                            Scen::new(format!("{name}-schedules"), deferred(dev(t.pick(1, 2))), move || {
                                isolation(a, b, w, v2, ser, false)
                            })
                            .what("as above, all schedules within the deviation bound"),
                        );
                    }
                }
            }
        }
    }
    v
}
