//! Identifiers that the runtime issues.
use std::{
    collections::BTreeSet,
    sync::{Arc, Mutex},
};

use lapin::model::with;
use paladin::runtime::Runtime;

use crate::common::*;
use crate::ensure;
use crate::ops::*;
use crate::rt::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum What {
    /// The routing key of a result channel.
    Channel,
    /// The tag of a result channel's consumer (AMQP).
    Consumer,
}

/// Draws that the runtime may use for what is issued by one lease.
const DRAWS: usize = 48;
/// Every one of 64 values in every group of six bits.
fn pattern(v: u64) -> u64 {
    (0..11).fold(0, |a, i| a | v << (6 * i))
}

fn lease(rt: &Runtime) -> Result<(String, String), String> {
    let r = mcrt::block_on(async { rt.lease_coordinated_task_channel::<Inc, ()>().await });
    let (id, _sender, receiver) = r.map_err(|e| e.to_string())?;
    let tag = with(|w| w.consumers.last().map(|c| c.tag.clone())).unwrap_or_default();
    drop(receiver);
    mcrt::quiesce();
    Ok((id, tag))
}

fn deploy(amqp: bool) -> Arc<Runtime> {
    lab(|l| l.amqp = amqp);
    runtime(1, Ser::Postcard)
}

/// How many identifiers the generator's draws lead to: the product over the
/// draws of the number of identifiers that changing one draw leads to. Pairs of
/// draws are checked to be independent.
fn space(amqp: bool, what: What, base: u64) -> Result<String, String> {
    let rt = deploy(amqp);
    let issue = |draws: &[u64]| -> Result<String, String> {
        mcrt::rng_script(draws.iter().copied());
        let (id, tag) = lease(&rt)?;
        Ok(match what {
            What::Channel => id,
            What::Consumer => tag,
        })
    };
    let draws: Vec<u64> = (0..DRAWS as u64).map(|k| pattern((base + 5 * k) % 60)).collect();
    let first = issue(&draws)?;
    if issue(&draws)? != first {
        // Something else determines identifiers; they must look as varied.
        let ids = (0..2000).map(|_| issue(&draws)).collect::<Result<Vec<_>, _>>()?;
        let len = ids.iter().map(|i| i.len()).max().unwrap_or(0);
        let varied = (0..len)
            .filter(|p| ids.iter().filter_map(|i| i.bytes().nth(*p)).collect::<BTreeSet<u8>>().len() >= 16)
            .count();
        ensure!(varied >= 5, "identifiers of a {what:?} differ at {varied} positions only: {:?}", &ids[..4]);
        return Ok(format!("not determined by the thread's generator, {varied} varied characters"));
    }
    let mut counts = vec![];
    for k in 0..DRAWS {
        let mut ids = BTreeSet::new();
        for v in 0..64 {
            let mut d = draws.clone();
            d[k] = pattern(v);
            ids.insert(issue(&d)?);
        }
        // A value that sampling rejects shifts later draws, which is no contribution of its own.
        if ids.len() >= 8 {
            counts.push((k, ids.len() as u64));
        }
    }
    let total = counts.iter().fold(1u128, |a, c| a.saturating_mul(c.1 as u128));
    ensure!(
        total >= 62u128.pow(5),
        "only {total} identifiers of a {what:?} follow from the generator's draws, such as {first:?} ({counts:?})"
    );
    for w in counts.windows(2).take(5) {
        let mut ids = BTreeSet::new();
        let (mut ones, mut twos) = (BTreeSet::new(), BTreeSet::new());
        // Values that no sampling rejects.
        for a in 0..32 {
            for b in 0..32 {
                let mut d = draws.clone();
                d[w[0].0] = pattern(a);
                d[w[1].0] = pattern(b);
                let id = issue(&d)?;
                if b == 0 {
                    ones.insert(id.clone());
                }
                if a == 0 {
                    twos.insert(id.clone());
                }
                ids.insert(id);
            }
        }
        ensure!(
            ids.len() == ones.len() * twos.len(),
            "draws {} and {} lead to {} identifiers, alone to {} and {}",
            w[0].0,
            w[1].0,
            ids.len(),
            ones.len(),
            twos.len()
        );
    }
    Ok(format!("{total} from {} draws", counts.len()))
}

/// A history of leases, some at the same time, of several deployments.
fn fresh(amqp: bool, leaders: usize, rounds: usize, held: bool) -> Result<String, String> {
    lab(|l| l.amqp = amqp);
    let ids: Arc<Mutex<Vec<String>>> = Default::default();
    let tags_of = || with(|w| w.consumers.iter().map(|c| c.tag.clone()).collect::<Vec<_>>());
    let mut rts = vec![];
    for i in 0..leaders {
        mcrt::rng_seed(77 + i as u64);
        rts.push(runtime(1, Ser::Postcard));
    }
    mcrt::start_exploring();
    let mut hs = vec![];
    for (i, rt) in rts.iter().enumerate() {
        for t in 0..2 {
            let (rt, ids) = (rt.clone(), ids.clone());
            hs.push(mcrt::task(&format!("leader{i}-{t}"), async move {
                let mut keep = vec![];
                for _ in 0..rounds {
                    let l = rt.lease_coordinated_task_channel::<Inc, ()>().await.expect("lease");
                    ids.lock().unwrap().push(l.0.clone());
                    if held {
                        keep.push(l);
                    }
                }
            }));
        }
    }
    mcrt::quiesce();
    ensure!(hs.iter().all(|h| h.is_finished()), "a lease does not return");
    no_panics()?;
    let ids = ids.lock().unwrap();
    let mut all: Vec<String> = ids.iter().cloned().chain(tags_of()).collect();
    ensure!(ids.len() == 2 * rounds * leaders, "{} leases", ids.len());
    all.sort();
    for w in all.windows(2) {
        ensure!(w[0] != w[1], "identifier {} was issued twice: {ids:?}", w[0]);
    }
    Ok("distinct".into())
}

/// Two deployments, each in the first of its processes, with other draws.
fn processes(amqp: bool, what: What) -> Result<String, String> {
    let mut ids = BTreeSet::new();
    let n = 64;
    for s in 0..n {
        mcrt::rng_seed(1_000_003 * s);
        let rt = deploy(amqp);
        // As in a new process, the first identifier after the start.
        mcrt::rng_seed(7_777_777 * s + 1);
        let (id, tag) = lease(&rt)?;
        ids.insert(if what == What::Channel { id } else { tag });
        mcrt::block_on(async { rt.close().await }).map_err(|e| e.to_string())?;
    }
    ensure!(ids.len() as u64 == n, "{n} processes issued {} identifiers", ids.len());
    Ok(format!("{n} identifiers"))
}

pub fn scenarios(t: Tier) -> Vec<Scen> {
    let mut v = vec![];
    for base in 0..t.pick(2, 8) {
        for (amqp, what) in [(false, What::Channel), (true, What::Channel), (true, What::Consumer)] {
            v.push(
                Scen::new(format!("space-{what:?}-amqp-{amqp}-base-{base}"), long(dev(0)), move || space(amqp, what, base * 7))
                    .what("every value of every draw of the random generator, and pairs of draws"),
            );
        }
    }
    for (amqp, what) in [(false, What::Channel), (true, What::Channel), (true, What::Consumer)] {
        v.push(
            Scen::new(format!("processes-{what:?}-amqp-{amqp}"), long(dev(0)), move || processes(amqp, what))
                .what("deployments that differ in their random draws"),
        );
    }
    for amqp in [false, true] {
        for leaders in 1..=2 {
            for held in [false, true] {
                v.push(
                    Scen::new(
                        format!("fresh-amqp-{amqp}-leaders-{leaders}-held-{held}"),
                        deferred(dev(t.pick(2, 3))),
                        move || fresh(amqp, leaders, 2, held),
                    )
                    .what("concurrent leases, all schedules within the deviation bound"),
                );
                v.push(
                    Scen::new(
                        format!("fresh-many-amqp-{amqp}-leaders-{leaders}-held-{held}"),
                        long(dev(0)),
                        move || fresh(amqp, leaders, t.pick(100, 400), held),
                    )
                    .what("a long history of leases"),
                );
            }
        }
    }
    v
}
