//! Runs the scenarios of a property and reports.
use std::{
    collections::BTreeMap,
    io::Write,
    path::PathBuf,
    sync::Arc,
    time::{Duration, Instant},
};

use mcrt::{explore, Limits, Prefix, Report};
use serde_json::{json, Value};

use crate::{
    common::{Scen, Tier},
    props,
};

fn root() -> PathBuf {
    std::env::var_os("MC_ROOT")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif"))
}

struct Known {
    property: String,
    key: String,
    scenario: String,
    text: String,
    what: String,
}

/// `known: property=P | key | scenario substring | message substring | what fails`
fn known_list() -> Vec<Known> {
    let Ok(s) = std::fs::read_to_string(root().join("known_findings.txt")) else {
        return vec![];
    };
    s.lines()
        .filter_map(|l| l.strip_prefix("known: property="))
        .filter_map(|l| {
            let f: Vec<&str> = l.split('|').map(str::trim).collect();
            (f.len() == 5).then(|| Known {
                property: f[0].into(),
                key: f[1].into(),
                scenario: f[2].into(),
                text: f[3].into(),
                what: f[4].into(),
            })
        })
        .collect()
}

fn threads() -> usize {
    std::env::var("MC_THREADS")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or_else(|| {
            std::thread::available_parallelism()
                .map(|n| n.get())
                .unwrap_or(4)
        })
}

fn replay_path(id: &str) -> PathBuf {
    root().join("replays").join(format!("{id}.json"))
}

fn write_replay(
    id: &str,
    tier: Tier,
    scen: &str,
    prefix: &Prefix,
    bound: u32,
    msg: &str,
    trace: &[String],
) -> PathBuf {
    let p = replay_path(id);
    let _ = std::fs::create_dir_all(p.parent().unwrap());
    let v = json!({
        "property": id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "scenario": scen,
        "prefix": prefix,
        "bound": bound,
        "message": msg,
        "trace": trace,
        "how": format!("/verif/run.sh replay {}", p.display()),
    });
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
    p
}

struct Done {
    name: String,
    what: String,
    rep: Report,
    cfg: String,
    sample: Value,
}

fn sample(s: &Scen) -> Value {
    let out = mcrt::run_one(&s.cfg, vec![], 0, true, &s.body);
    let mut t = out.trace;
    if t.len() > 40 {
        let n = t.len();
        t.truncate(40);
        t.push(format!("... {} more lines", n - 40));
    }
    json!({
        "scenario": s.name,
        "default_schedule": t,
        "result": match out.result { Ok(o) => o, Err(e) => format!("violation: {e}") },
    })
}

fn check(id: &str, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let seed: i64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let only = std::env::var("MC_ONLY").ok();
    let verbose = std::env::var_os("MC_VERBOSE").is_some();
    let mut scens = props::scenarios(id, tier);
    if let Some(o) = &only {
        scens.retain(|s| s.name.contains(o.as_str()));
    }
    if scens.is_empty() {
        eprintln!("no scenarios for {id}");
        return 2;
    }
    // P16 compiles programs before it starts.
    let t1 = Instant::now();
    let budget = Duration::from_secs_f64(
        std::env::var("MC_BUDGET")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(tier.pick(90.0, 780.0)),
    );
    let known: Arc<Vec<Known>> =
        Arc::new(known_list().into_iter().filter(|k| k.property == id).collect());
    let mut done: Vec<Done> = vec![];
    let mut violation = None;
    let mut seen_known: BTreeMap<String, u64> = BTreeMap::new();
    for i in 0..scens.len() {
        let s = &scens[i];
        let left = budget.saturating_sub(t1.elapsed());
        let wsum: f64 = scens[i..].iter().map(|s| s.weight).sum();
        // A scenario may use up to three fair shares of what is left.
        let share = (3.0 * s.weight / wsum).min(1.0);
        let wall = left.mul_f64(share).max(Duration::from_millis(500));
        let kn = known.clone();
        let sname = s.name.clone();
        let id2 = id.to_string();
        let sname2 = s.name.clone();
        let lim = Limits {
            threads: threads(),
            wall,
            known: Arc::new(move |m: &str| {
                kn.iter()
                    .find(|k| sname.contains(&k.scenario) && m.contains(&k.text))
                    .map(|k| k.key.clone())
            }),
            stuck: Arc::new(move |p, b| {
                let m = "an execution does not terminate";
                let path = write_replay(&id2, tier, &sname2, p, b, m, &[]);
                println!("scenario {sname2}: {m}");
                println!("VIOLATION property={id2} replay={}", path.display());
                let _ = std::io::stdout().flush();
                std::process::exit(1);
            }),
        };
        let rep = explore(&s.cfg, &lim, s.body.clone());
        if verbose {
            println!(
                "{:<44} exec {:>8} nodes {:>9} steps {:>10} bound {:?}/{}{} outcomes {} {:?} leaked {} maxdec {} div {} {}",
                s.name,
                rep.executions,
                rep.states,
                rep.transitions,
                rep.completed_bound,
                s.cfg.bound,
                if rep.capped { " CAPPED" } else { "" },
                rep.outcomes.len(),
                rep.wall,
                rep.leaked,
                rep.max_decisions,
                rep.diverged,
                rep.error.clone().unwrap_or_default(),
            );
            let mut n = 0;
            for (o, c) in rep.outcomes.iter() {
                if n < 6 {
                    println!("      {c:>8} x {o}");
                }
                n += 1;
            }
        }
        for (k, n) in rep.known.iter() {
            *seen_known.entry(k.clone()).or_default() += n;
        }
        let v = rep.violation.clone();
        done.push(Done {
            name: s.name.clone(),
            what: s.what.clone(),
            cfg: format!("{:?} bound {}", s.cfg.mode, s.cfg.bound),
            sample: if done.len() < 4 { sample(s) } else { Value::Null },
            rep,
        });
        if let Some(v) = v {
            let path = write_replay(id, tier, &scens[i].name, &v.prefix, v.bound, &v.msg, &v.trace);
            violation = Some((scens[i].name.clone(), v, path));
            break;
        }
    }
    let executions: u64 = done.iter().map(|d| d.rep.executions).sum();
    let states: u64 = done.iter().map(|d| d.rep.states).sum();
    let transitions: u64 = done.iter().map(|d| d.rep.transitions).sum();
    let exhaustive = done
        .iter()
        .all(|d| !d.rep.capped && d.rep.violation.is_none() && d.rep.diverged == 0);
    // Many scenarios are summed up by what they explore and how far.
    let mut groups: Vec<(String, Vec<&Done>)> = vec![];
    for d in &done {
        let key = match done.len() > 200 {
            true => format!("{} {} {:?} {}", d.what, d.cfg, d.rep.completed_bound, d.rep.capped),
            false => d.name.clone(),
        };
        match groups.iter_mut().find(|g| g.0 == key) {
            Some(g) => g.1.push(d),
            None => groups.push((key, vec![d])),
        }
    }
    let scen_json: Vec<Value> = groups
        .iter()
        .map(|(_, g)| {
            let sum = |f: &dyn Fn(&Done) -> u64| g.iter().map(|d| f(d)).sum::<u64>();
            let d = g[0];
            json!({
                "scenarios": g.len(),
                "scenario": g.iter().take(12).map(|d| d.name.as_str()).collect::<Vec<_>>().join(", ") + if g.len() > 12 { ", ..." } else { "" },
                "explores": d.what,
                "search": d.cfg,
                "executions": sum(&|d| d.rep.executions),
                "schedules_at_deepest_bound": sum(&|d| d.rep.schedules),
                "decision_nodes": sum(&|d| d.rep.states),
                "steps": sum(&|d| d.rep.transitions),
                "completed_bound": d.rep.completed_bound,
                "time_capped": d.rep.capped,
                "distinct_outcomes": sum(&|d| d.rep.outcomes.len() as u64),
                "most_decisions_in_one_execution": g.iter().map(|d| d.rep.max_decisions).max(),
                "diverged_replays": sum(&|d| d.rep.diverged),
                "wall_s": g.iter().map(|d| d.rep.wall.as_secs_f64()).sum::<f64>(),
            })
        })
        .collect();
    let ev = json!({
        "property": id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": states,
            "transitions": transitions,
            "traces_validated_against_impl": executions,
            "exhaustive": exhaustive,
            "explanation": if id == "P16" { "Each execution chooses a program of the enumerated family, compiled from /repo's working tree by its real macro without any stand-ins, and executes tasks in it. states = nodes of the trees of choices." } else { "Stateless exploration of the code of /repo itself, compiled against controlled primitives. states = distinct nodes of the explored decision trees (schedule, event-order and data decisions) at the deepest bound; transitions = scheduler steps executed there; traces_validated_against_impl = complete executions of the implementation, each judged by the property's oracle (all bounds)." },
            "distinct_outcomes": done.iter().map(|d| d.rep.outcomes.len()).sum::<usize>(),
            "scenarios": scen_json,
            "samples": done.iter().filter(|d| !d.sample.is_null()).map(|d| d.sample.clone()).collect::<Vec<_>>(),
            "known_findings_seen": seen_known,
        },
        "assumptions": props::assumptions(id),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violation.is_some() as u32,
    });
    let evdir = root().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(
        evdir.join(format!("{id}.json")),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .expect("evidence");
    props::cleanup(id, tier);
    for k in known.iter() {
        if seen_known.contains_key(&k.key) {
            println!("KNOWN-FINDING: property={id} {}", k.what);
        }
    }
    println!(
        "{id}: {} scenarios, {executions} executions, {states} decision nodes, {transitions} steps, {:.1} s",
        done.len(),
        t0.elapsed().as_secs_f64()
    );
    for d in &done {
        if let Some(e) = &d.rep.error {
            println!("note: {}: {e}", d.name);
        }
    }
    if let Some((s, v, path)) = violation {
        println!("scenario {s}: {}", v.msg);
        for l in v.trace.iter().take(120) {
            println!("    {l}");
        }
        println!("VIOLATION property={id} replay={}", path.display());
        return 1;
    }
    0
}

fn replay(path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file"))
        .expect("replay json");
    let id = v["property"].as_str().unwrap();
    let tier = if v["tier"] == "quick" {
        Tier::Quick
    } else {
        Tier::Thorough
    };
    let prefix: Prefix = serde_json::from_value(v["prefix"].clone()).unwrap();
    for s in props::scenarios(id, tier) {
        if Some(s.name.as_str()) == v["scenario"].as_str() {
            let mut cfg = s.cfg.clone();
            cfg.bound = v["bound"].as_u64().unwrap() as u32;
            let out = mcrt::run_one_at(&cfg, prefix.clone(), true, &s.body);
            for l in out.trace {
                println!("    {l}");
            }
            println!("{:?}", out.result);
            return match out.result {
                Ok(_) => 0,
                Err(_) => {
                    println!("VIOLATION property={id} replay={path}");
                    1
                }
            };
        }
    }
    eprintln!("no such scenario");
    2
}

pub fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    let code = match a.as_slice() {
        ["check", id, "quick"] => check(id, Tier::Quick),
        ["check", id, "thorough"] => check(id, Tier::Thorough),
        ["replay", p] => replay(p),
        ["list"] => {
            for id in props::IDS {
                for s in props::scenarios(id, Tier::Quick) {
                    println!("{id} {} ({:?} bound {})", s.name, s.cfg.mode, s.cfg.bound);
                }
            }
            0
        }
        _ => {
            eprintln!("usage: mc check ID quick|thorough | replay FILE | list");
            2
        }
    };
    std::process::exit(code)
}
