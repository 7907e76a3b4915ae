//! Operations whose completion, failures and order the harness controls.
use std::collections::HashMap;

use paladin::{
    operation::{
        FatalError, FatalStrategy, Monoid, Operation, OperationError, Result, RetryStrategy,
        TransientError,
    },
    AbortSignal, RemoteExecute,
};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq)]
pub enum Fate {
    Ok,
    /// Transient failure, then the next entry of the plan.
    Transient(RetryStrategyC, FatalC),
    Fatal(FatalC),
    Panic,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FatalC {
    Terminate,
    Ignore,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RetryStrategyC {
    Immediate(u32),
    After(u32, u64),
    Exp(u64, u64),
}
impl FatalC {
    pub fn get(self) -> FatalStrategy {
        match self {
            FatalC::Terminate => FatalStrategy::Terminate,
            FatalC::Ignore => FatalStrategy::Ignore,
        }
    }
}
impl RetryStrategyC {
    pub fn get(self) -> RetryStrategy {
        use std::{num::NonZeroU32, time::Duration};
        match self {
            RetryStrategyC::Immediate(n) => RetryStrategy::Immediate {
                max_retries: NonZeroU32::new(n).unwrap(),
            },
            RetryStrategyC::After(n, ms) => RetryStrategy::After {
                max_retries: NonZeroU32::new(n).unwrap(),
                duration: Duration::from_millis(ms),
            },
            RetryStrategyC::Exp(a, b) => RetryStrategy::Exponential {
                min_duration: Duration::from_millis(a),
                max_duration: Duration::from_millis(b),
            },
        }
    }
}

/// What an execution of an operation looked like.
#[derive(Clone, Debug)]
pub struct Run {
    pub key: String,
    pub start_ns: u64,
    pub ended: bool,
}

#[derive(Default)]
pub struct Lab {
    /// Key of a task -> fates of its successive attempts (the last repeats).
    pub plans: HashMap<String, Vec<Fate>>,
    pub attempts: HashMap<String, usize>,
    pub runs: Vec<Run>,
    pub gated: bool,
    /// Runtimes of this execution use AMQP and separate workers.
    pub amqp: bool,
    /// Keys that are not gated although `gated`.
    pub free: Vec<String>,
    pub gate_names: HashMap<u64, String>,
    pub aborts: Vec<(String, AbortSignal)>,
}

pub fn lab<R>(f: impl FnOnce(&mut Lab) -> R) -> R {
    mcrt::local::<Lab, R>("lab", f)
}
pub fn set_gated(g: bool) {
    lab(|l| l.gated = g)
}
pub fn plan(key: impl Into<String>, p: Vec<Fate>) {
    let k = key.into();
    lab(|l| {
        l.plans.insert(k, p);
    })
}
/// Number of executions of a task.
pub fn runs_of(key: &str) -> usize {
    lab(|l| l.runs.iter().filter(|r| r.key == key).count())
}
pub fn runs_total() -> usize {
    lab(|l| l.runs.len())
}
pub fn run_keys() -> Vec<String> {
    lab(|l| l.runs.iter().map(|r| r.key.clone()).collect())
}
/// Whether an execution of `key` that was started saw its abort signal raised.
pub fn abort_raised(key: &str) -> Option<bool> {
    lab(|l| {
        l.aborts
            .iter()
            .rev()
            .find(|(k, _)| k == key)
            .map(|(_, a)| match a {
                Some(a) => a.load(std_order()),
                None => false,
            })
    })
}
fn std_order() -> std::sync::atomic::Ordering {
    std::sync::atomic::Ordering::SeqCst
}

pub fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
pub fn gate_id(key: &str, attempt: usize) -> u64 {
    hash(&format!("{key}@{attempt}"))
}
pub fn gate_name(g: u64) -> String {
    lab(|l| l.gate_names.get(&g).cloned().unwrap_or_default())
}

/// The body of every operation: record, wait for the gate, follow the plan.
pub fn perform(key: String, abort: AbortSignal) -> Result<()> {
    if !mcrt::active() || mcrt::tearing() {
        return Ok(());
    }
    let (attempt, fate, gated, ix) = lab(|l| {
        let a = l.attempts.entry(key.clone()).or_insert(0);
        let n = *a;
        *a += 1;
        let fate = match l.plans.get(&key) {
            None => Fate::Ok,
            Some(p) => p[n.min(p.len() - 1)].clone(),
        };
        l.runs.push(Run {
            key: key.clone(),
            start_ns: mcrt::now_ns(),
            ended: false,
        });
        l.aborts.push((key.clone(), abort.clone()));
        let gated = l.gated && !l.free.contains(&key);
        if gated {
            l.gate_names.insert(gate_id(&key, n), key.clone());
        }
        (n, fate, gated, l.runs.len() - 1)
    });
    mcrt::note(|| format!("operation {key} starts (attempt {attempt})"));
    if gated {
        mcrt::gate_wait(gate_id(&key, attempt));
    } else {
        mcrt::point(mcrt::Kind::User);
    }
    if mcrt::tearing() {
        return Ok(());
    }
    lab(|l| l.runs[ix].ended = true);
    mcrt::note(|| format!("operation {key} ends: {fate:?}"));
    match fate {
        Fate::Ok => Ok(()),
        Fate::Transient(r, f) => TransientError::from_str(
            &format!("transient {key} #{attempt}"),
            r.get(),
            f.get(),
        )
        .into(),
        Fate::Fatal(f) => FatalError::from_str(&format!("fatal {key} #{attempt}"), f.get()).into(),
        Fate::Panic => panic!("planned panic in {key}"),
    }
}

// -------------------------------------------------------------- operations

/// `x -> 10 x + k`
#[derive(Serialize, Deserialize, RemoteExecute, Debug, Clone)]
pub struct Inc {
    pub k: u64,
}
impl Operation for Inc {
    type Input = u64;
    type Output = u64;
    fn execute(&self, x: u64, abort: AbortSignal) -> Result<u64> {
        perform(format!("inc{}({x})", self.k), abort)?;
        Ok(10 * x + self.k)
    }
}

/// `x -> "<x>"`
#[derive(Serialize, Deserialize, RemoteExecute, Debug, Clone)]
pub struct Show;
impl Operation for Show {
    type Input = u64;
    type Output = String;
    fn execute(&self, x: u64, abort: AbortSignal) -> Result<String> {
        perform(format!("show({x})"), abort)?;
        Ok(format!("<{x}>"))
    }
}

/// Any text to its first item plus its length.
#[derive(Serialize, Deserialize, RemoteExecute, Debug, Clone)]
pub struct Measure {
    pub unit: String,
}
impl Operation for Measure {
    type Input = String;
    type Output = (String, u32);
    fn execute(&self, x: String, abort: AbortSignal) -> Result<(String, u32)> {
        perform(format!("measure({x})"), abort)?;
        Ok((format!("{x}{}", self.unit), x.len() as u32))
    }
}

/// Concatenation with an explicit identity: associative and not commutative.
#[derive(Serialize, Deserialize, RemoteExecute, Debug, Clone)]
pub struct Cat;
impl Monoid for Cat {
    type Elem = String;
    fn empty(&self) -> String {
        "()".into()
    }
    fn combine(&self, a: String, b: String, abort: AbortSignal) -> Result<String> {
        perform(format!("{a}+{b}"), abort)?;
        Ok(match (a.as_str(), b.as_str()) {
            ("()", _) => b,
            (_, "()") => a,
            _ => format!("{a}{b}"),
        })
    }
}

pub static INC1: Inc = Inc { k: 1 };
pub static INC2: Inc = Inc { k: 2 };
pub static SHOW: Show = Show;
pub static CAT: Cat = Cat;

pub fn err_text(e: &OperationError) -> String {
    e.as_err().to_string()
}
