//! Serialization of values, tasks and results.
use std::{collections::BTreeMap, fmt::Debug};

use bytes::Bytes;
use lapin::model::with;
use mcrt::choose;
use paladin::{
    config::Config,
    operation::{Operation, OperationError, RemoteExecute},
    queue::Connection,
    runtime::{CommandIpc, TASK_IPC_ROUTING_KEY},
    serializer::Serializer,
    task::{AnyTask, AnyTaskOutput, AnyTaskResult, Task, TaskOutput},
};
use serde::{Deserialize, Serialize};

use crate::common::*;
use crate::ensure;
use crate::ops::*;
use crate::rt::*;

// ------------------------------------------------------------------- values

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct Unit;
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct New(u64);
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct Rec {
    a: i16,
    b: Option<Vec<String>>,
    c: BTreeMap<String, (u8, bool)>,
    d: Box<Kind>,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
enum Kind {
    Nothing,
    One(char),
    Two(i64, String),
    Named { x: Option<u32>, y: Vec<Kind> },
}
fn kinds_() -> Vec<Kind> {
    vec![
        Kind::Nothing,
        Kind::One('ß'),
        Kind::One('\u{10ffff}'),
        Kind::Two(i64::MIN, "".into()),
        Kind::Two(-1, "x\0y".into()),
        Kind::Named { x: None, y: vec![] },
        Kind::Named { x: Some(u32::MAX), y: vec![Kind::Nothing, Kind::One('a'), Kind::Named { x: None, y: vec![Kind::Nothing] }] },
    ]
}
fn recs() -> Vec<Rec> {
    let mut v = vec![];
    for (i, d) in kinds_().into_iter().enumerate() {
        v.push(Rec {
            a: [0, -1, i16::MAX, i16::MIN][i % 4],
            b: [None, Some(vec![]), Some(vec!["".into(), "é".repeat(70)])][i % 3].clone(),
            c: (0..i % 4).map(|k| (format!("k{k}"), (k as u8, k % 2 == 0))).collect(),
            d: Box::new(d),
        });
    }
    v
}
const LENS: [usize; 9] = [0, 1, 2, 23, 24, 127, 128, 256, 300];

/// One value, both formats: equal after the way there and back, and no proper
/// prefix of its encoding is an encoding.
fn there_and_back<T>(v: &T, same: impl Fn(&T, &T) -> bool, what: &str) -> Result<(), String>
where
    T: Serialize + for<'a> Deserialize<'a> + Debug,
{
    for ser in SERS {
        let s = ser.get();
        let b = s.to_bytes(v).map_err(|e| format!("{what} {v:?} is not serialized: {e} ({ser:?})"))?;
        let w: T = s
            .from_bytes(&b)
            .map_err(|e| format!("{what} {v:?} is not deserialized from {b:?}: {e} ({ser:?})"))?;
        ensure!(same(v, &w), "{what} {v:?} becomes {w:?} by way of {b:?} ({ser:?})");
        let c = s.to_bytes(&w).map_err(|e| e.to_string())?;
        ensure!(b == c, "{what} {v:?}: {b:?} becomes {c:?} ({ser:?})");
        for n in 0..b.len() {
            let r: anyhow::Result<T> = s.from_bytes(&b[..n]);
            ensure!(
                r.is_err(),
                "the first {n} bytes of {b:?} give the {what} {r:?}, it is {v:?} ({ser:?})"
            );
        }
    }
    Ok(())
}
fn pick<T: Clone>(v: &[T]) -> T {
    v[choose(v.len())].clone()
}
fn values() -> Result<String, String> {
    macro_rules! go {
        ($what:expr, $vals:expr) => {{
            let v = pick(&$vals);
            there_and_back(&v, |a, b| a == b, $what)?;
            format!("{}", $what)
        }};
    }
    let out = match choose(27) {
        0 => go!("u8", (0..=255u8).collect::<Vec<_>>()),
        1 => go!("i8", (-128..=127i8).collect::<Vec<_>>()),
        2 => go!("u16", (0..=16).flat_map(|k| { let x = (1u32 << k) as i64; [x - 1, x, x + 1] }).filter(|x| (0..65536).contains(x)).map(|x| x as u16).collect::<Vec<_>>()),
        3 => go!("u32", (0..32).flat_map(|k| { let x = 1u32 << k; [x - 1, x, x.wrapping_add(1)] }).collect::<Vec<_>>()),
        4 => go!("u64", (0..64).flat_map(|k| { let x = 1u64 << k; [x - 1, x, x.wrapping_add(1), !x] }).collect::<Vec<_>>()),
        5 => go!("i64", (0..64).flat_map(|k| { let x = 1i64 << k; [x.wrapping_sub(1), x, x.wrapping_neg(), !x] }).collect::<Vec<_>>()),
        6 => go!("i32", (0..32).flat_map(|k| { let x = 1i32 << k; [x.wrapping_sub(1), x, x.wrapping_neg(), !x] }).collect::<Vec<_>>()),
        7 => go!("usize", vec![0usize, 1, 23, 24, 255, 256, 65535, 65536, usize::MAX]),
        8 => go!("bool", vec![false, true]),
        9 => go!("char", vec!['\0', 'a', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}']),
        10 => {
            let v = pick(&[0.0f64, -0.0, 1.0, 1.5, -1e300, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.1]);
            there_and_back(&v, |a, b| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()), "f64")?;
            "f64".into()
        }
        11 => {
            let v = pick(&[0.0f32, -0.0, 1.0, 0.1, f32::MIN_POSITIVE, f32::MAX, f32::INFINITY, f32::NAN]);
            there_and_back(&v, |a, b| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()), "f32")?;
            "f32".into()
        }
        12 => go!("String", LENS.iter().flat_map(|n| ["a", "é", "\u{10000}", "\0"].map(|c| c.repeat(*n))).collect::<Vec<_>>()),
        13 => go!("Vec<u8>", LENS.iter().flat_map(|n| [0u8, 0x80, 0xff].map(|c| vec![c; *n])).collect::<Vec<_>>()),
        14 => go!("Bytes", LENS.iter().flat_map(|n| [0u8, 0x80, 0xff].map(|c| Bytes::from(vec![c; *n]))).collect::<Vec<_>>()),
        15 => go!("Vec<u64>", LENS.iter().map(|n| (0..*n as u64).map(|x| x * x * x).collect::<Vec<_>>()).collect::<Vec<_>>()),
        16 => go!("Option<u32>", vec![None, Some(0u32), Some(1), Some(u32::MAX)]),
        17 => go!("Option<String>", vec![None, Some("".to_string()), Some("null".into())]),
        18 => go!("unit", vec![()]),
        19 => go!("unit struct", vec![Unit]),
        20 => go!("newtype", vec![New(0), New(u64::MAX)]),
        21 => go!("tuple", vec![(1u8, "a".to_string(), Some(2i32), vec![(3u16, false)]), (0, "".into(), None, vec![])]),
        22 => go!("array", vec![[0u64; 4], [1, 2, 3, u64::MAX]]),
        23 => go!("enum", kinds_()),
        24 => go!("record", recs()),
        25 => go!("records", vec![recs(), vec![]]),
        _ => go!("map", vec![BTreeMap::new(), BTreeMap::from([(1u32, vec!["a".to_string()]), (u32::MAX, vec![])]), (0..30u32).map(|i| (i, vec![])).collect()]),
    };
    Ok(out)
}

/// Options whose presence the encoding has to keep apart.
fn nested() -> Result<String, String> {
    match choose(3) {
        0 => there_and_back(&pick(&[None, Some(())]), |a, b| a == b, "Option<()>")?,
        1 => there_and_back(&pick(&[None, Some(None), Some(Some(7u8))]), |a, b| a == b, "Option<Option<u8>>")?,
        _ => there_and_back(&pick(&[None, Some(Unit)]), |a, b| a == b, "Option of a unit struct")?,
    }
    Ok("ok".into())
}

/// Every string of bytes of a length as each type: an error or a value, which is
/// stable from then on.
fn arbitrary(len: usize) -> Result<String, String> {
    fn one<T: Serialize + for<'a> Deserialize<'a> + Debug>(s: Serializer, b: &[u8], n: &mut [u32; 2]) -> Result<(), String> {
        match s.from_bytes::<T>(b) {
            Err(_) => n[0] += 1,
            Ok(v) => {
                n[1] += 1;
                let c = s.to_bytes(&v).map_err(|e| format!("{b:?} gives {v:?}, which is not serialized: {e}"))?;
                let w: T = s.from_bytes(&c).map_err(|e| format!("{b:?} gives {v:?}, then {c:?}, then nothing: {e}"))?;
                let d = s.to_bytes(&w).map_err(|e| e.to_string())?;
                ensure!(c == d, "{b:?} gives {v:?}, then {c:?}, then {w:?} ({s})");
            }
        }
        Ok(())
    }
    let s = SERS[choose(2)].get();
    let ty = if len > 3 { pick(&[0, 3, 5, 6]) } else { choose(9) };
    let first: Vec<u8> = (2..len).map(|_| choose(256) as u8).collect();
    let mut n = [0u32; 2];
    let rest = len - first.len();
    let mut b = first.clone();
    b.resize(len, 0);
    for x in 0..256u32.pow(rest as u32) {
        for i in 0..rest {
            b[first.len() + i] = (x >> (8 * i)) as u8;
        }
        match ty {
            0 => one::<String>(s, &b, &mut n)?,
            1 => one::<Vec<u64>>(s, &b, &mut n)?,
            2 => one::<Option<(u8, bool)>>(s, &b, &mut n)?,
            3 => one::<Kind>(s, &b, &mut n)?,
            4 => one::<AnyTask>(s, &b, &mut n)?,
            5 => one::<AnyTaskResult>(s, &b, &mut n)?,
            6 => one::<CommandIpc>(s, &b, &mut n)?,
            7 => one::<(char, i64)>(s, &b, &mut n)?,
            _ => one::<Bytes>(s, &b, &mut n)?,
        }
    }
    Ok(format!("type {ty}: {} errors, {} values", n[0], n[1]))
}

// -------------------------------------------------------- tasks and results

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct Meta {
    id: u64,
    note: Option<String>,
    k: Kind,
}
fn metas() -> Vec<Meta> {
    let mut v = vec![];
    for (i, k) in kinds_().into_iter().enumerate() {
        v.push(Meta { id: 1 << (9 * i), note: [None, Some("".into()), Some("é\0".repeat(50))][i % 3].clone(), k });
    }
    v
}
const KEYS: [&str; 5] = ["", "r", "clé-\u{10000}", "a\0b", "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789"];

fn same_task(a: &AnyTask, b: &AnyTask) -> bool {
    a.routing_key == b.routing_key
        && a.metadata == b.metadata
        && a.op == b.op
        && a.operation_id == b.operation_id
        && a.input == b.input
        && a.serializer.to_string() == b.serializer.to_string()
}
fn same_output(a: &AnyTaskOutput, b: &AnyTaskOutput) -> bool {
    a.metadata == b.metadata && a.output == b.output && a.serializer.to_string() == b.serializer.to_string()
}
fn same_result(a: &AnyTaskResult, b: &AnyTaskResult) -> bool {
    match (a, b) {
        (AnyTaskResult::Ok(a), AnyTaskResult::Ok(b)) => same_output(a, b),
        (AnyTaskResult::Err(a), AnyTaskResult::Err(b)) => a == b,
        _ => false,
    }
}

/// A task of each operation, through the wire, executed, and its result through
/// the wire: everything is what went in.
fn journey() -> Result<String, String> {
    fn go<Op>(op: &Op, input: Op::Input, out: Op::Output) -> Result<String, String>
    where
        Op: Operation + Debug,
        Op::Input: Clone,
        Op::Output: PartialEq,
    {
        let (inner, outer) = (SERS[choose(2)].get(), SERS[choose(2)].get());
        let m = pick(&metas());
        let key = pick(&KEYS);
        let t = Task { routing_key: key.to_string(), metadata: m.clone(), op, input: input.clone() };
        let a = t.as_any_task(inner).map_err(|e| e.to_string())?;
        ensure!(a.routing_key == key, "routing key {:?} became {:?}", key, a.routing_key);
        ensure!(a.operation_id == Op::ID, "operation {} became {}", Op::ID, a.operation_id);
        ensure!(a.serializer.to_string() == inner.to_string(), "format {inner} became {}", a.serializer);
        let meta: Meta = inner.from_bytes(&a.metadata).map_err(|e| format!("the task's metadata: {e}"))?;
        ensure!(meta == m, "metadata {m:?} became {meta:?}");
        there_and_back(&a, same_task, "task")?;
        // Through the wire.
        let b = outer.to_bytes(&a).map_err(|e| e.to_string())?;
        let a: AnyTask = outer.from_bytes(&b).map_err(|e| e.to_string())?;
        let o = mcrt::block_on(a.remote_execute(None)).map_err(|e| format!("{op:?} of {input:?}: {e}"))?;
        ensure!(o.serializer.to_string() == inner.to_string(), "the task's format is {inner}, its result's {}", o.serializer);
        let b = outer.to_bytes(&AnyTaskResult::Ok(o)).map_err(|e| e.to_string())?;
        let r: AnyTaskResult = outer.from_bytes(&b).map_err(|e| e.to_string())?;
        there_and_back(&r, same_result, "result")?;
        let r: TaskOutput<Op, Meta> =
            r.into_task_result::<Op, Meta>().map_err(|e| format!("the result of {op:?}: {e}"))?;
        ensure!(r.metadata == m, "metadata {m:?} came back as {:?}", r.metadata);
        ensure!(r.output == out, "{op:?} of {input:?} gave {:?}, expected {out:?}", r.output);
        Ok(format!("{op:?}"))
    }
    match choose(5) {
        0 => {
            let x = pick(&[0u64, 1, 127, 128, 1 << 40]);
            let k = pick(&[0u64, 1, 300]);
            go(&Inc { k }, x, 10 * x + k)
        }
        1 => go(&SHOW, 77, "<77>".to_string()),
        2 => {
            let u = pick(&["", "cm", "é"]);
            let x = pick(&["", "a", "\u{10000}\0"]);
            go(&Measure { unit: u.into() }, x.into(), (format!("{x}{u}"), x.len() as u32))
        }
        3 => {
            let (a, b) = (pick(&["()", "", "a"]), pick(&["()", "", "b"]));
            let o = match (a, b) {
                ("()", _) => b.to_string(),
                (_, "()") => a.to_string(),
                _ => format!("{a}{b}"),
            };
            go(&CAT, (a.into(), b.into()), o)
        }
        _ => go(&INC2, 5, 52),
    }
}

/// The text of an error, through the wire.
fn errors() -> Result<String, String> {
    let text = pick(&["", "x", "é\0", KEYS[4]]).to_string();
    let r = AnyTaskResult::Err(text.clone());
    there_and_back(&r, same_result, "error")?;
    match r.into_task_result::<Inc, Meta>() {
        Ok(o) => Err(format!("the error {text:?} became {o:?}")),
        Err(e) => {
            ensure!(e.to_string() == text, "the error {text:?} became {e}");
            Ok(text)
        }
    }
}

fn sample(kind: usize, s: Serializer) -> AnyTask {
    let routing_key = "r".to_string();
    let m = Meta { id: 300, note: Some("n".into()), k: Kind::Two(-2, "z".into()) };
    match kind {
        0 => Task { routing_key, metadata: m, op: &INC1, input: 300 }.as_any_task(s),
        1 => Task { routing_key, metadata: m, op: &Measure { unit: "cm".into() }, input: "text".into() }.as_any_task(s),
        _ => Task { routing_key, metadata: m, op: &CAT, input: ("a".into(), "b".into()) }.as_any_task(s),
    }
    .unwrap()
}
fn fatal(r: Result<AnyTaskOutput, OperationError>, what: &str) -> Result<(), String> {
    match r {
        Ok(o) => Err(format!("{what}: the execution gave {o:?}")),
        Err(OperationError::Fatal { .. }) => Ok(()),
        Err(e) => Err(format!("{what}: the failure is not fatal: {e:?}")),
    }
}
fn execute(t: AnyTask) -> Result<AnyTaskOutput, OperationError> {
    mcrt::block_on(t.remote_execute(None))
}

/// Executions of tasks whose operation or arguments are not an encoding.
fn malformed() -> Result<String, String> {
    let ser = SERS[choose(2)];
    let s = ser.get();
    let kind = choose(3);
    let t = sample(kind, s);
    let n = runs_total();
    let what = match choose(5) {
        // Truncated arguments.
        0 => {
            let k = choose(t.input.len());
            fatal(execute(AnyTask { input: t.input.slice(..k), ..t.clone() }), "truncated arguments")?;
            format!("input {k}")
        }
        // Truncated operation.
        1 => {
            if t.op.is_empty() {
                return Ok("nothing to truncate".into());
            }
            let k = choose(t.op.len());
            fatal(execute(AnyTask { op: t.op.slice(..k), ..t.clone() }), "a truncated operation")?;
            format!("op {k}")
        }
        // An operation that is not registered.
        2 => {
            let id = pick(&[0u64, 1, u64::MAX, t.operation_id ^ 1, t.operation_id.wrapping_add(1), t.operation_id >> 32]);
            if [Inc::ID, Show::ID, Measure::ID, Cat::ID].contains(&id) {
                return Ok("registered".into());
            }
            fatal(execute(AnyTask { operation_id: id, ..t.clone() }), "an unknown operation")?;
            "unknown".into()
        }
        // Any byte of the arguments or the operation is another one: an error or
        // the execution of what it says now.
        c => {
            let b = if c == 3 { &t.input } else { &t.op };
            if b.is_empty() {
                return Ok("nothing to change".into());
            }
            let at = choose(b.len());
            let mut bad = 0;
            for x in 0..=255u8 {
                let mut v = b.to_vec();
                v[at] = x;
                let v = Bytes::from(v);
                let valid = match (kind, c) {
                    (0, 3) => s.from_bytes::<u64>(&v).is_ok(),
                    (0, _) => s.from_bytes::<Inc>(&v).is_ok(),
                    (1, 3) => s.from_bytes::<String>(&v).is_ok(),
                    (1, _) => s.from_bytes::<Measure>(&v).is_ok(),
                    (_, 3) => s.from_bytes::<(String, String)>(&v).is_ok(),
                    (_, _) => s.from_bytes::<Cat>(&v).is_ok(),
                };
                let u = if c == 3 { AnyTask { input: v, ..t.clone() } } else { AnyTask { op: v, ..t.clone() } };
                // The arithmetic of the operations is not under test.
                let arith = kind == 0 && valid;
                if arith {
                    continue;
                }
                let r = execute(u);
                if valid {
                    ensure!(r.is_ok(), "byte {at} set to {x}: {}", r.unwrap_err());
                } else {
                    bad += 1;
                    fatal(r, "changed bytes")?;
                }
            }
            return Ok(format!("byte {at}: {bad} malformed"));
        }
    };
    ensure!(runs_total() == n, "an operation was executed although its task is malformed ({what})");
    no_panics()?;
    Ok(what)
}

/// Malformed envelopes and results: every single byte replaced.
fn changed() -> Result<String, String> {
    let outer = SERS[choose(2)].get();
    let inner = SERS[choose(2)].get();
    let t = sample(choose(3), inner);
    let result = choose(2) == 1;
    let b = if result {
        let o = mcrt::block_on(t.remote_execute(None)).map_err(|e| e.to_string())?;
        outer.to_bytes(&AnyTaskResult::Ok(o))
    } else {
        outer.to_bytes(&t)
    }
    .map_err(|e| e.to_string())?;
    let at = choose(b.len());
    let (mut bad, mut good) = (0, 0);
    for x in 0..=255u8 {
        let mut v = b.to_vec();
        v[at] = x;
        if result {
            match outer.from_bytes::<AnyTaskResult>(&v) {
                Err(_) => bad += 1,
                Ok(r) => {
                    good += 1;
                    let _ = r.into_task_result::<Measure, Meta>();
                }
            }
        } else {
            match outer.from_bytes::<AnyTask>(&v) {
                Err(_) => bad += 1,
                Ok(u) => {
                    good += 1;
                    // Not the overflow of an operation.
                    if u.operation_id != Inc::ID && u.operation_id != Show::ID {
                        let _ = execute(u);
                    }
                }
            }
        }
    }
    no_panics()?;
    Ok(format!("{bad}/{good}"))
}

/// Results of which the metadata or the output is not an encoding.
fn bad_results() -> Result<String, String> {
    let s = SERS[choose(2)].get();
    let m = s.to_bytes(&metas()[3]).unwrap();
    let o = s.to_bytes(&("four".to_string(), 4u32)).unwrap();
    let (m2, o2) = if choose(2) == 0 {
        (m.slice(..choose(m.len())), o.clone())
    } else {
        (m.clone(), o.slice(..choose(o.len())))
    };
    let r = AnyTaskResult::Ok(AnyTaskOutput { metadata: m2, output: o2, serializer: s });
    match r.into_task_result::<Measure, Meta>() {
        Ok(v) => Err(format!("a truncated result gives {v:?}")),
        Err(_) => Ok("error".into()),
    }
}

/// The configured format is the one of the tasks on the bus.
fn configured(ser: Ser) -> Result<String, String> {
    use paladin::directive::{Directive, IndexedStream};
    let c: Config = amqp_config(ser);
    ensure!(Serializer::from(&c).to_string() == ser.get().to_string(), "{ser:?} became {}", Serializer::from(&c));
    let rt = std::sync::Arc::new(mcrt::block_on(amqp_leader(ser)).map_err(|e| e.to_string())?);
    let n = choose(3) + 1;
    let h = mcrt::task("leader", async move {
        let s = IndexedStream::from((0..n as u64).collect::<Vec<_>>()).map(&INC1).run(&rt).await.unwrap();
        read(s, Default::default()).await
    });
    mcrt::quiesce();
    // What a worker gets.
    let conn = mcrt::block_on(amqp_connection_qos(ser, 10));
    let q = mcrt::block_on(conn.declare_queue(TASK_IPC_ROUTING_KEY, paladin::channel::ChannelType::ExactlyOnce.into()))
        .map_err(|e| e.to_string())?;
    let mut c = mcrt::block_on(paladin::queue::QueueHandle::declare_consumer::<AnyTask>(&q, "c")).map_err(|e| e.to_string())?;
    mcrt::quiesce();
    let depth = with(|w| w.depth(URI, TASK_IPC_ROUTING_KEY));
    for i in 0..n {
        let Some((t, _)) = poll_now(&mut c) else {
            return Err(format!("{i} tasks of {n} are on the bus: {depth:?}"));
        };
        ensure!(t.serializer.to_string() == ser.get().to_string(), "the task's format is {}", t.serializer);
        ensure!(t.operation_id == Inc::ID, "the task's operation is {}", t.operation_id);
        let x: u64 = t.serializer.from_bytes(&t.input).map_err(|e| e.to_string())?;
        ensure!(x == i as u64, "input {i} became {x}");
        mcrt::quiesce();
    }
    h.abort();
    Ok(format!("{n}"))
}

pub fn scenarios(t: Tier) -> Vec<Scen> {
    let cfg = dev(0);
    let mut wide = dev(0);
    wide.max_steps = 10_000_000;
    let mut v = vec![
        Scen::new("values", cfg.clone(), values)
            .what("every value of finite families of 27 types, both formats, and every truncation of its encoding"),
        Scen::new("nested-options", cfg.clone(), nested).what("options of options and of units"),
        Scen::new("journey", cfg.clone(), journey)
            .what("tasks of all operations with all metadata, routing keys, formats of task and envelope: there, executed, and back"),
        Scen::new("errors", cfg.clone(), errors).what("texts of errors"),
        Scen::new("malformed", wide.clone(), malformed)
            .what("executions of tasks with truncated or changed operation or arguments, or of unknown operations"),
        Scen::new("changed", wide.clone(), changed).what("every byte of a task and of a result replaced by every other"),
        Scen::new("bad-results", cfg.clone(), bad_results).what("every truncation of metadata and output of a result"),
    ];
    for n in 0..=t.pick(3, 4) {
        v.push(
            Scen::new(format!("arbitrary-{n}"), wide.clone(), move || arbitrary(n))
                .weight(1.0 + n as f64)
                .what(format!("every string of {n} bytes as each of {} types in both formats", if n > 3 { "four" } else { "nine" })),
        );
    }
    for ser in SERS {
        v.push(Scen::new(format!("configured-{ser:?}"), cfg.clone(), move || configured(ser)).what("the format of the tasks that a configured runtime publishes"));
    }
    v
}
