//! Runs the operations of a program and compares what they say with what they are.
use std::{io::Write, sync::Arc};

use futures::{future::BoxFuture, Future, StreamExt};
use paladin::{
    config::Config,
    directive::{Directive, IndexedStream},
    operation::{marker::Marker, Operation},
    runtime::Runtime,
    serializer::Serializer,
    task::{AnyTask, Task},
};

pub type Out = (u64, u64);
type Items = Vec<(usize, Out)>;

pub struct Case {
    /// Place and name.
    pub label: &'static str,
    /// What identifies the implementation in its output.
    tag: u64,
    /// The second output is this plus the input.
    add: u64,
    task: Box<dyn Fn(Serializer, u64) -> AnyTask + Send + Sync>,
    map: Option<Box<dyn Fn(Arc<Runtime>, Vec<u64>) -> BoxFuture<'static, anyhow::Result<Items>> + Send + Sync>>,
}

pub fn case<O>(label: &'static str, tag: u64, add: u64, op: &'static O) -> Case
where
    O: Operation<Input = u64, Output = Out> + Send + Sync + 'static,
{
    Case {
        label,
        tag,
        add,
        task: Box::new(move |s, input| {
            Task { routing_key: "r".into(), metadata: 7u64, op, input }.as_any_task(s).unwrap()
        }),
        map: None,
    }
}

/// A case that can also be run as a directive.
pub fn mapped<O>(label: &'static str, tag: u64, add: u64, op: &'static O) -> Case
where
    O: Operation<Input = u64, Output = Out> + Send + Sync + 'static,
{
    Case {
        map: Some(Box::new(move |rt, items| {
            Box::pin(async move {
                let mut s = Directive::map(IndexedStream::from(items), op).run(&rt).await?;
                let mut v = vec![];
                while let Some(x) = s.next().await {
                    v.push(x?);
                }
                v.sort();
                Ok(v)
            })
        })),
        ..case(label, tag, add, op)
    }
}

fn block_on<T>(f: impl Future<Output = T>) -> T {
    tokio::runtime::Builder::new_multi_thread()
        .worker_threads(2)
        .enable_all()
        .build()
        .unwrap()
        .block_on(f)
}

const SERS: [Serializer; 2] = [Serializer::Postcard, Serializer::Cbor];
const INPUTS: [u64; 3] = [0, 5, 299];

async fn execute(l: &str, tag: u64, add: u64, t: AnyTask, input: u64) -> Result<(), String> {
    let want = tag;
    let what = format!("a task of {l} with input {input}");
    let o = match tokio::spawn(t.remote_execute(Default::default())).await {
        Err(_) => return Err(format!("{what} panicked")),
        Ok(Err(e)) => return Err(format!("{what} failed: {}", e.into_err())),
        Ok(Ok(o)) => o,
    };
    let d = || -> anyhow::Result<(u64, Out)> {
        Ok((o.serializer.from_bytes(&o.metadata)?, o.serializer.from_bytes(&o.output)?))
    };
    match d() {
        Err(e) => Err(format!("the result of {what} is not of its type: {e}")),
        Ok((_, (tag, _))) if tag != want => {
            Err(format!("{what} was executed by the operation with tag {tag} instead of {want}"))
        }
        Ok((7, (_, v))) if v == add + input => Ok(()),
        Ok((m, (_, v))) => Err(format!("{what} gave {v} with metadata {m}")),
    }
}

/// modes:
///   one SER CASE INPUT     executes a task of one operation
///   all                    maps with every operation at once on one runtime
///   tasks                  prints a task of every operation
///   exec                   executes the tasks read from stdin
///   list                   prints the labels
pub fn main(marker: Marker, cases: Vec<Case>) {
    let a: Vec<String> = std::env::args().skip(1).collect();
    std::panic::set_hook(Box::new(|_| {}));
    let num = |i: usize| a[i].parse::<usize>().unwrap();
    let r: Result<(), String> = match a[0].as_str() {
        "list" => {
            for c in &cases {
                println!("{}", c.label);
            }
            Ok(())
        }
        "one" => block_on(async {
            let (s, c, i) = (SERS[num(1)], &cases[num(2)], INPUTS[num(3)]);
            execute(c.label, c.tag, c.add, (c.task)(s, i), i).await
        }),
        "all" => block_on(async {
            let mut bad = vec![];
            for c in &cases {
                for s in SERS {
                    for i in INPUTS {
                        if let Err(e) = execute(c.label, c.tag, c.add, (c.task)(s, i), i).await {
                            bad.push(e);
                        }
                    }
                }
            }
            let config = Config {
                runtime: paladin::config::Runtime::InMemory,
                num_workers: Some(3),
                ..Default::default()
            };
            let rt = Arc::new(Runtime::from_config(&config, marker).await.unwrap());
            let all = cases.iter().filter_map(|c| c.map.as_ref().map(|m| (c, m))).map(|(c, m)| {
                let f = m(rt.clone(), INPUTS.to_vec());
                async move { (c, tokio::time::timeout(std::time::Duration::from_secs(30), f).await) }
            });
            if bad.is_empty() {
                for (c, r) in futures::future::join_all(all).await {
                    let want: Items = INPUTS.iter().enumerate().map(|(i, x)| (i, (c.tag, c.add + x))).collect();
                    match r {
                        Ok(Ok(v)) if v == want => {}
                        r => bad.push(format!("a map with {} gave {r:?}", c.label)),
                    }
                }
            }
            bad.truncate(3);
            if bad.is_empty() { Ok(()) } else { Err(bad.join("; ")) }
        }),
        "tasks" => {
            let mut o = std::io::stdout().lock();
            for c in &cases {
                for s in SERS {
                    for i in INPUTS {
                        let b = Serializer::Postcard.to_bytes(&(c.task)(s, i)).unwrap();
                        let hex: String = b.iter().map(|x| format!("{x:02x}")).collect();
                        writeln!(o, "{} {} {} {i} {hex}", c.label, c.tag, c.add).unwrap();
                    }
                }
            }
            Ok(())
        }
        "exec" => block_on(async {
            let mut n = 0;
            for l in std::io::stdin().lines() {
                let l = l.unwrap();
                let f: Vec<&str> = l.split(' ').collect();
                let num = |i: usize| f[i].parse::<u64>().unwrap();
                let b: Vec<u8> = (0..f[4].len() / 2)
                    .map(|i| u8::from_str_radix(&f[4][2 * i..2 * i + 2], 16).unwrap())
                    .collect();
                let t: AnyTask = Serializer::Postcard
                    .from_bytes(&b)
                    .map_err(|e| format!("a task of {} does not deserialize: {e}", f[0]))?;
                execute(f[0], num(1), num(2), t, num(3)).await?;
                n += 1;
            }
            println!("{n}");
            Ok(())
        }),
        m => panic!("mode {m}"),
    };
    if let Err(e) = r {
        println!("{e}");
        std::process::exit(1);
    }
}
