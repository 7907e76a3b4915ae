//! In-memory runtimes for the harness.
use std::sync::{Arc, Mutex};

use futures::StreamExt;
use paladin::{
    config::{Config, Runtime as RuntimeKind, Serializer as SerializerKind},
    directive::IndexedStream,
    runtime::Runtime,
};

use crate::common::Scen;

paladin::registry!();

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ser {
    Postcard,
    Cbor,
}
pub const SERS: [Ser; 2] = [Ser::Postcard, Ser::Cbor];
impl Ser {
    pub fn kind(self) -> SerializerKind {
        match self {
            Ser::Postcard => SerializerKind::Postcard,
            Ser::Cbor => SerializerKind::Cbor,
        }
    }
    pub fn get(self) -> paladin::serializer::Serializer {
        match self {
            Ser::Postcard => paladin::serializer::Serializer::Postcard,
            Ser::Cbor => paladin::serializer::Serializer::Cbor,
        }
    }
}

pub fn memory_config(workers: usize, ser: Ser) -> Config {
    Config {
        runtime: RuntimeKind::InMemory,
        serializer: ser.kind(),
        num_workers: Some(workers),
        ..Default::default()
    }
}

/// A runtime whose workers have settled.
pub fn memory(workers: usize, ser: Ser) -> Arc<Runtime> {
    let c = memory_config(workers, ser);
    let r = mcrt::block_on(async { Runtime::from_config(&c, register()).await })
        .expect("in-memory runtime");
    Arc::new(r)
}

/// A runtime whose workers have settled: in memory, or over AMQP with separate
/// workers in scenarios made by [`over_amqp`].
pub fn runtime(workers: usize, ser: Ser) -> Arc<Runtime> {
    if !crate::ops::lab(|l| l.amqp) {
        return memory(workers, ser);
    }
    for i in 0..workers {
        amqp_worker(&format!("worker{i}"), ser, Default::default());
    }
    mcrt::quiesce();
    Arc::new(mcrt::block_on(amqp_leader(ser)).expect("AMQP runtime"))
}

/// Adds twins of the chosen scenarios that run over AMQP, with the given bound
/// if it is lower.
pub fn over_amqp(v: &mut Vec<Scen>, mut which: impl FnMut(&Scen) -> Option<u32>) {
    let mut twins = vec![];
    for s in v.iter() {
        if let Some(bound) = which(s) {
            let body = s.body.clone();
            let mut cfg = s.cfg.clone();
            cfg.bound = cfg.bound.min(bound);
            let mut t = Scen::new(format!("amqp-{}", s.name), cfg, move || {
                crate::ops::lab(|l| l.amqp = true);
                body()
            });
            t.weight = s.weight;
            t.what = format!("{}; over AMQP with separate workers", s.what);
            twins.push(t);
        }
    }
    v.extend(twins);
}

/// What a consumer of a stream has seen.
pub struct Seen<T> {
    pub items: Vec<(usize, T)>,
    pub err: Option<String>,
    pub ended: bool,
}
impl<T> Default for Seen<T> {
    fn default() -> Self {
        Seen {
            items: vec![],
            err: None,
            ended: false,
        }
    }
}
impl<T> Seen<T> {
    /// The stream ended or failed.
    pub fn over(&self) -> bool {
        self.ended || self.err.is_some()
    }
}
pub type SharedSeen<T> = Arc<Mutex<Seen<T>>>;

/// Reads a stream to its end or its first error.
pub async fn read<T>(mut s: IndexedStream<'_, T>, seen: SharedSeen<T>) {
    loop {
        match s.next().await {
            Some(Ok(i)) => {
                mcrt::note(|| format!("the stream yields index {}", i.0));
                seen.lock().unwrap().items.push(i)
            }
            Some(Err(e)) => {
                mcrt::note(|| format!("the stream yields error {e}"));
                seen.lock().unwrap().err = Some(e.to_string());
                break;
            }
            None => {
                mcrt::note(|| "the stream ends".to_string());
                seen.lock().unwrap().ended = true;
                break;
            }
        }
    }
    // The guard releases the channel here.
    drop(s);
}

/// `got` is `want` up to order, nothing twice.
pub fn same_items<T: Ord + Clone + std::fmt::Debug>(
    got: &[(usize, T)],
    want: &[(usize, T)],
) -> Result<(), String> {
    let mut a = got.to_vec();
    let mut b = want.to_vec();
    a.sort();
    b.sort();
    if a != b {
        return Err(format!("the stream yielded {got:?}, expected {want:?}"));
    }
    Ok(())
}

/// The result of a directive, once it is there.
pub struct Slot<T>(Arc<Mutex<Option<Result<T, String>>>>);
impl<T> Clone for Slot<T> {
    fn clone(&self) -> Self {
        Slot(self.0.clone())
    }
}
impl<T> Default for Slot<T> {
    fn default() -> Self {
        Slot(Default::default())
    }
}
impl<T> Slot<T> {
    pub fn put(&self, r: anyhow::Result<T>) {
        let r = r.map_err(|e| e.to_string());
        mcrt::note(|| format!("the directive returns {}", if r.is_ok() { "a value" } else { "an error" }));
        *self.0.lock().unwrap() = Some(r);
    }
    pub fn is_set(&self) -> bool {
        self.0.lock().unwrap().is_some()
    }
}
impl<T: Clone> Slot<T> {
    pub fn get(&self) -> Option<Result<T, String>> {
        self.0.lock().unwrap().clone()
    }
    /// The value, or why there is none.
    pub fn value(&self, what: &str) -> Result<T, String> {
        match self.get() {
            None => Err(format!("{what} has not returned")),
            Some(Err(e)) => Err(format!("{what} failed: {e}")),
            Some(Ok(v)) => Ok(v),
        }
    }
}

// -------------------------------------------------------------------- AMQP

pub const URI: &str = "amqp://broker";
pub fn amqp_config(ser: Ser) -> Config {
    Config {
        runtime: RuntimeKind::Amqp,
        serializer: ser.kind(),
        amqp_uri: Some(URI.into()),
        ..Default::default()
    }
}
pub async fn amqp_leader(ser: Ser) -> anyhow::Result<Runtime> {
    Runtime::from_config(&amqp_config(ser), register()).await
}
/// A worker process: connects and runs its main loop; the slot tells how it ended.
pub fn amqp_worker(name: &str, ser: Ser, end: Slot<()>) -> mcrt::JoinHandle<()> {
    let c = amqp_config(ser);
    mcrt::task(name, async move {
        let r = async {
            let w = paladin::runtime::WorkerRuntime::from_config(&c, register()).await?;
            w.main_loop().await
        }
        .await;
        end.put(r)
    })
}
pub async fn amqp_connection(ser: Ser) -> paladin::queue::amqp::AMQPConnection {
    amqp_connection_qos(ser, 1).await
}
pub async fn amqp_connection_qos(ser: Ser, qos: u16) -> paladin::queue::amqp::AMQPConnection {
    paladin::queue::amqp::AMQPConnection::new(paladin::queue::amqp::AMQPConnectionOptions {
        uri: URI,
        qos: Some(qos),
        serializer: ser.get(),
    })
    .await
    .expect("connection")
}
