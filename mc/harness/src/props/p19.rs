//! Ackers.
use std::sync::{Arc, Mutex};

use async_trait::async_trait;
use mcrt::choose;
use paladin::acker::{Acker, ComposedAcker, NoopAcker};

use crate::common::*;
use crate::ensure;

type Log = Arc<Mutex<Vec<(usize, bool)>>>;

struct Leaf {
    id: usize,
    ack_ok: bool,
    nack_ok: bool,
    pends: bool,
    log: Log,
}
#[async_trait]
impl Acker for Leaf {
    async fn ack(&self) -> anyhow::Result<()> {
        self.log.lock().unwrap().push((self.id, true));
        if self.pends {
            Pend(false).await;
        }
        if self.ack_ok {
            Ok(())
        } else {
            Err(anyhow::anyhow!("ack {}", self.id))
        }
    }
    async fn nack(&self) -> anyhow::Result<()> {
        self.log.lock().unwrap().push((self.id, false));
        if self.pends {
            Pend(false).await;
        }
        if self.nack_ok {
            Ok(())
        } else {
            Err(anyhow::anyhow!("nack {}", self.id))
        }
    }
}

pub struct Pend(pub bool);
impl std::future::Future for Pend {
    type Output = ();
    fn poll(
        mut self: std::pin::Pin<&mut Self>,
        cx: &mut std::task::Context<'_>,
    ) -> std::task::Poll<()> {
        if self.0 {
            return std::task::Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        std::task::Poll::Pending
    }
}

/// Reference: leaves in order; `None` is the no-op acker.
#[derive(Debug)]
struct Spec(Vec<(usize, bool, bool)>);

fn build(depth: usize, next: &mut usize, log: &Log) -> (Arc<dyn Acker>, Spec) {
    let n = if depth == 0 { 2 } else { 5 };
    match choose(n) {
        0 => {
            let id = *next;
            *next += 1;
            let c = choose(4);
            let (ack_ok, nack_ok) = (c & 1 == 0, c & 2 == 0);
            let pends = id % 2 == 1;
            (
                Arc::new(Leaf {
                    id,
                    ack_ok,
                    nack_ok,
                    pends,
                    log: log.clone(),
                }),
                Spec(vec![(id, ack_ok, nack_ok)]),
            )
        }
        1 => (Arc::new(NoopAcker::new()), Spec(vec![])),
        2 => {
            let (a, mut sa) = build(depth - 1, next, log);
            let (b, sb) = build(depth - 1, next, log);
            sa.0.extend(sb.0);
            (Arc::new(ComposedAcker::new(a, b)), sa)
        }
        3 => {
            let (a, s) = build(depth - 1, next, log);
            let b: Box<dyn Acker> = Box::new(a);
            (Arc::new(b), s)
        }
        _ => {
            let (a, s) = build(depth - 1, next, log);
            let (b, sb) = build(depth - 1, next, log);
            let mut s = s;
            s.0.extend(sb.0);
            (Arc::new(Box::new(ComposedAcker::new(Box::new(a), b))), s)
        }
    }
}

fn body(depth: usize) -> Result<String, String> {
    let log: Log = Default::default();
    let mut next = 0;
    let (a, spec) = build(depth, &mut next, &log);
    let mut out = String::new();
    for ack in if choose(2) == 0 { [true, false] } else { [false, true] } {
        log.lock().unwrap().clear();
        let got = mcrt::block_on(async {
            if ack {
                a.ack().await
            } else {
                a.nack().await
            }
        });
        let mut calls = vec![];
        let mut want = None;
        for (id, ok, nok) in &spec.0 {
            calls.push((*id, ack));
            let ok = if ack { *ok } else { *nok };
            if !ok {
                want = Some(format!("{} {id}", if ack { "ack" } else { "nack" }));
                break;
            }
        }
        let seen = log.lock().unwrap().clone();
        ensure!(seen == calls, "leaves called {seen:?}, expected {calls:?} ({spec:?})");
        let got = got.err().map(|e| e.to_string());
        ensure!(got == want, "result {got:?}, expected {want:?} ({spec:?})");
        out = format!("{} leaves, {} called", spec.0.len(), calls.len());
    }
    Ok(out)
}

pub fn scenarios(t: Tier) -> Vec<Scen> {
    let d = t.pick(2, 2);
    let mut v = vec![Scen::new(format!("trees-{d}"), dev(0), move || body(d))
        .what("all compositions of boxed, shared, composed, no-op and failing ackers up to this nesting, acked and nacked in either order")];
    if t.thorough() {
        v.push(
            Scen::new("trees-3", dev(0), || body(3))
                .what("the same, one level deeper")
                .weight(4.0),
        );
    }
    v
}
