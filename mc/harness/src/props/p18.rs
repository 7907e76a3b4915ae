//! Contiguous queue.
use std::{
    collections::BTreeMap,
    num::NonZeroU64,
    sync::{Arc, Mutex},
};

use mcrt::{choose, Kind};
use paladin::contiguous::{Contiguous, ContiguousQueue};

use crate::common::*;
use crate::ensure;

/// A range of integers. The non-zero word is the niche of `Option<Rng>`: it is
/// seen as zero by whoever looks at a value that was taken away meanwhile.
#[derive(Debug)]
struct Rng {
    magic: NonZeroU64,
    lo: i32,
    hi: i32,
}
fn r(lo: i32, hi: i32) -> Rng {
    Rng {
        magic: NonZeroU64::new(0xA5A5).unwrap(),
        lo,
        hi,
    }
}
impl Contiguous for Rng {
    type Key = i32;
    fn is_contiguous(&self, o: &Rng) -> bool {
        // Both values must stay in place while they are compared.
        mcrt::point(Kind::User);
        let magic = unsafe { std::ptr::read_volatile(&o.magic as *const _ as *const u64) };
        if magic != 0xA5A5 {
            mcrt::local::<bool, _>("torn", |t| *t = true);
            return false;
        }
        self.hi + 1 == o.lo || o.hi + 1 == self.lo
    }
    fn key(&self) -> &i32 {
        &self.lo
    }
}

type Span = (i32, i32);
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Offer(Span),
    Queue(Span),
    Dequeue(i32),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Res {
    Unit,
    Pair(Option<(Span, Span)>),
    Got(Option<Span>),
}

fn apply(q: &ContiguousQueue<Rng>, op: Op) -> Res {
    match op {
        Op::Offer(s) => Res::Pair(
            q.acquire_contiguous_pair_or_queue(r(s.0, s.1))
                .map(|(a, b)| ((a.lo, a.hi), (b.lo, b.hi))),
        ),
        Op::Queue(s) => {
            q.queue(r(s.0, s.1));
            Res::Unit
        }
        Op::Dequeue(k) => Res::Got(q.dequeue(&k).map(|v| (v.lo, v.hi))),
    }
}

type Model = BTreeMap<i32, i32>;

/// All results the sequential specification allows, with the next state.
fn spec(m: &Model, op: Op) -> Vec<(Res, Model)> {
    match op {
        Op::Queue(s) => {
            let mut n = m.clone();
            n.insert(s.0, s.1);
            vec![(Res::Unit, n)]
        }
        Op::Dequeue(k) => {
            let mut n = m.clone();
            let v = n.remove(&k).map(|hi| (k, hi));
            vec![(Res::Got(v), n)]
        }
        Op::Offer(s) => {
            let mut out = vec![];
            for (&lo, &hi) in m {
                if s.1 + 1 == lo {
                    let mut n = m.clone();
                    n.remove(&lo);
                    out.push((Res::Pair(Some((s, (lo, hi)))), n));
                }
                if hi + 1 == s.0 {
                    let mut n = m.clone();
                    n.remove(&lo);
                    out.push((Res::Pair(Some(((lo, hi), s))), n));
                }
            }
            if out.is_empty() {
                let mut n = m.clone();
                n.insert(s.0, s.1);
                out.push((Res::Pair(None), n));
            }
            out
        }
    }
}

fn torn() -> bool {
    mcrt::local::<bool, _>("torn", |t| *t)
}

fn drain(q: &ContiguousQueue<Rng>, keys: std::ops::Range<i32>) -> Model {
    let mut m = Model::new();
    for k in keys {
        if let Some(v) = q.dequeue(&k) {
            m.insert(v.lo, v.hi);
        }
    }
    m
}

/// Is there an order of the operations (respecting each thread's) that the
/// specification explains, ending in `last`?
fn linear(threads: &[Vec<(Op, Res)>], at: &mut Vec<usize>, m: &Model, last: &Model) -> bool {
    if (0..threads.len()).all(|t| at[t] == threads[t].len()) {
        return m == last;
    }
    for t in 0..threads.len() {
        if at[t] < threads[t].len() {
            let (op, res) = threads[t][at[t]];
            for (r, n) in spec(m, op) {
                if r == res {
                    at[t] += 1;
                    if linear(threads, at, &n, last) {
                        at[t] -= 1;
                        return true;
                    }
                    at[t] -= 1;
                }
            }
        }
    }
    false
}

fn sequential(depth: usize, universe: i32) -> Result<String, String> {
    let q: ContiguousQueue<Rng> = if choose(2) == 0 {
        ContiguousQueue::new()
    } else {
        ContiguousQueue::from(vec![r(1, 1), r(3, 3)])
    };
    let mut m = drain_model(&q);
    // Values the caller holds and may give to the queue.
    let mut held: Vec<Span> = (0..universe)
        .filter(|i| !m.contains_key(i))
        .map(|i| (i, i))
        .collect();
    let mut log = String::new();
    for _ in 0..depth {
        let n = held.len() * 2 + universe as usize;
        let c = choose(n + 1);
        if c == n {
            break;
        }
        let op = if c < held.len() {
            Op::Offer(held.remove(c))
        } else if c < 2 * held.len() {
            Op::Queue(held.remove(c - held.len()))
        } else {
            Op::Dequeue((c - 2 * held.len()) as i32)
        };
        let res = apply(&q, op);
        let allowed = spec(&m, op);
        let Some((_, next)) = allowed.iter().find(|(x, _)| *x == res) else {
            return Err(format!(
                "{op:?} on {m:?} gave {res:?}, allowed: {:?}",
                allowed.iter().map(|a| a.0).collect::<Vec<_>>()
            ));
        };
        m = next.clone();
        match res {
            Res::Pair(Some((a, b))) => held.push((a.0, b.1)),
            Res::Got(Some(s)) => held.push(s),
            _ => {}
        }
        log = format!("{op:?}->{res:?}");
    }
    let rest = drain(&q, 0..universe + 1);
    ensure!(rest == m, "queue holds {rest:?}, expected {m:?}");
    Ok(log)
}

fn drain_model(q: &ContiguousQueue<Rng>) -> Model {
    // Queries without disturbing: remove and queue again.
    let m = drain(q, 0..10);
    for (&lo, &hi) in &m {
        q.queue(r(lo, hi));
    }
    m
}

fn concurrent(init: Vec<Span>, threads: Vec<Vec<Op>>) -> Result<String, String> {
    let q = Arc::new(ContiguousQueue::from(
        init.iter().map(|s| r(s.0, s.1)).collect::<Vec<_>>(),
    ));
    let logs: Vec<Arc<Mutex<Vec<(Op, Res)>>>> = threads.iter().map(|_| Default::default()).collect();
    let mut hs = vec![];
    for (t, ops) in threads.into_iter().enumerate() {
        let q = q.clone();
        let l = logs[t].clone();
        hs.push(mcrt::thread("user", move || {
            for op in ops {
                let res = apply(&q, op);
                l.lock().unwrap().push((op, res));
            }
        }));
    }
    for h in hs {
        h.join_blocking().map_err(|e| format!("a thread panicked: {e:?}"))?;
    }
    ensure!(
        !torn(),
        "a value was inspected while another thread took it out of the queue"
    );
    let rest = drain(&q, -2..12);
    let runs: Vec<Vec<(Op, Res)>> = logs.iter().map(|l| l.lock().unwrap().clone()).collect();
    let start: Model = init.iter().copied().collect();
    let mut at = vec![0; runs.len()];
    ensure!(
        linear(&runs, &mut at, &start, &rest),
        "start {start:?}, operations {runs:?}, left {rest:?}: no order of the operations explains this (lost, repeated or unpaired value)"
    );
    Ok(format!("{runs:?} {rest:?}"))
}

/// `n` values in the order of a stride, by `threads` callers that offer again
/// what they got: at last there is one range.
fn merging(n: i32, stride: i32, threads: i32) -> Result<String, String> {
    let q = Arc::new(ContiguousQueue::<Rng>::new());
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let q = q.clone();
            mcrt::thread("user", move || {
                for i in (t..n).step_by(threads as usize) {
                    let v = (i as i64 * stride as i64 % n as i64) as i32;
                    let mut it = (v, v);
                    loop {
                        match apply(&q, Op::Offer(it)) {
                            Res::Pair(Some((a, b))) => {
                                ensure!(a.1 + 1 == b.0, "paired {a:?} with {b:?}");
                                ensure!(a == it || b == it, "offered {it:?}, got {a:?} and {b:?}");
                                it = (a.0, b.1);
                            }
                            _ => break,
                        }
                    }
                }
                Ok(())
            })
        })
        .collect();
    for h in hs {
        h.join_blocking().map_err(|e| format!("a thread panicked: {e:?}"))??;
    }
    let rest = drain(&q, 0..n + 1);
    ensure!(rest == Model::from([(0, n - 1)]), "offered 0 to {}, in the end the queue holds {rest:?}", n - 1);
    Ok(String::new())
}

pub fn scenarios(t: Tier) -> Vec<Scen> {
    use Op::*;
    let s = |x| (x, x);
    let mut v = vec![];
    let d = t.pick(4, 6);
    v.push(
        Scen::new("sequences", dev(0), move || sequential(d, 5))
            .what(format!("all sequences of up to {d} offer/queue/dequeue calls over 5 neighbouring values and their merged ranges, from an empty and a filled queue, against a reference model"))
            .weight(2.0),
    );
    let mut cases: Vec<(Vec<Span>, Vec<Vec<Op>>)> = vec![
        (vec![], vec![vec![Offer(s(1))], vec![Offer(s(2))]]),
        (vec![], vec![vec![Offer(s(2))], vec![Offer(s(1))]]),
        (vec![], vec![vec![Offer(s(1))], vec![Offer(s(2))], vec![Offer(s(3))]]),
        (vec![s(2)], vec![vec![Offer(s(1))], vec![Offer(s(3))]]),
        (vec![s(2)], vec![vec![Offer(s(1))], vec![Dequeue(2)]]),
        (vec![s(2)], vec![vec![Offer(s(3))], vec![Dequeue(2)]]),
        (vec![s(2)], vec![vec![Dequeue(2)], vec![Dequeue(2)]]),
        (vec![s(1), s(3)], vec![vec![Offer(s(2))], vec![Dequeue(1)]]),
        (vec![s(1), s(3)], vec![vec![Offer(s(2))], vec![Dequeue(3)]]),
        (vec![s(1), s(3)], vec![vec![Offer(s(2))], vec![Offer(s(4))]]),
        (vec![], vec![vec![Queue(s(1))], vec![Offer(s(2))]]),
        (vec![], vec![vec![Queue(s(2))], vec![Offer(s(1))]]),
        (vec![], vec![vec![Queue(s(1)), Dequeue(1)], vec![Offer(s(2))]]),
        (vec![s(2)], vec![vec![Dequeue(2), Queue((2, 3))], vec![Offer(s(4))]]),
        (vec![s(2)], vec![vec![Dequeue(2), Queue((2, 3))], vec![Offer(s(1))]]),
        (vec![s(1)], vec![vec![Offer(s(2)), Offer((1, 2))], vec![Offer(s(3)), Offer(s(4))]]),
        (vec![], vec![vec![Offer(s(1)), Offer(s(4))], vec![Offer(s(2)), Offer(s(5))]]),
        (vec![s(5)], vec![vec![Offer(s(4))], vec![Offer(s(6))], vec![Dequeue(5)]]),
        (vec![], vec![vec![Offer((1, 2))], vec![Offer((3, 5))], vec![Queue(s(6))]]),
    ];
    if t.thorough() {
        // Every pair of threads with one or two of these operations.
        let ops = [Offer(s(1)), Offer(s(3)), Queue(s(1)), Dequeue(2), Offer(s(4))];
        let ops2 = [Offer(s(5)), Offer(s(0)), Dequeue(2), Queue((6, 7)), Dequeue(5)];
        for init in [vec![s(2)], vec![s(2), s(5)]] {
            for a in ops {
                for b in ops2 {
                    for c in ops {
                        if a != c {
                            cases.push((init.clone(), vec![vec![a], vec![b], vec![c]]));
                            cases.push((init.clone(), vec![vec![a, c], vec![b]]));
                        }
                    }
                }
            }
        }
        // Values must be distinct within a case.
        cases.retain(|(init, th)| {
            let mut vals: Vec<i32> = init.iter().map(|s| s.0).collect();
            for o in th.iter().flatten() {
                if let Offer(s) | Queue(s) = o {
                    vals.push(s.0)
                }
            }
            let n = vals.len();
            vals.sort();
            vals.dedup();
            vals.len() == n || th.iter().flatten().any(|o| matches!(o, Queue((2, 3)) | Offer((1, 2))))
        });
    }
    for (i, (init, th)) in cases.into_iter().enumerate() {
        let name = format!("threads-{i}: {init:?} {th:?}");
        let b = t.pick(3, 4);
        v.push(
            Scen::new(name, pre(b), move || concurrent(init.clone(), th.clone()))
                .what("all interleavings of these calls on one queue within the preemption bound; every execution must be linearizable to the pair-or-queue specification"),
        );
    }
    for n in [101, t.pick(503, 4001)] {
        for stride in [1, 2, 7, 37, n - 1, n / 2] {
            for threads in [1, 4] {
                v.push(
                    Scen::new(format!("many-{n}-stride-{stride}-threads-{threads}"), long(dev(0)), move || merging(n, stride, threads))
                        .what("hundreds of values merged to one range, by the default schedule"),
                );
            }
        }
    }
    v
}
