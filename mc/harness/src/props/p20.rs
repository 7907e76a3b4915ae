//! Publishing whole streams, transformed publishers.
use std::sync::{Arc, Mutex};

use async_trait::async_trait;
use mcrt::choose;
use paladin::queue::{Publisher, PublisherExt};

use crate::common::*;
use crate::ensure;

#[derive(Default)]
struct St {
    started: Vec<u32>,
    in_flight: usize,
    max_in_flight: usize,
    finished: Vec<(u32, bool)>,
    closed: usize,
}
#[derive(Clone)]
struct Sink {
    st: Arc<Mutex<St>>,
    fail: Arc<Vec<u32>>,
    gated: bool,
}
struct InFlight(Arc<Mutex<St>>);
impl Drop for InFlight {
    fn drop(&mut self) {
        self.0.lock().unwrap().in_flight -= 1;
    }
}
struct GateFut(u64, bool);
impl std::future::Future for GateFut {
    type Output = ();
    fn poll(
        mut self: std::pin::Pin<&mut Self>,
        cx: &mut std::task::Context<'_>,
    ) -> std::task::Poll<()> {
        let g = self.0;
        let open = mcrt::local::<AsyncGates, _>("agates", |a| {
            if a.open.contains(&g) {
                true
            } else {
                a.waiting.retain(|w| w.0 != g);
                a.waiting.push((g, cx.waker().clone()));
                false
            }
        });
        if open {
            std::task::Poll::Ready(())
        } else {
            self.1 = true;
            std::task::Poll::Pending
        }
    }
}
impl Drop for GateFut {
    fn drop(&mut self) {
        let g = self.0;
        if mcrt::active() {
            mcrt::local::<AsyncGates, _>("agates", |a| a.waiting.retain(|w| w.0 != g));
        }
    }
}
#[derive(Default)]
struct AsyncGates {
    open: Vec<u64>,
    waiting: Vec<(u64, std::task::Waker)>,
}

#[async_trait]
impl Publisher<u32> for Sink {
    async fn publish(&self, p: &u32) -> anyhow::Result<()> {
        {
            let mut s = self.st.lock().unwrap();
            s.started.push(*p);
            s.in_flight += 1;
            s.max_in_flight = s.max_in_flight.max(s.in_flight);
        }
        let _g = InFlight(self.st.clone());
        if self.gated {
            GateFut(*p as u64, false).await;
        }
        let ok = !self.fail.contains(p);
        self.st.lock().unwrap().finished.push((*p, ok));
        if ok {
            Ok(())
        } else {
            anyhow::bail!("send {p} failed")
        }
    }
    async fn close(&self) -> anyhow::Result<()> {
        self.st.lock().unwrap().closed += 1;
        if self.fail.contains(&999) {
            anyhow::bail!("close failed")
        }
        Ok(())
    }
}

/// `n` items (item `serr` of the stream is an error), sends in `fail` fail.
fn publish_all(n: u32, limit: Option<usize>, serr: Option<u32>, fail: Vec<u32>, any: bool) -> Result<String, String> {
    let st: Arc<Mutex<St>> = Default::default();
    let sink = Sink {
        st: st.clone(),
        fail: Arc::new(fail.clone()),
        gated: true,
    };
    let (feed, stream) = Feed::new((0..n).map(|i| {
        if Some(i) == serr {
            Err(anyhow::anyhow!("stream failed"))
        } else {
            Ok(i)
        }
    }));
    let h = {
        let sink = sink.clone();
        mcrt::task("publish_all", async move {
            let r = sink.publish_all(stream, limit).await;
            r.map_err(|e| e.to_string())
        })
    };
    let mut first_err: Option<String> = None;
    let mut log = String::new();
    let mut started_at_err = None;
    let mut hit_stream_err = false;
    loop {
        mcrt::quiesce();
        {
            let s = st.lock().unwrap();
            ensure!(
                limit.map_or(true, |l| s.in_flight <= l) && limit.map_or(true, |l| s.max_in_flight <= l),
                "{} sends at a time, limit {limit:?}",
                s.max_in_flight
            );
            // The stream error is taken at its own time (when a slot is free).
            if first_err.is_none() && !hit_stream_err && serr.is_some() {
                let k = serr.unwrap();
                if feed.taken() as u32 > k {
                    hit_stream_err = true;
                    first_err = Some("stream failed".into());
                    started_at_err = Some(s.started.len());
                }
            }
        }
        if h.is_finished() {
            break;
        }
        ensure!(
            first_err.is_none(),
            "still running after error {first_err:?}"
        );
        let waiting: Vec<u64> =
            mcrt::local::<AsyncGates, _>("agates", |a| a.waiting.iter().map(|w| w.0).collect());
        let more = feed.has_more();
        let k = waiting.len() + more as usize;
        ensure!(k > 0, "publish_all hangs with nothing left to happen");
        let c = match any {
            true => choose(k),
            // As many sends at a time as possible, completed from the middle.
            false if more => waiting.len(),
            false => waiting.len() / 2,
        };
        if c < waiting.len() {
            let g = waiting[c];
            log += &format!("s{g}");
            if fail.contains(&(g as u32)) && first_err.is_none() {
                first_err = Some(format!("send {g} failed"));
                started_at_err = Some(st.lock().unwrap().started.len());
            }
            let w = mcrt::local::<AsyncGates, _>("agates", |a| {
                a.open.push(g);
                let i = a.waiting.iter().position(|w| w.0 == g).unwrap();
                a.waiting.remove(i).1
            });
            w.wake();
        } else {
            log += "i";
            feed.advance();
        }
    }
    let res = h.join_blocking().map_err(|e| format!("publish_all: {e:?}"))?;
    let s = st.lock().unwrap();
    ensure!(
        res.clone().err() == first_err,
        "returned {res:?}, expected {first_err:?} (events {log})"
    );
    let mut uniq = s.started.clone();
    uniq.sort();
    let len = uniq.len();
    uniq.dedup();
    ensure!(uniq.len() == len, "an item was sent twice: {:?}", s.started);
    match started_at_err {
        None => {
            ensure!(
                uniq == (0..n).collect::<Vec<_>>() && s.finished.len() == n as usize,
                "success with sends {:?}, finished {:?} of {n}",
                s.started,
                s.finished
            );
        }
        Some(k) => {
            ensure!(
                s.started.len() == k,
                "a send was started after the first error: {:?}",
                s.started
            );
        }
    }
    Ok(log)
}

fn with(gated: bool) -> Result<String, String> {
    let st: Arc<Mutex<St>> = Default::default();
    let bad_close = choose(2) == 1;
    let fail = match (choose(3), bad_close) {
        (0, false) => vec![],
        (0, true) => vec![999],
        (1, false) => vec![21],
        (1, true) => vec![21, 999],
        (_, false) => vec![11],
        (_, true) => vec![11, 999],
    };
    let _ = gated;
    let sink = Sink {
        st: st.clone(),
        fail: Arc::new(fail.clone()),
        gated: false,
    };
    let depth = choose(3);
    // x -> 10 x + 1, failing for 3; a second layer doubles first.
    let one = |x: &u32| -> anyhow::Result<u32> {
        if *x == 3 {
            anyhow::bail!("cannot transform {x}")
        }
        Ok(10 * x + 1)
    };
    let p: Box<dyn Publisher<u32> + Send + Sync + Unpin> = match depth {
        0 => Box::new(sink.with(one)),
        1 => Box::new(Box::pin(sink.with(one)) as std::pin::Pin<Box<dyn Publisher<u32> + Send + Sync>>),
        _ => Box::new(sink.with(one).with(|x: &u32| {
            if *x == 9 {
                anyhow::bail!("second refuses {x}")
            }
            Ok(*x)
        })),
    };
    let mut want = vec![];
    let mut out = String::new();
    for _ in 0..3 {
        let x = [1u32, 2, 3, 9][choose(4)];
        let res = mcrt::block_on(p.publish(&x)).map_err(|e| e.to_string());
        let exp = if depth == 2 && x == 9 {
            Err("second refuses 9".to_string())
        } else if x == 3 {
            Err("cannot transform 3".to_string())
        } else {
            want.push(10 * x + 1);
            if fail.contains(&(10 * x + 1)) {
                Err(format!("send {} failed", 10 * x + 1))
            } else {
                Ok(())
            }
        };
        ensure!(res == exp, "publish({x}) gave {res:?}, expected {exp:?}");
        let s = st.lock().unwrap();
        ensure!(s.started == want, "sent {:?}, expected {want:?}", s.started);
        ensure!(s.closed == 0, "closed by publish");
        out = format!("{exp:?}");
    }
    let res = mcrt::block_on(p.close()).map_err(|e| e.to_string());
    let exp = if bad_close {
        Err("close failed".to_string())
    } else {
        Ok(())
    };
    ensure!(res == exp, "close gave {res:?}, expected {exp:?}");
    ensure!(st.lock().unwrap().closed == 1, "wrapped publisher closed {} times", st.lock().unwrap().closed);
    Ok(out)
}

pub fn scenarios(t: Tier) -> Vec<Scen> {
    let mut v = vec![];
    let max_n = t.pick(4, 5);
    for n in 0..=max_n {
        for limit in [Some(1), Some(2), Some(3), None] {
            v.push(
                Scen::new(format!("publish_all-{n}-limit-{limit:?}"), dev(0), move || {
                    let serr = match choose(n as usize + 1) {
                        0 => None,
                        k => Some(k as u32 - 1),
                    };
                    let fail = match choose(n as usize * 2 + 1) {
                        0 => vec![],
                        k if k <= n as usize => vec![k as u32 - 1],
                        k => {
                            let a = (k - 1 - n as usize) as u32;
                            vec![a, (a + 1) % n]
                        }
                    };
                    publish_all(n, limit, serr, fail, true)
                })
                .what("all orders of item arrival and send completion, with an error at every place of the stream and none, one or two failing sends"),
            );
        }
    }
    for n in [100, 400] {
        for limit in [Some(1), Some(7), Some(99), Some(n as usize), Some(usize::MAX), None] {
            for serr in [None, Some(n - 1)] {
                for fail in [vec![], vec![n / 2]] {
                    v.push(
                        Scen::new(format!("many-{n}-limit-{limit:?}-error-{serr:?}-failing-{fail:?}"), long(dev(0)), move || {
                            publish_all(n, limit, serr, fail.clone(), false)
                        })
                        .what("hundreds of items, all available as soon as they are asked for"),
                    );
                }
            }
        }
    }
    v.push(Scen::new("with", dev(0), || with(false)).what("all sequences of three publishes through one and two transformations, boxed and pinned, with failing transformations, sends and close"));
    v
}
