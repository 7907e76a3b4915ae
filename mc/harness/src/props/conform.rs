//! The stand-in of the concurrent map against the original, on all histories of
//! calls up to a depth. (The other stand-ins of data structures wrap the originals.)
use mcrt::choose;

use crate::common::*;
use crate::ensure;

macro_rules! applied {
    ($name:ident, $lib:ident) => {
        fn $name(m: &$lib::DashMap<u32, u32>, op: usize, k: u32, v: u32) -> String {
            use $lib::mapref::entry::Entry;
            match op {
                0 => format!("{:?}", m.insert(k, v)),
                1 => format!("{:?}", m.remove(&k)),
                2 => format!("{:?}", m.get(&k).map(|r| (*r.key(), *r.value(), *r))),
                3 => format!("{:?}", m.get_mut(&k).map(|mut r| std::mem::replace(&mut *r, v))),
                4 => format!("{} {} {}", m.contains_key(&k), m.len(), m.is_empty()),
                5 => match m.entry(k) {
                    Entry::Occupied(e) => format!("occupied {} {}", e.get(), e.key()),
                    Entry::Vacant(e) => {
                        let e = e.insert(v);
                        format!("vacant {}", *e)
                    }
                },
                6 => match m.entry(k) {
                    Entry::Occupied(mut e) => format!("occupied {}", e.insert(v)),
                    Entry::Vacant(e) => format!("vacant {}", e.into_key()),
                },
                7 => match m.entry(k) {
                    Entry::Occupied(e) => format!("occupied {}", e.remove()),
                    Entry::Vacant(_) => "vacant".into(),
                },
                8 => format!("{}", *m.entry(k).or_insert(v)),
                9 => format!("{}", *m.entry(k).and_modify(|x| *x += 1).or_insert_with(|| v)),
                10 => {
                    *m.entry(k).or_default() += v;
                    String::new()
                }
                11 => format!("{:?}", m.remove_if(&k, |_, x| *x > 2)),
                12 => {
                    m.retain(|kk, x| *kk != k || *x > 1);
                    format!("{}", m.len())
                }
                13 => {
                    m.alter(&k, |_, x| x + v);
                    m.clear();
                    format!("{}", m.len())
                }
                14 => {
                    m.alter(&k, |_, x| x + v);
                    m.iter_mut().for_each(|mut e| *e += 1);
                    String::new()
                }
                _ => format!("{:?}", m.view(&k, |a, b| (*a, *b))),
            }
        }
    };
}
applied!(on_stand_in, dashmap);
applied!(on_original, real_dashmap);

pub fn maps(depth: usize) -> Scen {
    let mut cfg = dev(0);
    cfg.shards = 2;
    Scen::new("stand-in-of-dashmap", cfg, move || {
        let (a, b) = (dashmap::DashMap::new(), real_dashmap::DashMap::new());
        let mut log = String::new();
        for i in 0..depth {
            let (op, k) = (choose(16), choose(2) as u32);
            log.push_str(&format!("{op}/{k} "));
            let (x, y) = (on_stand_in(&a, op, k, i as u32), on_original(&b, op, k, i as u32));
            ensure!(x == y, "after {log}: the stand-in says {x:?}, the original {y:?}");
            let mut p: Vec<(u32, u32)> = a.iter().map(|e| (*e.key(), *e.value())).collect();
            let mut q: Vec<(u32, u32)> = b.iter().map(|e| (*e.key(), *e.value())).collect();
            p.sort();
            q.sort();
            ensure!(p == q, "after {log}: the stand-in holds {p:?}, the original {q:?}");
        }
        Ok("same".into())
    })
    .what(format!("the stand-in of dashmap and the original, all histories of {depth} calls of 16 kinds on two keys"))
}
