//! Values which take no space: they cannot carry an identity, so they have a history of their own, judged by counting.

use crate::uni::*;
use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
use fixed_map::Map;
use fmsim_core::ctx::*;
use fmsim_core::rng::Rng;
use std::cell::Cell;

thread_local! {
    static MADE: Cell<u64> = const { Cell::new(0) };
    static DROPPED: Cell<u64> = const { Cell::new(0) };
    static CLONED: Cell<u64> = const { Cell::new(0) };
}

#[derive(PartialEq)]
pub struct Zero([u64; 0]);
impl Zero {
    fn new() -> Zero {
        MADE.with(|m| m.set(m.get() + 1));
        Zero([])
    }
}
impl Default for Zero {
    fn default() -> Zero {
        Zero::new()
    }
}
impl Clone for Zero {
    fn clone(&self) -> Zero {
        CLONED.with(|m| m.set(m.get() + 1));
        Zero::new()
    }
}
impl Drop for Zero {
    fn drop(&mut self) {
        DROPPED.with(|m| m.set(m.get() + 1));
    }
}

fn alive() -> usize {
    (MADE.with(Cell::get) - DROPPED.with(Cell::get)) as usize
}

const STEPS: usize = 24;

/// A life of one map; violations come with the number of their property.
pub fn history<K: Uni>(seed: u64) -> Vec<(u32, String)>
where
    K::MapStorage<Zero>: Clone + PartialEq,
{
    let mut bad = vec![];
    let r = &mut Rng(seed);
    let base = alive();
    let n = K::size();
    let span = n.min(12);
    let from = if n > span { r.below(n - span) } else { 0 };
    let key = |r: &mut Rng| from + r.below(span);
    let mut m: Map<K, Zero> = real(Map::new);
    let mut model = vec![false; n];
    // The borrow checker needs the audit spelled out.
    macro_rules! chk {
        ($prop:expr, $ok:expr, $($text:tt)*) => {
            if !$ok {
                bad.push(($prop, format!($($text)*)));
            }
        };
    }
    macro_rules! audit {
        ($m:expr, $model:expr, $others:expr, $what:expr) => {{
            let (m, model): (&Map<K, Zero>, &Vec<bool>) = (&$m, &$model);
            let live = model.iter().filter(|x| **x).count();
            let len = real(|| m.len());
            chk!(1, len == live, "{}: len() is {len} with {live} entries", $what);
            chk!(1, real(|| m.is_empty()) == (live == 0), "{}: is_empty() with {live} entries", $what);
            for k in from..from + span {
                let (a, b) = (real(|| m.contains_key(K::nth(k))), real(|| m.get(K::nth(k)).is_some()));
                chk!(1, a == model[k] && b == model[k], "{}: key {k} is found as {a} and {b}, expected {}", $what, model[k]);
            }
            let mut seen: Vec<usize> = vec![];
            let mut it = real(|| m.iter());
            while let Some((k, _)) = real(|| it.next()) {
                seen.push(k.idx());
                if seen.len() > n {
                    break;
                }
            }
            drop(it);
            let ordered = seen.windows(2).all(|w| K::rank(w[0]) <= K::rank(w[1]));
            seen.sort_unstable();
            let expect: Vec<usize> = (0..n).filter(|k| model[*k]).collect();
            chk!(4, seen == expect, "{}: iter() visits {seen:?}, expected {expect:?}", $what);
            chk!(5, ordered, "{}: iter() out of order", $what);
            let values = real(|| m.values().count());
            chk!(4, values == live, "{}: values() visits {values} of {live}", $what);
            let want = base + live + $others;
            let have = alive();
            chk!(6, have == want, "{}: {have} values exist, expected {want}", $what);
        }};
    }
    for _ in 0..STEPS {
        let k = key(r);
        let what;
        match r.below(16) {
            0..=3 => {
                what = format!("insert {k}");
                let old = real(|| m.insert(K::nth(k), Zero::new()));
                chk!(1, old.is_some() == model[k], "{what}: old value {}", old.is_some());
                model[k] = true;
            }
            4 | 5 => {
                what = format!("remove {k}");
                let old = real(|| m.remove(K::nth(k)));
                chk!(1, old.is_some() == model[k], "{what}: removed {}", old.is_some());
                model[k] = false;
            }
            6 => {
                what = format!("or_insert_with {k}");
                let mut calls = 0;
                real(|| {
                    m.entry(K::nth(k)).or_insert_with(|| {
                        calls += 1;
                        Zero::new()
                    });
                });
                chk!(3, calls == usize::from(!model[k]), "{what}: called {calls} times");
                model[k] = true;
            }
            7 => {
                what = format!("entry {k}");
                let act = r.below(3);
                let (occupied, seen) = real(|| match m.entry(K::nth(k)) {
                    Entry::Occupied(mut e) => {
                        let k = e.key();
                        match act {
                            0 => drop(e.insert(Zero::new())),
                            1 => drop(e.remove()),
                            _ => {}
                        }
                        (true, k)
                    }
                    Entry::Vacant(e) => {
                        let k = e.key();
                        if act != 2 {
                            e.insert(Zero::new());
                        }
                        (false, k)
                    }
                });
                chk!(3, occupied == model[k], "{what}: occupied is {occupied}");
                chk!(3, seen.idx() == k, "{what}: reports key {:?}", seen);
                model[k] = match (occupied, act) {
                    (true, 1) => false,
                    (false, 2) => false,
                    _ => true,
                };
            }
            8 => {
                what = format!("and_modify {k} or_default");
                let mut calls = 0;
                real(|| {
                    m.entry(K::nth(k)).and_modify(|_| calls += 1).or_default();
                });
                chk!(3, calls == usize::from(model[k]), "{what}: called {calls} times");
                model[k] = true;
            }
            9 | 10 => {
                what = "retain".to_string();
                let mask = r.next() | r.next();
                let mut asked = vec![];
                real(|| {
                    m.retain(|k, _| {
                        let k = k.idx();
                        asked.push(k);
                        mask & 1 << (k % 64) != 0
                    });
                });
                asked.sort_unstable();
                let expect: Vec<usize> = (0..n).filter(|k| model[*k]).collect();
                chk!(17, asked == expect, "retain asked about {asked:?}, expected {expect:?}");
                for (k, x) in model.iter_mut().enumerate() {
                    *x &= mask & 1 << (k % 64) != 0;
                }
            }
            11 => {
                what = "iter_mut".to_string();
                let mut n = 0;
                real(|| m.iter_mut().for_each(|_| n += 1));
                let live = model.iter().filter(|x| **x).count();
                chk!(4, n == live, "iter_mut() visits {n} of {live}");
            }
            12 => {
                what = "clone".to_string();
                let before = CLONED.with(Cell::get);
                let c = real(|| m.clone());
                let cloned = (CLONED.with(Cell::get) - before) as usize;
                let live = model.iter().filter(|x| **x).count();
                chk!(8, cloned == live, "clone made {cloned} copies of {live} values");
                chk!(9, real(|| c == m), "a clone is not equal");
                audit!(c, model, live, "clone");
                let mut d = real(Map::<K, Zero>::new);
                real(|| drop(d.insert(K::nth(k), Zero::new())));
                chk!(9, real(|| d == c) == (live == 1 && model[k]), "equality with a map of one entry");
                real(|| d.clone_from(&c));
                real(|| drop(c));
                audit!(d, model, live, "clone_from");
                real(|| drop(d));
            }
            13 => {
                what = "into_iter".to_string();
                let live = model.iter().filter(|x| **x).count();
                let take = r.below(live + 2);
                let mut it = real(|| std::mem::take(&mut m).into_iter());
                let mut seen = vec![];
                for _ in 0..take {
                    let Some((k, v)) = real(|| it.next()) else { break };
                    seen.push(k.idx());
                    drop(v);
                }
                chk!(6, alive() == base + live - seen.len().min(live), "a partly consumed iterator: {} values exist", alive() - base);
                real(|| drop(it));
                chk!(4, seen.len() == take.min(live) && seen.iter().all(|k| *k < n && model[*k]), "into_iter() visits {seen:?}");
                seen.sort_unstable();
                seen.dedup();
                chk!(4, seen.len() == take.min(live), "into_iter() visits an entry twice");
                model.fill(false);
            }
            14 => {
                what = "collect".to_string();
                let ks: Vec<usize> = (0..r.below(8)).map(|_| key(r)).collect();
                m = real(|| ks.iter().map(|k| (K::nth(*k), Zero::new())).collect());
                model.fill(false);
                for k in ks {
                    model[k] = true;
                }
            }
            _ => {
                what = "clear".to_string();
                real(|| m.clear());
                model.fill(false);
            }
        }
        audit!(m, model, 0, what);
        if !bad.is_empty() {
            break;
        }
    }
    real(|| drop(m));
    chk!(6, alive() == base, "{} values survive their map", alive() - base);
    bad.truncate(3);
    bad
}
