//! Calls with guards of the same and of other collectors.

use crate::seq::{self, Bh, Q, K, V};
use papaya::{Guard, HashMap, HashSet, Operation, ResizeMode};
use serde_json::json;
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering;

type Map = seq::Map;
type Set = seq::Set;

thread_local! {
    static CALLS: Cell<i64> = const { Cell::new(0) };
}

fn called() {
    CALLS.with(|c| c.set(c.get() + 1));
}

pub const MAP_METHODS: i64 = 24;
pub const SET_METHODS: i64 = 9;

/// Calls a method of the map on key `k`.
fn call_map<G: Guard>(m: &Map, g: &G, method: i64, k: u32) {
    let upd = |v: &V| {
        called();
        V::new(v.v + 1)
    };
    let ini = || {
        called();
        V::new(3)
    };
    match method {
        0 => drop(m.contains_key(&Q(k), g)),
        1 => drop(m.get(&Q(k), g).map(|v| v.v)),
        2 => drop(m.get_key_value(&Q(k), g).map(|v| v.1.v)),
        3 => drop(m.insert(K::new(k), V::new(3), g).map(|v| v.v)),
        4 => drop(m.try_insert(K::new(k), V::new(3), g).is_ok()),
        5 => drop(m.try_insert_with(K::new(k), ini, g).is_ok()),
        6 => drop(m.get_or_insert(K::new(k), V::new(3), g).v),
        7 => drop(m.get_or_insert_with(K::new(k), ini, g).v),
        8 => drop(m.update(K::new(k), upd, g).map(|v| v.v)),
        9 => drop(m.update_or_insert(K::new(k), upd, V::new(3), g).v),
        10 => drop(m.update_or_insert_with(K::new(k), upd, ini, g).v),
        11 => drop(matches!(
            m.compute(
                K::new(k),
                |_| {
                    called();
                    Operation::Abort::<V, ()>(())
                },
                g
            ),
            papaya::Compute::Aborted(())
        )),
        12 => drop(m.remove(&Q(k), g).map(|v| v.v)),
        13 => drop(m.remove_entry(&Q(k), g).map(|v| v.1.v)),
        14 => drop(
            m.remove_if(
                &Q(k),
                |_, _| {
                    called();
                    true
                },
                g,
            )
            .is_ok(),
        ),
        15 => m.clear(g),
        16 => m.retain(
            |_, _| {
                called();
                false
            },
            g,
        ),
        17 => m.reserve(500, g),
        18 => drop(m.iter(g).map(|(_, v)| v.v).count()),
        19 => drop(m.keys(g).count()),
        20 => drop(m.values(g).count()),
        21 => drop(m.compute(
            K::new(k),
            |e| {
                called();
                if e.is_some() {
                    Operation::Remove
                } else {
                    Operation::Abort::<V, ()>(())
                }
            },
            g,
        )),
        22 => drop(m.compute(
            K::new(k),
            |_| {
                called();
                Operation::Insert::<V, ()>(V::new(4))
            },
            g,
        )),
        // An iterator that is created, but not used.
        _ => drop(m.iter(g)),
    }
}

fn call_set<G: Guard>(m: &Set, g: &G, method: i64, k: u32) {
    match method {
        0 => drop(m.contains(&Q(k), g)),
        1 => drop(m.get(&Q(k), g).is_some()),
        2 => drop(m.insert(K::new(k), g)),
        3 => drop(m.remove(&Q(k), g)),
        4 => m.clear(g),
        5 => {
            let m = unsafe { &mut *(m as *const Set as *mut Set) };
            m.retain(
                |_| {
                    called();
                    false
                },
                g,
            )
        }
        6 => m.reserve(500, g),
        7 => drop(m.iter(g).count()),
        _ => drop(m.iter(g)),
    }
}

fn mode(b: bool) -> ResizeMode {
    if b {
        ResizeMode::Blocking
    } else {
        ResizeMode::Incremental(1)
    }
}

fn map(state: i64, blocking: bool) -> Map {
    let m: Map = HashMap::builder().hasher(Bh).capacity(0).resize_mode(mode(blocking)).build();
    fill(state, &mut |k| drop(m.pin().insert(K::new(k), V::new(k + 1))), &mut |k| drop(m.pin().remove(&Q(k))));
    m
}

fn set(state: i64, blocking: bool) -> Set {
    let m: Set = HashSet::builder().hasher(Bh).capacity(0).resize_mode(mode(blocking)).build();
    fill(state, &mut |k| drop(m.pin().insert(K::new(k))), &mut |k| drop(m.pin().remove(&Q(k))));
    m
}

/// 0: no table, 1: some entries, 2: a resize in progress (if it is incremental), 3: cleared.
fn fill(state: i64, ins: &mut dyn FnMut(u32), rem: &mut dyn FnMut(u32)) {
    match state {
        0 => {}
        1 => (0..5).for_each(ins),
        2 => {
            let t0 = seq::TABLES.load(Ordering::SeqCst);
            for k in 0..400 {
                ins(k);
                if k > 30 && seq::TABLES.load(Ordering::SeqCst) >= t0 + 2 {
                    break;
                }
            }
        }
        _ => {
            (0..5).for_each(&mut *ins);
            (0..5).for_each(rem);
        }
    }
}

fn content_map(m: &Map) -> Vec<[i64; 2]> {
    let mut v: Vec<_> = m.pin().iter().map(|(k, v)| [k.id as i64, v.v as i64]).collect();
    v.sort();
    v.truncate(60);
    v.push([-1, m.len() as i64]);
    v
}

fn content_set(m: &Set) -> Vec<[i64; 2]> {
    let mut v: Vec<_> = m.pin().iter().map(|k| [k.id as i64, 0]).collect();
    v.sort();
    v.truncate(60);
    v.push([-1, m.len() as i64]);
    v
}

/// Kinds of guards: 0 `guard`, 1 `owned_guard`, 2 a guard of the map moved into a reference,
/// 3/4 guards of another map of the same kind, 5 a guard of another collector, 6 a guard of a
/// clone of the map.
pub const GUARDS: i64 = 7;

/// Runs `f` with a guard of the given kind.
macro_rules! with_guard {
    ($m:expr, $other:expr, $kind:expr, |$g:ident| $e:expr) => {{
        let (m, other) = ($m, $other);
        match $kind {
            0 => {
                let $g = &m.guard();
                $e
            }
            1 => {
                let $g = &m.owned_guard();
                $e
            }
            2 => {
                let g = m.guard();
                let $g = &&g;
                let $g = *$g;
                $e
            }
            3 => {
                let $g = &other.guard();
                $e
            }
            4 => {
                let $g = &other.owned_guard();
                $e
            }
            5 => {
                let c = seize::Collector::new();
                let $g = &c.enter();
                $e
            }
            _ => {
                let c = m.clone();
                let $g = &c.guard();
                $e
            }
        }
    }};
}

/// One call: the events are the content before, the call, and the content afterwards.
pub fn trace(idx: i64) -> Option<Vec<serde_json::Value>> {
    let mut i = idx;
    let mut next = |n: i64| {
        let x = i % n;
        i /= n;
        x
    };
    let is_set = next(2) == 1;
    let kind = next(GUARDS);
    let state = next(4);
    let blocking = next(2) == 1;
    let present = next(2) == 1;
    let reuse = next(2) == 1;
    let method = next(MAP_METHODS);
    if i > 0 {
        return None;
    }
    if is_set && method >= SET_METHODS {
        return Some(vec![]);
    }
    seq::set_hash(0, 1);
    let k = if present { 1 } else { 1_000_000 };
    let foreign = kind >= 3;
    macro_rules! go {
        ($m:ident, $make:ident, $content:ident, $call:ident) => {{
            let m = $make(state, blocking);
            let other = $make(if reuse { 1 } else { 0 }, blocking);
            let before = $content(&m);
            let t0 = seq::TABLES.load(Ordering::SeqCst);
            CALLS.with(|c| c.set(0));
            let e0 = seq::EQS.load(Ordering::SeqCst);
            let r = catch_unwind(AssertUnwindSafe(|| {
                with_guard!(&m, &other, kind, |g| {
                    let t1 = seq::TABLES.load(Ordering::SeqCst);
                    let r = catch_unwind(AssertUnwindSafe(|| $call(&m, g, method, k)));
                    let t2 = seq::TABLES.load(Ordering::SeqCst);
                    (r.is_err(), t2 - t1)
                })
            }));
            let (panicked, tables) = r.unwrap_or((true, 99));
            let eqs = seq::EQS.load(Ordering::SeqCst) - e0;
            let calls = CALLS.with(|c| c.get());
            let _ = t0;
            // A read afterwards works.
            let after = catch_unwind(AssertUnwindSafe(|| $content(&m))).unwrap_or_default();
            (before, panicked, tables, calls, if kind == 6 { 0 } else { eqs }, after)
        }};
    }
    let (before, panicked, tables, calls, eqs, after) = if is_set {
        go!(m, set, content_set, call_set)
    } else {
        go!(m, map, content_map, call_map)
    };
    Some(vec![
        json!([1, foreign as i64, before]),
        json!([2, is_set as i64, method, panicked as i64, tables, calls, eqs, after]),
    ])
}

pub fn go(shard: i64, shards: i64, out: &str, only: Option<i64>) {
    papaya::verif::install(&seq::Tables);
    let progress = seq::watchdog(30);
    use std::io::Write;
    let mut w = std::io::BufWriter::new(std::fs::File::create(format!("{out}/guard.{shard}.ndjson")).unwrap());
    let mut cur = seq::Current::new(out, shard as u64);
    let mut idx = only.unwrap_or(shard);
    let mut runs = 0;
    loop {
        cur.set(idx as u64);
        progress.fetch_add(1, Ordering::Relaxed);
        let Some(t) = trace(idx) else { break };
        crate::obj::release_quarantine();
        if !t.is_empty() {
            runs += 1;
            writeln!(w, "{}", json!({"p": idx, "n": t.len(), "t": t})).unwrap();
        }
        if only.is_some() {
            break;
        }
        idx += shards;
    }
    w.flush().unwrap();
    std::fs::write(format!("{out}/stats.{shard}"), json!({"runs": runs, "steps": 2 * runs}).to_string()).unwrap();
}
