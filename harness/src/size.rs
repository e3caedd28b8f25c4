//! Table allocations: what capacities make room for, and how large tables become.

use crate::seq::{self, build_map, build_set, hash_of, rng, Cfg, Rng, K, Q, V};
use serde_json::json;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering;

const CREATE: i64 = 1;
const RESERVE: i64 = 2;
const ALLOC: i64 = 3;
const FREE: i64 = 4;
const INSERT: i64 = 5;
const REMOVE: i64 = 6;
const OBJECTS: i64 = 7;
const PANIC: i64 = 8;
const END: i64 = 9;

/// During what a table was allocated.
const BY_CREATE: i64 = 0;
const BY_INSERT: i64 = 1;
const BY_RESERVE: i64 = 2;
const BY_READ: i64 = 3;

enum Any {
    M(seq::Map),
    S(seq::Set),
}

struct Rec {
    t: Vec<[i64; 4]>,
    ins: i64,
    rem: i64,
}

impl Rec {
    fn flush(&mut self) {
        if self.ins > 0 {
            self.t.push([INSERT, self.ins, 0, 0]);
            self.ins = 0;
        }
        if self.rem > 0 {
            self.t.push([REMOVE, self.rem, 0, 0]);
            self.rem = 0;
        }
    }
    /// Collects the allocations of the last call.
    fn tables(&mut self, by: i64) {
        let log = std::mem::take(&mut *seq::TABLE_LOG.lock().unwrap());
        if !log.is_empty() {
            self.flush();
        }
        for (alloc, bytes) in log {
            self.t.push([if alloc { ALLOC } else { FREE }, bytes as i64, by, 0]);
        }
    }
}

impl Any {
    fn ins(&self, k: u32) -> bool {
        match self {
            Any::M(m) => m.pin().insert(K::new(k), V::new(1)).is_none(),
            Any::S(m) => m.pin().insert(K::new(k)),
        }
    }
    fn rem(&self, k: u32) -> bool {
        match self {
            Any::M(m) => m.pin().remove(&Q(k)).is_some(),
            Any::S(m) => m.pin().remove(&Q(k)),
        }
    }
    fn read(&self, i: u64) {
        match self {
            Any::M(m) => {
                let mut p = m.pin();
                match i {
                    0 => drop(p.get(&Q(1)).map(|v| v.v)),
                    1 => drop(p.contains_key(&Q(1))),
                    2 => drop(p.len() + p.is_empty() as usize),
                    3 => drop(p.iter().count() + p.keys().count() + p.values().count()),
                    4 => drop(p.remove(&Q(1)).map(|v| v.v)),
                    5 => p.clear(),
                    6 => p.retain(|_, _| true),
                    7 => drop(p.update(K::new(1), |_| V::new(1)).map(|v| v.v)),
                    8 => drop(p.remove_if(&Q(1), |_, _| true).is_ok()),
                    _ => drop(p.get_key_value(&Q(1)).is_some()),
                }
            }
            Any::S(m) => {
                let mut p = m.pin();
                match i {
                    0 => drop(p.get(&Q(1)).is_some()),
                    1 => drop(p.contains(&Q(1))),
                    2 => drop(p.len() + p.is_empty() as usize),
                    3 => drop(p.iter().count()),
                    4 => drop(p.remove(&Q(1))),
                    5 => p.clear(),
                    _ => p.retain(|_| true),
                }
            }
        }
    }
    fn reserve(&self, n: usize) {
        match self {
            Any::M(m) => m.pin().reserve(n),
            Any::S(m) => m.pin().reserve(n),
        }
    }
}

/// Whether a table at three quarters of its load stores the keys without long probe sequences.
pub fn well(keys: &[u32], n: usize) -> bool {
    let len = (n * 8 / 6).max(1).next_power_of_two().max(8);
    if len <= 16 {
        return true;
    }
    let mut full = vec![false; len];
    let mut longest = 0;
    for k in keys {
        let mut i = hash_of(*k) as usize & (len - 1);
        let mut n = 0;
        while full[i] {
            n += 1;
            i = (i + n) & (len - 1);
            if n > len {
                return false;
            }
        }
        full[i] = true;
        longest = longest.max(n);
    }
    longest * 10 <= 5 * len.ilog2() as usize * 6
}

fn capacity(r: &mut Rng) -> usize {
    match r.below(8) {
        // A fraction of a power of two, up to which a table of that size could be filled.
        6 | 7 => ((1usize << (5 + r.below(6))) * r.pick(&[6, 7, 7, 7]) / 8).saturating_sub(r.below(2) as usize),
        0 => r.below(40) as usize,
        1 => (1usize << r.below(12)) + r.below(3) as usize,
        2 => ((1usize << (2 + r.below(10))) - 1).max(1),
        3 => (1usize << (3 + r.below(8))) * r.pick(&[4, 5, 6, 7, 7]) / 8 + r.below(3) as usize,
        4 => r.below(3000) as usize,
        _ => 1 + r.below(300) as usize,
    }
}

fn config(r: &mut Rng) -> Cfg {
    let mut c = seq::config(r);
    c.hk = r.pick(&[0, 0, 0, 4]);
    c.batch = 1;
    if c.ctor > 0 {
        c.ctor = 1;
    }
    c
}

/// Creating a map, filling it up to its capacity, and reserving.
fn room(r: &mut Rng) -> Vec<[i64; 4]> {
    let mut c = config(r);
    c.cap = if r.below(6) == 0 { 0 } else { capacity(r) };
    seq::set_hash(c.hk, c.hs);
    seq::TABLE_LOG.lock().unwrap().clear();
    let mut rec = Rec { t: vec![], ins: 0, rem: 0 };
    let m = if c.set { Any::S(build_set(&c)) } else { Any::M(build_map(&c)) };
    let base = r.below(1 << 16) as u32;
    let more = capacity(r).min(600);
    let keys: Vec<u32> = (0..(c.cap + more + 4) as u32).map(|i| base + i).collect();
    rec.t.push([CREATE, c.cap as i64, well(&keys[..c.cap], c.cap) as i64, 0]);
    rec.tables(BY_CREATE);
    for _ in 0..r.below(4) {
        m.read(r.below(10));
        rec.tables(BY_READ);
    }
    let mut at = 0;
    let mut removed = false;
    let ins = |n: usize, at: &mut usize, rec: &mut Rec| {
        for _ in 0..n {
            let new = m.ins(keys[*at]);
            rec.tables(BY_INSERT);
            rec.ins += new as i64;
            *at += 1;
        }
        rec.flush();
    };
    // Possibly reserve before filling.
    let first = if r.below(3) == 0 { r.below(c.cap as u64 + 1) as usize } else { c.cap };
    ins(first, &mut at, &mut rec);
    if r.below(2) == 0 {
        if r.below(4) == 0 && at > 0 {
            let k = keys[r.below(at as u64) as usize];
            rec.rem += m.rem(k) as i64;
            removed = true;
            rec.tables(BY_READ);
            rec.flush();
        }
        let n = r.below((keys.len() - at) as u64 + 1) as usize;
        let w = well(&keys[..at + n], at + n) && !removed;
        m.reserve(n);
        rec.t.push([RESERVE, n as i64, w as i64, 0]);
        rec.tables(BY_RESERVE);
        ins(n, &mut at, &mut rec);
    }
    let n = r.below(5).min((keys.len() - at) as u64) as usize;
    ins(n, &mut at, &mut rec);
    // Removing everything and using the map again may shrink it.
    if r.below(2) == 0 {
        for k in &keys[..at] {
            rec.rem += m.rem(*k) as i64;
        }
        rec.tables(BY_READ);
        rec.flush();
        for i in 0..r.below(4000) as u32 {
            let k = 5_000_000 + base + i;
            rec.ins += m.ins(k) as i64;
            rec.tables(BY_INSERT);
            rec.rem += m.rem(k) as i64;
            if i % 64 == 0 {
                rec.flush();
            }
        }
        rec.flush();
    }
    drop(m);
    rec.tables(BY_READ);
    rec.t.push([END, 0, 0, 0]);
    rec.t
}

/// Insertions and removals of a bounded number of entries.
fn churn(r: &mut Rng, long: u64) -> Vec<[i64; 4]> {
    let mut c = config(r);
    // Reclaim without batching, so that what is still allocated is in use.
    c.ctor = 0;
    c.cap = r.pick(&[0, 0, 0, 1, 30, 200, 2000, 9000]);
    seq::set_hash(c.hk, c.hs);
    seq::TABLE_LOG.lock().unwrap().clear();
    let (k0, v0) = (seq::KEYS.load(Ordering::SeqCst), seq::VALUES.load(Ordering::SeqCst));
    let mut rec = Rec { t: vec![], ins: 0, rem: 0 };
    let m = if c.set { Any::S(build_set(&c)) } else { Any::M(build_map(&c)) };
    rec.t.push([CREATE, c.cap as i64, 0, 0]);
    rec.tables(BY_CREATE);
    let bound = r.pick(&[1u64, 2, 5, 20, 100, 500]);
    let fifo = r.below(2) == 0;
    let fresh = r.below(3) != 0;
    let mut live: std::collections::VecDeque<u32> = Default::default();
    let mut next = r.below(1 << 16) as u32;
    let steps = 2000 + r.below(long);
    let mut target = bound;
    for i in 0..steps {
        if r.below(400) == 0 {
            target = 1 + r.below(bound);
        }
        if (live.len() as u64) < target {
            let k = if fresh { next } else { next % (2 * bound as u32) };
            next += 1;
            if m.ins(k) {
                rec.ins += 1;
                live.push_back(k);
            }
            rec.tables(BY_INSERT);
        } else {
            let k = if fifo { live.pop_front() } else { live.swap_remove_back(r.below(live.len() as u64) as usize) };
            // The entry goes before the number of entries is recorded.
            if m.rem(k.unwrap()) {
                rec.flush();
                rec.rem += 1;
            }
            rec.tables(BY_READ);
        }
        if r.below(3000) == 0 {
            if let Any::M(m) = &m {
                m.pin().clear();
            } else if let Any::S(m) = &m {
                m.pin().clear();
            }
            rec.flush();
            rec.rem += live.len() as i64;
            live.clear();
            rec.tables(BY_READ);
        }
        if i % 1000 == 999 {
            rec.flush();
            rec.t.push([
                OBJECTS,
                seq::KEYS.load(Ordering::SeqCst) - k0,
                seq::VALUES.load(Ordering::SeqCst) - v0,
                0,
            ]);
        }
        // Keep the trace short: merge runs of insertions and removals.
        compact(&mut rec.t);
    }
    rec.flush();
    drop(m);
    rec.tables(BY_READ);
    rec.t.push([END, 0, 0, 0]);
    rec.t
}

/// Merges `INSERT a, REMOVE b, INSERT c, REMOVE d` into the same change with the same maximum.
fn compact(t: &mut Vec<[i64; 4]>) {
    while t.len() >= 4 {
        let n = t.len();
        let w = [t[n - 4], t[n - 3], t[n - 2], t[n - 1]];
        if w[0][0] == INSERT && w[1][0] == REMOVE && w[2][0] == INSERT && w[3][0] == REMOVE {
            // The live entries go +a, +a-b, +a-b+c, +a-b+c-d.
            let (a, b, c, d) = (w[0][1], w[1][1], w[2][1], w[3][1]);
            let max = a.max(a - b + c);
            let end = a - b + c - d;
            t.truncate(n - 4);
            t.push([INSERT, max, 0, 0]);
            t.push([REMOVE, max - end, 0, 0]);
        } else {
            break;
        }
    }
}

/// Threads that insert and remove a bounded number of entries each.
fn concurrent(r: &mut Rng) -> Vec<[i64; 4]> {
    let mut c = config(r);
    c.cap = r.pick(&[0, 0, 30]);
    seq::set_hash(c.hk, c.hs);
    seq::TABLE_LOG.lock().unwrap().clear();
    let m = build_map(&c);
    let (threads, each) = (2 + r.below(3) as u32, 1 + r.below(60) as u32);
    let mut rec = Rec { t: vec![[CREATE, c.cap as i64, 0, 0]], ins: 0, rem: 0 };
    rec.tables(BY_CREATE);
    rec.t.push([INSERT, (threads * each) as i64, 0, 0]);
    std::thread::scope(|s| {
        for t in 0..threads {
            let m = &m;
            s.spawn(move || {
                for round in 0..60u32 {
                    for i in 0..each {
                        m.pin().insert(K::new(t << 24 | round * each + i), V::new(1));
                    }
                    for i in 0..each {
                        m.pin().remove(&Q(t << 24 | round * each + i));
                    }
                }
            });
        }
    });
    rec.tables(BY_INSERT);
    drop(m);
    rec.tables(BY_READ);
    // The order of insertions and removals is not known: only the sizes of the tables count.
    rec.t.retain(|e| e[0] != FREE);
    rec.t
}

pub fn trace(profile: &str, seed: u64, idx: u64, long: u64) -> Vec<[i64; 4]> {
    let mut r = rng(profile, seed, idx);
    let f = || match profile {
        "room" => room(&mut r),
        _ if idx % 16 == 15 => concurrent(&mut r),
        _ => churn(&mut r, long),
    };
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => t,
        Err(_) => vec![[PANIC, 0, 0, 0]],
    }
}

#[allow(clippy::too_many_arguments)]
pub fn go(profile: &str, seed: u64, shard: u64, shards: u64, time: f64, out: &str, cap: u64, long: u64, only: Option<u64>) {
    papaya::verif::install(&seq::Tables);
    crate::obj::QUARANTINE_ON.store(false, Ordering::Relaxed);
    let progress = seq::watchdog(60);
    let t0 = std::time::Instant::now();
    use std::io::Write;
    let mut w = std::io::BufWriter::new(std::fs::File::create(format!("{out}/size.{shard}.ndjson")).unwrap());
    let mut cur = seq::Current::new(out, shard);
    let (mut runs, mut events) = (0, 0u64);
    let mut idx = only.unwrap_or(shard);
    while t0.elapsed().as_secs_f64() < time && runs < cap {
        cur.set(idx);
        progress.fetch_add(1, Ordering::Relaxed);
        let t = trace(profile, seed, idx, long);
        runs += 1;
        events += t.len() as u64;
        writeln!(w, "{}", json!({"p": idx, "n": t.len(), "t": t})).unwrap();
        if only.is_some() {
            break;
        }
        idx += shards;
    }
    w.flush().unwrap();
    std::fs::write(format!("{out}/stats.{shard}"), json!({"runs": runs, "steps": events}).to_string()).unwrap();
}
