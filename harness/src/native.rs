//! Histories of real threads on large maps, without the controlled scheduler. Calls and returns take tickets from a
//! shared counter, so that the order of the tickets is one that real time allows.

use crate::proj;
use crate::sched::{Ev, E};
use crate::screen;
use crate::seq::{self, hash_of, mode, rng, set_hash, Bh, Cfg, Current, Rng, K, Q, V};
use papaya::{Compute, HashMap, Operation};
use serde_json::json;
use std::io::Write;
use std::sync::atomic::{AtomicI32, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Barrier;

static TICKET: AtomicU64 = AtomicU64::new(0);
static NEXT_ID: AtomicI32 = AtomicI32::new(1);
static NEXT_V: AtomicU32 = AtomicU32::new(1);

type M = HashMap<K, V, Bh>;

struct Log {
    t: u8,
    evs: Vec<(u64, Ev)>,
}

impl Log {
    fn ev(&mut self, e: E, id: i32, k: i32, a: i64, b: i64, s: &'static str) {
        let n = TICKET.fetch_add(1, SeqCst);
        self.evs.push((n, Ev { e, t: self.t, id, k, a, b, c: 0, s }));
    }
    fn inv(&mut self, k: u32, a: i64, s: &'static str) -> i32 {
        let id = NEXT_ID.fetch_add(1, SeqCst);
        self.ev(E::Inv, id, k as i32, a, 0, s);
        id
    }
    fn ret(&mut self, id: i32, k: u32, a: i64, b: i64, s: &'static str) {
        self.ev(E::Ret, id, k as i32, a, b, s);
    }
}

fn value() -> V {
    V::new(NEXT_V.fetch_add(1, SeqCst))
}

fn old(v: Option<&V>) -> i64 {
    v.map_or(0, |v| v.read())
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum A {
    Get,
    GetKv,
    Has,
    Ins,
    TryIns,
    Goi,
    Upd,
    Uoi,
    CompIns,
    CompRem,
    Rem,
    RemIf,
    RemIfNot,
    Clear,
    RetainAll,
    RetainHalf,
    Iter,
    Reserve,
}

fn op(m: &M, l: &std::cell::RefCell<&mut Log>, a: A, k: u32) {
    use A::*;
    let m = m.pin();
    let q = Q(k);
    let inv = |k, a, s| l.borrow_mut().inv(k, a, s);
    let ret = |id, k, a, b, s| l.borrow_mut().ret(id, k, a, b, s);
    let cb = |id, k: u32, a, b, s| l.borrow_mut().ev(E::Cb, id, k as i32, a, b, s);
    match a {
        Get => {
            let id = inv(k, 0, "get");
            ret(id, k, old(m.get(&q)), 0, "ok")
        }
        GetKv => {
            let id = inv(k, 0, "getkv");
            match m.get_key_value(&q) {
                Some((kk, v)) => ret(id, k, v.read(), (kk.read().0 != k) as i64, "ok"),
                None => ret(id, k, 0, 0, "ok"),
            }
        }
        Has => {
            let id = inv(k, 0, "has");
            ret(id, k, m.contains_key(&q) as i64, 0, "ok")
        }
        Ins => {
            let (key, v) = (K::new(k), value());
            let id = inv(k, v.v as i64, "ins");
            ret(id, k, old(m.insert(key, v)), 0, "ok")
        }
        TryIns => {
            let (key, v) = (K::new(k), value());
            let id = inv(k, v.v as i64, "tryins");
            match m.try_insert(key, v) {
                Ok(v) => ret(id, k, v.read(), 0, "ok"),
                Err(e) => ret(id, k, e.current.read(), e.not_inserted.read(), "err"),
            }
        }
        Goi => {
            let (key, v) = (K::new(k), value());
            let id = inv(k, v.v as i64, "goi");
            ret(id, k, m.get_or_insert(key, v).read(), 0, "ok")
        }
        Upd => {
            let key = K::new(k);
            let id = inv(k, 0, "upd");
            let r = m.update(key, |v| {
                let i = v.read();
                let v = value();
                cb(id, k, i, v.v as i64, "ins");
                v
            });
            ret(id, k, old(r), 0, "ok")
        }
        Uoi => {
            let (key, v) = (K::new(k), value());
            let id = inv(k, v.v as i64, "uoi");
            let r = m.update_or_insert(
                key,
                |v| {
                    let i = v.read();
                    let v = value();
                    cb(id, k, i, v.v as i64, "ins");
                    v
                },
                v,
            );
            ret(id, k, r.read(), 0, "ok")
        }
        CompIns | CompRem => {
            let key = K::new(k);
            let id = inv(k, 0, "comp");
            let r = m.compute(key, |e| match e {
                Some((_, v)) if a == CompRem => {
                    cb(id, k, v.read(), 0, "rem");
                    Operation::Remove
                }
                None if a == CompRem => {
                    cb(id, k, 0, 0, "abort");
                    Operation::Abort(())
                }
                e => {
                    let i = e.map_or(0, |e| e.1.read());
                    let v = value();
                    cb(id, k, i, v.v as i64, "ins");
                    Operation::Insert(v)
                }
            });
            match r {
                Compute::Inserted(_, v) => ret(id, k, 0, v.read(), "ins"),
                Compute::Updated { old, new } => ret(id, k, old.1.read(), new.1.read(), "upd"),
                Compute::Removed(_, v) => ret(id, k, v.read(), 0, "rem"),
                Compute::Aborted(()) => ret(id, k, 0, 0, "abort"),
            }
        }
        Rem => {
            let id = inv(k, 0, "rem");
            ret(id, k, old(m.remove(&q)), 0, "ok")
        }
        RemIf | RemIfNot => {
            let id = inv(k, 0, "remif");
            let r = m.remove_if(&q, |_, v| {
                let i = v.read();
                let yes = a == RemIf;
                cb(id, k, i, 0, if yes { "yes" } else { "no" });
                yes
            });
            match r {
                Ok(Some((kk, v))) => ret(id, k, v.read(), (kk.read().0 != k) as i64, "ok"),
                Ok(None) => ret(id, k, 0, 0, "ok"),
                Err((kk, v)) => ret(id, k, v.read(), (kk.read().0 != k) as i64, "err"),
            }
        }
        Clear => {
            let id = inv(0, 0, "clear");
            m.clear();
            ret(id, 0, 0, 0, "ok")
        }
        RetainAll | RetainHalf => {
            let id = inv(0, 0, "retain");
            let mut m = m;
            m.retain(|kk, v| {
                let kk = kk.read().0;
                let keep = a == RetainAll || (kk ^ k) % 2 == 0;
                // A closure of `retain` decides about removals.
                cb(id, kk, v.read(), 0, if keep { "no" } else { "yes" });
                keep
            });
            ret(id, 0, 0, 0, "ok")
        }
        Iter => {
            let id = inv(0, 0, "iter");
            let mut it = m.iter();
            let mut n = 0;
            loop {
                l.borrow_mut().ev(E::Next, id, 0, 0, 0, "");
                let Some((kk, v)) = it.next() else { break };
                n += 1;
                let (kk, v) = (kk.read().0, v.read());
                l.borrow_mut().ev(E::Yield, id, kk as i32, v, 0, "");
            }
            ret(id, 0, n, 0, "ok")
        }
        Reserve => m.reserve(k as usize),
    }
}

struct Plan {
    cfg: Cfg,
    threads: usize,
    keys: u32,
    /// What all threads do, one phase after the other.
    phases: Vec<Phase>,
}

struct Phase {
    mix: Vec<(A, u64)>,
    /// The threads visit the same keys at about the same time.
    together: bool,
    steps: usize,
    seed: u64,
    special: Vec<(usize, usize, A)>,
}

fn plan(r: &mut Rng, threads: usize) -> Plan {
    use A::*;
    let mut cfg = seq::config(r);
    cfg.set = false;
    cfg.ctor = 0;
    cfg.hk = r.pick(&[0, 0, 4, 5]);
    cfg.chunk = r.pick(&[None, None, None, Some(1), Some(64), Some(1000)]);
    cfg.bchunk = 0;
    cfg.cap = r.pick(&[0, 0, 1, 3000, 6000]);
    let threads = if threads == 0 { r.pick(&[2usize, 3, 4, 6]) } else { threads };
    let keys = r.pick(&[300u32, 3500, 7000, 7000, 13000]);
    let mut phases = vec![];
    let n = r.pick(&[1u64, 2, 3]);
    for i in 0..n {
        let kind = if i == 0 { 0 } else { r.below(4) };
        let grow = vec![(Ins, 6), (TryIns, 2), (Goi, 1), (Uoi, 2), (CompIns, 2), (Get, 3), (Rem, 1)];
        let churn = vec![
            (Ins, 4), (TryIns, 2), (Goi, 1), (Upd, 3), (Uoi, 1), (CompIns, 2), (CompRem, 2), (Rem, 4), (RemIf, 2),
            (RemIfNot, 1), (Get, 3), (GetKv, 1), (Has, 1),
        ];
        let shrink = vec![(Rem, 8), (CompRem, 3), (RemIf, 3), (Upd, 2), (Get, 2), (Ins, 1)];
        let mix = match kind {
            0 => grow,
            1 | 2 => churn,
            _ => shrink,
        };
        let steps = keys as usize * 5 / 4 / if r.below(2) == 0 { threads } else { 1 };
        let special = (0..r.below(3))
            .map(|_| {
                let a = r.pick(&[Clear, RetainAll, RetainHalf, Iter, Iter, Reserve]);
                (r.below(threads as u64) as usize, r.below(steps as u64) as usize, a)
            })
            .collect();
        phases.push(Phase { mix, together: r.below(3) != 0, steps, seed: r.below(1 << 40), special });
    }
    Plan { cfg, threads, keys, phases }
}

fn run(p: &Plan) -> Vec<(u64, Ev)> {
    TICKET.store(0, SeqCst);
    NEXT_ID.store(1, SeqCst);
    NEXT_V.store(1, SeqCst);
    set_hash(p.cfg.hk, p.cfg.hs);
    let mut b = HashMap::<K, V>::builder().hasher(Bh).capacity(p.cfg.cap).resize_mode(mode(&p.cfg));
    if p.cfg.batch > 0 {
        b = b.collector(seize::Collector::new().batch_size(p.cfg.batch));
    }
    let m: M = b.build();
    let barrier = Barrier::new(p.threads);
    let front: Vec<AtomicUsize> = p.phases.iter().map(|_| AtomicUsize::new(0)).collect();
    let work = |t: usize| {
        let mut log = Log { t: t as u8, evs: vec![] };
        let cell = std::cell::RefCell::new(&mut log);
        for (i, ph) in p.phases.iter().enumerate() {
            barrier.wait();
            let mut r = Rng(ph.seed ^ (t as u64) << 50);
            let mut at = r.below(p.keys as u64) as usize;
            for s in 0..ph.steps {
                let k = if ph.together {
                    // Stay near the other threads.
                    let f = front[i].load(SeqCst);
                    let x = if s + 2 < f && r.below(4) != 0 { f } else { s };
                    front[i].fetch_max(x, SeqCst);
                    (x + ph.seed as usize) % p.keys as usize
                } else {
                    at += 1 + r.below(2) as usize;
                    at % p.keys as usize
                };
                for (tt, ss, a) in &ph.special {
                    if *tt == t && *ss == s {
                        op(&m, &cell, *a, k as u32);
                    }
                }
                let a = r.weighted(&ph.mix);
                op(&m, &cell, a, k as u32);
            }
        }
        log.evs
    };
    let mut all: Vec<(u64, Ev)> = vec![];
    if p.threads == 1 {
        all.extend(work(0));
    } else {
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..p.threads).map(|t| { let work = &work; s.spawn(move || work(t)) }).collect();
            for h in hs {
                match h.join() {
                    Ok(l) => all.extend(l),
                    Err(e) => std::panic::resume_unwind(e),
                }
            }
        });
    }
    let mut log = Log { t: 0, evs: vec![] };
    {
        let cell = std::cell::RefCell::new(&mut log);
        for k in 0..p.keys {
            op(&m, &cell, A::GetKv, k);
        }
        op(&m, &cell, A::Iter, 0);
    }
    all.extend(log.evs);
    all.sort_by_key(|x| x.0);
    all
}

/// The events of every key: its own, and those of the operations on all keys.
fn split(p: &Plan, all: &[(u64, Ev)]) -> Vec<Vec<Ev>> {
    let mut of: Vec<Vec<(u64, Ev)>> = (0..p.keys).map(|_| vec![(0, Ev { e: E::Phase, t: 0, id: 1, k: 0, a: 0, b: 0, c: 0, s: "" })]).collect();
    let mut sweeps: Vec<(u64, Ev)> = vec![];
    let mut ids = std::collections::HashSet::new();
    let mut next: std::collections::HashMap<i32, (u64, Ev)> = Default::default();
    for (n, e) in all {
        match e.e {
            E::Inv if matches!(e.s, "clear" | "retain" | "iter") => {
                ids.insert(e.id);
                sweeps.push((*n, *e));
            }
            E::Ret if ids.contains(&e.id) => sweeps.push((*n, *e)),
            E::Next => {
                next.insert(e.id, (*n, *e));
            }
            E::Yield => {
                if let Some(o) = of.get_mut(e.k as usize) {
                    o.push(next[&e.id]);
                    o.push((*n, *e));
                }
            }
            _ => {
                if let Some(o) = of.get_mut(e.k as usize) {
                    o.push((*n, *e));
                }
            }
        }
    }
    of.into_iter()
        .map(|mut o| {
            o.extend(sweeps.iter().copied());
            o.sort_by_key(|x| x.0);
            o.into_iter().map(|x| x.1).collect()
        })
        .collect()
}

#[allow(clippy::too_many_arguments)]
pub fn go(threads: usize, seed: u64, shard: u64, shards: u64, time: f64, out: &str, cap: usize) {
    papaya::verif::install(&seq::Tables);
    let progress = seq::watchdog(60);
    let t0 = std::time::Instant::now();
    let mut w = std::io::BufWriter::new(std::fs::File::create(format!("{out}/key.{shard}.ndjson")).unwrap());
    let mut cur = Current::new(out, shard);
    let mut seen = std::collections::HashSet::new();
    let (mut idx, mut runs, mut calls, mut keys, mut written, mut suspects) = (shard, 0u64, 0u64, 0u64, 0usize, 0usize);
    while t0.elapsed().as_secs_f64() < time || runs == 0 {
        cur.set(idx);
        progress.fetch_add(1, SeqCst);
        let p = plan(&mut rng("native", seed, idx), threads);
        let all = run(&p);
        seq::TABLE_LOG.lock().unwrap().clear();
        runs += 1;
        calls += all.iter().filter(|e| e.1.e == E::Inv).count() as u64;
        let part = (t0.elapsed().as_secs_f64() / time).min(1.0);
        let limit = ((cap as f64 * part) as usize + 50).min(cap);
        for (k, evs) in split(&p, &all).into_iter().enumerate() {
            if k % 64 == 0 && t0.elapsed().as_secs_f64() > time * 1.3 {
                break;
            }
            keys += 1;
            let Some(t) = proj::key_trace(&evs, k as u32) else { continue };
            let h = proj::hash_trace(&t);
            if !seen.insert(h) {
                continue;
            }
            let bad = suspects < 40 && screen::key(&t);
            suspects += bad as usize;
            if bad || written < limit {
                written += 1;
                writeln!(w, "{}", json!({"p": idx, "k": k, "h": h, "f": bad, "t": t})).unwrap();
            }
        }
        idx += shards;
    }
    w.flush().unwrap();
    let _ = hash_of(0);
    let st = json!({"runs": runs, "steps": calls, "keys": keys, "distinct": seen.len(), "written": written, "suspects": suspects});
    std::fs::write(format!("{out}/stats.{shard}"), st.to_string()).unwrap();
}
