//! Histories that TLC generates (`SeqGen`), run from many physical states of the map that all have
//! the same content: tables that are full, that have tombstones, that are being resized.

use crate::seq::{self, *};
use serde_json::json;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::Write;
use std::sync::atomic::Ordering;

/// Keys from here on are only used to fill the table.
const FILLER: u32 = 10;

/// A physical state: a configuration, and the calls that lead to it.
fn setup(r: &mut Rng, set: bool) -> SProg {
    let cfg = Cfg {
        chunk: r.pick(&[None, None, Some(1), Some(1), Some(1), Some(2), Some(3), Some(64)]),
        cap: r.pick(&[0, 1, 1, 6, 6, 6, 7, 12, 24]),
        hk: r.pick(&[0, 0, 0, 1, 2, 3, 4, 7]),
        hs: r.below(1 << 20),
        batch: r.pick(&[0, 1, 4]),
        set,
        ctor: 0,
        bchunk: r.pick(&[0, 1, 1, 2, 3]),
    };
    let (ins, rem) = if set { (SINS, SREM) } else { (INS, REM) };
    let op = |o: i64, k: u32| SOp { o, k, v: if o == INS { k + 1 } else { 0 }, ..Default::default() };
    let n = r.pick(&[0u32, 0, 1, 3, 5, 6, 7, 8, 9, 10, 11, 13, 18]);
    let mut ops: Vec<SOp> = (0..n).map(|i| op(ins, FILLER + i)).collect();
    for k in 0..2 {
        let state = r.below(4);
        if state > 0 {
            let at = r.below(ops.len() as u64 + 1) as usize;
            ops.insert(at, op(ins, k));
            if state == 1 {
                let at = at + 1 + r.below((ops.len() - at) as u64) as usize;
                ops.insert(at, op(rem, k));
            }
        }
    }
    let dead = r.below(n as u64 + 1) as u32;
    if r.below(2) == 0 {
        for i in 0..dead {
            ops.push(op(rem, FILLER + i));
        }
    }
    if r.below(6) == 0 {
        let at = r.below(ops.len() as u64 + 1) as usize;
        ops.insert(at, SOp { o: RESERVE, d: r.pick(&[1, 10, 100, -1]), ..Default::default() });
    }
    let pre = ops.len();
    SProg { cfg, ops, pre }
}

/// Replaces the prefix by the content that it leads to, and leaves out the fillers, which are there
/// to fill the table: only calls for all keys refer to them, and what those do is easy to tell.
/// Returns nothing if the prefix or a filler is not as it should be.
fn summary(p: &SProg, log: &[SEv]) -> Option<Vec<SEv>> {
    let set = p.cfg.set;
    let mut m: BTreeMap<u32, u32> = BTreeMap::new();
    if log.len() != p.ops.len() + 1 {
        return None;
    }
    for (op, e) in p.ops[..p.pre].iter().zip(log) {
        let want: Vec<i64> = match op.o {
            INS => vec![m.insert(op.k, op.v).map_or(0, |v| v as i64)],
            REM => vec![m.remove(&op.k).map_or(0, |v| v as i64)],
            SINS => vec![m.insert(op.k, 0).is_none() as i64],
            SREM => vec![m.remove(&op.k).is_some() as i64],
            RESERVE if op.d < 0 => vec![-1],
            _ => vec![],
        };
        if e.r != want {
            return None;
        }
    }
    let mut fill: Vec<[i64; 3]> =
        m.iter().filter(|x| *x.0 >= FILLER).map(|x| [*x.0 as i64, 1000 + *x.0 as i64, *x.1 as i64]).collect();
    m.retain(|k, _| *k < FILLER);
    let q = m.iter().map(|x| [*x.0 as i64, 1000 + *x.0 as i64, if set { 0 } else { *x.1 as i64 }]).collect();
    let mut out = vec![SEv { o: FROMITER, m: 1, k: 0, ko: 0, v: 0, d: 0, r: vec![], c: vec![], l: vec![], q }];
    for e in &log[p.pre..] {
        let mut e = e.clone();
        let filler = |x: &[i64; 3]| match e.o {
            // Values of fillers are different from all others.
            VALUES_ => x[2] > FILLER as i64 && x[2] < 100,
            _ => x[0] >= FILLER as i64,
        };
        let mut mine: Vec<[i64; 3]> = e.l.iter().copied().filter(filler).collect();
        mine.sort();
        e.l.retain(|x| !filler(x));
        e.l.sort_by_key(|x| x[0]);
        let n = fill.len() as i64;
        let fine = match e.o {
            ITER => mine == fill,
            KEYS_ => mine.iter().map(|x| [x[0], x[1]]).eq(fill.iter().map(|x| [x[0], x[1]])),
            VALUES_ => mine.iter().map(|x| x[2]).eq(fill.iter().map(|x| x[2])),
            LEN => {
                if let [x] = &mut e.r[..] {
                    *x -= n;
                }
                e.r.len() == 1
            }
            ISEMPTY if n > 0 => {
                if e.r != [0] {
                    return None;
                }
                continue;
            }
            CLEAR => {
                fill.clear();
                true
            }
            RETAIN => {
                let fine = fill.iter().map(|x| [x[0], decide(e.d, x[0], x[2]) as i64, x[2]]).eq(mine.iter().copied());
                fill.retain(|x| decide(e.d, x[0], x[2]));
                fine
            }
            _ => true,
        };
        if !fine {
            return None;
        }
        out.push(e);
    }
    Some(out)
}

fn program(inputs: &[[i64; 3]], set: bool, seed: u64, i: u64, j: u64) -> SProg {
    let mut r = seq::rng("tour", seed, i << 20 ^ j);
    let mut p = setup(&mut r, set);
    for (n, [o, k, d]) in inputs.iter().enumerate() {
        p.ops.push(SOp { o: *o, k: *k as u32, v: 100 + n as u32, d: *d, api: r.below(4) as u8, ..Default::default() });
    }
    for k in 0..3 {
        p.ops.push(SOp { o: if set { SGET } else { GETKV }, k, ..Default::default() });
    }
    p.ops.push(SOp { o: ITER, api: 1, ..Default::default() });
    p.ops.push(SOp { o: LEN, ..Default::default() });
    p
}

fn hash(t: &[serde_json::Value]) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    for x in t {
        x.to_string().hash(&mut h);
    }
    h.finish()
}

/// The histories, and whether they are of a set.
fn load(file: &str) -> Vec<(bool, Vec<[i64; 3]>)> {
    std::fs::read_to_string(file)
        .unwrap()
        .lines()
        .map(|l| {
            let v: serde_json::Value = serde_json::from_str(l).unwrap();
            (v[0].as_i64() == Some(1), serde_json::from_value(v[1].clone()).unwrap())
        })
        .collect()
}

/// Prints the program of an index.
pub fn show(file: &str, seed: u64, idx: u64) {
    let all = load(file);
    let (set, inputs) = &all[(idx & 0xFFFFF) as usize];
    println!("{}", serde_json::to_string(&program(inputs, *set, seed, idx & 0xFFFFF, idx >> 20)).unwrap());
}

pub fn go(file: &str, seed: u64, shard: u64, shards: u64, time: f64, out: &str, cap: u64) {
    papaya::verif::install(&Tables);
    let progress = watchdog(30);
    let t0 = std::time::Instant::now();
    let mut w = std::io::BufWriter::new(std::fs::File::create(format!("{out}/seq.{shard}.ndjson")).unwrap());
    let mut cur = Current::new(out, shard);
    let all = load(file);
    let mut seen: HashSet<u64> = HashSet::new();
    // Equal calls on equal contents return the same: other histories come first.
    let mut usual: HashMap<(u64, u64), u64> = HashMap::new();
    let mut odd = 0;
    let (mut runs, mut events, mut rounds) = (0u64, 0u64, 0u64);
    'all: for j in 0.. {
        for i in (shard..all.len() as u64).step_by(shards as usize) {
            if runs % 64 == 0 && t0.elapsed().as_secs_f64() > time {
                break 'all;
            }
            let (set, inputs) = &all[i as usize];
            let p = program(inputs, *set, seed, i, j);
            cur.set(j << 20 | i);
            progress.fetch_add(1, Ordering::Relaxed);
            let log = seq::run(&p);
            crate::obj::release_quarantine();
            runs += 1;
            events += log.len() as u64;
            let sum = summary(&p, &log);
            let bad = sum.is_none();
            let t: Vec<_> = sum.unwrap_or(log).iter().map(|e| e.json()).collect();
            let h = hash(&t);
            let fillers = p.ops[..p.pre].iter().any(|o| o.k >= FILLER) as u64;
            let strange = *usual.entry((i, hash(&t[..1]) ^ fillers)).or_insert(h) != h;
            if seen.insert(h) && (bad || strange || (seen.len() as u64) < cap) && odd < 200 {
                odd += (bad || strange) as u32;
                writeln!(w, "{}", json!({"p": j << 20 | i, "n": t.len(), "f": bad || strange, "t": t})).unwrap();
            }
        }
        rounds = j + 1;
    }
    w.flush().unwrap();
    std::fs::write(
        format!("{out}/stats.{shard}"),
        json!({"runs": runs, "steps": events, "rounds": rounds, "distinct": seen.len(), "odd": odd}).to_string(),
    )
    .unwrap();
}
