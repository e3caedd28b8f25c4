//! Projections of the log of a run to the traces that the specifications judge.

use crate::sched::{Ev, Raw, E};
use std::collections::{HashMap, HashSet};

pub type Row = [i32; 6];
pub type Trace = Vec<Row>;

pub fn opcode(s: &str) -> i32 {
    const NAMES: &[&str] = &[
        "get", "getkv", "has", "ins", "tryins", "tryinsw", "goi", "goiw", "upd", "uoi", "uoiw", "comp", "rem", "reme",
        "remif", "clear", "retain", "iter", "keys", "values", "len", "isempty", "reserve", "sins", "srem",
    ];
    NAMES.iter().position(|n| *n == s).map_or(0, |i| i as i32 + 1)
}

fn kind(s: &str) -> i32 {
    match s {
        "ok" => 0,
        "err" => 1,
        "ins" => 2,
        "upd" => 3,
        "rem" => 4,
        "abort" => 5,
        "injected" => 6,
        "refused" => 8,
        _ => 7,
    }
}

fn dec(s: &str) -> i32 {
    match s {
        "ins" => 1,
        "rem" => 2,
        "abort" => 3,
        "yes" => 4,
        "no" => 5,
        _ => 6,
    }
}

const CLEAR: i32 = 16;
const RETAIN: i32 = 17;
const ITER: i32 = 18;
const VALUES: i32 = 20;

/// The history of one key, or `None` if it is trivial.
pub fn key_trace(log: &[Ev], key: u32) -> Option<Trace> {
    // (row, thread)
    let mut rows: Vec<(Row, u8)> = Vec::with_capacity(32);
    let mut info: HashMap<i32, (i32, u8)> = HashMap::new(); // id -> (opcode, thread)
    let mut concurrent = false;
    let mut next_at: HashMap<i32, usize> = HashMap::new(); // iterator -> row index of the latest `next`
    let mut mark: HashMap<i32, i32> = HashMap::new(); // iterator -> mark of the previous yield of the key
    let mut marks = 0;
    let mut insertions: Vec<(usize, Row, u8)> = vec![]; // marks to insert at a position
    let mut nontrivial = false;
    for e in log {
        match e.e {
            E::Phase if e.id == 1 => concurrent = true,
            E::Phase if e.id == 2 => concurrent = false,
            E::Inv => {
                let op = opcode(e.s);
                let sweep = (CLEAR..=VALUES).contains(&op);
                if op == 0 || op > 25 || (op >= 21 && op <= 23) {
                    continue;
                }
                if !sweep && e.k != key as i32 {
                    continue;
                }
                info.insert(e.id, (op, e.t));
                if concurrent {
                    nontrivial = true;
                }
                rows.push(([1, e.id, op, e.a as i32, 0, e.b as i32], e.t));
            }
            E::Ret if info.contains_key(&e.id) => {
                rows.push(([2, e.id, kind(e.s), e.a as i32, e.b as i32, 0], e.t));
            }
            E::Cb if e.k == key as i32 && info.contains_key(&e.id) => {
                rows.push(([3, e.id, e.a as i32, e.b as i32, dec(e.s), 0], e.t));
            }
            E::Next => {
                next_at.insert(e.id, rows.len());
            }
            E::Yield if e.k == key as i32 => {
                let prev = mark.get(&e.id).copied().unwrap_or(0);
                rows.push(([4, e.id, e.a as i32, e.b as i32, prev, 0], e.t));
                marks += 1;
                let m = 100_000 + marks;
                mark.insert(e.id, m);
                insertions.push((next_at[&e.id], [5, m, e.id, 0, 0, 0], e.t));
            }
            _ => {}
        }
    }
    if !nontrivial {
        return None;
    }
    // Only keep the marks that a later yield refers to.
    for (at, row, t) in insertions.into_iter().rev() {
        if rows.iter().any(|r| r.0[0] == 4 && r.0[4] == row[1]) {
            rows.insert(at, (row, t));
        }
    }
    // Canonical order within runs of invocations and of results.
    let mut i = 0;
    while i < rows.len() {
        let k = rows[i].0[0];
        let mut j = i + 1;
        if k <= 2 {
            while j < rows.len() && rows[j].0[0] == k {
                j += 1;
            }
            rows[i..j].sort_by_key(|(r, t)| (*t, info[&r[1]].0, r[1]));
        }
        i = j;
    }
    // Renumber operations and values.
    let mut ids: HashMap<i32, i32> = HashMap::new();
    let mut vals: HashMap<i32, i32> = HashMap::new();
    vals.insert(0, 0);
    let mut id = |x: i32| -> i32 {
        let n = ids.len() as i32 + 1;
        *ids.entry(x).or_insert(n)
    };
    let mut val = |x: i32| -> i32 {
        if x < 0 {
            return -1;
        }
        let n = vals.len() as i32;
        *vals.entry(x).or_insert(n)
    };
    let mut out: Trace = Vec::with_capacity(rows.len() + 1);
    for (r, _) in &rows {
        let mut n = *r;
        n[1] = id(r[1]);
        match r[0] {
            1 => {
                n[3] = val(r[3]);
                n[5] = 0;
            }
            2 => {
                let op = info[&r[1]].0;
                match op {
                    // booleans and numbers
                    3 | 16..=20 | 24 | 25 => {
                        if (16..=20).contains(&op) {
                            n[3] = 0;
                        }
                    }
                    // a value, and whether the key returned is wrong
                    2 | 14 | 15 => n[3] = val(r[3]),
                    12 if r[2] == 5 => {}
                    _ => {
                        n[3] = val(r[3]);
                        n[4] = val(r[4]);
                    }
                }
            }
            3 => {
                n[2] = val(r[2]);
                n[3] = val(r[3]);
            }
            4 => {
                if r[3] == 0 {
                    n[2] = val(r[2]);
                }
                if r[4] != 0 {
                    n[4] = id(r[4]);
                }
            }
            _ => {
                n[2] = id(r[2]);
            }
        }
        out.push(n);
    }
    // Link invocations to their results.
    for i in 0..out.len() {
        if out[i][0] == 1 {
            if let Some(j) = out.iter().position(|r| r[0] == 2 && r[1] == out[i][1]) {
                out[i][4] = j as i32 + 1;
            }
        }
    }
    out.push([9, 0, 0, 0, 0, 0]);
    Some(out)
}

pub fn hash_trace(t: &[Row]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for r in t {
        for x in r {
            h ^= *x as u32 as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
    }
    h
}

fn may_insert(op: i32) -> bool {
    matches!(op, 4..=8 | 10..=12 | 24)
}

fn modifies(op: i32) -> bool {
    matches!(op, 4..=17 | 24 | 25)
}

/// What the calls of `len` and `is_empty` returned, and what they should have returned.
/// [1, id, may insert, modifies] invocation; [2, id, change of the length, known] result;
/// [3, id] invocation of len or is_empty; [4, id, 0 len 1 is_empty, result] its result;
/// [5, present] a key found by the final lookups; [9] end.
pub fn len_trace(log: &[Ev]) -> Trace {
    let mut rows = vec![];
    let mut info: HashMap<i32, i32> = HashMap::new();
    let mut phase = 0;
    for e in log {
        match e.e {
            E::Phase => {
                phase = e.id;
                rows.push([6, phase, 0, 0, 0, 0]);
            }
            E::Inv => {
                let op = opcode(e.s);
                info.insert(e.id, op);
                if modifies(op) {
                    rows.push([1, e.id, may_insert(op) as i32, 0, 0, 0]);
                } else if op == 21 || op == 22 {
                    rows.push([3, e.id, 0, 0, 0, 0]);
                }
            }
            E::Ret => {
                let op = info[&e.id];
                let k = kind(e.s);
                if op == 21 || op == 22 {
                    rows.push([4, e.id, op - 21, e.a as i32, 0, 0]);
                } else if modifies(op) {
                    let d = match op {
                        4 => Some((e.a == 0) as i32),
                        5 | 6 => Some((k == 0) as i32),
                        9 => Some(0),
                        12 => Some(match k {
                            2 => 1,
                            4 => -1,
                            _ => 0,
                        }),
                        13 | 14 => Some(-((e.a != 0) as i32)),
                        15 => Some(-((e.a != 0 && k == 0) as i32)),
                        24 => Some(e.a as i32),
                        25 => Some(-(e.a as i32)),
                        _ => None,
                    };
                    let d = if k >= 6 { None } else { d };
                    rows.push([2, e.id, d.unwrap_or(0), d.is_some() as i32, 0, 0]);
                } else if phase == 2 && op <= 2 {
                    rows.push([5, (e.a != 0) as i32, 0, 0, 0, 0]);
                }
            }
            _ => {}
        }
    }
    rows.push([9, 0, 0, 0, 0, 0]);
    renumber(&mut rows, |r| matches!(r[0], 1..=4), 1);
    rows
}

fn renumber(rows: &mut [Row], f: impl Fn(&Row) -> bool, col: usize) {
    let mut ids: HashMap<i32, i32> = HashMap::new();
    for r in rows.iter_mut() {
        if f(r) {
            let n = ids.len() as i32 + 1;
            r[col] = *ids.entry(r[col]).or_insert(n);
        }
    }
}

/// The life of every object and table.
/// [1, oid] new; [2, section, oid] a reference was returned; [3, section] guard ends;
/// [4, oid] dropped; [5, oid] a dead or changed object was read; [6, table] allocated;
/// [7, table] freed; [8, table] a freed table was accessed; [9, leaked, balance, a call panicked] end.
pub fn reclaim_trace(log: &[Ev], check_balance: bool) -> Trace {
    let mut rows = vec![];
    // Entries and tables that were read after they were retired.
    let read: HashSet<i64> = log.iter().filter(|e| e.e == E::RRead).map(|e| e.a).collect();
    for e in log {
        match e.e {
            E::GBegin if !read.is_empty() => rows.push([11, e.id, e.t as i32 + 1, 0, 0, 0]),
            E::Retire if read.contains(&e.a) => rows.push([10, e.a as i32 + 1, 0, 0, 0, 0]),
            E::RRead => rows.push([12, e.a as i32 + 1, e.t as i32 + 1, 0, 0, 0]),
            E::New => rows.push([1, e.a as i32, 0, 0, 0, 0]),
            E::Ref => rows.push([2, e.id, e.a as i32, 0, 0, 0]),
            E::GEnd => rows.push([3, e.id, 0, 0, 0, 0]),
            E::Drop => rows.push([4, e.a as i32, 0, 0, 0, 0]),
            E::Touch => rows.push([5, e.a as i32, 0, 0, 0, 0]),
            E::RAlloc => rows.push([6, e.a as i32 + 1, 0, 0, 0, 0]),
            E::RFree => rows.push([7, e.a as i32 + 1, 0, 0, 0, 0]),
            E::RAccess => rows.push([8, e.a as i32 + 1, 0, 0, 0, 0]),
            E::Phase if e.id == 4 => {}
            _ => {}
        }
    }
    if let Some(e) = log.iter().rev().find(|e| e.e == E::Phase) {
        let bal = if check_balance { e.a as i32 } else { 0 };
        rows.push([9, e.k, bal, !check_balance as i32, 0, 0]);
    }
    let mut ids: HashMap<i32, i32> = HashMap::new();
    for r in rows.iter_mut() {
        if matches!(r[0], 2 | 3 | 11) {
            let n = ids.len() as i32 + 1;
            r[1] = *ids.entry(r[1]).or_insert(n);
        }
    }
    rows
}

/// What every operation waited for and how many steps it took.
/// [1, id, op] invocation; [2, id, op, kind] result; [3, id] the operation waited;
/// [4, id, op, steps] its steps; [5] a table was allocated; [6] the run got stuck;
/// [7, id] a callback; [9] end.
pub fn progress_trace(log: &[Ev]) -> Trace {
    let mut rows = vec![];
    let mut info: HashMap<i32, i32> = HashMap::new();
    for e in log {
        match e.e {
            E::Inv => {
                let op = opcode(e.s);
                info.insert(e.id, op);
                rows.push([1, e.id, op, 0, 0, 0]);
            }
            E::Ret => rows.push([2, e.id, info[&e.id], kind(e.s), 0, 0]),
            E::Wait => rows.push([3, e.id, 0, 0, 0, 0]),
            E::Steps => rows.push([4, e.id, info.get(&e.id).copied().unwrap_or(0), e.a as i32, 0, 0]),
            E::RAlloc => rows.push([5, e.a as i32 + 1, 0, 0, 0, 0]),
            E::RRetire | E::RFree => rows.push([7, e.a as i32 + 1, 0, 0, 0, 0]),
            E::Stuck => rows.push([6, 0, 0, 0, 0, 0]),
            _ => {}
        }
    }
    rows.push([9, 0, 0, 0, 0, 0]);
    renumber(&mut rows, |r| matches!(r[0], 1..=4) && r[1] != 0, 1);
    renumber(&mut rows, |r| matches!(r[0], 5 | 7), 1);
    // Exact step counts only matter for lookups.
    for r in rows.iter_mut() {
        if r[0] == 4 && !matches!(r[2], 1 | 2 | 3 | 21 | 22) {
            r[3] = 0;
        }
    }
    rows
}

/// The synchronization operations of a run.
pub fn hb_trace(raw: &[Raw]) -> Trace {
    raw.iter()
        .map(|r| [r.kind as i32, r.t as i32 + 1, r.ord as i32, r.loc as i32, 0, 0])
        .collect()
}
