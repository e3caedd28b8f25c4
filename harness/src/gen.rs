//! Generators of programs, one profile per group of properties.

use crate::prog::{Cfg, Op, Program, Thr, HUGE, O};
use crate::sched::splitmix;

pub struct Rng(pub u64);
impl Rng {
    pub fn n(&mut self, n: usize) -> usize {
        (splitmix(&mut self.0) % n.max(1) as u64) as usize
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.n(v.len())].clone()
    }
    pub fn chance(&mut self, percent: usize) -> bool {
        self.n(100) < percent
    }
}

/// Keys from here on are fillers.
pub const FILL: u32 = 8;

const LOOK: &[O] = &[O::Get, O::GetKv, O::Has];
const BASIC: &[O] = &[O::Ins, O::Ins, O::Rem, O::RemE];
const ATOMIC: &[O] = &[O::Upd, O::Uoi, O::Uoiw, O::Comp, O::Comp];
const ABSENT: &[O] = &[O::TryIns, O::TryInsW, O::Goi, O::Goiw];
const COND: &[O] = &[O::RemIf, O::RemIf, O::Comp];
const ITER: &[O] = &[O::Iter, O::Iter, O::Keys, O::Values];

fn scheme(r: &mut Rng, n: u32) -> Vec<u64> {
    let s = r.n(6);
    (0..n as u64)
        .map(|i| match s {
            0 | 1 => i | ((i * 37 % 127) << 57),
            2 => (127 - i % 128) << 57,
            3 => 0,
            4 => (i % 2) * 3 | ((i / 2 % 128) << 57),
            _ => {
                let mut x = i * 7919 + r.0 % 97;
                splitmix(&mut x)
            }
        })
        .collect()
}

fn cfg(r: &mut Rng, set: bool) -> Cfg {
    Cfg {
        chunk: r.pick(&[None, None, Some(1), Some(1), Some(2), Some(3), Some(64), Some(1 << 63)]),
        cap: r.pick(&[0, 1, 3, 6, 6, 6, 6, 7, 12]),
        hashes: scheme(r, 64),
        batch: r.pick(&[1, 1, 1, 0, 3]),
        shards: r.pick(&[1, 1, 2, 2, 4]),
        bchunk: r.pick(&[0, 0, 1, 2, 3]),
        set,
    }
}

/// One operation of the given kind.
fn mk(r: &mut Rng, o: O, k: u32) -> Op {
    let mut op = Op::new(o, k);
    match o {
        O::Comp => op.p = r.pick(&[0, 0, 0, 1, 1, 1, 2, 3, 3, 4, 4, 5, 5, 7, 7, 8, 9]),
        O::RemIf => op.p = r.pick(&[0, 0, 1, 2, 2, 3, 4]),
        O::Retain => op.p = r.pick(&[0, 1, 2, 2, 3, 4, 5 + k]),
        O::Reserve => op.p = r.pick(&[1, 4, 7, 13, 30, HUGE]),
        _ => {}
    }
    op
}

/// The state that the threads start from.
fn shape(r: &mut Rng, cfg: &mut Cfg, focus: u32, resize: bool) -> (Vec<Op>, u32) {
    let mut pre = vec![];
    let ins = |k| Op::new(O::Ins, k);
    let rem = |k| Op::new(O::Rem, k);
    let mut fill = FILL;
    if resize || r.chance(35) {
        // Fill a table of eight slots with entries and tombstones.
        cfg.cap = r.pick(&[1, 3, 6, 6]);
        let used = if resize { r.pick(&[6, 7, 7, 8, 8, 8, 9, 9]) } else { r.pick(&[3, 5, 6, 7, 8]) };
        let small = cfg.cap == 1;
        let used: u32 = if small { used / 4 + 1 } else { used };
        let mut n = 0;
        for k in 0..focus {
            if r.chance(60) && n < used {
                pre.push(ins(k));
                n += 1;
                if r.chance(25) {
                    pre.push(rem(k));
                }
            }
        }
        let dead = r.pick(&[0, 0, 2, 4, 6, 8]);
        while n < used {
            pre.push(ins(fill));
            if (fill - FILL) < dead {
                pre.push(rem(fill));
            }
            fill += 1;
            n += 1;
        }
        if r.chance(20) {
            pre.push(ins(fill));
            fill += 1;
        }
    } else {
        for k in 0..focus {
            if r.chance(55) {
                pre.push(ins(k));
                if r.chance(25) {
                    pre.push(rem(k));
                }
            }
        }
    }
    // The order in which keys were inserted matters to their slots.
    (pre, fill)
}

/// A full table of the smallest size (8 slots): the next one (16 slots) can fill up while the
/// entries are still being moved there.
fn nest(r: &mut Rng, cfg: &mut Cfg, focus: u32) -> (Vec<Op>, u32) {
    cfg.cap = 1;
    cfg.chunk = Some(r.pick(&[1, 1, 1, 2, 4]));
    let mut pre: Vec<Op> = (0..focus).map(|k| Op::new(O::Ins, k)).collect();
    let mut fill = FILL;
    while pre.len() < r.pick(&[6, 7, 7, 8]) {
        pre.push(Op::new(O::Ins, fill));
        fill += 1;
    }
    (pre, fill)
}

/// A table with so few entries that it shrinks, and so many equal hashes that the smaller table
/// cannot take them.
fn collide(r: &mut Rng, cfg: &mut Cfg, focus: u32) -> (Vec<Op>, u32) {
    cfg.cap = 1;
    cfg.hashes = (0..128u64).map(|i| (i % 128) << 57).collect();
    let mut pre = vec![Op::new(O::Ins, FILL), Op::new(O::Reserve, 300)];
    for k in 0..focus {
        pre.push(Op::new(O::Ins, k));
    }
    let mut fill = FILL + 1;
    // 46 slots can be probed in a table of 512 slots, 41 in one of 256.
    while fill - FILL < 46 - focus {
        pre.push(Op::new(O::Ins, fill));
        fill += 1;
    }
    let dead = r.pick(&[1, 2, 3, 4, 5]);
    for i in 0..dead {
        pre.push(Op::new(O::Rem, FILL + 1 + 2 * i));
    }
    (pre, fill)
}

/// Several threads wait for several entries that others copy.
fn waiters(r: &mut Rng, mut cfg: Cfg, name: String) -> Program {
    cfg.cap = r.pick(&[3, 6, 6]);
    cfg.chunk = Some(r.pick(&[1, 1, 1, 2, 3]));
    let small = cfg.cap == 3;
    let mut pre = vec![];
    let mut fill = FILL;
    let focus = r.pick(&[2, 2, 3]);
    for k in 0..focus {
        pre.push(Op::new(O::Ins, k));
    }
    for _ in focus..if small { 4 } else { r.pick(&[7, 8, 8]) } {
        pre.push(Op::new(O::Ins, fill));
        fill += 1;
    }
    let nt = r.pick(&[3, 4, 4]);
    let mut threads = vec![];
    for t in 0..nt {
        let mut ops = vec![];
        if t == 0 || t == 3 || r.chance(20) {
            for _ in 0..r.pick(&[2, 4, 6]) {
                ops.push(Op::new(O::Ins, fill));
                fill += 1;
            }
        } else {
            for _ in 0..r.pick(&[1, 2, 3]) {
                let k = r.n(focus as usize) as u32;
                let o = r.pick(&[O::Ins, O::Upd, O::Rem, O::Goi, O::Upd, O::RemIf, O::Iter, O::Clear, O::Retain]);
                ops.push(mk(r, o, k));
            }
        }
        threads.push(Thr { api: 0, hold: false, ops });
    }
    Program { name, cfg, pre, threads, solo: false }
}

pub fn program(profile: &str, seed: u64, idx: u64) -> Program {
    let mut x = seed
        .wrapping_mul(0x9E3779B97F4A7C15)
        .wrapping_add(idx.wrapping_mul(0xD1B54A32D192ED03));
    for b in profile.bytes() {
        x = x.wrapping_mul(31).wrapping_add(b as u64);
    }
    splitmix(&mut x);
    let r = &mut Rng(x);
    let set = profile == "set";
    let mut cfg = cfg(r, set);
    if matches!(profile, "progress") && r.chance(20) {
        return waiters(r, cfg, format!("{profile}-{seed}-{idx}"));
    }
    let resize = match profile {
        "resize" => true,
        "iter" | "sweep" | "reclaim" | "progress" | "lookup" | "hb" => r.chance(60),
        _ => r.chance(30),
    };
    let focus = match profile {
        "iter" | "sweep" => r.pick(&[1, 2, 3]),
        _ => r.pick(&[1, 1, 1, 2]),
    };
    // A resize that starts before the previous one is finished.
    let nested = resize && cfg.chunk.is_some() && r.chance(if profile == "reclaim" { 30 } else { 15 });
    // A resize to a smaller table that has to be given up.
    let abort = resize && !nested && matches!(profile, "resize" | "progress" | "panic") && r.chance(3);
    let (pre, mut fill) = if nested {
        nest(r, &mut cfg, focus)
    } else if abort {
        collide(r, &mut cfg, focus)
    } else {
        shape(r, &mut cfg, focus, resize)
    };
    let nt = if nested { r.pick(&[2, 3, 3, 3]) } else { r.pick(&[2, 2, 2, 3]) };
    let mut threads = vec![];
    let mut faulty = false;
    for t in 0..nt {
        let n = match nt {
            2 => r.pick(&[1, 2, 2, 3]),
            _ => r.pick(&[1, 1, 2]),
        };
        let mut ops = vec![];
        for i in 0..n {
            let k = r.n(focus as usize) as u32;
            let op = if set {
                match r.n(12) {
                    0..=3 => mk(r, O::Ins, k),
                    4..=6 => mk(r, O::Rem, k),
                    7 => mk(r, O::Get, k),
                    8 => mk(r, O::Has, k),
                    9 => mk(r, O::Iter, 0),
                    10 => mk(r, O::Retain, k),
                    _ => mk(r, O::Clear, 0),
                }
            } else {
                let special: O = match profile {
                    "lookup" => {
                        if t == 0 {
                            r.pick(LOOK)
                        } else {
                            let s = r.pick(&[BASIC, BASIC, ATOMIC, ABSENT, COND]);
                            r.pick(s)
                        }
                    }
                    "handover" => r.pick(BASIC),
                    "atomic" => {
                        if t == 0 || r.chance(60) {
                            r.pick(ATOMIC)
                        } else {
                            r.pick(BASIC)
                        }
                    }
                    "absent" => {
                        if t == 0 || r.chance(70) {
                            r.pick(ABSENT)
                        } else {
                            let s = r.pick(&[BASIC, COND]);
                            r.pick(s)
                        }
                    }
                    "cond" => {
                        if t == 0 {
                            r.pick(&[O::RemIf, O::RemIf, O::Comp, O::Retain])
                        } else {
                            let s = r.pick(&[BASIC, BASIC, COND, ATOMIC]);
                            r.pick(s)
                        }
                    }
                    "iter" => {
                        if t == 0 && i == 0 {
                            r.pick(ITER)
                        } else {
                            let s = r.pick(&[BASIC, BASIC, BASIC, ATOMIC, ABSENT, COND]);
                            r.pick(s)
                        }
                    }
                    "sweep" => {
                        if t == 0 && i == 0 {
                            r.pick(&[O::Clear, O::Retain])
                        } else {
                            let s = r.pick(&[BASIC, BASIC, BASIC, ATOMIC, ABSENT, COND]);
                            r.pick(s)
                        }
                    }
                    _ => {
                        let s = r.pick(&[
                            LOOK,
                            BASIC,
                            BASIC,
                            ATOMIC,
                            ABSENT,
                            COND,
                            &[O::Clear, O::Retain],
                            ITER,
                            &[O::Reserve, O::Len],
                        ]);
                        r.pick(s)
                    }
                };
                mk(r, special, k)
            };
            ops.push(op);
        }
        // Operations on other keys, which may trigger or help a resize.
        let extra = if resize {
            r.pick(&[0, 1, 1, 2, 2, 4])
        } else {
            r.pick(&[0, 0, 0, 1])
        };
        let big = resize && cfg.chunk.is_some_and(|c| c < 4) && r.chance(12);
        let extra = if big { 11 } else { extra };
        let extra = match (nested, t) {
            (false, _) => extra,
            // A thread that only looks at the keys.
            (true, 2) if r.chance(50) => {
                ops = vec![mk(r, O::Get, r.0 as u32 % focus)];
                0
            }
            (true, 0) => r.pick(&[1, 1, 2, 3]),
            (true, 1) => r.pick(&[6, 8, 9, 10, 11, 12]),
            _ => r.pick(&[0, 0, 1]),
        };
        for _ in 0..extra {
            let at = if nested && r.chance(70) { 0 } else { r.n(ops.len() + 1) };
            let o = if !set && r.chance(10) {
                O::Reserve
            } else if r.chance(20) && fill > FILL {
                O::Rem
            } else {
                O::Ins
            };
            let k = match o {
                O::Rem => FILL + r.n((fill - FILL) as usize) as u32,
                _ => {
                    fill += 1;
                    fill - 1
                }
            };
            let op = mk(r, o, k);
            ops.insert(at, op);
        }
        // Re-entrancy.
        if r.chance(if profile == "progress" { 25 } else { 6 }) {
            let k = r.n(focus as usize) as u32;
            let pool: &[O] = if set { &[O::Ins, O::Rem, O::Get] } else { &[O::Ins, O::Rem, O::Get, O::Upd, O::Goi] };
            let re = r.pick(pool);
            let (re, kk) = if r.chance(40) && !set {
                fill += 1;
                (O::Ins, fill - 1)
            } else {
                (re, k)
            };
            let inner = Op::new(re, kk);
            for op in &mut ops {
                if matches!(
                    op.o,
                    O::Upd | O::Uoi | O::Uoiw | O::Comp | O::Goiw | O::TryInsW | O::RemIf | O::Retain | O::Iter
                ) {
                    op.re = Some(Box::new(inner));
                    break;
                }
            }
        }
        if profile == "reclaim" && r.chance(30) {
            let at = r.n(ops.len() + 1);
            ops.insert(at, Op::new(r.pick(&[O::Refresh, O::Flush]), 0));
        }
        if profile == "panic" {
            let at = r.n(ops.len());
            let n = r.pick(&[1, 1, 2]);
            let op = &mut ops[at];
            if matches!(
                op.o,
                O::Upd | O::Uoi | O::Uoiw | O::Comp | O::Goiw | O::TryInsW | O::RemIf | O::Retain
            ) && r.chance(70)
            {
                op.pa = n;
            } else if !faulty && !matches!(op.o, O::Iter | O::Clear | O::Retain) {
                faulty = true;
                op.fault = Some(r.pick(&[(1, 1), (1, 2), (2, 1), (2, 1), (2, 2), (2, 3)]));
            }
        }
        threads.push(Thr {
            api: r.pick(&[0, 0, 1, 2, 3]),
            hold: r.chance(50),
            ops,
        });
    }
    Program {
        name: format!("{profile}-{seed}-{idx}"),
        cfg,
        pre,
        threads,
        solo: false,
    }
}
