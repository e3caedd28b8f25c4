//! Programs: what the threads of a run do.

use serde::{Deserialize, Serialize};

fn is0(x: &u32) -> bool {
    *x == 0
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum O {
    Get,
    GetKv,
    Has,
    Ins,
    TryIns,
    TryInsW,
    Goi,
    Goiw,
    Upd,
    Uoi,
    Uoiw,
    Comp,
    Rem,
    RemE,
    RemIf,
    Clear,
    Retain,
    Iter,
    Keys,
    Values,
    Len,
    IsEmpty,
    Reserve,
    Refresh,
    Flush,
}

/// Stands for a number of entries that no allocation has room for: `reserve` panics, as documented.
pub const HUGE: u32 = u32::MAX;

pub fn entries(p: u32) -> usize {
    if p == HUGE {
        1 << 60
    } else {
        p as usize
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Op {
    pub o: O,
    #[serde(default, skip_serializing_if = "is0")]
    pub k: u32,
    /// What the closure decides (or the number of entries to reserve, see `HUGE`).
    #[serde(default, skip_serializing_if = "is0")]
    pub p: u32,
    /// An operation performed by the first call of the closure, or by the loop over an iterator.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub re: Option<Box<Op>>,
    /// The n-th call of the closure panics.
    #[serde(default, skip_serializing_if = "is0")]
    pub pa: u32,
    /// The n-th call of Hash on the key of the call (1), Eq (2), or Hash on another key (3) panics: (which, n).
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub fault: Option<(u32, u32)>,
}

impl Op {
    pub fn new(o: O, k: u32) -> Op {
        Op {
            o,
            k,
            p: 0,
            re: None,
            pa: 0,
            fault: None,
        }
    }
    pub fn p(mut self, p: u32) -> Op {
        self.p = p;
        self
    }
    pub fn re(mut self, op: Op) -> Op {
        self.re = Some(Box::new(op));
        self
    }
    pub fn pa(mut self, pa: u32) -> Op {
        self.pa = pa;
        self
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Cfg {
    /// The chunk size, or `None` for blocking resizes.
    pub chunk: Option<usize>,
    /// The initial capacity.
    pub cap: usize,
    /// The hash of each key.
    pub hashes: Vec<u64>,
    /// The batch size of the collector (0: the default collector of the map).
    pub batch: usize,
    /// Test a set instead of a map.
    #[serde(default)]
    pub set: bool,
    /// The number of shards of the length.
    #[serde(default)]
    pub shards: usize,
    /// The number of entries copied at a time by blocking resizes (0: as usual).
    #[serde(default)]
    pub bchunk: usize,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Thr {
    /// 0: `guard`, 1: `owned_guard`, 2: `pin`, 3: `pin_owned`.
    pub api: u8,
    /// Use one guard for all operations.
    pub hold: bool,
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Program {
    pub name: String,
    pub cfg: Cfg,
    /// Operations performed before the threads start.
    pub pre: Vec<Op>,
    pub threads: Vec<Thr>,
    /// Thread 0 of the concurrent phase is never preempted for longer than the others need: used
    /// by the wait-freedom profile, which suspends all other threads for good.
    #[serde(default)]
    pub solo: bool,
}

impl Program {
    /// Whether no call panics: what a panic leaves behind is not counted.
    pub fn balanced(&self) -> bool {
        fn quiet(o: &Op) -> bool {
            let refused = o.o == O::Comp && o.p / 4 == 2 || o.o == O::Reserve && o.p == HUGE;
            o.pa == 0 && o.fault.is_none() && !refused && o.re.as_ref().map_or(true, |o| quiet(o))
        }
        self.threads.iter().all(|t| t.ops.iter().all(quiet))
    }
    /// All keys that occur in the program.
    pub fn keys(&self) -> Vec<u32> {
        fn add(v: &mut Vec<u32>, op: &Op) {
            use O::*;
            if !matches!(
                op.o,
                Clear | Iter | Keys | Values | Len | IsEmpty | Reserve | Refresh | Flush
            ) && !v.contains(&op.k)
            {
                v.push(op.k);
            }
            if let Some(re) = &op.re {
                add(v, re);
            }
        }
        let mut v = vec![];
        for op in &self.pre {
            add(&mut v, op);
        }
        for t in &self.threads {
            for op in &t.ops {
                add(&mut v, op);
            }
        }
        v.sort();
        v
    }
}
