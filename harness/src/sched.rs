//! The controlled scheduler: runs the threads of a program one at a time, switching between
//! them only at synchronization operations, and records what happens.

use papaya::verif::{Access, Hooks, Op};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, UnsafeCell};
use std::collections::HashMap;
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicU8, Ordering};
use std::thread::{Thread, ThreadId};

pub const MAXT: usize = 4;
pub type Vc = [u32; MAXT];

/// How the threads of the concurrent phase are interleaved.
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Schedule {
    /// Threads in the order in which they are started, or continued if the current one cannot run.
    pub order: Vec<u8>,
    /// Preemptions: before step `.0` of the phase, switch to thread `.1`.
    #[serde(default)]
    pub pre: Vec<(u32, u8)>,
    /// Preemptions: before step `.1` of thread `.0`, switch to thread `.2`.
    #[serde(default)]
    pub own: Vec<(u8, u32, u8)>,
    /// Random scheduling: seed and switch probability (in 1/1024).
    #[serde(default)]
    pub rnd: Option<(u64, u32)>,
    /// Consider random switches only after a thread changed shared memory.
    #[serde(default)]
    pub wr: bool,
    /// Make the n-th weak compare-exchange (from 1) that would succeed fail spuriously.
    #[serde(default)]
    pub spurious: u32,
    /// Weak memory: seed and probability (1/1024) of reading a stale value where permitted.
    #[serde(default)]
    pub weak: Option<(u64, u32)>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Idle,
    Runnable,
    Lock(usize),
    Park,
    Done,
}

/// A recorded event.
#[derive(Clone, Copy, Debug)]
pub struct Ev {
    pub e: E,
    pub t: u8,
    /// Operation id.
    pub id: i32,
    pub k: i32,
    pub a: i64,
    pub b: i64,
    /// The key object, if any.
    pub c: i64,
    pub s: &'static str,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum E {
    Inv,
    Ret,
    Cb,
    Next,
    Yield,
    Wait,
    Steps,
    New,
    Drop,
    Touch,
    Ref,
    GBegin,
    GEnd,
    RAlloc,
    RFree,
    /// A table is retired.
    RRetire,
    RAccess,
    Retire,
    RRead,
    Phase,
    Stuck,
    Hb,
}

/// A synchronization operation, for the happens-before specification.
#[derive(Clone, Copy, Debug)]
pub struct Raw {
    pub t: u8,
    pub kind: u8, // 0 load, 1 store, 2 rmw ok, 3 rmw failed, 4 lock, 5 unlock, 6 park, 7 unpark, 8 new object, 9 touch object, 10 new region, 11 touch region, 12 phase, 13 inv, 14 ret
    pub ord: u8,  // 0 relaxed, 1 acquire, 2 release, 3 acqrel, 4 seqcst
    pub loc: u32,
}

#[derive(Clone, Copy)]
pub struct Step {
    pub t: u8,
    pub write: bool,
    pub loc: usize,
}

struct Th {
    st: St,
    token: bool,
    vc: Vc,
    park_vc: Vc,
    /// What the next acquire fence joins, and what relaxed stores release since the last release fence.
    fence_acq: Vc,
    fence_rel: Vc,
    view_acq: HashMap<usize, u32>,
    view_rel: Option<HashMap<usize, u32>>,
    steps: u32,
    waits: u32,
    /// The number of its steps when its operation began.
    begin: u32,
    tid: Option<ThreadId>,
    /// weak memory: per-location minimum store index
    view: HashMap<usize, u32>,
    opid: i32,
    /// The last step changed shared memory.
    wrote: bool,
    /// The steps in the phase.
    psteps: u32,
}

impl Th {
    fn new() -> Th {
        Th {
            st: St::Idle,
            token: false,
            vc: [0; MAXT],
            park_vc: [0; MAXT],
            fence_acq: [0; MAXT],
            fence_rel: [0; MAXT],
            view_acq: HashMap::new(),
            view_rel: None,
            steps: 0,
            waits: 0,
            begin: 0,
            tid: None,
            view: HashMap::new(),
            opid: 0,
            wrote: false,
            psteps: 0,
        }
    }
}

#[derive(Clone)]
struct StoreRec {
    val: u64,
    view: Option<HashMap<usize, u32>>,
}

#[derive(Default)]
struct Loc {
    base: u32,
    hist: Vec<StoreRec>,
}

pub struct Region {
    pub addr: usize,
    pub size: usize,
    pub freed: bool,
    pub creator: usize,
    pub clk: u32,
    pub seen: [bool; MAXT],
    pub reported: bool,
}

/// An entry or a table that was handed to the collector.
pub struct Retired {
    pub addr: usize,
    pub size: usize,
    /// The threads that have held a guard ever since.
    pub by: [bool; MAXT],
    pub reported: bool,
}

#[derive(Clone, Copy, Default)]
pub struct ObjRec {
    pub key: bool,
    /// The id of the key that the object belongs to.
    pub k: u32,
    pub creator: u8,
    pub clk: u32,
    pub drops: u32,
    pub seen: [bool; MAXT],
}

pub struct G {
    pub log: Vec<Ev>,
    pub raw: Vec<Raw>,
    pub trace: Vec<Step>,
    pub regions: Vec<Region>,
    pub objs: Vec<ObjRec>,
    pub retired: Vec<Retired>,
    /// The number of guards that each thread holds.
    pub held: [u32; MAXT],
    pub rec_objs: bool,
    pub rec_hb: bool,
    pub rec_raw: bool,
    pub rec_trace: bool,
    pub stuck: Option<String>,
    pub sched: Schedule,
    pub in_phase: bool,
    pub pstep: u32,
    pub total: u32,
    pub cap: u32,
    pub hb_bad: u32,
    pub reclaim_bad: u32,
    pub weak_stale: u32,
    th: Vec<Th>,
    n: usize,
    current: usize,
    pre_i: usize,
    rng: u64,
    wrng: u64,
    weak_n: u32,
    consecutive: u32,
    loc_vc: HashMap<usize, Vc>,
    locs: HashMap<usize, Loc>,
    sc_view: HashMap<usize, u32>,
    pub loc_ids: HashMap<usize, u32>,
    mid: HashMap<usize, Vc>,
    mview: HashMap<usize, HashMap<usize, u32>>,
}

struct Cell_(UnsafeCell<Option<G>>);
unsafe impl Sync for Cell_ {}
static STATE: Cell_ = Cell_(UnsafeCell::new(None));

/// Access the global state. Only the thread that holds the token (or the main thread, between
/// phases) calls this.
#[allow(clippy::mut_from_ref)]
pub fn g() -> &'static mut G {
    unsafe { (*STATE.0.get()).as_mut().unwrap() }
}

thread_local! {
    pub static TID: Cell<usize> = const { Cell::new(usize::MAX) };
    pub static IN_MAP: Cell<bool> = const { Cell::new(false) };
}

pub fn tid() -> usize {
    TID.with(|t| t.get())
}

/// The happens-before thread index (the main thread counts as thread 0).
fn htid() -> usize {
    let t = tid();
    if t == usize::MAX {
        0
    } else {
        t
    }
}

struct Worker {
    go: AtomicU32,
    job: UnsafeCell<Option<Box<dyn FnOnce() + Send>>>,
    thread: UnsafeCell<Option<Thread>>,
}
unsafe impl Sync for Worker {}

#[allow(clippy::declare_interior_mutable_const)]
const W: Worker = Worker {
    go: AtomicU32::new(0),
    job: UnsafeCell::new(None),
    thread: UnsafeCell::new(None),
};
static WORKERS: [Worker; MAXT] = [W; MAXT];
static MAIN: Worker = W;

fn wait_go(w: &Worker) {
    while w.go.load(Ordering::Acquire) == 0 {
        std::thread::park();
    }
    w.go.store(0, Ordering::Relaxed);
}

fn grant(w: &Worker) {
    w.go.store(1, Ordering::Release);
    unsafe { (*w.thread.get()).as_ref().unwrap().unpark() };
}

pub struct Ctl;
pub static CTL: Ctl = Ctl;

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// Starts the worker threads and installs the hooks. Called once.
pub fn init() {
    unsafe {
        *STATE.0.get() = Some(G {
            log: vec![],
            raw: vec![],
            trace: vec![],
            regions: vec![],
            objs: vec![],
            retired: vec![],
            held: [0; MAXT],
            rec_objs: false,
            rec_hb: false,
            rec_raw: false,
            rec_trace: false,
            stuck: None,
            sched: Schedule::default(),
            in_phase: false,
            pstep: 0,
            total: 0,
            cap: 400_000,
            hb_bad: 0,
            reclaim_bad: 0,
            weak_stale: 0,
            th: (0..MAXT).map(|_| Th::new()).collect(),
            n: 0,
            current: 0,
            pre_i: 0,
            rng: 0,
            wrng: 0,
            weak_n: 0,
            consecutive: 0,
            loc_vc: HashMap::new(),
            locs: HashMap::new(),
            sc_view: HashMap::new(),
            loc_ids: HashMap::new(),
            mid: HashMap::new(),
            mview: HashMap::new(),
        });
        *MAIN.thread.get() = Some(std::thread::current());
    }
    papaya::verif::install(&CTL);
    for i in 0..MAXT {
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                unsafe { *WORKERS[i].thread.get() = Some(std::thread::current()) };
                tx.send(std::thread::current().id()).unwrap();
                TID.with(|t| t.set(i));
                loop {
                    wait_go(&WORKERS[i]);
                    let job = unsafe { (*WORKERS[i].job.get()).take().unwrap() };
                    job();
                    finish(i);
                }
            })
            .unwrap();
        g().th[i].tid = Some(rx.recv().unwrap());
    }
}

/// Resets the state before a run.
pub fn reset(sched: &Schedule) {
    let g = g();
    g.log.clear();
    g.raw.clear();
    g.trace.clear();
    g.regions.clear();
    g.objs.clear();
    g.objs.push(ObjRec::default()); // object ids start at 1
    g.retired.clear();
    g.held = [0; MAXT];
    g.stuck = None;
    g.sched = sched.clone();
    g.total = 0;
    g.hb_bad = 0;
    g.reclaim_bad = 0;
    g.weak_stale = 0;
    g.loc_vc.clear();
    g.locs.clear();
    g.sc_view.clear();
    g.loc_ids.clear();
    g.mid.clear();
    g.mview.clear();
    for th in &mut g.th {
        th.vc = [0; MAXT];
        th.park_vc = [0; MAXT];
        th.fence_acq = [0; MAXT];
        th.fence_rel = [0; MAXT];
        th.view_acq.clear();
        th.view_rel = None;
        th.token = false;
        th.view.clear();
        th.steps = 0;
        th.waits = 0;
        th.opid = 0;
    }
    for i in 0..MAXT {
        g.th[i].vc[i] = 1;
    }
    g.rng = sched.rnd.map_or(0, |r| r.0);
    g.wrng = sched.weak.map_or(0, |r| r.0);
    g.weak_n = 0;
    g.pstep = 0;
}

/// Logs an event together with a key object.
pub fn evc(e: E, id: i32, k: i32, a: i64, b: i64, c: i64, s: &'static str) {
    ev(e, id, k, a, b, s);
    g().log.last_mut().unwrap().c = c;
}

pub fn ev(e: E, id: i32, k: i32, a: i64, b: i64, s: &'static str) {
    let was = IN_MAP.with(|m| m.replace(false));
    g().log.push(Ev {
        e,
        t: htid() as u8,
        id,
        k,
        a,
        b,
        c: 0,
        s,
    });
    IN_MAP.with(|m| m.set(was));
}

/// Runs the jobs of one phase to completion. Returns `false` if they got stuck.
pub fn phase(jobs: Vec<Box<dyn FnOnce() + Send>>, concurrent: bool) -> bool {
    let g_ = g();
    assert!(g_.stuck.is_none());
    let n = jobs.len();
    g_.n = n;
    g_.in_phase = concurrent;
    if concurrent {
        g_.pstep = 0;
        g_.pre_i = 0;
    }
    g_.consecutive = 0;
    // Everything before the phase happens before it.
    let mut vc = [0; MAXT];
    let mut view: HashMap<usize, u32> = HashMap::new();
    let weak = g_.sched.weak.is_some();
    for th in &g_.th {
        for i in 0..MAXT {
            vc[i] = vc[i].max(th.vc[i]);
        }
        if weak {
            join_view(&mut view, &th.view);
        }
    }
    for (i, th) in g_.th.iter_mut().enumerate() {
        th.vc = vc;
        th.vc[i] += 1;
        th.psteps = 0;
        th.st = if i < n { St::Runnable } else { St::Idle };
        th.token = false;
        if weak {
            th.view = view.clone();
        }
    }
    if g_.rec_raw {
        g_.raw.push(Raw {
            t: 0,
            kind: 12,
            ord: 0,
            loc: 0,
        });
    }
    for (i, job) in jobs.into_iter().enumerate() {
        unsafe { *WORKERS[i].job.get() = Some(job) };
    }
    let first = if concurrent {
        g_.sched
            .order
            .iter()
            .map(|x| *x as usize)
            .find(|x| *x < n)
            .unwrap_or(0)
    } else {
        0
    };
    // A preemption at step 0 selects the first thread.
    let first = match g_.sched.pre.first() {
        Some(&(0, t)) if concurrent && (t as usize) < n => t as usize,
        _ => first,
    };
    g_.current = first;
    grant(&WORKERS[first]);
    wait_go(&MAIN);
    let g_ = g();
    g_.in_phase = false;
    g_.stuck.is_none()
}

fn next_runnable(g: &G, after: Option<usize>) -> Option<usize> {
    // In `order`, starting after the given thread if any.
    let n = g.n;
    let order: &[u8] = &g.sched.order;
    let mut list = [0usize; MAXT];
    let mut len = 0;
    for &o in order {
        if (o as usize) < n {
            list[len] = o as usize;
            len += 1;
        }
    }
    for i in 0..n {
        if !list[..len].contains(&i) {
            list[len] = i;
            len += 1;
        }
    }
    let start = match after {
        Some(t) => list[..len].iter().position(|x| *x == t).unwrap_or(0) + 1,
        None => 0,
    };
    for j in 0..len {
        let c = list[(start + j) % len];
        if g.th[c].st == St::Runnable && Some(c) != after {
            return Some(c);
        }
    }
    None
}

fn finish(i: usize) {
    let g = g();
    g.th[i].st = St::Done;
    match next_runnable(g, None) {
        Some(n) => {
            g.current = n;
            g.consecutive = 0;
            grant(&WORKERS[n]);
        }
        None => {
            if g.th[..g.n].iter().any(|t| t.st != St::Done) {
                set_stuck(g, "deadlock");
            }
            grant(&MAIN);
        }
    }
}

fn set_stuck(g: &mut G, why: &'static str) {
    g.stuck = Some(why.to_string());
    let t = htid() as u8;
    g.log.push(Ev {
        e: E::Stuck,
        t,
        id: g.th[t as usize].opid,
        k: 0,
        a: 0,
        b: 0,
        c: 0,
        s: why,
    });
}

/// Gives up: the main thread reports the run and ends the process.
pub fn stuck(why: &'static str) -> ! {
    set_stuck(g(), why);
    grant(&MAIN);
    loop {
        std::thread::park();
    }
}

fn switch(t: usize, n: usize) {
    let g = g();
    g.current = n;
    g.consecutive = 0;
    grant(&WORKERS[n]);
    wait_go(&WORKERS[t]);
}

/// A scheduling point of thread `t`.
fn point(t: usize) {
    let g = g();
    g.total += 1;
    g.th[t].steps += 1;
    if g.total > g.cap {
        stuck("livelock");
    }
    if !g.in_phase || g.n == 1 {
        return;
    }
    let step = g.pstep;
    g.pstep += 1;
    g.consecutive += 1;
    let mut target = None;
    while g.pre_i < g.sched.pre.len() && g.sched.pre[g.pre_i].0 <= step {
        if g.sched.pre[g.pre_i].0 == step {
            target = Some(g.sched.pre[g.pre_i].1 as usize);
        }
        g.pre_i += 1;
    }
    let mine = g.th[t].psteps;
    g.th[t].psteps += 1;
    for &(u, at, to) in &g.sched.own {
        if u as usize == t && at == mine {
            target = Some(to as usize);
        }
    }
    let wrote = std::mem::replace(&mut g.th[t].wrote, false);
    if let Some((_, p)) = g.sched.rnd.filter(|_| wrote || !g.sched.wr) {
        if (splitmix(&mut g.rng) & 1023) < p as u64 {
            let r = splitmix(&mut g.rng) as usize % g.n;
            target = Some(r);
        }
    }
    if target.is_none() && g.consecutive > 4000 {
        // Fairness: a loop without a spin hint must not starve the others.
        target = next_runnable(g, Some(t));
        g.consecutive = 0;
        if g.th[t].steps - g.th[t].begin > 3000 {
            note_wait(t, "loop");
        }
    }
    if let Some(n) = target {
        if n != t && n < g.n && g.th[n].st == St::Runnable {
            switch(t, n);
        }
    }
}

fn note_wait(t: usize, s: &'static str) {
    let g = g();
    g.th[t].waits += 1;
    let id = g.th[t].opid;
    // Only the first wait of an operation of each kind is interesting.
    if g.th[t].waits <= 3 {
        ev(E::Wait, id, 0, 0, 0, s);
    }
}

/// Called by the harness at the start and end of an operation.
pub fn op_begin(id: i32) -> (i32, u32) {
    let t = htid();
    let th = &mut g().th[t];
    let old = (th.opid, th.steps);
    th.opid = id;
    th.waits = 0;
    th.begin = th.steps;
    old
}

pub fn op_end(old: (i32, u32)) -> u32 {
    let t = htid();
    let th = &mut g().th[t];
    th.opid = old.0;
    th.steps - old.1
}

/// A scheduling point in user code.
pub fn user_point() {
    let t = tid();
    if t == usize::MAX {
        return;
    }
    let g = g();
    if g.rec_trace && g.in_phase {
        g.trace.push(Step {
            t: t as u8,
            write: true,
            loc: 1,
        });
    }
    point(t);
}

fn block(t: usize, st: St) {
    let g = g();
    g.th[t].st = st;
    match next_runnable(g, Some(t)) {
        Some(n) => switch(t, n),
        None => stuck("deadlock"),
    }
}

fn join(a: &mut Vc, b: &Vc) {
    for i in 0..MAXT {
        a[i] = a[i].max(b[i]);
    }
}

fn join_view(a: &mut HashMap<usize, u32>, b: &HashMap<usize, u32>) {
    for (k, v) in b {
        let e = a.entry(*k).or_insert(0);
        *e = (*e).max(*v);
    }
}

fn ord_code(o: Ordering) -> u8 {
    match o {
        Ordering::Relaxed => 0,
        Ordering::Acquire => 1,
        Ordering::Release => 2,
        Ordering::AcqRel => 3,
        _ => 4,
    }
}

fn loc_id(g: &mut G, addr: usize) -> u32 {
    let n = g.loc_ids.len() as u32 + 1;
    *g.loc_ids.entry(addr).or_insert(n)
}

fn push_raw(g: &mut G, t: usize, kind: u8, ord: u8, loc: u32) {
    g.raw.push(Raw {
        t: t as u8,
        kind,
        ord,
        loc,
    });
}

/// Checks an access at the given address against the memory that was retired: only a thread that
/// has held a guard since then may access it, because nobody else keeps the collector from
/// freeing it.
fn retired_access(t: usize, addr: usize) {
    let g = g();
    if g.held[t] == 0 {
        return;
    }
    for i in 0..g.retired.len() {
        let r = &mut g.retired[i];
        if addr >= r.addr && addr < r.addr + r.size && !r.by[t] && !r.reported {
            r.reported = true;
            g.reclaim_bad += 1;
            ev(E::RRead, g.th[t].opid, 0, i as i64, 0, "retired");
        }
    }
}

/// Counts the guards of the thread.
pub fn guard_count(begin: bool) {
    let t = htid();
    let g = g();
    if begin {
        g.held[t] += 1;
        return;
    }
    g.held[t] -= 1;
    if g.held[t] == 0 {
        for r in &mut g.retired {
            r.by[t] = false;
        }
    }
}

/// Checks an access at the given address against the table regions.
fn region_access(t: usize, addr: usize) {
    retired_access(t, addr);
    let g = g();
    for (r, reg) in g.regions.iter_mut().enumerate().rev() {
        if addr >= reg.addr && addr < reg.addr + reg.size {
            if reg.freed {
                if !reg.reported {
                    reg.reported = true;
                    g.reclaim_bad += 1;
                    ev(E::RAccess, g.th[t].opid, 0, r as i64, 0, "freed");
                }
            } else if g.rec_hb && !reg.seen[t] {
                reg.seen[t] = true;
                let (c, k) = (reg.creator, reg.clk);
                if g.th[t].vc[c] < k {
                    g.hb_bad += 1;
                }
                if g.rec_raw {
                    push_raw(g, t, 11, 0, r as u32 + 1);
                }
            }
            return;
        }
    }
}

unsafe fn raw_load(addr: usize, size: u8) -> u64 {
    unsafe {
        match size {
            1 => (*(addr as *const AtomicU8)).load(Ordering::SeqCst) as u64,
            4 => (*(addr as *const AtomicU32)).load(Ordering::SeqCst) as u64,
            _ => (*(addr as *const AtomicU64)).load(Ordering::SeqCst),
        }
    }
}

unsafe fn raw_store(addr: usize, size: u8, v: u64) {
    unsafe {
        match size {
            1 => (*(addr as *const AtomicU8)).store(v as u8, Ordering::SeqCst),
            4 => (*(addr as *const AtomicU32)).store(v as u32, Ordering::SeqCst),
            _ => (*(addr as *const AtomicU64)).store(v, Ordering::SeqCst),
        }
    }
}

fn mask(size: u8, v: u64) -> u64 {
    match size {
        1 => v & 0xff,
        4 => v & 0xffff_ffff,
        _ => v,
    }
}

fn acquires(o: Ordering) -> bool {
    matches!(o, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst)
}

fn releases(o: Ordering) -> bool {
    matches!(o, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst)
}

impl Hooks for Ctl {
    unsafe fn atomic(&self, a: &Access) -> Option<(u64, bool)> {
        let t = tid();
        if t == usize::MAX {
            return None;
        }
        let was = IN_MAP.with(|m| m.replace(false));
        let g_ = g();
        if g_.rec_trace && g_.in_phase {
            g_.trace.push(Step {
                t: t as u8,
                write: !matches!(a.op, Op::Load),
                loc: a.addr,
            });
        }
        point(t);
        region_access(t, a.addr);
        let r = unsafe { perform(t, a) };
        IN_MAP.with(|m| m.set(was));
        Some(r)
    }

    fn fence(&self, order: Ordering) {
        let t = tid();
        if t == usize::MAX {
            return;
        }
        let was = IN_MAP.with(|m| m.replace(false));
        let g = g();
        if acquires(order) {
            let v = g.th[t].fence_acq;
            join(&mut g.th[t].vc, &v);
            if g.sched.weak.is_some() {
                let v = std::mem::take(&mut g.th[t].view_acq);
                join_view(&mut g.th[t].view, &v);
            }
        }
        if releases(order) {
            g.th[t].fence_rel = g.th[t].vc;
            g.th[t].vc[t] += 1;
            if g.sched.weak.is_some() {
                g.th[t].view_rel = Some(g.th[t].view.clone());
            }
        }
        if matches!(order, Ordering::SeqCst) && g.sched.weak.is_some() {
            let v = g.sc_view.clone();
            join_view(&mut g.th[t].view, &v);
            let v = g.th[t].view.clone();
            join_view(&mut g.sc_view, &v);
        }
        if g.rec_raw {
            push_raw(g, t, 13, ord_code(order), 0);
        }
        IN_MAP.with(|m| m.set(was));
    }

    fn lock(&self, addr: usize, _try_lock: bool) {
        let t = tid();
        if t == usize::MAX {
            return;
        }
        let was = IN_MAP.with(|m| m.replace(false));
        let g_ = g();
        if g_.rec_trace && g_.in_phase {
            g_.trace.push(Step {
                t: t as u8,
                write: true,
                loc: addr,
            });
        }
        point(t);
        region_access(t, addr);
        IN_MAP.with(|m| m.set(was));
    }

    fn lock_blocked(&self, addr: usize) -> bool {
        let t = tid();
        if t == usize::MAX {
            return false;
        }
        let was = IN_MAP.with(|m| m.replace(false));
        note_wait(t, "lock");
        block(t, St::Lock(addr));
        IN_MAP.with(|m| m.set(was));
        true
    }

    fn locked(&self, addr: usize) {
        let t = tid();
        if t == usize::MAX {
            return;
        }
        let was = IN_MAP.with(|m| m.replace(false));
        let g = g();
        if g.rec_hb {
            if let Some(v) = g.mid.get(&addr) {
                let v = *v;
                join(&mut g.th[t].vc, &v);
            }
            if g.rec_raw {
                let l = loc_id(g, addr);
                push_raw(g, t, 4, 0, l);
            }
        }
        if g.sched.weak.is_some() {
            if let Some(v) = g.mview.get(&addr) {
                join_view(&mut g.th[t].view, v);
            }
        }
        IN_MAP.with(|m| m.set(was));
    }

    fn unlocked(&self, addr: usize) {
        let t = tid();
        if t == usize::MAX {
            return;
        }
        let was = IN_MAP.with(|m| m.replace(false));
        let g = g();
        if g.rec_hb {
            let v = g.th[t].vc;
            g.mid.insert(addr, v);
            g.th[t].vc[t] += 1;
            if g.rec_raw {
                let l = loc_id(g, addr);
                push_raw(g, t, 5, 0, l);
            }
        }
        if g.sched.weak.is_some() {
            let v = g.th[t].view.clone();
            g.mview.insert(addr, v);
        }
        for th in &mut g.th {
            if th.st == St::Lock(addr) {
                th.st = St::Runnable;
            }
        }
        IN_MAP.with(|m| m.set(was));
    }

    fn park(&self, timeout: bool) -> bool {
        let t = tid();
        if t == usize::MAX {
            return false;
        }
        let was = IN_MAP.with(|m| m.replace(false));
        let g_ = g();
        if g_.rec_trace && g_.in_phase {
            g_.trace.push(Step {
                t: t as u8,
                write: true,
                loc: 2,
            });
        }
        point(t);
        note_wait(t, "park");
        let g = g();
        if g.th[t].token {
            g.th[t].token = false;
        } else if timeout {
            if let Some(n) = next_runnable(g, Some(t)) {
                switch(t, n);
            }
        } else {
            block(t, St::Park);
            g.th[t].token = false;
        }
        if g.rec_hb {
            let v = g.th[t].park_vc;
            join(&mut g.th[t].vc, &v);
            if g.rec_raw {
                push_raw(g, t, 6, 0, 0);
            }
        }
        IN_MAP.with(|m| m.set(was));
        true
    }

    fn unpark(&self, thread: ThreadId) -> bool {
        let t = tid();
        let g = g();
        let Some(u) = g.th.iter().position(|x| x.tid == Some(thread)) else {
            return false;
        };
        let was = IN_MAP.with(|m| m.replace(false));
        g.th[u].token = true;
        if g.th[u].st == St::Park {
            g.th[u].st = St::Runnable;
        }
        if t != usize::MAX && g.rec_hb {
            let v = g.th[t].vc;
            join(&mut g.th[u].park_vc, &v);
            g.th[t].vc[t] += 1;
            if g.rec_raw {
                push_raw(g, t, 7, 0, u as u32);
            }
        }
        if t != usize::MAX && g.sched.weak.is_some() {
            // `unpark` synchronizes with `park`.
            let v = g.th[t].view.clone();
            join_view(&mut g.th[u].view, &v);
        }
        IN_MAP.with(|m| m.set(was));
        true
    }

    fn spin(&self) {
        let t = tid();
        if t == usize::MAX {
            return;
        }
        let was = IN_MAP.with(|m| m.replace(false));
        note_wait(t, "spin");
        let g = g();
        g.total += 1;
        if g.total > g.cap {
            stuck("livelock");
        }
        if g.in_phase {
            if let Some(n) = next_runnable(g, Some(t)) {
                switch(t, n);
            }
        }
        IN_MAP.with(|m| m.set(was));
    }

    fn alloc(&self, addr: usize, size: usize) {
        let t = htid();
        let was = IN_MAP.with(|m| m.replace(false));
        let g = g();
        let clk = g.th[t].vc[t];
        let mut seen = [false; MAXT];
        seen[t] = true;
        g.regions.push(Region {
            addr,
            size,
            freed: false,
            creator: t,
            clk,
            seen,
            reported: false,
        });
        // Tables are tracked on their own.
        if was {
            crate::obj::BALANCE.fetch_sub(1, Ordering::Relaxed);
        }
        let r = g.regions.len() as i64 - 1;
        ev(E::RAlloc, g.th[t].opid, 0, r, size as i64, "");
        if g.rec_raw {
            push_raw(g, t, 10, 0, r as u32 + 1);
        }
        IN_MAP.with(|m| m.set(was));
    }

    fn retire(&self, addr: usize, size: usize) {
        let t = htid();
        let was = IN_MAP.with(|m| m.replace(false));
        let g = g();
        let table = g.regions.iter().rev().find(|r| !r.freed && addr >= r.addr && addr < r.addr + r.size);
        let (addr, size) = table.map_or((addr, size), |r| (r.addr, r.size));
        if let Some(r) = g.regions.iter().rposition(|r| !r.freed && r.addr == addr) {
            ev(E::RRetire, g.th[t].opid, 0, r as i64, 0, "");
        }
        g.retired.push(Retired {
            addr,
            size,
            by: std::array::from_fn(|t| g.held[t] > 0),
            reported: false,
        });
        if g.rec_objs {
            ev(E::Retire, g.th[t].opid, 0, g.retired.len() as i64 - 1, 0, "");
        }
        IN_MAP.with(|m| m.set(was));
    }

    fn copy_chunk(&self, usual: usize) -> usize {
        crate::seq::chunk(usual)
    }
    fn dealloc(&self, addr: usize, size: usize) -> bool {
        let was = IN_MAP.with(|m| m.replace(false));
        let g = g();
        let mut found = false;
        for (r, reg) in g.regions.iter_mut().enumerate().rev() {
            if reg.addr == addr {
                found = true;
                if reg.freed || reg.size != size {
                    g.reclaim_bad += 1;
                    ev(E::RFree, 0, 0, r as i64, 1, "again");
                } else {
                    reg.freed = true;
                    ev(E::RFree, 0, 0, r as i64, 0, "");
                }
                break;
            }
        }
        IN_MAP.with(|m| m.set(was));
        // Freed for real once the run has ended.
        !found
    }
}

/// Frees the memory of the tables that the run freed. Returns the number of tables that leaked.
pub fn release_regions() -> usize {
    let g = g();
    let mut leaked = 0;
    for reg in g.regions.drain(..) {
        if reg.freed {
            let layout = std::alloc::Layout::from_size_align(reg.size, 8).unwrap();
            unsafe { std::alloc::dealloc(reg.addr as *mut u8, layout) };
        } else {
            leaked += 1;
        }
    }
    leaked
}

unsafe fn perform(t: usize, a: &Access) -> (u64, bool) {
    let g = g();
    if g.sched.weak.is_some() {
        return unsafe { perform_weak(t, a) };
    }
    let old = unsafe { raw_load(a.addr, a.size) };
    let (new, ok) = match a.op {
        Op::Load => (None, true),
        Op::Store(v) => (Some(v), true),
        Op::Rmw(f, v) => (Some(f(old, v)), true),
        Op::Cas { current, new, weak } => {
            if mask(a.size, current) == old {
                let mut fail = false;
                if weak && g.in_phase {
                    g.weak_n += 1;
                    fail = g.weak_n == g.sched.spurious;
                }
                if fail {
                    (None, false)
                } else {
                    (Some(new), true)
                }
            } else {
                (None, false)
            }
        }
    };
    if let Some(n) = new {
        unsafe { raw_store(a.addr, a.size, n) };
        g.th[t].wrote = true;
    }
    if g.rec_hb {
        hb(g, t, a, ok);
    }
    (old, ok)
}

/// Tracks happens-before for an access.
fn hb(g: &mut G, t: usize, a: &Access, ok: bool) {
    let (acq, rel, kind, ord) = match a.op {
        Op::Load => (acquires(a.order), false, 0, a.order),
        Op::Store(_) => (false, releases(a.order), 1, a.order),
        Op::Rmw(..) => (acquires(a.order), releases(a.order), 2, a.order),
        Op::Cas { .. } if ok => (acquires(a.order), releases(a.order), 2, a.order),
        Op::Cas { .. } => (acquires(a.failure), false, 3, a.failure),
    };
    if kind != 1 {
        if let Some(v) = g.loc_vc.get(&a.addr) {
            let v = *v;
            join(&mut g.th[t].fence_acq, &v);
            if acq {
                join(&mut g.th[t].vc, &v);
            }
        }
    }
    let mine = if rel { g.th[t].vc } else { g.th[t].fence_rel };
    match kind {
        1 => {
            g.loc_vc.insert(a.addr, mine);
        }
        2 => {
            let e = g.loc_vc.entry(a.addr).or_insert([0; MAXT]);
            join(e, &mine);
        }
        _ => {}
    }
    if rel {
        g.th[t].vc[t] += 1;
    }
    if g.rec_raw {
        let l = loc_id(g, a.addr);
        push_raw(g, t, kind, ord_code(ord), l);
    }
}

/// Performs an access in a view-based model of the C++/Rust memory model: loads may return
/// older values as long as coherence, happens-before and the order of sequentially consistent
/// operations permit it.
unsafe fn perform_weak(t: usize, a: &Access) -> (u64, bool) {
    let g = g();
    let actual = unsafe { raw_load(a.addr, a.size) };
    let in_phase = g.in_phase;
    let sc = matches!(a.order, Ordering::SeqCst);
    let loc = g.locs.entry(a.addr).or_default();
    if loc.hist.is_empty() {
        loc.hist.push(StoreRec {
            val: actual,
            view: None,
        });
    }
    let last = loc.base + loc.hist.len() as u32 - 1;
    if loc.hist.last().unwrap().val != actual {
        // Written by an uninstrumented access (initialization): visible to everyone.
        let n = last + 1;
        loc.hist.clear();
        loc.base = n;
        loc.hist.push(StoreRec {
            val: actual,
            view: None,
        });
    }
    let last = loc.base + loc.hist.len() as u32 - 1;
    match a.op {
        Op::Load => {
            let mut min = g.th[t].view.get(&a.addr).copied().unwrap_or(0).max(loc.base);
            if sc {
                min = min.max(g.sc_view.get(&a.addr).copied().unwrap_or(0));
            }
            let mut idx = last;
            if in_phase && min < last {
                let p = g.sched.weak.unwrap().1 as u64;
                while idx > min && (splitmix(&mut g.wrng) & 1023) < p {
                    idx -= 1;
                }
                if idx < last {
                    g.weak_stale += 1;
                }
            }
            let rec = loc.hist[(idx - loc.base) as usize].clone();
            g.th[t].view.insert(a.addr, idx);
            if sc {
                let e = g.sc_view.entry(a.addr).or_insert(0);
                *e = (*e).max(idx);
            }
            if let Some(v) = rec.view {
                if acquires(a.order) {
                    join_view(&mut g.th[t].view, &v);
                } else {
                    join_view(&mut g.th[t].view_acq, &v);
                }
            }
            (rec.val, true)
        }
        _ => {
            let old = actual;
            let mut order = a.order;
            let mut is_store = false;
            let new = match a.op {
                Op::Store(v) => {
                    is_store = true;
                    Some(v)
                }
                Op::Rmw(f, v) => Some(f(old, v)),
                Op::Cas { current, new, weak } => {
                    if mask(a.size, current) == old {
                        let mut fail = false;
                        if weak && in_phase {
                            g.weak_n += 1;
                            fail = g.weak_n == g.sched.spurious;
                        }
                        if fail {
                            None
                        } else {
                            Some(new)
                        }
                    } else {
                        None
                    }
                }
                Op::Load => unreachable!(),
            };
            if new.is_none() {
                order = a.failure;
            }
            let prev = loc.hist.last().unwrap().clone();
            if !is_store {
                if let Some(v) = &prev.view {
                    if acquires(order) {
                        join_view(&mut g.th[t].view, v);
                    } else {
                        join_view(&mut g.th[t].view_acq, v);
                    }
                }
            }
            if let Some(n) = new {
                let n = mask(a.size, n);
                unsafe { raw_store(a.addr, a.size, n) };
                let idx = last + 1;
                g.th[t].view.insert(a.addr, idx);
                let mut view = if is_store { None } else { prev.view };
                let mine = if releases(order) {
                    Some(g.th[t].view.clone())
                } else {
                    g.th[t].view_rel.clone()
                };
                if let Some(mine) = mine {
                    match &mut view {
                        Some(v) => join_view(v, &mine),
                        None => view = Some(mine),
                    }
                }
                loc.hist.push(StoreRec { val: n, view });
                if sc {
                    g.sc_view.insert(a.addr, idx);
                }
            } else {
                g.th[t].view.insert(a.addr, last);
                if matches!(order, Ordering::SeqCst) {
                    let e = g.sc_view.entry(a.addr).or_insert(0);
                    *e = (*e).max(last);
                }
            }
            (old, new.is_some())
        }
    }
}

/// The boundary of an operation in weak memory mode: operations that follow each other in real
/// time are ordered by synchronization of their callers.
pub fn boundary() {
    let t = htid();
    let g = g();
    if g.sched.weak.is_some() {
        let mut view = std::mem::take(g.mview.entry(3).or_default());
        join_view(&mut view, &g.th[t].view);
        join_view(&mut g.th[t].view, &view);
        g.mview.insert(3, view);
    }
}

/// A guard was created: the collector orders this after everything that was retired before.
pub fn guard_entry() {
    let t = htid();
    let g = g();
    if g.sched.weak.is_some() {
        for (a, l) in &g.locs {
            let last = l.base + l.hist.len().max(1) as u32 - 1;
            let e = g.th[t].view.entry(*a).or_insert(0);
            *e = (*e).max(last);
        }
    }
}

/// Registers a new object, returning its id.
pub fn new_obj(key: bool, k: u32) -> u32 {
    let t = htid();
    let was = IN_MAP.with(|m| m.replace(false));
    let g = g();
    let clk = g.th[t].vc[t];
    let oid = g.objs.len() as u32;
    let mut seen = [false; MAXT];
    seen[t] = true;
    g.objs.push(ObjRec {
        key,
        k,
        creator: t as u8,
        clk,
        drops: 0,
        seen,
    });
    if g.rec_objs {
        ev(E::New, g.th[t].opid, 0, oid as i64, 0, if key { "k" } else { "v" });
    }
    if g.rec_raw {
        push_raw(g, t, 8, 0, oid);
    }
    IN_MAP.with(|m| m.set(was));
    oid
}

/// An object is read.
pub fn touch_obj(oid: u32, alive: bool, addr: usize) {
    let t = htid();
    let was = IN_MAP.with(|m| m.replace(false));
    retired_access(t, addr);
    let g = g();
    if !alive || oid as usize >= g.objs.len() || g.objs[oid as usize].drops > 0 {
        g.reclaim_bad += 1;
        ev(E::Touch, g.th[t].opid, 0, oid as i64, 0, "dead");
    } else if g.rec_hb && !g.objs[oid as usize].seen[t] {
        let o = &mut g.objs[oid as usize];
        o.seen[t] = true;
        let (c, k) = (o.creator as usize, o.clk);
        if g.th[t].vc[c] < k {
            g.hb_bad += 1;
        }
        if g.rec_raw {
            push_raw(g, t, 9, 0, oid);
        }
    }
    IN_MAP.with(|m| m.set(was));
}

/// An object is dropped.
pub fn drop_obj(oid: u32, alive: bool) {
    let t = htid();
    let was = IN_MAP.with(|m| m.replace(false));
    let g = g();
    if !alive || oid as usize >= g.objs.len() || g.objs[oid as usize].drops > 0 {
        g.reclaim_bad += 1;
        ev(E::Drop, g.th[t].opid, 0, oid as i64, 1, "again");
    } else {
        if g.rec_objs {
            ev(E::Drop, g.th[t].opid, 0, oid as i64, 0, "");
        }
    }
    if let Some(o) = g.objs.get_mut(oid as usize) {
        o.drops += 1;
    }
    IN_MAP.with(|m| m.set(was));
}



/// Panics on behalf of user code.
pub fn user_panic() -> ! {
    let was = IN_MAP.with(|m| m.replace(false));
    let r = std::panic::catch_unwind(|| panic!("injected"));
    IN_MAP.with(|m| m.set(was));
    std::panic::resume_unwind(r.unwrap_err())
}
