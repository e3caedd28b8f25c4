//! Executes programs on the real map.

use crate::obj::{self, in_map, in_user, Bh, K, Q, V};
use crate::prog::{Op, Program, Thr, O};
use crate::sched::{self, ev, evc, g, E};
use papaya::{Compute, Equivalent, Guard, HashMap, HashMapRef, HashSet, HashSetRef, Operation, ResizeMode};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI32, Ordering};

static NEXT: AtomicI32 = AtomicI32::new(1);

fn next_id() -> i32 {
    NEXT.fetch_add(1, Ordering::Relaxed)
}

include!("api_body.rs");

// Keep the trait in scope used.
#[allow(dead_code)]
fn _assert(q: &Q, k: &K) -> bool {
    q.equivalent(k)
}

/// A held reference: the object and where it is.
#[derive(Clone, Copy)]
enum R {
    K(*const K, u32),
    V(*const V, i64),
}

/// The references held by a guard.
pub struct Refs(RefCell<Vec<R>>, i32);

impl Refs {
    fn new() -> Refs {
        let s = next_id();
        sched::guard_entry();
        sched::guard_count(true);
        ev(E::GBegin, s, 0, 0, 0, "");
        Refs(RefCell::new(vec![]), s)
    }
    fn v(&self, v: *const V) -> i64 {
        let id = unsafe { (*v).read() };
        self.0.borrow_mut().push(R::V(v, id));
        if g().rec_objs {
            ev(E::Ref, self.1, 0, id, 0, "");
        }
        id
    }
    fn k(&self, k: *const K) -> (u32, i64) {
        let id = unsafe { (*k).read() };
        let oid = unsafe { (*k).oid };
        self.0.borrow_mut().push(R::K(k, oid));
        if g().rec_objs {
            ev(E::Ref, self.1, 0, oid as i64, 0, "");
        }
        (id, oid as i64)
    }
    /// Reads all references again: they must still denote the same objects.
    fn end(&self) {
        for r in self.0.borrow_mut().drain(..) {
            let ok = match r {
                R::K(k, oid) => {
                    unsafe { (*k).read() };
                    unsafe { (*k).oid == oid }
                }
                R::V(v, oid) => unsafe { (*v).read() == oid },
            };
            if !ok {
                g().reclaim_bad += 1;
                ev(E::Touch, 0, 0, 0, 0, "changed");
            }
        }
        ev(E::GEnd, self.1, 0, 0, 0, "");
        sched::guard_count(false);
    }
}

fn code(o: O) -> &'static str {
    use O::*;
    match o {
        Get => "get",
        GetKv => "getkv",
        Has => "has",
        Ins => "ins",
        TryIns => "tryins",
        TryInsW => "tryinsw",
        Goi => "goi",
        Goiw => "goiw",
        Upd => "upd",
        Uoi => "uoi",
        Uoiw => "uoiw",
        Comp => "comp",
        Rem => "rem",
        RemE => "reme",
        RemIf => "remif",
        Clear => "clear",
        Retain => "retain",
        Iter => "iter",
        Keys => "keys",
        Values => "values",
        Len => "len",
        IsEmpty => "isempty",
        Reserve => "reserve",
        Refresh => "refresh",
        Flush => "flush",
    }
}

/// State of the closures of one operation.
struct Cbs<'a> {
    op: &'a Op,
    id: i32,
    n: RefCell<u32>,
    /// The closure of `compute` asked to remove an entry that does not exist.
    refused: std::cell::Cell<bool>,
    env: &'a Env,
    refs: &'a Refs,
}

/// The object under test.
#[derive(Clone, Copy)]
pub enum Env {
    Map(*const Map),
    Set(*const Set),
}
unsafe impl Send for Env {}
unsafe impl Sync for Env {}

impl Cbs<'_> {
    /// Called at the start of each closure; returns the number of this call.
    fn enter(&self) -> u32 {
        let n = {
            let mut n = self.n.borrow_mut();
            *n += 1;
            *n
        };
        sched::user_point();
        if n == 1 {
            if let Some(re) = &self.op.re {
                // Re-enter the map with a guard of its own.
                run_one(self.env, 0, re);
            }
        }
        if n == self.op.pa {
            ev(E::Cb, self.id, self.op.k as i32, 0, 0, "panic");
            panic!("injected");
        }
        n
    }
    fn cb(&self, k: i32, a: i64, b: i64, s: &'static str) {
        ev(E::Cb, self.id, k, a, b, s);
        sched::user_point();
    }
    fn init(&self, k: u32) -> V {
        in_user(|| {
            self.enter();
            let v = V::new(k);
            self.cb(k as i32, 0, v.oid as i64, "ins");
            v
        })
    }
    fn update(&self, k: u32, old: &V) -> V {
        in_user(|| {
            let i = old.read();
            self.enter();
            let v = V::new(k);
            self.cb(k as i32, i, v.oid as i64, "ins");
            v
        })
    }
    fn compute(&self, k: u32, e: Option<(&K, &V)>) -> Operation<V, i64> {
        in_user(|| {
            let i = e.map_or(0, |(k, v)| {
                k.read();
                v.read()
            });
            let n = self.enter();
            let p = self.op.p;
            // p = decision for an entry + 4 * decision for no entry
            let d = if i != 0 {
                match p % 4 {
                    3 => (n - 1) % 3,
                    d => d,
                }
            } else {
                match p / 4 {
                    0 => 0,
                    1 => 2,
                    _ => 1,
                }
            };
            match d {
                0 => {
                    let v = V::new(k);
                    self.cb(k as i32, i, v.oid as i64, "ins");
                    Operation::Insert(v)
                }
                1 => {
                    self.refused.set(i == 0);
                    self.cb(k as i32, i, 0, "rem");
                    Operation::Remove
                }
                _ => {
                    self.cb(k as i32, i, 0, "abort");
                    Operation::Abort(self.id as i64)
                }
            }
        })
    }
    fn decide(&self, key: &K, v: Option<&V>) -> bool {
        in_user(|| {
            let k = key.read();
            let i = v.map_or(key.oid as i64, |v| v.read());
            let n = self.enter();
            let yes = match self.op.p {
                0 => true,
                1 => false,
                2 => i % 2 == 0,
                3 => n > 1,
                4 => n <= 1,
                _ => k == self.op.p - 5,
            };
            self.cb(k as i32, i, 0, if yes { "yes" } else { "no" });
            yes
        })
    }
    /// As for `decide`, where "yes" means that the entry is kept.
    fn keep(&self, key: &K, v: Option<&V>) -> bool {
        !self.decide_(key, v)
    }
    fn decide_(&self, key: &K, v: Option<&V>) -> bool {
        self.decide(key, v)
    }
    fn done(&self) {
        let _ = self.refs;
    }
}

/// Runs an operation with a guard of its own.
pub fn run_one(env: &Env, api: u8, op: &Op) {
    run_thr(
        env,
        &Thr {
            api,
            hold: true,
            ops: vec![op.clone()],
        },
    );
}

fn inv(op: &Op, a: i64, c: i64) -> i32 {
    let id = next_id();
    evc(E::Inv, id, op.k as i32, a, op.p as i64, c, code(op.o));
    id
}

fn ret(id: i32, k: u32, a: i64, b: i64, c: i64, s: &'static str) {
    evc(E::Ret, id, k as i32, a, b, c, s);
}

/// Runs one operation of the map, logging its invocation and its result.
pub fn run_op(env: &Env, m: &mut dyn Api, refs: &Refs, op: &Op) {
    use O::*;
    let k = op.k;
    sched::boundary();
    // Arguments are created before the operation starts.
    let key = match op.o {
        Ins | TryIns | TryInsW | Goi | Goiw | Upd | Uoi | Uoiw | Comp => Some(K::new(k)),
        _ => None,
    };
    let val = match op.o {
        Ins | TryIns | Goi | Uoi => Some(V::new(k)),
        _ => None,
    };
    let kid = key.as_ref().map_or(0, |k| k.oid as i64);
    let vid = val.as_ref().map_or(0, |v| v.oid as i64);
    let id = inv(op, vid, kid);
    let cbs = Cbs {
        op,
        id,
        n: RefCell::new(0),
        refused: Default::default(),
        env,
        refs,
    };
    let saved = sched::op_begin(id);
    fault(op, kid);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let q = Q(k);
        match op.o {
            Get => match m.get(&q) {
                Some(v) => ret(id, k, refs.v(v), 0, 0, "ok"),
                None => ret(id, k, 0, 0, 0, "ok"),
            },
            GetKv => match m.get_kv(&q) {
                Some((kk, v)) => {
                    let (kk, oid) = refs.k(kk);
                    ret(id, k, refs.v(v), (kk != k) as i64, oid, "ok")
                }
                None => ret(id, k, 0, 0, 0, "ok"),
            },
            Has => {
                let x = m.has(&q);
                ret(id, k, x as i64, 0, 0, "ok")
            }
            Ins => match m.ins(key.unwrap(), val.unwrap()) {
                Some(v) => ret(id, k, refs.v(v), 0, 0, "ok"),
                None => ret(id, k, 0, 0, 0, "ok"),
            },
            TryIns => match m.try_ins(key.unwrap(), val.unwrap()) {
                Ok(v) => ret(id, k, refs.v(v), 0, 0, "ok"),
                Err((v, not)) => {
                    let n = not.read();
                    ret(id, k, refs.v(v), n, 0, "err");
                }
            },
            TryInsW => match m.try_ins_w(key.unwrap(), &mut || cbs.init(k)) {
                Ok(v) => ret(id, k, refs.v(v), 0, 0, "ok"),
                Err(v) => ret(id, k, refs.v(v), 0, 0, "err"),
            },
            Goi => {
                let v = m.goi(key.unwrap(), val.unwrap());
                ret(id, k, refs.v(v), 0, 0, "ok")
            }
            Goiw => {
                let v = m.goiw(key.unwrap(), &mut || cbs.init(k));
                ret(id, k, refs.v(v), 0, 0, "ok")
            }
            Upd => match m.upd(key.unwrap(), &|v| cbs.update(k, v)) {
                Some(v) => ret(id, k, refs.v(v), 0, 0, "ok"),
                None => ret(id, k, 0, 0, 0, "ok"),
            },
            Uoi => {
                let v = m.uoi(key.unwrap(), &|v| cbs.update(k, v), val.unwrap());
                ret(id, k, refs.v(v), 0, 0, "ok")
            }
            Uoiw => {
                let v = m.uoiw(key.unwrap(), &|v| cbs.update(k, v), &mut || cbs.init(k));
                ret(id, k, refs.v(v), 0, 0, "ok")
            }
            Comp => match m.comp(key.unwrap(), &mut |e| cbs.compute(k, e)) {
                CompR::Ins(kk, v) => {
                    let (_, oid) = refs.k(kk);
                    ret(id, k, 0, refs.v(v), oid, "ins")
                }
                CompR::Upd(old, kk, v) => {
                    let (_, oid) = refs.k(kk);
                    ret(id, k, refs.v(old), refs.v(v), oid, "upd")
                }
                CompR::Rem(kk, v) => {
                    let (_, oid) = refs.k(kk);
                    ret(id, k, refs.v(v), 0, oid, "rem")
                }
                CompR::Abort(x) => ret(id, k, 0, (x != id as i64) as i64, 0, "abort"),
            },
            Rem => match m.rem(&q) {
                Some(v) => ret(id, k, refs.v(v), 0, 0, "ok"),
                None => ret(id, k, 0, 0, 0, "ok"),
            },
            RemE => match m.rem_e(&q) {
                Some((kk, v)) => {
                    let (kk, oid) = refs.k(kk);
                    ret(id, k, refs.v(v), (kk != k) as i64, oid, "ok")
                }
                None => ret(id, k, 0, 0, 0, "ok"),
            },
            RemIf => match m.rem_if(&q, &mut |k, v| cbs.decide(k, Some(v))) {
                Ok(Some((kk, v))) => {
                    let (kk, oid) = refs.k(kk);
                    ret(id, k, refs.v(v), (kk != k) as i64, oid, "ok")
                }
                Ok(None) => ret(id, k, 0, 0, 0, "ok"),
                Err((kk, v)) => {
                    let (kk, oid) = refs.k(kk);
                    ret(id, k, refs.v(v), (kk != k) as i64, oid, "err")
                }
            },
            Clear => {
                m.clear();
                ret(id, 0, 0, 0, 0, "ok")
            }
            Retain => {
                m.retain(&mut |k, v| cbs.keep(k, Some(v)));
                ret(id, 0, 0, 0, 0, "ok")
            }
            Iter => {
                let mut it = m.iter();
                let mut n = 0;
                loop {
                    ev(E::Next, id, 0, 0, 0, "");
                    let Some((kk, v)) = it.next() else { break };
                    n += 1;
                    let (kk, oid) = refs.k(kk);
                    let v = refs.v(v);
                    evc(E::Yield, id, kk as i32, v, 0, oid, "");
                    in_loop(env, op, n);
                }
                drop(it);
                ret(id, 0, n as i64, 0, 0, "ok")
            }
            Keys => {
                let mut it = m.keys();
                let mut n = 0;
                loop {
                    ev(E::Next, id, 0, 0, 0, "");
                    let Some(kk) = it.next() else { break };
                    n += 1;
                    let (kk, oid) = refs.k(kk);
                    evc(E::Yield, id, kk as i32, 0, 1, oid, "");
                    in_loop(env, op, n);
                }
                drop(it);
                ret(id, 0, n as i64, 0, 0, "ok")
            }
            Values => {
                let mut it = m.values();
                let mut n = 0;
                loop {
                    ev(E::Next, id, 0, 0, 0, "");
                    let Some(v) = it.next() else { break };
                    n += 1;
                    let v = refs.v(v);
                    let kk = g().objs.get(v as usize).map_or(u32::MAX, |o| o.k);
                    ev(E::Yield, id, kk as i32, v, 0, "");
                    in_loop(env, op, n);
                }
                drop(it);
                ret(id, 0, n as i64, 0, 0, "ok")
            }
            Len => {
                let n = m.len();
                ret(id, 0, n.min(1 << 20) as i64, 0, 0, "ok")
            }
            IsEmpty => {
                let n = m.is_empty();
                ret(id, 0, n as i64, 0, 0, "ok")
            }
            Reserve => {
                m.reserve(crate::prog::entries(op.p));
                ret(id, 0, 0, 0, 0, "ok")
            }
            Refresh | Flush => unreachable!(),
        }
    }));
    cbs.done();
    finish(op, id, saved, r, cbs.refused.get());
}

/// Arms the fault of the operation.
fn fault(op: &Op, own: i64) {
    let Some((which, n)) = op.fault else { return };
    for (i, f) in [&obj::FAULT_HASH, &obj::FAULT_EQ, &obj::FAULT_STORED].into_iter().enumerate() {
        let n = if which as usize == i + 1 { n as i64 } else { 0 };
        f.store(n, Ordering::Relaxed);
    }
    obj::FAULT_OWN.store(own, Ordering::Relaxed);
    obj::FAULT_TID.store(sched::tid(), Ordering::Relaxed);
}

fn in_loop(env: &Env, op: &Op, n: u32) {
    sched::user_point();
    if n == 1 {
        if let Some(re) = &op.re {
            run_one(env, 0, re);
        }
    }
}

fn finish(op: &Op, id: i32, saved: (i32, u32), r: std::thread::Result<()>, refused: bool) {
    obj::FAULT_TID.store(usize::MAX, Ordering::Relaxed);
    if let Err(e) = r {
        let injected = e.downcast_ref::<&str>() == Some(&"injected");
        drop(e);
        // The panics that the documentation announces.
        let refused = refused || op.o == O::Reserve && op.p == crate::prog::HUGE;
        ret(id, op.k, 0, 0, 0, if injected { "injected" } else if refused { "refused" } else { "panic" });
        if !injected && !refused {
            sched::stuck("an operation panicked");
        }
    }
    let steps = sched::op_end(saved);
    // The number of own steps is kept with the result.
    g().log.last_mut().unwrap().id = id;
    ev(E::Steps, id, op.k as i32, steps as i64, 0, code(op.o));
    sched::boundary();
}

/// Runs one operation of the set. The value of an element is its key object.
pub fn run_set_op(env: &Env, m: &mut dyn SetApi, refs: &Refs, op: &Op) {
    use O::*;
    let k = op.k;
    sched::boundary();
    let key = match op.o {
        Ins => Some(K::new(k)),
        _ => None,
    };
    let kid = key.as_ref().map_or(0, |k| k.oid as i64);
    let id = next_id();
    let name = match op.o {
        Ins => "sins",
        Rem => "srem",
        o => code(o),
    };
    evc(E::Inv, id, k as i32, kid, op.p as i64, kid, name);
    let cbs = Cbs {
        op,
        id,
        n: RefCell::new(0),
        refused: Default::default(),
        env,
        refs,
    };
    let saved = sched::op_begin(id);
    fault(op, kid);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let q = Q(k);
        match op.o {
            Get => match m.get(&q) {
                Some(kk) => {
                    let (kk, oid) = refs.k(kk);
                    ret(id, k, oid, (kk != k) as i64, oid, "ok")
                }
                None => ret(id, k, 0, 0, 0, "ok"),
            },
            Has => {
                let x = m.has(&q);
                ret(id, k, x as i64, 0, 0, "ok")
            }
            Ins => {
                let x = m.ins(key.unwrap());
                ret(id, k, x as i64, 0, 0, "ok")
            }
            Rem => {
                let x = m.rem(&q);
                ret(id, k, x as i64, 0, 0, "ok")
            }
            Clear => {
                m.clear();
                ret(id, 0, 0, 0, 0, "ok")
            }
            Retain => {
                m.retain(&mut |k| cbs.keep(k, None));
                ret(id, 0, 0, 0, 0, "ok")
            }
            Iter => {
                let mut it = m.iter();
                let mut n = 0;
                loop {
                    ev(E::Next, id, 0, 0, 0, "");
                    let Some(kk) = it.next() else { break };
                    n += 1;
                    let (kk, oid) = refs.k(kk);
                    evc(E::Yield, id, kk as i32, oid, 0, oid, "");
                    in_loop(env, op, n);
                }
                drop(it);
                ret(id, 0, n as i64, 0, 0, "ok")
            }
            Len => {
                let n = m.len();
                ret(id, 0, n.min(1 << 20) as i64, 0, 0, "ok")
            }
            IsEmpty => {
                let n = m.is_empty();
                ret(id, 0, n as i64, 0, 0, "ok")
            }
            Reserve => {
                m.reserve(crate::prog::entries(op.p));
                ret(id, 0, 0, 0, 0, "ok")
            }
            o => panic!("not a set operation: {o:?}"),
        }
    }));
    finish(op, id, saved, r, cbs.refused.get());
}

macro_rules! drive {
    ($env:expr, $m:expr, $thr:expr, $direct:ident, $run:ident) => {{
        let (env, m, thr) = ($env, $m, $thr);
        let mut i = 0;
        while i < thr.ops.len() {
            // One guard for the next group of operations.
            let end = if thr.hold { thr.ops.len() } else { i + 1 };
            match thr.api {
                0 => {
                    let mut gd = in_map(|| m.guard());
                    let mut refs = Refs::new();
                    for op in &thr.ops[i..end] {
                        match op.o {
                            O::Refresh => {
                                refs.end();
                                in_map(|| gd.refresh());
                                refs = Refs::new();
                            }
                            O::Flush => in_map(|| gd.flush()),
                            _ => $run(env, &mut $direct { m, g: &gd }, &refs, op),
                        }
                    }
                    refs.end();
                    in_map(move || drop(gd));
                }
                1 => {
                    let mut gd = in_map(|| m.owned_guard());
                    let mut refs = Refs::new();
                    for op in &thr.ops[i..end] {
                        match op.o {
                            O::Refresh => {
                                refs.end();
                                in_map(|| gd.refresh());
                                refs = Refs::new();
                            }
                            O::Flush => in_map(|| gd.flush()),
                            _ => $run(env, &mut $direct { m, g: &gd }, &refs, op),
                        }
                    }
                    refs.end();
                    in_map(move || drop(gd));
                }
                2 => {
                    let mut p = in_map(|| m.pin());
                    let refs = Refs::new();
                    for op in &thr.ops[i..end] {
                        if !matches!(op.o, O::Refresh | O::Flush) {
                            $run(env, &mut p, &refs, op);
                        }
                    }
                    refs.end();
                    in_map(move || drop(p));
                }
                _ => {
                    let mut p = in_map(|| m.pin_owned());
                    let refs = Refs::new();
                    for op in &thr.ops[i..end] {
                        if !matches!(op.o, O::Refresh | O::Flush) {
                            $run(env, &mut p, &refs, op);
                        }
                    }
                    refs.end();
                    in_map(move || drop(p));
                }
            }
            i = end;
        }
    }};
}

/// Runs the operations of one thread.
pub fn run_thr(env: &Env, thr: &Thr) {
    match env {
        Env::Map(m) => {
            let m = unsafe { &**m };
            drive!(env, m, thr, Direct, run_op)
        }
        Env::Set(m) => {
            let m = unsafe { &**m };
            drive!(env, m, thr, DirectSet, run_set_op)
        }
    }
}

/// Which observations are made once all threads are done.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Final {
    None,
    Full,
}

pub struct RunInfo {
    pub steps: u32,
    pub balance: i64,
    pub leaked: usize,
    pub live: usize,
}

fn build(p: &Program) -> Env {
    crate::seq::BCHUNK.store(p.cfg.bchunk, Ordering::Relaxed);
    let mode = match p.cfg.chunk {
        Some(n) => ResizeMode::Incremental(n),
        None => ResizeMode::Blocking,
    };
    crate::cpus::with(p.cfg.shards, || in_map(|| {
        if p.cfg.set {
            let mut b = Set::builder_().hasher(Bh).capacity(p.cfg.cap).resize_mode(mode);
            if p.cfg.batch > 0 {
                b = b.collector(seize::Collector::new().batch_size(p.cfg.batch));
            }
            let s: Set = b.build();
            Env::Set(Box::into_raw(Box::new(s)))
        } else {
            let mut b = HashMap::<K, V>::builder().hasher(Bh).capacity(p.cfg.cap).resize_mode(mode);
            if p.cfg.batch > 0 {
                b = b.collector(seize::Collector::new().batch_size(p.cfg.batch));
            }
            let m: Map = b.build();
            Env::Map(Box::into_raw(Box::new(m)))
        }
    }))
}

trait BuilderExt {
    fn builder_() -> papaya::HashSetBuilder<K>;
}
impl BuilderExt for Set {
    fn builder_() -> papaya::HashSetBuilder<K> {
        HashSet::<K>::builder()
    }
}

/// Runs a program under a schedule. Returns `None` if it got stuck.
pub fn run(p: &Program, sched: &sched::Schedule, fin: Final) -> Option<RunInfo> {
    sched::reset(sched);
    NEXT.store(1, Ordering::Relaxed);
    obj::set_hashes(&p.cfg.hashes);
    obj::BALANCE.store(0, Ordering::Relaxed);
    obj::FAULT_TID.store(usize::MAX, Ordering::Relaxed);
    let mut env: Option<Env> = None;

    // Set up.
    let (pp, ep) = (Ptr(p as *const Program), Ptr(&mut env as *mut Option<Env>));
    let ok = sched::phase(
        vec![Box::new(move || {
            let (pp, ep) = (pp, ep);
            let p = unsafe { &*pp.0 };
            let env = build(p);
            unsafe { *(ep.0 as *mut Option<Env>) = Some(env) };
            ev(E::Phase, 0, 0, 0, 0, "");
            if !p.pre.is_empty() {
                run_thr(
                    &env,
                    &Thr {
                        api: 0,
                        hold: true,
                        ops: p.pre.clone(),
                    },
                );
            }
        })],
        false,
    );
    if !ok {
        return None;
    }
    let env = env.unwrap();
    ev(E::Phase, 1, 0, 0, 0, "");
    let jobs: Vec<Box<dyn FnOnce() + Send>> = (0..p.threads.len())
        .map(|i| {
            let thr = Ptr(&p.threads[i] as *const Thr);
            let job: Box<dyn FnOnce() + Send> = Box::new(move || {
                let thr = thr;
                run_thr(&env, unsafe { &*thr.0 })
            });
            job
        })
        .collect();
    if !sched::phase(jobs, true) {
        return None;
    }
    let steps = g().pstep;
    ev(E::Phase, 2, 0, 0, 0, "");
    if fin == Final::Full {
        let keys = p.keys();
        let set = p.cfg.set;
        let ok = sched::phase(
            vec![Box::new(move || {
                let mut ops = vec![];
                for k in keys {
                    ops.push(Op::new(if set { O::Get } else { O::GetKv }, k));
                }
                ops.push(Op::new(O::Iter, 0));
                ops.push(Op::new(O::Len, 0));
                ops.push(Op::new(O::IsEmpty, 0));
                run_thr(
                    &env,
                    &Thr {
                        api: 2,
                        hold: true,
                        ops,
                    },
                );
            })],
            false,
        );
        if !ok {
            return None;
        }
    }
    ev(E::Phase, 3, 0, 0, 0, "");
    let ok = sched::phase(
        vec![Box::new(move || {
            let r = catch_unwind(AssertUnwindSafe(|| {
                in_map(|| match env {
                    Env::Map(m) => drop(unsafe { Box::from_raw(m as *mut Map) }),
                    Env::Set(m) => drop(unsafe { Box::from_raw(m as *mut Set) }),
                })
            }));
            if r.is_err() {
                ev(E::Stuck, 0, 0, 0, 0, "panic in drop");
                g().reclaim_bad += 1;
            }
        })],
        false,
    );
    if !ok {
        return None;
    }
    let balance = obj::BALANCE.load(Ordering::Relaxed);
    let live = g().objs.iter().skip(1).filter(|o| o.drops == 0).count();
    let leaked = sched::release_regions();
    obj::release_quarantine();
    ev(E::Phase, 4, leaked as i32, balance, live as i64, "");
    if live > 0 || leaked > 0 {
        g().reclaim_bad += 1;
    }
    Some(RunInfo {
        steps,
        balance,
        leaked,
        live,
    })
}

struct Ptr<T>(*const T);
impl<T> Clone for Ptr<T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for Ptr<T> {}
unsafe impl<T> Send for Ptr<T> {}
