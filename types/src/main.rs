//! Sequential histories on maps and sets of many types of keys, values and hashers, zero-sized,
//! tiny, large and strictly aligned ones among them, on an allocator that gives exactly what it
//! is asked for: the smallest alignment, filled memory, a check of the bytes behind it, and of
//! the layout that it is returned with.

use equivalent::Equivalent;
use papaya::{Compute, HashMap, HashSet, Operation, ResizeMode};
use serde_json::json;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::hash_map::{DefaultHasher, RandomState};
use std::fmt::Debug;
use std::hash::{BuildHasher, BuildHasherDefault, Hash};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::Arc;

mod rng;
use rng::Rng;

struct Exact;

static WRONG: AtomicI64 = AtomicI64::new(0);
static WHY: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);

const HEAD: usize = 40;
const TAIL: usize = 16;
const MAGIC: u64 = 0x1e9a_c75e_d00d_5eed;

fn outer(l: Layout) -> Layout {
    let a = l.align().max(8);
    Layout::from_size_align(l.size() + HEAD + TAIL + 4 * a, a * 2).unwrap()
}

fn wrong(_why: &str) {
    WRONG.fetch_add(1, Ordering::Relaxed);
}

/// Before the block: where it really begins, its size and alignment, and whether it is in use.
unsafe impl GlobalAlloc for Exact {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let Some(_) = l.size().checked_add(HEAD + TAIL + 8 * l.align() + 64).filter(|x| *x < isize::MAX as usize / 2) else {
            return std::ptr::null_mut();
        };
        let base = System.alloc(outer(l));
        if base.is_null() {
            return base;
        }
        // A multiple of the alignment that is no multiple of twice the alignment.
        let a = l.align();
        let first = base as usize + HEAD;
        let mut p = (first + 2 * a - 1) / (2 * a) * (2 * a) + a;
        if p - 2 * a >= first {
            p -= 2 * a;
        }
        let p = base.add(p - base as usize);
        let h = p.sub(HEAD) as *mut u64;
        h.write_unaligned(base as u64);
        h.add(1).write_unaligned(l.size() as u64);
        h.add(2).write_unaligned(a as u64);
        h.add(3).write_unaligned(MAGIC);
        std::ptr::write_bytes(p, 0xCD, l.size());
        std::ptr::write_bytes(p.add(l.size()), 0xA5, TAIL);
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = p.sub(HEAD) as *mut u64;
        if h.add(3).read_unaligned() != MAGIC {
            return wrong("returned memory that is not in use");
        }
        if h.add(1).read_unaligned() != l.size() as u64 || h.add(2).read_unaligned() != l.align() as u64 {
            wrong("returned memory with another layout");
        }
        let size = h.add(1).read_unaligned() as usize;
        let real = Layout::from_size_align_unchecked(size, h.add(2).read_unaligned() as usize);
        if (0..TAIL).any(|i| p.add(size + i).read() != 0xA5) {
            wrong("wrote behind the end of its memory");
        }
        h.add(3).write_unaligned(0);
        std::ptr::write_bytes(p, 0xDD, size);
        System.dealloc(h.read_unaligned() as *mut u8, outer(real));
    }
}

#[global_allocator]
static ALLOC: Exact = Exact;

static KEYS: AtomicI64 = AtomicI64::new(0);
static VALUES: AtomicI64 = AtomicI64::new(0);

/// A key that is counted.
#[derive(PartialEq, Eq, Hash, Debug)]
struct Ck<T>(T);
/// A value that is counted.
#[derive(PartialEq, Debug)]
struct Cv<T>(T);
impl<T> Ck<T> {
    fn new(t: T) -> Self {
        KEYS.fetch_add(1, Ordering::Relaxed);
        Ck(t)
    }
}
impl<T> Cv<T> {
    fn new(t: T) -> Self {
        VALUES.fetch_add(1, Ordering::Relaxed);
        Cv(t)
    }
}
impl<T> Drop for Ck<T> {
    fn drop(&mut self) {
        KEYS.fetch_sub(1, Ordering::Relaxed);
    }
}
impl<T> Drop for Cv<T> {
    fn drop(&mut self) {
        VALUES.fetch_sub(1, Ordering::Relaxed);
    }
}
impl<T: Clone> Clone for Ck<T> {
    fn clone(&self) -> Self {
        Ck::new(self.0.clone())
    }
}
impl<T: Clone> Clone for Cv<T> {
    fn clone(&self) -> Self {
        Cv::new(self.0.clone())
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
#[repr(align(64))]
struct A64(u32);
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
#[repr(align(256))]
struct A256(u8);
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
#[repr(align(32))]
struct Z32;

/// Types of keys and values: how to make them from numbers, and which numbers they are.
trait Ty {
    type K: Eq + Hash + Clone + Debug + Send + Sync;
    type V: PartialEq + Clone + Debug + Send + Sync;
    type Q: ?Sized + Hash + Equivalent<Self::K>;
    type S: BuildHasher + Default + Clone;
    const KEYS: u32;
    const VALUES: u32;
    fn k(i: u32) -> Self::K;
    fn id(k: &Self::K) -> i64;
    fn q<R>(i: u32, f: impl FnOnce(&Self::Q) -> R) -> R;
    fn v(v: u32) -> Self::V;
    fn rv(v: &Self::V) -> i64;
}

macro_rules! ty {
    ($name:ident: $k:ty, $v:ty, $q:ty, $s:ty, $nk:expr, $nv:expr;
     |$i:ident| $mk:expr; |$kr:ident| $id:expr; |$qi:ident| $mq:expr; |$vi:ident| $mv:expr; |$vr:ident| $rv:expr) => {
        struct $name;
        impl Ty for $name {
            type K = $k;
            type V = $v;
            type Q = $q;
            type S = $s;
            const KEYS: u32 = $nk;
            const VALUES: u32 = $nv;
            fn k($i: u32) -> $k {
                $mk
            }
            fn id($kr: &$k) -> i64 {
                $id as i64
            }
            fn q<R>($qi: u32, f: impl FnOnce(&$q) -> R) -> R {
                f($mq)
            }
            fn v($vi: u32) -> $v {
                $mv
            }
            fn rv($vr: &$v) -> i64 {
                $rv as i64
            }
        }
    };
}

type D = BuildHasherDefault<DefaultHasher>;

ty!(Unit: (), (), (), D, 1, 1; |_i| (); |_k| 0; |_i| &(); |_v| (); |_v| 1);
ty!(UnitCounted: Ck<()>, Cv<()>, Ck<()>, RandomState, 1, 1;
    |_i| Ck::new(()); |_k| 0; |_i| &Ck::new(()); |_v| Cv::new(()); |_v| 1);
ty!(UnitAligned: Z32, Z32, Z32, D, 1, 1; |_i| Z32; |_k| 0; |_i| &Z32; |_v| Z32; |_v| 1);
ty!(UnitKey: (), Cv<u64>, (), D, 1, 1000; |_i| (); |_k| 0; |_i| &(); |v| Cv::new(v as u64); |v| v.0);
ty!(Byte: u8, (), u8, D, 256, 1; |i| i as u8; |k| *k; |i| &(i as u8); |_v| (); |_v| 1);
ty!(ByteCounted: Ck<u8>, Cv<u8>, Ck<u8>, D, 256, 250;
    |i| Ck::new(i as u8); |k| k.0; |i| &Ck::new(i as u8); |v| Cv::new(v as u8); |v| v.0);
ty!(Bool: bool, i8, bool, RandomState, 2, 100; |i| i == 1; |k| *k; |i| &(i == 1); |v| v as i8; |v| *v);
ty!(Three: [u8; 3], [u8; 3], [u8; 3], D, 400, 250;
    |i| [i as u8, (i >> 8) as u8, 7]; |k| k[0] as u32 + 256 * k[1] as u32; |i| &[i as u8, (i >> 8) as u8, 7];
    |v| [v as u8, 1, 2]; |v| v[0]);
ty!(Short: u16, Cv<()>, u16, D, 400, 1; |i| i as u16 * 64; |k| *k / 64; |i| &(i as u16 * 64); |_v| Cv::new(()); |_v| 1);
ty!(Strings: String, Cv<String>, str, RandomState, 400, 1000;
    |i| format!("key {i}"); |k| k[4..].parse::<u32>().unwrap(); |i| &format!("key {i}");
    |v| Cv::new(format!("{v}")); |v| v.0.parse::<u32>().unwrap());
ty!(Slices: Vec<u8>, Option<Box<u32>>, [u8], D, 300, 1000;
    |i| vec![i as u8; 1 + i as usize / 256]; |k| (k[0] as usize + 256 * (k.len() - 1));
    |i| &vec![i as u8; 1 + i as usize / 256]; |v| if v == 1 { None } else { Some(Box::new(v)) };
    |v| v.as_ref().map_or(1, |v| **v));
ty!(Aligned: A64, A256, A64, D, 400, 250; |i| A64(i); |k| k.0; |i| &A64(i); |v| A256(v as u8); |v| v.0);
ty!(Large: [u64; 40], Cv<[u8; 100]>, [u64; 40], D, 60, 250;
    |i| [i as u64; 40]; |k| (if k.iter().all(|x| *x == k[0]) { k[39] } else { 9999 }); |i| &[i as u64; 40];
    |v| Cv::new([v as u8; 100]); |v| v.0[99]);
ty!(Wide: u128, u8, u128, RandomState, 400, 250; |i| (i as u128) << 90; |k| *k >> 90; |i| &((i as u128) << 90);
    |v| v as u8; |v| *v);
ty!(Shared: Arc<str>, &'static str, str, D, 400, 3;
    |i| Arc::from(format!("{i}")); |k| k.parse::<u32>().unwrap(); |i| &format!("{i}");
    |v| ["", "a", "ab", "abc"][v as usize]; |v| v.len());
ty!(Pair: (u8, u32), f64, (u8, u32), D, 400, 1000; |i| (i as u8, i); |k| k.1; |i| &(i as u8, i); |v| v as f64 / 4.0; |v| v * 4.0);
ty!(Owned: Ck<Box<u32>>, Cv<Vec<u32>>, Ck<Box<u32>>, D, 400, 1000;
    |i| Ck::new(Box::new(i)); |k| *k.0; |i| &Ck::new(Box::new(i)); |v| Cv::new(vec![v; 5]); |v| v.0[4]);

const GET: i64 = 1;
const GETKV: i64 = 2;
const HAS: i64 = 3;
const INS: i64 = 4;
const TRYINS: i64 = 5;
const TRYINSW: i64 = 6;
const GOI: i64 = 7;
const GOIW: i64 = 8;
const UPD: i64 = 9;
const UOI: i64 = 10;
const UOIW: i64 = 11;
const COMP: i64 = 12;
const REM: i64 = 13;
const REME: i64 = 14;
const REMIF: i64 = 15;
const CLEAR: i64 = 16;
const RETAIN: i64 = 17;
const ITER: i64 = 18;
const KEYS_: i64 = 19;
const VALUES_: i64 = 20;
const LEN: i64 = 21;
const ISEMPTY: i64 = 22;
const RESERVE: i64 = 23;
const SINS: i64 = 24;
const SREM: i64 = 25;
const SGET: i64 = 26;
const CLONE: i64 = 31;
const EXTEND: i64 = 32;
const FROMITER: i64 = 33;
const EQ: i64 = 34;
const LIVE: i64 = 40;

#[derive(Clone, Default, Debug)]
struct Op {
    o: i64,
    m: usize,
    k: u32,
    v: u32,
    d: i64,
    api: bool,
    l: Vec<[u32; 2]>,
}

/// A recorded call, as in the other sequential histories. All equal keys are the object 0.
struct Ev {
    op: Op,
    r: Vec<i64>,
    c: Vec<[i64; 2]>,
    l: Vec<[i64; 3]>,
}

impl Ev {
    fn json(&self) -> serde_json::Value {
        let o = &self.op;
        let bulk = matches!(o.o, CLONE | EQ);
        let q: Vec<_> = o.l.iter().map(|x| [x[0], 0, x[1]]).collect();
        json!([o.o, o.m + 1, o.k, 0, if bulk { o.v + 1 } else { o.v }, o.d, self.r, self.c, self.l, q])
    }
}

/// A reference that was handed out is aligned.
fn aligned<T>(x: &T) -> &T {
    if (x as *const T as usize) % std::mem::align_of::<T>() != 0 {
        wrong("a reference is not aligned");
    }
    x
}

fn decide(d: i64, k: i64, v: i64) -> bool {
    match d {
        0 => true,
        1 => false,
        2 => (k + v) % 2 == 0,
        _ => k % 3 != 0,
    }
}

struct Cfg {
    chunk: Option<usize>,
    cap: usize,
    batch: usize,
}

fn new_map<T: Ty>(c: &Cfg) -> HashMap<T::K, T::V, T::S> {
    let b = HashMap::builder().hasher(T::S::default()).capacity(c.cap).resize_mode(match c.chunk {
        Some(n) => ResizeMode::Incremental(n),
        None => ResizeMode::Blocking,
    });
    if c.batch > 0 { b.collector(seize::Collector::new().batch_size(c.batch)).build() } else { b.build() }
}

fn new_set<T: Ty>(c: &Cfg) -> HashSet<T::K, T::S> {
    let b = HashSet::builder().hasher(T::S::default()).capacity(c.cap).resize_mode(match c.chunk {
        Some(n) => ResizeMode::Incremental(n),
        None => ResizeMode::Blocking,
    });
    if c.batch > 0 { b.collector(seize::Collector::new().batch_size(c.batch)).build() } else { b.build() }
}

macro_rules! map_op {
    ($T:ident, $op:ident, $e:ident, $m:expr $(, $g:expr)?) => {{
        let rv = |v: &$T::V| $T::rv(aligned(v));
        let rk = |k: &$T::K| $T::id(aligned(k));
        let calls = std::cell::RefCell::new(vec![]);
        let init = || {
            calls.borrow_mut().push([0, $op.v as i64]);
            $T::v($op.v)
        };
        let upd = |v: &$T::V| {
            calls.borrow_mut().push([rv(v), $op.v as i64]);
            $T::v($op.v)
        };
        let (key, new) = (|| $T::k($op.k), || $T::v($op.v));
        match $op.o {
            GET => $e.r.push($T::q($op.k, |q| $m.get(q $(, $g)?).map_or(0, rv))),
            GETKV => if let Some((k, v)) = $T::q($op.k, |q| $m.get_key_value(q $(, $g)?)) {
                $e.r.extend([0, rv(v), rk(k)]);
            },
            HAS => $e.r.push($T::q($op.k, |q| $m.contains_key(q $(, $g)?)) as i64),
            INS => $e.r.push($m.insert(key(), new() $(, $g)?).map_or(0, rv)),
            TRYINS => match $m.try_insert(key(), new() $(, $g)?) {
                Ok(v) => $e.r.extend([1, rv(v), 0]),
                Err(x) => $e.r.extend([0, rv(x.current), $T::rv(&x.not_inserted)]),
            },
            TRYINSW => match $m.try_insert_with(key(), init $(, $g)?) {
                Ok(v) => $e.r.extend([1, rv(v)]),
                Err(v) => $e.r.extend([0, rv(v)]),
            },
            GOI => $e.r.push(rv($m.get_or_insert(key(), new() $(, $g)?))),
            GOIW => $e.r.push(rv($m.get_or_insert_with(key(), init $(, $g)?))),
            UPD => $e.r.push($m.update(key(), upd $(, $g)?).map_or(0, rv)),
            UOI => $e.r.push(rv($m.update_or_insert(key(), upd, new() $(, $g)?))),
            UOIW => $e.r.push(rv($m.update_or_insert_with(key(), upd, init $(, $g)?))),
            COMP => {
                let f = |x: Option<(&$T::K, &$T::V)>| {
                    let (i, d) = match x {
                        Some((k, v)) => {
                            rk(k);
                            (rv(v), $op.d % 4)
                        }
                        None => (0, [0, 2][$op.d as usize / 4]),
                    };
                    calls.borrow_mut().push([i, [$op.v as i64, -1, -2][d as usize]]);
                    match d {
                        0 => Operation::Insert($T::v($op.v)),
                        1 => Operation::Remove,
                        _ => Operation::Abort(77),
                    }
                };
                match $m.compute(key(), f $(, $g)?) {
                    Compute::Inserted(k, v) => $e.r.extend([1, 0, 0, rv(v), rk(k)]),
                    Compute::Updated { old, new } => $e.r.extend([2, rv(old.1), 0, rv(new.1), rk(new.0)]),
                    Compute::Removed(k, v) => $e.r.extend([3, rv(v), 0, 0, rk(k)]),
                    Compute::Aborted(x) => $e.r.extend([4, x, 0, 0, 0]),
                }
            }
            REM => $e.r.push($T::q($op.k, |q| $m.remove(q $(, $g)?).map_or(0, rv))),
            REME => if let Some((k, v)) = $T::q($op.k, |q| $m.remove_entry(q $(, $g)?)) {
                $e.r.extend([0, rv(v), rk(k)]);
            },
            REMIF => {
                let f = |k: &$T::K, v: &$T::V| {
                    let yes = decide($op.d, rk(k), rv(v));
                    calls.borrow_mut().push([rv(v), yes as i64]);
                    yes
                };
                match $T::q($op.k, |q| $m.remove_if(q, f $(, $g)?)) {
                    Ok(None) => $e.r.push(1),
                    Ok(Some((k, v))) => $e.r.extend([2, 0, rv(v), rk(k)]),
                    Err((k, v)) => $e.r.extend([3, 0, rv(v), rk(k)]),
                }
            }
            CLEAR => $m.clear($($g)?),
            RETAIN => {
                let mut seen = vec![];
                $m.retain(|k, v| {
                    let yes = decide($op.d, rk(k), rv(v));
                    seen.push([rk(k), yes as i64, rv(v)]);
                    yes
                } $(, $g)?);
                $e.l = seen;
            }
            ITER => $e.l = $m.iter($($g)?).map(|(k, v)| [rk(k), 0, rv(v)]).collect(),
            KEYS_ => $e.l = $m.keys($($g)?).map(|k| [rk(k), 0, 0]).collect(),
            VALUES_ => $e.l = $m.values($($g)?).map(|v| [0, 0, rv(v)]).collect(),
            LEN => $e.r.push($m.len() as i64),
            ISEMPTY => $e.r.push($m.is_empty() as i64),
            RESERVE => $m.reserve($op.d as usize $(, $g)?),
            o => panic!("unknown operation {o}"),
        }
        $e.c = calls.into_inner();
    }};
}

macro_rules! set_op {
    ($T:ident, $op:ident, $e:ident, $m:expr $(, $g:expr)?) => {{
        let rk = |k: &$T::K| $T::id(aligned(k));
        match $op.o {
            SGET => if let Some(k) = $T::q($op.k, |q| $m.get(q $(, $g)?)) {
                $e.r.extend([0, 0, rk(k)]);
            },
            HAS => $e.r.push($T::q($op.k, |q| $m.contains(q $(, $g)?)) as i64),
            SINS => $e.r.push($m.insert($T::k($op.k) $(, $g)?) as i64),
            SREM => $e.r.push($T::q($op.k, |q| $m.remove(q $(, $g)?)) as i64),
            CLEAR => $m.clear($($g)?),
            ITER => $e.l = $m.iter($($g)?).map(|k| [rk(k), 0, 0]).collect(),
            LEN => $e.r.push($m.len() as i64),
            ISEMPTY => $e.r.push($m.is_empty() as i64),
            RESERVE => $m.reserve($op.d as usize $(, $g)?),
            o => panic!("unknown operation {o}"),
        }
    }};
}

fn run_map<T: Ty>(c: &Cfg, ops: &[Op], log: &mut Vec<Ev>) {
    let mut ms: Vec<Option<HashMap<T::K, T::V, T::S>>> = vec![Some(new_map::<T>(c)), None];
    for op in ops {
        let mut e = Ev { op: op.clone(), r: vec![], c: vec![], l: vec![] };
        if ms[op.m].is_none() && !matches!(op.o, CLONE | FROMITER) || matches!(op.o, CLONE | EQ) && ms[op.v as usize].is_none() {
            continue;
        }
        let pairs = || op.l.iter().map(|x| (T::k(x[0]), T::v(x[1])));
        match op.o {
            CLONE => ms[op.m] = ms[op.v as usize].clone(),
            EXTEND => (ms[op.m].as_ref().unwrap()).extend(pairs()),
            FROMITER => ms[op.m] = Some(pairs().collect()),
            EQ => e.r.push((ms[op.m] == ms[op.v as usize]) as i64),
            _ => {
                let m = ms[op.m].as_ref().unwrap();
                if op.api {
                    let mut p = m.pin();
                    let p = &mut p;
                    map_op!(T, op, e, p)
                } else {
                    let g = m.owned_guard();
                    map_op!(T, op, e, m, &g)
                }
            }
        }
        log.push(e);
    }
}

fn run_set<T: Ty>(c: &Cfg, ops: &[Op], log: &mut Vec<Ev>) {
    let mut ms: Vec<Option<HashSet<T::K, T::S>>> = vec![Some(new_set::<T>(c)), None];
    for op in ops {
        let mut e = Ev { op: op.clone(), r: vec![], c: vec![], l: vec![] };
        if ms[op.m].is_none() && !matches!(op.o, CLONE | FROMITER) || matches!(op.o, CLONE | EQ) && ms[op.v as usize].is_none() {
            continue;
        }
        let keys = || op.l.iter().map(|x| T::k(x[0]));
        match op.o {
            CLONE => ms[op.m] = ms[op.v as usize].clone(),
            EXTEND => (ms[op.m].as_ref().unwrap()).extend(keys()),
            FROMITER => ms[op.m] = Some(keys().collect()),
            EQ => e.r.push((ms[op.m] == ms[op.v as usize]) as i64),
            _ => {
                let m = ms[op.m].as_ref().unwrap();
                if op.api {
                    let p = m.pin();
                    set_op!(T, op, e, p)
                } else {
                    let g = m.owned_guard();
                    set_op!(T, op, e, m, &g)
                }
            }
        }
        log.push(e);
    }
}

fn program<T: Ty>(r: &mut Rng, set: bool) -> (Cfg, Vec<Op>) {
    let c = Cfg {
        chunk: r.pick(&[None, Some(1), Some(1), Some(2), Some(64)]),
        cap: r.pick(&[0, 0, 1, 5, 8, 24]),
        batch: r.pick(&[0, 1, 1, 4]),
    };
    let keys = r.pick(&[2, 5, 12, 40, 400]).min(T::KEYS as u64);
    let n = r.pick(&[20, 60, 150]);
    let mut ops: Vec<Op> = vec![];
    let kinds: &[(i64, u64)] = if set {
        &[
            (SGET, 6), (HAS, 5), (SINS, 14), (SREM, 8), (CLEAR, 1), (ITER, 2), (LEN, 3), (ISEMPTY, 1), (RESERVE, 2),
            (CLONE, 1), (EXTEND, 2), (FROMITER, 1), (EQ, 2),
        ]
    } else {
        &[
            (GET, 6), (GETKV, 5), (HAS, 3), (INS, 14), (TRYINS, 5), (TRYINSW, 4), (GOI, 4), (GOIW, 4), (UPD, 5), (UOI, 5),
            (UOIW, 5), (COMP, 9), (REM, 6), (REME, 4), (REMIF, 5), (CLEAR, 1), (RETAIN, 2), (ITER, 2), (KEYS_, 1),
            (VALUES_, 1), (LEN, 3), (ISEMPTY, 1), (RESERVE, 2), (CLONE, 1), (EXTEND, 3), (FROMITER, 1), (EQ, 2),
        ]
    };
    while (ops.len() as u64) < n {
        let mut op = Op {
            o: r.weighted(kinds),
            m: (r.below(6) == 0) as usize,
            k: r.below(keys) as u32,
            v: 1 + r.below(T::VALUES as u64) as u32,
            d: r.below(4) as i64,
            api: r.below(2) == 0,
            l: vec![],
        };
        match op.o {
            COMP => op.d = r.pick(&[0, 0, 1, 1, 2, 4, 5, 6]),
            RESERVE => op.d = r.pick(&[0, 1, 10, 100]),
            CLONE => op.v = 1 - op.m as u32,
            EQ => op.v = r.below(2) as u32,
            EXTEND | FROMITER => {
                let v = T::VALUES as u64;
                op.l = (0..r.pick(&[0, 2, 8, 20]))
                    .map(|_| [r.below(keys) as u32, if set { 0 } else { 1 + r.below(v) as u32 }])
                    .collect();
            }
            SINS => op.v = 0,
            _ => {}
        }
        ops.push(op);
    }
    for k in 0..keys.min(40) as u32 {
        ops.push(Op { o: if set { SGET } else { GETKV }, k, ..Op::default() });
    }
    ops.extend([ITER, LEN].map(|o| Op { o, ..Op::default() }));
    (c, ops)
}

fn history<T: Ty>(seed: u64, idx: u64) -> (Vec<Ev>, Vec<i64>) {
    let mut r = Rng(rng::mix(seed ^ rng::mix(idx)));
    let set = r.below(4) == 0;
    let (c, ops) = program::<T>(&mut r, set);
    let now = || [KEYS.load(Ordering::Relaxed), VALUES.load(Ordering::Relaxed), 0, WRONG.load(Ordering::Relaxed)];
    let before = now();
    let mut log = vec![];
    let done = catch_unwind(AssertUnwindSafe(|| {
        if set {
            run_set::<T>(&c, &ops, &mut log)
        } else {
            run_map::<T>(&c, &ops, &mut log)
        }
    }));
    let mut live: Vec<i64> = now().iter().zip(before).map(|(a, b)| a - b).collect();
    if done.is_err() {
        live[2] = 1;
    }
    (log, live)
}

macro_rules! all {
    ($($t:ident),*) => {
        const NAMES: &[&str] = &[$(stringify!($t)),*];
        const HISTORIES: &[fn(u64, u64) -> (Vec<Ev>, Vec<i64>)] = &[$(history::<$t>),*];
    };
}
all!(
    Unit, UnitCounted, UnitAligned, UnitKey, Byte, ByteCounted, Bool, Three, Short, Strings, Slices, Aligned, Large, Wide,
    Shared, Pair, Owned
);

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| {
        args.iter().position(|a| a == &format!("--{k}")).map_or(d.to_string(), |i| args[i + 1].clone())
    };
    let shard = get("shard", "0/1");
    let (shard, shards) = shard.split_once('/').unwrap();
    let (shard, shards): (u64, u64) = (shard.parse().unwrap(), shards.parse().unwrap());
    let out = get("out", "/tmp/out");
    let (seed, time, cap): (u64, f64, u64) =
        (get("seed", "1").parse().unwrap(), get("time", "5").parse().unwrap(), get("cap", "100").parse().unwrap());
    let mut only: Option<u64> = args.iter().position(|a| a == "--only").map(|i| args[i + 1].parse().unwrap());
    std::panic::set_hook(Box::new(|p| *WHY.lock().unwrap() = Some(p.to_string())));
    static PROGRESS: AtomicU64 = AtomicU64::new(0);
    std::thread::spawn(|| loop {
        let x = PROGRESS.load(Ordering::Relaxed);
        std::thread::sleep(std::time::Duration::from_secs(20));
        if x == PROGRESS.load(Ordering::Relaxed) {
            std::process::exit(3);
        }
    });
    let file = |n: &str| std::io::BufWriter::new(std::fs::File::create(format!("{out}/{n}.{shard}.ndjson")).unwrap());
    let (mut seq, mut live) = (file("seq"), file("live"));
    let (t0, mut runs, mut steps) = (std::time::Instant::now(), 0, 0);
    let mut idx = shard;
    while t0.elapsed().as_secs_f64() < time && runs < cap {
        let i = only.unwrap_or(idx);
        std::fs::write(format!("{out}/current.{shard}"), format!("{i}\n")).unwrap();
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        let n = i as usize % NAMES.len();
        let (log, left) = HISTORIES[n](seed, i);
        let mut t: Vec<_> = log.iter().map(|e| e.json()).collect();
        let end = json!([LIVE, 1, 0, 0, 0, 0, left, [], [], []]);
        // A call that panicked cannot be right.
        let panic = (left[2] != 0).then(|| WHY.lock().unwrap().take());
        t.push(end.clone());
        writeln!(seq, "{}", json!({"p": i, "types": NAMES[n], "panic": panic, "t": t})).unwrap();
        writeln!(live, "{}", json!({"p": i, "types": NAMES[n], "t": [end]})).unwrap();
        runs += 1;
        steps += t.len();
        if only.take().is_some() {
            break;
        }
        idx += shards;
    }
    seq.flush().unwrap();
    live.flush().unwrap();
    std::fs::write(format!("{out}/stats.{shard}"), json!({"runs": runs, "steps": steps}).to_string()).unwrap();
}
