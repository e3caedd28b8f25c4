//! Sequential histories: runs programs, one call at a time, on the real map and records what
//! every call returned.

use crate::obj::in_map;
use equivalent::Equivalent;
use papaya::verif::{Access, Hooks};
use papaya::{Compute, Guard, HashMap, HashMapRef, HashSet, HashSetRef, Operation, ResizeMode};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::hash::{BuildHasher, Hash, Hasher};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

const ALIVE: u32 = 0xA11CE5ED;

pub static KEYS: AtomicI64 = AtomicI64::new(0);
pub static VALUES: AtomicI64 = AtomicI64::new(0);
pub static EQS: AtomicI64 = AtomicI64::new(0);
pub static DEAD: AtomicI64 = AtomicI64::new(0);
static OID: AtomicUsize = AtomicUsize::new(1);
static HK: AtomicU64 = AtomicU64::new(0);
static HS: AtomicU64 = AtomicU64::new(0);

/// A key: `id` is its value, `oid` the identity of the object.
pub struct K {
    pub id: u32,
    pub oid: u32,
    magic: u32,
}

#[derive(Debug)]
pub struct V {
    pub v: u32,
    magic: u32,
}

#[derive(Clone, Copy)]
pub struct Q(pub u32);

/// The keys of the prefix of a history have numbers that do not depend on the order of its calls.
static PREFIX: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

impl K {
    pub fn new(id: u32) -> K {
        KEYS.fetch_add(1, Ordering::Relaxed);
        let oid = if PREFIX.load(Ordering::Relaxed) { 1000 + id } else { OID.fetch_add(1, Ordering::Relaxed) as u32 };
        K { id, oid, magic: ALIVE }
    }
    pub fn read(&self) -> (u32, u32) {
        if unsafe { std::ptr::read_volatile(&self.magic) } != ALIVE {
            DEAD.fetch_add(1, Ordering::Relaxed);
        }
        (self.id, self.oid)
    }
}

impl V {
    pub fn new(v: u32) -> V {
        VALUES.fetch_add(1, Ordering::Relaxed);
        V { v, magic: ALIVE }
    }
    pub fn read(&self) -> i64 {
        if unsafe { std::ptr::read_volatile(&self.magic) } != ALIVE {
            DEAD.fetch_add(1, Ordering::Relaxed);
            return -9;
        }
        self.v as i64
    }
}

impl Drop for K {
    fn drop(&mut self) {
        self.read();
        unsafe { std::ptr::write_volatile(&mut self.magic, 1) };
        KEYS.fetch_sub(1, Ordering::Relaxed);
    }
}
impl Drop for V {
    fn drop(&mut self) {
        self.read();
        unsafe { std::ptr::write_volatile(&mut self.magic, 1) };
        VALUES.fetch_sub(1, Ordering::Relaxed);
    }
}
impl Clone for K {
    fn clone(&self) -> K {
        K::new(self.read().0)
    }
}
impl Clone for V {
    fn clone(&self) -> V {
        V::new(self.read() as u32)
    }
}
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        EQS.fetch_add(1, Ordering::Relaxed);
        self.read().0 == o.read().0
    }
}
impl Eq for K {}
impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        self.read() == o.read()
    }
}
impl Eq for V {}
impl std::fmt::Debug for K {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "k{}", self.read().0)
    }
}
impl Hash for K {
    fn hash<H: Hasher>(&self, state: &mut H) {
        state.write_u64(hash_of(self.read().0));
    }
}
impl Hash for Q {
    fn hash<H: Hasher>(&self, state: &mut H) {
        state.write_u64(hash_of(self.0));
    }
}
impl Equivalent<K> for Q {
    fn equivalent(&self, key: &K) -> bool {
        EQS.fetch_add(1, Ordering::Relaxed);
        key.read().0 == self.0
    }
}
impl Serialize for K {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u32(self.read().0)
    }
}
impl Serialize for V {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u32(self.read() as u32)
    }
}
impl<'de> Deserialize<'de> for K {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<K, D::Error> {
        u32::deserialize(d).map(K::new)
    }
}
impl<'de> Deserialize<'de> for V {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<V, D::Error> {
        u32::deserialize(d).map(V::new)
    }
}

fn mix(x: u64) -> u64 {
    let mut s = x;
    crate::sched::splitmix(&mut s)
}

pub fn set_hash(kind: u64, seed: u64) {
    HK.store(kind, Ordering::Relaxed);
    HS.store(seed, Ordering::Relaxed);
}

pub fn hash_of(id: u32) -> u64 {
    let (k, s) = (HK.load(Ordering::Relaxed), HS.load(Ordering::Relaxed));
    let id = id as u64;
    match k {
        0 => mix(id ^ s << 20),
        1 => 0x1234567812345678,
        2 => mix(id % 4),
        3 => mix(id ^ s << 20) & 0xFE00_0000_0000_0000,
        4 => id,
        5 => mix(id ^ s << 20) >> 8,
        6 => id * 8,
        _ => id << 40,
    }
}

/// The largest number of keys that a hash function can tell apart well enough: the map does not
/// support hundreds of keys with the same hash.
pub fn max_keys(kind: u64) -> u32 {
    match kind {
        1 | 3 | 7 => 30,
        2 => 80,
        _ => 400,
    }
}

#[derive(Clone, Copy, Default)]
pub struct Bh;
pub struct Hx(u64);
impl BuildHasher for Bh {
    type Hasher = Hx;
    fn build_hasher(&self) -> Hx {
        Hx(0)
    }
}
impl Hasher for Hx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x;
    }
}

include!("api_body.rs");

/// Records the allocations of tables.
pub struct Tables;
pub static TABLE_LOG: Mutex<Vec<(bool, usize)>> = Mutex::new(vec![]);
pub static TABLE_BYTES: AtomicI64 = AtomicI64::new(0);
pub static TABLES: AtomicI64 = AtomicI64::new(0);

impl Hooks for Tables {
    unsafe fn atomic(&self, _: &Access) -> Option<(u64, bool)> {
        None
    }
    fn fence(&self, _: Ordering) {}
    fn lock(&self, _: usize, _: bool) {}
    fn lock_blocked(&self, _: usize) -> bool {
        false
    }
    fn locked(&self, _: usize) {}
    fn unlocked(&self, _: usize) {}
    fn park(&self, _: bool) -> bool {
        false
    }
    fn unpark(&self, _: std::thread::ThreadId) -> bool {
        false
    }
    fn spin(&self) {}
    fn alloc(&self, _: usize, size: usize) {
        TABLES.fetch_add(1, Ordering::Relaxed);
        TABLE_BYTES.fetch_add(size as i64, Ordering::Relaxed);
        TABLE_LOG.lock().unwrap().push((true, size));
    }
    fn dealloc(&self, _: usize, size: usize) -> bool {
        TABLES.fetch_sub(1, Ordering::Relaxed);
        TABLE_BYTES.fetch_sub(size as i64, Ordering::Relaxed);
        TABLE_LOG.lock().unwrap().push((false, size));
        true
    }
    fn copy_chunk(&self, usual: usize) -> usize {
        chunk(usual)
    }
}

/// The number of entries that are copied at a time by blocking resizes (0: as usual).
pub static BCHUNK: AtomicUsize = AtomicUsize::new(0);
pub fn chunk(usual: usize) -> usize {
    match BCHUNK.load(Ordering::Relaxed) {
        0 => usual,
        n => n,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    pub chunk: Option<usize>,
    pub cap: usize,
    pub hk: u64,
    pub hs: u64,
    pub batch: usize,
    pub set: bool,
    /// 0: builder, 1: with_capacity_and_hasher, 2: with_hasher, 3: default.
    pub ctor: u8,
    /// The number of entries copied at a time by blocking resizes (0: as usual).
    #[serde(default)]
    pub bchunk: usize,
}

/// An operation. `l` is the list of pairs of a bulk operation.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct SOp {
    pub o: i64,
    #[serde(default)]
    pub m: usize,
    #[serde(default)]
    pub k: u32,
    #[serde(default)]
    pub v: u32,
    #[serde(default)]
    pub d: i64,
    #[serde(default)]
    pub api: u8,
    #[serde(default)]
    pub th: u8,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub l: Vec<[u32; 2]>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SProg {
    pub cfg: Cfg,
    pub ops: Vec<SOp>,
    /// How many of the operations only bring the map into its initial state.
    #[serde(default)]
    pub pre: usize,
}

pub const GET: i64 = 1;
pub const GETKV: i64 = 2;
pub const HAS: i64 = 3;
pub const INS: i64 = 4;
pub const TRYINS: i64 = 5;
pub const TRYINSW: i64 = 6;
pub const GOI: i64 = 7;
pub const GOIW: i64 = 8;
pub const UPD: i64 = 9;
pub const UOI: i64 = 10;
pub const UOIW: i64 = 11;
pub const COMP: i64 = 12;
pub const REM: i64 = 13;
pub const REME: i64 = 14;
pub const REMIF: i64 = 15;
pub const CLEAR: i64 = 16;
pub const RETAIN: i64 = 17;
pub const ITER: i64 = 18;
pub const KEYS_: i64 = 19;
pub const VALUES_: i64 = 20;
pub const LEN: i64 = 21;
pub const ISEMPTY: i64 = 22;
pub const RESERVE: i64 = 23;
pub const SINS: i64 = 24;
pub const SREM: i64 = 25;
pub const SGET: i64 = 26;
pub const CLONE: i64 = 31;
pub const EXTEND: i64 = 32;
pub const FROMITER: i64 = 33;
pub const EQ: i64 = 34;
pub const DEBUG: i64 = 35;
pub const SER: i64 = 36;
pub const DESER: i64 = 37;
pub const EXTREF: i64 = 38;
pub const FROMARR: i64 = 39;
pub const LIVE: i64 = 40;

/// A recorded call: operation, map, key, key object, value, decision, result, calls of the
/// closure, content returned, content given.
#[derive(Clone, Debug)]
pub struct SEv {
    pub o: i64,
    pub m: usize,
    pub k: u32,
    pub ko: u32,
    pub v: u32,
    pub d: i64,
    pub r: Vec<i64>,
    pub c: Vec<[i64; 2]>,
    pub l: Vec<[i64; 3]>,
    pub q: Vec<[i64; 3]>,
}

impl SEv {
    pub fn json(&self) -> serde_json::Value {
        json!([self.o, self.m, self.k, self.ko, self.v, self.d, self.r, self.c, self.l, self.q])
    }
}

pub enum Obj {
    M(Map),
    S(Set),
}

pub fn mode(c: &Cfg) -> ResizeMode {
    BCHUNK.store(c.bchunk, Ordering::Relaxed);
    match c.chunk {
        Some(n) => ResizeMode::Incremental(n),
        None => ResizeMode::Blocking,
    }
}

pub fn build_map(c: &Cfg) -> Map {
    match c.ctor {
        1 => HashMap::with_capacity_and_hasher(c.cap, Bh),
        2 => HashMap::with_hasher(Bh),
        3 => HashMap::default(),
        _ => {
            let mut b = HashMap::<K, V>::builder().hasher(Bh).capacity(c.cap).resize_mode(mode(c));
            if c.batch > 0 {
                b = b.collector(seize::Collector::new().batch_size(c.batch));
            }
            b.build()
        }
    }
}

pub fn build_set(c: &Cfg) -> Set {
    match c.ctor {
        1 => HashSet::with_capacity_and_hasher(c.cap, Bh),
        2 => HashSet::with_hasher(Bh),
        3 => HashSet::default(),
        _ => {
            let mut b = HashSet::<K>::builder().hasher(Bh).capacity(c.cap).resize_mode(mode(c));
            if c.batch > 0 {
                b = b.collector(seize::Collector::new().batch_size(c.batch));
            }
            b.build()
        }
    }
}

pub fn with_map(m: &Map, api: u8, f: &mut dyn FnMut(&mut dyn Api)) {
    match api {
        0 => {
            let g = m.guard();
            f(&mut Direct { m, g: &g })
        }
        1 => {
            let g = m.owned_guard();
            f(&mut Direct { m, g: &g })
        }
        2 => f(&mut m.pin()),
        _ => f(&mut m.pin_owned()),
    }
}

pub fn with_set(m: &Set, api: u8, f: &mut dyn FnMut(&mut dyn SetApi)) {
    match api {
        0 => {
            let g = m.guard();
            f(&mut DirectSet { m, g: &g })
        }
        1 => {
            let g = m.owned_guard();
            f(&mut DirectSet { m, g: &g })
        }
        2 => f(&mut m.pin()),
        _ => f(&mut m.pin_owned()),
    }
}

fn rv(v: *const V) -> i64 {
    unsafe { (*v).read() }
}
fn rk(k: *const K) -> [i64; 2] {
    let (id, oid) = unsafe { (*k).read() };
    [id as i64, oid as i64]
}

/// Whether the closure of `retain` or `remove_if` says yes.
pub fn decide(d: i64, k: i64, v: i64) -> bool {
    match d {
        0 => true,
        1 => false,
        2 => (k + v) % 2 == 0,
        3 => k % 3 != 0,
        _ => v % 3 == 0,
    }
}

/// Parses the debug output of a map or a set.
fn parse(s: &str, set: bool) -> Option<Vec<[i64; 3]>> {
    let s = s.strip_prefix('{').or_else(|| s.strip_prefix('['))?;
    let s = s.strip_suffix('}').or_else(|| s.strip_suffix(']'))?;
    let mut out = vec![];
    if s.is_empty() {
        return Some(out);
    }
    if set {
        for x in s.split(", ") {
            out.push([x.strip_prefix('k')?.parse().ok()?, 0, 0]);
        }
    } else {
        // `k1: V { v: 2, magic: 3 }` or `(k1, V {..})`.
        for x in s.split(" }").filter(|x| x.contains('k')) {
            let i = x.find('k')?;
            let k: String = x[i + 1..].chars().take_while(|c| c.is_ascii_digit()).collect();
            let i = x.find("v: ")?;
            let v: String = x[i + 3..].chars().take_while(|c| c.is_ascii_digit()).collect();
            out.push([k.parse().ok()?, 0, v.parse().ok()?]);
        }
    }
    Some(out)
}

/// Parses JSON without merging repeated keys.
struct Pairs(Vec<[i64; 3]>);
impl<'de> Deserialize<'de> for Pairs {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Pairs, D::Error> {
        struct Vis;
        impl<'de> serde::de::Visitor<'de> for Vis {
            type Value = Pairs;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, "a map or a sequence")
            }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Pairs, A::Error> {
                let mut v = vec![];
                while let Some((k, x)) = a.next_entry::<u32, u32>()? {
                    v.push([k as i64, 0, x as i64]);
                }
                Ok(Pairs(v))
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Pairs, A::Error> {
                let mut v = vec![];
                while let Some(k) = a.next_element::<u32>()? {
                    v.push([k as i64, 0, 0]);
                }
                Ok(Pairs(v))
            }
        }
        d.deserialize_any(Vis)
    }
}

/// A negative number stands for more entries than there can be room for.
fn entries(d: i64) -> usize {
    if d < 0 {
        1 << 60
    } else {
        d as usize
    }
}

fn map_op(m: &Map, op: &SOp, e: &mut SEv) {
    let (k, d) = (op.k, op.d);
    let key = matches!(op.o, INS | TRYINS | TRYINSW | GOI | GOIW | UPD | UOI | UOIW | COMP).then(|| K::new(k));
    e.ko = key.as_ref().map_or(0, |k| k.oid);
    let mut key = key;
    let q = Q(k);
    let mut calls: Vec<[i64; 2]> = vec![];
    let mut seen: Vec<[i64; 3]> = vec![];
    let mut res: Vec<i64> = vec![];
    let mut list: Vec<[i64; 3]> = vec![];
    let done = catch_unwind(AssertUnwindSafe(|| with_map(m, op.api, &mut |a: &mut dyn Api| {
        let new = || V::new(op.v);
        let calls_ = std::cell::RefCell::new(&mut calls);
        let mut init = || {
            calls_.borrow_mut().push([0, op.v as i64]);
            V::new(op.v)
        };
        let upd = |v: &V| {
            let v = v.read();
            calls_.borrow_mut().push([v, op.v as i64]);
            V::new(op.v)
        };
        match op.o {
            GET => res.push(a.get(&q).map_or(0, rv)),
            GETKV => {
                if let Some((k, v)) = a.get_kv(&q) {
                    let [id, oid] = rk(k);
                    res.extend([oid, rv(v), id]);
                }
            }
            HAS => res.push(a.has(&q) as i64),
            INS => res.push(a.ins(key.take().unwrap(), new()).map_or(0, rv)),
            TRYINS => match a.try_ins(key.take().unwrap(), new()) {
                Ok(v) => res.extend([1, rv(v), 0]),
                Err((v, back)) => res.extend([0, rv(v), back.read()]),
            },
            TRYINSW => match a.try_ins_w(key.take().unwrap(), &mut init) {
                Ok(v) => res.extend([1, rv(v)]),
                Err(v) => res.extend([0, rv(v)]),
            },
            GOI => res.push(rv(a.goi(key.take().unwrap(), new()))),
            GOIW => res.push(rv(a.goiw(key.take().unwrap(), &mut init))),
            UPD => res.push(a.upd(key.take().unwrap(), &upd).map_or(0, rv)),
            UOI => res.push(rv(a.uoi(key.take().unwrap(), &upd, new()))),
            UOIW => res.push(rv(a.uoiw(key.take().unwrap(), &upd, &mut init))),
            COMP => {
                let mut f = |x: Option<(&K, &V)>| {
                    let (i, d) = match x {
                        Some((k, v)) => {
                            k.read();
                            (v.read(), d % 4)
                        }
                        None => (0, [0, 2, 1][d as usize / 4]),
                    };
                    match d {
                        0 => {
                            calls_.borrow_mut().push([i, op.v as i64]);
                            Operation::Insert(V::new(op.v))
                        }
                        1 => {
                            calls_.borrow_mut().push([i, -1]);
                            Operation::Remove
                        }
                        _ => {
                            calls_.borrow_mut().push([i, -2]);
                            Operation::Abort(77)
                        }
                    }
                };
                match a.comp(key.take().unwrap(), &mut f) {
                    CompR::Ins(k, v) => res.extend([1, 0, rk(k)[1], rv(v), rk(k)[0]]),
                    CompR::Upd(o, k, v) => res.extend([2, rv(o), rk(k)[1], rv(v), rk(k)[0]]),
                    CompR::Rem(k, v) => res.extend([3, rv(v), rk(k)[1], 0, rk(k)[0]]),
                    CompR::Abort(x) => res.extend([4, x, 0, 0, 0]),
                }
            }
            REM => res.push(a.rem(&q).map_or(0, rv)),
            REME => {
                if let Some((k, v)) = a.rem_e(&q) {
                    let [id, oid] = rk(k);
                    res.extend([oid, rv(v), id]);
                }
            }
            REMIF => {
                let mut f = |k: &K, v: &V| {
                    let (k, v) = (k.read().0 as i64, v.read());
                    let yes = decide(d, k, v);
                    calls_.borrow_mut().push([v, yes as i64]);
                    yes
                };
                match a.rem_if(&q, &mut f) {
                    Ok(None) => res.push(1),
                    Ok(Some((k, v))) => {
                        let [id, oid] = rk(k);
                        res.extend([2, oid, rv(v), id]);
                    }
                    Err((k, v)) => {
                        let [id, oid] = rk(k);
                        res.extend([3, oid, rv(v), id]);
                    }
                }
            }
            CLEAR => a.clear(),
            RETAIN => a.retain(&mut |k, v| {
                let (k, v) = (k.read().0 as i64, v.read());
                let yes = decide(d, k, v);
                seen.push([k, yes as i64, v]);
                yes
            }),
            ITER => {
                if op.d == 1 {
                    let p = m.pin();
                    for (k, v) in &p {
                        let [id, oid] = rk(k);
                        list.push([id, oid, rv(v)]);
                    }
                } else {
                    for (k, v) in a.iter() {
                        let [id, oid] = rk(k);
                        list.push([id, oid, rv(v)]);
                    }
                }
            }
            KEYS_ => {
                for k in a.keys() {
                    let [id, oid] = rk(k);
                    list.push([id, oid, 0]);
                }
            }
            VALUES_ => {
                for v in a.values() {
                    list.push([0, 0, rv(v)]);
                }
            }
            LEN => res.push(a.len() as i64),
            ISEMPTY => res.push(a.is_empty() as i64),
            RESERVE => a.reserve(entries(d)),
            o => panic!("unknown operation {o}"),
        }
    })));
    if let Err(p) = done {
        // The panics that the documentation announces.
        if !(op.o == RESERVE && d < 0 || op.o == COMP && calls.last() == Some(&[0, -1])) {
            resume_unwind(p);
        }
        res = vec![-1];
    }
    e.r = res;
    e.c = calls;
    e.l = if op.o == RETAIN { seen } else { list };
}

fn set_op(m: &Set, op: &SOp, e: &mut SEv) {
    let (k, d) = (op.k, op.d);
    let mut key = (op.o == SINS).then(|| K::new(k));
    e.ko = key.as_ref().map_or(0, |k| k.oid);
    let q = Q(k);
    let mut res: Vec<i64> = vec![];
    let mut list: Vec<[i64; 3]> = vec![];
    let done = catch_unwind(AssertUnwindSafe(|| with_set(m, op.api, &mut |a: &mut dyn SetApi| match op.o {
        SGET => {
            if let Some(k) = a.get(&q) {
                let [id, oid] = rk(k);
                res.extend([oid, 0, id]);
            }
        }
        HAS => res.push(a.has(&q) as i64),
        SINS => res.push(a.ins(key.take().unwrap()) as i64),
        SREM => res.push(a.rem(&q) as i64),
        CLEAR => a.clear(),
        RETAIN => a.retain(&mut |k| {
            let k = k.read().0 as i64;
            let yes = decide(d, k, 0);
            list.push([k, yes as i64, 0]);
            yes
        }),
        ITER => {
            if op.d == 1 {
                let p = m.pin();
                for k in &p {
                    let [id, oid] = rk(k);
                    list.push([id, oid, 0]);
                }
            } else {
                for k in a.iter() {
                    let [id, oid] = rk(k);
                    list.push([id, oid, 0]);
                }
            }
        }
        LEN => res.push(a.len() as i64),
        ISEMPTY => res.push(a.is_empty() as i64),
        RESERVE => a.reserve(entries(d)),
        o => panic!("unknown operation of a set {o}"),
    })));
    if let Err(p) = done {
        if !(op.o == RESERVE && d < 0) {
            resume_unwind(p);
        }
        res = vec![-1];
    }
    e.r = res;
    e.l = list;
}

/// An iterator without a useful size hint.
struct NoHint<I>(I);
impl<I: Iterator> Iterator for NoHint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
}

/// An iterator that claims to be endless.
struct Liar<I>(I);
impl<I: Iterator> Iterator for Liar<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (1 << 60, Some(1 << 60))
    }
}

/// Operations on whole maps.
fn bulk_op(ms: &mut [Option<Obj>], op: &SOp, e: &mut SEv) {
    let set = matches!(ms[0], Some(Obj::S(_)));
    let m = op.m;
    let hint = op.d % 2 == 0;
    match op.o {
        CLONE => {
            let c = match ms[op.v as usize].as_ref().unwrap() {
                Obj::M(x) => Obj::M(x.clone()),
                Obj::S(x) => Obj::S(x.clone()),
            };
            ms[m] = Some(c);
        }
        EXTEND => {
            if set {
                let keys: Vec<K> = op.l.iter().map(|x| K::new(x[0])).collect();
                e.q = keys.iter().map(|k| [k.id as i64, k.oid as i64, 0]).collect();
                let Some(Obj::S(s)) = &ms[m] else { unreachable!() };
                let mut s = s;
                if hint {
                    s.extend(keys)
                } else {
                    s.extend(NoHint(keys.into_iter()))
                }
            } else {
                let items: Vec<(K, V)> = op.l.iter().map(|x| (K::new(x[0]), V::new(x[1]))).collect();
                e.q = items.iter().map(|(k, v)| [k.id as i64, k.oid as i64, v.v as i64]).collect();
                let Some(Obj::M(s)) = &ms[m] else { unreachable!() };
                let mut s = s;
                if hint {
                    s.extend(items)
                } else {
                    s.extend(NoHint(items.into_iter()))
                }
            }
        }
        FROMITER => {
            ms[m] = Some(if set {
                let keys: Vec<K> = op.l.iter().map(|x| K::new(x[0])).collect();
                e.q = keys.iter().map(|k| [k.id as i64, k.oid as i64, 0]).collect();
                Obj::S(if hint { keys.into_iter().collect() } else { NoHint(keys.into_iter()).collect() })
            } else {
                let items: Vec<(K, V)> = op.l.iter().map(|x| (K::new(x[0]), V::new(x[1]))).collect();
                e.q = items.iter().map(|(k, v)| [k.id as i64, k.oid as i64, v.v as i64]).collect();
                Obj::M(if hint { items.into_iter().collect() } else { NoHint(items.into_iter()).collect() })
            });
        }
        EQ => {
            let b = match (&ms[m], &ms[op.v as usize]) {
                (Some(Obj::M(a)), Some(Obj::M(b))) => {
                    let r = a == b;
                    if r == (a != b) {
                        2
                    } else {
                        r as i64
                    }
                }
                (Some(Obj::S(a)), Some(Obj::S(b))) => (a == b) as i64,
                _ => unreachable!(),
            };
            e.r.push(b);
        }
        DEBUG => {
            let s = match (ms[m].as_ref().unwrap(), op.d % 3) {
                (Obj::M(x), 0) => format!("{x:?}"),
                (Obj::M(x), 1) => format!("{:?}", x.pin()),
                (Obj::M(x), _) => format!("{:?}", x.pin().iter()),
                (Obj::S(x), 0) => format!("{x:?}"),
                (Obj::S(x), 1) => format!("{:?}", x.pin()),
                (Obj::S(x), _) => format!("{:?}", x.pin().iter()),
            };
            match parse(&s, set) {
                Some(l) => e.l = l,
                None => e.r.push(-1),
            }
        }
        SER => {
            let s = match (ms[m].as_ref().unwrap(), op.d % 2) {
                (Obj::M(x), 0) => serde_json::to_string(x),
                (Obj::M(x), _) => serde_json::to_string(&x.pin()),
                (Obj::S(x), 0) => serde_json::to_string(x),
                (Obj::S(x), _) => serde_json::to_string(&x.pin()),
            };
            match s.ok().and_then(|s| serde_json::from_str::<Pairs>(&s).ok()) {
                Some(l) => e.l = l.0,
                None => e.r.push(-1),
            }
        }
        DESER => {
            e.q = op.l.iter().map(|x| [x[0] as i64, 0, if set { 0 } else { x[1] as i64 }]).collect();
            // From JSON, from an iterator (with a size that is right or wrong), or from broken JSON.
            use serde::de::value::{Error, MapDeserializer, SeqDeserializer};
            let x: Option<Obj> = if set {
                let it = op.l.iter().map(|x| x[0]);
                match op.d {
                    1 => Set::deserialize(SeqDeserializer::<_, Error>::new(it)).ok().map(Obj::S),
                    2 => Set::deserialize(SeqDeserializer::<_, Error>::new(Liar(it))).ok().map(Obj::S),
                    d => {
                        let s = serde_json::to_string(&it.collect::<Vec<_>>()).unwrap();
                        serde_json::from_str::<Set>(&s[..s.len() - (d == 3) as usize]).ok().map(Obj::S)
                    }
                }
            } else {
                let it = op.l.iter().map(|x| (x[0], x[1]));
                match op.d {
                    1 => Map::deserialize(MapDeserializer::<_, Error>::new(it)).ok().map(Obj::M),
                    2 => Map::deserialize(MapDeserializer::<_, Error>::new(Liar(it))).ok().map(Obj::M),
                    d => {
                        let s: Vec<String> = it.map(|x| format!("\"{}\":{}", x.0, x.1)).collect();
                        let s = format!("{{{}}}", s.join(","));
                        serde_json::from_str::<Map>(&s[..s.len() - (d == 3) as usize]).ok().map(Obj::M)
                    }
                }
            };
            if x.is_none() {
                e.r.push(-1);
            } else {
                ms[m] = x;
            }
        }
        EXTREF => {
            // Extends a map of plain data by reference: the content before it is the first half.
            let h = op.l.len() / 2;
            e.q = op.l.iter().map(|x| [x[0] as i64, 0, if set { 0 } else { x[1] as i64 }]).collect();
            if set {
                let s: HashSet<u32> = op.l[..h].iter().map(|x| x[0]).collect();
                let more: Vec<u32> = op.l[h..].iter().map(|x| x[0]).collect();
                (&s).extend(more.iter());
                e.l = s.pin().iter().map(|k| [*k as i64, 0, 0]).collect();
                e.r.push(s.len() as i64);
            } else {
                let s: HashMap<u32, u32> = op.l[..h].iter().map(|x| (x[0], x[1])).collect();
                let more: Vec<(u32, u32)> = op.l[h..].iter().map(|x| (x[0], x[1])).collect();
                (&s).extend(more.iter().map(|(k, v)| (k, v)));
                e.l = s.pin().iter().map(|(k, v)| [*k as i64, 0, *v as i64]).collect();
                e.r.push(s.len() as i64);
            }
        }
        FROMARR => {
            e.q = op.l[..3].iter().map(|x| [x[0] as i64, 0, if set { 0 } else { x[1] as i64 }]).collect();
            if set {
                let s = HashSet::from([op.l[0][0], op.l[1][0], op.l[2][0]]);
                e.l = s.pin().iter().map(|k| [*k as i64, 0, 0]).collect();
                e.r.push(s.len() as i64);
            } else {
                let p = |i: usize| (op.l[i][0], op.l[i][1]);
                let s = HashMap::from([p(0), p(1), p(2)]);
                e.l = s.pin().iter().map(|(k, v)| [*k as i64, 0, *v as i64]).collect();
                e.r.push(s.len() as i64);
            }
        }
        o => panic!("unknown operation {o}"),
    }
}

/// Runs a program. The first event has the configuration.
pub fn run(p: &SProg) -> Vec<SEv> {
    set_hash(p.cfg.hk, p.cfg.hs);
    let (k0, v0, d0) = (KEYS.load(Ordering::SeqCst), VALUES.load(Ordering::SeqCst), DEAD.load(Ordering::SeqCst));
    OID.store(1, Ordering::Relaxed);
    TABLE_LOG.lock().unwrap().clear();
    let t0 = TABLES.load(Ordering::SeqCst);
    let mut log: Vec<SEv> = vec![];
    let mut ms: Vec<Option<Obj>> = vec![None, None, None];
    ms[0] = Some(if p.cfg.set { Obj::S(build_set(&p.cfg)) } else { Obj::M(build_map(&p.cfg)) });
    let mut i = 0;
    let mut failed = false;
    while i < p.ops.len() && !failed {
        PREFIX.store(i < p.pre, Ordering::Relaxed);
        let th = p.ops[i].th;
        let mut j = i;
        while j < p.ops.len() && p.ops[j].th == th && (j == i || j != p.pre) {
            j += 1;
        }
        let (ops, msr, logr) = (&p.ops[i..j], &mut ms, &mut log);
        let mut seg = move || {
            for op in ops {
                if msr[op.m].is_none() && !matches!(op.o, CLONE | FROMITER | DESER | EXTREF | FROMARR) {
                    continue;
                }
                if matches!(op.o, CLONE | EQ) && msr[op.v as usize].is_none() {
                    continue;
                }
                let mut e = SEv {
                    o: op.o,
                    m: op.m + 1,
                    k: op.k,
                    ko: 0,
                    v: op.v,
                    d: op.d,
                    r: vec![],
                    c: vec![],
                    l: vec![],
                    q: vec![],
                };
                if matches!(op.o, CLONE | EQ) {
                    e.v += 1;
                }
                let r = catch_unwind(AssertUnwindSafe(|| {
                    if op.o >= CLONE {
                        bulk_op(msr, op, &mut e)
                    } else {
                        match msr[op.m].as_ref().unwrap() {
                            Obj::M(m) => map_op(m, op, &mut e),
                            Obj::S(m) => set_op(m, op, &mut e),
                        }
                    }
                }));
                if r.is_err() {
                    e.r = vec![-1];
                    e.l = vec![];
                    logr.push(e);
                    return true;
                }
                logr.push(e);
            }
            false
        };
        failed = if th == 0 { seg() } else { std::thread::scope(|s| s.spawn(seg).join().unwrap()) };
        i = j;
    }
    PREFIX.store(false, Ordering::Relaxed);
    drop(ms);
    let mut e = SEv { o: LIVE, m: 1, k: 0, ko: 0, v: 0, d: 0, r: vec![], c: vec![], l: vec![], q: vec![] };
    e.r = vec![
        KEYS.load(Ordering::SeqCst) - k0,
        VALUES.load(Ordering::SeqCst) - v0,
        TABLES.load(Ordering::SeqCst) - t0,
        DEAD.load(Ordering::SeqCst) - d0,
    ];
    if failed {
        e.r = vec![0, 0, 0, 0];
    }
    log.push(e);
    log
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        crate::sched::splitmix(&mut self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u64) as usize]
    }
    pub fn weighted<T: Copy>(&mut self, w: &[(T, u64)]) -> T {
        let t: u64 = w.iter().map(|x| x.1).sum();
        let mut x = self.below(t);
        for (o, n) in w {
            if x < *n {
                return *o;
            }
            x -= n;
        }
        unreachable!()
    }
}

pub fn rng(profile: &str, seed: u64, idx: u64) -> Rng {
    let p: u64 = profile.bytes().fold(0, |a, b| a * 131 + b as u64);
    Rng(mix(seed ^ mix(idx) ^ p << 32))
}

pub fn config(r: &mut Rng) -> Cfg {
    Cfg {
        chunk: r.pick(&[None, Some(1), Some(1), Some(2), Some(8), Some(64)]),
        cap: r.pick(&[0, 0, 0, 1, 5, 8, 24, 64]),
        hk: r.pick(&[0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7]),
        hs: r.below(1 << 20),
        batch: r.pick(&[0, 1, 1, 4]),
        set: r.below(10) < 3,
        ctor: if r.below(6) == 0 { 1 + r.below(3) as u8 } else { 0 },
        bchunk: r.pick(&[0, 1, 2, 3, 8]),
    }
}

/// Generates a program.
pub fn program(profile: &str, seed: u64, idx: u64) -> SProg {
    let mut r = rng(profile, seed, idx);
    let mut cfg = config(&mut r);
    let big = r.below(5) == 0;
    let mut range = if big { 400 } else { r.pick(&[2u64, 5, 12, 12, 40, 60]) };
    let mut n = if big { 500 } else { r.pick(&[20u64, 60, 60, 150]) };
    let mut large = false;
    match profile {
        "ident" => {
            range = r.pick(&[1, 2, 3, 6, 6, 20]);
            n = r.pick(&[20, 40, 80]);
        }
        "bulk" => {
            range = r.pick(&[2, 4, 8, 30]);
            n = r.pick(&[10, 20, 40]);
            cfg.hk = r.pick(&[0, 0, 1, 2, 5]);
            if r.below(16) == 0 {
                large = true;
                range = 300;
                n = 8;
            }
        }
        _ => {}
    }
    let range = range.min(max_keys(cfg.hk) as u64);
    let set = cfg.set;
    let mut ops: Vec<SOp> = vec![];
    let mut v = 0;
    let one_api = r.below(3) == 0;
    let api = r.below(4) as u8;
    let threads = r.below(4) == 0;
    let mut th = 0;
    let small = profile == "bulk";
    while (ops.len() as u64) < n {
        // A phase with a mix of its own.
        let len = 5 + r.below(if big { 120 } else { 25 });
        let kind = r.below(6);
        let seqk = r.below(4) == 0;
        let mut at = r.below(range);
        if threads {
            th = r.below(3) as u8;
        }
        for _ in 0..len {
            let mut w: Vec<(i64, u64)> = if set {
                vec![(SGET, 6), (HAS, 5), (SINS, 10), (SREM, 8), (CLEAR, 1), (RETAIN, 1), (ITER, 2), (LEN, 3), (ISEMPTY, 1), (RESERVE, 1)]
            } else {
                vec![
                    (GET, 5), (GETKV, 5), (HAS, 3), (INS, 10), (TRYINS, 5), (TRYINSW, 3), (GOI, 3), (GOIW, 3), (UPD, 4),
                    (UOI, 4), (UOIW, 4), (COMP, 8), (REM, 6), (REME, 4), (REMIF, 5), (CLEAR, 1), (RETAIN, 1), (ITER, 2),
                    (KEYS_, 1), (VALUES_, 1), (LEN, 3), (ISEMPTY, 1), (RESERVE, 1),
                ]
            };
            for x in w.iter_mut() {
                let ins = matches!(x.0, INS | TRYINS | GOI | GOIW | TRYINSW | UOI | UOIW | SINS);
                let rem = matches!(x.0, REM | REME | REMIF | SREM | RETAIN);
                match kind {
                    0 if ins => x.1 *= 8,
                    1 if rem => x.1 *= 6,
                    2 if ins => x.1 *= 3,
                    2 if rem => x.1 *= 2,
                    3 if x.0 == CLEAR || x.0 == RETAIN => x.1 = 0,
                    _ => {}
                }
                if range > 40 && matches!(x.0, ITER | KEYS_ | VALUES_ | CLEAR | RETAIN) && r.below(4) != 0 {
                    x.1 = 0;
                }
                if profile == "ident" && matches!(x.0, GETKV | ITER | SGET | KEYS_) {
                    x.1 *= 3;
                }
            }
            if profile == "bulk" {
                w.extend([(CLONE, 6), (EXTEND, 8), (FROMITER, 5), (EQ, 10), (DEBUG, 4), (SER, 5), (DESER, 5), (EXTREF, 2), (FROMARR, 2)]);
            } else if profile == "ident" {
                w.extend([(EXTEND, 2)]);
            }
            let o = r.weighted(&w);
            v += 1;
            at = if seqk { (at + 1) % range } else { r.below(range) };
            let mut op = SOp {
                o,
                m: if small { r.below(3) as usize } else { 0 },
                k: at as u32,
                v: if small { 1 + r.below(3) as u32 } else { v },
                d: 0,
                api: if one_api { api } else { r.below(4) as u8 },
                th,
                l: vec![],
            };
            match o {
                COMP => op.d = r.pick(&[0, 0, 1, 1, 2, 4, 5, 6, 8, 9]),
                REMIF => op.d = r.below(5) as i64,
                RETAIN => op.d = r.pick(&[0, 1, 2, 3, 4]),
                ITER => op.d = r.below(2) as i64,
                RESERVE => op.d = r.pick(&[0, 1, 10, 100, -1]),
                CLONE | EQ => {
                    op.v = r.below(3) as u32;
                    if o == CLONE && op.v as usize == op.m {
                        op.m = (op.m + 1) % 3;
                    }
                }
                DEBUG | SER => op.d = r.below(3) as i64,
                EXTEND | FROMITER | DESER | EXTREF | FROMARR => {
                    op.d = if o == DESER { r.pick(&[0, 0, 1, 1, 2, 3]) } else { r.below(2) as i64 };
                    let n = r.pick(&[2, 5, 20]);
                    let n = 3 + r.below(if large { 350 } else { n });
                    op.l = (0..n).map(|_| [r.below(range) as u32, 1 + r.below(3) as u32]).collect();
                    if o != FROMARR && r.below(8) == 0 {
                        op.l.clear();
                    }
                }
                _ => {}
            }
            ops.push(op);
        }
    }
    // What is in the map at the end.
    if set {
        for k in 0..range.min(60) {
            ops.push(SOp { o: SGET, k: k as u32, ..Default::default() });
        }
    } else {
        for k in 0..range.min(60) {
            ops.push(SOp { o: GETKV, k: k as u32, ..Default::default() });
        }
    }
    for o in [ITER, LEN, ISEMPTY] {
        ops.push(SOp { o, ..Default::default() });
    }
    SProg { cfg, ops, pre: 0 }
}

/// A thread that ends the process if a program does not end.
pub fn watchdog(seconds: u64) -> &'static AtomicU64 {
    static PROGRESS: AtomicU64 = AtomicU64::new(0);
    std::thread::spawn(move || {
        let mut last = (u64::MAX, std::time::Instant::now());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let x = PROGRESS.load(Ordering::Relaxed);
            if x != last.0 {
                last = (x, std::time::Instant::now());
            } else if last.1.elapsed().as_secs() > seconds {
                std::process::exit(3);
            }
        }
    });
    &PROGRESS
}

/// Writes the index of the program that is running.
pub struct Current(std::fs::File);
impl Current {
    pub fn new(out: &str, shard: u64) -> Current {
        Current(std::fs::File::create(format!("{out}/current.{shard}")).unwrap())
    }
    pub fn set(&mut self, idx: u64) {
        use std::os::unix::fs::FileExt;
        self.0.write_at(format!("{idx:<20}\n").as_bytes(), 0).unwrap();
    }
}

#[allow(clippy::too_many_arguments)]
pub fn go(profile: &str, seed: u64, shard: u64, shards: u64, time: f64, out: &str, cap: u64, file: Option<String>, only: Option<u64>) {
    papaya::verif::install(&Tables);
    let progress = watchdog(30);
    let t0 = std::time::Instant::now();
    use std::io::Write;
    let mut w = std::io::BufWriter::new(std::fs::File::create(format!("{out}/seq.{shard}.ndjson")).unwrap());
    let mut cur = Current::new(out, shard);
    let given: Option<Vec<SProg>> = file.map(|f| {
        std::fs::read_to_string(f).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect()
    });
    let (mut runs, mut events) = (0, 0u64);
    let mut idx = shard;
    loop {
        if let Some(o) = only {
            idx = o;
        }
        if t0.elapsed().as_secs_f64() > time || runs >= cap {
            break;
        }
        let p = match &given {
            Some(v) => match v.get(idx as usize) {
                Some(p) => p.clone(),
                None => break,
            },
            None => program(profile, seed, idx),
        };
        cur.set(idx);
        progress.fetch_add(1, Ordering::Relaxed);
        let log = run(&p);
        crate::obj::release_quarantine();
        runs += 1;
        events += log.len() as u64;
        let t: Vec<_> = log.iter().map(|e| e.json()).collect();
        writeln!(w, "{}", json!({"p": idx, "n": log.len(), "t": t})).unwrap();
        if only.is_some() {
            break;
        }
        idx += shards;
    }
    w.flush().unwrap();
    std::fs::write(format!("{out}/stats.{shard}"), json!({"runs": runs, "steps": events}).to_string()).unwrap();
}
