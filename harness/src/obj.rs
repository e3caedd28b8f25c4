//! Instrumented keys, values and hashers, and an allocator that delays reuse of freed memory.

use crate::sched::{self, IN_MAP};
use equivalent::Equivalent;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::hash::{BuildHasher, Hash, Hasher};
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering};

const ALIVE: u32 = 0xA11CE5ED;
const DEAD: u32 = 0xDEADDEAD;

/// A key.
pub struct K {
    pub id: u32,
    pub oid: u32,
    magic: u32,
}

/// A value.
pub struct V {
    pub oid: u32,
    pub payload: u32,
    magic: u32,
}

/// A lookup key.
#[derive(Clone, Copy)]
pub struct Q(pub u32);

static HASHES: Hashes = Hashes(UnsafeCell::new(vec![]));
struct Hashes(UnsafeCell<Vec<u64>>);
unsafe impl Sync for Hashes {}

/// Callback faults: if set, the n-th call (from 1) of Hash on the key of the call, of
/// Hash on another key (while copying), or of Eq panics.
pub static FAULT_HASH: AtomicI64 = AtomicI64::new(0);
pub static FAULT_STORED: AtomicI64 = AtomicI64::new(0);
pub static FAULT_EQ: AtomicI64 = AtomicI64::new(0);

/// The key of the call to which the faults apply.
pub static FAULT_OWN: AtomicI64 = AtomicI64::new(0);

/// The worker thread to which the faults apply.
pub static FAULT_TID: AtomicUsize = AtomicUsize::new(usize::MAX);

fn fault(c: &AtomicI64) {
    if FAULT_TID.load(Ordering::Relaxed) != sched::tid() {
        return;
    }
    let n = c.load(Ordering::Relaxed);
    if n > 0 {
        c.store(n - 1, Ordering::Relaxed);
        if n == 1 {
            c.store(-1, Ordering::Relaxed);
            sched::user_panic();
        }
    }
}

pub fn set_hashes(h: &[u64]) {
    unsafe { *HASHES.0.get() = h.to_vec() };
}

pub fn hash_of(id: u32) -> u64 {
    let h = unsafe { &*HASHES.0.get() };
    match h.get(id as usize) {
        Some(h) => *h,
        None => {
            let mut x = id as u64 ^ 0x1234567;
            sched::splitmix(&mut x)
        }
    }
}

impl K {
    pub fn new(id: u32) -> K {
        K {
            id,
            oid: sched::new_obj(true, id),
            magic: ALIVE,
        }
    }

    /// Reads the key, returning its id.
    pub fn read(&self) -> u32 {
        let magic = unsafe { std::ptr::read_volatile(&self.magic) };
        sched::touch_obj(self.oid, magic == ALIVE, self as *const _ as usize);
        self.id
    }
}

impl V {
    #[allow(clippy::new_without_default)]
    pub fn new(k: u32) -> V {
        let oid = sched::new_obj(false, k);
        V {
            oid,
            payload: oid,
            magic: ALIVE,
        }
    }

    pub fn with(payload: u32) -> V {
        V {
            oid: sched::new_obj(false, u32::MAX),
            payload,
            magic: ALIVE,
        }
    }

    /// Reads the value, returning its id, or a negative number if it is dead.
    pub fn read(&self) -> i64 {
        let magic = unsafe { std::ptr::read_volatile(&self.magic) };
        sched::touch_obj(self.oid, magic == ALIVE, self as *const _ as usize);
        if magic == ALIVE {
            self.oid as i64
        } else {
            -9
        }
    }
}

impl Drop for K {
    fn drop(&mut self) {
        let magic = unsafe { std::ptr::read_volatile(&self.magic) };
        sched::drop_obj(self.oid, magic == ALIVE);
        unsafe { std::ptr::write_volatile(&mut self.magic, DEAD) };
    }
}

impl Drop for V {
    fn drop(&mut self) {
        let magic = unsafe { std::ptr::read_volatile(&self.magic) };
        sched::drop_obj(self.oid, magic == ALIVE);
        unsafe { std::ptr::write_volatile(&mut self.magic, DEAD) };
    }
}

impl Clone for K {
    fn clone(&self) -> K {
        K::new(self.read())
    }
}

impl Clone for V {
    fn clone(&self) -> V {
        self.read();
        V::with(self.payload)
    }
}

impl PartialEq for K {
    fn eq(&self, other: &K) -> bool {
        fault(&FAULT_EQ);
        self.read() == other.read()
    }
}
impl Eq for K {}

impl PartialEq for V {
    fn eq(&self, other: &V) -> bool {
        self.read();
        other.read();
        self.payload == other.payload
    }
}

impl std::fmt::Debug for K {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "k{}", self.id)
    }
}

impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "v{}", self.payload)
    }
}

impl Hash for K {
    fn hash<H: Hasher>(&self, state: &mut H) {
        let own = self.oid as i64 == FAULT_OWN.load(Ordering::Relaxed);
        fault(if own { &FAULT_HASH } else { &FAULT_STORED });
        state.write_u64(hash_of(self.read()));
    }
}

impl Hash for Q {
    fn hash<H: Hasher>(&self, state: &mut H) {
        fault(&FAULT_HASH);
        state.write_u64(hash_of(self.0));
    }
}

impl Equivalent<K> for Q {
    fn equivalent(&self, key: &K) -> bool {
        fault(&FAULT_EQ);
        key.read() == self.0
    }
}

#[derive(Clone, Copy, Default)]
pub struct Bh;
pub struct Hx(u64);

impl BuildHasher for Bh {
    type Hasher = Hx;
    fn build_hasher(&self) -> Hx {
        Hx(0)
    }
}

impl Hasher for Hx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x;
    }
}

/// Delays the reuse of small blocks freed during a run until the run has ended, so that a
/// dangling access sees the dead object, and counts the live allocations made inside of the map.
pub struct QuarantineAlloc;

const QCAP: usize = 1 << 16;
struct Quarantine(UnsafeCell<[(usize, usize, usize); QCAP]>);
unsafe impl Sync for Quarantine {}
static QUARANTINE: Quarantine = Quarantine(UnsafeCell::new([(0, 0, 0); QCAP]));
static QLEN: AtomicUsize = AtomicUsize::new(0);
pub static QUARANTINE_ON: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub static BALANCE: AtomicI64 = AtomicI64::new(0);

unsafe impl GlobalAlloc for QuarantineAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if IN_MAP.try_with(|m| m.get()).unwrap_or(false) {
            BALANCE.fetch_add(1, Ordering::Relaxed);
        }
        unsafe { System.alloc(layout) }
    }

    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        if IN_MAP.try_with(|m| m.get()).unwrap_or(false) {
            BALANCE.fetch_add(1, Ordering::Relaxed);
        }
        unsafe { System.alloc_zeroed(layout) }
    }

    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new: usize) -> *mut u8 {
        unsafe { System.realloc(ptr, layout, new) }
    }

    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        if IN_MAP.try_with(|m| m.get()).unwrap_or(false) {
            BALANCE.fetch_sub(1, Ordering::Relaxed);
            if layout.size() <= 256 && QUARANTINE_ON.load(Ordering::Relaxed) {
                let i = QLEN.fetch_add(1, Ordering::Relaxed);
                if i < QCAP {
                    unsafe {
                        (*QUARANTINE.0.get())[i] = (ptr as usize, layout.size(), layout.align())
                    };
                    return;
                }
            }
        }
        unsafe { System.dealloc(ptr, layout) }
    }
}

pub fn release_quarantine() {
    let n = QLEN.swap(0, Ordering::Relaxed).min(QCAP);
    for i in 0..n {
        let (p, s, a) = unsafe { (*QUARANTINE.0.get())[i] };
        unsafe { System.dealloc(p as *mut u8, Layout::from_size_align_unchecked(s, a)) };
    }
}

/// Runs the function as code of the map.
pub fn in_map<R>(f: impl FnOnce() -> R) -> R {
    struct Reset(bool);
    impl Drop for Reset {
        fn drop(&mut self) {
            IN_MAP.with(|m| m.set(self.0));
        }
    }
    let _r = Reset(IN_MAP.with(|m| m.replace(true)));
    f()
}

/// Runs the function as user code called by the map.
pub fn in_user<R>(f: impl FnOnce() -> R) -> R {
    struct Reset(bool);
    impl Drop for Reset {
        fn drop(&mut self) {
            IN_MAP.with(|m| m.set(self.0));
        }
    }
    let _r = Reset(IN_MAP.with(|m| m.replace(false)));
    f()
}
