From 20d4765992099173ea2d6b2ba1a9a005fbdf7f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 01/18] fix: round the minimum capacity to a table length

A map created with a capacity that is not a power of two panicked (and
poisoned the allocation lock) when a resize tried to shrink the table,
as the raw capacity was used as the length of the next table.
---
 src/raw/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 79eb825..29fcadd 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -239,7 +239,8 @@ impl<K, V, S> HashMap<K, V, S> {
             hasher,
             resize,
             collector,
-            initial_capacity: capacity,
+            // Note that table lengths are always a power-of-two.
+            initial_capacity: table.len(),
             table: AtomicPtr::new(table.raw),
             count: Counter::default(),
         }
-- 
2.43.0


From 74efca9e2a2d40b5b3bfb0b9844698d66ac2729d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 02/18] fix: wake the waiters of an aborted resize

Threads waiting for a blocking resize park on the state of the table that
is being copied to, but an aborted resize unparked the waiters of the
table that is being copied from, leaving the former parked forever.
---
 src/raw/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 29fcadd..e21aa0f 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -2068,7 +2068,7 @@ where
                         let allocated = self.get_or_alloc_next(None, next);
 
                         // Wake anyone waiting for us to finish.
-                        let state = table.state();
+                        let state = next.state();
                         state.parker.unpark(&state.status);
 
                         // Retry in a new table.
-- 
2.43.0


From 3c7f0f15573a6a2f4e1dbb980929f7e3ef6ce7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 03/18] fix: grow the table if its keys do not fit

If more keys than the probe limit share a probe sequence, an insertion or
a copy into a table that is less than half full allocated tables of the
same length indefinitely. Only keep or reduce the capacity if there are
deleted entries to get rid of.
---
 src/raw/alloc.rs | 8 ++++++++
 src/raw/mod.rs   | 8 ++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/raw/alloc.rs b/src/raw/alloc.rs
index 3c5792f..0601af2 100644
--- a/src/raw/alloc.rs
+++ b/src/raw/alloc.rs
@@ -163,6 +163,14 @@ impl<T> Table<T> {
         self.mask + 1
     }
 
+    // Returns `true` if any entry in the table is marked as deleted.
+    pub fn has_tombstones(&self) -> bool {
+        (0..self.len()).any(|i| {
+            // Safety: `i` is in-bounds for the table length.
+            unsafe { self.meta(i) }.load(Ordering::Relaxed) == super::meta::TOMBSTONE
+        })
+    }
+
     // Returns a reference to the table state.
     #[inline]
     pub fn state(&self) -> &State<T> {
diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index e21aa0f..c91b2bd 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -1956,7 +1956,7 @@ where
             // is an expensive operation, but it may change in the future. We also respect
             // the initial capacity to give the user a way to retain a strict minimum table
             // size.
-            false if active_entries <= (current_capacity >> 3) => {
+            false if active_entries <= (current_capacity >> 3) && table.has_tombstones() => {
                 self.initial_capacity.max(current_capacity >> 1)
             }
 
@@ -1965,7 +1965,11 @@ where
             // This can occur due to poor hash distribution or frequent cycling of
             // insertions and deletions, in which case we want to avoid continuously
             // growing the table.
-            false => current_capacity,
+            false if table.has_tombstones() => current_capacity,
+
+            // However, if there are no deleted entries then the keys simply do not fit,
+            // and copying them to a table of the same capacity would not make progress.
+            false => current_capacity << 1,
         };
 
         let next_capacity = capacity.unwrap_or(next_capacity);
-- 
2.43.0


From bfcafec9f6921893a19ba52c663a2fabf7349303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 04/18] fix: free the tables of aborted resizes

A table that a blocking resize aborted was skipped by the promotion of its
successor and never deallocated.
---
 src/raw/mod.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index c91b2bd..22f7a81 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -2485,6 +2485,22 @@ where
                     // that are unparked.
                     state.status.store(State::PROMOTED, Ordering::SeqCst);
 
+                    // Retire the tables of any aborted resizes in between, which are
+                    // unreachable from the new root.
+                    //
+                    // Safety: The CAS above made these tables unreachable from the root
+                    // pointer, and they are only reachable from the old table.
+                    let mut aborted = table.next_table().unwrap();
+                    while aborted.raw != next.raw {
+                        let next_table = aborted.next_table().unwrap();
+                        unsafe {
+                            guard.defer_retire(aborted.raw, |table, collector| {
+                                drop_table(Table::from_raw(table), collector);
+                            });
+                        }
+                        aborted = next_table;
+                    }
+
                     // Retire the old table.
                     //
                     // Safety: `table.raw` is a valid pointer to the table we just copied from.
-- 
2.43.0


From 0e53d07102b57b1a6468b9bf10d4814bec3c11d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 05/18] fix: make progress with a chunk size of zero

With `ResizeMode::Incremental(0)` a resize never completed, and `iter`,
`clear`, `retain`, and `reserve` did not return.
---
 src/raw/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 22f7a81..167604b 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -2001,6 +2001,9 @@ where
         match self.resize {
             ResizeMode::Blocking => self.help_copy_blocking(table, guard),
             ResizeMode::Incremental(chunk) => {
+                // Ensure that the resize makes progress.
+                let chunk = chunk.max(1);
+
                 let copied_to = self.help_copy_incremental(chunk, copy_all, guard);
 
                 if !copy_all {
-- 
2.43.0


From 0a0560e8969e6c0ffedf9fd729da76079224ea1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 06/18] fix: keep the existing element when inserting into a
 set

`HashSet::insert` is documented to not update the stored value if an equal
value is present, but replaced it.
---
 src/set.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/set.rs b/src/set.rs
index 367776f..3fa32cc 100644
--- a/src/set.rs
+++ b/src/set.rs
@@ -427,10 +427,10 @@ where
     /// ```
     #[inline]
     pub fn insert(&self, key: K, guard: &impl Guard) -> bool {
-        match self.raw.insert(key, (), true, self.raw.verify(guard)) {
+        match self.raw.insert(key, (), false, self.raw.verify(guard)) {
             InsertResult::Inserted(_) => true,
-            InsertResult::Replaced(_) => false,
-            InsertResult::Error { .. } => unreachable!(),
+            InsertResult::Replaced(_) => unreachable!(),
+            InsertResult::Error { .. } => false,
         }
     }
 
@@ -773,10 +773,10 @@ where
     /// See [`HashSet::insert`] for details.
     #[inline]
     pub fn insert(&self, key: K) -> bool {
-        match self.set.raw.insert(key, (), true, &self.guard) {
+        match self.set.raw.insert(key, (), false, &self.guard) {
             InsertResult::Inserted(_) => true,
-            InsertResult::Replaced(_) => false,
-            InsertResult::Error { .. } => unreachable!(),
+            InsertResult::Replaced(_) => unreachable!(),
+            InsertResult::Error { .. } => false,
         }
     }
 
-- 
2.43.0


From 3b1460715ed630a463d1b80ccaced9afeafc8d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 07/18] fix: require `K: Send` for `HashSet<K, S>: Sync`

Keys may be inserted and dropped on different threads through a shared
reference to the set, as for `HashMap`.
---
 src/set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/set.rs b/src/set.rs
index 3fa32cc..cdb357e 100644
--- a/src/set.rs
+++ b/src/set.rs
@@ -22,7 +22,7 @@ pub struct HashSet<K, S = RandomState> {
 // so normal Send/Sync rules apply. We never expose owned or mutable references
 // to keys or values.
 unsafe impl<K: Send, S: Send> Send for HashSet<K, S> {}
-unsafe impl<K: Sync, S: Sync> Sync for HashSet<K, S> {}
+unsafe impl<K: Send + Sync, S: Sync> Sync for HashSet<K, S> {}
 
 /// A builder for a [`HashSet`].
 ///
-- 
2.43.0


From d6a14806e0700fdb0644f5c29c503393d49d9c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:14 +0000
Subject: [PATCH 08/18] Instrument synchronization primitives under
 cfg(papaya_verif)

---
 src/lib.rs               |   8 +
 src/raw/alloc.rs         |   5 +-
 src/raw/mod.rs           |   6 +-
 src/raw/utils/counter.rs |   3 +-
 src/raw/utils/mod.rs     |  45 +++
 src/raw/utils/parker.rs  |   7 +-
 src/raw/utils/stack.rs   |   3 +-
 src/raw/utils/tagged.rs  |   4 +-
 src/sync.rs              |  15 +
 src/verif.rs             | 587 +++++++++++++++++++++++++++++++++++++++
 10 files changed, 670 insertions(+), 13 deletions(-)
 create mode 100644 src/sync.rs
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 51998bd..2bb27e7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -226,14 +226,22 @@
 #![allow(clippy::multiple_bound_locations, clippy::single_match)]
 // Clippy trips up with pollyfills.
 #![allow(clippy::incompatible_msrv)]
+// `papaya_verif` is only set by verification harnesses.
+#![allow(unexpected_cfgs)]
 
 mod map;
 mod raw;
 mod set;
+mod sync;
 
 #[cfg(feature = "serde")]
 mod serde_impls;
 
+// Instrumentation for verification, never enabled in a regular build.
+#[cfg(papaya_verif)]
+#[doc(hidden)]
+pub mod verif;
+
 pub use equivalent::Equivalent;
 pub use map::{
     Compute, HashMap, HashMapBuilder, HashMapRef, Iter, Keys, OccupiedError, Operation, ResizeMode,
diff --git a/src/raw/alloc.rs b/src/raw/alloc.rs
index 0601af2..0ea4cdf 100644
--- a/src/raw/alloc.rs
+++ b/src/raw/alloc.rs
@@ -1,9 +1,10 @@
 use std::alloc::Layout;
 use std::marker::PhantomData;
-use std::sync::atomic::{AtomicPtr, AtomicU8, Ordering};
-use std::{alloc, mem, ptr};
+use std::{mem, ptr};
 
 use super::{probe, State};
+use crate::sync::alloc;
+use crate::sync::atomic::{AtomicPtr, AtomicU8, Ordering};
 
 // A hash-table laid out in a single allocation.
 //
diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 167604b..bdacb87 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -5,14 +5,14 @@ pub(crate) mod utils;
 
 use std::hash::{BuildHasher, Hash};
 use std::mem::MaybeUninit;
-use std::sync::atomic::{AtomicPtr, AtomicU8, AtomicUsize, Ordering};
-use std::sync::Mutex;
-use std::{hint, panic, ptr};
+use std::{panic, ptr};
 
 use self::alloc::{RawTable, Table};
 use self::probe::Probe;
 use self::utils::{untagged, AtomicPtrFetchOps, Counter, Parker, StrictProvenance, Tagged};
 use crate::map::{Compute, Operation, ResizeMode};
+use crate::sync::atomic::{AtomicPtr, AtomicU8, AtomicUsize, Ordering};
+use crate::sync::{hint, Mutex};
 use crate::Equivalent;
 
 use seize::{Collector, LocalGuard, OwnedGuard};
diff --git a/src/raw/utils/counter.rs b/src/raw/utils/counter.rs
index eb5688f..0f79438 100644
--- a/src/raw/utils/counter.rs
+++ b/src/raw/utils/counter.rs
@@ -1,6 +1,5 @@
-use std::sync::atomic::{AtomicIsize, Ordering};
-
 use super::CachePadded;
+use crate::sync::atomic::{AtomicIsize, Ordering};
 
 // A sharded atomic counter.
 //
diff --git a/src/raw/utils/mod.rs b/src/raw/utils/mod.rs
index ce36dc8..da7e8c5 100644
--- a/src/raw/utils/mod.rs
+++ b/src/raw/utils/mod.rs
@@ -8,6 +8,9 @@ pub use parker::Parker;
 pub use stack::Stack;
 pub use tagged::{untagged, AtomicPtrFetchOps, StrictProvenance, Tagged, Unpack};
 
+#[cfg(papaya_verif)]
+use std::sync::atomic::{AtomicPtr as StdAtomicPtr, Ordering};
+
 /// A `seize::Guard` that has been verified to belong to a given map.
 pub trait VerifiedGuard: seize::Guard {}
 
@@ -65,6 +68,48 @@ where
     unsafe fn defer_retire<T>(&self, ptr: *mut T, reclaim: unsafe fn(*mut T, &seize::Collector)) {
         unsafe { self.0.defer_retire(ptr, reclaim) };
     }
+
+    // Protected accesses are performed by the guard directly, and so have to be
+    // instrumented separately.
+
+    #[cfg(papaya_verif)]
+    fn protect<T>(&self, ptr: &StdAtomicPtr<T>, order: Ordering) -> *mut T {
+        crate::verif::protect(ptr, || self.0.protect(ptr, order))
+    }
+
+    #[cfg(papaya_verif)]
+    fn swap<T>(&self, ptr: &StdAtomicPtr<T>, value: *mut T, order: Ordering) -> *mut T {
+        crate::verif::swap(ptr, value, || self.0.swap(ptr, value, order))
+    }
+
+    #[cfg(papaya_verif)]
+    fn compare_exchange<T>(
+        &self,
+        ptr: &StdAtomicPtr<T>,
+        current: *mut T,
+        new: *mut T,
+        success: Ordering,
+        failure: Ordering,
+    ) -> Result<*mut T, *mut T> {
+        crate::verif::cas(ptr, current, new, false, || {
+            self.0.compare_exchange(ptr, current, new, success, failure)
+        })
+    }
+
+    #[cfg(papaya_verif)]
+    fn compare_exchange_weak<T>(
+        &self,
+        ptr: &StdAtomicPtr<T>,
+        current: *mut T,
+        new: *mut T,
+        success: Ordering,
+        failure: Ordering,
+    ) -> Result<*mut T, *mut T> {
+        crate::verif::cas(ptr, current, new, true, || {
+            self.0
+                .compare_exchange_weak(ptr, current, new, success, failure)
+        })
+    }
 }
 
 /// Pads and aligns a value to the length of a cache line.
diff --git a/src/raw/utils/parker.rs b/src/raw/utils/parker.rs
index 1ae7e3d..6c0266d 100644
--- a/src/raw/utils/parker.rs
+++ b/src/raw/utils/parker.rs
@@ -1,7 +1,8 @@
 use std::collections::HashMap;
-use std::sync::atomic::{AtomicPtr, AtomicU64, AtomicU8, Ordering};
-use std::sync::Mutex;
-use std::thread::{self, Thread};
+
+use crate::sync::atomic::{AtomicPtr, AtomicU64, AtomicU8, Ordering};
+use crate::sync::thread::{self, Thread};
+use crate::sync::Mutex;
 
 // A simple thread parker.
 //
diff --git a/src/raw/utils/stack.rs b/src/raw/utils/stack.rs
index 84a419e..4eb2a0c 100644
--- a/src/raw/utils/stack.rs
+++ b/src/raw/utils/stack.rs
@@ -1,5 +1,6 @@
 use std::ptr;
-use std::sync::atomic::{AtomicPtr, Ordering};
+
+use crate::sync::atomic::{AtomicPtr, Ordering};
 
 /// A simple lock-free, append-only, stack of pointers.
 ///
diff --git a/src/raw/utils/tagged.rs b/src/raw/utils/tagged.rs
index 793ebfb..4168d37 100644
--- a/src/raw/utils/tagged.rs
+++ b/src/raw/utils/tagged.rs
@@ -1,4 +1,4 @@
-use std::sync::atomic::{AtomicPtr, Ordering};
+use crate::sync::atomic::{AtomicPtr, Ordering};
 
 // Polyfill for the unstable strict-provenance APIs.
 #[allow(clippy::missing_safety_doc)]
@@ -96,7 +96,7 @@ impl<T> AtomicPtrFetchOps<T> for AtomicPtr<T> {
     fn fetch_or(&self, value: usize, ordering: Ordering) -> *mut T {
         #[cfg(not(miri))]
         {
-            use std::sync::atomic::AtomicUsize;
+            use crate::sync::atomic::AtomicUsize;
 
             // Safety: `AtomicPtr` and `AtomicUsize` are identical in terms
             // of memory layout. This operation is technically invalid in that
diff --git a/src/sync.rs b/src/sync.rs
new file mode 100644
index 0000000..ece19eb
--- /dev/null
+++ b/src/sync.rs
@@ -0,0 +1,15 @@
+// The synchronization primitives used by this crate.
+//
+// With `--cfg papaya_verif` these are replaced by the instrumented primitives in
+// `crate::verif`, which allow a verification harness to observe and schedule every
+// synchronization operation.
+
+#[cfg(not(papaya_verif))]
+pub use std::{
+    alloc, hint,
+    sync::{atomic, Mutex},
+    thread,
+};
+
+#[cfg(papaya_verif)]
+pub use crate::verif::{alloc, atomic, hint, thread, Mutex};
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..2a7ca00
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,587 @@
+//! Instrumented synchronization primitives for verification harnesses.
+//!
+//! This module only exists with `--cfg papaya_verif`, and is not part of the public API.
+//! Without hooks installed, or on threads that the hooks do not control, every primitive
+//! behaves exactly as the one from the standard library.
+
+use std::sync::OnceLock;
+
+use self::atomic::Ordering;
+
+/// An atomic access.
+#[derive(Clone, Copy, Debug)]
+pub struct Access {
+    /// The address of the atomic variable.
+    pub addr: usize,
+    /// The size of the atomic variable, in bytes.
+    pub size: u8,
+    /// The operation to perform.
+    pub op: Op,
+    /// The ordering of the access.
+    pub order: Ordering,
+    /// The failure ordering, for a compare-and-exchange.
+    pub failure: Ordering,
+}
+
+/// An atomic operation.
+#[derive(Clone, Copy, Debug)]
+pub enum Op {
+    /// Load the value.
+    Load,
+    /// Store a value.
+    Store(u64),
+    /// Replace the value by the result of the function of the value and the argument.
+    Rmw(fn(u64, u64) -> u64, u64),
+    /// Compare and exchange the value.
+    Cas {
+        /// The expected value.
+        current: u64,
+        /// The new value.
+        new: u64,
+        /// Whether or not the operation may fail spuriously.
+        weak: bool,
+    },
+}
+
+/// The hooks called by the primitives in this module.
+pub trait Hooks: Sync {
+    /// Perform an atomic access, returning the previous value and whether or not the operation
+    /// succeeded, or `None` if the access should be performed natively.
+    ///
+    /// # Safety
+    ///
+    /// The access must be valid.
+    unsafe fn atomic(&self, access: &Access) -> Option<(u64, bool)>;
+
+    /// The thread is about to attempt to acquire the given lock.
+    fn lock(&self, addr: usize, try_lock: bool);
+
+    /// Block until the given lock may be available, returning `false` if the thread should
+    /// block natively.
+    fn lock_blocked(&self, addr: usize) -> bool;
+
+    /// The thread acquired the given lock.
+    fn locked(&self, addr: usize);
+
+    /// The thread released the given lock.
+    fn unlocked(&self, addr: usize);
+
+    /// Park the current thread, returning `false` if the thread should park natively.
+    fn park(&self, timeout: bool) -> bool;
+
+    /// Unpark the given thread, returning `false` if it should be unparked natively.
+    fn unpark(&self, thread: std::thread::ThreadId) -> bool;
+
+    /// The current thread is waiting in a spin loop.
+    fn spin(&self);
+
+    /// Memory was allocated.
+    fn alloc(&self, addr: usize, size: usize);
+
+    /// Memory is about to be deallocated. Returns `false` if the memory should be leaked.
+    fn dealloc(&self, addr: usize, size: usize) -> bool;
+}
+
+static HOOKS: OnceLock<&'static dyn Hooks> = OnceLock::new();
+
+/// Install the hooks for this process.
+pub fn install(hooks: &'static dyn Hooks) {
+    let _ = HOOKS.set(hooks);
+}
+
+#[inline]
+fn hooks() -> Option<&'static dyn Hooks> {
+    HOOKS.get().copied()
+}
+
+#[inline]
+fn access(
+    addr: usize,
+    size: usize,
+    op: Op,
+    order: Ordering,
+    failure: Ordering,
+) -> Option<(u64, bool)> {
+    // Safety: The address is that of a live atomic variable.
+    hooks().and_then(|hooks| unsafe {
+        hooks.atomic(&Access {
+            addr,
+            size: size as u8,
+            op,
+            order,
+            failure,
+        })
+    })
+}
+
+/// Performs a load of a protected pointer.
+pub(crate) fn protect<T>(
+    ptr: &std::sync::atomic::AtomicPtr<T>,
+    native: impl FnOnce() -> *mut T,
+) -> *mut T {
+    match access(
+        ptr as *const _ as usize,
+        8,
+        Op::Load,
+        Ordering::SeqCst,
+        Ordering::SeqCst,
+    ) {
+        Some((value, _)) => value as *mut T,
+        None => native(),
+    }
+}
+
+/// Performs a swap of a protected pointer.
+pub(crate) fn swap<T>(
+    ptr: &std::sync::atomic::AtomicPtr<T>,
+    new: *mut T,
+    native: impl FnOnce() -> *mut T,
+) -> *mut T {
+    let op = Op::Rmw(|_, new| new, new as u64);
+    match access(
+        ptr as *const _ as usize,
+        8,
+        op,
+        Ordering::SeqCst,
+        Ordering::SeqCst,
+    ) {
+        Some((value, _)) => value as *mut T,
+        None => native(),
+    }
+}
+
+/// Performs a compare-and-exchange of a protected pointer.
+pub(crate) fn cas<T>(
+    ptr: &std::sync::atomic::AtomicPtr<T>,
+    current: *mut T,
+    new: *mut T,
+    weak: bool,
+    native: impl FnOnce() -> Result<*mut T, *mut T>,
+) -> Result<*mut T, *mut T> {
+    let op = Op::Cas {
+        current: current as u64,
+        new: new as u64,
+        weak,
+    };
+    match access(
+        ptr as *const _ as usize,
+        8,
+        op,
+        Ordering::SeqCst,
+        Ordering::SeqCst,
+    ) {
+        Some((value, true)) => Ok(value as *mut T),
+        Some((value, false)) => Err(value as *mut T),
+        None => native(),
+    }
+}
+
+/// Instrumented version of `std::sync::atomic`.
+#[allow(missing_docs)]
+pub mod atomic {
+    use super::{access, Op};
+    use std::ops::{Deref, DerefMut};
+    use std::sync::atomic as std_atomic;
+
+    pub use std::sync::atomic::{compiler_fence, fence, Ordering};
+
+    macro_rules! atomic {
+        ([$($generics:tt)*] $name:ty, $ctor:ident, $inner:ty, $value:ty) => {
+            impl<$($generics)*> $name {
+                #[inline]
+                pub const fn new(value: $value) -> Self {
+                    $ctor(<$inner>::new(value))
+                }
+
+                #[inline]
+                fn access(&self, op: Op, order: Ordering, failure: Ordering) -> Option<(u64, bool)> {
+                    access(self as *const _ as usize, std::mem::size_of::<Self>(), op, order, failure)
+                }
+
+                #[inline]
+                pub fn into_inner(self) -> $value {
+                    self.0.into_inner()
+                }
+
+                #[inline]
+                pub fn load(&self, order: Ordering) -> $value {
+                    match self.access(Op::Load, order, order) {
+                        Some((value, _)) => value as $value,
+                        None => self.0.load(order),
+                    }
+                }
+
+                #[inline]
+                pub fn store(&self, value: $value, order: Ordering) {
+                    if self.access(Op::Store(value as u64), order, order).is_none() {
+                        self.0.store(value, order)
+                    }
+                }
+
+                #[inline]
+                pub fn swap(&self, value: $value, order: Ordering) -> $value {
+                    match self.access(Op::Rmw(|_, new| new, value as u64), order, order) {
+                        Some((value, _)) => value as $value,
+                        None => self.0.swap(value, order),
+                    }
+                }
+
+                #[inline]
+                pub fn compare_exchange(
+                    &self,
+                    current: $value,
+                    new: $value,
+                    success: Ordering,
+                    failure: Ordering,
+                ) -> Result<$value, $value> {
+                    let op = Op::Cas { current: current as u64, new: new as u64, weak: false };
+                    match self.access(op, success, failure) {
+                        Some((value, true)) => Ok(value as $value),
+                        Some((value, false)) => Err(value as $value),
+                        None => self.0.compare_exchange(current, new, success, failure),
+                    }
+                }
+
+                #[inline]
+                pub fn compare_exchange_weak(
+                    &self,
+                    current: $value,
+                    new: $value,
+                    success: Ordering,
+                    failure: Ordering,
+                ) -> Result<$value, $value> {
+                    let op = Op::Cas { current: current as u64, new: new as u64, weak: true };
+                    match self.access(op, success, failure) {
+                        Some((value, true)) => Ok(value as $value),
+                        Some((value, false)) => Err(value as $value),
+                        None => self.0.compare_exchange_weak(current, new, success, failure),
+                    }
+                }
+
+                #[inline]
+                pub fn fetch_update(
+                    &self,
+                    set_order: Ordering,
+                    fetch_order: Ordering,
+                    mut f: impl FnMut($value) -> Option<$value>,
+                ) -> Result<$value, $value> {
+                    let mut previous = self.load(fetch_order);
+                    while let Some(next) = f(previous) {
+                        match self.compare_exchange_weak(previous, next, set_order, fetch_order) {
+                            result @ Ok(_) => return result,
+                            Err(found) => previous = found,
+                        }
+                    }
+                    Err(previous)
+                }
+            }
+
+            impl<$($generics)*> Deref for $name {
+                type Target = $inner;
+                #[inline]
+                fn deref(&self) -> &$inner {
+                    &self.0
+                }
+            }
+
+            impl<$($generics)*> DerefMut for $name {
+                #[inline]
+                fn deref_mut(&mut self) -> &mut $inner {
+                    &mut self.0
+                }
+            }
+
+            impl<$($generics)*> Default for $name {
+                #[inline]
+                fn default() -> Self {
+                    $ctor(<$inner>::default())
+                }
+            }
+
+            impl<$($generics)*> std::fmt::Debug for $name {
+                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+                    self.0.fmt(f)
+                }
+            }
+        };
+    }
+
+    macro_rules! integer {
+        ($name:ident, $value:ty) => {
+            #[repr(transparent)]
+            pub struct $name(std_atomic::$name);
+
+            atomic!([] $name, $name, std_atomic::$name, $value);
+
+            integer!(@rmw $name, $value, fetch_add, |a, b| (a as $value).wrapping_add(b as $value) as u64);
+            integer!(@rmw $name, $value, fetch_sub, |a, b| (a as $value).wrapping_sub(b as $value) as u64);
+            integer!(@rmw $name, $value, fetch_and, |a, b| ((a as $value) & (b as $value)) as u64);
+            integer!(@rmw $name, $value, fetch_or, |a, b| ((a as $value) | (b as $value)) as u64);
+            integer!(@rmw $name, $value, fetch_xor, |a, b| ((a as $value) ^ (b as $value)) as u64);
+            integer!(@rmw $name, $value, fetch_nand, |a, b| !((a as $value) & (b as $value)) as u64);
+            integer!(@rmw $name, $value, fetch_max, |a, b| (a as $value).max(b as $value) as u64);
+            integer!(@rmw $name, $value, fetch_min, |a, b| (a as $value).min(b as $value) as u64);
+        };
+        (@rmw $name:ident, $value:ty, $method:ident, $op:expr) => {
+            impl $name {
+                #[inline]
+                pub fn $method(&self, value: $value, order: Ordering) -> $value {
+                    match self.access(Op::Rmw($op, value as u64), order, order) {
+                        Some((value, _)) => value as $value,
+                        None => self.0.$method(value, order),
+                    }
+                }
+            }
+        };
+    }
+
+    #[repr(transparent)]
+    pub struct AtomicPtr<T>(std_atomic::AtomicPtr<T>);
+
+    atomic!([T] AtomicPtr<T>, AtomicPtr, std_atomic::AtomicPtr<T>, *mut T);
+
+    integer!(AtomicU8, u8);
+    integer!(AtomicU32, u32);
+    integer!(AtomicU64, u64);
+    integer!(AtomicUsize, usize);
+    integer!(AtomicI64, i64);
+    integer!(AtomicIsize, isize);
+
+    #[repr(transparent)]
+    #[derive(Default, Debug)]
+    pub struct AtomicBool(AtomicU8);
+
+    impl AtomicBool {
+        pub const fn new(value: bool) -> AtomicBool {
+            AtomicBool(AtomicU8::new(value as u8))
+        }
+
+        pub fn load(&self, order: Ordering) -> bool {
+            self.0.load(order) != 0
+        }
+
+        pub fn store(&self, value: bool, order: Ordering) {
+            self.0.store(value as u8, order)
+        }
+
+        pub fn swap(&self, value: bool, order: Ordering) -> bool {
+            self.0.swap(value as u8, order) != 0
+        }
+
+        pub fn fetch_or(&self, value: bool, order: Ordering) -> bool {
+            self.0.fetch_or(value as u8, order) != 0
+        }
+
+        pub fn fetch_and(&self, value: bool, order: Ordering) -> bool {
+            self.0.fetch_and(value as u8, order) != 0
+        }
+
+        pub fn compare_exchange(
+            &self,
+            current: bool,
+            new: bool,
+            success: Ordering,
+            failure: Ordering,
+        ) -> Result<bool, bool> {
+            self.0
+                .compare_exchange(current as u8, new as u8, success, failure)
+                .map(|value| value != 0)
+                .map_err(|value| value != 0)
+        }
+    }
+}
+
+/// Instrumented version of `std::sync::Mutex`.
+#[derive(Debug, Default)]
+pub struct Mutex<T>(std::sync::Mutex<T>);
+
+/// The guard of a [`Mutex`].
+#[derive(Debug)]
+pub struct MutexGuard<'a, T> {
+    guard: Option<std::sync::MutexGuard<'a, T>>,
+    addr: usize,
+}
+
+#[allow(missing_docs)]
+impl<T> Mutex<T> {
+    pub const fn new(value: T) -> Mutex<T> {
+        Mutex(std::sync::Mutex::new(value))
+    }
+
+    fn addr(&self) -> usize {
+        self as *const _ as usize
+    }
+
+    fn guard<'a>(&self, guard: std::sync::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
+        if let Some(hooks) = hooks() {
+            hooks.locked(self.addr());
+        }
+
+        MutexGuard {
+            guard: Some(guard),
+            addr: self.addr(),
+        }
+    }
+
+    pub fn lock(&self) -> std::sync::LockResult<MutexGuard<'_, T>> {
+        if let Some(hooks) = hooks() {
+            hooks.lock(self.addr(), false);
+
+            loop {
+                match self.0.try_lock() {
+                    Ok(guard) => return Ok(self.guard(guard)),
+                    Err(std::sync::TryLockError::Poisoned(err)) => {
+                        return Err(std::sync::PoisonError::new(self.guard(err.into_inner())))
+                    }
+                    Err(std::sync::TryLockError::WouldBlock) => {
+                        if !hooks.lock_blocked(self.addr()) {
+                            break;
+                        }
+                    }
+                }
+            }
+        }
+
+        match self.0.lock() {
+            Ok(guard) => Ok(self.guard(guard)),
+            Err(err) => Err(std::sync::PoisonError::new(self.guard(err.into_inner()))),
+        }
+    }
+
+    pub fn try_lock(&self) -> std::sync::TryLockResult<MutexGuard<'_, T>> {
+        if let Some(hooks) = hooks() {
+            hooks.lock(self.addr(), true);
+        }
+
+        match self.0.try_lock() {
+            Ok(guard) => Ok(self.guard(guard)),
+            Err(std::sync::TryLockError::Poisoned(err)) => Err(std::sync::TryLockError::Poisoned(
+                std::sync::PoisonError::new(self.guard(err.into_inner())),
+            )),
+            Err(std::sync::TryLockError::WouldBlock) => Err(std::sync::TryLockError::WouldBlock),
+        }
+    }
+
+    pub fn is_poisoned(&self) -> bool {
+        self.0.is_poisoned()
+    }
+
+    pub fn get_mut(&mut self) -> std::sync::LockResult<&mut T> {
+        self.0.get_mut()
+    }
+
+    pub fn into_inner(self) -> std::sync::LockResult<T> {
+        self.0.into_inner()
+    }
+}
+
+impl<T> std::ops::Deref for MutexGuard<'_, T> {
+    type Target = T;
+
+    fn deref(&self) -> &T {
+        self.guard.as_ref().unwrap()
+    }
+}
+
+impl<T> std::ops::DerefMut for MutexGuard<'_, T> {
+    fn deref_mut(&mut self) -> &mut T {
+        self.guard.as_mut().unwrap()
+    }
+}
+
+impl<T> Drop for MutexGuard<'_, T> {
+    fn drop(&mut self) {
+        drop(self.guard.take());
+
+        if let Some(hooks) = hooks() {
+            hooks.unlocked(self.addr);
+        }
+    }
+}
+
+/// Instrumented version of `std::thread`.
+#[allow(missing_docs)]
+pub mod thread {
+    use super::hooks;
+    pub use std::thread::{available_parallelism, ThreadId};
+
+    #[derive(Clone, Debug)]
+    pub struct Thread(std::thread::Thread);
+
+    pub fn current() -> Thread {
+        Thread(std::thread::current())
+    }
+
+    pub fn park() {
+        if !hooks().is_some_and(|hooks| hooks.park(false)) {
+            std::thread::park();
+        }
+    }
+
+    pub fn park_timeout(timeout: std::time::Duration) {
+        if !hooks().is_some_and(|hooks| hooks.park(true)) {
+            std::thread::park_timeout(timeout);
+        }
+    }
+
+    pub fn yield_now() {
+        match hooks() {
+            Some(hooks) => hooks.spin(),
+            None => std::thread::yield_now(),
+        }
+    }
+
+    impl Thread {
+        pub fn id(&self) -> ThreadId {
+            self.0.id()
+        }
+
+        pub fn unpark(&self) {
+            if !hooks().is_some_and(|hooks| hooks.unpark(self.0.id())) {
+                self.0.unpark();
+            }
+        }
+    }
+}
+
+/// Instrumented version of `std::hint`.
+#[allow(missing_docs)]
+pub mod hint {
+    pub use std::hint::*;
+
+    pub fn spin_loop() {
+        match super::hooks() {
+            Some(hooks) => hooks.spin(),
+            None => std::hint::spin_loop(),
+        }
+    }
+}
+
+/// Instrumented version of `std::alloc`.
+#[allow(missing_docs, clippy::missing_safety_doc)]
+pub mod alloc {
+    use super::hooks;
+    pub use std::alloc::{handle_alloc_error, Layout};
+
+    pub unsafe fn alloc(layout: Layout) -> *mut u8 {
+        let ptr = unsafe { std::alloc::alloc(layout) };
+        if let Some(hooks) = hooks() {
+            hooks.alloc(ptr as usize, layout.size());
+        }
+        ptr
+    }
+
+    pub unsafe fn alloc_zeroed(layout: Layout) -> *mut u8 {
+        let ptr = unsafe { std::alloc::alloc_zeroed(layout) };
+        if let Some(hooks) = hooks() {
+            hooks.alloc(ptr as usize, layout.size());
+        }
+        ptr
+    }
+
+    pub unsafe fn dealloc(ptr: *mut u8, layout: Layout) {
+        if hooks().map_or(true, |hooks| hooks.dealloc(ptr as usize, layout.size())) {
+            unsafe { std::alloc::dealloc(ptr, layout) }
+        }
+    }
+}
-- 
2.43.0


From 1eb9bb09722ab3bdd38808bd85420551801294d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:46 +0000
Subject: [PATCH 09/18] Instrument fences under cfg(papaya_verif)

---
 src/verif.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/verif.rs b/src/verif.rs
index 2a7ca00..4506cfb 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -53,6 +53,9 @@ pub trait Hooks: Sync {
     /// The access must be valid.
     unsafe fn atomic(&self, access: &Access) -> Option<(u64, bool)>;
 
+    /// The thread executed a memory fence.
+    fn fence(&self, order: Ordering);
+
     /// The thread is about to attempt to acquire the given lock.
     fn lock(&self, addr: usize, try_lock: bool);
 
@@ -183,7 +186,15 @@ pub mod atomic {
     use std::ops::{Deref, DerefMut};
     use std::sync::atomic as std_atomic;
 
-    pub use std::sync::atomic::{compiler_fence, fence, Ordering};
+    pub use std::sync::atomic::{compiler_fence, Ordering};
+
+    #[inline]
+    pub fn fence(order: Ordering) {
+        std_atomic::fence(order);
+        if let Some(hooks) = super::hooks() {
+            hooks.fence(order);
+        }
+    }
 
     macro_rules! atomic {
         ([$($generics:tt)*] $name:ty, $ctor:ident, $inner:ty, $value:ty) => {
-- 
2.43.0


From 76d8e79ade76ec6080ddc979c8db8c447734f71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:09 +0000
Subject: [PATCH 10/18] fix: copy the rest of a resize that does not keep up
 with insertions

---
 src/raw/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index bdacb87..0eb3005 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -2212,6 +2212,14 @@ where
             return table;
         };
 
+        // If the next table has already filled up, incremental copying is not keeping up with
+        // insertions. Copy the remaining entries to avoid accumulating nested resizes, along
+        // with their tables.
+        let chunk = match next.next_table() {
+            Some(_) => table.len(),
+            None => chunk,
+        };
+
         loop {
             // The copy already completed.
             if self.try_promote(&table, &next, 0, guard) {
-- 
2.43.0


From 3bea53c5969304b92a2ef21af3def66729e11df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:45 +0000
Subject: [PATCH 11/18] Report retired objects under cfg(papaya_verif)

---
 src/raw/utils/mod.rs |  2 ++
 src/verif.rs         | 12 ++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/raw/utils/mod.rs b/src/raw/utils/mod.rs
index da7e8c5..e39cd9f 100644
--- a/src/raw/utils/mod.rs
+++ b/src/raw/utils/mod.rs
@@ -66,6 +66,8 @@ where
 
     #[inline]
     unsafe fn defer_retire<T>(&self, ptr: *mut T, reclaim: unsafe fn(*mut T, &seize::Collector)) {
+        #[cfg(papaya_verif)]
+        crate::verif::retire(ptr);
         unsafe { self.0.defer_retire(ptr, reclaim) };
     }
 
diff --git a/src/verif.rs b/src/verif.rs
index 4506cfb..bdbfb7f 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -83,6 +83,11 @@ pub trait Hooks: Sync {
 
     /// Memory is about to be deallocated. Returns `false` if the memory should be leaked.
     fn dealloc(&self, addr: usize, size: usize) -> bool;
+
+    /// An object of the map is about to be retired.
+    fn retire(&self, addr: usize, size: usize) {
+        let _ = (addr, size);
+    }
 }
 
 static HOOKS: OnceLock<&'static dyn Hooks> = OnceLock::new();
@@ -117,6 +122,13 @@ fn access(
     })
 }
 
+/// An object is about to be retired.
+pub(crate) fn retire<T>(ptr: *mut T) {
+    if let Some(hooks) = hooks() {
+        hooks.retire(ptr as usize, std::mem::size_of::<T>());
+    }
+}
+
 /// Performs a load of a protected pointer.
 pub(crate) fn protect<T>(
     ptr: &std::sync::atomic::AtomicPtr<T>,
-- 
2.43.0


From c27ca3cfc4932de6324f984b11399a75ab5bafbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:57 +0000
Subject: [PATCH 12/18] Complete the instrumented primitives under
 cfg(papaya_verif)

---
 src/verif.rs | 69 +++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 68 insertions(+), 1 deletion(-)

diff --git a/src/verif.rs b/src/verif.rs
index bdbfb7f..c10c63b 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -321,6 +321,13 @@ pub mod atomic {
                 }
             }
 
+            impl<$($generics)*> From<$value> for $name {
+                #[inline]
+                fn from(value: $value) -> Self {
+                    Self::new(value)
+                }
+            }
+
             impl<$($generics)*> std::fmt::Debug for $name {
                 fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                     self.0.fmt(f)
@@ -364,9 +371,13 @@ pub mod atomic {
     atomic!([T] AtomicPtr<T>, AtomicPtr, std_atomic::AtomicPtr<T>, *mut T);
 
     integer!(AtomicU8, u8);
+    integer!(AtomicU16, u16);
     integer!(AtomicU32, u32);
     integer!(AtomicU64, u64);
     integer!(AtomicUsize, usize);
+    integer!(AtomicI8, i8);
+    integer!(AtomicI16, i16);
+    integer!(AtomicI32, i32);
     integer!(AtomicI64, i64);
     integer!(AtomicIsize, isize);
 
@@ -399,6 +410,43 @@ pub mod atomic {
             self.0.fetch_and(value as u8, order) != 0
         }
 
+        pub fn fetch_xor(&self, value: bool, order: Ordering) -> bool {
+            self.0.fetch_xor(value as u8, order) != 0
+        }
+
+        pub fn fetch_not(&self, order: Ordering) -> bool {
+            self.fetch_xor(true, order)
+        }
+
+        pub fn into_inner(self) -> bool {
+            self.0.into_inner() != 0
+        }
+
+        pub fn compare_exchange_weak(
+            &self,
+            current: bool,
+            new: bool,
+            success: Ordering,
+            failure: Ordering,
+        ) -> Result<bool, bool> {
+            self.0
+                .compare_exchange_weak(current as u8, new as u8, success, failure)
+                .map(|value| value != 0)
+                .map_err(|value| value != 0)
+        }
+
+        pub fn fetch_update(
+            &self,
+            set_order: Ordering,
+            fetch_order: Ordering,
+            mut f: impl FnMut(bool) -> Option<bool>,
+        ) -> Result<bool, bool> {
+            self.0
+                .fetch_update(set_order, fetch_order, |value| f(value != 0).map(u8::from))
+                .map(|value| value != 0)
+                .map_err(|value| value != 0)
+        }
+
         pub fn compare_exchange(
             &self,
             current: bool,
@@ -526,7 +574,7 @@ impl<T> Drop for MutexGuard<'_, T> {
 #[allow(missing_docs)]
 pub mod thread {
     use super::hooks;
-    pub use std::thread::{available_parallelism, ThreadId};
+    pub use std::thread::{available_parallelism, panicking, ThreadId};
 
     #[derive(Clone, Debug)]
     pub struct Thread(std::thread::Thread);
@@ -554,6 +602,13 @@ pub mod thread {
         }
     }
 
+    pub fn sleep(duration: std::time::Duration) {
+        match hooks() {
+            Some(hooks) => hooks.spin(),
+            None => std::thread::sleep(duration),
+        }
+    }
+
     impl Thread {
         pub fn id(&self) -> ThreadId {
             self.0.id()
@@ -602,6 +657,18 @@ pub mod alloc {
         ptr
     }
 
+    pub unsafe fn realloc(ptr: *mut u8, layout: Layout, size: usize) -> *mut u8 {
+        let new = unsafe { Layout::from_size_align_unchecked(size, layout.align()) };
+        let dest = unsafe { alloc(new) };
+        if !dest.is_null() {
+            unsafe {
+                std::ptr::copy_nonoverlapping(ptr, dest, layout.size().min(size));
+                dealloc(ptr, layout);
+            }
+        }
+        dest
+    }
+
     pub unsafe fn dealloc(ptr: *mut u8, layout: Layout) {
         if hooks().map_or(true, |hooks| hooks.dealloc(ptr as usize, layout.size())) {
             unsafe { std::alloc::dealloc(ptr, layout) }
-- 
2.43.0


From 0dc6058a5b00d57c9d833ad79ee49a90d1a21d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:59 +0000
Subject: [PATCH 13/18] Let a harness choose the chunks of blocking resizes
 under cfg(papaya_verif)

---
 src/raw/mod.rs |  4 ++--
 src/sync.rs    | 10 ++++++++++
 src/verif.rs   | 10 ++++++++++
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 0eb3005..1baf5ad 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -12,7 +12,7 @@ use self::probe::Probe;
 use self::utils::{untagged, AtomicPtrFetchOps, Counter, Parker, StrictProvenance, Tagged};
 use crate::map::{Compute, Operation, ResizeMode};
 use crate::sync::atomic::{AtomicPtr, AtomicU8, AtomicUsize, Ordering};
-use crate::sync::{hint, Mutex};
+use crate::sync::{self, hint, Mutex};
 use crate::Equivalent;
 
 use seize::{Collector, LocalGuard, OwnedGuard};
@@ -2039,7 +2039,7 @@ where
                 return next;
             }
 
-            let copy_chunk = table.len().min(4096);
+            let copy_chunk = table.len().min(sync::copy_chunk(4096));
 
             loop {
                 // Every entry has already been claimed.
diff --git a/src/sync.rs b/src/sync.rs
index ece19eb..ccbf684 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -13,3 +13,13 @@ pub use std::{
 
 #[cfg(papaya_verif)]
 pub use crate::verif::{alloc, atomic, hint, thread, Mutex};
+
+#[cfg(papaya_verif)]
+pub(crate) use crate::verif::copy_chunk;
+
+/// Returns the number of entries that are copied at a time by a blocking resize.
+#[cfg(not(papaya_verif))]
+#[inline(always)]
+pub fn copy_chunk(usual: usize) -> usize {
+    usual
+}
diff --git a/src/verif.rs b/src/verif.rs
index c10c63b..49139e6 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -84,6 +84,11 @@ pub trait Hooks: Sync {
     /// Memory is about to be deallocated. Returns `false` if the memory should be leaked.
     fn dealloc(&self, addr: usize, size: usize) -> bool;
 
+    /// The number of entries that are copied at a time by a blocking resize.
+    fn copy_chunk(&self, usual: usize) -> usize {
+        usual
+    }
+
     /// An object of the map is about to be retired.
     fn retire(&self, addr: usize, size: usize) {
         let _ = (addr, size);
@@ -122,6 +127,11 @@ fn access(
     })
 }
 
+/// Returns the number of entries that are copied at a time by a blocking resize.
+pub(crate) fn copy_chunk(usual: usize) -> usize {
+    hooks().map_or(usual, |hooks| hooks.copy_chunk(usual))
+}
+
 /// An object is about to be retired.
 pub(crate) fn retire<T>(ptr: *mut T) {
     if let Some(hooks) = hooks() {
-- 
2.43.0


From fbf2303347f774ddfb9d0709b28d8ccabbfb772b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:12 +0000
Subject: [PATCH 14/18] fix: resize after an allocation that panicked

If the size of a table overflows, `reserve` panics while it holds the
allocation lock. Any later resize then deadlocked: the poisoned guard that
`try_lock` returned was alive when the lock was acquired again.
---
 src/raw/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 1baf5ad..7437df8 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -5,6 +5,7 @@ pub(crate) mod utils;
 
 use std::hash::{BuildHasher, Hash};
 use std::mem::MaybeUninit;
+use std::sync::{PoisonError, TryLockError};
 use std::{panic, ptr};
 
 use self::alloc::{RawTable, Table};
@@ -1909,8 +1910,10 @@ where
         // Unlike in `init`, we do not race here to prevent unnecessary allocator pressure.
         let _allocating = match state.allocating.try_lock() {
             Ok(lock) => lock,
+            // A previous allocation panicked, but did not leave anything behind.
+            Err(TryLockError::Poisoned(err)) => err.into_inner(),
             // Someone else is currently allocating.
-            Err(_) => {
+            Err(TryLockError::WouldBlock) => {
                 let mut spun = 0;
 
                 // Spin for a bit, waiting for the table to be initialized.
@@ -1928,7 +1931,10 @@ where
                 }
 
                 // Otherwise, we have to block.
-                state.allocating.lock().unwrap()
+                state
+                    .allocating
+                    .lock()
+                    .unwrap_or_else(PoisonError::into_inner)
             }
         };
 
-- 
2.43.0


From 3cdcbd331a84c827f4f0f8c07f185ff41748bc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:20 +0000
Subject: [PATCH 15/18] fix: panic if the size of a table overflows

In release builds the computation wrapped around: `with_capacity` and
`reserve` went on to allocate too little memory for the table that they
asked for, instead of panicking as documented.
---
 src/raw/alloc.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/raw/alloc.rs b/src/raw/alloc.rs
index 0ea4cdf..da0d7ce 100644
--- a/src/raw/alloc.rs
+++ b/src/raw/alloc.rs
@@ -220,10 +220,11 @@ impl<T> Table<T> {
 
     // Returns the non-zero layout for a table allocation.
     fn layout(len: usize) -> Layout {
-        let size = mem::size_of::<TableLayout<T>>()
-            + (mem::size_of::<u8>() * len) // Metadata table.
-            + (mem::size_of::<AtomicPtr<T>>() * len); // Entry pointers.
-                                                      //
+        let size = (mem::size_of::<u8>() + mem::size_of::<AtomicPtr<T>>()) // Metadata and entry pointers.
+            .checked_mul(len)
+            .and_then(|size| size.checked_add(mem::size_of::<TableLayout<T>>()))
+            .expect("capacity overflow");
+
         Layout::from_size_align(size, mem::align_of::<TableLayout<T>>()).unwrap()
     }
 }
-- 
2.43.0


From e39b61470dcf47120d35b86ee779b2bd81fdbeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:58 +0000
Subject: [PATCH 16/18] fix: keep the tag bits of entry pointers clear for
 zero-sized entries

---
 src/raw/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 7437df8..4b0a817 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -120,7 +120,10 @@ pub enum RawInsertResult<'g, K, V> {
 }
 
 // An entry in the hash-table.
-#[repr(C)]
+//
+// The alignment leaves room for the tag bits below, which also holds for entries of
+// zero-sized keys and values: their pointers are dangling, but well-aligned and non-null.
+#[repr(C, align(8))]
 pub struct Entry<K, V> {
     /// The key for this entry.
     pub key: K,
-- 
2.43.0


From ce8ec3135db6e16d1d75b20ff52e241c695c4b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:22 +0000
Subject: [PATCH 17/18] fix: do not overflow the claim of incremental resizes
 with huge chunks

---
 src/raw/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 4b0a817..9dfb8ff 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -2226,7 +2226,8 @@ where
         // with their tables.
         let chunk = match next.next_table() {
             Some(_) => table.len(),
-            None => chunk,
+            // The entries are claimed by adding to a counter that must not overflow.
+            None => chunk.min(table.len()),
         };
 
         loop {
-- 
2.43.0


From 0c42404c93d62e04c07952d50b6123f183b982a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:22 +0000
Subject: [PATCH 18/18] fix: do not trust the size that deserialized input
 claims to have

---
 src/serde_impls.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/serde_impls.rs b/src/serde_impls.rs
index d1a7d80..d90bae9 100644
--- a/src/serde_impls.rs
+++ b/src/serde_impls.rs
@@ -7,6 +7,13 @@ use std::marker::PhantomData;
 
 use crate::{Guard, HashMap, HashMapRef, HashSet, HashSetRef};
 
+/// Returns the capacity to allocate up front for input that claims to have `size` elements.
+///
+/// The claim may be part of the input, so it is not trusted with large allocations.
+fn cautious(size: usize) -> usize {
+    size.min(1 << 16)
+}
+
 struct MapVisitor<K, V, S> {
     _marker: PhantomData<HashMap<K, V, S>>,
 }
@@ -79,7 +86,7 @@ where
         M: MapAccess<'de>,
     {
         let values = match access.size_hint() {
-            Some(size) => HashMap::with_capacity_and_hasher(size, S::default()),
+            Some(size) => HashMap::with_capacity_and_hasher(cautious(size), S::default()),
             None => HashMap::default(),
         };
 
@@ -162,7 +169,7 @@ where
         M: SeqAccess<'de>,
     {
         let values = match access.size_hint() {
-            Some(size) => HashSet::with_capacity_and_hasher(size, S::default()),
+            Some(size) => HashSet::with_capacity_and_hasher(cautious(size), S::default()),
             None => HashSet::default(),
         };
 
-- 
2.43.0

