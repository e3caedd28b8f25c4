//! Which containers, references, guards and iterators the compiler admits to be sent to other
//! threads and shared between them, for keys, values and hashers of every class.

use papaya::{Guard, HashMap, HashSet};
use serde_json::json;
use std::cell::Cell;
use std::hash::{BuildHasher, Hash, Hasher};
use std::marker::PhantomData;

macro_rules! class {
    ($name:ident, $inner:ty) => {
        pub struct $name(u32, PhantomData<$inner>);
        impl PartialEq for $name {
            fn eq(&self, o: &$name) -> bool {
                self.0 == o.0
            }
        }
        impl Eq for $name {}
        impl Hash for $name {
            fn hash<H: Hasher>(&self, h: &mut H) {
                h.write_u32(self.0)
            }
        }
        impl BuildHasher for $name {
            type Hasher = std::hash::DefaultHasher;
            fn build_hasher(&self) -> Self::Hasher {
                Default::default()
            }
        }
        impl Default for $name {
            fn default() -> $name {
                $name(0, PhantomData)
            }
        }
    };
}
class!(Neither, *mut ());
class!(SendOnly, Cell<u8>);
class!(SyncOnly, std::sync::MutexGuard<'static, ()>);
class!(Both, ());

trait Class {
    const C: i64;
}
// One if it may be sent, two if it may be shared.
impl Class for Neither {
    const C: i64 = 0;
}
impl Class for SendOnly {
    const C: i64 = 1;
}
impl Class for SyncOnly {
    const C: i64 = 2;
}
impl Class for Both {
    const C: i64 = 3;
}

// The values are never made: only their types count.
struct W<T>(PhantomData<T>);
fn of<T>(_: impl FnOnce() -> T) -> W<T> {
    W(PhantomData)
}
fn any<T>() -> &'static T {
    unreachable!()
}
trait YesSend {
    fn send(&self) -> i64 {
        1
    }
}
impl<T: Send> YesSend for W<T> {}
trait NoSend {
    fn send(&self) -> i64 {
        0
    }
}
impl<T> NoSend for &W<T> {}
trait YesSync {
    fn sync(&self) -> i64 {
        1
    }
}
impl<T: Sync> YesSync for W<T> {}
trait NoSync {
    fn sync(&self) -> i64 {
        0
    }
}
impl<T> NoSync for &W<T> {}

fn leak<T>(x: T) -> &'static T {
    Box::leak(Box::new(x))
}

macro_rules! probe {
    ($v:expr) => {{
        let w = of(|| $v);
        ((&w).send(), (&w).sync())
    }};
}

const CONTAINER: i64 = 1;
const HANDLE: i64 = 2;
const ITER: i64 = 3;
const KEYS: i64 = 4;
const VALUES: i64 = 5;
const GUARD: i64 = 6;
const BUILDER: i64 = 7;
const COLLECTOR: i64 = 8;

const LOCAL: i64 = 0;
const OWNED: i64 = 3;

type Rows = Vec<(&'static str, [i64; 7])>;

macro_rules! row {
    ($rows:ident, $kind:expr, $k:ty, $v:expr, $s:ty, $g:expr, $what:expr, $name:expr) => {{
        let (send, sync) = probe!($what);
        push($rows, $name, [$kind, <$k as Class>::C, $v, <$s as Class>::C, $g, send, sync]);
    }};
}

#[inline(never)]
fn push(rows: &mut Rows, name: &'static str, row: [i64; 7]) {
    rows.push((name, row));
}

macro_rules! map {
    ($rows:ident, $k:ty, $v:ty, $s:ty) => {{
        #[inline(never)]
        fn run(rows: &mut Rows) {
        let v = <$v as Class>::C;
        type M = HashMap<$k, $v, $s>;
        row!(rows, CONTAINER, $k, v, $s, OWNED, M::default(), "HashMap");
        row!(rows, HANDLE, $k, v, $s, LOCAL, any::<M>().pin(), "HashMapRef of HashMap::pin");
        row!(rows, HANDLE, $k, v, $s, OWNED, any::<M>().pin_owned(), "HashMapRef of HashMap::pin_owned");
        row!(rows, GUARD, $k, v, $s, LOCAL, any::<M>().guard(), "guard of HashMap::guard");
        row!(rows, GUARD, $k, v, $s, OWNED, any::<M>().owned_guard(), "guard of HashMap::owned_guard");
        row!(rows, COLLECTOR, $k, v, $s, OWNED, leak(any::<M>().guard()).collector(), "collector of the guards of a HashMap");
        row!(rows, ITER, $k, v, $s, LOCAL, any::<M>().iter(leak(any::<M>().guard())), "HashMap::iter with a local guard");
        row!(rows, ITER, $k, v, $s, OWNED, any::<M>().iter(leak(any::<M>().owned_guard())), "HashMap::iter with an owned guard");
        row!(rows, KEYS, $k, v, $s, LOCAL, any::<M>().keys(leak(any::<M>().guard())), "HashMap::keys with a local guard");
        row!(rows, KEYS, $k, v, $s, OWNED, any::<M>().keys(leak(any::<M>().owned_guard())), "HashMap::keys with an owned guard");
        row!(rows, VALUES, $k, v, $s, LOCAL, any::<M>().values(leak(any::<M>().guard())), "HashMap::values with a local guard");
        row!(rows, VALUES, $k, v, $s, OWNED, any::<M>().values(leak(any::<M>().owned_guard())), "HashMap::values with an owned guard");
        row!(rows, ITER, $k, v, $s, LOCAL, leak(any::<M>().pin()).iter(), "HashMapRef::iter of HashMap::pin");
        row!(rows, ITER, $k, v, $s, OWNED, leak(any::<M>().pin_owned()).iter(), "HashMapRef::iter of HashMap::pin_owned");
        row!(rows, ITER, $k, v, $s, LOCAL, leak(any::<M>().pin()).into_iter(), "IntoIterator of HashMap::pin");
        row!(rows, ITER, $k, v, $s, OWNED, leak(any::<M>().pin_owned()).into_iter(), "IntoIterator of HashMap::pin_owned");
        row!(rows, KEYS, $k, v, $s, OWNED, leak(any::<M>().pin_owned()).keys(), "HashMapRef::keys of HashMap::pin_owned");
        row!(rows, VALUES, $k, v, $s, OWNED, leak(any::<M>().pin_owned()).values(), "HashMapRef::values of HashMap::pin_owned");
        row!(rows, BUILDER, $k, v, $s, OWNED, HashMap::<$k, $v>::builder().hasher(<$s>::default()), "HashMapBuilder");
        }
        run($rows);
    }};
}

macro_rules! set {
    ($rows:ident, $k:ty, $s:ty) => {{
        #[inline(never)]
        fn run(rows: &mut Rows) {
        let v = 3;
        type M = HashSet<$k, $s>;
        row!(rows, CONTAINER, $k, v, $s, OWNED, M::default(), "HashSet");
        row!(rows, HANDLE, $k, v, $s, LOCAL, any::<M>().pin(), "HashSetRef of HashSet::pin");
        row!(rows, HANDLE, $k, v, $s, OWNED, any::<M>().pin_owned(), "HashSetRef of HashSet::pin_owned");
        row!(rows, GUARD, $k, v, $s, LOCAL, any::<M>().guard(), "guard of HashSet::guard");
        row!(rows, GUARD, $k, v, $s, OWNED, any::<M>().owned_guard(), "guard of HashSet::owned_guard");
        row!(rows, COLLECTOR, $k, v, $s, OWNED, leak(any::<M>().guard()).collector(), "collector of the guards of a HashSet");
        row!(rows, KEYS, $k, v, $s, LOCAL, any::<M>().iter(leak(any::<M>().guard())), "HashSet::iter with a local guard");
        row!(rows, KEYS, $k, v, $s, OWNED, any::<M>().iter(leak(any::<M>().owned_guard())), "HashSet::iter with an owned guard");
        row!(rows, KEYS, $k, v, $s, LOCAL, leak(any::<M>().pin()).iter(), "HashSetRef::iter of HashSet::pin");
        row!(rows, KEYS, $k, v, $s, OWNED, leak(any::<M>().pin_owned()).iter(), "HashSetRef::iter of HashSet::pin_owned");
        row!(rows, KEYS, $k, v, $s, OWNED, leak(any::<M>().pin_owned()).into_iter(), "IntoIterator of HashSet::pin_owned");
        row!(rows, BUILDER, $k, v, $s, OWNED, HashSet::<$k>::builder().hasher(<$s>::default()), "HashSetBuilder");
        }
        run($rows);
    }};
}

macro_rules! each {
    ($m:ident, $rows:ident; [$($k:ty)*]) => { $( each!(@v $m, $rows, $k; [Neither SendOnly SyncOnly Both]); )* };
    (@v $m:ident, $rows:ident, $k:ty; [$($v:ty)*]) => { $(
        $m!($rows, $k, $v, Neither); $m!($rows, $k, $v, SendOnly); $m!($rows, $k, $v, SyncOnly); $m!($rows, $k, $v, Both);
    )* };
}
macro_rules! each2 {
    ($rows:ident; [$($k:ty)*]) => { $(
        set!($rows, $k, Neither); set!($rows, $k, SendOnly); set!($rows, $k, SyncOnly); set!($rows, $k, Both);
    )* };
}

pub fn go(out: &str) {
    let mut all: Rows = vec![];
    let rows = &mut all;
    each!(map, rows; [Neither SendOnly SyncOnly Both]);
    each2!(rows; [Neither SendOnly SyncOnly Both]);
    let mut text = String::new();
    for (i, (name, t)) in rows.iter().enumerate() {
        text += &json!({"p": i, "n": 1, "t": [t], "what": name}).to_string();
        text.push('\n');
    }
    std::fs::write(format!("{out}/markers.0.ndjson"), text).unwrap();
    std::fs::write(format!("{out}/stats.0"), json!({"runs": rows.len(), "steps": rows.len()}).to_string()).unwrap();
}
