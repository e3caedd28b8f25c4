// The interfaces of the map and the set, for the types `K`, `V`, `Q` and `Bh` in scope.

pub type Map = HashMap<K, V, Bh>;
pub type Set = HashSet<K, Bh>;

/// The result of `compute`.
pub enum CompR {
    Ins(*const K, *const V),
    Upd(*const V, *const K, *const V),
    Rem(*const K, *const V),
    Abort(i64),
}

type KV = (*const K, *const V);

/// The operations of the map, through any of its interfaces.
pub trait Api {
    fn get(&self, q: &Q) -> Option<*const V>;
    fn get_kv(&self, q: &Q) -> Option<KV>;
    fn has(&self, q: &Q) -> bool;
    fn ins(&self, k: K, v: V) -> Option<*const V>;
    fn try_ins(&self, k: K, v: V) -> Result<*const V, (*const V, V)>;
    fn try_ins_w(&self, k: K, f: &mut dyn FnMut() -> V) -> Result<*const V, *const V>;
    fn goi(&self, k: K, v: V) -> *const V;
    fn goiw(&self, k: K, f: &mut dyn FnMut() -> V) -> *const V;
    fn upd(&self, k: K, f: &dyn Fn(&V) -> V) -> Option<*const V>;
    fn uoi(&self, k: K, f: &dyn Fn(&V) -> V, v: V) -> *const V;
    fn uoiw(&self, k: K, f: &dyn Fn(&V) -> V, i: &mut dyn FnMut() -> V) -> *const V;
    fn comp(&self, k: K, f: &mut dyn FnMut(Option<(&K, &V)>) -> Operation<V, i64>) -> CompR;
    fn rem(&self, q: &Q) -> Option<*const V>;
    fn rem_e(&self, q: &Q) -> Option<KV>;
    fn rem_if(&self, q: &Q, f: &mut dyn FnMut(&K, &V) -> bool) -> Result<Option<KV>, KV>;
    fn clear(&self);
    fn retain(&mut self, f: &mut dyn FnMut(&K, &V) -> bool);
    fn iter<'a>(&'a self) -> Box<dyn Iterator<Item = KV> + 'a>;
    fn keys<'a>(&'a self) -> Box<dyn Iterator<Item = *const K> + 'a>;
    fn values<'a>(&'a self) -> Box<dyn Iterator<Item = *const V> + 'a>;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn reserve(&self, n: usize);
}

pub struct Direct<'a, G> {
    pub m: &'a Map,
    pub g: &'a G,
}

/// A `DropGuard`-like wrapper so that the boxed iterators are not allocated in the map.
macro_rules! boxed {
    ($e:expr, $f:expr) => {{
        let it = in_map(|| $e);
        Box::new(InMapIter(it).map($f))
    }};
}

struct InMapIter<I>(I);
impl<I: Iterator> Iterator for InMapIter<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        in_map(|| self.0.next())
    }
}

macro_rules! api {
    ([$($gen:tt)*] $ty:ty, |$s:ident| $m:expr $(, $g:expr)?) => {
        impl<$($gen)*> Api for $ty {
            fn get(&self, q: &Q) -> Option<*const V> {
                let $s = self;
                in_map(|| ($m).get(q $(, $g)?).map(|v| v as *const V))
            }
            fn get_kv(&self, q: &Q) -> Option<KV> {
                let $s = self;
                in_map(|| ($m).get_key_value(q $(, $g)?).map(|(k, v)| (k as *const K, v as *const V)))
            }
            fn has(&self, q: &Q) -> bool {
                let $s = self;
                in_map(|| ($m).contains_key(q $(, $g)?))
            }
            fn ins(&self, k: K, v: V) -> Option<*const V> {
                let $s = self;
                in_map(|| ($m).insert(k, v $(, $g)?).map(|v| v as *const V))
            }
            fn try_ins(&self, k: K, v: V) -> Result<*const V, (*const V, V)> {
                let $s = self;
                in_map(|| ($m).try_insert(k, v $(, $g)?).map(|v| v as *const V).map_err(|e| (e.current as *const V, e.not_inserted)))
            }
            fn try_ins_w(&self, k: K, f: &mut dyn FnMut() -> V) -> Result<*const V, *const V> {
                let $s = self;
                in_map(|| ($m).try_insert_with(k, || f() $(, $g)?).map(|v| v as *const V).map_err(|e| e as *const V))
            }
            fn goi(&self, k: K, v: V) -> *const V {
                let $s = self;
                in_map(|| ($m).get_or_insert(k, v $(, $g)?) as *const V)
            }
            fn goiw(&self, k: K, f: &mut dyn FnMut() -> V) -> *const V {
                let $s = self;
                in_map(|| ($m).get_or_insert_with(k, || f() $(, $g)?) as *const V)
            }
            fn upd(&self, k: K, f: &dyn Fn(&V) -> V) -> Option<*const V> {
                let $s = self;
                in_map(|| ($m).update(k, |v| f(v) $(, $g)?).map(|v| v as *const V))
            }
            fn uoi(&self, k: K, f: &dyn Fn(&V) -> V, v: V) -> *const V {
                let $s = self;
                in_map(|| ($m).update_or_insert(k, |v| f(v), v $(, $g)?) as *const V)
            }
            fn uoiw(&self, k: K, f: &dyn Fn(&V) -> V, i: &mut dyn FnMut() -> V) -> *const V {
                let $s = self;
                in_map(|| ($m).update_or_insert_with(k, |v| f(v), || i() $(, $g)?) as *const V)
            }
            fn comp(&self, k: K, f: &mut dyn FnMut(Option<(&K, &V)>) -> Operation<V, i64>) -> CompR {
                let $s = self;
                in_map(|| match ($m).compute(k, |e| f(e) $(, $g)?) {
                    Compute::Inserted(k, v) => CompR::Ins(k, v),
                    Compute::Updated { old, new } => CompR::Upd(old.1, new.0, new.1),
                    Compute::Removed(k, v) => CompR::Rem(k, v),
                    Compute::Aborted(x) => CompR::Abort(x),
                })
            }
            fn rem(&self, q: &Q) -> Option<*const V> {
                let $s = self;
                in_map(|| ($m).remove(q $(, $g)?).map(|v| v as *const V))
            }
            fn rem_e(&self, q: &Q) -> Option<KV> {
                let $s = self;
                in_map(|| ($m).remove_entry(q $(, $g)?).map(|(k, v)| (k as *const K, v as *const V)))
            }
            fn rem_if(&self, q: &Q, f: &mut dyn FnMut(&K, &V) -> bool) -> Result<Option<KV>, KV> {
                let $s = self;
                in_map(|| match ($m).remove_if(q, |k, v| f(k, v) $(, $g)?) {
                    Ok(None) => Ok(None),
                    Ok(Some((k, v))) => Ok(Some((k as *const K, v as *const V))),
                    Err((k, v)) => Err((k as *const K, v as *const V)),
                })
            }
            fn clear(&self) {
                let $s = self;
                in_map(|| ($m).clear($($g)?))
            }
            fn retain(&mut self, f: &mut dyn FnMut(&K, &V) -> bool) {
                let $s = self;
                in_map(|| ($m).retain(|k, v| f(k, v) $(, $g)?))
            }
            fn iter<'x>(&'x self) -> Box<dyn Iterator<Item = KV> + 'x> {
                let $s = self;
                boxed!(($m).iter($($g)?), |(k, v)| (k as *const K, v as *const V))
            }
            fn keys<'x>(&'x self) -> Box<dyn Iterator<Item = *const K> + 'x> {
                let $s = self;
                boxed!(($m).keys($($g)?), |k| k as *const K)
            }
            fn values<'x>(&'x self) -> Box<dyn Iterator<Item = *const V> + 'x> {
                let $s = self;
                boxed!(($m).values($($g)?), |v| v as *const V)
            }
            fn len(&self) -> usize {
                let $s = self;
                in_map(|| ($m).len())
            }
            fn is_empty(&self) -> bool {
                let $s = self;
                in_map(|| ($m).is_empty())
            }
            fn reserve(&self, n: usize) {
                let $s = self;
                in_map(|| ($m).reserve(n $(, $g)?))
            }
        }
    };
}

api!(['a, G: Guard] Direct<'a, G>, |s| s.m, s.g);
api!(['a, G: Guard] HashMapRef<'a, K, V, Bh, G>, |s| s);

/// The operations of the set.
pub trait SetApi {
    fn get(&self, q: &Q) -> Option<*const K>;
    fn has(&self, q: &Q) -> bool;
    fn ins(&self, k: K) -> bool;
    fn rem(&self, q: &Q) -> bool;
    fn clear(&self);
    fn retain(&mut self, f: &mut dyn FnMut(&K) -> bool);
    fn iter<'a>(&'a self) -> Box<dyn Iterator<Item = *const K> + 'a>;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn reserve(&self, n: usize);
}

pub struct DirectSet<'a, G> {
    pub m: &'a Set,
    pub g: &'a G,
}

macro_rules! set_api {
    ([$($gen:tt)*] $ty:ty, |$s:ident| $m:expr $(, $g:expr)?; $($retain:tt)*) => {
        impl<$($gen)*> SetApi for $ty {
            fn get(&self, q: &Q) -> Option<*const K> {
                let $s = self;
                in_map(|| ($m).get(q $(, $g)?).map(|v| v as *const K))
            }
            fn has(&self, q: &Q) -> bool {
                let $s = self;
                in_map(|| ($m).contains(q $(, $g)?))
            }
            fn ins(&self, k: K) -> bool {
                let $s = self;
                in_map(|| ($m).insert(k $(, $g)?))
            }
            fn rem(&self, q: &Q) -> bool {
                let $s = self;
                in_map(|| ($m).remove(q $(, $g)?))
            }
            fn clear(&self) {
                let $s = self;
                in_map(|| ($m).clear($($g)?))
            }
            $($retain)*
            fn iter<'x>(&'x self) -> Box<dyn Iterator<Item = *const K> + 'x> {
                let $s = self;
                boxed!(($m).iter($($g)?), |k| k as *const K)
            }
            fn len(&self) -> usize {
                let $s = self;
                in_map(|| ($m).len())
            }
            fn is_empty(&self) -> bool {
                let $s = self;
                in_map(|| ($m).is_empty())
            }
            fn reserve(&self, n: usize) {
                let $s = self;
                in_map(|| ($m).reserve(n $(, $g)?))
            }
        }
    };
}

set_api!(['a, G: Guard] DirectSet<'a, G>, |s| s.m, s.g;
    fn retain(&mut self, f: &mut dyn FnMut(&K) -> bool) {
        // The guard cannot borrow the set if the set is borrowed uniquely; a program gets around
        // this with a guard of the collector.
        let m = unsafe { &mut *(self.m as *const Set as *mut Set) };
        in_map(|| m.retain(|k| f(k), self.g))
    }
);
set_api!(['a, G: Guard] HashSetRef<'a, K, Bh, G>, |s| s;
    fn retain(&mut self, f: &mut dyn FnMut(&K) -> bool) {
        in_map(|| HashSetRef::retain(self, |k| f(k)))
    }
);

