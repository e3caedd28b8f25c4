//! A fast rendering of the monitors in `spec/`, which picks the traces that are handed to TLC
//! first when there are more than it can read in the time of a check.  It never decides: a trace
//! that it suspects is always judged by TLC, and so is a sample of the others.

use crate::proj::Row;
use std::collections::{HashMap, HashSet};

const INV: i32 = 1;
const RET: i32 = 2;
const CB: i32 = 3;
const YIELD: i32 = 4;
const MARK: i32 = 5;

#[derive(Clone, PartialEq, Eq, Hash)]
struct Conf {
    cur: i32,
    pending: u128,
    /// The values that the key has had since the invocation of an operation.
    seen: Vec<(i32, u128)>,
}

fn tracked(op: i32) -> bool {
    matches!(op, 6 | 8 | 9 | 10 | 11 | 12 | 15 | 16..=20)
}

struct Key<'a> {
    t: &'a [Row],
    act: HashMap<i32, usize>,
}

impl Key<'_> {
    fn cbs(&self, id: i32, p: usize) -> impl Iterator<Item = &Row> + '_ {
        self.t[..p].iter().filter(move |r| r[0] == CB && r[1] == id)
    }

    fn cb(&self, id: i32, p: usize, i: i32, o: i32, d: i32) -> bool {
        self.cbs(id, p).any(|r| r[2] == i && r[3] == o && r[4] == d)
    }

    fn last(&self, id: i32, p: usize) -> Option<&Row> {
        self.cbs(id, p).last()
    }

    fn post(&self, id: i32, p: usize, cur: i32) -> Option<i32> {
        let inv = &self.t[self.act[&id]];
        let (op, arg) = (inv[2], inv[3]);
        if inv[4] == 0 {
            return None;
        }
        let r = &self.t[inv[4] as usize - 1];
        let (kind, a, b) = (r[2], r[3], r[4]);
        if kind == 7 {
            return None;
        }
        if kind == 6 {
            return Some(cur);
        }
        let when = |c: bool, v: i32| if c { Some(v) } else { None };
        match op {
            1 => when(cur == a, cur),
            2 => when(cur == a && b == 0, cur),
            3 => when((cur != 0) == (a == 1), cur),
            4 => when(cur == a, arg),
            5 if kind == 0 => when(cur == 0 && a == arg, arg),
            5 => when(cur != 0 && cur == a && b == arg, cur),
            6 if kind == 0 => when(cur == 0 && self.cb(id, p, 0, a, 1), a),
            6 => when(cur != 0 && cur == a, cur),
            7 if a == arg => when(cur == 0, arg),
            7 => when(cur != 0 && cur == a, cur),
            8 if self.cbs(id, p).any(|r| r[3] == a) => when(cur == 0 && self.cb(id, p, 0, a, 1), a),
            8 => when(cur != 0 && cur == a, cur),
            9 if a == 0 => when(cur == 0, 0),
            9 => when(cur != 0 && self.cb(id, p, cur, a, 1), a),
            10 if a == arg => when(cur == 0, arg),
            10 => when(cur != 0 && self.cb(id, p, cur, a, 1), a),
            11 => when(a != 0 && self.cb(id, p, cur, a, 1), a),
            12 => match kind {
                2 => when(cur == 0 && self.cb(id, p, 0, b, 1), b),
                3 => when(cur != 0 && cur == a && self.cb(id, p, a, b, 1), b),
                4 => when(cur != 0 && cur == a && self.cb(id, p, a, 0, 2), 0),
                5 => when(b == 0 && self.last(id, p).is_some_and(|r| r[4] == 3), cur),
                8 => when(self.last(id, p).is_some_and(|r| r[2] == 0 && r[4] == 2), cur),
                _ => None,
            },
            13 => when(cur == a, 0),
            14 => when(cur == a && b == 0, 0),
            15 if kind == 1 => when(
                b == 0 && a != 0 && self.last(id, p).is_some_and(|r| r[2] == a && r[4] == 5),
                cur,
            ),
            15 if a == 0 => when(cur == 0, 0),
            15 => when(
                cur == a && b == 0 && self.last(id, p).is_some_and(|r| r[2] == a && r[4] == 4),
                0,
            ),
            24 if a == 1 => when(cur == 0, arg),
            24 => when(cur != 0, cur),
            25 if a == 1 => when(cur != 0, 0),
            25 => when(cur == 0, 0),
            _ => None,
        }
    }

    fn moved(&self, c: &Conf, v: i32, pending: u128) -> Conf {
        let mut n = Conf {
            cur: v,
            pending,
            seen: c.seen.clone(),
        };
        if v != c.cur {
            for (&id, &at) in &self.act {
                if self.t[at][0] == MARK || tracked(self.t[at][2]) {
                    see(&mut n.seen, id, v);
                }
            }
        }
        n
    }

    fn succ(&self, c: &Conf, p: usize, out: &mut Vec<Conf>) {
        let mut m = c.pending;
        while m != 0 {
            let id = m.trailing_zeros() as i32;
            m &= m - 1;
            if let Some(v) = self.post(id, p, c.cur) {
                out.push(self.moved(c, v, c.pending & !(1 << id)));
            }
        }
        if c.cur != 0
            && self.act.iter().any(|(&id, &at)| {
                self.t[at][0] == INV
                    && (self.t[at][2] == 16 || self.t[at][2] == 17 && self.cb(id, p, c.cur, 0, 4))
            })
        {
            out.push(self.moved(c, 0, c.pending));
        }
    }

    fn close(&self, confs: HashSet<Conf>, p: usize) -> HashSet<Conf> {
        let mut todo: Vec<Conf> = confs.iter().cloned().collect();
        let mut done = confs;
        let mut next = vec![];
        while let Some(c) = todo.pop() {
            self.succ(&c, p, &mut next);
            for n in next.drain(..) {
                if done.insert(n.clone()) {
                    todo.push(n);
                }
            }
        }
        done
    }

    fn ret_ok(&self, id: i32, c: &Conf, p: usize) -> bool {
        let op = self.t[self.act[&id]][2];
        let kind = self.t[p][2];
        let absent = seen(&c.seen, id, 0);
        match op {
            16 => kind == 0 && absent,
            17 => kind == 6 || kind == 0 && (absent || self.cbs(id, p + 1).any(|r| r[4] == 5)),
            18..=20 => kind == 0 && (absent || self.t[..=p].iter().any(|r| r[0] == YIELD && r[1] == id)),
            _ => kind != 7 && c.pending & (1 << id) == 0,
        }
    }
}

fn see(s: &mut Vec<(i32, u128)>, id: i32, v: i32) {
    match s.binary_search_by_key(&id, |x| x.0) {
        Ok(i) => s[i].1 |= 1 << v,
        Err(i) => s.insert(i, (id, 1 << v)),
    }
}

fn seen(s: &[(i32, u128)], id: i32, v: i32) -> bool {
    (0..128).contains(&v) && s.iter().any(|x| x.0 == id && x.1 & (1 << v) != 0)
}

/// Whether KeyTrace might reject the trace.
pub fn key(t: &[Row]) -> bool {
    if t.iter().any(|r| r[1] > 120 && r[0] != 9 || r[2] > 120 || r[3] > 120) {
        return false;
    }
    let mut k = Key { t, act: HashMap::new() };
    let mut confs: HashSet<Conf> = HashSet::new();
    confs.insert(Conf {
        cur: 0,
        pending: 0,
        seen: vec![],
    });
    for (p, e) in t.iter().enumerate() {
        let id = e[1];
        match e[0] {
            INV => {
                k.act.insert(id, p);
                confs = confs
                    .into_iter()
                    .map(|mut c| {
                        if !(16..=20).contains(&e[2]) {
                            c.pending |= 1 << id;
                        }
                        if tracked(e[2]) {
                            let v = c.cur;
                            see(&mut c.seen, id, v);
                        }
                        c
                    })
                    .collect();
            }
            MARK => {
                k.act.insert(id, p);
                confs = confs
                    .into_iter()
                    .map(|mut c| {
                        let v = c.cur;
                        see(&mut c.seen, id, v);
                        c
                    })
                    .collect();
            }
            CB => {
                let op = t[k.act[&id]][2];
                let fine = (e[4] == 1 || e[4] == 6 || matches!(op, 12 | 15 | 17))
                    && (!matches!(op, 6 | 8) || k.cbs(id, p + 1).count() == 1);
                confs = k.close(confs, p);
                confs.retain(|c| fine && (e[4] == 6 || seen(&c.seen, id, e[2])));
            }
            YIELD => {
                confs = k.close(confs, p);
                confs = confs
                    .into_iter()
                    .filter(|c| {
                        (if e[3] == 1 {
                            c.seen.iter().any(|x| x.0 == id && x.1 & !1 != 0)
                        } else {
                            e[2] > 0 && seen(&c.seen, id, e[2])
                        }) && (e[4] == 0 || seen(&c.seen, e[4], 0))
                    })
                    .map(|mut c| {
                        c.seen.retain(|x| x.0 != e[4]);
                        c
                    })
                    .collect();
                if e[4] != 0 {
                    k.act.remove(&e[4]);
                }
            }
            RET => {
                confs = k.close(confs, p);
                confs = confs
                    .into_iter()
                    .filter(|c| k.ret_ok(id, c, p))
                    .map(|mut c| {
                        c.seen.retain(|x| x.0 != id);
                        c
                    })
                    .collect();
                k.act.remove(&id);
            }
            _ => {
                if !k.act.is_empty() {
                    return true;
                }
            }
        }
        if confs.is_empty() {
            return true;
        }
        if confs.len() > 20_000 {
            return false;
        }
    }
    false
}

/// Whether LenTrace might reject the trace.
pub fn len(t: &[Row]) -> bool {
    let (mut running, mut asks): (HashSet<i32>, HashSet<i32>) = Default::default();
    let (mut started, mut known, mut count, mut present, mut phase) = (0, true, 0, 0, 0);
    for e in t {
        match e[0] {
            1 => {
                running.insert(e[1]);
                started += e[2];
                asks.clear();
            }
            2 => {
                running.remove(&e[1]);
                count += e[2];
                known &= e[3] == 1;
                asks.clear();
            }
            3 => {
                if running.is_empty() {
                    asks.insert(e[1]);
                }
            }
            4 => {
                let answer = |n: i32| if e[2] == 1 { e[3] == (n == 0) as i32 } else { e[3] == n };
                if e[2] == 0 && !(0..=started).contains(&e[3])
                    || asks.contains(&e[1]) && known && !answer(count)
                    || phase == 2 && !answer(present)
                {
                    return true;
                }
                asks.remove(&e[1]);
            }
            5 => present += e[1],
            6 => phase = e[1],
            _ => return !running.is_empty(),
        }
    }
    false
}

/// Whether ProgressTrace might reject the trace.
pub fn progress(t: &[Row]) -> bool {
    let mut pending: HashMap<i32, i32> = HashMap::new();
    let mut live: HashSet<i32> = HashSet::new();
    let (mut waited, mut resized): (HashSet<i32>, HashSet<i32>) = Default::default();
    let mut tables = 0;
    let lookup = |op: i32| matches!(op, 1 | 2 | 3 | 21 | 22);
    for e in t {
        match e[0] {
            1 => {
                pending.insert(e[1], e[2]);
                if live.len() > 1 {
                    resized.insert(e[1]);
                }
            }
            2 => {
                pending.remove(&e[1]);
                if e[3] == 7 || e[3] == 8 && !matches!(e[2], 12 | 23) {
                    return true;
                }
                if e[3] != 8 && waited.contains(&e[1]) && !resized.contains(&e[1]) {
                    return true;
                }
            }
            3 if pending.get(&e[1]).is_some_and(|&op| lookup(op)) => return true,
            3 => {
                waited.insert(e[1]);
            }
            4 if lookup(e[2]) && e[3] > 60 + 160 * tables => return true,
            5 => {
                tables += 1;
                live.insert(e[1]);
                if live.len() > 1 {
                    resized.extend(pending.keys());
                }
            }
            7 => {
                live.remove(&e[1]);
            }
            6 => return true,
            9 => return !pending.is_empty(),
            _ => {}
        }
    }
    false
}

/// Whether ReclaimTrace might reject the trace.
pub fn reclaim(t: &[Row], left: bool) -> bool {
    let (mut live, mut tables): (HashSet<i32>, HashSet<i32>) = Default::default();
    let mut refs: HashSet<(i32, i32)> = HashSet::new();
    for e in t {
        match e[0] {
            1 => {
                live.insert(e[1]);
            }
            2 => {
                refs.insert((e[1], e[2]));
                if !live.contains(&e[2]) {
                    return true;
                }
            }
            3 => refs.retain(|r| r.0 != e[1]),
            4 => {
                if !live.remove(&e[1]) || refs.iter().any(|r| r.1 == e[1]) {
                    return true;
                }
            }
            5 | 8 | 12 => return true,
            6 => {
                tables.insert(e[1]);
            }
            7 => {
                if !tables.remove(&e[1]) {
                    return true;
                }
            }
            10 | 11 => {}
            _ => return left && (!live.is_empty() || !tables.is_empty() || e[1] != 0 || e[2] != 0),
        }
    }
    false
}
