//! Explores the schedules of programs, and writes the distinct traces.

use crate::exec::{self, Final};
use crate::gen;
use crate::prog::Program;
use crate::proj::{self, Trace};
use crate::screen;
use crate::sched::{self, g, splitmix, Schedule, E};
use serde_json::json;
use std::collections::HashSet;
use std::io::Write;
use std::time::Instant;

pub struct Args {
    pub profile: String,
    pub seed: u64,
    pub shard: u64,
    pub shards: u64,
    pub time: f64,
    pub out: String,
    pub emit: Vec<String>,
    pub cap: usize,
    pub runs: u64,
    pub weak: bool,
    pub first: u64,
    pub only: Option<u64>,
    /// A program to explore instead of the generated ones.
    pub file: Option<Program>,
}

struct Sink {
    seen: HashSet<u64>,
    file: std::io::BufWriter<std::fs::File>,
    written: usize,
    total: u64,
    /// Traces that the screening suspects.
    suspects: usize,
}

pub struct Ex {
    a: Args,
    sinks: Vec<(String, Sink)>,
    runs: u64,
    steps: u64,
    flagged: u64,
    flagged_out: u64,
    leaks: bool,
    resizes: u64,
    waits: u64,
    stale: u64,
    start: Instant,
    cur: std::fs::File,
}

fn orders(n: usize) -> Vec<Vec<u8>> {
    match n {
        1 => vec![vec![0]],
        2 => vec![vec![0, 1], vec![1, 0]],
        3 => vec![
            vec![0, 1, 2],
            vec![1, 0, 2],
            vec![2, 0, 1],
            vec![0, 2, 1],
            vec![1, 2, 0],
            vec![2, 1, 0],
        ],
        _ => vec![(0..n as u8).collect(), (0..n as u8).rev().collect()],
    }
}

impl Ex {
    pub fn new(a: Args) -> Ex {
        std::fs::create_dir_all(&a.out).unwrap();
        let sinks = a
            .emit
            .iter()
            .map(|k| {
                let f = std::fs::File::create(format!("{}/{}.{}.ndjson", a.out, k, a.shard)).unwrap();
                (
                    k.clone(),
                    Sink {
                        seen: HashSet::new(),
                        file: std::io::BufWriter::new(f),
                        written: 0,
                        total: 0,
                        suspects: 0,
                    },
                )
            })
            .collect();
        let cur = std::fs::File::create(format!("{}/current.{}", a.out, a.shard)).unwrap();
        Ex {
            a,
            sinks,
            runs: 0,
            steps: 0,
            flagged: 0,
            flagged_out: 0,
            leaks: true,
            resizes: 0,
            waits: 0,
            stale: 0,
            start: Instant::now(),
            cur,
        }
    }

    fn out_of_time(&self) -> bool {
        self.start.elapsed().as_secs_f64() > self.a.time
    }

    /// Runs one schedule and collects its traces. Returns the number of steps.
    fn one(&mut self, p: &Program, idx: u64, s: &Schedule) -> u32 {
        // Remember the run in case it crashes.
        {
            use std::os::unix::fs::FileExt;
            let j = serde_json::to_string(&json!({"p": idx, "s": s})).unwrap();
            let line = format!("{j:<400}\n");
            let _ = self.cur.write_at(line.as_bytes(), 0);
        }
        let has = |k: &str| self.a.emit.iter().any(|e| e == k);
        let gg = g();
        gg.rec_objs = has("reclaim");
        gg.rec_hb = has("hb");
        let mut info = exec::run(p, s, Final::Full);
        if info.as_ref().is_some_and(|i| i.balance != 0) {
            // The first use of a thread-local allocates memory that lives as long as the thread.
            info = exec::run(p, s, Final::Full);
        }
        let gg = g();
        self.runs += 1;
        self.steps += gg.total as u64;
        self.stale += gg.weak_stale as u64;
        let allocs = gg.log.iter().filter(|e| e.e == E::RAlloc).count();
        if allocs > 1 {
            self.resizes += 1;
        }
        if gg.log.iter().any(|e| e.e == E::Wait) {
            self.waits += 1;
        }
        let stuck = info.is_none();
        let bad = gg.hb_bad > 0 || gg.reclaim_bad > 0 || stuck;
        if bad {
            self.flagged += 1;
        }
        if stuck {
            let why = gg.stuck.clone().unwrap();
            let ev: Vec<String> = gg.log.iter().rev().take(40).map(|e| format!("{e:?}")).collect();
            let f = format!("{}/stuck.{}", self.a.out, self.a.shard);
            std::fs::write(f, json!({"p": idx, "s": s, "why": why, "log": ev}).to_string()).unwrap();
        }
        for i in 0..self.sinks.len() {
            match self.sinks[i].0.as_str() {
                "key" => {
                    if stuck {
                        continue;
                    }
                    for k in p.keys() {
                        if let Some(t) = proj::key_trace(&g().log, k) {
                            self.emit(i, idx, s, Some(k), t, false);
                        }
                    }
                }
                "len" if !stuck => {
                    let t = proj::len_trace(&g().log);
                    self.emit(i, idx, s, None, t, false);
                }
                "reclaim" if !stuck => {
                    let balance = p.balanced();
                    let t = proj::reclaim_trace(&g().log, balance);
                    let force = g().reclaim_bad > 0 && self.flagged_out < 20;
                    self.flagged_out += force as u64;
                    self.leaks = balance;
                    self.emit(i, idx, s, None, t, force);
                }
                "progress" => {
                    let t = proj::progress_trace(&g().log);
                    self.emit(i, idx, s, None, t, stuck);
                }
                "hb" if !stuck => {
                    let force = g().hb_bad > 0;
                    if force && self.flagged_out >= 10 {
                        continue;
                    }
                    // Record the synchronization operations of a part of the runs.
                    if force || (self.sinks[i].1.written < self.a.cap && self.runs % 16 == 1) {
                        self.flagged_out += force as u64;
                        g().rec_raw = true;
                        exec::run(p, s, Final::None);
                        g().rec_raw = false;
                        let t = proj::hb_trace(&g().raw);
                        self.emit(i, idx, s, None, t, force);
                    }
                }
                _ => {}
            }
        }
        if stuck {
            // The threads hold on to their stacks: a new process has to continue.
            self.finish();
            std::process::exit(3);
        }
        info.unwrap().steps
    }

    fn emit(&mut self, i: usize, idx: u64, s: &Schedule, k: Option<u32>, t: Trace, force: bool) {
        // A share of the traces of the whole time.
        let part = (self.start.elapsed().as_secs_f64() / self.a.time).min(1.0);
        let cap = ((self.a.cap as f64 * part) as usize + 50).min(self.a.cap);
        let leaks = self.leaks;
        let (name, sink) = &mut self.sinks[i];
        sink.total += 1;
        let h = proj::hash_trace(&t);
        if !sink.seen.insert(h) {
            return;
        }
        let suspect = sink.suspects < 40
            && match name.as_str() {
                "key" => screen::key(&t),
                "len" => screen::len(&t),
                "progress" => screen::progress(&t),
                "reclaim" => screen::reclaim(&t, leaks),
                _ => false,
            };
        sink.suspects += suspect as usize;
        let force = force || suspect;
        if sink.written >= cap && !force {
            return;
        }
        sink.written += 1;
        let j = json!({"p": idx, "s": s, "k": k, "h": h, "f": force, "t": t});
        writeln!(sink.file, "{j}").unwrap();
    }

    pub fn finish(&mut self) {
        let mut sinks = serde_json::Map::new();
        for (k, s) in &mut self.sinks {
            s.file.flush().unwrap();
            sinks.insert(k.clone(), json!({"distinct": s.seen.len(), "written": s.written, "total": s.total,
                "screened": s.suspects}));
        }
        let st = json!({
            "runs": self.runs, "steps": self.steps, "flagged": self.flagged, "resizes": self.resizes,
            "waits": self.waits, "stale": self.stale, "sinks": sinks, "wall": self.start.elapsed().as_secs_f64(),
        });
        std::fs::write(format!("{}/stats.{}", self.a.out, self.a.shard), st.to_string()).unwrap();
    }

    pub fn go(&mut self) {
        let mut idx = self.a.first + self.a.shard;
        while !self.out_of_time() {
            let i = self.a.only.unwrap_or(idx);
            self.program(i);
            if self.a.only.is_some() {
                break;
            }
            idx += self.a.shards;
        }
        self.finish();
    }

    fn program(&mut self, idx: u64) {
        let p = match &self.a.file {
            Some(p) => p.clone(),
            None => gen::program(&self.a.profile, self.a.seed, idx),
        };
        let n = p.threads.len();
        let mut rng = self.a.seed ^ idx.wrapping_mul(0xA24BAED4963EE407);
        let max = self.a.runs;
        let mut left = max as i64;
        if self.a.weak {
            for _ in 0..max {
                let s = Schedule {
                    order: (0..n as u8).collect(),
                    rnd: Some((splitmix(&mut rng), [8, 40, 120, 400][(splitmix(&mut rng) % 4) as usize])),
                    weak: Some((splitmix(&mut rng), [200, 500, 900][(splitmix(&mut rng) % 3) as usize])),
                    ..Default::default()
                };
                self.one(&p, idx, &s);
                if self.out_of_time() {
                    return;
                }
            }
            return;
        }
        let mut singles: Vec<Schedule> = vec![];
        let mut total_steps = 0;
        // The steps of each thread alone, and those that change shared memory.
        let mut steps_of = vec![0u32; n];
        let mut writes_of: Vec<Vec<u32>> = vec![vec![]; n];
        for order in orders(n) {
            let base = Schedule {
                order,
                ..Default::default()
            };
            g().rec_trace = true;
            let steps = self.one(&p, idx, &base);
            g().rec_trace = false;
            total_steps = total_steps.max(steps);
            left -= 1;
            if self.out_of_time() {
                return;
            }
            // Steps that touch a location that another thread touches too.
            let tr = &g().trace;
            let mut loc: std::collections::HashMap<usize, (u8, u8)> = Default::default();
            for s in tr {
                let e = loc.entry(s.loc).or_insert((0, 0));
                e.0 |= 1 << s.t;
                if s.write {
                    e.1 |= 1 << s.t;
                }
            }
            let mut count = vec![0u32; n];
            for s in tr {
                let t = s.t as usize;
                if s.write && writes_of[t].len() < 400 {
                    writes_of[t].push(count[t]);
                }
                count[t] += 1;
                steps_of[t] = steps_of[t].max(count[t]);
            }
            for (i, s) in tr.iter().enumerate() {
                let e = loc[&s.loc];
                let me = 1u8 << s.t;
                let conflict = if s.write { e.0 & !me } else { e.1 & !me };
                if conflict != 0 {
                    for u in 0..n as u8 {
                        if u != s.t {
                            singles.push(Schedule {
                                order: base.order.clone(),
                                pre: vec![(i as u32, u)],
                                ..Default::default()
                            });
                        }
                    }
                }
            }
        }
        // Single preemptions, all of them if there are not too many.
        let third = (max / 3).max(1) as usize;
        while singles.len() > third {
            let i = splitmix(&mut rng) as usize % singles.len();
            singles.swap_remove(i);
        }
        for s in &singles {
            self.one(&p, idx, s);
            left -= 1;
            if self.out_of_time() {
                return;
            }
        }
        // Spurious failures of weak compare-exchange operations.
        for sp in 1..4 {
            let mut s = Schedule {
                order: orders(n)[0].clone(),
                spurious: sp,
                ..Default::default()
            };
            if sp > 1 && !singles.is_empty() {
                s.pre = singles[splitmix(&mut rng) as usize % singles.len()].pre.clone();
            }
            self.one(&p, idx, &s);
            left -= 1;
        }
        // Two preemptions and random schedules.
        let ords = orders(n);
        while left > 0 {
            left -= 1;
            let mut s = Schedule {
                order: ords[splitmix(&mut rng) as usize % ords.len()].clone(),
                ..Default::default()
            };
            if n >= 3 && splitmix(&mut rng) % 4 == 0 {
                // Suspend one thread, let another one run, start a third one, and let the first
                // one finish in the middle of it.
                let mut o: Vec<u8> = (0..n as u8).collect();
                for i in (1..n).rev() {
                    o.swap(i, (splitmix(&mut rng) % (i as u64 + 1)) as usize);
                }
                let (z, t, y) = (o[0], o[1], o[2]);
                let mut at = |t: u8| {
                    let w = &writes_of[t as usize];
                    if splitmix(&mut rng) % 2 == 0 && !w.is_empty() {
                        w[splitmix(&mut rng) as usize % w.len()] + (splitmix(&mut rng) % 2) as u32
                    } else {
                        (splitmix(&mut rng) % (steps_of[t as usize] as u64 + 2)) as u32
                    }
                };
                s.own = vec![(z, at(z), t), (y, at(y), z)];
                s.order = vec![y, t, z];
                s.order.extend(&o[3..]);
                s.pre = vec![(0, z)];
            } else if splitmix(&mut rng) % 3 != 0 {
                let k = 2 + splitmix(&mut rng) % 3;
                for _ in 0..k {
                    let at = if !singles.is_empty() && splitmix(&mut rng) % 2 == 0 {
                        singles[splitmix(&mut rng) as usize % singles.len()].pre[0].0
                    } else {
                        (splitmix(&mut rng) % (total_steps as u64 + 8)) as u32
                    };
                    s.pre.push((at, (splitmix(&mut rng) % n as u64) as u8));
                }
                s.pre.sort();
            } else {
                s.rnd = Some((
                    splitmix(&mut rng),
                    [15, 60, 200, 512][(splitmix(&mut rng) % 4) as usize],
                ));
                if splitmix(&mut rng) % 2 == 0 {
                    s.wr = true;
                    s.rnd.as_mut().unwrap().1 = [100, 200, 400, 700][(splitmix(&mut rng) % 4) as usize];
                }
            }
            if splitmix(&mut rng) % 16 == 0 {
                s.spurious = 1 + (splitmix(&mut rng) % 6) as u32;
            }
            self.one(&p, idx, &s);
            if self.out_of_time() {
                return;
            }
        }
    }
}
