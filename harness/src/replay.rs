//! Replays one schedule of one program and writes its traces.

use crate::exec::{self, Final};
use crate::prog::Program;
use crate::proj;
use crate::sched::{g, Schedule};
use serde_json::json;

pub fn replay(p: &Program, s: &Schedule, verbose: bool) -> i32 {
    let gg = g();
    gg.rec_objs = true;
    gg.rec_hb = true;
    let mut info = exec::run(p, s, Final::Full);
    if info.as_ref().is_some_and(|i| i.balance != 0) {
        info = exec::run(p, s, Final::Full);
    }
    let log = &g().log;
    if verbose {
        for e in log {
            eprintln!("{e:?}");
        }
    }
    let mut t = vec![];
    if info.is_some() {
        for k in p.keys() {
            if let Some(x) = proj::key_trace(log, k) {
                t.push(json!({"emit": "key", "k": k, "t": x}));
            }
        }
        t.push(json!({"emit": "len", "t": proj::len_trace(log)}));
        let balance = p.balanced();
        t.push(json!({"emit": "reclaim", "t": proj::reclaim_trace(log, balance)}));
    }
    t.push(json!({"emit": "progress", "t": proj::progress_trace(log)}));
    let stuck = info.is_none();
    if !stuck {
        g().rec_raw = true;
        exec::run(p, s, Final::None);
        t.push(json!({"emit": "hb", "t": proj::hb_trace(&g().raw)}));
    }
    println!("{}", json!({"stuck": stuck, "traces": t}));
    if stuck {
        3
    } else {
        0
    }
}
