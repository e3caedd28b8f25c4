mod cpus;
mod exec;
mod explore;
mod gen;
mod guards;
mod markers;
mod native;
mod obj;
mod prog;
mod proj;
mod replay;
mod sched;
mod screen;
mod seq;
mod tour;
mod size;

use std::collections::HashMap;

#[global_allocator]
static ALLOC: obj::QuarantineAlloc = obj::QuarantineAlloc;

/// The last panic of the code under test, and the last one of the harness.
static PANICS: std::sync::Mutex<(String, String)> = std::sync::Mutex::new((String::new(), String::new()));

fn main() {
    if std::panic::catch_unwind(run).is_err() {
        let p = PANICS.lock().unwrap_or_else(|e| e.into_inner());
        eprintln!("{}\n{}", p.1, p.0);
        std::process::exit(101);
    }
}

fn run() {
    let args: Vec<String> = std::env::args().collect();
    let mut opt: HashMap<String, String> = HashMap::new();
    let mut i = 2;
    while i < args.len() {
        let key = args[i].trim_start_matches("--").to_string();
        let val = args.get(i + 1).cloned().unwrap_or_default();
        opt.insert(key, val);
        i += 2;
    }
    let get = |k: &str, d: &str| opt.get(k).cloned().unwrap_or_else(|| d.to_string());
    std::panic::set_hook(Box::new(|info| {
        let msg = info.payload().downcast_ref::<&str>().copied().unwrap_or("");
        if msg == "injected" {
            return;
        }
        if std::env::var("VERBOSE").is_ok() {
            eprintln!("{info}");
        }
        // The sources of the harness have relative paths.
        let code = info.location().is_some_and(|l| l.file().starts_with('/'));
        if let Ok(mut p) = PANICS.lock() {
            *(if code { &mut p.0 } else { &mut p.1 }) = info.to_string();
        }
    }));
    obj::QUARANTINE_ON.store(true, std::sync::atomic::Ordering::Relaxed);
    match args.get(1).map(|s| s.as_str()) {
        Some("explore") => {
            sched::init();
            let shard = get("shard", "0/1");
            let (a, b) = shard.split_once('/').unwrap();
            let mut ex = explore::Ex::new(explore::Args {
                profile: get("profile", "mixed"),
                seed: get("seed", "1").parse().unwrap(),
                shard: a.parse().unwrap(),
                shards: b.parse().unwrap(),
                time: get("time", "5").parse().unwrap(),
                out: get("out", "/tmp/out"),
                emit: get("emit", "key").split(',').map(|s| s.to_string()).collect(),
                cap: get("cap", "2000").parse().unwrap(),
                runs: get("runs", "400").parse().unwrap(),
                weak: get("weak", "0") == "1",
                first: get("first", "0").parse().unwrap(),
                only: opt.get("only").map(|s| s.parse().unwrap()),
                file: opt
                    .get("file")
                    .map(|f| serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap()),
            });
            ex.go();
            std::process::exit(0);
        }
        Some("program") => {
            // Print a generated program.
            sched::init();
            let p = gen::program(
                &get("profile", "mixed"),
                get("seed", "1").parse().unwrap(),
                get("idx", "0").parse().unwrap(),
            );
            println!("{}", serde_json::to_string(&p).unwrap());
            std::process::exit(0);
        }
        Some("replay") => {
            sched::init();
            let text = std::fs::read_to_string(get("file", "")).unwrap();
            let v: serde_json::Value = serde_json::from_str(&text).unwrap();
            let p: prog::Program = serde_json::from_value(v["program"].clone()).unwrap();
            let s: sched::Schedule = serde_json::from_value(v["schedule"].clone()).unwrap();
            std::process::exit(replay::replay(&p, &s, get("verbose", "0") == "1"));
        }
        Some("seq") => {
            let shard = get("shard", "0/1");
            let (a, b) = shard.split_once('/').unwrap();
            seq::go(
                &get("profile", "seq"),
                get("seed", "1").parse().unwrap(),
                a.parse().unwrap(),
                b.parse().unwrap(),
                get("time", "5").parse().unwrap(),
                &get("out", "/tmp/out"),
                get("cap", "100").parse().unwrap(),
                opt.get("file").cloned(),
                opt.get("only").map(|s| s.parse().unwrap()),
            );
            std::process::exit(0);
        }
        Some("tour") => {
            let shard = get("shard", "0/1");
            let (a, b) = shard.split_once('/').unwrap();
            let seed = get("seed", "1").parse().unwrap();
            let file = get("file", "");
            if let Some(idx) = opt.get("show") {
                tour::show(&file, seed, idx.parse().unwrap());
                std::process::exit(0);
            }
            tour::go(
                &file,
                seed,
                a.parse().unwrap(),
                b.parse().unwrap(),
                get("time", "5").parse().unwrap(),
                &get("out", "/tmp/out"),
                get("cap", "100000").parse().unwrap(),
            );
            std::process::exit(0);
        }
        Some("native") => {
            let shard = get("shard", "0/1");
            let (a, b) = shard.split_once('/').unwrap();
            native::go(
                get("threads", "0").parse().unwrap(),
                get("seed", "1").parse().unwrap(),
                a.parse().unwrap(),
                b.parse().unwrap(),
                get("time", "5").parse().unwrap(),
                &get("out", "/tmp/out"),
                get("cap", "2000").parse().unwrap(),
            );
            std::process::exit(0);
        }
        Some("size") => {
            let shard = get("shard", "0/1");
            let (a, b) = shard.split_once('/').unwrap();
            size::go(
                &get("profile", "room"),
                get("seed", "1").parse().unwrap(),
                a.parse().unwrap(),
                b.parse().unwrap(),
                get("time", "5").parse().unwrap(),
                &get("out", "/tmp/out"),
                get("cap", "100").parse().unwrap(),
                get("long", "20000").parse().unwrap(),
                opt.get("only").map(|s| s.parse().unwrap()),
            );
            std::process::exit(0);
        }
        Some("guard") => {
            let shard = get("shard", "0/1");
            let (a, b) = shard.split_once('/').unwrap();
            guards::go(
                a.parse().unwrap(),
                b.parse().unwrap(),
                &get("out", "/tmp/out"),
                opt.get("only").map(|s| s.parse().unwrap()),
            );
            std::process::exit(0);
        }
        Some("markers") => {
            markers::go(&get("out", "/tmp/out"));
            std::process::exit(0);
        }
        Some("seqprogram") => {
            let p = seq::program(
                &get("profile", "seq"),
                get("seed", "1").parse().unwrap(),
                get("idx", "0").parse().unwrap(),
            );
            println!("{}", serde_json::to_string(&p).unwrap());
            std::process::exit(0);
        }
        _ => {
            eprintln!("usage: harness explore|...");
            std::process::exit(2);
        }
    }
}
