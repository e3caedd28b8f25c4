"""Modes of checks other than the exploration of schedules: sequential histories, table sizes, guards."""
import glob, json, os, subprocess, sys, time
from common import *

ASSUMPTIONS = [
    "seize (the reclamation dependency) and the standard library are correct",
    "the hooks under cfg(papaya_verif) do not change what the code does",
    "TLC evaluates the specifications correctly",
]


def known(prop, key):
    """The listed finding of a property with a key."""
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop and m.group(2) == key:
                return m.group(3).strip()
    return None


def tier_seconds(tier, seconds):
    return seconds if tier == "quick" else seconds * float(os.environ.get("VERIF_SCALE", "12"))


def cpus(i):
    """Two processors, so that the length of a map has more than one shard."""
    a = sorted(os.sched_getaffinity(0))
    return "%d,%d" % (a[i % len(a)], a[(i + 1) % len(a)])


def shards(d, args, seconds, slack=90, binary=PLAIN):
    """Runs the harness on all processors. Returns the runs that did not end as [(shard, why, index)]."""
    os.makedirs(d, exist_ok=True)
    n = ncpu()
    procs = []
    for i in range(n):
        err = open(os.path.join(d, "stderr.%d" % i), "w")
        procs.append(subprocess.Popen(
            ["taskset", "-c", cpus(i), binary] + args +
            ["--shard", "%d/%d" % (i, n), "--out", d], stdout=err, stderr=err))
    bad = []
    deadline = time.time() + seconds * 2 + slack
    for i, p in enumerate(procs):
        try:
            rc = p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "hang"
        if rc == 0:
            continue
        if rc == -9:
            raise ToolError("a process of the harness was killed")
        why = panicked(os.path.join(d, "stderr.%d" % i)) if rc in (101, 2) else None
        try:
            idx = int(open(os.path.join(d, "current.%d" % i)).read().split()[0])
        except (OSError, ValueError, IndexError):
            idx = 0
        bad.append((i, why or {3: "a call did not return", "hang": "a call did not return"}.get(rc, "crash (%s)" % rc), idx))
    return bad


def histories(sub, profile, emit, module, cfg, cap, seconds, argv=(), kind=None):
    """A mode that runs a generator of histories of the harness, and judges them."""
    def mode(prop, d, cov, tier, seed):
        kind_ = kind or profile or sub
        dd = os.path.join(d, kind_)
        t = tier_seconds(tier, seconds)
        c = int(cap * (1 if tier == "quick" else 8))
        args = [sub] + (["--profile", profile] if profile else []) + ["--seed", str(seed), "--time", str(t),
                                                                     "--cap", str(c)] + list(argv)
        bad = shards(dd, args, t)
        spec = {"property": prop, "mode": sub, "profile": profile, "seed": seed, "args": list(argv),
                "spec": module, "cfg": cfg}
        if sub == "seq":
            def prog(i):
                return json.loads(subprocess.run([PLAIN, "seqprogram", "--profile", profile, "--seed", str(seed),
                                                  "--idx", str(i)], stdout=subprocess.PIPE, text=True).stdout)
        else:
            def prog(i):
                return None
        if bad:
            _, why, idx = bad[0]
            return [save_replay(prop, "abnormal", dict(spec, why=why, idx=idx, program=prog(idx)))]
        rows = load(os.path.join(dd, emit + ".*.ndjson"))
        if not rows:
            raise ToolError("no histories of " + kind_)
        steps = sum(json.load(open(f)).get("steps", 0) for f in glob.glob(os.path.join(dd, "stats.*")))
        res, badrow = judge(d, kind_, module, cfg, rows, timeout=600 if tier == "quick" else 3600)
        cov["runs_of_the_real_code"] += len(rows)
        cov["steps_of_the_real_code"] += steps
        cov["states"] += res["distinct"]
        cov["transitions"] += res["states"]
        cov["judged"][cfg + " on " + kind_] = {"traces": len(rows), "states": res["distinct"],
                                               "wall_s": round(res["wall"], 1)}
        cov["traces_validated_against_impl"] += len(rows)
        for r in rows[:: max(1, len(rows) // 2)][:2]:
            cov["samples"].append({"mode": kind_, "index": r["p"], "trace": r["t"][:20]})
        if badrow:
            at = badrow["at"]
            return [save_replay(prop, "trace", dict(
                spec, why="%s of %s is violated at event %d" % (res["violated"], module, at), idx=badrow["p"],
                program=prog(badrow["p"]), event=badrow["t"][at - 1], trace=badrow["t"][:at]))]
        return []
    return mode


def tour(seconds):
    """Runs the histories that SeqGen generates from many physical states of the map."""
    def mode(prop, d, cov, tier, seed):
        dd = os.path.join(d, "tour")
        os.makedirs(dd, exist_ok=True)
        hist = os.path.join(dd, "histories")
        tlc("SeqGen", "SeqGen.cfg" if tier == "quick" else "SeqGenLong.cfg", env={"HISTORIES": hist}, workers=1, timeout=600)
        t = tier_seconds(tier, seconds)
        bad = shards(dd, ["tour", "--file", hist, "--seed", str(seed), "--time", str(t)], t)
        def prog(i):
            return json.loads(subprocess.run([PLAIN, "tour", "--file", hist, "--seed", str(seed), "--show", str(i)],
                                             stdout=subprocess.PIPE, text=True).stdout)
        spec = {"property": prop, "mode": "tour", "seed": seed, "spec": "SeqTrace", "cfg": "SeqTrace.cfg"}
        if bad:
            _, why, idx = bad[0]
            return [save_replay(prop, "abnormal", dict(spec, why=why, idx=idx, program=prog(idx)))]
        rows = sorted(load(os.path.join(dd, "seq.*.ndjson")), key=lambda r: not r["f"])
        if not rows:
            raise ToolError("no histories")
        stats = [json.load(open(f)) for f in glob.glob(os.path.join(dd, "stats.*"))]
        res, badrow = judge(d, "tour", "SeqTrace", "SeqTrace.cfg", rows, timeout=600 if tier == "quick" else 3600)
        cov["runs_of_the_real_code"] += sum(s["runs"] for s in stats)
        cov["steps_of_the_real_code"] += sum(s["steps"] for s in stats)
        cov["states"] += res["distinct"]
        cov["transitions"] += res["states"]
        cov["judged"]["SeqTrace.cfg on tour"] = {"traces": len(rows), "states": res["distinct"],
                                                 "wall_s": round(res["wall"], 1)}
        cov["explored"].append({"histories_generated_by_TLC": sum(1 for _ in open(hist)),
                                "physical_states_per_history": min(s["rounds"] for s in stats)})
        cov["traces_validated_against_impl"] += len(rows)
        if badrow:
            at = badrow["at"]
            return [save_replay(prop, "trace", dict(
                spec, why="%s of SeqTrace is violated at event %d" % (res["violated"], at), idx=badrow["p"],
                program=prog(badrow["p"]), event=badrow["t"][at - 1], trace=badrow["t"][:at]))]
        return []
    return mode


def native(seconds, threads=0):
    """Real threads on large maps, judged per key."""
    return histories("native", "", "key", "KeyTrace", "KeyTrace.cfg", 700, seconds, ["--threads", str(threads)],
                     kind="native" if threads != 1 else "native-one")


def types(seconds, emit="seq"):
    """Histories of one thread on maps of many types, on an allocator that gives no more than it is asked for."""
    def mode(prop, d, cov, tier, seed):
        dd = os.path.join(d, "types")
        t = tier_seconds(tier, seconds)
        cap = 130 if tier == "quick" else 2000
        bad = shards(dd, ["--seed", str(seed), "--time", str(t), "--cap", str(cap)], t, binary=TYPES)
        spec = {"property": prop, "mode": "types", "seed": seed, "spec": "SeqTrace", "cfg": "SeqTrace.cfg"}
        if bad:
            _, why, idx = bad[0]
            return [save_replay(prop, "abnormal", dict(spec, why=why, idx=idx))]
        rows = load(os.path.join(dd, emit + ".*.ndjson"))
        if not rows:
            raise ToolError("no histories")
        res, badrow = judge(d, "types", "SeqTrace", "SeqTrace.cfg", rows, timeout=600 if tier == "quick" else 3600)
        cov["runs_of_the_real_code"] += len(rows)
        cov["steps_of_the_real_code"] += sum(json.load(open(f))["steps"] for f in glob.glob(os.path.join(dd, "stats.*")))
        cov["states"] += res["distinct"]
        cov["transitions"] += res["states"]
        cov["judged"]["SeqTrace.cfg on types"] = {"traces": len(rows), "states": res["distinct"],
                                                  "wall_s": round(res["wall"], 1)}
        cov["traces_validated_against_impl"] += len(rows)
        for r in rows[:: max(1, len(rows) // 2)][:2]:
            cov["samples"].append({"mode": "types", "types": r["types"], "index": r["p"], "trace": r["t"][:20]})
        if badrow:
            at = badrow["at"]
            return [save_replay(prop, "trace", dict(
                spec, why="%s of SeqTrace is violated at event %d" % (res["violated"], at), idx=badrow["p"],
                types=badrow["types"], panic=badrow.get("panic"), event=badrow["t"][at - 1], trace=badrow["t"][:at]))]
        return []
    mode.build = "types"
    return mode


def insert_key_finding(prop, d, cov, tier, seed):
    """HashMap::insert on a present key, against what its documentation says."""
    dd = os.path.join(d, "finding")
    os.makedirs(dd, exist_ok=True)
    prog = {"cfg": {"ctor": 0, "cap": 0, "mode": 0, "chunk": 64, "batch": 1, "hk": 0, "hs": 0, "set": False,
                    "api": 0},
            "ops": []}
    base = json.loads(subprocess.run([PLAIN, "seqprogram", "--profile", "ident", "--seed", "1", "--idx", "0"],
                                     stdout=subprocess.PIPE, text=True, check=True).stdout)
    op = dict(base["ops"][0])
    def o(code, key, v):
        x = dict(op)
        x.update({"o": code, "m": 0, "k": key, "v": v, "d": 0, "th": 0})
        return x
    prog["cfg"] = dict(base["cfg"], set=False, hk=0)
    prog["ops"] = [o(4, 1, 5), o(4, 1, 6), o(2, 1, 0)]
    with open(os.path.join(dd, "program.ndjson"), "w") as f:
        f.write(json.dumps(prog) + "\n")
    r = subprocess.run([PLAIN, "seq", "--profile", "ident", "--file", os.path.join(dd, "program.ndjson"),
                        "--out", dd, "--shard", "0/1"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return [save_replay(prop, "abnormal", {"property": prop, "why": "exit %d" % r.returncode, "program": prog})]
    rows = load(os.path.join(dd, "seq.*.ndjson"))
    res, bad = judge(d, "finding", "SeqTrace", "SeqIdeal.cfg", rows)
    cov["runs_of_the_real_code"] += 1
    cov["traces_validated_against_impl"] += 1
    cov["states"] += res["distinct"]
    cov["transitions"] += res["states"]
    if not bad:
        return []
    text = known(prop, "HashMap::insert")
    if text:
        print("KNOWN-FINDING: property=%s HashMap::insert %s" % (prop, text))
        return []
    return [save_replay(prop, "trace", {"property": prop, "why": "HashMap::insert replaced the stored key",
                                        "program": prog, "trace": bad["t"], "spec": "SeqTrace", "cfg": "SeqIdeal.cfg"})]


def same_hashes(prop, d, cov, tier, seed):
    """Hundreds of keys with the same hash: as fast as it gets, but what it returns does not depend on the hashes."""
    import resource
    dd = os.path.join(d, "same-hashes")
    os.makedirs(dd, exist_ok=True)
    ops = [{"o": 4, "k": i, "v": i + 1, "api": 2} for i in range(160)] + [{"o": 1, "k": i, "api": 2} for i in range(160)]
    prog = {"cfg": {"chunk": None, "cap": 0, "hk": 1, "hs": 0, "batch": 0, "set": False, "ctor": 0, "bchunk": 0}, "ops": ops}
    with open(os.path.join(dd, "program.ndjson"), "w") as f:
        f.write(json.dumps(prog) + "\n")
    limit = lambda: resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    r = subprocess.run([PLAIN, "seq", "--profile", "seq", "--file", os.path.join(dd, "program.ndjson"), "--out", dd,
                        "--shard", "0/1"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, preexec_fn=limit)
    cov["runs_of_the_real_code"] += 1
    spec = {"property": prop, "mode": "seq", "profile": "seq", "seed": seed, "args": [], "spec": "SeqTrace",
            "cfg": "SeqTrace.cfg", "program": prog}
    if r.returncode != 0:
        text = known(prop, "same-hashes")
        if text and "memory allocation of" in r.stdout:
            print("KNOWN-FINDING: property=%s same-hashes %s" % (prop, text))
            return []
        return [save_replay(prop, "abnormal", dict(spec, why="exit %d: %s" % (r.returncode, r.stdout[-500:])))]
    res, bad = judge(d, "same-hashes", "SeqTrace", "SeqTrace.cfg", load(os.path.join(dd, "seq.*.ndjson")))
    cov["states"] += res["distinct"]
    cov["traces_validated_against_impl"] += 1
    if bad:
        return [save_replay(prop, "trace", dict(spec, why="%s of SeqTrace is violated" % res["violated"], trace=bad["t"]))]
    return []


def hash_in_copy(prop, d, cov, tier, seed):
    """Hash of a stored key panics while the entry is copied to a new table."""
    dd = os.path.join(d, "hash-in-copy")
    os.makedirs(dd, exist_ok=True)
    text = known(prop, "hash-in-copy")
    hung, rows = [], []
    for chunk in (None, 1, 4, 64):
        for n in (1, 2, 3):
            ops = [{"o": "Ins", "k": k, "fault": [3, n]} if k < 20 else {"o": "Ins", "k": k} for k in range(6, 24)]
            program = {"name": "hash-in-copy", "threads": [{"api": 0, "hold": False, "ops": ops}], "solo": False,
                       "cfg": {"chunk": chunk, "cap": 6, "batch": 1, "set": False, "shards": 1, "bchunk": 0,
                               "hashes": [(i * 0x9E3779B97F4A7C15) % 2**64 for i in range(64)]},
                       "pre": [{"o": "Ins", "k": k} for k in range(6)]}
            what = {"program": program, "schedule": {"order": [0]}}
            spec = dict(what, property=prop, mode="explore", spec="KeyTrace", cfg="KeyTrace.cfg", emit="key")
            f = os.path.join(dd, "program.json")
            with open(f, "w") as h:
                json.dump(what, h)
            r = subprocess.run([HARNESS, "replay", "--file", f], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=120)
            cov["runs_of_the_real_code"] += 1
            at = r.stdout.find('{"stuck"')
            if at < 0 or r.returncode not in (0, 3):
                return [save_replay(prop, "abnormal", dict(spec, why="exit %d: %s" % (r.returncode, r.stdout[-500:])))]
            if r.returncode == 3:
                hung.append(spec)
            else:
                rows += [{"t": t["t"], "p": dict(spec, key=t["k"])} for t in json.loads(r.stdout[at:])["traces"] if t["emit"] == "key"]
    if hung and not text:
        return [save_replay(prop, "stuck", dict(hung[0], spec="ProgressTrace", cfg="ProgressCompletes.cfg", emit="progress",
                                                why="the calls after one that panicked do not end"))]
    if hung:
        print("KNOWN-FINDING: property=%s hash-in-copy %s" % (prop, text))
    if rows:
        res, bad = judge(d, "hash-in-copy", "KeyTrace", "KeyTrace.cfg", rows)
        cov["states"] += res["distinct"]
        cov["traces_validated_against_impl"] += len(rows)
        if bad:
            return [save_replay(prop, "trace", dict(bad["p"], why="%s of KeyTrace is violated" % res["violated"], trace=bad["t"]))]
    return []


hash_in_copy.build = "release"


def markers(prop, d, cov, tier, seed):
    """The verdicts of the compiler on which values may be sent and shared."""
    dd = os.path.join(d, "markers")
    os.makedirs(dd, exist_ok=True)
    r = subprocess.run([PLAIN, "markers", "--out", dd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("the harness failed: " + r.stdout[-2000:])
    rows = load(os.path.join(dd, "markers.*.ndjson"))
    listed = {}
    for r in rows:
        key = r["what"].replace(" ", "-")
        if key not in listed:
            listed[key] = known(prop, key)
    out = []
    def run(name, cfg, rs):
        res, bad = judge(d, name, "Sharing", cfg, rs)
        cov["runs_of_the_real_code"] += len(rs)
        cov["traces_validated_against_impl"] += len(rs)
        cov["states"] += res["distinct"]
        cov["transitions"] += res["states"]
        cov["judged"][cfg + " on " + name] = {"traces": len(rs), "states": res["distinct"],
                                              "wall_s": round(res["wall"], 1)}
        return bad
    def names(bad):
        c = ["neither Send nor Sync", "Send, not Sync", "Sync, not Send", "Send and Sync"]
        t = bad["t"][0]
        return "%s with keys that are %s, values that are %s and a hasher that is %s%s%s" % (
            bad["what"], c[t[1]], c[t[2]], c[t[3]], " is Send" if t[5] else "", " is Sync" if t[6] else "")
    rest = [r for r in rows if not listed[r["what"].replace(" ", "-")]]
    bad = run("markers", "Sharing.cfg", rest)
    if bad:
        out.append(save_replay(prop, "marker", {"property": prop, "why": "unsound sharing compiles", "what": names(bad),
                                                "row": bad["t"], "spec": "Sharing", "cfg": "Sharing.cfg"}))
    for key, text in listed.items():
        if not text:
            continue
        rs = [r for r in rows if r["what"].replace(" ", "-") == key]
        bad = run(key, "SharingListed.cfg", rs)
        if bad:
            out.append(save_replay(prop, "marker", {
                "property": prop, "why": "unsound sharing compiles", "what": names(bad), "row": bad["t"],
                "spec": "Sharing", "cfg": "SharingListed.cfg"}))
        elif run(key, "Sharing.cfg", rs):
            print("KNOWN-FINDING: property=%s %s %s" % (prop, key, text))
    for r in rows[:: max(1, len(rows) // 3)][:3]:
        cov["samples"].append({"what": r["what"], "verdict": r["t"]})
    return out


CHECKS = {
    "C23": ([], [], 0, [markers]),
    "C15": ([], [], 0, [histories("size", "room", "size", "SizeTrace", "SizeHonoured.cfg", 1500, 12)]),
    "C16": ([], [], 0, [histories("size", "churn", "size", "SizeTrace", "SizeBounded.cfg", 60, 20)]),
    "C17": ([], [], 0, [histories("guard", "", "guard", "GuardTrace", "GuardTrace.cfg", 0, 30)]),
    "C19": ([], [], 0, [histories("seq", "bulk", "seq", "SeqTrace", "SeqTrace.cfg", 500, 12)]),
    "C21": ([("set", 6, 0)], [("key", "KeyTrace", "KeyTrace.cfg")], 1000,
            [insert_key_finding, histories("seq", "ident", "seq", "SeqTrace", "SeqTrace.cfg", 250, 10)]),
    "C22": ([], [], 0, [same_hashes, tour(8), native(6, 1), types(8), histories("seq", "seq", "seq", "SeqTrace", "SeqTrace.cfg", 80, 20),
                        histories("seq", "ident", "seq", "SeqTrace", "SeqTrace.cfg", 100, 6)]),
}
