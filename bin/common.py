"""Shared machinery of the checks: building the harness, exploring, judging with TLC, evidence."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PAPAYA_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
OUT = os.path.join(VERIF, "out")
REPLAYS = os.path.join(VERIF, "replays")
TLC_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
HARNESS = os.path.join(TARGET, "release", "harness")
# Without debug assertions, as users build the crate. The explorations keep them: they also shorten the spinning.
PLAIN = os.path.join(TARGET, "plain", "harness")
# Many types of keys and values.
TYPES = os.path.join(TARGET, "plain", "types")


class ToolError(Exception):
    pass


def ncpu():
    return min(8, os.cpu_count() or 1)


def build_env():
    env = dict(os.environ)
    env["RUSTUP_TOOLCHAIN"] = "1.90.0"
    env["CARGO_NET_OFFLINE"] = "true"
    env["RUSTFLAGS"] = "--cfg papaya_verif --cap-lints allow"
    env["CARGO_TARGET_DIR"] = TARGET
    env.pop("CARGO_BUILD_TARGET", None)
    return env


def build(profiles=("release", "plain", "types")):
    """Builds the harness from the working tree of the repository, with the hooks on."""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(VERIF, "target", ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        for profile in profiles:
            r = subprocess.run(
                ["cargo", "build", "--profile", "plain" if profile == "types" else profile, "--offline", "--quiet"],
                cwd=os.path.join(VERIF, "types" if profile == "types" else "harness"), env=build_env(),
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                sys.stdout.write(r.stdout[-4000:])
                raise ToolError("the harness does not build")


def tlc(module, cfg, traces=None, extra=(), env=None, timeout=600, workers=None, heap="6g", deadlock_ok=True):
    """Runs TLC. Returns a dictionary with the outcome."""
    meta = tempfile.mkdtemp(prefix="tlc.", dir=OUT)
    e = dict(os.environ)
    if traces:
        e["TRACES"] = traces
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + meta,
           "-cp", TLC_CP, "tlc2.TLC", "-workers", str(workers or ncpu()), "-metadir", meta,
           "-noGenerateSpecTE", "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b"").decode() if isinstance(x.stdout, bytes) else (x.stdout or ""), 124
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    res = {"rc": rc, "out": out, "wall": time.time() - t0, "states": 0, "distinct": 0, "violated": None}
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
    if m:
        res["states"] = int(m[-1][0].replace(",", ""))
        res["distinct"] = int(m[-1][1].replace(",", ""))
    m = re.search(r"(?:Invariant|Action property|Temporal property) (\S+) (?:is|was) violated", out)
    if m:
        res["violated"] = m.group(1)
    elif "Temporal properties were violated" in out:
        res["violated"] = "temporal"
    elif "Deadlock reached" in out:
        res["violated"] = "deadlock"
    elif rc != 0:
        if rc == 124:
            raise ToolError("TLC timed out on " + module)
        sys.stdout.write(out[-3000:])
        raise ToolError("TLC failed on %s (exit %d)" % (module, rc))
    return res


def fresh(name):
    d = os.path.join(OUT, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def load(path):
    rows = []
    for f in sorted(glob.glob(path)):
        with open(f) as fh:
            for line in fh:
                try:
                    rows.append(json.loads(line))
                except ValueError:
                    pass
    return rows


def panicked(path):
    """What the code under test said when it panicked where it may not. The sources of the harness have relative paths."""
    with open(path, errors="replace") as f:
        text = f.read()
    m = re.search(r"panicked at (/\S+?):?\n(.*)", text)
    if not m:
        raise ToolError("the harness failed: " + text[-2000:])
    return "panic at %s: %s" % (m.group(1), m.group(2))


class Explore:
    """Explores the schedules of the programs of a profile on all processors."""

    def __init__(self, d, profile, emit, seconds, seed, cap=3000, runs=400, weak=False, first=0):
        self.d = os.path.join(d, profile + ("-weak" if weak else ""))
        os.makedirs(self.d, exist_ok=True)
        self.profile, self.seed = profile, seed
        n = ncpu()
        procs = []
        for i in range(n):
            cmd = [HARNESS, "explore", "--profile", profile, "--seed", str(seed), "--shard", "%d/%d" % (i, n),
                   "--time", str(seconds), "--out", self.d, "--emit", ",".join(emit), "--cap", str(cap),
                   "--runs", str(runs), "--weak", "1" if weak else "0", "--first", str(first)]
            err = open(os.path.join(self.d, "stderr.%d" % i), "w")
            procs.append(subprocess.Popen(
                ["taskset", "-c", str(sorted(os.sched_getaffinity(0))[i])] + cmd, stdout=err, stderr=err))
        self.abnormal = []
        deadline = time.time() + seconds * 2 + 60
        for i, p in enumerate(procs):
            try:
                rc = p.wait(timeout=max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = "hang"
            if rc == 0:
                continue
            if rc == -9:
                raise ToolError("a process of the harness was killed")
            cur = self.current(i)
            why = {3: "stuck", "hang": "hang"}.get(rc, "crash (%s)" % rc)
            if rc == 3:
                try:
                    s = json.load(open(os.path.join(self.d, "stuck.%d" % i)))
                    cur = {"p": s["p"], "s": s["s"]}
                    why = s["why"]
                except (OSError, ValueError):
                    pass
            elif rc == 101 or rc == 2:
                why = panicked(os.path.join(self.d, "stderr.%d" % i))
            self.abnormal.append({"why": why, "p": cur["p"], "s": cur["s"]})
        self.stats = {}
        for f in glob.glob(os.path.join(self.d, "stats.*")):
            for k, v in json.load(open(f)).items():
                if k == "sinks":
                    for n, s in v.items():
                        for kk, vv in s.items():
                            self.stats["%s_%s" % (n, kk)] = self.stats.get("%s_%s" % (n, kk), 0) + vv
                elif k != "wall":
                    self.stats[k] = self.stats.get(k, 0) + v

    def current(self, i):
        try:
            return json.loads(open(os.path.join(self.d, "current.%d" % i)).readline())
        except (OSError, ValueError):
            return {"p": 0, "s": {}}

    def traces(self, emit):
        rows = load(os.path.join(self.d, emit + ".*.ndjson"))
        for r in rows:
            r["profile"], r["seed"] = self.profile, self.seed
        return rows


def dedup(rows):
    seen, out = set(), []
    for r in rows:
        if r["h"] not in seen:
            seen.add(r["h"])
            out.append(r)
    return out


def write_traces(path, rows):
    with open(path, "w") as f:
        for r in rows:
            f.write(json.dumps(r["t"], separators=(",", ":")) + "\n")


def judge(d, name, module, cfg, rows, timeout=600):
    """Validates traces against a specification. Returns (tlc result, the trace violated or None)."""
    path = os.path.join(d, name + ".traces")
    write_traces(path, rows)
    r = tlc(module, cfg, traces=path, timeout=timeout)
    bad = None
    if r["violated"]:
        m = re.findall(r"/\\ tr = (\d+)", r["out"])
        p = re.findall(r"/\\ pos = (\d+)", r["out"])
        bad = dict(rows[int(m[-1]) - 1])
        bad["at"] = int(p[-1])
    elif r["distinct"] < len(rows):
        raise ToolError("TLC did not read all traces")
    return r, bad


def program(profile, seed, idx):
    out = subprocess.run([HARNESS, "program", "--profile", profile, "--seed", str(seed), "--idx", str(idx)],
                         stdout=subprocess.PIPE, text=True, check=True).stdout
    return json.loads(out)


def save_replay(prop, kind, data):
    os.makedirs(REPLAYS, exist_ok=True)
    text = json.dumps(data, indent=1)
    path = os.path.join(REPLAYS, "%s-%s-%s.json" % (prop, kind, hashlib.sha1(text.encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        f.write(text)
    return path
