#!/usr/bin/env python3
"""Driver: builds a property's monitor against /repo's working tree, runs its
stages, confirms crashes by replay and writes the evidence file.

  check.py <property> [--thorough] [--secs-scale X] [--keep-going]
  check.py --replay <replay file>
"""
import concurrent.futures, json, os, re, resource, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HERE, "target")
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS  # noqa: E402

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
JOBS = 8
ENV = dict(os.environ)
ENV["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + ENV.get("PATH", "/usr/bin:/bin")
ENV["CARGO_NET_OFFLINE"] = "true"
for k in ("RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "MIRIFLAGS"):
    ENV.pop(k, None)
TRIPLE = "x86_64-unknown-linux-gnu"


class Trouble(Exception):
    """The check could not give an answer."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def mode_env(mode, extra=None):
    e = dict(ENV)
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, mode)
    if mode == "asan":
        e["RUSTFLAGS"] = "-Zsanitizer=address --cfg vh_san"
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0"
    if mode == "tsan":
        e["RUSTFLAGS"] = "-Zsanitizer=thread --cfg vh_san"
        e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66"
    if mode.startswith("miri"):
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"
        e["MIRI_BACKTRACE"] = "1"
    if extra:
        e.update(extra)
    return e


def foreign(mode):
    """The machine which an interpreted stage pretends to be."""
    t = {"miri-s390x": "s390x-unknown-linux-gnu", "miri-i686": "i686-unknown-linux-gnu"}.get(mode)
    return ["--target", t] if t else []


def build_cmd(mode, feature, binname):
    base = ["--features", feature, "--bin", binname]
    if mode == "dbg":
        return ["cargo", "build", "-q", "--profile", "chk"] + base
    if mode == "rel":
        return ["cargo", "build", "-q", "--profile", "rel"] + base
    if mode == "asan":
        return ["cargo", "+nightly", "build", "-q", "--profile", "chk", "--target", TRIPLE] + base
    if mode == "tsan":
        return ["cargo", "+nightly", "build", "-q", "--profile", "chk", "--target", TRIPLE, "-Zbuild-std"] + base
    if mode.startswith("miri"):
        base = foreign(mode) + base
        # Building is part of running; run with nothing selected so that it happens once.
        return ["cargo", "+nightly", "miri", "run", "-q"] + base + ["--", "--only", "\u0001none", "--iters", "0"]
    raise AssertionError(mode)


def exe(mode, feature, binname):
    t = os.path.join(TARGET, mode)
    if mode == "dbg":
        return [os.path.join(t, "chk", binname)]
    if mode == "rel":
        return [os.path.join(t, "rel", binname)]
    if mode in ("asan", "tsan"):
        return [os.path.join(t, TRIPLE, "chk", binname)]
    return ["cargo", "+nightly", "miri", "run", "-q"] + foreign(mode) + ["--features", feature, "--bin", binname, "--"]


def build(mode, feature, binname):
    t0 = time.time()
    e = mode_env(mode)
    e.pop("ASAN_OPTIONS", None)
    r = subprocess.run(build_cmd(mode, feature, binname), cwd=HARNESS, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        raise Trouble(f"building {binname} ({mode}) failed:\n{r.stdout[-6000:]}")
    log(f"[{binname}] built {mode} in {time.time()-t0:.1f}s")


def limits(cpu=None, mem=None):
    def f():
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def describe(rc, err, outp=""):
    txt = err + outp
    m = re.search(r"ERROR: AddressSanitizer[^\n]*", txt)
    if m:
        frames = re.findall(r"^\s*#\d+ .*$", txt, re.M)
        mine = [f.strip() for f in frames if "/repo/" in f][:3]
        return m.group(0) + " | " + " | ".join(mine)
    m = re.search(r"WARNING: ThreadSanitizer[^\n]*", txt)
    if m:
        return m.group(0)
    m = re.search(r"error: (Undefined Behavior|memory leaked|abnormal termination|.*overflow.*stack|deadlock|the main thread)[^\n]*", txt)
    if m:
        locs = re.findall(r"(?:-->|at) (\S*(?:/repo|crates)/\S+:\d+)", txt)[:3]
        return m.group(0) + " | " + " | ".join(locs)
    m = re.search(r"(?:ALLOCATION-LIMIT|LAYOUT-MISMATCH)[^\n]*", txt)
    if m:
        return m.group(0)
    if "has overflowed its stack" in txt:
        return "stack overflow"
    if rc is not None and rc < 0:
        return f"killed by signal {signal.Signals(-rc).name}: " + err.strip()[-300:]
    return f"exit status {rc}: " + err.strip()[-300:]


UB_SIGNS = ("AddressSanitizer", "ThreadSanitizer", "Undefined Behavior", "ALLOCATION-LIMIT", "has overflowed its stack",
            "unsafe precondition", "panic in a destructor", "panic in a function that cannot unwind")


def replay(mode, feature, binname, case, extra, cpu, thorough):
    """Re-run one case on its own. Returns None if it is fine, else a description."""
    cmd = exe(mode, feature, binname) + ["--replay", case] + extra + (["--thorough"] if thorough else [])
    mem = None if mode in ("asan", "tsan") or mode.startswith("miri") else 8 << 30
    try:
        r = subprocess.run(cmd, cwd=HARNESS, env=mode_env(mode), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, errors="replace", timeout=max(240, cpu * 4), preexec_fn=limits(cpu, mem))
    except subprocess.TimeoutExpired:
        return None
    if r.returncode == 0:
        return None
    m = re.search(r"REPLAY violation: (.*)", r.stdout, re.S)
    if m:
        return m.group(1).strip()
    if r.returncode in (-signal.SIGXCPU, -signal.SIGKILL):
        return f"does not finish within {cpu} s of CPU time"
    return describe(r.returncode, r.stderr, r.stdout)


class Run:
    def __init__(self, prop, thorough, scale):
        self.prop, self.thorough, self.scale = prop, thorough, scale
        self.spec = CHECKS[prop]
        self.parts, self.violations, self.known = [], [], {}
        self.work = os.path.join(HERE, "tmp", f"{prop}-{os.getpid()}")
        os.makedirs(self.work, exist_ok=True)

    def stage(self, st):
        mode, feature, binname = st["mode"], st.get("feature", self.spec["feature"]), st.get("bin", self.spec["bin"])
        build(mode, feature, binname)
        if mode.startswith("miri"):
            return self.miri(st, feature, binname)
        secs = st["secs"] * self.scale
        extra = ["--case-cpu", str(st.get("case_cpu", 30))]
        if "alloc_limit" in st:
            extra += ["--alloc-limit", str(st["alloc_limit"])]
        if "only" in st:
            extra += ["--only", st["only"]]
        for attempt in range(3):
            slots = os.path.join(self.work, f"slots-{mode}-{binname}-{attempt}")
            os.makedirs(slots, exist_ok=True)
            out = os.path.join(self.work, f"part-{mode}-{binname}-{attempt}.json")
            cmd = exe(mode, feature, binname) + ["--seed", str(SEED + 1000 * attempt), "--secs", str(secs), "--threads",
                  str(st.get("threads", JOBS)), "--out", out, "--slots", slots] + extra
            if self.thorough:
                cmd.append("--thorough")
            try:
                r = subprocess.run(cmd, cwd=HARNESS, env=mode_env(mode), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   text=True, errors="replace", timeout=secs + 400, preexec_fn=limits())
            except subprocess.TimeoutExpired:
                raise Trouble(f"stage {mode} did not finish")
            if r.returncode in (0, 1) and os.path.exists(out):
                self.take(out, st, feature, binname)
                return
            # A crash, a sanitizer report or a suspected hang: find the case.
            what = "suspected hang" if r.returncode == 124 else describe(r.returncode, r.stderr, r.stdout)
            log(f"[{binname}/{mode}] stage ended with: {what}")
            cases = []
            for s in sorted(os.listdir(slots)):
                c = open(os.path.join(slots, s), errors="replace").read().split("\n")[0].strip()
                if c:
                    cases.append(c)
            rx = extra[:]
            if "--only" in rx:
                i = rx.index("--only")
                del rx[i:i + 2]
            with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
                res = list(ex.map(lambda c: replay(mode, feature, binname, c, rx, st.get("case_cpu", 30) + 10, self.thorough), cases))
            hit = False
            for c, d in zip(cases, res):
                if d is not None:
                    hit = True
                    self.violation(mode, feature, binname, c, d)
            if hit:
                return
            if r.returncode != 124 and any(s in r.stderr + r.stdout for s in UB_SIGNS):
                self.violation(mode, feature, binname, cases[0] if cases else "?", what + " (not reproduced by replaying a single case)", r.stderr)
                return
            log(f"[{binname}/{mode}] not reproduced; retrying the stage")
        raise Trouble(f"stage {mode} of {binname} kept ending abnormally without a reproducible case: {what}")

    def miri(self, st, feature, binname):
        procs = st.get("procs", JOBS)
        secs = st["secs"] * self.scale

        def one(i):
            out = os.path.join(self.work, f"part-miri-{i}.json")
            cmd = exe(st["mode"], feature, binname) + ["--seed", str(SEED * 100 + i), "--secs", str(secs), "--threads", str(st.get("threads", 1)), "--out", out,
                  "--shard", f"{i}/{procs}", "--case-cpu", "600"]
            if "only" in st:
                cmd += ["--only", st["only"]]
            if self.thorough:
                cmd.append("--thorough")
            e = mode_env(st["mode"], {"MIRIFLAGS": mode_env("miri")["MIRIFLAGS"] + f" -Zmiri-seed={SEED*100+i} " + st.get("miriflags", "")})
            try:
                r = subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                   errors="replace", timeout=secs * 2 + 500)
            except subprocess.TimeoutExpired:
                return i, None, "", out
            return i, r.returncode, r.stderr, out

        with concurrent.futures.ThreadPoolExecutor(procs) as ex:
            rs = list(ex.map(one, range(procs)))
        for i, rc, err, out in rs:
            if rc in (0, 1) and os.path.exists(out):
                self.take(out, st, feature, binname)
            elif rc is None:
                raise Trouble("a Miri process did not finish")
            else:
                cs = re.findall(r"^CASE (.*)$", err, re.M)
                if re.search(r"error: (Undefined Behavior|memory leaked|deadlock)|unsafe precondition|ALLOCATION-LIMIT|cannot unwind|abnormal termination", err):
                    e2 = re.split(r"^CASE .*$", err, flags=re.M)[-1]
                    self.violation(st["mode"], feature, binname, cs[-1] if cs else "?", describe(rc, e2), e2)
                else:
                    raise Trouble(f"Miri process ended abnormally ({rc}): {err[-3000:]}")

    def take(self, out, st, feature, binname):
        p = json.load(open(out))
        p["mode"] = st["mode"]
        self.parts.append(p)
        for k, n in p.get("known", {}).items():
            self.known[k] = self.known.get(k, 0) + n
        for v in p["violations"]:
            self.violation(st["mode"], feature, binname, v["case"], v["message"])

    def violation(self, mode, feature, binname, case, msg, detail=""):
        if any(v["case"] == case for v in self.violations):
            return
        self.violations.append(dict(mode=mode, feature=feature, bin=binname, case=case, message=msg, detail=detail[-8000:]))


def known_ids(prop):
    ids = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                ids[m.group(2)] = m.group(3).strip()
    return ids


def run(prop, thorough, scale):
    t0 = time.time()
    spec = CHECKS[prop]
    R = Run(prop, thorough, scale)
    try:
        for st in spec["thorough" if thorough else "quick"]:
            R.stage(st)
            if R.violations:
                break
    finally:
        shutil.rmtree(R.work, ignore_errors=True)
    listed = known_ids(prop)
    for k, n in sorted(R.known.items()):
        if k in listed:
            print(f"KNOWN-FINDING: property={prop} {k}: {listed[k]} (met {n} times)")
        else:
            R.violations.append(dict(mode="-", feature=spec["feature"], bin=spec["bin"], case="?", message=f"finding {k} is not listed in known_findings.txt", detail=""))
    evaluations = sum(p["evaluations"] for p in R.parts)
    distinct = sum(p["distinct"] for p in R.parts)
    events, groups = {}, {}
    for p in R.parts:
        for k, v in p["events"].items():
            events[k] = events.get(k, 0) + v
        for k, v in p["groups"].items():
            groups[k] = groups.get(k, 0) + v
    samples = []
    for p in R.parts:
        samples += p["samples"]
    stages = {}
    for p in R.parts:
        s = stages.setdefault(p["mode"], dict(evaluations=0, distinct=0, processes=0, run_ms=0))
        s["evaluations"] += p["evaluations"]
        s["distinct"] += p["distinct"]
        s["processes"] += 1
        s["run_ms"] = max(s["run_ms"], p["ms"])
    idle = [g for g, n in groups.items() if n == 0]
    if not R.violations:
        if evaluations == 0 or distinct < 2:
            raise Trouble("nothing was observed")
        if idle:
            raise Trouble(f"groups never ran: {idle[:10]}")
        for e in spec.get("must_see", []):
            if not events.get(e):
                raise Trouble(f"the workload never reached: {e}")
    ev = dict(property=prop, tier="thorough" if thorough else "quick", seed=SEED, level=spec.get("level", "exploration"),
              coverage=dict(evaluations=evaluations, distinct_nontrivial=min(distinct, evaluations) if evaluations else 0, rule=spec["rule"],
                            samples=samples[:40], monitor_events=dict(sorted(events.items())), cases_per_group=groups,
                            stages=stages, build_modes=[s["mode"] for s in spec["thorough" if thorough else "quick"]]),
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(R.violations))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if not R.violations:
        print(f"OK property={prop} evaluations={evaluations} distinct={distinct} wall={ev['wall_s']}s")
        return 0
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    for i, v in enumerate(R.violations[:10]):
        path = os.path.join("replay", f"{prop}-{i}.txt")
        with open(os.path.join(HERE, path), "w") as f:
            f.write(json.dumps(dict(property=prop, thorough=thorough, **{k: v[k] for k in ("mode", "feature", "bin", "case")})) + "\n")
            f.write(f"{v['case']} [{v['mode']}]\n{v['message']}\n{v['detail']}\n")
            f.write(f"\nreplay with: python3 check.py --replay {path}\n")
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  [{v['mode']}] {v['case']}: {v['message'][:1500]}")
    return 1


def do_replay(path):
    s = json.loads(open(path).readline())
    build(s["mode"], s["feature"], s["bin"])
    d = replay(s["mode"], s["feature"], s["bin"], s["case"], [], 120, s["thorough"])
    print("does not reproduce" if d is None else f"VIOLATION property={s['property']} replay={path}\n  {d}")
    return 0 if d is None else 1


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return do_replay(a[1])
    thorough = "--thorough" in a
    scale = 1.0
    if "--secs-scale" in a:
        scale = float(a[a.index("--secs-scale") + 1])
    try:
        return run(a[0], thorough, scale)
    except Trouble as e:
        print(f"ERROR property={a[0]}: {e}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
