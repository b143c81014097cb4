"""Build, job pool, evidence and reporting shared by all checks."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, threading, time, fcntl, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TECS_REPO", "/repo")
BUILD = os.environ.get("TECS_BUILD", os.path.join(VERIF, "build"))
REPLAYS = os.path.join(VERIF, "replays")
MC = os.path.join(VERIF, "mc")
NPROC = min(8, os.cpu_count() or 8)

WRAP = ["sched_yield", "nanosleep", "clock_nanosleep", "pthread_self", "pthread_mutex_lock", "pthread_mutex_trylock",
        "pthread_mutex_unlock", "_ZNSt6chrono3_V212steady_clock3nowEv", "_ZNSt6chrono3_V212system_clock3nowEv",
        "_ZSt21__glibcxx_assert_failPKciS0_S0_", "abort", "__cxa_pure_virtual"]
CXX = "clang++"


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def repo_sources():
    out = []
    for d in ("inc", "src"):
        for root, _, files in os.walk(os.path.join(REPO, d)):
            out += [os.path.join(root, f) for f in files]
    return sorted(out)


def file_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def mc_files():
    return sorted(glob.glob(MC + "/**/*", recursive=True), key=str)


# name -> sources (first = main harness, instrumented), extra flags
def build(name, main, defines=(), std="c++20", oracle=(), header_only=False, opt="-O1", extra=(), incs=()):
    """Build one harness binary from the repository's working tree; returns its path."""
    deps = repo_sources() + [p for p in mc_files() if os.path.isfile(p)]
    defs = ["-D" + d for d in defines]
    key = file_hash(deps, json.dumps([name, main, sorted(defines), std, list(oracle), header_only, opt, list(extra)]))
    out = os.path.join(BUILD, name)
    os.makedirs(out, exist_ok=True)
    exe = os.path.join(out, "run")
    stamp = os.path.join(out, "stamp")
    with open(os.path.join(out, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
            return exe
        base = [f"-std={std}", "-g1", "-fno-pie", "-D_GLIBCXX_ASSERTIONS", "-I" + MC + "/shim", "-I" + REPO + "/inc", "-I" + MC] + \
               ["-I" + i for i in incs] + defs
        inst = base + [opt, "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"] + list(extra)
        jobs = []
        objs = []

        def add(src, flags):
            o = os.path.join(out, os.path.basename(src) + ".o")
            objs.append(o)
            jobs.append([CXX] + flags + ["-c", src, "-o", o])
        add(os.path.join(MC, main), inst)
        for o in oracle:
            add(os.path.join(MC, o), base + ["-O2"] + list(extra))
        if not header_only:
            add(os.path.join(REPO, "src/Tecs.cc"), inst)
        add(os.path.join(MC, "rt.cc"), ["-std=c++20", "-O2", "-g1", "-fno-pie"] + [d for d in defs if d.startswith("-DRT_")])
        with ThreadPoolExecutor(NPROC) as ex:
            rs = list(ex.map(sh, jobs))
        for j, r in zip(jobs, rs):
            if r.returncode:
                raise BuildError(f"build of {name} failed: {' '.join(j)}\n{r.stdout[-6000:]}")
        r = sh([CXX, "-no-pie"] + ["-Wl,--wrap=" + w for w in WRAP] + objs + ["-o", exe])
        if r.returncode:
            raise BuildError(f"link of {name} failed\n{r.stdout[-6000:]}")
        with open(stamp, "w") as f:
            f.write(key)
        return exe


def native(name, main, defines=(), std="c++20", opt="-O1", asan=True, extra=(), link_tecs=True):
    """A sequential enumerator compiled natively against the repository's working tree."""
    deps = repo_sources() + [p for p in mc_files() if os.path.isfile(p)]
    cmd = [CXX, f"-std={std}", "-g1", opt, "-D_GLIBCXX_ASSERTIONS", "-I" + REPO + "/inc", "-I" + MC] + ["-D" + d for d in defines] + list(extra)
    if asan:
        cmd += ["-fsanitize=address", "-fno-omit-frame-pointer"]
    cmd += [os.path.join(MC, main)] + ([os.path.join(REPO, "src/Tecs.cc")] if link_tecs else [])
    key = file_hash(deps, json.dumps([name] + cmd))
    out = os.path.join(BUILD, name)
    os.makedirs(out, exist_ok=True)
    exe, stamp = os.path.join(out, "run"), os.path.join(out, "stamp")
    with open(os.path.join(out, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
            return exe
        r = sh(cmd + ["-o", exe, "-pthread"])
        if r.returncode:
            raise BuildError(f"build of {name} failed: {' '.join(cmd)}\n{r.stdout[-6000:]}")
        with open(stamp, "w") as f:
            f.write(key)
    return exe


def known(prop):
    """Known findings of a property: list of dict(match, text)."""
    import re
    out = []
    for l in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
        m = re.match(r'known: property=(\S+) match="([^"]*)" (.*)', l)
        if m and m.group(1) == prop:
            out.append(dict(match=m.group(2), text=m.group(3)))
    return out


class Job:
    __slots__ = ("exe", "args", "label", "timeout")

    def __init__(self, exe, args, label=None, timeout=600):
        self.exe, self.args, self.label, self.timeout = exe, [str(a) for a in args], label, timeout


def run_job(job):
    try:
        r = subprocess.run([job.exe] + job.args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=job.timeout,
                           errors="replace")
    except subprocess.TimeoutExpired:
        return dict(result="error", message="timeout of " + " ".join([job.exe] + job.args))
    line = r.stdout.strip().split("\n")[-1] if r.stdout.strip() else ""
    try:
        d = json.loads(line)
    except ValueError:
        return dict(result="error", message=f"no result from {job.exe} {' '.join(job.args)}: rc={r.returncode} {r.stdout[-300:]} {r.stderr[-600:]}")
    return d


class Session:
    """One run of one check."""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.slack = 3 if tier == "quick" else 1
        self.t0 = time.time()
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0)
        self.samples = []
        self.bounds = []
        self.assumptions = []
        self.violations = []
        self.known = []
        self.errors = []
        self.skipped = 0
        self.capped = 0
        self.jobs = 0
        self.exhaustive = True
        self.outcomes = 0

    def elapsed(self):
        """Time used, for comparison with deadlines: on a slow or busy machine the quick tier may take SLACK times as long as planned."""
        return self.wall() / self.slack

    def wall(self):
        return time.time() - self.t0

    def count(self, states=0, transitions=0, traces=0):
        self.cov["states"] += states
        self.cov["transitions"] += transitions
        self.cov["traces_validated_against_impl"] += traces

    def bound(self, text):
        self.bounds.append(text)

    def violation(self, message, replay):
        """replay: dict with at least 'cmd' (argv relative to the build) or 'text'."""
        os.makedirs(REPLAYS, exist_ok=True)
        p = os.path.join(REPLAYS, f"{self.prop}-{len(self.violations) + 1}.json")
        replay = dict(replay, property=self.prop, message=message)
        with open(p, "w") as f:
            json.dump(replay, f, indent=1)
        self.violations.append(message)
        print(f"VIOLATION property={self.prop} replay={p}")
        print("  " + message.replace("\n", "\n  ")[:3000])
        sys.stdout.flush()

    def known_finding(self, what):
        self.known.append(what)
        print(f"KNOWN-FINDING: property={self.prop} {what}")

    def pool(self, jobs, deadline, title, confirm=None, stop_after=1):
        """Runs jobs in parallel until the (absolute, since start) deadline. Violations are confirmed and reported."""
        lock = threading.Lock()
        stat = dict(run=0, skipped=0, capped=0, states=0, transitions=0, executions=0, pb={})
        samples = []

        def one(job):
            if self.elapsed() > deadline or len(self.violations) >= stop_after or len(self.errors) >= 3:
                with lock:
                    stat["skipped"] += 1
                return
            left = max(5.0, (deadline + 30 - self.elapsed()) * self.slack)
            job.timeout = min(job.timeout * self.slack, left + 60)
            if "--secs" in job.args:
                k = job.args.index("--secs") + 1
                job.args = job.args[:k] + [str(float(job.args[k]) * self.slack)] + job.args[k + 1:]
            d = run_job(job)
            with lock:
                stat["run"] += 1
                if d["result"] == "error":
                    if len(self.errors) < 3:
                        self.errors.append(d["message"])
                    return
                stat["states"] += d.get("states", 0)
                stat["transitions"] += d.get("total_transitions", d.get("transitions", 0))
                stat["executions"] += d.get("total_executions", d.get("executions", 0))
                if d.get("capped"):
                    stat["capped"] += 1
                if "pb_completed" in d:
                    stat["pb"][d["pb_completed"]] = stat["pb"].get(d["pb_completed"], 0) + 1
                self.outcomes += d.get("outcomes", 0)
                if len(samples) < 2 and d["result"] == "ok" and d.get("executions", 0) > 1:
                    samples.append({k: v for k, v in d.items() if k in (
                        "scenario", "result", "pb_completed", "executions", "states", "transitions", "outcomes", "max_depth", "depth", "sample")})
                if d["result"] != "violation" or len(self.violations) >= stop_after:
                    return
            c = (confirm or confirm_schedule)(job, d)
            with lock:
                if len(self.violations) >= stop_after:
                    return
                if c is None:
                    self.errors.append("violation not reproduced: " + json.dumps(d)[:1500])
                else:
                    self.violation(f"{d.get('kind')}: {d.get('message')} (scenario {d.get('scenario')})\n{d.get('notes', '')}",
                                   dict(exe=os.path.relpath(job.exe, VERIF), args=c, result=d))

        if not jobs:
            return stat
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(one, jobs))
        self.count(stat["states"], stat["transitions"], stat["executions"])
        self.samples += samples[:2]
        self.jobs += stat["run"]
        self.skipped += stat["skipped"]
        self.capped += stat["capped"]
        pbs = ", ".join(f"{n} at preemption bound {b}" for b, n in sorted(stat["pb"].items()) if b >= 0)
        self.bound(f"{title}: {stat['run']} explored" + (f" ({pbs})" if pbs else "") +
                   (f", {stat['capped']} cut off by the time budget" if stat["capped"] else "") +
                   (f", {stat['skipped']} not started (time budget)" if stat["skipped"] else ""))
        if stat["skipped"] or stat["capped"]:
            self.exhaustive = False
        return stat

    def finish(self, technique):
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=dict(self.cov, samples=self.samples[:8], exhaustive=bool(self.exhaustive and not self.violations and not self.errors),
                                explored=self.bounds, distinct_outcomes=self.outcomes, technique=technique,
                                known_findings=self.known, errors=self.errors),
                  assumptions=self.assumptions, wall_s=round(self.wall(), 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", f".{self.prop}.{os.getpid()}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", f"{self.prop}.json"))
        for b in self.bounds:
            print("  " + b)
        print(f"{self.prop} {self.tier}: {len(self.violations)} violation(s), {self.cov['states']} states, "
              f"{self.cov['transitions']} transitions, {self.cov['traces_validated_against_impl']} executions of the real code, "
              f"{self.wall():.1f} s")
        if self.violations:
            return 1
        if self.errors:
            for e in self.errors:
                print("ERROR: " + e, file=sys.stderr)
            return 2
        return 0


def confirm_schedule(job, d):
    """Replays the violating schedule in a fresh process."""
    if "schedule" not in d:
        return job.args
    args = []
    skip = False
    for a in job.args:
        if skip:
            skip = False
            continue
        if a in ("--pb", "--pb-from", "--secs", "--max-exec"):
            skip = True
            continue
        args.append(a)
    args += ["--shared", d.get("shared", ""), "--replay", json.dumps(d["schedule"])]
    r = run_job(Job(job.exe, args))
    if r.get("result") == "violation":
        return args
    # setup failures have no schedule: run again
    r = run_job(job)
    if r.get("result") == "violation" and r.get("message") == d.get("message"):
        return job.args
    return None
