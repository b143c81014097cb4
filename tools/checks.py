"""The checks: one function per property."""
import itertools
import lib
from lib import Job

CHECKS = {}
NOT_APPLICABLE = {}


def check(prop, technique, note, build=None):
    def deco(f):
        CHECKS[prop] = dict(run=f, technique=technique, note=note)
        if build:
            CHECKS[prop]["build"] = build
        return f
    return deco


# ------------------------------------------------------------------------------------------- transaction menu
SMALL = ["TECS_ENTITY_ALLOCATION_BATCH_SIZE=4", "TECS_SPINLOCK_RETRY_YIELD=0"]
MEM_ASSUME = [
    "Interleavings are explored under sequential consistency; weaker memory orders are covered through the happens-before "
    "race detector (vector clocks from the memory orders actually written in the code), not by exploring stale atomic reads.",
    "Component types copy themselves correctly; every access goes through a transaction's own permissions.",
]


WIDE = ["RT_MAXT=6"]   # more than three threads
SPIN = [SMALL[0], "RT_MAXT=6"]   # the default number of retries before a thread waits


def prebuild(*fs):
    """Build several programs at once."""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(len(fs)) as ex:
        list(ex.map(lambda f: f(), fs))


def menu(std="c++20", rev=False, wide=False, spin=False):
    return lib.build("menu" + ("" if std == "c++20" else "17") + ("r" if rev else "") + ("w" if wide else "") + ("s" if spin else ""), "menu.cc",
                     SPIN if spin else SMALL + (["MENU_REVERSED"] if rev else []) + (WIDE if wide else []), std=std, oracle=["oracle.cc"])


NK = 27


def pairs(ks=range(NK)):
    ks = list(ks)
    return [f"{a}|{b}" for i, a in enumerate(ks) for b in ks[i:]]


def triples(ks):
    return ["|".join(map(str, t)) for t in itertools.combinations_with_replacement(ks, 3)]


def seq2(first, second, other):
    return [f"{a}.{b}|{c}" for a in first for b in second for c in other]


READERS = [0, 1, 2, 3]
WRITERS = [4, 5, 6, 7, 8, 9, 10, 18, 20, 21, 22]
ADDREM = [11, 12, 13, 14, 15, 16, 17, 19, 23]


def explore(s, exe, scen, pb, ignore, deadline, title, secs=None, pbfrom=None):
    jobs = []
    for x in scen:
        a = ["--run", x, "--pb", pb, "--ignore", ignore]
        if secs:
            a += ["--secs", secs]
        if pbfrom is not None:
            a += ["--pb-from", pbfrom]
        jobs.append(Job(exe, a))
    return s.pool(jobs, deadline, title)


ALLKINDS = ["race", "memory", "deadlock", "livelock", "exception", "crash", "terminate", "torn", "unstable", "visibility",
            "snapshot", "lostupdate", "list", "ownwrite", "txid", "instance", "handle"]


def only(*kinds):
    return ",".join(k for k in ALLKINDS if k not in kinds)


def menu_check(s, tier, ignore, quick, thorough, std="c++20"):
    prebuild(menu, lambda: menu(rev=True), lambda: menu(wide=True), lambda: menu(spin=True))
    for (title, scen, pb, deadline, secs, *opt) in (quick if tier == "quick" else thorough):
        explore(s, menu(std, rev="r" in opt, wide="w" in opt, spin="s" in opt), scen, pb, ignore, deadline, title, secs)
    s.assumptions += MEM_ASSUME


SCHED = "stateless model checking of the real code: exhaustive schedule enumeration (preemption-bounded DFS with happens-before state caching)"
SEQS_Q = seq2([11, 12, 17, 6, 13], [1, 6, 19, 17, 14], [1, 3, 6, 10, 12, 14])
TRIP_Q = ["1|6|6", "1|6|11", "3|11|12", "4|5|1", "4|5|6", "11|11|1", "11|12|17", "7|8|1", "7|8|6", "6|10|22", "2|11|13", "0|4|8", "16|18|3",
          "19|11|3", "23|6|3"]
# transactions held open until no other thread can move, ending together
HELD_Q = ["h1|h1|6", "h0|h3|10", "h0|h24|25", "h1|h2|11", "h24|h24|18", "h1|h1|12"]
REV = [f"{a}|{b}" for a in (1, 3, 24, 10, 11) for b in (6, 7, 8, 10, 12, 16, 17, 18, 21, 22, 25, 26)]
REV3 = ["24|25|6", "24|h0|25", "3|h1|22", "24|h1|25", "24|h0|10"]
QUAD1 = ["h1|h1|h1|6", "h24|h1|h3|25", "1|6|6|11", "11|12|17|3", "4|5|6|10", "h1|h1|6|8", "7|8|24|9", "11|14|13|6", "6|18|26|25", "h0|h0|h2|12"]
QUAD0 = ["|".join(map(str, t)) for t in itertools.combinations_with_replacement([1, 3, 6, 7, 11, 12, 17, 25], 4)]
QUINT0 = ["h1|h3|h24|25|1", "h1|h1|h1|h1|6", "6|7|8|4|5", "11|12|13|17|3", "h0|h0|h2|12|19"]
MENU_Q = [
    ("pairs of transactions (27 kinds)", pairs(), 3, 60, 20),
    ("readers held open and ending together", HELD_Q, 2, 75, 20),
    ("pairs, component types in reverse order", REV, 3, 75, 20, "r"),
    ("three threads, component types in reverse order", REV3, 1, 75, 20, "r"),
    ("three threads", TRIP_Q, 1, 75, 20),
    ("four threads", QUAD1, 1, 80, 20, "w"),
    ("four threads of 8 kinds, five threads", QUAD0 + QUINT0, 0, 85, 20, "w"),
    ("default number of retries before waiting: pairs", pairs(), 1, 90, 20, "s"),
    ("default number of retries before waiting: three to five threads", HELD_Q + TRIP_Q[:9] + QUAD1[:3] + QUINT0[:2], 0, 95, 20, "s"),
    ("two transactions then/against one", SEQS_Q, 1, 100, 10),
]
MENU_T = [
    ("pairs of transactions (27 kinds)", pairs(), 4, 300, 60),
    ("pairs, component types in reverse order", pairs(), 3, 360, 60, "r"),
    ("readers held open and ending together", HELD_Q, 3, 420, 120),
    ("three threads, component types in reverse order", REV3, 2, 450, 120, "r"),
    ("three threads (4 readers/writers/add-remove mixes)", TRIP_Q, 3, 500, 120),
    ("four threads", QUAD1, 2, 560, 60, "w"),
    ("four threads of 8 kinds, five threads", QUAD0 + QUINT0, 0, 580, 60, "w"),
    ("default number of retries before waiting: pairs", pairs(), 3, 600, 60, "s"),
    ("default number of retries before waiting: three to five threads", HELD_Q + TRIP_Q + QUAD1 + QUINT0, 1, 640, 60, "s"),
    ("three threads, all kinds from a 10 kind menu", triples([1, 2, 3, 4, 6, 7, 8, 10, 11, 12, 17]), 1, 650, 30),
    ("two transactions then/against one", seq2(range(4, 24, 2), range(24), [1, 3, 6, 10, 12, 14, 17, 19]), 2, 820, 20),
]


def instances(s, tier, ign):
    explore(s, menu(), ["27|27", "27.27|27", "27|27|27", "27|6", "27|11", "27.11|27", "27|6|11"], 2 if tier == "quick" else 3, ign, s.elapsed() + (20 if tier == "quick" else 100),
            "instances created and used concurrently", 20)


@check("C01", SCHED + "; oracle: one snapshot instant per transaction must exist in the precedence graph of reads, commits and real time",
       "All interleavings of every pair of 27 transaction kinds up to 3 preemptions and selected triples/sequences, executed on the "
       "compiled sources. Trusts the fiber runtime and clang's instrumentation; sequentially consistent value semantics.", lambda: [menu(), menu(rev=True), menu(wide=True), menu(spin=True)])
def c01(s, tier):
    menu_check(s, tier, only("torn", "unstable", "snapshot", "visibility", "memory", "crash", "terminate", "list", "exception"), MENU_Q, MENU_T)


@check("C02", SCHED + "; oracle: every write's base version is the latest committed one, writer chains never fork, final state equals the chain",
       "Same exploration as C01 judged for lost updates and overlapping writers.", lambda: [menu(), menu(rev=True), menu(wide=True), menu(spin=True)])
def c02(s, tier):
    menu_check(s, tier, only("lostupdate", "torn", "ownwrite", "visibility", "memory", "crash", "terminate", "exception"), MENU_Q, MENU_T)


@check("C03", SCHED + "; oracle: per-item reads must agree with real time (begin/end stamps) and with the commit order",
       "Same exploration as C01 judged for visibility before/after end.", lambda: [menu(), menu(rev=True), menu(wide=True), menu(spin=True)])
def c03(s, tier):
    menu_check(s, tier, only("visibility", "unstable", "torn", "snapshot", "memory", "crash", "terminate", "exception", "lostupdate"), MENU_Q, MENU_T)


@check("C04", SCHED + "; oracle: no reachable state without an enabled thread (deadlock, lost wakeup), no livelock under fair scheduling",
       "Same exploration in the C++20 (atomic wait) and the C++17 (spin and yield) build.", lambda: [menu(), menu(rev=True), menu(wide=True), menu(spin=True)])
def c04(s, tier):
    ign = only("deadlock", "livelock", "exception", "terminate", "crash")
    menu_check(s, tier, ign, MENU_Q, MENU_T)
    exe = menu("c++17")
    d = 30 if tier == "quick" else 240
    base = s.elapsed()
    explore(s, exe, pairs(), 1 if tier == "quick" else 2, ign, base + d, "C++17 build: pairs", 10)
    if tier != "quick":
        explore(s, exe, TRIP_Q, 1, ign, base + d + 60, "C++17 build: three threads", 20)


@check("C07", SCHED + "; oracle: vector-clock happens-before race detection on every access, checked heap (use after free, bounds, leaks)",
       "Same exploration as C01; a race is reported if two conflicting accesses are unordered in any explored execution.", lambda: [menu(), menu(rev=True), menu(wide=True), menu(spin=True)])
def c07(s, tier):
    ign = only("race", "memory", "crash", "terminate", "torn")
    menu_check(s, tier, ign, MENU_Q, MENU_T)
    instances(s, tier, ign)


# ------------------------------------------------------------------------------------------- sequential histories
HIST = ("bounded exhaustive enumeration of operation histories on the real code (depth-first with state snapshots), "
        "every step compared with an abstract model; ")
HIST_ASSUME = ["One thread at a time (interleavings are the subject of C01-C07).", "Component types copy themselves correctly."]
HARD = "memory,crash,terminate,exception,deadlock,livelock"
EXHAUST = ["TECS_ENTITY_ALLOCATION_BATCH_SIZE=65535", "HIST_EXHAUST", "RT_HEAP_MB=128", "TECS_SPINLOCK_RETRY_YIELD=0",
           "TECS_ENTITY_INDEX_TYPE=uint16_t", "TECS_ENTITY_GENERATION_TYPE=uint16_t", "TECS_ENTITY_ECS_IDENTIFIER_TYPE=uint8_t"]


def hist(batch=4, std="c++20", name=None, defines=None, **kw):
    d = defines if defines is not None else [f"TECS_ENTITY_ALLOCATION_BATCH_SIZE={batch}", "TECS_SPINLOCK_RETRY_YIELD=0"]
    return lib.build(name or f"hist_b{batch}", "hist.cc", d, std=std, **kw)


def confirm_history(job, d):
    if "history" not in d:
        return job.args
    args = []
    skip = False
    for a in job.args:
        if skip:
            skip = False
            continue
        if a in ("--shard", "--secs", "--sdepth"):
            skip = True
            continue
        args.append(a)
    args += ["--replay", d["history"]]
    r = lib.run_job(Job(job.exe, args))
    return args if r.get("result") == "violation" else None


def histories(s, exe, only, runs, deadline, title, shards=16, secs=None):
    """runs: list of dicts of arguments."""
    jobs = []
    for r in runs:
        n = r.get("shards", shards)
        for i in range(n):
            a = []
            for k, v in r.items():
                if k != "shards":
                    a += ["--" + k, v]
            a += ["--only", only, "--shard", f"{i}/{n}"]
            if secs:
                a += ["--secs", secs]
            jobs.append(Job(exe, a))
    return s.pool(jobs, deadline, title, confirm_history)


def H(mode, init, depth, tx, body, handles, kinds="0x7ff", sdepth=2, **kw):
    return dict(mode=mode, init=init, depth=depth, tx=tx, body=body, handles=handles, kinds=kinds, sdepth=sdepth, **kw)


def hist_check(prop, only, what, note, quick, thorough, deadline=(150, 800), extra=None):
    """quick/thorough: list of (batch, H(...)) entries."""

    def f(s, tier):
        runs = quick if tier == "quick" else thorough
        dl = deadline[0 if tier == "quick" else 1]
        by = {}
        for b, r in runs:
            by.setdefault(b, []).append(r)
        prebuild(*[lambda b=b: hist(b) for b in by])
        for b, rs in by.items():
            for r in rs:
                if s.violations:
                    break
                secs = max(5, int(dl - s.elapsed()))
                histories(s, hist(b), only + "," + HARD, [r], dl,
                          f"histories mode {r['mode']}, start state {r['init']}, <= {r['depth']} operations, <= {r['tx']} transactions, <= {r['handles']} "
                          f"handles, lock kinds {r['kinds']}, allocation batch {b}"
                          + (f", up to {r['obs']} observers" if "obs" in r else "") + (f", next to {r['crowd'].split('/')[0]} other entities" if "crowd" in r else "") + (f", after {r['age']} reuses of the same slots" if "age" in r else ""), secs=secs)
        if extra and not s.violations:
            extra(s, tier)
        s.assumptions += HIST_ASSUME

    check(prop, HIST + what, note, lambda: [hist(b) for b in (4, 12, 1)])(f)


def exhaustion(s, tier):
    instances(s, tier, only("instance", "handle"))
    exe = hist(name="hist_ex", defines=EXHAUST)
    r = H("c09", 0, 5 if tier == "quick" else 7, 2, 3 if tier == "quick" else 5, 4, "0x1", 3, shards=8)
    histories(s, exe, "handle,list,current,previous,committed," + HARD, [r], s.elapsed() + (60 if tier == "quick" else 400),
              "histories at the exhaustion of a 16 bit index type (65533 live entities)", secs=60 if tier == "quick" else 400)


hist_check("C08", "current,previous", "all current/previous reads of every handle, list and component compared after every operation",
           "Bounds: handles, operations and transactions as listed; every lock kind of the table; one allocation batch boundary.",
           [(4, H("c08", 1, 5, 1, 5, 4)), (4, H("c08", 3, 6, 2, 5, 3)), (4, H("c08", 0, 7, 2, 6, 3, "0x1", 3)), (1, H("c08", 0, 7, 2, 6, 3, "0x1", 3)),
            (4, H("c08", 2, 6, 2, 4, 3, "0x7")), (4, H("c08", 1, 4, 2, 3, 4, "0x7ff", crowd="300/3")), (4, H("c08", 3, 5, 2, 3, 4, "0x3", crowd="70/0"))],
           [(4, H("c08", 1, 6, 1, 6, 4, sdepth=3)), (4, H("c08", 3, 8, 2, 6, 3, sdepth=3)), (4, H("c08", 0, 9, 2, 7, 3, "0x1", 4)),
            (1, H("c08", 0, 9, 2, 7, 3, "0x1", 4)), (12, H("c08", 2, 7, 2, 5, 3, "0x7", 3)), (4, H("c08", 1, 7, 2, 5, 3, sdepth=3)),
            (4, H("c08", 1, 5, 2, 4, 4, "0x7ff", crowd="300/3")), (4, H("c08", 3, 6, 2, 4, 4, "0x3", crowd="70/0"))], extra=lambda s, tier: lock_jobs(s, locks(), "view," + HARD, [("c24", 4, 4, 1, 18)], s.elapsed() + 100))
hist_check("C09", "handle", "handle identity, existence and uniqueness over create/destroy/reuse in two instances, over allocation batches",
           "Generation wrap-around needs 2^24 reuses of one index and is out of bounds.",
           [(4, H("c09", 0, 11, 5, 5, 5, "0x1", 4)), (1, H("c09", 0, 11, 5, 5, 5, "0x1", 4)), (4, H("c09", 3, 9, 4, 5, 5, "0x1", 4)),
            (4, H("c09", 0, 8, 4, 5, 7, "0x1", 3, age=1030)), (1, H("c09", 0, 6, 4, 4, 5, "0x1", 3, age=65533)), (4, H("c09", 3, 7, 4, 4, 5, "0x1", 3, crowd="300/3"))],
           [(4, H("c09", 0, 13, 6, 6, 6, "0x1", 4)), (1, H("c09", 0, 13, 6, 6, 6, "0x1", 4)), (4, H("c09", 3, 12, 5, 5, 6, "0x1", 4)),
            (12, H("c09", 0, 11, 5, 5, 6, "0x1", 4)),
            (4, H("c09", 0, 10, 5, 5, 7, "0x1", 3, age=1030)), (1, H("c09", 0, 9, 4, 4, 5, "0x1", 3, age=65533)), (4, H("c09", 3, 8, 4, 4, 5, "0x1", 3, crowd="300/3"))], extra=exhaustion)
hist_check("C10", "list,iter", "every entity list compared with the model after every operation; iterators driven step by step between changes",
           "Lists of up to 4 entities; iteration interleaved with every change the lock allows.",
           [(4, H("c10g", 1, 6, 1, 6, 4, "0x1", 3)), (4, H("c10g", 1, 8, 3, 4, 4, "0x1", 3)), (4, H("c10", 1, 7, 1, 7, 4, "0x1", 3)), (4, H("c10", 4, 7, 1, 7, 4, "0x1", 3)), (4, H("c10", 1, 8, 3, 4, 4, "0x1", 3)), (1, H("c10", 1, 7, 2, 5, 4, "0x1", 3))],
           [(4, H("c10g", 1, 8, 1, 8, 4, "0x1", 3)), (4, H("c10g", 1, 9, 3, 4, 4, "0x1", 3)), (4, H("c10", 1, 8, 1, 8, 4, "0x1", 3)), (4, H("c10", 4, 8, 1, 8, 4, "0x1", 3)), (4, H("c10", 1, 9, 3, 4, 4, "0x1", 3)), (1, H("c10", 1, 9, 2, 6, 4, "0x1", 3)),
            (4, H("c10", 3, 9, 2, 6, 4, "0x1", 3))])
hist_check("C11", "committed,list", "the first view of every new transaction and of its successor compared with a sequential model",
           "Dense histories of single operations plus presence-mask histories that set a whole batch of entities at once (both commit paths).",
           [(4, H("c11", 0, 10, 3, 5, 3, "0x7", 3)), (12, H("c11", 2, 8, 3, 4, 3, "0x7", 3)), (4, H("c11", 1, 7, 3, 3, 3, "0x1f", 3)),
            (4, H("c11m", 5, 9, 3, 1, 1, "0x3", 3)), (12, H("c11m", 5, 9, 3, 1, 1, "0x3", 3)), (1, H("c11m", 5, 9, 3, 1, 3, "0x3", 3)),
            (4, H("c11m", 5, 12, 4, 1, 5, "0x3", 3)),
            (4, H("c11m", 5, 9, 3, 1, 5, "0x3", 3, crowd="70/0")), (4, H("c11m", 5, 6, 2, 1, 3, "0x7", 3, crowd="300/3")), (4, H("c11", 1, 6, 3, 2, 3, "0x7", 3, crowd="300/5"))],
           [(4, H("c11", 0, 12, 4, 5, 3, "0x7", 4)), (12, H("c11", 2, 9, 3, 4, 3, "0x7", 3)), (4, H("c11", 1, 9, 4, 3, 3, "0x1f", 3)),
            (4, H("c11m", 5, 9, 3, 1, 1, "0x3", 3)), (12, H("c11m", 5, 9, 3, 1, 1, "0x3", 3)), (1, H("c11m", 5, 9, 3, 1, 1, "0x3", 3)),
            (4, H("c11m", 5, 12, 4, 1, 3, "0x3", 3)), (12, H("c11m", 5, 12, 4, 1, 3, "0x3", 3)), (4, H("c11m", 5, 15, 5, 1, 9, "0x3", 3)),
            (4, H("c11m", 5, 9, 3, 1, 3, "0x3", 3, crowd="70/0")), (4, H("c11m", 5, 9, 3, 1, 5, "0x7", 3, crowd="300/3")), (4, H("c11", 1, 7, 3, 3, 3, "0x7", 3, crowd="300/5"))])
hist_check("C12", "global", "all reads of a global component (through lock and entity-less API) compared with the model",
           "Two global components, mixed with entity operations and with each other.",
           [(4, H("c12", 0, 10, 3, 5, 1, "0x701", 3)), (4, H("c12", 1, 9, 3, 4, 1, "0x7ff", 3)), (1, H("c12", 1, 9, 3, 4, 1, "0x703", 3)),
            (4, H("c12b", 0, 9, 3, 4, 1, "0x1901", 3)), (4, H("c12b", 1, 8, 3, 3, 1, "0x1943", 3))],
           [(4, H("c12", 0, 13, 4, 5, 1, "0x701", 4)), (4, H("c12", 1, 11, 4, 4, 1, "0x7ff", 4)), (1, H("c12", 1, 11, 3, 5, 1, "0x703", 4)), (4, H("c12b", 0, 11, 4, 4, 1, "0x1901", 3)), (4, H("c12b", 1, 9, 3, 4, 1, "0x1943", 3))])
hist_check("C13", "reject,current,previous,committed,global,list,handle",
           "every invalid use at every point of every history must throw and change nothing (differential against the history without it)",
           "The table of invalid uses is listed in mc/hist.cc (BADALL).",
           [(4, H("c13", 1, 6, 2, 4, 2, "0x7ff", 3)), (4, H("c13", 0, 7, 2, 5, 2, "0x7", 3)), (4, H("c13", 3, 6, 2, 4, 3, "0x7", 3)), (4, H("c13", 3, 5, 2, 3, 3, "0x7", 3, crowd="70/3")), (4, H("c13", 0, 5, 2, 4, 5, "0x7", 3, age=1030))],
           [(4, H("c13", 1, 7, 2, 5, 2, "0x7ff", 3)), (4, H("c13", 0, 9, 3, 5, 2, "0x7", 3)), (4, H("c13", 3, 7, 2, 5, 3, "0x7", 3)), (1, H("c13", 3, 7, 2, 5, 3, "0x7", 3))])
C14K = [0x11, 0x21, 0x41, 0x81, 0x31, 0x51, 0x10, 0x20, 0x42]
hist_check("C14", "event", "event queues of up to two observers per history compared with the model's committed changes",
           "Observers of entities, a plain, an owning and a global component; registration, stop, destroy and partial polls at every point.",
           [(4, H("c14", i, 9, 4, 4, 2, "0x125", 3)) for i in C14K[:5]] + [(4, H("c14", 0x61, 7, 3, 4, 2, "0x7", 3)), (1, H("c14", 0x10, 9, 4, 4, 3, "0x1", 3)), (4, H("c14", 0x31, 6, 3, 4, 2, "0x5", 3, crowd="300/3")),
            (4, H("c14", 0x10, 9, 4, 4, 2, "0x1", 3, obs=3)), (4, H("c14", 0x20, 9, 4, 4, 1, "0x1", 3, obs=4)), (4, H("c14", 0x180, 8, 4, 4, 0, "0x1", 3))],
           [(4, H("c14", i, 11, 5, 4, 2, "0x125", 3)) for i in C14K] + [(4, H("c14", 0x61, 8, 3, 4, 3, "0x7", 3)), (1, H("c14", 0x10, 11, 4, 4, 3, "0x1", 3)), (4, H("c14", 0x10, 10, 4, 5, 2, "0x1", 3, obs=3)), (4, H("c14", 0x20, 11, 4, 5, 1, "0x1", 3, obs=4)), (4, H("c14", 0x180, 10, 5, 4, 0, "0x1", 3))])
hist_check("C23", "release,memory", "every live component value is counted after every commit and after destruction of the instance (leaks, double release)",
           "Values owned by components, globals and observer events.",
           [(4, H("c23", 1, 6, 2, 5, 3, "0x7", 3)), (4, H("c23", 0, 8, 3, 5, 2, "0x105", 3)), (4, H("c23", 3, 7, 2, 5, 3, "0x1", 3)), (1, H("c23", 2, 6, 2, 4, 3, "0x5", 3)), (4, H("c23", 1, 5, 2, 3, 3, "0x5", 3, crowd="70/0")),
            (4, H("c14", 0x41, 8, 3, 4, 2, "0x5", 3, live=1)), (4, H("c14", 0x81, 8, 3, 4, 2, "0x105", 3, live=1))],
           [(4, H("c23", 1, 7, 2, 5, 3, "0x7", 3)), (4, H("c23", 0, 10, 3, 5, 2, "0x105", 3)), (4, H("c23", 3, 9, 3, 5, 3, "0x1", 3)), (1, H("c23", 2, 8, 3, 4, 3, "0x5", 3)), (4, H("c14", 0x41, 10, 4, 4, 2, "0x5", 3, live=1)), (4, H("c14", 0xc1, 8, 4, 4, 2, "0x105", 3, live=1))])


# ------------------------------------------------------------------------------------------- waiting and overtaking
def block(std="c++20", wide=False, spin=False):
    return lib.build("block" + ("" if std == "c++20" else "17") + ("w" if wide else "") + ("s" if spin else ""), "block.cc", SPIN if spin else SMALL + (WIDE if wide else []), std=std, oracle=["block_oracle.cc"])


NB = 26
NB2 = 38   # with the kinds that only C05 uses
B_READ = [0, 1, 2, 3, 22, 23, 24]
B_WRITE = [4, 6, 7, 8, 9, 10, 11, 12, 14, 15, 16, 18, 19, 20, 21, 25]
B_WAITED = [0, 1, 2, 3, 10, 11, 22, 23, 24, 25]     # kinds with a read lock on something


def bonly(*kinds):
    return ",".join(k for k in ALLKINDS + ["wait", "overtake"] if k not in kinds)




@check("C05", SCHED + "; oracle: at every quiescent point with a transaction held open, each waiting transaction must conflict with an active one "
       "according to the permission table",
       "Every pair of 26 transaction kinds with one held open at every point, triples with a selected third. Waiting means: no enabled step until "
       "the held transaction is allowed to continue.", lambda: [block(), block(wide=True), block(spin=True), block("c++17")])
def c05(s, tier):
    prebuild(block, lambda: block(wide=True), lambda: block(spin=True), lambda: block("c++17"))
    exe = block()
    ign = bonly("wait", "deadlock", "livelock", "crash", "terminate", "exception")
    q = tier == "quick"
    explore(s, exe, [f"h{a}|{b}" for a in range(NB2) for b in range(NB2)], 3 if q else 5, ign, 60 if q else 250,
            "one transaction held open, one running (all ordered pairs of 38 kinds)", 20)
    explore(s, exe, [f"h{a}|{b}|{c}" for a in [0, 1, 3, 4, 7, 8, 10, 13, 17, 19] for b in ([4, 6, 8, 12, 19, 20] if q else range(NB)) for c in
                     ([1, 6, 10, 15] if q else range(0, NB))], 1 if q else 2, ign, 120 if q else 650, "one transaction held open, two running", 20)
    wide = block(wide=True)
    explore(s, wide, [f"h{a}|h{b}|h{c}|{d}" for a in [1, 4] for b in [6, 24, 0] for c in [15, 22, 3] for d in range(0, NB2, 3 if q else 1)], 0 if q else 1, ign, 150 if q else 700,
            "three transactions held open, one running", 20)
    explore(s, exe, [f"h{a}|h{b}|{c}" for a in [1, 3, 10, 4, 13, 24] for b in [0, 3, 6, 11, 17, 22] for c in ([2, 7, 18, 20, 26, 30] if q else range(NB2))],
            1 if q else 2, ign, 150 if q else 750, "two transactions held open, one running", 20)
    explore(s, block(spin=True), [f"h{a}|{b}" for a in range(NB2) for b in range(NB2)] + [f"h{a}|h{b}|{c}" for a in [1, 3, 10] for b in [0, 6, 17] for c in [2, 7, 18, 20, 26, 30]],
            1 if q else 3, ign, 165 if q else 780, "default number of retries before waiting", 20)
    exe = block("c++17")
    explore(s, exe, [f"h{a}|{b}" for a in range(NB2) for b in range(NB2)], 1 if q else 2, ign, 180 if q else 800, "C++17 build: one held open, one running", 10)
    s.assumptions += MEM_ASSUME


@check("C06", SCHED + "; oracle: a transaction started while a commit was observed waiting for readers never obtains read access to the version before "
       "that commit; a commit that waits only for ended readers is a deadlock",
       "A reader held open, a committing writer and late readers (26 kinds), including readers that restart at once.", lambda: [block(), block(wide=True), block(spin=True), block("c++17")])
def c06(s, tier):
    prebuild(block, lambda: block(wide=True), lambda: block(spin=True), lambda: block("c++17"))
    exe = block()
    ign = bonly("overtake", "deadlock", "livelock", "crash", "terminate", "exception", "unstable")
    q = tier == "quick"
    R = [0, 1, 3, 10, 24, 23] if q else B_WAITED
    N = [0, 1, 2, 3, 10, 23, 19] if q else range(NB)
    W = [4, 7, 8, 10, 12, 15, 18, 19, 20, 21] if q else B_WRITE
    explore(s, exe, [f"h{r}.{r}|{w}|p{n}" for w in W for r in R for n in N], 1 if q else 2, ign, 90 if q else 500,
            "reader held open and restarting, committing writer, late third transaction", 20)
    explore(s, exe, [f"h{r}.h{n}|{w}" for w in B_WRITE for r in R for n in N], 3 if q else 4, ign, 140 if q else 700,
            "reader held open and restarting against a committing writer", 20)
    explore(s, exe, [f"h{r}.h{n}.{n}|{w}|ph{n}.{n}" for w in [4, 7, 12, 19, 20] for r in [0, 1, 3] for n in [0, 1, 2, 3]], 1 if q else 2, ign,
            170 if q else 800, "readers arriving in turns", 20)
    wide = block(wide=True)
    explore(s, wide, [f"h{r}|h{r}|{w}|p{n}" for w in W for r in R for n in N], 1, ign, 185 if q else 760, "two readers held open, committing writer, late fourth", 20)
    explore(s, wide, [f"h{r}|h{r}|{w}|ph{n}|p{n}" for w in ([4, 12, 19] if q else W) for r in ([0, 1, 3] if q else R) for n in ([1, 3] if q else N)], 0 if q else 1, ign, 190 if q else 800,
            "two readers held open, committing writer, two late ones", 20)
    explore(s, wide, [f"h{r}|h{m}|h{n}|{w}|p{n}" for w in [4, 12, 19] for r in [0, 1, 3] for m in [1, 3] for n in [1, 3, 24]], 0 if q else 1, ign, 195 if q else 830,
            "three readers held open, committing writer, late fifth", 20)
    explore(s, block(spin=True), [f"h{r}|{w}|p{n}" for w in W for r in R for n in N] + [f"h{r}.h{n}|{w}" for w in B_WRITE for r in R for n in N], 1 if q else 2, ign, 200 if q else 840,
            "default number of retries before waiting: committing writer, late reader", 20)
    exe = block("c++17")
    explore(s, exe, [f"h{r}.h{n}|{w}" for w in B_WRITE for r in R[:4] for n in R[:4]], 1 if q else 2, ign, 200 if q else 840, "C++17 build: reader restarting", 10)
    s.assumptions += MEM_ASSUME


# ------------------------------------------------------------------------------------------- observers under concurrency
def obs(std="c++20"):
    return lib.build("obs", "obs.cc", SMALL, std=std, oracle=["obs_oracle.cc"])


@check("C15", SCHED + "; oracle: events polled in a transaction are exactly those of the commits its snapshot contains, per commit complete, in commit order",
       "Observers of entities, two components and a global, polled in six kinds of transactions, registered and stopped while up to two other threads commit.",
       obs)
def c15(s, tier):
    exe = obs()
    ign = ",".join(k for k in ALLKINDS if k not in ("race", "memory", "crash", "terminate", "exception", "deadlock", "livelock"))
    q = tier == "quick"
    P = ["Wp", "Wo", "Wq", "Wr", "Wa", "W9", "Wpp", "Wop", "wp", "xp", "Wsp", "Wtp", "wsp", "xpwp"]
    M = list("12345678") + ["12", "35", "44", "17", "82", "52", "W9", "Wp5", "w1"]
    explore(s, exe, [f"{p}|{m}" for p in P for m in M], 3 if q else 5, ign, 60 if q else 300, "one poller, one changing thread", 20)
    F = ["a", "4", "5", "wp", "xp", "4p", "w5p", "ws"]
    explore(s, exe, [f"Z{p}|{m}" for i, p in enumerate(F) for m in F[i:]], 2 if q else 4, ign, 90 if q else 400, "first transactions of an instance", 20)
    explore(s, exe, [f"{p}|{m}|{n}" for p in (P[:6] if q else P) for m in ["1", "3", "5"] for n in ["2", "4", "7", "Wp", "w", "x"]], 1 if q else 2, ign,
            120 if q else 800, "one poller, two other threads", 20)
    s.assumptions += MEM_ASSUME


# ------------------------------------------------------------------------------------------- nested transactions
def nest(m, ni=0):
    return lib.build(f"nest{m}" + (f"_{ni}" if ni else ""), "nest.cc", SMALL + ([f"TECS_MAX_ACTIVE_TRANSACTIONS_PER_THREAD={m}"] if m else []) + ([f"NEST_NI={ni}", "NEST_NT=1"] if ni else []))


NEST_PROGS = ["r0!w0!a0-", "r0!w0!a0r1!r0--w0-", "w0r1!w0!n1--a0-", "a0!r0n1!a1--r0-", "n0!a0-a0!n0-", "r0r1!n0!w1--", "w0a1!a1--w1-"]
KNOWN = lib.known("C17")


@check("C17", HIST + "one history = starts (nested or not), ends and re-creations on 2 threads x 3 instances x 4 permission sets, limit 2 and 3; "
       "plus exhaustive schedules of nesting attempts in concurrent threads",
       "Ending a transaction on another thread than the one that started it is explored separately (known finding F7).", lambda: [nest(2), nest(3), nest(5, 6), nest(0, 66)])
def c17(s, tier):
    q = tier == "quick"
    prebuild(lambda: nest(2), lambda: nest(3), lambda: nest(5, 6), lambda: nest(0, 66))
    for m, d in ((2, 4), (3, 4)) if q else ((2, 5), (3, 5)):
        exe = nest(m)
        s.pool([Job(exe, ["--depth", d, "--shard", f"{i}/26", "--secs", 60 if q else 380], timeout=700) for i in range(26)], 80 if q else 800,
               f"start/end/recreate histories of {d} operations, limit {m}", confirm_history)
    for kinds, d in ((1, 9), (4, 8), (15, 5)) if q else ((1, 11), (4, 10), (15, 6)):
        if not s.violations:
            s.pool([Job(nest(5, 6), ["--depth", d, "--kinds", kinds, "--shard", f"{i}/16", "--secs", 60 if q else 200], timeout=700) for i in range(16)], 120 if q else 800,
                   f"one thread, 6 instances, limit 5: start/end/recreate histories of {d} operations, kinds {kinds}", confirm_history)
    if not s.violations:
        s.pool([Job(nest(0, 66), ["--chain", 1], timeout=300)], 140 if q else 820, "chains of simultaneous transactions up to the default limit", confirm_history)
    exe = nest(2)
    ign = ",".join(k for k in ALLKINDS if k not in ("race", "memory", "crash", "terminate", "exception", "deadlock", "livelock"))
    progs = NEST_PROGS
    explore(s, exe, [f"{a}|{b}" for i, a in enumerate(progs) for b in progs[i:]], 2 if q else 4, ign, 120 if q else 850, "nesting attempts in two threads", 30)
    # known finding F7: a lock handle that dies on another thread
    if not s.violations:
        d = lib.run_job(Job(exe, ["--replay", "0,192,0"]))
        s.count(1, 3, 1)
        if d.get("result") == "violation":
            hit = [k for k in KNOWN if k["match"] in d["message"]]
            if hit:
                s.known_finding(hit[0]["text"])
            else:
                s.violation(d["message"], dict(exe="build/nest2/run", args=["--replay", "0,192,0"], result=d))
    s.assumptions += ["A transaction ends on the thread that started it (otherwise see the known finding).", "Library build: header-only builds have no nesting detection."]


# ------------------------------------------------------------------------------------------- lock handles
def locks(std="c++20", wide=False):
    """wide: 66 component types, the permission bitsets span two machine words."""
    return lib.build("locks" + ("" if std == "c++20" else "17") + ("w" if wide else ""), "locks.cc", SMALL + (["LOCKS_WIDE=64"] if wide else []), std=std)


def try_wide(s, report=False):
    """The program for 66 component types, or None if only that one does not compile (a violation of C24 and C16)."""
    try:
        return locks(wide=True)
    except lib.BuildError as e:
        locks()
        if report:
            lines = [l for l in str(e).split("\n") if "error" in l]
            s.violation("lock operations that compile for 2 component types do not compile for 66: " + " / ".join(lines[:2]), dict(text=str(e)[-3000:]))
        else:
            s.bound("not explored: 66 component types (does not compile, see C24)")
            s.exhaustive = False


def lock_jobs(s, exe, only, runs, deadline, types=18, extra=""):
    for (mode, depth, handles, tx, shards) in runs:
        if s.violations:
            return
        secs = max(5, int(deadline - s.elapsed()))
        s.pool([Job(exe, ["--mode", mode, "--depth", depth, "--handles", handles, "--tx", tx, "--only", only, "--shard", f"{i}/{shards}", "--secs", secs],
                    timeout=secs + 60) for i in range(shards)], deadline,
               f"lock handle histories ({mode}): {depth} operations, {handles} handles, {tx} transactions, {types} lock types{extra}", confirm_history)


@check("C21", HIST + "after every operation every live handle is read, a second thread reads the committed state, and (branch) tries to take a conflicting permission",
       "Handles: copies, moves, conversions, read-only and dynamic locks, TryLock results, unwinding by exception; 18 lock types; also with 66 component types.", lambda: [locks(), locks(wide=True)])
def c21(s, tier):
    q = tier == "quick"
    prebuild(menu, locks, lambda: try_wide(s))
    ign = only("txid")
    explore(s, menu(), pairs([2, 0, 6, 11, 27]) + ["2.2|2", "2|0|0", "2.0|6.2", "27|2|2"], 2 if q else 4, ign, 15 if q else 100, "transaction identifiers of concurrent transactions", 10)
    lock_jobs(s, locks(), "view,lifetime," + HARD, [("c21", 5, 4, 1, 18), ("c21", 6, 4, 2, 18)] if q else [("c21", 7, 4, 2, 18), ("c21", 8, 3, 3, 18), ("c21", 7, 5, 1, 18)], 100 if q else 600)
    if try_wide(s):
        lock_jobs(s, locks(wide=True), "view,lifetime," + HARD, [("c21", 5, 4, 1, 12)] if q else [("c21", 6, 4, 2, 12)], 120 if q else 800, 12, ", 66 component types")
    s.assumptions += HIST_ASSUME


@check("C24", HIST + "TryLock, Subset, ReadOnlySubset and conversions between 18 lock types checked against the permission lattice and every result read and written",
       "All chains of up to 3 (thorough: 4) derivations from every transaction type; also with 66 component types (permission sets of two machine words).", lambda: [locks(), locks(wide=True)])
def c24(s, tier):
    q = tier == "quick"
    prebuild(locks, lambda: try_wide(s, True))
    if s.violations:
        return
    lock_jobs(s, locks(), "permission,static,view," + HARD, [("c24", 4, 4, 1, 18)] if q else [("c24", 4, 4, 1, 18), ("c24", 5, 4, 1, 18)], 100 if q else 600)
    lock_jobs(s, locks(wide=True), "permission,static,view," + HARD, [("c24", 4, 4, 1, 12)] if q else [("c24", 4, 4, 1, 12), ("c24", 5, 4, 1, 12)], 130 if q else 800, 12, ", 66 component types")
    s.assumptions += HIST_ASSUME


# ------------------------------------------------------------------------------------------- values and ranges
VALS = ("bounded exhaustive enumeration of inputs and operation sequences on the real code (explicit-state search over a finite state graph), every state "
        "compared with a reference; ")


def view(u=False):
    return lib.native("view" + ("u" if u else ""), "view.cc", ["TECS_UNCHECKED_MODE"] if u else [])


ENT = dict(e16=(16, 16, 8), e32=(32, 32, 8), e32x=(32, 32, 16))


def entity(n):
    i, g, e = ENT[n]
    return lib.native(n, "entity.cc", [f"TECS_ENTITY_INDEX_TYPE=uint{i}_t", f"TECS_ENTITY_GENERATION_TYPE=uint{g}_t", f"TECS_ENTITY_ECS_IDENTIFIER_TYPE=uint{e}_t"], opt="-O2", asan=False)


@check("C18", VALS + "all lists, ranges, nested sub-views and iterator operation sequences within the bounds; AddressSanitizer as memory oracle",
       "Lists of up to 4 (thorough 5) elements, all start/end/offset/count values from 0 to size+2 and near the overflow limits.", lambda: [view(), view(True)])
def c18(s, tier):
    q = tier == "quick"
    prebuild(view, lambda: view(True))
    for u in (False, True):
        for (n, nest, ops) in [(4, 2, 2)] if q else [(5, 3, 2), (3, 2, 3)]:
            s.pool([Job(view(u), ["--n", n, "--nest", nest, "--ops", ops, "--shard", f"{i}/24"], timeout=700) for i in range(24)], 120 if q else 800,
                   f"{'unchecked' if u else 'checked'} build: lists of up to {n} elements, {nest} nested sub-views, {ops} iterator operations from begin and end")
    s.assumptions += ["The view outlives its iterators and the list outlives the view."]


@check("C19", VALS + "with 16 bit fields all 2^32 handles, with 32 bit fields all combinations of boundary values",
       "Pairs for equality and ordering are enumerated over boundary values.", lambda: [entity(n) for n in ENT])
def c19(s, tier):
    q = tier == "quick"
    prebuild(*[lambda n=n: entity(n) for n in ENT])
    for n, (i, g, e) in ENT.items():
        b = 2 if q or n == "e16" else 3
        s.pool([Job(entity(n), ["--bits", b, "--shard", f"{k}/8"], timeout=700) for k in range(8)], 100 if q else 800,
               f"field widths index {i}, generation {g}, identifier {e}: " + ("all 2^32 handle values" if n == "e16" else f"all combinations of fields with at most {b} bits different from 0 or ~0"))


# ------------------------------------------------------------------------------------------- performance traces
def trace(m):
    return lib.build(f"trace{m}", "trace.cc", SMALL + ["TECS_ENABLE_PERFORMANCE_TRACING", f"TECS_PERFORMANCE_TRACING_MAX_EVENTS={m}"], oracle=["trace_oracle.cc"])


TRK = "-rbRwnvgWacu"


@check("C20", SCHED + "; plus all sequential histories of trace control and transactions; oracle: lock automaton per thread and per resource, event counts "
       "against the transactions run in the traced interval, CSV text against the events",
       "12 transaction kinds, traces around whole runs and started/stopped while transactions run, event limits of 3, 9 and 64.", lambda: [trace(3), trace(64), trace(9)])
def c20(s, tier):
    q = tier == "quick"
    prebuild(lambda: trace(3), lambda: trace(64), lambda: trace(9))
    ign = "lostupdate,snapshot"
    for m in (3, 64, 9):
        exe = trace(m)
        d = 5 if q else 6
        s.pool([Job(exe, ["--depth", d, "--shard", f"{i}/14", "--secs", 20 if q else 200], timeout=700) for i in range(14)], 60 if q else 500,
               f"sequential trace histories of {d} operations, at most {m} events", confirm_history)
    if s.violations:
        return
    pairs_ = [f"!{a}|{b}" for i, a in enumerate(TRK) for b in TRK[i:]]
    held = [f"!h{a}|{b}" for a in TRK for b in TRK]
    ctl = [f"{c}|{k}" for c in ("ST", "SrT", "wST", "STST", "SDTE", "SaT") for k in list(TRK) + ["wr", "aw", "gg"]]
    explore(s, trace(64), pairs_, 3 if q else 5, ign, 90 if q else 600, "pairs of transactions in one trace", 15 if q else 60)
    explore(s, trace(64), held, 1 if q else 3, ign, 110 if q else 650, "one transaction held open", 15 if q else 60)
    explore(s, trace(64), ctl, 2 if q else 4, ign, 140 if q else 700, "trace started and stopped while transactions run", 15 if q else 60)
    explore(s, trace(3), ctl[:6] + pairs_[::3], 2 if q else 4, ign, 150 if q else 750, "event limit 3", 15 if q else 60)
    explore(s, trace(64), ["!r|w|a", "!b|v|w", "ST|w|a", "SwT|r|u", "!W|g|R"], 1 if q else 2, ign, 160 if q else 850, "three threads", 15 if q else 60)
    s.assumptions += MEM_ASSUME + ["StartTrace() and StopTrace() are called by one thread at a time.", "The returned events are read before the next StartTrace()."]


# ------------------------------------------------------------------------------------------- compile time permissions
@check("C16", "exhaustive enumeration of programs (lock type x operation) through the compiler, each verdict compared with the permission lattice; "
       "all conversions between lock types through type traits",
       "Explicit-state exploration of a finite program space: 28 permission sets in several spellings times about 320 operations. One compiler (clang).")
def c16(s, tier):
    import perm
    perm.check(s, tier)
    s.assumptions += ["clang's verdict on a program is the verdict of the library.", "Two entity components and one global component represent all component lists."]


# ------------------------------------------------------------------------------------------- build configurations
WIDTHS = {"32": [], "16": ["TECS_ENTITY_INDEX_TYPE=uint16_t", "TECS_ENTITY_GENERATION_TYPE=uint16_t", "TECS_ENTITY_ECS_IDENTIFIER_TYPE=uint8_t"],
          "32w": ["TECS_ENTITY_ECS_IDENTIFIER_TYPE=uint16_t"]}
# (standard, unchecked, header only, tracing, batch, field widths)
CFG_Q = [(20, 0, 0, 0, 1000, "32"), (17, 1, 1, 0, 4, "32"), (20, 1, 0, 1, 1, "16"), (17, 0, 1, 1, 12, "32w"), (20, 0, 1, 0, 1, "16"), (17, 1, 0, 0, 12, "32w"),
         (17, 0, 0, 1, 4, "16"), (20, 1, 1, 1, 4, "32")]
CFG_T = CFG_Q + [(std, u, h, t, (4, 1, 12)[(std + u + h + 2 * t) % 3], ("32", "16", "32w")[(u + 2 * h + t + std // 20) % 3])
                 for std in (17, 20) for u in (0, 1) for h in (0, 1) for t in (0, 1)]
CFG_T = [c for i, c in enumerate(CFG_T) if c not in CFG_T[:i]] + [(20, 1, 1, 0, 1000, "16")]


def cfg_build(kind, c):
    std, u, h, t, batch, w = c
    d = WIDTHS[w] + [f"TECS_ENTITY_ALLOCATION_BATCH_SIZE={batch}", "TECS_SPINLOCK_RETRY_YIELD=0"]
    d += ["TECS_UNCHECKED_MODE"] if u else []
    d += ["TECS_HEADER_ONLY"] if h else []
    d += ["TECS_ENABLE_PERFORMANCE_TRACING", "TECS_PERFORMANCE_TRACING_MAX_EVENTS=8"] if t else []
    return lib.build("cfg_" + kind + "_" + "_".join(map(str, c)), kind + ".cc", d, std=f"c++{std}", header_only=bool(h),
                     oracle=["oracle.cc"] if kind == "menu" else [])


def cfg_name(c):
    std, u, h, t, batch, w = c
    return f"C++{std} {'unchecked' if u else 'checked'} {'header-only' if h else 'library'} {'traced' if t else 'untraced'}, batch {batch}, {w} bit fields"


CFG_HIST = [("c08", 3, 5, 2, 4, 3, "0x7ff"), ("c11", 0, 8, 3, 4, 3, "0x7"), ("c10", 1, 6, 1, 6, 4, "0x1"), ("c12", 0, 8, 3, 4, 1, "0x701"), ("c12b", 0, 6, 3, 3, 1, "0x1901"), ("c09", 0, 8, 4, 4, 4, "0x1"),
            ("c14", 0x11, 8, 3, 4, 2, "0x125"), ("c14", 0x61, 5, 2, 4, 2, "0x5"), ("c23", 0, 6, 2, 5, 2, "0x105"), ("c23", 1, 5, 2, 4, 2, "0x7"), ("c11m", 5, 9, 3, 1, 3, "0x3")]
CFG_ONLY = "current,previous,committed,list,iter,global,handle,event,release," + HARD
CFG_PAIRS = [0, 1, 3, 4, 6, 8, 10, 11, 12, 14, 17, 19, 22]


@check("C22", HIST + "every configuration compared with the same model on the same histories; plus " + SCHED + " of transaction pairs in every configuration",
       "A covering set of configurations (thorough: the full product of language standard, checking, library form and tracing), batch sizes 1, 4, 12, 1000, "
       "three sets of field widths.")
def c22(s, tier):
    from concurrent.futures import ThreadPoolExecutor
    q = tier == "quick"
    cfgs = CFG_Q if q else CFG_T
    with ThreadPoolExecutor(4) as ex:
        hb = list(ex.map(lambda c: cfg_build("hist", c), cfgs))
        mb = list(ex.map(lambda c: cfg_build("menu", c), cfgs))
    deep = 0 if q else 1
    jobs = []
    for c, exe in zip(cfgs, hb):
        for (mode, init, depth, tx, body, handles, kinds) in CFG_HIST:
            big = c[4] == 1000
            d = depth - 1 if big and mode != "c11m" else depth
            d += deep if mode in ("c12", "c14", "c11", "c09") else 0
            for i in range(2 if q else 4):
                jobs.append(Job(exe, ["--mode", mode, "--init", init, "--depth", d, "--tx", tx, "--body", body + deep, "--handles", handles, "--kinds", kinds,
                                      "--sdepth", 3, "--only", CFG_ONLY, "--shard", f"{i}/{2 if q else 4}", "--secs", 60 if q else 200], timeout=300))
    s.pool(jobs, 110 if q else 550, f"{len(CFG_HIST)} sets of histories in {len(cfgs)} configurations ({'; '.join(map(cfg_name, cfgs))})", confirm_history)
    if s.violations:
        return
    jobs = [Job(exe, ["--run", x, "--pb", 1 if q else 2, "--ignore", "race", "--secs", 10 if q else 30]) for exe in mb for x in pairs(CFG_PAIRS)]
    jobs += [Job(exe, ["--run", x, "--pb", 1, "--ignore", "race", "--secs", 10 if q else 30]) for exe in mb for x in (TRIP_Q[:4] if q else TRIP_Q)]
    s.pool(jobs, 170 if q else 830, f"concurrent transactions ({len(CFG_PAIRS)} kinds in pairs, selected triples) in the same configurations")
    s.assumptions += HIST_ASSUME[1:] + MEM_ASSUME + ["Programs stay within the rules: no nested transactions and no handles of other instances in header-only builds, "
                                                       "no invalid use in unchecked builds."]
