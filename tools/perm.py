"""C16: enumeration of all (lock type, operation) programs through the compiler.

A program is one operation on a variable of one lock type. The model is the permission lattice: for components A, B and the
global G the level none < read < write, plus AddRemove (everything). expected(program) says whether it must compile.
Programs on one lock type are compiled together, one per line; every compiler error is attributed to the line that it was
reported in or instantiated from. Each mismatch is confirmed by compiling that single program alone.
"""
import itertools, json, os, re, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
import lib

COMP = "ABG"


class P(tuple):
    """(level A, level B, level G, add/remove)"""
    @property
    def ar(self):
        return self[3]

    def lv(self, c):
        return 2 if self[3] else self[COMP.index(c)]

    def le(self, o):
        return (o.ar or not self.ar) and all(self.lv(c) <= o.lv(c) for c in COMP)

    def readonly(self):
        return P(tuple(min(1, self.lv(c)) for c in COMP) + (False,))

    def name(self):
        return "AR" if self.ar else "".join(c + "-rw"[self.lv(c)] for c in COMP)


ALL = [P(t + (False,)) for t in itertools.product((0, 1, 2), repeat=3)] + [P((2, 2, 2, True))]


def flat(p):
    """Canonical permission argument list."""
    if p.ar:
        return ["AddRemove"]
    r = [c for c in COMP if p.lv(c) == 1]
    w = [c for c in COMP if p.lv(c) == 2]
    return ([f"Read<{', '.join(r)}>"] if r else []) + ([f"Write<{', '.join(w)}>"] if w else [])


def lock(args, kind="Lock", ecs="E"):
    return f"{kind}<{', '.join([ecs] + list(args))}>"


def spellings(p, tier):
    """(name, C++ type) of the ways to write a lock type with permissions p."""
    f = flat(p)
    out = [("flat", lock(f))]
    out.append(("dynamic", lock(f, "DynamicLock")))
    out.append(("nested in a const lock", lock([f"const {lock(f)}"])))
    out.append(("nested in a dynamic lock", lock([lock(f, "DynamicLock")])))
    out.append(("nested in a const dynamic lock", lock([f"const {lock(f, 'DynamicLock')}"])))
    out.append(("nested in a lock", lock([lock(f)], "DynamicLock")))
    if p.ar:
        out.append(("with redundant permissions", lock(["Read<A>", "WriteAll", "AddRemove", "Write<>"])))
        out.append(("nested next to others", lock(["ReadAll", lock(["Read<A>", lock(["AddRemove"])])])))
    else:
        lv = [p.lv(c) for c in COMP]
        if min(lv) == 2:
            out.append(("WriteAll", lock(["WriteAll"])))
        if min(lv) >= 1:
            out.append(("ReadAll", lock(["ReadAll"] + [f"Write<{c}>" for c in COMP if p.lv(c) == 2])))
        # one argument per component, writers also named as readers, nested lock in the middle
        parts = [f"Write<{c}>" if p.lv(c) == 2 else f"Read<{c}>" for c in reversed(COMP) if p.lv(c)]
        red = [f"Read<{c}, {c}>" for c in COMP if p.lv(c) == 2]
        if len(parts) > 1 or red:
            out.append(("split", lock(red + parts)))
        if parts:
            out.append(("nested next to others", lock(parts[:1] + [lock(parts[1:] + ["Read<>"])])))
    if tier != "quick":
        out.append(("const dynamic nested", lock([f"const {lock(f, 'DynamicLock')}"], "DynamicLock")))
        out.append(("nested twice", lock([lock([lock(f)], "DynamicLock")])))
        out.append(("empty lists", lock(["Read<>"] + f + ["Write<>"])))
    return out


def special():
    """Lock types that the library itself produces: (name, type, permissions)."""
    out = []
    for p in ALL:
        f = lock(flat(p))
        out.append((f"read-only subset of {p.name()}", f"decltype(std::declval<{f}>().ReadOnlySubset())", p.readonly()))
        out.append((f"StartTransaction of {p.name()}", f"std::remove_reference_t<decltype(std::declval<E &>().StartTransaction<{', '.join(flat(p))}>())>", p))
        out.append((f"Subset {p.name()} of AR", f"decltype(std::declval<Lock<E, AddRemove>>().Subset<{', '.join(flat(p))}>())", p))
        out.append((f"TryLock {p.name()}", f"typename decltype(std::declval<DynamicLock<E>>().TryLock<{', '.join(flat(p))}>())::value_type", p))
        out.append((f"read-only subset of dynamic {p.name()}", f"decltype(std::declval<{lock(flat(p), 'DynamicLock')}>().ReadOnlySubset())", p.readonly()))
    return out


def ops():
    """(name, statement, expected(permissions))"""
    O = []

    def op(code, exp, group=0):
        for x in ("XG", "X"):
            if re.search(rf"\b{x}\b", code):       # a type of its own: the compiler reports each failing instantiation once
                code = re.sub(rf"\b(ref)?{x}\b", lambda m: f"{x}<{len(O)}>" if not m.group(1) else f"ref{x}<{len(O)}>", code)
                break
        O.append((code, exp if callable(exp) else (lambda p, e=exp: e), group))
    R = lambda c: (lambda p: p.lv(c) >= 1)
    W = lambda c: (lambda p: p.lv(c) == 2)
    AR = lambda p: p.ar
    for c in "AB":
        op(f"takeref<{c}>(e.Get<{c}>(l));", R(c))
        op(f"{c} &r = e.Get<{c}>(l); (void)r;", W(c))
        op(f"e.Get<{c}>(l).v = 1;", W(c))
        op(f"const {c} &r = e.Get<const {c}>(l); (void)r;", R(c))
        op(f"{c} &r = e.Get<const {c}>(l); (void)r;", False)
        op(f"auto &r = e.Get<{c}, L, {c}>(l); (void)r;", W(c))
        op(f"auto &r = e.Get<{c}, L, const {c}>(l); (void)r;", R(c), 1)
        op(f"const {c} &r = e.GetPrevious<{c}>(l); (void)r;", R(c))
        op(f"{c} &r = e.GetPrevious<{c}>(l); (void)r;", False)
        op(f"e.Set<{c}>(l, ref{c});", W(c))
        op(f"e.Set<{c}>(l, {c}(1));", W(c))
        op(f"e.Set<{c}>(l);", W(c))
        op(f"e.Set<{c}>(l, 7);", W(c))
        op(f"{c} &r = e.Set<{c}>(l, 3L); (void)r;", W(c))
        op(f"e.Unset<{c}>(l);", AR)
        op(f"(void)(e.Has<{c}>(l) || e.Had<{c}>(l));", True)
        op(f"takeref<EntityView>(l.template EntitiesWith<{c}>());", True)
        op(f"takeref<EntityView>(l.template PreviousEntitiesWith<{c}>());", True)
        # entity components need an entity
        op(f"(void)l.template Get<{c}>();", False)
        op(f"(void)l.template GetPrevious<{c}>();", False)
        op(f"l.template Set<{c}>(ref{c});", False)
        op(f"l.template Set<{c}>({c}(1));", False)
        op(f"(void)l.template Has<{c}>();", False)
        op(f"(void)l.template Had<{c}>();", False)
        op(f"l.template Unset<{c}>();", False)
    op("e.Unset<A, B>(l);", AR)
    op("(void)(e.Has<A, B>(l) && e.Had<B, A>(l) && e.Exists(l) && e.Existed(l));", True)
    op("const Entity &ce = e; takeref<A>(ce.Get<A>(l));", R("A"), 1)
    op("const Entity &ce = e; ce.Set<A>(l, short(7));", W("A"), 1)
    op("const Entity &ce = e; ce.Unset<B, A>(l);", AR, 1)
    op("const Entity &ce = e; ce.Destroy(l);", AR, 1)
    op("e.Destroy(l);", AR)
    op("Entity n = l.NewEntity(); (void)n;", AR)
    op("takeref<EntityView>(l.Entities()); takeref<EntityView>(l.PreviousEntities());", True)
    # globals
    op("takeref<G>(l.template Get<G>());", R("G"))
    op("G &r = l.template Get<G>(); (void)r;", W("G"))
    op("l.template Get<G>().v = 1;", W("G"))
    op("const G &r = l.template Get<const G>(); (void)r;", R("G"))
    op("G &r = l.template Get<const G>(); (void)r;", False)
    op("auto &r = l.template Get<G, G>(); (void)r;", W("G"))
    op("auto &r = l.template Get<G, const G>(); (void)r;", R("G"), 1)
    op("const G &r = l.template GetPrevious<G>(); (void)r;", R("G"))
    op("G &r = l.template GetPrevious<G>(); (void)r;", False)
    op("l.template Set<G>(refG);", W("G"))
    op("l.template Set<G>(G(1));", W("G"))
    op("l.template Set<G>();", W("G"))
    op("G &r = l.template Set<G>(3L); (void)r;", W("G"))
    op("l.template Unset<G>();", AR)
    op("(void)(l.template Has<G>() && l.template Had<G>());", True)
    op("(void)e.Get<G>(l);", False)
    op("(void)e.GetPrevious<G>(l);", False)
    op("e.Set<G>(l, refG);", False)
    op("e.Set<G>(l, G(1));", False)
    op("e.Unset<G>(l);", False)
    op("(void)e.Has<G>(l);", False)
    op("(void)e.Had<G>(l);", False)
    op("(void)e.Has<A, G>(l);", False)
    op("e.Unset<A, G>(l);", False)
    op("takeref<EntityView>(l.template EntitiesWith<G>());", False)
    op("takeref<EntityView>(l.template PreviousEntitiesWith<G>());", False)
    # not part of the instance
    op("(void)e.Get<X>(l);", False)
    op("(void)e.GetPrevious<X>(l);", False)
    op("e.Set<X>(l, refX);", False)
    op("e.Set<X>(l, X(1));", False)
    op("e.Unset<X>(l);", False)
    op("(void)e.Has<X>(l);", False)
    op("takeref<EntityView>(l.template EntitiesWith<X>());", False)
    op("(void)l.template Get<XG>();", False)
    op("l.template Set<XG>(refXG);", False)
    op("l.template Set<XG>(XG(1));", False)
    op("l.template Unset<XG>();", False)
    op("(void)l.template Has<XG>();", False)
    # observers
    op("(void)l.template Watch<EntityEvent>();", AR)
    op("(void)l.template Watch<ComponentEvent<A>>();", AR)
    op("(void)l.template Watch<ComponentEvent<G>>();", AR)
    op("(void)l.template Watch<ComponentEvent<X>>();", False)
    op("l.StopWatching(obsE);", AR)
    op("l.StopWatching(obsA);", AR)
    op("obsE.Stop(l);", AR)
    op("obsG.Stop(l);", AR)
    op("(void)(obsE.Poll(l, evE) || obsA.Poll(l, evA) || obsG.Poll(l, evG));", True)
    # derived locks
    op("auto r = l.ReadOnlySubset(); takeref<A>(e.Get<A>(r));", R("A"))
    op("auto r = l.ReadOnlySubset(); takeref<G>(r.template Get<G>());", R("G"))
    op("auto r = l.ReadOnlySubset(); e.Set<A>(r, char(1));", False)
    op("auto r = l.ReadOnlySubset(); e.Set<B>(r, refB);", False)
    op("auto r = l.ReadOnlySubset(); (void)r.NewEntity();", False)
    op("DynamicLock<E> d(l); (void)d.template TryLock<AddRemove>();", True)
    op("DynamicLock<E> d = l.ReadOnlySubset(); (void)d;", True)
    op("Lock<E> n = l; (void)n;", True)
    op("L n = l; L m(n); takeref<L>(m);", True)
    # other instance types
    op("Lock<E2> n = l; (void)n;", False)
    op("Lock<E2> n(l); (void)n;", False)
    op("Lock<E2, Read<A>> n = l; (void)n;", False)
    op("DynamicLock<E2> n(l); (void)n;", False)
    op("Lock<E2, Read<A>> n = ecs2.StartTransaction<Read<A>>(); L m = n; takeref<L>(m);", False)
    for q in ALL:
        sub = lambda p, q=q: q.le(p)
        Q, D, a = lock(flat(q)), lock(flat(q), "DynamicLock"), ", ".join(flat(q))
        op(f"{Q} n = l; takeref<{Q}>(n);", sub)
        op(f"{Q} n(l); (void)n; // direct", sub)
        op(f"take<{Q}>(l);", sub)
        op(f"auto n = l.template Subset<{a}>(); takeref<{Q}>(n);", sub)
        op(f"{D} n(l); (void)n;", sub)
        op(f"take<{D}>(l); // dynamic", sub, 1)
        op(f"auto r = l.ReadOnlySubset(); take<{Q}>(r);", lambda p, q=q: q.le(p.readonly()))
        op(f"DynamicLock<E> d(l); auto t = d.template TryLock<{a}>(); {Q} n = *t; (void)n;", True)
    return O


OPS = ops()
ERR = re.compile(r"^([^:\s]+):(\d+):(?:\d+:)? (error|fatal error|note|warning): (.*)$")


class Compiler:
    def __init__(self, work, std="c++20", defines=()):
        self.work, self.std = work, std
        self.base = ["clang++", f"-std={std}", "-fsyntax-only", "-ferror-limit=0", "-ftemplate-backtrace-limit=0", "-fno-caret-diagnostics",
                     "-fno-color-diagnostics", "-w", "-I" + lib.REPO + "/inc", "-I" + lib.MC + "/compile"] + ["-D" + d for d in defines]
        self.pch = os.path.join(work, "perm.pch")
        r = lib.sh([c for c in self.base if c != "-fsyntax-only"] + ["-x", "c++-header", os.path.join(lib.MC, "compile/perm.hh"), "-o", self.pch])
        if r.returncode:
            raise lib.BuildError("precompiled header:\n" + r.stdout[-4000:])

    def compile(self, text, tag):
        """Returns the set of lines of the program that have errors, and the messages."""
        src = os.path.join(self.work, tag + ".cc")
        with open(src, "w") as f:
            f.write(text)
        r = subprocess.run(self.base + ["-include-pch", self.pch, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        bad, cur, msg = {}, None, ""
        unattributed = []
        for line in r.stdout.split("\n"):
            m = ERR.match(line)
            if not m:
                continue
            f, n, kind, text = m.group(1), int(m.group(2)), m.group(3), m.group(4)
            if kind in ("error", "fatal error"):
                if msg and cur is None:
                    unattributed.append(msg)
                cur, msg = None, text
                if os.path.abspath(f) == src:
                    cur = n
                    bad.setdefault(n, msg)
            elif kind == "note" and msg and cur is None and os.path.abspath(f) == src and ("instantiation of" in text or "requested here" in text or
                                                                                           "while" in text or "in call to" in text):
                cur = n
                bad.setdefault(n, msg)
        if msg and cur is None:
            unattributed.append(msg)
        os.unlink(src)
        if r.returncode not in (0, 1):
            raise lib.BuildError("compiler failed: " + r.stdout[-2000:])
        return r.returncode, bad, unattributed


def program(ltype, statements):
    """One function per statement; statement i is on line i + 2."""
    return f"using L = {ltype};\n" + "".join(f"void f{i}(const L &l, Entity e) {{ {s} \n}}\n" for i, s in enumerate(statements))


def line_of(i):
    return 2 + 2 * i


def run(s, comp, locks, deadline, title):
    """locks: list of (name, type, permissions)"""
    stat = dict(programs=0, ok=0, bad=0, singles=0, skipped=0)
    mism = []

    def one(k):
        name, t, p = locks[k]
        if s.elapsed() > deadline or s.violations:
            stat["skipped"] += 1
            return
        for g in (0, 1):
            group = [o for o in OPS if o[2] == g]
            rc, bad, un = comp.compile(program(t, [o[0] for o in group]), f"p{k}_{g}")
            for i, (code, exp, _) in enumerate(group):
                stat["programs"] += 1
                want, got = exp(p), not (line_of(i) in bad or line_of(i) + 1 in bad)
                stat["ok" if want else "bad"] += 1
                if want != got:
                    mism.append((name, t, p, code, want, f"{k}_{g}_{i}"))

    with ThreadPoolExecutor(lib.NPROC) as ex:
        list(ex.map(one, range(len(locks))))

    real = []

    def confirm(m):
        if real or s.elapsed() > deadline + 60:
            stat["skipped"] += 1 if not real else 0
            return
        name, t, p, code, want, tag = m
        rc, bad, un = comp.compile(program(t, [code]), "s" + tag)
        stat["singles"] += 1
        if (rc == 0) != want:
            real.append((name, t, p, code, want, "; ".join(list(bad.values()) + un)))

    with ThreadPoolExecutor(lib.NPROC) as ex:
        list(ex.map(confirm, mism))
    s.count(stat["programs"], stat["programs"], stat["programs"])
    if stat["skipped"]:
        s.exhaustive = False
    s.bound(f"{title}: {len(locks)} lock types x {len(OPS)} operations = {stat['programs']} programs, {stat['ok']} must compile, {stat['bad']} must not, "
            f"{stat['singles']} compiled alone" + (f", {stat['skipped']} not done (time budget)" if stat["skipped"] else ""))
    for (name, t, p, code, want, msg) in real[:1]:
        s.violation(f"lock type {t} ({name}, permissions {p.name()}): `{code}` " + (f"must compile but does not: {msg}" if want else "must not compile but does"),
                    dict(text=program(t, [code]), std=comp.std))
    return stat


TRAITS = [("std::is_convertible_v<{S}, {T}>", "implicitly convertible"), ("std::is_constructible_v<{T}, {S}>", "constructible"),
          ("std::is_convertible_v<const {S} &, {T}>", "implicitly convertible (reference)")]


def traits(s, comp, sources, targets, title):
    """Convertibility of every source lock type to every (non dynamic) target lock type, as seen by type traits."""
    tests = []
    for (sn, st, sp) in sources:
        for (tn, tt, tp) in targets:
            if tp is None and sp is None:
                continue
            for (e, w) in TRAITS:
                tests.append((e.format(S=f"S", T=f"T"), st, tt, sp, tp, tp is not None and sp is not None and tp.le(sp), w))
    n = 40 * 28
    chunks = [tests[i:i + n] for i in range(0, len(tests), n)]

    def one(k):
        text = "".join(f"namespace n{i} {{ using S = {t[1]}; using T = {t[2]}; static_assert({'' if t[5] else '!'}({t[0]})); }}\n" for i, t in enumerate(chunks[k]))
        rc, bad, un = comp.compile(text, f"t{k}")
        out = []
        for i, t in enumerate(chunks[k]):
            if i + 1 in bad:
                # a trait alone may be misleading: try the conversion itself
                stmt = {"implicitly convertible": "T n = l; (void)n;", "constructible": "T n(l); (void)n;"}.get(t[6], "T n = l; (void)n;")
                rc2, b2, u2 = comp.compile(f"using T = {t[2]};\n" + program(t[1], [stmt]), f"u{k}_{i}")
                if (rc2 == 0) != t[5]:
                    out.append(t)
        return out
    with ThreadPoolExecutor(lib.NPROC) as ex:
        res = [x for r in ex.map(one, range(len(chunks))) for x in r]
    s.count(len(tests), len(tests), len(tests))
    s.bound(f"{title}: {len(sources)} x {len(targets)} lock types, {len(TRAITS)} traits each")
    for t in res[:1]:
        s.violation(f"{t[1]} {'must' if t[5] else 'must not'} be {t[6]} to {t[2]}", dict(text=str(t)))


def check(s, tier):
    os.makedirs(lib.BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="perm", dir=lib.BUILD)
    try:
        comp = Compiler(work)
        fl = [("flat", lock(flat(p)), p) for p in ALL]
        var = [(n, t, p) for p in ALL for (n, t) in spellings(p, tier)]
        q = tier == "quick"
        foreign = [("other instance", lock(a, "Lock", "E2"), None) for a in ([], ["Read<A>"], ["ReadAll"], ["WriteAll"], ["AddRemove"])]
        traits(s, comp, var + special() + foreign, fl + foreign[:1], "convertibility")
        if s.violations:
            return
        if not q:
            traits(s, comp, fl + foreign, [v for v in var if v[0] != "dynamic" and "const dynamic" not in v[0]], "convertibility to all spellings")
        run(s, comp, var, 150 if q else 500, "operations on lock types in all spellings")
        if s.violations:
            return
        run(s, comp, special() if not q else [x for x in special() if x[0].startswith(("read-only subset of dynamic", "Start"))], 200 if q else 700, "operations on lock types made by the library")
        if s.violations:
            return
        w2 = tempfile.mkdtemp(prefix="v", dir=work)
        some = [x for x in fl if x[2] in ((0, 0, 0, False), (1, 0, 2, False), (0, 2, 1, False), (2, 2, 2, True))]
        run(s, Compiler(w2, "c++20", ["PERM_WIDE"]), some if q else fl, 230 if q else 750, "operations on lock types of an instance with 67 component types")
        if s.violations or q:
            return
        for std, d in (("c++17", ("PERM_WIDE",)), ("c++17", ()), ("c++20", ("TECS_UNCHECKED_MODE",)), ("c++20", ("TECS_HEADER_ONLY",))):
            w2 = tempfile.mkdtemp(prefix="v", dir=work)
            run(s, Compiler(w2, std, d), fl, 840, f"operations on flat lock types, {std} {' '.join(d)}")
            if s.violations:
                return
    finally:
        shutil.rmtree(work, ignore_errors=True)
