#include "trace.hh"

#define TECS_EXTERNAL_TRACE_TRANSACTION_STARTING(p) h::external(1, p)
#define TECS_EXTERNAL_TRACE_TRANSACTION_STARTED(p) h::external(2, p)
#define TECS_EXTERNAL_TRACE_TRANSACTION_ENDING(p) h::external(3, p)
#define TECS_EXTERNAL_TRACE_TRANSACTION_ENDED(p) h::external(4, p)
#include <Tecs.hh>

#include <cstdlib>
#include <cstring>
#include <sstream>
#include <string>
#include <time.h>
#include <vector>

namespace h {
    struct A { uint32_t v = 0; A() {} A(uint32_t v) : v(v) {} };
    struct B { uint32_t v = 0; B() {} B(uint32_t v) : v(v) {} };
    struct G { uint32_t v = 0; G() {} G(uint32_t v) : v(v) {} };
}
TECS_GLOBAL_COMPONENT(h::G);
TECS_NAME_COMPONENT(h::A, "Alpha");
TECS_NAME_COMPONENT(h::G, "Glob");
namespace h {
    using ECS = Tecs::ECS<A, B, G>;
    using namespace Tecs;
    static ECS *world;
    static Entity ent;
    static char prog[mc::MAXT][64];
    static Ev evs[NR][MAXEV];

    static uint64_t idBits(std::thread::id id) { return (uint64_t)std::hash<std::thread::id>{}(id); }
    static int threadOf(std::thread::id id) { return threadById(idBits(id)); }
    // The oracle compares the real-time order of calls and returns only if the trace is controlled by one of the threads.
    static bool whole, sequential;
    void external(int phase, const char *permissions) {
        MC_CHECK("trace", permissions && *permissions, "an external trace hook gets no permission name");
        hookCalled(mc::self(), phase, (uint64_t)std::chrono::steady_clock::now().time_since_epoch().count());
    }
    static void callStamp() {
        if (!whole && !sequential) mc::stamp_begin();
    }
    static void returnStamp() {
        if (!whole && !sequential) mc::stamp_end();
    }
    static int typeOf(TraceEvent::Type t) {
        switch (t) {
        case TraceEvent::Type::Invalid: return T_INVALID;
        case TraceEvent::Type::TransactionStart: return T_START;
        case TraceEvent::Type::TransactionEnd: return T_END;
        case TraceEvent::Type::ReadLockWait: return T_RWAIT;
        case TraceEvent::Type::ReadLock: return T_R;
        case TraceEvent::Type::ReadUnlock: return T_RU;
        case TraceEvent::Type::WriteLockWait: return T_WWAIT;
        case TraceEvent::Type::WriteLock: return T_W;
        case TraceEvent::Type::CommitLockWait: return T_CWAIT;
        case TraceEvent::Type::CommitLock: return T_C;
        case TraceEvent::Type::CommitUnlock: return T_CU;
        case TraceEvent::Type::WriteUnlock: return T_WU;
        }
        return -1;
    }
    static void examine(PerformanceTrace &t) {
        nonstd::span<TraceEvent> *s[NR] = {&t.transactionEvents, &t.metadataEvents};
        MC_CHECK("trace", t.componentEvents.size() == 3 && t.componentNames.size() == 3, "a trace must have one entry per component");
        for (int i = 0; i < 3; i++) s[2 + i] = &t.componentEvents[i];
        MC_CHECK("trace", t.componentNames[0] == "Alpha" && t.componentNames[1] == "Component1" && t.componentNames[2] == "Glob", "wrong component names");
        int n[NR];
        for (int r = 0; r < NR; r++) {
            n[r] = (int)s[r]->size();
            for (int i = 0; i < n[r] && i < MAXEV; i++) {
                auto &e = (*s[r])[i];
                evs[r][i] = Ev{typeOf(e.type), threadOf(e.thread), (uint64_t)e.time.time_since_epoch().count()};
            }
        }
        checkTrace(n, evs, false);
    }
    // the text must say exactly what the trace contains
    static void examineCsv(PerformanceTrace &t) {
        t.SetThreadName("main");
        std::ostringstream ss;
        t.SaveToCSV(ss);
        std::string text = ss.str(), line;
        std::istringstream in(text);
        MC_CHECK("csv", (bool)std::getline(in, line), "no header");
        MC_CHECK("csv", line == "Transaction Event,Transaction Thread Id,Transaction TimeNs,Metadata Event,Metadata Thread Id,Metadata TimeNs,Alpha Event,Alpha Thread Id,Alpha TimeNs,"
            "Component1 Event,Component1 Thread Id,Component1 TimeNs,Glob Event,Glob Thread Id,Glob TimeNs", "wrong header: %s", line.c_str());
        std::vector<nonstd::span<TraceEvent>> s = {t.transactionEvents, t.metadataEvents, t.componentEvents[0], t.componentEvents[1], t.componentEvents[2]};
        size_t rows = 0;
        for (auto &x : s) rows = std::max(rows, (size_t)x.size());
        for (size_t i = 0; i < rows; i++) {
            MC_CHECK("csv", (bool)std::getline(in, line), "row %zu of %zu is missing", i, rows);
            std::ostringstream want;
            for (int r = 0; r < NR; r++) {
                if (r) want << ",";
                if (i < s[r].size()) want << s[r][i].type << "," << (threadOf(s[r][i].thread) == mc::self() ? std::string("main") : t.GetThreadName(s[r][i].thread)) << "," << (s[r][i].time.time_since_epoch().count());
                else want << ",,";
            }
            MC_CHECK("csv", line == want.str(), "row %zu is \"%s\", expected \"%s\"", i, line.c_str(), want.str().c_str());
        }
        // the exporter ends with one row of empty cells
        while (std::getline(in, line))
            for (char c : line) MC_CHECK("csv", c == ',', "extra row \"%s\"", line.c_str());
    }
    template<typename L>
    static void change(const L &lock, int k) {
        const Kind &K = kinds[k];
        if constexpr (is_add_remove_allowed<L>()) {
            if (K.c == 'a') lock.NewEntity();
            if (K.c == 'u') {
                uint32_t v = ent.Get<const A>(lock).v;
                ent.Unset<A>(lock);
                ent.Set<A>(lock, v + 1);
                wroteA();
            }
        } else {
            if constexpr (is_write_allowed<A, L>()) {
                if (K.mode[2] == M_COMMIT) {
                    ent.Get<A>(lock).v++;
                    wroteA();
                }
            }
            if constexpr (is_write_allowed<B, L>())
                if (K.mode[3] == M_COMMIT) ent.Set<B>(lock, 1u);
            if constexpr (is_write_allowed<G, L>())
                if (K.mode[4] == M_COMMIT) lock.template Set<G>(1u);
        }
        if constexpr (is_read_allowed<A, L>()) MC_CHECK("trace", ent.Get<const A>(lock).v <= writesOfA(), "the transaction is disturbed");
    }
    template<typename... P>
    static void tx(int k, bool hold) {
        callStamp();
        txBegin(mc::self(), k);
        {
            auto lock = world->StartTransaction<P...>();
            txStarted(mc::self());
            change(lock, k);
            if (hold) {
                mc::park();
                for (int t = 1; t < mc::MAXT; t++)
                    if (t != mc::self() && mc::thread_blocked(t)) mustWait(t);
            }
        }
        txEnd(mc::self());
        returnStamp();
    }
    static void runTx(int k, bool hold) {
        switch (kinds[k].c) {
        case '-': return tx<>(k, hold);
        case 'r': return tx<Read<A>>(k, hold);
        case 'b': return tx<Read<A, B>>(k, hold);
        case 'R': return tx<ReadAll>(k, hold);
        case 'w': return tx<Write<A>>(k, hold);
        case 'n': return tx<Write<A>>(k, hold);
        case 'v': return tx<Read<A>, Write<B>>(k, hold);
        case 'g': return tx<Write<G>>(k, hold);
        case 'W': return tx<WriteAll>(k, hold);
        default: return tx<AddRemove>(k, hold);
        }
    }
    static void start() {
        callStamp();
        traceStarting();
        world->StartTrace();
        traceStarted();
        returnStamp();
    }
    static void stopAndCheck(bool csv) {
        callStamp();
        traceStopping();
        auto t = world->StopTrace();
        returnStamp();
        examine(t);
        if (csv) examineCsv(t);
    }
    template<typename F>
    static bool throws(F f) {
        try {
            f();
        } catch (std::exception &) {
            return true;
        }
        return false;
    }
    static void init() {
        world = new ECS();
        resetAll(TECS_PERFORMANCE_TRACING_MAX_EVENTS);
        {
            auto lock = world->StartTransaction<AddRemove>();
            ent = lock.NewEntity();
            ent.Set<A>(lock, 0u);
            ent.Set<B>(lock, 0u);
            lock.Set<G>(0u);
        }
        setThreadId(0, idBits(std::this_thread::get_id()));
    }

    // ---------------------------------------------------------------------------------------- sequential histories
    enum { OP_START = NK, OP_STOP, NOPS };
    static bool on;
    static void step(void *p) {
        int o = *(int *)p;
        if (o < NK) runTx(o, false);
        else if (o == OP_START) {
            if (on) MC_CHECK("trace", throws([] { world->StartTrace(); }), "starting a second trace did not throw");
            else start();
            on = true;
        } else {
            if (!on) MC_CHECK("trace", throws([] { (void)world->StopTrace(); }), "stopping without a trace did not throw");
            else stopAndCheck(true);
            on = false;
        }
    }
    static void finishSeq(void *) {
        int o = OP_STOP;
        step(&o);
        {
            auto l = world->StartTransaction<AddRemove>();
            MC_CHECK("trace", ent.Get<const A>(l).v == writesOfA(), "the transactions are disturbed");
        }
        delete world;
    }
    static void setupSeq(void *) {
        init();
        on = false;
    }
    struct Search {
        int path[32], len, depth, reps;
        uint64_t nodes, leaves, ops, shardCounter;
        int shard, nshards;
        bool stop, capped;
        double deadline;
        char kind[32], msg[2048], sample[1024];
    };
    static Search *S;
    static double now() {
        timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        return t.tv_sec + t.tv_nsec * 1e-9;
    }
    static void pathText(char *b, size_t n) {
        size_t k = 0;
        for (int i = 0; i < S->len && k + 80 < n; i++)
            k += snprintf(b + k, n - k, "%s%s", i ? "; " : "", S->path[i] < NK ? kinds[S->path[i]].name : S->path[i] == OP_START ? "StartTrace" : "StopTrace");
    }
    static void failed(const char *e) {
        snprintf(S->kind, sizeof S->kind, "%s", mc::fail_kind());
        std::string m = e;
        char t[1024] = "";
        pathText(t, sizeof t);
        snprintf(S->msg, sizeof S->msg, "%s\nhistory: %s", m.c_str(), t);
        S->stop = true;
    }
    static void leaf() {
        S->leaves++;
        if (!S->sample[0]) pathText(S->sample, sizeof S->sample);
        mc::snap_push();
        const char *e = mc::guarded(finishSeq, nullptr);
        if (e) failed(e);
        mc::snap_restore();
        mc::snap_pop();
    }
    static void dfs() {
        S->nodes++;
        if ((S->nodes & 255) == 0 && S->deadline > 0 && now() > S->deadline) S->capped = true;
        if (S->stop || S->capped) return;
        if (S->len == S->depth) return leaf();
        mc::snap_push();
        for (int i = NOPS - 1; i >= 0 && !S->stop && !S->capped; i--) {
            if (S->len == 1 && (S->shardCounter++ % S->nshards) != (uint64_t)S->shard) continue;
            S->path[S->len++] = i;
            S->ops++;
            const char *e = mc::guarded(step, &i);
            if (e) failed(e);
            else dfs();
            if (S->stop) return;
            S->len--;
            mc::snap_restore();
        }
        mc::snap_pop();
    }
    static void js(const char *s) {
        putchar('"');
        for (; *s; s++) {
            if (*s == '"' || *s == '\\') printf("\\%c", *s);
            else if ((unsigned char)*s < 32) printf("\\u%04x", *s);
            else putchar(*s);
        }
        putchar('"');
    }
    static int seqMain(int argc, char **argv) {
        mc::seq_init();
        sequential = true;
        S = (Search *)mc::raw_alloc(sizeof(Search));
        S->nshards = 1;
        S->depth = 4;
        const char *replay = nullptr;
        double secs = 0;
        for (int i = 1; i + 1 < argc; i += 2) {
            std::string a = argv[i], v = argv[i + 1];
            if (a == "--depth") S->depth = atoi(v.c_str());
            else if (a == "--shard") sscanf(v.c_str(), "%d/%d", &S->shard, &S->nshards);
            else if (a == "--secs") secs = atof(v.c_str());
            else if (a == "--replay") replay = argv[i + 1];
            else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 3; }
        }
        double t0 = now();
        if (secs > 0) S->deadline = t0 + secs;
        const char *e = mc::guarded(setupSeq, nullptr);
        if (e) failed(e);
        else if (replay) {
            for (const char *p = replay; *p && !S->stop;) {
                char *q;
                int c = (int)strtol(p, &q, 10);
                if (q == p) { p++; continue; }
                p = q;
                S->path[S->len++] = c;
                if ((e = mc::guarded(step, &c))) failed(e);
            }
            if (!S->stop) leaf();
        } else
            dfs();
        printf("{\"scenario\":\"trace histories, depth %d\",\"result\":\"%s\",\"executions\":%llu,\"states\":%llu,\"transitions\":%llu,\"capped\":%s,\"depth\":%d,\"secs\":%.2f,\"sample\":", S->depth,
            S->stop ? "violation" : "ok", (unsigned long long)S->leaves, (unsigned long long)S->nodes, (unsigned long long)S->ops, S->capped ? "true" : "false", S->depth, now() - t0);
        js(S->sample);
        if (S->stop) {
            printf(",\"kind\":");
            js(S->kind);
            printf(",\"message\":");
            js(S->msg);
            printf(",\"history\":\"");
            for (int i = 0; i < S->len; i++) printf("%s%d", i ? "," : "", S->path[i]);
            printf("\"");
        }
        printf("}\n");
        return S->stop ? 1 : 0;
    }

    // ---------------------------------------------------------------------------------------- schedules
    // A leading '!' starts the trace before the threads and stops it after they have finished.
    static void setup() {
        init();
        if (whole) start();
    }
    static void body(int t) {
        setThreadId(t, idBits(std::this_thread::get_id()));
        bool hold = false;
        for (const char *p = prog[t]; *p; p++) {
            if (*p == 'h') hold = true;
            else if (*p == 'S') start();
            else if (*p == 'T') stopAndCheck(false);
            else if (*p == 'D') MC_CHECK("trace", throws([] { world->StartTrace(); }), "starting a second trace did not throw");
            else if (*p == 'E') MC_CHECK("trace", throws([] { (void)world->StopTrace(); }), "stopping without a trace did not throw");
            else {
                runTx(kindOf(*p), hold);
                hold = false;
            }
        }
    }
    static void finish() {
        if (whole) stopAndCheck(true);
        else MC_CHECK("trace", throws([] { (void)world->StopTrace(); }), "a trace is running");
        {
            auto l = world->StartTransaction<Read<A>>();
            MC_CHECK("trace", ent.Get<A>(l).v == writesOfA(), "the transactions are disturbed");
        }
        delete world;
    }
    static const mc::Scenario *resolve(const char *name) {
        static mc::Scenario s;
        s = {name, 1, setup, body, finish, 0};
        memset(prog, 0, sizeof prog);
        const char *p = name;
        whole = *p == '!';
        if (whole) p++;
        int t = 1, n = 0;
        for (; *p; p++) {
            if (*p == '|') {
                if (++t >= mc::MAXT) return nullptr;
                n = 0;
            } else if (n < 62)
                prog[t][n++] = *p;
        }
        s.nthreads = t;
        return &s;
    }
} // namespace h
int main(int argc, char **argv) {
    if (argc > 1 && !strcmp(argv[1], "--run")) return mc::main(argc, argv, nullptr, 0, h::resolve);
    return h::seqMain(argc, argv);
}
