// Harness "nest" (C17): which transactions may be started while others are active, per thread and per instance.
#include "rt.h"

#include <Tecs.hh>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <time.h>

namespace h {
    struct A { uint32_t v = 0; A() {} A(uint32_t v) : v(v) {} };
    struct B { uint32_t v = 0; B() {} B(uint32_t v) : v(v) {} };
    using namespace Tecs;
    using ECS = Tecs::ECS<A, B>;
    constexpr int MAX = TECS_MAX_ACTIVE_TRANSACTIONS_PER_THREAD;
#ifndef NEST_NI
#define NEST_NI 3
#define NEST_NT 2
#endif
    constexpr int NI = NEST_NI, NT = NEST_NT, NK = 4;
    constexpr bool DEEP = NT == 1; // one thread, many instances: first uses in order, no two rejected starts in a row
    // items: 1 metadata, 2 A
    static const int rp[NK] = {1 | 2, 1, 0, 1}, wp[NK] = {0, 2, 7, 0}, wr[NK] = {0, 2, 3, 0};
    static const char *kn[NK] = {"Read<A>", "Write<A>", "AddRemove", "none"};
    struct Held {
        int kind; // -1: none
        bool used;
        uint32_t seen, now;
        alignas(16) char lock[64];
    };
    struct World {
        ECS *ecs[NI];
        Entity e[NI];
        uint32_t val[NI], ents[NI];
        Held held[NT][NI];
        bool crossed, lastRejected;
    };
    static World W;
    template<typename... P>
    struct Op {
        using L = Lock<ECS, P...>;
        static void start(int i, char *at) { new (at) L(W.ecs[i]->template StartTransaction<P...>()); }
    };
    static void startAt(int i, int k, char *at) {
        switch (k) {
        case 0: return Op<Read<A>>::start(i, at);
        case 1: return Op<Write<A>>::start(i, at);
        case 2: return Op<AddRemove>::start(i, at);
        case 3: return Op<>::start(i, at);
        }
    }
    template<typename F>
    static void with(int k, char *at, F f) {
        switch (k) {
        case 0: return f(*(Lock<ECS, Read<A>> *)at);
        case 1: return f(*(Lock<ECS, Write<A>> *)at);
        case 2: return f(*(Lock<ECS, AddRemove> *)at);
        case 3: return f(*(Lock<ECS> *)at);
        }
    }
    static void use(int t, int i, bool write) {
        Held &h = W.held[t][i];
        with(h.kind, h.lock, [&](auto &l) {
            using L = std::remove_reference_t<decltype(l)>;
            const char *n = kn[h.kind];
            uint32_t ents = W.ents[i];
            if constexpr (is_add_remove_allowed<L>()) ents = h.now >> 16;
            MC_CHECK("nest", l.Entities().size() == ents, "the transaction %s on instance %d sees %zu entities instead of %u", n, i, l.Entities().size(), ents);
            MC_CHECK("nest", W.e[i].Exists(l), "the transaction %s on instance %d lost an entity", n, i);
            if constexpr (is_read_allowed<A, L>()) {
                MC_CHECK("nest", W.e[i].Get<const A>(l).v == (h.now & 0xffff), "the transaction %s on instance %d reads %u instead of %u", n, i, W.e[i].Get<const A>(l).v, h.now & 0xffff);
            }
            if (!write) return;
            if constexpr (is_write_allowed<A, L>()) {
                W.e[i].Set<A>(l, (h.now & 0xffff) + 1);
                h.now++;
            }
            if constexpr (is_add_remove_allowed<L>()) {
                l.NewEntity();
                h.now += 1 << 16;
            }
        });
    }
    static int count(int t) {
        int n = 0;
        for (int i = 0; i < NI; i++) n += W.held[t][i].kind >= 0;
        return n;
    }
    static bool startBlocks(int t, int i, int k) {
        for (int o = 0; o < NT; o++)
            if (o != t && W.held[o][i].kind >= 0 && (wp[W.held[o][i].kind] & wp[k])) return true;
        return false;
    }
    static bool endBlocks(int t, int i) {
        for (int o = 0; o < NT; o++)
            if (o != t && W.held[o][i].kind >= 0 && (rp[W.held[o][i].kind] & wr[W.held[t][i].kind])) return true;
        return false;
    }
    // ---- operations: code = op * 64 + thread * 32 + instance * 4 + kind
    enum { START, END, RECREATE, CROSSEND };
    static int code(int op, int t, int i, int k) { return op * 64 + t * 32 + i * 4 + k; }
    static bool cross;
    static int kinds = 15;
    static int gen(int *out) {
        int n = 0;
        for (int t = 0; t < NT; t++)
            for (int i = 0; i < NI; i++) {
                Held &h = W.held[t][i];
                if (DEEP && i && !W.held[t][i - 1].used) break;
                for (int k = 0; k < NK; k++) {
                    if (!(kinds >> k & 1)) continue;
                    bool reject = h.kind >= 0 || count(t) == MAX;
                    if (DEEP && reject && W.lastRejected) continue;
                    if (reject || !startBlocks(t, i, k)) out[n++] = code(START, t, i, k);
                }
                if (h.kind >= 0 && !endBlocks(t, i)) {
                    out[n++] = code(END, t, i, 0);
                    if (cross) out[n++] = code(CROSSEND, t, i, 0);
                }
                if (t == 0) {
                    bool idle = true;
                    for (int o = 0; o < NT; o++) idle &= W.held[o][i].kind < 0;
                    if (idle && i == 0 && count(0) < MAX) out[n++] = code(RECREATE, 0, i, 0);
                }
            }
        return n;
    }
    static void text(int c, char *b, size_t n) {
        int op = c / 64, t = c / 32 % 2, i = c / 4 % 8, k = c % 4;
        if (op == START) snprintf(b, n, "thread %d: start %s on %d", t, kn[k], i);
        else if (op == END) snprintf(b, n, "thread %d: end on %d", t, i);
        else if (op == CROSSEND) snprintf(b, n, "thread %d's transaction on %d ends on thread %d", t, i, (t + 1) % NT);
        else snprintf(b, n, "recreate %d", i);
    }
    static void create(int i) {
        W.ecs[i] = new ECS();
        auto l = W.ecs[i]->StartTransaction<AddRemove>();
        W.e[i] = l.NewEntity();
        W.e[i].Set<A>(l, 1u);
        W.e[i].Set<B>(l, 1u);
        W.val[i] = 1;
        W.ents[i] = 1;
    }
    static void step(void *p) {
        int c = *(int *)p, op = c / 64, t = c / 32 % 2, i = c / 4 % 8, k = c % 4;
        Held &h = W.held[t][i];
        mc::set_tls_slot(op == CROSSEND ? (t + 1) % NT : t);
        W.lastRejected = false;
        if (op == START) {
            bool nested = h.kind >= 0, full = count(t) == MAX;
            char at[64];
            bool threw = false;
            try {
                startAt(i, k, nested || full ? at : h.lock);
            } catch (std::runtime_error &) {
                threw = true;
            }
            MC_CHECK("nest", !nested || threw, "starting %s on instance %d, on which this thread has an active %s transaction, was not rejected", kn[k], i, kn[h.kind]);
            MC_CHECK("nest", nested || !full || threw, "starting more than %d simultaneous transactions on one thread was not rejected", MAX);
            MC_CHECK("nest", nested || full || !threw, "starting %s on instance %d was rejected although this thread has no transaction on it (%d active of %d)", kn[k], i, count(t), MAX);
            W.lastRejected = threw;
            h.used = true;
            if (threw) {
                for (int x = 0; x < NI; x++)
                    if (W.held[t][x].kind >= 0) use(t, x, true);
            } else {
                h.kind = k;
                h.now = W.val[i] | W.ents[i] << 16;
                use(t, i, true);
            }
        } else if (op == END || op == CROSSEND) {
            use(t, i, false);
            if (wp[h.kind] & 2) W.val[i] = h.now & 0xffff;
            if (wp[h.kind] & 1) W.ents[i] = h.now >> 16;
            with(h.kind, h.lock, [&](auto &l) {
                using L = std::remove_reference_t<decltype(l)>;
                l.~L();
            });
            h.kind = -1;
            if (op == CROSSEND) W.crossed = true;
        } else {
            delete W.ecs[i];
            create(i);
        }
        for (int o = 0; o < NT; o++) {
            mc::set_tls_slot(o);
            for (int x = 0; x < NI; x++)
                if (W.held[o][x].kind >= 0) use(o, x, false);
        }
        mc::set_tls_slot(0);
    }
    static void finish(void *) {
        for (bool more = true; more;) {
            more = false;
            for (int t = 0; t < NT; t++)
                for (int i = 0; i < NI; i++)
                    if (W.held[t][i].kind >= 0 && !endBlocks(t, i)) {
                        int c = code(END, t, i, 0);
                        step(&c);
                        more = true;
                    }
        }
        // nothing is left behind: every thread can start everything on every instance
        for (int t = 0; t < NT; t++) {
            mc::set_tls_slot(t);
            for (int i = 0; i < NI; i++)
                for (int k = 0; k < NK; k++) {
                    int c = code(START, t, i, k), e = code(END, t, i, 0);
                    step(&c);
                    step(&e);
                }
        }
    }
    static void setupSeq(void *) {
        memset((void *)&W, 0, sizeof W);
        for (int t = 0; t < NT; t++)
            for (int i = 0; i < NI; i++) W.held[t][i].kind = -1;
        for (int i = 0; i < NI; i++) create(i);
    }
    struct Search {
        int path[32], len, depth;
        uint64_t nodes, leaves, ops, shardCounter;
        int shard, nshards;
        bool stop, capped;
        double deadline;
        char kind[32], msg[2048], sample[1024];
    };
    static Search *S;
    static double now() {
        timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        return t.tv_sec + t.tv_nsec * 1e-9;
    }
    static void pathText(char *b, size_t n) {
        size_t k = 0;
        for (int i = 0; i < S->len && k + 80 < n; i++) {
            char one[96];
            text(S->path[i], one, sizeof one);
            k += snprintf(b + k, n - k, "%s%s", i ? "; " : "", one);
        }
    }
    static void failed(const char *e) {
        snprintf(S->kind, sizeof S->kind, "%s", mc::fail_kind());
        std::string m = e;
        char t[1024] = "";
        pathText(t, sizeof t);
        snprintf(S->msg, sizeof S->msg, "%s\nhistory: %s", m.c_str(), t);
        S->stop = true;
    }
    static void leaf() {
        S->leaves++;
        if (!S->sample[0]) pathText(S->sample, sizeof S->sample);
        mc::snap_push();
        const char *e = mc::guarded(finish, nullptr);
        if (e) failed(e);
        mc::snap_restore();
        mc::snap_pop();
    }
    static void dfs() {
        S->nodes++;
        if ((S->nodes & 255) == 0 && S->deadline > 0 && now() > S->deadline) S->capped = true;
        if (S->stop || S->capped) return;
        if (S->len == S->depth) return leaf();
        int ops[128];
        int n = gen(ops);
        mc::snap_push();
        for (int i = 0; i < n && !S->stop && !S->capped; i++) {
            if (S->len == 1 && (S->shardCounter++ % S->nshards) != (uint64_t)S->shard) continue;
            S->path[S->len++] = ops[i];
            S->ops++;
            const char *e = mc::guarded(step, &ops[i]);
            if (e) failed(e);
            else dfs();
            if (S->stop) return;
            S->len--;
            mc::snap_restore();
        }
        mc::snap_pop();
    }
    static void js(const char *s) {
        putchar('"');
        for (; *s; s++) {
            if (*s == '"' || *s == '\\') printf("\\%c", *s);
            else if ((unsigned char)*s < 32) printf("\\u%04x", *s);
            else putchar(*s);
        }
        putchar('"');
    }
    // Up to the default limit: n transactions on n instances, every one of them ended first, in both orders afterwards.
    static int chainN, chainFirst, chainUp;
    static void chain(void *) {
        int last = -1;
        auto nested = [&] {
            for (int i = 0; i < NI; i++) {
                if (W.held[0][i].kind < 0 && count(0) < MAX) continue;
                int k = i % NK;
                char at[64];
                bool threw = false;
                try {
                    startAt(i, k, at);
                } catch (std::runtime_error &) {
                    threw = true;
                }
                MC_CHECK("nest", threw, "%s on instance %d was started with %d transactions active (limit %d), %s one on that instance", kn[k], i, count(0), MAX,
                    W.held[0][i].kind < 0 ? "without" : "including");
            }
        };
        auto start = [&](int i) {
            try {
                startAt(i, (i + chainFirst) % NK, W.held[0][i].lock);
            } catch (std::runtime_error &) {
                mc::fail("nest", "starting %s on instance %d was rejected with %d of %d transactions active", kn[(i + chainFirst) % NK], i, count(0), MAX);
            }
            W.held[0][i].kind = (i + chainFirst) % NK;
            W.held[0][i].now = W.val[i] | W.ents[i] << 16;
            use(0, i, true);
        };
        auto end = [&](int i) {
            Held &h = W.held[0][i];
            use(0, i, false);
            if (wp[h.kind] & 2) W.val[i] = h.now & 0xffff;
            if (wp[h.kind] & 1) W.ents[i] = h.now >> 16;
            with(h.kind, h.lock, [&](auto &l) {
                using L = std::remove_reference_t<decltype(l)>;
                l.~L();
            });
            h.kind = -1;
        };
        for (int i = 0; i < chainN; i++) start(i);
        nested();
        end(chainFirst);
        nested();
        start(chainFirst); // restarted: now the most recent one
        nested();
        for (int k = 0; k < chainN; k++) {
            last = chainUp ? k : chainN - 1 - k;
            end(last);
            if (k % 8 == 3) nested();
        }
        start(NI - 1);
        nested();
        end(NI - 1);
    }
    static int chainMain() {
        unsigned long long runs = 0;
        const char *e = mc::guarded(setupSeq, nullptr);
        for (chainN = 1; chainN <= MAX && !e; chainN += chainN < 8 || chainN >= MAX - 2 ? 1 : 8)
            for (chainFirst = 0; chainFirst < chainN && !e; chainFirst++)
                for (chainUp = 0; chainUp < 2 && !e; chainUp++) {
                    mc::snap_push();
                    e = mc::guarded(chain, nullptr);
                    runs++;
                    if (e) break;
                    mc::snap_restore();
                    mc::snap_pop();
                }
        printf("{\"scenario\":\"chains of up to %d transactions\",\"result\":\"%s\",\"executions\":%llu,\"states\":%llu,\"transitions\":%llu,\"capped\":false,\"depth\":%d,\"secs\":0,\"sample\":\"n transactions on n instances; every one ended first and restarted\"",
            MAX, e ? "violation" : "ok", runs, runs, runs * MAX, MAX);
        if (e) {
            std::string m = e;
            printf(",\"kind\":");
            js(mc::fail_kind());
            printf(",\"message\":");
            js(m.c_str());
        }
        printf("}\n");
        return e ? 1 : 0;
    }
    static int seqMain(int argc, char **argv) {
        mc::seq_init();
        S = (Search *)mc::raw_alloc(sizeof(Search));
        S->nshards = 1;
        S->depth = 4;
        const char *replay = nullptr;
        double secs = 0;
        for (int i = 1; i + 1 < argc; i += 2) {
            std::string a = argv[i], v = argv[i + 1];
            if (a == "--depth") S->depth = atoi(v.c_str());
            else if (a == "--shard") sscanf(v.c_str(), "%d/%d", &S->shard, &S->nshards);
            else if (a == "--secs") secs = atof(v.c_str());
            else if (a == "--cross") cross = atoi(v.c_str()) != 0;
            else if (a == "--kinds") kinds = atoi(v.c_str());
            else if (a == "--chain") return chainMain();
            else if (a == "--replay") replay = argv[i + 1];
            else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 3; }
        }
        double t0 = now();
        if (secs > 0) S->deadline = t0 + secs;
        const char *e = mc::guarded(setupSeq, nullptr);
        if (e) failed(e);
        else if (replay) {
            for (const char *p = replay; *p && !S->stop;) {
                char *q;
                int c = (int)strtol(p, &q, 10);
                if (q == p) { p++; continue; }
                p = q;
                S->path[S->len++] = c;
                if ((e = mc::guarded(step, &c))) failed(e);
            }
            if (!S->stop) leaf();
        } else
            dfs();
        printf("{\"scenario\":\"nesting, depth %d\",\"result\":\"%s\",\"executions\":%llu,\"states\":%llu,\"transitions\":%llu,\"capped\":%s,\"depth\":%d,\"secs\":%.2f,\"sample\":", S->depth,
            S->stop ? "violation" : "ok", (unsigned long long)S->leaves, (unsigned long long)S->nodes, (unsigned long long)S->ops, S->capped ? "true" : "false", S->depth, now() - t0);
        js(S->sample);
        if (S->stop) {
            printf(",\"kind\":");
            js(S->kind);
            printf(",\"message\":");
            js(S->msg);
            printf(",\"history\":\"");
            for (int i = 0; i < S->len; i++) printf("%s%d", i ? "," : "", S->path[i]);
            printf("\"");
        }
        printf("}\n");
        return S->stop ? 1 : 0;
    }

    // ---------------------------------------------------------------------------------------- schedules
    // Program: <kind><instance> starts, '!' expects the next start to be rejected, '-' ends the most recent transaction.
    static ECS *inst[NI];
    static Entity ent[NI];
    static char prog[mc::MAXT][64];
    static void setup() {
        for (int i = 0; i < NI; i++) {
            inst[i] = new ECS();
            auto l = inst[i]->StartTransaction<AddRemove>();
            ent[i] = l.NewEntity();
            ent[i].Set<A>(l, 1u);
        }
    }
    static const char *runProg(const char *p) {
        while (*p && *p != '-') {
            if (*p == '!') {
                bool threw = false;
                try {
                    switch (p[1]) {
                    case 'r': { auto l = inst[p[2] - '0']->StartTransaction<Read<A>>(); break; }
                    case 'w': { auto l = inst[p[2] - '0']->StartTransaction<Write<A>>(); break; }
                    case 'a': { auto l = inst[p[2] - '0']->StartTransaction<AddRemove>(); break; }
                    default: { auto l = inst[p[2] - '0']->StartTransaction<>(); break; }
                    }
                } catch (std::runtime_error &) {
                    threw = true;
                }
                MC_CHECK("nest", threw, "a nested transaction was not rejected");
                p += 3;
                continue;
            }
            char k = *p;
            int i = p[1] - '0';
            p += 2;
            auto go = [&](auto lock) {
                using L = decltype(lock);
                uint32_t v = 0;
                if constexpr (is_read_allowed<A, L>()) v = ent[i].Get<const A>(lock).v;
                if constexpr (is_write_allowed<A, L>()) ent[i].Get<A>(lock).v = ++v;
                if constexpr (is_add_remove_allowed<L>()) lock.NewEntity();
                p = runProg(p);
                if constexpr (is_read_allowed<A, L>()) MC_CHECK("nest", ent[i].Get<const A>(lock).v == v, "the outer transaction was disturbed");
            };
            try {
                switch (k) {
                case 'r': go(inst[i]->StartTransaction<Read<A>>()); break;
                case 'w': go(inst[i]->StartTransaction<Write<A>>()); break;
                case 'a': go(inst[i]->StartTransaction<AddRemove>()); break;
                default: go(inst[i]->StartTransaction<>()); break;
                }
            } catch (std::runtime_error &e) {
                mc::fail("nest", "a transaction that is not nested was rejected: %s", e.what());
            }
            if (*p == '-') p++;
        }
        return p;
    }
    static void body(int t) { runProg(prog[t]); }
    static void done() {
        for (int i = 0; i < NI; i++) {
            {
                auto l = inst[i]->StartTransaction<AddRemove>();
                l.NewEntity();
            }
            delete inst[i];
        }
        MC_CHECK("memory", mc::live_blocks() == 0, "%zu heap block(s) leaked", mc::live_blocks());
    }
    static const mc::Scenario *resolve(const char *name) {
        static mc::Scenario s;
        s = {name, 1, setup, body, done, 0};
        memset(prog, 0, sizeof prog);
        int t = 1, n = 0;
        for (const char *p = name; *p; p++) {
            if (*p == '|') {
                if (++t >= mc::MAXT) return nullptr;
                n = 0;
            } else if (n < 62)
                prog[t][n++] = *p;
        }
        s.nthreads = t;
        return &s;
    }
} // namespace h
int main(int argc, char **argv) {
    if (argc > 1 && !strcmp(argv[1], "--run")) return mc::main(argc, argv, nullptr, 0, h::resolve);
    return h::seqMain(argc, argv);
}
