// Precedence-graph oracle over the logged transactions (compiled with the harness).
#include "sched.hh"

namespace h {
    Entity handles[NE];
    Tx txs[NTX];
    int txCount[mc::MAXT];
    uint32_t init[NIT];

    // Points of transaction i: 0 bc, 1 b (snapshot), 2 br, 3 ec, 4 c (commit), 5 er
    static constexpr int NP = 6;
    static constexpr int N = NTX * NP;
    using Set = std::conditional_t<N <= 64, uint64_t, unsigned __int128>;
    struct Graph {
        Set out[N];
        void add(int a, int b) { out[a] |= (Set)1 << b; }
        bool cyclic(int &at) {
            // Kahn's algorithm on bitmasks
            Set alive = 0;
            for (int i = 0; i < N; i++)
                if (out[i]) alive |= (Set)1 << i; // the others are on no cycle
            for (bool changed = true; changed;) {
                changed = false;
                Set has = 0;
                for (int i = 0; i < N; i++)
                    if (alive >> i & 1) has |= out[i] & alive;
                for (int i = 0; i < N; i++)
                    if ((alive >> i & 1) && !(has >> i & 1)) {
                        alive &= ~((Set)1 << i);
                        changed = true;
                    }
            }
            // `alive` now holds nodes on or after cycles
            for (int i = 0; i < N; i++)
                if (alive >> i & 1) {
                    at = i;
                    return true;
                }
            return false;
        }
    };
    static_assert(N <= 128, "graph too large");

    static void dump() {
        for (int i = 1; i < NTX; i++) {
            Tx &x = txs[i];
            if (!x.used) continue;
            mc::note("tx%d kind %d [%llu..%llu body %llu..%llu]:", i, x.kind, (unsigned long long)x.bc, (unsigned long long)x.br,
                (unsigned long long)x.ec, (unsigned long long)x.er);
            for (int it = 0; it < NIT; it++) {
                char b[32];
                if (x.seen[it] != NONE) {
                    if (x.seen[it] == ABSENT)
                        mc::note(" %s absent", itemName(it, b));
                    else if (x.seen[it] == PRESENT)
                        mc::note(" %s present", itemName(it, b));
                    else
                        mc::note(" %s=v%u", itemName(it, b), x.seen[it]);
                }
                if (x.wrote[it] != NONE) mc::note(" WROTE %s=%s%u", itemName(it, b), x.wrote[it] == ABSENT ? "absent by " : "v", x.wrote[it] == ABSENT ? i : x.wrote[it]);
            }
            mc::note("\n");
        }
    }

    // Which writer produced what `reader` observed for an item? -1 unknown (ambiguous), else tx id (0 = initial)
    static int sourceOf(int it, uint32_t v) {
        int found = -1, n = 0;
        auto cand = [&](int id, uint32_t w) {
            bool m = v == w || (v == PRESENT && w != ABSENT);
            if (m) {
                found = id;
                n++;
            }
        };
        cand(0, init[it]);
        for (int i = 1; i < NTX; i++)
            if (txs[i].used && txs[i].wrote[it] != NONE) cand(i, txs[i].wrote[it]);
        if (n == 0) return -2;
        return n == 1 ? found : -1;
    }

    static void addItem(Graph &g, int it, int *next) {
        // next[w] = the writer that directly overwrote w's version (or -1)
        for (int r = 1; r < NTX; r++) {
            Tx &x = txs[r];
            if (!x.used || x.seen[it] == NONE) continue;
            int s = sourceOf(it, x.seen[it]);
            if (s < 0) continue;
            if (s > 0 && s != r) g.add(s * NP + 4, r * NP + 1);
            int o = next[s];
            if (o > 0 && o != r) g.add(r * NP + 1, o * NP + 4);
            // a later overwriter in the chain also has to come after the snapshot; implied by the chain edges
        }
    }

    static void base(Graph &g) {
        memset(&g, 0, sizeof g);
        for (int i = 1; i < NTX; i++) {
            if (!txs[i].used) continue;
            for (int p = 0; p + 1 < NP; p++) g.add(i * NP + p, i * NP + p + 1);
        }
        for (int i = 1; i < NTX; i++)
            for (int j = 1; j < NTX; j++) {
                Tx &x = txs[i], &y = txs[j];
                if (i == j || !x.used || !y.used) continue;
                if (x.br < y.bc) g.add(i * NP + 2, j * NP + 0);
                if (x.br < y.ec) g.add(i * NP + 2, j * NP + 3);
                if (x.er < y.bc) g.add(i * NP + 5, j * NP + 0);
                if (x.er < y.ec) g.add(i * NP + 5, j * NP + 3);
            }
    }

    void checkIds() {
        for (int i = 1; i < NTX; i++)
            for (int j = 1; j < NTX; j++) {
                Tx &x = txs[i], &y = txs[j];
                if (i == j || !x.used || !y.used) continue;
#ifndef TECS_HEADER_ONLY
                MC_CHECK("txid", x.txid != y.txid, "transactions tx%d and tx%d have the same identifier %zu", i, j, x.txid);
                MC_CHECK("instance", !x.instance || x.instance != y.instance, "two instances have the same identifier %u", x.instance);
#endif
            }
    }

    static int nextOf[NIT][NTX];

    void checkHistory() {
        // 1. writer chains
        for (int it = 0; it < NIT; it++) {
            for (int i = 0; i < NTX; i++) nextOf[it][i] = -1;
            for (int w = 1; w < NTX; w++) {
                Tx &x = txs[w];
                if (!x.used || x.wrote[it] == NONE || x.seen[it] == NONE) continue;
                int s = sourceOf(it, x.seen[it]);
                char b[32];
                if (s == -2) {
                    if (!mc::lenient("visibility")) {
                        dump();
                        mc::fail("visibility", "tx%d observed %s = %u, a version nobody wrote", w, itemName(it, b), x.seen[it]);
                    }
                }
                if (s < 0) continue;
                if (s == w) {
                    if (!mc::lenient("visibility")) {
                        dump();
                        mc::fail("visibility", "tx%d observed its own write to %s as committed state", w, itemName(it, b));
                    }
                    continue;
                }
                if (nextOf[it][s] > 0) {
                    if (!mc::lenient("lostupdate")) {
                        dump();
                        mc::fail("lostupdate", "lost update of %s: tx%d and tx%d both overwrote the version of tx%d", itemName(it, b),
                        nextOf[it][s], w, s);
                    }
                }
                nextOf[it][s] = w;
            }
        }
        for (int r = 1; r < NTX; r++)
            for (int it = 0; it < NIT; it++)
                if (txs[r].used && txs[r].seen[it] != NONE && sourceOf(it, txs[r].seen[it]) == -2) {
                    char b[32];
                    if (!mc::lenient("visibility")) {
                        dump();
                        mc::fail("visibility", "tx%d observed %s = %u, a version nobody wrote", r, itemName(it, b), txs[r].seen[it]);
                    }
                }
        // 2. per item: commit order and real time
        Graph g;
        int at;
        for (int it = 0; it < NIT; it++) {
            base(g);
            addItem(g, it, nextOf[it]);
            if (g.cyclic(at)) {
                char b[32];
                if (!mc::lenient("visibility")) {
                    dump();
                    mc::fail("visibility", "reads of %s contradict the real-time order of transactions (near tx%d)", itemName(it, b), at / NP);
                }
            }
        }
        // 3. everything together: one snapshot instant per transaction, one commit instant per writer
        base(g);
        for (int it = 0; it < NIT; it++) addItem(g, it, nextOf[it]);
        if (g.cyclic(at)) {
            if (!mc::lenient("snapshot")) {
                dump();
                mc::fail("snapshot", "no single snapshot/commit instant explains what the transactions observed (near tx%d)", at / NP);
            }
        }
    }

    static void finalItem(int it, uint32_t v) {
        // last writer in the chain
        int last = 0, guard = 0;
        for (int n = nextOf[it][0]; n > 0 && guard < NTX; n = nextOf[it][n], guard++) last = n;
        uint32_t want = last == 0 ? init[it] : txs[last].wrote[it];
        bool any = false;
        int nw = 0, chained = 0;
        for (int i = 1; i < NTX; i++)
            if (txs[i].used && txs[i].wrote[it] != NONE) {
                nw++;
                any = true;
            }
        for (int n = nextOf[it][0], k = 0; n > 0 && k < NTX; n = nextOf[it][n], k++) chained++;
        if (any && chained != nw) return; // ambiguous chain (absent written twice): covered by other scenarios
        bool ok = v == want || (v == PRESENT && want != ABSENT);
        if (!ok) {
            char b[32];
            if (!mc::lenient("lostupdate")) {
                dump();
                mc::fail("lostupdate", "final state of %s is %s%u, expected %s%u", itemName(it, b), v == ABSENT ? "absent/" : "v", v,
                want == ABSENT ? "absent/" : "v", want);
            }
        }
    }

    void checkFinal(ECS &ecs) {
        auto lock = ecs.StartTransaction<ReadAll>();
        uint64_t hash = 0;
        auto obs = [&](int it, uint32_t v) {
            finalItem(it, v);
            hash = hash * 1000003 + v + 1;
        };
        for (int i = 0; i < NE; i++) {
            if (!handles[i]) continue;
            Entity e = handles[i];
            bool ex = e.Exists(lock);
            obs(IT_EX + i, ex ? PRESENT : ABSENT);
            obs(IT_A + i, e.Has<A>(lock) ? val(e.Get<A>(lock)) : ABSENT);
            obs(IT_B + i, e.Has<B>(lock) ? val(e.Get<B>(lock)) : ABSENT);
        }
        obs(IT_G, lock.Has<G>() ? val(lock.Get<G>()) : ABSENT);
        // outcome = final state plus everything observed
        for (int i = 1; i < NTX; i++)
            if (txs[i].used)
                for (int it = 0; it < NIT; it++) hash = hash * 1000003 + txs[i].seen[it];
        mc::outcome(hash);
    }
} // namespace h
