#include "block.hh"
#include <cstring>
namespace h {
    const KindInfo kinds[NKINDS] = {
        {META, 0, 0, "none"},
        {META | CA, 0, 0, "Read<A>"},
        {META | CA | CB, 0, 0, "Read<A,B>"},
        {ALL, 0, 0, "ReadAll"},
        {META, CA, CA, "Write<A>"},
        {META, CA, 0, "Write<A> without change"},
        {META, CB, CB, "Write<B>"},
        {META, CA | CB, CA | CB, "Write<A,B>"},
        {META, CA | CB, CA, "Write<A,B> changing A"},
        {META, CA | CB, CB, "Write<A,B> changing B"},
        {META | CA, CB, CB, "Read<A>,Write<B>"},
        {META | CB, CA, CA, "Read<B>,Write<A>"},
        {META, CA | CB | CG, CA | CB | CG, "WriteAll"},
        {META, CA | CB | CG, 0, "WriteAll without change"},
        {META, CA | CB | CG, CA, "WriteAll changing A"},
        {META, CG, CG, "Write<G>"},
        {META | CG, CA, CA, "Read<G>,Write<A>"},
        {0, ALL, 0, "AddRemove without change"},
        {0, ALL, CA, "AddRemove changing A"},
        {0, ALL, META, "AddRemove creating"},
        {0, ALL, META | CB, "AddRemove creating, changing B"},
        {0, ALL, CG, "AddRemove changing G"},
        {META | CG, 0, 0, "Read<G>"},
        {META | CB | CG, 0, 0, "Read<B,G>"},
        {META | CB, 0, 0, "Read<B>"},
        {META | CA | CG, CB, CB, "ReadAll,Write<B>"},
        {0, ALL, 0, "AddRemove unsetting what is not there"},
        {0, ALL, META | CA, "AddRemove unsetting A"},
        {0, ALL, META | CB, "AddRemove destroying an entity with B"},
        {0, ALL, META, "AddRemove destroying an empty entity"},
        {0, ALL, META | CA, "AddRemove adding A"},
        {0, ALL, META | CG, "AddRemove unsetting G"},
        {0, ALL, 0, "AddRemove reading everything, read-only subset, observers polled"},
        {META, CA | CB | CG, 0, "WriteAll reading everything"},
        {META, CA | CB, CB, "Write<A,B> changing B through a dynamic lock"},
        {0, ALL, META, "AddRemove creating and destroying again"},
        {0, ALL, META | CA, "AddRemove creating with A"},
        {META | CB, CA | CG, CG, "Read<B>,Write<A>,Write<G> changing G"},
    };
    static const char *phaseName[] = {"idle", "starting", "active", "ending"};
    struct T {
        bool used;
        int kind, tid;
        Phase ph;
        uint64_t bc, contestedAt;
        int contested; // items it was seen waiting to commit
        uint32_t saw[NI], wrote[NI];
    };
    static T tx[NTX];
    static int cnt[mc::MAXT];

    void resetAll() {
        memset(tx, 0, sizeof tx);
        memset(cnt, 0, sizeof cnt);
    }
    int txBegin(int kind) {
        int t = mc::self(), id = 1 + (t - 1) * 4 + cnt[t]++;
        T &x = tx[id];
        x.used = true;
        x.kind = kind;
        x.tid = t;
        x.ph = STARTING;
        for (int i = 0; i < NI; i++) x.saw[i] = x.wrote[i] = ~0u;
        x.bc = mc::stamp_begin();
        return id;
    }
    void txStarted(int id) { tx[id].ph = ACTIVE; }
    void txEnding(int id) { tx[id].ph = ENDING; }
    void txEnded(int id) { tx[id].ph = IDLE; }
    void txSaw(int id, int i, uint32_t v) {
        T &x = tx[id];
        MC_CHECK("unstable", x.saw[i] == ~0u || x.saw[i] == v, "%s saw item %d change from version %u to %u", kinds[x.kind].name, i, x.saw[i], v);
        x.saw[i] = v;
    }
    void txWrote(int id, int i, uint32_t v) { tx[id].wrote[i] = v; }

    void quiescent() {
        uint64_t s = mc::stamp_end();
        for (int b = 1; b < NTX; b++) {
            T &x = tx[b];
            if (!x.used || x.ph == IDLE || x.tid == mc::self() || !mc::thread_blocked(x.tid)) continue;
            const KindInfo &k = kinds[x.kind];
            bool allowed = false;
            int contested = 0;
            for (int c = 1; c < NTX; c++) {
                T &y = tx[c];
                if (c == b || !y.used || (y.ph != ACTIVE && y.ph != ENDING)) continue;
                const KindInfo &o = kinds[y.kind];
                if (x.ph == STARTING) {
                    if (k.wp & o.wp) allowed = true;
                    if (y.ph == ENDING && (o.wr & (k.rp | k.wp))) allowed = true;
                } else if (x.ph == ENDING) {
                    if (o.rp & k.wr) allowed = true;
                    if (y.ph == ACTIVE) contested |= o.rp & k.wr;
                }
            }
            MC_CHECK("wait", x.ph != ACTIVE, "internal: transaction %s waits while active", k.name);
            if (!allowed) {
                for (int c = 1; c < NTX; c++)
                    if (tx[c].used && tx[c].ph != IDLE)
                        mc::note("\n  thread %d: %s is %s%s", tx[c].tid, kinds[tx[c].kind].name, phaseName[tx[c].ph], mc::thread_blocked(tx[c].tid) ? " and waiting" : "");
                mc::fail("wait", "%s is waiting while %s although nothing it may wait for is active", k.name, phaseName[x.ph]);
            }
            if (x.ph == ENDING && contested && !x.contested) {
                x.contested = contested;
                x.contestedAt = s;
            }
        }
    }
    void checkAll() {
        for (int b = 1; b < NTX; b++) {
            T &x = tx[b];
            if (!x.used || !x.contested) continue;
            for (int c = 1; c < NTX; c++) {
                T &y = tx[c];
                if (c == b || !y.used || y.bc < x.contestedAt) continue;
                const KindInfo &k = kinds[y.kind];
                if (((k.rp | k.wp) & x.contested) != x.contested) continue;
                for (int i = 0; i < NI; i++) {
                    if (!(x.contested >> i & 1) || y.saw[i] == ~0u || x.wrote[i] == ~0u) continue;
                    MC_CHECK("overtake", y.saw[i] >= x.wrote[i],
                        "%s, started while %s was waiting to commit item %d (version %u), still obtained version %u", k.name, kinds[x.kind].name, i,
                        x.wrote[i], y.saw[i]);
                }
            }
        }
    }
}
