#include "obs.hh"
#include <cstdio>
#include <cstring>
namespace h {
    constexpr int MAXN = 10, MAXEV = 24, MAXO = 20, MAXP = 80;
    struct Com {
        Event ev[NOT][MAXEV];
        int n[NOT];
    };
    static Com com[MAXN];
    struct Polled {
        bool drained;
        int k;
        Event ev;
    };
    struct Obs {
        bool used, stopped;
        int type, first, n;
        Polled p[MAXP];
    };
    static Obs obs[MAXO];
    static const char *tn[] = {"EntityEvent", "ComponentEvent<A>", "ComponentEvent<B>", "ComponentEvent<G>"};

    void oracleReset() {
        memset(com, 0, sizeof com);
        memset(obs, 0, sizeof obs);
    }
    void commitEvent(int n, int t, Event ev) {
        MC_CHECK("internal", n < MAXN && com[n].n[t] < MAXEV, "oracle overflow");
        com[n].ev[t][com[n].n[t]++] = ev;
    }
    int obsNew(int type, int first, int thread) {
        int base = thread * 5;
        for (int i = base; i < base + 5; i++)
            if (!obs[i].used) {
                obs[i].used = true;
                obs[i].type = type;
                obs[i].first = first;
                return i;
            }
        mc::fail("internal", "too many observers");
    }
    static void add(int o, Polled p) {
        MC_CHECK("internal", obs[o].n < MAXP, "oracle overflow");
        obs[o].p[obs[o].n++] = p;
    }
    void obsPolled(int o, int k, Event ev) { add(o, Polled{false, k, ev}); }
    void obsDrained(int o, int k) { add(o, Polled{true, k, {}}); }
    void obsStopped(int o) { obs[o].stopped = true; }

    static bool same(const Event &a, const Event &b) { return a.type == b.type && a.e == b.e && a.v == b.v; }
    static void text(char *b, size_t n, const Event &e) {
        snprintf(b, n, "%s(index %u, generation %u, value %u)", e.type == 1 ? "ADDED" : e.type == 2 ? "REMOVED" : "INVALID", (unsigned)(uint32_t)e.e,
            (unsigned)(e.e >> 32), e.v);
    }
    void oracleCheck() {
        for (int o = 0; o < MAXO; o++) {
            Obs &x = obs[o];
            if (!x.used) continue;
            int n = x.first; // next commit
            bool taken[MAXEV] = {};
            int nt = 0;
            for (int i = 0; i < x.n; i++) {
                Polled &p = x.p[i];
                // commits whose events have all been delivered
                while (n < MAXN && nt == com[n].n[x.type] && n <= p.k) {
                    n++;
                    nt = 0;
                    memset(taken, 0, sizeof taken);
                }
                if (p.drained) {
                    MC_CHECK("event", n > p.k, "observer of %s: a poll in a transaction that sees commit %d returned no event although commit %d has %d undelivered event(s)",
                        tn[x.type], p.k, n, com[n].n[x.type] - nt);
                    continue;
                }
                char t[96];
                text(t, sizeof t, p.ev);
                MC_CHECK("event", n <= p.k, "observer of %s: polled %s in a transaction that sees commit %d only, all of whose events were already delivered", tn[x.type], t, p.k);
                int found = -1;
                for (int j = 0; j < com[n].n[x.type]; j++)
                    if (!taken[j] && same(com[n].ev[x.type][j], p.ev)) found = j;
                MC_CHECK("event", found >= 0, "observer of %s: polled %s, which is not among the %d remaining event(s) of commit %d", tn[x.type], t, com[n].n[x.type] - nt, n);
                // a removal of an index is reported before its reuse
                for (int j = 0; j < com[n].n[x.type]; j++)
                    MC_CHECK("event", taken[j] || j == found || p.ev.type != 1 || com[n].ev[x.type][j].type != 2 || (uint32_t)com[n].ev[x.type][j].e != (uint32_t)p.ev.e || x.type == O_G,
                        "observer of %s: %s was delivered before the removal of the same index", tn[x.type], t);
                taken[found] = true;
                nt++;
            }
        }
    }
}
