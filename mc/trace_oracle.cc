#include "trace.hh"
#include <cstdio>
#include <cstring>
namespace h {
    const Kind kinds[NK] = {
        {'-', "Read<>", {0, M_READ, 0, 0, 0}},
        {'r', "Read<A>", {0, M_READ, M_READ, 0, 0}},
        {'b', "Read<A,B>", {0, M_READ, M_READ, M_READ, 0}},
        {'R', "ReadAll", {0, M_READ, M_READ, M_READ, M_READ}},
        {'w', "Write<A>", {0, M_READ, M_COMMIT, 0, 0}},
        {'n', "Write<A> without writing", {0, M_READ, M_WRITE, 0, 0}},
        {'v', "Read<A>, Write<B>", {0, M_READ, M_READ, M_COMMIT, 0}},
        {'g', "Write<G>", {0, M_READ, 0, 0, M_COMMIT}},
        {'W', "WriteAll", {0, M_READ, M_COMMIT, M_COMMIT, M_COMMIT}},
        {'a', "AddRemove creating an entity", {0, M_COMMIT, M_MAYCOMMIT, M_MAYCOMMIT, M_MAYCOMMIT}},
        {'c', "AddRemove without changes", {0, M_WRITE, M_WRITE, M_WRITE, M_WRITE}},
        {'u', "AddRemove removing and adding A", {0, M_COMMIT, M_COMMIT, M_MAYCOMMIT, M_MAYCOMMIT}},
    };
    int kindOf(char c) {
        for (int i = 0; i < NK; i++)
            if (kinds[i].c == c) return i;
        return -1;
    }
    static const char *resName[NR] = {"transactions", "metadata", "A", "B", "G"};
    static const char *evName[12] = {"Invalid", "TransactionStart", "TransactionEnd", "ReadLockWait", "ReadLock", "ReadUnlock", "WriteLockWait", "WriteLock", "CommitLockWait", "CommitLock", "CommitUnlock", "WriteUnlock"};
    struct Tx { int kind; uint64_t b, e, hook[5]; };
    constexpr int MAXTX = 12;
    static Tx txs[MAXT][MAXTX];
    static int ntx[MAXT];
    static bool blocked[MAXT];
    static uint64_t clk, t0, t1, t2; // t0 start called, t1 start returned, t2 stop called
    static int maxEvents;
    static uint64_t ids[MAXT];
    static uint32_t wrA;
    static int hook[MAXT];
    static bool inside[MAXT];
    void setThreadId(int t, uint64_t id) { ids[t] = id; }
    int threadById(uint64_t id) {
        for (int t = 0; t < MAXT; t++)
            if (ids[t] == id) return t;
        return -1;
    }
    void wroteA() { wrA++; }
    uint32_t writesOfA() { return wrA; }
    void resetAll(int m) {
        memset(txs, 0, sizeof txs);
        memset(ids, 0xff, sizeof ids);
        wrA = 0;
        memset(ntx, 0, sizeof ntx);
        memset(blocked, 0, sizeof blocked);
        memset(hook, 0, sizeof hook);
        memset(inside, 0, sizeof inside);
        clk = t0 = t1 = t2 = 0;
        maxEvents = m;
    }
    // the hooks: 0 outside of a transaction, then 1 starting, 2 started, 3 ending, 4 ended
    static const char *hookName[5] = {"none", "STARTING", "STARTED", "ENDING", "ENDED"};
    void hookCalled(int t, int phase, uint64_t time) {
        if (phase != hook[t] % 4 + 1) mc::fail("trace", "external trace hook %s of thread %d called after %s", hookName[phase], t, hookName[hook[t]]);
        hook[t] = phase;
        if (ntx[t]) txs[t][ntx[t] - 1].hook[phase] = time;
    }
    void txStarted(int t) {
        if (hook[t] != 2) mc::fail("trace", "thread %d: StartTransaction has returned, the last external trace hook was %s", t, hookName[hook[t]]);
        inside[t] = true;
    }
    void txBegin(int t, int k) {
        if (hook[t] % 4) mc::fail("trace", "thread %d is outside of transactions, the last external trace hook was %s", t, hookName[hook[t]]);
        inside[t] = false;
        if (ntx[t] >= MAXTX) mc::fail("internal", "too many transactions");
        txs[t][ntx[t]++] = Tx{k, ++clk, 0, {}};
    }
    void txEnd(int t) {
        if (hook[t] != 4) mc::fail("trace", "thread %d: the transaction has ended, the last external trace hook was %s", t, hookName[hook[t]]);
        txs[t][ntx[t] - 1].e = ++clk;
    }
    void traceStarting() {
        t0 = ++clk;
        memset(blocked, 0, sizeof blocked);
    }
    void traceStarted() { t1 = ++clk; }
    void traceStopping() { t2 = ++clk; }
    void mustWait(int t) {
        blocked[t] = true;
        if (hook[t] != (inside[t] ? 3 : 1)) mc::fail("trace", "thread %d waits %s its transaction, the last external trace hook was %s", t, inside[t] ? "to end" : "to start", hookName[hook[t]]);
    }

    static void list(Ev *e, int n) {
        char b[700];
        int k = 0;
        b[0] = 0;
        for (int i = 0; i < n && k < 600; i++) k += snprintf(b + k, sizeof b - k, "%s T%d:%s", i ? "," : "", e[i].thread, e[i].type >= 0 && e[i].type < 12 ? evName[e[i].type] : "?");
        mc::note("events: %s", b);
    }
    void checkTrace(int n[NR], Ev ev[NR][MAXEV], bool) {
        uint64_t now = ++clk;
        int waits[MAXT] = {};
        bool anyFull = false;
        for (int r = 0; r < NR; r++) {
            Ev *e = ev[r];
            if (n[r] > maxEvents) mc::fail("trace", "%s: %d events, but the maximum is %d", resName[r], n[r], maxEvents);
            bool full = n[r] == maxEvents;
            anyFull |= full;
            // which threads were inside of a transaction when the trace was started
            bool open[MAXT] = {}, anyOpen = false;
            for (int t = 0; t < MAXT; t++)
                for (int i = 0; i < ntx[t]; i++)
                    if (txs[t][i].b < t1 && (!txs[t][i].e || txs[t][i].e > t0)) open[t] = anyOpen = true;
            enum { U, IDLE, RWAIT, RD, WWAIT, WR, CWAIT, CM, CD }; // per thread; U = unknown (trace started in the middle)
            int st[MAXT], cycles[MAXT] = {}, commits[MAXT] = {}, starts[MAXT] = {}, ends[MAXT] = {};
            uint64_t last[MAXT] = {};
            for (int t = 0; t < MAXT; t++) st[t] = open[t] ? U : IDLE;
            int readers = 0, writer = -1;
            bool committing = false;
            for (int i = 0; i < n[r]; i++) {
                int ty = e[i].type, t = e[i].thread;
                auto bad = [&](const char *why) {
                    list(e, n[r]);
                    mc::fail("trace", "%s: event %d (%s of thread %d) %s", resName[r], i, ty >= 0 && ty < 12 ? evName[ty] : "?", t, why);
                };
                if (ty <= T_INVALID || ty > T_WU) bad("has an invalid type");
                if (t < 0 || t >= MAXT) bad("has an unknown thread");
                if (e[i].time <= last[t]) bad("is older than an earlier event of its thread");
                last[t] = e[i].time;
                if ((r == 0) != (ty == T_START || ty == T_END)) bad("belongs to another resource");
                if (r == 0) {
                    if (ty == T_START) {
                        if (st[t] != IDLE && st[t] != U) bad("is out of order");
                        st[t] = RD;
                        starts[t]++;
                    } else {
                        if (st[t] != RD && st[t] != U) bad("is out of order");
                        st[t] = IDLE;
                        ends[t]++;
                    }
                    continue;
                }
                bool within = false;
                for (int j = 0; j < ntx[t]; j++) {
                    const uint64_t *k = txs[t][j].hook;
                    auto in = [&](int a, int b) { return k[a] && e[i].time >= k[a] && (!k[b] || e[i].time <= k[b]); };
                    within |= in(1, 2) || in(3, 4);
                }
                if (!within) bad("is neither between the hooks STARTING and STARTED nor between ENDING and ENDED");
                int s = st[t];
                bool ok = false;
                switch (ty) {
                case T_RWAIT: ok = s == IDLE || s == U; st[t] = RWAIT; waits[t]++; break;
                case T_R: ok = s == IDLE || s == RWAIT || s == U; st[t] = RD; break;
                case T_RU: ok = s == RD || s == U; st[t] = IDLE; if (s == RD) cycles[t]++; break;
                case T_WWAIT: ok = s == IDLE || s == U; st[t] = WWAIT; waits[t]++; break;
                case T_W: ok = s == IDLE || s == WWAIT || s == U; st[t] = WR; break;
                case T_CWAIT: ok = s == WR || s == U; st[t] = CWAIT; waits[t]++; break;
                case T_C: ok = s == WR || s == CWAIT || s == U; st[t] = CM; break;
                case T_CU: ok = s == CM || s == U; st[t] = CD; commits[t]++; break;
                case T_WU: ok = s == WR || s == CD || s == U; st[t] = IDLE; if (s != U) cycles[t]++; break;
                }
                if (!ok) bad("is not a legal successor of the thread's previous event");
                if (!anyOpen) { // the whole lock history is known
                    switch (ty) {
                    case T_R: if (committing) bad("overlaps a commit"); readers++; break;
                    case T_RU: readers--; break;
                    case T_W: if (writer >= 0) bad("overlaps another writer"); writer = t; break;
                    case T_C: if (readers) bad("happens while there are readers"); committing = true; break;
                    case T_CU: committing = false; break;
                    case T_WU: writer = -1; break;
                    }
                }
            }
            // exactly the transactions of the traced interval
            for (int t = 0; t < MAXT; t++) {
                int in = 0, over = 0, uses = 0, usesOver = 0, com = 0, comMax = 0;
                for (int i = 0; i < ntx[t]; i++) {
                    Tx &x = txs[t][i];
                    bool overlap = x.b < now && (!x.e || x.e > t0);
                    if (!overlap) continue;
                    bool whole = x.b > t1 && x.e && x.e < t2;
                    in += whole;
                    over++;
                    int m = kinds[x.kind].mode[r];
                    if (r && m != M_NONE) uses += whole, usesOver++;
                    if (r && m == M_COMMIT) com += whole;
                    if (r && (m == M_COMMIT || m == M_MAYCOMMIT)) comMax++;
                }
                auto bad = [&](const char *what, int have, int lo, int hi) {
                    list(e, n[r]);
                    mc::fail("trace", "%s: thread %d has %d %s, expected %d to %d", resName[r], t, have, what, lo, hi);
                };
                if (r == 0) {
                    if ((!full && starts[t] < in) || starts[t] > over) bad("TransactionStart events", starts[t], in, over);
                    if ((!full && ends[t] < in) || ends[t] > over) bad("TransactionEnd events", ends[t], in, over);
                } else {
                    if (!full && cycles[t] < uses) bad("lock/unlock pairs", cycles[t], uses, 99);
                    if (usesOver == 0 && (cycles[t] || st[t] != (open[t] ? U : IDLE))) bad("events although it does not use this resource", cycles[t], 0, 0);
                    if ((!full && commits[t] < com) || commits[t] > comMax) bad("commits", commits[t], com, comMax);
                    // nothing is missing at the end of a thread that has finished its last transaction before the stop
                    bool done = true;
                    for (int i = 0; i < ntx[t]; i++) done &= txs[t][i].e && txs[t][i].e < t2;
                    if (!full && done && st[t] != IDLE && st[t] != U) bad("unfinished lock cycles", 1, 0, 0);
                }
            }
        }
        for (int t = 0; t < MAXT; t++)
            if (blocked[t] && !waits[t] && !anyFull) mc::fail("trace", "thread %d waited, but no wait event was recorded", t);
        uint64_t o = 0;
        for (int r = 0; r < NR; r++)
            for (int i = 0; i < n[r]; i++) o = o * 1000003 + ev[r][i].type * 8 + ev[r][i].thread;
        mc::outcome(o);
    }
}
