// Model-checking runtime. Compiled WITHOUT instrumentation; provides the __tsan_* callbacks used by the instrumented
// code under test, a fiber scheduler, a stateless explorer with partial-order caching, a happens-before race detector
// and a checked deterministic arena allocator.
#include "rt.h"

#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <exception>
#include <execinfo.h>
#include <link.h>
#include <new>
#include <pthread.h>
#include <string>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <typeinfo>
#include <unistd.h>

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
#define NOI __attribute__((no_instrument_function, noinline))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

extern "C" char __data_start, _end, __bss_start, _edata;
extern "C" char __libc_single_threaded;

namespace mc {

// ---------------------------------------------------------------------------------------------------------------
// Fixed memory layout
static const u64 ARENA = 0x100000000000ull;
#ifndef RT_HEAP_MB
    #define RT_HEAP_MB 8
#endif
static const u64 SUBSZ = (u64)RT_HEAP_MB << 20; // per-thread sub-heap
static const u64 ARENASZ = SUBSZ * MAXT;
static const u64 STACKS = 0x110000000000ull;
static const u64 STACKSZ = 256 << 10;
static const u64 STATE = 0x120000000000ull;   // byte states of the arena
static const u64 SHADOW = 0x130000000000ull;  // race shadow: arena then globals
static const u64 BSHADOW = 0x150000000000ull; // per-byte shadow of split granules
static const u64 RTADDR = 0x140000000000ull;

struct Cell { // race shadow of one granule or byte
    u32 exec;
    u16 wclk; // last plain write clock
    u8 wtid;
    u8 split;
    u16 r[MAXT];  // last plain read per thread
    u16 ar[MAXT]; // last atomic read
    u16 aw[MAXT]; // last atomic write
};
static_assert(sizeof(Cell) % 4 == 0, "");

struct VC {
    u32 c[MAXT];
    void join(const VC &o) {
        for (int i = 0; i < MAXT; i++)
            if (o.c[i] > c[i]) c[i] = o.c[i];
    }
};

struct Loc { // dynamic information about an atomic location (reset every execution)
    u64 addr;
    u32 exec;
    VC rel;       // released clock readable by acquire loads
    u64 lw, rs;   // hash of last write event, sum of hashes of reads since
};
struct Shared { // learned over all executions of a scenario
    u64 addr;
    u8 rmask, wmask, shared;
};

enum Status : u8 { S_NONE, S_READY, S_WAIT, S_YIELD, S_MUTEX, S_PARK, S_DONE };

struct EhGlobals { void *a; unsigned b; };

struct Thread {
    void *sp;
    Status st;
    u64 waitAddr;
    u64 yieldMark; // number of writes by others at yield
    u64 ownWrites;
    u64 h;         // hash of the last event
    VC vc;
    VC acqFence, relFence;
    u32 spinReads;
    bool together; // parked until all can wake
    bool pinned;   // next atomic access is part of the current step
    u8 tls[4096];
    EhGlobals eh;
};

struct Node {
    u8 n, pos, kind; // kind 0 schedule, 1 choice
    u8 cur;
    u8 alts[8];
    u8 cost[8];
    u16 pre;
    u64 key;
};

static const int MAXSTEPS = 60000;
static const int LOCBITS = 14;
static const int SHBITS = 14;

struct RT {
    // --- configuration
    int nthreads;
    int pb;
    const Scenario *sc;
    bool scheduling; // threads are running under the scheduler
    bool exec;       // code under test is running: arena allocation and checks on
    bool seq;
    // --- threads
    Thread th[MAXT];
    int cur;
    void *explorerSp;
    // --- arena
    u64 bump[MAXT];
    u64 liveBlocks, liveBytes;
    u64 globLo, globHi, globShadowOff;
    u64 tlsLo, tlsSize;
    u8 tlsInit[4096];
    // --- execution
    u32 execId;
    u64 writes; // shared writes in this execution
    u32 slice, forcedWake;
    u32 steps;
    u64 accesses;
    u64 stampCounter;
    u64 timeCounter;
    int endReason; // 0 complete 1 pruned 2 violation
    char kind[32];
    char msg[4096];
    char notes[4096];
    // --- path
    Node *path;
    int plen; // forced prefix length
    int depth;
    int pre;
    bool replaying;
    u8 *replayChoices;
    int replayLen;
    // --- statistics
    u64 nExec, nPruned, nSteps, nStates, nRaceChecks, nComplete;
    u64 maxDepth;
    u64 outcomes[4096];
    int nOutcomes;
    bool restart;
    // --- tables
    Loc *locs;
    Shared *shared;
    // visited set
    u64 *vkeys;
    u8 *vbud;
    u64 vcap, vcount;
    bool capped;
    jmp_buf seqJmp;
    bool inGuard;
    u64 accessLimit;
    int slot; // sequential: emulated thread
    u64 traceLen;
    bool traceOn;
    u64 maxExec;
    double deadline;
    bool ignoreRace;
    u64 nPromoted;
    char ignore[512]; // comma separated kinds that are not this check's business
    u64 nIgnored;
};
#define R ((RT *)RTADDR)

static inline u64 mix(u64 a, u64 b) {
    a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2);
    a ^= a >> 32;
    a *= 0xd6e8feb86659fd93ull;
    a ^= a >> 32;
    a *= 0xd6e8feb86659fd93ull;
    a ^= a >> 32;
    return a;
}

static double now() {
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

extern "C" void mc_switch(void **save, void *load);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
    push %rbp
    push %rbx
    push %r12
    push %r13
    push %r14
    push %r15
    mov %rsp, (%rdi)
    mov %rsi, %rsp
    pop %r15
    pop %r14
    pop %r13
    pop %r12
    pop %rbx
    pop %rbp
    ret
.size mc_switch,.-mc_switch
)");

[[noreturn]] static void die(const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    fprintf(stderr, "mc: internal error: ");
    vfprintf(stderr, fmt, ap);
    fprintf(stderr, "\n");
    va_end(ap);
    fflush(stderr);
    fflush(stdout);
    _exit(3);
}

[[noreturn]] static void endExec(int reason) {
    R->endReason = reason;
    R->exec = false;
    if (R->inGuard) { longjmp(R->seqJmp, 1); }
    void *dummy;
    mc_switch(&dummy, R->explorerSp);
    __builtin_unreachable();
}

static void describe(char *out, size_t n) {
    if (!R->scheduling) {
        snprintf(out, n, " [%s]", R->cur == 0 ? "main" : "");
        return;
    }
    snprintf(out, n, " [thread %d, step %u]", R->cur, R->steps);
}

static void vviolation(const char *kind, const char *fmt, va_list ap) {
    bool e = R->exec;
    R->exec = false;
    (void)e;
    snprintf(R->kind, sizeof R->kind, "%s", kind);
    int k = vsnprintf(R->msg, sizeof R->msg - 256, fmt, ap);
    if (k < 0) k = 0;
    if (k > (int)sizeof R->msg - 256) k = sizeof R->msg - 256;
    describe(R->msg + strlen(R->msg), 128);
}

void fail(const char *kind, const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vviolation(kind, fmt, ap);
    va_end(ap);
    endExec(2);
}

static bool rtReady = false;
static bool (*softWanted)(const char *);
static char softKind[32];
bool lenient(const char *kind) {
    if (!rtReady || R->scheduling) return false;
    if (R->seq) {
        if (!softWanted || softWanted(kind)) return false;
        if (!softKind[0]) strncpy(softKind, kind, sizeof softKind - 1);
        return true;
    }
    char pat[48];
    snprintf(pat, sizeof pat, ",%s,", kind);
    return strstr(R->ignore, pat) != nullptr;
}
void soft_kinds(bool (*wanted)(const char *kind)) { softWanted = wanted; }
void soft_end() {
    if (!softKind[0]) return;
    char k[32];
    memcpy(k, softKind, sizeof k);
    softKind[0] = 0;
    fail(k, "only checks that this run does not decide failed");
}
void note(const char *fmt, ...) {
    bool e = R->exec;
    R->exec = false;
    va_list ap;
    va_start(ap, fmt);
    size_t l = strlen(R->notes);
    vsnprintf(R->notes + l, sizeof R->notes - l, fmt, ap);
    va_end(ap);
    R->exec = e;
}

// ---------------------------------------------------------------------------------------------------------------
// Arena
static inline bool inArena(u64 a) { return a - ARENA < ARENASZ; }
static inline bool inGlob(u64 a) { return a - R->globLo < R->globHi - R->globLo; }
static u8 *stateOf(u64 a) { return (u8 *)(STATE + (a - ARENA)); }

static void *arenaAlloc(size_t n) {
    int h = R->cur;
    u64 base = ARENA + h * SUBSZ;
    u64 p = base + R->bump[h];
    u64 sz = (n + 15) & ~15ull;
    u64 tot = 32 + sz + 16;
    if (n > SUBSZ || R->bump[h] + tot > SUBSZ) fail("memory", "heap exhausted: allocation of %zu bytes", n);
    R->bump[h] += tot;
    u64 user = p + 32;
    *(u64 *)(p + 16) = n;
    *(u64 *)(p + 24) = 0xA110C0DEull;
    memset(stateOf(user), 1, n);
    R->liveBlocks++;
    R->liveBytes += n;
    return (void *)user;
}

static void hb_write_range(u64 a, size_t n, bool isFree);

static void arenaFree(void *ptr) {
    u64 a = (u64)ptr;
    if (a & 15 || *(u64 *)(a - 8) != 0xA110C0DEull) {
        if (!(a & 15) && *(u64 *)(a - 8) == 0xF4EEDull) fail("memory", "double free of heap block");
        fail("memory", "free of a pointer that is not a heap block");
    }
    size_t n = *(u64 *)(a - 16);
    *(u64 *)(a - 8) = 0xF4EEDull;
    hb_write_range(a, n, true);
    memset(stateOf(a), 2, n);
    R->liveBlocks--;
    R->liveBytes -= n;
}

size_t live_blocks() { return R->liveBlocks; }
size_t live_bytes() { return R->liveBytes; }

} // namespace mc
using namespace mc;

static void *anyAlloc(size_t n) {
    if (rtReady && R->exec) return arenaAlloc(n);
    void *p = malloc(n ? n : 1);
    if (!p) abort();
    return p;
}
static void anyFree(void *p) {
    if (!p) return;
    if (rtReady && inArena((u64)p)) {
        if (R->exec) arenaFree(p);
        // else: harness code outside the checked region dropping checked memory; ignored (the arena is reset)
        return;
    }
    free(p);
}
void *operator new(size_t n) { return anyAlloc(n); }
void *operator new[](size_t n) { return anyAlloc(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return anyAlloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return anyAlloc(n); }
void operator delete(void *p) noexcept { anyFree(p); }
void operator delete[](void *p) noexcept { anyFree(p); }
void operator delete(void *p, size_t) noexcept { anyFree(p); }
void operator delete[](void *p, size_t) noexcept { anyFree(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { anyFree(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { anyFree(p); }
void *operator new(size_t n, std::align_val_t al) {
    if (rtReady && R->exec) {
        if ((size_t)al > 16) fail("internal", "over-aligned allocation not supported");
        return arenaAlloc(n);
    }
    return aligned_alloc((size_t)al, (n + (size_t)al - 1) / (size_t)al * (size_t)al);
}
void operator delete(void *p, std::align_val_t) noexcept { anyFree(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { anyFree(p); }

namespace mc {
// ---------------------------------------------------------------------------------------------------------------
// Race detection and validity of plain accesses
static void symName(u64 a, char *out, size_t n) {
    if (inArena(a)) {
        snprintf(out, n, "heap+%llx", (unsigned long long)(a - ARENA));
    } else
        snprintf(out, n, "global %llx", (unsigned long long)a);
}

// If races are not this check's business, the racing location becomes visible: its accesses turn into scheduling
// points, so that the semantic effects of the race are explored (assuming sequential consistency).
static void promote(u64 a);
static void race(u64 a, const char *what, int other) {
    if (R->ignoreRace) {
        promote(a);
        return;
    }
    char nm[64];
    symName(a, nm, sizeof nm);
    fail("race", "data race: %s by thread %d conflicts with an unsynchronised access by thread %d to %s", what, R->cur,
        other, nm);
}

static inline void freshCell(Cell *c) {
    if (UNLIKELY(c->exec != R->execId)) {
        memset(c, 0, sizeof *c);
        c->exec = R->execId;
    }
}

// Cells exist per 4-byte granule; a granule touched by a narrower access is split into per-byte cells.
static inline u64 offOf(u64 a) { return inArena(a) ? a - ARENA : ARENASZ + (a - R->globLo); }
static inline Cell *granule(u64 off) { return (Cell *)SHADOW + (off >> 2); }
static inline Cell *byteCell(u64 off) { return (Cell *)BSHADOW + off; }

enum Acc { A_READ, A_WRITE, A_AREAD, A_AWRITE };

static inline void cellAccess(Cell *c, u64 a, Acc k, int t, const VC &vc) {
    const u16 clk = (u16)vc.c[t];
    if (k == A_READ) {
        if (c->r[t] == clk) return;
    } else if (k == A_WRITE) {
        if (c->wclk == clk && c->wtid == t) return;
    }
    const char *what = k == A_READ ? "read" : k == A_WRITE ? "write" : "atomic access";
    if (c->wclk && c->wtid != t && c->wclk > vc.c[c->wtid]) race(a, what, c->wtid);
    for (int o = 0; o < MAXT; o++) {
        if (o == t) continue;
        if (k <= A_WRITE && c->aw[o] > vc.c[o]) race(a, what, o);
        if (k == A_WRITE && c->ar[o] > vc.c[o]) race(a, what, o);
        if ((k == A_WRITE || k == A_AWRITE) && c->r[o] > vc.c[o]) race(a, what, o);
    }
    switch (k) {
    case A_READ: c->r[t] = clk; break;
    case A_WRITE: c->wclk = clk; c->wtid = t; break;
    case A_AREAD: c->ar[t] = clk; break;
    case A_AWRITE: c->aw[t] = clk; break;
    }
}

static void shadowAccess(u64 a, size_t n, Acc k) {
    const int t = R->cur;
    const VC &vc = R->th[t].vc;
    R->nRaceChecks++;
    u64 off = offOf(a), end = off + n;
    // the globals' base may be unaligned relative to the granules; offsets are what counts
    while (off < end) {
        Cell *g = granule(off);
        freshCell(g);
        u64 gend = (off | 3) + 1;
        if (LIKELY(!(off & 3) && gend <= end && !g->split)) {
            cellAccess(g, a, k, t, vc);
        } else {
            if (!g->split) {
                for (int i = 0; i < 4; i++) *byteCell((off & ~3ull) + i) = *g;
                g->split = 1;
            }
            for (u64 o = off; o < gend && o < end; o++) cellAccess(byteCell(o), a + (o - off), k, t, vc);
        }
        a += gend - off;
        off = gend;
    }
}

static void badState(u64 a, size_t n, const char *what) {
    u8 *s = stateOf(a);
    for (size_t i = 0; i < n; i++)
        if (s[i] != 1)
            fail("memory", "%s of %zu byte(s) %s at heap+%llx", what, n,
                s[i] == 2 ? "in a freed heap block" : "outside any heap block", (unsigned long long)(a + i - ARENA));
}
static inline bool stateOk(u64 a, size_t n) {
    const u8 *s = stateOf(a);
    switch (n) {
    case 1: return s[0] == 1;
    case 2: return *(const u16 *)s == 0x0101;
    case 4: return *(const u32 *)s == 0x01010101u;
    case 8: return *(const u64 *)s == 0x0101010101010101ull;
    default:
        for (size_t i = 0; i < n; i++)
            if (s[i] != 1) return false;
        return true;
    }
}

static void promotedAccess(u64 a, size_t n, bool write);
static void plainAccess(u64 a, size_t n, bool write) {
    if (UNLIKELY(!R->exec)) return;
    if (R->seq && !inArena(a)) {
        if (UNLIKELY(a < 4096)) fail("memory", "null pointer %s", write ? "write" : "read");
        return;
    }
    if (UNLIKELY(++R->accesses > R->accessLimit)) fail("livelock", "runaway execution (memory access budget exceeded)");
    if (inArena(a)) {
        if (UNLIKELY(!stateOk(a, n))) badState(a, n, write ? "write" : "read");
    } else if (!inGlob(a)) {
        if (UNLIKELY(a < 4096)) fail("memory", "null pointer %s", write ? "write" : "read");
        return;
    }
    if (R->seq) return;
    if (UNLIKELY(R->nPromoted)) promotedAccess(a, n, write);
    shadowAccess(a, n, write ? A_WRITE : A_READ);
}

static void atomicShadow(u64 a, size_t n, bool write) {
    if (R->seq) {
        plainAccess(a, n, write);
        return;
    }
    if (UNLIKELY((R->accesses += 64) > R->accessLimit)) fail("livelock", "runaway execution (a thread spins on atomic operations forever)");
    if (inArena(a)) {
        if (UNLIKELY(!stateOk(a, n))) badState(a, n, "atomic access");
    } else if (!inGlob(a)) {
        if (a < 4096) fail("memory", "null pointer atomic access");
        return;
    }
    shadowAccess(a, n, write ? A_AWRITE : A_AREAD);
}

static void hb_write_range(u64 a, size_t n, bool) {
    if (R->seq) return;
    u64 keep = R->nPromoted;
    R->nPromoted = 0; // no scheduling points inside the allocator
    plainAccess(a, n, true);
    R->nPromoted += keep;
}

// ---------------------------------------------------------------------------------------------------------------
// Tables
static Loc *locOf(u64 a) {
    u64 i = (a * 0x9e3779b97f4a7c15ull) >> (64 - LOCBITS);
    for (u64 k = 0;; k++) {
        Loc *l = &R->locs[(i + k) & ((1 << LOCBITS) - 1)];
        if (l->exec != R->execId) {
            memset(l, 0, sizeof *l);
            l->exec = R->execId;
            l->addr = a;
            return l;
        }
        if (l->addr == a) return l;
        if (k > (1 << LOCBITS)) die("location table full");
    }
}
static Shared *sharedOf(u64 a) {
    u64 i = (a * 0x9e3779b97f4a7c15ull) >> (64 - SHBITS);
    for (u64 k = 0;; k++) {
        Shared *l = &R->shared[(i + k) & ((1 << SHBITS) - 1)];
        if (!l->addr) {
            l->addr = a;
            return l;
        }
        if (l->addr == a) return l;
        if (k > (1 << SHBITS)) die("shared table full");
    }
}
static void touch(Shared *s, bool write) {
    u8 bit = 1 << R->cur;
    if (write)
        s->wmask |= bit;
    else
        s->rmask |= bit;
    if (!s->shared && s->wmask && ((s->rmask | s->wmask) & ((s->rmask | s->wmask) - 1))) {
        s->shared = 1;
        R->restart = true;
    }
}

// Visited set (open addressing, grows)
static void vgrow() {
    u64 ncap = R->vcap ? R->vcap * 2 : (1 << 16);
    u64 *nk = (u64 *)mmap(0, ncap * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    u8 *nb = (u8 *)mmap(0, ncap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (nk == MAP_FAILED || nb == MAP_FAILED) die("out of memory for the visited set");
    for (u64 i = 0; i < R->vcap; i++) {
        if (!R->vkeys[i]) continue;
        u64 j = R->vkeys[i] & (ncap - 1);
        while (nk[j]) j = (j + 1) & (ncap - 1);
        nk[j] = R->vkeys[i];
        nb[j] = R->vbud[i];
    }
    if (R->vcap) {
        munmap(R->vkeys, R->vcap * 8);
        munmap(R->vbud, R->vcap);
    }
    R->vkeys = nk;
    R->vbud = nb;
    R->vcap = ncap;
}
static void vclear() {
    if (R->vcap) {
        munmap(R->vkeys, R->vcap * 8);
        munmap(R->vbud, R->vcap);
    }
    R->vcap = R->vcount = 0;
    R->vkeys = nullptr;
    R->vbud = nullptr;
    vgrow();
}
// returns true if the state was already explored with at least this budget
static bool visited(u64 key, u8 budget) {
    if (!key) key = 1;
    if (R->vcount * 2 > R->vcap) vgrow();
    u64 j = key & (R->vcap - 1);
    while (R->vkeys[j]) {
        if (R->vkeys[j] == key) {
            if (R->vbud[j] >= budget + 1) return true;
            R->vbud[j] = budget + 1;
            return false;
        }
        j = (j + 1) & (R->vcap - 1);
    }
    R->vkeys[j] = key;
    R->vbud[j] = budget + 1;
    R->vcount++;
    R->nStates++;
    return false;
}

// ---------------------------------------------------------------------------------------------------------------
// Fibers
static void saveTls(int t) {
    memcpy(R->th[t].tls, (void *)R->tlsLo, R->tlsSize);
    EhGlobals *g = (EhGlobals *)__cxxabiv1::__cxa_get_globals();
    R->th[t].eh = *g;
}
static void loadTls(int t) {
    memcpy((void *)R->tlsLo, R->th[t].tls, R->tlsSize);
    EhGlobals *g = (EhGlobals *)__cxxabiv1::__cxa_get_globals();
    *g = R->th[t].eh;
}

static void threadMain();

static void initFiber(int t) {
    Thread &T = R->th[t];
    u64 top = STACKS + (u64)t * STACKSZ + STACKSZ;
    memset((void *)(top - 8192), 0, 8192);
    u64 *sp = (u64 *)(top - 56);
    *sp = 0;
    *--sp = (u64)threadMain; // return address
    for (int i = 0; i < 6; i++) *--sp = 0;
    T.sp = sp;
    memcpy(T.tls, R->tlsInit, R->tlsSize);
    T.eh = {nullptr, 0};
}

static bool enabledNow(int t) {
    Thread &T = R->th[t];
    switch (T.st) {
    case S_READY:
        return true;
    case S_YIELD:
        return R->writes - T.ownWrites != T.yieldMark;
    default:
        return false;
    }
}

static u64 stateKey(int cur) {
    u64 k = 0x1234567;
    for (int t = 1; t <= R->nthreads; t++) {
        k = mix(k, R->th[t].h);
        k = mix(k, (u64)R->th[t].st * 2 + (R->th[t].st == S_YIELD && enabledNow(t)));
    }
    return mix(k, cur);
}

static void finishExecution();

static void unpark(int t) {
    u64 k = 7;
    for (int i = 1; i <= R->nthreads; i++) k = mix(k, mix(R->th[i].h, R->th[i].st));
    R->th[t].st = S_READY;
    R->th[t].h = k;
    R->forcedWake = 0;
    if (!R->th[t].together) return;
    for (int i = 1; i <= R->nthreads; i++)
        if (i != t && R->th[i].st == S_PARK && R->th[i].together) {
            R->th[i].st = S_READY;
            R->th[i].h = mix(k, i);
        }
}

// Chooses the next thread to run. curRunnable: the current thread could continue.
static int pickNext(bool curRunnable) {
    int cur = R->cur;
    for (;;) {
        int en[MAXT], n = 0;
        bool wake = false;
        if (curRunnable && enabledNow(cur)) en[n++] = cur;
        for (int t = 1; t <= R->nthreads; t++)
            if (!(curRunnable && t == cur) && enabledNow(t)) en[n++] = t;
        if (n == 0) {
            bool yielders = false, parked = false, all = true;
            for (int t = 1; t <= R->nthreads; t++) {
                if (R->th[t].st == S_YIELD) yielders = true;
                if (R->th[t].st == S_PARK) parked = true;
                if (R->th[t].st != S_DONE) all = false;
            }
            if (all) return 0;
            if (yielders && R->forcedWake < 2u * R->nthreads) {
                // give every yielding thread another chance; if nobody ever writes, this is a livelock
                R->forcedWake++;
                for (int t = 1; t <= R->nthreads; t++)
                    if (R->th[t].st == S_YIELD) R->th[t].yieldMark = ~0ull;
                continue;
            }
            if (parked) {
                // every order in which sleepers can be woken is explored
                for (int t = 1; t <= R->nthreads; t++)
                    if (R->th[t].st == S_PARK) en[n++] = t;
                wake = true;
            }
            if (!wake) {
            char buf[256] = "";
            for (int t = 1; t <= R->nthreads; t++) {
                char one[64];
                snprintf(one, sizeof one, " thread %d %s;", t,
                    R->th[t].st == S_DONE ? "finished" : R->th[t].st == S_WAIT ? "asleep in wait" : R->th[t].st == S_MUTEX ? "blocked on a mutex" : "spinning");
                strcat(buf, one);
            }
            fail("deadlock", "no thread can make progress:%s", buf);
            }
        }
        bool forced = false;
        if (curRunnable && n > 1 && en[0] == cur && R->slice > 600) forced = true; // fairness
        // Decision
        int used = R->pre;
        if (R->depth >= MAXSTEPS - 1) fail("livelock", "execution exceeds %d steps", MAXSTEPS);
        Node &nd = R->path[R->depth];
        if (R->replaying) {
            int want = R->depth < R->replayLen ? R->replayChoices[R->depth] : 0;
            nd.kind = 0;
            nd.n = 1;
            nd.pos = 0;
            int pick = en[0];
            if (forced) pick = en[1];
            if (want) {
                pick = 0;
                for (int i = 0; i < n; i++)
                    if (en[i] == want) pick = want;
                if (!pick) die("replay divergence at step %d: thread %d is not enabled", R->depth, want);
            }
            nd.alts[0] = pick;
            R->depth++;
            if (pick != cur) R->slice = 0;
            if (wake) unpark(pick);
            return pick;
        }
        if (R->depth < R->plen) {
            u64 key = stateKey(curRunnable ? cur : 0);
            if (nd.kind != 0 || nd.key != key) die("replay divergence at depth %d", R->depth);
        } else {
            u64 key = stateKey(curRunnable ? cur : 0);
            int budget = R->pb - used;
            if (budget > 250) budget = 250;
            if (visited(key, (u8)budget)) endExec(1);
            nd.kind = 0;
            nd.key = key;
            nd.n = 0;
            nd.pos = 0;
            nd.cur = cur;
            nd.pre = used;
            if (forced) {
                for (int i = 1; i < n; i++) {
                    nd.alts[nd.n] = en[i];
                    nd.cost[nd.n++] = 0;
                }
            } else {
                for (int i = 0; i < n; i++) {
                    u8 cost = (curRunnable && en[0] == cur && en[i] != cur) ? 1 : 0;
                    if (used + cost > R->pb) continue;
                    nd.alts[nd.n] = en[i];
                    nd.cost[nd.n++] = cost;
                }
            }
            R->plen = R->depth + 1;
        }
        int pick = nd.alts[nd.pos];
        R->pre = nd.pre + nd.cost[nd.pos];
        R->depth++;
        if (pick != cur) R->slice = 0;
        if (wake) unpark(pick);
        return pick;
    }
}

static void switchTo(int t) {
    int cur = R->cur;
    if (t == cur) {
        R->th[t].st = S_READY;
        return;
    }
    saveTls(cur);
    loadTls(t);
    R->cur = t;
    R->th[t].st = S_READY;
    mc_switch(&R->th[cur].sp, R->th[t].sp);
}

// scheduling point before the current thread's next shared operation
static void schedPoint() {
    R->steps++;
    R->slice++;
    int t = pickNext(true);
    switchTo(t);
}
// the current thread cannot continue (its status says why)
static void blockSelf() {
    int t = pickNext(false);
    if (t == 0) {
        // all finished: current thread is S_DONE
        endExec(0);
    }
    switchTo(t);
}

static void eventRead(u64 addr, u64 op) {
    Thread &T = R->th[R->cur];
    Loc *l = locOf(addr);
    u64 e = mix(mix(mix(T.h, op), addr), l->lw);
    l->rs += e;
    T.h = e;
    T.spinReads++;
}
static void eventWrite(u64 addr, u64 op) {
    Thread &T = R->th[R->cur];
    Loc *l = locOf(addr);
    u64 e = mix(mix(mix(mix(T.h, op), addr), l->lw), l->rs);
    l->lw = e;
    l->rs = 0;
    T.h = e;
    T.spinReads = 0;
    T.ownWrites++;
    R->writes++;
    R->forcedWake = 0;
}

static void yieldNow() {
    if (!R->scheduling) return;
    Thread &T = R->th[R->cur];
    R->steps++;
    T.h = mix(T.h, 0x7e1d);
    T.st = S_YIELD;
    T.yieldMark = R->writes - T.ownWrites;
    T.spinReads = 0;
    blockSelf();
}

// A shared-operation prologue. Returns true if the location is visible (shared between threads).
static bool opBegin(u64 addr, bool mayWrite) {
    if (!R->scheduling) return false;
    Shared *s = sharedOf(addr);
    touch(s, mayWrite);
    Thread &T = R->th[R->cur];
    bool pinned = T.pinned;
    T.pinned = false;
    if (!s->shared) return false;
    if (pinned) return true;
    if (T.spinReads >= 64) yieldNow();
    schedPoint();
    return true;
}

static const u64 PROMO = 1ull << 62; // tag of promoted plain granules in the tables
static Shared *findShared(u64 a) {
    u64 i = (a * 0x9e3779b97f4a7c15ull) >> (64 - SHBITS);
    for (u64 k = 0;; k++) {
        Shared *l = &R->shared[(i + k) & ((1 << SHBITS) - 1)];
        if (!l->addr) return nullptr;
        if (l->addr == a) return l;
    }
}
static void promote(u64 a) {
    Shared *s = sharedOf((a & ~7ull) | PROMO);
    if (s->shared) return;
    s->shared = 1;
    R->nPromoted++;
    R->restart = true;
}
static void promotedAccess(u64 a, size_t n, bool write) {
    if (!R->scheduling) return;
    for (u64 g = a & ~7ull; g < a + n; g += 8) {
        Shared *s = findShared(g | PROMO);
        if (!s || !s->shared) continue;
        opBegin(g | PROMO, write);
        if (write)
            eventWrite(g | PROMO, 51);
        else
            eventRead(g | PROMO, 50);
    }
}

// --- happens-before effects -------------------------------------------------------------------------------------
static inline bool isAcq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; } // consume acquire acq_rel seq_cst
static inline bool isRel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

static void hbLoad(u64 addr, int mo) {
    Thread &T = R->th[R->cur];
    Loc *l = locOf(addr);
    if (isAcq(mo))
        T.vc.join(l->rel);
    else
        T.acqFence.join(l->rel);
}
static void bumpClock(Thread &T) {
    if (++T.vc.c[R->cur] > 65000) fail("internal", "vector clock overflow");
}
static void hbStore(u64 addr, int mo) {
    Thread &T = R->th[R->cur];
    Loc *l = locOf(addr);
    if (isRel(mo)) {
        l->rel = T.vc;
        bumpClock(T);
    } else
        l->rel = T.relFence;
}
static void hbRmw(u64 addr, int mo) {
    Thread &T = R->th[R->cur];
    Loc *l = locOf(addr);
    VC before = l->rel;
    if (isAcq(mo))
        T.vc.join(before);
    else
        T.acqFence.join(before);
    if (isRel(mo)) {
        l->rel.join(T.vc);
        bumpClock(T);
    } else
        l->rel.join(T.relFence);
}

template<typename T>
static T aLoad(volatile T *a, int mo) {
    if (!rtReady || !R->exec) return *a;
    u64 addr = (u64)a;
    bool vis = opBegin(addr, false);
    atomicShadow(addr, sizeof(T), false);
    if (R->seq) return *a;
    T v = *a;
    if (vis) eventRead(addr, 1);
    hbLoad(addr, mo);
    return v;
}
template<typename T>
static void aStore(volatile T *a, T v, int mo) {
    if (!rtReady || !R->exec) {
        *a = v;
        return;
    }
    u64 addr = (u64)a;
    bool vis = opBegin(addr, true);
    atomicShadow(addr, sizeof(T), true);
    *a = v;
    if (R->seq) return;
    if (vis) eventWrite(addr, 2);
    hbStore(addr, mo);
}
template<typename T, typename F>
static T aRmw(volatile T *a, int mo, F f) {
    if (!rtReady || !R->exec) {
        T o = *a;
        *a = f(o);
        return o;
    }
    u64 addr = (u64)a;
    bool vis = opBegin(addr, true);
    atomicShadow(addr, sizeof(T), true);
    T o = *a;
    *a = f(o);
    if (R->seq) return o;
    if (vis) eventWrite(addr, 3);
    hbRmw(addr, mo);
    return o;
}
template<typename T>
static bool aCas(volatile T *a, T *exp, T des, int mo, int fmo) {
    if (!rtReady || !R->exec) {
        T o = *a;
        if (o == *exp) {
            *a = des;
            return true;
        }
        *exp = o;
        return false;
    }
    u64 addr = (u64)a;
    bool vis = opBegin(addr, true);
    T o = *a;
    if (o == *exp) {
        atomicShadow(addr, sizeof(T), true);
        *a = des;
        if (R->seq) return true;
        if (vis) eventWrite(addr, 4);
        hbRmw(addr, mo);
        return true;
    }
    atomicShadow(addr, sizeof(T), false);
    *exp = o;
    if (R->seq) return false;
    if (vis) eventRead(addr, 5);
    hbLoad(addr, fmo);
    return false;
}

// ---------------------------------------------------------------------------------------------------------------
// Harness primitives
int self() { return R->cur; }
static const u64 RTLOC = 8, CLOCKLOC = 16; // pseudo locations

uint64_t stamp_begin() {
    if (!R->scheduling) return ++R->stampCounter;
    sharedOf(RTLOC)->shared = 1;
    opBegin(RTLOC, false);
    eventRead(RTLOC, 11);
    R->th[R->cur].spinReads = 0;
    return ++R->stampCounter;
}
uint64_t stamp_end() {
    if (!R->scheduling) return ++R->stampCounter;
    sharedOf(RTLOC)->shared = 1;
    opBegin(RTLOC, true);
    // end stamps commute with each other but not with begin stamps
    Thread &T = R->th[R->cur];
    Loc *l = locOf(RTLOC);
    u64 e = mix(mix(mix(T.h, 12), RTLOC), l->rs);
    l->lw += e;
    T.h = e;
    T.spinReads = 0;
    return ++R->stampCounter;
}
void park(bool together) {
    if (!R->scheduling) return;
    schedPoint();
    Thread &T = R->th[R->cur];
    T.together = together;
    T.h = mix(T.h, 0x9a4c + together);
    T.st = S_PARK;
    blockSelf();
}
int choose(int n) {
    if (!R->scheduling && !R->sc) return 0;
    if (R->depth >= MAXSTEPS - 1) fail("livelock", "execution exceeds %d steps", MAXSTEPS);
    Node &nd = R->path[R->depth];
    int c;
    if (R->replaying) {
        c = R->depth < R->replayLen ? R->replayChoices[R->depth] : 0;
        nd.kind = 1; nd.n = 1; nd.pos = 0; nd.alts[0] = c;
    } else if (R->depth < R->plen) {
        if (nd.kind != 1) die("replay divergence at a choice");
        c = nd.alts[nd.pos];
    } else {
        nd.kind = 1;
        nd.n = n;
        nd.pos = 0;
        nd.pre = R->pre;
        nd.cur = R->cur;
        nd.key = 0;
        for (int i = 0; i < n; i++) {
            nd.alts[i] = i;
            nd.cost[i] = 0;
        }
        R->plen = R->depth + 1;
        c = 0;
    }
    R->depth++;
    Thread &T = R->th[R->cur];
    T.h = mix(mix(T.h, 0xc401ce), c);
    return c;
}
bool thread_done(int tid) { return R->th[tid].st == S_DONE; }
bool others_done() {
    for (int t = 1; t <= R->nthreads; t++)
        if (t != R->cur && R->th[t].st != S_DONE) return false;
    return true;
}
bool thread_blocked(int t) { return R->th[t].st == S_WAIT || R->th[t].st == S_YIELD || R->th[t].st == S_MUTEX; }
void outcome(uint64_t h) {
    for (int i = 0; i < R->nOutcomes; i++)
        if (R->outcomes[i] == h) return;
    if (R->nOutcomes < 4096) R->outcomes[R->nOutcomes++] = h;
}

static void threadMain() {
    try {
        R->sc->body(R->cur);
    } catch (std::exception &e) {
        fail("exception", "thread %d: unexpected exception: %s", R->cur, e.what());
    } catch (...) {
        fail("exception", "thread %d: unexpected exception", R->cur);
    }
    Thread &T = R->th[R->cur];
    T.h = mix(T.h, 0xd04e);
    T.st = S_DONE;
    // finishing wakes yielders (a spinning thread may be polling for us) only through memory; nothing to do
    blockSelf();
    die("finished thread resumed");
}

} // namespace mc

// ---------------------------------------------------------------------------------------------------------------
// Callbacks from the instrumented code
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N) \
    void __tsan_read##N(void *a) { if (LIKELY(rtReady)) plainAccess((u64)a, N, false); } \
    void __tsan_write##N(void *a) { if (LIKELY(rtReady)) plainAccess((u64)a, N, true); } \
    void __tsan_unaligned_read##N(void *a) { if (LIKELY(rtReady)) plainAccess((u64)a, N, false); } \
    void __tsan_unaligned_write##N(void *a) { if (LIKELY(rtReady)) plainAccess((u64)a, N, true); } \
    void __tsan_read_write##N(void *a) { if (LIKELY(rtReady)) { plainAccess((u64)a, N, false); plainAccess((u64)a, N, true); } } \
    void __tsan_unaligned_read_write##N(void *a) { if (LIKELY(rtReady)) { plainAccess((u64)a, N, false); plainAccess((u64)a, N, true); } }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **a, void *) { if (LIKELY(rtReady)) plainAccess((u64)a, 8, true); }
void __tsan_vptr_read(void **a) { if (LIKELY(rtReady)) plainAccess((u64)a, 8, false); }
void __tsan_read_range(void *a, unsigned long n) { if (LIKELY(rtReady) && n) plainAccess((u64)a, n, false); }
void __tsan_write_range(void *a, unsigned long n) { if (LIKELY(rtReady) && n) plainAccess((u64)a, n, true); }
void *__tsan_memcpy(void *d, const void *s, size_t n) {
    if (LIKELY(rtReady) && n) { plainAccess((u64)s, n, false); plainAccess((u64)d, n, true); }
    return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
    if (LIKELY(rtReady) && n) { plainAccess((u64)s, n, false); plainAccess((u64)d, n, true); }
    return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
    if (LIKELY(rtReady) && n) plainAccess((u64)d, n, true);
    return memset(d, c, n);
}

#define AT(N, T) \
    T __tsan_atomic##N##_load(const volatile T *a, int mo) { return aLoad<T>((volatile T *)a, mo); } \
    void __tsan_atomic##N##_store(volatile T *a, T v, int mo) { aStore<T>(a, v, mo); } \
    T __tsan_atomic##N##_exchange(volatile T *a, T v, int mo) { return aRmw<T>(a, mo, [=](T) { return v; }); } \
    T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int mo) { return aRmw<T>(a, mo, [=](T o) { return (T)(o + v); }); } \
    T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int mo) { return aRmw<T>(a, mo, [=](T o) { return (T)(o - v); }); } \
    T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int mo) { return aRmw<T>(a, mo, [=](T o) { return (T)(o & v); }); } \
    T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int mo) { return aRmw<T>(a, mo, [=](T o) { return (T)(o | v); }); } \
    T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int mo) { return aRmw<T>(a, mo, [=](T o) { return (T)(o ^ v); }); } \
    T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int mo) { return aRmw<T>(a, mo, [=](T o) { return (T)~(o & v); }); } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *e, T d, int mo, int fmo) { return aCas<T>(a, e, d, mo, fmo); } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *e, T d, int mo, int fmo) { return aCas<T>(a, e, d, mo, fmo); } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T e, T d, int mo, int fmo) { T x = e; aCas<T>(a, &x, d, mo, fmo); return x; }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int mo) {
    if (!rtReady || !R->exec || R->seq) return;
    Thread &T = R->th[R->cur];
    if (isAcq(mo)) T.vc.join(T.acqFence);
    if (isRel(mo)) {
        T.relFence = T.vc;
        bumpClock(T);
    }
}
void __tsan_atomic_signal_fence(int) {}

// --- wait / notify
void mc_wait_prepare(const void *addr) {
    if (!R->exec) die("atomic wait outside of an execution");
    if (!R->scheduling) return;
    // one step: the value test and (if it matches) going to sleep
    u64 a = (u64)addr;
    Shared *s = sharedOf(a);
    touch(s, false);
    R->th[R->cur].pinned = false;
    if (s->shared) {
        schedPoint();
        R->th[R->cur].pinned = true;
    }
    R->th[R->cur].spinReads = 0;
}
void mc_wait_block(const void *addr) {
    Thread &T = R->th[R->cur];
    if (!R->scheduling) fail("deadlock", "single-threaded use blocks forever in an atomic wait");
    T.pinned = false;
    // going to sleep is ordered with notifies on the same address
    eventWrite((u64)addr + 1, 21);
    T.ownWrites--; // not a memory write
    R->writes--;
    T.st = S_WAIT;
    T.waitAddr = (u64)addr;
    blockSelf();
}
void mc_notify(const void *addr, int all) {
    if (!rtReady || !R->exec || !R->scheduling) return;
    u64 a = (u64)addr;
    Shared *s = sharedOf(a);
    touch(s, true);
    if (s->shared) schedPoint();
    eventWrite(a + 1, 22);
    int list[MAXT], n = 0;
    for (int t = 1; t <= R->nthreads; t++)
        if (R->th[t].st == S_WAIT && R->th[t].waitAddr == a) list[n++] = t;
    if (!n) return;
    if (all) {
        for (int i = 0; i < n; i++) R->th[list[i]].st = S_READY;
    } else {
        int i = n > 1 ? choose(n) : 0;
        R->th[list[i]].st = S_READY;
    }
}

// --- wrapped libc functions
int __wrap_sched_yield() {
    if (rtReady && R->exec && R->scheduling) yieldNow();
    return 0;
}
int __wrap_nanosleep(const timespec *, timespec *) {
    if (rtReady && R->exec && R->scheduling) yieldNow();
    return 0;
}
int __wrap_clock_nanosleep(int, int, const timespec *, timespec *) {
    if (rtReady && R->exec && R->scheduling) yieldNow();
    return 0;
}
pthread_t __real_pthread_self();
pthread_t __wrap_pthread_self() {
    if (rtReady && R->exec) return (pthread_t)(0x7000 + (R->seq ? R->slot : R->cur));
    return __real_pthread_self();
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (!rtReady || !R->exec) return 0;
    u64 a = (u64)m;
    for (;;) {
        bool vis = opBegin(a, true);
        if (*(volatile int *)m == 0) {
            *(volatile int *)m = R->cur + 1;
            if (R->seq) return 0;
            if (vis) eventWrite(a, 31);
            hbRmw(a, 2);
            return 0;
        }
        if (!R->scheduling) fail("deadlock", "mutex locked recursively");
        sharedOf(a)->shared = 1;
        eventWrite(a + 1, 32);
        R->th[R->cur].st = S_MUTEX;
        R->th[R->cur].waitAddr = a;
        blockSelf();
    }
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!rtReady || !R->exec) return 0;
    u64 a = (u64)m;
    bool vis = opBegin(a, true);
    if (*(volatile int *)m == 0) {
        *(volatile int *)m = R->cur + 1;
        if (R->seq) return 0;
        if (vis) eventWrite(a, 31);
        hbRmw(a, 2);
        return 0;
    }
    if (vis) eventRead(a, 33);
    return EBUSY;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!rtReady || !R->exec) return 0;
    u64 a = (u64)m;
    bool vis = opBegin(a, true);
    *(volatile int *)m = 0;
    if (R->seq) return 0;
    if (vis) eventWrite(a, 34);
    hbStore(a, 3);
    for (int t = 1; t <= R->nthreads; t++)
        if (R->th[t].st == S_MUTEX && R->th[t].waitAddr == a) R->th[t].st = S_READY;
    return 0;
}
// std::chrono::steady_clock::now / system_clock::now
long __wrap__ZNSt6chrono3_V212steady_clock3nowEv() {
    if (rtReady && R->exec && R->scheduling && (R->sc->flags & F_TIME)) {
        sharedOf(CLOCKLOC)->shared = 1;
        opBegin(CLOCKLOC, true);
        eventWrite(CLOCKLOC, 41);
    }
    return (long)(++R->timeCounter * 1000);
}
long __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return (long)(++R->timeCounter * 1000); }

void __wrap___cxa_pure_virtual() { fail("memory", "pure virtual call"); }
}

// libstdc++ assertions (vector index out of range etc.) become violations
namespace std {
[[noreturn]] void __wrap_assert_impl(const char *file, int line, const char *fn, const char *cond) {
    if (rtReady && R->exec) fail("memory", "libstdc++ assertion: %s", cond ? cond : "?");
    fprintf(stderr, "assertion outside of an execution: %s:%d %s %s\n", file, line, fn, cond);
    _exit(3);
}
} // namespace std
extern "C" [[noreturn]] void __wrap__ZSt21__glibcxx_assert_failPKciS0_S0_(const char *file, int line, const char *fn, const char *cond) {
    std::__wrap_assert_impl(file, line, fn, cond);
}
extern "C" [[noreturn]] void __wrap_abort() {
    if (rtReady && R->exec) fail("crash", "abort() called");
    _exit(3);
}

namespace mc {
// ---------------------------------------------------------------------------------------------------------------
static void onSignal(int sig, siginfo_t *si, void *) {
    if (rtReady && R->exec) {
        fail(sig == SIGFPE ? "crash" : "memory", "signal %d (%s) at address %p", sig, strsignal(sig), si->si_addr);
    }
    fprintf(stderr, "mc: signal %d outside of an execution at %p\n", sig, si->si_addr);
    void *bt[30];
    int n = backtrace(bt, 30);
    backtrace_symbols_fd(bt, n, 2);
    _exit(3);
}
static void onTerminate() {
    if (rtReady && R->exec) {
        std::type_info *ti = abi::__cxa_current_exception_type();
        const char *what = "";
        std::exception_ptr p = std::current_exception();
        if (p) {
            try {
                std::rethrow_exception(p);
            } catch (std::exception &e) {
                what = e.what();
            } catch (...) {
            }
        }
        fail("terminate", "std::terminate called (%s: %s)", ti ? ti->name() : "no exception", what);
    }
    fprintf(stderr, "mc: terminate outside of an execution\n");
    _exit(3);
}

static int phdrCb(struct dl_phdr_info *info, size_t, void *) {
    // the first entry is the main program
    for (int i = 0; i < info->dlpi_phnum; i++) {
        auto &p = info->dlpi_phdr[i];
        if (p.p_type == PT_TLS) {
            u64 align = p.p_align ? p.p_align : 1;
            u64 size = (p.p_memsz + align - 1) / align * align;
            u64 fs;
            asm("mov %%fs:0, %0" : "=r"(fs));
            R->tlsLo = fs - size;
            R->tlsSize = p.p_memsz;
        }
    }
    return 1;
}

static void initRuntime() {
    auto map = [](u64 at, u64 size) {
        void *p = mmap((void *)at, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
        if (p != (void *)at) {
            perror("mmap");
            _exit(3);
        }
    };
    map(RTADDR, sizeof(RT) + 4096);
    map(ARENA, ARENASZ);
    map(STACKS, STACKSZ * MAXT);
    map(STATE, ARENASZ);
    R->globLo = (u64)&__data_start & ~7ull;
    R->globHi = (u64)&_end;
    map(SHADOW, (ARENASZ + (R->globHi - R->globLo) + 4096) / 4 * sizeof(Cell));
    map(BSHADOW, (ARENASZ + (R->globHi - R->globLo) + 4096) * sizeof(Cell));
    R->locs = (Loc *)mmap(0, sizeof(Loc) << LOCBITS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    R->shared = (Shared *)mmap(0, sizeof(Shared) << SHBITS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    R->path = (Node *)mmap(0, sizeof(Node) * MAXSTEPS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    dl_iterate_phdr(phdrCb, nullptr);
    if (R->tlsSize > sizeof R->tlsInit) die("TLS segment too large: %llu", (unsigned long long)R->tlsSize);
    memcpy(R->tlsInit, (void *)R->tlsLo, R->tlsSize);
    R->accessLimit = 20000000;
    R->execId = 1;
    __libc_single_threaded = 0;
    static char *alt = (char *)mmap(0, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    stack_t ss{};
    ss.ss_sp = alt;
    ss.ss_size = 1 << 16;
    sigaltstack(&ss, nullptr);
    struct sigaction sa {};
    sa.sa_sigaction = onSignal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE}) sigaction(s, &sa, nullptr);
    std::set_terminate(onTerminate);
    // warm up lazily initialised library state outside the arena
    try {
        throw 1;
    } catch (int) {
    }
    rtReady = true;
}

// ---------------------------------------------------------------------------------------------------------------
// World snapshots
struct World {
    u8 *glob;
    u8 *heap[MAXT];
    u8 *state[MAXT];
    u64 bump[MAXT], cap[MAXT];
    u64 liveBlocks, liveBytes;
    u8 tls[4096];
    u64 stamp, time;
};
static void worldSave(World &w) {
    u64 g = R->globHi - R->globLo;
    if (!w.glob) w.glob = (u8 *)malloc(g);
    memcpy(w.glob, (void *)R->globLo, g);
    for (int i = 0; i < MAXT; i++) {
        if (R->bump[i] > w.cap[i]) {
            u64 c = R->bump[i] + R->bump[i] / 2 + 4096;
            w.heap[i] = (u8 *)realloc(w.heap[i], c);
            w.state[i] = (u8 *)realloc(w.state[i], c);
            w.cap[i] = c;
        }
        memcpy(w.heap[i], (void *)(ARENA + i * SUBSZ), R->bump[i]);
        memcpy(w.state[i], (void *)(STATE + i * SUBSZ), R->bump[i]);
        w.bump[i] = R->bump[i];
    }
    w.liveBlocks = R->liveBlocks;
    w.liveBytes = R->liveBytes;
    memcpy(w.tls, (void *)R->tlsLo, R->tlsSize);
    w.stamp = R->stampCounter;
    w.time = R->timeCounter;
}
static void worldRestore(World &w) {
    memcpy((void *)R->globLo, w.glob, R->globHi - R->globLo);
    for (int i = 0; i < MAXT; i++) {
        memcpy((void *)(ARENA + i * SUBSZ), w.heap[i], w.bump[i]);
        memcpy((void *)(STATE + i * SUBSZ), w.state[i], w.bump[i]);
        if (R->bump[i] > w.bump[i]) {
            memset((void *)(ARENA + i * SUBSZ + w.bump[i]), 0, R->bump[i] - w.bump[i]);
            memset((void *)(STATE + i * SUBSZ + w.bump[i]), 0, R->bump[i] - w.bump[i]);
        }
        R->bump[i] = w.bump[i];
    }
    R->liveBlocks = w.liveBlocks;
    R->liveBytes = w.liveBytes;
    memcpy((void *)R->tlsLo, w.tls, R->tlsSize);
    R->stampCounter = w.stamp;
    R->timeCounter = w.time;
}
static World *rootWorld;

// ---------------------------------------------------------------------------------------------------------------
// One execution
static int runOnce() {
    R->execId++;
    if (R->execId == 0) R->execId = 1;
    worldRestore(*rootWorld);
    R->writes = 0;
    R->slice = 0;
    R->forcedWake = 0;
    R->steps = 0;
    R->accesses = 0;
    R->depth = 0;
    R->pre = 0;
    R->kind[0] = R->msg[0] = R->notes[0] = 0;
    VC zero;
    memset(&zero, 0, sizeof zero);
    for (int t = 0; t < MAXT; t++) {
        Thread &T = R->th[t];
        T.st = t >= 1 && t <= R->nthreads ? S_READY : S_NONE;
        T.vc = zero;
        T.vc.c[0] = 1; // everything done by setup happens before
        T.vc.c[t] = t ? 1 : 2;
        T.acqFence = T.relFence = zero;
        T.h = mix(0x55, t);
        T.ownWrites = T.yieldMark = 0;
        T.spinReads = 0;
        T.pinned = false;
        T.waitAddr = 0;
        if (t >= 1 && t <= R->nthreads) initFiber(t);
    }
    saveTls(0);
    R->exec = true;
    R->scheduling = true;
    R->cur = 0;
    int first;
    // the first decision is made on the explorer's stack
    struct Launch {
        static void go(int first) {
            loadTls(first);
            R->cur = first;
            mc_switch(&R->explorerSp, R->th[first].sp);
        }
    };
    // pickNext may prune the very first state via endExec -> needs explorerSp: run it from a helper fiber
    static bool usePick;
    usePick = true;
    // emulate: the root state is visited once only, handled by plen
    first = 0;
    {
        // direct inline decision for step 0
        Node &nd = R->path[0];
        if (R->replaying) {
            int want = R->replayLen > 0 ? R->replayChoices[0] : 0;
            first = want ? want : 1;
            nd.kind = 0;
            nd.n = 1;
            nd.pos = 0;
            nd.alts[0] = first;
        } else {
            if (R->plen == 0) {
                nd.kind = 0;
                nd.key = 0;
                nd.n = 0;
                nd.pos = 0;
                nd.pre = 0;
                nd.cur = 0;
                for (int t = 1; t <= R->nthreads; t++) {
                    nd.alts[nd.n] = t;
                    nd.cost[nd.n++] = 0;
                }
                R->plen = 1;
                R->nStates++;
            }
            first = nd.alts[nd.pos];
        }
        R->depth = 1;
    }
    Launch::go(first);
    // back here: execution ended
    R->scheduling = false;
    R->nExec++;
    R->nSteps += R->depth;
    if ((u64)R->depth > R->maxDepth) R->maxDepth = R->depth;
    loadTls(0);
    int reason = R->endReason;
    if (reason == 0) {
        // all threads finished: run the final check with everything ordered before it
        R->nComplete++;
        R->cur = 0;
        VC all = R->th[0].vc;
        for (int t = 1; t <= R->nthreads; t++) all.join(R->th[t].vc);
        R->th[0].vc = all;
        bumpClock(R->th[0]);
        if (R->sc->finish) {
            // run on fiber 0's stack so that a failure can unwind to us
            struct F {
                static void main0() {
                    try {
                        R->sc->finish();
                    } catch (std::exception &e) {
                        fail("exception", "final check: unexpected exception: %s", e.what());
                    }
                    endExec(0);
                }
            };
            u64 top = STACKS + STACKSZ;
            u64 *sp = (u64 *)(top - 56);
            *sp = 0;
            *--sp = (u64)F::main0;
            for (int i = 0; i < 6; i++) *--sp = 0;
            R->exec = true;
            EhGlobals *g = (EhGlobals *)__cxxabiv1::__cxa_get_globals();
            *g = {nullptr, 0};
            mc_switch(&R->explorerSp, sp);
            reason = R->endReason;
        }
    }
    R->exec = false;
    EhGlobals *g = (EhGlobals *)__cxxabiv1::__cxa_get_globals();
    *g = {nullptr, 0};
    R->cur = 0;
    return reason;
}

static bool advance() {
    // backtrack: find the deepest node with an untried alternative
    int d = R->plen - 1;
    while (d >= 0) {
        Node &nd = R->path[d];
        if (nd.pos + 1 < nd.n) {
            nd.pos++;
            R->plen = d + 1;
            return true;
        }
        d--;
    }
    return false;
}

static void resetExploration() {
    R->plen = 0;
    R->restart = false;
    vclear();
    R->nExec = R->nPruned = R->nSteps = R->nStates = R->nComplete = 0;
    R->maxDepth = 0;
    R->nOutcomes = 0;
}

static bool setupScenario(const Scenario *sc) {
    R->sc = sc;
    R->nthreads = sc->nthreads;
    R->scheduling = false;
    R->cur = 0;
    R->th[0].vc.c[0] = 1;
    if (sc->setup && guarded([](void *p) { ((const Scenario *)p)->setup(); }, (void *)sc)) return false;
    if (!rootWorld) rootWorld = (World *)calloc(1, sizeof(World));
    worldSave(*rootWorld);
    return true;
}

// 0 = exhausted, 1 = violation, 2 = capped
static int explore(int pb) {
    R->pb = pb;
again:
    resetExploration();
    for (;;) {
        int r = runOnce();
        if (r == 2) {
            char pat[48];
            snprintf(pat, sizeof pat, ",%s,", R->kind);
            if (!strstr(R->ignore, pat)) return 1;
            R->nIgnored++;
        }
        if (r == 1) R->nPruned++;
        if (R->restart) goto again;
        if (R->maxExec && R->nExec >= R->maxExec) return 2;
        if (R->deadline > 0 && (R->nExec & 255) == 0 && now() > R->deadline) return 2;
        if (!advance()) return 0;
    }
}

static void jsonStr(FILE *f, const char *s) {
    fputc('"', f);
    for (; *s; s++) {
        unsigned char c = *s;
        if (c == '"' || c == '\\')
            fprintf(f, "\\%c", c);
        else if (c < 32)
            fprintf(f, "\\u%04x", c);
        else
            fputc(c, f);
    }
    fputc('"', f);
}

static void printSchedule(FILE *f) {
    fputc('[', f);
    for (int i = 0; i < R->depth; i++) fprintf(f, "%s%d", i ? "," : "", R->path[i].alts[R->path[i].pos]);
    fputc(']', f);
}

int main(int argc, char **argv, const Scenario *list, int n, const Scenario *(*resolve)(const char *)) {
    initRuntime();
    const char *name = nullptr, *replay = nullptr;
    int pb = 2, pbFrom = -1;
    double secs = 0;
    u64 maxExec = 0;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--list") {
            for (int k = 0; k < n; k++) printf("%s\n", list[k].name);
            return 0;
        } else if (a == "--run" && i + 1 < argc)
            name = argv[++i];
        else if (a == "--pb" && i + 1 < argc)
            pb = atoi(argv[++i]);
        else if (a == "--pb-from" && i + 1 < argc)
            pbFrom = atoi(argv[++i]);
        else if (a == "--secs" && i + 1 < argc)
            secs = atof(argv[++i]);
        else if (a == "--max-exec" && i + 1 < argc)
            maxExec = strtoull(argv[++i], 0, 10);
        else if (a == "--ignore" && i + 1 < argc)
        {
            snprintf(R->ignore, sizeof R->ignore, ",%s,", argv[++i]);
            R->ignoreRace = strstr(R->ignore, ",race,") != nullptr;
        } else if (a == "--shared" && i + 1 < argc) {
            for (const char *p = argv[++i]; *p;) {
                char *e;
                u64 v = strtoull(p, &e, 16);
                if (e == p) {
                    p++;
                    continue;
                }
                sharedOf(v)->shared = 1;
                if (v & PROMO) R->nPromoted++;
                p = e;
            }
        }
        else if (a == "--replay" && i + 1 < argc)
            replay = argv[++i];
        else {
            fprintf(stderr, "bad argument %s\n", a.c_str());
            return 3;
        }
    }
    const Scenario *sc = nullptr;
    for (int k = 0; k < n && name; k++)
        if (!strcmp(list[k].name, name)) sc = &list[k];
    if (!sc && resolve && name) sc = resolve(name);
    if (!sc) {
        fprintf(stderr, "no such scenario %s\n", name ? name : "(none)");
        return 3;
    }
    R->maxExec = maxExec;
    if (!setupScenario(sc)) {
        printf("{\"scenario\":");
        jsonStr(stdout, sc->name);
        printf(",\"result\":\"violation\",\"pb_completed\":-1,\"capped\":false,\"executions\":1,\"transitions\":0,\"states\":1,\"outcomes\":0,\"kind\":");
        jsonStr(stdout, R->kind);
        printf(",\"message\":");
        jsonStr(stdout, R->msg);
        printf(",\"notes\":\"in setup\",\"pb\":0,\"schedule\":[]}\n");
        return 1;
    }
    double t0 = now();
    if (replay) {
        u8 *ch = (u8 *)raw_alloc(MAXSTEPS);
        int len = 0;
        for (const char *p = replay; *p && len < MAXSTEPS;) {
            char *e;
            long v = strtol(p, &e, 10);
            if (e == p) {
                p++;
                continue;
            }
            ch[len++] = (u8)v;
            p = e;
        }
        R->replaying = true;
        R->replayChoices = ch;
        R->replayLen = len;
        int r = runOnce();
        printf("{\"scenario\":");
        jsonStr(stdout, sc->name);
        printf(",\"result\":\"%s\"", r == 2 ? "violation" : "ok");
        if (r == 2) {
            printf(",\"kind\":");
            jsonStr(stdout, R->kind);
            printf(",\"message\":");
            jsonStr(stdout, R->msg);
            printf(",\"notes\":");
            jsonStr(stdout, R->notes);
        }
        printf("}\n");
        return r == 2 ? 1 : 0;
    }
    if (pbFrom < 0) pbFrom = pb < 2 ? pb : 1;
    int donePb = -1, r = 0;
    u64 totExec = 0, totSteps = 0, states = 0, complete = 0;
    bool capped = false;
    u64 st_exec = 0, st_steps = 0, st_states = 0, st_complete = 0, st_maxdepth = 0;
    int st_out = 0;
    for (int b = pbFrom; b <= pb; b++) {
        if (secs > 0) R->deadline = t0 + secs;
        r = explore(b);
        totExec += R->nExec;
        totSteps += R->nSteps;
        states = R->nStates;
        complete = R->nComplete;
        if (r == 0) {
            donePb = b;
            st_exec = R->nExec;
            st_steps = R->nSteps;
            st_states = states;
            st_complete = complete;
            st_maxdepth = R->maxDepth;
            st_out = R->nOutcomes;
        }
        if (r == 1) break;
        if (r == 2) {
            capped = true;
            break;
        }
    }
    printf("{\"scenario\":");
    jsonStr(stdout, sc->name);
    printf(",\"result\":\"%s\",\"pb_completed\":%d,\"capped\":%s,\"executions\":%llu,\"transitions\":%llu,\"states\":%llu,"
           "\"complete\":%llu,\"max_depth\":%llu,\"outcomes\":%d,\"total_executions\":%llu,\"total_transitions\":%llu,\"ignored\":%llu,\"secs\":%.3f",
        r == 1 ? "violation" : "ok", donePb, capped ? "true" : "false", (unsigned long long)st_exec, (unsigned long long)st_steps,
        (unsigned long long)st_states, (unsigned long long)st_complete, (unsigned long long)st_maxdepth, st_out,
        (unsigned long long)totExec, (unsigned long long)totSteps, (unsigned long long)R->nIgnored, now() - t0);
    if (r == 1) {
        printf(",\"kind\":");
        jsonStr(stdout, R->kind);
        printf(",\"message\":");
        jsonStr(stdout, R->msg);
        printf(",\"notes\":");
        jsonStr(stdout, R->notes);
        printf(",\"pb\":%d,\"shared\":\"", R->pb);
        for (int i = 0, k = 0; i < (1 << SHBITS); i++)
            if (R->shared[i].shared) printf("%s%llx", k++ ? "," : "", (unsigned long long)R->shared[i].addr);
        printf("\",\"schedule\":");
        printSchedule(stdout);
    }
    printf("}\n");
    return r == 1 ? 1 : 0;
}

// ---------------------------------------------------------------------------------------------------------------
// Sequential explorer support
// Long set-up phases of sequential harnesses: no runaway, and the freed blocks at the end of the heap may be used again.
void progress() {
    R->accesses = 0;
    for (int h = 0; h < MAXT; h++) {
        u64 base = ARENA + h * SUBSZ, p = 0, end = 0;
        while (p < R->bump[h]) {
            u64 n = *(u64 *)(base + p + 16);
            bool used = *(u64 *)(base + p + 24) == 0xA110C0DEull;
            p += 48 + ((n + 15) & ~15ull);
            if (used) end = p;
        }
        if (end < R->bump[h]) {
            memset((void *)(base + end), 0, R->bump[h] - end);
            memset((void *)(STATE + h * SUBSZ + end), 0, R->bump[h] - end);
            R->bump[h] = end;
        }
    }
}
void seq_init() {
    initRuntime();
    R->seq = true;
    R->cur = 0;
    R->accessLimit = 20000000;
    // keep the snapshot stack's own state out of the snapshots
}
struct SeqState { World *w[64]; int n; };
static SeqState *ss() {
    static SeqState *p = (SeqState *)mmap(0, sizeof(SeqState), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    return p;
}
void snap_push() {
    SeqState *s = ss();
    bool e = R->exec;
    R->exec = false;
    if (s->n >= 64) die("snapshot stack overflow");
    if (!s->w[s->n]) s->w[s->n] = (World *)calloc(1, sizeof(World));
    worldSave(*s->w[s->n]);
    s->n++;
    R->exec = e;
}
void snap_restore() {
    SeqState *s = ss();
    worldRestore(*s->w[s->n - 1]);
}
void snap_pop() { ss()->n--; }
void set_exec(bool on) { R->exec = on; }
void *raw_alloc(size_t n) {
    void *p = mmap(0, (n + 4095) & ~4095ull, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) die("raw_alloc");
    return p;
}
const char *guarded(void (*fn)(void *), void *arg) {
    R->kind[0] = R->msg[0] = R->notes[0] = 0;
    R->accesses = 0;
    softKind[0] = 0;
    softWanted = nullptr;
    if (setjmp(R->seqJmp)) {
        R->inGuard = false;
        R->exec = false;
        EhGlobals *g = (EhGlobals *)__cxxabiv1::__cxa_get_globals();
        *g = {nullptr, 0};
        return R->msg;
    }
    R->inGuard = true;
    R->exec = true;
    fn(arg);
    R->exec = false;
    R->inGuard = false;
    return nullptr;
}
const char *fail_kind() { return R->kind; }
// The thread-locals of the other slots live in ordinary globals, so that they are part of the snapshots.
static u8 slotTls[MAXT][4096];
static bool slotUsed[MAXT];
static int curSlot;
void set_tls_slot(int slot) {
    if (slot == curSlot) return;
    memcpy(slotTls[curSlot], (void *)R->tlsLo, R->tlsSize);
    slotUsed[curSlot] = true;
    memcpy((void *)R->tlsLo, slotUsed[slot] ? slotTls[slot] : R->tlsInit, R->tlsSize);
    curSlot = slot;
}
} // namespace mc
