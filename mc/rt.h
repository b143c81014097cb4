// Model-checking runtime: public interface used by harnesses.
#pragma once
#include <cstdint>
#include <cstddef>

namespace mc {
#ifndef RT_MAXT
    #define RT_MAXT 4
#endif
    constexpr int MAXT = RT_MAXT; // main (0) + up to 3 (or more) threads

    struct Scenario {
        const char *name;
        int nthreads;
        void (*setup)();           // runs once, single-threaded; its final state is the root of every execution
        void (*body)(int tid);     // tid = 1..nthreads
        void (*finish)();          // runs at the end of every complete execution, single-threaded
        unsigned flags;
    };
    enum { F_TIME = 1 /* clock reads are ordered events */ };

    // Called from harness threads
    int self();                                     // 1..n in threads, 0 in setup/finish
    uint64_t stamp_begin();                         // real-time stamp of a call (reads the real-time order)
    uint64_t stamp_end();                           // real-time stamp of a return (writes the real-time order)
    void park(bool together = false);               // sleep until every other thread is blocked, parked or finished
                                                    // (together: all such sleepers wake at once, otherwise one of them)
    int choose(int n);                              // nondeterministic environment answer 0..n-1
    bool others_done();                             // all other threads have finished
    bool thread_done(int tid);
    bool thread_blocked(int tid);                   // thread is asleep (wait/yield/mutex), not parked
    void outcome(uint64_t h);                       // record an observed outcome (distinct outcomes are counted)
    [[noreturn]] void fail(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    // A failed check of a kind this run does not decide: noted, and the remaining checks of the same state still run.
    // (Scheduled runs: in the final checks only. Sequential runs: the harness calls soft_end() after its checks.)
    bool lenient(const char *kind);
    void soft_kinds(bool (*wanted)(const char *kind));   // sequential harnesses: which kinds this run decides
    void soft_end();                                     // fails if a check was passed over since the last call
    void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // appended to the violation text

    // Heap accounting of the code under test
    size_t live_blocks();
    size_t live_bytes();

    int main(int argc, char **argv, const Scenario *list, int n, const Scenario *(*resolve)(const char *) = nullptr);

    // ---- direct use by the sequential explorer ----
    void seq_init();                 // switch on arena + checks, single thread, no scheduling
    struct Snap { size_t id; };
    void snap_push();                // save state of the world (arena, globals, TLS)
    void snap_restore();             // restore the most recent saved state (keeps it on the stack)
    void snap_pop();                 // drop it
    void set_exec(bool on);          // arena allocation + checking on/off (off = harness/oracle code)
    void *raw_alloc(size_t n);       // memory outside the snapshot (zeroed)
    // Runs fn(arg) so that a failure (fail(), bad access, crash, assertion, runaway) returns its text, else null
    const char *guarded(void (*fn)(void *), void *arg);
    void progress();                 // the current operation is long, but it is not a runaway
    const char *fail_kind();
    void set_tls_slot(int slot);     // emulate being on another thread (thread-locals of slot 0..MAXT-1)
}
#define MC_CHECK(kind, cond, ...) do { if (!(cond) && !::mc::lenient(kind)) ::mc::fail(kind, __VA_ARGS__); } while (0)
