// Harness "trace": performance traces (C20).
#pragma once
#include "rt.h"
#include <cstdint>
namespace h {
    using mc::MAXT;
    constexpr int NR = 5;               // resources: transactions, metadata, A, B, G
    enum { T_INVALID, T_START, T_END, T_RWAIT, T_R, T_RU, T_WWAIT, T_W, T_CWAIT, T_C, T_CU, T_WU };
    enum { M_NONE, M_READ, M_WRITE, M_COMMIT, M_MAYCOMMIT };
    struct Kind {
        char c;
        const char *name;
        int mode[NR];                   // index 0 unused
    };
    constexpr int NK = 12;
    extern const Kind kinds[NK];
    int kindOf(char c);
    struct Ev { int type, thread; uint64_t time; };
    constexpr int MAXEV = 600;
    // implemented outside of the instrumented code
    void resetAll(int maxEvents);
    void setThreadId(int thread, uint64_t id);
    int threadById(uint64_t id);
    void wroteA();
    uint32_t writesOfA();
    void txBegin(int thread, int kind);
    void txStarted(int thread);         // StartTransaction() has returned
    void hookCalled(int thread, int phase, uint64_t time);
    void external(int phase, const char *permissions);
    void txEnd(int thread);
    void traceStarting();               // StartTrace() is about to be called (by the controlling thread)
    void traceStarted();
    void traceStopping();
    void mustWait(int thread);          // this thread was seen blocked
    void checkTrace(int n[NR], Ev ev[NR][MAXEV], bool exactOneThread);
}
