// Harness "obs": observers polled, registered and stopped while other threads commit (C15).
#pragma once
#include "rt.h"
#include <cstdint>
namespace h {
    enum { O_ENT, O_A, O_B, O_G, NOT };
    struct Event {
        int type;       // 1 added, 2 removed
        uint64_t e;     // entity (0 for globals)
        uint32_t v;
    };
    // implemented outside of the instrumented code
    void oracleReset();
    // Commit number n is about to happen: one call per expected event
    void commitEvent(int n, int otype, Event ev);
    int  obsNew(int otype, int firstCommit, int thread);   // registered; receives commits >= firstCommit
    void obsPolled(int o, int k, Event ev);      // event polled in a transaction whose snapshot has k commits
    void obsDrained(int o, int k);               // the poll found nothing more
    void obsStopped(int o);                      // nothing may be polled from now on
    void oracleCheck();
}
