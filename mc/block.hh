// Harness "block": who may wait for whom (C05) and who may overtake whom (C06).
// Transactions can be held open ("h") or started late ("p"): the thread sleeps until no other thread can move.
#pragma once
#include "rt.h"
#include <cstdint>
namespace h {
    enum { META = 1, CA = 2, CB = 4, CG = 8, ALL = 15 };
    enum Phase { IDLE, STARTING, ACTIVE, ENDING };
    struct KindInfo {
        int rp, wp;   // items it may read only / write
        int wr;       // items it really changes
        const char *name;
    };
    constexpr int NKINDS = 38;
    extern const KindInfo kinds[NKINDS];
    constexpr int NI = 4, NTX = 1 + 4 * (mc::MAXT - 1);
    // implemented outside of the instrumented code
    int  txBegin(int kind);                       // phase STARTING
    void txStarted(int id);
    void txSaw(int id, int item, uint32_t version); // item index 0..3
    void txWrote(int id, int item, uint32_t version);
    void txEnding(int id);
    void txEnded(int id);
    void quiescent();                             // called right after a park
    void checkAll();
    void resetAll();
}
