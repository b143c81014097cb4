// Common parts of the schedule harnesses: components, transaction log and the precedence-graph oracle.
#pragma once
#include "rt.h"

#include <Tecs.hh>

#include <cstdint>
#include <cstring>

namespace h {
    // The value of a component is the id of the transaction that wrote it (0 = initial state). `mirror` always equals
    // ~id; a mismatch means a torn value.
    struct A {
        uint32_t id = 0, mirror = ~0u;
        A() {}
        A(uint32_t id) : id(id), mirror(~id) {}
    };
    // B owns heap memory, so that copying or releasing it at the wrong time is a memory error or a race.
    struct B {
        uint32_t *p;
        B() : p(new uint32_t(0)) {}
        B(uint32_t id) : p(new uint32_t(id)) {}
        B(const B &o) : p(new uint32_t(*o.p)) {}
        B(B &&o) noexcept : p(o.p) { o.p = nullptr; }
        B &operator=(const B &o) {
            if (!p) p = new uint32_t(0);
            *p = *o.p;
            return *this;
        }
        B &operator=(B &&o) noexcept {
            uint32_t *t = p;
            p = o.p;
            o.p = t;
            return *this;
        }
        ~B() { delete p; }
        uint32_t id() const { return *p; }
    };
    struct G {
        uint32_t id = 0, mirror = ~0u;
        G() {}
        G(uint32_t id) : id(id), mirror(~id) {}
    };
} // namespace h
TECS_GLOBAL_COMPONENT(h::G);

namespace h {
#ifdef MENU_REVERSED
    using ECS = Tecs::ECS<G, B, A>; // locks are acquired and committed in this order
#else
    using ECS = Tecs::ECS<A, B, G>;
#endif
    using Tecs::AddRemove;
    using Tecs::Entity;
    using Tecs::Read;
    using Tecs::ReadAll;
    using Tecs::Write;
    using Tecs::WriteAll;

    inline uint32_t val(const A &a) {
        MC_CHECK("torn", a.mirror == ~a.id, "torn component value");
        return a.id;
    }
    inline uint32_t val(const B &b) { return b.id(); }
    inline uint32_t val(const G &g) {
        MC_CHECK("torn", g.mirror == ~g.id, "torn global component value");
        return g.id;
    }

    // ---- items: everything a transaction can observe -----------------------------------------------------------
    constexpr int NE = 7;                 // entity handles tracked: e0..e2 initial, others created during the run
    constexpr uint32_t ABSENT = 0xffff;   // component missing / entity not existing
    constexpr uint32_t PRESENT = 0xfffe;  // presence without a version (lists)
    enum { IT_A = 0, IT_B = NE, IT_EX = 2 * NE, IT_G = 3 * NE, NIT };
    extern Entity handles[NE];            // known handles (index = slot)

    struct Tx {
        bool used, ended;
        int kind;
        size_t txid;          // GetTransactionId()
        uint32_t instance;    // identifier of the instance created by the transaction's thread (kind 27), 0 = none
        uint64_t bc, br, ec, er;
        uint32_t seen[NIT];   // committed version observed (as previous / at start); 0xffffffff = not observed
        uint32_t wrote[NIT];  // version written (own id or ABSENT), 0xffffffff = not written
    };
    constexpr int PER = 3;                // transactions per thread
    constexpr int NTX = 1 + (mc::MAXT > 4) + (mc::MAXT - 1) * PER; // id 0 = initial state, the last one = main thread
    extern Tx txs[NTX];
    extern int txCount[mc::MAXT];
    extern uint32_t init[NIT];
    constexpr uint32_t NONE = 0xffffffffu;

    inline const char *itemName(int it, char *buf) {
        if (it < IT_B)
            snprintf(buf, 32, "A(e%d)", it - IT_A);
        else if (it < IT_EX)
            snprintf(buf, 32, "B(e%d)", it - IT_B);
        else if (it < IT_G)
            snprintf(buf, 32, "exists(e%d)", it - IT_EX);
        else
            snprintf(buf, 32, "G");
        return buf;
    }

    inline int newTx(int kind) {
        int t = mc::self();
        int id = t == 0 ? NTX - 1 : 1 + (t - 1) * PER + txCount[t]++;
        Tx &x = txs[id];
        x.used = true;
        x.kind = kind;
        for (int i = 0; i < NIT; i++) x.seen[i] = x.wrote[i] = NONE;
        return id;
    }
    inline void see(int id, int it, uint32_t v) {
        Tx &x = txs[id];
        if (x.seen[it] != NONE) {
            bool same = x.seen[it] == v;
            // presence seen through a list is compatible with any version
            if (v == PRESENT && x.seen[it] != ABSENT) return;
            if (x.seen[it] == PRESENT && v != ABSENT) {
                x.seen[it] = v;
                return;
            }
            char b[32];
            MC_CHECK("unstable", same, "tx%d observed %s change from version %u to %u during the transaction", id,
                itemName(it, b), x.seen[it], v);
            return;
        }
        x.seen[it] = v;
    }
    inline void wrote(int id, int it, uint32_t v) { txs[id].wrote[it] = v; }
    void checkHistory();   // the oracle
    void checkIds();       // transaction and instance identifiers
    void checkFinal(ECS &ecs);
} // namespace h
