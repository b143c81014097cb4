// The transaction menu: every kind is one transaction with fixed permissions and a fixed body.
#pragma once
#include "sched.hh"

namespace h {
    extern ECS *world;

    // Every handle that this or another transaction may have issued for a slot: the list must agree with it
    extern Entity probes[NE][3];
    extern int nprobes;
    template<typename L, typename V, typename F>
    inline void probeList(const L &lock, const V &view, const char *what, F has) {
        for (int i = 0; i < NE; i++)
            for (int g = 0; g < nprobes; g++) {
                bool in = false;
                for (auto e : view) in |= e == probes[i][g];
                MC_CHECK("snapshot", has(probes[i][g], lock) == in, "entity index %d, generation %d is%s in the %s list of the same snapshot, but the handle says otherwise", i, g + 1, in ? "" : " not", what);
            }
    }
    template<typename T, typename V>
    inline void listPresence(int id, int item, const V &view) {
        bool in[NE] = {};
        for (auto e : view) {
            if (!e) continue;
            MC_CHECK("list", e.index < NE, "entity list contains an unexpected entity index %u", (unsigned)e.index);
            MC_CHECK("list", !in[e.index], "entity list contains index %u twice", (unsigned)e.index);
            in[e.index] = true;
        }
        for (int i = 0; i < NE; i++) see(id, item + i, in[i] ? PRESENT : ABSENT);
    }

    // Observe the committed state through every permission the lock has.
    template<typename L>
    inline void look(const L &lock, int id) {
        listPresence<void>(id, IT_EX, lock.PreviousEntities());
        listPresence<A>(id, IT_A, lock.template PreviousEntitiesWith<A>());
        listPresence<B>(id, IT_B, lock.template PreviousEntitiesWith<B>());
        probeList(lock, lock.PreviousEntities(), "previous entity", [](Entity e, const L &l) { return e.Existed(l); });
        probeList(lock, lock.template PreviousEntitiesWith<A>(), "previous A", [](Entity e, const L &l) { return e.template Had<A>(l); });
        for (auto e : lock.PreviousEntities()) {
            MC_CHECK("snapshot", e.Existed(lock), "listed entity does not exist in the same snapshot");
            if constexpr (Tecs::is_read_allowed<A, L>()) {
                see(id, IT_A + e.index, e.template Had<A>(lock) ? val(e.template GetPrevious<A>(lock)) : ABSENT);
            } else {
                see(id, IT_A + e.index, e.template Had<A>(lock) ? PRESENT : ABSENT);
            }
            if constexpr (Tecs::is_read_allowed<B, L>()) {
                see(id, IT_B + e.index, e.template Had<B>(lock) ? val(e.template GetPrevious<B>(lock)) : ABSENT);
            } else {
                see(id, IT_B + e.index, e.template Had<B>(lock) ? PRESENT : ABSENT);
            }
        }
        if constexpr (Tecs::is_read_allowed<G, L>()) {
            see(id, IT_G, lock.template Had<G>() ? val(lock.template GetPrevious<G>()) : ABSENT);
        } else {
            see(id, IT_G, lock.template Had<G>() ? PRESENT : ABSENT);
        }
    }
    // Before any write of its own, the current view must equal the snapshot.
    template<typename L>
    inline void lookCurrent(const L &lock, int id) {
        listPresence<void>(id, IT_EX, lock.Entities());
        listPresence<A>(id, IT_A, lock.template EntitiesWith<A>());
        listPresence<B>(id, IT_B, lock.template EntitiesWith<B>());
        probeList(lock, lock.Entities(), "entity", [](Entity e, const L &l) { return e.Exists(l); });
        probeList(lock, lock.template EntitiesWith<B>(), "B", [](Entity e, const L &l) { return e.template Has<B>(l); });
        for (auto e : lock.Entities()) {
            MC_CHECK("snapshot", e.Exists(lock), "listed entity does not exist in the same snapshot");
            if constexpr (Tecs::is_read_allowed<A, L>()) {
                see(id, IT_A + e.index, e.template Has<A>(lock) ? val(e.template Get<const A>(lock)) : ABSENT);
            }
            if constexpr (Tecs::is_read_allowed<B, L>()) {
                see(id, IT_B + e.index, e.template Has<B>(lock) ? val(e.template Get<const B>(lock)) : ABSENT);
            }
        }
        if constexpr (Tecs::is_read_allowed<G, L>()) {
            if (lock.template Has<G>()) see(id, IT_G, val(lock.template Get<const G>()));
            else see(id, IT_G, ABSENT);
        }
    }

    template<typename T, typename L>
    inline void put(const L &lock, int id, int slot) {
        Entity e = handles[slot];
        if (!e.Has<T>(lock)) return;
        e.Get<T>(lock) = T((uint32_t)id);
        wrote(id, (std::is_same_v<T, A> ? IT_A : IT_B) + slot, id);
        MC_CHECK("ownwrite", val(e.Get<const T>(lock)) == (uint32_t)id, "a transaction does not see its own write");
    }
    template<typename L>
    inline void putG(const L &lock, int id) {
        if (!lock.template Has<G>()) return;
        lock.template Set<G>((uint32_t)id);
        wrote(id, IT_G, id);
    }
    template<typename L>
    inline void create(const L &lock, int id) {
        Entity e = lock.NewEntity();
        MC_CHECK("list", e.index < NE, "new entity has an unexpected index %u", (unsigned)e.index);
        handles[e.index] = e;
        e.Set<A>(lock, (uint32_t)id);
        e.Set<B>(lock, (uint32_t)id);
        wrote(id, IT_EX + e.index, id);
        wrote(id, IT_A + e.index, id);
        wrote(id, IT_B + e.index, id);
    }
    template<typename L>
    inline void destroy(const L &lock, int id, int slot) {
        Entity e = handles[slot];
        if (!e.Exists(lock)) return;
        bool a = e.Has<A>(lock), b = e.Has<B>(lock);
        e.Destroy(lock);
        wrote(id, IT_EX + slot, ABSENT);
        if (a) wrote(id, IT_A + slot, ABSENT);
        if (b) wrote(id, IT_B + slot, ABSENT);
    }
    template<typename T, typename L>
    inline void remove(const L &lock, int id, int slot) {
        Entity e = handles[slot];
        if (!e.Exists(lock) || !e.Has<T>(lock)) return;
        e.Unset<T>(lock);
        wrote(id, (std::is_same_v<T, A> ? IT_A : IT_B) + slot, ABSENT);
    }
    template<typename T, typename L>
    inline void add(const L &lock, int id, int slot) {
        Entity e = handles[slot];
        if (!e.Exists(lock) || e.Has<T>(lock)) return;
        e.Set<T>(lock, (uint32_t)id);
        wrote(id, (std::is_same_v<T, A> ? IT_A : IT_B) + slot, id);
    }

#ifdef TECS_HEADER_ONLY // no instance or transaction identifiers there
    template<typename L>
    inline uint64_t txId(const L &, int id) {
        return 1000 + id;
    }
#else
    template<typename L>
    inline uint64_t txId(const L &lock, int) {
        return lock.GetTransactionId();
    }
#endif

    extern bool hold[mc::MAXT]; // the thread keeps its transaction open until no other thread can move
    template<typename... P, typename F>
    inline void transaction(int kind, F body) {
        int id = newTx(kind);
        Tx &x = txs[id];
        x.bc = mc::stamp_begin();
        {
            auto lock = world->StartTransaction<P...>();
            x.br = mc::stamp_end();
            x.txid = txId(lock, id);
            look(lock, id);
            lookCurrent(lock, id);
            body(lock, id);
            look(lock, id);
            if (hold[mc::self()]) {
                hold[mc::self()] = false;
                mc::park(true);
                look(lock, id);
            }
            x.ec = mc::stamp_begin();
        }
        x.er = mc::stamp_end();
        x.ended = true;
    }

    inline void nothing(...) {}
#define BODY [](const auto &lock, int id)
    inline void runKind(int k) {
        (void)0;
        switch (k) {
        case 0: return transaction<Read<A>>(k, BODY { (void)lock; (void)id; });
        case 1: return transaction<Read<A, B>>(k, BODY { (void)lock; (void)id; });
        case 2: return transaction<>(k, BODY { (void)lock; (void)id; });
        case 3: return transaction<ReadAll>(k, BODY { (void)lock; (void)id; });
        case 4: return transaction<Write<A>>(k, BODY { put<A>(lock, id, 0); put<A>(lock, id, 1); });
        case 5: return transaction<Write<B>>(k, BODY { put<B>(lock, id, 0); put<B>(lock, id, 1); });
        case 6: return transaction<Write<A, B>>(k, BODY { put<A>(lock, id, 0); put<B>(lock, id, 1); });
        case 7: return transaction<Read<A>, Write<B>>(k, BODY { put<B>(lock, id, 0); });
        case 8: return transaction<Read<B>, Write<A>>(k, BODY { put<A>(lock, id, 0); });
        case 9: return transaction<Write<A, B>>(k, BODY { put<A>(lock, id, 0); }); // B is a no-op write
        case 10: return transaction<WriteAll>(k, BODY { put<A>(lock, id, 0); put<B>(lock, id, 0); putG(lock, id); });
        case 11: return transaction<AddRemove>(k, BODY { create(lock, id); });
        case 12: return transaction<AddRemove>(k, BODY { destroy(lock, id, 0); });
        case 13: return transaction<AddRemove>(k, BODY { remove<A>(lock, id, 1); });
        case 14: return transaction<AddRemove>(k, BODY { add<A>(lock, id, 2); });
        case 15: return transaction<AddRemove>(k, BODY { (void)lock; (void)id; });
        case 16: return transaction<AddRemove>(k, BODY { put<A>(lock, id, 1); putG(lock, id); });
        case 17: return transaction<AddRemove>(k, BODY {
            if (lock.template Has<G>()) { lock.template Unset<G>(); wrote(id, IT_G, ABSENT); }
            else putG(lock, id);
        });
        case 18: return transaction<Write<G>>(k, BODY { putG(lock, id); });
        case 19: return transaction<AddRemove>(k, BODY { create(lock, id); create(lock, id); put<B>(lock, id, 0); }); // grows storage
        case 20: return transaction<WriteAll>(k, BODY { (void)lock; (void)id; });
        case 21: return transaction<Read<G>, Write<A>>(k, BODY { put<A>(lock, id, 1); });
        case 22: return transaction<Write<B, G>>(k, BODY { putG(lock, id); put<B>(lock, id, 1); });
        case 23: return transaction<AddRemove>(k, BODY { remove<A>(lock, id, 0); remove<B>(lock, id, 0); destroy(lock, id, 1); });
        case 24: return transaction<Read<A, G>>(k, BODY { (void)lock; (void)id; });
        case 25: return transaction<Write<A, B, G>>(k, BODY { put<A>(lock, id, 0); put<B>(lock, id, 0); putG(lock, id); });
        case 26: return transaction<Read<B>, Write<G>>(k, BODY { putG(lock, id); });
        case 27: { // an instance of its own
            ECS own;
            int id = newTx(k);
            txs[id].bc = mc::stamp_begin();
            Entity e;
            {
                auto lock = own.StartTransaction<AddRemove>();
                txs[id].br = mc::stamp_end();
                txs[id].txid = txId(lock, id);
                e = lock.NewEntity();
                e.Set<A>(lock, (uint32_t)id);
#ifndef TECS_HEADER_ONLY
                txs[id].instance = own.GetInstanceId();
                MC_CHECK("handle", Tecs::IdentifierFromGeneration(e.generation) == own.GetInstanceId(), "a handle does not carry its instance's identifier");
#endif
                txs[id].ec = mc::stamp_begin();
            }
            txs[id].er = mc::stamp_end();
            txs[id].ended = true;
            auto lock = own.StartTransaction<Read<A>>();
            MC_CHECK("handle", val(e.Get<A>(lock)) == (uint32_t)id, "wrong value in an instance of its own");
            return;
        }
        default: mc::fail("internal", "bad kind");
        }
    }
    constexpr int NKINDS = 28;
} // namespace h
