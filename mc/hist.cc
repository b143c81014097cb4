// History explorer: every sequence of operations of a finite alphabet (per mode) up to given bounds, executed on the
// real code and compared after every operation with a simple reference model.
#include "rt.h"

#include <Tecs.hh>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <time.h>
#include <vector>

#ifndef HIST_BATCH
    #define HIST_BATCH TECS_ENTITY_ALLOCATION_BATCH_SIZE
#endif

namespace h {
    constexpr uint32_t NONE = ~0u;
    constexpr int MAXV = 200;
    int live[MAXV]; // live[v]: number of live component values with the value v (v > 0)

    struct A {
        uint32_t v = 0;
        A() {}
        A(uint32_t v) : v(v) {}
        uint32_t get() const { return v; }
        void set(uint32_t n) { v = n; }
    };
    // Owns memory; every live copy is counted.
    struct Tracked {
        uint32_t *p;
        Tracked() : p(nullptr) {}
        Tracked(uint32_t v) : p(new uint32_t(v)) { live[v]++; }
        Tracked(const Tracked &o) : p(o.p ? new uint32_t(*o.p) : nullptr) {
            if (p) live[*p]++;
        }
        Tracked(Tracked &&o) noexcept : p(o.p) { o.p = nullptr; }
        Tracked &operator=(const Tracked &o) {
            if (this == &o) return *this;
            uint32_t *n = o.p ? new uint32_t(*o.p) : nullptr;
            if (n) live[*n]++;
            drop();
            p = n;
            return *this;
        }
        Tracked &operator=(Tracked &&o) noexcept {
            if (this == &o) return *this;
            drop();
            p = o.p;
            o.p = nullptr;
            return *this;
        }
        ~Tracked() { drop(); }
        void drop() {
            if (p) {
                live[*p]--;
                delete p;
                p = nullptr;
            }
        }
        uint32_t get() const { return p ? *p : 0; }
        void set(uint32_t n) { *this = Tracked(n); }
    };
    struct B : Tracked {
        using Tracked::Tracked;
    };
    struct G : Tracked {
        using Tracked::Tracked;
    };
    struct K {
        uint32_t v = 0;
        K() {}
        K(uint32_t v) : v(v) {}
        uint32_t get() const { return v; }
        void set(uint32_t n) { v = n; }
    };
} // namespace h
TECS_GLOBAL_COMPONENT(h::G);
TECS_GLOBAL_COMPONENT(h::K);

namespace h {
    using namespace Tecs;
    using ECS = Tecs::ECS<A, B, G, K>;

    // ---------------------------------------------------------------------------------------- locks
    using LockTypes = std::tuple<Lock<ECS, AddRemove>, Lock<ECS, WriteAll>, Lock<ECS, Write<A>>, Lock<ECS, Write<B>>,
        Lock<ECS, Read<A>, Write<B>>, Lock<ECS, Read<A>>, Lock<ECS, ReadAll>, Lock<ECS>, Lock<ECS, Write<G>>, Lock<ECS, Write<A, G>>,
        Lock<ECS, Read<A, G>>, Lock<ECS, Write<K>>, Lock<ECS, Read<G>, Write<K>>>;
    constexpr int NLK = std::tuple_size_v<LockTypes>;
    static const char *lkName[NLK] = {"AddRemove", "WriteAll", "Write<A>", "Write<B>", "Read<A>,Write<B>", "Read<A>", "ReadAll", "none",
        "Write<G>", "Write<A,G>", "Read<A,G>", "Write<K>", "Read<G>,Write<K>"};

    // ---------------------------------------------------------------------------------------- model
    constexpr int H = 12;
    struct View {
        bool ex[H];
        uint32_t a[H], b[H], g, k;
    };
    constexpr int MAXOBS = 4, MAXEV = 48;
    enum { OB_ENT, OB_A, OB_B, OB_G, OB_K };
    struct Ev {
        bool added;
        Entity e;
        uint32_t v;
        int group;
    };
    struct ObsModel {
        int type;
        bool active, used;
        Ev q[MAXEV];
        int n, nextGroup;
    };
    struct Inst {
        ECS *ecs;
        Entity hd[H];
        int n;
        View cur, com;
        int kind;
        bool fresh; // just started
        int hidden[3]; // entities that the model does not track individually: all, those with A, those with B
        bool checkAll;
        int freeLeft; // how many entities can still be created in this transaction (exhausted instance)
        alignas(16) char lock[64];
    };
    struct World {
        Inst in[2];
        uint32_t nextV;
        int nTx, body; // transactions started so far, operations in the current one
        bool bad;      // an invalid operation was tried in this history
        // iteration
        bool iterating;
        int itList;
        uint32_t itStart, itSeen, itRemoved;
        bool holes[3]; // something was removed from the list in this transaction
        alignas(16) char view[sizeof(EntityView)];
        alignas(16) char it[sizeof(EntityView::iterator)], end[sizeof(EntityView::iterator)];
        const Entity *ref;
        int refHandle;
        // observers
        alignas(16) char obs[MAXOBS][sizeof(Observer<ECS, EntityEvent>)];
        ObsModel om[MAXOBS];
        size_t lastTxId;
    };
    World W;
    static_assert(sizeof(Observer<ECS, EntityEvent>) == sizeof(Observer<ECS, ComponentEvent<B>>), "observer size");

    template<typename F, size_t... I>
    static void withLockI(Inst &m, F &f, std::index_sequence<I...>) {
        ((m.kind == (int)I ? (f(*(std::tuple_element_t<I, LockTypes> *)m.lock), void()) : void()), ...);
    }
    template<typename F>
    static void withLock(Inst &m, F f) {
        withLockI(m, f, std::make_index_sequence<NLK>());
    }
    template<typename L>
    constexpr bool AR = is_add_remove_allowed<L>::value;
    template<typename T, typename L>
    constexpr bool RD = is_read_allowed<T, L>::value;
    template<typename T, typename L>
    constexpr bool WR = is_write_allowed<T, L>::value;
    template<typename F>
    using LockOf = std::remove_cv_t<std::remove_reference_t<F>>;

    // ---------------------------------------------------------------------------------------- checks
    static bool checkLive; // mode flag (C23)
    static bool unchecked;
    template<typename T>
    struct Sel;
    template<>
    struct Sel<A> {
        static const uint32_t *of(const View &v) { return v.a; }
        static uint32_t *of(View &v) { return v.a; }
        static constexpr const char *name = "A";
    };
    template<>
    struct Sel<B> {
        static const uint32_t *of(const View &v) { return v.b; }
        static uint32_t *of(View &v) { return v.b; }
        static constexpr const char *name = "B";
    };

    // Entities that stay alive during the whole history and are not tracked individually by the model.
    constexpr int HID = 65536;
    static Entity *hiddenE;      // by index; outside of the snapshots
    static uint32_t *hiddenSeen; // [HID] is the epoch
    static int crowd, crowdMod, age, hiddenTop;
    static bool crowdHas(int index, int what) { return what == 0 || (crowdMod && index % (what == 1 ? crowdMod : crowdMod + 1) == 0); }
    static int crowdCount(int what) {
        int n = 0;
        for (int i = 0; i < HID; i++) n += hiddenE[i] && crowdHas(i, what);
        return n;
    }
    static int findHandle(const Inst &m, const Entity &e) {
        for (int i = 0; i < m.n; i++)
            if (m.hd[i] == e) return i;
        return -1;
    }

    template<typename V, typename P>
    static void checkList(const char *kind, const char *name, const Inst &m, const V &view, bool holes, P want, int what) {
        bool seen[H] = {};
        int nh = 0, expectHidden = 0;
        uint32_t hiddenEpoch = 0;
        if (m.hidden[0]) {
            expectHidden = m.hidden[what];
            if (!m.checkAll) {
                MC_CHECK("list", view.size() >= (size_t)expectHidden, "%s has size %zu, expected at least %d", name, view.size(), expectHidden);
                return;
            }
            hiddenEpoch = ++hiddenSeen[HID];
        }
        size_t real = 0;
        for (const Entity &e : view) {
            if (!e) {
                MC_CHECK("list", holes, "%s contains an invalid entity", name);
                continue;
            }
            int i = findHandle(m, e);
            if (i < 0 && m.hidden[0] && (int)e.index < HID && hiddenE[e.index] == e && crowdHas(e.index, what)) {
                MC_CHECK("list", hiddenSeen[e.index] != hiddenEpoch, "%s contains an entity twice", name);
                hiddenSeen[e.index] = hiddenEpoch;
                nh++;
                real++;
                continue;
            }
            MC_CHECK("list", i >= 0, "%s contains unknown entity (index %u, generation %u)", name, (unsigned)e.index, (unsigned)e.generation);
            if (i < 0) continue;
            MC_CHECK("list", !seen[i], "%s contains entity #%d twice", name, i);
            MC_CHECK("list", want(i), "%s contains entity #%d, which should not be listed", name, i);
            seen[i] = true;
            real++;
        }
        for (int i = 0; i < m.n; i++) MC_CHECK("list", seen[i] == want(i), "%s does not contain entity #%d", name, i);
        MC_CHECK("list", view.size() >= real && (holes || view.size() == real), "%s has size %zu, expected %zu", name, view.size(), real);
        MC_CHECK("list", nh == expectHidden, "%s lost %d entities", name, expectHidden - nh);
        (void)kind;
    }

    template<typename T, typename L>
    static void checkComp(const char *kc, const char *kp, const Inst &m, const L &lock, bool holes) {
        const uint32_t *cur = Sel<T>::of(m.cur), *com = Sel<T>::of(m.com);
        const char *n = Sel<T>::name;
        for (int i = 0; i < m.n; i++) {
            const Entity e = m.hd[i];
            bool has = e.Has<T>(lock), had = e.Had<T>(lock);
            MC_CHECK(kc, has == (cur[i] != NONE), "Has<%s>(#%d) is %d, expected %d", n, i, has, cur[i] != NONE);
            MC_CHECK(kp, had == (com[i] != NONE), "Had<%s>(#%d) is %d, expected %d", n, i, had, com[i] != NONE);
            if constexpr (RD<T, L>) {
                if (has) {
                    uint32_t v = e.Get<const T>(lock).get();
                    MC_CHECK(kc, v == cur[i], "Get<const %s>(#%d) is %u, expected %u", n, i, v, cur[i]);
                }
                if (had) {
                    uint32_t v = e.GetPrevious<T>(lock).get();
                    MC_CHECK(kp, v == com[i], "GetPrevious<%s>(#%d) is %u, expected %u", n, i, v, com[i]);
                }
            }
        }
        checkList(kc, "EntitiesWith", m, lock.template EntitiesWith<T>(), holes, [&](int i) { return cur[i] != NONE; }, std::is_same_v<T, A> ? 1 : 2);
        checkList(kp, "PreviousEntitiesWith", m, lock.template PreviousEntitiesWith<T>(), false, [&](int i) { return com[i] != NONE; }, std::is_same_v<T, A> ? 1 : 2);
    }
    template<typename T, typename L>
    static void checkGlobal1(const char *n, uint32_t cur, uint32_t com, const char *kc, const char *kp, const L &lock) {
        bool has = lock.template Has<T>(), had = lock.template Had<T>();
        MC_CHECK(kc, has == (cur != NONE), "Has<%s>() is %d, expected %d", n, has, cur != NONE);
        MC_CHECK(kp, had == (com != NONE), "Had<%s>() is %d, expected %d", n, had, com != NONE);
        if constexpr (RD<T, L>) {
            if (has) {
                uint32_t v = lock.template Get<const T>().get();
                MC_CHECK(kc, v == cur, "Get<const %s>() is %u, expected %u", n, v, cur);
            }
            if (had) {
                uint32_t v = lock.template GetPrevious<T>().get();
                MC_CHECK(kp, v == com, "GetPrevious<%s>() is %u, expected %u", n, v, com);
            }
        }
    }
    template<typename L>
    static void checkGlobal(const char *kc, const char *kp, const Inst &m, const L &lock) {
        checkGlobal1<G>("G", m.cur.g, m.com.g, kc, kp, lock);
        checkGlobal1<K>("K", m.cur.k, m.com.k, kc, kp, lock);
        bool has = lock.template Has<G, K>(), had = lock.template Had<K, G>();
        MC_CHECK(kc, has == (m.cur.g != NONE && m.cur.k != NONE), "Has<G, K>() is %d", has);
        MC_CHECK(kp, had == (m.com.g != NONE && m.com.k != NONE), "Had<K, G>() is %d", had);
    }
    template<typename L>
    static void checkThrough(const char *kc, const char *kp, const char *kg, const Inst &m, const L &lock, bool holes) {
        for (int i = 0; i < m.n; i++) {
            const Entity e = m.hd[i];
            bool x = e.Exists(lock), xd = e.Existed(lock);
            MC_CHECK("handle", x == m.cur.ex[i], "Exists(#%d) is %d, expected %d", i, x, m.cur.ex[i]);
            MC_CHECK("handle", xd == m.com.ex[i], "Existed(#%d) is %d, expected %d", i, xd, m.com.ex[i]);
            bool both = e.Has<A, B>(lock);
            MC_CHECK(kc, both == (m.cur.a[i] != NONE && m.cur.b[i] != NONE), "Has<A, B>(#%d) is wrong", i);
            both = e.Had<B, A>(lock);
            MC_CHECK(kp, both == (m.com.a[i] != NONE && m.com.b[i] != NONE), "Had<B, A>(#%d) is wrong", i);
        }
        checkComp<A>(kc, kp, m, lock, holes);
        checkComp<B>(kc, kp, m, lock, holes);
        checkGlobal(kg ? kg : kc, kg ? kg : kp, m, lock);
        checkList(kc, "Entities", m, lock.Entities(), holes, [&](int i) { return m.cur.ex[i]; }, 0);
        checkList(kp, "PreviousEntities", m, lock.PreviousEntities(), false, [&](int i) { return m.com.ex[i]; }, 0);
        if (m.hidden[0] && m.checkAll && crowd)
            for (int i = 0; i < hiddenTop; i++) {
                const Entity e = hiddenE[i];
                if (!e) continue;
                MC_CHECK("handle", e.Exists(lock) && e.Existed(lock), "an untouched entity (index %d) does not exist", i);
                bool a = e.Has<A>(lock), b = e.Has<B>(lock);
                MC_CHECK(kc, a == crowdHas(i, 1) && b == crowdHas(i, 2), "an untouched entity (index %d) gained or lost a component", i);
                if constexpr (RD<A, L>)
                    if (a) {
                        uint32_t v = e.Get<const A>(lock).v, w = e.GetPrevious<A>(lock).v;
                        MC_CHECK(kc, v == 1000u + i && w == v, "A of an untouched entity (index %d) is %u, previously %u, expected %u", i, v, w, 1000 + i);
                    }
            }
    }

    static void checkInst(Inst &m) {
        if (m.kind < 0) return;
        bool fresh = m.fresh;
        m.fresh = false;
        m.checkAll = fresh;
        withLock(m, [&](auto &lock) {
            using L = LockOf<decltype(lock)>;
            checkThrough(fresh ? "committed" : "current", fresh ? "committed" : "previous", "global", m, lock, AR<L>);
            // the read-only subset shows the snapshot
            Inst *snap = (Inst *)alloca(sizeof(Inst));
            memcpy((void *)snap, (void *)&m, sizeof(Inst));
            snap->cur = m.com;
            auto ro = lock.ReadOnlySubset();
            checkThrough(fresh ? "committed" : "previous", fresh ? "committed" : "previous", "global", *snap, ro, false);
        });
    }
    static void countExpected(const Inst &m, bool *present) {
        for (int i = 0; i < m.n; i++) {
            if (m.com.b[i] != NONE) present[m.com.b[i]] = true;
            if (m.cur.b[i] != NONE) present[m.cur.b[i]] = true;
        }
        if (m.com.g != NONE) present[m.com.g] = true;
        if (m.cur.g != NONE) present[m.cur.g] = true;
    }
    static void checkRelease() {
        bool present[MAXV] = {};
        for (Inst &m : W.in)
            if (m.ecs) {
                countExpected(m, present);
                if (m.kind >= 0) return; // only between transactions
            }
        for (ObsModel &o : W.om)
            if (o.used)
                for (int i = 0; i < o.n; i++)
                    if (o.q[i].v != NONE) present[o.q[i].v] = true;
        for (int v = 1; v < MAXV; v++) {
            MC_CHECK("release", live[v] >= 0, "value %u was destroyed more often than created", v);
            if (!present[v]) MC_CHECK("release", live[v] == 0, "%d copies of removed value %d are still alive", live[v], v);
            if (present[v]) MC_CHECK("release", live[v] > 0, "no copy of committed value %d is left", v);
        }
    }

    // ---------------------------------------------------------------------------------------- operations
    enum Code : uint8_t {
        START, END, NEW, DESTROY, SETA, SETB, SETBL, GETA, GETB, UNSETA, UNSETB, UNSETAB, SETG, SETGL, GETG, UNSETG, CONSTG, BADALL, ITBEGIN, ITNEXT,
        REFDESTROY, REFUNSET, REFUNSETAB, WATCH, STOP, POLLALL, POLL1, NEW2, DESTROY2, START2, END2, MASK, WMASK, SETK, SETKL, GETK, UNSETK, CONSTK, UNSETGK, NOP
    };
    static const char *codeName[] = {"Start", "End", "NewEntity", "Destroy", "Set<A>", "Set<B>", "Set<B>(lvalue)", "Get<A>=", "Get<B>=", "Unset<A>", "Unset<B>",
        "Unset<A,B>", "Set<G>", "Set<G>(lvalue)", "Get<G>=", "Unset<G>", "Get<const G>", "InvalidUses", "IterBegin", "IterNext", "Destroy(list ref)", "Unset<A>(list ref)",
        "Unset<A,B>(list ref)", "Watch", "Stop", "PollAll", "Poll", "NewEntity(2nd)", "Destroy(2nd)", "Start(2nd)", "End(2nd)", "SetPresence", "WriteSubset",
        "Set<K>", "Set<K>(lvalue)", "Get<K>=", "Unset<K>", "Get<const K>", "Unset<G,K>", "nop"};
    struct Op {
        uint8_t code, x;
    };

    static void removedFromList(int i, int what) { // what: 0 entity, 1 A, 2 B
        W.holes[what] = true;
        if (W.iterating && W.itList == what) {
            W.itRemoved |= 1u << i;
            if (W.refHandle == i) W.ref = nullptr; // refers to the placeholder now
        }
    }
    static void grew(int what) {
        if (W.iterating && (W.itList == what)) W.ref = nullptr; // the list may have been reallocated
    }
    static void modelDestroy(Inst &m, int i) {
        removedFromList(i, 0);
        if (m.cur.a[i] != NONE) removedFromList(i, 1);
        if (m.cur.b[i] != NONE) removedFromList(i, 2);
        m.cur.ex[i] = false;
        m.cur.a[i] = m.cur.b[i] = NONE;
    }

    template<typename F>
    static void mustThrow(const char *what, int i, F f) {
        bool threw = false;
        try {
            f();
        } catch (std::exception &) {
            threw = true;
        }
        MC_CHECK("reject", threw, "%s (handle #%d) was not rejected", what, i);
    }

    template<typename L>
    static void invalidUses(Inst &m, const L &lock) {
        Entity bad[H + 8];
        int n = 0;
        bad[n++] = Entity();
        bad[n++] = Entity((TECS_ENTITY_INDEX_TYPE)40000, (TECS_ENTITY_GENERATION_TYPE)1, (TECS_ENTITY_ECS_IDENTIFIER_TYPE)m.ecs->GetInstanceId());
        bad[n++] = Entity(std::numeric_limits<TECS_ENTITY_INDEX_TYPE>::max(), m.n ? m.hd[0].generation : (TECS_ENTITY_GENERATION_TYPE)1);
        if (m.n) {
            Entity e = m.hd[0];
            bad[n++] = Entity(e.index, e.generation, (TECS_ENTITY_ECS_IDENTIFIER_TYPE)(m.ecs->GetInstanceId() + 1));         // foreign
            bad[n++] = Entity(e.index, (TECS_ENTITY_GENERATION_TYPE)(e.generation + 7)); // never issued
            bad[n++] = Entity(e.index, (TECS_ENTITY_GENERATION_TYPE)0);
        }
        for (int i = 0; i < m.n; i++)
            if (!m.cur.ex[i]) bad[n++] = m.hd[i]; // stale
        for (int k = 0; k < n; k++) {
            const Entity e = bad[k];
            int id = findHandle(m, e);
            MC_CHECK("handle", !e.Exists(lock), "invalid handle exists");
            MC_CHECK("handle", !e.Has<A>(lock) && !e.Has<B>(lock), "invalid handle has a component");
            if constexpr (RD<A, L>) mustThrow("Get<const A>", id, [&] { (void)e.Get<const A>(lock); });
            if constexpr (RD<B, L>) mustThrow("Get<const B>", id, [&] { (void)e.Get<const B>(lock); });
            if (id < 0 || !m.com.ex[id]) {
                MC_CHECK("handle", !e.Existed(lock), "invalid handle existed");
                MC_CHECK("handle", !e.Had<A>(lock), "invalid handle had a component");
                if constexpr (RD<A, L>) mustThrow("GetPrevious<A>", id, [&] { (void)e.GetPrevious<A>(lock); });
                if constexpr (RD<B, L>) mustThrow("GetPrevious<B>", id, [&] { (void)e.GetPrevious<B>(lock); });
            }
            if constexpr (WR<A, L>) {
                mustThrow("Get<A>", id, [&] { e.Get<A>(lock).v = 99; });
                mustThrow("Set<A>", id, [&] { e.Set<A>(lock, 99u); });
                A val(99);
                mustThrow("Set<A>(lvalue)", id, [&] { e.Set<A>(lock, val); });
            }
            if constexpr (WR<B, L>) {
                mustThrow("Get<B>", id, [&] { e.Get<B>(lock).set(99); });
                mustThrow("Set<B>", id, [&] { e.Set<B>(lock, 99u); });
                B val(99);
                mustThrow("Set<B>(lvalue)", id, [&] { e.Set<B>(lock, val); });
            }
            if constexpr (AR<L>) {
                mustThrow("Unset<A>", id, [&] { e.Unset<A>(lock); });
                mustThrow("Unset<A, B>", id, [&] { e.Unset<A, B>(lock); });
                mustThrow("Destroy", id, [&] { e.Destroy(lock); });
                Entity c = e;
                mustThrow("Destroy (non-const)", id, [&] { c.Destroy(lock); });
                MC_CHECK("reject", c == e, "a rejected Destroy() changed the handle");
            }
        }
        // entities lacking a component
        for (int i = 0; i < m.n; i++) {
            const Entity e = m.hd[i];
            if (m.cur.ex[i]) {
                if (m.cur.a[i] == NONE) {
                    if constexpr (RD<A, L>) mustThrow("Get<const A> of a missing component", i, [&] { (void)e.Get<const A>(lock); });
                    if constexpr (WR<A, L> && !AR<L>) {
                        mustThrow("Get<A> of a missing component", i, [&] { e.Get<A>(lock).v = 99; });
                        mustThrow("Set<A> of a missing component", i, [&] { e.Set<A>(lock, 99u); });
                        A val(99);
                        mustThrow("Set<A>(lvalue) of a missing component", i, [&] { e.Set<A>(lock, val); });
                    }
                }
                if (m.cur.b[i] == NONE) {
                    if constexpr (RD<B, L>) mustThrow("Get<const B> of a missing component", i, [&] { (void)e.Get<const B>(lock); });
                    if constexpr (WR<B, L> && !AR<L>) {
                        mustThrow("Get<B> of a missing component", i, [&] { e.Get<B>(lock).set(99); });
                        mustThrow("Set<B> of a missing component", i, [&] { e.Set<B>(lock, 99u); });
                        B val(99);
                        mustThrow("Set<B>(lvalue) of a missing component", i, [&] { e.Set<B>(lock, val); });
                    }
                }
            }
            if (m.com.a[i] == NONE) {
                if constexpr (RD<A, L>) mustThrow("GetPrevious<A> of a missing component", i, [&] { (void)e.GetPrevious<A>(lock); });
            }
            if (m.com.b[i] == NONE) {
                if constexpr (RD<B, L>) mustThrow("GetPrevious<B> of a missing component", i, [&] { (void)e.GetPrevious<B>(lock); });
            }
        }
        if constexpr (RD<G, L>) {
            if (m.cur.g == NONE) mustThrow("Get<const G> of a missing global", -1, [&] { (void)lock.template Get<const G>(); });
            if (m.com.g == NONE) mustThrow("GetPrevious<G> of a missing global", -1, [&] { (void)lock.template GetPrevious<G>(); });
        }
        if constexpr (WR<G, L> && !AR<L>) {
            if (m.cur.g == NONE) {
                mustThrow("Get<G> of a missing global", -1, [&] { lock.template Get<G>().set(99); });
                mustThrow("Set<G> of a missing global", -1, [&] { lock.template Set<G>(99u); });
                G val(99);
                mustThrow("Set<G>(lvalue) of a missing global", -1, [&] { lock.template Set<G>(val); });
            }
        }
        mustThrow("nested transaction", -1, [&] { auto n = m.ecs->template StartTransaction<ReadAll>(); });
        W.bad = true;
    }

    // --- observers
    template<typename E>
    static Observer<ECS, E> &obs(int i) {
        return *(Observer<ECS, E> *)W.obs[i];
    }
    static void pushGroups(const Inst &m, bool changed) {
        // compare com (before) and cur (after): called at the commit of an AddRemove transaction
        (void)changed;
        for (ObsModel &o : W.om) {
            if (!o.used || !o.active) continue;
            int g = o.nextGroup++;
            auto push = [&](bool added, Entity e, uint32_t v) {
                MC_CHECK("internal", o.n < MAXEV, "event model overflow");
                o.q[o.n++] = Ev{added, e, v, g};
            };
            if (o.type == OB_G) {
                if (m.com.g != NONE && m.cur.g == NONE) push(false, Entity(), m.com.g);
                if (m.com.g == NONE && m.cur.g != NONE) push(true, Entity(), m.cur.g);
                continue;
            }
            if (o.type == OB_K) {
                if (m.com.k != NONE && m.cur.k == NONE) push(false, Entity(), m.com.k);
                if (m.com.k == NONE && m.cur.k != NONE) push(true, Entity(), m.cur.k);
                continue;
            }
            for (int i = 0; i < m.n; i++) {
                if (o.type == OB_ENT) {
                    if (m.com.ex[i] && !m.cur.ex[i]) push(false, m.hd[i], NONE);
                    if (!m.com.ex[i] && m.cur.ex[i]) push(true, m.hd[i], NONE);
                } else {
                    const uint32_t *c = o.type == OB_A ? m.com.a : m.com.b, *n = o.type == OB_A ? m.cur.a : m.cur.b;
                    if (c[i] != NONE && n[i] == NONE) push(false, m.hd[i], c[i]);
                    if (c[i] == NONE && n[i] != NONE) push(true, m.hd[i], n[i]);
                }
            }
        }
    }
    static void consume(ObsModel &o, bool added, Entity e, uint32_t v) {
        MC_CHECK("event", o.n > 0, "observer returned an unexpected %s event (index %u, value %u)", added ? "ADDED" : "REMOVED", (unsigned)e.index, v);
        int g = o.q[0].group;
        for (int i = 0; i < o.n && o.q[i].group == g; i++)
            if (o.q[i].added == added && o.q[i].e == e && o.q[i].v == v) {
                memmove((void *)&o.q[i], (void *)&o.q[i + 1], (o.n - 1 - i) * sizeof(Ev));
                o.n--;
                return;
            }
        mc::fail("event", "observer returned %s(index %u, generation %u, value %u), which is not an event of the next undelivered commit", added ? "ADDED" : "REMOVED",
            (unsigned)e.index, (unsigned)e.generation, v);
    }
    template<typename E, typename L>
    static bool pollOne(int i, const L &lock) {
        ObsModel &o = W.om[i];
        E ev;
        bool got = obs<E>(i).Poll(lock, ev);
        if (!got) {
            MC_CHECK("event", o.n == 0, "observer %d has no event, but %d are undelivered", i, o.n);
            return false;
        }
        MC_CHECK("event", ev.type == Tecs::EventType::ADDED || ev.type == Tecs::EventType::REMOVED, "event has a wrong type");
        uint32_t v = NONE;
        if constexpr (!std::is_same_v<E, EntityEvent>) v = ev.component.get();
        consume(o, ev.type == Tecs::EventType::ADDED, ev.entity, v);
        return true;
    }
    template<typename L>
    static bool pollAny(int i, const L &lock) {
        switch (W.om[i].type) {
        case OB_ENT: return pollOne<EntityEvent>(i, lock);
        case OB_A: return pollOne<ComponentEvent<A>>(i, lock);
        case OB_B: return pollOne<ComponentEvent<B>>(i, lock);
        case OB_G: return pollOne<ComponentEvent<G>>(i, lock);
        default: return pollOne<ComponentEvent<K>>(i, lock);
        }
    }

    static uint32_t fresh() {
        MC_CHECK("internal", W.nextV < MAXV - 1, "value model overflow");
        if (W.nextV == 99) W.nextV++; // 99 is what rejected calls try to store
        return W.nextV++;
    }
    template<size_t... I>
    static void startI(Inst &m, int k, std::index_sequence<I...>) {
        ((k == (int)I ? (void)(new (m.lock) std::tuple_element_t<I, LockTypes>(*m.ecs)) : void()), ...);
    }

    struct Access : Lock<ECS> {};
    template<typename L>
    struct PermsOf;
    template<typename E, typename... P>
    struct PermsOf<Lock<E, P...>> {
        static void start(E &ecs, void *where) { new (where) Lock<E, P...>(ecs.template StartTransaction<P...>()); }
    };
    template<size_t... I>
    static void startTx(Inst &m, int k, std::index_sequence<I...>) {
        ((k == (int)I ? PermsOf<std::tuple_element_t<I, LockTypes>>::start(*m.ecs, m.lock) : void()), ...);
    }
    static void start(Inst &m, int k) {
        startTx(m, k, std::make_index_sequence<NLK>());
        m.kind = k;
        m.cur = m.com;
#ifdef HIST_EXHAUST
        m.freeLeft = HIST_BATCH - m.hidden[0];
        for (int i = 0; i < m.n; i++)
            if (m.com.ex[i]) m.freeLeft--;
#endif
        m.fresh = true;
        W.holes[0] = W.holes[1] = W.holes[2] = false;
    }
    static void stop(Inst &m) {
        if (m.kind == 0) pushGroups(m, true);
        withLock(m, [](auto &l) {
            using L = LockOf<decltype(l)>;
            l.~L();
        });
        m.kind = -1;
        m.com = m.cur;
        W.iterating = false;
        W.ref = nullptr;
    }
    static int addHandle(Inst &m, Entity e) {
        for (Inst &o : W.in)
            for (int i = 0; i < o.n; i++) MC_CHECK("handle", o.hd[i] != e, "NewEntity() returned a handle that was issued before (index %u, generation %u)", (unsigned)e.index, (unsigned)e.generation);
        MC_CHECK("handle", (bool)e, "NewEntity() returned an invalid handle");
        MC_CHECK("internal", m.n < H, "handle model overflow");
        m.hd[m.n] = e;
        m.cur.ex[m.n] = true;
        m.cur.a[m.n] = m.cur.b[m.n] = NONE;
        m.com.ex[m.n] = false;
        m.com.a[m.n] = m.com.b[m.n] = NONE;
        return m.n++;
    }

    template<typename T, typename L>
    static void globalOp(int code, uint32_t &cur, const L &lock) {
        (void)lock;
        if constexpr (WR<T, L>) {
            if (code == SETG) {
                uint32_t v = fresh();
                lock.template Set<T>(v);
                cur = v;
                return;
            }
            if (code == SETGL) {
                uint32_t v = fresh();
                T val(v);
                lock.template Set<T>(val);
                cur = v;
                return;
            }
            if (code == GETG) {
                bool was = cur != NONE;
                T &r = lock.template Get<T>();
                MC_CHECK("global", r.get() == (was ? cur : 0), "Get<%s>() is %u, expected %u", typeid(T).name(), r.get(), was ? cur : 0);
                cur = r.get();
                if (!was) return;
                uint32_t v = fresh();
                r.set(v);
                cur = v;
                return;
            }
        }
        if constexpr (RD<T, L>) {
            if (code == CONSTG) {
                if (cur != NONE)
                    MC_CHECK("global", lock.template Get<const T>().get() == cur, "Get<const %s>() is wrong", typeid(T).name());
                else {
                    bool threw = false;
                    try {
                        (void)lock.template Get<const T>();
                    } catch (std::exception &) {
                        threw = true;
                    }
                    MC_CHECK("global", threw, "read-only access of a missing global component was not rejected");
                }
            }
        }
    }
    static void apply(Op op) {
        Inst &m = W.in[op.code >= NEW2 && op.code <= END2];
        int i = op.x;
        switch (op.code) {
        case START:
        case START2:
            start(m, op.x);
            return;
        case END:
        case END2:
            stop(m);
            return;
        case NOP: return;
        default: break;
        }
        withLock(m, [&](auto &lock) {
            using L = LockOf<decltype(lock)>;
            if constexpr (AR<L>) {
                switch (op.code) {
                case NEW:
                case NEW2: {
                    Entity e;
                    bool threw = false;
                    try {
                        e = lock.NewEntity();
                    } catch (std::exception &) {
                        threw = true;
                    }
#ifdef HIST_EXHAUST
                    if (threw) { // the state must be unchanged
                        MC_CHECK("handle", m.freeLeft == 0, "NewEntity() failed although %d entities are free", m.freeLeft);
                        return;
                    }
                    MC_CHECK("handle", m.freeLeft > 0, "NewEntity() succeeded although the index type is exhausted");
                    m.freeLeft--;
#else
                    MC_CHECK("handle", !threw, "NewEntity() failed");
#endif
                    addHandle(m, e);
                    grew(0);
                    return;
                }
                case DESTROY:
                case DESTROY2: {
                    Entity e = m.hd[i];
                    e.Destroy(lock);
                    MC_CHECK("current", !e, "Destroy() of a non-const handle did not reset it");
                    modelDestroy(m, i);
                    return;
                }
                case UNSETA:
                    m.hd[i].Unset<A>(lock);
                    if (m.cur.a[i] != NONE) removedFromList(i, 1);
                    m.cur.a[i] = NONE;
                    return;
                case UNSETB:
                    m.hd[i].Unset<B>(lock);
                    if (m.cur.b[i] != NONE) removedFromList(i, 2);
                    m.cur.b[i] = NONE;
                    return;
                case UNSETAB:
                    m.hd[i].Unset<A, B>(lock);
                    if (m.cur.a[i] != NONE) removedFromList(i, 1);
                    if (m.cur.b[i] != NONE) removedFromList(i, 2);
                    m.cur.a[i] = m.cur.b[i] = NONE;
                    return;
                case UNSETG:
                    lock.template Unset<G>();
                    m.cur.g = NONE;
                    return;
                case UNSETK:
                    lock.template Unset<K>();
                    m.cur.k = NONE;
                    return;
                case UNSETGK:
                    lock.template Unset<G, K>();
                    m.cur.g = m.cur.k = NONE;
                    return;
                case REFDESTROY:
                    W.ref->Destroy(lock);
                    modelDestroy(m, W.refHandle);
                    W.ref = nullptr;
                    return;
                case REFUNSET:
                    W.ref->Unset<A>(lock);
                    if (m.cur.a[W.refHandle] != NONE) removedFromList(W.refHandle, 1);
                    m.cur.a[W.refHandle] = NONE;
                    return;
                case REFUNSETAB:
                    W.ref->Unset<A, B>(lock);
                    if (m.cur.a[W.refHandle] != NONE) removedFromList(W.refHandle, 1);
                    if (m.cur.b[W.refHandle] != NONE) removedFromList(W.refHandle, 2);
                    m.cur.a[W.refHandle] = m.cur.b[W.refHandle] = NONE;
                    return;
                case WATCH: {
                    int s = 0;
                    while (s < MAXOBS && W.om[s].used) s++;
                    ObsModel &o = W.om[s];
                    memset((void *)&o, 0, sizeof o);
                    o.used = o.active = true;
                    o.type = op.x;
                    switch (op.x) {
                    case OB_ENT: new (W.obs[s]) Observer<ECS, EntityEvent>(lock.template Watch<EntityEvent>()); break;
                    case OB_A: new (W.obs[s]) Observer<ECS, ComponentEvent<A>>(lock.template Watch<ComponentEvent<A>>()); break;
                    case OB_B: new (W.obs[s]) Observer<ECS, ComponentEvent<B>>(lock.template Watch<ComponentEvent<B>>()); break;
                    case OB_K: new (W.obs[s]) Observer<ECS, ComponentEvent<K>>(lock.template Watch<ComponentEvent<K>>()); break;
                    default: new (W.obs[s]) Observer<ECS, ComponentEvent<G>>(lock.template Watch<ComponentEvent<G>>()); break;
                    }
                    return;
                }
                case STOP: {
                    ObsModel &o = W.om[i];
                    switch (o.type) {
                    case OB_ENT: obs<EntityEvent>(i).Stop(lock); break;
                    case OB_A: obs<ComponentEvent<A>>(i).Stop(lock); break;
                    case OB_B: obs<ComponentEvent<B>>(i).Stop(lock); break;
                    case OB_K: obs<ComponentEvent<K>>(i).Stop(lock); break;
                    default: obs<ComponentEvent<G>>(i).Stop(lock); break;
                    }
                    o.active = false;
                    o.n = 0;
                    MC_CHECK("event", !(bool)obs<EntityEvent>(i), "a stopped observer still claims to be active");
                    return;
                }
                default: break;
                }
            }
            if constexpr (WR<A, L>) {
                if (op.code == SETA) {
                    uint32_t v = fresh();
                    bool was = m.cur.a[i] != NONE;
                    A &r = m.hd[i].Set<A>(lock, v);
                    MC_CHECK("current", r.get() == v, "Set<A> returned a reference to another value");
                    m.cur.a[i] = v;
                    if (!was) grew(1);
                    return;
                }
                if (op.code == GETA) {
                    bool was = m.cur.a[i] != NONE;
                    A &r = m.hd[i].Get<A>(lock);
                    MC_CHECK("current", r.get() == (was ? m.cur.a[i] : 0), "Get<A>(#%d) is %u, expected %u", i, r.get(), was ? m.cur.a[i] : 0);
                    m.cur.a[i] = r.v;
                    if (!was) grew(1);
                    if (!was) return; // leave the default value in place
                    r.v = fresh();
                    m.cur.a[i] = r.v;
                    return;
                }
            }
            if constexpr (WR<B, L>) {
                if (op.code == SETB || op.code == SETBL) {
                    uint32_t v = fresh();
                    bool was = m.cur.b[i] != NONE;
                    if (op.code == SETB) {
                        m.hd[i].Set<B>(lock, v);
                    } else {
                        B val(v);
                        m.hd[i].Set<B>(lock, val);
                        MC_CHECK("current", val.get() == v, "Set<B>(lvalue) changed its argument");
                    }
                    m.cur.b[i] = v;
                    if (!was) grew(2);
                    return;
                }
                if (op.code == GETB) {
                    bool was = m.cur.b[i] != NONE;
                    B &r = m.hd[i].Get<B>(lock);
                    MC_CHECK("current", r.get() == (was ? m.cur.b[i] : 0), "Get<B>(#%d) is %u, expected %u", i, r.get(), was ? m.cur.b[i] : 0);
                    m.cur.b[i] = r.get();
                    if (!was) grew(2);
                    if (!was) return;
                    uint32_t v = fresh();
                    r.set(v);
                    m.cur.b[i] = v;
                    return;
                }
            }
            if (op.code >= SETK && op.code <= CONSTK) return globalOp<K>(op.code - SETK + SETG, m.cur.k, lock);
            if (op.code >= SETG && op.code <= CONSTG) return globalOp<G>(op.code, m.cur.g, lock);
            if (op.code == WMASK) {
                if constexpr (WR<A, L> && !AR<L>)
                    for (int k = 0; k < m.n; k++)
                        if ((op.x >> k & 1) && m.cur.a[k] != NONE) {
                            uint32_t v = fresh();
                            m.hd[k].Set<A>(lock, v);
                            m.cur.a[k] = v;
                        }
                return;
            }
            if (op.code == MASK) {
                if constexpr (AR<L>)
                    for (int k = 0; k < m.n; k++) {
                        bool a = op.x >> k & 1, b = (op.x >> (k + 1) % m.n & 1);
                        if (a && m.cur.a[k] == NONE) {
                            uint32_t v = fresh();
                            m.hd[k].Set<A>(lock, v);
                            m.cur.a[k] = v;
                        } else if (!a && m.cur.a[k] != NONE) {
                            m.hd[k].Unset<A>(lock);
                            m.cur.a[k] = NONE;
                        }
                        if (b && m.cur.b[k] == NONE) {
                            uint32_t v = fresh();
                            m.hd[k].Get<B>(lock).set(v);
                            m.cur.b[k] = v;
                        } else if (!b && m.cur.b[k] != NONE) {
                            m.hd[k].Unset<B>(lock);
                            m.cur.b[k] = NONE;
                        }
                    }
                return;
            }
            if (op.code == BADALL) {
                invalidUses(m, lock);
                return;
            }
            if (op.code == ITBEGIN) {
                auto view = op.x == 0 ? lock.Entities() : op.x == 1 ? lock.template EntitiesWith<A>() : lock.template EntitiesWith<B>();
                auto *v = new (W.view) EntityView(view);
                new (W.it) EntityView::iterator(v->begin());
                new (W.end) EntityView::iterator(v->end());
                W.iterating = true;
                W.itList = op.x;
                W.itStart = W.itSeen = W.itRemoved = 0;
                for (int k = 0; k < m.n; k++)
                    if (op.x == 0 ? m.cur.ex[k] : op.x == 1 ? m.cur.a[k] != NONE : m.cur.b[k] != NONE) W.itStart |= 1u << k;
                W.ref = nullptr;
                return;
            }
            if (op.code == ITNEXT) {
                auto &it = *(EntityView::iterator *)W.it;
                auto &end = *(EntityView::iterator *)W.end;
                if (it == end) {
                    for (int k = 0; k < m.n; k++)
                        if ((W.itStart & ~W.itRemoved) >> k & 1)
                            MC_CHECK("iter", W.itSeen >> k & 1, "iteration skipped entity #%d", k);
                    W.iterating = false;
                    W.ref = nullptr;
                    return;
                }
                const Entity &e = *it;
                ++it;
                if (!e) {
                    MC_CHECK("iter", W.holes[W.itList], "iteration found an invalid entity although nothing was removed");
                    W.ref = nullptr;
                    return;
                }
                int k = findHandle(m, e);
                MC_CHECK("iter", k >= 0, "iteration found an unknown entity");
                MC_CHECK("iter", W.itStart >> k & 1, "iteration found entity #%d, which was not in the list when it started", k);
                MC_CHECK("iter", !(W.itSeen >> k & 1), "iteration repeated entity #%d", k);
                bool in = W.itList == 0 ? m.cur.ex[k] : W.itList == 1 ? m.cur.a[k] != NONE : m.cur.b[k] != NONE;
                MC_CHECK("iter", in, "iteration found removed entity #%d", k);
                W.itSeen |= 1u << k;
                W.ref = &e;
                W.refHandle = k;
                return;
            }
            if (op.code == POLLALL || op.code == POLL1) {
                while (pollAny(i, lock) && op.code == POLLALL) {}
                return;
            }
            mc::fail("internal", "operation %s is not possible here", codeName[op.code]);
        });
    }

    // ---------------------------------------------------------------------------------------- alphabets
    struct Bounds {
        int depth, tx, body, handles;
        std::string mode;
        int init;
        uint32_t kinds;
        int observers = 2;
    };
    static Bounds *bd;
    static bool has(const char *what) { return bd->mode == what; }

    static int genOps(Op *out) {
        int n = 0;
        Inst &m = W.in[0];
        auto add = [&](Code c, int x = 0) { out[n++] = Op{(uint8_t)c, (uint8_t)x}; };
        bool two = W.in[1].ecs != nullptr;
        if (m.kind < 0) {
            if (W.nTx < bd->tx)
                for (int k = 0; k < NLK; k++)
                    if (bd->kinds >> k & 1) add(START, k);
        } else {
            bool ar = m.kind == 0;
            bool wa = ar || m.kind == 1 || m.kind == 2 || m.kind == 9, wb = ar || m.kind == 1 || m.kind == 3 || m.kind == 4,
                 wg = ar || m.kind == 1 || m.kind == 8 || m.kind == 9, rg = wg || m.kind == 6 || m.kind == 10 || m.kind == 12,
                 wk = ar || m.kind == 1 || m.kind == 11 || m.kind == 12, rk = wk || m.kind == 6;
            bool room = W.body < bd->body;
            if (room) {
                if (has("c09")) {
                    if (ar && m.n < bd->handles) add(NEW);
                    if (ar)
                        for (int i = 0; i < m.n; i++)
                            if (m.cur.ex[i]) add(DESTROY, i);
                } else if (has("c11m")) {
                    if (ar)
                        for (int x = 0; x < 64; x += bd->handles) add(MASK, x);
                    else
                        for (int x = 0; x < 64; x += bd->handles) add(WMASK, x);
                } else if (has("c12")) {
                    if (wg && (ar || m.cur.g != NONE)) {
                        add(SETG);
                        add(SETGL);
                        add(GETG);
                    }
                    if (ar) add(UNSETG);
#ifdef TECS_UNCHECKED_MODE // a missing component must not be accessed
                    rg = rg && m.cur.g != NONE;
#endif
                    if (rg) add(CONSTG);
                    if (ar && m.n < bd->handles) add(NEW);
                    if (wa && m.n && m.cur.ex[0] && (ar || m.cur.a[0] != NONE)) add(SETA, 0);
                } else if (has("c12b")) { // two global components
                    if (wg && (ar || m.cur.g != NONE)) {
                        add(SETG);
                        add(GETG);
                    }
                    if (wk && (ar || m.cur.k != NONE)) {
                        add(SETKL);
                        add(GETK);
                    }
                    if (ar) {
                        add(UNSETG);
                        add(UNSETK);
                        add(UNSETGK);
                    }
#ifdef TECS_UNCHECKED_MODE
                    rg = rg && m.cur.g != NONE;
                    rk = rk && m.cur.k != NONE;
#endif
                    if (rg) add(CONSTG);
                    if (rk) add(CONSTK);
                } else if (has("c14")) {
                    if (ar) {
                        if (m.n < bd->handles) add(NEW);
                        int used = 0;
                        for (ObsModel &o : W.om) used += o.used;
                        if (used < bd->observers)
                            for (int t = 0; t < 5; t++)
                                if (bd->init & (1 << (4 + t))) add(WATCH, t);
                        for (int o = 0; o < MAXOBS; o++)
                            if (W.om[o].used && W.om[o].active) add(STOP, o);
                        for (int i = 0; i < m.n; i++)
                            if (m.cur.ex[i]) {
                                add(DESTROY, i);
                                if (bd->init & 0x20) add(m.cur.a[i] == NONE ? SETA : UNSETA, i);
                                if (bd->init & 0x40) add(m.cur.b[i] == NONE ? SETB : UNSETB, i);
                                if (bd->init & 0x60) {
                                    if ((bd->init & 0x20) && m.cur.a[i] != NONE) add(SETA, i);
                                }
                            }
                        if (bd->init & 0x80) {
                            add(SETG);
                            if (m.cur.g != NONE) add(UNSETG);
                        }
                        if (bd->init & 0x100) add(m.cur.k == NONE ? SETK : UNSETK);
                    } else {
                        if (wa)
                            for (int i = 0; i < m.n; i++)
                                if (m.cur.a[i] != NONE) add(SETA, i);
                        if (wg && m.cur.g != NONE) add(SETG);
                    }
                    for (int o = 0; o < MAXOBS; o++)
                        if (W.om[o].used) {
                            add(POLLALL, o);
                            if (W.om[o].n > 1) add(POLL1, o);
                        }
                } else {
                    bool small = has("c10") || has("c10g"); // c10g: components are added by Get() and by Set(lvalue)
                    if (ar && m.n < bd->handles) add(NEW);
                    for (int i = 0; i < m.n; i++) {
                        if (!m.cur.ex[i]) continue;
                        if (wa && (ar || m.cur.a[i] != NONE)) {
                            if (!small || (m.cur.a[i] == NONE && !has("c10g"))) add(SETA, i);
                            if (!small || (m.cur.a[i] == NONE && has("c10g"))) add(GETA, i);
                        }
                        if (wb && (ar || m.cur.b[i] != NONE)) {
                            if (has("c11")) add(SETBL, i);
                            else if (!small || (m.cur.b[i] == NONE && !has("c10g"))) add(SETB, i);
                            else if (small && m.cur.b[i] == NONE) add(SETBL, i);
                            if (!small && !has("c11")) add(GETB, i);
                            if (has("c23") || has("c08")) add(SETBL, i);
                        }
                        if (ar) {
                            if (m.cur.a[i] != NONE || !small) add(UNSETA, i);
                            if (m.cur.b[i] != NONE || !small) add(UNSETB, i);
                            if (small && m.cur.b[i] != NONE && m.cur.a[i] != NONE) add(UNSETAB, i);
                            add(DESTROY, i);
                        }
                    }
                    if (!small) {
                        if (wg && (ar || m.cur.g != NONE)) {
                            add(SETG);
                            if (!has("c11")) add(GETG);
                        }
                        if (ar && m.cur.g != NONE) add(UNSETG);
                    }
                    if (small && ar) {
                        if (!W.iterating)
                            for (int l = 0; l < 3; l++) add(ITBEGIN, l);
                        else {
                            add(ITNEXT);
                            if (W.ref) {
                                add(REFDESTROY);
                                if (m.cur.a[W.refHandle] != NONE) add(REFUNSET);
                                if (m.cur.a[W.refHandle] != NONE || m.cur.b[W.refHandle] != NONE) add(REFUNSETAB);
                            }
                        }
                    }
                }
                if (has("c13") && !W.bad) add(BADALL);
            }
            if (!(has("c11m") && room)) add(END);
        }
        if (two) {
            Inst &s = W.in[1];
            if (s.kind < 0) {
                if (W.nTx < bd->tx) add(START2, 0);
            } else {
                if (s.n < 3) add(NEW2);
                for (int i = 0; i < s.n; i++)
                    if (s.cur.ex[i]) add(DESTROY2, i);
                add(END2);
            }
        }
        return n;
    }

    static void opText(Op o, char *b, size_t n) {
        switch (o.code) {
        case START:
        case START2: snprintf(b, n, "%s<%s>", codeName[o.code], lkName[o.x]); break;
        case ITBEGIN: snprintf(b, n, "IterBegin(%s)", o.x == 0 ? "Entities" : o.x == 1 ? "With<A>" : "With<B>"); break;
        case WATCH: snprintf(b, n, "Watch<%s>", o.x == 0 ? "Entity" : o.x == 1 ? "A" : o.x == 2 ? "B" : o.x == 3 ? "G" : "K"); break;
        default: snprintf(b, n, "%s #%d", codeName[o.code], o.x);
        }
    }

    static void setup() {
        memset((void *)&W, 0, sizeof W);
        memset(live, 0, sizeof live);
        W.nextV = 1;
        W.in[0].kind = W.in[1].kind = -1;
        Inst &m = W.in[0];
        m.ecs = new ECS();
        m.cur.g = m.com.g = m.cur.k = m.com.k = NONE;
#ifndef TECS_HEADER_ONLY // instances of a header-only build have no identifiers
        if (has("c09")) {
            W.in[1].ecs = new ECS();
            W.in[1].cur.g = W.in[1].com.g = W.in[1].cur.k = W.in[1].com.k = NONE;
        }
#endif
#ifdef TECS_ENABLE_PERFORMANCE_TRACING
        m.ecs->StartTrace();
#endif
        int init = bd->init & 15;
        if (!hiddenE) {
            hiddenE = (Entity *)mc::raw_alloc(HID * sizeof(Entity));
            hiddenSeen = (uint32_t *)mc::raw_alloc((HID + 1) * sizeof(uint32_t));
        }
        memset((void *)hiddenE, 0, HID * sizeof(Entity));
#ifdef HIST_EXHAUST
        // use up the index type except for the last few entities; they stay alive but are not tracked by the model
        init = 0;
        {
            auto lock = m.ecs->StartTransaction<AddRemove>();
            for (int i = 0; i < HIST_BATCH - 2; i++) {
                Entity e = lock.NewEntity();
                MC_CHECK("handle", (int)e.index < HID && !hiddenE[e.index], "NewEntity() returned an index twice");
                hiddenE[e.index] = e;
                m.hidden[0]++;
            }
        }
#endif
        // the same slots are used again and again
        for (int k = 0; k < age; k++) {
            mc::progress();
            Entity e;
            {
                auto lock = m.ecs->StartTransaction<AddRemove>();
                e = lock.NewEntity();
                MC_CHECK("handle", (bool)e && (int)e.index < HID && e.Exists(lock), "reuse %d: NewEntity() returned an invalid handle", k);
                MC_CHECK("handle", !hiddenE[e.index] || e.generation > hiddenE[e.index].generation, "reuse %d: index %u got generation %u again", k, (unsigned)e.index, (unsigned)e.generation);
                MC_CHECK("handle", !hiddenE[e.index] || !hiddenE[e.index].Exists(lock), "reuse %d: a destroyed entity exists again", k);
                hiddenE[e.index] = e;
                if (k % 2) e.Set<A>(lock, 1u);
                if (k % 3 == 0) {
                    Entity c = e;
                    c.Destroy(lock);
                }
            }
            auto lock = m.ecs->StartTransaction<AddRemove>();
            MC_CHECK("handle", e.Exists(lock) == (k % 3 != 0), "reuse %d: wrong existence", k);
            if (k % 3) {
                Entity c = e;
                c.Destroy(lock);
            }
            MC_CHECK("handle", !e.Exists(lock), "reuse %d: a destroyed entity exists", k);
        }
        if (age) {
            for (int i = 0; i < HID && i < 4 && m.n < 3; i++)
                if (hiddenE[i]) { // stale handles for the rest of the history
                    m.hd[m.n] = hiddenE[i];
                    m.cur.ex[m.n] = m.com.ex[m.n] = false;
                    m.cur.a[m.n] = m.com.a[m.n] = m.cur.b[m.n] = m.com.b[m.n] = NONE;
                    m.n++;
                }
            memset((void *)hiddenE, 0, HID * sizeof(Entity));
        }
        if (crowd) {
            auto lock = m.ecs->StartTransaction<AddRemove>();
            for (int i = 0; i < crowd; i++) {
                mc::progress();
                Entity e = lock.NewEntity();
                MC_CHECK("handle", (int)e.index < HID && !hiddenE[e.index], "NewEntity() returned an index twice");
                hiddenE[e.index] = e;
                if (hiddenTop <= (int)e.index) hiddenTop = e.index + 1;
                if (crowdHas(e.index, 1)) e.Set<A>(lock, 1000u + e.index);
                if (crowdHas(e.index, 2)) (void)e.Get<B>(lock);
            }
            for (int w = 0; w < 3; w++) m.hidden[w] = crowdCount(w);
        }
        if (init == 0) return;
        // init 1: e0{A,B} e1{A} e2{} G   2: e0{A} with many free slots  3: two entities, one destroyed before
        start(m, 0);
        m.fresh = false;
        int ne = init == 1 ? 3 : init == 2 ? 2 : init == 3 ? 3 : init == 4 ? 3 : init == 5 ? 6 : 0;
        const uint8_t o = (uint8_t)m.n; // stale handles come first
        for (int i = 0; i < ne; i++) apply(Op{NEW, 0});
        if (ne > 0 && init != 5) apply(Op{SETA, uint8_t(o + 0)});
        if (init != 2 && init != 5) {
            apply(Op{SETB, uint8_t(o + 0)});
            apply(Op{SETA, uint8_t(o + 1)});
        }
        if (init == 4) {
            apply(Op{SETA, uint8_t(o + 2)});
            apply(Op{SETB, uint8_t(o + 1)});
            apply(Op{SETB, uint8_t(o + 2)});
        }
        if (init == 1 || init == 2) apply(Op{SETG, 0});
        stop(m);
        if (init == 3) {
            start(m, 0);
            m.fresh = false;
            apply(Op{DESTROY, uint8_t(o + 0)});
            stop(m);
        }
    }

    // ---------------------------------------------------------------------------------------- search
    struct Search { // outside of the snapshotted memory
        Op path[64];
        int len;
        uint64_t leaves, nodes, ops, ignored;
        uint64_t shardCounter;
        int shard, nshards, shardDepth;
        char only[256];
        bool stop, capped;
        double deadline;
        char failKind[32], failMsg[2048];
        char sample[1024];
        const char *diff; // message of the last differential failure
    };
    static Search *S;
    static double now() {
        timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        return t.tv_sec + t.tv_nsec * 1e-9;
    }
    static bool wanted(const char *kind) {
        char pat[48];
        snprintf(pat, sizeof pat, ",%s,", kind);
        return strstr(S->only, pat) != nullptr || !strcmp(kind, "internal");
    }
    struct Args {
        Op op;
        bool check;
    };
    static void step(void *p) {
        Args *a = (Args *)p;
        Op op = a->op;
        if (op.code == START || op.code == START2) {
            W.nTx++;
            W.body = 0;
        } else if (op.code != ITNEXT) {
            W.body++;
        }
        try {
            apply(op);
            mc::soft_kinds(wanted);
            checkInst(W.in[0]);
            if (W.in[1].ecs) checkInst(W.in[1]);
        } catch (std::exception &e) {
            mc::fail("exception", "unexpected exception: %s", e.what());
        }
        if (checkLive) checkRelease();
        mc::soft_kinds(nullptr);
        mc::soft_end();
    }
    static void rest(void *) {
        // Nothing open any more: the committed state, as seen by a fresh transaction
        for (Inst &m : W.in) {
            if (!m.ecs || m.kind >= 0) continue;
            start(m, 6);
            m.fresh = true;
            mc::soft_kinds(wanted);
            checkInst(m);
            // everything that was not polled yet (with checkLive the instance is destroyed with undelivered events)
            if (!checkLive && &m == &W.in[0])
                for (int o = 0; o < MAXOBS; o++)
                    if (W.om[o].used) apply(Op{POLLALL, (uint8_t)o});
            mc::soft_kinds(nullptr);
            mc::soft_end();
            stop(m);
        }
    }
    static void teardown(void *) {
        for (Inst &m : W.in) {
            if (!m.ecs) continue;
            if (m.kind >= 0) stop(m);
        }
        // observers may outlive the instance
        for (Inst &m : W.in) {
            if (!m.ecs) continue;
            delete m.ecs;
            m.ecs = nullptr;
        }
        for (int i = 0; i < MAXOBS; i++)
            if (W.om[i].used) {
                MC_CHECK("release", !(bool)obs<EntityEvent>(i), "observer is active after its instance was destroyed");
                obs<EntityEvent>(i).~Observer<ECS, EntityEvent>();
            }
        for (int v = 1; v < MAXV; v++) MC_CHECK("release", live[v] == 0, "%d copies of value %d survive the instance", live[v], v);
        MC_CHECK("release", mc::live_blocks() == 0, "%zu heap block(s) leaked by the instance", mc::live_blocks());
    }
    static void pathText(char *b, size_t n) {
        size_t k = 0;
        for (int i = 0; i < S->len && k + 40 < n; i++) {
            char one[64];
            opText(S->path[i], one, sizeof one);
            k += snprintf(b + k, n - k, "%s%s", i ? "; " : "", one);
        }
    }
    static bool differentialClean();
    static bool handleFail(const char *msg) {
        char kind[32];
        snprintf(kind, sizeof kind, "%s", mc::fail_kind());
        std::string m = msg;
        if (wanted(kind) && (!has("c13") || !strcmp(kind, "reject") || differentialClean())) {
            snprintf(S->failKind, sizeof S->failKind, "%s", kind);
            char t[1024];
            pathText(t, sizeof t);
            snprintf(S->failMsg, sizeof S->failMsg, "%s\nhistory: %s", m.c_str(), t);
            S->stop = true;
            return true;
        }
        S->ignored++;
        return false;
    }
    static void dfs() {
        if (S->stop) return;
        S->nodes++;
        if ((S->nodes & 255) == 0 && S->deadline > 0 && now() > S->deadline) {
            S->capped = true;
            return;
        }
        Op ops[128];
        int n = S->len < bd->depth ? genOps(ops) : 0;
        bool open = false;
        for (Inst &m : W.in) open |= m.ecs && m.kind >= 0;
        if (S->len >= S->shardDepth || n == 0) {
            if (n == 0 || (checkLive && !open)) {
                if (!(n == 0 && S->len < S->shardDepth && S->shard != 0)) {
                    // leaf: commit whatever is open and look again
                    S->leaves++;
                    if (!S->sample[0] && S->len >= bd->depth) pathText(S->sample, sizeof S->sample);
                    mc::snap_push();
                    const char *e = nullptr;
                    if (open) {
                        for (int k = 0; k < 2 && !e; k++)
                            if (W.in[k].ecs && W.in[k].kind >= 0) {
                                Args a{Op{(uint8_t)(k ? END2 : END), 0}, true};
                                e = mc::guarded(step, &a);
                            }
                    }
                    if (!e) e = mc::guarded(rest, nullptr);
                    if (!e && checkLive) e = mc::guarded(teardown, nullptr);
                    if (e) handleFail(e);
                    mc::snap_restore();
                    mc::snap_pop();
                }
            }
        }
        if (n == 0) return;
        mc::snap_push();
        for (int i = 0; i < n && !S->stop && !S->capped; i++) {
            if (S->len + 1 == S->shardDepth && (S->shardCounter++ % S->nshards) != (uint64_t)S->shard) continue;
            S->path[S->len++] = ops[i];
            S->ops++;
            Args a{ops[i], true};
            const char *e = mc::guarded(step, &a);
            if (e)
                handleFail(e);
            else
                dfs();
            if (S->stop) return;
            S->len--;
            mc::snap_restore();
        }
        mc::snap_pop();
    }
    static mc::Snap rootSnap;
    static bool differentialClean() {
        // Does the same history fail without the invalid uses? Then it is not their fault.
        bool hadBad = false;
        Op p[64];
        int n = 0;
        for (int i = 0; i < S->len; i++) {
            if (S->path[i].code == BADALL)
                hadBad = true;
            else
                p[n++] = S->path[i];
        }
        if (!hadBad) return false;
        mc::snap_push();
        // from a fresh setup
        bool failed = mc::guarded([](void *) { setup(); }, nullptr) != nullptr;
        for (int i = 0; i < n && !failed; i++) {
            Args a{p[i], true};
            failed = mc::guarded(step, &a) != nullptr;
        }
        if (!failed && W.in[0].kind >= 0) {
            Args a{Op{END, 0}, true};
            failed = mc::guarded(step, &a) != nullptr;
        }
        if (!failed) failed = mc::guarded(rest, nullptr) != nullptr;
        mc::snap_restore();
        mc::snap_pop();
        return !failed;
    }

    static void js(const char *s) {
        putchar('"');
        for (; *s; s++) {
            if (*s == '"' || *s == '\\')
                printf("\\%c", *s);
            else if ((unsigned char)*s < 32)
                printf("\\u%04x", *s);
            else
                putchar(*s);
        }
        putchar('"');
    }
    static int main(int argc, char **argv) {
        mc::seq_init();
        bd = new Bounds{4, 2, 4, 4, "c08", 1, 0x7ff};
        S = (Search *)mc::raw_alloc(sizeof(Search));
        S->nshards = 1;
        S->shardDepth = 2;
        strcpy(S->only, ",");
        double secs = 0;
        const char *replay = nullptr;
        std::string label;
        for (int i = 1; i + 1 < argc; i += 2) {
            std::string a = argv[i], v = argv[i + 1];
            if (a != "--shard" && a != "--replay" && a != "--secs" && a != "--only") label += a.substr(2) + "=" + v + " ";
            if (a == "--mode") bd->mode = v;
            else if (a == "--init") bd->init = (int)strtol(v.c_str(), nullptr, 0);
            else if (a == "--depth") bd->depth = atoi(v.c_str());
            else if (a == "--tx") bd->tx = atoi(v.c_str());
            else if (a == "--body") bd->body = atoi(v.c_str());
            else if (a == "--handles") bd->handles = atoi(v.c_str());
            else if (a == "--kinds") bd->kinds = (uint32_t)strtoul(v.c_str(), nullptr, 0);
            else if (a == "--only") snprintf(S->only, sizeof S->only, ",%s,", v.c_str());
            else if (a == "--shard") sscanf(v.c_str(), "%d/%d", &S->shard, &S->nshards);
            else if (a == "--live") checkLive = atoi(v.c_str()) != 0;
            else if (a == "--obs") bd->observers = atoi(v.c_str());
            else if (a == "--crowd") sscanf(v.c_str(), "%d/%d", &crowd, &crowdMod);
            else if (a == "--age") age = atoi(v.c_str());
            else if (a == "--sdepth") S->shardDepth = atoi(v.c_str());
            else if (a == "--secs") secs = atof(v.c_str());
            else if (a == "--replay") replay = argv[i + 1];
            else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 3; }
        }
        if (has("c23")) checkLive = true;
        double t0 = now();
        if (secs > 0) S->deadline = t0 + secs;
        const char *e = mc::guarded([](void *) { setup(); }, nullptr);
        if (e) {
            snprintf(S->failKind, sizeof S->failKind, "%s", mc::fail_kind());
            snprintf(S->failMsg, sizeof S->failMsg, "in setup: %s", e);
            if (wanted(S->failKind)) S->stop = true;
        } else if (replay) {
            for (const char *p = replay; *p && !S->stop;) {
                char *q;
                long c = strtol(p, &q, 10);
                if (q == p) {
                    p++;
                    continue;
                }
                p = q + 1;
                long x = strtol(p, &q, 10);
                p = q;
                Op o{(uint8_t)c, (uint8_t)x};
                S->path[S->len++] = o;
                Args a{o, true};
                e = mc::guarded(step, &a);
                if (e) {
                    handleFail(e);
                    break;
                }
            }
            if (!S->stop && !e) {
                for (int k = 0; k < 2 && !e; k++)
                    if (W.in[k].ecs && W.in[k].kind >= 0) {
                        Args a{Op{(uint8_t)(k ? END2 : END), 0}, true};
                        e = mc::guarded(step, &a);
                    }
                if (!e) e = mc::guarded(rest, nullptr);
                if (!e && checkLive) e = mc::guarded(teardown, nullptr);
                if (e) handleFail(e);
            }
        } else
            dfs();
        printf("{\"scenario\":");
        js(label.c_str());
        printf(",\"result\":\"%s\",\"executions\":%llu,\"states\":%llu,\"transitions\":%llu,\"ignored\":%llu,\"capped\":%s,\"depth\":%d,\"secs\":%.2f,\"sample\":", S->stop ? "violation" : "ok",
            (unsigned long long)S->leaves, (unsigned long long)S->nodes, (unsigned long long)S->ops, (unsigned long long)S->ignored, S->capped ? "true" : "false", bd->depth, now() - t0);
        js(S->sample);
        if (S->stop) {
            printf(",\"kind\":");
            js(S->failKind);
            printf(",\"message\":");
            js(S->failMsg);
            printf(",\"history\":\"");
            for (int i = 0; i < S->len; i++) printf("%s%d:%d", i ? "," : "", S->path[i].code, S->path[i].x);
            printf("\"");
        }
        printf("}\n");
        return S->stop ? 1 : 0;
    }
} // namespace h
int main(int argc, char **argv) { return h::main(argc, argv); }
