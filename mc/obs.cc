#include "obs.hh"

#include <Tecs.hh>

#include <cstdlib>
#include <cstring>

namespace h {
    struct A { uint32_t v = 0; A() {} A(uint32_t v) : v(v) {} uint32_t id() const { return v; } };
    struct Box { // owns memory
        uint32_t *p;
        Box() : p(new uint32_t(0)) {}
        Box(uint32_t id) : p(new uint32_t(id)) {}
        Box(const Box &o) : p(new uint32_t(*o.p)) {}
        Box(Box &&o) noexcept : p(o.p) { o.p = nullptr; }
        Box &operator=(const Box &o) {
            if (!p) p = new uint32_t(0);
            *p = *o.p;
            return *this;
        }
        Box &operator=(Box &&o) noexcept {
            uint32_t *t = p;
            p = o.p;
            o.p = t;
            return *this;
        }
        ~Box() { delete p; }
        uint32_t id() const { return *p; }
    };
    struct B : Box { using Box::Box; };
    struct G : Box { using Box::Box; };
    struct M {}; // marks: one entity per structural commit
}
TECS_GLOBAL_COMPONENT(h::G);
namespace h {
    using namespace Tecs;
    using ECS = Tecs::ECS<A, B, G, M>;
    using EvE = EntityEvent;
    using EvA = ComponentEvent<A>;
    using EvB = ComponentEvent<B>;
    using EvG = ComponentEvent<G>;
    static ECS *world;
    static Entity ent[4];
    static char prog[mc::MAXT][64];
    template<typename E>
    struct Slot {
        Observer<ECS, E> *o;
        int id;
    };
    struct Mine { // the observers of one thread
        Slot<EvE> e;
        Slot<EvA> a;
        Slot<EvB> b;
        Slot<EvG> g;
    };
    static Mine mine[mc::MAXT];

    template<typename L>
    static int commits(const L &lock) {
        return (int)lock.template PreviousEntitiesWith<M>().size();
    }
    static Event conv(const EvE &e) { return Event{(int)e.type, ((uint64_t)e.entity.generation << 32) | e.entity.index, 0}; }
    template<typename T>
    static Event conv(const ComponentEvent<T> &e) {
        return Event{(int)e.type, ((uint64_t)e.entity.generation << 32) | e.entity.index, e.component.id()};
    }
    template<typename E, typename L>
    static void poll(const L &lock, Slot<E> &s, bool one) {
        if (!s.o) return;
        int k = commits(lock);
        for (int i = 0; i < 40; i++) {
            E ev;
            if (!s.o->Poll(lock, ev)) {
                obsDrained(s.id, k);
                return;
            }
            obsPolled(s.id, k, conv(ev));
            if (one) return;
        }
        mc::fail("event", "observer queue never becomes empty");
    }
    template<typename L>
    static void pollAll(const L &lock, bool one) {
        Mine &m = mine[mc::self()];
        poll(lock, m.e, one);
        poll(lock, m.a, one);
        poll(lock, m.b, one);
        poll(lock, m.g, one);
    }
    template<typename T>
    static uint32_t valueOf(const T &t) { return t.id(); }

    struct Shot {
        bool ex[4];
        Entity e[4];
        uint32_t a[4], b[4], g;
    };
    template<typename L>
    static Shot shot(const L &lock) {
        Shot s;
        for (int i = 0; i < 4; i++) {
            s.e[i] = ent[i];
            s.ex[i] = ent[i] && ent[i].Exists(lock);
            s.a[i] = s.ex[i] && ent[i].Has<A>(lock) ? ent[i].Get<const A>(lock).id() : ~0u;
            s.b[i] = s.ex[i] && ent[i].Has<B>(lock) ? ent[i].Get<const B>(lock).id() : ~0u;
        }
        s.g = lock.template Has<G>() ? lock.template Get<const G>().id() : ~0u;
        return s;
    }
    static uint64_t num(Entity e) { return ((uint64_t)e.generation << 32) | e.index; }
    template<typename L>
    static void structural(const L &lock, int what, uint32_t val) {
        int n = commits(lock) + 1;
        Shot was = shot(lock);
        Entity mark = lock.NewEntity();
        mark.Set<M>(lock);
        commitEvent(n, O_ENT, Event{1, num(mark), 0});
        switch (what) {
        case 1: // destroy
            if (was.ex[0]) Entity(ent[0]).Destroy(lock);
            break;
        case 2: // remove and add components
            if (was.a[1] != ~0u) ent[1].Unset<A>(lock);
            if (was.ex[1] && was.b[1] == ~0u) ent[1].Set<B>(lock, val);
            break;
        case 3: // toggle
            if (was.a[2] != ~0u) ent[2].Unset<A>(lock);
            else if (was.ex[2]) ent[2].Set<A>(lock, val);
            break;
        case 4: // global
            if (was.g != ~0u) lock.template Unset<G>();
            else lock.template Set<G>(val);
            break;
        case 5: // replace: remove and recreate components of a new entity
            if (was.ex[1]) Entity(ent[1]).Destroy(lock);
            ent[1] = lock.NewEntity();
            ent[1].Set<B>(lock, val);
            ent[1].Set<A>(lock, val);
            break;
        case 6: // added and removed again: no event; value change of a component: no event
            if (was.a[2] != ~0u) {
                ent[2].Unset<A>(lock);
                ent[2].Set<A>(lock, val);
            }
            if (was.b[1] != ~0u) ent[1].Set<B>(lock, val);
            break;
        }
        Shot is = shot(lock);
        for (int i = 0; i < 4; i++) {
            bool changed = was.e[i] != is.e[i];
            if (was.ex[i] && (changed || !is.ex[i])) commitEvent(n, O_ENT, Event{2, num(was.e[i]), 0});
            if (is.ex[i] && (changed || !was.ex[i])) commitEvent(n, O_ENT, Event{1, num(is.e[i]), 0});
            if (was.a[i] != ~0u && (changed || is.a[i] == ~0u)) commitEvent(n, O_A, Event{2, num(was.e[i]), was.a[i]});
            if (is.a[i] != ~0u && (changed || was.a[i] == ~0u)) commitEvent(n, O_A, Event{1, num(is.e[i]), is.a[i]});
            if (was.b[i] != ~0u && (changed || is.b[i] == ~0u)) commitEvent(n, O_B, Event{2, num(was.e[i]), was.b[i]});
            if (is.b[i] != ~0u && (changed || was.b[i] == ~0u)) commitEvent(n, O_B, Event{1, num(is.e[i]), is.b[i]});
        }
        if (was.g != ~0u && is.g == ~0u) commitEvent(n, O_G, Event{2, 0, was.g});
        if (was.g == ~0u && is.g != ~0u) commitEvent(n, O_G, Event{1, 0, is.g});
    }
    template<typename E, typename L>
    static void watch(const L &lock, Slot<E> &s, int type, int thread = 0) {
        if (s.o) return;
        s.o = new Observer<ECS, E>(lock.template Watch<E>());
        s.id = obsNew(type, thread ? 0 : commits(lock) + 1, thread ? thread : mc::self());
    }
    template<typename E, typename L>
    static void stop(const L &lock, Slot<E> &s) {
        if (!s.o) return;
        s.o->Stop(lock);
        MC_CHECK("event", !(bool)*s.o, "a stopped observer is still active");
        E ev;
        MC_CHECK("event", !s.o->Poll(lock, ev), "a stopped observer still returns events");
        delete s.o;
        s.o = nullptr;
    }
    static void watchAll(int which) {
        auto lock = world->StartTransaction<AddRemove>();
        Mine &m = mine[mc::self()];
        if (which & 1) watch(lock, m.e, O_ENT);
        if (which & 2) watch(lock, m.a, O_A);
        if (which & 4) watch(lock, m.b, O_B);
        if (which & 8) watch(lock, m.g, O_G);
    }
    static void op(char c, uint32_t val) {
        Mine &m = mine[mc::self()];
        switch (c) {
        case '1': case '2': case '3': case '4': case '5': case '6': {
            auto lock = world->StartTransaction<AddRemove>();
            structural(lock, c - '0', val);
            return;
        }
        case '7': { // value changes only
            auto lock = world->StartTransaction<Write<A>, Read<B>>();
            for (Entity &e : ent)
                if (e && e.Has<A>(lock)) e.Set<A>(lock, val);
            return;
        }
        case '8': { // values through AddRemove, no structural change
            auto lock = world->StartTransaction<AddRemove>();
            for (Entity &e : ent)
                if (e && e.Has<B>(lock)) e.Set<B>(lock, val);
            return;
        }
        case '9': { // polls, then changes the structure
            auto lock = world->StartTransaction<AddRemove>();
            pollAll(lock, false);
            structural(lock, 3, val);
            pollAll(lock, false);
            return;
        }
        case 'p': { // read nothing
            auto lock = world->StartTransaction<>();
            pollAll(lock, false);
            return;
        }
        case 'o': { // one event per observer
            auto lock = world->StartTransaction<>();
            pollAll(lock, true);
            return;
        }
        case 'q': { // twice in one transaction
            auto lock = world->StartTransaction<Read<A, B>>();
            pollAll(lock, false);
            pollAll(lock, false);
            return;
        }
        case 'r': {
            auto lock = world->StartTransaction<Write<A>>();
            pollAll(lock, true);
            pollAll(lock, false);
            return;
        }
        case 'a': { // AddRemove without a change
            auto lock = world->StartTransaction<AddRemove>();
            pollAll(lock, false);
            return;
        }
        case 'w': return watchAll(15);
        case 'x': { // watch and change in one transaction
            auto lock = world->StartTransaction<AddRemove>();
            watch(lock, m.e, O_ENT);
            watch(lock, m.a, O_A);
            watch(lock, m.b, O_B);
            structural(lock, 3, val);
            return;
        }
        case 's': {
            auto lock = world->StartTransaction<AddRemove>();
            stop(lock, m.e);
            stop(lock, m.a);
            stop(lock, m.b);
            stop(lock, m.g);
            return;
        }
        case 't': { // stop and change
            auto lock = world->StartTransaction<AddRemove>();
            structural(lock, 3, val);
            stop(lock, m.e);
            stop(lock, m.a);
            stop(lock, m.b);
            return;
        }
        default: mc::fail("internal", "bad operation");
        }
    }
    static bool pre[mc::MAXT], fresh; // fresh: no transaction precedes the concurrent ones
    static void setup() {
        world = new ECS();
        oracleReset();
        memset(mine, 0, sizeof mine);
        if (fresh) {
            for (Entity &e : ent) e = Entity();
            return;
        }
        auto lock = world->StartTransaction<AddRemove>();
        for (int i = 0; i < 3; i++) {
            ent[i] = lock.NewEntity();
            ent[i].Set<A>(lock, 10u + i);
        }
        ent[0].Set<B>(lock, 20u);
        ent[3] = Entity();
        lock.Set<G>(30u);
        for (int i = 0; i < 3; i++) {
            commitEvent(0, O_ENT, Event{1, num(ent[i]), 0});
            commitEvent(0, O_A, Event{1, num(ent[i]), 10u + i});
        }
        commitEvent(0, O_B, Event{1, num(ent[0]), 20u});
        commitEvent(0, O_G, Event{1, 0, 30u});
        for (int t = 1; t < 4; t++)
            if (pre[t]) {
                Mine &m = mine[t];
                watch(lock, m.e, O_ENT, t);
                watch(lock, m.a, O_A, t);
                watch(lock, m.b, O_B, t);
                watch(lock, m.g, O_G, t);
            }
    }
    static void body(int t) {
        uint32_t val = 100 * t;
        for (const char *p = prog[t]; *p; p++) op(*p, val++);
    }
    static void finish() {
        // everything that is left, then the end of the instance
        {
            auto lock = world->StartTransaction<ReadAll>();
            int k = commits(lock);
            for (Mine &m : mine) {
                auto rest = [&](auto &s) {
                    if (!s.o) return;
                    using E = std::conditional_t<std::is_same_v<decltype(s), Slot<EvE> &>, EvE,
                        std::conditional_t<std::is_same_v<decltype(s), Slot<EvA> &>, EvA, std::conditional_t<std::is_same_v<decltype(s), Slot<EvB> &>, EvB, EvG>>>;
                    for (int i = 0; i < 40; i++) {
                        E ev;
                        if (!s.o->Poll(lock, ev)) break;
                        obsPolled(s.id, k, conv(ev));
                    }
                    obsDrained(s.id, k);
                };
                rest(m.e);
                rest(m.a);
                rest(m.b);
                rest(m.g);
            }
        }
        oracleCheck();
        delete world;
        for (Mine &m : mine) {
            auto end = [](auto &s) {
                if (!s.o) return;
                MC_CHECK("event", !(bool)*s.o, "an observer outlives its instance");
                delete s.o;
            };
            end(m.e);
            end(m.a);
            end(m.b);
            end(m.g);
        }
        MC_CHECK("memory", mc::live_blocks() == 0, "%zu heap block(s) leaked", mc::live_blocks());
    }
    static const mc::Scenario *resolve(const char *name) {
        static mc::Scenario s;
        s = {name, 1, setup, body, finish, 0};
        memset(prog, 0, sizeof prog);
        memset(pre, 0, sizeof pre);
        fresh = false;
        int t = 1, n = 0;
        for (const char *p = name; *p; p++) {
            if (*p == '|') {
                if (++t >= mc::MAXT) return nullptr;
                n = 0;
            } else if (*p == 'W')
                pre[t] = true;
            else if (*p == 'Z')
                fresh = true;
            else if (n < 62)
                prog[t][n++] = *p;
        }
        s.nthreads = t;
        return &s;
    }
} // namespace h
int main(int argc, char **argv) { return mc::main(argc, argv, nullptr, 0, h::resolve); }
