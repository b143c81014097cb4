#include "block.hh"

#include <Tecs.hh>

#include <cstdlib>
#include <cstring>

namespace h {
    struct A { uint32_t v = 0; A() {} A(uint32_t v) : v(v) {} };
    struct B { uint32_t v = 0; B() {} B(uint32_t v) : v(v) {} };
    struct G { uint32_t v = 0; G() {} G(uint32_t v) : v(v) {} };
}
TECS_GLOBAL_COMPONENT(h::G);
namespace h {
    using ECS = Tecs::ECS<A, B, G>;
    using namespace Tecs;
    static ECS *world;
    static Entity ent, bare, onlyB;
    static Observer<ECS, ComponentEvent<A>> observer;
    static char prog[mc::MAXT][64];

    template<typename L>
    static void look(const L &lock, int id) {
        txSaw(id, 0, (uint32_t)lock.PreviousEntities().size());
        if constexpr (is_read_allowed<A, L>())
            if (ent.Had<A>(lock)) txSaw(id, 1, ent.GetPrevious<A>(lock).v);
        if constexpr (is_read_allowed<B, L>()) txSaw(id, 2, ent.GetPrevious<B>(lock).v);
        if constexpr (is_read_allowed<G, L>())
            if (lock.template Had<G>()) txSaw(id, 3, lock.template GetPrevious<G>().v);
    }
    template<typename L>
    static void change(const L &lock, int id, int w) {
        if constexpr (is_add_remove_allowed<L>()) {
            if (w & META) {
                lock.NewEntity();
                txWrote(id, 0, (uint32_t)lock.Entities().size());
            }
        }
        if constexpr (is_write_allowed<A, L>())
            if ((w & CA) && ent.Has<A>(lock)) {
                uint32_t n = ent.Get<const A>(lock).v + 1;
                ent.Get<A>(lock).v = n;
                txWrote(id, 1, n);
            }
        if constexpr (is_write_allowed<B, L>())
            if (w & CB) {
                uint32_t n = ent.Get<const B>(lock).v + 1;
                ent.Set<B>(lock, n);
                txWrote(id, 2, n);
            }
        if constexpr (is_write_allowed<G, L>())
            if ((w & CG) && lock.template Has<G>()) {
                uint32_t n = lock.template Get<const G>().v + 1;
                lock.template Set<G>(n);
                txWrote(id, 3, n);
            }
    }
    // The kinds that do not follow from the items they change
    template<typename L>
    static bool special(const L &lock, int id, int k) {
        auto everything = [&](const auto &l) {
            if (ent.Has<A>(l)) (void)ent.Get<const A>(l);
            (void)ent.Get<const B>(l);
            if (l.template Has<G>()) (void)l.template Get<const G>();
            if (ent.Had<A>(l)) (void)ent.GetPrevious<A>(l);
            (void)bare.Has<A>(l);
            (void)bare.Exists(l);
            (void)l.template Has<G>();
            for (auto e : l.template EntitiesWith<A>()) (void)e;
            for (auto e : l.Entities()) (void)e;
        };
        if constexpr (is_add_remove_allowed<L>()) {
            size_t n = lock.Entities().size();
            switch (k) {
            case 26:
                if (bare.Exists(lock) && !bare.Has<A>(lock)) bare.Unset<A, B>(lock);
                if (onlyB.Exists(lock)) onlyB.Unset<A>(lock);
                return true;
            case 27:
                if (ent.Has<A>(lock)) ent.Unset<A>(lock);
                return true;
            case 28:
                if (onlyB.Exists(lock)) onlyB.Destroy(lock);
                return true;
            case 29:
                if (bare.Exists(lock)) bare.Destroy(lock);
                return true;
            case 30:
                if (bare.Exists(lock) && !bare.Has<A>(lock)) bare.Set<A>(lock, 7u);
                return true;
            case 31:
                lock.template Unset<G>();
                return true;
            case 32: {
                ComponentEvent<A> ev;
                while (observer.Poll(lock, ev)) {}
                everything(lock);
                everything(lock.ReadOnlySubset());
                DynamicLock<ECS, ReadAll> d(lock);
                if (auto t = d.template TryLock<AddRemove>()) everything(*t);
                return true;
            }
            case 35: {
                Entity e = lock.NewEntity();
                e.Destroy(lock);
                txWrote(id, 0, (uint32_t)n);
                return true;
            }
            case 36:
                lock.NewEntity().template Set<A>(lock, 1u);
                return true;
            }
        }
        if constexpr (is_read_allowed<A, L>() && is_read_allowed<B, L>() && is_read_allowed<G, L>())
            if (k == 33) {
                everything(lock);
                everything(lock.ReadOnlySubset());
                return true;
            }
        if constexpr (is_write_allowed<A, L>() && is_write_allowed<B, L>())
            if (k == 34) {
                DynamicLock<ECS, Read<A>> d(lock);
                auto t = d.template TryLock<Write<B>>();
                MC_CHECK("wait", t, "TryLock failed");
                ent.Set<B>(*t, ent.Get<const B>(*t).v + 1);
                return true;
            }
        return false;
    }
    template<typename... P>
    static void tx(int k, bool late, bool hold) {
        if (late) {
            mc::park();
            quiescent();
        }
        int id = txBegin(k);
        {
            auto lock = world->StartTransaction<P...>();
            txStarted(id);
            if (k < 26 || k == 37) look(lock, id);
            if (!special(lock, id, k)) change(lock, id, kinds[k].wr);
            if (hold) {
                mc::park();
                quiescent();
                if (k < 26 || k == 37) look(lock, id);
            }
            txEnding(id);
        }
        txEnded(id);
    }
    static void run(int k, bool late, bool hold) {
        switch (k) {
        case 0: return tx<>(k, late, hold);
        case 1: return tx<Read<A>>(k, late, hold);
        case 2: return tx<Read<A, B>>(k, late, hold);
        case 3: return tx<ReadAll>(k, late, hold);
        case 4: case 5: return tx<Write<A>>(k, late, hold);
        case 6: return tx<Write<B>>(k, late, hold);
        case 7: case 8: case 9: return tx<Write<A, B>>(k, late, hold);
        case 10: return tx<Read<A>, Write<B>>(k, late, hold);
        case 11: return tx<Read<B>, Write<A>>(k, late, hold);
        case 12: case 13: case 14: return tx<WriteAll>(k, late, hold);
        case 15: return tx<Write<G>>(k, late, hold);
        case 16: return tx<Read<G>, Write<A>>(k, late, hold);
        case 17: case 18: case 19: case 20: case 21: return tx<AddRemove>(k, late, hold);
        case 22: return tx<Read<G>>(k, late, hold);
        case 23: return tx<Read<B, G>>(k, late, hold);
        case 24: return tx<Read<B>>(k, late, hold);
        case 25: return tx<ReadAll, Write<B>>(k, late, hold);
        case 26: case 27: case 28: case 29: case 30: case 31: case 32: case 35: case 36: return tx<AddRemove>(k, late, hold);
        case 33: return tx<WriteAll>(k, late, hold);
        case 34: return tx<Write<A, B>>(k, late, hold);
        case 37: return tx<Read<B>, Write<A>, Write<G>>(k, late, hold);
        default: mc::fail("internal", "bad kind");
        }
    }
    static void setup() {
        world = new ECS();
        resetAll();
        auto lock = world->StartTransaction<AddRemove>();
        ent = lock.NewEntity();
        ent.Set<A>(lock, 0u);
        ent.Set<B>(lock, 0u);
        lock.Set<G>(0u);
        bare = lock.NewEntity();
        onlyB = lock.NewEntity();
        onlyB.Set<B>(lock, 0u);
        observer = lock.Watch<ComponentEvent<A>>();
    }
    static void body(int t) {
        for (const char *p = prog[t]; *p;) {
            bool late = false, hold = false;
            for (;; p++)
                if (*p == 'p') late = true;
                else if (*p == 'h') hold = true;
                else if (*p != '.') break;
            char *e;
            int k = (int)strtol(p, &e, 10);
            if (e == p) break;
            p = e;
            run(k, late, hold);
        }
    }
    static void finish() {
        checkAll();
        observer = {};
        delete world;
        MC_CHECK("memory", mc::live_blocks() == 0, "%zu heap block(s) leaked", mc::live_blocks());
    }
    static const mc::Scenario *resolve(const char *name) {
        static mc::Scenario s;
        s = {name, 1, setup, body, finish, 0};
        memset(prog, 0, sizeof prog);
        int t = 1, n = 0;
        for (const char *p = name; *p; p++) {
            if (*p == '|') {
                if (++t >= mc::MAXT) return nullptr;
                n = 0;
            } else if (n < 62)
                prog[t][n++] = *p;
        }
        s.nthreads = t;
        return &s;
    }
} // namespace h
int main(int argc, char **argv) { return mc::main(argc, argv, nullptr, 0, h::resolve); }
