// Harness "locks": lock handles of one transaction (C21 lifetime, C24 permissions of dynamic and read-only locks).
#include "rt.h"

#include <Tecs.hh>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>
#include <time.h>

namespace h {
    struct A { uint32_t v = 0; A() {} A(uint32_t v) : v(v) {} };
    struct B { uint32_t v = 0; B() {} B(uint32_t v) : v(v) {} };
    using namespace Tecs;
#ifdef LOCKS_WIDE // more component types than fit in a machine word, A and B in different words
    template<int I>
    struct Filler { uint8_t v; };
    template<typename S>
    struct WideECS;
    template<int... I>
    struct WideECS<std::integer_sequence<int, I...>> {
        using T = Tecs::ECS<A, Filler<I>..., B>;
        using All = Read<A, Filler<I>..., B>;
    };
    using Wide = WideECS<std::make_integer_sequence<int, LOCKS_WIDE>>;
    using ECS = Wide::T;
#else
    using ECS = Tecs::ECS<A, B>;
#endif
    template<typename... P>
    struct Perm {
        using L = Lock<ECS, P...>;
        using D = DynamicLock<ECS, P...>;
        static L start(ECS &e) { return e.StartTransaction<P...>(); }
        template<typename Dyn>
        static std::optional<L> tryLock(const Dyn &d) { return d.template TryLock<P...>(); }
        template<typename S>
        static L subset(const S &s) { return s.template Subset<P...>(); }
    };
#ifdef LOCKS_WIDE
    using Types = std::tuple<Perm<>, Perm<Read<>>, Perm<Read<A>>, Perm<Read<B>>, Perm<Read<A, B>>, Perm<Write<A>>, Perm<Write<B>>, Perm<Read<A>, Write<B>>, Perm<ReadAll>,
        Perm<WriteAll>, Perm<AddRemove>, Perm<Wide::All>>;
#else
    using Types = std::tuple<Perm<>, Perm<Read<>>, Perm<Read<A>>, Perm<Read<B>>, Perm<Read<A, B>>, Perm<Write<A>>, Perm<Write<B>>, Perm<Write<A, B>>,
        Perm<Read<A>, Write<B>>, Perm<Write<A>, Read<B>>, Perm<ReadAll>, Perm<WriteAll>, Perm<AddRemove>, Perm<Lock<ECS, AddRemove>>, Perm<ReadAll, Write<B>>,
        Perm<Lock<ECS, Read<A>>, Write<B>>, Perm<Read<A>, AddRemove>, Perm<DynamicLock<ECS, Write<A>>>>;
#endif
    constexpr int N = std::tuple_size_v<Types>;
    template<size_t I>
    using Ty = std::tuple_element_t<I, Types>;
    // r/w: 1 = A, 2 = B, 4 = the filler components; ar
    struct P { int r, w, ar; const char *name; };
#ifdef LOCKS_WIDE
    constexpr int ALL = 7, READALL = 11;
    static const P perm[N] = {{0, 0, 0, "none"}, {0, 0, 0, "Read<>"}, {1, 0, 0, "Read<A>"}, {2, 0, 0, "Read<B>"}, {3, 0, 0, "Read<A,B>"}, {1, 1, 0, "Write<A>"},
        {2, 2, 0, "Write<B>"}, {3, 2, 0, "Read<A>,Write<B>"}, {7, 0, 0, "ReadAll"}, {7, 7, 0, "WriteAll"}, {7, 7, 1, "AddRemove"}, {7, 0, 0, "Read<every component>"}};
#else
    constexpr int ALL = 3, READALL = 10;
    static const P perm[N] = {{0, 0, 0, "none"}, {0, 0, 0, "Read<>"}, {1, 0, 0, "Read<A>"}, {2, 0, 0, "Read<B>"}, {3, 0, 0, "Read<A,B>"}, {1, 1, 0, "Write<A>"},
        {2, 2, 0, "Write<B>"}, {3, 3, 0, "Write<A,B>"}, {3, 2, 0, "Read<A>,Write<B>"}, {3, 1, 0, "Write<A>,Read<B>"}, {3, 0, 0, "ReadAll"}, {3, 3, 0, "WriteAll"},
        {3, 3, 1, "AddRemove"}, {3, 3, 1, "Lock<AddRemove>"}, {3, 2, 0, "ReadAll,Write<B>"}, {3, 2, 0, "Lock<Read<A>>,Write<B>"}, {3, 3, 1, "Read<A>,AddRemove"},
        {1, 1, 0, "DynamicLock<Write<A>>"}};
#endif
    static bool subset(int s, int p) { return !(perm[s].r & ~perm[p].r) && !(perm[s].w & ~perm[p].w) && (!perm[s].ar || perm[p].ar); }

    constexpr int MAXH = 5;
    struct Handle {
        bool live, dyn, ro;
        int type;
        int src; // static type of the lock a dynamic lock was made from
        alignas(16) char mem[128];
    };
    struct World {
        ECS *ecs;
        Entity e, fresh; // fresh: created by the active transaction
        Handle h[MAXH];
        bool active, dirtyA, dirtyB, dirtyM;
        int tx;             // permissions of the transaction
        size_t id, lastId;
        uint32_t a, b, n;   // current
        uint32_t ca, cb, cn; // committed
        int nTx;
    };
    static World W;

    template<typename F, size_t... I>
    static void onI(int t, F &f, std::index_sequence<I...>) {
        ((t == (int)I ? (f(std::integral_constant<int, (int)I>()), void()) : void()), ...);
    }
    template<typename F>
    static void on(int t, F f) {
        onI(t, f, std::make_index_sequence<N>());
    }
    // calls f(lock, type constant)
    template<typename F>
    static void with(Handle &h, F f) {
        on(h.type, [&](auto t) {
            using T = Ty<decltype(t)::value>;
            if (h.dyn) f(*(typename T::D *)h.mem, t);
            else f(*(typename T::L *)h.mem, t);
        });
    }
    static void destroy(Handle &h) {
        with(h, [&](auto &l, auto) {
            using L = std::remove_reference_t<decltype(l)>;
            l.~L();
        });
        h.live = false;
    }
    static int fresh() {
        for (int i = 0; i < MAXH; i++)
            if (!W.h[i].live) return i;
        return -1;
    }
    static int liveCount() {
        int n = 0;
        for (Handle &h : W.h) n += h.live;
        return n;
    }
    static void ended() {
        if (!W.active || liveCount()) return;
        W.active = false;
        W.ca = W.a;
        W.cb = W.b;
        W.cn = W.n;
    }

    enum { START, CONV, SUBSET, RO, DYN, TRY, COPY, MOVE, DESTROY, UNWIND, WRITE, NOPS };
    struct Op { int op, h, t; };
    static int lim, maxTx;
    static const char *mode;

    template<int S, int T, bool FromDyn>
    static constexpr bool can() {
        using Src = std::conditional_t<FromDyn, typename Ty<S>::D, typename Ty<S>::L>;
        return std::is_constructible_v<typename Ty<T>::L, const Src &>;
    }
    static void staticChecks() {
        auto all = std::make_index_sequence<N>();
        auto row = [&](auto s) {
            constexpr int S = decltype(s)::value;
            auto cell = [&](auto t) {
                constexpr int T = decltype(t)::value;
                MC_CHECK("static", (can<S, T, false>()) == subset(T, S), "Lock<%s> is%s constructible from Lock<%s>", perm[T].name, can<S, T, false>() ? "" : " not", perm[S].name);
                MC_CHECK("static", (can<S, T, true>()) == subset(T, S), "Lock<%s> is%s constructible from DynamicLock<%s>", perm[T].name, can<S, T, true>() ? "" : " not", perm[S].name);
                MC_CHECK("static", (std::is_convertible_v<typename Ty<S>::L, typename Ty<T>::L>) == subset(T, S), "Lock<%s> does%s convert to Lock<%s>", perm[S].name, subset(T, S) ? " not" : "", perm[T].name);
            };
            auto go = [&]<size_t... I>(std::index_sequence<I...>) { (cell(std::integral_constant<int, I>()), ...); };
            go(all);
        };
        auto go = [&]<size_t... I>(std::index_sequence<I...>) { (row(std::integral_constant<int, I>()), ...); };
        go(all);
    }

    static int gen(Op *o) {
        int n = 0;
        if (!W.active) {
            if (W.nTx < maxTx)
                for (int t = 0; t < N; t++) o[n++] = Op{START, 0, t};
            return n;
        }
        bool matrix = !strcmp(mode, "c24");
        int room = fresh();
        for (int i = 0; i < MAXH; i++) {
            Handle &h = W.h[i];
            if (!h.live) continue;
            if (room >= 0 && liveCount() < lim) {
                if (matrix) {
                    for (int t = 0; t < N; t++) {
                        if (subset(t, h.type)) {
                            if (!h.dyn) o[n++] = Op{CONV, i, t};
                            if (i == 0) o[n++] = Op{SUBSET, i, t};
                            o[n++] = Op{DYN, i, t};
                        }
                        if (h.dyn) o[n++] = Op{TRY, i, t};
                    }
                } else {
                    int t = perm[h.type].r & 1 ? 2 : 0; // a small representative choice
                    o[n++] = Op{CONV, i, t};
                    if (!h.dyn) o[n++] = Op{DYN, i, t};
                    if (h.dyn) o[n++] = Op{TRY, i, W.tx};
                }
                o[n++] = Op{RO, i, 0};
                if (!matrix) o[n++] = Op{COPY, i, 0};
            }
            if (!matrix) {
                if (room >= 0) o[n++] = Op{MOVE, i, 0};
                o[n++] = Op{UNWIND, i, 0};
                o[n++] = Op{DESTROY, i, 0};
                if (perm[h.type].w || perm[h.type].ar) o[n++] = Op{WRITE, i, 0};
            } else {
                if (i == 0) o[n++] = Op{DESTROY, i, 0};
                if ((perm[h.type].w || perm[h.type].ar) && !W.dirtyA && !W.dirtyB && !W.dirtyM) o[n++] = Op{WRITE, i, 0};
            }
        }
        return n;
    }
    static void text(Op o, char *b, size_t n) {
        static const char *nm[] = {"start", "convert", "Subset", "ReadOnlySubset", "DynamicLock", "TryLock", "copy", "move", "destroy", "unwind", "write"};
        if (o.op == START || o.op == CONV || o.op == SUBSET || o.op == DYN || o.op == TRY) {
            if (o.op == START) snprintf(b, n, "start %s", perm[o.t].name);
            else snprintf(b, n, "%s handle %d to %s", nm[o.op], o.h, perm[o.t].name);
        } else
            snprintf(b, n, "%s handle %d", nm[o.op], o.h);
    }
    static void doWrite(Handle &h) {
        with(h, [&](auto &l, auto t) {
            constexpr int T = decltype(t)::value;
            using L = std::remove_reference_t<decltype(l)>;
            (void)T;
            if constexpr (is_write_allowed<A, L>()) {
                W.e.template Set<A>(l, ++W.a);
                W.dirtyA = true;
            }
            if constexpr (is_write_allowed<B, L>()) {
                W.e.template Get<B>(l).v = ++W.b;
                W.dirtyB = true;
            }
            if constexpr (is_add_remove_allowed<L>()) {
                W.fresh = l.NewEntity();
                W.fresh.template Set<A>(l, 9u);
                W.n++;
                W.dirtyM = true;
            }
        });
    }
    static void look(Handle &h, int i) {
        with(h, [&](auto &l, auto) {
            using L = std::remove_reference_t<decltype(l)>;
            const char *n = perm[h.type].name;
            static_assert(sizeof(L) <= sizeof h.mem, "handle too large");
            bool prev = h.ro;
            MC_CHECK("view", l.PreviousEntities().size() == W.cn, "handle %d (%s): PreviousEntities() has %zu elements, expected %u", i, n, l.PreviousEntities().size(), W.cn);
            uint32_t want = prev ? W.cn : W.n;
            MC_CHECK("view", l.Entities().size() == want, "handle %d (%s%s): Entities() has %zu elements, expected %u", i, n, prev ? ", read only" : "", l.Entities().size(), want);
            MC_CHECK("view", W.e.Exists(l) && W.e.template Has<A>(l), "handle %d (%s): entity is missing", i, n);
            MC_CHECK("view", W.e.Existed(l) && (W.e.template Had<A, B>(l)), "handle %d (%s): entity did not exist", i, n);
            size_t la = l.template EntitiesWith<A>().size(), lb = l.template EntitiesWith<B>().size();
            MC_CHECK("view", la == want && lb == 1, "handle %d (%s%s): EntitiesWith() has %zu and %zu elements, expected %u and 1", i, n, prev ? ", read only" : "", la, lb, want);
            la = l.template PreviousEntitiesWith<A>().size(), lb = l.template PreviousEntitiesWith<B>().size();
            MC_CHECK("view", la == W.cn && lb == 1, "handle %d (%s): PreviousEntitiesWith() has %zu and %zu elements, expected %u and 1", i, n, la, lb, W.cn);
            if (W.dirtyM) {
                bool ex = W.fresh.Exists(l), has = W.fresh.template Has<A>(l);
                MC_CHECK("view", ex == !prev && has == !prev, "handle %d (%s%s): a new entity %s", i, n, prev ? ", read only" : "", prev ? "is visible" : "is missing");
                MC_CHECK("view", !W.fresh.Existed(l) && !W.fresh.template Had<A>(l) && !W.fresh.template Has<B>(l), "handle %d (%s): a new entity existed before", i, n);
            }
            if constexpr (is_read_allowed<A, L>()) {
                uint32_t v = W.e.template Get<const A>(l).v, w = prev ? W.ca : W.a;
                MC_CHECK("view", v == w, "handle %d (%s%s) reads A = %u, expected %u", i, n, prev ? ", read only" : "", v, w);
                v = W.e.template GetPrevious<A>(l).v;
                MC_CHECK("view", v == W.ca, "handle %d (%s) reads previous A = %u, expected %u", i, n, v, W.ca);
            }
            if constexpr (is_read_allowed<B, L>()) {
                uint32_t v = W.e.template Get<const B>(l).v, w = prev ? W.cb : W.b;
                MC_CHECK("view", v == w, "handle %d (%s%s) reads B = %u, expected %u", i, n, prev ? ", read only" : "", v, w);
                v = W.e.template GetPrevious<B>(l).v;
                MC_CHECK("view", v == W.cb, "handle %d (%s) reads previous B = %u, expected %u", i, n, v, W.cb);
            }
            MC_CHECK("lifetime", &l.GetInstance() == W.ecs, "handle %d belongs to another instance", i);
            MC_CHECK("lifetime", l.GetTransactionId() == W.id, "handle %d (%s) has transaction id %zu instead of %zu", i, n, l.GetTransactionId(), W.id);
        });
    }
    static void apply(Op o) {
        Handle &h = W.h[o.h];
        int f = fresh();
        Handle *to = f >= 0 ? &W.h[f] : nullptr;
        switch (o.op) {
        case START:
            on(o.t, [&](auto t) {
                using L = typename Ty<decltype(t)::value>::L;
                new (to->mem) L(Ty<decltype(t)::value>::start(*W.ecs));
                W.id = ((L *)to->mem)->GetTransactionId();
            });
            MC_CHECK("lifetime", W.id > W.lastId, "transaction id %zu is not newer than %zu", W.id, W.lastId);
            W.lastId = W.id;
            to->live = true;
            to->dyn = to->ro = false;
            to->type = W.tx = o.t;
            W.active = true;
            W.dirtyA = W.dirtyB = W.dirtyM = false;
            W.a = W.ca;
            W.b = W.cb;
            W.n = W.cn;
            W.nTx++;
            break;
        case CONV:
        case SUBSET:
            with(h, [&](auto &l, auto) {
                using L = std::remove_reference_t<decltype(l)>;
                on(o.t, [&](auto t) {
                    using T = Ty<decltype(t)::value>;
                    if constexpr (std::is_constructible_v<typename T::L, const L &>) {
                        if (o.op == CONV) new (to->mem) typename T::L(l);
                        else new (to->mem) typename T::L(T::subset(l));
                        to->live = true;
                    }
                });
            });
            MC_CHECK("static", to->live, "lock conversion missing");
            to->dyn = false;
            to->ro = h.ro;
            to->type = o.t;
            break;
        case RO: {
            int type = perm[h.type].r == 0 ? 1 : perm[h.type].r == 1 ? 2 : perm[h.type].r == 2 ? 3 : perm[h.type].r == ALL && ALL != 3 ? READALL : 4;
            with(h, [&](auto &l, auto) {
                using R = decltype(l.ReadOnlySubset());
                static_assert(!is_write_allowed<A, R>() && !is_write_allowed<B, R>() && !is_add_remove_allowed<R>(), "read-only lock can write");
                on(type, [&](auto t) {
                    using T = Ty<decltype(t)::value>;
                    if constexpr (std::is_same_v<typename T::L, R>) {
                        new (to->mem) R(l.ReadOnlySubset());
                        to->live = true;
                    }
                });
            });
            MC_CHECK("static", to->live, "ReadOnlySubset() of %s has an unexpected type", perm[h.type].name);
            to->dyn = false;
            to->ro = true;
            to->type = type;
            break;
        }
        case DYN:
            with(h, [&](auto &l, auto) {
                using L = std::remove_reference_t<decltype(l)>;
                on(o.t, [&](auto t) {
                    using T = Ty<decltype(t)::value>;
                    if constexpr (std::is_constructible_v<typename T::L, const L &>) {
                        new (to->mem) typename T::D(l);
                        to->live = true;
                    }
                });
            });
            MC_CHECK("static", to->live, "dynamic lock conversion missing");
            to->dyn = true;
            to->ro = h.ro;
            to->type = o.t;
            // copying a dynamic lock of the same type keeps what it was made from
            to->src = h.dyn && h.type == o.t ? h.src : h.type;
            break;
        case TRY: {
            bool got = false;
            with(h, [&](auto &l, auto s) {
                using L = std::remove_reference_t<decltype(l)>;
                if constexpr (std::is_same_v<L, typename Ty<decltype(s)::value>::D>) {
                    on(o.t, [&](auto t) {
                        using T = Ty<decltype(t)::value>;
                        auto r = T::tryLock(l);
                        got = r.has_value();
                        if (got) {
                            new (to->mem) typename T::L(*r);
                            to->live = true;
                        }
                    });
                }
            });
            bool may = subset(o.t, W.tx) && (!h.ro || (!perm[o.t].w && !perm[o.t].ar));
            bool must = subset(o.t, h.src) && may;
            MC_CHECK("permission", !got || may, "TryLock<%s>() on DynamicLock<%s> made from %s%s succeeded, but the transaction only holds %s", perm[o.t].name, perm[h.type].name,
                perm[h.src].name, h.ro ? " (read only)" : "", perm[W.tx].name);
            MC_CHECK("permission", got || !must, "TryLock<%s>() on DynamicLock<%s> made from %s failed", perm[o.t].name, perm[h.type].name, perm[h.src].name);
            if (got) {
                to->dyn = false;
                to->ro = h.ro;
                to->type = o.t;
            }
            break;
        }
        case COPY:
        case MOVE:
            with(h, [&](auto &l, auto) {
                using L = std::remove_reference_t<decltype(l)>;
                if (o.op == COPY) new (to->mem) L(l);
                else new (to->mem) L(std::move(l));
            });
            to->live = true;
            to->dyn = h.dyn;
            to->ro = h.ro;
            to->type = h.type;
            to->src = h.src;
            if (o.op == MOVE) destroy(h);
            break;
        case DESTROY:
            destroy(h);
            break;
        case UNWIND: // the handle dies while an exception is in flight, together with locks derived from it
            try {
                with(h, [&](auto &l, auto) {
                    using L = std::remove_reference_t<decltype(l)>;
                    L mine(std::move(l));
                    l.~L();
                    h.live = false;
                    auto ro = mine.ReadOnlySubset();
                    L copy(mine);
                    throw 1;
                });
            } catch (int) {
            }
            break;
        case WRITE:
            doWrite(h);
            break;
        }
        ended();
    }
    static void step(void *p) {
        Op o = *(Op *)p;
        try {
            apply(o);
        } catch (std::exception &e) {
            mc::fail("exception", "unexpected exception: %s", e.what());
        }
        for (int i = 0; i < MAXH; i++)
            if (W.h[i].live) look(W.h[i], i);
        // the same thread cannot start another one exactly as long as a handle lives
        bool threw = false;
        try {
            auto l = W.ecs->StartTransaction<>();
            MC_CHECK("lifetime", W.active || l.GetTransactionId() > W.lastId, "transaction id is not new");
            W.lastId = l.GetTransactionId();
        } catch (std::exception &) {
            threw = true;
        }
        MC_CHECK("lifetime", threw == W.active, "%s", W.active ? "the transaction ended although a handle is alive" : "the transaction is active although no handle is alive");
        // what another thread sees
        mc::set_tls_slot(1);
        {
            auto l = W.ecs->StartTransaction<ReadAll>();
            MC_CHECK("lifetime", l.GetTransactionId() > W.lastId, "transaction id is not new");
            W.lastId = l.GetTransactionId();
            uint32_t a = W.e.Get<const A>(l).v, b = W.e.Get<const B>(l).v, n = (uint32_t)l.Entities().size();
            MC_CHECK("lifetime", a == W.ca && b == W.cb && n == W.cn, "another thread sees A=%u B=%u with %u entities, expected %u %u %u (transaction %s)", a, b, n, W.ca, W.cb, W.cn,
                W.active ? "active" : "ended");
        }
        mc::set_tls_slot(0);
    }
    // Must block, because the active transaction still holds its permissions.
    static void probe(void *) {
        const P &p = perm[W.tx];
        mc::set_tls_slot(1);
        if (p.w & 1) {
            auto l = W.ecs->StartTransaction<Write<A>>();
        } else if (p.w & 2) {
            auto l = W.ecs->StartTransaction<Write<B>>();
        } else if (p.r & 1) {
            auto l = W.ecs->StartTransaction<Write<A>>();
            W.e.Set<A>(l, 1u);
        } else if (p.r & 2) {
            auto l = W.ecs->StartTransaction<Write<B>>();
            W.e.Set<B>(l, 1u);
        } else {
            auto l = W.ecs->StartTransaction<AddRemove>();
            l.NewEntity();
        }
        mc::set_tls_slot(0);
    }
    static void finish(void *) {
        for (Handle &h : W.h)
            if (h.live) destroy(h);
        ended();
        for (int t = 0; t < 2; t++) {
            mc::set_tls_slot(t);
            auto l = W.ecs->StartTransaction<AddRemove>();
            MC_CHECK("lifetime", W.e.Get<const A>(l).v == W.ca && W.e.Get<const B>(l).v == W.cb && l.Entities().size() == W.cn, "the committed values are wrong after the last handle died");
            l.NewEntity();
            W.cn++;
        }
        mc::set_tls_slot(0);
    }
    static void setup(void *) {
        memset((void *)&W, 0, sizeof W);
        staticChecks();
        W.ecs = new ECS();
        auto l = W.ecs->StartTransaction<AddRemove>();
        W.e = l.NewEntity();
        W.e.Set<A>(l, 1u);
        W.e.Set<B>(l, 1u);
        W.ca = W.cb = W.cn = 1;
        W.lastId = l.GetTransactionId();
    }
    struct Search {
        Op path[32];
        int len, depth;
        uint64_t nodes, leaves, ops, shardCounter;
        int shard, nshards;
        bool stop, capped;
        double deadline;
        char kind[32], msg[2048], sample[1024], only[256];
    };
    static Search *S;
    static double now() {
        timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        return t.tv_sec + t.tv_nsec * 1e-9;
    }
    static void pathText(char *b, size_t n) {
        size_t k = 0;
        for (int i = 0; i < S->len && k + 80 < n; i++) {
            char one[96];
            text(S->path[i], one, sizeof one);
            k += snprintf(b + k, n - k, "%s%s", i ? "; " : "", one);
        }
    }
    static bool failed(const char *kind, const char *e) {
        char pat[48];
        snprintf(pat, sizeof pat, ",%s,", kind);
        if (!strstr(S->only, pat)) return false;
        snprintf(S->kind, sizeof S->kind, "%s", kind);
        std::string m = e;
        char t[1024] = "";
        pathText(t, sizeof t);
        snprintf(S->msg, sizeof S->msg, "%s\nhistory: %s", m.c_str(), t);
        S->stop = true;
        return true;
    }
    static bool bad(const char *e) {
        char k[32];
        snprintf(k, sizeof k, "%s", mc::fail_kind());
        return failed(k, e);
    }
    static void leaf() {
        S->leaves++;
        if (!S->sample[0]) pathText(S->sample, sizeof S->sample);
        mc::snap_push();
        const char *e = mc::guarded(finish, nullptr);
        if (e) bad(e);
        mc::snap_restore();
        mc::snap_pop();
    }
    static void held() {
        if (!W.active || !strcmp(mode, "c24")) return;
        mc::snap_push();
        const char *e = mc::guarded(probe, nullptr);
        if (!e) failed("lifetime", "another thread could take a conflicting permission although a handle of the transaction is alive");
        else if (strcmp(mc::fail_kind(), "deadlock") && strcmp(mc::fail_kind(), "livelock")) bad(e);
        mc::snap_restore();
        mc::snap_pop();
    }
    static void dfs() {
        S->nodes++;
        if ((S->nodes & 255) == 0 && S->deadline > 0 && now() > S->deadline) S->capped = true;
        if (S->stop || S->capped) return;
        held();
        if (S->stop) return;
        Op ops[512];
        int n = S->len < S->depth ? gen(ops) : 0;
        if (n == 0) return leaf();
        mc::snap_push();
        for (int i = 0; i < n && !S->stop && !S->capped; i++) {
            if (S->len == 1 && (S->shardCounter++ % S->nshards) != (uint64_t)S->shard) continue;
            S->path[S->len++] = ops[i];
            S->ops++;
            const char *e = mc::guarded(step, &ops[i]);
            if (e) bad(e);
            else dfs();
            if (S->stop) return;
            S->len--;
            mc::snap_restore();
        }
        mc::snap_pop();
    }
    static void js(const char *s) {
        putchar('"');
        for (; *s; s++) {
            if (*s == '"' || *s == '\\') printf("\\%c", *s);
            else if ((unsigned char)*s < 32) printf("\\u%04x", *s);
            else putchar(*s);
        }
        putchar('"');
    }
    static int main(int argc, char **argv) {
        mc::seq_init();
        S = (Search *)mc::raw_alloc(sizeof(Search));
        S->nshards = 1;
        S->depth = 4;
        lim = 4;
        maxTx = 1;
        mode = "c24";
        strcpy(S->only, ",");
        const char *replay = nullptr;
        double secs = 0;
        for (int i = 1; i + 1 < argc; i += 2) {
            std::string a = argv[i], v = argv[i + 1];
            if (a == "--depth") S->depth = atoi(v.c_str());
            else if (a == "--mode") mode = argv[i + 1];
            else if (a == "--handles") lim = atoi(v.c_str());
            else if (a == "--tx") maxTx = atoi(v.c_str());
            else if (a == "--only") snprintf(S->only, sizeof S->only, ",%s,", v.c_str());
            else if (a == "--shard") sscanf(v.c_str(), "%d/%d", &S->shard, &S->nshards);
            else if (a == "--secs") secs = atof(v.c_str());
            else if (a == "--replay") replay = argv[i + 1];
            else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 3; }
        }
        double t0 = now();
        if (secs > 0) S->deadline = t0 + secs;
        const char *e = mc::guarded(setup, nullptr);
        if (e) bad(e);
        else if (replay) {
            for (const char *p = replay; *p && !S->stop;) {
                int a, b, c, k = 0;
                if (sscanf(p, "%d:%d:%d%n", &a, &b, &c, &k) < 3) break;
                p += k;
                if (*p == ',') p++;
                Op o{a, b, c};
                S->path[S->len++] = o;
                if ((e = mc::guarded(step, &o))) { bad(e); break; }
            }
            if (!S->stop && !e) held();
            if (!S->stop && !e) leaf();
        } else
            dfs();
        printf("{\"scenario\":\"lock handles %s, depth %d\",\"result\":\"%s\",\"executions\":%llu,\"states\":%llu,\"transitions\":%llu,\"capped\":%s,\"depth\":%d,\"secs\":%.2f,\"sample\":", mode, S->depth,
            S->stop ? "violation" : "ok", (unsigned long long)S->leaves, (unsigned long long)S->nodes, (unsigned long long)S->ops, S->capped ? "true" : "false", S->depth, now() - t0);
        js(S->sample);
        if (S->stop) {
            printf(",\"kind\":");
            js(S->kind);
            printf(",\"message\":");
            js(S->msg);
            printf(",\"history\":\"");
            for (int i = 0; i < S->len; i++) printf("%s%d:%d:%d", i ? "," : "", S->path[i].op, S->path[i].h, S->path[i].t);
            printf("\"");
        }
        printf("}\n");
        return S->stop ? 1 : 0;
    }
} // namespace h
int main(int argc, char **argv) { return h::main(argc, argv); }
