// Harness "view": exhaustive enumeration of EntityView ranges, nested sub-views, iterator positions and operation sequences (C18).
#include "plain.hh"

#include <Tecs.hh>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <set>
#include <string>
#include <tuple>
#include <vector>

namespace h {
    struct A { int v = 0; };
    struct B { int v = 0; };
    using namespace Tecs;
    using ECS = Tecs::ECS<A, B>;
    using It = EntityView::iterator;
    using Rit = EntityView::reverse_iterator;
#ifdef TECS_UNCHECKED_MODE
    constexpr bool checked = false;
#else
    constexpr bool checked = true;
#endif
    static int maxN = 4, maxNest = 2, maxOps = 2;
    static int shard, nshards = 1;
    static uint64_t counter;
    static uint64_t &nViews = mc::executions, &nStates = mc::states, &nOps = mc::transitions;
    using mc::sample;

    // Reference: elements [s, e) of the list `v`
    struct Ref {
        const Entity *base;
        size_t n, s, e;
        size_t size() const { return e - s; }
    };
    static std::string what;
    static const char *W() { return what.c_str(); }
    template<typename F>
    static bool throws(F f) {
        try {
            f();
        } catch (std::exception &) {
            return true;
        }
        return false;
    }
    // pos: position relative to the start of the view, may be outside [0, size)
    static void deref(const It &it, const Ref &r, long pos) {
        nStates++;
        if (pos >= 0 && pos < (long)r.size()) {
            const Entity *want = r.base + r.s + pos;
            MC_CHECK("view", &*it == want, "%s: iterator at %ld refers to a wrong element", W(), pos);
            MC_CHECK("view", it.operator->() == want && it->index == want->index, "%s: iterator->  at %ld refers to a wrong element", W(), pos);
        } else if (checked) {
            MC_CHECK("bounds", throws([&] { (void)*it; }), "%s: *iterator at position %ld of %zu did not throw", W(), pos, r.size());
            MC_CHECK("bounds", throws([&] { (void)it.operator->(); }), "%s: iterator-> at position %ld of %zu did not throw", W(), pos, r.size());
        }
        long lim = (long)r.n + 2;
        for (long k = -lim; k <= lim; k++) {
            long q = pos + k;
            if (q >= 0 && q < (long)r.size()) {
                MC_CHECK("view", &it[k] == r.base + r.s + q, "%s: iterator at %ld [%ld] refers to a wrong element", W(), pos, k);
            } else if (checked) {
                MC_CHECK("bounds", throws([&] { (void)it[k]; }), "%s: iterator at %ld of %zu, [%ld] did not throw", W(), pos, r.size(), k);
            }
        }
    }
    static void rderef(const Rit &it, const Ref &r, long pos) {
        nStates++;
        if (pos >= 0 && pos < (long)r.size()) {
            const Entity *want = r.base + r.e - 1 - pos;
            MC_CHECK("view", &*it == want, "%s: reverse iterator at %ld refers to a wrong element", W(), pos);
            MC_CHECK("view", it->index == want->index, "%s: reverse iterator-> at %ld refers to a wrong element", W(), pos);
        } else if (checked) {
            MC_CHECK("bounds", throws([&] { (void)*it; }), "%s: reverse iterator at position %ld of %zu did not throw", W(), pos, r.size());
        }
        for (long k = -2; k <= 2; k++) {
            long q = pos + k;
            if (q >= 0 && q < (long)r.size()) {
                MC_CHECK("view", &it[k] == r.base + r.e - 1 - q, "%s: reverse iterator at %ld [%ld] refers to a wrong element", W(), pos, k);
            } else if (checked) {
                MC_CHECK("bounds", throws([&] { (void)it[k]; }), "%s: reverse iterator at %ld [%ld] did not throw", W(), pos, k);
            }
        }
    }
    // every operation sequence of length <= depth from this position
    template<typename I, typename D>
    static void walk(I it, const Ref &r, long pos, int depth, D check, const I &first, const I &last) {
        check(it, r, pos);
        long n = (long)r.size();
        MC_CHECK("view", (it == first) == (pos == 0) && (it != first) == (pos != 0), "%s: comparison with begin at position %ld is wrong", W(), pos);
        MC_CHECK("view", (it == last) == (pos == n) && (it != last) == (pos != n), "%s: comparison with end at position %ld is wrong", W(), pos);
        if constexpr (requires { it - first; }) {
            MC_CHECK("view", it - first == pos && last - it == n - pos, "%s: difference at position %ld is wrong", W(), pos);
        }
        if constexpr (requires { it < first; }) {
            if (pos >= 0) MC_CHECK("view", (it < last) == (pos < n), "%s: iterator order at position %ld is wrong", W(), pos);
        }
        if (!depth) return;
        long lim = (long)r.n + 2;
        auto step = [&](I &next, long q) {
            nOps++;
            if (q < -lim || q > n + lim) return;
            walk<I>(next, r, q, depth - 1, check, first, last);
        };
        {
            I a = it;
            I &x = ++a;
            MC_CHECK("view", &x == &a, "%s: ++ does not return the iterator", W());
            step(a, pos + 1);
        }
        {
            I a = it;
            I &x = --a;
            MC_CHECK("view", &x == &a, "%s: -- does not return the iterator", W());
            step(a, pos - 1);
        }
        {
            I a = it;
            I old = a++;
            check(old, r, pos);
            step(a, pos + 1);
        }
        {
            I a = it;
            I old = a--;
            check(old, r, pos);
            step(a, pos - 1);
        }
        for (long k = -lim; k <= lim; k++) {
            {
                I a = it + k;
                step(a, pos + k);
            }
            {
                I a = it - k;
                step(a, pos - k);
            }
            {
                I a = it;
                I &x = (a += k);
                MC_CHECK("view", &x == &a, "%s: += does not return the iterator", W());
                step(a, pos + k);
            }
            {
                I a = it;
                I &x = (a -= k);
                MC_CHECK("view", &x == &a, "%s: -= does not return the iterator", W());
                step(a, pos - k);
            }
            MC_CHECK("view", it + 0 == it, "%s: + changes its operand", W());
        }
    }
    static const size_t huge[] = {~size_t(0), ~size_t(0) - 1, ~size_t(0) - 2, ~size_t(0) - 4, size_t(1) << 63, (size_t(1) << 63) - 1, (size_t(1) << 32), 0xffffffffu, 0x7fffffff};
    static void checkView(const EntityView &v, const Ref &r, int nest);
    static void checkSub(const EntityView &v, const Ref &r, int nest) {
        std::vector<size_t> offs, counts;
        for (size_t i = 0; i <= r.n + 2; i++) offs.push_back(i), counts.push_back(i);
        for (size_t x : huge) offs.push_back(x), counts.push_back(x), counts.push_back(x - r.s), offs.push_back(x - r.s + 1), offs.push_back(size_t(0) - r.s + x % 3);
        std::string keep = what;
        auto one = [&](size_t o, size_t c, bool dflt) {
            what = keep + ".subview(" + std::to_string(o) + (dflt ? "" : ", " + std::to_string(c)) + ")";
            nOps++;
            if (o > r.size()) {
                if (checked) MC_CHECK("bounds", throws([&] { (void)(dflt ? v.subview(o) : v.subview(o, c)); }), "%s of a view of size %zu did not throw", W(), r.size());
                return;
            }
            Ref q = r;
            q.s = r.s + o;
            q.e = c < r.e - q.s ? q.s + c : r.e;
            EntityView sub = dflt ? v.subview(o) : v.subview(o, c);
            checkView(sub, q, nest - 1);
        };
        for (size_t o : offs) {
            for (size_t c : counts) one(o, c, false);
            one(o, ~size_t(0), true);
        }
        what = keep;
    }
    // (state of the view, remaining nesting) already fully explored for this list
    static std::set<std::tuple<const void *, size_t, size_t, int>> seen;
    static void checkView(const EntityView &v, const Ref &r, int nest) {
        nViews++;
        if (!sample[0] && r.size() > 1 && r.s > 0) snprintf(sample, sizeof sample, "%s = elements [%zu, %zu) of %zu", W(), r.s, r.e, r.n);
        MC_CHECK("view", v.size() == r.size() && v.empty() == (r.size() == 0), "%s: size() is %zu (empty: %d), expected %zu", W(), v.size(), v.empty(), r.size());
        for (size_t i = 0; i <= r.n + 2; i++) {
            if (i < r.size()) MC_CHECK("view", &v[i] == r.base + r.s + i, "%s[%zu] is a wrong element", W(), i);
            else if (checked) MC_CHECK("bounds", throws([&] { (void)v[i]; }), "%s[%zu] of %zu did not throw", W(), i, r.size());
        }
        if (checked)
            for (size_t x : huge) {
                MC_CHECK("bounds", throws([&] { (void)v[x]; }), "%s[%zu] did not throw", W(), x);
                MC_CHECK("bounds", throws([&] { (void)v[size_t(0) - r.s + x % 5]; }) || size_t(0) - r.s + x % 5 < r.size(), "%s[-%zu] did not throw", W(), r.s);
            }
        size_t k = 0;
        for (const Entity &e : v) {
            MC_CHECK("view", k < r.size() && &e == r.base + r.s + k, "%s: iteration yields a wrong element at %zu", W(), k);
            k++;
        }
        MC_CHECK("view", k == r.size(), "%s: iteration yields %zu of %zu elements", W(), k, r.size());
        k = 0;
        for (auto i = v.rbegin(); i != v.rend(); ++i) {
            MC_CHECK("view", k < r.size() && &*i == r.base + r.e - 1 - k, "%s: reverse iteration yields a wrong element at %zu", W(), k);
            k++;
        }
        MC_CHECK("view", k == r.size(), "%s: reverse iteration yields %zu of %zu elements", W(), k, r.size());
        MC_CHECK("view", v.begin() != v.end() || r.size() == 0, "%s: begin() == end()", W());
        if (checked) MC_CHECK("bounds", throws([&] { (void)*v.end(); }) && throws([&] { (void)*v.rend(); }) && throws([&] { (void)*(--v.begin()); }), "%s: access at or before the ends did not throw", W());
        if (!seen.emplace(r.base, r.s, r.e, nest).second) return;
        int d = nest == maxNest ? maxOps : 1;
        walk<It>(v.begin(), r, 0, d, deref, v.begin(), v.end());
        walk<It>(v.end(), r, (long)r.size(), d, deref, v.begin(), v.end());
        walk<Rit>(v.rbegin(), r, 0, d, rderef, v.rbegin(), v.rend());
        walk<Rit>(v.rend(), r, (long)r.size(), d, rderef, v.rbegin(), v.rend());
        EntityView copy(v);
        MC_CHECK("view", copy.size() == r.size() && (r.size() == 0 || &copy[0] == r.base + r.s), "%s: a copy differs", W());
        if (nest > 0) checkSub(v, r, nest);
    }
    static bool mine() { return (counter++ % nshards) == (uint64_t)shard; }
    static void run() {
        for (int n = 0; n <= maxN; n++) {
            // exact capacity: anything past the end is outside the allocation
            std::vector<Entity> v(n), other(n + 1);
            seen.clear();
            for (int i = 0; i < n; i++) v[i] = other[i] = Entity((TECS_ENTITY_INDEX_TYPE)(i + 7), 1, 1);
            v.shrink_to_fit();
            if (mine()) {
                what = "EntityView(list of " + std::to_string(n) + ")";
                EntityView all(v);
                checkView(all, Ref{v.data(), (size_t)n, 0, (size_t)n}, maxNest);
                EntityView o(other);
                for (int i = 0; i <= n; i++) MC_CHECK("view", !(all.begin() + i == o.begin() + i) && all.begin() + i != o.begin() + i, "%s: iterators of different lists compare equal", W());
            }
            std::vector<size_t> ends;
            for (int i = 0; i <= n + 2; i++) ends.push_back(i);
            for (size_t x : huge) ends.push_back(x);
            for (size_t s : ends)
                for (size_t e : ends) {
                    if (!mine()) continue;
                    what = "EntityView(list of " + std::to_string(n) + ", " + std::to_string(s) + ", " + std::to_string(e) + ")";
                    bool ok = s <= e && e <= (size_t)n;
                    if (ok) {
                        EntityView w(v, s, e);
                        checkView(w, Ref{v.data(), (size_t)n, s, e}, maxNest);
                    } else if (checked) {
                        nOps++;
                        MC_CHECK("bounds", throws([&] { EntityView w(v, s, e); }), "%s did not throw", W());
                    }
                }
            if (mine()) { // views made by a transaction
                ECS ecs;
                std::vector<Entity> es;
                for (int round = 0; round < 2; round++) {
                    std::vector<Entity> want;
                    if (round == 0) {
                        auto l = ecs.StartTransaction<AddRemove>();
                        for (int i = 0; i < n; i++) {
                            es.push_back(l.NewEntity());
                            if (i % 2) es[i].Set<A>(l);
                        }
                        what = "Entities() in the creating transaction";
                        EntityView a = l.Entities(), b = l.EntitiesWith<A>(), c = l.EntitiesWith<B>();
                        checkView(a, Ref{n ? &a[0] : nullptr, (size_t)n, 0, (size_t)n}, 1);
                        for (int i = 0; i < n; i++) MC_CHECK("view", a[i] == es[i], "%s: wrong element", W());
                        MC_CHECK("view", b.size() == (size_t)n / 2 && c.empty() && c.begin() == c.end(), "EntitiesWith() has a wrong size");
                    } else {
                        auto l = ecs.StartTransaction<Read<A>>();
                        what = "Entities() after commit";
                        seen.clear();
                        EntityView a = l.Entities(), b = l.EntitiesWith<A>();
                        checkView(a, Ref{n ? &a[0] : nullptr, (size_t)n, 0, (size_t)n}, 1);
                        for (int i = 0; i < n; i++) MC_CHECK("view", a[i] == es[i], "%s: wrong element", W());
                        checkView(b, Ref{n / 2 ? &b[0] : nullptr, (size_t)n / 2, 0, (size_t)n / 2}, 1);
                        for (int i = 0; i < n / 2; i++) MC_CHECK("view", b[i] == es[2 * i + 1], "%s: wrong element", W());
                    }
                }
            }
        }
        if (mine()) {
            what = "EntityView()";
            EntityView none;
            MC_CHECK("view", none.size() == 0 && none.empty() && none.begin() == none.end(), "a default view is not empty");
            int k = 0;
            for (auto &e : none) (void)e, k++;
            for (auto i = none.rbegin(); i != none.rend(); ++i) k++;
            MC_CHECK("view", k == 0, "a default view yields elements");
            if (checked) {
                MC_CHECK("bounds", throws([&] { (void)none[0]; }) && throws([&] { (void)*none.begin(); }) && throws([&] { (void)*none.rbegin(); }), "access to a default view did not throw");
                MC_CHECK("bounds", throws([&] { (void)none.subview(0); }) && throws([&] { (void)none.subview(0, 0); }) && throws([&] { (void)none.subview(1); }), "subview of a default view did not throw");
            }
        }
    }
    static int main(int argc, char **argv) {
        for (int i = 1; i + 1 < argc; i += 2) {
            std::string a = argv[i];
            if (a == "--n") maxN = atoi(argv[i + 1]);
            else if (a == "--nest") maxNest = atoi(argv[i + 1]);
            else if (a == "--ops") maxOps = atoi(argv[i + 1]);
            else if (a == "--shard") sscanf(argv[i + 1], "%d/%d", &shard, &nshards);
            else return 3;
        }
        mc::scenario = "ranges of entity lists";
        mc::describe = W;
        return mc::run(run);
    }
} // namespace h
int main(int argc, char **argv) { return h::main(argc, argv); }
