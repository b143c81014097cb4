// Harness "entity": exhaustive enumeration of entity handle values for one configuration of field widths (C19).
// With 16 bit fields all 2^32 handles are enumerated; with 32 bit fields all combinations of boundary field values.
#include "plain.hh"

#include <Tecs.hh>

#include <map>
#include <set>
#include <unordered_set>
#include <vector>

namespace h {
    using namespace Tecs;
    struct A { int v = 0; };
    using ECS = Tecs::ECS<A>;
    using IDX = TECS_ENTITY_INDEX_TYPE;
    using GEN = TECS_ENTITY_GENERATION_TYPE;
    using ECSID = TECS_ENTITY_ECS_IDENTIFIER_TYPE;
    constexpr int IB = sizeof(IDX) * 8, GB = sizeof(GEN) * 8, EB = sizeof(ECSID) * 8, LB = GB - EB;
    constexpr uint64_t IM = (IB == 64 ? ~0ull : (1ull << IB) - 1), GM = (1ull << GB) - 1, LM = (1ull << LB) - 1, EM = (1ull << EB) - 1;
    static uint64_t cur;
    static int shard, nshards = 1, bits = 2;
    static const char *describe() {
        static char b[80];
        snprintf(b, sizeof b, "handle generation 0x%llx, index 0x%llx", (unsigned long long)(cur >> IB), (unsigned long long)(cur & IM));
        return b;
    }
#define EX(cond, text) MC_CHECK("handle", cond, "%s: %s", describe(), text)

    // everything about a single handle value
    static inline void single(uint64_t g, uint64_t i) {
        asm volatile("" : "+r"(g), "+r"(i)); // really execute every value
        uint64_t raw = (g << IB) | i;
        cur = raw;
        Entity e((IDX)i, (GEN)g);
        uint64_t n = (uint64_t)e;
        asm volatile("" : "+r"(n));
        if (!(e.index == i && e.generation == g)) EX(false, "fields are not stored");
        if (n != raw) EX(false, "integer form is wrong");
        Entity r(n);
        if (!(r.index == i && r.generation == g) || !(r == e) || r != e) EX(false, "does not survive conversion to its integer form and back");
        bool null = g == 0;
        if ((bool)e == null || !e != null) EX(false, "validity is wrong");
        if (e < e) EX(false, "less than itself");
        if (std::hash<Entity>{}(r) != std::hash<Entity>{}(e)) EX(false, "equal handles hash differently");
        uint64_t id = g >> LB, low = g & LM;
        if (IdentifierFromGeneration((GEN)g) != id) EX(false, "instance identifier is not recovered");
        if (GenerationWithoutIdentifier((GEN)g) != low) EX(false, "generation is not recovered");
        if (GenerationWithIdentifier((GEN)low, (ECSID)id) != g) EX(false, "generation and identifier are not packed back");
        Entity p((IDX)i, (GEN)low, (ECSID)id);
        if (!(p == e) || (uint64_t)p != raw) EX(false, "constructor from index, generation and identifier differs");
        Entity c = e;
        if (c != e || (uint64_t)c != raw) EX(false, "copy differs");
        mc::states++;
    }
    template<typename E>
    static inline void optional(const E &a, const E &b, bool lt, bool gt) {
        if constexpr (requires { a > b; a <= b; a >= b; }) {
            if ((a > b) != gt || (a <= b) == gt || (a >= b) == lt) EX(false, "ordering operators disagree");
        }
    }
    // a pair of handle values
    static inline void pair(uint64_t x, uint64_t y) {
        cur = x;
        asm volatile("" : "+r"(x), "+r"(y));
        Entity a(x), b(y);
        bool eq = a == b, ne = a != b, lt = a < b, gt = b < a;
        if (eq == ne) EX(false, "== and != agree");
        if (eq != (x == y)) EX(false, "equality is wrong");
        if ((int)eq + lt + gt != 1) EX(false, "not exactly one of less, equal, greater");
        optional(a, b, lt, gt);
        mc::transitions++;
    }
    static std::vector<uint64_t> boundary(int width) {
        // values with at most `bits` bits different from all zeros or all ones, and small offsets around powers of two
        std::set<uint64_t> s;
        uint64_t m = width == 64 ? ~0ull : (1ull << width) - 1;
        auto add = [&](uint64_t v) {
            s.insert(v & m);
            s.insert(~v & m);
        };
        for (int a = 0; a < width; a++) {
            add(1ull << a);
            add((1ull << a) - 1);
            add((1ull << a) + 1);
            if (bits >= 2)
                for (int b = 0; b < a; b++) add(1ull << a | 1ull << b);
            if (bits >= 3)
                for (int b = 0; b < a; b++)
                    for (int c = 0; c < b; c++) add(1ull << a | 1ull << b | 1ull << c);
        }
        add(0);
        return {s.begin(), s.end()};
    }
    static void pairsOf(const std::vector<uint64_t> &v) {
        for (size_t i = 0; i < v.size(); i++) {
            if ((int)(i % nshards) != shard) continue;
            for (uint64_t y : v) pair(v[i], y);
        }
    }
    static void run() {
        // null handles
        if (shard == 0) {
            Entity none;
            EX(!none && !(bool)none && none == Entity(0) && (uint64_t)none == 0 && none.index == 0 && none.generation == 0, "the default handle is not null");
        }
        if (IB + GB == 32) { // every handle value
            for (uint64_t g = shard; g <= GM; g += nshards)
                for (uint64_t i = 0; i <= IM; i++) single(g, i);
        } else {
            auto gs = boundary(GB), is = boundary(IB);
            for (size_t k = 0; k < gs.size(); k++)
                if ((int)(k % nshards) == shard)
                    for (uint64_t i : is) single(gs[k], i);
        }
        // identifier, generation and index are independent
        int keep = bits;
        bits = 2;
        auto ids = boundary(EB), lows = boundary(LB);
        bits = 1;
        auto idx = boundary(IB);
        for (size_t k = 0; k < ids.size(); k++) {
            if ((int)(k % nshards) != shard) continue;
            for (uint64_t low : lows)
                for (uint64_t i : idx) {
                    Entity e((IDX)i, (GEN)low, (ECSID)ids[k]);
                    cur = ((ids[k] << LB | low) << IB) | i;
                    if ((uint64_t)e != cur) EX(false, "packing of identifier, generation and index is wrong");
                    if (e.index != i || IdentifierFromGeneration(e.generation) != ids[k] || GenerationWithoutIdentifier(e.generation) != low) EX(false, "identifier, generation or index is not recovered");
                    // a generation that overflows into the identifier must not change it
                    Entity o((IDX)i, (GEN)(low | (0x5aull << LB)), (ECSID)ids[k]);
                    if (!(o == e)) EX(false, "a generation overflow changes the identifier");
                    mc::states++;
                }
        }
        bits = keep >= 3 ? 2 : 1;
        // orderings, equality over pairs and triples
        std::vector<uint64_t> vals;
        {
            auto g = boundary(GB), i = boundary(IB);
            for (size_t x = 0; x < g.size(); x += bits >= 2 ? 3 : 1)
                for (size_t y = 0; y < i.size(); y += bits >= 2 ? 3 : 1) vals.push_back(g[x] << IB | i[y]);
        }
        std::set<uint64_t> uniq(vals.begin(), vals.end());
        vals.assign(uniq.begin(), uniq.end());
        pairsOf(vals);
        std::vector<uint64_t> few;
        for (uint64_t g : {uint64_t(0), uint64_t(1), uint64_t(2), LM, LM + 1, GM - 1, GM, GM >> 1, (GM >> 1) + 1})
            for (uint64_t i : {uint64_t(0), uint64_t(1), uint64_t(2), IM, IM - 1, IM >> 1, (IM >> 1) + 1}) few.push_back(g << IB | i);
        for (uint64_t x : few)
            for (uint64_t y : few)
                for (uint64_t z : few) {
                    Entity a(x), b(y), c(z);
                    cur = x;
                    if (a < b && b < c && !(a < c)) EX(false, "ordering is not transitive");
                    mc::transitions++;
                }
        if (shard == 0) {
            // containers agree with the values
            std::set<Entity> s;
            std::unordered_set<Entity> u;
            std::map<uint64_t, Entity> m;
            for (uint64_t v : vals) {
                s.insert(Entity(v));
                u.insert(Entity(v));
                m.emplace(v, Entity(v));
            }
            EX(s.size() == vals.size() && u.size() == vals.size(), "a container confuses different handles");
            for (uint64_t v : vals) EX(s.count(Entity(v)) == 1 && u.count(Entity(v)) == 1 && m.at(v) == Entity(v), "a container does not find a handle");
            // handles made by instances
            for (int k = 1; k <= 3; k++) {
                ECS ecs;
                EX(ecs.GetInstanceId() == (ECSID)k, "instance identifiers are not consecutive");
                std::vector<Entity> es;
                for (int round = 0; round < 4; round++) {
                    auto l = ecs.StartTransaction<AddRemove>();
                    std::vector<Entity> next;
                    for (int i = 0; i < 5; i++) next.push_back(l.NewEntity());
                    for (auto &e : next) {
                        cur = (uint64_t)e;
                        EX((bool)e && IdentifierFromGeneration(e.generation) == (ECSID)k && GenerationWithoutIdentifier(e.generation) >= 1, "a created handle has a wrong identifier or generation");
                        EX(Entity((uint64_t)e) == e && Entity((uint64_t)e).Exists(l), "a created handle does not survive conversion");
                        Entity other(e.index, GenerationWithoutIdentifier(e.generation), (ECSID)(k + 1));
                        EX(other != e && !other.Exists(l), "a handle with another identifier exists");
                    }
                    for (auto &e : es) e.Destroy(l);
                    for (auto &e : es) EX(!e && e == Entity(), "Destroy() does not clear the handle");
                    es = next;
                }
            }
            // text form
            EX(std::to_string(Entity()).find("invalid") != std::string::npos, "text of the null handle");
        }
        mc::executions = mc::states;
        snprintf(mc::sample, sizeof mc::sample, "all %llu handle values of shard %d/%d, widths index %d, generation %d, identifier %d bits", (unsigned long long)mc::states, shard, nshards, IB, GB, EB);
    }
    static int main(int argc, char **argv) {
        for (int i = 1; i + 1 < argc; i += 2) {
            std::string a = argv[i];
            if (a == "--shard") sscanf(argv[i + 1], "%d/%d", &shard, &nshards);
            else if (a == "--bits") bits = atoi(argv[i + 1]);
            else return 3;
        }
        mc::describe = describe;
        mc::scenario = "entity handle values";
        return mc::run(run);
    }
} // namespace h
int main(int argc, char **argv) { return h::main(argc, argv); }
