#include "menu.hh"
#include <cstdlib>

namespace h {
    ECS *world;
    bool hold[mc::MAXT];
    Entity probes[NE][3];
    int nprobes;
    static int prog[mc::MAXT][8], progLen[mc::MAXT];
    static bool holds[mc::MAXT][8];

    static void setup() {
        world = new ECS();
#ifdef TECS_ENABLE_PERFORMANCE_TRACING
        world->StartTrace();
#endif
        {
            auto lock = world->StartTransaction<AddRemove>();
            for (int i = 0; i < 3; i++) {
                handles[i] = lock.NewEntity();
                if (i < 2) handles[i].Set<A>(lock, 0u);
                handles[i].Set<B>(lock, 0u);
            }
            lock.Set<G>(0u);
        }
        nprobes = sizeof(handles[0].generation) > 1 ? 2 : 0;
        for (int i = 0; i < NE; i++)
            for (int g = 0; g < 3; g++) probes[i][g] = Entity((TECS_ENTITY_INDEX_TYPE)i, (TECS_ENTITY_GENERATION_TYPE)(handles[0].generation + g));
        for (int i = 0; i < NIT; i++) init[i] = ABSENT;
        for (int i = 0; i < 3; i++) {
            init[IT_EX + i] = 0;
            if (i < 2) init[IT_A + i] = 0;
            init[IT_B + i] = 0;
        }
        init[IT_G] = 0;
    }
    static void body(int t) {
        for (int i = 0; i < progLen[t]; i++) {
            hold[t] = holds[t][i];
            runKind(prog[t][i]);
        }
    }
    static void finish() {
        checkIds();
        checkHistory();
        checkFinal(*world);
        delete world;
        MC_CHECK("memory", mc::live_blocks() == 0, "%zu heap block(s) leaked", mc::live_blocks());
    }
    static const mc::Scenario *resolve(const char *name) {
        static mc::Scenario s;
        s.name = name;
        s.setup = setup;
        s.body = body;
        s.finish = finish;
        s.nthreads = 1;
        s.flags = 0;
        for (const char *p = name; *p;) {
            if (*p == '|') {
                s.nthreads++;
                p++;
            } else if (*p == '.') {
                p++;
            } else {
                bool h = *p == 'h';
                if (h) p++;
                char *e;
                int k = (int)strtol(p, &e, 10);
                if (e == p || s.nthreads >= mc::MAXT || progLen[s.nthreads] >= PER) return nullptr;
                holds[s.nthreads][progLen[s.nthreads]] = h;
                prog[s.nthreads][progLen[s.nthreads]++] = k;
                p = e;
            }
        }
        return &s;
    }
} // namespace h
int main(int argc, char **argv) { return mc::main(argc, argv, nullptr, 0, h::resolve); }
