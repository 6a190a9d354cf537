// C13: memory pool statistics stay exact under concurrent use.
// vp-bounds: 2 threads of 2 operations each and 3 threads of 1 operation each (thorough 3 threads, 2 operations), sizes arbitrary out of 1..3; every interleaving with at most 3 (thorough 4) preemptions; sequentially consistent atomics
// vp-preempt: quick=3 thorough=4
// vp-replay: tsan
#include "env.h"
using namespace paimon;
struct Ctx {
    MemoryPool* pool;
    size_t n;
    bool freeIt;
    uint64_t seen = 0;
    void* p = nullptr;
    int rounds;
};
static void worker(void* a) {
    Ctx* c = (Ctx*)a;
    for (int r = 0; r < c->rounds; r++) {
        if (c->p) c->pool->Free(c->p, c->n);
        c->p = c->pool->Malloc(c->n);
        uint64_t u = c->pool->CurrentUsage();
        if (u > c->seen) c->seen = u;
    }
    if (c->freeIt) {
        c->pool->Free(c->p, c->n);
        c->p = nullptr;
    }
}
static void run(int threads, int rounds) {
    auto pool = GetMemoryPool();
    Ctx c[3];
    int t[3];
    for (int i = 0; i < threads; i++) {
        c[i].pool = pool.get();
        c[i].n = 1 + i * 2;
        c[i].freeIt = vp::choose(2, "free") == 1;
        c[i].rounds = rounds;
    }
    for (int i = 0; i < threads; i++) t[i] = vp_thread_create(worker, &c[i]);
    for (int i = 0; i < threads; i++) vp_thread_join(t[i]);
    uint64_t use = 0, sum = 0, seen = 0;
    for (int i = 0; i < threads; i++) {
        if (c[i].p) use += c[i].n;
        sum += c[i].n;
        if (c[i].seen > seen) seen = c[i].seen;
    }
    VP_CHECK(pool->CurrentUsage() == use, "usage is exact at quiescence");
    VP_CHECK(pool->MaxMemoryUsage() >= seen, "maximum covers every observed usage");
    VP_CHECK(pool->MaxMemoryUsage() <= sum, "maximum never exceeds the possible peak");
    // all threads hold their last block at the end
    bool all = true;
    for (int i = 0; i < threads; i++) all = all && c[i].p;
    if (all) {
        VP_CHECK(pool->MaxMemoryUsage() == sum, "maximum is the peak");
        vp_reach("all live");
    }
    for (int i = 0; i < threads; i++)
        if (c[i].p) pool->Free(c[i].p, c[i].n);
}
VP_HARNESS(two_threads, 1) {
    vp_expect("all live");
    run(2, 2);
}
VP_HARNESS(three_threads, 1) {
    vp_expect("all live");
    run(3, vp_tier() ? 2 : 1);
}
