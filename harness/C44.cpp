// C44: the default executor runs every accepted task exactly once.
// vp-bounds: 1 and 2 (thorough 3) workers, up to 3 tasks from the main thread or from one or two submitter threads, tasks that submit tasks, empty tasks; every interleaving with at most 2 (thorough 3) preemptions
// vp-preempt: quick=2 thorough=3
// vp-fair: 30
// vp-assume: fair scheduling: no thread passes more than 30 synchronisation operations in a row while another could run
// vp-replay: tsan
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <functional>
#include "paimon/executor.h"
#include "vp.h"
using namespace paimon;
static std::atomic<int> s_ran[4], s_done;
static std::atomic<int> s_closed;
static void task(int i) {
    VP_CHECK(s_closed == 0, "no task runs after shutdown returned");
    s_ran[i]++;
    s_done++;
}
static void reset() {
    for (int i = 0; i < 4; i++) s_ran[i] = 0;
    s_done = 0;
    s_closed = 0;
}
static void finish(std::unique_ptr<Executor>& e, int n) {
    e.reset();
    s_closed = 1;
    VP_CHECK(s_done == n, "shutdown waits for every accepted task");
    for (int i = 0; i < n; i++) VP_CHECK(s_ran[i] == 1, "every task runs exactly once");
    vp_reach("end");
}
VP_HARNESS(from_main, 6) {
    vp_expect("end");
    reset();
    int workers = 1 + vp_shard() % 2, n = 1 + vp_shard() / 2;
    auto e = CreateDefaultExecutor(workers);
    for (int i = 0; i < n; i++) e->Add([i] { task(i); });
    finish(e, n);
}
VP_HARNESS(none, 2) {
    vp_expect("end");
    reset();
    auto e = CreateDefaultExecutor(1 + vp_shard());
    if (vp::choose(2, "empty task")) e->Add(std::function<void()>());
    finish(e, 0);
}
struct Sub {
    Executor* e;
    int from, n;
};
static void submit(void* p) {
    Sub* s = (Sub*)p;
    for (int i = s->from; i < s->from + s->n; i++) s->e->Add([i] { task(i); });
}
VP_HARNESS(from_threads, 3) {
    vp_expect("end");
    reset();
    auto e = CreateDefaultExecutor(vp_shard() == 2 ? 2 : 1);
    Sub s[2] = {{e.get(), 0, vp_shard() == 1 ? 2 : 1}, {e.get(), vp_shard() == 1 ? 2 : 1, 1}};
    int t[2];
    for (int i = 0; i < 2; i++) t[i] = vp_thread_create(submit, &s[i]);
    for (int i = 0; i < 2; i++) vp_thread_join(t[i]);
    finish(e, s[0].n + s[1].n);
}
// a task that hands over another one before shutdown begins
VP_HARNESS(nested, 2) {
    vp_expect("end");
    reset();
    auto e = CreateDefaultExecutor(1 + vp_shard());
    Executor* x = e.get();
    std::mutex m;
    std::condition_variable c;
    bool handed = false;
    x->Add([&] {
        task(0);
        x->Add([] { task(1); });
        std::unique_lock<std::mutex> l(m);
        handed = true;
        c.notify_one();
    });
    {
        std::unique_lock<std::mutex> l(m);
        while (!handed) c.wait(l);
    }
    finish(e, 2);
}
