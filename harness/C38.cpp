// C38: merging and overwriting metrics neither loses nor double-counts counters.
// vp-bounds: histories of 3 (thorough 5) operations over two metrics objects and three counter names with arbitrary 64-bit values (sums wrap)
// vp-bounds: two threads merging, setting or reading, with 2 counters; every interleaving with at most 2 (thorough 3) preemptions
// vp-preempt: quick=2 thorough=3
// vp-replay: tsan
#include <map>
#include "paimon/common/metrics/metrics_impl.h"
#include "paimon/result.h"
#include "vp.h"
using namespace paimon;
struct Model {
    bool has[3] = {false, false, false};
    uint64_t v[3] = {0, 0, 0};
};
static const char* const names[] = {"a", "bb", "c.count"};
static void agrees(const MetricsImpl& m, const Model& w) {
    auto all = m.GetAllCounters();
    size_t n = 0;
    for (int i = 0; i < 3; i++) {
        auto r = m.GetCounter(names[i]);
        VP_CHECK(r.ok() == w.has[i], "a counter is present exactly if it was given");
        if (w.has[i]) {
            n++;
            VP_CHECK(r.value() == w.v[i], "counter value");
            VP_CHECK(all.count(names[i]) == 1 && all.at(names[i]) == w.v[i], "counter in the full listing");
        } else
            VP_CHECK(r.status().IsKeyError(), "an absent counter is told apart");
    }
    VP_CHECK(all.size() == n, "no counter appears from nowhere");
}
VP_HARNESS(history, 7) {
    vp_expect("end");
    std::shared_ptr<MetricsImpl> m[2] = {std::make_shared<MetricsImpl>(), std::make_shared<MetricsImpl>()};
    Model w[2];
    // arbitrary start: some counters on both sides
    for (int o = 0; o < 2; o++) {
        unsigned have = vp::choose(4, "initial");
        for (int i = 0; i < 2; i++)
            if (have >> i & 1) {
                int k = o ? 2 - i : i;
                uint64_t v = vp::any<uint64_t>("initial value");
                m[o]->SetCounter(names[k], v);
                w[o].has[k] = true;
                w[o].v[k] = v;
            }
    }
    int n = vp_tier() ? 5 : 3;
    for (int s = 0; s < n; s++) {
        int op = s == 0 ? vp_shard() : (int)vp::choose(7, "op");
        if (op < 3) {  // set
            uint64_t v = vp::any<uint64_t>("value");
            int o = s & 1;
            m[o]->SetCounter(names[op], v);
            w[o].has[op] = true;
            w[o].v[op] = v;
        } else if (op < 5) {  // merge the other one, or the object itself
            int o = op - 3, from = vp::choose(2, "self") ? o : !o;
            m[o]->Merge(m[from]);
            if (from != o)
                for (int i = 0; i < 3; i++)
                    if (w[from].has[i]) {
                        w[o].v[i] = w[o].has[i] ? w[o].v[i] + w[from].v[i] : w[from].v[i];
                        w[o].has[i] = true;
                    }
        } else {
            int o = op - 5, from = (int)vp::choose(3, "from");
            if (from == 2) {  // nothing to take over
                m[o]->Overwrite(nullptr);
                m[o]->Merge(nullptr);
            } else {
                m[o]->Overwrite(m[from]);
                w[o] = w[from];
            }
        }
    }
    agrees(*m[0], w[0]);
    agrees(*m[1], w[1]);
    vp_reach("end");
}
struct Ctx {
    std::shared_ptr<MetricsImpl> to, from;
    int what;
};
static void worker(void* a) {
    Ctx* c = (Ctx*)a;
    switch (c->what) {
        case 0: c->to->Merge(c->from); break;
        case 1: c->to->SetCounter("z", 5); break;
        default: {
            auto r = c->to->GetCounter("a");
            if (r.ok()) VP_CHECK(r.value() == 1 || r.value() == 11 || r.value() == 111 || r.value() == 101 || r.value() == 10 || r.value() == 100 || r.value() == 110, "only complete values are seen");
        }
    }
}
VP_HARNESS(threads, 3) {
    vp_expect("end");
    auto to = std::make_shared<MetricsImpl>();
    bool pre = vp::choose(2, "present");
    if (pre) to->SetCounter("a", 1);
    Ctx c[3];
    int t[3];
    for (int i = 0; i < 2; i++) {
        c[i].to = to;
        c[i].from = std::make_shared<MetricsImpl>();
        c[i].from->SetCounter("a", i ? 100 : 10);
        c[i].from->SetCounter(i ? "q" : "p", 7);
        c[i].what = 0;
    }
    int n = 2;
    if (vp_shard() == 1) c[1].what = 1;
    if (vp_shard() == 2) c[1].what = 2;
    for (int i = 0; i < n; i++) t[i] = vp_thread_create(worker, &c[i]);
    for (int i = 0; i < n; i++) vp_thread_join(t[i]);
    uint64_t want = (pre ? 1 : 0) + 10 + (vp_shard() == 0 ? 100 : 0);
    auto r = to->GetCounter("a");
    VP_CHECK(r.ok() && r.value() == want, "no merge is lost or counted twice");
    VP_CHECK(to->GetCounter("p").ok() && to->GetCounter("p").value() == 7, "counters of one side are kept");
    if (vp_shard() == 0) VP_CHECK(to->GetCounter("q").ok() && to->GetCounter("q").value() == 7, "counters of the other side are kept");
    if (vp_shard() == 1) VP_CHECK(to->GetCounter("z").ok() && to->GetCounter("z").value() == 5, "a concurrent set is kept");
    for (int i = 0; i < n; i++) VP_CHECK(c[i].from->GetCounter("a").value() == (i ? 100u : 10u), "the source is unchanged");
    vp_reach("end");
}
