// C43: the thread-safe queue is a linearizable FIFO.
// vp-bounds: 2 and 3 threads with up to 3 operations each (push of copies and temporaries, pop, size, empty), up to 2 elements queued beforehand; every interleaving with at most 3 (thorough 4) preemptions; sequential histories of 5 (thorough 7) operations
// vp-preempt: quick=3 thorough=4
// vp-replay: tsan
#include <atomic>
#include "paimon/common/utils/threadsafe_queue.h"
#include "vp.h"
using namespace paimon;
// an element that owns memory: doubled or lost elements are visible
struct El {
    int* p;
    explicit El(int v) : p(new int(v)) {}
    El(const El& o) : p(new int(*o.p)) {}
    El(El&& o) noexcept : p(o.p) { o.p = nullptr; }
    El& operator=(const El& o) {
        if (this != &o) {
            delete p;
            p = o.p ? new int(*o.p) : nullptr;
        }
        return *this;
    }
    El& operator=(El&& o) noexcept {
        if (this != &o) {
            delete p;
            p = o.p;
            o.p = nullptr;
        }
        return *this;
    }
    ~El() { delete p; }
    int get() const { return p ? *p : -1; }
};
VP_HARNESS(sequential, 6) {
    vp_expect("end");
    size_t heap = vp_live_heap();
    {
        ThreadsafeQueue<El> q;
        std::vector<int> w;
        int n = vp_tier() ? 7 : 5;
        for (int k = 0; k < n; k++) {
            switch (k == 0 ? vp_shard() : (int)vp::choose(6, "op")) {
                case 0: {
                    int v = vp::any<int32_t>("value");
                    El e(v);
                    q.push(e);
                    VP_CHECK(e.get() == v, "pushing a copy leaves the original");
                    w.push_back(v);
                    break;
                }
                case 1: {
                    int v = vp::any<int32_t>("value");
                    q.push(El(v));
                    w.push_back(v);
                    break;
                }
                case 2:
                case 3: {
                    auto e = q.try_pop();
                    VP_CHECK(e.has_value() == !w.empty(), "nothing exactly if the queue is empty");
                    if (e) {
                        VP_CHECK(e->get() == w[0], "first in, first out");
                        w.erase(w.begin());
                    }
                    break;
                }
                case 4: {
                    const El* e = q.try_front();
                    VP_CHECK((e != nullptr) == !w.empty(), "nothing exactly if the queue is empty");
                    if (e) VP_CHECK(e->get() == w[0], "the front stays in the queue");
                    break;
                }
                default: VP_CHECK(q.size() == w.size() && q.empty() == w.empty(), "size");
            }
        }
        VP_CHECK(q.size() == w.size(), "what is not popped remains");
        vp_reach("end");
    }
    if (!vp_native()) VP_CHECK(vp_live_heap() == heap, "nothing leaks");
}
static ThreadsafeQueue<El>* s_q;
static std::atomic<int> s_pushed, s_popCalls;
struct Ctx {
    int kind;  // 0 producer, 1 consumer, 2 observer
    int base, n;
    int got[3], ngot = 0;
};
static void worker(void* p) {
    Ctx* c = (Ctx*)p;
    for (int i = 0; i < c->n; i++) {
        if (c->kind == 0) {
            if (i & 1) {
                s_q->push(El(c->base + i));
            } else {
                El e(c->base + i);
                s_q->push(e);
            }
            s_pushed++;
        } else if (c->kind == 1) {
            int before = s_pushed;  // pushes completed before this call
            s_popCalls++;
            auto e = s_q->try_pop();
            int calls = s_popCalls;  // pops begun until now, this one included
            if (e) c->got[c->ngot++] = e->get();
            else VP_CHECK(before < calls, "nothing is returned only if the queue was empty at some moment");
        } else {
            int before = s_pushed;
            size_t n = s_q->size();
            bool em = s_q->empty();
            int calls = s_popCalls;
            VP_CHECK((int)n >= before - calls && n <= 4, "size lies between what must and what may be there");
            if (em) VP_CHECK(before <= calls, "empty only if everything may have been popped");
        }
    }
}
static void run(int threads, const Ctx* proto, int pre) {
    size_t heap = vp_live_heap();
    {
        ThreadsafeQueue<El> q;
        s_q = &q;
        s_pushed = 0;
        s_popCalls = 0;
        for (int i = 0; i < pre; i++) {
            q.push(El(i));
            s_pushed++;
        }
        Ctx c[3];
        int t[3], pushes = pre;
        for (int i = 0; i < threads; i++) {
            c[i] = proto[i];
            if (c[i].kind == 0) pushes += c[i].n;
        }
        for (int i = 0; i < threads; i++) t[i] = vp_thread_create(worker, &c[i]);
        for (int i = 0; i < threads; i++) vp_thread_join(t[i]);
        int seen[3][3] = {};  // [base][index]
        int popped = 0;
        auto note = [&](int v, int last[3]) {
            VP_CHECK(v >= 0 && v % 10 < 3 && v / 10 < 3, "only pushed elements are popped");
            VP_CHECK(seen[v / 10][v % 10]++ == 0, "each element is popped at most once");
            VP_CHECK(v % 10 > last[v / 10], "elements of one producer come in push order");
            last[v / 10] = v % 10;
            popped++;
        };
        for (int i = 0; i < threads; i++) {
            int last[3] = {-1, -1, -1};
            for (int k = 0; k < c[i].ngot; k++) note(c[i].got[k], last);
        }
        VP_CHECK((int)q.size() == pushes - popped, "what is not popped remains");
        int last[3] = {-1, -1, -1};
        while (auto e = q.try_pop()) note(e->get(), last);
        VP_CHECK(popped == pushes && q.empty(), "no element is lost");
        vp_reach("end");
    }
    if (!vp_native()) VP_CHECK(vp_live_heap() == heap, "nothing leaks");
}
VP_HARNESS(threads, 8) {
    vp_expect("end");
    switch (vp_shard()) {
        case 0: { Ctx c[] = {{0, 10, 3}, {1, 0, 3}}; run(2, c, 0); break; }
        case 1: { Ctx c[] = {{0, 10, 2}, {0, 20, 2}}; run(2, c, 0); break; }
        case 2: { Ctx c[] = {{1, 0, 2}, {1, 0, 2}}; run(2, c, 2); break; }
        case 3: { Ctx c[] = {{1, 0, 1}, {1, 0, 2}}; run(2, c, 1); break; }
        case 4: { Ctx c[] = {{0, 10, 1}, {0, 20, 1}, {1, 0, 2}}; run(3, c, 0); break; }
        case 5: { Ctx c[] = {{0, 10, 2}, {1, 0, 1}, {1, 0, 1}}; run(3, c, 0); break; }
        case 6: { Ctx c[] = {{0, 10, 2}, {2, 0, 2}}; run(2, c, 1); break; }
        default: { Ctx c[] = {{1, 0, 2}, {2, 0, 2}}; run(2, c, 2); }
    }
}
