// C11: byte buffers own, move, copy and compare their content correctly.
// vp-bounds: every history of 3 (thorough 4) operations out of create, create from string, move-construct, move-assign (also to itself and over a live buffer), copy with any larger size, destroy, on 3 buffers of 0..2 arbitrary bytes; two pools
// vp-bounds: order and equality of every pair of buffers of 0..4 (thorough 0..6) bytes
#include <optional>
#include "env.h"
using namespace paimon;
struct Ref {
    bool live = false;
    std::vector<char> c;
    int pool = 0;
};
VP_HARNESS(history, 7) {
    vp_expect("end");
    unsigned long heap0 = vp_live_heap();
    {
        std::unique_ptr<MemoryPool> pools[2] = {GetMemoryPool(), GetMemoryPool()};
        std::optional<Bytes> b[3];
        Ref ref[3];
        int K = vp_tier() ? 4 : 3;
        for (int k = 0; k < K; k++) {
            int op = k == 0 ? vp_shard() : (int)vp::choose(7, "op");
            size_t i = vp::choose(3, "target"), j = vp::choose(3, "source");
            int pl = k == 0 ? 0 : (int)vp::choose(2, "pool");
            switch (op) {
                case 0: {
                    if (b[i]) break;
                    size_t n = vp::choose(3, "size");
                    b[i].emplace(n, pools[pl].get());
                    ref[i] = Ref{true, std::vector<char>(n, 0), pl};
                    for (size_t x = 0; x < n; x++) {
                        VP_CHECK((*b[i])[x] == 0, "new buffers are zeroed");
                        char v = vp::any<char>("byte");
                        (*b[i])[x] = v;
                        ref[i].c[x] = v;
                    }
                    break;
                }
                case 1: {
                    if (b[i]) break;
                    size_t n = vp::choose(3, "size");
                    auto s = vp::any_string(n, "string");
                    b[i].emplace(s, pools[pl].get());
                    ref[i] = Ref{true, std::vector<char>(s.begin(), s.end()), pl};
                    break;
                }
                case 2:  // move construct
                    if (b[i] || !b[j] || i == j) break;
                    b[i].emplace(std::move(*b[j]));
                    ref[i] = ref[j];
                    ref[j].c.clear();
                    break;
                case 3:  // move assign
                    if (!b[i] || !b[j]) break;
                    *b[i] = std::move(*b[j]);
                    if (i != j) {
                        ref[i] = ref[j];
                        ref[j].c.clear();
                    }
                    break;
                case 4:  // copy
                    if (!b[j]) break;
                    {
                        size_t extra = vp::choose(3, "extra");
                        auto c = Bytes::CopyOf(*b[j], ref[j].c.size() + extra, pools[pl].get());
                        VP_CHECK(c->size() == ref[j].c.size() + extra, "copy has the requested size");
                        VP_CHECK(vp::same(c->data(), ref[j].c.data(), ref[j].c.size()), "copy holds the content");
                        for (size_t x = 0; x < extra; x++) VP_CHECK((*c)[ref[j].c.size() + x] == 0, "copy is padded with zeros");
                        if (c->size() > 0 && !ref[j].c.empty()) VP_CHECK(c->data() != b[j]->data(), "copy does not share memory");
                    }
                    break;
                case 5:
                    b[i].reset();
                    ref[i] = Ref();
                    break;
                case 6: {
                    if (b[i]) break;
                    b[i].emplace();
                    ref[i] = Ref{true, {}, 0};
                    break;
                }
            }
            uint64_t use[2] = {0, 0};
            for (int x = 0; x < 3; x++) {
                VP_CHECK((bool)b[x] == ref[x].live, "bookkeeping");
                if (!b[x]) continue;
                VP_CHECK(b[x]->size() == ref[x].c.size(), "size is kept");
                VP_CHECK(vp::same(b[x]->data(), ref[x].c.data(), ref[x].c.size()), "content is kept");
                use[ref[x].pool] += ref[x].c.size();
                for (int y = 0; y < x; y++)
                    if (b[y] && b[y]->size() && b[x]->size()) VP_CHECK(b[x]->data() != b[y]->data(), "every buffer owns its memory");
            }
            VP_CHECK(pools[0]->CurrentUsage() == use[0] && pools[1]->CurrentUsage() == use[1], "pool usage equals the live buffers");
        }
        for (auto& x : b) x.reset();
        VP_CHECK(pools[0]->CurrentUsage() == 0 && pools[1]->CurrentUsage() == 0, "everything is released");
    }
    VP_CHECK(vp_live_heap() == heap0, "no memory is leaked");
    vp_reach("end");
}
VP_HARNESS(order, 1) {
    vp_expect("equal");
    vp_expect("less");
    size_t mx = vp_tier() ? 7 : 5;
    size_t n = vp::choose(mx, "n"), m = vp::choose(mx, "m");
    auto a = vp::any_bytes(n, "a"), b = vp::any_bytes(m, "b");
    auto x = vp::bytes_of(a), y = vp::bytes_of(b);
    int ref = 0;
    for (size_t i = 0; i < n && i < m && ref == 0; i++)
        if (a[i] != b[i]) ref = (uint8_t)a[i] < (uint8_t)b[i] ? -1 : 1;
    if (ref == 0) ref = n < m ? -1 : n > m ? 1 : 0;
    VP_CHECK((*x == *y) == (ref == 0), "equality is byte equality");
    VP_CHECK((*x < *y) == (ref < 0), "order is unsigned lexicographic");
    int32_t c = x->compare(*y);
    VP_CHECK((c < 0) == (ref < 0) && (c > 0) == (ref > 0), "compare is unsigned lexicographic");
    VP_CHECK(*x == *x && !(*x < *x), "a buffer equals itself");
    vp_reach(ref == 0 ? "equal" : ref < 0 ? "less" : "greater");
}
