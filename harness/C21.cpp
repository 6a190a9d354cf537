// C21: ordered bin packing keeps order and respects the target weight.
// vp-bounds: 0..5 (thorough 0..7) items, all non-negative 64-bit weights and targets
// vp-assume: weights are not negative
#include <cstdint>
#include "vp.h"
#include "paimon/common/utils/bin_packing.h"
using namespace paimon;
struct Item {
    int id;
    int64_t w;
};
VP_HARNESS(pack, 8) {
    vp_expect("end");
    size_t n = vp_shard();
    if (n > 5 && !vp_tier()) {
        vp_reach("end");
        return;
    }
    std::vector<Item> v;
    for (size_t i = 0; i < n; i++) {
        v.push_back(Item{(int)i, vp::any<int64_t>("weight")});
        VP_ASSUME(v.back().w >= 0);
    }
    int64_t target = vp::any<int64_t>("target");
    VP_ASSUME(target >= 0);
    auto in = v;
    int calls = 0;
    auto r = BinPacking::PackForOrdered<Item>(std::move(in), [&](const Item& i) { calls++; return i.w; }, target);
    int next = 0;
    for (size_t b = 0; b < r.size(); b++) {
        VP_CHECK(!r[b].empty(), "no empty bin");
        int64_t left = target;
        for (auto& x : r[b]) {
            VP_CHECK(x.id == next, "bins in sequence are the input");
            VP_CHECK(x.w == v[next].w, "items are unchanged");
            next++;
            if (r[b].size() > 1) VP_CHECK(x.w <= left, "only single items exceed the target");
            left -= x.w;
        }
        if (b + 1 < r.size()) VP_CHECK(r[b + 1][0].w > left, "a new bin is opened only when needed");
    }
    VP_CHECK(next == (int)n, "every item is packed");
    vp_reach("end");
}
