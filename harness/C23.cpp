// C23: 32-bit row bitmaps behave as sets of row ids.
// vp-bounds: histories of 2 (thorough 3) updates with symbolic ids and range bounds in a window of 4 (3 with dense containers) (ids at 0, at a container boundary or at 2^31-1) over an empty, run, dense or two-container start set, any probe id; combinations of two sets with up to 1 (thorough 2) symbolic ids each over all pairs of container shapes; iteration, seek and equality of sets of up to 3 (thorough 4) arbitrary ids
// vp-assume: ids and bounds are non-negative (row ids)
#include "bitmap.h"
#include "paimon/utils/roaring_bitmap32.h"
using B = paimon::RoaringBitmap32;
using T = bm::T<B, int32_t>;
static const int32_t kBase[] = {0, 65533, 2147483647 - 5};
static T::Shape shape(int kind, int at) { return {kind, at == 0 ? 0 : at == 1 ? 65500 : 65536}; }
VP_HARNESS(history, 24) {
    vp_expect("history");
    int s = vp_shard();
    T t{kBase[s % 3], vp_tier() ? 4 : s / 3 % 4 == 2 ? 3 : 4};
    t.history(vp_tier() ? 3 : 2, shape(s / 3 % 4, s % 3), shape((s / 3 % 4 + 1 + s / 12) % 4, s / 12));
}
VP_HARNESS(binary_ids, 8) {
    vp_expect("binary");
    bool few = vp_shard() == 3 || vp_shard() == 4;
    T t{few ? 65530 : 0, few ? 8 : 2147483647};
    t.binary(vp_tier() ? 2 : 1, shape(0, 0), shape(0, 0), vp_shard());
}
VP_HARNESS(binary, 32) {
    vp_expect("binary");
    int s = vp_shard();
    T t{65530, 8};
    t.binary(vp_tier() ? 2 : 1, shape(s / 8, 1), shape((int)vp::choose(4, "shape"), 2 - (int)vp::choose(2, "place")), s % 8);
}
VP_HARNESS(iteration, 5) {
    vp_expect("iteration");
    if (vp_shard() == 4 && !vp_tier()) return;
    T t{0, 2147483647};
    t.iteration(vp_shard());
}
VP_HARNESS(equality, 9) {
    vp_expect("equality");
    T t{0, 2147483647};
    t.equality(vp_shard() % 3, vp_shard() / 3 + (vp_tier() && vp_shard() >= 6));
}
VP_HARNESS(representation, 3) {
    vp_expect("representation");
    T t{kBase[vp_shard()] - (vp_shard() == 2 ? 8 : 0), 6};
    t.representation();
}
