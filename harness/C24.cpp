// C24: 64-bit row bitmaps behave as sets of row ids.
// vp-bounds: histories of 2 (thorough 3) updates with symbolic ids and range bounds in a window of 4 (3 with dense containers) (at 0, across 2^32, below 2^63-1) over an empty, run, dense or two-container start set, any probe id; combinations of two sets with up to 1 (thorough 2) symbolic ids each over all pairs of container shapes; iteration, seek and equality of sets of up to 3 arbitrary ids; conversion from 32-bit bitmaps
// vp-assume: ids and bounds are non-negative (row ids)
#include "bitmap.h"
#include "paimon/utils/roaring_bitmap32.h"
#include "paimon/utils/roaring_bitmap64.h"
using B = paimon::RoaringBitmap64;
using T = bm::T<B, int64_t>;
static const int64_t kBase[] = {0, (1ll << 32) - 3, INT64_MAX - 5};
static T::Shape shape(int kind, int at) { return {kind, at == 0 ? 0 : at == 1 ? (1ll << 32) - 36 : (1ll << 32)}; }
VP_HARNESS(history, 24) {
    vp_expect("history");
    int s = vp_shard();
    T t{kBase[s % 3], vp_tier() ? 4 : s / 3 % 4 == 2 ? 3 : 4};
    t.history(vp_tier() ? 3 : 2, shape(s / 3 % 4, s % 3), shape((s / 3 % 4 + 1 + s / 12) % 4, s / 12));
}
VP_HARNESS(binary_ids, 8) {
    vp_expect("binary");
    bool few = vp_shard() == 3 || vp_shard() == 4;
    T t{few ? (1ll << 32) - 6 : 0, few ? 8 : INT64_MAX};
    t.binary(vp_tier() ? 2 : 1, shape(0, 0), shape(0, 0), vp_shard());
}
VP_HARNESS(binary, 32) {
    vp_expect("binary");
    int s = vp_shard();
    T t{(1ll << 32) - 6, 8};
    t.binary(vp_tier() ? 2 : 1, shape(s / 8, 1), shape((int)vp::choose(4, "shape"), 2 - (int)vp::choose(2, "place")), s % 8);
}
VP_HARNESS(iteration, 4) {
    vp_expect("iteration");
    T t{0, INT64_MAX};
    t.iteration(vp_shard());
}
VP_HARNESS(equality, 9) {
    vp_expect("equality");
    T t{0, INT64_MAX};
    t.equality(vp_shard() % 3, vp_shard() / 3);
}
VP_HARNESS(representation, 3) {
    vp_expect("representation");
    T t{kBase[vp_shard()] - (vp_shard() == 2 ? 8 : 0), 6};
    t.representation();
}
VP_HARNESS(widen, 2) {
    vp_expect("end");
    paimon::RoaringBitmap32 s;
    int32_t x = vp::any<int32_t>("x"), y = vp::any<int32_t>("y");
    VP_ASSUME(x >= 0 && y >= 0);
    s.Add(x);
    s.Add(y);
    int64_t q = vp::any<int64_t>("probe");
    VP_ASSUME(q >= 0);
    B b;
    if (vp_shard()) b.Add(q), b = s;
    else b = B(s);
    VP_CHECK(b.Contains(q) == (q == x || q == y), "membership after widening");
    VP_CHECK(b.Cardinality() == s.Cardinality(), "cardinality after widening");
    b.Add(1ll << 40);
    VP_CHECK(s.Cardinality() == (x == y ? 1 : 2) && s.Contains(x) && s.Contains(y), "the source is unchanged");
    vp_reach("end");
}
