// C48: dense row ids collapse into the right ranges.
// vp-bounds: answers of up to 3 (thorough 4) arbitrary row ids of every kind; lists of up to 2 (thorough 3) ranges up to 6 long starting in a window of 8 (at 0, 2^16, 2^32 and 2^63-1), any probe row, overlapping, adjacent or apart, in any order
// vp-bounds: range-built answers start at ids where the representation changes (0, 2^16, 2^32, 2^63-2)
// vp-assume: row ids are in [0, 2^63-1]
#include "gidx.h"
using namespace gi;
static void shape(const std::vector<Range>& rs, const std::vector<int64_t>& ids) {
    for (size_t i = 0; i < rs.size(); i++) {
        VP_CHECK(rs[i].from <= rs[i].to, "ranges are not inverted");
        if (i) VP_CHECK(rs[i - 1].to < rs[i].from && rs[i].from - rs[i - 1].to > 1, "ranges are sorted, apart and maximal");
    }
    // the ids, run by run
    size_t k = 0;
    for (size_t i = 0; i < rs.size(); i++) {
        VP_CHECK(k < ids.size() && rs[i].from == ids[k], "a range starts at a row");
        while (k + 1 < ids.size() && ids[k + 1] - ids[k] == 1) k++;
        VP_CHECK(rs[i].to == ids[k], "a range ends with its run");
        k++;
    }
    VP_CHECK(k == ids.size(), "every row is in a range");
}
VP_HARNESS(to_ranges, 16) {
    int kind = vp_shard() % 4;
    size_t n = vp_shard() / 4 + (vp_tier() ? 1 : 0);
    vp_expect("end");
    Val a = make(kind, kind == RANGES && n ? n - 1 : n, INT64_MAX);
    auto r = a.r->ToRanges();
    VP_CHECK(r.ok(), "ranges are available");
    shape(r.value(), a.ids);
    vp_reach("end");
}
VP_HARNESS(from_ranges, 12) {
    vp_expect("end");
    static const int64_t base[] = {0, 65533, (1ll << 32) - 3, INT64_MAX - 12};
    size_t n = vp_shard() / 4 + (vp_tier() ? 1 : 0);
    std::vector<Range> rs;
    int64_t q = vp::any<int64_t>("probe");
    VP_ASSUME(q >= 0);
    bool in = false;
    std::vector<int64_t> ids;
    for (size_t i = 0; i < n; i++) {
        int64_t lo = base[vp_shard() % 4] + (int64_t)vp::choose(8, "from");
        int64_t len = (int64_t)vp::choose(n > 1 ? 3 : 6, "length");
        rs.push_back(Range(lo, lo + len));
        in |= q >= lo && q - lo <= len;
        for (int64_t k = 0; k <= len; k++) ids.push_back(lo + k);
    }
    auto a = BitmapGlobalIndexResult::FromRanges(rs);
    auto b = a->GetBitmap();
    VP_CHECK(b.ok() && b.value()->Contains(q) == in, "exactly the rows of the ranges are in");
    auto back = a->ToRanges();
    VP_CHECK(back.ok(), "ranges are available");
    shape(back.value(), sorted(ids));
    vp_reach("end");
}
