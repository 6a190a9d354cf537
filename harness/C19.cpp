// C19: row-range algebra is exact.
// vp-bounds: lists of up to 3 (thorough 4) ranges with arbitrary 64-bit bounds; membership of an arbitrary 64-bit row number
#include "vp.h"
#include "paimon/utils/range.h"
using namespace paimon;
static Range any_range(const char* n) {
    int64_t a = vp::any<int64_t>(n), b = vp::any<int64_t>(n);
    VP_ASSUME(a <= b);
    return Range(a, b);
}
static bool in(const Range& r, int64_t x) { return (r.from <= x) & (x <= r.to); }
static bool in(const std::vector<Range>& v, int64_t x) {
    bool r = false;
    for (auto& y : v) r = r | in(y, x);
    return r;
}
static std::vector<Range> any_list(size_t n, bool sorted, const char* name) {
    std::vector<Range> v;
    for (size_t i = 0; i < n; i++) {
        v.push_back(any_range(name));
        if (sorted && i) VP_ASSUME(v[i - 1].to < v[i].from);
    }
    return v;
}
static void sorted_disjoint(const std::vector<Range>& v, bool maximal) {
    for (size_t i = 0; i < v.size(); i++) {
        VP_CHECK(v[i].from <= v[i].to, "ranges are not empty");
        if (i) {
            VP_CHECK(v[i - 1].to < v[i].from, "ranges are sorted and disjoint");
            if (maximal) VP_CHECK(v[i - 1].to + 1 < v[i].from, "ranges are maximal");
        }
    }
}
VP_HARNESS(pair, 1) {
    vp_expect("overlap");
    vp_expect("apart");
    Range a = any_range("a"), b = any_range("b");
    int64_t x = vp::any<int64_t>("row");
    auto i = Range::Intersection(a, b);
    bool both = in(a, x) & in(b, x);
    VP_CHECK(i.has_value() == Range::HasIntersection(a, b), "overlap test agrees with the intersection");
    if (i) {
        VP_CHECK(in(*i, x) == both, "intersection holds exactly the common rows");
        VP_CHECK(i->from <= i->to, "intersection is not empty");
        vp_reach("overlap");
    } else {
        VP_CHECK(!both, "no common row is lost");
        vp_reach("apart");
    }
    VP_CHECK(Range::HasIntersection(a, b) == Range::HasIntersection(b, a), "symmetric");
    VP_CHECK((a == b) == (a.from == b.from && a.to == b.to), "equality");
    VP_CHECK((a < b) == (a.from < b.from || (a.from == b.from && a.to < b.to)), "order");
}
VP_HARNESS(merge, 8) {
    vp_expect("end");
    bool adj = vp_shard() & 1;
    size_t n = vp_shard() / 2 + (vp_tier() ? 1 : 0);
    auto v = any_list(n, false, "range");
    auto orig = v;
    auto r = Range::SortAndMergeOverlap(v, adj);
    int64_t x = vp::any<int64_t>("row");
    VP_CHECK(in(r, x) == in(v, x), "merging keeps exactly the rows");
    sorted_disjoint(r, adj);
    if (!adj)
        // without merging of neighbours no result range may join two that do not overlap
        for (size_t i = 0; i < r.size(); i++)
            if ((r[i].from <= x) & (x < r[i].to)) {
                bool covered = false;
                for (auto& y : v) covered = covered | ((y.from <= x) & (x < y.to));
                VP_CHECK(covered, "neighbours are not merged");
            }
    VP_CHECK(v == orig, "input is unchanged");
    vp_reach("end");
}
VP_HARNESS(and_lists, 12) {
    vp_expect("end");
    size_t n = vp_shard() / 3 , m = vp_shard() % 3 + (n > 0);
    if (!vp_tier() && n == 3 && m == 3) m = 2;
    auto a = any_list(n, true, "left"), b = any_list(m, true, "right");
    auto r = Range::And(a, b);
    int64_t x = vp::any<int64_t>("row");
    VP_CHECK(in(r, x) == (in(a, x) & in(b, x)), "conjunction holds exactly the common rows");
    sorted_disjoint(r, false);
    vp_reach("end");
}
VP_HARNESS(exclude, 4) {
    vp_expect("end");
    size_t n = vp_shard();
    Range a = any_range("base");
    auto v = any_list(n, false, "excluded");
    auto r = a.Exclude(v);
    int64_t x = vp::any<int64_t>("row");
    VP_CHECK(in(r, x) == (in(a, x) & !in(v, x)), "exclusion keeps exactly the remaining rows");
    sorted_disjoint(r, n < 2);
    vp_reach("end");
}
