// C20: grouping by overlapping ranges yields the connected groups, in order.
// vp-bounds: up to 4 (thorough 5) items with arbitrary closed 64-bit ranges; the k-th accessor call may fail for any k
#include "vp.h"
#include "paimon/common/utils/range_helper.h"
using namespace paimon;
struct Item {
    int id;
    int64_t s, e;
};
static int g_calls, g_fail;
static Result<int64_t> start(const Item& i) {
    if (g_calls++ == g_fail) return Status::Invalid("start fails");
    return i.s;
}
static Result<int64_t> end(const Item& i) {
    if (g_calls++ == g_fail) return Status::Invalid("end fails");
    return i.e;
}
static std::vector<Item> items(size_t n) {
    std::vector<Item> v;
    for (size_t i = 0; i < n; i++) {
        Item t{(int)i, vp::any<int64_t>("start"), vp::any<int64_t>("end")};
        VP_ASSUME(t.s <= t.e);
        v.push_back(t);
    }
    return v;
}
VP_HARNESS(group, 6) {
    vp_expect("end");
    size_t n = vp_shard();
    if (n == 5 && !vp_tier()) {
        vp_reach("end");
        return;
    }
    g_calls = 0;
    g_fail = -1;
    auto v = items(n);
    RangeHelper<Item> h(start, end);
    auto copy = v;
    auto r = h.MergeOverlappingRanges(std::move(copy));
    VP_CHECK(r.ok(), "grouping succeeds");
    // reference: transitive closure of overlap
    bool con[5][5];
    for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < n; j++) con[i][j] = (v[i].s <= v[j].e) & (v[j].s <= v[i].e);
    for (size_t k = 0; k < n; k++)
        for (size_t i = 0; i < n; i++)
            for (size_t j = 0; j < n; j++) con[i][j] = con[i][j] | (con[i][k] & con[k][j]);
    int group[5], seen[5] = {0, 0, 0, 0, 0};
    size_t total = 0;
    for (size_t g = 0; g < r.value().size(); g++) {
        auto& grp = r.value()[g];
        VP_CHECK(!grp.empty(), "no empty group");
        for (size_t i = 0; i < grp.size(); i++) {
            VP_CHECK(grp[i].id >= 0 && grp[i].id < (int)n, "only items of the input");
            group[grp[i].id] = (int)g;
            seen[grp[i].id]++;
            total++;
            VP_CHECK(grp[i].s == v[grp[i].id].s && grp[i].e == v[grp[i].id].e, "items are unchanged");
            if (i) VP_CHECK(grp[i - 1].id < grp[i].id, "input order inside a group");
        }
    }
    VP_CHECK(total == n, "every item once");
    for (size_t i = 0; i < n; i++) VP_CHECK(seen[i] == 1, "every item exactly once");
    for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < n; j++) {
            VP_CHECK((group[i] == group[j]) == con[i][j], "same group exactly if connected");
            if (group[i] < group[j]) VP_CHECK(v[i].e < v[j].s, "groups are ordered by position");
        }
    vp_reach("end");
}
VP_HARNESS(accessor_failure, 4) {
    vp_expect("failed");
    vp_expect("succeeded");
    size_t n = vp_shard();
    auto v = items(n);
    g_calls = 0;
    g_fail = (int)vp::choose(2 * n + 2, "failing call") - 1;
    RangeHelper<Item> h(start, end);
    bool grouping = vp::choose(2, "operation");
    bool ok;
    if (grouping) ok = h.MergeOverlappingRanges(std::move(v)).ok();
    else ok = h.AreAllRangesSame(v).ok();
    VP_CHECK(ok == !(g_fail >= 0 && g_calls > g_fail), "a failing accessor is reported");
    vp_reach(ok ? "succeeded" : "failed");
}
VP_HARNESS(all_same, 4) {
    vp_expect("end");
    size_t n = vp_shard();
    g_calls = 0;
    g_fail = -1;
    auto v = items(n);
    RangeHelper<Item> h(start, end);
    auto r = h.AreAllRangesSame(v);
    bool ref = true;
    for (size_t i = 1; i < n; i++) ref = ref & (v[i].s == v[0].s) & (v[i].e == v[0].e);
    VP_CHECK(r.ok() && r.value() == ref, "true exactly if all ranges are equal");
    vp_reach("end");
}
