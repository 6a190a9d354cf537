// C45: scope guards run their action exactly once unless released.
// vp-bounds: 1..4 nested guards, each released or not before or after the others, scope left normally, by return or by an exception at any depth
#include "paimon/common/utils/scope_guard.h"
#include <stdexcept>
#include "vp.h"
using namespace paimon;
static int s_ran[4], s_order[4], s_n;
static void nest(int depth, int total, int throwAt, unsigned release) {
    if (depth == total) return;
    ScopeGuard g([depth] {
        s_ran[depth]++;
        if (s_n < 4) s_order[s_n++] = depth;
    });
    VP_CHECK(s_ran[depth] == 0, "the action does not run early");
    if (release >> depth & 1) {
        g.Release();
        if (release >> (4 + depth) & 1) g.Release();
    }
    VP_CHECK(s_ran[depth] == 0, "releasing does not run the action");
    if (throwAt == depth) throw std::runtime_error("left by exception");
    nest(depth + 1, total, throwAt, release);
}
VP_HARNESS(guards, 4) {
    vp_expect("thrown");
    vp_expect("normal");
    int total = vp_shard() + 1;
    for (int i = 0; i < 4; i++) s_ran[i] = 0;
    s_n = 0;
    int throwAt = (int)vp::choose(total + 1, "throw");
    unsigned release = 0;
    for (int i = 0; i < total; i++) release |= vp::choose(3, "release") == 0 ? 0 : 1u << i;
    unsigned twice = vp::choose(2, "twice") ? 0xf0 : 0;
    bool thrown = false;
    size_t heap = vp_live_heap();
    try {
        nest(0, total, throwAt, release | twice);
    } catch (const std::runtime_error&) {
        thrown = true;
    }
    VP_CHECK(thrown == (throwAt < total), "the exception passes through");
    int last = 4;
    for (int k = 0; k < s_n; k++) {
        VP_CHECK(s_order[k] < last, "inner actions run before outer ones");
        last = s_order[k];
    }
    for (int i = 0; i < total; i++) {
        bool entered = i <= throwAt;
        VP_CHECK(s_ran[i] == (entered && !(release >> i & 1) ? 1 : 0), "each action runs exactly once unless released");
    }
    if (vp_native() == 0) VP_CHECK(vp_live_heap() == heap, "nothing is left behind");
    vp_reach(thrown ? "thrown" : "normal");
}
// actions of every kind of callable; an empty callable is allowed and does nothing
static int s_fn;
static void fn() { s_fn++; }
VP_HARNESS(callables, 1) {
    vp_expect("end");
    s_fn = 0;
    int32_t add = vp::any<int32_t>("amount");
    int32_t sum = 0;
    {
        ScopeGuard a(fn);
        std::function<void()> f = [&sum, add] { sum += add; };
        ScopeGuard b(f);
        ScopeGuard c(std::function<void()>{});
        char big[64];
        vp_make(big, 64, "captured");
        ScopeGuard d([big, &sum] { sum += big[63] - big[63]; });
        VP_CHECK(sum == 0 && s_fn == 0, "nothing runs before the end of the scope");
        VP_CHECK((bool)f, "the original callable is kept");
    }
    VP_CHECK(sum == add && s_fn == 1, "each runs once");
    vp_reach("end");
}
