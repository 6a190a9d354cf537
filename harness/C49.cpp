// C49: segment order, comparison and swap act on exactly the given ranges.
// vp-bounds: ranges of 0..9 (thorough 0..17) arbitrary bytes at offsets 0..2, pairs of different lengths up to 4 (thorough 9)
#include "segs.h"
using namespace paimon;
static int sgn(int32_t x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }
VP_HARNESS(compare, 18) {
    vp_expect("equal");
    vp_expect("different");
    size_t n = vp_shard();
    if (n > (vp_tier() ? 17u : 9u)) return;
    auto a = vp::any_bytes(n, "a"), b = vp::any_bytes(n, "b");
    auto p = vp::place(a, 32, vp::choose(3, "off1"), "around a"), q = vp::place(b, 32, vp::choose(3, "off2"), "around b");
    const auto &s = p.segs[0], &t = q.segs[0];
    int32_t r = s.Compare(t, p.off, q.off, (int32_t)n);
    bool ref = vp::same(a.data(), b.data(), n);
    VP_CHECK((r == 0) == ref, "zero exactly for equal ranges");
    VP_CHECK(sgn(t.Compare(s, q.off, p.off, (int32_t)n)) == -sgn(r), "order is antisymmetric");
    VP_CHECK(s.EqualTo(t, p.off, q.off, (int32_t)n) == ref, "equality is byte equality");
    if (n < 8) {
        int o = 0;
        for (size_t i = 0; i < n && o == 0; i++)
            if (a[i] != b[i]) o = (uint8_t)a[i] < (uint8_t)b[i] ? -1 : 1;
        VP_CHECK(sgn(r) == o, "short ranges are ordered lexicographically");
    }
    vp_reach(ref ? "equal" : "different");
}
VP_HARNESS(compare_lengths, 1) {
    vp_expect("end");
    size_t mx = vp_tier() ? 10 : 5;
    size_t n = vp::choose(mx, "n"), m = vp::choose(mx, "m");
    auto a = vp::any_bytes(n, "a"), b = vp::any_bytes(m, "b");
    auto p = vp::place(a, 32, 1, "around a"), q = vp::place(b, 32, 0, "around b");
    int32_t r = p.segs[0].Compare(q.segs[0], p.off, q.off, (int32_t)n, (int32_t)m);
    int32_t back = q.segs[0].Compare(p.segs[0], q.off, p.off, (int32_t)m, (int32_t)n);
    size_t k = n < m ? n : m;
    bool pre = vp::same(a.data(), b.data(), k);
    VP_CHECK((r == 0) == (pre && n == m), "zero exactly for equal ranges");
    VP_CHECK(sgn(r) == -sgn(back), "order is antisymmetric");
    if (pre) VP_CHECK(sgn(r) == (n < m ? -1 : n > m ? 1 : 0), "a proper prefix is smaller");
    vp_reach("end");
}
// transitivity of the order on triples
VP_HARNESS(transitive, 2) {
    vp_expect("end");
    size_t n = vp_shard() == 0 ? 3 : 9;
    MemorySegment s[3];
    for (auto& x : s) x = MemorySegment::Wrap(vp::bytes_of(vp::any_bytes(n, "range")));
    int32_t ab = s[0].Compare(s[1], 0, 0, (int32_t)n), bc = s[1].Compare(s[2], 0, 0, (int32_t)n), ac = s[0].Compare(s[2], 0, 0, (int32_t)n);
    if (ab <= 0 && bc <= 0) {
        VP_CHECK(ac <= 0, "order is transitive");
        vp_reach("end");
    }
}
VP_HARNESS(swap_and_copy, 3) {
    vp_expect("end");
    size_t n = 6;
    auto a = vp::any_bytes(n, "a"), b = vp::any_bytes(n + 1, "b");
    auto s = MemorySegment::Wrap(vp::bytes_of(a)), t = MemorySegment::Wrap(vp::bytes_of(b));
    size_t o1 = vp::choose(n + 1, "off1"), o2 = vp::choose(n + 2, "off2");
    size_t mx = n - o1 < n + 1 - o2 ? n - o1 : n + 1 - o2;
    size_t len = vp::choose(mx + 1, "length");
    if (vp_shard() == 0) {
        Bytes tmp(len + vp::choose(2, "spare"), vp::pool().get());
        s.SwapBytes(&tmp, &t, (int32_t)o1, (int32_t)o2, (int32_t)len);
        for (size_t i = 0; i < len; i++) std::swap(a[o1 + i], b[o2 + i]);
    } else if (vp_shard() == 1) {
        s.CopyTo((int32_t)o1, &t, (int32_t)o2, (int32_t)len);
        for (size_t i = 0; i < len; i++) b[o2 + i] = a[o1 + i];
    } else {
        auto out = vp::any_bytes(o2 + len + 1, "old");
        auto ref = out;
        s.CopyToUnsafe((int32_t)o1, out.data(), (int32_t)o2, (int32_t)len);
        for (size_t i = 0; i < len; i++) ref[o2 + i] = a[o1 + i];
        VP_CHECK(vp::same(out.data(), ref.data(), ref.size()), "raw copy moves exactly the given bytes");
        Bytes d(len, vp::pool().get());
        s.Get((int32_t)o1, &d);
        VP_CHECK(vp::same(d.data(), a.data() + o1, len), "get copies the range");
        t.Put((int32_t)o2, d);
        for (size_t i = 0; i < len; i++) b[o2 + i] = a[o1 + i];
    }
    auto g = vp::glue({s}), h = vp::glue({t});
    VP_CHECK(vp::same(g.data(), a.data(), n), "first segment as expected");
    VP_CHECK(vp::same(h.data(), b.data(), n + 1), "second segment as expected");
    vp_reach("end");
}
