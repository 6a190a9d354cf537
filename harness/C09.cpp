// C09: binary strings have one total order, consistent with equality and hash.
// vp-bounds: every pair of byte strings of 0..4 (thorough 0..6) bytes, every pair of segment sizes 1, 2, 3, 5 and whole, start offsets 0..2 (so strings may begin behind the first segment)
#include "segs.h"
#include "paimon/common/data/binary_string.h"
using namespace paimon;
VP_HARNESS(compare, 25) {
    vp_expect("less");
    vp_expect("equal");
    vp_expect("greater");
    static const size_t segs[] = {64, 1, 2, 3, 5};
    size_t mx = vp_tier() ? 7 : 5;
    size_t n = vp::choose(mx, "n"), m = vp::choose(mx, "m");
    auto a = vp::any_bytes(n, "a"), b = vp::any_bytes(m, "b");
    auto p = vp::place(a, segs[vp_shard() % 5], vp::choose(3, "off1"), "around a");
    auto q = vp::place(b, segs[vp_shard() / 5], vp::choose(3, "off2"), "around b");
    auto s = BinaryString::FromAddress(p.segs, p.off, (int32_t)n);
    auto t = BinaryString::FromAddress(q.segs, q.off, (int32_t)m);
    int32_t r = s.CompareTo(t);
    int ref = 0;
    for (size_t i = 0; i < n && i < m && ref == 0; i++)
        if (a[i] != b[i]) ref = (uint8_t)a[i] < (uint8_t)b[i] ? -1 : 1;
    if (ref == 0) ref = n < m ? -1 : n > m ? 1 : 0;
    VP_CHECK((r < 0) == (ref < 0) && (r > 0) == (ref > 0), "order is the unsigned lexicographic order");
    int32_t back = t.CompareTo(s);
    VP_CHECK((back < 0) == (ref > 0) && (back > 0) == (ref < 0), "order is antisymmetric");
    VP_CHECK((s == t) == (ref == 0), "equality is byte equality");
    VP_CHECK((s < t) == (ref < 0), "less-than is the order");
    VP_CHECK((static_cast<const BinarySection&>(s) == static_cast<const BinarySection&>(t)) == (ref == 0), "section equality is byte equality");
    if (n == m) VP_CHECK((s.CompareMultiSegments(t) == 0) == (ref == 0), "multi-segment comparison agrees");
    if (ref == 0) {
        vp_reach("equal");
    } else
        vp_reach(ref < 0 ? "less" : "greater");
    VP_CHECK(s.CompareTo(s) == 0 && s == s, "a string equals itself");
}
VP_HARNESS(hash, 25) {
    vp_expect("end");
    static const size_t segs[] = {64, 1, 2, 3, 5};
    size_t n = vp::choose(vp_tier() ? 13 : 10, "n");
    auto a = vp::any_bytes(n, "a");
    auto p = vp::place(a, segs[vp_shard() % 5], vp::choose(3, "off1"), "around a");
    auto q = vp::place(a, segs[vp_shard() / 5], vp::choose(3, "off2"), "around b");
    auto s = BinaryString::FromAddress(p.segs, p.off, (int32_t)n);
    auto t = BinaryString::FromAddress(q.segs, q.off, (int32_t)n);
    VP_CHECK(s == t && s.CompareTo(t) == 0 && !(s < t), "strings of equal bytes are equal");
    VP_CHECK(s.HashCode() == t.HashCode(), "equal strings have equal hashes");
    VP_CHECK(s.Copy(vp::pool().get()).HashCode() == s.HashCode(), "a copy has the same hash");
    vp_reach("end");
}
