// C07: equality, search and hash over segmented memory depend only on the bytes.
// vp-bounds: equality of ranges of 0..6 and 9 (thorough 0..17) bytes at offsets 0..2, every pair of segment sizes out of 1,2,3,5,8 and whole; search of 0..3 bytes in 0..5 (thorough 7) bytes; hashes of 0..9 (thorough 17) bytes
#include "segs.h"
using namespace paimon;
static size_t segSize(const char* name) {
    static const size_t s[] = {64, 1, 2, 3, 5, 8};
    return s[vp::choose(vp_tier() ? 6 : 5, name)];
}
VP_HARNESS(equals, 11) {
    vp_expect("equal");
    vp_expect("different");
    static const size_t lens[] = {0, 1, 2, 3, 4, 5, 6, 9, 8, 13, 17};
    size_t len = lens[vp_shard()];
    if (vp_shard() > 7 && !vp_tier()) return;
    size_t s1 = segSize("seg1"), s2 = segSize("seg2");
    auto a = vp::any_bytes(len, "a"), b = vp::any_bytes(len, "b");
    auto p = vp::place(a, s1, vp::choose(3, "off1"), "around a");
    auto q = vp::place(b, s2, vp::choose(vp_tier() ? 3 : 2, "off2"), "around b");
    bool r = MemorySegmentUtils::Equals(p.segs, p.off, q.segs, q.off, (int32_t)len);
    bool m = MemorySegmentUtils::EqualsMultiSegments(p.segs, p.off, q.segs, q.off, (int32_t)len);
    bool ref = vp::same(a.data(), b.data(), len);
    VP_CHECK(r == ref, "equality is byte equality");
    VP_CHECK(m == ref, "multi-segment equality is byte equality");
    if (r) vp_reach("equal");
    else vp_reach("different");
}
VP_HARNESS(find, 8) {
    vp_expect("found");
    vp_expect("not found");
    size_t n1 = vp_shard(), n2 = vp::choose(4, "needle length");
    if (n1 > (vp_tier() ? 7u : 5u)) return;
    size_t s1 = segSize("seg1"), s2 = segSize("seg2");
    auto a = vp::any_bytes(n1, "haystack"), b = vp::any_bytes(n2, "needle");
    auto p = vp::place(a, s1, vp::choose(3, "off1"), "around haystack");
    auto q = vp::place(b, s2, vp::choose(2, "off2"), "around needle");
    int32_t r = MemorySegmentUtils::Find(p.segs, p.off, (int32_t)n1, q.segs, q.off, (int32_t)n2);
    if (r == -1) {
        for (size_t i = 0; i + n2 <= n1; i++) VP_CHECK(!vp::same(a.data() + i, b.data(), n2), "not found only if absent");
        vp_reach("not found");
        return;
    }
    int32_t rel = r - p.off;
    VP_CHECK(rel >= 0 && rel + (int64_t)n2 <= (int64_t)n1, "found position lies in the searched range");
    VP_CHECK(vp::same(a.data() + rel, b.data(), n2), "found position matches");
    for (int32_t i = 0; i < rel; i++) VP_CHECK(!vp::same(a.data() + i, b.data(), n2), "the first match is found");
    vp_reach("found");
}
VP_HARNESS(hash, 18) {
    vp_expect("end");
    size_t n = vp_shard();
    if (n > (vp_tier() ? 17u : 9u)) return;
    size_t s1 = segSize("seg");
    auto a = vp::any_bytes(n, "a");
    auto p = vp::place(a, s1, vp::choose(4, "off"), "around");
    int32_t h = MemorySegmentUtils::Hash(p.segs, p.off, (int32_t)n, vp::pool().get());
    VP_CHECK((uint32_t)h == vp::murmur(a.data(), n), "hash depends on the bytes only");
    if (n % 4 == 0) {
        int32_t w = MemorySegmentUtils::HashByWords(p.segs, p.off, (int32_t)n, vp::pool().get());
        VP_CHECK((uint32_t)w == vp::murmur(a.data(), n), "hash by words depends on the bytes only");
    }
    vp_reach("end");
}
