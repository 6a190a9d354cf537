// C08: binary-string operations equal the same operations on the plain UTF-8 string.
// vp-bounds: every valid UTF-8 string of 0..3 (thorough 0..4) characters of 1..4 bytes, search strings of 0..2 characters, segment sizes 1, 2, 3, 5 and whole, start offsets 0..1 (thorough also 4); all 32-bit non-negative substring bounds, all 32-bit search starts
// vp-assume: strings are valid UTF-8; C locale
#include "segs.h"
#include "paimon/common/data/binary_string.h"
using namespace paimon;

struct Utf8 {
    std::vector<char> bytes;
    std::vector<size_t> start;  // start of each character, and the end
};
static Utf8 utf8(size_t chars, const char* name, size_t maxLen = 4) {
    Utf8 u;
    for (size_t i = 0; i < chars; i++) {
        u.start.push_back(u.bytes.size());
        size_t k = 1 + vp::choose(maxLen, "character length");
        auto c = vp::any_bytes(k, name);
        uint8_t b0 = (uint8_t)c[0], b1 = k > 1 ? (uint8_t)c[1] : 0;
        if (k == 1) VP_ASSUME(b0 < 0x80);
        if (k == 2) VP_ASSUME((b0 >= 0xc2) & (b0 <= 0xdf));
        if (k == 3) VP_ASSUME((b0 >= 0xe0) & (b0 <= 0xef) & ((b0 != 0xe0) | (b1 >= 0xa0)) & ((b0 != 0xed) | (b1 <= 0x9f)));
        if (k == 4) VP_ASSUME((b0 >= 0xf0) & (b0 <= 0xf4) & ((b0 != 0xf0) | (b1 >= 0x90)) & ((b0 != 0xf4) | (b1 <= 0x8f)));
        for (size_t j = 1; j < k; j++) VP_ASSUME(((uint8_t)c[j] & 0xc0) == 0x80);
        u.bytes.insert(u.bytes.end(), c.begin(), c.end());
    }
    u.start.push_back(u.bytes.size());
    return u;
}
static const size_t kSeg[] = {64, 1, 2, 3, 5};
static vp::Placed lay(const Utf8& u, size_t seg, bool other) {
    size_t off = vp::choose(vp_tier() && !other ? 3 : 2, "offset");
    return vp::place(u.bytes, seg, off == 2 ? 4 : off, "surroundings");
}
static bool eq(const BinaryString& s, const char* p, size_t n) {
    std::string t = s.ToString();
    return t.size() == n && (size_t)s.GetSizeInBytes() == n && vp::same(t.data(), p, n);
}
static size_t chars(size_t quick, size_t thorough) { return vp::choose((vp_tier() ? thorough : quick) + 1, "characters"); }

VP_HARNESS(basics, 5) {
    vp_expect("end");
    Utf8 u = utf8(chars(3, 4), "text");
    auto p = lay(u, kSeg[vp_shard()], false);
    auto s = BinaryString::FromAddress(p.segs, p.off, (int32_t)u.bytes.size());
    VP_CHECK(s.NumChars() == (int32_t)u.start.size() - 1, "character count");
    VP_CHECK(eq(s, u.bytes.data(), u.bytes.size()), "text");
    auto c = s.Copy(vp::pool().get());
    VP_CHECK(eq(c, u.bytes.data(), u.bytes.size()), "copy");
    VP_CHECK(c.NumChars() == (int32_t)u.start.size() - 1, "character count of the copy");
    for (size_t i = 0; i < u.bytes.size(); i++) VP_CHECK(s.ByteAt((int32_t)i) == u.bytes[i], "byte at index");
    auto f = BinaryString::FromString(std::string(u.bytes.begin(), u.bytes.end()), vp::pool().get());
    VP_CHECK(eq(f, u.bytes.data(), u.bytes.size()), "from string");
    auto g = BinaryString::FromBytes(vp::bytes_of(u.bytes));
    VP_CHECK(eq(g, u.bytes.data(), u.bytes.size()), "from bytes");
    vp_reach("end");
}
VP_HARNESS(substring, 5) {
    vp_expect("empty");
    vp_expect("part");
    Utf8 u = utf8(chars(3, 4), "text");
    auto p = lay(u, kSeg[vp_shard()], false);
    auto s = BinaryString::FromAddress(p.segs, p.off, (int32_t)u.bytes.size());
    size_t n = u.start.size() - 1;
    int32_t b = vp::any<int32_t>("begin"), e = vp::any<int32_t>("end");
    VP_ASSUME(b >= 0);
    auto r = s.Substring(b, e, vp::pool().get());
    // every case of the reference
    size_t rb = (uint32_t)b > n ? n : vp_concretize((uint32_t)b);
    size_t re = e < 0 ? 0 : (uint32_t)e > n ? n : vp_concretize((uint32_t)e);
    if (rb >= re) {
        VP_CHECK(r.GetSizeInBytes() == 0, "empty substring");
        vp_reach("empty");
    } else {
        VP_CHECK(eq(r, u.bytes.data() + u.start[rb], u.start[re] - u.start[rb]), "substring holds the characters begin..end");
        vp_reach("part");
    }
}
VP_HARNESS(search, 25) {
    vp_expect("found");
    vp_expect("not found");
    size_t ml = vp_tier() ? 4 : 3;
    Utf8 u = utf8(chars(3, 3), "text", ml), v = utf8(vp::choose(3, "needle characters"), "needle", ml);
    auto p = lay(u, kSeg[vp_shard() % 5], false);
    auto q = lay(v, kSeg[vp_shard() / 5], true);
    auto s = BinaryString::FromAddress(p.segs, p.off, (int32_t)u.bytes.size());
    auto t = BinaryString::FromAddress(q.segs, q.off, (int32_t)v.bytes.size());
    size_t n = u.start.size() - 1, un = u.bytes.size(), vn = v.bytes.size();
    switch (vp::choose(4, "operation")) {
        case 0: {
            bool ref = false;
            for (size_t i = 0; i + vn <= un; i++) ref = ref | vp::same(u.bytes.data() + i, v.bytes.data(), vn);
            bool r = s.Contains(t);
            VP_CHECK(r == ref, "contains");
            break;
        }
        case 1: {
            bool ref = vn <= un && vp::same(u.bytes.data(), v.bytes.data(), vn);
            VP_CHECK(s.StartsWith(t) == ref, "starts with");
            break;
        }
        case 2: {
            bool ref = vn <= un && vp::same(u.bytes.data() + (un - vn), v.bytes.data(), vn);
            VP_CHECK(s.EndsWith(t) == ref, "ends with");
            break;
        }
        case 3: {
            int32_t from = vp::any<int32_t>("from");
            int32_t r = s.IndexOf(t, from);
            if (vn == 0) {
                VP_CHECK(r == 0, "empty string is found at 0");
                break;
            }
            if (r == -1) {
                for (size_t i = 0; i < n; i++)
                    if (u.start[i] + vn <= un)
                        VP_CHECK(((int32_t)i < from) | !vp::same(u.bytes.data() + u.start[i], v.bytes.data(), vn), "not found only if absent");
                vp_reach("not found");
            } else {
                VP_CHECK(r >= 0 && r < (int32_t)n && r >= from, "found at a character from the start index on");
                VP_CHECK(u.start[r] + vn <= un && vp::same(u.bytes.data() + u.start[r], v.bytes.data(), vn), "found position matches");
                for (int32_t i = 0; i < r; i++)
                    if (u.start[i] + vn <= un)
                        VP_CHECK((i < from) | !vp::same(u.bytes.data() + u.start[i], v.bytes.data(), vn), "first match is found");
                vp_reach("found");
            }
            break;
        }
    }
}
VP_HARNESS(letter_case, 5) {
    vp_expect("end");
    Utf8 u = utf8(chars(3, 3), "text");
    auto p = lay(u, kSeg[vp_shard()], false);
    auto s = BinaryString::FromAddress(p.segs, p.off, (int32_t)u.bytes.size());
    auto up = u.bytes, lo = u.bytes;
    for (auto& c : up) c = (char)(c - ((c >= 'a') & (c <= 'z')) * 32);
    for (auto& c : lo) c = (char)(c + ((c >= 'A') & (c <= 'Z')) * 32);
    if (vp::choose(2, "upper")) VP_CHECK(eq(s.ToUpperCase(vp::pool().get()), up.data(), up.size()), "upper case");
    else VP_CHECK(eq(s.ToLowerCase(vp::pool().get()), lo.data(), lo.size()), "lower case");
    vp_reach("end");
}
