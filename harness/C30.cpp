// C30: serialized global-index answers reload to the same answer.
// vp-bounds: lazy, range-built and scored answers of up to 2 (thorough 3) arbitrary row ids, any score patterns; every truncation of the bytes; every other version number; foreign answers
// vp-bounds: range-built answers start at ids where the representation changes (0, 2^16, 2^32, 2^63-2)
// vp-bounds: 0..3 rows with any stored number of scores and 0..4 scores present
// vp-assume: row ids are in [0, 2^63-1]; an empty scored answer reloads as an empty answer of either kind (the format does not tell them apart)
#include "gidx.h"
#include "paimon/common/utils/math.h"
using namespace gi;
static Result<std::shared_ptr<GlobalIndexResult>> load(const std::vector<char>& b) { return GlobalIndexResult::Deserialize(b.data(), b.size(), vp::pool()); }
VP_HARNESS(round_trip, 3) {
    vp_expect("end");
    Val a = make(vp_shard(), vp_tier() ? 3 : 2, INT64_MAX);
    auto s = GlobalIndexResult::Serialize(a.r, vp::pool());
    VP_CHECK(s.ok(), "serialization succeeds");
    std::vector<char> b(s.value()->data(), s.value()->data() + s.value()->size());
    auto r = load(b);
    VP_CHECK(r.ok(), "own bytes are readable");
    holds(r.value(), a.ids);
    bool plain = std::dynamic_pointer_cast<BitmapGlobalIndexResult>(r.value()) != nullptr;
    if (!a.scored) VP_CHECK(plain, "plain answers stay plain");
    else if (!a.ids.empty()) carries(r.value(), a.ids, a.scores);
    holds(a.r, a.ids);
    // shape of the encoding: version, length of the bitmap, bitmap, number of scores, scores (big endian)
    VP_CHECK(b.size() >= 12 && b[0] == 0 && b[1] == 0 && b[2] == 0 && b[3] == 1, "version comes first");
    uint32_t len = (uint8_t)b[4] << 24 | (uint8_t)b[5] << 16 | (uint8_t)b[6] << 8 | (uint8_t)b[7];
    VP_CHECK(b.size() == 12 + len + 4 * (a.scored ? a.ids.size() : 0), "length of the encoding");
    // decoded answers serialize to the same bytes
    auto s2 = GlobalIndexResult::Serialize(r.value(), vp::pool());
    VP_CHECK(s2.ok() && s2.value()->size() == b.size() && memcmp(s2.value()->data(), b.data(), b.size()) == 0, "encoding is stable");
    vp_reach("end");
}
VP_HARNESS(truncated, 3) {
    vp_expect("end");
    Val a = make(vp_shard(), 1, INT64_MAX);
    auto s = GlobalIndexResult::Serialize(a.r, vp::pool());
    VP_CHECK(s.ok(), "serialization succeeds");
    size_t n = s.value()->size();
    size_t cut = vp::choose(n, "cut");
    std::unique_ptr<char[]> b(new char[cut]);  // exactly as long as the bytes given
    memcpy(b.get(), s.value()->data(), cut);
    VP_CHECK(!GlobalIndexResult::Deserialize(b.get(), cut, vp::pool()).ok(), "truncated bytes are refused");
    vp_reach("end");
}
VP_HARNESS(version, 1) {
    vp_expect("end");
    Val a = make(LAZY, 1, INT64_MAX);
    auto s = GlobalIndexResult::Serialize(a.r, vp::pool());
    std::vector<char> b(s.value()->data(), s.value()->data() + s.value()->size());
    std::vector<char> v = vp::any_bytes(4, "version");
    bool same = v[0] == b[0] && v[1] == b[1] && v[2] == b[2] && v[3] == b[3];
    memcpy(b.data(), v.data(), 4);
    VP_CHECK(load(b).ok() == same, "exactly the known version is read");
    vp_reach("end");
}
VP_HARNESS(scores, 4) {
    vp_expect("accepted");
    vp_expect("refused");
    // rows 1..n with any stored number of scores and 0..4 scores actually present
    size_t n = vp_shard(), k = vp::choose(5, "stored scores");
    std::vector<int64_t> ids;
    for (size_t i = 0; i < n; i++) ids.push_back(7 + 3 * (int64_t)i);
    auto s = GlobalIndexResult::Serialize(lazy(ids), vp::pool());
    VP_CHECK(s.ok(), "serialization succeeds");
    size_t m = s.value()->size();
    std::unique_ptr<char[]> b(new char[m + 4 * k]);
    memcpy(b.get(), s.value()->data(), m);
    vp_make(b.get() + m - 4, 4 + 4 * k, "scores");
    uint32_t c = (uint32_t)(uint8_t)b[m - 4] << 24 | (uint8_t)b[m - 3] << 16 | (uint8_t)b[m - 2] << 8 | (uint8_t)b[m - 1];
    auto r = GlobalIndexResult::Deserialize(b.get(), m + 4 * k, vp::pool());
    VP_CHECK(r.ok() == (c == 0 || (c == n && c <= k)), "exactly one score per row, or none, is accepted");
    if (!r.ok()) {
        vp_reach("refused");
        return;
    }
    holds(r.value(), ids);
    if (c != 0) {
        std::vector<float> f;
        for (size_t i = 0; i < n; i++) {
            uint32_t u = (uint32_t)(uint8_t)b[m + 4 * i] << 24 | (uint8_t)b[m + 4 * i + 1] << 16 | (uint8_t)b[m + 4 * i + 2] << 8 | (uint8_t)b[m + 4 * i + 3];
            float x;
            memcpy(&x, &u, 4);
            f.push_back(x);
        }
        carries(r.value(), ids, f);
    }
    vp_reach("accepted");
}
VP_HARNESS(failing, 2) {
    vp_expect("end");
    Val a = make(vp_shard() ? FAILING : FOREIGN, 1, INT64_MAX);
    VP_CHECK(!GlobalIndexResult::Serialize(a.r, vp::pool()).ok(), "an answer that cannot be serialized is an error");
    vp_reach("end");
}
