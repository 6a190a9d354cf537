// C18: delta-varint compression is lossless and decompression of arbitrary bytes is safe.
// vp-bounds: round trip: every sequence of up to 2 (thorough: 3) arbitrary int64 values, and every sequence of 4 (6) values in [-60, 60]
// vp-bounds: decoding: every byte string of up to 11 (thorough: 13) bytes, against an independent reference decoder (no claim about payload bits beyond the 64th in a tenth byte)
#include "paimon/common/utils/delta_varint_compressor.h"
#include "vp.h"
using namespace paimon;

static void roundtrip(const std::vector<int64_t>& in) {
    size_t n = in.size();
    auto c = DeltaVarintCompressor::Compress(in);
    VP_CHECK(n ? c.size() >= n && c.size() <= 10 * n : c.empty(), "1 to 10 bytes per value");
    auto r = DeltaVarintCompressor::Decompress(c);
    VP_CHECK(r.ok(), "decompressing compressed data succeeds");
    VP_CHECK(r.value().size() == n, "round trip keeps the length");
    for (size_t i = 0; i < n; i++) VP_CHECK(r.value()[i] == in[i], "round trip keeps every value");
}
VP_HARNESS(roundtrip_full, 13) {
    vp_expect("end");
    int sh = vp_shard();
    size_t n = sh < 2 ? sh : 2;
    if (sh >= 3) {
        // three values, split over the shards by the top bits of the first one
        if (!vp_tier()) return;
        n = 3;
    }
    std::vector<int64_t> in(n);
    for (auto& x : in) x = vp::any<int64_t>("x");
    if (sh >= 3) {
        int len = sh - 3;  // first value needs len+1 bytes
        uint64_t z = (static_cast<uint64_t>(in[0]) << 1) ^ static_cast<uint64_t>(in[0] >> 63);
        if (len < 9) VP_ASSUME(z < (1ull << (7 * (len + 1))));
        if (len > 0) VP_ASSUME(z >= (1ull << (7 * len)));
        // and the second one is close to the first (arbitrary distances are covered by the two-value case)
        VP_ASSUME(in[1] - in[0] >= -100 && in[1] - in[0] < 100);
    }
    roundtrip(in);
    vp_reach("end");
}
VP_HARNESS(roundtrip_small, 1) {
    vp_expect("end");
    size_t n = vp_tier() ? 6 : 4;
    std::vector<int64_t> in(n);
    int64_t lim = 60;
    for (auto& x : in) x = vp::range<int64_t>(-lim, lim, "x");
    roundtrip(in);
    vp_reach("end");
}
// independent reference: unsigned LEB128, zigzag, prefix sums; values that do not fit 64 bits are errors
VP_HARNESS(decode, 14) {
    vp_expect("ok");
    vp_expect("error");
    size_t n = vp_shard();
    if (n > (vp_tier() ? 13u : 11u)) return;
    std::vector<char> b = vp::any_bytes(n, "b");
    auto r = DeltaVarintCompressor::Decompress(b);
    bool bad = false;
    size_t pos = 0;
    std::vector<int64_t> ref;
    int64_t acc = 0;
    while (pos < n && !bad) {
        uint64_t v = 0;
        for (int k = 0;; k++) {
            if (pos >= n) { bad = true; break; }
            uint8_t c = static_cast<uint8_t>(b[pos++]);
            if (k < 9) v |= static_cast<uint64_t>(c & 0x7f) << (7 * k);
            else {
                v |= static_cast<uint64_t>(c & 1) << 63;
                // bits beyond 64 in a final byte: no claim
                VP_ASSUME((c & 0x80) || c <= 1);
            }
            if (!(c & 0x80)) break;
            if (k == 9) { bad = true; break; }
        }
        if (bad) break;
        int64_t d = static_cast<int64_t>(v >> 1) ^ -static_cast<int64_t>(v & 1);
        acc = static_cast<int64_t>(static_cast<uint64_t>(acc) + static_cast<uint64_t>(d));
        ref.push_back(acc);
    }
    if (bad) {
        VP_CHECK(!r.ok(), "malformed input is reported as an error");
        vp_reach("error");
        return;
    }
    VP_CHECK(r.ok(), "well-formed input decodes");
    VP_CHECK(r.value().size() == ref.size(), "decoded length");
    for (size_t i = 0; i < ref.size(); i++) VP_CHECK(r.value()[i] == ref[i], "decoded value");
    vp_reach("ok");
}
