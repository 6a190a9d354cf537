// C10: short and long variable-length fields decode to the stored bytes.
// vp-bounds: slot at every offset 0..9 (thorough 0..12), short values of 0..7 bytes, long values of 0..9 (thorough 0..12) bytes at every relative offset, base offsets 0..2; segment sizes 1, 3, 4, 7, 8 and whole; arbitrary contents
#include "segs.h"
#include "paimon/common/data/binary_section.h"
using namespace paimon;
static const size_t kSeg[] = {64, 1, 3, 4, 7, 8};
VP_HARNESS(short_fields, 6) {
    vp_expect("end");
    size_t off = vp::choose(vp_tier() ? 13 : 10, "field offset");
    size_t len = vp::choose(8, "length");
    auto data = vp::any_bytes(7, "slot");
    data.push_back((char)(0x80 | len));
    auto p = vp::place(data, kSeg[vp_shard()], off, "surroundings");
    int64_t slot = 0;
    memcpy(&slot, data.data(), 8);
    int32_t base = vp::any<int32_t>("base offset");
    auto r = BinarySection::ReadBinary(p.segs, base, (int32_t)off, slot, vp::pool().get());
    VP_CHECK(r->size() == len && vp::same(r->data(), data.data(), len), "short field is taken from the slot");
    vp_reach("end");
}
VP_HARNESS(long_fields, 6) {
    vp_expect("end");
    size_t base = vp::choose(3, "base offset");
    size_t sub = vp::choose(vp_tier() ? 13 : 10, "stored offset");
    size_t len = vp::choose(vp_tier() ? 13 : 10, "length");
    auto data = vp::any_bytes(len, "payload");
    auto p = vp::place(data, kSeg[vp_shard()], base + sub, "surroundings");
    int64_t slot = (int64_t)((uint64_t)sub << 32 | len);
    int32_t field = vp::any<int32_t>("field offset");
    auto r = BinarySection::ReadBinary(p.segs, (int32_t)base, field, slot, vp::pool().get());
    VP_CHECK(r->size() == len && vp::same(r->data(), data.data(), len), "long field is taken from the stored offset and length");
    vp_reach("end");
}
