// C31: row hashing equals the reference Murmur3 variant and ignores memory layout.
// vp-bounds: every content of 0..9 (thorough 0..21) bytes, start offsets 0..4; every entry point
#include "segs.h"
#include "paimon/common/utils/murmurhash_utils.h"
using namespace paimon;
VP_HARNESS(murmur, 22) {
    vp_expect("end");
    size_t n = vp_shard();
    if (n > (vp_tier() ? 21u : 9u)) return;
    auto a = vp::any_bytes(n, "a");
    size_t off = vp::choose(5, "off");
    auto p = vp::place(a, 64, off, "around");
    uint32_t ref = vp::murmur(a.data(), n);
    VP_CHECK((uint32_t)MurmurHashUtils::HashUnsafeBytes(p.flat.data(), (int64_t)off, (int32_t)n) == ref, "raw memory hash");
    VP_CHECK((uint32_t)MurmurHashUtils::HashBytes(p.segs[0], (int32_t)off, (int32_t)n) == ref, "segment hash");
    VP_CHECK((uint32_t)MurmurHashUtils::HashUnsafeBytes(p.flat.data(), (int64_t)off, (int32_t)n, 42) == ref, "seeded raw memory hash");
    auto b = vp::bytes_of(a);
    VP_CHECK((uint32_t)MurmurHashUtils::HashBytes(b) == ref, "buffer hash");
    VP_CHECK((uint32_t)MurmurHashUtils::HashBytesPositive(b) == (ref & 0x7fffffffu), "positive buffer hash");
    if (n % 4 == 0) {
        VP_CHECK((uint32_t)MurmurHashUtils::HashUnsafeBytesByWords(p.flat.data(), (int64_t)off, (int32_t)n) == ref, "raw word hash");
        VP_CHECK((uint32_t)MurmurHashUtils::HashBytesByWords(p.segs[0], (int32_t)off, (int32_t)n) == ref, "segment word hash");
    }
    vp_reach("end");
}
