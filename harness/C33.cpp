// C33: blob descriptors survive encoding and reject other versions.
// vp-bounds: uris of 43..65536 bytes at ten lengths around encoding boundaries with arbitrary first and last two bytes
// vp-bounds: uris of 0..5 (thorough 12) arbitrary bytes, any offset and length (accepted exactly if offset >= 0 and length >= -1), 0..2 trailing bytes; every truncation; every version byte
#include "env.h"
#include "paimon/common/data/blob_descriptor.h"
using namespace paimon;
static int64_t le64(const char* p) {
    uint64_t v = 0;
    for (int i = 7; i >= 0; i--) v = v << 8 | (uint8_t)p[i];
    return (int64_t)v;
}
VP_HARNESS(round_trip, 6) {
    vp_expect("end");
    vp_expect("refused");
    size_t n = vp_tier() ? vp_shard() * 2 + 2 : vp_shard();
    std::string uri = vp::any_string(n, "uri");
    int64_t off = vp::any<int64_t>("offset"), len = vp::any<int64_t>("length");
    auto d = BlobDescriptor::Create(uri, off, len);
    VP_CHECK(d.ok() == (off >= 0 && len >= -1), "exactly sensible placements are accepted");
    if (!d.ok()) {
        vp_reach("refused");
        return;
    }
    VP_CHECK(d.value()->Uri() == uri && d.value()->Offset() == off && d.value()->Length() == len, "descriptor holds what it was given");
    auto b = d.value()->Serialize(vp::pool());
    VP_CHECK(b->size() == n + 21, "length of the encoding");
    const char* p = b->data();
    VP_CHECK(p[0] == 1, "version byte");
    VP_CHECK((uint8_t)p[1] == n && p[2] == 0 && p[3] == 0 && p[4] == 0, "uri length, least significant first");
    VP_CHECK(vp::same(p + 5, uri.data(), n), "uri bytes");
    VP_CHECK(le64(p + 5 + n) == off && le64(p + 13 + n) == len, "offset and length, least significant first");
    size_t extra = vp::choose(3, "extra");
    std::unique_ptr<char[]> buf(new char[n + 21 + extra]);
    memcpy(buf.get(), p, n + 21);
    for (size_t i = 0; i < extra; i++) buf[n + 21 + i] = vp::any<char>("trailing");
    auto r = BlobDescriptor::Deserialize(buf.get(), n + 21 + extra);
    VP_CHECK(r.ok(), "own bytes are readable, trailing bytes are ignored");
    VP_CHECK(r.value()->Uri() == uri && r.value()->Offset() == off && r.value()->Length() == len, "same descriptor");
    vp_reach("end");
}
// long uris: length fields and segment boundaries
VP_HARNESS(long_uri, 10) {
    vp_expect("end");
    static const size_t ns[] = {43, 44, 59, 127, 128, 255, 256, 32767, 32768, 65536};
    size_t n = ns[vp_shard()];
    std::string uri(n, 'u');
    for (size_t i = 0; i < n; i++) uri[i] = (char)('a' + i % 23);
    vp_make(&uri[0], 2, "uri start");
    vp_make(&uri[n - 2], 2, "uri end");
    int64_t off = vp::any<int64_t>("offset"), len = vp::any<int64_t>("length");
    VP_ASSUME(off >= 0 && len >= -1);
    auto b = BlobDescriptor::Create(uri, off, len).value()->Serialize(vp::pool());
    VP_CHECK(b->size() == n + 21, "length of the encoding");
    const uint8_t* p = (const uint8_t*)b->data();
    VP_CHECK(p[0] == 1, "version byte");
    VP_CHECK((p[1] | p[2] << 8 | p[3] << 16 | (size_t)p[4] << 24) == n, "uri length, least significant first");
    auto r = BlobDescriptor::Deserialize(b->data(), b->size());
    VP_CHECK(r.ok(), "own bytes are readable");
    VP_CHECK(r.value()->Uri() == uri && r.value()->Offset() == off && r.value()->Length() == len, "same descriptor");
    vp_reach("end");
}
VP_HARNESS(refused, 4) {
    vp_expect("end");
    size_t n = vp_shard();
    std::string uri = vp::any_string(n, "uri");
    int64_t off = vp::any<int64_t>("offset"), len = vp::any<int64_t>("length");
    VP_ASSUME(off >= 0 && len >= -1);
    auto b = BlobDescriptor::Create(uri, off, len).value()->Serialize(vp::pool());
    size_t cut = vp::choose(n + 21, "cut");
    std::unique_ptr<char[]> buf(new char[cut]);
    memcpy(buf.get(), b->data(), cut);
    VP_CHECK(!BlobDescriptor::Deserialize(buf.get(), cut).ok(), "truncated bytes are refused");
    std::unique_ptr<char[]> buf2(new char[n + 21]);
    memcpy(buf2.get(), b->data(), n + 21);
    char v = vp::any<char>("version");
    buf2[0] = v;
    VP_CHECK(BlobDescriptor::Deserialize(buf2.get(), n + 21).ok() == (v == 1), "exactly the known version is read");
    vp_reach("end");
}
VP_HARNESS(stored_bytes, 3) {
    vp_expect("accepted");
    vp_expect("refused");
    // any bytes after a right header: accepted only with a sensible placement
    size_t n = vp_shard();
    std::unique_ptr<char[]> b(new char[n + 21]);
    vp_make(b.get(), n + 21, "bytes");
    VP_ASSUME(b[0] == 1 && (uint8_t)b[1] == n && b[2] == 0 && b[3] == 0 && b[4] == 0);
    auto r = BlobDescriptor::Deserialize(b.get(), n + 21);
    int64_t off = le64(b.get() + 5 + n), len = le64(b.get() + 13 + n);
    VP_CHECK(r.ok() == (off >= 0 && len >= -1), "exactly sensible placements are accepted");
    if (r.ok()) {
        VP_CHECK(r.value()->Offset() == off && r.value()->Length() == len && r.value()->Uri().size() == n, "decoded fields");
        VP_CHECK(vp::same(r.value()->Uri().data(), b.get() + 5, n), "decoded uri");
        vp_reach("accepted");
    } else
        vp_reach("refused");
}
