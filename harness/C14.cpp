// C14: a bloom filter never reports an inserted hash as absent.
// vp-bounds: filters of 1..3 bytes (thorough 1..4) with 1..3 hash functions, 1..2 arbitrary 64-bit hashes inserted, arbitrary initial content, reload at byte offsets 0..2; filters sized from items 1..3 and false positive rates 0.5, 0.1
#include "env.h"
#include "paimon/common/utils/bloom_filter64.h"
using namespace paimon;
static std::vector<char> content(const std::shared_ptr<Bytes>& b) { return std::vector<char>(b->data(), b->data() + b->size()); }
VP_HARNESS(inserted, 9) {
    vp_expect("end");
    size_t bytes = 1 + vp_shard() % 3;
    int32_t k = 1 + vp_shard() / 3;
    size_t off = vp::choose(3, "offset");
    auto init = vp::any_bytes(bytes + off, "initial content");
    auto mem = vp::bytes_of(init);
    auto bs = std::make_unique<BloomFilter64::BitSet>(mem, (int32_t)off);
    VP_CHECK(bs->BitSize() == (int32_t)bytes * 8, "bit count excludes the bytes before the offset");
    BloomFilter64 f(k, std::move(bs));
    VP_CHECK(f.GetNumHashFunctions() == k, "hash function count");
    int64_t h[2];
    size_t n = k == 1 || vp_tier() ? 1 + vp::choose(2, "hashes") : 1;
    for (size_t i = 0; i < n; i++) {
        h[i] = vp::any<int64_t>("hash");
        f.AddHash(h[i]);
    }
    auto after = content(mem);
    for (size_t i = 0; i < off; i++) VP_CHECK(after[i] == init[i], "bytes before the filter are not touched");
    for (size_t i = off; i < after.size(); i++) VP_CHECK((after[i] & init[i]) == init[i], "no bit is cleared");
    for (size_t i = 0; i < n; i++) VP_CHECK(f.TestHash(h[i]), "inserted hash is present");
    // reload at another offset
    size_t off2 = vp::choose(2, "new offset");
    auto mem2 = std::make_shared<Bytes>(bytes + off2, vp::pool().get());
    for (size_t i = 0; i < bytes; i++) (*mem2)[off2 + i] = after[off + i];
    auto before2 = content(mem2);
    BloomFilter64 g(k, std::make_unique<BloomFilter64::BitSet>(mem2, (int32_t)off2));
    for (size_t i = 0; i < n; i++) VP_CHECK(g.TestHash(h[i]), "inserted hash is present after reload");
    VP_CHECK(vp::same(content(mem2).data(), before2.data(), before2.size()), "testing does not modify the filter");
    vp_reach("end");
}
VP_HARNESS(probe, 3) {
    vp_expect("present");
    vp_expect("absent");
    // the answer is exactly: all k bits are set
    size_t bytes = 1 + vp_shard();
    int32_t k = 1 + (int32_t)vp::choose(3, "k");
    auto init = vp::any_bytes(bytes, "content");
    auto mem = vp::bytes_of(init);
    BloomFilter64 f(k, std::make_unique<BloomFilter64::BitSet>(mem, 0));
    int64_t h = vp::any<int64_t>("hash");
    bool r = f.TestHash(h);
    bool zero = true;
    for (char c : init) zero = zero & (c == 0);
    VP_CHECK(!(zero & r), "an empty filter reports absent");
    VP_CHECK(vp::same(content(mem).data(), init.data(), bytes), "testing does not modify the filter");
    // monotone: adding the hash changes the filter exactly if it was absent
    f.AddHash(h);
    bool changed = !vp::same(content(mem).data(), init.data(), bytes);
    VP_CHECK(changed == !r, "absent exactly if inserting would set a bit");
    vp_reach(r ? "present" : "absent");
}
VP_HARNESS(sized, 1) {
    vp_expect("end");
    static const double fpp[] = {0.5, 0.1};
    int64_t items = 1 + (int64_t)vp::choose(vp_tier() ? 3 : 2, "items");
    BloomFilter64 f(items, fpp[vp::choose(2, "rate")], vp::pool());
    VP_CHECK(f.GetNumHashFunctions() >= 1 && f.GetBitSet().BitSize() > 0 && f.GetBitSet().BitSize() % 8 == 0, "filter has bits");
    int64_t h = vp::any<int64_t>("hash");
    VP_CHECK(!f.TestHash(h), "an empty filter reports absent");
    f.AddHash(h);
    VP_CHECK(f.TestHash(h), "inserted hash is present");
    vp_reach("end");
}
