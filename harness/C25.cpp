// C25: bitmaps survive serialization.
// vp-bounds: sets of up to 2 (thorough 3) arbitrary ids, or one id of a window next to a run, dense or several-container shape (up to 5 containers); stream decoding at offsets 0..2 with 0..2 bytes behind; any probe id (near the shape for stored shapes)
// vp-assume: ids are non-negative
#include "bitmap.h"
#include "paimon/io/byte_array_input_stream.h"
#include "paimon/utils/roaring_bitmap32.h"
#include "paimon/utils/roaring_bitmap64.h"
using namespace paimon;
template <class B, class I>
static void roundTrip(B& b, I q) {
    bool had = b.Contains(q);
    auto card = b.Cardinality();
    auto bytes = b.Serialize(vp::pool().get());
    VP_CHECK(bytes->size() == b.GetSizeInBytes(), "announced size is the size produced");
    VP_CHECK(b.Contains(q) == had && b.Cardinality() == card, "serializing leaves the set alone");
    B c;
    if (vp::choose(2, "reuse")) c.Add(7);
    VP_CHECK(c.Deserialize(bytes->data(), bytes->size()).ok(), "own bytes are readable");
    VP_CHECK(c == b && c.Cardinality() == card && c.Contains(q) == had, "decoded set is equal");
    // through a stream, in the middle of other data
    size_t before = vp::choose(3, "before"), after = vp::choose(3, "after");
    std::vector<char> buf(before + bytes->size() + after, (char)0x5a);
    memcpy(buf.data() + before, bytes->data(), bytes->size());
    ByteArrayInputStream in(buf.data(), buf.size());
    VP_CHECK(in.Seek((int64_t)before, FS_SEEK_SET).ok(), "seek");
    B d;
    VP_CHECK(d.Deserialize(&in).ok(), "own bytes are readable from a stream");
    VP_CHECK(d == b && d.Contains(q) == had, "set decoded from a stream is equal");
    VP_CHECK(in.GetPos().value() == (int64_t)(before + bytes->size()), "exactly the serialized bytes are consumed");
    vp_reach("end");
}
template <class B, class I>
static void run(I far, int shard) {
    B b;
    if (shard < 3) {
        for (int i = 0; i < shard + (vp_tier() ? 1 : 0); i++) {
            I x = vp::any<I>("x");
            VP_ASSUME(x >= 0);
            b.Add(x);
        }
        I q = vp::any<I>("probe");
        VP_ASSUME(q >= 0);
        roundTrip(b, q);
        return;
    }
    bm::T<B, I> t{far, 6};
    typename bm::T<B, I>::Shape s{shard - 2, far - 36};
    if (shard < 6) s.put(b);
    else
        for (int i = 0, n = 2 + (int)vp::choose(4, "containers"); i < n; i++) b.AddRange(far + i * 65536, far + i * 65536 + 1 + i);
    b.Add(t.cid("x"));
    roundTrip(b, t.probe(true));
}
VP_HARNESS(bits32, 7) {
    vp_expect("end");
    run<RoaringBitmap32, int32_t>(65533, vp_shard());
}
VP_HARNESS(bits64, 7) {
    vp_expect("end");
    run<RoaringBitmap64, int64_t>((1ll << 32) - 3, vp_shard());
}
