// C16: decoders of stored metadata answer arbitrary bytes with a value or an error.
// vp-bounds: blob descriptors of 0..26 arbitrary bytes; index results of 0..24 bytes (bitmap part up to 12), bit-sliced indexes of 17+0..14 bytes, delta-varint sequences of 0..4 (thorough 11) bytes, deletion-file lists of 0..32 bytes and any version, 32-bit bitmaps of 0..16 bytes, 64-bit bitmaps of 8..36 bytes; memory proportional to the input means below 1 MiB here
#include "env.h"
#include "paimon/common/data/blob_descriptor.h"
#include "paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.h"
#include "paimon/common/utils/delta_varint_compressor.h"
#include "paimon/core/table/source/deletion_file.h"
#include "paimon/global_index/global_index_result.h"
#include "paimon/io/byte_array_input_stream.h"
#include "paimon/io/data_input_stream.h"
#include "paimon/utils/roaring_bitmap32.h"
#include "paimon/utils/roaring_bitmap64.h"
using namespace paimon;
// exactly n readable bytes
struct Buf {
    explicit Buf(size_t n) : n(n), p(new char[n]) {
        if (n) vp_make(p.get(), n, "bytes");
        vp_alloc_limit(1 << 20);
    }
    size_t n;
    std::unique_ptr<char[]> p;
};
template <class F>
static void guarded(F f) {
    bool ok = false;
    try {
        ok = f();
    } catch (...) {
        VP_CHECK(false, "decoding throws");
    }
    vp_reach(ok ? "value" : "error");
}
VP_HARNESS(blob, 9) {
    vp_expect("value");
    vp_expect("error");
    Buf b(vp_shard() * 3 + (vp_tier() ? vp::choose(3, "n") : 2));
    guarded([&] { return BlobDescriptor::Deserialize(b.p.get(), b.n).ok(); });
}
VP_HARNESS(index_result, 10) {
    vp_expect("value");
    vp_expect("error");
    static const int sizes[] = {0, 3, 4, 7, 8, 12, 16, 20, 22, 24};
    Buf b(sizes[vp_shard()]);
    guarded([&] { return GlobalIndexResult::Deserialize(b.p.get(), b.n, vp::pool()).ok(); });
}
VP_HARNESS(bit_sliced, 10) {
    vp_expect("value");
    vp_expect("error");
    static const int sizes[] = {0, 1, 16, 17, 21, 25, 29, 32, 33, 37};
    Buf b(sizes[vp_shard()]);
    guarded([&] {
        auto in = std::make_shared<ByteArrayInputStream>(b.p.get(), b.n);
        return BitSliceIndexRoaringBitmap::Create(in).ok();
    });
}
VP_HARNESS(varint, 12) {
    vp_expect("value");
    vp_expect("error");
    if (vp_shard() > 4 && !vp_tier()) return;
    Buf b(vp_shard());
    std::vector<char> v(b.p.get(), b.p.get() + b.n);
    guarded([&] { return DeltaVarintCompressor::Decompress(v).ok(); });
}
VP_HARNESS(deletion_list, 9) {
    vp_expect("value");
    vp_expect("error");
    Buf b(vp_shard() * 4);
    int32_t ver = vp::any<int32_t>("version");
    guarded([&] {
        auto in = std::make_shared<ByteArrayInputStream>(b.p.get(), b.n);
        DataInputStream d(in);
        return DeletionFile::DeserializeList(&d, ver).ok();
    });
}
VP_HARNESS(bitmap32, 9) {
    vp_expect("value");
    vp_expect("error");
    Buf b(vp_shard() * 2);
    bool stream = vp::choose(2, "stream");
    guarded([&] {
        RoaringBitmap32 m;
        if (!stream) return m.Deserialize(b.p.get(), b.n).ok();
        ByteArrayInputStream in(b.p.get(), b.n);
        return m.Deserialize(&in).ok();
    });
}
VP_HARNESS(bitmap64, 8) {
    vp_expect("value");
    vp_expect("error");
    Buf b(vp_shard() * 4 + 8);
    bool stream = vp::choose(2, "stream");
    guarded([&] {
        RoaringBitmap64 m;
        if (!stream) return m.Deserialize(b.p.get(), b.n).ok();
        ByteArrayInputStream in(b.p.get(), b.n);
        return m.Deserialize(&in).ok();
    });
}
