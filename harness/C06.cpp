// C06: values and bits in segmented memory read back exactly, whatever the segmentation.
// vp-bounds: arrays of about 11 (thorough 18) arbitrary bytes cut into segments of 1..6 (1..9) bytes or kept whole; all offsets; all value types and values; copies of every length
#include "segs.h"
#include "paimon/common/io/memory_segment_output_stream.h"
using namespace paimon;

static size_t pickSize() {
    size_t k = vp::choose(vp_tier() ? 10 : 7, "segment size");
    return k == 0 ? 0 : k;
}
struct Arr {
    std::vector<char> flat;
    std::vector<MemorySegment> segs;
};
static Arr make(size_t n) {
    size_t k = pickSize();
    Arr a;
    if (k == 0) k = n;
    a.flat = vp::any_bytes(vp::roundUp(n, k), "content");
    a.segs = vp::cut(a.flat, k);
    return a;
}
static void same(const Arr& a, const char* msg) {
    auto g = vp::glue(a.segs);
    VP_CHECK(g.size() == a.flat.size() && vp::same(g.data(), a.flat.data(), g.size()), msg);
}
template <class T>
static void values() {
    size_t n = vp_tier() ? 18 : 11;
    Arr a = make(n);
    size_t off = vp::choose(a.flat.size() - sizeof(T) + 1, "offset");
    unsigned char raw[sizeof(T)];
    T got = MemorySegmentUtils::GetValue<T>(a.segs, (int32_t)off);
    if (std::is_same<T, bool>::value) {
        VP_CHECK((bool)got == (a.flat[off] != 0), "boolean read");
    } else {
        memcpy(raw, &got, sizeof(T));
        VP_CHECK(vp::same((char*)raw, a.flat.data() + off, sizeof(T)), "value read equals the flat bytes");
    }
    same(a, "reading changes nothing");
    T v;
    if (std::is_same<T, bool>::value) v = (T)vp::any_bool("value");
    else vp_make(&v, sizeof(T), "value");
    MemorySegmentUtils::SetValue<T>(&a.segs, (int32_t)off, v);
    memcpy(a.flat.data() + off, &v, sizeof(T));
    same(a, "writing changes exactly the addressed bytes");
    T back = MemorySegmentUtils::GetValue<T>(a.segs, (int32_t)off);
    VP_CHECK(memcmp(&back, &v, sizeof(T)) == 0, "value reads back");
    vp_reach("end");
}
VP_HARNESS(values, 7) {
    vp_expect("end");
    switch (vp_shard()) {
        case 0: values<bool>(); break;
        case 1: values<char>(); break;
        case 2: values<int16_t>(); break;
        case 3: values<int32_t>(); break;
        case 4: values<int64_t>(); break;
        case 5: values<float>(); break;
        case 6: values<double>(); break;
    }
}
VP_HARNESS(bits, 2) {
    vp_expect("end");
    size_t n = vp_tier() ? 8 : 5;
    Arr a = make(n);
    size_t total = a.flat.size();
    size_t base = vp::choose(total, "base");
    size_t idx = vp::choose((total - base) * 8, "index");
    size_t byte = base + idx / 8;
    int mask = 1 << (idx % 8);
    if (vp_shard() == 0) {
        VP_CHECK(MemorySegmentUtils::BitGet(a.segs, (int32_t)base, (int32_t)idx) == ((a.flat[byte] & mask) != 0), "bit read");
        same(a, "reading a bit changes nothing");
        if (vp::choose(2, "set")) {
            MemorySegmentUtils::BitSet(&a.segs, (int32_t)base, (int32_t)idx);
            a.flat[byte] = (char)(a.flat[byte] | mask);
        } else {
            MemorySegmentUtils::BitUnSet(&a.segs, (int32_t)base, (int32_t)idx);
            a.flat[byte] = (char)(a.flat[byte] & ~mask);
        }
        same(a, "exactly one bit changes");
    } else {
        MemorySegment one = MemorySegment::Wrap(vp::bytes_of(a.flat));
        std::vector<MemorySegment> v{one};
        VP_CHECK(MemorySegmentUtils::BitGet(one, (int32_t)base, (int32_t)idx) == ((a.flat[byte] & mask) != 0), "bit read");
        if (vp::choose(2, "set")) {
            MemorySegmentUtils::BitSet(&one, (int32_t)base, (int32_t)idx);
            a.flat[byte] = (char)(a.flat[byte] | mask);
        } else {
            MemorySegmentUtils::BitUnSet(&one, (int32_t)base, (int32_t)idx);
            a.flat[byte] = (char)(a.flat[byte] & ~mask);
        }
        auto g = vp::glue(v);
        VP_CHECK(vp::same(g.data(), a.flat.data(), g.size()), "exactly one bit changes");
    }
    vp_reach("end");
}
VP_HARNESS(copies, 6) {
    vp_expect("end");
    size_t n = vp_tier() ? 12 : 7;
    Arr a = make(n);
    size_t total = a.flat.size();
    size_t off = vp::choose(total + 1, "offset");
    size_t len = vp::choose(total - off + 1, "length");
    switch (vp_shard()) {
        case 0: {  // from bytes
            size_t boff = vp::choose(3, "bytes offset");
            auto src = vp::any_bytes(boff + len + 1, "source");
            MemorySegmentUtils::CopyFromBytes(&a.segs, (int32_t)off, *vp::bytes_of(src), (int32_t)boff, (int32_t)len);
            for (size_t i = 0; i < len; i++) a.flat[off + i] = src[boff + i];
            break;
        }
        case 1: {  // to new bytes
            auto b = MemorySegmentUtils::CopyToBytes(a.segs, (int32_t)off, (int32_t)len, vp::pool().get());
            VP_CHECK(b->size() == len && vp::same(b->data(), a.flat.data() + off, len), "copied bytes");
            break;
        }
        case 2: {  // into existing bytes and string
            size_t boff = vp::choose(3, "bytes offset");
            auto old = vp::any_bytes(boff + len + 2, "old");
            auto b = vp::bytes_of(old);
            std::string str(old.begin(), old.end());
            MemorySegmentUtils::CopyToBytes(a.segs, (int32_t)off, b.get(), (int32_t)boff, (int32_t)len);
            MemorySegmentUtils::CopyToBytes(a.segs, (int32_t)off, &str, (int32_t)boff, (int32_t)len);
            for (size_t i = 0; i < len; i++) old[boff + i] = a.flat[off + i];
            VP_CHECK(vp::same(b->data(), old.data(), old.size()), "copied into bytes");
            VP_CHECK(vp::same(str.data(), old.data(), old.size()), "copied into string");
            break;
        }
        case 3: {
            auto old = vp::any_bytes(len + 1, "old");
            std::vector<char> t = old;
            MemorySegmentUtils::CopyToUnsafe(a.segs, (int32_t)off, t.data(), (int32_t)len);
            VP_CHECK(vp::same(t.data(), a.flat.data() + off, len) && t[len] == old[len], "copied to raw memory");
            break;
        }
        case 4: {
            auto b = MemorySegmentUtils::GetBytes(a.segs, (int32_t)off, (int32_t)len, vp::pool().get());
            VP_CHECK(b->size() == len && vp::same(b->data(), a.flat.data() + off, len), "bytes obtained");
            break;
        }
        case 5: {
            MemorySegmentOutputStream out((int32_t)(1 + vp::choose(vp_tier() ? 5 : 3, "out segment")), vp::pool());
            Status st = MemorySegmentUtils::CopyToStream(a.segs, (int32_t)off, (int32_t)len, &out);
            VP_CHECK(st.ok() && out.CurrentSize() == (int64_t)len, "stream copy succeeds");
            auto g = vp::glue(out.Segments());
            VP_CHECK(vp::same(g.data(), a.flat.data() + off, len), "stream copy holds the bytes");
            break;
        }
    }
    same(a, "copying changes exactly the target bytes");
    vp_reach("end");
}
