// C34: deletion-file lists survive encoding in every supported version.
// vp-bounds: lists of 0..2 (thorough 3) entries, each absent or with a path of 0..3 arbitrary bytes, any offset and length, cardinality absent or any value but -1; any 32-bit version; every truncation of the bytes
// vp-assume: a present cardinality is not -1 (the stored marker of an absent one)
#include "env.h"
#include "paimon/common/io/memory_segment_output_stream.h"
#include "paimon/common/memory/memory_segment_utils.h"
#include "paimon/core/table/source/deletion_file.h"
#include "paimon/io/byte_array_input_stream.h"
#include "paimon/io/data_input_stream.h"
using namespace paimon;
using List = std::vector<std::optional<DeletionFile>>;
static std::optional<DeletionFile> entry() {
    if (!vp::choose(2, "present")) return std::nullopt;
    std::string p = vp::any_string(vp::choose(4, "path length"), "path");
    int64_t o = vp::any<int64_t>("offset"), l = vp::any<int64_t>("length"), c = vp::any<int64_t>("cardinality");
    VP_ASSUME(c != -1);
    return DeletionFile(p, o, l, vp::choose(2, "cardinality present") ? std::optional<int64_t>(c) : std::nullopt);
}
static std::vector<char> bytesOf(MemorySegmentOutputStream& out) {
    auto b = MemorySegmentUtils::CopyToBytes(out.Segments(), 0, out.CurrentSize(), vp::pool().get());
    return std::vector<char>(b->data(), b->data() + b->size());
}
static bool same(const DeletionFile& a, const DeletionFile& b, bool card) {
    return a.path == b.path && a.offset == b.offset && a.length == b.length && (card ? a.cardinality == b.cardinality : a.cardinality == std::nullopt);
}
static void equal(const List& got, const List& want, bool card) {
    VP_CHECK(got.size() == want.size(), "same number of entries");
    for (size_t i = 0; i < want.size(); i++) {
        VP_CHECK(got[i].has_value() == want[i].has_value(), "absent entries stay absent");
        if (want[i]) VP_CHECK(same(*got[i], *want[i], card), "entry fields");
    }
}
static List list(size_t n) {
    List l;
    for (size_t i = 0; i < n; i++) l.push_back(entry());
    return l;
}
VP_HARNESS(current, 3) {
    vp_expect("end");
    List l = list(vp_shard() + (vp_tier() ? 1 : 0));
    MemorySegmentOutputStream out(vp::choose(2, "small segments") ? 8 : 64, vp::pool());
    DeletionFile::SerializeList(l, &out);
    out.WriteValue<int32_t>(0x01020304);
    auto b = bytesOf(out);
    auto in = std::make_shared<ByteArrayInputStream>(b.data(), b.size());
    DataInputStream d(in);
    int32_t ver = vp::any<int32_t>("version");
    VP_ASSUME(ver >= 4);
    auto r = DeletionFile::DeserializeList(&d, ver);
    VP_CHECK(r.ok(), "own bytes are readable");
    equal(r.value(), l, true);
    VP_CHECK(d.ReadValue<int32_t>().value() == 0x01020304, "exactly the list is consumed");
    if (!l.empty() && l[0]) {
        DeletionFile c(*l[0]);
        VP_CHECK(c == *l[0] && l[0]->cardinality == c.cardinality, "copies are equal");
    }
    vp_reach("end");
}
VP_HARNESS(older, 3) {
    vp_expect("end");
    // reference writer of the layout without cardinality
    List l = list(vp_shard());
    MemorySegmentOutputStream out(64, vp::pool());
    out.WriteValue<char>(l.empty() ? 0 : 1);
    if (!l.empty()) {
        out.WriteValue<int32_t>((int32_t)l.size());
        for (auto& f : l) {
            out.WriteValue<char>(f ? 1 : 0);
            if (!f) continue;
            out.WriteValue<int16_t>((int16_t)f->path.size());
            for (char ch : f->path) out.WriteValue<char>(ch);
            out.WriteValue<int64_t>(f->offset);
            out.WriteValue<int64_t>(f->length);
        }
    }
    auto b = bytesOf(out);
    auto in = std::make_shared<ByteArrayInputStream>(b.data(), b.size());
    DataInputStream d(in);
    int32_t ver = vp::any<int32_t>("version");
    VP_ASSUME(ver >= 1 && ver <= 3);
    auto r = DeletionFile::DeserializeList(&d, ver);
    VP_CHECK(r.ok(), "older bytes are readable");
    equal(r.value(), l, false);
    VP_CHECK(in->GetPos().value() == (int64_t)b.size(), "exactly the list is consumed");
    vp_reach("end");
}
VP_HARNESS(refused, 2) {
    vp_expect("end");
    List l = list(vp_shard() + 1);
    MemorySegmentOutputStream out(64, vp::pool());
    DeletionFile::SerializeList(l, &out);
    auto b = bytesOf(out);
    if (vp::choose(2, "which")) {
        auto in = std::make_shared<ByteArrayInputStream>(b.data(), b.size());
        DataInputStream d(in);
        int32_t ver = vp::any<int32_t>("version");
        VP_ASSUME(ver < 1);
        VP_CHECK(!DeletionFile::DeserializeList(&d, ver).ok(), "unknown versions are refused");
    } else {
        size_t cut = vp::choose(b.size(), "cut");
        std::unique_ptr<char[]> c(new char[cut + 1]);
        memcpy(c.get(), b.data(), cut);
        auto in = std::make_shared<ByteArrayInputStream>(c.get(), cut);
        DataInputStream d(in);
        VP_CHECK(!DeletionFile::DeserializeList(&d, 4).ok(), "truncated bytes are refused");
    }
    vp_reach("end");
}
VP_HARNESS(comparison, 1) {
    vp_expect("equal");
    vp_expect("different");
    auto a = entry(), b = entry();
    if (!a || !b) return;
    bool e = a->path == b->path && a->offset == b->offset && a->length == b->length && a->cardinality.has_value() == b->cardinality.has_value() &&
             (!a->cardinality || *a->cardinality == *b->cardinality);
    VP_CHECK((*a == *b) == e && (*b == *a) == e, "equality is equality of the fields");
    vp_reach(e ? "equal" : "different");
}
