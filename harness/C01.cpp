// C01: typed values and strings survive a write/read round trip with fixed wire order.
// vp-bounds: every sequence of 2 (thorough 3) writes over all supported types (all values), byte buffers and strings of 0..3 arbitrary bytes, both byte orders chosen per write, both writers, segment sizes 1..9
// vp-bounds: strings of 127, 128, 255, 256, 300, 32766 and 32767 bytes with arbitrary first and last bytes; segment sizes 1, 5, 64 (thorough also 65536)
#include "env.h"
#include "paimon/common/io/data_output_stream.h"
#include "paimon/common/io/memory_segment_output_stream.h"
#include "paimon/common/memory/memory_segment_utils.h"
#include "paimon/io/byte_array_input_stream.h"
#include "paimon/io/data_input_stream.h"
using namespace paimon;

struct Writer {
    virtual ~Writer() = default;
    virtual void order(ByteOrder o) = 0;
    virtual void put(bool v) = 0;
    virtual void put(char v) = 0;
    virtual void put(int16_t v) = 0;
    virtual void put(uint16_t v) = 0;
    virtual void put(int32_t v) = 0;
    virtual void put(int64_t v) = 0;
    virtual void bytes(const std::vector<char>& v) = 0;
    virtual void raw(const std::vector<char>& v) = 0;
    virtual void str(const std::string& s) = 0;
    virtual int64_t size() = 0;
    virtual std::vector<char> content() = 0;
};
struct StreamWriter : Writer {
    std::shared_ptr<vp::MemSink> sink = std::make_shared<vp::MemSink>();
    DataOutputStream out{sink};
    void order(ByteOrder o) override { out.SetOrder(o); }
    void ok(Status s) { VP_CHECK(s.ok(), "write to a working sink succeeds"); }
    void put(bool v) override { ok(out.WriteValue<bool>(v)); }
    void put(char v) override { ok(out.WriteValue<char>(v)); }
    void put(int16_t v) override { ok(out.WriteValue<int16_t>(v)); }
    void put(uint16_t v) override { ok(out.WriteValue<uint16_t>(v)); }
    void put(int32_t v) override { ok(out.WriteValue<int32_t>(v)); }
    void put(int64_t v) override { ok(out.WriteValue<int64_t>(v)); }
    void bytes(const std::vector<char>& v) override { ok(out.WriteBytes(vp::bytes_of(v))); }
    void raw(const std::vector<char>& v) override { ok(out.WriteBytes(vp::bytes_of(v))); }
    void str(const std::string& s) override { ok(out.WriteString(s)); }
    int64_t size() override { return sink->data.size(); }
    std::vector<char> content() override { return sink->data; }
};
struct SegmentWriter : Writer {
    int32_t seg;
    MemorySegmentOutputStream out;
    explicit SegmentWriter(int32_t n) : seg(n), out(n, vp::pool()) {}
    void order(ByteOrder o) override { out.SetOrder(o); }
    void put(bool v) override { out.WriteValue<bool>(v); }
    void put(char v) override { out.WriteValue<char>(v); }
    void put(int16_t v) override { out.WriteValue<int16_t>(v); }
    void put(uint16_t v) override { out.WriteValue<uint16_t>(v); }
    void put(int32_t v) override { out.WriteValue<int32_t>(v); }
    void put(int64_t v) override { out.WriteValue<int64_t>(v); }
    void bytes(const std::vector<char>& v) override { out.WriteBytes(vp::bytes_of(v)); }
    void raw(const std::vector<char>& v) override { out.Write(v.data(), (uint32_t)v.size()); }
    void str(const std::string& s) override { out.WriteString(s); }
    int64_t size() override { return out.CurrentSize(); }
    std::vector<char> content() override {
        std::vector<char> r;
        int64_t left = out.CurrentSize();
        for (auto& s : out.Segments()) {
            VP_CHECK(s.Size() == seg, "segments have the configured size");
            for (int32_t i = 0; i < s.Size() && left > 0; i++, left--) r.push_back(s.Get(i));
        }
        VP_CHECK(left == 0, "the segments hold all bytes");
        return r;
    }
};

struct Item {
    int kind;
    bool little;
    uint64_t v = 0;
    std::vector<char> b;
};
static int width(int kind) { return kind <= 1 ? 1 : kind <= 3 ? 2 : kind == 4 ? 4 : 8; }

static void check(Writer& w, const std::vector<Item>& items) {
    std::vector<char> wire;
    for (auto& it : items) {
        w.order(it.little ? ByteOrder::PAIMON_LITTLE_ENDIAN : ByteOrder::PAIMON_BIG_ENDIAN);
        auto emit = [&](uint64_t v, int n) {
            for (int i = 0; i < n; i++) wire.push_back((char)(v >> (8 * (it.little ? i : n - 1 - i))));
        };
        switch (it.kind) {
            case 0: w.put((bool)it.v); break;
            case 1: w.put((char)it.v); break;
            case 2: w.put((int16_t)it.v); break;
            case 3: w.put((uint16_t)it.v); break;
            case 4: w.put((int32_t)it.v); break;
            case 5: w.put((int64_t)it.v); break;
            case 6: w.bytes(it.b); break;
            case 7: w.raw(it.b); break;
            case 8: w.str(std::string(it.b.begin(), it.b.end())); break;
        }
        if (it.kind <= 5) emit(it.v, width(it.kind));
        if (it.kind == 8) emit(it.b.size(), 2);
        if (it.kind >= 6) wire.insert(wire.end(), it.b.begin(), it.b.end());
        VP_CHECK(w.size() == (int64_t)wire.size(), "size counts the bytes written");
    }
    std::vector<char> got = w.content();
    VP_CHECK(got.size() == wire.size(), "wire length");
    VP_CHECK(vp::same(got.data(), wire.data(), wire.size()), "wire bytes are in the selected order");
    char d = 0;
    DataInputStream in(std::make_shared<ByteArrayInputStream>(got.empty() ? &d : got.data(), got.size()));
    for (auto& it : items) {
        in.SetOrder(it.little ? ByteOrder::PAIMON_LITTLE_ENDIAN : ByteOrder::PAIMON_BIG_ENDIAN);
        auto val = [&](auto tag) {
            using T = decltype(tag);
            auto r = in.ReadValue<T>();
            VP_CHECK(r.ok(), "reading back succeeds");
            VP_CHECK(r.value() == (T)it.v, "value reads back");
        };
        switch (it.kind) {
            case 0: val(bool()); break;
            case 1:
                if (it.little) val(int8_t());
                else val(char());
                break;
            case 2: val(int16_t()); break;
            case 3: val(uint16_t()); break;
            case 4: val(int32_t()); break;
            case 5: val(int64_t()); break;
            case 6: {
                Bytes b(it.b.size(), vp::pool().get());
                VP_CHECK(in.ReadBytes(&b).ok(), "reading bytes back succeeds");
                VP_CHECK(vp::same(b.data(), it.b.data(), it.b.size()), "bytes read back");
                break;
            }
            case 7: {
                std::vector<char> b(it.b.size() + 1, 0x33);
                VP_CHECK(in.Read(b.data(), (uint32_t)it.b.size()).ok(), "reading raw bytes back succeeds");
                VP_CHECK(vp::same(b.data(), it.b.data(), it.b.size()) && b[it.b.size()] == 0x33, "raw bytes read back");
                break;
            }
            case 8: {
                auto r = in.ReadString();
                VP_CHECK(r.ok(), "reading a string back succeeds");
                VP_CHECK(r.value().size() == it.b.size() && vp::same(r.value().data(), it.b.data(), it.b.size()), "string reads back");
                break;
            }
        }
    }
    VP_CHECK(in.GetPos().ok() && in.GetPos().value() == (int64_t)wire.size(), "everything was consumed");
    VP_CHECK(!in.ReadValue<char>().ok(), "nothing follows");
}

VP_HARNESS(sequences, 10) {
    vp_expect("end");
    std::vector<Item> items;
    int K = vp_tier() ? 3 : 2;
    for (int k = 0; k < K; k++) {
        Item it;
        it.kind = (int)vp::choose(9, "kind");
        it.little = vp::choose(2, "little") == 1;
        if (it.kind == 0) it.v = vp::any_bool("bool") ? 1 : 0;
        else if (it.kind <= 5) {
            uint64_t v = 0;
            vp_make(&v, width(it.kind), "value");
            it.v = v;
        } else
            it.b = vp::any_bytes(vp::choose(vp_tier() ? 3 : 4, "length"), "bytes");
        items.push_back(it);
    }
    if (vp_shard() == 0) {
        StreamWriter w;
        check(w, items);
    } else {
        SegmentWriter w(vp_shard());
        check(w, items);
    }
    vp_reach("end");
}
VP_HARNESS(long_strings, 5) {
    vp_expect("end");
    static const int lens[] = {127, 128, 255, 256, 300, 32766, 32767};
    int n = lens[vp::choose(7, "length")];
    std::vector<Item> items(2);
    items[0].kind = (int)vp::choose(2, "kind") ? 8 : 7;
    items[0].little = vp::choose(2, "little") == 1;
    items[0].b.assign(n, 0x41);
    items[0].b[0] = vp::any<char>("first");
    items[0].b[n - 1] = vp::any<char>("last");
    items[1].kind = 4;
    items[1].little = items[0].little;
    items[1].v = vp::any<uint32_t>("after");
    static const int segs[] = {0, 64, 5, 1, 65536};
    int s = segs[vp_shard()];
    if (s == 65536 && !vp_tier()) return;
    if (s == 1 && n > 1000) return;
    if (s == 0) {
        StreamWriter w;
        check(w, items);
    } else {
        SegmentWriter w(s);
        check(w, items);
    }
    vp_reach("end");
}
