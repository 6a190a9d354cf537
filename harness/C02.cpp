// C02: typed reads and writes never succeed on missing bytes or I/O errors.
// vp-bounds: streams delivering arbitrary bytes, arbitrary 64-bit positions and lengths, where each call may fail or deliver any smaller number of bytes; files of 0..9 bytes; every typed read; raw and string sizes 0..4 (string lengths 0..6, 300, 32767, 32768, 65535)
// vp-bounds: writes of every type, buffers and strings of 0..4 bytes and strings of 65535, 65536 and 70000 bytes; any write call failing or being short by any amount
// vp-stubs: nondeterministic input stream (any position/length/bytes, any call failing or short), nondeterministic sink
#include "env.h"
#include "paimon/common/io/data_output_stream.h"
#include "paimon/io/data_input_stream.h"
using namespace paimon;

// a stream about which nothing is known but that it never delivers more than asked
class AnyStream : public InputStream {
 public:
    Status Seek(int64_t, SeekOrigin) override { return Status::OK(); }
    Result<int64_t> GetPos() const override {
        if (vp::any_bool("pos fails")) { failed = true; return Status::IOError("pos"); }
        return vp::range<int64_t>(0, INT64_MAX, "pos");
    }
    Result<int32_t> Read(char* b, uint32_t n) override {
        if (vp::any_bool("read fails")) { failed = true; return Status::IOError("read"); }
        uint32_t m = (uint32_t)vp_concretize(n);
        uint32_t k = 0;
        if (m > 8) {  // long strings: concrete content, all, one less or nothing delivered
            k = m - (uint32_t)vp::choose(3, "missing");
            if (k == m - 2) k = 0;
            memset(b, 'z', k);
        } else if (m) {
            k = (uint32_t)vp::choose(m + 1, "delivered");
            if (k) vp_make(b, k, "data");
        }
        if (prefixOrder >= 0 && got.empty() && k == 2) {
            unsigned v = prefixOrder == 1 ? (uint8_t)b[0] | (uint8_t)b[1] << 8 : (uint8_t)b[1] | (uint8_t)b[0] << 8;
            VP_ASSUME(v <= 6 || v == 300 || v == 32767 || v == 32768 || v == 65535);
        }
        got.insert(got.end(), b, b + k);
        if (k < m) isShort = true;
        return (int32_t)k;
    }
    Result<int32_t> Read(char* b, uint32_t n, uint64_t) override { return Read(b, n); }
    void ReadAsync(char*, uint32_t, uint64_t, std::function<void(Status)>&& cb) override { cb(Status::IOError("async")); }
    Result<std::string> GetUri() const override { return std::string("any"); }
    Result<uint64_t> Length() const override {
        if (vp::any_bool("length fails")) { failed = true; return Status::IOError("length"); }
        return vp::range<uint64_t>(0, INT64_MAX, "length");
    }
    Status Close() override { return Status::OK(); }
    mutable bool failed = false;
    bool isShort = false;
    int prefixOrder = -1;
    std::vector<char> got;
};
template <class T>
static void typed(DataInputStream& in, AnyStream& s, bool little) {
    auto r = in.ReadValue<T>();
    if (!r.ok()) {
        vp_reach("read refused");
        return;
    }
    VP_CHECK(!s.failed && !s.isShort, "a value is returned only if nothing failed or was short");
    VP_CHECK(s.got.size() == sizeof(T), "a value is made of exactly its bytes");
    uint64_t v = 0;
    for (size_t i = 0; i < sizeof(T); i++) v |= (uint64_t)(uint8_t)s.got[i] << (8 * (little ? i : sizeof(T) - 1 - i));
    uint64_t w = 0;
    T x = r.value();
    memcpy(&w, &x, sizeof(T));
    VP_CHECK(v == w, "the value is made of the delivered bytes");
    vp_reach("read ok");
}
VP_HARNESS(any_stream, 9) {
    vp_expect("read refused");
    vp_expect("read ok");
    auto s = std::make_shared<AnyStream>();
    DataInputStream in(s);
    bool little = vp::choose(2, "little") == 1;
    in.SetOrder(little ? ByteOrder::PAIMON_LITTLE_ENDIAN : ByteOrder::PAIMON_BIG_ENDIAN);
    switch (vp_shard()) {
        case 0: typed<int8_t>(in, *s, little); break;
        case 1: typed<char>(in, *s, little); break;
        case 2: typed<int16_t>(in, *s, little); break;
        case 3: typed<uint16_t>(in, *s, little); break;
        case 4: typed<int32_t>(in, *s, little); break;
        case 5: typed<int64_t>(in, *s, little); break;
        case 6:
        case 7: {
            size_t n = vp::choose(5, "n");
            Bytes b(n, vp::pool().get());
            Status st = vp_shard() == 6 ? in.ReadBytes(&b) : in.Read(b.data(), (uint32_t)n);
            if (st.ok()) {
                VP_CHECK(!s->failed && !s->isShort && s->got.size() == n, "bytes are returned only if all were delivered");
                VP_CHECK(vp::same(b.data(), s->got.data(), n), "the bytes are those delivered");
            }
            break;
        }
        case 8: {
            s->prefixOrder = little;
            auto r = in.ReadString();
            if (r.ok()) {
                VP_CHECK(!s->failed && !s->isShort, "a string is returned only if nothing failed or was short");
                size_t n = little ? (uint8_t)s->got[0] | (uint8_t)s->got[1] << 8 : (uint8_t)s->got[1] | (uint8_t)s->got[0] << 8;
                VP_CHECK(s->got.size() == 2 + n && r.value().size() == n, "a string has exactly the announced length");
                VP_CHECK(vp::same(r.value().data(), s->got.data() + 2, r.value().size()), "the string is made of the delivered bytes");
            }
            break;
        }
    }
}
// a real file of n bytes: success exactly when the bytes exist
VP_HARNESS(file_end, 20) {
    vp_expect("ok");
    vp_expect("end of file");
    size_t n = vp_shard() % 10;
    auto c = vp::any_bytes(n, "content");
    auto f = std::make_shared<vp::MemFile>(c, vp_shard() / 10 == 1);
    DataInputStream in(f);
    size_t start = vp::choose(n + 1, "start");
    VP_CHECK(in.Seek(start).ok(), "seek inside");
    size_t left = n - start;
    size_t need = 0;
    bool ok = false;
    switch (vp::choose(9, "op")) {
        case 0: ok = in.ReadValue<bool>().ok(); need = 1; break;
        case 1: ok = in.ReadValue<char>().ok(); need = 1; break;
        case 2: ok = in.ReadValue<int16_t>().ok(); need = 2; break;
        case 3: ok = in.ReadValue<uint16_t>().ok(); need = 2; break;
        case 4: ok = in.ReadValue<int32_t>().ok(); need = 4; break;
        case 5: ok = in.ReadValue<int64_t>().ok(); need = 8; break;
        case 6: ok = in.ReadValue<float>().ok(); need = 4; break;
        case 7: {
            uint32_t size = vp::any<uint32_t>("size");
            VP_ASSUME(size <= INT32_MAX);
            std::vector<char> b(n + 1);
            ok = in.Read(b.data(), size).ok();
            need = size;
            break;
        }
        case 8: {
            auto r = in.ReadString();
            ok = r.ok();
            need = 2;
            if (left >= 2) need += ((uint8_t)c[start] << 8) + (uint8_t)c[start + 1];
            if (ok) VP_CHECK(vp::same(r.value().data(), c.data() + start + 2, r.value().size()), "string content");
            break;
        }
    }
    VP_CHECK(ok == (need <= left), "a read succeeds exactly when all its bytes exist");
    if (ok) {
        VP_CHECK((uint64_t)in.GetPos().value() == start + need, "position advances by the bytes of the value");
        vp_reach("ok");
    } else
        vp_reach("end of file");
}

class AnySink : public OutputStream {
 public:
    Result<int32_t> Write(const char* b, uint32_t n) override {
        calls++;
        if (vp::any_bool("write fails")) { failed = true; return Status::IOError("write"); }
        uint32_t k = n;
        if (vp::any_bool("short write")) {
            k = vp::any<uint32_t>("accepted");
            VP_ASSUME(k < n);
            failed = true;
            return (int32_t)k;
        }
        got.insert(got.end(), b, b + n);
        return (int32_t)n;
    }
    Status Flush() override { return Status::OK(); }
    Result<int64_t> GetPos() const override { return (int64_t)got.size(); }
    Result<std::string> GetUri() const override { return std::string("sink"); }
    Status Close() override { return Status::OK(); }
    bool failed = false;
    int calls = 0;
    std::vector<char> got;
};
VP_HARNESS(writes, 11) {
    vp_expect("write ok");
    vp_expect("write refused");
    auto s = std::make_shared<AnySink>();
    DataOutputStream out(s);
    Status st;
    size_t need = 0;
    bool representable = true;
    switch (vp_shard()) {
        case 0: st = out.WriteValue<bool>(vp::any_bool("v")); need = 1; break;
        case 1: st = out.WriteValue<char>(vp::any<char>("v")); need = 1; break;
        case 2: st = out.WriteValue<int16_t>(vp::any<int16_t>("v")); need = 2; break;
        case 3: st = out.WriteValue<uint16_t>(vp::any<uint16_t>("v")); need = 2; break;
        case 4: st = out.WriteValue<int32_t>(vp::any<int32_t>("v")); need = 4; break;
        case 5: st = out.WriteValue<int64_t>(vp::any<int64_t>("v")); need = 8; break;
        case 6: need = vp::choose(5, "n"); st = out.WriteBytes(vp::bytes_of(vp::any_bytes(need, "b"))); break;
        case 7: {
            size_t n = vp::choose(5, "n");
            st = out.WriteString(vp::any_string(n, "s"));
            need = n + 2;
            break;
        }
        default: {
            size_t n = vp_shard() == 8 ? 65535 : vp_shard() == 9 ? 65536 : 70000;
            st = out.WriteString(std::string(n, 'x'));
            need = n + 2;
            representable = n <= 65535;
        }
    }
    VP_CHECK(st.ok() == (!s->failed && representable), "a write succeeds exactly when the sink accepted every byte");
    if (st.ok()) {
        VP_CHECK(s->got.size() == need, "all bytes were written");
        vp_reach("write ok");
    } else
        vp_reach("write refused");
}
