// C03: in-memory byte stream behaves like a bounded read-only file.
// vp-bounds: arrays of 0..3 (thorough 0..5) arbitrary bytes; every history of 2 (thorough 3) operations out of seek (any origin incl. invalid), sequential read, positional read, async read; all 64-bit offsets, all 32-bit sizes
#include "env.h"
#include "paimon/io/byte_array_input_stream.h"
using namespace paimon;

VP_HARNESS(history, 24) {
    vp_expect("read ok");
    vp_expect("read refused");
    vp_expect("seek ok");
    vp_expect("seek refused");
    vp_expect("pread ok");
    vp_expect("pread refused");
    size_t n = vp_shard() % 6;
    int first = vp_shard() / 6;
    if (n > (vp_tier() ? 5u : 3u)) return;
    std::vector<char> c = vp::any_bytes(n, "content");
    char dummy = 0;
    ByteArrayInputStream in(n ? c.data() : &dummy, n);
    int64_t pos = 0;
    int K = vp_tier() ? 3 : 2;
    for (int k = 0; k < K; k++) {
        std::vector<char> out(n + 1, 0x5a);
        int op = k == 0 ? first : (int)vp::choose(4, "op");
        if (op == 0) {
            int64_t off = vp::any<int64_t>("seek offset");
            int origin = (int)vp::choose(4, "origin");
            Status s = in.Seek(off, static_cast<SeekOrigin>(origin));
            __int128 t = origin == 0 ? (__int128)off : origin == 1 ? (__int128)pos + off : (__int128)(int64_t)n + off;
            bool valid = origin <= 2 && t >= 0 && t <= (int64_t)n;
            VP_CHECK(s.ok() == valid, "seek succeeds exactly inside the array");
            if (valid) {
                pos = (int64_t)t;
                vp_reach("seek ok");
            } else
                vp_reach("seek refused");
        } else if (op == 1) {
            uint32_t size = vp::any<uint32_t>("size");
            auto r = in.Read(out.data(), size);
            bool valid = size <= n - (uint64_t)pos;
            VP_CHECK(r.ok() == valid, "read succeeds exactly when all bytes exist");
            if (valid) {
                VP_CHECK(r.value() == (int32_t)size, "read returns the requested count");
                size_t sz = vp_concretize(size);
                size_t p = vp_concretize(pos);
                VP_CHECK(vp::same(out.data(), c.data() + p, sz), "read returns the bytes at the position");
                VP_CHECK(out[sz] == 0x5a, "read writes nothing beyond the count");
                pos += sz;
                vp_reach("read ok");
            } else {
                for (char ch : out) VP_CHECK(ch == 0x5a, "refused read transfers nothing");
                vp_reach("read refused");
            }
        } else {
            uint32_t size = vp::any<uint32_t>("size");
            uint64_t off = vp::any<uint64_t>("offset");
            bool ok;
            if (op == 2) {
                auto r = in.Read(out.data(), size, off);
                ok = r.ok();
                if (ok) VP_CHECK(r.value() == (int32_t)size, "pread returns the requested count");
            } else {
                int called = 0;
                Status st;
                in.ReadAsync(out.data(), size, off, [&](Status s) { called++; st = s; });
                VP_CHECK(called == 1, "callback is called once");
                ok = st.ok();
            }
            bool valid = off <= n && size <= n - off;
            VP_CHECK(ok == valid, "pread succeeds exactly when all bytes exist");
            if (valid) {
                size_t sz = vp_concretize(size);
                size_t p = vp_concretize(off);
                VP_CHECK(vp::same(out.data(), c.data() + p, sz), "pread returns the bytes at the offset");
                VP_CHECK(out[sz] == 0x5a, "pread writes nothing beyond the count");
                vp_reach("pread ok");
            } else {
                for (char ch : out) VP_CHECK(ch == 0x5a, "refused pread transfers nothing");
                vp_reach("pread refused");
            }
        }
        VP_CHECK(in.GetPos().ok() && in.GetPos().value() == pos, "position is exact");
        VP_CHECK(in.Length().ok() && in.Length().value() == n, "length is exact");
        VP_CHECK(in.GetRawData() == (n ? c.data() : &dummy) + pos, "raw pointer is at the position");
    }
}
