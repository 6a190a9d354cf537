// C05: read buffering is invisible.
// vp-bounds: contents of 0..4 arbitrary bytes (faults: 0..3, thorough 0..6), buffer sizes 1..3 (1..5), every history of 3 (thorough 4) operations; all 32-bit read sizes, all 64-bit seek offsets; wrapped stream short at EOF or failing at EOF; any one wrapped call failing; deeper: contents of 7 (thorough 9) arbitrary bytes, buffer sizes 1..4, every history of 5 (thorough 6) satisfiable reads and absolute or relative seeks in which no two seeks follow each other
#include "env.h"
#include "paimon/io/buffered_input_stream.h"
using namespace paimon;

static void run(bool faults) {
    size_t n = vp_shard() % 7;
    bool shortEof = vp_shard() / 7 == 1;
    if (n > (faults ? (vp_tier() ? 6u : 3u) : 4u)) return;
    std::vector<char> c = vp::any_bytes(n, "content");
    auto f = std::make_shared<vp::MemFile>(c, shortEof);
    int32_t bs = 1 + (int)vp::choose(vp_tier() ? 5 : 3, "buffer size");
    BufferedInputStream in(f, bs, vp::pool().get());
    if (faults) f->failAt = (int)vp::choose(8, "fail at");
    int64_t pos = 0;
    bool known = true;  // position known (false after a failed read until the next absolute seek)
    int K = (vp_tier() ? 4 : 3) - (faults ? 1 : 0);
    for (int k = 0; k < K; k++) {
        int op = (int)vp::choose(2, "op");
        int c0 = f->calls;
        if (op == 0) {
            int64_t off = vp::any<int64_t>("seek offset");
            int origin = (int)vp::choose(3, "origin");
            if (!known) VP_ASSUME(origin != 1);
            Status s = in.Seek(off, static_cast<SeekOrigin>(origin));
            bool faulted = f->failAt >= c0 && f->failAt < f->calls;
            __int128 t = origin == 0 ? (__int128)off : origin == 1 ? (__int128)pos + off : (__int128)(int64_t)n + off;
            bool ok = t >= 0 && t <= (int64_t)n;
            if (faulted) {
                VP_CHECK(!s.ok(), "failing seek is reported");
                continue;
            }
            VP_CHECK(s.ok() == ok, "seek agrees with the wrapped stream");
            if (ok) {
                pos = (int64_t)t;
                known = true;
                vp_reach("seek ok");
            } else
                vp_reach("seek refused");
        } else {
            uint32_t size = vp::any<uint32_t>("size");
            std::vector<char> out(n + 1, 0x5a);
            if (!known) return;
            auto r = in.Read(out.data(), size);
            bool faulted = f->failAt >= c0 && f->failAt < f->calls;
            bool ok = size <= n - (uint64_t)pos;
            if (faulted) {
                VP_CHECK(!r.ok(), "failing read is reported");
                vp_reach("read failed");
                known = false;
                continue;
            }
            VP_CHECK(r.ok() == ok, "read succeeds exactly when all bytes exist");
            if (ok) {
                VP_CHECK(r.value() == (int32_t)size, "read returns the requested count");
                size_t sz = vp_concretize(size), p = vp_concretize(pos);
                VP_CHECK(vp::same(out.data(), c.data() + p, sz), "read returns the bytes at the position");
                VP_CHECK(out[sz] == 0x5a, "read writes nothing beyond the count");
                pos += sz;
                vp_reach("read ok");
            } else {
                known = false;
                vp_reach("read refused");
            }
        }
        if (known) {
            c0 = f->calls;
            auto p = in.GetPos();
            bool faulted = f->failAt >= c0 && f->failAt < f->calls;
            VP_CHECK(faulted ? !p.ok() : p.ok() && p.value() == pos, "position is exact");
        }
    }
    char b;
    VP_CHECK(!in.Read(&b, 1, 0).ok(), "positional read is refused, not answered wrongly");
}
VP_HARNESS(history, 14) {
    vp_expect("seek ok");
    vp_expect("seek refused");
    vp_expect("read ok");
    vp_expect("read refused");
    run(false);
}
VP_HARNESS(faults, 14) {
    vp_expect("read failed");
    vp_expect("read ok");
    run(true);
}

// longer histories of requests that can be satisfied: sizes and targets are case-split, contents stay symbolic
VP_HARNESS(deep, 16) {
    vp_expect("end");
    const int n = vp_tier() ? 9 : 7, K = vp_tier() ? 6 : 5;
    std::vector<char> c = vp::any_bytes(n, "content");
    auto f = std::make_shared<vp::MemFile>(c, false);
    int32_t bs = 1 + vp_shard() % 4;
    BufferedInputStream in(f, bs, vp::pool().get());
    int pos = 0;
    bool seeked = false;
    for (int k = 0; k < K; k++) {
        // the first two kinds of step are fixed by the shard
        bool seek = k == 1 ? vp_shard() / 4 % 2 : k == 2 ? vp_shard() / 8 : k && k < K - 1 && vp::choose(2, "seek");
        if (seek && seeked) return;
        seeked = seek;
        if (seek) {
            int t = (int)vp::choose(n + 1, "target");
            bool rel = vp::choose(2, "relative");
            Status s = in.Seek(rel ? t - pos : t, rel ? FS_SEEK_CUR : FS_SEEK_SET);
            VP_CHECK(s.ok(), "seek inside the content succeeds");
            pos = t;
        } else {
            int left = n - pos;
            if (left == 0) return;
            int size = 1 + (int)vp::choose(left < bs + 2 ? left : bs + 2, "size");
            char out[16];
            memset(out, 0x5a, sizeof out);
            auto r = in.Read(out, size);
            VP_CHECK(r.ok() && r.value() == size, "a satisfiable read is satisfied");
            VP_CHECK(vp::same(out, c.data() + pos, size), "read returns the bytes at the position");
            VP_CHECK(out[size] == 0x5a, "read writes nothing beyond the count");
            pos += size;
        }
        auto p = in.GetPos();
        VP_CHECK(p.ok() && p.value() == pos, "position is exact");
    }
    vp_reach("end");
}
