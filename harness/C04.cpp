// C04: a window over a stream never exposes or misplaces bytes outside the window.
// vp-bounds: all 64-bit window offsets/lengths, underlying lengths up to 2^34 (thorough: below 2^63); every history of 2 (thorough 3) operations with all 64-bit offsets and 32-bit sizes; each underlying call may fail
// vp-stubs: (reads of 2^31 bytes or more are refused by the underlying stream: its int32 result cannot express them)
// vp-stubs: underlying stream: position/length semantics of a file of symbolic 64-bit length; records the offset of every transfer instead of holding content
#include "env.h"
#include "paimon/common/io/offset_input_stream.h"
using namespace paimon;

class BigFile : public InputStream {
 public:
    explicit BigFile(uint64_t l) : len(l) {}
    Status Seek(int64_t off, SeekOrigin o) override {
        if (faulty && vp::any_bool("seek fails")) { failed = true; return Status::IOError("fault"); }
        int64_t base = o == FS_SEEK_SET ? 0 : o == FS_SEEK_CUR ? pos : (int64_t)len;
        if (off < -base || off > (int64_t)len - base) { failed = true; return Status::Invalid("seek outside"); }
        pos = base + off;
        return Status::OK();
    }
    Result<int64_t> GetPos() const override { return pos; }
    Result<int32_t> Read(char*, uint32_t n) override {
        if (faulty && vp::any_bool("read fails")) { failed = true; return Status::IOError("fault"); }
        reqOff = pos;
        reqSize = n;
        reqs++;
        if (n > INT32_MAX || n > len - (uint64_t)pos) { failed = true; return Status::Invalid("past end"); }
        pos += n;
        return (int32_t)n;
    }
    Result<int32_t> Read(char*, uint32_t n, uint64_t off) override {
        if (faulty && vp::any_bool("pread fails")) { failed = true; return Status::IOError("fault"); }
        reqOff = (int64_t)off;
        reqSize = n;
        reqs++;
        if (n > INT32_MAX || off > len || n > len - off) { failed = true; return Status::Invalid("past end"); }
        return (int32_t)n;
    }
    void ReadAsync(char* b, uint32_t n, uint64_t off, std::function<void(Status)>&& cb) override {
        auto r = Read(b, n, off);
        cb(r.ok() ? Status::OK() : r.status());
    }
    Result<std::string> GetUri() const override { return std::string("big"); }
    Result<uint64_t> Length() const override {
        if (faulty && vp::any_bool("length fails")) { failed = true; return Status::IOError("fault"); }
        return len;
    }
    Status Close() override { return Status::OK(); }
    uint64_t len;
    int64_t pos = 0;
    int64_t reqOff = 0;
    uint32_t reqSize = 0;
    int reqs = 0;
    bool faulty = false;
    mutable bool failed = false;
};

static void run(int first, bool faulty) {
    uint64_t total = vp::range<uint64_t>(0, vp_tier() ? (uint64_t)INT64_MAX : (1ull << 34), "total");
    int64_t length = vp::any<int64_t>("length");
    int64_t offset = vp::any<int64_t>("offset");
    auto f = std::make_shared<BigFile>(total);
    f->faulty = faulty;
    auto r = OffsetInputStream::Create(f, length, offset);
    bool valid = offset >= 0 && (uint64_t)offset <= total && length >= -1 &&
                 (length == -1 || (uint64_t)length <= total - (uint64_t)offset);
    if (f->failed) {
        VP_CHECK(!r.ok(), "failing stream is reported");
        return;
    }
    VP_CHECK(r.ok() == valid, "window is accepted exactly when it lies inside the stream");
    if (!valid) {
        vp_reach("window refused");
        return;
    }
    auto in = std::move(r).value();
    bool toEnd = vp_concretize(length == -1);
    int64_t wlen = toEnd ? (int64_t)(total - (uint64_t)offset) : length;
    int64_t pos = 0;
    char buf[1];
    int K = vp_tier() ? 3 : 2;
    for (int k = 0; k < K; k++) {
        VP_CHECK(in->GetPos().ok() && in->GetPos().value() == pos, "position is relative to the window and exact");
        VP_CHECK(in->Length().ok() && in->Length().value() == (uint64_t)wlen, "length is the window length");
        f->failed = false;
        f->reqs = 0;
        int op = k == 0 ? first : (int)vp::choose(4, "op");
        if (op == 0) {
            int64_t off = vp::any<int64_t>("seek offset");
            int origin = (int)vp::choose(4, "origin");
            Status s = in->Seek(off, static_cast<SeekOrigin>(origin));
            int64_t base = origin == 0 ? 0 : origin == 1 ? pos : wlen;
            bool ok = origin <= 2 && off >= -base && off <= wlen - base;
            if (f->failed && ok) {
                VP_CHECK(!s.ok(), "failing seek is reported");
                // no claim about the stream position after a failed underlying seek
                return;
            }
            VP_CHECK(s.ok() == ok, "seek succeeds exactly inside the window");
            if (ok) {
                pos = base + off;
                vp_reach("seek ok");
            } else
                vp_reach("seek refused");
        } else if (op == 1) {
            uint32_t size = vp::any<uint32_t>("size");
            auto rd = in->Read(buf, size);
            bool ok = size <= (uint64_t)(wlen - pos);
            if (!ok) {
                VP_CHECK(!rd.ok(), "read leaving the window is refused");
                VP_CHECK(f->reqs == 0, "nothing is transferred for a refused read");
                vp_reach("read refused");
            } else if (f->failed) {
                VP_CHECK(!rd.ok(), "failing read is reported");
            } else {
                VP_CHECK(rd.ok() && rd.value() == (int32_t)size, "read inside the window succeeds");
                VP_CHECK(f->reqs == 1 && f->reqOff == offset + pos && f->reqSize == size, "read transfers the bytes at offset + position");
                pos += size;
                vp_reach("read ok");
            }
        } else {
            uint32_t size = vp::any<uint32_t>("size");
            uint64_t off = vp::any<uint64_t>("offset");
            bool got;
            if (op == 2) {
                auto rd = in->Read(buf, size, off);
                got = rd.ok();
                if (got) VP_CHECK(rd.value() == (int32_t)size, "pread returns the count");
            } else {
                int called = 0;
                Status st;
                in->ReadAsync(buf, size, off, [&](Status s) { called++; st = s; });
                VP_CHECK(called == 1, "callback is called once");
                got = st.ok();
            }
            bool ok = off <= (uint64_t)wlen && size <= (uint64_t)wlen - off;
            if (!ok) {
                VP_CHECK(!got, "pread leaving the window is refused");
                VP_CHECK(f->reqs == 0, "nothing is transferred for a refused pread");
                vp_reach("pread refused");
            } else if (f->failed) {
                VP_CHECK(!got, "failing pread is reported");
            } else {
                VP_CHECK(got, "pread inside the window succeeds");
                VP_CHECK(f->reqs == 1 && f->reqOff == (int64_t)((uint64_t)offset + off) && f->reqSize == size, "pread transfers the bytes at offset + position");
                vp_reach("pread ok");
            }
        }
    }
}
VP_HARNESS(history, 4) {
    vp_expect("window refused");
    vp_expect("seek ok");
    vp_expect("seek refused");
    vp_expect("read ok");
    vp_expect("read refused");
    vp_expect("pread ok");
    vp_expect("pread refused");
    run(vp_shard(), false);
}
VP_HARNESS(faults, 4) {
    vp_expect("read ok");
    run(vp_shard(), true);
}
