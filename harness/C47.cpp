// C47: whole-stream reads return the complete content or an error.
// vp-bounds: synchronous reads of streams of 0..8 (thorough 16) arbitrary bytes, a failure at any call, any announced length of 0..9 and any byte count reported
// vp-bounds: asynchronous reads of streams of 0, 1, 5 bytes, and one byte around one and two chunks of 1 MiB, completing at once or from other threads in any order, a failure of any subset of chunks, length and seek failures
// vp-stubs: std::future and std::promise are replaced by a condition-variable model in the encoding (native replay uses the real ones)
// vp-preempt: quick=1 thorough=2
// vp-replay: tsan
#include "env.h"
#include "paimon/common/utils/stream_utils.h"
using namespace paimon;
VP_HARNESS(sync, 9) {
    vp_expect("read");
    vp_expect("failed");
    size_t n = vp_shard() * (vp_tier() ? 2 : 1);
    std::vector<char> d = vp::any_bytes(n, "content");
    auto f = std::make_unique<vp::MemFile>(d, vp::choose(2, "short at the end"));
    f->failAt = (int)vp::choose(4, "failing call") - 1;
    f->pos = n ? (int64_t)vp::choose(n, "position") : 0;
    bool fails = f->failAt >= 0;
    auto r = StreamUtils::ReadFully(std::move(f), vp::pool());
    VP_CHECK(r.ok() == !fails, "content or an error");
    if (r.ok()) {
        VP_CHECK(r.value()->size() == n && vp::same(r.value()->data(), d.data(), n), "exactly the bytes of the stream");
        vp_reach("read");
    } else {
        VP_CHECK(r.status().IsIOError(), "the error met");
        vp_reach("failed");
    }
}
// announces any length, delivers any count
class Liar : public vp::MemFile {
 public:
    Liar(std::vector<char> d, uint64_t l, int32_t c) : MemFile(std::move(d)), len(l), count(c) {}
    Result<uint64_t> Length() const override { return len; }
    Result<int32_t> Read(char* b, uint32_t n) override {
        asked = n;
        for (uint32_t i = 0; i < n && (int32_t)i < count && i < data.size(); i++) b[i] = data[i];
        return count;
    }
    uint64_t len;
    int32_t count;
    uint32_t asked = 0;
};
VP_HARNESS(announced, 10) {
    vp_expect("read");
    vp_expect("refused");
    uint64_t len = vp_shard();
    int32_t count = vp::any<int32_t>("count");
    VP_ASSUME(count <= (int32_t)len);
    std::vector<char> d = vp::any_bytes(len, "content");
    auto r = StreamUtils::ReadFully(std::make_unique<Liar>(d, len, count), vp::pool());
    VP_CHECK(r.ok() == (count == (int32_t)len), "fewer bytes than announced are an error");
    if (r.ok()) {
        VP_CHECK(r.value()->size() == len && vp::same(r.value()->data(), d.data(), len), "exactly the bytes of the stream");
        vp_reach("read");
    } else
        vp_reach("refused");
}
struct Req {
    char* b;
    uint32_t n;
    uint64_t off;
    std::function<void(Status)> cb;
    bool fail;
    char key;
};
static void complete(void* p) {
    Req* q = (Req*)p;
    if (q->fail) {
        q->cb(Status::IOError("chunk fails"));
        return;
    }
    // the content at position i is key + i; the ends of every request are filled in
    q->b[0] = (char)(q->key + q->off);
    q->b[q->n - 1] = (char)(q->key + q->off + q->n - 1);
    q->cb(Status::OK());
}
static std::vector<Req*>* s_reqs;
static std::vector<int>* s_threads;
class Async : public vp::MemFile {
 public:
    Async(uint64_t l, char k, unsigned f, bool t) : MemFile({}), len(l), key(k), fails(f), threads(t) {}
    Status Seek(int64_t, SeekOrigin) override {
        if (fault()) return Status::IOError("seek fault");
        return Status::OK();
    }
    Result<uint64_t> Length() const override {
        if (const_cast<Async*>(this)->fault()) return Status::IOError("length fault");
        return len;
    }
    void ReadAsync(char* b, uint32_t n, uint64_t off, std::function<void(Status)>&& cb) override {
        VP_CHECK(n > 0 && off < len && n <= len - off, "only bytes of the stream are requested");
        VP_CHECK(vp_valid(b, n), "requests go to memory of the result");
        Req* q = new Req{b, n, off, std::move(cb), (fails >> s_reqs->size() & 1) != 0, key};
        s_reqs->push_back(q);
        if (threads) s_threads->push_back(vp_thread_create(complete, q));
        else complete(q);
    }
    uint64_t len;
    char key;
    unsigned fails;
    bool threads;
};
static void async(uint64_t len, bool threads, int failAt) {
    char key = vp::any<char>("content");
    unsigned fails = vp::choose(len > (1u << 20) ? (len > (2u << 20) ? 8 : 4) : len ? 2 : 1, "failing chunks");
    std::vector<Req*> reqs;
    std::vector<int> ths;
    s_reqs = &reqs;
    s_threads = &ths;
    auto f = std::make_unique<Async>(len, key, fails, threads);
    f->failAt = failAt;
    auto r = StreamUtils::ReadAsyncFully(std::move(f), vp::pool());
    for (int t : ths) vp_thread_join(t);
    bool failed = failAt >= 0;
    for (Req* q : reqs) failed |= q->fail;
    VP_CHECK(r.ok() == !failed, "content or an error");
    if (r.ok()) {
        VP_CHECK(r.value()->size() == len, "the whole stream");
        // the requests tile the stream: sorted by offset each starts where the one before ended
        uint64_t at = 0;
        for (size_t k = 0; k < reqs.size(); k++) {
            Req* next = nullptr;
            for (Req* q : reqs)
                if (q->off == at) {
                    VP_CHECK(next == nullptr, "each chunk is requested once");
                    next = q;
                }
            VP_CHECK(next != nullptr, "no byte is left out");
            VP_CHECK(next->b == r.value()->data() + at, "each chunk goes to its place");
            VP_CHECK(r.value()->data()[at] == (char)(key + at) && r.value()->data()[at + next->n - 1] == (char)(key + at + next->n - 1), "bytes in order");
            at += next->n;
        }
        VP_CHECK(at == len, "no byte is left out");
        vp_reach("read");
    } else {
        VP_CHECK(r.status().IsIOError(), "the error met");
        vp_reach("failed");
    }
    for (Req* q : reqs) delete q;
}
VP_HARNESS(chunks, 9) {
    static const uint64_t ls[] = {0, 1, 5, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (2 << 20) - 1, 2 << 20, (2 << 20) + 3};
    vp_expect("read");
    vp_expect("failed");
    async(ls[vp_shard()], false, (int)vp::choose(4, "failing call") - 1);
}
VP_HARNESS(threads, 3) {
    static const uint64_t ls[] = {5, (1 << 20) + 1, (2 << 20) + 3};
    vp_expect("read");
    vp_expect("failed");
    async(ls[vp_shard()], true, -1);
}
