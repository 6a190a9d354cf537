// C12: memory pool accounting is exact and reallocation preserves content.
// vp-bounds: every history of 3 (thorough 4) operations malloc/realloc/free over 2 blocks, sizes 0..9 bytes plus sizes that cannot be allocated, alignments 0, 8, 64, 256; arbitrary contents
// vp-assume: reallocation uses the alignment the block was allocated with
#include <new>
#include "env.h"
using namespace paimon;
struct Blk {
    char* p = nullptr;
    size_t n = 0;
    bool live = false;
    std::vector<char> c;
    uint64_t al = 0;
};
static const uint64_t kAl[] = {0, 8, 64, 256};
static void fill(Blk& b, size_t from) {
    b.c.resize(b.n);
    for (size_t i = from; i < b.n; i++) {
        b.c[i] = vp::any<char>("content");
        b.p[i] = b.c[i];
    }
}
VP_HARNESS(history, 4) {
    vp_expect("end");
    vp_expect("refused");
    unsigned long heap0 = vp_live_heap();
    {
        auto pool = GetMemoryPool();
        Blk b[2];
        uint64_t use = 0, peak = 0;
        int K = vp_tier() ? 4 : 3;
        uint64_t al = kAl[vp_shard()];
        for (int k = 0; k < K; k++) {
            size_t i = vp::choose(2, "block");
            int op = (int)vp::choose(3, "op");
            static const size_t sizes[] = {0, 1, 3, 4, 9, (size_t)1 << 62};
            if (op == 0) {
                if (b[i].live) continue;
                size_t n = sizes[vp::choose(6, "size")];
                try {
                    b[i].p = (char*)pool->Malloc(n, al);
                    VP_CHECK(n < 100, "impossible sizes are refused");
                    VP_CHECK(b[i].p != nullptr || n == 0, "memory is returned");
                    b[i].live = true;
                    b[i].n = n;
                    b[i].al = al;
                    use += n;
                    fill(b[i], 0);
                } catch (const std::bad_alloc&) {
                    VP_CHECK(n > 100, "possible sizes are granted");
                    vp_reach("refused");
                }
            } else if (op == 1) {
                size_t n = sizes[vp::choose(6, "size")];
                Blk old = b[i];
                try {
                    char* p = (char*)pool->Realloc(b[i].live ? b[i].p : nullptr, b[i].live ? b[i].n : 0, n, al);
                    VP_CHECK(n < 100, "impossible sizes are refused");
                    if (b[i].live) use -= b[i].n;
                    use += n;
                    b[i].p = p;
                    b[i].live = true;
                    b[i].n = n;
                    b[i].al = al;
                    VP_CHECK(p != nullptr || n == 0, "memory is returned");
                    size_t common = old.live ? (old.n < n ? old.n : n) : 0;
                    VP_CHECK(vp::same(p, old.c.data(), common), "reallocation keeps the common content");
                    fill(b[i], common);
                } catch (const std::bad_alloc&) {
                    VP_CHECK(n > 100, "possible sizes are granted");
                    if (b[i].live) VP_CHECK(vp::same(b[i].p, b[i].c.data(), b[i].n), "a refused reallocation keeps the block");
                    vp_reach("refused");
                }
            } else {
                if (!b[i].live) continue;
                pool->Free(b[i].p, b[i].n);
                use -= b[i].n;
                b[i] = Blk();
            }
            if (use > peak) peak = use;
            VP_CHECK(pool->CurrentUsage() == use, "usage is the sum of the live sizes");
            // a moving reallocation may hold the old and the new block at the same time
            VP_CHECK(pool->MaxMemoryUsage() >= peak, "maximum covers every usage level");
            VP_CHECK(pool->MaxMemoryUsage() <= peak + 18, "maximum never exceeds what was held at once");
            if (op != 1 && pool->MaxMemoryUsage() > peak) peak = pool->MaxMemoryUsage();
            for (auto& x : b)
                if (x.live && x.p) {
                    VP_CHECK(((uintptr_t)x.p % (x.al ? x.al : 1)) == 0, "alignment is honoured");
                    VP_CHECK(vp::same(x.p, x.c.data(), x.n), "contents are untouched");
                }
        }
        for (auto& x : b)
            if (x.live) pool->Free(x.p, x.n);
        VP_CHECK(pool->CurrentUsage() == 0, "everything is released");
    }
    VP_CHECK(vp_live_heap() == heap0, "no memory is leaked");
    vp_reach("end");
}
// without reallocation the maximum is exact
VP_HARNESS(peak, 1) {
    vp_expect("end");
    auto pool = GetMemoryPool();
    size_t n[3];
    void* p[3];
    uint64_t use = 0, peak = 0;
    for (int i = 0; i < 3; i++) n[i] = vp::choose(4, "size");
    for (int i = 0; i < 3; i++) {
        p[i] = pool->Malloc(n[i]);
        VP_CHECK((uintptr_t)p[i] % 64 == 0, "default alignment");
        use += n[i];
        if (use > peak) peak = use;
        VP_CHECK(pool->MaxMemoryUsage() == peak && pool->CurrentUsage() == use, "maximum is exact");
        if (vp::choose(2, "free")) {
            pool->Free(p[i], n[i]);
            use -= n[i];
            p[i] = nullptr;
        }
        VP_CHECK(pool->MaxMemoryUsage() == peak && pool->CurrentUsage() == use, "maximum is exact after free");
    }
    for (int i = 0; i < 3; i++)
        if (p[i]) pool->Free(p[i], n[i]);
    vp_reach("end");
}
