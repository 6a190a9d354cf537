// C41: the fault-injection hook fires exactly at and after the chosen call.
// vp-bounds: any 64-bit position, every mode, up to 4 (thorough 6) calls, re-armed or cleared at any point between calls
// vp-bounds: two and three threads with 4 calls in total; every interleaving with at most 2 (thorough 3) preemptions
// vp-preempt: quick=2 thorough=3
// vp-replay: tsan
#include <atomic>
#include <stdexcept>
#include "paimon/common/factories/io_hook.h"
#include "paimon/status.h"
#include "vp.h"
using namespace paimon;
enum Out { PASS, ERROR, THROWN };
static Out call(IOHook* h) {
    try {
        Status s = h->Try("/some/path");
        if (!s.ok()) VP_CHECK(s.IsIOError(), "a reported fault is an I/O error");
        return s.ok() ? PASS : ERROR;
    } catch (const std::runtime_error&) {
        return THROWN;
    }
}
static const IOHook::Mode modes[] = {IOHook::Mode::SILENT, IOHook::Mode::RETURN_ERROR, IOHook::Mode::THROW_EXCEPTION};
static Out want(int mode, int64_t pos, int64_t n) { return n < pos || mode == 0 ? PASS : mode == 1 ? ERROR : THROWN; }
VP_HARNESS(history, 3) {
    vp_expect("end");
    vp_expect("fired");
    IOHook h;
    VP_CHECK(call(&h) == PASS && h.IOCount() == 1, "a fresh hook is inert and counts");
    int mode = vp_shard();
    int64_t pos = vp::any<int64_t>("position"), n = 0;
    h.Reset(pos, modes[mode]);
    VP_CHECK(h.IOCount() == 0, "arming starts counting afresh");
    int calls = vp_tier() ? 6 : 4;
    for (int i = 0; i < calls; i++) {
        switch (vp::choose(3, "before call")) {
            case 1:
                mode = (int)vp::choose(3, "mode");
                pos = vp::any<int64_t>("position");
                h.Reset(pos, modes[mode]);
                n = 0;
                VP_CHECK(h.IOCount() == 0, "arming starts counting afresh");
                break;
            case 2:
                h.Clear();
                mode = 0;
                n = 0;
                VP_CHECK(h.IOCount() == 0, "clearing starts counting afresh");
        }
        Out o = call(&h);
        VP_CHECK(o == want(mode, pos, n), "the first n calls pass, every later one fires");
        n++;
        VP_CHECK(h.IOCount() == n, "every call is counted");
        if (o != PASS || mode == 0) vp_reach("fired");
    }
    vp_reach("end");
}
VP_HARNESS(shared, 1) {
    vp_expect("end");
    IOHook* a = IOHook::GetInstance();
    VP_CHECK(a == IOHook::GetInstance(), "one hook per process");
    a->Reset(1, IOHook::Mode::RETURN_ERROR);
    VP_CHECK(call(IOHook::GetInstance()) == PASS && call(a) == ERROR, "armed for everybody");
    a->Clear();
    VP_CHECK(call(IOHook::GetInstance()) == PASS, "cleared for everybody");
    vp_reach("end");
}
struct Ctx {
    IOHook* h;
    int calls, pass = 0, fired = 0;
};
static void worker(void* p) {
    Ctx* c = (Ctx*)p;
    for (int i = 0; i < c->calls; i++) (call(c->h) == PASS ? c->pass : c->fired)++;
}
VP_HARNESS(threads, 2) {
    vp_expect("end");
    IOHook h;
    int mode = 1 + (int)vp::choose(2, "mode");
    int64_t pos = vp::choose(6, "position");
    h.Reset(pos, modes[mode]);
    Ctx c[3] = {{&h, 2}, {&h, vp_shard() ? 1 : 2}, {&h, 1}};
    int n = vp_shard() ? 3 : 2, t[3];
    for (int i = 0; i < n; i++) t[i] = vp_thread_create(worker, &c[i]);
    for (int i = 0; i < n; i++) vp_thread_join(t[i]);
    int pass = 0, fired = 0;
    for (int i = 0; i < n; i++) pass += c[i].pass, fired += c[i].fired;
    VP_CHECK(pass + fired == 4 && h.IOCount() == 4, "every call is counted");
    VP_CHECK(pass == (pos < 4 ? pos : 4), "callers consume distinct positions");
    vp_reach("end");
}
