// C40: the factory registry returns what was registered, one instance per process.
// vp-bounds: up to 3 (thorough 4) registrations and removals of types with arbitrary names of 0..2 bytes, looked up under any name of 0..2 bytes
// vp-bounds: 2 and 3 threads in first use of the registry, and registering while others look up; every interleaving with at most 3 preemptions; sequentially consistent atomics
// vp-preempt: quick=3 thorough=4
// vp-replay: tsan
#include <map>
#include <mutex>
#include "paimon/common/factories/io_hook.h"
#include "paimon/factories/factory.h"
#include "paimon/factories/factory_creator.h"
#include "vp.h"
using namespace paimon;
static int s_live;
struct F : Factory {
    explicit F(const char* n) : name(n) { s_live++; }
    ~F() override { s_live--; }
    const char* Identifier() const override { return name; }
    const char* name;
};
VP_HARNESS(registry, 2) {
    vp_expect("found");
    vp_expect("absent");
    s_live = 0;
    {
        FactoryCreator c;
        std::vector<std::pair<std::string, Factory*>> w;
        int n = vp_tier() ? 4 : 3;
        for (int i = 0; i < n; i++) {
            std::string t = vp::any_string(vp::choose(3, "length"), "type");
            size_t at = w.size();
            for (size_t k = 0; k < w.size(); k++)
                if (w[k].first == t) at = k;
            if (vp_shard() && i == n - 1) {
                c.TEST_Unregister(t);
                if (at < w.size()) w.erase(w.begin() + at);
                break;
            }
            VP_ASSUME(at == w.size());  // registering a type twice ends the process
            F* f = new F("f");
            c.Register(t, f);
            w.push_back({t, f});
        }
        VP_CHECK(s_live == (int)w.size(), "exactly the registered factories are alive");
        std::string q = vp::any_string(vp::choose(3, "length"), "asked");
        Factory* want = nullptr;
        for (auto& p : w)
            if (p.first == q) want = p.second;
        VP_CHECK(c.Create(q) == want, "the factory registered for the type, or nothing");
        auto all = c.GetRegisteredType();
        VP_CHECK(all.size() == w.size(), "the listing has every type once");
        for (auto& p : w) {
            int k = 0;
            for (auto& t : all) k += t == p.first;
            VP_CHECK(k == 1, "the listing has every type once");
        }
        vp_reach(want ? "found" : "absent");
    }
    VP_CHECK(s_live == 0, "factories end with their registry");
}
struct Ctx {
    FactoryCreator* seen = nullptr;
    size_t types = 99;
    IOHook* hook = nullptr;
};
static void first(void* p) {
    Ctx* c = (Ctx*)p;
    c->seen = FactoryCreator::GetInstance();
    c->types = c->seen->GetRegisteredType().size();
}
VP_HARNESS(first_use, 2) {
    vp_expect("end");
    int n = vp_shard() ? 3 : 2;
    Ctx c[3];
    int t[3];
    for (int i = 0; i < n; i++) t[i] = vp_thread_create(first, &c[i]);
    for (int i = 0; i < n; i++) vp_thread_join(t[i]);
    FactoryCreator* one = FactoryCreator::GetInstance();
    for (int i = 0; i < n; i++) {
        VP_CHECK(c[i].seen != nullptr && c[i].seen == one, "all threads get the same registry");
        VP_CHECK(c[i].types == 0, "the registry is complete when it is handed out");
    }
    vp_reach("end");
}
static FactoryCreator* s_c;
static F* s_f[2];
static const char* const s_n[] = {"x", "y"};
static void reg(void* p) {
    int i = *(int*)p;
    s_c->Register(s_n[i], s_f[i]);
    VP_CHECK(s_c->Create(s_n[i]) == s_f[i], "a registered type is found at once");
    Factory* o = s_c->Create(s_n[!i]);
    VP_CHECK(o == nullptr || o == s_f[!i], "a type being registered is found or not");
}
VP_HARNESS(concurrent, 1) {
    vp_expect("end");
    s_live = 0;
    s_c = new FactoryCreator;
    int id[2] = {0, 1}, t[2];
    for (int i = 0; i < 2; i++) s_f[i] = new F(s_n[i]);
    for (int i = 0; i < 2; i++) t[i] = vp_thread_create(reg, &id[i]);
    for (int i = 0; i < 2; i++) vp_thread_join(t[i]);
    VP_CHECK(s_c->Create("x") == s_f[0] && s_c->Create("y") == s_f[1] && s_c->GetRegisteredType().size() == 2, "no registration is lost");
    delete s_c;
    VP_CHECK(s_live == 0, "factories end with their registry");
    vp_reach("end");
}
