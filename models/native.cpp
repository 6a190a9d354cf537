// Native side of the harness interface: replays one counterexample against the compiled sources.
#include <dlfcn.h>
#include <sched.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
static std::vector<std::pair<std::string, std::vector<unsigned char>>> g_vals;
static size_t g_next;
static int g_tier, g_shard;
static std::string g_harness;
static std::vector<std::thread*> g_threads;
extern "C" {
void vp_make(void* p, unsigned long n, const char* name) {
    std::string nm = name;
    for (auto& c : nm)
        if (c == ' ') c = '_';
    if (g_next >= g_vals.size() || g_vals[g_next].first != nm || g_vals[g_next].second.size() != n) {
        if (g_next >= g_vals.size()) { memset(p, 0, n); g_next++; return; }
        fprintf(stderr, "replay diverged: wanted %s/%lu\n", name, n);
        fflush(stderr);
        _Exit(77);
    }
    memcpy(p, g_vals[g_next].second.data(), n);
    g_next++;
}
void vp_assume(int c) {
    if (!c) {
        fprintf(stderr, "assumption does not hold\n");
        _Exit(77);
    }
}
void vp_assert(int c, const char* msg) {
    if (!c) {
        fprintf(stderr, "ASSERTION VIOLATED: %s\n", msg);
        _Exit(1);
    }
}
void vp_reach(const char*) {}
void vp_expect(const char*) {}
unsigned long vp_concretize(unsigned long v) { return v; }
int vp_tier() { return g_tier; }
int vp_shard() { return g_shard; }
#ifdef VP_ASAN
unsigned long __sanitizer_get_current_allocated_bytes();
unsigned long vp_live_heap() { return __sanitizer_get_current_allocated_bytes(); }
#else
unsigned long vp_live_heap() { return 0; }
#endif
void vp_alloc_limit(unsigned long) {}
void vp_print(const char* s, long v) { fprintf(stderr, "%s %ld\n", s, v); }
int vp_valid(const void*, unsigned long) { return 1; }
void vp_max_steps(unsigned long) {}
int vp_native() { return 1; }
void vp_preemptions(int) {}
int vp_thread_create(void (*f)(void*), void* arg) {
    g_threads.push_back(new std::thread(f, arg));
    return (int)g_threads.size();
}
void vp_thread_join(int t) { g_threads[t - 1]->join(); }
int vp_tid() { return 0; }
#ifndef VP_SCHED
int vp_yield() { return sched_yield(); }
#endif
int vp_is_symbolic(unsigned long long) { return 0; }
}
#ifdef VP_SCHED
int vp_sched_search(void (*body)());
#endif
int main() {
    const char* path = getenv("VP_REPLAY");
    std::ifstream in(path ? path : "");
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream is(line);
        std::string k;
        is >> k;
        if (k == "harness") is >> g_harness;
        else if (k == "shard") is >> g_shard;
        else if (k == "tier") is >> g_tier;
        else if (k == "v") {
            std::string n, h;
            is >> n >> h;
            std::vector<unsigned char> b;
            if (h != "-")
                for (size_t i = 0; i + 1 < h.size(); i += 2) b.push_back((unsigned char)strtoul(h.substr(i, 2).c_str(), nullptr, 16));
            g_vals.push_back({n, b});
        }
    }
    void* f = dlsym(RTLD_DEFAULT, ("vp_h_" + g_harness).c_str());
    if (!f) {
        fprintf(stderr, "no harness %s\n", g_harness.c_str());
        return 76;
    }
#ifdef VP_SCHED
    _Exit(vp_sched_search((void (*)())f));
#endif
    ((void (*)())f)();
    fprintf(stderr, "harness finished without violation\n");
    fflush(stderr);
    _Exit(0);
}
