// Harness interface.  Under the symbolic executor vp_* are intrinsics; natively they read a counterexample file.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
#include <type_traits>
#include <vector>
extern "C" {
void vp_make(void* p, unsigned long n, const char* name);  // n unconstrained bytes
void vp_assume(int c);
void vp_assert(int c, const char* msg);
void vp_reach(const char* label);   // reachability witness
void vp_expect(const char* label);  // label that must be reached by some path (vacuity guard)
unsigned long vp_concretize(unsigned long v);  // case split over all feasible values
int vp_tier();                      // 0 quick, 1 thorough
int vp_shard();
unsigned long vp_live_heap();       // number of live heap objects
void vp_alloc_limit(unsigned long n);
void vp_print(const char* s, long v);
int vp_valid(const void* p, unsigned long n);
void vp_max_steps(unsigned long n);
int vp_native();
void vp_preemptions(int n);
int vp_thread_create(void (*f)(void*), void* arg);
void vp_thread_join(int t);
int vp_tid();
int vp_yield();
int vp_is_symbolic(unsigned long long v);
}
#define VP_HARNESS(name, shards)                                            \
    extern "C" __attribute__((used)) const int vp_shards_##name = (shards); \
    extern "C" __attribute__((used, noinline)) void vp_h_##name()
#define VP_CHECK(c, msg) vp_assert((c) ? 1 : 0, msg)
#define VP_ASSUME(c) vp_assume((c) ? 1 : 0)

namespace vp {
template <class T>
inline T any(const char* name) {
    static_assert(std::is_trivially_copyable<T>::value, "");
    T t;
    vp_make(&t, sizeof t, name);
    return t;
}
inline bool any_bool(const char* name) {
    uint8_t b;
    vp_make(&b, 1, name);
    vp_assume(b <= 1);
    return b != 0;
}
// symbolic value in [lo, hi]
template <class T>
inline T range(T lo, T hi, const char* name) {
    T t;
    vp_make(&t, sizeof t, name);
    vp_assume((t >= lo) & (t <= hi));
    return t;
}
// concrete value in [0, n): one path per value
inline unsigned long choose(unsigned long n, const char* name) {
    uint8_t b;
    vp_make(&b, 1, name);
    vp_assume(b < n);
    return vp_concretize(b);
}
inline int choose_between(int lo, int hi, const char* name) { return lo + (int)choose(hi - lo + 1, name); }
inline std::string any_string(size_t n, const char* name) {
    std::string s(n, '\0');
    if (n) vp_make(&s[0], n, name);
    return s;
}
inline std::vector<char> any_bytes(size_t n, const char* name) {
    std::vector<char> s(n);
    if (n) vp_make(s.data(), n, name);
    return s;
}
}  // namespace vp
