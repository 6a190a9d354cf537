// Scheduling runtime for replaying interleaving-dependent counterexamples: the sources are compiled with
// thread-sanitizer instrumentation and linked with this file instead of the sanitizer. One thread runs at a
// time; every atomic operation, lock, condition and thread operation is a point where another thread may be
// chosen (pseudo-random, seeded by VP_SCHED_SEED). main() of native.cpp calls vp_sched_search().
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <dlfcn.h>

namespace {
enum { RUN, BLOCK_MUTEX, BLOCK_COND, BLOCK_TCOND, BLOCK_JOIN, BLOCK_ADDR, DONE };
struct Th {
    sem_t sem;
    int st;
    const void* on;
    bool sig;
    pthread_t self;
    void* (*f)(void*);
    void* arg;
    void* ret;
};
const int MAXT = 16;
Th T[MAXT];
int nT = 0;
thread_local int me = -1;
bool active = false;
uint64_t rng = 1;
unsigned prob = 4;
struct Mx {
    const void* p;
    int owner;      // exclusive owner or -1
    int count;      // recursion / readers
    bool shared;
};
Mx M[256];
int nM = 0;
uint64_t rnd() {
    rng ^= rng << 13;
    rng ^= rng >> 7;
    rng ^= rng << 17;
    return rng >> 11;
}
Mx& mx(const void* p) {
    for (int i = 0; i < nM; i++)
        if (M[i].p == p) return M[i];
    if (nM == 256) {
        // drop the free ones
        int k = 0;
        for (int i = 0; i < nM; i++)
            if (M[i].owner >= 0 || M[i].count) M[k++] = M[i];
        nM = k;
    }
    M[nM] = Mx{p, -1, 0, false};
    return M[nM++];
}
void ensure() {
    if (nT == 0) {
        sem_init(&T[0].sem, 0, 0);
        T[0].st = RUN;
        me = 0;
        nT = 1;
    }
}
void to(int t) {
    int self = me;
    if (t == self) return;
    sem_post(&T[t].sem);
    while (sem_wait(&T[self].sem) != 0) {
    }
}
int pickOther(bool allowTimed) {
    int c[MAXT], n = 0;
    for (int i = 0; i < nT; i++)
        if (i != me && T[i].st == RUN) c[n++] = i;
    if (n == 0 && allowTimed)
        for (int i = 0; i < nT; i++)
            if (T[i].st == BLOCK_TCOND) c[n++] = i;
    return n ? c[rnd() % n] : -1;
}
void blockOn(int st, const void* on) {
    T[me].st = st;
    T[me].on = on;
    int t = pickOther(true);
    if (t < 0) {
        if (st == BLOCK_TCOND) {
            T[me].st = RUN;
            return;
        }
        fprintf(stderr, "DEADLOCK: every thread is blocked\n");
        _exit(98);
    }
    if (T[t].st == BLOCK_TCOND) T[t].st = RUN;
    to(t);
}
void wake(int st, const void* on) {
    for (int i = 0; i < nT; i++)
        if (T[i].st == st && T[i].on == on) T[i].st = RUN;
}
void point() {
    if (!active || nT < 2 || me < 0) return;
    if (rnd() % prob) return;
    // a timed wait may also expire here
    int t = pickOther(false);
    if (t < 0) return;
    to(t);
}
void lockEx(const void* p, bool recursive) {
    ensure();
    point();
    Mx* m = &mx(p);
    while (m->owner >= 0 || (m->shared && m->count > 0)) {
        if (recursive && m->owner == me) {
            m->count++;
            return;
        }
        blockOn(BLOCK_MUTEX, p);
        m = &mx(p);
    }
    m->owner = me;
    m->count = 1;
    m->shared = false;
}
bool tryEx(const void* p) {
    ensure();
    point();
    Mx& m = mx(p);
    if (m.owner >= 0 || (m.shared && m.count > 0)) return false;
    m.owner = me;
    m.count = 1;
    m.shared = false;
    return true;
}
void lockSh(const void* p) {
    ensure();
    point();
    Mx* m = &mx(p);
    while (m->owner >= 0) {
        blockOn(BLOCK_MUTEX, p);
        m = &mx(p);
    }
    m->shared = true;
    m->count++;
}
void unlock(const void* p, bool pt = true) {
    ensure();
    Mx& m = mx(p);
    if (m.shared) {
        if (--m.count == 0) m.shared = false;
    } else {
        if (m.count > 0 && --m.count > 0) return;
        m.owner = -1;
    }
    wake(BLOCK_MUTEX, p);
    if (pt) point();
}
void* tramp(void* a) {
    int id = (int)(intptr_t)a;
    me = id;
    while (sem_wait(&T[id].sem) != 0) {
    }
    T[id].ret = T[id].f(T[id].arg);
    T[id].st = DONE;
    wake(BLOCK_JOIN, &T[id]);
    int t = pickOther(true);
    if (t >= 0) {
        if (T[t].st == BLOCK_TCOND) T[t].st = RUN;
        sem_post(&T[t].sem);
    } else {
        for (int i = 0; i < nT; i++)
            if (T[i].st != DONE) {
                fprintf(stderr, "DEADLOCK: every thread is blocked\n");
                _exit(98);
            }
    }
    return nullptr;
}
}  // namespace

extern "C" {
typedef int (*create_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*f)(void*), void* arg) {
    static create_t real = (create_t)dlsym(RTLD_NEXT, "pthread_create");
    ensure();
    int id = nT++;
    if (id >= MAXT) abort();
    sem_init(&T[id].sem, 0, 0);
    T[id].st = RUN;
    T[id].f = f;
    T[id].arg = arg;
    int r = real(&T[id].self, at, tramp, (void*)(intptr_t)id);
    *out = T[id].self;
    point();
    return r;
}
int pthread_join(pthread_t t, void** ret) {
    ensure();
    point();
    for (int i = 0; i < nT; i++)
        if (T[i].f && pthread_equal(T[i].self, t)) {
            while (T[i].st != DONE) blockOn(BLOCK_JOIN, &T[i]);
            if (ret) *ret = T[i].ret;
            return 0;
        }
    return ESRCH;
}
int pthread_detach(pthread_t) { return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) { lockEx(m, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { return tryEx(m) ? 0 : EBUSY; }
int pthread_mutex_unlock(pthread_mutex_t* m) { unlock(m); return 0; }
int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { lockEx(m, false); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { lockSh(m); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { unlock(m); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return tryEx(m) ? 0 : EBUSY; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    ensure();
    unlock(m, false);
    blockOn(BLOCK_COND, c);
    lockEx(m, false);
    return 0;
}
static int timed(pthread_cond_t* c, pthread_mutex_t* m) {
    ensure();
    unlock(m, false);
    T[me].sig = false;
    blockOn(BLOCK_TCOND, c);
    bool sig = T[me].sig;
    lockEx(m, false);
    return sig ? 0 : ETIMEDOUT;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return timed(c, m); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return timed(c, m); }
int pthread_cond_signal(pthread_cond_t* c) {
    ensure();
    point();
    int w[MAXT], n = 0;
    for (int i = 0; i < nT; i++)
        if ((T[i].st == BLOCK_COND || T[i].st == BLOCK_TCOND) && T[i].on == c) w[n++] = i;
    if (n) {
        int i = w[rnd() % n];
        T[i].st = RUN;
        T[i].sig = true;
    }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    ensure();
    point();
    for (int i = 0; i < nT; i++)
        if ((T[i].st == BLOCK_COND || T[i].st == BLOCK_TCOND) && T[i].on == c) {
            T[i].st = RUN;
            T[i].sig = true;
        }
    return 0;
}
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int pthread_once(pthread_once_t* o, void (*f)(void)) {
    lockEx(o, true);
    if (*(int*)o != 2) {
        f();
        *(int*)o = 2;
    }
    unlock(o);
    return 0;
}
int sched_yield() {
    ensure();
    int t = active ? pickOther(false) : -1;
    if (t >= 0) to(t);
    return 0;
}
int usleep(useconds_t) { return sched_yield(); }
int nanosleep(const struct timespec*, struct timespec*) { return sched_yield(); }
int __cxa_guard_acquire(char* g) {
    if (__atomic_load_n(g, __ATOMIC_ACQUIRE)) return 0;
    lockEx(g, false);
    if (*g) {
        unlock(g);
        return 0;
    }
    return 1;
}
void __cxa_guard_release(char* g) {
    *g = 1;
    unlock(g);
}
void __cxa_guard_abort(char* g) { unlock(g); }
// std::future
bool _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
    void*, unsigned* a, unsigned v, bool, long, long) {
    ensure();
    while (__atomic_load_n(a, __ATOMIC_SEQ_CST) == v) blockOn(BLOCK_ADDR, a);
    return true;
}
bool _ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
    void*, unsigned* a, unsigned v, bool, long, long) {
    ensure();
    while (__atomic_load_n(a, __ATOMIC_SEQ_CST) == v) blockOn(BLOCK_ADDR, a);
    return true;
}
void _ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(unsigned* a) {
    wake(BLOCK_ADDR, a);
    point();
}

// instrumentation interface
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n)                                                                                                         \
    void __tsan_read##n(void*) {}                                                                                     \
    void __tsan_write##n(void*) {}                                                                                    \
    void __tsan_unaligned_read##n(void*) {}                                                                           \
    void __tsan_unaligned_write##n(void*) {}                                                                          \
    void __tsan_read_write##n(void*) {}                                                                               \
    void __tsan_unaligned_read_write##n(void*) {}                                                                     \
    void __tsan_volatile_read##n(void*) {}                                                                            \
    void __tsan_volatile_write##n(void*) {}                                                                           \
    void __tsan_unaligned_volatile_read##n(void*) {}                                                                  \
    void __tsan_unaligned_volatile_write##n(void*) {}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void*, void*) {}
void __tsan_vptr_read(void*) {}
void __tsan_read_range(void*, unsigned long) {}
void __tsan_write_range(void*, unsigned long) {}
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { return memset(d, c, n); }
#define AT(bits, ty)                                                                                                  \
    ty __tsan_atomic##bits##_load(const volatile ty* a, int) { point(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(volatile ty* a, ty v, int) { point(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##bits##_exchange(volatile ty* a, ty v, int) { point(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##bits##_fetch_add(volatile ty* a, ty v, int) { point(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##bits##_fetch_sub(volatile ty* a, ty v, int) { point(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##bits##_fetch_and(volatile ty* a, ty v, int) { point(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##bits##_fetch_or(volatile ty* a, ty v, int) { point(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); }   \
    ty __tsan_atomic##bits##_fetch_xor(volatile ty* a, ty v, int) { point(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##bits##_fetch_nand(volatile ty* a, ty v, int) { point(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile ty* a, ty* c, ty v, int, int) { point(); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile ty* a, ty* c, ty v, int, int) { point(); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##bits##_compare_exchange_val(volatile ty* a, ty c, ty v, int, int) { point(); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
int vp_yield() { return sched_yield(); }
}

// runs body once per seed in a child process; returns the first non-clean exit status, or 0
int vp_sched_search(void (*body)()) {
    const char* n = getenv("VP_SCHED_RUNS");
    const char* one = getenv("VP_SCHED_SEED");
    long runs = n ? atol(n) : 20000;
    time_t t0 = time(nullptr);
    for (long i = one ? atol(one) : 1; one || i <= runs; i++) {
        int pid = fork();
        if (pid == 0) {
            alarm(10);
            rng = 88172645463325252ull ^ ((uint64_t)i * 0x9e3779b97f4a7c15ull);
            for (int k = 0; k < 8; k++) rnd();
            static const unsigned pr[] = {2, 3, 4, 6, 8, 12, 16, 32};
            prob = pr[i % 8];
            active = true;
            body();
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        int code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
        if (code == 77) return 77;
        if (code) {
            fprintf(stderr, "schedule seed %ld: exit %d\n", i, code);
            return code;
        }
        if (one || time(nullptr) - t0 > 60) break;
    }
    fprintf(stderr, "no failing schedule found\n");
    return 0;
}
