// Models of external functions: allocation, C++ runtime, harness API, threads, libm.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unordered_map>

#include "exec.h"
#include "llvm/IR/GlobalVariable.h"
#include "llvm/IR/Instructions.h"

using namespace llvm;
namespace symx {

// ------------------------------------------------------------------ race detection metadata
struct Acc {
    u32 wt = ~0u, wc = 0;
    bool wAtomic = false;
    std::vector<std::pair<u32, u32>> reads, areads;
};
struct Shadow {
    std::unordered_map<u32, Acc> m;
};
void freeShadow(Shadow* s) { delete s; }
Shadow* cloneShadow(Shadow* s) { return new Shadow(*s); }

bool Exec::multi(State& s) {
    for (size_t i = 1; i < s.th.size(); i++)
        if (s.th[i].status != T_DONE || !s.th[i].joined) return true;
    return false;
}
static bool hb(const VClock& v, u32 t, u32 c) { return t < v.size() && v[t] >= c; }

void Exec::raceAccess(State& s, u32 id, u64 off, u64 n, bool write, bool atomic) {
    if (s.th.size() < 2 || !multi(s)) return;
    Obj* o = s.objs[id].p;
    if (o->kind == K_FUNC || (o->readonly && !write)) return;
    auto& T = s.th[s.cur];
    if (atomic) {
        // atomics synchronise (sequentially consistent interpretation)
        VClock& av = s.atomicVC[((u64)id << 32) | (u32)off];
        acquire(s, av);
        if (write) release(s, av);
    }
    if (!raceCheck) return;
    if (n > 256) n = 256;
    o = objW(s, id);
    if (!o->shadow) o->shadow = new Shadow();
    u32 me = s.cur, clk = me < T.vc.size() ? T.vc[me] : 0;
    for (u64 i = 0; i < n; i++) {
        Acc& a = o->shadow->m[(u32)(off + i)];
        if (a.wt != ~0u && a.wt != me && !(a.wAtomic && atomic) && !hb(T.vc, a.wt, a.wc))
            violation(s, "race", std::string("data race: ") + (write ? "write" : "read") + " conflicts with a concurrent write");
        if (write) {
            for (auto& r : a.reads)
                if (r.first != me && !hb(T.vc, r.first, r.second)) violation(s, "race", "data race: write conflicts with a concurrent read");
            if (!atomic)
                for (auto& r : a.areads)
                    if (r.first != me && !hb(T.vc, r.first, r.second)) violation(s, "race", "data race: write conflicts with a concurrent atomic read");
            a.wt = me;
            a.wc = clk;
            a.wAtomic = atomic;
            a.reads.clear();
            a.areads.clear();
        } else {
            auto& rs = atomic ? a.areads : a.reads;
            bool f = false;
            for (auto& r : rs)
                if (r.first == me) {
                    r.second = clk;
                    f = true;
                }
            if (!f) rs.push_back({me, clk});
        }
    }
}
void Exec::acquire(State& s, VClock& v) {
    auto& t = s.th[s.cur].vc;
    if (t.size() < v.size()) t.resize(v.size(), 0);
    for (size_t i = 0; i < v.size(); i++) t[i] = std::max(t[i], v[i]);
}
void Exec::release(State& s, VClock& v) {
    auto& t = s.th[s.cur].vc;
    if (t.size() <= s.cur) t.resize(s.cur + 1, 0);
    if (v.size() < t.size()) v.resize(t.size(), 0);
    for (size_t i = 0; i < t.size(); i++) v[i] = std::max(t[i], v[i]);
    t[s.cur]++;
}

// ------------------------------------------------------------------ scheduling
bool Exec::enabled(State& s, u32 t) {
    Thread& T = s.th[t];
    switch (T.status) {
        case T_RUN: return true;
        case T_BLOCK_MUTEX: {
            auto& m = s.mutexes[T.waitAddr];
            return m.owner < 0 && m.readers == 0;
        }
        case T_BLOCK_RW: return s.mutexes[T.waitAddr].owner < 0;
        case T_BLOCK_COND: {
            if (!T.condSignaled && !T.timedWait) return false;
            auto& m = s.mutexes[T.waitMutex];
            return m.owner < 0;
        }
        case T_BLOCK_JOIN: return s.th[T.joinTid].status == T_DONE;
        case T_BLOCK_FUTEX: return T.condSignaled;
        case T_DONE: return false;
    }
    return false;
}
// A point where another thread may run before the current instruction.
bool Exec::schedPoint(State& s, bool) {
    Thread& T = s.th[s.cur];
    if (T.passed) return false;
    T.passed = true;
    schedPoints++;
    // fairness: a thread that keeps running while others could is made to give way
    bool forced = ++s.run > lim.fair;
    bool gaveWay = false;
    if ((int)s.preemptions < lim.preemptions || forced) {
        for (u32 u = 0; u < s.th.size(); u++) {
            if (u == s.cur || !enabled(s, u)) continue;
            State* c = new State(s);
            c->cur = u;
            c->run = 0;
            c->th[u].status = T_RUN;
            if (!forced) c->preemptions++;
            gaveWay = true;
            c->schedule.push_back(u);
            c->pending.clear();
            work.push_back(c);
            forks++;
        }
    }
    if (forced && gaveWay) {
        fairSwitches++;
        throw PathEnd{"switch"};
    }
    s.schedule.push_back(s.cur);
    return false;
}
// The current thread cannot continue: pick another one.
void Exec::switchFrom(State& s) {
    std::vector<u32> en;
    for (u32 u = 0; u < s.th.size(); u++)
        if (u != s.cur && enabled(s, u)) en.push_back(u);
    if (en.empty()) {
        if (enabled(s, s.cur) && s.th[s.cur].status != T_RUN) {
            s.th[s.cur].status = T_RUN;
            s.schedule.push_back(s.cur);
            return;
        }
        violation(s, "deadlock", "no thread can make progress");
    }
    schedPoints++;
    for (size_t i = 1; i < en.size(); i++) {
        State* c = new State(s);
        c->cur = en[i];
        c->run = 0;
        c->th[en[i]].status = T_RUN;
        c->schedule.push_back(en[i]);
        c->pending.clear();
        work.push_back(c);
        forks++;
    }
    s.cur = en[0];
    s.run = 0;
    s.th[en[0]].status = T_RUN;
    s.schedule.push_back(en[0]);
    s.pending.clear();
}
u32 Exec::spawn(State& s, FnInfo* f, std::vector<Val> args) {
    u32 t = s.th.size();
    u32 me = s.cur;
    s.th.emplace_back();
    s.th[t].vc = s.th[me].vc;
    s.th[t].vc.resize(t + 1, 0);
    s.th[t].vc[t] = 1;
    if (s.th[me].vc.size() <= me) s.th[me].vc.resize(me + 1, 0);
    s.th[me].vc[me]++;
    s.cur = t;
    pushCall(s, f, args, nullptr, 0);
    s.cur = me;
    return t;
}
void Exec::threadExit(State& s) {
    if (s.cur == 0) return;
    s.th[s.cur].status = T_DONE;
    switchFrom(s);
}

// ------------------------------------------------------------------ helpers
typedef std::vector<Val> Args;
#define EXT(name) static void name(Exec& X, State& s, const DI& d, Args& a)
static void ret(Exec& X, State& s, const DI& d, Val v) {
    if (d.n) X.setRes(s, d, v);
}
static void advance(Exec& X, State& s, const DI& d) {
    if (d.op == Instruction::Invoke) X.jump(s, X.top(s), d.x->t);
    else X.top(s).ip++;
}
static void throwBadAlloc(Exec& X, State& s) {
    auto it = X.fnByName.find("vp_throw_bad_alloc");
    if (it == X.fnByName.end() || it->second->F->isDeclaration()) X.violation(s, "exception", "std::bad_alloc (allocation failed)");
    Args none;
    X.pushCall(s, it->second, none, nullptr, 0);
}

// ------------------------------------------------------------------ allocation
EXT(x_malloc) { ret(X, s, d, cval(X.allocate(s, a[0], K_HEAP_MALLOC, 16, false))); }
EXT(x_calloc) {
    Val n = X.binVal(s, Instruction::Mul, a[0], a[1], 64);
    ret(X, s, d, cval(X.allocate(s, n, K_HEAP_MALLOC, 16, true)));
}
EXT(x_new) {
    u64 p = X.allocate(s, a[0], K_HEAP_NEW, 16, false);
    if (!p) return throwBadAlloc(X, s);
    ret(X, s, d, cval(p));
}
EXT(x_newarr) {
    u64 p = X.allocate(s, a[0], K_HEAP_NEWARR, 16, false);
    if (!p) return throwBadAlloc(X, s);
    ret(X, s, d, cval(p));
}
EXT(x_newal) {
    u64 al = X.concretize(s, a[1], 64);
    u64 p = X.allocate(s, a[0], K_HEAP_NEW, al, false);
    if (!p) return throwBadAlloc(X, s);
    ret(X, s, d, cval(p));
}
EXT(x_newnt) { ret(X, s, d, cval(X.allocate(s, a[0], K_HEAP_NEW, 16, false))); }
EXT(x_newarrnt) { ret(X, s, d, cval(X.allocate(s, a[0], K_HEAP_NEWARR, 16, false))); }
EXT(x_free) { X.freeObj(s, X.concretize(s, a[0], 64), K_HEAP_MALLOC); }
EXT(x_delete) { X.freeObj(s, X.concretize(s, a[0], 64), K_HEAP_NEW); }
EXT(x_deletearr) { X.freeObj(s, X.concretize(s, a[0], 64), K_HEAP_NEWARR); }
EXT(x_realloc) {
    u64 p = X.concretize(s, a[0], 64);
    if (!p) return x_malloc(X, s, d, *new Args{a[1]});
    u32 id = p >> 32;
    if (id >= s.objs.size() || !s.objs[id].p || s.objs[id].p->kind != K_HEAP_MALLOC || s.objs[id].p->addr() != p) X.violation(s, "memory", "realloc of invalid pointer");
    u64 n = X.concretize(s, a[1], 64);
    u64 old = s.objs[id].p->size;
    u64 q = X.allocate(s, cval(n), K_HEAP_MALLOC, 16, false);
    if (!q) return ret(X, s, d, cval(0));
    u64 k = std::min(n, old);
    if (k) X.memCopy(s, cval(q), cval(p), cval(k));
    X.freeObj(s, p, K_HEAP_MALLOC);
    ret(X, s, d, cval(q));
}
EXT(x_posix_memalign) {
    u64 al = X.concretize(s, a[1], 64);
    if (al < 8 || (al & (al - 1))) return ret(X, s, d, cval(22));
    u64 p = X.allocate(s, a[2], K_HEAP_MALLOC, al, false);
    if (!p) return ret(X, s, d, cval(12));
    X.store(s, a[0], 64, cval(p));
    ret(X, s, d, cval(0));
}
EXT(x_aligned_alloc) {
    u64 al = X.concretize(s, a[0], 64);
    ret(X, s, d, cval(X.allocate(s, a[1], K_HEAP_MALLOC, al, false)));
}
EXT(x_usable) {
    u64 p = X.concretize(s, a[0], 64);
    ret(X, s, d, cval(s.objs[p >> 32].p->size));
}

// ------------------------------------------------------------------ mem*
EXT(x_memcpy) {
    X.memCopy(s, a[0], a[1], a[2]);
    ret(X, s, d, a[0]);
}
EXT(x_memset) {
    Val b = a[1];
    if (b.e) b = eval2val(mkExtract(b.e, 0, 8));
    else b.c &= 255;
    X.memSet(s, a[0], b, a[2]);
    ret(X, s, d, a[0]);
}
EXT(x_memcmp) { ret(X, s, d, X.memCmp(s, a[0], a[1], a[2], false)); }
EXT(x_bcmp) { ret(X, s, d, X.memCmp(s, a[0], a[1], a[2], true)); }

// ------------------------------------------------------------------ C++ runtime
EXT(x_cxa_alloc_exc) {
    u64 n = X.concretize(s, a[0], 64);
    u32 id = X.newObj(s, n, K_EXC, 0x10000, false, "exception", nullptr);
    ret(X, s, d, cval(s.objs[id].p->addr()));
}
EXT(x_nop) { ret(X, s, d, cval(0)); }
EXT(x_cxa_throw) {
    ExcInfo e;
    e.tinfo = a[1].c;
    e.dtor = a[2].c;
    s.excs[a[0].c] = e;
    X.unwind(s, a[0].c);
}
EXT(x_begin_catch) {
    u64 exc = a[0].c;
    s.th[s.cur].caught.push_back(exc);
    s.excs[exc].handlers++;
    ret(X, s, d, a[0]);
}
EXT(x_get_exc_ptr) { ret(X, s, d, a[0]); }
EXT(x_end_catch) {
    auto& c = s.th[s.cur].caught;
    if (c.empty()) return;
    u64 exc = c.back();
    c.pop_back();
    auto& ei = s.excs[exc];
    if (ei.handlers < 0) {  // being rethrown
        ei.handlers = 0;
        return;
    }
    if (--ei.handlers == 0 && ei.dtor && --ei.refs == 0) {
        auto it = X.fnByObj.find(ei.dtor >> 32);
        if (it != X.fnByObj.end() && !it->second->F->isDeclaration()) {
            advance(X, s, d);
            Args aa{cval(exc)};
            X.pushCall(s, it->second, aa, nullptr, 0);
            X.top(s).onReturn = 1;
        }
    }
}
EXT(x_rethrow) {
    auto& c = s.th[s.cur].caught;
    if (c.empty()) X.violation(s, "exception", "rethrow without exception");
    u64 exc = c.back();
    s.excs[exc].handlers = -1;
    X.unwind(s, exc);
}
EXT(x_terminate) { X.violation(s, "exception", "std::terminate called"); }
EXT(x_abort) { X.violation(s, "abort", "abort called"); }
EXT(x_assert_fail) { X.violation(s, "abort", "assertion failed: " + X.cstr(s, a[0].c)); }
EXT(x_pure) { X.violation(s, "abort", "pure virtual call"); }
EXT(x_exit) { X.violation(s, "abort", "exit called"); }
EXT(x_guard_acquire) {
    u64 g = a[0].c;
    if (X.multi(s)) X.schedPoint(s, false);
    Val b = X.load(s, a[0], 8);
    if (!b.e && b.c) {
        X.acquire(s, s.mutexes[g].vc);
        return ret(X, s, d, cval(0));
    }
    auto& m = s.mutexes[g];
    if (m.owner >= 0 && m.owner != (int)s.cur) {
        s.th[s.cur].status = T_BLOCK_MUTEX;
        s.th[s.cur].waitAddr = g;
        X.switchFrom(s);
        return;
    }
    m.owner = s.cur;
    X.acquire(s, m.vc);
    ret(X, s, d, cval(1));
}
EXT(x_guard_release) {
    X.store(s, a[0], 8, cval(1));
    auto& m = s.mutexes[a[0].c];
    m.owner = -1;
    X.release(s, m.vc);
}
EXT(x_guard_abort) {
    auto& m = s.mutexes[a[0].c];
    m.owner = -1;
}
static void bases(Exec& X, State& s, u64 ti, u64 obj, std::vector<std::pair<u64, u64>>& out) {
    out.push_back({ti, obj});
    u64 vt = X.load(s, cval(ti), 64).c;
    u64 si = X.abiVt["_ZTVN10__cxxabiv120__si_class_type_infoE"], vmi = X.abiVt["_ZTVN10__cxxabiv121__vmi_class_type_infoE"];
    if (si && vt == si + 16) bases(X, s, X.load(s, cval(ti + 16), 64).c, obj, out);
    else if (vmi && vt == vmi + 16) {
        u64 cnt = X.load(s, cval(ti + 20), 32).c;
        for (u64 i = 0; i < cnt; i++) {
            u64 b = X.load(s, cval(ti + 24 + 16 * i), 64).c;
            i64 of = (i64)X.load(s, cval(ti + 32 + 16 * i), 64).c;
            i64 off = of >> 8;
            if (of & 1) {
                u64 vptr = X.load(s, cval(obj), 64).c;
                off = (i64)X.load(s, cval(vptr + off), 64).c;
            }
            bases(X, s, b, obj + off, out);
        }
    }
}
EXT(x_dynamic_cast) {
    u64 p = X.concretize(s, a[0], 64);
    u64 vptr = X.load(s, cval(p), 64).c;
    i64 top = (i64)X.load(s, cval(vptr - 16), 64).c;
    u64 ti = X.load(s, cval(vptr - 8), 64).c;
    std::vector<std::pair<u64, u64>> bs;
    bases(X, s, ti, p + top, bs);
    for (auto& b : bs)
        if (b.first == a[2].c) return ret(X, s, d, cval(b.second));
    ret(X, s, d, cval(0));
}

// ------------------------------------------------------------------ harness API
EXT(x_vp_make) {
    u64 p = X.concretize(s, a[0], 64), n = X.concretize(s, a[1], 64);
    std::string name = X.cstr(s, a[2].c);
    SymRec r;
    r.name = name;
    u32 k = s.syms.size();
    u32 id = 0;
    E oe;
    u64 off = 0;
    if (n) X.resolve(s, cval(p), n, true, id, oe, off);
    for (u64 i = 0; i < n; i++) {
        E v = X.freshByte(name + "#" + std::to_string(k) + "[" + std::to_string(i) + "]");
        r.bytes.push_back(v);
        X.setByte(X.objW(s, id), off + i, SB{v, 0}, 0);
    }
    s.syms.push_back(r);
}
EXT(x_vp_assume) {
    Val c = a[0];
    if (!c.e) {
        if (!c.c) throw PathEnd{"assume"};
        return;
    }
    E e = X.simplified(s, c.e->width == 1 ? c.e : mkNe(c.e, mkConst(0, c.e->width)));
    if (isConst(e)) {
        if (!e->val) throw PathEnd{"assume"};
        return;
    }
    Model m;
    if (!X.feasible(s, e, m)) throw PathEnd{"assume"};
    X.addConstraint(s, e);
    s.model = m;
}
EXT(x_vp_assert) {
    Val c = a[0];
    std::string msg = X.cstr(s, a[1].c);
    X.assertQueries++;
    if (!c.e) {
        if (!c.c) X.violation(s, "assert", msg);
        X.assertsProved[msg]++;
        return;
    }
    E e = X.simplified(s, c.e->width == 1 ? c.e : mkNe(c.e, mkConst(0, c.e->width)));
    if (isConst(e)) {
        if (!e->val) X.violation(s, "assert", msg);
        X.assertsProved[msg]++;
        return;
    }
    Model m;
    Sat r = solve(s.pc, mkNot(e), s.model, m);
    if (r == Sat::UNKNOWN) {
        X.incon(s, "solver timeout on assertion '" + msg + "'");
        X.addConstraint(s, e);
        Model m2;
        if (!X.feasible(s, e, m2)) throw PathEnd{"assert"};
        s.model = m2;
        return;
    }
    if (r == Sat::SAT) {
        X.report(s, m, "assert", msg);
        Model m2;
        if (!X.feasible(s, e, m2)) throw PathEnd{"assert"};
        X.addConstraint(s, e);
        s.model = m2;
        return;
    }
    X.assertsProved[msg]++;
}
EXT(x_vp_reach) { X.reached.insert(X.cstr(s, a[0].c)); }
EXT(x_vp_expect) { X.declaredReach.insert(X.cstr(s, a[0].c)); }
EXT(x_vp_concretize) { ret(X, s, d, cval(X.concretize(s, a[0], 64))); }
EXT(x_vp_tier) { ret(X, s, d, cval(X.tier)); }
EXT(x_vp_shard) { ret(X, s, d, cval(X.shard)); }
EXT(x_vp_live) {
    u64 n = 0;
    for (size_t i = 1; i < s.objs.size(); i++) {
        Obj* o = s.objs[i].p;
        if (o && (o->kind == K_HEAP_MALLOC || o->kind == K_HEAP_NEW || o->kind == K_HEAP_NEWARR)) n++;
    }
    ret(X, s, d, cval(n));
}
EXT(x_vp_alloc_limit) { X.lim.allocLimit = X.concretize(s, a[0], 64); }
EXT(x_vp_preempt) { X.lim.preemptions = (int)X.concretize(s, a[0], 64); }
EXT(x_vp_print) {
    fprintf(stderr, "[vp] %s %s\n", X.cstr(s, a[0].c).c_str(), a[1].e ? toString(a[1].e, 5).c_str() : std::to_string((i64)a[1].c).c_str());
}
// is [p, p+n) a live, in-bounds range?
EXT(x_vp_valid) {
    u64 p = X.concretize(s, a[0], 64), n = X.concretize(s, a[1], 64);
    u32 id = p >> 32;
    bool ok = id && id < s.objs.size() && s.objs[id].p && s.objs[id].p->kind != K_FREED;
    if (ok) {
        u64 off = (u32)p - (u64)s.objs[id].p->base;
        ok = off <= s.objs[id].p->size && n <= s.objs[id].p->size - off;
    }
    ret(X, s, d, cval(ok));
}
EXT(x_vp_max_steps) { X.lim.maxSteps = X.concretize(s, a[0], 64); }
EXT(x_vp_native) { ret(X, s, d, cval(0)); }
EXT(x_vp_thread_create) {
    u64 fp = X.concretize(s, a[0], 64);
    auto it = X.fnByObj.find(fp >> 32);
    if (it == X.fnByObj.end()) X.violation(s, "memory", "thread entry is not a function");
    u32 t = X.spawn(s, it->second, {a[1]});
    ret(X, s, d, cval(t));
}
EXT(x_vp_thread_join) {
    u32 t = X.concretize(s, a[0], 64);
    if (t >= s.th.size()) X.violation(s, "thread", "join of invalid thread");
    if (s.th[t].joined) X.violation(s, "thread", "thread joined twice");
    if (s.th[t].status != T_DONE) {
        s.th[s.cur].status = T_BLOCK_JOIN;
        s.th[s.cur].joinTid = t;
        X.switchFrom(s);
        return;
    }
    s.th[t].joined = true;
    X.acquire(s, s.th[t].vc);
}
EXT(x_vp_thread_detach) {}
EXT(x_vp_tid) { ret(X, s, d, cval(s.cur)); }
EXT(x_vp_is_symbolic) { ret(X, s, d, cval(a[0].e ? 1 : 0)); }
EXT(x_vp_yield) {
    if (X.multi(s)) X.schedPoint(s, false);
    ret(X, s, d, cval(0));
}
// number of threads that are not finished (excluding main)
EXT(x_vp_live_threads) {
    u64 n = 0;
    for (size_t i = 1; i < s.th.size(); i++)
        if (s.th[i].status != T_DONE) n++;
    ret(X, s, d, cval(n));
}

// ------------------------------------------------------------------ pthread
EXT(x_mutex_lock) {
    if (X.multi(s)) X.schedPoint(s, false);
    u64 m = X.concretize(s, a[0], 64);
    X.load(s, cval(m), 8);
    auto& M = s.mutexes[m];
    if (M.owner == (int)s.cur) {
        if (M.recursive) {
            M.count++;
            return ret(X, s, d, cval(0));
        }
        X.violation(s, "deadlock", "mutex locked twice by the same thread");
    }
    if (M.owner >= 0 || M.readers > 0) {
        s.th[s.cur].status = T_BLOCK_MUTEX;
        s.th[s.cur].waitAddr = m;
        X.switchFrom(s);
        return;
    }
    M.owner = s.cur;
    M.count = 1;
    X.acquire(s, M.vc);
    ret(X, s, d, cval(0));
}
EXT(x_mutex_trylock) {
    if (X.multi(s)) X.schedPoint(s, false);
    u64 m = X.concretize(s, a[0], 64);
    X.load(s, cval(m), 8);
    auto& M = s.mutexes[m];
    if (M.owner >= 0 || M.readers > 0) return ret(X, s, d, cval(16));
    M.owner = s.cur;
    M.count = 1;
    X.acquire(s, M.vc);
    ret(X, s, d, cval(0));
}
EXT(x_mutex_unlock) {
    u64 m = X.concretize(s, a[0], 64);
    X.load(s, cval(m), 8);
    auto& M = s.mutexes[m];
    if (M.owner != (int)s.cur) {
        if (M.readers > 0) {
            M.readers--;
            X.release(s, M.vc);
            return ret(X, s, d, cval(0));
        }
        X.violation(s, "thread", "unlock of a mutex that is not held");
    }
    if (--M.count == 0) M.owner = -1;
    X.release(s, M.vc);
    ret(X, s, d, cval(0));
}
EXT(x_rw_rdlock) {
    if (X.multi(s)) X.schedPoint(s, false);
    u64 m = X.concretize(s, a[0], 64);
    auto& M = s.mutexes[m];
    if (M.owner == (int)s.cur) X.violation(s, "deadlock", "rwlock locked twice by the same thread");
    if (M.owner >= 0) {
        s.th[s.cur].status = T_BLOCK_RW;
        s.th[s.cur].waitAddr = m;
        X.switchFrom(s);
        return;
    }
    M.readers++;
    X.acquire(s, M.vc);
    ret(X, s, d, cval(0));
}
EXT(x_cond_wait) {
    u64 c = X.concretize(s, a[0], 64), m = X.concretize(s, a[1], 64);
    Thread& T = s.th[s.cur];
    if (T.waitAddr == c && T.waitMutex == m) {
        // woken
        auto& M = s.mutexes[m];
        M.owner = s.cur;
        M.count = 1;
        X.acquire(s, M.vc);
        bool timedOut = T.timedWait && !T.condSignaled;
        T.waitAddr = T.waitMutex = 0;
        T.condSignaled = T.timedWait = false;
        return ret(X, s, d, cval(timedOut ? 110 : 0));
    }
    auto& M = s.mutexes[m];
    if (M.owner != (int)s.cur) X.violation(s, "thread", "condition wait without holding the mutex");
    M.owner = -1;
    M.count = 0;
    X.release(s, M.vc);
    T.status = T_BLOCK_COND;
    T.waitAddr = c;
    T.waitMutex = m;
    T.condSignaled = false;
    T.timedWait = false;
    X.switchFrom(s);
}
EXT(x_cond_timedwait) {
    u64 c = X.concretize(s, a[0], 64), m = X.concretize(s, a[1], 64);
    Thread& T = s.th[s.cur];
    if (T.waitAddr == c && T.waitMutex == m) return x_cond_wait(X, s, d, a);
    auto& M = s.mutexes[m];
    M.owner = -1;
    M.count = 0;
    X.release(s, M.vc);
    T.status = T_BLOCK_COND;
    T.waitAddr = c;
    T.waitMutex = m;
    T.condSignaled = false;
    T.timedWait = true;
    X.switchFrom(s);
}
EXT(x_cond_signal) {
    if (X.multi(s)) X.schedPoint(s, false);
    u64 c = X.concretize(s, a[0], 64);
    std::vector<u32> w;
    for (u32 t = 0; t < s.th.size(); t++)
        if (s.th[t].status == T_BLOCK_COND && s.th[t].waitAddr == c && !s.th[t].condSignaled) w.push_back(t);
    ret(X, s, d, cval(0));
    if (w.empty()) return;
    for (size_t i = 1; i < w.size(); i++) {
        State* k = new State(s);
        k->th[w[i]].condSignaled = true;
        k->schedule.push_back(1000 + w[i]);
        k->th[k->cur].passed = false;
        k->pending.clear();
        advance(X, *k, d);
        X.work.push_back(k);
        X.forks++;
    }
    s.th[w[0]].condSignaled = true;
}
EXT(x_cond_broadcast) {
    if (X.multi(s)) X.schedPoint(s, false);
    u64 c = X.concretize(s, a[0], 64);
    for (auto& t : s.th)
        if (t.status == T_BLOCK_COND && t.waitAddr == c) t.condSignaled = true;
    ret(X, s, d, cval(0));
}
// futex-like wait used by the std::future model: vp_futex_wait(addr, expected)
EXT(x_futex_wait) {
    if (X.multi(s)) X.schedPoint(s, false);
    u64 p = X.concretize(s, a[0], 64);
    Val v = X.load(s, cval(p), 32);
    u64 cur = X.concretize(s, v, 32), exp = X.concretize(s, a[1], 32);
    Thread& T = s.th[s.cur];
    if (cur != exp || T.condSignaled) {
        T.condSignaled = false;
        T.waitAddr = 0;
        return ret(X, s, d, cval(0));
    }
    T.status = T_BLOCK_FUTEX;
    T.waitAddr = p;
    T.condSignaled = false;
    X.switchFrom(s);
}
EXT(x_futex_wake) {
    u64 p = X.concretize(s, a[0], 64);
    for (auto& t : s.th)
        if (t.status == T_BLOCK_FUTEX && t.waitAddr == p) t.condSignaled = true;
}
EXT(x_mutexattr) { ret(X, s, d, cval(0)); }

// ------------------------------------------------------------------ libm on concrete values
template <double (*F)(double)>
static void x_m1(Exec& X, State& s, const DI& d, Args& a) {
    u64 c = X.concretize(s, a[0], 64);
    double x;
    memcpy(&x, &c, 8);
    x = F(x);
    memcpy(&c, &x, 8);
    ret(X, s, d, cval(c));
}
template <double (*F)(double, double)>
static void x_m2(Exec& X, State& s, const DI& d, Args& a) {
    u64 c = X.concretize(s, a[0], 64), c2 = X.concretize(s, a[1], 64);
    double x, y;
    memcpy(&x, &c, 8);
    memcpy(&y, &c2, 8);
    x = F(x, y);
    memcpy(&c, &x, 8);
    ret(X, s, d, cval(c));
}

static std::unordered_map<std::string, ExtFn>& table() {
    static std::unordered_map<std::string, ExtFn> t = {
        {"malloc", x_malloc}, {"calloc", x_calloc}, {"realloc", x_realloc}, {"free", x_free},
        {"posix_memalign", x_posix_memalign}, {"aligned_alloc", x_aligned_alloc}, {"malloc_usable_size", x_usable},
        {"_Znwm", x_new}, {"_Znam", x_newarr}, {"_ZnwmSt11align_val_t", x_newal},
        {"_ZnwmRKSt9nothrow_t", x_newnt}, {"_ZnamRKSt9nothrow_t", x_newarrnt},
        {"_ZdlPv", x_delete}, {"_ZdlPvm", x_delete}, {"_ZdlPvSt11align_val_t", x_delete}, {"_ZdlPvmSt11align_val_t", x_delete},
        {"_ZdlPvRKSt9nothrow_t", x_delete}, {"_ZdaPvRKSt9nothrow_t", x_deletearr},
        {"_ZdaPv", x_deletearr}, {"_ZdaPvm", x_deletearr},
        {"memcpy", x_memcpy}, {"memmove", x_memcpy}, {"memset", x_memset}, {"memcmp", x_memcmp}, {"bcmp", x_bcmp},
        {"__memcpy_chk", x_memcpy}, {"__memmove_chk", x_memcpy}, {"__memset_chk", x_memset},
        {"__cxa_allocate_exception", x_cxa_alloc_exc}, {"__cxa_free_exception", x_nop}, {"__cxa_throw", x_cxa_throw},
        {"__cxa_begin_catch", x_begin_catch}, {"__cxa_end_catch", x_end_catch}, {"__cxa_rethrow", x_rethrow},
        {"__cxa_get_exception_ptr", x_get_exc_ptr}, {"_ZSt9terminatev", x_terminate}, {"abort", x_abort},
        {"__assert_fail", x_assert_fail}, {"__cxa_pure_virtual", x_pure}, {"exit", x_exit}, {"_exit", x_exit},
        {"__cxa_guard_acquire", x_guard_acquire}, {"__cxa_guard_release", x_guard_release}, {"__cxa_guard_abort", x_guard_abort},
        {"__cxa_atexit", x_nop}, {"__cxa_thread_atexit", x_nop}, {"atexit", x_nop}, {"__dynamic_cast", x_dynamic_cast},
        {"printf", x_nop}, {"puts", x_nop}, {"fprintf", x_nop}, {"fputs", x_nop}, {"putchar", x_nop},
        {"vp_make", x_vp_make}, {"vp_assume", x_vp_assume}, {"vp_assert", x_vp_assert}, {"vp_reach", x_vp_reach},
        {"vp_expect", x_vp_expect}, {"vp_concretize", x_vp_concretize}, {"vp_tier", x_vp_tier}, {"vp_shard", x_vp_shard},
        {"vp_live_heap", x_vp_live}, {"vp_alloc_limit", x_vp_alloc_limit}, {"vp_print", x_vp_print}, {"vp_valid", x_vp_valid},
        {"vp_max_steps", x_vp_max_steps}, {"vp_native", x_vp_native}, {"vp_preemptions", x_vp_preempt},
        {"vp_thread_create", x_vp_thread_create}, {"vp_thread_join", x_vp_thread_join}, {"vp_thread_detach", x_vp_thread_detach},
        {"vp_tid", x_vp_tid}, {"vp_is_symbolic", x_vp_is_symbolic}, {"vp_yield", x_vp_yield}, {"vp_live_threads", x_vp_live_threads},
        {"vp_futex_wait", x_futex_wait}, {"vp_futex_wake", x_futex_wake}, {"sched_yield", x_vp_yield},
        {"pthread_mutex_lock", x_mutex_lock}, {"pthread_mutex_trylock", x_mutex_trylock}, {"pthread_mutex_unlock", x_mutex_unlock},
        {"pthread_mutex_init", x_nop}, {"pthread_mutex_destroy", x_nop},
        {"pthread_rwlock_wrlock", x_mutex_lock}, {"pthread_rwlock_rdlock", x_rw_rdlock}, {"pthread_rwlock_unlock", x_mutex_unlock},
        {"pthread_rwlock_init", x_nop}, {"pthread_rwlock_destroy", x_nop},
        {"pthread_cond_init", x_nop}, {"pthread_cond_destroy", x_nop}, {"pthread_cond_wait", x_cond_wait},
        {"pthread_cond_timedwait", x_cond_timedwait}, {"pthread_cond_clockwait", x_cond_timedwait},
        {"pthread_cond_signal", x_cond_signal}, {"pthread_cond_broadcast", x_cond_broadcast},
        {"pthread_self", x_vp_tid},
        {"log", x_m1<::log>}, {"log2", x_m1<::log2>}, {"exp", x_m1<::exp>}, {"ceil", x_m1<::ceil>}, {"floor", x_m1<::floor>},
        {"round", x_m1<::round>}, {"sqrt", x_m1<::sqrt>}, {"pow", x_m2<::pow>}, {"fmod", x_m2<::fmod>},
    };
    return t;
}
ExtFn Exec::findExt(const std::string& name) {
    auto it = table().find(name);
    return it == table().end() ? nullptr : it->second;
}
}  // namespace symx
