// Symbolic state: memory objects, frames, threads.
#pragma once
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

#include "expr.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/Module.h"

namespace symx {
struct Val {
    u64 c;
    E e;  // null: concrete value in c (width <= 64)
};
inline Val cval(u64 c) { return Val{c, nullptr}; }
inline Val eval2val(E e) {
    if (e->op == OP_CONST && e->width <= 64) return Val{(u64)e->val, nullptr};
    return Val{0, e};
}
inline E val2e(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

constexpr unsigned PS = 128;
struct SB {
    E e;      // null: concrete
    u32 idx;  // byte index inside e
};
extern const Expr* const UNINIT;

struct Page {
    int rc = 1;
    u8 data[PS];
    SB* sym = nullptr;
    ~Page() { delete[] sym; }
};

enum ObjKind : u8 { K_GLOBAL, K_HEAP_MALLOC, K_HEAP_NEW, K_HEAP_NEWARR, K_STACK, K_FUNC, K_FREED, K_EXC };

struct Shadow;
struct Obj {
    int rc = 1;
    u32 id = 0;
    u32 base = 0;  // low 32 bits of the start address
    u64 size = 0;
    E symSize = nullptr;  // 64-bit, overrides size when set (size = capacity)
    ObjKind kind = K_GLOBAL;
    bool readonly = false;
    bool zeroFill = false;
    u8 freedKind = 0;
    const char* name = "";
    const llvm::Instruction* site = nullptr;
    const llvm::Function* fn = nullptr;
    std::vector<Page*> pages;                    // small objects
    std::unordered_map<u32, Page*> big;          // large objects
    bool isBig = false;
    Shadow* shadow = nullptr;  // race-detection metadata
    ~Obj();
    u64 addr() const { return ((u64)id << 32) | base; }
    Page* page(u32 i) const {
        if (!isBig) return pages[i];
        auto it = big.find(i);
        return it == big.end() ? nullptr : it->second;
    }
};

struct ObjP {
    Obj* p = nullptr;
    ObjP() {}
    explicit ObjP(Obj* o) : p(o) {}
    ObjP(const ObjP& o) : p(o.p) {
        if (p) p->rc++;
    }
    ObjP(ObjP&& o) noexcept : p(o.p) { o.p = nullptr; }
    ObjP& operator=(ObjP o) {
        std::swap(p, o.p);
        return *this;
    }
    ~ObjP() {
        if (p && --p->rc == 0) delete p;
    }
};

struct FnInfo;
struct Frame {
    FnInfo* fn = nullptr;
    u32 ip = 0;
    u32 prevBlock = 0;
    std::vector<Val> regs;
    std::vector<u32> allocas;
    std::vector<Val> varargs;
    std::vector<u32> varargW;
    u8 onReturn = 0;     // 1: special continuation (thread entry, atexit...)
    u64 onReturnArg = 0;
};

struct Caught {
    u64 exc;
    int handlers;
};
struct ExcInfo {
    u64 tinfo, dtor;
    int handlers = 0;
    int refs = 1;
};

typedef std::vector<u32> VClock;
enum ThStatus : u8 { T_RUN, T_BLOCK_MUTEX, T_BLOCK_COND, T_BLOCK_JOIN, T_DONE, T_BLOCK_FUTEX, T_BLOCK_RW };
struct Thread {
    std::vector<Frame> stack;
    ThStatus status = T_RUN;
    u64 waitAddr = 0;
    u64 waitMutex = 0;
    u32 joinTid = 0;
    bool condSignaled = false;
    bool detached = false, joined = false;
    bool timedWait = false, timedOut = false;
    std::vector<u64> caught;
    VClock vc;
    std::map<const llvm::GlobalVariable*, u64> tls;
    u64 joinHandle = 0;
    bool passed = false;  // scheduling choice already taken for the current instruction
};

struct SymRec {
    std::string name;
    std::vector<E> bytes;
};

struct MutexSt {
    int owner = -1;
    int count = 0;
    int readers = 0;
    bool recursive = false;
    VClock vc;
};

struct State {
    std::vector<Thread> th;
    u32 cur = 0;
    std::vector<ObjP> objs;
    std::vector<E> pc;
    Model model;
    std::vector<SymRec> syms;
    std::vector<std::pair<E, u128>> pending;  // decisions of the instruction being executed
    std::vector<std::pair<E, u128>> known;    // expressions fixed to a constant on this path
    std::vector<u8> fixed;  // per variable: 1 = equal to its model value on this path, 2 = occurs in a known expression
    std::map<u64, ExcInfo> excs;
    std::map<u64, MutexSt> mutexes;
    std::map<u64, VClock> atomicVC;
    std::map<u64, int> guards;
    E concE = nullptr;  // expression whose values this state enumerates
    u32 concN = 0;
    u64 steps = 0;
    u32 forks = 0;
    u32 preemptions = 0;
    u32 run = 0;  // scheduling points of the current thread since it was switched to
    u32 newFailCountdown = 0;
    u64 liveHeap = 0, liveHeapObjs = 0;
    std::vector<u32> schedule;  // chosen threads at scheduling points
    u32 uninitCounter = 0;
    std::vector<std::string> notes;
};
}  // namespace symx
