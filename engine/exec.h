#pragma once
#include <functional>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

#include "solver.h"
#include "state.h"
#include "llvm/IR/DataLayout.h"

namespace symx {
struct Leaf {
    u32 w, off;
};
struct Opd {
    int32_t slot;
};
struct DI;
struct FnInfo;
class Exec;
typedef void (*ExtFn)(Exec&, State&, const DI&, std::vector<Val>& args);

struct PhiMove {
    u32 dst;
    Opd src;
    u32 n;
};
struct Extra {
    // gep
    i64 constOff = 0;
    struct Idx {
        Opd o;
        u64 scale;
        u32 w;
    };
    std::vector<Idx> idx;
    // load/store leaves
    const std::vector<Leaf>* leaves = nullptr;
    u64 size = 0, align = 1;
    // branch/switch
    std::vector<std::pair<u128, u32>> cases;
    u32 t = 0, f = 0;
    // call
    FnInfo* callee = nullptr;
    ExtFn ext = nullptr;
    unsigned iid = 0;
    std::vector<Opd> args;
    std::vector<u32> argN;
    std::vector<u32> argW;

    u32 nFixed = 0;
    std::vector<int> mask;  // shufflevector
    u32 leafOff = 0;        // extractvalue/insertvalue

};
struct DI {
    const llvm::Instruction* I = nullptr;
    u16 op = 0;
    u16 w = 0;    // width of result leaf (or compared operand)
    u16 w2 = 0;   // source width for casts
    u16 n = 1;    // number of leaves of the result
    u32 dst = 0;
    Opd a{0}, b{0}, c{0};
    u16 pred = 0;
    Extra* x = nullptr;

};
struct FnInfo {
    const llvm::Function* F = nullptr;
    std::string name;
    bool decoded = false;
    std::vector<DI> code;
    std::vector<u32> blockStart;
    std::vector<std::unordered_map<u32, std::vector<PhiMove>>> phis;
    std::vector<u32> instBlock;
    u32 nregs = 0;
    std::vector<u32> argSlot, argN;
    std::vector<Val> consts;
    std::vector<u8> covered;
    u64 calls = 0;
    u64 addr = 0;
};

struct PathEnd {
    const char* why;
};

struct Violation {
    std::string kind, msg, loc, harness;
    std::vector<std::string> stack;
    std::vector<std::pair<std::string, std::string>> values;
    std::vector<u32> schedule;
    u64 count = 1;
    std::string key() const { return kind + "|" + msg + "|" + loc; }
};

struct Limits {
    double wall = 600;
    double grace = 0;  // seconds to go on after the first violation, 0: no limit
    u64 maxSteps = 20000000;      // per path
    u64 maxPaths = 100000000;
    u64 allocLimit = 64ull << 20;
    u32 maxConcretize = 600;
    int preemptions = 2;
    u32 fair = 400;  // scheduling points a thread may pass while another could run
    u64 memMB = 3500;
};

class Exec {
 public:
    Exec(llvm::Module& m);
    llvm::Module& M;
    llvm::DataLayout DL;
    Limits lim;
    int shard = 0;
    int tier = 0;

    void runHarness(const std::string& fn);

    // results
    std::vector<Violation> violations;
    double firstViolation = 0;
    u64 fairSwitches = 0;
    std::set<std::string> inconclusive;
    std::set<std::string> reached;
    std::set<std::string> declaredReach;
    std::map<std::string, u64> assertsProved;
    u64 paths = 0, pathsCut = 0, steps = 0, forks = 0, assertQueries = 0, symVars = 0, maxDepth = 0, schedPoints = 0, memChecks = 0;
    std::map<std::string, std::string> counters;
    std::set<std::string> externsUsed, externsUnmodelled;
    std::set<std::string> samplesSet;
    std::vector<std::string> samples;
    bool leakCheck = false;
    bool raceCheck = true;
    std::string traceFn;

    // internals used by external models
    std::unordered_map<const llvm::Value*, u64> gaddr;
    std::unordered_map<std::string, FnInfo*> fnByName;
    std::unordered_map<const llvm::Function*, FnInfo*> fns;
    std::unordered_map<u32, FnInfo*> fnByObj;
    std::vector<State*> work;

    FnInfo* getFn(const llvm::Function* F);
    void decode(FnInfo* f);
    const std::vector<Leaf>& leavesOf(llvm::Type* t);
    void flattenConst(const llvm::Constant* c, std::vector<Val>& out);
    void initGlobals(State& s);
    void writeConst(State& s, Obj* o, u64 off, const llvm::Constant* c);

    Frame& top(State& s) { return s.th[s.cur].stack.back(); }
    Val get(Frame& f, Opd o, u32 leaf = 0) {
        return o.slot >= 0 ? f.regs[o.slot + leaf] : f.fn->consts[~o.slot + leaf];
    }
    void setRes(State& s, const DI& d, Val v, u32 leaf = 0) { top(s).regs[d.dst + leaf] = v; }

    // memory
    u32 newObj(State& s, u64 size, ObjKind k, u32 base, bool zero, const char* name, const llvm::Instruction* site);
    Obj* objW(State& s, u32 id);
    Page* pageW(Obj* o, u32 pi);
    void freeObj(State& s, u64 addr, int kind);
    u64 resolve(State& s, Val addr, u64 n, bool write, u32& id, E& offE, u64& off);
    Val loadLeaf(State& s, Obj* o, u64 off, u32 w);
    void storeLeaf(State& s, Obj* o, u64 off, u32 w, Val v);
    Val load(State& s, Val addr, u32 w);
    void store(State& s, Val addr, u32 w, Val v);
    SB getSB(Obj* o, u64 off, u8& conc);
    void setByte(Obj* o, u64 off, SB sb, u8 conc);
    E byteE(State& s, u32 id, u64 off);
    void access(State& s, const DI& d, Val addr, bool write, std::vector<Val>& vals);
    void checkRange(State& s, Val addr, Val nv, bool write);
    void memCopy(State& s, Val dst, Val src, Val n);
    void memSet(State& s, Val dst, Val byte, Val n);
    Val memCmp(State& s, Val a, Val b, Val n, bool eqOnly);
    std::string cstr(State& s, u64 addr);
    u64 allocate(State& s, Val size, ObjKind k, u32 align, bool zero);
    void checkRange(State& s, u64 addr, u64 n, bool write);
    void raceAccess(State& s, u32 id, u64 off, u64 n, bool write, bool atomic);

    // decisions
    bool decide(State& s, E c);
    u64 concretize(State& s, Val v, u32 w);
    void addConstraint(State& s, E c);
    E simplified(State& s, E e);
    bool feasible(State& s, E c, Model& m);

    [[noreturn]] void violation(State& s, const std::string& kind, const std::string& msg);
    void report(State& s, const Model& m, const std::string& kind, const std::string& msg);
    void incon(State& s, const std::string& what);
    std::string locOf(const llvm::Instruction* I);
    std::string where(State& s);

    // control
    void run();
    bool step(State& s);
    void jump(State& s, Frame& f, u32 blk);
    void pushCall(State& s, FnInfo* callee, std::vector<Val>& args, const std::vector<u32>* argW, u32 nFixed);
    void doCall(State& s, const DI& d);
    void doRet(State& s, const DI* d);
    void throwExc(State& s, u64 exc, bool fromInvokeFrame);
    void unwind(State& s, u64 exc);
    void popFrame(State& s);
    bool typeMatches(State& s, u64 thrown, u64 catcher);
    void threadExit(State& s);
    void intrinsic(State& s, const DI& d);
    void binop(State& s, const DI& d);
    void doCast(State& s, const DI& d);
    Val icmp(u32 pred, Val a, Val b, u32 w);
    Val fcmp(State& s, u32 pred, Val a, Val b, u32 w);
    Val binVal(State& s, u32 op, Val a, Val b, u32 w);
    void finishPath(State& s);

    // threads
    bool enabled(State& s, u32 t);
    bool schedPoint(State& s, bool blocking);
    void switchFrom(State& s);
    u32 spawn(State& s, FnInfo* f, std::vector<Val> args);
    bool multi(State& s);
    void acquire(State& s, VClock& v);
    void release(State& s, VClock& v);

    ExtFn findExt(const std::string& name);
    u64 sizeOfType(llvm::Type* t) { return DL.getTypeAllocSize(t); }
    double startTime = 0;
    bool stop = false;
    u64 newSymCounter = 0;
    std::map<std::string, u64> abiVt;
    E freshByte(const std::string& name);
    std::unordered_map<std::string, u32> varByName;
};
double nowSec();
std::string demangle(const std::string& s);
}  // namespace symx
