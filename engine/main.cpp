// symx: symbolic execution of LLVM bitcode.
//   symx --list m.bc
//   symx m.bc --harness NAME [--shard K] [--tier N] [--wall S] [--qtime MS] --out result.json
#include <sys/resource.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <thread>
#include <pthread.h>

#include "exec.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/GlobalVariable.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"

using namespace llvm;
using namespace symx;

static std::string esc(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += c;
        } else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else
            r += c;
    }
    return r + "\"";
}
template <class T>
static std::string arr(const T& v) {
    std::string r = "[";
    bool f = true;
    for (auto& x : v) {
        if (!f) r += ",";
        f = false;
        r += esc(x);
    }
    return r + "]";
}

void Exec::runHarness(const std::string& fn) {
    startTime = nowSec();
    State* s = new State();
    s->th.emplace_back();
    s->th[0].vc = {1};
    initGlobals(*s);
    // static constructors first, then the harness; both run inside a synthetic sequence of calls
    std::vector<const Function*> seq;
    if (auto* gc = M.getGlobalVariable("llvm.global_ctors")) {
        std::vector<std::pair<u64, const Function*>> cs;
        if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
            for (unsigned i = 0; i < ca->getNumOperands(); i++) {
                auto* st = llvm::cast<ConstantStruct>(ca->getOperand(i));
                if (auto* F = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts()))
                    cs.push_back({llvm::cast<ConstantInt>(st->getOperand(0))->getZExtValue(), F});
            }
        std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
        for (auto& c : cs) seq.push_back(c.second);
    }
    for (auto* F : seq) {
        std::vector<Val> none;
        pushCall(*s, getFn(F), none, nullptr, 0);
        try {
            while (step(*s)) {
                if (!work.empty()) {
                    inconclusive.insert("static initialiser forks");
                    return;
                }
            }
        } catch (PathEnd&) {
            inconclusive.insert("static initialiser " + demangle(F->getName().str()) + " failed");
            return;
        }
    }
    auto it = fnByName.find(fn);
    if (it == fnByName.end() || it->second->F->isDeclaration()) {
        inconclusive.insert("no such harness");
        return;
    }
    std::vector<Val> none;
    pushCall(*s, it->second, none, nullptr, 0);
    s->steps = 0;
    work.push_back(s);
    run();
}

struct Opts {
    std::string bc, harness, out;
    int shard = 0, tier = 0;
    bool list = false;
    double wall = 600;
    double grace = 0;
    int preempt = 2;
    int fair = 400;
    u64 mem = 3500;
    u64 maxSteps = 20000000;
} O;
static int g_rc = 0;

static void realMain() {
    LLVMContext ctx;
    SMDiagnostic err;
    auto m = parseIRFile(O.bc, err, ctx);
    if (!m) {
        err.print("symx", errs());
        g_rc = 3;
        return;
    }
    if (O.list) {
        for (auto& F : *m) {
            std::string n = F.getName().str();
            if (n.rfind("vp_h_", 0) == 0 && !F.isDeclaration()) {
                std::string h = n.substr(5);
                int sh = 1, sq = 1;
                if (auto* g = m->getGlobalVariable("vp_shards_" + h, true))
                    if (g->hasInitializer())
                        if (auto* ci = dyn_cast<ConstantInt>(g->getInitializer())) sh = ci->getZExtValue();
                (void)sq;
                printf("%s %d\n", h.c_str(), sh);
            }
        }
        return;
    }
    Exec X(*m);
    X.shard = O.shard;
    X.tier = O.tier;
    X.lim.wall = O.wall;
    X.lim.grace = O.grace;
    X.lim.preemptions = O.preempt;
    X.lim.fair = O.fair;
    X.lim.memMB = O.mem;
    X.lim.maxSteps = O.maxSteps;
    X.runHarness("vp_h_" + O.harness);
    double wall = nowSec() - X.startTime;
    std::string j = "{";
    auto kv = [&](const char* k, const std::string& v) { j += std::string(j.size() > 1 ? ",\n" : "\n") + " \"" + k + "\": " + v; };
    kv("harness", esc(O.harness));
    kv("shard", std::to_string(O.shard));
    kv("tier", std::to_string(O.tier));
    kv("status", esc(!X.violations.empty() ? "violation" : !X.inconclusive.empty() ? "inconclusive" : "ok"));
    kv("fair_switches", std::to_string(X.fairSwitches));
    kv("wall_s", std::to_string(wall));
    kv("paths", std::to_string(X.paths));
    kv("paths_cut", std::to_string(X.pathsCut));
    kv("instructions", std::to_string(X.steps));
    kv("forks", std::to_string(X.forks));
    kv("max_fork_depth", std::to_string(X.maxDepth));
    kv("sched_points", std::to_string(X.schedPoints));
    kv("assert_checks", std::to_string(X.assertQueries));
    kv("memory_checks", std::to_string(X.memChecks));
    kv("symbolic_bytes", std::to_string(X.symVars));
    kv("expressions", std::to_string(numExprs()));
    kv("solver", esc(solverVersion()));
    kv("queries", std::to_string(g_solverStats.queries));
    kv("queries_sat", std::to_string(g_solverStats.sat));
    kv("queries_unsat", std::to_string(g_solverStats.unsat));
    kv("queries_unknown", std::to_string(g_solverStats.unknown));
    kv("query_cache_hits", std::to_string(g_solverStats.cacheHits));
    kv("queries_small", std::to_string(g_solverStats.small));
    kv("queries_linear", std::to_string(g_solverStats.linear));
    kv("model_hits", std::to_string(g_solverStats.modelHits));
    kv("model_hits", std::to_string(g_solverStats.modelHits));
    kv("solver_s", std::to_string(g_solverStats.seconds));
    kv("solver_max_s", std::to_string(g_solverStats.maxSeconds));
    kv("inconclusive", arr(X.inconclusive));
    kv("reached", arr(X.reached));
    kv("expected", arr(X.declaredReach));
    kv("unmodelled", arr(X.externsUnmodelled));
    kv("models_used", arr(X.externsUsed));
    kv("samples", arr(X.samples));
    {
        std::string p = "{";
        for (auto& a : X.assertsProved) p += std::string(p.size() > 1 ? "," : "") + esc(a.first) + ":" + std::to_string(a.second);
        kv("asserts", p + "}");
    }
    {
        std::vector<std::string> fs;
        u64 ic = 0, it = 0;
        for (auto& f : X.fns) {
            if (!f.second->calls) continue;
            std::string dn = demangle(f.second->name);
            if (dn.find("paimon") == std::string::npos && dn.find("roaring") == std::string::npos) continue;
            for (u8 c : f.second->covered) {
                ic += c;
                it++;
            }
            fs.push_back(dn);
        }
        std::sort(fs.begin(), fs.end());
        kv("functions", arr(fs));
        kv("insts_covered", std::to_string(ic));
        kv("insts_total", std::to_string(it));
    }
    {
        std::string v = "[";
        for (auto& x : X.violations) {
            if (v.size() > 1) v += ",";
            v += "{\"kind\":" + esc(x.kind) + ",\"msg\":" + esc(x.msg) + ",\"loc\":" + esc(x.loc) + ",\"count\":" + std::to_string(x.count) + ",\"stack\":" + arr(x.stack) + ",\"values\":[";
            bool f = true;
            for (auto& p : x.values) {
                if (!f) v += ",";
                f = false;
                v += "[" + esc(p.first) + "," + esc(p.second) + "]";
            }
            v += "],\"schedule\":[";
            f = true;
            for (u32 t : x.schedule) {
                if (!f) v += ",";
                f = false;
                v += std::to_string(t);
            }
            v += "]}";
        }
        kv("violations", v + "]");
    }
    j += "\n}\n";
    FILE* fp = O.out.empty() ? stdout : fopen(O.out.c_str(), "w");
    if (!fp) {
        g_rc = 3;
        return;
    }
    fputs(j.c_str(), fp);
    if (fp != stdout) fclose(fp);
    fflush(stdout);
    _Exit(0);
}

int main(int argc, char** argv) {
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nxt = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--list") O.list = true;
        else if (a == "--harness") O.harness = nxt();
        else if (a == "--shard") O.shard = atoi(nxt().c_str());
        else if (a == "--tier") O.tier = atoi(nxt().c_str());
        else if (a == "--wall") O.wall = atof(nxt().c_str());
        else if (a == "--grace") O.grace = atof(nxt().c_str());
        else if (a == "--qtime") g_queryTimeoutMs = atoi(nxt().c_str());
        else if (a == "--preempt") O.preempt = atoi(nxt().c_str());
        else if (a == "--fair") O.fair = atoi(nxt().c_str());
        else if (a == "--mem") O.mem = atoll(nxt().c_str());
        else if (a == "--max-steps") O.maxSteps = atoll(nxt().c_str());
        else if (a == "--out") O.out = nxt();
        else O.bc = a;
    }
    // deep recursion over expressions needs a large stack
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1ull << 30);
    pthread_t t;
    pthread_create(&t, &at, [](void*) -> void* { realMain(); return nullptr; }, nullptr);
    pthread_join(t, nullptr);
    return g_rc;
}
