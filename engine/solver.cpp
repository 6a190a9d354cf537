#include "solver.h"

#include <z3.h>

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <unordered_map>

namespace symx {
SolverStats g_solverStats;
unsigned g_queryTimeoutMs = 60000;
unsigned g_incTimeoutMs = 100;  // limit of the incremental solver before the one-shot solver takes over

static Z3_context C = nullptr;
static Z3_solver S = nullptr;
static std::vector<Z3_ast> g_pinned;
static std::unordered_map<u32, Z3_ast> g_proxy;  // expr id -> proxy literal
static u64 g_sinceReset = 0;
static const u64 resetEvery = getenv("SYMX_RESET") ? atoi(getenv("SYMX_RESET")) : 200;
static std::string g_err;

static void onError(Z3_context c, Z3_error_code e) { g_err = Z3_get_error_msg(c, e); }

static void init() {
    if (C) return;
    Z3_config cfg = Z3_mk_config();
    C = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(C, onError);
}
static void newSolver() {
    if (S) Z3_solver_dec_ref(C, S);
    const char* logic = getenv("SYMX_LOGIC");
    S = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, logic ? logic : "QF_FD"));
    Z3_solver_inc_ref(C, S);
    Z3_params p = Z3_mk_params(C);
    Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), std::min(g_queryTimeoutMs, g_incTimeoutMs));
    Z3_solver_set_params(C, S, p);
    Z3_params_dec_ref(C, p);
    g_proxy.clear();
    g_sinceReset = 0;
}
std::string solverVersion() {
    unsigned a, b, c, d;
    Z3_get_version(&a, &b, &c, &d);
    return "z3 " + std::to_string(a) + "." + std::to_string(b) + "." + std::to_string(c);
}

static Z3_ast bvConst(u128 v, unsigned w) {
    if (w <= 64) return Z3_mk_unsigned_int64(C, (uint64_t)v, Z3_mk_bv_sort(C, w));
    Z3_ast hi = Z3_mk_unsigned_int64(C, (uint64_t)(v >> 64), Z3_mk_bv_sort(C, w - 64));
    Z3_ast lo = Z3_mk_unsigned_int64(C, (uint64_t)v, Z3_mk_bv_sort(C, 64));
    return Z3_mk_concat(C, hi, lo);
}
static Z3_ast toBV(E e);
static Z3_ast toBool(E e);

static Z3_ast pin(Z3_ast a) {
    Z3_inc_ref(C, a);
    return a;
}

static Z3_ast toBool(E e) {
    if (e->z3bool) return (Z3_ast)e->z3bool;
    Z3_ast r;
    switch (e->op) {
        case OP_CONST: r = e->val ? Z3_mk_true(C) : Z3_mk_false(C); break;
        case OP_EQ:
            r = e->a->width == 1 ? Z3_mk_iff(C, toBool(e->a), toBool(e->b)) : Z3_mk_eq(C, toBV(e->a), toBV(e->b));
            break;
        case OP_ULT: r = Z3_mk_bvult(C, toBV(e->a), toBV(e->b)); break;
        case OP_ULE: r = Z3_mk_bvule(C, toBV(e->a), toBV(e->b)); break;
        case OP_SLT: r = Z3_mk_bvslt(C, toBV(e->a), toBV(e->b)); break;
        case OP_SLE: r = Z3_mk_bvsle(C, toBV(e->a), toBV(e->b)); break;
        case OP_NOT: r = Z3_mk_not(C, toBool(e->a)); break;
        case OP_AND: {
            Z3_ast x[2] = {toBool(e->a), toBool(e->b)};
            r = Z3_mk_and(C, 2, x);
            break;
        }
        case OP_OR: {
            Z3_ast x[2] = {toBool(e->a), toBool(e->b)};
            r = Z3_mk_or(C, 2, x);
            break;
        }
        case OP_XOR: r = Z3_mk_xor(C, toBool(e->a), toBool(e->b)); break;
        case OP_ITE: r = Z3_mk_ite(C, toBool(e->a), toBool(e->b), toBool(e->c)); break;
        default: r = Z3_mk_eq(C, toBV(e), bvConst(1, 1)); break;
    }
    e->z3bool = pin(r);
    return r;
}
static Z3_ast toBV(E e) {
    if (e->z3bv) return (Z3_ast)e->z3bv;
    Z3_ast r;
    if (e->width == 1 && e->op != OP_VAR && e->op != OP_EXTRACT && e->op != OP_CONST) {
        r = Z3_mk_ite(C, toBool(e), bvConst(1, 1), bvConst(0, 1));
        e->z3bv = pin(r);
        return r;
    }
    switch (e->op) {
        case OP_CONST: r = bvConst(e->val, e->width); break;
        case OP_VAR:
            r = Z3_mk_const(C, Z3_mk_int_symbol(C, (int)(u32)e->val), Z3_mk_bv_sort(C, e->width));
            break;
        case OP_CONCAT: r = Z3_mk_concat(C, toBV(e->a), toBV(e->b)); break;
        case OP_EXTRACT: r = Z3_mk_extract(C, (unsigned)e->val + e->width - 1, (unsigned)e->val, toBV(e->a)); break;
        case OP_ZEXT: r = Z3_mk_zero_ext(C, e->width - e->a->width, toBV(e->a)); break;
        case OP_SEXT: r = Z3_mk_sign_ext(C, e->width - e->a->width, toBV(e->a)); break;
        case OP_ADD: r = Z3_mk_bvadd(C, toBV(e->a), toBV(e->b)); break;
        case OP_SUB: r = Z3_mk_bvsub(C, toBV(e->a), toBV(e->b)); break;
        case OP_MUL: r = Z3_mk_bvmul(C, toBV(e->a), toBV(e->b)); break;
        case OP_UDIV: r = Z3_mk_bvudiv(C, toBV(e->a), toBV(e->b)); break;
        case OP_SDIV: r = Z3_mk_bvsdiv(C, toBV(e->a), toBV(e->b)); break;
        case OP_UREM: r = Z3_mk_bvurem(C, toBV(e->a), toBV(e->b)); break;
        case OP_SREM: r = Z3_mk_bvsrem(C, toBV(e->a), toBV(e->b)); break;
        case OP_AND: r = Z3_mk_bvand(C, toBV(e->a), toBV(e->b)); break;
        case OP_OR: r = Z3_mk_bvor(C, toBV(e->a), toBV(e->b)); break;
        case OP_XOR: r = Z3_mk_bvxor(C, toBV(e->a), toBV(e->b)); break;
        case OP_NOT: r = Z3_mk_bvnot(C, toBV(e->a)); break;
        case OP_SHL: r = Z3_mk_bvshl(C, toBV(e->a), toBV(e->b)); break;
        case OP_LSHR: r = Z3_mk_bvlshr(C, toBV(e->a), toBV(e->b)); break;
        case OP_ASHR: r = Z3_mk_bvashr(C, toBV(e->a), toBV(e->b)); break;
        case OP_ITE: r = Z3_mk_ite(C, toBool(e->a), toBV(e->b), toBV(e->c)); break;
        default: fprintf(stderr, "toBV: bad op\n"); abort();
    }
    e->z3bv = pin(r);
    return r;
}

static Z3_ast proxyFor(E e) {
    auto it = g_proxy.find(e->id);
    if (it != g_proxy.end()) return it->second;
    Z3_ast p = pin(Z3_mk_fresh_const(C, "p", Z3_mk_bool_sort(C)));
    Z3_solver_assert(C, S, Z3_mk_implies(C, p, toBool(e)));
    g_proxy.emplace(e->id, p);
    return p;
}

struct VecHash {
    size_t operator()(const std::vector<u32>& v) const {
        u64 h = 1469598103934665603ull;
        for (u32 x : v) {
            h ^= x;
            h *= 1099511628211ull;
        }
        return h;
    }
};
struct CacheEnt {
    Sat r;
    std::vector<std::pair<u32, u64>> m;
};
static std::unordered_map<std::vector<u32>, CacheEnt, VecHash> g_cache;

static void conj(E e, std::vector<E>& out) {
    if (e->op == OP_AND && e->width == 1) {
        conj(e->a, out);
        conj(e->b, out);
    } else
        out.push_back(e);
}

#include "lin.inc"
#include "small.inc"

Sat solve(const std::vector<E>& pc, E q, const Model& cur, Model& out) {
    if (isTrue(q)) {
        out = cur;
        return Sat::SAT;
    }
    if (isFalse(q)) return Sat::UNSAT;
    if (evalExpr(q, cur)) {
        g_solverStats.modelHits++;
        out = cur;
        return Sat::SAT;
    }
    init();
    // independence slicing
    static std::vector<u8> inSlice;
    static std::vector<u32> touched;
    touched.clear();
    if (inSlice.size() < g_vars.size()) inSlice.resize(g_vars.size() + 1024, 0);
    auto addVars = [&](E e) {
        for (u32 v : supportOf(e))
            if (!inSlice[v]) {
                inSlice[v] = 1;
                touched.push_back(v);
            }
    };
    addVars(q);
    std::vector<E> slice;
    std::vector<u8> used(pc.size(), 0);
    bool changed = true;
    while (changed) {
        changed = false;
        for (size_t i = pc.size(); i-- > 0;) {
            if (used[i]) continue;
            bool hit = false;
            for (u32 v : supportOf(pc[i]))
                if (inSlice[v]) {
                    hit = true;
                    break;
                }
            if (hit) {
                used[i] = 1;
                slice.push_back(pc[i]);
                size_t before = touched.size();
                addVars(pc[i]);
                if (touched.size() != before) changed = true;
            }
        }
    }
    std::vector<E> lits;
    for (E e : slice) conj(e, lits);
    conj(q, lits);
    std::sort(lits.begin(), lits.end(), [](E x, E y) { return x->id < y->id; });
    lits.erase(std::unique(lits.begin(), lits.end()), lits.end());
    std::vector<u32> key;
    key.reserve(lits.size());
    for (E e : lits) key.push_back(e->id);
    auto it = g_cache.find(key);
    Sat res;
    if (it != g_cache.end()) {
        g_solverStats.cacheHits++;
        res = it->second.r;
        if (res == Sat::SAT) {
            out = cur;
            for (auto& kv : it->second.m) {
                if (out.size() <= kv.first) out.resize(kv.first + 1, 0);
                out[kv.first] = kv.second;
            }
        }
    } else {
        auto t0 = std::chrono::steady_clock::now();
        g_err.clear();
        Z3_lbool r = Z3_L_UNDEF;
        static int giveUps = 0, skip = 0;
        bool lin = false;
        std::vector<std::pair<u32, u64>> linVals;
        static const bool noLin = getenv("SYMX_NOLIN") != nullptr, cross = getenv("SYMX_CROSS") != nullptr;
        // models of recent queries
        static std::vector<Model> recent(8);
        static unsigned recentAt = 0;
        bool small = false;
        static const bool noSmall = getenv("SYMX_NOSMALL") != nullptr;
        if (!noSmall) {
            static Model cand;
            cand = cur;
            u32 top = *std::max_element(touched.begin(), touched.end());
            if (cand.size() <= top) cand.resize(top + 1, 0);
            for (unsigned k = 0; k < recent.size() && r == Z3_L_UNDEF; k++) {
                const Model& m = recent[(recentAt + recent.size() - k) % recent.size()];
                if (m.empty()) continue;
                for (u32 v : touched) cand[v] = v < m.size() ? m[v] : 0;
                bool ok = true;
                for (size_t i = lits.size(); ok && i-- > 0;) ok = evalExpr(lits[i], cand) != 0;
                if (ok) {
                    for (u32 v : touched) linVals.push_back({v, cand[v]});
                    r = Z3_L_TRUE;
                }
            }
            if (r == Z3_L_UNDEF) smallSolve(lits, touched, cur, r, linVals);
            small = r != Z3_L_UNDEF;
            if (small) g_solverStats.small++;
        }
        if (!noLin && !small) r = linSolve(lits, touched, linVals, lin);
        if (lin) g_solverStats.linear++;
        Z3_lbool linAnswer = r;
        if (cross) r = Z3_L_UNDEF;
        if (r != Z3_L_UNDEF)
            ;
        else if (skip > 0)
            skip--;
        else {
            if (!S || g_sinceReset > resetEvery) newSolver();
            g_sinceReset++;
            std::vector<Z3_ast> as;
            for (E e : lits) as.push_back(proxyFor(e));
            r = Z3_solver_check_assumptions(C, S, as.size(), as.data());
            if (r == Z3_L_UNDEF) {
                if (++giveUps >= 3) skip = 40, giveUps = 2;
            } else if (giveUps > 0)
                giveUps--;
        }
        Z3_solver used = S;
        Z3_solver oneShot = nullptr;
        if (r == Z3_L_UNDEF && g_err.empty()) {
            // full preprocessing of just this query
            Z3_tactic tac = Z3_mk_tactic(C, "qfbv");
            Z3_tactic_inc_ref(C, tac);
            oneShot = Z3_mk_solver_from_tactic(C, tac);
            Z3_solver_inc_ref(C, oneShot);
            Z3_tactic_dec_ref(C, tac);
            Z3_params p = Z3_mk_params(C);
            Z3_params_inc_ref(C, p);
            Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), g_queryTimeoutMs);
            Z3_solver_set_params(C, oneShot, p);
            Z3_params_dec_ref(C, p);
            for (E e : lits) Z3_solver_assert(C, oneShot, toBool(e));
            r = Z3_solver_check(C, oneShot);
            used = oneShot;
            g_solverStats.oneShot++;
        }
        lin = lin || small;
        if (cross && lin && linAnswer != Z3_L_UNDEF && r != Z3_L_UNDEF && linAnswer != r) {
            fprintf(stderr, "solver answers differ\n");
            abort();
        }
        bool fromLin = lin && linAnswer == Z3_L_TRUE && !cross;
        CacheEnt ent;
        if (!g_err.empty()) {
            fprintf(stderr, "z3 error: %s\n", g_err.c_str());
            r = Z3_L_UNDEF;
        }
        if (r == Z3_L_TRUE) {
            Z3_model m = fromLin ? nullptr : Z3_solver_get_model(C, used);
            if (m) Z3_model_inc_ref(C, m);
            std::vector<std::pair<u32, u64>> vals;
            if (fromLin) vals = linVals;
            else for (u32 v : touched) {
                Z3_ast val;
                u64 x = 0;
                if (Z3_model_eval(C, m, toBV(mkVar(v, g_vars[v].width)), true, &val)) {
                    uint64_t t = 0;
                    Z3_get_numeral_uint64(C, val, &t);
                    x = t;
                }
                vals.push_back({v, x});
            }
            if (m) Z3_model_dec_ref(C, m);
            out = cur;
            for (auto& kv : vals) {
                if (out.size() <= kv.first) out.resize(kv.first + 1, 0);
                out[kv.first] = kv.second;
            }
            // every answer is checked against our own evaluator
            bool ok = true;
            for (E e : lits)
                if (!evalExpr(e, out)) ok = false;
            if (!ok) {
                fprintf(stderr, "solver model does not satisfy query\n");
                res = Sat::UNKNOWN;
            } else {
                res = Sat::SAT;
                if (!small) recentAt = (recentAt + 1) % recent.size();
                recent[recentAt] = out;
            }
            ent.m = vals;
        } else if (r == Z3_L_FALSE)
            res = Sat::UNSAT;
        else {
            res = Sat::UNKNOWN;
            newSolver();
        }
        if (oneShot) {
            Z3_solver_dec_ref(C, oneShot);
            // clauses of a query it gave up on only slow the incremental solver down
            if (!skip || g_sinceReset > 1) newSolver();
        }
        if (const char* dd = getenv("SYMX_DUMP")) {
            double dt0 = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            const char* th = getenv("SYMX_DUMP_T");
            if (dt0 > (th ? atof(th) : 1.0)) {
                Z3_solver D = Z3_mk_solver(C);
                Z3_solver_inc_ref(C, D);
                for (E e : lits) Z3_solver_assert(C, D, toBool(e));
                std::string fn = std::string(dd) + "/q" + std::to_string(g_solverStats.queries) + ".smt2";
                if (FILE* f = fopen(fn.c_str(), "w")) {
                    fprintf(f, "; %s %.2fs\n%s(check-sat)\n", r == Z3_L_TRUE ? "sat" : r == Z3_L_FALSE ? "unsat" : "unknown", dt0, Z3_solver_to_string(C, D));
                    fclose(f);
                }
                Z3_solver_dec_ref(C, D);
            }
        }
        double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        g_solverStats.seconds += dt;
        g_solverStats.maxSeconds = std::max(g_solverStats.maxSeconds, dt);
        g_solverStats.queries++;
        if (res == Sat::SAT) g_solverStats.sat++;
        else if (res == Sat::UNSAT) g_solverStats.unsat++;
        else g_solverStats.unknown++;
        ent.r = res;
        if (g_cache.size() > 300000) g_cache.clear();
        g_cache.emplace(std::move(key), std::move(ent));
    }
    for (u32 v : touched) inSlice[v] = 0;
    return res;
}
}  // namespace symx
