// SMT back end: satisfiability of conjunctions of width-1 expressions.
#pragma once
#include <string>
#include <vector>

#include "expr.h"

namespace symx {
enum class Sat { SAT, UNSAT, UNKNOWN };

struct SolverStats {
    u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, oneShot = 0, linear = 0, small = 0;
    double seconds = 0, maxSeconds = 0;
};
extern SolverStats g_solverStats;
extern unsigned g_queryTimeoutMs;

// Is /\ pc /\ q satisfiable?  pc must be satisfied by `cur`.  On SAT `out` is a model of pc /\ q.
Sat solve(const std::vector<E>& pc, E q, const Model& cur, Model& out);
std::string solverVersion();
}  // namespace symx
