#pragma once
#include "expr.h"
#include <memory>
enum Res { SAT, UNSAT, UNKNOWN };
struct SolverStats {
    u64 queries = 0, satcalls = 0, crossed = 0, z3calls = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0,
        modelHits = 0;
    double time = 0, maxTime = 0;
    u64 rlimit = 0;
};
extern SolverStats g_ss;
extern unsigned g_solverTimeoutMs, g_crossEvery;
extern bool g_z3only;
using Model = std::vector<std::pair<u32, u64>>; // sorted by var
using ModelP = std::shared_ptr<const Model>;
// Decide conjunction of cs and q. On SAT fills model for all vars occurring.
Res solverCheck(const std::vector<Expr*>& cs, Expr* q, ModelP& out);
u64 modelGet(const Model& m, u32 v);
