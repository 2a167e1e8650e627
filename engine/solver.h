#pragma once
#include "expr.h"
enum class Sat { Yes, No, Unknown };
struct SolverStats { u64 queries = 0, z3calls = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0; double seconds = 0; double maxSeconds = 0; };
extern SolverStats gSolver;
extern unsigned gSolverTimeoutMs;
// conjunction of the given boolean (1-bit) expressions; fills model (only for the symbols involved) when Yes
Sat solve(const std::vector<const Expr*>& cs, Assignment* model);
