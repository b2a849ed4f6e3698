#pragma once
#include "expr.h"
enum class Res { SAT, UNSAT, UNKNOWN };
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cached = 0; double secs = 0, maxq = 0; };
extern SolverStats g_ss;
extern unsigned g_queryTimeoutMs;
void solverInit();
// is /\cs satisfiable?  on SAT, fills values of the variables occurring in cs
Res solve(const std::vector<E> &cs, std::unordered_map<uint32_t, u128> *out);
