#pragma once
#include "symx.h"
enum Res { UNSAT, SAT, UNKNOWN };
struct SolverStats { u64 queries = 0, trivial = 0, cached = 0, reused = 0, z3calls = 0, sat = 0, unsat = 0, unknown = 0; double time = 0, maxTime = 0; };
extern SolverStats g_ss; extern unsigned g_queryTimeoutMs;
void solverInit();
Res solve(State &s, EP extra, std::vector<u64> &out);
const std::vector<u32> &varsOf(EP e);
