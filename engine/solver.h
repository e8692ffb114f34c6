#pragma once
#include "expr.h"
#include <chrono>
enum class Res { Sat, Unsat, Unknown };
struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0; double seconds = 0, maxq = 0; };
extern SolverStats gSolverStats;
extern unsigned gSolverTimeoutMs;
// Decides the conjunction of cs; fills model (only for variables occurring in cs) when Sat.
Res solve(const std::vector<E>& cs, Assignment* model);
